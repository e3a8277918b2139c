//@property C38
//@src src/jogasaki/executor/sequence/sequence.cpp src/jogasaki/executor/sequence/manager.cpp src/jogasaki/executor/sequence/metadata_store.cpp src/jogasaki/executor/sequence/info.cpp src/jogasaki/kvs/coder.cpp src/jogasaki/kvs/writable_stream.cpp src/jogasaki/kvs/readable_stream.cpp src/jogasaki/utils/coder.cpp src/jogasaki/utils/decimal.cpp src/jogasaki/data/any.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/accessor/text.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp
//@stubs
//@inc stubs_seq stubs_tbb
//@threads
//@entry c38_next quick=60 thorough=120 | one draw: every definition (64-bit initial, increment, minimum, maximum, cycling or not) and every current version and value
//@entry c38_draws quick=60 thorough=300 | every 64-bit definition, 1..3 draws (thorough 1..5) from the start, in transactions that commit or abort in every pattern, crash and recovery, two more draws
//@entry c38_map quick=60 thorough=300 | histories of 4 operations (thorough 5): register with and without assigning ids, remove, draw, crash, over two of three definition ids
//@entry c38_provider quick=60 thorough=60 | catalogs of 0..2 sequences with symbolic definitions, restart with and without assigning ids
//@entry c38_conc quick=60 thorough=300 preempt=3 | two or three threads drawing once or twice each and recording their transaction, symbolic definition, every schedule with at most 3 preemptions (thorough 4)
#include "sym.h"
#include "wide_atomic.h"
#include "kvs_env.h"
#include <set>
#include <jogasaki/executor/sequence/manager.h>
#include <jogasaki/executor/sequence/exception.h>
#include <yugawara/storage/configurable_provider.h>
using namespace jogasaki; using namespace jogasaki::executor::sequence; namespace sq = jogasaki::executor::sequence;
struct def { int64_t init, inc, lo, hi; bool cyc; def() : init((int64_t)sym_u64("initial")), inc((int64_t)sym_u64("increment")), lo((int64_t)sym_u64("minimum")), hi((int64_t)sym_u64("maximum")), cyc(sym_choose(2, "cycle")) { sym_assume(inc != 0); sym_assume(lo <= init); sym_assume(init <= hi); }
    def(int64_t a, int64_t b, int64_t c, int64_t d, bool e) : init(a), inc(b), lo(c), hi(d), cyc(e) {} sq::sequence* reg(manager& m, kvs::transaction* t, size_t id, bool save = true, bool assign = true) const { return m.register_sequence(t, id, "s", init, inc, lo, hi, cyc, save, assign); } };
// the value after x according to the definition, computed without wrapping; false: the sequence is exhausted
static bool follow(def const& d, int64_t x, int64_t& r) { __int128 n = (__int128)x + d.inc; bool up = d.inc > 0; bool in = sym_and(n <= d.hi, n >= d.lo); if (in) { r = (int64_t)n; return true; } if (!d.cyc) return false; r = up ? d.lo : d.hi; return true; }
using res = takatori::util::either<sequence_error, sequence_value>;
static void drawn(def const& d, bool first, int64_t& cur, res const& r) { int64_t want; if (first) { sym_assert(r.has_value() && r.value() == d.init, "the first draw yields the initial value"); cur = d.init; return; } bool ok = follow(d, cur, want); sym_assert(r.has_value() == ok, "error exactly at the end of a sequence that does not cycle"); if (ok) { sym_assert(r.value() == want, "the next value follows the definition"); cur = want; } else SYM_ASSERT(r.error() == (d.inc > 0 ? sequence_error::out_of_upper_bound : sequence_error::out_of_lower_bound)); }
HARNESS(c38_next) {
    def d; kvs::database db; db.seqs[0] = {0, 0}; db.next_id = 1; manager m{db, {{7, 0}}}; size_t v = sym_u64("version"); sym_assume(v < (1ull << 63)); int64_t x = (int64_t)sym_u64("value"); sym_assume(x >= d.lo); sym_assume(x <= d.hi); db.seqs[0] = {v, x}; auto tx = db.create_transaction(); auto* s = d.reg(m, tx.get(), 7); SYM_ASSERT(s && s == m.find_sequence(7)); bool fresh = v <= 1; auto g = s->get(); if (fresh) sym_assert(g.version_ == 1, "a sequence never drawn from is of version 1"); else sym_assert(g.version_ == v && g.value_ == x, "the persisted version and value are taken over");
    auto r = s->next(*tx); int64_t cur = x; drawn(d, fresh, cur, r); auto a = s->get(); if (r.has_value()) sym_assert(a.version_ == g.version_ + 1 && a.value_ == r.value(), "a draw advances version and value"); else sym_assert(a == g, "a failed draw changes nothing"); m.notify_updates(*tx); sym_assert(tx->s.at(0) == a, "the current version and value are recorded for the transaction"); SYM_ASSERT(tx->s.size() == 1); auto& i = s->info(); sym_assert(i.initial_value() == d.init && i.increment() == d.inc && i.minimum_value() == d.lo && i.maximum_value() == d.hi && i.cycle() == d.cyc && i.definition_id() == 7 && i.id() == 0 && i.name() == "s", "definition"); sym_observe("v", (uint64_t)a.value_);
}
HARNESS(c38_draws) {
    def d; kvs::database db; auto m = std::make_unique<manager>(db); { auto tx = db.create_transaction(); d.reg(*m, tx.get(), 3); tx->commit(); } auto* s = m->find_sequence(3); size_t n = sym_size("draws", 1, QT(3, 5)); int64_t cur = 0, dur = 0; bool first = true, dfirst = true; auto tx = db.create_transaction(); bool used = false;
    for (size_t i = 0; i < n; i++) { auto r = s->next(*tx); used = true; drawn(d, first, cur, r); if (!r.has_value()) { SYM_ASSERT(!s->next(*tx).has_value()); sym_stop(); } first = false; unsigned e = sym_choose(3, "end"); if (e) { SYM_ASSERT(m->notify_updates(*tx)); if (e == 1) { tx->commit(); dur = cur; dfirst = false; } else tx->abort_transaction(); tx = db.create_transaction(); used = false; SYM_ASSERT(m->notify_updates(*tx)); SYM_ASSERT(tx->s.empty()); } }
    m.reset(); tx = db.create_transaction(); m = std::make_unique<manager>(db); SYM_ASSERT(m->load_id_map(tx.get()) == 1); SYM_ASSERT(m->find_sequence(3) == nullptr); s = d.reg(*m, tx.get(), 3, false, false); SYM_ASSERT(s); SYM_ASSERT(db.next_id == 1);
    for (int i = 0; i < 2; i++) { auto r = s->next(*tx); drawn(d, dfirst, dur, r); if (!r.has_value()) break; dfirst = false; } sym_observe("cur", (uint64_t)dur);
}
HARNESS(c38_map) {
    static const size_t IDS[] = {0, 1, (1ull << 40) + 5}; size_t A = sym_choose(2, "ids"); size_t id[2] = {IDS[A], IDS[A + 1]}; def d{0, 1, 0, 1000, false}; kvs::database db; auto m = std::make_unique<manager>(db); struct st { bool mem = false, reg = false; size_t seq = 0; int64_t n = 0; } x[2]; std::set<size_t> given;
    auto check = [&] { for (int k = 0; k < 2; k++) { auto* s = m->find_sequence(id[k]); SYM_ASSERT((s != nullptr) == x[k].reg); if (s) { SYM_ASSERT(s->info().id() == x[k].seq); SYM_ASSERT(s->info().definition_id() == id[k]); SYM_ASSERT(db.seqs.count(x[k].seq) == 1); } } SYM_ASSERT(m->sequences().size() == (size_t)(x[0].mem + x[1].mem)); auto tx = db.create_transaction(); manager o{db}; size_t cnt = o.load_id_map(tx.get()); SYM_ASSERT(cnt == (size_t)(x[0].mem + x[1].mem)); for (int k = 0; k < 2; k++) if (x[k].mem) { manager::sequences_type::const_accessor a; SYM_ASSERT(o.sequences().find(a, id[k])); SYM_ASSERT(a->second.id() == x[k].seq); } };
    size_t steps = QT(4, 5); for (size_t i = 0; i < steps; i++) { int k = (int)sym_choose(2, "which"); auto tx = db.create_transaction(); switch (sym_choose(5, "op")) {
        case 0: { auto* s = d.reg(*m, tx.get(), id[k]); SYM_ASSERT(s); if (!x[k].mem) { SYM_ASSERT(given.insert(s->info().id()).second); x[k].seq = s->info().id(); x[k].n = 0; } x[k].mem = x[k].reg = true; break; }
        case 1: { auto* s = d.reg(*m, tx.get(), id[k], false, false); SYM_ASSERT((s != nullptr) == x[k].mem); if (s) x[k].reg = true; break; }
        case 2: { bool r = m->remove_sequence(id[k], tx.get()); SYM_ASSERT(r == x[k].mem); if (r) { SYM_ASSERT(db.seqs.count(x[k].seq) == 0); x[k] = st{}; } break; }
        case 3: { auto* s = m->find_sequence(id[k]); if (!s) sym_stop(); auto r = s->next(*tx); SYM_ASSERT(r.has_value() && r.value() == x[k].n); x[k].n++; SYM_ASSERT(m->notify_updates(*tx)); break; }
        case 4: { if (k) sym_stop(); m = std::make_unique<manager>(db); m->load_id_map(tx.get()); x[0].reg = x[1].reg = false; break; } }
        SYM_ASSERT(tx->commit() == status::ok); check(); }
}
HARNESS(c38_provider) {
    auto p = std::make_shared<yugawara::storage::configurable_provider>(); size_t n = sym_size("sequences", 0, 2); std::vector<def> ds; for (size_t i = 0; i < n; i++) { ds.emplace_back(); auto s = std::make_shared<yugawara::storage::sequence>(); s->d = i * 3 + 1; s->n = "s"; s->i = ds[i].init; s->s = ds[i].inc; s->lo = ds[i].lo; s->hi = ds[i].hi; s->c = ds[i].cyc; p->v.push_back(s); } kvs::database db; bool known = sym_choose(2, "known"); takatori::util::maybe_shared_ptr<yugawara::storage::configurable_provider> mp{p};
    if (known) { manager m{db}; auto tx = db.create_transaction(); m.register_sequences(tx.get(), mp, true); tx->commit(); for (size_t i = 0; i < n; i++) SYM_ASSERT(m.find_sequence(i * 3 + 1)); }
    manager m{db}; auto tx = db.create_transaction(); SYM_ASSERT(m.load_id_map(tx.get()) == (known ? n : 0)); bool assign = sym_choose(2, "assign"), thrown = false; try { m.register_sequences(tx.get(), mp, assign); } catch (sq::exception const& e) { thrown = true; SYM_ASSERT(e.get_status() == status::err_not_found); } SYM_ASSERT(thrown == (!known && !assign && n > 0)); if (thrown) return; SYM_ASSERT(db.next_id == n);
    for (size_t i = 0; i < n; i++) { auto* s = m.find_sequence(i * 3 + 1); SYM_ASSERT(s); auto& f = s->info(); sym_assert(f.initial_value() == ds[i].init && f.increment() == ds[i].inc && f.minimum_value() == ds[i].lo && f.maximum_value() == ds[i].hi && f.cycle() == ds[i].cyc, "definition taken over"); auto r = s->next(*tx); sym_assert(r.has_value() && r.value() == ds[i].init, "initial value"); }
}
HARNESS(c38_conc) {
    int64_t init = (int64_t)sym_u64("initial"), inc = (int64_t)sym_u64("increment"); sym_assume(init > -(1ll << 60)); sym_assume(init < (1ll << 60)); sym_assume(inc > 0); sym_assume(inc < (1ll << 58)); def d{init, inc, -(1ll << 62), 1ll << 62, false}; kvs::database db; manager m{db}; { auto tx = db.create_transaction(); d.reg(m, tx.get(), 3); tx->commit(); } auto* s = m.find_sequence(3);
    size_t n = 2 + sym_choose(2, "three"); size_t each = n == 2 ? 1 + sym_choose(2, "twice") : 1; std::vector<int64_t> got; struct job { std::function<void()> f; }; std::vector<job> js; std::vector<std::unique_ptr<kvs::transaction>> tx; std::vector<int64_t> lastv(n); for (size_t i = 0; i < n; i++) tx.push_back(db.create_transaction());
    for (size_t i = 0; i < n; i++) js.push_back({[&, i] { for (size_t k = 0; k < each; k++) { auto r = s->next(*tx[i]); SYM_ASSERT(r.has_value()); got.push_back(r.value()); lastv[i] = r.value(); } m.notify_updates(*tx[i]); SYM_ASSERT(tx[i]->s.size() == 1); auto v = tx[i]->s.at(0); sym_assert(v.value_ == init + (int64_t)(v.version_ - 2) * inc, "the recorded value is the one of the recorded version"); sym_assert(v.value_ >= lastv[i], "the recorded value is no older than the last one drawn"); }});
    for (auto& j : js) jsym_spawn([](void* a) { static_cast<job*>(a)->f(); }, &j); jsym_join_all(); SYM_ASSERT(got.size() == n * each); for (size_t k = 0; k < got.size(); k++) { int hits = 0; for (auto g : got) hits += sym_ite(g == init + (int64_t)k * inc, 1, 0); sym_assert(hits == 1, "every value of the progression is handed out exactly once"); } sym_assert(s->get().version_ == 1 + got.size(), "one version per draw"); for (auto& t : tx) t->commit(); sym_assert(db.seqs[0].value_ == init + (int64_t)(got.size() - 1) * inc, "the last value is durable once everyone committed");
}
