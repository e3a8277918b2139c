//@property C17 C18
//@src src/jogasaki/storage/storage_manager.cpp src/jogasaki/storage/shared_lock.cpp src/jogasaki/storage/unique_lock.cpp src/jogasaki/storage/reference_scope.cpp src/jogasaki/storage/maintenance_storage.cpp src/jogasaki/auth/action_set.cpp src/jogasaki/auth/authorized_users_action_set.cpp
//@stubs
//@inc stubs_store stubs_tbb
//@threads
//@proto jogasaki/proto/metadata/storage.proto
//@entry c17_control prop=C17 quick=60 thorough=60 preempt=0 | one storage: any 6 lock, shared lock and release operations (thorough 8), including releases that are not due
//@entry c17_race prop=C17 quick=60 thorough=300 preempt=4 spurious=1 | two or three threads (thorough also four), each taking and releasing one exclusive or shared lock, every schedule with at most 4 preemptions, one spurious compare-exchange failure
//@entry c17_owners prop=C17 quick=60 thorough=300 preempt=2 | two threads each locking one or two of two storages through the manager in every mode and order, every schedule with at most 2 preemptions (thorough 3)
//@entry c18_locks prop=C18 quick=60 thorough=300 preempt=0 | histories of 3 operations (thorough 4) of two exclusive and two shared owners over every list of up to two of two storages and an unknown one
//@entry c18_catalog prop=C18 quick=60 thorough=300 preempt=0 | histories of 4 operations (thorough 5) adding, removing and delete-reserving two storages, every name and storage key form
//@entry c18_lookup prop=C18 quick=60 thorough=300 preempt=2 | a thread looking up by name, by storage key or by id while another removes, delete-reserves or adds the storage, at most 2 preemptions (thorough 3)
//@entry c18_refs prop=C18 quick=60 thorough=200 preempt=2 | two or three threads adding references to one or two storages in one or two scopes, at most 2 preemptions
//@entry c18_maint prop=C18 quick=60 thorough=100 preempt=0 | a table and its index, each live, delete-reserved or removed, referenced or not, deletion failing or not, with and without a stop request
//@entry c18_ids prop=C18 quick=60 thorough=60 preempt=3 | two threads each generating two surrogate ids from any start
#include "sym.h"
#include "fail_env.h"
#include <functional>
#include <set>
#include <thread>
#include <jogasaki/executor/global.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/storage/maintenance_storage.h>
#include <jogasaki/storage/reference_scope.h>
#include <jogasaki/storage/storage_manager.h>
using namespace jogasaki; using namespace jogasaki::storage; using impl::storage_control;
struct job { std::function<void()> f; }; static void run(std::vector<job>& js) { for (auto& j : js) jsym_spawn([](void* a) { static_cast<job*>(a)->f(); }, &j); jsym_join_all(); }
static void is(storage_control& c, bool wr, int rd) { SYM_ASSERT(c.can_lock() == (!wr && !rd)); SYM_ASSERT(c.can_lock_shared() == !wr); }
HARNESS(c17_control) {
    storage_control c{"T"}; bool wr = false; int rd = 0; for (int i = 0; i < QT(6, 8); i++) { switch (sym_choose(4, "op")) { case 0: { bool r = c.lock(); SYM_ASSERT(r == (!wr && !rd)); if (r) wr = true; break; } case 1: { bool r = c.lock_shared(); SYM_ASSERT(r == !wr); if (r) rd++; break; }
        case 2: { bool t = false; try { c.release(); } catch (std::logic_error const&) { t = true; } SYM_ASSERT(t == !wr); wr = false; break; } case 3: { bool t = false; try { c.release_shared(); } catch (std::logic_error const&) { t = true; } SYM_ASSERT(t == !rd); if (rd) rd--; break; } } is(c, wr, rd); } }
HARNESS(c17_race) {
    storage_control c{"T"}; size_t n = 2 + sym_choose(QT(2, 3), "threads"); bool ex[4]; size_t exs = 0; for (size_t i = 0; i < n; i++) { ex[i] = sym_choose(2, "exclusive"); if (i && ex[i] > ex[i - 1]) sym_stop(); exs += ex[i]; } int wr = 0, rd = 0, got = 0; std::vector<job> js;
    for (size_t i = 0; i < n; i++) js.push_back({[&, i] { if (ex[i]) { if (!c.lock()) return; SYM_ASSERT(!wr && !rd); wr++; SYM_ASSERT(!c.can_lock() && !c.can_lock_shared()); SYM_ASSERT(wr == 1 && !rd); wr--; c.release(); } else { if (!c.lock_shared()) { SYM_ASSERT(exs); return; } SYM_ASSERT(!wr); rd++; SYM_ASSERT(!c.can_lock()); SYM_ASSERT(c.can_lock_shared()); SYM_ASSERT(!wr); rd--; c.release_shared(); } got++; }});
    run(js); if (!exs) SYM_ASSERT(got == (int)n); if (exs == 1 && n == 2) SYM_ASSERT(got >= 1); is(c, false, 0); SYM_ASSERT(c.lock()); is(c, true, 0); }
static storage_list lists(size_t k) { switch (k) { case 0: return {1}; case 1: return {2}; case 2: return {1, 2}; case 3: return {2, 1}; case 4: return {}; case 5: return {1, 1}; case 6: return {1, 9}; default: return {9}; } }
HARNESS(c17_owners) {
    storage_manager m; m.add_entry(1, "A"); m.add_entry(2, "B"); int wr[3] = {}, rd[3] = {}; bool ex[2]; size_t l[2]; bool done[2] = {}; for (int i = 0; i < 2; i++) { ex[i] = sym_choose(2, "exclusive"); l[i] = sym_choose(4, "list"); } if (ex[0] < ex[1]) sym_stop(); std::vector<job> js;
    for (int i = 0; i < 2; i++) js.push_back({[&, i] { auto s = lists(l[i]); std::unique_ptr<unique_lock> u; std::unique_ptr<shared_lock> h; if (ex[i]) { u = m.create_unique_lock(); if (!m.add_locked_storages(s, *u)) { SYM_ASSERT(u->storage().size() == 0); return; } for (auto e : s) { SYM_ASSERT(!wr[e] && !rd[e]); wr[e]++; } std::this_thread::yield(); for (auto e : s) { SYM_ASSERT(wr[e] == 1 && !rd[e]); wr[e]--; } } else { h = m.create_shared_lock(s); if (!h) return; for (auto e : s) { SYM_ASSERT(!wr[e]); rd[e]++; } std::this_thread::yield(); for (auto e : s) { SYM_ASSERT(!wr[e]); rd[e]--; } } done[i] = true; }});
    run(js); if (!ex[0] && !ex[1]) SYM_ASSERT(done[0] && done[1]); bool cross = l[0] + l[1] == 5 && l[0] != l[1] && l[0] >= 2; if (!cross) SYM_ASSERT(done[0] || done[1]); for (storage_entry e : {1, 2}) is(*m.find_entry(e), false, 0); }
HARNESS(c18_locks) {
    storage_manager m; m.add_entry(1, "A"); m.add_entry(2, "B"); struct { std::unique_ptr<unique_lock> u; std::set<storage_entry> h; } U[2]; struct { std::unique_ptr<shared_lock> s; std::vector<storage_entry> h; } S[2]; for (auto& u : U) u.u = m.create_unique_lock(); int wr[10] = {}, rd[10] = {};
    auto check = [&] { for (storage_entry e : {1, 2}) { auto c = m.find_entry(e); is(*c, wr[e] > 0, rd[e]); } for (auto& u : U) if (u.u) { SYM_ASSERT(u.u->storage().size() == u.h.size()); for (auto e : u.h) SYM_ASSERT(u.u->storage().contains(e)); } for (auto& s : S) if (s.s) { SYM_ASSERT(s.s->storage().size() == s.h.size()); for (auto e : s.h) SYM_ASSERT(s.s->storage().contains(e)); } };
    for (int i = 0; i < QT(3, 4); i++) { int o = (int)sym_choose(2, "owner"); if (!i && o) sym_stop(); switch (sym_choose(6, "op")) {
        case 0: { if (!U[o].u) sym_stop(); auto l = lists(sym_choose(8, "list")); bool ok = true; std::set<storage_entry> fresh; for (auto e : l) { if (U[o].h.count(e)) continue; if (e == 9 || wr[e] || rd[e] || !fresh.insert(e).second) { ok = false; break; } } bool r = m.add_locked_storages(l, *U[o].u); SYM_ASSERT(r == ok); if (ok) for (auto e : fresh) { wr[e]++; U[o].h.insert(e); } break; }
        case 1: { if (!U[o].u) sym_stop(); auto l = lists(sym_choose(5, "list")); for (auto e : l) if (!U[o].h.count(e)) sym_stop(); m.remove_locked_storages(l, *U[o].u); for (auto e : l) { wr[e]--; U[o].h.erase(e); } break; }
        case 2: { if (!U[o].u) sym_stop(); storage_entry e = sym_choose(2, "entry") + 1; U[o].u->release_storage(e); if (U[o].h.erase(e)) wr[e]--; break; }
        case 3: { if (!U[o].u) sym_stop(); U[o].u.reset(); for (auto e : U[o].h) wr[e]--; U[o].h.clear(); break; }
        case 4: { if (S[o].s) sym_stop(); auto l = lists(sym_choose(8, "list")); unsigned p = (unsigned)sym_choose(3, "parent"); if (p == 2 && !U[0].u) sym_stop(); if (p == 1 && !U[1].u) sym_stop(); unique_lock* par = p ? U[2 - p].u.get() : nullptr; std::vector<storage_entry> h; bool ok = true; for (auto e : l) { if (par && U[2 - p].h.count(e)) continue; if (e == 9 || wr[e]) { ok = false; break; } h.push_back(e); } S[o].s = m.create_shared_lock(l, par); SYM_ASSERT((S[o].s != nullptr) == ok); if (ok) { S[o].h = h; for (auto e : h) rd[e]++; } break; }
        case 5: { if (!S[o].s) sym_stop(); S[o].s.reset(); for (auto e : S[o].h) rd[e]--; S[o].h.clear(); break; } } check(); }
    for (auto& s : S) s.s.reset(); for (auto& u : U) u.u.reset(); for (storage_entry e : {1, 2}) is(*m.find_entry(e), false, 0); }
HARNESS(c18_catalog) {
    storage_manager m; struct st { bool in = false, reserved = false; std::optional<std::string> name, key; std::string orig; bool prim = true; } x[3]; static const char* N[] = {"A", "B"}; static const char* K[] = {"k1", "k2"};
    auto derived = [](st const& s) { return s.key ? *s.key : s.name ? *s.name : s.orig; };
    auto check = [&] { SYM_ASSERT(m.size() == (size_t)(x[1].in + x[2].in)); for (storage_entry e : {1, 2}) { auto c = m.find_entry(e); SYM_ASSERT((c != nullptr) == x[e].in); if (!c) continue; SYM_ASSERT(c->name().has_value() == x[e].name.has_value()); if (c->name()) SYM_ASSERT(*c->name() == *x[e].name); SYM_ASSERT(c->original_name() == x[e].orig); SYM_ASSERT(c->delete_reserved() == x[e].reserved); SYM_ASSERT(c->derived_storage_key() == derived(x[e])); SYM_ASSERT(c->is_primary() == x[e].prim); SYM_ASSERT(c->primary_entry().has_value() == !x[e].prim); }
        for (auto n : N) { storage_entry w = 0; for (storage_entry e : {1, 2}) if (x[e].in && x[e].name == n) w = e; auto f = m.find_by_name(n); SYM_ASSERT(f.has_value() == (w != 0)); if (w) SYM_ASSERT(*f == w); auto k = m.get_storage_key(n); SYM_ASSERT(k.has_value() == (w != 0)); if (w) SYM_ASSERT(*k == derived(x[w])); if (w) { auto b = m.get_index_name(derived(x[w])); SYM_ASSERT(b && *b == n); } }
        for (auto k : K) { storage_entry w = 0; for (storage_entry e : {1, 2}) if (x[e].in && x[e].name && derived(x[e]) == k) w = e; auto b = m.get_index_name(k); SYM_ASSERT(b.has_value() == (w != 0)); if (w) SYM_ASSERT(*b == *x[w].name); }
        auto r = m.get_delete_reserved_entries(); std::set<storage_entry> s(r.begin(), r.end()), want; for (storage_entry e : {1, 2}) if (x[e].in && x[e].reserved) want.insert(e); SYM_ASSERT(s == want); };
    for (int i = 0; i < QT(4, 5); i++) { storage_entry e = sym_choose(2, "entry") + 1, o = 3 - e; switch (sym_choose(4, "op")) {
        case 0: { unsigned nm = (unsigned)sym_choose(3, "name"), ky = (unsigned)sym_choose(2, "key"); if (x[e].in) { SYM_ASSERT(!m.add_entry(e, "Z")); SYM_ASSERT(!m.find_by_name("Z")); break; } st n; n.in = true; if (!i && nm == 1) sym_stop(); if (nm < 2) { n.name = N[nm]; n.orig = N[nm]; if (x[o].in && x[o].name == n.name) sym_stop(); } else { n.orig = "gone"; n.reserved = true; } if (ky) n.key = K[e - 1]; n.prim = e == 1; if (x[o].in && derived(n) == derived(x[o])) sym_stop(); std::optional<std::string_view> pn, pk, po; if (n.name) pn = *n.name; if (n.key) pk = *n.key; if (!n.name) po = n.orig; SYM_ASSERT(m.add_entry(e, pn, pk, n.prim, n.prim ? std::nullopt : std::optional<storage_entry>{1}, po)); x[e] = n; break; }
        case 1: { SYM_ASSERT(m.remove_entry(e) == x[e].in); x[e] = st{}; break; }
        case 2: { if (x[e].in && x[e].reserved) sym_stop(); SYM_ASSERT(m.reserve_delete_entry(e) == x[e].in); if (x[e].in) { if (!x[e].key) x[e].key = x[e].name; x[e].name.reset(); x[e].reserved = true; } break; }
        case 3: { if (e == 2) sym_stop(); m.clear(); x[1] = x[2] = st{}; break; } } check(); } }
HARNESS(c18_lookup) {
    storage_manager m; bool keyed = sym_choose(2, "keyed"); std::optional<std::string_view> key; if (keyed) key = "k"; unsigned w = (unsigned)sym_choose(3, "writer"), r = (unsigned)sym_choose(4, "reader"); if (w != 2) m.add_entry(1, "A", key); std::string want = keyed ? "k" : "A"; bool over = false, begun = false; std::vector<job> js;
    js.push_back({[&] { begun = true; bool ok = w == 0 ? m.remove_entry(1) : w == 1 ? m.reserve_delete_entry(1) : m.add_entry(1, "A", key); SYM_ASSERT(ok); over = true; }});
    for (int t = 0; t < 1 + (int)sym_choose(2, "two readers"); t++) js.push_back({[&] { bool late = over, there, ok = true; if (r == 0) { auto k = m.get_storage_key("A"); there = k.has_value(); if (k) ok = *k == want; } else if (r == 1) { auto n = m.get_index_name(want); there = n.has_value(); if (n) ok = *n == "A"; } else if (r == 2) { auto e = m.find_by_name("A"); there = e.has_value(); if (e) ok = *e == 1; } else { auto c = m.find_entry(1); there = c != nullptr; if (w == 1) return; } SYM_ASSERT(ok); if (late) SYM_ASSERT(there == (w == 2)); if (!begun) SYM_ASSERT(there == (w != 2)); }});
    run(js); bool reg = w == 2; SYM_ASSERT(m.find_by_name("A").has_value() == reg); SYM_ASSERT(m.get_storage_key("A").has_value() == reg); SYM_ASSERT(m.get_index_name(want).has_value() == reg); SYM_ASSERT((m.find_entry(1) != nullptr) == (w != 0)); }
HARNESS(c18_refs) {
    storage_manager m; m.add_entry(1, "A"); m.add_entry(2, "B"); bool two = sym_choose(2, "two scopes"); auto s0 = std::make_unique<reference_scope>(m), s1 = std::make_unique<reference_scope>(m); size_t n = 2 + sym_choose(2, "threads"); std::set<storage_entry> in[2]; std::vector<job> js; for (size_t i = 0; i < n; i++) { size_t sc = two ? i % 2 : 0; storage_entry e = i == 0 ? 1 : 1 + sym_choose(2, "entry"); in[sc].insert(e); js.push_back({[&, sc, e] { (sc ? s1 : s0)->add_storage(e); (sc ? s1 : s0)->add_storage(9); }}); } run(js);
    auto cnt = [&](storage_entry e) { return m.find_entry(e)->ref_transaction_count(); }; for (storage_entry e : {1, 2}) SYM_ASSERT(cnt(e) == in[0].count(e) + in[1].count(e)); bool gone = sym_choose(2, "removed meanwhile"); if (gone) m.remove_entry(2); s0.reset(); for (storage_entry e : {1, 2}) if (e == 1 || !gone) SYM_ASSERT(cnt(e) == in[1].count(e)); s1.reset(); for (storage_entry e : {1, 2}) if (e == 1 || !gone) SYM_ASSERT(cnt(e) == 0); }
static std::shared_ptr<storage_manager> g_mgr; static std::shared_ptr<kvs::database> g_db;
namespace jogasaki::global { std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { return g_mgr; } std::shared_ptr<kvs::database> const& db(std::shared_ptr<kvs::database>) { return g_db; } }
HARNESS(c18_maint) {
    g_mgr = std::make_shared<storage_manager>(); g_db = std::make_shared<kvs::database>(); auto& m = *g_mgr; unsigned t = (unsigned)sym_choose(3, "table"), i = (unsigned)sym_choose(2, "index"); bool keyed = sym_choose(2, "keyed"), lone = t == 2 && sym_choose(2, "recovered"), ref = t != 2 && sym_choose(2, "referenced"); unsigned fail = (unsigned)sym_choose(3, "failing"), miss = (unsigned)sym_choose(3, "missing"); std::string kt = keyed ? "kt" : "T", ki = keyed ? "ki" : "I"; std::optional<std::string_view> ot, oi; if (keyed) { ot = "kt"; oi = "ki"; } if (t != 2) m.add_entry(1, "T", ot); if (lone) m.add_entry(2, std::nullopt, oi, false, std::nullopt, "I"); else m.add_entry(2, "I", oi, false, 1); g_db->live = {kt, ki, "other"}; if (miss == 1) g_db->live.erase(kt); if (miss == 2) g_db->live.erase(ki); if (fail) g_db->fails = fail == 1 ? kt : ki;
    if (i && !lone) m.reserve_delete_entry(2); if (t == 1) m.reserve_delete_entry(1); bool ires = i || lone; reference_scope sc{m}; if (ref) sc.add_storage(1); std::atomic_bool stop{sym_choose(2, "stop") == 1}; bool use = sym_choose(2, "stoppable"); auto before = g_db->live; auto d = maintenance_storage(use ? &stop : nullptr); bool halted = use && stop; bool dt = t == 1 && !ref && !halted && !(fail == 1 && miss != 1), di = ires && !ref && !halted && !(fail == 2 && miss != 2); std::set<std::string> want, got(d.begin(), d.end()); if (dt) want.insert("T"); if (di) want.insert("I");
    SYM_ASSERT(got == want); SYM_ASSERT(d.size() == want.size()); SYM_ASSERT((m.find_entry(1) != nullptr) == (t != 2 && !dt)); SYM_ASSERT((m.find_entry(2) != nullptr) == !di); if (dt) before.erase(kt); if (di) before.erase(ki); SYM_ASSERT(g_db->live == before); auto again = maintenance_storage(nullptr); std::set<std::string> rest; if (t == 1 && !ref && !dt && !(fail == 1 && miss != 1)) rest.insert("T"); if (ires && !ref && !di && !(fail == 2 && miss != 2)) rest.insert("I"); SYM_ASSERT(std::set<std::string>(again.begin(), again.end()) == rest); SYM_ASSERT(m.get_delete_reserved_entries().size() == (size_t)((t == 1 && m.find_entry(1)) + (ires && m.find_entry(2)))); }
HARNESS(c18_ids) { storage_manager m; uint64_t b = sym_u64("start"); sym_assume(b < (1ull << 62)); m.init_next_surrogate_id(b); std::vector<uint64_t> got; std::vector<job> js; for (int i = 0; i < 2; i++) js.push_back({[&] { for (int k = 0; k < 2; k++) got.push_back(m.generate_surrogate_id()); }}); run(js); SYM_ASSERT(got.size() == 4); for (int i = 0; i < 4; i++) { sym_assert(got[i] >= b && got[i] < b + 4, "consecutive"); for (int j = 0; j < i; j++) sym_assert(got[i] != got[j], "an id is given out once"); } sym_assert(m.generate_surrogate_id() == b + 4, "and continues"); }
