//@property C52
//@src src/jogasaki/executor/io/data_channel_writer.cpp src/jogasaki/executor/io/record_channel_adapter.cpp src/jogasaki/executor/io/writer_seat.cpp src/jogasaki/executor/io/writer_pool.cpp src/jogasaki/utils/assign_reference_tag.cpp src/jogasaki/serializer/value_output.cpp src/jogasaki/serializer/value_input.cpp src/jogasaki/serializer/value_input_exception.cpp src/jogasaki/serializer/base128v.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/external_record_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/text.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp
//@stubs
//@inc stubs_io stubs_tbb
//@threads
//@flags -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@entry c52_row quick=60 thorough=300 | rows of two columns written twice (the second time with the other NULLs): the first column of every kind (bool, int4, int8, float4, float8, character and octet of 0,1,15,16,40 symbolic bytes, decimal, date, time of day and timestamp with and without offset, blob, clob) with a symbolic value (decimals: 32-bit coefficient, scale 0..2; larger ones: C04), the second int4 (symbolic where the first is int4), all NULL combinations, zone offsets -1439,-90,0,540,1439 minutes; float8 columns hold symbolic bit patterns
//@entry c52_error quick=40 thorough=120 | three rows of a character, a blob and an int4 column; the client's writer refuses the k-th write (every k, or none), the datastore is absent, refuses, or fails once
//@entry c52_stats quick=20 thorough=60 | 1..3 writers of one channel, 0..3 rows each, released in every order, each used again never; one of the acquisitions refused
//@entry c52_pool quick=60 thorough=300 | pools of 0..2 seats, 5 operations (thorough 7) of acquire, use, give back, in every order, then the pool is closed with the given-back seats
//@entry c52_threads quick=60 thorough=300 preempt=2 | two threads (thorough three) that each take a seat, use its writer and give it back, pools of 1..2 seats; every schedule with at most 2 preemptions
#include "rec.h"
#include "mem_pool.h"
#include "fail_env.h"
#include <functional>
#include <jogasaki/datastore/get_datastore.h>
#include <jogasaki/executor/io/data_channel_writer.h>
#include <jogasaki/executor/io/record_channel_adapter.h>
#include <jogasaki/executor/io/writer_pool.h>
#include <jogasaki/meta/external_record_meta.h>
#include <jogasaki/serializer/value_input.h>
using namespace jogasaki; using namespace jogasaki::executor; using namespace jogasaki::executor::io; using K = meta::field_type_kind; using serializer::entry_type;
static constexpr uint64_t TX = 0x1234567890ULL; static uint64_t tag_of(uint64_t id) { return id * 3 + TX; }
struct store : datastore::datastore { int refuse_from = 1 << 30, calls = 0; bool right_tx = true; uint64_t generate_reference_tag(lob::lob_id_type b, uint64_t t) override { right_tx = right_tx && t == TX; if (calls++ == refuse_from) throw std::runtime_error("no tag"); return tag_of(b); } };
static store* the_store = nullptr; namespace jogasaki::datastore { datastore* get_datastore(bool) { return the_store; } }
// the client's side of a channel: keeps what was written and where it was committed
struct sink : api::writer { std::string data; std::vector<size_t> commits; int writes = 0, refuse = 1 << 30, released = 0; status write(char const* p, size_t n) override { SYM_ASSERT(!released); if (writes++ == refuse) return status::err_io_error; data.append(p, n); return status::ok; } status commit() override { SYM_ASSERT(!released); commits.push_back(data.size()); return status::ok; } };
struct chan : api::data_channel { std::vector<std::shared_ptr<sink>> out; int refuse = 1 << 30, asked = 0; status acquire(std::shared_ptr<api::writer>& w) override { if (asked++ == refuse) return status::err_resource_limit_reached; out.push_back(std::make_shared<sink>()); w = out.back(); return status::ok; } status release(api::writer& w) override { int n = 0; for (auto& o : out) if (static_cast<api::writer*>(o.get()) == std::addressof(w)) { n++; o->released++; SYM_ASSERT(o->released == 1); } SYM_ASSERT(n == 1); return status::ok; } std::optional<std::size_t> max_writer_count() override { return 7; } };
static std::shared_ptr<meta::record_meta> mk(std::vector<meta::field_type> f) { boost::dynamic_bitset<std::uint64_t> b; for (size_t i = 0; i < f.size(); i++) b.push_back(true); return std::make_shared<meta::record_meta>(std::move(f), std::move(b)); }
static void attach(record_channel_adapter& a, std::shared_ptr<meta::record_meta> m) { std::vector<std::optional<std::string>> nm(m->field_count()); SYM_ASSERT(a.meta(std::make_shared<meta::external_record_meta>(m, nm)) == status::ok); channel_option o; o.transaction_id_ = TX; a.option(o); }
using it = char const*;
HARNESS(c52_row) {
    static const K KS[] = {K::boolean, K::int4, K::int8, K::float4, K::float8, K::character, K::octet, K::decimal, K::date, K::time_of_day, K::time_point, K::blob, K::clob}; size_t ki = sym_choose(15, "kind"); bool tz = ki >= 13; K kd = tz ? (ki == 13 ? K::time_of_day : K::time_point) : KS[ki];
    static const int Z[] = {-1439, -90, 0, 540, 1439}; int zone = tz ? Z[sym_choose(5, "zone")] : 540; global::test_cfg()->zone_offset(zone); store st; the_store = &st;
    meta::field_type ft = rec::type_of(kd); if (kd == K::time_of_day) ft = meta::field_type{std::make_shared<meta::time_of_day_field_option>(tz)}; if (kd == K::time_point) ft = meta::field_type{std::make_shared<meta::time_point_field_option>(tz)};
    auto m = mk({ft, rec::type_of(K::int4)}); auto ch = std::make_shared<chan>(); record_channel_adapter a{takatori::util::maybe_shared_ptr<api::data_channel>{ch}}; attach(a, m); std::shared_ptr<record_writer> w; SYM_ASSERT(a.acquire(w) == status::ok && w); SYM_ASSERT(ch->out.size() == 1); auto& out = *ch->out[0];
    static const size_t L[] = {0, 1, 15, 16, 40}; size_t len = kd == K::character || kd == K::octet ? L[sym_choose(5, "len")] : 3; size_t nulls = sym_choose(4, "nulls"); rec::mem r(m->record_size()); int32_t second = kd == K::int4 ? sym_i32("second") : -5;
    rec::with(kd, [&](auto c_) { constexpr K k = decltype(c_)::value; using T = runtime_t<k>; if constexpr (k != K::pointer && k != K::int1 && k != K::int2) {
        T v{}; if constexpr (k == K::decimal) v = rec::triple(sym_choose(2, "negative") ? -1 : 1, 0, (uint64_t)sym_u32("v"), -(int)sym_choose(3, "scale")); else v = rec::val<k>("v", len); if constexpr (k == K::time_point) { auto s = v.seconds_since_epoch().count(); sym_assume(sym_and(s > -(1LL << 55), s < (1LL << 55))); }
        size_t at = 0; it p{}, e{};
        for (int round = 0; round < 2; round++) { bool n0 = (nulls ^ (round ? 3 : 0)) & 1, n1 = (nulls ^ (round ? 3 : 0)) >> 1 & 1; r.r.set_null(m->nullity_offset(0), n0); r.r.set_null(m->nullity_offset(1), n1); r.r.set_value<T>(m->value_offset(0), v); r.r.set_value<int32_t>(m->value_offset(1), second);
            SYM_ASSERT(w->write(r.r)); SYM_ASSERT(out.commits.size() == (size_t)round + 1 && out.commits.back() == out.data.size());
            std::string row = out.data.substr(at); at = out.data.size(); p = row.data(); e = p + row.size(); SYM_ASSERT(serializer::peek_type(p, e) == entry_type::row); SYM_ASSERT(serializer::read_row_begin(p, e) == 2);
            if (n0) { SYM_ASSERT(serializer::peek_type(p, e) == entry_type::null); serializer::read_null(p, e); } else {
                SYM_ASSERT(serializer::peek_type(p, e) != entry_type::null); 
                if constexpr (k == K::boolean || k == K::int4 || k == K::int8) sym_assert(serializer::read_int(p, e) == (int64_t)v, "integer value");
                else if constexpr (k == K::float4) sym_assert(rec::same<k>(serializer::read_float4(p, e), v), "float4 value"); else if constexpr (k == K::float8) sym_assert(rec::same<k>(serializer::read_float8(p, e), v), "float8 value");
                else if constexpr (k == K::character) { auto g = serializer::read_character(p, e); sym_assert(sym_same(std::string(g), std::string(std::string_view(v))), "same characters"); }
                else if constexpr (k == K::octet) { auto g = serializer::read_octet(p, e); sym_assert(sym_same(std::string(g), std::string(std::string_view(v))), "same octets"); }
                else if constexpr (k == K::decimal) { auto g = serializer::read_decimal(p, e); bool zero = sym_and(v.coefficient_high() == 0, v.coefficient_low() == 0); sym_assert(sym_or(sym_and(zero, sym_and(g.coefficient_high() == 0, g.coefficient_low() == 0)), rec::same<k>(g, v)), "same decimal"); }
                else if constexpr (k == K::date) sym_assert(serializer::read_date(p, e).days_since_epoch() == v.days_since_epoch(), "same date");
                else if constexpr (k == K::time_of_day) { if (tz) { SYM_ASSERT(serializer::peek_type(p, e) == entry_type::time_of_day_with_offset); auto g = serializer::read_time_of_day_with_offset(p, e); SYM_ASSERT(g.second == zone); int64_t d = (int64_t)takatori::datetime::time_of_day::day_ns, x = v.time_since_epoch().count() + zone * 60000000000LL; x = sym_ite(x < 0, x + d, sym_ite(x >= d, x - d, x)); sym_assert((int64_t)g.first.time_since_epoch().count() == x, "local time of day"); } else { SYM_ASSERT(serializer::peek_type(p, e) == entry_type::time_of_day); sym_assert(rec::same<k>(serializer::read_time_of_day(p, e), v), "same time of day"); } }
                else if constexpr (k == K::time_point) { if (tz) { SYM_ASSERT(serializer::peek_type(p, e) == entry_type::time_point_with_offset); auto g = serializer::read_time_point_with_offset(p, e); SYM_ASSERT(g.second == zone); sym_assert(sym_and(g.first.seconds_since_epoch().count() == v.seconds_since_epoch().count() + zone * 60, g.first.subsecond().count() == v.subsecond().count()), "local time"); } else { SYM_ASSERT(serializer::peek_type(p, e) == entry_type::time_point); sym_assert(rec::same<k>(serializer::read_time_point(p, e), v), "same time"); } }
                else if constexpr (k == K::blob || k == K::clob) { SYM_ASSERT(serializer::peek_type(p, e) == (k == K::blob ? entry_type::blob : entry_type::clob)); auto g = k == K::blob ? serializer::read_blob(p, e) : serializer::read_clob(p, e); SYM_ASSERT(st.right_tx); sym_assert(sym_and(std::get<0>(g) == (uint64_t)v.provider(), sym_and(std::get<1>(g) == v.object_id(), std::get<2>(g) == tag_of(v.object_id()))), "same large object"); }
            }
            if (n1) { SYM_ASSERT(serializer::peek_type(p, e) == entry_type::null); serializer::read_null(p, e); } else sym_assert(serializer::read_int(p, e) == second, "second column");
            SYM_ASSERT(p == e); }
        SYM_ASSERT(a.statistics().total_record_count() == 0); w->flush(); SYM_ASSERT(out.data.size() == at && !out.released); w->release(); SYM_ASSERT(out.released == 1 && a.statistics().total_record_count() == 2); sym_observe("n", (uint64_t)out.commits.size()); } });
}
HARNESS(c52_error) {
    auto m = mk({rec::type_of(K::character), rec::type_of(K::blob), rec::type_of(K::int4)}); auto ch = std::make_shared<chan>(); record_channel_adapter a{takatori::util::maybe_shared_ptr<api::data_channel>{ch}}; attach(a, m); std::shared_ptr<record_writer> w; SYM_ASSERT(a.acquire(w) == status::ok); auto& out = *ch->out[0]; store st; the_store = &st;
    int how = (int)sym_choose(3, "fault"); int k = 1 << 30; bool blob_null = sym_choose(2, "blob null"); if (how == 0) { k = (int)sym_choose(13, "k"); out.refuse = k; } else if (how == 1) { the_store = nullptr; } else { st.refuse_from = (int)sym_choose(3, "at"); }
    rec::mem r(m->record_size()); size_t ok = 0; uint64_t id = sym_u64("id"); sym_buf s(20, "s"); r.r.set_null(m->nullity_offset(0), false); r.r.set_null(m->nullity_offset(1), blob_null); r.r.set_null(m->nullity_offset(2), false); r.r.set_value<rec::text>(m->value_offset(0), rec::text(s.p, 20)); r.r.set_value<runtime_t<K::blob>>(m->value_offset(1), runtime_t<K::blob>{id, lob::lob_data_provider::datastore}); r.r.set_value<int32_t>(m->value_offset(2), 7);
    for (int i = 0; i < 3; i++) { bool bad = how == 0 ? k >= 4 * i && k < 4 * i + 4 : how == 1 ? !blob_null : !blob_null && st.refuse_from == i; size_t before = out.commits.size(); SYM_ASSERT(w->write(r.r) == !bad); SYM_ASSERT(out.commits.size() == before + !bad); ok += !bad; if (bad) break; SYM_ASSERT(out.commits.back() == out.data.size()); }
    w->release(); SYM_ASSERT(a.statistics().total_record_count() == ok && out.released == 1); sym_observe("ok", (uint64_t)ok);
}
HARNESS(c52_stats) {
    auto m = mk({rec::type_of(K::int4)}); auto ch = std::make_shared<chan>(); int nw = 1 + (int)sym_choose(3, "writers"); ch->refuse = (int)sym_choose((uint64_t)nw + 1, "refuse"); record_channel_adapter a{takatori::util::maybe_shared_ptr<api::data_channel>{ch}}; attach(a, m); SYM_ASSERT(a.max_writer_count() == std::optional<size_t>(7)); std::vector<std::shared_ptr<record_writer>> w; rec::mem r(m->record_size()); r.r.set_null(m->nullity_offset(0), false); r.r.set_value<int32_t>(m->value_offset(0), sym_i32("v"));
    for (int i = 0; i < nw; i++) { std::shared_ptr<record_writer> x; auto rc = a.acquire(x); SYM_ASSERT((rc == status::ok) == (i != ch->refuse)); SYM_ASSERT((x != nullptr) == (rc == status::ok)); if (x) w.push_back(x); else SYM_ASSERT(rc == status::err_resource_limit_reached); }
    size_t total = 0; std::vector<size_t> rows; for (size_t i = 0; i < w.size(); i++) { rows.push_back(sym_choose(4, "rows")); for (size_t j = 0; j < rows[i]; j++) SYM_ASSERT(w[i]->write(r.r)); SYM_ASSERT(ch->out[i]->commits.size() == rows[i]); }
    std::vector<bool> done(w.size()); for (size_t n = 0; n < w.size(); n++) { size_t i = sym_choose(w.size(), "which"); if (done[i]) sym_stop(); done[i] = true; if (sym_choose(2, "flush")) w[i]->flush(); w[i]->release(); total += rows[i]; SYM_ASSERT(ch->out[i]->released == 1); SYM_ASSERT(a.statistics().total_record_count() == total); } sym_observe("total", (uint64_t)total);
}
// a channel that hands out plain counters, for the pool
struct rw : record_writer { std::atomic<int> users{0}; int writes = 0, flushed = 0, released = 0; bool write(accessor::record_ref) override { SYM_ASSERT(!released); int u = users.fetch_add(1); SYM_ASSERT(u == 0); writes++; users.fetch_sub(1); return true; } void flush() override { SYM_ASSERT(!released); flushed++; } void release() override { SYM_ASSERT(flushed); released++; SYM_ASSERT(released == 1); } };
struct rch : record_channel { std::shared_ptr<rw> out[4]; std::atomic<int> n{0}; record_channel_stats st; status acquire(std::shared_ptr<record_writer>& w) override { int i = n.fetch_add(1); SYM_ASSERT(i < 4); if (i >= 4) return status::err_unknown; out[i] = std::make_shared<rw>(); w = out[i]; return status::ok; } status meta(takatori::util::maybe_shared_ptr<meta::external_record_meta>) override { return status::ok; } record_channel_stats& statistics() override { return st; } record_channel_kind kind() const noexcept override { return record_channel_kind::undefined; } std::optional<std::size_t> max_writer_count() override { return {}; } };
static accessor::record_ref none() { return {}; }
HARNESS(c52_pool) {
    size_t cap = sym_choose(3, "capacity"); rch c; writer_pool p{c, cap}; SYM_ASSERT(p.capacity() == cap); std::vector<std::unique_ptr<writer_seat>> held; std::vector<record_writer*> of; int uses = 0; size_t loose = 0, loose_written = 0; 
    for (int i = 0; i < QT(5, 7); i++) { switch (sym_choose(3, "op")) {
        case 0: { auto s = std::make_unique<writer_seat>(); SYM_ASSERT(!s->reserved() && !s->has_writer()); bool ok = p.acquire(*s); SYM_ASSERT(ok == (held.size() < cap)); SYM_ASSERT(s->reserved() == ok); if (ok) { of.push_back(s->has_writer() ? s->writer().get() : nullptr); held.push_back(std::move(s)); } break; }
        case 1: { if (held.empty()) break; size_t j = held.size() == 1 ? 0 : sym_choose(held.size(), "seat"); auto const& w = held[j]->writer(); SYM_ASSERT(w && held[j]->has_writer()); SYM_ASSERT(!of[j] || of[j] == w.get()); for (size_t x = 0; x < held.size(); x++) SYM_ASSERT(x == j || of[x] != w.get()); of[j] = w.get(); SYM_ASSERT(w->write(none())); uses++; break; }
        default: { if (held.empty()) break; size_t j = held.size() == 1 ? 0 : sym_choose(held.size(), "seat"); p.release(std::move(*held[j])); SYM_ASSERT(!held[j]->reserved() && !held[j]->has_writer()); held.erase(held.begin() + (long)j); of.erase(of.begin() + (long)j); } }
        SYM_ASSERT((size_t)c.n.load() <= cap); }
    if (sym_choose(2, "give back")) { for (auto& s : held) p.release(std::move(*s)); held.clear(); of.clear(); }
    p.release_pool(); int sum = 0; for (int i = 0; i < c.n; i++) { bool still = false; for (auto* o : of) still = still || o == c.out[i].get(); SYM_ASSERT(c.out[i]->released == (still ? 0 : 1)); sum += c.out[i]->writes; } SYM_ASSERT(sum == uses); writer_seat s; SYM_ASSERT(!p.acquire(s)); (void)loose; (void)loose_written; sym_observe("n", (uint64_t)c.n.load());
}
HARNESS(c52_threads) {
    size_t cap = 1 + sym_choose(2, "capacity"); rch c; writer_pool p{c, cap}; constexpr int N = 3; int nt = QT(2, 3); int got[N] = {0, 0, 0}; std::atomic<int> out{0};
    auto body = [&](int i) { writer_seat s; if (!p.acquire(s)) return; int o = out.fetch_add(1); SYM_ASSERT((size_t)o < cap); got[i]++; SYM_ASSERT(s.writer()->write(none())); out.fetch_sub(1); p.release(std::move(s)); };
    struct job { std::function<void()> f; }; std::vector<job> js; for (int i = 0; i < nt; i++) js.push_back({[&body, i] { body(i); }}); for (auto& j : js) jsym_spawn([](void* a) { static_cast<job*>(a)->f(); }, &j); jsym_join_all();
    int g = 0; for (int i = 0; i < nt; i++) g += got[i]; SYM_ASSERT(g >= (int)std::min<size_t>(cap, (size_t)nt)); p.release_pool(); int sum = 0; for (int i = 0; i < c.n; i++) { SYM_ASSERT(c.out[i]->released == 1); sum += c.out[i]->writes; } SYM_ASSERT(sum == g && (size_t)c.n.load() <= cap); sym_observe("done", (uint64_t)1);
}
