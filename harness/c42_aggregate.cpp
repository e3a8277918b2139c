//@property C42
//@src src/jogasaki/accessor/record_copier.cpp src/jogasaki/utils/copy_field_data.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/group_meta.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/text.cpp src/jogasaki/data/any.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/page_pool.cpp src/jogasaki/memory/monotonic_paged_memory_resource.cpp src/jogasaki/data/record_store.cpp src/jogasaki/data/small_record_store.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/executor/compare_info.cpp src/jogasaki/executor/partitioner.cpp src/jogasaki/executor/exchange/shuffle/pointer_table.cpp src/jogasaki/executor/exchange/shuffle/flow.cpp src/jogasaki/executor/exchange/shuffle/run_info.cpp src/jogasaki/executor/exchange/aggregate/aggregate_info.cpp src/jogasaki/executor/exchange/aggregate/input_partition.cpp src/jogasaki/executor/exchange/aggregate/sink.cpp src/jogasaki/executor/exchange/aggregate/source.cpp src/jogasaki/executor/exchange/aggregate/writer.cpp src/jogasaki/executor/exchange/aggregate/flow.cpp src/jogasaki/executor/exchange/aggregate/reader.cpp src/jogasaki/executor/function/field_locator.cpp src/jogasaki/executor/function/value_generator.cpp src/jogasaki/executor/function/incremental/builtin_functions.cpp src/jogasaki/executor/function/incremental/aggregate_function_info.cpp src/jogasaki/executor/function/incremental/aggregator_info.cpp src/jogasaki/executor/function/incremental/aggregate_function_repository.cpp src/jogasaki/executor/io/reader_container.cpp src/jogasaki/utils/watch.cpp src/jogasaki/executor/function/builtin_functions.cpp src/jogasaki/executor/function/aggregate_function_info.cpp src/jogasaki/executor/function/aggregate_function_repository.cpp
//@stubs
//@inc stubs_tbb stubs_xchg
//@flags -include atomic -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@entry c42_int quick=60 thorough=400 | int4 (|v|<2^28) or int8 (|v|<2^60) values, sum count count(*) avg min max at once: up to 3 nullable records (thorough 4) of 2 groups (one keyed NULL) spread over 2 partitions and sorted runs
//@entry c42_float quick=60 thorough=400 | the same for float4 / float8 of any bits; sums checked for up to 2 finite values per group (beyond, addition order is not defined)
//@entry c42_decimal quick=60 thorough=400 | the same for up to 2 (thorough 3) decimals of 16-bit coefficients, averages that are exact
//@entry c42_text quick=60 thorough=400 | the same for character / octet values of 0, 2 or 20 symbolic bytes
//@entry c42_time quick=60 thorough=400 | the same for date, time of day, time point values
//@entry c42_other quick=60 thorough=400 | counts of boolean, blob, clob columns; int8 column with short and long character keys
//@entry c42_load quick=60 thorough=400 | one partition with a hash table of 4 buckets that fills up, 5 (thorough 6) records of up to 4 groups, int8 values
//@entry c42_distinct quick=60 thorough=400 | count(distinct) over up to 3 (thorough 4) values of each of 11 types chosen from 3 with two representations each (-0, NaN signs, decimal scales, text buffers), NULL
//@entry c42_flow quick=60 thorough=400 | 1..2 upstream and downstream partitions, up to 2 records with int or text key or no grouping, empty input with and without an upstream error
#include "rec.h"
#include "mem_res.h"
#include "mem_pool.h"
#include "fail_env.h"
#include <yugawara/aggregate/configurable_provider.h>
#include <jogasaki/executor/exchange/aggregate/flow.h>
#include <jogasaki/executor/exchange/aggregate/input_partition.h>
#include <jogasaki/executor/exchange/aggregate/sink.h>
#include <jogasaki/executor/exchange/aggregate/source.h>
#include <jogasaki/executor/function/incremental/builtin_functions.h>
#include <jogasaki/executor/io/group_reader.h>
#include <jogasaki/executor/function/builtin_functions.h>
#include <jogasaki/data/value_store.h>
using namespace jogasaki; using rec::K; using takatori::util::maybe_shared_ptr; namespace ax = executor::exchange::aggregate; namespace fi = executor::function::incremental; using FK = fi::aggregate_function_kind;
namespace { std::unique_ptr<memory::page_pool> pool; } namespace jogasaki::global { memory::page_pool& page_pool(pool_operation) { if (!pool) pool = std::make_unique<memory::page_pool>(); return *pool; } }
static std::unique_ptr<memory::monotonic_paged_memory_resource> res() { return std::make_unique<memory::monotonic_paged_memory_resource>(&global::page_pool()); }
template <K k> constexpr bool numeric = k == K::int4 || k == K::int8 || k == K::float4 || k == K::float8 || k == K::decimal;
template <K k> constexpr bool ordered = numeric<k> || k == K::character || k == K::octet || k == K::date || k == K::time_of_day || k == K::time_point;
template <K k> constexpr bool real = k == K::float4 || k == K::float8;
template <class T> static bool is_finite(T x) { return sym_and(x <= std::numeric_limits<T>::max(), x >= std::numeric_limits<T>::lowest()); }
template <K k> struct values {
    using T = runtime_t<k>; struct row { int key; bool null; T v; std::string s; }; std::vector<row> x; bool arithmetic = false;
    T make(row& r) { if constexpr (k == K::character || k == K::octet) { size_t n = x.size() & 1 ? 20 : sym_choose(2, "len") * 2; auto v = rec::val<k>("value", n); r.s.assign(rec::last_str, n); return v; }
        else if constexpr (k == K::int4) { auto v = rec::val<k>("value"); sym_assume(v > -(1 << 28)); sym_assume(v < 1 << 28); return v; } else if constexpr (k == K::int8) { auto v = rec::val<k>("value"); sym_assume(v > -(1LL << 60)); sym_assume(v < 1LL << 60); return v; }
        else if constexpr (k == K::decimal) { uint64_t lo = sym_u16("value"); auto neg = sym_u8("sign") & 1; sym_assume(lo != 0); return takatori::decimal::triple((int)(1 - 2 * (int)neg), 0, lo, -2); }
        else return rec::val<k>("value"); }
    static bool less(row const& a, row const& b) { if constexpr (k == K::character || k == K::octet) { bool eq = true, lt = false; size_t i = 0; for (; i < a.s.size() && i < b.s.size(); i++) { lt = sym_or(lt, sym_and(eq, (uint8_t)a.s[i] < (uint8_t)b.s[i])); eq = sym_and(eq, a.s[i] == b.s[i]); } return sym_or(lt, sym_and(eq, a.s.size() < b.s.size())); }
        else if constexpr (k == K::decimal) return decimal::Decimal(a.v) < decimal::Decimal(b.v); else if constexpr (k == K::date) return a.v.days_since_epoch() < b.v.days_since_epoch(); else if constexpr (k == K::time_of_day) return a.v.time_since_epoch() < b.v.time_since_epoch();
        else if constexpr (k == K::time_point) return sym_or(a.v.seconds_since_epoch() < b.v.seconds_since_epoch(), sym_and(a.v.seconds_since_epoch() == b.v.seconds_since_epoch(), a.v.subsecond() < b.v.subsecond()));
        else if constexpr (real<k>) return sym_or(a.v < b.v, sym_and(a.v == a.v, !(b.v == b.v))); /* NaN is the greatest */ else return a.v < b.v; }
    static bool is(T const& a, row const& b) { if constexpr (k == K::character || k == K::octet) return sym_same(std::string(std::string_view(a)), b.s); else return rec::same<k>(a, b.v); }
};
template <K k> takatori::type::type_kind tk() { using t = takatori::type::type_kind; switch (k) {
#define X(n) case K::n: return t::n;
    X(boolean) X(int4) X(int8) X(float4) X(float8) X(decimal) X(character) X(octet) X(date) X(time_of_day) X(time_point) X(blob) X(clob)
#undef X
    default: sym_stop(); } }
struct funcs { yugawara::aggregate::configurable_provider p; fi::aggregate_function_repository r; funcs() { fi::add_builtin_aggregate_functions(p, r); }
    // the function a declaration leads to; result of the same type as the argument, or int8 for counts
    template <K k> fi::aggregate_function_info const& find(const char* name, bool arg = true) { bool cnt = std::string_view(name) == "count"; for (auto& d : p.list) if (d.name == name && (arg ? d.args.size() == 1 && d.args[0].kind() == tk<k>() : d.args.empty())) { SYM_ASSERT(d.incremental); SYM_ASSERT(d.ret.kind() == (cnt ? takatori::type::type_kind::int8 : tk<k>())); auto* f = r.find(d.id); SYM_ASSERT(f != nullptr); return *f; } SYM_ASSERT(false && "no declaration"); sym_stop(); } };
// sum(v) count(v) count(*) avg(v) min(v) max(v): positions of the functions that apply, -1 if they do not
template <K k> struct query { values<k> d; std::shared_ptr<meta::record_meta> m; std::shared_ptr<ax::aggregate_info> info; funcs f; int sum = -1, cnt = -1, rows = -1, avg = -1, mn = -1, mx = -1; bool text_key;
    explicit query(bool empty_row = false, bool keyed = true, bool tk_ = false) : text_key(tk_) { rec::def rd; rd.add(k, true); rd.add(text_key ? K::character : K::int4, true); m = rd.meta(); std::vector<ax::aggregate_info::value_spec> vs; auto t = rec::type_of(k), i8 = rec::type_of(K::int8); std::vector<size_t> a{0}; int n = 0;
        vs.emplace_back(f.template find<k>("count"), a, i8); cnt = n++; vs.emplace_back(f.template find<k>("count", false), std::vector<size_t>{}, i8); rows = n++;
        if constexpr (numeric<k>) { vs.emplace_back(f.template find<k>("avg"), a, t); avg = n++; vs.emplace_back(f.template find<k>("sum"), a, t); sum = n++; } if constexpr (ordered<k>) { vs.emplace_back(f.template find<k>("min"), a, t); mn = n++; vs.emplace_back(f.template find<k>("max"), a, t); mx = n++; }
        info = std::make_shared<ax::aggregate_info>(maybe_shared_ptr<meta::record_meta>{m}, keyed ? std::vector<size_t>{1} : std::vector<size_t>{}, vs, empty_row); }
    static std::string key_text(int key) { return key == 1 ? std::string("a") : std::string("a key that is longer than that"); }
    // hands a record with this key (0: NULL) and a fresh value to f; its memory does not survive
    template <class F> void put(int key, bool null, F f) { d.x.emplace_back(); auto& r = d.x.back(); r.key = key; r.null = null; rec::mem src(m->record_size()); src.r.set_null(m->nullity_offset(0), null); if (!null) { r.v = d.make(r); src.r.set_value<runtime_t<k>>(m->value_offset(0), r.v); } src.r.set_null(m->nullity_offset(1), key == 0); auto ks = key_text(key); if (key) { if (text_key) src.r.set_value<accessor::text>(m->value_offset(1), accessor::text{ks}); else src.r.set_value<int32_t>(m->value_offset(1), key); } f(src.r); for (size_t i = 0; i < m->record_size(); i++) src.b.p[i] = 0x33; for (auto& c : ks) c = '#'; if constexpr (k == K::character || k == K::octet) if (!null) for (size_t i = 0; i < r.s.size(); i++) rec::last_str[i] = '#'; }
    struct group { int key; }; std::vector<int> keys;
    void drain(executor::io::reader_container rc, bool keyed = true) { auto* r = rc.reader<executor::io::group_reader>(); SYM_ASSERT(r != nullptr); auto gm = info->post().group_meta(); auto& km = gm->key(); auto& vm = gm->value(); SYM_ASSERT(vm.field_count() == (size_t)(std::max(std::max(mx, sum), rows) + 1)); SYM_ASSERT(km.field_count() == (size_t)keyed);
        while (r->next_group()) { SYM_ASSERT(r->next_member()); auto g = r->get_group(); int key = 0; if (keyed && !g.is_null(km.nullity_offset(0))) { if (text_key) { auto t = g.get_value<accessor::text>(km.value_offset(0)); key = (std::string_view)t == "a" ? 1 : 2; SYM_ASSERT((std::string_view)t == key_text(key)); } else key = g.get_value<int32_t>(km.value_offset(0)); } for (auto q : keys) SYM_ASSERT(q != key); keys.push_back(key); check(key, r->get_member(), vm); SYM_ASSERT(!r->next_member()); }
        r->release(); }
    bool nul(accessor::record_ref v, meta::record_meta const& vm, int i) { return v.is_null(vm.nullity_offset((size_t)i)); } template <class T> T get(accessor::record_ref v, meta::record_meta const& vm, int i) { return v.get_value<T>(vm.value_offset((size_t)i)); }
    void check(int key, accessor::record_ref v, meta::record_meta const& vm) { using T = runtime_t<k>; std::vector<typename values<k>::row const*> g; size_t n = 0; for (auto& r : d.x) if (r.key == key) { n++; if (!r.null) g.push_back(&r); } auto c = (int64_t)g.size();
        SYM_ASSERT(!nul(v, vm, cnt)); SYM_ASSERT(get<int64_t>(v, vm, cnt) == c); SYM_ASSERT(!nul(v, vm, rows)); SYM_ASSERT(get<int64_t>(v, vm, rows) == (int64_t)n);
        if constexpr (ordered<k>) { SYM_ASSERT(nul(v, vm, mn) == g.empty()); SYM_ASSERT(nul(v, vm, mx) == g.empty()); if (!g.empty()) { auto lo = get<T>(v, vm, mn), hi = get<T>(v, vm, mx); bool a = false, b = false; for (auto* r : g) { bool first = true, last = true; for (auto* o : g) { first = sym_and(first, !values<k>::less(*o, *r)); last = sym_and(last, !values<k>::less(*r, *o)); } a = sym_or(a, sym_and(first, values<k>::is(lo, *r))); b = sym_or(b, sym_and(last, values<k>::is(hi, *r))); } sym_assert(a, "min"); sym_assert(b, "max"); } }
        if constexpr (numeric<k>) { SYM_ASSERT(nul(v, vm, sum) == g.empty()); SYM_ASSERT(nul(v, vm, avg) == g.empty()); if (!g.empty()) { auto s = get<T>(v, vm, sum), a = get<T>(v, vm, avg);
            if constexpr (real<k>) { if (c > 2) return; T e = g[0]->v; if (c == 2) e = e + g[1]->v; bool fin = true; for (auto* r : g) fin = sym_and(fin, is_finite(r->v)); sym_assert(sym_or(!fin, s == e), "sum"); sym_assert(sym_or(!fin, a == s / (T)c), "avg"); }
            else if constexpr (k == K::decimal) { auto num = [](T const& t) { return (int64_t)(sym_ite(t.sign() < 0, 0 - t.coefficient_low(), t.coefficient_low())); }; int64_t e = 0; for (auto* r : g) e += num(r->v); SYM_ASSERT(s.exponent() == -2); SYM_ASSERT(s.coefficient_high() == 0); sym_assert(num(s) == e, "sum"); SYM_ASSERT(a.exponent() == -2); SYM_ASSERT(a.coefficient_high() == 0); sym_assert(a.coefficient_low() * (uint64_t)c == s.coefficient_low(), "avg"); SYM_ASSERT(a.sign() == s.sign()); }
            else { int64_t e = 0; for (auto* r : g) e += r->v; sym_assert((int64_t)s == e, "sum"); sym_assert((int64_t)a == (int64_t)s / c, "avg"); } } } }
};
template <K k> void pipeline(bool tkey = false) { mem_pages::reset(); mem_pages::huge = true; { query<k> q(false, true, tkey); request_context rc; ax::source src{q.info, &rc}; std::unique_ptr<ax::input_partition> p[2]; size_t np = 2; for (size_t i = 0; i < np; i++) p[i] = std::make_unique<ax::input_partition>(res(), res(), res(), res(), res(), q.info, 8);
        size_t n = sym_choose(QT(k == K::decimal ? 3 : 4, k == K::decimal ? 4 : 5), "records"); std::set<int> used; for (size_t i = 0; i < n; i++) { size_t place = i ? sym_choose(3, "place") : 0, j = place == 2; int key = (int)sym_choose(tkey ? 3 : 2, "key") * (tkey ? 1 : 7); bool null = sym_choose(2, "null"); used.insert(key); if (place == 1) p[0]->flush(); q.put(key, null, [&](auto r) { SYM_ASSERT(!p[j]->write(r)); }); }
        for (size_t i = 0; i < np; i++) { p[i]->flush(); p[i]->release_hashtable(); src.receive(std::move(p[i])); } q.drain(src.acquire_reader()); SYM_ASSERT(q.keys.size() == used.size()); for (auto u : used) SYM_ASSERT(std::find(q.keys.begin(), q.keys.end(), u) != q.keys.end()); } pool.reset(); }
HARNESS(c42_int) { if (sym_choose(2, "kind")) pipeline<K::int8>(); else pipeline<K::int4>(); }
HARNESS(c42_float) { if (sym_choose(2, "kind")) pipeline<K::float8>(); else pipeline<K::float4>(); }
HARNESS(c42_decimal) { pipeline<K::decimal>(); }
HARNESS(c42_text) { if (sym_choose(2, "kind")) pipeline<K::octet>(); else pipeline<K::character>(); }
HARNESS(c42_time) { auto c = sym_choose(3, "kind"); if (c == 0) pipeline<K::date>(); else if (c == 1) pipeline<K::time_of_day>(); else pipeline<K::time_point>(); }
HARNESS(c42_other) { auto c = sym_choose(4, "kind"); if (c == 0) pipeline<K::boolean>(); else if (c == 1) pipeline<K::blob>(); else if (c == 2) pipeline<K::clob>(); else pipeline<K::int8>(true); }
// the hash table fills up while writing: partial results of a group end up in several sorted runs
HARNESS(c42_load) { mem_pages::reset(); mem_pages::huge = true; { query<K::int8> q; request_context rc; ax::source src{q.info, &rc}; auto p = std::make_unique<ax::input_partition>(res(), res(), res(), res(), res(), q.info, 4); std::set<int> used; size_t n = QT(5, 6); for (size_t i = 0; i < n; i++) { int key = (int)sym_choose(i < 3 ? i + 1 : 4, "key"); used.insert(key); q.put(key, i == 3, [&](auto r) { p->write(r); }); } p->flush(); p->release_hashtable(); src.receive(std::move(p)); q.drain(src.acquire_reader()); SYM_ASSERT(q.keys.size() == used.size()); for (auto u : used) SYM_ASSERT(std::find(q.keys.begin(), q.keys.end(), u) != q.keys.end()); } pool.reset(); }
// sinks, writers, transfer and sources; with no records at all one row is made where there is no grouping
HARNESS(c42_flow) { mem_pages::reset(); mem_pages::huge = true; { bool keyed = sym_choose(2, "keyed"), text = keyed && sym_choose(2, "textkey"), empty_row = !keyed; query<K::int4> q(empty_row, keyed, text); request_context rc; size_t up = 1 + sym_choose(2, "up"), down = keyed ? 1 + sym_choose(2, "down") : 1;  ax::flow f{q.info, &rc, nullptr, down}; f.setup_partitions(up); SYM_ASSERT(f.sink_count() == up && f.source_count() == down); size_t n = sym_choose(text || up + down == 3 ? QT(2, 3) : 3, "records"); if (n == 0 && sym_choose(2, "failed")) rc.st = status::err_unknown; std::set<int> used; unsigned open = 0; for (size_t i = 0; i < n; i++) { size_t s = up == 1 ? 0 : sym_choose(2, "sink"); open |= 1u << s; int key = keyed ? (int)sym_choose(i + 2, "key") : 0; used.insert(key); auto& w = f.sink_at(s).acquire_writer(); q.put(key, i ? false : sym_choose(2, "null"), [&](auto r) { SYM_ASSERT(w.write(r)); }); } for (size_t i = 0; i < up; i++) if (open & (1u << i)) { auto& w = f.sink_at(i).acquire_writer(); w.flush(); w.release(); }
        SYM_ASSERT(f.create_tasks().size() == 1); bool row = n > 0 || (empty_row && rc.st == status::ok); if (row && !n) used.insert(0); SYM_ASSERT(f.info().empty_input() == !row); for (size_t i = 0; i < down; i++) q.drain(f.source_at(i).acquire_reader(), keyed); SYM_ASSERT(q.keys.size() == used.size()); for (auto u : used) SYM_ASSERT(std::find(q.keys.begin(), q.keys.end(), u) != q.keys.end()); } pool.reset(); }
// count(distinct v): values equal as SQL values count once, NULL not at all
template <K k> void distinct() { namespace fn = executor::function; using T = runtime_t<k>; mem_pages::reset(); mem_pages::huge = true; { yugawara::aggregate::configurable_provider p; fn::aggregate_function_repository rep; fn::add_builtin_aggregate_functions(p, rep); fn::aggregate_function_info const* f = nullptr; for (auto& d : p.list) if (d.args.size() == 1 && d.args[0].kind() == tk<k>()) { SYM_ASSERT(d.name == "count$distinct"); SYM_ASSERT(d.ret.kind() == takatori::type::type_kind::int8); SYM_ASSERT(!d.incremental); f = rep.find(d.id); SYM_ASSERT(f != nullptr); } SYM_ASSERT(f != nullptr); SYM_ASSERT(f->kind() == fn::aggregate_function_kind::count_distinct); SYM_ASSERT(f->arg_count() == 1);
        rec::def rd; rd.add(K::int8, true); auto m = rd.meta(); rec::mem out(m->record_size()); fn::field_locator loc{m->at(0), true, m->value_offset(0), m->nullity_offset(0)}; int64_t want = 0;
        memory::monotonic_paged_memory_resource r{&global::page_pool()}, vr{&global::page_pool()}, nr{&global::page_pool()}; data::value_store st{rec::type_of(k), &r, &vr, &nr}; std::vector<uint64_t> seen; std::string keep[5]; size_t n = sym_choose(QT(4, 5), "values"); if (!n) f->empty_value_generator()(out.r, loc); else { for (size_t i = 0; i < n; i++) { if (!i && sym_choose(2, "null")) { st.append_null(); continue; }
            bool whole = k == K::boolean || k == K::int4 || k == K::int8 || k == K::date || k == K::time_of_day; uint64_t c = sym_choose(k == K::boolean ? 2 : 3, "value"); bool other = !whole && c < 2 && sym_choose(2, "form"); bool fresh = true; for (auto o : seen) fresh = sym_and(fresh, o != c); want += (int64_t)sym_ite(fresh, 1, 0); seen.push_back(c);
            if constexpr (real<k>) { auto nan = std::numeric_limits<T>::quiet_NaN(); st.append<T>(c == 0 ? (other ? T(-0.0) : T(0.0)) : c == 1 ? (other ? -nan : nan) : T(1.5)); }
            else if constexpr (k == K::decimal) st.append<T>(c == 0 ? T(0, 0, 0, other ? -2 : 0) : c == 1 ? (other ? T(1, 0, 100, -2) : T(1, 0, 10, -1)) : T(-1, 0, 1, 0));
            else if constexpr (k == K::character || k == K::octet) { keep[i] = c == 0 ? "" : c == 1 ? "ab" : "a string that is longer than that"; st.append<T>(T{keep[i].data(), keep[i].size()}); }
            else if constexpr (k == K::time_of_day) st.append<T>(T{std::chrono::nanoseconds{c}}); else if constexpr (k == K::time_point) st.append<T>(T{std::chrono::seconds{c / 2}, std::chrono::nanoseconds{c % 2}}); else st.append<T>(T(c)); }
            std::vector<std::reference_wrapper<data::value_store>> args{st}; f->aggregator()(out.r, loc, takatori::util::sequence_view<std::reference_wrapper<data::value_store> const>{args}); }
        SYM_ASSERT(!out.r.is_null(loc.nullity_offset())); SYM_ASSERT(out.r.get_value<int64_t>(loc.value_offset()) == want); } pool.reset(); }
HARNESS(c42_distinct) { auto c = sym_choose(11, "kind"); static const K ks[] = {K::boolean, K::int4, K::int8, K::float4, K::float8, K::decimal, K::character, K::octet, K::date, K::time_of_day, K::time_point}; rec::with(ks[c], [](auto c_) { constexpr K k = decltype(c_)::value; if constexpr (k == K::boolean || ordered<k>) distinct<k>(); }); }
