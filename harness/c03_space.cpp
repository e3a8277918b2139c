//@property C03
//@src src/jogasaki/kvs/coder.cpp src/jogasaki/kvs/writable_stream.cpp src/jogasaki/kvs/readable_stream.cpp src/jogasaki/utils/coder.cpp src/jogasaki/utils/decimal.cpp src/jogasaki/data/any.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/accessor/text.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp
//@stubs
//@entry c03_fixed quick=60 thorough=120 | every fixed-size type with symbolic value, every capacity from 0 to one more than needed, start position 0..2, both overflow modes, asc/desc/value, nullable and not
//@entry c03_decimal quick=90 thorough=300 | precisions 1,2,3,5,9,18,19,38 (thorough all 1..38), every coefficient below 10^precision and one digit more, every capacity, both overflow modes
//@entry c03_text quick=120 thorough=400 | character strings of 0..4 symbolic bytes (zero bytes included) in varying and fixed columns of length 0..4, every capacity, both overflow modes
//@entry c03_octet quick=120 thorough=400 | octet strings of 0..4 symbolic bytes in varying and fixed columns of length 0..4, every capacity, both overflow modes
//@entry c03_sequence quick=60 thorough=200 | text, int8, octet one after the other in a buffer of every capacity 0..30, overflow ignored: size is the full length
#include "sym.h"
#include <jogasaki/kvs/readable_stream.h>
#include "kvs_env.h"
#include "mem_res.h"
using namespace jogasaki; using K = meta::field_type_kind; using data::any; using meta::field_type; using meta::field_enum_tag;
template <class T> static any mk(T v) { return any{std::in_place_type<T>, v}; }
static kvs::coding_spec spec(size_t k) { return k == 0 ? kvs::spec_key_ascending : k == 1 ? kvs::spec_key_descending : kvs::spec_value; }
// want: the status expected when there is plenty of space
static void run(field_type const& ft, any const& v, status want, size_t mx, int specs = 3, bool nul = true) {
    auto sp = spec(sym_choose(specs, "spec")); bool nullable = nul && sym_choose(2, "nullable"); enc big(mx); status st = nullable ? big.add_nullable(v, ft, sp) : big.add(v, ft, sp); SYM_ASSERT(st == want); size_t n = big.size(); SYM_ASSERT(n <= mx); if (st != status::ok) { SYM_ASSERT(n == (nullable ? 1 : 0)); return; }
    size_t pre = nul ? sym_choose(3, "pre") : 0, cap = sym_size("cap", 0, pre + n + 1); if (cap < pre) sym_stop(); bool ign = sym_choose(2, "ignore"); enc x(cap, ign); for (size_t i = 0; i < cap; i++) x.b.p[i] = (char)0xA5; char z[2] = {(char)0xA5, (char)0xA5}; SYM_ASSERT(x.s.write(z, pre) == status::ok && x.size() == pre); bool thr = false; try { st = nullable ? x.add_nullable(v, ft, sp) : x.add(v, ft, sp); } catch (std::logic_error const&) { thr = true; }
    bool fit = cap >= pre + n; SYM_ASSERT(thr == (!fit && !ign)); if (!thr) { SYM_ASSERT(st == status::ok); SYM_ASSERT(x.size() == pre + n); } for (size_t i = 0; i < pre; i++) SYM_ASSERT(x.b[i] == 0xA5); if (fit) { sym_assert(sym_eq(x.b.p + pre, big.b.p, n), "same bytes"); if (cap > pre + n) SYM_ASSERT(x.b[pre + n] == 0xA5); sym_observe_bytes("enc", x.b.p, pre + n); }
}
HARNESS(c03_fixed) {
    using namespace takatori::datetime; size_t k = sym_choose(9, "kind"); uint64_t v = sym_u64("v"); double d; memcpy(&d, &v, 8); uint32_t h = (uint32_t)v; float f; memcpy(&f, &h, 4);
    if (k == 0) run(field_type{field_enum_tag<K::boolean>}, mk((int8_t)(v & 1)), status::ok, 16); if (k == 1) run(field_type{field_enum_tag<K::int4>}, mk((int32_t)v), status::ok, 16); if (k == 2) run(field_type{field_enum_tag<K::int8>}, mk((int64_t)v), status::ok, 16); if (k == 3) run(field_type{field_enum_tag<K::float4>}, mk(f), status::ok, 16); if (k == 4) run(field_type{field_enum_tag<K::float8>}, mk(d), status::ok, 16);
    if (k == 5) run(field_type{field_enum_tag<K::date>}, mk(date((int64_t)v)), status::ok, 16); if (k == 6) { sym_assume(v < time_of_day::day_ns); run(field_type{std::make_shared<meta::time_of_day_field_option>()}, mk(time_of_day{std::chrono::nanoseconds{(int64_t)v}}), status::ok, 16); } if (k == 7) run(field_type{std::make_shared<meta::time_point_field_option>()}, mk(time_point{std::chrono::seconds{(int64_t)v}, std::chrono::nanoseconds{5}}), status::ok, 24); if (k == 8) run(field_type{field_enum_tag<K::blob>}, mk(lob::blob_reference{v, lob::lob_data_provider::datastore}), status::ok, 16);
}
using u128 = unsigned __int128; using triple = takatori::decimal::triple;
HARNESS(c03_decimal) {
    static const int P[] = {1, 2, 3, 5, 9, 18, 19, 38}; int prec = QT(P[sym_choose(8, "prec")], (int)sym_size("prec", 1, 38)); u128 mx = 1; for (int i = 0; i < prec; i++) mx *= 10; u128 c = (u128)(prec > 17 ? sym_u64("h") : 0) << 64 | sym_u64("l"); bool over = sym_choose(2, "over"); if (over) sym_assume(c >= mx); else sym_assume(c < mx); triple v(sym_choose(2, "neg") ? -1 : 1, (uint64_t)(c >> 64), (uint64_t)c, -1);
    run(field_type{std::make_shared<meta::decimal_field_option>((size_t)prec, (size_t)1)}, mk(v), over ? status::err_expression_evaluation_failure : status::ok, 32, 2, false);
}
HARNESS(c03_text) {
    size_t n = sym_size("n", 0, 4), len = sym_size("len", 0, 4); bool fixed = sym_choose(2, "fixed"); sym_buf a(n, "a"); bool zero = false; for (size_t i = 0; i < n; i++) zero = sym_or(zero, a[i] == 0); status want = n > len ? status::err_insufficient_field_storage : status::ok; if (n <= len && zero) want = status::err_invalid_runtime_value;
    run(field_type{std::make_shared<meta::character_field_option>(!fixed, len)}, mk(accessor::text{a.p, n}), want, 24);
}
HARNESS(c03_octet) { size_t n = sym_size("n", 0, 4), len = sym_size("len", 0, 4); bool fixed = sym_choose(2, "fixed"); sym_buf a(n, "a"); run(field_type{std::make_shared<meta::octet_field_option>(!fixed, len)}, mk(accessor::binary{a.p, n}), n > len ? status::err_insufficient_field_storage : status::ok, 24); }
HARNESS(c03_sequence) {
    size_t cap = sym_size("cap", 0, 30), n = sym_size("n", 0, 3), m = sym_size("m", 0, 3); sym_buf a(n, "a"), b(m, "b"); for (size_t i = 0; i < n; i++) sym_assume(a[i] != 0); bool nl = sym_choose(2, "null"); auto sp = spec(sym_choose(3, "spec")); field_type t{std::make_shared<meta::character_field_option>(true, std::nullopt)}, i8{field_enum_tag<K::int8>}, o{std::make_shared<meta::octet_field_option>(false, 4)}; any va = mk(accessor::text{a.p, n}), vi = nl ? any{} : mk(sym_i64("v")), vo = mk(accessor::binary{b.p, m});
    enc x(cap, true); SYM_ASSERT(x.add(va, t, sp) == status::ok && x.size() == n + 4); SYM_ASSERT(x.add_nullable(vi, i8, sp) == status::ok && x.size() == n + 4 + (nl ? 1 : 9)); SYM_ASSERT(x.add(vo, o, sp) == status::ok && x.size() == n + 4 + (nl ? 1 : 9) + 4); SYM_ASSERT(x.s.capacity() == cap && x.s.data() == x.b.p); x.s.reset(); SYM_ASSERT(x.size() == 0); x.s.ignore_overflow(false); bool thr = false; try { x.add(va, t, sp); x.add_nullable(vi, i8, sp); x.add(vo, o, sp); } catch (std::logic_error const&) { thr = true; } SYM_ASSERT(thr == (cap < n + 4 + (nl ? 1 : 9) + 4));
    kvs::writable_stream e{}; e.ignore_overflow(true); kvs::coding_context c{}; c.coding_for_write(true); SYM_ASSERT(kvs::encode(va, t, sp, c, e) == status::ok && e.size() == n + 4); sym_observe("cap", cap);
}
