//@property C36
//@src src/jogasaki/executor/expr/evaluator.cpp src/jogasaki/executor/expr/evaluator_context.cpp src/jogasaki/executor/expr/error.cpp src/jogasaki/executor/expr/details/cast_evaluation.cpp src/jogasaki/executor/expr/details/decimal_context.cpp src/jogasaki/executor/expr/details/decimal_context_guard.cpp src/jogasaki/executor/expr/details/cast_evaluation_temporal.cpp src/jogasaki/executor/conv/unify.cpp src/jogasaki/executor/conv/parameter_apply.cpp src/jogasaki/utils/as_any.cpp src/jogasaki/executor/process/impl/variable_table.cpp src/jogasaki/executor/process/impl/variable_table_info.cpp src/jogasaki/utils/utf8_utils.cpp src/jogasaki/executor/function/scalar_function_repository.cpp src/jogasaki/executor/function/scalar_function_info.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/record_copier.cpp src/jogasaki/error/error_info.cpp src/jogasaki/executor/expr/lob_processing.cpp src/jogasaki/accessor/text.cpp  src/jogasaki/data/aligned_buffer.cpp src/jogasaki/data/any.cpp src/jogasaki/data/small_record_store.cpp src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/lifo_paged_memory_resource.cpp src/jogasaki/memory/page_pool.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp src/jogasaki/utils/field_types.cpp src/jogasaki/utils/hex_to_octet.cpp
//@stubs
//@inc stubs_expr stubs_tbb
//@flags -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@entry c36_int quick=60 thorough=200 | INT and BIGINT of any value (and the small integer types) to the four integer types under every loss policy; small integer support on and off
//@entry c36_decimal_int quick=100 thorough=400 | decimals with a coefficient below 2^40 and exponent -20..5, or any 64-bit coefficient and exponent -1/0, to the four integer types; loss policies ignore and error
//@entry c36_decimal quick=150 thorough=600 | decimals with a 16-bit coefficient and exponent -3..2, 16-bit INT/BIGINT and the extreme BIGINTs to DECIMAL of six shapes; loss policies ignore and error
//@entry c36_float_int quick=150 thorough=600 solverms=20000 | every REAL and DOUBLE to the four integer types; loss policies ignore, null, error and assignment
//@entry c36_float quick=60 thorough=200 solverms=20000 | every REAL and DOUBLE to REAL/DOUBLE, INT/BIGINT to REAL/DOUBLE, special values to DECIMAL and texts
//@entry c36_char quick=80 thorough=400 | texts of 0..5 bytes with characters of one to three bytes to CHAR(n)/VARCHAR(n)/VARCHAR(*), n 1..6, source padded or not, every loss policy
//@entry c36_octet quick=60 thorough=300 | octets of 0..3 bytes to BINARY/VARBINARY of 1..4 bytes and to texts, texts of 0..6 characters to octets; loss policies ignore and error
//@entry c36_text quick=120 thorough=300 | texts surrounded by blanks (or only blanks) to integers, decimals and booleans; the number parser returns any 16-bit coefficient with exponent -2..1, a special value or an error
//@entry c36_temporal quick=120 thorough=300 | texts to DATE, TIME and TIMESTAMP with and without time zone; the parser returns days in three months, three times of day, any offset below 24 hours, or an error; system zone offset within 14 hours
//@entry c36_lob quick=40 thorough=100 | BLOB and CLOB from and to octets and texts: contents up to 4 bytes or one byte beyond the limit, failing storage, conversion switched off
//@entry c36_matrix quick=40 thorough=100 | every pair of source and target type: NULL, unsupported pairs, failing operands, approximate numbers assigned to exact ones
#include "sym.h"
#include "expr_env.h"
#include <cmath>
#include <limits>
#include <jogasaki/constants.h>
#include <jogasaki/utils/assign_reference_tag.h>
jogasaki::status jogasaki::datastore::assign_lob_id(lob::lob_reference const&, transaction_context*, lob::lob_id_type&, std::shared_ptr<error::error_info>&) { return status::err_unknown; } std::optional<jogasaki::lob::lob_reference_tag_type> jogasaki::utils::assign_reference_tag(std::uint64_t, lob::lob_id_type) { return {}; }
#include <jogasaki/executor/expr/details/cast_evaluation_temporal.h>
using lp = ex::loss_precision_policy; using cl = ts::cast_loss_policy; static tt::int1 t_i1; static tt::int2 t_i2; static tt::time_point t_tz{tt::with_time_zone};
static int policy() { return (int)sym_choose(7, "policy"); } // 0..5: an explicit cast, 6: an assignment
static int policy3() { static const int P[] = {0, 3, 5, 6}; return P[sym_choose(4, "policy")]; } static int policy2() { return sym_choose(2, "policy") ? 5 : 0; }
static any cast(world& w, tt::data const& st, any v, tt::data const& tt_, int pol) { w.ec.lost_precision(false); if (pol == 6 || st.kind() == tt::type_kind::int1 || st.kind() == tt::type_kind::int2) { w.ec.set_loss_precision_policy((lp)pol); return ex::details::conduct_cast(w.ec, st, tt_, v); } w.ec.set_loss_precision_policy(lp::warn); auto a = w.eval(*mk<ts::cast>(tt_, (cl)pol, w.var(st, v))); SYM_ASSERT(w.ec.get_loss_precision_policy() == lp::warn); return a; }
template <class F> static void outcome(world& w, any const& a, bool lost, int pol, ek loss, F&& check) { sym_observe("i", a.type_index()); if (!lost) { SYM_ASSERT(!w.ec.lost_precision()); check(); return; } SYM_ASSERT(w.ec.lost_precision()); switch (pol) { case 0: case 4: check(); break; case 1: case 2: SYM_ASSERT(is_error(a, ek::unsupported)); break; case 3: SYM_ASSERT(a.empty()); break; default: SYM_ASSERT(is_error(a, loss)); } }
static tt::data const* ints[] = {&t_i1, &t_i2, &t_i4, &t_i8}; static const std::int64_t lo[] = {-128, -32768, INT32_MIN, INT64_MIN}, hi[] = {127, 32767, INT32_MAX, INT64_MAX};
static void is_integer(any const& a, int t, std::int64_t v) { if (t == 3) SYM_ASSERT(is_long(a, v)); else SYM_ASSERT(is_int(a, (std::int32_t)v)); }
HARNESS(c36_int) { world w; int s = (int)sym_choose(4, "source"), t = (int)sym_choose(4, "target"), pol = policy(); bool on = sym_choose(2, "small"); global::test_cfg()->support_smallint(on); std::int64_t v = s == 3 ? (std::int64_t)sym_u64("v") : (std::int64_t)(std::int32_t)sym_u32("v"); sym_assume(v >= lo[s]); sym_assume(v <= hi[s]); auto a = cast(w, *ints[s], s == 3 ? L(v) : I((std::int32_t)v), *ints[t], pol);
    if (!on && (s < 2 || t < 2)) { SYM_ASSERT(is_error(a, ek::unsupported)); return; } std::int64_t want = v; bool lost = false; if (v > hi[t]) { want = hi[t]; lost = true; } else if (v < lo[t]) { want = lo[t]; lost = true; } outcome(w, a, lost, pol, ek::lost_precision, [&] { is_integer(a, t, want); }); }
// the integer part of c * 10^e and whether digits are dropped
static std::uint64_t p10(int n) { std::uint64_t r = 1; while (n-- > 0) r *= 10; return r; }
static std::uint64_t whole(std::uint64_t c, int e, bool& inexact) { inexact = false; if (e >= 0) return c * p10(e); if (e < -19) { inexact = c != 0; return 0; } std::uint64_t p = p10(-e), q = c / p; inexact = q * p != c; return q; }
static void to_int(world& w, any const& a, bool neg, std::uint64_t c, int e, int t, int pol) { bool inexact; std::uint64_t q = whole(c, e, inexact); std::uint64_t top = neg ? (std::uint64_t)hi[t] + 1 : (std::uint64_t)hi[t]; bool over = q > top; if (!over && q == top && inexact) over = true; std::int64_t want = over ? (neg ? lo[t] : hi[t]) : neg ? (std::int64_t)(0 - q) : (std::int64_t)q; outcome(w, a, over || inexact, pol, ek::lost_precision, [&] { is_integer(a, t, want); }); }
HARNESS(c36_decimal_int) { world w; global::test_cfg()->support_smallint(true); int t = (int)sym_choose(4, "target"), pol = policy2(); bool neg = sym_choose(2, "negative"); static const int E[] = {-20, -2, -1, 0, 1, 5, 0, -1}; int k = (int)sym_choose(8, "exponent"); auto c = sym_u64("c"); if (k < 6) sym_assume(c < (1ULL << 40)); auto a = cast(w, t_dec, A(triple(neg ? -1 : 1, 0, c, E[k])), *ints[t], pol); to_int(w, a, neg, c, E[k], t, pol); }
struct shape { int p, s; }; static const shape shapes[] = {{5, 2}, {3, 0}, {4, 4}, {-1, 1}, {-1, -1}, {5, -1}};
static void to_dec(world& w, any const& a, bool neg, std::uint64_t c, int e, shape d, int pol) { using O = std::optional<std::size_t>; if (d.p >= 0 && d.s < 0) { SYM_ASSERT(is_error(a, ek::unsupported)); return; }
    if (d.s < 0) { outcome(w, a, false, pol, ek::lost_precision, [&] { SYM_ASSERT(a.type_index() == any::index<triple>); auto r = a.to<triple>(); if (c == 0) { SYM_ASSERT(r.coefficient_low() == 0); return; } SYM_ASSERT((r.sign() < 0) == neg); int x = r.exponent() - e; SYM_ASSERT(x >= 0 && x < 19); SYM_ASSERT(r.coefficient_low() <= c); SYM_ASSERT(r.coefficient_low() * p10(x) == c); std::uint64_t q = r.coefficient_low() / 10; SYM_ASSERT(q * 10 != r.coefficient_low()); }); return; }
    bool inexact; std::uint64_t q = whole(c, e + d.s, inexact); bool over = d.p >= 0 && q >= p10(d.p); std::uint64_t want = over ? p10(d.p) - 1 : q; outcome(w, a, over || inexact, pol, ek::lost_precision, [&] { SYM_ASSERT(a.type_index() == any::index<triple>); auto r = a.to<triple>(); SYM_ASSERT(r.coefficient_high() == 0 && r.coefficient_low() == want); SYM_ASSERT(r.exponent() == -d.s); if (want != 0) SYM_ASSERT((r.sign() < 0) == neg); }); }
static tt::decimal dec_type(shape d) { using O = std::optional<std::size_t>; return tt::decimal(d.p < 0 ? O{} : O(d.p), d.s < 0 ? O{} : O(d.s)); }
HARNESS(c36_decimal) { world w; shape d = shapes[sym_choose(6, "shape")]; auto ty = dec_type(d); int pol = policy2(), k = (int)sym_choose(4, "source"); if (k == 0) { static const int E[] = {-3, -1, 0, 2}; int e = E[sym_choose(4, "exponent")]; bool neg = sym_choose(2, "negative"); std::uint64_t c = (std::uint64_t)sym_u16("c"); auto a = cast(w, t_dec, A(triple(neg ? -1 : 1, 0, c, e)), ty, pol); to_dec(w, a, neg, c, e, d, pol); return; }
    std::int64_t v = (std::int64_t)(std::int16_t)sym_u16("v"); if (k == 3) v = sym_choose(2, "max") ? INT64_MAX : INT64_MIN; if (k == 3 && d.p < 0 && d.s >= 0) return; auto a = k == 1 ? cast(w, t_i4, I((std::int32_t)v), ty, pol) : cast(w, t_i8, L(v), ty, pol); bool neg = v < 0; std::uint64_t c = (std::uint64_t)v; c = sym_ite(neg, 0 - c, c); if (k == 3 && d.s > 0) { outcome(w, a, true, pol, ek::lost_precision, [&] { SYM_ASSERT(a.type_index() == any::index<triple>); auto r = a.to<triple>(); SYM_ASSERT(r.coefficient_low() == p10(d.p) - 1 && r.exponent() == -d.s && (r.sign() < 0) == neg); }); return; } to_dec(w, a, neg, c, 0, d, pol); }
template <class F> static void float_int(world& w, tt::data const& st, F v, int t, int pol) { auto a = cast(w, st, A(v), *ints[t], pol); if (pol == 6) { SYM_ASSERT(is_error(a, ek::unsupported)); return; } if (std::isnan(v)) { SYM_ASSERT(is_error(a, ek::arithmetic_error)); return; }
    const F end = t == 3 ? (F)9223372036854775808.0 : (F)((double)hi[t] + 1), begin = (F)(double)lo[t]; if (v >= end) { outcome(w, a, true, pol, ek::lost_precision, [&] { is_integer(a, t, hi[t]); }); return; } bool below = v < begin; if (below) { outcome(w, a, true, pol, ek::lost_precision, [&] { is_integer(a, t, lo[t]); }); return; }
    F tr = std::trunc(v); if (tr == (F)(double)hi[t] && tr != v && t < 3) { outcome(w, a, true, pol, ek::lost_precision, [&] { is_integer(a, t, hi[t]); }); return; } outcome(w, a, tr != v, pol, ek::lost_precision, [&] { if (t == 3) { SYM_ASSERT(a.type_index() == any::index<std::int64_t>); SYM_ASSERT((F)a.template to<std::int64_t>() == tr); } else { SYM_ASSERT(a.type_index() == any::index<std::int32_t>); SYM_ASSERT((F)a.template to<std::int32_t>() == tr); } }); }
static float flt(const char* n) { auto b = sym_u32(n); float f; std::memcpy(&f, &b, 4); return f; } static double dbl(const char* n) { auto b = sym_u64(n); double f; std::memcpy(&f, &b, 8); return f; }
HARNESS(c36_float_int) { world w; global::test_cfg()->support_smallint(true); int t = (int)sym_choose(4, "target"), pol = policy3(); if (sym_choose(2, "double")) float_int(w, t_f8, dbl("v"), t, pol); else float_int(w, t_f4, flt("v"), t, pol); }
static bool is_f4(any const& a, float v) { if (a.type_index() != any::index<float>) return false; float x = a.to<float>(); std::uint32_t p, q; std::memcpy(&p, &x, 4); std::memcpy(&q, &v, 4); return p == q; } static bool is_f8(any const& a, double v) { if (a.type_index() != any::index<double>) return false; double x = a.to<double>(); std::uint64_t p, q; std::memcpy(&p, &x, 8); std::memcpy(&q, &v, 8); return p == q; }
HARNESS(c36_float) { world w; int pol = policy(), k = (int)sym_choose(8, "case"); const float nf = std::numeric_limits<float>::quiet_NaN(), jf = std::numeric_limits<float>::infinity(); const double nd = nf, jd = jf; any a; auto ok = [&] { SYM_ASSERT(!w.ec.lost_precision()); };
    switch (k) { case 0: { float v = flt("v"); a = cast(w, t_f4, A(v), t_f4, pol); SYM_ASSERT(is_f4(a, std::isnan(v) ? nf : v)); ok(); return; } case 1: { float v = flt("v"); a = cast(w, t_f4, A(v), t_f8, pol); SYM_ASSERT(is_f8(a, std::isnan(v) ? nd : (double)v)); ok(); return; } case 2: { double v = dbl("v"); a = cast(w, t_f8, A(v), t_f8, pol); SYM_ASSERT(is_f8(a, std::isnan(v) ? nd : v)); ok(); return; }
        case 3: { double v = dbl("v"); a = cast(w, t_f8, A(v), t_f4, pol); ok(); float r; if (std::isnan(v)) r = nf; else if (v > (double)std::numeric_limits<float>::max()) r = jf; else if (v < -(double)std::numeric_limits<float>::max()) r = -jf; else if (v < (double)std::numeric_limits<float>::min() && v > -(double)std::numeric_limits<float>::min()) r = std::signbit(v) ? -0.0F : 0.0F; else r = (float)v; SYM_ASSERT(is_f4(a, r)); return; }
        case 4: { auto v = (std::int32_t)sym_u32("v"); bool f = sym_choose(2, "real"); a = cast(w, t_i4, I(v), f ? (tt::data const&)t_f4 : t_f8, pol); ok(); if (f) SYM_ASSERT(is_f4(a, (float)v)); else SYM_ASSERT(is_f8(a, (double)v)); return; } case 5: { auto v = (std::int64_t)sym_u64("v"); bool f = sym_choose(2, "real"); a = cast(w, t_i8, L(v), f ? (tt::data const&)t_f4 : t_f8, pol); ok(); if (f) SYM_ASSERT(is_f4(a, (float)v)); else SYM_ASSERT(is_f8(a, (double)v)); return; }
        case 6: { bool d = sym_choose(2, "double"), neg = sym_choose(2, "negative"), nan = sym_choose(2, "nan"); shape z = shapes[sym_choose(6, "shape")]; if (z.p < 0 && z.s >= 0) z = {-1, -1}; auto ty = dec_type(z); double v = nan ? nd : neg ? -jd : jd; a = d ? cast(w, t_f8, A(v), ty, pol) : cast(w, t_f4, A((float)v), ty, pol); if (pol == 6) { SYM_ASSERT(is_error(a, ek::unsupported)); return; } if (nan) { SYM_ASSERT(is_error(a, ek::arithmetic_error)); return; } if (z.p >= 0 && z.s < 0) { SYM_ASSERT(is_error(a, ek::unsupported)); return; }
            outcome(w, a, true, pol, ek::lost_precision, [&] { SYM_ASSERT(a.type_index() == any::index<triple>); auto r = a.to<triple>(); SYM_ASSERT((r.sign() < 0) == neg); if (z.p >= 0) { SYM_ASSERT(r.coefficient_high() == 0 && r.coefficient_low() == p10(z.p) - 1); SYM_ASSERT(r.exponent() == -z.s); } }); return; }
        default: { bool d = sym_choose(2, "double"), neg = sym_choose(2, "negative"), nan = sym_choose(2, "nan"); tt::character ty{tt::varying, 20}; double v = nan ? (neg ? -nd : nd) : neg ? -jd : jd; a = d ? cast(w, t_f8, A(v), ty, pol) : cast(w, t_f4, A((float)v), ty, pol); ok(); SYM_ASSERT(is_text(a, nan ? "NaN" : neg ? "-Infinity" : "Infinity")); } } }
static std::string chr(int n, const char* nm) { std::string s = sym_string(n, nm); auto b = [&](int i) { return (unsigned char)s[i]; }; if (n == 1) sym_assume(b(0) < 0x80); if (n == 2) { sym_assume(b(0) >= 0xc2 && b(0) <= 0xdf); sym_assume(b(1) >= 0x80 && b(1) < 0xc0); } if (n == 3) { sym_assume(b(0) >= 0xe1 && b(0) <= 0xec); sym_assume(b(1) >= 0x80 && b(1) < 0xc0); sym_assume(b(2) >= 0x80 && b(2) < 0xc0); } return s; }
// s cut to at most n bytes without splitting a character, and padded where the target asks for it
static void fit(world& w, any const& a, std::vector<std::string> const& cs, std::optional<std::size_t> n, bool pad, bool padded, char fill, bool text, int pol) { std::string all, out; for (auto& c : cs) all += c; bool lost = false; if (!n || all.size() <= *n) out = all; else { for (auto& c : cs) { if (out.size() + c.size() > *n) break; out += c; } std::string rest = all.substr(out.size()); bool blank = true; for (char c : rest) blank = sym_and(blank, c == fill); lost = !(padded && blank); } if (n && pad) while (out.size() < *n) out += fill; w.ec.resource();
    outcome(w, a, lost, pol, ek::lost_precision_value_too_long, [&] { if (text) SYM_ASSERT(is_text(a, out)); else { SYM_ASSERT(a.type_index() == any::index<accessor::binary>); auto b = a.to<accessor::binary>(); std::string_view v(b); SYM_ASSERT(v.size() == out.size() && sym_eq(v.data(), out.data(), out.size())); } }); }
HARNESS(c36_char) { world w; int pol = policy(); std::vector<std::string> cs; std::string s; size_t n = sym_choose(QT(5, 6), "chars"); for (size_t i = 0; i < n; i++) { int k = (int)sym_choose(s.empty() ? 3 : 2, "width"); cs.push_back(chr(k == 0 ? 1 : k == 1 ? 3 : 2, "c")); s += cs.back(); if (s.size() > 5) return; } tt::character from{tt::varying, 100}, to{tt::varying}; bool padded = sym_choose(2, "padded"); from.flag = !padded; bool pad = sym_choose(2, "char"); to.flag = !pad; size_t m = pad ? 1 + sym_choose(6, "n") : sym_choose(7, "n"); if (m) to.n = m; auto a = cast(w, from, S(s), to, pol); fit(w, a, cs, m ? std::optional<size_t>(m) : std::nullopt, pad, padded, ' ', true, pol); }
static std::vector<std::string> bytes(std::string const& s) { std::vector<std::string> v; for (char c : s) v.push_back(std::string(1, c)); return v; }
HARNESS(c36_octet) { world w; int pol = policy2(), k = (int)sym_choose(3, "case"); bool padded = sym_choose(2, "padded"), pad = sym_choose(2, "fixed"); tt::character fc{tt::varying, 100}, tc{tt::varying}; tt::octet fo{tt::varying, 100}, to{tt::varying}; fc.flag = fo.flag = !padded; tc.flag = to.flag = !pad;
    if (k == 2) { size_t n = sym_choose(QT(3, 4), "n"); std::string out; for (size_t i = 0; i < n; i++) out += sym_string(1, "b"); size_t odd = sym_choose(3, "malformed"); std::string hex; static const char U[] = "0123456789ABCDEF", D[] = "0123456789abcdef"; bool up = n == 1 && sym_choose(2, "upper"); for (char c : out) { unsigned char h = (unsigned char)c >> 4, l = c & 15; auto dg = [&](unsigned char x) { return (char)sym_ite(x < 10, '0' + x, (up ? 'A' : 'a') + x - 10); }; hex += dg(h); hex += dg(l); } if (odd == 1) hex += 'a'; if (odd == 2) { hex += 'g'; hex += '0'; } bool sp = sym_choose(2, "spaces"); std::string text = std::string(sp, ' ') + hex + std::string(sp * 2, ' '); size_t m = pad ? 1 + sym_choose(3, "m") : sym_choose(4, "m"); if (m) to.n = m; auto a = cast(w, fc, S(text), to, pol); if (odd) { SYM_ASSERT(is_error(a, ek::format_error)); return; } fit(w, a, bytes(out), m ? std::optional<size_t>(m) : std::nullopt, pad, padded, 0, false, pol); return; }
    size_t n = sym_choose(4, "n"); std::string s = sym_string(n, "s"); auto* keep = new std::string(s); any v = A(accessor::binary(keep->data(), keep->size())); if (k == 0) { size_t m = pad ? 1 + sym_choose(4, "m") : sym_choose(5, "m"); if (m) to.n = m; auto a = cast(w, fo, v, to, pol); fit(w, a, bytes(s), m ? std::optional<size_t>(m) : std::nullopt, pad, padded, 0, false, pol); return; }
    if (n) return; tc.n = 2; auto a = cast(w, fo, v, tc, pol); fit(w, a, {}, 2, pad, padded, ' ', true, pol); }
static std::string parsed; static decimal::Decimal number; static int parse_kind; // 0 a number, 1 inf, 2 nan, 3 malformed
static decimal::Decimal parse_number(std::string_view s) { parsed = std::string(s); decimal::Decimal d = number; if (parse_kind == 1) d.k_ = decimal::Decimal::inf; if (parse_kind >= 2) d.k_ = decimal::Decimal::nan; if (parse_kind == 3 || s.empty()) { d.k_ = decimal::Decimal::nan; decimal::context.add(MPD_IEEE_Invalid_operation); } return d; }
HARNESS(c36_text) { world w; global::test_cfg()->support_smallint(true); global::test_cfg()->support_boolean(true); int pol = policy2(), k = (int)sym_choose(7, "target"); std::string core = sym_choose(2, "blank") ? "" : k == 6 ? sym_string(sym_choose(7, "len"), "text") : "1x"; if (k == 6) for (char c : core) { sym_assume((unsigned char)c < 0x80); sym_assume(c != ' '); } std::string text = std::string(sym_choose(3, "lead"), ' ') + core + std::string(sym_choose(3, "trail"), ' ');
    if (k == 6) { auto a = cast(w, t_ch, S(text), t_b, pol); auto pre = [&](const char* f) { size_t n = strlen(f); if (core.empty() || core.size() > n) return false; bool r = true; for (size_t i = 0; i < core.size(); i++) r = sym_and(r, sym_or(core[i] == f[i], core[i] == f[i] - 32)); return r; }; bool t = pre("true"), f = pre("false"); if (t) SYM_ASSERT(is_bool(a, true)); else if (f) SYM_ASSERT(is_bool(a, false)); else SYM_ASSERT(is_error(a, ek::format_error)); return; }
    static const int E[] = {-2, 0, 1}; int e = E[sym_choose(3, "exponent")]; std::uint64_t c = sym_u16("c"); bool neg = sym_choose(2, "negative"); number = decimal::Decimal(neg, c, e); parse_kind = core.empty() ? 0 : (int)sym_choose(4, "parse"); decimal::Decimal::parse = parse_number; shape d = k == 4 ? shapes[0] : shapes[4]; auto ty = dec_type(d); auto a = cast(w, t_ch, S(text), k < 4 ? *ints[k] : ty, pol); SYM_ASSERT(parsed == core); if (parse_kind || core.empty()) { SYM_ASSERT(is_error(a, ek::format_error)); return; } if (k < 4) to_int(w, a, neg, c, e, k, pol); else to_dec(w, a, neg, c, e, d, pol); }
namespace td = takatori::datetime; static td::datetime_info when; static bool bad_time; static int asked_for; static std::string asked; static td::conversion_result<td::datetime_info> parse_when(std::string_view s, int k) { asked = std::string(s); asked_for = k; if (bad_time || s.empty()) return td::conversion_result<td::datetime_info>(std::string("bad")); return td::conversion_result<td::datetime_info>(when); }
HARNESS(c36_temporal) { world w; td::parser = parse_when; int k = (int)sym_choose(4, "target"), pol = policy2(); bool blank = sym_choose(2, "blank"); bad_time = !blank && sym_choose(2, "bad"); std::string core = blank ? "" : "2000-01-01"; std::string text = std::string(sym_choose(2, "lead"), ' ') + core + std::string(sym_choose(2, "trail") * 2, ' '); auto rg = [](const char* n, unsigned lo, unsigned hi) { auto v = sym_u32(n); sym_assume(v >= lo); sym_assume(v <= hi); return v; };
    when = {}; static const unsigned Y[] = {1, 2024, 9999}; int yi = (int)sym_choose(3, "y"); when.date = {Y[yi], yi == 1 ? 2u : yi ? 12u : 1u, rg("d", 1, 28)}; static const td::time_info H[] = {{0, 0, 0, std::chrono::nanoseconds(0)}, {23, 59, 59, std::chrono::nanoseconds(999999999)}, {7, 35, 3, std::chrono::nanoseconds(120)}}; when.time = H[sym_choose(3, "time")]; if (sym_choose(2, "offset")) { td::zone_offset_info z; z.plus = sym_choose(2, "plus"); z.hour = rg("zh", 0, 23); z.minute = rg("zm", 0, 59); when.offset = z; } auto zone = (std::int32_t)sym_u32("zone"); sym_assume(zone >= -840); sym_assume(zone <= 840); global::test_cfg()->zone_offset(zone);
    tt::data const* T[] = {&t_date, &t_tod, &t_tp, &t_tz}; auto a = cast(w, t_ch, S(text), *T[k], pol); SYM_ASSERT(asked == core); SYM_ASSERT(asked_for == (k == 3 ? 2 : k)); SYM_ASSERT(!w.ec.lost_precision()); if (blank || bad_time) { SYM_ASSERT(is_error(a, ek::format_error)); return; } td::date dd((std::int32_t)when.date.year, when.date.month, when.date.day); std::int64_t sec = ((std::int64_t)when.time.hour * 60 + when.time.minute) * 60 + when.time.second; auto ns = (std::uint64_t)when.time.subsecond.count();
    if (k == 0) { SYM_ASSERT(a.type_index() == any::index<td::date>); SYM_ASSERT(a.to<td::date>() == dd); return; } if (k == 1) { SYM_ASSERT(a.type_index() == any::index<td::time_of_day>); SYM_ASSERT(a.to<td::time_of_day>().time_since_epoch().count() == (std::uint64_t)sec * 1000000000ULL + ns); return; }
    if (k == 2 && when.offset) { SYM_ASSERT(is_error(a, ek::format_error)); return; } std::int64_t min = 0; if (k == 3) min = when.offset ? (when.offset->plus ? 1 : -1) * ((std::int64_t)when.offset->hour * 60 + when.offset->minute) : zone; SYM_ASSERT(a.type_index() == any::index<td::time_point>); auto p = a.to<td::time_point>(); SYM_ASSERT(p.seconds_since_epoch().count() == dd.days_since_epoch() * 86400 + sec - min * 60); SYM_ASSERT(p.subsecond().count() == ns); }
HARNESS(c36_lob) { world w; int pol = policy2(); bool on = sym_choose(2, "enabled"), text = sym_choose(2, "text"); global::test_cfg()->enable_blob_cast(on); lobs::regs = 0; lobs::reg = lobs::find = lobs::read = status::ok; tt::data const& lt = text ? (tt::data const&)t_clob : t_blob;
    if (sym_choose(2, "store")) { std::string s = sym_string(sym_choose(5, "n"), "s"); bool bad = sym_choose(2, "fails"); if (bad) lobs::reg = status::err_io_error; auto* b = new std::string(s); lobs::id = sym_u64("id"); auto a = cast(w, text ? (tt::data const&)t_ch : t_oc, text ? S(s) : A(accessor::binary(b->data(), b->size())), lt, pol); if (!on) { SYM_ASSERT(is_error(a, ek::unsupported)); SYM_ASSERT(lobs::regs == 0); return; } SYM_ASSERT(lobs::regs == 1); if (bad) { SYM_ASSERT(is_error(a, ek::error_info_provided)); SYM_ASSERT(w.ec.get_error_info() && w.ec.get_error_info()->status() == status::err_io_error); return; } SYM_ASSERT(lobs::registered.size() == s.size() && sym_eq(lobs::registered.data(), s.data(), s.size()));
        if (text) { SYM_ASSERT(a.type_index() == any::index<lob::clob_reference>); auto r = a.to<lob::clob_reference>(); SYM_ASSERT(r.object_id() == lobs::id && r.provider() == lob::lob_data_provider::datastore); } else { SYM_ASSERT(a.type_index() == any::index<lob::blob_reference>); auto r = a.to<lob::blob_reference>(); SYM_ASSERT(r.object_id() == lobs::id && r.provider() == lob::lob_data_provider::datastore); } return; }
    int k = (int)sym_choose(4, "case"); size_t lim = text ? character_type_max_length_for_value : octet_type_max_length_for_value; if (k == 0) lobs::find = status::err_not_found; if (k == 1) lobs::read = status::err_io_error; std::string s = sym_string(sym_choose(5, "n"), "s"); if (text) for (char c : s) sym_assume((unsigned char)c < 0x80); if (k == 3) { if (!s.empty() || pol) return; s = std::string(lim + 1, 'a'); } lobs::content = s; tt::character tc{tt::varying}; tt::octet to{tt::varying}; size_t m = k == 3 ? 2 : sym_choose(4, "m"); bool pad = m && sym_choose(2, "pad"); if (m) tc.n = to.n = m; tc.flag = to.flag = !pad; auto id = sym_u64("id"); using pv = lob::lob_data_provider; auto a = cast(w, lt, text ? A(lob::clob_reference(id, pv::datastore)) : A(lob::blob_reference(id, pv::datastore)), text ? (tt::data const&)tc : to, pol); if (!on) { SYM_ASSERT(is_error(a, ek::unsupported)); return; }
    if (k == 0 || k == 1 || k == 3) { SYM_ASSERT(is_error(a, ek::error_info_provided)); SYM_ASSERT(!!w.ec.get_error_info()); if (k == 3) SYM_ASSERT(w.ec.get_error_info()->code() == error_code::value_too_long_exception); return; } SYM_ASSERT(lobs::asked == id); fit(w, a, bytes(s), m ? std::optional<size_t>(m) : std::nullopt, pad, false, text ? ' ' : 0, text, pol); }
HARNESS(c36_matrix) { world w; int pol = policy3(); tt::data const* T[] = {&t_b, &t_i1, &t_i2, &t_i4, &t_i8, &t_f4, &t_f8, &t_dec, &t_ch, &t_oc, &t_date, &t_tod, &t_tp, &t_blob, &t_clob, &t_unk}; static const char* ok[] = {"x.......x.......", ".xxxxxxxx.......", ".xxxxxxxx.......", ".xxxxxxxx.......", ".xxxxxxxx.......", ".xxxxxxxx.......", ".xxxxxxxx.......", ".xxxxxxxx.......", "xxxxxxxxxxxxx.x.", "........xx...x..", "................", "................", "................", ".........x...x..", "........x.....x.", "................"}; size_t s = sym_choose(16, "source"), t = sym_choose(16, "target"); auto of = [&](size_t x, size_t y) { return s == x || s == y || t == x || t == y; }; bool b = !of(0, 0) || sym_choose(2, "boolean"), sm = !of(1, 2) || sym_choose(2, "small"), lo_ = !of(13, 14) || sym_choose(2, "lob"); auto& cf = *global::test_cfg(); cf.support_boolean(b); cf.support_smallint(sm); cf.enable_blob_cast(lo_);
    bool off = false; auto has = [&](size_t x, size_t y) { return s == x || s == y || t == x || t == y; }; if (s != 15) { if (has(0, 0)) off = !b; else if (has(1, 2)) off = !sm; else if (has(13, 14)) off = !lo_; if (pol == 6 && (s == 5 || s == 6) && ((t >= 1 && t <= 4) || t == 7)) off = true; } int how = (int)sym_choose(3, "how");
    if (how == 0) { auto a = cast(w, *T[s], {}, *T[t], pol); if (off && (pol == 6 || s == 1 || s == 2)) SYM_ASSERT(is_error(a, ek::unsupported)); else SYM_ASSERT(a.empty()); return; } if (how == 2) { if (pol == 6) return; bool two = sym_choose(2, "unsupported"); auto a = w.eval(*mk<ts::cast>(*T[t], (cl)pol, two ? failing2() : failing())); SYM_ASSERT(is_error(a, two ? ek::unsupported : ek::arithmetic_error)); return; }
    if (!off && ok[s][t] == 'x') return; if (s == 15) return; auto* k = new std::string("a"); any v; switch (s) { case 0: v = B(true); break; case 1: case 2: case 3: v = I(1); break; case 4: v = L(1); break; case 5: v = A(1.0F); break; case 6: v = A(1.0); break; case 7: v = A(triple(1)); break; case 8: v = S("a"); break; case 9: v = A(accessor::binary(k->data(), 1)); break; case 10: v = A(td::date(1)); break; case 11: v = A(td::time_of_day(std::chrono::nanoseconds(1))); break; case 12: v = A(td::time_point(std::chrono::duration<std::int64_t>(1))); break; case 13: v = A(lob::blob_reference(1, lob::lob_data_provider::datastore)); break; default: v = A(lob::clob_reference(1, lob::lob_data_provider::datastore)); } auto a = cast(w, *T[s], v, *T[t], pol); SYM_ASSERT(is_error(a, ek::unsupported)); }
