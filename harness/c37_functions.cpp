//@property C37
//@src src/jogasaki/executor/expr/evaluator.cpp src/jogasaki/executor/expr/evaluator_context.cpp src/jogasaki/executor/expr/error.cpp src/jogasaki/executor/expr/details/cast_evaluation.cpp src/jogasaki/executor/expr/details/decimal_context.cpp src/jogasaki/executor/expr/details/decimal_context_guard.cpp src/jogasaki/executor/expr/details/cast_evaluation_temporal.cpp src/jogasaki/executor/conv/unify.cpp src/jogasaki/executor/conv/parameter_apply.cpp src/jogasaki/utils/as_any.cpp src/jogasaki/executor/process/impl/variable_table.cpp src/jogasaki/executor/process/impl/variable_table_info.cpp src/jogasaki/utils/utf8_utils.cpp src/jogasaki/executor/function/scalar_function_repository.cpp src/jogasaki/executor/function/scalar_function_info.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/record_copier.cpp src/jogasaki/error/error_info.cpp src/jogasaki/executor/expr/lob_processing.cpp src/jogasaki/accessor/text.cpp  src/jogasaki/data/aligned_buffer.cpp src/jogasaki/data/any.cpp src/jogasaki/data/small_record_store.cpp src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/lifo_paged_memory_resource.cpp src/jogasaki/memory/page_pool.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp src/jogasaki/utils/field_types.cpp src/jogasaki/utils/hex_to_octet.cpp src/jogasaki/executor/function/builtin_scalar_functions.cpp src/jogasaki/utils/base64_utils.cpp src/jogasaki/utils/string_utils.cpp
//@stubs
//@inc stubs_expr stubs_tbb
//@flags -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@entry c37_substring quick=80 thorough=400 | texts of 0..4 characters of one to three bytes and octets of 0..5 bytes, every 64-bit start and length
//@entry c37_malformed quick=80 thorough=400 | substring, character_length, position and octet_length of every byte string up to 3 bytes, and every 4 bytes at the end of a text in a buffer of its exact size
//@entry c37_position quick=80 thorough=400 | texts of 0..4 characters and substrings of 0..2 characters of one or multiple bytes
//@entry c37_case quick=60 thorough=200 | upper, lower, rtrim, ltrim of every byte string of 0..3 (thorough: 4) bytes and of 18 bytes of which two are free
//@entry c37_integral quick=60 thorough=300 | abs, mod, ceil, floor of every INT and BIGINT (mod: 16-bit dividends by seven divisors, 8-bit ones by each other, and the extremes)
//@entry c37_round quick=70 thorough=500 solverms=20000 | round of INT and BIGINT of either sign: 4096 (thorough: 65536) values from zero, from a middle value and up to the maximum, and the minimum, for every 64-bit scale out of range and scales 0, -1, -2, -9, -10, -17, -18 (thorough: every scale)
//@entry c37_decimal quick=70 thorough=500 | ceil, floor, round, abs of decimals with a 10-bit (thorough: 16-bit) coefficient, exponent -4..2, scale -5..4, 38 and out of range
//@entry c37_time quick=40 thorough=100 | the current date and time functions: six instants, any zone offset within 14 hours, missing transaction or start time
//@entry c37_base64 quick=80 thorough=300 | encode and decode of every octet string of 0..5 bytes; decode of every text of 0..5 bytes; encoding names
#include "sym.h"
#include "expr_env.h"
#include "utf8_ref.h"
#include <jogasaki/executor/function/builtin_scalar_functions.h>
#include <jogasaki/utils/assign_reference_tag.h>
jogasaki::status jogasaki::datastore::assign_lob_id(lob::lob_reference const&, transaction_context*, lob::lob_id_type&, std::shared_ptr<error::error_info>&) { return status::err_unknown; } std::optional<jogasaki::lob::lob_reference_tag_type> jogasaki::utils::assign_reference_tag(std::uint64_t, lob::lob_id_type) { return {}; }
namespace bf = executor::function::builtin; using fn = any (*)(ex::evaluator_context&, takatori::util::sequence_view<any>);
template <class F> static any call(world& w, F f, std::vector<any> a) { auto r = f(w.ec, takatori::util::sequence_view<any>(a.data(), a.data() + a.size())); sym_observe("i", r.type_index()); return r; }
static any oct(std::string_view s) { auto* b = new std::string(s); return A(accessor::binary(b->data(), b->size())); }
static bool is_oct(any const& a, std::string_view s) { if (a.type_index() != any::index<accessor::binary>) return false; auto t = a.to<accessor::binary>(); std::string_view x(t); return x.size() == s.size() && sym_eq(x.data(), s.data(), s.size()); }
static std::string chr(int n, const char* nm) { std::string s = sym_string(n, nm); auto b = [&](int i) { return (unsigned char)s[i]; }; if (n == 1) sym_assume(b(0) < 0x80); if (n == 2) { sym_assume(b(0) >= 0xc2 && b(0) <= 0xdf); sym_assume(b(1) >= 0x80 && b(1) < 0xc0); } if (n == 3) { sym_assume(b(0) >= 0xe1 && b(0) <= 0xec); sym_assume(b(1) >= 0x80 && b(1) < 0xc0); sym_assume(b(2) >= 0x80 && b(2) < 0xc0); } return s; }
static std::vector<std::string> text(size_t max, const char* nm, std::string& all) { std::vector<std::string> v; size_t n = sym_choose(max + 1, nm); for (size_t i = 0; i < n; i++) { v.push_back(chr(1 + (int)sym_choose(3, "width"), nm)); all += v.back(); } return v; }
HARNESS(c37_substring) { world w; std::vector<std::string> cs; std::string s; bool bin = sym_choose(2, "octet"); if (bin) { s = sym_string(sym_choose(6, "n"), "s"); for (char c : s) cs.push_back(std::string(1, c)); } else cs = text(QT(3, 4), "c", s); if (s.size() > 8) return; if (!s.empty() && sym_choose(2, "long")) { for (int i = 0; i < 10; i++) { cs.push_back("xy"); cs.back() = "z"; s += "z"; } }
    int nul = (int)sym_choose(4, "null"); bool has = sym_choose(2, "length"); auto st = (std::int64_t)sym_u64("start"), ln = (std::int64_t)sym_u64("length"); sym_assume(st != INT64_MIN); std::vector<any> a{nul == 1 ? any{} : bin ? oct(s) : S(s), nul == 2 ? any{} : L(st)}; if (has) a.push_back(nul == 3 ? any{} : L(ln)); auto r = call(w, bf::substring, a); std::int64_t n = (std::int64_t)cs.size(); bool null = nul == 1 || nul == 2 || (nul == 3 && has); if (!null) null = st < 1 || st > n || (has && ln < 0); if (null) { SYM_ASSERT(r.empty()); return; }
    std::string want; for (std::int64_t i = 1; i <= n; i++) if (i >= st && (!has || (std::uint64_t)(i - st) < (std::uint64_t)ln)) want += cs[i - 1]; if (bin) SYM_ASSERT(is_oct(r, want)); else SYM_ASSERT(is_text(r, want)); }
HARNESS(c37_malformed) { world w; size_t n = sym_choose(5, "n"); std::string s = sym_string(n, "s"); if (n == 4) { s = std::string(20, 'q') + s; n = 24; } auto S = [](std::string_view v) { if (v.size() < 16) return ::S(v); auto* b = static_cast<char*>(malloc(v.size())); memcpy(b, v.data(), v.size()); return A(accessor::text(b, v.size())); }; auto* p = (const unsigned char*)s.data(); bool ok = true; std::int64_t count = 0; std::vector<size_t> at; for (size_t i = 0; i < n;) { size_t k = ref::utf8_class(p, n, i); if (!k) { ok = false; break; } at.push_back(i); i += k; ++count; } auto len = call(w, bf::character_length, {S(s)}); if (ok) SYM_ASSERT(is_long(len, count)); else SYM_ASSERT(len.empty()); SYM_ASSERT(is_long(call(w, bf::octet_length, {S(s)}), (std::int64_t)n)); SYM_ASSERT(is_long(call(w, bf::octet_length, {oct(s)}), (std::int64_t)n)); std::int64_t st = 1 + (std::int64_t)sym_choose(3, "start"); auto sub = call(w, bf::substring, {S(s), L(st)}); if (!ok || st > count) SYM_ASSERT(sub.empty()); else SYM_ASSERT(is_text(sub, std::string_view(s).substr(at[st - 1]))); auto pos = call(w, bf::position, {S("a"), S(s)}); if (!ok) SYM_ASSERT(pos.empty()); else { std::int64_t f = 0; for (std::int64_t i = 0; i < count && !f; i++) if (s[at[i]] == 'a') f = i + 1; SYM_ASSERT(is_long(pos, f)); } int k = (int)sym_choose(3, "null"); if (k == 0) SYM_ASSERT(call(w, bf::character_length, {any{}}).empty() && call(w, bf::octet_length, {any{}}).empty()); else SYM_ASSERT(call(w, bf::position, {k == 1 ? any{} : S(s), k == 2 ? any{} : S(s)}).empty()); }
HARNESS(c37_position) { world w; std::string s, t; auto cs = text(QT(3, 4), "c", s), ts_ = text(2, "t", t); if (s.size() > 8) return; auto r = call(w, bf::position, {S(t), S(s)}); if (ts_.empty()) { SYM_ASSERT(is_long(r, 1)); return; } std::int64_t f = 0; for (size_t i = 0; i + ts_.size() <= cs.size() && !f; i++) { bool m = true; for (size_t j = 0; j < ts_.size() && m; j++) m = cs[i + j].size() == ts_[j].size() && sym_eq(cs[i + j].data(), ts_[j].data(), ts_[j].size()); if (m) f = (std::int64_t)i + 1; } SYM_ASSERT(is_long(r, f)); }
HARNESS(c37_case) { world w; static const size_t N[] = {0, 1, 2, 3, 4, 18}; size_t n = N[sym_choose(QT(4, 6) + 1, "n") % 6]; if (n == 4 && QT(true, false)) n = 18; std::string s = sym_string(n == 18 ? 2 : n, "s"); int k = (int)sym_choose(4, "function"); fn f[] = {bf::upper, bf::lower, bf::rtrim, bf::ltrim}; if (sym_choose(2, "null")) { SYM_ASSERT(call(w, f[k], {any{}}).empty()); return; } if (n == 18) s = s.substr(0, 1) + std::string(16, k == 2 ? ' ' : 'q') + s.substr(1, 1); std::string want = s; auto* b = new std::string(s); any arg = A(accessor::text(b->data(), b->size())); if (k < 2) for (char& c : want) { bool in = k ? sym_and(c >= 'A', c <= 'Z') : sym_and(c >= 'a', c <= 'z'); c = (char)sym_ite(in, c ^ 0x20, c); } else if (k == 2) while (!want.empty() && want.back() == ' ') want.pop_back(); else { size_t i = 0; while (i < want.size() && want[i] == ' ') ++i; want = want.substr(i); } auto r = call(w, f[k], {arg}); SYM_ASSERT(is_text(r, want)); SYM_ASSERT(is_text(arg, s)); SYM_ASSERT(sym_eq(b->data(), s.data(), s.size())); }
HARNESS(c37_integral) { world w; bool big = sym_choose(2, "bigint"); int k = (int)sym_choose(4, "function"); if (sym_choose(2, "null")) { if (k == 1) SYM_ASSERT(call(w, bf::mod, {sym_choose(2, "first") ? any{} : I(1), any{}}).empty()); else SYM_ASSERT(call(w, k == 0 ? bf::abs : k == 2 ? bf::ceil : bf::floor, {any{}}).empty()); return; } if (k == 1) { static const std::int64_t X[] = {INT32_MIN, INT32_MAX, INT64_MIN, INT64_MAX}, K[] = {0, 1, -1, 2, -3, 10, 1000}; auto pick = [&](const char* n, int& small) { int j = (int)sym_choose(4, "extreme"); if (j >= 2) { small = 1; return j == 2 ? (std::int64_t)(std::int8_t)sym_u8(n) : n[0] == 'r' ? K[sym_choose(7, "constant")] : (std::int64_t)(std::int16_t)sym_u16(n); } small = 0; return X[(big ? 2 : 0) + j]; }; int a, b; auto l = pick("l", a), r = pick("r", b); auto q = call(w, bf::mod, big ? std::vector<any>{L(l), L(r)} : std::vector<any>{I((std::int32_t)l), I((std::int32_t)r)}); if (r == 0) { SYM_ASSERT(is_error(q, ek::arithmetic_error)); return; } std::int64_t want = r == -1 ? 0 : a && b ? (std::int64_t)((std::int32_t)l % (std::int32_t)r) : l % r; if (big) SYM_ASSERT(is_long(q, want)); else SYM_ASSERT(is_int(q, (std::int32_t)want)); return; }
    std::int64_t v = big ? (std::int64_t)sym_u64("v") : (std::int64_t)(std::int32_t)sym_u32("v"); any x = big ? L(v) : I((std::int32_t)v); auto r = call(w, k == 0 ? bf::abs : k == 2 ? bf::ceil : bf::floor, {x}); if (k == 0) { if (v == (big ? INT64_MIN : (std::int64_t)INT32_MIN)) { SYM_ASSERT(is_error(r, ek::overflow)); return; } v = sym_ite(v < 0, (std::int64_t)(0 - (std::uint64_t)v), v); } if (big) SYM_ASSERT(is_long(r, v)); else SYM_ASSERT(is_int(r, (std::int32_t)v)); }
static std::uint64_t p10(int n) { std::uint64_t r = 1; while (n-- > 0) r *= 10; return r; }
HARNESS(c37_round) { world w; bool big = sym_choose(2, "bigint"); int j = (int)sym_choose(4, "value"); std::int64_t top = big ? INT64_MAX : INT32_MAX, v; if (j == 2) v = top; else if (j == 3) v = -top - 1; else { std::uint64_t base[] = {0, (std::uint64_t)top - QT(0xfffU, 0xffffU), 9999990000ULL % (std::uint64_t)top}; v = (std::int64_t)(base[sym_choose(3, "base")] + (sym_u16("v") & QT(0xfffU, 0xffffU))); if (j) v = -v; } int how = (int)sym_choose(4, "scale"); std::vector<any> a{big ? L(v) : I((std::int32_t)v)}; std::int64_t sc = 0; if (how == 1) { a.push_back({}); SYM_ASSERT(call(w, bf::round, a).empty()); return; } if (how == 2) { sc = (std::int64_t)sym_u64("scale"); int lo = big ? -18 : -9; if (sc >= lo && sc <= 0) return; a.push_back(L(sc)); SYM_ASSERT(is_error(call(w, bf::round, a), ek::unsupported)); return; } int d = 0; if (how == 3) { static const int Q[] = {0, 1, 2, 9, 10, 17, 18}; d = QT(true, false) ? Q[sym_choose(big ? 7 : 4, "digits")] : (int)sym_choose(big ? 19 : 10, "digits"); a.push_back(d % 3 == 1 ? L(-d) : I(-d)); } auto r = call(w, bf::round, a);
    std::uint64_t m = v < 0 ? 0 - (std::uint64_t)v : (std::uint64_t)v, p = p10(d), q = m / p, rem = m - q * p; if (d && rem >= p / 2) ++q; std::uint64_t res = q * p; std::uint64_t lim = (std::uint64_t)top + (v < 0); if (res > lim) { SYM_ASSERT(is_error(r, ek::overflow)); return; } std::int64_t want = v < 0 ? (std::int64_t)(0 - res) : (std::int64_t)res; if (big) SYM_ASSERT(is_long(r, want)); else SYM_ASSERT(is_int(r, (std::int32_t)want)); }
// the decimal library on small values
using D = decimal::Decimal; static D dec_op(char o, D const& a, D const& b) { std::int64_t e = a.e_ < b.e_ ? a.e_ : b.e_; if (o == '%' && b.e_ < a.e_ && a.c_ != 0 && a.digits() + (a.e_ - b.e_) > 38) { decimal::context.add(MPD_IEEE_Invalid_operation); return D(); } if (a.e_ - e > 12 || b.e_ - e > 12) { if (o != '%' || b.c_ != 1 || b.e_ < 6) sym_stop(); return a; } auto x = (std::int64_t)(a.c_ * p10((int)(a.e_ - e))), y = (std::int64_t)(b.c_ * p10((int)(b.e_ - e))); std::int64_t r; if (o == '%') { r = (std::int64_t)((std::uint64_t)x - (std::uint64_t)x / (std::uint64_t)y * (std::uint64_t)y); return D(a.s_, (std::uint64_t)r, e); } if (a.s_) x = -x; if (b.s_) y = -y; r = o == '+' ? x + y : x - y; bool neg = r < 0; return D(neg, (std::uint64_t)sym_ite(neg, -r, r), e); }
HARNESS(c37_decimal) { world w; D::op = dec_op; static const int E[] = {-4, -2, -1, 0, 2}; int e = E[sym_choose(5, "exponent")]; bool neg = sym_choose(2, "negative"); std::uint64_t c = sym_u16("c") & QT(0x3ffU, 0xffffU); sym_assume(sym_or(c != 0, !neg)); any v = A(triple(c == 0 ? 0 : neg ? -1 : 1, 0, c, e)); int k = (int)sym_choose(4, "function"); auto value = [&](any const& r, std::int64_t want, int we) { SYM_ASSERT(r.type_index() == any::index<triple>); auto t = r.to<triple>(); int x = t.exponent(); SYM_ASSERT(x >= -8 && x <= 8); SYM_ASSERT(t.coefficient_high() == 0); auto l = (std::int64_t)(t.coefficient_low() * p10(x + 8)); if (t.sign() < 0) l = -l; SYM_ASSERT(l == want * (std::int64_t)p10(we + 8)); };
    std::int64_t sv = neg ? -(std::int64_t)c : (std::int64_t)c; if (k == 0) { value(call(w, bf::abs, {v}), (std::int64_t)c, e); return; } if (k == 1 || k == 2) { bool up = k == 1; auto r = call(w, up ? bf::ceil : bf::floor, {v}); if (e >= 0) { value(r, sv, e); return; } std::uint64_t p = p10(-e), q = c / p; bool rem = q * p != c; if (rem && up != neg) ++q; value(r, neg ? -(std::int64_t)q : (std::int64_t)q, 0); return; }
    static const int P[] = {-39, 39, 38, 37, 4, 2, 1, 0, -1, -3, -5, -38}; int s = P[sym_choose(12, "scale")]; auto r = call(w, bf::round, {v, I(s)}); if (s < -38 || s > 38) { SYM_ASSERT(is_error(r, ek::unsupported)); return; } if (-s <= e) { value(r, sv, e); return; } if (s == -38) { return; } int drop = -s - e; std::uint64_t p = p10(drop), q = c / p, rem = c - q * p; if (rem >= p / 2) ++q; std::int64_t want = neg ? -(std::int64_t)q : (std::int64_t)q; value(r, want, -s); }
namespace td = takatori::datetime;
HARNESS(c37_time) { world w; int k = (int)sym_choose(4, "function"); fn f[] = {bf::current_date, bf::localtime, bf::current_timestamp, bf::localtimestamp}; auto zone = (std::int32_t)sym_u32("zone"); sym_assume(zone >= -840); sym_assume(zone <= 840); global::test_cfg()->zone_offset(zone); int miss = (int)sym_choose(3, "missing"); transaction_context tx; if (miss) { if (miss == 1) w.ec.set_transaction(&tx); SYM_ASSERT(is_error(call(w, f[k], {}), ek::unknown)); return; } static const std::int64_t T[] = {0, 86399999999999LL, 86400000000000LL, -1, 1700000000123456789LL, -86400000000001LL}; std::int64_t n = T[sym_choose(6, "now")]; tx.st = std::chrono::system_clock::time_point(std::chrono::nanoseconds(n)); w.ec.set_transaction(&tx); auto r = call(w, f[k], {}); std::int64_t sec = n / 1000000000, ns = n % 1000000000; if (ns < 0) { ns += 1000000000; --sec; } if (k != 2) sec += (std::int64_t)zone * 60; if (k >= 2) { SYM_ASSERT(r.type_index() == any::index<td::time_point>); auto p = r.to<td::time_point>(); SYM_ASSERT(p.seconds_since_epoch().count() == sec); SYM_ASSERT(p.subsecond().count() == ns); return; } if (k == 0) { SYM_ASSERT(r.type_index() == any::index<td::date>); auto d = r.to<td::date>().days_since_epoch(); SYM_ASSERT(d * 86400 <= sec); SYM_ASSERT(sec < (d + 1) * 86400); return; } SYM_ASSERT(r.type_index() == any::index<td::time_of_day>); auto t = (std::int64_t)r.to<td::time_of_day>().time_since_epoch().count(); std::int64_t day = (n >= 0 ? n / 86400000000000LL : -((-n + 86399999999999LL) / 86400000000000LL)); std::int64_t base = n - day * 86400000000000LL + (std::int64_t)zone * 60000000000LL; base = sym_ite(base < 0, base + 86400000000000LL, base); base = sym_ite(base >= 86400000000000LL, base - 86400000000000LL, base); SYM_ASSERT(t == base); }
HARNESS(c37_base64) { world w; int k = (int)sym_choose(3, "part"); static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; any b64 = S(sym_choose(2, "upper") ? "BASE64" : "base64"); if (k == 0) { std::string s = sym_string(sym_choose(QT(5, 6), "n"), "s"); auto e = call(w, bf::encode, {oct(s), b64}); SYM_ASSERT(e.type_index() == any::index<accessor::text>); auto t = e.to<accessor::text>(); std::string_view v(t); size_t n = s.size(); SYM_ASSERT(v.size() == (n + 2) / 3 * 4); for (size_t i = 0; i < v.size(); i++) { size_t bit = i * 6, byte = bit / 8; if (byte >= n) { SYM_ASSERT(v[i] == '='); continue; } unsigned x = (unsigned char)s[byte] << 8 | (byte + 1 < n ? (unsigned char)s[byte + 1] : 0); unsigned six = x >> (10 - bit % 8) & 63; char want = (char)sym_ite(six < 26, 'A' + six, sym_ite(six < 52, 'a' + six - 26, sym_ite(six < 62, '0' + six - 52, sym_ite(six == 62, (unsigned)'+', (unsigned)'/')))); SYM_ASSERT(v[i] == want); } auto d = call(w, bf::decode, {e, b64}); SYM_ASSERT(is_oct(d, s)); return; }
    if (k == 1) { size_t n = sym_choose(6, "n"); std::string s = sym_string(n, "s"); auto d = call(w, bf::decode, {S(s), b64}); auto six = [&](unsigned char c) { return sym_or(sym_or(sym_and(c >= 'A', c <= 'Z'), sym_and(c >= 'a', c <= 'z')), sym_or(sym_and(c >= '0', c <= '9'), sym_or(c == '+', c == '/'))); }; bool ok = n % 4 == 0; if (ok && n) { bool p2 = sym_and(s[n - 1] == '=', s[n - 2] == '='), p1 = s[n - 1] == '='; for (size_t i = 0; i < n; i++) { bool g = six((unsigned char)s[i]); if (i == n - 1) g = sym_or(g, p1); if (i == n - 2) g = sym_or(g, p2); ok = sym_and(ok, g); } } if (!ok) SYM_ASSERT(is_error(d, ek::invalid_input_value)); else { SYM_ASSERT(d.type_index() == any::index<accessor::binary>); SYM_ASSERT(d.to<accessor::binary>().size() <= n / 4 * 3); } return; }
    int c = (int)sym_choose(4, "case"); auto f = sym_choose(2, "decode") ? bf::decode : bf::encode; any src = f == bf::decode ? S("QQ==") : oct("A"); if (c == 0) SYM_ASSERT(call(w, f, {any{}, b64}).empty()); else if (c == 1) SYM_ASSERT(is_error(call(w, f, {src, any{}}), ek::unsupported)); else if (c == 2) SYM_ASSERT(is_error(call(w, f, {src, I(1)}), ek::unsupported)); else { std::string e = sym_string(6, "e"); bool same = true; for (int i = 0; i < 6; i++) { char x = "base64"[i]; same = sym_and(same, sym_or(e[i] == x, sym_and(i < 4, e[i] == x - 32))); } auto r = call(w, f, {src, S(e)}); if (same) SYM_ASSERT(!r.error() && !r.empty()); else SYM_ASSERT(is_error(r, ek::unsupported)); } }
