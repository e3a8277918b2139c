//@property C50
//@src src/jogasaki/executor/expr/evaluator.cpp src/jogasaki/executor/expr/evaluator_context.cpp src/jogasaki/executor/expr/error.cpp src/jogasaki/executor/expr/details/cast_evaluation.cpp src/jogasaki/executor/expr/details/decimal_context.cpp src/jogasaki/executor/expr/details/decimal_context_guard.cpp src/jogasaki/executor/expr/details/cast_evaluation_temporal.cpp src/jogasaki/executor/conv/unify.cpp src/jogasaki/executor/conv/parameter_apply.cpp src/jogasaki/utils/as_any.cpp src/jogasaki/executor/process/impl/variable_table.cpp src/jogasaki/executor/process/impl/variable_table_info.cpp src/jogasaki/utils/utf8_utils.cpp src/jogasaki/executor/function/scalar_function_repository.cpp src/jogasaki/executor/function/scalar_function_info.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/accessor/record_copier.cpp src/jogasaki/error/error_info.cpp src/jogasaki/executor/expr/lob_processing.cpp src/jogasaki/accessor/text.cpp  src/jogasaki/data/aligned_buffer.cpp src/jogasaki/data/any.cpp src/jogasaki/data/small_record_store.cpp src/jogasaki/memory/details/page_allocation_info.cpp src/jogasaki/memory/lifo_paged_memory_resource.cpp src/jogasaki/memory/page_pool.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/impl/record_layout_creator.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/record_meta.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp src/jogasaki/utils/field_types.cpp src/jogasaki/utils/hex_to_octet.cpp
//@stubs
//@inc stubs_expr stubs_tbb
//@flags -Dmmap=jsym_mmap -Dmunmap=jsym_munmap
//@entry c50_logic quick=60 thorough=300 | AND, OR, NOT, IS NULL/TRUE/FALSE/UNKNOWN over true, false, NULL and failing operands (columns and literals), nested two deep
//@entry c50_compare quick=60 thorough=300 | every comparison operator over INT, BIGINT, mixed, DATE, TIME, TIMESTAMP, short texts/octets and decimals with a common exponent; NULL and failing operands
//@entry c50_arith quick=60 thorough=300 | + - * / % over INT, BIGINT and mixed operands (results that fit their type), division by zero, the least number by -1, NULL and failing operands; unary minus and plus; BIGINT multiplication of 32-bit values
//@entry c50_decimal quick=60 thorough=300 | + - * / % with a decimal operand (other operand decimal, INT or BIGINT): operands, result and status flags of the decimal library are arbitrary
//@entry c50_case quick=60 thorough=300 | CASE with 0..2 WHENs and optional ELSE, conditions true/false/NULL/failing, branches INT/BIGINT/NULL/failing; COALESCE of 1..3 of them
//@entry c50_like quick=80 thorough=400 | inputs of 0..3 characters, patterns of 0..3 characters, each one byte or multi-byte (any valid character); no escape, a one-byte or a two-byte escape character
//@entry c50_like_long quick=60 thorough=400 | patterns of 4..5 tokens among literal, one-character and any-length wildcards over inputs of 0..4 characters of one or three bytes
//@entry c50_text quick=60 thorough=200 | || and length of texts up to 20 bytes, columns and literals of every type, host variables, NULL
//@entry c50_call quick=60 thorough=200 | function calls with 0..2 arguments (converted to the parameter types, failing, NULL), large object arguments and results
#include "sym.h"
#include "expr_env.h"
#include <jogasaki/utils/assign_reference_tag.h>
#include <yugawara/function/declaration.h>
static status assign_st = status::ok; static int assigned = 0; static std::string assigned_path; static const std::uint64_t new_id = 555;
status datastore::assign_lob_id(lob::lob_reference const& r, transaction_context*, lob::lob_id_type& id, std::shared_ptr<error::error_info>& e) { ++assigned; if (assign_st != status::ok) { e = lob_error(); return assign_st; } id = new_id; return status::ok; }
static bool no_tag = false; static std::uint64_t tag_tx = 0;
std::optional<lob::lob_reference_tag_type> utils::assign_reference_tag(std::uint64_t tx, lob::lob_id_type id) { tag_tx = tx; if (no_tag) return {}; return id * 3 + tx; }
// a truth value, unknown, or an error
struct tri { int err; bool null, b; };
static bool is(any const& a, tri t) { if (t.err) return is_error(a, t.err == 1 ? ek::arithmetic_error : ek::unsupported); if (t.null) return a.empty(); return is_bool(a, t.b); }
static ts::eref leaf(world& w, tri& t) { switch (sym_choose(5, "operand")) { case 0: { bool b = sym_choose(2, "b"); t = {0, false, b}; return w.var(t_b, B(b)); } case 1: t = {0, true, false}; return w.var(t_b, {}); case 2: { bool b = sym_choose(2, "literal"); t = {0, false, b}; return imm(t_b, B(b)); } case 3: t = {1, false, false}; return failing(); default: if (sym_choose(2, "unk")) { t = {0, true, false}; return imm(t_unk, {}); } t = {2, false, false}; return failing2(); } }
static ts::eref wrap(world& w, tri& t) { auto x = leaf(w, t); auto u = [&](ts::unary_operator o) { return mk<ts::unary>(o, x, &t_b); }; using O = ts::unary_operator; int k = (int)sym_choose(6, "unary"); if (t.err) { return k ? u(k == 1 ? O::conditional_not : k == 2 ? O::is_null : k == 3 ? O::is_true : k == 4 ? O::is_false : O::is_unknown) : x; }
    switch (k) { case 0: return x; case 1: if (!t.null) t.b = !t.b; return u(O::conditional_not); case 2: t = {0, false, t.null}; return u(O::is_null); case 3: t = {0, false, !t.null && t.b}; return u(O::is_true); case 4: t = {0, false, !t.null && !t.b}; return u(O::is_false); default: t = {0, false, t.null}; return u(O::is_unknown); } }
static tri both(tri l, tri r, bool conj) { if (l.err) return l; if (r.err) return r; if (conj) { if ((!l.null && !l.b) || (!r.null && !r.b)) return {0, false, false}; if (l.null || r.null) return {0, true, false}; return {0, false, true}; } if ((!l.null && l.b) || (!r.null && r.b)) return {0, false, true}; if (l.null || r.null) return {0, true, false}; return {0, false, false}; }
HARNESS(c50_logic) { world w; tri l, r; auto x = wrap(w, l), y = wrap(w, r); bool conj = sym_choose(2, "and"); auto e = mk<ts::binary>(conj ? ts::binary_operator::conditional_and : ts::binary_operator::conditional_or, x, y, &t_b); tri t = both(l, r, conj); auto a = w.eval(*e); sym_observe("result", a.type_index()); SYM_ASSERT(is(a, t));
    if (!w.vi->meta()) return; ex::evaluator ev{*e, w.ci}; auto cp = w.res.get_checkpoint(); auto b = ex::evaluate_bool(w.ec, ev, im::variables_view{w.list, 0}, &w.res); SYM_ASSERT(t.err ? b.error() : is_bool(b, !t.null && t.b)); SYM_ASSERT(w.res.get_checkpoint() == cp); }
using co = ts::comparison_operator; static const co ops8[] = {co::equal, co::not_equal, co::less, co::less_equal, co::greater, co::greater_equal, co::is_not_distinct_from, co::is_distinct_from};
static bool by(co o, bool lt, bool eq) { switch (o) { case co::equal: case co::is_not_distinct_from: return eq; case co::not_equal: case co::is_distinct_from: return !eq; case co::less: return lt; case co::less_equal: return sym_or(lt, eq); case co::greater: return !sym_or(lt, eq); default: return !lt; } }
HARNESS(c50_compare) { world w; co o = ops8[sym_choose(8, "op")]; int kind = (int)sym_choose(9, "kind"); bool ln = false, rn = false, lt = false, eq = false; ts::eref x, y; int how = (int)sym_choose(4, "how"); if (how == 1) ln = true; if (how == 2) rn = true; if (how == 3) ln = rn = true;
    auto put = [&](tt::data const& a, any l, tt::data const& b, any r) { if (sym_choose(2, "literal") && !ln && &a != &t_dec) x = imm(a, l); else x = w.var(a, ln ? any{} : l); y = w.var(b, rn ? any{} : r); };
    auto num = [&](auto l, auto r, tt::data const& a, tt::data const& b) { lt = (std::int64_t)l < (std::int64_t)r; eq = (std::int64_t)l == (std::int64_t)r; put(a, A(l), b, A(r)); };
    auto i4 = [](const char* n) { return rec::val<K::int4>(n); }; auto i8 = [](const char* n) { return rec::val<K::int8>(n); };
    switch (kind) { case 0: num(i4("l"), i4("r"), t_i4, t_i4); break; case 1: num(i8("l"), i8("r"), t_i8, t_i8); break; case 2: num(i4("l"), i8("r"), t_i4, t_i8); break; case 3: num(i8("l"), i4("r"), t_i8, t_i4); break;
        case 4: { auto l = i4("l"), r = i4("r"); takatori::datetime::date a{l}, b{r}; lt = l < r; eq = l == r; put(t_date, A(a), t_date, A(b)); break; }
        case 5: { auto l = rec::val<K::time_of_day>("l"), r = rec::val<K::time_of_day>("r"); lt = l < r; eq = l == r; put(t_tod, A(l), t_tod, A(r)); break; }
        case 6: { auto l = rec::val<K::time_point>("l"), r = rec::val<K::time_point>("r"); lt = l < r; eq = l == r; put(t_tp, A(l), t_tp, A(r)); break; }
        case 7: { auto l = sym_string(sym_choose(3, "ll"), "l"), r = sym_string(sym_choose(3, "rl"), "r"); eq = l.size() == r.size(); lt = l.size() < r.size(); for (size_t i = std::min(l.size(), r.size()); i-- > 0;) { unsigned char c = l[i], d = r[i]; lt = sym_or(c < d, sym_and(c == d, lt)); eq = sym_and(eq, c == d); } if (sym_choose(2, "octet")) { auto* a = new std::string(l); auto* b = new std::string(r); put(t_oc, A(accessor::binary(a->data(), a->size())), t_oc, A(accessor::binary(b->data(), b->size()))); } else put(t_ch, S(l), t_ch, S(r)); break; }
        default: { std::int32_t e = -(int)sym_choose(2, "scale"); std::int64_t l = (std::int16_t)sym_u16("l"), r = (std::int16_t)sym_u16("r"); if (sym_choose(2, "mixed")) { auto n = (std::int32_t)(std::int16_t)sym_u16("i"); lt = e ? (std::int64_t)n * 10 < r : n < r; eq = e ? (std::int64_t)n * 10 == r : n == r; put(t_i4, I(n), t_dec, A(triple(r, e))); } else { lt = l < r; eq = l == r; put(t_dec, A(triple(l, e)), t_dec, A(triple(r, e))); } } }
    int bad = (int)sym_choose(3, "failing"); if (bad == 1) x = failing(); if (bad == 2) y = failing2(); auto e = mk<ts::compare>(o, x, y, &t_b); auto a = w.eval(*e); sym_observe("index", a.type_index());
    if (bad) { SYM_ASSERT(is_error(a, bad == 1 ? ek::arithmetic_error : ek::unsupported)); return; }
    if (ln || rn) { if (o == co::is_not_distinct_from) SYM_ASSERT(is_bool(a, ln && rn)); else if (o == co::is_distinct_from) SYM_ASSERT(is_bool(a, ln != rn)); else SYM_ASSERT(a.empty()); return; }
    SYM_ASSERT(is_bool(a, by(o, lt, eq))); }

// arithmetic
using bo = ts::binary_operator; static const bo ops5[] = {bo::add, bo::subtract, bo::multiply, bo::divide, bo::remainder};
HARNESS(c50_arith) { world w; bo o = ops5[sym_choose(5, "op")]; int how = (int)sym_choose(8, "how"); ts::eref x, y;
    if (how == 4) { x = failing(); y = failing2(); auto a = w.eval(*mk<ts::binary>(o, x, y, &t_i4)); SYM_ASSERT(is_error(a, ek::arithmetic_error)); return; }
    if (how == 5) { x = w.var(t_i4, {}); y = failing2(); auto a = w.eval(*mk<ts::binary>(o, x, y, &t_i4)); SYM_ASSERT(is_error(a, ek::unsupported)); return; }
    if (how == 6) { bool z = sym_choose(2, "null"), q = sym_choose(2, "wide"); auto v = rec::val<K::int4>("v"); auto u = rec::val<K::int8>("u"); sym_assume(v != INT32_MIN); sym_assume(u != INT64_MIN); x = q ? w.var(t_i8, z ? any{} : L(u)) : w.var(t_i4, z ? any{} : I(v)); bool plus = sym_choose(2, "plus"); auto a = w.eval(*mk<ts::unary>(plus ? ts::unary_operator::plus : ts::unary_operator::sign_inversion, x, q ? (tt::data const*)&t_i8 : &t_i4)); if (z) SYM_ASSERT(a.empty()); else if (q) SYM_ASSERT(is_long(a, plus ? u : -u)); else SYM_ASSERT(is_int(a, plus ? v : -v)); return; }
    if (how == 7) { bool f = sym_choose(2, "sub"), nl = sym_choose(2, "l"), nr = !nl || sym_choose(2, "r"); x = w.var(t_i4, nl ? any{} : I(0)); y = f ? imm(t_unk, {}) : w.var(t_i4, nr ? any{} : I(0)); auto a = w.eval(*mk<ts::binary>(o, x, y, &t_i4)); SYM_ASSERT(a.empty()); return; }
    auto wide = [&](std::int64_t l, std::int64_t r, bool i64) { __int128 v = 0; bool zero = false, ovf = false; switch (o) { case bo::add: v = (__int128)l + r; break; case bo::subtract: v = (__int128)l - r; break; case bo::multiply: if (i64) { sym_assume((std::int32_t)l == l); sym_assume((std::int32_t)r == r); } v = (__int128)(l * r); break; default: zero = r == 0; ovf = sym_and(r == -1, l == (i64 ? INT64_MIN : (std::int64_t)INT32_MIN)); }
        if (o == bo::divide || o == bo::remainder) { auto a = w.eval(*mk<ts::binary>(o, x, y, &t_i8)); if (zero) { SYM_ASSERT(is_error(a, ek::arithmetic_error)); SYM_ASSERT(w.ec.errors().size() == 1); return; } if (ovf) { if (o == bo::divide) SYM_ASSERT(is_error(a, ek::arithmetic_error)); else SYM_ASSERT(i64 ? is_long(a, 0) : is_int(a, 0)); return; } if (i64) SYM_ASSERT(is_long(a, o == bo::divide ? l / r : l % r)); else SYM_ASSERT(is_int(a, o == bo::divide ? (std::int32_t)l / (std::int32_t)r : (std::int32_t)l % (std::int32_t)r)); return; }
        if (i64) { sym_assume(v >= INT64_MIN); sym_assume(v <= INT64_MAX); } else { sym_assume(v >= INT32_MIN); sym_assume(v <= INT32_MAX); } auto a = w.eval(*mk<ts::binary>(o, x, y, &t_i8)); if (i64) SYM_ASSERT(is_long(a, (std::int64_t)v)); else SYM_ASSERT(is_int(a, (std::int32_t)v)); };
    auto l4 = rec::val<K::int4>("l"), r4 = rec::val<K::int4>("r"); auto l8 = rec::val<K::int8>("l8"), r8 = rec::val<K::int8>("r8"); bool lit = sym_choose(2, "literal");
    auto lhs = [&](bool q) { x = q ? (lit ? imm(t_i8, L(l8)) : w.var(t_i8, L(l8))) : (lit ? imm(t_i4, I(l4)) : w.var(t_i4, I(l4))); }; auto rhs = [&](bool q) { y = q ? w.var(t_i8, L(r8)) : w.var(t_i4, I(r4)); };
    switch (how) { case 0: lhs(false); rhs(false); wide(l4, r4, false); break; case 1: lhs(true); rhs(true); wide(l8, r8, true); break; case 2: lhs(false); rhs(true); wide(l4, r8, true); break; default: lhs(true); rhs(false); wide(l8, r4, true); } }
// decimals: the library's result and status are arbitrary
HARNESS(c50_decimal) { world w; int k = (int)sym_choose(5, "op"); static const char sg[] = "+-*/%"; triple l((std::int64_t)sym_u32("l"), -2), r((std::int64_t)sym_u32("r"), -1), out((std::int64_t)sym_u32("out"), -3); std::uint32_t st = (std::uint32_t)(sym_u8("status") & 31); auto n4 = rec::val<K::int4>("n4"); auto n8 = rec::val<K::int8>("n8"); sym_assume(n8 != INT64_MIN); int lt = (int)sym_choose(3, "lt"), rt = lt ? 0 : (int)sym_choose(3, "rt");
    auto opnd = [&](int t, triple d) { return t == 0 ? w.var(t_dec, A(d)) : t == 1 ? w.var(t_i4, I(n4)) : w.var(t_i8, L(n8)); }; auto x = opnd(lt, l), y = opnd(rt, r); int calls = 0; decimal::context.add(31);
    decimal::Decimal::op = [&](char c, decimal::Decimal const& a, decimal::Decimal const& b) { ++calls; SYM_ASSERT(c == sg[k]); SYM_ASSERT(decimal::context.status() == 0); auto same = [](decimal::Decimal const& d, int t, triple e, std::int64_t n) { bool neg = n < 0; std::uint64_t m = sym_ite(neg, 0 - (std::uint64_t)n, (std::uint64_t)n); return t == 0 ? sym_and(d.c_ == e.coefficient_low(), d.e_ == e.exponent()) : sym_and(d.c_ == m, sym_and((d.s_ != 0) == neg, d.e_ == 0)); }; SYM_ASSERT(same(a, lt, l, lt == 1 ? n4 : n8)); SYM_ASSERT(same(b, rt, r, rt == 1 ? n4 : n8)); decimal::context.add(st); return decimal::Decimal(out); };
    auto a = w.eval(*mk<ts::binary>(ops5[k], x, y, &t_dec)); decimal::Decimal::op = nullptr; SYM_ASSERT(calls == 1); bool bad = (st & (MPD_IEEE_Invalid_operation | MPD_Overflow | MPD_Division_by_zero)) != 0; if (bad) { SYM_ASSERT(is_error(a, ek::arithmetic_error)); SYM_ASSERT(w.ec.errors().size() == 1 && w.ec.errors()[0].code() == ek::arithmetic_error); } else { SYM_ASSERT(a.type_index() == any::index<triple>); SYM_ASSERT(a.to<triple>() == out); } }
// CASE and COALESCE with the result type BIGINT
struct opt { int err; bool null; std::int64_t v; };
static ts::eref branch(world& w, opt& t, bool wide_ok = true) { switch (sym_choose(5, "branch")) { case 0: { auto v = rec::val<K::int4>("b4"); t = {0, false, v}; return w.var(t_i4, I(v)); } case 1: { auto v = rec::val<K::int8>("b8"); t = {0, false, v}; return w.var(t_i8, L(v)); } case 2: t = {0, true, 0}; if (sym_choose(2, "typed")) return w.var(t_i4, {}); return imm(t_unk, {}); case 3: t = {1, false, 0}; return failing(); default: { t = {1, false, 0}; return mk<ts::cast>(t_i8, ts::cast_loss_policy::error, failing()); } } }
static bool is(any const& a, opt t) { if (t.err) return is_error(a, ek::arithmetic_error); if (t.null) return a.empty(); return is_long(a, t.v); }
HARNESS(c50_case) { world w; if (sym_choose(2, "coalesce")) { size_t n = 1 + sym_choose(3, "n"); std::vector<ts::eref> x; opt want{0, true, 0}; bool done = false; for (size_t i = 0; i < n; i++) { opt t; x.push_back(branch(w, t)); if (!done && (t.err || !t.null)) { want = t; done = true; } } auto a = w.eval(*mk<ts::coalesce>(x, &t_i8)); sym_observe("i", a.type_index()); SYM_ASSERT(is(a, want)); return; }
    size_t n = sym_choose(3, "whens"); std::vector<ts::conditional::alternative> alt; opt want{0, true, 0}; bool done = false; for (size_t i = 0; i < n; i++) { tri c; opt b; auto x = leaf(w, c); auto y = branch(w, b); alt.push_back({x, y}); if (done) continue; if (c.err) { auto a0 = c.err; want = {a0 + 1, false, 0}; done = true; } else if (!c.null && c.b) { want = b; done = true; } } ts::eref d; if (sym_choose(2, "else")) { opt b; d = branch(w, b); if (!done) want = b; }
    auto a = w.eval(*mk<ts::conditional>(alt, d, &t_i8)); sym_observe("i", a.type_index()); if (want.err == 3) SYM_ASSERT(is_error(a, ek::unsupported)); else SYM_ASSERT(is(a, want.err == 2 ? opt{1, false, 0} : want)); }
// LIKE
using chr = std::string; struct tok { int k; chr c; }; // 0 literal, 1 one, 2 any
static chr ch(int n, const char* nm) { chr s = sym_string(n, nm); auto b = [&](int i) { return (unsigned char)s[i]; }; if (n == 1) sym_assume(b(0) < 0x80); if (n == 2) { sym_assume(b(0) >= 0xc2 && b(0) <= 0xdf); sym_assume(b(1) >= 0x80 && b(1) < 0xc0); } if (n == 3) { sym_assume(b(0) >= 0xe1 && b(0) <= 0xec); sym_assume(b(1) >= 0x80 && b(1) < 0xc0); sym_assume(b(2) >= 0x80 && b(2) < 0xc0); } return s; }
static bool matches(std::vector<chr> const& in, std::vector<tok> const& p) { size_t n = in.size(), m = p.size(); std::vector<bool> d(n + 1, false); std::unique_ptr<bool[]> a(new bool[n + 1]), b(new bool[n + 1]); for (size_t i = 0; i <= n; i++) a[i] = i == n; for (size_t j = m; j-- > 0;) { for (size_t i = n + 1; i-- > 0;) { if (p[j].k == 2) b[i] = i < n ? sym_or(a[i], b[i + 1]) : a[i]; else if (i >= n) b[i] = false; else if (p[j].k == 1) b[i] = a[i + 1]; else b[i] = in[i].size() == p[j].c.size() ? sym_and(a[i + 1], sym_eq(in[i].data(), p[j].c.data(), in[i].size())) : false; } std::swap(a, b); } return a[0]; }
static std::string cat(std::vector<chr> const& v) { std::string s; for (auto& c : v) s += c; return s; }
static void like(world& w, std::vector<chr> const& in, std::vector<chr> const& pat, chr const& esc) { std::vector<tok> p; bool bad = false; for (size_t i = 0; i < pat.size(); i++) { auto& c = pat[i]; bool e = !esc.empty() && c.size() == esc.size() && sym_eq(c.data(), esc.data(), esc.size()); if (e) { if (i + 1 == pat.size()) { bad = true; break; } p.push_back({0, pat[++i]}); } else if (c.size() == 1 && c[0] == '%') p.push_back({2, ""}); else if (c.size() == 1 && c[0] == '_') p.push_back({1, ""}); else p.push_back({0, c}); }
    auto a = w.eval(*mk<ts::match>(ts::match::operator_kind_type::like, w.var(t_ch, S(cat(in))), w.var(t_ch, S(cat(pat))), imm(t_ch, S(esc)), &t_b)); sym_observe("i", a.type_index()); if (bad) SYM_ASSERT(is_error(a, ek::invalid_input_value)); else SYM_ASSERT(is_bool(a, matches(in, p))); }
HARNESS(c50_like) { world w; std::vector<chr> in, pat; size_t n = sym_choose(QT(3, 4), "n"), m = sym_choose(4, "m"); int multi = 2 + (int)sym_choose(2, "multi"); for (size_t i = 0; i < n; i++) in.push_back(ch(sym_choose(2, "w") ? multi : 1, "in")); for (size_t i = 0; i < m; i++) pat.push_back(ch(sym_choose(2, "w") ? multi : 1, "pat")); static const char* E[] = {"", "\\", "\xc3\xa9"}; like(w, in, pat, E[sym_choose(3, "escape")]); }
HARNESS(c50_like_long) { world w; std::vector<chr> in, pat; size_t n = sym_choose(QT(4, 5), "n"), m = 3 + sym_choose(QT(2, 3), "m"); for (size_t i = 0; i < n; i++) in.push_back(sym_choose(2, "w") ? chr("\xe3\x81\x82") : ch(1, "in")); for (size_t i = 0; i < m; i++) { switch (sym_choose(4, "t")) { case 0: pat.push_back("%"); break; case 1: pat.push_back("_"); break; case 2: pat.push_back("b"); break; default: pat.push_back("\xe3\x81\x82"); } } like(w, in, pat, ""); }

// texts, columns, literals, host variables
HARNESS(c50_text) { world w; int k = (int)sym_choose(4, "part");
    if (k == 0) { static const size_t N[] = {0, 3, 15, 20}; size_t n = N[sym_choose(4, "n")], m = N[sym_choose(4, "m")]; auto l = sym_string(n, "l"), r = sym_string(m, "r"); int nl = (int)sym_choose(3, "null"); auto a = w.eval(*mk<ts::binary>(bo::concat, w.var(t_ch, nl == 1 ? any{} : S(l)), w.var(t_ch, nl == 2 ? any{} : S(r)), &t_ch)); if (nl) SYM_ASSERT(a.empty()); else SYM_ASSERT(is_text(a, l + r)); return; }
    if (k == 1) { size_t n = sym_choose(4, "n") * 6; auto l = sym_string(n, "l"); bool nl = sym_choose(2, "null"); auto a = w.eval(*mk<ts::unary>(ts::unary_operator::length, w.var(t_ch, nl ? any{} : S(l)), &t_i4)); if (nl) SYM_ASSERT(a.empty()); else SYM_ASSERT(is_int(a, (std::int32_t)n)); return; }
    int t = (int)sym_choose(9, "type"); any v; tt::data const* ty{}; switch (t) { case 0: ty = &t_i4; v = I(rec::val<K::int4>("v")); break; case 1: ty = &t_i8; v = L(rec::val<K::int8>("v")); break; case 2: ty = &t_date; v = A(rec::val<K::date>("v")); break; case 3: ty = &t_tod; v = A(rec::val<K::time_of_day>("v")); break; case 4: ty = &t_tp; v = A(rec::val<K::time_point>("v")); break; case 5: ty = &t_dec; v = A(triple((std::int64_t)sym_u32("v"), -2)); break; case 6: ty = &t_ch; v = S(sym_string(sym_choose(2, "long") ? 20 : 2, "v")); break; case 7: { ty = &t_oc; auto* b = new std::string(sym_string(sym_choose(2, "long") ? 20 : 2, "v")); v = A(accessor::binary(b->data(), b->size())); break; } default: ty = &t_b; v = B(sym_choose(2, "v")); }
    bool nl = sym_choose(2, "null"); any want = nl ? any{} : v; auto equal = [&](any const& a) { if (want.empty()) { SYM_ASSERT(a.empty()); return; } SYM_ASSERT(a.type_index() == want.type_index()); if (t == 7) { auto x = a.to<accessor::binary>(), y = want.to<accessor::binary>(); std::string_view p(x), q(y); SYM_ASSERT(p.size() == q.size() && sym_eq(p.data(), q.data(), p.size())); } else if (t == 6) { auto wt = want.to<accessor::text>(); SYM_ASSERT(is_text(a, std::string_view(wt))); } else SYM_ASSERT(a == want); };
    if (k == 2) { auto x = sym_choose(2, "literal") ? imm(*ty, want) : (w.var(t_i4, I(5)), w.var(*ty, want)); w.var(t_i8, L(6)); equal(w.eval(*x)); return; }
    // a host variable; a column of the same name hides it
    world h; auto x = h.var(*ty, want); h.freeze(); bool hidden = sym_choose(2, "hidden"); if (hidden) { w.var(*ty, want); h.list[0].store().ref().set_null(h.m->nullity_offset(0), !nl); } else { auto y = w.var(t_i4, I(1)); static_cast<ts::variable_reference&>(*x).v = {777}; }
    w.freeze(); if (!hidden) { im::variable_table_info::variable_indices ix; ix[{777}] = 0; h.vi = std::make_unique<im::variable_table_info>(ix, h.m, im::region_id{0}); im::variable_table q(*h.vi); auto r = q.store().ref(), o = h.list[0].store().ref(); std::memcpy(r.data(), o.data(), r.size()); h.list.clear(); h.list.push_back(std::move(q)); }
    ex::evaluator ev{*x, w.ci, &h.list[0]}; bool none = !hidden && sym_choose(2, "no row"); equal(ev(w.ec, none ? im::variables_view{} : im::variables_view{w.list, 0}, &w.res)); }
// functions
struct fake_session : data_relay_grpc::common::blob_session { bool have = true; std::uint64_t compute_tag(std::uint64_t id) override { return id * 5 + 1; } bool has(std::uint64_t) override { return have; } };
using prov = lob::lob_data_provider;
HARNESS(c50_call) { world w; yugawara::function::declaration d; d.id = 3; size_t n = sym_choose(3, "args"); std::vector<ts::eref> x; std::vector<any> want; ek err{}; bool failed = false; bool mock = sym_choose(2, "mock"); no_tag = !mock && sym_choose(2, "notag"); tag_tx = 0; global::test_cfg()->udf_pass_mock_tag(mock); assigned = 0; assign_st = status::ok; w.ec.set_transaction(&w.tx);
    for (size_t i = 0; i < n; i++) { int k = (int)sym_choose(6, "arg"); any v; d.args.emplace_back(t_i8); if (failed) k = 0; switch (k) { case 0: { auto q = rec::val<K::int4>("a"); x.push_back(w.var(t_i4, I(q))); v = L(q); break; } case 1: { auto q = rec::val<K::int8>("a"); x.push_back(w.var(t_i8, L(q))); v = L(q); break; } case 2: x.push_back(w.var(t_i4, {})); break; case 3: x.push_back(failing()); failed = true; err = ek::arithmetic_error; break;
        default: { auto id = sym_u64("id"); bool c = k == 5; d.args.back() = c ? (tt::data const&)t_clob : t_blob; any a = c ? A(lob::clob_reference(id, prov::datastore)) : A(lob::blob_reference(id, prov::datastore)); x.push_back(w.var(c ? (tt::data const&)t_clob : t_blob, a)); if (!mock && no_tag) { failed = true; err = ek::unknown; } v = a; } } want.push_back(v); }
    int out = (int)sym_choose(n == 2 || failed ? 2 : 4, "result"); auto rid = sym_u64("rid"), rtag = sym_u64("rtag"); bool tagged = out < 2 || sym_choose(2, "tagged"), relay = out >= 2 && sym_choose(2, "relay"), clob = out == 3; fake_session fs; if (relay) fs.have = sym_choose(2, "have"); relay::blob_session_container box; box.s = &fs; if (out >= 2 && sym_choose(2, "no session")) box.s = nullptr; w.ec.blob_session(&box); if (relay && sym_choose(2, "assign fails")) assign_st = status::err_io_error;
    int calls = 0; any res = out == 0 ? L(sym_u64("res")) : any{}; if (out >= 2) { auto p = relay ? prov::relay_service_session : prov::datastore; if (clob) { lob::clob_reference r(rid, p); if (tagged) r.reference_tag(rtag); res = A(r); } else { lob::blob_reference r(rid, p); if (tagged) r.reference_tag(rtag); res = A(r); } }
    repo_.clear(); repo_.add(3, std::make_shared<executor::function::scalar_function_info>(executor::function::scalar_function_kind::user_defined, [&](ex::evaluator_context& c, takatori::util::sequence_view<any> a) { ++calls; SYM_ASSERT(&c == &w.ec); SYM_ASSERT(a.size() == n); for (size_t i = 0; i < n; i++) { SYM_ASSERT(a[i].type_index() == want[i].type_index()); auto tag = [&](lob::lob_reference const& g, lob::lob_reference const& e) { SYM_ASSERT(g.object_id() == e.object_id() && g.provider() == e.provider()); SYM_ASSERT(g.reference_tag().has_value()); SYM_ASSERT(*g.reference_tag() == (mock ? ~0ULL : e.object_id() * 3 + 7)); }; if (a[i].type_index() == any::index<lob::blob_reference>) tag(a[i].to<lob::blob_reference>(), want[i].to<lob::blob_reference>()); else if (a[i].type_index() == any::index<lob::clob_reference>) tag(a[i].to<lob::clob_reference>(), want[i].to<lob::clob_reference>()); else SYM_ASSERT(a[i] == want[i]); } return res; }, n));
    auto a = w.eval(*mk<ts::function_call>(d, x, &t_i8)); sym_observe("i", a.type_index()); if (failed) { SYM_ASSERT(is_error(a, err)); SYM_ASSERT(calls == 0); return; } SYM_ASSERT(calls == 1); if (out < 2) { SYM_ASSERT(a == res || (a.empty() && res.empty())); return; }
    if (!box.s) { SYM_ASSERT(is_error(a, ek::unknown)); return; } bool authentic = tagged && (relay || !no_tag); if (authentic) authentic = rtag == (relay ? rid * 5 + 1 : rid * 3 + 7); if (!authentic) { SYM_ASSERT(is_error(a, ek::error_info_provided)); SYM_ASSERT(w.ec.get_error_info() && w.ec.get_error_info()->code() == error_code::permission_error); SYM_ASSERT(assigned == 0); return; }
    if (relay && !fs.have) { SYM_ASSERT(is_error(a, ek::unknown)); return; } if (relay && assign_st != status::ok) { SYM_ASSERT(is_error(a, ek::error_info_provided)); return; } SYM_ASSERT(assigned == (relay ? 1 : 0)); std::uint64_t eid = relay ? new_id : rid; if (clob) { SYM_ASSERT(a.type_index() == any::index<lob::clob_reference>); auto r = a.to<lob::clob_reference>(); SYM_ASSERT(r.object_id() == eid && r.provider() == prov::datastore); } else { SYM_ASSERT(a.type_index() == any::index<lob::blob_reference>); auto r = a.to<lob::blob_reference>(); SYM_ASSERT(r.object_id() == eid && r.provider() == prov::datastore); } }
