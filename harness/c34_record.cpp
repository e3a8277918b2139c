//@property C34
//@src src/jogasaki/udf/generic_record_impl.cpp src/jogasaki/udf/error_info.cpp src/jogasaki/udf/udf_config.cpp
//@entry c34_fields quick=120 thorough=600 | every sequence of up to 2 (thorough 3) fields of the 16 kinds, null or valued (values symbolic at full width), then read with the matching calls; kind and nullity before each read
//@entry c34_mismatch quick=120 thorough=300 | two fields of every kind (null or not); the first read as every type, the second must still read exactly
//@entry c34_reset_error quick=60 thorough=200 | error set/reset/assign_from around symbolic fields; two cursors are independent
//@entry c34_stream_history quick=120 thorough=600 | every history of 4 (thorough 6) operations from {push, push with error, take, timed take, end of stream, close, move to another stream}
//@entry c34_config quick=30 thorough=60 | symbolic settings, every presence combination
#include "sym.h"
#include <deque>
#include <stdexcept>
#include <jogasaki/udf/generic_record_impl.h>
#include <jogasaki/udf/udf_config.h>
using namespace plugin::udf; using K = runtime_type_kind;
struct fld { int k; bool null; uint64_t a, b, c; bool p; std::string s; };
static fld mk(int k) { fld f{}; f.k = k; f.null = sym_choose(2, "null") != 0; if (f.null) return f; switch (k) { case 7: case 8: f.s = sym_string(2, "s"); break; case 9: f.s = sym_string(2, "s"); f.a = sym_u32("e"); break; case 14: case 15: f.p = sym_bool("p"); f.c = sym_u64("c"); [[fallthrough]]; case 12: case 13: f.b = sym_u64("b"); [[fallthrough]]; default: f.a = sym_u64("a"); if (k == 13) f.c = sym_u32("tz"); } return f; }
static void add(generic_record& r, fld const& f) {
#define A(i, nm, ...) case i: if (f.null) r.add_##nm##_null(); else r.add_##nm(__VA_ARGS__); break;
    switch (f.k) { A(0, bool, (f.a & 1) != 0) A(1, int4, (int32_t)f.a) A(2, int8, (int64_t)f.a) A(3, uint4, (uint32_t)f.a) A(4, uint8, f.a) case 5: { float x; uint32_t u = (uint32_t)f.a; memcpy(&x, &u, 4); if (f.null) r.add_float_null(); else r.add_float(x); break; } case 6: { double x; memcpy(&x, &f.a, 8); if (f.null) r.add_double_null(); else r.add_double(x); break; }
        A(7, string, f.s) A(8, bytes, bytes_value{f.s}) A(9, decimal, decimal_value{f.s, (int32_t)f.a}) A(10, date, date_value{(int32_t)f.a}) A(11, local_time, local_time_value{(int64_t)f.a}) A(12, local_datetime, local_datetime_value{(int64_t)f.a, (uint32_t)f.b}) A(13, offset_datetime, offset_datetime_value{(int64_t)f.a, (uint32_t)f.b, (int32_t)f.c}) A(14, blob_reference, blob_reference_value{f.a, f.b, f.c, f.p}) A(15, clob_reference, clob_reference_value{f.a, f.b, f.c, f.p}) }
}
// reads as kind `k`; returns presence, and checks the value when `f` is what must be delivered
static bool get(generic_record_cursor& c, int k, fld const* f) {
    auto ok = [&](bool v) { sym_assert(v, "the exact value is delivered"); };
#define G(i, nm, e) case i: { auto v = c.fetch_##nm(); if (f && v) ok(e); return v.has_value(); }
    switch (k) { G(0, bool, *v == ((f->a & 1) != 0)) G(1, int4, *v == (int32_t)f->a) G(2, int8, *v == (int64_t)f->a) G(3, uint4, *v == (uint32_t)f->a) G(4, uint8, *v == f->a) case 5: { auto v = c.fetch_float(); if (f && v) { uint32_t u; float x = *v; memcpy(&u, &x, 4); ok(u == (uint32_t)f->a); } return v.has_value(); } case 6: { auto v = c.fetch_double(); if (f && v) { uint64_t u; double x = *v; memcpy(&u, &x, 8); ok(u == f->a); } return v.has_value(); }
        G(7, string, sym_same(*v, f->s)) G(8, bytes, sym_same(v->value, f->s)) G(9, decimal, sym_and(sym_same(v->unscaled_value, f->s), v->exponent == (int32_t)f->a)) G(10, date, v->days == (int32_t)f->a) G(11, local_time, v->nanos == (int64_t)f->a) G(12, local_datetime, sym_and(v->offset_seconds == (int64_t)f->a, v->nano_adjustment == (uint32_t)f->b)) G(13, offset_datetime, sym_and(sym_and(v->offset_seconds == (int64_t)f->a, v->nano_adjustment == (uint32_t)f->b), v->time_zone_offset == (int32_t)f->c)) G(14, blob_reference, sym_and(sym_and(v->storage_id == f->a, v->object_id == f->b), sym_and(v->tag == f->c, v->provisioned == f->p))) G(15, clob_reference, sym_and(sym_and(v->storage_id == f->a, v->object_id == f->b), sym_and(v->tag == f->c, v->provisioned == f->p))) }
    return false;
}
static const K KN[16] = {K::boolean, K::int4, K::int8, K::uint4, K::uint8, K::float4, K::float8, K::string, K::bytes, K::decimal, K::date, K::local_time, K::local_datetime, K::offset_datetime, K::blob_reference, K::clob_reference};
static void past(generic_record_cursor& c) { SYM_ASSERT(!c.has_next()); SYM_ASSERT(!c.current_is_null()); for (int k = 0; k < 16; k++) sym_assert(!get(c, k, nullptr), "absent past the end"); bool t = false; try { (void)c.current_kind(); } catch (std::out_of_range const&) { t = true; } sym_assert(t, "no kind past the end"); }
static void readall(generic_record const& r, std::vector<fld> const& v) { auto c = r.cursor(); for (auto& f : v) { SYM_ASSERT(c->has_next()); sym_assert(c->current_is_null() == f.null, "nullity"); sym_assert(c->current_kind() == (f.null ? K::null_value : KN[f.k]), "kind"); sym_assert(get(*c, f.k, &f) == !f.null, "a value is delivered exactly for a non-null field"); } past(*c); }
HARNESS(c34_fields) { generic_record_impl r; size_t n = sym_size("n", 0, QT(2, 3)); std::vector<fld> v; for (size_t i = 0; i < n; i++) { v.push_back(mk((int)sym_choose(16, "k"))); add(r, v.back()); } readall(r, v); SYM_ASSERT(!r.error()); sym_observe("n", n); readall(r, v); }
HARNESS(c34_mismatch) { generic_record_impl r; fld a = mk((int)sym_choose(16, "k1")), b = mk((int)sym_choose(16, "k2")); add(r, a); add(r, b); auto c = r.cursor(); for (int w = 0; w < 16; w++) { auto d = r.cursor(); bool got = get(*d, w, nullptr); sym_assert(got == (!a.null && w == a.k), "absent when read as another type"); sym_assert(d->has_next(), "exactly one field is consumed"); sym_assert(get(*d, b.k, &b) == !b.null, "next field"); SYM_ASSERT(!d->has_next()); } }
HARNESS(c34_reset_error) {
    generic_record_impl r; std::vector<fld> v; for (size_t i = sym_size("n", 0, 2); i-- > 0;) { v.push_back(mk(sym_choose(2, "k") ? 7 : 2)); add(r, v.back()); }
    auto code = static_cast<grpc::StatusCode>(sym_u32("code")); std::string m = sym_string(sym_size("ml", 0, 2), "m"); error_info e(code, m); r.set_error(e); SYM_ASSERT(r.error().has_value()); sym_assert(r.error()->code() == code, "error code kept"); sym_assert(sym_same(r.error()->message(), m), "error message kept"); readall(r, v);
    generic_record_impl o; fld x = mk(1); add(o, x); if (sym_choose(2, "oe")) o.set_error(error_info(grpc::StatusCode::ABORTED, "zz")); o.assign_from(std::move(r)); readall(o, v); SYM_ASSERT(o.error().has_value()); sym_assert(o.error()->code() == code, "error moved"); sym_assert(sym_same(o.error()->message(), m), "message moved"); readall(r, {}); SYM_ASSERT(!r.error());
    auto c1 = o.cursor(); auto c2 = o.cursor(); if (!v.empty()) { get(*c1, v[0].k, &v[0]); SYM_ASSERT(c2->has_next()); sym_assert(get(*c2, v[0].k, &v[0]) == !v[0].null, "cursors are independent"); }
    o.reset(); readall(o, {}); SYM_ASSERT(!o.error()); add(o, x); readall(o, {x}); const auto& co = o; SYM_ASSERT(!co.error());
}
using st = generic_record_stream::status_type;
struct mdl { std::deque<std::pair<uint64_t, bool>> q; bool eos = false; };
HARNESS(c34_stream_history) {
    std::unique_ptr<generic_record_stream_impl> s[2] = {std::make_unique<generic_record_stream_impl>(), std::make_unique<generic_record_stream_impl>()}; mdl m[2]; int id = 0, taken = 0;
    for (int i = 0; i < QT(4, 6); i++) { int t = i == 0 ? 0 : (int)sym_choose(2, "which"); auto& S = *s[t]; auto& M = m[t];
        int op = (int)sym_choose(7, "op");
        switch (op) {
        case 0: case 1: { uint64_t v = sym_u64("v"); auto r = std::make_unique<generic_record_impl>(); r->add_uint8(v); if (op == 1) r->set_error(error_info(grpc::StatusCode::INTERNAL, "e")); S.push(std::move(r)); if (!M.eos) M.q.emplace_back(v, op == 1); id++; break; }
        case 2: case 3: { generic_record_impl r; r.add_bool(true); if (op == 3 && M.q.empty() && !M.eos) { SYM_ASSERT(S.next(r, std::chrono::milliseconds(2)) == st::not_ready); break; } st x = op == 2 ? S.try_next(r) : S.next(r, (i & 1) ? std::optional<std::chrono::milliseconds>(std::chrono::milliseconds(1)) : std::nullopt); st w = !M.q.empty() ? (M.q.front().second ? st::error : st::ok) : M.eos ? st::end_of_stream : st::not_ready; sym_assert(x == w, "status"); if (!M.q.empty()) { auto c = r.cursor(); auto v = c->fetch_uint8(); SYM_ASSERT(v.has_value()); sym_assert(*v == M.q.front().first, "records come in order, unchanged"); SYM_ASSERT(!c->has_next()); SYM_ASSERT(r.error().has_value() == M.q.front().second); M.q.pop_front(); taken++; } break; }
        case 4: S.end_of_stream(); M.eos = true; break;
        case 5: S.close(); M.eos = true; M.q.clear(); break;
        default: if (sym_choose(2, "assign")) { *s[t] = std::move(*s[1 - t]); } else { s[t] = std::make_unique<generic_record_stream_impl>(std::move(*s[1 - t])); } m[t] = m[1 - t]; m[1 - t].eos = true; m[1 - t].q.clear(); break; }
    }
    sym_observe("taken", taken);
}
HARNESS(c34_config) {
    udf_config d; SYM_ASSERT(d.enabled() && d.endpoint() == "dns:///localhost:50051" && d.transport() == "stream" && !d.secure() && !d.grpc_server_endpoint() && !d.timeout());
    bool en = sym_bool("en"), sec = sym_bool("sec"); std::string ep = sym_string(sym_size("e", 0, 2), "ep"), tr = sym_string(sym_size("t", 0, 2), "tr"); std::optional<std::string> g; std::optional<size_t> to; if (sym_choose(2, "g")) g = sym_string(1, "gs"); if (sym_choose(2, "to")) to = sym_u64("tov");
    udf_config c(en, ep, tr, sec, g, to); auto chk = [&](udf_config const& c) { sym_assert(c.enabled() == en && c.secure() == sec, "flags"); sym_assert(sym_same(c.endpoint(), ep), "endpoint"); sym_assert(sym_same(c.transport(), tr), "transport"); SYM_ASSERT(c.grpc_server_endpoint().has_value() == g.has_value() && c.timeout().has_value() == to.has_value()); if (g) sym_assert(sym_same(*c.grpc_server_endpoint(), *g), "server endpoint"); if (to) sym_assert(*c.timeout() == *to, "timeout"); }; chk(c); udf_config e = c; chk(e); udf_config h = std::move(e); chk(h);
    udf_config x(en, ep, tr, sec); SYM_ASSERT(!x.grpc_server_endpoint() && !x.timeout());
}
