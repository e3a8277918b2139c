//@property C05
//@src src/jogasaki/kvs/coder.cpp src/jogasaki/kvs/writable_stream.cpp src/jogasaki/kvs/readable_stream.cpp src/jogasaki/utils/coder.cpp src/jogasaki/utils/decimal.cpp src/jogasaki/data/any.cpp src/jogasaki/data/aligned_buffer.cpp src/jogasaki/accessor/text.cpp src/jogasaki/accessor/const_record_ref.cpp src/jogasaki/accessor/record_ref.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp
//@stubs
//@entry c05_kvs_fixed quick=60 thorough=120 | every fixed-size type: every byte string of 0..13 bytes, key ascending, descending, value; decode to a value or a record, or skip; nullable and not
//@entry c05_kvs_text quick=60 thorough=200 | character strings: every byte string of 0..7 bytes (thorough 0..10)
//@entry c05_kvs_octet quick=60 thorough=200 | octet strings: fixed lengths 0..5 and varying, every byte string of 0..8 bytes (thorough 0..12)
//@entry c05_kvs_decimal quick=60 thorough=200 | precisions 1, 5, 18, 38, 39 against every byte string of 0..17 bytes
//@entry c05_kvs_sequence quick=60 thorough=200 | three fields (text, nullable int4, octet) decoded one after the other from every byte string of 0..10 bytes (thorough 0..14)
#include "sym.h"
#include <jogasaki/kvs/readable_stream.h>
#include "kvs_env.h"
#include "mem_res.h"
using namespace jogasaki; using K = meta::field_type_kind; using data::any; using meta::field_type; using meta::field_enum_tag;
static kvs::coding_spec spec(size_t k) { return k == 0 ? kvs::spec_key_ascending : k == 1 ? kvs::spec_key_descending : kvs::spec_value; }
// decodes one field from the stream; true when a value came out
static bool one(kvs::readable_stream& r, size_t cap, field_type const& ft, bool nullable, kvs::coding_spec sp, exact_resource& res, any& out) {
    kvs::coding_context ctx{}; size_t before = r.size(); status st{}; bool thr = false; size_t how = sym_choose(3, "how"); alignas(16) char b[80] = {}; accessor::record_ref rr(b, 80);
    try { if (how == 0) st = nullable ? kvs::decode_nullable(r, ft, sp, ctx, out, &res) : kvs::decode(r, ft, sp, ctx, out, &res); else if (how == 1) st = nullable ? kvs::decode_nullable(r, ft, sp, ctx, rr, 16, 10, &res) : kvs::decode(r, ft, sp, ctx, rr, 16, &res); else st = nullable ? kvs::consume_stream_nullable(r, ft, sp, ctx) : kvs::consume_stream(r, ft, sp, ctx); } catch (...) { thr = true; }
    SYM_ASSERT(!thr); SYM_ASSERT(st == status::ok || st == status::err_data_corruption); SYM_ASSERT(r.size() >= before && r.size() <= cap); if (st == status::ok) SYM_ASSERT(r.rest().size() == cap - r.size()); return st == status::ok && how == 0;
}
static void any_bytes(field_type const& ft, size_t mx, int specs = 3, size_t width = 0) {
    size_t n = sym_size("n", 0, mx); sym_buf b(n, "b"); bool nullable = sym_choose(2, "nullable"); auto sp = spec(sym_choose(specs, "spec")); kvs::readable_stream r(b.p, n); exact_resource res; any out; bool ok = one(r, n, ft, nullable, sp, res, out); sym_observe("pos", r.size()); if (ok && !nullable) SYM_ASSERT(!out.empty());
    if (width && !nullable) SYM_ASSERT(r.size() == (n >= width ? width : 0) || n < width);
}
HARNESS(c05_kvs_fixed) {
    size_t k = sym_choose(9, "kind"); if (k == 0) any_bytes(field_type{field_enum_tag<K::boolean>}, 3, 3, 1); if (k == 1) any_bytes(field_type{field_enum_tag<K::int4>}, 6, 3, 4); if (k == 2) any_bytes(field_type{field_enum_tag<K::int8>}, 10, 3, 8); if (k == 3) any_bytes(field_type{field_enum_tag<K::float4>}, 6, 3, 4); if (k == 4) any_bytes(field_type{field_enum_tag<K::float8>}, 10, 3, 8);
    if (k == 5) any_bytes(field_type{field_enum_tag<K::date>}, 10, 3, 8); if (k == 6) any_bytes(field_type{std::make_shared<meta::time_of_day_field_option>()}, 10, 3, 8); if (k == 7) any_bytes(field_type{std::make_shared<meta::time_point_field_option>()}, 13, 3, 12); if (k == 8) any_bytes(field_type{field_enum_tag<K::blob>}, 10, 3, 8);
}
HARNESS(c05_kvs_text) { any_bytes(field_type{std::make_shared<meta::character_field_option>(true, std::nullopt)}, QT(7, 10)); }
HARNESS(c05_kvs_octet) { if (sym_choose(2, "varying")) any_bytes(field_type{std::make_shared<meta::octet_field_option>(true, std::nullopt)}, QT(8, 12)); else { size_t w = sym_size("w", 0, 5); any_bytes(field_type{std::make_shared<meta::octet_field_option>(false, w)}, 6, 3, w); } }
HARNESS(c05_kvs_decimal) { static const int P[] = {1, 5, 18, 38, 39}; int p = P[sym_choose(5, "prec")]; static const size_t N[] = {0, 1, 2, 3, 7, 8, 15, 16, 17}; size_t n = N[sym_choose(9, "n")]; sym_buf b(n, "b"); bool nullable = sym_choose(2, "nullable"); auto sp = spec(sym_choose(3, "spec")); kvs::readable_stream r(b.p, n); exact_resource res; any out; one(r, n, field_type{std::make_shared<meta::decimal_field_option>((size_t)p, (size_t)0)}, nullable, sp, res, out); sym_observe("pos", r.size()); }
HARNESS(c05_kvs_sequence) {
    size_t n = sym_size("n", 0, QT(10, 14)); sym_buf b(n, "b"); auto sp = spec(sym_choose(2, "spec")); kvs::readable_stream r(b.p, n); exact_resource res; any o; kvs::coding_context ctx{}; field_type t[3] = {field_type{std::make_shared<meta::character_field_option>(true, std::nullopt)}, field_type{field_enum_tag<K::int4>}, field_type{std::make_shared<meta::octet_field_option>(true, std::nullopt)}};
    for (int i = 0; i < 3; i++) { size_t before = r.size(); bool thr = false; status st{}; try { st = i == 1 ? kvs::decode_nullable(r, t[i], sp, ctx, o, &res) : kvs::decode(r, t[i], sp, ctx, o, &res); } catch (...) { thr = true; } SYM_ASSERT(!thr); SYM_ASSERT(r.size() >= before && r.size() <= n); if (st != status::ok) { SYM_ASSERT(st == status::err_data_corruption); return; } if (i != 1 && !o.empty()) { size_t len = 0; if (i == 0) { auto x = o.to<accessor::text>(); len = std::string_view(x).size(); } else { auto x = o.to<accessor::binary>(); len = std::string_view(x).size(); } SYM_ASSERT(len <= n); SYM_ASSERT(r.size() == before + len + 4); } }
    sym_observe("pos", r.size());
}
