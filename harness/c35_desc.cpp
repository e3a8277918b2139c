//@property C35
//@src src/jogasaki/udf/descriptor_impl.cpp src/jogasaki/udf/plugin_api.cpp
//@entry c35_patterns quick=120 thorough=600 | every record of up to 4 (thorough 5) columns, each plain or in one of 3 oneof groups (contiguous or interleaved)
//@entry c35_accessors quick=60 thorough=120 | symbolic indexes, kinds, versions; every presence combination of nested record / oneof / oneof name
//@entry c35_version_order quick=60 thorough=60 | symbolic 64-bit version triples (three versions)
//@entry c35_names quick=30 thorough=30 | every function and column kind, plus values outside the enumerations (symbolic)
//@entry c35_print quick=30 thorough=60 | a package with 1..2 functions, nested records, printed
#include "sym.h"
#include <iostream>
#include <sstream>
#include <jogasaki/udf/descriptor_impl.h>
using namespace plugin::udf; using col = column_descriptor_impl;
HARNESS(c35_patterns) {
    size_t n = sym_size("n", 0, QT(4, 5)); std::vector<std::unique_ptr<col>> own; std::vector<column_descriptor*> cs; std::vector<int> g;
    for (size_t i = 0; i < n; i++) { int k = (int)sym_choose(4, "group") - 1; g.push_back(k); own.push_back(std::make_unique<col>(i, "c", type_kind::int4, nullptr, k < 0 ? std::nullopt : std::optional<size_t>(k == 2 ? 9u : (unsigned)k))); cs.push_back(own.back().get()); }
    record_descriptor_impl r("rec", cs); SYM_ASSERT(r.columns() == cs); SYM_ASSERT(r.record_name() == "rec");
    // expected: the product over positions; a group stands at the position of its first member, one alternative each
    std::vector<std::vector<column_descriptor*>> want(1); bool done[3] = {};
    for (size_t i = 0; i < n; i++) { std::vector<column_descriptor*> alt; if (g[i] < 0) alt.push_back(cs[i]); else { if (done[g[i]]) continue; done[g[i]] = true; for (size_t j = i; j < n; j++) if (g[j] == g[i]) alt.push_back(cs[j]); } std::vector<std::vector<column_descriptor*>> nx; for (auto& p : want) for (auto* a : alt) { auto q = p; q.push_back(a); nx.push_back(q); } want.swap(nx); }
    auto& got = r.argument_patterns(); SYM_ASSERT(got.size() == want.size()); for (auto& w : want) { size_t c = 0; for (auto& p : got) if (p == w) c++; sym_assert(c == 1, "each combination of alternatives appears exactly once, columns in declared order"); } sym_observe("patterns", got.size());
}
HARNESS(c35_accessors) {
    uint64_t i = sym_u64("i"), oi = sym_u64("oi"); auto k = static_cast<type_kind>((int)sym_range("k", 0, 17)); bool nest = sym_choose(2, "nest"), one = sym_choose(2, "one"), onm = sym_choose(2, "onm"), p3 = sym_bool("p3"); std::string nm = sym_string(sym_size("nl", 0, 2), "nm"), on = sym_string(2, "on");
    record_descriptor_impl in("In", {}); col c(i, nm, k, nest ? &in : nullptr, one ? std::optional<size_t>(oi) : std::nullopt, onm ? std::optional<std::string_view>(on) : std::nullopt, p3);
    sym_assert(c.index() == i, "index"); sym_assert(c.type_kind() == k, "kind"); sym_assert(sym_same(c.column_name(), nm), "name"); SYM_ASSERT(c.nested() == (nest ? &in : nullptr)); SYM_ASSERT(c.has_oneof() == one); SYM_ASSERT(c.oneof_index().has_value() == one); if (one) sym_assert(*c.oneof_index() == oi, "oneof index"); SYM_ASSERT(c.oneof_name().has_value() == onm); if (onm) sym_assert(sym_same(*c.oneof_name(), on), "oneof name"); sym_assert(c.proto3_optional() == p3, "proto3 optional"); sym_assert(c.optional() == sym_and(one, p3), "optional exactly for a synthetic oneof");
    col d(0, "d", type_kind::boolean); SYM_ASSERT(!d.nested() && !d.has_oneof() && !d.oneof_name() && !d.optional() && !d.proto3_optional());
    record_descriptor_impl a("A", {&c}), b("B", {&d}); auto fk = static_cast<function_kind>((int)sym_range("fk", 0, 3)); function_descriptor_impl f(oi, nm, fk, &a, &b); sym_assert(f.function_index() == oi, "function index"); sym_assert(f.function_kind() == fk, "function kind"); sym_assert(sym_same(f.function_name(), nm), "function name"); SYM_ASSERT(&f.input_record() == &a && &f.output_record() == &b);
    function_descriptor_impl f2(1, "f2", fk, &b, &a); service_descriptor_impl s(i, on, {&f, &f2}); sym_assert(s.service_index() == i, "service index"); sym_assert(sym_same(s.service_name(), on), "service name"); SYM_ASSERT(s.functions().size() == 2 && s.functions()[0] == &f && s.functions()[1] == &f2);
    uint64_t x = sym_u64("x"), y = sym_u64("y"), z = sym_u64("z"); package_descriptor_impl p(nm, on, package_version(x, y, z), {&s}); sym_assert(sym_same(p.package_name(), nm) && sym_same(p.file_name(), on), "package and file name"); sym_assert(p.version().major() == x && p.version().minor() == y && p.version().patch() == z, "version"); SYM_ASSERT(p.services().size() == 1 && p.services()[0] == &s); sym_observe("idx", c.index());
}
HARNESS(c35_version_order) {
    uint64_t v[3][3]; for (auto& r : v) for (auto& e : r) e = sym_u64("v"); package_version a(v[0][0], v[0][1], v[0][2]), b(v[1][0], v[1][1], v[1][2]), c(v[2][0], v[2][1], v[2][2]);
    bool lt = sym_or(v[0][0] < v[1][0], sym_and(v[0][0] == v[1][0], sym_or(v[0][1] < v[1][1], sym_and(v[0][1] == v[1][1], v[0][2] < v[1][2])))), eq = sym_and(sym_and(v[0][0] == v[1][0], v[0][1] == v[1][1]), v[0][2] == v[1][2]);
    sym_assert((a < b) == lt, "lexicographic order"); sym_assert((a == b) == eq, "equal exactly when all parts are"); bool ab = a < b, ba = b < a, bc = b < c, ac = a < c; sym_assert(!(ab && ba), "asymmetric"); if (ab && bc) sym_assert(ac, "transitive"); sym_assert(ab || ba || a == b, "total"); package_version d; SYM_ASSERT(d == package_version(0, 0, 0)); sym_observe("lt", ab);
}
template <class T> static std::string pr(T v) { std::ostringstream o; o << v; return o.str(); }
HARNESS(c35_names) {
    static const std::pair<type_kind, const char*> T[] = {{type_kind::float8, "float8"}, {type_kind::float4, "float4"}, {type_kind::int8, "int8"}, {type_kind::uint8, "uint8"}, {type_kind::int4, "int4"}, {type_kind::fixed8, "fixed8"}, {type_kind::fixed4, "fixed4"}, {type_kind::boolean, "bool"}, {type_kind::string, "string"}, {type_kind::group, "group"}, {type_kind::message, "message"}, {type_kind::bytes, "bytes"}, {type_kind::uint4, "uint4"}, {type_kind::grpc_enum, "enum"}, {type_kind::sfixed4, "sfixed4"}, {type_kind::sfixed8, "sfixed8"}, {type_kind::sint4, "sint4"}, {type_kind::sint8, "sint8"}};
    static const std::pair<function_kind, const char*> F[] = {{function_kind::unary, "unary"}, {function_kind::client_streaming, "client_streaming"}, {function_kind::server_streaming, "server_streaming"}, {function_kind::bidirectional_streaming, "bidirectional_streaming"}};
    for (int i = 0; i < 18; i++) { SYM_ASSERT((int)T[i].first == i); SYM_ASSERT(pr(T[i].first) == T[i].second); } for (int i = 0; i < 4; i++) { SYM_ASSERT((int)F[i].first == i); SYM_ASSERT(pr(F[i].first) == F[i].second); }
    int w = sym_i32("w"); sym_assume(w < 0 || w > 17); SYM_ASSERT(pr(static_cast<type_kind>(w)) == "UnknownTypeKind"); SYM_ASSERT(pr(static_cast<function_kind>(w)) == "unknown_function_kind");
}
HARNESS(c35_print) {
    col leaf(0, "lf", type_kind::string); record_descriptor_impl nested("N", {&leaf}), empty("E", {}); col c(1, "cc", type_kind::message, &nested), d(2, "dd", type_kind::int8); record_descriptor_impl in("In", {&c, &d}); bool two = sym_choose(2, "two") != 0; function_descriptor_impl f(4, "fn", function_kind::unary, &in, &empty), g(5, "gn", function_kind::server_streaming, &empty, &in); std::vector<function_descriptor*> fs{&f}; if (two) fs.push_back(&g); service_descriptor_impl s(3, "sv", fs); package_descriptor_impl p("pk", "fl", {}, {&s});
    struct api_t : plugin_api { std::vector<package_descriptor*> v; std::vector<package_descriptor*> const& packages() const noexcept override { return v; } }; auto api = std::make_shared<api_t>(); api->v.push_back(&p); std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); print_plugin_info(api); std::cout.rdbuf(old); std::string t = o.str(); auto cnt = [&](const char* x) { size_t n = 0, q = 0; while ((q = t.find(x, q)) != std::string::npos) { n++; q++; } return n; };
    size_t k = two ? 2 : 1; SYM_ASSERT(cnt("package_name: pk\n") == 1 && cnt("service_name: sv\n") == 1 && cnt("service_index: 3\n") == 1); SYM_ASSERT(cnt("function_name: fn\n") == 1 && cnt("function_index: 4\n") == 1 && cnt("function_kind: unary\n") == 1); SYM_ASSERT(cnt("function_name: gn\n") == k - 1); SYM_ASSERT(cnt("record_name: In\n") == k && cnt("record_name: E\n") == k && cnt("record_name: N\n") == k); SYM_ASSERT(cnt("column_name: cc\n") == k && cnt("column_name: dd\n") == k && cnt("column_name: lf\n") == k && cnt("type_kind: message\n") == k && cnt("type_kind: int8\n") == k && cnt("type_kind: string\n") == k);
}
