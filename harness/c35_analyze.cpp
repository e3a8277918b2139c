//@property C35
//@src src/jogasaki/udf/descriptor/descriptor_analyzer.cpp src/jogasaki/udf/descriptor/descriptor_reader.cpp src/jogasaki/udf/descriptor/validation/message_duplicate_validator.cpp src/jogasaki/udf/descriptor/validation/rpc_duplicate_validator.cpp
//@proto google/protobuf/descriptor.proto
//@entry c35_reader quick=60 thorough=120 | file missing, undecodable or valid (symbolic one-byte contents)
//@entry c35_analyze_messages quick=120 thorough=400 | two descriptor files, packages/messages/nested messages/fields enumerated from small name sets, missing and undecodable files included
//@entry c35_analyze_rpcs quick=120 thorough=400 | up to 3 methods over 2 services and 2 files; request/response type names with or without the leading dot
//@entry c35_dup_rpc quick=60 thorough=300 | up to 3 (thorough 4) methods with symbolic one-character names
//@entry c35_dup_message quick=60 thorough=200 | up to 3 messages defined by 0..2 files and referred to by 0..2
#include "symfile.h"
#include <google/protobuf/descriptor.pb.h>
#include <jogasaki/udf/descriptor/descriptor_analyzer.h>
#include <jogasaki/udf/descriptor/descriptor_reader.h>
#include <jogasaki/udf/descriptor/validation/message_duplicate_validator.h>
#include <jogasaki/udf/descriptor/validation/rpc_duplicate_validator.h>
using namespace jogasaki::udf::descriptor; using namespace jogasaki::udf::descriptor::validation; namespace pb = google::protobuf; using rs = plugin::udf::descriptor_read_status;
// the wire decoder is replaced: byte 0 selects a prepared descriptor set, anything above 9 does not decode
static pb::FileDescriptorSet* SETS[10];
static bool decode(pb::FileDescriptorSet& m, std::istream& in) { int c = in.get(); if (c < 0 || c > 9) return false; if (SETS[c]) m = *SETS[c]; return true; }
HARNESS(c35_reader) {
    pb_mini::parse_fn<pb::FileDescriptorSet> = decode; sym_scratch fs; pb::FileDescriptorSet prep, out; prep.add_file()->set_name("a"); SETS[3] = &prep; size_t k = sym_choose(3, "case"); if (k == 1) { uint8_t b = sym_u8("b"); sym_assume(b > 9); fs.put("d", std::string(1, (char)b)); } if (k == 2) fs.put("d", std::string(1, '\3'));
    rs r = read_file_descriptor_set(fs.path("d"), out); SYM_ASSERT(r == (k == 0 ? rs::descriptor_open_failed : k == 1 ? rs::descriptor_parse_failed : rs::ok)); if (k == 2) SYM_ASSERT(out.file_size() == 1 && out.file(0).name() == "a"); else SYM_ASSERT(out.file_size() == 0); sym_observe("k", k); SETS[3] = nullptr;
}
static const char* PK[] = {"", "p"};
HARNESS(c35_analyze_messages) {
    pb_mini::parse_fn<pb::FileDescriptorSet> = decode; sym_scratch fs; pb::FileDescriptorSet s1, s2; SETS[1] = &s1; SETS[2] = &s2; message_diagnostics want;
    size_t bad = sym_choose(3, "bad"); // 0 none, 1 first missing, 2 first undecodable
    auto fill = [&](pb::FileDescriptorSet& s, std::string file, bool full, bool counts) {
        auto* f = s.add_file(); f->set_name(file); std::string pk = PK[sym_choose(2, "pk")]; f->set_package(pk); std::string base = pk.empty() ? "." : "." + pk + "."; auto* m = f->add_message_type(); m->set_name("M"); auto def = [&](std::string n) { if (counts) want[n].defining_protos.insert(file); }; auto ref = [&](std::string n) { if (counts) want[n].referring_protos.insert(file); }; def(base + "M");
        size_t ft = full ? sym_choose(4, "field") : 0; if (ft) { auto* fd = m->add_field(); fd->set_name("x"); if (ft == 1) { fd->set_type(pb::FieldDescriptorProto::TYPE_MESSAGE); fd->set_type_name("q.T"); ref(".q.T"); } if (ft == 2) { fd->set_type(pb::FieldDescriptorProto::TYPE_MESSAGE); fd->set_type_name(base + "M"); ref(base + "M"); } if (ft == 3) { fd->set_type(pb::FieldDescriptorProto::TYPE_ENUM); fd->set_type_name(".q.T"); } }
        size_t nd = full ? sym_choose(3, "nest") : 1; if (nd) { auto* c = m->add_nested_type(); c->set_name("N"); def(base + "M.N"); auto* fd = c->add_field(); fd->set_type(pb::FieldDescriptorProto::TYPE_MESSAGE); fd->set_type_name(".R"); ref(".R"); if (nd == 2) { auto* d = c->add_nested_type(); d->set_name("O"); def(base + "M.N.O"); } }
        if (full && sym_choose(2, "two")) { auto* k = f->add_message_type(); k->set_name("K"); def(base + "K"); } };
    fill(s1, "f1", true, bad == 0); fill(s2, sym_choose(2, "samefile") ? "f1" : "f2", false, true);
    if (bad != 1) fs.put("d1", std::string(1, bad == 2 ? '\x7f' : '\1')); fs.put("d2", std::string(1, '\2'));
    auto r = analyze_descriptors({fs.path("d1"), fs.path("d2")}); SYM_ASSERT(r.has_error() == (bad != 0)); SYM_ASSERT(r.errors().size() == (bad ? 1 : 0)); if (bad) { SYM_ASSERT(r.errors()[0].status == (bad == 1 ? rs::descriptor_open_failed : rs::descriptor_parse_failed)); SYM_ASSERT(r.errors()[0].path == std::filesystem::path(fs.path("d1"))); }
    SYM_ASSERT(r.message_info().size() == want.size()); for (auto& [n, d] : want) { auto it = r.message_info().find(n); SYM_ASSERT(it != r.message_info().end()); SYM_ASSERT(it->second.defining_protos == d.defining_protos); SYM_ASSERT(it->second.referring_protos == d.referring_protos); } sym_observe("n", want.size()); SYM_ASSERT(r.rpc_methods().empty()); SETS[1] = SETS[2] = nullptr;
}
HARNESS(c35_analyze_rpcs) {
    pb_mini::parse_fn<pb::FileDescriptorSet> = decode; sym_scratch fs; pb::FileDescriptorSet s1, s2; SETS[1] = &s1; SETS[2] = &s2; std::vector<rpc_method_entry> want; std::set<std::string> refs; size_t n = sym_size("n", 0, 3); std::string pk = PK[sym_choose(2, "pk")]; std::string f1 = "f1", f2 = "f2"; auto* a = s1.add_file(); a->set_name(f1); a->set_package(pk); auto* b = s2.add_file(); b->set_name(f2); b->set_package("q.r"); pb::ServiceDescriptorProto* sv[3] = {}; std::vector<rpc_method_entry> w[3];
    for (size_t i = 0; i < n; i++) { size_t t = sym_choose(3, "svc"); if (!sv[t]) { } int lastused = -1; for (int j = 0; j < 3; j++) if (sv[j]) lastused = j; if ((int)t < lastused) sym_assume(sv[t] != nullptr); if (!sv[t]) { sv[t] = t < 2 ? a->add_service() : b->add_service(); sv[t]->set_name(t == 0 ? "S" : "U"); }
        auto* m = sv[t]->add_method(); std::string nm = sym_choose(2, "nm") ? "f" : "g"; m->set_name(nm); size_t ty = i == 0 ? sym_choose(3, "ty") : 1; if (ty == 1) { m->set_input_type(".q.I"); m->set_output_type("O"); } if (ty == 2) m->set_output_type(".p.Z"); w[t].push_back({t < 2 ? f1 : f2, t == 0 ? "S" : "U", nm, "/" + (t < 2 ? (pk.empty() ? "" : pk + ".") : std::string("q.r.")) + (t == 0 ? "S" : "U") + "/" + nm}); if (ty == 1) { refs.insert(".q.I"); refs.insert(".O"); } if (ty == 2) refs.insert(".p.Z"); }
    fs.put("d1", std::string(1, '\1')); fs.put("d2", std::string(1, '\2')); auto r = analyze_descriptors({fs.path("d1"), fs.path("d2")}); for (auto& x : w) for (auto& e : x) want.push_back(e); SYM_ASSERT(!r.has_error()); SYM_ASSERT(r.rpc_methods().size() == want.size()); for (size_t i = 0; i < want.size(); i++) { auto& g = r.rpc_methods()[i]; SYM_ASSERT(g.proto_file_name == want[i].proto_file_name && g.service_name == want[i].service_name && g.method_name == want[i].method_name); SYM_ASSERT(g.full_rpc_path == want[i].full_rpc_path); }
    SYM_ASSERT(r.message_info().size() == refs.size()); for (auto& x : refs) { auto it = r.message_info().find(x); SYM_ASSERT(it != r.message_info().end() && it->second.defining_protos.empty() && !it->second.referring_protos.empty()); } bool dup = false; for (size_t i = 0; i < want.size(); i++) for (size_t j = 0; j < i; j++) if (want[i].method_name == want[j].method_name) dup = true; SYM_ASSERT((validate_rpc_method_duplicates(r.rpc_methods()) == plugin::udf::rpc_duplicate_check_status::rpc_name_duplicated) == dup); sym_observe("dup", dup); SETS[1] = SETS[2] = nullptr;
}
HARNESS(c35_dup_rpc) {
    size_t n = sym_size("n", 0, QT(3, 4)); std::vector<rpc_method_entry> v; for (size_t i = 0; i < n; i++) v.push_back({std::string("f") + (char)('0' + i), "S", sym_string(sym_size("l", 0, 1), "m"), "/x"}); bool dup = false; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) dup = sym_or(dup, sym_same(v[i].method_name, v[j].method_name)); bool got = validate_rpc_method_duplicates(v) == plugin::udf::rpc_duplicate_check_status::rpc_name_duplicated; sym_assert(got == dup, "duplicated exactly when two methods share a name"); sym_observe("dup", got);
}
HARNESS(c35_dup_message) {
    message_diagnostics all; size_t n = sym_size("n", 0, 3); int defs[3], refs[3]; static const char* N[] = {".a", ".b.c", ".d"}; for (size_t i = 0; i < n; i++) { defs[i] = (int)sym_choose(3, "d"); refs[i] = (int)sym_choose(3, "r"); auto& m = all[N[i]]; for (int k = 0; k < defs[i]; k++) m.defining_protos.insert(std::string("d") + (char)('0' + k)); for (int k = 0; k < refs[i]; k++) m.referring_protos.insert(std::string("r") + (char)('0' + k)); }
    auto r = filter_message_definition_duplicates(all); size_t c = 0; for (size_t i = 0; i < n; i++) { auto it = r.find(N[i]); SYM_ASSERT((it != r.end()) == (defs[i] > 1)); if (defs[i] > 1) { c++; SYM_ASSERT(it->second.defining_protos == all[N[i]].defining_protos && it->second.referring_protos == all[N[i]].referring_protos); } } SYM_ASSERT(r.size() == c); sym_observe("c", c);
}
