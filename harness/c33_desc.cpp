//@property C33
//@src src/jogasaki/executor/dto/common_column_utils.cpp src/jogasaki/executor/dto/describe_table_utils.cpp src/jogasaki/api/kvsservice/mapped_record.cpp src/jogasaki/api/kvsservice/transaction_options.cpp src/jogasaki/executor/batch/batch_executor_option.cpp src/jogasaki/meta/character_field_option.cpp src/jogasaki/meta/decimal_field_option.cpp src/jogasaki/meta/octet_field_option.cpp src/jogasaki/meta/time_of_day_field_option.cpp src/jogasaki/meta/time_point_field_option.cpp
//@proto jogasaki/proto/sql/response.proto tateyama/proto/kvs/data.proto
//@entry c33_atom_type quick=60 thorough=60 | every 32-bit wire value (symbolic) and every internal type
//@entry c33_to_proto quick=120 thorough=200 | every presence combination of the nine attributes, symbolic 32-bit numbers, names/descriptions of 0..2 symbolic bytes
//@entry c33_from_proto quick=120 thorough=200 | as c33_to_proto, starting from the wire message (every oneof case)
//@entry c33_describe quick=120 thorough=200 | 0..2 columns, 0..2 key columns, names of 0..2 bytes, optional description
//@entry c33_column_equal quick=120 thorough=200 | two columns with independent attributes (presence and symbolic values)
//@entry c33_column_print quick=60 thorough=120 | every presence combination, one-digit symbolic numbers
//@entry c33_field_options quick=60 thorough=60 | symbolic 64-bit lengths/precisions, every presence combination, two options each
//@entry c33_transaction_option quick=60 thorough=60 | every type/priority, 0..2 areas per list, symbolic bytes
//@entry c33_mapped_record quick=120 thorough=300 | up to 3 names of 0..2 symbolic bytes (duplicates included) and a probe name
//@entry c33_batch_option quick=60 thorough=60 | symbolic 64-bit limits, callbacks present or absent
#include "sym.h"
#include <sstream>
#include <jogasaki/executor/dto/common_column_utils.h>
#include <jogasaki/executor/dto/describe_table_utils.h>
#include <jogasaki/api/kvsservice/mapped_record.h>
#include <jogasaki/api/kvsservice/transaction_option.h>
#include <jogasaki/executor/batch/batch_executor_option.h>
#include <jogasaki/meta/character_field_option.h>
#include <jogasaki/meta/decimal_field_option.h>
#include <jogasaki/meta/octet_field_option.h>
#include <jogasaki/meta/time_of_day_field_option.h>
#include <jogasaki/meta/time_point_field_option.h>
#include <jogasaki/api/character_field_option.h>
#include <jogasaki/api/decimal_field_option.h>
#include <jogasaki/api/octet_field_option.h>
#include <jogasaki/api/time_of_day_field_option.h>
#include <jogasaki/api/time_point_field_option.h>
using namespace jogasaki::executor::dto; namespace sqlc = jogasaki::proto::sql::common; using at = common_column::atom_type; using numopt = std::optional<std::variant<std::uint32_t, bool>>;
struct pair_t { at a; sqlc::AtomType p; };
static const pair_t TY[] = {{at::type_unspecified, sqlc::TYPE_UNSPECIFIED}, {at::boolean, sqlc::BOOLEAN}, {at::int4, sqlc::INT4}, {at::int8, sqlc::INT8}, {at::float4, sqlc::FLOAT4}, {at::float8, sqlc::FLOAT8}, {at::decimal, sqlc::DECIMAL}, {at::character, sqlc::CHARACTER}, {at::octet, sqlc::OCTET}, {at::bit, sqlc::BIT}, {at::date, sqlc::DATE}, {at::time_of_day, sqlc::TIME_OF_DAY}, {at::time_point, sqlc::TIME_POINT}, {at::datetime_interval, sqlc::DATETIME_INTERVAL}, {at::time_of_day_with_time_zone, sqlc::TIME_OF_DAY_WITH_TIME_ZONE}, {at::time_point_with_time_zone, sqlc::TIME_POINT_WITH_TIME_ZONE}, {at::clob, sqlc::CLOB}, {at::blob, sqlc::BLOB}, {at::unknown, sqlc::UNKNOWN}};
static std::string txt(const char* n, size_t hi = 2) { return sym_string(sym_size(n, 0, hi), n); }
HARNESS(c33_atom_type) {
    uint32_t w = sym_u32("wire"); sqlc::Column c; c.set_atom_type(static_cast<sqlc::AtomType>(w)); common_column r = from_proto(c); bool known = false;
    for (auto& t : TY) { bool m = w == (uint32_t)t.p; known = sym_or(known, m); sym_assert(sym_or(!m, r.atom_type_ == t.a), "wire type maps to the type of the same name"); common_column x; x.atom_type_ = t.a; auto q = to_proto(x); sym_assert(q.type_info_case() == sqlc::Column::kAtomType, "type is set"); sym_assert(q.atom_type() == t.p, "type maps to the wire type of the same name"); }
    sym_assert(sym_or(known, r.atom_type_ == at::type_unspecified), "unknown wire types are unspecified");
    sqlc::Column none; SYM_ASSERT(from_proto(none).atom_type_ == at::type_unspecified);
}
static numopt num(const char* n) { switch (sym_choose(3, n)) { case 0: return std::nullopt; case 1: return std::variant<std::uint32_t, bool>{sym_u32(n)}; default: return std::variant<std::uint32_t, bool>{true}; } }
static std::optional<bool> ob(const char* n) { if (sym_choose(2, n)) return sym_bool(n); return std::nullopt; }
static bool isnum(numopt const& o) { return o && o->index() == 0; }
static bool same_num(numopt const& a, numopt const& b) { if (a.has_value() != b.has_value()) return false; if (!a) return true; if (a->index() != b->index()) return false; return a->index() == 0 ? std::get<0>(*a) == std::get<0>(*b) : std::get<1>(*a) == std::get<1>(*b); }
// one attribute group at a time is free, the others carry fixed marks: an attribute must neither be lost nor leak into another
static common_column col(int g) {
    common_column c; c.name_ = "nm"; c.atom_type_ = at::decimal; c.dimension_ = 7; c.length_ = std::variant<std::uint32_t, bool>{11u}; c.precision_ = std::variant<std::uint32_t, bool>{12u}; c.scale_ = std::variant<std::uint32_t, bool>{13u};
    if (g == 0) { c.length_ = num("len"); c.precision_ = num("prec"); c.scale_ = num("scale"); }
    if (g == 1) { c.nullable_ = ob("nullable"); c.varying_ = ob("varying"); if (sym_choose(2, "desc?")) c.description_ = txt("desc"); }
    if (g == 2) { c.name_ = txt("name"); c.dimension_ = sym_u32("dim"); c.atom_type_ = TY[sym_choose(19, "type")].a; c.length_ = std::nullopt; }
    return c;
}
static void obs(sqlc::Column const& q) { sym_observe("len", q.length()); sym_observe("cases", q.length_opt_case() * 10000 + q.precision_opt_case() * 100 + q.scale_opt_case()); }
HARNESS(c33_to_proto) {
    common_column c = col((int)sym_choose(3, "group")); sqlc::Column q = to_proto(c);
    sym_assert(sym_same(q.name(), c.name_), "name"); sym_assert(q.dimension() == c.dimension_, "dimension");
    using Q = sqlc::Column;
    auto chk = [](numopt const& o, int kase, int n, int arb, uint32_t v, const char* l) { sym_assert(kase == (!o ? 0 : isnum(o) ? n : arb), l); if (isnum(o)) sym_assert(v == std::get<0>(*o), l); };
    chk(c.length_, q.length_opt_case(), Q::kLength, Q::kArbitraryLength, q.length(), "length"); chk(c.precision_, q.precision_opt_case(), Q::kPrecision, Q::kArbitraryPrecision, q.precision(), "precision"); chk(c.scale_, q.scale_opt_case(), Q::kScale, Q::kArbitraryScale, q.scale(), "scale");
    sym_assert(q.nullable_opt_case() == (c.nullable_ ? Q::kNullable : 0), "nullable presence"); if (c.nullable_) sym_assert(q.nullable() == *c.nullable_, "nullable");
    sym_assert(q.varying_opt_case() == (c.varying_ ? Q::kVarying : 0), "varying presence"); if (c.varying_) sym_assert(q.varying() == *c.varying_, "varying");
    sym_assert(q.description_opt_case() == (c.description_ ? Q::kDescription : 0), "description presence"); if (c.description_) sym_assert(sym_same(q.description(), *c.description_), "description"); obs(q);
    common_column b = from_proto(q); sym_assert(sym_same(b.name_, c.name_), "name survives"); sym_assert(b.atom_type_ == c.atom_type_, "type survives"); sym_assert(same_num(b.length_, c.length_) && same_num(b.precision_, c.precision_) && same_num(b.scale_, c.scale_), "numbers survive"); sym_assert(b == c, "round trip compares equal"); sym_assert(!(b != c), "round trip does not compare unequal");
}
HARNESS(c33_from_proto) {
    sqlc::Column q; size_t g = sym_choose(2, "group"); uint32_t l = sym_u32("l"), p = sym_u32("p"), s = sym_u32("s"); q.set_name("n"); q.set_atom_type(sqlc::OCTET); q.set_dimension(l); int kl = 1, kp = 1, ks = 1; size_t kn = 2, kv = 1, kd = 1; std::string d = "dd";
    if (g == 0) { kl = (int)sym_choose(3, "kl"); kp = (int)sym_choose(3, "kp"); ks = (int)sym_choose(3, "ks"); } else { kn = sym_choose(3, "kn"); kv = sym_choose(3, "kv"); kd = sym_choose(2, "kd"); d = txt("d"); }
    if (kl == 1) q.set_length(l); if (kl == 2) q.mutable_arbitrary_length(); if (kp == 1) q.set_precision(p); if (kp == 2) q.mutable_arbitrary_precision(); if (ks == 1) q.set_scale(s); if (ks == 2) q.mutable_arbitrary_scale();
    if (kn) q.set_nullable(kn == 2); if (kv) q.set_varying(kv == 2); if (kd) q.set_description(d);
    common_column c = from_proto(q); SYM_ASSERT(c.name_ == "n"); SYM_ASSERT(c.atom_type_ == at::octet); sym_assert(c.dimension_ == l, "dimension");
    auto chk = [](numopt const& o, int k, uint32_t v, const char* t) { sym_assert(o.has_value() == (k != 0), t); if (k == 1) { sym_assert(isnum(o), t); sym_assert(std::get<0>(*o) == v, t); } if (k == 2) { sym_assert(!isnum(o), t); sym_assert(std::get<1>(*o) && is_arbitrary(o), t); } };
    chk(c.length_, kl, l, "length"); chk(c.precision_, kp, p, "precision"); chk(c.scale_, ks, s, "scale");
    sym_assert(c.nullable_.has_value() == (kn != 0), "nullable presence"); if (kn) sym_assert(*c.nullable_ == (kn == 2), "nullable"); sym_assert(c.varying_.has_value() == (kv != 0), "varying presence"); if (kv) sym_assert(*c.varying_ == (kv == 2), "varying");
    sym_assert(c.description_.has_value() == (kd != 0), "description presence"); if (kd) sym_assert(sym_same(*c.description_, d), "description");
    obs(to_proto(c)); SYM_ASSERT(from_proto(to_proto(c)) == c);
}
HARNESS(c33_describe) {
    describe_table t; if (sym_choose(2, "names")) { t.database_name_ = txt("db", 1); t.schema_name_ = txt("sc", 1); t.table_name_ = txt("tb"); } else t.table_name_ = "t";
    size_t nc = sym_size("nc", 0, 2), nk = sym_size("nk", 0, 2); for (size_t i = 0; i < nc; i++) { common_column c(sym_string(1 + i, "cn"), i ? at::int8 : at::character, i == 0); c.length_ = std::variant<std::uint32_t, bool>{sym_u32("len")}; t.columns_.push_back(c); }
    for (size_t i = 0; i < nk; i++) t.primary_key_.push_back(sym_string(i + 1, "pk")); if (sym_choose(2, "desc?")) t.description_ = txt("desc");
    auto q = to_proto(t); sym_assert(sym_same(q.database_name(), t.database_name_) && sym_same(q.schema_name(), t.schema_name_) && sym_same(q.table_name(), t.table_name_), "names"); SYM_ASSERT(q.columns_size() == (int)nc); SYM_ASSERT(q.primary_key_size() == (int)nk);
    for (size_t i = 0; i < nk; i++) sym_assert(sym_same(q.primary_key((int)i), t.primary_key_[i]), "key columns in order"); for (size_t i = 0; i < nc; i++) { sym_assert(sym_same(q.columns((int)i).name(), t.columns_[i].name_), "columns in order"); sym_observe("cl", q.columns((int)i).length()); }
    sym_assert(has_description(q) == t.description_.has_value(), "description presence"); if (t.description_) sym_assert(sym_same(q.description(), *t.description_), "description");
    auto b = from_proto(q); sym_assert(sym_same(b.database_name_, t.database_name_) && sym_same(b.schema_name_, t.schema_name_) && sym_same(b.table_name_, t.table_name_), "names survive"); SYM_ASSERT(b.columns_.size() == nc && b.primary_key_.size() == nk);
    for (size_t i = 0; i < nc; i++) { sym_assert(sym_same(b.columns_[i].name_, t.columns_[i].name_), "column names survive in order"); SYM_ASSERT(b.columns_[i].atom_type_ == t.columns_[i].atom_type_); SYM_ASSERT(b.columns_[i] == t.columns_[i]); } for (size_t i = 0; i < nk; i++) sym_assert(sym_same(b.primary_key_[i], t.primary_key_[i]), "keys survive in order"); SYM_ASSERT(b.description_.has_value() == t.description_.has_value()); SYM_ASSERT(b == t); SYM_ASSERT(!(b != t));
    describe_table u = t; u.table_name_ += "x"; SYM_ASSERT(u != t); u = t; u.primary_key_.push_back("k"); SYM_ASSERT(u != t); u = t; u.columns_.emplace_back(); SYM_ASSERT(u != t); u = t; u.schema_name_ += "x"; SYM_ASSERT(u != t); u = t; u.database_name_ += "x"; SYM_ASSERT(u != t); u = t; if (u.description_) u.description_.reset(); else u.description_ = ""; SYM_ASSERT(u != t);
}
HARNESS(c33_column_equal) {
    size_t k = sym_choose(9, "attr"); common_column a = col(3), b = a; bool eq = true;
    switch (k) {
        case 0: a.name_ = txt("n1"); b.name_ = txt("n2"); eq = sym_same(a.name_, b.name_); break;
        case 1: { auto x = (int)sym_range("t1", 0, 31), y = (int)sym_range("t2", 0, 31); a.atom_type_ = (at)x; b.atom_type_ = (at)y; eq = x == y; break; }
        case 2: a.dimension_ = sym_u32("d1"); b.dimension_ = sym_u32("d2"); eq = a.dimension_ == b.dimension_; break;
        case 3: a.length_ = num("l1"); b.length_ = num("l2"); eq = same_num(a.length_, b.length_); break;
        case 4: a.precision_ = num("l1"); b.precision_ = num("l2"); eq = same_num(a.precision_, b.precision_); break;
        case 5: a.scale_ = num("l1"); b.scale_ = num("l2"); eq = same_num(a.scale_, b.scale_); break;
        case 6: a.nullable_ = ob("b1"); b.nullable_ = ob("b2"); eq = a.nullable_.has_value() == b.nullable_.has_value() && (!a.nullable_ || *a.nullable_ == *b.nullable_); break;
        case 7: a.varying_ = ob("b1"); b.varying_ = ob("b2"); eq = a.varying_.has_value() == b.varying_.has_value() && (!a.varying_ || *a.varying_ == *b.varying_); break;
        case 8: if (sym_choose(2, "p1")) a.description_ = txt("s1"); if (sym_choose(2, "p2")) b.description_ = txt("s2"); eq = a.description_.has_value() == b.description_.has_value() && (!a.description_ || sym_same(*a.description_, *b.description_)); break;
    }
    bool r = a == b; sym_assert(r == eq, "equal exactly when every attribute is equal"); sym_assert((a != b) == !eq, "unequal is the negation"); sym_assert((b == a) == eq, "symmetric"); sym_observe("eq", r);
}
static std::string sv(uint64_t v) { std::string s(1, (char)('0' + v)); return s; }
HARNESS(c33_column_print) {
    common_column c("nm", at::decimal); std::string e = "common_column{name:\"nm\" type:decimal"; auto add = [&](numopt& o, const char* n) { switch (sym_choose(3, n)) { case 1: { auto v = (uint32_t)sym_range(n, 0, 9); o = std::variant<std::uint32_t, bool>{v}; e += std::string(" ") + n + ":" + sv(v); break; } case 2: o = std::variant<std::uint32_t, bool>{true}; e += std::string(" ") + n + ":*"; break; default: break; } };
    add(c.length_, "length"); add(c.precision_, "precision"); add(c.scale_, "scale"); if (sym_choose(2, "nullable")) { bool v = sym_choose(2, "nv"); c.nullable_ = v; e += v ? " nullable:true" : " nullable:false"; } if (sym_choose(2, "varying")) { bool v = sym_choose(2, "vv"); c.varying_ = v; e += v ? " varying:true" : " varying:false"; } if (sym_choose(2, "desc")) { c.description_ = "D"; e += " desc:\"D\""; } e += "}";
    std::ostringstream o; o << c; sym_assert(sym_same(o.str(), e), "printed description carries every attribute"); sym_observe_bytes("s", o.str().data(), o.str().size());
}
static std::optional<std::size_t> osz(const char* n) { if (sym_choose(2, n)) return sym_u64(n); return std::nullopt; }
static bool same(std::optional<std::size_t> a, std::optional<std::size_t> b) { return a.has_value() == b.has_value() && (!a || *a == *b); }
static std::string show(std::optional<std::size_t> v) { return v ? std::to_string(*v) : std::string("*"); }
template <class T> static std::string pr(T const& v) { std::ostringstream o; o << v; return o.str(); }
HARNESS(c33_field_options) {
    using namespace jogasaki; bool v1 = sym_bool("v1"), v2 = sym_bool("v2");
    switch (sym_choose(6, "kind")) {
        case 0: { auto a = osz("a"), b = osz("b"); meta::character_field_option x(v1, a), y(v2, b); sym_assert((x == y) == sym_and(v1 == v2, same(a, b)), "character options"); sym_assert(same(x.length_, a), "length kept"); sym_assert(x.varying_ == v1, "varying kept"); break; }
        case 1: { auto a = osz("a"), b = osz("b"); meta::octet_field_option x(v1, a), y(v2, b); sym_assert((x == y) == sym_and(v1 == v2, same(a, b)), "octet options"); sym_assert(same(x.length_, a), "length kept"); sym_assert(x.varying_ == v1, "varying kept"); break; }
        case 2: { auto a = osz("a"), b = osz("b"), c = osz("c"), d = osz("d"); meta::decimal_field_option x(a, c), y(b, d); sym_assert((x == y) == sym_and(same(a, b), same(c, d)), "decimal options"); sym_assert(same(x.precision_, a), "precision kept"); sym_assert(same(x.scale_, c), "scale kept"); break; }
        case 3: { meta::time_of_day_field_option x(v1), y(v2); sym_assert((x == y) == (v1 == v2), "time of day options"); SYM_ASSERT(!meta::time_of_day_field_option().with_offset_); meta::time_point_field_option p(v1), q(v2); sym_assert((p == q) == (v1 == v2), "time point options"); SYM_ASSERT(!meta::time_point_field_option().with_offset_); break; }
        case 4: { auto a = osz("a"), b = osz("b"); api::character_field_option x(v1, a); sym_assert(x.varying() == v1 && same(x.length(), a), "api character"); api::octet_field_option o(v2, b); sym_assert(o.varying() == v2 && same(o.length(), b), "api octet"); api::decimal_field_option d(a, b); sym_assert(same(d.precision(), a) && same(d.scale(), b), "api decimal"); sym_assert(api::time_of_day_field_option(v1).with_offset() == v1, "api tod"); sym_assert(api::time_point_field_option(v1).with_offset() == v1, "api tp");
            api::character_field_option cd; api::octet_field_option od; api::decimal_field_option dd; SYM_ASSERT(cd.varying() && !cd.length() && od.varying() && !od.length() && !dd.precision() && !dd.scale()); SYM_ASSERT(!api::time_of_day_field_option().with_offset() && !api::time_point_field_option().with_offset()); meta::character_field_option mc; meta::octet_field_option mo; SYM_ASSERT(mc.varying_ && !mc.length_ && mo.varying_ && !mo.length_); break; }
        default: { std::optional<std::size_t> a, b; if (sym_choose(2, "pa")) a = (size_t)sym_range("na", 0, 9); if (sym_choose(2, "pb")) b = (size_t)sym_range("nb", 0, 9); bool v = sym_choose(2, "vv"); sym_assert(sym_same(pr(meta::character_field_option(v, a)), std::string("character") + (v ? " varying" : "") + "(" + show(a) + ")"), "character shown"); sym_assert(sym_same(pr(meta::octet_field_option(v, a)), std::string("octet") + (v ? " varying" : "") + "(" + show(a) + ")"), "octet shown"); sym_assert(sym_same(pr(meta::decimal_field_option(a, b)), "decimal(" + show(a) + ", " + show(b) + ")"), "decimal shown"); sym_assert(sym_same(pr(meta::time_of_day_field_option(v)), std::string("time_of_day(with_offset=") + (v ? "1" : "0") + ")"), "time of day shown"); sym_assert(sym_same(pr(meta::time_point_field_option(v)), std::string("time_point(with_offset=") + (v ? "1" : "0") + ")"), "time point shown"); }
    }
}
static std::vector<std::string> areas(const char* n) { std::vector<std::string> r; size_t k = sym_size(n, 0, 2); for (size_t i = 0; i < k; i++) r.push_back(sym_string(1 + i, n)); return r; }
static bool same(std::vector<std::string> const& a, std::vector<std::string> const& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = sym_and(r, sym_same(a[i], b[i])); return r; }
HARNESS(c33_transaction_option) {
    using namespace jogasaki::api::kvsservice; transaction_option d; SYM_ASSERT(d.type() == transaction_type::unspecified && d.priority() == transaction_priority{} && d.label().empty() && !d.modifies_definitions() && d.write_preserves().empty() && d.inclusive_read_areas().empty() && d.exclusive_read_areas().empty());
    auto ty = static_cast<enum transaction_type>(sym_u32("ty")); auto w = areas("w"), i = areas("i"), e = areas("e"); transaction_option t(ty, w); sym_assert(t.type() == ty, "type"); sym_assert(same(t.write_preserves(), w), "write preserves"); SYM_ASSERT(t.inclusive_read_areas().empty() && t.exclusive_read_areas().empty() && t.label().empty());
    auto p = static_cast<enum transaction_priority>(sym_u32("pr")); bool md = sym_bool("md"); std::string lab = txt("lab"); t.priority(p); t.label(lab); t.modifies_definitions(md); t.inclusive_read_areas(i); t.exclusive_read_areas(e);
    sym_assert(t.type() == ty && t.priority() == p, "type and priority"); sym_assert(t.modifies_definitions() == md, "ddl"); sym_assert(sym_same(t.label(), lab), "label"); sym_assert(same(t.write_preserves(), w) && same(t.inclusive_read_areas(), i) && same(t.exclusive_read_areas(), e), "areas"); sym_observe("n", t.write_preserves().size()); transaction_option u = t; sym_assert(same(u.exclusive_read_areas(), e) && same(u.write_preserves(), w), "copy");
}
HARNESS(c33_mapped_record) {
    namespace kd = tateyama::proto::kvs::data; using jogasaki::api::kvsservice::mapped_record; kd::Record r; size_t n = sym_size("n", 0, QT(2, 3)); std::vector<std::string> nm; for (size_t i = 0; i < n; i++) { size_t l = sym_size("l", 0, 2); std::string s; for (size_t j = 0; j < l; j++) s += sym_bool("c") ? 'a' : '\0'; nm.push_back(s); r.add_names(s); r.add_values()->set_int8_value(100 + (int64_t)i); }
    mapped_record m(r); size_t l = sym_size("pl", 0, 2); std::string p; for (size_t j = 0; j < l; j++) p += sym_bool("p") ? 'a' : '\0'; const kd::Value* v = m.get_value(p); int64_t want = -1; for (size_t i = n; i-- > 0;) want = (int64_t)sym_ite(sym_same(nm[i], p), 100 + i, (uint64_t)want);
    int64_t got = v ? v->int8_value() : -1; sym_assert(got == want, "value of the first column of that name, or none"); sym_observe("got", (uint64_t)got); if (v) SYM_ASSERT(v == &r.values((int)(got - 100))); SYM_ASSERT(mapped_record().get_value(p) == nullptr);
}
static int F, B; namespace jogasaki::executor::batch { class batch_file_executor {}; class batch_block_executor {}; }
HARNESS(c33_batch_option) {
    using namespace jogasaki::executor::batch; batch_executor_option d; SYM_ASSERT(d.max_concurrent_files() == batch_executor_option::undefined && d.max_concurrent_blocks_per_file() == batch_executor_option::undefined && !d.release_file_cb() && !d.release_block_cb());
    uint64_t a = sym_u64("a"), b = sym_u64("b"); bool pf = sym_choose(2, "pf"), pb = sym_choose(2, "pb"), lim = sym_choose(2, "lim"); F = B = 0; batch_executor_option::release_file_callback_type f; batch_executor_option::release_block_callback_type g; if (pf) f = [](batch_file_executor*) { F++; }; if (pb) g = [](batch_block_executor*) { B++; };
    batch_executor_option o = lim ? batch_executor_option(a, b, f, g) : batch_executor_option(f, g); sym_assert(o.max_concurrent_files() == (lim ? a : batch_executor_option::undefined), "files"); sym_assert(o.max_concurrent_blocks_per_file() == (lim ? b : batch_executor_option::undefined), "blocks"); SYM_ASSERT(static_cast<bool>(o.release_file_cb()) == pf && static_cast<bool>(o.release_block_cb()) == pb);
    if (pf) o.release_file_cb()(nullptr); if (pb) o.release_block_cb()(nullptr); SYM_ASSERT(F == (pf ? 1 : 0) && B == (pb ? 1 : 0));
}
