//@property C51
//@src src/jogasaki/utils/storage_metadata_serializer.cpp src/jogasaki/recovery/storage_options.cpp src/jogasaki/recovery/index.cpp src/jogasaki/utils/decimal.cpp src/jogasaki/utils/find_function.cpp src/jogasaki/auth/fill_action_set.cpp src/jogasaki/auth/action_set.cpp src/jogasaki/auth/authorized_users_action_set.cpp src/jogasaki/error/error_info.cpp
//@stubs
//@inc stubs_meta stubs_tbb
//@proto jogasaki/proto/metadata/storage.proto
//@entry c51_type quick=60 thorough=200 | a column of each of the 19 storable types with any length, precision, scale, variability, time zone, nullability, description and features
//@entry c51_default quick=80 thorough=300 | default values of all 12 kinds with any content (texts of 0..3 bytes, decimals with 128-bit coefficient), any 64-bit sequence definition, known and unknown functions
//@entry c51_index quick=80 thorough=300 | a primary index over 1..3 columns: any key order and direction, value columns, features, identifiers, storage key, grants of one user and the public, flags
//@entry c51_secondary quick=60 thorough=200 | a secondary index over a table known to the source or target provider or to neither; key or value columns missing
//@entry c51_fault quick=60 thorough=200 | unparsable payloads, any format version, existing tables and indexes with and without replacement, failing encoder, missing names
//@entry c51_merge quick=60 thorough=200 | merging recovered definitions into a provider that already has the table, the index or the sequence, or not
//@entry c51_reserve quick=30 thorough=60 | marking an existing, missing or failing storage for deletion
#include "sym.h"
#include "fail_env.h"
#include <sstream>
#include <yugawara/function/configurable_provider.h>
#include <jogasaki/constants.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/recovery/storage_options.h>
#include <jogasaki/recovery/index.h>
#include <jogasaki/utils/storage_metadata_serializer.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/auth/fill_action_set.h>
using namespace jogasaki; namespace ys = yugawara::storage; namespace tt = takatori::type; namespace tv = takatori::value; namespace td = takatori::datetime; namespace pm = jogasaki::proto::metadata::storage; using takatori::decimal::triple;
// the wire library: an encoded message is the number of a stored copy
static std::vector<pm::Storage>* wire; static bool broken;
static bool ser(pm::Storage const& m, std::ostream& o) { if (broken) return false; wire->push_back(m); std::string s(1, (char)wire->size()); s += "msg"; o << s; return true; }
static bool arr(pm::Storage& m, void const* p, int n) { auto* c = static_cast<char const*>(p); if (n != 4 || c[1] != 'm' || c[0] < 1 || (size_t)c[0] > wire->size()) return false; m = (*wire)[(size_t)c[0] - 1]; return true; }
static std::shared_ptr<yugawara::function::configurable_provider>* funcs; static std::shared_ptr<kvs::database>* thedb;
namespace jogasaki::global { std::shared_ptr<yugawara::function::configurable_provider> const& regular_function_provider(std::shared_ptr<yugawara::function::configurable_provider>) { return *funcs; } std::shared_ptr<kvs::database> const& db(std::shared_ptr<kvs::database>) { return *thedb; } }
static void init() { wire = new std::vector<pm::Storage>(); broken = false; pb_mini::ser_fn<pm::Storage> = ser; pb_mini::arr_fn<pm::Storage> = arr; funcs = new std::shared_ptr<yugawara::function::configurable_provider>(std::make_shared<yugawara::function::configurable_provider>()); thedb = new std::shared_ptr<kvs::database>(std::make_shared<kvs::database>()); kvs::storage::fail = false; for (size_t d : {7, 9}) (*funcs)->l.push_back(std::make_shared<yugawara::function::declaration const>(yugawara::function::declaration{d})); }
static tt::osize num(char const* n) { if (!sym_choose(2, n)) return {}; return sym_u64(n) & 0x7fffffffffffffffULL; }
static std::shared_ptr<tt::data const> make_type(int k, bool flag, tt::osize a = {}, tt::osize b = {}) { tt::varying_t v{flag}; tt::with_time_zone_t z{flag}; switch (k) { case 0: return std::make_shared<tt::boolean>(); case 1: return std::make_shared<tt::int1>(); case 2: return std::make_shared<tt::int2>(); case 3: return std::make_shared<tt::int4>(); case 4: return std::make_shared<tt::int8>(); case 5: return std::make_shared<tt::float4>(); case 6: return std::make_shared<tt::float8>(); case 7: return std::make_shared<tt::decimal>(a, b); case 8: return std::make_shared<tt::character>(v, a); case 9: return std::make_shared<tt::octet>(v, a); case 10: return std::make_shared<tt::date>(); case 11: return std::make_shared<tt::time_of_day>(z); case 12: return std::make_shared<tt::time_point>(z); case 13: return std::make_shared<tt::blob>(); case 14: return std::make_shared<tt::clob>(); default: return std::make_shared<tt::unknown>(); } }
static bool same(tt::osize a, tt::osize b) { return a.has_value() == b.has_value() && (!a || *a == *b); }
static bool same(tt::data const& a, tt::data const& b) { return a.k == b.k && a.flag == b.flag && same(a.a, b.a) && same(a.b, b.b); }
static bool same(std::string_view a, std::string_view b) { return a.size() == b.size() && sym_eq(a.data(), b.data(), a.size()); }
template <class T> static T const& as(tv::data const& d) { return static_cast<T const&>(d); }
static bool same(tv::data const& a, tv::data const& b) { using k = tv::value_kind; if (a.kind() != b.kind()) return false; switch (a.kind()) { case k::boolean: return as<tv::boolean>(a).get() == as<tv::boolean>(b).get(); case k::int4: return as<tv::int4>(a).get() == as<tv::int4>(b).get(); case k::int8: return as<tv::int8>(a).get() == as<tv::int8>(b).get(); case k::float4: { auto x = as<tv::float4>(a).get(), y = as<tv::float4>(b).get(); return sym_eq(&x, &y, 4); } case k::float8: { auto x = as<tv::float8>(a).get(), y = as<tv::float8>(b).get(); return sym_eq(&x, &y, 8); }
    case k::decimal: { auto x = as<tv::decimal>(a).get(), y = as<tv::decimal>(b).get(); return x.sign() == y.sign() && x.coefficient_high() == y.coefficient_high() && x.coefficient_low() == y.coefficient_low() && x.exponent() == y.exponent(); } case k::character: return same(as<tv::character>(a).get(), as<tv::character>(b).get()); case k::octet: return same(as<tv::octet>(a).get(), as<tv::octet>(b).get()); case k::date: return as<tv::date>(a).get().days_since_epoch() == as<tv::date>(b).get().days_since_epoch();
    case k::time_of_day: return as<tv::time_of_day>(a).get().time_since_epoch().count() == as<tv::time_of_day>(b).get().time_since_epoch().count(); case k::time_point: { auto x = as<tv::time_point>(a).get(), y = as<tv::time_point>(b).get(); return x.seconds_since_epoch().count() == y.seconds_since_epoch().count() && x.subsecond().count() == y.subsecond().count(); } default: return false; } }
static bool same(ys::sequence const& a, ys::sequence const& b) { return same(a.d, b.d) && same(a.n, b.n) && a.i == b.i && a.s == b.s && a.lo == b.lo && a.hi == b.hi && a.c == b.c && same(a.x, b.x); }
static bool same(ys::column_value const& a, ys::column_value const& b) { if (a.k != b.k) return false; switch (a.k) { case ys::column_value_kind::immediate: return same(*a.i, *b.i); case ys::column_value_kind::sequence: return same(*a.s, *b.s); case ys::column_value_kind::function: return a.f->d == b.f->d; default: return true; } }
static void check(ys::column const& a, ys::column const& b) { SYM_ASSERT(same(a.n, b.n)); SYM_ASSERT(b.t != nullptr); SYM_ASSERT(same(*a.t, *b.t)); SYM_ASSERT(a.cr.x.n == b.cr.x.n); SYM_ASSERT(same(a.dv, b.dv)); SYM_ASSERT(a.f == b.f); SYM_ASSERT(same(a.x, b.x)); }
static void check(ys::table const& a, ys::table const& b) { SYM_ASSERT(same(a.d, b.d)); SYM_ASSERT(same(a.n, b.n)); SYM_ASSERT(same(a.x, b.x)); SYM_ASSERT(a.c.size() == b.c.size()); auto j = b.c.begin(); for (auto& x : a.c) check(x, *j++); }
static void check(ys::index const& a, ys::index const& b, ys::table const* t) { SYM_ASSERT(b.t.get() == t); SYM_ASSERT(same(a.d, b.d)); SYM_ASSERT(same(a.n, b.n)); SYM_ASSERT(same(a.x, b.x)); SYM_ASSERT(a.f == b.f); auto col = [&](ys::column const& x, ys::column const& y) { SYM_ASSERT(same(x.n, y.n)); bool in = false; for (auto& z : t->c) in = in || &z == &y; SYM_ASSERT(in); }; SYM_ASSERT(a.k.size() == b.k.size()); for (size_t i = 0; i < a.k.size(); i++) { col(*a.k[i].c, *b.k[i].c); SYM_ASSERT(a.k[i].dir == b.k[i].dir); } SYM_ASSERT(a.v.size() == b.v.size()); for (size_t i = 0; i < a.v.size(); i++) col(a.v[i], b.v[i]); }
static ys::column col(std::string n, std::shared_ptr<tt::data const> t, ys::column_value v = {}, bool nullable = true, ys::column::feature_set_type f = {}, std::string x = "") { return {std::move(n), std::move(t), yugawara::variable::criteria{yugawara::variable::nullity{nullable}}, std::move(v), f, std::move(x)}; }
using cols = takatori::util::reference_vector<ys::column>;
static std::shared_ptr<ys::table> tab(cols c, tt::osize d = {}, std::string n = "T", std::string x = "") { return std::make_shared<ys::table>(d, std::move(n), std::move(c), std::move(x)); }
static std::shared_ptr<ys::index> idx(std::shared_ptr<ys::table const> t, std::string n = "T", ys::index_feature_set f = {ys::index_feature::find, ys::index_feature::primary}) { std::vector<ys::index::key> k; k.emplace_back(*t->c.begin(), ys::sort_direction::ascendant); return std::make_shared<ys::index>(tt::osize{}, t, std::move(n), std::move(k), std::vector<ys::index::column_ref>{}, f, ""); }
static std::string store(ys::index const& i, utils::metadata_serializer_option const& o = utils::metadata_serializer_option{}) { std::string s = "old"; SYM_ASSERT(recovery::create_storage_option(i, s, o) == nullptr); return s; }
// written, read back by a provider that knows nothing, and compared
static void roundtrip(std::shared_ptr<ys::table> t) { auto i = idx(t); auto s = store(*i); ys::configurable_provider none, out; bool over = sym_choose(2, "overwrite"); SYM_ASSERT(recovery::deserialize_storage_option_into_provider(s, none, out, over) == nullptr); auto r = out.find_table("T"); SYM_ASSERT(r != nullptr); check(*t, *r); auto q = out.find_index("T"); SYM_ASSERT(q != nullptr); check(*i, *q, r.get()); SYM_ASSERT(none.count() == 0); }
HARNESS(c51_type) { init(); int k = (int)sym_choose(16, "type"); bool flag = k == 8 || k == 9 || k == 11 || k == 12 ? sym_choose(2, "flag") : false; tt::osize a, b; if (k >= 7 && k <= 9) a = num("length"); if (k == 7) b = num("scale"); ys::column::feature_set_type f; int m = (int)sym_choose(8, "features"); if (m & 1) f.insert(ys::column_feature::synthesized); if (m & 2) f.insert(ys::column_feature::hidden); if (m & 4) f.insert(ys::column_feature::read_only); bool nul = sym_choose(2, "nullable"); cols c; c.emplace_back(col(sym_string(2, "name"), make_type(k, flag, a, b), {}, nul, f, sym_string(sym_choose(3, "n"), "description"))); roundtrip(tab(std::move(c))); }
template <class T, class... A> static ys::column_value val(A&&... a) { return ys::column_value{std::make_shared<T const>(T{std::forward<A>(a)...})}; }
HARNESS(c51_default) { init(); int k = (int)sym_choose(16, "value"); ys::column_value v; int ty = 3; bool flag = false; std::shared_ptr<ys::sequence> q;
    switch (k) { case 0: break; case 1: ty = 0; v = val<tv::boolean>(sym_bool("b")); break; case 2: v = val<tv::int4>((std::int32_t)sym_u32("i")); break; case 3: ty = 4; v = val<tv::int8>((std::int64_t)sym_u64("l")); break; case 4: { std::uint32_t u = sym_u32("f"); float f; memcpy(&f, &u, 4); ty = 5; v = val<tv::float4>(f); break; } case 5: { std::uint64_t u = sym_u64("d"); double f; memcpy(&f, &u, 8); ty = 6; v = val<tv::float8>(f); break; }
    case 6: { int s = (int)sym_choose(3, "sign") - 1; auto hi = sym_u64("hi"), lo = sym_u64("lo"); auto e = (std::int32_t)sym_u32("exponent"); sym_assume(s == 0 ? sym_and(hi == 0, lo == 0) : sym_or(hi != 0, lo != 0)); sym_assume(e != INT32_MIN); ty = 7; v = val<tv::decimal>(triple(s, hi, lo, e)); break; } case 7: ty = 8; v = val<tv::character>(sym_string(sym_choose(4, "n"), "s")); break; case 8: ty = 9; v = val<tv::octet>(sym_string(sym_choose(4, "n"), "s")); break; case 9: ty = 10; v = val<tv::date>(td::date{(std::int64_t)sym_u64("days")}); break;
    case 10: { ty = 11; flag = sym_choose(2, "zone"); auto n = sym_u64("ns"); sym_assume(n < 86400000000000ULL); v = val<tv::time_of_day>(td::time_of_day{std::chrono::duration<std::uint64_t, std::nano>(n)}); break; } case 11: { ty = 12; flag = sym_choose(2, "zone"); auto n = sym_u32("ns"); sym_assume(n < 1000000000U); v = val<tv::time_point>(td::time_point{std::chrono::duration<std::int64_t>{(std::int64_t)sym_u64("sec")}, std::chrono::nanoseconds{n}}); break; }
    case 12: case 13: ty = 4; q = std::make_shared<ys::sequence>("seq", (std::int64_t)sym_u64("initial"), (std::int64_t)sym_u64("increment"), (std::int64_t)sym_u64("min"), (std::int64_t)sym_u64("max"), sym_bool("cycle"), sym_string(1, "x")); if (k == 13) q->definition_id(sym_u64("id")); v = ys::column_value{q}; break;
    default: v = ys::column_value{std::make_shared<yugawara::function::declaration const>(yugawara::function::declaration{k == 14 ? (sym_choose(2, "f") ? 9u : 7u) : 8u})}; }
    cols c; c.emplace_back(col("k", make_type(3, false))); c.emplace_back(col("c", make_type(ty, flag), v)); auto t = tab(std::move(c)); if (k != 15) { auto i = idx(t); auto s = store(*i); ys::configurable_provider none, out; SYM_ASSERT(recovery::deserialize_storage_option_into_provider(s, none, out, false) == nullptr); auto r = out.find_table("T"); SYM_ASSERT(r != nullptr); check(*t, *r); auto z = out.find_sequence("seq"); SYM_ASSERT((z != nullptr) == (q != nullptr)); if (z) { SYM_ASSERT(same(*z, *q)); SYM_ASSERT(r->c.l.back().dv.s == z); } SYM_ASSERT(out.count() == (q ? 3 : 2)); return; }
    auto s = store(*idx(t)); ys::configurable_provider none, out; SYM_ASSERT(recovery::deserialize_storage_option_into_provider(s, none, out, false) == nullptr); SYM_ASSERT(out.find_table("T")->c.l.back().dv.k == ys::column_value_kind::nothing); }
HARNESS(c51_index) { init(); size_t n = sym_size("columns", 1, 3); cols c; static const char* N[] = {"a", "b", "c"}; for (size_t i = 0; i < n; i++) c.emplace_back(col(N[i], make_type(3 + (int)i, false))); auto t = tab(std::move(c), num("table id"), "T", sym_string(1, "x")); std::vector<ys::column const*> p; for (auto& x : t->c) p.push_back(&x); std::vector<ys::index::key> k; std::vector<ys::index::column_ref> v; size_t nk = sym_size("keys", 1, n); size_t rot = sym_choose(n, "first"); for (size_t i = 0; i < n; i++) { auto& x = *p[(i + rot) % n]; if (i < nk) k.emplace_back(x, sym_choose(2, "descending") ? ys::sort_direction::descendant : ys::sort_direction::ascendant); else v.emplace_back(x); }
    bool grant = n == 1 && sym_choose(2, "grants or features"); ys::index_feature_set f; static const ys::index_feature F[] = {ys::index_feature::primary, ys::index_feature::find, ys::index_feature::scan, ys::index_feature::unique, ys::index_feature::unique_constraint}; if (n == 1 && !grant) for (auto x : F) { if (sym_choose(2, "feature")) f.insert(x); } else f = {ys::index_feature::primary, ys::index_feature::scan};
    ys::index i{num("index id"), t, "T", std::move(k), std::move(v), f, sym_string(1, "y")}; auth::authorized_users_action_set users; auth::action_set pub, alice; using ak = auth::action_kind; int g = grant ? (int)sym_choose(4, "grants") : 0; static const ak A[] = {ak::select, ak::insert, ak::update, ak::delete_, ak::control}; if (g & 1) { pub.add_action(A[sym_choose(5, "public")]); } if (g & 2) { alice.add_action(A[sym_choose(5, "granted")]); alice.add_action(A[sym_choose(4, "granted too")]); users.add_user_actions("alice", alice); }
    bool syn = n == 2 && sym_choose(2, "synthesized"); std::string key = sym_string(2, "storage key"); std::optional<std::string_view> ok; std::optional<bool> del; if (n == 2) { if (sym_choose(2, "key given")) ok = key; int d = (int)sym_choose(3, "delete"); if (d) del = d == 1; } auto s = store(i, utils::metadata_serializer_option{syn, g & 2 ? &users : nullptr, g & 1 ? &pub : nullptr, ok, del});
    ys::configurable_provider none, out; SYM_ASSERT(recovery::deserialize_storage_option_into_provider(s, none, out, false) == nullptr); auto r = out.find_table("T"); SYM_ASSERT(r != nullptr); check(*t, *r); auto q = out.find_index("T"); SYM_ASSERT(q != nullptr); check(i, *q, r.get());
    pm::IndexDefinition d; std::uint64_t ver = 0; SYM_ASSERT(recovery::validate_extract(s, d, ver) == nullptr); SYM_ASSERT(ver == metadata_format_version); SYM_ASSERT(d.synthesized() == syn); SYM_ASSERT(d.delete_reserved() == (del && *del)); SYM_ASSERT((d.storage_key_optional_case() == pm::IndexDefinition::kStorageKey) == ok.has_value()); if (ok) SYM_ASSERT(same(d.storage_key(), key)); auth::authorized_users_action_set u2; auth::action_set p2; auth::from_authorization_list(d.table_definition(), u2); auth::from_default_privilege(d.table_definition(), p2); for (auto x : A) { SYM_ASSERT(p2.has_action(x) == pub.has_action(x)); SYM_ASSERT(u2.find_user_actions("alice").has_action(x) == users.find_user_actions("alice").has_action(x)); } SYM_ASSERT(u2.user_count() == users.user_count()); }
HARNESS(c51_secondary) { init(); cols c; c.emplace_back(col("a", make_type(3, false))); c.emplace_back(col("b", make_type(4, false))); auto t = tab(std::move(c)); std::vector<ys::index::key> k; k.emplace_back(t->c.l.back(), sym_choose(2, "descending") ? ys::sort_direction::descendant : ys::sort_direction::ascendant); std::vector<ys::index::column_ref> v; if (sym_choose(2, "value")) v.emplace_back(t->c.l.front()); ys::index i{num("id"), t, "I", std::move(k), std::move(v), {ys::index_feature::find, ys::index_feature::unique}, sym_string(1, "x")}; auto s = store(i); int miss = (int)sym_choose(4, "missing"); // nothing, the key column, the value column, the table
    auto known = [&](bool a, bool b) { cols l; if (a) l.emplace_back(col("a", make_type(3, false))); if (b) l.emplace_back(col("b", make_type(4, false))); return tab(std::move(l)); }; auto kt = known(miss != 2, miss != 1); ys::configurable_provider in, out; int where = (int)sym_choose(3, "known to"); auto other = tab({}, {}, "U"); in.add_table(other); if (miss != 3) { if (where != 1) in.add_table(kt); if (where == 1) out.add_table(kt); if (where == 2) { kt = known(miss != 2, miss != 1); out.add_table(kt); } } size_t before = out.count(); auto e = recovery::deserialize_storage_option_into_provider(s, in, out, sym_choose(2, "overwrite")); bool bad = miss == 3 || miss == 1 || (miss == 2 && !i.v.empty());
    SYM_ASSERT((e != nullptr) == bad); if (bad) { SYM_ASSERT(e->code() == error_code::sql_execution_exception); SYM_ASSERT(out.count() == before); return; } auto q = out.find_index("I"); SYM_ASSERT(q != nullptr); check(i, *q, kt.get()); SYM_ASSERT(out.count() == before + 1); }
HARNESS(c51_fault) { init(); cols c; c.emplace_back(col("a", make_type(3, false))); auto t = tab(std::move(c)); auto i = idx(t); int how = (int)sym_choose(5, "case"); ys::configurable_provider none, out;
    if (how == 0) { std::string s = sym_string(sym_choose(4, "n"), "payload"); auto e = recovery::deserialize_storage_option_into_provider(s, none, out, true); SYM_ASSERT(e != nullptr); SYM_ASSERT(out.count() == 0); return; } // nothing was stored
    if (how == 1) { auto s = store(*i); auto ver = sym_u64("version"); (*wire)[0].set_message_version(ver); pm::IndexDefinition d; std::uint64_t got = ~ver; auto e = recovery::validate_extract(s, d, got); bool old = ver < compatible_metadata_format_version; SYM_ASSERT((e != nullptr) == old); SYM_ASSERT(got == ver); auto e2 = recovery::deserialize_storage_option_into_provider(s, none, out, true); SYM_ASSERT((e2 != nullptr) == old); SYM_ASSERT(out.count() == (old ? 0u : 2u)); return; }
    if (how == 2) { broken = true; std::string s; SYM_ASSERT(recovery::create_storage_option(*i, s, utils::metadata_serializer_option{}) != nullptr); SYM_ASSERT(s.empty()); return; }
    if (how == 3) { auto s = store(*i); bool over = sym_choose(2, "overwrite"); int has = (int)sym_choose(3, "existing") + 1; std::shared_ptr<ys::table> ot; std::shared_ptr<ys::index> oi; cols oc; oc.emplace_back(col("z", make_type(4, false))); ot = tab(std::move(oc)); oi = idx(ot); if (has & 1) out.add_table(ot); if (has & 2) out.add_index(oi); auto e = recovery::deserialize_storage_option_into_provider(s, none, out, over); if (!over) { SYM_ASSERT(e != nullptr); SYM_ASSERT(e->code() == error_code::target_already_exists_exception); SYM_ASSERT(e->status() == status::err_already_exists); if (has & 1) SYM_ASSERT(out.find_table("T") == ot); if (has & 2) SYM_ASSERT(out.find_index("T") == oi); return; } SYM_ASSERT(e == nullptr); auto r = out.find_table("T"); check(*t, *r); check(*i, *out.find_index("T"), r.get()); return; }
    auto s = store(*i); auto* d = (*wire)[0].mutable_index(); int m = (int)sym_choose(2, "missing"); if (m == 0) d->mutable_table_definition()->clear_name(); else d->clear_table(); auto e = recovery::deserialize_storage_option_into_provider(s, none, out, true); SYM_ASSERT(e != nullptr); SYM_ASSERT(out.count() == 0); }
HARNESS(c51_merge) { init(); cols c; c.emplace_back(col("a", make_type(4, false), ys::column_value{std::make_shared<ys::sequence>("s", 1, 1, 1, 100, false, "")})); auto t = tab(std::move(c)); auto i = idx(t); auto s = store(*i); ys::configurable_provider none, src, to; SYM_ASSERT(recovery::deserialize_storage_option_into_provider(s, none, src, false) == nullptr); bool two = sym_choose(2, "two indexes"); if (two) src.add_index(idx(t, "J")); auto rt = src.find_table("T"); auto ri = src.find_index("T"); auto rs = src.find_sequence("s"); bool over = sym_choose(2, "overwrite"); int has = (int)sym_choose(8, "existing"); auto os = std::make_shared<ys::sequence>("s", 5, 1, 1, 9, false, ""); if (has & 1) to.add_sequence(std::shared_ptr<ys::sequence const>(os)); if (has & 2) to.add_table(t); if (has & 4) to.add_index(std::shared_ptr<ys::index const>(i)); size_t before = to.count();
    auto e = recovery::merge_deserialized_storage_option(src, to, over); if (two) { SYM_ASSERT(e != nullptr); SYM_ASSERT(to.count() == before); return; } bool bad = has && !over; SYM_ASSERT((e != nullptr) == bad); if (bad) { SYM_ASSERT(e->status() == status::err_already_exists); if (has & 1) SYM_ASSERT(to.find_sequence("s") == os); if (has & 2) SYM_ASSERT(to.find_table("T") == t); if (has & 4) SYM_ASSERT(to.find_index("T") == i); return; } SYM_ASSERT(to.find_table("T") == rt); SYM_ASSERT(to.find_index("T") == ri); SYM_ASSERT(to.find_sequence("s") == rs); SYM_ASSERT(to.count() == 3); SYM_ASSERT(src.count() == 0); }
HARNESS(c51_reserve) { init(); cols c; c.emplace_back(col("a", make_type(3, false))); auto t = tab(std::move(c)); auto i = idx(t); std::string key = sym_string(2, "key"); auto& l = (*thedb)->l; l.push_back({"other", "x"}); int how = (int)sym_choose(3, "case"); if (how) l.push_back({key, store(*i)}); std::string old = how ? l[1].options : ""; kvs::storage::fail = how == 2; auto e = recovery::set_storage_option_delete_reserved(*i, key); SYM_ASSERT((e != nullptr) == (how == 2)); SYM_ASSERT(l[0].options == "x"); if (!how) return; if (how == 2) { SYM_ASSERT(l[1].options == old); return; } pm::IndexDefinition d; std::uint64_t v; SYM_ASSERT(recovery::validate_extract(l[1].options, d, v) == nullptr); SYM_ASSERT(d.delete_reserved()); SYM_ASSERT(same(d.storage_key(), key)); SYM_ASSERT(d.has_table_definition()); }
