//@property C22
//@src src/jogasaki/auth/action_set.cpp src/jogasaki/auth/authorized_users_action_set.cpp src/jogasaki/auth/fill_action_set.cpp src/jogasaki/storage/storage_manager.cpp src/jogasaki/storage/shared_lock.cpp src/jogasaki/storage/unique_lock.cpp
//@stubs
//@inc stubs_store stubs_tbb
//@proto jogasaki/proto/metadata/storage.proto
//@entry c22_set quick=60 thorough=200 | every set of actions, then any operation (thorough two) with any action or any second set
//@entry c22_ctor quick=30 thorough=60 | sets constructed from any three actions in any order
//@entry c22_users quick=60 thorough=300 | two users with five initial sets each, any operation (thorough two) of granting and revoking one action or a set of up to two
//@entry c22_allows quick=60 thorough=100 | every public and user set, requests of one action and three others (thorough every set), three users
//@entry c22_proto quick=60 thorough=200 | grants of up to two users and the public written to a table definition and read back, and definitions with any privilege kinds
#include "sym.h"
#include "fail_env.h"
#include <map>
#include <jogasaki/auth/authorized_users_action_set.h>
#include <jogasaki/auth/fill_action_set.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/proto/metadata/storage.pb.h>
using namespace jogasaki; using namespace jogasaki::auth; namespace pm = jogasaki::proto::metadata::storage;
static const action_kind K[] = {action_kind::undefined, action_kind::control, action_kind::select, action_kind::insert, action_kind::update, action_kind::delete_}; static constexpr unsigned CTL = 2;
// reference: a bit mask of actions; full control absorbs the others
static unsigned norm(unsigned m) { return sym_ite((m & CTL) != 0, CTL, m); }
static unsigned add(unsigned m, unsigned a) { return norm(m | a); }
static unsigned drop(unsigned m, unsigned a) { return sym_ite((a & CTL) != 0, 0u, m & ~a); }
static bool allowed(unsigned m, unsigned a) { return sym_or((m & CTL) != 0, (a & ~m) == 0); }
static unsigned mask_of(action_set const& s) { unsigned m = 0; for (int i = 0; i < 6; i++) m |= sym_ite(s.has_action(K[i]), 1u << i, 0u); return m; }
static action_set make(unsigned m) { action_set s; for (int i = 0; i < 6; i++) if (m >> i & 1) s.add_action(K[i]); return s; }
static unsigned any(char const* n) { unsigned m = sym_u8(n); sym_assume(m < 64); return m; }
static void same(action_set const& s, unsigned m, char const* w) { sym_assert(mask_of(s) == m, w); sym_assert(s.empty() == (m == 0), "empty"); for (int i = 0; i < 6; i++) sym_assert(s.action_allowed(K[i]) == allowed(m, 1u << i), "allowed: contained or full control"); unsigned seen = 0; for (auto a : s) { unsigned b = 1u << (unsigned)a; SYM_ASSERT(!(seen & b)); seen |= b; } sym_assert(seen == m, "iteration yields every action once"); sym_observe("set", m); }
HARNESS(c22_set) {
    unsigned m = any("initial"); auto s = make(m); m = norm(m); same(s, m, "constructed"); size_t n = QT(1, 2); for (size_t i = 0; i < n; i++) { unsigned op = (unsigned)sym_choose(5, "op"); if (op == 4) { s.clear(); m = 0; } else if (op < 2) { unsigned k = (unsigned)sym_choose(6, "action"); if (op == 0) { s.add_action(K[k]); m = add(m, 1u << k); } else { s.remove_action(K[k]); m = drop(m, 1u << k); } } else { unsigned o = any("other"); auto t = make(o); o = norm(o); if (op == 2) { s.add_actions(t); m = add(m, o); } else { s.remove_actions(t); m = drop(m, o); } same(t, o, "the argument is unchanged"); sym_assert(s.allows(t) == allowed(m, o), "allows: every action of the other set"); sym_assert((s == t) == (m == o), "equality"); sym_assert((s != t) == (m != o), "inequality"); } same(s, m, "after the operation"); } }
HARNESS(c22_ctor) { unsigned a = (unsigned)sym_choose(6, "a"), b = (unsigned)sym_choose(6, "b"), c = (unsigned)sym_choose(6, "c"); same(action_set{}, 0, "default"); same(action_set{K[a]}, 1u << a, "one"); same(action_set{K[a], K[b]}, norm(1u << a | 1u << b), "two"); same(action_set{K[a], K[b], K[c]}, norm(1u << a | 1u << b | 1u << c), "three"); for (int i = 0; i < 6; i++) for (int j = 0; j < i; j++) SYM_ASSERT(to_string_view(K[i]) != to_string_view(K[j])); }
static std::string const U[] = {"alice", "bob", "alice2"};
static void users(authorized_users_action_set const& u, unsigned const* m) { size_t n = 0; for (int i = 0; i < 3; i++) { same(u.find_user_actions(U[i]), m[i], "the user's actions"); n += sym_ite(m[i] != 0, 1, 0); } sym_assert(u.user_count() == n, "exactly the users with actions are listed"); size_t c = 0; for (auto& e : u) { bool ok = false; for (int i = 0; i < 3; i++) if (e.first == U[i]) ok = true; SYM_ASSERT(ok); c++; } sym_assert(c == n, "iteration"); }
HARNESS(c22_users) {
    authorized_users_action_set u; unsigned m[3] = {}; static const unsigned I[] = {0, CTL, 4, 12, 61}; for (int i = 0; i < 2; i++) { m[i] = norm(I[sym_choose(5, "initial")]); u.add_user_actions(U[i], make(m[i])); } users(u, m); size_t n = QT(1, 2); for (size_t i = 0; i < n; i++) { int w = (int)sym_choose(2, "user"); unsigned op = (unsigned)sym_choose(4, "op"); if (op == 0 || op == 3) { unsigned a = (unsigned)sym_choose(7, "first"), b = a < 6 ? 2 + (unsigned)sym_choose(3, "second") : 6; action_set s; unsigned o = 0; if (a < 6) { s.add_action(K[a]); s.add_action(K[b]); o = norm(1u << a | 1u << b); } if (op == 0) { u.add_user_actions(U[w], s); m[w] = add(m[w], o); } else { u.remove_user_actions(U[w], s); m[w] = drop(m[w], o); } } else if (op == 1) { unsigned k = (unsigned)sym_choose(6, "action"); u.remove_user_action(U[w], K[k]); m[w] = drop(m[w], 1u << k); } else { u.remove_user_all_actions(U[w]); m[w] = 0; } users(u, m); } if (sym_choose(2, "clear")) { u.clear(); m[0] = m[1] = m[2] = 0; users(u, m); } }
HARNESS(c22_allows) {
    storage::impl::storage_control c{"T"}; unsigned p = norm(any("public")), a = norm(any("granted")), q = QT(sym_choose(2, "one") ? 1u << sym_choose(6, "action") : (unsigned)sym_choose(3, "several") * 28u % 64u, any("requested")); c.public_actions().add_actions(make(p)); c.authorized_actions().add_user_actions(U[0], make(a)); if (sym_choose(2, "another")) c.authorized_actions().add_user_actions(U[1], make(CTL)); else c.authorized_actions().remove_user_all_actions(U[1]); bool bob = !c.authorized_actions().find_user_actions(U[1]).empty(); auto s = make(q); q = norm(q); unsigned g[3] = {a, bob ? CTL : 0u, 0}; for (int i = 0; i < 3; i++) { bool want = true; for (int k = 0; k < 6; k++) want = sym_and(want, sym_or((q >> k & 1) == 0, sym_or(allowed(p, 1u << k), allowed(g[i], 1u << k)))); sym_assert(c.allows_user_actions(U[i], s) == want, "allowed exactly when each requested action is granted to the user or to the public"); } sym_observe("q", q); }
static pm::TableActionKind to(unsigned k) { static const pm::TableActionKind T[] = {pm::TableActionKind::UNSPECIFIED, pm::TableActionKind::CONTROL, pm::TableActionKind::SELECT, pm::TableActionKind::INSERT, pm::TableActionKind::UPDATE, pm::TableActionKind::DELETE}; return T[k]; }
HARNESS(c22_proto) {
    if (sym_choose(2, "definition")) { pm::TableDefinition d; unsigned m[3] = {}, p = 0; size_t n = sym_size("entries", 0, 2); for (size_t i = 0; i < n; i++) { int w = (int)sym_choose(2, "user"); auto* e = d.add_authorization_list(); e->set_identifier(U[w]); size_t l = sym_size("privileges", 0, 2); for (size_t j = 0; j < l; j++) { unsigned k = (unsigned)sym_choose(6, "kind"); e->add_privilege_list()->set_action_kind(to(k)); m[w] = add(m[w], 1u << k); } } size_t l = sym_size("defaults", 0, n ? 1 : 3); for (size_t j = 0; j < l; j++) { unsigned k = (unsigned)sym_choose(6, "kind"); d.add_default_privilege_list()->set_action_kind(to(k)); p = add(p, 1u << k); } authorized_users_action_set u; action_set s; from_authorization_list(d, u); from_default_privilege(d, s); users(u, m); same(s, p, "public actions"); return; }
    unsigned a = norm(any("a")), b = norm(any("b")), p = norm(any("public")); if (b > 7 || p > 7) sym_stop(); authorized_users_action_set u, v; action_set s = make(p), t; u.add_user_actions(U[0], make(a)); u.add_user_actions(U[2], make(b)); pm::TableDefinition d; from_action_sets(u, s, d); from_authorization_list(d, v); from_default_privilege(d, t); unsigned m[3] = {a, 0, b}; users(v, m); same(t, p, "public actions survive"); SYM_ASSERT((size_t)d.authorization_list_size() == u.user_count()); for (auto& e : d.authorization_list()) for (auto& x : e.privilege_list()) { unsigned k = 0; while (k < 6 && to(k) != x.action_kind()) k++; SYM_ASSERT(k < 6); sym_assert(((e.identifier() == U[0] ? a : b) >> k & 1) == 1, "only granted actions are written"); } }
