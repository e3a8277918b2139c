//@property C33
//@entry c33_lob_reference quick=60 thorough=120 | every way to build a LOB reference (blob, clob, plain), symbolic 64-bit ids and tags, tag present or absent, every provider value
//@entry c33_lob_equal quick=60 thorough=120 | every pair of two such references (same or different locator), tags free
//@entry c33_lob_locator quick=60 thorough=200 | paths of 0..3 symbolic bytes, both temporary flags; equality of any two; copies and moves
//@entry c33_lob_print quick=60 thorough=120 | every kind, provider, tag presence; two-digit symbolic numbers, path of 0..2 symbolic bytes
//@entry c33_small_values quick=30 thorough=30 | every 64-bit transaction state kind, thread position and record count (symbolic)
#include "sym.h"
#include <sstream>
#include <jogasaki/lob/lob_reference.h>
#include <jogasaki/lob/blob_reference.h>
#include <jogasaki/lob/clob_reference.h>
#include <jogasaki/lob/blob_locator.h>
#include <jogasaki/lob/clob_locator.h>
#include <jogasaki/api/kvsservice/transaction_state.h>
#include <jogasaki/scheduler/thread_info.h>
#include <jogasaki/executor/io/record_channel_stats.h>
#include <jogasaki/kvs/coding_context.h>
using namespace jogasaki::lob; using kind = lob_reference_kind;
struct ref_t { lob_reference r; size_t how; uint64_t id; lob_data_provider pv; lob_locator const* loc; };
template <class R> static lob_reference build(size_t how, lob_locator const& l, uint64_t id, lob_data_provider pv) { if (how == 1) return R(l); if (how == 2) return R(id); if (how == 3) return R(id, pv); return R(); }
static ref_t mk(lob_locator const& l) {
    ref_t t; t.how = sym_choose(4, "how"); t.id = sym_u64("id"); t.pv = static_cast<lob_data_provider>(sym_u32("pv")); t.loc = &l; size_t cls = sym_choose(3, "cls"); t.r = cls == 0 ? build<lob_reference>(t.how, l, t.id, t.pv) : cls == 1 ? build<blob_reference>(t.how, l, t.id, t.pv) : build<clob_reference>(t.how, l, t.id, t.pv); return t;
}
HARNESS(c33_lob_reference) {
    lob_locator l("p", false); ref_t t = mk(l); auto const& r = t.r; SYM_ASSERT(r.kind() == (t.how == 0 ? kind::undefined : t.how == 1 ? kind::provided : t.how == 2 ? kind::fetched : kind::resolved)); SYM_ASSERT(r.locator() == (t.how == 1 ? &l : nullptr)); sym_assert(r.object_id() == (t.how >= 2 ? t.id : 0), "id"); sym_assert(r.provider() == (t.how == 3 ? t.pv : t.how == 2 ? lob_data_provider::datastore : lob_data_provider::undefined), "provider"); SYM_ASSERT(!r.reference_tag().has_value()); sym_observe("id", r.object_id());
    uint64_t g = sym_u64("tag"); size_t c = sym_choose(4, "set"); lob_reference q = r; blob_reference b(t.id, t.pv); clob_reference cl(t.id); if (c & 1) { q.reference_tag(g); SYM_ASSERT(&b.reference_tag(g) == &b); SYM_ASSERT(&cl.reference_tag(g) == &cl); } if (c & 2) { q.reference_tag(std::nullopt); b.reference_tag(std::nullopt); cl.reference_tag(std::nullopt); } bool has = c == 1;
    SYM_ASSERT(q.reference_tag().has_value() == has); lob_reference const& bb = b; lob_reference const& cc = cl; SYM_ASSERT(bb.reference_tag().has_value() == has && cc.reference_tag().has_value() == has); if (has) { sym_assert(*q.reference_tag() == g && *bb.reference_tag() == g && *cc.reference_tag() == g, "tag"); } SYM_ASSERT(!r.reference_tag()); SYM_ASSERT(q.kind() == r.kind() && q.locator() == r.locator()); sym_assert(q.object_id() == r.object_id() && q.provider() == r.provider(), "tag changes nothing else"); sym_assert(b.object_id() == t.id && b.provider() == t.pv && cl.object_id() == t.id && cl.provider() == lob_data_provider::datastore, "content kept"); SYM_ASSERT(b.kind() == kind::resolved && cl.kind() == kind::fetched);
}
HARNESS(c33_lob_equal) {
    lob_locator l("p", false), m("p", false); ref_t a = mk(l), b = mk(sym_choose(2, "sameloc") ? l : m); if (sym_choose(2, "ta")) a.r.reference_tag(sym_u64("ga")); if (sym_choose(2, "tb")) b.r.reference_tag(sym_u64("gb"));
    bool eq = a.r == b.r, want = false; if (a.how == b.how) want = a.how == 0 ? true : a.how == 1 ? a.loc == b.loc : a.how == 2 ? a.id == b.id : sym_and(a.id == b.id, a.pv == b.pv); sym_assert(eq == want, "equal exactly for the same kind and source"); sym_assert((a.r != b.r) == !want, "unequal"); sym_assert((b.r == a.r) == want, "symmetric"); sym_observe("eq", eq);
}
static std::string txt(const char* n, size_t mx) { size_t k = sym_size(n, 0, mx); std::string s(k, '\0'); for (auto& c : s) c = (char)sym_u8("c"); return s; }
template <class L> static void loc(std::string const& p, bool t) { L l(p, t); sym_assert(sym_same(std::string(l.path()), p), "path"); sym_assert(l.is_temporary() == t, "flag"); L c = l; SYM_ASSERT(c == l && !(c != l)); sym_assert(sym_same(std::string(c.path()), p), "copied path"); L v = std::move(c); sym_assert(sym_same(std::string(v.path()), p), "moved path"); sym_assert(v.is_temporary() == t, "moved flag"); L d; SYM_ASSERT(d.path().empty() && !d.is_temporary()); d = l; SYM_ASSERT(d == l); }
HARNESS(c33_lob_locator) {
    std::string p = txt("p", QT(2, 3)), q = txt("q", QT(2, 3)); bool t = sym_bool("t"), u = sym_bool("u"); loc<lob_locator>(p, t); loc<blob_locator>(p, t); loc<clob_locator>(p, t);
    lob_locator a(p, t), b(q, u); bool want = sym_and(sym_same(p, q), t == u); bool e = a == b; sym_assert(e == want, "equal exactly for equal path and flag"); sym_assert((a != b) == !want, "unequal"); sym_observe("e", e);
}
HARNESS(c33_lob_print) {
    std::string p = txt("p", 2); bool t = sym_choose(2, "t"); lob_locator l(p, t); size_t how = sym_choose(5, "how"), pv = sym_choose(4, "pv"); uint64_t id = 10 + sym_u8("id") % 16, tag = 10 + sym_u8("tag") % 16; bool ht = sym_choose(2, "ht"); lob_reference r; if (how == 1) r = lob_reference(l); if (how == 2) r = lob_reference(id); if (how == 3) r = lob_reference(id, static_cast<lob_data_provider>(pv)); if (ht) r.reference_tag(tag);
    auto num = [](uint64_t v) { std::string s; s += (char)('0' + v / 10); s += (char)('0' + v % 10); return s; }; static const char* PV[] = {"undefined", "datastore", "sql", "relay_service_session"}; static const char* K[] = {"undefined", "provided", "fetched", "resolved"};
    std::ostringstream ls; ls << l; std::string lw = "path:\"" + p + "\" is_temporary:" + (t ? "1" : "0"); sym_assert(sym_same(ls.str(), lw), "locator text"); if (how == 4) return;
    std::string w = std::string("kind:") + K[how]; if (how) { if (ht) w += ",tag:" + num(tag); if (how == 1) w += ",locator:{" + lw + "}"; else { w += ",id:" + num(id) + ",provider:"; w += how == 2 ? "datastore" : PV[pv]; } }
    std::ostringstream os; os << r; std::string g = os.str(); SYM_ASSERT(g.size() == w.size()); sym_assert(sym_same(g, w), "reference text"); sym_observe_bytes("g", g.data(), g.size());
}
HARNESS(c33_small_values) {
    using jogasaki::api::kvsservice::transaction_state; transaction_state d; SYM_ASSERT(d.kind() == transaction_state::state_kind::unknown); auto k = static_cast<transaction_state::state_kind>(sym_i64("k")); transaction_state s(k); sym_assert(s.kind() == k, "kind"); transaction_state c = s; d = s; sym_assert(c.kind() == k && d.kind() == k, "copy"); using E = transaction_state::state_kind; SYM_ASSERT((int)E::waiting_start == 1 && (int)E::started == 2 && (int)E::waiting_cc_commit == 3 && (int)E::aborted == 4 && (int)E::waiting_durable == 5 && (int)E::durable == 6);
    using jogasaki::scheduler::thread_info; thread_info e; SYM_ASSERT(!e.is_worker_thread() && e.worker_index() == thread_info::undefined && thread_info::undefined == (size_t)-1); bool w = sym_bool("w"); size_t i = sym_u64("i"); thread_info f(w, i); sym_assert(f.is_worker_thread() == w && f.worker_index() == i, "thread position");
    jogasaki::kvs::coding_context cc; SYM_ASSERT(!cc.coding_for_write()); cc.coding_for_write(w); sym_assert(cc.coding_for_write() == w, "purpose"); jogasaki::executor::io::record_channel_stats st; SYM_ASSERT(st.total_record_count() == 0); uint64_t a = sym_u64("a"), b = sym_u64("b"), x = sym_u64("x"); st.add_total_record(a); sym_assert(st.total_record_count() == a, "added"); st.add_total_record(b); sym_assert(st.total_record_count() == a + b, "accumulated"); st.total_record_count(x); sym_assert(st.total_record_count() == x, "set"); st.add_total_record(b); sym_assert(st.total_record_count() == x + b, "added after set");
}
