//@property C21
//@src src/jogasaki/utils/use_counter.cpp src/jogasaki/request_statistics.cpp src/jogasaki/utils/watch.cpp
//@entry c21_use_counter quick=120 thorough=600 | every history of 4 (thorough 5) operations from {copy-construct, copy-assign, move-construct, move-assign, reset, destroy} over 3 holders, operands enumerated (self-assignment by copy included)
//@entry c21_statistics quick=60 thorough=300 | 3 additions of symbolic 64-bit amounts (no overflow) to enumerated kinds; copy and move of the statistics; symbolic start and end times
//@entry c21_statistics_each quick=60 thorough=200 | every subset of the six kinds set, amounts symbolic
//@entry c21_names quick=10 thorough=20 | every counter kind
//@entry c21_watch quick=60 thorough=300 | 3 point recordings over 2 workers and 3 points (enumerated), then every pair for duration, average and list
//@ubsan signed-integer-overflow
#include "sym.h"
#include <map>
#include <jogasaki/utils/use_counter.h>
#include <jogasaki/utils/watch.h>
#include <jogasaki/request_statistics.h>
using jogasaki::utils::use_counter;
HARNESS(c21_use_counter) {
    use_counter* h[3] = {new use_counter, nullptr, nullptr}; int grp[3] = {0, -1, -1}; int ng = 1;
    auto check = [&] { for (int i = 0; i < 3; i++) if (h[i]) { size_t n = 0; for (int j = 0; j < 3; j++) if (h[j] && grp[j] == grp[i]) n++; sym_assert(h[i]->count() == n, "count equals the number of holders sharing it"); } };
    check();
    for (int s = 0; s < QT(4, 5); s++) {
        int op = (int)sym_choose(7, "op"), a = (int)sym_choose(3, "a"), b = (op == 4 || op == 5 || op == 6) ? a : (int)sym_choose(3, "b");
        bool ok = op == 0 || op == 2 ? h[a] && !h[b] : op == 1 ? h[a] && h[b] : op == 3 ? h[a] && h[b] && a != b : op == 6 ? !h[a] : h[a] != nullptr; sym_assume(ok); // inapplicable steps are not histories
        switch (op) {
        case 0: if (h[a] && !h[b]) { h[b] = new use_counter(*h[a]); grp[b] = grp[a]; } break;
        case 1: if (h[a] && h[b]) { *h[b] = *h[a]; grp[b] = grp[a]; } break;
        case 2: if (h[a] && !h[b]) { h[b] = new use_counter(std::move(*h[a])); grp[b] = grp[a]; grp[a] = ng++; } break;
        case 3: if (h[a] && h[b] && a != b) { *h[b] = std::move(*h[a]); grp[b] = grp[a]; grp[a] = ng++; } break;
        case 4: if (h[a]) { h[a]->reset(); grp[a] = ng++; } break;
        case 5: if (h[a]) { delete h[a]; h[a] = nullptr; } break;
        default: if (!h[a]) { h[a] = new use_counter; grp[a] = ng++; } break; }
        check();
    }
    size_t tot = 0; for (int i = 0; i < 3; i++) if (h[i]) tot = tot * 4 + h[i]->count(); sym_observe("tot", tot); for (auto* p : h) delete p;
}
using namespace jogasaki;
static counter_kind KS[6] = {counter_kind::undefined, counter_kind::inserted, counter_kind::updated, counter_kind::merged, counter_kind::deleted, counter_kind::fetched};
HARNESS(c21_statistics) {
    auto stp = std::make_shared<request_statistics>(); request_statistics& st = *stp; int64_t sum[6] = {}; bool has[6] = {};
    for (int i = 0; i < 3; i++) { size_t k = sym_choose(6, "k"); int64_t v = sym_range("v", -(1LL << 61), 1LL << 61); if (i == 2 && sym_choose(2, "touch")) { st.counter(KS[k]); continue; } st.counter(KS[k]).count(v); sum[k] += v; has[k] = true; }
    auto chk = [&](request_statistics& s) { for (int k = 0; k < 6; k++) { auto& c = s.counter(KS[k]); SYM_ASSERT(c.has_value() == has[k]); SYM_ASSERT(c.count().has_value() == has[k]); if (has[k]) { SYM_ASSERT(*c.count() == sum[k]); sym_observe("c", *c.count()); } } };
    using clk = request_statistics::clock; int64_t t0 = sym_range("t0", 0, 1LL << 61), t1 = sym_range("t1", 0, 1LL << 61); st.start_time(clk::time_point(clk::duration(t0))); st.end_time(clk::time_point(clk::duration(t1))); SYM_ASSERT(st.duration<std::chrono::nanoseconds>().count() == t1 - t0);
    chk(st); request_statistics cp = st; chk(cp); SYM_ASSERT(cp.duration<std::chrono::nanoseconds>().count() == t1 - t0); st.counter(counter_kind::merged).count(1); chk(cp); request_statistics mv = std::move(cp); chk(mv);
}
HARNESS(c21_statistics_each) {
    request_statistics st; bool has[6]; int64_t v[6]; for (int k = 0; k < 6; k++) { has[k] = sym_choose(2, "has") != 0; v[k] = sym_i64("v"); if (has[k]) st.counter(KS[k]).count(v[k]); else if (k == 2) st.counter(KS[k]); }
    int seen[6] = {}; st.each_counter([&](counter_kind k, request_execution_counter const& c) { SYM_ASSERT((int)k >= 0 && (int)k < 6); seen[(int)k]++; SYM_ASSERT(c.has_value()); SYM_ASSERT(*c.count() == v[(int)k]); });
    for (int k = 0; k < 6; k++) SYM_ASSERT(seen[k] == (has[k] ? 1 : 0));
}
HARNESS(c21_names) { const char* n[6] = {"undefined", "inserted", "updated", "merged", "deleted", "fetched"}; size_t k = sym_choose(6, "k"); SYM_ASSERT(to_string_view(KS[k]) == n[k]); SYM_ASSERT((int)KS[k] == (int)k); }
HARNESS(c21_watch) {
    using W = jogasaki::utils::watch; using D = std::chrono::milliseconds; W w; auto base = w.base(); SYM_ASSERT(w.view_first(W::npos) == base); SYM_ASSERT(w.view_last(W::npos) == base);
    bool set[2][3] = {}; W::Clock::time_point last = base; W::Clock::time_point tp[2][3]; 
    for (int i = 0; i < 3; i++) { size_t p = sym_choose(3, "p"), k = sym_choose(2, "w"); bool r = w.set_point(p, k); SYM_ASSERT(r == !set[k][p]); if (!set[k][p]) { set[k][p] = true; } auto l = w.view_last(p); SYM_ASSERT(l >= base); if (r) { SYM_ASSERT(l > last); last = l; tp[k][p] = l; } }
    for (size_t p = 0; p < 3; p++) { W::Clock::time_point f{}, l{}; bool any = false; for (int k = 0; k < 2; k++) if (set[k][p]) { if (!any || tp[k][p] < f) f = tp[k][p]; if (!any || tp[k][p] > l) l = tp[k][p]; any = true; } SYM_ASSERT(w.view_first(p) == f); SYM_ASSERT(w.view_last(p) == l); }
    for (size_t p = 0; p < 3; p++) for (size_t q = 0; q < 3; q++) { bool sp = set[0][p] || set[1][p], sq = set[0][q] || set[1][q]; if (!sp || !sq) continue; SYM_ASSERT(w.duration(p, q) == (size_t)std::chrono::duration_cast<D>(w.view_last(q) - w.view_first(p)).count()); SYM_ASSERT(w.duration(p, q, true) == (size_t)std::chrono::duration_cast<D>(w.view_first(q) - w.view_last(p)).count()); size_t n = 0; for (int k = 0; k < 2; k++) if (set[k][p] || set[k][q]) n++; SYM_ASSERT(w.durations(p, q)->size() == n); }
    w.restart(); SYM_ASSERT(w.base() > last); SYM_ASSERT(w.set_point(1, 1));
}
