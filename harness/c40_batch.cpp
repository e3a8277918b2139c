//@property C40
//@src src/jogasaki/executor/batch/batch_executor.cpp src/jogasaki/executor/batch/batch_file_executor.cpp src/jogasaki/executor/batch/batch_block_executor.cpp src/jogasaki/executor/batch/batch_execution_state.cpp src/jogasaki/executor/batch/batch_execution_info.cpp src/jogasaki/executor/batch/batch_executor_option.cpp src/jogasaki/error/error_info.cpp src/jogasaki/accessor/record_ref.cpp
//@stubs
//@inc stubs_batch stubs_tbb
//@threads
//@entry c40_seq quick=60 thorough=400 preempt=0 | 0..3 files of 0..2 row groups (file and row group limits 1, 2 and none) of 0..2 rows, statements completing one at a time in every order
//@entry c40_conc quick=60 thorough=400 preempt=2 | two files of one row group of one row, limits 1 and none, every schedule with at most 2 preemptions (thorough 3)
//@entry c40_error quick=60 thorough=400 preempt=1 | two files, two rows, every subset of statements, commits, opens and transaction starts failing, at most 1 preemption
//@entry c40_state quick=60 thorough=400 preempt=6 | two or three threads reporting different errors and finishing one execution state, every schedule with at most 6 preemptions
#include "sym.h"
#include "fail_env.h"
#include <atomic>
#include "sp_lock.h"
#include <jogasaki/executor/batch/batch_executor.h>
#include <jogasaki/executor/batch/batch_file_executor.h>
#include <jogasaki/executor/batch/batch_block_executor.h>
#include <jogasaki/executor/executor.h>
#include <jogasaki/executor/file/parquet_reader.h>
#include <jogasaki/error/error_info_factory.h>
#include <jogasaki/api/impl/parameter_set.h>
#include <jogasaki/api/impl/prepared_statement.h>
using namespace jogasaki; using namespace jogasaki::executor::batch;
// the world around the batch executor: files[f][g] = number of rows of row group g of file f
static std::vector<std::vector<size_t>> files; static std::map<int64_t, int> executed; static size_t n_tx, n_commit, submitted, completed, opened, closed; static int done_calls; static bool errors, failed; static size_t at_done_completed, at_done_commits; static status first_err; static std::shared_ptr<batch_execution_state> stp;
static bool fails(const char* nm) { if (!errors || !sym_choose(2, nm)) return false; failed = true; return true; }
static std::map<int64_t, int64_t> values; static std::map<int, int64_t> last; // row values; the row each thread read last
struct rd : executor::file::parquet_reader { size_t f, g, i = 0; char b[16]; rd(size_t f_, size_t g_) : f(f_), g(g_) { opened++; } ~rd() override {} bool next(accessor::record_ref& r) override { if (i >= files[f][g]) return false; memset(b, 0, 16); int64_t id = (int64_t)(f * 100 + g * 10 + i); i++; auto& v = values[id]; v = (int64_t)sym_u64("row"); last[jsym_tid()] = id; r = accessor::record_ref{b, 16}; r.set_value<int64_t>(8, v); return true; } bool close() override { closed++; return true; } size_t row_group_count() const noexcept override { return files[f].size(); } };
namespace jogasaki::executor::file { std::shared_ptr<parquet_reader> parquet_reader::open(std::string_view p, reader_option const*, size_t g) { if (fails("open")) return {}; if (g != index_unspecified && g >= files[(size_t)(p[0] - '0')].size()) return {}; return std::make_shared<rd>((size_t)(p[0] - '0'), g); } }
namespace jogasaki { status transaction_context::commit() { if (fails("commit")) return status::err_serialization_failure; commits++; n_commit++; return status::ok; } }
namespace jogasaki::executor {
status create_transaction(std::shared_ptr<transaction_context>& out, std::shared_ptr<api::transaction_option>) { if (fails("begin")) return status::err_resource_limit_reached; out = std::make_shared<transaction_context>(); n_tx++; return status::ok; }
struct job { error_info_stats_callback cb; std::shared_ptr<transaction_context> tx; int64_t id; };
static std::vector<job*> queue; static bool spawning;
static void run(job* j) { executed[j->id]++; completed++; SYM_ASSERT(j->tx->commits == 0); if (fails("statement")) j->cb(status::err_unique_constraint_violation, error::stub_error(error_code::unique_constraint_violation_exception, "m", status::err_unique_constraint_violation), nullptr); else j->cb(status::ok, nullptr, nullptr); delete j; }
bool execute_async(api::impl::database&, std::shared_ptr<transaction_context> tx, std::shared_ptr<api::impl::prepared_statement>, std::shared_ptr<api::parameter_set> ps, std::nullptr_t, error_info_stats_callback cb) {
    submitted++; auto* j = new job{std::move(cb), std::move(tx), last.at(jsym_tid())}; sym_assert(static_cast<api::impl::parameter_set&>(*ps).body()->got.at("c") == values.at(j->id), "the statement runs with the values of its row"); if (spawning) jsym_spawn([](void* a) { run(static_cast<job*>(a)); }, j); else queue.push_back(j); return true; }
}
static void load(size_t mf, size_t mb) {
    auto ps = std::make_shared<api::impl::parameter_set>(); ps->b->e["c"] = plan::pentry{{meta::field_type_kind::reference_column_name}, {0, "c"}}; static api::impl::database db; std::vector<std::string> names; size_t rows = 0, groups = 0, filled = 0; for (size_t i = 0; i < files.size(); i++) { names.push_back(std::string(1, (char)('0' + i))); for (auto r : files[i]) { groups++; rows += r; filled += r > 0; } } int rel_files = 0, rel_blocks = 0; std::weak_ptr<batch_executor> weak;
    { batch_executor* raw = nullptr; auto ldr = batch_executor::create_batch_executor(names, batch_execution_info{std::make_shared<api::impl::prepared_statement>(), std::shared_ptr<api::parameter_set const>(ps), &db, [&] { done_calls++; at_done_completed = completed; at_done_commits = n_commit; if (stp) { auto ei = stp->error_info(); sym_assert((stp->status_code() != status::ok) == (ei != nullptr), "a reported error comes with its status, success with none"); } }, batch_executor_option{mf, mb, [&](batch_file_executor*) { rel_files++; }, [&](batch_block_executor*) { rel_blocks++; }}}); stp = ldr->state(); raw = ldr.get(); weak = ldr; ldr->bootstrap();
      auto& q = executor::queue; if (executor::spawning) jsym_join_all(); else while (!q.empty()) { size_t k = sym_choose((unsigned)q.size(), "next"); auto* j = q[k]; q.erase(q.begin() + (long)k); executor::run(j); }
      sym_assert(done_calls == 1, "completion reported exactly once"); SYM_ASSERT(stp->running_statements() == 0); SYM_ASSERT(stp->finished());
      for (auto& e : executed) sym_assert(e.second == 1, "no statement executed twice"); SYM_ASSERT(completed == submitted);
      if (!failed) { sym_assert(completed == rows && executed.size() == rows, "every row executed"); SYM_ASSERT(n_tx == groups && n_commit == groups); sym_assert(at_done_completed == rows && at_done_commits == groups, "completion reported only after every row is executed and committed"); SYM_ASSERT(stp->status_code() == status::ok && !stp->error_aborting() && !stp->error_info()); SYM_ASSERT(rel_files == (int)files.size()); SYM_ASSERT(rel_blocks == (int)groups); SYM_ASSERT(ldr->child_count() == 0); SYM_ASSERT(opened == closed + files.size()); }
      else { SYM_ASSERT(stp->error_aborting() && stp->error_info() && stp->status_code() != status::ok); SYM_ASSERT(stp->error_info()->status() == stp->status_code()); }
      SYM_ASSERT(rel_files <= (int)files.size() && rel_blocks <= (int)groups); stp.reset(); }
    SYM_ASSERT(weak.expired()); sym_observe("done", (uint64_t)done_calls);
}
static size_t lim(const char* nm) { static const size_t L[] = {1, 2, batch_executor_option::undefined}; return L[sym_choose(3, nm)]; }
HARNESS(c40_seq) { size_t nf = sym_size("files", 0, QT(2, 3)); for (size_t i = 0; i < nf; i++) { files.emplace_back(); size_t ng = sym_size("groups", 0, 2); for (size_t g = 0; g < ng; g++) files[i].push_back(sym_size("rows", 0, 2)); } load(lim("files_limit"), lim("groups_limit")); }
HARNESS(c40_conc) { static const std::vector<std::vector<size_t>> W[] = {{{1}, {1}}, {{1, 1}}, {{2}, {1}}, {{1}, {}, {1}}, {{1}, {0}, {1}}, {{1, 1}, {1}}}; files = W[sym_choose(6, "shape")]; executor::spawning = true; size_t l = sym_choose(2, "limit") ? batch_executor_option::undefined : 1; load(l, l); }
HARNESS(c40_error) { static const std::vector<std::vector<size_t>> W[] = {{{1}}, {{1, 1}}, {{1}, {1}}, {{2}}}; files = W[sym_choose(4, "shape")]; errors = true; executor::spawning = true; size_t l = sym_choose(2, "limit") ? batch_executor_option::undefined : 1; load(l, l); }
HARNESS(c40_state) {
    auto s = std::make_shared<batch_execution_state>(); int calls = 0, sets = 0; status got = status::ok; bool with_info = false; batch_execution_info info{nullptr, std::shared_ptr<api::parameter_set const>{}, nullptr, [&] { calls++; got = s->status_code(); with_info = s->error_info() != nullptr; }, {}}; status E[3]; for (auto& e : E) { e = (status)(int64_t)sym_u64("status"); sym_assume(e != status::ok); } status first = status::ok; size_t n = 2 + sym_choose(QT(1, 2), "three");
    struct arg { std::function<void()> f; }; std::vector<arg> th; for (size_t i = 0; i < n; i++) th.push_back({[&, i] { auto ei = error::stub_error(error_code::sql_execution_exception, "m", E[i]); if (s->set_error_status(E[i], ei)) { sets++; first = E[i]; SYM_ASSERT(s->error_info() == ei); } SYM_ASSERT(s->error_aborting()); finish(info, *s); SYM_ASSERT(s->finished()); }}); for (auto& t : th) jsym_spawn([](void* a) { static_cast<arg*>(a)->f(); }, &t); jsym_join_all();
    sym_assert(sets == 1, "exactly the first error is kept"); sym_assert(calls == 1, "completion reported exactly once"); sym_assert(s->error_info()->status() == first && s->status_code() == first && got == first, "the first error is reported with its own status"); sym_assert(with_info && got != status::ok, "completion sees the error and its status");
}
