//@property C32
//@src src/jogasaki/error/error_info.cpp src/jogasaki/api/impl/error_info.cpp src/jogasaki/udf/error_info.cpp
//@protoenum src/jogasaki/proto/sql/error.proto=jogasaki/proto/sql/error.pb.h
//@entry c32_names quick=60 thorough=60 | every enumerator of every status/kind enumeration of the public and internal headers (numeric code and reported name)
//@entry c32_map_error quick=60 thorough=60 | every error code, and every 32-bit value of the wire code (symbolic)
//@entry c32_error_info quick=60 thorough=200 | message of 0..6 symbolic bytes, every error code value (symbolic 64 bits), every status value (symbolic), copies
//@entry c32_supplement quick=60 thorough=200 | file, position and stack texts of up to 3 symbolic printable bytes each
//@entry c32_udf_error quick=30 thorough=60 | symbolic code and 0..5 byte message; every load status and outcome; values outside the enumerations
//@entry c32_load_result quick=30 thorough=60 | 0..3 byte symbolic texts, every status
#include "sym.h"
#include <jogasaki/error_code.h>
#include <jogasaki/key_distribution_kind.h>
#include <jogasaki/lob/lob_data_provider.h>
#include <jogasaki/lob/lob_reference_kind.h>
#include <jogasaki/status.h>
#include <jogasaki/data/any_sequence_stream_status.h>
#include <jogasaki/executor/file/time_unit_kind.h>
#include <jogasaki/executor/function/table_valued_function_kind.h>
#include <jogasaki/executor/process/impl/region_id.h>
#include <jogasaki/model/step_kind.h>
#include <jogasaki/model/task.h>
#include <jogasaki/scheduler/hybrid_execution_mode.h>
#include <jogasaki/scheduler/step_state.h>
#include <jogasaki/serializer/entry_type.h>
#include <jogasaki/serializer/value_input_exception.h>
#include <jogasaki/udf/enum_types.h>
#include <jogasaki/executor/dto/common_column.h>
#include <jogasaki/error/error_info.h>
#include <jogasaki/api/impl/error_info.h>
#include <jogasaki/udf/error_info.h>
#include <jogasaki/api/impl/map_error_code.h>
#include <jogasaki/api/kvsservice/status_message.h>
#include <jogasaki/executor/process/impl/region_id.h>

static void chk(const char* name, long long val, long long want, std::string_view text, const char* wtext) { (void)name; sym_assert(val == want, "documented numeric code"); sym_assert(text == wtext, "reported name"); sym_observe("v", (uint64_t)val); }
#include "c32_enums.inc"
HARNESS(c32_names) { chk_all(); }
namespace sql = jogasaki::proto::sql; using jogasaki::error_code;
HARNESS(c32_map_error) {
    using jogasaki::api::impl::map_error;
    int32_t c = sym_i32("wire"); error_code r = map_error(static_cast<sql::error::Code>(c)); bool known = false;
#define X(a, b) { bool m = c == static_cast<int32_t>(sql::error::b); known = sym_or(known, m); sym_assert(sym_or(!m, r == error_code::a), "wire code " #b " maps to " #a); SYM_ASSERT(map_error(error_code::a) == sql::error::b); }
    ERROR_CODES(X)
    sym_assert(sym_or(known, r == error_code::none), "unknown wire codes map to none");
    SYM_ASSERT(map_error(error_code::none) == sql::error::CODE_UNSPECIFIED);
    for (auto e : {error_code::request_canceled, error_code::lob_file_io_error, error_code::lob_reference_invalid, error_code::operation_denied, error_code::permission_error, error_code::unknown_internal_error}) SYM_ASSERT(map_error(e) == sql::error::SQL_SERVICE_EXCEPTION);
}
HARNESS(c32_error_info) {
    size_t n = sym_size("n", 0, 6); std::string msg = sym_string(n, "m"); auto code = static_cast<error_code>(sym_i64("code")); auto st = static_cast<jogasaki::status>(sym_i64("st"));
    jogasaki::error::error_info e(code, msg, "file.cpp", "12", ""); SYM_ASSERT(e.code() == code); sym_assert(sym_same(e.message(), msg), "message kept"); SYM_ASSERT(e.source_file_path() == "file.cpp"); SYM_ASSERT(e.source_file_position() == "12"); SYM_ASSERT(e.status() == jogasaki::status::ok); SYM_ASSERT(static_cast<bool>(e) == (code != error_code::none));
    SYM_ASSERT(e.supplemental_text() == "{\"source_file\":\"file.cpp:12\"}"); e.status(st); SYM_ASSERT(e.status() == st); SYM_ASSERT(e.additional_text().empty()); e.additional_text(msg); sym_assert(sym_same(e.additional_text(), msg), "additional text kept"); sym_assert(sym_same(e.message(), msg), "message unchanged");
    auto body = std::make_shared<jogasaki::error::error_info>(e); auto a = jogasaki::api::impl::error_info::create(body); SYM_ASSERT(a != nullptr); jogasaki::api::error_info const& v = *a; SYM_ASSERT(v.code() == code); SYM_ASSERT(v.status() == st); sym_assert(sym_same(v.message(), msg), "message through the interface"); SYM_ASSERT(v.supplemental_text() == e.supplemental_text()); SYM_ASSERT(a->body() == body); SYM_ASSERT(jogasaki::api::impl::error_info::create(nullptr) == nullptr);
    jogasaki::error::error_info d; SYM_ASSERT(!d); SYM_ASSERT(d.code() == error_code::none); SYM_ASSERT(d.message().empty()); d = std::move(e); SYM_ASSERT(d.code() == code); SYM_ASSERT(d.status() == st); sym_assert(sym_same(d.message(), msg), "message moved");
    auto kst = static_cast<jogasaki::api::kvsservice::status>(st); jogasaki::api::kvsservice::status_message sm(kst, msg); SYM_ASSERT(sm.status_code() == kst); SYM_ASSERT((sm.message() == nullptr) == (n == 0)); if (n) sym_assert(sym_same(*sm.message(), msg), "kvs message kept"); SYM_ASSERT(jogasaki::api::kvsservice::status_message(kst).message() == nullptr);
    sym_observe_bytes("m", msg.data(), n);
}
static std::string pr(size_t n, const char* nm) { std::string s = sym_string(n, nm); for (char c : s) sym_assume(sym_and(sym_and(c >= 0x20, c < 0x7f), sym_and(c != '"', c != '\\'))); return s; }
HARNESS(c32_supplement) {
    std::string f = pr(sym_size("nf", 0, 3), "f"), p = pr(sym_size("np", 0, 2), "p"), s = pr(sym_size("ns", 0, 3), "s"); jogasaki::error::error_info e(error_code::sql_execution_exception, "x", f, p, s);
    std::string want = "{\"source_file\":\"" + f + ":" + p + "\"" + (s.empty() ? std::string() : ",\"stacktrace\":\"" + s + "\"") + "}"; sym_assert(sym_same(e.supplemental_text(), want), "supplemental text names the place and the stack"); sym_assert(sym_same(e.source_file_path(), f), "path kept"); sym_assert(sym_same(e.source_file_position(), p), "position kept"); sym_observe_bytes("t", want.data(), want.size());
}
using namespace plugin::udf;
HARNESS(c32_udf_error) {
    std::string m = sym_string(sym_size("n", 0, 5), "m"); auto c = static_cast<grpc::StatusCode>(sym_i32("c")); plugin::udf::error_info e(c, m); SYM_ASSERT(e.code() == c); sym_assert(sym_same(e.message(), m), "message kept");
    static const char* names[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
    int k = (int)sym_choose(19, "k"); SYM_ASSERT(plugin::udf::to_string_view(static_cast<grpc::StatusCode>(k)) == (k < 17 ? names[k] : "UNKNOWN_CODE"));
    auto ls = static_cast<load_status>(sym_choose(20, "ls")); bool skip = false, fail = false;
    for (auto x : {load_status::udf_disabled, load_status::deps_not_found, load_status::path_is_empty, load_status::no_ini_and_so_files, load_status::no_ini_files, load_status::not_regular_file_or_dir, load_status::no_shared_objects_found, load_status::ini_so_pair_mismatch, load_status::ini_invalid, load_status::message_name_duplicated}) if (ls == x) skip = true;
    fail = !skip && ls != load_status::ok; SYM_ASSERT(classify(ls) == (skip ? load_outcome::skipped : fail ? load_outcome::fail : load_outcome::ok)); sym_observe("o", (uint64_t)classify(ls));
}
HARNESS(c32_load_result) {
    std::string f = sym_string(sym_size("nf", 0, 3), "f"), d = sym_string(sym_size("nd", 0, 3), "d"); auto st = static_cast<load_status>(sym_choose(20, "st")), s2 = static_cast<load_status>(19 - (int)st); load_result r(st, f, d); SYM_ASSERT(r.status() == st); sym_assert(sym_same(r.file(), f), "file kept"); sym_assert(sym_same(r.detail(), d), "detail kept");
    r.set_status(s2); SYM_ASSERT(r.status() == s2); sym_assert(sym_same(r.file(), f), "file kept"); r.set_file(d); sym_assert(sym_same(r.file(), d), "file set"); sym_assert(sym_same(r.detail(), d), "detail kept"); r.set_detail(f); sym_assert(sym_same(r.detail(), f), "detail set"); sym_assert(sym_same(r.file(), d), "file kept"); SYM_ASSERT(r.status() == s2);
}
