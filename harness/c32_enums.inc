// frozen table: every enumerator, its numeric value and its reported name (one function per enumeration)
static void chk_jogasaki_error_code(size_t i) { using E = jogasaki::error_code; switch (i) {
case 0: chk("none", (long long)E::none, 0, jogasaki::to_string_view(E::none), "none"); break;
case 1: chk("sql_service_exception", (long long)E::sql_service_exception, 1000, jogasaki::to_string_view(E::sql_service_exception), "sql_service_exception"); break;
case 2: chk("sql_execution_exception", (long long)E::sql_execution_exception, 2000, jogasaki::to_string_view(E::sql_execution_exception), "sql_execution_exception"); break;
case 3: chk("constraint_violation_exception", (long long)E::constraint_violation_exception, 2001, jogasaki::to_string_view(E::constraint_violation_exception), "constraint_violation_exception"); break;
case 4: chk("unique_constraint_violation_exception", (long long)E::unique_constraint_violation_exception, 2002, jogasaki::to_string_view(E::unique_constraint_violation_exception), "unique_constraint_violation_exception"); break;
case 5: chk("not_null_constraint_violation_exception", (long long)E::not_null_constraint_violation_exception, 2003, jogasaki::to_string_view(E::not_null_constraint_violation_exception), "not_null_constraint_violation_exception"); break;
case 6: chk("referential_integrity_constraint_violation_exception", (long long)E::referential_integrity_constraint_violation_exception, 2004, jogasaki::to_string_view(E::referential_integrity_constraint_violation_exception), "referential_integrity_constraint_violation_exception"); break;
case 7: chk("check_constraint_violation_exception", (long long)E::check_constraint_violation_exception, 2005, jogasaki::to_string_view(E::check_constraint_violation_exception), "check_constraint_violation_exception"); break;
case 8: chk("evaluation_exception", (long long)E::evaluation_exception, 2010, jogasaki::to_string_view(E::evaluation_exception), "evaluation_exception"); break;
case 9: chk("value_evaluation_exception", (long long)E::value_evaluation_exception, 2011, jogasaki::to_string_view(E::value_evaluation_exception), "value_evaluation_exception"); break;
case 10: chk("scalar_subquery_evaluation_exception", (long long)E::scalar_subquery_evaluation_exception, 2012, jogasaki::to_string_view(E::scalar_subquery_evaluation_exception), "scalar_subquery_evaluation_exception"); break;
case 11: chk("target_not_found_exception", (long long)E::target_not_found_exception, 2014, jogasaki::to_string_view(E::target_not_found_exception), "target_not_found_exception"); break;
case 12: chk("target_already_exists_exception", (long long)E::target_already_exists_exception, 2016, jogasaki::to_string_view(E::target_already_exists_exception), "target_already_exists_exception"); break;
case 13: chk("inconsistent_statement_exception", (long long)E::inconsistent_statement_exception, 2018, jogasaki::to_string_view(E::inconsistent_statement_exception), "inconsistent_statement_exception"); break;
case 14: chk("restricted_operation_exception", (long long)E::restricted_operation_exception, 2020, jogasaki::to_string_view(E::restricted_operation_exception), "restricted_operation_exception"); break;
case 15: chk("dependencies_violation_exception", (long long)E::dependencies_violation_exception, 2021, jogasaki::to_string_view(E::dependencies_violation_exception), "dependencies_violation_exception"); break;
case 16: chk("write_operation_by_rtx_exception", (long long)E::write_operation_by_rtx_exception, 2022, jogasaki::to_string_view(E::write_operation_by_rtx_exception), "write_operation_by_rtx_exception"); break;
case 17: chk("ltx_write_operation_without_write_preserve_exception", (long long)E::ltx_write_operation_without_write_preserve_exception, 2023, jogasaki::to_string_view(E::ltx_write_operation_without_write_preserve_exception), "ltx_write_operation_without_write_preserve_exception"); break;
case 18: chk("read_operation_on_restricted_read_area_exception", (long long)E::read_operation_on_restricted_read_area_exception, 2024, jogasaki::to_string_view(E::read_operation_on_restricted_read_area_exception), "read_operation_on_restricted_read_area_exception"); break;
case 19: chk("inactive_transaction_exception", (long long)E::inactive_transaction_exception, 2025, jogasaki::to_string_view(E::inactive_transaction_exception), "inactive_transaction_exception"); break;
case 20: chk("parameter_exception", (long long)E::parameter_exception, 2027, jogasaki::to_string_view(E::parameter_exception), "parameter_exception"); break;
case 21: chk("unresolved_placeholder_exception", (long long)E::unresolved_placeholder_exception, 2028, jogasaki::to_string_view(E::unresolved_placeholder_exception), "unresolved_placeholder_exception"); break;
case 22: chk("load_file_exception", (long long)E::load_file_exception, 2030, jogasaki::to_string_view(E::load_file_exception), "load_file_exception"); break;
case 23: chk("load_file_not_found_exception", (long long)E::load_file_not_found_exception, 2031, jogasaki::to_string_view(E::load_file_not_found_exception), "load_file_not_found_exception"); break;
case 24: chk("load_file_format_exception", (long long)E::load_file_format_exception, 2032, jogasaki::to_string_view(E::load_file_format_exception), "load_file_format_exception"); break;
case 25: chk("dump_file_exception", (long long)E::dump_file_exception, 2033, jogasaki::to_string_view(E::dump_file_exception), "dump_file_exception"); break;
case 26: chk("dump_directory_inaccessible_exception", (long long)E::dump_directory_inaccessible_exception, 2034, jogasaki::to_string_view(E::dump_directory_inaccessible_exception), "dump_directory_inaccessible_exception"); break;
case 27: chk("sql_limit_reached_exception", (long long)E::sql_limit_reached_exception, 2036, jogasaki::to_string_view(E::sql_limit_reached_exception), "sql_limit_reached_exception"); break;
case 28: chk("transaction_exceeded_limit_exception", (long long)E::transaction_exceeded_limit_exception, 2037, jogasaki::to_string_view(E::transaction_exceeded_limit_exception), "transaction_exceeded_limit_exception"); break;
case 29: chk("sql_request_timeout_exception", (long long)E::sql_request_timeout_exception, 2039, jogasaki::to_string_view(E::sql_request_timeout_exception), "sql_request_timeout_exception"); break;
case 30: chk("data_corruption_exception", (long long)E::data_corruption_exception, 2041, jogasaki::to_string_view(E::data_corruption_exception), "data_corruption_exception"); break;
case 31: chk("secondary_index_corruption_exception", (long long)E::secondary_index_corruption_exception, 2042, jogasaki::to_string_view(E::secondary_index_corruption_exception), "secondary_index_corruption_exception"); break;
case 32: chk("request_failure_exception", (long long)E::request_failure_exception, 2044, jogasaki::to_string_view(E::request_failure_exception), "request_failure_exception"); break;
case 33: chk("transaction_not_found_exception", (long long)E::transaction_not_found_exception, 2045, jogasaki::to_string_view(E::transaction_not_found_exception), "transaction_not_found_exception"); break;
case 34: chk("statement_not_found_exception", (long long)E::statement_not_found_exception, 2046, jogasaki::to_string_view(E::statement_not_found_exception), "statement_not_found_exception"); break;
case 35: chk("internal_exception", (long long)E::internal_exception, 2048, jogasaki::to_string_view(E::internal_exception), "internal_exception"); break;
case 36: chk("unsupported_runtime_feature_exception", (long long)E::unsupported_runtime_feature_exception, 2050, jogasaki::to_string_view(E::unsupported_runtime_feature_exception), "unsupported_runtime_feature_exception"); break;
case 37: chk("blocked_by_high_priority_transaction_exception", (long long)E::blocked_by_high_priority_transaction_exception, 2052, jogasaki::to_string_view(E::blocked_by_high_priority_transaction_exception), "blocked_by_high_priority_transaction_exception"); break;
case 38: chk("invalid_runtime_value_exception", (long long)E::invalid_runtime_value_exception, 2054, jogasaki::to_string_view(E::invalid_runtime_value_exception), "invalid_runtime_value_exception"); break;
case 39: chk("value_out_of_range_exception", (long long)E::value_out_of_range_exception, 2056, jogasaki::to_string_view(E::value_out_of_range_exception), "value_out_of_range_exception"); break;
case 40: chk("value_too_long_exception", (long long)E::value_too_long_exception, 2058, jogasaki::to_string_view(E::value_too_long_exception), "value_too_long_exception"); break;
case 41: chk("invalid_decimal_value_exception", (long long)E::invalid_decimal_value_exception, 2060, jogasaki::to_string_view(E::invalid_decimal_value_exception), "invalid_decimal_value_exception"); break;
case 42: chk("compile_exception", (long long)E::compile_exception, 3000, jogasaki::to_string_view(E::compile_exception), "compile_exception"); break;
case 43: chk("syntax_exception", (long long)E::syntax_exception, 3001, jogasaki::to_string_view(E::syntax_exception), "syntax_exception"); break;
case 44: chk("analyze_exception", (long long)E::analyze_exception, 3002, jogasaki::to_string_view(E::analyze_exception), "analyze_exception"); break;
case 45: chk("type_analyze_exception", (long long)E::type_analyze_exception, 3003, jogasaki::to_string_view(E::type_analyze_exception), "type_analyze_exception"); break;
case 46: chk("symbol_analyze_exception", (long long)E::symbol_analyze_exception, 3004, jogasaki::to_string_view(E::symbol_analyze_exception), "symbol_analyze_exception"); break;
case 47: chk("value_analyze_exception", (long long)E::value_analyze_exception, 3005, jogasaki::to_string_view(E::value_analyze_exception), "value_analyze_exception"); break;
case 48: chk("unsupported_compiler_feature_exception", (long long)E::unsupported_compiler_feature_exception, 3010, jogasaki::to_string_view(E::unsupported_compiler_feature_exception), "unsupported_compiler_feature_exception"); break;
case 49: chk("cc_exception", (long long)E::cc_exception, 4000, jogasaki::to_string_view(E::cc_exception), "cc_exception"); break;
case 50: chk("occ_exception", (long long)E::occ_exception, 4001, jogasaki::to_string_view(E::occ_exception), "occ_exception"); break;
case 51: chk("occ_read_exception", (long long)E::occ_read_exception, 4010, jogasaki::to_string_view(E::occ_read_exception), "occ_read_exception"); break;
case 52: chk("conflict_on_write_preserve_exception", (long long)E::conflict_on_write_preserve_exception, 4015, jogasaki::to_string_view(E::conflict_on_write_preserve_exception), "conflict_on_write_preserve_exception"); break;
case 53: chk("occ_write_exception", (long long)E::occ_write_exception, 4011, jogasaki::to_string_view(E::occ_write_exception), "occ_write_exception"); break;
case 54: chk("ltx_exception", (long long)E::ltx_exception, 4003, jogasaki::to_string_view(E::ltx_exception), "ltx_exception"); break;
case 55: chk("ltx_read_exception", (long long)E::ltx_read_exception, 4013, jogasaki::to_string_view(E::ltx_read_exception), "ltx_read_exception"); break;
case 56: chk("ltx_write_exception", (long long)E::ltx_write_exception, 4014, jogasaki::to_string_view(E::ltx_write_exception), "ltx_write_exception"); break;
case 57: chk("rtx_exception", (long long)E::rtx_exception, 4005, jogasaki::to_string_view(E::rtx_exception), "rtx_exception"); break;
case 58: chk("blocked_by_concurrent_operation_exception", (long long)E::blocked_by_concurrent_operation_exception, 4007, jogasaki::to_string_view(E::blocked_by_concurrent_operation_exception), "blocked_by_concurrent_operation_exception"); break;
case 59: chk("request_canceled", (long long)E::request_canceled, 50011, jogasaki::to_string_view(E::request_canceled), "request_canceled"); break;
case 60: chk("lob_file_io_error", (long long)E::lob_file_io_error, 50012, jogasaki::to_string_view(E::lob_file_io_error), "lob_file_io_error"); break;
case 61: chk("lob_reference_invalid", (long long)E::lob_reference_invalid, 50013, jogasaki::to_string_view(E::lob_reference_invalid), "lob_reference_invalid"); break;
case 62: chk("operation_denied", (long long)E::operation_denied, 50014, jogasaki::to_string_view(E::operation_denied), "operation_denied"); break;
case 63: chk("permission_error", (long long)E::permission_error, 50015, jogasaki::to_string_view(E::permission_error), "permission_error"); break;
case 64: chk("unknown_internal_error", (long long)E::unknown_internal_error, 50016, jogasaki::to_string_view(E::unknown_internal_error), "unknown_internal_error"); break;
} }
#define N_jogasaki_error_code 65
static void chk_jogasaki_key_distribution_kind(size_t i) { using E = jogasaki::key_distribution_kind; switch (i) {
case 0: chk("undefined", (long long)E::undefined, -1, jogasaki::to_string_view(E::undefined), "undefined"); break;
case 1: chk("simple", (long long)E::simple, 0, jogasaki::to_string_view(E::simple), "simple"); break;
case 2: chk("uniform", (long long)E::uniform, 1, jogasaki::to_string_view(E::uniform), "uniform"); break;
case 3: chk("sampling", (long long)E::sampling, 2, jogasaki::to_string_view(E::sampling), "sampling"); break;
} }
#define N_jogasaki_key_distribution_kind 4
static void chk_jogasaki_lob_lob_data_provider(size_t i) { using E = jogasaki::lob::lob_data_provider; switch (i) {
case 0: chk("undefined", (long long)E::undefined, 0, jogasaki::lob::to_string_view(E::undefined), "undefined"); break;
case 1: chk("datastore", (long long)E::datastore, 1, jogasaki::lob::to_string_view(E::datastore), "datastore"); break;
case 2: chk("sql", (long long)E::sql, 2, jogasaki::lob::to_string_view(E::sql), "sql"); break;
case 3: chk("relay_service_session", (long long)E::relay_service_session, 3, jogasaki::lob::to_string_view(E::relay_service_session), "relay_service_session"); break;
} }
#define N_jogasaki_lob_lob_data_provider 4
static void chk_jogasaki_lob_lob_reference_kind(size_t i) { using E = jogasaki::lob::lob_reference_kind; switch (i) {
case 0: chk("undefined", (long long)E::undefined, 0, jogasaki::lob::to_string_view(E::undefined), "undefined"); break;
case 1: chk("provided", (long long)E::provided, 1, jogasaki::lob::to_string_view(E::provided), "provided"); break;
case 2: chk("fetched", (long long)E::fetched, 2, jogasaki::lob::to_string_view(E::fetched), "fetched"); break;
case 3: chk("resolved", (long long)E::resolved, 3, jogasaki::lob::to_string_view(E::resolved), "resolved"); break;
} }
#define N_jogasaki_lob_lob_reference_kind 4
static void chk_jogasaki_status(size_t i) { using E = jogasaki::status; switch (i) {
case 0: chk("ok", (long long)E::ok, 0, jogasaki::to_string_view(E::ok), "ok"); break;
case 1: chk("not_found", (long long)E::not_found, 1, jogasaki::to_string_view(E::not_found), "not_found"); break;
case 2: chk("already_exists", (long long)E::already_exists, 2, jogasaki::to_string_view(E::already_exists), "already_exists"); break;
case 3: chk("user_rollback", (long long)E::user_rollback, 3, jogasaki::to_string_view(E::user_rollback), "user_rollback"); break;
case 4: chk("concurrent_operation", (long long)E::concurrent_operation, 4, jogasaki::to_string_view(E::concurrent_operation), "concurrent_operation"); break;
case 5: chk("request_canceled", (long long)E::request_canceled, 5, jogasaki::to_string_view(E::request_canceled), "request_canceled"); break;
case 6: chk("err_unknown", (long long)E::err_unknown, -1, jogasaki::to_string_view(E::err_unknown), "err_unknown"); break;
case 7: chk("err_io_error", (long long)E::err_io_error, -2, jogasaki::to_string_view(E::err_io_error), "err_io_error"); break;
case 8: chk("err_parse_error", (long long)E::err_parse_error, -3, jogasaki::to_string_view(E::err_parse_error), "err_parse_error"); break;
case 9: chk("err_translator_error", (long long)E::err_translator_error, -4, jogasaki::to_string_view(E::err_translator_error), "err_translator_error"); break;
case 10: chk("err_compiler_error", (long long)E::err_compiler_error, -5, jogasaki::to_string_view(E::err_compiler_error), "err_compiler_error"); break;
case 11: chk("err_invalid_argument", (long long)E::err_invalid_argument, -6, jogasaki::to_string_view(E::err_invalid_argument), "err_invalid_argument"); break;
case 12: chk("err_invalid_state", (long long)E::err_invalid_state, -7, jogasaki::to_string_view(E::err_invalid_state), "err_invalid_state"); break;
case 13: chk("err_unsupported", (long long)E::err_unsupported, -8, jogasaki::to_string_view(E::err_unsupported), "err_unsupported"); break;
case 14: chk("err_user_error", (long long)E::err_user_error, -9, jogasaki::to_string_view(E::err_user_error), "err_user_error"); break;
case 15: chk("err_aborted", (long long)E::err_aborted, -10, jogasaki::to_string_view(E::err_aborted), "err_aborted"); break;
case 16: chk("err_serialization_failure", (long long)E::err_serialization_failure, -11, jogasaki::to_string_view(E::err_serialization_failure), "err_serialization_failure"); break;
case 17: chk("err_not_found", (long long)E::err_not_found, -12, jogasaki::to_string_view(E::err_not_found), "err_not_found"); break;
case 18: chk("err_already_exists", (long long)E::err_already_exists, -13, jogasaki::to_string_view(E::err_already_exists), "err_already_exists"); break;
case 19: chk("err_inconsistent_index", (long long)E::err_inconsistent_index, -14, jogasaki::to_string_view(E::err_inconsistent_index), "err_inconsistent_index"); break;
case 20: chk("err_time_out", (long long)E::err_time_out, -15, jogasaki::to_string_view(E::err_time_out), "err_time_out"); break;
case 21: chk("err_integrity_constraint_violation", (long long)E::err_integrity_constraint_violation, -16, jogasaki::to_string_view(E::err_integrity_constraint_violation), "err_integrity_constraint_violation"); break;
case 22: chk("err_expression_evaluation_failure", (long long)E::err_expression_evaluation_failure, -17, jogasaki::to_string_view(E::err_expression_evaluation_failure), "err_expression_evaluation_failure"); break;
case 23: chk("err_unresolved_host_variable", (long long)E::err_unresolved_host_variable, -18, jogasaki::to_string_view(E::err_unresolved_host_variable), "err_unresolved_host_variable"); break;
case 24: chk("err_type_mismatch", (long long)E::err_type_mismatch, -19, jogasaki::to_string_view(E::err_type_mismatch), "err_type_mismatch"); break;
case 25: chk("err_not_implemented", (long long)E::err_not_implemented, -20, jogasaki::to_string_view(E::err_not_implemented), "err_not_implemented"); break;
case 26: chk("err_illegal_operation", (long long)E::err_illegal_operation, -21, jogasaki::to_string_view(E::err_illegal_operation), "err_illegal_operation"); break;
case 27: chk("err_missing_operation_target", (long long)E::err_missing_operation_target, -22, jogasaki::to_string_view(E::err_missing_operation_target), "err_missing_operation_target"); break;
case 28: chk("err_conflict_on_write_preserve", (long long)E::err_conflict_on_write_preserve, -23, jogasaki::to_string_view(E::err_conflict_on_write_preserve), "err_conflict_on_write_preserve"); break;
case 29: chk("err_inactive_transaction", (long long)E::err_inactive_transaction, -24, jogasaki::to_string_view(E::err_inactive_transaction), "err_inactive_transaction"); break;
case 30: chk("err_resource_limit_reached", (long long)E::err_resource_limit_reached, -25, jogasaki::to_string_view(E::err_resource_limit_reached), "err_resource_limit_reached"); break;
case 31: chk("err_data_corruption", (long long)E::err_data_corruption, -26, jogasaki::to_string_view(E::err_data_corruption), "err_data_corruption"); break;
case 32: chk("err_unique_constraint_violation", (long long)E::err_unique_constraint_violation, -27, jogasaki::to_string_view(E::err_unique_constraint_violation), "err_unique_constraint_violation"); break;
case 33: chk("err_write_without_write_preserve", (long long)E::err_write_without_write_preserve, -28, jogasaki::to_string_view(E::err_write_without_write_preserve), "err_write_without_write_preserve"); break;
case 34: chk("err_read_area_violation", (long long)E::err_read_area_violation, -29, jogasaki::to_string_view(E::err_read_area_violation), "err_read_area_violation"); break;
case 35: chk("err_write_operation_by_rtx", (long long)E::err_write_operation_by_rtx, -30, jogasaki::to_string_view(E::err_write_operation_by_rtx), "err_write_operation_by_rtx"); break;
case 36: chk("err_invalid_key_length", (long long)E::err_invalid_key_length, -31, jogasaki::to_string_view(E::err_invalid_key_length), "err_invalid_key_length"); break;
case 37: chk("err_insufficient_field_storage", (long long)E::err_insufficient_field_storage, -32, jogasaki::to_string_view(E::err_insufficient_field_storage), "err_insufficient_field_storage"); break;
case 38: chk("err_invalid_runtime_value", (long long)E::err_invalid_runtime_value, -33, jogasaki::to_string_view(E::err_invalid_runtime_value), "err_invalid_runtime_value"); break;
case 39: chk("waiting_for_other_transaction", (long long)E::waiting_for_other_transaction, -10001, jogasaki::to_string_view(E::waiting_for_other_transaction), "waiting_for_other_transaction"); break;
} }
#define N_jogasaki_status 40
static void chk_jogasaki_data_any_sequence_stream_status(size_t i) { using E = jogasaki::data::any_sequence_stream_status; switch (i) {
case 0: chk("ok", (long long)E::ok, 0, jogasaki::data::to_string_view(E::ok), "ok"); break;
case 1: chk("error", (long long)E::error, 1, jogasaki::data::to_string_view(E::error), "error"); break;
case 2: chk("end_of_stream", (long long)E::end_of_stream, 2, jogasaki::data::to_string_view(E::end_of_stream), "end_of_stream"); break;
case 3: chk("not_ready", (long long)E::not_ready, 3, jogasaki::data::to_string_view(E::not_ready), "not_ready"); break;
} }
#define N_jogasaki_data_any_sequence_stream_status 4
static void chk_jogasaki_executor_file_time_unit_kind(size_t i) { using E = jogasaki::executor::file::time_unit_kind; switch (i) {
case 0: chk("unspecified", (long long)E::unspecified, 0, jogasaki::executor::file::to_string_view(E::unspecified), "unspecified"); break;
case 1: chk("nanosecond", (long long)E::nanosecond, 1, jogasaki::executor::file::to_string_view(E::nanosecond), "nanosecond"); break;
case 2: chk("microsecond", (long long)E::microsecond, 2, jogasaki::executor::file::to_string_view(E::microsecond), "microsecond"); break;
case 3: chk("millisecond", (long long)E::millisecond, 3, jogasaki::executor::file::to_string_view(E::millisecond), "millisecond"); break;
case 4: chk("second", (long long)E::second, 4, jogasaki::executor::file::to_string_view(E::second), "second"); break;
} }
#define N_jogasaki_executor_file_time_unit_kind 5
static void chk_jogasaki_executor_function_table_valued_function_kind(size_t i) { using E = jogasaki::executor::function::table_valued_function_kind; switch (i) {
case 0: chk("undefined", (long long)E::undefined, 0, jogasaki::executor::function::to_string_view(E::undefined), "undefined"); break;
case 1: chk("builtin", (long long)E::builtin, 1, jogasaki::executor::function::to_string_view(E::builtin), "builtin"); break;
case 2: chk("user_defined", (long long)E::user_defined, 2, jogasaki::executor::function::to_string_view(E::user_defined), "user_defined"); break;
} }
#define N_jogasaki_executor_function_table_valued_function_kind 3
static void chk_jogasaki_executor_process_impl_region_kind(size_t i) { using E = jogasaki::executor::process::impl::region_kind; switch (i) {
case 0: chk("undefined", (long long)E::undefined, 0, jogasaki::executor::process::impl::to_string_view(E::undefined), "undefined"); break;
case 1: chk("basic_block", (long long)E::basic_block, 1, jogasaki::executor::process::impl::to_string_view(E::basic_block), "basic_block"); break;
} }
#define N_jogasaki_executor_process_impl_region_kind 2
static void chk_jogasaki_model_step_kind(size_t i) { using E = jogasaki::model::step_kind; switch (i) {
case 0: chk("process", (long long)E::process, 0, jogasaki::model::to_string_view(E::process), "process"); break;
case 1: chk("forward", (long long)E::forward, 1, jogasaki::model::to_string_view(E::forward), "forward"); break;
case 2: chk("broadcast", (long long)E::broadcast, 2, jogasaki::model::to_string_view(E::broadcast), "broadcast"); break;
case 3: chk("group", (long long)E::group, 3, jogasaki::model::to_string_view(E::group), "group"); break;
case 4: chk("aggregate", (long long)E::aggregate, 4, jogasaki::model::to_string_view(E::aggregate), "aggregate"); break;
} }
#define N_jogasaki_model_step_kind 5
static void chk_jogasaki_model_task_kind(size_t i) { using E = jogasaki::model::task_kind; switch (i) {
case 0: chk("main", (long long)E::main, 0, jogasaki::model::to_string_view(E::main), "main"); break;
case 1: chk("pre", (long long)E::pre, 1, jogasaki::model::to_string_view(E::pre), "pre"); break;
} }
#define N_jogasaki_model_task_kind 2
static void chk_jogasaki_model_task_result(size_t i) { using E = jogasaki::model::task_result; switch (i) {
case 0: chk("proceed", (long long)E::proceed, 0, jogasaki::model::to_string_view(E::proceed), "proceed"); break;
case 1: chk("complete", (long long)E::complete, 1, jogasaki::model::to_string_view(E::complete), "complete"); break;
case 2: chk("complete_and_teardown", (long long)E::complete_and_teardown, 2, jogasaki::model::to_string_view(E::complete_and_teardown), "complete_and_teardown"); break;
case 3: chk("sleep", (long long)E::sleep, 3, jogasaki::model::to_string_view(E::sleep), "sleep"); break;
case 4: chk("yield", (long long)E::yield, 4, jogasaki::model::to_string_view(E::yield), "yield"); break;
} }
#define N_jogasaki_model_task_result 5
static void chk_jogasaki_scheduler_hybrid_execution_mode_kind(size_t i) { using E = jogasaki::scheduler::hybrid_execution_mode_kind; switch (i) {
case 0: chk("undefined", (long long)E::undefined, 0, jogasaki::scheduler::to_string_view(E::undefined), "undefined"); break;
case 1: chk("serial", (long long)E::serial, 1, jogasaki::scheduler::to_string_view(E::serial), "serial"); break;
case 2: chk("stealing", (long long)E::stealing, 2, jogasaki::scheduler::to_string_view(E::stealing), "stealing"); break;
} }
#define N_jogasaki_scheduler_hybrid_execution_mode_kind 3
static void chk_jogasaki_scheduler_step_state_kind(size_t i) { using E = jogasaki::scheduler::step_state_kind; switch (i) {
case 0: chk("uninitialized", (long long)E::uninitialized, 0, jogasaki::scheduler::to_string_view(E::uninitialized), "uninitialized"); break;
case 1: chk("created", (long long)E::created, 1, jogasaki::scheduler::to_string_view(E::created), "created"); break;
case 2: chk("activated", (long long)E::activated, 2, jogasaki::scheduler::to_string_view(E::activated), "activated"); break;
case 3: chk("preparing", (long long)E::preparing, 3, jogasaki::scheduler::to_string_view(E::preparing), "preparing"); break;
case 4: chk("prepared", (long long)E::prepared, 4, jogasaki::scheduler::to_string_view(E::prepared), "prepared"); break;
case 5: chk("running", (long long)E::running, 5, jogasaki::scheduler::to_string_view(E::running), "running"); break;
case 6: chk("completing", (long long)E::completing, 6, jogasaki::scheduler::to_string_view(E::completing), "completing"); break;
case 7: chk("completed", (long long)E::completed, 7, jogasaki::scheduler::to_string_view(E::completed), "completed"); break;
case 8: chk("deactivated", (long long)E::deactivated, 8, jogasaki::scheduler::to_string_view(E::deactivated), "deactivated"); break;
} }
#define N_jogasaki_scheduler_step_state_kind 9
static void chk_jogasaki_scheduler_task_state_kind(size_t i) { using E = jogasaki::scheduler::task_state_kind; switch (i) {
case 0: chk("uninitialized", (long long)E::uninitialized, 0, jogasaki::scheduler::to_string_view(E::uninitialized), "uninitialized"); break;
case 1: chk("running", (long long)E::running, 1, jogasaki::scheduler::to_string_view(E::running), "running"); break;
case 2: chk("completed", (long long)E::completed, 2, jogasaki::scheduler::to_string_view(E::completed), "completed"); break;
} }
#define N_jogasaki_scheduler_task_state_kind 3
static void chk_jogasaki_serializer_entry_type(size_t i) { using E = jogasaki::serializer::entry_type; switch (i) {
case 0: chk("end_of_contents", (long long)E::end_of_contents, 0, jogasaki::serializer::to_string_view(E::end_of_contents), "end_of_contents"); break;
case 1: chk("null", (long long)E::null, 1, jogasaki::serializer::to_string_view(E::null), "null"); break;
case 2: chk("int_", (long long)E::int_, 2, jogasaki::serializer::to_string_view(E::int_), "int_"); break;
case 3: chk("float4", (long long)E::float4, 3, jogasaki::serializer::to_string_view(E::float4), "float4"); break;
case 4: chk("float8", (long long)E::float8, 4, jogasaki::serializer::to_string_view(E::float8), "float8"); break;
case 5: chk("decimal", (long long)E::decimal, 5, jogasaki::serializer::to_string_view(E::decimal), "decimal"); break;
case 6: chk("character", (long long)E::character, 6, jogasaki::serializer::to_string_view(E::character), "character"); break;
case 7: chk("octet", (long long)E::octet, 7, jogasaki::serializer::to_string_view(E::octet), "octet"); break;
case 8: chk("bit", (long long)E::bit, 8, jogasaki::serializer::to_string_view(E::bit), "bit"); break;
case 9: chk("date", (long long)E::date, 9, jogasaki::serializer::to_string_view(E::date), "date"); break;
case 10: chk("time_of_day", (long long)E::time_of_day, 10, jogasaki::serializer::to_string_view(E::time_of_day), "time_of_day"); break;
case 11: chk("time_of_day_with_offset", (long long)E::time_of_day_with_offset, 11, jogasaki::serializer::to_string_view(E::time_of_day_with_offset), "time_of_day_with_offset"); break;
case 12: chk("time_point", (long long)E::time_point, 12, jogasaki::serializer::to_string_view(E::time_point), "time_point"); break;
case 13: chk("time_point_with_offset", (long long)E::time_point_with_offset, 13, jogasaki::serializer::to_string_view(E::time_point_with_offset), "time_point_with_offset"); break;
case 14: chk("datetime_interval", (long long)E::datetime_interval, 14, jogasaki::serializer::to_string_view(E::datetime_interval), "datetime_interval"); break;
case 15: chk("row", (long long)E::row, 15, jogasaki::serializer::to_string_view(E::row), "row"); break;
case 16: chk("array", (long long)E::array, 16, jogasaki::serializer::to_string_view(E::array), "array"); break;
case 17: chk("clob", (long long)E::clob, 17, jogasaki::serializer::to_string_view(E::clob), "clob"); break;
case 18: chk("blob", (long long)E::blob, 18, jogasaki::serializer::to_string_view(E::blob), "blob"); break;
} }
#define N_jogasaki_serializer_entry_type 19
static void chk_jogasaki_serializer_value_input_exception_reason_code(size_t i) { using E = jogasaki::serializer::value_input_exception::reason_code; switch (i) {
case 0: chk("buffer_underflow", (long long)E::buffer_underflow, 0, jogasaki::serializer::to_string_view(E::buffer_underflow), "buffer_underflow"); break;
case 1: chk("unrecognized_entry_type", (long long)E::unrecognized_entry_type, 1, jogasaki::serializer::to_string_view(E::unrecognized_entry_type), "unrecognized_entry_type"); break;
case 2: chk("unsupported_entry_type", (long long)E::unsupported_entry_type, 2, jogasaki::serializer::to_string_view(E::unsupported_entry_type), "unsupported_entry_type"); break;
case 3: chk("value_out_of_range", (long long)E::value_out_of_range, 3, jogasaki::serializer::to_string_view(E::value_out_of_range), "value_out_of_range"); break;
} }
#define N_jogasaki_serializer_value_input_exception_reason_code 4
static void chk_plugin_udf_load_status(size_t i) { using E = plugin::udf::load_status; switch (i) {
case 0: chk("ok", (long long)E::ok, 0, plugin::udf::to_string_view(E::ok), "ok"); break;
case 1: chk("path_is_empty", (long long)E::path_is_empty, 1, plugin::udf::to_string_view(E::path_is_empty), "path_is_empty"); break;
case 2: chk("path_not_found", (long long)E::path_not_found, 2, plugin::udf::to_string_view(E::path_not_found), "path_not_found"); break;
case 3: chk("message_name_duplicated", (long long)E::message_name_duplicated, 3, plugin::udf::to_string_view(E::message_name_duplicated), "message_name_duplicated"); break;
case 4: chk("no_ini_files", (long long)E::no_ini_files, 4, plugin::udf::to_string_view(E::no_ini_files), "no_ini_files"); break;
case 5: chk("no_ini_and_so_files", (long long)E::no_ini_and_so_files, 5, plugin::udf::to_string_view(E::no_ini_and_so_files), "no_ini_and_so_files"); break;
case 6: chk("ini_so_pair_mismatch", (long long)E::ini_so_pair_mismatch, 6, plugin::udf::to_string_view(E::ini_so_pair_mismatch), "ini_so_pair_mismatch"); break;
case 7: chk("ini_invalid", (long long)E::ini_invalid, 7, plugin::udf::to_string_view(E::ini_invalid), "ini_invalid"); break;
case 8: chk("not_regular_file_or_dir", (long long)E::not_regular_file_or_dir, 8, plugin::udf::to_string_view(E::not_regular_file_or_dir), "not_regular_file_or_dir"); break;
case 9: chk("udf_disabled", (long long)E::udf_disabled, 9, plugin::udf::to_string_view(E::udf_disabled), "udf_disabled"); break;
case 10: chk("deps_not_found", (long long)E::deps_not_found, 10, plugin::udf::to_string_view(E::deps_not_found), "deps_not_found"); break;
case 11: chk("no_shared_objects_found", (long long)E::no_shared_objects_found, 11, plugin::udf::to_string_view(E::no_shared_objects_found), "no_shared_objects_found"); break;
case 12: chk("dlopen_failed", (long long)E::dlopen_failed, 12, plugin::udf::to_string_view(E::dlopen_failed), "dlopen_failed"); break;
case 13: chk("descriptor_open_failed", (long long)E::descriptor_open_failed, 13, plugin::udf::to_string_view(E::descriptor_open_failed), "descriptor_open_failed"); break;
case 14: chk("descriptor_parse_failed", (long long)E::descriptor_parse_failed, 14, plugin::udf::to_string_view(E::descriptor_parse_failed), "descriptor_parse_failed"); break;
case 15: chk("api_symbol_missing", (long long)E::api_symbol_missing, 15, plugin::udf::to_string_view(E::api_symbol_missing), "api_symbol_missing"); break;
case 16: chk("api_init_failed", (long long)E::api_init_failed, 16, plugin::udf::to_string_view(E::api_init_failed), "api_init_failed"); break;
case 17: chk("factory_symbol_missing", (long long)E::factory_symbol_missing, 17, plugin::udf::to_string_view(E::factory_symbol_missing), "factory_symbol_missing"); break;
case 18: chk("factory_creation_failed", (long long)E::factory_creation_failed, 18, plugin::udf::to_string_view(E::factory_creation_failed), "factory_creation_failed"); break;
case 19: chk("rpc_name_duplicated", (long long)E::rpc_name_duplicated, 19, plugin::udf::to_string_view(E::rpc_name_duplicated), "rpc_name_duplicated"); break;
} }
#define N_plugin_udf_load_status 20
static void chk_plugin_udf_load_outcome(size_t i) { using E = plugin::udf::load_outcome; switch (i) {
case 0: chk("ok", (long long)E::ok, 0, plugin::udf::to_string_view(E::ok), "OK"); break;
case 1: chk("skipped", (long long)E::skipped, 1, plugin::udf::to_string_view(E::skipped), "SKIPPED"); break;
case 2: chk("fail", (long long)E::fail, 2, plugin::udf::to_string_view(E::fail), "FAIL"); break;
} }
#define N_plugin_udf_load_outcome 3
static void chk_jogasaki_executor_dto_common_column_atom_type(size_t i) { using E = jogasaki::executor::dto::common_column::atom_type; switch (i) {
case 0: chk("type_unspecified", (long long)E::type_unspecified, 0, jogasaki::executor::dto::common_column::to_string_view(E::type_unspecified), "type_unspecified"); break;
case 1: chk("boolean", (long long)E::boolean, 1, jogasaki::executor::dto::common_column::to_string_view(E::boolean), "boolean"); break;
case 2: chk("int4", (long long)E::int4, 4, jogasaki::executor::dto::common_column::to_string_view(E::int4), "int4"); break;
case 3: chk("int8", (long long)E::int8, 5, jogasaki::executor::dto::common_column::to_string_view(E::int8), "int8"); break;
case 4: chk("float4", (long long)E::float4, 6, jogasaki::executor::dto::common_column::to_string_view(E::float4), "float4"); break;
case 5: chk("float8", (long long)E::float8, 7, jogasaki::executor::dto::common_column::to_string_view(E::float8), "float8"); break;
case 6: chk("decimal", (long long)E::decimal, 8, jogasaki::executor::dto::common_column::to_string_view(E::decimal), "decimal"); break;
case 7: chk("character", (long long)E::character, 9, jogasaki::executor::dto::common_column::to_string_view(E::character), "character"); break;
case 8: chk("octet", (long long)E::octet, 11, jogasaki::executor::dto::common_column::to_string_view(E::octet), "octet"); break;
case 9: chk("bit", (long long)E::bit, 13, jogasaki::executor::dto::common_column::to_string_view(E::bit), "bit"); break;
case 10: chk("date", (long long)E::date, 15, jogasaki::executor::dto::common_column::to_string_view(E::date), "date"); break;
case 11: chk("time_of_day", (long long)E::time_of_day, 16, jogasaki::executor::dto::common_column::to_string_view(E::time_of_day), "time_of_day"); break;
case 12: chk("time_point", (long long)E::time_point, 17, jogasaki::executor::dto::common_column::to_string_view(E::time_point), "time_point"); break;
case 13: chk("datetime_interval", (long long)E::datetime_interval, 18, jogasaki::executor::dto::common_column::to_string_view(E::datetime_interval), "datetime_interval"); break;
case 14: chk("time_of_day_with_time_zone", (long long)E::time_of_day_with_time_zone, 19, jogasaki::executor::dto::common_column::to_string_view(E::time_of_day_with_time_zone), "time_of_day_with_time_zone"); break;
case 15: chk("time_point_with_time_zone", (long long)E::time_point_with_time_zone, 20, jogasaki::executor::dto::common_column::to_string_view(E::time_point_with_time_zone), "time_point_with_time_zone"); break;
case 16: chk("clob", (long long)E::clob, 21, jogasaki::executor::dto::common_column::to_string_view(E::clob), "clob"); break;
case 17: chk("blob", (long long)E::blob, 22, jogasaki::executor::dto::common_column::to_string_view(E::blob), "blob"); break;
case 18: chk("unknown", (long long)E::unknown, 31, jogasaki::executor::dto::common_column::to_string_view(E::unknown), "unknown"); break;
} }
#define N_jogasaki_executor_dto_common_column_atom_type 19
static void chk_all() { switch (sym_choose(20, "enum")) {
case 0: chk_jogasaki_error_code(sym_choose(N_jogasaki_error_code, "member")); break;
case 1: chk_jogasaki_key_distribution_kind(sym_choose(N_jogasaki_key_distribution_kind, "member")); break;
case 2: chk_jogasaki_lob_lob_data_provider(sym_choose(N_jogasaki_lob_lob_data_provider, "member")); break;
case 3: chk_jogasaki_lob_lob_reference_kind(sym_choose(N_jogasaki_lob_lob_reference_kind, "member")); break;
case 4: chk_jogasaki_status(sym_choose(N_jogasaki_status, "member")); break;
case 5: chk_jogasaki_data_any_sequence_stream_status(sym_choose(N_jogasaki_data_any_sequence_stream_status, "member")); break;
case 6: chk_jogasaki_executor_file_time_unit_kind(sym_choose(N_jogasaki_executor_file_time_unit_kind, "member")); break;
case 7: chk_jogasaki_executor_function_table_valued_function_kind(sym_choose(N_jogasaki_executor_function_table_valued_function_kind, "member")); break;
case 8: chk_jogasaki_executor_process_impl_region_kind(sym_choose(N_jogasaki_executor_process_impl_region_kind, "member")); break;
case 9: chk_jogasaki_model_step_kind(sym_choose(N_jogasaki_model_step_kind, "member")); break;
case 10: chk_jogasaki_model_task_kind(sym_choose(N_jogasaki_model_task_kind, "member")); break;
case 11: chk_jogasaki_model_task_result(sym_choose(N_jogasaki_model_task_result, "member")); break;
case 12: chk_jogasaki_scheduler_hybrid_execution_mode_kind(sym_choose(N_jogasaki_scheduler_hybrid_execution_mode_kind, "member")); break;
case 13: chk_jogasaki_scheduler_step_state_kind(sym_choose(N_jogasaki_scheduler_step_state_kind, "member")); break;
case 14: chk_jogasaki_scheduler_task_state_kind(sym_choose(N_jogasaki_scheduler_task_state_kind, "member")); break;
case 15: chk_jogasaki_serializer_entry_type(sym_choose(N_jogasaki_serializer_entry_type, "member")); break;
case 16: chk_jogasaki_serializer_value_input_exception_reason_code(sym_choose(N_jogasaki_serializer_value_input_exception_reason_code, "member")); break;
case 17: chk_plugin_udf_load_status(sym_choose(N_plugin_udf_load_status, "member")); break;
case 18: chk_plugin_udf_load_outcome(sym_choose(N_plugin_udf_load_outcome, "member")); break;
case 19: chk_jogasaki_executor_dto_common_column_atom_type(sym_choose(N_jogasaki_executor_dto_common_column_atom_type, "member")); break;
} }
#define ERROR_CODES(X) X(sql_service_exception, SQL_SERVICE_EXCEPTION) X(sql_execution_exception, SQL_EXECUTION_EXCEPTION) X(constraint_violation_exception, CONSTRAINT_VIOLATION_EXCEPTION) X(unique_constraint_violation_exception, UNIQUE_CONSTRAINT_VIOLATION_EXCEPTION) X(not_null_constraint_violation_exception, NOT_NULL_CONSTRAINT_VIOLATION_EXCEPTION) X(referential_integrity_constraint_violation_exception, REFERENTIAL_INTEGRITY_CONSTRAINT_VIOLATION_EXCEPTION) X(check_constraint_violation_exception, CHECK_CONSTRAINT_VIOLATION_EXCEPTION) X(evaluation_exception, EVALUATION_EXCEPTION) X(value_evaluation_exception, VALUE_EVALUATION_EXCEPTION) X(scalar_subquery_evaluation_exception, SCALAR_SUBQUERY_EVALUATION_EXCEPTION) X(target_not_found_exception, TARGET_NOT_FOUND_EXCEPTION) X(target_already_exists_exception, TARGET_ALREADY_EXISTS_EXCEPTION) X(inconsistent_statement_exception, INCONSISTENT_STATEMENT_EXCEPTION) X(restricted_operation_exception, RESTRICTED_OPERATION_EXCEPTION) X(dependencies_violation_exception, DEPENDENCIES_VIOLATION_EXCEPTION) X(write_operation_by_rtx_exception, WRITE_OPERATION_BY_RTX_EXCEPTION) X(ltx_write_operation_without_write_preserve_exception, LTX_WRITE_OPERATION_WITHOUT_WRITE_PRESERVE_EXCEPTION) X(read_operation_on_restricted_read_area_exception, READ_OPERATION_ON_RESTRICTED_READ_AREA_EXCEPTION) X(inactive_transaction_exception, INACTIVE_TRANSACTION_EXCEPTION) X(parameter_exception, PARAMETER_EXCEPTION) X(unresolved_placeholder_exception, UNRESOLVED_PLACEHOLDER_EXCEPTION) X(load_file_exception, LOAD_FILE_EXCEPTION) X(load_file_not_found_exception, LOAD_FILE_NOT_FOUND_EXCEPTION) X(load_file_format_exception, LOAD_FILE_FORMAT_EXCEPTION) X(dump_file_exception, DUMP_FILE_EXCEPTION) X(dump_directory_inaccessible_exception, DUMP_DIRECTORY_INACCESSIBLE_EXCEPTION) X(sql_limit_reached_exception, SQL_LIMIT_REACHED_EXCEPTION) X(transaction_exceeded_limit_exception, TRANSACTION_EXCEEDED_LIMIT_EXCEPTION) X(sql_request_timeout_exception, SQL_REQUEST_TIMEOUT_EXCEPTION) X(data_corruption_exception, DATA_CORRUPTION_EXCEPTION) X(secondary_index_corruption_exception, SECONDARY_INDEX_CORRUPTION_EXCEPTION) X(request_failure_exception, REQUEST_FAILURE_EXCEPTION) X(transaction_not_found_exception, TRANSACTION_NOT_FOUND_EXCEPTION) X(statement_not_found_exception, STATEMENT_NOT_FOUND_EXCEPTION) X(internal_exception, INTERNAL_EXCEPTION) X(unsupported_runtime_feature_exception, UNSUPPORTED_RUNTIME_FEATURE_EXCEPTION) X(blocked_by_high_priority_transaction_exception, BLOCKED_BY_HIGH_PRIORITY_TRANSACTION_EXCEPTION) X(invalid_runtime_value_exception, INVALID_RUNTIME_VALUE_EXCEPTION) X(value_out_of_range_exception, VALUE_OUT_OF_RANGE_EXCEPTION) X(value_too_long_exception, VALUE_TOO_LONG_EXCEPTION) X(invalid_decimal_value_exception, INVALID_DECIMAL_VALUE_EXCEPTION) X(compile_exception, COMPILE_EXCEPTION) X(syntax_exception, SYNTAX_EXCEPTION) X(analyze_exception, ANALYZE_EXCEPTION) X(type_analyze_exception, TYPE_ANALYZE_EXCEPTION) X(symbol_analyze_exception, SYMBOL_ANALYZE_EXCEPTION) X(value_analyze_exception, VALUE_ANALYZE_EXCEPTION) X(unsupported_compiler_feature_exception, UNSUPPORTED_COMPILER_FEATURE_EXCEPTION) X(cc_exception, CC_EXCEPTION) X(occ_exception, OCC_EXCEPTION) X(occ_read_exception, OCC_READ_EXCEPTION) X(conflict_on_write_preserve_exception, CONFLICT_ON_WRITE_PRESERVE_EXCEPTION) X(occ_write_exception, OCC_WRITE_EXCEPTION) X(ltx_exception, LTX_EXCEPTION) X(ltx_read_exception, LTX_READ_EXCEPTION) X(ltx_write_exception, LTX_WRITE_EXCEPTION) X(rtx_exception, RTX_EXCEPTION) X(blocked_by_concurrent_operation_exception, BLOCKED_BY_CONCURRENT_OPERATION_EXCEPTION)
