# ---------------------------------------------------------------- storage encoding
P("C01", "Encoded keys sort exactly like the values they encode",
  "For every column type a key may have (integers, reals, dates and times, decimals, character strings, fixed-length octet strings), every ordering (ascending or descending) and nullability, comparing two encoded keys as unsigned byte strings gives the same result as comparing the two values in that ordering. NULL sorts before every value in ascending order and after every value in descending order, and a shorter string sorts before its extensions in ascending order. Both zeros are one value, NaN sorts above every other real, and fixed-length strings compare as padded.",
  ["inputs"], "every pair of values of a column type x {asc, desc} x {nullable, not null}",
  "Order preservation is a relation over all pairs of values (2^128 pairs for BIGINT); the coder tests compare a handful of hand-written constants.",
  ["kvs/coder.cpp","kvs/writable_stream.h","kvs/writable_stream.cpp","kvs/readable_stream.h"],
  [("key_encode / sign flip / order bit inversion","src/jogasaki/kvs/writable_stream.h"),("encode_nullable flag byte","src/jogasaki/kvs/coder.cpp")],
  observe=["kvs::encode / kvs::encode_nullable output bytes"])
P("C02", "Encoded keys and values decode to what was stored",
  "Encoding a field for a key or for a value and decoding it with the same type, order and nullability yields exactly the original value (including NULL; fixed-length strings come back padded, and reals with the documented normalisation of zeros and NaNs), and decoding consumes exactly the bytes that encoding produced, so that consecutive fields never disturb each other.",
  ["inputs"], "every value of every column type x encoding context, and every two-field sequence",
  "Loss of a single bit pattern (sign boundary, embedded zero, longest string) is invisible to samples; tests use one constant per type.",
  ["kvs/coder.cpp","kvs/readable_stream.h","kvs/readable_stream.cpp","kvs/writable_stream.h","kvs/writable_stream.cpp"],
  [("paired write/read per type","src/jogasaki/kvs/coder.cpp")], observe=["kvs::encode/decode"])
P("C03", "Key and value encoding never writes outside its buffer",
  "Whatever the value, buffer capacity and current position, encoding writes only inside the buffer it was given, and when the space does not suffice it fails, or, when overflow is to be ignored, reports the full required length without touching memory outside the buffer; a value longer than its column is refused as insufficient storage and not written.",
  ["inputs"], "every capacity, fill position, value and overflow mode",
  "Off-by-one at an arbitrary remaining size is not reached by tests that use generous buffers.",
  ["kvs/writable_stream.h","kvs/writable_stream.cpp","kvs/coder.cpp"],
  [("capacity checks before each write","src/jogasaki/kvs/writable_stream.cpp")], observe=["buffer guard bytes; returned status"])
P("C04", "Serialized values read back unchanged and occupy only their space",
  "Every value written by the result-set value serializer (null, integers, reals, decimal, character, octet, bit, date, time, interval, LOB reference) is read back with the same kind and content, the cursor ends exactly at the end of what was written, and a writer given too little space returns failure, leaves the cursor unchanged and writes nothing outside the given range.",
  ["inputs"], "every value of every entry kind and every remaining buffer size",
  "Variable-length encodings have boundary classes per length and sign; tests visit some of them only.",
  ["serializer/value_output.cpp","serializer/value_input.cpp","serializer/base128v.cpp","serializer/details/value_io_constants.h"],
  [("embedded small-int/short-string headers, base128 variants","src/jogasaki/serializer/value_output.cpp")], observe=["write_*/read_* cursors and values"])
P("C05", "Decoding never reads outside the bytes it was given",
  "Reading a serialized value, key or value field from an arbitrary byte sequence either yields a value or reports an error through the documented exception or status, and never accesses memory outside the given range nor moves the cursor past its end.",
  ["inputs"], "every byte sequence up to the bound, every entry point",
  "Malformed input space is exponential; tests contain only well-formed sequences and a few truncations.",
  ["serializer/value_input.cpp","serializer/base128v.cpp","kvs/readable_stream.h","kvs/readable_stream.cpp"],
  [("buffer_remaining / range checks","src/jogasaki/serializer/value_input.cpp")], observe=["value_input_exception / status / ASan"])
P("C06", "Decimal coefficients survive their byte encoding",
  "The two's-complement byte form of a decimal coefficient is the shortest form that represents it, and turning a decimal into its coefficient bytes and back yields the same sign, coefficient and exponent, for coefficients of up to 128 bits.",
  ["inputs"], "every 128-bit coefficient, sign and exponent",
  "Sign-extension and carry boundaries are sparse points in a 2^128 space.",
  ["utils/decimal.cpp","utils/decimal.h","utils/coder.cpp","utils/coder.h"],
  [("make_signed_coefficient_full / read_decimal_coefficient","src/jogasaki/utils/decimal.cpp")], observe=["returned bytes and triples"])
# ---------------------------------------------------------------- data values
P("C07", "Text and octet values keep their content and compare consistently",
  "A character or octet value keeps exactly the bytes it was created from whatever its length, including the switch between inline and referenced storage, and whatever the memory it was copied into; concatenation yields the bytes of both operands in order. Comparison is the lexicographic order of unsigned bytes, a total order consistent with equality, and equal values hash equally.",
  ["inputs"], "every pair (triple) of byte strings around and across the inline/long boundary",
  "Order and hash laws are relations over pairs and triples of values; the tests compare a few literals.",
  ["accessor/text.cpp","accessor/text.h","accessor/binary.h","accessor/binary.cpp"],
  [("short/long representation with size class","src/jogasaki/accessor/text.h")], observe=["operator std::string(_view), comparison operators, std::hash"])
P("C08", "Record fields never overlap and keep their own value and nullity",
  "For every field composition, the fields and nullity bits of a record occupy disjoint, suitably aligned places inside the record size; therefore setting one field or its nullity changes no other field, and each field reads back the value and nullity last set for it.",
  ["inputs","configurations"], "every sequence of field types and nullabilities up to the bound and every assignment of values",
  "Layouts are combinatorial in field types; tests check a few compositions.",
  ["meta/impl/record_layout_creator.cpp","meta/record_meta.cpp","accessor/record_ref.h","accessor/record_ref.cpp"],
  [("offset / nullity offset calculation","src/jogasaki/meta/impl/record_layout_creator.cpp")], observe=["record_meta offsets, record_ref get/set"])
P("C09", "Copying records or fields copies the content and nothing else",
  "Copying a record or a field yields a target that equals the source in every field and nullity; the target of a deep copy stays valid when the source memory is reused, and neighbouring memory is untouched.",
  ["inputs"], "every record content in the bounded layouts, nullable and not, with or without a memory resource",
  "Aliasing and nullity combinations are not enumerated by the tests.",
  ["accessor/record_copier.cpp","utils/copy_field_data.cpp"],
  [("record_copier::operator(), copy_field, copy_nullable_field","src/jogasaki/utils/copy_field_data.cpp")], observe=["target record"])
P("C10", "Record comparison is a total preorder and agrees with sort specs",
  "Comparing records by a list of columns is antisymmetric, transitive and total (NaN counts as greater than every other real and equal to itself, both zeros as equal), orders NULLs first for ascending and last for descending columns, and depends only on the listed columns in the listed priority; the derived less-than and equality predicates agree with it.",
  ["inputs"], "every triple of records in the bounded layouts, asc/desc per column",
  "Sorting and merging silently misbehave on any triple that breaks the laws; tests check a few pairs.",
  ["executor/comparator.h","executor/compare_info.cpp","executor/less.h","executor/equal_to.h"],
  [("compare_field per type and nullity","src/jogasaki/executor/comparator.h")], observe=["comparator / less / equal_to results"])
P("C11", "Rows with equal keys always go to the same partition and hash bucket",
  "Two records whose key columns are equal (NULLs, differing memory and differing representations of the same number included; NaN excepted, which is normalised before) have the same hash and are routed to the same partition, and the partition number is always below the number of partitions.",
  ["inputs"], "every pair of equal-key records and every partition count",
  "Equal values with different representations are rare points of the input space.",
  ["executor/hash.h","executor/partitioner.h","executor/partitioner.cpp"],
  [("field-wise hash with nullity","src/jogasaki/executor/hash.h")], observe=["hash / partitioner results"])
# ---------------------------------------------------------------- memory
P("C12", "Memory resources hand out aligned, disjoint blocks of the asked size",
  "A block returned by the monotonic, LIFO or FIFO paged memory resource has the requested size and alignment, lies inside a page owned by the resource and does not overlap any other block still allocated, for every history of allocations and permitted deallocations; a request that cannot fit in a page fails with an allocation error.",
  ["histories","inputs"], "every sequence of allocate/deallocate with every size and alignment up to the bound",
  "Overlap needs a particular combination of sizes, alignments and page boundary; tests use fixed sizes.",
  ["memory/details/page_allocation_info.cpp","memory/lifo_paged_memory_resource.cpp","memory/fifo_paged_memory_resource.cpp","memory/monotonic_paged_memory_resource.cpp","memory/page_pool.cpp"],
  [("page_allocation_info bounds bookkeeping","src/jogasaki/memory/details/page_allocation_info.cpp")], observe=["returned addresses"])
P("C13", "Restoring a memory checkpoint frees exactly what came later",
  "After a checkpoint is taken and later restored, everything allocated before it is still intact and never handed out again, everything allocated after it becomes reusable, and pages no longer needed return to the pool, also when the checkpoint lies at a page boundary or in an earlier page; leaving a checkpoint scope restores it exactly once.",
  ["histories"], "every bounded history of allocations, checkpoints and restores, with page switches",
  "Depends on where the checkpoint falls relative to page ends; tests use one or two layouts.",
  ["memory/lifo_paged_memory_resource.cpp","memory/fifo_paged_memory_resource.cpp","utils/checkpoint_holder.h","memory/details/page_allocation_info.cpp"],
  [("get_checkpoint/deallocate_after","src/jogasaki/memory/lifo_paged_memory_resource.cpp")], observe=["addresses and content after restore"])
P("C14", "Aligned buffers keep content, capacity and alignment across operations",
  "An aligned buffer always provides at least the capacity it reports at the alignment it reports; copying, moving and assigning transfer exactly the stored bytes; resizing gives exactly the requested capacity, and shrinking to the content keeps it intact.",
  ["inputs","histories"], "every size, capacity, alignment and operation sequence up to the bound",
  "Combination of size, empty state and operation order is unbounded; tests are single-step.",
  ["data/aligned_buffer.cpp","data/aligned_buffer.h","utils/aligned_unique_ptr.h","data/binary_string_value.cpp"],
  [("reallocate / assign","src/jogasaki/data/aligned_buffer.cpp")], observe=["data(), size(), capacity(), alignment()"])
P("C15", "Record stores return every appended record, in order, unchanged",
  "Iterating over a row or value store yields exactly the appended elements in the order of insertion with unchanged content, across internal block boundaries, after a reset and for nulls, and the reported count equals the number of appended elements. A forward exchange hands every record written (up to its limit) exactly once and in order to its reader, also while the writer is still running, and the memory of records already read is returned.",
  ["histories","inputs","schedules"], "every bounded sequence of appends, sizes crossing block boundaries",
  "Bugs hide at block switch points and in stale memory after reset.",
  ["data/iterable_record_store.cpp","data/record_store.cpp","data/value_store.cpp","data/result_store.cpp","data/fifo_record_store.cpp","executor/exchange/shuffle/pointer_table.cpp","executor/exchange/forward/input_partition.cpp","executor/exchange/forward/writer.cpp","executor/exchange/forward/sink.cpp"],
  [("record ranges per contiguous block","src/jogasaki/data/iterable_record_store.cpp")], observe=["iterators"])
# ---------------------------------------------------------------- transactions and concurrency
P("C16", "A transaction that reached a final state never leaves it",
  "Once a transaction is recorded as committed (visible or durable) or aborted, no later or concurrent state update moves it to a conflicting state; of concurrent attempts to finish a transaction exactly one wins, a commit reaches the storage engine only while no task uses the transaction, an abort is done exactly once, after its last task left, and no task starts afterwards; the first error reported for a transaction stays; a finished transaction releases its table locks and references.",
  ["schedules","histories"], "every sequence and interleaving of bounded state updates",
  "Needs the interleaving in which the state changes between test and update.",
  ["transaction_state.h","transaction_state.cpp","transaction_context.cpp","termination_state.h"],
  [("state transition table / compare-exchange","src/jogasaki/transaction_state.h")], observe=["state(), set()"])
P("C17", "A table being changed by DDL is never accessed by others",
  "An exclusive lock on a table is granted only while no one else holds it, shared locks only while no exclusive lock is held, for every interleaving of lock and release, and a released table becomes available again.",
  ["schedules","histories"], "every bounded interleaving of lock/unlock calls of several threads",
  "Races show only under particular interleavings that tests do not force.",
  ["storage/storage_manager.h","storage/storage_manager.cpp","storage/shared_lock.h","storage/unique_lock.h","storage/reference_scope.h","storage/shared_lock.cpp","storage/unique_lock.cpp"],
  [("storage_control counter / compare-exchange","src/jogasaki/storage/storage_manager.h")], observe=["lock()/lock_shared() results"])
P("C18", "Locking several tables is all-or-nothing and always undone",
  "A request to lock a set of tables either locks all of them or leaves every lock as it was; the locks held by an owner are released when the owner ends, exactly once each; the catalogue finds a table by name, by storage key and by id exactly while it is registered, and looking up never blocks for ever; a dropped table is deleted by maintenance exactly once, and only when no transaction refers to it any more.",
  ["histories","schedules"], "every bounded history of add/remove/lock/unlock over a few tables",
  "The partial-failure path depends on which of several tables is busy and in which order.",
  ["storage/storage_manager.cpp","storage/reference_scope.h","storage/reference_scope.cpp","storage/storage_list.h","storage/maintenance_storage.cpp"],
  [("add_locked_storages roll back","src/jogasaki/storage/storage_manager.cpp")], observe=["find_entry, can_lock, results of lock requests"])
P("C19", "A commit is reported durable once, and only after its marker",
  "A transaction waiting for durability is completed exactly once, and only when a durability marker at or above its own marker has been announced; announcing a smaller marker later never moves the durable point backwards; a waiter is cancelled only when its own client asked for it, and no other waiter is lost.",
  ["schedules","histories"], "every bounded interleaving of waiters being added and markers being announced",
  "Lost or duplicated notifications need a waiter added concurrently with an announcement.",
  ["durability_manager.cpp","durability_manager.h","durability_callback.cpp"],
  [("priority queue of waiting requests + current marker","src/jogasaki/durability_manager.cpp")], observe=["callback invocations, current_marker()"])
P("C20", "Waiting threads are always woken and never wake early",
  "A thread waiting on a latch or on an atomically watched value returns if and only if the latch was released or the value was changed as required, in every interleaving of waiters and the releaser, and re-arming a latch makes later waits block again.",
  ["schedules"], "every interleaving of up to three threads over the bounded operation sequence",
  "A lost wake-up needs the release to fall between the check and the wait.",
  ["utils/latch.cpp","utils/latch.h","utils/waitable_atomic.h"],
  [("mutex + condition variable protocol","src/jogasaki/utils/latch.cpp")], observe=["termination, return values"])
P("C21", "Shared counters and statistics are exact",
  "A use counter equals the number of live holders in every history of copies, moves, assignments and destructions; request statistics return the record counts that were set, per counter kind, and report absence for those never set.",
  ["histories","schedules"], "every bounded history of holder operations and counter updates",
  "Imbalance arises in rare operation orders such as self or moved-from assignment.",
  ["utils/use_counter.cpp","utils/use_counter.h","request_statistics.cpp","include/jogasaki/request_statistics.h"],
  [("shared count","src/jogasaki/utils/use_counter.cpp")], observe=["count(), counter values"])
# ---------------------------------------------------------------- authorization
P("C22", "Authorization grants exactly what was granted and not revoked",
  "A set of granted actions behaves as a mathematical set under add, remove and query, with full control implying every action and absorbing the individual ones; a user is allowed an action on a table if and only if it was granted to that user or to the public and not revoked since; users left without any action are forgotten; and grants survive being written to and read from a table definition.",
  ["histories","inputs"], "every bounded history of grants and revokes over users and all action combinations",
  "2^n action combinations and histories; a single wrong bit is a privilege escalation no sample will notice.",
  ["auth/action_set.h","auth/action_set.cpp","auth/authorized_users_action_set.h","auth/authorized_users_action_set.cpp","auth/action_kind.h","auth/fill_action_set.cpp","storage/storage_manager.h"],
  [("enum set with control implication","src/jogasaki/auth/action_set.h")], observe=["action_allowed, allows, user queries"])
# ---------------------------------------------------------------- text utilities
P("C23", "Sanitized strings are always valid, printable UTF-8",
  "For every input byte sequence, sanitizing yields well-formed UTF-8 without raw control bytes; valid printable input is returned unchanged, and each offending byte is represented visibly and unambiguously without dropping or duplicating neighbouring characters.",
  ["inputs"], "every byte sequence up to the bound",
  "Truncated and overlong sequences at string end and at every position are not covered by examples.",
  ["utils/sanitize_utf8.cpp","utils/sanitize_utf8.h"],
  [("decoder per lead byte","src/jogasaki/utils/sanitize_utf8.cpp")], observe=["returned string"])
P("C24", "Hexadecimal and binary text forms are exact",
  "Parsing a hexadecimal string succeeds exactly for strings of an even number of hex digits and yields the bytes they denote; printing bytes in hexadecimal yields exactly the digits of those bytes, leaves the output stream's formatting state as it was, and parsing what was printed gives back the bytes.",
  ["inputs"], "every byte string up to the bound",
  "Upper/lower case, odd length and non-hex characters at any position.",
  ["utils/hex_to_octet.cpp","utils/hex.h","utils/binary_printer.h"],
  [("nibble conversion","src/jogasaki/utils/hex_to_octet.cpp")], observe=["returned string / false"])
P("C25", "Base64 decoding inverts encoding and validation is exact",
  "Encoding any byte string produces the standard padded base64 form, decoding it gives back exactly the bytes, and the base64 check accepts exactly the non-empty strings of a length divisible by four that consist of alphabet characters with at most two padding characters at the end. Neither encoding, checking, nor decoding an accepted string accesses memory outside it.",
  ["inputs"], "every byte string up to the bound",
  "Padding positions and bytes above 0x7f are sparse; tests use a few RFC vectors.",
  ["utils/base64_utils.cpp","utils/base64_utils.h"],
  [("encode/decode tables, is_base64","src/jogasaki/utils/base64_utils.cpp")], observe=["returned strings"])
P("C26", "UTF-8 scanning stays inside the string and counts characters correctly",
  "Detecting the encoding of the character at an offset reads no byte outside the given string, reports 1 to 4 bytes exactly for the scanner's character classes (00-7f; c2-df, e0-ef, f0-f4 followed by one, two or three continuation bytes 80-bf) and invalid for anything malformed or truncated; whole-string validation accepts exactly the strings made of such characters.",
  ["inputs"], "every byte string up to the bound and every offset",
  "Truncated multibyte sequences at every offset; the tests always start at offset 0 with complete characters.",
  ["utils/utf8_utils.cpp","utils/utf8_utils.h"],
  [("lead/continuation byte classification","src/jogasaki/utils/utf8_utils.cpp")], observe=["returned encoding kind / bool"])
P("C27", "String helpers change only what they are meant to change",
  "Replacing control characters turns each byte below 0x20 into '!', drops bytes with the highest bit set, and keeps every other byte in order; trimming removes exactly the leading or the trailing blanks and keeps the rest; the prefix test holds exactly when the first string starts with the second; the base file name is what follows the last slash; the public schema maps to the default namespace and every other schema to itself; none reads outside its input.",
  ["inputs"], "every byte string up to the bound",
  "Bytes above 0x7f, embedded NULs and all-blank strings are the usual omissions of examples.",
  ["utils/convert_control_characters.cpp","utils/string_manipulation.cpp","utils/string_utils.cpp","utils/base_filename.h","utils/map_schema_name.h"],
  [("per-character mapping","src/jogasaki/utils/convert_control_characters.cpp")], observe=["returned string"])
P("C28", "Small arithmetic helpers are exact for every argument",
  "Rounding down and up to a power of two returns the exact bound for every argument whose result fits; pseudo-random generators refuse a zero seed, follow the published xorshift step and never reach the zero state; the difference of two lists contains each element as many times as it occurs in the first beyond its occurrences in the second, in ascending order; aligned arrays have the requested alignment and size.",
  ["inputs"], "every 64-bit argument / every list up to the bound",
  "Overflow near the top of the 64-bit range.",
  ["utils/round.h","utils/subtract_vectors.h","utils/random.h","utils/aligned_unique_ptr.h","include/jogasaki/utils/split_mix64.h","include/jogasaki/utils/hash_combine.h"],
  [("bit tricks","src/jogasaki/utils/round.h")], observe=["returned values"])
P("C29", "Surrogate ids and storage keys round-trip and are ordered",
  "A surrogate id converted to its byte key form and back is unchanged, byte order of the keys equals numeric order, and a byte string of any other length is rejected.",
  ["inputs"], "every 64-bit id, every pair, every key length up to the bound",
  "Byte order bugs show only on ids with particular bytes.",
  ["utils/surrogate_id_utils.h","utils/surrogate_id_utils.cpp"],
  [("big-endian conversion","src/jogasaki/utils/surrogate_id_utils.cpp")], observe=["key bytes, ids"])
P("C30", "Time zone offsets are parsed, printed and applied without drift",
  "Formatting a time zone offset and parsing it gives back the offset for the whole supported range, strings outside the documented forms are rejected, and adding and then removing an offset from a time value restores the original value, wrapping times of day into one day.",
  ["inputs"], "every offset in range, every time value, every string up to the bound",
  "Negative offsets below one hour and values around midnight and the epoch are sparse.",
  ["utils/convert_offset.h","utils/convert_offset.cpp","utils/convert_offset_string.h","utils/parse_time_zone_offset.cpp"],
  [("sign/hour/minute decomposition","src/jogasaki/utils/convert_offset_string.h")], observe=["strings, time values"])
P("C31", "Scan range pivots lie strictly inside the range, in ascending order",
  "Splitting a key range for parallel scan yields at most the requested number of pivots, each strictly greater than the previous one and strictly between the range ends, so that the sub-ranges cover the range without overlap; ranges that cannot be split yield no pivot, ranges wide enough are split evenly into as many parts as requested, the range ends are narrowed to the keys actually stored, and an unrecoverable scan error is raised. The simple distribution picks its pivots within the range, never beyond its end.",
  ["inputs"], "every pair of range ends up to the bound, every pivot count",
  "Ends that share prefixes, differ only in length, or contain 0x00/0xff bytes are boundary cases for each byte position.",
  ["dist/uniform_key_distribution.cpp","dist/simple_key_distribution.cpp","dist/key_range.h"],
  [("common prefix + linear interpolation","src/jogasaki/dist/uniform_key_distribution.cpp")], observe=["compute_pivots result"])
# ---------------------------------------------------------------- API surface
P("C32", "Every outcome is reported with its own documented code",
  "Every internal error code, status and transaction state is mapped to a defined, non-placeholder external code and name, distinct codes keep distinct names, success is never reported for a failure nor failure for success, and an error object keeps the code, message, and supplemental text it was created with.",
  ["inputs"], "every enumerator value and every message content up to the bound",
  "A single wrong row in a mapping table of over a hundred codes is not noticed by spot checks.",
  ["include/jogasaki/error_code.h","include/jogasaki/status.h","api/impl/map_error_code.h","error/error_info.cpp","api/impl/error_info.cpp","api/kvsservice/status_message.h","udf/error_info.cpp"],
  [("switch tables","src/jogasaki/api/impl/map_error_code.h")], observe=["mapped codes, to_string_view, accessors"])
P("C33", "Request options and description objects report what they were given",
  "Transaction options, mapped records, batch options, field options and column descriptions return exactly the values they were constructed with and the documented defaults otherwise; two descriptions compare equal exactly when all their described attributes are equal, including absent against present ones.",
  ["inputs"], "every combination of present and absent attributes and values",
  "Optional attributes are combinatorial; a swapped or dropped attribute goes unnoticed by a single example.",
  ["api/kvsservice/transaction_options.cpp","api/kvsservice/mapped_record.cpp","executor/batch/batch_executor_option.cpp","executor/dto/common_column_utils.cpp","executor/dto/describe_table_utils.cpp","executor/dto/common_column.h","meta/character_field_option.cpp","meta/decimal_field_option.cpp"],
  [("member-wise construction and comparison","src/jogasaki/executor/dto/common_column_utils.cpp")], observe=["accessors, operator=="])
P("C34", "User-defined function records deliver fields in order with exact values",
  "A record exchanged with a user-defined function returns its fields in the order they were added, each with its exact value and nullity and absent when read as a different type or past the end; resetting empties it; an error set on it is kept and returned.",
  ["histories","inputs"], "every bounded sequence of typed field additions and reads",
  "Type and order combinations are exponential; tests read a couple of records.",
  ["udf/generic_record_impl.cpp","udf/generic_record_impl.h","udf/generic_client_context.cpp","udf/error_info.cpp"],
  [("variant list + cursor","src/jogasaki/udf/generic_record_impl.cpp")], observe=["fetch_*, error()"])
P("C35", "User-defined function signatures expand to exactly the declared columns",
  "The descriptors of packages, services, functions, records and columns keep the names, order, kinds and indices they were built from, alternatives of a one-of expand into one record pattern per combination, and duplicates are detected exactly when two declared names coincide.",
  ["inputs","configurations"], "every bounded record shape with alternatives and nesting",
  "Expansion is combinatorial in the number of alternatives.",
  ["udf/descriptor_impl.cpp","udf/plugin_api.cpp","udf/descriptor/descriptor_analyzer.cpp","udf/udf_config.cpp"],
  [("record pattern expansion","src/jogasaki/udf/descriptor_impl.cpp")], observe=["argument_patterns, column accessors"])
# ---------------------------------------------------------------- SQL evaluation
P("C36", "Casts yield the target's nearest value, or report the loss",
  "Converting a value of one SQL type to another yields the equal value of the target type whenever there is one; otherwise the result is the documented nearest value (clamped to the target's range, truncated towards zero, cut at a character boundary and padded to the fixed length) under the policies that allow it, NULL or the documented error under the others, and the loss is recorded; malformed texts, unsupported pairs, disabled types and failing operands give their documented error, and a conversion never wraps around, reads outside its operand or throws.",
  ["inputs","configurations","faults"], "every value of every source type within the bounds, every target type, every loss policy",
  "Boundary values per pair of types and policy are combinatorial; undefined behaviour on out-of-range floats does not show on one platform; multi-byte texts cut at the target length are rare in tests.",
  ["executor/expr/details/cast_evaluation.cpp","executor/expr/details/cast_evaluation.h","executor/expr/details/cast_evaluation_temporal.cpp","executor/expr/details/common.h","executor/expr/details/constants.h","executor/expr/evaluator.cpp"],
  [("conversions per pair of types","src/jogasaki/executor/expr/details/cast_evaluation.cpp"),("truncation and padding","src/jogasaki/executor/expr/details/cast_evaluation.h"),("date and time texts","src/jogasaki/executor/expr/details/cast_evaluation_temporal.cpp")], observe=["resulting any / error kind","precision-loss flag"])
P("C37", "Built-in functions return the defined value, or report why not",
  "Every built-in scalar function returns the value its definition gives for the arguments, NULL for a NULL argument, and an error of the right kind when the result or an argument is out of range. SUBSTRING, POSITION, LENGTH and trimming count UTF-8 characters, return whole characters of the argument for every start and length including negative and huge ones, and reject malformed text; none reads outside its argument or runs longer than the argument warrants. ABS, MOD, CEIL, FLOOR and ROUND are exact or report overflow; ENCODE and DECODE are inverse; the current date and time follow the transaction's start time and the configured time zone.",
  ["inputs"], "every byte string up to the bound, every 64-bit start, length and scale, every numeric argument within the bounds",
  "Start/length arithmetic and rounding overflow at extreme arguments; malformed strings break at every offset; a decimal scale can exceed the digits available.",
  ["executor/function/builtin_scalar_functions.cpp"],
  [("each function","src/jogasaki/executor/function/builtin_scalar_functions.cpp")], observe=["function result"])
P("C50", "Expressions evaluate by SQL's rules, NULLs and errors included",
  "Evaluating a scalar expression over a row yields what SQL defines: three-valued AND/OR/NOT and IS predicates, comparisons and IS [NOT] DISTINCT FROM by value across mixed numeric types, arithmetic equal to the mathematical result where it is representable and an arithmetic error for division by zero or an unrepresentable quotient, CASE and COALESCE in order with the result converted to the common type, LIKE matching whole characters with its escape, concatenation and length, and function calls with converted arguments and checked large objects; NULL operands give NULL where defined, the error of an operand is the result as is, and evaluation leaves the caller's memory resource as requested.",
  ["inputs","faults"], "every value of every operand within the bounds, every operator and combination of NULL and failing operands",
  "Operators times type pairs times NULL/error positions times extreme values are beyond sampled cases; wildcard backtracking depends on the interplay of multi-byte characters and pattern tokens.",
  ["executor/expr/evaluator.cpp","executor/expr/lob_processing.cpp","executor/expr/evaluator_context.cpp","executor/conv/unify.cpp","utils/as_any.cpp"],
  [("evaluation of each kind of expression","src/jogasaki/executor/expr/evaluator.cpp"),("large object arguments and results","src/jogasaki/executor/expr/lob_processing.cpp")], observe=["resulting any / error kind","arguments seen by the function"])
P("C51", "Recovered table and index definitions equal the stored ones",
  "The definition of a table or an index read back from the metadata kept with its storage equals the one that was stored: names, identifiers, descriptions, column types with every option, nullability, features, default values of every kind including identity sequences and functions, key order and direction, value columns, index features, privileges, the storage key and the deletion mark. Metadata of an unsupported version, unreadable metadata, references to unknown tables or columns, and definitions that already exist (unless replacement is asked for) are reported as errors and replace nothing.",
  ["inputs","faults"], "every definition within the bounds with any content of its fields, every combination of already known definitions, any metadata version",
  "One wrong field out of dozens loses information only after a restart; sampled definitions rarely combine options, identifiers and default values.",
  ["utils/storage_metadata_serializer.cpp","recovery/storage_options.cpp","recovery/index.cpp","auth/fill_action_set.cpp"],
  [("definitions to metadata and back","src/jogasaki/utils/storage_metadata_serializer.cpp"),("storage options, version check and merging","src/jogasaki/recovery/storage_options.cpp")], observe=["recovered table, index and sequence","error code and status","contents of the providers"])
P("C52", "Result rows reach the client complete, in order and committed",
  "Each row written to a result channel arrives as one row of as many entries as it has columns, each entry the NULL or the value of that column (times with time zone in the local time of the configured offset together with the offset, large objects with provider, identifier and the reference tag issued for the transaction), and is committed as a whole and only when all of it was accepted; a refused write or a missing reference tag is reported and commits nothing. The row count of the channel is the sum of the rows of all released writers, each of which is released exactly once. A pool of writers never has more writers than seats nor lets two tasks use the same one, and closing it flushes and releases every writer given back.",
  ["inputs","faults","schedules"], "every row within the bounds with any values, every failing write, every history and schedule of bounded pool use",
  "A wrong entry only shows for particular types, zone offsets and NULL combinations; sharing a writer needs a particular interleaving.",
  ["executor/io/data_channel_writer.cpp","executor/io/record_channel_adapter.cpp","executor/io/record_channel_stats.h","executor/io/writer_pool.cpp","executor/io/writer_seat.cpp","utils/assign_reference_tag.cpp","serializer/value_writer.h"],
  [("row to entries, commit, release","src/jogasaki/executor/io/data_channel_writer.cpp"),("seats and writers of the pool","src/jogasaki/executor/io/writer_pool.cpp")], observe=["bytes and commit positions at the client's writer","row count, releases"])
P("C38", "Sequence values handed out are never reused or lost",
  "Values drawn from a sequence follow its definition (initial value, increment, minimum, maximum, cycling) without skipping or repeating, stop with an error at the end of a non-cycling sequence, and what a transaction records for recovery is a version with its value that is no older than the last one it was handed out.",
  ["histories","inputs"], "every definition with 64-bit parameters and every bounded history of draws",
  "Overflow at the ends of the 64-bit range and cycling boundaries.",
  ["executor/sequence/sequence.cpp","executor/sequence/manager.cpp","executor/sequence/manager.h"],
  [("next value computation with overflow handling","src/jogasaki/executor/sequence/sequence.cpp")], observe=["next() results, versions"])
P("C39", "Query steps start only after their inputs and every step completes",
  "For every step graph, number of tasks per step and order in which tasks end, the scheduler creates the tasks of a step exactly once, only after every step it takes input from has completed (and its preparation tasks have run) and after every step it sends to has been activated; it releases the data of a step only after its own tasks and those of all its readers are over; tasks that give way are resumed, an error lets the remaining steps complete without new work, and when the last step is done the completion of the job is requested, so that every graph ends with every step released.",
  ["schedules","configurations","faults"], "every bounded step graph, every task count and every order of running queued tasks",
  "Event orders are exponential and tests execute one; duplicate internal events only matter in particular graph shapes.",
  ["scheduler/dag_controller_impl.h","scheduler/dag_controller_impl.cpp","scheduler/step_state_table.cpp","scheduler/step_state_table.h","executor/common/graph.cpp","executor/common/step.cpp","executor/common/port.cpp","executor/process/task.cpp","executor/exchange/task.cpp"],
  [("state machine driven by internal events","src/jogasaki/scheduler/dag_controller_impl.cpp"),("task slots per step","src/jogasaki/scheduler/step_state_table.cpp")], observe=["step activation, task creation and execution, step deactivation"])
P("C48", "A request completes exactly once, after the last of its tasks",
  "Whatever kinds of tasks a job consists of, however they interleave on the workers, and in whichever of the supported ways completion is asked for (by a task, by several tasks, by a callback from another thread, because of a cancel request, a refused transaction or an error), the completion callback of the job runs exactly once, when no task of the job is running or queued and the job says it is ready; the writers are released, the job is unregistered once, and nothing touches the job after that. Task use counts and sticky worker counts of the transaction return to their old value, and a task whose transaction is being terminated is not executed but reported as such.",
  ["schedules","faults","configurations"], "every order of queued tasks of a bounded job, every interleaving of two threads within the preemption bound, every way to ask for completion",
  "The window between the last task and the teardown task is a few instructions wide; a lost or doubled completion or a use after release shows only in particular interleavings.",
  ["scheduler/flat_task.cpp","scheduler/flat_task.h","scheduler/job_context.cpp","scheduler/job_context.h","scheduler/task_scheduler.cpp"],
  [("teardown protocol: completing flag, task count, readiness","src/jogasaki/scheduler/flat_task.cpp"),("task counting","src/jogasaki/scheduler/task_scheduler.cpp")], observe=["completion callback, unregistration, accesses afterwards"])

# ---------------------------------------------------------------- bulk loading
P("C40", "Loading files runs every row once and reports completion once, at the end",
  "Executing a statement for the rows of a list of files runs it exactly once for every row of every row group, with that row's values, commits one transaction per non-empty or empty row group only after its statements are complete, and calls the completion callback exactly once: after everything is executed and committed with success, or with the first error and its status, whatever files, row groups or statements are empty or fail, whatever the concurrency limits and however the statements complete concurrently.",
  ["inputs","schedules","faults"], "every bounded list of files and row groups, every set of failures, every bounded schedule",
  "Completion of files and row groups races with the creation of the next ones; a test sees one schedule, and several of the repository's own tests of this part are disabled for that reason.",
  ["executor/batch/batch_executor.cpp","executor/batch/batch_file_executor.cpp","executor/batch/batch_block_executor.cpp","executor/batch/batch_execution_state.cpp"],
  [("file completion and release","src/jogasaki/executor/batch/batch_executor.cpp"),("error status","src/jogasaki/executor/batch/batch_execution_state.cpp")], observe=["statements executed, commits, completion callback, status and error info"])
P("C41", "Group exchange delivers every record once, grouped, ordered, limited",
  "For every input and partitioning, the records written to a group exchange come out exactly once each (or, with a limit, the first ones of each group in sort order up to the limit): all records of one group key arrive at one downstream partition, as one contiguous group delimited exactly where the group key changes, ordered by the sort columns as declared, whichever reader is configured, and a consumer that skips members of a group still sees every later group.",
  ["inputs","configurations","histories"], "every bounded set of records, distribution over writers and sorted runs, key and sort values, limits",
  "Grouping errors depend on which run and partition equal keys fall into; tests read a few fixed tables.",
  ["executor/exchange/group/*.cpp","executor/exchange/shuffle/pointer_table.cpp","executor/partitioner.cpp"],
  [("merge of sorted runs","src/jogasaki/executor/exchange/group/priority_queue_reader.cpp"),("sorting of all records","src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp"),("sorted runs and limit","src/jogasaki/executor/exchange/group/input_partition.cpp")], observe=["groups and members returned by the readers"])
P("C42", "Aggregate functions return what SQL defines for every group",
  "An aggregate query returns exactly one row per group key (NULLs forming one group), whatever way the records are spread over writers, partitions and partial aggregations: count(v) is the number of non-NULL values, count(*) of rows, count(distinct v) of values that are pairwise unequal; sum, avg, min and max are those of the non-NULL values and NULL when there is none; ungrouped aggregation of no rows returns one row with count 0 and other results NULL (and none after an error). Results stay valid after the input records are gone, and every declared function has an implementation of its name and types.",
  ["inputs","configurations","histories"], "every bounded set of records, values of every type, distribution over partitions and runs",
  "Partial aggregates are merged depending on hash table load and partitioning; NULL-only partial groups and text values are corner cases of the merge that a few fixed tables do not reach.",
  ["executor/exchange/aggregate/*.cpp","executor/function/incremental/*.cpp","executor/function/builtin_functions.cpp","executor/function/value_generator.cpp","executor/partitioner.cpp"],
  [("pre/mid/post aggregators","src/jogasaki/executor/function/incremental/builtin_functions.cpp"),("merge of sorted partial results","src/jogasaki/executor/exchange/aggregate/reader.cpp"),("hash aggregation","src/jogasaki/executor/exchange/aggregate/input_partition.cpp")], observe=["groups and values returned by the reader"])

P("C43", "Secondary indexes always match their table",
  "After every completed INSERT, INSERT IF NOT EXISTS, INSERT OR REPLACE, UPDATE or DELETE of a row, the table holds exactly the row the statement defines, every secondary index holds exactly one entry for that row (the values of its columns in their declared order and direction followed by the primary key) and no other entry of it, and no other row or entry is touched. A violated uniqueness or NOT NULL constraint and a failing storage operation are reported as errors, a failing or conflicting update aborts the transaction, written-record counters count exactly the affected rows, and read-only or primary key columns that may not change are rejected.",
  ["inputs","configurations","faults"], "every old and new row of the bounded table shapes, every mix of present and missing rows, every single storage fault",
  "An index entry is left behind or lost only for particular combinations of changed columns, NULLs, key directions and pre-existing rows; later queries through the index then silently return wrong rows.",
  ["index/*.cpp","executor/wrt/insert_new_record.cpp","executor/process/impl/ops/write_existing.cpp"],
  [("secondary target key encoding","src/jogasaki/index/secondary_target.cpp"),("insert of one record","src/jogasaki/executor/wrt/insert_new_record.cpp"),("update and delete of one record","src/jogasaki/executor/process/impl/ops/write_existing.cpp")], observe=["contents of table and index storages","returned status and error info"])

P("C44", "Searches and joins through an index return exactly the matching rows",
  "A point search, range search, or inner, left outer, semi or anti join by key values or key ranges, through the primary index or a secondary index, hands to the next operator exactly the rows of the table that satisfy the search (and the join condition), each exactly once and with its current column values; a NULL search key or bound matches nothing, a left outer join delivers one null-extended row exactly when no row matches. This holds wherever the operator or its successor suspends and resumes, and when entries disappear or are being modified concurrently as configured. Any failing storage operation, inconsistent index, failing expression or cancellation ends the operator as aborted with the error recorded, never as a successful wrong result.",
  ["inputs","configurations","faults","schedules"], "every content of the bounded tables, every search key and combination of bounds including NULL, both key directions, every suspension point, every single fault",
  "Wrong answers appear only for particular combinations of NULLs, directions, exclusive bounds, suspended operators, or rows changed concurrently; the query succeeds and returns a plausible but wrong result.",
  ["executor/process/impl/ops/find.cpp","executor/process/impl/ops/scan.cpp","executor/process/impl/ops/index_join.h","executor/process/impl/ops/index_matcher.h","executor/process/impl/ops/index_field_mapper.cpp","executor/process/impl/ops/details/encode_key.cpp","index/index_accessor.cpp"],
  [("point search","src/jogasaki/executor/process/impl/ops/find.cpp"),("range search","src/jogasaki/executor/process/impl/ops/scan.cpp"),("index joins","src/jogasaki/executor/process/impl/ops/index_join.h"),("search key and range encoding","src/jogasaki/executor/process/impl/ops/details/encode_key.cpp")], observe=["rows delivered downstream","operator status and error info"])
P("C45", "Grouped operators and joins deliver exactly the right groups and pairs",
  "Given sorted group inputs, the co-group operator hands each distinct key (NULL being one key) to its successor exactly once, in key order, with exactly the records every input holds for that key. Joins over these co-groups deliver exactly the combinations of records for which the join condition is true, each once; outer joins add exactly one null-extended row for every record left without a partner, semi and anti joins deliver each left record at most once according to whether a partner exists. Flattening delivers every record once, and group aggregation delivers exactly one row per group with the aggregate of exactly that group's records. This holds wherever a downstream operator suspends and resumes; a failing condition, a downstream abort or cancellation ends the operator as aborted and is never reported as success.",
  ["inputs","configurations","faults","schedules"], "every content of the bounded group inputs, every truth value of the condition per pair, every join kind, every suspension or abort point",
  "A join or group-by that drops, duplicates or mixes rows only for particular key overlaps, NULLs, outer sides or suspension points returns a plausible but wrong result.",
  ["executor/process/impl/ops/take_cogroup.cpp","executor/process/impl/ops/take_cogroup_context.cpp","executor/process/impl/ops/take_group.cpp","executor/process/impl/ops/flatten.cpp","executor/process/impl/ops/aggregate_group.cpp","executor/process/impl/ops/join.h"],
  [("merging of group inputs","src/jogasaki/executor/process/impl/ops/take_cogroup.cpp"),("joins","src/jogasaki/executor/process/impl/ops/join.h"),("group aggregation","src/jogasaki/executor/process/impl/ops/aggregate_group.cpp")], observe=["groups and rows delivered downstream","operator status and error info"])
P("C46", "Record operators pass every row on exactly once with the right columns",
  "In an operator pipeline, filtering passes on exactly the records whose condition is true, projection adds exactly the values of its expressions, VALUES produces exactly the listed rows, buffering gives each record to every successor once, taking from and offering to an exchange transfers every record with each column in its place (converted where the types differ), emitting writes exactly the visible columns under their names, and applying a table valued function delivers exactly the function's rows for each input record, plus one null-extended row for outer apply when there is none. No record is lost, repeated or evaluated twice when a successor suspends, a function is not ready yet, or records arrive late; failing expressions, functions, conversions or writers, aborting successors and cancellation end the operator as aborted, failures being recorded as the request's error.",
  ["inputs","configurations","faults","schedules"], "every content of the bounded record sequences, every arrival order, every suspension, failure or abort point, every column mapping",
  "These operators sit in nearly every query; a row lost, duplicated or re-evaluated only when a successor yields or data arrives late gives silently wrong answers.",
  ["executor/process/impl/ops/filter.cpp","executor/process/impl/ops/project.cpp","executor/process/impl/ops/values.cpp","executor/process/impl/ops/buffer.cpp","executor/process/impl/ops/take_flat.cpp","executor/process/impl/ops/emit.cpp","executor/process/impl/ops/offer.cpp","executor/process/impl/ops/apply.cpp","executor/process/impl/ops/apply_context.cpp","executor/wrt/fill_evaluated_value.h"],
  [("filter","src/jogasaki/executor/process/impl/ops/filter.cpp"),("taking records","src/jogasaki/executor/process/impl/ops/take_flat.cpp"),("emitting results","src/jogasaki/executor/process/impl/ops/emit.cpp"),("applying functions","src/jogasaki/executor/process/impl/ops/apply.cpp")], observe=["rows delivered downstream or written","operator status and error info"])
P("C47", "INSERT stores exactly the given values and the defaults of omitted columns",
  "Every row inserted by INSERT, from a list of values or from a query, stores in each listed column the given value (converted to the column's type where it differs), and in every other column its default: the declared constant, the next number of its sequence (drawn exactly once per row, recorded with the transaction), the value of its function, or NULL. NULL for a NOT NULL column, however it came about, a failing expression or conversion, a default of the wrong type, a missing or exhausted sequence, or a duplicate key (unless skipped) stops the statement: the row is not stored, the error is reported and the transaction is aborted; otherwise the statement succeeds without error.",
  ["inputs","configurations","faults","histories"], "every combination of given, converted and omitted columns with every kind of default, nullability and column order over bounded rows; every value; every sequence fault",
  "An insert that stores a wrong default, a garbage value in a NOT NULL column, or reports success after an error corrupts data silently.",
  ["executor/common/write_statement.cpp","executor/process/impl/ops/write_create.cpp","executor/wrt/fill_record_fields.cpp","executor/wrt/fill_evaluated_value.h","executor/wrt/insert_new_record.cpp"],
  [("default values","src/jogasaki/executor/wrt/fill_record_fields.cpp"),("INSERT of values","src/jogasaki/executor/common/write_statement.cpp"),("INSERT from a query","src/jogasaki/executor/process/impl/ops/write_create.cpp")], observe=["stored rows","statement outcome and error info","sequence draws"])
