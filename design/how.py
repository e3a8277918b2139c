# per property: (what is compared with what, why a test cannot settle it / what is a stand-in)
HOW = {
'C01': ("memcmp order of the two byte strings the real coder writes == order of the two values (order of the type, direction, NULL first), equal values <=> equal bytes", "order over all pairs of values; NaN and both zeros included; libmpdec and takatori decimal are small stand-ins (stubs/)"),
'C02': ("decode(encode(v)) is v and consumes exactly the bytes written", "every value of every type, both directions, nullable or not"),
'C03': ("the writable stream never writes past its capacity, reports insufficient storage instead, and what it wrote before is a prefix of the full encoding", "every capacity from 0 to the full size; buffer bounds are object bounds of the engine"),
'C04': ("api value serializer: written size == announced size, reading gives the value back", "all values per type code and all remaining buffer sizes"),
'C05': ("value reader and kvs coder on arbitrary bytes: no access outside the given bytes (engine object bounds; exact-size allocation with ASan natively), either a documented error or a value", "hostile or truncated storage content"),
'C06': ("sign/coefficient -> bytes -> coefficient is the identity, the byte count is minimal, digits agree with the number", "every 128 bit coefficient; byte helpers proved exactly, digit strings per length"),
'C07': ("accessor::text/binary against a plain byte-array reference: content, length, short/long form, comparison as unsigned bytes then length", "every content up to the stated length on both sides of the short/long switch"),
'C08': ("record_meta offsets: fields and nullity bits pairwise disjoint and inside the record; writing a field changes that field only", "all type vectors up to the bound with symbolic nullability and content"),
'C09': ("record_copier/field copy: target equals source field by field, untouched bytes keep their value, source unchanged", "symbolic records including long text that must be deep-copied into the resource"),
'C10': ("comparator: antisymmetric, transitive, equal iff all key fields equal; agrees with the sort spec computed independently", "three symbolic records instead of sample triples; decimal order is the stand-in's"),
'C11': ("hash(a)==hash(b) and partition(a)==partition(b) whenever the keys compare equal (signed zeros, decimal representations, short/long text)", "all pairs of equal keys; NaN excluded"),
'C12': ("page pool + mono/lifo/fifo resources: blocks aligned, inside a page, pairwise disjoint, of full size; pages returned exactly once", "sequences of allocations and releases with symbolic sizes and alignments; one entry with threads; zero-size blocks excluded"),
'C13': ("after restoring a checkpoint blocks allocated before keep address and content, later space is reusable, the page count returns to what it was", "symbolic positions within pages and page crossings"),
'C14': ("aligned_buffer/data buffers against a byte-array reference across resize, assign, copy, move, shrink", "symbolic sizes/alignments and operation order"),
'C15': ("stores return the records appended, in order, with equal content; iterators and range ends; priority queue / value store / small record store variants", "symbolic record content, counts across internal page boundaries"),
'C16': ("transaction_context state machine: after any operation from any state and any results of the (stand-in) storage calls, a final state stays final; error info of the first failure is kept", "inductive: any start state, one operation; interleaved callbacks"),
'C17': ("storage_manager/storage_list with threads: a storage being modified has no concurrent access, unless by the owner of the lock", "all interleavings within the stated preemption bound"),
'C18': ("unique_lock on a list of storages: either all or none are held; every exit path (destructor, move, exception) releases", "symbolic list with duplicates/unknown ids/locked entries, plus an adversary thread"),
'C19': ("durability_manager: every waiter is called exactly once and only with marker <= durable marker", "symbolic markers and thread interleavings"),
'C20': ("latch, event channel, wait objects: no wake-up before the condition, no sleeper left when it is satisfied", "interleavings, spurious wake-ups, time-outs on a virtual clock"),
'C21': ("counters equal the number of operations; statistics equal a reference fold", "interleavings of concurrent increments; symbolic sample values"),
'C22': ("privilege sets against a reference set of (user, action) pairs: grants/revokes of PUBLIC, owner and users", "symbolic action sets and user choice, any operation from any state"),
'C23': ("sanitize_utf8: output is valid UTF-8 by an independent reference decoder, printable, and each input byte appears as itself or as its escape", "every byte string up to the bound"),
'C24': ("hex/binary printers against independent digit arithmetic, buffer end respected", "every byte and length up to the bound"),
'C25': ("decode(encode(b)) == b; is_base64 accepts exactly the strings of the grammar", "every byte string up to the bound"),
'C26': ("UTF-8 scanning against an independent reference; never reads past the view (exact allocation)", "every byte string up to the bound incl. truncated characters"),
'C27': ("string helpers against reference predicates on each byte", "every string up to the bound"),
'C28': ("helpers against their mathematical definition", "every 64 bit argument / symbolic vectors"),
'C29': ("big-endian form round-trips, order of bytes == order of ids, invalid lengths refused", "every 64 bit id"),
'C30': ("offset parser accepts exactly the grammar and computes the minutes; printing round-trips; applying and removing is the identity", "every string up to the bound and every offset"),
'C31': ("pivots strictly increasing, strictly between the ends, right count", "symbolic end bytes and every scan inclusion; storage is a stand-in"),
'C32': ("error code <-> status maps are total, injective where documented, names equal the enumerators (list regenerated from the header)", "every integer value of the enums"),
'C33': ("getters return what was set; equality and copies; LOB references and describe utilities", "symbolic content and operation order; protobuf messages are generated structural stand-ins (tools/protogen.py)"),
'C34': ("UDF record / stream / client: fields delivered in order with exact values; stream is a bounded FIFO across threads with a defined end", "interleavings of producer, consumer, close and move; symbolic record fields"),
'C35': ("column expansion of message descriptors against a reference recursion (nesting, oneof)", "symbolic descriptor trees; protobuf descriptors are stand-ins"),
'C38': ("sequence manager: values strictly progress as the definition says, are recorded under the transaction's version, survive a restart without reuse; failures lose nothing registered", "any state + one operation, every status of the (stand-in) storage calls"),
'C39': ("the real controller, steps, ports, tasks and flat tasks run a graph whose steps record when they are activated, created, run and released; each of these moments asserts its preconditions, and at the end everything happened exactly once", "all graphs (symbolic edges) and all orders of queued tasks; the worker threads are replaced by a queue from which any task may be taken next"),
'C36': ("integer and fixed-point arithmetic written in the harness: clamped/truncated result, loss flag and outcome per loss policy; whole characters for text truncation", "decimals beyond 64-bit coefficients, printing and scanning of finite floating-point numbers and the text parsers of takatori and libmpdec (replaced by arbitrary parse results)"),
'C37': ("the definition of each function written in the harness over byte arrays, 64-bit integers and scaled decimals", "floating-point arguments, decimals with more than 16 bits of coefficient, and the decimal library itself (replaced by exact arithmetic on small values)"),
'C52': ("reading the bytes back with the reader checked by C04 and comparing entry by entry with the record; a ledger of commits, releases and users of each writer", "the status returned by the client's commit (the code ignores it), flush or commit after a row was refused, large decimals (C04), the dump and result-store channels, the real datastore (a stand-in issues the tags)"),
'C51': ("field by field comparison of the recovered definition with the stored one; an independent account of which definitions exist afterwards", "the byte format of protobuf (an encoded message is a stored copy of it), yugawara's schema classes (plain data here), more than three columns, and an identity sequence that already exists when a definition is read without replacement"),
'C50': ("reference evaluation in the harness: truth tables, 128-bit integers, a dynamic-programming LIKE matcher over characters, the prepared result of the decimal library", "floating-point arithmetic, integer overflow of + - * (left undefined by the code), malformed UTF-8 in LIKE, longer patterns and deeper nesting"),
'C48': ("completion callback count, running and queued tasks at that moment, and accesses to the job after it was unregistered (freed in the single-threaded entries)", "interleavings of two threads within the preemption bound; the transaction's use counts are a small stand-in (termination itself is C16)"),
'C40': ("batch file reader/executor/file/block state machines: every block is executed once, completion is reported exactly once and last, also with errors, stop requests and concurrent completions", "interleavings and failures at each point; the parquet reader and the engine API are stand-ins (stubs_batch)"),
'C41': ("group exchange source/sink partitions: the reader delivers exactly the multiset written, grouped, in sort order, limited per group", "symbolic keys/payloads, partition distribution and limits"),
'C42': ("aggregators (incremental and set functions) against the SQL definition computed independently (NULL handling, DISTINCT, empty groups)", "symbolic values and NULLs; sums that overflow and decimal averages that are not exact are excluded"),
'C43': ("after any INSERT/UPDATE/DELETE through the real write operators the secondary index entries equal the projection of the table", "symbolic rows and storage failures; KVS is a sorted-map stand-in (stubs_index)"),
'C44': ("find, scan, join_find, join_scan return exactly the rows of the store that satisfy the bounds (reference filter over the same store)", "symbolic keys, bounds, endpoint kinds, NULLs, store failures; planner output is a stand-in"),
'C45': ("take_group/take_cogroup/join/aggregate_group/flatten: each group/pair of the reference is delivered exactly once, in order, and end-of-group is signalled once", "symbolic keys with NULLs, join kinds, truth values of conditions forked per pair"),
'C46': ("filter, project, values, buffer, take_flat, emit, offer, apply: each input row leads to exactly the reference output rows, columns keep their values, yields and aborts lose nothing", "expressions and downstream verdicts are symbolic; unifying conversions are stand-ins"),
'C47': ("write_statement/write_create: the stored key/value equals given values plus defaults; failures insert nothing and report the right status", "conversions, functions and sequences are stand-ins with symbolic results"),
}
