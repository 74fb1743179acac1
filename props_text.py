FP = 'datafusion_remote_tables/src/filter_pushdown.rs'
prop('C01', 'A pushed-down filter reads back as the same expression tree',
 'Whenever a filter expression on a remote table is converted to SQL text for PostgreSQL, MySQL or SQLite, the text, read with that dialect\'s operator precedence and associativity, denotes exactly the original expression tree (regrouping of AND chains and of OR chains excepted): no operand is regrouped, dropped, duplicated or swapped. An expression containing any construct that cannot be converted is refused as a whole rather than shipped in part.',
 ['inputs'], 'every filter expression tree of any depth, over all node kinds and all operators, for each of the three remote dialects',
 'The tests convert about thirty fixed expressions; the space of operand/operator nestings is unbounded and mis-grouping appears only for particular pairs of neighbouring operators.',
 [FP], [('filter visitor', FP + ': FilterPushdownVisitor, filter_expr_to_sql'), ('operand parenthesising', FP + ': f_up')],
 observe=['the SQL text returned by filter_expr_to_sql, which the remote table provider puts in the WHERE clause sent to the remote database'],
 note='Proof for all expression trees that the text has a derivation in the grammar common to the three dialects that denotes the same tree. Trusts: string primitives (format, join, replace), the traversal order of DataFusion TreeNode::visit, the dialect precedence table in the contract. Replay: all node-kind pairs and random trees read back by an independent parser.')
prop('C02', 'Pushed-down names and strings stay single tokens with their exact value',
 'In SQL text produced for a remote dialect, every column name appears as exactly one quoted identifier token, and every string value as exactly one string literal token, which the remote database reads back as exactly the original characters, whatever characters they contain. No name or string content can end its token early or alter the rest of the statement.',
 ['inputs'], 'all column names and all string values (any characters, any length, all three string types), for each remote dialect and, for MySQL, both backslash modes',
 'The tests quote two or three benign names; injection needs particular characters (quotes, doubled quotes, backslashes, at either end) in particular dialects.',
 [FP], [('identifier quoting', FP + ': quote_identifier_double_quotes, quote_identifier_backticks, col_to_sql'), ('string quoting', FP + ': scalar_value_to_sql')],
 observe=['the SQL text sent to the remote database'],
 note='Proof for all strings: lexing the emitted token yields exactly the original characters, for each dialect; for MySQL in both backslash modes. Trusts str::replace/format and the token grammar in the contract (PostgreSQL standard_conforming_strings on, MySQL NO ANSI_QUOTES irrelevant to backticks).')
prop('C03', 'Pushed-down operators and literals mean the same in the remote dialect',
 'Every operator shipped to a remote database is one that exists in that dialect with the same meaning as the local operator, and every literal shipped denotes exactly the local value (dates and timestamps the same instant with full sub-second precision, numbers the same number, absent values NULL). Operators and values without such an exact counterpart are never shipped.',
 ['inputs'], 'all operators, all scalar values of all types, all three remote dialects',
 'The tests ship around ten operators and literals of a few types; wrong units, lossy display forms and dialect differences show only for particular types, values or operators.',
 [FP], [('operator mapping', FP + ': op_to_sql of each dialect'), ('literal mapping', FP + ': scalar_value_to_sql')],
 observe=['the SQL text sent to the remote database'],
 note='Proof for all operators and scalar values, against a dialect operator table and a literal table in the contract. Trusts the Display of numbers, dates and timestamps (exercised by the replay), the arrow temporal conversions, and the dialect table (from the manuals).')
UT = 'src/datafusion/utils.rs'
prop('C04', 'A declared column type is stored exactly or refused',
 'Every SQL type a CREATE TABLE (or cast of the column list) declares is mapped to exactly the Arrow type that the documented type table gives it; in particular DECIMAL(p, s) / NUMERIC(p, s) always gives precision p and scale s exactly, and a precision or scale that cannot be represented (0 precision, precision above 38, scale above the precision, a scale without a precision) is an error. A type outside the table is an error. No declaration is ever silently mapped to a different width, sign, unit, precision or scale.',
 ['inputs'], 'every SQL type the parser can produce, with every length, precision (0..2^64-1), scale (0..2^64-1) and time-zone qualifier',
 'Tests declare a handful of types with small parameters; narrowing of a parameter shows only for values beyond the narrower range (DECIMAL(257) used to become DECIMAL(1)).',
 [UT], [('type table', UT + ': convert_simple_data_type'), ('decimal validation', UT + ': make_decimal_type')],
 observe=['the schema of a created table (information_schema.columns, the Delta table schema)'],
 note='Proof for every parser type and every parameter value; the contract is the full type table. Trusts ConfigOptions::default() (session time zone +00:00) and String to Arc<str> conversion.')
prop('C05', 'A created table has exactly the declared columns',
 'CREATE TABLE yields a schema with exactly one field per declared column, in declaration order, with the declared name (folded to ASCII lower case when unquoted, kept character for character when quoted), the declared type, and nullability false exactly when one of that column\'s options is NOT NULL, wherever in the option list it stands. If any column has an unsupported type the whole statement is refused.',
 ['inputs'], 'all column lists of any length with all names, quotings, types and option lists',
 'Tests create tables with a few plain columns; constraints after the first option, mixed-case or non-ASCII names and later columns affecting earlier ones need particular combinations.',
 [UT], [('schema construction', UT + ': build_schema'), ('identifier folding', UT + ': normalize_ident')],
 observe=['the schema of a created table (information_schema.columns, the Delta table schema)'],
 note='Proof for column lists of any length (loop invariants over columns and options). Trusts slice/vector iteration order, Field::new, Schema::new, to_ascii_lowercase.')

WU = 'src/wasm_udf/wasm.rs'
WD = 'src/wasm_udf/data_types.rs'
prop('C06', 'WASM function arguments and results keep their exact value',
 'For a wasmMessagePack function, every non-null argument of a supported type reaches the guest as the one MessagePack encoding of exactly that value (booleans, integers, floats bit for bit, strings character for character, dates as days, timestamps as nanoseconds, decimals as [precision, scale, high 64 bits, low 64 bits] of the two-complement 128-bit number), and every answer the guest gives that is a well-formed value of the declared return type becomes exactly that value; an identity function therefore returns its argument unchanged. An answer that is not a value of the declared type (wrong kind, out of range, wrong precision or scale, more digits than the precision) fails the call instead of becoming some other value.',
 ['inputs'], 'all argument values of all supported types, all guest answers for all declared return types',
 'Tests pass a few small positive values; sign extension of the low decimal half, integer narrowing, precision limits and unexpected answer kinds show only for particular values.',
 [WU], [('argument encoding', WU + ': get_arrow_value'), ('answer decoding', WU + ': messagepack_decode_results, decode_udf_result_primitive_array')],
 observe=['SELECT f(x): the value the guest receives, the value of the result column'],
 note='Proof for all values of the encode and decode functions incl. a round-trip lemma (decode(encode(v)) = v). Trusts the rmpv value model (from_slice / write_value of rmpv::Value) and the arrow array accessors; NULL slots are out of scope (passed as their slot value). Replay: real wasmtime guests echoing and dumping the frames.')
prop('C07', 'WASM memory protocol moves exactly the framed bytes',
 'Every call of a wasmMessagePack function writes into guest memory exactly one frame, a 4-byte little-endian length followed by that many payload bytes, at the address the guest allocated, with the allocated size equal to the frame size, and nothing outside it; it reads back exactly the frame at the address the guest returned (addresses and lengths unsigned), and releases each buffer exactly once with its own address and size. A frame that does not lie wholly inside guest memory, or does not decode, fails the call: no host panic, no read or write outside the frame, no value made up.',
 ['inputs', 'fault_sequences'], 'all payloads of all sizes, all addresses and lengths a guest can return, all guest memory sizes',
 'Tests call one well-behaved guest; boundaries of memory, addresses above 2^31 and hostile lengths need a guest written for it.',
 [WU], [('input frame', WU + ': write_udf_input'), ('output frame', WU + ': read_udf_output'), ('call sequence', WU + ': WasmMessagePackUDFInstance::call')],
 observe=['guest memory and the calls to the guest alloc / dealloc exports', 'the result or error of SELECT f(x)'],
 note='Proof for all frame addresses, sizes and memory sizes. Trusts the wasmtime contracts (Memory::read/write succeed exactly when the range lies in memory; TypedFunc::call) and rmpv. Replay: guests written in WAT at the edges of memory.')
prop('C08', 'CREATE FUNCTION binds exactly the declared signature',
 'A function is registered with exactly the declared language, entry point, argument types in order, return type and volatility: each declared type name (any letter case) is bound to its documented Arrow type and, for plain WASM functions, to its documented WASM value type; types a language cannot represent are refused with an error, and a module whose exported entry point has another signature than the declared one is refused on the call rather than called with reinterpreted values.',
 ['inputs'], 'all declared signatures over all type names, both languages, all volatilities',
 'Tests register a few two-argument functions; swapped types, positions beyond the second and unsupported types need particular declarations.',
 [WU, WD], [('type tables', WU + ': get_wasm_type, sql_type_to_arrow_type'), ('volatility', WU + ': get_volatility'), ('registration', WU + ': create_udf_from_wasm')],
 observe=['the registered function (information_schema / EXPLAIN types)', 'the error of CREATE FUNCTION or of the first call'],
 note='Proof of the type and volatility tables for every declared type and of create_udf_from_wasm for argument lists of any length. Trusts DataFusion create_udf to record what it is given and the strum/serde derive on the type enum (exercised by the replay).')
prop('C09', 'A WASM function is applied row by row',
 'For every batch, the result column of a WASM function has exactly one value per input row (none for an empty batch), the value at row i being the function applied to exactly the arguments of row i in declaration order, with scalar arguments repeated for every row, for any number of arguments including none, in both languages. If the call fails for any row the whole batch fails; no row is skipped, repeated, reordered or left with a default.',
 ['inputs'], 'all batch lengths, all argument counts, all mixtures of array and scalar arguments, all supported types',
 'Tests call functions on a few rows; empty batches, zero arguments, sliced arrays and mixtures need particular inputs (an empty batch and a function without arguments used to panic or return the wrong length).',
 [WU], [('MessagePack rows', WU + ': make_scalar_function_wasm_messagepack'), ('plain WASM rows', WU + ': make_scalar_function_from_wasm')],
 observe=['the result column of SELECT f(...) FROM t'],
 note='Proof of both row loops for any number of rows and arguments (loop invariants). Trusts the arrow builders/accessors and wasmtime Func::call; per-value conversion in the MessagePack language is C06. Replay: real guests on mixtures of arrays and scalars.')
VS = 'src/version.rs'
LG = 'src/context/logical.rs'
prop('C10', 'A time-travel reference reads exactly the named table as of the named version',
 'In a query that uses table(\'version\') references, every such reference reads the table that the same name without a version would read (same folding of unquoted parts, quoted parts exactly as written, same defaults for a missing schema or catalog), at exactly the instant the version text denotes; every reference without a version keeps reading the current table; all other text of the query is untouched. Different tables or different instants are never mixed up, in whichever position of the query and however often a table is referenced. A version text that is not an instant is refused.',
 ['inputs'], 'all queries with any number of references in any position, all table names (quoted or not, one to three parts), all version texts',
 'Tests use one or two lower-case tables; quoted and qualified names, several versions of one table and shadowing show only in particular combinations.',
 [VS, LG], [('reference rewriting', VS + ': TableVersionProcessor::pre_visit_table_factor, table_with_version, version_to_datetime'), ('session with versions', LG + ': rewrite_time_travel_query')],
 observe=['rows returned by SELECT .. FROM t(\'2022-01-01 00:00:00\')'],
 note='Proof for all queries of any number of references. Trusts: sqlparser\'s visitor reaches each table factor once, the planner\'s name resolution as stated, chrono, the Delta table load. rewrite_time_travel_query is proved from its source; in the replay it runs verbatim against a stand-in catalog because context/* does not build here.')
PA = 'src/datafusion/parser.rs'
prop('C11', 'A script is split into its statements and each means what it says',
 'A SQL text is read as exactly the statements it contains, in order, separated by semicolons (empty ones ignored), and refused as a whole when two statements are not separated or one is not well formed: no statement, clause or following statement is ever swallowed, merged or invented. The statements seafowl adds or parses itself (COPY TO, CONVERT .. TO DELTA, VACUUM TABLE / DATABASE, TRUNCATE TABLE, CREATE FUNCTION, CREATE EXTERNAL TABLE) carry exactly the names, literals, options, columns and flags (OR REPLACE, TEMPORARY, UNBOUNDED, IF NOT EXISTS) that were written, whatever the clause order; a repeated clause or an unsupported one is an error; every other statement means what the SQL parser library gives for it, OR REPLACE included.',
 ['inputs'], 'all texts: any number of statements, any clause order, all names, literals and option lists',
 'No unit test covers the parser copy; which delimiter is eaten, which clause resets another and whether OR REPLACE survives show only for particular combinations of statements and clauses.',
 [PA], [('statement loop', PA + ': parse_sql_with_dialect, parse_statement'), ('COPY clauses', PA + ': parse_copy'), ('external tables', PA + ': parse_create_external_table'), ('CREATE dispatch', PA + ': parse_create, parse_create_function')],
 observe=['the statements executed for a script', 'the error of a refused script'],
 note='Proof of every function of the parser module against a grammar over token lists, for token lists of any length. Trusts the primitives of sqlparser (stated as contracts on its Parser; exercised by the replay). OR REPLACE before EXTERNAL has no meaning defined and is out of scope.')
RD = 'src/repository/default.rs'
prop('C12', 'Every catalog change happens exactly as asked, and whole or not at all',
 'Each catalog operation (create/delete database, collection, table; new table version; rename/move; delete old versions; create/replace/drop functions; update/delete dropped tables) makes exactly the change it names and no other, in one step: when it fails at any point (any statement, any constraint, at commit) the catalog is as before, and when it reports success the whole change is there. Lookups and listings change nothing and answer what the catalog holds.',
 ['inputs', 'crash_points'], 'all catalog contents, all arguments (names, ids, schemas and name lists of any length), a failure at any statement of the call',
 'Tests run each call once on a healthy database; failures between two statements of one call, and name lists of two or more, never occur there (a table could be left without its columns; DROP FUNCTION a, b dropped only a; the deletion status could never be updated).',
 [RD, 'src/repository/sqlite.rs', 'src/repository/postgres.rs', 'src/catalog/repository.rs'], [('catalog operations', RD + ': implement_repository! (all 19 methods)'), ('by name', 'src/catalog/repository.rs: the CatalogStore, SchemaStore, TableStore and FunctionStore of RepositoryStore'), ('error classes and dialect queries', 'src/repository/sqlite.rs, src/repository/postgres.rs: interpret_error, QUERIES')],
 observe=['rows of the catalog tables after a call', 'Result of the call'],
 note='Proof over a ghost log of (state before, state after) per committed transaction and per statement outside a transaction. Trusts sqlx, the database, and the meaning stated for each literal SQL text (exercised on SQLite by the replay). Postgres-only behaviour is not exercised here. setup() (migrations) is out of scope. RepositoryStore (all its methods but the listing of schemas, which is replayed) is proved over the repository calls: names are looked up to exactly the id that is changed.')
HT = 'src/frontend/http.rs'
AU = 'src/auth.rs'
prop('C13', 'The HTTP frontend reads and writes only for callers the configuration permits',
 'For every access configuration (any / off / password, separately for reads and writes) and every Authorization header: a request is admitted exactly when the configuration admits the caller (no token: only if reads or writes are open to anyone; a token: exactly `Bearer ` followed by a text whose SHA-256 in lower-case hex is a configured hash), it reads only if that caller may read and writes only if that caller may write; otherwise it is answered with the documented status and nothing is planned, executed or stored. GET executes only statements that change nothing, only if the hash in the path is the hash of the query given in a header or body, and nothing at all when If-None-Match carries the current ETag. A POST script counts as a write unless every statement in it leaves the data and the catalog as they are (SELECT .. INTO, CREATE TABLE AS, EXPLAIN ANALYZE of a write and the like are writes); it is executed in order, in the database named in the path, with at most one read, last. An upload stores exactly the bytes sent, with the given schema and header flag, in the table named in the path of the database named in the path.',
 ['inputs', 'configurations'], 'all access configurations, all Authorization headers, all scripts and statements, all hashes and ETags, all upload forms',
 'Tests try a handful of configurations with one write statement; which statements count as reads, how a header is taken apart and what is still executed after a refusal depend on inputs no test tries (a reader could create tables with SELECT .. INTO).',
 [AU, HT, LG, 'src/frontend/http_utils.rs', 'src/config/schema.rs'],
 [('principal and policy', AU + ': token_to_principal, can_perform_action, AccessPolicy::from_config'), ('header', HT + ': header_to_user_context, with_auth, cached_read_query_authz'), ('read or write', LG + ': is_statement_read_only, is_read_only'), ('endpoints', HT + ': uncached_read_write_query, cached_read_query, upload, load_part'), ('answers', 'src/frontend/http_utils.rs: status_code_body, into_response')],
 observe=['HTTP status and body', 'statements executed and files loaded by a request'],
 note='Proof of every function named above, over a ghost log of what ran and what was loaded. Trusts SHA-256, hex, percent decoding, multipart parsing, the planner and that what LogicalPlan::{Dml, Ddl, Copy, Extension, Analyze} do not cover changes nothing. The route table (filters) is exercised by the replay through warp, not proved. The ETag covers Delta tables only (external files and functions are not part of it).')

CA = 'src/object_store/cache.rs'
prop('C14', 'A read through the byte-range cache returns exactly the object\'s bytes',
 'For every object, every byte range, every chunk size and every history of reads, evictions, failed or unfinished writes of cache files and cache files lost or cut short: CachingObjectStore::get_range returns exactly the bytes the wrapped store holds in that range (cut at the end of the object), never bytes of another range, object or store, never panics, and fails only if the wrapped store failed or the range starts at or beyond the end of the object. An entry of the cache holds the bytes of exactly the chunk it is named after; two different chunks never share a file; eviction removes nothing but the evicted chunk\'s own file; a sibling shares entries only with a store of the same content.',
 ['inputs', 'histories', 'fault_sequences'], 'all objects, ranges, chunk sizes, and all histories of reads, evictions and file failures',
 'Tests read a few ranges of one object in one order; wrong bytes show only for particular alignments of range, chunk and object end, or for a particular earlier history (a partially written file, a failed read, an eviction in between).',
 [CA], [('range read', CA + ': get_range, get_range_inner, get_chunk_range'), ('chunk store', CA + ': cache_chunk_data, CacheFileManager::{write_file, read_file, remove_file}, CacheKey::as_filename'), ('eviction, siblings', CA + ': on_evict, new_from_sibling')],
 observe=['bytes returned by reads of Parquet data from remote storage'],
 note='Proof of all functions of the read path, with loop invariants, over ghost contents of store, files and cache. Trusts moka, the file system calls, SHA-256, and that objects are immutable; metrics calls are dropped; the spawned write is treated by rely/guarantee.')

WR = 'src/object_store/wrapped.rs'
FA = 'src/object_store/factory.rs'
UT = 'src/object_store/utils.rs'
prop('C15', 'Every storage operation reaches the right store and place, unchanged',
 'The layers between tables and storage are transparent. Whatever is asked of InternalObjectStore or (range reads apart) CachingObjectStore is asked of the wrapped store exactly once, with the same paths, payload and options, and its answer, success or error, is handed back; the only permitted changes are those the configuration calls for (a local store with hard links disabled turns exclusive creates, copies and renames into plain ones; S3 turns exclusive renames into plain ones). A table\'s data goes to and is read from exactly the configured prefix followed by the table\'s own, below the store\'s root, and the location named in its log store is that place. A location and set of options always gets the store built from exactly these (same ones: the same store; different ones: never one built with other credentials or for another location), with the cache around remote stores exactly when one is configured. Deleting a dropped table\'s prefix deletes listed objects only and succeeds only if all were listed and deleted. Uploading by moving a file either succeeds with the content at the target, or fails with the source intact.',
 ['inputs', 'configurations', 'fault_sequences'], 'all operations, arguments, configurations, locations and option sets; failures of any operation of the wrapped store; all orders of table requests',
 'Tests run a local or in-memory store with one configuration; which operation of a wrapper is misdirected for which configuration, a failure half way through a deletion or a move across file systems never occurs there.',
 [WR, FA, UT, 'src/object_store/cache.rs'],
 [('wrapper', WR + ': impl ObjectStore for InternalObjectStore, new, table_prefix, local_table_dir, get_log_store, delete_in_prefix'), ('cache layer', 'src/object_store/cache.rs: impl ObjectStore for CachingObjectStore'), ('factory', FA + ': build_object_store, get_log_store_for_table, get_default_log_store'), ('upload', UT + ': fast_upload')],
 observe=['operations that reach the underlying store', 'files on disk after an upload', 'the store and location of a table\'s log store'],
 note='Proof of all functions named over a ghost log of store operations and, for uploads, a ghost file system. Trusts the object_store crate, delta-rs, DashMap and the file system. Hash/Eq of the store cache key, and SeafowlConfig plumbing, are exercised in the replay only.')
WT, SC = 'src/sync/writer.rs', 'src/sync/schema/mod.rs'
prop('C16', 'Replicated changes are stored once, in order; reported sequences are true',
 'Changes received by the data sync writer reach their tables exactly once and in the order received, and what is reported about them is true at every moment. A message is rejected exactly when it comes from another origin while a transaction is open, or is an empty transaction of its own; a rejected message changes nothing. After any series of messages and flushes, where any operation of a flush may fail, every table holds the effect of exactly the first so many messages received for it, and the rest are still held in memory; a failed flush loses nothing. The memory sequence of an origin is that of its last transaction received in full. The durable sequence is that of the last of its transactions for which it and all transactions before it are received in full and stored in every table they touch; a successful flush withholds none of these. The sync commit info recorded with a table names a transaction whose changes to this table, and all earlier ones, are in it. After a successful flush no location is past the configured lag or number of batches and the memory held is below the limit; the recorded size is that of the batches held. Batches are merged only when their columns agree in number, order, name, role and type, and never onto a batch that is already squashed. A table that is created gets the columns of the new keys and the values.',
 ['histories', 'fault_sequences', 'inputs', 'configurations'], 'all histories of messages of any origins, tables, schemas, sequences and sizes, interleaved with flushes; any failure of any operation of a flush; all limits',
 'A handful of histories are tried in the tests of the writer, none with failing commits, batches that are squashed and then appended to, schemas that are prefixes of one another, or transactions that end after their rows have been flushed.',
 [WT, SC, 'src/sync/mod.rs', 'src/sync/utils.rs'],
 [('queue of transactions and batches', WT + ': enqueue_sync, stored_sequences'), ('flush', WT + ': flush, flush_ready, flush_syncs, physical_squashing, create_table'), ('durability', WT + ': commit_info, table_sequence, remove_tx_locations, remove_sync, advance_durable'), ('schema compatibility', SC + ': is_compatible_with')],
 observe=['stored_sequences(origin)', 'rows of the tables', 'sync_commit_info of the last commit of a table', 'accepted or rejected messages'],
 note='Proof of all functions named over a ghost history of everything received and committed, with an invariant that ties the queue, the buffers and the tables to it; loops unbounded. Trusts delta-rs, the planner and squash_batches (C17) to have the effect of the batches they are given, serde round trips, and a clock that does not go backward. Metrics and log statements are dropped.')

prop('C17', 'Squashing a batch of changes keeps its net effect; bad schemas are refused',
 'Squashing the change batches of a message into one keeps what they do: for every table on which the rows make sense one after the other (each changes or deletes a row that is there, and makes none under a key that is taken), the squashed rows name each old and each new key at most once, none is without both keys (where none of the rows is), and applied all at once to the table as it was give the same table as the original rows in sequence. This holds for keys of any number of columns listed in any order, for keys that change, swap or come back, rows made and deleted again, any number of value columns with and without a Changed flag (an unflagged value is always taken, a flagged one only where the flag is true), and any division into batches; the columns and their roles stay as they were. A set of column descriptors is accepted for a batch exactly when there is one per field, each role is known, each Changed column is boolean and names a Value column, and, where keys are asked for, the old and the new key columns are the same and not none; each column is then found by its name and role.',
 ['inputs', 'histories', 'programs'], 'all schemas, batches and tables: any number of rows, chains and columns',
 'The one fuzz test squashes batches of a single key column with one flagged column; it never has composite keys in different orders, several flags, or batches that cancel out.',
 ['src/sync/utils.rs', SC],
 [('squashing', 'src/sync/utils.rs: squash_batches'), ('descriptors', SC + ': SyncSchema::try_new, column, columns, with_fields, is_compatible_with')],
 observe=['the batch squash_batches returns', 'SyncSchema::try_new: accepted or refused', 'SyncSchema::column'],
 note='Proof of the whole of squash_batches against a sequential model of tables (17 loops, unbounded), and of SyncSchema::try_new, column, columns, with_fields and is_compatible_with. Trusts the arrow kernels (concat_batches, RowConverter, take, RecordBatch::try_new), the std collections and prost\'s role numbers. Log statements are dropped.')

prop('C18', 'A planned flush changes each row of the table as its changes say',
 'Planning a flush over a table gives a table in which each row is what the changes of its items, one after the other, make of it: a value is the one the last change that sets it gives (a change sets each Value column it carries, unless a Changed column for it says false), a row no change touches is as it was, in all of its columns, deleted rows are gone, inserted rows are there with NULL for what no change gives, a row that gets a new key is there once, under the new key, and no row is there twice. When two items are made one, each old key is the one from the earliest and each new key the one from the latest item that touches the row, a value and its flag come from the latest item that sets it, and every column of either item is kept with a flag where only one of them has the value. This holds for items with different columns in any order, append-only or not, for keys of several columns, keys that change, names of any spelling, and however the rows lie in files with or without statistics. (Recorded findings: values that an item sets under a flag are lost when a later item of the same flush touches the row without setting them; a row that gets a new key, or is inserted under a key freed in the same flush, loses or inherits the values no change gives.)',
 ['inputs', 'histories', 'programs'], 'all tables, items and schemas: any number of items, rows, columns and files',
 'The unit tests plan two fixed sequences of items with one-column keys and lower-case names over a table with one file.',
 ['src/sync/planner.rs', 'src/sync/schema/merge.rs', 'src/sync/schema/join.rs', 'src/sync/schema/union.rs', 'src/sync/utils.rs'],
 [('merging of items', 'src/sync/schema/merge.rs: merge_schemas; join.rs; union.rs'), ('normalizing and applying', 'src/sync/planner.rs: normalize_syncs, apply_syncs'), ('pruning', 'src/sync/planner.rs: prune_partitions; src/sync/utils.rs: construct_qualifier, get_prune_map')],
 observe=['the rows that the plan of plan_delta_syncs gives', 'the files it removes'],
 note='Proof of merge_schemas and the expressions it builds, and of squash_syncs, merge_syncs, join_syncs, union_syncs, normalize_syncs and apply_syncs: for all items and tables, which rows the plan of each gives, and each cell. Pruning and plan_delta_syncs as a whole are run by the real DataFusion on seeded histories: bounded. Trusts the meaning of DataFusion\'s expressions and plans; assumes one batch per item, no nested table columns and none named like the planner\'s own.')
prop('C19', 'INSERT, UPDATE, DELETE and TRUNCATE change exactly the rows they say',
 'An INSERT adds exactly the rows of its source, each once. An UPDATE gives each row for which its condition is true the assigned values, computed from the row as it was and cast to the types of the columns, and leaves every other column of that row, and every row for which the condition is false or NULL, as it was; without a condition it is about all rows. A DELETE removes exactly the rows for which its condition is true - a row for which it is NULL stays - and without a condition all rows, as does a TRUNCATE. A CREATE TABLE AS makes a table of the rows of its query, with timestamps of nanoseconds cut to microseconds. This holds for any layout of the table: any number of files, with or without statistics, row groups the condition rules out, and files in which only some rows satisfy it; rows of files that are rewritten are carried over, rows of the others are untouched. The new files hold at most the configured number of rows each, under distinct names, complete in the object store or the local table directory, and the log entry of each states its path, size and statistics; the entries for rewritten files are removed, and no others. A statement makes one new version of the table, recorded in the catalog under the same number. A statement that is refused, such as a DELETE or UPDATE whose condition has a subquery, or an UPDATE with FROM, leaves the table as it was.',
 ['inputs', 'histories', 'programs', 'configurations'], 'all statements, tables and layouts: any rows, batches, partitions, file sizes and limits',
 'The integration tests run a few statements over tables of one column layout with small files; rows lost to NULL conditions, skipped row groups or optimized conditions do not occur in them.',
 ['src/context/physical.rs', 'src/context/delta.rs', 'src/provider.rs', 'src/context/logical.rs'],
 [('statements', 'src/context/physical.rs: create_physical_plan (Insert, Update, Delete, Truncate and CreateMemoryTable arms), coerce_plan'), ('assignments', 'src/provider.rs: project_expressions'), ('writing and uploading files, commit', 'src/context/delta.rs: plan_to_delta_adds, plan_to_delta_table, commit_delta_table'), ('planning', 'src/context/logical.rs: create_logical_plan_from_statement')],
 observe=['the rows a query of the table gives after the statement', 'the files and log entries of the new version', 'the versions the catalog records'],
 note='Proof, for all plans, batches and limits, of plan_to_delta_adds (every row once and in order, files of the allowed size under distinct names), the upload of each file (all of its bytes, its size), of the assignments of an UPDATE, and of the Delete, Update, Insert and CREATE TABLE AS arms and of Truncate down to the commit (which files are removed and added, which rows they hold, the recorded version). Planning is run by the real DataFusion on seeded histories of statements, with these arms: bounded. Trusts DataFusion\'s expressions and scans, the Parquet writer and object_store; tasks run one after the other in the proof.')

prop('C20', 'CREATE, DROP, RENAME and CONVERT change exactly the object they name',
 'CREATE TABLE makes one empty table with the columns given, under the name given (quoted, or qualified by schema and database), with an object prefix of its own; CONVERT ... TO DELTA makes one of the Parquet files at the prefix given; DROP TABLE removes exactly that table, from the catalog first and then its objects; ALTER TABLE RENAME moves exactly that table to the new name, with its objects as they are; CREATE and DROP SCHEMA, CREATE DATABASE (with a public schema), CREATE [OR REPLACE] FUNCTION and DROP FUNCTION change exactly that object, and DROP SCHEMA also drops every table in the schema and no other. IF [NOT] EXISTS makes the statement succeed and change nothing when the object is (not) there. No statement makes, renames to, or drops a schema in another database than the session\'s. A statement that fails by itself changes nothing in the catalog and removes no objects; when the catalog refuses a change, or fails, in the middle (a read-only catalog, a crash), every other object is as it was and every table still in the catalog still has all its objects.',
 ['inputs', 'histories', 'fault_sequences', 'configurations'], 'all DDL statements, names, contents of the catalog, and points at which the catalog fails',
 'The integration tests run a handful of statements against a catalog that never fails, over unquoted names in one database.',
 ['src/context/physical.rs', 'src/context/delta.rs', 'src/context/logical.rs', 'src/context/mod.rs'],
 [('statements', 'src/context/physical.rs: create_physical_plan (CreateTable, ConvertTable, RenameTable, CreateFunction, DropFunction, DropTable, DropCatalogSchema, CreateCatalogSchema and CreateCatalog arms)'), ('making a table', 'src/context/delta.rs: create_delta_table, delete_delta_table'), ('names', 'src/context/mod.rs: resolve_table_ref'), ('planning', 'src/context/logical.rs: create_logical_plan_from_statement')],
 observe=['the databases, schemas, tables and functions in the catalog after the statement', 'the objects below each table\'s prefix', 'whether the statement succeeds'],
 note='Proof, for all names, sessions and answers of the catalog, of create_delta_table, resolve_table_ref and the nine arms of create_physical_plan: the exact changes made, in order, also when one of them fails. What the catalog does with each change is C12. Planning (SQL text to node), and delete_delta_table, are run for real on seeded histories of statements, with a catalog that starts refusing changes: bounded. Trusts delta-rs to make a log at the prefix given, and object_store to list and delete.')

prop('C21', 'VACUUM removes only objects of dropped tables, and forgets them only then',
 'VACUUM DATABASE, and the garbage collection that runs in the background, remove objects below the prefixes of tables that the catalog lists as dropped (from that database, if one is named) and have not been given up on, and no other object. The catalog forgets a dropped table only after all objects below its prefix are removed. If removing them failed, the table stays listed, to be tried once more (PENDING becomes RETRY) and then left for manual cleanup (RETRY becomes FAILED); a failure for one table, or of the catalog, does not keep the others from being collected. VACUUM TABLE removes files of that table only, judged by its latest version, and forgets the older versions of that table, and of no other, only if that worked.',
 ['inputs', 'fault_sequences', 'histories', 'configurations'], 'all lists of dropped tables, prefixes, and points at which the store or the catalog fails',
 'The integration tests vacuum one or two tables with a store and a catalog that never fail.',
 ['src/utils.rs', 'src/context/physical.rs', 'src/object_store/wrapped.rs'],
 [('garbage collection', 'src/utils.rs: gc_databases'), ('statement', 'src/context/physical.rs: create_physical_plan (Vacuum arm)'), ('objects', 'src/object_store/wrapped.rs: delete_in_prefix, table_prefix (proved in C15)')],
 observe=['the objects in the store', 'the records of dropped tables and their status', 'the versions of a table in the catalog'],
 note='Proof, for any number of dropped tables (loop invariant) and any failure of the store or the catalog, of gc_databases and of the Vacuum arm: the exact changes made, in order. Both are also run for real on seeded histories with objects that cannot be deleted and a catalog that fails: bounded. Trusts delta-rs\' vacuum to remove only files that are not in the version it is given, and the catalog queries (C12).')
