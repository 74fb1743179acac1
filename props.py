COMMON_ASSUMPTIONS = [
    'rx (the extractor) rewrites only what functions_under_contract lists per function; its rewrites keep the meaning (stated in DESIGN.md, section Extraction)',
    'Verus and Z3 are sound; the Rust compiler compiles the extracted text and the original text to the same behaviour',
    'the functions under trusted_base behave as their contracts say (library functions; exercised, not proved, by the replay)',
]
PROPS = {
 'C01': dict(templates=['fp_tree'], harness=dict(src='fp', bound='all expression trees to a stated depth over a basis of leaves and operators, plus seeded random trees; read back by an independent parser per dialect'),
    assumptions=['TreeNode::visit of DataFusion calls f_down, the children left to right, f_up (model body verified against the contracts of f_down and f_up)']),
 'C02': dict(templates=['fp_quote'], harness=dict(src='fp', bound='all strings of length 0..3 over 12 characters including every quote character and the backslash, plus seeded random strings, for the three dialects')),
 'C03': dict(templates=['fp_lit'], harness=dict(src='fp', bound='every operator in every dialect; seeded values of every literal type')),
 'C04': dict(templates=['sqltypes'], harness=dict(src='sqltypes', bound='every type constructor with several lengths; precision x scale over 0..300 and around every power-of-two width limit')),
 'C05': dict(templates=['schema'], harness=dict(src='sqltypes', bound='seeded random column lists of 0..6 columns with 0..3 options each; names over every code point below U+0250')),
 'C06': dict(templates=['udf_codec'], harness=dict(src='udf', timeout=400, bound='edge values of every declared type encoded by the host and decoded by an echoing guest; answers of every MessagePack kind for every declared type')),
 'C07': dict(templates=['udf_mem'], harness=dict(src='udf', timeout=400, bound='guest modules placing frames at the edges of memory, with malformed length prefixes and addresses with the top bit set; guest memory dumped around the input frame')),
 'C08': dict(templates=['udf_types'], harness=dict(src='udf', timeout=400, bound='every type name in upper and lower case in every position of CREATE FUNCTION, every declared type against every WASM signature')),
 'C09': dict(templates=['udf_rows', 'udf_native'], harness=dict(src='udf', timeout=400, bound='0..5 arguments of every type, 0..17 rows, every mixture of arrays and scalars, sliced arrays, both languages')),
 'C10': dict(templates=['timetravel'], harness=dict(src='timetravel', bound='queries of 1..3 references in seven positions over a catalog of 80 tables with mixed-case, quoted and non-ASCII names, answered end to end by DataFusion; version texts in all documented forms'),
    assumptions=['sqlparser\'s derived VisitMut reaches every table factor of a query once', 'DataFusion\'s planner reads a table name as `resolved` in the contract states', 'version texts that differ only in letter case denote the same instant; no version text has a shorter version text after one of its colons', 'no table named like `t:version` exists in the session beforehand', 'chrono parses the documented forms']),
 'C11': dict(templates=['parser'], harness=dict(src='parser', bound='seeded statements of every seafowl form with random clause order, quoting, letter case, white space and comments; scripts of 0..4 statements; forms that must be refused'),
    assumptions=['sqlparser\'s own Parser primitives (peek, next, prev, consume, keywords, names, queries, expressions, data types) act on the token list as the contracts state', 'Tokenizer gives the token list of the text']),
 'C12': dict(templates=['repo', 'repo_backends', 'store'], harness=dict(src='repo', timeout=400, bound='80 seeded histories of 60 calls, and as many of the store above it, on in-memory SQLite against a model, half of them with one statement per call made to fail; the whole database compared after every call'),
    assumptions=['each SQL text means what the contract of its statement says (ran, per statement; exercised on SQLite, not on PostgreSQL)', 'BEGIN/COMMIT: a transaction that is dropped or whose COMMIT fails before reaching the server leaves no change; concurrent changes are serialised by the database', 'foreign keys with ON DELETE CASCADE and the uniqueness constraints of migrations/*', 'SQLite and PostgreSQL report unique and foreign-key violations by message text / SQLSTATE as documented']),
 'C13': dict(templates=['access'], harness=dict(src='access', timeout=400, bound='seeded requests through the real route table: nine passwords-and-headers forms, every access setting, 36 statements labelled by hand as reads or writes, scripts of 0..3 statements, ETag revalidation, multipart forms of up to 70 KB'),
    assumptions=['SHA-256, hex, percent decoding, multipart parsing and warp routing as the contracts state', 'a plan whose root is not Dml, Ddl, Copy, Extension or Analyze changes nothing when it is executed', 'sqlparser reads a text as the statements it contains (C11 for seafowl\'s own part)']),
 'C14': dict(templates=['cache'], harness=dict(src='cache', bound='seeded objects of 0..200 bytes read in random order (repeats, overlaps, empty ranges, ranges past the end) through caches of several chunk sizes and capacities, with evictions, files removed or cut short behind the cache, a store that fails now and then, and siblings over the same store'),
    assumptions=['an object is not overwritten while parts of it are cached (the cache\'s documented precondition: seafowl\'s objects are immutable)', 'SHA-256 of two different object paths differs', 'moka returns for a key only what was inserted for it', 'range.end + min_fetch_size does not overflow usize, min_fetch_size > 0, every cache has a directory of its own', 'the task spawned to write a chunk out runs at some time under rely/guarantee: it writes only the file of its own chunk, everybody else reads files of valid entries']),
 'C15': dict(templates=['stores'], harness=dict(src='stores', bound='every operation of both wrappers over a recording store that answers or fails, for fourteen store configurations; tables placed, listed and dropped with failures at every operation; seeded sequences of locations and options through the factory; seeded uploads of 0..300000 bytes within and across file systems'),
    assumptions=['PrefixStore, LocalFileSystem and the stores of the object_store crate do what their documentation says', 'delta-rs\'s default_logstore keeps the store and the location it is given', 'the file system is not changed by others during an upload; source and target of an upload differ', 'DashMap is a map: a lookup finds what was inserted under an equal key', 'the configuration of a store has been checked by building it']),
 'C16': dict(templates=['sync'], harness=dict(src='sync', timeout=400, bound='6000 seeded histories of 10..50 messages and flushes (some with a failing operation) of two origins for three tables under varying limits, on the real writer and squashing code over tables kept in memory'),
    assumptions=['the planner\'s plan over a table has the effect of the items it is given, in order; writing it out and committing it does that to the table, and a commit that reports an error has not happened', 'squash_batches keeps the effect of a batch (C17)', 'the effects of batches compose associatively with an empty effect', 'the system clock does not go backward', 'less than 2^60 bytes and rows are in memory', 'table.history(1) is the last commit of the table; sync_commit_info survives being written and read as JSON', 'UUIDs are fresh']),
 'C17': dict(templates=['squash'], harness=dict(src='sync', timeout=300, bound='30000 seeded batches of up to 14 changes over schemas of 1..3 key and 0..3 value columns in any order, with and without flags, on the real squash_batches; 30000 seeded sets of column descriptors on the real SyncSchema::try_new'),
    assumptions=['concat_batches, take, RecordBatch::try_new and Schema::index_of do what their names say', 'rows of one RowConverter are equal exactly when their values are (NaN and -0.0 included)', 'std HashMap and HashSet are a map and a set', 'no two columns of a batch have the same role and name, or the same arrow field name; flags are not NULL', 'a row whose whole key is NULL stands for no row', 'Schema::flattened_fields lists at least the fields']),
 'C18': dict(templates=['plan'], harness=dict(src='plan', timeout=600, bound='600 (thorough: 8000) seeded tables of up to 7 rows in 1..3 files with 1..2 key and 0..3 value columns under plain and awkward names, with and without statistics, below and above the limit for fine-grained pruning, each with a flush of 1..3 items of up to 5 changes over some of the columns, on the real planner and DataFusion'),
    assumptions=['DataFusion\'s expressions, CASE and three-valued logic do what they say', 'prost\'s role numbers; indexmap keeps each element once, in order', 'the changes of a flush make sense one after the other and each item is squashed (C17)', 'a key is NULL in all of its columns or in none', 'flags are not NULL; no column of the table or of a sync is called __lower_rel, __upper_rel or __upsert_col']),
 'C19': dict(templates=['dml'], harness=dict(src='dml', timeout=600, bound='900 (thorough: 12000) seeded tables of up to 4 files, with and without statistics, in small row groups, each with up to 4 INSERT, UPDATE, DELETE and TRUNCATE statements over conditions with NULLs, constants, negations and subqueries, on the real planner and DataFusion, next to the same statements as queries over the rows in memory'),
    assumptions=['DataFusion\'s expressions, CASE, casts and plans do what they say; its scan without filters gives all rows of the files', 'the Parquet writer writes the rows it is given, and its statistics are right', 'object_store stores what is uploaded to it; a local file that is moved keeps its bytes', 'tokio runs each spawned upload once and gives its answer (the proof runs them in order)', 'a fresh UUID names no other file', 'max_partition_size is not 0', 'delta-rs prunes only files without a row that satisfies the condition', 'DataFusion plans an UPDATE as one assignment per column over the table or a Filter of it, and column names differ (the bounded runs check the plans)', 'the clock is past 1970'],),
 'C20': dict(templates=['ddl'], harness=dict(src='ddl', timeout=600, bound='4000 (thorough: 60000) seeded histories of up to 10 CREATE, DROP, ALTER, CONVERT statements over quoted and qualified names in two databases, with a catalog that refuses changes from the first, second or third on in a quarter of the statements, on the real planner, next to a model of the statements'),
    assumptions=['delta-rs makes a log with the columns given at the prefix given, or fails and makes none', 'the catalog does each change completely or not at all (C12)', 'TableReference::resolve fills in the database and schema of the session', 'a fresh UUID names no other prefix', 'the session sees the tables and schemas of the catalog as they were when the statement was planned', 'object_store lists all objects below a prefix and deletes those it is given'],),
 'C21': dict(templates=['gc'], harness=dict(src='gc', timeout=600, bound='10000 (thorough: 200000) seeded histories of up to 4 VACUUM DATABASE and VACUUM TABLE statements over up to 4 dropped tables and two in use, with objects that cannot be deleted and a catalog that fails at seeded calls, on the real gc_databases, delete_in_prefix and Vacuum arm'),
    assumptions=['delta-rs\' vacuum removes only files that are not in the version it is given', 'the catalog lists exactly the dropped tables (C12)', 'delete_in_prefix removes exactly the objects below a prefix, table_prefix is the place of the table (C15)', 'the VacuumBuilder is set up with its retention last (as it is)'],),
}
