use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
//@sql INS_DB `INSERT INTO database (name) VALUES ($1) RETURNING (id)`
//@sql INS_COLL `INSERT INTO "collection" (database_id, name) VALUES ($1, $2) RETURNING (id)`
//@sql INS_TAB `INSERT INTO "table" (collection_id, name, uuid) VALUES ($1, $2, $3) RETURNING (id)`
//@sql INS_VER `INSERT INTO table_version (table_id) VALUES ($1) RETURNING (id)`
//@sql INS_COLS `INSERT INTO table_column(table_version_id, name, type) `
//@sql DEL_OLD `DELETE FROM table_version WHERE table_id = $1 AND id NOT IN (SELECT DISTINCT first_value(id) OVER (PARTITION BY table_id ORDER BY creation_time DESC, id DESC) FROM table_version)`
//@sql MAX_VER `SELECT max(table_version.id) AS id FROM table_version JOIN "table" ON table_version.table_id = "table".id WHERE "table".uuid = $1`
//@sql COPY_VER `INSERT INTO table_version (table_id, version) SELECT table_id, $1 FROM table_version WHERE id = $2 RETURNING (id)`
//@sql COPY_COLS `INSERT INTO table_column (table_version_id, name, type) SELECT $2, name, type FROM table_column WHERE table_version_id = $1;`
//@sql RENAME `UPDATE "table" SET name = $1 WHERE id = $2 RETURNING id`
//@sql MOVE `UPDATE "table" SET name = $1, collection_id = $2 WHERE id = $3 RETURNING id`
//@sql INS_FUN ` INSERT INTO "function" (database_id, name, entrypoint, language, input_types, return_type, data, volatility) VALUES ($1, $2, $3, $4, $5, $6, $7, $8)`
//@sql REPL_FUN ` ON CONFLICT (database_id, name) DO UPDATE SET entrypoint = EXCLUDED.entrypoint, language = EXCLUDED.language, input_types = EXCLUDED.input_types, return_type = EXCLUDED.return_type, data = EXCLUDED.data, volatility = EXCLUDED.volatility`
//@sql RET_FUN ` RETURNING (id); `
//@sql EMPTY ``
//@sql DEL_FUNS ` DELETE FROM "function" WHERE database_id = $1 AND name IN (`
//@sql DEL_FUNS_END `) RETURNING id; `
//@sql COMMA `, `
//@sql DEL_TAB `DELETE FROM "table" WHERE id = $1 RETURNING id`
//@sql DEL_COLL `DELETE FROM collection WHERE id = $1 RETURNING id`
//@sql DEL_DB `DELETE FROM database WHERE id = $1 RETURNING id`
//@sql UPD_DROPPED `UPDATE dropped_table SET deletion_status = $1 WHERE uuid = $2 RETURNING uuid`
//@sql DEL_DROPPED `DELETE FROM dropped_table WHERE uuid = $1 RETURNING uuid`
//@sql GET_DB `SELECT id, name FROM database WHERE database.name = $1`
//@sql GET_COLL ` SELECT collection.id, database.id AS database_id, collection.name FROM collection JOIN database ON collection.database_id = database.id WHERE database.name = $1 AND collection.name = $2 `
//@sql GET_TAB ` SELECT "table".id, collection.id as collection_id, "table".name FROM "table" JOIN collection ON "table".collection_id = collection.id JOIN database ON collection.database_id = database.id WHERE database.name = $1 AND collection.name = $2 AND "table".name = $3 `
//@sql LATEST `-`
//@sql LIST_COLLS ` SELECT database.name AS database_name, collection.name AS collection_name, "table".name AS table_name, "table".id AS table_id, "table".uuid AS table_uuid, desired_table_versions.id AS table_version_id, table_column.name AS column_name, table_column.type AS column_type FROM database INNER JOIN collection ON database.id = collection.database_id LEFT JOIN "table" ON collection.id = "table".collection_id LEFT JOIN desired_table_versions ON "table".id = desired_table_versions.table_id LEFT JOIN table_column ON table_column.table_version_id = desired_table_versions.id WHERE database.name = `
//@sql LIST_COLLS_END ` ORDER BY collection_name, table_name, table_version_id, column_name `
//@sql LIST_FUNS ` SELECT name, id, entrypoint, language, input_types, return_type, data, volatility FROM function WHERE database_id = $1; `
//@sql LIST_VERS `SELECT database.name AS database_name, collection.name AS collection_name, "table".name AS table_name, table_version.id AS table_version_id, table_version.version AS version, `
//@sql LIST_VERS_FROM ` AS creation_time FROM table_version INNER JOIN "table" ON "table".id = table_version.table_id INNER JOIN collection ON collection.id = "table".collection_id INNER JOIN database ON database.id = collection.database_id`
//@sql WHERE_DB ` WHERE database.name = `
//@sql AND_TABLES ` AND "table".name IN (`
//@sql CLOSE `)`
//@sql LIST_DROPPED `SELECT database_name, collection_name, table_name, uuid, deletion_status, `
//@sql FROM_DROPPED ` AS drop_time FROM dropped_table`
//@sql WHERE_DROPPED ` WHERE database_name = `
//@sqltable
//@include repo_base.inc.rs
//@extract src/repository/interface.rs | struct DatabaseRecord
//@end
//@extract src/repository/interface.rs | struct CollectionRecord
//@end
//@extract src/repository/interface.rs | struct TableRecord
//@end
//@extract src/repository/interface.rs | struct AllDatabaseColumnsResult
//@end
//@extract src/repository/interface.rs | struct TableVersionsResult
//@end
//@extract src/repository/interface.rs | struct AllDatabaseFunctionsResult
//@end
//@extract src/repository/interface.rs | enum DroppedTableDeletionStatus
//@end
//@extract src/repository/interface.rs | struct DroppedTablesResult
//@end
//@extract src/wasm_udf/data_types.rs | struct CreateFunctionDetails
//@end
impl Answer for DatabaseRecord { open spec fn is(&self, r: RowS) -> bool { r.id == Some(self.id as int) && r.name == self.name@ } }
impl Answer for CollectionRecord { open spec fn is(&self, r: RowS) -> bool { r.id == Some(self.id as int) && r.parent == self.database_id && r.name == self.name@ } }
impl Answer for TableRecord { open spec fn is(&self, r: RowS) -> bool { r.id == Some(self.id as int) && r.parent == self.collection_id && r.name == self.name@ } }
pub uninterp spec fn status_text(s: DroppedTableDeletionStatus) -> Seq<char>;
impl RxDisp for DroppedTableDeletionStatus { open spec fn disp(&self) -> Seq<char> { status_text(*self) } }
// the function catalogue stores languages, types and volatilities by their names (strum's Display), lists of types as JSON
pub struct CreateFunctionLanguage { p: u8 }
pub struct CreateFunctionDataType { p: u8 }
pub struct CreateFunctionVolatility { p: u8 }
pub uninterp spec fn lang_text(s: CreateFunctionLanguage) -> Seq<char>;
pub uninterp spec fn dtype_text(s: CreateFunctionDataType) -> Seq<char>;
pub uninterp spec fn vol_text(s: CreateFunctionVolatility) -> Seq<char>;
impl RxDisp for CreateFunctionLanguage { open spec fn disp(&self) -> Seq<char> { lang_text(*self) } }
impl RxDisp for CreateFunctionDataType { open spec fn disp(&self) -> Seq<char> { dtype_text(*self) } }
impl RxDisp for CreateFunctionVolatility { open spec fn disp(&self) -> Seq<char> { vol_text(*self) } }
pub trait RxJson { spec fn json(&self) -> Seq<char>; spec fn total(&self) -> bool; }
pub uninterp spec fn types_json(v: Seq<CreateFunctionDataType>) -> Seq<char>;
pub uninterp spec fn field_json(f: Field) -> Seq<char>;
impl RxJson for Vec<CreateFunctionDataType> { open spec fn json(&self) -> Seq<char> { types_json(self@) } open spec fn total(&self) -> bool { true } }
impl RxJson for Field { open spec fn json(&self) -> Seq<char> { field_json(*self) } open spec fn total(&self) -> bool { false } }
impl<T: RxJson> RxJson for &T { open spec fn json(&self) -> Seq<char> { (**self).json() } open spec fn total(&self) -> bool { (**self).total() } }
#[verifier::external_body] pub fn json_string<T: RxJson>(x: &T) -> (r: Result<String, JsonError>) ensures r is Ok ==> r->Ok_0@ == x.json(), x.total() ==> r is Ok { unimplemented!() }
#[verifier::external_body] pub fn own_expect<T, E>(r: Result<T, E>, m: &str) -> (t: T) requires r is Ok ensures t == r->Ok_0 { unimplemented!() }
pub struct Field { pub name: String, pub rest: Opaque }
impl Field { pub fn name(&self) -> (r: &String) ensures *r == self.name { &self.name } }
pub struct Schema { pub fields: Vec<Field> }
impl Schema { pub fn fields(&self) -> (r: &Vec<Field>) ensures *r == self.fields { &self.fields } }
pub struct Repo { pub executor: Pool }
impl Repo { #[verifier::external_body] pub fn interpret_error(e: SqlxError) -> (r: Error) { unimplemented!() } }
#[verifier::external_body] pub fn rx_queries() -> (r: RepositoryQueries) ensures r.latest_table_versions@ == sqltext(Sql::LATEST), is_cast(r.cast_timestamp@) { unimplemented!() }

// ---- the property: the call changed nothing, or exactly one step was made visible, and it is `eff`
pub open spec fn atomic(a: World, b: World, eff: spec_fn(Db, Db) -> bool) -> bool { b.own() == a.own() || (stepped(a, b) && eff(before(b), after(b))) }
pub open spec fn done(a: World, b: World, eff: spec_fn(Db, Db) -> bool) -> bool { stepped(a, b) && eff(before(b), after(b)) }
pub open spec fn cols_of(v: int, fs: Seq<Field>) -> Seq<Col> { Seq::new(fs.len(), |i: int| Col { ver: v, name: fs[i].name@, ty: field_json(fs[i]) }) }
pub open spec fn created(a: Db, b: Db, t: int, v: int, c: int, n: Seq<char>, fs: Seq<Field>, u: Uuid) -> bool {
    !a.tabs.dom().contains(t) && !a.vers.dom().contains(v) && a.colls.dom().contains(c) && !has_table(a, c, n)
    && b == (Db { tabs: a.tabs.insert(t, Tab { coll: c, name: n, uuid: u }), vers: a.vers.insert(v, Ver { table: t, version: 0 }), cols: a.cols.union(elems(cols_of(v, fs))), ..a })
}
pub open spec fn versioned(a: Db, b: Db, v: int, u: Uuid, version: int) -> bool {
    exists|last: int| latest(a, u, last) && !a.vers.dom().contains(v) && b == (Db { vers: a.vers.insert(v, Ver { table: a.vers[last].table, version }), cols: #[trigger] cols_copied(a.cols, last, v), ..a })
}
pub open spec fn fun_of(d: int, n: Seq<char>, x: CreateFunctionDetails) -> Fun { Fun { db: d, name: n, entry: x.entrypoint@, lang: lang_text(x.language), inputs: types_json(x.input_types@), ret: dtype_text(x.return_type), data: x.data@, vol: vol_text(x.volatility) } }
pub open spec fn rename_cmd(t: int, n: Seq<char>, c: Option<i64>) -> Cmd { match c { Some(c) => Cmd::Move(t, n, c as int), None => Cmd::Rename(t, n) } }
pub open spec fn opt_view(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn opt_views(s: Option<Vec<String>>) -> Option<Seq<Seq<char>>> { match s { Some(t) => if t@.len() > 0 { Some(views(t@)) } else { None }, None => None } }
pub broadcast proof fn lemma_rows(v: Seq<Col>, i: int) requires 0 < i <= v.len() ensures #[trigger] ins_upto(v, i) == ins_upto(v, i - 1).push(Piece::B(Bind::I(v[i - 1].ver))).push(Piece::B(Bind::S(v[i - 1].name))).push(Piece::B(Bind::S(v[i - 1].ty))) { assert(v.take(i).drop_last() =~= v.take(i - 1)); }
pub open spec fn ins_upto(v: Seq<Col>, i: int) -> Seq<Piece> { ins_pieces(v.take(i)) }
pub broadcast proof fn lemma_rows0(v: Seq<Col>, i: int) ensures i == 0 ==> #[trigger] ins_upto(v, i) == seq![txt(Sql::INS_COLS)], i == v.len() ==> ins_upto(v, i) == ins_pieces(v) { if i == v.len() { assert(v.take(i) =~= v); } }
// the steps of a creation, one after the other, are the creation
pub broadcast proof fn lemma_created(a: Db, b: Db, d: Db, e: Db, c: int, n: Seq<char>, u: Uuid, t: int, r1: RowS, r2: RowS, r3: RowS, fs: Seq<Field>)
    requires #[trigger] ran(Cmd::InsTab(c, n, u), a, b, r1), #[trigger] ran(Cmd::InsVer(t), b, d, r2), r1.id == Some(t), #[trigger] ran(Cmd::InsCols(cols_of(r2.id->0, fs)), d, e, r3)
    ensures created(a, e, t, r2.id->0, c, n, fs, u)
{}
pub broadcast proof fn lemma_created0(a: Db, b: Db, d: Db, c: int, n: Seq<char>, u: Uuid, t: int, r1: RowS, r2: RowS, fs: Seq<Field>)
    requires #[trigger] ran(Cmd::InsTab(c, n, u), a, b, r1), #[trigger] ran(Cmd::InsVer(t), b, d, r2), r1.id == Some(t), #[trigger] fs.len() == 0
    ensures created(a, d, t, r2.id->0, c, n, fs, u)
{ assert(cols_of(r2.id->0, fs) =~= Seq::empty()); assert(a.cols.union(elems(cols_of(r2.id->0, fs))) =~= a.cols); }
pub broadcast proof fn lemma_versioned(a: Db, a2: Db, b: Db, d: Db, u: Uuid, version: int, last: int, v: int, r0: RowS, r1: RowS, r2: RowS)
    requires #[trigger] ran(Cmd::MaxVer(u), a, a2, r0), r0.id == Some(last), #[trigger] ran(Cmd::CopyVer(version, last), a2, b, r1), r1.id == Some(v), #[trigger] ran(Cmd::CopyCols(last, v), b, d, r2)
    ensures versioned(a, d, v, u, version)
{ assert(latest(a, u, last)); assert(cols_copied(b.cols, last, v) == cols_copied(a.cols, last, v)); }
pub broadcast proof fn lemma_fun_list(v: Seq<String>, s: String) requires views(v) == fun_list(v.len() as int), s@ == dollar(v.len() as int + 2) ensures #[trigger] views(v.push(s)) == fun_list(v.len() as int + 1) {
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i])@ == dollar(i + 2) by { assert(views(v)[i] == v[i]@); assert(fun_list(v.len() as int)[i] == dollar(i + 2)); }
    assert(views(v.push(s)) =~= fun_list(v.len() as int + 1));
}
pub broadcast proof fn lemma_fun_binds(d: int, v: Seq<String>, i: int) requires 0 < i <= v.len() ensures #[trigger] fun_binds(d, views(v.take(i))) == fun_binds(d, views(v.take(i - 1))).push(Bind::S(v[i - 1]@)) { assert(fun_binds(d, views(v.take(i))) =~= fun_binds(d, views(v.take(i - 1))).push(Bind::S(v[i - 1]@))); }
pub broadcast proof fn lemma_fun0(v: Seq<String>) requires v.len() == 0 ensures #[trigger] views(v) == fun_list(0) { assert(views(v) =~= fun_list(0)); }
pub broadcast proof fn lemma_fun1(d: int, v: Seq<String>) ensures #[trigger] fun_binds(d, views(v.take(0))) == seq![Bind::I(d)] { assert(fun_binds(d, views(v.take(0))) =~= seq![Bind::I(d)]); }
pub broadcast proof fn lemma_take_all<T>(v: Seq<T>) ensures #[trigger] v.take(v.len() as int) == v { assert(v.take(v.len() as int) =~= v); }
pub open spec fn vers_upto(n: Seq<char>, v: Seq<String>, i: int) -> Seq<Piece> { vers_pieces(n, views(v.take(i))) }
pub broadcast proof fn lemma_vers(n: Seq<char>, v: Seq<String>, i: int) requires 0 < i <= v.len() ensures #[trigger] vers_upto(n, v, i) == vers_upto(n, v, i - 1).push(Piece::B(Bind::S(v[i - 1]@))) { assert(vers_upto(n, v, i) =~= vers_upto(n, v, i - 1).push(Piece::B(Bind::S(v[i - 1]@)))); }
pub broadcast proof fn lemma_vers0(n: Seq<char>, v: Seq<String>, i: int) ensures i == 0 ==> #[trigger] vers_upto(n, v, i) == seq![Piece::T(vers_text()), txt(Sql::WHERE_DB), Piece::B(Bind::S(n)), txt(Sql::AND_TABLES)], i == v.len() ==> vers_upto(n, v, i) == vers_pieces(n, views(v)) {
    if i == 0 { assert(vers_upto(n, v, i) =~= seq![Piece::T(vers_text()), txt(Sql::WHERE_DB), Piece::B(Bind::S(n)), txt(Sql::AND_TABLES)]); }
    if i == v.len() { assert(v.take(i) =~= v); }
}
impl Repo {
//@extract src/repository/default.rs | impl Repository for Repo :: create_database | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::InsDb(database_name@), a, b, row)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| row.id == Some(r->Ok_0 as int) && #[trigger] ran(Cmd::InsDb(database_name@), a, b, row)),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: create_collection | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::InsColl(database_id as int, collection_name@), a, b, row)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| row.id == Some(r->Ok_0 as int) && #[trigger] ran(Cmd::InsColl(database_id as int, collection_name@), a, b, row)),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: create_table | world
//@methods
begin/0 => w_begin
commit/0 => w_commit
fetch_one/1 => w_fetch_one
fetch_all/1 => w_fetch_all
fetch/1 => w_fetch_all
execute/1 => w_execute
try_collect/0 => DROP
as_str/0 => REF
push_values/2 => FOREACH row_begin row_end
join/1 => rx_join_by
separated/1 => mut_separated
replace/2 => rx_replace_str
expect/1 => own_expect
into_iter/0 => DROP
//@calls
sqlx::query => sql_query
sqlx::query_as => sql_query_as
serde_json::to_string => json_string
//@rename
QueryBuilder => Builder
//@paths
Repo::QUERIES => rx_queries()
//@types
QueryBuilder<_> => Builder
//@vars
__acc0 => Vec<(String, String)>
//@split
push_bind push
//@contract
    requires old(w).tx() is None,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|t: int, v: int| #[trigger] created(a, b, t, v, collection_id as int, table_name@, schema.fields@, uuid)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| created(a, b, r->Ok_0.0 as int, r->Ok_0.1 as int, collection_id as int, table_name@, schema.fields@, uuid)),
//@loop 0
        invariant_except_break __acc0@.len() == __it0.pos(), __err0 is None,
        invariant __it0.all().len() == schema.fields@.len(), 0 <= __it0.pos() <= __it0.all().len(), forall|i: int| 0 <= i < __it0.all().len() ==> *(#[trigger] __it0.all()[i]) == schema.fields@[i],
            __acc0@.len() <= __it0.pos(), forall|i: int| 0 <= i < __acc0@.len() ==> (#[trigger] __acc0@[i]).0@ == schema.fields@[i].name@ && __acc0@[i].1@ == field_json(schema.fields@[i]),
        ensures __err0 is None ==> __acc0@.len() == __it0.all().len(),
        decreases __it0.all().len() - __it0.pos(),
//@loop 1
        invariant __it1.all() == fields@, 0 <= __it1.pos() <= __it1.all().len(), fields@.len() == schema.fields@.len(),
            forall|i: int| 0 <= i < fields@.len() ==> (#[trigger] fields@[i]).0@ == schema.fields@[i].name@ && fields@[i].1@ == field_json(schema.fields@[i]),
            builder.p@ == ins_upto(cols_of(new_version_id as int, schema.fields@), __it1.pos()),
        ensures __it1.pos() == __it1.all().len(),
        decreases __it1.all().len() - __it1.pos(),
//@body 1
    broadcast use lemma_rows;
//@entry
    broadcast use stmts, lemma_rows0, lemma_created, lemma_created0;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: create_new_version | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|v: int| #[trigger] versioned(a, b, v, uuid, version as int)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| versioned(a, b, r->Ok_0 as int, uuid, version as int)),
//@entry
    broadcast use stmts, lemma_versioned;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: delete_old_versions | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::DelOld(table_id as int), a, b, row)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::DelOld(table_id as int), a, b, row)),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: rename_table | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(rename_cmd(table_id as int, new_table_name@, new_collection_id), a, b, row)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(rename_cmd(table_id as int, new_table_name@, new_collection_id), a, b, row)),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: create_function | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::InsFun(or_replace, fun_of(database_id as int, function_name@, *details)), a, b, row)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| row.id == Some(r->Ok_0 as int) && #[trigger] ran(Cmd::InsFun(or_replace, fun_of(database_id as int, function_name@, *details)), a, b, row)),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: drop_function | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None, func_names@.len() + 2 <= usize::MAX,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::DelFuns(database_id as int, views(func_names@)), a, b, row)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::DelFuns(database_id as int, views(func_names@)), a, b, row)),
//@loop 0
        invariant __it0.all().len() == func_names@.len(), 0 <= __it0.pos() <= __it0.all().len(), __k0 == __it0.pos(), func_names@.len() + 2 <= usize::MAX, __acc0@.len() == __it0.pos(), views(__acc0@) == fun_list(__it0.pos()),
        ensures __it0.pos() == __it0.all().len(),
        decreases __it0.all().len() - __it0.pos(),
//@loop 1
        invariant __it1.all().len() == func_names@.len(), 0 <= __it1.pos() <= __it1.all().len(), forall|i: int| 0 <= i < __it1.all().len() ==> *(#[trigger] __it1.all()[i]) == func_names@[i],
            query_builder.s@.pieces == seq![Piece::T(fun_text(func_names@.len() as int))], query_builder.s@.binds == fun_binds(database_id as int, views(func_names@.take(__it1.pos()))),
        ensures __it1.pos() == __it1.all().len(),
        decreases __it1.all().len() - __it1.pos(),
//@body 0
    broadcast use lemma_fun_list;
//@body 1
    broadcast use lemma_fun_binds;
//@entry
    broadcast use stmts, lemma_fun_list, lemma_fun_binds, lemma_take_all, lemma_fun0, lemma_fun1;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: delete_table | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::DelTab(table_id as int), a, b, row)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::DelTab(table_id as int), a, b, row)),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: delete_collection | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::DelColl(collection_id as int), a, b, row)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::DelColl(collection_id as int), a, b, row)),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: delete_database | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::DelDb(database_id as int), a, b, row)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::DelDb(database_id as int), a, b, row)),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: update_dropped_table | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::UpdDropped(uuid, status_text(deletion_status)), a, b, row)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::UpdDropped(uuid, status_text(deletion_status)), a, b, row)),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: delete_dropped_table | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures
        atomic(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::DelDropped(uuid), a, b, row)),
        r is Ok ==> done(*old(w), *final(w), |a: Db, b: Db| exists|row: RowS| #[trigger] ran(Cmd::DelDropped(uuid), a, b, row)),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: get_database | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures final(w).own() == old(w).own(), r is Ok ==> exists|d: Db, row: RowS| #[trigger] ran(Cmd::GetDb(name@), d, d, row) && r->Ok_0.is(row),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: get_collection | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures final(w).own() == old(w).own(), r is Ok ==> exists|d: Db, row: RowS| #[trigger] ran(Cmd::GetColl(database_name@, collection_name@), d, d, row) && r->Ok_0.is(row),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: get_table | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures final(w).own() == old(w).own(), r is Ok ==> exists|d: Db, row: RowS| #[trigger] ran(Cmd::GetTab(database_name@, collection_name@, table_name@), d, d, row) && r->Ok_0.is(row),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: list_collections | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures final(w).own() == old(w).own(), r is Ok ==> exists|d: Db| r->Ok_0@ == listing::<AllDatabaseColumnsResult>(Cmd::ListColls(database_name@), d),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: get_all_functions_in_database | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures final(w).own() == old(w).own(), r is Ok ==> exists|d: Db| r->Ok_0@ == listing::<AllDatabaseFunctionsResult>(Cmd::ListFuns(database_id as int), d),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: get_dropped_tables | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures final(w).own() == old(w).own(), r is Ok ==> exists|d: Db| r->Ok_0@ == listing::<DroppedTablesResult>(Cmd::ListDropped(opt_view(database_name)), d),
//@entry
    broadcast use stmts;
//@end
//@extract src/repository/default.rs | impl Repository for Repo :: get_all_versions | world
//@include repo_rules.inc.rs
//@contract
    requires old(w).tx() is None,
    ensures final(w).own() == old(w).own(), r is Ok ==> exists|d: Db| r->Ok_0@ == listing::<TableVersionsResult>(Cmd::ListVers(database_name@, opt_views(table_names)), d),
//@loop 0
        invariant __it0.all() == table_names@, 0 <= __it0.pos() <= __it0.all().len(), separated.p@ =~= vers_upto(database_name@, __it0.all(), __it0.pos()),
        ensures __it0.pos() == __it0.all().len(),
        decreases __it0.all().len() - __it0.pos(),
//@body 0
    broadcast use lemma_vers;
//@entry
    broadcast use m_21, m_vers, lemma_vers0;
//@end
}
//@probe
proof fn probe_axioms(q: Stmt) ensures false { broadcast use stmts; }
//@probe
proof fn probe_created(a: Db, b: Db, t: int, v: int, c: int, n: Seq<char>, fs: Seq<Field>, u: Uuid) ensures !created(a, b, t, v, c, n, fs, u) {}
//@probe
proof fn probe_ran(c: Cmd, a: Db, b: Db, r: RowS) requires c is DelTab, ran(c, a, b, r) ensures a == b {}
//@probe
proof fn probe_known(q: Stmt, d: int) requires one(q, Sql::DEL_DB), q.binds == seq![Bind::I(d)] ensures !known(q) {}
}
fn main() {}
