use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@sql LATEST_SQLITE ` WITH desired_table_versions AS ( SELECT MAX(id), table_id, id FROM table_version GROUP BY table_id )`
//@sql LATEST_PG ` WITH desired_table_versions AS ( SELECT DISTINCT ON (table_id) table_id, id FROM table_version ORDER BY table_id, creation_time DESC, id DESC )`
//@sql CAST_SQLITE `CAST(timestamp_column AS INTEGER(8))`
//@sql CAST_PG `CAST(EXTRACT(EPOCH FROM timestamp_column) AS INT8)`
//@sqltable
pub struct Opaque { p: u8 }
pub struct DbErr { p: u8 }
pub enum SqlxError { Database(DbErr), RowNotFound, Other(Opaque) }
pub mod sqlx { pub use crate::SqlxError as Error; }
pub struct JsonError { p: u8 }
pub enum Error { UniqueConstraintViolation(SqlxError), FKConstraintViolation(SqlxError), SqlxError(SqlxError), SerdeJsonError(JsonError) }
impl DbErr {
    pub uninterp spec fn m(&self) -> Seq<char>;
    pub uninterp spec fn c(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn message(&self) -> (r: String) ensures r@ == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn code(&self) -> (r: Option<Code>) ensures (match r { Some(x) => Some(x@), None => None }) == self.c() { unimplemented!() }
}
pub uninterp spec fn has(s: Seq<char>, t: Seq<char>) -> bool;
#[verifier::external_body] pub fn str_has(s: &String, t: &str) -> (r: bool) ensures r == has(s@, t@) { unimplemented!() }
pub struct Code { p: u8 }
impl Code { pub uninterp spec fn view(&self) -> Seq<char>; }
impl vstd::std_specs::cmp::PartialEqSpecImpl<&str> for Code { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&str) -> bool { self@ == (*o)@ } }
impl PartialEq<&str> for Code { #[verifier::external_body] fn eq(&self, o: &&str) -> (r: bool) { unimplemented!() } }
// what each backend reports: SQLite names the constraint in its message, PostgreSQL gives an SQLSTATE
pub open spec fn sqlite_kind(e: SqlxError) -> Error {
    match e {
        SqlxError::Database(d) => if has(d.m(), "FOREIGN KEY constraint failed"@) { Error::FKConstraintViolation(e) } else if has(d.m(), "UNIQUE constraint failed"@) { Error::UniqueConstraintViolation(e) } else { Error::SqlxError(e) },
        _ => Error::SqlxError(e),
    }
}
pub open spec fn pg_kind(e: SqlxError) -> Error {
    match e {
        SqlxError::Database(d) => if d.c() == Some("23503"@) { Error::FKConstraintViolation(e) } else if d.c() == Some("23505"@) { Error::UniqueConstraintViolation(e) } else { Error::SqlxError(e) },
        _ => Error::SqlxError(e),
    }
}
pub struct RepositoryQueries { pub latest_table_versions: String, pub cast_timestamp: String }
pub struct SqliteRepository { p: u8 }
impl SqliteRepository {
//@extract src/repository/sqlite.rs | impl SqliteRepository :: interpret_error
//@methods
contains/1 => str_has
//@contract
    ensures r == sqlite_kind(error),
//@end
//@extract src/repository/sqlite.rs | impl SqliteRepository :: QUERIES
//@contract
    ensures r.latest_table_versions@ == sqltext(Sql::LATEST_SQLITE), r.cast_timestamp@ == sqltext(Sql::CAST_SQLITE),
//@end
}
pub struct PostgresRepository { p: u8 }
impl PostgresRepository {
//@extract src/repository/postgres.rs | impl PostgresRepository :: interpret_error
//@contract
    ensures r == pg_kind(error),
//@entry
    proof { reveal_strlit("23503"); reveal_strlit("23505"); assert("23503"@[4] != "23505"@[4]); }
//@end
//@extract src/repository/postgres.rs | impl PostgresRepository :: QUERIES
//@contract
    ensures r.latest_table_versions@ == sqltext(Sql::LATEST_PG), r.cast_timestamp@ == sqltext(Sql::CAST_PG),
//@end
}
//@probe
proof fn probe_kinds(e: SqlxError) ensures sqlite_kind(e) is SqlxError {}
//@probe
proof fn probe_kinds_pg(e: SqlxError) ensures !(pg_kind(e) is UniqueConstraintViolation) {}
//@probe
proof fn probe_axioms() ensures false {}
}
fn main() {}
