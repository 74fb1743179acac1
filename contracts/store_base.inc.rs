// ---- the store of the catalog: what each of its calls asks the repository (C12) to do
pub type Seqc = Seq<char>;
pub trait RxText { spec fn text(&self) -> Seqc; }
impl RxText for str { open spec fn text(&self) -> Seqc { self@ } }
impl RxText for String { open spec fn text(&self) -> Seqc { self@ } }
impl<T: RxText + ?Sized> RxText for &T { open spec fn text(&self) -> Seqc { (**self).text() } }
#[verifier::external_body] pub fn rx_eq<A: RxText + ?Sized, B: RxText + ?Sized>(x: &A, y: &B) -> (r: bool) ensures r == (x.text() == y.text()) { unimplemented!() }
pub type DatabaseId = i64; pub type CollectionId = i64; pub type TableId = i64; pub type TableVersionId = i64; pub type FunctionId = i64;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Uuid { p: u8 }
#[verifier::external_body] pub struct Timestamp { p: u8 }
#[verifier::external_body] pub struct Schema { p: u8 }
#[verifier::external_body] pub struct Details { p: u8 }
#[verifier::external_body] pub struct JsonError { p: u8 }
pub mod sqlx { pub mod error { pub enum Error { RowNotFound, Other(u8) } } }
pub enum RepositoryError { UniqueConstraintViolation(sqlx::error::Error), FKConstraintViolation(sqlx::error::Error), SqlxError(sqlx::error::Error), SerdeJsonError(JsonError) }
pub enum CatalogError { CatalogDoesNotExist { name: String }, CatalogAlreadyExists { name: String }, SchemaDoesNotExist { name: String }, SchemaAlreadyExists { name: String }, TableDoesNotExist { name: String }, TableUuidDoesNotExist { uuid: Uuid }, TableAlreadyExists { name: String }, FunctionAlreadyExists { name: String }, FunctionNotFound { names: String }, UsedStagingSchema, SqlxError(sqlx::error::Error), SerdeJsonError(JsonError), Other(u8) }
pub type CatalogResult<T> = Result<T, CatalogError>;
/// `?` and `into()` on an error of either kind
pub trait CatErr: Sized { spec fn gone(&self) -> bool; }
impl CatErr for CatalogError { open spec fn gone(&self) -> bool { missing(*self) } }
impl CatErr for RepositoryError { open spec fn gone(&self) -> bool { false } }
pub open spec fn missing(e: CatalogError) -> bool { e is CatalogDoesNotExist || e is SchemaDoesNotExist || e is TableDoesNotExist }
#[verifier::external_body] pub fn rx_from_err<E: CatErr>(e: E) -> (r: CatalogError) ensures missing(r) == e.gone() { unimplemented!() }
#[verifier::external_body] pub fn own_err(e: RepositoryError) -> (r: CatalogError) ensures !missing(r) { unimplemented!() }
pub ghost enum Act {
    NewDatabase(Seqc), DelDatabase(int), NewSchema(int, Seqc), DelSchema(int),
    NewTable(int, Seqc, Schema, Uuid), NewVersion(Uuid, int), DelOldVersions(int), Rename(int, Seqc, Option<int>), DelTable(int),
    Mark(Uuid, DroppedTableDeletionStatus), Forget(Uuid), NewFunction(int, Seqc, bool, Details), DelFunctions(int, Seq<Seqc>),
}
pub struct World { pub acts: Ghost<Seq<Act>> }
/// nothing is asked for but this, and this if the call succeeds
pub open spec fn one(a: World, b: World, x: Act, ok: bool) -> bool { b.acts@ == a.acts@.push(x) || (!ok && b.acts@ == a.acts@) }
/// the same for what is there, and nothing and an error for what is not
pub open spec fn on(a: World, b: World, at: Option<int>, x: spec_fn(int) -> Act, ok: bool) -> bool { match at { Some(i) => one(a, b, x(i), ok), None => !ok && b.acts@ == a.acts@ } }
// what the repository has under a name, or None
pub uninterp spec fn db_of(c: Seqc) -> Option<int>;
pub uninterp spec fn coll_of(c: Seqc, s: Seqc) -> Option<int>;
pub uninterp spec fn tab_of(c: Seqc, s: Seqc, t: Seqc) -> Option<int>;
pub uninterp spec fn dropped(c: Option<String>) -> Seq<DroppedTablesResult>;
pub uninterp spec fn versions(c: Seqc, t: Option<Vec<String>>) -> Seq<TableVersionsResult>;
pub uninterp spec fn functions(db: int) -> Seq<AllDatabaseFunctionsResult>;
pub open spec fn no_row(e: RepositoryError) -> bool { e matches RepositoryError::SqlxError(x) && x is RowNotFound }
#[verifier::external_body] pub struct Repository { p: u8 }
pub struct RepositoryStore { pub repository: Repository }
pub type RR<T> = Result<T, RepositoryError>;
impl Repository {
    #[verifier::external_body] pub fn get_database(&self, n: &str) -> (r: RR<DatabaseRecord>) ensures r is Ok ==> db_of(n@) == Some(r->Ok_0.id as int), r is Err && no_row(r->Err_0) ==> db_of(n@) is None { unimplemented!() }
    #[verifier::external_body] pub fn get_collection(&self, c: &str, s: &str) -> (r: RR<CollectionRecord>) ensures r is Ok ==> coll_of(c@, s@) == Some(r->Ok_0.id as int), r is Err && no_row(r->Err_0) ==> coll_of(c@, s@) is None { unimplemented!() }
    #[verifier::external_body] pub fn get_table(&self, c: &str, s: &str, t: &str) -> (r: RR<TableRecord>) ensures r is Ok ==> tab_of(c@, s@, t@) == Some(r->Ok_0.id as int), r is Err && no_row(r->Err_0) ==> tab_of(c@, s@, t@) is None { unimplemented!() }
    #[verifier::external_body] pub fn get_all_versions(&self, c: &str, t: Option<Vec<String>>) -> (r: RR<Vec<TableVersionsResult>>) ensures r is Ok ==> r->Ok_0@ == versions(c@, t) { unimplemented!() }
    #[verifier::external_body] pub fn get_dropped_tables(&self, c: Option<String>) -> (r: RR<Vec<DroppedTablesResult>>) ensures r is Ok ==> r->Ok_0@ == dropped(c) { unimplemented!() }
    #[verifier::external_body] pub fn get_all_functions_in_database(&self, d: i64) -> (r: RR<Vec<AllDatabaseFunctionsResult>>) ensures r is Ok ==> r->Ok_0@ == functions(d as int) { unimplemented!() }
    #[verifier::external_body] pub fn create_database(&self, w: &mut World, n: &str) -> (r: RR<i64>) ensures one(*old(w), *final(w), Act::NewDatabase(n@), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn delete_database(&self, w: &mut World, d: i64) -> (r: RR<()>) ensures one(*old(w), *final(w), Act::DelDatabase(d as int), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn create_collection(&self, w: &mut World, d: i64, n: &str) -> (r: RR<i64>) ensures one(*old(w), *final(w), Act::NewSchema(d as int, n@), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn delete_collection(&self, w: &mut World, d: i64) -> (r: RR<()>) ensures one(*old(w), *final(w), Act::DelSchema(d as int), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn create_table(&self, w: &mut World, c: i64, n: &str, s: &Schema, u: Uuid) -> (r: RR<(i64, i64)>) ensures one(*old(w), *final(w), Act::NewTable(c as int, n@, *s, u), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn create_new_version(&self, w: &mut World, u: Uuid, v: i64) -> (r: RR<i64>) ensures one(*old(w), *final(w), Act::NewVersion(u, v as int), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn delete_old_versions(&self, w: &mut World, t: i64) -> (r: RR<u64>) ensures one(*old(w), *final(w), Act::DelOldVersions(t as int), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn rename_table(&self, w: &mut World, t: i64, n: &str, c: Option<i64>) -> (r: RR<()>) ensures one(*old(w), *final(w), Act::Rename(t as int, n@, match c { Some(c) => Some(c as int), None => None }), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn delete_table(&self, w: &mut World, t: i64) -> (r: RR<()>) ensures one(*old(w), *final(w), Act::DelTable(t as int), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn update_dropped_table(&self, w: &mut World, u: Uuid, s: DroppedTableDeletionStatus) -> (r: RR<()>) ensures one(*old(w), *final(w), Act::Mark(u, s), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn delete_dropped_table(&self, w: &mut World, u: Uuid) -> (r: RR<()>) ensures one(*old(w), *final(w), Act::Forget(u), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn create_function(&self, w: &mut World, d: i64, n: &str, o: bool, x: &Details) -> (r: RR<i64>) ensures one(*old(w), *final(w), Act::NewFunction(d as int, n@, o, *x), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn drop_function(&self, w: &mut World, d: i64, n: &Vec<String>) -> (r: RR<()>) ensures one(*old(w), *final(w), Act::DelFunctions(d as int, views(n@)), r is Ok) { unimplemented!() }
}
