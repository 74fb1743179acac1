// ---- names
pub type Seqc = Seq<char>;
pub trait RxText { spec fn text(&self) -> Seqc; }
impl RxText for str { open spec fn text(&self) -> Seqc { self@ } }
impl RxText for String { open spec fn text(&self) -> Seqc { self@ } }
impl<T: RxText + ?Sized> RxText for &T { open spec fn text(&self) -> Seqc { (**self).text() } }
pub trait RxCl { type Out; spec fn cl(&self) -> Self::Out; }
impl<T: RxCl> RxCl for &T { type Out = T::Out; open spec fn cl(&self) -> T::Out { (**self).cl() } }
impl RxCl for String { type Out = String; open spec fn cl(&self) -> String { *self } }
impl RxCl for TableRef { type Out = TableRef; open spec fn cl(&self) -> TableRef { *self } }
impl RxCl for Resolved { type Out = Resolved; open spec fn cl(&self) -> Resolved { *self } }
impl RxCl for ArrowSchema { type Out = ArrowSchema; open spec fn cl(&self) -> ArrowSchema { *self } }
impl RxCl for LogStore { type Out = LogStore; open spec fn cl(&self) -> LogStore { *self } }
impl RxCl for DeltaTable { type Out = DeltaTable; open spec fn cl(&self) -> DeltaTable { *self } }
#[verifier::external_body] pub fn rx_own<T: RxCl>(x: &T) -> (r: T::Out) ensures r == x.cl() { unimplemented!() }
pub fn rx_same<T>(x: T) -> (r: T) ensures r == x { x }
#[verifier::external_body] pub fn arc_text<T: RxText>(x: T) -> (r: String) ensures r@ == x.text() { unimplemented!() }
/// what a table may be named by; the text of a reference, and one that is resolved, are references too
#[verifier::external_body] pub struct TableRef { p: u8 }
pub struct Resolved { pub catalog: String, pub schema: String, pub table: String }
pub type ResolvedTableReference = Resolved;
pub uninterp spec fn ref_of(text: Seqc) -> TableRef;
pub uninterp spec fn of_resolved(c: Seqc, s: Seqc, t: Seqc) -> TableRef;
pub trait RxRef: Sized { spec fn tref(&self) -> TableRef; }
impl RxRef for TableRef { open spec fn tref(&self) -> TableRef { *self } }
impl RxRef for &str { open spec fn tref(&self) -> TableRef { ref_of((*self)@) } }
impl RxRef for &String { open spec fn tref(&self) -> TableRef { ref_of((**self)@) } }
impl RxRef for Resolved { open spec fn tref(&self) -> TableRef { of_resolved(self.catalog@, self.schema@, self.table@) } }
/// the database, schema and name a reference stands for in a session with these defaults
pub struct Full { pub c: Seqc, pub s: Seqc, pub t: Seqc }
pub uninterp spec fn full(t: TableRef, c: Seqc, s: Seqc) -> Full;
#[verifier::external_body] pub proof fn axiom_resolved(c: Seqc, s: Seqc, t: Seqc, dc: Seqc, ds: Seqc) ensures full(of_resolved(c, s, t), dc, ds) == (Full { c, s, t }) {}
#[verifier::external_body] pub fn rx_ref<T: RxRef>(x: T) -> (r: TableRef) ensures r == x.tref() { unimplemented!() }
impl TableRef { #[verifier::external_body] pub fn resolve(self, c: &String, s: &String) -> (r: Resolved) ensures (Full { c: r.catalog@, s: r.schema@, t: r.table@ }) == full(self, c@, s@) { unimplemented!() } }
// ---- what a statement changes
#[verifier::external_body] pub struct Details { p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Uuid { p: u8 }
impl Uuid { pub uninterp spec fn text(&self) -> Seqc; #[verifier::external_body] pub fn try_parse(s: &str) -> (r: core::result::Result<Uuid, LibError>) ensures r is Ok ==> r->Ok_0 == uuid_in(s@) { unimplemented!() } }
pub uninterp spec fn uuid_in(s: Seqc) -> Uuid;
impl RxDisp for Uuid { open spec fn disp(&self) -> Seqc { self.text() } }
#[verifier::external_body] pub fn get_uuid() -> Uuid { unimplemented!() }
pub ghost enum Change {
    /// a table in the catalog; its log is at the place of the uuid
    Table { at: Full, uuid: Uuid, columns: ArrowSchema },
    DropTable { at: Full }, Rename { from: Full, to: Full },
    Schema { c: Seqc, s: Seqc }, DropSchema { c: Seqc, s: Seqc }, Catalog { c: Seqc },
    Function { c: Seqc, name: Seqc, replace: bool, details: Details }, DropFunctions { c: Seqc, if_exists: bool, names: Vec<String> },
    /// a new log with these columns, one made of the Parquet files there, and the end of one and all its files
    Log { prefix: Seqc, columns: ArrowSchema }, Converted { prefix: Seqc }, Wipe { t: TableRef },
    /// objects below a prefix removed (all of them, or some), the record of a dropped table gone or marked
    Erase { prefix: Seqc, all: bool }, Forget { uuid: Uuid }, Mark { uuid: Uuid, status: DroppedTableDeletionStatus },
    /// files no longer in the version removed; the catalog forgets all versions but the last
    Vacuum { prefix: Seqc, latest: bool }, DropVersions { at: Full },
}
pub open spec fn table_change(at: Full, u: Uuid, cols: ArrowSchema) -> Change { Change::Table { at, uuid: u, columns: cols } }
#[derive(PartialEq, Eq, Structural, Clone, Copy)] pub enum DroppedTableDeletionStatus { Pending, Retry, Failed }
pub struct World { pub log: Ghost<Seq<Change>> }
/// nothing but these changes, in this order, and all of them if it went well
pub open spec fn two(a: World, b: World, x: Change, y: Change, ok: bool) -> bool { b.log@ == a.log@.push(x).push(y) || (!ok && (b.log@ == a.log@ || b.log@ == a.log@.push(x))) }
pub open spec fn one(a: World, b: World, x: Change, ok: bool) -> bool { b.log@ == a.log@.push(x) || (!ok && b.log@ == a.log@) }
pub open spec fn did(a: World, b: World, x: Change, ok: bool) -> bool { b.log@ == if ok { a.log@.push(x) } else { a.log@ } }
// ---- the catalog
#[verifier::external_body] pub struct Tables { p: u8 }
impl Tables {
    #[verifier::external_body] pub fn create<A: RxText, B: RxText, C: RxText>(&self, w: &mut World, c: A, s: B, t: C, columns: &ArrowSchema, uuid: Uuid) -> (r: Result<u64>) ensures did(*old(w), *final(w), table_change(Full { c: c.text(), s: s.text(), t: t.text() }, uuid, *columns), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn delete<A: RxText, B: RxText, C: RxText>(&self, w: &mut World, c: A, s: B, t: C) -> (r: Result<()>) ensures did(*old(w), *final(w), Change::DropTable { at: Full { c: c.text(), s: s.text(), t: t.text() } }, r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn update<A: RxText, B: RxText, C: RxText, D: RxText, E: RxText, F: RxText>(&self, w: &mut World, c: A, s: B, t: C, c2: D, s2: E, t2: F) -> (r: Result<()>) ensures did(*old(w), *final(w), Change::Rename { from: Full { c: c.text(), s: s.text(), t: t.text() }, to: Full { c: c2.text(), s: s2.text(), t: t2.text() } }, r is Ok) { unimplemented!() }
}
#[verifier::external_body] pub struct Schemas { p: u8 }
pub uninterp spec fn has_schema(c: Seqc, s: Seqc) -> bool;
impl Schemas {
    #[verifier::external_body] pub fn get<A: RxText, B: RxText>(&self, c: A, s: B) -> (r: Result<u64>) ensures (r is Ok) == has_schema(c.text(), s.text()) { unimplemented!() }
    #[verifier::external_body] pub fn create<A: RxText, B: RxText>(&self, w: &mut World, c: A, s: B) -> (r: Result<()>) ensures did(*old(w), *final(w), Change::Schema { c: c.text(), s: s.text() }, r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn delete<A: RxText, B: RxText>(&self, w: &mut World, c: A, s: B) -> (r: Result<()>) ensures did(*old(w), *final(w), Change::DropSchema { c: c.text(), s: s.text() }, r is Ok) { unimplemented!() }
}
#[verifier::external_body] pub struct Catalogs { p: u8 }
pub uninterp spec fn has_catalog(c: Seqc) -> bool;
impl Catalogs {
    #[verifier::external_body] pub fn get<A: RxText>(&self, c: A) -> (r: Result<u64>) ensures (r is Ok) == has_catalog(c.text()) { unimplemented!() }
    #[verifier::external_body] pub fn create<A: RxText>(&self, w: &mut World, c: A) -> (r: Result<()>) ensures did(*old(w), *final(w), Change::Catalog { c: c.text() }, r is Ok) { unimplemented!() }
}
#[verifier::external_body] pub struct Functions { p: u8 }
impl Functions {
    #[verifier::external_body] pub fn create<A: RxText, B: RxText>(&self, w: &mut World, c: A, n: B, or_replace: bool, d: &Details) -> (r: Result<u64>) ensures did(*old(w), *final(w), Change::Function { c: c.text(), name: n.text(), replace: or_replace, details: *d }, r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn delete<A: RxText>(&self, w: &mut World, c: A, if_exists: bool, n: &Vec<String>) -> (r: Result<()>) ensures did(*old(w), *final(w), Change::DropFunctions { c: c.text(), if_exists, names: *n }, r is Ok) { unimplemented!() }
}
pub struct Metastore { pub tables: Tables, pub schemas: Schemas, pub catalogs: Catalogs, pub functions: Functions }
// ---- tables
#[verifier::external_body] pub struct ArrowSchema { p: u8 }
#[verifier::external_body] pub struct SchemaRef { p: u8 }
impl SchemaRef { pub uninterp spec fn sch(&self) -> ArrowSchema; }
/// the columns a Delta table made with these columns has
pub uninterp spec fn stored(s: ArrowSchema) -> ArrowSchema;
#[verifier::external_body] pub struct DeltaSchema { p: u8 }
#[verifier::external_body] pub struct DeltaFields { p: u8 }
impl DeltaFields { pub uninterp spec fn of(&self) -> ArrowSchema; #[verifier::external_body] pub fn cloned(self) -> (r: DeltaFields) ensures r.of() == self.of() { unimplemented!() } }
impl DeltaSchema { pub uninterp spec fn of(&self) -> ArrowSchema;
    #[verifier::external_body] pub fn try_from(s: &ArrowSchema) -> (r: Result<DeltaSchema>) ensures r is Ok ==> r->Ok_0.of() == *s { unimplemented!() }
    #[verifier::external_body] pub fn fields(&self) -> (r: DeltaFields) ensures r.of() == self.of() { unimplemented!() } }
#[verifier::external_body] pub struct LogStore { p: u8 }
impl LogStore { pub uninterp spec fn prefix(&self) -> Seqc; }
#[verifier::external_body] pub struct IStore { p: u8 }
impl IStore { #[verifier::external_body] pub fn get_log_store(&self, prefix: &String) -> (r: LogStore) ensures r.prefix() == prefix@ { unimplemented!() } }
#[verifier::external_body] pub struct DeltaTable { p: u8 }
impl DeltaTable {
    pub uninterp spec fn prefix(&self) -> Seqc; pub uninterp spec fn columns(&self) -> ArrowSchema;
    #[verifier::external_body] pub fn new(l: LogStore, c: NoVals) -> (r: DeltaTable) ensures r.prefix() == l.prefix() { unimplemented!() }
    pub uninterp spec fn loaded(&self) -> bool;
    #[verifier::external_body] pub fn load(&mut self) -> (r: Result<()>) ensures final(self).prefix() == old(self).prefix(), r is Ok ==> final(self).loaded() { unimplemented!() }
}
#[verifier::external_body] pub fn table_columns(t: &DeltaTable) -> (r: SchemaRef) ensures r.sch() == t.columns() { unimplemented!() }
pub struct NoVals; impl NoVals { pub fn default() -> NoVals { NoVals } }
#[verifier::external_body] pub struct CreateBuilder { p: u8 }
impl CreateBuilder {
    pub uninterp spec fn prefix(&self) -> Seqc; pub uninterp spec fn cols(&self) -> ArrowSchema;
    #[verifier::external_body] pub fn new() -> CreateBuilder { unimplemented!() }
    #[verifier::external_body] pub fn with_log_store(self, l: LogStore) -> (r: CreateBuilder) ensures r.prefix() == l.prefix() { unimplemented!() }
    #[verifier::external_body] pub fn with_table_name(self, n: &str) -> (r: CreateBuilder) ensures r.prefix() == self.prefix() { unimplemented!() }
    #[verifier::external_body] pub fn with_columns(self, f: DeltaFields) -> (r: CreateBuilder) ensures r.prefix() == self.prefix(), r.cols() == f.of() { unimplemented!() }
    // (and then: make it)
    #[verifier::external_body] pub fn with_comment(self, w: &mut World, n: String) -> (r: Result<DeltaTable>) ensures did(*old(w), *final(w), Change::Log { prefix: self.prefix(), columns: self.cols() }, r is Ok), r is Ok ==> r->Ok_0.prefix() == self.prefix() && r->Ok_0.columns() == stored(self.cols()) { unimplemented!() }
}
pub enum SaveMode { Append, Overwrite }
#[verifier::external_body] pub struct ConvertToDeltaBuilder { p: u8 }
impl ConvertToDeltaBuilder {
    pub uninterp spec fn prefix(&self) -> Seqc;
    #[verifier::external_body] pub fn new() -> ConvertToDeltaBuilder { unimplemented!() }
    #[verifier::external_body] pub fn with_log_store(self, l: LogStore) -> (r: ConvertToDeltaBuilder) ensures r.prefix() == l.prefix() { unimplemented!() }
    #[verifier::external_body] pub fn with_table_name(self, n: &str) -> (r: ConvertToDeltaBuilder) ensures r.prefix() == self.prefix() { unimplemented!() }
    #[verifier::external_body] pub fn with_save_mode(self, m: SaveMode) -> (r: ConvertToDeltaBuilder) ensures r.prefix() == self.prefix() { unimplemented!() }
    #[verifier::external_body] pub fn with_comment(self, w: &mut World, n: String) -> (r: core::result::Result<DeltaTable, LibError>) ensures did(*old(w), *final(w), Change::Converted { prefix: self.prefix() }, r is Ok), r is Ok ==> r->Ok_0.prefix() == self.prefix() { unimplemented!() }
}
#[verifier::external_body] pub struct OPath { p: u8 }
impl OPath { pub uninterp spec fn text(&self) -> Seqc; }
pub enum CreateDeltaTableDetails { EmptyTable(ArrowSchema), FromPath(OPath) }
#[verifier::external_body] pub struct LibError { p: u8 }
impl RxDisp for LibError { uninterp spec fn disp(&self) -> Seqc; }
#[verifier::external_body] pub struct DataFusionError { p: u8 }
pub type Result<T> = core::result::Result<T, DataFusionError>;
pub trait RxErr {} impl RxErr for DataFusionError {} impl RxErr for LibError {}
#[verifier::external_body] pub fn rx_from_err<E: RxErr>(e: E) -> DataFusionError { unimplemented!() }
#[verifier::external_body] pub fn rx_err(m: String) -> DataFusionError { unimplemented!() }
#[verifier::external_body] pub struct Plan { p: u8 }
#[verifier::external_body] pub fn make_dummy_exec() -> Plan { unimplemented!() }
/// the tables and schemas the session sees
pub uninterp spec fn has_table(t: TableRef) -> bool;
pub uninterp spec fn prefix_of(t: TableRef) -> Seqc;
pub uninterp spec fn seen_schema(c: Seqc, s: Seqc) -> Option<Seq<Seqc>>;
#[verifier::external_body] pub struct SchemaProvider { p: u8 }
impl SchemaProvider { pub uninterp spec fn tables(&self) -> Seq<Seqc>; #[verifier::external_body] pub fn table_names(&self) -> (r: Vec<String>) ensures r@.len() == self.tables().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.tables()[i] { unimplemented!() } }
#[verifier::external_body] pub struct CatalogProvider { p: u8 }
impl CatalogProvider { pub uninterp spec fn name(&self) -> Seqc; #[verifier::external_body] pub fn schema(&self, s: &str) -> (r: Option<SchemaProvider>) ensures r is Some == seen_schema(self.name(), s@) is Some, r is Some ==> r->Some_0.tables() == seen_schema(self.name(), s@)->Some_0 { unimplemented!() } }
#[verifier::external_body] pub struct Inner { p: u8 }
impl Inner {
    #[verifier::external_body] pub fn catalog(&self, c: &String) -> (r: Option<CatalogProvider>) ensures r is Some, r->Some_0.name() == c@ { unimplemented!() }
    #[verifier::external_body] pub fn register_table(&self, t: Resolved, x: DeltaTable) -> Result<()> { unimplemented!() }
    #[verifier::external_body] pub fn deregister_table(&self, t: Resolved) -> Result<()> { unimplemented!() }
}
pub enum SchemaReference { Bare { schema: String }, Full { schema: String, catalog: String } }
impl SchemaReference { pub open spec fn nm(&self) -> Seqc { match self { SchemaReference::Bare { schema } => schema@, SchemaReference::Full { schema, .. } => schema@ } }
    #[verifier::external_body] pub fn schema_name(&self) -> (r: &str) ensures r@ == self.nm() { unimplemented!() } }
pub struct SeafowlContext { pub inner: Inner, pub metastore: Metastore, pub default_catalog: String, pub default_schema: String }
impl SeafowlContext {
    pub open spec fn named(&self, t: TableRef) -> Full { full(t, self.default_catalog@, self.default_schema@) }
    #[verifier::external_body] pub fn get_internal_object_store(&self) -> Result<IStore> { unimplemented!() }
    #[verifier::external_body] pub fn try_get_delta_table<T: RxRef>(&self, t: T) -> (r: Result<DeltaTable>) ensures (r is Ok) == has_table(t.tref()), r is Ok ==> r->Ok_0.prefix() == prefix_of(t.tref()) { unimplemented!() }
    #[verifier::external_body] pub fn register_function(&self, n: &String, d: &Details) -> Result<()> { unimplemented!() }
    // all objects of the table the session knows by the name
    #[verifier::external_body] pub fn delete_delta_table<T: RxRef>(&self, w: &mut World, t: T) -> (r: Result<()>) ensures did(*old(w), *final(w), Change::Wipe { t: t.tref() }, r is Ok) { unimplemented!() }
}
/// the log of a new table, and its columns
pub open spec fn log_of(d: CreateDeltaTableDetails, u: Uuid) -> Change { match d { CreateDeltaTableDetails::EmptyTable(s) => Change::Log { prefix: u.text(), columns: s }, CreateDeltaTableDetails::FromPath(p) => Change::Converted { prefix: u.text() } } }
pub open spec fn made_table(d: CreateDeltaTableDetails, u: Uuid, cols: ArrowSchema) -> bool { match d { CreateDeltaTableDetails::EmptyTable(s) => cols == stored(s), CreateDeltaTableDetails::FromPath(p) => u == uuid_in(p.text()) } }
#[verifier::external_body] pub fn own_ref<T: RxRef>(x: T) -> (r: TableRef) ensures r == x.tref() { unimplemented!() }
#[verifier::external_body] pub fn rx_env(n: &str) -> String { unimplemented!() }
#[verifier::external_body] pub fn own_err<T: RxErr>(x: T) -> DataFusionError { unimplemented!() }
#[verifier::external_body] pub fn has_text(x: &String, y: &str) -> bool { unimplemented!() }
#[verifier::external_body] pub fn rx_eq<A: RxText + ?Sized, B: RxText + ?Sized>(x: &A, y: &B) -> (r: bool) ensures r == (x.text() == y.text()) { unimplemented!() }
pub trait RxAR { type Out: ?Sized; spec fn ar(&self, r: &Self::Out) -> bool; fn ar_(&self) -> (r: &Self::Out) ensures self.ar(r); }
impl RxAR for String { type Out = str; open spec fn ar(&self, r: &str) -> bool { r@ == self@ } #[verifier::external_body] fn ar_(&self) -> &str { unimplemented!() } }
impl RxAR for OPath { type Out = str; open spec fn ar(&self, r: &str) -> bool { r@ == self.text() } #[verifier::external_body] fn ar_(&self) -> &str { unimplemented!() } }
impl RxAR for SchemaRef { type Out = ArrowSchema; open spec fn ar(&self, r: &ArrowSchema) -> bool { *r == self.sch() } #[verifier::external_body] fn ar_(&self) -> &ArrowSchema { unimplemented!() } }
impl<T: RxAR> RxAR for &T { type Out = T::Out; open spec fn ar(&self, r: &T::Out) -> bool { (**self).ar(r) } fn ar_(&self) -> &T::Out { (**self).ar_() } }
pub fn rx_asref<T: RxAR>(x: &T) -> (r: &T::Out) ensures x.ar(r) { x.ar_() }
/// the tables of a schema, each dropped and then its files removed
pub open spec fn drop_of(c: Seqc, s: Seqc, t: Seqc) -> Seq<Change> { seq![Change::DropTable { at: Full { c, s, t } }, Change::Wipe { t: of_resolved(c, s, t) }] }
pub open spec fn drops(c: Seqc, s: Seqc, names: Seq<Seqc>) -> Seq<Change> decreases names.len() { if names.len() == 0 { Seq::empty() } else { drops(c, s, names.drop_last()) + drop_of(c, s, names.last()) } }
/// only changes to this schema and the tables in it
pub open spec fn within(x: Change, c: Seqc, s: Seqc) -> bool { match x { Change::DropTable { at } => at.c == c && at.s == s, Change::Wipe { t } => exists|n: Seqc| t == #[trigger] of_resolved(c, s, n), Change::DropSchema { c: c2, s: s2 } => c2 == c && s2 == s, _ => false } }
pub open spec fn only(a: World, b: World, c: Seqc, s: Seqc) -> bool { a.log@.len() <= b.log@.len() && (forall|i: int| 0 <= i < a.log@.len() ==> b.log@[i] == #[trigger] a.log@[i]) && forall|i: int| a.log@.len() <= i < b.log@.len() ==> within(#[trigger] b.log@[i], c, s) }
pub open spec fn made(a: World, b: World, at: Full, d: CreateDeltaTableDetails, ok: bool) -> bool {
    (b.log@ == a.log@ && (ok ==> d is FromPath)) || exists|u: Uuid, cols: ArrowSchema| made_table(d, u, cols) && two(a, b, log_of(d, u), #[trigger] table_change(at, u, cols), ok)
}
#[verifier::external_body] pub fn path_from(s: &str) -> (r: OPath) ensures r == path_in(s@) { unimplemented!() }
pub uninterp spec fn path_in(s: Seqc) -> OPath;
pub fn own_iter<T>(x: T) -> (r: T) ensures r == x { x }
