pub trait RxAs<T>: Sized { spec fn as_spec(self) -> T; fn rx_as(self) -> (r: T) ensures r == self.as_spec(); }
impl RxAs<PExpr> for PExpr { open spec fn as_spec(self) -> PExpr { self } fn rx_as(self) -> (r: PExpr) { self } }
// a clone is equal
pub trait RxCl { type Out; spec fn cl(&self) -> Self::Out; }
impl<T> RxCl for Vec<T> { type Out = Vec<T>; open spec fn cl(&self) -> Vec<T> { *self } }
impl<T: RxCl> RxCl for &T { type Out = T::Out; open spec fn cl(&self) -> T::Out { (**self).cl() } }
impl RxCl for ArrowSchema { type Out = ArrowSchema; open spec fn cl(&self) -> ArrowSchema { *self } }
impl RxCl for DataType { type Out = DataType; open spec fn cl(&self) -> DataType { *self } }
impl<T: RxCl> RxCl for Option<T> { type Out = Self; open spec fn cl(&self) -> Self { *self } }
impl RxCl for u64 { type Out = u64; open spec fn cl(&self) -> u64 { *self } }
impl RxCl for TableRef { type Out = TableRef; open spec fn cl(&self) -> TableRef { *self } }
impl RxCl for TableSchema { type Out = TableSchema; open spec fn cl(&self) -> TableSchema { *self } }
impl RxCl for DFSchema { type Out = DFSchema; open spec fn cl(&self) -> DFSchema { *self } }
impl RxCl for Expr { type Out = Expr; open spec fn cl(&self) -> Expr { *self } }
impl RxCl for Snapshot { type Out = Snapshot; open spec fn cl(&self) -> Snapshot { *self } }
impl RxCl for Add { type Out = Add; open spec fn cl(&self) -> Add { *self } }
impl RxCl for PExpr { type Out = PExpr; open spec fn cl(&self) -> PExpr { *self } }
impl RxCl for String { type Out = String; open spec fn cl(&self) -> String { *self } }
#[verifier::external_body] pub fn rx_own<T: RxCl>(x: &T) -> (r: T::Out) ensures r == x.cl() { unimplemented!() }
// ---- tables, their files and log; the arms of create_physical_plan that change tables
impl Clone for TableRef { #[verifier::external_body] fn clone(&self) -> (r: TableRef) ensures r == *self { unimplemented!() } }
impl Clone for DFSchema { #[verifier::external_body] fn clone(&self) -> (r: DFSchema) ensures r == *self { unimplemented!() } }
impl Clone for TableSchema { #[verifier::external_body] fn clone(&self) -> (r: TableSchema) ensures r == *self { unimplemented!() } }
impl Clone for Expr { #[verifier::external_body] fn clone(&self) -> (r: Expr) ensures r == *self { unimplemented!() } }
impl Clone for Snapshot { #[verifier::external_body] fn clone(&self) -> (r: Snapshot) ensures r == *self { unimplemented!() } }
impl Clone for Add { #[verifier::external_body] fn clone(&self) -> (r: Add) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct TableRef { p: u8 }
impl TableRef { #[verifier::external_body] pub fn table(&self) -> &str { unimplemented!() } }
/// a table reference, or the text of one
pub trait RxRef: Sized { spec fn tref(&self) -> TableRef; }
impl RxRef for TableRef { open spec fn tref(&self) -> TableRef { *self } }
pub uninterp spec fn ref_of(text: Seq<char>) -> TableRef;
impl RxRef for &String { open spec fn tref(&self) -> TableRef { ref_of((**self)@) } }
/// the table a name stands for, its columns, where its objects are
pub uninterp spec fn uuid_of(t: TableRef) -> Uuid;
pub uninterp spec fn columns_of(prefix: Seq<char>) -> ArrowSchema;
pub uninterp spec fn store_at(prefix: Seq<char>) -> int;
pub uninterp spec fn dir_at(prefix: Seq<char>) -> Option<String>;
#[verifier::external_body] pub struct TableSchema { p: u8 }
impl TableSchema { pub uninterp spec fn sch(&self) -> ArrowSchema; #[verifier::external_body] pub fn as_ref(&self) -> (r: &ArrowSchema) ensures *r == self.sch() { unimplemented!() } }
#[verifier::external_body] pub fn schema_from(d: DFSchema) -> TableSchema { unimplemented!() }
impl DFSchema {
    #[verifier::external_body] pub fn deref(&self) -> &DFSchema { unimplemented!() }
    #[verifier::external_body] pub fn try_from_qualified_schema(t: &str, s: &ArrowSchema) -> Result<DFSchema> { unimplemented!() }
}
#[verifier::external_body] pub struct LogStore { p: u8 }
impl LogStore { pub uninterp spec fn prefix(&self) -> Seq<char>; #[verifier::external_body] pub fn object_store(&self) -> (r: Store) ensures r.id() == store_at(self.prefix()) { unimplemented!() } }
impl RxCl for LogStore { type Out = LogStore; open spec fn cl(&self) -> LogStore { *self } }
#[verifier::external_body] pub struct IStore { p: u8 }
impl IStore {
    #[verifier::external_body] pub fn get_log_store(&self, prefix: &String) -> (r: LogStore) ensures r.prefix() == prefix@ { unimplemented!() }
    #[verifier::external_body] pub fn local_table_dir(&self, prefix: &String) -> (r: Option<String>) ensures r == dir_at(prefix@) { unimplemented!() }
}
#[verifier::external_body] pub struct Snapshot { p: u8 }
impl Snapshot { pub uninterp spec fn files(&self) -> Seq<Add>; #[verifier::external_body] pub fn file_actions(&self) -> (r: Result<Vec<Add>>) ensures r is Ok ==> r->Ok_0@ == self.files() { unimplemented!() } }
#[verifier::external_body] pub struct DeltaTable { p: u8 }
impl DeltaTable {
    /// where its log is; its files once loaded
    pub uninterp spec fn prefix(&self) -> Seq<char>; pub uninterp spec fn files(&self) -> Seq<Add>;
    #[verifier::external_body] pub fn new(l: LogStore, c: NoVals) -> (r: DeltaTable) ensures r.prefix() == l.prefix() { unimplemented!() }
    #[verifier::external_body] pub fn load(&mut self) -> (r: Result<()>) ensures final(self).prefix() == old(self).prefix() { unimplemented!() }
    #[verifier::external_body] pub fn snapshot(&self) -> (r: Result<&Snapshot>) ensures r is Ok ==> r->Ok_0.files() == self.files() { unimplemented!() }
    #[verifier::external_body] pub fn log_store(&self) -> (r: LogStore) ensures r.prefix() == self.prefix() { unimplemented!() }
}
#[verifier::external_body] pub fn table_columns(t: &DeltaTable) -> (r: TableSchema) ensures r.sch() == columns_of(t.prefix()) { unimplemented!() }
// delta-rs: a scan of the given files; without filters and limit all of their rows, in some order
#[verifier::external_body] pub struct DeltaTableProvider { p: u8 }
impl DeltaTableProvider {
    pub uninterp spec fn files(&self) -> Seq<Add>;
    #[verifier::external_body] pub fn try_new(s: Snapshot, l: LogStore, c: NoVals) -> (r: Result<DeltaTableProvider>) ensures r is Ok ==> r->Ok_0.files() == s.files() { unimplemented!() }
    #[verifier::external_body] pub fn with_files(self, f: Vec<Add>) -> (r: DeltaTableProvider) ensures r.files() == f@ { unimplemented!() }
    #[verifier::external_body] pub fn scan(&self, s: &SessionState, proj: Option<&Vec<usize>>, filters: &[Expr], limit: Option<usize>) -> (r: Result<Plan>)
        ensures r is Ok && proj is None && filters@.len() == 0 && limit is None ==> same_rows(r->Ok_0.rows(), self.files()) { unimplemented!() }
}
pub open spec fn same_rows(s: Rows, files: Seq<Add>) -> bool { s.to_multiset() =~= cat(arows(files)).to_multiset() }
#[verifier::external_body] pub struct PruningPredicate { p: u8 }
impl PruningPredicate {
    pub uninterp spec fn of(&self) -> PExpr;
    #[verifier::external_body] pub fn try_new(e: PExpr, s: TableSchema) -> (r: Result<PruningPredicate>) ensures r is Ok ==> r->Ok_0.of() == e { unimplemented!() }
    // one answer per file: a file that is not kept has no row for which the condition is true
    #[verifier::external_body] pub fn prune(&self, s: &Snapshot) -> (r: Result<Vec<bool>>) ensures r is Ok ==> r->Ok_0@.len() == s.files().len(),
        r is Ok ==> forall|i: int, k: int| #![trigger s.files()[i].rows()[k]] 0 <= i < s.files().len() && !r->Ok_0@[i] && 0 <= k < s.files()[i].rows().len() ==> !is_true(self.of().at(s.files()[i].rows()[k])) { unimplemented!() }
}
#[verifier::external_body] pub fn filter_exec(e: PExpr, p: Plan) -> (r: Result<Plan>) ensures r is Ok ==> r->Ok_0.rows() == p.rows().filter(|row: Row| is_true(e.at(row))) { unimplemented!() }
pub uninterp spec fn projected(p: Seq<(PExpr, String)>, row: Row) -> Row;
pub open spec fn distinct_names(p: Seq<(PExpr, String)>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).1@ != (#[trigger] p[j]).1@ }
#[verifier::external_body] pub proof fn axiom_projected(p: Seq<(PExpr, String)>, row: Row) requires distinct_names(p) ensures forall|i: int| 0 <= i < p.len() ==> cell(projected(p, row), (#[trigger] p[i]).1@) == p[i].0.at(row) {}
#[verifier::external_body] pub proof fn axiom_projected_nth(p: Seq<(PExpr, String)>, row: Row) ensures forall|i: int| 0 <= i < p.len() ==> nth(projected(p, row), i) == (#[trigger] p[i]).0.at(row) {}
#[verifier::external_body] pub fn projection_exec(e: Vec<(PExpr, String)>, p: Plan) -> (r: Result<Plan>) ensures r is Ok ==> r->Ok_0.rows() == p.rows().map_values(|row: Row| projected(e@, row)) { unimplemented!() }
// ---- logical plans
pub struct Filter { pub predicate: Expr, pub input: Box<LogicalPlan> }
pub struct TableScan { pub filters: Vec<Expr> }
pub struct Projection { pub expr: Vec<Expr>, pub input: Box<LogicalPlan> }
#[verifier::external_body] pub struct EmptyRelation { p: u8 }
pub enum LogicalPlan { Projection(Projection), Filter(Filter), TableScan(TableScan), EmptyRelation(EmptyRelation), Other(Opaque) }
/// what DataFusion makes of the condition of a statement about one table: it, nothing at all, or no condition; anything else is no row's condition
pub open spec fn row_wise(p: LogicalPlan) -> bool { match p { LogicalPlan::Filter(f) => *f.input is TableScan, LogicalPlan::EmptyRelation(_) => true, LogicalPlan::TableScan(t) => t.filters@.len() == 0, _ => false } }
pub open spec fn hit(p: LogicalPlan, row: Row) -> bool { match p { LogicalPlan::Filter(f) => is_true(f.predicate.at(row)), LogicalPlan::TableScan(_) => true, _ => false } }
// ---- the log
#[verifier::external_body] pub struct Extra { p: u8 }
pub struct Remove { pub path: String, pub deletion_timestamp: Option<i64>, pub data_change: bool, pub extended_file_metadata: Option<bool>, pub partition_values: Option<PartVals>, pub size: Option<i64>, pub tags: Option<Extra>, pub deletion_vector: Option<Extra>, pub base_row_id: Option<i64>, pub default_row_commit_version: Option<i64> }
pub enum Action { Add(Add), Remove(Remove) }
pub enum SaveMode { Append, Overwrite }
pub enum DeltaOperation { Delete { predicate: Option<String> }, Write { mode: SaveMode, partition_by: Option<Vec<String>>, predicate: Option<String> } }
/// these actions on the table with these files are its new version
pub uninterp spec fn committed(prefix: Seq<char>, files: Seq<Add>, acts: Seq<Action>, version: i64) -> bool;
// delta-rs: commits on top of the given snapshot, or fails
#[verifier::external_body] pub struct CommitBuilder { p: u8 }
impl CommitBuilder {
    pub uninterp spec fn acts(&self) -> Seq<Action>;
    #[verifier::external_body] pub fn rx_default() -> CommitBuilder { unimplemented!() }
    #[verifier::external_body] pub fn with_actions(self, a: Vec<Action>) -> (r: CommitBuilder) ensures r.acts() == a@ { unimplemented!() }
    #[verifier::external_body] pub fn build(self, s: Option<&Snapshot>, l: LogStore, op: DeltaOperation) -> (r: Result<Committed>) ensures r is Ok && s is Some ==> committed(l.prefix(), s->Some_0.files(), self.acts(), r->Ok_0.version) { unimplemented!() }
}
pub struct Committed { pub version: i64 }
pub uninterp spec fn recorded(u: Uuid, version: i64) -> bool;
#[verifier::external_body] pub struct Tables { p: u8 }
impl Tables { #[verifier::external_body] pub fn create_new_version(&self, u: Uuid, v: i64) -> (r: Result<()>) ensures r is Ok ==> recorded(u, v) { unimplemented!() } }
pub struct Metastore { pub tables: Tables }
pub struct Misc { pub max_partition_size: u32 }
pub struct Config { pub misc: Misc }
#[verifier::external_body] pub struct Inner { p: u8 }
/// a plan DataFusion made of the query
pub uninterp spec fn plans(p: LogicalPlan, x: Plan) -> bool;
impl SessionState { #[verifier::external_body] pub fn create_physical_plan(&self, p: &Box<LogicalPlan>) -> (r: Result<Plan>) ensures r is Ok ==> plans(**p, r->Ok_0) { unimplemented!() } }
pub enum LakehouseTableProvider { Delta(Opaque), Iceberg(Opaque) }
pub uninterp spec fn is_iceberg(t: TableRef) -> bool;
pub uninterp spec fn iceberg_holds(t: TableRef, rows: Rows) -> bool;
/// the same row, timestamps to the microsecond
pub open spec fn nano(f: Field) -> bool { f.dt() matches DataType::Timestamp(TimeUnit::Nanosecond, _) }
pub open spec fn coerced_val(t: DataType, v: Val) -> Val { match t { DataType::Timestamp(TimeUnit::Nanosecond, tz) => cast_val(v, DataType::Timestamp(TimeUnit::Microsecond, tz)), _ => v } }
pub open spec fn coerces(p: PExpr, f: Field, i: int) -> bool { forall|row: Row| #[trigger] p.at(row) == coerced_val(f.dt(), nth(row, i)) }
pub open spec fn coerced_row(new: Row, old: Row, f: Seq<Field>) -> bool { forall|i: int| 0 <= i < f.len() ==> nth(new, i) == coerced_val((#[trigger] f[i]).dt(), nth(old, i)) }
pub open spec fn coerced(out: Rows, p: Plan) -> bool { out.len() == p.rows().len() && forall|k: int| 0 <= k < out.len() ==> coerced_row(#[trigger] out[k], p.rows()[k], p.sch().fields@) }
pub uninterp spec fn has_table(t: TableRef) -> bool;
pub uninterp spec fn created(t: TableRef, d: CreateDeltaTableDetails) -> bool;
pub enum CreateDeltaTableDetails { EmptyTable(ArrowSchema) }
impl Inner { #[verifier::external_body] pub fn state(&self) -> SessionState { unimplemented!() } }
pub struct SeafowlContext { pub inner: Inner, pub metastore: Metastore, pub config: Config }
impl SeafowlContext {
    #[verifier::external_body] pub fn get_internal_object_store(&self) -> Result<IStore> { unimplemented!() }
    #[verifier::external_body] pub fn get_table_uuid<T: RxRef>(&self, t: T) -> (r: Result<Uuid>) ensures r is Ok ==> r->Ok_0 == uuid_of(t.tref()) { unimplemented!() }
    #[verifier::external_body] pub fn try_get_delta_table<T: RxRef>(&self, t: T) -> (r: Result<DeltaTable>) ensures r is Ok ==> r->Ok_0.prefix() == uuid_of(t.tref()).disp() && has_table(t.tref()) { unimplemented!() }
    #[verifier::external_body] pub fn get_lakehouse_table_provider(&self, t: TableRef) -> (r: Result<LakehouseTableProvider>) ensures r is Ok ==> (r->Ok_0 is Iceberg) == is_iceberg(t) { unimplemented!() }
    #[verifier::external_body] pub fn plan_to_iceberg_table(&self, t: TableRef, p: &Plan) -> (r: Result<()>) ensures r is Ok ==> iceberg_holds(t, p.rows()) { unimplemented!() }
    #[verifier::external_body] pub fn create_delta_table(&self, t: TableRef, d: CreateDeltaTableDetails) -> (r: Result<()>) ensures r is Ok ==> created(t, d) { unimplemented!() }
}
#[verifier::external_body] pub fn make_dummy_exec() -> Plan { unimplemented!() }
#[verifier::external_body] pub fn rx_err(m: String) -> DataFusionError { unimplemented!() }
// the clock is past 1970
pub struct UnixEpoch; pub const UNIX_EPOCH: UnixEpoch = UnixEpoch;
#[verifier::external_body] pub struct Time { p: u8 }
#[verifier::external_body] pub fn now() -> Time { unimplemented!() }
#[verifier::external_body] pub struct Span { p: u8 }
impl Time { #[verifier::external_body] pub fn duration_since(&self, e: UnixEpoch) -> (r: core::result::Result<Span, LibError>) ensures r is Ok { unimplemented!() } }
impl Span { #[verifier::external_body] pub fn as_millis(&self) -> (r: u128) ensures r <= i64::MAX { unimplemented!() } }
// ---- what a statement makes of the table
pub open spec fn pick(files: Seq<Add>, keep: Seq<bool>) -> Seq<Add> decreases files.len() {
    if files.len() == 0 || keep.len() != files.len() { Seq::empty() } else { let p = pick(files.drop_last(), keep.drop_last()); if keep.last() { p.push(files.last()) } else { p } }
}
pub open spec fn no_hit(a: Add, p: LogicalPlan) -> bool { forall|k: int| 0 <= k < a.rows().len() ==> !hit(p, #[trigger] a.rows()[k]) }
/// the picked files are those marked, and no other one has a row the condition is true for
pub open spec fn selected(files: Seq<Add>, picked: Seq<Add>, keep: Seq<bool>, p: LogicalPlan) -> bool { keep.len() == files.len() && picked =~= pick(files, keep) && forall|i: int| 0 <= i < files.len() && !keep[i] ==> no_hit(#[trigger] files[i], p) }
pub open spec fn acts_ok(acts: Seq<Action>, adds: Seq<Add>, picked: Seq<Add>) -> bool {
    &&& acts.len() == adds.len() + picked.len()
    &&& forall|k: int| 0 <= k < adds.len() ==> #[trigger] acts[k] == Action::Add(adds[k])
    &&& forall|k: int| 0 <= k < picked.len() ==> removal(#[trigger] acts[adds.len() + k], picked[k])
}
pub open spec fn removal(a: Action, f: Add) -> bool { a matches Action::Remove(r) && r.path@ == f.path@ && r.data_change }
/// the new files hold the rows of the picked ones for which the condition is not true
pub open spec fn kept(picked: Seq<Add>, adds: Seq<Add>, s: Rows, p: LogicalPlan, max: u32, u: Uuid) -> bool { same_rows(s, picked) && wrote(adds, s.filter(|row: Row| !hit(p, row)), max, store_at(u.disp()), dir_at(u.disp())) }
pub open spec fn deleted(files: Seq<Add>, acts: Seq<Action>, p: LogicalPlan, max: u32, u: Uuid) -> bool {
    exists|picked: Seq<Add>, adds: Seq<Add>, keep: Seq<bool>, s: Rows| #[trigger] selected(files, picked, keep, p) && #[trigger] kept(picked, adds, s, p, max, u) && acts_ok(acts, adds, picked)
}
pub proof fn lemma_filter_same(s: Rows, f: spec_fn(Row) -> bool, g: spec_fn(Row) -> bool) requires forall|r: Row| #[trigger] f(r) == g(r) ensures s.filter(f) == s.filter(g) decreases s.len() {
    reveal(Seq::filter); if s.len() > 0 { lemma_filter_same(s.drop_last(), f, g); }
}
pub proof fn lemma_filter_none(s: Rows, f: spec_fn(Row) -> bool) requires forall|r: Row| !#[trigger] f(r) ensures s.filter(f) == Rows::empty() decreases s.len() {
    reveal(Seq::filter); if s.len() > 0 { lemma_filter_none(s.drop_last(), f); }
}
pub proof fn lemma_pick_step(files: Seq<Add>, keep: Seq<bool>, n: int) requires keep.len() == files.len(), 0 <= n < files.len()
    ensures pick(files.subrange(0, n + 1), keep.subrange(0, n + 1)) == if keep[n] { pick(files.subrange(0, n), keep.subrange(0, n)).push(files[n]) } else { pick(files.subrange(0, n), keep.subrange(0, n)) }
{ assert(files.subrange(0, n + 1).drop_last() =~= files.subrange(0, n)); assert(keep.subrange(0, n + 1).drop_last() =~= keep.subrange(0, n)); }
pub proof fn lemma_pick_const(files: Seq<Add>, b: bool) ensures pick(files, Seq::new(files.len(), |i: int| b)) == if b { files } else { Seq::empty() } decreases files.len() {
    if files.len() > 0 { lemma_pick_const(files.drop_last(), b); assert(Seq::new(files.len(), |i: int| b).drop_last() =~= Seq::new((files.len() - 1) as nat, |i: int| b)); if b { assert(files.drop_last().push(files.last()) =~= files); } }
}
/// nothing is written when no row is left to write
pub proof fn lemma_wrote_none(max: u32, store: int, dir: Option<String>) ensures wrote(Seq::empty(), Rows::empty(), max, store, dir) { assert(arows(Seq::empty()) =~= Seq::empty()); }
pub proof fn lemma_filter_empty(f: spec_fn(Row) -> bool) ensures Rows::empty().filter(f) == Rows::empty() { reveal(Seq::filter); }
/// UPDATE: what the assignments are made over: the table, or the table and a condition
pub open spec fn over_table(p: LogicalPlan) -> bool { match p { LogicalPlan::Filter(f) => true, LogicalPlan::TableScan(t) => t.filters@.len() == 0, _ => false } }
pub open spec fn names_differ(f: Seq<Field>) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).nm() != (#[trigger] f[j]).nm() }
/// one assignment per column of the table, in order
pub open spec fn assignments(p: LogicalPlan, u: Uuid) -> bool { p matches LogicalPlan::Projection(j) ==> j.expr@.len() == columns_of(u.disp()).fields@.len() && over_table(*j.input) && names_differ(columns_of(u.disp()).fields@) }
/// the new row: assigned values where the condition is true, the old ones elsewhere
pub open spec fn upd_row(new: Row, old: Row, j: Projection, f: Seq<Field>) -> bool {
    forall|i: int| 0 <= i < f.len() ==> cell(new, (#[trigger] f[i]).nm()) == if hit(*j.input, old) { cast_val(j.expr@[i].at(old), f[i].dt()) } else { cell(old, f[i].nm()) }
}
pub open spec fn rewritten(s: Rows, out: Rows, j: Projection, f: Seq<Field>) -> bool { out.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> upd_row(#[trigger] out[k], s[k], j, f) }
pub open spec fn changed(picked: Seq<Add>, adds: Seq<Add>, s: Rows, out: Rows, max: u32, u: Uuid) -> bool { same_rows(s, picked) && wrote(adds, out, max, store_at(u.disp()), dir_at(u.disp())) }
pub open spec fn updated(files: Seq<Add>, acts: Seq<Action>, p: LogicalPlan, max: u32, u: Uuid) -> bool {
    p matches LogicalPlan::Projection(j) && exists|picked: Seq<Add>, adds: Seq<Add>, keep: Seq<bool>, s: Rows, out: Rows| #[trigger] selected(files, picked, keep, *j.input) && #[trigger] changed(picked, adds, s, out, max, u)
        && rewritten(s, out, j, columns_of(u.disp()).fields@) && acts_ok(acts, adds, picked)
}
/// a new version of the table: the old one and these rows
pub open spec fn appended(u: Uuid, rows: Rows, max: u32) -> bool {
    exists|files: Seq<Add>, acts: Seq<Action>, adds: Seq<Add>, version: i64| #[trigger] committed(u.disp(), files, acts, version) && recorded(u, version) && #[trigger] acts_ok(acts, adds, Seq::empty()) && wrote(adds, rows, max, store_at(u.disp()), dir_at(u.disp()))
}
/// a new version of the table without rows
pub open spec fn emptied(u: Uuid) -> bool { exists|files: Seq<Add>, acts: Seq<Action>, version: i64| #[trigger] committed(u.disp(), files, acts, version) && recorded(u, version) && acts_ok(acts, Seq::empty(), files) }
