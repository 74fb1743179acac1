// ---- relations: which rows there are and what they have; DataFusion's plans with the relation each gives (trusted)
pub enum Id { Src(int), Both(Box<Id>, Box<Id>), Left(Box<Id>), Right(Box<Id>), Nth(Box<Id>, int) }
pub ghost struct Rel { pub cols: Seq<Ref>, pub ids: ISet<Id>, pub at: spec_fn(Id, int) -> Val }
// whether a reference to a column means this one
pub open spec fn refers(c: Ref, q: Option<Seqc>, n: Seqc) -> bool { c.1 == n && (q is None || c.0 == q) }
pub open spec fn isref(cols: Seq<Ref>, q: Option<Seqc>, n: Seqc, k: int) -> bool { 0 <= k < cols.len() && refers(cols[k], q, n) }
pub open spec fn found(cols: Seq<Ref>, q: Option<Seqc>, n: Seqc) -> bool { exists|k: int| isref(cols, q, n, k) }
pub open spec fn find(cols: Seq<Ref>, q: Option<Seqc>, n: Seqc) -> int { choose|k: int| isref(cols, q, n, k) }
pub open spec fn envof(r: Rel, id: Id) -> Env { |q: Option<Seqc>, n: Seqc| (r.at)(id, find(r.cols, q, n)) }
// no two columns have the same name, and none with a qualifier the name of one without
pub open spec fn uniq(c: Seq<Ref>) -> bool {
    (forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j ==> #[trigger] c[i] != #[trigger] c[j])
    && (forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && #[trigger] c[i].0 is None && #[trigger] c[j].0 is Some ==> c[i].1 != c[j].1)
}
pub open spec fn projected(r: Rel, e: Seq<Expr>) -> Rel { Rel { cols: e.map_values(|x: Expr| x.nm()), ids: r.ids, at: |id: Id, k: int| e[k].ev(envof(r, id)) } }
// the rows of one side are joined to those of the other when the key columns are equal, and none is NULL
pub open spec fn keys_match(l: Rel, r: Rel, lk: Seq<Ref>, rk: Seq<Ref>, a: Id, b: Id) -> bool { forall|i: int| 0 <= i < lk.len() ==> eq3(envof(l, a)((#[trigger] lk[i]).0, lk[i].1), envof(r, b)(rk[i].0, rk[i].1)) == Val::Bool(true) }
pub open spec fn full_ids(l: Rel, r: Rel, lk: Seq<Ref>, rk: Seq<Ref>, id: Id) -> bool {
    match id {
        Id::Both(a, b) => l.ids.contains(*a) && r.ids.contains(*b) && keys_match(l, r, lk, rk, *a, *b),
        Id::Left(a) => l.ids.contains(*a) && forall|b: Id| #[trigger] r.ids.contains(b) ==> !keys_match(l, r, lk, rk, *a, b),
        Id::Right(b) => r.ids.contains(*b) && forall|a: Id| #[trigger] l.ids.contains(a) ==> !keys_match(l, r, lk, rk, a, *b),
        _ => false,
    }
}
pub open spec fn joined_at(l: Rel, r: Rel, id: Id, k: int) -> Val {
    let left = k < l.cols.len(); let j = k - l.cols.len();
    match id {
        Id::Both(a, b) => if left { (l.at)(*a, k) } else { (r.at)(*b, j) },
        Id::Left(a) => if left { (l.at)(*a, k) } else { Val::Null },
        Id::Right(b) => if left { Val::Null } else { (r.at)(*b, j) },
        _ => Val::Null,
    }
}
pub open spec fn full_join(l: Rel, r: Rel, lk: Seq<Ref>, rk: Seq<Ref>) -> Rel { Rel { cols: l.cols + r.cols, ids: ISet::new(|id: Id| full_ids(l, r, lk, rk, id)), at: |id: Id, k: int| joined_at(l, r, id, k) } }
pub open spec fn unioned(l: Rel, r: Rel) -> Rel { Rel { cols: l.cols, ids: ISet::new(|id: Id| match id { Id::Left(a) => l.ids.contains(*a), Id::Right(b) => r.ids.contains(*b), _ => false }), at: |id: Id, k: int| match id { Id::Left(a) => (l.at)(*a, k), Id::Right(b) => (r.at)(*b, k), _ => Val::Null } } }
pub open spec fn scanned(q: Seqc, names: Seq<Seqc>, t: Table, n: nat) -> Rel { Rel { cols: names.map_values(|x: Seqc| (Some(q), x)), ids: ISet::new(|id: Id| id matches Id::Src(i) && 0 <= i < n), at: |id: Id, k: int| t[k][id->Src_0] } }
pub open spec fn crefs(c: Seq<Column>) -> Seq<Ref> { c.map_values(|x: Column| x@) }
#[verifier::external_body] pub struct OtherPlan { p: u8 }
impl OtherPlan { pub uninterp spec fn rel(&self) -> Rel; }
#[verifier::external_body] pub struct PlanRef { p: u8 }
impl PlanRef { pub uninterp spec fn rel(&self) -> Rel; }
pub struct Projection { pub expr: Vec<Expr>, pub input: PlanRef }
pub enum LogicalPlan { Projection(Projection), Other(OtherPlan) }
impl LogicalPlan {
    pub open spec fn rel(&self) -> Rel { match self { LogicalPlan::Projection(p) => projected(p.input.rel(), p.expr@), LogicalPlan::Other(o) => o.rel() } }
    #[verifier::external_body] pub fn schema(&self) -> (r: &DFSchemaRef) ensures r.cols() == self.rel().cols { unimplemented!() }
}
#[verifier::external_body] pub fn rx_plan_ref(p: LogicalPlan) -> (r: PlanRef) ensures r.rel() == p.rel() { unimplemented!() }
impl Projection { #[verifier::external_body] pub fn try_new(e: Vec<Expr>, p: PlanRef) -> (r: core::result::Result<Projection, LibError>) ensures r matches Ok(x) ==> x.expr == e && x.input == p && uniq(projected(p.rel(), e@).cols) { unimplemented!() } }
#[verifier::external_body] pub struct DFSchemaRef { p: u8 }
impl DFSchemaRef {
    pub uninterp spec fn cols(&self) -> Seq<Ref>;
    #[verifier::external_body] pub fn columns(&self) -> (r: Vec<Column>) ensures crefs(r@) == self.cols() { unimplemented!() }
    #[verifier::external_body] pub fn inner(&self) -> (r: &Schema) ensures r.f@.len() == self.cols().len(), forall|i: int| 0 <= i < self.cols().len() ==> (#[trigger] r.f@[i]).fname() == self.cols()[i].1 { unimplemented!() }
}
// a projection by name takes what each name means; one that is qualified or given a name keeps that
pub open spec fn keeps_name(x: Expr) -> bool { x.nm().0 is Some || x.aliased() }
pub struct LogicalPlanBuilder { pub plan: LogicalPlan }
impl LogicalPlanBuilder {
    pub fn from(p: LogicalPlan) -> (r: LogicalPlanBuilder) ensures r.plan == p { LogicalPlanBuilder { plan: p } }
    pub fn build(self) -> (r: core::result::Result<LogicalPlan, LibError>) ensures r matches Ok(p) && p == self.plan { Ok(self.plan) }
    pub fn schema(&self) -> (r: &DFSchemaRef) ensures r.cols() == self.plan.rel().cols { self.plan.schema() }
    #[verifier::external_body] pub fn project(self, e: Vec<Expr>) -> (r: core::result::Result<LogicalPlanBuilder, LibError>)
        requires forall|i: int| 0 <= i < e@.len() ==> keeps_name(#[trigger] e@[i])
        ensures r matches Ok(x) ==> x.plan.rel() == projected(self.plan.rel(), e@) && uniq(x.plan.rel().cols) { unimplemented!() }
    #[verifier::external_body] pub fn union(self, p: LogicalPlan) -> (r: core::result::Result<LogicalPlanBuilder, LibError>)
        ensures r matches Ok(x) ==> self.plan.rel().cols.len() == p.rel().cols.len() && x.plan.rel() == unioned(self.plan.rel(), p.rel()) { unimplemented!() }
    #[verifier::external_body] pub fn join(self, p: LogicalPlan, t: JoinType, k: (Vec<Column>, Vec<Column>), f: Option<Expr>) -> (r: core::result::Result<LogicalPlanBuilder, LibError>)
        requires t is Full, f is None, forall|i: int| 0 <= i < k.0@.len() ==> found(self.plan.rel().cols, (#[trigger] k.0@[i])@.0, k.0@[i]@.1)
        ensures r matches Ok(x) ==> k.0@.len() == k.1@.len() && x.plan.rel() == full_join(self.plan.rel(), p.rel(), crefs(k.0@), crefs(k.1@)) && uniq(x.plan.rel().cols) { unimplemented!() }
    #[verifier::external_body] pub fn scan(name: &str, s: Source, p: Option<Vec<usize>>) -> (r: core::result::Result<LogicalPlanBuilder, LibError>)
        requires p is None
        ensures r matches Ok(x) ==> x.plan.rel() == s.rel(parsed(name@).1) && uniq(x.plan.rel().cols) { unimplemented!() }
}
pub enum JoinType { Full, Inner, Left, Right }
#[verifier::external_body] pub struct Source { p: u8 }
impl Source { pub uninterp spec fn rel(&self, q: Seqc) -> Rel; }
impl RecordBatch { #[verifier::external_body] pub fn column_by_name(&self, n: &str) -> (r: Option<&ArrayRef>) ensures r is Some <==> named(self.s.f@, n@), r matches Some(x) ==> exists|i: int| 0 <= i < self.cols@.len() && *x == self.cols@[i] && (#[trigger] self.s.f@[i]).fname() == n@ { unimplemented!() } }
impl ArrayRef { #[verifier::external_body] pub fn null_count(&self) -> (r: usize) ensures r <= self@.len(), r == self@.len() <==> forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == Val::Null { unimplemented!() } }
impl RxCl for RecordBatch { type Out = RecordBatch; open spec fn cl(&self) -> RecordBatch { *self } }
impl RxCl for SyncSchema { type Out = SyncSchema; open spec fn cl(&self) -> SyncSchema { *self } }
pub fn rx_schema(b: &RecordBatch) -> (r: Schema) ensures r == b.s { rx_own(b.schema()) }
#[verifier::external_body] pub fn rx_slice_from<'a, T>(v: &&'a Vec<T>, k: core::ops::RangeFrom<usize>) -> (r: &'a Vec<T>) requires k.start <= v@.len() ensures r@ == v@.skip(k.start as int) { unimplemented!() }
pub struct MemTable { pub s: Schema, pub d: Vec<RecordBatch> }
impl MemTable { #[verifier::external_body] pub fn try_new(s: Schema, d: Vec<Vec<RecordBatch>>) -> (r: core::result::Result<MemTable, LibError>) requires d@.len() == 1 ensures r matches Ok(m) ==> m.s == s && m.d == d@[0] && (forall|i: int| 0 <= i < m.d@.len() ==> batch_ok(#[trigger] m.d@[i]) && m.d@[i].s.f@.len() == s.f@.len()) { unimplemented!() } }
#[verifier::external_body] pub fn provider_as_source(m: MemTable) -> (r: Source) ensures forall|q: Seqc| #[trigger] r.rel(q) == scanned(q, fnames(m.s), cat(m.d@, m.s.f@.len()), total(m.d@)) { unimplemented!() }
pub open spec fn fnames(s: Schema) -> Seq<Seqc> { s.f@.map_values(|f: FieldRef| f.fname()) }
// all columns as they are, and the flag of the item
pub open spec fn flag_expr(x: Expr, q: Seqc) -> bool { x.nm() == (None::<Seqc>, q) && x.aliased() && forall|e: Env| #[trigger] x.ev(e) == Val::Bool(true) }
pub open spec fn col_expr(x: Expr, c: Ref) -> bool { x.nm() == c && forall|e: Env| #[trigger] x.ev(e) == e(c.0, c.1) }
pub open spec fn flagged_exprs(v: Seq<Expr>, cols: Seq<Ref>, q: Seqc) -> bool { v.len() == cols.len() + 1 && (forall|i: int| 0 <= i < cols.len() ==> col_expr(#[trigger] v[i], cols[i])) && flag_expr(v[cols.len() as int], q) }
// the columns with a role, each once (SyncSchema::map_columns is this, mapped)
impl SyncSchema { #[verifier::external_body] pub fn role_columns(&self, role: ColumnRole) -> (r: Vec<&SyncColumn>) requires index_ok(*self) ensures is_role(*self, role, r@) { unimplemented!() } }
pub open spec fn is_role(s: SyncSchema, role: ColumnRole, v: Seq<&SyncColumn>) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> member(s, *#[trigger] v[i]) && v[i].role == role)
    && (forall|n: Seqc| #[trigger] hasc(shape(s), role, n) ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i].name@ == n)
}
// ---- the session, and data frames: a plan with it
pub struct Analyzers { p: u8 }
#[verifier::external_body] pub struct SessionState { p: u8 }
impl RxCl for SessionState { type Out = SessionState; open spec fn cl(&self) -> SessionState { *self } }
#[verifier::external_body] pub struct SessionStateBuilder { p: u8 }
impl SessionStateBuilder {
    #[verifier::external_body] pub fn new_from_existing(s: SessionState) -> SessionStateBuilder { unimplemented!() }
    #[verifier::external_body] pub fn with_analyzer_rules(self, v: Vec<Analyzers>) -> SessionStateBuilder { unimplemented!() }
    #[verifier::external_body] pub fn with_optimizer_rules(self, v: Vec<Analyzers>) -> SessionStateBuilder { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> SessionState { unimplemented!() }
}
#[verifier::external_body] pub struct SessionContext { p: u8 }
impl SessionContext { #[verifier::external_body] pub fn state(&self) -> SessionState { unimplemented!() } }
pub struct SeafowlContext { pub inner: SessionContext }
pub struct SeafowlSyncPlanner { pub context: SeafowlContext }
pub struct DataFrame { pub state: SessionState, pub plan: LogicalPlan }
impl DataFrame {
    pub open spec fn rel(&self) -> Rel { self.plan.rel() }
    pub fn new(state: SessionState, plan: LogicalPlan) -> (r: DataFrame) ensures r.plan == plan { DataFrame { state, plan } }
    pub fn into_parts(self) -> (r: (SessionState, LogicalPlan)) ensures r.1 == self.plan { (self.state, self.plan) }
}
