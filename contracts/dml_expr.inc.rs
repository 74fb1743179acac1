// ---- expressions: what one gives on a row (a value, NULL or an error)
#[verifier::external_body] pub struct Val { p: u8 }
pub uninterp spec fn is_true(v: Val) -> bool;
pub uninterp spec fn cell(row: Row, column: Seq<char>) -> Val;
/// the value as the type; itself when the type is the same
pub uninterp spec fn cast_val(v: Val, t: DataType) -> Val;
pub uninterp spec fn nth(row: Row, i: int) -> Val;
pub struct Alias { pub expr: Box<Expr>, pub name: String }
pub enum Expr { Alias(Alias), IsNotTrue(Box<Expr>), Other(Opaque) }
#[verifier::external_body] pub struct Opaque { p: u8 }
impl Opaque { pub uninterp spec fn at(&self, row: Row) -> Val; }
pub uninterp spec fn bool_val(b: bool) -> Val;
#[verifier::external_body] pub proof fn axiom_bool_val(b: bool) ensures is_true(bool_val(b)) == b {}
impl Expr { pub open spec fn at(&self, row: Row) -> Val decreases self { match self { Expr::Alias(a) => a.expr.at(row), Expr::IsNotTrue(e) => bool_val(!is_true(e.at(row))), Expr::Other(o) => o.at(row) } } }
#[verifier::external_body] pub struct DFSchema { p: u8 }
#[verifier::external_body] pub struct ExecutionProps { p: u8 }
impl ExecutionProps { #[verifier::external_body] pub fn new() -> ExecutionProps { unimplemented!() } }
// the types: those the code looks at, and the others by their number
#[derive(PartialEq, Eq, Structural, Clone, Copy)] pub enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
#[derive(PartialEq, Eq, Structural, Clone, Copy)] pub enum DataType { Timestamp(TimeUnit, Option<u64>), Other(u64) }
#[verifier::external_body] pub struct Field { p: u8 }
impl Field {
    pub uninterp spec fn dt(&self) -> DataType; pub uninterp spec fn nm(&self) -> Seq<char>;
    #[verifier::external_body] pub fn data_type(&self) -> (r: &DataType) ensures *r == self.dt() { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: &String) ensures r@ == self.nm() { unimplemented!() }
}
pub struct ArrowSchema { pub fields: Vec<Field> }
impl ArrowSchema { pub fn fields(&self) -> (r: &Vec<Field>) ensures r == &self.fields { &self.fields } }
// DataFusion's physical expressions
#[verifier::external_body] pub struct PExpr { p: u8 }
impl PExpr {
    pub uninterp spec fn at(&self, row: Row) -> Val; pub uninterp spec fn ty(&self) -> DataType;
    #[verifier::external_body] pub fn data_type(&self, s: &ArrowSchema) -> (r: Result<DataType>) ensures r is Ok ==> r->Ok_0 == self.ty() { unimplemented!() }
}
impl Clone for PExpr { #[verifier::external_body] fn clone(&self) -> (r: PExpr) ensures r == *self { unimplemented!() } }
/// the values an expression gives are of its type
#[verifier::external_body] pub broadcast proof fn axiom_typed(e: PExpr, row: Row) ensures cast_val(#[trigger] e.at(row), e.ty()) == e.at(row) {}
#[verifier::external_body] pub fn create_physical_expr(e: &Expr, s: &DFSchema, p: &ExecutionProps) -> (r: Result<PExpr>) ensures r is Ok ==> forall|row: Row| #[trigger] r->Ok_0.at(row) == e.at(row) { unimplemented!() }
#[verifier::external_body] pub fn cast(e: PExpr, s: &ArrowSchema, t: DataType) -> (r: Result<PExpr>) ensures r is Ok ==> forall|row: Row| #[trigger] r->Ok_0.at(row) == cast_val(e.at(row), t) { unimplemented!() }
#[verifier::external_body] pub fn col(name: &String, s: &ArrowSchema) -> (r: Result<PExpr>) ensures r is Ok ==> forall|row: Row| #[trigger] r->Ok_0.at(row) == cell(row, name@) { unimplemented!() }
/// CASE [e] WHEN .. THEN .. [ELSE ..] END
pub uninterp spec fn case_val(e: Option<Val>, w: Seq<(Val, Val)>, other: Option<Val>) -> Val;
#[verifier::external_body] pub broadcast proof fn axiom_case(e: Option<Val>, w: Seq<(Val, Val)>, other: Option<Val>) requires e is None, w.len() == 1, other is Some ensures #[trigger] case_val(e, w, other) == if is_true(w[0].0) { w[0].1 } else { other->Some_0 } {}
pub open spec fn whens(w: Seq<(PExpr, PExpr)>, row: Row) -> Seq<(Val, Val)> { Seq::new(w.len(), |i: int| (w[i].0.at(row), w[i].1.at(row))) }
pub open spec fn oat(e: Option<PExpr>, row: Row) -> Option<Val> { match e { Some(x) => Some(x.at(row)), None => None } }
#[verifier::external_body] pub fn case(e: Option<PExpr>, w: Vec<(PExpr, PExpr)>, other: Option<PExpr>) -> (r: Result<PExpr>) ensures r is Ok ==> forall|row: Row| #[trigger] r->Ok_0.at(row) == case_val(oat(e, row), whens(w@, row), oat(other, row)) { unimplemented!() }
/// column f of the new row: the assigned value as the column's type where the condition is true, what the row has elsewhere
pub open spec fn assigned(e: Expr, f: Field, cond: Option<PExpr>, row: Row) -> Val { match cond { Some(c) if !is_true(c.at(row)) => cell(row, f.nm()), _ => cast_val(e.at(row), f.dt()) } }
pub open spec fn assigns(p: PExpr, e: Expr, f: Field, cond: Option<PExpr>) -> bool { forall|row: Row| #[trigger] p.at(row) == assigned(e, f, cond, row) }
#[verifier::external_body] pub fn column(name: &String, i: usize) -> (r: PExpr) ensures forall|row: Row| #[trigger] r.at(row) == nth(row, i as int) { unimplemented!() }
