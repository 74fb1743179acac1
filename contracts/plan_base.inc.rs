// ---- DataFusion's logical expressions and plans: stand-ins with their (trusted) contracts
// the value each column has on a row: qualified, and by name alone
pub type Env = spec_fn(Option<Seqc>, Seqc) -> Val;
pub type Ref = (Option<Seqc>, Seqc);
pub uninterp spec fn plain(s: Seqc) -> bool;
pub uninterp spec fn strid(s: Seqc) -> int;
// what a text means when it is read as a SQL identifier
pub uninterp spec fn parsed(s: Seqc) -> Ref;
#[verifier::external_body] pub broadcast proof fn ax_parsed(s: Seqc) requires plain(s) ensures #[trigger] parsed(s) == (None::<Seqc>, s) {}
// three-valued logic
pub open spec fn and3(a: Val, b: Val) -> Val { if a == Val::Bool(false) || b == Val::Bool(false) { Val::Bool(false) } else if a == Val::Bool(true) && b == Val::Bool(true) { Val::Bool(true) } else { Val::Null } }
pub open spec fn or3(a: Val, b: Val) -> Val { if a == Val::Bool(true) || b == Val::Bool(true) { Val::Bool(true) } else if a == Val::Bool(false) && b == Val::Bool(false) { Val::Bool(false) } else { Val::Null } }
pub open spec fn not3(a: Val) -> Val { if a == Val::Bool(true) { Val::Bool(false) } else if a == Val::Bool(false) { Val::Bool(true) } else { Val::Null } }
pub open spec fn eq3(a: Val, b: Val) -> Val { if a == Val::Null || b == Val::Null { Val::Null } else { Val::Bool(a == b) } }
#[verifier::external_body] pub struct Column { p: u8 }
impl View for Column { type V = Ref; uninterp spec fn view(&self) -> Ref; }
impl RxCl for Column { type Out = Column; open spec fn cl(&self) -> Column { *self } }
// texts in their several types
pub trait RxTxt { spec fn tx(&self) -> Seqc; }
impl RxTxt for String { open spec fn tx(&self) -> Seqc { self@ } }
impl RxTxt for str { open spec fn tx(&self) -> Seqc { self@ } }
impl<T: RxTxt + ?Sized> RxTxt for &T { open spec fn tx(&self) -> Seqc { (**self).tx() } }
pub open spec fn qual(q: Option<&str>) -> Option<Seqc> { match q { Some(s) => Some(s@), None => None } }
impl Column {
    #[verifier::external_body] pub fn new<T: RxTxt>(q: Option<&str>, n: T) -> (r: Column) ensures r@ == (qual(q), n.tx()) { unimplemented!() }
    #[verifier::external_body] pub fn from_name<T: RxTxt>(n: T) -> (r: Column) ensures r@ == (None::<Seqc>, n.tx()) { unimplemented!() }
    #[verifier::external_body] pub fn from<T: RxTxt>(n: T) -> (r: Column) ensures r@ == parsed(n.tx()) { unimplemented!() }
}
pub trait RxCol { spec fn cref(&self) -> Ref; }
impl RxCol for Column { open spec fn cref(&self) -> Ref { self@ } }
impl RxCol for String { open spec fn cref(&self) -> Ref { parsed(self@) } }
impl RxCol for &String { open spec fn cref(&self) -> Ref { parsed((**self)@) } }
impl RxCol for &str { open spec fn cref(&self) -> Ref { parsed((**self)@) } }
pub trait RxLit { spec fn lv(&self) -> Val; }
impl RxLit for bool { open spec fn lv(&self) -> Val { Val::Bool(*self) } }
#[verifier::external_body] pub struct OtherScalar { p: u8 }
pub enum ScalarValue { Null, Other(OtherScalar) }
impl OtherScalar { pub uninterp spec fn val(&self) -> Val; }
impl ScalarValue { pub open spec fn val(&self) -> Val { match self { ScalarValue::Null => Val::Null, ScalarValue::Other(o) => o.val() } } #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self.val() == Val::Null) { unimplemented!() } }
impl ScalarValue { #[verifier::external_body] pub fn cast_to(&self, t: &DataType) -> (r: core::result::Result<ScalarValue, LibError>) ensures self.val() == Val::Null ==> (r matches Ok(x) ==> x.val() == Val::Null) { unimplemented!() } }
impl RxLit for ScalarValue { open spec fn lv(&self) -> Val { self.val() } }
#[verifier::external_body] pub struct Expr { p: u8 }
impl RxCl for Expr { type Out = Expr; open spec fn cl(&self) -> Expr { *self } }
impl Expr {
    pub uninterp spec fn ev(&self, e: Env) -> Val;
    pub uninterp spec fn nm(&self) -> Ref;
    // given its name by alias
    pub uninterp spec fn aliased(&self) -> bool;
    #[verifier::external_body] pub fn is_null(self) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == Val::Bool(self.ev(e) == Val::Null) { unimplemented!() }
    #[verifier::external_body] pub fn is_not_null(self) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == Val::Bool(self.ev(e) != Val::Null) { unimplemented!() }
    #[verifier::external_body] pub fn is_true(self) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == Val::Bool(self.ev(e) == Val::Bool(true)) { unimplemented!() }
    #[verifier::external_body] pub fn is_false(self) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == Val::Bool(self.ev(e) == Val::Bool(false)) { unimplemented!() }
    #[verifier::external_body] pub fn is_not_true(self) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == Val::Bool(self.ev(e) != Val::Bool(true)) { unimplemented!() }
    #[verifier::external_body] pub fn is_not_false(self) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == Val::Bool(self.ev(e) != Val::Bool(false)) { unimplemented!() }
    #[verifier::external_body] pub fn and(self, o: Expr) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == and3(self.ev(e), o.ev(e)) { unimplemented!() }
    #[verifier::external_body] pub fn or(self, o: Expr) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == or3(self.ev(e), o.ev(e)) { unimplemented!() }
    #[verifier::external_body] pub fn not(self) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == not3(self.ev(e)) { unimplemented!() }
    #[verifier::external_body] pub fn eq(self, o: Expr) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == eq3(self.ev(e), o.ev(e)) { unimplemented!() }
    #[verifier::external_body] pub fn not_eq(self, o: Expr) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == not3(eq3(self.ev(e), o.ev(e))) { unimplemented!() }
    #[verifier::external_body] pub fn alias<T: RxTxt>(self, n: T) -> (r: Expr) ensures r.aliased(), r.nm() == (None::<Seqc>, n.tx()), forall|e: Env| #[trigger] r.ev(e) == self.ev(e) { unimplemented!() }
    #[verifier::external_body] pub fn alias_qualified<T: RxTxt>(self, q: Option<&str>, n: T) -> (r: Expr) ensures r.aliased(), r.nm() == (qual(q), n.tx()), forall|e: Env| #[trigger] r.ev(e) == self.ev(e) { unimplemented!() }
}
#[verifier::external_body] pub fn rx_take(x: &mut Expr) -> (r: Expr) ensures r == *old(x) { unimplemented!() }
#[verifier::external_body] pub fn rx_expr_col(c: Column) -> (r: Expr) ensures r.nm() == c@, forall|e: Env| #[trigger] r.ev(e) == e(c@.0, c@.1) { unimplemented!() }
#[verifier::external_body] pub fn col<T: RxCol>(c: T) -> (r: Expr) ensures r.nm() == c.cref(), forall|e: Env| #[trigger] r.ev(e) == e(c.cref().0, c.cref().1) { unimplemented!() }
#[verifier::external_body] pub fn ident<T: RxTxt>(c: T) -> (r: Expr) ensures r.nm() == (None::<Seqc>, c.tx()), forall|e: Env| #[trigger] r.ev(e) == e(None, c.tx()) { unimplemented!() }
#[verifier::external_body] pub fn lit<T: RxLit>(x: T) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == x.lv() { unimplemented!() }
// CASE, with the value of what is not decided yet
#[verifier::external_body] pub struct CaseBuilder { p: u8 }
impl CaseBuilder {
    pub uninterp spec fn cv(&self, e: Env, els: Val) -> Val;
    #[verifier::external_body] pub fn when(self, c: Expr, t: Expr) -> (r: CaseBuilder) ensures forall|e: Env, els: Val| #[trigger] r.cv(e, els) == self.cv(e, if c.ev(e) == Val::Bool(true) { t.ev(e) } else { els }) { unimplemented!() }
    #[verifier::external_body] pub fn otherwise(self, x: Expr) -> (r: core::result::Result<Expr, LibError>) ensures r matches Ok(y) ==> forall|e: Env| #[trigger] y.ev(e) == self.cv(e, x.ev(e)) { unimplemented!() }
    #[verifier::external_body] pub fn end(self) -> (r: core::result::Result<Expr, LibError>) ensures r matches Ok(y) ==> forall|e: Env| #[trigger] y.ev(e) == self.cv(e, Val::Null) { unimplemented!() }
}
#[verifier::external_body] pub fn when(c: Expr, t: Expr) -> (r: CaseBuilder) ensures forall|e: Env, els: Val| #[trigger] r.cv(e, els) == (if c.ev(e) == Val::Bool(true) { t.ev(e) } else { els }) { unimplemented!() }
#[verifier::external_body] pub fn rx_array(v: Vec<Expr>) -> (r: Expr) ensures forall|e: Env| #[trigger] r.ev(e) == Val::List(Seq::new(v@.len(), |i: int| v@[i].ev(e))) { unimplemented!() }
pub fn make_array(v: Vec<Expr>) -> (r: Expr)
    ensures v@.len() == 1 ==> forall|e: Env| #[trigger] r.ev(e) == Val::List(seq![v@[0].ev(e)]), v@.len() == 2 ==> forall|e: Env| #[trigger] r.ev(e) == Val::List(seq![v@[0].ev(e), v@[1].ev(e)]),
{
    let ghost w = v@;
    let r = rx_array(v);
    proof {
        if w.len() == 1 { assert forall|e: Env| #[trigger] r.ev(e) == Val::List(seq![w[0].ev(e)]) by { assert(Seq::new(w.len(), |i: int| w[i].ev(e)) =~= seq![w[0].ev(e)]); } }
        if w.len() == 2 { assert forall|e: Env| #[trigger] r.ev(e) == Val::List(seq![w[0].ev(e), w[1].ev(e)]) by { assert(Seq::new(w.len(), |i: int| w[i].ev(e)) =~= seq![w[0].ev(e), w[1].ev(e)]); } }
    }
    r
}
pub trait RxAs<T>: Sized { spec fn as_spec(self) -> T; fn rx_as(self) -> (r: T) ensures r == self.as_spec(); }
impl RxAs<i32> for ColumnRole { open spec fn as_spec(self) -> i32 { match self { ColumnRole::OldPk => 0i32, ColumnRole::NewPk => 1i32, ColumnRole::Changed => 2i32, ColumnRole::Value => 3i32 } } fn rx_as(self) -> (r: i32) { self as i32 } }
