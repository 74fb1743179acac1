// ---- strings: assumed contracts on core/alloc string primitives (trusted; exercised by the conformance runs)
#[verifier::external_body]
pub fn rx_lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn rx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub trait RxDisp { spec fn disp(&self) -> Seq<char>; }
impl RxDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl RxDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl<T: RxDisp + ?Sized> RxDisp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
#[verifier::external_body]
pub fn rx_disp<T: RxDisp + ?Sized>(x: &T) -> (r: String) ensures r@ == x.disp() { unimplemented!() }
// Debug output: nothing is assumed about it
#[verifier::external_body]
pub fn rx_debug<T: ?Sized>(x: &T) -> (r: String) { unimplemented!() }
// replacing every occurrence of one character
pub open spec fn replace_char(s: Seq<char>, c: char, by: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { replace_char(s.drop_last(), c, by) + (if s.last() == c { by } else { seq![s.last()] }) }
}
#[verifier::external_body]
pub fn rx_replace_char<S: RxDisp + ?Sized>(s: &S, c: char, by: &str) -> (r: String) ensures r@ == replace_char(s.disp(), c, by@) { unimplemented!() }
#[verifier::external_body]
pub fn rx_contains_char<S: RxDisp + ?Sized>(s: &S, c: char) -> (r: bool) ensures r == s.disp().contains(c) { unimplemented!() }
pub open spec fn join_spec(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() }
    else if v.len() == 1 { v[0] }
    else { join_spec(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
#[verifier::external_body]
pub fn rx_join(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == join_spec(views(v@), sep@) { unimplemented!() }
// a panic: must be unreachable
#[verifier::external_body]
pub fn rx_panic() -> ! requires false { unimplemented!() }
// an assertion: must be provable
pub fn rx_check(b: bool) requires b {}
