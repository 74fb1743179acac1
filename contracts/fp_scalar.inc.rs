// ---- mirrored dependency types
pub struct Opaque { pub id: u64 }
// floating point values: only whether they are finite is used
pub struct RxF { pub bits: u64 }
pub uninterp spec fn finite(f: RxF) -> bool;
impl RxF {
    #[verifier::external_body]
    pub fn is_finite(&self) -> (r: bool) ensures r == finite(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nan(&self) -> (r: bool) ensures r ==> !finite(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_infinite(&self) -> (r: bool) ensures r ==> !finite(*self) { unimplemented!() }
}
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-expr-common-44.0.0/src/operator.rs | enum Operator | derive=PartialEq,Eq,Clone,Copy,Structural
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-common-44.0.0/src/scalar/mod.rs | enum ScalarValue | payload=Option<bool>,Option<RxF>,Option<i8>,Option<i16>,Option<i32>,Option<i64>,Option<u8>,Option<u16>,Option<u32>,Option<u64>,Option<String>,Option<String>
//@types
Option<f32> => Option<RxF>
Option<f64> => Option<RxF>
Option<Arc<str>> => Option<String>
//@end
// an instant on the proleptic Gregorian calendar, in nanoseconds since 1970-01-01T00:00:00
pub struct NaiveDateTime { pub ns: Ghost<int> }
pub struct NaiveDate { pub days: Ghost<int> }
pub uninterp spec fn date_disp(days: int) -> Seq<char>;
pub uninterp spec fn datetime_disp(ns: int) -> Seq<char>;
impl RxDisp for NaiveDateTime { open spec fn disp(&self) -> Seq<char> { datetime_disp(self.ns@) } }
impl RxDisp for NaiveDate { open spec fn disp(&self) -> Seq<char> { date_disp(self.days@) } }
impl NaiveDateTime {
    #[verifier::external_body]
    pub fn date(&self) -> (r: NaiveDate) ensures r.days@ == self.ns@ / 86_400_000_000_000 { unimplemented!() }
}
pub mod conv { use super::*; 
#[verifier::external_body]
pub fn date32_to_datetime(v: i32) -> (r: Option<NaiveDateTime>) ensures r is Some ==> r->0.ns@ == v * 86_400_000_000_000 { unimplemented!() }
#[verifier::external_body]
pub fn timestamp_s_to_datetime(v: i64) -> (r: Option<NaiveDateTime>) ensures r is Some ==> r->0.ns@ == v * 1_000_000_000 { unimplemented!() }
#[verifier::external_body]
pub fn timestamp_ms_to_datetime(v: i64) -> (r: Option<NaiveDateTime>) ensures r is Some ==> r->0.ns@ == v * 1_000_000 { unimplemented!() }
#[verifier::external_body]
pub fn timestamp_us_to_datetime(v: i64) -> (r: Option<NaiveDateTime>) ensures r is Some ==> r->0.ns@ == v * 1_000 { unimplemented!() }
#[verifier::external_body]
pub fn timestamp_ns_to_datetime(v: i64) -> (r: Option<NaiveDateTime>) ensures r is Some ==> r->0.ns@ == v { unimplemented!() }
}
pub use conv::*;
