pub struct DataFusionError { pub id: u64 }
pub type Result<T> = core::result::Result<T, DataFusionError>;
impl DataFusionError {
    #[verifier::external_body]
    #[allow(non_snake_case)]
    pub fn Internal(s: String) -> DataFusionError { unimplemented!() }
    #[verifier::external_body]
    #[allow(non_snake_case)]
    pub fn Execution(s: String) -> DataFusionError { unimplemented!() }
}
#[verifier::external_body]
pub fn rx_err() -> DataFusionError { unimplemented!() }
pub fn rx_and_then<A, B, F: FnOnce(A) -> Result<B>>(r: Result<A>, f: F) -> (o: Result<B>)
    requires r is Ok ==> f.requires((r->Ok_0,)),
    ensures match r { Ok(a) => f.ensures((a,), o), Err(e) => o == Err::<B, DataFusionError>(e) },
{ match r { Ok(a) => f(a), Err(e) => Err(e) } }
// ---- integer conversions: assumed contract of TryFrom/TryInto between the primitive integers
pub struct RxIntErr { pub id: u64 }
pub trait RxInt: Sized { spec fn val(&self) -> int; spec fn lo() -> int; spec fn hi() -> int; }
impl RxInt for u8 { open spec fn val(&self) -> int { *self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { 0xff } }
impl RxInt for i8 { open spec fn val(&self) -> int { *self as int } open spec fn lo() -> int { -0x80 } open spec fn hi() -> int { 0x7f } }
impl RxInt for i16 { open spec fn val(&self) -> int { *self as int } open spec fn lo() -> int { -0x8000 } open spec fn hi() -> int { 0x7fff } }
impl RxInt for i32 { open spec fn val(&self) -> int { *self as int } open spec fn lo() -> int { -0x8000_0000 } open spec fn hi() -> int { 0x7fff_ffff } }
impl RxInt for u32 { open spec fn val(&self) -> int { *self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { 0xffff_ffff } }
impl RxInt for i64 { open spec fn val(&self) -> int { *self as int } open spec fn lo() -> int { -0x8000_0000_0000_0000 } open spec fn hi() -> int { 0x7fff_ffff_ffff_ffff } }
impl RxInt for u64 { open spec fn val(&self) -> int { *self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { 0xffff_ffff_ffff_ffff } }
impl RxInt for usize { open spec fn val(&self) -> int { *self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { usize::MAX as int } }
#[verifier::external_body]
pub fn rx_try_into<A: RxInt, B: RxInt>(a: A) -> (r: core::result::Result<B, RxIntErr>)
    ensures B::lo() <= a.val() <= B::hi() ==> r is Ok && r->Ok_0.val() == a.val(), !(B::lo() <= a.val() <= B::hi()) ==> r is Err,
{ unimplemented!() }
// ---- rmpv
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/rmpv-1.3.0/src/lib.rs | enum IntPriv
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/rmpv-1.3.0/src/lib.rs | struct Integer
//@end
pub struct Utf8String { pub s: String }
pub struct Opaque { pub id: u64 }
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/rmpv-1.3.0/src/lib.rs | enum Value | payload=bool,Integer,f32,f64,Utf8String,Vec<Value>
//@end
impl Integer { pub open spec fn val(&self) -> int { match self.n { IntPriv::PosInt(n) => n as int, IntPriv::NegInt(n) => n as int } } }
pub open spec fn ival(v: Value) -> Option<int> { match v { Value::Integer(n) => Some(n.val()), _ => None } }
pub uninterp spec fn f64_of_int(n: int) -> f64;
pub uninterp spec fn f64_of_f32(n: f32) -> f64;
pub open spec fn f64_of(v: Value) -> Option<f64> { match v { Value::F64(n) => Some(n), Value::F32(n) => Some(f64_of_f32(n)), Value::Integer(n) => Some(f64_of_int(n.val())), _ => None } }
impl Value {
    #[verifier::external_body]
    pub fn as_i64(&self) -> (r: Option<i64>) ensures match ival(*self) { Some(n) => if -0x8000_0000_0000_0000 <= n <= 0x7fff_ffff_ffff_ffff { r is Some && r->0 as int == n } else { r is None }, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u64(&self) -> (r: Option<u64>) ensures match ival(*self) { Some(n) => if 0 <= n { r is Some && r->0 as int == n } else { r is None }, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_f64(&self) -> (r: Option<f64>) ensures r == f64_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bool(&self) -> (r: Option<bool>) ensures r == (match *self { Value::Boolean(b) => Some(b), _ => None }) { unimplemented!() }
    // None also for a string that is not valid UTF-8
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Option<&str>) ensures match *self { Value::String(u) => (match r { Some(x) => str_of(u) == Some(x@), None => str_of(u) is None }), _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures match *self { Value::Array(a) => r == Some(&a), _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn from<T: RxVal>(t: T) -> (r: Value) ensures t.is_value(r) { unimplemented!() }
}
pub uninterp spec fn str_of(u: Utf8String) -> Option<Seq<char>>;
pub trait RxVal: Sized { spec fn is_value(self, v: Value) -> bool; }
impl RxVal for u8 { open spec fn is_value(self, v: Value) -> bool { ival(v) == Some(self as int) } }
impl RxVal for i8 { open spec fn is_value(self, v: Value) -> bool { ival(v) == Some(self as int) } }
impl RxVal for i16 { open spec fn is_value(self, v: Value) -> bool { ival(v) == Some(self as int) } }
impl RxVal for i32 { open spec fn is_value(self, v: Value) -> bool { ival(v) == Some(self as int) } }
impl RxVal for i64 { open spec fn is_value(self, v: Value) -> bool { ival(v) == Some(self as int) } }
impl RxVal for f32 { open spec fn is_value(self, v: Value) -> bool { v == Value::F32(self) } }
impl RxVal for f64 { open spec fn is_value(self, v: Value) -> bool { v == Value::F64(self) } }
impl RxVal for bool { open spec fn is_value(self, v: Value) -> bool { v == Value::Boolean(self) } }
impl<'a> RxVal for &'a str { open spec fn is_value(self, v: Value) -> bool { v is String && str_of(v->String_0) == Some(self@) } }
// ---- arrow
pub trait ArrowPrimitiveType: Sized { type Native; }
pub mod arrow {
    pub mod datatypes {
        use vstd::prelude::*;
        use crate::ArrowPrimitiveType;
        pub struct Int16Type {} impl ArrowPrimitiveType for Int16Type { type Native = i16; }
        pub struct Int32Type {} impl ArrowPrimitiveType for Int32Type { type Native = i32; }
        pub struct Int64Type {} impl ArrowPrimitiveType for Int64Type { type Native = i64; }
        pub struct Float32Type {} impl ArrowPrimitiveType for Float32Type { type Native = f32; }
        pub struct Float64Type {} impl ArrowPrimitiveType for Float64Type { type Native = f64; }
        pub struct Decimal128Type {} impl ArrowPrimitiveType for Decimal128Type { type Native = i128; }
        pub struct Date32Type {} impl ArrowPrimitiveType for Date32Type { type Native = i32; }
        pub struct TimestampNanosecondType {} impl ArrowPrimitiveType for TimestampNanosecondType { type Native = i64; }
    }
    pub mod array { pub use crate::{StringArray, BooleanArray, Decimal128Array}; }
}
pub use arrow::datatypes::*;
pub type Decimal128Array = PrimitiveArray<Decimal128Type>;
#[verifier::external_body]
pub struct ArrayRef { x: u64 }
impl ArrayRef {
    pub uninterp spec fn n(&self) -> int;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r as int == self.n() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct PrimitiveArray<T: ArrowPrimitiveType> { p: core::marker::PhantomData<T> }
#[verifier::external_body]
pub struct StringArray { x: u64 }
#[verifier::external_body]
pub struct BooleanArray { x: u64 }
impl<T: ArrowPrimitiveType> PrimitiveArray<T> {
    pub uninterp spec fn vals(&self) -> Seq<Option<T::Native>>;
    pub uninterp spec fn raw(&self, i: int) -> T::Native;
    pub uninterp spec fn prec(&self) -> int;
    pub uninterp spec fn scale(&self) -> int;
    // the stored value; arrow panics when the index is past the end
    #[verifier::external_body]
    pub fn value(&self, i: usize) -> (r: T::Native)
        requires (i as int) < self.vals().len(),
        ensures r == self.raw(i as int), self.vals()[i as int] is Some ==> self.vals()[i as int] == Some(r),
    { unimplemented!() }
}
impl StringArray {
    pub uninterp spec fn vals(&self) -> Seq<Option<Seq<char>>>;
    #[verifier::external_body]
    pub fn value(&self, i: usize) -> (r: &str) requires (i as int) < self.vals().len(), ensures self.vals()[i as int] is Some ==> self.vals()[i as int] == Some(r@) { unimplemented!() }
}
impl BooleanArray {
    pub uninterp spec fn vals(&self) -> Seq<Option<bool>>;
    #[verifier::external_body]
    pub fn value(&self, i: usize) -> (r: bool) requires (i as int) < self.vals().len(), ensures self.vals()[i as int] is Some ==> self.vals()[i as int] == Some(r) { unimplemented!() }
}
pub trait RxDown: Sized { spec fn of(a: ArrayRef) -> Option<Self>; }
pub uninterp spec fn prim_of<T: ArrowPrimitiveType>(a: ArrayRef) -> Option<PrimitiveArray<T>>;
pub uninterp spec fn strs_of(a: ArrayRef) -> Option<StringArray>;
pub uninterp spec fn bools_of(a: ArrayRef) -> Option<BooleanArray>;
impl<T: ArrowPrimitiveType> RxDown for PrimitiveArray<T> { open spec fn of(a: ArrayRef) -> Option<Self> { prim_of::<T>(a) } }
impl RxDown for StringArray { open spec fn of(a: ArrayRef) -> Option<Self> { strs_of(a) } }
impl RxDown for BooleanArray { open spec fn of(a: ArrayRef) -> Option<Self> { bools_of(a) } }
#[verifier::external_body]
pub fn rx_downcast<X: RxDown>(a: &ArrayRef) -> (r: Option<&X>) ensures match r { Some(x) => X::of(*a) == Some(*x), None => X::of(*a) is None } { unimplemented!() }
