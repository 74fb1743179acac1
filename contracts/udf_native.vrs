use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@include strings.inc.rs
//@include iter.inc.rs
//@include udf_base.inc.rs
//@include udf_codec.inc.rs
//@include udf_cols.inc.rs
pub type Int32Array = PrimitiveArray<Int32Type>;
pub type Int64Array = PrimitiveArray<Int64Type>;
pub type Float32Array = PrimitiveArray<Float32Type>;
pub type Float64Array = PrimitiveArray<Float64Type>;
// ---- WASM values and functions (assumed contract of wasmtime)
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/wasmtime-27.0.0/src/runtime/types.rs | enum ValType | payload=none
//@end
pub enum Val { I32(i32), I64(i64), F32(u32), F64(u64), V128(Opaque), FuncRef(Opaque), ExternRef(Opaque), AnyRef(Opaque) }
impl Clone for Val { #[verifier::external_body] fn clone(&self) -> (r: Val) ensures r == *self { unimplemented!() } }
pub uninterp spec fn bits32(x: f32) -> u32;
pub uninterp spec fn bits64(x: f64) -> u64;
pub uninterp spec fn of_bits32(b: u32) -> f32;
pub uninterp spec fn of_bits64(b: u64) -> f64;
pub trait RxBits<B> { fn rx_to_bits(&self) -> B; }
impl RxBits<u32> for f32 { #[verifier::external_body] fn rx_to_bits(&self) -> (r: u32) ensures r == bits32(*self) { unimplemented!() } }
impl RxBits<u64> for f64 { #[verifier::external_body] fn rx_to_bits(&self) -> (r: u64) ensures r == bits64(*self) { unimplemented!() } }
pub fn rx_to_bits<B, T: RxBits<B>>(x: &T) -> (r: B) ensures call_ensures(T::rx_to_bits, (x,), r) { x.rx_to_bits() }
impl Val {
    #[verifier::external_body] pub fn null_extern_ref() -> Val { unimplemented!() }
    pub fn i32(&self) -> (r: Option<i32>) ensures r == (match *self { Val::I32(x) => Some(x), _ => None }) { match self { Val::I32(x) => Some(*x), _ => None } }
    pub fn i64(&self) -> (r: Option<i64>) ensures r == (match *self { Val::I64(x) => Some(x), _ => None }) { match self { Val::I64(x) => Some(*x), _ => None } }
    #[verifier::external_body] pub fn f32(&self) -> (r: Option<f32>) ensures r == (match *self { Val::F32(x) => Some(of_bits32(x)), _ => None }) { unimplemented!() }
    #[verifier::external_body] pub fn f64(&self) -> (r: Option<f64>) ensures r == (match *self { Val::F64(x) => Some(of_bits64(x)), _ => None }) { unimplemented!() }
}
pub struct WasmErr { pub id: u64 }
// one call into the guest: function, parameters, result
pub struct NCall { pub f: Seq<char>, pub ps: Seq<Val>, pub out: Val }
#[verifier::external_body]
pub struct Engine { x: u64 }
#[verifier::external_body]
pub struct Store { x: u64 }
impl Store {
    pub uninterp spec fn trace(&self) -> Seq<NCall>;
    #[verifier::external_body] pub fn default() -> (r: Store) ensures r.trace() == Seq::<NCall>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn engine(&self) -> &Engine { unimplemented!() }
}
#[verifier::external_body]
pub struct Module { x: u64 }
impl Module { #[verifier::external_body] pub fn from_binary(e: &Engine, b: &[u8]) -> core::result::Result<Module, WasmErr> { unimplemented!() } }
#[verifier::external_body]
pub struct Instance { x: u64 }
#[verifier::external_body]
pub struct Func { x: u64 }
impl Instance {
    #[verifier::external_body] pub fn new(s: &mut Store, m: &Module, imports: &[u8]) -> (r: core::result::Result<Instance, WasmErr>) ensures final(s).trace() == old(s).trace() { unimplemented!() }
    #[verifier::external_body] pub fn get_func(&self, s: &mut Store, n: &str) -> (r: Option<Func>) ensures final(s).trace() == old(s).trace(), r is Some ==> r->0.name() == n@ { unimplemented!() }
}
impl Func {
    pub uninterp spec fn name(&self) -> Seq<char>;
    // call(.., &mut results[a..b]): writes exactly the slots a..b; an error unless the arity and the parameter types fit
    #[verifier::external_body]
    pub fn call(&self, s: &mut Store, ps: &Vec<Val>, results: &mut Vec<Val>, a: usize, b: usize) -> (r: core::result::Result<(), WasmErr>)
        requires a <= b <= old(results)@.len(),
        ensures final(results)@.len() == old(results)@.len(), forall|i: int| 0 <= i < old(results)@.len() && !(a <= i < b) ==> final(results)@[i] == old(results)@[i],
            r is Ok && b == a + 1 ==> final(s).trace() == old(s).trace().push(NCall { f: self.name(), ps: ps@, out: final(results)@[a as int] }),
    { unimplemented!() }
}
impl RxFromVec<i32> for Int32Array { open spec fn built(&self, v: Seq<i32>) -> bool { self.vals().len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] self.vals()[i] == Some(v[i]) } }
impl RxFromVec<i64> for Int64Array { open spec fn built(&self, v: Seq<i64>) -> bool { self.vals().len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] self.vals()[i] == Some(v[i]) } }
impl RxFromVec<f32> for Float32Array { open spec fn built(&self, v: Seq<f32>) -> bool { self.vals().len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] self.vals()[i] == Some(v[i]) } }
impl RxFromVec<f64> for Float64Array { open spec fn built(&self, v: Seq<f64>) -> bool { self.vals().len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] self.vals()[i] == Some(v[i]) } }
pub trait NItem: Sized { spec fn of_val(v: Val, x: Self) -> bool; }
impl NItem for i32 { open spec fn of_val(v: Val, x: Self) -> bool { v == Val::I32(x) } }
impl NItem for i64 { open spec fn of_val(v: Val, x: Self) -> bool { v == Val::I64(x) } }
impl NItem for f32 { open spec fn of_val(v: Val, x: Self) -> bool { v is F32 && x == of_bits32(v->F32_0) } }
impl NItem for f64 { open spec fn of_val(v: Val, x: Self) -> bool { v is F64 && x == of_bits64(v->F64_0) } }
pub open spec fn basic(t: ValType) -> bool { t is I32 || t is I64 || t is F32 || t is F64 }
// row i of the column, as the WASM value of the declared type
pub open spec fn native(t: ValType, a: ArrayRef, i: int, v: Val) -> bool {
    match t {
        ValType::I32 => prim_of::<Int32Type>(a) is Some && v == Val::I32(prim_of::<Int32Type>(a)->0.raw(i)),
        ValType::I64 => prim_of::<Int64Type>(a) is Some && v == Val::I64(prim_of::<Int64Type>(a)->0.raw(i)),
        ValType::F32 => prim_of::<Float32Type>(a) is Some && v == Val::F32(bits32(prim_of::<Float32Type>(a)->0.raw(i))),
        ValType::F64 => prim_of::<Float64Type>(a) is Some && v == Val::F64(bits64(prim_of::<Float64Type>(a)->0.raw(i))),
        _ => false,
    }
}
pub open spec fn nparams(ts: Seq<ValType>, cols: Seq<ArrayRef>, i: int, ps: Seq<Val>) -> bool { ps.len() == cols.len() && forall|c: int| 0 <= c < cols.len() ==> native(ts[c], cols[c], i, #[trigger] ps[c]) }
// exactly one call per row, in row order
pub open spec fn nevaluated(tr: Seq<NCall>, f: Seq<char>, ts: Seq<ValType>, cols: Seq<ArrayRef>) -> bool { forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).f == f && nparams(ts, cols, i, tr[i].ps) }
// slot i of the result column holds what call i returned
pub open spec fn nresult(t: ValType, tr: Seq<NCall>, a: ArrayRef) -> bool {
    match t {
        ValType::I32 => prim_of::<Int32Type>(a) is Some && prim_of::<Int32Type>(a)->0.vals().len() == tr.len() && forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).out is I32 && prim_of::<Int32Type>(a)->0.vals()[i] == Some(tr[i].out->I32_0),
        ValType::I64 => prim_of::<Int64Type>(a) is Some && prim_of::<Int64Type>(a)->0.vals().len() == tr.len() && forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).out is I64 && prim_of::<Int64Type>(a)->0.vals()[i] == Some(tr[i].out->I64_0),
        ValType::F32 => prim_of::<Float32Type>(a) is Some && prim_of::<Float32Type>(a)->0.vals().len() == tr.len() && forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).out is F32 && prim_of::<Float32Type>(a)->0.vals()[i] == Some(of_bits32(tr[i].out->F32_0)),
        ValType::F64 => prim_of::<Float64Type>(a) is Some && prim_of::<Float64Type>(a)->0.vals().len() == tr.len() && forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).out is F64 && prim_of::<Float64Type>(a)->0.vals()[i] == Some(of_bits64(tr[i].out->F64_0)),
        _ => false,
    }
}
//@extract src/wasm_udf/wasm.rs | fn make_scalar_function_from_wasm @ inner | resmap slicemut
//@sig
fn inner(args: &[ColumnarValue], module_bytes: Vec<u8>, function_name: String, input_types: Vec<ValType>, return_type: ValType) -> Result<ColumnarValue>
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@types
Store::<()> => Store
//@calls
Store::<()>::default => Store::default
//@methods
to_bits/0 => rx_to_bits
//@contract
    requires batch(args@), args@.len() == input_types@.len(), basic(return_type), forall|i: int| 0 <= i < input_types@.len() ==> basic(#[trigger] input_types@[i]),
    ensures r is Ok && r->Ok_0 is Array ==> args@.len() > 0 && exists|cols: Seq<ArrayRef>, tr: Seq<NCall>| #[trigger] aligned(args@, rows(args@), cols) && tr.len() == rows(args@) && #[trigger] nevaluated(tr, function_name@, input_types@, cols) && nresult(return_type, tr, r->Ok_0->Array_0),
        r is Ok && r->Ok_0 is Scalar ==> args@.len() == 0 && exists|cols: Seq<ArrayRef>, tr: Seq<NCall>, a: ArrayRef, s: ScalarValue| #[trigger] aligned(args@, rows(args@), cols) && tr.len() == rows(args@) && #[trigger] nevaluated(tr, function_name@, input_types@, cols) && #[trigger] row_of(a, 0, s) && s == r->Ok_0->Scalar_0 && nresult(return_type, tr, a),
//@entry
    proof { axiom_len(); }
    let ghost args0 = args@;
//@closure *
types: &Val
//@loop 0
    invariant
        __it0.all().len() == array_len, forall|j: int| 0 <= j < array_len ==> (#[trigger] __it0.all()[j]) == j, 0 <= __it0.pos() <= array_len,
        func.name() == function_name@, results@.len() == array_len,
        store.trace().len() == __it0.pos(), nevaluated(store.trace(), function_name@, input_types@, args@),
        forall|i: int| 0 <= i < __it0.pos() ==> #[trigger] results@[i] == store.trace()[i].out,
    ensures __it0.pos() == array_len, aligned(args0, rows(args0), args@), args0.len() == args@.len(), store.trace().len() == rows(args0),
    decreases array_len - __it0.pos(),
//@loop 1
    invariant
        __it1.all().len() == args@.len(), forall|j: int| 0 <= j < args@.len() ==> (#[trigger] __it1.all()[j]) == j, 0 <= __it1.pos() <= args@.len(),
        params@.len() == __it1.pos(), forall|c: int| 0 <= c < params@.len() ==> native(input_types@[c], args@[c], row_ix as int, #[trigger] params@[c]),
    ensures __it1.pos() == args@.len(),
    decreases args@.len() - __it1.pos(),
//@loop *
    invariant
        __it$n.all().len() == results@.len(), forall|j: int| 0 <= j < results@.len() ==> *(#[trigger] __it$n.all()[j]) == results@[j], 0 <= __it$n.pos() <= results@.len(),
        __err$n is None ==> __acc$n@.len() == __it$n.pos() && forall|j: int| #![trigger results@[j]] #![trigger __acc$n@[j]] 0 <= j < __it$n.pos() ==> NItem::of_val(results@[j], __acc$n@[j]),
    ensures __err$n is None ==> __it$n.pos() == results@.len(),
    decreases results@.len() - __it$n.pos(),
//@end
//@probe
proof fn probe_axioms() ensures false { lemma_halves(); axiom_len(); }
//@probe
proof fn probe_native(tr: Seq<NCall>, f: Seq<char>, ts: Seq<ValType>, cols: Seq<ArrayRef>) requires tr.len() > 0 ensures !nevaluated(tr, f, ts, cols) {}
} // verus!
fn main() {}
