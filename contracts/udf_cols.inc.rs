// ---- columns of a batch (assumed contract of arrow and DataFusion)
#[verifier::external_body]
pub struct ScalarValue { x: u64 }
pub enum ColumnarValue { Array(ArrayRef), Scalar(ScalarValue) }
// the array has exactly n rows and every row is the scalar
pub uninterp spec fn repeated(s: ScalarValue, n: int, a: ArrayRef) -> bool;
pub uninterp spec fn row_of(a: ArrayRef, i: int, s: ScalarValue) -> bool;
// every typed view of an array has the length of the array
pub axiom fn axiom_len() ensures
    forall|a: ArrayRef| #![trigger prim_of::<Int16Type>(a)] prim_of::<Int16Type>(a) is Some ==> prim_of::<Int16Type>(a)->0.vals().len() == a.n(),
    forall|a: ArrayRef| #![trigger prim_of::<Int32Type>(a)] prim_of::<Int32Type>(a) is Some ==> prim_of::<Int32Type>(a)->0.vals().len() == a.n(),
    forall|a: ArrayRef| #![trigger prim_of::<Int64Type>(a)] prim_of::<Int64Type>(a) is Some ==> prim_of::<Int64Type>(a)->0.vals().len() == a.n(),
    forall|a: ArrayRef| #![trigger prim_of::<Float32Type>(a)] prim_of::<Float32Type>(a) is Some ==> prim_of::<Float32Type>(a)->0.vals().len() == a.n(),
    forall|a: ArrayRef| #![trigger prim_of::<Float64Type>(a)] prim_of::<Float64Type>(a) is Some ==> prim_of::<Float64Type>(a)->0.vals().len() == a.n(),
    forall|a: ArrayRef| #![trigger prim_of::<Date32Type>(a)] prim_of::<Date32Type>(a) is Some ==> prim_of::<Date32Type>(a)->0.vals().len() == a.n(),
    forall|a: ArrayRef| #![trigger prim_of::<TimestampNanosecondType>(a)] prim_of::<TimestampNanosecondType>(a) is Some ==> prim_of::<TimestampNanosecondType>(a)->0.vals().len() == a.n(),
    forall|a: ArrayRef| #![trigger prim_of::<Decimal128Type>(a)] prim_of::<Decimal128Type>(a) is Some ==> prim_of::<Decimal128Type>(a)->0.vals().len() == a.n(),
    forall|a: ArrayRef| #![trigger strs_of(a)] strs_of(a) is Some ==> strs_of(a)->0.vals().len() == a.n(),
    forall|a: ArrayRef| #![trigger bools_of(a)] bools_of(a) is Some ==> bools_of(a)->0.vals().len() == a.n();
impl Clone for ColumnarValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: ColumnarValue) ensures r == *self { unimplemented!() }
}
impl ColumnarValue {
    #[verifier::external_body]
    pub fn into_array(self, n: usize) -> (r: Result<ArrayRef>)
        ensures match self { ColumnarValue::Array(a) => r == Ok::<ArrayRef, DataFusionError>(a), ColumnarValue::Scalar(s) => r is Ok ==> r->Ok_0.n() == n && repeated(s, n as int, r->Ok_0) },
    { unimplemented!() }
    pub fn from(a: ArrayRef) -> (r: ColumnarValue) ensures r == ColumnarValue::Array(a) { ColumnarValue::Array(a) }
}
impl ScalarValue {
    #[verifier::external_body]
    pub fn try_from_array(a: &ArrayRef, i: usize) -> (r: Result<ScalarValue>) requires i < a.n(), ensures r is Ok ==> row_of(*a, i as int, r->Ok_0) { unimplemented!() }
}
// all array arguments of one batch have the same number of rows (DataFusion's contract with a scalar function)
pub open spec fn batch(args: Seq<ColumnarValue>) -> bool {
    forall|i: int, j: int| 0 <= i < args.len() && 0 <= j < args.len() && (#[trigger] args[i]) is Array && (#[trigger] args[j]) is Array ==> args[i]->Array_0.n() == args[j]->Array_0.n()
}
// the rows of the batch: those of any array argument; one when there is none
pub open spec fn rows(args: Seq<ColumnarValue>) -> int {
    if exists|i: int| 0 <= i < args.len() && (#[trigger] args[i]) is Array { args[choose|i: int| 0 <= i < args.len() && (#[trigger] args[i]) is Array]->Array_0.n() } else { 1 }
}
pub open spec fn aligned1(arg: ColumnarValue, n: int, c: ArrayRef) -> bool { c.n() == n && match arg { ColumnarValue::Array(a) => c == a, ColumnarValue::Scalar(s) => repeated(s, n, c) } }
pub open spec fn aligned(args: Seq<ColumnarValue>, n: int, cols: Seq<ArrayRef>) -> bool {
    n == rows(args) && cols.len() == args.len() && forall|i: int| 0 <= i < args.len() ==> aligned1(args[i], n, #[trigger] cols[i])
}
//@extract src/wasm_udf/wasm.rs | fn columnar_values_to_array
//@contract
    requires batch(args@),
    ensures r is Ok ==> aligned(args@, rows(args@), r->Ok_0@),
//@loop 0
    invariant
        __it0.all().len() == args@.len(), forall|j: int| 0 <= j < args@.len() ==> *(#[trigger] __it0.all()[j]) == args@[j], 0 <= __it0.pos() <= args@.len(),
        __acc0 is None ==> forall|j: int| 0 <= j < __it0.pos() ==> !((#[trigger] args@[j]) is Array),
        __acc0 is Some ==> exists|j: int| 0 <= j < args@.len() && (#[trigger] args@[j]) is Array && args@[j]->Array_0.n() == __acc0->0,
    ensures __acc0 is None ==> __it0.pos() == args@.len(),
    decreases args@.len() - __it0.pos(),
//@loop 1
    invariant
        __it1.all().len() == args@.len(), forall|j: int| 0 <= j < args@.len() ==> *(#[trigger] __it1.all()[j]) == args@[j], 0 <= __it1.pos() <= args@.len(),
        batch(args@), rows(args@) == inferred_length,
        __err1 is None ==> __acc1@.len() == __it1.pos() && forall|j: int| 0 <= j < __it1.pos() ==> aligned1(args@[j], inferred_length as int, #[trigger] __acc1@[j]),
    ensures __err1 is None ==> __it1.pos() == args@.len(),
    decreases args@.len() - __it1.pos(),
//@end
