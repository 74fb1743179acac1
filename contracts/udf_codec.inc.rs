//@extract src/wasm_udf/data_types.rs | enum CreateFunctionDataType
//@end
// building arrays from optional values: one slot per value, in order
pub trait RxFromVec<E>: Sized { spec fn built(&self, v: Seq<E>) -> bool; }
impl<T: ArrowPrimitiveType> RxFromVec<Option<T::Native>> for PrimitiveArray<T> { open spec fn built(&self, v: Seq<Option<T::Native>>) -> bool { self.vals() == v } }
impl<'a> RxFromVec<Option<&'a str>> for StringArray { open spec fn built(&self, v: Seq<Option<&'a str>>) -> bool { self.vals() == opt_views(v) } }
impl RxFromVec<Option<bool>> for BooleanArray { open spec fn built(&self, v: Seq<Option<bool>>) -> bool { self.vals() == v } }
#[verifier::external_body]
pub fn rx_from_vec<E, X: RxFromVec<E>>(v: Vec<E>) -> (r: X) ensures r.built(v@) { unimplemented!() }
pub open spec fn opt_views(v: Seq<Option<&str>>) -> Seq<Option<Seq<char>>> { v.map_values(|s: Option<&str>| match s { Some(s) => Some(s@), None => None }) }
// `Arc::new(a) as ArrayRef`: the same array behind a trait object
pub trait RxAs<T>: Sized { spec fn rx_as_of(self, r: T) -> bool; fn rx_as(self) -> (r: T) ensures self.rx_as_of(r); }
impl<X: RxDown> RxAs<ArrayRef> for Arc<X> {
    open spec fn rx_as_of(self, r: ArrayRef) -> bool { X::of(r) == Some(*self) }
    #[verifier::external_body]
    fn rx_as(self) -> (r: ArrayRef) { unimplemented!() }
}
impl RxAs<ArrayRef> for Arc<ArrayRef> {
    open spec fn rx_as_of(self, r: ArrayRef) -> bool { r == *self }
    #[verifier::external_body]
    fn rx_as(self) -> (r: ArrayRef) { unimplemented!() }
}
impl<T: ArrowPrimitiveType> RxAs<PrimitiveArray<T>> for PrimitiveArray<T> {
    open spec fn rx_as_of(self, r: PrimitiveArray<T>) -> bool { r == self }
    fn rx_as(self) -> (r: PrimitiveArray<T>) { self }
}
pub open spec fn pow10(p: int) -> int decreases p { if p <= 0 { 1 } else { 10 * pow10(p - 1) } }
pub open spec fn fits(v: i128, p: int) -> bool { -pow10(p) < v < pow10(p) }
impl PrimitiveArray<Decimal128Type> {
    #[verifier::external_body]
    pub fn with_precision_and_scale(self, p: u8, s: i8) -> (r: Result<Decimal128Array>)
        ensures r is Ok ==> r->Ok_0.vals() == self.vals() && r->Ok_0.prec() == p as int && r->Ok_0.scale() == s as int,
            1 <= p <= 38 && (s as int) <= (p as int) && -38 <= s ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn validate_decimal_precision(&self, p: u8) -> (r: Result<()>)
        ensures r is Ok <==> (forall|i: int| 0 <= i < self.vals().len() && #[trigger] self.vals()[i] is Some ==> fits(self.vals()[i]->0, p as int)),
    { unimplemented!() }
}
// a 128-bit decimal as its two halves: the high half carries the sign, the low half is 64 unsigned bits
pub open spec fn u64_of(n: int) -> int { if n < 0 { n + 0x1_0000_0000_0000_0000 } else { n } }
pub open spec fn dec128(high: int, low: int) -> int { high * 0x1_0000_0000_0000_0000 + u64_of(low) }
proof fn lemma_low(l: i64) ensures (l as u64) as int == u64_of(l as int), 0 <= u64_of(l as int) < 0x1_0000_0000_0000_0000, l >= 0 ==> u64_of(l as int) == l as int {
    if l < 0 { assert(l < 0 ==> (l as u64) as i128 == add(l as i128, 0x1_0000_0000_0000_0000i128)) by (bit_vector); assert(add(l as i128, 0x1_0000_0000_0000_0000i128) == l + 0x1_0000_0000_0000_0000); }
}
proof fn lemma_join(h: i64, l: i64) ensures (((h as i128) << 64) | (l as u64 as i128)) as int == dec128(h as int, l as int) {
    lemma_low(l);
    let u = l as u64;
    assert((((h as i128) << 64u128) | (u as i128)) - (((h as i128) << 64u128)) == u as i128) by (bit_vector);
    assert((h as i128) << 64u128 == mul(h as i128, 0x1_0000_0000_0000_0000i128)) by (bit_vector);
    assert((h as i128) * 0x1_0000_0000_0000_0000i128 == mul(h as i128, 0x1_0000_0000_0000_0000i128)) by (bit_vector);
}
proof fn lemma_split(v: i128) ensures dec128(((v >> 64) as i64) as int, (v as i64) as int) == v as int {
    let h = (v >> 64) as i64; let l = v as i64;
    assert(v == ((((v >> 64u128) as i64) as i128) << 64u128) | ((v as i64) as u64 as i128)) by (bit_vector);
    lemma_join(h, l);
}
// ---- what crosses the boundary, per declared type
pub open spec fn dec_parts(v: Value, p: int, s: int, x: int) -> bool {
    v is Array && v->Array_0@.len() == 4 && ival(v->Array_0@[0]) == Some(p) && ival(v->Array_0@[1]) == Some(s)
    && ival(v->Array_0@[2]) is Some && ival(v->Array_0@[3]) is Some
    && -0x8000_0000_0000_0000 <= ival(v->Array_0@[2])->0 <= 0x7fff_ffff_ffff_ffff && -0x8000_0000_0000_0000 <= ival(v->Array_0@[3])->0 <= 0x7fff_ffff_ffff_ffff
    && dec128(ival(v->Array_0@[2])->0, ival(v->Array_0@[3])->0) == x
}
// row i of the argument array a, declared as t, is the MessagePack value v
pub open spec fn enc(t: CreateFunctionDataType, a: ArrayRef, i: int, v: Value) -> bool {
    match t {
        CreateFunctionDataType::SMALLINT => prim_of::<Int16Type>(a) is Some && ival(v) == Some(prim_of::<Int16Type>(a)->0.raw(i) as int),
        CreateFunctionDataType::I32 | CreateFunctionDataType::INT => prim_of::<Int32Type>(a) is Some && ival(v) == Some(prim_of::<Int32Type>(a)->0.raw(i) as int),
        CreateFunctionDataType::I64 | CreateFunctionDataType::BIGINT => prim_of::<Int64Type>(a) is Some && ival(v) == Some(prim_of::<Int64Type>(a)->0.raw(i) as int),
        CreateFunctionDataType::F32 | CreateFunctionDataType::FLOAT | CreateFunctionDataType::REAL => prim_of::<Float32Type>(a) is Some && v == Value::F32(prim_of::<Float32Type>(a)->0.raw(i)),
        CreateFunctionDataType::F64 | CreateFunctionDataType::DOUBLE => prim_of::<Float64Type>(a) is Some && v == Value::F64(prim_of::<Float64Type>(a)->0.raw(i)),
        CreateFunctionDataType::CHAR | CreateFunctionDataType::VARCHAR | CreateFunctionDataType::TEXT => strs_of(a) is Some && v is String && (strs_of(a)->0.vals()[i] is Some ==> str_of(v->String_0) == strs_of(a)->0.vals()[i]),
        CreateFunctionDataType::BOOLEAN => bools_of(a) is Some && v is Boolean && (bools_of(a)->0.vals()[i] is Some ==> bools_of(a)->0.vals()[i] == Some(v->Boolean_0)),
        CreateFunctionDataType::DATE => prim_of::<Date32Type>(a) is Some && ival(v) == Some(prim_of::<Date32Type>(a)->0.raw(i) as int),
        CreateFunctionDataType::TIMESTAMP => prim_of::<TimestampNanosecondType>(a) is Some && ival(v) == Some(prim_of::<TimestampNanosecondType>(a)->0.raw(i) as int),
        CreateFunctionDataType::DECIMAL { precision, scale } => prim_of::<Decimal128Type>(a) is Some && dec_parts(v, precision as int, scale as int, prim_of::<Decimal128Type>(a)->0.raw(i) as int),
    }
}
// the argument array has the Arrow type of the declared type, and the row exists
pub open spec fn arg_ok(t: CreateFunctionDataType, a: ArrayRef, i: int) -> bool {
    match t {
        CreateFunctionDataType::SMALLINT => prim_of::<Int16Type>(a) is Some ==> i < prim_of::<Int16Type>(a)->0.vals().len(),
        CreateFunctionDataType::I32 | CreateFunctionDataType::INT => prim_of::<Int32Type>(a) is Some ==> i < prim_of::<Int32Type>(a)->0.vals().len(),
        CreateFunctionDataType::I64 | CreateFunctionDataType::BIGINT => prim_of::<Int64Type>(a) is Some ==> i < prim_of::<Int64Type>(a)->0.vals().len(),
        CreateFunctionDataType::F32 | CreateFunctionDataType::FLOAT | CreateFunctionDataType::REAL => prim_of::<Float32Type>(a) is Some ==> i < prim_of::<Float32Type>(a)->0.vals().len(),
        CreateFunctionDataType::F64 | CreateFunctionDataType::DOUBLE => prim_of::<Float64Type>(a) is Some ==> i < prim_of::<Float64Type>(a)->0.vals().len(),
        CreateFunctionDataType::CHAR | CreateFunctionDataType::VARCHAR | CreateFunctionDataType::TEXT => strs_of(a) is Some ==> i < strs_of(a)->0.vals().len(),
        CreateFunctionDataType::BOOLEAN => bools_of(a) is Some ==> i < bools_of(a)->0.vals().len(),
        CreateFunctionDataType::DATE => prim_of::<Date32Type>(a) is Some ==> i < prim_of::<Date32Type>(a)->0.vals().len(),
        CreateFunctionDataType::TIMESTAMP => prim_of::<TimestampNanosecondType>(a) is Some ==> i < prim_of::<TimestampNanosecondType>(a)->0.vals().len(),
        CreateFunctionDataType::DECIMAL { .. } => prim_of::<Decimal128Type>(a) is Some ==> i < prim_of::<Decimal128Type>(a)->0.vals().len(),
    }
}
pub open spec fn has_type(t: CreateFunctionDataType, a: ArrayRef) -> bool {
    match t {
        CreateFunctionDataType::SMALLINT => prim_of::<Int16Type>(a) is Some,
        CreateFunctionDataType::I32 | CreateFunctionDataType::INT => prim_of::<Int32Type>(a) is Some,
        CreateFunctionDataType::I64 | CreateFunctionDataType::BIGINT => prim_of::<Int64Type>(a) is Some,
        CreateFunctionDataType::F32 | CreateFunctionDataType::FLOAT | CreateFunctionDataType::REAL => prim_of::<Float32Type>(a) is Some,
        CreateFunctionDataType::F64 | CreateFunctionDataType::DOUBLE => prim_of::<Float64Type>(a) is Some,
        CreateFunctionDataType::CHAR | CreateFunctionDataType::VARCHAR | CreateFunctionDataType::TEXT => strs_of(a) is Some,
        CreateFunctionDataType::BOOLEAN => bools_of(a) is Some,
        CreateFunctionDataType::DATE => prim_of::<Date32Type>(a) is Some,
        CreateFunctionDataType::TIMESTAMP => prim_of::<TimestampNanosecondType>(a) is Some,
        CreateFunctionDataType::DECIMAL { .. } => prim_of::<Decimal128Type>(a) is Some,
    }
}
//@extract src/wasm_udf/wasm.rs | fn get_arrow_value | resmap
//@methods
as_any/0 => DROP
downcast_ref/0 => rx_downcast
//@contract
    requires col_ix < args@.len(), prim_of::<T>(args@[col_ix as int]) is Some ==> row_ix < prim_of::<T>(args@[col_ix as int])->0.vals().len(),
    ensures match prim_of::<T>(args@[col_ix as int]) { Some(a) => r is Ok && r->Ok_0 == a.raw(row_ix as int), None => r is Err },
//@end
//@extract src/wasm_udf/wasm.rs | fn messagepack_encode_input_value | resmap truncate
//@methods
as_any/0 => DROP
downcast_ref/0 => rx_downcast
//@entry
    proof { if prim_of::<Decimal128Type>(args@[col_ix as int]) is Some { lemma_split(prim_of::<Decimal128Type>(args@[col_ix as int])->0.raw(row_ix as int)); } }
//@contract
    requires col_ix < args@.len(), arg_ok(*value_type, args@[col_ix as int], row_ix as int),
    ensures has_type(*value_type, args@[col_ix as int]) ==> r is Ok, r is Ok ==> enc(*value_type, args@[col_ix as int], row_ix as int, r->Ok_0),
//@end
pub open spec fn fails<N, F: Fn(&Value) -> Result<N>>(d: F, v: Value) -> bool { exists|e: DataFusionError| #[trigger] d.ensures((&v,), Err(e)) }
//@extract src/wasm_udf/wasm.rs | fn decode_udf_result_primitive_array | resmap
//@types
&dyn Fn(&Value) -> Result<T::Native> => &impl Fn(&Value) -> Result<T::Native>
//@vars
__acc0 => Vec<Option<T::Native>>
__err0 => Option<DataFusionError>
//@contract
    requires forall|i: int| 0 <= i < encoded_results@.len() ==> decoder.requires((#[trigger] &encoded_results@[i],)),
    ensures
        r is Ok ==> prim_of::<T>(r->Ok_0) is Some && prim_of::<T>(r->Ok_0)->0.vals().len() == encoded_results@.len()
            && forall|i: int| 0 <= i < encoded_results@.len() ==> (#[trigger] prim_of::<T>(r->Ok_0)->0.vals()[i]) is Some && decoder.ensures((&encoded_results@[i],), Ok(prim_of::<T>(r->Ok_0)->0.vals()[i]->0)),
        r is Err ==> exists|i: int| 0 <= i < encoded_results@.len() && fails(*decoder, #[trigger] encoded_results@[i]),
//@loop 0
    invariant
        __it0.all().len() == encoded_results@.len(), forall|j: int| 0 <= j < encoded_results@.len() ==> *(#[trigger] __it0.all()[j]) == encoded_results@[j], 0 <= __it0.pos() <= encoded_results@.len(),
        forall|i: int| 0 <= i < encoded_results@.len() ==> decoder.requires((#[trigger] &encoded_results@[i],)),
        __err0 is None ==> __acc0@.len() == __it0.pos() && forall|j: int| 0 <= j < __it0.pos() ==> (#[trigger] __acc0@[j]) is Some && decoder.ensures((&encoded_results@[j],), Ok(__acc0@[j]->0)),
        __err0 is Some ==> exists|i: int| 0 <= i < encoded_results@.len() && fails(*decoder, #[trigger] encoded_results@[i]),
    ensures __err0 is None ==> __it0.pos() == encoded_results@.len(),
    decreases encoded_results@.len() - __it0.pos(),
//@end
// one decoded value of the result array
pub trait RxItem: Sized { spec fn item(t: CreateFunctionDataType, v: Value, x: Self) -> bool; }
pub open spec fn int_item<N: RxInt>(v: Value, x: N) -> bool { ival(v) == Some(x.val()) }
impl RxItem for i16 { open spec fn item(t: CreateFunctionDataType, v: Value, x: Self) -> bool { int_item(v, x) } }
impl RxItem for i32 { open spec fn item(t: CreateFunctionDataType, v: Value, x: Self) -> bool { int_item(v, x) } }
impl RxItem for i64 { open spec fn item(t: CreateFunctionDataType, v: Value, x: Self) -> bool { int_item(v, x) } }
impl RxItem for f32 { open spec fn item(t: CreateFunctionDataType, v: Value, x: Self) -> bool { v == Value::F32(x) } }
impl RxItem for f64 { open spec fn item(t: CreateFunctionDataType, v: Value, x: Self) -> bool { f64_of(v) == Some(x) } }
impl RxItem for bool { open spec fn item(t: CreateFunctionDataType, v: Value, x: Self) -> bool { v == Value::Boolean(x) } }
impl<'a> RxItem for &'a str { open spec fn item(t: CreateFunctionDataType, v: Value, x: Self) -> bool { v is String && str_of(v->String_0) == Some(x@) } }
impl RxItem for i128 { open spec fn item(t: CreateFunctionDataType, v: Value, x: Self) -> bool { t is DECIMAL && dec_parts(v, t->precision as int, t->scale as int, x as int) } }
impl<X: RxItem> RxItem for Option<X> { open spec fn item(t: CreateFunctionDataType, v: Value, x: Self) -> bool { x is Some && X::item(t, v, x->0) } }
// no value of the type decodes from v
pub open spec fn int_in(v: Value, lo: int, hi: int) -> bool { ival(v) is Some && lo <= ival(v)->0 <= hi }
pub open spec fn decodable(t: CreateFunctionDataType, v: Value) -> bool {
    match t {
        CreateFunctionDataType::SMALLINT => int_in(v, i16::lo(), i16::hi()),
        CreateFunctionDataType::I32 | CreateFunctionDataType::INT | CreateFunctionDataType::DATE => int_in(v, i32::lo(), i32::hi()),
        CreateFunctionDataType::I64 | CreateFunctionDataType::BIGINT | CreateFunctionDataType::TIMESTAMP => int_in(v, i64::lo(), i64::hi()),
        CreateFunctionDataType::F32 | CreateFunctionDataType::FLOAT | CreateFunctionDataType::REAL => v is F32,
        CreateFunctionDataType::F64 | CreateFunctionDataType::DOUBLE => f64_of(v) is Some,
        CreateFunctionDataType::CHAR | CreateFunctionDataType::VARCHAR | CreateFunctionDataType::TEXT => v is String && str_of(v->String_0) is Some,
        CreateFunctionDataType::BOOLEAN => v is Boolean,
        CreateFunctionDataType::DECIMAL { precision, scale } => v is Array && v->Array_0@.len() == 4 && ival(v->Array_0@[0]) == Some(precision as int) && ival(v->Array_0@[1]) == Some(scale as int) && scale >= 0
            && int_in(v->Array_0@[2], i64::lo(), i64::hi()) && int_in(v->Array_0@[3], i64::lo(), i64::hi()),
    }
}
// contracts of the closures, by the type of their argument and result
pub trait RxClo<R> { spec fn clo(self, t: CreateFunctionDataType, r: Result<R>) -> bool; }
pub open spec fn rx_clo<P: RxClo<R>, R>(p: P, t: CreateFunctionDataType, r: Result<R>) -> bool { p.clo(t, r) }
impl<'a, R: RxItem> RxClo<R> for &'a Value { open spec fn clo(self, t: CreateFunctionDataType, r: Result<R>) -> bool { match r { Ok(x) => R::item(t, *self, x), Err(_) => !decodable(t, *self) } } }
impl<'a> RxClo<i128> for &'a Vec<Value> { open spec fn clo(self, t: CreateFunctionDataType, r: Result<i128>) -> bool { match r { Ok(x) => i128::item(t, Value::Array(*self), x), Err(_) => !decodable(t, Value::Array(*self)) } } }
impl RxClo<u8> for u64 { open spec fn clo(self, t: CreateFunctionDataType, r: Result<u8>) -> bool { t is DECIMAL ==> (r is Ok <==> self as int == t->precision as int) } }
impl RxClo<i8> for u64 { open spec fn clo(self, t: CreateFunctionDataType, r: Result<i8>) -> bool { t is DECIMAL ==> (r is Ok <==> self as int == t->scale as int) } }
impl RxClo<ArrayRef> for PrimitiveArray<Decimal128Type> { open spec fn clo(self, t: CreateFunctionDataType, r: Result<ArrayRef>) -> bool { t is DECIMAL ==> match r {
    Ok(x) => prim_of::<Decimal128Type>(x) is Some && prim_of::<Decimal128Type>(x)->0.vals() == self.vals() && prim_of::<Decimal128Type>(x)->0.prec() == t->precision as int && prim_of::<Decimal128Type>(x)->0.scale() == t->scale as int
        && forall|i: int| 0 <= i < self.vals().len() && (#[trigger] self.vals()[i]) is Some ==> fits(self.vals()[i]->0, t->precision as int),
    Err(_) => !dec_type_ok(t->precision, t->scale) || exists|i: int| 0 <= i < self.vals().len() && (#[trigger] self.vals()[i]) is Some && !fits(self.vals()[i]->0, t->precision as int) } } }
// the whole result column
pub open spec fn col<X: RxItem>(t: CreateFunctionDataType, vs: Seq<Value>, xs: Seq<Option<X>>) -> bool {
    xs.len() == vs.len() && forall|i: int| 0 <= i < vs.len() ==> Option::<X>::item(t, #[trigger] vs[i], xs[i])
}
pub open spec fn result_ok(t: CreateFunctionDataType, vs: Seq<Value>, a: ArrayRef) -> bool {
    has_type(t, a) && match t {
        CreateFunctionDataType::SMALLINT => col(t, vs, prim_of::<Int16Type>(a)->0.vals()),
        CreateFunctionDataType::I32 | CreateFunctionDataType::INT => col(t, vs, prim_of::<Int32Type>(a)->0.vals()),
        CreateFunctionDataType::I64 | CreateFunctionDataType::BIGINT => col(t, vs, prim_of::<Int64Type>(a)->0.vals()),
        CreateFunctionDataType::F32 | CreateFunctionDataType::FLOAT | CreateFunctionDataType::REAL => col(t, vs, prim_of::<Float32Type>(a)->0.vals()),
        CreateFunctionDataType::F64 | CreateFunctionDataType::DOUBLE => col(t, vs, prim_of::<Float64Type>(a)->0.vals()),
        CreateFunctionDataType::CHAR | CreateFunctionDataType::VARCHAR | CreateFunctionDataType::TEXT => strs_of(a)->0.vals().len() == vs.len() && forall|i: int| 0 <= i < vs.len() ==> (#[trigger] vs[i]) is String && str_of(vs[i]->String_0) is Some && strs_of(a)->0.vals()[i] == str_of(vs[i]->String_0),
        CreateFunctionDataType::BOOLEAN => col(t, vs, bools_of(a)->0.vals()),
        CreateFunctionDataType::DATE => col(t, vs, prim_of::<Date32Type>(a)->0.vals()),
        CreateFunctionDataType::TIMESTAMP => col(t, vs, prim_of::<TimestampNanosecondType>(a)->0.vals()),
        CreateFunctionDataType::DECIMAL { precision, scale } => col(t, vs, prim_of::<Decimal128Type>(a)->0.vals())
            && prim_of::<Decimal128Type>(a)->0.prec() == precision as int && prim_of::<Decimal128Type>(a)->0.scale() == scale as int
            && forall|i: int| 0 <= i < vs.len() ==> (#[trigger] prim_of::<Decimal128Type>(a)->0.vals()[i]) is Some && fits(prim_of::<Decimal128Type>(a)->0.vals()[i]->0, precision as int),
    }
}
pub open spec fn dec_type_ok(p: u8, s: i8) -> bool { 1 <= p <= 38 && -38 <= s && (s as int) <= (p as int) }
pub open spec fn overflows(t: CreateFunctionDataType, v: Value) -> bool { exists|x: i128| #[trigger] i128::item(t, v, x) && !fits(x, t->precision as int) }
proof fn lemma_halves() ensures forall|h: i64, l: i64| (((#[trigger] (h as i128)) << 64) | (#[trigger] (l as u64) as i128)) as int == dec128(h as int, l as int) {
    assert forall|h: i64, l: i64| (((#[trigger] (h as i128)) << 64) | (#[trigger] (l as u64) as i128)) as int == dec128(h as int, l as int) by { lemma_join(h, l); }
}
//@extract src/wasm_udf/wasm.rs | fn messagepack_decode_results | resmap truncate
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@contract
    ensures
        r is Ok ==> result_ok(*return_type, encoded_results@, r->Ok_0),
        r is Err ==> (exists|i: int| 0 <= i < encoded_results@.len() && (!decodable(*return_type, #[trigger] encoded_results@[i]) || overflows(*return_type, encoded_results@[i])))
            || (return_type is DECIMAL && !dec_type_ok(return_type->precision, return_type->scale)),
//@entry
    proof { lemma_halves(); }
//@closure <Int16Type>
types: &Value
-> (r: Result<i16>) ensures rx_clo($0, *return_type, r)
//@closure <Int32Type>
types: &Value
-> (r: Result<i32>) ensures rx_clo($0, *return_type, r)
//@closure <Int64Type>
types: &Value
-> (r: Result<i64>) ensures rx_clo($0, *return_type, r)
//@closure <Date32Type>
types: &Value
-> (r: Result<i32>) ensures rx_clo($0, *return_type, r)
//@closure <TimestampNanosecondType>
types: &Value
-> (r: Result<i64>) ensures rx_clo($0, *return_type, r)
//@closure <Float64Type>
types: &Value
-> (r: Result<f64>) ensures rx_clo($0, *return_type, r)
//@closure <Float32Type>
types: &Value
-> (r: Result<f32>) ensures rx_clo($0, *return_type, r)
//@closure 0
types: &Vec<Value>
-> (r: Result<i128>) ensures rx_clo($0, *return_type, r)
//@closure 1
types: u64
-> (r: Result<u8>) ensures rx_clo($0, *return_type, r)
//@closure 2
types: u64
-> (r: Result<i8>) ensures rx_clo($0, *return_type, r)
//@closure 3
types: Decimal128Array
-> (r: Result<ArrayRef>) ensures rx_clo($0, *return_type, r)
//@loop *
    invariant
        __it$n.all().len() == encoded_results@.len(), forall|j: int| 0 <= j < encoded_results@.len() ==> *(#[trigger] __it$n.all()[j]) == encoded_results@[j], 0 <= __it$n.pos() <= encoded_results@.len(),
        __err$n is None ==> __acc$n@.len() == __it$n.pos() && forall|j: int| #![trigger encoded_results@[j]] #![trigger __acc$n@[j]] 0 <= j < __it$n.pos() ==> RxItem::item(*return_type, encoded_results@[j], __acc$n@[j]),
        __err$n is Some ==> exists|i: int| 0 <= i < encoded_results@.len() && !decodable(*return_type, #[trigger] encoded_results@[i]),
    ensures __err$n is None ==> __it$n.pos() == encoded_results@.len(),
    decreases encoded_results@.len() - __it$n.pos(),
//@end
