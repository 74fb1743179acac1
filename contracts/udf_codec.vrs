use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
//@include udf_base.inc.rs
//@include udf_codec.inc.rs
// a value sent out and echoed back decodes to the value of the row it came from
proof fn lemma_round_trip(t: CreateFunctionDataType, a: ArrayRef, i: int, v: Value, r: ArrayRef, vs: Seq<Value>, k: int)
    requires enc(t, a, i, v), result_ok(t, vs, r), 0 <= k < vs.len(), vs[k] == v,
    ensures match t {
        CreateFunctionDataType::SMALLINT => prim_of::<Int16Type>(r)->0.vals()[k] == Some(prim_of::<Int16Type>(a)->0.raw(i)),
        CreateFunctionDataType::I32 | CreateFunctionDataType::INT => prim_of::<Int32Type>(r)->0.vals()[k] == Some(prim_of::<Int32Type>(a)->0.raw(i)),
        CreateFunctionDataType::I64 | CreateFunctionDataType::BIGINT => prim_of::<Int64Type>(r)->0.vals()[k] == Some(prim_of::<Int64Type>(a)->0.raw(i)),
        CreateFunctionDataType::F32 | CreateFunctionDataType::FLOAT | CreateFunctionDataType::REAL => prim_of::<Float32Type>(r)->0.vals()[k] == Some(prim_of::<Float32Type>(a)->0.raw(i)),
        CreateFunctionDataType::F64 | CreateFunctionDataType::DOUBLE => prim_of::<Float64Type>(r)->0.vals()[k] == Some(prim_of::<Float64Type>(a)->0.raw(i)),
        CreateFunctionDataType::CHAR | CreateFunctionDataType::VARCHAR | CreateFunctionDataType::TEXT => strs_of(a)->0.vals()[i] is Some ==> strs_of(r)->0.vals()[k] == strs_of(a)->0.vals()[i],
        CreateFunctionDataType::BOOLEAN => bools_of(a)->0.vals()[i] is Some ==> bools_of(r)->0.vals()[k] == bools_of(a)->0.vals()[i],
        CreateFunctionDataType::DATE => prim_of::<Date32Type>(r)->0.vals()[k] == Some(prim_of::<Date32Type>(a)->0.raw(i)),
        CreateFunctionDataType::TIMESTAMP => prim_of::<TimestampNanosecondType>(r)->0.vals()[k] == Some(prim_of::<TimestampNanosecondType>(a)->0.raw(i)),
        CreateFunctionDataType::DECIMAL { .. } => prim_of::<Decimal128Type>(r)->0.vals()[k] == Some(prim_of::<Decimal128Type>(a)->0.raw(i)),
    },
{
    assert(vs[k] == v);
}
//@probe
proof fn probe_axioms() ensures false { lemma_halves(); }
//@probe
proof fn probe_enc(t: CreateFunctionDataType, a: ArrayRef, i: int, v: Value) ensures !enc(t, a, i, v) {}
//@probe
proof fn probe_result(t: CreateFunctionDataType, vs: Seq<Value>, a: ArrayRef) requires vs.len() > 0 ensures !result_ok(t, vs, a) {}
} // verus!
fn main() {}
