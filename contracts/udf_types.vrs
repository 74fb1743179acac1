use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
pub struct DataFusionError { pub id: u64 }
pub type Result<T, E = DataFusionError> = core::result::Result<T, E>;
impl DataFusionError {
    #[verifier::external_body]
    #[allow(non_snake_case)]
    pub fn Internal(s: String) -> DataFusionError { unimplemented!() }
}
pub struct Opaque { pub id: u64 }
//@extract src/wasm_udf/data_types.rs | enum CreateFunctionDataType
//@end
impl RxDisp for CreateFunctionDataType { uninterp spec fn disp(&self) -> Seq<char>; }
//@extract src/wasm_udf/data_types.rs | enum CreateFunctionVolatility
//@end
//@extract src/wasm_udf/data_types.rs | enum CreateFunctionLanguage
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/wasmtime-27.0.0/src/runtime/types.rs | enum ValType | payload=none
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/arrow-schema-53.3.0/src/datatype.rs | enum TimeUnit
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/arrow-schema-53.3.0/src/datatype.rs | enum DataType | payload=TimeUnit,u8,i8,i32,Option<Opaque>
//@types
Option<Arc<str>> => Option<Opaque>
//@end
pub mod df { use super::*; }
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-expr-common-44.0.0/src/signature.rs | enum Volatility
//@end
pub type T = CreateFunctionDataType;
// ---- the documented type table
pub open spec fn arrow_of(t: T) -> DataType {
    match t {
        T::I32 | T::INT => DataType::Int32,
        T::I64 | T::BIGINT => DataType::Int64,
        T::F32 | T::FLOAT | T::REAL => DataType::Float32,
        T::F64 | T::DOUBLE => DataType::Float64,
        T::SMALLINT => DataType::Int16,
        T::CHAR | T::VARCHAR | T::TEXT => DataType::Utf8,
        T::DECIMAL { precision, scale } => DataType::Decimal128(precision, scale),
        T::BOOLEAN => DataType::Boolean,
        T::DATE => DataType::Date32,
        T::TIMESTAMP => DataType::Timestamp(TimeUnit::Nanosecond, None),
    }
}
// the WASM value type whose Arrow column type is that of the declared type; none for the others
pub open spec fn wasm_of(t: T) -> Option<ValType> {
    match arrow_of(t) { DataType::Int32 => Some(ValType::I32), DataType::Int64 => Some(ValType::I64), DataType::Float32 => Some(ValType::F32), DataType::Float64 => Some(ValType::F64), _ => None }
}
//@extract src/wasm_udf/data_types.rs | fn get_wasm_type
//@contract
    ensures match wasm_of(*t) { Some(w) => r == Ok::<ValType, DataFusionError>(w), None => r is Err },
//@end
//@extract src/wasm_udf/data_types.rs | fn get_volatility
//@contract
    ensures match *t { CreateFunctionVolatility::Immutable => r is Immutable, CreateFunctionVolatility::Stable => r is Stable, CreateFunctionVolatility::Volatile => r is Volatile },
//@end
//@extract src/wasm_udf/wasm.rs | fn sql_type_to_arrow_type
//@contract
    ensures r == Ok::<DataType, DataFusionError>(arrow_of(*t)),
//@end
// ---- registration: the function implementation is opaque, its construction arguments are not
pub enum Impl { Native(Seq<u8>, Seq<char>, Seq<ValType>, ValType), MessagePack(Seq<u8>, Seq<char>, Seq<T>, T) }
#[verifier::external_body]
pub struct ScalarFunctionImplementation { x: u64 }
impl ScalarFunctionImplementation { pub uninterp spec fn made(&self) -> Impl; }
// its body is under contract in udf_native (which requires basic types) and udf_rows
#[verifier::external_body]
pub fn make_scalar_function_from_wasm(module_bytes: &[u8], function_name: &str, input_types: Vec<ValType>, return_type: ValType) -> (r: Result<ScalarFunctionImplementation>)
    requires basic(return_type), forall|i: int| 0 <= i < input_types@.len() ==> basic(#[trigger] input_types@[i]),
    ensures r is Ok ==> r->Ok_0.made() == Impl::Native(module_bytes@, function_name@, input_types@, return_type),
{ unimplemented!() }
#[verifier::external_body]
pub fn make_scalar_function_wasm_messagepack(module_bytes: &[u8], function_name: &str, input_types: Vec<T>, return_type: T) -> (r: Result<ScalarFunctionImplementation>)
    ensures r is Ok ==> r->Ok_0.made() == Impl::MessagePack(module_bytes@, function_name@, input_types@, return_type),
{ unimplemented!() }
pub open spec fn basic(t: ValType) -> bool { t is I32 || t is I64 || t is F32 || t is F64 }
pub struct ScalarUDF { pub name: Ghost<Seq<char>>, pub input: Ghost<Seq<DataType>>, pub ret: Ghost<DataType>, pub volatility: Ghost<Volatility>, pub imp: Ghost<Impl> }
pub fn create_udf(name: &str, input_types: Vec<DataType>, return_type: DataType, volatility: Volatility, fun: ScalarFunctionImplementation) -> (r: ScalarUDF)
    ensures r.name@ == name@, r.input@ == input_types@, r.ret@ == return_type, r.volatility@ == volatility, r.imp@ == fun.made(),
{ ScalarUDF { name: Ghost(name@), input: Ghost(input_types@), ret: Ghost(return_type), volatility: Ghost(volatility), imp: Ghost(fun.made()) } }
#[verifier::external_body]
pub fn rx_owned<X>(x: &X) -> (r: X) ensures r == *x { unimplemented!() }
pub fn own_owned<X>(x: &X) -> (r: X) ensures r == *x { rx_owned(x) }
//@extract src/wasm_udf/wasm.rs | fn create_udf_from_wasm | resmap
//@methods
to_owned/0 => own_owned
//@contract
    ensures r is Ok ==> r->Ok_0.name@ == name@ && r->Ok_0.volatility@ == volatility && r->Ok_0.ret@ == arrow_of(*return_type)
            && r->Ok_0.input@.len() == input_types@.len() && (forall|i: int| 0 <= i < input_types@.len() ==> #[trigger] r->Ok_0.input@[i] == arrow_of(input_types@[i]))
            && match *language {
                CreateFunctionLanguage::WasmMessagePack => r->Ok_0.imp@ == Impl::MessagePack(module_bytes@, function_name@, input_types@, *return_type),
                CreateFunctionLanguage::Wasm => r->Ok_0.imp@ is Native && r->Ok_0.imp@->Native_0 == module_bytes@ && r->Ok_0.imp@->Native_1 == function_name@ && Some(r->Ok_0.imp@->Native_3) == wasm_of(*return_type)
                    && r->Ok_0.imp@->Native_2.len() == input_types@.len() && forall|i: int| 0 <= i < input_types@.len() ==> Some(#[trigger] r->Ok_0.imp@->Native_2[i]) == wasm_of(input_types@[i]),
            },
//@loop 0
    invariant
        __it0.all().len() == input_types@.len(), forall|j: int| 0 <= j < input_types@.len() ==> *(#[trigger] __it0.all()[j]) == input_types@[j], 0 <= __it0.pos() <= input_types@.len(),
        __err0 is None ==> __acc0@.len() == __it0.pos() && forall|j: int| 0 <= j < __it0.pos() ==> #[trigger] __acc0@[j] == arrow_of(input_types@[j]),
    ensures __err0 is None ==> __it0.pos() == input_types@.len(),
    decreases input_types@.len() - __it0.pos(),
//@loop 1
    invariant
        __it1.all().len() == input_types@.len(), forall|j: int| 0 <= j < input_types@.len() ==> *(#[trigger] __it1.all()[j]) == input_types@[j], 0 <= __it1.pos() <= input_types@.len(),
        __err1 is None ==> __acc1@.len() == __it1.pos() && forall|j: int| 0 <= j < __it1.pos() ==> Some(#[trigger] __acc1@[j]) == wasm_of(input_types@[j]),
    ensures __err1 is None ==> __it1.pos() == input_types@.len(),
    decreases input_types@.len() - __it1.pos(),
//@end
//@probe
proof fn probe_axioms() ensures false {}
//@probe
proof fn probe_wasm(t: T) ensures wasm_of(t) is None {}
} // verus!
fn main() {}
