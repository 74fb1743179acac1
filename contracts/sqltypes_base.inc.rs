#[derive(PartialEq, Eq, Structural)]
pub struct Opaque { pub id: u64 }
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/data_type.rs | enum TimezoneInfo | derive=PartialEq,Eq,Clone,Copy,Structural
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/data_type.rs | enum ExactNumberInfo | derive=PartialEq,Eq,Clone,Copy,Structural
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/ddl.rs | enum ColumnOption | derive=PartialEq,Eq,Structural payload=x
//@end
pub mod sp {
use vstd::prelude::*;
use super::{TimezoneInfo, ExactNumberInfo, Opaque};
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/data_type.rs | enum DataType | payload=TimezoneInfo,ExactNumberInfo,Option<u64>
//@end
}
pub type SQLDataType = sp::DataType;
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/arrow-schema-53.3.0/src/datatype.rs | enum TimeUnit
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/arrow-schema-53.3.0/src/datatype.rs | enum IntervalUnit
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/arrow-schema-53.3.0/src/datatype.rs | enum DataType | payload=TimeUnit,IntervalUnit,Option<String>,u8,i8
//@types
Option<Arc<str>> => Option<String>
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/arrow-schema-53.3.0/src/datatype.rs | const DECIMAL128_MAX_PRECISION
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/arrow-schema-53.3.0/src/datatype.rs | const DECIMAL_DEFAULT_SCALE
//@end
pub struct DataFusionError { pub id: u64 }
pub type Result<T> = core::result::Result<T, DataFusionError>;
impl DataFusionError {
    #[verifier::external_body]
    #[allow(non_snake_case)]
    pub fn Internal(s: String) -> DataFusionError { unimplemented!() }
}
#[verifier::external_body]
pub fn rx_err() -> DataFusionError { unimplemented!() }
impl RxDisp for u64 { uninterp spec fn disp(&self) -> Seq<char>; }
impl RxDisp for u8 { uninterp spec fn disp(&self) -> Seq<char>; }
impl RxDisp for i8 { uninterp spec fn disp(&self) -> Seq<char>; }
// the default configuration of DataFusion: the session time zone is "+00:00"
pub struct ExecutionOptions { pub time_zone: Option<String> }
pub struct ConfigOptions { pub execution: ExecutionOptions }
pub open spec fn utc() -> Seq<char> { "+00:00"@ }
impl ConfigOptions {
    #[verifier::external_body]
    pub fn default() -> (r: ConfigOptions) ensures r.execution.time_zone is Some, r.execution.time_zone->0@ == utc() { unimplemented!() }
}
pub struct RxInto {}
impl RxInto { pub fn into(s: String) -> (r: String) ensures r == s { s } }
// Decimal128 keeps at most 38 digits
pub open spec fn dec_ok(p: int, s: int) -> bool { 1 <= p <= 38 && 0 <= s <= p }
pub open spec fn is_dec(d: DataType, p: int, s: int) -> bool { d is Decimal128 && d->Decimal128_0 as int == p && d->Decimal128_1 as int == s }
// a declared decimal: None is a malformed declaration
pub open spec fn dec_decl(p: Option<u64>, s: Option<u64>) -> Option<(int, int)> {
    match (p, s) {
        (Some(p), Some(s)) => if dec_ok(p as int, s as int) { Some((p as int, s as int)) } else { None },
        (Some(p), None) => if dec_ok(p as int, 0) { Some((p as int, 0)) } else { None },
        (None, Some(_)) => None,
        (None, None) => Some((38, 10)),
    }
}
pub open spec fn dec_res(r: Result<DataType>, p: Option<u64>, s: Option<u64>) -> bool {
    match dec_decl(p, s) { Some((a, b)) => r is Ok && is_dec(r->Ok_0, a, b), None => r is Err }
}
pub open spec fn info(e: ExactNumberInfo) -> (Option<u64>, Option<u64>) {
    match e { ExactNumberInfo::None => (None, None), ExactNumberInfo::Precision(p) => (Some(p), None), ExactNumberInfo::PrecisionAndScale(p, s) => (Some(p), Some(s)) }
}
// the documented types (https://seafowl.io/docs/reference/types): the column type is the Arrow type that
// holds exactly the declared values; every other declaration is refused
pub open spec fn conv(sql: SQLDataType, r: Result<DataType>) -> bool {
    match sql {
        sp::DataType::Boolean | sp::DataType::Bool => r == Ok::<DataType, DataFusionError>(DataType::Boolean),
        sp::DataType::TinyInt(_) => r == Ok::<DataType, DataFusionError>(DataType::Int8),
        sp::DataType::SmallInt(_) | sp::DataType::Int2(_) => r == Ok::<DataType, DataFusionError>(DataType::Int16),
        sp::DataType::Int(_) | sp::DataType::Integer(_) | sp::DataType::Int4(_) => r == Ok::<DataType, DataFusionError>(DataType::Int32),
        sp::DataType::BigInt(_) | sp::DataType::Int8(_) => r == Ok::<DataType, DataFusionError>(DataType::Int64),
        sp::DataType::UnsignedTinyInt(_) => r == Ok::<DataType, DataFusionError>(DataType::UInt8),
        sp::DataType::UnsignedSmallInt(_) | sp::DataType::UnsignedInt2(_) => r == Ok::<DataType, DataFusionError>(DataType::UInt16),
        sp::DataType::UnsignedInt(_) | sp::DataType::UnsignedInteger(_) | sp::DataType::UnsignedInt4(_) => r == Ok::<DataType, DataFusionError>(DataType::UInt32),
        sp::DataType::UnsignedBigInt(_) | sp::DataType::UnsignedInt8(_) => r == Ok::<DataType, DataFusionError>(DataType::UInt64),
        sp::DataType::Float(_) | sp::DataType::Real | sp::DataType::Float4 => r == Ok::<DataType, DataFusionError>(DataType::Float32),
        sp::DataType::Double | sp::DataType::DoublePrecision | sp::DataType::Float8 => r == Ok::<DataType, DataFusionError>(DataType::Float64),
        sp::DataType::Char(_) | sp::DataType::Varchar(_) | sp::DataType::Text | sp::DataType::String(_) => r == Ok::<DataType, DataFusionError>(DataType::Utf8),
        // without a zone the timestamp is local; with one it is an instant in the session zone (UTC)
        sp::DataType::Timestamp(None, tz) => r is Ok && r->Ok_0 is Timestamp && r->Ok_0->Timestamp_0 is Microsecond && match tz {
            TimezoneInfo::None | TimezoneInfo::WithoutTimeZone => r->Ok_0->Timestamp_1 is None,
            _ => r->Ok_0->Timestamp_1 is Some && r->Ok_0->Timestamp_1->0@ == utc() },
        sp::DataType::Date => r == Ok::<DataType, DataFusionError>(DataType::Date32),
        sp::DataType::Time(None, tz) => if tz is None || tz is WithoutTimeZone { r == Ok::<DataType, DataFusionError>(DataType::Time64(TimeUnit::Nanosecond)) } else { r is Err },
        sp::DataType::Numeric(e) | sp::DataType::Decimal(e) => dec_res(r, info(e).0, info(e).1),
        sp::DataType::Bytea => r == Ok::<DataType, DataFusionError>(DataType::Binary),
        sp::DataType::Interval => r == Ok::<DataType, DataFusionError>(DataType::Interval(IntervalUnit::MonthDayNano)),
        _ => r is Err,
    }
}
