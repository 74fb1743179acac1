use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include sqltypes_base.inc.rs
//@extract src/datafusion/utils.rs | fn make_decimal_type | truncate
    ensures dec_res(r, precision, scale),
//@end
//@extract src/datafusion/utils.rs | fn convert_simple_data_type | optmap
//@rename
Into => RxInto
//@contract
    ensures conv(*sql_type, r),
//@end
//@probe
proof fn probe_axioms() ensures false {}
//@probe
proof fn probe_conv(s: SQLDataType, r: Result<DataType>) requires r is Ok ensures !conv(s, r) {}
} // verus!
fn main() {}
