use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
//@include sqltypes_base.inc.rs
pub struct Ident { pub value: String, pub quote_style: Option<char> }
pub struct ColumnOptionDef { pub name: Option<Ident>, pub option: ColumnOption }
pub struct SQLColumnDef { pub name: Ident, pub data_type: SQLDataType, pub collation: Option<Opaque>, pub options: Vec<ColumnOptionDef> }
pub struct Field { pub name: String, pub data_type: DataType, pub nullable: bool }
impl Field { pub fn new(name: String, data_type: DataType, nullable: bool) -> (r: Field) ensures r == (Field { name, data_type, nullable }) { Field { name, data_type, nullable } } }
pub struct Schema { pub fields: Vec<Field> }
impl Schema { pub fn new(fields: Vec<Field>) -> (r: Schema) ensures r.fields == fields { Schema { fields } } }
pub open spec fn lower1(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u32) as char } else { c } }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn rx_lower(s: &String) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
// an unquoted identifier folds to lower case, a quoted one is taken as written
pub open spec fn ident_name(i: Ident) -> Seq<char> { if i.quote_style is Some { i.value@ } else { lower(i.value@) } }
//@extract src/datafusion/utils.rs | fn normalize_ident
//@methods
to_ascii_lowercase/0 => rx_lower
//@contract
    ensures r@ == ident_name(*id),
//@end
// its own contract is C04
#[verifier::external_body]
pub fn convert_simple_data_type(sql_type: &SQLDataType) -> (r: Result<DataType>) ensures conv(*sql_type, r) { unimplemented!() }

pub open spec fn has_not_null(c: SQLColumnDef) -> bool { exists|j: int| 0 <= j < c.options@.len() && (#[trigger] c.options@[j]).option is NotNull }
pub open spec fn field_of(f: Field, c: SQLColumnDef) -> bool {
    f.name@ == ident_name(c.name) && conv(c.data_type, Ok(f.data_type)) && f.nullable == !has_not_null(c)
}
//@extract src/datafusion/utils.rs | fn build_schema
    ensures
        r is Ok ==> r->Ok_0.fields@.len() == columns@.len() && forall|i: int| 0 <= i < columns@.len() ==> field_of(#[trigger] r->Ok_0.fields@[i], columns@[i]),
        r is Err ==> exists|i: int| 0 <= i < columns@.len() && (forall|d: DataType| !conv((#[trigger] columns@[i]).data_type, Ok(d))),
//@loop 0
    invariant
        __it0.all() == columns@, 0 <= __it0.pos() <= columns@.len(), fields@.len() == __it0.pos(),
        forall|i: int| 0 <= i < __it0.pos() ==> field_of(#[trigger] fields@[i], columns@[i]),
    ensures __it0.pos() == columns@.len(),
    decreases columns@.len() - __it0.pos(),
//@loop 1
    invariant
        __it1.all().len() == column.options@.len(), forall|j: int| 0 <= j < column.options@.len() ==> *(#[trigger] __it1.all()[j]) == column.options@[j], 0 <= __it1.pos() <= column.options@.len(),
        !__acc1 ==> forall|j: int| 0 <= j < __it1.pos() ==> !((#[trigger] column.options@[j]).option is NotNull),
        __acc1 ==> has_not_null(column),
    ensures __acc1 == has_not_null(column),
    decreases column.options@.len() - __it1.pos(),
//@end
//@probe
proof fn probe_axioms() ensures false {}
//@probe
proof fn probe_field(f: Field, c: SQLColumnDef) ensures !field_of(f, c) {}
} // verus!
fn main() {}
