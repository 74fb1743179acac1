use vstd::prelude::*;
verus! {
//@include strings.inc.rs
pub struct Column { pub name: String }
//@include fp_scalar.inc.rs
impl RxDisp for ScalarValue { uninterp spec fn disp(&self) -> Seq<char>; }

// ---- what `to_string` of an operator gives: the Display of the pinned DataFusion, itself extracted and verified below
pub open spec fn op_disp(o: Operator) -> Seq<char> {
    match o {
        Operator::Eq => "="@, Operator::NotEq => "!="@, Operator::Lt => "<"@, Operator::LtEq => "<="@, Operator::Gt => ">"@, Operator::GtEq => ">="@,
        Operator::Plus => "+"@, Operator::Minus => "-"@, Operator::Multiply => "*"@, Operator::Divide => "/"@, Operator::Modulo => "%"@,
        Operator::And => "AND"@, Operator::Or => "OR"@, Operator::RegexMatch => "~"@, Operator::RegexIMatch => "~*"@, Operator::RegexNotMatch => "!~"@, Operator::RegexNotIMatch => "!~*"@,
        Operator::LikeMatch => "~~"@, Operator::ILikeMatch => "~~*"@, Operator::NotLikeMatch => "!~~"@, Operator::NotILikeMatch => "!~~*"@,
        Operator::IsDistinctFrom => "IS DISTINCT FROM"@, Operator::IsNotDistinctFrom => "IS NOT DISTINCT FROM"@,
        Operator::BitwiseAnd => "&"@, Operator::BitwiseOr => "|"@, Operator::BitwiseXor => "BIT_XOR"@, Operator::BitwiseShiftRight => ">>"@, Operator::BitwiseShiftLeft => "<<"@,
        Operator::StringConcat => "||"@, Operator::AtArrow => "@>"@, Operator::ArrowAt => "<@"@,
    }
}
impl RxDisp for Operator { open spec fn disp(&self) -> Seq<char> { op_disp(*self) } }
pub struct Formatter { pub out: String }
pub type FmtResult = core::result::Result<(), u64>;
#[verifier::external_body]
pub fn rx_write(f: &mut Formatter, s: String) -> (r: FmtResult) ensures final(f).out@ == old(f).out@ + s@ { unimplemented!() }
impl Operator {
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-expr-common-44.0.0/src/operator.rs | impl Display for Operator :: fmt
//@types
fmt::Formatter => Formatter
fmt::Result => FmtResult
//@contract
    ensures final(f).out@ == old(f).out@ + op_disp(*self),
//@end
}

// ---- the operator of each remote dialect with the meaning of the DataFusion operator; None: it has none.
// Sources: PostgreSQL manual 9.*, SQLite "SQL Language Expressions", MySQL manual 14.*
pub enum Dialect { Postgres, SQLite, MySQL }
pub open spec fn common_op(o: Operator) -> Option<Seq<char>> {
    match o {
        Operator::Eq | Operator::NotEq | Operator::Lt | Operator::LtEq | Operator::Gt | Operator::GtEq | Operator::Plus | Operator::Minus | Operator::Multiply
        | Operator::Modulo | Operator::And | Operator::Or | Operator::BitwiseAnd | Operator::BitwiseOr | Operator::BitwiseShiftRight | Operator::BitwiseShiftLeft => Some(op_disp(o)),
        _ => None,
    }
}
pub open spec fn dialect_op(d: Dialect, o: Operator) -> Option<Seq<char>> {
    match o {
        // the same in all three (integer division truncates in PostgreSQL and SQLite, not in MySQL)
        Operator::Divide | Operator::StringConcat | Operator::IsDistinctFrom | Operator::IsNotDistinctFrom => if d is MySQL { None } else { Some(op_disp(o)) },
        Operator::RegexMatch => match d { Dialect::Postgres => Some("~"@), Dialect::MySQL => Some("RLIKE"@), Dialect::SQLite => None },
        Operator::RegexNotMatch => match d { Dialect::Postgres => Some("!~"@), Dialect::MySQL => Some("NOT RLIKE"@), Dialect::SQLite => None },
        Operator::RegexIMatch | Operator::RegexNotIMatch | Operator::LikeMatch | Operator::ILikeMatch | Operator::NotLikeMatch | Operator::NotILikeMatch | Operator::AtArrow | Operator::ArrowAt
            => if d is Postgres { Some(op_disp(o)) } else { None },
        Operator::BitwiseXor => match d { Dialect::Postgres => Some("#"@), Dialect::MySQL => Some("^"@), Dialect::SQLite => None },
        _ => common_op(o),
    }
}
pub open spec fn same_op(t: Seq<char>, d: Dialect, o: Operator) -> bool {
    dialect_op(d, o) == Some(t) || o is NotEq && t == "<>"@
}

// ---- literals
pub open spec fn inst(ns: int) -> Seq<char> { "'"@ + datetime_disp(ns) + "'"@ }
pub uninterp spec fn null_disp() -> Seq<char>;
// t is an exact literal for v: strings go through the quoting function (C02), dates and timestamps
// denote the same instant, other values are displayed by DataFusion and have a literal form
pub open spec fn exact(v: ScalarValue, t: Seq<char>, str_txt: spec_fn(Seq<char>) -> Option<Seq<char>>) -> bool {
    match v {
        ScalarValue::Utf8(Some(s)) | ScalarValue::LargeUtf8(Some(s)) | ScalarValue::Utf8View(Some(s)) => str_txt(s@) == Some(t),
        ScalarValue::Date32(Some(d)) => t == "'"@ + date_disp(d as int) + "'"@,
        ScalarValue::Date64(Some(x)) => t == inst(x * 1_000_000),
        ScalarValue::TimestampSecond(Some(x), None) => t == inst(x * 1_000_000_000),
        ScalarValue::TimestampMillisecond(Some(x), None) => t == inst(x * 1_000_000),
        ScalarValue::TimestampMicrosecond(Some(x), None) => t == inst(x * 1_000),
        ScalarValue::TimestampNanosecond(Some(x), None) => t == inst(x as int),
        ScalarValue::Float32(Some(f)) | ScalarValue::Float64(Some(f)) => finite(f) && t == v.disp(),
        ScalarValue::Null | ScalarValue::Boolean(_) | ScalarValue::Int8(_) | ScalarValue::Int16(_) | ScalarValue::Int32(_) | ScalarValue::Int64(_)
        | ScalarValue::UInt8(_) | ScalarValue::UInt16(_) | ScalarValue::UInt32(_) | ScalarValue::UInt64(_) => t == v.disp(),
        // an absent value of any other type may only be NULL
        ScalarValue::Float32(None) | ScalarValue::Float64(None) | ScalarValue::Utf8(None) | ScalarValue::LargeUtf8(None) | ScalarValue::Utf8View(None)
        | ScalarValue::Date32(None) | ScalarValue::Date64(None) | ScalarValue::TimestampSecond(None, None) | ScalarValue::TimestampMillisecond(None, None)
        | ScalarValue::TimestampMicrosecond(None, None) | ScalarValue::TimestampNanosecond(None, None) => t == v.disp() || t == "NULL"@,
        _ => false,
    }
}
pub struct PostgresFilterPushdown {}
pub struct SQLiteFilterPushdown {}
pub struct MySQLFilterPushdown {}
impl PostgresFilterPushdown {
    pub uninterp spec fn str_txt(&self, s: Seq<char>) -> Option<Seq<char>>;
    // its own contract is C02
    #[verifier::external_body]
    pub fn string_to_sql(&self, val: &String) -> (r: Option<String>)
        ensures r is Some == self.str_txt(val@) is Some, r is Some ==> r->0@ == self.str_txt(val@)->0 { unimplemented!() }
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for PostgresFilterPushdown :: op_to_sql || trait FilterPushdownConverter :: op_to_sql
    ensures r is Some ==> same_op(r->0@, Dialect::Postgres, *op),
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for PostgresFilterPushdown :: scalar_value_to_sql || trait FilterPushdownConverter :: scalar_value_to_sql
    ensures r is Some ==> exact(*value, r->0@, |s: Seq<char>| self.str_txt(s)),
//@end
}
impl SQLiteFilterPushdown {
    pub uninterp spec fn str_txt(&self, s: Seq<char>) -> Option<Seq<char>>;
    // its own contract is C02
    #[verifier::external_body]
    pub fn string_to_sql(&self, val: &String) -> (r: Option<String>)
        ensures r is Some == self.str_txt(val@) is Some, r is Some ==> r->0@ == self.str_txt(val@)->0 { unimplemented!() }
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for SQLiteFilterPushdown :: op_to_sql || trait FilterPushdownConverter :: op_to_sql
    ensures r is Some ==> same_op(r->0@, Dialect::SQLite, *op),
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for SQLiteFilterPushdown :: scalar_value_to_sql || trait FilterPushdownConverter :: scalar_value_to_sql
    ensures r is Some ==> exact(*value, r->0@, |s: Seq<char>| self.str_txt(s)),
//@end
}
impl MySQLFilterPushdown {
    pub uninterp spec fn str_txt(&self, s: Seq<char>) -> Option<Seq<char>>;
    // its own contract is C02
    #[verifier::external_body]
    pub fn string_to_sql(&self, val: &String) -> (r: Option<String>)
        ensures r is Some == self.str_txt(val@) is Some, r is Some ==> r->0@ == self.str_txt(val@)->0 { unimplemented!() }
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for MySQLFilterPushdown :: op_to_sql || trait FilterPushdownConverter :: op_to_sql
    ensures r is Some ==> same_op(r->0@, Dialect::MySQL, *op),
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for MySQLFilterPushdown :: scalar_value_to_sql || trait FilterPushdownConverter :: scalar_value_to_sql
    ensures r is Some ==> exact(*value, r->0@, |s: Seq<char>| self.str_txt(s)),
//@end
}
//@probe
proof fn probe_axioms() ensures false {}
//@probe
proof fn probe_op(o: Operator, d: Dialect, t: Seq<char>) ensures !same_op(t, d, o) {}
//@probe
proof fn probe_exact(v: ScalarValue, t: Seq<char>, f: spec_fn(Seq<char>) -> Option<Seq<char>>) ensures !exact(v, t, f) {}
} // verus!
fn main() {}
