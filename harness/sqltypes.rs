#![allow(dead_code, unused_imports)]
#[path = "/repo/src/datafusion/utils.rs"]
pub mod utils;
include!("common.rs");
use common::*;
use arrow_schema::{DataType, IntervalUnit, TimeUnit};
use sqlparser::ast::{self as sa, ColumnDef, ColumnOption, ColumnOptionDef, ExactNumberInfo, Ident, TimezoneInfo};
use sqlparser::ast::DataType as S;
use utils::*;

fn dec(p: Option<u64>, s: Option<u64>) -> Option<DataType> {
    let (p, s) = match (p, s) { (None, None) => (38, 10), (None, Some(_)) => return None, (Some(p), s) => (p, s.unwrap_or(0)) };
    if p >= 1 && p <= 38 && s <= p { Some(DataType::Decimal128(p as u8, s as i8)) } else { None }
}
/// every declared type that can be built without nested SQL, with the column type it must give (None: refused)
fn table() -> Vec<(S, Option<DataType>)> {
    use DataType as A;
    let mut v: Vec<(S, Option<A>)> = vec![
        (S::Boolean, Some(A::Boolean)), (S::Bool, Some(A::Boolean)),
        (S::Real, Some(A::Float32)), (S::Float4, Some(A::Float32)), (S::Double, Some(A::Float64)), (S::DoublePrecision, Some(A::Float64)), (S::Float8, Some(A::Float64)),
        (S::Text, Some(A::Utf8)), (S::Date, Some(A::Date32)), (S::Bytea, Some(A::Binary)), (S::Interval, Some(A::Interval(IntervalUnit::MonthDayNano))),
        (S::Numeric(ExactNumberInfo::None), dec(None, None)), (S::Decimal(ExactNumberInfo::None), dec(None, None)), (S::Dec(ExactNumberInfo::None), None), (S::BigNumeric(ExactNumberInfo::None), None), (S::BigDecimal(ExactNumberInfo::Precision(5)), None),
        (S::JSON, None), (S::JSONB, None), (S::Uuid, None), (S::Regclass, None), (S::Int16, None), (S::Int32, None), (S::Int64, None), (S::Int128, None), (S::Int256, None),
        (S::UInt8, None), (S::UInt16, None), (S::UInt32, None), (S::UInt64, None), (S::UInt128, None), (S::UInt256, None), (S::Float32, None), (S::Float64, None), (S::Date32, None),
        (S::Unspecified, None), (S::Trigger, None), (S::TinyBlob, None), (S::MediumBlob, None), (S::LongBlob, None), (S::TinyText, None), (S::MediumText, None), (S::LongText, None),
        (S::Set(vec!["a".into()]), None), (S::FixedString(3), None), (S::Nullable(Box::new(S::Boolean)), None), (S::LowCardinality(Box::new(S::Text)), None),
        (S::Char(None), Some(A::Utf8)), (S::Char(Some(sa::CharacterLength::IntegerLength { length: 3, unit: None })), Some(A::Utf8)), (S::Varchar(None), Some(A::Utf8)), (S::Varchar(Some(sa::CharacterLength::Max)), Some(A::Utf8)),
        (S::Nvarchar(None), None), (S::Character(None), None), (S::CharacterVarying(None), None), (S::CharVarying(None), None),
        (S::Custom(sa::ObjectName(vec![Ident::new("geometry")]), vec![]), None), (S::Array(sa::ArrayElemTypeDef::AngleBracket(Box::new(S::Boolean))), None),
    ];
    for n in [None, Some(0), Some(1), Some(4), Some(24), Some(53), Some(u64::MAX)] {
        v.extend([(S::TinyInt(n), Some(A::Int8)), (S::SmallInt(n), Some(A::Int16)), (S::Int2(n), Some(A::Int16)), (S::Int(n), Some(A::Int32)), (S::Integer(n), Some(A::Int32)), (S::Int4(n), Some(A::Int32)), (S::BigInt(n), Some(A::Int64)), (S::Int8(n), Some(A::Int64)),
            (S::UnsignedTinyInt(n), Some(A::UInt8)), (S::UnsignedSmallInt(n), Some(A::UInt16)), (S::UnsignedInt2(n), Some(A::UInt16)), (S::UnsignedInt(n), Some(A::UInt32)), (S::UnsignedInteger(n), Some(A::UInt32)), (S::UnsignedInt4(n), Some(A::UInt32)), (S::UnsignedBigInt(n), Some(A::UInt64)), (S::UnsignedInt8(n), Some(A::UInt64)),
            (S::Float(n), Some(A::Float32)), (S::String(n), Some(A::Utf8)), (S::MediumInt(n), None), (S::UnsignedMediumInt(n), None), (S::Binary(n), None), (S::Varbinary(n), None), (S::Blob(n), None), (S::Datetime(n), None), (S::Bytes(n), None), (S::Clob(n), None), (S::CharacterLargeObject(n), None), (S::CharLargeObject(n), None), (S::Bit(n), None), (S::BitVarying(n), None)]);
        for tz in [TimezoneInfo::None, TimezoneInfo::WithTimeZone, TimezoneInfo::WithoutTimeZone, TimezoneInfo::Tz] {
            let zoned = matches!(tz, TimezoneInfo::WithTimeZone | TimezoneInfo::Tz);
            v.push((S::Timestamp(n, tz), if n.is_some() { None } else { Some(A::Timestamp(TimeUnit::Microsecond, if zoned { Some("+00:00".into()) } else { None })) }));
            v.push((S::Time(n, tz), if n.is_some() || zoned { None } else { Some(A::Time64(TimeUnit::Nanosecond)) }));
        }
    }
    v
}
fn check(t: &S, want: &Option<DataType>) {
    case();
    match (guard(|| convert_simple_data_type(t)), want) {
        (Ok(Ok(g)), Some(w)) if g == *w => {}
        (Ok(Err(_)), None) => {}
        (g, w) => violation("type", &format!("column type {t:?}"), &format!("{w:?} (None: refused)"), &format!("{g:?}")),
    }
}
fn c04() {
    for (t, w) in table() { check(&t, &w) }
    set("declared types");
    let mut ns: Vec<u64> = (0..=300).collect();
    for b in [1u64 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63] { for d in [0u64, 1, 2, 10, 38] { ns.push(b.wrapping_add(d)); ns.push(b.wrapping_sub(d)); } }
    ns.push(u64::MAX);
    for &p in &ns {
        for d in [S::Decimal as fn(ExactNumberInfo) -> S, S::Numeric] {
            check(&d(ExactNumberInfo::Precision(p)), &dec(Some(p), None));
            for &s in &ns { check(&d(ExactNumberInfo::PrecisionAndScale(p, s)), &dec(Some(p), Some(s))); }
        }
    }
    for &s in &ns { case(); if let Ok(Ok(g)) = guard(|| make_decimal_type(None, Some(s))) { violation("type", &format!("scale {s} without a precision"), "refused", &format!("{g:?}")) } }
    set("decimal precision and scale");
}
fn fold(i: &Ident) -> String { if i.quote_style.is_some() { i.value.clone() } else { i.value.chars().map(|c| if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c }).collect() } }
fn col_check(cols: &[ColumnDef], tab: &[(S, Option<DataType>)]) {
    case();
    let want: Option<Vec<_>> = cols.iter().map(|c| tab.iter().find(|t| t.0 == c.data_type).unwrap().1.clone().map(|d| (fold(&c.name), d, !c.options.iter().any(|o| matches!(o.option, ColumnOption::NotNull))))).collect();
    let g = guard(|| build_schema(cols.to_vec()));
    let ok = match (&g, &want) {
        (Ok(Ok(s)), Some(w)) => s.fields().len() == w.len() && s.metadata().is_empty() && s.fields().iter().zip(w).all(|(f, (n, d, nl))| f.name() == n && f.data_type() == d && f.is_nullable() == *nl),
        (Ok(Err(_)), None) => true,
        _ => false,
    };
    if !ok { let show: Vec<String> = cols.iter().map(|c| c.to_string()).collect(); violation("schema", &format!("columns ({})", show.join(", ")), &format!("{want:?} (name, type, nullable; None: refused)"), &format!("{g:?}")) }
}
fn c05() {
    let tab = table();
    let opts = |r: &mut Rng| -> Vec<ColumnOptionDef> {
        let n = r.below(4);
        (0..n).map(|_| ColumnOptionDef { name: if r.chance(20) { Some(Ident::new("cn")) } else { None }, option: match r.below(7) {
            0 | 1 => ColumnOption::NotNull, 2 => ColumnOption::Null, 3 => ColumnOption::Unique { is_primary: false, characteristics: None }, 4 => ColumnOption::Unique { is_primary: true, characteristics: None },
            5 => ColumnOption::Default(sa::Expr::Value(sa::Value::Null)), _ => ColumnOption::Comment("NOT NULL".into()) } }).collect()
    };
    let alpha: Vec<char> = "aAzZ_09[@`{ÄßŁ \"é".chars().collect();
    let mut r = Rng::new(seed() ^ 5);
    let n = if thorough() { 400_000 } else { 40_000 };
    for _ in 0..n {
        let k = r.below(7);
        let cols: Vec<ColumnDef> = (0..k).map(|_| {
            let good = !r.chance(4);
            let data_type = loop { let t = r.pick(&tab).clone(); if t.1.is_some() == good { break t.0 } };
            ColumnDef { name: Ident { value: r.string(&alpha, 4), quote_style: *r.pick(&[None, None, Some('"'), Some('`')]), span: sqlparser::tokenizer::Span::empty() }, data_type, collation: None, options: opts(&mut r) }
        }).collect();
        col_check(&cols, &tab);
    }
    set("column lists");
    for a in 0u32..0x250 { if let Some(ch) = char::from_u32(a) { for q in [None, Some('"'), Some('\'')] { let c = ColumnDef { name: Ident { value: format!("x{ch}Y"), quote_style: q, span: sqlparser::tokenizer::Span::empty() }, data_type: S::Boolean, collation: None, options: vec![] }; col_check(&[c], &tab); } } }
    set("names");
}
fn main() { match prop().as_str() { "c04" => c04(), "c05" => c05(), p => panic!("VERIF-HARNESS unknown property {p}") } done(); }
