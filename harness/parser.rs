#![allow(dead_code, unused_imports)]
#[path = "/repo/src/datafusion/parser.rs"]
pub mod parser;
include!("common.rs");
use common::*;
use datafusion::sql::parser::{CopyToSource, CopyToStatement, CreateExternalTable, Statement};
use parser::DFParser;
use sqlparser::ast::{
    ColumnDef, ColumnOption, ColumnOptionDef, CreateFunction, CreateFunctionBody, DataType, Expr, Ident, ObjectName, OrderByExpr,
    Statement as S, TableConstraint, TruncateTableTarget, Value,
};
use sqlparser::dialect::GenericDialect;
use sqlparser::parser::Parser;

/// A statement as written: its words and, for each, whether it is a keyword (whose letter case does not matter)
#[derive(Clone, Default)]
struct Text(Vec<(String, bool)>);
impl Text {
    fn k(mut self, words: &str) -> Text { for w in words.split(' ') { if !w.is_empty() { self.0.push((w.into(), w.chars().all(|c| c.is_ascii_alphabetic()))) } } self }
    fn w(mut self, s: &str) -> Text { self.0.push((s.into(), false)); self }
    fn join(mut self, o: Text) -> Text { self.0.extend(o.0); self }
    fn render(&self, r: &mut Rng) -> String {
        let mut o = String::new();
        for (i, (s, kw)) in self.0.iter().enumerate() {
            if i > 0 { o.push_str(*r.pick(&[" ", " ", " ", "\n", "\t ", " /* ; a comment */ ", " -- ; to the end\n", "  "])) }
            if *kw { for c in s.chars() { o.push(if r.chance(50) { c.to_ascii_lowercase() } else { c }) } } else { o.push_str(s) }
        }
        o
    }
}
fn ident(r: &mut Rng) -> (Ident, String) {
    match r.below(8) {
        0 => { let v = *r.pick(&["T", "MixedCase", "aé", "_x1", "locations", "file_format", "deltas", "databases"]); (Ident::new(v), v.into()) }
        1 => { let v = *r.pick(&["a b", "semi;colon", "TABLE", "quote\"d", "a.b", "", "--x"]); (Ident::with_quote('"', v), format!("\"{}\"", v.replace('"', "\"\""))) }
        2 => { let v = *r.pick(&["x y", "select", "a;b"]); (Ident::with_quote('`', v), format!("`{v}`")) }
        _ => { let v = *r.pick(&["t", "tab", "orders", "k1", "vals"]); (Ident::new(v), v.into()) }
    }
}
fn object(r: &mut Rng) -> (ObjectName, Text) {
    let n = *r.pick(&[1, 1, 1, 2, 2, 3]);
    let (mut p, mut t) = (vec![], Text::default());
    for i in 0..n { if i > 0 { t = t.w(".") } let (a, b) = ident(r); p.push(a); t = t.w(&b); }
    (ObjectName(p), t)
}
fn lit(r: &mut Rng) -> (String, String) {
    let v = *r.pick(&["s3://bucket/a b;c/'x'.parquet", "", "/tmp/x", "it's", "TO", "-- no comment", "日本", "line\nbreak", "a\\b"]);
    (v.into(), format!("'{}'", v.replace('\'', "''")))
}
fn key(r: &mut Rng) -> (String, Text) {
    match r.below(4) {
        0 => { let (v, t) = lit(r); (v, Text::default().w(&t)) }
        1 => { let n = 1 + r.below(3); let mut t = Text::default(); let mut o = vec![]; for i in 0..n { if i > 0 { t = t.w(".") } let w = *r.pick(&["format", "Compression", "to", "stored", "x1"]); o.push(w); t = t.w(w); } (o.join("."), t) }
        2 => ("k v".into(), Text::default().w("\"k v\"")),
        _ => { let w = *r.pick(&["access_key_id", "HEADER", "with", "options"]); (w.into(), Text::default().w(w)) }
    }
}
fn value(r: &mut Rng) -> (Value, String) {
    match r.below(5) {
        0 => { let w = *r.pick(&["snappy", "TRUE", "Gzip", "to"]); (Value::SingleQuotedString(w.into()), w.into()) }
        1 => { let n = *r.pick(&["0", "42", "1.50", "1e10", "00018446744073709551616"]); (Value::Number(n.into(), false), n.into()) }
        2 => (Value::SingleQuotedString("d q".into()), "\"d q\"".into()),
        3 => (Value::EscapedStringLiteral("a\tb".into()), "E'a\\tb'".into()),
        _ => { let (v, t) = lit(r); (Value::SingleQuotedString(v), t) }
    }
}
fn options(r: &mut Rng) -> (Vec<(String, Value)>, Text) {
    let n = 1 + r.below(3);
    let (mut o, mut t) = (vec![], Text::default().w("("));
    for i in 0..n { if i > 0 { t = t.w(",") } let (k, kt) = key(r); let (v, vt) = value(r); o.push((k, v)); t = t.join(kt).w(&vt); }
    if r.chance(20) { t = t.w(",") }
    (o, t.w(")"))
}
fn partitions(r: &mut Rng) -> (Vec<String>, Text) {
    let n = r.below(4);
    let (mut o, mut t) = (vec![], Text::default().w("("));
    for i in 0..n { if i > 0 { t = t.w(",") } let (id, s) = ident(r); o.push(id.to_string()); t = t.w(&s); }
    if n > 0 && r.chance(20) { t = t.w(",") }
    (o, t.w(")"))
}
const QUERIES: &[&str] = &["SELECT 1", "SELECT a , ';' FROM t WHERE b = 'x''y' ORDER BY c DESC LIMIT 3", "WITH q AS ( SELECT 1 AS a ) SELECT * FROM q", "VALUES ( 1 , 2 ) , ( 3 , 4 )", "SELECT * FROM t ( '2022-01-01 00:00:00' )"];
fn query(s: &str) -> Box<sqlparser::ast::Query> { match Parser::parse_sql(&GenericDialect {}, s).unwrap().remove(0) { S::Query(q) => q, _ => panic!() } }
fn shuffle<T>(r: &mut Rng, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = r.below(i as u64 + 1) as usize; v.swap(i, j) } }
fn copy_marker() -> (String, Value) { ("CONVERT_TO_DELTA".into(), Value::Boolean(true)) }
fn trunc(name: ObjectName, partitions: Option<Vec<Expr>>, table: bool) -> Statement {
    Statement::Statement(Box::new(S::Truncate { table_names: vec![TruncateTableTarget { name }], partitions, table, only: false, identity: None, cascade: None, on_cluster: None }))
}

fn gen_copy(r: &mut Rng) -> (Statement, Text) {
    let (source, src) = if r.chance(50) { let (n, t) = object(r); (CopyToSource::Relation(n), t) } else { let q = *r.pick(QUERIES); (CopyToSource::Query(query(q)), Text::default().w("(").w(q).w(")")) };
    let (target, tt) = lit(r);
    let mut clauses = vec![Text::default().k("TO").w(&tt)];
    let mut st = CopyToStatement { source, target, partitioned_by: vec![], stored_as: None, options: vec![] };
    if r.chance(50) { let f = *r.pick(&["parquet", "CSV", "Json"]); st.stored_as = Some(f.to_uppercase()); clauses.push(Text::default().k("STORED AS").w(f)) }
    if r.chance(50) { let (p, t) = partitions(r); st.partitioned_by = p; clauses.push(Text::default().k("PARTITIONED BY").join(t)) }
    if r.chance(50) { let (o, t) = options(r); st.options = o; clauses.push(Text::default().k("OPTIONS").join(t)) }
    shuffle(r, &mut clauses);
    let mut t = Text::default().k("COPY").join(src);
    for c in clauses { t = t.join(c) }
    (Statement::CopyTo(st), t)
}
fn coldef(r: &mut Rng) -> (ColumnDef, Text) {
    let (name, nt) = loop { let (n, t) = ident(r); if !n.value.is_empty() { break (n, t) } };
    let (data_type, dt): (DataType, &str) = r.pick(&[(DataType::Int(None), "INT"), (DataType::Text, "TEXT"), (DataType::BigInt(None), "BIGINT"), (DataType::Boolean, "BOOLEAN")]).clone();
    let mut t = Text::default().w(&nt).k(dt);
    let mut options = vec![];
    let collation = if r.chance(10) { t = t.k("COLLATE").w("utf8"); Some(ObjectName(vec![Ident::new("utf8")])) } else { None };
    for _ in 0..r.below(3) {
        let name = if r.chance(30) { t = t.k("CONSTRAINT").w("cons"); Some(Ident::new("cons")) } else { None };
        let option = match r.below(3) { 0 => { t = t.k("NOT NULL"); ColumnOption::NotNull } 1 => { t = t.k("NULL"); ColumnOption::Null } _ => { t = t.k("DEFAULT").w("5"); ColumnOption::Default(Expr::Value(Value::Number("5".into(), false))) } };
        options.push(ColumnOptionDef { name, option });
    }
    (ColumnDef { name, data_type, collation, options }, t)
}
fn columns(r: &mut Rng, min: u64) -> (Vec<ColumnDef>, Text) {
    let n = min + r.below(4);
    let (mut o, mut t) = (vec![], Text::default().w("("));
    for i in 0..n { if i > 0 { t = t.w(",") } let (c, ct) = coldef(r); o.push(c); t = t.join(ct); }
    if n > 0 && r.chance(20) { t = t.w(",") }
    (o, t.w(")"))
}
fn order(r: &mut Rng) -> (Vec<OrderByExpr>, Text) {
    let n = 1 + r.below(3);
    let (mut o, mut t) = (vec![], Text::default().w("("));
    for i in 0..n {
        if i > 0 { t = t.w(",") }
        let (id, s) = loop { let (a, b) = ident(r); if !a.value.is_empty() { break (a, b) } };
        t = t.w(&s);
        let asc = match r.below(3) { 0 => { t = t.k("ASC"); Some(true) } 1 => { t = t.k("DESC"); Some(false) } _ => None };
        let nulls_first = match r.below(3) { 0 => { t = t.k("NULLS FIRST"); Some(true) } 1 => { t = t.k("NULLS LAST"); Some(false) } _ => None };
        o.push(OrderByExpr { expr: Expr::Identifier(id), asc, nulls_first, with_fill: None });
    }
    (o, t.w(")"))
}
fn gen_external(r: &mut Rng) -> (Statement, Text) {
    let unbounded = r.chance(30);
    let temporary = r.chance(30);
    let if_not_exists = r.chance(30);
    let (name, nt) = object(r);
    let mut t = Text::default().k("CREATE");
    if unbounded { t = t.k("UNBOUNDED") }
    t = t.k("EXTERNAL");
    if temporary { t = t.k(*r.pick(&["TEMP", "TEMPORARY"])) }
    t = t.k("TABLE");
    if if_not_exists { t = t.k("IF NOT EXISTS") }
    t = t.join(nt);
    let mut st = CreateExternalTable { name, columns: vec![], file_type: String::new(), location: String::new(), table_partition_cols: vec![], order_exprs: vec![], if_not_exists, temporary, unbounded, options: vec![], constraints: vec![] };
    if r.chance(70) {
        let (c, ct) = columns(r, 0);
        st.columns = c;
        t = t.join(ct);
        if st.columns.len() > 0 && r.chance(20) {
            // a table constraint at the end of the list
            let mut l = t.0.pop().unwrap();
            if t.0.last().unwrap().0 == "," { t.0.pop(); }
            t = t.w(",").k("UNIQUE").w("(").w("c").w(")");
            std::mem::swap(&mut l, &mut (")".into(), false)); t = t.w(")");
            st.constraints = match Parser::parse_sql(&GenericDialect {}, "CREATE TABLE x (c INT, UNIQUE (c))").unwrap().remove(0) { S::CreateTable(c) => c.constraints, _ => panic!() };
        }
    }
    let f = *r.pick(&["parquet", "CSV", "Delta"]);
    st.file_type = f.to_uppercase();
    let (l, lt) = lit(r);
    st.location = l;
    let mut clauses: Vec<Text> = vec![Text::default().k("STORED AS").w(f), Text::default().k("LOCATION").w(&lt)];
    if r.chance(40) { let (o, ot) = options(r); st.options = o; clauses.push(Text::default().k("OPTIONS").join(ot)) }
    if r.chance(40) {
        if r.chance(50) { let (p, pt) = partitions(r); if p.len() > 0 { st.table_partition_cols = p; clauses.push(Text::default().k("PARTITIONED BY").join(pt)) } }
        else { let (c, ct) = columns(r, 1); st.table_partition_cols = c.iter().map(|c| c.name.to_string()).collect(); st.columns.extend(c); clauses.push(Text::default().k("PARTITIONED BY").join(ct)) }
    }
    shuffle(r, &mut clauses);
    // any number of orderings, kept in the order they are written
    let mut at = 0;
    for _ in 0..r.below(3) { let (o, ot) = order(r); st.order_exprs.push(o); at += r.below((clauses.len() - at + 1) as _) as usize; clauses.insert(at, Text::default().k("WITH ORDER").join(ot)); at += 1; }
    for c in clauses { t = t.join(c) }
    (Statement::CreateExternalTable(st), t)
}
fn gen_function(r: &mut Rng) -> (Statement, Text) {
    let or_replace = r.chance(50);
    let (name, nt) = object(r);
    let mut t = Text::default().k("CREATE");
    if or_replace { t = t.k("OR REPLACE") }
    t = t.k("FUNCTION").join(nt).k("AS");
    let body = if r.chance(50) { let (v, s) = lit(r); t = t.w(&s); Value::SingleQuotedString(v) }
        else { let tag = *r.pick(&[None::<&str>, Some("tag")]); let v = *r.pick(&["{\"entrypoint\": \"f\"; 'x'}", "a b -- c", ";;"]); let d = tag.map(|t| format!("${t}$")).unwrap_or("$$".into()); t = t.w(&format!("{d}{v}{d}")); Value::DollarQuotedString(sqlparser::ast::DollarQuotedString { value: v.into(), tag: tag.map(|t| t.into()) }) };
    (Statement::Statement(Box::new(S::CreateFunction(CreateFunction { or_replace, temporary: false, if_not_exists: false, name, args: None, return_type: None, function_body: Some(CreateFunctionBody::AsBeforeOptions(Expr::Value(body))), behavior: None, called_on_null: None, parallel: None, using: None, language: None, determinism_specifier: None, options: None, remote_connection: None }))), t)
}
const NATIVE: &[&str] = &[
    "CREATE TABLE t ( a INT NOT NULL , b TEXT )", "CREATE OR REPLACE TABLE t AS SELECT 1", "CREATE OR REPLACE VIEW v AS SELECT 1 AS a", "CREATE VIEW v AS SELECT ';'", "CREATE SCHEMA s",
    "CREATE TABLE IF NOT EXISTS t ( a INT )", "CREATE DATABASE d", "CREATE TEMPORARY TABLE t ( a INT )", "CREATE OR REPLACE TEMPORARY TABLE t ( a INT )", "CREATE TABLE t AS SELECT * FROM x",
    "INSERT INTO t VALUES ( 1 , 'a;b' )", "INSERT INTO t ( a ) SELECT b FROM u", "DELETE FROM t WHERE a = 1", "UPDATE t SET a = 1 , b = 'x' WHERE c > 2", "DROP TABLE IF EXISTS a , b", "DROP FUNCTION f",
    "DROP SCHEMA s", "DROP VIEW v", "ALTER TABLE a RENAME TO b", "EXPLAIN SELECT 1", "SHOW TABLES", "SET x = 'y'", "SELECT copy , vacuum FROM truncate", "SELECT 1 UNION ALL SELECT 2", "( SELECT 1 )", "VALUES ( 1 )",
];
fn gen(r: &mut Rng) -> (Statement, Text) {
    match r.below(9) {
        0 => { let (l, lt) = lit(r); let (n, nt) = object(r); (Statement::CopyTo(CopyToStatement { source: CopyToSource::Relation(n), target: l, options: vec![copy_marker()], partitioned_by: vec![], stored_as: None }), Text::default().k("CONVERT").w(&lt).k("TO DELTA").join(nt)) }
        1 => { let (n, nt) = object(r); (trunc(n, None, false), Text::default().k("VACUUM TABLE").join(nt)) }
        2 => { let (d, dt) = ident(r); (trunc(ObjectName(vec![]), Some(vec![Expr::Identifier(d)]), false), Text::default().k("VACUUM DATABASE").w(&dt)) }
        3 => { let (n, nt) = object(r); (trunc(n, None, true), Text::default().k("TRUNCATE TABLE").join(nt)) }
        4 => gen_copy(r), 5 => gen_external(r), 6 => gen_function(r),
        _ => { let s = *r.pick(NATIVE); (Statement::Statement(Box::new(Parser::parse_sql(&GenericDialect {}, s).unwrap().remove(0))), Text::default().w(s)) }
    }
}
fn show(x: &Result<Vec<Statement>, String>) -> String { match x { Ok(v) => format!("{} statements: {v:?}", v.len()).chars().take(1500).collect(), Err(e) => format!("error: {e}") } }
fn parse(s: &str) -> Result<Vec<Statement>, String> { match guard(|| DFParser::parse_sql(s)) { Ok(Ok(v)) => Ok(v.into_iter().collect()), Ok(Err(e)) => Err(e.to_string()), Err(p) => Err(format!("panic: {p}")) } }
fn check(keyname: &str, sql: &str, want: &[Statement]) {
    case();
    let got = parse(sql);
    if got.as_ref().ok().map(|v| &v[..] == want) != Some(true) { violation(keyname, sql, &show(&Ok(want.to_vec())), &show(&got)) }
}
fn refuse(keyname: &str, sql: &str) {
    case();
    let got = parse(sql);
    match &got { Err(e) if !e.starts_with("panic") => {} _ => violation(keyname, sql, "an error", &show(&got)) }
}

fn main() {
    assert_eq!(prop(), "c11");
    let mut r = Rng::new(seed());
    let k = if thorough() { 20 } else { 1 };
    for _ in 0..12_000 * k { let (s, t) = gen(&mut r); let sql = t.render(&mut r); check("statement", &sql, &[s]) }
    set("single statements of every form");
    for _ in 0..6_000 * k {
        let n = r.below(5);
        let (mut want, mut sql) = (vec![], String::new());
        for i in 0..n {
            let (s, t) = gen(&mut r);
            want.push(s);
            if i > 0 || r.chance(15) { for _ in 0..=(if r.chance(20) { 2 } else { 0 }) { sql.push_str(*r.pick(&[";", " ; ", ";\n"])) } }
            sql.push_str(&t.render(&mut r));
        }
        if r.chance(50) { sql.push_str(*r.pick(&[";", " ; ", ";;", "; -- end", " /* x */"])) }
        check("script", &sql, &want);
    }
    set("scripts of 0..4 statements");
    // two statements without a delimiter between them are refused (unless the second reads as a continuation, hence statements starting with a keyword that no clause starts with)
    for _ in 0..3_000 * k {
        let (_, a) = gen(&mut r);
        let second = *r.pick(&["VACUUM TABLE t", "TRUNCATE TABLE t", "COPY t TO 'x'", "DROP TABLE t", "UPDATE t SET a = 1"]);
        let sql = format!("{} {}", a.render(&mut r), second);
        // a trailing `name VACUUM` may read as an alias; only the documented forms end for certain
        if a.0[0].0 == "COPY" || a.0[0].0 == "VACUUM" || a.0[0].0 == "TRUNCATE" || a.0[0].0 == "CONVERT" || a.0.iter().any(|w| w.0 == "FUNCTION" || w.0 == "EXTERNAL") { refuse("missing delimiter", &sql) }
    }
    set("missing delimiters");
    for s in [
        "COPY t", "COPY TO 'x'", "COPY t TO 'x' TO 'y'", "COPY t TO 'x' STORED AS a STORED AS b", "COPY t TO 'x' OPTIONS (a b) OPTIONS (c d)", "COPY t TO 'x' PARTITIONED BY (a) PARTITIONED BY (b)",
        "COPY t TO 'x' WITH HEADER ROW", "COPY t TO 'x' OPTIONS ()", "COPY t TO 'x' OPTIONS (a b c)", "COPY t TO 'x' OPTIONS (a. b)", "COPY t TO 'x' PARTITIONED BY (a b)", "COPY t TO 'x' LOCATION 'y'", "COPY (SELECT 1 TO 'x'", "COPY SELECT 1 TO 'x'",
        "VACUUM", "VACUUM t", "VACUUM TABLE", "VACUUM DATABASE", "VACUUM DATABASE a.b", "VACUUM TABLE a,b", "VACUUM DATABASE a b", "VACUUM SCHEMA a", "TRUNCATE t", "TRUNCATE", "TRUNCATE TABLE a, b", "TRUNCATE TABLE a PARTITION (x)",
        "CONVERT 'x' TO DELTA", "CONVERT 'x' TO t", "CONVERT 'x' DELTA t", "CONVERT 'x' TO DELTA t u",
        "CREATE EXTERNAL TABLE t STORED AS x", "CREATE EXTERNAL TABLE t LOCATION 'x'", "CREATE EXTERNAL TABLE t STORED AS x LOCATION 'y' LOCATION 'z'", "CREATE EXTERNAL TABLE t STORED AS x STORED AS y LOCATION 'z'",
        "CREATE EXTERNAL TABLE t STORED AS x LOCATION 'y' DELIMITER ','", "CREATE EXTERNAL TABLE t STORED AS x LOCATION 'y' COMPRESSION TYPE gzip", "CREATE EXTERNAL TABLE t STORED AS x LOCATION 'y' WITH HEADER ROW",
        "CREATE EXTERNAL TABLE t STORED AS x LOCATION 'y' OPTIONS (a b) OPTIONS (c d)", "CREATE EXTERNAL TABLE t STORED AS x LOCATION 'y' PARTITIONED BY (a) PARTITIONED BY (b)", "CREATE EXTERNAL TABLE t STORED AS x LOCATION 'y' PARTITIONED BY (a INT, UNIQUE (a))",
        "CREATE EXTERNAL TABLE t STORED AS x LOCATION 'y' PARTITIONED BY (a INT, b)", "CREATE EXTERNAL t STORED AS x LOCATION 'y'", "CREATE EXTERNAL TABLE t (a INT b INT) STORED AS x LOCATION 'y'", "CREATE EXTERNAL TABLE t (a INT CONSTRAINT c) STORED AS x LOCATION 'y'",
        "CREATE FUNCTION f", "CREATE FUNCTION f AS", "CREATE FUNCTION f 'x'", "CREATE OR FUNCTION f AS 'x'", "CREATE", "CREATE OR REPLACE", "CREATE FUNCTION f AS 'x' 'y'",
    ] { refuse("refused", s); refuse("refused", &format!("SELECT 1; {s}; SELECT 2")) }
    set("refused forms, alone and inside a script");
    done();
}
