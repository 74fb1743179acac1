#![allow(dead_code, unused_imports)]
#[path = "/repo/src/version.rs"]
pub mod version;
include!("common.rs");
use common::*;
use datafusion::arrow::array::{Array, Int64Array, StringArray, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::prelude::{SessionContext, SessionConfig, Expr};
use sqlparser::ast::{Query, Statement, VisitMut};
use std::collections::HashMap;
use std::sync::Arc;
include!(concat!(env!("OUT_DIR"), "/catalog_consts.rs"));

/// stand-ins for the parts of the server around the rewrite: a catalog of tables by exact name, and delta tables that
/// answer with their identity and the instant they were loaded at (-1: the latest version)
pub mod facade {
    use super::*;
    use datafusion::catalog::{Session, TableProvider};
    use datafusion::datasource::MemTable;
    use datafusion::error::{DataFusionError, Result};
    use datafusion::sql::TableReference;
    use datafusion::physical_plan::ExecutionPlan;
    #[derive(Debug, Clone)]
    pub struct LogStore(pub String);
    #[derive(Debug, Clone)]
    pub struct DeltaTable { pub store: String, pub at: i64 }
    #[derive(Default)]
    pub struct Cfg;
    pub struct Objs;
    impl Objs { pub fn get_log_store(&self, s: &str) -> LogStore { LogStore(s.into()) } }
    impl DeltaTable {
        pub fn new(l: LogStore, _c: Cfg) -> DeltaTable { DeltaTable { store: l.0, at: -1 } }
        pub async fn load_with_datetime(&mut self, d: chrono::DateTime<chrono::Utc>) -> Result<()> { self.at = d.timestamp_nanos_opt().unwrap_or(d.timestamp()); Ok(()) }
    }
    pub fn row_schema() -> SchemaRef { Arc::new(Schema::new(vec![Field::new("id", DataType::Utf8, false), Field::new("at", DataType::Int64, false)])) }
    #[async_trait::async_trait]
    impl TableProvider for DeltaTable {
        fn as_any(&self) -> &dyn std::any::Any { self }
        fn schema(&self) -> SchemaRef { row_schema() }
        fn table_type(&self) -> datafusion::logical_expr::TableType { datafusion::logical_expr::TableType::Base }
        async fn scan(&self, s: &dyn Session, p: Option<&Vec<usize>>, f: &[Expr], l: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
            let b = RecordBatch::try_new(row_schema(), vec![Arc::new(StringArray::from(vec![self.store.clone()])), Arc::new(Int64Array::from(vec![self.at]))])?;
            MemTable::try_new(row_schema(), vec![vec![b]])?.scan(s, p, f, l).await
        }
    }
    pub struct SeafowlContext { pub default_catalog: String, pub default_schema: String, pub inner: SessionContext, pub tables: HashMap<(String, String, String), uuid::Uuid> }
    impl SeafowlContext {
        pub async fn get_table_uuid(&self, name: impl Into<TableReference>) -> Result<uuid::Uuid> {
            let r = name.into().resolve(&self.default_catalog, &self.default_schema);
            self.tables.get(&(r.catalog.to_string(), r.schema.to_string(), r.table.to_string())).copied().ok_or_else(|| DataFusionError::Execution(format!("no table {r}")))
        }
        pub fn get_internal_object_store(&self) -> Result<Objs> { Ok(Objs) }
    }
}
pub mod logical {
    use super::facade::*;
    use super::version::TableVersionProcessor;
    use super::DEFAULT_SCHEMA;
//@verbatim src/context/logical.rs | impl SeafowlContext :: rewrite_time_travel_query | skipuse=deltalake
    pub async fn go(c: &SeafowlContext, q: &mut Query) -> Result<SessionState> { c.rewrite_time_travel_query(q).await }
}
use facade::*;

fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }
fn days(y: i64, m: i64, d: i64) -> i64 { let y = if m <= 2 { y - 1 } else { y }; let era = y.div_euclid(400); let yoe = y - era * 400; let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1; era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468 }
fn mlen(y: i64, m: i64) -> i64 { match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, _ => if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 } } }
/// a version text and the instant (in nanoseconds) it denotes
fn ver(r: &mut Rng) -> (String, i64) {
    let y = 1900 + r.below(300) as i64; let m = 1 + r.below(12) as i64; let d = 1 + r.below(mlen(y, m) as u64) as i64;
    let (h, mi, s) = (r.below(24) as i64, r.below(60) as i64, r.below(60) as i64);
    let off = *r.pick(&[0i64, 60, 120, -300, 330, -720, 840, -1, 59]);
    let t = days(y, m, d) * 86400 + h * 3600 + mi * 60 + s;
    let (sg, oh, om) = (if off < 0 { '-' } else { '+' }, off.abs() / 60, off.abs() % 60);
    const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    const DAY: [&str; 7] = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"];
    let wd = DAY[days(y, m, d).rem_euclid(7) as usize]; let mo = MON[m as usize - 1];
    let z = 1_000_000_000i64;
    match r.below(9) {
        0 => (format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{sg}{oh:02}:{om:02}"), (t - off * 60) * z),
        1 => (format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}Z"), t * z),
        2 => (format!("{y:04}-{m:02}-{d:02}t{h:02}:{mi:02}:{s:02}z"), t * z),
        3 => { let ms = r.below(1000) as i64; (format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}.{ms:03}{sg}{oh:02}:{om:02}"), (t - off * 60) * z + ms * 1_000_000) }
        4 => (format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02} {sg}{oh:02}:{om:02}"), (t - off * 60) * z),
        5 => (format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02} {sg}{oh:02}{om:02}"), (t - off * 60) * z),
        6 | 7 => (format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02}"), t * z),
        _ => (format!("{wd}, {d:02} {mo} {y:04} {h:02}:{mi:02}:{s:02} {sg}{oh:02}{om:02}"), (t - off * 60) * z),
    }
}
const BAD: [&str; 14] = ["", "latest", "1", "2020-01-01", "2020-13-01 00:00:00", "2020-02-30 00:00:00", "2020-01-01 00:00", "1500000000", "2020-01-01 25:00:00 +00:00", "2020-01-01T00:00:00", "01/02/2020 00:00:00", "2020-01-01 00:00:00 Europe/Berlin", "now()", "Mon, 14 Jul 2017 02:40:00 +0000"];
fn instants(r: &mut Rng) {
    for _ in 0..if thorough() { 200_000 } else { 20_000 } {
        case(); let (v, t) = ver(r);
        match guard(|| version::TableVersionProcessor::version_to_datetime(&v)) { Ok(Ok(d)) if d.timestamp_nanos_opt() == Some(t) => {}, g => violation("instant", &format!("version {v:?}"), &format!("{t} ns since 1970 UTC"), &format!("{g:?}")) }
    }
    for v in BAD { case(); match guard(|| version::TableVersionProcessor::version_to_datetime(v)) { Ok(Err(_)) => {}, g => violation("instant", &format!("version {v:?}"), "refused: denotes no instant", &format!("{g:?}")) } }
    set("version texts");
}
const NAMES: [&str; 10] = ["t", "T", "my table", "My.Table", "a\"b", "public", "ä", "Ä", "test_table", "t:x"];
const SCHEMAS: [&str; 4] = ["public", "Public", "s x", "default"];
const CATALOGS: [&str; 2] = ["default", "Default"];
fn fold(s: &str) -> String { s.chars().map(|c| if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c }).collect() }
fn plain(s: &str) -> bool { s.chars().all(|c| c.is_alphanumeric() || c == '_') }
/// one way of writing an identifier that denotes `s`
fn ident(r: &mut Rng, s: &str) -> String {
    if plain(s) && fold(s) == s && r.chance(50) { s.chars().map(|c| if c.is_ascii_lowercase() && r.chance(40) { c.to_ascii_uppercase() } else { c }).collect() }
    else if r.chance(20) && !s.contains('"') { format!("`{s}`") } else { format!("\"{}\"", s.replace('"', "\"\"")) }
}
fn ctx() -> SeafowlContext {
    use datafusion::catalog_common::memory::{MemoryCatalogProvider, MemorySchemaProvider};
    use datafusion::catalog::{CatalogProvider, SchemaProvider};
    let inner = SessionContext::new_with_config(SessionConfig::new().with_default_catalog_and_schema("default", "public").with_create_default_catalog_and_schema(false));
    let mut tables = HashMap::new();
    for c in CATALOGS { let cp = MemoryCatalogProvider::new();
        for s in SCHEMAS { let sp = MemorySchemaProvider::new();
            for n in NAMES { let u = uuid::Uuid::from_u128(tables.len() as u128 + 1); tables.insert((c.to_string(), s.to_string(), n.to_string()), u); sp.register_table(n.into(), Arc::new(DeltaTable { store: u.to_string(), at: -1 })).unwrap(); }
            cp.register_schema(s, Arc::new(sp)).unwrap(); }
        inner.register_catalog(c, Arc::new(cp)); }
    SeafowlContext { default_catalog: "default".into(), default_schema: "public".into(), inner, tables }
}
async fn run(c: &SeafowlContext, sql: &str) -> Result<Vec<(String, i64)>, String> {
    let mut st = datafusion::sql::parser::DFParser::parse_sql(sql).map_err(|e| format!("parse: {e}"))?;
    let mut s = st.pop_front().unwrap();
    let state = { let datafusion::sql::parser::Statement::Statement(b) = &mut s else { return Err("not a query".into()) }; let Statement::Query(q) = &mut **b else { return Err("not a query".into()) };
        logical::go(c, q).await.map_err(|e| format!("rewrite: {e}"))? };
    let plan = state.statement_to_plan(s).await.map_err(|e| format!("plan: {e}"))?;
    let plan = state.create_physical_plan(&plan).await.map_err(|e| format!("plan: {e}"))?;
    let bs = datafusion::physical_plan::collect(plan, state.task_ctx()).await.map_err(|e| format!("run: {e}"))?;
    let mut v = vec![];
    for b in bs { let a = b.column(0).as_any().downcast_ref::<StringArray>().ok_or("type")?; let t = b.column(1).as_any().downcast_ref::<Int64Array>().ok_or("type")?; for i in 0..b.num_rows() { v.push((a.value(i).to_string(), t.value(i))); } }
    v.sort(); Ok(v)
}
fn queries(r: &mut Rng) {
    let rt = rt();
    for _ in 0..if thorough() { 20_000 } else { 1_200 } {
        case();
        let c = ctx();
        let k = 1 + r.below(3);
        let mut sql = vec![]; let mut want: Vec<(String, i64)> = vec![]; let mut bad = false;
        let shared = ver(r);
        for _ in 0..k {
            let (cat, sch, tab) = (*r.pick(&CATALOGS), *r.pick(&SCHEMAS), *r.pick(&NAMES));
            let (name, key) = match r.below(3) { 0 => (ident(r, tab), ("default", "public", tab)), 1 => (format!("{}.{}", ident(r, sch), ident(r, tab)), ("default", sch, tab)), _ => (format!("{}.{}.{}", ident(r, cat), ident(r, sch), ident(r, tab)), (cat, sch, tab)) };
            let id = c.tables[&(key.0.to_string(), key.1.to_string(), key.2.to_string())].to_string();
            let (reference, at) = match r.below(20) { 0..=2 => (name.clone(), -1), 3 => { bad = true; (format!("{name}('{}')", r.pick(&BAD)), 0) }, _ => { let (v, t) = if r.chance(40) { shared.clone() } else { ver(r) }; (format!("{name}('{v}')"), t) } };
            want.push((id, at));
            let q = match r.below(7) {
                0 => format!("SELECT id, at FROM {reference}"),
                1 => format!("SELECT x.id, x.at FROM {reference} AS x"),
                2 => format!("SELECT * FROM (SELECT id, at FROM {reference}) s"),
                3 => format!("SELECT * FROM (WITH c AS (SELECT id, at FROM {reference}) SELECT id, at FROM c) d"),
                4 => format!("SELECT (SELECT max(id) FROM {reference}) AS id, (SELECT max(at) FROM {reference}) AS at"),
                5 => format!("SELECT id, at FROM {reference} AS y WHERE id IN (SELECT id FROM {reference} AS z)"),
                _ => format!("SELECT l.id, r.at FROM {reference} AS l JOIN {reference} AS r ON l.id = r.id"),
            };
            sql.push(q);
        }
        let sql = sql.join(" UNION ALL ");
        want.sort();
        let g = guard(|| rt.block_on(run(&c, &sql)));
        match (&g, bad) { (Ok(Ok(v)), false) if *v == want => {}, (Ok(Err(_)), true) => {}, _ => violation("answer", &sql, &if bad { "refused: a version denotes no instant".to_string() } else { format!("{want:?} (table, instant in ns; -1 latest; tables numbered in order of catalog, schema, name)") }, &format!("{g:?}")) }
    }
    set("queries answered");
    // everything else stays as it was written
    for q in ["SELECT * FROM t", "SELECT * FROM t(1)", "SELECT * FROM t('a', 'b')", "SELECT * FROM t()", "SELECT * FROM t(x)", "SELECT * FROM t(a => '2020-01-01 00:00:00')", "SELECT * FROM t(\"2020\")", "SELECT f('2020-01-01 00:00:00') FROM t", "SELECT '2020-01-01 00:00:00'", "SELECT * FROM t AS f WHERE f.x = lower('A')", "SELECT * FROM t(NULL)", "SELECT * FROM t(X'41')", "SELECT * FROM t(E'a')", "SELECT * FROM t(N'a')", "SELECT * FROM t(*)", "SELECT * FROM t('a' || 'b')", "SELECT * FROM t(('a'))"] {
        case();
        let Ok(mut st) = sqlparser::parser::Parser::parse_sql(&sqlparser::dialect::GenericDialect {}, q) else { continue };
        let before = st[0].to_string();
        let g = guard(|| { let mut p = version::TableVersionProcessor::new("default".into(), "public".into()); st[0].visit(&mut p); p.table_versions.len() });
        if g != Ok(0) || st[0].to_string() != before { violation("rewrite", q, &format!("left as {before}"), &format!("{} ({g:?} versions)", st[0])) }
    }
    set("other references");
    // the rest of a rewritten reference stays
    for (q, w) in [("SELECT * FROM t('v') AS x (a, b)", "SELECT * FROM t:v AS x (a, b)"), ("SELECT * FROM S.T('V') x JOIN t(1) ON x.a = t.b", "SELECT * FROM S.t:v AS x JOIN t(1) ON x.a = t.b"), ("SELECT * FROM \"T\"('V')", "SELECT * FROM \"T:v\"")] {
        case();
        let mut st = sqlparser::parser::Parser::parse_sql(&sqlparser::dialect::GenericDialect {}, q).unwrap();
        let g = guard(|| { let mut p = version::TableVersionProcessor::new("default".into(), "public".into()); st[0].visit(&mut p); p.table_versions.len() });
        if g != Ok(1) || st[0].to_string() != w { violation("rewrite", q, w, &format!("{} ({g:?} versions)", st[0])) }
    }
    set("rewritten references");
}
fn main() { let mut r = Rng::new(seed() ^ 10); match prop().as_str() { "c10" => { instants(&mut r); queries(&mut r) } p => panic!("VERIF-HARNESS unknown property {p}") } done(); }
