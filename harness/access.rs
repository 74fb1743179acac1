#![allow(dead_code, unused_imports, unused_variables)]
// C13: the real route table (`filters`) with the real handlers, authorization and statement classification, driven
// through warp's in-process test client. Stand-ins: the session behind the handlers (planning is DataFusion's; what
// would write is recorded instead of carried out) and the delta tables.
include!("common.rs");
use common::*;
include!(concat!(env!("OUT_DIR"), "/catalog_consts.rs"));
use std::sync::{Arc, Mutex, atomic::{AtomicI64, Ordering}};
pub mod catalog { pub use crate::{DEFAULT_DB, DEFAULT_SCHEMA}; }
pub mod config {
    pub mod context { pub const HTTP_REQUESTS: &str = "http_requests"; }
    pub mod schema {
//@verbatim src/config/schema.rs | struct HttpFrontend ; enum AccessSettings ; fn str_to_hex_hash ; const MEBIBYTES | skipuse=object_store_factory,config,metrics_exporter_prometheus
    }
}
#[path = "/repo/src/auth.rs"]
pub mod auth;
pub mod sqlx_parser {
    #[path = "/repo/src/datafusion/parser.rs"]
    pub mod parser;
}
pub mod facade {
    use super::*;
    use datafusion::catalog::{CatalogProvider, SchemaProvider, Session, TableProvider};
    use datafusion::catalog_common::memory::{MemoryCatalogProvider, MemorySchemaProvider};
    use datafusion::arrow::array::{Int64Array, RecordBatch, StringArray};
    use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
    use datafusion::datasource::MemTable;
    use datafusion::error::{DataFusionError, Result};
    use datafusion::physical_plan::{empty::EmptyExec, ExecutionPlan, SendableRecordBatchStream};
    use datafusion::prelude::{Expr, SessionConfig, SessionContext};
    use datafusion_common::tree_node::{TreeNode, TreeNodeRecursion};
    use datafusion_common::DFSchemaRef;
    use datafusion_expr::logical_plan::{Extension, LogicalPlan, UserDefinedLogicalNodeCore};
    use datafusion::sql::parser::Statement as DFStatement;
    /// a table: answers with the catalog it lives in and its version
    #[derive(Debug, Clone)]
    pub struct DeltaTable { pub uri: String, pub of: String, pub v: Arc<AtomicI64> }
    impl DeltaTable {
        pub fn table_uri(&self) -> String { self.uri.clone() }
        pub fn version(&self) -> i64 { self.v.load(Ordering::SeqCst) }
    }
    pub fn row_schema() -> SchemaRef { Arc::new(Schema::new(vec![Field::new("cat", DataType::Utf8, false), Field::new("v", DataType::Int64, false)])) }
    #[async_trait::async_trait]
    impl TableProvider for DeltaTable {
        fn as_any(&self) -> &dyn std::any::Any { self }
        fn schema(&self) -> SchemaRef { row_schema() }
        fn table_type(&self) -> datafusion::logical_expr::TableType { datafusion::logical_expr::TableType::Base }
        async fn scan(&self, s: &dyn Session, p: Option<&Vec<usize>>, f: &[Expr], l: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
            let b = RecordBatch::try_new(row_schema(), vec![Arc::new(StringArray::from(vec![self.of.clone()])), Arc::new(Int64Array::from(vec![self.version()]))])?;
            MemTable::try_new(row_schema(), vec![vec![b]])?.scan(s, p, f, l).await
        }
        async fn insert_into(&self, _: &dyn Session, _: Arc<dyn ExecutionPlan>, _: datafusion_expr::dml::InsertOp) -> Result<Arc<dyn ExecutionPlan>> { Ok(Arc::new(EmptyExec::new(Arc::new(Schema::empty())))) }
    }
    /// a statement of seafowl's own (or one DataFusion cannot plan alone)
    impl UserDefinedLogicalNodeCore for Own2 {
        fn name(&self) -> &str { "own" }
        fn inputs(&self) -> Vec<&LogicalPlan> { vec![] }
        fn schema(&self) -> &DFSchemaRef { &self.schema }
        fn expressions(&self) -> Vec<Expr> { vec![] }
        fn fmt_for_explain(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("own") }
        fn with_exprs_and_inputs(&self, _: Vec<Expr>, _: Vec<LogicalPlan>) -> Result<Self> { Ok(Own2 { text: self.text.clone(), schema: self.schema.clone() }) }
    }
    #[derive(Debug, PartialEq, Eq, Hash)]
    pub struct Own2 { pub text: String, pub schema: DFSchemaRef }
    impl PartialOrd for Own2 { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.text.partial_cmp(&o.text) } }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Ev { Read(String, String), Write(String, String), Load { cat: String, schema: String, table: String, kind: String, header: bool, cols: Option<String>, bytes: Vec<u8> } }
    pub struct FlightCfg { pub bind_host: String, pub bind_port: u16 }
    #[derive(Default)] pub struct FrontCfg { pub flight: Option<FlightCfg> }
    #[derive(Default)] pub struct Cfg { pub frontend: FrontCfg }
    impl Default for FlightCfg { fn default() -> Self { FlightCfg { bind_host: String::new(), bind_port: 0 } } }
    pub struct SeafowlContext { pub default_catalog: String, pub inner: SessionContext, pub log: Arc<Mutex<Vec<Ev>>>, pub v: Arc<AtomicI64>, pub config: Cfg, pub fail: Arc<AtomicI64> }
    fn session(def: &str, v: &Arc<AtomicI64>) -> SessionContext {
        let inner = SessionContext::new_with_config(SessionConfig::new().with_default_catalog_and_schema(def, "public").with_create_default_catalog_and_schema(false).with_information_schema(true));
        for c in ["default", "other"] { let cp = MemoryCatalogProvider::new(); let sp = MemorySchemaProvider::new();
            for t in ["t", "u"] { sp.register_table(t.into(), Arc::new(DeltaTable { uri: format!("{c}/{t}"), of: format!("{c}.{t}"), v: v.clone() })).unwrap(); }
            cp.register_schema("public", Arc::new(sp)).unwrap(); inner.register_catalog(c, Arc::new(cp)); }
        inner
    }
    fn writes(p: &LogicalPlan) -> bool {
        let mut w = false;
        p.apply_with_subqueries(|n| { if matches!(n, LogicalPlan::Dml(_) | LogicalPlan::Ddl(_) | LogicalPlan::Extension(_) | LogicalPlan::Copy(_)) { w = true } Ok(TreeNodeRecursion::Continue) }).unwrap();
        w
    }
    fn text(p: &LogicalPlan) -> String { if let LogicalPlan::Extension(e) = p { if let Some(o) = e.node.as_any().downcast_ref::<Own2>() { return o.text.clone() } } p.display_indent().to_string() }
    impl SeafowlContext {
        pub fn new() -> Arc<SeafowlContext> { let v = Arc::new(AtomicI64::new(7)); Arc::new(SeafowlContext { default_catalog: "default".into(), inner: session("default", &v), log: Default::default(), v, config: Cfg::default(), fail: Arc::new(AtomicI64::new(-1)) }) }
        pub fn scope_to_catalog(&self, c: String) -> Arc<SeafowlContext> { Arc::new(SeafowlContext { inner: session(&c, &self.v), default_catalog: c, log: self.log.clone(), v: self.v.clone(), config: Cfg::default(), fail: self.fail.clone() }) }
        pub async fn create_logical_plan_from_statement(&self, s: DFStatementOwn) -> Result<LogicalPlan> {
            let text = s.to_string();
            if let DFStatementOwn::Statement(b) = &s {
                let own = |t: &str| LogicalPlan::Extension(Extension { node: Arc::new(Own2 { text: t.to_string(), schema: Arc::new(datafusion_common::DFSchema::empty()) }) });
                let r = self.inner.state().statement_to_plan(DFStatement::Statement(b.clone())).await;
                return match r { Ok(p) => Ok(p), Err(e) => { use sqlparser::ast::Statement as S; if matches!(**b, S::Truncate { .. } | S::AlterTable { .. } | S::CreateFunction(_) | S::Drop { .. } | S::DropFunction { .. } | S::Delete(_) | S::Update { .. } | S::CreateTable(_)) { Ok(own(&text)) } else { Err(e) } } };
            }
            if let DFStatementOwn::CopyTo(c) = &s { if !c.options.contains(&crate::sqlx_parser::parser::CONVERT_TO_DELTA) { return self.inner.state().statement_to_plan(s).await } }
            if let DFStatementOwn::CreateExternalTable(_) = &s { return self.inner.state().statement_to_plan(s).await }
            Ok(LogicalPlan::Extension(Extension { node: Arc::new(Own2 { text, schema: Arc::new(datafusion_common::DFSchema::empty()) }) }))
        }
        pub async fn create_physical_plan(&self, p: &LogicalPlan) -> Result<Arc<dyn ExecutionPlan>> {
            let w = writes(p) && !matches!(p, LogicalPlan::Explain(_));
            self.log.lock().unwrap().push(if w { Ev::Write(self.default_catalog.clone(), text(p)) } else { Ev::Read(self.default_catalog.clone(), text(p)) });
            if w { if self.fail.fetch_sub(1, Ordering::SeqCst) == 0 { return Err(DataFusionError::Execution("the store is away".into())) } return Ok(Arc::new(EmptyExec::new(Arc::new(Schema::empty())))) }
            self.inner.state().create_physical_plan(p).await
        }
        pub async fn execute_stream(&self, p: Arc<dyn ExecutionPlan>) -> Result<SendableRecordBatchStream> { datafusion::physical_plan::execute_stream(p, self.inner.task_ctx()) }
        pub async fn file_to_table(&self, path: String, kind: &str, cols: Option<SchemaRef>, header: bool, schema: String, table: String) -> Result<DeltaTable> {
            let bytes = std::fs::read(&path).unwrap_or_else(|e| format!("<{e}>").into_bytes());
            if !path.ends_with(&format!(".{kind}")) { return Err(DataFusionError::Execution("extension".into())) }
            self.log.lock().unwrap().push(Ev::Load { cat: self.default_catalog.clone(), schema, table: table.clone(), kind: kind.into(), header, cols: cols.map(|c| format!("{c:?}")), bytes });
            if self.fail.fetch_sub(1, Ordering::SeqCst) == 0 { return Err(DataFusionError::Execution("the store is away".into())) }
            Ok(DeltaTable { uri: "x".into(), of: "x".into(), v: self.v.clone() })
        }
    }
    pub use crate::sqlx_parser::parser::Statement as DFStatementOwn;
}
pub mod context {
    pub use crate::facade::SeafowlContext;
    pub mod logical {
        use crate::facade::SeafowlContext;
        use crate::sqlx_parser::parser::{DFParser, Statement as DFStatement};
//@verbatim src/context/logical.rs | fn is_read_only ; fn is_statement_read_only ; impl SeafowlContext :: create_logical_plan ; impl SeafowlContext :: parse_query | skipuse=deltalake except=create_logical_plan_from_statement
    }
}
pub mod frontend {
    #[path = "/repo/src/frontend/http_utils.rs"]
    pub mod http_utils;
    pub mod http {
        use super::http_utils::{handle_rejection, into_response, ApiError};
        use crate::auth::{token_to_principal, AccessPolicy, Action, UserContext};
        use crate::catalog::DEFAULT_DB;
        use crate::config::context::HTTP_REQUESTS;
        use crate::config::schema::{str_to_hex_hash, AccessSettings, HttpFrontend, MEBIBYTES};
        use crate::context::logical::{is_read_only, is_statement_read_only};
        use crate::context::SeafowlContext;
        use crate::facade::DeltaTable;
        use parquet::data_type::AsBytes;
//@verbatim src/frontend/http.rs | fn filters | skipuse=deltalake,arrow_flight
    }
}
use config::schema::{AccessSettings as A, HttpFrontend};
use facade::*;
use sha2::Digest;
use warp::Filter;

fn sha(s: &str) -> String { hex::encode(sha2::Sha256::digest(s.as_bytes())) }
fn enc(s: &str) -> String { percent_encoding::utf8_percent_encode(s, percent_encoding::NON_ALPHANUMERIC).to_string() }
/// a setting, as one writes it in the configuration file
fn setting(r: &mut Rng, pws: &[&str]) -> (String, Set) { match r.below(5) { 0 => ("any".into(), Set::Any), 1 => ("off".into(), Set::Off), _ => { let p = *r.pick(pws); (sha(p), Set::Pw(p.into())) } } }
#[derive(Clone, Debug, PartialEq)]
enum Set { Any, Off, Pw(String) }
#[derive(Clone, Debug, PartialEq)]
enum Who { No(u16), Yes { read: bool, write: bool } }
/// who is asking, according to the configuration and the Authorization header
fn who(rd: &Set, wr: &Set, h: &Option<String>) -> Who {
    let Some(h) = h else { return if *rd == Set::Any || *wr == Set::Any { Who::Yes { read: *rd == Set::Any, write: *wr == Set::Any } } else { Who::No(401) } };
    let Some(t) = h.strip_prefix("Bearer ") else { return Who::No(401) };
    let p = |s: &Set| matches!(s, Set::Pw(_)); let m = |s: &Set| *s == Set::Pw(t.to_string());
    if !p(rd) && !p(wr) { return Who::No(400) }
    if m(wr) { Who::Yes { read: true, write: true } } else if m(rd) { Who::Yes { read: true, write: *wr == Set::Any } } else { Who::No(401) }
}
const PWS: [&str; 4] = ["reader", "writer", "", "Bearer writer"];
fn header(r: &mut Rng) -> Option<String> {
    Some(match r.below(16) { 0..=3 => return None, 4 => "Basic cmVhZGVyOndyaXRlcg==".into(), 5 => "Bearer".into(), 6 => "bearer writer".into(), 7 => "Bearer Bearer writer".into(), 8 => "Bearer wrong".into(), 9 => format!("Bearer {}", sha("writer")), 10 => "BearerBearer writer".into(), 11 => "writer".into(),
        12 | 13 => "Bearer reader".into(), _ => "Bearer writer".into() })
}
fn flight(r: &mut Rng) -> (HttpFrontend, Set, Set) {
    let (a, rd) = setting(r, &["reader", "reader", "writer", "Bearer writer"]); let (b, wr) = setting(r, &["writer", "writer", "reader", "Bearer writer"]);
    let c: HttpFrontend = serde_json::from_value(serde_json::json!({ "bind_host": "127.0.0.1", "bind_port": 1, "read_access": a, "write_access": b, "upload_data_max_length": 1, "cache_control": "max-age=1, public" })).unwrap();
    (c, rd, wr)
}
/// statements that leave everything as it is, with the rows they answer
fn reads(cat: &str, v: i64) -> Vec<(String, Option<String>)> {
    let o = if cat == "default" { "other" } else { "default" };
    let row = |c: &str, t: &str| Some(format!("{{\"cat\":\"{c}.{t}\",\"v\":{v}}}\n"));
    vec![("SELECT * FROM t".into(), row(cat, "t")), ("SELECT cat, v FROM public.u".into(), row(cat, "u")), (format!("SELECT * FROM {o}.public.t"), row(o, "t")),
        ("SELECT 'a.b' AS x".into(), Some("{\"x\":\"a.b\"}\n".into())), ("SELECT 1.5 AS x".into(), Some("{\"x\":1.5}\n".into())), ("VALUES (1)".into(), Some("{\"column1\":1}\n".into())), ("(SELECT 1 AS x)".into(), Some("{\"x\":1}\n".into())),
        ("WITH c AS (SELECT v FROM t) SELECT v AS w FROM c".into(), Some(format!("{{\"w\":{v}}}\n"))), ("SELECT 1 AS x UNION ALL SELECT 1".into(), Some("{\"x\":1}\n{\"x\":1}\n".into())), ("SELECT 'ä%20\"' AS \"x y\"".into(), Some("{\"x y\":\"ä%20\\\"\"}\n".into())),
        ("SHOW TABLES".into(), None), ("EXPLAIN SELECT * FROM t".into(), None), ("SELECT CAST(NULL AS BIGINT) AS n".into(), Some("{\"n\":null}\n".into()))]
}
/// statements that change something; `true`: may come in a POST script here
const WRITES: [&str; 24] = ["CREATE TABLE n (a INT)", "CREATE TABLE n AS SELECT 1 AS a", "INSERT INTO t VALUES ('x', 1)", "INSERT INTO t SELECT * FROM u", "DROP TABLE t", "CREATE SCHEMA s", "DELETE FROM t WHERE v = 1", "UPDATE t SET v = 2", "TRUNCATE TABLE t", "ALTER TABLE t RENAME TO n",
    "CREATE FUNCTION f AS '{}'", "VACUUM TABLE t", "COPY (SELECT 1) TO '/nowhere/x.parquet'", "COPY t TO '/nowhere/y.csv'", "CREATE EXTERNAL TABLE e STORED AS CSV LOCATION '/nowhere/z'", "CREATE VIEW w AS SELECT 1 AS a", "SELECT * INTO n FROM t", "(SELECT 1 AS a INTO n)", "WITH c AS (SELECT 1 AS v) SELECT v INTO n FROM c",
    "EXPLAIN ANALYZE INSERT INTO t SELECT * FROM u", "EXPLAIN ANALYZE SELECT * INTO n FROM t", "CONVERT '/nowhere/p' TO DELTA n", "EXPLAIN ANALYZE VERBOSE INSERT INTO t VALUES ('x', 1)", "VACUUM DATABASE default"];
struct Reply { status: u16, body: String, etag: Option<String>, ctype: Option<String>, vary: Option<String> }
async fn send<F>(f: &F, req: warp::test::RequestBuilder) -> Reply where F: Filter<Error = std::convert::Infallible> + Clone + Send + Sync + 'static, F::Extract: warp::Reply + Send {
    let r = req.reply(f).await; let h = |n: &str| r.headers().get(n).and_then(|v| v.to_str().ok()).map(|s| s.to_string());
    Reply { status: r.status().as_u16(), etag: h("etag"), ctype: h("content-type"), vary: h("vary"), body: String::from_utf8_lossy(r.body()).to_string() }
}
macro_rules! send { ($c:expr, $cfg:expr, $q:expr) => {{ let f = frontend::http::filters($c.clone(), $cfg.clone()).recover(|_r: warp::Rejection| async { Ok::<_, std::convert::Infallible>(warp::reply::with_status("rejected", warp::http::StatusCode::NOT_FOUND)) }); send(&f, $q).await }}; }
fn bare(c: &Arc<SeafowlContext>) -> Vec<Ev> { c.log.lock().unwrap().clone() }
fn is_write(e: &Ev) -> bool { !matches!(e, Ev::Read(..)) }
fn cat_of(e: &Ev) -> &str { match e { Ev::Read(c, _) | Ev::Write(c, _) => c, Ev::Load { cat, .. } => cat } }
fn schema_ok(ct: &Option<String>) -> bool { let Some(ct) = ct else { return false }; let Some(x) = ct.strip_prefix("application/json; arrow-schema=") else { return false }; let Ok(d) = percent_encoding::percent_decode_str(x).decode_utf8() else { return false }; serde_json::from_str::<datafusion::arrow::datatypes::Schema>(&d).is_ok() }
fn prefix(r: &mut Rng) -> (&'static str, &'static str) { match r.below(3) { 0 => ("", "default"), 1 => ("/default", "default"), _ => ("/other", "other") } }
async fn gets(r: &mut Rng) {
    for i in 0..if thorough() { 12_000 } else { 1500 } {
        case();
        let c = SeafowlContext::new(); let (cfg, rd, wr) = flight(r); let h = header(r); let (pre, cat) = prefix(r);
        let kind = r.below(10);
        let (sql, rows, write, bad) = if kind < 6 { let (s, o) = { let v = reads(cat, 7); let i = r.below(v.len() as u64) as usize; v[i].clone() }; (s, o, false, false) } else if kind < 9 { (r.pick(&WRITES).to_string(), None, true, false) } else { (r.pick(&["SELECT 1; SELECT 2", "", "SELEC", "SELECT * FROM nowhere"]).to_string(), None, false, true) };
        let tail = *r.pick(&["", "", ".csv", ".a.b"]);
        let how = if sql.is_empty() { 1 + r.below(3) } else { r.below(4) }; let wrong = how != 0 && r.chance(15);
        let path = if how == 0 { format!("{pre}/q/{}{tail}", enc(&sql)) } else { format!("{pre}/q/{}{tail}", if wrong { sha("something else") } else { sha(&sql) }) };
        let mk = |inm: Option<String>| { let mut q = warp::test::request().method("GET").path(&path); if let Some(h) = &h { q = q.header("authorization", h) } if let Some(e) = inm { q = q.header("if-none-match", e) }
            match how { 0 => q, 1 => q.header("x-seafowl-query", enc(&sql)), 2 => q.json(&serde_json::json!({ "query": enc(&sql) })), _ => q.header("x-seafowl-query", "SELECT%203").json(&serde_json::json!({ "query": enc(&sql) })) } };
        let what = format!("read={rd:?} write={wr:?} authorization={h:?} GET {pre}/q of {sql:?} (form {how}{})", if wrong { ", wrong hash" } else { "" });
        let g = send!(c, cfg, mk(None)); let log = bare(&c);
        let (st, run) = match who(&rd, &wr, &h) { Who::No(s) => (s, false), _ if rd == Set::Off => (405, false), Who::Yes { read: false, .. } => (403, false), _ if wrong || bad => (400, false), _ if write => (405, false), _ => (200, true) };
        let planned = !write || !(g.status == 400); // a write that DataFusion refuses to plan never runs either
        if (g.status != st && !(write && st == 405 && !planned)) || log.iter().any(is_write) || (run != !log.is_empty()) || log.iter().any(|e| cat_of(e) != cat) { violation("get", &what, &format!("status {st}, {}", if run { "answered from this catalog" } else { "nothing run" }), &format!("status {} {:?}, ran {log:?}", g.status, g.body.chars().take(120).collect::<String>())); continue }
        if !run { continue }
        if let Some(o) = rows { if o != g.body { violation("get", &what, &o, &g.body) } }
        if !schema_ok(&g.ctype) || !g.vary.as_deref().unwrap_or("").to_lowercase().contains("authorization") { violation("get", &what, "the schema in the content type; the answer varies by Authorization", &format!("{:?} {:?}", g.ctype, g.vary)) }
        // the validator
        let Some(e) = g.etag else { violation("etag", &what, "an ETag", "none"); continue };
        c.log.lock().unwrap().clear();
        let g2 = send!(c, cfg, mk(Some(e.clone())));
        if g2.status != 304 || !bare(&c).is_empty() { violation("etag", &what, "304 and nothing run while the versions are the same", &format!("{} {:?}", g2.status, bare(&c))) }
        c.v.store(8 + r.below(3) as i64, Ordering::SeqCst);
        let g3 = send!(c, cfg, mk(Some(e.clone()))); let uses = sql.contains(" t") || sql.contains(".u") || sql.contains(".t");
        if uses && !sql.starts_with("SHOW") && (g3.status != 200 || g3.etag.as_ref() == Some(&e)) { violation("etag", &what, "200 with another ETag after the table changed", &format!("{} {:?}", g3.status, g3.etag)) }
    }
    set("GET requests");
}
async fn posts(r: &mut Rng) {
    for _ in 0..if thorough() { 12_000 } else { 1500 } {
        case();
        let c = SeafowlContext::new(); let (cfg, rd, wr) = flight(r); let h = header(r); let (pre, cat) = prefix(r);
        let n = r.below(4); let mut st: Vec<(String, bool, Option<String>)> = vec![];
        for _ in 0..n { if r.chance(35) { let v = reads(cat, 7); let (s, o) = v[r.below(v.len() as u64) as usize].clone(); st.push((s, false, o)) } else { st.push((r.pick(&WRITES).to_string(), true, None)) } }
        let bad = n > 0 && r.chance(8); let sql = format!("{}{}", st.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join("; "), if bad { "; SELEC" } else { "" });
        let body = !r.chance(5);
        let nr = st.iter().filter(|x| !x.1).count();
        let mut q = warp::test::request().method("POST").path(&format!("{pre}/q")); if let Some(h) = &h { q = q.header("authorization", h) }
        q = if body { q.json(&serde_json::json!({ "query": sql })) } else { q.body("{}") };
        let g = send!(c, cfg, q); let log = bare(&c);
        let what = format!("read={rd:?} write={wr:?} authorization={h:?} POST {pre}/q {sql:?}{}", if body { "" } else { " (no body)" });
        let (code, runs) = match who(&rd, &wr, &h) { Who::No(s) => (s, false), _ if !body || bad || n == 0 => (400, false), Who::Yes { read, write } => if nr as u64 == n && !read || (nr as u64) < n && !write { (403, false) } else if nr > 1 || nr == 1 && st.last().unwrap().1 { (400, false) } else { (200, true) } };
        let kinds: Vec<bool> = log.iter().map(is_write).collect(); let want: Vec<bool> = st.iter().map(|x| x.1).collect();
        // a statement DataFusion cannot plan here ends the script with 400, after the ones before it
        let ended = g.status == 400 && runs && kinds.len() < want.len() && kinds[..] == want[..kinds.len()];
        if !ended && (g.status != code || (runs && kinds != want)) || (!runs && !log.is_empty()) || log.iter().any(|e| cat_of(e) != cat) { violation("post", &what, &format!("status {code}, {}", if runs { format!("run in order in this catalog (true: a write) {want:?}") } else { "nothing run".into() }), &format!("status {} {:?}, ran {log:?}", g.status, g.body.chars().take(160).collect::<String>())); continue }
        if runs && !ended && nr == 1 { if let Some(o) = &st.last().unwrap().2 { if *o != g.body { violation("post", &what, o, &g.body) } } if !schema_ok(&g.ctype) { violation("post", &what, "the schema in the content type", &format!("{:?}", g.ctype)) } }
    }
    // a write that fails ends the script there
    for k in 0..3i64 {
        case(); let c = SeafowlContext::new(); c.fail.store(k, Ordering::SeqCst);
        let cfg: HttpFrontend = serde_json::from_value(serde_json::json!({ "write_access": "any" })).unwrap();
        let g = send!(c, cfg, warp::test::request().method("POST").path("/q").json(&serde_json::json!({ "query": "DROP TABLE t; DROP TABLE u; DROP TABLE t" })));
        if g.status != 400 || bare(&c).len() != k as usize + 1 { violation("post", &format!("three writes, the one with index {k} fails"), "400, nothing after it run", &format!("{} {:?}", g.status, bare(&c))) }
    }
    set("POST scripts");
}
async fn uploads(r: &mut Rng) {
    for _ in 0..if thorough() { 6000 } else { 700 } {
        case();
        let c = SeafowlContext::new(); let (cfg, rd, wr) = flight(r); let h = header(r); let (pre, cat) = prefix(r);
        if r.chance(5) { c.fail.store(0, Ordering::SeqCst) } let fail = c.fail.load(Ordering::SeqCst) == 0;
        let name = *r.pick(&["a.csv", "a.csv", "b.parquet", "x.y.csv", "d.json", "noext", "csv", "", "e.CSV"]);
        let n = *r.pick(&[0usize, 1, 10, 100, 5000, 70_000]); let data: Vec<u8> = (0..n).map(|_| b'a' + r.below(26) as u8).collect();
        let mut parts: Vec<(u8, Vec<u8>, String)> = vec![];
        let hd = *r.pick(&["true", "false", "trueish", "True", ""]); if r.chance(60) { parts.push((0, hd.as_bytes().to_vec(), "Content-Disposition: form-data; name=\"has_header\"".into())) }
        let cols = serde_json::to_string(&*row_schema()).unwrap(); let sk = r.below(4);
        if sk < 2 { parts.push((1, cols.clone().into_bytes(), "Content-Disposition: form-data; name=\"schema\"".into())) } else if sk == 2 && r.chance(40) { parts.push((2, b"{".to_vec(), "Content-Disposition: form-data; name=\"schema\"".into())) }
        let field = *r.pick(&["data", "file"]);
        let with_file = !r.chance(8); if with_file { parts.push((3, data.clone(), format!("Content-Disposition: form-data; name=\"{field}\"; filename=\"{name}\""))) }
        if r.chance(20) { parts.push((4, b"junk".to_vec(), "Content-Disposition: form-data; name=\"comment\"".into())) }
        if r.chance(50) { parts.reverse() }
        let mut b: Vec<u8> = vec![]; for (_, v, hh) in &parts { b.extend(format!("--XX\r\n{hh}\r\n\r\n").into_bytes()); b.extend(v); b.extend(b"\r\n") } b.extend(b"--XX--\r\n");
        let hdr = parts.iter().find(|x| x.0 == 0).map(|_| hd.starts_with("true")).unwrap_or(true);
        let (has_cols, bad_cols) = (parts.iter().any(|x| x.0 == 1), parts.iter().any(|x| x.0 == 2));
        let path = format!("{pre}/upload/public/tab");
        let mut q = warp::test::request().method("POST").path(&path).header("content-type", "multipart/form-data; boundary=XX").header("content-length", b.len().to_string()).body(b); if let Some(h) = &h { q = q.header("authorization", h) }
        let g = send!(c, cfg, q); let log = bare(&c);
        let ext = name.rsplit('.').next().unwrap();
        let (code, run) = match who(&rd, &wr, &h) { Who::No(s) => (s, false), Who::Yes { write: false, .. } => (403, false), _ if bad_cols || !with_file || (ext != "csv" && ext != "parquet") => (400, false), _ if fail => (400, true), _ => (200, true) };
        let want = if run { vec![Ev::Load { cat: cat.into(), schema: "public".into(), table: "tab".into(), kind: ext.into(), header: hdr, cols: if has_cols { Some(format!("{:?}", row_schema())) } else { None }, bytes: data.clone() }] } else { vec![] };
        let same = log == want;
        if g.status != code || !same { let cut = |v: &Vec<Ev>| v.iter().map(|e| if let Ev::Load { cat, schema, table, kind, header, cols, bytes } = e { format!("{cat}.{schema}.{table} {kind} header={header} columns={} {} bytes", cols.is_some(), bytes.len()) } else { format!("{e:?}") }).collect::<Vec<_>>().join("; "); violation("upload", &format!("read={rd:?} write={wr:?} authorization={h:?} POST {path} with {:?} (file {name:?})", parts.iter().map(|x| ["has_header", "schema", "bad schema", "file", "other"][x.0 as usize]).collect::<Vec<_>>()), &format!("status {code}, [{}]", cut(&want)), &format!("status {} {:?}, [{}]", g.status, g.body.chars().take(120).collect::<String>(), cut(&log))) }
        else if run && !fail && !g.body.contains(&format!("{name} appended to table tab version 7")) { violation("upload", &path, "the file and table named in the answer", &g.body) }
    }
    set("uploads");
}
fn main() {
    let mut r = Rng::new(seed() ^ 13);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    match prop().as_str() { "c13" => rt.block_on(async { gets(&mut r).await; posts(&mut r).await; uploads(&mut r).await }), p => panic!("VERIF-HARNESS unknown property {p}") }
    done();
}
