#![feature(let_chains)]
#![allow(dead_code, unused_imports, unused_variables, ambiguous_glob_reexports, hidden_glob_reexports)]
// C20: the real planning and execution of CREATE, DROP, ALTER and CONVERT (src/context/logical.rs, physical.rs, delta.rs), next to a model
// of what each statement does to databases, schemas, tables and functions; the catalog and deltalake are stand-ins that keep what they are
// told, and the catalog refuses every change from a chosen one on in some histories (as a read-only one, or one that went away, does).
include!("common.rs");
use common::*;
pub mod datafusion_ext {
    #[path = "/repo/src/datafusion/parser.rs"]
    pub mod parser;
    #[path = "/repo/src/datafusion/utils.rs"]
    pub mod utils;
}
pub mod wasm_udf {
    #[path = "/repo/src/wasm_udf/data_types.rs"]
    pub mod data_types;
}
#[path = "/repo/src/nodes.rs"]
pub mod nodes;
pub mod deltalake {
    use std::sync::Arc; use object_store::{ObjectStore, path::Path, prefix::PrefixStore}; use arrow_schema::{Schema, SchemaRef}; use futures::TryStreamExt; use datafusion::{catalog::Session, datasource::TableProvider};
    pub mod errors { #[derive(Debug)] pub struct DeltaTableError(pub String); impl std::fmt::Display for DeltaTableError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } } impl std::error::Error for DeltaTableError {}
        impl From<DeltaTableError> for datafusion_common::DataFusionError { fn from(e: DeltaTableError) -> Self { datafusion_common::DataFusionError::External(Box::new(e)) } } }
    pub use errors::DeltaTableError; use errors::DeltaTableError as E;
    pub const LOG: &str = "_delta_log/0.json";
    /// the objects below the prefix of one table
    #[derive(Debug)] pub struct Log { pub store: Arc<dyn ObjectStore>, pub uuid: String }
    impl Log { pub async fn has(&self) -> bool { self.store.head(&Path::from(LOG)).await.is_ok() }
        pub async fn make(&self, s: &Schema) { let t: Vec<String> = s.fields().iter().map(|f| format!("{}\t{}", f.name(), f.data_type())).collect(); self.store.put(&Path::from(LOG), t.join("\n").into_bytes().into()).await.unwrap(); } }
    #[derive(Debug, Clone)] pub struct DeltaTable { pub log: Arc<Log>, pub schema: SchemaRef }
    impl std::fmt::Display for DeltaTable { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.log.uuid) } }
    impl DeltaTable { pub fn new(log: Arc<Log>, _: Option<()>) -> Self { DeltaTable { log, schema: Arc::new(Schema::empty()) } } pub async fn load(&mut self) -> Result<(), E> { if self.log.has().await { Ok(()) } else { Err(E("no log".into())) } }
        pub fn object_store(&self) -> Arc<dyn ObjectStore> { self.log.store.clone() } pub fn log_store(&self) -> Arc<Log> { self.log.clone() } pub fn table_uri(&self) -> String { format!("memory://{}", self.log.uuid) } }
    #[async_trait::async_trait] impl TableProvider for DeltaTable { fn as_any(&self) -> &dyn std::any::Any { self } fn schema(&self) -> SchemaRef { self.schema.clone() } fn table_type(&self) -> datafusion_expr::TableType { datafusion_expr::TableType::Base }
        async fn scan(&self, _: &dyn Session, _: Option<&Vec<usize>>, _: &[datafusion_expr::Expr], _: Option<usize>) -> datafusion_common::Result<Arc<dyn datafusion::physical_plan::ExecutionPlan>> { panic!("VERIF-HARNESS a scan") } }
    pub mod kernel { use arrow_schema::FieldRef; pub struct Schema(Vec<FieldRef>); impl TryFrom<&arrow_schema::Schema> for Schema { type Error = super::E; fn try_from(s: &arrow_schema::Schema) -> Result<Self, super::E> { Ok(Schema(s.fields().iter().cloned().collect())) } } impl Schema { pub fn fields(&self) -> std::slice::Iter<'_, FieldRef> { self.0.iter() } } impl From<super::E> for arrow_schema::ArrowError { fn from(e: super::E) -> Self { arrow_schema::ArrowError::SchemaError(e.0) } } }
    pub mod protocol { pub enum SaveMode { Append, Overwrite } }
    pub mod operations {
        use super::*; use std::{future::*, pin::Pin};
        pub mod create { use super::*; #[derive(Default)] pub struct CreateBuilder(Option<Arc<Log>>, Vec<arrow_schema::FieldRef>);
            impl CreateBuilder { pub fn new() -> Self { Self::default() } pub fn with_log_store(mut self, l: Arc<Log>) -> Self { self.0 = Some(l); self } pub fn with_table_name(self, _: impl Into<String>) -> Self { self } pub fn with_columns(mut self, c: impl IntoIterator<Item = arrow_schema::FieldRef>) -> Self { self.1 = c.into_iter().collect(); self } pub fn with_comment(self, _: impl Into<String>) -> Self { self } }
            impl IntoFuture for CreateBuilder { type Output = Result<DeltaTable, E>; type IntoFuture = Pin<Box<dyn Future<Output = Self::Output> + Send>>; fn into_future(self) -> Self::IntoFuture { Box::pin(async move { let l = self.0.unwrap(); if l.has().await { return Err(E("exists".into())); } let schema = Arc::new(Schema::new(self.1)); l.make(&schema).await; Ok(DeltaTable { log: l, schema }) }) } } }
        pub mod convert_to_delta { use super::*; #[derive(Default)] pub struct ConvertToDeltaBuilder(Option<Arc<Log>>);
            impl ConvertToDeltaBuilder { pub fn new() -> Self { Self::default() } pub fn with_log_store(mut self, l: Arc<Log>) -> Self { self.0 = Some(l); self } pub fn with_table_name(self, _: impl Into<String>) -> Self { self } pub fn with_save_mode(self, _: crate::deltalake::protocol::SaveMode) -> Self { self } pub fn with_comment(self, _: impl Into<String>) -> Self { self } }
            impl IntoFuture for ConvertToDeltaBuilder { type Output = Result<DeltaTable, E>; type IntoFuture = Pin<Box<dyn Future<Output = Self::Output> + Send>>; fn into_future(self) -> Self::IntoFuture { Box::pin(async move { let l = self.0.unwrap(); if l.has().await { return Err(E("The given location is already a delta table location".into())); }
                let n = l.store.list(None).try_collect::<Vec<_>>().await.unwrap().len(); if n == 0 { return Err(E("no Parquet files".into())); }
                let schema = Arc::new(Schema::new(vec![arrow_schema::Field::new("x", arrow_schema::DataType::Int64, true)])); l.make(&schema).await; Ok(DeltaTable { log: l, schema }) }) } } }
    }
}
pub mod catalog { pub const DEFAULT_SCHEMA: &str = "public"; pub const STAGING_SCHEMA: &str = "staging"; }
pub mod object_store_ext { pub mod wrapped { use std::sync::Arc; use crate::deltalake::Log; use object_store::{ObjectStore, prefix::PrefixStore}; pub struct InternalObjectStore { pub root: Arc<dyn ObjectStore> }
    impl InternalObjectStore { pub fn get_log_store(&self, p: &str) -> Arc<Log> { Arc::new(Log { store: Arc::new(PrefixStore::new(self.root.clone(), p)), uuid: p.to_string() }) } } } }
pub mod context {
    use std::sync::{Arc, Mutex}; use std::collections::BTreeMap; use datafusion::prelude::SessionContext; use crate::deltalake::DeltaTable; use crate::object_store_ext::wrapped::InternalObjectStore; use datafusion_common::{Result as DR, DataFusionError}; use uuid::Uuid; use arrow_schema::Schema; use crate::wasm_udf::data_types::CreateFunctionDetails;
    #[derive(Debug, Clone, PartialEq, Default)] pub struct State { pub dbs: BTreeMap<String, BTreeMap<String, BTreeMap<String, (String, Vec<String>)>>>, pub fns: BTreeMap<(String, String), String> }
    #[derive(Default)] pub struct Db { pub state: State, pub left: Option<u32> }
    type D = Arc<Mutex<Db>>;
    fn no<T>(m: &str) -> DR<T> { Err(DataFusionError::Execution(m.into())) }
    impl Db { fn write(&mut self) -> DR<()> { if let Some(n) = &mut self.left { if *n == 0 { return no("the catalog is read-only"); } *n -= 1; } Ok(()) } fn sch(&mut self, c: &str, s: &str) -> DR<&mut BTreeMap<String, (String, Vec<String>)>> { self.state.dbs.get_mut(c).and_then(|d| d.get_mut(s)).ok_or(DataFusionError::Execution("no such schema".into())) } }
    pub fn cols(s: &Schema) -> Vec<String> { s.fields().iter().map(|f| format!("{}\t{}", f.name(), f.data_type())).collect() }
    pub struct Tables(pub D); pub struct Schemas(pub D); pub struct Catalogs(pub D); pub struct Functions(pub D);
    impl Tables {
        pub async fn create(&self, c: &str, s: &str, t: &str, k: &Schema, u: Uuid) -> DR<(i64, i64)> { let mut d = self.0.lock().unwrap(); d.write()?; let x = d.sch(c, s)?; if x.contains_key(t) { return no("the table exists"); } x.insert(t.into(), (u.to_string(), cols(k))); Ok((0, 0)) }
        pub async fn delete(&self, c: &str, s: &str, t: &str) -> DR<()> { let mut d = self.0.lock().unwrap(); d.write()?; d.sch(c, s)?.remove(t).map(|_| ()).ok_or(DataFusionError::Execution("no such table".into())) }
        pub async fn update(&self, c: &str, s: &str, t: &str, c2: &str, s2: &str, t2: &str) -> DR<()> { let mut d = self.0.lock().unwrap(); d.write()?; if d.sch(c2, s2)?.contains_key(t2) { return no("the table exists"); } let v = d.sch(c, s)?.remove(t).ok_or(DataFusionError::Execution("no such table".into()))?; d.sch(c2, s2)?.insert(t2.into(), v); Ok(()) }
    }
    impl Schemas {
        pub async fn get(&self, c: &str, s: &str) -> DR<i64> { self.0.lock().unwrap().sch(c, s).map(|_| 0) }
        pub async fn create(&self, c: &str, s: &str) -> DR<i64> { let mut d = self.0.lock().unwrap(); d.write()?; let x = d.state.dbs.get_mut(c).ok_or(DataFusionError::Execution("no such database".into()))?; if x.contains_key(s) { return no("the schema exists"); } x.insert(s.into(), Default::default()); Ok(0) }
        pub async fn delete(&self, c: &str, s: &str) -> DR<()> { let mut d = self.0.lock().unwrap(); d.write()?; d.state.dbs.get_mut(c).and_then(|x| x.remove(s)).map(|_| ()).ok_or(DataFusionError::Execution("no such schema".into())) }
    }
    impl Catalogs { pub async fn get(&self, c: &str) -> DR<i64> { if self.0.lock().unwrap().state.dbs.contains_key(c) { Ok(0) } else { no("no such database") } } pub async fn create(&self, c: &str) -> DR<i64> { let mut d = self.0.lock().unwrap(); d.write()?; if d.state.dbs.contains_key(c) { return no("the database exists"); } d.state.dbs.insert(c.into(), Default::default()); Ok(0) } }
    impl Functions {
        pub async fn create(&self, c: &str, n: &str, r: bool, k: &CreateFunctionDetails) -> DR<i64> { let mut d = self.0.lock().unwrap(); d.write()?; let key = (c.to_string(), n.to_string()); if !r && d.state.fns.contains_key(&key) { return no("the function exists"); } d.state.fns.insert(key, k.entrypoint.clone()); Ok(0) }
        pub async fn delete(&self, c: &str, i: bool, n: &[String]) -> DR<()> { let mut d = self.0.lock().unwrap(); d.write()?; if !i && n.iter().any(|n| !d.state.fns.contains_key(&(c.to_string(), n.clone()))) { return no("no such function"); } for n in n { d.state.fns.remove(&(c.to_string(), n.clone())); } Ok(()) }
    }
    pub struct Metastore { pub tables: Tables, pub schemas: Schemas, pub catalogs: Catalogs, pub functions: Functions }
    pub struct SeafowlContext { pub inner: SessionContext, pub metastore: Arc<Metastore>, pub internal_object_store: Option<Arc<InternalObjectStore>>, pub default_catalog: String, pub default_schema: String }
    #[derive(Debug, Clone)] pub struct IcebergTableProvider;
    pub enum LakehouseTableProvider { Delta(DeltaTable), Iceberg(IcebergTableProvider) }
    impl SeafowlContext {
        pub async fn reload_schema(&self) -> DR<()> { use datafusion::catalog::*; use datafusion::catalog_common::{MemoryCatalogProvider, MemorySchemaProvider}; let d = self.metastore.tables.0.lock().unwrap().state.dbs[&self.default_catalog].clone(); let c = MemoryCatalogProvider::new();
            let io = self.internal_object_store.as_ref().unwrap();
            for (s, ts) in d { let p = MemorySchemaProvider::new(); for (t, (u, k)) in ts { let schema = Arc::new(Schema::new(k.iter().map(|c| arrow_schema::Field::new(c.split('\t').next().unwrap(), arrow_schema::DataType::Null, true)).collect::<Vec<_>>())); p.register_table(t, Arc::new(DeltaTable { log: io.get_log_store(&u), schema }))?; } c.register_schema(&s, Arc::new(p))?; }
            let p = MemorySchemaProvider::new(); p.register_table("st".into(), Arc::new(datafusion::datasource::empty::EmptyTable::new(Arc::new(Schema::empty()))))?; c.register_schema("staging", Arc::new(p))?;
            self.inner.register_catalog(&self.default_catalog, Arc::new(c)); Ok(()) }
        pub async fn rewrite_time_travel_query(&self, _: &mut sqlparser::ast::Query) -> DR<datafusion::execution::context::SessionState> { Ok(self.inner.state()) }
        pub fn register_function(&self, _: &str, _: &CreateFunctionDetails) -> DR<()> { Ok(()) }
    }
    mod look { use super::*; use datafusion::sql::*;
//@verbatim src/context/mod.rs | impl SeafowlContext::resolve_table_ref ; impl SeafowlContext::get_lakehouse_table_provider ; impl SeafowlContext::try_get_delta_table | skipuse=deltalake,iceberg,iceberg_datafusion except=LakehouseTableProvider,SeafowlContext
    }
    pub mod delta { use super::SeafowlContext; use crate::deltalake::{self, *, kernel::Schema as DeltaSchema, operations::{create::CreateBuilder, convert_to_delta::ConvertToDeltaBuilder}, protocol::SaveMode};
        fn get_uuid() -> Uuid { Uuid::new_v4() }
//@verbatim src/context/delta.rs | enum CreateDeltaTableDetails ; impl SeafowlContext::create_delta_table ; impl SeafowlContext::delete_delta_table | skipuse=deltalake except=get_uuid
    }
    pub mod logical { use super::*; use crate::datafusion_ext::parser::{DFParser, Statement as DFStatement, CONVERT_TO_DELTA}; use crate::datafusion_ext::utils::build_schema; use crate::nodes::*; use crate::deltalake;
//@verbatim src/context/logical.rs | impl SeafowlContext::create_logical_plan ; impl SeafowlContext::create_logical_plan_from_statement ; impl SeafowlContext::parse_query | skipuse=deltalake except=rewrite_time_travel_query,reload_schema,build_schema
    }
    pub mod physical { use super::delta::*; use super::*; use crate::nodes::*; use crate::catalog::*; use crate::deltalake::{self, *};
//@verbatim src/context/physical.rs | impl SeafowlContext::create_physical_plan | skipuse=deltalake,object_store_factory except=prepare_create_external_table,coerce_plan,file_to_table,execute_stream,collect,create_delta_table,delete_delta_table,resolve_table_ref,register_function arms=LogicalPlan::Extension,SeafowlExtensionNode::CreateTable,SeafowlExtensionNode::ConvertTable,SeafowlExtensionNode::RenameTable,SeafowlExtensionNode::CreateFunction,SeafowlExtensionNode::DropFunction,DdlStatement::DropTable,DdlStatement::DropCatalogSchema,CreateCatalogSchema,DdlStatement::CreateCatalog(
    }
}
pub mod check {
    use crate::common::*; use crate::context::*; use crate::deltalake::{self, *}; use crate::object_store_ext::wrapped::InternalObjectStore; use std::sync::{Arc, Mutex}; use std::collections::*; use object_store::{ObjectStore, path::Path}; use datafusion::prelude::{SessionContext, SessionConfig}; use futures::TryStreamExt;
    async fn below(root: &Arc<dyn ObjectStore>, u: &str) -> Vec<String> { let mut v: Vec<String> = root.list(Some(&Path::from(u))).try_collect::<Vec<_>>().await.unwrap().into_iter().map(|m| m.location.to_string()).collect(); v.sort(); v }
    pub async fn history(r: &mut Rng) {
        case();
        let root: Arc<dyn ObjectStore> = Arc::new(object_store::memory::InMemory::new());
        let d = Arc::new(Mutex::new(Db::default()));
        { let mut s = d.lock().unwrap(); for c in ["main", "other"] { s.state.dbs.insert(c.into(), [("public".to_string(), Default::default()), ("s1".to_string(), Default::default())].into()); } s.state.dbs.get_mut("other").unwrap().get_mut("public").unwrap().insert("t".into(), ("elsewhere".into(), vec![])); }
        let meta = Arc::new(Metastore { tables: Tables(d.clone()), schemas: Schemas(d.clone()), catalogs: Catalogs(d.clone()), functions: Functions(d.clone()) });
        let ctx = SeafowlContext { inner: SessionContext::new_with_config(SessionConfig::new().with_default_catalog_and_schema("main", "public")), metastore: meta, internal_object_store: Some(Arc::new(InternalObjectStore { root: root.clone() })), default_catalog: "main".into(), default_schema: "public".into() };
        let mut input = String::new();
        // tables in no catalog: the prefixes of Parquet files that may be converted
        let free: Vec<String> = (0..2).map(|_| uuid::Uuid::from_u128((r.next() as u128) << 64 | r.next() as u128).to_string()).collect();
        for u in &free { root.put(&Path::from(format!("{u}/a.parquet")), "p".into()).await.unwrap(); }
        for step in 0..2 + r.below(9) {
            let before = d.lock().unwrap().state.clone();
            // a table: its text, and what it stands for
            let name = |r: &mut Rng| -> (String, (String, String, String)) {
                let (tt, t) = *r.pick(&[("t", "t"), ("t", "t"), ("u", "u"), ("\"T x\"", "T x"), ("U", "u"), ("staging", "staging")]); let (st, s) = *r.pick(&[("public", "public"), ("s1", "s1"), ("\"S 2\"", "S 2"), ("nope", "nope")]); let (ct, c) = *r.pick(&[("main", "main"), ("main", "main"), ("other", "other")]);
                match r.below(4) { 0 | 1 => (tt.into(), ("main".into(), "public".into(), t.into())), 2 => (format!("{st}.{tt}"), ("main".into(), s.into(), t.into())), _ => (format!("{ct}.{st}.{tt}"), (c.into(), s.into(), t.into())) }
            };
            let ie = r.chance(40); let has = |s: &State, n: &(String, String, String)| s.dbs.get(&n.0).and_then(|d| d.get(&n.1)).is_some_and(|x| x.contains_key(&n.2));
            let sees = |n: &(String, String, String)| n.0 == "main" && has(&before, n);
            let mut want = before.clone(); let mut gone: Vec<String> = vec![]; let mut made: Option<(String, String, String)> = None;
            fn at<'a>(w: &'a mut State, n: &(String, String, String)) -> Option<&'a mut BTreeMap<String, (String, Vec<String>)>> { w.dbs.get_mut(&n.0).and_then(|d| d.get_mut(&n.1)) }
            // the statement, and whether it should succeed
            let (sql, ok) = match r.below(20) {
                0..=5 => { let (t, n) = name(r); let k: Vec<(&str, &str, &str)> = vec![("a", "INT", "a\tInt32"), ("\"B c\"", "VARCHAR", "B c\tUtf8"), ("d", "BIGINT", "d\tInt64")]; let k = &k[..1 + r.below(3) as usize];
                    let sql = format!("CREATE TABLE {}{t} ({})", if ie { "IF NOT EXISTS " } else { "" }, k.iter().map(|c| format!("{} {}", c.0, c.1)).collect::<Vec<_>>().join(", "));
                    let ok = if ie && sees(&n) { true } else if n.0 != "main" || has(&before, &n) { false } else { match at(&mut want, &n) { Some(x) => { x.insert(n.2.clone(), ("?".into(), k.iter().map(|c| c.2.to_string()).collect())); made = Some(n); true } None => false } };
                    (sql, ok) }
                6..=9 => { let (t, n) = name(r); let sql = format!("DROP TABLE {}{t}", if ie { "IF EXISTS " } else { "" }); let ok = if ie && !sees(&n) { true } else if has(&before, &n) { let x = at(&mut want, &n).unwrap().remove(&n.2).unwrap(); if n.0 == "main" { gone.push(x.0); } true } else { false }; (sql, ok) }
                10..=12 => { let (t, n) = name(r); let (t2, n2) = name(r); let sql = format!("ALTER TABLE {t} RENAME TO {t2}"); let ok = if !sees(&n) || n2.0 != "main" || has(&before, &n2) || at(&mut want, &n2).is_none() { false } else { let x = at(&mut want, &n).unwrap().remove(&n.2).unwrap(); at(&mut want, &n2).unwrap().insert(n2.2.clone(), x); true }; (sql, ok) }
                13 | 14 => { let (t, s) = *r.pick(&[("s1", "s1"), ("\"S 2\"", "S 2"), ("s3", "s3"), ("public", "public")]); let sql = format!("CREATE SCHEMA {}{t}", if ie { "IF NOT EXISTS " } else { "" }); let x = want.dbs.get_mut("main").unwrap(); let ok = if x.contains_key(s) { ie } else { x.insert(s.into(), Default::default()); true }; (sql, ok) }
                15 | 16 => { let (t, s) = *r.pick(&[("s1", "s1"), ("\"S 2\"", "S 2"), ("s3", "s3"), ("public", "public")]); let (ct, c) = *r.pick(&[("", "main"), ("main.", "main"), ("other.", "other")]); let sql = format!("DROP SCHEMA {}{ct}{t}{}", if ie { "IF EXISTS " } else { "" }, if r.chance(50) { " CASCADE" } else { "" }); let ok = if c != "main" { false } else { match want.dbs.get_mut("main").unwrap().remove(s) { Some(x) => { gone.extend(x.values().map(|x| x.0.clone())); true } None => ie } }; (sql, ok) }
                17 => { let (t, c) = *r.pick(&[("d1", "d1"), ("main", "main"), ("\"D 2\"", "D 2")]); let sql = format!("CREATE DATABASE {}{t}", if ie { "IF NOT EXISTS " } else { "" }); let ok = if want.dbs.contains_key(c) { ie } else { want.dbs.insert(c.into(), [("public".to_string(), Default::default())].into()); true }; (sql, ok) }
                18 => { let f = *r.pick(&["f", "g"]); let rep = r.chance(50); let k = ("main".to_string(), f.to_string()); let e = *r.pick(&["e1", "e2"]); let sql = format!("CREATE {}FUNCTION {f} AS '{{\"entrypoint\": \"{e}\", \"language\": \"wasm\", \"input_types\": [\"int\"], \"return_type\": \"int\", \"data\": \"x\"}}'", if rep { "OR REPLACE " } else { "" }); let ok = if !rep && before.fns.contains_key(&k) { false } else { want.fns.insert(k, e.into()); true }; (sql, ok) }
                _ => if r.chance(50) { let v: Vec<&str> = if r.chance(30) { vec!["f", "g"] } else { vec![*r.pick(&["f", "g"])] }; let sql = format!("DROP FUNCTION {}{}", if ie { "IF EXISTS " } else { "" }, v.join(", ")); let all = v.iter().all(|f| before.fns.contains_key(&("main".into(), f.to_string()))); if all || ie { for f in v { want.fns.remove(&("main".to_string(), f.to_string())); } } (sql, all || ie) }
                    else { let (t, n) = name(r); let u = r.pick(&free).clone(); let sql = format!("CONVERT '{u}' TO DELTA {t}"); let is = below(&root, &u).await.iter().any(|f| f.contains("_delta_log")); let empty = below(&root, &u).await.is_empty();
                        let ok = if n.0 != "main" || at(&mut want, &n).is_none() || empty { false } else if is { true } else if has(&before, &n) { false } else { at(&mut want, &n).unwrap().insert(n.2.clone(), (u.clone(), vec!["x\tInt64".into()])); true };
                        (sql, ok) },
            };
            let left = if r.chance(25) { Some(r.below(3) as u32) } else { None }; d.lock().unwrap().left = left;
            input += &format!("{sql}{}; ", left.map(|n| format!(" (the catalog takes {n} changes)")).unwrap_or_default());
            let files: BTreeMap<String, Vec<String>> = { let mut m = BTreeMap::new(); for u in before.dbs["main"].values().flat_map(|s| s.values()).map(|t| t.0.clone()).chain(free.iter().cloned()) { m.insert(u.clone(), below(&root, &u).await); } m };
            let res = async { let p = ctx.create_logical_plan(&sql).await?; ctx.create_physical_plan(&p).await }.await;
            let took_all = left.is_none() || d.lock().unwrap().left != Some(0); d.lock().unwrap().left = None;
            let mut after = d.lock().unwrap().state.clone();
            // every table of the catalog still has its log, and the objects of every other table are as they were
            for (u, k) in after.dbs["main"].values().flat_map(|s| s.values()) { if !below(&root, u).await.iter().any(|f| f.ends_with(deltalake::LOG)) { violation("table without files", &input, &format!("the log of table {u}, which is in the catalog"), "no log"); return; }
                if files.get(u).is_some_and(|f| !free.contains(u) || f.iter().any(|x| x.ends_with(deltalake::LOG))) && below(&root, u).await != files[u] { violation("objects of another table", &input, &format!("{:?}", files[u]), &format!("{:?}", below(&root, u).await)); return; } }
            for u in &free { if !gone.contains(u) && !files[u].iter().all(|f| f.contains("_delta_log")) { let now = below(&root, u).await; if !files[u].iter().all(|f| now.contains(f)) { violation("objects of another table", &input, &format!("{:?}", files[u]), &format!("{now:?}")); return; } } }
            // a new table has a prefix of its own
            if let Some(n) = &made { if let Some(x) = at(&mut after, n).and_then(|x| x.get_mut(&n.2)) { if files.contains_key(&x.0) { violation("prefix of another table", &input, "a new prefix", &x.0); return; }
                let l: Vec<String> = String::from_utf8(root.get(&Path::from(format!("{}/{}", x.0, deltalake::LOG))).await.unwrap().bytes().await.unwrap().to_vec()).unwrap().split('\n').map(|s| s.to_string()).collect(); if l != x.1 { violation("columns", &input, &format!("{:?}", x.1), &format!("{l:?}")); return; } x.0 = "?".into(); } }
            match (&res, left) {
                (Ok(_), _) => { if !ok { violation("accepted", &input, "an error", "success"); return; } if after != want { violation("catalog", &input, &format!("{want:?}"), &format!("{after:?}")); return; }
                    for u in &gone { if !below(&root, u).await.is_empty() { violation("files left", &input, "no objects", &format!("{:?}", below(&root, u).await)); return; } } }
                (Err(e), None) => { if ok { violation("refused", &input, "the statement to succeed", &e.to_string()); return; } if after != before { violation("failed statement changed the catalog", &input, &format!("{before:?}"), &format!("{after:?}")); return; } for (u, f) in &files { if &below(&root, u).await != f && !sql.starts_with("CONVERT") { violation("failed statement changed objects", &input, &format!("{f:?}"), "other objects"); return; } } }
                // the catalog failed: each thing is as before or as after it
                (Err(_), Some(_)) => { let mut bad = after.fns != before.fns && after.fns != want.fns;
                    for c in before.dbs.keys().chain(want.dbs.keys()).chain(after.dbs.keys()) { let (b, w, a) = (before.dbs.get(c), want.dbs.get(c), after.dbs.get(c)); if a.is_none() && b.is_some() && w.is_some() || a.is_some() && b.is_none() && w.is_none() { bad = true; }
                        if let Some(a) = a { for s in a.keys().chain(b.iter().flat_map(|b| b.keys())).chain(w.iter().flat_map(|w| w.keys())) { let (b, w, a) = (b.and_then(|x| x.get(s)), w.and_then(|x| x.get(s)), a.get(s)); if a != b && a != w { match (a, b, w) { (Some(a), Some(b), _) => { for t in a.keys().chain(b.keys()) { let w = w.and_then(|w| w.get(t)); if a.get(t) != b.get(t) && a.get(t) != w { bad = true; } } } _ => if !(c != "main" && a.is_none()) { bad = true; } } } } } }
                    if bad { violation("failed statement changed something else", &input, &format!("{before:?} or {want:?}"), &format!("{after:?}")); return; } }
            }
            // what a failed statement left behind is not looked at again
            if res.is_err() && after != before { return; }
        }
    }
}
fn main() {
    if std::env::var("VP_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut r = Rng::new(seed() ^ 20);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    match prop().as_str() {
        "c20" => rt.block_on(async {
            let n = if thorough() { 60000 } else { 4000 };
            for i in 0..n {
                if futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(check::history(&mut r))).await.is_err() { violation("panic", &format!("history {i} of seed {}", seed()), "no panic", "a panic"); }
            }
            set("histories of CREATE, DROP, ALTER and CONVERT statements");
        }),
        p => panic!("VERIF-HARNESS unknown property {p}"),
    }
    done();
}
