#![feature(let_chains)]
#![allow(dead_code, unused_imports, unused_variables, ambiguous_glob_reexports, hidden_glob_reexports)]
// C21: the real gc_databases (src/utils.rs), delete_in_prefix (src/object_store/wrapped.rs) and the Vacuum arm of create_physical_plan
// (src/context/physical.rs) over an in-memory object store and a catalog that both fail at seeded points; Delta tables are stand-ins.
include!("common.rs");
use common::*;
pub mod deltalake {
    use std::sync::{Arc, Mutex};
    #[derive(Debug)] pub struct E(pub String); impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } } impl std::error::Error for E {}
    impl From<E> for datafusion_common::DataFusionError { fn from(e: E) -> Self { datafusion_common::DataFusionError::External(Box::new(e)) } }
    /// the version of the log, and what was vacuumed as of which
    #[derive(Debug, Default)] pub struct Log { pub name: String, pub version: i64, pub vacuumed: Mutex<Vec<i64>>, pub fail: bool }
    #[derive(Debug, Clone)] pub struct Snapshot { pub name: String, pub version: i64 }
    #[derive(Debug, Clone)] pub struct DeltaTable { pub log: Arc<Log>, pub state: Option<Snapshot> }
    impl DeltaTable { pub async fn load(&mut self) -> Result<(), E> { self.state = Some(Snapshot { name: self.log.name.clone(), version: self.log.version }); Ok(()) } pub fn snapshot(&self) -> Result<&Snapshot, E> { self.state.as_ref().ok_or(E("not loaded".into())) } pub fn log_store(&self) -> Arc<Log> { self.log.clone() } }
    pub mod operations { pub mod vacuum { use super::super::*; use std::{future::*, pin::Pin};
        #[derive(Debug)] pub struct VacuumMetrics { pub dry_run: bool, pub files_deleted: Vec<String> }
        pub struct VacuumBuilder(Arc<Log>, Snapshot, bool, i64);
        impl VacuumBuilder { pub fn new(l: Arc<Log>, s: Snapshot) -> Self { VacuumBuilder(l, s, true, 7) } pub fn with_enforce_retention_duration(mut self, b: bool) -> Self { self.2 = b; self } pub fn with_retention_period(mut self, d: chrono::TimeDelta) -> Self { self.3 = d.num_seconds(); self } }
        impl IntoFuture for VacuumBuilder { type Output = Result<(DeltaTable, VacuumMetrics), E>; type IntoFuture = Pin<Box<dyn Future<Output = Self::Output> + Send>>; fn into_future(self) -> Self::IntoFuture { Box::pin(async move { let l = self.0; if l.fail || self.2 && self.3 < 1 { return Err(E("vacuum".into())); } l.vacuumed.lock().unwrap().push(if self.1.name == l.name { self.1.version } else { -1 }); Ok((DeltaTable { log: l, state: None }, VacuumMetrics { dry_run: false, files_deleted: vec![] })) }) } } } }
}
pub mod repository { pub mod interface { use uuid::Uuid; #[derive(Debug, PartialEq, Eq, Clone, Copy)] pub enum DroppedTableDeletionStatus { Pending, Retry, Failed }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct DroppedTablesResult { pub database_name: String, pub collection_name: String, pub table_name: String, pub uuid: Uuid, pub deletion_status: DroppedTableDeletionStatus } } }
pub mod wasm_udf {
    #[path = "/repo/src/wasm_udf/data_types.rs"]
    pub mod data_types;
}
#[path = "/repo/src/nodes.rs"]
pub mod nodes;
/// an object store that does not delete some objects, and may fail after listing one
#[derive(Debug)] pub struct Picky { pub inner: std::sync::Arc<dyn object_store::ObjectStore>, pub stuck: std::sync::Mutex<std::collections::BTreeSet<String>>, pub unlisted: std::sync::Mutex<bool> }
impl std::fmt::Display for Picky { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("picky") } }
#[async_trait::async_trait] impl object_store::ObjectStore for Picky {
    async fn put_opts(&self, l: &object_store::path::Path, p: object_store::PutPayload, o: object_store::PutOptions) -> object_store::Result<object_store::PutResult> { self.inner.put_opts(l, p, o).await }
    async fn put_multipart_opts(&self, l: &object_store::path::Path, o: object_store::PutMultipartOpts) -> object_store::Result<Box<dyn object_store::MultipartUpload>> { self.inner.put_multipart_opts(l, o).await }
    async fn get_opts(&self, l: &object_store::path::Path, o: object_store::GetOptions) -> object_store::Result<object_store::GetResult> { self.inner.get_opts(l, o).await }
    async fn delete(&self, l: &object_store::path::Path) -> object_store::Result<()> { if self.stuck.lock().unwrap().contains(l.as_ref()) { return Err(object_store::Error::NotImplemented); } self.inner.delete(l).await }
    fn list(&self, p: Option<&object_store::path::Path>) -> futures::stream::BoxStream<'_, object_store::Result<object_store::ObjectMeta>> { if *self.unlisted.lock().unwrap() { use futures::StreamExt; return Box::pin(self.inner.list(p).take(1).chain(futures::stream::iter([Err(object_store::Error::NotImplemented)]))); } self.inner.list(p) }
    async fn list_with_delimiter(&self, p: Option<&object_store::path::Path>) -> object_store::Result<object_store::ListResult> { self.inner.list_with_delimiter(p).await }
    async fn copy(&self, a: &object_store::path::Path, b: &object_store::path::Path) -> object_store::Result<()> { self.inner.copy(a, b).await }
    async fn copy_if_not_exists(&self, a: &object_store::path::Path, b: &object_store::path::Path) -> object_store::Result<()> { self.inner.copy_if_not_exists(a, b).await }
}
pub mod object_store_ext { pub mod wrapped { use object_store::{*, path::Path};
    pub struct InternalObjectStore { pub inner: std::sync::Arc<dyn ObjectStore>, pub prefix: Option<String> }
    // (table_prefix is C15)
    impl InternalObjectStore { pub fn table_prefix(&self, p: &str) -> Path { match &self.prefix { Some(x) => Path::from(format!("{x}/{p}")), None => Path::from(p) } } }
//@verbatim src/object_store/wrapped.rs | impl InternalObjectStore::delete_in_prefix | skipuse=deltalake,object_store_factory,object_store except=InternalObjectStore
} }
pub mod context {
    use std::sync::{Arc, Mutex}; use datafusion::prelude::SessionContext; use datafusion_common::{Result as DR, DataFusionError}; use uuid::Uuid; use crate::deltalake::{self, *}; use crate::repository::interface::*; use crate::object_store_ext::wrapped::InternalObjectStore;
    fn no<T>(m: &str) -> DR<T> { Err(DataFusionError::Execution(m.into())) }
    #[derive(Default)] pub struct Tables { pub dropped: Mutex<Vec<DroppedTablesResult>>, pub fail: Mutex<Vec<bool>>, pub forgotten: Mutex<Vec<String>> }
    impl Tables {
        fn ok(&self) -> bool { !self.fail.lock().unwrap().pop().unwrap_or(false) }
        pub async fn get_dropped_tables(&self, d: Option<String>) -> DR<Vec<DroppedTablesResult>> { if !self.ok() { return no("catalog"); } Ok(self.dropped.lock().unwrap().iter().filter(|t| d.as_ref().is_none_or(|d| *d == t.database_name)).cloned().collect()) }
        pub async fn update_dropped_table(&self, u: Uuid, s: DroppedTableDeletionStatus) -> DR<()> { if !self.ok() { return no("catalog"); } for t in self.dropped.lock().unwrap().iter_mut() { if t.uuid == u { t.deletion_status = s; } } Ok(()) }
        pub async fn delete_dropped_table(&self, u: Uuid) -> DR<()> { if !self.ok() { return no("catalog"); } self.dropped.lock().unwrap().retain(|t| t.uuid != u); Ok(()) }
        pub async fn delete_old_versions(&self, c: &str, s: &str, t: &str) -> DR<u64> { if !self.ok() { return no("catalog"); } self.forgotten.lock().unwrap().push(format!("{c}.{s}.{t}")); Ok(1) }
    }
    pub struct Metastore { pub tables: Tables }
    pub struct SeafowlContext { pub inner: SessionContext, pub metastore: Arc<Metastore>, pub internal_object_store: Option<Arc<InternalObjectStore>>, pub default_catalog: String, pub default_schema: String, pub logs: Vec<(String, Arc<Log>)> }
    impl SeafowlContext {
        pub async fn try_get_delta_table(&self, t: impl Into<datafusion_common::TableReference>) -> DR<DeltaTable> { let r = t.into().resolve(&self.default_catalog, &self.default_schema); let n = format!("{}.{}.{}", r.catalog, r.schema, r.table);
            // (the session has the table as of when its catalog was read: an older version)
            match self.logs.iter().find(|l| l.0 == n) { Some(l) => Ok(DeltaTable { log: l.1.clone(), state: Some(Snapshot { name: n, version: l.1.version - 1 }) }), None => no("no such table") } }
        pub fn get_internal_object_store(&self) -> DR<Arc<InternalObjectStore>> { Ok(self.internal_object_store.clone().unwrap()) }
    }
    mod look { use super::*; use datafusion::sql::*;
//@verbatim src/context/mod.rs | impl SeafowlContext::resolve_table_ref | skipuse=deltalake,iceberg,iceberg_datafusion except=LakehouseTableProvider,SeafowlContext
    }
    pub mod physical { use super::*; use crate::nodes::*; use crate::deltalake::{self, *, operations::vacuum::VacuumBuilder}; use crate::utils_ext::gc_databases;
//@verbatim src/context/physical.rs | impl SeafowlContext::create_physical_plan | skipuse=deltalake,object_store_factory except=prepare_create_external_table,coerce_plan,file_to_table,execute_stream,collect,try_get_delta_table,resolve_table_ref,get_internal_object_store,gc_databases arms=LogicalPlan::Extension,SeafowlExtensionNode::Vacuum
    }
}
pub mod utils_ext { use crate::context::SeafowlContext; use crate::object_store_ext::wrapped::InternalObjectStore; use crate::repository::interface::*;
//@verbatim src/utils.rs | fn gc_databases | skipuse=metrics_exporter_prometheus
}
pub mod check {
    use crate::common::*; use crate::context::*; use crate::deltalake::*; use crate::repository::interface::{*, DroppedTableDeletionStatus as S}; use crate::object_store_ext::wrapped::InternalObjectStore; use crate::Picky; use std::sync::{Arc, Mutex}; use std::collections::*; use object_store::{ObjectStore, path::Path}; use futures::TryStreamExt;
    async fn all(s: &Arc<dyn ObjectStore>) -> BTreeSet<String> { s.list(None).try_collect::<Vec<_>>().await.unwrap().into_iter().map(|m| m.location.to_string()).collect() }
    pub async fn history(r: &mut Rng) {
        case();
        let mem: Arc<dyn ObjectStore> = Arc::new(object_store::memory::InMemory::new()); let picky = Arc::new(Picky { inner: mem.clone(), stuck: Default::default(), unlisted: Default::default() });
        let prefix = if r.chance(30) { Some("a/b".to_string()) } else { None }; let io = Arc::new(InternalObjectStore { inner: picky.clone(), prefix });
        let mut tables: Vec<DroppedTablesResult> = vec![]; let n = r.below(5); let base = (r.next() as u128) << 64;
        for i in 0..n + 2 { let uuid = uuid::Uuid::from_u128(base | r.next() as u128); let t = DroppedTablesResult { database_name: (*r.pick(&["main", "other"])).into(), collection_name: "public".into(), table_name: format!("t{i}"), uuid, deletion_status: *r.pick(&[S::Pending, S::Pending, S::Retry, S::Failed]) };
            for k in 0..r.below(4) { mem.put(&io.table_prefix(&uuid.to_string()).child(["_delta_log", "x", "part"][k as usize]).child("f"), "z".into()).await.unwrap(); }
            // (the last two are tables in use)
            if i < n { tables.push(t); } }
        let lg = |n: &str, r: &mut Rng| (n.to_string(), Arc::new(Log { name: n.into(), version: 3 + r.below(5) as i64, vacuumed: Default::default(), fail: r.chance(20) }));
        let logs = vec![lg("main.public.t", r), lg("main.s1.t", r), lg("main.public.T x", r)];
        let ctx = SeafowlContext { inner: datafusion::prelude::SessionContext::new(), metastore: Arc::new(Metastore { tables: Tables { dropped: Mutex::new(tables), fail: Default::default(), forgotten: Default::default() } }), internal_object_store: Some(io.clone()), default_catalog: "main".into(), default_schema: "public".into(), logs };
        let mut input = String::new();
        for step in 0..1 + r.below(4) {
            let before = all(&mem).await; let stuck: BTreeSet<String> = before.iter().filter(|_| r.chance(15)).cloned().collect(); *picky.stuck.lock().unwrap() = stuck.clone();
            let unlisted = r.chance(15);
            let fails: Vec<bool> = if r.chance(30) { (0..8).map(|_| r.chance(30)).collect() } else { vec![] }; *ctx.metastore.tables.fail.lock().unwrap() = fails.clone();
            let rec = ctx.metastore.tables.dropped.lock().unwrap().clone(); for l in &ctx.logs { l.1.vacuumed.lock().unwrap().clear(); } ctx.metastore.tables.forgotten.lock().unwrap().clear();
            let (tt, tn) = *r.pick(&[("t", "main.public.t"), ("s1.t", "main.s1.t"), ("\"T x\"", "main.public.T x"), ("main.public.t", "main.public.t"), ("nope", "main.public.nope")]);
            let what = r.below(5); let db: Option<String> = match what { 0 => None, 1 => Some("other".into()), 2 => Some("main".into()), _ => None }; let table = what > 2;
            *picky.unlisted.lock().unwrap() = unlisted;
            input += &format!("{} (does not delete {stuck:?}{}; the catalog fails {:?}) ", if table { format!("VACUUM TABLE {tt}") } else { format!("VACUUM DATABASE {db:?}") }, if unlisted { ", lists one object of each table and fails" } else { "" }, fails.iter().rev().collect::<Vec<_>>());
            let res = if what == 0 { crate::utils_ext::gc_databases(&ctx, io.clone(), None).await; Ok(()) } else {
                let p = datafusion_expr::LogicalPlan::Extension(datafusion_expr::Extension { node: Arc::new(crate::nodes::SeafowlExtensionNode::Vacuum(crate::nodes::Vacuum { database: db.clone(), table_name: table.then(|| tt.to_string()), output_schema: Arc::new(datafusion_common::DFSchema::empty()) })) });
                ctx.create_physical_plan(&p).await.map(|_| ()) };
            *picky.unlisted.lock().unwrap() = false; let after = all(&mem).await; let now = ctx.metastore.tables.dropped.lock().unwrap().clone(); let sound = fails.is_empty();
            input += &format!("over {rec:?}; ");
            // exactly the objects of the dropped tables asked for
            let mine = |t: &&DroppedTablesResult| !table && (db.is_none() || db.as_ref() == Some(&t.database_name)) && t.deletion_status != S::Failed;
            let below = |o: &String, t: &DroppedTablesResult| o.starts_with(&format!("{}/", io.table_prefix(&t.uuid.to_string())));
            for o in before.difference(&after) { if !rec.iter().filter(mine).any(|t| below(o, t)) { violation("objects of another table", &input, &format!("{o} to stay"), "it is gone"); return; } }
            for t in &rec { let left = after.iter().any(|o| below(o, t)); let n = now.iter().find(|x| x.uuid == t.uuid);
                match n { None => if left || !mine(&t) { violation("forgotten", &input, &format!("the record of {} to stay", t.table_name), "it is gone"); return; }
                    Some(x) => { let want = if mine(&t) && left { if t.deletion_status == S::Pending { S::Retry } else { S::Failed } } else { t.deletion_status };
                        if x.deletion_status != want && !(unlisted && !left) && (sound || x.deletion_status != t.deletion_status) { violation("status", &input, &format!("{want:?} for {}", t.table_name), &format!("{:?}", x.deletion_status)); return; }
                        if sound && mine(&t) && !left && !unlisted { violation("not forgotten", &input, &format!("the record of {} to go", t.table_name), "it is still there"); return; }
                        if sound && mine(&t) && left && !unlisted && !before.iter().any(|o| below(o, t) && stuck.contains(o)) { violation("not removed", &input, &format!("the objects of {} to go", t.table_name), "some are there"); return; } } } }
            // a table: vacuumed as of its last version, and only then its older versions forgotten
            let f = ctx.metastore.tables.forgotten.lock().unwrap().clone();
            for l in &ctx.logs { let v = l.1.vacuumed.lock().unwrap().clone(); let mine = table && l.0 == tn; if v.iter().any(|x| *x != l.1.version) || (!v.is_empty() && !mine) || (mine && res.is_ok() && v.is_empty()) { violation("vacuum", &input, &format!("of {} as of {}", if mine { tn } else { "no other table" }, l.1.version), &format!("{}: {v:?}", l.0)); return; }
                if mine && v.is_empty() && !f.is_empty() { violation("versions", &input, "none forgotten", &format!("{f:?}")); return; } }
            if f.iter().any(|x| !table || x != tn) || (table && res.is_ok() && f.is_empty()) { violation("versions", &input, &format!("the older ones of {tn} forgotten"), &format!("{f:?}")); return; }
            if sound && res.is_err() && !(table && ctx.logs.iter().any(|l| l.0 == tn && l.1.fail)) { violation("refused", &input, "success", &format!("{res:?}")); return; }
        }
    }
}
fn main() {
    if std::env::var("VP_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut r = Rng::new(seed() ^ 21);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    match prop().as_str() {
        "c21" => rt.block_on(async {
            let n = if thorough() { 200000 } else { 10000 };
            for i in 0..n {
                if futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(check::history(&mut r))).await.is_err() { violation("panic", &format!("history {i} of seed {}", seed()), "no panic", "a panic"); }
            }
            set("histories of VACUUM DATABASE and VACUUM TABLE statements");
        }),
        p => panic!("VERIF-HARNESS unknown property {p}"),
    }
    done();
}
