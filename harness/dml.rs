#![feature(let_chains)]
#![allow(dead_code, unused_imports, unused_variables, ambiguous_glob_reexports, hidden_glob_reexports)]
// C19: the real planning and execution of INSERT, UPDATE and DELETE (src/context/logical.rs, physical.rs, delta.rs, src/provider.rs),
// run by the real DataFusion on real Parquet files. deltalake is not available here: the stand-ins below keep the log of a table, with
// the statistics of each file, and read its files with DataFusion's ParquetExec the way delta-rs does (the filters of a scan prune files
// and, within a file, row groups; a scan may leave out any row for which a filter is not true).
include!("common.rs");
use common::*;
pub mod datafusion_ext {
    #[path = "/repo/src/datafusion/parser.rs"]
    pub mod parser;
}
pub mod deltalake {
    use arrow::array::*; use arrow::record_batch::RecordBatch; use arrow_schema::{Schema, SchemaRef}; use std::sync::{Arc, Mutex}; use std::collections::*; use datafusion::catalog::{Session, TableProvider}; use datafusion::datasource::TableType;
    use datafusion::datasource::{listing::PartitionedFile, object_store::ObjectStoreUrl, physical_plan::{FileScanConfig, parquet::ParquetExecBuilder}}; use datafusion::logical_expr::utils::conjunction; use datafusion::logical_expr::TableProviderFilterPushDown;
    use datafusion::physical_plan::ExecutionPlan; use datafusion_common::{Column, ScalarValue, Result as DR, ToDFSchema, DataFusionError}; use datafusion_common::tree_node::*; use datafusion_expr::Expr; use datafusion::physical_optimizer::pruning::{PruningStatistics, PruningPredicate}; use datafusion::physical_expr::create_physical_expr;
    use object_store::{ObjectStore, path::Path};
    pub mod errors { #[derive(Debug)] pub struct DeltaTableError(pub String); impl std::fmt::Display for DeltaTableError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } } impl std::error::Error for DeltaTableError {}
        impl From<DeltaTableError> for datafusion_common::DataFusionError { fn from(e: DeltaTableError) -> Self { datafusion_common::DataFusionError::External(Box::new(e)) } } }
    pub use errors::DeltaTableError; use errors::DeltaTableError as E;
    pub mod kernel {
        use std::collections::HashMap;
        #[derive(Debug, Clone, PartialEq)] pub struct Add { pub path: String, pub size: i64, pub partition_values: HashMap<String, Option<String>>, pub rows: i64 }
        #[derive(Debug, Clone)] pub struct Remove { pub path: String, pub deletion_timestamp: Option<i64>, pub data_change: bool, pub extended_file_metadata: Option<bool>, pub partition_values: Option<HashMap<String, Option<String>>>, pub size: Option<i64>, pub tags: Option<u8>, pub deletion_vector: Option<u8>, pub base_row_id: Option<u8>, pub default_row_commit_version: Option<u8> }
        #[derive(Debug, Clone)] pub enum Action { Add(Add), Remove(Remove) }
        pub struct Schema; impl TryFrom<&arrow_schema::Schema> for Schema { type Error = super::E; fn try_from(_: &arrow_schema::Schema) -> Result<Self, super::E> { Ok(Schema) } }
    }
    pub mod protocol { #[derive(Debug)] pub enum SaveMode { Append, Overwrite } #[derive(Debug)] pub enum DeltaOperation { Write { mode: SaveMode, partition_by: Option<Vec<String>>, predicate: Option<String> }, Delete { predicate: Option<String> } } }
    pub mod writer {
        pub fn create_add(p: &std::collections::BTreeMap<String, ScalarValueStub>, path: String, size: i64, m: &parquet::format::FileMetaData, _: i32, _: &Option<Vec<String>>) -> Result<super::kernel::Add, super::E> { Ok(super::kernel::Add { path, size, partition_values: Default::default(), rows: m.num_rows }) }
        pub struct ScalarValueStub;
    }
    /// what is in one file: its rows, and whether the log has statistics for it
    #[derive(Debug, Clone)] pub struct Info { pub rows: RecordBatch, pub stats: bool }
    /// the log of a table: its files as of each version
    #[derive(Debug)] pub struct Log { pub store: Arc<dyn ObjectStore>, pub uuid: String, pub schema: SchemaRef, pub versions: Mutex<Vec<Vec<kernel::Add>>>, pub info: Mutex<HashMap<String, Info>>, pub wrong: Mutex<Vec<String>>, pub apart: bool }
    impl Log { pub fn object_store(&self) -> Arc<dyn ObjectStore> { self.store.clone() } }
    pub async fn read(store: &Arc<dyn ObjectStore>, path: &str, schema: &SchemaRef) -> Result<(RecordBatch, i64), String> {
        let b = store.get(&Path::from(path)).await.map_err(|e| e.to_string())?.bytes().await.map_err(|e| e.to_string())?; let n = b.len() as i64;
        let v = parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(b).and_then(|x| x.build()).map_err(|e| e.to_string())?.collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())?;
        Ok((arrow::compute::concat_batches(schema, &v).map_err(|e| e.to_string())?, n))
    }
    #[derive(Debug, Clone)] pub struct Snapshot { pub log: Arc<Log>, pub version: i64, pub files: Vec<kernel::Add>, pub info: Vec<Info> }
    impl Snapshot { pub fn file_actions(&self) -> Result<Vec<kernel::Add>, E> { Ok(self.files.clone()) }
        fn stat(&self, c: &Column, max: bool) -> Option<ArrayRef> {
            let ix = self.log.schema.index_of(&c.name).ok()?;
            ScalarValue::iter_to_array(self.info.iter().map(|f| (0..if f.stats { f.rows.num_rows() } else { 0 }).map(|i| ScalarValue::try_from_array(f.rows.column(ix), i).unwrap()).filter(|v| !v.is_null()).reduce(|a, b| if (a < b) == max { b } else { a }).unwrap_or_else(|| ScalarValue::try_from(f.rows.column(ix).data_type()).unwrap()))).ok()
        }
    }
    impl PruningStatistics for Snapshot {
        fn min_values(&self, c: &Column) -> Option<ArrayRef> { self.stat(c, false) } fn max_values(&self, c: &Column) -> Option<ArrayRef> { self.stat(c, true) } fn num_containers(&self) -> usize { self.files.len() }
        fn null_counts(&self, c: &Column) -> Option<ArrayRef> { let ix = self.log.schema.index_of(&c.name).ok()?; Some(Arc::new(UInt64Array::from_iter(self.info.iter().map(|f| f.stats.then(|| f.rows.column(ix).null_count() as u64))))) }
        fn row_counts(&self, _: &Column) -> Option<ArrayRef> { Some(Arc::new(UInt64Array::from_iter(self.info.iter().map(|f| f.stats.then(|| f.rows.num_rows() as u64))))) } fn contained(&self, _: &Column, _: &HashSet<ScalarValue>) -> Option<BooleanArray> { None }
    }
    fn bare(e: Expr) -> Expr { e.transform(|e| Ok(match e { Expr::Column(c) if c.relation.is_some() => Transformed::yes(Expr::Column(Column::new_unqualified(c.name))), e => Transformed::no(e) })).unwrap().data }
    async fn files_scan(s: &Snapshot, st: &dyn Session, p: Option<&Vec<usize>>, filters: &[Expr], l: Option<usize>, only: Option<&Vec<kernel::Add>>) -> DR<Arc<dyn ExecutionPlan>> {
        let url = ObjectStoreUrl::parse(format!("delta-rs://{}", s.log.uuid))?; st.runtime_env().register_object_store(url.as_ref(), s.log.store.clone());
        let pred = match conjunction(filters.iter().cloned()) { Some(e) => Some(create_physical_expr(&bare(e), &s.log.schema.clone().to_dfschema()?, &Default::default())?), None => None };
        let keep: Vec<bool> = match (&pred, only) { (_, Some(f)) => s.files.iter().map(|a| f.iter().any(|x| x.path == a.path)).collect(), (Some(p), None) => PruningPredicate::try_new(p.clone(), s.log.schema.clone())?.prune(s)?, _ => vec![true; s.files.len()] };
        let fs: Vec<PartitionedFile> = s.files.iter().zip(&keep).filter(|x| *x.1).map(|(a, _)| PartitionedFile::new(a.path.clone(), a.size as u64)).collect();
        let groups: Vec<Vec<PartitionedFile>> = if s.log.apart { fs.into_iter().map(|f| vec![f]).collect() } else { vec![fs] };
        let c = FileScanConfig::new(url, s.log.schema.clone()).with_file_groups(groups).with_projection(p.cloned()).with_limit(l);
        let mut b = ParquetExecBuilder::new(c); if let Some(p) = pred { b = b.with_predicate(p); }
        Ok(b.build_arc())
    }
    #[derive(Debug, Clone)] pub struct DeltaTable { log: Arc<Log>, state: Option<Snapshot> }
    impl std::fmt::Display for DeltaTable { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.log.uuid) } }
    impl DeltaTable {
        pub fn new(log: Arc<Log>, _: Option<()>) -> Self { DeltaTable { log, state: None } }
        pub async fn load(&mut self) -> Result<(), E> { let v = self.log.versions.lock().unwrap(); let files = v.last().unwrap().clone(); let i = self.log.info.lock().unwrap(); self.state = Some(Snapshot { log: self.log.clone(), version: v.len() as i64 - 1, info: files.iter().map(|a| i[&a.path].clone()).collect(), files }); Ok(()) }
        pub fn snapshot(&self) -> Result<&Snapshot, E> { self.state.as_ref().ok_or(E("not loaded".into())) }
        pub fn log_store(&self) -> Arc<Log> { self.log.clone() } pub fn object_store(&self) -> Arc<dyn ObjectStore> { self.log.store.clone() } pub fn table_uri(&self) -> String { format!("store/{}", self.log.uuid) }
    }
    #[async_trait::async_trait] impl TableProvider for DeltaTable { fn as_any(&self) -> &dyn std::any::Any { self } fn schema(&self) -> SchemaRef { self.log.schema.clone() } fn table_type(&self) -> TableType { TableType::Base }
        fn supports_filters_pushdown(&self, f: &[&Expr]) -> DR<Vec<TableProviderFilterPushDown>> { Ok(f.iter().map(|_| TableProviderFilterPushDown::Inexact).collect()) }
        async fn scan(&self, st: &dyn Session, p: Option<&Vec<usize>>, f: &[Expr], l: Option<usize>) -> DR<Arc<dyn ExecutionPlan>> { files_scan(self.snapshot()?, st, p, f, l, None).await } }
    pub mod delta_datafusion {
        use super::*;
        #[derive(Debug)] pub struct DeltaTableProvider { s: Snapshot, only: Option<Vec<kernel::Add>> }
        impl DeltaTableProvider { pub fn try_new(s: Snapshot, _: Arc<Log>, _: Option<()>) -> Result<Self, E> { Ok(DeltaTableProvider { s, only: None }) } pub fn with_files(mut self, f: Vec<kernel::Add>) -> Self { self.only = Some(f); self } }
        #[async_trait::async_trait] impl TableProvider for DeltaTableProvider { fn as_any(&self) -> &dyn std::any::Any { self } fn schema(&self) -> SchemaRef { self.s.log.schema.clone() } fn table_type(&self) -> TableType { TableType::Base }
            async fn scan(&self, st: &dyn Session, p: Option<&Vec<usize>>, f: &[Expr], l: Option<usize>) -> DR<Arc<dyn ExecutionPlan>> { files_scan(&self.s, st, p, f, l, self.only.as_ref()).await } }
    }
    pub mod operations {
        pub mod convert_to_delta { pub struct ConvertToDeltaBuilder; } pub mod create { pub struct CreateBuilder; } pub mod vacuum { pub struct VacuumBuilder; }
        pub mod transaction {
            use super::super::{*, kernel::*, protocol::*};
            #[derive(Default)] pub struct CommitBuilder(Vec<Action>); pub struct Pre(Vec<Action>, i64, Arc<Log>); pub struct Done { pub version: i64 }
            impl CommitBuilder { pub fn with_actions(mut self, a: Vec<Action>) -> Self { self.0 = a; self } pub fn build(self, s: Option<&Snapshot>, l: Arc<Log>, _: DeltaOperation) -> Pre { Pre(self.0, s.unwrap().version, l) } }
            impl std::future::IntoFuture for Pre { type Output = Result<Done, E>; type IntoFuture = std::pin::Pin<Box<dyn std::future::Future<Output = Self::Output> + Send>>;
                fn into_future(self) -> Self::IntoFuture { Box::pin(async move { let Pre(acts, base, l) = self;
                    let mut files = { let v = l.versions.lock().unwrap(); if v.len() as i64 - 1 != base { l.wrong.lock().unwrap().push("committed on top of an old version".into()); } v.last().unwrap().clone() };
                    let mut bad = vec![]; let mut new = vec![];
                    for a in &acts { match a { Action::Remove(r) => { if !r.data_change { bad.push("a removal without data change".into()); } let n = files.len(); files.retain(|f| f.path != r.path); if files.len() + 1 != n { bad.push(format!("removed {} which is not in the table", r.path)); } } _ => {} } }
                    for a in acts { if let Action::Add(a) = a { match read(&l.store, &a.path, &l.schema).await { Ok((rows, n)) => { if n != a.size { bad.push(format!("{} has {n} bytes, recorded {}", a.path, a.size)); } if rows.num_rows() as i64 != a.rows { bad.push(format!("{} has {} rows, recorded {}", a.path, rows.num_rows(), a.rows)); } new.push((a, rows)); } Err(e) => bad.push(format!("{} cannot be read: {e}", a.path)) } } }
                    let mut i = l.info.lock().unwrap(); for (a, rows) in new { if i.insert(a.path.clone(), Info { rows, stats: true }).is_some() { bad.push(format!("{} written twice", a.path)); } files.push(a); }
                    l.wrong.lock().unwrap().extend(bad); let mut v = l.versions.lock().unwrap(); v.push(files); Ok(Done { version: v.len() as i64 - 1 }) }) } }
        }
    }
}
pub mod catalog { pub const DEFAULT_SCHEMA: &str = "public"; pub const STAGING_SCHEMA: &str = "staging"; }
pub mod nodes { #[derive(Debug, Clone, Hash, PartialEq, Eq)] pub struct Truncate { pub table_name: String, pub output_schema: datafusion_common::DFSchemaRef }
    impl PartialOrd for Truncate { fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> { None } }
    impl SeafowlExtensionNode { pub fn from_dynamic(node: &std::sync::Arc<dyn datafusion_expr::UserDefinedLogicalNode>) -> Option<&Self> { node.as_any().downcast_ref::<Self>() } }
    pub struct CreateFunction; pub struct CreateTable; pub struct DropFunction; pub struct RenameTable; pub struct Vacuum; #[derive(Debug, Clone, Hash, PartialEq, Eq)] pub struct ConvertTable { pub location: String, pub name: String, pub output_schema: datafusion_common::DFSchemaRef }
    impl PartialOrd for ConvertTable { fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> { None } }
    #[derive(Debug, Clone, Hash, PartialEq, Eq, PartialOrd)] pub enum SeafowlExtensionNode { ConvertTable(ConvertTable), Truncate(Truncate) }
    impl datafusion_expr::UserDefinedLogicalNodeCore for SeafowlExtensionNode { fn name(&self) -> &str { "x" } fn inputs(&self) -> Vec<&datafusion_expr::LogicalPlan> { vec![] } fn schema(&self) -> &datafusion_common::DFSchemaRef { unimplemented!() } fn expressions(&self) -> Vec<datafusion_expr::Expr> { vec![] } fn fmt_for_explain(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } fn with_exprs_and_inputs(&self, _: Vec<datafusion_expr::Expr>, _: Vec<datafusion_expr::LogicalPlan>) -> datafusion_common::Result<Self> { unimplemented!() } } }
pub mod object_store_ext {
    pub mod utils {
//@verbatim src/object_store/utils.rs | fn fast_upload
    }
    pub mod wrapped { use std::sync::Arc; use crate::deltalake::Log; pub struct InternalObjectStore { pub dir: Option<String>, pub log: Arc<Log> }
        impl InternalObjectStore { pub fn get_log_store(&self, p: &str) -> Arc<Log> { assert_eq!(p, self.log.uuid, "VERIF-HARNESS the table's own prefix"); self.log.clone() } pub fn local_table_dir(&self, p: &str) -> Option<String> { self.dir.as_ref().map(|d| format!("{d}/{p}")) } } }
}
pub mod provider {
//@verbatim src/provider.rs | fn project_expressions | skipuse=deltalake,iceberg,iceberg_datafusion
}
pub mod context {
    use std::sync::{Arc, Mutex}; use datafusion::prelude::SessionContext; use crate::deltalake::DeltaTable; use crate::object_store_ext::wrapped::InternalObjectStore;
    pub struct Misc { pub max_partition_size: u32 } pub struct SeafowlConfig { pub misc: Misc }
    pub struct Tables(pub Mutex<Vec<(uuid::Uuid, i64)>>); impl Tables { pub async fn create_new_version(&self, u: uuid::Uuid, v: i64) -> datafusion_common::Result<()> { self.0.lock().unwrap().push((u, v)); Ok(()) } }
    pub struct Metastore { pub tables: Tables }
    pub struct SeafowlContext { pub config: SeafowlConfig, pub inner: SessionContext, pub metastore: Arc<Metastore>, pub internal_object_store: Option<Arc<InternalObjectStore>>, pub default_catalog: String, pub default_schema: String }
    #[derive(Debug, Clone)] pub struct IcebergTableProvider;
    pub enum LakehouseTableProvider { Delta(DeltaTable), Iceberg(IcebergTableProvider) }
    impl SeafowlContext { pub async fn reload_schema(&self) -> datafusion_common::Result<()> { Ok(()) } pub async fn rewrite_time_travel_query(&self, _: &mut sqlparser::ast::Query) -> datafusion_common::Result<datafusion::execution::context::SessionState> { Ok(self.inner.state()) }
        pub async fn plan_to_iceberg_table(&self, _: impl Into<datafusion_common::TableReference>, _: &Arc<dyn datafusion::physical_plan::ExecutionPlan>) -> datafusion_common::Result<()> { panic!("VERIF-HARNESS iceberg") } }
    mod look { use super::*;
//@verbatim src/context/mod.rs | impl SeafowlContext::get_lakehouse_table_provider ; impl SeafowlContext::try_get_delta_table ; impl SeafowlContext::get_table_uuid | skipuse=deltalake,iceberg,iceberg_datafusion except=LakehouseTableProvider,SeafowlContext
    }
    pub mod delta { use super::SeafowlContext; use crate::object_store_ext::utils::fast_upload; use crate::deltalake::{self, *, kernel::{Action, Add, Schema as DeltaSchema}, operations::transaction::CommitBuilder, protocol::{DeltaOperation, SaveMode}, writer::create_add};
        fn get_uuid() -> Uuid { Uuid::new_v4() }
//@verbatim src/context/delta.rs | fn plan_to_delta_adds ; impl SeafowlContext::plan_to_delta_table ; impl SeafowlContext::commit_delta_table | skipuse=deltalake except=create_delta_table,CreateDeltaTableDetails
    }
    pub mod logical { use super::*; use crate::datafusion_ext::parser::{DFParser, Statement as DFStatement, CONVERT_TO_DELTA}; use crate::nodes::*; use crate::deltalake;
//@verbatim src/context/logical.rs | impl SeafowlContext::create_logical_plan ; impl SeafowlContext::create_logical_plan_from_statement ; impl SeafowlContext::parse_query | skipuse=deltalake except=rewrite_time_travel_query,reload_schema arms=Statement::Update,Statement::Delete,Statement::Insert,Statement::Truncate{table:true
    }
    pub mod physical { use super::delta::*; use super::*; use crate::nodes::*; use crate::provider::project_expressions; use crate::deltalake::{self, *, delta_datafusion::*, kernel::{Action, Add, Remove}, protocol::*};
//@verbatim src/context/physical.rs | impl SeafowlContext::create_physical_plan | skipuse=deltalake,object_store_factory except=prepare_create_external_table,coerce_plan,file_to_table,execute_stream,collect arms=WriteOp::,LogicalPlan::Extension,SeafowlExtensionNode::Truncate
    }
}
pub mod check {
    use crate::common::*; use crate::context::*; use crate::deltalake::{self, *}; use crate::object_store_ext::wrapped::InternalObjectStore; use arrow::array::*; use arrow::record_batch::RecordBatch; use arrow_schema::*; use std::sync::{Arc, Mutex}; use std::collections::*; use datafusion::prelude::{SessionConfig, SessionContext}; use object_store::{path::Path, ObjectStore}; use datafusion::datasource::MemTable;
    trait Lt { fn lt(&mut self, n: usize) -> usize; } impl Lt for Rng { fn lt(&mut self, n: usize) -> usize { self.below(n as u64) as usize } }
    fn rows(b: &[RecordBatch]) -> Vec<String> { let mut v: Vec<String> = b.iter().flat_map(|b| (0..b.num_rows()).map(|i| (0..b.num_columns()).map(|c| arrow::util::display::array_value_to_string(b.column(c), i).map(|s| if b.column(c).is_null(i) { "NULL".into() } else { format!("{s:?}") }).unwrap()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>()).collect(); v.sort(); v }
    fn batch(r: &mut Rng, s: &SchemaRef, n: usize, from: i64) -> RecordBatch {
        let ids: Vec<i64> = (0..n as i64).map(|i| from + i).collect();
        RecordBatch::try_new(s.clone(), vec![Arc::new(Int64Array::from(ids)), Arc::new(Int64Array::from_iter((0..n).map(|_| if r.chance(25) { None } else { Some(r.below(8) as i64) }))),
            Arc::new(StringArray::from_iter((0..n).map(|_| if r.chance(25) { None } else { Some(r.pick(&["a", "b", "it's", ""]).to_string()) }))), Arc::new(BooleanArray::from_iter((0..n).map(|_| if r.chance(25) { None } else { Some(r.chance(50)) })))]).unwrap()
    }
    async fn put(r: &mut Rng, log: &Log, name: &str, b: RecordBatch, stats: bool) -> kernel::Add {
        let mut out = vec![]; let p = parquet::file::properties::WriterProperties::builder().set_max_row_group_size(1 + r.lt(4)).set_data_page_row_count_limit(1 + r.lt(2)).set_write_batch_size(1).build();
        let mut w = parquet::arrow::ArrowWriter::try_new(&mut out, b.schema(), Some(p)).unwrap(); w.write(&b).unwrap(); w.close().unwrap(); let n = out.len() as i64;
        log.store.put(&Path::from(name), out.into()).await.unwrap(); let rows = b.num_rows() as i64; log.info.lock().unwrap().insert(name.into(), Info { rows: b, stats });
        kernel::Add { path: name.into(), size: n, partition_values: Default::default(), rows }
    }
    /// a condition; the last component: it has a subquery
    fn cond(r: &mut Rng, c: &[String; 4], d: u64) -> (String, bool) {
        let n = r.below(40); let k = r.below(8);
        match r.below(if d == 0 { 14 } else { 18 }) {
            0 => (format!("{} > {n}", c[0]), false), 1 => (format!("{} <= {n}", c[0]), false), 2 => (format!("{} IN ({n}, {}, {k})", c[0], n + 3), false), 3 => (format!("{} = {k}", c[1]), false), 4 => (format!("{} <> {k}", c[1]), false),
            5 => (format!("{} IS NULL", c[1]), false), 6 => (format!("{} = {}", c[2], r.pick(&["'a'", "'it''s'", "''"])), false), 7 => (c[3].clone(), false), 8 => (format!("{} BETWEEN {n} AND {}", c[0], n + 6), false), 9 => (format!("{} < {}", c[1], c[0]), false),
            10 => ((*r.pick(&["1 = 2", "FALSE", "NULL", "TRUE", "1 = 1", "NULL = 1"])).into(), false), 11 => (format!("{} LIKE 'a%'", c[2]), false), 12 => (format!("{} IN (SELECT k FROM other)", c[0]), true), 13 => (format!("{} > (SELECT max(k) FROM other)", c[0]), true),
            14 => { let x = cond(r, c, d - 1); (format!("NOT ({})", x.0), x.1) } n => { let x = cond(r, c, d - 1); let y = cond(r, c, d - 1); (format!("({}) {} ({})", x.0, if n == 15 { "OR" } else { "AND" }, y.0), x.1 || y.1) }
        }
    }
    pub async fn history(r: &mut Rng, dir: &str, n: u64) {
        case();
        let names = if r.chance(50) { ["id", "v", "s", "b"] } else { ["Id", "v.a l", "S", "b"] };
        let schema = Arc::new(Schema::new(vec![Field::new(names[0], DataType::Int64, true), Field::new(names[1], DataType::Int64, true), Field::new(names[2], DataType::Utf8, true), Field::new(names[3], DataType::Boolean, true)]));
        let c = names.map(|n| format!("\"{n}\"")); let uuid = uuid::Uuid::from_u128((r.next() as u128) << 64 | r.next() as u128).to_string();
        let local = r.chance(30); let d = format!("{dir}/{n}");
        let store: Arc<dyn ObjectStore> = if local { std::fs::create_dir_all(format!("{d}/{uuid}")).unwrap(); Arc::new(object_store::local::LocalFileSystem::new_with_prefix(format!("{d}/{uuid}")).unwrap()) } else { Arc::new(object_store::memory::InMemory::new()) };
        let log = Arc::new(Log { store, uuid: uuid.clone(), schema: schema.clone(), versions: Mutex::new(vec![]), info: Default::default(), wrong: Default::default(), apart: r.chance(50) });
        let mut files = vec![]; let mut from = 0; let mut input = String::new();
        for i in 0..r.lt(4) { let k = r.lt(9); if k == 0 { continue; } let b = batch(r, &schema, k, from); from += 1 + r.below(12) as i64; let st = r.chance(80); input += &format!("file{}{:?} ", if st { "" } else { " without statistics" }, rows(&[b.clone()])); files.push(put(r, &log, &format!("f{i}"), b, st).await); }
        log.versions.lock().unwrap().push(files);
        let maxp = *r.pick(&[1u32, 2, 3, 5, 1000]);
        let other = { let s = Arc::new(Schema::new(vec![Field::new("k", DataType::Int64, true), Field::new("w", DataType::Int64, true)])); let k = r.lt(5); RecordBatch::try_new(s, vec![Arc::new(Int64Array::from_iter((0..k).map(|_| if r.chance(15) { None } else { Some(r.below(20) as i64) }))), Arc::new(Int64Array::from_iter((0..k).map(|_| Some(r.below(5) as i64))))]).unwrap() };
        let cfg = SessionConfig::new().with_target_partitions(1 + r.lt(3)).with_batch_size(1 + r.lt(5));
        let ctx = SeafowlContext { config: SeafowlConfig { misc: Misc { max_partition_size: maxp } }, inner: SessionContext::new_with_config(cfg), metastore: Arc::new(Metastore { tables: Tables(Mutex::new(vec![])) }), internal_object_store: Some(Arc::new(InternalObjectStore { dir: local.then(|| d.clone()), log: log.clone() })), default_catalog: "datafusion".into(), default_schema: "public".into() };
        ctx.inner.register_table("other", Arc::new(MemTable::try_new(other.schema(), vec![vec![other.clone()]]).unwrap())).unwrap();
        input += &format!("other{:?} at most {maxp} rows per file; ", rows(&[other.clone()]));
        for step in 0..1 + r.lt(3) {
            let mut t = DeltaTable::new(log.clone(), None); t.load().await.unwrap(); let before = t.snapshot().unwrap().files.clone();
            let now: Vec<RecordBatch> = { let i = log.info.lock().unwrap(); before.iter().map(|a| i[&a.path].rows.clone()).collect() };
            let _ = ctx.inner.deregister_table("t"); ctx.inner.register_table("t", Arc::new(t)).unwrap();
            // the reference: DataFusion over the rows in memory
            let model = SessionContext::new(); model.register_table("t", Arc::new(MemTable::try_new(schema.clone(), vec![now.clone()]).unwrap())).unwrap(); model.register_table("other", Arc::new(MemTable::try_new(other.schema(), vec![vec![other.clone()]]).unwrap())).unwrap();
            let (w, sub) = cond(r, &c, 2); let wh = r.chance(90); let all = c.join(", ");
            let (sql, want, may) = match r.below(21) % 6 {
                5 => (format!("TRUNCATE TABLE {}", r.pick(&["t", "public.t", "\"t\"", "datafusion.public.t"])), "SELECT * FROM t WHERE false".into(), false),
                0 | 1 => if wh { (format!("DELETE FROM t WHERE {w}"), format!("SELECT {all} FROM t WHERE ({w}) IS NOT TRUE"), sub) } else { ("DELETE FROM t".into(), "SELECT * FROM t WHERE false".into(), false) },
                2 | 3 => {
                    let mut set = vec![]; let mut cols = vec![];
                    for k in 0..4 { let e = if r.chance(45) { let e = match k { 0 => r.pick(&["7", "id + 100", "v", "'12'"]).replace("id", &c[0]).replace('v', &c[1]), 1 => r.pick(&["NULL", "v + 1", "id * 2", "id", "CASE WHEN b THEN 5 ELSE v END", "3"]).replace("id", "\x01").replace('v', "\x02").replace(" b ", " \x03 ").replace('\x01', &c[0]).replace('\x02', &c[1]).replace('\x03', &c[3]), 2 => r.pick(&["'x'", "NULL", "concat('p', \x01)", "42"]).replace('\x01', &c[2]), _ => r.pick(&["TRUE", "NOT \x01", "\x02 > 3", "NULL"]).replace('\x01', &c[3]).replace('\x02', &c[1]) }; set.push((k, format!("{} = {e}", c[k]))); Some(e) } else { None };
                        let ty = ["BIGINT", "BIGINT", "VARCHAR", "BOOLEAN"][k]; cols.push(match e { Some(e) => format!("CAST({e} AS {ty}) AS {}", c[k]), None => c[k].clone() }); }
                    if set.is_empty() { continue; } if r.chance(50) { set.reverse(); }
                    // rows of another table: a join, in which no row of `t` takes part when that one has none
                    let from = r.chance(12); let lone = from && other.num_rows() == 0;
                    if from { (format!("UPDATE t SET {} FROM other{}", set.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", "), if wh { format!(" WHERE {w}") } else { String::new() }), if lone { format!("SELECT {all} FROM t") } else if wh { format!("SELECT {} FROM t WHERE ({w}) IS TRUE UNION ALL SELECT {all} FROM t WHERE ({w}) IS NOT TRUE", cols.join(", ")) } else { format!("SELECT {} FROM t", cols.join(", ")) }, true) } else
                    {(format!("UPDATE t SET {}{}", set.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", "), if wh { format!(" WHERE {w}") } else { String::new() }), if wh { format!("SELECT {} FROM t WHERE ({w}) IS TRUE UNION ALL SELECT {all} FROM t WHERE ({w}) IS NOT TRUE", cols.join(", ")) } else { format!("SELECT {} FROM t", cols.join(", ")) }, wh && sub)}
                }
                _ => { let (src, cols) = match r.below(3) { 0 => (format!("SELECT k, w, 'n', k > 3 FROM other"), all.clone()), 1 => (format!("VALUES (50, 1, 'it''s', true), (51, NULL, '', NULL)"), all.clone()), _ => (format!("SELECT {all} FROM t WHERE ({w})"), all.clone()) };
                    let may = src.contains("(SELECT"); (format!("INSERT INTO t ({cols}) {src}"), format!("SELECT {all} FROM t UNION ALL SELECT * FROM ({src})"), may) }
            };
            input += &format!("{sql}; ");
            let want = match model.sql(&want).await { Ok(df) => match df.collect().await { Ok(b) => rows(&b), Err(_) => continue }, Err(_) => continue };
            let vs = log.versions.lock().unwrap().len();
            let res = async { let p = ctx.create_logical_plan(&sql).await?; ctx.create_physical_plan(&p).await }.await;
            let after = log.versions.lock().unwrap().last().unwrap().clone(); let got = rows(&{ let i = log.info.lock().unwrap(); after.iter().map(|a| i[&a.path].rows.clone()).collect::<Vec<_>>() });
            // the files that were there before are still as they were
            for a in &after { match deltalake::read(&log.store, &a.path, &schema).await { Ok((b, _)) => if rows(&[b]) != rows(&[log.info.lock().unwrap()[&a.path].rows.clone()]) { violation("a file of the table was overwritten", &input, "the same rows", &a.path); }, Err(e) => violation("a file of the table is gone", &input, &a.path, &e) } }
            match res {
                Err(e) => { if !may && std::env::var("VP_ERR").is_ok() { println!("{input} {e}"); } if !may { violation("refused", &input, "the statement to succeed", &e.to_string()); } if after != before { violation("a refused statement changed the table", &input, "no change", &format!("{got:?}")); } return; }
                Ok(_) => {
                    if got != want { violation(if sql.starts_with("D") { "delete" } else if sql.starts_with("T") { "truncate" } else if sql.starts_with("U") { "update" } else { "insert" }, &input, &format!("{want:?}"), &format!("{got:?}")); return; }
                    let v = ctx.metastore.tables.0.lock().unwrap().clone(); let n = log.versions.lock().unwrap().len();
                    if n != vs + 1 || v.last() != Some(&(uuid::Uuid::parse_str(&uuid).unwrap(), n as i64 - 1)) { violation("version", &input, "one new version, recorded in the catalog", &format!("{v:?}, {n} versions after {vs}")); return; }
                    for a in after.iter().filter(|a| !before.contains(a)) { if a.rows > maxp as i64 { violation("file too large", &input, &format!("at most {maxp} rows"), &a.rows.to_string()); return; } }
                    let w = std::mem::take(&mut *log.wrong.lock().unwrap()); if let Some(w) = w.first() { violation("files and the log disagree", &input, "true records", w); return; }
                }
            }
        }
        if local { let _ = std::fs::remove_dir_all(&d); }
    }
}
fn main() {
    if std::env::var("VP_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut r = Rng::new(seed() ^ 19);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let dir = format!("{}/dml{}", std::env::temp_dir().display(), std::process::id()); std::fs::create_dir_all(&dir).unwrap();
    match prop().as_str() {
        "c19" => rt.block_on(async {
            let n = if thorough() { 12000 } else { 900 };
            for i in 0..n {
                if futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(check::history(&mut r, &dir, i))).await.is_err() { violation("panic", &format!("history {i}"), "no panic", "a panic"); }
            }
            set("tables and the statements run on them");
        }),
        p => panic!("VERIF-HARNESS unknown property {p}"),
    }
    let _ = std::fs::remove_dir_all(&dir);
    done();
}
