#![feature(let_chains)]
#![allow(dead_code, unused_imports, unused_variables, ambiguous_glob_reexports, hidden_glob_reexports)]
// C18: the real planner of replicated changes, its plans run by the real DataFusion. deltalake is not available here: the
// stand-ins below keep the files of a table as batches with their statistics.
include!("common.rs");
use common::*;
pub mod deltalake {
    use arrow::array::*; use arrow::record_batch::RecordBatch; use arrow_schema::SchemaRef; use std::sync::Arc; use datafusion::catalog::{Session, TableProvider}; use datafusion::datasource::{MemTable, TableType};
    use datafusion::physical_plan::ExecutionPlan; use datafusion_common::{Column, ScalarValue, Result as DR}; use datafusion_expr::Expr; use datafusion::physical_optimizer::pruning::PruningStatistics; use std::collections::*;
    pub mod errors { #[derive(Debug)] pub struct DeltaTableError(pub String); impl std::fmt::Display for DeltaTableError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } } impl std::error::Error for DeltaTableError {} }
    use errors::DeltaTableError as E;
    pub mod kernel {
        use std::collections::HashMap;
        #[derive(Debug, Clone)] pub struct Stats { pub num_records: i64 }
        #[derive(Debug, Clone)] pub struct Add { pub path: String, pub size: i64, pub partition_values: HashMap<String, Option<String>>, pub rows: i64 }
        impl Add { pub fn get_json_stats(&self) -> Result<Option<Stats>, String> { Ok(if self.rows < 0 { None } else { Some(Stats { num_records: self.rows }) }) } }
        #[derive(Debug, Clone)] pub struct Remove { pub path: String, pub deletion_timestamp: Option<i64>, pub data_change: bool, pub extended_file_metadata: Option<bool>, pub partition_values: Option<HashMap<String, Option<String>>>, pub size: Option<i64>, pub tags: Option<u8>, pub deletion_vector: Option<u8>, pub base_row_id: Option<u8>, pub default_row_commit_version: Option<u8> }
        #[derive(Debug, Clone)] pub enum Action { Add(Add), Remove(Remove) }
    }
    /// the files of a table; `many`: the rows each file claims to have; `blind`: the files without statistics
    #[derive(Debug, Clone)] pub struct Snapshot { pub schema: SchemaRef, pub files: Vec<RecordBatch>, pub many: i64, pub stats: bool, pub blind: Vec<usize> }
    impl Snapshot { pub fn file_actions(&self) -> Result<Vec<kernel::Add>, E> { Ok(self.files.iter().enumerate().map(|(i, b)| kernel::Add { path: i.to_string(), size: 1, partition_values: HashMap::new(), rows: if self.blind.contains(&i) { -1 } else { self.many } }).collect()) }
        fn stat(&self, c: &Column, max: bool) -> Option<ArrayRef> {
            if !self.stats { return None; }
            let ix = self.schema.index_of(&c.name).ok()?;
            ScalarValue::iter_to_array(self.files.iter().enumerate().map(|(f, b)| (0..if self.blind.contains(&f) { 0 } else { b.num_rows() }).map(|i| ScalarValue::try_from_array(b.column(ix), i).unwrap()).filter(|v| !v.is_null()).reduce(|a, b| if (a < b) == max { b } else { a }).unwrap_or_else(|| ScalarValue::try_from(b.column(ix).data_type()).unwrap()))).ok()
        }
    }
    impl PruningStatistics for Snapshot {
        fn min_values(&self, c: &Column) -> Option<ArrayRef> { self.stat(c, false) } fn max_values(&self, c: &Column) -> Option<ArrayRef> { self.stat(c, true) } fn num_containers(&self) -> usize { self.files.len() }
        fn null_counts(&self, _: &Column) -> Option<ArrayRef> { None } fn row_counts(&self, _: &Column) -> Option<ArrayRef> { None } fn contained(&self, _: &Column, _: &HashSet<ScalarValue>) -> Option<BooleanArray> { None }
    }
    #[derive(Debug)] pub struct DeltaTable(pub Snapshot);
    impl DeltaTable { pub fn snapshot(&self) -> Result<&Snapshot, E> { Ok(&self.0) } pub fn log_store(&self) {} }
    #[async_trait::async_trait] impl TableProvider for DeltaTable { fn as_any(&self) -> &dyn std::any::Any { self } fn schema(&self) -> SchemaRef { self.0.schema.clone() } fn table_type(&self) -> TableType { TableType::Base } async fn scan(&self, _: &dyn Session, _: Option<&Vec<usize>>, _: &[Expr], _: Option<usize>) -> DR<Arc<dyn ExecutionPlan>> { panic!("the whole table is read") } }
    pub mod delta_datafusion {
        use super::*;
        #[derive(Debug)] pub struct DeltaTableProvider { s: Snapshot, only: Vec<usize> }
        impl DeltaTableProvider {
            pub fn try_new(s: Snapshot, _: (), _: Option<()>) -> Result<Self, E> { Ok(DeltaTableProvider { only: (0..s.files.len()).collect(), s }) }
            pub fn with_files(mut self, f: Vec<kernel::Add>) -> Self { self.only = f.iter().map(|a| a.path.parse().unwrap()).collect(); self }
        }
        #[async_trait::async_trait] impl TableProvider for DeltaTableProvider { fn as_any(&self) -> &dyn std::any::Any { self } fn schema(&self) -> SchemaRef { self.s.schema.clone() } fn table_type(&self) -> TableType { TableType::Base }
            async fn scan(&self, st: &dyn Session, p: Option<&Vec<usize>>, f: &[Expr], l: Option<usize>) -> DR<Arc<dyn ExecutionPlan>> { MemTable::try_new(self.s.schema.clone(), vec![self.only.iter().map(|i| self.s.files[*i].clone()).collect()])?.scan(st, p, f, l).await } }
    }
}
pub mod context { pub struct SeafowlContext { pub inner: datafusion::prelude::SessionContext } }
pub mod sync {
    #[derive(Debug, thiserror::Error)] pub enum SyncError {
        #[error("Invalid sync schema: {reason}")] SchemaError { reason: String }, #[error("Invalid sync message: {reason}")] InvalidMessage { reason: String }, #[error("Not implemented")] NotImplemented,
        #[error(transparent)] ArrowError(#[from] arrow_schema::ArrowError), #[error(transparent)] DataFusionError(#[from] datafusion::error::DataFusionError), #[error(transparent)] DeltaTableError(#[from] crate::deltalake::errors::DeltaTableError),
    }
    pub type SyncResult<T, E = SyncError> = Result<T, E>; pub type Origin = String; pub type SequenceNumber = u64;
    pub mod metrics { use crate::sync::{Origin, SequenceNumber};
//@verbatim src/sync/metrics.rs | *
    }
    pub mod schema { use crate::sync::{SyncError, SyncResult};
//@verbatim src/sync/schema/mod.rs | *
        pub mod join { use crate::sync::planner::{LOWER_REL, UPPER_REL}; use crate::sync::schema::merge::SyncPosition; use crate::sync::schema::{SyncColumn, SyncSchema}; use crate::sync::SyncResult;
//@verbatim src/sync/schema/join.rs | *
        }
        pub mod union { use crate::sync::schema::merge::SyncPosition; use crate::sync::schema::{SyncColumn, SyncSchema}; use crate::sync::SyncResult;
//@verbatim src/sync/schema/union.rs | *
        }
        pub mod merge { use crate::sync::planner::LOWER_REL; use crate::sync::schema::join::*; use crate::sync::schema::union::*; use crate::sync::schema::{SyncColumn, SyncSchema}; use crate::sync::SyncResult;
//@verbatim src/sync/schema/merge.rs | *
        }
    }
    pub mod utils { use crate::sync::schema::SyncSchema; use crate::sync::writer::DataSyncItem; use crate::sync::SyncResult;
//@verbatim src/sync/utils.rs | *
    }
    pub mod writer { use crate::sync::schema::SyncSchema;
//@verbatim src/sync/writer.rs | struct DataSyncItem ; fn now | skipuse=deltalake
    }
    pub mod planner {
        use crate::context::SeafowlContext; use crate::sync::metrics::SyncPlanMetrics; use crate::sync::schema::merge::{merge_schemas, MergeProjection}; use crate::sync::schema::{SyncColumn, SyncSchema}; use crate::sync::utils::{construct_qualifier, get_prune_map}; use crate::sync::writer::{now, DataSyncItem}; use crate::sync::SyncResult;
        use crate::deltalake::{delta_datafusion::DeltaTableProvider, kernel::{Action, Add, Remove}, DeltaTable};
//@verbatim src/sync/planner.rs | * | skipuse=deltalake
        /// the table after the changes
        pub async fn flushed(p: &SeafowlSyncPlanner, syncs: &[DataSyncItem], t: &DeltaTable) -> Result<Vec<RecordBatch>, String> {
            let (plan, removes) = p.plan_delta_syncs(syncs, t).await.map_err(|e| format!("planning: {e}"))?;
            let gone: Vec<usize> = removes.iter().map(|a| match a { Action::Remove(r) => r.path.parse().unwrap(), _ => panic!() }).collect();
            let mut out = datafusion::physical_plan::collect(plan, p.context.inner.task_ctx()).await.map_err(|e| format!("running: {e}"))?;
            out.extend(t.0.files.iter().enumerate().filter(|(i, _)| !gone.contains(i)).map(|(_, b)| b.clone()));
            Ok(out)
        }
    }
    pub mod check {
        use crate::common::*; use super::schema::SyncSchema; use super::{utils::squash_batches, writer::DataSyncItem, planner::*}; use crate::deltalake::*; use crate::context::SeafowlContext;
        use arrow::array::*; use arrow::record_batch::RecordBatch; use arrow_schema::*; use clade::sync::*; use std::{collections::BTreeMap, sync::Arc};
        trait Lt { fn lt(&mut self, n: usize) -> usize; } impl Lt for Rng { fn lt(&mut self, n: usize) -> usize { self.below(n as u64) as usize } }
        type Cell = Option<i64>; type Key = Vec<i64>; type St = BTreeMap<Key, Now>;
        // a row of the model; `any`: its value falls under a recorded finding (known-findings.txt) and is not compared. `old`: the key
        // it had before the flush, `by`: the last item that set a value
        #[derive(Clone, Debug)] struct Now { vals: Vec<Cell>, any: Vec<bool>, old: Option<Key>, by: Vec<Option<usize>> }
        #[derive(Clone, Debug)] struct Row { old: Option<Key>, new: Option<Key>, vals: Vec<Cell>, taken: Vec<bool> }
        fn ints(v: impl Iterator<Item = Cell>) -> ArrayRef { Arc::new(Int64Array::from_iter(v)) }
        /// the recorded findings, each a fixed history: columns pk0, val0, val1; rows (old, new, [(value, taken)])
        pub async fn findings() {
            type R = (Cell, Cell, [(Cell, bool); 2]); let (v, n, k, o) = (ColumnRole::Value, None::<i64>, true, false); let c = ColumnRole::Changed;
            let one = |i: i64| Some(i);
            let all: Vec<(&str, Vec<[Cell; 3]>, Vec<(Vec<(ColumnRole, usize)>, Vec<R>)>, Vec<[Cell; 3]>, Vec<[Cell; 3]>)> = vec![
                ("a flagged value set in one item of a flush is lost when a later item without that column touches the row", vec![[one(1), one(5), one(6)]],
                    vec![(vec![(v, 0), (c, 0)], vec![(one(1), one(1), [(one(50), k), (n, o)])]), (vec![(v, 1)], vec![(one(1), one(1), [(n, o), (one(60), k)])])],
                    vec![[one(1), one(50), one(60)]], vec![[one(1), one(5), one(60)]]),
                ("a flagged value set in one item of a flush is lost when a later item touches the row with the flag off", vec![[one(1), one(5), one(6)]],
                    vec![(vec![(v, 0), (c, 0), (v, 1)], vec![(one(1), one(1), [(one(50), k), (one(51), k)])]), (vec![(v, 0), (c, 0)], vec![(one(1), one(1), [(n, o), (n, o)])])],
                    vec![[one(1), one(50), one(51)]], vec![[one(1), one(5), one(51)]]),
                ("an unflagged value set in one item of a flush is lost when a later item touches the row with the flag off", vec![[one(1), one(5), one(6)]],
                    vec![(vec![(v, 0)], vec![(one(1), one(1), [(one(50), k), (n, o)])]), (vec![(v, 0), (c, 0)], vec![(one(1), one(1), [(n, o), (n, o)])])],
                    vec![[one(1), one(50), one(6)]], vec![[one(1), one(5), one(6)]]),
                ("a row that gets a new key loses the values its change leaves alone", vec![[one(1), one(5), one(6)]],
                    vec![(vec![(v, 0), (c, 0), (v, 1)], vec![(one(1), one(2), [(n, o), (one(60), k)])])],
                    vec![[one(2), one(5), one(60)]], vec![[one(2), n, one(60)]]),
                ("a row inserted under a key that the same flush has freed gets the freed row's values for columns the insert does not carry", vec![[one(1), one(5), one(6)]],
                    vec![(vec![(v, 0)], vec![(one(1), n, [(n, o), (n, o)]), (n, one(1), [(one(50), k), (n, o)])])],
                    vec![[one(1), one(50), n]], vec![[one(1), one(50), one(6)]]),
            ];
            for (name, start, items, want, wrong) in all {
                case();
                let full = Arc::new(Schema::new(["pk0", "val0", "val1"].map(|c| Field::new(c, DataType::Int64, true)).to_vec()));
                let t = DeltaTable(Snapshot { schema: full.clone(), files: vec![RecordBatch::try_new(full.clone(), (0..3).map(|c| ints(start.iter().map(|x| x[c]))).collect()).unwrap()], many: 1, stats: true, blind: vec![] });
                let syncs: Vec<DataSyncItem> = items.iter().map(|(cols, rows)| {
                    let mut cols = cols.clone(); cols.push((ColumnRole::OldPk, 0)); cols.push((ColumnRole::NewPk, 0));
                    let pkc = |x: &(ColumnRole, usize)| matches!(x.0, ColumnRole::OldPk | ColumnRole::NewPk);
                    let schema = Arc::new(Schema::new(cols.iter().enumerate().map(|(i, x)| Field::new(format!("f{i}"), if x.0 == c { DataType::Boolean } else { DataType::Int64 }, true)).collect::<Vec<_>>()));
                    let mut sync = SyncSchema::try_new(cols.iter().map(|x| ColumnDescriptor { role: x.0 as i32, name: if pkc(x) { "pk0".into() } else { format!("val{}", x.1) } }).collect(), schema.clone(), true).unwrap();
                    let b = RecordBatch::try_new(schema, cols.iter().map(|x| -> ArrayRef { match x.0 { ColumnRole::OldPk => ints(rows.iter().map(|y| y.0)), ColumnRole::NewPk => ints(rows.iter().map(|y| y.1)),
                        ColumnRole::Value => ints(rows.iter().map(|y| y.2[x.1].0)), ColumnRole::Changed => Arc::new(BooleanArray::from(rows.iter().map(|y| y.2[x.1].1).collect::<Vec<_>>())) } }).collect()).unwrap();
                    let b = squash_batches(&mut sync, &[b]).unwrap();
                    DataSyncItem { is_squashed: true, tx_ids: vec![], sync_schema: sync, data: vec![b] }
                }).collect();
                let input = format!("table {start:?}, changes {items:?}");
                let ctx = Arc::new(SeafowlContext { inner: datafusion::prelude::SessionContext::new() });
                let out = match flushed(&SeafowlSyncPlanner::new(ctx), &syncs, &t).await { Ok(o) => o, Err(e) => { violation("planned", &input, "a table", &e); continue; } };
                let mut rows: Vec<[Cell; 3]> = vec![];
                for b in &out { for i in 0..b.num_rows() { rows.push([0, 1, 2].map(|x| { let a = b.column(x).as_any().downcast_ref::<Int64Array>().unwrap(); if a.is_null(i) { None } else { Some(a.value(i)) } })); } }
                if rows == want { continue; }
                violation(if rows == wrong { name } else { "same table" }, &input, &format!("{want:?}"), &format!("{rows:?}"));
            }
        }
        pub async fn history(r: &mut Rng, n: u64) {
            let (npk, nval) = (1 + r.lt(2), r.lt(4)); let upper = r.chance(10);
            let style = r.lt(3); let pk = |i: usize| if upper { [format!("Pk{i}"), format!("pk0.{i}"), format!("p\"k\"{i}")][style].clone() } else { format!("pk{i}") }; let val = |i: usize| if upper { [format!("Val {i}"), format!("pk0.Val{i}"), format!("v`\"{i}")][style].clone() } else { format!("val{i}") };
            // the table: its columns in some order, its rows in files
            let mut order: Vec<usize> = (0..npk + nval).collect(); for i in (1..order.len()).rev() { let j = r.lt(i + 1); order.swap(i, j); }
            let full = Arc::new(Schema::new(order.iter().map(|c| Field::new(if *c < npk { pk(*c) } else { val(*c - npk) }, DataType::Int64, true)).collect::<Vec<_>>()));
            let key = |r: &mut Rng| -> Key { (0..npk).map(|_| r.lt(4) as i64).collect() };
            let mut st: St = BTreeMap::new(); for _ in 0..r.lt(8) { let k = key(r); let v = (0..nval).map(|_| if r.chance(20) { None } else { Some(r.lt(90) as i64) }).collect(); st.insert(k.clone(), Now { vals: v, any: vec![false; nval], old: Some(k), by: vec![None; nval] }); }
            let nf = 1 + r.lt(3); let mut parts: Vec<Vec<(Key, Vec<Cell>)>> = vec![vec![]; nf]; let sorted = r.chance(50); let len = st.len().max(1);
            for (i, (k, v)) in st.iter().enumerate() { let f = if sorted { i * nf / len } else { r.lt(nf) }; parts[f].push((k.clone(), v.vals.clone())); }
            let files = parts.into_iter().filter(|p| !p.is_empty()).map(|p| RecordBatch::try_new(full.clone(), order.iter().map(|c| if *c < npk { ints(p.iter().map(|x| Some(x.0[*c]))) } else { ints(p.iter().map(|x| x.1[*c - npk])) }).collect()).unwrap()).collect::<Vec<_>>();
            let blind = (0..files.len()).filter(|_| r.chance(15)).collect();
            let t = DeltaTable(Snapshot { schema: full.clone(), files, many: if r.chance(50) { 1 } else { 4_000_000 }, stats: r.chance(80), blind });
            let start = st.clone(); let mut items = vec![]; let mut told = vec![];
            let mut flags = vec![false; nval]; let mut had = vec![false; nval];
            for m in 0..1 + r.lt(3) {
                // some of the values, with or without flags, the columns in any order and under any names
                let has: Vec<bool> = (0..nval).map(|_| r.chance(70)).collect(); let flagged: Vec<bool> = (0..nval).map(|i| has[i] && r.chance(50)).collect();
                let mut cols: Vec<(ColumnRole, usize)> = vec![];
                for i in 0..npk { cols.push((ColumnRole::OldPk, i)); cols.push((ColumnRole::NewPk, i)); }
                for i in 0..nval { if has[i] { cols.push((ColumnRole::Value, i)); } if flagged[i] { cols.push((ColumnRole::Changed, i)); } }
                if r.chance(60) { for i in (1..cols.len()).rev() { let j = r.lt(i + 1); cols.swap(i, j); } }
                let canonical = r.chance(50);
                let name = |c: &(ColumnRole, usize)| match c.0 { ColumnRole::OldPk | ColumnRole::NewPk => pk(c.1), _ => val(c.1) };
                let schema = Arc::new(Schema::new(cols.iter().enumerate().map(|(i, c)| Field::new(if canonical { super::schema::SyncColumn::canonical_field_name(c.0, &name(c)) } else if upper { format!("F{i}") } else { format!("f{i}") }, if c.0 == ColumnRole::Changed { DataType::Boolean } else { DataType::Int64 }, true)).collect::<Vec<_>>()));
                let mut sync = SyncSchema::try_new(cols.iter().map(|c| ColumnDescriptor { role: c.0 as i32, name: name(c) }).collect(), schema.clone(), true).unwrap();
                let m0 = !items.is_empty(); let mut rows: Vec<Row> = vec![]; let only_new = r.chance(25);
                for _ in 0..1 + r.lt(5) {
                    let ks: Vec<Key> = st.keys().cloned().collect();
                    let old = if ks.is_empty() || only_new || r.chance(30) { None } else { Some(r.pick(&ks).clone()) };
                    let free = key(r);
                    let new = if old.is_some() && r.chance(30) { None } else if old.is_some() && r.chance(50) { old.clone() } else if st.contains_key(&free) { old.clone() } else { Some(free) };
                    if old.is_none() && new.is_none() { continue; }
                                        let moved = old != new && r.chance(70);
                    let row = Row { vals: (0..nval).map(|_| if r.chance(20) { None } else { Some(r.lt(90) as i64) }).collect(), taken: (0..nval).map(|i| has[i] && (!flagged[i] || moved || r.chance(50))).collect(), old, new };
                    let m = items.len();
                    let mut now = match &row.old { Some(o) => st.remove(o).unwrap(), None => Now { vals: vec![None; nval], any: vec![false; nval], old: None, by: vec![None; nval] } };
                    for i in 0..nval {
                        if row.taken[i] { now.vals[i] = row.vals[i]; now.any[i] = false; now.by[i] = Some(m); }
                        // finding 1: set by an earlier item of the flush, left alone by this one
                        else if now.by[i].map_or(false, |b| b < m) && (flags[i] || flagged[i]) { now.any[i] = true; }
                    }
                    if let Some(n) = &row.new { st.insert(n.clone(), now); }
                    rows.push(row);
                }
                let b = RecordBatch::try_new(schema.clone(), cols.iter().map(|c| -> ArrayRef { match c.0 {
                    ColumnRole::OldPk => ints(rows.iter().map(|x| x.old.as_ref().map(|k| k[c.1]))), ColumnRole::NewPk => ints(rows.iter().map(|x| x.new.as_ref().map(|k| k[c.1]))),
                    ColumnRole::Value => ints(rows.iter().map(|x| x.vals[c.1])), ColumnRole::Changed => Arc::new(BooleanArray::from(rows.iter().map(|x| x.taken[c.1]).collect::<Vec<_>>())) } }).collect()).unwrap();
                if rows.is_empty() { continue; }
                told.push(format!("{:?} of {cols:?}", rows));
                let b = squash_batches(&mut sync, &[b]).unwrap();
                if b.num_rows() == 0 { continue; }
                for i in 0..nval { flags[i] |= flagged[i] || has[i] != had[i] && m0; had[i] |= has[i]; }
                items.push(DataSyncItem { is_squashed: true, tx_ids: vec![], sync_schema: sync, data: vec![b] });
            }
            if items.is_empty() { return; }
            let input = format!("names in capitals: {upper}, table {:?} {start:?} in {} files, changes {}", order, t.0.files.len(), told.join(" | "));
            case();
            let ctx = Arc::new(SeafowlContext { inner: datafusion::prelude::SessionContext::new() });
            let out = match flushed(&SeafowlSyncPlanner::new(ctx), &items, &t).await { Ok(o) => o, Err(e) => { violation("planned", &input, "a table", &e); return; } };
            let mut rows: Vec<(Key, Vec<Cell>)> = vec![]; let mut open = 0;
            for b in &out {
                if b.num_columns() != order.len() { violation("columns", &input, "those of the table", &format!("{:?}", b.schema())); return; }
                let at = |c: usize, i: usize| { let a = b.column(order.iter().position(|x| *x == c).unwrap()).as_any().downcast_ref::<Int64Array>().unwrap(); if a.is_null(i) { None } else { Some(a.value(i)) } };
                for i in 0..b.num_rows() { rows.push(((0..npk).map(|c| at(c, i).unwrap_or(-1)).collect(), (0..nval).map(|c| at(npk + c, i)).collect())); }
            }
            rows.sort();
            let mut want: Vec<(Key, Vec<Cell>)> = vec![];
            for (k, now) in st {
                let mut vals = now.vals.clone(); let got = rows.iter().find(|x| x.0 == k);
                // finding 2: the row was not in the table under this key and a value was never set
                let moved = now.old.as_ref() != Some(&k) && (now.old.is_some() || start.contains_key(&k));
                for i in 0..nval { if now.any[i] || moved && now.by[i].is_none() { if let Some(g) = got { vals[i] = g.1[i]; open += 1; } } }
                want.push((k, vals));
            }
            if rows != want { violation("same table", &input, &format!("{want:?}"), &format!("{rows:?}")); }
        }
    }
}
fn main() {
    if std::env::var("VP_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut r = Rng::new(seed() ^ 18);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    match prop().as_str() {
        "c18" => rt.block_on(async {
            let n = if thorough() { 8000 } else { 600 };
            sync::check::findings().await;
            for i in 0..n {
                if futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(sync::check::history(&mut r, i))).await.is_err() { violation("panic", &format!("history {i}"), "no panic", "a panic"); }
            }
            set("tables and the changes planned over them");
        }),
        p => panic!("VERIF-HARNESS unknown property {p}"),
    }
    done();
}
