#![feature(let_chains)]
#![allow(dead_code, unused_imports, unused_variables, ambiguous_glob_reexports, hidden_glob_reexports)]
// C16: the real writer, schema and squashing code over tables kept in memory. deltalake is not available here: the
// stand-ins below keep, per location, the rows and the commit infos that the writer commits.
include!("common.rs");
use common::*;
pub mod sim {
    use std::collections::*; use std::sync::Mutex;
    pub type State = BTreeMap<i64, Option<i64>>;
    #[derive(Default, Clone, Debug)] pub struct Table { pub rows: State, pub cols: Vec<String>, pub infos: Vec<HashMap<String, serde_json::Value>> }
    #[derive(Default)] pub struct World { pub tables: BTreeMap<String, Table>, pub fail: Option<u32>, pub bad: Vec<String> }
    pub static W: Mutex<Option<World>> = Mutex::new(None);
    pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T { f(W.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(Default::default)) }
    /// every operation of a table may be the one that fails
    pub fn step() -> Result<(), crate::deltalake::errors::DeltaTableError> { with(|w| match &mut w.fail { Some(0) => { w.fail = None; Err(crate::deltalake::errors::DeltaTableError("injected".into())) } Some(n) => { *n -= 1; Ok(()) } None => Ok(()) }) }
}
pub mod deltalake {
    use std::sync::Arc; use std::collections::HashMap; use crate::sim;
    pub mod errors { #[derive(Debug)] pub struct DeltaTableError(pub String); impl std::fmt::Display for DeltaTableError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } } impl std::error::Error for DeltaTableError {} }
    use errors::DeltaTableError as E;
    pub mod logstore {
        use super::*;
        #[async_trait::async_trait] pub trait LogStore: Send + Sync + std::fmt::Debug { fn root_uri(&self) -> String; async fn is_delta_table_location(&self) -> Result<bool, E>; fn object_store(&self) -> String { self.root_uri() } }
        #[derive(Debug)] pub struct L(pub String);
        #[async_trait::async_trait] impl LogStore for L { fn root_uri(&self) -> String { self.0.clone() } async fn is_delta_table_location(&self) -> Result<bool, E> { sim::step()?; Ok(sim::with(|w| w.tables.contains_key(&self.0))) } }
    }
    pub mod kernel {
        use super::*;
        #[derive(Debug, Clone)] pub struct StructField(pub String);
        pub struct Schema(Vec<StructField>);
        impl TryFrom<&arrow_schema::Schema> for Schema { type Error = arrow_schema::ArrowError; fn try_from(s: &arrow_schema::Schema) -> Result<Self, Self::Error> { Ok(Schema(s.fields().iter().map(|f| StructField(f.name().clone())).collect())) } }
        impl Schema { pub fn fields(&self) -> impl Iterator<Item = &StructField> { self.0.iter() } }
        #[derive(Debug, Clone)] pub struct CommitInfo { pub info: HashMap<String, serde_json::Value> }
        #[derive(Debug, Clone)] pub struct Add(pub String, pub sim::State);
        #[derive(Debug, Clone)] pub enum Action { Add(Add), Remove(String), CommitInfo(CommitInfo) }
        impl Action { pub fn commit_info(info: HashMap<String, serde_json::Value>) -> Self { Action::CommitInfo(CommitInfo { info }) } }
    }
    pub mod operations { pub mod create {
        use super::super::*; use super::super::logstore::LogStore; use super::super::kernel::StructField;
        pub struct CreateBuilder { log: Option<Arc<dyn LogStore>>, cols: Vec<String> }
        impl CreateBuilder {
            pub fn new() -> Self { CreateBuilder { log: None, cols: vec![] } }
            pub fn with_log_store(mut self, l: Arc<dyn LogStore>) -> Self { self.log = Some(l); self }
            pub fn with_columns(mut self, c: impl IntoIterator<Item = StructField>) -> Self { self.cols = c.into_iter().map(|f| f.0).collect(); self }
            pub fn with_comment(self, _: String) -> Self { self }
        }
        impl std::future::IntoFuture for CreateBuilder { type Output = Result<DeltaTable, E>; type IntoFuture = std::future::Ready<Self::Output>; fn into_future(self) -> Self::IntoFuture {
            std::future::ready(sim::step().and_then(|_| { let l = self.log.unwrap(); sim::with(|w| if w.tables.insert(l.root_uri(), sim::Table { cols: self.cols, rows: Default::default(), infos: vec![HashMap::new()] }).is_some() { w.bad.push(format!("{} created over an existing table", l.root_uri())) }); Ok(DeltaTable::new(l, ())) })) } }
    } }
    pub mod protocol { pub enum SaveMode { Append, Overwrite } pub enum DeltaOperation { Write { mode: SaveMode, partition_by: Option<Vec<String>>, predicate: Option<String> } } }
    pub struct DeltaTable { pub log: Arc<dyn logstore::LogStore>, pub at: Option<sim::Table> }
    impl DeltaTable {
        pub fn new(log: Arc<dyn logstore::LogStore>, _: ()) -> Self { DeltaTable { log, at: None } }
        pub async fn load(&mut self) -> Result<(), E> { sim::step()?; self.at = Some(sim::with(|w| w.tables.get(&self.log.root_uri()).cloned()).ok_or(E("not a table".into()))?); Ok(()) }
        pub async fn history(&self, n: Option<usize>) -> Result<Vec<kernel::CommitInfo>, E> { sim::step()?; Ok(self.at.as_ref().unwrap().infos.iter().rev().take(n.unwrap_or(usize::MAX)).map(|i| kernel::CommitInfo { info: i.clone() }).collect()) }
        pub fn get_files_count(&self) -> usize { 1 }
    }
}
pub mod config_ { #[derive(Default, Clone, Debug)] pub struct SyncConf { pub max_in_memory_bytes: usize, pub max_replication_lag_s: u64, pub max_syncs_per_url: usize } #[derive(Default, Clone)] pub struct Misc { pub sync_conf: SyncConf, pub max_partition_size: u32 } #[derive(Default, Clone)] pub struct Config { pub misc: Misc } }
pub mod context {
    use crate::{sim, deltalake::{DeltaTable, kernel::*, protocol::*, errors::DeltaTableError as E}};
    pub struct Inner; impl Inner { pub fn state(&self) {} }
    pub struct SeafowlContext { pub config: crate::config_::Config, pub inner: Inner }
    impl SeafowlContext {
        pub async fn commit_delta_table(&self, actions: Vec<Action>, t: &DeltaTable, _: DeltaOperation) -> Result<(), E> {
            sim::step()?;
            let url = t.log.root_uri();
            sim::with(|w| {
                let (mut rows, mut removed, mut info, mut bad) = (None, false, std::collections::HashMap::new(), vec![]);
                for a in actions { match a { Action::Add(a) => { if a.0 != url { bad.push(format!("rows of {} committed to {url}", a.0)); } rows = Some(a.1); } Action::Remove(_) => removed = true, Action::CommitInfo(i) => info = i.info } }
                let t = w.tables.get_mut(&url).unwrap();
                if let Some(r) = rows { if !removed { bad.push(format!("{url}: new files without removing the old ones")); } t.rows = r; } else if removed { t.rows.clear(); }
                t.infos.push(info); w.bad.extend(bad);
            });
            Ok(())
        }
    }
    pub mod delta { use super::*;
        pub async fn plan_to_delta_adds(_: &(), p: &crate::sync::planner::Plan, store: String, _: Option<String>, _: u32) -> Result<Vec<Add>, E> { sim::step()?; Ok(vec![Add(store, p.0.clone())]) }
    }
}
pub mod sync {
    use crate::deltalake::{self, logstore::LogStore}; use self::writer::SeafowlDataSyncWriter;
    pub mod metrics { use crate::sync::{Origin, SequenceNumber};
//@verbatim src/sync/metrics.rs | *
    }
    pub mod schema { use crate::sync::{SyncError, SyncResult};
//@verbatim src/sync/schema/mod.rs | *
    }
    pub mod utils { use crate::sync::schema::SyncSchema; use crate::sync::writer::DataSyncItem; use crate::sync::SyncResult;
//@verbatim src/sync/utils.rs | *
    }
    pub mod writer {
        use crate::context::delta::plan_to_delta_adds; use crate::context::SeafowlContext; use crate::sync::metrics::SyncWriterMetrics; use crate::sync::planner::SeafowlSyncPlanner; use crate::sync::schema::SyncSchema;
        use crate::sync::utils::{get_size_and_rows, squash_batches}; use crate::sync::{Origin, SequenceNumber, SyncCommitInfo, SyncError, SyncResult}; use super::LakehouseSyncTarget;
        use crate::deltalake::{self, kernel::{Action, Schema}, operations::create::CreateBuilder, protocol::{DeltaOperation, SaveMode}, DeltaTable};
//@verbatim src/sync/writer.rs | * | skipuse=deltalake
        /// what the writer holds: the recorded total size, the real one, items of the fullest location
        pub fn peek(x: &SeafowlDataSyncWriter) -> (usize, usize, usize, usize) { (x.size, x.syncs.values().flat_map(|c| &c.syncs).map(|i| get_size_and_rows(&i.data).0).sum(), x.syncs.values().map(|c| c.syncs.len()).max().unwrap_or(0), x.syncs.len()) }
        /// lets time pass: everything held gets older
        pub fn age(x: &mut SeafowlDataSyncWriter, secs: u64) { for c in x.syncs.values_mut() { c.insertion_time -= secs; } }
        /// seconds that the location held longest has been held
        pub fn oldest(x: &SeafowlDataSyncWriter) -> u64 { x.syncs.values().map(|c| now() - c.insertion_time).max().unwrap_or(0) }
        pub fn locations(x: &SeafowlDataSyncWriter) -> Vec<String> { x.syncs.keys().cloned().collect() }
    }
    /// what the planner does to the rows of a table: a squashed item applies at once, the rows of any other in sequence
    pub mod planner {
        use super::writer::DataSyncItem; use crate::{sim::{self, State}, deltalake::{DeltaTable, kernel::*, errors::DeltaTableError as E}, context::SeafowlContext}; use std::sync::Arc; use clade::sync::ColumnRole; use arrow::array::*;
        pub struct Plan(pub State);
        pub struct SeafowlSyncPlanner(Arc<SeafowlContext>);
        impl SeafowlSyncPlanner {
            pub fn new(c: Arc<SeafowlContext>) -> Self { SeafowlSyncPlanner(c) }
            pub async fn plan_delta_syncs(&self, syncs: &[DataSyncItem], t: &DeltaTable) -> Result<(Plan, Vec<Action>), E> {
                sim::step()?;
                let mut s = t.at.as_ref().unwrap().rows.clone();
                for i in syncs { apply(&mut s, i); }
                Ok((Plan(s), vec![Action::Remove("all".into())]))
            }
        }
        fn apply(s: &mut State, item: &DataSyncItem) {
            let mut ups: Vec<(Option<i64>, Option<i64>, Option<(Option<i64>, bool)>)> = vec![];
            for b in &item.data {
                let col = |r: ColumnRole| item.sync_schema.columns().iter().position(|c| c.role() == r).map(|i| b.column(i).clone());
                let int = |a: &Option<ArrayRef>, i: usize| a.as_ref().and_then(|a| { let a = a.as_any().downcast_ref::<Int64Array>().unwrap(); a.is_valid(i).then(|| a.value(i)) });
                let (o, n, v, c) = (col(ColumnRole::OldPk), col(ColumnRole::NewPk), col(ColumnRole::Value), col(ColumnRole::Changed));
                for i in 0..b.num_rows() {
                    let ch = c.as_ref().map_or(true, |c| { let c = c.as_any().downcast_ref::<BooleanArray>().unwrap(); c.is_valid(i) && c.value(i) });
                    ups.push((int(&o, i), int(&n, i), v.as_ref().map(|_| (int(&v, i), ch))));
                }
            }
            let new = |old: Option<i64>, v: Option<(Option<i64>, bool)>| match v { Some((v, true)) => v, _ => old };
            if item.is_squashed {
                let base = s.clone();
                for (o, _, _) in &ups { if let Some(o) = o { s.remove(o); } }
                for (o, n, v) in ups { if let Some(n) = n { s.insert(n, new(o.and_then(|o| base.get(&o).copied().flatten()), v)); } }
            } else { for (o, n, v) in ups { let old = o.and_then(|o| s.remove(&o).flatten()); if let Some(n) = n { s.insert(n, new(old, v)); } } }
        }
    }
//@verbatim src/sync/mod.rs | * | skipuse=deltalake
    pub mod check { use super::*; use super::writer::*; use super::schema::*; use crate::{sim, sim::State, common::*, deltalake::logstore::L, context::*}; use std::collections::*; use std::sync::Arc; use arrow::array::*; use arrow_schema::*; use clade::sync::*;
        /// one received change
        struct Msg { tx: usize, after: State }
        /// one history: messages of several origins for several tables, flushes, failing operations, restarts
        pub async fn history(r: &mut Rng, no: u64) {
            sim::with(|w| *w = Default::default());
            let conf = crate::config_::SyncConf { max_in_memory_bytes: *r.pick(&[1usize, 2000, 6000, 1 << 40]), max_replication_lag_s: *r.pick(&[0u64, 100000, 100000, 100000]), max_syncs_per_url: *r.pick(&[1usize, 2, 3, 100]) };
            let lag = conf.max_replication_lag_s;
            let ctx = |c: crate::config_::SyncConf| Arc::new(SeafowlContext { config: crate::config_::Config { misc: crate::config_::Misc { sync_conf: c, max_partition_size: 100 } }, inner: Inner });
            let (mut lim, mut units) = (conf.clone(), 0u64);
            let mut x = SeafowlDataSyncWriter::new(ctx(conf.clone()));
            let urls: Vec<String> = (0..3).map(|i| format!("memory://t{i}")).collect();
            let mut model: Vec<State> = vec![State::new(); 3]; let mut msgs: Vec<Vec<Msg>> = (0..3).map(|_| vec![]).collect(); let mut done = vec![0usize; 3];
            // transactions in order: origin, sequence
            let mut txs: Vec<(String, Option<u64>)> = vec![]; let mut log: Vec<String> = vec![]; let mut next = 1u64;
            let complete = r.chance(50); // whether rows are left out of the new transaction
            for step in 0..(10 + r.below(40)) {
                if r.chance(30) { let s = 100 * (1 + r.below(500)); age(&mut x, s); log.push(format!("{s} s pass")); }
                let bad = |key: &str, log: &Vec<String>, want: &str, got: String| violation(key, &format!("history {no} limits {conf:?}: {}", log.join("; ")), want, &got);
                if r.chance(65) {
                    let open = txs.last().map_or(false, |t| t.1.is_none());
                    let o = if open && !r.chance(8) { txs.last().unwrap().0.clone() } else { (*r.pick(&["a", "b"])).to_string() };
                    let t = r.below(3) as usize; let seq = if r.chance(45) { next += 1; Some(next) } else { None };
                    let mut st = model[t].clone();
                    let (schema, batches) = message(r, &mut st);
                    let rows: usize = batches.iter().map(|b| b.num_rows()).sum();
                    let want = if open { txs.last().unwrap().0 == o } else { !(rows == 0 && seq.is_some()) };
                    log.push(format!("{o} {:?} {} {}", seq, urls[t], batches.iter().map(show).collect::<Vec<_>>().join("+")));
                    let mem = x.stored_sequences(&o);
                    let res = x.enqueue_sync(LakehouseSyncTarget::Delta(Arc::new(L(urls[t].clone()))), seq, o.clone(), schema, batches);
                    case();
                    if res.is_ok() != want { bad("accepted", &log, &format!("accepted: {want}"), format!("{res:?}")); return; }
                    if want {
                        if !open { txs.push((o.clone(), None)); }
                        txs.last_mut().unwrap().1 = seq;
                        if rows > 0 { model[t] = st.clone(); msgs[t].push(Msg { tx: txs.len() - 1, after: st }); }
                    }
                    let now = x.stored_sequences(&o);
                    let m = if want && seq.is_some() { seq } else { mem.0 };
                    if now != (m, mem.1) { bad("memory", &log, &format!("{:?}", (m, mem.1)), format!("{now:?}")); return; }
                } else {
                    if r.chance(25) { let f = r.below(12) as u32; sim::with(|w| w.fail = Some(f)); log.push(format!("flush, operation {f} fails")); } else { log.push("flush".into()); }
                    let commits: Vec<usize> = urls.iter().map(|u| sim::with(|w| w.tables.get(u).map_or(0, |t| t.infos.len()))).collect();
                    let order = locations(&x);
                    let res = x.flush().await;
                    sim::with(|w| w.fail = None);
                    case();
                    for t in 0..3 { let n = sim::with(|w| w.tables.get(&urls[t]).map_or(0, |t| t.infos.len())); if n > commits[t].max(1) { done[t] = msgs[t].len(); } }
                    let (size, real, items, left) = peek(&x);
                    if size != real { bad("size", &log, &real.to_string(), size.to_string()); return; }
                    if res.is_ok() && (items >= conf.max_syncs_per_url || (size >= conf.max_in_memory_bytes && size > 0) || (lag == 0 && left > 0) || (left > 0 && oldest(&x) >= lag)) { bad("limits", &log, "below the limits", format!("{size} bytes, {items} items, {left} locations left, oldest {} s", oldest(&x))); return; }
                    if res.is_ok() && lag == 0 { for o in ["a", "b"] { let (m, d) = x.stored_sequences(&o.to_string()); if m != d { bad("not-durable", &log, &format!("{m:?}"), format!("{d:?}")); return; } } }
                }
                for b in sim::with(|w| std::mem::take(&mut w.bad)) { bad("commit", &log, "", b); return; }
                // the rows of each table: all that was received when it was last flushed
                for t in 0..3 {
                    let (rows, info) = sim::with(|w| w.tables.get(&urls[t]).map(|t| (t.rows.clone(), t.infos.last().and_then(|i| i.get(SYNC_COMMIT_INFO).cloned()))).unwrap_or_default());
                    let want = if done[t] == 0 { State::new() } else { msgs[t][done[t] - 1].after.clone() };
                    if rows != want { bad("rows", &log, &format!("{} {want:?}", urls[t]), format!("{rows:?}")); return; }
                    if let Some(i) = info {
                        let i: SyncCommitInfo = serde_json::from_value(i).unwrap();
                        let at = txs.iter().position(|t| t.0 == i.origin && t.1 == Some(i.sequence));
                        let Some(at) = at else { bad("commit-info", &log, "a received transaction", format!("{i:?}")); return };
                        if msgs[t].iter().take(done[t]).last().map_or(false, |m| m.tx > at) != i.new_tx || msgs[t].iter().skip(done[t]).any(|m| m.tx <= at) { bad("commit-info", &log, "what the table holds", format!("{}: {i:?} over {} of {} messages", urls[t], done[t], msgs[t].len())); return; }
                    } else if done[t] > 0 && msgs[t][..done[t]].iter().any(|m| txs[m.tx].1.is_some() && false) { }
                }
                for o in ["a", "b"] {
                    if let Some(d) = x.stored_sequences(&o.to_string()).1 {
                        let Some(at) = txs.iter().position(|t| t.0 == o && t.1 == Some(d)) else { bad("durable", &log, "a received transaction", format!("{o} {d}")); return };
                        for t in 0..3 { if msgs[t].iter().skip(done[t]).any(|m| m.tx <= at) { bad("durable", &log, "all rows of earlier transactions stored", format!("{o} {d} reported durable, changes of {} still in memory", urls[t])); return; } }
                    }
                }
            }
        }
        fn show(b: &RecordBatch) -> String { let n: Vec<String> = b.schema().fields().iter().map(|f| f.name().clone()).collect(); format!("[{}]{}", n.join(","), (0..b.num_rows()).map(|i| format!("({})", b.columns().iter().map(|c| arrow::util::display::array_value_to_string(c, i).unwrap()).collect::<Vec<_>>().join(","))).collect::<String>()) }
        /// rows that are valid changes of the state, in one of several schemas
        fn message(r: &mut Rng, st: &mut State) -> (SyncSchema, Vec<RecordBatch>) {
            if r.chance(12) { return (SyncSchema::empty(), vec![]); }
            let kind = r.below(5);
            let roles: Vec<(ColumnRole, &str)> = match kind { 0 => vec![(ColumnRole::OldPk, "k"), (ColumnRole::NewPk, "k")], 1 | 4 => vec![(ColumnRole::OldPk, "k"), (ColumnRole::NewPk, "k"), (ColumnRole::Value, "v")], 2 => vec![(ColumnRole::NewPk, "k"), (ColumnRole::OldPk, "k"), (ColumnRole::Value, "v")], _ => vec![(ColumnRole::OldPk, "k"), (ColumnRole::NewPk, "k"), (ColumnRole::Value, "v"), (ColumnRole::Changed, "v")] };
            let f: Vec<Field> = roles.iter().enumerate().map(|(i, (ro, n))| Field::new(format!("c{i}"), if *ro == ColumnRole::Changed { DataType::Boolean } else { DataType::Int64 }, true)).collect();
            let schema = Arc::new(Schema::new(f));
            let sync = SyncSchema::try_new(roles.iter().map(|(ro, n)| ColumnDescriptor { role: *ro as i32, name: n.to_string() }).collect(), schema.clone(), true).unwrap();
            let mut batches = vec![];
            for _ in 0..(1 + r.below(2)) {
                let mut rows: Vec<(Option<i64>, Option<i64>, Option<i64>, bool)> = vec![];
                for _ in 0..r.below(5) {
                    let keys: Vec<i64> = st.keys().copied().collect(); let free: Vec<i64> = (0..6).filter(|k| !st.contains_key(k)).collect();
                    let old = if keys.is_empty() || r.chance(35) { None } else { Some(*r.pick(&keys)) };
                    let new = if old.is_some() && r.chance(30) { None } else if old.is_some() && r.chance(40) { old } else if free.is_empty() { None } else { Some(*r.pick(&free)) };
                    if old.is_none() && new.is_none() { continue; }
                    let v = if r.chance(20) { None } else { Some(r.below(100) as i64) }; let ch = r.chance(60);
                    let was = old.and_then(|o| st.remove(&o).flatten());
                    if let Some(n) = new { st.insert(n, match kind { 0 => was, 3 => if ch { v } else { was }, _ => v }); }
                    rows.push((old, new, v, ch));
                }
                let cols: Vec<ArrayRef> = roles.iter().map(|(ro, _)| match ro { ColumnRole::OldPk => Arc::new(Int64Array::from_iter(rows.iter().map(|x| x.0))) as ArrayRef, ColumnRole::NewPk => Arc::new(Int64Array::from_iter(rows.iter().map(|x| x.1))), ColumnRole::Value => Arc::new(Int64Array::from_iter(rows.iter().map(|x| x.2))), ColumnRole::Changed => Arc::new(BooleanArray::from_iter(rows.iter().map(|x| Some(x.3)))) }).collect();
                batches.push(RecordBatch::try_new(schema.clone(), cols).unwrap());
            }
            (sync, batches)
        }
    }
    /// C17: the real squashing of batches of random shape against their rows applied one after the other
    pub mod squashed {
        use crate::common::*; use super::schema::SyncSchema; use super::utils::squash_batches; use arrow::array::*; use arrow::record_batch::RecordBatch; use arrow_schema::*; use clade::sync::*; use std::{collections::BTreeMap, sync::Arc};
        trait Lt { fn lt(&mut self, n: usize) -> usize; } impl Lt for Rng { fn lt(&mut self, n: usize) -> usize { self.below(n as u64) as usize } }
        type Cell = Option<i64>; type Key = Vec<Cell>; type St = BTreeMap<Key, Vec<Cell>>;
        #[derive(Clone, Debug)] struct Row { old: Key, new: Key, vals: Vec<Cell>, taken: Vec<bool> }
        fn gone(k: &Key) -> bool { k.iter().all(|c| c.is_none()) }
        fn array(kind: usize, v: Vec<Cell>) -> ArrayRef { match kind { 0 => Arc::new(Int64Array::from(v)), 1 => Arc::new(StringArray::from_iter(v.into_iter().map(|c| c.map(|c| format!("k{c}"))))), _ => Arc::new(Float64Array::from_iter(v.into_iter().map(|c| c.map(|c| c as f64)))) } }
        fn cell(a: &ArrayRef, i: usize) -> Cell {
            if a.is_null(i) { return None; }
            if let Some(a) = a.as_any().downcast_ref::<Int64Array>() { Some(a.value(i)) } else if let Some(a) = a.as_any().downcast_ref::<StringArray>() { a.value(i)[1..].parse().ok() } else { Some(a.as_any().downcast_ref::<Float64Array>().unwrap().value(i) as i64) }
        }
        fn dt(kind: usize) -> DataType { [DataType::Int64, DataType::Utf8, DataType::Float64][kind].clone() }
        /// the row applied to the table `from`, its effect put into `to`
        fn put(from: &St, to: &mut St, r: &Row) -> Result<(), String> {
            let base = if gone(&r.old) { vec![None; r.vals.len()] } else { from.get(&r.old).cloned().ok_or(format!("no row {:?}", r.old))? };
            if !gone(&r.new) { to.insert(r.new.clone(), (0..r.vals.len()).map(|i| if r.taken[i] { r.vals[i] } else { base[i] }).collect()); }
            Ok(())
        }
        pub fn batch(r: &mut Rng, n: u64) {
            let (npk, nval) = (1 + r.lt(3), r.lt(4));
            let kinds: Vec<usize> = (0..npk).map(|_| r.lt(3)).collect(); let vkinds: Vec<usize> = (0..nval).map(|_| r.lt(3)).collect(); let flagged: Vec<bool> = (0..nval).map(|_| r.chance(60)).collect();
            // the columns, in any order: role, number
            let mut cols: Vec<(ColumnRole, usize)> = vec![];
            for i in 0..npk { cols.push((ColumnRole::OldPk, i)); cols.push((ColumnRole::NewPk, i)); }
            for i in 0..nval { cols.push((ColumnRole::Value, i)); if flagged[i] { cols.push((ColumnRole::Changed, i)); } }
            for i in (1..cols.len()).rev() { let j = r.lt(i + 1); cols.swap(i, j); }
            let name = |c: &(ColumnRole, usize)| match c.0 { ColumnRole::OldPk | ColumnRole::NewPk => format!("p{}", c.1), _ => format!("v{}", c.1) };
            let strict = r.chance(30);
            let fields: Vec<Field> = cols.iter().enumerate().map(|(i, c)| Field::new(format!("f{i}"), match c.0 { ColumnRole::Changed => DataType::Boolean, ColumnRole::Value => dt(vkinds[c.1]), _ => dt(kinds[c.1]) }, !(strict && c.0 == ColumnRole::Changed))).collect();
            let schema = Arc::new(Schema::new(fields));
            let mut sync = SyncSchema::try_new(cols.iter().map(|c| ColumnDescriptor { role: c.0 as i32, name: name(c) }).collect(), schema.clone(), true).unwrap();
            // a table, and rows that make sense one after the other
            let key = |r: &mut Rng| -> Key { loop { let k: Key = (0..npk).map(|_| if r.chance(10) { None } else { Some(r.lt(3) as i64) }).collect(); if !gone(&k) { return k; } } };
            let none: Key = vec![None; npk];
            let mut st: St = BTreeMap::new();
            for _ in 0..r.lt(5) { let k = key(r); let v = (0..nval).map(|_| if r.chance(20) { None } else { Some(r.lt(50) as i64) }).collect(); st.insert(k, v); }
            let start = st.clone(); let mut rows: Vec<Row> = vec![];
            for _ in 0..r.lt(14) {
                let old = if st.is_empty() || r.chance(30) { none.clone() } else { let ks: Vec<Key> = st.keys().cloned().collect(); r.pick(&ks).clone() };
                let new = if !gone(&old) && r.chance(30) { none.clone() } else if !gone(&old) && r.chance(40) { old.clone() } else { let k = key(r); if st.contains_key(&k) { old.clone() } else { k } };
                if gone(&old) && gone(&new) { continue; }
                let row = Row { vals: (0..nval).map(|_| if r.chance(20) { None } else { Some(r.lt(50) as i64) }).collect(), taken: flagged.iter().map(|f| !f || r.chance(50)).collect(), old, new };
                let from = st.clone(); st.remove(&row.old); put(&from, &mut st, &row).unwrap(); rows.push(row);
            }
            let mut data: Vec<RecordBatch> = vec![]; let mut at = 0;
            while at < rows.len() || data.is_empty() {
                let to = (at + r.lt(6)).min(rows.len()); let part = &rows[at..to]; at = to;
                data.push(RecordBatch::try_new(schema.clone(), cols.iter().map(|c| -> ArrayRef { match c.0 {
                    ColumnRole::OldPk => array(kinds[c.1], part.iter().map(|x| x.old[c.1]).collect()), ColumnRole::NewPk => array(kinds[c.1], part.iter().map(|x| x.new[c.1]).collect()),
                    ColumnRole::Value => array(vkinds[c.1], part.iter().map(|x| x.vals[c.1]).collect()), ColumnRole::Changed => Arc::new(BooleanArray::from(part.iter().map(|x| x.taken[c.1]).collect::<Vec<_>>())) } }).collect()).unwrap());
                if data.len() > 40 { break; }
            }
            let input = format!("columns {cols:?} of {kinds:?} {vkinds:?}, table {start:?}, rows {rows:?}");
            case();
            let out = match squash_batches(&mut sync, &data) { Ok(b) => b, Err(e) => { violation("squashed", &input, "a batch", &format!("{e:?}")); return; } };
            let col = |role: ColumnRole, i: usize| cols.iter().position(|c| *c == (role, i)).map(|p| out.column(p).clone());
            let got: Vec<Row> = (0..out.num_rows()).map(|j| Row {
                old: (0..npk).map(|i| cell(&col(ColumnRole::OldPk, i).unwrap(), j)).collect(), new: (0..npk).map(|i| cell(&col(ColumnRole::NewPk, i).unwrap(), j)).collect(),
                vals: (0..nval).map(|i| cell(&col(ColumnRole::Value, i).unwrap(), j)).collect(),
                taken: (0..nval).map(|i| col(ColumnRole::Changed, i).map_or(true, |c| c.as_any().downcast_ref::<BooleanArray>().unwrap().value(j))).collect() }).collect();
            if let Some(x) = got.iter().find(|x| gone(&x.old) && gone(&x.new)) { violation("rows about rows", &input, "no row without keys", &format!("{got:?}")); return; }
            // all at once: each key once, every row against the table as it was
            for (i, a) in got.iter().enumerate() { for b in &got[i + 1..] { if !gone(&a.old) && a.old == b.old || !gone(&a.new) && a.new == b.new { violation("each key once", &input, "distinct keys", &format!("{got:?}")); return; } } }
            let mut end = start.clone(); for x in &got { end.remove(&x.old); }
            for x in &got { if end.contains_key(&x.new) { violation("same effect", &input, &format!("{st:?}"), &format!("{got:?} makes a key that is there")); return; } if let Err(e) = put(&start, &mut end, x) { violation("same effect", &input, &format!("{st:?}"), &format!("{got:?}: {e}")); return; } }
            if end != st { violation("same effect", &input, &format!("{st:?}"), &format!("{end:?} by {got:?}")); }
        }
        /// random descriptors over random fields: accepted exactly when they make sense
        pub fn descriptors(r: &mut Rng) {
            let n = 1 + r.lt(6);
            let d: Vec<(i32, String)> = (0..n).map(|_| (if r.chance(4) { 7 } else { r.lt(4) as i32 }, format!("c{}", r.lt(2)))).collect();
            let t: Vec<DataType> = (0..n).map(|i| if d[i].0 == 2 && r.chance(90) { DataType::Boolean } else if r.chance(80) { DataType::Int64 } else { DataType::Utf8 }).collect();
            let check = r.chance(60); let m = if r.chance(5) { n - 1 } else { n };
            let schema = Arc::new(Schema::new((0..m).map(|i| Field::new(format!("f{i}"), t[i].clone(), true)).collect::<Vec<_>>()));
            let pks = |role: i32| { let mut v: Vec<(String, String)> = (0..n).filter(|i| d[*i].0 == role).map(|i| (d[i].1.clone(), t[i].to_string())).collect(); v.sort(); v.dedup(); v };
            let want = m == n && d.iter().all(|x| (0..4).contains(&x.0)) && (0..n).all(|i| d[i].0 != 2 || t[i] == DataType::Boolean && d.iter().any(|x| x.0 == 3 && x.1 == d[i].1)) && (!check || !pks(0).is_empty() && pks(0) == pks(1));
            let got = SyncSchema::try_new(d.iter().map(|x| ColumnDescriptor { role: x.0, name: x.1.clone() }).collect(), schema, check);
            case();
            if got.is_ok() != want { violation("accepted exactly when sensible", &format!("{d:?} {t:?} keys checked: {check}"), &format!("accepted: {want}"), &format!("{:?}", got.is_ok())); }
            if let Ok(s) = got {
                let cols: Vec<(i32, String)> = s.columns().iter().map(|c| (c.role() as i32, c.name().to_string())).collect();
                if cols != d { violation("the columns described", &format!("{d:?}"), &format!("{d:?}"), &format!("{cols:?}")); }
                for (role, name) in &d { let ro = ColumnRole::try_from(*role).unwrap(); let c = s.column(name, ro); if c.map(|c| (c.role(), c.name().to_string())) != Some((ro, name.clone())) { violation("found by name and role", &format!("{d:?}"), &format!("{name} {ro:?}"), &format!("{c:?}")); } }
            }
        }
    }
}
fn main() {
    if std::env::var("VP_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut r = Rng::new(seed() ^ 16);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    match prop().as_str() {
        "c16" => rt.block_on(async {
            let n = if thorough() { 60000 } else { 6000 };
            for i in 0..n {
                if futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(sync::check::history(&mut r, i))).await.is_err() { violation("panic", &format!("history {i}"), "no panic", "a panic"); }
            }
            set("histories of messages, flushes and failing operations");
        }),
        "c17" => {
            let n = if thorough() { 300000 } else { 30000 };
            for i in 0..n { if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { sync::squashed::batch(&mut r, i); sync::squashed::descriptors(&mut r); })).is_err() { violation("panic", &format!("batch {i}"), "no panic", "a panic"); } }
            set("batches of random shape and random descriptors");
        }
        p => panic!("VERIF-HARNESS unknown property {p}"),
    }
    done();
}
