// Replay for C12: the real SqliteRepository on an in-memory SQLite database, driven by random histories against a
// model, with faults injected into single statements (triggers that abort); after every call the whole database is
// compared with the model.
#![feature(let_chains)]
#![allow(dead_code, unused_imports)]
#[path = "/repo/src/wasm_udf"]
pub mod wasm_udf { #[path = "/repo/src/wasm_udf/data_types.rs"] pub mod data_types; }
#[path = "/repo/src/repository/mod.rs"]
pub mod repository;
/// the traits of the catalog (src/catalog/mod.rs) and, as it is, the store that answers them from a repository
pub mod catalog {
    use crate::{repository::interface::*, wasm_udf::data_types::CreateFunctionDetails}; use arrow_schema::Schema; use clade::schema::ListSchemaResponse; use std::fmt::Debug; use uuid::Uuid;
    pub const STAGING_SCHEMA: &str = "staging"; pub type CatalogResult<T> = Result<T, CatalogError>;
    #[derive(Debug)] pub enum CatalogError { CatalogDoesNotExist { name: String }, CatalogAlreadyExists { name: String }, SchemaDoesNotExist { name: String }, SchemaAlreadyExists { name: String }, TableDoesNotExist { name: String }, TableUuidDoesNotExist { uuid: Uuid }, TableAlreadyExists { name: String }, FunctionAlreadyExists { name: String }, FunctionNotFound { names: String }, UsedStagingSchema, Generic { reason: String }, NotImplemented { reason: String }, SqlxError(sqlx::Error), SerdeJsonError(serde_json::Error) }
    #[async_trait::async_trait] pub trait CatalogStore: Debug + Sync + Send { async fn create(&self, name: &str) -> CatalogResult<()>; async fn get(&self, name: &str) -> CatalogResult<DatabaseRecord>; async fn delete(&self, name: &str) -> CatalogResult<()>; }
    #[async_trait::async_trait] pub trait SchemaStore: Debug + Sync + Send { async fn create(&self, catalog_name: &str, schema_name: &str) -> CatalogResult<()>; async fn list(&self, catalog_name: &str) -> CatalogResult<ListSchemaResponse>; async fn get( &self, catalog_name: &str, schema_name: &str, ) -> CatalogResult<CollectionRecord>; async fn delete(&self, catalog_name: &str, schema_name: &str) -> CatalogResult<()>; }
    #[async_trait::async_trait] pub trait TableStore: Debug + Sync + Send { async fn create( &self, catalog_name: &str, schema_name: &str, table_name: &str, schema: &Schema, uuid: Uuid, ) -> CatalogResult<(TableId, TableVersionId)>; async fn get( &self, catalog_name: &str, schema_name: &str, table_name: &str, ) -> CatalogResult<TableRecord>; async fn create_new_version( &self, uuid: Uuid, version: i64, ) -> CatalogResult<TableVersionId>; async fn delete_old_versions( &self, catalog_name: &str, schema_name: &str, table_name: &str, ) -> CatalogResult<u64>; async fn get_all_versions( &self, catalog_name: &str, table_names: Option<Vec<String>>, ) -> CatalogResult<Vec<TableVersionsResult>>; async fn update( &self, old_catalog_name: &str, old_schema_name: &str, old_table_name: &str, new_catalog_name: &str, new_schema_name: &str, new_table_name: &str, ) -> CatalogResult<()>; async fn delete( &self, catalog_name: &str, schema_name: &str, table_name: &str, ) -> CatalogResult<()>; async fn get_dropped_tables( &self, catalog_name: Option<String>, ) -> CatalogResult<Vec<DroppedTablesResult>>; async fn update_dropped_table( &self, uuid: Uuid, deletion_status: DroppedTableDeletionStatus, ) -> CatalogResult<()>; async fn delete_dropped_table(&self, uuid: Uuid) -> CatalogResult<()>; }
    #[async_trait::async_trait] pub trait FunctionStore: Debug + Sync + Send { async fn create( &self, catalog_name: &str, function_name: &str, or_replace: bool, details: &CreateFunctionDetails, ) -> CatalogResult<()>; async fn list( &self, catalog_name: &str, ) -> CatalogResult<Vec<AllDatabaseFunctionsResult>>; async fn delete( &self, catalog_name: &str, if_exists: bool, func_names: &[String], ) -> CatalogResult<()>; }
    #[path = "/repo/src/catalog/repository.rs"] pub mod repository;
}
include!("common.rs");
use arrow_schema::{DataType, Field, Schema};
use common::*;
use repository::interface::*;
use repository::sqlite::SqliteRepository;
use sqlx::Row;
use std::collections::{BTreeMap, BTreeSet};
use uuid::Uuid;
use wasm_udf::data_types::*;

#[derive(Clone, Default, PartialEq, Debug)]
struct M {
    dbs: BTreeMap<i64, String>, colls: BTreeMap<i64, (i64, String)>, tabs: BTreeMap<i64, (i64, String, Uuid)>,
    vers: BTreeMap<i64, (i64, i64, i64)>, // table, version, creation time
    cols: BTreeSet<(i64, String, String)>, funs: BTreeMap<i64, (i64, [String; 7])>, dropped: BTreeSet<(String, String, String, Uuid, String, i64)>,
}
#[derive(PartialEq, Debug, Clone)]
enum K { Unique, Fk, Other }
fn kind(e: &Error) -> K { match e { Error::UniqueConstraintViolation(_) => K::Unique, Error::FKConstraintViolation(_) => K::Fk, _ => K::Other } }

async fn dump(r: &SqliteRepository) -> M {
    let x = &r.executor; let mut m = M::default();
    let q = |s: &'static str| async move { sqlx::query(s).fetch_all(x).await.expect("VERIF-HARNESS dump") };
    for w in q("SELECT id, name FROM database").await { m.dbs.insert(w.get(0), w.get(1)); }
    for w in q("SELECT id, database_id, name FROM collection").await { m.colls.insert(w.get(0), (w.get(1), w.get(2))); }
    for w in q("SELECT id, collection_id, name, uuid FROM \"table\"").await { m.tabs.insert(w.get(0), (w.get(1), w.get(2), w.get(3))); }
    for w in q("SELECT id, table_id, version, CAST(creation_time AS INTEGER(8)) FROM table_version").await { m.vers.insert(w.get(0), (w.get(1), w.get(2), w.get(3))); }
    for w in q("SELECT table_version_id, name, type FROM table_column").await { m.cols.insert((w.get(0), w.get(1), w.get(2))); }
    for w in q("SELECT id, database_id, name, entrypoint, language, input_types, return_type, data, volatility FROM function").await { m.funs.insert(w.get(0), (w.get(1), [w.get(2), w.get(3), w.get(4), w.get(5), w.get(6), w.get(7), w.get(8)])); }
    for w in q("SELECT database_name, collection_name, table_name, uuid, deletion_status, CAST(drop_time AS INTEGER(8)) FROM dropped_table").await { m.dropped.insert((w.get(0), w.get(1), w.get(2), w.get(3), w.get(4), w.get(5))); }
    m
}
impl M {
    fn drop_vers(&mut self, f: impl Fn(i64, &(i64, i64, i64)) -> bool) { let gone: Vec<i64> = self.vers.iter().filter(|(k, v)| f(**k, v)).map(|(k, _)| *k).collect(); for g in &gone { self.vers.remove(g); } self.cols.retain(|c| !gone.contains(&c.0)); }
    fn drop_tab(&mut self, t: i64) { self.tabs.remove(&t); self.drop_vers(|_, v| v.0 == t); }
    fn drop_coll(&mut self, c: i64) { let ts: Vec<i64> = self.tabs.iter().filter(|(_, t)| t.0 == c).map(|(k, _)| *k).collect(); for t in ts { self.drop_tab(t); } self.colls.remove(&c); }
    fn drop_db(&mut self, d: i64) { let cs: Vec<i64> = self.colls.iter().filter(|(_, c)| c.0 == d).map(|(k, _)| *k).collect(); for c in cs { self.drop_coll(c); } self.funs.retain(|_, f| f.0 != d); self.dbs.remove(&d); }
    fn newest(&self, t: i64) -> Option<i64> { self.vers.iter().filter(|(_, v)| v.0 == t).max_by_key(|(k, v)| (v.2, **k)).map(|(k, _)| *k) }
}
const NAMES: &[&str] = &["a", "b", "public", "it's", "A", "a\"b", "", "日本", "x'; DROP TABLE database; --", "$1", "%", "a.b"];
fn name(r: &mut Rng) -> String { if r.chance(75) { NAMES[*r.pick(&[0, 0, 1, 1, 2, 3, 4]) as usize].into() } else { (*r.pick(NAMES)).into() } }
fn some_id(r: &mut Rng, ids: Vec<i64>) -> i64 { if ids.is_empty() || r.chance(7) { *r.pick(&[0, -1, 999, i64::MAX]) } else { *r.pick(&ids) } }
fn keys<V>(m: &BTreeMap<i64, V>) -> Vec<i64> { m.keys().copied().collect() }
fn uid(r: &mut Rng) -> Uuid { Uuid::from_u128(match r.below(4) { 0 => 0, 1 => u128::MAX, n => n as u128 * 0x1234_5678_9abc_def0_1111 }) }
fn field(r: &mut Rng, n: &str) -> Field {
    let t = match r.below(6) { 0 => DataType::Int64, 1 => DataType::Utf8, 2 => DataType::Decimal128(10, 2), 3 => DataType::Timestamp(arrow_schema::TimeUnit::Microsecond, Some("UTC".into())), 4 => DataType::List(Field::new("item", DataType::Int32, true).into()), _ => DataType::Boolean };
    Field::new(n, t, r.chance(50))
}
fn schema(r: &mut Rng) -> Schema {
    let n = *r.pick(&[0u64, 1, 2, 2, 3, 5, 12]);
    let mut f = vec![];
    for i in 0..n { let nm = if r.chance(4) { "dup".to_string() } else if r.chance(10) { (*r.pick(NAMES)).to_string() } else { format!("c{i}") }; f.push(field(r, &nm)); }
    Schema::new(f)
}
fn details(r: &mut Rng) -> CreateFunctionDetails {
    use CreateFunctionDataType as T;
    let ty = |r: &mut Rng| r.pick(&[T::INT, T::BIGINT, T::TEXT, T::DOUBLE, T::DECIMAL { precision: 38, scale: 3 }, T::TIMESTAMP]).clone();
    CreateFunctionDetails {
        entrypoint: name(r), language: r.pick(&[CreateFunctionLanguage::Wasm, CreateFunctionLanguage::WasmMessagePack]).clone(),
        input_types: (0..r.below(4)).map(|_| ty(r)).collect(), return_type: ty(r), data: name(r),
        volatility: r.pick(&[CreateFunctionVolatility::Immutable, CreateFunctionVolatility::Stable, CreateFunctionVolatility::Volatile]).clone(),
    }
}
fn fun_row(n: &str, d: &CreateFunctionDetails) -> [String; 7] {
    [n.into(), d.entrypoint.clone(), d.language.to_string(), serde_json::to_string(&d.input_types).unwrap(), d.return_type.to_string(), d.data.clone(), d.volatility.to_string()]
}
/// what the answer of a call must be: an error of this kind and an unchanged database, or this state (built from the answer)
type Next = Result<M, K>;
struct H { repo: std::sync::Arc<SqliteRepository>, m: M, log: Vec<String> }
impl H {
    fn bad(&self, key: &str, expected: String, got: String) { let n = self.log.len(); violation(key, &self.log[n.saturating_sub(14)..].join("; "), &expected.chars().take(700).collect::<String>(), &got.chars().take(700).collect::<String>()); }
    /// compare: `res` is the answer (Ok or the error), `next` what should have happened
    async fn settle(&mut self, key: &str, res: Result<(), Error>, next: Next, faulted: bool) {
        case();
        let now = dump(&self.repo).await;
        let n = self.m.clone();
        match (&res, &next) {
            (Err(e), _) if faulted || next.is_err() => {
                if now != n { self.bad(&format!("{key}/partial"), format!("the call failed ({e}), so nothing changed: {n:?}"), format!("{now:?}")); }
                else if !faulted { if let Err(k) = &next { if kind(e) != *k { self.bad(&format!("{key}/error"), format!("an error of kind {k:?}"), format!("{e:?}")); } } }
            }
            (Err(e), Ok(_)) => self.bad(key, "success".into(), format!("{e:?}")),
            (Ok(()), Err(k)) => self.bad(key, format!("an error ({k:?}), nothing changed"), "success".into()),
            (Ok(()), Ok(want)) => if now != *want { self.bad(key, format!("{want:?}"), format!("{now:?}")); },
            _ => {}
        }
        self.m = now;
    }
    async fn sql(&self, s: &str) { sqlx::query(s).execute(&self.repo.executor).await.expect("VERIF-HARNESS sql"); }
    async fn step(&mut self, r: &mut Rng, faults: bool) {
        let m = self.m.clone();
        let faulted = faults && r.chance(50);
        if faulted {
            let t = *r.pick(&["database", "collection", "\"table\"", "table_version", "table_version", "table_column", "table_column", "function", "dropped_table"]);
            let ev = *r.pick(&["INSERT", "INSERT", "INSERT", "UPDATE", "DELETE"]);
            let at = *r.pick(&["BEFORE", "AFTER"]);
            let when = if t == "table_column" && ev == "INSERT" && r.chance(60) { "WHEN NEW.name IN ('c1', 'c2')" } else { "" };
            self.sql(&format!("CREATE TRIGGER vfault {at} {ev} ON {t} {when} BEGIN SELECT RAISE(ABORT, 'injected fault'); END")).await;
            self.log.push(format!("[a fault {at} {ev} ON {t} {when}]"));
        }
        let at = |h: &mut H, s: String| { if let Ok(p) = std::env::var("VERIF_AT") { let _ = std::fs::write(p, &s); } h.log.push(s) };
        let (key, res, next): (&str, Result<(), Error>, Next) = match r.below(26) {
            0 => { let n = name(r); at(self, format!("create_database({n:?})"));
                let a = self.repo.create_database(&n).await;
                let next = if m.dbs.values().any(|x| *x == n) { Err(K::Unique) } else { let mut x = m.clone(); if let Ok(i) = &a { x.dbs.insert(*i, n); } if x.dbs.len() == m.dbs.len() && a.is_ok() { self.bad("create_database/id", "a new id".into(), format!("{a:?}")); } Ok(x) };
                ("create_database", a.map(|_| ()), next) }
            1 | 2 | 3 => { let (d, n) = (some_id(r, keys(&m.dbs)), name(r)); at(self, format!("create_collection({d}, {n:?})"));
                let a = self.repo.create_collection(d, &n).await;
                let next = if !m.dbs.contains_key(&d) { Err(K::Fk) } else if m.colls.values().any(|x| *x == (d, n.clone())) { Err(K::Unique) } else { let mut x = m.clone(); if let Ok(i) = &a { x.colls.insert(*i, (d, n)); } Ok(x) };
                ("create_collection", a.map(|_| ()), next) }
            4 | 5 | 6 | 7 | 8 => { let (c, n, s, u) = (some_id(r, keys(&m.colls)), name(r), schema(r), uid(r)); at(self, format!("create_table({c}, {n:?}, {:?}, {u})", s.fields().iter().map(|f| f.name()).collect::<Vec<_>>()));
                let a = self.repo.create_table(c, &n, &s, u).await;
                let names: BTreeSet<&String> = s.fields().iter().map(|f| f.name()).collect();
                let next = if !m.colls.contains_key(&c) { Err(K::Fk) } else if m.tabs.values().any(|x| x.0 == c && x.1 == n) || names.len() < s.fields().len() { Err(K::Unique) }
                    else { let mut x = m.clone(); if let Ok((t, v)) = &a { x.tabs.insert(*t, (c, n, u)); let now = dump(&self.repo).await; let time = now.vers.get(v).map(|q| q.2).unwrap_or(-1); x.vers.insert(*v, (*t, 0, time)); for f in s.fields() { x.cols.insert((*v, f.name().clone(), serde_json::to_string(f).unwrap())); } } Ok(x) };
                ("create_table", a.map(|_| ()), next) }
            9 | 10 | 11 => { let (u, v) = (if r.chance(90) && !m.tabs.is_empty() { let k = *r.pick(&keys(&m.tabs)); m.tabs[&k].2 } else { uid(r) }, *r.pick(&[0i64, 1, 2, 7, i64::MAX, -1])); at(self, format!("create_new_version({u}, {v})"));
                let a = self.repo.create_new_version(u, v).await;
                let last = m.vers.iter().filter(|(_, x)| m.tabs[&x.0].2 == u).map(|(k, _)| *k).max();
                let next = match last { None => Err(K::Other), Some(l) => { let mut x = m.clone(); if let Ok(i) = &a { let now = dump(&self.repo).await; let time = now.vers.get(i).map(|q| q.2).unwrap_or(-1); x.vers.insert(*i, (m.vers[&l].0, v, time)); for c in m.cols.iter().filter(|c| c.0 == l) { x.cols.insert((*i, c.1.clone(), c.2.clone())); } } Ok(x) } };
                ("create_new_version", a.map(|_| ()), next) }
            12 => { let t = some_id(r, keys(&m.tabs)); at(self, format!("delete_old_versions({t})"));
                let a = self.repo.delete_old_versions(t).await;
                let mut x = m.clone(); let keep = m.newest(t); x.drop_vers(|k, v| v.0 == t && Some(k) != keep);
                if let Ok(n) = &a { if *n as usize != m.vers.len() - x.vers.len() { self.bad("delete_old_versions/count", format!("{}", m.vers.len() - x.vers.len()), format!("{n}")); } }
                ("delete_old_versions", a.map(|_| ()), Ok(x)) }
            13 | 14 => { let (t, n, c) = (some_id(r, keys(&m.tabs)), name(r), if r.chance(50) { Some(some_id(r, keys(&m.colls))) } else { None }); at(self, format!("rename_table({t}, {n:?}, {c:?})"));
                let a = self.repo.rename_table(t, &n, c).await;
                let next = match m.tabs.get(&t) { None => Err(K::Other), Some(old) => { let nc = c.unwrap_or(old.0); if m.tabs.iter().any(|(k, x)| *k != t && x.0 == nc && x.1 == n) { Err(K::Unique) } else if !m.colls.contains_key(&nc) { Err(K::Fk) } else { let mut x = m.clone(); x.tabs.insert(t, (nc, n, old.2)); Ok(x) } } };
                ("rename_table", a, next) }
            15 | 16 | 17 => { let (d, n, repl, det) = (some_id(r, keys(&m.dbs)), name(r), r.chance(50), details(r)); at(self, format!("create_function({d}, {n:?}, {repl}, {:?})", fun_row(&n, &det)));
                let a = self.repo.create_function(d, &n, repl, &det).await;
                let old = m.funs.iter().find(|(_, f)| f.0 == d && f.1[0] == n).map(|(k, _)| *k);
                let next = if !m.dbs.contains_key(&d) { Err(K::Fk) } else if old.is_some() && !repl { Err(K::Unique) } else { let mut x = m.clone(); if let Ok(i) = &a { if let Some(o) = old { x.funs.remove(&o); } x.funs.insert(*i, (d, fun_row(&n, &det))); } Ok(x) };
                ("create_function", a.map(|_| ()), next) }
            18 | 19 => { let d = some_id(r, keys(&m.dbs)); let mut ns: Vec<String> = (0..1 + r.below(4)).map(|_| name(r)).collect(); if r.chance(5) { ns.clear(); } at(self, format!("drop_function({d}, {ns:?})"));
                let a = self.repo.drop_function(d, &ns).await;
                let mut x = m.clone(); x.funs.retain(|_, f| !(f.0 == d && ns.contains(&f.1[0])));
                let next = if x.funs.len() == m.funs.len() { Err(K::Other) } else { Ok(x) };
                ("drop_function", a, next) }
            20 => { let t = some_id(r, keys(&m.tabs)); at(self, format!("delete_table({t})")); let a = self.repo.delete_table(t).await;
                let mut x = m.clone(); x.drop_tab(t); ("delete_table", a, if m.tabs.contains_key(&t) { Ok(x) } else { Err(K::Other) }) }
            21 if r.chance(40) => { let t = some_id(r, keys(&m.colls)); at(self, format!("delete_collection({t})")); let a = self.repo.delete_collection(t).await;
                let mut x = m.clone(); x.drop_coll(t); ("delete_collection", a, if m.colls.contains_key(&t) { Ok(x) } else { Err(K::Other) }) }
            22 if r.chance(30) => { let t = some_id(r, keys(&m.dbs)); at(self, format!("delete_database({t})")); let a = self.repo.delete_database(t).await;
                let mut x = m.clone(); x.drop_db(t); ("delete_database", a, if m.dbs.contains_key(&t) { Ok(x) } else { Err(K::Other) }) }
            23 => { let u = uid(r); let s = *r.pick(&[DroppedTableDeletionStatus::Pending, DroppedTableDeletionStatus::Retry, DroppedTableDeletionStatus::Failed]); at(self, format!("update_dropped_table({u}, {s:?})"));
                let a = self.repo.update_dropped_table(u, s).await;
                let st = match s { DroppedTableDeletionStatus::Pending => "PENDING", DroppedTableDeletionStatus::Retry => "RETRY", DroppedTableDeletionStatus::Failed => "FAILED" };
                let mut x = m.clone(); x.dropped = m.dropped.iter().map(|d| if d.3 == u { (d.0.clone(), d.1.clone(), d.2.clone(), d.3, st.to_string(), d.5) } else { d.clone() }).collect();
                ("update_dropped_table", a, if m.dropped.iter().any(|d| d.3 == u) { Ok(x) } else { Err(K::Other) }) }
            24 if r.chance(40) => { let u = uid(r); at(self, format!("delete_dropped_table({u})")); let a = self.repo.delete_dropped_table(u).await;
                let mut x = m.clone(); x.dropped.retain(|d| d.3 != u); let some = m.dropped.len() != x.dropped.len(); ("delete_dropped_table", a, if some { Ok(x) } else { Err(K::Other) }) }
            _ => {
                // changes made by others: a table dropped, the clock of a version moved
                if faulted { self.sql("DROP TRIGGER vfault").await; }
                if r.chance(50) { let (a, b, c, u, t) = (name(r), name(r), format!("t{}", r.below(1000000)), uid(r), r.below(1 << 40) as i64); at(self, format!("[a dropped table {a:?}.{b:?}.{c} {u}]"));
                    sqlx::query("INSERT INTO dropped_table (database_name, collection_name, table_name, uuid, drop_time) VALUES ($1, $2, $3, $4, $5)").bind(a).bind(b).bind(c).bind(u).bind(t).execute(&self.repo.executor).await.expect("VERIF-HARNESS dropped"); }
                else if !m.vers.is_empty() { let v = *r.pick(&keys(&m.vers)); let t = *r.pick(&[1i64, 1000, 2_000_000_000, 5_000_000_000]); at(self, format!("[version {v} at {t}]"));
                    sqlx::query("UPDATE table_version SET creation_time = $1 WHERE id = $2").bind(t).bind(v).execute(&self.repo.executor).await.expect("VERIF-HARNESS time"); }
                self.m = dump(&self.repo).await;
                return;
            }
        };
        if faulted { self.sql("DROP TRIGGER vfault").await; }
        self.settle(key, res, next, faulted).await;
    }
    /// one call of the store the statements go through, by names
    async fn store_step(&mut self, r: &mut Rng) {
        use catalog::*; case();
        let s = catalog::repository::RepositoryStore { repository: self.repo.clone() }; let m = self.m.clone(); let staging = r.chance(4);
        let (d, c, t) = (name(r), if staging { "staging".to_string() } else { name(r) }, name(r)); let (c2, t2) = (if r.chance(50) { c.clone() } else { name(r) }, name(r));
        // (mostly what is there)
        let (d, c, t) = if r.chance(70) && !m.tabs.is_empty() && !staging { let x = &m.tabs[r.pick(&keys(&m.tabs))]; let y = &m.colls[&x.0]; (m.dbs[&y.0].clone(), y.1.clone(), x.1.clone()) } else { (d, c, t) };
        let there: Vec<&String> = m.colls.values().filter(|x| m.dbs[&x.0] == d).map(|x| &x.1).collect(); let c2 = if r.chance(60) && !there.is_empty() { r.pick(&there).to_string() } else { c2 };
        let db = m.dbs.iter().find(|(_, n)| **n == d).map(|(k, _)| *k); let coll = |c: &String| db.and_then(|d| m.colls.iter().find(|(_, x)| x.0 == d && x.1 == *c && c != "staging").map(|(k, _)| *k));
        let tab = db.and_then(|d| m.tabs.iter().find(|(_, x)| x.1 == t && m.colls[&x.0] == (d, c.clone())).map(|(k, _)| *k)); let (o, o2) = (coll(&c), coll(&c2));
        let (key, res, next): (&str, Result<(), CatalogError>, Option<M>) = match r.below(14) {
            0 => { self.log.push(format!("store: create {d:?}")); let a = CatalogStore::create(&s, &d).await; let now = dump(&self.repo).await; ("store create database", a, if db.is_some() { None } else { let mut x = m.clone(); x.dbs.extend(now.dbs.iter().filter(|(k, n)| !m.dbs.contains_key(k) && **n == d).map(|(k, n)| (*k, n.clone())).take(1)); if x.dbs.len() == m.dbs.len() { x.dbs.insert(-9, d.clone()); } Some(x) }) }
            1 => { self.log.push(format!("store: create {d:?}.{c2:?}")); let a = SchemaStore::create(&s, &d, &c2).await; let now = dump(&self.repo).await; ("store create schema", a, match db { Some(i) if c2 != "staging" && o2.is_none() => { let mut x = m.clone(); x.colls.extend(now.colls.iter().filter(|(k, n)| !m.colls.contains_key(k) && **n == (i, c2.clone())).map(|(k, n)| (*k, n.clone())).take(1)); if x.colls.len() == m.colls.len() { x.colls.insert(-9, (i, c2.clone())); } Some(x) } _ => None }) }
            2 if r.chance(30) => { self.log.push(format!("store: delete {d:?}")); let a = CatalogStore::delete(&s, &d).await; ("store delete database", a, db.map(|i| { let mut x = m.clone(); x.drop_db(i); x })) }
            3 if r.chance(40) => { self.log.push(format!("store: delete {d:?}.{c:?}")); let a = SchemaStore::delete(&s, &d, &c).await; ("store delete schema", a, o.map(|i| { let mut x = m.clone(); x.drop_coll(i); x })) }
            4 | 5 => { let (sc, u) = (Schema::new(vec![field(r, "x")]), uid(r)); self.log.push(format!("store: create {d:?}.{c:?}.{t2:?} {u}")); let a = TableStore::create(&s, &d, &c, &t2, &sc, u).await;
                let next = match o { Some(i) if !m.tabs.values().any(|x| x.0 == i && x.1 == t2) => { let mut x = m.clone(); if let Ok((k, v)) = &a { let now = dump(&self.repo).await; x.tabs.insert(*k, (i, t2.clone(), u)); x.vers.insert(*v, (*k, 0, now.vers.get(v).map(|q| q.2).unwrap_or(-1))); x.cols.insert((*v, "x".into(), serde_json::to_string(sc.field(0)).unwrap())); } Some(x) } _ => None };
                ("store create table", a.map(|_| ()), next) }
            6 => { self.log.push(format!("store: delete old versions of {d:?}.{c:?}.{t:?}")); let a = TableStore::delete_old_versions(&s, &d, &c, &t).await; ("store delete old versions", a.map(|_| ()), tab.map(|t| { let mut x = m.clone(); let keep = m.newest(t); x.drop_vers(|k, v| v.0 == t && Some(k) != keep); x })) }
            7 | 8 | 9 => { self.log.push(format!("store: rename {d:?}.{c:?}.{t:?} to {c2:?}.{t2:?}")); let a = TableStore::update(&s, &d, &c, &t, &d, &c2, &t2).await;
                let to = if c2 == c { tab.map(|t| m.tabs[&t].0) } else { o2 };
                ("store rename", a, match (tab, to) { (Some(k), Some(n)) if !m.tabs.iter().any(|(j, x)| *j != k && x.0 == n && x.1 == t2) => { let mut x = m.clone(); let u = m.tabs[&k].2; x.tabs.insert(k, (n, t2.clone(), u)); Some(x) } _ => None }) }
            10 => { self.log.push(format!("store: delete {d:?}.{c:?}.{t:?}")); let a = TableStore::delete(&s, &d, &c, &t).await; ("store delete table", a, tab.map(|i| { let mut x = m.clone(); x.drop_tab(i); x })) }
            11 => { let (n, repl, det) = (name(r), r.chance(50), details(r)); self.log.push(format!("store: function {d:?} {n:?} {repl}")); let a = FunctionStore::create(&s, &d, &n, repl, &det).await; let now = dump(&self.repo).await;
                let old = m.funs.iter().find(|(_, f)| Some(f.0) == db && f.1[0] == n).map(|(k, _)| *k);
                ("store create function", a, match db { Some(i) if old.is_none() || repl => { let mut x = m.clone(); if let Some(o) = old { x.funs.remove(&o); } let id = now.funs.iter().find(|(k, f)| f.0 == i && f.1[0] == n && (old == Some(**k) || !m.funs.contains_key(k))).map(|(k, _)| *k).unwrap_or(-9); x.funs.insert(id, (i, fun_row(&n, &det))); Some(x) } _ => None }) }
            12 => { let ie = r.chance(50); let ns: Vec<String> = (0..1 + r.below(3)).map(|_| name(r)).collect(); self.log.push(format!("store: drop functions {d:?} {ns:?} {ie}")); let a = FunctionStore::delete(&s, &d, ie, &ns).await;
                let mut x = m.clone(); x.funs.retain(|_, f| !(Some(f.0) == db && ns.contains(&f.1[0]))); ("store drop functions", a, if db.is_some() && (ie || x.funs.len() < m.funs.len()) { Some(x) } else { None }) }
            _ => { self.log.push(format!("store: list {d:?}"));
                // every schema with its tables, each once, with the prefix it is at
                let mut want: Vec<String> = m.colls.iter().filter(|(_, x)| Some(x.0) == db).map(|(k, x)| { let mut t: Vec<String> = m.tabs.values().filter(|t| t.0 == *k).map(|t| format!("{:?} at {}", t.1, t.2)).collect(); t.sort(); format!("{:?} {t:?}", x.1) }).collect(); want.sort();
                let mut g = SchemaStore::get(&s, &d, &c).await.map(|x| x.id).ok(); if o != g { self.bad("store get schema", format!("{o:?}"), format!("{g:?}")); }
                g = TableStore::get(&s, &d, &c, &t).await.map(|x| x.id).ok(); if tab != g { self.bad("store get table", format!("{tab:?}"), format!("{g:?}")); }
                let a = SchemaStore::list(&s, &d).await; match a { Ok(a) => { let mut got: Vec<String> = a.schemas.iter().map(|x| { let mut t: Vec<String> = x.tables.iter().map(|t| format!("{:?} at {}", t.name, t.path)).collect(); t.sort(); format!("{:?} {t:?}", x.name) }).collect(); got.sort(); if got != want { self.bad("store list", format!("{want:?}"), format!("{got:?}")); } ("store list", Ok(()), Some(m.clone())) } Err(e) => ("store list", Err(e), Some(m.clone())) } }
        };
        let now = dump(&self.repo).await; let want = next.clone().unwrap_or(m);
        match (&res, &next) { (Ok(()), None) => self.bad(key, "an error, nothing changed".into(), "success".into()), (Err(e), Some(_)) => self.bad(key, "success".into(), format!("{e:?}")), _ if now != want => self.bad(key, format!("{want:?}"), format!("{now:?}")), _ => {} }
        self.m = now;
    }
    async fn reads(&mut self, r: &mut Rng) {
        case();
        let m = self.m.clone();
        let dn = name(r); let cn = name(r); let tn = name(r);
        let db = m.dbs.iter().find(|(_, n)| **n == dn).map(|(k, _)| *k);
        let a = self.repo.get_database(&dn).await;
        match (&a, db) { (Ok(x), Some(d)) if *x == (DatabaseRecord { id: d, name: dn.clone() }) => {} (Err(e), None) if matches!(e, Error::SqlxError(sqlx::Error::RowNotFound)) => {} _ => self.bad("get_database", format!("{dn:?} -> {db:?}"), format!("{a:?}")) }
        let coll = db.and_then(|d| m.colls.iter().find(|(_, c)| **c == (d, cn.clone())).map(|(k, _)| (*k, d)));
        let a = self.repo.get_collection(&dn, &cn).await;
        match (&a, coll) { (Ok(x), Some((c, d))) if *x == (CollectionRecord { id: c, database_id: d, name: cn.clone() }) => {} (Err(e), None) if matches!(e, Error::SqlxError(sqlx::Error::RowNotFound)) => {} _ => self.bad("get_collection", format!("{dn:?}.{cn:?} -> {coll:?}"), format!("{a:?}")) }
        let tab = coll.and_then(|(c, _)| m.tabs.iter().find(|(_, t)| t.0 == c && t.1 == tn).map(|(k, _)| (*k, c)));
        let a = self.repo.get_table(&dn, &cn, &tn).await;
        match (&a, tab) { (Ok(x), Some((t, c))) if *x == (TableRecord { id: t, collection_id: c, name: tn.clone() }) => {} (Err(e), None) if matches!(e, Error::SqlxError(sqlx::Error::RowNotFound)) => {} _ => self.bad("get_table", format!("{dn:?}.{cn:?}.{tn:?} -> {tab:?}"), format!("{a:?}")) }
        // the listing: every collection, its tables, the columns of each table's latest version
        let mut want: Vec<String> = vec![];
        if let Some(d) = db { for (c, (_, cname)) in m.colls.iter().filter(|(_, c)| c.0 == d) {
            let ts: Vec<_> = m.tabs.iter().filter(|(_, t)| t.0 == *c).collect();
            if ts.is_empty() { want.push(format!("{:?}", AllDatabaseColumnsResult { database_name: dn.clone(), collection_name: cname.clone(), ..Default::default() })); }
            for (t, (_, tname, u)) in ts {
                let v = m.vers.iter().filter(|(_, v)| v.0 == *t).map(|(k, _)| *k).max();
                let base = |n: Option<String>, ty: Option<String>| format!("{:?}", AllDatabaseColumnsResult { database_name: dn.clone(), collection_name: cname.clone(), table_name: Some(tname.clone()), table_id: Some(*t), table_uuid: Some(*u), table_version_id: v, column_name: n, column_type: ty });
                let cs: Vec<_> = m.cols.iter().filter(|x| Some(x.0) == v).collect();
                if cs.is_empty() { want.push(base(None, None)); }
                for x in cs { want.push(base(Some(x.1.clone()), Some(x.2.clone()))); }
            }
        } }
        match self.repo.list_collections(&dn).await {
            Ok(a) => {
                let keys: Vec<_> = a.iter().map(|x| (x.collection_name.clone(), x.table_name.clone(), x.table_version_id, x.column_name.clone())).collect();
                if !keys.windows(2).all(|w| w[0] <= w[1]) { self.bad("list_collections/order", "ordered by collection, table, version, column".into(), format!("{keys:?}")); }
                let mut got: Vec<String> = a.iter().map(|x| format!("{x:?}")).collect(); got.sort(); want.sort();
                if got != want { self.bad("list_collections", format!("{want:?}"), format!("{got:?}")); }
            }
            Err(e) => self.bad("list_collections", format!("{want:?}"), format!("{e:?}")),
        }
        let only: Option<Vec<String>> = match r.below(4) { 0 => None, 1 => Some(vec![]), _ => Some((0..1 + r.below(4)).map(|_| name(r)).collect()) };
        let mut want: Vec<String> = m.vers.iter().filter_map(|(k, v)| { let t = &m.tabs[&v.0]; let c = &m.colls[&t.0]; let d = &m.dbs[&c.0]; if *d != dn || only.as_ref().map_or(false, |o| !o.is_empty() && !o.contains(&t.1)) { return None } Some(format!("{:?}", TableVersionsResult { database_name: d.clone(), collection_name: c.1.clone(), table_name: t.1.clone(), table_version_id: *k, version: v.1, creation_time: v.2 })) }).collect();
        want.sort();
        match self.repo.get_all_versions(&dn, only.clone()).await { Ok(a) => { let mut got: Vec<String> = a.iter().map(|x| format!("{x:?}")).collect(); got.sort(); if got != want { self.bad("get_all_versions", format!("{dn:?} {only:?}: {want:?}"), format!("{got:?}")); } } Err(e) => self.bad("get_all_versions", format!("{want:?}"), format!("{e:?}")) }
        let d = some_id(r, keys(&m.dbs));
        let mut want: Vec<String> = m.funs.iter().filter(|(_, f)| f.0 == d).map(|(k, f)| format!("{:?}", AllDatabaseFunctionsResult { name: f.1[0].clone(), id: *k, entrypoint: f.1[1].clone(), language: f.1[2].clone(), input_types: f.1[3].clone(), return_type: f.1[4].clone(), data: f.1[5].clone(), volatility: f.1[6].clone() })).collect(); want.sort();
        match self.repo.get_all_functions_in_database(d).await { Ok(a) => { let mut got: Vec<String> = a.iter().map(|x| format!("{x:?}")).collect(); got.sort(); if got != want { self.bad("get_all_functions_in_database", format!("{want:?}"), format!("{got:?}")); } } Err(e) => self.bad("get_all_functions_in_database", format!("{want:?}"), format!("{e:?}")) }
        let which = if r.chance(50) { None } else { Some(name(r)) };
        let st = |s: &str| match s { "PENDING" => DroppedTableDeletionStatus::Pending, "RETRY" => DroppedTableDeletionStatus::Retry, _ => DroppedTableDeletionStatus::Failed };
        let mut want: Vec<String> = m.dropped.iter().filter(|x| which.as_ref().map_or(true, |w| *w == x.0)).map(|x| format!("{:?}", DroppedTablesResult { database_name: x.0.clone(), collection_name: x.1.clone(), table_name: x.2.clone(), uuid: x.3, deletion_status: st(&x.4), drop_time: x.5 })).collect(); want.sort();
        match self.repo.get_dropped_tables(which.clone()).await { Ok(a) => { let mut got: Vec<String> = a.iter().map(|x| format!("{x:?}")).collect(); got.sort(); if got != want { self.bad("get_dropped_tables", format!("{which:?}: {want:?}"), format!("{got:?}")); } } Err(e) => self.bad("get_dropped_tables", format!("{want:?}"), format!("{e:?}")) }
        let now = dump(&self.repo).await;
        if now != m { self.bad("read-writes", format!("{m:?}"), format!("{now:?}")); self.m = now; }
    }
}
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("VERIF-HARNESS rt");
    let rounds = if thorough() { 300 } else { 40 };
    rt.block_on(async {
        for faults in [false, true] {
            for i in 0..rounds {
                let mut r = Rng::new(seed().wrapping_mul(1000) + i + if faults { 500_000 } else { 0 });
                let repo = match SqliteRepository::try_new("sqlite://:memory:".into(), sqlx::sqlite::SqliteJournalMode::Memory).await { Ok(x) => x, Err(e) => { violation("open", "sqlite://:memory:", "a repository", &format!("{e:?}")); break } };
                let mut h = H { m: dump(&repo).await, repo: std::sync::Arc::new(repo), log: vec![] };
                for _ in 0..60 { h.step(&mut r, faults).await; if r.chance(20) { h.reads(&mut r).await; } if r.chance(70) { h.store_step(&mut r).await; } }
            }
            set(if faults { "histories with a fault in one statement" } else { "histories" });
        }
    });
    done();
}
