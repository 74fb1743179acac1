#![feature(let_chains)]
#![allow(dead_code, unused_imports, unused_variables, ambiguous_glob_reexports, hidden_glob_reexports)]
// C15: the real wrapper, factory and cache layers over a store that records what reaches it, the real local file
// system in scratch directories, and the real upload by moving a file.
include!("common.rs");
use common::*;
pub mod config { pub mod schema {
//@verbatim src/config/schema.rs | fn str_to_hex_hash ; const MEBIBYTES | skipuse=object_store_factory,config,metrics_exporter_prometheus
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct ObjectCacheProperties { pub capacity: u64, pub min_fetch_size: u64, pub ttl: u64 }
    pub struct Misc { pub object_store_cache: Option<ObjectCacheProperties> }
    pub struct SeafowlConfig { pub object_store: Option<crate::object_store_factory::ObjectStoreConfig>, pub misc: Misc }
} }
// the iceberg crate is not available here; the names of its properties do not matter to what is checked
pub mod iceberg { pub mod io {
    pub const S3_ACCESS_KEY_ID: &str = "s3.access-key-id"; pub const S3_ALLOW_ANONYMOUS: &str = "s3.allow-anonymous"; pub const S3_DISABLE_CONFIG_LOAD: &str = "s3.disable-config-load";
    pub const S3_DISABLE_EC2_METADATA: &str = "s3.disable-ec2-metadata"; pub const S3_ENDPOINT: &str = "s3.endpoint"; pub const S3_REGION: &str = "s3.region"; pub const S3_SECRET_ACCESS_KEY: &str = "s3.secret-access-key"; pub const S3_SESSION_TOKEN: &str = "s3.session-token";
} }
// nor is deltalake: a log store that remembers the store and the location it was given
pub mod deltalake {
    pub mod logstore {
        pub trait LogStore: Send + Sync { fn object_store(&self) -> std::sync::Arc<dyn object_store::ObjectStore>; fn root_uri(&self) -> String; }
        pub struct L(pub std::sync::Arc<dyn object_store::ObjectStore>, pub url::Url);
        impl LogStore for L { fn object_store(&self) -> std::sync::Arc<dyn object_store::ObjectStore> { self.0.clone() } fn root_uri(&self) -> String { self.1.to_string() } }
        pub fn default_logstore(s: std::sync::Arc<dyn object_store::ObjectStore>, u: &url::Url, _: &super::storage::StorageOptions) -> std::sync::Arc<dyn LogStore> { std::sync::Arc::new(L(s, u.clone())) }
    }
    pub mod storage {
        pub type ObjectStoreRef = std::sync::Arc<dyn object_store::ObjectStore>;
        #[derive(Default)] pub struct StorageOptions(pub std::collections::HashMap<String, String>);
        pub trait ObjectStoreFactory: Send + Sync { fn parse_url_opts(&self, url: &url::Url, options: &StorageOptions) -> super::DeltaResult<(ObjectStoreRef, super::Path)>; }
        pub type FactoryRegistry = std::sync::Arc<dashmap::DashMap<url::Url, std::sync::Arc<dyn ObjectStoreFactory>>>;
    }
    #[derive(Debug)] pub enum DeltaTableError { InvalidTableLocation(String) }
    pub type DeltaResult<T> = Result<T, DeltaTableError>;
    pub use object_store::path::Path;
}
pub mod object_store_factory {
    pub mod aws { use crate::iceberg::io::*;
//@verbatim object_store_factory/src/aws.rs | * | skipuse=iceberg
    }
    #[path = "/repo/object_store_factory/src/google.rs"] pub mod google;
    #[path = "/repo/object_store_factory/src/local.rs"] pub mod local;
    #[path = "/repo/object_store_factory/src/memory.rs"] pub mod memory;
    use self::aws::*; use self::google::*; use self::local::*;
//@verbatim object_store_factory/src/lib.rs | * | skipuse=aws,google,local,memory
}
pub use object_store_factory::{aws, google, local, memory};
pub mod layers {
    pub use crate::config;
    #[path = "/repo/src/object_store/cache.rs"] pub mod cache;
    pub mod wrapped { use crate::{object_store_factory::{self, *, aws::*, google::*, local::*}, deltalake::{self, *, logstore::*, storage::*}};
//@verbatim src/object_store/wrapped.rs | * | skipuse=deltalake,object_store_factory
    }
    pub mod factory { use crate::{object_store_factory::{self, ObjectStoreConfig}, deltalake::{self, logstore::*, storage::{FactoryRegistry, ObjectStoreRef, StorageOptions}, DeltaResult, DeltaTableError, Path}, config::schema::*}; use super::{cache::*, wrapped::*};
//@verbatim src/object_store/factory.rs | * | skipuse=deltalake,object_store_factory
    }
    pub mod utils {
//@verbatim src/object_store/utils.rs | *
    }
}
use bytes::Bytes;
use config::schema::*;
use futures::{stream::BoxStream, StreamExt};
use layers::{cache::CachingObjectStore, factory::*, wrapped::InternalObjectStore};
use object_store::{memory::InMemory, path::Path, *};
use object_store_factory::{aws::S3Config, google::GCSConfig, local::LocalConfig, ObjectStoreConfig};
use std::collections::HashMap;
use std::ops::Range;
use std::sync::{Arc, Mutex};
use url::Url;

/// records every operation that reaches it and answers each with something of its own
#[derive(Debug, Default)]
pub struct Rec { pub log: Mutex<Vec<String>>, pub fail: bool, pub list: Mutex<Vec<Option<String>>>, pub fail_at: Option<usize> }
impl Rec {
    fn say(&self, s: String) -> Result<usize> { let mut l = self.log.lock().unwrap(); l.push(s); let n = l.len(); if self.fail || self.fail_at == Some(n) { Err(Error::NotFound { path: format!("answer {n}"), source: "rec".into() }) } else { Ok(n) } }
}
impl std::fmt::Display for Rec { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "rec") } }
fn meta(p: &str, n: usize) -> ObjectMeta { ObjectMeta { location: Path::from(p), last_modified: chrono::DateTime::from_timestamp(n as i64, 0).unwrap(), size: n, e_tag: Some(format!("answer {n}")), version: None } }
#[derive(Debug)] pub struct Up(usize);
#[async_trait::async_trait]
impl MultipartUpload for Up { fn put_part(&mut self, _: PutPayload) -> UploadPart { Box::pin(async { Ok(()) }) } async fn complete(&mut self) -> Result<PutResult> { Ok(PutResult { e_tag: Some(format!("answer {}", self.0)), version: None }) } async fn abort(&mut self) -> Result<()> { Ok(()) } }
#[async_trait::async_trait]
impl ObjectStore for Rec {
    async fn put_opts(&self, l: &Path, p: PutPayload, o: PutOptions) -> Result<PutResult> { let n = self.say(format!("put {l} {:?} {o:?}", p.iter().flat_map(|b| b.to_vec()).collect::<Vec<u8>>()))?; Ok(PutResult { e_tag: Some(format!("answer {n}")), version: None }) }
    async fn put_multipart_opts(&self, l: &Path, o: PutMultipartOpts) -> Result<Box<dyn MultipartUpload>> { let n = self.say(format!("multipart {l} {o:?}"))?; Ok(Box::new(Up(n))) }
    async fn get_opts(&self, l: &Path, o: GetOptions) -> Result<GetResult> { let n = self.say(format!("get {l} {o:?}"))?; Ok(GetResult { payload: GetResultPayload::Stream(Box::pin(futures::stream::iter([Ok(Bytes::from(format!("answer {n}")))]))), meta: meta("x", n), range: 0..n, attributes: Attributes::new() }) }
    async fn get_range(&self, l: &Path, r: Range<usize>) -> Result<Bytes> { let n = self.say(format!("get_range {l} {r:?}"))?; Ok(Bytes::from(format!("answer {n}"))) }
    async fn head(&self, l: &Path) -> Result<ObjectMeta> { let n = self.say(format!("head {l}"))?; Ok(meta("x", n)) }
    async fn delete(&self, l: &Path) -> Result<()> { self.say(format!("delete {l}"))?; Ok(()) }
    fn list(&self, p: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> {
        let r = self.say(format!("list {p:?}"));
        let items: Vec<Result<ObjectMeta>> = match r { Err(e) => vec![Err(e)], Ok(_) => self.list.lock().unwrap().iter().enumerate().map(|(i, x)| match x { Some(p) => Ok(meta(p, i)), None => Err(Error::NotFound { path: "listing".into(), source: "rec".into() }) }).collect() };
        futures::stream::iter(items).boxed()
    }
    async fn list_with_delimiter(&self, p: Option<&Path>) -> Result<ListResult> { let n = self.say(format!("listd {p:?}"))?; Ok(ListResult { common_prefixes: vec![], objects: vec![meta("x", n)] }) }
    async fn copy(&self, a: &Path, b: &Path) -> Result<()> { self.say(format!("copy {a} {b}"))?; Ok(()) }
    async fn copy_if_not_exists(&self, a: &Path, b: &Path) -> Result<()> { self.say(format!("copy_new {a} {b}"))?; Ok(()) }
    async fn rename(&self, a: &Path, b: &Path) -> Result<()> { self.say(format!("rename {a} {b}"))?; Ok(()) }
    async fn rename_if_not_exists(&self, a: &Path, b: &Path) -> Result<()> { self.say(format!("rename_new {a} {b}"))?; Ok(()) }
}
fn configs(r: &mut Rng, dir: &str) -> Vec<ObjectStoreConfig> {
    let mut v = vec![ObjectStoreConfig::Memory];
    for d in [false, true] { v.push(ObjectStoreConfig::Local(LocalConfig { data_dir: dir.to_string(), disable_hardlinks: d })); }
    for prefix in [None, Some("pre"), Some("some/long/path"), Some("trailing/")] {
        for endpoint in [None, Some("http://127.0.0.1:9000".to_string())] {
            v.push(ObjectStoreConfig::AmazonS3(S3Config { bucket: format!("bucket{}", r.below(9)), prefix: prefix.map(String::from), endpoint, region: Some("us-east-1".into()), access_key_id: Some("k".into()), secret_access_key: Some("s".into()), ..Default::default() }));
        }
        v.push(ObjectStoreConfig::GoogleCloudStorage(GCSConfig { bucket: format!("bucket{}", r.below(9)), prefix: prefix.map(String::from), google_application_credentials: None }));
    }
    v
}
fn cls(r: &std::result::Result<String, Error>) -> String { match r { Ok(s) => format!("ok {s}"), Err(e) => format!("error {e}") } }
/// one operation on a store: how it is written, what came back
async fn op(s: &dyn ObjectStore, k: usize, a: &Path, b: &Path, n: usize) -> (String, std::result::Result<String, Error>) {
    let pay = || PutPayload::from(vec![n as u8; 3]);
    match k {
        0 => (format!("put({a})"), s.put(a, pay()).await.map(|x| x.e_tag.unwrap_or_default())),
        1 => (format!("put_opts({a}, Create)"), s.put_opts(a, pay(), PutMode::Create.into()).await.map(|x| x.e_tag.unwrap_or_default())),
        2 => { let t = { let mut t = TagSet::default(); t.push("k", "v"); t }; (format!("put_opts({a}, Overwrite, tags)"), s.put_opts(a, pay(), PutOptions { mode: PutMode::Overwrite, tags: t, attributes: Attributes::new() }).await.map(|x| x.e_tag.unwrap_or_default())) }
        3 => (format!("put_opts({a}, Update)"), s.put_opts(a, pay(), PutMode::Update(UpdateVersion { e_tag: Some(format!("{n}")), version: None }).into()).await.map(|x| x.e_tag.unwrap_or_default())),
        4 => (format!("put_multipart({a})"), match s.put_multipart(a).await { Ok(mut u) => u.complete().await.map(|x| x.e_tag.unwrap_or_default()), Err(e) => Err(e) }),
        5 => { let t = { let mut t = TagSet::default(); t.push("k", "w"); t }; (format!("put_multipart_opts({a}, tags)"), match s.put_multipart_opts(a, PutMultipartOpts { tags: t, attributes: Attributes::new() }).await { Ok(mut u) => u.complete().await.map(|x| x.e_tag.unwrap_or_default()), Err(e) => Err(e) }) }
        6 => (format!("get({a})"), match s.get(a).await { Ok(g) => { let m = g.meta.clone(); g.bytes().await.map(|b| format!("{b:?} {m:?}")) } Err(e) => Err(e) }),
        7 => (format!("get_opts({a}, ..)"), match s.get_opts(a, GetOptions { if_match: Some(format!("{n}")), range: Some(GetRange::Bounded(n..n + 2)), head: n % 2 == 0, ..Default::default() }).await { Ok(g) => { let m = g.meta.clone(); g.bytes().await.map(|b| format!("{b:?} {m:?}")) } Err(e) => Err(e) }),
        8 => (format!("head({a})"), s.head(a).await.map(|m| format!("{m:?}"))),
        9 => (format!("delete({a})"), s.delete(a).await.map(|_| String::new())),
        10 => { let v: Vec<_> = s.list(if n % 3 == 0 { None } else { Some(a) }).collect().await; (format!("list({a})"), Ok(format!("{:?}", v.iter().map(|x| x.as_ref().map(|m| m.location.to_string()).map_err(|e| e.to_string())).collect::<Vec<_>>()))) }
        11 => (format!("list_with_delimiter({a})"), s.list_with_delimiter(if n % 3 == 0 { None } else { Some(a) }).await.map(|m| format!("{:?}", m.objects))),
        12 => (format!("copy({a}, {b})"), s.copy(a, b).await.map(|_| String::new())),
        13 => (format!("copy_if_not_exists({a}, {b})"), s.copy_if_not_exists(a, b).await.map(|_| String::new())),
        14 => (format!("rename({a}, {b})"), s.rename(a, b).await.map(|_| String::new())),
        15 => (format!("rename_if_not_exists({a}, {b})"), s.rename_if_not_exists(a, b).await.map(|_| String::new())),
        16 => (format!("get_range({a}, {n}..{})", n + 5), s.get_range(a, n..n + 5).await.map(|b| format!("{b:?}"))),
        17 => { let items = vec![Ok(a.clone()), Err(Error::NotFound { path: "given".into(), source: "rec".into() }), Ok(b.clone())]; let v: Vec<_> = s.delete_stream(futures::stream::iter(items).boxed()).collect().await; (format!("delete_stream([{a}, an error, {b}])"), Ok(format!("{:?}", v.iter().map(|x| x.as_ref().map(|p| p.to_string()).map_err(|e| e.to_string())).collect::<Vec<_>>()))) }
        _ => unreachable!(),
    }
}
const OPS: usize = 18;
/// whatever is asked of the layer is asked of the store, and its answer handed back
async fn transparent(r: &mut Rng, dir: &str) {
    let paths: Vec<Path> = ["t/a.parquet", "t/b.parquet", "_delta_log/00000.json", "x"].iter().map(|x| Path::from(*x)).collect();
    for cfg in configs(r, dir) { for fail in [false, true] { for k in 0..OPS {
        let nolinks = matches!(&cfg, ObjectStoreConfig::Local(LocalConfig { disable_hardlinks: true, .. }));
        let s3 = matches!(&cfg, ObjectStoreConfig::AmazonS3(_));
        let (a, b, n) = (r.pick(&paths).clone(), r.pick(&paths).clone(), r.below(9) as usize + 1);
        let (plain, wrapped) = (Arc::new(Rec { fail, list: Mutex::new(vec![Some("l/1".into()), None, Some("l/2".into())]), ..Default::default() }), Arc::new(Rec { fail, list: Mutex::new(vec![Some("l/1".into()), None, Some("l/2".into())]), ..Default::default() }));
        let w = InternalObjectStore::new(wrapped.clone(), cfg.clone());
        // without hard links nothing can be created exclusively; S3 has no exclusive rename
        let k2 = match k { 1 | 2 | 3 if nolinks => 100 + k, 13 if nolinks => 12, 15 if nolinks || s3 => 14, _ => k };
        let (_, want) = if k2 >= 100 {
            let o = match k { 1 | 3 => PutOptions::default(), _ => { let mut t = TagSet::default(); t.push("k", "v"); PutOptions { tags: t, ..Default::default() } } };
            (String::new(), plain.put_opts(&a, PutPayload::from(vec![n as u8; 3]), o).await.map(|x| x.e_tag.unwrap_or_default()))
        } else if k2 == 14 { // the default rename of a store, which the wrapper itself may use
            (String::new(), plain.rename(&a, &b).await.map(|_| String::new()))
        } else { op(&*plain, k2, &a, &b, n).await };
        let (name, got) = op(&w, k, &a, &b, n).await;
        case();
        if k == 14 { continue; } // rename is left to the default of the trait: copy and delete
        let input = format!("InternalObjectStore with {}: {name} over a store that {}", short(&cfg), if fail { "fails" } else { "answers" });
        let (mut lw, lg) = (plain.log.lock().unwrap().clone(), wrapped.log.lock().unwrap().clone());
        let mut lg2 = lg.clone(); if k == 17 { lw.sort(); lg2.sort(); }
        if lw != lg2 { violation("operation", &input, &format!("the store is asked {lw:?}"), &format!("it was asked {lg:?}")); }
        else if cls(&want) != cls(&got) && !(k == 17 && fail) { violation("answer", &input, &cls(&want), &cls(&got)); }
    } } }
    for fail in [false, true] { for k in 0..OPS { if k == 16 || k == 15 || k == 14 { continue; }
        let (a, b, n) = (r.pick(&paths).clone(), r.pick(&paths).clone(), r.below(9) as usize + 1);
        let (plain, inner) = (Arc::new(Rec { fail, list: Mutex::new(vec![Some("l/1".into()), None, Some("l/2".into())]), ..Default::default() }), Arc::new(Rec { fail, list: Mutex::new(vec![Some("l/1".into()), None, Some("l/2".into())]), ..Default::default() }));
        let cdir = std::path::Path::new(dir).join("cache"); std::fs::create_dir_all(&cdir).unwrap();
        let c = CachingObjectStore::new(inner.clone(), &cdir, 10, 1000, std::time::Duration::from_secs(5));
        let (_, want) = op(&*plain, k, &a, &b, n).await;
        let (name, got) = op(&c, k, &a, &b, n).await;
        case();
        let input = format!("CachingObjectStore: {name} over a store that {}", if fail { "fails" } else { "answers" });
        let (mut lw, lg) = (plain.log.lock().unwrap().clone(), inner.log.lock().unwrap().clone());
        let mut lg2 = lg.clone(); if k == 17 { lw.sort(); lg2.sort(); }
        if lw != lg2 { violation("operation", &input, &format!("the store is asked {lw:?}"), &format!("it was asked {lg:?}")); }
        else if cls(&want) != cls(&got) { violation("answer", &input, &cls(&want), &cls(&got)); }
    } }
}
fn short(c: &ObjectStoreConfig) -> String { match c { ObjectStoreConfig::Memory => "Memory".into(), ObjectStoreConfig::Local(l) => format!("Local {{ disable_hardlinks: {} }}", l.disable_hardlinks), ObjectStoreConfig::AmazonS3(s) => format!("S3 {{ bucket: {}, prefix: {:?}, endpoint: {:?} }}", s.bucket, s.prefix, s.endpoint), ObjectStoreConfig::GoogleCloudStorage(g) => format!("GCS {{ bucket: {}, prefix: {:?} }}", g.bucket, g.prefix) } }
/// where the wrapper puts a table
async fn places(r: &mut Rng, dir: &str) {
    for cfg in configs(r, dir) {
        let rec = Arc::new(Rec::default());
        let w = InternalObjectStore::new(rec.clone(), cfg.clone());
        let table = "0188a0fa-7d3a-7d4c-a4b5-6b3c1b3d9e01";
        let prefix = match &cfg { ObjectStoreConfig::AmazonS3(s) => s.prefix.clone(), ObjectStoreConfig::GoogleCloudStorage(g) => g.prefix.clone(), _ => None };
        let want = match &prefix { Some(p) => Path::from(format!("{p}/{table}")), None => Path::from(table) };
        let input = format!("InternalObjectStore with {}", short(&cfg));
        case();
        if w.table_prefix(table) != want { violation("table-prefix", &format!("{input}: table_prefix({table})"), want.as_ref(), w.table_prefix(table).as_ref()); }
        let root = match &cfg {
            ObjectStoreConfig::Memory => "memory:///".to_string(),
            ObjectStoreConfig::Local(_) => format!("{}", Url::from_directory_path(std::fs::canonicalize(dir).unwrap()).unwrap()),
            ObjectStoreConfig::AmazonS3(s) => { let b = match &s.endpoint { Some(e) => format!("{e}/{}", s.bucket), None => format!("s3://{}", s.bucket) }; match &s.prefix { Some(p) => format!("{b}/{}/", p.trim_end_matches('/')), None => format!("{b}/") } }
            ObjectStoreConfig::GoogleCloudStorage(g) => match &g.prefix { Some(p) => format!("gs://{}/{}/", g.bucket, p.trim_end_matches('/')), None => format!("gs://{}/", g.bucket) },
        };
        if w.root_uri.as_str() != root && w.root_uri.as_str() != root.trim_end_matches('/') { violation("root", &format!("{input}: root_uri"), &root, w.root_uri.as_str()); }
        let l = w.get_log_store(table);
        if l.root_uri() != w.root_uri.join(table).unwrap().as_str() { violation("table-uri", &format!("{input}: get_log_store({table}).root_uri()"), w.root_uri.join(table).unwrap().as_str(), &l.root_uri()); }
        l.object_store().put(&Path::from("_delta_log/0.json"), PutPayload::from(vec![1u8])).await.unwrap();
        let got = rec.log.lock().unwrap().last().cloned().unwrap_or_default();
        let want = format!("put {want}/_delta_log/0.json ");
        if !got.starts_with(&want) { violation("table-place", &format!("{input}: writing _delta_log/0.json through get_log_store({table})"), &want, &got); }
        let local = match &cfg { ObjectStoreConfig::Local(l) => Some(format!("{}/{table}", l.data_dir)), _ => None };
        if w.local_table_dir(table) != local { violation("table-dir", &format!("{input}: local_table_dir({table})"), &format!("{local:?}"), &format!("{:?}", w.local_table_dir(table))); }
        // dropping it: every object below it and no other goes; a failure is reported
        for list in [vec![], vec![Some("p/1"), Some("p/2"), Some("p/3")], vec![Some("p/1"), None, Some("p/3")]] { for fail_at in [None, Some(1usize), Some(2), Some(3), Some(4)] {
            let rec = Arc::new(Rec { list: Mutex::new(list.iter().map(|x| x.map(String::from)).collect()), fail_at, ..Default::default() });
            let w = InternalObjectStore::new(rec.clone(), cfg.clone());
            let ok = w.delete_in_prefix(&Path::from("p")).await.is_ok();
            let log = rec.log.lock().unwrap().clone();
            case();
            let input = format!("{input}: delete_in_prefix(p), objects {list:?} (None: the listing fails there), operation {fail_at:?} of the store fails");
            if log.first().map(|x| x.starts_with("list ") && x.contains("\"p\"")) != Some(true) { violation("gc-listing", &input, "list p", &format!("{log:?}")); }
            let deleted: Vec<&str> = log.iter().filter_map(|x| x.strip_prefix("delete ")).collect();
            let whole = list.iter().all(|x| x.is_some_and(|x| deleted.contains(&x))) && !fail_at.is_some_and(|n| n <= log.len());
            if ok != whole { violation("gc-result", &input, if whole { "Ok" } else { "an error: not everything is gone" }, if ok { "Ok" } else { "an error" }); }
            if let Some(x) = log.iter().skip(1).find(|x| !x.strip_prefix("delete ").is_some_and(|d| list.contains(&Some(d)))) { violation("gc-other", &input, "only listed objects are deleted", x); }
        } }
    }
    { // a table of many objects
        let names: Vec<String> = (0..2500).map(|i| format!("p/{i}")).collect();
        let rec = Arc::new(Rec { list: Mutex::new(names.iter().map(|x| Some(x.clone())).collect()), ..Default::default() });
        let ok = InternalObjectStore::new(rec.clone(), ObjectStoreConfig::Memory).delete_in_prefix(&Path::from("p")).await.is_ok();
        let log = rec.log.lock().unwrap().clone();
        case();
        let left = names.iter().filter(|x| !log.contains(&format!("delete {x}"))).count();
        if !ok || left > 0 { violation("gc-result", "delete_in_prefix(p), 2500 objects", "Ok and all of them deleted", &format!("{ok}, {left} left")); }
    }
    // a put that must not overwrite, on real files
    for d in [false, true] {
        let t = tempfile::TempDir::new_in(dir).unwrap();
        let cfg = ObjectStoreConfig::Local(LocalConfig { data_dir: t.path().to_str().unwrap().into(), disable_hardlinks: d });
        let w = InternalObjectStore::new(build_object_store(&cfg, &None).unwrap(), cfg.clone());
        let (a, b) = (Path::from("a"), Path::from("b"));
        w.put(&a, PutPayload::from_static(b"one")).await.unwrap(); w.put(&b, PutPayload::from_static(b"two")).await.unwrap();
        let r1 = w.put_opts(&b, PutPayload::from_static(b"three"), PutMode::Create.into()).await.is_ok();
        let r2 = w.copy_if_not_exists(&a, &b).await.is_ok();
        let r3 = w.rename_if_not_exists(&a, &b).await.is_ok();
        let c = w.get(&b).await.unwrap().bytes().await.unwrap();
        case();
        if !d && (r1 || r2 || r3 || &c[..] != b"two") { violation("exclusive", "local store with hard links: put_opts(b, Create), copy_if_not_exists(a, b), rename_if_not_exists(a, b) while b exists", "each fails and b keeps its content", &format!("{r1} {r2} {r3} {c:?}")); }
    }
}
fn caching() -> ObjectCacheProperties { ObjectCacheProperties { capacity: 1 << 20, min_fetch_size: 1024, ttl: 60 } }
/// the store that is built or found for a table
async fn factories(r: &mut Rng, dir: &str) {
    for cfg in configs(r, dir) { for cache in [None, Some(caching())] {
        let s = match build_object_store(&cfg, &cache) { Ok(s) => s, Err(_) => { continue } };
        case();
        let want = cache.is_some() && matches!(cfg, ObjectStoreConfig::AmazonS3(_) | ObjectStoreConfig::GoogleCloudStorage(_));
        let got = format!("{s}").contains("Caching wrapper");
        if want != got { violation("cache-layer", &format!("build_object_store({}, cache {})", short(&cfg), cache.is_some()), &format!("cached: {want}"), &format!("cached: {got}")); }
    } }
    let subs = ["one", "two", "one/two", "a b", "with%percent", "ünï"];
    for s in &subs { std::fs::create_dir_all(std::path::Path::new(dir).join("ext").join(s)).unwrap(); }
    for cache in [None, Some(caching())] {
        let f = ObjectStoreFactory::new_from_config(&SeafowlConfig { object_store: None, misc: Misc { object_store_cache: cache.clone() } }).unwrap();
        if f.get_default_log_store("x").is_some() { violation("default-store", "get_default_log_store without a configured store", "None", "a store"); }
        // locations on the file system: what is written through the log store of (location, table) is there and nowhere else
        for i in 0..40 {
            let sub = *r.pick(&subs[..3]); let table = *r.pick(&["t", "t/u", "one", ""]);
            let base = std::path::Path::new(dir).join("ext").join(sub);
            let url = if r.chance(50) { Url::from_file_path(&base).unwrap() } else { Url::from_directory_path(&base).unwrap() };
            let input = format!("get_log_store_for_table({}, {{}}, {table:?})", url.as_str().replace(dir, "<scratch>"));
            case();
            match f.get_log_store_for_table(url.clone(), HashMap::new(), table.to_string()).await {
                Err(e) => violation("no-store", &input, "a log store", &e.to_string()),
                Ok(l) => {
                    let file = format!("{i}.x");
                    if let Err(e) = l.object_store().put(&Path::from(file.as_str()), PutPayload::from(vec![i as u8])).await { violation("place", &input, "a store that can be written", &e.to_string()); continue; }
                    let want = base.join(table).join(&file);
                    if std::fs::read(&want).ok() != Some(vec![i as u8]) { violation("place", &input, &format!("{file} in <scratch>/ext/{sub}/{table}"), "not there"); }
                    let w = format!("{}/{table}", url.as_str().trim_end_matches('/'));
                    if l.root_uri().trim_end_matches('/') != w.trim_end_matches('/') { violation("table-uri", &input, &w, &l.root_uri()); }
                }
            }
        }
        // the credentials asked for are the ones used, however often and in whatever order locations and options recur
        let mut seen: HashMap<(usize, usize), String> = HashMap::new();
        for _ in 0..60 {
            let (u, o) = (r.below(3) as usize, r.below(4) as usize);
            let url = Url::parse(["s3://bucket-a/path", "s3://bucket-b/path", "s3://bucket-a/other"][u]).unwrap();
            let mut opts: HashMap<String, String> = [("region", "eu-west-1"), ("access_key_id", ["key0", "key0", "key1", "key2"][o]), ("secret_access_key", ["secret0", "secret1", "secret0", "secret0"][o]), ("endpoint", "http://localhost:9000")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            case();
            let input = format!("get_log_store_for_table({url}, {:?}, \"t\") after other locations and options", opts.iter().collect::<std::collections::BTreeMap<_, _>>());
            match f.get_log_store_for_table(url.clone(), opts.clone(), "t".into()).await {
                Err(e) => violation("no-store", &input, "a log store", &e.to_string()),
                Ok(l) => {
                    let d = format!("{:?}", l.object_store());
                    for (what, want) in [("bucket", format!("bucket: \"{}\"", url.host_str().unwrap())), ("key", format!("key_id: \"{}\"", opts["access_key_id"])), ("secret", format!("secret_key: \"{}\"", opts["secret_access_key"]))] {
                        if !d.contains(&want) { violation("wrong-store", &input, &want, &format!("a store with {}", pieces(&d))); }
                    }
                    let cached = d.contains("CachingObjectStore");
                    if cached != cache.is_some() { violation("cache-layer", &input, &format!("cached: {}", cache.is_some()), &format!("cached: {cached}")); }
                    if l.root_uri() != format!("{url}/t") { violation("table-uri", &input, &format!("{url}/t"), &l.root_uri()); }
                }
            }
        }
        // a store in memory: the same location is the same store, another location or other options another
        for (u1, o1, u2, o2) in [("memory:///a", "", "memory:///a", ""), ("memory:///a", "", "memory:///b", ""), ("memory:///c", "", "memory:///c", "k")] {
            let op = |o: &str| if o.is_empty() { HashMap::new() } else { HashMap::from([(o.to_string(), "v".to_string())]) };
            let s1 = f.get_log_store_for_table(Url::parse(u1).unwrap(), op(o1), "t".into()).await.unwrap();
            let s2 = f.get_log_store_for_table(Url::parse(u2).unwrap(), op(o2), "t".into()).await.unwrap();
            s1.object_store().put(&Path::from("o"), PutPayload::from_static(b"1")).await.unwrap();
            let got = s2.object_store().get(&Path::from("o")).await.is_ok();
            case();
            let want = u1 == u2 && o1 == o2;
            if got != want { violation("wrong-store", &format!("an object written below {u1} (options {o1:?}), read below {u2} (options {o2:?})"), if want { "found" } else { "not found" }, if got { "found" } else { "not found" }); }
            let other = f.get_log_store_for_table(Url::parse(u1).unwrap(), op(o1), "t2".into()).await.unwrap();
            if other.object_store().get(&Path::from("o")).await.is_ok() { violation("wrong-table", &format!("an object of table t below {u1}, read through table t2"), "not found", "found"); }
            s1.object_store().delete(&Path::from("o")).await.unwrap();
        }
    }
    let d = std::path::Path::new(dir).join("data"); std::fs::create_dir_all(&d).unwrap();
    let cfg = ObjectStoreConfig::Local(LocalConfig { data_dir: d.to_str().unwrap().into(), disable_hardlinks: false });
    let f = ObjectStoreFactory::new_from_config(&SeafowlConfig { object_store: Some(cfg), misc: Misc { object_store_cache: Some(caching()) } }).unwrap();
    let l = f.get_default_log_store("tab").unwrap();
    l.object_store().put(&Path::from("q"), PutPayload::from_static(b"1")).await.unwrap();
    case();
    if !d.join("tab/q").exists() { violation("default-store", "an object q written through get_default_log_store(tab)", "data/tab/q", "not there"); }
}
fn pieces(d: &str) -> String { let mut v = vec![]; for k in ["bucket: ", "key_id: ", "secret_key: "] { if let Some(i) = d.find(k) { v.push(d[i..].chars().take(k.len() + 14).collect::<String>()); } } v.join(", ") }
/// a file moved into the store: there, whole, and gone from where it was; or still where it was
async fn uploads(r: &mut Rng, dir: &str, other: Option<&str>) {
    for i in 0..60 {
        let src = if let (Some(o), true) = (other, i % 2 == 0) { o } else { dir };
        let from = std::path::Path::new(src).join(format!("up{i}"));
        let data: Vec<u8> = (0..*r.pick(&[0usize, 1, 5000, 300000])).map(|_| r.next() as u8).collect();
        let missing = r.chance(10);
        if !missing { std::fs::write(&from, &data).unwrap(); }
        let base = std::path::Path::new(dir).join(format!("target{i}"));
        let kind = r.below(6);
        let to = match kind { 0 => base.join("f"), 1 => base.join("a/b/c/f"), 2 => { std::fs::create_dir_all(&base).unwrap(); std::fs::write(base.join("f"), b"old content").unwrap(); base.join("f") } 3 => { std::fs::create_dir_all(base.join("f/x")).unwrap(); base.join("f") } 4 => { std::fs::create_dir_all(&base).unwrap(); std::fs::write(base.join("p"), b"file").unwrap(); base.join("p/f") } _ => { std::fs::create_dir_all(&base).unwrap(); base.join("f") } };
        let input = format!("fast_upload of {} ({} bytes) on {} file system to {}", if missing { "a file that does not exist" } else { "a file" }, data.len(), if src == dir { "the same" } else { "another" }, ["a new directory", "new nested directories", "an existing file", "an existing directory", "below a file", "an existing directory's new file"][kind as usize]);
        let res = layers::utils::fast_upload(&from, to.to_str().unwrap().to_string()).await;
        case();
        let able = !missing && kind != 3 && kind != 4;
        if able && res.is_err() { violation("upload-error", &input, "Ok", &format!("{:?}", res.err().map(|e| e.to_string()))); }
        else if res.is_ok() && (!able || std::fs::read(&to).ok() != Some(data.clone()) || from.exists()) { violation("upload-lost", &input, "the content at the target and no longer at the source", "Ok, but not so"); }
        else if res.is_err() && !missing && std::fs::read(&from).ok() != Some(data.clone()) { violation("upload-source-gone", &input, "an error and the source kept", "an error and the source gone"); }
        let _ = std::fs::remove_file(&from);
    }
}
fn dev(p: &str) -> u64 { use std::os::unix::fs::MetadataExt; std::fs::metadata(p).map(|m| m.dev()).unwrap_or(0) }
fn main() {
    if std::env::var("VP_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut r = Rng::new(seed() ^ 15);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let scratch = tempfile::TempDir::new().unwrap();
    let dir = scratch.path().to_str().unwrap().to_string();
    let shm = tempfile::TempDir::new_in("/dev/shm").ok();
    let other = shm.as_ref().map(|x| x.path().to_str().unwrap().to_string()).filter(|x| dev(x) != dev(&dir));
    match prop().as_str() {
        "c15" => rt.block_on(async {
            let k = if thorough() { 10 } else { 2 };
            macro_rules! part { ($name:expr, $f:expr) => { if futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe($f)).await.is_err() { violation("panic", $name, "no panic", "a panic"); } set($name); } }
            part!("operations through the layers", async { for _ in 0..k { transparent(&mut r, &dir).await; } });
            part!("places of tables", places(&mut r, &dir));
            part!("stores built and found", factories(&mut r, &dir));
            part!(if other.is_some() { "uploads, also across file systems" } else { "uploads on one file system" }, async { for _ in 0..k { let t = tempfile::TempDir::new_in(&dir).unwrap(); uploads(&mut r, t.path().to_str().unwrap(), other.as_deref()).await; } });
        }),
        p => panic!("VERIF-HARNESS unknown property {p}"),
    }
    done();
}
