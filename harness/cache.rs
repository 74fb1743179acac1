#![allow(dead_code, unused_imports, unused_variables)]
// C14: the real byte-range cache over an in-memory store, the real moka cache and real files in a scratch directory.
// Reads in random order, in parallel, through siblings, with evictions, with files that disappear or are cut short
// (a writer still at work), with a store that fails now and then; every answer compared with the object itself.
include!("common.rs");
use common::*;
pub mod config { pub mod schema {
//@verbatim src/config/schema.rs | fn str_to_hex_hash ; const MEBIBYTES | skipuse=object_store_factory,config,metrics_exporter_prometheus
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct ObjectCacheProperties { pub capacity: u64, pub min_fetch_size: u64, pub ttl: u64 }
} }
#[path = "/repo/src/object_store/cache.rs"]
pub mod cache;
use bytes::Bytes;
use cache::CachingObjectStore;
use futures::stream::BoxStream;
use object_store::{memory::InMemory, path::Path, *};
use std::ops::Range;
use std::sync::{atomic::{AtomicBool, AtomicU64, Ordering}, Arc, Mutex};
use std::time::Duration;

#[derive(Debug)]
pub struct Inner { pub mem: InMemory, pub fail: AtomicU64, pub failed: AtomicBool, pub calls: Mutex<Vec<(String, Range<usize>)>> }
impl std::fmt::Display for Inner { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "inner") } }
#[async_trait::async_trait]
impl ObjectStore for Inner {
    async fn put_opts(&self, l: &Path, p: PutPayload, o: PutOptions) -> Result<PutResult> { self.mem.put_opts(l, p, o).await }
    async fn put_multipart_opts(&self, l: &Path, o: PutMultipartOpts) -> Result<Box<dyn MultipartUpload>> { self.mem.put_multipart_opts(l, o).await }
    async fn get_opts(&self, l: &Path, o: GetOptions) -> Result<GetResult> { self.mem.get_opts(l, o).await }
    async fn get_range(&self, l: &Path, r: Range<usize>) -> Result<Bytes> {
        self.calls.lock().unwrap().push((l.to_string(), r.clone()));
        tokio::task::yield_now().await;
        if self.fail.load(Ordering::SeqCst) > 0 && self.fail.fetch_sub(1, Ordering::SeqCst) == 1 { self.failed.store(true, Ordering::SeqCst); return Err(Error::NotImplemented); }
        if l.as_ref() == "big" { return Ok((r.start..r.end.min(BIG)).map(big).collect::<Vec<u8>>().into()); }
        self.mem.get_range(l, r).await
    }
    async fn delete(&self, l: &Path) -> Result<()> { self.mem.delete(l).await }
    fn list(&self, p: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> { self.mem.list(p) }
    async fn list_with_delimiter(&self, p: Option<&Path>) -> Result<ListResult> { self.mem.list_with_delimiter(p).await }
    async fn copy(&self, a: &Path, b: &Path) -> Result<()> { self.mem.copy(a, b).await }
    async fn copy_if_not_exists(&self, a: &Path, b: &Path) -> Result<()> { self.mem.copy_if_not_exists(a, b).await }
}
/// an object of 5 GiB that is not stored anywhere
const BIG: usize = 5 << 30;
fn big(i: usize) -> u8 { (i ^ (i >> 8) ^ (i >> 16) ^ (i >> 24) ^ ((i >> 32) * 77)) as u8 }
async fn sweep_big() {
    let scratch = tempfile::TempDir::new().unwrap();
    let inner = Arc::new(Inner { mem: InMemory::new(), fail: AtomicU64::new(0), failed: AtomicBool::new(false), calls: Mutex::new(vec![]) });
    for fetch in [1000u64, 1 << 16] {
        let st = CachingObjectStore::new(inner.clone(), &scratch.path().join("none"), fetch, 1 << 30, Duration::from_secs(60));
        for s in [0usize, (1 << 31) - 5, 1 << 31, (1 << 32) - 70, (1 << 32) - 1, 1 << 32, (1 << 32) + 12345, BIG - 3000, BIG - 2] { for l in [1usize, 100, 3000] {
            let g = s..s + l;
            let want: Vec<u8> = (s..(s + l).min(BIG)).map(big).collect();
            let r = tokio::spawn({ let (st, g) = (st.clone(), g.clone()); async move { st.get_range(&Path::from("big"), g).await } }).await;
            case();
            let input = format!("object of {BIG} bytes, min_fetch_size={fetch}, read of {g:?}");
            match r { Err(x) => violation("panic", &input, &show(&want), &x.to_string()), Ok(Ok(b)) => if b[..] != want[..] { violation("wrong-bytes", &input, &show(&want), &show(&b)) }, Ok(Err(e)) => violation("spurious-error", &input, &show(&want), &e.to_string()) }
        } }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
}
fn show(b: &[u8]) -> String { format!("{} bytes {:?}", b.len(), &b[..b.len().min(40)]) }
/// what a read must answer: None if it may fail
fn expected(o: &[u8], r: &Range<usize>) -> Vec<u8> { if r.start >= r.end || r.start >= o.len() { vec![] } else { o[r.start..r.end.min(o.len())].to_vec() } }
fn files(d: &std::path::Path) -> Vec<std::path::PathBuf> { std::fs::read_dir(d).map(|x| x.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.file_name().unwrap() != "keep").collect()).unwrap_or_default() }

async fn history(r: &mut Rng, n: u64) {
    let scratch = tempfile::TempDir::new().unwrap();
    let dir = scratch.path().join("c"); std::fs::create_dir(&dir).unwrap();
    let (keep, out) = (dir.join("keep"), scratch.path().join("out"));
    std::fs::write(&keep, b"k").unwrap(); std::fs::write(&out, b"o").unwrap();
    let inner = Arc::new(Inner { mem: InMemory::new(), fail: AtomicU64::new(0), failed: AtomicBool::new(false), calls: Mutex::new(vec![]) });
    let fetch = *r.pick(&[1u64, 2, 3, 7, 10, 16, 64]);
    let cap = *r.pick(&[0u64, 1, fetch, 3 * fetch, 8 * fetch, 1 << 20]);
    let names = ["a", "a-0", "b/a", "b", "a-0-7", "x/data.parquet"];
    let mut objs: Vec<(Path, Vec<u8>)> = vec![];
    for (k, nm) in names.iter().enumerate() {
        let len = match r.below(4) { 0 => r.below(4) * fetch, 1 => r.below(3), _ => r.below(8 * fetch + 3) } as usize;
        let d: Vec<u8> = (0..len).map(|i| (i as u64 * 7 + k as u64 * 31 + i as u64 / 251) as u8).collect();
        let p = Path::from(*nm);
        inner.mem.put(&p, PutPayload::from(d.clone())).await.unwrap();
        objs.push((p, d));
    }
    let ttl = if r.chance(20) { Duration::from_millis(2) } else { Duration::from_secs(100) };
    let main = CachingObjectStore::new(inner.clone(), &dir, fetch, cap, ttl);
    let sib = CachingObjectStore::new_from_sibling(&main, inner.clone());
    let desc = format!("min_fetch_size={fetch} capacity={cap} ttl={ttl:?}");
    let mut trace: Vec<String> = vec![];
    for step in 0..n {
        let op = r.below(10);
        let fs = files(&dir);
        if op == 0 && !fs.is_empty() {
            // a file that another writer has not finished, or that is gone
            let f = r.pick(&fs).clone();
            let l = std::fs::metadata(&f).map(|m| m.len()).unwrap_or(0);
            if r.chance(40) { let _ = std::fs::remove_file(&f); trace.push("rm".into()); }
            else if l > 0 { let k = r.below(l); if let Ok(h) = std::fs::OpenOptions::new().write(true).open(&f) { let _ = h.set_len(k); } trace.push(format!("cut to {k}")); }
            continue;
        }
        if op == 1 { tokio::time::sleep(Duration::from_millis(r.below(3))).await; trace.push("wait".into()); continue; }
        if op == 2 && r.chance(30) {
            // the directory cannot take new files for a while
            let gone = scratch.path().join("moved"); if std::fs::rename(&dir, &gone).is_ok() { let (p, d) = r.pick(&objs).clone(); let _ = main.get_range(&p, 0..d.len().max(1)).await; tokio::time::sleep(Duration::from_millis(1)).await; std::fs::rename(&gone, &dir).ok(); }
            trace.push("no directory".into()); continue;
        }
        let fault = op == 3;
        let m = 1 + r.below(3);
        let mut jobs = vec![];
        for _ in 0..m {
            let (p, d) = r.pick(&objs).clone();
            let l = d.len() as u64;
            let s = match r.below(4) { 0 => 0, 1 => (l / fetch) * fetch, _ => r.below(l + 3) };
            let e = match r.below(8) { 0 => s, 1 => l.max(s), 2 => s + fetch, 3 => l + r.below(3 * fetch), 4 => s.saturating_sub(1), _ => s + r.below(l + 2) };
            jobs.push((p, d, s as usize..e as usize));
        }
        inner.failed.store(false, Ordering::SeqCst);
        inner.fail.store(if fault { 1 + r.below(3) } else { 0 }, Ordering::SeqCst);
        let st = if r.chance(30) { sib.clone() } else { main.clone() };
        let hs: Vec<_> = jobs.iter().map(|(p, _, g)| { let (st, p, g) = (st.clone(), p.clone(), g.clone()); tokio::spawn(async move { st.get_range(&p, g).await }) }).collect();
        for ((p, d, g), h) in jobs.iter().zip(hs) {
            let got = h.await;
            case();
            trace.push(format!("{p}({}) {g:?}", d.len()));
            let input = || format!("{desc}; {}", trace[trace.len().saturating_sub(14)..].join(", "));
            let want = expected(d, g);
            match got {
                Err(e) => violation("panic", &input(), &show(&want), &format!("panic: {e}")),
                Ok(Ok(b)) => if b[..] != want[..] { violation("wrong-bytes", &input(), &show(&want), &show(&b)) },
                Ok(Err(e)) => { let in_bounds = g.start >= g.end || (g.end <= d.len()); if in_bounds && !inner.failed.load(Ordering::SeqCst) { violation("spurious-error", &input(), &show(&want), &e.to_string()) } }
            }
        }
        inner.fail.store(0, Ordering::SeqCst);
    }
    if std::fs::read(&keep).ok() != Some(b"k".to_vec()) || std::fs::read(&out).ok() != Some(b"o".to_vec()) { violation("foreign-file", &desc, "files that are not the cache's stay", "removed or changed"); }
    case();
    // let the background tasks finish before the directory goes
    tokio::time::sleep(Duration::from_millis(3)).await;
}
/// every range of one object, cold and warm
async fn sweep(fetch: u64, len: usize) {
    let scratch = tempfile::TempDir::new().unwrap();
    let inner = Arc::new(Inner { mem: InMemory::new(), fail: AtomicU64::new(0), failed: AtomicBool::new(false), calls: Mutex::new(vec![]) });
    let p = Path::from("o"); let d: Vec<u8> = (0..len).map(|i| i as u8).collect();
    inner.mem.put(&p, PutPayload::from(d.clone())).await.unwrap();
    for s in 0..len + 2 { for e in s..len + 4 {
        let st = CachingObjectStore::new(inner.clone(), &scratch.path().join("none"), fetch, 1 << 20, Duration::from_secs(60));
        for warm in 0..2 {
            let r = tokio::spawn({ let (st, p) = (st.clone(), p.clone()); async move { st.get_range(&p, s..e).await } }).await;
            case();
            let want = expected(&d, &(s..e));
            let input = format!("object of {len} bytes, min_fetch_size={fetch}, {} read of {s}..{e}", if warm == 0 { "first" } else { "second" });
            match r { Err(x) => violation("panic", &input, &show(&want), &x.to_string()), Ok(Ok(b)) => if b[..] != want[..] { violation("wrong-bytes", &input, &show(&want), &show(&b)) }, Ok(Err(x)) => if e <= len || s >= e { violation("spurious-error", &input, &show(&want), &x.to_string()) } }
        }
    } }
}
fn main() {
    if std::env::var("VP_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut r = Rng::new(seed() ^ 14);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
    match prop().as_str() {
        "c14" => rt.block_on(async {
            let k = if thorough() { 6 } else { 1 };
            for (f, l) in [(1u64, 3usize), (4, 0), (4, 4), (4, 9), (7, 15), (16, 20)] { sweep(f, l).await; }
            set("sweep");
            sweep_big().await;
            set("offsets beyond 4 GiB");
            for i in 0..60 * k { history(&mut r, 60).await; }
            set("histories");
        }),
        p => panic!("VERIF-HARNESS unknown property {p}"),
    }
    done();
}
