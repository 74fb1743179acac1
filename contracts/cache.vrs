use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
//@include cache_base.inc.rs
//@extract src/object_store/cache.rs | struct CachingObjectStoreMetrics | derive=Clone
//@end
impl CachingObjectStoreMetrics {
    #[verifier::external_body] pub fn log_get_range_outbound_request(&self, start: Instant, result: &StoreResult<Bytes>) { }
    #[verifier::external_body] pub fn log_cache_memory_read(&self, length: usize) { }
    #[verifier::external_body] pub fn log_cache_disk_read(&self, start: Instant, length: usize) { }
    #[verifier::external_body] pub fn log_cache_disk_write(&self, start: Instant, length: usize) { }
}
//@extract src/object_store/cache.rs | struct CacheKey
//@types
object_store::path::Path => OPath
Range<usize> => core::ops::Range<usize>
//@end
impl Clone for CacheKey { #[verifier::external_body] fn clone(&self) -> (r: CacheKey) ensures keyv(r) == keyv(*self) { unimplemented!() } }
//@extract src/object_store/cache.rs | enum CacheValue
//@end
//@extract src/object_store/cache.rs | struct CacheFileManager
//@end
//@extract src/object_store/cache.rs | struct CachingObjectStore
//@types
Cache<CacheKey, CacheValue> => ChunkCache
Arc<dyn ObjectStore> => InnerStore
Arc<CacheFileManager> => std::sync::Arc<CacheFileManager>
//@end
// the wrapped store
#[verifier::external_body] pub struct InnerStore { p: u8 }
impl InnerStore {
    pub uninterp spec fn id(&self) -> int;
    // an answer is the requested part of the object, cut at its end
    #[verifier::external_body] pub fn get_range(&self, location: &OPath, range: core::ops::Range<usize>) -> (r: StoreResult<Bytes>)
        ensures r is Ok && range.start < range.end ==> range.start < content(self.id(), location@).len() && r->Ok_0@ == slice(content(self.id(), location@), range.start as int, range.end as int),
            r is Err ==> flaky(self.id(), location@) || range.start >= range.end || range.start >= content(self.id(), location@).len() { unimplemented!() }
}
pub open spec fn wf(s: CachingObjectStore) -> bool {
    &&& 0 < s.min_fetch_size <= usize::MAX
    &&& s.cache.base() == s.file_manager.base_path@
    &&& forall|p: Seq<char>| #[trigger] content(s.inner.id(), p) == content(src(s.cache.base()), p)
}
impl CacheKey {
//@extract src/object_store/cache.rs | impl CacheKey :: as_filename
//@contract
    ensures r@ == filename(keyv(*self)), // name
//@end
}
impl CacheValue {
//@extract src/object_store/cache.rs | impl CacheValue :: size
//@contract
    ensures r == (match *self { CacheValue::File(_, n) => n as int, CacheValue::Memory(d) => d@.len() as int }),
//@end
}
impl CacheFileManager {
//@extract src/object_store/cache.rs | impl CacheFileManager :: write_file
//@types
io::Result<PathBuf> => IoResult<PathBuf>
//@calls
tokio::fs::write => fs_write
//@methods
as_ref/0 => REF
//@contract
    requires data@ == chunk(self.base_path@, keyv(*cache_key)),
    ensures r is Ok ==> r->Ok_0@ == file_of(self.base_path@, keyv(*cache_key)),
//@entry
    proof {
        let k0 = keyv(*cache_key);
        assert forall|b: Seq<Seq<char>>, k: KeyV| keyok(k) && file_of(self.base_path@, k0) == #[trigger] file_of(b, k) implies b == self.base_path@ && k == k0 by { lemma_file(self.base_path@, k0, b, k); }
        assert(cache_file(file_of(self.base_path@, k0)));
    }
//@end
//@extract src/object_store/cache.rs | impl CacheFileManager :: read_file | resmap
//@types
impl AsRef<Path> => PathBuf
io::Result<Bytes> => IoResult<Bytes>
//@calls
tokio::fs::read => fs_read
//@contract
    ensures r is Ok ==> forall|b: Seq<Seq<char>>, k: KeyV| keyok(k) && path@ == #[trigger] file_of(b, k) ==> is_prefix(r->Ok_0@, chunk(b, k)),
//@end
//@extract src/object_store/cache.rs | impl CacheFileManager :: remove_file
//@types
impl AsRef<Path> + Debug => &PathBuf
io::Result<()> => IoResult<()>
//@calls
tokio::fs::remove_file => fs_remove
//@methods
as_ref/0 => REF
//@contract
    requires cache_file(path@),
//@end
}
#[derive(PartialEq, Eq, Structural)]
pub enum RemovalCause { Expired, Explicit, Replaced, Size }
impl CachingObjectStore {
//@extract src/object_store/cache.rs | impl CachingObjectStore :: on_evict
//@types
Arc<CacheFileManager> => std::sync::Arc<CacheFileManager>
Arc<CacheKey> => std::sync::Arc<CacheKey>
//@methods
decrement/1 => DROP
//@contract
    // only files of the cache are removed
    requires valid(file_manager.base_path@, *key, value),
//@entry
    proof { assert(keyok(keyv(*key))); if value is File { assert(file_of(file_manager.base_path@, keyv(*key)) == value->File_0@); } }
//@end
//@extract src/object_store/cache.rs | impl CachingObjectStore :: new_from_sibling
//@types
Arc<dyn ObjectStore> => InnerStore
//@contract
    requires wf(*other), forall|p: Seq<char>| #[trigger] content(inner.id(), p) == content(other.inner.id(), p),
    ensures wf(r), r.inner == inner,
//@end
//@extract src/object_store/cache.rs | impl CachingObjectStore :: get_range_inner
//@types
object_store::path::Path => OPath
object_store::Result<Bytes> => StoreResult<Bytes>
Range<usize> => core::ops::Range<usize>
//@contract
    requires wf(*self),
    ensures r is Ok && range.start < range.end ==> range.start < content(self.inner.id(), location@).len() && r->Ok_0@ == slice(content(self.inner.id(), location@), range.start as int, range.end as int),
        r is Err ==> flaky(self.inner.id(), location@) || range.start >= range.end || range.start >= content(self.inner.id(), location@).len(),
//@end
//@extract src/object_store/cache.rs | impl CachingObjectStore :: cache_chunk_data
//@methods
set/1 => DROP
//@calls
tokio::spawn => rx_spawn
//@contract
    requires wf(*self), data@ == chunk(self.cache.base(), keyv(key)),
//@end
//@extract src/object_store/cache.rs | impl CachingObjectStore :: get_chunk_range
//@types
object_store::path::Path => OPath
object_store::Result<Bytes> => StoreResult<Bytes>
//@methods
min/1 => own_min
into/0 => own_freeze
//@contract
    requires wf(*self), start_chunk <= end_chunk, (end_chunk + 1) * self.min_fetch_size <= usize::MAX,
    ensures
        r is Ok ==> r->Ok_0@ == slice(content(self.inner.id(), location@), start_chunk * self.min_fetch_size, (end_chunk + 1) * self.min_fetch_size), // bytes
        !flaky(self.inner.id(), location@) && end_chunk * self.min_fetch_size < content(self.inner.id(), location@).len() ==> r is Ok,
//@entry
    let ghost m = self.min_fetch_size as int;
    let ghost c = content(self.inner.id(), location@);
    proof {
        lemma_mul(start_chunk as int, end_chunk as int, m);
        assert(end_chunk + 1 <= (end_chunk + 1) * m) by (nonlinear_arith) requires 0 < m, 0 <= end_chunk;
        assert((end_chunk - start_chunk + 1) * m <= (end_chunk + 1) * m) by (nonlinear_arith) requires start_chunk <= end_chunk, 0 < m;
        assert(slice(c, start_chunk * m, start_chunk * m) =~= Seq::<u8>::empty());
    }
//@loop 0
    invariant
        wf(*self), m == self.min_fetch_size as int, c == content(self.inner.id(), location@), start_chunk <= end_chunk < usize::MAX, (end_chunk + 1) * m <= usize::MAX,
        __it0.all() == (RxIncl { a: start_chunk, b: end_chunk }).items(), 0 <= __it0.pos() <= __it0.all().len(),
        chunk_batch@.len() <= __it0.pos(),
        forall|j: int| 0 <= j < chunk_batch@.len() ==> keyv(#[trigger] chunk_batch@[j]) == chunk_key(location@, start_chunk + __it0.pos() - chunk_batch@.len() + j, m),
        result@ == slice(c, start_chunk * m, (start_chunk + __it0.pos() - chunk_batch@.len()) * m),
        __it0.pos() == __it0.all().len() ==> chunk_batch@.len() == 0,
    ensures
        result@ == slice(c, start_chunk * m, (end_chunk + 1) * m),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    let ghost b = start_chunk + __it0.pos() - chunk_batch@.len();
    let ghost at = start_chunk + __it0.pos();
    proof { if at <= end_chunk { if at >= 1 { lemma_mul(at - 1, end_chunk as int, m); } if b < at { lemma_mul(b, at - 1, m); } lemma_mul(at, end_chunk as int, m); lemma_mul(b, end_chunk as int, m); lemma_mul(b, at, m); lemma_mul(start_chunk as int, b, m); lemma_slice_cat(c, start_chunk * m, b * m, at * m); lemma_slice_cat(c, start_chunk * m, b * m, at * m + m); lemma_slice_cat(c, start_chunk * m, at * m, at * m + m); } }
//@loop 1
    invariant
        wf(*self), m == self.min_fetch_size as int, c == content(self.inner.id(), location@), 0 <= b, b + chunk_batch@.len() <= end_chunk + 1,
        (end_chunk + 1) * m <= usize::MAX,
        __it1.all() == Seq::new(chunk_batch@.len(), |i: int| &chunk_batch@[i]), 0 <= __it1.pos() <= __it1.all().len(),
        forall|j: int| 0 <= j < chunk_batch@.len() ==> keyv(#[trigger] chunk_batch@[j]) == chunk_key(location@, b + j, m),
        batch_data@ == slice(c, (b + __it1.pos()) * m, (b + chunk_batch@.len()) * m),
    decreases __it1.all().len() - __it1.pos(),
//@body 1
    let ghost k = __it1.pos();
    proof { if k < chunk_batch@.len() {
        let last = b + chunk_batch@.len() - 1;
        lemma_mul(b + k, last, m); lemma_mul(last, end_chunk as int, m);
        lemma_split(c, (b + k) * m, m, (b + chunk_batch@.len()) * m);
        assert(keyv(chunk_batch@[k]) == chunk_key(location@, b + k, m));
    } }
//@end
//@extract src/object_store/cache.rs | impl ObjectStore for CachingObjectStore :: get_range
//@types
object_store::path::Path => OPath
object_store::Result<Bytes> => StoreResult<Bytes>
Range<usize> => core::ops::Range<usize>
//@methods
is_empty/0 => rx_is_empty
len/0 => rx_len
//@contract
    requires wf(*self), range.end + self.min_fetch_size <= usize::MAX,
    ensures
        r is Ok ==> r->Ok_0@ == slice(content(self.inner.id(), location@), range.start as int, range.end as int), // bytes
        range.start < range.end <= content(self.inner.id(), location@).len() && !flaky(self.inner.id(), location@) ==> r is Ok, // errors
        range.start >= range.end ==> r is Ok, // empty
//@entry
    let ghost m = self.min_fetch_size as int;
    let ghost c = content(self.inner.id(), location@);
    proof {
        if range.start < range.end {
            let (s, e) = (range.start as int, range.end - 1);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, m); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(e, m);
            vstd::arithmetic::div_mod::lemma_div_is_ordered(s, e, m);
            vstd::arithmetic::div_mod::lemma_div_pos_is_pos(s, m);
            vstd::arithmetic::mul::lemma_mul_is_commutative(m, s / m); vstd::arithmetic::mul::lemma_mul_is_commutative(m, e / m);
            lemma_mul(s / m, e / m, m); lemma_mul(e / m, e / m, m);
            lemma_trim(c, (s / m) * m, s, range.end as int, (e / m + 1) * m);
        }
    }
//@end
}
//@probe
pub proof fn probe_axioms(i: int, s: Seq<char>) requires i >= 0 ensures false { ax_dec(i); ax_hash(s); }
//@probe
pub fn probe_read_nothing(c: &CachingObjectStore, l: &OPath, g: core::ops::Range<usize>) requires wf(*c), g.end + c.min_fetch_size <= usize::MAX { let ghost e = g.end; let r = c.get_range(l, g); assert(r is Ok ==> r->Ok_0@.len() == 0); }
//@probe
pub fn probe_read_fails(c: &CachingObjectStore, l: &OPath, g: core::ops::Range<usize>) requires wf(*c), g.end + c.min_fetch_size <= usize::MAX { let r = c.get_range(l, g); assert(r is Err); }
//@probe
pub fn probe_read_whole(c: &CachingObjectStore, l: &OPath, g: core::ops::Range<usize>) requires wf(*c), g.end + c.min_fetch_size <= usize::MAX { let r = c.get_range(l, g); assert(r is Ok ==> r->Ok_0@ == content(c.inner.id(), l@)); }
}
fn main() {}
