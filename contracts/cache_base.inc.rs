// ---- object stores, the shared cache and its directory. The cache and the directory are shared with other requests and
// with background writers: what they hold is described by conditions every participant keeps (valid, fs_write) and every
// reader may assume (Cache::get, fs_read), at any moment; nothing is assumed about when entries appear or disappear.
#[verifier::external_body] pub struct OPath { p: u8 }
impl View for OPath { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl OPath { #[verifier::external_body] pub fn to_owned(&self) -> (r: OPath) ensures r@ == self@ { unimplemented!() } }
impl Clone for OPath { #[verifier::external_body] fn clone(&self) -> (r: OPath) ensures r@ == self@ { unimplemented!() } }
impl RxDisp for OPath { open spec fn disp(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub struct StoreError { p: u8 }
pub type StoreResult<T> = core::result::Result<T, StoreError>;
#[verifier::external_body] pub struct IoError { p: u8 }
pub type IoResult<T> = core::result::Result<T, IoError>;
#[verifier::external_body] pub struct Instant { p: u8 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Counter { p: u8 }
impl Counter { #[verifier::external_body] pub fn increment(&self, n: u64) { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Gauge { p: u8 }
// ---- bytes
#[verifier::external_body] pub struct Bytes { p: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() } }
impl Bytes {
    #[verifier::external_body] pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn from(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn split_to(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len() ensures r@ == old(self)@.subrange(0, n as int), final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn split_off(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len() ensures final(self)@ == old(self)@.subrange(0, n as int), r@ == old(self)@.subrange(n as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn advance(&mut self, n: usize) requires n <= old(self)@.len() ensures final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n < old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn slice(&self, g: core::ops::Range<usize>) -> (r: Bytes) requires g.start <= g.end <= self@.len() ensures r@ == self@.subrange(g.start as int, g.end as int) { unimplemented!() }
}
#[verifier::external_body] pub struct BytesMut { p: u8 }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl BytesMut {
    #[verifier::external_body] pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_slice(&mut self, b: &Bytes) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub fn own_freeze(b: BytesMut) -> (r: Bytes) ensures r@ == b@ { unimplemented!() }
pub fn own_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn own_max(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
pub trait RxLen { spec fn n(&self) -> int; fn len_(&self) -> (r: usize) ensures r == self.n(); }
impl RxLen for core::ops::Range<usize> { open spec fn n(&self) -> int { if self.end >= self.start { self.end - self.start } else { 0 } } fn len_(&self) -> (r: usize) { if self.end >= self.start { self.end - self.start } else { 0 } } }
impl RxLen for Bytes { open spec fn n(&self) -> int { self@.len() as int } #[verifier::external_body] fn len_(&self) -> (r: usize) { unimplemented!() } }
pub fn rx_len<T: RxLen>(x: &T) -> (r: usize) ensures r == x.n() { x.len_() }
pub fn rx_is_empty<T: RxLen>(x: &T) -> (r: bool) ensures r == (x.n() == 0) { x.len_() == 0 }
pub fn rx_try_into(x: usize) -> (r: core::result::Result<u64, ()>) ensures r == Ok::<u64, ()>(x as u64) { Ok(x as u64) }
// used with Idx = usize only
pub assume_specification<Idx: Clone> [<core::ops::Range<Idx> as Clone>::clone](x: &core::ops::Range<Idx>) -> (r: core::ops::Range<Idx>) ensures r == *x;
pub struct RxIncl { pub a: usize, pub b: usize }
pub fn rx_incl(a: usize, b: usize) -> (r: RxIncl) ensures r.a == a, r.b == b { RxIncl { a, b } }
impl RxItems for RxIncl { type Item = usize; open spec fn items(&self) -> Seq<usize> { Seq::new((if self.b >= self.a { self.b - self.a + 1 } else { 0 }) as nat, |i: int| (self.a + i) as usize) } }
#[verifier::external_body] pub fn rx_spawn<T>(t: T) { }
// ---- decimal numbers, hashes, file names
pub uninterp spec fn dec(i: int) -> Seq<char>;
impl RxDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl RxDisp for u64 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
// the decimal text of a number: digits, different for different numbers
#[verifier::external_body] pub broadcast proof fn ax_dec(i: int) requires i >= 0 ensures (#[trigger] dec(i)).len() > 0, !dec(i).contains('-'), undec(dec(i)) == i {}
pub uninterp spec fn undec(s: Seq<char>) -> int;
// SHA-256 in hex: no two texts collide (assumed), and no dash
pub uninterp spec fn hashed(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn unhashed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub broadcast proof fn ax_hash(s: Seq<char>) ensures (#[trigger] hashed(s)).len() == 64, !hashed(s).contains('-'), unhashed(hashed(s)) == s {}
#[verifier::external_body] pub fn str_to_hex_hash(s: &str) -> (r: String) ensures r@ == hashed(s@) { unimplemented!() }
pub open spec fn filename(k: KeyV) -> Seq<char> { hashed(k.path) + "-"@ + dec(k.start) + "-"@ + dec(k.end) }
pub ghost struct KeyV { pub path: Seq<char>, pub start: int, pub end: int }
pub proof fn lemma_filename(a: KeyV, b: KeyV)
    requires a.start >= 0, a.end >= 0, b.start >= 0, b.end >= 0, filename(a) == filename(b)
    ensures a == b
{
    broadcast use ax_dec, ax_hash;
    reveal_strlit("-");
    let (fa, fb) = (filename(a), filename(b));
    assert(hashed(a.path) =~= fa.subrange(0, 64)); assert(hashed(b.path) =~= fb.subrange(0, 64));
    assert(unhashed(hashed(a.path)) == unhashed(hashed(b.path)));
    let (ra, rb) = (fa.subrange(65, fa.len() as int), fb.subrange(65, fb.len() as int));
    let (la, lb) = (dec(a.start).len(), dec(b.start).len());
    assert(ra =~= dec(a.start) + "-"@ + dec(a.end)); assert(rb =~= dec(b.start) + "-"@ + dec(b.end));
    assert(ra == rb);
    assert(ra[la as int] == '-'); assert(rb[lb as int] == '-');
    if la < lb { assert(rb[la as int] == dec(b.start)[la as int]); assert(dec(b.start).contains('-')); }
    if lb < la { assert(ra[lb as int] == dec(a.start)[lb as int]); assert(dec(a.start).contains('-')); }
    assert(dec(a.start) =~= ra.subrange(0, la as int)); assert(dec(b.start) =~= rb.subrange(0, lb as int));
    assert(dec(a.end) =~= ra.subrange(la as int + 1, ra.len() as int)); assert(dec(b.end) =~= rb.subrange(lb as int + 1, rb.len() as int));
    assert(undec(dec(a.start)) == undec(dec(b.start))); assert(undec(dec(a.end)) == undec(dec(b.end)));
}
// ---- paths on the disk, by components
#[verifier::external_body] pub struct PathBuf { p: u8 }
impl View for PathBuf { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() } }
impl PathBuf {
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    // a single component: a name of the cache
    #[verifier::external_body] pub fn push(&mut self, name: String) requires exists|k: KeyV| name@ == #[trigger] filename(k) ensures final(self)@ == old(self)@.push(name@) { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, name: String) -> (r: PathBuf) requires exists|k: KeyV| name@ == #[trigger] filename(k) ensures r@ == self@.push(name@) { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> bool { unimplemented!() }
}
pub open spec fn file_of(base: Seq<Seq<char>>, k: KeyV) -> Seq<Seq<char>> { base.push(filename(k)) }
pub proof fn lemma_file(b1: Seq<Seq<char>>, a: KeyV, b2: Seq<Seq<char>>, b: KeyV)
    requires a.start >= 0, a.end >= 0, b.start >= 0, b.end >= 0, file_of(b1, a) == file_of(b2, b)
    ensures b1 == b2, a == b
{
    assert(file_of(b1, a).drop_last() =~= b1); assert(file_of(b2, b).drop_last() =~= b2);
    assert(file_of(b1, a).last() == filename(a)); assert(file_of(b2, b).last() == filename(b));
    lemma_filename(a, b);
}
// ---- objects. content: the bytes of an object in a store (objects do not change while they are cached: assumed);
// flaky: the store may fail to answer for this object
pub uninterp spec fn content(store: int, path: Seq<char>) -> Seq<u8>;
pub uninterp spec fn flaky(store: int, path: Seq<char>) -> bool;
pub open spec fn cut(n: int, i: int) -> int { if i < 0 { 0 } else if i > n { n } else { i } }
// the bytes of a range, as far as the object goes
pub open spec fn slice(c: Seq<u8>, a: int, b: int) -> Seq<u8> { if a >= b { Seq::empty() } else { c.subrange(cut(c.len() as int, a), cut(c.len() as int, b)) } }
pub proof fn lemma_slice_cat(c: Seq<u8>, a: int, b: int, d: int) requires 0 <= a <= b <= d ensures slice(c, a, b) + slice(c, b, d) == slice(c, a, d) { assert(slice(c, a, b) + slice(c, b, d) =~= slice(c, a, d)); }
pub proof fn lemma_split(c: Seq<u8>, a: int, m: int, d: int) requires 0 <= a, 0 < m, a + m <= d
    ensures ({ let s = slice(c, a, d); let n = if s.len() < m { s.len() as int } else { m };
        s.subrange(0, n) == slice(c, a, a + m) && s.subrange(n, s.len() as int) == slice(c, a + m, d) })
{
    let s = slice(c, a, d); let n = if s.len() < m { s.len() as int } else { m };
    assert(s.subrange(0, n) =~= slice(c, a, a + m)); assert(s.subrange(n, s.len() as int) =~= slice(c, a + m, d));
}
pub proof fn lemma_mul(x: int, e: int, m: int) requires 0 <= x <= e, 0 < m ensures 0 <= x * m, (x + 1) * m == x * m + m, x * m + m <= (e + 1) * m, x * m <= e * m {
    assert(0 <= x * m && (x + 1) * m == x * m + m && x * m + m <= (e + 1) * m && x * m <= e * m) by (nonlinear_arith) requires 0 <= x <= e, 0 < m;
}
pub proof fn lemma_trim(c: Seq<u8>, a: int, s: int, e: int, d: int) requires 0 <= a <= s < e <= d
    ensures ({ let x = slice(c, a, d);
        &&& s - a >= x.len() <==> s >= c.len()
        &&& s - a < x.len() ==> ({ let y = x.subrange(s - a, x.len() as int); (if e - s < y.len() { y.subrange(0, e - s) } else { y }) == slice(c, s, e) }) })
{
    let x = slice(c, a, d);
    if s - a < x.len() { let y = x.subrange(s - a, x.len() as int); assert((if e - s < y.len() { y.subrange(0, e - s) } else { y }) =~= slice(c, s, e)); }
}
pub open spec fn chunk_key(path: Seq<char>, x: int, m: int) -> KeyV { KeyV { path, start: x * m, end: x * m + m } }
pub open spec fn is_prefix(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && a == b.subrange(0, a.len() as int) }
// the store whose bytes the directory `base` holds
pub uninterp spec fn src(base: Seq<Seq<char>>) -> int;
pub open spec fn chunk(base: Seq<Seq<char>>, k: KeyV) -> Seq<u8> { slice(content(src(base), k.path), k.start, k.end) }
pub open spec fn keyv(k: CacheKey) -> KeyV { KeyV { path: k.path@, start: k.range.start as int, end: k.range.end as int } }
// what every cache entry satisfies
pub open spec fn valid(base: Seq<Seq<char>>, k: CacheKey, v: CacheValue) -> bool {
    match v {
        CacheValue::Memory(d) => d@ == chunk(base, keyv(k)),
        CacheValue::File(p, n) => p@ == file_of(base, keyv(k)) && n == chunk(base, keyv(k)).len(),
    }
}
pub open spec fn keyok(k: KeyV) -> bool { k.start >= 0 && k.end >= 0 }
pub open spec fn cache_file(p: Seq<Seq<char>>) -> bool { exists|b: Seq<Seq<char>>, k: KeyV| keyok(k) && p == #[trigger] file_of(b, k) }
// a file is only ever written with the bytes of the chunk it is named after
#[verifier::external_body] pub fn fs_write(p: &PathBuf, d: &Bytes) -> (r: IoResult<()>)
    requires cache_file(p@), forall|b: Seq<Seq<char>>, k: KeyV| keyok(k) && p@ == #[trigger] file_of(b, k) ==> d@ == chunk(b, k) { unimplemented!() }
// so reading it gives these bytes, or the part of them written so far
#[verifier::external_body] pub fn fs_read(p: PathBuf) -> (r: IoResult<Vec<u8>>)
    ensures r is Ok ==> forall|b: Seq<Seq<char>>, k: KeyV| keyok(k) && p@ == #[trigger] file_of(b, k) ==> is_prefix(r->Ok_0@, chunk(b, k)) { unimplemented!() }
#[verifier::external_body] pub fn fs_remove(p: &PathBuf) -> (r: IoResult<()>) requires cache_file(p@) { unimplemented!() }
// ---- the shared cache (moka)
#[verifier::external_body] pub struct ChunkCache { p: u8 }
impl Clone for ChunkCache { #[verifier::external_body] fn clone(&self) -> (r: ChunkCache) ensures r.base() == self.base() { unimplemented!() } }
#[verifier::external_body] pub struct EntrySelector { p: u8 }
#[verifier::external_body] pub struct Entry { p: u8 }
impl ChunkCache {
    pub uninterp spec fn base(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn get(&self, k: &CacheKey) -> (r: Option<CacheValue>) ensures r is Some ==> valid(self.base(), *k, r->Some_0) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&self, k: CacheKey, v: CacheValue) requires valid(self.base(), k, v) { unimplemented!() }
    #[verifier::external_body] pub fn invalidate(&self, k: &CacheKey) { unimplemented!() }
    #[verifier::external_body] pub fn run_pending_tasks(&self) { unimplemented!() }
    #[verifier::external_body] pub fn weighted_size(&self) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn entry_by_ref(&self, k: &CacheKey) -> (r: EntrySelector) ensures r.base() == self.base(), r.key() == *k { unimplemented!() }
    #[verifier::external_body] pub fn entry(&self, k: CacheKey) -> (r: EntrySelector) ensures r.base() == self.base(), r.key() == k { unimplemented!() }
}
impl EntrySelector {
    pub uninterp spec fn base(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn key(&self) -> CacheKey;
    #[verifier::external_body] pub fn or_insert(self, v: CacheValue) -> (r: Entry) requires valid(self.base(), self.key(), v) { unimplemented!() }
}
impl Entry { #[verifier::external_body] pub fn is_fresh(&self) -> bool { unimplemented!() } }
