// ---- object stores: every operation of an inner store is recorded with its exact arguments; its answer is some function
// of the operations so far (the same for the same operations), so "the answer of that very call" can be stated
pub type Result<T, E = StoreError> = core::result::Result<T, E>;
pub type Arc<T> = std::sync::Arc<T>;
pub type Seqc = Seq<char>;
#[verifier::external_body] #[derive(Debug)] pub struct Opaque { p: u8 }
#[verifier::external_body] pub struct PathText { p: u8 }
impl PathText { #[verifier::external_body] pub fn ends_with(&self, s: &str) -> bool { unimplemented!() } }
pub enum StoreError { NotFound { path: PathText, source: Opaque }, Generic { store: &'static str, source: Opaque }, Other(Opaque) }
pub type Error = StoreError;
pub mod object_store { pub use super::StoreError as Error; pub use super::PutMode; }
#[verifier::external_body] pub struct Path { p: u8 }
impl View for Path { type V = Seqc; uninterp spec fn view(&self) -> Seqc; }
// the normalised path of a text
pub uninterp spec fn path_of(s: Seqc) -> Seqc;
impl Path { #[verifier::external_body] pub fn from<S: RxDisp>(s: S) -> (r: Path) ensures r@ == path_of(s.disp()) { unimplemented!() } }
impl Clone for Path { #[verifier::external_body] fn clone(&self) -> (r: Path) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub struct Bytes { p: u8 }
#[verifier::external_body] pub struct PutPayload { p: u8 }
#[verifier::external_body] pub struct UpdateVersion { p: u8 }
pub enum PutMode { Overwrite, Create, Update(UpdateVersion) }
pub struct PutOptions { pub mode: PutMode, pub tags: Opaque, pub attributes: Opaque }
#[verifier::external_body] pub struct PutMultipartOpts { p: u8 }
#[verifier::external_body] pub struct GetOptions { p: u8 }
pub uninterp spec fn put_plain() -> PutOptions;
#[verifier::external_body] pub broadcast proof fn ax_put_plain() ensures (#[trigger] put_plain()).mode == PutMode::Overwrite {}
pub uninterp spec fn multi_plain() -> PutMultipartOpts;
pub uninterp spec fn get_plain() -> GetOptions;
#[verifier::external_body] pub struct PutResult { p: u8 }
#[verifier::external_body] pub struct GetResult { p: u8 }
#[verifier::external_body] pub struct ListResult { p: u8 }
#[verifier::external_body] pub struct Upload { p: u8 }
pub struct ObjectMeta { pub location: Path, pub rest: Opaque }
// streams of paths and of listings: what they yield, and how far they have been read
#[verifier::external_body] pub struct PathStream { p: u8 }
impl View for PathStream { type V = Seq<Result<Path>>; uninterp spec fn view(&self) -> Seq<Result<Path>>; }
#[verifier::external_body] pub struct MetaStream { p: u8 }
impl View for MetaStream { type V = Seq<Result<ObjectMeta>>; uninterp spec fn view(&self) -> Seq<Result<ObjectMeta>>; }
impl MetaStream { pub uninterp spec fn pos(&self) -> int; }
#[verifier::external_body] pub fn mut_next(s: &mut MetaStream) -> (r: Option<Result<ObjectMeta>>)
    requires 0 <= old(s).pos() <= old(s)@.len()
    ensures final(s)@ == old(s)@, old(s).pos() < old(s)@.len() ==> r == Some(old(s)@[old(s).pos()]) && final(s).pos() == old(s).pos() + 1,
        old(s).pos() >= old(s)@.len() ==> r is None && final(s).pos() == old(s).pos() { unimplemented!() }

#[verifier::external_body] pub struct InnerStore { p: u8 }
impl InnerStore {
    // which store it is
    pub uninterp spec fn desc(&self) -> Desc;
}
impl Clone for InnerStore { #[verifier::external_body] fn clone(&self) -> (r: InnerStore) ensures r == *self { unimplemented!() } }
// a wrapper whose delete is proved to be its inner store's delete (InternalObjectStore::delete)
pub trait HasInner { spec fn inner_store(&self) -> InnerStore; }
impl HasInner for InnerStore { open spec fn inner_store(&self) -> InnerStore { *self } }
impl<T: HasInner> HasInner for &T { open spec fn inner_store(&self) -> InnerStore { (**self).inner_store() } }
pub ghost enum Call {
    Put(InnerStore, Seqc, PutPayload, PutOptions), Multi(InnerStore, Seqc, PutMultipartOpts), Get(InnerStore, Seqc, GetOptions), Range(InnerStore, Seqc, int, int), Head(InnerStore, Seqc),
    Delete(InnerStore, Seqc), DeleteStream(InnerStore, Seq<Result<Path>>), List(InnerStore, Option<Seqc>), ListD(InnerStore, Option<Seqc>),
    Copy(InnerStore, Seqc, Seqc), CopyNew(InnerStore, Seqc, Seqc), Rename(InnerStore, Seqc, Seqc), RenameNew(InnerStore, Seqc, Seqc),
}
pub type Log = Seq<Call>;
pub ghost struct World { pub log: Log, pub fs: IMap<Seqc, Seq<u8>> }
pub uninterp spec fn ans_put(l: Log) -> Result<PutResult>;
pub uninterp spec fn ans_multi(l: Log) -> Result<Upload>;
pub uninterp spec fn ans_get(l: Log) -> Result<GetResult>;
pub uninterp spec fn ans_bytes(l: Log) -> Result<Bytes>;
pub uninterp spec fn ans_head(l: Log) -> Result<ObjectMeta>;
pub uninterp spec fn ans_unit(l: Log) -> Result<()>;
pub uninterp spec fn ans_list(l: Log) -> Seq<Result<ObjectMeta>>;
pub uninterp spec fn ans_listd(l: Log) -> Result<ListResult>;
pub uninterp spec fn ans_deleted(l: Log) -> Seq<Result<Path>>;
pub open spec fn opath(p: Option<&Path>) -> Option<Seqc> { match p { Some(p) => Some(p@), None => None } }
#[verifier::external_body] pub fn wr_put(w: &mut World, s: &InnerStore, l: &Path, p: PutPayload) -> (r: Result<PutResult>) ensures final(w).log == old(w).log.push(Call::Put(*s, l@, p, put_plain())), r == ans_put(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_put_opts(w: &mut World, s: &InnerStore, l: &Path, p: PutPayload, o: PutOptions) -> (r: Result<PutResult>) ensures final(w).log == old(w).log.push(Call::Put(*s, l@, p, o)), r == ans_put(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_put_multipart(w: &mut World, s: &InnerStore, l: &Path) -> (r: Result<Upload>) ensures final(w).log == old(w).log.push(Call::Multi(*s, l@, multi_plain())), r == ans_multi(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_put_multipart_opts(w: &mut World, s: &InnerStore, l: &Path, o: PutMultipartOpts) -> (r: Result<Upload>) ensures final(w).log == old(w).log.push(Call::Multi(*s, l@, o)), r == ans_multi(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_get(w: &mut World, s: &InnerStore, l: &Path) -> (r: Result<GetResult>) ensures final(w).log == old(w).log.push(Call::Get(*s, l@, get_plain())), r == ans_get(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_get_opts(w: &mut World, s: &InnerStore, l: &Path, o: GetOptions) -> (r: Result<GetResult>) ensures final(w).log == old(w).log.push(Call::Get(*s, l@, o)), r == ans_get(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_get_range(w: &mut World, s: &InnerStore, l: &Path, g: core::ops::Range<usize>) -> (r: Result<Bytes>) ensures final(w).log == old(w).log.push(Call::Range(*s, l@, g.start as int, g.end as int)), r == ans_bytes(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_head(w: &mut World, s: &InnerStore, l: &Path) -> (r: Result<ObjectMeta>) ensures final(w).log == old(w).log.push(Call::Head(*s, l@)), r == ans_head(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_delete<S: HasInner>(w: &mut World, s: &S, l: &Path) -> (r: Result<()>) ensures final(w).log == old(w).log.push(Call::Delete(s.inner_store(), l@)), r == ans_unit(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_delete_stream(w: &mut World, s: &InnerStore, l: PathStream) -> (r: PathStream) ensures final(w).log == old(w).log.push(Call::DeleteStream(*s, l@)), r@ == ans_deleted(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_list(w: &mut World, s: &InnerStore, p: Option<&Path>) -> (r: MetaStream) ensures final(w).log == old(w).log.push(Call::List(*s, opath(p))), r@ == ans_list(final(w).log), r.pos() == 0 { unimplemented!() }
#[verifier::external_body] pub fn wr_list_with_delimiter(w: &mut World, s: &InnerStore, p: Option<&Path>) -> (r: Result<ListResult>) ensures final(w).log == old(w).log.push(Call::ListD(*s, opath(p))), r == ans_listd(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_copy(w: &mut World, s: &InnerStore, a: &Path, b: &Path) -> (r: Result<()>) ensures final(w).log == old(w).log.push(Call::Copy(*s, a@, b@)), r == ans_unit(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_copy_if_not_exists(w: &mut World, s: &InnerStore, a: &Path, b: &Path) -> (r: Result<()>) ensures final(w).log == old(w).log.push(Call::CopyNew(*s, a@, b@)), r == ans_unit(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_rename(w: &mut World, s: &InnerStore, a: &Path, b: &Path) -> (r: Result<()>) ensures final(w).log == old(w).log.push(Call::Rename(*s, a@, b@)), r == ans_unit(final(w).log) { unimplemented!() }
#[verifier::external_body] pub fn wr_rename_if_not_exists(w: &mut World, s: &InnerStore, a: &Path, b: &Path) -> (r: Result<()>) ensures final(w).log == old(w).log.push(Call::RenameNew(*s, a@, b@)), r == ans_unit(final(w).log) { unimplemented!() }
// ---- which store a handle denotes
pub ghost enum Desc {
    Config(ObjectStoreConfig),                       // built from the configuration
    Location(UrlV, IMap<Seqc, Seqc>),                // built from a table's URL and options
    Cached(Box<Desc>, ObjectCacheProperties),        // the same store behind the byte-range cache
    Prefixed(Box<Desc>, Seqc),                       // the part of the store below a path
    Internal(Box<Desc>, ObjectStoreConfig),          // InternalObjectStore around it
}
#[verifier::external_body] pub struct StdPath { p: u8 }
#[verifier::external_body] pub struct PathBuf { p: u8 }
#[verifier::external_body] pub struct ChunkCache { p: u8 }
#[verifier::external_body] pub struct CacheFileManager { p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct CachingObjectStoreMetrics { p: u8 }
#[verifier::external_body] pub fn wr_metric(w: &mut World, m: &CachingObjectStoreMetrics, start: Instant, op: &str, ok: Option<bool>) ensures *final(w) == *old(w) { unimplemented!() }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Instant { p: u8 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }
// ---- URLs: everything before the path, and the path
#[verifier::external_body] pub struct Url { p: u8 }
pub ghost struct UrlV { pub base: Seqc, pub path: Seqc }
impl View for Url { type V = UrlV; uninterp spec fn view(&self) -> UrlV; }
impl Clone for Url { #[verifier::external_body] fn clone(&self) -> (r: Url) ensures r == *self { unimplemented!() } }
pub uninterp spec fn url_of(s: Seqc) -> Option<UrlV>;          // reading a URL
pub uninterp spec fn real_dir(s: Seqc) -> Option<Seqc>;        // a directory's canonical path
pub uninterp spec fn dir_url(s: Seqc) -> UrlV;                 // the file:// URL of a directory
pub uninterp spec fn scheme_of(u: UrlV) -> Seqc;
pub open spec fn with_path(u: UrlV, p: Seqc) -> UrlV { UrlV { base: u.base, path: p } }
pub open spec fn dirlike(u: UrlV) -> bool { u.path.len() > 0 && u.path.last() == '/' }
pub open spec fn as_dir(u: UrlV) -> UrlV { if dirlike(u) { u } else { with_path(u, u.path + "/"@) } }
// one path segment that needs no escaping (a UUID)
pub uninterp spec fn plain_segment(s: Seqc) -> bool;
pub uninterp spec fn extended(u: UrlV, segments: Seq<Seqc>) -> UrlV;
pub uninterp spec fn pop_empty(u: UrlV) -> UrlV;
pub uninterp spec fn splits(s: Seqc, by: Seqc) -> Seq<Seqc>;
#[verifier::external_body] pub struct Pieces { p: u8 }
impl View for Pieces { type V = Seq<Seqc>; uninterp spec fn view(&self) -> Seq<Seqc>; }
#[verifier::external_body] #[derive(Debug)] pub struct BadUrl { p: u8 }
impl Url {
    #[verifier::external_body] pub fn from_str(s: &str) -> (r: Result<Url, BadUrl>) ensures r is Ok <==> url_of(s@) is Some, r is Ok ==> r->Ok_0@ == url_of(s@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<Url, BadUrl>) ensures r is Ok <==> url_of(s@) is Some, r is Ok ==> r->Ok_0@ == url_of(s@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn from_directory_path(p: PathBuf) -> (r: Result<Url, ()>) ensures r is Ok, r->Ok_0@ == dir_url(p@) { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: &str) ensures r@ == self@.path { unimplemented!() }
    #[verifier::external_body] pub fn set_path(&mut self, p: &str) ensures final(self)@ == with_path(old(self)@, p@) { unimplemented!() }
    #[verifier::external_body] pub fn scheme(&self) -> (r: &str) ensures r@ == scheme_of(self@) { unimplemented!() }
}
#[verifier::external_body] pub fn mut_segments(u: &mut Url) -> (r: Result<&mut Url, ()>) ensures r is Ok ==> *r->Ok_0 == *old(u) && *final(r->Ok_0) == *final(u), r is Err ==> *final(u) == *old(u) { unimplemented!() }
#[verifier::external_body] pub fn own_pop_if_empty(u: &mut Url) -> (r: &mut Url) ensures (*r)@ == pop_empty((*old(u))@), *final(r) == *final(u) { unimplemented!() }
#[verifier::external_body] pub fn own_extend(u: &mut Url, p: Pieces) -> (r: &mut Url) ensures (*r)@ == extended((*old(u))@, p@), *final(r) == *final(u) { unimplemented!() }
#[verifier::external_body] pub fn rx_split<S: RxDisp + ?Sized>(s: &S, by: &str) -> (r: Pieces) ensures r@ == splits(s.disp(), by@) { unimplemented!() }
#[verifier::external_body] pub fn rx_ends_with<S: RxDisp + ?Sized>(s: &S, c: char) -> (r: bool) ensures r == (s.disp().len() > 0 && s.disp().last() == c) { unimplemented!() }
impl View for StdPath { type V = Seqc; uninterp spec fn view(&self) -> Seqc; }
impl View for PathBuf { type V = Seqc; uninterp spec fn view(&self) -> Seqc; }
impl StdPath { #[verifier::external_body] pub fn new<S: RxDisp + ?Sized>(s: &S) -> (r: &StdPath) ensures r@ == s.disp() { unimplemented!() } }
#[verifier::external_body] pub fn rx_canonicalize(p: &StdPath) -> (r: core::result::Result<PathBuf, Opaque>) ensures r is Ok <==> real_dir(p@) is Some, r is Ok ==> r->Ok_0@ == real_dir(p@)->0 { unimplemented!() }
#[verifier::external_body] pub fn rx_url_join(u: &Url, s: &str) -> (r: Result<Url, BadUrl>) ensures dirlike(u@) && plain_segment(s@) ==> r is Ok && r->Ok_0@ == with_path(u@, u@.path + s@) { unimplemented!() }
#[verifier::external_body] pub fn rx_eq<A: RxDisp + ?Sized, B: RxDisp + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.disp() == b.disp()) { unimplemented!() }
// ---- the local file system: files by name
pub trait RxFile { spec fn name(&self) -> Seqc; }
impl RxFile for StdPath { open spec fn name(&self) -> Seqc { self@ } }
impl RxFile for String { open spec fn name(&self) -> Seqc { self@ } }
impl RxFile for str { open spec fn name(&self) -> Seqc { self@ } }
impl<T: RxFile + ?Sized> RxFile for &T { open spec fn name(&self) -> Seqc { (**self).name() } }
impl RxDisp for StdPath { open spec fn disp(&self) -> Seqc { self@ } }
impl RxDisp for Option<i32> { uninterp spec fn disp(&self) -> Seqc; }
#[verifier::external_body] #[derive(Debug)] pub struct IoError { p: u8 }
#[verifier::external_body] pub fn rx_parent<P: RxFile>(p: &P) -> Option<&StdPath> { unimplemented!() }
#[verifier::external_body] pub fn rx_os_error(e: &IoError) -> Option<i32> { unimplemented!() }
#[verifier::external_body] pub fn w_create_dirs<P: RxFile>(w: &mut World, p: P) -> (r: Result<(), IoError>) ensures *final(w) == *old(w) { unimplemented!() }
// rename: all or nothing
#[verifier::external_body] pub fn w_rename<A: RxFile, B: RxFile>(w: &mut World, a: A, b: B) -> (r: Result<(), IoError>) requires old(w).fs.dom().contains(a.name())
    ensures final(w).log == old(w).log, r is Ok && a.name() != b.name() ==> final(w).fs == old(w).fs.remove(a.name()).insert(b.name(), old(w).fs[a.name()]), r is Err ==> *final(w) == *old(w) { unimplemented!() }
// copy: may leave anything in the target when it fails
#[verifier::external_body] pub fn w_copy<A: RxFile, B: RxFile>(w: &mut World, a: A, b: B) -> (r: Result<u64, IoError>) requires old(w).fs.dom().contains(a.name()), a.name() != b.name()
    ensures final(w).log == old(w).log, r is Ok ==> final(w).fs == old(w).fs.insert(b.name(), old(w).fs[a.name()]), r is Err ==> exists|x: Option<Seq<u8>>| #[trigger] left(x) && final(w).fs == (match x { Some(d) => old(w).fs.insert(b.name(), d), None => old(w).fs }) { unimplemented!() }
pub open spec fn left(x: Option<Seq<u8>>) -> bool { true }
#[verifier::external_body] pub fn w_remove<A: RxFile>(w: &mut World, a: A) -> (r: Result<(), IoError>)
    ensures final(w).log == old(w).log, r is Ok ==> final(w).fs == old(w).fs.remove(a.name()), r is Err ==> final(w).fs == old(w).fs { unimplemented!() }
#[verifier::external_body] pub fn rx_source<T>(t: T) -> Opaque { unimplemented!() }
