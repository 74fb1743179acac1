use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
//@extract object_store_factory/src/aws.rs | struct S3Config
//@end
//@extract object_store_factory/src/google.rs | struct GCSConfig
//@end
//@extract object_store_factory/src/local.rs | struct LocalConfig
//@end
//@extract object_store_factory/src/lib.rs | enum ObjectStoreConfig
//@end
impl Clone for ObjectStoreConfig { #[verifier::external_body] fn clone(&self) -> (r: ObjectStoreConfig) ensures r == *self { unimplemented!() } }
//@extract src/config/schema.rs | struct ObjectCacheProperties
//@end
//@include stores_base.inc.rs
//@extract src/object_store/cache.rs | struct CachingObjectStore
//@types
Cache<CacheKey, CacheValue> => ChunkCache
Arc<dyn ObjectStore> => InnerStore
//@end
// the byte-range cache passes everything but range reads (C14) on as it is
impl CachingObjectStore {
//@extract src/object_store/cache.rs | impl ObjectStore for CachingObjectStore :: put_opts | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Put(self.inner, location@, payload, opts)), r == ans_put(final(w).log), // put_opts
//@end
//@extract src/object_store/cache.rs | impl ObjectStore for CachingObjectStore :: put_multipart | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Multi(self.inner, location@, multi_plain())), r == ans_multi(final(w).log), // put_multipart
//@end
//@extract src/object_store/cache.rs | impl ObjectStore for CachingObjectStore :: put_multipart_opts | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Multi(self.inner, location@, opts)), r == ans_multi(final(w).log), // put_multipart_opts
//@end
//@extract src/object_store/cache.rs | impl ObjectStore for CachingObjectStore :: get_opts | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Get(self.inner, location@, options)), r == ans_get(final(w).log), // get_opts
//@end
//@extract src/object_store/cache.rs | impl ObjectStore for CachingObjectStore :: head | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Head(self.inner, location@)), r == ans_head(final(w).log), // head
//@end
//@extract src/object_store/cache.rs | impl ObjectStore for CachingObjectStore :: delete | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Delete(self.inner, location@)), r == ans_unit(final(w).log), // delete
//@end
//@extract src/object_store/cache.rs | impl ObjectStore for CachingObjectStore :: delete_stream | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::DeleteStream(self.inner, locations@)), r@ == ans_deleted(final(w).log), // delete_stream
//@end
//@extract src/object_store/cache.rs | impl ObjectStore for CachingObjectStore :: list | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::List(self.inner, opath(prefix))), r@ == ans_list(final(w).log), // list
//@end
//@extract src/object_store/cache.rs | impl ObjectStore for CachingObjectStore :: list_with_delimiter | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::ListD(self.inner, opath(prefix))), r == ans_listd(final(w).log), // list_with_delimiter
//@end
//@extract src/object_store/cache.rs | impl ObjectStore for CachingObjectStore :: copy | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Copy(self.inner, from@, to@)), r == ans_unit(final(w).log), // copy
//@end
//@extract src/object_store/cache.rs | impl ObjectStore for CachingObjectStore :: copy_if_not_exists | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::CopyNew(self.inner, from@, to@)), r == ans_unit(final(w).log), // copy_if_not_exists
//@end
}
//@extract src/object_store/wrapped.rs | struct InternalObjectStore
//@types
Arc<dyn ObjectStore> => InnerStore
//@end
impl Clone for InternalObjectStore { #[verifier::external_body] fn clone(&self) -> (r: InternalObjectStore) ensures r == *self { unimplemented!() } }
impl HasInner for InternalObjectStore { open spec fn inner_store(&self) -> InnerStore { self.inner } }
// hard links are needed for conditional writes on a local disk; where the configuration says there are none, they become unconditional
pub open spec fn no_links(c: ObjectStoreConfig) -> bool { c matches ObjectStoreConfig::Local(l) && l.disable_hardlinks }
pub open spec fn same_but_overwrite(a: PutOptions, b: PutOptions) -> bool { a.mode == PutMode::Overwrite && a.tags == b.tags && a.attributes == b.attributes }
// the operations so far after the first n listed objects have been deleted
pub open spec fn deleted(s: InnerStore, items: Seq<Result<ObjectMeta>>, l0: Log, n: int) -> Log
    decreases n
{
    if n <= 0 { l0 } else { deleted(s, items, l0, n - 1).push(Call::Delete(s, items[n - 1]->Ok_0.location@)) }
}
pub open spec fn only_deletes(s: InnerStore, items: Seq<Result<ObjectMeta>>, l0: Log, l: Log) -> bool {
    let n = l.len() - l0.len();
    0 <= n <= items.len() && l == deleted(s, items, l0, n) && forall|i: int| 0 <= i < n ==> #[trigger] items[i] is Ok
}
pub open spec fn all_gone(s: InnerStore, items: Seq<Result<ObjectMeta>>, l0: Log) -> bool {
    forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]) is Ok && ans_unit(deleted(s, items, l0, i + 1)) is Ok
}
pub open spec fn below(base: Seqc, prefix: Option<String>) -> Seqc { match prefix { Some(p) => base + "/"@ + p@, None => base } }
// the text of the store's root
pub open spec fn root_text(c: ObjectStoreConfig) -> Seqc {
    match c {
        ObjectStoreConfig::Local(_) => Seq::empty(),
        ObjectStoreConfig::Memory => "memory://"@,
        ObjectStoreConfig::AmazonS3(s) => below(match s.endpoint { Some(e) => e@ + "/"@ + s.bucket@, None => "s3://"@ + s.bucket@ }, s.prefix),
        ObjectStoreConfig::GoogleCloudStorage(g) => below("gs://"@ + g.bucket@, g.prefix),
    }
}
pub open spec fn root_of(c: ObjectStoreConfig) -> UrlV { as_dir(match c { ObjectStoreConfig::Local(l) => dir_url(real_dir(l.data_dir@)->0), c => url_of(root_text(c))->0 }) }
// where a table lives below the root of the store
pub open spec fn prefix_of(c: ObjectStoreConfig) -> Option<Seqc> {
    match c {
        ObjectStoreConfig::AmazonS3(s) => (match s.prefix { Some(p) => Some(p@), None => None }),
        ObjectStoreConfig::GoogleCloudStorage(g) => (match g.prefix { Some(p) => Some(p@), None => None }),
        _ => None,
    }
}
pub open spec fn table_path(c: ObjectStoreConfig, t: Seqc) -> Seqc { path_of(match prefix_of(c) { Some(p) => p + "/"@ + t, None => t }) }
// remote stores are read through the byte-range cache if one is configured
pub open spec fn built(c: ObjectStoreConfig, k: Option<ObjectCacheProperties>) -> Desc {
    if (c is AmazonS3 || c is GoogleCloudStorage) && k is Some { Desc::Cached(Box::new(Desc::Config(c)), k->0) } else { Desc::Config(c) }
}
#[verifier::external_body] pub struct LogStore { p: u8 }
impl LogStore { pub uninterp spec fn store(&self) -> Desc; pub uninterp spec fn url(&self) -> UrlV; }
#[verifier::external_body] pub struct NoOptions { p: u8 }
#[verifier::external_body] pub fn rx_no_options() -> NoOptions { unimplemented!() }
#[verifier::external_body] pub fn default_logstore(s: InnerStore, u: &Url, o: &NoOptions) -> (r: LogStore) ensures r.store() == s.desc(), r.url() == u@ { unimplemented!() }
#[verifier::external_body] pub struct PrefixStore { p: u8 }
pub trait RxDesc { spec fn d(&self) -> Desc; }
impl RxDesc for InnerStore { open spec fn d(&self) -> Desc { self.desc() } }
impl RxDesc for InternalObjectStore { open spec fn d(&self) -> Desc { Desc::Internal(Box::new(self.inner.desc()), self.config) } }
impl RxDesc for PrefixStore { uninterp spec fn d(&self) -> Desc; }
pub uninterp spec fn cache_props(c: CachingObjectStore) -> ObjectCacheProperties;
impl RxDesc for CachingObjectStore { open spec fn d(&self) -> Desc { Desc::Cached(Box::new(self.inner.desc()), cache_props(*self)) } }
pub trait RxPath { spec fn p(&self) -> Seqc; }
impl RxPath for Path { open spec fn p(&self) -> Seqc { self@ } }
impl RxPath for String { open spec fn p(&self) -> Seqc { path_of(self@) } }
impl RxPath for &str { open spec fn p(&self) -> Seqc { path_of(self@) } }
impl PrefixStore { #[verifier::external_body] pub fn new<S: RxDesc, P: RxPath>(s: S, p: P) -> (r: PrefixStore) ensures r.d() == Desc::Prefixed(Box::new(s.d()), p.p()) { unimplemented!() } }
#[verifier::external_body] pub fn to_dyn<S: RxDesc>(s: S) -> (r: InnerStore) ensures r.desc() == s.d() { unimplemented!() }
impl CachingObjectStore { #[verifier::external_body] pub fn new_from_config(k: &ObjectCacheProperties, s: InnerStore) -> (r: CachingObjectStore) ensures r.inner == s, cache_props(r) == *k { unimplemented!() } }
impl ObjectStoreConfig { #[verifier::external_body] pub fn build_object_store(&self) -> (r: Result<InnerStore>) ensures r is Ok ==> r->Ok_0.desc() == Desc::Config(*self) { unimplemented!() } }
impl InternalObjectStore {
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: put | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Put(self.inner, location@, payload, put_plain())), r == ans_put(final(w).log), // put
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: put_multipart | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Multi(self.inner, location@, multi_plain())), r == ans_multi(final(w).log), // put_multipart
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: put_multipart_opts | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Multi(self.inner, location@, opts)), r == ans_multi(final(w).log), // put_multipart_opts
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: get | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Get(self.inner, location@, get_plain())), r == ans_get(final(w).log), // get
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: get_opts | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Get(self.inner, location@, options)), r == ans_get(final(w).log), // get_opts
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: get_range | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Range(self.inner, location@, range.start as int, range.end as int)), r == ans_bytes(final(w).log), // get_range
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: head | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Head(self.inner, location@)), r == ans_head(final(w).log), // head
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: delete | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Delete(self.inner, location@)), r == ans_unit(final(w).log), // delete
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: list | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::List(self.inner, opath(prefix))), r@ == ans_list(final(w).log), // list
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: list_with_delimiter | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::ListD(self.inner, opath(prefix))), r == ans_listd(final(w).log), // list_with_delimiter
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: copy | world
//@include stores_rules.inc.rs
//@contract
    ensures final(w).log == old(w).log.push(Call::Copy(self.inner, from@, to@)), r == ans_unit(final(w).log), // copy
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: put_opts | world
//@include stores_rules.inc.rs
//@contract
    ensures r == ans_put(final(w).log),
        !no_links(self.config) ==> final(w).log == old(w).log.push(Call::Put(self.inner, location@, payload, opts)), // put_opts
        no_links(self.config) ==> exists|o: PutOptions| same_but_overwrite(o, opts) && final(w).log == #[trigger] old(w).log.push(Call::Put(self.inner, location@, payload, o)), // put_opts_nolinks
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: copy_if_not_exists | world
//@include stores_rules.inc.rs
//@contract
    ensures r == ans_unit(final(w).log),
        final(w).log == old(w).log.push(if no_links(self.config) { Call::Copy(self.inner, from@, to@) } else { Call::CopyNew(self.inner, from@, to@) }), // copy_if_not_exists
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: rename_if_not_exists | world
//@include stores_rules.inc.rs
//@contract
    ensures r == ans_unit(final(w).log),
        final(w).log == old(w).log.push(if no_links(self.config) || self.config is AmazonS3 { Call::Rename(self.inner, from@, to@) } else { Call::RenameNew(self.inner, from@, to@) }), // rename_if_not_exists
//@end
//@extract src/object_store/wrapped.rs | impl ObjectStore for InternalObjectStore :: delete_stream @ closure 0 | world
//@include stores_rules.inc.rs
//@sig
fn delete_one(&self, location: Result<Path>) -> Result<Path>
//@contract
    ensures
        location is Err ==> r is Err && final(w).log == old(w).log,
        location is Ok ==> final(w).log == old(w).log.push(Call::Delete(self.inner, location->Ok_0@)) && (r is Ok <==> ans_unit(final(w).log) is Ok) && (r is Ok ==> r == location), // delete_one
//@end
//@extract src/object_store/wrapped.rs | impl InternalObjectStore :: delete_in_prefix | world
//@include stores_rules.inc.rs
//@contract
    ensures ({
        let l0 = old(w).log.push(Call::List(self.inner, Some(prefix@)));
        let items = ans_list(l0);
        // nothing but listed objects is deleted, in turn, and Ok means that the listing was complete and every object is gone
        &&& only_deletes(self.inner, items, l0, final(w).log) // only_listed
        &&& r is Ok ==> final(w).log.len() == l0.len() + items.len() && all_gone(self.inner, items, l0) // all_listed
    }),
//@entry
    let ghost l0 = old(w).log.push(Call::List(self.inner, Some(prefix@)));
    let ghost items = ans_list(l0);
//@loop 0
    invariant
        l0 == old(w).log.push(Call::List(self.inner, Some(prefix@))), items == ans_list(l0),
        path_stream@ == items, 0 <= path_stream.pos() <= items.len(),
        only_deletes(self.inner, items, l0, w.log), w.log.len() == l0.len() + path_stream.pos(),
        forall|i: int| 0 <= i < path_stream.pos() ==> ans_unit(#[trigger] deleted(self.inner, items, l0, i + 1)) is Ok,
    ensures path_stream.pos() == items.len(),
    decreases items.len() - path_stream.pos(),
//@end
//@extract src/object_store/wrapped.rs | impl InternalObjectStore :: new
//@include stores_rules.inc.rs
canonicalize/0 => rx_canonicalize
ends_with/1 => rx_ends_with
//@contract
    // the configuration has been checked by building the store: the directory exists and the text is a URL
    requires match config { ObjectStoreConfig::Local(l) => real_dir(l.data_dir@) is Some, c => url_of(root_text(c)) is Some },
    ensures r.inner == inner, r.config == config, r.root_uri@ == root_of(config), // root
//@entry
    proof { reveal_strlit("/"); assert("/"@ =~= seq!['/']); }
//@end
//@extract src/object_store/wrapped.rs | impl InternalObjectStore :: local_table_dir
//@include stores_rules.inc.rs
//@contract
    ensures match self.config { ObjectStoreConfig::Local(l) => r is Some && r->0@ == l.data_dir@ + "/"@ + table_prefix@, _ => r is None }, // table_dir
//@end
//@extract src/object_store/wrapped.rs | impl InternalObjectStore :: table_prefix
//@include stores_rules.inc.rs
//@contract
    ensures r@ == table_path(self.config, table_prefix@), // table_path
//@end
//@extract src/object_store/wrapped.rs | impl InternalObjectStore :: get_log_store
//@include stores_rules.inc.rs
join/1 => rx_url_join
//@calls
Arc::from => to_dyn
Arc::new => to_dyn
Default::default => rx_no_options
//@contract
    requires plain_segment(table_prefix@), dirlike(self.root_uri@),
    ensures
        r.store() == Desc::Prefixed(Box::new(Desc::Internal(Box::new(self.inner.desc()), self.config)), table_path(self.config, table_prefix@)), // log_store
        r.url() == with_path(self.root_uri@, self.root_uri@.path + table_prefix@), // log_url
//@end
}
//@extract src/object_store/factory.rs | fn build_object_store
//@include stores_rules.inc.rs
//@calls
Arc::new => to_dyn
//@contract
    ensures r is Ok ==> r->Ok_0.desc() == built(*object_store_cfg, *cache_properties), // built
//@end
//@extract src/object_store/factory.rs | struct StoreCacheKey
//@types
HashMap<String, String> => Options
//@end
//@extract src/object_store/factory.rs | struct ObjectStoreFactory
//@types
DashMap<StoreCacheKey, Arc<dyn ObjectStore>> => StoreMap
//@end
// table options
#[verifier::external_body] pub struct Options { p: u8 }
impl View for Options { type V = IMap<Seqc, Seqc>; uninterp spec fn view(&self) -> IMap<Seqc, Seqc>; }
impl Clone for Options { #[verifier::external_body] fn clone(&self) -> (r: Options) ensures r == *self { unimplemented!() } }
// the map of stores, shared by all requests: whoever puts a store in puts it under its own location, so whoever finds one may rely on that
#[verifier::external_body] pub struct StoreMap { p: u8 }
pub open spec fn belongs(k: StoreCacheKey, s: InnerStore, c: Option<ObjectCacheProperties>) -> bool { s.desc() == location_store(k.url@, k.options@, c) }
pub open spec fn location_store(u: UrlV, o: IMap<Seqc, Seqc>, c: Option<ObjectCacheProperties>) -> Desc {
    let d = Desc::Location(u, o);
    if scheme_of(u) != "file"@ && scheme_of(u) != "memory"@ && c is Some { Desc::Cached(Box::new(d), c->0) } else { d }
}
impl StoreMap {
    pub uninterp spec fn caching(&self) -> Option<ObjectCacheProperties>;
    #[verifier::external_body] pub fn new() -> (r: StoreMap) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&self, k: &StoreCacheKey) -> (r: Option<InnerStore>) ensures r is Some ==> belongs(*k, r->0, self.caching()) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &StoreCacheKey) -> (r: Option<InnerStore>) ensures r is Some ==> belongs(*k, r->0, self.caching()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&self, k: StoreCacheKey, s: InnerStore) -> (r: Option<InnerStore>) requires belongs(k, s, self.caching()) { unimplemented!() }
}
pub mod object_store_factory { pub use super::build_object_store_from_opts; }
#[verifier::external_body] pub fn build_object_store_from_opts(u: &Url, o: Options) -> (r: Result<InnerStore>) ensures r is Ok ==> r->Ok_0.desc() == Desc::Location(u@, o@) { unimplemented!() }
pub trait RxInto: Sized { type To; spec fn to(self, r: Self::To) -> bool; }
impl RxInto for InnerStore { type To = InnerStore; open spec fn to(self, r: InnerStore) -> bool { r == self } }
impl RxInto for &str { type To = Opaque; open spec fn to(self, r: Opaque) -> bool { true } }
#[verifier::external_body] pub fn own_into<T: RxInto>(t: T) -> (r: T::To) ensures t.to(r) { unimplemented!() }
impl ObjectStoreFactory {
//@extract src/object_store/factory.rs | impl ObjectStoreFactory :: get_log_store_for_table | streq
//@include stores_rules.inc.rs
into/0 => own_into
path_segments_mut/0 => mut_segments
pop_if_empty/0 => own_pop_if_empty
extend/1 => own_extend
split/1 => rx_split
//@types
HashMap<String, String> => Options
//@calls
Arc::new => to_dyn
Default::default => rx_no_options
//@contract
    requires self.custom_stores.caching() == self.object_store_cache,
    ensures
        r is Ok ==> r->Ok_0.store() == Desc::Prefixed(Box::new(location_store(url@, options@, self.object_store_cache)), path_of(table_path@)), // store_of_table
        r is Ok ==> r->Ok_0.url() == extended(pop_empty(url@), splits(table_path@, "/"@)), // url_of_table
//@end
//@extract src/object_store/factory.rs | impl ObjectStoreFactory :: get_default_log_store | optmap
//@include stores_rules.inc.rs
Option<Arc<dyn LogStore>> => Option<LogStore>
//@contract
    requires plain_segment(path@), self.default_store is Some ==> dirlike((*self.default_store->0).root_uri@),
    ensures r is Some <==> self.default_store is Some,
        r is Some ==> ({ let s = *self.default_store->0; r->0.store() == Desc::Prefixed(Box::new(Desc::Internal(Box::new(s.inner.desc()), s.config)), table_path(s.config, path@)) }), // default_log_store
//@end
}
//@extract src/object_store/utils.rs | fn fast_upload | world streq resmap
//@include stores_rules.inc.rs
parent/0 => rx_parent
raw_os_error/0 => rx_os_error
//@calls
rename => w_rename
copy => w_copy
remove_file => w_remove
create_dir_all => w_create_dirs
Box::new => rx_source
//@types
object_store::Result<(), Error> => Result<()>
//@contract
    requires old(w).fs.dom().contains(from@), from@ != to@, // fs
    ensures
        r is Ok ==> final(w).fs == old(w).fs.remove(from@).insert(to@, old(w).fs[from@]), // moved
        // on failure the file is still where it was, and no other file but the target has changed
        r is Err ==> final(w).fs.dom().contains(from@) && final(w).fs[from@] == old(w).fs[from@]
            && forall|p: Seqc| p != to@ ==> (#[trigger] final(w).fs.dom().contains(p) == old(w).fs.dom().contains(p)) && (old(w).fs.dom().contains(p) ==> final(w).fs[p] == old(w).fs[p]), // kept
//@end
//@probe
pub fn probe_put_elsewhere(w: &mut World, s: &InternalObjectStore, l: &Path, p: PutPayload, o: PutOptions) { let ghost a = *w; let r = s.put_opts(w, l, p, o); assert(w.log == a.log); }
//@probe
pub fn probe_copy_always_new(w: &mut World, s: &InternalObjectStore, x: &Path, y: &Path) { let ghost a = *w; let r = s.copy_if_not_exists(w, x, y); assert(w.log == a.log.push(Call::CopyNew(s.inner, x@, y@))); }
//@probe
pub fn probe_prefix_ignored(s: &InternalObjectStore, t: &str) { let r = s.table_prefix(t); assert(r@ == path_of(t@)); }
//@probe
pub fn probe_gc_always_whole(w: &mut World, s: &InternalObjectStore, p: &Path) { let r = s.delete_in_prefix(w, p); assert(r is Ok); }
//@probe
pub fn probe_upload_source_stays(w: &mut World, f: &StdPath, t: String) requires old(w).fs.dom().contains(f@), f@ != t@ { let ghost a = *w; let r = fast_upload(w, f, t); assert(r is Err); }
}
fn main() {}
