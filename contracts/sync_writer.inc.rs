// ---- the writer's data
//@extract src/sync/mod.rs | struct IcebergSyncTarget
//@end
//@extract src/sync/mod.rs | enum LakehouseSyncTarget
//@types
Arc<dyn LogStore> => LogStore
//@end
//@extract src/sync/mod.rs | struct SyncCommitInfo
//@end
impl RxCl for LogStore { type Out = LogStore; open spec fn cl(&self) -> LogStore { *self } }
impl RxCl for SeafowlContext { type Out = SeafowlContext; open spec fn cl(&self) -> SeafowlContext { *self } }
impl RxCl for LakehouseSyncTarget { type Out = LakehouseSyncTarget; open spec fn cl(&self) -> LakehouseSyncTarget { *self } }
impl RxCl for SyncCommitInfo { type Out = SyncCommitInfo; open spec fn cl(&self) -> SyncCommitInfo { *self } }
impl SyncCommitInfo {
//@extract src/sync/mod.rs | impl SyncCommitInfo :: new
//@types
impl Into<Origin> => &Origin
impl Into<SequenceNumber> => SequenceNumber
//@methods
into/0 => rx_own
//@contract
    ensures r.origin@ == origin@, r.sequence == sequence, !r.new_tx, // fields
//@end
//@extract src/sync/mod.rs | impl SyncCommitInfo :: with_new_tx
//@contract
    ensures r.origin == self.origin, r.sequence == self.sequence, r.new_tx == new_tx, // flag
//@end
}
//@extract src/sync/writer.rs | struct Transaction
//@types
HashSet<String> => RxSet<String>
//@end
//@extract src/sync/writer.rs | struct DataSyncItem
//@end
//@extract src/sync/writer.rs | struct DataSyncCollection
//@end
//@extract src/sync/writer.rs | struct SeafowlDataSyncWriter
//@types
Arc<SeafowlContext> => SeafowlContext
IndexMap<Uuid, Transaction> => TxMap
IndexMap<String, DataSyncCollection> => SyncMap
HashMap<Origin, SequenceNumber> => RxMap<Origin, SequenceNumber>
//@end
//@extract src/sync/writer.rs | const MAX_ROWS_PER_SYNC
//@end
//@extract src/sync/writer.rs | const SYNC_COMMIT_INFO
//@end
pub struct SyncConf { pub max_in_memory_bytes: usize, pub max_replication_lag_s: u64, pub max_syncs_per_url: usize, pub write_lock_timeout_s: u64, pub flush_task_interval_s: u64 }
pub struct Misc { pub max_partition_size: u32, pub sync_conf: SyncConf }
pub struct SeafowlConfig { pub misc: Misc }
#[verifier::external_body] pub struct SessionState { p: u8 }
#[verifier::external_body] pub struct SessionContext { p: u8 }
impl SessionContext { #[verifier::external_body] pub fn state(&self) -> SessionState { unimplemented!() } }
pub struct SeafowlContext { pub config: SeafowlConfig, pub inner: SessionContext }
// ---- lakehouse: log stores, tables, plans, files, actions
#[verifier::external_body] pub struct LogStore { p: u8 }
#[verifier::external_body] pub struct ObjStore { p: u8 }
impl ObjStore { pub uninterp spec fn url(&self) -> Seqc; }
impl LogStore {
    pub uninterp spec fn url(&self) -> Seqc;
    #[verifier::external_body] pub fn root_uri(&self) -> (r: String) ensures r@ == self.url() { unimplemented!() }
    #[verifier::external_body] pub fn object_store(&self) -> (r: ObjStore) ensures r.url() == self.url() { unimplemented!() }
    #[verifier::external_body] pub fn is_delta_table_location(&self) -> (r: core::result::Result<bool, LibError>) { unimplemented!() }
}
#[verifier::external_body] pub struct TableConfig { p: u8 }
impl RxNew for TableConfig { open spec fn fresh(r: Self) -> bool { true } #[verifier::external_body] fn rx_new() -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct DeltaTable { p: u8 }
impl DeltaTable {
    pub uninterp spec fn url(&self) -> Seqc;
    pub uninterp spec fn loaded(&self) -> bool;
    pub uninterp spec fn columns(&self) -> Seqc;
    #[verifier::external_body] pub fn new(l: LogStore, c: TableConfig) -> (r: DeltaTable) ensures r.url() == l.url(), !r.loaded() { unimplemented!() }
    #[verifier::external_body] pub fn load(&mut self) -> (r: core::result::Result<(), LibError>) ensures final(self).url() == old(self).url(), r is Ok ==> final(self).loaded() { unimplemented!() }
}
pub type Value = JsonValue;
#[verifier::external_body] pub struct JsonValue { p: u8 }
pub uninterp spec fn json_null(v: JsonValue) -> bool;
pub uninterp spec fn json_info(v: JsonValue) -> CI;
pub mod serde_json {
    use super::*;
    #[verifier::external_body] pub fn to_value(x: &SyncCommitInfo) -> (r: core::result::Result<JsonValue, LibError>) ensures r is Ok ==> json_info(r->Ok_0) == civ(*x) && !json_null(r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn from_value(x: JsonValue) -> (r: core::result::Result<Option<SyncCommitInfo>, LibError>) ensures r matches Ok(Some(c)) ==> civ(c) == json_info(x), r matches Ok(None) ==> json_null(x) { unimplemented!() }
}
pub ghost struct CI { pub origin: Seqc, pub seq: u64, pub new_tx: bool }
pub open spec fn civ(c: SyncCommitInfo) -> CI { CI { origin: c.origin@, seq: c.sequence, new_tx: c.new_tx } }
pub type InfoMap = RxMap<String, JsonValue>;
#[verifier::external_body] pub struct AddFile { p: u8 }
#[verifier::external_body] pub struct RemoveFile { p: u8 }
pub enum Action { Add(AddFile), Remove(RemoveFile), CommitInfo(InfoMap) }
impl Action { #[verifier::external_body] pub fn commit_info(m: InfoMap) -> (r: Action) ensures r == Action::CommitInfo(m) { unimplemented!() } }
pub enum SaveMode { Append, Overwrite, ErrorIfExists, Ignore }
pub enum DeltaOperation { Write { mode: SaveMode, partition_by: Option<Vec<String>>, predicate: Option<String> }, Other(Opaque) }
pub open spec fn adds_in(a: Seq<Action>) -> Seq<AddFile> decreases a.len() { if a.len() == 0 { Seq::empty() } else { match a.last() { Action::Add(f) => adds_in(a.drop_last()).push(f), _ => adds_in(a.drop_last()) } } }
pub open spec fn removes_in(a: Seq<Action>) -> Seq<RemoveFile> decreases a.len() { if a.len() == 0 { Seq::empty() } else { match a.last() { Action::Remove(f) => removes_in(a.drop_last()).push(f), _ => removes_in(a.drop_last()) } } }
pub open spec fn info_in(a: Seq<Action>) -> Option<InfoMap> decreases a.len() { if a.len() == 0 { None } else { match a.last() { Action::CommitInfo(f) => Some(f), _ => info_in(a.drop_last()) } } }
pub broadcast proof fn lemma_act_push(a: Seq<Action>, x: Action)
    ensures #![trigger a.push(x)]
        adds_in(a.push(x)) == (match x { Action::Add(f) => adds_in(a).push(f), _ => adds_in(a) }),
        removes_in(a.push(x)) == (match x { Action::Remove(f) => removes_in(a).push(f), _ => removes_in(a) }),
        info_in(a.push(x)) == (match x { Action::CommitInfo(f) => Some(f), _ => info_in(a) }),
{ assert(a.push(x).drop_last() =~= a); }
pub broadcast proof fn lemma_act_cat(a: Seq<Action>, b: Seq<Action>)
    ensures #![trigger a + b]
        adds_in(a + b) == adds_in(a) + adds_in(b), removes_in(a + b) == removes_in(a) + removes_in(b), info_in(a + b) == (if info_in(b) is Some { info_in(b) } else { info_in(a) }),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(adds_in(a) + adds_in(b) =~= adds_in(a)); assert(removes_in(a) + removes_in(b) =~= removes_in(a)); }
    else {
        lemma_act_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last());
        match b.last() { Action::Add(f) => { assert(adds_in(a + b) =~= adds_in(a) + adds_in(b)); } Action::Remove(f) => { assert(removes_in(a + b) =~= removes_in(a) + removes_in(b)); } _ => {} }
    }
}
// ---- the world: what was received (per table, and the transactions), what each table holds
pub ghost struct Msg { pub tx: Uuid, pub eff: Eff }
pub ghost struct TxInfo { pub id: Uuid, pub origin: Seqc, pub seq: Option<u64> }
pub ghost struct World {
    pub used: ISet<Uuid>, pub clock: int,
    pub txs: Seq<TxInfo>, pub got: IMap<Seqc, Seq<Msg>>,
    pub upto: IMap<Seqc, int>, pub state: IMap<Seqc, Eff>, pub info: IMap<Seqc, IMap<Seqc, JsonValue>>,
    pub before: IMap<Seqc, CI>,
}
pub open spec fn got(w: World, u: Seqc) -> Seq<Msg> { if w.got.dom().contains(u) { w.got[u] } else { Seq::empty() } }
pub open spec fn upto(w: World, u: Seqc) -> int { if w.upto.dom().contains(u) { w.upto[u] } else { 0 } }
pub open spec fn state(w: World, u: Seqc) -> Eff { if w.state.dom().contains(u) { w.state[u] } else { nil() } }
pub open spec fn info(w: World, u: Seqc) -> IMap<Seqc, JsonValue> { if w.info.dom().contains(u) { w.info[u] } else { IMap::empty() } }
// received for the table and not yet in it
pub open spec fn pending(w: World, u: Seqc) -> Seq<Msg> { got(w, u).skip(upto(w, u)) }
pub open spec fn msgs_eff(m: Seq<Msg>) -> Eff decreases m.len() { if m.len() == 0 { nil() } else { then(msgs_eff(m.drop_last()), m.last().eff) } }
pub proof fn lemma_msgs_cat(a: Seq<Msg>, b: Seq<Msg>) ensures msgs_eff(a + b) == then(msgs_eff(a), msgs_eff(b)) decreases b.len() {
    broadcast use ax_nil_r;
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_msgs_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); ax_assoc(msgs_eff(a), msgs_eff(b.drop_last()), b.last().eff); }
}
// the last closed transaction of every origin
pub open spec fn closed(t: Seq<TxInfo>) -> IMap<Seqc, u64> decreases t.len() {
    if t.len() == 0 { IMap::empty() } else { match t.last().seq { Some(s) => closed(t.drop_last()).insert(t.last().origin, s), None => closed(t.drop_last()) } }
}
#[verifier::external_body] pub fn w_uuid(w: &mut World) -> (r: Uuid) ensures !old(w).used.contains(r), *final(w) == (World { used: old(w).used.insert(r), ..*old(w) }) { unimplemented!() }
// the clock does not go backwards
#[verifier::external_body] pub fn w_now(w: &mut World) -> (r: u64) ensures r >= old(w).clock, *final(w) == (World { clock: r as int, ..*old(w) }) { unimplemented!() }
// ---- insertion-ordered maps
pub open spec fn hask<K, V>(s: Seq<(K, V)>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k }
pub open spec fn at<K, V>(s: Seq<(K, V)>, k: K) -> int { choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k }
pub open spec fn distinct<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] s[i].0 == #[trigger] s[j].0 ==> i == j }
pub proof fn lemma_at<K, V>(s: Seq<(K, V)>, i: int) requires distinct(s), 0 <= i < s.len() ensures hask(s, s[i].0), at(s, s[i].0) == i {}
#[verifier::external_body] pub struct TxMap { p: Vec<Transaction> }
impl View for TxMap { type V = Seq<(Uuid, Transaction)>; uninterp spec fn view(&self) -> Seq<(Uuid, Transaction)>; }
impl RxNew for TxMap { open spec fn fresh(r: Self) -> bool { r@.len() == 0 } #[verifier::external_body] fn rx_new() -> (r: Self) { unimplemented!() } }
impl TxMap {
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &Uuid) -> (r: bool) ensures r == hask(self@, *k) { unimplemented!() }
    #[verifier::external_body] pub fn swap_remove(&mut self, k: &Uuid) -> (r: Option<Transaction>) ensures r is Some <==> hask(old(self)@, *k), r is None ==> final(self)@ == old(self)@,
        r matches Some(v) ==> v == old(self)@[at(old(self)@, *k)].1 && final(self)@ == old(self)@.update(at(old(self)@, *k), old(self)@.last()).drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn shift_remove(&mut self, k: &Uuid) -> (r: Option<Transaction>) ensures r is Some <==> hask(old(self)@, *k), r is None ==> final(self)@ == old(self)@,
        r matches Some(v) ==> v == old(self)@[at(old(self)@, *k)].1 && final(self)@ == old(self)@.remove(at(old(self)@, *k)) { unimplemented!() }
    #[verifier::external_body] pub fn first(&self) -> (r: Option<(&Uuid, &Transaction)>) ensures r is Some <==> self@.len() > 0, r matches Some(v) ==> *(v.0) == self@[0].0 && *(v.1) == self@[0].1 { unimplemented!() }
    #[verifier::external_body] pub fn last(&self) -> (r: Option<(&Uuid, &Transaction)>) ensures r is Some <==> self@.len() > 0, r matches Some(v) ==> *(v.0) == self@[self@.len() - 1].0 && *(v.1) == self@[self@.len() - 1].1 { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Uuid) -> (r: Option<&Transaction>) ensures r is Some <==> hask(self@, *k), r matches Some(v) ==> *v == self@[at(self@, *k)].1 { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &Uuid) -> (r: Option<&mut Transaction>) ensures r is Some <==> hask(old(self)@, *k), r is None ==> final(self)@ == old(self)@,
        r matches Some(v) ==> *v == old(self)@[at(old(self)@, *k)].1 && final(self)@ == old(self)@.update(at(old(self)@, *k), (*k, *final(v))) { unimplemented!() }
    #[verifier::external_body] pub fn last_mut(&mut self) -> (r: Option<(&Uuid, &mut Transaction)>) ensures r is Some <==> old(self)@.len() > 0, r is None ==> final(self)@ == old(self)@,
        r matches Some(v) ==> *(v.0) == old(self)@.last().0 && *(v.1) == old(self)@.last().1 && final(self)@ == old(self)@.update(old(self)@.len() - 1, (*(v.0), *final(v.1))) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Uuid, v: Transaction) -> (r: Option<Transaction>) ensures !hask(old(self)@, k) ==> final(self)@ == old(self)@.push((k, v)) { unimplemented!() }
    #[verifier::external_body] pub fn rx_entry(&self, i: usize) -> (r: (&Uuid, &Transaction)) requires i < self@.len() ensures *(r.0) == self@[i as int].0, *(r.1) == self@[i as int].1 { unimplemented!() }
    #[verifier::external_body] pub fn rx_remove_at(&mut self, i: usize) requires i < old(self)@.len() ensures final(self)@ == old(self)@.remove(i as int) { unimplemented!() }
}
#[verifier::external_body] pub fn tx_index<'a>(m: &'a TxMap, k: &Uuid) -> (r: &'a Transaction) requires hask(m@, *k) ensures *r == m@[at(m@, *k)].1 { unimplemented!() }
impl<'a> RxItems for &'a TxMap { type Item = (&'a Uuid, &'a Transaction); open spec fn items(&self) -> Seq<(&'a Uuid, &'a Transaction)> { Seq::new(self@.len(), |i: int| (&self@[i].0, &self@[i].1)) } }
#[verifier::external_body] pub struct SyncMap { p: Vec<DataSyncCollection> }
pub type Entry = (Seqc, DataSyncCollection);
impl View for SyncMap { type V = Seq<Entry>; uninterp spec fn view(&self) -> Seq<Entry>; }
impl RxNew for SyncMap { open spec fn fresh(r: Self) -> bool { r@.len() == 0 } #[verifier::external_body] fn rx_new() -> (r: Self) { unimplemented!() } }
pub open spec fn isum(v: Seq<DataSyncItem>) -> int decreases v.len() { if v.len() == 0 { 0 } else { isum(v.drop_last()) + bsum(v.last().data@) } }
pub open spec fn irows(v: Seq<DataSyncItem>) -> int decreases v.len() { if v.len() == 0 { 0 } else { irows(v.drop_last()) + rsum(v.last().data@) } }
pub open spec fn total(v: Seq<Entry>) -> int decreases v.len() { if v.len() == 0 { 0 } else { total(v.drop_last()) + v.last().1.size } }
impl SyncMap {
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == hask(self@, k@) { unimplemented!() }
    #[verifier::external_body] pub fn swap_remove(&mut self, k: &String) -> (r: Option<DataSyncCollection>) ensures r is Some <==> hask(old(self)@, k@), r is None ==> final(self)@ == old(self)@,
        r matches Some(v) ==> v == old(self)@[at(old(self)@, k@)].1 && final(self)@ == old(self)@.update(at(old(self)@, k@), old(self)@.last()).drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn last(&self) -> (r: Option<(&String, &DataSyncCollection)>) ensures r is Some <==> self@.len() > 0, r matches Some(v) ==> v.0@ == self@[self@.len() - 1].0 && *(v.1) == self@[self@.len() - 1].1 { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&DataSyncCollection>) ensures r is Some <==> hask(self@, k@), r matches Some(v) ==> *v == self@[at(self@, k@)].1 { unimplemented!() }
    // what is held in memory is less than 2^60 bytes and rows
    #[verifier::external_body] pub fn get_mut(&mut self, k: &String) -> (r: Option<&mut DataSyncCollection>) ensures r is Some <==> hask(old(self)@, k@), r is None ==> final(self)@ == old(self)@,
        r matches Some(v) ==> *v == old(self)@[at(old(self)@, k@)].1 && final(self)@ == old(self)@.update(at(old(self)@, k@), (k@, *final(v))) && irows((*v).syncs@) <= MEM() && isum((*v).syncs@) <= MEM(),
        total(old(self)@) <= MEM() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: DataSyncCollection) -> (r: Option<DataSyncCollection>) ensures !hask(old(self)@, k@) ==> final(self)@ == old(self)@.push((k@, v)) { unimplemented!() }
    #[verifier::external_body] pub fn first(&self) -> (r: Option<(&String, &DataSyncCollection)>) ensures r is Some <==> self@.len() > 0, r matches Some(v) ==> v.0@ == self@[0].0 && *(v.1) == self@[0].1 { unimplemented!() }
    #[verifier::external_body] pub fn shift_remove(&mut self, k: &String) -> (r: Option<DataSyncCollection>) ensures r is Some <==> hask(old(self)@, k@), r is None ==> final(self)@ == old(self)@,
        r matches Some(v) ==> v == old(self)@[at(old(self)@, k@)].1 && final(self)@ == old(self)@.remove(at(old(self)@, k@)) { unimplemented!() }
}
pub uninterp spec fn sync_key(m: SyncMap, i: int) -> String;
impl<'a> RxItems for &'a SyncMap { type Item = (&'a String, &'a DataSyncCollection); open spec fn items(&self) -> Seq<(&'a String, &'a DataSyncCollection)> { Seq::new(self@.len(), |i: int| (&sync_key(**self, i), &self@[i].1)) } }
#[verifier::external_body] pub broadcast proof fn ax_sync_key(m: SyncMap, i: int) ensures 0 <= i < m@.len() ==> (#[trigger] sync_key(m, i))@ == m@[i].0 {}
