// ---- removing what is no longer needed
pub struct DroppedTablesResult { pub database_name: String, pub collection_name: String, pub table_name: String, pub uuid: Uuid, pub deletion_status: DroppedTableDeletionStatus }
/// the tables dropped from this database (or from any), as the catalog has them
pub uninterp spec fn dropped(db: Option<String>) -> Seq<DroppedTablesResult>;
#[verifier::external_body] pub struct SPath { p: u8 }
impl SPath { pub uninterp spec fn text(&self) -> Seqc; }
pub uninterp spec fn place(prefix: Seqc) -> Seqc;
impl IStore {
    // (C15: table_prefix, delete_in_prefix)
    #[verifier::external_body] pub fn table_prefix(&self, p: &String) -> (r: SPath) ensures r.text() == place(p@) { unimplemented!() }
    #[verifier::external_body] pub fn delete_in_prefix(&self, w: &mut World, p: &SPath) -> (r: core::result::Result<(), LibError>) ensures final(w).log@ == old(w).log@.push(Change::Erase { prefix: p.text(), all: r is Ok }) { unimplemented!() }
}
impl Tables {
    #[verifier::external_body] pub fn get_dropped_tables(&self, db: Option<String>) -> (r: Result<Vec<DroppedTablesResult>>) ensures r is Ok ==> r->Ok_0@ == dropped(db) { unimplemented!() }
    #[verifier::external_body] pub fn update_dropped_table(&self, w: &mut World, u: Uuid, s: DroppedTableDeletionStatus) -> (r: Result<()>) ensures did(*old(w), *final(w), Change::Mark { uuid: u, status: s }, r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn delete_dropped_table(&self, w: &mut World, u: Uuid) -> (r: Result<()>) ensures did(*old(w), *final(w), Change::Forget { uuid: u }, r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn delete_old_versions<A: RxText, B: RxText, C: RxText>(&self, w: &mut World, c: A, s: B, t: C) -> (r: core::result::Result<u64, LibError>) ensures did(*old(w), *final(w), Change::DropVersions { at: Full { c: c.text(), s: s.text(), t: t.text() } }, r is Ok) { unimplemented!() }
}
#[verifier::external_body] pub fn rx_at<T>(v: &Vec<T>, i: usize) -> (r: &T) requires i < v@.len() ensures *r == v@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn rx_at_mut<'a, T>(v: &'a mut Vec<T>, i: usize) -> (r: &'a mut T) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
#[verifier::external_body] pub struct Snapshot { p: u8 }
impl Snapshot { pub uninterp spec fn latest(&self) -> bool; pub uninterp spec fn prefix(&self) -> Seqc; }
impl RxCl for Snapshot { type Out = Snapshot; open spec fn cl(&self) -> Snapshot { *self } }
impl DeltaTable {
    #[verifier::external_body] pub fn log_store(&self) -> (r: LogStore) ensures r.prefix() == self.prefix() { unimplemented!() }
    #[verifier::external_body] pub fn snapshot(&self) -> (r: core::result::Result<&Snapshot, LibError>) ensures r is Ok ==> r->Ok_0.prefix() == self.prefix() && (self.loaded() ==> r->Ok_0.latest()) { unimplemented!() }
}
#[verifier::external_body] pub struct TimeDelta { p: u8 }
impl TimeDelta { #[verifier::external_body] pub fn zero() -> TimeDelta { unimplemented!() } }
pub struct VacuumMetrics { pub files_deleted: Vec<String> }
#[verifier::external_body] pub struct VacuumBuilder { p: u8 }
impl VacuumBuilder {
    pub uninterp spec fn prefix(&self) -> Seqc; pub uninterp spec fn latest(&self) -> bool;
    #[verifier::external_body] pub fn new(l: LogStore, s: Snapshot) -> (r: VacuumBuilder) ensures r.prefix() == l.prefix(), r.latest() == (s.latest() && s.prefix() == l.prefix()) { unimplemented!() }
    #[verifier::external_body] pub fn with_enforce_retention_duration(self, b: bool) -> (r: VacuumBuilder) ensures r.prefix() == self.prefix(), r.latest() == self.latest() { unimplemented!() }
    // (and then: do it)
    #[verifier::external_body] pub fn with_retention_period(self, w: &mut World, p: TimeDelta) -> (r: core::result::Result<(DeltaTable, VacuumMetrics), LibError>) ensures did(*old(w), *final(w), Change::Vacuum { prefix: self.prefix(), latest: self.latest() }, r is Ok) { unimplemented!() }
}
// ---- what is done about a dropped table: its objects are removed; only then is it forgotten; if that failed it is tried once more
pub open spec fn next_try(s: DroppedTableDeletionStatus) -> DroppedTableDeletionStatus { if s is Pending { DroppedTableDeletionStatus::Retry } else { DroppedTableDeletionStatus::Failed } }
pub open spec fn gone(d: DroppedTablesResult, a: Seq<Change>, b: Seq<Change>) -> bool {
    let p = place(d.uuid.text());
    if d.deletion_status is Failed { b == a } else {
        b == a.push(Change::Erase { prefix: p, all: true }) || b == a.push(Change::Erase { prefix: p, all: true }).push(Change::Forget { uuid: d.uuid })
        || b == a.push(Change::Erase { prefix: p, all: false }) || b == a.push(Change::Erase { prefix: p, all: false }).push(Change::Mark { uuid: d.uuid, status: next_try(d.deletion_status) })
    }
}
pub open spec fn midway(m: Seq<Change>) -> bool { true }
pub open spec fn collected(list: Seq<DroppedTablesResult>, a: Seq<Change>, b: Seq<Change>) -> bool decreases list.len() {
    if list.len() == 0 { a == b } else { exists|m: Seq<Change>| #[trigger] midway(m) && collected(list.drop_last(), a, m) && gone(list.last(), m, b) }
}
pub proof fn collected_step(list: Seq<DroppedTablesResult>, k: int, a: Seq<Change>, m: Seq<Change>, b: Seq<Change>) requires 0 <= k < list.len(), collected(list.take(k), a, m), gone(list[k], m, b) ensures collected(list.take(k + 1), a, b) { let l = list.take(k + 1); assert(l.drop_last() =~= list.take(k)); assert(l.last() == list[k]); assert(midway(m)); }
/// a table of the session is vacuumed as of its last version; only then, if it is there at all, its older versions are forgotten
pub open spec fn vacuumed(a: World, b: World, at: Full, ok: bool) -> bool {
    let prefix = prefix_of(of_resolved(at.c, at.s, at.t)); let v = a.log@.push(Change::Vacuum { prefix, latest: true }); let f = Change::DropVersions { at };
    b.log@ == v.push(f) || b.log@ == a.log@.push(f) || (!ok && (b.log@ == v || b.log@ == a.log@))
}
impl RxCl for Option<String> { type Out = Option<String>; open spec fn cl(&self) -> Option<String> { *self } }
