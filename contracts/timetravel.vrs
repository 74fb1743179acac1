use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
//@include timetravel.inc.rs
//@extract src/version.rs | struct TableVersionProcessor
//@types
HashSet<(ObjectName, String)> => VersionSet
//@end
impl TableVersionProcessor {
//@extract src/version.rs | impl TableVersionProcessor :: new
//@calls
HashSet::<(ObjectName,String)>::new => VersionSet::new
//@contract
    ensures r.default_catalog == default_catalog, r.default_schema == default_schema, r.table_versions.list().len() == 0,
//@end
//@extract src/version.rs | impl TableVersionProcessor :: table_with_version
//@methods
to_ascii_lowercase/0 => rx_lower
//@contract
    requires name.0@.len() > 0,
    ensures r@ == versioned(nv(*name).last().0, version@),
//@end
//@extract src/version.rs | impl TableVersionProcessor :: version_to_datetime
//@types
DateTime<Utc> => DateTime
Result<DateTime<Utc>> => Result<DateTime>
//@calls
DateTime::<Utc>::from => DateTime::from
//@contract
    // the instant the text denotes, or refused
    ensures r is Ok <==> instant_of(version@) is Some, r is Ok ==> r->Ok_0.at@ == instant_of(version@)->0,
//@entry
    broadcast use axiom_forms;
//@end
//@extract src/version.rs | impl VisitorMut for TableVersionProcessor :: pre_visit_table_factor
//@methods
last_mut/0 => mut_last
as_ref/0 => REF
//@contract
    requires 1 <= name_of(*old(table_factor)).len() || !(*old(table_factor) is Table),
    ensures
        r == ControlFlow::<()>::Continue(()),
        final(self).default_catalog == old(self).default_catalog, final(self).default_schema == old(self).default_schema,
        !travels(*old(table_factor)) ==> final(self).table_versions == old(self).table_versions && *final(table_factor) == *old(table_factor),
        travels(*old(table_factor)) ==> moved(*old(table_factor), *final(table_factor), old(self).default_catalog@, old(self).default_schema@)
            && forall|t: Tref, v: Seq<char>| #[trigger] final(self).table_versions.has(t, v) <==> old(self).table_versions.has(t, v)
                || t == resolved(name_of(*old(table_factor)), old(self).default_catalog@, old(self).default_schema@) && v == version_of(*old(table_factor))->0,
        old(self).table_versions.wf() ==> final(self).table_versions.wf(),
//@entry
    proof {
        assert forall|a: Seq<char>| #[trigger] lower(lower(a)) == lower(a) by { lemma_lower(a, a); }
        assert forall|a: Seq<char>, b: Seq<char>| #[trigger] lower(a + ":"@ + lower(b)) == lower(a) + ":"@ + lower(b) by { lemma_lower(a, lower(b)); lemma_lower(b, b); }
    }
//@end
}

// ---- sqlparser's derived visitor over a query: every table factor once (flattened), calling pre_visit_table_factor
pub struct Query { pub factors: Vec<TableFactor>, pub rest: Opaque }
pub open spec fn qwf(q: Query) -> bool { forall|i: int| 0 <= i < q.factors@.len() ==> (#[trigger] q.factors@[i]) is Table ==> name_of(q.factors@[i]).len() >= 1 }
impl Query {
    pub fn visit(&mut self, p: &mut TableVersionProcessor)
        requires qwf(*old(self)), old(p).table_versions.list().len() == 0,
        ensures
            final(p).default_catalog == old(p).default_catalog, final(p).default_schema == old(p).default_schema, final(p).table_versions.wf(),
            rewritten(*old(self), *final(self), old(p).default_catalog@, old(p).default_schema@),
            recorded(*old(self), final(p).table_versions, old(p).default_catalog@, old(p).default_schema@, old(self).factors@.len() as int),
            forall|j: int| 0 <= j < old(self).factors@.len() && travels(#[trigger] old(self).factors@[j]) ==> final(p).table_versions.has(resolved(name_of(old(self).factors@[j]), old(p).default_catalog@, old(p).default_schema@), version_of(old(self).factors@[j])->0),
    {
        let mut i: usize = 0;
        let ghost q0 = *self; let ghost dc = p.default_catalog@; let ghost ds = p.default_schema@;
        while i < self.factors.len()
            invariant
                0 <= i <= self.factors@.len(), self.factors@.len() == q0.factors@.len(), self.rest == q0.rest, qwf(q0),
                p.default_catalog == old(p).default_catalog, p.default_schema == old(p).default_schema, p.default_catalog@ == dc, p.default_schema@ == ds, p.table_versions.wf(),
                forall|j: int| 0 <= j < i ==> stepped(q0.factors@[j], #[trigger] self.factors@[j], dc, ds),
                forall|j: int| i <= j < self.factors@.len() ==> #[trigger] self.factors@[j] == q0.factors@[j],
                recorded(q0, p.table_versions, dc, ds, i as int),
            decreases self.factors@.len() - i,
        {
            let ghost p1 = *p;
            let f = &mut self.factors[i];
            p.pre_visit_table_factor(f);
            i = i + 1;
        }
        proof { assert forall|j: int| 0 <= j < q0.factors@.len() && travels(#[trigger] q0.factors@[j]) implies p.table_versions.has(resolved(name_of(q0.factors@[j]), dc, ds), version_of(q0.factors@[j])->0) by {
            assert(refers(q0.factors@[j], resolved(name_of(q0.factors@[j]), dc, ds), version_of(q0.factors@[j])->0, dc, ds)); } }
    }
}
pub open spec fn stepped(f: TableFactor, g: TableFactor, dc: Seq<char>, ds: Seq<char>) -> bool { if travels(f) { moved(f, g, dc, ds) } else { g == f } }
pub open spec fn rewritten(q: Query, q2: Query, dc: Seq<char>, ds: Seq<char>) -> bool {
    q2.rest == q.rest && q2.factors@.len() == q.factors@.len() && forall|j: int| 0 <= j < q.factors@.len() ==> stepped(q.factors@[j], #[trigger] q2.factors@[j], dc, ds)
}
pub open spec fn refers(f: TableFactor, t: Tref, v: Seq<char>, dc: Seq<char>, ds: Seq<char>) -> bool { travels(f) && resolved(name_of(f), dc, ds) == t && version_of(f)->0 == v }
pub open spec fn recorded(q: Query, s: VersionSet, dc: Seq<char>, ds: Seq<char>, n: int) -> bool {
    forall|t: Tref, v: Seq<char>| #[trigger] s.has(t, v) <==> exists|j: int| 0 <= j < n && refers(#[trigger] q.factors@[j], t, v, dc, ds)
}
impl<'a> RxItems for &'a VersionSet { type Item = (&'a ObjectName, &'a String); open spec fn items(&self) -> Seq<(&'a ObjectName, &'a String)> { Seq::new(self.list().len(), |i: int| (&self.list()[i].0, &self.list()[i].1)) } }

// ---- the catalog and the delta tables
pub ghost struct Prov { pub store: Seq<char>, pub at: Option<int> }
pub struct SessionState { pub reg: Ghost<Map<Tref, Prov>> }
pub struct SessionContext { pub reg: Ghost<Map<Tref, Prov>> }
pub struct Uuid { pub id: u64 }
impl RxDisp for Uuid { uninterp spec fn disp(&self) -> Seq<char>; }
pub struct LogStore { pub of: Ghost<Seq<char>> }
pub struct DeltaTable { pub prov: Ghost<Prov> }
pub struct ObjStore {}
impl ObjStore { #[verifier::external_body] pub fn get_log_store<S: RxDisp + ?Sized>(&self, s: &S) -> (r: LogStore) ensures r.of@ == s.disp() { unimplemented!() } }
#[verifier::external_body] pub fn rx_default() -> Opaque { unimplemented!() }
impl DeltaTable {
    #[verifier::external_body] pub fn new(l: LogStore, c: Opaque) -> (r: DeltaTable) ensures r.prov@ == (Prov { store: l.of@, at: None }) { unimplemented!() }
    #[verifier::external_body] pub fn load_with_datetime(&mut self, d: DateTime) -> (r: Result<()>)
        ensures r is Ok ==> final(self).prov@ == (Prov { store: old(self).prov@.store, at: Some(d.at@) }) { unimplemented!() }
}
pub trait RxArc: Sized { type Out; spec fn out_ok(self, o: Self::Out) -> bool; }
impl RxArc for DeltaTable { type Out = DeltaTable; open spec fn out_ok(self, o: DeltaTable) -> bool { o == self } }
impl<'a> RxArc for &'a String { type Out = String; open spec fn out_ok(self, o: String) -> bool { o@ == self@ } }
#[verifier::external_body] pub fn rx_arc<T: RxArc>(t: T) -> (r: T::Out) ensures t.out_ok(r) { unimplemented!() }
impl SessionContext {
    #[verifier::external_body] pub fn new_with_state(s: SessionState) -> (r: SessionContext) ensures r.reg@ == s.reg@ { unimplemented!() }
    #[verifier::external_body] pub fn state(&self) -> (r: SessionState) ensures r.reg@ == self.reg@ { unimplemented!() }
    #[verifier::external_body] pub fn table_exist(&self, t: ResolvedTableReference) -> (r: Result<bool>) ensures r is Ok ==> r->Ok_0 == self.reg@.dom().contains(tr(t)) { unimplemented!() }
}
#[verifier::external_body] pub fn mut_register_table(c: &mut SessionContext, t: ResolvedTableReference, p: DeltaTable) -> (r: Result<Opaque>)
    ensures r is Ok ==> final(c).reg@ == old(c).reg@.insert(tr(t), p.prov@) { unimplemented!() }
pub struct SeafowlContext { pub default_catalog: String, pub default_schema: String, pub inner: SessionContext }
// the identity of the table a name stands for in the catalog
pub uninterp spec fn uuid_of(c: SeafowlContext, t: Tref) -> Seq<char>;
//@extract src/catalog/mod.rs | const DEFAULT_SCHEMA
//@end
// two texts that differ only in letter case denote the same instant, and no text that denotes an instant still does
// after its beginning up to some colon is cut off
#[verifier::external_body] pub proof fn axiom_case(a: Seq<char>, b: Seq<char>) requires lower(a) == lower(b), instant_of(a) is Some, instant_of(b) is Some ensures instant_of(a) == instant_of(b) {}
#[verifier::external_body] pub proof fn axiom_cut(x: Seq<char>, y: Seq<char>, z: Seq<char>) requires lower(z) == x + ":"@ + lower(y), instant_of(y) is Some ensures instant_of(z) is None {}
pub proof fn lemma_key(t1: Tref, v1: Seq<char>, t2: Tref, v2: Seq<char>)
    requires at_version(t1, v1) == at_version(t2, v2), instant_of(v1) is Some, instant_of(v2) is Some,
    ensures t1 == t2, instant_of(v1) == instant_of(v2),
{
    reveal_strlit(":");
    let a = versioned(t1.tab, v1); let l1 = lower(v1); let l2 = lower(v2);
    assert(a == versioned(t2.tab, v2));
    if t1.tab.len() == t2.tab.len() {
        assert(a.subrange(0, t1.tab.len() as int) =~= t1.tab); assert(a.subrange(0, t1.tab.len() as int) =~= t2.tab);
        assert(a.skip(t1.tab.len() as int + 1) =~= l1); assert(a.skip(t1.tab.len() as int + 1) =~= l2);
        axiom_case(v1, v2);
    } else if t1.tab.len() < t2.tab.len() {
        let k = t2.tab.len() - t1.tab.len() - 1;
        assert(l1 =~= l1.take(k) + ":"@ + l2) by {
            assert(a.skip(t1.tab.len() as int + 1) =~= l1); assert(a.skip(t2.tab.len() as int) =~= ":"@ + l2); assert(l1.skip(k) =~= a.skip(t2.tab.len() as int)); assert(l1 =~= l1.take(k) + l1.skip(k)); }
        axiom_cut(l1.take(k), v2, v1);
    } else {
        let k = t1.tab.len() - t2.tab.len() - 1;
        assert(l2 =~= l2.take(k) + ":"@ + l1) by {
            assert(a.skip(t2.tab.len() as int + 1) =~= l2); assert(a.skip(t1.tab.len() as int) =~= ":"@ + l1); assert(l2.skip(k) =~= a.skip(t1.tab.len() as int)); assert(l2 =~= l2.take(k) + l2.skip(k)); }
        axiom_cut(l2.take(k), v1, v2);
    }
}
pub open spec fn served(c: SeafowlContext, reg: Map<Tref, Prov>, t: Tref, v: Seq<char>) -> bool {
    instant_of(v) is Some && (!c.inner.reg@.dom().contains(at_version(t, v)) ==> reg.dom().contains(at_version(t, v)) && reg[at_version(t, v)] == (Prov { store: uuid_of(c, t), at: instant_of(v) }))
}
pub open spec fn entry_t(k: (ObjectName, String)) -> Tref { Tref { cat: k.0.0@[0].value@, sch: k.0.0@[1].value@, tab: k.0.0@[2].value@ } }
// what this query adds to the session comes from its references
pub open spec fn only(c: SeafowlContext, reg: Map<Tref, Prov>, l: Seq<(ObjectName, String)>, n: int) -> bool {
    forall|k: Tref| #[trigger] reg.dom().contains(k) && !c.inner.reg@.dom().contains(k) ==> exists|j: int| 0 <= j < n && k == at_version(entry_t(#[trigger] l[j]), l[j].1@) && reg[k] == (Prov { store: uuid_of(c, entry_t(l[j])), at: instant_of(l[j].1@) }) && instant_of(l[j].1@) is Some
}
impl SeafowlContext {
    #[verifier::external_body] pub fn get_table_uuid(&self, t: ResolvedTableReference) -> (r: Result<Uuid>) ensures r is Ok ==> r->Ok_0.disp() == uuid_of(*self, tr(t)) { unimplemented!() }
    #[verifier::external_body] pub fn get_internal_object_store(&self) -> Result<ObjStore> { unimplemented!() }
//@extract src/context/logical.rs | impl SeafowlContext :: rewrite_time_travel_query | letmut=session_ctx
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@dropmacros debug
//@methods
register_table/2 => mut_register_table
as_str/0 => REF
//@calls
Arc::from => rx_arc
Default::default => rx_default
//@contract
    requires qwf(*old(q)),
    ensures r is Ok ==> rewritten(*old(q), *final(q), self.default_catalog@, DEFAULT_SCHEMA_spec())
        && (forall|i: int| 0 <= i < old(q).factors@.len() && travels(#[trigger] old(q).factors@[i]) ==>
            served(*self, r->Ok_0.reg@, resolved(name_of(old(q).factors@[i]), self.default_catalog@, DEFAULT_SCHEMA_spec()), version_of(old(q).factors@[i])->0)),
//@entry
    proof { assert forall|t1: Tref, v1: Seq<char>, t2: Tref, v2: Seq<char>| #[trigger] at_version(t1, v1) == #[trigger] at_version(t2, v2) && instant_of(v1) is Some && instant_of(v2) is Some implies t1 == t2 && instant_of(v1) == instant_of(v2) by { lemma_key(t1, v1, t2, v2); } }
//@loop 0
    invariant
        __it0.all() == (&version_processor.table_versions).items(), 0 <= __it0.pos() <= __it0.all().len(),
        version_processor.table_versions.wf(),
        only(*self, session_ctx.reg@, version_processor.table_versions.list(), __it0.pos()),
        forall|k: Tref| #[trigger] self.inner.reg@.dom().contains(k) ==> session_ctx.reg@.dom().contains(k),
        forall|j: int| 0 <= j < __it0.pos() ==> served(*self, session_ctx.reg@, entry_t(#[trigger] version_processor.table_versions.list()[j]), version_processor.table_versions.list()[j].1@),
    ensures __it0.pos() == __it0.all().len(),
    decreases __it0.all().len() - __it0.pos(),
//@end
}
//@probe
proof fn probe_axioms() ensures false {}
//@probe
proof fn probe_cut(x: Seq<char>, y: Seq<char>, z: Seq<char>) requires lower(z) == x + ":"@ + lower(y), instant_of(y) is Some ensures false { axiom_cut(x, y, z); }
//@probe
proof fn probe_moved(f: TableFactor, g: TableFactor, dc: Seq<char>, ds: Seq<char>) requires travels(f) ensures !moved(f, g, dc, ds) {}
} // verus!
fn main() {}
