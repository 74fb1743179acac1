use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
//@include ddl_base.inc.rs
//@include gc_base.inc.rs
//@extract src/utils.rs | fn gc_databases | world forchain
//@types
Arc<InternalObjectStore> => IStore
//@methods
delete_in_prefix/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
//@contract
    ensures collected(dropped(database_name), old(w).log@, final(w).log@) || final(w).log@ == old(w).log@,
//@let dropped_tables
    let ghost list = dropped_tables@;
    proof { assert(list.take(0) =~= Seq::empty()); }
//@loop 1
    invariant w.log@ == old(w).log@ || collected(dropped(database_name), old(w).log@, w.log@), 0 <= __it1.pos() <= __it1.all().len(),
    decreases __it1.all().len() - __it1.pos(),
//@loop 0
    invariant
        dropped_tables@.len() == __len0, __ix0 <= __len0, dropped_tables@.len() == 0 || list == dropped(database_name), list.len() == __len0,
        forall|j: int| __ix0 <= j < __len0 ==> #[trigger] dropped_tables@[j] == list[j],
        collected(list.take(__ix0 as int), old(w).log@, w.log@),
        __ix0 == __len0 ==> w.log@ == old(w).log@ || collected(dropped(database_name), old(w).log@, w.log@),
    ensures __ix0 == __len0,
    decreases __len0 - __ix0,
//@body 0
    let ghost k = __ix0 as int;
    let ghost w0 = *w;
//@tail 0
    proof { collected_step(list, k, old(w).log@, w0.log@, w.log@); assert(k + 1 == __len0 ==> list.take(k + 1) =~= list); }
//@end
impl SeafowlContext {
//@extract src/context/mod.rs | impl SeafowlContext :: resolve_table_ref
//@types
impl Into<TableReference> => impl RxRef
ResolvedTableReference => Resolved
//@methods
into/0 => own_ref
//@contract
    ensures (Full { c: r.catalog@, s: r.schema@, t: r.table@ }) == self.named(table_ref.tref()),
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm SeafowlExtensionNode::Vacuum | world streq try=rx_from_err
//@sig
fn vacuum_arm(&self, database: &Option<String>, table_name: &Option<String>) -> Result<Plan>
//@calls
gc_databases => WORLD
Error::Internal => rx_err
//@methods
clone/0 => rx_own
with_retention_period/1 => WORLD
delete_old_versions/3 => WORLD
//@contract
    ensures
        database is Some ==> collected(dropped(*database), old(w).log@, final(w).log@) || final(w).log@ == old(w).log@,
        *database is None && *table_name is None ==> final(w).log@ == old(w).log@,
        *database is None && *table_name is Some ==> vacuumed(*old(w), *final(w), self.named(ref_of(table_name->Some_0@)), r is Ok),
//@end
}
//@probe
pub fn probe_gc(w: &mut World, c: &SeafowlContext, s: IStore, d: Option<String>) requires dropped(d).len() == 1, dropped(d)[0].deletion_status is Retry { gc_databases(w, c, s, d); assert(final(w).log@.len() <= old(w).log@.len() + 1); }
//@probe
pub fn probe_vacuum(w: &mut World, c: &SeafowlContext, d: &Option<String>, n: &Option<String>) requires d is None, n is Some { let r = c.vacuum_arm(w, d, n); assert(r is Err); }
//@probe
pub fn probe_vacuum_none(w: &mut World, c: &SeafowlContext, d: &Option<String>, n: &Option<String>) requires d is None, n is Some { let r = c.vacuum_arm(w, d, n); assert(final(w).log@ == old(w).log@); }
//@probe
pub proof fn probe_gc_axioms(c: Seq<char>, s: Seq<char>, t: Seq<char>, dc: Seq<char>, ds: Seq<char>) requires has_schema(c, s), !has_schema(dc, ds) ensures false { axiom_resolved(c, s, t, dc, ds); }
}
fn main() {}
