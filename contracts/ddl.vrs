use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
//@include ddl_base.inc.rs
//@extract src/catalog/mod.rs | const DEFAULT_SCHEMA
//@end
//@extract src/catalog/mod.rs | const STAGING_SCHEMA
//@end
proof fn drops_step(c: Seq<char>, s: Seq<char>, names: Seq<Seq<char>>, k: int)
    requires 0 <= k < names.len(),
    ensures drops(c, s, names.take(k + 1)) == drops(c, s, names.take(k)) + drop_of(c, s, names[k]),
{ assert(names.take(k + 1).drop_last() =~= names.take(k)); }
impl SeafowlContext {
//@extract src/context/mod.rs | impl SeafowlContext :: resolve_table_ref
//@types
impl Into<TableReference> => impl RxRef
ResolvedTableReference => Resolved
//@methods
into/0 => own_ref
//@contract
    ensures (Full { c: r.catalog@, s: r.schema@, t: r.table@ }) == self.named(table_ref.tref()),
//@end
//@extract src/context/delta.rs | impl SeafowlContext :: create_delta_table | world streq try=rx_from_err
//@types
impl Into<TableReference> => impl RxRef
Arc<DeltaTable> => DeltaTable
//@calls
TableProvider::schema => table_columns
Default::default => NoVals::default
DataFusionError::Execution => rx_err
DataFusionError::Plan => rx_err
Arc::new => rx_same
Arc::clone => rx_own
//@methods
clone/0 => rx_own
into_iter/0 => own_iter
create/5 => WORLD
with_comment/1 => WORLD
into/0 => own_err
contains/1 => has_text
as_ref/0 => rx_asref
//@contract
    ensures made(*old(w), *final(w), self.named(name.tref()), details, r is Ok),
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm SeafowlExtensionNode::CreateTable | world streq try=rx_from_err
//@sig
fn create_table_arm(&self, schema: &ArrowSchema, name: &String, if_not_exists: &bool) -> Result<Plan>
//@methods
clone/0 => rx_own
into_iter/0 => own_iter
create_delta_table/2 => WORLD
delete_delta_table/1 => WORLD
//@contract
    ensures *if_not_exists && has_table(ref_of(name@)) ==> r is Ok && final(w).log@ == old(w).log@,
        !(*if_not_exists && has_table(ref_of(name@))) ==> made(*old(w), *final(w), self.named(ref_of(name@)), CreateDeltaTableDetails::EmptyTable(*schema), r is Ok),
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm SeafowlExtensionNode::ConvertTable | world streq try=rx_from_err
//@sig
fn convert_table_arm(&self, location: &String, name: &String) -> Result<Plan>
//@calls
Path::from => path_from
//@methods
clone/0 => rx_own
into_iter/0 => own_iter
create_delta_table/2 => WORLD
delete_delta_table/1 => WORLD
//@contract
    ensures made(*old(w), *final(w), self.named(ref_of(name@)), CreateDeltaTableDetails::FromPath(path_in(location@)), r is Ok),
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm SeafowlExtensionNode::RenameTable | world streq try=rx_from_err
//@sig
fn rename_table_arm(&self, old_name: &String, new_name: &String) -> Result<Plan>
//@calls
Error::Plan => rx_err
//@methods
clone/0 => rx_own
into_iter/0 => own_iter
create_delta_table/2 => WORLD
delete_delta_table/1 => WORLD
update/6 => WORLD
as_ref/0 => rx_asref
//@contract
    ensures one(*old(w), *final(w), Change::Rename { from: self.named(ref_of(old_name@)), to: self.named(ref_of(new_name@)) }, r is Ok), self.named(ref_of(new_name@)).c != self.default_catalog@ ==> final(w).log@ == old(w).log@,
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm SeafowlExtensionNode::CreateFunction | world streq try=rx_from_err
//@sig
fn create_function_arm(&self, name: &String, or_replace: &bool, details: &Details) -> Result<Plan>
//@methods
clone/0 => rx_own
into_iter/0 => own_iter
create_delta_table/2 => WORLD
delete_delta_table/1 => WORLD
create/4 => WORLD
//@contract
    ensures one(*old(w), *final(w), Change::Function { c: self.default_catalog@, name: name@, replace: *or_replace, details: *details }, r is Ok),
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm SeafowlExtensionNode::DropFunction | world streq try=rx_from_err
//@sig
fn drop_function_arm(&self, if_exists: &bool, func_names: &Vec<String>) -> Result<Plan>
//@methods
clone/0 => rx_own
into_iter/0 => own_iter
create_delta_table/2 => WORLD
delete_delta_table/1 => WORLD
delete/3 => WORLD
//@contract
    ensures one(*old(w), *final(w), Change::DropFunctions { c: self.default_catalog@, if_exists: *if_exists, names: *func_names }, r is Ok),
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm DdlStatement::DropTable | world streq try=rx_from_err
//@sig
fn drop_table_arm(&self, name: &TableRef, if_exists: &bool) -> Result<Plan>
//@methods
clone/0 => rx_own
into_iter/0 => own_iter
create_delta_table/2 => WORLD
delete_delta_table/1 => WORLD
delete/3 => WORLD
as_ref/0 => rx_asref
//@contract
    ensures *if_exists && !has_table(*name) ==> r is Ok && final(w).log@ == old(w).log@,
        self.named(*name).s == STAGING_SCHEMA_spec() ==> final(w).log@ == old(w).log@,
        !(*if_exists && !has_table(*name)) && self.named(*name).s != STAGING_SCHEMA_spec() ==> two(*old(w), *final(w), Change::DropTable { at: self.named(*name) }, Change::Wipe { t: *name }, false) && (r is Ok ==> final(w).log@.len() > old(w).log@.len()),
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm DdlStatement::DropCatalogSchema | world streq try=rx_from_err
//@sig
fn drop_schema_arm(&self, name: &SchemaReference, if_exists: &bool) -> Result<Plan>
//@types
ResolvedTableReference => Resolved
//@calls
DataFusionError::Execution => rx_err
Arc::from => arc_text
ResolvedTableReference => Resolved
//@methods
clone/0 => rx_own
into_iter/0 => own_iter
create_delta_table/2 => WORLD
delete_delta_table/1 => WORLD
delete/3 => WORLD
delete/2 => WORLD
as_ref/0 => rx_asref
//@contract
    ensures only(*old(w), *final(w), self.default_catalog@, name.nm()),
        (name matches SchemaReference::Full { catalog, .. } && catalog@ != self.default_catalog@) ==> r is Err && final(w).log@ == old(w).log@,
        seen_schema(self.default_catalog@, name.nm()) is None && r is Ok ==> *if_exists && final(w).log@ == old(w).log@,
        seen_schema(self.default_catalog@, name.nm()) is Some && r is Ok ==> final(w).log@ == old(w).log@ + drops(self.default_catalog@, name.nm(), seen_schema(self.default_catalog@, name.nm())->Some_0) + seq![Change::DropSchema { c: self.default_catalog@, s: name.nm() }],
//@loop 0
    invariant
        schema_name@ == name.nm(), seen_schema(self.default_catalog@, name.nm()) is Some, schema.tables() == seen_schema(self.default_catalog@, name.nm())->Some_0,
        __it0.all().len() == schema.tables().len(), 0 <= __it0.pos() <= __it0.all().len(),
        forall|i: int| 0 <= i < __it0.all().len() ==> (#[trigger] __it0.all()[i])@ == schema.tables()[i],
        w.log@ == old(w).log@ + drops(self.default_catalog@, name.nm(), schema.tables().take(__it0.pos())),
        only(*old(w), *w, self.default_catalog@, name.nm()),
        !(name matches SchemaReference::Full { catalog, .. } && catalog@ != self.default_catalog@),
    ensures __it0.pos() == __it0.all().len(),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    let ghost k = __it0.pos();
    let ghost w0 = *w;
    proof { if k < schema.tables().len() { drops_step(self.default_catalog@, name.nm(), schema.tables(), k); } }
//@tail 0
    proof { let d = drop_of(self.default_catalog@, name.nm(), schema.tables()[k]); assert(w.log@ =~= w0.log@ + d); assert(w.log@ =~= old(w).log@ + (drops(self.default_catalog@, name.nm(), schema.tables().take(k)) + d)); }
//@exit
    proof { let sn = name.nm(); let c = self.default_catalog@; assert(schema.tables().take(schema.tables().len() as int) =~= schema.tables()); assert(w.log@ =~= old(w).log@ + drops(c, sn, schema.tables()) + seq![Change::DropSchema { c, s: sn }]); }
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm CreateCatalogSchema | world streq try=rx_from_err
//@sig
fn create_schema_arm(&self, schema_name: &String, if_not_exists: &bool) -> Result<Plan>
//@methods
clone/0 => rx_own
into_iter/0 => own_iter
create_delta_table/2 => WORLD
delete_delta_table/1 => WORLD
create/2 => WORLD
//@contract
    ensures *if_not_exists && has_schema(self.default_catalog@, schema_name@) ==> r is Ok && final(w).log@ == old(w).log@,
        !(*if_not_exists && has_schema(self.default_catalog@, schema_name@)) ==> one(*old(w), *final(w), Change::Schema { c: self.default_catalog@, s: schema_name@ }, r is Ok),
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm DdlStatement::CreateCatalog( | world streq try=rx_from_err
//@sig
fn create_catalog_arm(&self, catalog_name: &String, if_not_exists: &bool) -> Result<Plan>
//@calls
DataFusionError::Plan => rx_err
//@methods
clone/0 => rx_own
into_iter/0 => own_iter
create_delta_table/2 => WORLD
delete_delta_table/1 => WORLD
create/1 => WORLD
create/2 => WORLD
//@contract
    ensures has_catalog(catalog_name@) ==> (r is Ok) == *if_not_exists && final(w).log@ == old(w).log@,
        !has_catalog(catalog_name@) ==> two(*old(w), *final(w), Change::Catalog { c: catalog_name@ }, Change::Schema { c: catalog_name@, s: DEFAULT_SCHEMA_spec() }, r is Ok),
//@end
}
//@probe
pub proof fn probe_axioms(c: Seq<char>, s: Seq<char>, t: Seq<char>, dc: Seq<char>, ds: Seq<char>, x: String) requires has_schema(c, s), !has_schema(dc, ds) ensures false { axiom_resolved(c, s, t, dc, ds); }
//@probe
pub fn probe_made(c: &SeafowlContext, w: &mut World, t: TableRef, d: CreateDeltaTableDetails) { let r = c.create_delta_table(w, t, d); assert(r is Err); }
//@probe
pub fn probe_create(c: &SeafowlContext, w: &mut World, a: &ArrowSchema, n: &String) { let r = c.create_table_arm(w, a, n, &false); assert(r is Err); }
//@probe
pub fn probe_convert(c: &SeafowlContext, w: &mut World, l: &String, n: &String) { let r = c.convert_table_arm(w, l, n); assert(r is Err || final(w).log@ == old(w).log@); }
//@probe
pub fn probe_rename(c: &SeafowlContext, w: &mut World, l: &String, n: &String) { let r = c.rename_table_arm(w, l, n); assert(r is Err); }
//@probe
pub fn probe_function(c: &SeafowlContext, w: &mut World, n: &String, d: &Details) { let r = c.create_function_arm(w, n, &true, d); assert(r is Err); }
//@probe
pub fn probe_drop_function(c: &SeafowlContext, w: &mut World, n: &Vec<String>) { let r = c.drop_function_arm(w, &true, n); assert(r is Err); }
//@probe
pub fn probe_drop_table(c: &SeafowlContext, w: &mut World, n: &TableRef) requires has_table(*n) { let r = c.drop_table_arm(w, n, &true); assert(r is Err); }
//@probe
pub fn probe_drop_schema(c: &SeafowlContext, w: &mut World, n: &SchemaReference) requires seen_schema(c.default_catalog@, n.nm()) is Some, n is Bare { let r = c.drop_schema_arm(w, n, &true); assert(r is Err); }
//@probe
pub fn probe_schema(c: &SeafowlContext, w: &mut World, n: &String) requires !has_schema(c.default_catalog@, n@) { let r = c.create_schema_arm(w, n, &true); assert(r is Err); }
//@probe
pub fn probe_catalog(c: &SeafowlContext, w: &mut World, n: &String) requires !has_catalog(n@) { let r = c.create_catalog_arm(w, n, &true); assert(r is Err); }
}
fn main() {}
