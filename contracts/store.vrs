use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include store_base.inc.rs
//@extract src/catalog/mod.rs | const STAGING_SCHEMA
//@end
//@extract src/repository/interface.rs | struct DatabaseRecord
//@end
//@extract src/repository/interface.rs | struct CollectionRecord
//@end
//@extract src/repository/interface.rs | struct TableRecord
//@end
//@extract src/repository/interface.rs | struct TableVersionsResult
//@end
//@extract src/repository/interface.rs | struct AllDatabaseFunctionsResult
//@end
//@extract src/repository/interface.rs | enum DroppedTableDeletionStatus
//@end
//@extract src/repository/interface.rs | struct DroppedTablesResult
//@end
impl RepositoryStore {
//@extract src/catalog/repository.rs | impl CatalogStore for RepositoryStore :: create | world streq try=rx_from_err as=catalog_create
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures one(*old(w), *final(w), Act::NewDatabase(name@), r is Ok),
//@end
//@extract src/catalog/repository.rs | impl CatalogStore for RepositoryStore :: get | streq try=rx_from_err as=catalog_get
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures r is Ok ==> db_of(name@) == Some(r->Ok_0.id as int), r is Err && missing(r->Err_0) ==> db_of(name@) is None,
//@end
//@extract src/catalog/repository.rs | impl CatalogStore for RepositoryStore :: delete | world streq try=rx_from_err as=catalog_delete
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures db_of(name@) is Some ==> one(*old(w), *final(w), Act::DelDatabase(db_of(name@)->0), r is Ok), db_of(name@) is None ==> r is Err && final(w).acts@ == old(w).acts@,
//@end
//@extract src/catalog/repository.rs | impl SchemaStore for RepositoryStore :: create | world streq try=rx_from_err as=schema_create
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures schema_name@ == STAGING_SCHEMA_spec() ==> r is Err && final(w).acts@ == old(w).acts@, db_of(catalog_name@) is Some ==> one(*old(w), *final(w), Act::NewSchema(db_of(catalog_name@)->0, schema_name@), r is Ok), db_of(catalog_name@) is None ==> r is Err && final(w).acts@ == old(w).acts@,
//@end
//@extract src/catalog/repository.rs | impl SchemaStore for RepositoryStore :: get | streq try=rx_from_err as=schema_get
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures r is Ok ==> coll_of(catalog_name@, schema_name@) == Some(r->Ok_0.id as int) && schema_name@ != STAGING_SCHEMA_spec(), r is Err && missing(r->Err_0) ==> coll_of(catalog_name@, schema_name@) is None,
//@end
//@extract src/catalog/repository.rs | impl SchemaStore for RepositoryStore :: delete | world streq try=rx_from_err as=schema_delete
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures coll_of(catalog_name@, schema_name@) is Some ==> one(*old(w), *final(w), Act::DelSchema(coll_of(catalog_name@, schema_name@)->0), r is Ok), coll_of(catalog_name@, schema_name@) is None ==> r is Err && final(w).acts@ == old(w).acts@,
//@end
//@extract src/catalog/repository.rs | impl TableStore for RepositoryStore :: create | world streq try=rx_from_err as=table_create
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures coll_of(catalog_name@, schema_name@) is Some ==> one(*old(w), *final(w), Act::NewTable(coll_of(catalog_name@, schema_name@)->0, table_name@, *schema, uuid), r is Ok), coll_of(catalog_name@, schema_name@) is None ==> r is Err && final(w).acts@ == old(w).acts@, schema_name@ == STAGING_SCHEMA_spec() ==> r is Err && final(w).acts@ == old(w).acts@,
//@end
//@extract src/catalog/repository.rs | impl TableStore for RepositoryStore :: get | streq try=rx_from_err as=table_get
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures r is Ok ==> tab_of(catalog_name@, schema_name@, table_name@) == Some(r->Ok_0.id as int), r is Err && missing(r->Err_0) ==> tab_of(catalog_name@, schema_name@, table_name@) is None,
//@end
//@extract src/catalog/repository.rs | impl TableStore for RepositoryStore :: create_new_version | world streq try=rx_from_err as=table_new_version
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures one(*old(w), *final(w), Act::NewVersion(uuid, version as int), r is Ok),
//@end
//@extract src/catalog/repository.rs | impl TableStore for RepositoryStore :: delete_old_versions | world streq try=rx_from_err as=table_delete_old
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures tab_of(catalog_name@, schema_name@, table_name@) is Some ==> one(*old(w), *final(w), Act::DelOldVersions(tab_of(catalog_name@, schema_name@, table_name@)->0), r is Ok), tab_of(catalog_name@, schema_name@, table_name@) is None ==> r is Err && final(w).acts@ == old(w).acts@,
//@end
//@extract src/catalog/repository.rs | impl TableStore for RepositoryStore :: get_all_versions | streq try=rx_from_err as=table_versions
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures r is Ok ==> r->Ok_0@ == versions(catalog_name@, table_names),
//@end
//@extract src/catalog/repository.rs | impl TableStore for RepositoryStore :: update | world streq try=rx_from_err as=table_update
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    requires old_catalog_name@ == new_catalog_name@,
    ensures
        tab_of(old_catalog_name@, old_schema_name@, old_table_name@) is None ==> r is Err && final(w).acts@ == old(w).acts@,
        tab_of(old_catalog_name@, old_schema_name@, old_table_name@) is Some && new_schema_name@ == old_schema_name@ ==> one(*old(w), *final(w), Act::Rename(tab_of(old_catalog_name@, old_schema_name@, old_table_name@)->0, new_table_name@, None), r is Ok),
        tab_of(old_catalog_name@, old_schema_name@, old_table_name@) is Some && !(new_schema_name@ == old_schema_name@) && coll_of(new_catalog_name@, new_schema_name@) is Some ==> one(*old(w), *final(w), Act::Rename(tab_of(old_catalog_name@, old_schema_name@, old_table_name@)->0, new_table_name@, coll_of(new_catalog_name@, new_schema_name@)), r is Ok),
        !(new_schema_name@ == old_schema_name@) && coll_of(new_catalog_name@, new_schema_name@) is None ==> r is Err && final(w).acts@ == old(w).acts@,
//@end
//@extract src/catalog/repository.rs | impl TableStore for RepositoryStore :: delete | world streq try=rx_from_err as=table_delete
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures tab_of(catalog_name@, schema_name@, table_name@) is Some ==> one(*old(w), *final(w), Act::DelTable(tab_of(catalog_name@, schema_name@, table_name@)->0), r is Ok), tab_of(catalog_name@, schema_name@, table_name@) is None ==> r is Err && final(w).acts@ == old(w).acts@,
//@end
//@extract src/catalog/repository.rs | impl TableStore for RepositoryStore :: get_dropped_tables | streq try=rx_from_err as=table_dropped
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures r is Ok ==> r->Ok_0@ == dropped(catalog_name),
//@end
//@extract src/catalog/repository.rs | impl TableStore for RepositoryStore :: update_dropped_table | world streq try=rx_from_err as=table_mark
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures one(*old(w), *final(w), Act::Mark(uuid, deletion_status), r is Ok),
//@end
//@extract src/catalog/repository.rs | impl TableStore for RepositoryStore :: delete_dropped_table | world streq try=rx_from_err as=table_forget
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures one(*old(w), *final(w), Act::Forget(uuid), r is Ok),
//@end
//@extract src/catalog/repository.rs | impl FunctionStore for RepositoryStore :: create | world streq try=rx_from_err as=function_create
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures db_of(catalog_name@) is Some ==> one(*old(w), *final(w), Act::NewFunction(db_of(catalog_name@)->0, function_name@, or_replace, *details), r is Ok), db_of(catalog_name@) is None ==> r is Err && final(w).acts@ == old(w).acts@,
//@end
//@extract src/catalog/repository.rs | impl FunctionStore for RepositoryStore :: list | streq try=rx_from_err as=function_list
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures r is Ok ==> db_of(catalog_name@) is Some && r->Ok_0@ == functions(db_of(catalog_name@)->0),
//@end
//@extract src/catalog/repository.rs | impl FunctionStore for RepositoryStore :: delete | world streq try=rx_from_err as=function_delete
//@types
CreateFunctionDetails => Details
[String] => Vec<String>
//@calls
CatalogStore::get => RepositoryStore::catalog_get
SchemaStore::get => RepositoryStore::schema_get
TableStore::get => RepositoryStore::table_get
//@methods
into/0 => own_err
create_database/1 => WORLD
delete_database/1 => WORLD
create_collection/2 => WORLD
delete_collection/1 => WORLD
create_table/4 => WORLD
create_new_version/2 => WORLD
delete_old_versions/1 => WORLD
rename_table/3 => WORLD
delete_table/1 => WORLD
update_dropped_table/2 => WORLD
delete_dropped_table/1 => WORLD
create_function/4 => WORLD
drop_function/2 => WORLD
//@contract
    ensures db_of(catalog_name@) is Some ==> one(*old(w), *final(w), Act::DelFunctions(db_of(catalog_name@)->0, views(func_names@)), r is Ok && !if_exists), db_of(catalog_name@) is None ==> r is Err && final(w).acts@ == old(w).acts@,
//@end
}
//@probe
pub fn probe_store_rename(w: &mut World, x: &RepositoryStore, c: &str, s: &str, t: &str, n: &str) requires tab_of(c@, s@, t@) is Some { let r = x.table_update(w, c, s, t, c, s, n); assert(r is Err); }
//@probe
pub fn probe_store_functions(w: &mut World, x: &RepositoryStore, c: &str, n: &Vec<String>) requires db_of(c@) is Some { let r = x.function_delete(w, c, false, n); assert(final(w).acts@ == old(w).acts@); }
//@probe
pub fn probe_store_get(x: &RepositoryStore, c: &str, s: &str) { let r = x.schema_get(c, s); assert(coll_of(c@, s@) is Some); }
}
fn main() {}
