use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
//@include dml_write.inc.rs
//@include dml_expr.inc.rs
//@include dml_table.inc.rs
//@extract src/context/delta.rs | const PARTITION_FILE_BUFFER_SIZE
//@end
//@extract src/context/delta.rs | const PARTITION_FILE_MIN_PART_SIZE
//@end
//@extract src/context/delta.rs | const PARTITION_FILE_UPLOAD_MAX_CONCURRENCY
//@end
//@extract src/context/delta.rs | fn plan_to_delta_adds @ async 0 | try=rx_from_err
//@sig
fn upload_file(permit: Option<Permit>, part: usize, partitions_uuid: Uuid, partition_file_path: TempPath, metadata: FileMeta, store: Store, local_data_dir: Option<String>) -> Result<Add>
//@calls
Path::from => path_from
tokio::fs::metadata => fs_metadata
AsyncFile::open => open_file
DataFusionError::ObjectStore => DataFusionError::rx_ObjectStore
Default::default => NoVals::default
//@contract
    requires partition_file_path.id() == metadata.id(),
    ensures r is Ok ==> r->Ok_0.rows() == metadata.rows() && r->Ok_0.path() == part_name(part as int, partitions_uuid.disp()) && in_place(r->Ok_0, store.id(), local_data_dir),
//@loop 0
    invariant 0 <= reader.pos() <= bytes_of(reader.id()).len(), reader.id() == metadata.id(), multipart_upload.store() == store.id(), multipart_upload.name() == file_name@,
        multipart_upload.sent() + part_buffer@ =~= bytes_of(reader.id()).subrange(0, reader.pos()),
    ensures multipart_upload.sent() == bytes_of(metadata.id()),
    decreases 2 * (bytes_of(reader.id()).len() - reader.pos()) + if part_buffer@.len() > 0 { 1int } else { 0 },
//@end
//@extract src/context/delta.rs | fn plan_to_delta_adds | try=rx_from_err forchain
//@types
Arc<dyn ExecutionPlan> => Plan
Arc<dyn ObjectStore> => Store
JoinHandle<Result<Add>> => JoinHandle<Result<Add>>
tokio::task::JoinHandle<Result<Add>> => JoinHandle<Result<Add>>
//@calls
Arc::new => rx_same
Arc::clone => again
TaskContext::from => task_ctx
tokio::task::spawn => spawn
futures::future::join_all => join_all
Semaphore::new => semaphore
DataFusionError::External => DataFusionError::rx_External
Box::new => rx_same
//@vars
tasks => Vec<JoinHandle<Result<Add>>>
//@lift
upload_file(permit, part, partitions_uuid, partition_file_path, metadata, store, local_data_dir)
//@contract
    requires max_partition_size > 0,
    ensures r is Ok ==> wrote(r->Ok_0@, plan.rows(), max_partition_size, store.id(), local_data_dir),
//@entry
broadcast use {lemma_cat_step, lemma_assoc, lemma_full, lemma_mrows_push};
//@loop 0
    invariant __it0.all().len() == plan.parts().len(), 0 <= __it0.pos() <= __it0.all().len(), forall|k: int| 0 <= k < __it0.all().len() ==> __it0.all()[k] == k, max_partition_size > 0,
        files_ok(partition_file_paths@, partition_metadata@, writer, max_partition_size), current_partition_size == writer.rows().len(), tasks@.len() == 0,
        so_far(partition_metadata@, writer) == cat(prows(*plan).subrange(0, __it0.pos())),
    ensures so_far(partition_metadata@, writer) == plan.rows(),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
broadcast use {lemma_cat_step, lemma_assoc, lemma_full, lemma_mrows_push};
//@body 1
broadcast use {lemma_cat_step, lemma_assoc, lemma_full, lemma_mrows_push};
//@tail 0
proof { lemma_cat_step(prows(*plan), i as int); }
//@loop 1
    invariant i < plan.parts().len(), stream.all() == plan.parts()[i as int], 0 <= stream.pos() <= stream.all().len(), max_partition_size > 0,
        files_ok(partition_file_paths@, partition_metadata@, writer, max_partition_size), current_partition_size == writer.rows().len(), tasks@.len() == 0,
        so_far(partition_metadata@, writer) == cat(prows(*plan).subrange(0, i as int)) + cat(stream.all().subrange(0, stream.pos())),
    ensures so_far(partition_metadata@, writer) == cat(prows(*plan).subrange(0, i as int)) + prows(*plan)[i as int],
    decreases stream.all().len() - stream.pos(),
//@tail 1
proof { lemma_cat_step(stream.all(), stream.pos() - 1); }
//@loop 2
    invariant max_partition_size > 0, files_ok(partition_file_paths@, partition_metadata@, writer, max_partition_size), current_partition_size == writer.rows().len(), tasks@.len() == 0,
        leftover_partition_capacity == max_partition_size - current_partition_size,
        so_far(partition_metadata@, writer) + batch@ == cat(prows(*plan).subrange(0, i as int)) + cat(stream.all().subrange(0, stream.pos())),
    decreases batch@.len(), if leftover_partition_capacity == 0 { 1int } else { 0 },
//@body 2
broadcast use {lemma_cat_step, lemma_assoc, lemma_full, lemma_mrows_push}; let ghost sf = so_far(partition_metadata@, writer); let ghost b0 = batch@; let ghost m0 = partition_metadata@; let ghost w0 = writer.rows(); let ghost p0 = partition_file_paths@;
//@tail 2
proof { lemma_mrows_push(m0, partition_metadata@.last()); assert(partition_metadata@ == m0.push(partition_metadata@.last())); let x = partition_metadata@.last().rows();
  assert(x + batch@ =~= w0 + b0); assert(so_far(partition_metadata@, writer) =~= cat(mrows(m0)) + x); assert(so_far(partition_metadata@, writer) + batch@ =~= sf + b0);
  let p = partition_file_paths@; let m = partition_metadata@; assert(p == p0.push(p.last())); assert(p0.last().id() == partition_metadata@.last().id()); assert(x.len() <= max_partition_size); lemma_pairs_push(p0, m0, p.last(), m.last(), max_partition_size); assert(pairs_ok(p, m, max_partition_size)); assert(files_ok(p, m, writer, max_partition_size)); }
//@let partitions_uuid
let ghost paths = partition_file_paths@; let ghost metas = partition_metadata@; assert(partition_metadata@.len() == partition_metadata.len()); let ghost zs = RxZip { a: partition_file_paths, b: partition_metadata }.items();
proof { assert(cat(mrows(metas)) == plan.rows()); }
//@exit
    proof { assert forall|a: Seq<Add>| #[trigger] all_made(a, metas, partitions_uuid.disp(), store.id(), local_data_dir) implies wrote(a, plan.rows(), max_partition_size, store.id(), local_data_dir) by { lemma_wrote(a, paths, metas, max_partition_size, partitions_uuid.disp(), store.id(), local_data_dir); } }
//@loop 3
    invariant zs.len() <= usize::MAX, __k3 == __it3.pos(), 0 <= __it3.pos() <= __it3.all().len(), tasks@.len() == __it3.pos(), __it3.all() == zs,
        zipped(zs, paths, metas), pairs_ok(paths, metas, max_partition_size), paths.len() == metas.len(),
        forall|k: int| 0 <= k < tasks@.len() ==> ((#[trigger] tasks@[k]).answer() matches Ok(a) ==> made(a, metas[k], k, partitions_uuid.disp(), store.id(), local_data_dir)),
    ensures tasks@.len() == metas.len(),
    decreases __it3.all().len() - __it3.pos(),
//@loop 4
    invariant_except_break __err4 is None, __acc4@.len() == __it4.pos(),
    invariant 0 <= __it4.pos() <= __it4.all().len(), __it4.all().len() == metas.len(),
        forall|k: int| 0 <= k < __it4.all().len() ==> ((#[trigger] __it4.all()[k]) matches Ok(Ok(a)) ==> made(a, metas[k], k, partitions_uuid.disp(), store.id(), local_data_dir)),
        forall|k: int| 0 <= k < __acc4@.len() ==> made(#[trigger] __acc4@[k], metas[k], k, partitions_uuid.disp(), store.id(), local_data_dir),
    ensures __err4 is None ==> all_made(__acc4@, metas, partitions_uuid.disp(), store.id(), local_data_dir),
    decreases __it4.all().len() - __it4.pos(),
//@end
//@extract src/provider.rs | fn project_expressions | try=rx_from_err forchain
//@types
Arc<dyn PhysicalExpr> => PExpr
//@vars
__acc0 => Vec<(PExpr, String)>
//@contract
    requires exprs@.len() == schema.fields@.len(),
    ensures r is Ok ==> r->Ok_0@.len() == exprs@.len() && forall|i: int| 0 <= i < exprs@.len() ==> assigns((#[trigger] r->Ok_0@[i]).0, exprs@[i], schema.fields@[i], selection_expr) && r->Ok_0@[i].1@ == schema.fields@[i].nm(),
//@body 0
broadcast use {axiom_typed, axiom_case};
//@loop 0
    invariant_except_break __err0 is None, __acc0@.len() == __it0.pos(),
    invariant 0 <= __it0.pos() <= __it0.all().len(), __it0.all().len() == exprs@.len(), exprs@.len() == schema.fields@.len(),
        forall|k: int| 0 <= k < __it0.all().len() ==> (#[trigger] __it0.all()[k]) == (&exprs@[k], &schema.fields@[k]),
        forall|k: int| 0 <= k < __acc0@.len() ==> assigns((#[trigger] __acc0@[k]).0, exprs@[k], schema.fields@[k], selection_expr) && __acc0@[k].1@ == schema.fields@[k].nm(),
    ensures __err0 is None ==> __acc0@.len() == exprs@.len(),
    decreases __it0.all().len() - __it0.pos(),
//@end
impl SeafowlContext {
//@extract src/context/delta.rs | impl SeafowlContext :: commit_delta_table | try=rx_from_err
//@calls
CommitBuilder::default => CommitBuilder::rx_default
//@contract
    ensures r is Ok ==> committed(table.prefix(), table.files(), actions@, r->Ok_0),
//@end
//@extract src/context/delta.rs | impl SeafowlContext :: plan_to_delta_table | try=rx_from_err forchain
//@types
impl Into<TableReference> => TableRef
Arc<dyn ExecutionPlan> => Plan
//@calls
Default::default => NoVals::default
//@methods
clone/0 => rx_own
//@contract
    requires self.config.misc.max_partition_size > 0,
    ensures r is Ok ==> appended(uuid_of(name), plan.rows(), self.config.misc.max_partition_size),
//@let actions
let ghost acts = actions@; let ghost files = table.files();
proof { assert(acts_ok(acts, ga, Seq::empty())); }
//@after plan_to_delta_adds
let ghost ga = adds@;
//@loop 0
    invariant 0 <= __it0.pos() <= __it0.all().len(), __it0.all() == ga, __acc0@.len() == __it0.pos(), forall|k: int| 0 <= k < __acc0@.len() ==> #[trigger] __acc0@[k] == Action::Add(ga[k]),
    ensures __acc0@.len() == ga.len(),
    decreases __it0.all().len() - __it0.pos(),
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: coerce_plan | try=rx_from_err forchain
//@types
Arc<dyn ExecutionPlan> => Plan
Arc<dyn PhysicalExpr> => PExpr
//@calls
Column::new => column
ProjectionExec::try_new => projection_exec
Arc::new => rx_same
//@methods
clone/0 => rx_own
//@vars
__acc0 => Vec<(PExpr, String)>
__err0 => Option<DataFusionError>
//@contract
    ensures r is Ok ==> coerced(r->Ok_0.rows(), plan),
//@loop 0
    invariant_except_break __err0 is None, __acc0@.len() == __it0.pos(), incompatible_data_type == exists|k: int| 0 <= k < __it0.pos() && nano(#[trigger] cols[k]),
    invariant 0 <= __it0.pos() <= __it0.all().len(), __it0.all().len() == cols.len(), cols.len() <= usize::MAX, __k0 == __it0.pos(), cols == schema.fields@, forall|k: int| 0 <= k < cols.len() ==> *(#[trigger] __it0.all()[k]) == cols[k],
        forall|k: int| 0 <= k < __acc0@.len() ==> coerces((#[trigger] __acc0@[k]).0, cols[k], k),
    ensures __err0 is None ==> __acc0@.len() == cols.len() && incompatible_data_type == exists|k: int| 0 <= k < cols.len() && nano(#[trigger] cols[k]),
    decreases __it0.all().len() - __it0.pos(),
//@let schema
let ghost cols = plan.sch().fields@; let ghost rows = plan.rows();
proof { assert(cols == schema.fields@); assert(schema.fields.len() == cols.len()); }
//@exit
    proof {
        let pj = projection@;
        assert forall|out: Rows| out.len() == rows.len() && (forall|k: int| 0 <= k < out.len() ==> (#[trigger] out[k]) == projected(pj, rows[k])) implies #[trigger] coerced(out, plan) by {
            assert forall|k: int| 0 <= k < out.len() implies coerced_row(#[trigger] out[k], rows[k], cols) by { axiom_projected_nth(pj, rows[k]); assert forall|i: int| 0 <= i < cols.len() implies nth(out[k], i) == coerced_val((#[trigger] cols[i]).dt(), nth(rows[k], i)) by { assert(coerces(pj[i].0, cols[i], i)); assert(pj[i].0.at(rows[k]) == coerced_val(cols[i].dt(), nth(rows[k], i))); } }
        }
        if !incompatible_data_type { assert forall|k: int| 0 <= k < rows.len() implies coerced_row(#[trigger] rows[k], rows[k], cols) by { assert forall|i: int| 0 <= i < cols.len() implies coerced_val((#[trigger] cols[i]).dt(), nth(rows[k], i)) == nth(rows[k], i) by { assert(!nano(cols[i])); } } assert(coerced(rows, plan)); }
    }
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm CreateMemoryTable
//@sig
fn create_as_arm(&self, name: &TableRef, input: &Box<LogicalPlan>, if_not_exists: &bool) -> Result<Plan>
//@methods
clone/0 => rx_own
//@contract
    requires self.config.misc.max_partition_size > 0,
    ensures r is Ok ==> (*if_not_exists && has_table(*name)) || exists|x: Plan, y: Plan| #[trigger] plans(**input, x) && #[trigger] coerced(y.rows(), x) && created(*name, CreateDeltaTableDetails::EmptyTable(y.sch())) && appended(uuid_of(*name), y.rows(), self.config.misc.max_partition_size),
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm WriteOp::Insert
//@sig
fn insert_arm(&self, table_name: &TableRef, input: &Box<LogicalPlan>) -> Result<Plan>
//@contract
    requires self.config.misc.max_partition_size > 0,
    ensures r is Ok ==> exists|x: Plan| #[trigger] plans(**input, x) && if is_iceberg(*table_name) { iceberg_holds(*table_name, x.rows()) } else { appended(uuid_of(*table_name), x.rows(), self.config.misc.max_partition_size) },
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm SeafowlExtensionNode::Truncate | try=rx_from_err forchain
//@sig
fn truncate_arm(&self, table_name: &String) -> Result<Plan>
//@calls
SystemTime::now => now
//@contract
    ensures r is Ok ==> emptied(uuid_of(ref_of(table_name@))),
//@let snapshot
let ghost files = table.files();
//@loop 0
    invariant 0 <= __it0.pos() <= __it0.all().len(), __it0.all() == files, __acc0@.len() == __it0.pos(), forall|k: int| 0 <= k < __acc0@.len() ==> removal(#[trigger] __acc0@[k], files[k]),
    ensures __acc0@.len() == files.len(),
    decreases __it0.all().len() - __it0.pos(),
//@let op
let ghost acts = actions@;
proof { assert(acts_ok(acts, Seq::empty(), files)); }
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm WriteOp::Delete | try=rx_from_err forchain
//@sig
fn delete_arm(&self, table_name: &TableRef, table_schema: &DFSchema, input: &Box<LogicalPlan>) -> Result<Plan>
//@types
Arc<dyn ExecutionPlan> => Plan
//@calls
SchemaRef::from => schema_from
Default::default => NoVals::default
FilterExec::try_new => filter_exec
SystemTime::now => now
DataFusionError::NotImplemented => rx_err
Arc::new => rx_same
//@contract
    requires self.config.misc.max_partition_size > 0,
    ensures r is Ok ==> row_wise(**input) && exists|files: Seq<Add>, acts: Seq<Action>, version: i64| #[trigger] committed(uuid_of(*table_name).disp(), files, acts, version) && recorded(uuid_of(*table_name), version)
        && deleted(files, acts, **input, self.config.misc.max_partition_size, uuid_of(*table_name)),
//@let snapshot
let ghost files = table.files(); let ghost u = uuid_of(*table_name); let ghost max = self.config.misc.max_partition_size;
//@after prune
let ghost keep = prune_map@;
proof { assert forall|i: int| 0 <= i < files.len() && !keep[i] implies no_hit(#[trigger] files[i], **input) by { } }
//@loop 0
    invariant 0 <= __it0.pos() <= __it0.all().len(), __it0.all().len() == files.len(), keep.len() == files.len(), files == snapshot.files(),
        forall|k: int| 0 <= k < files.len() ==> (#[trigger] __it0.all()[k]) == (&files[k], keep[k]),
        forall|i: int| 0 <= i < files.len() && !keep[i] ==> no_hit(#[trigger] files[i], **input),
        __acc0@ == pick(files.subrange(0, __it0.pos()), keep.subrange(0, __it0.pos())),
    ensures selected(files, __acc0@, keep, **input), __acc0@.len() == 0 ==> selected(files, Seq::<Add>::empty(), keep, **input),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
proof { assert(files.subrange(0, files.len() as int) =~= files); assert(keep.subrange(0, files.len() as int) =~= keep); if __it0.pos() < files.len() { lemma_pick_step(files, keep, __it0.pos()); } }
//@after IsNotTrue
let ghost fe = filter_expr;
//@after scan
let ghost s0 = base_scan.rows();
//@after plan_to_delta_adds
proof {
    assert forall|row: Row| is_true(fe.at(row)) == !hit(**input, row) by { axiom_bool_val(true); axiom_bool_val(false); }
    lemma_filter_same(s0, |row: Row| is_true(fe.at(row)), |row: Row| !hit(**input, row));
    assert(kept(files_to_prune@, adds@, s0, **input, max, u));
}
//@let adds
let ghost ga = adds@; let ghost gr = removes@;
proof {
    lemma_wrote_none(max, store_at(u.disp()), dir_at(u.disp())); assert(arows(Seq::empty()) =~= Seq::empty());
    lemma_pick_const(files, false); lemma_pick_const(files, true);
    if **input is EmptyRelation { assert(selected(files, gr, Seq::new(files.len(), |i: int| false), **input)); }
    if **input is TableScan { assert(selected(files, gr, Seq::new(files.len(), |i: int| true), **input)); lemma_filter_none(cat(arows(gr)), |row: Row| !hit(**input, row)); assert(kept(gr, ga, cat(arows(gr)), **input, max, u)); }
    if gr.len() == 0 { assert(gr =~= Seq::empty()); lemma_filter_empty(|row: Row| !hit(**input, row)); if ga.len() == 0 { assert(ga =~= Seq::empty()); assert(kept(gr, ga, Rows::empty(), **input, max, u)); } }
}
//@loop 1
    invariant 0 <= __it1.pos() <= __it1.all().len(), __it1.all() == ga, __acc1@.len() == __it1.pos(), forall|k: int| 0 <= k < __acc1@.len() ==> #[trigger] __acc1@[k] == Action::Add(ga[k]),
    ensures __acc1@.len() == ga.len(),
    decreases __it1.all().len() - __it1.pos(),
//@loop 2
    invariant 0 <= __it2.pos() <= __it2.all().len(), __it2.all() == gr, actions@.len() == ga.len() + __it2.pos(), forall|k: int| 0 <= k < ga.len() ==> #[trigger] actions@[k] == Action::Add(ga[k]),
        forall|k: int| 0 <= k < __it2.pos() ==> removal(#[trigger] actions@[ga.len() + k], gr[k]),
    ensures actions@.len() == ga.len() + gr.len(),
    decreases __it2.all().len() - __it2.pos(),
//@let op
let ghost acts = actions@;
proof { assert(acts_ok(acts, ga, gr)); assert(deleted(files, acts, **input, max, u)); }
//@end
//@extract src/context/physical.rs | impl SeafowlContext :: create_physical_plan @ arm WriteOp::Update | try=rx_from_err forchain
//@sig
fn update_arm(&self, table_name: &TableRef, input: &Box<LogicalPlan>) -> Result<Plan>
//@types
Arc<dyn ExecutionPlan> => Plan
//@calls
TableProvider::schema => table_columns
ProjectionExec::try_new => projection_exec
DataFusionError::Plan => rx_err
Default::default => NoVals::default
SystemTime::now => now
Arc::new => rx_same
//@methods
clone/0 => rx_own
//@contract
    requires self.config.misc.max_partition_size > 0, assignments(**input, uuid_of(*table_name)),
    ensures r is Ok ==> exists|files: Seq<Add>, acts: Seq<Action>, version: i64| #[trigger] committed(uuid_of(*table_name).disp(), files, acts, version) && recorded(uuid_of(*table_name), version)
        && updated(files, acts, **input, self.config.misc.max_partition_size, uuid_of(*table_name)),
//@entry
let ghost lp = **input; let ghost j = lp->Projection_0; let ghost sp = *j.input;
//@let snapshot
let ghost files = table.files(); let ghost u = uuid_of(*table_name); let ghost max = self.config.misc.max_partition_size; let ghost cols = columns_of(u.disp()).fields@;
//@after prune
let ghost keep = prune_map@;
proof { assert forall|i: int| 0 <= i < files.len() && !keep[i] implies no_hit(#[trigger] files[i], sp) by { } }
//@loop 0
    invariant 0 <= __it0.pos() <= __it0.all().len(), __it0.all().len() == files.len(), keep.len() == files.len(), files == snapshot.files(),
        forall|k: int| 0 <= k < files.len() ==> (#[trigger] __it0.all()[k]) == (&files[k], keep[k]),
        forall|i: int| 0 <= i < files.len() && !keep[i] ==> no_hit(#[trigger] files[i], sp),
        __acc0@ == pick(files.subrange(0, __it0.pos()), keep.subrange(0, __it0.pos())),
    ensures selected(files, __acc0@, keep, sp),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
proof { assert(files.subrange(0, files.len() as int) =~= files); assert(keep.subrange(0, files.len() as int) =~= keep); if __it0.pos() < files.len() { lemma_pick_step(files, keep, __it0.pos()); } }
//@let uuid
let ghost gr = removes@; let ghost cond = selection_expr;
proof {
    assert forall|row: Row| (cond matches Some(c) ==> is_true(c.at(row))) == #[trigger] hit(sp, row) by { }
    lemma_pick_const(files, true);
    if sp is TableScan { assert(selected(files, gr, Seq::new(files.len(), |i: int| true), sp)); }
    assert(exists|keep: Seq<bool>| selected(files, gr, keep, sp));
    lemma_wrote_none(max, store_at(u.disp()), dir_at(u.disp())); assert(arows(Seq::empty()) =~= Seq::empty());
    if gr.len() == 0 { assert(gr =~= Seq::empty()); assert(changed(gr, Seq::empty(), Rows::empty(), Rows::empty(), max, u)); assert(rewritten(Rows::empty(), Rows::empty(), j, cols)); }
}
//@after scan
let ghost s0 = base_scan.rows();
//@after projection_exec
let ghost out = update_plan.rows();
proof {
    let pj = projections@;
    assert(distinct_names(pj)) by { assert forall|a: int, b: int| 0 <= a < b < pj.len() implies (#[trigger] pj[a]).1@ != (#[trigger] pj[b]).1@ by { assert(cols[a].nm() != cols[b].nm()); } }
    assert forall|k: int| 0 <= k < s0.len() implies upd_row(#[trigger] out[k], s0[k], j, cols) by {
        axiom_projected(pj, s0[k]);
        assert forall|i: int| 0 <= i < cols.len() implies cell(out[k], (#[trigger] cols[i]).nm()) == if hit(sp, s0[k]) { cast_val(j.expr@[i].at(s0[k]), cols[i].dt()) } else { cell(s0[k], cols[i].nm()) } by { assert(pj[i].1@ == cols[i].nm()); assert(assigns(pj[i].0, j.expr@[i], cols[i], cond)); assert(pj[i].0.at(s0[k]) == assigned(j.expr@[i], cols[i], cond, s0[k])); }
    }
}
//@after plan_to_delta_adds
let ghost ga = adds@;
proof { assert(changed(gr, ga, s0, out, max, u)); }
//@loop 1
    invariant 0 <= __it1.pos() <= __it1.all().len(), __it1.all() == ga, __acc1@.len() == __it1.pos(), forall|k: int| 0 <= k < __acc1@.len() ==> #[trigger] __acc1@[k] == Action::Add(ga[k]),
    ensures __acc1@.len() == ga.len(),
    decreases __it1.all().len() - __it1.pos(),
//@loop 2
    invariant 0 <= __it2.pos() <= __it2.all().len(), __it2.all() == gr, actions@.len() == ga.len() + __it2.pos(), forall|k: int| 0 <= k < ga.len() ==> #[trigger] actions@[k] == Action::Add(ga[k]),
        forall|k: int| 0 <= k < __it2.pos() ==> removal(#[trigger] actions@[ga.len() + k], gr[k]),
    ensures actions@.len() == ga.len() + gr.len(), acts_ok(actions@, ga, gr),
    decreases __it2.all().len() - __it2.pos(),
//@let op
let ghost acts = actions@;
proof { if gr.len() == 0 { assert(acts_ok(acts, Seq::empty(), gr)); } assert(updated(files, acts, lp, max, u)); }
//@end
}
//@probe
pub proof fn probe_axioms(e: PExpr, row: Row, a: Seq<Rows>, b: Rows) requires a.len() > 3, b.len() > 2 ensures false { broadcast use {axiom_typed, axiom_case, lemma_assoc, lemma_full, lemma_mrows_push, lemma_cat_step}; axiom_pad0(5); axiom_bool_val(true); axiom_bool_val(false); assert(e.at(row) == e.at(row)); }
//@probe
pub fn probe_adds(state: &SessionState, plan: &Plan, store: Store, d: Option<String>) { let r = plan_to_delta_adds(state, plan, store, d, 10); assert(r is Err); }
//@probe
pub fn probe_adds_one(state: &SessionState, plan: &Plan, store: Store, d: Option<String>) { let r = plan_to_delta_adds(state, plan, store, d, 10); assert(r matches Ok(v) ==> v@.len() == 1); }
//@probe
pub fn probe_upload(p: TempPath, m: FileMeta, s: Store, u: Uuid, d: Option<String>) requires p.id() == m.id() { let r = upload_file(None, 3, u, p, m, s, d); assert(r is Err); }
//@probe
pub fn probe_project(e: &Vec<Expr>, d: &DFSchema, s: &ArrowSchema, c: Option<PExpr>) requires e@.len() == s.fields@.len(), e@.len() > 2 { let r = project_expressions(e, d, s, c); assert(r is Err); }
//@probe
pub fn probe_delete(c: &SeafowlContext, t: &TableRef, d: &DFSchema, p: &Box<LogicalPlan>) requires c.config.misc.max_partition_size > 0, **p is Filter { let r = c.delete_arm(t, d, p); assert(r is Err); }
//@probe
pub fn probe_delete_empty(c: &SeafowlContext, t: &TableRef, d: &DFSchema, p: &Box<LogicalPlan>) requires c.config.misc.max_partition_size > 0, **p is EmptyRelation { let r = c.delete_arm(t, d, p); assert(r is Err); }
//@probe
pub fn probe_update(c: &SeafowlContext, t: &TableRef, p: &Box<LogicalPlan>) requires c.config.misc.max_partition_size > 0, assignments(**p, uuid_of(*t)), **p is Projection, columns_of(uuid_of(*t).disp()).fields@.len() > 2 { let r = c.update_arm(t, p); assert(r is Err); }
//@probe
pub fn probe_insert(c: &SeafowlContext, t: &TableRef, p: &Box<LogicalPlan>) requires c.config.misc.max_partition_size > 0, !is_iceberg(*t) { let r = c.insert_arm(t, p); assert(r is Err); }
//@probe
pub fn probe_create_as(c: &SeafowlContext, t: &TableRef, p: &Box<LogicalPlan>) requires c.config.misc.max_partition_size > 0 { let r = c.create_as_arm(t, p, &false); assert(r is Err); }
//@probe
pub fn probe_coerce(c: &SeafowlContext, p: Plan) requires p.rows().len() > 1, p.sch().fields@.len() > 1, nano(p.sch().fields@[0]), !nano(p.sch().fields@[1]) { let r = c.coerce_plan(p); assert(r is Err); }
//@probe
pub fn probe_truncate(c: &SeafowlContext, t: &String) { let r = c.truncate_arm(t); assert(r is Err); }
}
fn main() {}
