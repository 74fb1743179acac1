use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include strings.inc.rs
//@include iter.inc.rs
//@include squash_spec.inc.rs
//@include squash_base.inc.rs
//@include syncschema.inc.rs
//@include plan_base.inc.rs
//@extract src/sync/planner.rs | const LOWER_REL | plain
//@end
//@extract src/sync/planner.rs | const UPPER_REL | plain
//@end
//@extract src/sync/planner.rs | const UPSERT_COL | plain
//@end
//@extract src/sync/schema/merge.rs | enum MergeProjection
//@end
//@extract src/sync/schema/merge.rs | enum SyncPosition | derive=PartialEq,Eq,Structural
//@end
//@include plan_merge.inc.rs
//@extract src/sync/schema/join.rs | fn join_old_pk_column | try=rx_from_err
//@contract
    requires ready(*upper_schema), lower_old_pk_col.role == ColumnRole::OldPk, hasc(shape(*upper_schema), ColumnRole::OldPk, lower_old_pk_col.name@)
    ensures r matches Ok(x) ==> forall|lo: SyncSchema| #[trigger] member(lo, *lower_old_pk_col) ==> good(lo, *upper_schema, ColumnRole::OldPk, lower_old_pk_col.name@, x), // old key
//@entry
    proof { names(); }
//@end
//@extract src/sync/schema/join.rs | fn join_new_pk_column | try=rx_from_err
//@contract
    requires ready(*upper_schema), lower_new_pk_col.role == ColumnRole::NewPk, hasc(shape(*upper_schema), ColumnRole::NewPk, lower_new_pk_col.name@)
    ensures r matches Ok(x) ==> forall|lo: SyncSchema| #[trigger] member(lo, *lower_new_pk_col) ==> good(lo, *upper_schema, ColumnRole::NewPk, lower_new_pk_col.name@, x), // new key
//@entry
    proof { names(); }
//@end
//@extract src/sync/schema/join.rs | fn join_changed_column | try=rx_from_err
//@contract
    requires ready(*other_schema), this_changed_col.role == ColumnRole::Changed, sync_position is Upper ==> !hasc(shape(*other_schema), ColumnRole::Changed, this_changed_col.name@)
    ensures r matches Ok(x) ==> forall|s: SyncSchema| #[trigger] member(s, *this_changed_col) && ready(s) ==> good_at(s, *other_schema, sync_position, ColumnRole::Changed, this_changed_col.name@, x), // flag
//@entry
    proof { names(); flag_of(*this_changed_col); }
//@end
//@extract src/sync/schema/join.rs | fn join_value_column | try=rx_from_err
//@types
IndexSet<ColumnDescriptor> => IndexSet<ColumnDescriptor>
//@contract
    requires ready(*other_schema), ready(*this_schema), this_value_col.role == ColumnRole::Value, member(*this_schema, *this_value_col),
        sync_position is Upper ==> !hasc(shape(*other_schema), ColumnRole::Value, this_value_col.name@)
    ensures r matches Ok(x) ==> good_at(*this_schema, *other_schema, sync_position, ColumnRole::Value, this_value_col.name@, x), // value
        r is Ok && !needs_flag(*this_schema, *other_schema, this_value_col.name@) ==> *final(col_desc) == *old(col_desc) && final(projection)@ == old(projection)@, // no flag
        r is Ok && needs_flag(*this_schema, *other_schema, this_value_col.name@) ==> inserted(old(col_desc)@, final(col_desc)@, (2i32, this_value_col.name@))
            && exists|f: Expr| final(projection)@ == old(projection)@.push(f) && #[trigger] good_at(*this_schema, *other_schema, sync_position, ColumnRole::Changed, this_value_col.name@, f), // its flag
//@entry
    proof { names(); lemma_member(*this_schema, *this_value_col); lemma_flags(*this_schema); lemma_flags(*other_schema); }
//@exit
    proof { if needs_flag(*this_schema, *other_schema, this_value_col.name@) { let f = projection@.last(); assert(projection@ =~= old(projection)@.push(f)); assert(good_at(*this_schema, *other_schema, sync_position, ColumnRole::Changed, this_value_col.name@, f)); } }
//@end
//@extract src/sync/schema/union.rs | fn union_pk_column
//@contract
    requires ready(*upper_schema), lower_pk_col.role == ColumnRole::OldPk || lower_pk_col.role == ColumnRole::NewPk, hasc(shape(*upper_schema), lower_pk_col.role, lower_pk_col.name@)
    ensures forall|lo: SyncSchema| #[trigger] member(lo, *lower_pk_col) ==> ugood(lo, *upper_schema, lower_pk_col.role, lower_pk_col.name@, r.0, r.1), // keys
//@entry
    proof { names(); }
//@end
//@extract src/sync/schema/union.rs | fn union_changed_column
//@contract
    requires ready(*other_schema), this_changed_col.role == ColumnRole::Changed, sync_position is Upper ==> !hasc(shape(*other_schema), ColumnRole::Changed, this_changed_col.name@)
    ensures forall|s: SyncSchema| #[trigger] member(s, *this_changed_col) && ready(s) ==> ugood_at(s, *other_schema, sync_position, ColumnRole::Changed, this_changed_col.name@, r.0, r.1), // flag
//@entry
    proof { names(); flag_of(*this_changed_col); lemma_flags(*other_schema); }
//@end
//@extract src/sync/schema/union.rs | fn union_value_column | try=rx_from_err
//@contract
    requires ready(*other_schema), ready(*this_schema), this_value_col.role == ColumnRole::Value, member(*this_schema, *this_value_col),
        sync_position is Upper ==> !hasc(shape(*other_schema), ColumnRole::Value, this_value_col.name@)
    ensures r matches Ok(x) ==> ugood_at(*this_schema, *other_schema, sync_position, ColumnRole::Value, this_value_col.name@, x.0, x.1), // value
        r is Ok && !needs_flag(*this_schema, *other_schema, this_value_col.name@) ==> *final(col_desc) == *old(col_desc) && final(lower)@ == old(lower)@ && final(upper)@ == old(upper)@, // no flag
        r is Ok && needs_flag(*this_schema, *other_schema, this_value_col.name@) ==> inserted(old(col_desc)@, final(col_desc)@, (2i32, this_value_col.name@))
            && exists|f: Expr, g: Expr| final(lower)@ == old(lower)@.push(f) && final(upper)@ == old(upper)@.push(g) && #[trigger] ugood_at(*this_schema, *other_schema, sync_position, ColumnRole::Changed, this_value_col.name@, f, g), // its flag
//@entry
    proof { names(); lemma_member(*this_schema, *this_value_col); lemma_flags(*this_schema); lemma_flags(*other_schema); }
//@exit
    proof { if needs_flag(*this_schema, *other_schema, this_value_col.name@) { let f = lower@.last(); let g = upper@.last(); assert(lower@ =~= old(lower)@.push(f)); assert(upper@ =~= old(upper)@.push(g)); assert(ugood_at(*this_schema, *other_schema, sync_position, ColumnRole::Changed, this_value_col.name@, f, g)); } }
//@end
impl SyncColumn {
//@extract src/sync/schema/mod.rs | impl SyncColumn :: canonical_field_name
//@methods
as_str_name/0 => rx_role_name
to_lowercase/0 => rx_lower
//@contract
    ensures r@ == canonical(role, name@), // name
//@end
//@extract src/sync/schema/mod.rs | impl SyncColumn :: column_descriptor
//@methods
to_string/0 => rx_text_string
//@contract
    ensures cdv(r) == cd_of(*self), // descriptor
//@end
}
impl MergeProjection {
//@extract src/sync/schema/merge.rs | impl MergeProjection :: new_join
//@contract
    ensures r matches MergeProjection::Join(p) && p@.len() == 0, // empty
//@end
//@extract src/sync/schema/merge.rs | impl MergeProjection :: new_union
//@contract
    ensures r matches MergeProjection::Union(a, b) && a@.len() == 0 && b@.len() == 0, // empty
//@end
//@extract src/sync/schema/merge.rs | impl MergeProjection :: join
//@contract
    requires self is Join
    ensures self matches MergeProjection::Join(p) && r == p, // it
//@end
//@extract src/sync/schema/merge.rs | impl MergeProjection :: union
//@contract
    requires self is Union
    ensures self matches MergeProjection::Union(a, b) && r.0 == a && r.1 == b, // both
//@end
}
//@extract src/sync/schema/merge.rs | fn merge_schemas | inline forchain try=rx_from_err
//@calls
std::mem::take => rx_take
//@contract
    requires ready(*lower_schema), ready(*upper_schema), same_pks(*lower_schema, *upper_schema), nothing_yet(merge)
    ensures r matches Ok(x) ==> x.1 is Join == merge is Join && good_all(x.1, *lower_schema, *upper_schema, cds(x.0@)) && once(cds(x.0@)), // cells
        r matches Ok(x) ==> forall|role: ColumnRole, n: Seqc| #[trigger] cds(x.0@).contains((rolei(role), n)) == wanted(*lower_schema, *upper_schema, role, n), // columns
        r matches Ok(x) ==> named_all(x.1, cds(x.0@)), // names
//@entry
    proof { names(); }
    let ghost jn = merge is Join;
//@loop 0
    invariant
        ready(*lower_schema), ready(*upper_schema), same_pks(*lower_schema, *upper_schema),
        __it0.all().len() == lower_schema.columns@.len(), forall|i: int| 0 <= i < lower_schema.columns@.len() ==> #[trigger] __it0.all()[i] == &lower_schema.columns@[i], 0 <= __it0.pos() <= __it0.all().len(),
        merged_so_far(merge, *lower_schema, *upper_schema, col_desc@, jn),
        forall|c: Cd| #[trigger] col_desc@.contains(c) == from(*lower_schema, *upper_schema, __it0.pos(), c),
    ensures __it0.pos() == lower_schema.columns@.len(),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    let ghost k0 = __it0.pos(); let ghost c0 = col_desc@;
    proof { if k0 < lower_schema.columns@.len() { lemma_from(*lower_schema, *upper_schema, k0); lemma_flags(*lower_schema); lemma_flags(*upper_schema); } }
//@tail 0
    proof {
        let x = *lower_sync_col; lemma_rolei(x.role); lemma_pushed(c0); lemma_pushed(c0.push((2i32, x.name@)));
        assert(x == lower_schema.columns@[k0]);
        if x.role == ColumnRole::Value && needs_flag(*lower_schema, *upper_schema, x.name@) {
            assert(!c0.contains((2i32, x.name@)));
            assert(col_desc@ == c0.push((2i32, x.name@)).push(cd_of(x)));
        } else { assert(col_desc@ == c0.push(cd_of(x))); }
    }
//@loop 1
    invariant
        ready(*lower_schema), ready(*upper_schema), same_pks(*lower_schema, *upper_schema),
        __it1.all().len() == upper_schema.columns@.len(), forall|i: int| 0 <= i < upper_schema.columns@.len() ==> #[trigger] __it1.all()[i] == &upper_schema.columns@[i], 0 <= __it1.pos() <= __it1.all().len(),
        merged_so_far(merge, *lower_schema, *upper_schema, col_desc@, jn),
        forall|c: Cd| #[trigger] col_desc@.contains(c) == (from(*lower_schema, *upper_schema, lower_schema.columns@.len() as int, c) || from(*upper_schema, *lower_schema, __it1.pos(), c)),
    ensures __it1.pos() == upper_schema.columns@.len(),
    decreases __it1.all().len() - __it1.pos(),
//@body 1
    let ghost k1 = __it1.pos(); let ghost c1 = col_desc@;
    proof { if k1 < upper_schema.columns@.len() { let x = upper_schema.columns@[k1]; lemma_from(*upper_schema, *lower_schema, k1); lemma_flags(*lower_schema); lemma_flags(*upper_schema); lemma_rolei(x.role); lemma_upper(*lower_schema, *upper_schema, x); } }
//@tail 1
    proof {
        let x = *upper_sync_col; lemma_rolei(x.role); lemma_pushed(c1); lemma_pushed(c1.push((2i32, x.name@)));
        assert(x == upper_schema.columns@[k1]);
        if x.role == ColumnRole::Value && needs_flag(*upper_schema, *lower_schema, x.name@) {
            assert(!c1.contains((2i32, x.name@)));
            assert(col_desc@ == c1.push((2i32, x.name@)).push(cd_of(x)));
        } else { assert(col_desc@ == c1.push(cd_of(x))); }
    }
//@loop 2
    invariant
        __it2.all() == col_desc.list(), 0 <= __it2.pos() <= __it2.all().len(), __acc2@ =~= __it2.all().take(__it2.pos()),
    ensures __it2.pos() == __it2.all().len(), cds(__acc2@) =~= col_desc@,
    decreases __it2.all().len() - __it2.pos(),
//@loop 3
    invariant
        __len3 == col_desc@.len(), projection@.len() == col_desc@.len(), __ix3 <= __len3,
        forall|k: int| 0 <= k < col_desc@.len() ==> known_cd(#[trigger] cds(col_desc@)[k]),
        forall|k: int| 0 <= k < col_desc@.len() ==> good(*lower_schema, *upper_schema, crole(cds(col_desc@)[k]), cds(col_desc@)[k].1, #[trigger] projection@[k]),
        forall|k: int| 0 <= k < __ix3 ==> aliased(#[trigger] projection@[k], cds(col_desc@)[k]),
    ensures __ix3 == __len3,
    decreases __len3 - __ix3,
//@body 3
    proof { if __ix3 < __len3 { assert(known_cd(cds(col_desc@)[__ix3 as int])); } }
//@loop 4
    invariant
        __len4 == col_desc@.len(), lower@.len() == col_desc@.len(), __ix4 <= __len4,
        forall|k: int| 0 <= k < col_desc@.len() ==> known_cd(#[trigger] cds(col_desc@)[k]),
        forall|k: int| 0 <= k < col_desc@.len() ==> ugood_l(*lower_schema, *upper_schema, crole(cds(col_desc@)[k]), cds(col_desc@)[k].1, #[trigger] lower@[k]),
        forall|k: int| 0 <= k < __ix4 ==> aliased(#[trigger] lower@[k], cds(col_desc@)[k]),
    ensures __ix4 == __len4,
    decreases __len4 - __ix4,
//@body 4
    proof { if __ix4 < __len4 { assert(known_cd(cds(col_desc@)[__ix4 as int])); } }
//@loop 5
    invariant
        __len5 == col_desc@.len(), upper@.len() == col_desc@.len(), __ix5 <= __len5,
        forall|k: int| 0 <= k < col_desc@.len() ==> known_cd(#[trigger] cds(col_desc@)[k]),
        forall|k: int| 0 <= k < col_desc@.len() ==> ugood_u(*lower_schema, *upper_schema, crole(cds(col_desc@)[k]), cds(col_desc@)[k].1, #[trigger] upper@[k]),
        forall|k: int| 0 <= k < __ix5 ==> aliased(#[trigger] upper@[k], cds(col_desc@)[k]),
    ensures __ix5 == __len5,
    decreases __len5 - __ix5,
//@body 5
    proof { if __ix5 < __len5 { assert(known_cd(cds(col_desc@)[__ix5 as int])); } }
//@exit
    proof {
        assert forall|role: ColumnRole, n: Seqc| #[trigger] cds(col_desc@).contains((rolei(role), n)) == wanted(*lower_schema, *upper_schema, role, n) by { lemma_wanted(*lower_schema, *upper_schema, role, n); }
    }
//@end
//@include plan_rel.inc.rs
//@include plan_item.inc.rs
//@include plan_norm.inc.rs
//@include plan_apply.inc.rs
#[verifier::external_body] pub struct TxIds { p: u8 }
//@extract src/sync/writer.rs | struct DataSyncItem
//@types
Vec<Uuid> => TxIds
//@end
impl SeafowlSyncPlanner {
//@extract src/sync/planner.rs | impl SeafowlSyncPlanner :: project_expressions | resmap try=rx_from_err
//@calls
Arc::new => rx_plan_ref
//@contract
    ensures r matches Ok(p) ==> p.rel() == projected(plan.rel(), projection@) && uniq(p.rel().cols), // projection
//@end
//@extract src/sync/planner.rs | impl SeafowlSyncPlanner :: add_sync_flag
//@calls
Expr::Column => rx_expr_col
//@contract
    ensures r@.len() == schema.cols().len() + 1, flagged_exprs(r@, schema.cols(), sync@), // all
//@loop 0
    invariant
        crefs(__it0.all()) == schema.cols(), 0 <= __it0.pos() <= __it0.all().len(), __acc0@.len() == __it0.pos(),
        forall|i: int| 0 <= i < __it0.pos() ==> col_expr(#[trigger] __acc0@[i], crefs(__it0.all())[i]),
    ensures __it0.pos() == __it0.all().len(),
    decreases __it0.all().len() - __it0.pos(),
//@end
//@extract src/sync/planner.rs | impl SeafowlSyncPlanner :: union_syncs | try=rx_from_err
//@methods
clone/0 => rx_own
//@contract
    requires fits(*lower_schema, lower_plan.rel(), low()), fits(*upper_schema, upper_plan.plan.rel(), upp()), same_pks(*lower_schema, *upper_schema)
    ensures r matches Ok(x) ==> put_items(*lower_schema, lower_plan.rel(), *upper_schema, upper_plan.plan.rel(), x.0, x.1.rel()), // rows
//@entry
    proof { names(); lemma_union_all(*lower_schema, lower_plan.rel(), *upper_schema, upper_plan.plan.rel()); }
//@end
//@extract src/sync/planner.rs | impl SeafowlSyncPlanner :: join_syncs | resmap try=rx_from_err chainm=map_columns:role_columns
//@methods
clone/0 => rx_own
//@vars
__acc1 => Vec<(Column, Column)>
__acc0_0 => Vec<Column>
__acc0_1 => Vec<Column>
//@contract
    requires fits(*lower_schema, lower_plan.rel(), low()), fits(*upper_schema, upper_plan.plan.rel(), upp()), same_pks(*lower_schema, *upper_schema)
    ensures r matches Ok(x) ==> chained_items(*lower_schema, lower_plan.rel(), *upper_schema, upper_plan.plan.rel(), x.0, x.1.rel()), // rows
//@entry
    proof { names(); lemma_join_all(*lower_schema, lower_plan.rel(), *upper_schema, upper_plan.plan.rel()); }
//@loop 1
    invariant
        ready(*lower_schema), ready(*upper_schema), same_pks(*lower_schema, *upper_schema), is_role(*upper_schema, ColumnRole::OldPk, __it1.all()),
        0 <= __it1.pos() <= __it1.all().len(), __acc1@.len() == __it1.pos(),
        forall|i: int| 0 <= i < __it1.pos() ==> key_pair_of(*lower_schema, *upper_schema, (#[trigger] __it1.all()[i]).name@, __acc1@[i].0@, __acc1@[i].1@),
    ensures __it1.pos() == __it1.all().len(), pairs_ok(*lower_schema, *upper_schema, __acc1@),
    decreases __it1.all().len() - __it1.pos(),
//@body 1
    proof { if __it1.pos() < __it1.all().len() { lemma_key(*lower_schema, *upper_schema, __it1.all(), __it1.pos()); } else { lemma_pairs(*lower_schema, *upper_schema, __it1.all(), __acc1@); } }
//@loop 0
    invariant
        pairs_ok(*lower_schema, *upper_schema, __it0.all()), 0 <= __it0.pos() <= __it0.all().len(), __acc0_0@.len() == __it0.pos(), __acc0_1@.len() == __it0.pos(),
        forall|i: int| 0 <= i < __it0.pos() ==> __acc0_0@[i] == (#[trigger] __it0.all()[i]).0 && __acc0_1@[i] == __it0.all()[i].1,
    ensures key_pairs(*lower_schema, *upper_schema, crefs(__acc0_0@), crefs(__acc0_1@)),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof { if __it0.pos() == __it0.all().len() { lemma_unzip(*lower_schema, *upper_schema, __it0.all(), __acc0_0@, __acc0_1@); } }
//@end
//@extract src/sync/planner.rs | impl SeafowlSyncPlanner :: merge_syncs | streq try=rx_from_err
//@methods
clone/0 => rx_own
schema/0 => rx_schema
//@calls
Arc::new => rx_arc
//@vars
__acc0 => Option<bool>
//@contract
    requires fits(*lower_schema, lower_plan.rel(), low()), holds(*upper_schema, upper_data), same_pks(*lower_schema, *upper_schema)
    ensures r matches Ok(x) ==> squashed2(*lower_schema, lower_plan.rel(), *upper_schema, data_rel(upp(), upper_data), x.0, x.1.rel()), // rows
//@entry
    proof { names(); lemma_has_old(*upper_schema); lemma_merge_all(*lower_schema, lower_plan.rel(), *upper_schema, upper_data); lemma_one(upper_data); }
//@loop 0
    invariant_except_break
        __acc0 is None, forall|i: int| 0 <= i < __it0.pos() ==> (#[trigger] upper_schema.columns@[i]).role != ColumnRole::OldPk,
    invariant
        holds(*upper_schema, upper_data), exists|k: int| 0 <= k < upper_schema.columns@.len() && (#[trigger] upper_schema.columns@[k]).role == ColumnRole::OldPk,
        0 <= __it0.pos() <= __it0.all().len(), __it0.all().len() == upper_schema.columns@.len(), forall|i: int| 0 <= i < upper_schema.columns@.len() ==> #[trigger] __it0.all()[i] == &upper_schema.columns@[i],
    ensures __acc0 matches Some(f) && old_null(*upper_schema, upper_data, f),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof { let k = __it0.pos(); if k < __it0.all().len() { assert(upper_schema.columns@[k] == __it0.all()[k]); assert(upper_data.s.f@[k].fname() == upper_schema.columns@[k].field.fname()); } }
//@end
//@extract src/sync/planner.rs | impl SeafowlSyncPlanner :: squash_syncs | try=rx_from_err
//@methods
clone/0 => rx_own
schema/0 => rx_schema
//@calls
Arc::new => rx_arc
//@types
&[DataSyncItem] => &Vec<DataSyncItem>
//@index
syncs => rx_slice_from
//@contract
    requires flushable(syncs@)
    ensures r matches Ok(x) ==> squashed(syncs@, x.0, x.1.rel()) && fits(x.0, x.1.rel(), low()) && same_pks(syncs@[0].sync_schema, x.0), // rows
//@entry
    proof { names(); lemma_squash_first(syncs@); lemma_one(syncs@[0].data@[0]); assert(syncs@.take(syncs@.len() as int) =~= syncs@); }
//@loop 0
    invariant
        flushable(syncs@), 0 <= __it0.pos() <= __it0.all().len(), __it0.all().len() == syncs@.len() - 1, forall|i: int| 0 <= i < __it0.all().len() ==> #[trigger] __it0.all()[i] == &syncs@[i + 1],
        squashed_so_far(syncs@, __it0.pos() + 1, sync_schema, sync_plan.rel()),
    ensures __it0.pos() == __it0.all().len(),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof { let k = __it0.pos(); if k < __it0.all().len() { assert(__it0.all()[k] == &syncs@[k + 1]); assert(item_ok(syncs@[k + 1])); lemma_squash_step(syncs@, k + 1, sync_schema, sync_plan.rel()); } }
//@end
//@extract src/sync/planner.rs | impl SeafowlSyncPlanner :: normalize_syncs | streq forchain try=rx_from_err chainm=map_columns:role_columns
//@methods
clone/0 => rx_own
as_ref/0 => rx_asref
iter/0 => rx_slice
//@calls
Arc::new => rx_arc
Default::default => rx_default
//@vars
__acc0 => Vec<(Expr, Expr)>
__acc1 => Option<Expr>
projection => Vec<Expr>
unnest_cols => Vec<Column>
column_descriptors => Vec<ColumnDescriptor>
//@attr
#[verifier::rlimit(40)]
//@contract
    requires fits(*sync_schema, sync_df.rel(), low()), whole_keys(*sync_schema, sync_df.rel())
    ensures r matches Ok(x) ==> normalized(*sync_schema, sync_df.rel(), x.0, x.1.rel()), // rows
//@entry
    hide(fits); hide(nsofar); hide(normalized); hide(planned); hide(keyed); hide(unnested); hide(pk_pairs); hide(lists); hide(whole_keys); hide(described); hide(kinds);
    proof { names(); reveal(fits); lemma_paired(*sync_schema); lemma_norm_all(*sync_schema, sync_df.rel()); }
    let ghost rel0 = sync_df.rel(); let ghost sch0 = *sync_schema; let ghost mut src: Seq<int> = Seq::empty();
//@after filter
    let ghost frel = sync_df.rel();
    proof { assert(keyed(rel0, pks@, frel)) by { reveal(keyed); assert forall|id: Id| #[trigger] frel.ids.contains(id) == (rel0.ids.contains(id) && has_key(pks@, envof(rel0, id)) == Val::Bool(true)) by { let e = envof(rel0, id); assert(has_key(pks@, e) == not3(and3(Val::Bool(pks@[0].0.ev(e) == Val::Null), Val::Bool(pks@[0].1.ev(e) == Val::Null)))); } } }
//@let pk_changing_update
    proof { assert(kinds(*sync_schema, insert, pk_preserving_update, pk_changing_update, pks@)) by { reveal(kinds); } lemma_nstart(*sync_schema, insert, pk_preserving_update, pk_changing_update); }
//@after into_parts
    let ghost proj0 = projection@; let ghost desc0 = column_descriptors@;
    proof {
        assert(planned(*sync_schema, proj0, unnest_cols@, desc0, src, insert, pk_preserving_update, pk_changing_update, pks@)) by { reveal(planned); lemma_push_drop::<Expr>(); lemma_push_drop::<Column>(); }
    }
//@loop 0
    invariant
        ready(*sync_schema), __it0.all().len() >= 0, is_role(*sync_schema, ColumnRole::OldPk, __it0.all()), 0 <= __it0.pos() <= __it0.all().len(),
        paired(*sync_schema, __acc0@, __it0.all(), __it0.pos()),
    ensures paired(*sync_schema, __acc0@, __it0.all(), __it0.all().len() as int),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    let ghost a0 = __acc0@; let ghost k0 = __it0.pos();
    proof { if k0 < __it0.all().len() { let c = *__it0.all()[k0]; assert(member(*sync_schema, c)); lemma_named(*sync_schema, c); } }
//@tail 0
    proof { assert(__acc0@ == a0.push(__acc0@.last())); }
//@loop 1
    invariant
        __it1.all().len() == pks@.len(), forall|i: int| 0 <= i < pks@.len() ==> #[trigger] __it1.all()[i] == &pks@[i], 0 <= __it1.pos() <= __it1.all().len(),
        __acc1 matches Some(x) ==> __it1.pos() > 0 && forall|e: Env| #[trigger] x.ev(e) == conj(pks@, e, __it1.pos()),
        __acc1 is None ==> __it1.pos() == 0,
    ensures __it1.pos() == pks@.len(),
    decreases __it1.all().len() - __it1.pos(),
//@loop 2
    invariant
        ready(*sync_schema), __it2.all().len() == sync_schema.columns@.len(), forall|i: int| 0 <= i < sync_schema.columns@.len() ==> #[trigger] __it2.all()[i] == &sync_schema.columns@[i], 0 <= __it2.pos() <= __it2.all().len(),
        nsofar(*sync_schema, __it2.pos(), src, projection@, column_descriptors@, unnest_cols@, insert, pk_preserving_update, pk_changing_update),
    ensures __it2.pos() == sync_schema.columns@.len(),
    decreases __it2.all().len() - __it2.pos(),
//@body 2
    let ghost k2 = __it2.pos(); let ghost src0 = src; let ghost p0 = projection@; let ghost d0 = column_descriptors@; let ghost u0 = unnest_cols@;
    proof { if k2 < sync_schema.columns@.len() { lemma_named(*sync_schema, sync_schema.columns@[k2]); } }
//@tail 2
    proof { lemma_rolei(sync_col.role); lemma_nstep(*sync_schema, k2, src0, p0, d0, u0, insert, pk_preserving_update, pk_changing_update, projection@, column_descriptors@, unnest_cols@); if sync_col.role != ColumnRole::NewPk { src = src.push(k2); } }
//@end
//@extract src/sync/planner.rs | impl SeafowlSyncPlanner :: apply_syncs | streq resmap try=rx_from_err chainm=map_columns:role_columns
//@methods
clone/0 => rx_own
or/1 => rx_or
//@types
SchemaRef => Schema
//@vars
__err4 => Option<LibError>
__acc0_0 => Vec<String>
__acc0_1 => Vec<String>
__acc1 => Vec<(String, String)>
__acc2 => Vec<&str>
__acc3 => Vec<&str>
__acc4 => Vec<Expr>
//@attr
#[verifier::rlimit(40)]
//@contract
    requires table_ok(full_schema, base_df.rel()), fits_norm(*sync_schema, sync_df.rel()), told(*sync_schema, sync_df.rel()), keys_there(full_schema, *sync_schema)
    ensures r matches Ok(x) ==> applied(full_schema, base_df.rel(), *sync_schema, sync_df.rel(), x.rel()), // rows
//@entry
    proof { names(); lemma_apply_all(full_schema, base_df.rel(), *sync_schema, sync_df.rel()); }
//@loop 1
    invariant
        places(*sync_schema), is_role(*sync_schema, ColumnRole::NewPk, __it1.all()), 0 <= __it1.pos() <= __it1.all().len(), __acc1@.len() == __it1.pos(),
        forall|i: int| 0 <= i < __it1.pos() ==> apair(*sync_schema, (#[trigger] __it1.all()[i]).name@, __acc1@[i]),
    ensures __it1.pos() == __it1.all().len(), apairs(*sync_schema, __acc1@),
    decreases __it1.all().len() - __it1.pos(),
//@body 1
    proof { if __it1.pos() < __it1.all().len() { lemma_apply_named(*sync_schema, *__it1.all()[__it1.pos()]); } else { lemma_apairs(*sync_schema, __it1.all(), __acc1@); } }
//@loop 0
    invariant
        apairs(*sync_schema, __it0.all()), 0 <= __it0.pos() <= __it0.all().len(), __acc0_0@.len() == __it0.pos(), __acc0_1@.len() == __it0.pos(),
        forall|i: int| 0 <= i < __it0.pos() ==> __acc0_0@[i] == (#[trigger] __it0.all()[i]).0 && __acc0_1@[i] == __it0.all()[i].1,
    ensures akeys(*sync_schema, strs(__acc0_0@), strs(__acc0_1@)),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof { if __it0.pos() == __it0.all().len() { lemma_akeys(*sync_schema, __it0.all(), __acc0_0@, __acc0_1@); } }
//@loop 2
    invariant
        akeys(*sync_schema, strs(base_pk_cols@), strs(sync_pk_cols@)), __it2.all().len() == base_pk_cols@.len(), forall|i: int| 0 <= i < base_pk_cols@.len() ==> #[trigger] __it2.all()[i] == &base_pk_cols@[i], 0 <= __it2.pos() <= __it2.all().len(),
        __acc2@.len() == __it2.pos(), forall|i: int| 0 <= i < __it2.pos() ==> parsed((#[trigger] __acc2@[i])@) == strs(base_pk_cols@)[i] && akey(*sync_schema, strs(base_pk_cols@)[i], strs(sync_pk_cols@)[i]),
    ensures __acc2@.len() == base_pk_cols@.len(), parsed_all(__acc2@) =~= strs(base_pk_cols@),
    decreases __it2.all().len() - __it2.pos(),
//@loop 3
    invariant
        __it3.all().len() == sync_pk_cols@.len(), forall|i: int| 0 <= i < sync_pk_cols@.len() ==> #[trigger] __it3.all()[i] == &sync_pk_cols@[i], 0 <= __it3.pos() <= __it3.all().len(),
        __acc3@.len() == __it3.pos(), forall|i: int| 0 <= i < __it3.pos() ==> parsed((#[trigger] __acc3@[i])@) == strs(sync_pk_cols@)[i],
    ensures parsed_all(__acc3@) =~= strs(sync_pk_cols@),
    decreases __it3.all().len() - __it3.pos(),
//@loop 4
    invariant_except_break
        __err4 is None,
    invariant
        places(*sync_schema), __it4.all().len() == full_schema.f@.len(), forall|i: int| 0 <= i < full_schema.f@.len() ==> **#[trigger] __it4.all()[i] == full_schema.f@[i], 0 <= __it4.pos() <= __it4.all().len(),
        __err4 is None ==> aexprs(*sync_schema, full_schema, __acc4@, __it4.pos()),
    ensures __err4 is None ==> aexprs(*sync_schema, full_schema, __acc4@, full_schema.f@.len() as int),
    decreases __it4.all().len() - __it4.pos(),
//@body 4
    proof { names(); let k4 = __it4.pos(); if k4 < __it4.all().len() { assert(**__it4.all()[k4] == full_schema.f@[k4]); } }
//@end
}
//@probe
pub proof fn probe_axioms(e: Env) ensures false { broadcast use ax_parsed; names(); }
//@probe
pub fn probe_merge_fails(a: &SyncSchema, b: &SyncSchema) requires ready(*a), ready(*b), same_pks(*a, *b) { let r = merge_schemas(a, b, MergeProjection::new_join()); assert(r is Err); }
//@probe
pub fn probe_merge_works(a: &SyncSchema, b: &SyncSchema) requires ready(*a), ready(*b), same_pks(*a, *b) { let r = merge_schemas(a, b, MergeProjection::new_union()); assert(r is Ok); }
//@probe
pub fn probe_merge_empty(a: &SyncSchema, b: &SyncSchema) requires ready(*a), ready(*b), same_pks(*a, *b) { let r = merge_schemas(a, b, MergeProjection::new_join()); assert(r matches Ok(x) ==> x.0@.len() == 0); }
//@probe
pub fn probe_squash(p: &SeafowlSyncPlanner, v: &Vec<DataSyncItem>) requires flushable(v@) { let r = p.squash_syncs(v); assert(r is Err); }
//@probe
pub fn probe_normalize(p: &SeafowlSyncPlanner, s: &SyncSchema, d: DataFrame) requires fits(*s, d.rel(), low()), whole_keys(*s, d.rel()) { let r = p.normalize_syncs(s, d); assert(r is Err); }
//@probe
pub fn probe_normalize_rows(p: &SeafowlSyncPlanner, s: &SyncSchema, d: DataFrame) requires fits(*s, d.rel(), low()), whole_keys(*s, d.rel()) { let r = p.normalize_syncs(s, d); assert(r matches Ok(x) ==> forall|id: Id| !x.1.rel().ids.contains(id)); }
//@probe
pub fn probe_apply(p: &SeafowlSyncPlanner, t: Schema, b: DataFrame, d: DataFrame, s: &SyncSchema) requires table_ok(t, b.rel()), fits_norm(*s, d.rel()), told(*s, d.rel()), keys_there(t, *s) { let r = p.apply_syncs(t, b, d, s); assert(r is Err); }
//@probe
pub fn probe_apply_rows(p: &SeafowlSyncPlanner, t: Schema, b: DataFrame, d: DataFrame, s: &SyncSchema) requires table_ok(t, b.rel()), fits_norm(*s, d.rel()), told(*s, d.rel()), keys_there(t, *s) { let ghost n = b.rel(); let r = p.apply_syncs(t, b, d, s); assert(r matches Ok(x) ==> forall|id: Id| n.ids.contains(id) ==> x.rel().ids.contains(Id::Left(Box::new(id)))); }
}
fn main() {}
