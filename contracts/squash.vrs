use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include strings.inc.rs
//@include iter.inc.rs
//@include squash_spec.inc.rs
//@include squash_base.inc.rs
//@include syncschema.inc.rs
//@extract src/sync/utils.rs | fn squash_batches | inline forchain streq optmap try=rx_from_err
//@types
&[RecordBatch] => &Vec<RecordBatch>
arrow::array::BooleanArray => BooleanArray
//@calls
Arc::new => rx_arc
Fields::from => rx_arc
//@methods
clone/0 => rx_own
first/0 => rx_first
as_any/0 => DROP
downcast_ref/0 => rx_downcast
as_ref/0 => REF
//@vars
__acc0 => Vec<FieldRef>
__acc1_0 => Vec<ArrayRef>
__acc1_1 => Vec<SortField>
__acc1_2 => Vec<ArrayRef>
__acc2 => Vec<ArrayRef>
__acc4_0 => Vec<ArrayRef>
__acc4_1 => Vec<SortField>
__acc4_2 => Vec<ArrayRef>
__acc5 => Vec<&BooleanArray>
__acc8 => Vec<u64>
__acc11 => Vec<UInt64Array>
__acc13 => Vec<ArrayRef>
__err13 => Option<LibError>
//@contract
    requires index_ok(*old(sync_schema)), sensible(shape(*old(sync_schema))), data@.len() > 0, forall|i: int| 0 <= i < data@.len() ==> input_ok(shape(*old(sync_schema)), #[trigger] data@[i]), distinct_names(data@[0].s.f@)
    ensures r matches Ok(b) ==> shape(*final(sync_schema)) == shape(*old(sync_schema)) && batch_ok(b) && b.cols@.len() == shape(*old(sync_schema)).len(), // columns
        r matches Ok(b) ==> same_effect(rowsof(shape(*old(sync_schema)), data@), rows1(shape(*old(sync_schema)), b)), // effect
        r matches Ok(b) ==> no_void(rowsof(shape(*old(sync_schema)), data@), rowsof(shape(*old(sync_schema)), data@).len() as int) ==> no_void(rows1(shape(*old(sync_schema)), b), b.rows as int), // void
//@loop 0
    invariant
        __it0.all().len() == data@[0].s.f@.len(), 0 <= __it0.pos() <= __it0.all().len(), forall|i: int| 0 <= i < data@[0].s.f@.len() ==> #[trigger] __it0.all()[i] == &data@[0].s.f@[i],
        __acc0@.len() == __it0.pos(), forall|i: int| 0 <= i < __acc0@.len() ==> (#[trigger] __acc0@[i]).fname() == data@[0].s.f@[i].fname(),
    ensures __it0.pos() == data@[0].s.f@.len(),
    decreases __it0.all().len() - __it0.pos(),
//@loop 1
    invariant
        setup(shape(*old(sync_schema)), *sync_schema, batch), __it1.all().len() == shape(*old(sync_schema)).len(), 0 <= __it1.pos() <= __it1.all().len(),
        forall|i: int| 0 <= i < shape(*old(sync_schema)).len() ==> #[trigger] __it1.all()[i] == (&sync_schema.columns@[i], &batch.cols@[i]), role == ColumnRole::OldPk,
        __acc1_0@.len() == filt(shape(*old(sync_schema)), role, __it1.pos() as nat).len(), __acc1_2@.len() == __acc1_0@.len(),
        forall|k: int| 0 <= k < __acc1_0@.len() ==> #[trigger] __acc1_0@[k] == batch.cols@[filt(shape(*old(sync_schema)), role, __it1.pos() as nat)[k]],
        role == ColumnRole::Changed ==> forall|k: int| 0 <= k < __acc1_0@.len() ==> bools((#[trigger] __acc1_0@[k])@),
        forall|k: int| 0 <= k < __acc1_2@.len() ==> (#[trigger] __acc1_2@[k])@ == nullkey(1),
    ensures __it1.pos() == shape(*old(sync_schema)).len(),
    decreases __it1.all().len() - __it1.pos(),
//@body 1
    proof { if __it1.pos() < shape(*old(sync_schema)).len() { let i = __it1.pos(); assert(shape(*old(sync_schema))[i] == colv(sync_schema.columns@[i])); } }
//@loop 2
    invariant
        setup(shape(*old(sync_schema)), *sync_schema, batch), __it2.all().len() == shape(*old(sync_schema)).len(), 0 <= __it2.pos() <= __it2.all().len(),
        forall|i: int| 0 <= i < shape(*old(sync_schema)).len() ==> #[trigger] __it2.all()[i] == &sync_schema.columns@[i],
        __acc2@.len() == filt(shape(*old(sync_schema)), ColumnRole::OldPk, __it2.pos() as nat).len(),
        forall|k: int| 0 <= k < __acc2@.len() ==> #[trigger] __acc2@[k] == batch.cols@[pos(shape(*old(sync_schema)), ColumnRole::NewPk, shape(*old(sync_schema))[filt(shape(*old(sync_schema)), ColumnRole::OldPk, __it2.pos() as nat)[k]].name)],
    ensures __it2.pos() == shape(*old(sync_schema)).len(),
    decreases __it2.all().len() - __it2.pos(),
//@body 2
    proof { if __it2.pos() < shape(*old(sync_schema)).len() { let i = __it2.pos(); assert(shape(*old(sync_schema))[i] == colv(sync_schema.columns@[i])); } }
//@loop 3
    invariant_except_break
        __acc3 is None, __k3 == __it3.pos(), forall|i: int| 0 <= i < __it3.pos() ==> !is_at(shape(*old(sync_schema)), ColumnRole::NewPk, old_pk.name@, i),
    invariant
        setup(shape(*old(sync_schema)), *sync_schema, batch), __it3.all().len() == shape(*old(sync_schema)).len(), 0 <= __it3.pos() <= __it3.all().len(), __it3.all().len() <= usize::MAX,
        forall|i: int| 0 <= i < shape(*old(sync_schema)).len() ==> #[trigger] __it3.all()[i] == &sync_schema.columns@[i],
    ensures
        hasc(shape(*old(sync_schema)), ColumnRole::NewPk, old_pk.name@) ==> __acc3 is Some, __acc3 matches Some(p) ==> is_at(shape(*old(sync_schema)), ColumnRole::NewPk, old_pk.name@, p as int),
    decreases __it3.all().len() - __it3.pos(),
//@body 3
    proof { if __it3.pos() < shape(*old(sync_schema)).len() { let i = __it3.pos(); assert(shape(*old(sync_schema))[i] == colv(sync_schema.columns@[i])); assert(is_at(shape(*old(sync_schema)), ColumnRole::NewPk, shape(*old(sync_schema))[i].name, i) || shape(*old(sync_schema))[i].role != ColumnRole::NewPk); } }
//@loop 4
    invariant
        setup(shape(*old(sync_schema)), *sync_schema, batch), __it4.all().len() == shape(*old(sync_schema)).len(), 0 <= __it4.pos() <= __it4.all().len(),
        forall|i: int| 0 <= i < shape(*old(sync_schema)).len() ==> #[trigger] __it4.all()[i] == (&sync_schema.columns@[i], &batch.cols@[i]), role == ColumnRole::Changed,
        __acc4_0@.len() == filt(shape(*old(sync_schema)), role, __it4.pos() as nat).len(), __acc4_2@.len() == __acc4_0@.len(),
        forall|k: int| 0 <= k < __acc4_0@.len() ==> #[trigger] __acc4_0@[k] == batch.cols@[filt(shape(*old(sync_schema)), role, __it4.pos() as nat)[k]],
        role == ColumnRole::Changed ==> forall|k: int| 0 <= k < __acc4_0@.len() ==> bools((#[trigger] __acc4_0@[k])@),
        forall|k: int| 0 <= k < __acc4_2@.len() ==> (#[trigger] __acc4_2@[k])@ == nullkey(1),
    ensures __it4.pos() == shape(*old(sync_schema)).len(),
    decreases __it4.all().len() - __it4.pos(),
//@body 4
    proof { if __it4.pos() < shape(*old(sync_schema)).len() { let i = __it4.pos(); assert(shape(*old(sync_schema))[i] == colv(sync_schema.columns@[i])); } }
//@loop 5
    invariant
        __it5.all().len() == changed_binding@.len(), 0 <= __it5.pos() <= __it5.all().len(), forall|i: int| 0 <= i < changed_binding@.len() ==> #[trigger] __it5.all()[i] == &changed_binding@[i],
        forall|i: int| 0 <= i < changed_binding@.len() ==> bools((#[trigger] changed_binding@[i])@),
        __acc5@.len() == __it5.pos(), forall|i: int| 0 <= i < __acc5@.len() ==> (#[trigger] __acc5@[i])@ == changed_binding@[i]@,
    ensures __it5.pos() == changed_binding@.len(),
    decreases __it5.all().len() - __it5.pos(),
//@loop 6
    invariant
        setup(shape(*old(sync_schema)), *sync_schema, batch), __it6.all().len() == batch.rows, 0 <= __it6.pos() <= __it6.all().len(), __k6 == __it6.pos(),
        forall|i: int| 0 <= i < batch.rows ==> #[trigger] __it6.all()[i] == (row_of(old_pks@[i]), row_of(new_pks@[i])),
        keys_ok(shape(*old(sync_schema)), batch, old_pks@, new_pks@, nulls@), changed_ok(shape(*old(sync_schema)), batch, changed@),
        chain_count == column_rows@.len(), run_ok(shape(*old(sync_schema)), batch, __it6.pos() as nat, column_rows@, pk_chains@, temp_rows@),
    ensures __it6.pos() == batch.rows,
    decreases __it6.all().len() - __it6.pos(),
//@body 6
    let ghost cr0 = column_rows@; let ghost l0 = pk_chains@; let ghost t0 = temp_rows@; let ghost n0 = __it6.pos() as nat; let ghost more = false;
    proof {
        broadcast use ax_row_of;
        if n0 < batch.rows {
            more = l0.dom().contains(old_pks@[n0 as int]);
            assert(old_pks@[n0 as int] == oldk(shape(*old(sync_schema)), table(batch), n0 as int)); assert(new_pks@[n0 as int] == newk(shape(*old(sync_schema)), table(batch), n0 as int));
            if more { assert(cr0[l0[old_pks@[n0 as int]] as int].0 < n0); }
        }
    }
//@tail 6
    proof {
        assert(row_id == n0);
        let r = chg(shape(*old(sync_schema)), table(batch), n0 as int);
        if more {
            let id = l0[r.old] as int;
            assert(pk_chains@ =~= linked(l0, r.old, id as usize, r.new));
            assert(column_rows@[id].1 == n0);
            assert forall|j: int| 0 <= j < all(shape(*old(sync_schema)), ColumnRole::Changed).len() implies #[trigger] column_rows@[id].2@[j] == (if table(batch)[all(shape(*old(sync_schema)), ColumnRole::Changed)[j]][n0 as int] == Val::Bool(true) { n0 as u64 } else { cr0[id].2@[j] }) by { lemma_filt(shape(*old(sync_schema)), ColumnRole::Changed, shape(*old(sync_schema)).len()); };
            assert(oldk(shape(*old(sync_schema)), table(batch), cr0[id].0 as int) == old_pks@[cr0[id].0 as int]);
            assert(temp_rows@ =~= (if isnull(r.new) && isnull(oldk(shape(*old(sync_schema)), table(batch), cr0[id].0 as int)) { t0.insert(id as usize) } else { t0 }));
            lemma_run_more(shape(*old(sync_schema)), batch, n0, cr0, l0, t0, column_rows@, pk_chains@, temp_rows@);
        } else {
            assert(l0.remove(r.old) =~= l0);
            assert(pk_chains@ =~= linked(l0, r.old, cr0.len() as usize, r.new));
            assert(column_rows@[cr0.len() as int].2@ =~= Seq::new(all(shape(*old(sync_schema)), ColumnRole::Changed).len(), |j: int| n0 as u64));
            lemma_run_new(shape(*old(sync_schema)), batch, n0, cr0, l0, t0, column_rows@, pk_chains@);
        }
    }
//@loop 7
    invariant
        setup(shape(*old(sync_schema)), *sync_schema, batch), changed_ok(shape(*old(sync_schema)), batch, changed@), row_id < batch.rows, chain_id < cr0.len(), column_rows@.len() == cr0.len(),
        cr0[chain_id as int].2@.len() == changed@.len(), __len7 == changed@.len(), __ix7 <= __len7,
        forall|k: int| 0 <= k < cr0.len() && k != chain_id ==> column_rows@[k] == #[trigger] cr0[k],
        column_rows@[chain_id as int].0 == cr0[chain_id as int].0, column_rows@[chain_id as int].1 == row_id, column_rows@[chain_id as int].2@.len() == cr0[chain_id as int].2@.len(),
        forall|j: int| 0 <= j < __len7 ==> #[trigger] column_rows@[chain_id as int].2@[j] == (if j < __ix7 && batch.cols@[all(shape(*old(sync_schema)), ColumnRole::Changed)[j]]@[row_id as int] == Val::Bool(true) { row_id as u64 } else { cr0[chain_id as int].2@[j] }),
    ensures __ix7 == __len7,
    decreases __len7 - __ix7,
//@body 7
    proof { if __ix7 < __len7 { assert(bools(changed@[__ix7 as int]@)); assert(changed@[__ix7 as int]@[row_id as int] is Bool); } }
//@loop 8
    invariant
        __it8.all().len() == changed@.len(), 0 <= __it8.pos() <= __it8.all().len(), __acc8@ == Seq::new(__it8.pos() as nat, |j: int| row_id as u64),
    ensures __it8.pos() == changed@.len(),
    decreases __it8.all().len() - __it8.pos(),
//@body 8
    proof { assert(Seq::new(__it8.pos() as nat, |j: int| row_id as u64).push(row_id as u64) =~= Seq::new((__it8.pos() + 1) as nat, |j: int| row_id as u64)); }
//@after concat_batches
    let ghost big = batch; let ghost sch = schema;
    proof {
        let sh = shape(*old(sync_schema));
        lemma_cat(sh, data@);
        assert(data@[0].s.f@.len() == sh.len()) by { assert(input_ok(sh, data@[0])); };
        assert(batch_ok(batch));
        assert forall|p: int| 0 <= p < sh.len() && (#[trigger] sh[p]).role == ColumnRole::Changed implies bools(batch.cols@[p]@) by { assert(batch.cols@[p]@ == catcol(data@, p)); };
        assert(shape(*sync_schema) == sh);
        assert(index_ok(*sync_schema));
        assert(setup(sh, *sync_schema, batch));
        assert(table(batch) =~= cat(data@, sh.len()));
        assert(rows1(sh, batch) =~= rowsof(sh, data@));
        assert(distinct_names(schema.f@));
    }
//@after num_rows
    proof {
        let sh = shape(*old(sync_schema)); let t = table(batch); let o = all(sh, ColumnRole::OldPk);
        lemma_filt(sh, ColumnRole::OldPk, sh.len()); lemma_filt(sh, ColumnRole::Changed, sh.len());
        assert(old_pk_cols@[0] == batch.cols@[o[0]]);
        assert(old_pks@.len() == batch.rows);
        assert forall|c: int| 0 <= c < o.len() implies is_at(sh, ColumnRole::NewPk, sh[#[trigger] o[c]].name, pos(sh, ColumnRole::NewPk, sh[o[c]].name)) by { assert(sh[o[c]].role == ColumnRole::OldPk); assert(hasc(sh, ColumnRole::NewPk, sh[o[c]].name)); };
        assert(is_at(sh, ColumnRole::NewPk, sh[o[0]].name, pos(sh, ColumnRole::NewPk, sh[o[0]].name)));
        assert(new_pk_cols@[0]@.len() == batch.rows);
        assert(nulls@ =~= nullkey(o.len()));
        assert forall|i: int| 0 <= i < batch.rows implies #[trigger] old_pks@[i] == oldk(sh, t, i) by { assert(old_pks@[i] =~= oldk(sh, t, i)); };
        assert forall|i: int| 0 <= i < batch.rows implies #[trigger] new_pks@[i] == newk(sh, t, i) by { assert(new_pks@[i] =~= newk(sh, t, i)); };
        assert(keys_ok(sh, batch, old_pks@, new_pks@, nulls@));
        assert forall|j: int| 0 <= j < changed@.len() implies (#[trigger] changed@[j])@ == batch.cols@[all(sh, ColumnRole::Changed)[j]]@ && bools(changed@[j]@) && changed@[j]@.len() == batch.rows by { let p = all(sh, ColumnRole::Changed)[j]; assert(sh[p].role == ColumnRole::Changed); };
        assert(changed_ok(sh, batch, changed@));
        assert(column_rows@ =~= Seq::empty());
    }
//@after len
    let ghost crs = column_rows@; let ghost w = changed@.len();
//@loop 9
    invariant
        __it9.all() == crs, 0 <= __it9.pos() <= __it9.all().len(), __k9 == __it9.pos(), crs.len() <= usize::MAX, chains_ok(crs, batch.rows as int, w), changed_rows@.len() == w,
        old_pks@ == Seq::new(kept(temp_rows@, __it9.pos() as nat).len(), |i: int| crs[kept(temp_rows@, __it9.pos() as nat)[i]].0),
        new_pks@ == Seq::new(kept(temp_rows@, __it9.pos() as nat).len(), |i: int| crs[kept(temp_rows@, __it9.pos() as nat)[i]].1),
        forall|j: int| 0 <= j < w ==> (#[trigger] changed_rows@[j])@ == Seq::new(kept(temp_rows@, __it9.pos() as nat).len(), |i: int| crs[kept(temp_rows@, __it9.pos() as nat)[i]].2@[j]),
    ensures __it9.pos() == crs.len(),
    decreases __it9.all().len() - __it9.pos(),
//@body 9
    let ghost chr0 = changed_rows@; let ghost k0 = kept(temp_rows@, __it9.pos() as nat); let ghost o0 = old_pks@; let ghost p0 = new_pks@; let ghost q0 = __it9.pos();
//@tail 9
    proof {
        let k1 = kept(temp_rows@, (q0 + 1) as nat);
        assert(k1 == k0.push(q0));
        assert(old_pks@ =~= Seq::new(k1.len(), |i: int| crs[k1[i]].0));
        assert(new_pks@ =~= Seq::new(k1.len(), |i: int| crs[k1[i]].1));
        assert forall|j: int| 0 <= j < w implies (#[trigger] changed_rows@[j])@ == Seq::new(k1.len(), |i: int| crs[k1[i]].2@[j]) by { assert(chr0[j]@.len() == k0.len()); assert(changed_rows@[j]@ =~= Seq::new(k1.len(), |i: int| crs[k1[i]].2@[j])); };
    }
//@loop 10
    invariant
        __it10.all().len() == changed_row@.len(), 0 <= __it10.pos() <= __it10.all().len(), forall|i: int| 0 <= i < changed_row@.len() ==> #[trigger] __it10.all()[i] == &changed_row@[i],
        __k10 == __it10.pos(), __it10.all().len() <= usize::MAX, changed_row@.len() == w, changed_rows@.len() == w, chr0.len() == w,
        forall|j: int| 0 <= j < w ==> (#[trigger] changed_rows@[j])@ == (if j < __it10.pos() { chr0[j]@.push(changed_row@[j]) } else { chr0[j]@ }),
    ensures __it10.pos() == w,
    decreases __it10.all().len() - __it10.pos(),
//@loop 11
    invariant
        __it11.all().len() == changed_rows@.len(), 0 <= __it11.pos() <= __it11.all().len(), forall|i: int| 0 <= i < changed_rows@.len() ==> #[trigger] __it11.all()[i] == &changed_rows@[i],
        __acc11@.len() == __it11.pos(), forall|j: int| 0 <= j < __acc11@.len() ==> (#[trigger] __acc11@[j])@ == changed_rows@[j]@,
    ensures __it11.pos() == changed_rows@.len(),
    decreases __it11.all().len() - __it11.pos(),
//@loop 12
    invariant
        setup(shape(*old(sync_schema)), *sync_schema, batch), schema.f@.len() == shape(*old(sync_schema)).len(), distinct_names(schema.f@), forall|p: int| 0 <= p < shape(*old(sync_schema)).len() ==> (#[trigger] sync_schema.columns@[p]).field == schema.f@[p],
        __it12.all().len() == shape(*old(sync_schema)).len(), 0 <= __it12.pos() <= __it12.all().len(), forall|i: int| 0 <= i < shape(*old(sync_schema)).len() ==> #[trigger] __it12.all()[i] == &sync_schema.columns@[i],
        __k12 == __it12.pos(), __it12.all().len() <= usize::MAX, changed_pos == filt(shape(*old(sync_schema)), ColumnRole::Changed, __it12.pos() as nat).len(), changed_indices@.len() == all(shape(*old(sync_schema)), ColumnRole::Changed).len(),
        indexed(shape(*old(sync_schema)), indices@, __it12.pos(), &old_pk_indices, &new_pk_indices, changed_indices@),
    ensures __it12.pos() == shape(*old(sync_schema)).len(),
    decreases __it12.all().len() - __it12.pos(),
//@body 12
    let ghost ind0 = indices@; let ghost x0 = __it12.pos();
    proof { if x0 < shape(*old(sync_schema)).len() { assert(shape(*old(sync_schema))[x0] == colv(sync_schema.columns@[x0])); lemma_filt_at(shape(*old(sync_schema)), ColumnRole::Changed, x0 as nat, shape(*old(sync_schema)).len()); lemma_filt(shape(*old(sync_schema)), ColumnRole::Changed, x0 as nat); } }
//@tail 12
    proof {
        let sh = shape(*old(sync_schema)); let x = x0;
        if sh[x].role == ColumnRole::Changed {
            let j = filt(sh, ColumnRole::Changed, x as nat).len() as int; let p = pos(sh, ColumnRole::Value, sh[x].name);
            assert(is_at(sh, ColumnRole::Value, sh[x].name, p));
            lemma_flagno(sh, j); assert(is_at(sh, ColumnRole::Changed, sh[p].name, x)); lemma_pos(sh, ColumnRole::Changed, sh[p].name, x); lemma_cidx(sh, p); lemma_flagno(sh, cidx(sh, p)); assert(cidx(sh, p) == j);
        }
        assert forall|p: usize| p < sh.len() && sh[p as int].role == ColumnRole::Value && tracked(sh, p as int) && pos(sh, ColumnRole::Changed, sh[p as int].name) == x implies sh[x].role == ColumnRole::Changed && is_at(sh, ColumnRole::Value, sh[x].name, p as int) by { assert(is_at(sh, ColumnRole::Changed, sh[p as int].name, pos(sh, ColumnRole::Changed, sh[p as int].name))); };
        assert forall|p: usize| p < sh.len() && seen(sh, p as int, x + 1) implies #[trigger] indices@.dom().contains(p) by { if !seen(sh, p as int, x) && p != x { lemma_pos(sh, ColumnRole::Value, sh[x].name, p as int); } else if p != x { assert(ind0.dom().contains(p)); } };
        assert forall|p: usize| #[trigger] indices@.dom().contains(p) implies p < sh.len() && seen(sh, p as int, x + 1) && (later(sh, p as int, x + 1) || indices@[p]@ == right(sh, p as int, &old_pk_indices, &new_pk_indices, changed_indices@)) by {
            if ind0.dom().contains(p) && p != x && later(sh, p as int, x) && !later(sh, p as int, x + 1) { lemma_pos(sh, ColumnRole::Value, sh[x].name, p as int); }
        };
    }
//@let changed_pos
    proof {
        let sh = shape(*old(sync_schema)); let ks = kept(temp_rows@, crs.len()); lemma_kept(temp_rows@, crs.len());
        assert forall|p: int| 0 <= p < sh.len() implies #[trigger] right(sh, p, &old_pk_indices, &new_pk_indices, changed_indices@) == column_ix(sh, crs, ks, p) && (forall|i: int| 0 <= i < ks.len() ==> #[trigger] column_ix(sh, crs, ks, p)[i] < batch.rows) by {
            let a = right(sh, p, &old_pk_indices, &new_pk_indices, changed_indices@); let b = column_ix(sh, crs, ks, p);
            if sh[p].role == ColumnRole::Changed { lemma_filt(sh, ColumnRole::Changed, sh.len()); let f = all(sh, ColumnRole::Changed); assert(f.contains(p)); let j = choose|j: int| 0 <= j < f.len() && f[j] == p; lemma_flagno(sh, j); }
            if sh[p].role == ColumnRole::Value && tracked(sh, p) { lemma_cidx(sh, p); }
            assert(a =~= b);
            assert forall|i: int| 0 <= i < ks.len() implies #[trigger] b[i] < batch.rows by { let x = crs[ks[i]]; assert(x.0 < batch.rows && x.1 < batch.rows); assert(forall|j: int| 0 <= j < w ==> #[trigger] x.2@[j] < batch.rows); };
        };
        assert(taken_from(sh, batch, crs, ks, old_pk_indices, new_pk_indices, changed_indices@));
    }
//@loop 13
    invariant_except_break __err13 is None,
    invariant
        setup(shape(*old(sync_schema)), *sync_schema, batch), schema.f@.len() == shape(*old(sync_schema)).len(), __it13.all().len() == shape(*old(sync_schema)).len(), 0 <= __it13.pos() <= __it13.all().len(), forall|i: int| 0 <= i < shape(*old(sync_schema)).len() ==> #[trigger] __it13.all()[i] == i,
        indexed(shape(*old(sync_schema)), indices@, shape(*old(sync_schema)).len() as int, &old_pk_indices, &new_pk_indices, changed_indices@), taken_from(shape(*old(sync_schema)), batch, crs, kept(temp_rows@, crs.len()), old_pk_indices, new_pk_indices, changed_indices@),
        __err13 is None ==> __acc13@.len() == __it13.pos(), __err13 is None ==> forall|p: int| 0 <= p < __acc13@.len() ==> (#[trigger] __acc13@[p])@ == Seq::new(kept(temp_rows@, crs.len()).len(), |i: int| batch.cols@[p]@[column_ix(shape(*old(sync_schema)), crs, kept(temp_rows@, crs.len()), p)[i] as int]),
    ensures __err13 is None ==> __it13.pos() == shape(*old(sync_schema)).len(),
    decreases __it13.all().len() - __it13.pos(),
//@exit
    proof {
        assert forall|p: int| 0 <= p < shape(*old(sync_schema)).len() implies (#[trigger] batch.cols@[p])@ == Seq::new(kept(temp_rows@, crs.len()).len(), |i: int| big.cols@[p]@[column_ix(shape(*old(sync_schema)), crs, kept(temp_rows@, crs.len()), p)[i] as int]) by {};
        lemma_squashed(shape(*old(sync_schema)), big, crs, pk_chains@, temp_rows@, batch);
    }
//@attr
#[verifier::rlimit(100)]
//@end
// the comparison tells batches apart: an insertion is not nothing
pub proof fn sanity_effect(k: Key, v: Seq<Val>) requires !isnull(k), k.len() > 0 ensures !same_effect(seq![Chg { old: nullkey(k.len()), new: k, vals: Seq::new(v.len(), |i: int| (v[i], true)) }], Seq::empty()) {
    let s: State = |x: Key| None; let rows = seq![Chg { old: nullkey(k.len()), new: k, vals: Seq::new(v.len(), |i: int| (v[i], true)) }];
    assert(nullkey(k.len()).len() == k.len());
    assert forall|i: nat| i < 1 implies valid1(#[trigger] seqs(s, rows, i), rows[i as int]) by { assert(seqs(s, rows, 0) == s); }
    assert(valid(s, rows, 1));
    assert(seqs(s, rows, 1) == step(seqs(s, rows, 0), rows[0]));
    assert(at_once(s, Seq::empty())(k) is None);
    assert(seqs(s, rows, 1)(k) is Some);
    if same_effect(rows, Seq::empty()) { assert(rows.len() == 1 && valid(s, rows, rows.len())); assert(at_once(s, Seq::empty())(k) == seqs(s, rows, 1)(k)); }
}
//@probe
pub proof fn probe_axioms(k: Key, b: RecordBatch, f: HashMap<Text, usize>, h: HashSet<usize>) requires k.len() > 2, b.rows > 3 ensures false { broadcast use ax_row_of; assert(row_of(k)@ == k); }
//@probe
pub fn probe_refused(d: Vec<ColumnDescriptor>, s: Schema) { let r = SyncSchema::try_new(d, s, true); assert(r is Err); }
//@probe
pub fn probe_accepted(d: Vec<ColumnDescriptor>, s: Schema) requires d@.len() == s.flat() { let r = SyncSchema::try_new(d, s, true); assert(r is Ok); }
//@probe
pub fn probe_squash_fails(s: &mut SyncSchema, d: &Vec<RecordBatch>) requires index_ok(*old(s)), sensible(shape(*old(s))), d@.len() > 0, forall|i: int| 0 <= i < d@.len() ==> input_ok(shape(*old(s)), #[trigger] d@[i]), distinct_names(d@[0].s.f@) { let r = squash_batches(s, d); assert(r is Err); }
//@probe
pub fn probe_squash_empty(s: &mut SyncSchema, d: &Vec<RecordBatch>) requires index_ok(*old(s)), sensible(shape(*old(s))), d@.len() > 0, forall|i: int| 0 <= i < d@.len() ==> input_ok(shape(*old(s)), #[trigger] d@[i]), distinct_names(d@[0].s.f@) { let r = squash_batches(s, d); assert(r matches Ok(b) ==> b.rows == 0); }
//@probe
pub fn probe_squash_all(s: &mut SyncSchema, d: &Vec<RecordBatch>) requires index_ok(*old(s)), sensible(shape(*old(s))), d@.len() > 0, forall|i: int| 0 <= i < d@.len() ==> input_ok(shape(*old(s)), #[trigger] d@[i]), distinct_names(d@[0].s.f@) { let r = squash_batches(s, d); assert(r matches Ok(b) ==> b.rows == total(d@)); }
//@probe
pub proof fn probe_effect_any(rows: Seq<Chg>) ensures same_effect(rows, Seq::empty()) { }
}
fn main() {}
