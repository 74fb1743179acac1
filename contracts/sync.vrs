use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
//@include sync_base.inc.rs
// ---- schema
#[derive(PartialEq, Eq, Clone, Copy)] pub enum ColumnRole { OldPk, NewPk, Changed, Value }
#[verifier::external_body] pub struct DataType { p: u8 }
#[verifier::external_body] pub struct Text { p: u8 }
impl View for Text { type V = Seqc; uninterp spec fn view(&self) -> Seqc; }
#[verifier::external_body] pub struct FieldRef { p: u8 }
pub uninterp spec fn field_type(f: FieldRef) -> DataType;
impl FieldRef { #[verifier::external_body] pub fn data_type(&self) -> (r: &DataType) ensures *r == field_type(*self) { unimplemented!() } }
impl RxKey for ColumnRole { type K = ColumnRole; open spec fn key(&self) -> ColumnRole { *self } }
impl RxKey for DataType { type K = DataType; open spec fn key(&self) -> DataType { *self } }
impl RxKey for Text { type K = Seqc; open spec fn key(&self) -> Seqc { self@ } }
#[verifier::external_body] pub struct Opaque { p: u8 }
//@extract src/sync/schema/mod.rs | struct SyncColumn
//@types
Arc<str> => Text
//@end
//@extract src/sync/schema/mod.rs | struct SyncSchema
//@types
HashMap<ColumnRole, HashMap<Arc<str>, usize>> => Opaque
//@end
pub open spec fn colv(c: SyncColumn) -> Col { Col { role: c.role, name: c.name@, ty: field_type(c.field) } }
pub open spec fn shape(s: SyncSchema) -> Seq<Col> { s.columns@.map_values(|c: SyncColumn| colv(c)) }
impl SyncColumn {
//@extract src/sync/schema/mod.rs | impl SyncColumn :: name
//@methods
as_ref/0 => rx_text
//@contract
    ensures r@ == self.name@, // name
//@end
//@extract src/sync/schema/mod.rs | impl SyncColumn :: role
//@contract
    ensures r == self.role, // role
//@end
//@extract src/sync/schema/mod.rs | impl SyncColumn :: field
//@types
&FieldRef => &FieldRef
//@contract
    ensures *r == self.field,
//@end
}
impl SyncSchema {
//@extract src/sync/schema/mod.rs | impl SyncSchema :: columns
//@types
&[SyncColumn] => &Vec<SyncColumn>
//@contract
    ensures r@ == self.columns@, // cols
//@end
//@extract src/sync/schema/mod.rs | impl SyncSchema :: is_compatible_with | streq
//@contract
    ensures r ==> shape(*self) == shape(*other), // compat
//@loop 0
    invariant
        __it0.all() == Seq::new((if self.columns@.len() < other.columns@.len() { self.columns@.len() } else { other.columns@.len() }), |i: int| (&self.columns@[i], &other.columns@[i])),
        0 <= __it0.pos() <= __it0.all().len(),
        __acc0 ==> forall|i: int| 0 <= i < __it0.pos() ==> #[trigger] colv(self.columns@[i]) == colv(other.columns@[i]),
    ensures
        __acc0 ==> __it0.pos() == __it0.all().len(),
    decreases __it0.all().len() - __it0.pos(),
//@end
}
//@include sync_create.inc.rs
//@include sync_writer.inc.rs
//@include sync_wf.inc.rs
//@extract src/sync/utils.rs | fn get_size_and_rows
//@contract
    requires bsum(batches@) <= MEM(), rsum(batches@) <= MEM()
    ensures r.0 == bsum(batches@), r.1 == rsum(batches@), // sizes
//@vars
__acc0 => (usize, usize)
//@loop 0
    invariant
        bsum(batches@) <= MEM(), rsum(batches@) <= MEM(),
        __it0.all() == Seq::new(batches@.len(), |i: int| &batches@[i]), 0 <= __it0.pos() <= __it0.all().len(),
        __acc0.0 == bsum(batches@.take(__it0.pos())), __acc0.1 == rsum(batches@.take(__it0.pos())),
    ensures __acc0.0 == bsum(batches@), __acc0.1 == rsum(batches@),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof {
        broadcast use ax_batch, ax_batchr;
        let k = __it0.pos();
        lemma_sum_mono(batches@, k);
        assert(batches@.take(batches@.len() as int) =~= batches@);
        if k < batches@.len() { lemma_sum_mono(batches@, k + 1); assert(batches@.take(k + 1).drop_last() =~= batches@.take(k)); assert(batches@.take(k + 1).last() == batches@[k]); assert(bsum(batches@.take(k + 1)) == bsum(batches@.take(k)) + bytes_of(batches@[k])); }
    }
//@end
impl SeafowlDataSyncWriter {
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: new
//@types
Arc<SeafowlContext> => SeafowlContext
//@calls
Default::default => RxNew::rx_new
//@contract
    ensures forall|w: World| #[trigger] start(w) ==> wf(r, w), // fresh
//@end
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: stored_sequences
//@methods
cloned/0 => rx_opt_cloned
//@contract
    ensures
        r.0 is Some <==> self.origin_memory@.dom().contains(origin@), r.0 matches Some(v) ==> v == self.origin_memory@[origin@], // mem
        r.1 is Some <==> self.origin_durable@.dom().contains(origin@), r.1 matches Some(v) ==> v == self.origin_durable@[origin@], // dur
//@end
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: enqueue_sync | world streq
//@dropstmts
self.metrics
//@calls
Uuid::new_v4 => w_uuid
now => w_now
HashSet::from => RxSet::from
HashSet::new => RxSet::new
//@methods
clone/0 => rx_clone
extend/1 => mut_extend
//@contract
    requires wf(*old(self), *old(w)), bsum(batches@) <= MEM(), rsum(batches@) <= MEM()
    ensures
        same_hist(*old(w), *final(w)), // world
        r is Err ==> untouched(*old(self), *final(self)), // rejected
        r is Err <==> (open_tx(*old(w)) && old(w).txs.last().origin != origin@) || (!open_tx(*old(w)) && rsum(batches@) == 0 && sequence_number is Some), // when
        r is Ok ==> final(self).txs@.len() > 0 && wf(*final(self), received(*final(w), final(self).txs@.last().0, target_url(sync_target), origin@, sequence_number, rsum(batches@), eff(shape(sync_schema), batches@))), // stored
//@entry
    proof { broadcast use lemma_items_push, lemma_items_last, lemma_batches_cat; lemma_sum_mono(batches@, 0); }
    let ghost (url0, origin0, sh0, rows0) = (target_url(sync_target), origin@, shape(sync_schema), rsum(batches@));
    proof {
        assert forall|i: int| 0 <= i < self.txs@.len() implies w.used.contains(#[trigger] self.txs@[i].0) by { assert(tx_same(self.txs@[i], w.txs[w.txs.len() - self.txs@.len() + i])); }
    }
    proof { if self.txs@.len() > 0 { assert(tx_same(self.txs@.last(), w.txs[w.txs.len() - self.txs@.len() + (self.txs@.len() - 1)])); } else if w.txs.len() > 0 { assert(w.txs.last() == w.txs[w.txs.len() - 1]); } }
    proof { if hask(self.syncs@, target_url(sync_target)) { let i = at(self.syncs@, target_url(sync_target)); assert(coll_ok(self.syncs@[i])); lemma_sums_pos(self.syncs@[i].1.syncs@, self.syncs@[i].1.syncs@.len() - 1); } }
//@exit
    proof {
        broadcast use lemma_items_push, lemma_items_last, lemma_batches_cat, lemma_total_push, ax_nil_l;
        let id = self.txs@.last().0;
        assert(queue_after(old(self).txs@, self.txs@, id, url0, origin0, sequence_number, rows0));
        if rows0 > 0 {
            let (m0, m1) = (old(self).syncs@, self.syncs@);
            if hask(m0, url0) { 
                let i = at(m0, url0);
                assert(m1 == m0.update(i, m1[i]));
                ax_assoc(items_eff(m0[i].1.syncs@.drop_last()), item_eff(m0[i].1.syncs@.last()), eff(sh0, batches@));
                let (c0, c1) = (m0[i].1, m1[i].1);
                assert(items_eff(c1.syncs@) == then(items_eff(c0.syncs@), eff(sh0, batches@)));
                assert(ids(c1.syncs@) =~= ids(c0.syncs@).push(id));
                assert(items_ok(c1.syncs@));
                assert(c1.size == c0.size + bsum(batches@) && isum(c1.syncs@) == isum(c0.syncs@) + bsum(batches@));
                assert(c1.rows == c0.rows + rsum(batches@) && irows(c1.syncs@) == irows(c0.syncs@) + rsum(batches@));
                assert(coll_after(m0[i].1, m1[i].1, id, sh0, batches@));
            } else {
                let c1 = m1.last().1;
                assert(c1.syncs@.len() == 1);
                assert(c1.syncs@ =~= Seq::empty().push(c1.syncs@[0]));
                assert(items_eff(c1.syncs@) == eff(sh0, batches@)); assert(ids(c1.syncs@) =~= seq![id]); assert(isum(c1.syncs@) == bsum(batches@)); assert(items_ok(c1.syncs@)); assert(coll_ok((url0, c1)));
                assert(coll_first(m1.last().1, id, url0, sh0, batches@, old(w).clock, w.clock)); }
            assert(syncs_after(m0, m1, id, url0, sh0, batches@, old(w).clock, w.clock));
        }
        lemma_received(*old(self), *self, *old(w), *w, id, url0, origin0, sequence_number, sh0, batches@);
    }
//@end
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: remove_tx_locations
//@methods
clone/0 => rx_clone
//@contract
    requires distinct(old(self).txs@)
    ensures final(self).syncs == old(self).syncs, final(self).size == old(self).size, final(self).origin_memory == old(self).origin_memory, final(self).origin_durable == old(self).origin_durable, final(self).context == old(self).context, // frame
        unlocated(old(self).txs@, final(self).txs@, url@, tx_ids@), // unlocated
//@loop 0
    invariant
        0 <= __it0.pos() <= __it0.all().len(), __it0.all() == tx_ids@, distinct(self.txs@), distinct(old(self).txs@),
        self.syncs == old(self).syncs, self.context == old(self).context, self.size == old(self).size, self.origin_memory == old(self).origin_memory, self.origin_durable == old(self).origin_durable,
        unlocated(old(self).txs@, self.txs@, url@, tx_ids@.take(__it0.pos())),
    ensures unlocated(old(self).txs@, self.txs@, url@, tx_ids@),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof {
        let k = __it0.pos();
        assert(tx_ids@.take(tx_ids@.len() as int) =~= tx_ids@);
        if k < tx_ids@.len() { lemma_take_contains(tx_ids@, k); if hask(self.txs@, tx_ids@[k]) { lemma_at(self.txs@, at(self.txs@, tx_ids@[k])); } }
    }
//@end
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: remove_sync
//@dropstmts
self.metrics
//@contract
    requires sums_ok(*old(self))
    ensures final(self).txs == old(self).txs, final(self).origin_memory == old(self).origin_memory, final(self).origin_durable == old(self).origin_durable, final(self).context == old(self).context, // frame
        final(self).syncs@ == (if hask(old(self).syncs@, url@) { old(self).syncs@.remove(at(old(self).syncs@, url@)) } else { old(self).syncs@ }), // gone
        final(self).size == total(final(self).syncs@), // size
//@entry
    proof { if hask(self.syncs@, url@) { lemma_total_remove(self.syncs@, at(self.syncs@, url@)); } }
//@end
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: advance_durable
//@calls
HashSet::new => RxSet::new
//@methods
clone/0 => rx_clone
//@contract
    requires distinct(old(self).txs@)
    ensures final(self).syncs == old(self).syncs, final(self).size == old(self).size, final(self).origin_memory == old(self).origin_memory, final(self).context == old(self).context, // frame
        final(self).txs@ == old(self).txs@.skip(done(old(self).txs@)), // queue
        final(self).origin_durable@ == advanced(old(self).origin_durable@, old(self).txs@.take(done(old(self).txs@))), // durable
        forall|w: World| #[trigger] wf(*old(self), w) ==> wf(*final(self), w), // wf
        final(self).txs@.len() == 0 || !complete(final(self).txs@[0].1), // first
//@exit
    proof { lemma_done(old(self).txs@, 0); lemma_done(old(self).txs@, done(old(self).txs@)); assert forall|w: World| #[trigger] wf(*old(self), w) implies wf(*self, w) by { lemma_advanced_wf(*old(self), *self, w); } }
//@entry
    proof { lemma_done(self.txs@, 0); assert(self.txs@.skip(0) =~= self.txs@); assert(retained(self.txs@, self.txs@, 0, done(self.txs@))); assert(self.txs@.take(0) =~= Seq::empty()); }
//@loop 0
    invariant_except_break
        0 <= __it0.pos() <= __it0.all().len(), __it0.all() == Seq::new(self.txs@.len(), |i: int| (&self.txs@[i].0, &self.txs@[i].1)),
        self.txs == old(self).txs, self.syncs == old(self).syncs, self.context == old(self).context, self.size == old(self).size, self.origin_memory == old(self).origin_memory,
        __it0.pos() <= done(self.txs@), 0 <= done(self.txs@) <= self.txs@.len(),
        forall|x: Uuid| #[trigger] durable_txs@.contains(x) <==> exists|i: int| 0 <= i < __it0.pos() && #[trigger] self.txs@[i].0 == x,
        self.origin_durable@ == advanced(old(self).origin_durable@, self.txs@.take(__it0.pos())),
    ensures
        self.txs == old(self).txs, self.syncs == old(self).syncs, self.context == old(self).context, self.size == old(self).size, self.origin_memory == old(self).origin_memory,
        forall|x: Uuid| #[trigger] durable_txs@.contains(x) <==> exists|i: int| 0 <= i < done(self.txs@) && #[trigger] self.txs@[i].0 == x,
        self.origin_durable@ == advanced(old(self).origin_durable@, self.txs@.take(done(self.txs@))),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof {
        let k = __it0.pos();
        lemma_done(self.txs@, k);
        if k < self.txs@.len() { assert(self.txs@.take(k + 1).drop_last() =~= self.txs@.take(k)); assert(self.txs@.take(k + 1).last() == self.txs@[k]); }
    }
//@body 1
    proof {
        let (t0, t, d) = (old(self).txs@, self.txs@, done(old(self).txs@));
        let c = t0.len() - t.len() + __ix1;
        lemma_done(t0, 0);
        if c < d { assert(t[0] == t0[c]); assert(durable_txs@.contains(t0[c].0)); assert(t.remove(0) =~= t0.skip(c + 1)); assert(retained(t0, t.remove(0), c + 1, d)); }
        else if c < t0.len() { assert(t[__ix1 as int] == t0[c]); assert(!durable_txs@.contains(t0[c].0)); assert(retained(t0, t, c + 1, d)); }
    }
//@loop 1
    invariant_except_break
        self.syncs == old(self).syncs, self.context == old(self).context, self.size == old(self).size, self.origin_memory == old(self).origin_memory, distinct(old(self).txs@),
        self.origin_durable@ == advanced(old(self).origin_durable@, old(self).txs@.take(done(old(self).txs@))),
        forall|x: Uuid| #[trigger] durable_txs@.contains(x) <==> exists|i: int| 0 <= i < done(old(self).txs@) && #[trigger] old(self).txs@[i].0 == x,
        self.origin_durable@ == advanced(old(self).origin_durable@, old(self).txs@.take(done(old(self).txs@))),
        retained(old(self).txs@, self.txs@, old(self).txs@.len() - self.txs@.len() + __ix1, done(old(self).txs@)),
    ensures
        self.syncs == old(self).syncs, self.context == old(self).context, self.size == old(self).size, self.origin_memory == old(self).origin_memory,
        self.origin_durable@ == advanced(old(self).origin_durable@, old(self).txs@.take(done(old(self).txs@))),
        self.txs@ == old(self).txs@.skip(done(old(self).txs@)),
    decreases self.txs@.len() - __ix1,
//@end
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: physical_squashing
//@dropstmts
self.metrics
//@contract
    requires sums_ok(*old(self))
    ensures final(self).txs == old(self).txs, final(self).origin_memory == old(self).origin_memory, final(self).origin_durable == old(self).origin_durable, final(self).context == old(self).context, // frame
        squashed(old(self).syncs@, final(self).syncs@, url@), sums_ok(*final(self)), // same
        r is Ok && hask(final(self).syncs@, url@) ==> single(final(self).syncs@[at(final(self).syncs@, url@)].1.syncs@), // one
//@loop 0
    invariant_except_break
        sums_ok(*old(self)), hask(old(self).syncs@, url@), total(old(self).syncs@) <= MEM(),
        self.txs == old(self).txs, self.origin_memory == old(self).origin_memory, self.origin_durable == old(self).origin_durable, self.context == old(self).context,
        after_borrow(self.syncs)@ == old(self).syncs@.update(at(old(self).syncs@, url@), (url@, *final(table_syncs))),
        same_coll(old(self).syncs@[at(old(self).syncs@, url@)].1, *table_syncs), coll_ok((url@, *table_syncs)),
        self.size == total(old(self).syncs@) - old(self).syncs@[at(old(self).syncs@, url@)].1.size + table_syncs.size,
        __ix0 <= __len0, __len0 == table_syncs.syncs@.len(),
        forall|i: int| 0 <= i < __ix0 ==> (#[trigger] table_syncs.syncs@[i]).is_squashed && table_syncs.syncs@[i].data@.len() == 1,
    ensures
        self.txs == old(self).txs, self.origin_memory == old(self).origin_memory, self.origin_durable == old(self).origin_durable, self.context == old(self).context,
        after_borrow(self.syncs)@ == old(self).syncs@.update(at(old(self).syncs@, url@), (url@, *final(table_syncs))),
        same_coll(old(self).syncs@[at(old(self).syncs@, url@)].1, *table_syncs), coll_ok((url@, *table_syncs)),
        self.size == total(old(self).syncs@) - old(self).syncs@[at(old(self).syncs@, url@)].1.size + table_syncs.size,
        single(table_syncs.syncs@),
    decreases __len0 - __ix0,
//@body 0
    proof {
        broadcast use lemma_one_batch_vec;
        lemma_squash_end(*old(self), url@);
        lemma_squash_upd(table_syncs.syncs, __ix0 as int);
    }
//@entry
    proof { lemma_squash_end(*old(self), url@); }
//@end
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: flush_ready | world
//@calls
now => w_now
//@methods
clone/0 => rx_own
//@contract
    requires wf(*old(self), *old(w))
    ensures
        wf(*final(self), *final(w)), same_hist(*old(w), *final(w)), // same
        final(self).txs == old(self).txs, final(self).origin_memory == old(self).origin_memory, final(self).origin_durable == old(self).origin_durable, final(self).context == old(self).context, // frame
        r matches Ok(Some(u)) ==> hask(final(self).syncs@, u@) && final(self).syncs@.len() == old(self).syncs@.len(), // some
        r matches Ok(None) ==> forall|i: int| 0 <= i < final(self).syncs@.len() ==> within_limits(#[trigger] final(self).syncs@[i], final(self).context.config.misc.sync_conf, *final(w)), // none
        r matches Ok(None) ==> final(self).syncs@.len() == 0 || final(self).size < final(self).context.config.misc.sync_conf.max_in_memory_bytes, // memory
//@entry
    proof { lemma_entries(*old(self), *old(w)); }
    let ghost lim = self.context.config.misc.sync_conf;
//@vars
__key0 => Option<usize>
__acc0 => Option<(&String, &DataSyncCollection)>
__acc1 => Option<(&String, &DataSyncCollection)>
//@loop 0
    invariant
        0 <= __it0.pos() <= __it0.all().len(), __it0.all() == Seq::new(self.syncs@.len(), |i: int| (&sync_key(self.syncs, i), &self.syncs@[i].1)),
        __acc0 is Some <==> __it0.pos() > 0, __key0 is Some <==> __it0.pos() > 0,
        __acc0 matches Some(x) ==> exists|i: int| 0 <= i < __it0.pos() && *(x.0) == #[trigger] sync_key(self.syncs, i),
    ensures
        __acc0 is Some <==> self.syncs@.len() > 0,
        __acc0 matches Some(x) ==> hask(self.syncs@, x.0@),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof { broadcast use ax_sync_key; }
//@loop 1
    invariant_except_break
        0 <= __it1.pos() <= __it1.all().len(), __it1.all() == Seq::new(self.syncs@.len(), |i: int| (&sync_key(self.syncs, i), &self.syncs@[i].1)),
        __acc1 is None, forall|i: int| 0 <= i < __it1.pos() ==> (#[trigger] self.syncs@[i]).1.syncs@.len() < self.context.config.misc.sync_conf.max_syncs_per_url,
    ensures
        __acc1 is None ==> forall|i: int| 0 <= i < self.syncs@.len() ==> (#[trigger] self.syncs@[i]).1.syncs@.len() < self.context.config.misc.sync_conf.max_syncs_per_url,
        __acc1 matches Some(x) ==> hask(self.syncs@, x.0@),
    decreases __it1.all().len() - __it1.pos(),
//@body 1
    proof { broadcast use ax_sync_key; }
//@end
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: table_sequence | world try=sync_err
//@methods
history/1 => wr_history
clone/0 => rx_clone
//@contract
    ensures
        *final(w) == *old(w), // reads
        r matches Ok(Some(c)) ==> info(*old(w), table.url()).dom().contains(SYNC_COMMIT_INFO_spec()) && civ(c) == json_info(info(*old(w), table.url())[SYNC_COMMIT_INFO_spec()]), // latest
        r matches Ok(None) ==> !info(*old(w), table.url()).dom().contains(SYNC_COMMIT_INFO_spec()) || json_null(info(*old(w), table.url())[SYNC_COMMIT_INFO_spec()]), // none
//@end
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: commit_info | optmap
//@methods
clone/0 => rx_own
last/0 => rx_last
unwrap_or_default/0 => own_or_false
//@index
self.txs => tx_index
//@contract
    requires items_ok(syncs@), distinct(self.txs@), forall|i: int| 0 <= i < syncs@.len() ==> hask(self.txs@, last_tx(#[trigger] syncs@[i]))
    ensures
        r is None <==> last_sync_commit is None && forall|i: int| 0 <= i < syncs@.len() ==> seq_of(self.txs@, last_tx(#[trigger] syncs@[i])) is None, // none
        r matches Some(c) ==> c.new_tx == (seq_of(self.txs@, last_tx(syncs@.last())) is None), // open
        r matches Some(c) ==> newest(self.txs@, syncs@, c) || (last_sync_commit matches Some(l) && c.origin@ == l.origin@ && c.sequence == l.sequence && forall|i: int| 0 <= i < syncs@.len() ==> seq_of(self.txs@, last_tx(#[trigger] syncs@[i])) is None), // newest
//@entry
    proof { assert(item_ok(syncs@[syncs@.len() - 1])); assert(hask(self.txs@, last_tx(syncs@[syncs@.len() - 1]))); }
//@vars
__acc0 => Option<SyncCommitInfo>
//@loop 0
    invariant_except_break
        items_ok(syncs@), distinct(self.txs@), forall|i: int| 0 <= i < syncs@.len() ==> hask(self.txs@, last_tx(#[trigger] syncs@[i])),
        0 <= __it0.pos() <= __it0.all().len(), __it0.all() == Seq::new(syncs@.len(), |i: int| &syncs@[i]).reverse(),
        __acc0 is None, forall|i: int| syncs@.len() - __it0.pos() <= i < syncs@.len() ==> seq_of(self.txs@, last_tx(#[trigger] syncs@[i])) is None,
    ensures
        __acc0 is None ==> forall|i: int| 0 <= i < syncs@.len() ==> seq_of(self.txs@, last_tx(#[trigger] syncs@[i])) is None,
        __acc0 matches Some(c) ==> newest(self.txs@, syncs@, c) && c.new_tx == new_tx,
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof { if __it0.pos() < syncs@.len() { let k = syncs@.len() - 1 - __it0.pos(); assert(item_ok(syncs@[k])); assert(__it0.all()[__it0.pos()] == &syncs@[k]); assert forall|c: SyncCommitInfo| newest_at(self.txs@, syncs@, c, k) implies #[trigger] newest(self.txs@, syncs@, c) by {} } }
//@end
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: create_table | try=sync_err
//@calls
Schema::try_from => schema_try_from
//@methods
clone/0 => rx_own
as_ref/0 => rx_field
await/0 => rx_await
cloned/0 => rx_all
//@contract
    ensures r matches Ok(t) ==> t.url() == target_url(sync_target) && t.columns() == delta_columns(table_columns(sync_schema.columns@)), // columns
//@loop 0
    invariant
        0 <= __it0.pos() <= __it0.all().len(), __it0.all() == Seq::new(sync_schema.columns@.len(), |i: int| &sync_schema.columns@[i]),
        builder.cols() == table_columns(sync_schema.columns@.take(__it0.pos())),
    ensures builder.cols() == table_columns(sync_schema.columns@),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof { let k = __it0.pos(); let v = sync_schema.columns@; assert(v.take(v.len() as int) =~= v); if k < v.len() { assert(v.take(k + 1).drop_last() =~= v.take(k)); assert(v.take(k + 1).last() == v[k]); } }
//@end
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: flush_syncs | world try=sync_err
//@dropstmts
self.metrics
//@calls
HashMap::from => RxMap::from
Default::default => RxNew::rx_new
//@methods
clone/0 => rx_own
extend/1 => mut_extend
commit_delta_table/3 => wr_commit
table_sequence/1 => WORLD
starts_with/1 => rx_starts_with
//@contract
    requires wf(*old(self), *old(w))
    ensures
        wf(*final(self), *final(w)), // wf
        final(w).got == old(w).got && final(w).txs == old(w).txs && final(self).context == old(self).context, // frame
        r is Err ==> *final(w) == *old(w), // failed
        r is Err ==> final(self).txs == old(self).txs && final(self).origin_durable == old(self).origin_durable, // kept
        r is Ok ==> pending(*final(w), url@).len() == 0, // flushed
        r is Ok && hask(old(self).syncs@, url@) ==> final(self).syncs@.len() == old(self).syncs@.len() - 1 && (final(self).txs@.len() == 0 || !complete(final(self).txs@[0].1)), // durable
//@vars
__acc0 => Vec<Action>
__acc1 => Vec<Uuid>
//@entry
    proof { lemma_entries(*self, *w); }
//@after physical_squashing
    broadcast use lemma_act_push, lemma_act_cat;
    let ghost (s0, w0, u0) = (*self, *w, url@);
    proof { lemma_squashed_wf(*old(self), *self, *w, url@); lemma_wf_distinct(*self, *w); }
    proof { if hask(self.syncs@, url@) { let k = at(self.syncs@, url@); assert(coll_ok(self.syncs@[k])); lemma_items_known(*self, *w, k); } }
//@after commit_info
    proof { if new_sync_commit is Some { assert(recorded(s0, w0, u0, entry.syncs@, new_sync_commit->Some_0, last_sync_commit)); } }
//@after remove_tx_locations
    let ghost t1 = self.txs@;
    proof { lemma_distinct_same(s0.txs@, t1, u0, tx_ids@); }
//@loop 0
    invariant
        0 <= __it0.pos() <= __it0.all().len(), __it0.all() == adds@,
        adds_in(__acc0@) == adds@.take(__it0.pos()), removes_in(__acc0@).len() == 0, info_in(__acc0@) is None,
    ensures adds_in(__acc0@) == adds@, removes_in(__acc0@).len() == 0, info_in(__acc0@) is None,
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof { broadcast use lemma_act_push; let k = __it0.pos(); assert(adds@.take(adds@.len() as int) =~= adds@); if k < adds@.len() { assert(adds@.take(k + 1) =~= adds@.take(k).push(adds@[k])); } }
//@loop 1
    invariant
        0 <= __it1.pos() <= __it1.all().len(), __it1.all() == Seq::new(entry.syncs@.len(), |i: int| &entry.syncs@[i]),
        same_members(__acc1@, ids(entry.syncs@.take(__it1.pos()))), forall|x: Uuid| #[trigger] __seen1@.contains(x) <==> __acc1@.contains(x),
    ensures same_members(__acc1@, ids(entry.syncs@)),
    decreases __it1.all().len() - __it1.pos(),
//@body 1
    proof { let k = __it1.pos(); let v = entry.syncs@; assert(v.take(v.len() as int) =~= v); assert(v.take(0) =~= Seq::empty()); assert forall|t: Seq<Uuid>, x: Uuid| !(#[trigger] t.take(0).contains(x)) by {} if k < v.len() { assert(v.take(k + 1).drop_last() =~= v.take(k)); assert(v.take(k + 1).last() == v[k]); lemma_cat_contains(ids(v.take(k)), v[k].tx_ids@); } }
//@loop 2
    invariant
        0 <= __it2.pos() <= __it2.all().len(), 0 < __it1.pos() <= entry.syncs@.len(), __it2.all() == entry.syncs@[__it1.pos() - 1].tx_ids@,
        forall|x: Uuid| #[trigger] __acc1@.contains(x) <==> ids(entry.syncs@.take(__it1.pos() - 1)).contains(x) || __it2.all().take(__it2.pos()).contains(x),
        forall|x: Uuid| #[trigger] __seen1@.contains(x) <==> __acc1@.contains(x),
    ensures
        forall|x: Uuid| #[trigger] __acc1@.contains(x) <==> ids(entry.syncs@.take(__it1.pos() - 1)).contains(x) || entry.syncs@[__it1.pos() - 1].tx_ids@.contains(x),
        forall|x: Uuid| #[trigger] __seen1@.contains(x) <==> __acc1@.contains(x),
    decreases __it2.all().len() - __it2.pos(),
//@body 2
    proof {
        let (p, t) = (__it2.pos(), __it2.all());
        assert(t.take(t.len() as int) =~= t);
        if p < t.len() { lemma_take_contains(t, p); assert forall|x: Uuid| #[trigger] __acc1@.push(t[p]).contains(x) <==> __acc1@.contains(x) || x == t[p] by { lemma_push_contains(__acc1@, t[p], x); } }
    }
//@exit
    proof {
        assert(committed(w0, *w, u0, items_eff(s0.syncs@[at(s0.syncs@, u0)].1.syncs@), info(*w, u0)));
        assert(record_ok(s0, w0, u0, s0.syncs@[at(s0.syncs@, u0)].1.syncs@, info(*w, u0)));
        lemma_flushed(s0, *self, w0, *w, u0, tx_ids@, t1, info(*w, u0));
    }
//@end
//@extract src/sync/writer.rs | impl SeafowlDataSyncWriter :: flush | world
//@dropstmts
self.metrics
//@methods
flush_ready/0 => WORLD
flush_syncs/1 => WORLD
//@contract
    requires wf(*old(self), *old(w))
    ensures
        wf(*final(self), *final(w)), // wf
        final(w).got == old(w).got && final(w).txs == old(w).txs && final(self).context == old(self).context, // frame
        r is Ok ==> final(self).txs@.len() == 0 || !complete(final(self).txs@[0].1), // durable
        r is Ok ==> forall|i: int| 0 <= i < final(self).syncs@.len() ==> within_limits(#[trigger] final(self).syncs@[i], final(self).context.config.misc.sync_conf, *final(w)), // limits
        r is Ok ==> final(self).syncs@.len() == 0 || final(self).size < final(self).context.config.misc.sync_conf.max_in_memory_bytes, // memory
//@entry
    broadcast use lemma_wf_distinct;
//@loop 0
    invariant_except_break
        wf(*self, *w), w.got == old(w).got && w.txs == old(w).txs && self.context == old(self).context,
    ensures
        wf(*self, *w), w.got == old(w).got && w.txs == old(w).txs && self.context == old(self).context,
        forall|i: int| 0 <= i < self.syncs@.len() ==> within_limits(#[trigger] self.syncs@[i], self.context.config.misc.sync_conf, *w),
        self.syncs@.len() == 0 || self.size < self.context.config.misc.sync_conf.max_in_memory_bytes,
    decreases self.syncs@.len(),
//@end
}
//@probe
pub proof fn probe_axioms(v: Vec<DataSyncItem>, b: RecordBatch, m: SyncMap, a: Eff, c: Eff, d: Eff) requires v@.len() > 3, m@.len() > 2 ensures false { ax_memory(v); ax_batch(b); ax_batchr(b); ax_sync_key(m, 0); ax_sync_key(m, 1); ax_assoc(a, c, d); ax_nil_l(a); ax_nil_r(a); }
//@probe
pub fn probe_enqueue_rejects(x: &mut SeafowlDataSyncWriter, w: &mut World, l: LakehouseSyncTarget, n: Option<SequenceNumber>, o: Origin, s: SyncSchema, b: Vec<RecordBatch>) requires wf(*old(x), *old(w)), bsum(b@) <= MEM(), rsum(b@) <= MEM() { let r = x.enqueue_sync(w, l, n, o, s, b); assert(r is Err); }
//@probe
pub fn probe_enqueue_untouched(x: &mut SeafowlDataSyncWriter, w: &mut World, l: LakehouseSyncTarget, n: Option<SequenceNumber>, o: Origin, s: SyncSchema, b: Vec<RecordBatch>) requires wf(*old(x), *old(w)), bsum(b@) <= MEM(), rsum(b@) <= MEM() { let ghost h = *x; let r = x.enqueue_sync(w, l, n, o, s, b); assert(x.txs@ == h.txs@); }
//@probe
pub fn probe_enqueue_complete(x: &mut SeafowlDataSyncWriter, w: &mut World, l: LakehouseSyncTarget, n: Option<SequenceNumber>, o: Origin, s: SyncSchema, b: Vec<RecordBatch>) requires wf(*old(x), *old(w)), bsum(b@) <= MEM(), rsum(b@) <= MEM(), old(x).txs@.len() == 0 { let r = x.enqueue_sync(w, l, n, o, s, b); assert(r is Ok ==> x.txs@.last().1.sequence is Some); }
//@probe
pub fn probe_flush_fails(x: &mut SeafowlDataSyncWriter, w: &mut World) requires wf(*old(x), *old(w)) { let r = x.flush(w); assert(r is Err); }
//@probe
pub fn probe_flush_all(x: &mut SeafowlDataSyncWriter, w: &mut World) requires wf(*old(x), *old(w)) { let r = x.flush(w); assert(x.syncs@.len() == 0); }
//@probe
pub fn probe_flush_none(x: &mut SeafowlDataSyncWriter, w: &mut World) requires wf(*old(x), *old(w)) { let ghost h = *x; let r = x.flush(w); assert(x.txs@ == h.txs@); }
}
fn main() {}
