// ---- what the writer's state means
pub open spec fn item_eff(i: DataSyncItem) -> Eff { if i.is_squashed { seff(shape(i.sync_schema), i.data@[0]) } else { eff(shape(i.sync_schema), i.data@) } }
pub open spec fn items_eff(v: Seq<DataSyncItem>) -> Eff decreases v.len() { if v.len() == 0 { nil() } else { then(items_eff(v.drop_last()), item_eff(v.last())) } }
pub open spec fn ids(v: Seq<DataSyncItem>) -> Seq<Uuid> decreases v.len() { if v.len() == 0 { Seq::empty() } else { ids(v.drop_last()) + v.last().tx_ids@ } }
pub open spec fn item_ok(i: DataSyncItem) -> bool { i.tx_ids@.len() > 0 && i.data@.len() > 0 && (i.is_squashed ==> i.data@.len() == 1) }
pub open spec fn items_ok(v: Seq<DataSyncItem>) -> bool { v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> #[trigger] item_ok(v[i]) }
pub open spec fn target_url(t: LakehouseSyncTarget) -> Seqc { match t { LakehouseSyncTarget::Delta(l) => l.url(), LakehouseSyncTarget::Iceberg(i) => i.url@ } }
pub open spec fn coll_ok(e: Entry) -> bool { items_ok(e.1.syncs@) && e.1.size == isum(e.1.syncs@) && e.1.rows == irows(e.1.syncs@) && target_url(e.1.sync_target) == e.0 }
pub open spec fn sums_ok(s: SeafowlDataSyncWriter) -> bool { distinct(s.syncs@) && s.size == total(s.syncs@) && forall|i: int| 0 <= i < s.syncs@.len() ==> #[trigger] coll_ok(s.syncs@[i]) }
pub open spec fn txs_of(m: Seq<Msg>) -> Seq<Uuid> { m.map_values(|x: Msg| x.tx) }
// the batches held for a table are what was received for it and is not yet in it
pub open spec fn in_step(e: Entry, w: World) -> bool { items_eff(e.1.syncs@) == msgs_eff(pending(w, e.0)) && ids(e.1.syncs@) == txs_of(pending(w, e.0)) && e.1.insertion_time <= w.clock }
pub open spec fn hist_ok(w: World) -> bool {
    &&& forall|a: int, b: int| 0 <= a < w.txs.len() && 0 <= b < w.txs.len() && #[trigger] w.txs[a].id == #[trigger] w.txs[b].id ==> a == b
    &&& forall|a: int| 0 <= a < w.txs.len() ==> w.used.contains(#[trigger] w.txs[a].id)
    &&& forall|a: int| 0 <= a < w.txs.len() - 1 ==> (#[trigger] w.txs[a]).seq is Some
    &&& forall|u: Seqc| 0 <= #[trigger] upto(w, u) <= got(w, u).len()
    &&& forall|u: Seqc| #[trigger] state(w, u) == msgs_eff(got(w, u).take(upto(w, u)))
}
pub open spec fn tx_same(t: (Uuid, Transaction), i: TxInfo) -> bool { t.0 == i.id && t.1.origin@ == i.origin && t.1.sequence == i.seq }
pub open spec fn tx_ok(s: SeafowlDataSyncWriter, w: World) -> bool {
    &&& s.txs@.len() <= w.txs.len()
    &&& forall|a: int| 0 <= a < w.txs.len() - s.txs@.len() ==> (#[trigger] w.txs[a]).seq is Some
    &&& forall|i: int| 0 <= i < s.txs@.len() ==> #[trigger] tx_same(s.txs@[i], w.txs[w.txs.len() - s.txs@.len() + i])
    &&& forall|i: int, u: Seqc| 0 <= i < s.txs@.len() ==> (#[trigger] s.txs@[i].1.locations@.contains(u) <==> txs_of(pending(w, u)).contains(s.txs@[i].0))
    &&& forall|u: Seqc, x: Uuid| #[trigger] txs_of(pending(w, u)).contains(x) ==> hask(s.txs@, x)
}
// a recorded commit: its transaction is closed and everything of it and of the ones before is in the table (or it was there at the start)
pub open spec fn applied(w: World, u: Seqc, t: int) -> bool { forall|i: int, j: int| 0 <= i <= t && 0 <= j < pending(w, u).len() ==> (#[trigger] pending(w, u)[j]).tx != (#[trigger] w.txs[i]).id }
pub open spec fn closed_as(w: World, t: int, c: CI) -> bool { 0 <= t < w.txs.len() && w.txs[t].seq == Some(c.seq) && w.txs[t].origin == c.origin }
pub open spec fn was_there(w: World, u: Seqc, c: CI) -> bool { w.before.dom().contains(u) && w.before[u].origin == c.origin && w.before[u].seq == c.seq }
pub open spec fn honest(w: World, u: Seqc, c: CI) -> bool { was_there(w, u, c) || exists|t: int| #[trigger] closed_as(w, t, c) && applied(w, u, t) }
pub open spec fn info_ok(w: World) -> bool { forall|u: Seqc| #[trigger] info(w, u).dom().contains(SYNC_COMMIT_INFO_spec()) ==> honest(w, u, json_info(info(w, u)[SYNC_COMMIT_INFO_spec()])) }
// the tables are in the order of their oldest unflushed message
pub open spec fn oldest_first(m: Seq<Entry>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).1.insertion_time <= (#[trigger] m[j]).1.insertion_time }
pub open spec fn wf(s: SeafowlDataSyncWriter, w: World) -> bool {
    &&& sums_ok(s)
    &&& forall|i: int| 0 <= i < s.syncs@.len() ==> #[trigger] in_step(s.syncs@[i], w)
    &&& forall|u: Seqc| (#[trigger] pending(w, u)).len() > 0 ==> hask(s.syncs@, u)
    &&& hist_ok(w) && tx_ok(s, w) && info_ok(w) && oldest_first(s.syncs@)
    // memory: the last closed transaction of every origin; durable: the same over the transactions that have left the queue
    &&& s.origin_memory@ == closed(w.txs)
    &&& s.origin_durable@ == closed(w.txs.take(w.txs.len() - s.txs@.len()))
}
pub open spec fn same_hist(a: World, b: World) -> bool { a.txs == b.txs && a.got == b.got && a.upto == b.upto && a.state == b.state && a.info == b.info && a.before == b.before && a.used.subset_of(b.used) && a.clock <= b.clock }
// at the start of the process
pub open spec fn start(w: World) -> bool {
    &&& w.txs.len() == 0 && w.got == IMap::<Seqc, Seq<Msg>>::empty() && w.upto == IMap::<Seqc, int>::empty() && w.state == IMap::<Seqc, Eff>::empty()
    &&& forall|u: Seqc| #[trigger] info(w, u).dom().contains(SYNC_COMMIT_INFO_spec()) ==> w.before.dom().contains(u) && w.before[u] == json_info(info(w, u)[SYNC_COMMIT_INFO_spec()])
}
// what can have been promised: every transaction that has left the queue is in its tables
pub proof fn durable_is_stored(s: SeafowlDataSyncWriter, w: World, t: int, u: Seqc, j: int)
    requires wf(s, w), 0 <= t < w.txs.len() - s.txs@.len(), 0 <= j < got(w, u).len(), got(w, u)[j].tx == w.txs[t].id
    ensures j < upto(w, u), state(w, u) == msgs_eff(got(w, u).take(upto(w, u)))
{
    if j >= upto(w, u) {
        let p = pending(w, u);
        let x = w.txs[t].id;
        assert(p[j - upto(w, u)] == got(w, u)[j]);
        assert(txs_of(p)[j - upto(w, u)] == x);
        assert(txs_of(p).contains(x));
        let i = at(s.txs@, x);
        assert(hask(s.txs@, x));
        assert(tx_same(s.txs@[i], w.txs[w.txs.len() - s.txs@.len() + i]));
    }
}
// ---- receiving a message
pub open spec fn open_tx(w: World) -> bool { w.txs.len() > 0 && w.txs.last().seq is None }
pub open spec fn txs_after(t: Seq<TxInfo>, id: Uuid, origin: Seqc, seq: Option<u64>) -> Seq<TxInfo> { if t.len() > 0 && t.last().seq is None { t.update(t.len() - 1, TxInfo { seq: seq, ..t.last() }) } else { t.push(TxInfo { id, origin, seq }) } }
pub open spec fn received(w: World, id: Uuid, url: Seqc, origin: Seqc, seq: Option<u64>, rows: int, e: Eff) -> World {
    World { txs: txs_after(w.txs, id, origin, seq), got: if rows > 0 { w.got.insert(url, got(w, url).push(Msg { tx: id, eff: e })) } else { w.got }, ..w }
}
pub open spec fn queue_after(t0: Seq<(Uuid, Transaction)>, t1: Seq<(Uuid, Transaction)>, id: Uuid, url: Seqc, origin: Seqc, seq: Option<u64>, rows: int) -> bool {
    if t0.len() > 0 && t0.last().1.sequence is None {
        &&& id == t0.last().0 && t1.len() == t0.len() && (forall|i: int| 0 <= i < t0.len() - 1 ==> #[trigger] t1[i] == t0[i])
        &&& t1.last().0 == id && t1.last().1.origin@ == t0.last().1.origin@ && t1.last().1.sequence == seq && t1.last().1.locations@ == (if rows > 0 { t0.last().1.locations@.insert(url) } else { t0.last().1.locations@ })
    } else {
        &&& t1.len() == t0.len() + 1 && (forall|i: int| 0 <= i < t0.len() ==> #[trigger] t1[i] == t0[i])
        &&& t1.last().0 == id && t1.last().1.origin@ == origin && t1.last().1.sequence == seq && t1.last().1.locations@ == (if rows > 0 { ISet::<Seqc>::empty().insert(url) } else { ISet::<Seqc>::empty() })
    }
}
pub open spec fn coll_after(c0: DataSyncCollection, c1: DataSyncCollection, id: Uuid, sh: Seq<Col>, d: Seq<RecordBatch>) -> bool {
    &&& items_eff(c1.syncs@) == then(items_eff(c0.syncs@), eff(sh, d)) && ids(c1.syncs@) =~= ids(c0.syncs@).push(id) && items_ok(c1.syncs@)
    &&& c1.size == c0.size + bsum(d) && isum(c1.syncs@) == isum(c0.syncs@) + bsum(d) && c1.rows == c0.rows + rsum(d) && irows(c1.syncs@) == irows(c0.syncs@) + rsum(d)
    &&& c1.insertion_time == c0.insertion_time && target_url(c1.sync_target) == target_url(c0.sync_target)
}
pub open spec fn coll_first(c1: DataSyncCollection, id: Uuid, url: Seqc, sh: Seq<Col>, d: Seq<RecordBatch>, clock0: int, clock: int) -> bool {
    &&& items_eff(c1.syncs@) == eff(sh, d) && ids(c1.syncs@) =~= seq![id] && coll_ok((url, c1)) && isum(c1.syncs@) == bsum(d) && clock0 <= c1.insertion_time <= clock
}
pub open spec fn syncs_after(m0: Seq<Entry>, m1: Seq<Entry>, id: Uuid, url: Seqc, sh: Seq<Col>, d: Seq<RecordBatch>, clock0: int, clock: int) -> bool {
    if hask(m0, url) { m1 == m0.update(at(m0, url), m1[at(m0, url)]) && m1[at(m0, url)].0 == url && coll_after(m0[at(m0, url)].1, m1[at(m0, url)].1, id, sh, d) }
    else { m1 == m0.push(m1.last()) && m1.last().0 == url && coll_first(m1.last().1, id, url, sh, d, clock0, clock) }
}
// ---- lemmas on the folds
pub broadcast proof fn lemma_items_push(v: Seq<DataSyncItem>, x: DataSyncItem)
    ensures #![trigger v.push(x)] items_eff(v.push(x)) == then(items_eff(v), item_eff(x)), ids(v.push(x)) == ids(v) + x.tx_ids@, isum(v.push(x)) == isum(v) + bsum(x.data@), irows(v.push(x)) == irows(v) + rsum(x.data@),
{ assert(v.push(x).drop_last() =~= v); }
pub broadcast proof fn lemma_items_last(v: Seq<DataSyncItem>, i: int, x: DataSyncItem)
    requires 0 <= i == v.len() - 1
    ensures #![trigger v.update(i, x)]
        items_eff(v.update(i, x)) == then(items_eff(v.drop_last()), item_eff(x)), ids(v.update(i, x)) == ids(v.drop_last()) + x.tx_ids@,
        isum(v.update(i, x)) == isum(v.drop_last()) + bsum(x.data@), irows(v.update(i, x)) == irows(v.drop_last()) + rsum(x.data@),
        items_eff(v) == then(items_eff(v.drop_last()), item_eff(v.last())), ids(v) == ids(v.drop_last()) + v.last().tx_ids@, isum(v) == isum(v.drop_last()) + bsum(v.last().data@), irows(v) == irows(v.drop_last()) + rsum(v.last().data@),
{ assert(v.update(i, x).drop_last() =~= v.drop_last()); }
pub broadcast proof fn lemma_batches_cat(sh: Seq<Col>, a: Seq<RecordBatch>, b: Seq<RecordBatch>)
    ensures #![trigger eff(sh, a + b)] eff(sh, a + b) == then(eff(sh, a), eff(sh, b)), bsum(a + b) == bsum(a) + bsum(b), rsum(a + b) == rsum(a) + rsum(b)
{ lemma_eff_cat(sh, a, b); lemma_sum_cat(a, b); }
pub proof fn lemma_items_upd(v: Seq<DataSyncItem>, i: int, x: DataSyncItem)
    requires 0 <= i < v.len()
    ensures isum(v.update(i, x)) == isum(v) - bsum(v[i].data@) + bsum(x.data@), irows(v.update(i, x)) == irows(v) - rsum(v[i].data@) + rsum(x.data@),
        item_eff(x) == item_eff(v[i]) ==> items_eff(v.update(i, x)) == items_eff(v), x.tx_ids@ == v[i].tx_ids@ ==> ids(v.update(i, x)) == ids(v),
    decreases v.len()
{
    if i == v.len() - 1 { assert(v.update(i, x).drop_last() =~= v.drop_last()); }
    else { lemma_items_upd(v.drop_last(), i, x); assert(v.update(i, x).drop_last() =~= v.drop_last().update(i, x)); }
}
pub proof fn lemma_sums_pos(v: Seq<DataSyncItem>, i: int) requires 0 <= i < v.len() ensures 0 <= bsum(v[i].data@) <= isum(v), 0 <= rsum(v[i].data@) <= irows(v) decreases v.len() {
    lemma_sum_mono(v.last().data@, 0); lemma_sum_mono(v[i].data@, 0);
    if i < v.len() - 1 { lemma_sums_pos(v.drop_last(), i); } else { lemma_sums_nonneg(v.drop_last()); }
}
pub proof fn lemma_sums_nonneg(v: Seq<DataSyncItem>) ensures isum(v) >= 0, irows(v) >= 0 decreases v.len() { if v.len() > 0 { lemma_sum_mono(v.last().data@, 0); lemma_sums_nonneg(v.drop_last()); } }
pub proof fn lemma_total_upd(m: Seq<Entry>, i: int, x: Entry) requires 0 <= i < m.len() ensures total(m.update(i, x)) == total(m) - m[i].1.size + x.1.size, total(m) >= m[i].1.size, total(m) >= 0 decreases m.len() {
    lemma_total_nonneg(m.drop_last());
    if i == m.len() - 1 { assert(m.update(i, x).drop_last() =~= m.drop_last()); }
    else { lemma_total_upd(m.drop_last(), i, x); assert(m.update(i, x).drop_last() =~= m.drop_last().update(i, x)); }
}
pub proof fn lemma_total_nonneg(m: Seq<Entry>) ensures total(m) >= 0 decreases m.len() { if m.len() > 0 { lemma_total_nonneg(m.drop_last()); } }
pub proof fn lemma_total_remove(m: Seq<Entry>, i: int) requires 0 <= i < m.len() ensures total(m.remove(i)) == total(m) - m[i].1.size, total(m) >= m[i].1.size decreases m.len() {
    lemma_total_nonneg(m.drop_last());
    if i == m.len() - 1 { assert(m.remove(i) =~= m.drop_last()); }
    else { lemma_total_remove(m.drop_last(), i); assert(m.remove(i).drop_last() =~= m.drop_last().remove(i)); }
}
pub broadcast proof fn lemma_total_push(m: Seq<Entry>, x: Entry) ensures #![trigger m.push(x)] total(m.push(x)) == total(m) + x.1.size { assert(m.push(x).drop_last() =~= m); }
// ---- the queue of transactions
// the transactions named lose the location
pub open spec fn unlocated(t0: Seq<(Uuid, Transaction)>, t1: Seq<(Uuid, Transaction)>, url: Seqc, ids: Seq<Uuid>) -> bool {
    &&& t1.len() == t0.len()
    &&& forall|i: int| 0 <= i < t0.len() ==> (#[trigger] t1[i]).0 == t0[i].0 && t1[i].1.origin == t0[i].1.origin && t1[i].1.sequence == t0[i].1.sequence && t1[i].1.locations@ =~= (if ids.contains(t0[i].0) { t0[i].1.locations@.remove(url) } else { t0[i].1.locations@ })
}
pub proof fn lemma_take_contains(v: Seq<Uuid>, k: int) requires 0 <= k < v.len() ensures forall|x: Uuid| #[trigger] v.take(k + 1).contains(x) <==> v.take(k).contains(x) || x == v[k] {
    assert forall|x: Uuid| #[trigger] v.take(k + 1).contains(x) <==> v.take(k).contains(x) || x == v[k] by {
        if v.take(k).contains(x) { let i = choose|i: int| 0 <= i < v.take(k).len() && #[trigger] v.take(k)[i] == x; assert(v.take(k + 1)[i] == x); }
        if x == v[k] { assert(v.take(k + 1)[k] == x); }
        if v.take(k + 1).contains(x) { let i = choose|i: int| 0 <= i < v.take(k + 1).len() && #[trigger] v.take(k + 1)[i] == x; if i < k { assert(v.take(k)[i] == x); } }
    }
}
// closed, with nothing left to flush
pub open spec fn complete(t: Transaction) -> bool { t.sequence is Some && forall|u: Seqc| !(#[trigger] t.locations@.contains(u)) }
pub open spec fn done(t: Seq<(Uuid, Transaction)>) -> int decreases t.len() { if t.len() > 0 && complete(t[0].1) { 1 + done(t.skip(1)) } else { 0 } }
pub proof fn lemma_done(t: Seq<(Uuid, Transaction)>, k: int)
    requires 0 <= k <= t.len()
    ensures 0 <= done(t) <= t.len(), k < done(t) ==> complete(t[k].1), k == done(t) && k < t.len() ==> !complete(t[k].1)
    decreases t.len()
{
    if t.len() > 0 && complete(t[0].1) { lemma_done(t.skip(1), if k > 0 { k - 1 } else { 0 }); }
}
pub open spec fn advanced(m: IMap<Seqc, u64>, t: Seq<(Uuid, Transaction)>) -> IMap<Seqc, u64> decreases t.len() { if t.len() == 0 { m } else { advanced(m, t.drop_last()).insert(t.last().1.origin@, t.last().1.sequence->Some_0) } }
// c positions looked at, of which the first d are dropped
pub open spec fn retained(t0: Seq<(Uuid, Transaction)>, t: Seq<(Uuid, Transaction)>, c: int, d: int) -> bool {
    0 <= c <= t0.len() && t =~= (if c < d { t0.skip(c) } else { t0.skip(d) })
}
pub open spec fn untouched(a: SeafowlDataSyncWriter, b: SeafowlDataSyncWriter) -> bool { a.txs@ =~= b.txs@ && a.syncs == b.syncs && a.size == b.size && a.origin_memory == b.origin_memory && a.origin_durable == b.origin_durable }
pub open spec fn enqueued(s0: SeafowlDataSyncWriter, s1: SeafowlDataSyncWriter, w0: World, w: World, id: Uuid, url: Seqc, origin: Seqc, seq: Option<u64>, sh: Seq<Col>, d: Seq<RecordBatch>) -> bool {
    let rows = rsum(d);
    &&& same_hist(w0, w)
    &&& queue_after(s0.txs@, s1.txs@, id, url, origin, seq, rows)
    &&& open_tx(w0) ==> w0.txs.last().origin == origin
    &&& !open_tx(w0) ==> !w0.used.contains(id) && w.used.contains(id)
    &&& if rows > 0 { syncs_after(s0.syncs@, s1.syncs@, id, url, sh, d, w0.clock, w.clock) && s1.size == s0.size + bsum(d) } else { s1.syncs == s0.syncs && s1.size == s0.size }
    &&& s1.origin_memory@ == (match seq { Some(n) => s0.origin_memory@.insert(origin, n), None => s0.origin_memory@ }) && s1.origin_durable == s0.origin_durable
}
// what is pending after the message
pub proof fn lemma_pending_received(s0: SeafowlDataSyncWriter, w0: World, w: World, id: Uuid, url: Seqc, origin: Seqc, seq: Option<u64>, rows: int, e: Eff)
    requires wf(s0, w0), same_hist(w0, w)
    ensures
        ({ let w2 = received(w, id, url, origin, seq, rows, e);
        &&& forall|u: Seqc| #[trigger] pending(w2, u) == (if rows > 0 && u == url { pending(w0, u).push(Msg { tx: id, eff: e }) } else { pending(w0, u) })
        &&& forall|u: Seqc| #[trigger] txs_of(pending(w2, u)) == (if rows > 0 && u == url { txs_of(pending(w0, u)).push(id) } else { txs_of(pending(w0, u)) })
        &&& forall|u: Seqc| #[trigger] upto(w2, u) == upto(w0, u)
        &&& forall|u: Seqc| #[trigger] got(w2, u).take(upto(w0, u)) == got(w0, u).take(upto(w0, u))
        &&& forall|u: Seqc| #[trigger] got(w2, u).len() >= got(w0, u).len() }),
{
    let w2 = received(w, id, url, origin, seq, rows, e);
    assert forall|u: Seqc| #[trigger] pending(w2, u) == (if rows > 0 && u == url { pending(w0, u).push(Msg { tx: id, eff: e }) } else { pending(w0, u) }) by {
        assert(0 <= upto(w0, u) <= got(w0, u).len());
        if rows > 0 && u == url { assert(pending(w2, u) =~= pending(w0, u).push(Msg { tx: id, eff: e })); } else { assert(got(w2, u) =~= got(w0, u)); }
    }
    assert forall|u: Seqc| #[trigger] txs_of(pending(w2, u)) == (if rows > 0 && u == url { txs_of(pending(w0, u)).push(id) } else { txs_of(pending(w0, u)) }) by {
        if rows > 0 && u == url { assert(pending(w2, u) == pending(w0, u).push(Msg { tx: id, eff: e })); assert(txs_of(pending(w2, u)) =~= txs_of(pending(w0, u)).push(id)); } else { assert(pending(w2, u) == pending(w0, u)); }
    }
    assert forall|u: Seqc| #[trigger] got(w2, u).take(upto(w0, u)) == got(w0, u).take(upto(w0, u)) by { assert(0 <= upto(w0, u) <= got(w0, u).len()); assert(got(w2, u).take(upto(w0, u)) =~= got(w0, u).take(upto(w0, u))); }
}
pub proof fn lemma_queue_open(s: SeafowlDataSyncWriter, w: World)
    requires tx_ok(s, w)
    ensures open_tx(w) == (s.txs@.len() > 0 && s.txs@.last().1.sequence is None), open_tx(w) ==> s.txs@.last().0 == w.txs.last().id && s.txs@.last().1.origin@ == w.txs.last().origin
{
    if s.txs@.len() > 0 { assert(tx_same(s.txs@[s.txs@.len() - 1], w.txs[w.txs.len() - s.txs@.len() + (s.txs@.len() - 1)])); } else if w.txs.len() > 0 { assert(w.txs[w.txs.len() - 1].seq is Some); }
}
pub proof fn lemma_received_sums(s0: SeafowlDataSyncWriter, s1: SeafowlDataSyncWriter, w0: World, w: World, id: Uuid, url: Seqc, origin: Seqc, seq: Option<u64>, sh: Seq<Col>, d: Seq<RecordBatch>)
    requires wf(s0, w0), enqueued(s0, s1, w0, w, id, url, origin, seq, sh, d)
    ensures sums_ok(s1), oldest_first(s1.syncs@),
        ({ let w2 = received(w, id, url, origin, seq, rsum(d), eff(sh, d));
        &&& forall|i: int| 0 <= i < s1.syncs@.len() ==> #[trigger] in_step(s1.syncs@[i], w2)
        &&& forall|u: Seqc| (#[trigger] pending(w2, u)).len() > 0 ==> hask(s1.syncs@, u) }),
{
    broadcast use lemma_total_push, ax_nil_l;
    let rows = rsum(d); let e = eff(sh, d);
    let w2 = received(w, id, url, origin, seq, rows, e);
    lemma_pending_received(s0, w0, w, id, url, origin, seq, rows, e);
    let (m0, m1) = (s0.syncs@, s1.syncs@);
    assert forall|i: int| 0 <= i < m0.len() implies (#[trigger] m0[i]).1.insertion_time <= w0.clock by { assert(in_step(m0[i], w0)); }
    assert(oldest_first(m1));
    if rows > 0 {
        let m = Msg { tx: id, eff: e };
        assert(pending(w2, url) == pending(w0, url).push(m));
        assert(pending(w0, url).push(m).drop_last() =~= pending(w0, url));
        assert(msgs_eff(pending(w2, url)) == then(msgs_eff(pending(w0, url)), e));
        if hask(m0, url) {
            let k = at(m0, url);
            lemma_total_upd(m0, k, m1[k]);
            assert(coll_ok(m0[k]));
            assert(in_step(m0[k], w0));
            assert(coll_ok(m1[k]));
            assert(distinct(m1)) by { assert forall|i: int, j: int| 0 <= i < m1.len() && 0 <= j < m1.len() && #[trigger] m1[i].0 == #[trigger] m1[j].0 implies i == j by { assert(m0[i].0 == m0[j].0); } }
            assert forall|i: int| 0 <= i < m1.len() implies #[trigger] in_step(m1[i], w2) && coll_ok(m1[i]) by {
                if i != k { assert(m1[i] == m0[i]); assert(in_step(m0[i], w0)); assert(coll_ok(m0[i])); assert(m0[i].0 != url); assert(pending(w2, m0[i].0) == pending(w0, m0[i].0)); }
                else { assert(txs_of(pending(w2, url)) == txs_of(pending(w0, url)).push(id)); }
            }
            assert forall|u: Seqc| (#[trigger] pending(w2, u)).len() > 0 implies hask(m1, u) by {
                if u == url { assert(m1[k].0 == url); } else { assert(pending(w0, u).len() > 0); let i = at(m0, u); assert(m0[i].0 == u); assert(m1[i].0 == u); }
            }
        } else {
            assert(pending(w0, url).len() == 0);
            assert(txs_of(pending(w0, url)) =~= Seq::empty());
            let n = m0.len() as int;
            assert(m1[n] == m1.last());
            assert(distinct(m1)) by { assert forall|i: int, j: int| 0 <= i < m1.len() && 0 <= j < m1.len() && #[trigger] m1[i].0 == #[trigger] m1[j].0 implies i == j by {
                if i < n && j < n { assert(m0[i].0 == m0[j].0); } else if i < n { assert(m0[i].0 == url); } else if j < n { assert(m0[j].0 == url); } } }
            assert(msgs_eff(pending(w0, url)) == nil());
            assert(txs_of(pending(w2, url)) =~= seq![id]);
            assert forall|i: int| 0 <= i < m1.len() implies #[trigger] in_step(m1[i], w2) && coll_ok(m1[i]) by {
                if i < n { assert(m1[i] == m0[i]); assert(in_step(m0[i], w0)); assert(coll_ok(m0[i])); assert(m0[i].0 != url); assert(pending(w2, m0[i].0) == pending(w0, m0[i].0)); }
            }
            assert forall|u: Seqc| (#[trigger] pending(w2, u)).len() > 0 implies hask(m1, u) by {
                if u == url { assert(m1[n].0 == url); } else { assert(pending(w0, u).len() > 0); let i = at(m0, u); assert(m0[i].0 == u); assert(m1[i].0 == u); }
            }
        }
    } else {
        assert forall|i: int| 0 <= i < m1.len() implies #[trigger] in_step(m1[i], w2) by { assert(in_step(m0[i], w0)); assert(pending(w2, m0[i].0) == pending(w0, m0[i].0)); }
        assert forall|u: Seqc| (#[trigger] pending(w2, u)).len() > 0 implies hask(m1, u) by { assert(pending(w0, u).len() > 0); }
    }
}
pub proof fn lemma_received_hist(s0: SeafowlDataSyncWriter, s1: SeafowlDataSyncWriter, w0: World, w: World, id: Uuid, url: Seqc, origin: Seqc, seq: Option<u64>, sh: Seq<Col>, d: Seq<RecordBatch>)
    requires wf(s0, w0), enqueued(s0, s1, w0, w, id, url, origin, seq, sh, d)
    ensures
        ({ let w2 = received(w, id, url, origin, seq, rsum(d), eff(sh, d));
        hist_ok(w2) && info_ok(w2) && s1.origin_memory@ == closed(w2.txs) && s1.origin_durable@ == closed(w2.txs.take(w2.txs.len() - s1.txs@.len())) }),
{
    let rows = rsum(d); let e = eff(sh, d);
    let w2 = received(w, id, url, origin, seq, rows, e);
    lemma_pending_received(s0, w0, w, id, url, origin, seq, rows, e);
    lemma_queue_open(s0, w0);
    let (t0, t2) = (w0.txs, w2.txs);
    let n = t0.len() as int;
    if open_tx(w0) {
        assert(t2.drop_last() =~= t0.drop_last());
        assert(t2.len() == n && forall|i: int| 0 <= i < n - 1 ==> #[trigger] t2[i] == t0[i]);
        assert(t2[n - 1].id == t0[n - 1].id && t2[n - 1].origin == t0[n - 1].origin);
        assert(t2.take(n - s1.txs@.len()) =~= t0.take(n - s0.txs@.len()));
    } else {
        assert(t2.drop_last() =~= t0);
        assert(t2.len() == n + 1 && forall|i: int| 0 <= i < n ==> #[trigger] t2[i] == t0[i]);
        assert(t2[n].id == id);
        assert(t2.take(n + 1 - s1.txs@.len()) =~= t0.take(n - s0.txs@.len()));
        if n > 0 { assert(t0[n - 1] == t0.last()); }
    }
    assert forall|a: int, b: int| 0 <= a < t2.len() && 0 <= b < t2.len() && #[trigger] t2[a].id == #[trigger] t2[b].id implies a == b by {
        if a < n && b < n { assert(t0[a].id == t0[b].id); } else { if a < n { assert(w0.used.contains(t0[a].id)); } if b < n { assert(w0.used.contains(t0[b].id)); } }
    }
    assert forall|a: int| 0 <= a < t2.len() implies w2.used.contains(#[trigger] t2[a].id) by { if a < n { assert(w0.used.contains(t0[a].id)); } }
    assert forall|a: int| 0 <= a < t2.len() - 1 implies (#[trigger] t2[a]).seq is Some by { if a < n - 1 { assert(t0[a].seq is Some); } }
    assert forall|u: Seqc| 0 <= #[trigger] upto(w2, u) <= got(w2, u).len() by { assert(0 <= upto(w0, u) <= got(w0, u).len()); assert(got(w2, u).len() >= got(w0, u).len()); }
    assert forall|u: Seqc| #[trigger] state(w2, u) == msgs_eff(got(w2, u).take(upto(w2, u))) by { assert(state(w0, u) == msgs_eff(got(w0, u).take(upto(w0, u)))); assert(got(w2, u).take(upto(w0, u)) == got(w0, u).take(upto(w0, u))); }
    assert forall|u: Seqc| #[trigger] info(w2, u).dom().contains(SYNC_COMMIT_INFO_spec()) implies honest(w2, u, json_info(info(w2, u)[SYNC_COMMIT_INFO_spec()])) by {
        assert(info(w0, u).dom().contains(SYNC_COMMIT_INFO_spec()));
        let c = json_info(info(w0, u)[SYNC_COMMIT_INFO_spec()]);
        assert(honest(w0, u, c));
        if !was_there(w0, u, c) {
            let t = choose|t: int| #[trigger] closed_as(w0, t, c) && applied(w0, u, t);
            assert(closed_as(w2, t, c));
            assert(applied(w2, u, t)) by {
                assert forall|i: int, j: int| 0 <= i <= t && 0 <= j < pending(w2, u).len() implies (#[trigger] pending(w2, u)[j]).tx != (#[trigger] w2.txs[i]).id by {
                    assert(w2.txs[i] == w0.txs[i]);
                    if j < pending(w0, u).len() { assert(pending(w2, u)[j] == pending(w0, u)[j]); } else { assert(w0.used.contains(w0.txs[i].id)); if open_tx(w0) { assert(w0.txs[i].id != w0.txs[n - 1].id); } }
                }
            }
        }
    }
}
pub proof fn lemma_received_queue(s0: SeafowlDataSyncWriter, s1: SeafowlDataSyncWriter, w0: World, w: World, id: Uuid, url: Seqc, origin: Seqc, seq: Option<u64>, sh: Seq<Col>, d: Seq<RecordBatch>)
    requires wf(s0, w0), enqueued(s0, s1, w0, w, id, url, origin, seq, sh, d)
    ensures tx_ok(s1, received(w, id, url, origin, seq, rsum(d), eff(sh, d)))
{
    let rows = rsum(d); let e = eff(sh, d);
    let w2 = received(w, id, url, origin, seq, rows, e);
    lemma_pending_received(s0, w0, w, id, url, origin, seq, rows, e);
    lemma_queue_open(s0, w0);
    let (q0, q1) = (s0.txs@, s1.txs@);
    let l = q1.len() - 1;
    assert(q1[l] == q1.last());
    if q0.len() > 0 { assert(q0[q0.len() - 1] == q0.last()); }
    assert forall|i: int| 0 <= i < q1.len() implies #[trigger] tx_same(q1[i], w2.txs[w2.txs.len() - q1.len() + i]) by {
        if i < l { assert(q1[i] == q0[i]); assert(tx_same(q0[i], w0.txs[w0.txs.len() - q0.len() + i])); }
        else if open_tx(w0) { assert(tx_same(q0[l], w0.txs[w0.txs.len() - q0.len() + l])); }
    }
    assert forall|a: int| 0 <= a < w2.txs.len() - q1.len() implies (#[trigger] w2.txs[a]).seq is Some by { assert(w0.txs[a].seq is Some); assert(w2.txs[a] == w0.txs[a]); }
    assert forall|u: Seqc, x: Uuid| #[trigger] txs_of(pending(w2, u)).contains(x) implies hask(q1, x) by {
        let p = txs_of(pending(w0, u));
        if rows > 0 && u == url { lemma_push_contains(p, id, x); }
        if x == id { assert(q1[l].0 == x); } else { assert(p.contains(x)); let i = at(q0, x); assert(q0[i].0 == x); assert(q1[i].0 == x); }
    }
    assert forall|i: int, u: Seqc| 0 <= i < q1.len() implies (#[trigger] q1[i].1.locations@.contains(u) <==> txs_of(pending(w2, u)).contains(q1[i].0)) by {
        let p = txs_of(pending(w0, u));
        lemma_push_contains(p, id, q1[i].0);
        if i < l {
            assert(q1[i] == q0[i]);
            assert(q0[i].1.locations@.contains(u) <==> p.contains(q0[i].0));
            assert(q1[i].0 != id) by {
                assert(tx_same(q0[i], w0.txs[w0.txs.len() - q0.len() + i])); assert(w0.used.contains(w0.txs[w0.txs.len() - q0.len() + i].id));
                if open_tx(w0) { assert(tx_same(q0[l], w0.txs[w0.txs.len() - q0.len() + l])); assert(w0.txs[w0.txs.len() - q0.len() + i].id != w0.txs[w0.txs.len() - q0.len() + l].id); }
            }
        } else if open_tx(w0) { assert(q0[l].1.locations@.contains(u) <==> p.contains(q0[l].0)); }
        else { assert(!p.contains(id)) by { if p.contains(id) { let k = at(q0, id); assert(q0[k].0 == id); assert(tx_same(q0[k], w0.txs[w0.txs.len() - q0.len() + k])); assert(w0.used.contains(w0.txs[w0.txs.len() - q0.len() + k].id)); } } }
    }
}
pub proof fn lemma_push_contains(p: Seq<Uuid>, id: Uuid, x: Uuid) ensures p.push(id).contains(x) <==> p.contains(x) || x == id {
    if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(p.push(id)[i] == x); }
    if x == id { assert(p.push(id)[p.len() as int] == x); }
    if p.push(id).contains(x) { let i = choose|i: int| 0 <= i < p.push(id).len() && #[trigger] p.push(id)[i] == x; if i < p.len() { assert(p[i] == x); } }
}
pub proof fn lemma_received(s0: SeafowlDataSyncWriter, s1: SeafowlDataSyncWriter, w0: World, w: World, id: Uuid, url: Seqc, origin: Seqc, seq: Option<u64>, sh: Seq<Col>, d: Seq<RecordBatch>)
    requires wf(s0, w0), enqueued(s0, s1, w0, w, id, url, origin, seq, sh, d)
    ensures wf(s1, received(w, id, url, origin, seq, rsum(d), eff(sh, d)))
{
    lemma_received_sums(s0, s1, w0, w, id, url, origin, seq, sh, d);
    lemma_received_hist(s0, s1, w0, w, id, url, origin, seq, sh, d);
    lemma_received_queue(s0, s1, w0, w, id, url, origin, seq, sh, d);
}
// ---- squashing: what the table's batches do stays the same
pub open spec fn single(v: Seq<DataSyncItem>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).is_squashed && v[i].data@.len() == 1 }
pub open spec fn same_coll(a: DataSyncCollection, b: DataSyncCollection) -> bool { items_eff(b.syncs@) == items_eff(a.syncs@) && ids(b.syncs@) == ids(a.syncs@) && b.insertion_time == a.insertion_time && b.sync_target == a.sync_target && b.syncs@.len() == a.syncs@.len() }
pub open spec fn squashed(m0: Seq<Entry>, m1: Seq<Entry>, url: Seqc) -> bool {
    if hask(m0, url) { m1 == m0.update(at(m0, url), m1[at(m0, url)]) && m1[at(m0, url)].0 == url && same_coll(m0[at(m0, url)].1, m1[at(m0, url)].1) } else { m1 == m0 }
}
// what is held in memory is less than 2^60 bytes and rows
#[verifier::external_body] pub broadcast proof fn ax_memory(v: Vec<DataSyncItem>) ensures #![trigger v@] isum(v@) <= MEM(), irows(v@) <= MEM() {}
#[verifier::external_body] pub fn squash_batches(sync_schema: &mut SyncSchema, data: &Vec<RecordBatch>) -> (r: SyncResult<RecordBatch>)
    requires data@.len() > 0
    ensures r matches Ok(b) ==> seff(shape(*final(sync_schema)), b) == eff(shape(*old(sync_schema)), data@), r is Err ==> eff(shape(*final(sync_schema)), data@) == eff(shape(*old(sync_schema)), data@)
{ unimplemented!() }
pub proof fn lemma_squash_upd(syncs: Vec<DataSyncItem>, k: int)
    requires items_ok(syncs@)
    ensures isum(syncs@) <= MEM(), irows(syncs@) <= MEM(),
        forall|x: DataSyncItem| 0 <= k < syncs@.len() ==> ({ let n = #[trigger] syncs@.update(k, x); let o = syncs@[k];
            &&& isum(n) == isum(syncs@) - bsum(o.data@) + bsum(x.data@) && irows(n) == irows(syncs@) - rsum(o.data@) + rsum(x.data@)
            &&& 0 <= bsum(o.data@) <= isum(syncs@) && 0 <= rsum(o.data@) <= irows(syncs@)
            &&& (item_eff(x) == item_eff(o) ==> items_eff(n) == items_eff(syncs@))
            &&& (x.tx_ids@ == o.tx_ids@ ==> ids(n) == ids(syncs@))
            &&& (item_ok(x) ==> items_ok(n)) }),
        0 <= k < syncs@.len() ==> item_ok(syncs@[k]) && 0 <= bsum(syncs@[k].data@) <= isum(syncs@) && 0 <= rsum(syncs@[k].data@) <= irows(syncs@),
{
    broadcast use ax_memory;
    if 0 <= k < syncs@.len() { lemma_sums_pos(syncs@, k); }
    assert forall|x: DataSyncItem| 0 <= k < syncs@.len() implies ({ let n = #[trigger] syncs@.update(k, x); let o = syncs@[k];
            &&& isum(n) == isum(syncs@) - bsum(o.data@) + bsum(x.data@) && irows(n) == irows(syncs@) - rsum(o.data@) + rsum(x.data@)
            &&& 0 <= bsum(o.data@) <= isum(syncs@) && 0 <= rsum(o.data@) <= irows(syncs@)
            &&& (item_eff(x) == item_eff(o) ==> items_eff(n) == items_eff(syncs@))
            &&& (x.tx_ids@ == o.tx_ids@ ==> ids(n) == ids(syncs@))
            &&& (item_ok(x) ==> items_ok(n)) }) by { lemma_items_upd(syncs@, k, x); }
}
pub proof fn lemma_one_batch(d: Seq<RecordBatch>) requires d.len() == 1 ensures bsum(d) == bytes_of(d[0]), rsum(d) == rows_of(d[0]), d == seq![d[0]] { assert(d.drop_last() =~= Seq::empty()); assert(bsum(d.drop_last()) == 0); assert(rsum(d.drop_last()) == 0); assert(d =~= seq![d[0]]); }
pub broadcast proof fn lemma_one_batch_vec(v: Vec<RecordBatch>) ensures #![trigger v@] v@.len() == 1 ==> bsum(v@) == bytes_of(v@[0]) && rsum(v@) == rows_of(v@[0]) && v@ == seq![v@[0]] { if v@.len() == 1 { lemma_one_batch(v@); } }
pub proof fn lemma_squash_end(s: SeafowlDataSyncWriter, url: Seqc)
    requires sums_ok(s)
    ensures
        !hask(s.syncs@, url) ==> squashed(s.syncs@, s.syncs@, url),
        hask(s.syncs@, url) ==> coll_ok(s.syncs@[at(s.syncs@, url)]) && s.syncs@[at(s.syncs@, url)].0 == url && total(s.syncs@) >= s.syncs@[at(s.syncs@, url)].1.size,
        forall|x: DataSyncCollection| hask(s.syncs@, url) && same_coll(s.syncs@[at(s.syncs@, url)].1, x) && coll_ok((url, x)) ==> ({ let m1 = #[trigger] s.syncs@.update(at(s.syncs@, url), (url, x));
            squashed(s.syncs@, m1, url) && distinct(m1) && (forall|i: int| 0 <= i < m1.len() ==> #[trigger] coll_ok(m1[i])) && total(m1) == total(s.syncs@) - s.syncs@[at(s.syncs@, url)].1.size + x.size && hask(m1, url) && at(m1, url) == at(s.syncs@, url) }),
{
    let m0 = s.syncs@;
    if hask(m0, url) {
        let k = at(m0, url);
        assert(coll_ok(m0[k]));
        lemma_total_upd(m0, k, m0[k]);
        assert forall|x: DataSyncCollection| same_coll(m0[k].1, x) && coll_ok((url, x)) implies ({ let m1 = #[trigger] m0.update(k, (url, x));
            squashed(m0, m1, url) && distinct(m1) && (forall|i: int| 0 <= i < m1.len() ==> #[trigger] coll_ok(m1[i])) && total(m1) == total(m0) - m0[k].1.size + x.size && hask(m1, url) && at(m1, url) == k }) by {
            let m1 = m0.update(k, (url, x));
            lemma_total_upd(m0, k, (url, x));
            assert forall|i: int, j: int| 0 <= i < m1.len() && 0 <= j < m1.len() && #[trigger] m1[i].0 == #[trigger] m1[j].0 implies i == j by { assert(m0[i].0 == m0[j].0); }
            assert(m1[k].0 == url);
            assert forall|i: int| 0 <= i < m1.len() implies #[trigger] coll_ok(m1[i]) by { if i != k { assert(coll_ok(m0[i])); } }
        }
    }
}
pub proof fn lemma_squashed_wf(s0: SeafowlDataSyncWriter, s1: SeafowlDataSyncWriter, w: World, url: Seqc)
    requires wf(s0, w), squashed(s0.syncs@, s1.syncs@, url), sums_ok(s1), s1.txs == s0.txs, s1.origin_memory == s0.origin_memory, s1.origin_durable == s0.origin_durable
    ensures wf(s1, w), forall|u: Seqc| #[trigger] hask(s1.syncs@, u) <==> hask(s0.syncs@, u)
{
    let (m0, m1) = (s0.syncs@, s1.syncs@);
    assert(m1.len() == m0.len());
    assert forall|i: int| 0 <= i < m1.len() implies (#[trigger] m1[i]).0 == m0[i].0 && m1[i].1.insertion_time == m0[i].1.insertion_time by {}
    assert forall|i: int| 0 <= i < m1.len() implies #[trigger] in_step(m1[i], w) by { assert(in_step(m0[i], w)); }
    assert forall|u: Seqc| #[trigger] hask(m1, u) <==> hask(m0, u) by {
        if hask(m1, u) { let i = at(m1, u); assert(m0[i].0 == u); }
        if hask(m0, u) { let i = at(m0, u); assert(m1[i].0 == u); }
    }
    assert forall|u: Seqc| (#[trigger] pending(w, u)).len() > 0 implies hask(m1, u) by { assert(hask(m0, u)); }
}
pub proof fn lemma_clock_wf(s: SeafowlDataSyncWriter, w0: World, w: World)
    requires wf(s, w0), same_hist(w0, w)
    ensures wf(s, w)
{
    assert forall|u: Seqc| #[trigger] pending(w, u) == pending(w0, u) by {}
    assert forall|i: int| 0 <= i < s.syncs@.len() implies #[trigger] in_step(s.syncs@[i], w) by { assert(in_step(s.syncs@[i], w0)); }
    assert forall|u: Seqc| 0 <= #[trigger] upto(w, u) <= got(w, u).len() by { assert(0 <= upto(w0, u) <= got(w0, u).len()); }
    assert forall|u: Seqc| #[trigger] state(w, u) == msgs_eff(got(w, u).take(upto(w, u))) by { assert(state(w0, u) == msgs_eff(got(w0, u).take(upto(w0, u)))); }
    assert forall|a: int| 0 <= a < w.txs.len() implies w.used.contains(#[trigger] w.txs[a].id) by { assert(w0.used.contains(w0.txs[a].id)); }
    assert forall|u: Seqc, x: Uuid| #[trigger] txs_of(pending(w, u)).contains(x) implies hask(s.txs@, x) by { assert(txs_of(pending(w0, u)).contains(x)); }
    assert forall|i: int, u: Seqc| 0 <= i < s.txs@.len() implies (#[trigger] s.txs@[i].1.locations@.contains(u) <==> txs_of(pending(w, u)).contains(s.txs@[i].0)) by { assert(s.txs@[i].1.locations@.contains(u) <==> txs_of(pending(w0, u)).contains(s.txs@[i].0)); }
    assert forall|u: Seqc| #[trigger] info(w, u).dom().contains(SYNC_COMMIT_INFO_spec()) implies honest(w, u, json_info(info(w, u)[SYNC_COMMIT_INFO_spec()])) by {
        let c = json_info(info(w0, u)[SYNC_COMMIT_INFO_spec()]);
        assert(info(w0, u).dom().contains(SYNC_COMMIT_INFO_spec()));
        assert(honest(w0, u, c));
        if !was_there(w0, u, c) {
            let t = choose|t: int| #[trigger] closed_as(w0, t, c) && applied(w0, u, t);
            assert(closed_as(w, t, c));
            assert(applied(w, u, t)) by { assert forall|i: int, j: int| 0 <= i <= t && 0 <= j < pending(w, u).len() implies (#[trigger] pending(w, u)[j]).tx != (#[trigger] w.txs[i]).id by { assert(pending(w0, u)[j].tx != w0.txs[i].id); } }
        }
    }
}
pub open spec fn within_limits(e: Entry, c: SyncConf, w: World) -> bool { e.1.syncs@.len() < c.max_syncs_per_url && w.clock - e.1.insertion_time < c.max_replication_lag_s }
pub proof fn lemma_entries(s: SeafowlDataSyncWriter, w: World)
    requires wf(s, w)
    ensures forall|i: int| 0 <= i < s.syncs@.len() ==> (#[trigger] s.syncs@[i]).1.insertion_time <= w.clock, s.syncs@.len() > 0 ==> s.syncs@[0].1.insertion_time <= w.clock && hask(s.syncs@, s.syncs@[0].0),
        forall|x: World| same_hist(w, x) ==> #[trigger] wf(s, x),
        forall|x: SeafowlDataSyncWriter, u: Seqc, y: World| same_hist(w, y) && #[trigger] squashed(s.syncs@, x.syncs@, u) && sums_ok(x) && x.txs == s.txs && x.origin_memory == s.origin_memory && x.origin_durable == s.origin_durable ==> #[trigger] wf(x, y)
            && (hask(s.syncs@, u) ==> hask(x.syncs@, u)),
        forall|x: SeafowlDataSyncWriter, u: Seqc| #[trigger] squashed(s.syncs@, x.syncs@, u) ==> x.syncs@.len() == s.syncs@.len() && (s.syncs@.len() > 0 ==> x.syncs@[0].1.insertion_time == s.syncs@[0].1.insertion_time) && (forall|i: int| 0 <= i < x.syncs@.len() ==> (#[trigger] x.syncs@[i]).1.insertion_time >= s.syncs@[0].1.insertion_time),
{
    assert forall|i: int| 0 <= i < s.syncs@.len() implies (#[trigger] s.syncs@[i]).1.insertion_time <= w.clock by { assert(in_step(s.syncs@[i], w)); }
    assert forall|x: World| same_hist(w, x) implies #[trigger] wf(s, x) by { lemma_clock_wf(s, w, x); }
    assert forall|x: SeafowlDataSyncWriter, u: Seqc, y: World| same_hist(w, y) && #[trigger] squashed(s.syncs@, x.syncs@, u) && sums_ok(x) && x.txs == s.txs && x.origin_memory == s.origin_memory && x.origin_durable == s.origin_durable implies #[trigger] wf(x, y)
            && (hask(s.syncs@, u) ==> hask(x.syncs@, u)) by { lemma_clock_wf(s, w, y); lemma_squashed_wf(s, x, y, u); }
    assert forall|x: SeafowlDataSyncWriter, u: Seqc| #[trigger] squashed(s.syncs@, x.syncs@, u) implies x.syncs@.len() == s.syncs@.len() && (s.syncs@.len() > 0 ==> x.syncs@[0].1.insertion_time == s.syncs@[0].1.insertion_time) && (forall|i: int| 0 <= i < x.syncs@.len() ==> (#[trigger] x.syncs@[i]).1.insertion_time >= s.syncs@[0].1.insertion_time) by {
        assert(x.syncs@.len() == s.syncs@.len());
        assert forall|i: int| 0 <= i < x.syncs@.len() implies (#[trigger] x.syncs@[i]).1.insertion_time == s.syncs@[i].1.insertion_time by {}
    }
}
// ---- what a commit records
pub open spec fn last_tx(i: DataSyncItem) -> Uuid { i.tx_ids@.last() }
pub open spec fn seq_of(t: Seq<(Uuid, Transaction)>, x: Uuid) -> Option<u64> { t[at(t, x)].1.sequence }
// the last batch whose transaction is closed
pub open spec fn newest_at(t: Seq<(Uuid, Transaction)>, v: Seq<DataSyncItem>, c: SyncCommitInfo, i: int) -> bool {
    &&& 0 <= i < v.len() && seq_of(t, last_tx(v[i])) == Some(c.sequence) && t[at(t, last_tx(v[i]))].1.origin@ == c.origin@
    &&& forall|j: int| i < j < v.len() ==> seq_of(t, last_tx(#[trigger] v[j])) is None
}
pub open spec fn newest(t: Seq<(Uuid, Transaction)>, v: Seq<DataSyncItem>, c: SyncCommitInfo) -> bool { exists|i: int| #[trigger] newest_at(t, v, c, i) }
pub struct Commit { pub info: InfoMap }
// the history of a table, newest first
#[verifier::external_body] pub fn wr_history(w: &mut World, t: &DeltaTable, limit: Option<usize>) -> (r: core::result::Result<Vec<Commit>, LibError>)
    ensures *final(w) == *old(w), r matches Ok(v) ==> v@.len() > 0 && v@[0].info@ == info(*old(w), t.url()) && (limit matches Some(n) ==> n > 0 ==> v@.len() <= n)
{ unimplemented!() }
// ---- flushing a table
#[verifier::external_body] pub struct Plan { p: u8 }
// the files hold the rows of the plan, at the location
pub uninterp spec fn holds(a: Seq<AddFile>, p: Plan, url: Seqc) -> bool;
// what removing the files and adding the others does to the table
pub uninterp spec fn change(a: Seq<AddFile>, rm: Seq<RemoveFile>, url: Seqc) -> Eff;
#[verifier::external_body] pub struct SeafowlSyncPlanner { p: u8 }
impl SeafowlSyncPlanner {
    #[verifier::external_body] pub fn new(c: SeafowlContext) -> SeafowlSyncPlanner { unimplemented!() }
    // the plan applies the batches, in order, to the table as it was loaded (one batch to an item)
    #[verifier::external_body] pub fn plan_delta_syncs(&self, syncs: &[DataSyncItem], table: &DeltaTable) -> (r: SyncResult<(Plan, Vec<Action>)>)
        requires single(syncs@), items_ok(syncs@), table.loaded()
        ensures r matches Ok(x) ==> adds_in(x.1@).len() == 0 && info_in(x.1@) is None && forall|a: Seq<AddFile>| #[trigger] holds(a, x.0, table.url()) ==> change(a, removes_in(x.1@), table.url()) == items_eff(syncs@)
    { unimplemented!() }
}
#[verifier::external_body] pub fn plan_to_delta_adds(s: &SessionState, p: &Plan, store: ObjStore, local: Option<String>, max: u32) -> (r: core::result::Result<Vec<AddFile>, LibError>)
    ensures r matches Ok(v) ==> holds(v@, *p, store.url())
{ unimplemented!() }
// a commit that succeeds puts the change into the table and records its info; one that fails changes nothing
pub open spec fn committed(w0: World, w1: World, u: Seqc, e: Eff, m: IMap<Seqc, JsonValue>) -> bool {
    w1 == (World { state: w0.state.insert(u, then(state(w0, u), e)), upto: w0.upto.insert(u, got(w0, u).len() as int), info: w0.info.insert(u, m), ..w0 })
}
#[verifier::external_body] pub fn wr_commit(w: &mut World, c: &SeafowlContext, actions: Vec<Action>, table: &DeltaTable, op: DeltaOperation) -> (r: core::result::Result<i64, LibError>)
    requires table.loaded()
    ensures r is Err ==> *final(w) == *old(w), r is Ok ==> committed(*old(w), *final(w), table.url(), change(adds_in(actions@), removes_in(actions@), table.url()), match info_in(actions@) { Some(m) => m@, None => IMap::<Seqc, JsonValue>::empty() })
{ unimplemented!() }
pub open spec fn record_ok(s: SeafowlDataSyncWriter, w: World, url: Seqc, v: Seq<DataSyncItem>, m: IMap<Seqc, JsonValue>) -> bool {
    m.dom().contains(SYNC_COMMIT_INFO_spec()) ==> exists|c: SyncCommitInfo, l: Option<SyncCommitInfo>| #[trigger] recorded(s, w, url, v, c, l) && json_info(m[SYNC_COMMIT_INFO_spec()]) == civ(c)
}
pub open spec fn recorded(s: SeafowlDataSyncWriter, w: World, url: Seqc, v: Seq<DataSyncItem>, c: SyncCommitInfo, l: Option<SyncCommitInfo>) -> bool {
    &&& newest(s.txs@, v, c) || (l matches Some(x) && c.origin@ == x.origin@ && c.sequence == x.sequence)
    &&& l matches Some(x) ==> info(w, url).dom().contains(SYNC_COMMIT_INFO_spec()) && civ(x) == json_info(info(w, url)[SYNC_COMMIT_INFO_spec()])
}
pub open spec fn same_members(a: Seq<Uuid>, b: Seq<Uuid>) -> bool { forall|x: Uuid| #[trigger] a.contains(x) <==> b.contains(x) }
pub proof fn lemma_advanced(m: Seq<TxInfo>, t: Seq<(Uuid, Transaction)>, k: int)
    requires 0 <= k <= t.len() <= m.len(), forall|i: int| 0 <= i < k ==> tx_same(#[trigger] t[i], m[m.len() - t.len() + i]) && t[i].1.sequence is Some
    ensures advanced(closed(m.take(m.len() - t.len())), t.take(k)) == closed(m.take(m.len() - t.len() + k))
    decreases k
{
    if k == 0 { assert(t.take(0) =~= Seq::empty()); }
    else {
        lemma_advanced(m, t, k - 1);
        assert(t.take(k).drop_last() =~= t.take(k - 1)); assert(t.take(k).last() == t[k - 1]);
        let n = m.len() - t.len() + k;
        assert(m.take(n).drop_last() =~= m.take(n - 1)); assert(m.take(n).last() == m[n - 1]);
        assert(tx_same(t[k - 1], m[n - 1]));
    }
}
pub proof fn lemma_distinct_same(t0: Seq<(Uuid, Transaction)>, t1: Seq<(Uuid, Transaction)>, url: Seqc, x: Seq<Uuid>) requires distinct(t0), unlocated(t0, t1, url, x) ensures distinct(t1) {
    assert forall|i: int, j: int| 0 <= i < t1.len() && 0 <= j < t1.len() && #[trigger] t1[i].0 == #[trigger] t1[j].0 implies i == j by { assert(t0[i].0 == t0[j].0); }
}
pub broadcast proof fn lemma_wf_distinct(s: SeafowlDataSyncWriter, w: World) requires #[trigger] wf(s, w) ensures distinct(s.txs@) {
    let n = w.txs.len() - s.txs@.len();
    assert forall|i: int, j: int| 0 <= i < s.txs@.len() && 0 <= j < s.txs@.len() && #[trigger] s.txs@[i].0 == #[trigger] s.txs@[j].0 implies i == j by { assert(tx_same(s.txs@[i], w.txs[n + i])); assert(tx_same(s.txs@[j], w.txs[n + j])); }
}
pub open spec fn flushed(s0: SeafowlDataSyncWriter, s1: SeafowlDataSyncWriter, url: Seqc, x: Seq<Uuid>, t1: Seq<(Uuid, Transaction)>) -> bool {
    &&& unlocated(s0.txs@, t1, url, x) && s1.txs@ == t1.skip(done(t1)) && s1.origin_durable@ == advanced(s0.origin_durable@, t1.take(done(t1))) && s1.origin_memory == s0.origin_memory
    &&& s1.syncs@ == s0.syncs@.remove(at(s0.syncs@, url)) && s1.size == total(s1.syncs@)
}
pub proof fn lemma_flushed_tables(s0: SeafowlDataSyncWriter, s1: SeafowlDataSyncWriter, w0: World, w1: World, url: Seqc, i: IMap<Seqc, JsonValue>)
    requires wf(s0, w0), hask(s0.syncs@, url), s1.syncs@ == s0.syncs@.remove(at(s0.syncs@, url)), s1.size == total(s1.syncs@),
        committed(w0, w1, url, items_eff(s0.syncs@[at(s0.syncs@, url)].1.syncs@), i)
    ensures sums_ok(s1), oldest_first(s1.syncs@), pending(w1, url).len() == 0, !hask(s1.syncs@, url),
        forall|u: Seqc| u != url ==> #[trigger] pending(w1, u) == pending(w0, u),
        forall|j: int| 0 <= j < s1.syncs@.len() ==> #[trigger] in_step(s1.syncs@[j], w1),
        forall|u: Seqc| (#[trigger] pending(w1, u)).len() > 0 ==> hask(s1.syncs@, u),
        hist_ok(w1),
{
    let (m0, m1) = (s0.syncs@, s1.syncs@);
    let k = at(m0, url);
    assert(m0[k].0 == url);
    assert(in_step(m0[k], w0));
    assert(0 <= upto(w0, url) <= got(w0, url).len());
    assert(pending(w1, url).len() == 0);
    assert forall|u: Seqc| u != url implies #[trigger] pending(w1, u) == pending(w0, u) by {}
    assert forall|j: int| 0 <= j < m1.len() implies m1[j] == m0[#[trigger] old_at(k, j)] && m1[j].0 != url by { if j < k { assert(m0[j].0 != m0[k].0); } else { assert(m0[j + 1].0 != m0[k].0); } }
    assert forall|a: int, b: int| 0 <= a < m1.len() && 0 <= b < m1.len() && #[trigger] m1[a].0 == #[trigger] m1[b].0 implies a == b by { assert(m0[old_at(k, a)].0 == m0[old_at(k, b)].0); }
    assert forall|j: int| 0 <= j < m1.len() implies #[trigger] in_step(m1[j], w1) && coll_ok(m1[j]) by { assert(in_step(m0[old_at(k, j)], w0)); assert(coll_ok(m0[old_at(k, j)])); assert(pending(w1, m1[j].0) == pending(w0, m1[j].0)); }
    assert forall|u: Seqc| (#[trigger] pending(w1, u)).len() > 0 implies hask(m1, u) by {
        assert(u != url); assert(pending(w0, u).len() > 0); let j = at(m0, u); assert(m0[j].0 == u); if j < k { assert(m1[j].0 == u); } else { assert(m1[j - 1] == m0[old_at(k, j - 1)]); assert(m1[j - 1].0 == u); }
    }
    assert(!hask(m1, url)) by { if hask(m1, url) { let j = at(m1, url); assert(m1[j] == m0[old_at(k, j)]); } }
    assert forall|u: Seqc| 0 <= #[trigger] upto(w1, u) <= got(w1, u).len() by { assert(0 <= upto(w0, u) <= got(w0, u).len()); }
    assert forall|u: Seqc| #[trigger] state(w1, u) == msgs_eff(got(w1, u).take(upto(w1, u))) by {
        assert(state(w0, u) == msgs_eff(got(w0, u).take(upto(w0, u))));
        if u == url {
            let g = got(w0, u);
            lemma_msgs_cat(g.take(upto(w0, u)), pending(w0, u));
            assert(g.take(upto(w0, u)) + pending(w0, u) =~= g);
            assert(g.take(g.len() as int) =~= g);
        }
    }
}
pub open spec fn old_at(k: int, j: int) -> int { if j < k { j } else { j + 1 } }
pub proof fn lemma_flushed_info(s0: SeafowlDataSyncWriter, w0: World, w1: World, url: Seqc, i: IMap<Seqc, JsonValue>, e: Eff)
    requires wf(s0, w0), hask(s0.syncs@, url), committed(w0, w1, url, e, i), pending(w1, url).len() == 0, forall|u: Seqc| u != url ==> #[trigger] pending(w1, u) == pending(w0, u),
        record_ok(s0, w0, url, s0.syncs@[at(s0.syncs@, url)].1.syncs@, i),
        forall|k: int| 0 <= k < s0.syncs@[at(s0.syncs@, url)].1.syncs@.len() ==> hask(s0.txs@, last_tx(#[trigger] s0.syncs@[at(s0.syncs@, url)].1.syncs@[k])),
    ensures info_ok(w1)
{
    let v = s0.syncs@[at(s0.syncs@, url)].1.syncs@;
    assert forall|u: Seqc| #[trigger] info(w1, u).dom().contains(SYNC_COMMIT_INFO_spec()) implies honest(w1, u, json_info(info(w1, u)[SYNC_COMMIT_INFO_spec()])) by {
        if u != url {
            assert(info(w0, u) == info(w1, u));
            let c = json_info(info(w0, u)[SYNC_COMMIT_INFO_spec()]);
            assert(honest(w0, u, c));
            if !was_there(w0, u, c) {
                let t = choose|t: int| #[trigger] closed_as(w0, t, c) && applied(w0, u, t);
                assert(closed_as(w1, t, c));
                assert(applied(w1, u, t)) by { assert forall|a: int, j: int| 0 <= a <= t && 0 <= j < pending(w1, u).len() implies (#[trigger] pending(w1, u)[j]).tx != (#[trigger] w1.txs[a]).id by { assert(pending(w0, u)[j].tx != w0.txs[a].id); } }
            }
        } else {
            let (c, l) = choose|c: SyncCommitInfo, l: Option<SyncCommitInfo>| #[trigger] recorded(s0, w0, url, v, c, l) && json_info(i[SYNC_COMMIT_INFO_spec()]) == civ(c);
            assert forall|t: int| applied(w1, url, t) by {}
            if newest(s0.txs@, v, c) {
                let k = choose|k: int| #[trigger] newest_at(s0.txs@, v, c, k);
                let q = at(s0.txs@, last_tx(v[k]));
                assert(hask(s0.txs@, last_tx(v[k])));
                let t = w0.txs.len() - s0.txs@.len() + q;
                assert(tx_same(s0.txs@[q], w0.txs[t]));
                assert(closed_as(w1, t, civ(c)));
                assert(applied(w1, url, t));
            } else {
                let x = l->Some_0;
                assert(honest(w0, url, civ(x)));
                if !was_there(w0, url, civ(x)) {
                    let t = choose|t: int| #[trigger] closed_as(w0, t, civ(x)) && applied(w0, url, t);
                    assert(closed_as(w1, t, civ(c)));
                    assert(applied(w1, url, t));
                }
            }
        }
    }
}
pub proof fn lemma_flushed_queue(s0: SeafowlDataSyncWriter, s1: SeafowlDataSyncWriter, w0: World, w1: World, url: Seqc, x: Seq<Uuid>, t1: Seq<(Uuid, Transaction)>, i: IMap<Seqc, JsonValue>, e: Eff)
    requires wf(s0, w0), hask(s0.syncs@, url), flushed(s0, s1, url, x, t1), same_members(x, ids(s0.syncs@[at(s0.syncs@, url)].1.syncs@)), committed(w0, w1, url, e, i), pending(w1, url).len() == 0, forall|u: Seqc| u != url ==> #[trigger] pending(w1, u) == pending(w0, u),
    ensures tx_ok(s1, w1), s1.origin_durable@ == closed(w1.txs.take(w1.txs.len() - s1.txs@.len())), s1.txs@.len() == 0 || !complete(s1.txs@[0].1)
{
    let (t0, t2) = (s0.txs@, s1.txs@);
    let d = done(t1);
    let n = w0.txs.len() as int;
    assert(in_step(s0.syncs@[at(s0.syncs@, url)], w0));
    lemma_done(t1, 0);
    lemma_wf_distinct(s0, w0);
    assert forall|j: int| 0 <= j < t1.len() implies tx_same(#[trigger] t1[j], w1.txs[n - t1.len() + j]) by { assert(tx_same(t0[j], w0.txs[n - t0.len() + j])); }
    assert forall|j: int| 0 <= j < d implies complete((#[trigger] t1[j]).1) by { lemma_done(t1, j); }
    lemma_done(t1, d);
    if d < t1.len() { assert(t2[0] == t1[d]); }
    lemma_advanced(w1.txs, t1, d);
    assert forall|a: int| 0 <= a < n - t2.len() implies (#[trigger] w1.txs[a]).seq is Some by {
        if a < n - t0.len() { assert(w0.txs[a].seq is Some); } else { let j = a - (n - t0.len()); assert(tx_same(t1[j], w1.txs[n - t1.len() + j])); assert(complete(t1[j].1)); }
    }
    assert forall|j: int| 0 <= j < t2.len() implies #[trigger] tx_same(t2[j], w1.txs[n - t2.len() + j]) by { assert(t2[j] == t1[d + j]); assert(tx_same(t1[d + j], w1.txs[n - t1.len() + d + j])); }
    assert forall|j: int, u: Seqc| 0 <= j < t1.len() implies (#[trigger] t1[j].1.locations@.contains(u) <==> txs_of(pending(w1, u)).contains(t1[j].0)) by {
        assert(t0[j].1.locations@.contains(u) <==> txs_of(pending(w0, u)).contains(t0[j].0));
        if u == url {
            assert(txs_of(pending(w1, u)).len() == 0);
            assert(x.contains(t0[j].0) <==> ids(s0.syncs@[at(s0.syncs@, url)].1.syncs@).contains(t0[j].0));
        } else { assert(pending(w1, u) == pending(w0, u)); }
    }
    assert forall|j: int, u: Seqc| 0 <= j < t2.len() implies (#[trigger] t2[j].1.locations@.contains(u) <==> txs_of(pending(w1, u)).contains(t2[j].0)) by { assert(t2[j] == t1[d + j]); assert(t1[d + j].1.locations@.contains(u) <==> txs_of(pending(w1, u)).contains(t1[d + j].0)); }
    assert forall|u: Seqc, y: Uuid| #[trigger] txs_of(pending(w1, u)).contains(y) implies hask(t2, y) by {
        assert(u != url);
        assert(txs_of(pending(w0, u)).contains(y));
        let j = at(t0, y);
        assert(hask(t0, y)); assert(t0[j].0 == y); assert(t1[j].0 == y);
        assert(t1[j].1.locations@.contains(u) <==> txs_of(pending(w1, u)).contains(t1[j].0));
        assert(t1[j].1.locations@.contains(u));
        if j < d { assert(complete(t1[j].1)); }
        assert(t2[j - d] == t1[j]); assert(t2[j - d].0 == y);
    }
}
pub proof fn lemma_flushed(s0: SeafowlDataSyncWriter, s1: SeafowlDataSyncWriter, w0: World, w1: World, url: Seqc, x: Seq<Uuid>, t1: Seq<(Uuid, Transaction)>, i: IMap<Seqc, JsonValue>)
    requires wf(s0, w0), hask(s0.syncs@, url), flushed(s0, s1, url, x, t1), same_members(x, ids(s0.syncs@[at(s0.syncs@, url)].1.syncs@)),
        committed(w0, w1, url, items_eff(s0.syncs@[at(s0.syncs@, url)].1.syncs@), i), record_ok(s0, w0, url, s0.syncs@[at(s0.syncs@, url)].1.syncs@, i)
    ensures wf(s1, w1), pending(w1, url).len() == 0, !hask(s1.syncs@, url), s1.txs@.len() == 0 || !complete(s1.txs@[0].1), s1.syncs@.len() == s0.syncs@.len() - 1
{
    let k = at(s0.syncs@, url);
    lemma_flushed_tables(s0, s1, w0, w1, url, i);
    lemma_items_known(s0, w0, k);
    lemma_flushed_info(s0, w0, w1, url, i, items_eff(s0.syncs@[k].1.syncs@));
    lemma_flushed_queue(s0, s1, w0, w1, url, x, t1, i, items_eff(s0.syncs@[k].1.syncs@));
}
// dropping the complete transactions from the front of the queue
pub proof fn lemma_advanced_wf(s0: SeafowlDataSyncWriter, s1: SeafowlDataSyncWriter, w: World)
    requires wf(s0, w), s1.syncs == s0.syncs, s1.size == s0.size, s1.origin_memory == s0.origin_memory, s1.context == s0.context,
        s1.txs@ == s0.txs@.skip(done(s0.txs@)), s1.origin_durable@ == advanced(s0.origin_durable@, s0.txs@.take(done(s0.txs@)))
    ensures wf(s1, w)
{
    let (t1, t2) = (s0.txs@, s1.txs@);
    let d = done(t1);
    let n = w.txs.len() as int;
    lemma_done(t1, 0);
    lemma_wf_distinct(s0, w);
    assert forall|j: int| 0 <= j < d implies complete((#[trigger] t1[j]).1) by { lemma_done(t1, j); }
    lemma_done(t1, d);
    lemma_advanced(w.txs, t1, d);
    assert forall|a: int| 0 <= a < n - t2.len() implies (#[trigger] w.txs[a]).seq is Some by { if a >= n - t1.len() { let j = a - (n - t1.len()); assert(tx_same(t1[j], w.txs[n - t1.len() + j])); assert(complete(t1[j].1)); } }
    assert forall|j: int| 0 <= j < t2.len() implies #[trigger] tx_same(t2[j], w.txs[n - t2.len() + j]) by { let q = d + j; assert(t2[j] == t1[q]); assert(tx_same(t1[q], w.txs[n - t1.len() + q])); assert(n - t2.len() + j == n - t1.len() + q); }
    assert forall|j: int, u: Seqc| 0 <= j < t2.len() implies (#[trigger] t2[j].1.locations@.contains(u) <==> txs_of(pending(w, u)).contains(t2[j].0)) by { assert(t2[j] == t1[d + j]); assert(t1[d + j].1.locations@.contains(u) <==> txs_of(pending(w, u)).contains(t1[d + j].0)); }
    assert forall|u: Seqc, y: Uuid| #[trigger] txs_of(pending(w, u)).contains(y) implies hask(t2, y) by {
        let j = at(t1, y);
        assert(hask(t1, y)); assert(t1[j].0 == y);
        assert(t1[j].1.locations@.contains(u));
        if j < d { assert(complete(t1[j].1)); }
        assert(t2[j - d] == t1[j]); assert(t2[j - d].0 == y);
    }
    assert forall|j: int| 0 <= j < s1.syncs@.len() implies #[trigger] in_step(s1.syncs@[j], w) by { assert(in_step(s0.syncs@[j], w)); }
}
pub proof fn lemma_ids_in(v: Seq<DataSyncItem>, i: int, y: Uuid) requires 0 <= i < v.len(), v[i].tx_ids@.contains(y) ensures ids(v).contains(y) decreases v.len() {
    let a = ids(v.drop_last()); let b = v.last().tx_ids@;
    if i == v.len() - 1 { let j = choose|j: int| 0 <= j < b.len() && b[j] == y; assert((a + b)[a.len() + j] == y); }
    else { lemma_ids_in(v.drop_last(), i, y); let j = choose|j: int| 0 <= j < a.len() && a[j] == y; assert((a + b)[j] == y); }
}
// the transactions of every batch held are in the queue
pub proof fn lemma_items_known(s: SeafowlDataSyncWriter, w: World, k: int)
    requires wf(s, w), 0 <= k < s.syncs@.len()
    ensures forall|i: int| 0 <= i < s.syncs@[k].1.syncs@.len() ==> hask(s.txs@, last_tx(#[trigger] s.syncs@[k].1.syncs@[i]))
{
    let v = s.syncs@[k].1.syncs@;
    assert(in_step(s.syncs@[k], w)); assert(coll_ok(s.syncs@[k]));
    assert forall|i: int| 0 <= i < v.len() implies hask(s.txs@, last_tx(#[trigger] v[i])) by {
        assert(item_ok(v[i]));
        assert(v[i].tx_ids@[v[i].tx_ids@.len() - 1] == last_tx(v[i]));
        lemma_ids_in(v, i, last_tx(v[i]));
        assert(txs_of(pending(w, s.syncs@[k].0)).contains(last_tx(v[i])));
    }
}
pub proof fn lemma_cat_contains(a: Seq<Uuid>, b: Seq<Uuid>) ensures forall|x: Uuid| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x) {
    assert forall|x: Uuid| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[a.len() + i] == x); }
        if (a + b).contains(x) { let i = choose|i: int| 0 <= i < (a + b).len() && #[trigger] (a + b)[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
    }
}
