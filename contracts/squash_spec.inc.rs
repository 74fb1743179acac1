// ---- what a batch of changes does to a table, and when two batches do the same
pub ghost enum Val { Null, Bool(bool), Other(int), List(Seq<Val>) }
pub type Key = Seq<Val>;
// one row of a batch: the old and the new key, and for every column its value and whether it is taken
pub ghost struct Chg { pub old: Key, pub new: Key, pub vals: Seq<(Val, bool)> }
// a table: the row under each key
pub type State = spec_fn(Key) -> Option<Seq<Val>>;
pub open spec fn nullkey(m: nat) -> Key { Seq::new(m, |i: int| Val::Null) }
pub open spec fn isnull(k: Key) -> bool { k == nullkey(k.len()) }
// the values of c over those of a row
pub open spec fn upd(base: Seq<Val>, c: Chg) -> Seq<Val> { Seq::new(c.vals.len(), |p: int| if c.vals[p].1 { c.vals[p].0 } else { base[p] }) }
pub open spec fn blank(n: nat) -> Seq<Val> { Seq::new(n, |p: int| Val::Null) }
pub open spec fn base(s: State, c: Chg) -> Seq<Val> { if isnull(c.old) { blank(c.vals.len()) } else { match s(c.old) { Some(r) => r, None => blank(c.vals.len()) } } }
// one after the other
pub open spec fn step(s: State, c: Chg) -> State { |k: Key| if isnull(k) { s(k) } else if k == c.new { Some(upd(base(s, c), c)) } else if k == c.old { None } else { s(k) } }
pub open spec fn seqs(s: State, rows: Seq<Chg>, n: nat) -> State decreases n { if n == 0 { s } else { step(seqs(s, rows, (n - 1) as nat), rows[n - 1]) } }
// each row changes what is there and makes what is not
pub open spec fn valid1(s: State, c: Chg) -> bool { (!isnull(c.old) ==> s(c.old) is Some) && (!isnull(c.new) && c.new != c.old ==> s(c.new) is None) }
pub open spec fn valid(s: State, rows: Seq<Chg>, n: nat) -> bool { forall|i: nat| i < n ==> valid1(#[trigger] seqs(s, rows, i), rows[i as int]) }
// at once: every row against the table as it was before
pub open spec fn has_new(c: Seq<Chg>, k: Key) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).new == k }
pub open spec fn has_old(c: Seq<Chg>, k: Key) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).old == k }
pub open spec fn the_new(c: Seq<Chg>, k: Key) -> int { choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).new == k }
pub open spec fn at_once(s: State, c: Seq<Chg>) -> State { |k: Key| if isnull(k) { s(k) } else if has_new(c, k) { Some(upd(base(s, c[the_new(c, k)]), c[the_new(c, k)])) } else if has_old(c, k) { None } else { s(k) } }
// which makes sense when no two rows are about the same key
pub open spec fn once_ok(s: State, c: Seq<Chg>) -> bool {
    (forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j && !isnull((#[trigger] c[i]).old) ==> c[i].old != (#[trigger] c[j]).old)
    && (forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j && !isnull((#[trigger] c[i]).new) ==> c[i].new != (#[trigger] c[j]).new)
    && (forall|i: int| 0 <= i < c.len() && !isnull((#[trigger] c[i]).old) ==> s(c[i].old) is Some)
    && (forall|i: int| 0 <= i < c.len() && !isnull((#[trigger] c[i]).new) ==> s(c[i].new) is None || has_old(c, c[i].new))
}
pub open spec fn same_state(a: State, b: State) -> bool { forall|k: Key| !isnull(k) ==> #[trigger] a(k) == b(k) }
// the two descriptions agree
pub open spec fn same_effect(rows: Seq<Chg>, out: Seq<Chg>) -> bool {
    forall|s: State| #[trigger] valid(s, rows, rows.len()) ==> once_ok(s, out) && same_state(at_once(s, out), seqs(s, rows, rows.len()))
}
// ---- chains of changes
pub open spec fn merge(c: Chg, r: Chg) -> Chg { Chg { old: c.old, new: r.new, vals: Seq::new(r.vals.len(), |p: int| if r.vals[p].1 { r.vals[p] } else { c.vals[p] }) } }
pub type Live = IMap<Key, usize>;
// what is known of the chains under any history
pub open spec fn live_ok(c: Seq<Chg>, l: Live) -> bool { forall|k: Key| #[trigger] l.dom().contains(k) ==> l[k] < c.len() && c[l[k] as int].new == k && !isnull(k) }
// and what for a table on which the rows make sense
pub open spec fn live_all(c: Seq<Chg>, l: Live) -> bool { forall|i: int| 0 <= i < c.len() && !isnull((#[trigger] c[i]).new) ==> l.dom().contains(c[i].new) && l[c[i].new] == i }
pub open spec fn chained(s: State, rows: Seq<Chg>, n: nat, c: Seq<Chg>, l: Live) -> bool { valid(s, rows, n) ==> live_all(c, l) && once_ok(s, c) && same_state(at_once(s, c), seqs(s, rows, n)) }
pub open spec fn sized(c: Seq<Chg>, w: nat, m: nat) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).vals.len() == w && c[i].old.len() == m && c[i].new.len() == m }
pub open spec fn linked(l: Live, k: Key, id: usize, new: Key) -> Live { if isnull(new) { l.remove(k) } else { l.remove(k).insert(new, id) } }
pub proof fn lemma_the_new(s: State, c: Seq<Chg>, i: int) requires once_ok(s, c), 0 <= i < c.len(), !isnull(c[i].new) ensures the_new(c, c[i].new) == i, has_new(c, c[i].new) { let k = c[i].new; assert(has_new(c, k)); let j = the_new(c, k); assert(c[j].new == k); }
pub proof fn lemma_valid_less(s: State, rows: Seq<Chg>, n: nat) requires n > 0, valid(s, rows, n) ensures valid(s, rows, (n - 1) as nat), valid1(seqs(s, rows, (n - 1) as nat), rows[n - 1]) {}
pub proof fn lemma_upd_merge(b: Seq<Val>, c: Chg, r: Chg) requires c.vals.len() == r.vals.len() ensures upd(b, merge(c, r)) == upd(upd(b, c), r) { assert(upd(b, merge(c, r)) =~= upd(upd(b, c), r)); }
// a row that carries on a chain
pub proof fn lemma_chain_more(s: State, rows: Seq<Chg>, n: nat, c: Seq<Chg>, l: Live, w: nat, m: nat)
    requires n < rows.len(), chained(s, rows, n, c, l), live_ok(c, l), sized(c, w, m), sized(rows, w, m), l.dom().contains(rows[n as int].old)
    ensures ({ let r = rows[n as int]; let id = l[r.old]; let c2 = c.update(id as int, merge(c[id as int], r)); let l2 = linked(l, r.old, id, r.new);
        live_ok(c2, l2) && sized(c2, w, m) && chained(s, rows, n + 1, c2, l2) })
{
    let r = rows[n as int]; let id = l[r.old] as int; let d = c[id]; let e = merge(d, r);
    let c2 = c.update(id, e); let l2 = linked(l, r.old, id as usize, r.new);
    assert forall|k: Key| #[trigger] l2.dom().contains(k) implies l2[k] < c2.len() && c2[l2[k] as int].new == k && !isnull(k) by { if k != r.new { assert(l.dom().contains(k)); assert(k != r.old); assert(l[k] != id as usize); } else { assert(!isnull(r.new) || l.dom().contains(k)); } };
    if valid(s, rows, n + 1) {
        lemma_valid_less(s, rows, n + 1);
        let t = seqs(s, rows, n); let u = seqs(s, rows, n + 1);
        assert(u == step(t, r));
        lemma_the_new(s, c, id);
        assert(at_once(s, c)(r.old) == t(r.old));
        assert(t(r.old) == Some(upd(base(s, d), d)));
        lemma_upd_merge(base(s, d), d, r);
        assert(base(s, e) == base(s, d));
        let k = r.old;
        // the new key is free
        if !isnull(r.new) && r.new != k { assert(at_once(s, c)(r.new) == t(r.new)); assert(!has_new(c, r.new)); assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).new != r.new by {} }
        // who made the keys gone
        assert forall|x: Key| has_old(c2, x) == has_old(c, x) by {
            if has_old(c, x) { let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).old == x; assert(c2[i].old == x); }
            if has_old(c2, x) { let i = choose|i: int| 0 <= i < c2.len() && (#[trigger] c2[i]).old == x; assert(c[i].old == x); }
        }
        assert forall|i: int, j: int| 0 <= i < c2.len() && 0 <= j < c2.len() && i != j && !isnull((#[trigger] c2[i]).old) implies c2[i].old != (#[trigger] c2[j]).old by { assert(c2[i].old == c[i].old && c2[j].old == c[j].old); }
        assert forall|i: int| 0 <= i < c.len() && i != id && !isnull(r.new) implies (#[trigger] c[i]).new != r.new by { if r.new == k { assert(c[id].new == k); } }
        assert forall|i: int, j: int| 0 <= i < c2.len() && 0 <= j < c2.len() && i != j && !isnull((#[trigger] c2[i]).new) implies c2[i].new != (#[trigger] c2[j]).new by { assert(i != id ==> c2[i] == c[i]); assert(j != id ==> c2[j] == c[j]); }
        assert forall|i: int| 0 <= i < c2.len() && !isnull((#[trigger] c2[i]).old) implies s(c2[i].old) is Some by { assert(c2[i].old == c[i].old); }
        assert forall|i: int| 0 <= i < c2.len() && !isnull((#[trigger] c2[i]).new) implies s(c2[i].new) is None || has_old(c2, c2[i].new) by {
            if i != id { assert(c2[i] == c[i]); } else if r.new != k { if !has_old(c, r.new) { assert(at_once(s, c)(r.new) == s(r.new)); } } else { assert(c[id].new == k); }
        }
        assert(once_ok(s, c2));
        assert forall|i: int| 0 <= i < c2.len() && !isnull((#[trigger] c2[i]).new) implies l2.dom().contains(c2[i].new) && l2[c2[i].new] == i by { if i != id { assert(c2[i] == c[i]); assert(c[i].new != k); } }
        assert forall|x: Key| !isnull(x) implies #[trigger] at_once(s, c2)(x) == u(x) by {
            assert(at_once(s, c)(x) == t(x));
            if x == r.new { lemma_the_new(s, c2, id); }
            else if x == k {
                assert(!has_new(c2, x)) by { if has_new(c2, x) { let i = the_new(c2, x); assert(c2[i].new == x); assert(i != id); assert(c[i].new == x && c[id].new == x); } }
                assert(s(x) is None || has_old(c, x));
            } else {
                if has_new(c, x) { let i = the_new(c, x); assert(c[i].new == x && i != id); assert(c2[i].new == x); lemma_the_new(s, c2, i); lemma_the_new(s, c, i); }
                else { assert(!has_new(c2, x)) by { if has_new(c2, x) { let i = the_new(c2, x); assert(c2[i].new == x); assert(i != id); assert(c[i].new == x); } } }
            }
        }
    }
}
// a row that starts one
pub proof fn lemma_chain_new(s: State, rows: Seq<Chg>, n: nat, c: Seq<Chg>, l: Live, w: nat, m: nat)
    requires n < rows.len(), chained(s, rows, n, c, l), live_ok(c, l), sized(c, w, m), sized(rows, w, m), !l.dom().contains(rows[n as int].old), c.len() <= usize::MAX
    ensures ({ let r = rows[n as int]; let c2 = c.push(r); let l2 = linked(l, r.old, c.len() as usize, r.new);
        live_ok(c2, l2) && sized(c2, w, m) && chained(s, rows, n + 1, c2, l2) })
{
    let r = rows[n as int]; let id = c.len() as int;
    let c2 = c.push(r); let l2 = linked(l, r.old, id as usize, r.new);
    assert forall|k: Key| #[trigger] l2.dom().contains(k) implies l2[k] < c2.len() && c2[l2[k] as int].new == k && !isnull(k) by { if k != r.new { assert(l.dom().contains(k)); } else { assert(!isnull(r.new) || l.dom().contains(k)); } };
    assert forall|i: int| 0 <= i < c2.len() implies (#[trigger] c2[i]).vals.len() == w && c2[i].old.len() == m && c2[i].new.len() == m by { if i < id { assert(c2[i] == c[i]); } };
    if valid(s, rows, n + 1) {
        lemma_valid_less(s, rows, n + 1);
        let t = seqs(s, rows, n); let u = seqs(s, rows, n + 1);
        assert(u == step(t, r));
        let k = r.old;
        assert(!isnull(k) ==> !has_new(c, k));
        assert(at_once(s, c)(k) == t(k) || isnull(k));
        assert(!isnull(k) ==> !has_old(c, k) && s(k) == t(k));
        assert(base(t, r) == base(s, r));
        if !isnull(r.new) && r.new != k { assert(at_once(s, c)(r.new) == t(r.new)); assert(!has_new(c, r.new)); }
        assert forall|i: int| 0 <= i < c.len() && !isnull(r.new) implies (#[trigger] c[i]).new != r.new by {}
        assert forall|i: int| 0 <= i < c.len() && !isnull(k) implies (#[trigger] c[i]).old != k by {}
        assert forall|x: Key| has_old(c2, x) == (has_old(c, x) || x == k) by {
            if has_old(c, x) { let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).old == x; assert(c2[i].old == x); }
            if has_old(c2, x) { let i = choose|i: int| 0 <= i < c2.len() && (#[trigger] c2[i]).old == x; if i < id { assert(c[i].old == x); } }
            assert(c2[id].old == k);
        }
        assert forall|i: int, j: int| 0 <= i < c2.len() && 0 <= j < c2.len() && i != j && !isnull((#[trigger] c2[i]).old) implies c2[i].old != (#[trigger] c2[j]).old by { assert(i != id ==> c2[i] == c[i]); assert(j != id ==> c2[j] == c[j]); }
        assert forall|i: int, j: int| 0 <= i < c2.len() && 0 <= j < c2.len() && i != j && !isnull((#[trigger] c2[i]).new) implies c2[i].new != (#[trigger] c2[j]).new by { assert(i != id ==> c2[i] == c[i]); assert(j != id ==> c2[j] == c[j]); }
        assert forall|i: int| 0 <= i < c2.len() && !isnull((#[trigger] c2[i]).old) implies s(c2[i].old) is Some by { assert(i != id ==> c2[i] == c[i]); }
        assert forall|i: int| 0 <= i < c2.len() && !isnull((#[trigger] c2[i]).new) implies s(c2[i].new) is None || has_old(c2, c2[i].new) by {
            if i != id { assert(c2[i] == c[i]); } else if r.new != k { if !has_old(c, r.new) { assert(at_once(s, c)(r.new) == s(r.new)); } }
        }
        assert(once_ok(s, c2));
        assert forall|i: int| 0 <= i < c2.len() && !isnull((#[trigger] c2[i]).new) implies l2.dom().contains(c2[i].new) && l2[c2[i].new] == i by { if i != id { assert(c2[i] == c[i]); if c[i].new == k { assert(has_new(c, k)); } } }
        assert forall|x: Key| !isnull(x) implies #[trigger] at_once(s, c2)(x) == u(x) by {
            assert(at_once(s, c)(x) == t(x));
            if x == r.new { assert(c2[id].new == x); lemma_the_new(s, c2, id); }
            else {
                if has_new(c, x) { let i = the_new(c, x); assert(c[i].new == x); assert(c2[i].new == x); lemma_the_new(s, c2, i); lemma_the_new(s, c, i); }
                else { assert(!has_new(c2, x)) by { if has_new(c2, x) { let i = the_new(c2, x); assert(c2[i].new == x); assert(i != id); assert(c[i].new == x); } } }
            }
        }
    }
}
// leaving out the chains that start and end with nothing
pub open spec fn kept(temp: ISet<usize>, n: nat) -> Seq<int> decreases n { if n == 0 { Seq::empty() } else if temp.contains((n - 1) as usize) { kept(temp, (n - 1) as nat) } else { kept(temp, (n - 1) as nat).push(n - 1) } }
pub open spec fn temps(c: Seq<Chg>, temp: ISet<usize>) -> bool { forall|i: usize| #[trigger] temp.contains(i) ==> i < c.len() && isnull(c[i as int].old) && isnull(c[i as int].new) }
pub open spec fn only(c: Seq<Chg>, ks: Seq<int>) -> Seq<Chg> { Seq::new(ks.len(), |i: int| c[ks[i]]) }
pub proof fn lemma_kept(temp: ISet<usize>, n: nat)
    requires n <= usize::MAX
    ensures kept(temp, n).len() <= n, forall|i: int| 0 <= i < kept(temp, n).len() ==> 0 <= #[trigger] kept(temp, n)[i] < n && !temp.contains(kept(temp, n)[i] as usize),
        forall|i: int, j: int| 0 <= i < j < kept(temp, n).len() ==> #[trigger] kept(temp, n)[i] < #[trigger] kept(temp, n)[j],
        forall|x: int| 0 <= x < n && !temp.contains(x as usize) ==> kept(temp, n).contains(x)
    decreases n
{
    if n > 0 {
        lemma_kept(temp, (n - 1) as nat);
        let a = kept(temp, (n - 1) as nat); let b = kept(temp, n);
        if !temp.contains((n - 1) as usize) {
            assert forall|x: int| 0 <= x < n && !temp.contains(x as usize) implies b.contains(x) by { if x == n - 1 { assert(b[a.len() as int] == x); } else { assert(a.contains(x)); let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); } };
        }
    }
}
pub proof fn lemma_without_temps(s: State, rows: Seq<Chg>, c: Seq<Chg>, l: Live, temp: ISet<usize>)
    requires chained(s, rows, rows.len(), c, l), temps(c, temp), valid(s, rows, rows.len()), c.len() <= usize::MAX
    ensures ({ let o = only(c, kept(temp, c.len())); once_ok(s, o) && same_state(at_once(s, o), seqs(s, rows, rows.len())) })
{
    let ks = kept(temp, c.len()); let o = only(c, ks);
    lemma_kept(temp, c.len());
    assert forall|x: Key| !isnull(x) implies #[trigger] has_old(o, x) == has_old(c, x) by {
        if has_old(c, x) { let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).old == x; assert(!temp.contains(i as usize)); assert(ks.contains(i)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == i; assert(o[j].old == x); }
        if has_old(o, x) { let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).old == x; assert(c[ks[j]].old == x); }
    }
    assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j implies #[trigger] ks[i] != #[trigger] ks[j] by { if i < j { assert(ks[i] < ks[j]); } else { assert(ks[j] < ks[i]); } }
    assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j && !isnull((#[trigger] o[i]).old) implies o[i].old != (#[trigger] o[j]).old by { assert(ks[i] != ks[j]); assert(o[i] == c[ks[i]] && o[j] == c[ks[j]]); }
    assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j && !isnull((#[trigger] o[i]).new) implies o[i].new != (#[trigger] o[j]).new by { assert(ks[i] != ks[j]); assert(o[i] == c[ks[i]] && o[j] == c[ks[j]]); }
    assert forall|i: int| 0 <= i < o.len() && !isnull((#[trigger] o[i]).old) implies s(o[i].old) is Some by { assert(o[i] == c[ks[i]]); }
    assert forall|i: int| 0 <= i < o.len() && !isnull((#[trigger] o[i]).new) implies s(o[i].new) is None || has_old(o, o[i].new) by { assert(o[i] == c[ks[i]]); }
    assert(once_ok(s, o));
    assert forall|x: Key| !isnull(x) implies #[trigger] at_once(s, o)(x) == seqs(s, rows, rows.len())(x) by {
        assert(at_once(s, c)(x) == seqs(s, rows, rows.len())(x));
        if has_new(c, x) { let i = the_new(c, x); assert(c[i].new == x); assert(!temp.contains(i as usize)); assert(ks.contains(i)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == i; assert(o[j] == c[i]); lemma_the_new(s, o, j); lemma_the_new(s, c, i); }
        else { assert(!has_new(o, x)) by { if has_new(o, x) { let j = the_new(o, x); assert(o[j].new == x); assert(c[ks[j]].new == x); } } }
    }
}
