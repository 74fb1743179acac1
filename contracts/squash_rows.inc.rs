// ---- the schema of a batch: which column is what, and the change a row stands for
pub ghost struct Col { pub role: ColumnRole, pub name: Seqc }
pub open spec fn colv(c: SyncColumn) -> Col { Col { role: c.role, name: c.name@ } }
pub open spec fn shape(s: SyncSchema) -> Seq<Col> { s.columns@.map_values(|c: SyncColumn| colv(c)) }
pub open spec fn is_at(sh: Seq<Col>, role: ColumnRole, name: Seqc, p: int) -> bool { 0 <= p < sh.len() && sh[p] == (Col { role, name }) }
pub open spec fn hasc(sh: Seq<Col>, role: ColumnRole, name: Seqc) -> bool { exists|p: int| is_at(sh, role, name, p) }
pub open spec fn pos(sh: Seq<Col>, role: ColumnRole, name: Seqc) -> int { choose|p: int| is_at(sh, role, name, p) }
// the positions with a role, in order
pub open spec fn filt(sh: Seq<Col>, role: ColumnRole, n: nat) -> Seq<int> decreases n { if n == 0 { Seq::empty() } else if sh[n - 1].role == role { filt(sh, role, (n - 1) as nat).push(n - 1) } else { filt(sh, role, (n - 1) as nat) } }
pub open spec fn all(sh: Seq<Col>, role: ColumnRole) -> Seq<int> { filt(sh, role, sh.len()) }
// descriptors that make sense: no column twice, each old key column has a new one, each flag a value
pub open spec fn sensible(sh: Seq<Col>) -> bool {
    (forall|p: int, q: int| 0 <= p < sh.len() && 0 <= q < sh.len() && p != q ==> #[trigger] sh[p] != #[trigger] sh[q])
    && (forall|p: int| 0 <= p < sh.len() && (#[trigger] sh[p]).role == ColumnRole::OldPk ==> hasc(sh, ColumnRole::NewPk, sh[p].name))
    && (forall|p: int| 0 <= p < sh.len() && (#[trigger] sh[p]).role == ColumnRole::Changed ==> hasc(sh, ColumnRole::Value, sh[p].name))
    && all(sh, ColumnRole::OldPk).len() > 0
}
pub open spec fn oldk(sh: Seq<Col>, t: Table, i: int) -> Key { Seq::new(all(sh, ColumnRole::OldPk).len(), |c: int| t[all(sh, ColumnRole::OldPk)[c]][i]) }
pub open spec fn newk(sh: Seq<Col>, t: Table, i: int) -> Key { Seq::new(all(sh, ColumnRole::OldPk).len(), |c: int| t[pos(sh, ColumnRole::NewPk, sh[all(sh, ColumnRole::OldPk)[c]].name)][i]) }
pub open spec fn tracked(sh: Seq<Col>, p: int) -> bool { hasc(sh, ColumnRole::Changed, sh[p].name) }
pub open spec fn taken(sh: Seq<Col>, t: Table, p: int, i: int) -> bool { tracked(sh, p) ==> t[pos(sh, ColumnRole::Changed, sh[p].name)][i] == Val::Bool(true) }
pub open spec fn chg(sh: Seq<Col>, t: Table, i: int) -> Chg {
    Chg { old: oldk(sh, t, i), new: newk(sh, t, i), vals: Seq::new(sh.len(), |p: int| if sh[p].role == ColumnRole::Value { (t[p][i], taken(sh, t, p, i)) } else { (Val::Null, false) }) }
}
pub open spec fn rows1(sh: Seq<Col>, b: RecordBatch) -> Seq<Chg> { Seq::new(b.rows as nat, |i: int| chg(sh, table(b), i)) }
pub open spec fn rowsof(sh: Seq<Col>, d: Seq<RecordBatch>) -> Seq<Chg> decreases d.len() { if d.len() == 0 { Seq::empty() } else { rowsof(sh, d.drop_last()) + rows1(sh, d.last()) } }
pub open spec fn input_ok(sh: Seq<Col>, b: RecordBatch) -> bool { batch_ok(b) && b.cols@.len() == sh.len() && forall|p: int| 0 <= p < sh.len() && (#[trigger] sh[p]).role == ColumnRole::Changed ==> bools(b.cols@[p]@) }
pub open spec fn distinct_names(f: Seq<FieldRef>) -> bool { forall|p: int, q: int| 0 <= p < f.len() && 0 <= q < f.len() && p != q ==> (#[trigger] f[p]).fname() != (#[trigger] f[q]).fname() }
// ---- facts about positions
pub proof fn lemma_filt(sh: Seq<Col>, role: ColumnRole, n: nat)
    requires n <= sh.len()
    ensures filt(sh, role, n).len() <= n, forall|k: int| 0 <= k < filt(sh, role, n).len() ==> 0 <= #[trigger] filt(sh, role, n)[k] < n && sh[filt(sh, role, n)[k]].role == role,
        forall|p: int| 0 <= p < n && (#[trigger] sh[p]).role == role ==> filt(sh, role, n).contains(p),
        forall|i: int, j: int| 0 <= i < j < filt(sh, role, n).len() ==> #[trigger] filt(sh, role, n)[i] < #[trigger] filt(sh, role, n)[j],
    decreases n
{
    if n > 0 {
        lemma_filt(sh, role, (n - 1) as nat);
        let a = filt(sh, role, (n - 1) as nat); let b = filt(sh, role, n);
        assert forall|p: int| 0 <= p < n && (#[trigger] sh[p]).role == role implies b.contains(p) by { if p == n - 1 { assert(b[a.len() as int] == p); } else { assert(a.contains(p)); let i = choose|i: int| 0 <= i < a.len() && a[i] == p; assert(b[i] == p); } };
    }
}
pub proof fn lemma_pos(sh: Seq<Col>, role: ColumnRole, name: Seqc, p: int) requires sensible(sh), is_at(sh, role, name, p) ensures hasc(sh, role, name), pos(sh, role, name) == p { let q = pos(sh, role, name); assert(is_at(sh, role, name, q)); assert(sh[p] == sh[q]); }
// which of the flag columns is about column p
pub open spec fn cidx(sh: Seq<Col>, p: int) -> int { choose|j: int| 0 <= j < all(sh, ColumnRole::Changed).len() && all(sh, ColumnRole::Changed)[j] == pos(sh, ColumnRole::Changed, sh[p].name) }
pub proof fn lemma_cidx(sh: Seq<Col>, p: int) requires sensible(sh), 0 <= p < sh.len(), tracked(sh, p) ensures 0 <= cidx(sh, p) < all(sh, ColumnRole::Changed).len(), all(sh, ColumnRole::Changed)[cidx(sh, p)] == pos(sh, ColumnRole::Changed, sh[p].name)
{
    let q = pos(sh, ColumnRole::Changed, sh[p].name); let c = all(sh, ColumnRole::Changed);
    assert(is_at(sh, ColumnRole::Changed, sh[p].name, q));
    lemma_filt(sh, ColumnRole::Changed, sh.len()); assert(sh[q].role == ColumnRole::Changed); assert(c.contains(q));
    let j = choose|j: int| 0 <= j < c.len() && c[j] == q; assert(c[j] == q);
}
// the change a chain stands for: old key of its first row, new key of its last, each value from the row it was last taken
pub open spec fn chainc(sh: Seq<Col>, t: Table, first: int, last: int, ch: Seq<u64>) -> Chg {
    Chg { old: oldk(sh, t, first), new: newk(sh, t, last), vals: Seq::new(sh.len(), |p: int| if sh[p].role == ColumnRole::Value { if tracked(sh, p) { (t[p][ch[cidx(sh, p)] as int], taken(sh, t, p, ch[cidx(sh, p)] as int)) } else { (t[p][last], true) } } else { (Val::Null, false) }) }
}
pub open spec fn chains(sh: Seq<Col>, t: Table, c: Seq<(u64, u64, Vec<u64>)>) -> Seq<Chg> { Seq::new(c.len(), |k: int| chainc(sh, t, c[k].0 as int, c[k].1 as int, c[k].2@)) }
pub proof fn lemma_chain_one(sh: Seq<Col>, t: Table, i: u64, ch: Seq<u64>)
    requires sensible(sh), ch == Seq::new(all(sh, ColumnRole::Changed).len(), |k: int| i)
    ensures chainc(sh, t, i as int, i as int, ch) == chg(sh, t, i as int)
{
    let a = chainc(sh, t, i as int, i as int, ch); let b = chg(sh, t, i as int);
    assert forall|p: int| 0 <= p < sh.len() implies a.vals[p] == b.vals[p] by { if tracked(sh, p) { lemma_cidx(sh, p); } };
    assert(a.vals =~= b.vals);
}
pub proof fn lemma_chain_add(sh: Seq<Col>, t: Table, first: int, last: int, ch: Seq<u64>, i: u64, ch2: Seq<u64>)
    requires sensible(sh), ch.len() == all(sh, ColumnRole::Changed).len(), ch2.len() == ch.len(),
        forall|j: int| 0 <= j < ch.len() ==> #[trigger] ch2[j] == (if t[all(sh, ColumnRole::Changed)[j]][i as int] == Val::Bool(true) { i } else { ch[j] }),
    ensures chainc(sh, t, first, i as int, ch2) == merge(chainc(sh, t, first, last, ch), chg(sh, t, i as int))
{
    let a = chainc(sh, t, first, i as int, ch2); let b = merge(chainc(sh, t, first, last, ch), chg(sh, t, i as int));
    assert forall|p: int| 0 <= p < sh.len() implies a.vals[p] == b.vals[p] by { if tracked(sh, p) { lemma_cidx(sh, p); let j = cidx(sh, p); assert(ch2[j] == (if t[all(sh, ColumnRole::Changed)[j]][i as int] == Val::Bool(true) { i } else { ch[j] })); } };
    assert(a.vals =~= b.vals);
}
// the rows of the concatenated batch are those of the batches in turn
pub open spec fn cat(d: Seq<RecordBatch>, n: nat) -> Table { Seq::new(n, |p: int| catcol(d, p)) }
pub proof fn lemma_chg_same(sh: Seq<Col>, t: Table, u: Table, i: int, j: int)
    requires sensible(sh), t.len() == sh.len(), u.len() == sh.len(), forall|p: int| 0 <= p < sh.len() ==> (#[trigger] t[p])[i] == u[p][j]
    ensures chg(sh, t, i) == chg(sh, u, j)
{
    let o = all(sh, ColumnRole::OldPk); lemma_filt(sh, ColumnRole::OldPk, sh.len());
    assert forall|c: int| 0 <= c < o.len() implies t[pos(sh, ColumnRole::NewPk, sh[o[c]].name)][i] == u[pos(sh, ColumnRole::NewPk, sh[o[c]].name)][j] by { assert(sh[o[c]].role == ColumnRole::OldPk); let q = pos(sh, ColumnRole::NewPk, sh[o[c]].name); assert(is_at(sh, ColumnRole::NewPk, sh[o[c]].name, q)); };
    assert(oldk(sh, t, i) =~= oldk(sh, u, j));
    assert(newk(sh, t, i) =~= newk(sh, u, j));
    assert forall|p: int| 0 <= p < sh.len() implies taken(sh, t, p, i) == taken(sh, u, p, j) by { if tracked(sh, p) { let q = pos(sh, ColumnRole::Changed, sh[p].name); assert(is_at(sh, ColumnRole::Changed, sh[p].name, q)); } };
    assert(chg(sh, t, i).vals =~= chg(sh, u, j).vals);
}
pub proof fn lemma_cat(sh: Seq<Col>, d: Seq<RecordBatch>)
    requires sensible(sh), forall|i: int| 0 <= i < d.len() ==> input_ok(sh, #[trigger] d[i])
    ensures rowsof(sh, d) == Seq::new(total(d), |i: int| chg(sh, cat(d, sh.len()), i)),
        forall|p: int| 0 <= p < sh.len() ==> (#[trigger] catcol(d, p)).len() == total(d) && (sh[p].role == ColumnRole::Changed ==> bools(catcol(d, p))),
    decreases d.len()
{
    if d.len() > 0 {
        let e = d.drop_last(); let b = d.last();
        assert forall|i: int| 0 <= i < e.len() implies input_ok(sh, #[trigger] e[i]) by { assert(e[i] == d[i]); };
        lemma_cat(sh, e);
        assert(input_ok(sh, d[d.len() - 1]));
        let t = cat(d, sh.len()); let u = cat(e, sh.len());
        assert forall|p: int| 0 <= p < sh.len() implies (#[trigger] catcol(d, p)).len() == total(d) && (sh[p].role == ColumnRole::Changed ==> bools(catcol(d, p))) by {
            assert(catcol(e, p).len() == total(e)); assert(b.cols@[p]@.len() == b.rows);
            if sh[p].role == ColumnRole::Changed { assert(bools(b.cols@[p]@)); }
        };
        assert forall|i: int| 0 <= i < total(d) implies #[trigger] rowsof(sh, d)[i] == chg(sh, t, i) by {
            if i < total(e) {
                assert forall|p: int| 0 <= p < sh.len() implies (#[trigger] t[p])[i] == u[p][i] by { assert(catcol(e, p).len() == total(e)); };
                lemma_chg_same(sh, t, u, i, i);
            } else {
                let j = i - total(e);
                assert forall|p: int| 0 <= p < sh.len() implies (#[trigger] t[p])[i] == table(b)[p][j] by { assert(catcol(e, p).len() == total(e)); };
                lemma_chg_same(sh, t, table(b), i, j);
            }
        };
        assert(rowsof(sh, d) =~= Seq::new(total(d), |i: int| chg(sh, cat(d, sh.len()), i)));
    } else { assert(rowsof(sh, d) =~= Seq::new(total(d), |i: int| chg(sh, cat(d, sh.len()), i))); }
}

// ---- the positions by role and name
pub open spec fn index_ok(s: SyncSchema) -> bool {
    let sh = shape(s);
    (forall|role: ColumnRole, name: Seqc| s.indices@.dom().contains(role) && #[trigger] s.indices@[role]@.dom().contains(name) ==> is_at(sh, role, name, s.indices@[role]@[name] as int))
    && (forall|role: ColumnRole, name: Seqc| #[trigger] hasc(sh, role, name) ==> s.indices@.dom().contains(role) && s.indices@[role]@.dom().contains(name))
}
// ---- descriptors and fields make a schema
pub type Descs = Seq<ColumnDescriptor>;
pub open spec fn common(d: Descs, f: Seq<FieldRef>) -> int { if d.len() < f.len() { d.len() as int } else { f.len() as int } }
pub open spec fn is_value(d: Descs, name: Seqc, j: int) -> bool { 0 <= j < d.len() && d[j].name@ == name && d[j].role == 3 }
pub open spec fn is_pk(d: Descs, f: Seq<FieldRef>, role: i32, x: (Seqc, DataType), i: int) -> bool { d[i].role == role && x == (d[i].name@, f[i].ftype()) }
// the key columns with a role among the first n: names and types
pub open spec fn pks(d: Descs, f: Seq<FieldRef>, role: i32, n: int) -> ISet<(Seqc, DataType)> { ISet::new(|x: (Seqc, DataType)| exists|i: int| 0 <= i < n && #[trigger] is_pk(d, f, role, x, i)) }
// a known role; a flag is a boolean about a value
pub open spec fn col_ok(d: Descs, f: Seq<FieldRef>, i: int) -> bool { ColumnRole::at(d[i].role) is Some && (d[i].role == 2 ==> f[i].ftype() == DataType::Boolean && exists|j: int| is_value(d, d[i].name@, j)) }
pub open spec fn acceptable(d: Descs, s: Schema, check_pks: bool) -> bool {
    &&& d.len() == s.flat()
    &&& forall|i: int| 0 <= i < common(d, s.f@) ==> #[trigger] col_ok(d, s.f@, i)
    &&& check_pks ==> pks(d, s.f@, 0, common(d, s.f@)) != ISet::<(Seqc, DataType)>::empty() && pks(d, s.f@, 0, common(d, s.f@)) == pks(d, s.f@, 1, common(d, s.f@))
}
pub open spec fn as_described(c: SyncColumn, d: ColumnDescriptor, f: FieldRef) -> bool { ColumnRole::at(d.role) == Some(c.role) && c.name@ == d.name@ && c.field == f }
pub open spec fn described(s: SyncSchema, d: Descs, t: Schema) -> bool { s.columns@.len() == common(d, t.f@) && forall|i: int| 0 <= i < s.columns@.len() ==> as_described(#[trigger] s.columns@[i], d[i], t.f@[i]) }
pub open spec fn distinct_cols(sh: Seq<Col>) -> bool { forall|p: int, q: int| 0 <= p < sh.len() && 0 <= q < sh.len() && p != q ==> #[trigger] sh[p] != #[trigger] sh[q] }
pub open spec fn indexed_so_far(ix: IMap<ColumnRole, HashMap<Text, usize>>, c: Seq<SyncColumn>) -> bool {
    let sh = c.map_values(|x: SyncColumn| colv(x));
    (forall|role: ColumnRole, name: Seqc| ix.dom().contains(role) && #[trigger] ix[role]@.dom().contains(name) ==> is_at(sh, role, name, ix[role]@[name] as int))
    && (forall|i: int| 0 <= i < c.len() ==> ix.dom().contains((#[trigger] c[i]).role) && ix[c[i].role]@.dom().contains(c[i].name@))
}
pub open spec fn same_types(a: SyncSchema, b: SyncSchema) -> bool { forall|i: int| 0 <= i < a.columns@.len() ==> (#[trigger] a.columns@[i]).field.ftype() == b.columns@[i].field.ftype() }
pub open spec fn alike(a: SyncColumn, b: SyncColumn) -> bool { a.name@ == b.name@ && a.role == b.role && a.field.ftype() == b.field.ftype() }
pub proof fn lemma_compatible(a: SyncSchema, b: SyncSchema)
    ensures (a.columns@.len() == b.columns@.len() && forall|i: int| 0 <= i < a.columns@.len() ==> #[trigger] alike(a.columns@[i], b.columns@[i])) <==> shape(a) == shape(b) && same_types(a, b)
{
    if a.columns@.len() == b.columns@.len() && (forall|i: int| 0 <= i < a.columns@.len() ==> #[trigger] alike(a.columns@[i], b.columns@[i])) {
        assert(shape(a) =~= shape(b)) by { assert forall|i: int| 0 <= i < a.columns@.len() implies shape(a)[i] == shape(b)[i] by { assert(alike(a.columns@[i], b.columns@[i])); } }
        assert forall|i: int| 0 <= i < a.columns@.len() implies (#[trigger] a.columns@[i]).field.ftype() == b.columns@[i].field.ftype() by { assert(alike(a.columns@[i], b.columns@[i])); }
    }
    if shape(a) == shape(b) && same_types(a, b) {
        assert(shape(a).len() == a.columns@.len() && shape(b).len() == b.columns@.len());
        assert forall|i: int| 0 <= i < a.columns@.len() implies #[trigger] alike(a.columns@[i], b.columns@[i]) by { assert(shape(a)[i] == colv(a.columns@[i]) && shape(b)[i] == colv(b.columns@[i])); }
    }
}
pub proof fn lemma_pks(d: Descs, f: Seq<FieldRef>, role: i32, n: int)
    requires 0 <= n < common(d, f)
    ensures pks(d, f, role, n + 1) == (if d[n].role == role { pks(d, f, role, n).insert((d[n].name@, f[n].ftype())) } else { pks(d, f, role, n) })
{
    let e = if d[n].role == role { pks(d, f, role, n).insert((d[n].name@, f[n].ftype())) } else { pks(d, f, role, n) };
    assert forall|x: (Seqc, DataType)| pks(d, f, role, n + 1).contains(x) <==> e.contains(x) by {
        if pks(d, f, role, n).contains(x) { let i = choose|i: int| 0 <= i < n && #[trigger] is_pk(d, f, role, x, i); assert(is_pk(d, f, role, x, i)); }
        if d[n].role == role && x == (d[n].name@, f[n].ftype()) { assert(is_pk(d, f, role, x, n)); }
        if pks(d, f, role, n + 1).contains(x) { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] is_pk(d, f, role, x, i); assert(i < n || i == n); }
    }
    assert(pks(d, f, role, n + 1) =~= e);
}
pub proof fn lemma_new_schema(s: SyncSchema, d: Descs, t: Schema, check_pks: bool)
    requires acceptable(d, t, check_pks), described(s, d, t), indexed_so_far(s.indices@, s.columns@)
    ensures index_ok(s), check_pks && t.flat() == t.f@.len() && distinct_cols(shape(s)) ==> sensible(shape(s))
{
    let (sh, n) = (shape(s), common(d, t.f@));
    assert forall|role: ColumnRole, name: Seqc| #[trigger] hasc(sh, role, name) implies s.indices@.dom().contains(role) && s.indices@[role]@.dom().contains(name) by { let p = choose|p: int| is_at(sh, role, name, p); assert(colv(s.columns@[p]) == sh[p]); }
    if check_pks && t.flat() == t.f@.len() && distinct_cols(sh) {
        assert forall|p: int| 0 <= p < sh.len() && (#[trigger] sh[p]).role == ColumnRole::OldPk implies hasc(sh, ColumnRole::NewPk, sh[p].name) by {
            let x = (d[p].name@, t.f@[p].ftype());
            assert(as_described(s.columns@[p], d[p], t.f@[p]));
            assert(is_pk(d, t.f@, 0, x, p));
            assert(pks(d, t.f@, 0, n).contains(x) && pks(d, t.f@, 1, n).contains(x));
            let i = choose|i: int| 0 <= i < n && #[trigger] is_pk(d, t.f@, 1, x, i);
            assert(as_described(s.columns@[i], d[i], t.f@[i]));
            assert(is_at(sh, ColumnRole::NewPk, sh[p].name, i));
        }
        assert forall|p: int| 0 <= p < sh.len() && (#[trigger] sh[p]).role == ColumnRole::Changed implies hasc(sh, ColumnRole::Value, sh[p].name) by {
            assert(as_described(s.columns@[p], d[p], t.f@[p]));
            assert(col_ok(d, t.f@, p));
            let j = choose|j: int| is_value(d, d[p].name@, j);
            assert(as_described(s.columns@[j], d[j], t.f@[j]));
            assert(is_at(sh, ColumnRole::Value, sh[p].name, j));
        }
        if forall|x: (Seqc, DataType)| !pks(d, t.f@, 0, n).contains(x) { assert(pks(d, t.f@, 0, n) =~= ISet::<(Seqc, DataType)>::empty()); }
        let x = choose|x: (Seqc, DataType)| pks(d, t.f@, 0, n).contains(x);
        let i = choose|i: int| 0 <= i < n && #[trigger] is_pk(d, t.f@, 0, x, i);
        assert(as_described(s.columns@[i], d[i], t.f@[i]));
        lemma_filt_some(sh, ColumnRole::OldPk, sh.len(), i);
    }
}
pub proof fn lemma_filt_some(sh: Seq<Col>, role: ColumnRole, n: nat, i: int) requires 0 <= i < n <= sh.len(), sh[i].role == role ensures filt(sh, role, n).len() > 0 decreases n { if i < n - 1 { lemma_filt_some(sh, role, (n - 1) as nat, i); } }
pub proof fn lemma_filt_at(sh: Seq<Col>, role: ColumnRole, n: nat, m: nat)
    requires n <= m <= sh.len()
    ensures filt(sh, role, n).len() <= filt(sh, role, m).len(), forall|k: int| 0 <= k < filt(sh, role, n).len() ==> #[trigger] filt(sh, role, n)[k] == filt(sh, role, m)[k],
        n < m && sh[n as int].role == role ==> filt(sh, role, m).len() > filt(sh, role, n).len() && filt(sh, role, m)[filt(sh, role, n).len() as int] == n
    decreases m
{ if n < m { lemma_filt_at(sh, role, n, (m - 1) as nat); } }
// ---- what holds through the whole of the squashing
pub open spec fn setup(sh: Seq<Col>, s: SyncSchema, b: RecordBatch) -> bool {
    shape(s) == sh && sensible(sh) && index_ok(s) && batch_ok(b) && b.cols@.len() == sh.len() && (forall|p: int| 0 <= p < sh.len() && (#[trigger] sh[p]).role == ColumnRole::Changed ==> bools(b.cols@[p]@))
}
pub open spec fn keys_ok(sh: Seq<Col>, b: RecordBatch, o: Seq<Key>, n: Seq<Key>, nul: Key) -> bool {
    o.len() == b.rows && n.len() == b.rows && nul == nullkey(all(sh, ColumnRole::OldPk).len()) && (forall|i: int| 0 <= i < b.rows ==> #[trigger] o[i] == oldk(sh, table(b), i)) && (forall|i: int| 0 <= i < b.rows ==> #[trigger] n[i] == newk(sh, table(b), i))
}
pub open spec fn changed_ok(sh: Seq<Col>, b: RecordBatch, c: Seq<&BooleanArray>) -> bool {
    c.len() == all(sh, ColumnRole::Changed).len() && forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j])@ == b.cols@[all(sh, ColumnRole::Changed)[j]]@ && bools(c[j]@) && c[j]@.len() == b.rows
}
pub type Chains = Seq<(u64, u64, Vec<u64>)>;
pub open spec fn chains_ok(c: Chains, n: int, w: nat) -> bool { forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).0 < n && c[k].1 < n && c[k].2@.len() == w && forall|j: int| 0 <= j < w ==> #[trigger] c[k].2@[j] < n }
// a row about no row at all
pub open spec fn isvoid(c: Chg) -> bool { isnull(c.old) && isnull(c.new) }
pub open spec fn no_void(rows: Seq<Chg>, n: int) -> bool { forall|j: int| 0 <= j < n ==> !isvoid(#[trigger] rows[j]) }
pub open spec fn run_ok(sh: Seq<Col>, b: RecordBatch, n: nat, c: Chains, l: Live, temp: ISet<usize>) -> bool {
    let cs = chains(sh, table(b), c); let rows = rows1(sh, b);
    chains_ok(c, n as int, all(sh, ColumnRole::Changed).len()) && live_ok(cs, l) && sized(cs, sh.len(), all(sh, ColumnRole::OldPk).len()) && temps(cs, temp) && c.len() <= n <= b.rows
    && (no_void(rows, n as int) ==> forall|i: int| 0 <= i < cs.len() && isvoid(#[trigger] cs[i]) ==> temp.contains(i as usize))
    && forall|s: State| #[trigger] chained(s, rows, n, cs, l)
}
pub proof fn lemma_run_start(sh: Seq<Col>, b: RecordBatch, l: Live, temp: ISet<usize>)
    requires l == IMap::<Key, usize>::empty(), temp == ISet::<usize>::empty()
    ensures run_ok(sh, b, 0, Seq::empty(), l, temp)
{
    let cs = chains(sh, table(b), Seq::empty()); let rows = rows1(sh, b);
    assert(cs.len() == 0);
    assert forall|s: State| #[trigger] chained(s, rows, 0, cs, l) by { assert forall|k: Key| !isnull(k) implies #[trigger] at_once(s, cs)(k) == seqs(s, rows, 0)(k) by { assert(!has_new(cs, k)); assert(!has_old(cs, k)); } }
}
pub proof fn lemma_run_more(sh: Seq<Col>, b: RecordBatch, n: nat, c: Chains, l: Live, temp: ISet<usize>, c2: Chains, l2: Live, temp2: ISet<usize>)
    requires sensible(sh), run_ok(sh, b, n, c, l, temp), n < b.rows, ({
        let r = chg(sh, table(b), n as int); let id = l[r.old] as int; let t = table(b); let f = all(sh, ColumnRole::Changed);
        l.dom().contains(r.old) && c2.len() == c.len() && (forall|k: int| 0 <= k < c.len() && k != id ==> c2[k] == #[trigger] c[k]) && c2[id].0 == c[id].0 && c2[id].1 == n && c2[id].2@.len() == c[id].2@.len()
        && (forall|j: int| 0 <= j < f.len() ==> #[trigger] c2[id].2@[j] == (if t[f[j]][n as int] == Val::Bool(true) { n as u64 } else { c[id].2@[j] }))
        && l2 == linked(l, r.old, id as usize, r.new) && temp2 == (if isnull(r.new) && isnull(oldk(sh, t, c[id].0 as int)) { temp.insert(id as usize) } else { temp }) })
    ensures run_ok(sh, b, n + 1, c2, l2, temp2)
{
    let t = table(b); let r = chg(sh, t, n as int); let id = l[r.old] as int; let cs = chains(sh, t, c); let rows = rows1(sh, b); let cs2 = chains(sh, t, c2);
    assert(id < cs.len());
    lemma_chain_add(sh, t, c[id].0 as int, c[id].1 as int, c[id].2@, n as u64, c2[id].2@);
    assert forall|k: int| 0 <= k < cs.len() implies cs2[k] == cs.update(id, merge(cs[id], r))[k] by { if k != id { assert(c2[k] == c[k]); } };
    assert(cs2 =~= cs.update(id, merge(cs[id], r)));
    assert(rows[n as int] == r);
    assert(sized(rows, sh.len(), all(sh, ColumnRole::OldPk).len()));
    let s0: State = |k: Key| None; assert(chained(s0, rows, n, cs, l)); lemma_chain_more(s0, rows, n, cs, l, sh.len(), all(sh, ColumnRole::OldPk).len());
    assert forall|s: State| #[trigger] chained(s, rows, n + 1, cs2, l2) by { assert(chained(s, rows, n, cs, l)); lemma_chain_more(s, rows, n, cs, l, sh.len(), all(sh, ColumnRole::OldPk).len()); };
    assert forall|k: int| 0 <= k < c2.len() implies (#[trigger] c2[k]).0 < n + 1 && c2[k].1 < n + 1 && c2[k].2@.len() == all(sh, ColumnRole::Changed).len() && (forall|j: int| 0 <= j < c2[k].2@.len() ==> #[trigger] c2[k].2@[j] < n + 1) by { if k != id { assert(c2[k] == c[k]); } else { assert(c[id].2@.len() == all(sh, ColumnRole::Changed).len()); } };
    assert forall|i: usize| #[trigger] temp2.contains(i) implies i < cs2.len() && isnull(cs2[i as int].old) && isnull(cs2[i as int].new) by { if temp.contains(i) { if i == id { assert(cs[id].new == r.old); } else { assert(cs2[i as int] == cs[i as int]); } } };
    if no_void(rows, n as int + 1) { assert(no_void(rows, n as int)); assert forall|i: int| 0 <= i < cs2.len() && isvoid(#[trigger] cs2[i]) implies temp2.contains(i as usize) by { if i != id { assert(cs2[i] == cs[i]); } else { assert(cs2[i].old == cs[i].old && cs2[i].new == r.new); } } }
}
pub proof fn lemma_run_new(sh: Seq<Col>, b: RecordBatch, n: nat, c: Chains, l: Live, temp: ISet<usize>, c2: Chains, l2: Live)
    requires sensible(sh), run_ok(sh, b, n, c, l, temp), n < b.rows, ({
        let r = chg(sh, table(b), n as int); let id = c.len() as int; let f = all(sh, ColumnRole::Changed);
        !l.dom().contains(r.old) && c2.len() == c.len() + 1 && (forall|k: int| 0 <= k < c.len() ==> c2[k] == #[trigger] c[k]) && c2[id].0 == n && c2[id].1 == n && c2[id].2@ == Seq::new(f.len(), |j: int| n as u64)
        && l2 == linked(l, r.old, id as usize, r.new) })
    ensures run_ok(sh, b, n + 1, c2, l2, temp)
{
    let t = table(b); let r = chg(sh, t, n as int); let id = c.len() as int; let cs = chains(sh, t, c); let rows = rows1(sh, b); let cs2 = chains(sh, t, c2);
    lemma_chain_one(sh, t, n as u64, c2[id].2@);
    assert forall|k: int| 0 <= k < cs2.len() implies cs2[k] == cs.push(r)[k] by { if k != id { assert(c2[k] == c[k]); } };
    assert(cs2 =~= cs.push(r));
    assert(rows[n as int] == r);
    assert(sized(rows, sh.len(), all(sh, ColumnRole::OldPk).len()));
    let s0: State = |k: Key| None; assert(chained(s0, rows, n, cs, l)); lemma_chain_new(s0, rows, n, cs, l, sh.len(), all(sh, ColumnRole::OldPk).len());
    assert forall|s: State| #[trigger] chained(s, rows, n + 1, cs2, l2) by { assert(chained(s, rows, n, cs, l)); lemma_chain_new(s, rows, n, cs, l, sh.len(), all(sh, ColumnRole::OldPk).len()); };
    assert forall|k: int| 0 <= k < c2.len() implies (#[trigger] c2[k]).0 < n + 1 && c2[k].1 < n + 1 && c2[k].2@.len() == all(sh, ColumnRole::Changed).len() && (forall|j: int| 0 <= j < c2[k].2@.len() ==> #[trigger] c2[k].2@[j] < n + 1) by { if k != id { assert(c2[k] == c[k]); } };
    assert forall|i: usize| #[trigger] temp.contains(i) implies i < cs2.len() && isnull(cs2[i as int].old) && isnull(cs2[i as int].new) by { assert(cs2[i as int] == cs[i as int]); };
    if no_void(rows, n as int + 1) { assert(no_void(rows, n as int)); assert(!isvoid(rows[n as int])); assert forall|i: int| 0 <= i < cs2.len() && isvoid(#[trigger] cs2[i]) implies temp.contains(i as usize) by { if i != id { assert(cs2[i] == cs[i]); } else { assert(cs2[i] == r); } } }
}
// ---- the row of the squashed batch each column is taken from
pub open spec fn column_ix(sh: Seq<Col>, cr: Chains, ks: Seq<int>, p: int) -> Seq<u64> {
    Seq::new(ks.len(), |i: int| match sh[p].role { ColumnRole::OldPk => cr[ks[i]].0, ColumnRole::NewPk => cr[ks[i]].1, ColumnRole::Changed => cr[ks[i]].2@[flagno(sh, p)], ColumnRole::Value => if tracked(sh, p) { cr[ks[i]].2@[cidx(sh, p)] } else { cr[ks[i]].1 } })
}
pub open spec fn flagno(sh: Seq<Col>, p: int) -> int { choose|j: int| 0 <= j < all(sh, ColumnRole::Changed).len() && all(sh, ColumnRole::Changed)[j] == p }
pub proof fn lemma_flagno(sh: Seq<Col>, j: int) requires 0 <= j < all(sh, ColumnRole::Changed).len() ensures flagno(sh, all(sh, ColumnRole::Changed)[j]) == j
{ let f = all(sh, ColumnRole::Changed); lemma_filt(sh, ColumnRole::Changed, sh.len()); let i = flagno(sh, f[j]); assert(0 <= i < f.len() && f[i] == f[j]); if i < j { assert(f[i] < f[j]); } else if j < i { assert(f[j] < f[i]); } }
pub proof fn lemma_squashed(sh: Seq<Col>, b: RecordBatch, cr: Chains, l: Live, temp: ISet<usize>, out: RecordBatch)
    requires sensible(sh), batch_ok(b), b.cols@.len() == sh.len(), run_ok(sh, b, b.rows as nat, cr, l, temp), batch_ok(out), out.cols@.len() == sh.len(), ({
        let ks = kept(temp, cr.len());
        forall|p: int| 0 <= p < sh.len() ==> (#[trigger] out.cols@[p])@ == Seq::new(ks.len(), |i: int| b.cols@[p]@[column_ix(sh, cr, ks, p)[i] as int]) })
    ensures same_effect(rows1(sh, b), rows1(sh, out)), no_void(rows1(sh, b), b.rows as int) ==> no_void(rows1(sh, out), out.rows as int)
{
    let t = table(b); let u = table(out); let cs = chains(sh, t, cr); let ks = kept(temp, cr.len()); let rows = rows1(sh, b);
    lemma_kept(temp, cr.len());
    let o = all(sh, ColumnRole::OldPk); lemma_filt(sh, ColumnRole::OldPk, sh.len());
    assert(out.cols@[o[0]]@.len() == ks.len());
    assert(out.rows == ks.len());
    assert forall|i: int| 0 <= i < ks.len() implies rows1(sh, out)[i] == only(cs, ks)[i] by {
        let x = cr[ks[i]]; let a = chg(sh, u, i); let c = chainc(sh, t, x.0 as int, x.1 as int, x.2@);
        assert forall|k: int| 0 <= k < o.len() implies a.old[k] == c.old[k] by { let p = o[k]; assert(sh[p].role == ColumnRole::OldPk); assert(u[p] == out.cols@[p]@); assert(column_ix(sh, cr, ks, p)[i] == x.0); };
        assert(a.old =~= c.old);
        assert forall|k: int| 0 <= k < o.len() implies a.new[k] == c.new[k] by { assert(sh[o[k]].role == ColumnRole::OldPk); let p = pos(sh, ColumnRole::NewPk, sh[o[k]].name); assert(is_at(sh, ColumnRole::NewPk, sh[o[k]].name, p)); assert(u[p] == out.cols@[p]@); assert(column_ix(sh, cr, ks, p)[i] == x.1); };
        assert(a.new =~= c.new);
        assert forall|p: int| 0 <= p < sh.len() implies a.vals[p] == c.vals[p] by {
            assert(u[p] == out.cols@[p]@);
            if sh[p].role == ColumnRole::Value { if tracked(sh, p) {
                lemma_cidx(sh, p); let q = pos(sh, ColumnRole::Changed, sh[p].name); assert(is_at(sh, ColumnRole::Changed, sh[p].name, q)); lemma_flagno(sh, cidx(sh, p)); assert(u[q] == out.cols@[q]@);
                assert(column_ix(sh, cr, ks, p)[i] == x.2@[cidx(sh, p)]); assert(column_ix(sh, cr, ks, q)[i] == x.2@[cidx(sh, p)]);
            } else { assert(column_ix(sh, cr, ks, p)[i] == x.1); } }
        };
        assert(a.vals =~= c.vals);
    };
    assert(rows1(sh, out) =~= only(cs, ks));
    if no_void(rows, b.rows as int) { assert forall|i: int| 0 <= i < out.rows implies !isvoid(#[trigger] rows1(sh, out)[i]) by { assert(rows1(sh, out)[i] == cs[ks[i]]); assert(!temp.contains(ks[i] as usize)); } }
    assert forall|s: State| #[trigger] valid(s, rows, rows.len()) implies once_ok(s, rows1(sh, out)) && same_state(at_once(s, rows1(sh, out)), seqs(s, rows, rows.len())) by {
        assert(chained(s, rows, b.rows as nat, cs, l)); lemma_without_temps(s, rows, cs, l, temp);
    };
}

// ---- which index array each column is taken with
pub type Idx<'a> = IMap<usize, &'a UInt64Array>;
pub open spec fn right<'a>(sh: Seq<Col>, p: int, o: &'a UInt64Array, n: &'a UInt64Array, c: Seq<UInt64Array>) -> Seq<u64> {
    match sh[p].role { ColumnRole::OldPk => o@, ColumnRole::NewPk => n@, ColumnRole::Changed => c[flagno(sh, p)]@, ColumnRole::Value => if tracked(sh, p) { c[cidx(sh, p)]@ } else { n@ } }
}
// a value column whose flag comes later may still be off
pub open spec fn later(sh: Seq<Col>, p: int, x: int) -> bool { sh[p].role == ColumnRole::Value && tracked(sh, p) && pos(sh, ColumnRole::Changed, sh[p].name) >= x }
pub open spec fn seen(sh: Seq<Col>, p: int, x: int) -> bool { p < x || (sh[p].role == ColumnRole::Value && tracked(sh, p) && pos(sh, ColumnRole::Changed, sh[p].name) < x) }
pub open spec fn indexed<'a>(sh: Seq<Col>, ix: Idx<'a>, x: int, o: &'a UInt64Array, n: &'a UInt64Array, c: Seq<UInt64Array>) -> bool {
    (forall|p: usize| #[trigger] ix.dom().contains(p) ==> p < sh.len() && seen(sh, p as int, x) && (later(sh, p as int, x) || ix[p]@ == right(sh, p as int, o, n, c)))
    && (forall|p: usize| p < sh.len() && seen(sh, p as int, x) ==> #[trigger] ix.dom().contains(p))
}
pub open spec fn taken_from(sh: Seq<Col>, b: RecordBatch, cr: Chains, ks: Seq<int>, o: UInt64Array, n: UInt64Array, c: Seq<UInt64Array>) -> bool {
    forall|p: int| 0 <= p < sh.len() ==> #[trigger] right(sh, p, &o, &n, c) == column_ix(sh, cr, ks, p) && (forall|i: int| 0 <= i < ks.len() ==> #[trigger] column_ix(sh, cr, ks, p)[i] < b.rows)
}
