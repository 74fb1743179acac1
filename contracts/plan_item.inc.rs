// ---- an item of changes: its schema, and the rows its plan gives under a qualifier
pub open spec fn fits(s: SyncSchema, r: Rel, q: Seqc) -> bool {
    ready(s) && uniq(r.cols) && r.cols.len() == s.columns@.len() && forall|i: int| 0 <= i < r.cols.len() ==> #[trigger] r.cols[i] == (Some(q), s.columns@[i].field.fname())
}
pub open spec fn cells(s: SyncSchema, r: Rel, id: Id) -> Cells { |role: ColumnRole, n: Seqc| (r.at)(id, pos(shape(s), role, n)) }
pub open spec fn flagged_rel(r: Rel, f: Rel, q: Seqc) -> bool {
    uniq(f.cols) && f.cols == r.cols.push((None, q)) && f.ids == r.ids && forall|id: Id, k: int| 0 <= k <= r.cols.len() ==> #[trigger] (f.at)(id, k) == (if k < r.cols.len() { (r.at)(id, k) } else { Val::Bool(true) })
}
pub proof fn lemma_find(c: Seq<Ref>, k: int) requires uniq(c), 0 <= k < c.len() ensures find(c, c[k].0, c[k].1) == k, found(c, c[k].0, c[k].1)
{
    assert(isref(c, c[k].0, c[k].1, k));
    let j = find(c, c[k].0, c[k].1);
    assert(isref(c, c[k].0, c[k].1, j));
    if j != k { assert(c[j] != c[k]); assert(c[k].0 is None); assert(c[j].0 is Some); }
}
// a column that is the only one of its name is found by it
pub proof fn lemma_bare(c: Seq<Ref>, k: int) requires 0 <= k < c.len(), forall|j: int| 0 <= j < c.len() && (#[trigger] c[j]).1 == c[k].1 ==> j == k ensures find(c, None, c[k].1) == k, found(c, None, c[k].1)
{ assert(isref(c, None, c[k].1, k)); }
pub proof fn lemma_flagged(r: Rel, v: Seq<Expr>, q: Seqc) requires uniq(r.cols), flagged_exprs(v, r.cols, q), uniq(projected(r, v).cols) ensures flagged_rel(r, projected(r, v), q)
{
    let f = projected(r, v);
    assert(f.cols =~= r.cols.push((None, q)));
    assert forall|id: Id, k: int| 0 <= k <= r.cols.len() implies #[trigger] (f.at)(id, k) == (if k < r.cols.len() { (r.at)(id, k) } else { Val::Bool(true) }) by {
        if k < r.cols.len() { lemma_find(r.cols, k); assert(col_expr(v[k], r.cols[k])); assert(v[k].ev(envof(r, id)) == envof(r, id)(r.cols[k].0, r.cols[k].1)); }
        else { assert(v[k].ev(envof(r, id)) == Val::Bool(true)); }
    }
}
pub proof fn lemma_pushed_flag(i: Rel, v: Seq<Expr>, x: Expr, q: Seqc) requires flag_expr(x, q), uniq(projected(i, v.push(x)).cols) ensures flagged_rel(projected(i, v), projected(i, v.push(x)), q)
{
    let r = projected(i, v); let f = projected(i, v.push(x));
    assert(f.cols =~= r.cols.push((None, q)));
    assert forall|id: Id, k: int| 0 <= k <= r.cols.len() implies #[trigger] (f.at)(id, k) == (if k < r.cols.len() { (r.at)(id, k) } else { Val::Bool(true) }) by { if k == r.cols.len() { assert(x.ev(envof(i, id)) == Val::Bool(true)); } }
}
// the place of a column, and where its cells are found
pub proof fn lemma_place(s: SyncSchema, i: int) requires ready(s), 0 <= i < s.columns@.len() ensures pos(shape(s), s.columns@[i].role, s.columns@[i].name@) == i, hasc(shape(s), s.columns@[i].role, s.columns@[i].name@)
{
    let c = s.columns@[i]; let sh = shape(s);
    assert(is_at(sh, c.role, c.name@, i));
    let p = pos(sh, c.role, c.name@);
    assert(is_at(sh, c.role, c.name@, p));
    if p != i { assert(sh[p] != sh[i]); }
}
pub open spec fn cell_refs(s: SyncSchema, r: Rel, f: Rel, q: Seqc) -> bool {
    forall|id: Id, i: int| 0 <= i < s.columns@.len() ==> (#[trigger] envof(f, id)(None, s.columns@[i].field.fname())) == cells(s, r, id)(s.columns@[i].role, s.columns@[i].name@) && found(f.cols, None, s.columns@[i].field.fname())
}
pub proof fn lemma_cell_refs(s: SyncSchema, r: Rel, f: Rel, q: Seqc) requires fits(s, r, q), flagged_rel(r, f, q) ensures cell_refs(s, r, f, q)
{
    assert forall|id: Id, i: int| 0 <= i < s.columns@.len() implies (#[trigger] envof(f, id)(None, s.columns@[i].field.fname())) == cells(s, r, id)(s.columns@[i].role, s.columns@[i].name@) && found(f.cols, None, s.columns@[i].field.fname()) by {
        assert forall|j: int| 0 <= j < f.cols.len() && (#[trigger] f.cols[j]).1 == f.cols[i].1 implies j == i by { if j != i { assert(f.cols[i] == r.cols[i]); if j < r.cols.len() { assert(f.cols[j] == r.cols[j]); assert(f.cols[j] != f.cols[i]); } else { assert(f.cols[j].0 is None); assert(f.cols[i].0 is Some); } } }
        assert(f.cols[i] == r.cols[i]); lemma_bare(f.cols, i); lemma_place(s, i);
        assert((f.at)(id, i) == (r.at)(id, i));
    }
}
// an unflagged item on its own
pub proof fn lemma_alone(s: SyncSchema, r: Rel, q: Seqc) requires fits(s, r, q) ensures forall|id: Id| #[trigger] alone(envof(r, id), s, cells(s, r, id))
{
    assert forall|id: Id| #[trigger] alone(envof(r, id), s, cells(s, r, id)) by {
        assert forall|i: int| 0 <= i < s.columns@.len() implies envof(r, id)(None, (#[trigger] s.columns@[i]).field.fname()) == cells(s, r, id)(s.columns@[i].role, s.columns@[i].name@) by {
            assert forall|j: int| 0 <= j < r.cols.len() && (#[trigger] r.cols[j]).1 == r.cols[i].1 implies j == i by { if j != i { assert(r.cols[j] != r.cols[i]); } }
            lemma_bare(r.cols, i); lemma_place(s, i);
        }
    }
}
// ---- the rows of both items: a later change follows the earlier one that left the row with the key it changes
pub open spec fn follows(lo: SyncSchema, l: Rel, up: SyncSchema, u: Rel, a: Id, b: Id) -> bool { forall|n: Seqc| #[trigger] hasc(shape(up), ColumnRole::OldPk, n) ==> eq3(cells(up, u, a)(ColumnRole::OldPk, n), cells(lo, l, b)(ColumnRole::NewPk, n)) == Val::Bool(true) }
pub open spec fn chain_ids(lo: SyncSchema, l: Rel, up: SyncSchema, u: Rel, id: Id) -> bool {
    match id {
        Id::Both(a, b) => u.ids.contains(*a) && l.ids.contains(*b) && follows(lo, l, up, u, *a, *b),
        Id::Left(a) => u.ids.contains(*a) && forall|b: Id| #[trigger] l.ids.contains(b) ==> !follows(lo, l, up, u, *a, b),
        Id::Right(b) => l.ids.contains(*b) && forall|a: Id| #[trigger] u.ids.contains(a) ==> !follows(lo, l, up, u, a, *b),
        _ => false,
    }
}
pub open spec fn of_upper(id: Id) -> Id { match id { Id::Both(a, b) => *a, Id::Left(a) => *a, _ => id } }
pub open spec fn of_lower(id: Id) -> Id { match id { Id::Both(a, b) => *b, Id::Right(b) => *b, _ => id } }
pub open spec fn has_upper(id: Id) -> bool { id is Both || id is Left }
pub open spec fn has_lower(id: Id) -> bool { id is Both || id is Right }
pub open spec fn merged_rows(lo: SyncSchema, l: Rel, up: SyncSchema, u: Rel, s: SyncSchema, r: Rel) -> bool {
    forall|id: Id, role: ColumnRole, n: Seqc| r.ids.contains(id) && #[trigger] hasc(shape(s), role, n) ==> merged_cell(lo, up, has_lower(id), has_upper(id), cells(lo, l, of_lower(id)), cells(up, u, of_upper(id)), role, n, #[trigger] cells(s, r, id)(role, n))
}
pub open spec fn merged_cols(lo: SyncSchema, up: SyncSchema, s: SyncSchema) -> bool { forall|role: ColumnRole, n: Seqc| #[trigger] hasc(shape(s), role, n) == wanted(lo, up, role, n) }
// both one after the other, joined where a change follows another
pub open spec fn chained_items(lo: SyncSchema, l: Rel, up: SyncSchema, u: Rel, s: SyncSchema, r: Rel) -> bool {
    fits(s, r, low()) && merged_cols(lo, up, s) && merged_rows(lo, l, up, u, s, r) && forall|id: Id| #[trigger] r.ids.contains(id) == chain_ids(lo, l, up, u, id)
}
// all rows of both
pub open spec fn put_items(lo: SyncSchema, l: Rel, up: SyncSchema, u: Rel, s: SyncSchema, r: Rel) -> bool {
    fits(s, r, low()) && merged_cols(lo, up, s)
    && (forall|a: Id| #[trigger] r.ids.contains(Id::Left(Box::new(a))) == l.ids.contains(a)) && (forall|b: Id| #[trigger] r.ids.contains(Id::Right(Box::new(b))) == u.ids.contains(b)) && (forall|id: Id| #[trigger] r.ids.contains(id) ==> id is Left || id is Right)
    && (forall|a: Id, role: ColumnRole, n: Seqc| l.ids.contains(a) && #[trigger] hasc(shape(s), role, n) ==> merged_cell(lo, up, true, false, cells(lo, l, a), cells(lo, l, a), role, n, #[trigger] cells(s, r, Id::Left(Box::new(a)))(role, n)))
    && (forall|b: Id, role: ColumnRole, n: Seqc| u.ids.contains(b) && #[trigger] hasc(shape(s), role, n) ==> merged_cell(lo, up, false, true, cells(up, u, b), cells(up, u, b), role, n, #[trigger] cells(s, r, Id::Right(Box::new(b)))(role, n)))
}
// the schema of what is merged
pub proof fn lemma_merged_schema(lo: SyncSchema, up: SyncSchema, s: SyncSchema, d: Descs, t: Schema, cols: Seq<Ref>)
    requires ready(lo), ready(up), once(cds(d)), acceptable(d, t, true), described(s, d, t), index_ok(s), t.f@.len() == d.len(), cols.len() == d.len(), uniq(cols),
        t.flat() == t.f@.len() && distinct_cols(shape(s)) ==> sensible(shape(s)),
        forall|role: ColumnRole, n: Seqc| #[trigger] cds(d).contains((rolei(role), n)) == wanted(lo, up, role, n),
        forall|k: int| 0 <= k < d.len() ==> known_cd(#[trigger] cds(d)[k]),
        forall|k: int| 0 <= k < d.len() ==> (#[trigger] cols[k]).0 == Some(low()),
        forall|k: int| 0 <= k < d.len() ==> (#[trigger] t.f@[k]).fname() == cols[k].1,
    ensures ready(s), merged_cols(lo, up, s), forall|k: int| 0 <= k < d.len() ==> cd_of(#[trigger] s.columns@[k]) == cds(d)[k] && s.columns@[k].role == crole(cds(d)[k]), s.columns@.len() == d.len(),
        forall|i: int| 0 <= i < cols.len() ==> #[trigger] cols[i] == (Some(low()), s.columns@[i].field.fname()),
{
    assert forall|k: int| 0 <= k < d.len() implies cd_of(#[trigger] s.columns@[k]) == cds(d)[k] && s.columns@[k].role == crole(cds(d)[k]) by {
        assert(as_described(s.columns@[k], d[k], t.f@[k])); assert(known_cd(cds(d)[k])); assert(cds(d)[k] == cdv(d[k])); lemma_rolei(s.columns@[k].role);
    }
    assert forall|i: int| 0 <= i < cols.len() implies #[trigger] cols[i] == (Some(low()), s.columns@[i].field.fname()) by { assert(as_described(s.columns@[i], d[i], t.f@[i])); assert(t.f@[i].fname() == cols[i].1); }
    assert(distinct_cols(shape(s))) by { assert forall|p: int, q: int| 0 <= p < shape(s).len() && 0 <= q < shape(s).len() && p != q implies #[trigger] shape(s)[p] != #[trigger] shape(s)[q] by { assert(cds(d)[p] != cds(d)[q]); assert(cd_of(s.columns@[p]) == cds(d)[p]); assert(cd_of(s.columns@[q]) == cds(d)[q]); } }
    assert forall|role: ColumnRole, n: Seqc| #[trigger] hasc(shape(s), role, n) == wanted(lo, up, role, n) by {
        let c = (rolei(role), n);
        if hasc(shape(s), role, n) { let p = choose|p: int| is_at(shape(s), role, n, p); assert(cd_of(s.columns@[p]) == cds(d)[p]); assert(cds(d)[p] == c); assert(cds(d).contains(c)); }
        if cds(d).contains(c) { let p = choose|p: int| 0 <= p < cds(d).len() && cds(d)[p] == c; assert(cd_of(s.columns@[p]) == c); lemma_rolei(role); lemma_rolei(s.columns@[p].role); assert(is_at(shape(s), role, n, p)); }
        assert(cds(d).contains(c) == wanted(lo, up, role, n));
    }
}
// the keys by which the two are joined
pub open spec fn key_pairs(lo: SyncSchema, up: SyncSchema, kl: Seq<Ref>, ku: Seq<Ref>) -> bool {
    kl.len() == ku.len()
    && (forall|i: int| 0 <= i < ku.len() ==> #[trigger] key_pair(lo, up, kl[i], ku[i]))
    && (forall|n: Seqc| #[trigger] hasc(shape(up), ColumnRole::OldPk, n) ==> exists|i: int| 0 <= i < ku.len() && #[trigger] key_pair_of(lo, up, n, kl[i], ku[i]))
}
pub open spec fn key_pair_of(lo: SyncSchema, up: SyncSchema, n: Seqc, l: Ref, u: Ref) -> bool {
    hasc(shape(up), ColumnRole::OldPk, n) && hasc(shape(lo), ColumnRole::NewPk, n)
    && u == (None::<Seqc>, up.columns@[pos(shape(up), ColumnRole::OldPk, n)].field.fname()) && l == (None::<Seqc>, lo.columns@[pos(shape(lo), ColumnRole::NewPk, n)].field.fname())
}
pub open spec fn key_pair(lo: SyncSchema, up: SyncSchema, l: Ref, u: Ref) -> bool { exists|n: Seqc| #[trigger] key_pair_of(lo, up, n, l, u) }
pub proof fn lemma_follows(lo: SyncSchema, l: Rel, lf: Rel, up: SyncSchema, u: Rel, uf: Rel, kl: Seq<Ref>, ku: Seq<Ref>)
    requires ready(lo), ready(up), cell_refs(lo, l, lf, low()), cell_refs(up, u, uf, upp()), key_pairs(lo, up, kl, ku)
    ensures forall|a: Id, b: Id| #[trigger] keys_match(uf, lf, ku, kl, a, b) == follows(lo, l, up, u, a, b),
        forall|i: int| 0 <= i < ku.len() ==> found(uf.cols, (#[trigger] ku[i]).0, ku[i].1)
{
    assert forall|a: Id, b: Id, n: Seqc, i: int| 0 <= i < ku.len() && #[trigger] key_pair_of(lo, up, n, kl[i], ku[i]) implies #[trigger] envof(uf, a)(ku[i].0, ku[i].1) == cells(up, u, a)(ColumnRole::OldPk, n) && envof(lf, b)(kl[i].0, kl[i].1) == #[trigger] cells(lo, l, b)(ColumnRole::NewPk, n) && found(uf.cols, ku[i].0, ku[i].1) by {
        let p = pos(shape(up), ColumnRole::OldPk, n); let q = pos(shape(lo), ColumnRole::NewPk, n);
        assert(is_at(shape(up), ColumnRole::OldPk, n, p)); assert(is_at(shape(lo), ColumnRole::NewPk, n, q));
        assert(envof(uf, a)(None, up.columns@[p].field.fname()) == cells(up, u, a)(up.columns@[p].role, up.columns@[p].name@));
        assert(envof(lf, b)(None, lo.columns@[q].field.fname()) == cells(lo, l, b)(lo.columns@[q].role, lo.columns@[q].name@));
    }
    assert forall|a: Id, b: Id| #[trigger] keys_match(uf, lf, ku, kl, a, b) == follows(lo, l, up, u, a, b) by {
        if keys_match(uf, lf, ku, kl, a, b) {
            assert forall|n: Seqc| #[trigger] hasc(shape(up), ColumnRole::OldPk, n) implies eq3(cells(up, u, a)(ColumnRole::OldPk, n), cells(lo, l, b)(ColumnRole::NewPk, n)) == Val::Bool(true) by {
                let i = choose|i: int| 0 <= i < ku.len() && #[trigger] key_pair_of(lo, up, n, kl[i], ku[i]);
                assert(eq3(envof(uf, a)(ku[i].0, ku[i].1), envof(lf, b)(kl[i].0, kl[i].1)) == Val::Bool(true));
                let _ = cells(lo, l, b)(ColumnRole::NewPk, n);
            }
        }
        if follows(lo, l, up, u, a, b) {
            assert forall|i: int| 0 <= i < ku.len() implies eq3(envof(uf, a)((#[trigger] ku[i]).0, ku[i].1), envof(lf, b)(kl[i].0, kl[i].1)) == Val::Bool(true) by {
                assert(key_pair(lo, up, kl[i], ku[i])); let n = choose|n: Seqc| #[trigger] key_pair_of(lo, up, n, kl[i], ku[i]);
                assert(hasc(shape(up), ColumnRole::OldPk, n));
                let _ = cells(lo, l, b)(ColumnRole::NewPk, n);
            }
        }
    }
    assert forall|i: int| 0 <= i < ku.len() implies found(uf.cols, (#[trigger] ku[i]).0, ku[i].1) by { assert(key_pair(lo, up, kl[i], ku[i])); let n = choose|n: Seqc| #[trigger] key_pair_of(lo, up, n, kl[i], ku[i]); let _ = envof(uf, Id::Src(0))(ku[i].0, ku[i].1) == cells(lo, l, Id::Src(0))(ColumnRole::NewPk, n); }
}
// what a row of the join has of both
pub proof fn lemma_joined(lo: SyncSchema, l: Rel, lf: Rel, up: SyncSchema, u: Rel, uf: Rel, kl: Seq<Ref>, ku: Seq<Ref>, id: Id)
    requires fits(lo, l, low()), fits(up, u, upp()), flagged_rel(l, lf, low()), flagged_rel(u, uf, upp()), full_ids(uf, lf, ku, kl, id), uniq(full_join(uf, lf, ku, kl).cols)
    ensures joined(envof(full_join(uf, lf, ku, kl), id), lo, up, has_lower(id), has_upper(id), cells(lo, l, of_lower(id)), cells(up, u, of_upper(id)))
{
    let j = full_join(uf, lf, ku, kl); let e = envof(j, id); let nu = uf.cols.len() as int; let w = up.columns@.len() as int; let v = lo.columns@.len() as int;
    assert(j.cols[w as int] == (None::<Seqc>, upp())); assert(j.cols[nu + v] == (None::<Seqc>, low()));
    lemma_find(j.cols, w as int); lemma_find(j.cols, nu + v);
    assert((uf.at)(of_upper(id), w as int) == Val::Bool(true)); assert((lf.at)(of_lower(id), v as int) == Val::Bool(true));
    assert forall|i: int| 0 <= i < w implies e(Some(upp()), (#[trigger] up.columns@[i]).field.fname()) == (if has_upper(id) { cells(up, u, of_upper(id))(up.columns@[i].role, up.columns@[i].name@) } else { Val::Null }) by {
        assert(j.cols[i] == u.cols[i]); lemma_find(j.cols, i); lemma_place(up, i); assert((uf.at)(of_upper(id), i) == (u.at)(of_upper(id), i));
    }
    assert forall|i: int| 0 <= i < v implies e(Some(low()), (#[trigger] lo.columns@[i]).field.fname()) == (if has_lower(id) { cells(lo, l, of_lower(id))(lo.columns@[i].role, lo.columns@[i].name@) } else { Val::Null }) by {
        assert(j.cols[nu + i] == l.cols[i]); lemma_find(j.cols, nu + i); lemma_place(lo, i); assert((lf.at)(of_lower(id), i) == (l.at)(of_lower(id), i));
    }
}
pub open spec fn proj_good(lo: SyncSchema, up: SyncSchema, p: Seq<Expr>, d: Descs) -> bool {
    p.len() == d.len() && forall|k: int| 0 <= k < d.len() ==> known_cd(#[trigger] cds(d)[k]) && good(lo, up, crole(cds(d)[k]), cds(d)[k].1, p[k]) && aliased(p[k], cds(d)[k])
}
pub open spec fn schema_of(lo: SyncSchema, up: SyncSchema, s: SyncSchema, d: Descs, t: Schema, cols: Seq<Ref>) -> bool {
    once(cds(d)) && acceptable(d, t, true) && index_ok(s) && (t.flat() == t.f@.len() && distinct_cols(shape(s)) ==> sensible(shape(s)))
    && (forall|role: ColumnRole, n: Seqc| #[trigger] cds(d).contains((rolei(role), n)) == wanted(lo, up, role, n))
    && t.f@.len() == cols.len() && forall|k: int| 0 <= k < cols.len() ==> (#[trigger] t.f@[k]).fname() == cols[k].1
}
pub proof fn lemma_chained_items(lo: SyncSchema, l: Rel, up: SyncSchema, u: Rel, lf: Rel, uf: Rel, kl: Seq<Ref>, ku: Seq<Ref>, p: Seq<Expr>, s: SyncSchema, d: Descs, t: Schema)
    requires fits(lo, l, low()), fits(up, u, upp()), flagged_rel(l, lf, low()), flagged_rel(u, uf, upp()), key_pairs(lo, up, kl, ku), uniq(full_join(uf, lf, ku, kl).cols),
        uniq(projected(full_join(uf, lf, ku, kl), p).cols), proj_good(lo, up, p, d), described(s, d, t), schema_of(lo, up, s, d, t, projected(full_join(uf, lf, ku, kl), p).cols),
    ensures chained_items(lo, l, up, u, s, projected(full_join(uf, lf, ku, kl), p))
{
    let j = full_join(uf, lf, ku, kl); let r = projected(j, p);
    assert forall|k: int| 0 <= k < d.len() implies (#[trigger] r.cols[k]).0 == Some(low()) by { assert(known_cd(cds(d)[k])); assert(aliased(p[k], cds(d)[k])); }
    assert forall|k: int| 0 <= k < d.len() implies known_cd(#[trigger] cds(d)[k]) by {}
    lemma_merged_schema(lo, up, s, d, t, r.cols);
    lemma_cell_refs(lo, l, lf, low()); lemma_cell_refs(up, u, uf, upp()); lemma_follows(lo, l, lf, up, u, uf, kl, ku);
    assert forall|id: Id| #[trigger] r.ids.contains(id) == chain_ids(lo, l, up, u, id) by {
        assert(r.ids.contains(id) == full_ids(uf, lf, ku, kl, id));
        match id {
            Id::Both(a, b) => { assert(keys_match(uf, lf, ku, kl, *a, *b) == follows(lo, l, up, u, *a, *b)); }
            Id::Left(a) => { assert forall|b: Id| #[trigger] l.ids.contains(b) implies keys_match(uf, lf, ku, kl, *a, b) == follows(lo, l, up, u, *a, b) by {} }
            Id::Right(b) => { assert forall|a: Id| #[trigger] u.ids.contains(a) implies keys_match(uf, lf, ku, kl, a, *b) == follows(lo, l, up, u, a, *b) by {} }
            _ => {}
        }
    }
    assert forall|id: Id, role: ColumnRole, n: Seqc| r.ids.contains(id) && #[trigger] hasc(shape(s), role, n) implies merged_cell(lo, up, has_lower(id), has_upper(id), cells(lo, l, of_lower(id)), cells(up, u, of_upper(id)), role, n, #[trigger] cells(s, r, id)(role, n)) by {
        let k = pos(shape(s), role, n); assert(is_at(shape(s), role, n, k));
        lemma_joined(lo, l, lf, up, u, uf, kl, ku, id);
        assert(cd_of(s.columns@[k]) == cds(d)[k]);
        assert(good(lo, up, crole(cds(d)[k]), cds(d)[k].1, p[k]));
        assert(merged_cell(lo, up, has_lower(id), has_upper(id), cells(lo, l, of_lower(id)), cells(up, u, of_upper(id)), role, n, p[k].ev(envof(j, id))));
    }
}
// all of it, for whatever plans the function makes
pub proof fn lemma_join_all(lo: SyncSchema, l: Rel, up: SyncSchema, u: Rel)
    requires fits(lo, l, low()), fits(up, u, upp())
    ensures forall|v: Seq<Expr>| uniq(#[trigger] projected(l, v).cols) && flagged_exprs(v, l.cols, low()) ==> flagged_rel(l, projected(l, v), low()),
        forall|v: Seq<Expr>| uniq(#[trigger] projected(u, v).cols) && flagged_exprs(v, u.cols, upp()) ==> flagged_rel(u, projected(u, v), upp()),
        forall|i: Rel, v: Seq<Expr>, x: Expr| uniq((#[trigger] projected(i, v.push(x))).cols) && l == projected(i, v) && flag_expr(x, low()) ==> flagged_rel(l, projected(i, v.push(x)), low()),
        forall|lf: Rel, uf: Rel, kl: Seq<Column>, ku: Seq<Column>| #[trigger] flagged_rel(l, lf, low()) && #[trigger] flagged_rel(u, uf, upp()) && #[trigger] key_pairs(lo, up, crefs(kl), crefs(ku)) ==> forall|i: int| 0 <= i < ku.len() ==> found(uf.cols, (#[trigger] ku[i])@.0, ku[i]@.1),
        forall|lf: Rel, uf: Rel, kl: Seq<Ref>, ku: Seq<Ref>, p: Seq<Expr>, s: SyncSchema, d: Descs, t: Schema| flagged_rel(l, lf, low()) && flagged_rel(u, uf, upp()) && key_pairs(lo, up, kl, ku) && uniq(full_join(uf, lf, ku, kl).cols)
            && uniq((#[trigger] projected(full_join(uf, lf, ku, kl), p)).cols) && proj_good(lo, up, p, d) && #[trigger] described(s, d, t) && schema_of(lo, up, s, d, t, projected(full_join(uf, lf, ku, kl), p).cols) ==> chained_items(lo, l, up, u, s, projected(full_join(uf, lf, ku, kl), p)),
{
    assert forall|v: Seq<Expr>| uniq(#[trigger] projected(l, v).cols) && flagged_exprs(v, l.cols, low()) implies flagged_rel(l, projected(l, v), low()) by { lemma_flagged(l, v, low()); }
    assert forall|v: Seq<Expr>| uniq(#[trigger] projected(u, v).cols) && flagged_exprs(v, u.cols, upp()) implies flagged_rel(u, projected(u, v), upp()) by { lemma_flagged(u, v, upp()); }
    assert forall|i: Rel, v: Seq<Expr>, x: Expr| uniq((#[trigger] projected(i, v.push(x))).cols) && l == projected(i, v) && flag_expr(x, low()) implies flagged_rel(l, projected(i, v.push(x)), low()) by { lemma_pushed_flag(i, v, x, low()); }
    assert forall|lf: Rel, uf: Rel, kl: Seq<Column>, ku: Seq<Column>| #[trigger] flagged_rel(l, lf, low()) && #[trigger] flagged_rel(u, uf, upp()) && #[trigger] key_pairs(lo, up, crefs(kl), crefs(ku)) implies forall|i: int| 0 <= i < ku.len() ==> found(uf.cols, (#[trigger] ku[i])@.0, ku[i]@.1) by {
        lemma_cell_refs(lo, l, lf, low()); lemma_cell_refs(up, u, uf, upp()); lemma_follows(lo, l, lf, up, u, uf, crefs(kl), crefs(ku));
        assert forall|i: int| 0 <= i < ku.len() implies found(uf.cols, (#[trigger] ku[i])@.0, ku[i]@.1) by { let _ = crefs(ku)[i].0; assert(crefs(ku)[i] == ku[i]@); }
    }
    assert forall|lf: Rel, uf: Rel, kl: Seq<Ref>, ku: Seq<Ref>, p: Seq<Expr>, s: SyncSchema, d: Descs, t: Schema| flagged_rel(l, lf, low()) && flagged_rel(u, uf, upp()) && key_pairs(lo, up, kl, ku) && uniq(full_join(uf, lf, ku, kl).cols)
            && uniq((#[trigger] projected(full_join(uf, lf, ku, kl), p)).cols) && proj_good(lo, up, p, d) && #[trigger] described(s, d, t) && schema_of(lo, up, s, d, t, projected(full_join(uf, lf, ku, kl), p).cols) implies chained_items(lo, l, up, u, s, projected(full_join(uf, lf, ku, kl), p)) by { lemma_chained_items(lo, l, up, u, lf, uf, kl, ku, p, s, d, t); }
}
pub open spec fn uproj_good(lo: SyncSchema, up: SyncSchema, a: Seq<Expr>, b: Seq<Expr>, d: Descs) -> bool {
    a.len() == d.len() && b.len() == d.len() && forall|k: int| 0 <= k < d.len() ==> known_cd(#[trigger] cds(d)[k]) && ugood(lo, up, crole(cds(d)[k]), cds(d)[k].1, a[k], b[k]) && aliased(a[k], cds(d)[k]) && aliased(b[k], cds(d)[k])
}
pub proof fn lemma_put_items(lo: SyncSchema, l: Rel, up: SyncSchema, u: Rel, a: Seq<Expr>, b: Seq<Expr>, s: SyncSchema, d: Descs, t: Schema)
    requires fits(lo, l, low()), fits(up, u, upp()), uniq(projected(l, a).cols), uproj_good(lo, up, a, b, d), described(s, d, t), schema_of(lo, up, s, d, t, projected(l, a).cols),
    ensures put_items(lo, l, up, u, s, unioned(projected(l, a), projected(u, b)))
{
    let r = unioned(projected(l, a), projected(u, b));
    assert forall|k: int| 0 <= k < d.len() implies (#[trigger] r.cols[k]).0 == Some(low()) by { assert(known_cd(cds(d)[k])); assert(aliased(a[k], cds(d)[k])); }
    assert forall|k: int| 0 <= k < d.len() implies known_cd(#[trigger] cds(d)[k]) by {}
    lemma_merged_schema(lo, up, s, d, t, r.cols);
    lemma_alone(lo, l, low()); lemma_alone(up, u, upp());
    assert forall|x: Id, role: ColumnRole, n: Seqc| l.ids.contains(x) && #[trigger] hasc(shape(s), role, n) implies merged_cell(lo, up, true, false, cells(lo, l, x), cells(lo, l, x), role, n, #[trigger] cells(s, r, Id::Left(Box::new(x)))(role, n)) by {
        let k = pos(shape(s), role, n); assert(is_at(shape(s), role, n, k)); assert(cd_of(s.columns@[k]) == cds(d)[k]);
        assert(alone(envof(l, x), lo, cells(lo, l, x)));
        assert(ugood(lo, up, crole(cds(d)[k]), cds(d)[k].1, a[k], b[k]));
    }
    assert forall|x: Id, role: ColumnRole, n: Seqc| u.ids.contains(x) && #[trigger] hasc(shape(s), role, n) implies merged_cell(lo, up, false, true, cells(up, u, x), cells(up, u, x), role, n, #[trigger] cells(s, r, Id::Right(Box::new(x)))(role, n)) by {
        let k = pos(shape(s), role, n); assert(is_at(shape(s), role, n, k)); assert(cd_of(s.columns@[k]) == cds(d)[k]);
        assert(alone(envof(u, x), up, cells(up, u, x)));
        assert(ugood(lo, up, crole(cds(d)[k]), cds(d)[k].1, a[k], b[k]));
    }
}
pub proof fn lemma_union_all(lo: SyncSchema, l: Rel, up: SyncSchema, u: Rel)
    requires fits(lo, l, low()), fits(up, u, upp())
    ensures forall|a: Seq<Expr>, b: Seq<Expr>, s: SyncSchema, d: Descs, t: Schema| uniq(projected(l, a).cols) && uproj_good(lo, up, a, b, d) && #[trigger] described(s, d, t) && schema_of(lo, up, s, d, t, projected(l, a).cols)
        ==> put_items(lo, l, up, u, s, #[trigger] unioned(projected(l, a), projected(u, b)))
{
    assert forall|a: Seq<Expr>, b: Seq<Expr>, s: SyncSchema, d: Descs, t: Schema| uniq(projected(l, a).cols) && uproj_good(lo, up, a, b, d) && #[trigger] described(s, d, t) && schema_of(lo, up, s, d, t, projected(l, a).cols)
        implies put_items(lo, l, up, u, s, #[trigger] unioned(projected(l, a), projected(u, b))) by { lemma_put_items(lo, l, up, u, a, b, s, d, t); }
}
pub open spec fn pairs_ok(lo: SyncSchema, up: SyncSchema, v: Seq<(Column, Column)>) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> key_pair(lo, up, (#[trigger] v[i]).0@, v[i].1@))
    && (forall|n: Seqc| #[trigger] hasc(shape(up), ColumnRole::OldPk, n) ==> exists|i: int| 0 <= i < v.len() && key_pair_of(lo, up, n, (#[trigger] v[i]).0@, v[i].1@))
}
pub proof fn lemma_at(s: SyncSchema, role: ColumnRole, n: Seqc) requires ready(s) ensures forall|p: int| #[trigger] is_at(shape(s), role, n, p) ==> p == pos(shape(s), role, n)
{ assert forall|p: int| #[trigger] is_at(shape(s), role, n, p) implies p == pos(shape(s), role, n) by { let q = pos(shape(s), role, n); assert(is_at(shape(s), role, n, q)); if p != q { assert(shape(s)[p] != shape(s)[q]); } } }
pub proof fn lemma_key(lo: SyncSchema, up: SyncSchema, v: Seq<&SyncColumn>, i: int)
    requires ready(lo), ready(up), same_pks(lo, up), is_role(up, ColumnRole::OldPk, v), 0 <= i < v.len()
    ensures ({ let n = v[i].name@; &&& hasc(shape(lo), ColumnRole::NewPk, n) &&& hasc(shape(up), ColumnRole::OldPk, n) &&& up.columns@[pos(shape(up), ColumnRole::OldPk, n)] == *v[i]
        &&& forall|p: int| #[trigger] is_at(shape(lo), ColumnRole::NewPk, n, p) ==> p == pos(shape(lo), ColumnRole::NewPk, n) })
{
    let c = *v[i]; assert(member(up, c)); lemma_member(up, c);
    let j = choose|j: int| 0 <= j < up.columns@.len() && #[trigger] up.columns@[j] == c; lemma_place(up, j);
    assert(is_at(shape(up), ColumnRole::OldPk, c.name@, j));
    assert(shape(up)[j].role == ColumnRole::OldPk); assert(hasc(shape(up), ColumnRole::NewPk, c.name@)); assert(hasc(shape(lo), ColumnRole::NewPk, c.name@));
    lemma_at(lo, ColumnRole::NewPk, c.name@);
}
pub proof fn lemma_pairs(lo: SyncSchema, up: SyncSchema, v: Seq<&SyncColumn>, a: Seq<(Column, Column)>)
    requires is_role(up, ColumnRole::OldPk, v), a.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> key_pair_of(lo, up, (#[trigger] v[i]).name@, a[i].0@, a[i].1@)
    ensures pairs_ok(lo, up, a)
{
    assert forall|i: int| 0 <= i < a.len() implies key_pair(lo, up, (#[trigger] a[i]).0@, a[i].1@) by { let n = v[i].name@; assert(key_pair_of(lo, up, n, a[i].0@, a[i].1@)); }
    assert forall|n: Seqc| #[trigger] hasc(shape(up), ColumnRole::OldPk, n) implies exists|i: int| 0 <= i < a.len() && key_pair_of(lo, up, n, (#[trigger] a[i]).0@, a[i].1@) by { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i].name@ == n; assert(key_pair_of(lo, up, n, a[i].0@, a[i].1@)); }
}
pub proof fn lemma_unzip(lo: SyncSchema, up: SyncSchema, v: Seq<(Column, Column)>, a: Seq<Column>, b: Seq<Column>)
    requires pairs_ok(lo, up, v), a.len() == v.len(), b.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> a[i] == (#[trigger] v[i]).0 && b[i] == v[i].1
    ensures key_pairs(lo, up, crefs(a), crefs(b))
{
    assert forall|i: int| 0 <= i < crefs(b).len() implies #[trigger] key_pair(lo, up, crefs(a)[i], crefs(b)[i]) by { assert(key_pair(lo, up, v[i].0@, v[i].1@)); }
    assert forall|n: Seqc| #[trigger] hasc(shape(up), ColumnRole::OldPk, n) implies exists|i: int| 0 <= i < crefs(b).len() && #[trigger] key_pair_of(lo, up, n, crefs(a)[i], crefs(b)[i]) by {
        let i = choose|i: int| 0 <= i < v.len() && key_pair_of(lo, up, n, (#[trigger] v[i]).0@, v[i].1@); assert(key_pair_of(lo, up, n, crefs(a)[i], crefs(b)[i]));
    }
}
// the rows under other names: which side is called which
pub open spec fn flip(id: Id) -> Id { match id { Id::Left(a) => Id::Right(a), Id::Right(b) => Id::Left(b), _ => id } }
pub open spec fn flipped(r: Rel) -> Rel { Rel { cols: r.cols, ids: ISet::new(|id: Id| r.ids.contains(flip(id))), at: |id: Id, k: int| (r.at)(flip(id), k) } }
// one item after another, whatever the rows are called
pub open spec fn squashed2(lo: SyncSchema, l: Rel, up: SyncSchema, u: Rel, s: SyncSchema, r: Rel) -> bool { chained_items(lo, l, up, u, s, r) || chained_items(lo, l, up, u, s, flipped(r)) }
pub proof fn lemma_put_is_chained(lo: SyncSchema, l: Rel, up: SyncSchema, u: Rel, s: SyncSchema, r: Rel)
    requires put_items(lo, l, up, u, s, r), forall|a: Id, b: Id| u.ids.contains(a) && l.ids.contains(b) ==> !#[trigger] follows(lo, l, up, u, a, b), fits(lo, l, low()), fits(up, u, upp())
    ensures chained_items(lo, l, up, u, s, flipped(r))
{
    let f = flipped(r);
    assert forall|id: Id| #[trigger] f.ids.contains(id) == chain_ids(lo, l, up, u, id) by {
        match id {
            Id::Left(a) => { assert(r.ids.contains(Id::Right(Box::new(*a))) == u.ids.contains(*a)); if u.ids.contains(*a) { assert forall|b: Id| #[trigger] l.ids.contains(b) implies !follows(lo, l, up, u, *a, b) by {} } }
            Id::Right(b) => { assert(r.ids.contains(Id::Left(Box::new(*b))) == l.ids.contains(*b)); if l.ids.contains(*b) { assert forall|a: Id| #[trigger] u.ids.contains(a) implies !follows(lo, l, up, u, a, *b) by {} } }
            _ => {}
        }
    }
    assert forall|id: Id, role: ColumnRole, n: Seqc| f.ids.contains(id) && #[trigger] hasc(shape(s), role, n) implies merged_cell(lo, up, has_lower(id), has_upper(id), cells(lo, l, of_lower(id)), cells(up, u, of_upper(id)), role, n, #[trigger] cells(s, f, id)(role, n)) by {
        assert(chain_ids(lo, l, up, u, id)); let x = of_upper(id); let y = of_lower(id); let k = pos(shape(s), role, n);
        match id {
            Id::Left(a) => { assert(u.ids.contains(*a)); let w = Id::Right(Box::new(*a)); assert(cells(s, r, w)(role, n) == cells(s, f, id)(role, n)); assert(merged_cell(lo, up, false, true, cells(up, u, *a), cells(up, u, *a), role, n, cells(s, r, w)(role, n))); }
            Id::Right(b) => { assert(l.ids.contains(*b)); let w = Id::Left(Box::new(*b)); assert(cells(s, r, w)(role, n) == cells(s, f, id)(role, n)); assert(merged_cell(lo, up, true, false, cells(lo, l, *b), cells(lo, l, *b), role, n, cells(s, r, w)(role, n))); }
            _ => {}
        }
    }
}
// the data of an item and its schema agree
pub open spec fn holds(s: SyncSchema, b: RecordBatch) -> bool { ready(s) && batch_ok(b) && b.s.f@.len() == s.columns@.len() && forall|i: int| 0 <= i < s.columns@.len() ==> (#[trigger] b.s.f@[i]).fname() == s.columns@[i].field.fname() }
pub open spec fn data_rel(q: Seqc, b: RecordBatch) -> Rel { scanned(q, fnames(b.s), table(b), b.rows as nat) }

pub proof fn lemma_no_follows(lo: SyncSchema, l: Rel, up: SyncSchema, b: RecordBatch, k: int, i: int)
    requires holds(up, b), 0 <= k < up.columns@.len(), up.columns@[k].role == ColumnRole::OldPk, 0 <= i < b.cols@.len(), b.s.f@[i].fname() == up.columns@[k].field.fname(), fits(up, data_rel(upp(), b), upp()), forall|j: int| 0 <= j < b.rows ==> #[trigger] b.cols@[i]@[j] == Val::Null
    ensures forall|x: Id, y: Id| data_rel(upp(), b).ids.contains(x) ==> !#[trigger] follows(lo, l, up, data_rel(upp(), b), x, y)
{
    let u = data_rel(upp(), b); let n = up.columns@[k].name@;
    assert(u.cols[i] == u.cols[k]); assert(i == k);
    lemma_place(up, k);
    assert forall|x: Id, y: Id| u.ids.contains(x) implies !#[trigger] follows(lo, l, up, u, x, y) by {
        assert(hasc(shape(up), ColumnRole::OldPk, n));
        assert(cells(up, u, x)(ColumnRole::OldPk, n) == table(b)[k][x->Src_0]);
        assert(table(b)[k][x->Src_0] == b.cols@[k]@[x->Src_0]);
    }
}
pub proof fn lemma_has_old(s: SyncSchema) requires ready(s) ensures exists|k: int| 0 <= k < s.columns@.len() && (#[trigger] s.columns@[k]).role == ColumnRole::OldPk
{ let sh = shape(s); lemma_filt(sh, ColumnRole::OldPk, sh.len()); let k = all(sh, ColumnRole::OldPk)[0]; assert(sh[k].role == ColumnRole::OldPk); assert(s.columns@[k].role == ColumnRole::OldPk); }
pub proof fn lemma_data_fits(s: SyncSchema, b: RecordBatch, q: Seqc) requires holds(s, b), uniq(data_rel(q, b).cols) ensures fits(s, data_rel(q, b), q)
{ let r = data_rel(q, b); assert forall|i: int| 0 <= i < r.cols.len() implies #[trigger] r.cols[i] == (Some(q), s.columns@[i].field.fname()) by { assert(b.s.f@[i].fname() == s.columns@[i].field.fname()); } }
// what is found about the first old key column
pub open spec fn old_null(s: SyncSchema, b: RecordBatch, f: bool) -> bool { f ==> exists|k: int, i: int| 0 <= k < s.columns@.len() && (#[trigger] s.columns@[k]).role == ColumnRole::OldPk && 0 <= i < b.cols@.len() && (#[trigger] b.s.f@[i]).fname() == s.columns@[k].field.fname() && forall|j: int| 0 <= j < b.rows ==> #[trigger] b.cols@[i]@[j] == Val::Null }
pub proof fn lemma_merge_all(lo: SyncSchema, l: Rel, up: SyncSchema, b: RecordBatch)
    requires fits(lo, l, low()), holds(up, b)
    ensures uniq(data_rel(upp(), b).cols) ==> fits(up, data_rel(upp(), b), upp()),
        uniq(data_rel(upp(), b).cols) && old_null(up, b, true) ==> forall|s: SyncSchema, r: Rel| #[trigger] put_items(lo, l, up, data_rel(upp(), b), s, r) ==> chained_items(lo, l, up, data_rel(upp(), b), s, flipped(r)),
{
    if uniq(data_rel(upp(), b).cols) {
        lemma_data_fits(up, b, upp());
        if old_null(up, b, true) {
            let (k, i) = choose|k: int, i: int| 0 <= k < up.columns@.len() && (#[trigger] up.columns@[k]).role == ColumnRole::OldPk && 0 <= i < b.cols@.len() && (#[trigger] b.s.f@[i]).fname() == up.columns@[k].field.fname() && forall|j: int| 0 <= j < b.rows ==> #[trigger] b.cols@[i]@[j] == Val::Null;
            lemma_no_follows(lo, l, up, b, k, i);
            assert forall|s: SyncSchema, r: Rel| #[trigger] put_items(lo, l, up, data_rel(upp(), b), s, r) implies chained_items(lo, l, up, data_rel(upp(), b), s, flipped(r)) by { lemma_put_is_chained(lo, l, up, data_rel(upp(), b), s, r); }
        }
    }
}
pub proof fn lemma_one(b: RecordBatch) requires batch_ok(b) ensures forall|d: Seq<RecordBatch>, w: nat| d.len() == 1 && d[0] == b && w == b.cols@.len() ==> #[trigger] cat(d, w) == table(b), forall|d: Seq<RecordBatch>| d.len() == 1 && d[0] == b ==> #[trigger] total(d) == b.rows as nat
{
    assert forall|d: Seq<RecordBatch>, w: nat| d.len() == 1 && d[0] == b && w == b.cols@.len() implies #[trigger] cat(d, w) == table(b) by { reveal_with_fuel(catcol, 3); assert(d.drop_last().len() == 0); assert forall|p: int| 0 <= p < w implies catcol(d, p) =~= b.cols@[p]@ by {} assert(cat(d, w) =~= table(b)); }
    assert forall|d: Seq<RecordBatch>| d.len() == 1 && d[0] == b implies #[trigger] total(d) == b.rows as nat by { reveal_with_fuel(total, 3); assert(d.drop_last().len() == 0); }
}
// ---- the items of a flush, one after another
pub open spec fn item_ok(i: DataSyncItem) -> bool { i.data@.len() == 1 && holds(i.sync_schema, i.data@[0]) }
pub open spec fn flushable(v: Seq<DataSyncItem>) -> bool { v.len() > 0 && (forall|i: int| 0 <= i < v.len() ==> item_ok(#[trigger] v[i])) && forall|i: int| 0 <= i < v.len() ==> same_pks(v[0].sync_schema, (#[trigger] v[i]).sync_schema) }
pub open spec fn squashed(v: Seq<DataSyncItem>, s: SyncSchema, r: Rel) -> bool decreases v.len() {
    if v.len() == 0 { false } else if v.len() == 1 { s == v[0].sync_schema && r == data_rel(low(), v[0].data@[0]) }
    else { exists|s0: SyncSchema, r0: Rel| squashed(v.drop_last(), s0, r0) && #[trigger] squashed2(s0, r0, v.last().sync_schema, data_rel(upp(), v.last().data@[0]), s, r) }
}
pub open spec fn squashed_so_far(v: Seq<DataSyncItem>, k: int, s: SyncSchema, r: Rel) -> bool { squashed(v.take(k), s, r) && fits(s, r, low()) && same_pks(v[0].sync_schema, s) }
pub proof fn lemma_squash_step(v: Seq<DataSyncItem>, k: int, s0: SyncSchema, r0: Rel)
    requires flushable(v), 0 < k < v.len(), squashed_so_far(v, k, s0, r0)
    ensures same_pks(s0, v[k].sync_schema), forall|s: SyncSchema, r: Rel| #[trigger] squashed2(s0, r0, v[k].sync_schema, data_rel(upp(), v[k].data@[0]), s, r) ==> squashed_so_far(v, k + 1, s, r)
{
    let up = v[k].sync_schema; let u = data_rel(upp(), v[k].data@[0]); let a = v[0].sync_schema;
    assert(item_ok(v[k])); assert(same_pks(a, up));
    assert forall|role: ColumnRole, n: Seqc| (role == ColumnRole::OldPk || role == ColumnRole::NewPk) implies #[trigger] hasc(shape(s0), role, n) == hasc(shape(up), role, n) by { assert(hasc(shape(a), role, n) == hasc(shape(s0), role, n)); assert(hasc(shape(a), role, n) == hasc(shape(up), role, n)); }
    assert forall|s: SyncSchema, r: Rel| #[trigger] squashed2(s0, r0, up, u, s, r) implies squashed_so_far(v, k + 1, s, r) by {
        assert(v.take(k + 1).drop_last() =~= v.take(k)); assert(v.take(k + 1).last() == v[k]);
        assert(squashed(v.take(k + 1).drop_last(), s0, r0));
        let w = v.take(k + 1);
        assert(w.len() > 1 && squashed(w.drop_last(), s0, r0) && squashed2(s0, r0, w.last().sync_schema, data_rel(upp(), w.last().data@[0]), s, r));
        assert(squashed(w, s, r));
        assert(flipped(r).cols == r.cols); assert(fits(s, r, low()));
        assert(merged_cols(s0, up, s));
        assert forall|role: ColumnRole, n: Seqc| (role == ColumnRole::OldPk || role == ColumnRole::NewPk) implies #[trigger] hasc(shape(a), role, n) == hasc(shape(s), role, n) by { assert(hasc(shape(s), role, n) == wanted(s0, up, role, n)); assert(hasc(shape(a), role, n) == hasc(shape(s0), role, n)); assert(hasc(shape(s0), role, n) == hasc(shape(up), role, n)); }
    }
}
pub proof fn lemma_squash_first(v: Seq<DataSyncItem>)
    requires flushable(v)
    ensures item_ok(v[0]), uniq(data_rel(low(), v[0].data@[0]).cols) ==> squashed_so_far(v, 1, v[0].sync_schema, data_rel(low(), v[0].data@[0]))
{
    assert(item_ok(v[0])); let i = v[0];
    if uniq(data_rel(low(), i.data@[0]).cols) { lemma_data_fits(i.sync_schema, i.data@[0], low()); assert(v.take(1).len() == 1); assert(v.take(1)[0] == i); }
}
