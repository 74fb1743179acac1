// ---- the table with the rows that were put and without those that were removed
impl DataFrame {
    #[verifier::external_body] pub fn with_column(self, n: &str, x: Expr) -> (r: core::result::Result<DataFrame, LibError>)
        requires forall|k: int| 0 <= k < self.rel().cols.len() ==> (#[trigger] self.rel().cols[k]).1 != n@
        ensures r matches Ok(d) ==> d.rel() == with_col(self.rel(), n@, x) && uniq(d.rel().cols) { unimplemented!() }
    #[verifier::external_body] pub fn join(self, o: DataFrame, t: JoinType, l: &Vec<&str>, k: &Vec<&str>, f: Option<Expr>) -> (r: core::result::Result<DataFrame, LibError>)
        requires t is Full, f is None, forall|i: int| 0 <= i < l@.len() ==> found(self.rel().cols, parsed((#[trigger] l@[i])@).0, parsed(l@[i]@).1)
        ensures r matches Ok(d) ==> l@.len() == k@.len() && d.rel() == full_join(self.rel(), o.rel(), parsed_all(l@), parsed_all(k@)) && uniq(d.rel().cols) { unimplemented!() }
}
pub open spec fn parsed_all(v: Seq<&str>) -> Seq<Ref> { v.map_values(|x: &str| parsed(x@)) }
pub open spec fn with_col(r: Rel, n: Seqc, x: Expr) -> Rel { Rel { cols: r.cols.push((None, n)), ids: r.ids, at: |id: Id, k: int| if k < r.cols.len() { (r.at)(id, k) } else { x.ev(envof(r, id)) } } }
#[verifier::external_body] pub struct Quoted { p: u8 }
impl Quoted { pub uninterp spec fn txt(&self) -> Seqc; #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == self.txt() { unimplemented!() } }
#[verifier::external_body] pub fn quote_identifier(s: &str) -> (r: Quoted) ensures parsed(r.txt()) == (None::<Seqc>, s@) { unimplemented!() }
pub fn rx_or<'a>(a: &Option<&'a SyncColumn>, b: Option<&'a SyncColumn>) -> (r: Option<&'a SyncColumn>) ensures r == (if *a is Some { *a } else { b }) { match *a { Some(x) => Some(x), None => b } }
// the table: its columns, with no name the planner needs for itself
pub open spec fn table_ok(fs: Schema, b: Rel) -> bool {
    fs.flat() == fs.f@.len() && uniq(b.cols) && b.cols.len() == fs.f@.len() && (forall|k: int| 0 <= k < fs.f@.len() ==> #[trigger] b.cols[k] == (Some(low()), fs.f@[k].fname()))
    && (forall|k: int| 0 <= k < b.cols.len() ==> (#[trigger] b.cols[k]).1 != low() && b.cols[k].1 != UPSERT_COL_spec())
}
pub open spec fn has_field(fs: Schema, n: Seqc) -> bool { exists|k: int| 0 <= k < fs.f@.len() && (#[trigger] fs.f@[k]).fname() == n }
pub open spec fn keys_there(fs: Schema, s: SyncSchema) -> bool { forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::NewPk, n) ==> has_field(fs, n) }
pub open spec fn told(s: SyncSchema, u: Rel) -> bool { forall|c: Id| #[trigger] u.ids.contains(c) ==> (u.at)(c, s.columns@.len() as int) is Bool }
// a change and the row it is about: all keys are equal
pub open spec fn hits(fs: Schema, b: Rel, s: SyncSchema, u: Rel, a: Id, c: Id) -> bool { forall|n: Seqc, k: int| #[trigger] hasc(shape(s), ColumnRole::NewPk, n) && 0 <= k < fs.f@.len() && (#[trigger] fs.f@[k]).fname() == n ==> eq3((b.at)(a, k), cells(s, u, c)(ColumnRole::NewPk, n)) == Val::Bool(true) }
pub open spec fn puts_it(s: SyncSchema, u: Rel, c: Id) -> bool { (u.at)(c, s.columns@.len() as int) == Val::Bool(true) }
pub open spec fn applied_ids(fs: Schema, b: Rel, s: SyncSchema, u: Rel, id: Id) -> bool {
    match id {
        Id::Both(a, c) => b.ids.contains(*a) && u.ids.contains(*c) && hits(fs, b, s, u, *a, *c) && puts_it(s, u, *c),
        Id::Left(a) => b.ids.contains(*a) && forall|c: Id| #[trigger] u.ids.contains(c) ==> !hits(fs, b, s, u, *a, c),
        Id::Right(c) => u.ids.contains(*c) && (forall|a: Id| #[trigger] b.ids.contains(a) ==> !hits(fs, b, s, u, a, *c)) && puts_it(s, u, *c),
        _ => false,
    }
}
// what the change says of a column, and whether it does
pub open spec fn says(s: SyncSchema, c: Cells, n: Seqc) -> bool { (hasc(shape(s), ColumnRole::Value, n) || hasc(shape(s), ColumnRole::NewPk, n)) && (hasc(shape(s), ColumnRole::Changed, n) ==> c(ColumnRole::Changed, n) == Val::Bool(true)) }
pub open spec fn said(s: SyncSchema, c: Cells, n: Seqc) -> Val { if hasc(shape(s), ColumnRole::Value, n) { c(ColumnRole::Value, n) } else { c(ColumnRole::NewPk, n) } }
pub open spec fn applied_cell(fs: Schema, b: Rel, s: SyncSchema, u: Rel, id: Id, k: int) -> Val {
    let n = fs.f@[k].fname();
    match id {
        Id::Both(a, c) => if says(s, cells(s, u, *c), n) { said(s, cells(s, u, *c), n) } else { (b.at)(*a, k) },
        Id::Left(a) => (b.at)(*a, k),
        Id::Right(c) => if says(s, cells(s, u, *c), n) { said(s, cells(s, u, *c), n) } else { Val::Null },
        _ => Val::Null,
    }
}
pub open spec fn applied(fs: Schema, b: Rel, s: SyncSchema, u: Rel, r: Rel) -> bool {
    r.cols.len() == fs.f@.len() && (forall|k: int| 0 <= k < fs.f@.len() ==> #[trigger] r.cols[k] == (None::<Seqc>, fs.f@[k].fname()))
    && (forall|id: Id| #[trigger] r.ids.contains(id) == applied_ids(fs, b, s, u, id))
    && (forall|id: Id, k: int| r.ids.contains(id) && 0 <= k < fs.f@.len() ==> #[trigger] (r.at)(id, k) == applied_cell(fs, b, s, u, id, k))
}
// the expression for a column
pub open spec fn old_of(e: Env, n: Seqc) -> Val { e(Some(low()), n) }
pub open spec fn new_of(s: SyncSchema, e: Env, role: ColumnRole, n: Seqc) -> Val { e(Some(upp()), s.columns@[pos(shape(s), role, n)].field.fname()) }
pub open spec fn aexpr(s: SyncSchema, n: Seqc, x: Expr) -> bool {
    x.nm() == (None::<Seqc>, n) && forall|e: Env| #[trigger] x.ev(e) == (
        if hasc(shape(s), ColumnRole::Value, n) || hasc(shape(s), ColumnRole::NewPk, n) {
            let y = new_of(s, e, if hasc(shape(s), ColumnRole::Value, n) { ColumnRole::Value } else { ColumnRole::NewPk }, n);
            if e(None, UPSERT_COL_spec()) == Val::Null { old_of(e, n) } else if hasc(shape(s), ColumnRole::Changed, n) { if new_of(s, e, ColumnRole::Changed, n) == Val::Bool(true) { y } else { old_of(e, n) } } else { y }
        } else { if e(None, low()) == Val::Null { Val::Null } else { old_of(e, n) } })
}
pub open spec fn aexprs(s: SyncSchema, fs: Schema, p: Seq<Expr>, k: int) -> bool { p.len() == k && forall|i: int| 0 <= i < k ==> aexpr(s, fs.f@[i].fname(), #[trigger] p[i]) }
// the columns the rows are joined on
pub open spec fn akeys(s: SyncSchema, l: Seq<Ref>, k: Seq<Ref>) -> bool {
    l.len() == k.len() && (forall|i: int| 0 <= i < l.len() ==> akey(s, #[trigger] l[i], k[i])) && (forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::NewPk, n) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1 == n)
}
pub open spec fn akey(s: SyncSchema, l: Ref, k: Ref) -> bool { l.0 is None && k.0 is None && hasc(shape(s), ColumnRole::NewPk, l.1) && k.1 == s.columns@[pos(shape(s), ColumnRole::NewPk, l.1)].field.fname() }
// the relation the projection is made from
pub open spec fn marked(b: Rel, f: Rel) -> bool { uniq(f.cols) && f.cols == b.cols.push((None, low())) && f.ids == b.ids && forall|id: Id, k: int| 0 <= k <= b.cols.len() ==> #[trigger] (f.at)(id, k) == (if k < b.cols.len() { (b.at)(id, k) } else { Val::Bool(true) }) }
pub open spec fn undeleted(j: Rel, i: Rel) -> bool { i.cols == j.cols && i.at == j.at && forall|id: Id| #[trigger] i.ids.contains(id) == (j.ids.contains(id) && envof(j, id)(None, UPSERT_COL_spec()) != Val::Bool(false)) }
pub proof fn lemma_akey(fs: Schema, b: Rel, f: Rel, s: SyncSchema, u: Rel, n: Seqc)
    requires table_ok(fs, b), marked(b, f), fits_norm(s, u), keys_there(fs, s), hasc(shape(s), ColumnRole::NewPk, n)
    ensures found(f.cols, None, n), exists|k: int| 0 <= k < fs.f@.len() && (#[trigger] fs.f@[k]).fname() == n,
        forall|k: int| 0 <= k < fs.f@.len() && (#[trigger] fs.f@[k]).fname() == n ==> forall|a: Id| #[trigger] envof(f, a)(None, n) == (b.at)(a, k),
        forall|c: Id| #[trigger] envof(u, c)(None, s.columns@[pos(shape(s), ColumnRole::NewPk, n)].field.fname()) == cells(s, u, c)(ColumnRole::NewPk, n),
{
    let k = choose|k: int| 0 <= k < fs.f@.len() && (#[trigger] fs.f@[k]).fname() == n; assert(has_field(fs, n)); assert(b.cols[k].1 == n); assert(f.cols[k] == b.cols[k]);
    assert forall|k: int| 0 <= k < fs.f@.len() && (#[trigger] fs.f@[k]).fname() == n implies find(f.cols, None, n) == k && found(f.cols, None, n) by {
        assert(b.cols[k].1 == n); assert(f.cols[k] == b.cols[k]);
        assert forall|j: int| 0 <= j < f.cols.len() && (#[trigger] f.cols[j]).1 == n implies j == k by { if j < b.cols.len() { assert(f.cols[j] == b.cols[j]); if j != k { assert(b.cols[j] != b.cols[k]); } } else { assert(b.cols[k].1 != low()); } }
        lemma_bare(f.cols, k);
    }
    let p = pos(shape(s), ColumnRole::NewPk, n); assert(is_at(shape(s), ColumnRole::NewPk, n, p)); assert(u.cols[p].1 == s.columns@[p].field.fname());
    assert forall|j: int| 0 <= j < u.cols.len() && (#[trigger] u.cols[j]).1 == u.cols[p].1 implies j == p by { if j != p { assert(u.cols[j] != u.cols[p]); if j < s.columns@.len() { assert(u.cols[j] == (Some(upp()), s.columns@[j].field.fname())); } } }
    lemma_bare(u.cols, p);
}
pub proof fn lemma_match(fs: Schema, b: Rel, f: Rel, s: SyncSchema, u: Rel, l: Seq<Ref>, k: Seq<Ref>, a: Id, c: Id)
    requires table_ok(fs, b), marked(b, f), fits_norm(s, u), keys_there(fs, s), akeys(s, l, k)
    ensures keys_match(f, u, l, k, a, c) == hits(fs, b, s, u, a, c)
{
    if keys_match(f, u, l, k, a, c) {
        assert forall|n: Seqc, z: int| #[trigger] hasc(shape(s), ColumnRole::NewPk, n) && 0 <= z < fs.f@.len() && (#[trigger] fs.f@[z]).fname() == n implies eq3((b.at)(a, z), cells(s, u, c)(ColumnRole::NewPk, n)) == Val::Bool(true) by {
            lemma_akey(fs, b, f, s, u, n); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1 == n; assert(akey(s, l[i], k[i]));
            assert(envof(f, a)(None, n) == (b.at)(a, z)); assert(eq3(envof(f, a)(l[i].0, l[i].1), envof(u, c)(k[i].0, k[i].1)) == Val::Bool(true));
        }
    }
    if hits(fs, b, s, u, a, c) {
        assert forall|i: int| 0 <= i < l.len() implies eq3(envof(f, a)((#[trigger] l[i]).0, l[i].1), envof(u, c)(k[i].0, k[i].1)) == Val::Bool(true) by {
            assert(akey(s, l[i], k[i])); let n = l[i].1; lemma_akey(fs, b, f, s, u, n); let z = choose|z: int| 0 <= z < fs.f@.len() && (#[trigger] fs.f@[z]).fname() == n;
            assert(envof(f, a)(None, n) == (b.at)(a, z)); assert(eq3((b.at)(a, z), cells(s, u, c)(ColumnRole::NewPk, n)) == Val::Bool(true));
        }
    }
}
// what the columns of the joined rows mean
pub proof fn lemma_jcols(fs: Schema, b: Rel, f: Rel, s: SyncSchema, u: Rel, cols: Seq<Ref>)
    requires table_ok(fs, b), marked(b, f), fits_norm(s, u), cols == f.cols + u.cols, uniq(cols)
    ensures
        find(cols, None, UPSERT_COL_spec()) == cols.len() - 1, find(cols, None, low()) == b.cols.len(),
        forall|k: int| 0 <= k < fs.f@.len() ==> find(cols, Some(low()), (#[trigger] fs.f@[k]).fname()) == k,
        forall|i: int| 0 <= i < s.columns@.len() ==> find(cols, Some(upp()), (#[trigger] s.columns@[i]).field.fname()) == b.cols.len() + 1 + i,
{
    names();
    let nb = b.cols.len() as int; let m = s.columns@.len() as int;
    assert(cols[nb] == f.cols[nb]); assert(cols[nb + 1 + m] == u.cols[m]);
    assert forall|j: int| 0 <= j < cols.len() && (#[trigger] cols[j]).1 == UPSERT_COL_spec() implies j == nb + 1 + m by {
        if j < nb { assert(cols[j] == b.cols[j]); } else if j > nb && j < nb + 1 + m { assert(cols[j] == u.cols[j - nb - 1]); assert(u.cols[j - nb - 1] == (Some(upp()), s.columns@[j - nb - 1].field.fname())); assert(cols[j] != cols[nb + 1 + m]); }
    }
    lemma_bare(cols, nb + 1 + m);
    assert forall|j: int| 0 <= j < cols.len() && (#[trigger] cols[j]).1 == low() implies j == nb by {
        if j < nb { assert(cols[j] == b.cols[j]); } else if j > nb { assert(cols[nb].0 is None); assert(cols[j] == u.cols[j - nb - 1]); assert(cols[j].0 is Some) by { if j - nb - 1 < m { assert(u.cols[j - nb - 1] == (Some(upp()), s.columns@[j - nb - 1].field.fname())); } } }
    }
    lemma_bare(cols, nb);
    assert forall|k: int| 0 <= k < fs.f@.len() implies find(cols, Some(low()), (#[trigger] fs.f@[k]).fname()) == k by { assert(cols[k] == b.cols[k]); lemma_find(cols, k); }
    assert forall|i: int| 0 <= i < m implies find(cols, Some(upp()), (#[trigger] s.columns@[i]).field.fname()) == nb + 1 + i by { assert(cols[nb + 1 + i] == u.cols[i]); lemma_find(cols, nb + 1 + i); }
}
pub proof fn lemma_applied(fs: Schema, b: Rel, f: Rel, s: SyncSchema, u: Rel, l: Seq<Ref>, k: Seq<Ref>, i: Rel, p: Seq<Expr>)
    requires table_ok(fs, b), marked(b, f), fits_norm(s, u), told(s, u), keys_there(fs, s), akeys(s, l, k), uniq(full_join(f, u, l, k).cols), undeleted(full_join(f, u, l, k), i), aexprs(s, fs, p, fs.f@.len() as int)
    ensures applied(fs, b, s, u, projected(i, p))
{
    let j = full_join(f, u, l, k); let r = projected(i, p); let nb = b.cols.len() as int; let m = s.columns@.len() as int;
    lemma_jcols(fs, b, f, s, u, j.cols);
    assert forall|z: int| 0 <= z < fs.f@.len() implies #[trigger] r.cols[z] == (None::<Seqc>, fs.f@[z].fname()) by { assert(aexpr(s, fs.f@[z].fname(), p[z])); }
    assert forall|id: Id| #[trigger] r.ids.contains(id) == applied_ids(fs, b, s, u, id) by { lemma_applied_id(fs, b, f, s, u, l, k, i, id); }
    assert forall|id: Id, z: int| r.ids.contains(id) && 0 <= z < fs.f@.len() implies #[trigger] (r.at)(id, z) == applied_cell(fs, b, s, u, id, z) by { lemma_applied_id(fs, b, f, s, u, l, k, i, id); lemma_applied_cell(fs, b, f, s, u, l, k, i, p, id, z); }
}
pub proof fn lemma_applied_id(fs: Schema, b: Rel, f: Rel, s: SyncSchema, u: Rel, l: Seq<Ref>, k: Seq<Ref>, i: Rel, id: Id)
    requires table_ok(fs, b), marked(b, f), fits_norm(s, u), told(s, u), keys_there(fs, s), akeys(s, l, k), uniq(full_join(f, u, l, k).cols), undeleted(full_join(f, u, l, k), i)
    ensures i.ids.contains(id) == applied_ids(fs, b, s, u, id)
{
    let j = full_join(f, u, l, k); let nb = b.cols.len() as int; let m = s.columns@.len() as int;
    lemma_jcols(fs, b, f, s, u, j.cols);
    assert(envof(j, id)(None, UPSERT_COL_spec()) == joined_at(f, u, id, nb + 1 + m));
    assert(j.ids.contains(id) == full_ids(f, u, l, k, id));
    match id {
        Id::Both(a, c) => { lemma_match(fs, b, f, s, u, l, k, *a, *c); }
        Id::Left(a) => {
            assert forall|c: Id| keys_match(f, u, l, k, *a, c) == #[trigger] hits(fs, b, s, u, *a, c) by { lemma_match(fs, b, f, s, u, l, k, *a, c); }
            assert forall|c: Id| #[trigger] keys_match(f, u, l, k, *a, c) == hits(fs, b, s, u, *a, c) by { lemma_match(fs, b, f, s, u, l, k, *a, c); }
        }
        Id::Right(c) => {
            assert forall|a: Id| keys_match(f, u, l, k, a, *c) == #[trigger] hits(fs, b, s, u, a, *c) by { lemma_match(fs, b, f, s, u, l, k, a, *c); }
            assert forall|a: Id| #[trigger] keys_match(f, u, l, k, a, *c) == hits(fs, b, s, u, a, *c) by { lemma_match(fs, b, f, s, u, l, k, a, *c); }
        }
        _ => {}
    }
}
pub proof fn lemma_applied_cell(fs: Schema, b: Rel, f: Rel, s: SyncSchema, u: Rel, l: Seq<Ref>, k: Seq<Ref>, i: Rel, p: Seq<Expr>, id: Id, z: int)
    requires table_ok(fs, b), marked(b, f), fits_norm(s, u), told(s, u), uniq(full_join(f, u, l, k).cols), undeleted(full_join(f, u, l, k), i), aexprs(s, fs, p, fs.f@.len() as int), applied_ids(fs, b, s, u, id), 0 <= z < fs.f@.len()
    ensures (projected(i, p).at)(id, z) == applied_cell(fs, b, s, u, id, z)
{
    let j = full_join(f, u, l, k); let nb = b.cols.len() as int; let m = s.columns@.len() as int; let n = fs.f@[z].fname(); let e = envof(i, id);
    lemma_jcols(fs, b, f, s, u, j.cols);
    assert(aexpr(s, n, p[z])); assert((projected(i, p).at)(id, z) == p[z].ev(e));
    assert(e(None, UPSERT_COL_spec()) == joined_at(f, u, id, nb + 1 + m)); assert(e(None, low()) == joined_at(f, u, id, nb)); assert(old_of(e, n) == joined_at(f, u, id, z));
    assert forall|role: ColumnRole| #[trigger] hasc(shape(s), role, n) implies new_of(s, e, role, n) == joined_at(f, u, id, nb + 1 + pos(shape(s), role, n)) by { let q = pos(shape(s), role, n); assert(is_at(shape(s), role, n, q)); assert(s.columns@[q].role == role); }
    let v = hasc(shape(s), ColumnRole::Value, n); let w = hasc(shape(s), ColumnRole::NewPk, n); let h = hasc(shape(s), ColumnRole::Changed, n);
    match id { Id::Both(a, c) => { assert((f.at)(*a, nb) == Val::Bool(true)); assert((f.at)(*a, z) == (b.at)(*a, z)); } Id::Left(a) => { assert((f.at)(*a, nb) == Val::Bool(true)); assert((f.at)(*a, z) == (b.at)(*a, z)); } Id::Right(c) => { } _ => {} }
}
pub open spec fn places(s: SyncSchema) -> bool { index_ok(s) && forall|role: ColumnRole, n: Seqc, p: int| #[trigger] is_at(shape(s), role, n, p) ==> p == pos(shape(s), role, n) }
pub open spec fn apair(s: SyncSchema, n: Seqc, x: (String, String)) -> bool { akey(s, parsed(x.0@), parsed(x.1@)) && parsed(x.0@).1 == n }
pub open spec fn apairs(s: SyncSchema, v: Seq<(String, String)>) -> bool { (forall|i: int| 0 <= i < v.len() ==> akey(s, parsed((#[trigger] v[i]).0@), parsed(v[i].1@))) && (forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::NewPk, n) ==> exists|i: int| 0 <= i < v.len() && parsed((#[trigger] v[i]).0@).1 == n) }
pub open spec fn strs(v: Seq<String>) -> Seq<Ref> { v.map_values(|x: String| parsed(x@)) }
pub proof fn lemma_apply_named(s: SyncSchema, c: SyncColumn)
    requires places(s), member(s, c), c.role == ColumnRole::NewPk
    ensures hasc(shape(s), ColumnRole::NewPk, c.name@), c.field.fname() == s.columns@[pos(shape(s), ColumnRole::NewPk, c.name@)].field.fname()
{ let i = choose|i: int| 0 <= i < s.columns@.len() && #[trigger] s.columns@[i] == c; assert(shape(s)[i] == colv(s.columns@[i])); assert(is_at(shape(s), ColumnRole::NewPk, c.name@, i)); }
pub proof fn lemma_apairs(s: SyncSchema, c: Seq<&SyncColumn>, v: Seq<(String, String)>)
    requires is_role(s, ColumnRole::NewPk, c), v.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> apair(s, (#[trigger] c[i]).name@, v[i])
    ensures apairs(s, v)
{
    assert forall|i: int| 0 <= i < v.len() implies akey(s, parsed((#[trigger] v[i]).0@), parsed(v[i].1@)) by { assert(apair(s, c[i].name@, v[i])); }
    assert forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::NewPk, n) implies exists|i: int| 0 <= i < v.len() && parsed((#[trigger] v[i]).0@).1 == n by { let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i].name@ == n; assert(apair(s, c[i].name@, v[i])); assert(parsed(v[i].0@).1 == n); }
}
pub proof fn lemma_akeys(s: SyncSchema, v: Seq<(String, String)>, a: Seq<String>, b: Seq<String>)
    requires apairs(s, v), a.len() == v.len(), b.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> a[i] == (#[trigger] v[i]).0 && b[i] == v[i].1
    ensures akeys(s, strs(a), strs(b))
{
    let l = strs(a); let k = strs(b);
    assert forall|i: int| 0 <= i < l.len() implies akey(s, #[trigger] l[i], k[i]) by { let _ = v[i]; }
    assert forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::NewPk, n) implies exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1 == n by { let i = choose|i: int| 0 <= i < v.len() && parsed((#[trigger] v[i]).0@).1 == n; assert(l[i].1 == n); }
}
pub proof fn lemma_apply_all(fs: Schema, b: Rel, s: SyncSchema, u: Rel)
    requires table_ok(fs, b), fits_norm(s, u), told(s, u), keys_there(fs, s)
    ensures places(s),
        forall|f: Rel, n: Seqc| #[trigger] marked(b, f) && #[trigger] hasc(shape(s), ColumnRole::NewPk, n) ==> found(f.cols, None, n),
        forall|x: Expr| (forall|e: Env| #[trigger] x.ev(e) == Val::Bool(true)) && uniq((#[trigger] with_col(b, low(), x)).cols) ==> marked(b, with_col(b, low(), x)),
        forall|j: Rel, x: Expr| (forall|e: Env| #[trigger] x.ev(e) == Val::Bool(e(None, UPSERT_COL_spec()) != Val::Bool(false))) ==> undeleted(j, #[trigger] filtered(j, x)),
        forall|f: Rel, l: Seq<Ref>, k: Seq<Ref>, i: Rel, p: Seq<Expr>| #[trigger] marked(b, f) && akeys(s, l, k) && uniq(full_join(f, u, l, k).cols) && #[trigger] undeleted(full_join(f, u, l, k), i) && #[trigger] aexprs(s, fs, p, fs.f@.len() as int) ==> applied(fs, b, s, u, projected(i, p)),
{
    assert forall|role: ColumnRole, n: Seqc, p: int| #[trigger] is_at(shape(s), role, n, p) implies p == pos(shape(s), role, n) by { let z = pos(shape(s), role, n); assert(is_at(shape(s), role, n, z)); assert(shape(s)[z] == shape(s)[p]); }
    assert forall|f: Rel, n: Seqc| #[trigger] marked(b, f) && #[trigger] hasc(shape(s), ColumnRole::NewPk, n) implies found(f.cols, None, n) by { lemma_akey(fs, b, f, s, u, n); }
    assert forall|f: Rel, l: Seq<Ref>, k: Seq<Ref>, i: Rel, p: Seq<Expr>| #[trigger] marked(b, f) && akeys(s, l, k) && uniq(full_join(f, u, l, k).cols) && #[trigger] undeleted(full_join(f, u, l, k), i) && #[trigger] aexprs(s, fs, p, fs.f@.len() as int) implies applied(fs, b, s, u, projected(i, p)) by { lemma_applied(fs, b, f, s, u, l, k, i, p); }
}
