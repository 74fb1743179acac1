// ---- from rows with an old and a new key to rows to put and to remove
impl DataFrame {
    #[verifier::external_body] pub fn filter(self, x: Expr) -> (r: core::result::Result<DataFrame, LibError>) ensures r matches Ok(d) ==> d.rel() == filtered(self.rel(), x) { unimplemented!() }
}
pub open spec fn filtered(r: Rel, x: Expr) -> Rel { Rel { cols: r.cols, ids: ISet::new(|id: Id| r.ids.contains(id) && x.ev(envof(r, id)) == Val::Bool(true)), at: r.at } }
#[verifier::external_body] pub struct UnnestOptions { p: u8 }
#[verifier::external_body] pub fn rx_default() -> UnnestOptions { unimplemented!() }
// one row for every element of the lists, which are all as long as each other
pub open spec fn lists(r: Rel, u: Seq<Ref>, id: Id, n: int) -> bool { n > 0 && forall|k: int| 0 <= k < r.cols.len() && u.contains(#[trigger] r.cols[k]) ==> ((r.at)(id, k) matches Val::List(l) && l.len() == n) }
pub open spec fn unnested(r: Rel, u: Seq<Ref>, x: Rel) -> bool {
    x.cols.len() == r.cols.len() && (forall|i: int| 0 <= i < r.cols.len() ==> (#[trigger] x.cols[i]).1 == r.cols[i].1)
    && (forall|id: Id, n: int, i: int| #[trigger] lists(r, u, id, n) ==> #[trigger] x.ids.contains(Id::Nth(Box::new(id), i)) == (r.ids.contains(id) && 0 <= i < n))
    && (forall|id: Id| #[trigger] x.ids.contains(id) ==> id is Nth && r.ids.contains(*id->Nth_0))
    && (forall|id: Id, i: int, k: int| 0 <= k < r.cols.len() ==> #[trigger] (x.at)(Id::Nth(Box::new(id), i), k) == (if u.contains(r.cols[k]) { (r.at)(id, k)->List_0[i] } else { (r.at)(id, k) }))
}
pub open spec fn renamed(r: Rel, q: Seqc) -> Rel { Rel { cols: r.cols.map_values(|c: Ref| (Some(q), c.1)), ids: r.ids, at: r.at } }
impl LogicalPlanBuilder {
    #[verifier::external_body] pub fn unnest_columns_with_options(self, c: Vec<Column>, o: UnnestOptions) -> (r: core::result::Result<LogicalPlanBuilder, LibError>)
        requires c@.len() > 0, forall|id: Id| #[trigger] self.plan.rel().ids.contains(id) ==> exists|n: int| lists(self.plan.rel(), crefs(c@), id, n)
        ensures r matches Ok(x) ==> unnested(self.plan.rel(), crefs(c@), x.plan.rel()) { unimplemented!() }
    #[verifier::external_body] pub fn alias(self, q: &str) -> (r: core::result::Result<LogicalPlanBuilder, LibError>) ensures r matches Ok(x) ==> x.plan.rel() == renamed(self.plan.rel(), parsed(q@).1) && uniq(x.plan.rel().cols) { unimplemented!() }
}
pub struct SchemaBuilder { pub f: Vec<FieldRef> }
impl SchemaBuilder {
    pub fn from(s: &Schema) -> (r: SchemaBuilder) ensures r.f@ == s.f@ { SchemaBuilder { f: rx_own(&s.f) } }
    pub fn remove(&mut self, i: usize) -> (r: FieldRef) requires i < old(self).f@.len() ensures final(self).f@ == old(self).f@.remove(i as int) { self.f.remove(i) }
    pub fn finish(self) -> (r: Schema) ensures r.f@ == self.f@ { Schema { f: self.f } }
}
pub fn rx_slice<'a, T>(v: &&'a Vec<T>) -> (r: &'a Vec<T>) ensures r == *v { *v }
pub fn rx_asref<'a>(s: &&'a Schema) -> (r: &'a Schema) ensures r == *s { *s }
impl DFSchemaRef { #[verifier::external_body] pub fn fields(&self) -> (r: &Fields) ensures r@.len() == self.cols().len() { unimplemented!() } }
// what a row says of its keys
pub open spec fn no_key(s: SyncSchema, c: Cells, role: ColumnRole) -> bool { forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::OldPk, n) ==> c(role, n) == Val::Null }
pub open spec fn all_key(s: SyncSchema, c: Cells, role: ColumnRole) -> bool { forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::OldPk, n) ==> c(role, n) != Val::Null }
pub open spec fn same_key(s: SyncSchema, c: Cells) -> bool { forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::OldPk, n) ==> c(ColumnRole::OldPk, n) == c(ColumnRole::NewPk, n) }
pub open spec fn whole(s: SyncSchema, c: Cells) -> bool { (no_key(s, c, ColumnRole::OldPk) || all_key(s, c, ColumnRole::OldPk)) && (no_key(s, c, ColumnRole::NewPk) || all_key(s, c, ColumnRole::NewPk)) }
pub open spec fn whole_keys(s: SyncSchema, r: Rel) -> bool { forall|id: Id| #[trigger] r.ids.contains(id) ==> whole(s, cells(s, r, id)) }
pub open spec fn nothing(s: SyncSchema, c: Cells) -> bool { no_key(s, c, ColumnRole::OldPk) && no_key(s, c, ColumnRole::NewPk) }
pub open spec fn moved(s: SyncSchema, c: Cells) -> bool { !no_key(s, c, ColumnRole::OldPk) && !no_key(s, c, ColumnRole::NewPk) && !same_key(s, c) }
// a row is put, or removed; one that changes its key is first removed
pub open spec fn puts(s: SyncSchema, c: Cells, i: int) -> bool { if moved(s, c) { i == 1 } else { !no_key(s, c, ColumnRole::NewPk) } }
pub open spec fn fits_norm(s: SyncSchema, r: Rel) -> bool {
    index_ok(s) && distinct_cols(shape(s)) && uniq(r.cols) && r.cols.len() == s.columns@.len() + 1 && (forall|i: int| 0 <= i < s.columns@.len() ==> #[trigger] r.cols[i] == (Some(upp()), s.columns@[i].field.fname())) && r.cols[s.columns@.len() as int] == (Some(upp()), UPSERT_COL_spec())
}
pub open spec fn norm_cols(s: SyncSchema, s2: SyncSchema) -> bool { forall|role: ColumnRole, n: Seqc| #[trigger] hasc(shape(s2), role, n) == (role != ColumnRole::OldPk && hasc(shape(s), if role == ColumnRole::NewPk { ColumnRole::OldPk } else { role }, n)) }
pub open spec fn norm_ids(s: SyncSchema, r: Rel, r2: Rel) -> bool {
    (forall|id: Id, i: int| #[trigger] r2.ids.contains(Id::Nth(Box::new(id), i)) == (r.ids.contains(id) && !nothing(s, cells(s, r, id)) && 0 <= i < (if moved(s, cells(s, r, id)) { 2int } else { 1int })))
    && forall|id: Id| #[trigger] r2.ids.contains(id) ==> id is Nth
}
pub open spec fn norm_rows(s: SyncSchema, r: Rel, s2: SyncSchema, r2: Rel) -> bool {
    (forall|id: Id, i: int| #[trigger] r2.ids.contains(Id::Nth(Box::new(id), i)) ==> (r2.at)(Id::Nth(Box::new(id), i), s2.columns@.len() as int) == Val::Bool(puts(s, cells(s, r, id), i)))
    && (forall|id: Id, i: int, role: ColumnRole, n: Seqc| r2.ids.contains(Id::Nth(Box::new(id), i)) && #[trigger] hasc(shape(s2), role, n) ==> #[trigger] cells(s2, r2, Id::Nth(Box::new(id), i))(role, n) == (if role != ColumnRole::NewPk || puts(s, cells(s, r, id), i) { cells(s, r, id)(role, n) } else { cells(s, r, id)(ColumnRole::OldPk, n) }))
}
pub open spec fn normalized(s: SyncSchema, r: Rel, s2: SyncSchema, r2: Rel) -> bool { fits_norm(s2, r2) && norm_cols(s, s2) && norm_ids(s, r, r2) && norm_rows(s, r, s2, r2) }
// the expressions for the key columns
pub open spec fn okey(s: SyncSchema, n: Seqc, e: Env) -> Val { e(None, s.columns@[pos(shape(s), ColumnRole::OldPk, n)].field.fname()) }
pub open spec fn nkey(s: SyncSchema, n: Seqc, e: Env) -> Val { e(None, s.columns@[pos(shape(s), ColumnRole::NewPk, n)].field.fname()) }
pub open spec fn pk_pair(s: SyncSchema, n: Seqc, x: (Expr, Expr)) -> bool { hasc(shape(s), ColumnRole::OldPk, n) && (forall|e: Env| #[trigger] x.0.ev(e) == okey(s, n, e)) && forall|e: Env| #[trigger] x.1.ev(e) == nkey(s, n, e) }
pub open spec fn is_pair(s: SyncSchema, x: (Expr, Expr)) -> bool { exists|n: Seqc| #[trigger] pk_pair(s, n, x) }
pub open spec fn pk_pairs(s: SyncSchema, v: Seq<(Expr, Expr)>) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> is_pair(s, #[trigger] v[i])) && (forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::OldPk, n) ==> exists|i: int| 0 <= i < v.len() && pk_pair(s, n, #[trigger] v[i]))
}
pub open spec fn conj(v: Seq<(Expr, Expr)>, e: Env, k: int) -> Val decreases k { if k <= 1 { eq3(v[0].0.ev(e), v[0].1.ev(e)) } else { and3(conj(v, e, k - 1), eq3(v[k - 1].0.ev(e), v[k - 1].1.ev(e))) } }
pub proof fn lemma_conj(v: Seq<(Expr, Expr)>, e: Env, k: int) requires 0 < k <= v.len(), forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).0.ev(e) != Val::Null && v[i].1.ev(e) != Val::Null
    ensures conj(v, e, k) == Val::Bool(forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).0.ev(e) == v[i].1.ev(e)) decreases k
{ if k > 1 { lemma_conj(v, e, k - 1); if conj(v, e, k) == Val::Bool(true) { assert forall|i: int| 0 <= i < k implies (#[trigger] v[i]).0.ev(e) == v[i].1.ev(e) by {} } else { if conj(v, e, k - 1) == Val::Bool(true) { assert(v[k - 1].0.ev(e) != v[k - 1].1.ev(e)); } } } else { assert(v[0].0.ev(e) != Val::Null); } }
pub open spec fn choice<T>(i: Val, p: Val, c: Val, x: T, y: T, z: T) -> T { if i == Val::Bool(true) || p == Val::Bool(true) { x } else if c == Val::Bool(true) { y } else { z } }
pub open spec fn one_of(a: Val) -> Val { Val::List(seq![a]) }
pub open spec fn two_of(a: Val, b: Val) -> Val { Val::List(seq![a, b]) }
// where each column of the result comes from
pub open spec fn came(s: SyncSchema, i: int, d: ColumnDescriptor) -> bool { 0 <= i < s.columns@.len() && s.columns@[i].role != ColumnRole::NewPk && d.name@ == s.columns@[i].name@ && d.role == (if s.columns@[i].role == ColumnRole::OldPk { 1i32 } else { rolei(s.columns@[i].role) }) }
pub open spec fn nproj(s: SyncSchema, i: int, x: Expr, ins: Expr, pre: Expr, chg: Expr) -> bool {
    let c = s.columns@[i];
    if c.role == ColumnRole::OldPk { x.nm() == (Some(upp()), canonical(ColumnRole::NewPk, c.name@)) && forall|e: Env| #[trigger] x.ev(e) == choice(ins.ev(e), pre.ev(e), chg.ev(e), one_of(nkey(s, c.name@, e)), two_of(okey(s, c.name@, e), nkey(s, c.name@, e)), one_of(okey(s, c.name@, e))) }
    else { x.nm() == (Some(upp()), canonical(c.role, c.name@)) && forall|e: Env| #[trigger] x.ev(e) == e(None, c.field.fname()) }
}
pub open spec fn nlast(x: Expr, ins: Expr, pre: Expr, chg: Expr) -> bool {
    x.nm() == (None::<Seqc>, UPSERT_COL_spec()) && forall|e: Env| #[trigger] x.ev(e) == choice(ins.ev(e), pre.ev(e), chg.ev(e), one_of(Val::Bool(true)), two_of(Val::Bool(false), Val::Bool(true)), one_of(Val::Bool(false)))
}
// the columns considered so far
pub open spec fn key_col(s: SyncSchema, src: Seq<int>, p: Seq<Expr>, c: Column) -> bool { exists|i: int| 0 <= i < src.len() && s.columns@[#[trigger] src[i]].role == ColumnRole::OldPk && p[i].nm() == c@ }
pub open spec fn nsofar(s: SyncSchema, k: int, src: Seq<int>, p: Seq<Expr>, d: Descs, u: Seq<Column>, ins: Expr, pre: Expr, chg: Expr) -> bool {
    src.len() == p.len() && src.len() == d.len()
    && (forall|i: int| 0 <= i < src.len() ==> 0 <= #[trigger] src[i] < k && came(s, src[i], d[i]) && nproj(s, src[i], p[i], ins, pre, chg))
    && (forall|i: int, j: int| 0 <= i < j < src.len() ==> #[trigger] src[i] < #[trigger] src[j])
    && (forall|i: int| 0 <= i < k && (#[trigger] s.columns@[i]).role != ColumnRole::NewPk ==> src.contains(i))
    && (forall|i: int| 0 <= i < src.len() && s.columns@[#[trigger] src[i]].role == ColumnRole::OldPk ==> crefs(u).contains(p[i].nm()))
    && (forall|j: int| 0 <= j < u.len() ==> key_col(s, src, p, #[trigger] u[j]))
}
pub open spec fn kinds(s: SyncSchema, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>) -> bool {
    v.len() > 0 && pk_pairs(s, v) && forall|e: Env| {
        let o = v[0].0.ev(e); let w = v[0].1.ev(e); let sm = conj(v, e, v.len() as int);
        &&& #[trigger] ins.ev(e) == and3(Val::Bool(o == Val::Null), Val::Bool(w != Val::Null))
        &&& #[trigger] pre.ev(e) == and3(and3(Val::Bool(o != Val::Null), Val::Bool(w != Val::Null)), sm)
        &&& #[trigger] chg.ev(e) == and3(and3(Val::Bool(o != Val::Null), Val::Bool(w != Val::Null)), not3(sm))
    }
}
pub open spec fn has_key(v: Seq<(Expr, Expr)>, e: Env) -> Val { not3(and3(Val::Bool(v[0].0.ev(e) == Val::Null), Val::Bool(v[0].1.ev(e) == Val::Null))) }
pub open spec fn keyed(r: Rel, v: Seq<(Expr, Expr)>, f: Rel) -> bool { f.cols == r.cols && f.at == r.at && forall|id: Id| #[trigger] f.ids.contains(id) == (r.ids.contains(id) && has_key(v, envof(r, id)) == Val::Bool(true)) }
pub proof fn lemma_keys(s: SyncSchema, f: Rel, id: Id)
    requires fits(s, f, low())
    ensures forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::OldPk, n) ==> okey(s, n, envof(f, id)) == cells(s, f, id)(ColumnRole::OldPk, n) && nkey(s, n, envof(f, id)) == cells(s, f, id)(ColumnRole::NewPk, n)
{
    lemma_alone(s, f, low()); assert(alone(envof(f, id), s, cells(s, f, id)));
    assert forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::OldPk, n) implies okey(s, n, envof(f, id)) == cells(s, f, id)(ColumnRole::OldPk, n) && nkey(s, n, envof(f, id)) == cells(s, f, id)(ColumnRole::NewPk, n) by {
        let p = pos(shape(s), ColumnRole::OldPk, n); assert(is_at(shape(s), ColumnRole::OldPk, n, p)); assert(shape(s)[p].role == ColumnRole::OldPk);
        assert(hasc(shape(s), ColumnRole::NewPk, n)); let q = pos(shape(s), ColumnRole::NewPk, n); assert(is_at(shape(s), ColumnRole::NewPk, n, q));
        assert(envof(f, id)(None, s.columns@[p].field.fname()) == cells(s, f, id)(s.columns@[p].role, s.columns@[p].name@));
        assert(envof(f, id)(None, s.columns@[q].field.fname()) == cells(s, f, id)(s.columns@[q].role, s.columns@[q].name@));
    }
}
// what the first pair of keys says of all of them
pub proof fn lemma_first(s: SyncSchema, f: Rel, id: Id, v: Seq<(Expr, Expr)>)
    requires fits(s, f, low()), v.len() > 0, pk_pairs(s, v), whole(s, cells(s, f, id))
    ensures (v[0].0.ev(envof(f, id)) == Val::Null) == no_key(s, cells(s, f, id), ColumnRole::OldPk), (v[0].1.ev(envof(f, id)) == Val::Null) == no_key(s, cells(s, f, id), ColumnRole::NewPk),
        !no_key(s, cells(s, f, id), ColumnRole::OldPk) ==> all_key(s, cells(s, f, id), ColumnRole::OldPk), !no_key(s, cells(s, f, id), ColumnRole::NewPk) ==> all_key(s, cells(s, f, id), ColumnRole::NewPk),
{
    let e = envof(f, id); let c = cells(s, f, id);
    lemma_keys(s, f, id);
    let n = choose|n: Seqc| #[trigger] pk_pair(s, n, v[0]); assert(is_pair(s, v[0])); assert(pk_pair(s, n, v[0])); assert(hasc(shape(s), ColumnRole::OldPk, n));
    assert(v[0].0.ev(e) == c(ColumnRole::OldPk, n)); assert(v[0].1.ev(e) == c(ColumnRole::NewPk, n));
}
pub proof fn lemma_pair(s: SyncSchema, f: Rel, id: Id, v: Seq<(Expr, Expr)>, i: int)
    requires fits(s, f, low()), pk_pairs(s, v), 0 <= i < v.len(), all_key(s, cells(s, f, id), ColumnRole::OldPk), all_key(s, cells(s, f, id), ColumnRole::NewPk)
    ensures v[i].0.ev(envof(f, id)) != Val::Null, v[i].1.ev(envof(f, id)) != Val::Null, same_key(s, cells(s, f, id)) ==> v[i].0.ev(envof(f, id)) == v[i].1.ev(envof(f, id)),
{
    let e = envof(f, id); let c = cells(s, f, id);
    lemma_keys(s, f, id);
    let n = choose|n: Seqc| #[trigger] pk_pair(s, n, v[i]); assert(is_pair(s, v[i])); assert(pk_pair(s, n, v[i])); assert(hasc(shape(s), ColumnRole::OldPk, n));
    assert(v[i].0.ev(e) == c(ColumnRole::OldPk, n)); assert(v[i].1.ev(e) == c(ColumnRole::NewPk, n));
}
pub proof fn lemma_same(s: SyncSchema, f: Rel, id: Id, v: Seq<(Expr, Expr)>)
    requires fits(s, f, low()), v.len() > 0, pk_pairs(s, v), all_key(s, cells(s, f, id), ColumnRole::OldPk), all_key(s, cells(s, f, id), ColumnRole::NewPk)
    ensures conj(v, envof(f, id), v.len() as int) == Val::Bool(same_key(s, cells(s, f, id)))
{
    let e = envof(f, id); let c = cells(s, f, id); let len = v.len() as int;
    assert forall|i: int| 0 <= i < len implies (#[trigger] v[i]).0.ev(e) != Val::Null && v[i].1.ev(e) != Val::Null && (same_key(s, c) ==> v[i].0.ev(e) == v[i].1.ev(e)) by { lemma_pair(s, f, id, v, i); }
    lemma_conj(v, e, len);
    if forall|i: int| 0 <= i < len ==> (#[trigger] v[i]).0.ev(e) == v[i].1.ev(e) {
        lemma_keys(s, f, id);
        assert forall|m: Seqc| #[trigger] hasc(shape(s), ColumnRole::OldPk, m) implies c(ColumnRole::OldPk, m) == c(ColumnRole::NewPk, m) by { let i = choose|i: int| 0 <= i < len && pk_pair(s, m, #[trigger] v[i]); assert(v[i].0.ev(e) == v[i].1.ev(e)); assert(v[i].0.ev(e) == okey(s, m, e)); assert(v[i].1.ev(e) == nkey(s, m, e)); }
    }
}
pub proof fn lemma_kind(s: SyncSchema, f: Rel, id: Id, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>)
    requires fits(s, f, low()), kinds(s, ins, pre, chg, v), whole(s, cells(s, f, id))
    ensures
        (has_key(v, envof(f, id)) == Val::Bool(true)) == !nothing(s, cells(s, f, id)),
        !nothing(s, cells(s, f, id)) ==> (ins.ev(envof(f, id)) == Val::Bool(true) || pre.ev(envof(f, id)) == Val::Bool(true)) == (!moved(s, cells(s, f, id)) && !no_key(s, cells(s, f, id), ColumnRole::NewPk)) && (chg.ev(envof(f, id)) == Val::Bool(true)) == moved(s, cells(s, f, id)),
{
    hide(fits); hide(pk_pairs); hide(same_key); hide(no_key); hide(all_key);
    let e = envof(f, id); let c = cells(s, f, id); let o = v[0].0.ev(e); let w = v[0].1.ev(e); let len = v.len() as int; let sm = conj(v, e, len);
    assert(ins.ev(e) == and3(Val::Bool(o == Val::Null), Val::Bool(w != Val::Null)));
    assert(pre.ev(e) == and3(and3(Val::Bool(o != Val::Null), Val::Bool(w != Val::Null)), sm));
    assert(chg.ev(e) == and3(and3(Val::Bool(o != Val::Null), Val::Bool(w != Val::Null)), not3(sm)));
    lemma_first(s, f, id, v);
    if o != Val::Null && w != Val::Null { lemma_same(s, f, id, v); }
    else if o == Val::Null && w == Val::Null { }
    else if o == Val::Null { assert(ins.ev(e) == Val::Bool(true)); }
    else { assert(pre.ev(e) == and3(Val::Bool(false), sm)); }
}
pub open spec fn planned(s: SyncSchema, p: Seq<Expr>, u: Seq<Column>, d: Descs, src: Seq<int>, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>) -> bool {
    p.len() > 0 && u.len() > 0 && kinds(s, ins, pre, chg, v) && nlast(p.last(), ins, pre, chg) && u.last()@ == (None::<Seqc>, UPSERT_COL_spec()) && nsofar(s, s.columns@.len() as int, src, p.drop_last(), d, u.drop_last(), ins, pre, chg)
}
pub open spec fn parts(s: SyncSchema, r: Rel, id: Id) -> int { if moved(s, cells(s, r, id)) { 2 } else { 1 } }
// the columns that are unnested: the keys and the flag
pub proof fn lemma_unnest_cols(s: SyncSchema, r: Rel, p: Seq<Expr>, u: Seq<Column>, d: Descs, src: Seq<int>, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>)
    requires planned(s, p, u, d, src, ins, pre, chg, v), uniq(projected(r, p).cols)
    ensures forall|k: int| 0 <= k < p.len() ==> crefs(u).contains((#[trigger] p[k]).nm()) == (k == p.len() - 1 || s.columns@[src[k]].role == ColumnRole::OldPk)
{
    hide(kinds); hide(nproj); hide(came);
    let cols = projected(r, p).cols; let m = p.len() - 1;
    assert forall|k: int| 0 <= k < p.len() implies crefs(u).contains((#[trigger] p[k]).nm()) == (k == m || s.columns@[src[k]].role == ColumnRole::OldPk) by {
        assert(cols[k] == p[k].nm());
        if k == m { assert(crefs(u)[u.len() - 1] == p[k].nm()); }
        else { assert(p.drop_last()[k] == p[k]); assert(0 <= src[k] < s.columns@.len()); lemma_unnest_col(s, cols, p, u, src, k); }
    }
}
pub proof fn lemma_unnest_col(s: SyncSchema, cols: Seq<Ref>, p: Seq<Expr>, u: Seq<Column>, src: Seq<int>, k: int)
    requires 0 <= k < p.len() - 1, u.len() > 0, uniq(cols), cols.len() == p.len(), src.len() == p.len() - 1, u.last()@ == p.last().nm(), forall|i: int| 0 <= i < p.len() ==> #[trigger] cols[i] == p[i].nm(),
        s.columns@[src[k]].role == ColumnRole::OldPk ==> crefs(u.drop_last()).contains(p[k].nm()),
        forall|j: int| 0 <= j < u.len() - 1 ==> key_col(s, src, p.drop_last(), #[trigger] u.drop_last()[j]),
    ensures crefs(u).contains(p[k].nm()) == (s.columns@[src[k]].role == ColumnRole::OldPk)
{
    assert(cols[k] == p[k].nm());
    if s.columns@[src[k]].role == ColumnRole::OldPk { let j = choose|j: int| 0 <= j < u.len() - 1 && crefs(u.drop_last())[j] == p[k].nm(); assert(u.drop_last()[j] == u[j]); assert(crefs(u)[j] == p[k].nm()); }
    if crefs(u).contains(p[k].nm()) {
        let j = choose|j: int| 0 <= j < u.len() && crefs(u)[j] == p[k].nm();
        if j < u.len() - 1 { assert(u.drop_last()[j] == u[j]); assert(key_col(s, src, p.drop_last(), u.drop_last()[j])); let i = choose|i: int| 0 <= i < src.len() && s.columns@[#[trigger] src[i]].role == ColumnRole::OldPk && p.drop_last()[i].nm() == u.drop_last()[j]@; assert(cols[i] == p[i].nm()); assert(cols[i] == cols[k]); assert(i == k); }
        else { assert(cols[p.len() - 1] == p.last().nm()); assert(cols[p.len() - 1] == cols[k]); }
    }
}
// a row of the projection
pub open spec fn keyl(s: SyncSchema, c: Cells, n: Seqc) -> Val { if moved(s, c) { two_of(c(ColumnRole::OldPk, n), c(ColumnRole::NewPk, n)) } else if !no_key(s, c, ColumnRole::NewPk) { one_of(c(ColumnRole::NewPk, n)) } else { one_of(c(ColumnRole::OldPk, n)) } }
pub open spec fn flagl(s: SyncSchema, c: Cells) -> Val { if moved(s, c) { two_of(Val::Bool(false), Val::Bool(true)) } else { one_of(Val::Bool(!no_key(s, c, ColumnRole::NewPk))) } }
pub open spec fn cellof(s: SyncSchema, c: Cells, i: int) -> Val { let d = s.columns@[i]; if d.role == ColumnRole::OldPk { keyl(s, c, d.name@) } else { c(d.role, d.name@) } }
pub proof fn lemma_cell(s: SyncSchema, r: Rel, id: Id, i: int)
    requires fits(s, r, low()), 0 <= i < s.columns@.len()
    ensures envof(r, id)(None, s.columns@[i].field.fname()) == cells(s, r, id)(s.columns@[i].role, s.columns@[i].name@), hasc(shape(s), s.columns@[i].role, s.columns@[i].name@),
        s.columns@[i].role == ColumnRole::OldPk ==> okey(s, s.columns@[i].name@, envof(r, id)) == cells(s, r, id)(ColumnRole::OldPk, s.columns@[i].name@) && nkey(s, s.columns@[i].name@, envof(r, id)) == cells(s, r, id)(ColumnRole::NewPk, s.columns@[i].name@),
{
    lemma_alone(s, r, low()); assert(alone(envof(r, id), s, cells(s, r, id))); lemma_keys(s, r, id); lemma_place(s, i); assert(colv(s.columns@[i]) == shape(s)[i]);
    assert(is_at(shape(s), s.columns@[i].role, s.columns@[i].name@, i));
}
pub proof fn lemma_row(s: SyncSchema, r: Rel, f: Rel, p: Seq<Expr>, u: Seq<Column>, d: Descs, src: Seq<int>, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>, id: Id)
    requires fits(s, r, low()), keyed(r, v, f), planned(s, p, u, d, src, ins, pre, chg, v), whole(s, cells(s, r, id))
    ensures
        f.ids.contains(id) == (r.ids.contains(id) && !nothing(s, cells(s, r, id))),
        !nothing(s, cells(s, r, id)) ==> (projected(f, p).at)(id, p.len() - 1) == flagl(s, cells(s, r, id)),
        !nothing(s, cells(s, r, id)) ==> forall|k: int| 0 <= k < p.len() - 1 ==> #[trigger] (projected(f, p).at)(id, k) == cellof(s, cells(s, r, id), src[k]),
{
    hide(fits); hide(whole); hide(kinds); hide(no_key); hide(same_key);
    let e = envof(r, id); let c = cells(s, r, id);
    assert(envof(f, id) =~= e);
    lemma_kind(s, r, id, ins, pre, chg, v);
    if !nothing(s, c) {
        assert((projected(f, p).at)(id, p.len() - 1) == p.last().ev(e));
        assert forall|k: int| 0 <= k < p.len() - 1 implies #[trigger] (projected(f, p).at)(id, k) == cellof(s, c, src[k]) by {
            assert((projected(f, p).at)(id, k) == p[k].ev(e)); assert(p.drop_last()[k] == p[k]); assert(0 <= src[k] < s.columns@.len()); assert(nproj(s, src[k], p[k], ins, pre, chg));
            lemma_cell(s, r, id, src[k]);
        }
    }
}
pub proof fn lemma_lists(s: SyncSchema, r: Rel, f: Rel, p: Seq<Expr>, u: Seq<Column>, d: Descs, src: Seq<int>, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>)
    requires fits(s, r, low()), whole_keys(s, r), keyed(r, v, f), planned(s, p, u, d, src, ins, pre, chg, v), uniq(projected(f, p).cols)
    ensures forall|id: Id| #[trigger] projected(f, p).ids.contains(id) ==> lists(projected(f, p), crefs(u), id, parts(s, r, id))
{
    hide(fits); hide(whole); hide(kinds); hide(no_key); hide(same_key); hide(nsofar);
    let q = projected(f, p);
    lemma_unnest_cols(s, f, p, u, d, src, ins, pre, chg, v);
    assert forall|id: Id| #[trigger] q.ids.contains(id) implies lists(q, crefs(u), id, parts(s, r, id)) by {
        assert(r.ids.contains(id)); lemma_row(s, r, f, p, u, d, src, ins, pre, chg, v, id);
        assert forall|k: int| 0 <= k < q.cols.len() && crefs(u).contains(#[trigger] q.cols[k]) implies ((q.at)(id, k) matches Val::List(l) && l.len() == parts(s, r, id)) by {
            assert(q.cols[k] == p[k].nm()); if k < p.len() - 1 { assert((q.at)(id, k) == cellof(s, cells(s, r, id), src[k])); }
        }
    }
}
// where the columns of the result come from
pub open spec fn arrived(s: SyncSchema, src: Seq<int>, s2: SyncSchema) -> bool {
    src.len() == s2.columns@.len() && (forall|i: int| 0 <= i < src.len() ==> 0 <= #[trigger] src[i] < s.columns@.len() && s.columns@[src[i]].role != ColumnRole::NewPk && s2.columns@[i].name@ == s.columns@[src[i]].name@ && s2.columns@[i].role == (if s.columns@[src[i]].role == ColumnRole::OldPk { ColumnRole::NewPk } else { s.columns@[src[i]].role }))
    && (forall|i: int, j: int| 0 <= i < j < src.len() ==> #[trigger] src[i] < #[trigger] src[j])
    && (forall|i: int| 0 <= i < s.columns@.len() && (#[trigger] s.columns@[i]).role != ColumnRole::NewPk ==> src.contains(i))
}
pub proof fn lemma_arrived(s: SyncSchema, src: Seq<int>, s2: SyncSchema)
    requires arrived(s, src, s2), distinct_cols(shape(s))
    ensures distinct_cols(shape(s2)), norm_cols(s, s2), forall|k: int| 0 <= k < src.len() ==> pos(shape(s2), (#[trigger] s2.columns@[k]).role, s2.columns@[k].name@) == k,
{
    assert forall|i: int, j: int| 0 <= i < shape(s2).len() && 0 <= j < shape(s2).len() && i != j implies #[trigger] shape(s2)[i] != #[trigger] shape(s2)[j] by {
        assert(src[i] != src[j]); assert(shape(s)[src[i]] != shape(s)[src[j]]); assert(shape(s2)[i] == colv(s2.columns@[i])); assert(shape(s2)[j] == colv(s2.columns@[j])); assert(shape(s)[src[i]] == colv(s.columns@[src[i]])); assert(shape(s)[src[j]] == colv(s.columns@[src[j]]));
    }
    assert forall|role: ColumnRole, n: Seqc| #[trigger] hasc(shape(s2), role, n) == (role != ColumnRole::OldPk && hasc(shape(s), if role == ColumnRole::NewPk { ColumnRole::OldPk } else { role }, n)) by {
        let z = if role == ColumnRole::NewPk { ColumnRole::OldPk } else { role };
        if hasc(shape(s2), role, n) { let k = choose|k: int| is_at(shape(s2), role, n, k); assert(shape(s2)[k] == colv(s2.columns@[k])); assert(0 <= src[k] < s.columns@.len()); assert(shape(s)[src[k]] == colv(s.columns@[src[k]])); assert(is_at(shape(s), z, n, src[k])); }
        if role != ColumnRole::OldPk && hasc(shape(s), z, n) { let i = choose|i: int| is_at(shape(s), z, n, i); assert(shape(s)[i] == colv(s.columns@[i])); assert(s.columns@[i].role == z); assert(src.contains(i)); let k = choose|k: int| 0 <= k < src.len() && src[k] == i; assert(0 <= src[k]); assert(shape(s2)[k] == colv(s2.columns@[k])); assert(is_at(shape(s2), role, n, k)); }
    }
    assert forall|k: int| 0 <= k < src.len() implies pos(shape(s2), (#[trigger] s2.columns@[k]).role, s2.columns@[k].name@) == k by {
        let role = s2.columns@[k].role; let n = s2.columns@[k].name@; assert(shape(s2)[k] == colv(s2.columns@[k])); assert(is_at(shape(s2), role, n, k)); let z = pos(shape(s2), role, n); assert(is_at(shape(s2), role, n, z)); assert(shape(s2)[z] == shape(s2)[k]);
    }
}
pub proof fn lemma_norm_rows(s: SyncSchema, r: Rel, f: Rel, p: Seq<Expr>, u: Seq<Column>, d: Descs, src: Seq<int>, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>, y: Rel, s2: SyncSchema)
    requires fits(s, r, low()), whole_keys(s, r), keyed(r, v, f), planned(s, p, u, d, src, ins, pre, chg, v), uniq(projected(f, p).cols),
        unnested(projected(f, p), crefs(u), y), arrived(s, src, s2), distinct_cols(shape(s)), p.len() == src.len() + 1
    ensures norm_ids(s, r, renamed(y, upp())), norm_rows(s, r, s2, renamed(y, upp()))
{
    hide(fits); hide(whole); hide(kinds); hide(no_key); hide(same_key); hide(nsofar);
    let q = projected(f, p); let a = renamed(y, upp()); let m = p.len() - 1;
    lemma_lists(s, r, f, p, u, d, src, ins, pre, chg, v); lemma_unnest_cols(s, f, p, u, d, src, ins, pre, chg, v); lemma_arrived(s, src, s2);
    assert forall|id: Id, i: int| #[trigger] a.ids.contains(Id::Nth(Box::new(id), i)) == (r.ids.contains(id) && !nothing(s, cells(s, r, id)) && 0 <= i < parts(s, r, id)) by {
        let w = Id::Nth(Box::new(id), i);
        if r.ids.contains(id) { lemma_row(s, r, f, p, u, d, src, ins, pre, chg, v, id); }
        if q.ids.contains(id) { assert(lists(q, crefs(u), id, parts(s, r, id))); assert(y.ids.contains(w) == (q.ids.contains(id) && 0 <= i < parts(s, r, id))); }
        if a.ids.contains(w) { assert(y.ids.contains(w)); assert(q.ids.contains(id)); }
    }
    assert forall|id: Id, i: int| #[trigger] a.ids.contains(Id::Nth(Box::new(id), i)) implies (a.at)(Id::Nth(Box::new(id), i), s2.columns@.len() as int) == Val::Bool(puts(s, cells(s, r, id), i)) by {
        lemma_row(s, r, f, p, u, d, src, ins, pre, chg, v, id); assert(q.cols[m] == p[m].nm());
        assert((y.at)(Id::Nth(Box::new(id), i), m) == (q.at)(id, m)->List_0[i]);
    }
    assert forall|id: Id, i: int, role: ColumnRole, n: Seqc| a.ids.contains(Id::Nth(Box::new(id), i)) && #[trigger] hasc(shape(s2), role, n) implies #[trigger] cells(s2, a, Id::Nth(Box::new(id), i))(role, n) == (if role != ColumnRole::NewPk || puts(s, cells(s, r, id), i) { cells(s, r, id)(role, n) } else { cells(s, r, id)(ColumnRole::OldPk, n) }) by {
        lemma_row(s, r, f, p, u, d, src, ins, pre, chg, v, id);
        let k = pos(shape(s2), role, n); assert(is_at(shape(s2), role, n, k)); assert(shape(s2)[k] == colv(s2.columns@[k])); assert(0 <= src[k] < s.columns@.len());
        assert(q.cols[k] == p[k].nm()); assert((q.at)(id, k) == cellof(s, cells(s, r, id), src[k]));
        assert((y.at)(Id::Nth(Box::new(id), i), k) == (if crefs(u).contains(q.cols[k]) { (q.at)(id, k)->List_0[i] } else { (q.at)(id, k) }));
        assert(cells(s2, a, Id::Nth(Box::new(id), i))(role, n) == (y.at)(Id::Nth(Box::new(id), i), k));
    }
}
pub proof fn lemma_normalized(s: SyncSchema, r: Rel, f: Rel, p: Seq<Expr>, u: Seq<Column>, d: Descs, src: Seq<int>, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>, y: Rel, t: Schema, s2: SyncSchema)
    requires fits(s, r, low()), whole_keys(s, r), keyed(r, v, f), planned(s, p, u, d, src, ins, pre, chg, v), uniq(projected(f, p).cols),
        unnested(projected(f, p), crefs(u), y), uniq(renamed(y, upp()).cols), described(s2, d, t), index_ok(s2), t.f@.len() == d.len(), forall|i: int| 0 <= i < d.len() ==> (#[trigger] t.f@[i]).fname() == y.cols[i].1
    ensures normalized(s, r, s2, renamed(y, upp()))
{
    hide(whole); hide(whole_keys); hide(kinds); hide(no_key); hide(same_key); hide(unnested); hide(norm_cols); hide(norm_ids); hide(norm_rows);
    let q = projected(f, p); let a = renamed(y, upp()); let m = d.len() as int;
    assert(s2.columns@.len() == m); assert(y.cols.len() == p.len()) by { reveal(unnested); }
    assert forall|i: int| 0 <= i < m implies s2.columns@[i].field.fname() == #[trigger] a.cols[i].1 && 0 <= src[i] < s.columns@.len() && s.columns@[src[i]].role != ColumnRole::NewPk && s2.columns@[i].name@ == s.columns@[src[i]].name@ && s2.columns@[i].role == (if s.columns@[src[i]].role == ColumnRole::OldPk { ColumnRole::NewPk } else { s.columns@[src[i]].role }) by {
        assert(as_described(s2.columns@[i], d[i], t.f@[i])); assert(0 <= src[i] < s.columns@.len()); assert(came(s, src[i], d[i])); lemma_rolei(s.columns@[src[i]].role); lemma_rolei(ColumnRole::NewPk); assert(t.f@[i].fname() == y.cols[i].1);
    }
    assert(arrived(s, src, s2)) by { assert forall|i: int| 0 <= i < src.len() implies 0 <= #[trigger] src[i] < s.columns@.len() && s.columns@[src[i]].role != ColumnRole::NewPk && s2.columns@[i].name@ == s.columns@[src[i]].name@ && s2.columns@[i].role == (if s.columns@[src[i]].role == ColumnRole::OldPk { ColumnRole::NewPk } else { s.columns@[src[i]].role }) by { let _ = a.cols[i]; } }
    lemma_arrived(s, src, s2);
    lemma_norm_rows(s, r, f, p, u, d, src, ins, pre, chg, v, y, s2);
    assert(y.cols[m].1 == q.cols[m].1) by { reveal(unnested); } assert(p[m] == p.last());
}
#[verifier::rlimit(40)]
pub proof fn lemma_nstep(s: SyncSchema, k: int, src: Seq<int>, p: Seq<Expr>, d: Descs, u: Seq<Column>, ins: Expr, pre: Expr, chg: Expr, p2: Seq<Expr>, d2: Descs, u2: Seq<Column>)
    requires nsofar(s, k, src, p, d, u, ins, pre, chg), 0 <= k < s.columns@.len(),
        s.columns@[k].role == ColumnRole::NewPk ==> p2 == p && d2 == d && u2 == u,
        s.columns@[k].role != ColumnRole::NewPk ==> p2.len() > 0 && d2.len() > 0 && p2 == p.push(p2.last()) && d2 == d.push(d2.last()) && came(s, k, d2.last()) && nproj(s, k, p2.last(), ins, pre, chg),
        s.columns@[k].role == ColumnRole::OldPk ==> u2.len() > 0 && u2 == u.push(u2.last()) && u2.last()@ == p2.last().nm(),
        s.columns@[k].role != ColumnRole::NewPk && s.columns@[k].role != ColumnRole::OldPk ==> u2 == u,
    ensures nsofar(s, k + 1, if s.columns@[k].role == ColumnRole::NewPk { src } else { src.push(k) }, p2, d2, u2, ins, pre, chg)
{
    let role = s.columns@[k].role; let src2 = if role == ColumnRole::NewPk { src } else { src.push(k) };
    if role != ColumnRole::NewPk {
        assert forall|i: int| 0 <= i < src2.len() implies 0 <= #[trigger] src2[i] < k + 1 && came(s, src2[i], d2[i]) && nproj(s, src2[i], p2[i], ins, pre, chg) by { if i < src.len() { assert(src2[i] == src[i]); assert(p2[i] == p[i]); assert(d2[i] == d[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < src2.len() implies #[trigger] src2[i] < #[trigger] src2[j] by { assert(src2[i] == src[i]); if j < src.len() { assert(src2[j] == src[j]); } }
        assert forall|i: int| 0 <= i < k + 1 && (#[trigger] s.columns@[i]).role != ColumnRole::NewPk implies src2.contains(i) by { if i < k { assert(src.contains(i)); let z = choose|z: int| 0 <= z < src.len() && src[z] == i; assert(src2[z] == i); } else { assert(src2[src.len() as int] == k); } }
        assert forall|i: int| 0 <= i < src2.len() && s.columns@[#[trigger] src2[i]].role == ColumnRole::OldPk implies crefs(u2).contains(p2[i].nm()) by {
            if i < src.len() { assert(src2[i] == src[i]); assert(p2[i] == p[i]); assert(crefs(u).contains(p[i].nm())); let j = choose|j: int| 0 <= j < u.len() && crefs(u)[j] == p[i].nm(); assert(crefs(u2)[j] == p[i].nm()); } else { assert(crefs(u2)[u.len() as int] == p2.last().nm()); }
        }
        assert forall|j: int| 0 <= j < u2.len() implies key_col(s, src2, p2, #[trigger] u2[j]) by {
            if j < u.len() { assert(u2[j] == u[j]); assert(key_col(s, src, p, u[j])); let i = choose|i: int| 0 <= i < src.len() && s.columns@[#[trigger] src[i]].role == ColumnRole::OldPk && p[i].nm() == u[j]@; assert(src2[i] == src[i]); assert(p2[i] == p[i]); } else { assert(src2[src.len() as int] == k); assert(p2[src.len() as int] == p2.last()); }
        }
        assert(src2.len() == p2.len()); assert(src2.len() == d2.len());
        assert(nsofar(s, k + 1, src2, p2, d2, u2, ins, pre, chg));
    } else {
        assert forall|i: int| 0 <= i < k + 1 && (#[trigger] s.columns@[i]).role != ColumnRole::NewPk implies src2.contains(i) by { }
        assert(nsofar(s, k + 1, src2, p2, d2, u2, ins, pre, chg));
    }
}
// the keys of the pairs
pub open spec fn paired(s: SyncSchema, v: Seq<(Expr, Expr)>, c: Seq<&SyncColumn>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> pk_pair(s, c[i].name@, #[trigger] v[i]) }
pub proof fn lemma_paired(s: SyncSchema)
    requires ready(s)
    ensures forall|v: Seq<(Expr, Expr)>, c: Seq<&SyncColumn>| is_role(s, ColumnRole::OldPk, c) && #[trigger] paired(s, v, c, c.len() as int) ==> pk_pairs(s, v) && v.len() > 0
{
    assert forall|v: Seq<(Expr, Expr)>, c: Seq<&SyncColumn>| is_role(s, ColumnRole::OldPk, c) && #[trigger] paired(s, v, c, c.len() as int) implies pk_pairs(s, v) && v.len() > 0 by {
        let sh = shape(s); lemma_filt(sh, ColumnRole::OldPk, sh.len()); let z = all(sh, ColumnRole::OldPk)[0]; assert(is_at(sh, ColumnRole::OldPk, sh[z].name, z)); assert(hasc(sh, ColumnRole::OldPk, sh[z].name));
        assert forall|i: int| 0 <= i < v.len() implies is_pair(s, #[trigger] v[i]) by { assert(pk_pair(s, c[i].name@, v[i])); }
        assert forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::OldPk, n) implies exists|i: int| 0 <= i < v.len() && pk_pair(s, n, #[trigger] v[i]) by { let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i].name@ == n; assert(pk_pair(s, c[i].name@, v[i])); assert(pk_pair(s, n, v[i])); }
        assert(pk_pairs(s, v));
    }
}
pub proof fn lemma_named(s: SyncSchema, c: SyncColumn)
    requires ready(s), member(s, c)
    ensures hasc(shape(s), c.role, c.name@), c.field == s.columns@[pos(shape(s), c.role, c.name@)].field, c.role == ColumnRole::OldPk ==> hasc(shape(s), ColumnRole::NewPk, c.name@),
        forall|p: int| #[trigger] is_at(shape(s), ColumnRole::NewPk, c.name@, p) ==> p == pos(shape(s), ColumnRole::NewPk, c.name@),
{
    let i = choose|i: int| 0 <= i < s.columns@.len() && #[trigger] s.columns@[i] == c; lemma_place(s, i);
    assert forall|p: int| #[trigger] is_at(shape(s), ColumnRole::NewPk, c.name@, p) implies p == pos(shape(s), ColumnRole::NewPk, c.name@) by { let z = pos(shape(s), ColumnRole::NewPk, c.name@); assert(is_at(shape(s), ColumnRole::NewPk, c.name@, z)); assert(shape(s)[z] == shape(s)[p]); }
}
pub proof fn lemma_nstart(s: SyncSchema, ins: Expr, pre: Expr, chg: Expr) ensures nsofar(s, 0, Seq::empty(), Seq::empty(), Seq::empty(), Seq::empty(), ins, pre, chg) {}
pub proof fn lemma_push_drop<T>() ensures forall|s: Seq<T>, x: T| #[trigger] s.push(x).drop_last() == s { assert forall|s: Seq<T>, x: T| #[trigger] s.push(x).drop_last() == s by { assert(s.push(x).drop_last() =~= s); } }
pub proof fn lemma_norm_all(s: SyncSchema, r: Rel)
    requires fits(s, r, low()), whole_keys(s, r)
    ensures
        forall|f: Rel, p: Seq<Expr>, u: Seq<Column>, d: Descs, src: Seq<int>, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>| #[trigger] keyed(r, v, f) && #[trigger] planned(s, p, u, d, src, ins, pre, chg, v) && uniq(projected(f, p).cols) ==>
            forall|id: Id| #[trigger] projected(f, p).ids.contains(id) ==> exists|n: int| lists(projected(f, p), crefs(u), id, n),
        forall|f: Rel, p: Seq<Expr>, u: Seq<Column>, d: Descs, src: Seq<int>, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>, y: Rel| #[trigger] keyed(r, v, f) && #[trigger] planned(s, p, u, d, src, ins, pre, chg, v) && #[trigger] unnested(projected(f, p), crefs(u), y) ==> y.cols.len() == d.len() + 1,
        forall|f: Rel, p: Seq<Expr>, u: Seq<Column>, d: Descs, src: Seq<int>, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>, y: Rel, t: Schema, s2: SyncSchema| #[trigger] keyed(r, v, f) && #[trigger] planned(s, p, u, d, src, ins, pre, chg, v) && uniq(projected(f, p).cols)
            && #[trigger] unnested(projected(f, p), crefs(u), y) && uniq(renamed(y, upp()).cols) && #[trigger] described(s2, d, t) && index_ok(s2) && t.f@.len() == d.len() && (forall|i: int| 0 <= i < d.len() ==> (#[trigger] t.f@[i]).fname() == y.cols[i].1) ==> normalized(s, r, s2, renamed(y, upp())),
{
    hide(fits); hide(whole_keys); hide(normalized); hide(planned); hide(keyed); hide(unnested); hide(described); hide(lists); hide(uniq);
    assert forall|f: Rel, p: Seq<Expr>, u: Seq<Column>, d: Descs, src: Seq<int>, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>| #[trigger] keyed(r, v, f) && #[trigger] planned(s, p, u, d, src, ins, pre, chg, v) && uniq(projected(f, p).cols) implies
        forall|id: Id| #[trigger] projected(f, p).ids.contains(id) ==> exists|n: int| lists(projected(f, p), crefs(u), id, n) by { lemma_lists(s, r, f, p, u, d, src, ins, pre, chg, v); }
    assert forall|f: Rel, p: Seq<Expr>, u: Seq<Column>, d: Descs, src: Seq<int>, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>, y: Rel| #[trigger] keyed(r, v, f) && #[trigger] planned(s, p, u, d, src, ins, pre, chg, v) && #[trigger] unnested(projected(f, p), crefs(u), y) implies y.cols.len() == d.len() + 1 by { reveal(unnested); reveal(planned); }
    assert forall|f: Rel, p: Seq<Expr>, u: Seq<Column>, d: Descs, src: Seq<int>, ins: Expr, pre: Expr, chg: Expr, v: Seq<(Expr, Expr)>, y: Rel, t: Schema, s2: SyncSchema| #[trigger] keyed(r, v, f) && #[trigger] planned(s, p, u, d, src, ins, pre, chg, v) && uniq(projected(f, p).cols)
        && #[trigger] unnested(projected(f, p), crefs(u), y) && uniq(renamed(y, upp()).cols) && #[trigger] described(s2, d, t) && index_ok(s2) && t.f@.len() == d.len() && (forall|i: int| 0 <= i < d.len() ==> (#[trigger] t.f@[i]).fname() == y.cols[i].1) implies normalized(s, r, s2, renamed(y, upp())) by { lemma_normalized(s, r, f, p, u, d, src, ins, pre, chg, v, y, t, s2); }
}
