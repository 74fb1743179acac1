// ---- two items of changes made one
pub type Cells = spec_fn(ColumnRole, Seqc) -> Val;
pub open spec fn low() -> Seqc { LOWER_REL_spec() }
pub open spec fn upp() -> Seqc { UPPER_REL_spec() }
// the planner's own names are identifiers and differ
pub proof fn names() ensures parsed(low()) == (None::<Seqc>, low()), parsed(upp()) == (None::<Seqc>, upp()), parsed(UPSERT_COL_spec()) == (None::<Seqc>, UPSERT_COL_spec()), low() != upp(), low() != UPSERT_COL_spec(), upp() != UPSERT_COL_spec() { broadcast use ax_parsed; LOWER_REL_plain(); UPPER_REL_plain(); UPSERT_COL_plain(); }
pub open spec fn member(s: SyncSchema, c: SyncColumn) -> bool { exists|i: int| 0 <= i < s.columns@.len() && #[trigger] s.columns@[i] == c }
// what a row of a join has of one of its sides, and what it is when that side is missing
pub open spec fn side(e: Env, s: SyncSchema, q: Seqc, on: bool, c: Cells) -> bool {
    e(None, q) == (if on { Val::Bool(true) } else { Val::Null })
    && forall|i: int| 0 <= i < s.columns@.len() ==> e(Some(q), (#[trigger] s.columns@[i]).field.fname()) == (if on { c(s.columns@[i].role, s.columns@[i].name@) } else { Val::Null })
}
pub open spec fn joined(e: Env, lo: SyncSchema, up: SyncSchema, hl: bool, hu: bool, l: Cells, u: Cells) -> bool { side(e, lo, low(), hl, l) && side(e, up, upp(), hu, u) && (hl || hu) }
pub open spec fn alone(e: Env, s: SyncSchema, c: Cells) -> bool { forall|i: int| 0 <= i < s.columns@.len() ==> e(None, (#[trigger] s.columns@[i]).field.fname()) == c(s.columns@[i].role, s.columns@[i].name@) }
// whether a change sets a value
pub open spec fn sets(s: SyncSchema, c: Cells, n: Seqc) -> bool { hasc(shape(s), ColumnRole::Value, n) && (hasc(shape(s), ColumnRole::Changed, n) ==> c(ColumnRole::Changed, n) == Val::Bool(true)) }
pub open spec fn flagged(lo: SyncSchema, up: SyncSchema, n: Seqc) -> bool { hasc(shape(lo), ColumnRole::Changed, n) || hasc(shape(up), ColumnRole::Changed, n) }
// the change that is first the lower and then the upper one: a value the upper sets is set, and so is one that the lower sets
// (recorded finding: not when either has a flag for it)
pub open spec fn msets(lo: SyncSchema, up: SyncSchema, hl: bool, hu: bool, l: Cells, u: Cells, n: Seqc) -> bool {
    if !hu { sets(lo, l, n) } else if !hl { sets(up, u, n) } else { sets(up, u, n) || sets(lo, l, n) && !flagged(lo, up, n) }
}
pub open spec fn mval(up: SyncSchema, hl: bool, hu: bool, l: Cells, u: Cells, n: Seqc) -> Val { if hu && (!hl || sets(up, u, n)) { u(ColumnRole::Value, n) } else { l(ColumnRole::Value, n) } }
pub open spec fn merged_cell(lo: SyncSchema, up: SyncSchema, hl: bool, hu: bool, l: Cells, u: Cells, role: ColumnRole, n: Seqc, v: Val) -> bool {
    match role {
        ColumnRole::OldPk => v == (if hl { l(ColumnRole::OldPk, n) } else { u(ColumnRole::OldPk, n) }),
        ColumnRole::NewPk => v == (if hu { u(ColumnRole::NewPk, n) } else { l(ColumnRole::NewPk, n) }),
        ColumnRole::Changed => (v == Val::Bool(true)) == msets(lo, up, hl, hu, l, u, n),
        ColumnRole::Value => msets(lo, up, hl, hu, l, u, n) ==> v == mval(up, hl, hu, l, u, n),
    }
}
pub open spec fn good(lo: SyncSchema, up: SyncSchema, role: ColumnRole, n: Seqc, x: Expr) -> bool {
    forall|e: Env, hl: bool, hu: bool, l: Cells, u: Cells| #[trigger] joined(e, lo, up, hl, hu, l, u) ==> merged_cell(lo, up, hl, hu, l, u, role, n, x.ev(e))
}
pub open spec fn ugood_l(lo: SyncSchema, up: SyncSchema, role: ColumnRole, n: Seqc, a: Expr) -> bool { forall|e: Env, l: Cells| #[trigger] alone(e, lo, l) ==> merged_cell(lo, up, true, false, l, l, role, n, a.ev(e)) }
pub open spec fn ugood_u(lo: SyncSchema, up: SyncSchema, role: ColumnRole, n: Seqc, b: Expr) -> bool { forall|e: Env, u: Cells| #[trigger] alone(e, up, u) ==> merged_cell(lo, up, false, true, u, u, role, n, b.ev(e)) }
pub open spec fn ugood(lo: SyncSchema, up: SyncSchema, role: ColumnRole, n: Seqc, a: Expr, b: Expr) -> bool { ugood_l(lo, up, role, n, a) && ugood_u(lo, up, role, n, b) }
// the value only one of the items has, without a flag
pub open spec fn needs_flag(this: SyncSchema, other: SyncSchema, n: Seqc) -> bool { !hasc(shape(other), ColumnRole::Value, n) && !hasc(shape(this), ColumnRole::Changed, n) }
pub open spec fn ready(s: SyncSchema) -> bool { index_ok(s) && sensible(shape(s)) }
pub open spec fn same_pks(a: SyncSchema, b: SyncSchema) -> bool { forall|role: ColumnRole, n: Seqc| (role == ColumnRole::OldPk || role == ColumnRole::NewPk) ==> #[trigger] hasc(shape(a), role, n) == hasc(shape(b), role, n) }
pub proof fn lemma_member(s: SyncSchema, c: SyncColumn) requires member(s, c) ensures hasc(shape(s), c.role, c.name@) { let i = choose|i: int| 0 <= i < s.columns@.len() && #[trigger] s.columns@[i] == c; assert(is_at(shape(s), c.role, c.name@, i)); }
// ---- the descriptors of the result, in order and each once
pub type Cd = (i32, Seqc);
pub open spec fn cdv(d: ColumnDescriptor) -> Cd { (d.role, d.name@) }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct IndexSet<T> { p: Vec<T> }
impl View for IndexSet<ColumnDescriptor> { type V = Seq<Cd>; open spec fn view(&self) -> Seq<Cd> { self.list().map_values(|d: ColumnDescriptor| cdv(d)) } }
impl IndexSet<ColumnDescriptor> {
    pub uninterp spec fn list(&self) -> Seq<ColumnDescriptor>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.list() == Seq::<ColumnDescriptor>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, d: ColumnDescriptor) -> (r: bool) ensures r == !old(self)@.contains(cdv(d)), final(self)@ == (if r { old(self)@.push(cdv(d)) } else { old(self)@ }), once(old(self)@) ==> once(final(self)@) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, d: &ColumnDescriptor) -> (r: bool) ensures r == self@.contains(cdv(*d)) { unimplemented!() }
}
impl RxItems for IndexSet<ColumnDescriptor> { type Item = ColumnDescriptor; open spec fn items(&self) -> Seq<ColumnDescriptor> { self.list() } }
pub open spec fn once(s: Seq<Cd>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> #[trigger] s[i] != #[trigger] s[j] }
pub open spec fn rolei(r: ColumnRole) -> i32 { match r { ColumnRole::OldPk => 0i32, ColumnRole::NewPk => 1i32, ColumnRole::Changed => 2i32, ColumnRole::Value => 3i32 } }
pub open spec fn known_cd(c: Cd) -> bool { ColumnRole::at(c.0) is Some }
pub open spec fn crole(c: Cd) -> ColumnRole { ColumnRole::at(c.0)->Some_0 }
pub open spec fn good_all(m: MergeProjection, lo: SyncSchema, up: SyncSchema, cd: Seq<Cd>) -> bool {
    (forall|k: int| 0 <= k < cd.len() ==> known_cd(#[trigger] cd[k])) &&
    match m {
        MergeProjection::Join(p) => p@.len() == cd.len() && forall|k: int| 0 <= k < cd.len() ==> good(lo, up, crole(#[trigger] cd[k]), cd[k].1, p@[k]),
        MergeProjection::Union(a, b) => a@.len() == cd.len() && b@.len() == cd.len() && forall|k: int| 0 <= k < cd.len() ==> ugood(lo, up, crole(#[trigger] cd[k]), cd[k].1, a@[k], b@[k]),
    }
}
// which columns the result has
pub open spec fn wanted(lo: SyncSchema, up: SyncSchema, role: ColumnRole, n: Seqc) -> bool {
    hasc(shape(lo), role, n) || hasc(shape(up), role, n) || role == ColumnRole::Changed && hasc(shape(lo), ColumnRole::Value, n) != hasc(shape(up), ColumnRole::Value, n)
}
pub open spec fn good_at(this: SyncSchema, other: SyncSchema, at: SyncPosition, role: ColumnRole, n: Seqc, x: Expr) -> bool { if at is Lower { good(this, other, role, n, x) } else { good(other, this, role, n, x) } }
pub open spec fn inserted(a: Seq<Cd>, b: Seq<Cd>, c: Cd) -> bool { b == (if a.contains(c) { a } else { a.push(c) }) && (once(a) ==> once(b)) }
// a flag is about a value
pub open spec fn flags_ok(s: SyncSchema) -> bool { forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::Changed, n) ==> hasc(shape(s), ColumnRole::Value, n) }
pub proof fn lemma_flags(s: SyncSchema) requires ready(s) ensures flags_ok(s) { assert forall|n: Seqc| #[trigger] hasc(shape(s), ColumnRole::Changed, n) implies hasc(shape(s), ColumnRole::Value, n) by { let p = choose|p: int| is_at(shape(s), ColumnRole::Changed, n, p); assert(shape(s)[p].role == ColumnRole::Changed); } }
pub proof fn flag_of(c: SyncColumn) ensures forall|s: SyncSchema| #[trigger] member(s, c) && ready(s) ==> hasc(shape(s), c.role, c.name@) && flags_ok(s) { assert forall|s: SyncSchema| #[trigger] member(s, c) && ready(s) implies hasc(shape(s), c.role, c.name@) && flags_ok(s) by { lemma_member(s, c); lemma_flags(s); } }
pub open spec fn ugood_at(this: SyncSchema, other: SyncSchema, at: SyncPosition, role: ColumnRole, n: Seqc, a: Expr, b: Expr) -> bool { if at is Lower { ugood(this, other, role, n, a, b) } else { ugood(other, this, role, n, a, b) } }
// the names that the merged columns get
pub open spec fn prefix(r: ColumnRole) -> Seqc { match r { ColumnRole::OldPk => "old_pk"@, ColumnRole::NewPk => "new_pk"@, ColumnRole::Changed => "changed"@, ColumnRole::Value => "value"@ } }
pub open spec fn canonical(r: ColumnRole, n: Seqc) -> Seqc { prefix(r) + ("_"@ + n) }
#[verifier::external_body] pub struct RoleName { p: u8 }
impl RoleName { pub uninterp spec fn of(&self) -> ColumnRole; }
#[verifier::external_body] pub fn rx_lower(x: &RoleName) -> (r: String) ensures r@ == prefix(x.of()) { unimplemented!() }
#[verifier::external_body] pub fn rx_role_name(x: &ColumnRole) -> (r: RoleName) ensures r.of() == *x { unimplemented!() }
#[verifier::external_body] pub fn rx_text_string(x: &Text) -> (r: String) ensures r@ == x@ { unimplemented!() }
pub open spec fn cd_of(c: SyncColumn) -> Cd { (rolei(c.role), c.name@) }
pub open spec fn cds(d: Seq<ColumnDescriptor>) -> Seq<Cd> { d.map_values(|x: ColumnDescriptor| cdv(x)) }
pub open spec fn nothing_yet(m: MergeProjection) -> bool { match m { MergeProjection::Join(p) => p@.len() == 0, MergeProjection::Union(a, b) => a@.len() == 0 && b@.len() == 0 } }
pub open spec fn aliased(x: Expr, c: Cd) -> bool { x.nm() == (Some(low()), canonical(crole(c), c.1)) }
pub open spec fn named_all(m: MergeProjection, cd: Seq<Cd>) -> bool { match m {
    MergeProjection::Join(p) => p@.len() == cd.len() && forall|k: int| 0 <= k < cd.len() ==> aliased(#[trigger] p@[k], cd[k]),
    MergeProjection::Union(a, b) => a@.len() == cd.len() && b@.len() == cd.len() && (forall|k: int| 0 <= k < cd.len() ==> aliased(#[trigger] a@[k], cd[k])) && (forall|k: int| 0 <= k < cd.len() ==> aliased(#[trigger] b@[k], cd[k])) } }
// which columns the result gets from the first columns of an item
pub open spec fn brings(s: SyncSchema, o: SyncSchema, col: SyncColumn, c: Cd) -> bool { cd_of(col) == c || col.role == ColumnRole::Value && needs_flag(s, o, col.name@) && c == (2i32, col.name@) }
pub open spec fn from(s: SyncSchema, o: SyncSchema, i: int, c: Cd) -> bool { exists|j: int| 0 <= j < i && #[trigger] brings(s, o, s.columns@[j], c) }
pub open spec fn merged_so_far(m: MergeProjection, lo: SyncSchema, up: SyncSchema, cd: Seq<Cd>, join: bool) -> bool { good_all(m, lo, up, cd) && (m is Join == join) && once(cd) }
pub proof fn lemma_rolei(r: ColumnRole) ensures ColumnRole::at(rolei(r)) == Some(r) {}
pub proof fn lemma_has(s: SyncSchema, role: ColumnRole, n: Seqc) requires hasc(shape(s), role, n) ensures exists|j: int| 0 <= j < s.columns@.len() && #[trigger] s.columns@[j].role == role && s.columns@[j].name@ == n
{ let p = choose|p: int| is_at(shape(s), role, n, p); assert(s.columns@[p].role == role); }
pub proof fn lemma_from(s: SyncSchema, o: SyncSchema, i: int) requires ready(s), 0 <= i < s.columns@.len()
    ensures forall|c: Cd| #[trigger] from(s, o, i + 1, c) == (from(s, o, i, c) || brings(s, o, s.columns@[i], c)),
        !from(s, o, i, cd_of(s.columns@[i])),
        s.columns@[i].role == ColumnRole::Value && needs_flag(s, o, s.columns@[i].name@) ==> !from(s, o, i, (2i32, s.columns@[i].name@)),
        hasc(shape(s), s.columns@[i].role, s.columns@[i].name@), member(s, s.columns@[i]),
{
    let x = s.columns@[i];
    assert(member(s, x)); lemma_member(s, x);
    assert forall|c: Cd| #[trigger] from(s, o, i + 1, c) == (from(s, o, i, c) || brings(s, o, x, c)) by {
        if brings(s, o, x, c) { assert(brings(s, o, s.columns@[i], c)); }
    }
    assert forall|j: int| 0 <= j < i implies !brings(s, o, #[trigger] s.columns@[j], cd_of(x)) by {
        let y = s.columns@[j]; assert(shape(s)[j] != shape(s)[i]); lemma_rolei(x.role); lemma_rolei(y.role);
        if cd_of(y) == cd_of(x) { assert(y.role == x.role); }
    }
    assert forall|j: int| 0 <= j < i && x.role == ColumnRole::Value && needs_flag(s, o, x.name@) implies !brings(s, o, #[trigger] s.columns@[j], (2i32, x.name@)) by {
        let y = s.columns@[j]; assert(shape(s)[j] != shape(s)[i]); assert(member(s, y)); lemma_member(s, y); lemma_rolei(y.role);
    }
}
// the columns the result has once both items are read
pub proof fn lemma_wanted(lo: SyncSchema, up: SyncSchema, role: ColumnRole, n: Seqc)
    requires ready(lo), ready(up)
    ensures (from(lo, up, lo.columns@.len() as int, (rolei(role), n)) || from(up, lo, up.columns@.len() as int, (rolei(role), n))) == wanted(lo, up, role, n)
{
    let c = (rolei(role), n);
    lemma_rolei(role); lemma_flags(lo); lemma_flags(up);
    assert forall|s: SyncSchema, o: SyncSchema| ready(s) && ready(o) && flags_ok(s) && flags_ok(o) implies (#[trigger] from(s, o, s.columns@.len() as int, c) == (hasc(shape(s), role, n) || role == ColumnRole::Changed && hasc(shape(s), ColumnRole::Value, n) && needs_flag(s, o, n))) by {
        if from(s, o, s.columns@.len() as int, c) {
            let j = choose|j: int| 0 <= j < s.columns@.len() && #[trigger] brings(s, o, s.columns@[j], c);
            let y = s.columns@[j]; assert(member(s, y)); lemma_member(s, y); lemma_rolei(y.role);
        }
        if hasc(shape(s), role, n) { lemma_has(s, role, n); let j = choose|j: int| 0 <= j < s.columns@.len() && #[trigger] s.columns@[j].role == role && s.columns@[j].name@ == n; assert(brings(s, o, s.columns@[j], c)); }
        if role == ColumnRole::Changed && hasc(shape(s), ColumnRole::Value, n) && needs_flag(s, o, n) { lemma_has(s, ColumnRole::Value, n); let j = choose|j: int| 0 <= j < s.columns@.len() && #[trigger] s.columns@[j].role == ColumnRole::Value && s.columns@[j].name@ == n; assert(brings(s, o, s.columns@[j], c)); }
    }
}
pub proof fn lemma_pushed(a: Seq<Cd>) ensures forall|c: Cd, d: Cd| #[trigger] a.push(c).contains(d) == (a.contains(d) || c == d)
{
    assert forall|c: Cd, d: Cd| #[trigger] a.push(c).contains(d) == (a.contains(d) || c == d) by {
        if a.contains(d) { let i = choose|i: int| 0 <= i < a.len() && a[i] == d; assert(a.push(c)[i] == d); }
        if c == d { assert(a.push(c)[a.len() as int] == d); }
    }
}
// a column of the upper item that the result has already, or has not
pub proof fn lemma_upper(lo: SyncSchema, up: SyncSchema, x: SyncColumn)
    requires ready(lo), ready(up), same_pks(lo, up), member(up, x)
    ensures ({ let there = from(lo, up, lo.columns@.len() as int, cd_of(x));
        &&& (x.role == ColumnRole::Value ==> there == hasc(shape(lo), ColumnRole::Value, x.name@))
        &&& (x.role == ColumnRole::OldPk || x.role == ColumnRole::NewPk ==> there)
        &&& (hasc(shape(lo), x.role, x.name@) ==> there)
        &&& (needs_flag(up, lo, x.name@) ==> !from(lo, up, lo.columns@.len() as int, (2i32, x.name@))) })
{
    lemma_member(up, x); lemma_rolei(x.role); lemma_flags(lo); let i = lo.columns@.len() as int;
    if hasc(shape(lo), x.role, x.name@) { lemma_has(lo, x.role, x.name@); let j = choose|j: int| 0 <= j < lo.columns@.len() && #[trigger] lo.columns@[j].role == x.role && lo.columns@[j].name@ == x.name@; assert(brings(lo, up, lo.columns@[j], cd_of(x))); }
    if x.role == ColumnRole::Value && from(lo, up, i, cd_of(x)) { let j = choose|j: int| 0 <= j < i && #[trigger] brings(lo, up, lo.columns@[j], cd_of(x)); let y = lo.columns@[j]; assert(member(lo, y)); lemma_member(lo, y); lemma_rolei(y.role); }
    if needs_flag(up, lo, x.name@) && from(lo, up, i, (2i32, x.name@)) { let j = choose|j: int| 0 <= j < i && #[trigger] brings(lo, up, lo.columns@[j], (2i32, x.name@)); let y = lo.columns@[j]; assert(member(lo, y)); lemma_member(lo, y); lemma_rolei(y.role); }
}
