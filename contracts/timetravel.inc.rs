// ---- SQL identifiers and table names
pub struct Ident { pub value: String, pub quote_style: Option<char> }
impl Clone for Ident { fn clone(&self) -> (r: Ident) ensures r == *self { Ident { value: self.value.clone(), quote_style: self.quote_style } } }
impl Ident {
    #[verifier::external_body]
    pub fn new<S: RxDisp>(value: S) -> (r: Ident) ensures r.value@ == value.disp(), r.quote_style is None { unimplemented!() }
    #[verifier::external_body]
    pub fn with_quote<S: RxDisp>(quote: char, value: S) -> (r: Ident) requires quote == '"' || quote == '`' || quote == '\'' || quote == '[' ensures r.value@ == value.disp(), r.quote_style == Some(quote) { unimplemented!() }
}
pub struct ObjectName(pub Vec<Ident>);
pub type IdentV = (Seq<char>, Option<char>);
pub open spec fn iv(i: Ident) -> IdentV { (i.value@, i.quote_style) }
pub open spec fn nv(n: ObjectName) -> Seq<IdentV> { n.0@.map_values(|i: Ident| iv(i)) }
impl Clone for ObjectName {
    #[verifier::external_body]
    fn clone(&self) -> (r: ObjectName) ensures r.0@ == self.0@ { unimplemented!() }
}
pub open spec fn lower1(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u32) as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower1(c)) }
#[verifier::external_body]
pub fn rx_lower<S: RxDisp + ?Sized>(s: &S) -> (r: String) ensures r@ == lower(s.disp()) { unimplemented!() }
// an unquoted identifier folds to lower case, a quoted one is taken as written
pub open spec fn folded(i: IdentV) -> Seq<char> { if i.1 is Some { i.0 } else { lower(i.0) } }
pub ghost struct Tref { pub cat: Seq<char>, pub sch: Seq<char>, pub tab: Seq<char> }
// the table a (1 to 3 part) name denotes, given the defaults
pub open spec fn resolved(n: Seq<IdentV>, dc: Seq<char>, ds: Seq<char>) -> Tref {
    if n.len() == 1 { Tref { cat: dc, sch: ds, tab: folded(n[0]) } }
    else if n.len() == 2 { Tref { cat: dc, sch: folded(n[0]), tab: folded(n[1]) } }
    else { Tref { cat: folded(n[0]), sch: folded(n[1]), tab: folded(n[2]) } }
}
pub struct TableReference { pub name: Ghost<Seq<IdentV>>, pub id: u64 }
pub struct ResolvedTableReference { pub catalog: String, pub schema: String, pub table: String }
pub open spec fn tr(r: ResolvedTableReference) -> Tref { Tref { cat: r.catalog@, sch: r.schema@, tab: r.table@ } }
impl Clone for ResolvedTableReference {
    #[verifier::external_body]
    fn clone(&self) -> (r: ResolvedTableReference) ensures tr(r) == tr(*self) { unimplemented!() }
}
impl TableReference {
    #[verifier::external_body]
    pub fn resolve<A: RxDisp, B: RxDisp>(self, dc: A, ds: B) -> (r: ResolvedTableReference)
        requires 1 <= self.name@.len() <= 3,
        ensures tr(r) == resolved(self.name@, dc.disp(), ds.disp()) { unimplemented!() }
    #[verifier::external_body]
    pub fn full<A: RxDisp, B: RxDisp, C: RxDisp>(a: A, b: B, c: C) -> (r: TableReference)
        ensures r.name@ == seq![(a.disp(), Some('"')), (b.disp(), Some('"')), (c.disp(), Some('"'))] { unimplemented!() }
}
pub struct DataFusionError { pub id: u64 }
pub type Result<T> = core::result::Result<T, DataFusionError>;
impl DataFusionError {
    #[verifier::external_body]
    #[allow(non_snake_case)]
    pub fn Execution(s: String) -> DataFusionError { unimplemented!() }
}
#[verifier::external_body]
pub fn rx_err() -> DataFusionError { unimplemented!() }
// how DataFusion's planner reads a table name
#[verifier::external_body]
pub fn object_name_to_table_reference(n: ObjectName, norm: bool) -> (r: Result<TableReference>)
    requires norm,
    ensures r is Ok <==> 1 <= n.0@.len() <= 3, r is Ok ==> r->Ok_0.name@ == nv(n) { unimplemented!() }
#[verifier::external_body]
pub fn mut_last<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *r->0 == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(r->0)),
{ unimplemented!() }

// ---- sqlparser's table factors
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/value.rs | enum Value | payload=String
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/mod.rs | enum Expr | payload=Value
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/mod.rs | enum FunctionArgExpr | payload=Expr
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/mod.rs | enum FunctionArg | payload=FunctionArgExpr
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/query.rs | struct TableFunctionArgs
//@types
Option<Vec<Setting>> => Option<Opaque>
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/query.rs | enum TableFactor | payload=ObjectName,Option<TableFunctionArgs>
//@end
pub struct Opaque { pub id: u64 }
pub enum ControlFlow<B> { Continue(()), Break(B) }
// the versions found: a set of (name, version) pairs, listed in some order
#[verifier::external_body]
pub struct VersionSet { p: core::marker::PhantomData<u64> }
// an entry names this table (its three parts stand for themselves) at this version
pub open spec fn keys(k: (ObjectName, String), t: Tref, v: Seq<char>) -> bool { k.0.0@.len() == 3 && k.0.0@[0].value@ == t.cat && k.0.0@[1].value@ == t.sch && k.0.0@[2].value@ == t.tab && k.1@ == v }
impl VersionSet {
    pub uninterp spec fn list(&self) -> Seq<(ObjectName, String)>;
    pub open spec fn has(&self, t: Tref, v: Seq<char>) -> bool { exists|i: int| 0 <= i < self.list().len() && keys(#[trigger] self.list()[i], t, v) }
    // every entry has three parts
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.list().len() ==> (#[trigger] self.list()[i]).0.0@.len() == 3 }
    #[verifier::external_body]
    pub fn insert(&mut self, k: (ObjectName, String)) -> (r: bool)
        ensures forall|t: Tref, v: Seq<char>| #[trigger] final(self).has(t, v) <==> old(self).has(t, v) || keys(k, t, v), old(self).wf() && k.0.0@.len() == 3 ==> final(self).wf() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.list().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: VersionSet) ensures r.list().len() == 0 { unimplemented!() }
}

// ---- what a time-travel reference is, and what it becomes
pub open spec fn version_of(f: TableFactor) -> Option<Seq<char>> {
    match f {
        TableFactor::Table { name, args, .. } => match args {
            Some(a) => if a.args@.len() == 1 { match a.args@[0] { FunctionArg::Unnamed(FunctionArgExpr::Expr(Expr::Value(Value::SingleQuotedString(v)))) => Some(v@), _ => None } } else { None },
            None => None },
        _ => None }
}
pub open spec fn name_of(f: TableFactor) -> Seq<IdentV> { match f { TableFactor::Table { name, .. } => nv(name), _ => Seq::empty() } }
// the name under which version v of table t is registered
pub open spec fn versioned(t: Seq<char>, v: Seq<char>) -> Seq<char> { t + ":"@ + lower(v) }
pub open spec fn at_version(t: Tref, v: Seq<char>) -> Tref { Tref { tab: versioned(t.tab, v), ..t } }
pub open spec fn travels(f: TableFactor) -> bool { version_of(f) is Some && 1 <= name_of(f).len() <= 3 }
// g is f with the version moved into the name; everything else is f's
pub open spec fn moved(f: TableFactor, g: TableFactor, dc: Seq<char>, ds: Seq<char>) -> bool {
    match (f, g) {
        (TableFactor::Table { name: n, alias: a, args: _, with_hints: h, version: v, with_ordinality: o, partitions: p, json_path: j }, TableFactor::Table { name: n2, alias: a2, args: x2, with_hints: h2, version: v2, with_ordinality: o2, partitions: p2, json_path: j2 }) => {
            &&& x2 is None && a2 == a && h2 == h && v2 == v && o2 == o && p2 == p && j2 == j
            &&& nv(n2).len() == nv(n).len()
            // the planner reads the new name as: the named table's catalog and schema, and the versioned name
            &&& resolved(nv(n2), dc, ds) == at_version(resolved(nv(n), dc, ds), version_of(f)->0)
        },
        _ => false,
    }
}
pub proof fn lemma_lower(a: Seq<char>, b: Seq<char>)
    ensures lower(lower(a)) == lower(a), lower(a + ":"@ + b) == lower(a) + ":"@ + lower(b), lower(":"@) == ":"@,
{
    reveal_strlit(":");
    assert forall|c: char| lower1(#[trigger] lower1(c)) == lower1(c) by { };
    assert(lower(lower(a)) =~= lower(a));
    assert(lower(a + ":"@ + b) =~= lower(a) + ":"@ + lower(b));
    assert(lower(":"@) =~= ":"@);
}

// ---- texts and instants (assumed contracts of chrono)
pub struct FixedOffset { pub secs: i32 }
impl FixedOffset { #[verifier::external_body] pub fn east_opt(s: i32) -> (r: Option<FixedOffset>) ensures r is Some <==> -86400 < s < 86400, r is Some ==> r->0.secs == s { unimplemented!() } }
pub struct ParseError { pub id: u64 }
pub struct NaiveDateTime { pub wall: Ghost<int> }
pub struct DateTime { pub at: Ghost<int> }
pub uninterp spec fn rfc3339(s: Seq<char>) -> Option<int>;
pub uninterp spec fn rfc2822(s: Seq<char>) -> Option<int>;
pub uninterp spec fn zoned(s: Seq<char>, f: Seq<char>) -> Option<int>;
pub uninterp spec fn wall(s: Seq<char>, f: Seq<char>) -> Option<int>;
// a text that several of the forms accept means the same in each of them
#[verifier::external_body] pub broadcast proof fn axiom_forms(s: Seq<char>)
    ensures #![trigger rfc3339(s)] #![trigger rfc2822(s)] ({ let f1 = "%Y-%m-%d %H:%M:%S %z"@; let f2 = "%Y-%m-%d %H:%M:%S"@;
        (rfc3339(s) is Some && rfc2822(s) is Some ==> rfc3339(s) == rfc2822(s)) && (rfc3339(s) is Some && zoned(s, f1) is Some ==> rfc3339(s) == zoned(s, f1)) && (rfc2822(s) is Some && zoned(s, f1) is Some ==> rfc2822(s) == zoned(s, f1))
        && (wall(s, f2) is Some ==> rfc3339(s) is None && rfc2822(s) is None && zoned(s, f1) is None) }) {}
impl DateTime {
    #[verifier::external_body] pub fn parse_from_rfc3339(s: &str) -> (r: core::result::Result<DateTime, ParseError>) ensures r is Ok <==> rfc3339(s@) is Some, r is Ok ==> r->Ok_0.at@ == rfc3339(s@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn parse_from_rfc2822(s: &str) -> (r: core::result::Result<DateTime, ParseError>) ensures r is Ok <==> rfc2822(s@) is Some, r is Ok ==> r->Ok_0.at@ == rfc2822(s@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn parse_from_str(s: &str, f: &str) -> (r: core::result::Result<DateTime, ParseError>) ensures r is Ok <==> zoned(s@, f@) is Some, r is Ok ==> r->Ok_0.at@ == zoned(s@, f@)->0 { unimplemented!() }
    // the wall time is taken as UTC, the offset only changes how it is shown
    #[verifier::external_body] pub fn from_naive_utc_and_offset(n: NaiveDateTime, o: FixedOffset) -> (r: DateTime) ensures r.at@ == n.wall@ { unimplemented!() }
    #[verifier::external_body] pub fn from(d: DateTime) -> (r: DateTime) ensures r == d { unimplemented!() }
    pub fn to_utc(self) -> (r: DateTime) ensures r == self { self }
}
impl NaiveDateTime {
    #[verifier::external_body] pub fn parse_from_str(s: &str, f: &str) -> (r: core::result::Result<NaiveDateTime, ParseError>) ensures r is Ok <==> wall(s@, f@) is Some, r is Ok ==> r->Ok_0.wall@ == wall(s@, f@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn and_utc(self) -> (r: DateTime) ensures r.at@ == self.wall@ { unimplemented!() }
}
// the instant a version text denotes: RFC 3339, RFC 2822, or a wall time with an offset or (UTC) without
pub open spec fn instant_of(s: Seq<char>) -> Option<int> {
    if rfc3339(s) is Some { rfc3339(s) } else if rfc2822(s) is Some { rfc2822(s) }
    else if zoned(s, "%Y-%m-%d %H:%M:%S %z"@) is Some { zoned(s, "%Y-%m-%d %H:%M:%S %z"@) } else { wall(s, "%Y-%m-%d %H:%M:%S"@) }
}
