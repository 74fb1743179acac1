use vstd::prelude::*;
verus! {
//@include strings.inc.rs

// ---- mirrored dependency types, extracted from the vendored sources of the pinned versions
pub struct Opaque { pub id: u64 }
pub struct Column { pub name: String }
pub struct ScalarValue { pub id: u64 }
pub struct DataFusionError { pub id: u64 }
pub enum TreeNodeRecursion { Continue, Jump, Stop }
pub type Result<T> = core::result::Result<T, DataFusionError>;
impl DataFusionError {
    #[verifier::external_body]
    #[allow(non_snake_case)]
    pub fn Execution(s: String) -> DataFusionError { unimplemented!() }
}
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-expr-common-44.0.0/src/operator.rs | enum Operator | derive=PartialEq,Eq,Clone,Copy,Structural
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-expr-44.0.0/src/expr.rs | struct BinaryExpr
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-expr-44.0.0/src/expr.rs | struct InList
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-expr-44.0.0/src/expr.rs | enum Expr | payload=Column,ScalarValue,BinaryExpr,Box<Expr>,InList
//@end

impl Operator {
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-expr-common-44.0.0/src/operator.rs | impl Operator :: precedence
//@end
}
impl RxDisp for Operator { uninterp spec fn disp(&self) -> Seq<char>; }
impl RxDisp for Expr { uninterp spec fn disp(&self) -> Seq<char>; }

// ---- the converter of a dialect (its three methods are the subject of other properties)
pub trait FilterPushdownConverter {
    spec fn col_txt(&self, c: Column) -> Seq<char>;
    spec fn lit_txt(&self, v: ScalarValue) -> Option<Seq<char>>;
    spec fn op_txt(&self, o: Operator) -> Option<Seq<char>>;
    fn col_to_sql(&self, col: &Column) -> (r: String) ensures r@ == self.col_txt(*col);
    fn scalar_value_to_sql(&self, value: &ScalarValue) -> (r: Option<String>)
        ensures r is Some == self.lit_txt(*value) is Some, r is Some ==> r->0@ == self.lit_txt(*value)->0;
    fn op_to_sql(&self, op: &Operator) -> (r: Option<String>)
        ensures r is Some == self.op_txt(*op) is Some, r is Some ==> r->0@ == self.op_txt(*op)->0;
}

// ---- the SQL grammar the three dialects agree on, as derivation trees
pub ghost enum D {
    Leaf(Seq<char>),
    Paren(Box<D>),
    Bin(Box<D>, Operator, Seq<char>, Box<D>),
    Not(Box<D>),
    Neg(Box<D>),
    Is(Box<D>, int),
    In(Box<D>, bool, Box<DL>),
}
pub ghost enum DL { Nil, Snoc(Box<DL>, Box<D>) }

pub open spec fn is_word(k: int) -> Seq<char> {
    if k == 0 { " IS NULL"@ } else if k == 1 { " IS NOT NULL"@ } else if k == 2 { " IS TRUE"@ }
    else if k == 3 { " IS FALSE"@ } else if k == 4 { " IS NOT TRUE"@ } else { " IS NOT FALSE"@ }
}
pub open spec fn in_word(neg: bool) -> Seq<char> { if neg { " NOT IN ("@ } else { " IN ("@ } }

pub open spec fn txt(d: D) -> Seq<char> decreases d {
    match d {
        D::Leaf(s) => s,
        D::Paren(x) => "("@ + txt(*x) + ")"@,
        D::Bin(l, o, t, r) => txt(*l) + " "@ + t + " "@ + txt(*r),
        D::Not(x) => "NOT "@ + txt(*x),
        D::Neg(x) => "- "@ + txt(*x),
        D::Is(x, k) => txt(*x) + is_word(k),
        D::In(x, n, l) => txt(*x) + in_word(n) + txtl(*l) + ")"@,
    }
}
pub open spec fn txtl(l: DL) -> Seq<char> decreases l {
    match l {
        DL::Nil => Seq::empty(),
        DL::Snoc(r, x) => match *r { DL::Nil => txt(*x), _ => txtl(*r) + ", "@ + txt(*x) },
    }
}
pub open spec fn lvl_op(o: Operator) -> int {
    match o {
        Operator::Or => 5, Operator::And => 10,
        Operator::Eq | Operator::NotEq | Operator::Lt | Operator::LtEq | Operator::Gt | Operator::GtEq => 20,
        Operator::Plus | Operator::Minus => 40,
        Operator::Multiply | Operator::Divide | Operator::Modulo => 50,
        _ => 0,
    }
}
pub open spec fn lvl(d: D) -> int {
    match d {
        D::Leaf(_) | D::Paren(_) => 100,
        D::Bin(_, o, _, _) => lvl_op(o),
        D::Not(_) => 15,
        D::Neg(_) => 60,
        D::Is(_, _) | D::In(_, _, _) => 20,
    }
}
// what the left / right operand of a binary operator has to bind at least as tightly as
pub open spec fn left_min(o: Operator) -> int { let p = lvl_op(o); if p == 0 { 100 } else if p == 20 { 21 } else { p } }
pub open spec fn right_min(o: Operator) -> int { let p = lvl_op(o); if p == 0 { 100 } else { p + 1 } }
pub open spec fn assoc(o: Operator) -> bool { o == Operator::And || o == Operator::Or }
pub open spec fn wf(d: D) -> bool decreases d {
    match d {
        D::Leaf(_) => true,
        D::Paren(x) => wf(*x),
        // `a AND (b AND c)` may be written without the parentheses: AND and OR are associative
        D::Bin(l, o, _, r) => wf(*l) && wf(*r) && lvl(*l) >= left_min(o)
            && (lvl(*r) >= right_min(o) || (assoc(o) && lvl(*r) == lvl_op(o))),
        D::Not(x) => wf(*x) && lvl(*x) >= 15,
        D::Neg(x) => wf(*x) && lvl(*x) > 60,
        D::Is(x, k) => wf(*x) && lvl(*x) > 20 && 0 <= k < 6,
        D::In(x, _, l) => wf(*x) && lvl(*x) > 20 && wfl(*l),
    }
}
pub open spec fn wfl(l: DL) -> bool decreases l {
    match l { DL::Nil => true, DL::Snoc(r, x) => wfl(*r) && wf(*x) }
}
// d denotes the expression e
pub open spec fn den<T: FilterPushdownConverter>(s: T, d: D, e: Expr) -> bool decreases d {
    match d {
        D::Paren(x) => den(s, *x, e),
        D::Leaf(t) => match e { Expr::Column(c) => t == s.col_txt(c), Expr::Literal(v) => s.lit_txt(v) == Some(t), _ => false },
        D::Bin(l, o, t, r) => e is BinaryExpr && e->BinaryExpr_0.op == o && s.op_txt(o) == Some(t)
            && den(s, *l, *e->BinaryExpr_0.left) && den(s, *r, *e->BinaryExpr_0.right),
        D::Not(x) => e is Not && den(s, *x, *e->Not_0),
        D::Neg(x) => e is Negative && den(s, *x, *e->Negative_0),
        D::Is(x, k) => match e {
            Expr::IsNull(i) => k == 0 && den(s, *x, *i), Expr::IsNotNull(i) => k == 1 && den(s, *x, *i),
            Expr::IsTrue(i) => k == 2 && den(s, *x, *i), Expr::IsFalse(i) => k == 3 && den(s, *x, *i),
            Expr::IsNotTrue(i) => k == 4 && den(s, *x, *i), Expr::IsNotFalse(i) => k == 5 && den(s, *x, *i),
            _ => false },
        D::In(x, n, l) => e is InList && e->InList_0.negated == n && den(s, *x, *e->InList_0.expr) && denl(s, *l, e->InList_0.list@),
    }
}
pub open spec fn denl<T: FilterPushdownConverter>(s: T, l: DL, es: Seq<Expr>) -> bool decreases l {
    match l {
        DL::Nil => es.len() == 0,
        DL::Snoc(r, x) => es.len() > 0 && denl(s, *r, es.drop_last()) && den(s, *x, es.last()),
    }
}
// the weakest level any derivation of e can have
pub open spec fn lvl_e(e: Expr) -> int {
    match e {
        Expr::BinaryExpr(b) => lvl_op(b.op),
        Expr::Not(_) => 15,
        Expr::Negative(_) => 60,
        Expr::IsNull(_) | Expr::IsNotNull(_) | Expr::IsTrue(_) | Expr::IsFalse(_) | Expr::IsNotTrue(_) | Expr::IsNotFalse(_) | Expr::InList(_) => 20,
        _ => 100,
    }
}
// The text `t` is the SQL of the expression `e`: the grammar derives t from a tree that denotes e.
// (Negations carry their own parentheses, so that they are atoms to whatever surrounds them.)
pub closed spec fn good<T: FilterPushdownConverter>(s: T, t: Seq<char>, e: Expr) -> bool {
    exists|d: D| #[trigger] wf(d) && txt(d) == t && den(s, d, e) && (e is Negative ==> lvl(d) == 100)
}
pub proof fn lemma_lvl<T: FilterPushdownConverter>(s: T, d: D, e: Expr)
    requires den(s, d, e), ensures lvl(d) >= lvl_e(e), decreases d,
{ }

pub open spec fn paren(t: Seq<char>) -> Seq<char> { "("@ + t + ")"@ }
// t, possibly in parentheses
pub open spec fn maybe_paren(t: Seq<char>, p: bool) -> Seq<char> { if p { paren(t) } else { t } }
pub open spec fn lvl2(e: Expr) -> int { if e is Negative { 100 } else { lvl_e(e) } }

// operand text t of e, possibly parenthesised, has a derivation of level >= min (or exactly `alt`)
pub proof fn lemma_operand<T: FilterPushdownConverter>(s: T, t: Seq<char>, e: Expr, p: bool) -> (d: D)
    requires good(s, t, e),
    ensures wf(d), txt(d) == maybe_paren(t, p), den(s, d, e), p ==> lvl(d) == 100, lvl(d) >= lvl2(e),
        e is Negative ==> lvl(d) == 100, lvl(d) == 100 || lvl(d) == lvl_e(e),
{
    let d0 = choose|d: D| #[trigger] wf(d) && txt(d) == t && den(s, d, e) && (e is Negative ==> lvl(d) == 100);
    lemma_lvl(s, d0, e);
    lemma_exact(s, d0, e);
    if p { D::Paren(Box::new(d0)) } else { d0 }
}
pub proof fn lemma_exact<T: FilterPushdownConverter>(s: T, d: D, e: Expr)
    requires den(s, d, e), ensures lvl(d) == 100 || lvl(d) == lvl_e(e), decreases d, { }

pub open spec fn bin_ok(l: Expr, o: Operator, r: Expr, pl: bool, pr: bool) -> bool {
    (pl || lvl2(l) >= left_min(o)) && (pr || lvl2(r) >= right_min(o) || (assoc(o) && lvl2(r) == lvl_op(o)))
}
pub proof fn lemma_bin<T: FilterPushdownConverter>(s: T, lt: Seq<char>, rt: Seq<char>, b: BinaryExpr, e: Expr, t: Seq<char>, pl: bool, pr: bool)
    requires e == Expr::BinaryExpr(b), good(s, lt, *b.left), good(s, rt, *b.right), s.op_txt(b.op) == Some(t), bin_ok(*b.left, b.op, *b.right, pl, pr),
    ensures good(s, maybe_paren(lt, pl) + " "@ + t + " "@ + maybe_paren(rt, pr), e),
        good(s, paren(maybe_paren(lt, pl) + " "@ + t + " "@ + maybe_paren(rt, pr)), e),
{
    let dl = lemma_operand(s, lt, *b.left, pl);
    let dr = lemma_operand(s, rt, *b.right, pr);
    let d = D::Bin(Box::new(dl), b.op, t, Box::new(dr));
    assert(wf(d)); assert(den(s, d, e));
    assert(txt(d) == maybe_paren(lt, pl) + " "@ + t + " "@ + maybe_paren(rt, pr));
    let d2 = D::Paren(Box::new(d));
    assert(wf(d2)); assert(den(s, d2, e));
}
pub open spec fn inner(e: Expr) -> Expr {
    match e {
        Expr::Not(i) | Expr::Negative(i) | Expr::IsNull(i) | Expr::IsNotNull(i) | Expr::IsTrue(i) | Expr::IsFalse(i) | Expr::IsNotTrue(i) | Expr::IsNotFalse(i) => *i,
        _ => e,
    }
}
pub open spec fn unary(e: Expr) -> bool {
    e is Not || e is Negative || e is IsNull || e is IsNotNull || e is IsTrue || e is IsFalse || e is IsNotTrue || e is IsNotFalse
}
pub open spec fn un_min(e: Expr) -> int { if e is Not { 15 } else if e is Negative { 61 } else { 21 } }
pub open spec fn is_kind(e: Expr) -> int {
    match e { Expr::IsNull(_) => 0, Expr::IsNotNull(_) => 1, Expr::IsTrue(_) => 2, Expr::IsFalse(_) => 3, Expr::IsNotTrue(_) => 4, _ => 5 }
}
pub open spec fn un_txt(e: Expr, t: Seq<char>) -> Seq<char> {
    if e is Not { "NOT "@ + t } else if e is Negative { "(- "@ + t + ")"@ } else { t + is_word(is_kind(e)) }
}
pub proof fn lemma_un<T: FilterPushdownConverter>(s: T, t: Seq<char>, e: Expr, p: bool)
    requires unary(e), good(s, t, inner(e)), p || lvl2(inner(e)) >= un_min(e),
    ensures good(s, un_txt(e, maybe_paren(t, p)), e),
{
    let di = lemma_operand(s, t, inner(e), p);
    if e is Not {
        let d = D::Not(Box::new(di));
        assert(wf(d) && den(s, d, e));
    } else if e is Negative {
        reveal_strlit("(- "); reveal_strlit("("); reveal_strlit("- ");
        let n = D::Neg(Box::new(di));
        let d = D::Paren(Box::new(n));
        assert(wf(n)); assert(wf(d)); assert(den(s, n, e)); assert(den(s, d, e));
        assert(txt(n) == "- "@ + maybe_paren(t, p));
        assert(txt(d) == "("@ + txt(n) + ")"@);
        assert("("@ + ("- "@ + maybe_paren(t, p)) + ")"@ =~= "(- "@ + maybe_paren(t, p) + ")"@);
    } else {
        let d = D::Is(Box::new(di), is_kind(e));
        assert(wf(d) && den(s, d, e));
    }
}
// the derivations of the elements of an IN list
pub open spec fn all_good<T: FilterPushdownConverter>(s: T, ts: Seq<Seq<char>>, es: Seq<Expr>) -> bool {
    ts.len() == es.len() && forall|i: int| 0 <= i < es.len() ==> #[trigger] good(s, ts[i], es[i])
}
pub proof fn lemma_list<T: FilterPushdownConverter>(s: T, ts: Seq<Seq<char>>, es: Seq<Expr>) -> (l: DL)
    requires all_good(s, ts, es),
    ensures wfl(l), txtl(l) == join_spec(ts, ", "@), denl(s, l, es), (l is Nil) == (es.len() == 0),
    decreases es.len(),
{
    if es.len() == 0 { DL::Nil } else {
        assert forall|i: int| 0 <= i < es.drop_last().len() implies #[trigger] good(s, ts.drop_last()[i], es.drop_last()[i]) by {
            assert(good(s, ts[i], es[i]));
        }
        let r = lemma_list(s, ts.drop_last(), es.drop_last());
        assert(good(s, ts[es.len() - 1], es[es.len() - 1]));
        let x = lemma_operand(s, ts.last(), es.last(), false);
        if es.len() == 1 { assert(r is Nil); }
        DL::Snoc(Box::new(r), Box::new(x))
    }
}
pub proof fn lemma_in<T: FilterPushdownConverter>(s: T, t: Seq<char>, ts: Seq<Seq<char>>, e: Expr, p: bool)
    requires e is InList, good(s, t, *e->InList_0.expr), all_good(s, ts, e->InList_0.list@), p || lvl2(*e->InList_0.expr) >= 21,
    ensures good(s, maybe_paren(t, p) + in_word(e->InList_0.negated) + join_spec(ts, ", "@) + ")"@, e),
{
    let di = lemma_operand(s, t, *e->InList_0.expr, p);
    let l = lemma_list(s, ts, e->InList_0.list@);
    let d = D::In(Box::new(di), e->InList_0.negated, Box::new(l));
    assert(wf(d)); assert(den(s, d, e));
}
pub proof fn lemma_leaf<T: FilterPushdownConverter>(s: T, e: Expr)
    ensures
        e is Column ==> good(s, s.col_txt(e->Column_0), e),
        e is Literal ==> (s.lit_txt(e->Literal_0) matches Some(t) ==> good(s, t, e)),
{
    if e is Column { let d = D::Leaf(s.col_txt(e->Column_0)); assert(wf(d) && den(s, d, e)); }
    if e is Literal { if s.lit_txt(e->Literal_0) is Some { let d = D::Leaf(s.lit_txt(e->Literal_0)->0); assert(wf(d) && den(s, d, e)); } }
}

// ---- node-level contracts
pub open spec fn supported(e: Expr) -> bool { e is Column || e is Literal || e is BinaryExpr || e is InList || unary(e) }
pub open spec fn arity(e: Expr) -> int { if e is BinaryExpr { 2 } else if unary(e) { 1 } else if e is InList { 1 + e->InList_0.list@.len() as int } else { 0 } }
// the texts on top of the stack are those of the children of e, in order
pub open spec fn children_ok<T: FilterPushdownConverter>(s: T, st: Seq<String>, e: Expr) -> bool {
    let n = st.len() as int;
    &&& n >= arity(e)
    &&& e is BinaryExpr ==> good(s, st[n - 2]@, *e->BinaryExpr_0.left) && good(s, st[n - 1]@, *e->BinaryExpr_0.right)
    &&& unary(e) ==> good(s, st[n - 1]@, inner(e))
    &&& e is InList ==> good(s, st[n - arity(e)]@, *e->InList_0.expr)
        && all_good(s, views(st.subrange(n - arity(e) + 1, n)), e->InList_0.list@)
}
pub open spec fn bp(e: Expr) -> int {
    let l = lvl2(e);
    if l == 0 { 0 } else if l == 5 { 1 } else if l == 10 { 2 } else if l == 15 { 3 } else if l == 20 { 4 } else if l == 40 { 5 } else if l == 50 { 6 } else { 7 }
}

//@extract datafusion_remote_tables/src/filter_pushdown.rs | const UNSPECIFIED
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | const DISJUNCTION
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | const CONJUNCTION
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | const NEGATION
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | const PREDICATE
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | const ADDITIVE
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | const MULTIPLICATIVE
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | const ATOM
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | fn binding_power
    ensures r == bp(*expr),
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | fn parenthesise
    ensures r@ == maybe_paren(sql@, bp(*operand) < min_power),
//@end

//@extract datafusion_remote_tables/src/filter_pushdown.rs | struct FilterPushdownVisitor
//@end
impl<T: FilterPushdownConverter> FilterPushdownVisitor<T> {
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownVisitor :: pop_sql_expr
    requires old(self).sql_exprs@.len() > 0,
    ensures final(self).sql_exprs@ == old(self).sql_exprs@.drop_last(), r@ == old(self).sql_exprs@.last()@, final(self).source == old(self).source,
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl TreeNodeVisitor for FilterPushdownVisitor :: f_down
    ensures
        final(self).sql_exprs@ == old(self).sql_exprs@, final(self).source == old(self).source,
        r is Ok ==> r->Ok_0 is Continue && supported(*expr),
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl TreeNodeVisitor for FilterPushdownVisitor :: f_up
    requires supported(*expr), children_ok(old(self).source, old(self).sql_exprs@, *expr),
    ensures
        final(self).source == old(self).source,
        r is Ok ==> r->Ok_0 is Continue
            && final(self).sql_exprs@.len() == old(self).sql_exprs@.len() - arity(*expr) + 1
            && final(self).sql_exprs@.drop_last() =~= old(self).sql_exprs@.take(old(self).sql_exprs@.len() - arity(*expr))
            && good(final(self).source, final(self).sql_exprs@.last()@, *expr),
//@entry
    let ghost st = self.sql_exprs@;
    let ghost n = st.len() as int;
    let ghost s = self.source;
    proof {
        lemma_leaf(s, *expr);
        if expr is BinaryExpr {
            let b = expr->BinaryExpr_0;
            let lt = st[n - 2]@; let rt = st[n - 1]@;
            if s.op_txt(b.op) is Some {
                let t = s.op_txt(b.op)->0;
                assert forall|x: Seq<char>, pl: bool, pr: bool| bin_ok(*b.left, b.op, *b.right, pl, pr)
                    && x =~= #[trigger] (maybe_paren(lt, pl) + " "@ + t + " "@ + maybe_paren(rt, pr)) implies #[trigger] good(s, x, *expr) by {
                    lemma_bin(s, lt, rt, b, *expr, t, pl, pr);
                }
                assert(bin_ok(*b.left, b.op, *b.right, true, true));
                let c0 = maybe_paren(lt, false) + " "@ + t + " "@ + maybe_paren(rt, false);
                let c1 = maybe_paren(lt, false) + " "@ + t + " "@ + maybe_paren(rt, true);
                let c2 = maybe_paren(lt, true) + " "@ + t + " "@ + maybe_paren(rt, false);
                let c3 = maybe_paren(lt, true) + " "@ + t + " "@ + maybe_paren(rt, true);
                assert(c0 == c0 && c1 == c1 && c2 == c2 && c3 == c3);
            }
        }
        if unary(*expr) {
            let t = st[n - 1]@;
            if lvl2(inner(*expr)) >= un_min(*expr) { lemma_un(s, t, *expr, false); }
            lemma_un(s, t, *expr, true);
        }
        if expr is InList {
            let k = arity(*expr);
            let t = st[n - k]@;
            let ts = views(st.subrange(n - k + 1, n));
            if lvl2(*expr->InList_0.expr) >= 21 { lemma_in(s, t, ts, *expr, false); }
            lemma_in(s, t, ts, *expr, true);
        }
    }
//@end
}

// ---- dependency model (assumed): TreeNode::visit of DataFusion calls f_down, visits the children from
// left to right, calls f_up, and stops at the first error. The order of the children is that of
// Expr::apply_children. The body below is verified against the contracts of f_down and f_up.
impl Expr {
    pub fn visit<T: FilterPushdownConverter>(&self, v: &mut FilterPushdownVisitor<T>) -> (r: Result<TreeNodeRecursion>)
        ensures
            final(v).source == old(v).source,
            r is Ok ==> r->Ok_0 is Continue
                && final(v).sql_exprs@.len() == old(v).sql_exprs@.len() + 1
                && final(v).sql_exprs@.drop_last() =~= old(v).sql_exprs@
                && good(final(v).source, final(v).sql_exprs@.last()@, *self),
        decreases self,
    {
        let ghost st = v.sql_exprs@;
        let rec = v.f_down(self)?;
        match self {
            Expr::BinaryExpr(b) => {
                b.left.visit(v)?;
                let ghost st1 = v.sql_exprs@;
                b.right.visit(v)?;
                assert(v.sql_exprs@[st.len() as int] == st1.last()) by { assert(v.sql_exprs@.drop_last()[st.len() as int] == st1[st.len() as int]); }
                assert(v.sql_exprs@.take(st.len() as int) =~= st) by { assert(v.sql_exprs@.drop_last() =~= st1); assert(st1.drop_last() =~= st); }
            }
            Expr::Not(i) | Expr::Negative(i) | Expr::IsNull(i) | Expr::IsNotNull(i) | Expr::IsTrue(i) | Expr::IsFalse(i) | Expr::IsNotTrue(i) | Expr::IsNotFalse(i) => {
                i.visit(v)?;
            }
            Expr::InList(l) => {
                l.expr.visit(v)?;
                let ghost st1 = v.sql_exprs@;
                let mut k: usize = 0;
                let n = l.list.len();
                while k < n
                    invariant
                        v.source == old(v).source,
                        n == l.list@.len(), k <= n, l == self->InList_0, self is InList,
                        v.sql_exprs@.len() == st1.len() + k, v.sql_exprs@.take(st1.len() as int) =~= st1,
                        forall|j: int| 0 <= j < k ==> good(v.source, #[trigger] v.sql_exprs@[st1.len() + j]@, l.list@[j]),
                    decreases n - k,
                {
                    let ghost pre = v.sql_exprs@;
                    assert(decreases_to!(l.list => l.list@[k as int]));
                    l.list[k].visit(v)?;
                    assert(v.sql_exprs@.drop_last() =~= pre);
                    assert forall|j: int| 0 <= j < k + 1 implies good(v.source, #[trigger] v.sql_exprs@[st1.len() + j]@, l.list@[j]) by {
                        if j < k { assert(v.sql_exprs@.drop_last()[st1.len() + j] == pre[st1.len() + j]); }
                    }
                    assert(v.sql_exprs@.take(st1.len() as int) =~= v.sql_exprs@.drop_last().take(st1.len() as int));
                    k += 1;
                }
                let ghost now = v.sql_exprs@;
                let ghost ts = views(now.subrange(st1.len() as int, now.len() as int));
                assert(now.take(st1.len() as int)[st1.len() - 1] == now[st1.len() - 1]);
                assert(all_good(v.source, ts, l.list@)) by {
                    assert forall|j: int| 0 <= j < n implies #[trigger] good(v.source, ts[j], l.list@[j]) by {
                        assert(good(v.source, now[st1.len() + j]@, l.list@[j]));
                    }
                }
                assert(now.take(st.len() as int) =~= st) by { assert(now.take(st.len() as int) =~= st1.take(st.len() as int)); assert(st1.drop_last() =~= st); }
            }
            _ => {}
        }
        assert(v.sql_exprs@.take(st.len() as int) =~= st);
        v.f_up(self)
    }
}
//@extract datafusion_remote_tables/src/filter_pushdown.rs | fn filter_expr_to_sql
    ensures r is Ok ==> good(source, r->Ok_0@, *filter),
//@end

// vacuity probes: each of these must be REJECTED by the verifier on every run
//@probe
proof fn probe_axioms() ensures false {}
//@probe
proof fn probe_good<T: FilterPushdownConverter>(s: T, e: Expr, t: Seq<char>) requires supported(e) ensures !good(s, t, e) {}
} // verus!
fn main() {}
