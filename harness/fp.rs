#![allow(dead_code, unused_imports)]
#[path = "/repo/datafusion_remote_tables/src/filter_pushdown.rs"]
pub mod filter_pushdown;
include!("common.rs");
use common::*;
use datafusion::scalar::ScalarValue;
use datafusion_expr::{col, lit, BinaryExpr, Expr, Operator};
use datafusion_common::Column;
use filter_pushdown::*;
use sqlparser::ast as sa;
use sqlparser::dialect::*;
use sqlparser::parser::Parser;
use sqlparser::tokenizer::{Token, Tokenizer, Word};

const DIALECTS: [&str; 3] = ["postgres", "sqlite", "mysql"];
fn ship(e: &Expr, d: &str) -> datafusion::error::Result<String> {
    match d { "postgres" => filter_expr_to_sql(e, PostgresFilterPushdown {}), "sqlite" => filter_expr_to_sql(e, SQLiteFilterPushdown {}), _ => filter_expr_to_sql(e, MySQLFilterPushdown {}) }
}
fn dialect(d: &str) -> Box<dyn Dialect> { match d { "postgres" => Box::new(PostgreSqlDialect {}), "sqlite" => Box::new(SQLiteDialect {}), _ => Box::new(MySqlDialect {}) } }

const OPS: [Operator; 31] = [Operator::Eq, Operator::NotEq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq, Operator::Plus, Operator::Minus, Operator::Multiply, Operator::Divide, Operator::Modulo, Operator::And, Operator::Or, Operator::IsDistinctFrom, Operator::IsNotDistinctFrom, Operator::RegexMatch, Operator::RegexIMatch, Operator::RegexNotMatch, Operator::RegexNotIMatch, Operator::LikeMatch, Operator::ILikeMatch, Operator::NotLikeMatch, Operator::NotILikeMatch, Operator::BitwiseAnd, Operator::BitwiseOr, Operator::BitwiseXor, Operator::BitwiseShiftRight, Operator::BitwiseShiftLeft, Operator::StringConcat, Operator::AtArrow, Operator::ArrowAt];

/// the operator of the dialect with the same meaning; None: there is none
fn op_table(d: &str, o: &Operator) -> Option<&'static str> {
    use Operator::*;
    Some(match (o, d) {
        (Eq, _) => "=", (NotEq, _) => "!=", (Lt, _) => "<", (LtEq, _) => "<=", (Gt, _) => ">", (GtEq, _) => ">=",
        (Plus, _) => "+", (Minus, _) => "-", (Multiply, _) => "*", (Modulo, _) => "%", (And, _) => "AND", (Or, _) => "OR",
        (Divide, "mysql") => return None, (Divide, _) => "/",
        (IsDistinctFrom, "mysql") => return None, (IsDistinctFrom, _) => "IS DISTINCT FROM",
        (IsNotDistinctFrom, "mysql") => return None, (IsNotDistinctFrom, _) => "IS NOT DISTINCT FROM",
        (RegexMatch, "postgres") => "~", (RegexMatch, "mysql") => "RLIKE", (RegexIMatch, "postgres") => "~*",
        (RegexNotMatch, "postgres") => "!~", (RegexNotMatch, "mysql") => "NOT RLIKE", (RegexNotIMatch, "postgres") => "!~*",
        (LikeMatch, "postgres") => "~~", (ILikeMatch, "postgres") => "~~*", (NotLikeMatch, "postgres") => "!~~", (NotILikeMatch, "postgres") => "!~~*",
        (BitwiseAnd, _) => "&", (BitwiseOr, _) => "|", (BitwiseXor, "postgres") => "#", (BitwiseXor, "mysql") => "^",
        (BitwiseShiftRight, _) => ">>", (BitwiseShiftLeft, _) => "<<",
        (StringConcat, "mysql") => return None, (StringConcat, _) => "||",
        (AtArrow, "postgres") => "@>", (ArrowAt, "postgres") => "<@",
        _ => return None,
    })
}

// ---- C01: the text reads back as the same tree
fn sexp(e: &Expr, d: &str) -> String {
    match e {
        Expr::Column(c) => format!("c:{}", c.name),
        Expr::Literal(ScalarValue::Utf8(Some(s))) => format!("s:{s}"),
        Expr::Literal(ScalarValue::Int64(Some(i))) => if *i < 0 { format!("(neg n:{})", -i) } else { format!("n:{i}") },
        Expr::Literal(v) => format!("v:{}", v.to_string().to_uppercase()),
        Expr::BinaryExpr(b) => bin(op_table(d, &b.op).unwrap_or("?"), sexp(&b.left, d), sexp(&b.right, d)),
        Expr::Not(x) => format!("(not {})", sexp(x, d)),
        Expr::Negative(x) => format!("(neg {})", sexp(x, d)),
        Expr::IsNull(x) => format!("(isnull {})", sexp(x, d)), Expr::IsNotNull(x) => format!("(isnotnull {})", sexp(x, d)),
        Expr::IsTrue(x) => format!("(istrue {})", sexp(x, d)), Expr::IsFalse(x) => format!("(isfalse {})", sexp(x, d)),
        Expr::IsNotTrue(x) => format!("(isnottrue {})", sexp(x, d)), Expr::IsNotFalse(x) => format!("(isnotfalse {})", sexp(x, d)),
        Expr::InList(l) => format!("(in{} {} [{}])", if l.negated { "not" } else { "" }, sexp(&l.expr, d), l.list.iter().map(|x| sexp(x, d)).collect::<Vec<_>>().join(" ")),
        _ => "?".into(),
    }
}
// AND and OR chains are flattened: regrouping them does not change the meaning
fn bin(op: &str, l: String, r: String) -> String {
    if op == "AND" || op == "OR" {
        let p = format!("({op} ");
        let f = |s: String| if s.starts_with(&p) { s[p.len()..s.len() - 1].to_string() } else { s };
        return format!("({op} {} {})", f(l), f(r));
    }
    format!("({op} {l} {r})")
}
// An independent reader of the shipped text: the documented operator precedence of each dialect.
#[derive(Clone, Debug, PartialEq)]
enum Tk { Col(String), Str(String), Num(String), W(String), Op(String), End }
fn lex(t: &str, d: &str) -> Result<Vec<Tk>, String> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0; let mut v = vec![];
    let iq = if d == "mysql" { '`' } else { '"' };
    while i < c.len() {
        let x = c[i];
        if x == ' ' { i += 1; continue; }
        if x == '-' && c.get(i + 1) == Some(&'-') { return Err("comment".into()); }
        if x == iq || x == '\'' {
            let mut o = String::new(); i += 1;
            loop { if i >= c.len() { return Err("unterminated".into()); } if c[i] == x { if c.get(i + 1) == Some(&x) { o.push(x); i += 2; continue; } i += 1; break; } o.push(c[i]); i += 1; }
            v.push(if x == '\'' { Tk::Str(o) } else { Tk::Col(o) }); continue;
        }
        if x.is_ascii_digit() { let mut o = String::new(); while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') { o.push(c[i]); i += 1; } v.push(Tk::Num(o)); continue; }
        if x.is_ascii_alphabetic() { let mut o = String::new(); while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { o.push(c[i]); i += 1; } v.push(Tk::W(o.to_uppercase())); continue; }
        if "(),".contains(x) { v.push(Tk::Op(x.to_string())); i += 1; continue; }
        let mut o = String::new(); while i < c.len() && "=!<>+-*/%&|^~#@".contains(c[i]) { if c[i] == '-' && !o.is_empty() { break; } o.push(c[i]); i += 1; if o == "-" { break; } }
        if o.is_empty() { return Err(format!("character {x:?}")); }
        v.push(Tk::Op(if o == "<>" { "!=".into() } else { o }));
    }
    v.push(Tk::End); Ok(v)
}
struct Rd<'a> { t: Vec<Tk>, i: usize, d: &'a str }
impl<'a> Rd<'a> {
    fn w(&self, k: usize) -> &Tk { self.t.get(self.i + k).unwrap_or(&Tk::End) }
    fn eat(&mut self, w: &str) -> bool { if *self.w(0) == Tk::W(w.into()) || *self.w(0) == Tk::Op(w.into()) { self.i += 1; true } else { false } }
    // (level, non-associative)
    fn lv(&self, o: &str) -> Option<(u32, bool)> {
        Some(match (self.d, o) {
            (_, "OR") => (1, false), (_, "AND") => (3, false), (_, "NOT") => (4, false),
            ("postgres", "IS") => (5, true), ("postgres", "=" | "!=" | "<" | "<=" | ">" | ">=") => (6, true), ("postgres", "IN") => (7, true),
            ("postgres", "+" | "-") => (9, false), ("postgres", "*" | "/" | "%") => (10, false),
            ("postgres", "~" | "~*" | "!~" | "!~*" | "~~" | "~~*" | "!~~" | "!~~*" | "&" | "|" | "#" | "<<" | ">>" | "||" | "@>" | "<@") => (8, false),
            ("sqlite", "IS" | "=" | "!=" | "IN") => (5, false), ("sqlite", "<" | "<=" | ">" | ">=") => (6, false), ("sqlite", "&" | "|" | "<<" | ">>") => (7, false),
            ("sqlite", "+" | "-") => (9, false), ("sqlite", "*" | "/" | "%") => (10, false), ("sqlite", "||") => (11, false),
            ("mysql", "IS" | "=" | "!=" | "IN" | "<" | "<=" | ">" | ">=" | "RLIKE") => (5, false), ("mysql", "||") => (1, false), ("mysql", "|") => (6, false), ("mysql", "&") => (7, false), ("mysql", "<<" | ">>") => (8, false),
            ("mysql", "+" | "-") => (9, false), ("mysql", "*" | "/" | "%") => (10, false), ("mysql", "^") => (11, false),
            _ => return None,
        })
    }
    fn expr(&mut self, min: u32) -> Result<String, String> {
        let mut l = match self.w(0).clone() {
            Tk::W(w) if w == "NOT" => { if min > 4 { return Err("NOT as an operand".into()); } self.i += 1; format!("(not {})", self.expr(4)?) }
            Tk::Op(o) if o == "-" => { self.i += 1; format!("(neg {})", self.expr(20)?) }
            Tk::Op(o) if o == "(" => { self.i += 1; let e = self.expr(0)?; if !self.eat(")") { return Err("expected )".into()); } e }
            Tk::Col(c) => { self.i += 1; format!("c:{c}") } Tk::Str(c) => { self.i += 1; format!("s:{c}") } Tk::Num(c) => { self.i += 1; format!("n:{c}") }
            Tk::W(w) if ["NULL", "TRUE", "FALSE"].contains(&w.as_str()) => { self.i += 1; format!("v:{w}") }
            t => return Err(format!("unexpected {t:?}")),
        };
        let mut nonassoc: Option<u32> = None;
        loop {
            let (o, neg) = match (self.w(0), self.w(1)) { (Tk::W(n), Tk::W(x)) if n == "NOT" && (x == "IN" || x == "RLIKE") => (x.clone(), true), (Tk::W(x), _) | (Tk::Op(x), _) => (x.clone(), false), _ => break };
            if o == "NOT" { break; }
            let Some((lv, na)) = self.lv(&o) else { break };
            if lv < min { break; }
            if nonassoc == Some(lv) { return Err(format!("{o} is not associative")); }
            nonassoc = if na { Some(lv) } else { None };
            self.i += if neg { 2 } else { 1 };
            match o.as_str() {
                "IS" => {
                    let n = self.eat("NOT");
                    if self.eat("NULL") { l = format!("(is{}null {l})", if n { "not" } else { "" }) }
                    else if self.eat("TRUE") { l = format!("(is{}true {l})", if n { "not" } else { "" }) }
                    else if self.eat("FALSE") { l = format!("(is{}false {l})", if n { "not" } else { "" }) }
                    else if self.eat("DISTINCT") { if !self.eat("FROM") { return Err("FROM".into()); } let r = self.expr(lv + 1)?; l = bin(if n { "IS NOT DISTINCT FROM" } else { "IS DISTINCT FROM" }, l, r) }
                    else { return Err("bad IS".into()); }
                }
                "IN" => {
                    if !self.eat("(") { return Err("IN (".into()); }
                    let mut v = vec![self.expr(0)?]; while self.eat(",") { v.push(self.expr(0)?); }
                    if !self.eat(")") { return Err("IN )".into()); }
                    l = format!("(in{} {l} [{}])", if neg { "not" } else { "" }, v.join(" "));
                }
                _ => { let r = self.expr(lv + 1)?; l = bin(&if neg { format!("NOT {o}") } else { o }, l, r); }
            }
        }
        Ok(l)
    }
}
fn read_sql(t: &str, d: &str) -> String {
    match lex(t, d).and_then(|tk| { let mut r = Rd { t: tk, i: 0, d }; let e = r.expr(0)?; if *r.w(0) == Tk::End { Ok(e) } else { Err(format!("left over: {:?}", r.w(0))) } }) { Ok(s) => s, Err(e) => format!("does not parse: {e}") }
}
fn leaf(r: &mut Rng) -> Expr {
    match r.below(14) { 0..=2 => col("a"), 3 | 4 => col("b"), 5 => col(""), 6 | 7 => lit(r.below(10) as i64), 8 => lit(-(1 + r.below(5) as i64)), 9 => lit("x"), 10 => lit(*r.pick(&["NULL", "", "a, b", "')", "1", "OR"])), 11 => lit(ScalarValue::Null), 12 => lit(r.chance(50)), _ => lit(ScalarValue::Utf8(None)) }
}
fn node(k: usize, mut c: impl FnMut() -> Expr) -> Expr {
    let bx = |e: Expr| Box::new(e);
    match k {
        0..=30 => { let l = c(); let r = c(); Expr::BinaryExpr(BinaryExpr::new(bx(l), OPS[k], bx(r))) }
        31 => Expr::Not(bx(c())), 32 => Expr::Negative(bx(c())), 33 => Expr::IsNull(bx(c())), 34 => Expr::IsNotNull(bx(c())), 35 => Expr::IsTrue(bx(c())),
        36 => Expr::IsFalse(bx(c())), 37 => Expr::IsNotTrue(bx(c())), 38 => Expr::IsNotFalse(bx(c())),
        39 => { let e = c(); let l = vec![c(), c()]; e.in_list(l, false) }
        41 => { let e = c(); let l = vec![c(), c(), c(), c(), c(), c(), c()]; e.in_list(l, false) }
        42 => { let e = c(); let l = vec![c()]; e.in_list(l, true) }
        _ => { let e = c(); let l = vec![c(), c(), c()]; e.in_list(l, true) }
    }
}
fn gen(r: &mut Rng, depth: u32) -> Expr {
    if depth == 0 || r.chance(15) { return leaf(r); }
    let k = if r.chance(25) { 11 + r.below(2) as usize } else { r.below(43) as usize };
    let mut kids: Vec<Expr> = (0..8).map(|i| if i < 4 { leaf(r) } else { gen(r, depth - 1) }).collect();
    node(k, || kids.pop().unwrap())
}
fn check_tree(e: &Expr) {
    for d in DIALECTS {
        case();
        let t = match guard(|| ship(e, d)) { Ok(Ok(t)) => t, Ok(Err(_)) => continue, Err(p) => { violation("panic", &format!("{d}: {e}"), "SQL text or an error", &p); continue } };
        let want = sexp(e, d);
        let got = read_sql(&t, d);
        if got != want { violation("tree", &format!("{d}: {e} -> {t}"), &want, &got); }
    }
}
fn c01() {
    // every node over every pair of leaf/node operands (depth 2, exhaustive in the node kinds)
    for k in 0..41usize {
        for j in 0..41usize { for pos in 0..3 {
            let mut i = 0;
            let e = node(k, || { i += 1; if i - 1 == pos { let mut m = 0; node(j, || { m += 1; if m == 1 { col("a") } else if m == 2 { col("b") } else { lit(3i64) } }) } else { col("c") } });
            check_tree(&e);
        } }
    }
    set("every node kind below every node kind, in each operand position");
    let mut r = Rng::new(seed());
    for _ in 0..if thorough() { 400_000 } else { 30_000 } { let d = 1 + r.below(5) as u32; check_tree(&gen(&mut r, d)); }
    set("random trees of depth 1..5");
    // unsupported expressions must be refused, wherever they sit
    for inner in [Expr::Cast(datafusion_expr::Cast::new(Box::new(col("a")), datafusion::arrow::datatypes::DataType::Int8)), col("a").alias("x"), Expr::IsUnknown(Box::new(col("a"))), col("a").like(lit("x")), col("a").between(lit(1), lit(2))] {
        for k in 0..41usize { for pos in 0..3 { let mut i = 0; let e = node(k, || { i += 1; if i - 1 == pos { inner.clone() } else { col("c") } });
            let has = { let mut f = false; let _ = datafusion_common::tree_node::TreeNode::apply(&e, |x| { if *x == inner { f = true; } Ok(datafusion_common::tree_node::TreeNodeRecursion::Continue) }); f };
            if has { for d in DIALECTS { case(); if let Ok(Ok(t)) = guard(|| ship(&e, d)) { violation("unsupported", &format!("{d}: {e}"), "not shipped, or the same tree", &t); } } } } }
    }
    set("unsupported node below every node kind");
}

// ---- C02: quoting
fn lex_one(t: &str, q: char, backslash: bool) -> Option<String> {
    let c: Vec<char> = t.chars().collect();
    if c.len() < 2 || c[0] != q { return None; }
    let mut o = String::new();
    let mut i = 1;
    loop {
        if i >= c.len() { return None; }
        if c[i] == q { if i + 1 < c.len() && c[i + 1] == q { o.push(q); i += 2; continue; } return if i + 1 == c.len() { Some(o) } else { None }; }
        if backslash && c[i] == '\\' { if i + 1 >= c.len() { return None; } o.push(match c[i + 1] { 'n' => '\n', 't' => '\t', 'r' => '\r', '0' => '\0', 'b' => '\u{8}', 'Z' => '\u{1a}', x => x }); i += 2; continue; }
        o.push(c[i]); i += 1;
    }
}
fn check_ident(s: &str) {
    for d in DIALECTS {
        case();
        let q = if d == "mysql" { '`' } else { '"' };
        let e = Expr::Column(Column::new_unqualified(s));
        match guard(|| ship(&e, d)) { Ok(Ok(t)) => if lex_one(&t, q, false).as_deref() != Some(s) { violation("ident", &format!("{d}: column {s:?}"), "one quoted identifier that reads back as the name", &t); }, o => violation("ident", &format!("{d}: column {s:?}"), "a quoted identifier", &format!("{o:?}")) }
    }
    case();
    for (t, q) in [(quote_identifier_double_quotes(s), '"'), (quote_identifier_backticks(s), '`')] { if lex_one(&t, q, false).as_deref() != Some(s) { violation("ident", &format!("name {s:?}"), "one quoted identifier that reads back as the name", &t); } }
}
fn check_str(s: &str) {
    for d in DIALECTS {
        for v in [ScalarValue::Utf8(Some(s.into())), ScalarValue::LargeUtf8(Some(s.into())), ScalarValue::Utf8View(Some(s.into()))] {
            case();
            let e = Expr::Literal(v.clone());
            match guard(|| ship(&e, d)) {
                Ok(Ok(t)) => {
                    let modes: &[bool] = if d == "mysql" { &[false, true] } else { &[false] };
                    for m in modes { if lex_one(&t, '\'', *m).as_deref() != Some(s) { violation("string", &format!("{d}: {v:?} (backslash escapes: {m})"), "one string literal that reads back as the value", &t); } }
                }
                Ok(Err(_)) => if !(d == "mysql" && s.contains('\\')) && !matches!(v, ScalarValue::Utf8View(_)) { violation("string", &format!("{d}: {v:?}"), "a string literal", "not shipped"); },
                Err(p) => violation("panic", &format!("{d}: {v:?}"), "a string literal", &p),
            }
        }
    }
}
fn c02() {
    let al = ['\'', '"', '`', '\\', 'a', ' ', ';', '-', '\n', 'é', '\0', '%'];
    for a in al { for b in al { for c in al { for s in [format!("{a}"), format!("{a}{b}"), format!("{a}{b}{c}")] { check_ident(&s); check_str(&s); } } } }
    check_ident(""); check_str("");
    set("all strings of length 0..3 over 12 characters including every quote character");
    let mut r = Rng::new(seed());
    for _ in 0..if thorough() { 100_000 } else { 5_000 } { let s = r.string(&al, 24); check_ident(&s); check_str(&s); }
    set("random strings up to 24 characters");
}

// ---- C03: operators and literals
fn c03() {
    for o in OPS { for d in DIALECTS {
        case();
        let e = Expr::BinaryExpr(BinaryExpr::new(Box::new(col("a")), o, Box::new(col("b"))));
        let q = if d == "mysql" { '`' } else { '"' };
        match (guard(|| ship(&e, d)), op_table(d, &o)) {
            (Ok(Ok(t)), Some(w)) => { let want = format!("{q}a{q} {w} {q}b{q}"); if t != want && t != want.replace("!=", "<>") { violation("operator", &format!("{d}: {e}"), &want, &t); } }
            (Ok(Ok(t)), None) => violation("operator", &format!("{d}: {e}"), "not shipped: the dialect has no such operator", &t),
            (Ok(Err(_)), _) => {}
            (Err(p), _) => violation("panic", &format!("{d}: {e}"), "", &p),
        }
    } }
    set("every operator in every dialect");
    let f = |v: ScalarValue, want: Option<String>| for d in DIALECTS {
        case();
        match (guard(|| ship(&Expr::Literal(v.clone()), d)), &want) {
            (Ok(Ok(t)), Some(w)) => if t != *w && !(w.parse::<f64>().is_ok() && t.parse::<f64>().is_ok() && w.parse::<f64>() == t.parse::<f64>()) { violation("literal", &format!("{d}: {v:?}"), w, &t); },
            (Ok(Ok(t)), None) => violation("literal", &format!("{d}: {v:?}"), "not shipped: no exact literal", &t),
            (Ok(Err(_)), _) => {}
            (Err(p), _) => violation("panic", &format!("{d}: {v:?}"), "", &p),
        }
    };
    let mut r = Rng::new(seed() + 7);
    let n = if thorough() { 20_000 } else { 1_000 };
    let ints: Vec<i64> = (0..n).map(|i| match i { 0 => 0, 1 => i64::MIN, 2 => i64::MAX, 3 => -1, 4 => 1, _ => (r.next() as i64) >> r.below(63) }).collect();
    for &i in &ints {
        f(ScalarValue::Int64(Some(i)), Some(i.to_string())); f(ScalarValue::Int32(Some(i as i32)), Some((i as i32).to_string())); f(ScalarValue::Int16(Some(i as i16)), Some((i as i16).to_string())); f(ScalarValue::Int8(Some(i as i8)), Some((i as i8).to_string()));
        f(ScalarValue::UInt64(Some(i as u64)), Some((i as u64).to_string())); f(ScalarValue::UInt32(Some(i as u32)), Some((i as u32).to_string())); f(ScalarValue::UInt16(Some(i as u16)), Some((i as u16).to_string())); f(ScalarValue::UInt8(Some(i as u8)), Some((i as u8).to_string()));
        let x = f64::from_bits(i as u64 ^ 0x4000_0000_0000_0000); f(ScalarValue::Float64(Some(x)), if x.is_finite() { Some(x.to_string()) } else { None });
        let x = f32::from_bits(i as u32); f(ScalarValue::Float32(Some(x)), if x.is_finite() { Some(x.to_string()) } else { None });
    }
    for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] { f(ScalarValue::Float64(Some(x)), None); f(ScalarValue::Float32(Some(x as f32)), None); }
    for b in [true, false] { f(ScalarValue::Boolean(Some(b)), Some(b.to_string())); }
    f(ScalarValue::Null, Some("NULL".into()));
    for v in [ScalarValue::Boolean(None), ScalarValue::Int64(None), ScalarValue::Int32(None), ScalarValue::Int16(None), ScalarValue::Int8(None), ScalarValue::UInt64(None), ScalarValue::UInt32(None), ScalarValue::UInt16(None), ScalarValue::UInt8(None), ScalarValue::Float64(None), ScalarValue::Float32(None), ScalarValue::Utf8(None), ScalarValue::LargeUtf8(None), ScalarValue::Utf8View(None), ScalarValue::Date32(None), ScalarValue::Date64(None), ScalarValue::TimestampSecond(None, None)] { f(v, Some("NULL".into())); }
    // dates and timestamps, over the range chrono can represent in four-digit years
    use datafusion::arrow::temporal_conversions as tc;
    for _ in 0..n {
        let days = r.below(2_932_000) as i32 - 719_000;
        let dt = chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::Duration::days(days as i64);
        f(ScalarValue::Date32(Some(days)), Some(format!("'{}'", dt.format("%Y-%m-%d"))));
        let s = days as i64 * 86400 + r.below(86400) as i64;
        let full = |s: i64, ns: u32| { let t = chrono::DateTime::from_timestamp(s, ns).unwrap().naive_utc(); format!("'{}'", t) };
        let ms = r.below(1000) as i64; let us = r.below(1_000_000) as i64;
        f(ScalarValue::TimestampSecond(Some(s), None), Some(full(s, 0)));
        f(ScalarValue::TimestampMillisecond(Some(s * 1000 + ms), None), Some(full(s, ms as u32 * 1_000_000)));
        f(ScalarValue::Date64(Some(s * 1000 + ms)), Some(full(s, ms as u32 * 1_000_000)));
        f(ScalarValue::TimestampMicrosecond(Some(s * 1_000_000 + us), None), Some(full(s, us as u32 * 1000)));
        if s.abs() < 9_000_000_000 { let nn = r.below(1_000_000_000) as i64; f(ScalarValue::TimestampNanosecond(Some(s * 1_000_000_000 + nn), None), Some(full(s, nn as u32))); }
        let tz: Option<std::sync::Arc<str>> = Some((*r.pick(&["UTC", "Z", "", "+00:00", "+02:00", "-05:00", "+14:00", "Europe/Berlin", "GMT", "utc"])).into());
        for v in [ScalarValue::TimestampSecond(Some(s), tz.clone()), ScalarValue::TimestampMillisecond(Some(s), tz.clone()), ScalarValue::TimestampMicrosecond(Some(s), tz.clone()), ScalarValue::TimestampNanosecond(Some(s), tz.clone())] { f(v, None); }
    }
    // types without an exact literal
    for v in [ScalarValue::Decimal128(Some(12345), 10, 2), ScalarValue::Binary(Some(vec![1, 39, 2])), ScalarValue::LargeBinary(Some(vec![39])), ScalarValue::FixedSizeBinary(1, Some(vec![39])), ScalarValue::Time32Second(Some(5)), ScalarValue::Time32Millisecond(Some(5)), ScalarValue::Time64Microsecond(Some(5)), ScalarValue::Time64Nanosecond(Some(5)), ScalarValue::IntervalYearMonth(Some(5)), ScalarValue::DurationSecond(Some(5)), ScalarValue::Dictionary(Box::new(datafusion::arrow::datatypes::DataType::Int8), Box::new(ScalarValue::Utf8(Some("x' OR '1'='1".into())))), ScalarValue::BinaryView(Some(vec![1]))] { f(v, None); }
    set("literals: integers, floats, booleans, NULLs, dates, timestamps and types without a literal form");
    let _ = tc::date32_to_datetime(0);
}
fn main() {
    match prop().as_str() { "c01" => c01(), "c02" => c02(), "c03" => c03(), p => panic!("{p}") }
    done();
}
