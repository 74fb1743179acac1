//! The rewrite rules. Each application is recorded in the notes of the function, and the notes end
//! up in the evidence ("what the extraction drops or rewrites").
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr};
use crate::last_seg;

pub type Helpers = BTreeMap<String, syn::ImplItemFn>;

/// free functions and methods of the file, by name, for inlining helpers that carry no contract
pub fn helper_table(f: &syn::File) -> Helpers {
    let mut t = Helpers::new();
    let mut dup = BTreeSet::new();
    fn walk(its: &[syn::Item], t: &mut Helpers, dup: &mut BTreeSet<String>) {
        for i in its {
            match i {
                syn::Item::Fn(f) => {
                    let n = f.sig.ident.to_string();
                    let v = syn::ImplItemFn { attrs: vec![], vis: syn::Visibility::Inherited, defaultness: None, sig: f.sig.clone(), block: (*f.block).clone() };
                    if t.insert(n.clone(), v).is_some() { dup.insert(n); }
                }
                syn::Item::Impl(im) => for x in &im.items {
                    if let syn::ImplItem::Fn(f) = x {
                        let n = f.sig.ident.to_string();
                        if t.insert(n.clone(), f.clone()).is_some() { dup.insert(n); }
                    }
                },
                syn::Item::Mod(m) => {
                    if m.attrs.iter().any(|a| quote!(#a).to_string().contains("test")) { continue; }
                    if let Some((_, c)) = &m.content { walk(c, t, dup); }
                }
                _ => {}
            }
        }
    }
    walk(&f.items, &mut t, &mut dup);
    for d in dup { t.remove(&d); }
    t
}

struct Rw<'a> {
    notes: BTreeSet<String>,
    err: Option<String>,
    loops: usize,
    renames: BTreeMap<String, String>,
    types: Vec<(String, String)>,
    methods: BTreeMap<String, String>,
    drops: BTreeSet<String>,
    optmap: bool,
    calls: BTreeMap<String, String>,
    arrvec: bool,
    slicemut: bool,
    inline: bool,
    refnames: BTreeSet<String>,
    chainm: Vec<(String, String)>,
    unused: BTreeSet<String>,
    forlabel: Option<syn::Label>,
    forchain: bool,
    vars: BTreeMap<String, String>,
    resmap: bool,
    streq: bool,
    tryto: Option<String>,
    resof: BTreeSet<String>,
    closures: BTreeMap<String, (Vec<String>, String)>,
    plainclo: usize,
    ctx: Vec<String>,
    used: BTreeSet<String>,
    nclosures: usize,
    clotext: BTreeMap<usize, String>,
    known: BTreeSet<String>,
    helpers: &'a Helpers,
    depth: usize,
    sql: &'a [(String, String)],
    lift: Vec<String>,
    split: BTreeSet<String>,
    dropstmts: Vec<String>,
    index: std::collections::HashMap<String, String>,
    world: bool,
    paths: BTreeMap<String, String>,
}

fn norm(t: &impl ToTokens) -> String { t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("") }

const LOG: &[&str] = &["debug", "info", "warn", "error", "trace", "event", "describe_counter", "describe_gauge"];

/// runs of white space become one space
pub fn squeeze(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { if c.is_whitespace() { if !o.ends_with(' ') { o.push(' ') } } else { o.push(c) } }
    o
}
fn is_sql(s: &str) -> bool {
    let u: Vec<String> = s.split(|c: char| !c.is_ascii_alphabetic()).map(|w| w.to_string()).collect();
    ["SELECT", "INSERT", "UPDATE", "DELETE", "WHERE", "RETURNING", "CONFLICT", "ORDER", "LIMIT", "JOIN", "FROM", "AND", "VALUES"].iter().any(|k| u.iter().any(|w| w == k))
}

fn split_fmt(s: &str) -> Result<Vec<(bool, String)>, String> {
    // (is_arg, text)
    let mut v = vec![];
    let mut lit = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => { it.next(); lit.push('{'); }
            '}' if it.peek() == Some(&'}') => { it.next(); lit.push('}'); }
            '{' => {
                if !lit.is_empty() { v.push((false, std::mem::take(&mut lit))); }
                let mut a = String::new();
                loop { match it.next() { Some('}') => break, Some(x) => a.push(x), None => return Err("bad format string".into()) } }
                v.push((true, a));
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() { v.push((false, lit)); }
    Ok(v)
}

fn fmt_expr(ts: TokenStream) -> Result<Expr, String> {
    use syn::parse::Parser;
    let args = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(ts).map_err(|e| format!("format!: {e}"))?;
    let mut it = args.into_iter();
    let fs = match it.next() { Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(), _ => return Err("format! without a literal format string".into()) };
    let mut pos = vec![];
    let mut named: BTreeMap<String, Expr> = BTreeMap::new();
    for e in it { if let Expr::Assign(a) = &e { named.insert(norm(&a.left), (*a.right).clone()); } else { pos.push(e); } }
    let mut next = 0usize;
    let mut pieces: Vec<Expr> = vec![];
    for (is_arg, t) in split_fmt(&fs)? {
        if !is_arg { pieces.push(parse_quote!(rx_lit(#t))); continue; }
        let (n, spec) = match t.split_once(':') { Some((a, b)) => (a.trim().to_string(), b.to_string()), None => (t.trim().to_string(), String::new()) };
        let e: Expr = if n.is_empty() { next += 1; pos.get(next - 1).cloned().ok_or("format!: missing argument")? }
            else if let Ok(k) = n.parse::<usize>() { pos.get(k).cloned().ok_or("format!: missing argument")? }
            else if let Some(x) = named.get(&n) { x.clone() }
            else { let id: syn::Ident = syn::parse_str(&n).map_err(|e| e.to_string())?; parse_quote!(#id) };
        match spec.as_str() {
            "" => pieces.push(parse_quote!(rx_disp(&(#e)))),
            "?" | "#?" => pieces.push(parse_quote!(rx_debug(&(#e)))),
            s if s.strip_prefix("0>").map_or(false, |n| n.parse::<usize>().is_ok()) => { let n: usize = s[2..].parse().unwrap(); pieces.push(parse_quote!(rx_pad0(&(#e), #n))); }
            s => return Err(format!("format!: unsupported spec {{:{s}}}")),
        }
    }
    let mut r: Expr = match pieces.first() { None => return Ok(parse_quote!(rx_lit(""))), Some(p) => p.clone() };
    for p in pieces.into_iter().skip(1) { r = parse_quote!(rx_cat(#r, #p)); }
    Ok(r)
}

// the names that a pattern binds as references into what is matched: `match &mut X { P(a, ref mut b) => .. }`
struct RefNames(BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for RefNames {
    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        if matches!(&*m.expr, Expr::Reference(r) if r.mutability.is_some()) { for a in &m.arms { let mut b = Binds(vec![]); syn::visit::Visit::visit_pat(&mut b, &a.pat); self.0.extend(b.0); } }
        syn::visit::visit_expr_match(self, m)
    }
}
struct Binds(Vec<String>);
impl<'a> syn::visit::Visit<'a> for Binds { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.push(p.ident.to_string()); syn::visit::visit_pat_ident(self, p) } }
struct HasJump(bool);
impl<'a> syn::visit::Visit<'a> for HasJump {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e { Expr::Return(_) | Expr::Try(_) => self.0 = true, Expr::Closure(_) => return, _ => {} }
        syn::visit::visit_expr(self, e)
    }
}

fn chain(e: &Expr, out: &mut Vec<Expr>) {
    if let Expr::Binary(b) = e { if matches!(b.op, syn::BinOp::And(_)) { chain(&b.left, out); chain(&b.right, out); return; } }
    if let Expr::Paren(p) = e { if has_let(&p.expr) { chain(&p.expr, out); return; } }
    out.push(e.clone());
}
fn has_let(e: &Expr) -> bool {
    match e { Expr::Let(_) => true, Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => has_let(&b.left) || has_let(&b.right), _ => false }
}

fn lit_pat(p: &syn::Pat) -> bool {
    match p { syn::Pat::Lit(l) => matches!(l.lit, syn::Lit::Str(_)), syn::Pat::Or(o) => o.cases.iter().all(lit_pat), _ => false }
}
/// X.iter_mut() or X.iter_mut().filter(|i| C)
fn iter_mut_base(e: &Expr) -> Option<(Expr, Option<(syn::Pat, Expr)>)> {
    if let Expr::MethodCall(m) = e {
        if m.method == "iter_mut" && m.args.is_empty() { return Some(((*m.receiver).clone(), None)); }
        if m.method == "filter" { if let Expr::MethodCall(i) = &*m.receiver { if i.method == "iter_mut" && i.args.is_empty() { if let Some((Some(p), b)) = closure1(&m.args[0]) { return Some(((*i.receiver).clone(), Some((p, b)))); } } } }
    }
    None
}
/// a pattern for which `match X { P => A, _ => B }` needs no reachability care
fn closure1(e: &Expr) -> Option<(Option<syn::Pat>, Expr)> {
    if let Expr::Closure(c) = e {
        let p = match c.inputs.len() { 0 => None, 1 => Some(match c.inputs[0].clone() { syn::Pat::Type(t) => (*t.pat).clone(), p => p }), _ => return None };
        return Some((p, (*c.body).clone()));
    }
    None
}

/// `let f = |p: T| -> R B; .. f(a) ..`  ->  `.. { let p: T = a; let __ret: R = B; __ret } ..`
/// (the closure's body is evaluated at each call; nothing it mentions is rebound between its definition and the call)
fn inline_closures(b: &mut syn::Block) -> Result<usize, String> {
    let (mut i, mut done) = (0, 0);
    while i < b.stmts.len() {
        let found = match &b.stmts[i] {
            syn::Stmt::Local(l) => match (&l.pat, &l.init) {
                (syn::Pat::Ident(id), Some(init)) if init.diverge.is_none() => match &*init.expr { Expr::Closure(c) => Some((id.ident.clone(), c.clone())), _ => None },
                _ => None,
            },
            _ => None,
        };
        let Some((name, c)) = found else { i += 1; continue };
        let mut j = HasJump(false); syn::visit::Visit::visit_expr(&mut j, &c.body);
        if j.0 { return Err(format!("local closure `{name}` jumps")); }
        struct Ids(BTreeSet<String>);
        impl<'a> syn::visit::Visit<'a> for Ids { fn visit_expr_path(&mut self, p: &'a syn::ExprPath) { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } } }
        let mut ids = Ids(BTreeSet::new()); syn::visit::Visit::visit_expr(&mut ids, &c.body);
        struct Sub<'a> { name: &'a proc_macro2::Ident, c: &'a syn::ExprClosure, n: usize, bad: Option<String> }
        impl<'a> VisitMut for Sub<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Call(k) = e { if norm(&k.func) == self.name.to_string() {
                    for a in k.args.iter_mut() { self.visit_expr_mut(a); }
                    if k.args.len() != self.c.inputs.len() { self.bad = Some("arity".into()); return; }
                    let mut lets: Vec<syn::Stmt> = vec![];
                    for (p, a) in self.c.inputs.iter().zip(k.args.iter()) { lets.push(parse_quote!(let #p = #a;)); }
                    let mut body = (*self.c.body).clone();
                    let x: Expr = match &self.c.output {
                        syn::ReturnType::Type(_, t) => { let mut tail = &mut body; loop { match tail {
                                Expr::Block(bl) => match bl.block.stmts.last_mut() { Some(syn::Stmt::Expr(x, None)) => { tail = x; } _ => break },
                                Expr::MethodCall(m) => { if m.method == "unzip" && m.turbofish.is_none() { m.turbofish = Some(parse_quote!(::<#t>)); } break; }
                                _ => break } }
                            parse_quote!({ #(#lets)* let __ret: #t = #body; __ret }) }
                        _ => parse_quote!({ #(#lets)* #body }),
                    };
                    *e = x; self.n += 1; return;
                } }
                // handed to an adapter by name: the closure itself
                if let Expr::MethodCall(m) = e { if matches!(m.method.to_string().as_str(), "map" | "filter" | "filter_map" | "for_each" | "any" | "all") && m.args.len() == 1 && norm(&m.args[0]) == self.name.to_string() {
                    self.visit_expr_mut(&mut m.receiver);
                    m.args[0] = Expr::Closure(self.c.clone()); self.n += 1; return;
                } }
                if norm(e) == self.name.to_string() { self.bad = Some(format!("local closure `{}` used other than in a call", self.name)); return; }
                visit_mut::visit_expr_mut(self, e)
            }
        }
        struct Pats(BTreeSet<String>);
        impl<'a> syn::visit::Visit<'a> for Pats { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.insert(p.ident.to_string()); } }
        let mut own = Pats(BTreeSet::new());
        syn::visit::Visit::visit_expr_closure(&mut own, &c);
        struct Calls<'a>(&'a proc_macro2::Ident, bool);
        impl<'a, 'b> syn::visit::Visit<'b> for Calls<'a> { fn visit_ident(&mut self, i: &'b proc_macro2::Ident) { if i == self.0 { self.1 = true; } } }
        if let Some(lastuse) = (i + 1..b.stmts.len()).rev().find(|k| { let mut x = Calls(&name, false); syn::visit::Visit::visit_stmt(&mut x, &b.stmts[*k]); x.1 }) {
            for k in i + 1..=lastuse {
                let mut ps = Pats(BTreeSet::new());
                if k < lastuse || !matches!(b.stmts[k], syn::Stmt::Local(_)) { syn::visit::Visit::visit_stmt(&mut ps, &b.stmts[k]); }
                if let Some(x) = ps.0.iter().find(|x| ids.0.contains(*x) && !own.0.contains(*x) && !x.starts_with(char::is_uppercase)) { return Err(format!("local closure `{name}`: `{x}` is rebound before its last call")); }
            }
        }
        let mut bad = None;
        for k in i + 1..b.stmts.len() {
            let mut s = Sub { name: &name, c: &c, n: 0, bad: None };
            s.visit_stmt_mut(&mut b.stmts[k]);
            if s.bad.is_some() { bad = s.bad; }
        }
        if let Some(m) = bad { return Err(m); }
        b.stmts.remove(i); done += 1;
    }
    Ok(done)
}

/// a call on one of the receivers listed under //@dropstmts, or a for_each over nothing else
fn dropped_stmt(s: &syn::Stmt, pre: &[String]) -> bool {
    fn only(e: &Expr, pre: &[String]) -> bool {
        match e {
            Expr::MethodCall(m) if m.method == "for_each" => match closure1(&m.args[0]) { Some((_, b)) => only(&b, pre), None => false },
            Expr::MethodCall(m) => { let n = norm(&m.receiver); pre.iter().any(|p| n == *p || n.starts_with(&format!("{p}."))) }
            Expr::Block(b) => !b.block.stmts.is_empty() && b.block.stmts.iter().all(|s| dropped_stmt(s, pre)),
            _ => false,
        }
    }
    matches!(s, syn::Stmt::Expr(e, Some(_)) if only(e, pre))
}
impl<'a> Rw<'a> {
    fn fail(&mut self, m: String) { if self.err.is_none() { self.err = Some(m); } }
    fn note(&mut self, m: &str) { self.notes.insert(m.to_string()); }
    fn mac(&mut self, m: &syn::Macro) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if LOG.contains(&n.as_str()) || self.drops.contains(&n) { self.note(&format!("dropped {n}! (logging/metrics)")); return Some(parse_quote!({})); }
        match n.as_str() {
            "format" => { self.note("format! -> rx_cat/rx_lit/rx_disp"); match fmt_expr(m.tokens.clone()) { Ok(mut e) => { self.visit_expr_mut(&mut e); Some(e) } Err(e) => { self.fail(e); None } } }
            "write" if m.tokens.clone().into_iter().nth(1).map(|t| t.to_string()) == Some(",".into()) => {
                let mut it = m.tokens.clone().into_iter();
                let dst = it.next().unwrap(); it.next();
                self.note("write!(f, ..) -> rx_write(f, format!(..))");
                match fmt_expr(it.collect()) { Ok(mut e) => { self.visit_expr_mut(&mut e); Some(parse_quote!(rx_write(#dst, #e))) } Err(e) => { self.fail(e); None } }
            }
            "not_impl_err" | "plan_err" | "exec_err" | "internal_err" | "sql_err" | "parser_err" => { self.note(&format!("{n}!(..) -> Err(rx_err())")); Some(parse_quote!(Err(rx_err()))) }
            "panic" | "unreachable" | "todo" | "unimplemented" => { self.note(&format!("{n}! -> rx_panic()")); Some(parse_quote!(rx_panic())) }
            "vec" => {
                use syn::parse::Parser;
                if let Ok(args) = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()) {
                    let mut v: Vec<Expr> = args.into_iter().collect();
                    for e in v.iter_mut() { self.visit_expr_mut(e); }
                    return Some(parse_quote!(vec![#(#v),*]));
                }
                let ts = m.tokens.clone();
                let arr: syn::ExprRepeat = match syn::parse2(quote!([#ts])) { Ok(a) => a, Err(e) => { self.fail(format!("vec!: {e}")); return None; } };
                let (mut a, mut b) = ((*arr.expr).clone(), (*arr.len).clone());
                self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                self.note("vec![x; n] -> rx_vec_repeat");
                Some(parse_quote!(rx_vec_repeat(#a, #b)))
            }
            "env" => { let t = m.tokens.clone(); self.note("env!(..) -> a text fixed at compile time"); Some(parse_quote!(rx_env(#t))) }
            "matches" => {
                // matches!(e, p) / matches!(e, p if g)
                let r = (|| -> syn::Result<(Expr, syn::Pat, Option<Expr>)> {
                    use syn::parse::{ParseStream, Parser};
                    (|i: ParseStream| { let e: Expr = i.parse()?; i.parse::<syn::Token![,]>()?; let p = syn::Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(syn::Token![if]) { i.parse::<syn::Token![if]>()?; Some(i.parse::<Expr>()?) } else { None }; let _ = i.parse::<Option<syn::Token![,]>>()?; Ok((e, p, g)) }).parse2(m.tokens.clone())
                })();
                match r {
                    Ok((mut e, p, g)) => { self.visit_expr_mut(&mut e); let p = p; let g = g.map(|mut g| { self.visit_expr_mut(&mut g); g });
                        let mut x: Expr = match g { Some(g) => parse_quote!(match #e { #p => #g, _ => false }), None => parse_quote!(match #e { #p => true, _ => false }) };
                        if let Expr::Match(mm) = &mut x { for a in mm.arms.iter_mut() { self.visit_pat_mut(&mut a.pat); } }
                        Some(x) }
                    Err(e) => { self.fail(format!("matches!: {e}")); None }
                }
            }
            "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" => {
                use syn::parse::Parser;
                let v: Vec<Expr> = match syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()) { Ok(a) => a.into_iter().collect(), Err(e) => { self.fail(format!("{n}!: {e}")); return None; } };
                let mut x: Expr = { let a = &v[0]; match n.as_str() { "assert" | "debug_assert" => parse_quote!(rx_check(#a)), "assert_ne" => { let b = &v[1]; parse_quote!(rx_check(#a != #b)) } _ => { let b = &v[1]; parse_quote!(rx_check(#a == #b)) } } };
                self.note(&format!("{n}!(..) -> rx_check (the condition must be provable)"));
                self.visit_expr_mut(&mut x);
                Some(x)
            }
            "write" | "writeln" | "counter" | "gauge" | "__rx_contract" | "__rx_loop" | "__rx_tail" | "__rx_closure" => None,
            _ => None,
        }
    }
    /// an iterator chain `base.iter().map(..)....terminal(..)`: (iterated expression, stages, terminal last)
    fn chain_of(&self, mc: &syn::ExprMethodCall) -> Option<(Expr, Vec<syn::ExprMethodCall>)> {
        const TERM: &[&str] = &["any", "all", "find", "find_map", "position", "count", "for_each", "collect", "max_by_key", "fold", "reduce", "unzip", "__for"];
        const ADAPT: &[&str] = &["map", "filter", "filter_map", "enumerate", "cloned", "copied", "flat_map", "unique"];
        if !TERM.contains(&mc.method.to_string().as_str()) { return None; }
        let mut stages = vec![mc.clone()];
        let mut cur = (*mc.receiver).clone();
        loop {
            match cur {
                Expr::MethodCall(c) => {
                    let n = c.method.to_string();
                    if ADAPT.contains(&n.as_str()) { stages.push(c.clone()); cur = (*c.receiver).clone(); }
                    else if n == "zip" && c.args.len() == 1 && matches!(&*c.receiver, Expr::MethodCall(i) if (i.method == "iter" || i.method == "into_iter") && i.args.is_empty()) {
                        // A.iter().zip(B) over the common positions; B is a collection or C.iter()
                        stages.reverse();
                        let a: Expr = match &*c.receiver { Expr::MethodCall(i) => { let x = &i.receiver; if i.method == "iter" { parse_quote!(&(#x)) } else { parse_quote!(#x) } } _ => return None };
                        let b: Expr = match &c.args[0] { Expr::MethodCall(j) if j.method == "iter" && j.args.is_empty() => { let x = &j.receiver; parse_quote!(&(#x)) } Expr::MethodCall(j) if ADAPT.contains(&j.method.to_string().as_str()) => return None, x => x.clone() };
                        return Some((parse_quote!(RxZip { a: #a, b: #b }), stages));
                    }
                    else if n == "rev" && c.args.is_empty() && matches!(&*c.receiver, Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty()) {
                        stages.reverse();
                        let b = match &*c.receiver { Expr::MethodCall(i) => &i.receiver, _ => return None };
                        return Some((parse_quote!(RxRev { c: &(#b) }), stages));
                    }
                    else if (n == "iter" || n == "into_iter") && c.args.is_empty() {
                        stages.reverse();
                        let b = &c.receiver;
                        return Some((if n == "iter" { parse_quote!(&(#b)) } else { parse_quote!(#b) }, stages));
                    } else { return None; }
                }
                Expr::Paren(p) if self.forchain && matches!(&*p.expr, Expr::Range(_)) && stages.len() > 1 => { stages.reverse(); return Some(((*p.expr).clone(), stages)); }
                _ => return None,
            }
        }
    }
    fn desugar_chain(&mut self, base: Expr, stages: Vec<syn::ExprMethodCall>) -> Option<Expr> {
        let n = self.loops; self.loops += 1;
        let (acc, it, k, er) = (quote::format_ident!("__acc{}", n), quote::format_ident!("__it{}", n), quote::format_ident!("__k{}", n), quote::format_ident!("__err{}", n));
        let term = stages.last().unwrap().clone();
        let tn = term.method.to_string();
        let lab = self.forlabel.take();
        let collres = term.turbofish.as_ref().map(|t| norm(&t.args)).unwrap_or_default().replacen("datafusion_common::Result<", "Result<", 1).starts_with("Result<");
        let call = |c: &syn::ExprMethodCall, arg: Expr| -> Result<Expr, String> {
            let f = c.args.first().ok_or("adapter without argument")?;
            match closure1(f) {
                Some((Some(p), b)) => { let mut j = HasJump(false); syn::visit::Visit::visit_expr(&mut j, &b); let mut b = b; if j.0 {
                    struct T<'b>(&'b proc_macro2::Ident, bool);
                    impl<'b> VisitMut for T<'b> { fn visit_expr_mut(&mut self, e: &mut Expr) { match e { Expr::Closure(_) => return, Expr::Return(_) => { self.1 = true; } Expr::Try(_) => { visit_mut::visit_expr_mut(self, e); let er = self.0; if let Expr::Try(t) = e { let x = &t.expr; *e = parse_quote!((match #x { Ok(__v) => __v, Err(__e) => { #er = Some(rx_from_err(__e)); break; } })); } return; } _ => {} } visit_mut::visit_expr_mut(self, e) } }
                    let last = stages.len() >= 2 && *c == stages[stages.len() - 2];
                    if !(tn == "collect" && last && c.method == "map" && collres) { return Err(format!("closure of .{}() jumps", c.method)); }
                    let mut t = T(&er, false); t.visit_expr_mut(&mut b);
                    if t.1 { return Err(format!("closure of .{}() returns", c.method)); }
                } Ok(parse_quote!({ let #p = #arg; #b })) }
                Some((None, _)) => Err("closure without parameter".into()),
                None => Ok(parse_quote!(#f(#arg))),
            }
        };
        let mut init: Vec<syn::Stmt> = vec![];
        let mut fin: Expr = parse_quote!(#acc);
        let coll = term.turbofish.as_ref().map(|t| norm(&t.args)).unwrap_or_default().replacen("datafusion_common::Result<", "Result<", 1);
        let bad: Result<Expr, String> = (|| {
            let mut inner: Expr = match tn.as_str() {
                "any" => { init.push(parse_quote!(let mut #acc: bool = false;)); let b = call(&term, parse_quote!(__x))?; parse_quote!(if #b { #acc = true; break; }) }
                "all" => { init.push(parse_quote!(let mut #acc: bool = true;)); let b = call(&term, parse_quote!(__x))?; parse_quote!(if !(#b) { #acc = false; break; }) }
                "find" => { init.push(parse_quote!(let mut #acc = None;)); let b = call(&term, parse_quote!(&__x))?; parse_quote!(if #b { #acc = Some(__x); break; }) }
                "find_map" => { init.push(parse_quote!(let mut #acc = None;)); let b = call(&term, parse_quote!(__x))?; parse_quote!(match #b { Some(__r) => { #acc = Some(__r); break; } None => {} }) }
                "position" => { init.push(parse_quote!(let mut #acc: Option<usize> = None;)); init.push(parse_quote!(let mut #k: usize = 0;)); let b = call(&term, parse_quote!(__x))?; parse_quote!({ if #b { #acc = Some(#k); break; } #k += 1; }) }
                "count" => { init.push(parse_quote!(let mut #acc: usize = 0;)); parse_quote!({ #acc += 1; }) }
                "fold" => {
                    let a0 = &term.args[0]; init.push(parse_quote!(let mut #acc = #a0;));
                    match &term.args[1] { Expr::Closure(c) if c.inputs.len() == 2 => {
                        let mut j = HasJump(false); syn::visit::Visit::visit_expr(&mut j, &c.body); if j.0 { return Err("closure of .fold() jumps".into()); }
                        let (p0, p1, b) = (&c.inputs[0], &c.inputs[1], &c.body);
                        parse_quote!({ let #p0 = #acc; let #p1 = __x; #acc = #b; })
                    } _ => return Err("fold without a closure of two parameters".into()) } }
                "reduce" => {
                    init.push(parse_quote!(let mut #acc = None;));
                    match &term.args[0] { Expr::Closure(c) if c.inputs.len() == 2 => {
                        let mut j = HasJump(false); syn::visit::Visit::visit_expr(&mut j, &c.body); if j.0 { return Err("closure of .reduce() jumps".into()); }
                        let (p0, p1, b) = (&c.inputs[0], &c.inputs[1], &c.body);
                        parse_quote!({ match #acc { None => { #acc = Some(__x); } Some(__a) => { let #p0 = __a; let #p1 = __x; #acc = Some(#b); } } })
                    } _ => return Err("reduce without a closure of two parameters".into()) } }
                "max_by_key" => { let key = quote::format_ident!("__key{}", n); init.push(parse_quote!(let mut #acc = None;)); init.push(parse_quote!(let mut #key = None;)); let b = call(&term, parse_quote!(&__x))?;
                    parse_quote!({ let __kx = #b; let __better = match &#key { None => true, Some(__ko) => rx_ge(&__kx, __ko) }; if __better { #acc = Some(__x); #key = Some(__kx); } }) }
                "__for" => {
                    // the body of a `for` over an iterator chain: it may break and continue
                    if stages.iter().any(|c| c.method == "flat_map") { return Err("for over flat_map".into()); }
                    match closure1(&term.args[0]) { Some((Some(p), b)) => { fin = parse_quote!(()); parse_quote!({ let #p = __x; #b; __rx_tail!(#n); }) } _ => return Err("for".into()) } }
                "unzip" => {
                    // collects the parts of nested pairs, one Vec per leaf of the type of the result
                    let ty = match term.turbofish.as_ref().and_then(|t| t.args.first().cloned()) { Some(syn::GenericArgument::Type(t)) => t, _ => return Err("unzip without a known result type".into()) };
                    fn shape(t: &syn::Type, n: usize, leaves: &mut Vec<proc_macro2::Ident>, pat: &mut Vec<TokenStream>, out: &mut Vec<TokenStream>) {
                        match t { syn::Type::Tuple(t) => { let (mut ps, mut os) = (vec![], vec![]); for x in &t.elems { shape(x, n, leaves, &mut ps, &mut os); } pat.push(quote!((#(#ps),*))); out.push(quote!((#(#os),*))); }
                            _ => { let k = leaves.len(); let (a, l) = (quote::format_ident!("__acc{}_{}", n, k), quote::format_ident!("__l{}", k)); leaves.push(a.clone()); pat.push(quote!(#l)); out.push(quote!(#a)); } }
                    }
                    let (mut leaves, mut pat, mut out) = (vec![], vec![], vec![]);
                    shape(&ty, n, &mut leaves, &mut pat, &mut out);
                    for l in &leaves { init.push(parse_quote!(let mut #l = Vec::new();)); }
                    let (p, o) = (&pat[0], &out[0]);
                    let ls: Vec<_> = (0..leaves.len()).map(|k| quote::format_ident!("__l{}", k)).collect();
                    fin = parse_quote!(#o);
                    parse_quote!({ let #p = __x; #(#leaves.push(#ls);)* }) }
                "for_each" => { let b = call(&term, parse_quote!(__x))?; fin = parse_quote!(()); parse_quote!({ #b; __rx_tail!(#n); }) }
                _ => {
                    init.push(parse_quote!(let mut #acc = Vec::new();));
                    if coll.starts_with("Result<") {
                        init.push(parse_quote!(let mut #er = None;));
                        let tt = term.turbofish.as_ref().and_then(|t| t.args.first().cloned());
                        let ity = match &tt { Some(syn::GenericArgument::Type(syn::Type::Path(p))) => match &p.path.segments.last().unwrap().arguments { syn::PathArguments::AngleBracketed(a) => match a.args.first() { Some(syn::GenericArgument::Type(t)) => Some(t.clone()), _ => None }, _ => None }, _ => None };
                        let ns = ity.as_ref().map(|t| norm(t)).unwrap_or("_".into());
                        let conv: Expr = if ns == "_" || ns.starts_with("Vec") { parse_quote!(#acc) } else { let t = ity.unwrap(); parse_quote!({ let __c: #t = rx_from_vec(#acc); __c }) };
                        fin = parse_quote!((match #er { Some(__e) => Err(__e), None => Ok(#conv) }));
                        parse_quote!(match __x { Ok(__v) => { #acc.push(__v); } Err(__e) => { #er = Some(__e); break; } })
                    } else {
                        if !(coll.is_empty() || coll.starts_with("Vec<") || coll == "_") { let t = match term.turbofish.as_ref().and_then(|t| t.args.first().cloned()) { Some(syn::GenericArgument::Type(t)) => t, _ => return Err("collect type".into()) }; fin = parse_quote!({ let __c: #t = rx_from_vec(#acc); __c }); }
                        parse_quote!({ #acc.push(__x); })
                    }
                }
            };
            for c in stages[..stages.len() - 1].iter().rev() {
                inner = match c.method.to_string().as_str() {
                    "map" => { let b = call(c, parse_quote!(__x))?; parse_quote!({ let __x = #b; #inner }) }
                    "filter" => { let b = call(c, parse_quote!(&__x))?; parse_quote!({ if #b { #inner } }) }
                    "filter_map" => { let b = call(c, parse_quote!(__x))?; parse_quote!({ match #b { Some(__x) => { #inner } None => {} } }) }
                    "flat_map" => { if !matches!(tn.as_str(), "collect" | "for_each" | "count") || coll.starts_with("Result<") { return Err(format!("flat_map before {tn}")); } let b = call(c, parse_quote!(__x))?; parse_quote!({ for __x in #b { #inner } }) }
                    "unique" => { let seen = quote::format_ident!("__seen{}", n); init.push(parse_quote!(let mut #seen = rx_seen();)); parse_quote!({ if #seen.rx_first(&__x) { #inner } }) }
                    "enumerate" => { init.push(parse_quote!(let mut #k: usize = 0;)); parse_quote!({ let __x = (#k, __x); #k += 1; #inner }) }
                    _ => parse_quote!({ let __x = rx_clone(__x); #inner }),
                };
            }
            for st in init.iter_mut() {
                if let syn::Stmt::Local(l) = st { if let syn::Pat::Ident(i) = &l.pat { if let Some(t) = self.vars.get(&i.ident.to_string()) { let t: syn::Type = syn::parse_str(t).map_err(|e| e.to_string())?; let p = l.pat.clone(); l.pat = syn::Pat::Type(parse_quote!(#p: #t)); } } }
            }
            let mut base = base;
            if matches!(&base, Expr::Struct(_)) { let bn = quote::format_ident!("__b{}", n); init.push(parse_quote!(let #bn = #base;)); base = parse_quote!(#bn); }
            else if matches!(&base, Expr::Reference(r) if matches!(&*r.expr, Expr::Paren(p) if matches!(&*p.expr, Expr::MethodCall(_)))) { let bn = quote::format_ident!("__b{}", n); init.push(parse_quote!(let #bn = #base;)); base = parse_quote!(#bn); }
            Ok(parse_quote!({ #(#init)* let mut #it = rx_into_iter(#base); #lab loop { __rx_loop!(#n); match #it.rx_next() { None => { break; } Some(__x) => { #inner } } } #fin }))
        })();
        match bad { Ok(e) => { self.note(&format!("iterator chain ..{}() -> explicit loop", tn)); Some(e) } Err(e) => { self.fail(e); None } }
    }
    fn try_inline(&mut self, name: &str, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.known.contains(name) || self.depth > 4 { return None; }
        let h = self.helpers.get(name)?.clone();
        let mut j = HasJump(false);
        syn::visit::Visit::visit_block(&mut j, &h.block);
        if j.0 { self.fail(format!("helper `{name}` has no contract and cannot be inlined (early return)")); return None; }
        let plain = h.sig.generics.params.is_empty();
        let mut lets: Vec<syn::Stmt> = vec![];
        let mut ai = args.into_iter();
        for p in &h.sig.inputs {
            match p {
                syn::FnArg::Receiver(_) => { match &recv { Some(r) if norm(r) == "self" => {} _ => { self.fail(format!("helper method `{name}` without contract called on a receiver other than self")); return None; } } }
                syn::FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let pat = &t.pat; let ty = &t.ty;
                    if plain && !norm(ty).contains("impl") && !norm(ty).contains("'") { lets.push(parse_quote!(let #pat: #ty = #a;)); } else { lets.push(parse_quote!(let #pat = #a;)); }
                }
            }
        }
        let body = &h.block;
        self.note(&format!("helper `{name}` (no contract of its own) inlined at the call"));
        let ret: Expr = match &h.sig.output { syn::ReturnType::Type(_, t) if plain && !norm(t).contains("'") && !norm(t).contains("impl") => parse_quote!({ #(#lets)* let __rx_ret: #t = #body; __rx_ret }), _ => parse_quote!({ #(#lets)* #body }) };
        let mut e = ret;
        self.depth += 1;
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        Some(e)
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear(); }
    fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
        if let Some(n) = self.renames.get(&i.to_string()) { *i = proc_macro2::Ident::new(n, i.span()); }
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        let n = norm(t);
        for (a, b) in &self.types { if *a == n { *t = syn::parse_str(b).unwrap_or_else(|e| panic!("type `{b}`: {e}")); return; } }
        visit_mut::visit_type_mut(self, t)
    }
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        if let syn::Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac) { let semi = m.semi_token; *s = syn::Stmt::Expr(e, semi); return; }
        }
        if let syn::Stmt::Local(syn::Local { pat: syn::Pat::Type(t), init: Some(i), .. }) = s { if let Expr::MethodCall(m) = &mut *i.expr { if m.method == "unzip" && m.turbofish.is_none() { let ty = &t.ty; m.turbofish = Some(parse_quote!(::<#ty>)); } } }
        visit_mut::visit_stmt_mut(self, s)
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        if !self.vars.is_empty() { for st in b.stmts.iter_mut() {
            if let syn::Stmt::Local(l) = st { if let syn::Pat::Ident(i) = &l.pat { if let Some(t) = self.vars.get(&i.ident.to_string()).and_then(|t| syn::parse_str::<syn::Type>(t).ok()) { let p = l.pat.clone(); l.pat = syn::Pat::Type(parse_quote!(#p: #t)); } } }
        } }
        // `use` inside a body is dropped
        if b.stmts.iter().any(|s| matches!(s, syn::Stmt::Item(syn::Item::Struct(_)))) { self.note("struct declared inside the body extracted on its own"); }
        b.stmts.retain(|s| !matches!(s, syn::Stmt::Item(syn::Item::Use(_)) | syn::Stmt::Item(syn::Item::Struct(_))));
        if !self.dropstmts.is_empty() {
            let pre = self.dropstmts.clone();
            let n0 = b.stmts.len();
            b.stmts.retain(|s| !dropped_stmt(s, &pre));
            if b.stmts.len() != n0 { self.note(&format!("statements on {} dropped, with their arguments", pre.join(", "))); }
        }
        for st in &b.stmts { if let syn::Stmt::Expr(Expr::MethodCall(mc), Some(_)) = st { if mc.method == "or_insert" { self.unused.insert(norm(mc)); } } }
        if self.inline { match inline_closures(b) { Err(m) => { self.fail(m); return; } Ok(0) => {} Ok(_) => self.note("local closures inlined at their calls") } }
        if !self.split.is_empty() {
            let mut out = vec![];
            for s in b.stmts.drain(..) {
                if let syn::Stmt::Expr(Expr::MethodCall(mc), semi) = &s {
                    let mut calls = vec![mc.clone()]; let mut cur = (*mc.receiver).clone();
                    while let Expr::MethodCall(c) = &cur { if self.split.contains(&c.method.to_string()) { calls.push(c.clone()); cur = (*c.receiver).clone(); } else { break; } }
                    if self.split.contains(&mc.method.to_string()) && matches!(cur, Expr::Path(_)) && semi.is_some() {
                        for mut c in calls.into_iter().rev() { c.receiver = Box::new(cur.clone()); out.push(syn::Stmt::Expr(Expr::MethodCall(c), Some(Default::default()))); }
                        self.note("x.m(a).m(b) -> x.m(a); x.m(b) (m returns its receiver)");
                        continue;
                    }
                }
                out.push(s);
            }
            b.stmts = out;
        }
        visit_mut::visit_block_mut(self, b)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // the block is extracted as a function of its own, over the variables it captures
        if matches!(e, Expr::Async(_)) && !self.lift.is_empty() {
            let c = self.lift.remove(0);
            match syn::parse_str::<Expr>(&c) { Ok(x) => { self.note("async block -> a call of the function extracted from it (run at its creation)"); *e = x; } Err(x) => self.fail(format!("lift: {x}")) }
            return;
        }
        // X.m(R, f) that is X.k(R) mapped by f
        if let Expr::MethodCall(m) = e { if let Some((_, k)) = self.chainm.iter().find(|x| m.method == x.0.as_str()) { if m.args.len() == 2 && matches!(m.args[1], Expr::Closure(_)) {
            let (x, a, f, k) = (&m.receiver, &m.args[0], &m.args[1], quote::format_ident!("{}", k));
            let y: Expr = parse_quote!(#x.#k(#a).into_iter().map(#f).collect::<Vec<_>>());
            self.notes.insert("X.map_columns(role, f) -> the columns of the role mapped by f".into()); *e = y; } } }
        // CHAIN.chain(once(x)).collect()
        if let Expr::MethodCall(m) = e { if m.method == "collect" { if let Expr::MethodCall(c) = &*m.receiver { if c.method == "chain" && c.args.len() == 1 { if let Expr::Call(o) = &c.args[0] { if matches!(norm(&o.func).as_str(), "once" | "std::iter::once" | "iter::once") && o.args.len() == 1 {
            let (x, v) = (&c.receiver, &o.args[0]);
            let y: Expr = parse_quote!({ let mut __c = #x.collect::<Vec<_>>(); __c.push(#v); __c });
            self.notes.insert(".chain(once(x)).collect() -> collect, push".into()); *e = y; } } } } } }
        if self.err.is_some() { return; }
        // whole-expression rewrites (before descending)
        if let Expr::If(i) = e {
            if has_let(&i.cond) && !matches!(&*i.cond, Expr::Let(_)) {
                let mut cs = vec![]; chain(&i.cond, &mut cs);
                let els = i.else_branch.clone().map(|(_, x)| *x);
                let mut body: Expr = { let b = &i.then_branch; parse_quote!(#b) };
                for c in cs.into_iter().rev() {
                    let blk: syn::Block = match body { Expr::Block(b) => b.block, o => parse_quote!({ #o }) };
                    body = match &els { Some(x) => parse_quote!(if #c #blk else { #x }), None => parse_quote!(if #c #blk) };
                }
                self.note("let-chain -> nested ifs");
                *e = body;
            }
        }
        // if let [P, ..] = &X[..]  ->  length test and element patterns
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond { if let syn::Pat::Slice(ps) = &*l.pat {
                if !ps.elems.iter().any(|p| matches!(p, syn::Pat::Rest(_))) {
                    let base: Option<Expr> = match &*l.expr {
                        Expr::Reference(r) => if let Expr::Index(ix) = &*r.expr { if let Expr::Range(g) = &*ix.index { if g.start.is_none() && g.end.is_none() { Some((*ix.expr).clone()) } else { None } } else { None } } else { None },
                        Expr::MethodCall(m) if m.method == "as_slice" && m.args.is_empty() => Some((*m.receiver).clone()),
                        o => Some(o.clone()),
                    };
                    if let Some(b) = base {
                        let n = ps.elems.len(); let ps: Vec<&syn::Pat> = ps.elems.iter().collect(); let then = &i.then_branch;
                        let els: Option<Expr> = i.else_branch.clone().map(|(_, x)| *x);
                        let mut body: Expr = parse_quote!(#then);
                        for (k, p) in ps.iter().enumerate().rev() {
                            let blk: syn::Block = match body { Expr::Block(b) => b.block, o => parse_quote!({ #o }) };
                            body = match &els { Some(x) => parse_quote!(if let #p = &#b[#k] #blk else { #x }), None => parse_quote!(if let #p = &#b[#k] #blk) };
                        }
                        let blk: syn::Block = match body { Expr::Block(b) => b.block, o => parse_quote!({ #o }) };
                        self.note("slice pattern -> length test and element patterns");
                        *e = match &els { Some(x) => parse_quote!(if #b.len() == #n #blk else { #x }), None => parse_quote!(if #b.len() == #n #blk) };
                    }
                }
            } }
        }
        if !self.sql.is_empty() {
            if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = e {
                let t = squeeze(&s.value());
                if let Some((n, _)) = self.sql.iter().find(|x| x.1 == t) { let f = quote::format_ident!("lit_{}", n); self.note("SQL text -> named constant (white space collapsed)"); *e = parse_quote!(#f()); return; }
                if is_sql(&t) { self.fail(format!("SQL text without a meaning in the contract: {t}")); return; }
            }
            if let Expr::Call(c) = e { if norm(&c.func) == "rx_lit" { if let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = c.args.first() {
                let t = squeeze(&s.value());
                if let Some((n, _)) = self.sql.iter().find(|x| x.1 == t) { let f = quote::format_ident!("lit_{}", n); *e = parse_quote!(#f()); return; }
                if is_sql(&t) { self.fail(format!("SQL text without a meaning in the contract: {t}")); return; }
            } } }
        }
        let mut repl: Option<Expr> = None;
        match e {
            Expr::Path(p) if self.paths.contains_key(&norm(p)) => {
                let t = self.paths[&norm(p)].clone();
                match syn::parse_str::<Expr>(&t) { Ok(x) => { self.note(&format!("{} -> {t}", norm(p))); *e = x; return; } Err(x) => { self.fail(format!("{t}: {x}")); return; } }
            }
            Expr::Range(g) if matches!(g.limits, syn::RangeLimits::Closed(_)) && g.start.is_some() && g.end.is_some() => {
                let (a, b) = (g.start.clone().unwrap(), g.end.clone().unwrap());
                self.note("a..=b -> rx_incl(a, b)");
                repl = Some(parse_quote!(rx_incl(#a, #b)));
            }
            Expr::Async(a) => {
                let b = &a.block;
                let mut j = HasJump(false);
                syn::visit::Visit::visit_block(&mut j, b);
                if j.0 { self.fail("async block with an early return".into()); return; }
                self.note("async block -> block run at its creation (what it shares is constrained by rely/guarantee contracts)");
                repl = Some(parse_quote!(#b));
            }
            Expr::Await(a) if self.methods.contains_key("await/0") => { self.note(".await -> a call"); let f: syn::Path = syn::parse_str(&self.methods["await/0"]).unwrap(); let b = &a.base; repl = Some(parse_quote!(#f(#b))); }
            Expr::Await(a) => { self.note(".await dropped (sequential execution of the future)"); repl = Some((*a.base).clone()); }
            Expr::Macro(m) => { if let Some(x) = self.mac(&m.mac) { *e = x; return; } if self.err.is_some() { return; } }
            Expr::ForLoop(f) if iter_mut_base(&f.expr).is_some() => {
                // for P in X.iter_mut().filter(|i| C) B  ->  a loop over the positions of X
                let (x, flt) = iter_mut_base(&f.expr).unwrap();
                let n = self.loops; self.loops += 1;
                let (ix, len, cur) = (quote::format_ident!("__ix{}", n), quote::format_ident!("__len{}", n), quote::format_ident!("__cur{}", n));
                let (p, b, lab) = (&f.pat, &f.body, &f.label);
                self.note("for over iter_mut() (with filter) -> loop over the positions");
                let inner: Expr = match flt { Some((fp, fb)) => parse_quote!({ let __keep: bool = { let #fp = &rx_at(&#x, #cur); #fb }; if __keep { let #p = rx_at_mut(&mut #x, #cur); #b } }), None => parse_quote!({ let #p = rx_at_mut(&mut #x, #cur); #b }) };
                let mut inner = inner; TailAtContinue(n).visit_expr_mut(&mut inner);
                repl = Some(parse_quote!({ let mut #ix: usize = 0; let #len: usize = #x.len(); #lab loop { __rx_loop!(#n); if #ix >= #len { break; } let #cur: usize = #ix; #ix += 1; #inner __rx_tail!(#n); } }));
            }
            Expr::ForLoop(f) if self.forchain && matches!(&*f.expr, Expr::MethodCall(z) if z.method == "zip" && z.args.len() == 1 && matches!(&*z.receiver, Expr::MethodCall(i) if i.method == "iter_mut") && matches!(&z.args[0], Expr::MethodCall(j) if j.method == "iter")) && matches!(&*f.pat, syn::Pat::Tuple(t) if t.elems.len() == 2) => {
                // for (p, q) in X.iter_mut().zip(Y.iter()) B  ->  a loop over the common positions
                let (x, y) = match &*f.expr { Expr::MethodCall(z) => match (&*z.receiver, &z.args[0]) { (Expr::MethodCall(i), Expr::MethodCall(j)) => ((*i.receiver).clone(), (*j.receiver).clone()), _ => return }, _ => return };
                let (p, q) = match &*f.pat { syn::Pat::Tuple(t) => (t.elems[0].clone(), t.elems[1].clone()), _ => return };
                let (b, lab) = (&f.body, &f.label);
                let n = self.loops; self.loops += 1;
                let (ix, len, cur) = (quote::format_ident!("__ix{}", n), quote::format_ident!("__len{}", n), quote::format_ident!("__cur{}", n));
                self.note("for over X.iter_mut().zip(Y.iter()) -> loop over the common positions");
                repl = Some(parse_quote!({ let mut #ix: usize = 0; let #len: usize = if #x.len() <= #y.len() { #x.len() } else { #y.len() }; #lab loop { __rx_loop!(#n); if #ix >= #len { break; } let #cur: usize = #ix; #ix += 1; { let #p = rx_at_mut(&mut #x, #cur); let #q = rx_at(&#y, #cur); #b } } }));
            }
            Expr::ForLoop(f) if matches!(&*f.expr, Expr::Reference(r) if r.mutability.is_some()) => {
                // for P in &mut X B, with a body that only reads the elements  ->  for P in &X B
                let (p, b, lab) = (f.pat.clone(), f.body.clone(), f.label.clone());
                if let Expr::Reference(r) = &*f.expr { let x = &r.expr; self.note("for P in &mut X -> for P in &X (the body is checked to only read the elements)"); repl = Some(parse_quote!(#lab for #p in &#x #b)); }
            }
            Expr::ForLoop(f) if self.forchain && matches!(&*f.expr, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "enumerate" | "zip" | "map" | "filter" | "filter_map" | "cloned" | "copied") && { let x = &f.expr; self.chain_of(&parse_quote!(#x.__for(0))).is_some() }) => {
                // for P in CHAIN B  ->  the loop of the chain with B as its terminal
                let (p, x, b) = (&f.pat, &f.expr, &f.body);
                self.forlabel = f.label.clone();
                self.note("for over an iterator chain -> explicit loop");
                let mut t: Expr = parse_quote!(#x.__for(0));
                if let Expr::MethodCall(m) = &mut t { m.args[0] = parse_quote!(|#p| #b); repl = Some(t); }
            }
            Expr::ForLoop(f) => {
                // for P in E B  ->  { let mut __itN = rx_into_iter(E); loop { match __itN.rx_next() { Some(P) => B, None => break } } }
                let n = self.loops; self.loops += 1;
                let it = quote::format_ident!("__it{}", n);
                let lab = f.label.clone();
                let (p, x, b) = (&f.pat, &f.expr, &f.body);
                self.note("for loop -> explicit iterator loop");
                repl = Some(parse_quote!({ let mut #it = rx_into_iter(#x); #lab loop { __rx_loop!(#n); match #it.rx_next() { Some(#p) => { #b; __rx_tail!(#n); }, None => { break; } } } }));
            }
            Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) => {
                // while let P = E B  ->  loop { match E { P => B, _ => break } }
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                    self.note("while let -> loop with match");
                    repl = Some(parse_quote!(#lab loop { match #x { #p => #b, _ => { break; } } }));
                }
            }
            Expr::While(w) if !norm(&w.body).contains("__rx_loop!") => { let n = self.loops; self.loops += 1; w.body.stmts.insert(0, parse_quote!(__rx_loop!(#n);));if let Some(syn::Stmt::Expr(_, t)) = w.body.stmts.last_mut() { *t = Some(Default::default()); } w.body.stmts.push(parse_quote!(__rx_tail!(#n);)); }
            Expr::Loop(w) if !norm(&w.body).contains("__rx_loop!") => { let n = self.loops; self.loops += 1; w.body.stmts.insert(0, parse_quote!(__rx_loop!(#n);)); }
            Expr::Assign(a) if matches!(&*a.left, Expr::Tuple(t) if t.elems.iter().all(|x| matches!(x, Expr::Path(_)))) => {
                // (x, y) = E
                if let Expr::Tuple(t) = &*a.left {
                    let v: Vec<syn::Ident> = (0..t.elems.len()).map(|i| quote::format_ident!("__d{i}")).collect();
                    let (l, r) = (t.elems.iter(), &a.right);
                    self.note("destructuring assignment -> let and assignments");
                    repl = Some(parse_quote!({ let (#(#v),*) = #r; #(#l = #v;)* }));
                }
            }
            Expr::Index(ix) if self.index.contains_key(&norm(&ix.expr)) => {
                let f = quote::format_ident!("{}", self.index[&norm(&ix.expr)]);
                let (b, k) = (&ix.expr, &ix.index);
                self.note("map[k] -> call of the map's index function");
                repl = Some(parse_quote!((*#f(&#b, #k))));
            }
            Expr::MethodCall(mc) if mc.method == "or_insert" && matches!(&*mc.receiver, Expr::MethodCall(a) if a.method == "and_modify" && matches!(&*a.receiver, Expr::MethodCall(t) if t.method == "entry")) => {
                // X.entry(K).and_modify(|e| B).or_insert(V)
                if let Expr::MethodCall(a) = &*mc.receiver { if let Expr::MethodCall(t) = &*a.receiver {
                    let (x, k, v) = (&t.receiver, &t.args[0], &mc.args[0]);
                    let (p, b) = match closure1(&a.args[0]) { Some((Some(p), b)) => (p, b), _ => { self.fail("and_modify: closure".into()); return; } };
                    self.note("X.entry(k).and_modify(f).or_insert(v) -> match on get_mut, insert");
                    repl = Some(parse_quote!({ let __k = #k; match #x.get_mut(&__k) { Some(#p) => { #b; } None => { let __v = #v; #x.insert(__k, __v); } } }));
                } }
            }
            Expr::MethodCall(mc) if mc.method == "or_insert" && matches!(&*mc.receiver, Expr::MethodCall(t) if t.method == "entry" && t.args.len() == 1) && self.unused.contains(&norm(mc)) => {
                // X.entry(K).or_insert(V), its value not used
                if let Expr::MethodCall(t) = &*mc.receiver {
                    let (x, k, v) = (&t.receiver, &t.args[0], &mc.args[0]);
                    self.note("X.entry(k).or_insert(v) -> insert when absent");
                    repl = Some(parse_quote!({ let __k = #k; if !#x.contains_key(&__k) { let __v = #v; #x.insert(__k, __v); } }));
                }
            }
            Expr::MethodCall(mc) if mc.method == "or_insert" && mc.args.len() == 1 && matches!(&*mc.receiver, Expr::MethodCall(t) if t.method == "entry" && t.args.len() == 1) => {
                // X.entry(K).or_insert(V), its value used: a reference into the map
                if let Expr::MethodCall(t) = &*mc.receiver {
                    let (x, k, v) = (&t.receiver, &t.args[0], &mc.args[0]);
                    self.note("X.entry(k).or_insert(v) -> call of a contracted reference into the map");
                    repl = Some(parse_quote!(rx_entry(&mut #x, #k, #v)));
                }
            }
            Expr::MethodCall(mc) if mc.method == "for_each" && mc.args.len() == 1 && matches!(&*mc.receiver, Expr::MethodCall(z) if z.method == "zip" && z.args.len() == 1 && matches!(&*z.receiver, Expr::MethodCall(i) if i.method == "iter_mut") && matches!(&z.args[0], Expr::MethodCall(j) if j.method == "iter")) => {
                // X.iter_mut().zip(Y.iter()).for_each(|(p, q)| B)  ->  a loop over the common positions
                let (x, y) = match &*mc.receiver { Expr::MethodCall(z) => match (&*z.receiver, &z.args[0]) { (Expr::MethodCall(i), Expr::MethodCall(j)) => ((*i.receiver).clone(), (*j.receiver).clone()), _ => return }, _ => return };
                let (p, q, b) = match closure1(&mc.args[0]) { Some((Some(syn::Pat::Tuple(t)), b)) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone(), b), _ => { self.fail("zip(..).for_each: closure".into()); return; } };
                let mut j = HasJump(false); syn::visit::Visit::visit_expr(&mut j, &b); if j.0 { self.fail("closure of .for_each() jumps".into()); return; }
                let n = self.loops; self.loops += 1;
                let (ix, len, cur) = (quote::format_ident!("__ix{}", n), quote::format_ident!("__len{}", n), quote::format_ident!("__cur{}", n));
                let xm: Expr = if matches!(&x, Expr::Path(_)) && self.refnames.contains(&norm(&x)) { x.clone() } else { parse_quote!(&mut #x) };
                self.note("X.iter_mut().zip(Y.iter()).for_each(..) -> loop over the common positions");
                repl = Some(parse_quote!({ let mut #ix: usize = 0; let #len: usize = if #x.len() <= #y.len() { #x.len() } else { #y.len() }; loop { __rx_loop!(#n); if #ix >= #len { break; } let #cur: usize = #ix; #ix += 1; { let #p = rx_at_mut(#xm, #cur); let #q = rx_at(&#y, #cur); #b; } } }));
            }
            Expr::MethodCall(mc) if mc.method == "retain" && mc.args.len() == 1 && matches!(&mc.args[0], Expr::Closure(c) if c.inputs.len() == 2) => {
                if let Expr::Closure(c) = &mc.args[0] {
                    let n = self.loops; self.loops += 1;
                    let (ix, x) = (quote::format_ident!("__ix{}", n), &mc.receiver);
                    let (p0, p1, b) = (&c.inputs[0], &c.inputs[1], &c.body);
                    self.note("X.retain(|k, v| c) -> loop removing the positions where c is false");
                    repl = Some(parse_quote!({ let mut #ix: usize = 0; loop { __rx_loop!(#n); if #ix >= #x.len() { break; } let __keep: bool = { let (#p0, #p1) = #x.rx_entry(#ix); #b }; if __keep { #ix += 1; } else { #x.rx_remove_at(#ix); } } }));
                }
            }
            Expr::MethodCall(mc) if self.chain_of(mc).is_some() => {
                let (base, stages) = self.chain_of(mc).unwrap();
                match self.desugar_chain(base, stages) { Some(x) => repl = Some(x), None => { if self.err.is_some() { return; } } }
            }
            Expr::MethodCall(mc) => {
                let m = mc.method.to_string();
                let r = (*mc.receiver).clone();
                let mut args: Vec<Expr> = vec![];
                for a in mc.args.iter() {
                    // f(.., &mut v[a..b]) -> f(.., &mut v, a, b)
                    if let (true, Expr::Reference(rf)) = (self.slicemut, a) { if let (true, Expr::Index(ix)) = (rf.mutability.is_some(), &*rf.expr) { if let Expr::Range(rg) = &*ix.index { if let (Some(x), Some(y), syn::RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                        let v = &ix.expr; self.note("argument &mut v[a..b] -> &mut v, a, b"); args.push(parse_quote!(&mut #v)); args.push((**x).clone()); args.push((**y).clone()); continue; } } } }
                    args.push(a.clone());
                }
                if args.len() != mc.args.len() { mc.args = args.iter().cloned().collect(); }
                let key = format!("{m}/{}", args.len());
                if let Some(f) = self.methods.get(&key).cloned() {
                    if let Some(fs) = f.strip_prefix("FOREACH ") {
                        // recv.m(items, |mut row, x| B)  ->  for x in items { let mut row = begin(&mut recv); B; end(&mut recv, row); }
                        let fs: Vec<proc_macro2::Ident> = fs.split_whitespace().map(|x| quote::format_ident!("{}", x)).collect();
                        let (b, en) = (&fs[0], &fs[1]);
                        let its = &args[0];
                        if let Expr::Closure(c) = &args[1] { if c.inputs.len() == 2 {
                            let (p0, p1, body) = (&c.inputs[0], &c.inputs[1], &c.body);
                            let id = if let syn::Pat::Ident(i) = p0 { i.ident.clone() } else { self.fail(format!(".{m}(): row pattern")); return; };
                            self.note(&format!(".{m}(items, closure) -> loop over items, closure inlined"));
                            let mut x: Expr = parse_quote!(for #p1 in #its { let #p0 = #b(&mut #r); #body; #en(&mut #r, #id); });
                            self.visit_expr_mut(&mut x); *e = x; return;
                        } }
                        self.fail(format!(".{m}(): not a closure of two parameters")); return;
                    }
                    if f == "WORLD" { self.note(&format!(".{m}(..) takes the external state")); let mut x = mc.clone(); self.visit_expr_mut(&mut x.receiver); for a in x.args.iter_mut() { self.visit_expr_mut(a); } x.args.insert(0, parse_quote!(w)); *e = Expr::MethodCall(x); return; }
                    if f == "REF" { self.note(&format!(".{m}() -> &")); repl = Some(parse_quote!(&(#r))); }
                    else if f == "REFMUT" { self.note(&format!(".{m}() -> &mut")); repl = Some(parse_quote!(&mut (#r))); }
                    else if f == "DROP" { self.note(&format!(".{m}() dropped")); repl = Some(r.clone()); }
                    else { let f: syn::Path = syn::parse_str(&f).unwrap(); self.note(&format!(".{m}(..) -> {}", norm(&f))); let tf = mc.turbofish.as_ref().map(|t| { let a = &t.args; quote!(::<#a>) }); let owned = norm(&f).starts_with("own_"); if norm(&f).starts_with("w_") || norm(&f).starts_with("wr_") || norm(&f).starts_with("wm_") { let r: Expr = if norm(&f).starts_with("wr_") { parse_quote!(&(#r)) } else if norm(&f).starts_with("wm_") { parse_quote!(&mut (#r)) } else { r.clone() }; repl = Some(parse_quote!(#f #tf (w, #r #(, #args)*))); self.visit_expr_mut(repl.as_mut().unwrap()); *e = repl.unwrap(); return; } let rr: Expr = if owned { r.clone() } else if norm(&f).starts_with("mut_") { parse_quote!(&mut (#r)) } else { parse_quote!(&(#r)) }; repl = Some(parse_quote!(#f #tf (#rr #(, #args)*))); }
                } else { match (m.as_str(), args.len()) {
                    ("to_string", 0) => { self.note(".to_string() -> rx_disp"); repl = Some(parse_quote!(rx_disp(&(#r)))); }
                    ("replace", 2) => match &args[0] {
                        Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(_), .. }) => { let (a, b) = (&args[0], &args[1]); self.note("str::replace(char, &str) -> rx_replace_char"); repl = Some(parse_quote!(rx_replace_char(&(#r), #a, #b))); }
                        Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) if s.value().chars().count() == 1 => { let c = s.value().chars().next().unwrap(); let b = &args[1]; self.note("str::replace(1-char str, &str) -> rx_replace_char"); repl = Some(parse_quote!(rx_replace_char(&(#r), #c, #b))); }
                        _ => {}
                    },
                    ("contains", 1) => if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(_), .. }) = &args[0] { let a = &args[0]; self.note("str::contains(char) -> rx_contains_char"); repl = Some(parse_quote!(rx_contains_char(&(#r), #a))); },
                    ("join", 1) => { if let Expr::MethodCall(in_) = &r { if in_.method == "iter" && in_.args.is_empty() { let (x, s) = (&in_.receiver, &args[0]); self.note("x.iter().join(s) -> rx_join"); repl = Some(parse_quote!(rx_join(&(#x), #s))); } }
                        if repl.is_none() { let s = &args[0]; self.note("x.join(s) -> rx_join"); repl = Some(parse_quote!(rx_join(&(#r), #s))); } }
                    ("ok_or_else", 1) => if let Some((None, b)) = closure1(&args[0]) { self.note("ok_or_else(closure) -> match"); repl = Some(parse_quote!((match #r { Some(__v) => Ok(__v), None => Err(#b) }))); },
                    ("ok_or", 1) => { let b = &args[0]; repl = Some(parse_quote!((match #r { Some(__v) => Ok(__v), None => Err(#b) }))); self.note("ok_or(e) -> match"); }
                    ("map_err", 1) => if let Some((Some(p), b)) = closure1(&args[0]) { self.note("map_err(closure) -> match"); repl = Some(parse_quote!((match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }))); } else { let f = &args[0]; self.note("map_err(f) -> match"); repl = Some(parse_quote!((match #r { Ok(__v) => Ok(__v), Err(__e) => Err(#f(__e)) }))); },
                    ("map", 1) if matches!(&r, Expr::Call(c) if self.resof.contains(&norm(&c.func))) || matches!(&r, Expr::MethodCall(c) if self.resof.contains(&c.method.to_string())) => if let Some((Some(p), b)) = closure1(&args[0]) { self.note("Result::map(closure) -> match"); repl = Some(parse_quote!((match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }))); },
                    ("map", 1) if self.optmap => if let Some((Some(p), b)) = closure1(&args[0]) { self.note("Option::map(closure) -> match"); repl = Some(parse_quote!((match #r { Some(#p) => Some(#b), None => None }))); } else { let f = &args[0]; self.note("Option::map(f) -> match"); repl = Some(parse_quote!((match #r { Some(__v) => Some(#f(__v)), None => None }))); },
                    ("map", 1) if self.resmap => if let Some((Some(p), b)) = closure1(&args[0]) { self.note("Result::map(closure) -> match"); repl = Some(parse_quote!((match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }))); } else { let f = &args[0]; self.note("Result::map(f) -> match"); repl = Some(parse_quote!((match #r { Ok(__v) => Ok(#f(__v)), Err(__e) => Err(__e) }))); },
                    ("and_then", 1) if self.optmap || self.resmap => {
                        let opt = self.optmap;
                        match closure1(&args[0]) {
                            Some((Some(p), b)) => {
                                let mut j = HasJump(false); syn::visit::Visit::visit_expr(&mut j, &b);
                                if j.0 { let c = &args[0]; self.note("and_then(closure) -> rx_and_then"); repl = Some(if opt { parse_quote!(rx_opt_and_then(#r, #c)) } else { parse_quote!(rx_and_then(#r, #c)) }); }
                                else { self.note("and_then(closure) -> match"); repl = Some(if opt { parse_quote!((match #r { Some(#p) => #b, None => None })) } else { parse_quote!((match #r { Ok(#p) => #b, Err(__e) => Err(__e) })) }); }
                            }
                            Some((None, _)) => {}
                            None => { let f = &args[0]; self.note("and_then(f) -> match"); repl = Some(if opt { parse_quote!((match #r { Some(__v) => #f(__v), None => None })) } else { parse_quote!((match #r { Ok(__v) => #f(__v), Err(__e) => Err(__e) })) }); }
                        }
                    }
                    ("or", 1) if self.optmap => { let d = &args[0]; self.note("Option::or -> match"); repl = Some(parse_quote!((match #r { Some(__v) => Some(__v), None => #d }))); }
                    ("transpose", 0) => if let Expr::Call(c) = &r { if norm(&c.func) == "Some" { let x = &c.args[0]; self.note("Some(r).transpose() -> match"); repl = Some(parse_quote!((match #x { Ok(__v) => Ok(Some(__v)), Err(__e) => Err(__e) }))); } },
                    ("try_into", 0) => { self.note(".try_into() -> rx_try_into"); repl = Some(parse_quote!(rx_try_into(#r))); }
                    ("unwrap_or_else", 1) => if let Some((Some(p), b)) = closure1(&args[0]) { self.note("unwrap_or_else(closure) -> match"); repl = Some(parse_quote!((match #r { Ok(__v) => __v, Err(#p) => #b }))); } else if let Some((None, b)) = closure1(&args[0]) { self.note("unwrap_or_else(closure) -> match"); repl = Some(parse_quote!((match #r { Some(__v) => __v, None => #b }))); },
                    ("map_or_else", 2) | ("map_or", 2) => {
                        let d = if m == "map_or" { Some(args[0].clone()) } else { match closure1(&args[0]) { Some((None, b)) => Some(b), _ => None } };
                        if let (Some(d), Some((Some(p), b))) = (d, closure1(&args[1])) { self.note("Option::map_or(closure) -> match"); repl = Some(parse_quote!((match #r { Some(#p) => #b, None => #d }))); }
                    }
                    _ => { if norm(&r) == "self" { if let Some(x) = self.try_inline(&m, Some(r.clone()), args) { *e = x; return; } } }
                } }
            }
            Expr::Cast(c) if !matches!(norm(&c.ty).as_str(), "u8"|"u16"|"u32"|"u64"|"u128"|"usize"|"i8"|"i16"|"i32"|"i64"|"i128"|"isize"|"f32"|"f64"|"char"|"bool"|"int"|"nat") => {
                let (x, t) = (&c.expr, &c.ty);
                self.note("e as T (T not a primitive) -> RxAs::<T>::rx_as(e)");
                repl = Some(parse_quote!(RxAs::<#t>::rx_as(#x)));
            }
            Expr::Closure(c) if !self.closures.is_empty() && !norm(&c.body).contains("__rx_closure!") => {
                // the contract of a closure: by the type argument of the call it is passed to, else by order
                let key = match self.ctx.last() { Some(t) if self.closures.contains_key(&format!("<{t}>")) => format!("<{t}>"), _ => { self.plainclo += 1; (self.plainclo - 1).to_string() } };
                let key = if self.closures.contains_key(&key) { key } else { "*".to_string() };
                if !self.closures.contains_key(&key) { self.fail(format!("closure |{}| has no contract", norm(&c.inputs))); return; }
                self.used.insert(key.clone());
                let k = self.nclosures; self.nclosures += 1;
                let (tys, mut text) = self.closures[&key].clone();
                let mut c = c.clone();
                let mut pre: Vec<syn::Stmt> = vec![];
                let pats: Vec<syn::Pat> = c.inputs.iter().map(|p| match p { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                if pats.len() != tys.len() { self.fail(format!("closure {k}: {} parameters, the contract has {}", pats.len(), tys.len())); return; }
                c.inputs.clear();
                for (i, p) in pats.iter().enumerate() {
                    let t: syn::Type = match syn::parse_str(&tys[i]) { Ok(t) => t, Err(e) => { self.fail(format!("closure {k}: {e}")); return; } };
                    let id = match p { syn::Pat::Ident(x) if x.subpat.is_none() => x.ident.clone(), o => { let id = quote::format_ident!("__p{}", i); pre.push(parse_quote!(let #o = #id;)); id } };
                    text = text.replace(&format!("${i}"), &id.to_string());
                    c.inputs.push(syn::Pat::Type(parse_quote!(#id: #t)));
                }
                c.output = syn::ReturnType::Default;
                let b = &c.body;
                c.body = parse_quote!({ __rx_closure!(#k); #(#pre)* #b });
                self.clotext.insert(k, text);
                self.note("closure given a contract");
                repl = Some(Expr::Closure(c));
            }
            Expr::Reference(rf) if self.world && rf.mutability.is_some() && matches!(&*rf.expr, Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(_))) => {
                if let Expr::Unary(u) = &*rf.expr { let x = &u.expr; self.note("&mut *x -> &mut x"); repl = Some(parse_quote!(&mut #x)); }
            }
            Expr::Match(m) if self.streq && m.arms.iter().any(|a| lit_pat(&a.pat)) => {
                // match X { "a" | "b" => A, v => C }  ->  if chain over rx_eq
                let x = &m.expr;
                let mut out: Option<Expr> = None;
                for a in m.arms.iter().rev() {
                    let body = &a.body;
                    let lits: Vec<Expr> = match &a.pat { syn::Pat::Or(o) if lit_pat(&a.pat) => o.cases.iter().map(|p| parse_quote!(#p)).collect(), p if lit_pat(p) => vec![parse_quote!(#p)], _ => vec![] };
                    if lits.is_empty() {
                        let p = &a.pat;
                        out = Some(match (&a.guard, out) { (None, _) => parse_quote!({ let #p = __m; #body }), (Some((_, g)), Some(o)) => parse_quote!({ let #p = __m; if #g { #body } else { #o } }), _ => { self.fail("match on text: last arm with a guard".into()); return; } });
                    } else {
                        let o = match out { Some(o) => o, None => { self.fail("match on text without a last arm".into()); return; } };
                        let mut c: Option<Expr> = None;
                        for l in lits { c = Some(match c { None => parse_quote!(rx_eq(__m, #l)), Some(c) => parse_quote!(#c || rx_eq(__m, #l)) }); }
                        let c = c.unwrap();
                        let c: Expr = match &a.guard { Some((_, g)) => parse_quote!((#c) && #g), None => c };
                        out = Some(parse_quote!(if #c { #body } else { #o }));
                    }
                }
                let o = out.unwrap();
                self.note("match on text -> if chain");
                repl = Some(parse_quote!({ let __m = #x; #o }));
            }
            Expr::Try(t) if self.tryto.is_some() => {
                // X?  ->  match X { Ok(v) => v, Err(e) => return Err(From::from(e)) }
                let ty = quote::format_ident!("{}", self.tryto.clone().unwrap());
                let x = &t.expr;
                self.note("x? -> match, the error converted with From");
                repl = Some(parse_quote!((match #x { Ok(__v) => __v, Err(__e) => return Err(#ty(__e)) })));
            }
            Expr::Binary(b) if self.streq && matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) => {
                let (x, y) = (&b.left, &b.right);
                self.note("a == b -> rx_eq(&a, &b)");
                repl = Some(if matches!(b.op, syn::BinOp::Eq(_)) { parse_quote!(rx_eq(&(#x), &(#y))) } else { parse_quote!(!rx_eq(&(#x), &(#y))) });
            }
            Expr::Repeat(a) if self.arrvec => { let (x, n) = (&a.expr, &a.len); self.note("[x; n] -> rx_vec_repeat"); repl = Some(parse_quote!(rx_vec_repeat(#x, #n))); }
            Expr::Reference(rf) if matches!(&*rf.expr, Expr::Call(c) if self.calls.get(&norm(&c.func)).map(|x| x == "ARG0").unwrap_or(false)) => {
                if let Expr::Call(c) = &*rf.expr { self.note(&format!("&mut {}(x) -> x", norm(&c.func))); repl = Some(c.args[0].clone()); }
            }
            Expr::Call(c) if self.calls.contains_key(&norm(&c.func)) => {
                let f = self.calls[&norm(&c.func)].clone();
                if f == "WORLD" { self.note(&format!("{}(..) takes the external state", norm(&c.func))); let mut x = c.clone(); for a in x.args.iter_mut() { self.visit_expr_mut(a); } x.args.insert(0, parse_quote!(w)); *e = Expr::Call(x); return; }
                let f: syn::Path = match syn::parse_str(&f) { Ok(f) => f, Err(e) => { self.fail(format!("{f}: {e}")); return; } };
                self.note(&format!("{} -> {}", norm(&c.func), norm(&f)));
                let a = &c.args;
                let mut x: Expr = if norm(&f).starts_with("w_") { parse_quote!(#f(w, #a)) } else { parse_quote!(#f(#a)) };
                visit_mut::visit_expr_mut(self, &mut x); *e = x; return;
            }
            Expr::Call(c) => {
                if let (false, Expr::Path(p)) = (self.closures.is_empty(), &*c.func) {
                    if let syn::PathArguments::AngleBracketed(ab) = &p.path.segments.last().unwrap().arguments {
                        if let (Some(syn::GenericArgument::Type(t)), true) = (ab.args.first(), c.args.iter().any(|a| norm(a).starts_with("&|") || norm(a).starts_with("|") || norm(a).starts_with("&move|"))) {
                            self.ctx.push(last_seg(t));
                            visit_mut::visit_expr_mut(self, e);
                            self.ctx.pop();
                            return;
                        }
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    const PRIM: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
                    if p.path.segments.len() == 2 && p.path.segments[1].ident == "try_from" && PRIM.contains(&p.path.segments[0].ident.to_string().as_str()) {
                        let (t, a) = (p.path.segments[0].ident.clone(), c.args[0].clone());
                        self.note("T::try_from(x) -> rx_try_into");
                        let mut x: Expr = parse_quote!(rx_try_into::<_, #t>(#a));
                        visit_mut::visit_expr_mut(self, &mut x); *e = x; return;
                    }
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let free = p.path.segments.len() == 1 || (p.path.segments.len() == 2 && p.path.segments[0].ident == "Self");
                    if free && !self.renames.contains_key(&n) { let args: Vec<Expr> = c.args.iter().cloned().collect(); if let Some(x) = self.try_inline(&n, None, args) { *e = x; return; } }
                }
            }
            _ => {}
        }
        if let Some(mut x) = repl { self.visit_expr_mut(&mut x); *e = x; return; }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_expr_cast_mut(&mut self, c: &mut syn::ExprCast) { visit_mut::visit_expr_cast_mut(self, c) }
}

/// every integer cast becomes `(#[verifier::truncate] (e as T))`: done on tokens at print time
struct Casts;
impl VisitMut for Casts {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Cast(c) = e { if c.attrs.is_empty() { let (x, t) = (&c.expr, &c.ty); *e = parse_quote!((#[verifier::truncate] (#x as #t))); } }
    }
}

fn print(ts: TokenStream, out: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Brace => ("{\n", "\n}\n"), Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                out.push_str(a); print(g.stream(), out); out.push_str(b); if g.delimiter() != Delimiter::Brace { out.push(' '); }
            }
            TokenTree::Punct(p) => { out.push(p.as_char()); if p.as_char() == ';' { out.push('\n'); } else if p.spacing() == Spacing::Alone { out.push(' '); } }
            t => { out.push_str(&t.to_string()); out.push(' '); }
        }
    }
}

fn pairs(s: Option<&String>) -> Vec<(String, String)> {
    s.map(|s| s.lines().filter_map(|l| l.split_once("=>").map(|(a, b)| (a.trim().to_string(), b.trim().to_string()))).collect()).unwrap_or_default()
}

fn strip_lifetimes(g: &mut syn::Generics) { let _ = g; }

pub fn emit_fn(mut f: syn::ImplItemFn, opts: &BTreeMap<String, String>, sec: &BTreeMap<String, String>, helpers: &Helpers, sql: &[(String, String)]) -> Result<(String, Vec<String>), String> {
    let empty = String::new();
    let mut rw = Rw {
        notes: BTreeSet::new(), err: None, loops: 0,
        renames: pairs(sec.get("rename")).into_iter().collect(),
        types: pairs(sec.get("types")).into_iter().map(|(a, b)| (a.split_whitespace().collect::<Vec<_>>().join(""), b)).collect(),
        methods: pairs(sec.get("methods")).into_iter().collect(),
        drops: sec.get("dropmacros").unwrap_or(&empty).split_whitespace().map(|s| s.to_string()).collect(),
        optmap: opts.contains_key("optmap"),
        calls: pairs(sec.get("calls")).into_iter().collect(),
        arrvec: opts.contains_key("arrvec"),
        slicemut: opts.contains_key("slicemut"),
        forlabel: None,
        unused: BTreeSet::new(),
        inline: opts.contains_key("inline"),
        refnames: { let mut r = RefNames(BTreeSet::new()); syn::visit::Visit::visit_block(&mut r, &f.block); r.0 },
        chainm: opts.get("chainm").map(|k| k.split(',').filter_map(|s| s.split_once(':').map(|(a, b)| (a.to_string(), b.to_string()))).collect()).unwrap_or_default(),
        forchain: opts.contains_key("forchain"),
        vars: pairs(sec.get("vars")).into_iter().collect(),
        resmap: opts.contains_key("resmap"),
        streq: opts.contains_key("streq"),
        tryto: opts.get("try").cloned(),
        resof: opts.get("resof").map(|k| k.split(',').map(|s| s.to_string()).collect()).unwrap_or_default(),
        closures: sec.iter().filter_map(|(k, v)| { let n = k.strip_prefix("closure ")?.trim().to_string(); let (a, b) = v.split_once('\n')?; Some((n, (a.trim().strip_prefix("types:")?.split(';').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect(), b.to_string()))) }).collect(),
        nclosures: 0, plainclo: 0, ctx: vec![], used: BTreeSet::new(), clotext: BTreeMap::new(),
        known: opts.get("known").map(|k| k.split(',').map(|s| s.to_string()).collect()).unwrap_or_default(),
        helpers, depth: 0, sql,
        world: opts.contains_key("world"),
        paths: pairs(sec.get("paths")).into_iter().collect(),
        dropstmts: sec.get("dropstmts").unwrap_or(&empty).split_whitespace().map(|s| s.to_string()).collect(),
        index: pairs(sec.get("index")).into_iter().collect(),
        lift: sec.get("lift").unwrap_or(&empty).lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect(),
        split: sec.get("split").unwrap_or(&empty).split_whitespace().map(|s| s.to_string()).collect(),
    };
    rw.known.insert(f.sig.ident.to_string());
    f.attrs.clear();
    f.vis = parse_quote!(pub);
    // sig: the signature of an extracted closure (captured variables become parameters)
    if let Some(v) = sec.get("sig") { f.sig = syn::parse_str::<syn::Signature>(v.trim()).map_err(|e| format!("sig: {e}"))?; rw.note("closure extracted as a function; captured variables are parameters"); }
    if f.sig.asyncness.take().is_some() { rw.note("async dropped"); }
    strip_lifetimes(&mut f.sig.generics);
    if let Some(l) = opts.get("letmut") {
        struct M(Vec<String>);
        impl VisitMut for M { fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) { if p.by_ref.is_none() && self.0.contains(&p.ident.to_string()) { p.mutability = Some(Default::default()); } } }
        M(l.split(',').map(String::from).collect()).visit_block_mut(&mut f.block);
        rw.note(&format!("let {l} made mut (its methods take &self with interior mutability)"));
    }
    if opts.contains_key("world") {
        let p: syn::FnArg = parse_quote!(w: &mut World);
        let at = f.sig.inputs.iter().take_while(|x| matches!(x, syn::FnArg::Receiver(_))).count();
        f.sig.inputs.insert(at, p);
        rw.note("the shared external state is passed explicitly (w)");
    }
    if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            // mut self: a local copy of it
            r.mutability = None;
            struct S;
            impl VisitMut for S { fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) { if i == "self" { *i = proc_macro2::Ident::new("rx_self", i.span()); } } }
            S.visit_block_mut(&mut f.block);
            f.block.stmts.insert(0, parse_quote!(let mut rx_self = self;));
            rw.note("mut self => a local variable");
        }
    }
    for (k, a) in f.sig.inputs.iter_mut().enumerate() { if let syn::FnArg::Typed(t) = a { if matches!(&*t.pat, syn::Pat::Wild(_)) { let id = quote::format_ident!("__p{}", k); t.pat = Box::new(parse_quote!(#id)); } } }
    rw.visit_signature_mut(&mut f.sig);
    // a chain that ends a function collects into what the function returns
    if let syn::ReturnType::Type(_, t) = &f.sig.output {
        if norm(t).starts_with("Result<") {
            if let Some(syn::Stmt::Expr(Expr::MethodCall(m), None)) = f.block.stmts.last_mut() {
                if m.method == "collect" && m.turbofish.is_none() { m.turbofish = Some(parse_quote!(::<#t>)); }
            }
        }
    }
    rw.visit_block_mut(&mut f.block);
    if let Some(e) = rw.err { return Err(e); }
    if sec.contains_key("exit") {
        // the proof before the value of the body
        let at = match f.block.stmts.last() { Some(syn::Stmt::Expr(_, None)) => f.block.stmts.len() - 1, _ => f.block.stmts.len() };
        f.block.stmts.insert(at, parse_quote!(__rx_exit();));
    }
    for k in sec.keys().filter_map(|k| k.strip_prefix("let ")) {
        // ghost text after the first `let` that binds the variable
        struct Binds<'a>(&'a str, bool);
        impl<'a, 'b> syn::visit::Visit<'b> for Binds<'a> { fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) { if p.ident == self.0 { self.1 = true; } } }
        let at = f.block.stmts.iter().position(|st| if let syn::Stmt::Local(l) = st { let mut b = Binds(k.trim(), false); syn::visit::Visit::visit_pat(&mut b, &l.pat); b.1 } else { false });
        match at { Some(i) if i + 1 < f.block.stmts.len() => { let id = quote::format_ident!("__rx_let_{}", k.trim()); f.block.stmts.insert(i + 1, parse_quote!(#id();)); } _ => return Err(format!("no `let {}` in the code", k.trim())) }
    }
    for k in sec.keys().filter_map(|k| k.strip_prefix("after ")) {
        // ghost text after the statement that calls the method
        struct Has<'a>(&'a str, bool);
        impl<'a> VisitMut for Has<'a> {
            fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) { if m.method == self.0 { self.1 = true; } syn::visit_mut::visit_expr_method_call_mut(self, m); }
            fn visit_expr_call_mut(&mut self, m: &mut syn::ExprCall) { if let Expr::Path(p) = &*m.func { if p.path.segments.last().map(|x| x.ident == self.0).unwrap_or(false) { self.1 = true; } } syn::visit_mut::visit_expr_call_mut(self, m); }
            fn visit_block_mut(&mut self, _b: &mut syn::Block) {}
        }
        struct After<'a>(&'a str, syn::Ident, bool);
        impl<'a> VisitMut for After<'a> {
            fn visit_block_mut(&mut self, b: &mut syn::Block) {
                let mut i = 0;
                while i < b.stmts.len() {
                    let mut h = Has(self.0, false);
                    h.visit_stmt_mut(&mut b.stmts[i]);
                    if h.1 && !self.2 && i + 1 < b.stmts.len() { let id = &self.1; b.stmts.insert(i + 1, parse_quote!(#id();)); self.2 = true; i += 1; }
                    i += 1;
                }
                syn::visit_mut::visit_block_mut(self, b);
            }
        }
        After(k.trim(), quote::format_ident!("__rx_after_{}", k.trim()), false).visit_block_mut(&mut f.block);
    }
    if opts.contains_key("truncate") { Casts.visit_block_mut(&mut f.block); rw.notes.insert("every `as` cast marked verifier::truncate (exact Rust wrap/truncate semantics)".into()); }
    if let Some(n) = opts.get("as") { f.sig.ident = proc_macro2::Ident::new(n, f.sig.ident.span()); }
    if let Some(v) = sec.get("generics") { let g: syn::Generics = syn::parse_str(v.trim()).map_err(|e| e.to_string())?; f.sig.generics.params = g.params; f.sig.generics.where_clause = None; }
    let ret = match &f.sig.output { syn::ReturnType::Default => None, syn::ReturnType::Type(_, t) => Some((**t).clone()) };
    let mut sig = f.sig.clone();
    sig.output = syn::ReturnType::Default;
    let wc = sig.generics.where_clause.take();
    let mut o = String::new();
    if let Some(a) = sec.get("attr") { o.push_str(a); }
    if opts.contains_key("intrait") { print(quote!(#sig), &mut o); } else { print(quote!(pub #sig), &mut o); }
    if let Some(t) = ret { o.push_str("-> (r: "); print(quote!(#t), &mut o); o.push_str(")\n"); }
    if let Some(w) = wc { print(quote!(#w), &mut o); o.push('\n'); }
    if let Some(c) = sec.get("contract") { o.push_str(c); }
    let mut body = String::new();
    let b = &f.block;
    print(quote!(#b), &mut body);
    // splice loop contracts
    for k in 0..rw.loops {
        let mark = format!("{{\n__rx_loop !({k}usize ) ;");
        let mark2 = format!("{{\n__rx_loop ! ({k}usize ) ;");
        let c = sec.get(&format!("loop {k}")).cloned().or_else(|| sec.get("loop *").map(|t| t.replace("$n", &k.to_string()))).unwrap_or_default();
        let p = if body.contains(&mark) { mark } else { mark2 };
        if !body.contains(&p) { return Err(format!("internal: loop marker {k} lost: {body}")); }
        let g = sec.get(&format!("body {k}")).cloned().unwrap_or_default();
        body = body.replacen(&p, &format!("\n{c}{{\n{g}"), 1);
    }
    for k in 0..rw.loops {
        // the end of an iteration of a `for` over a chain
        for p in [format!("__rx_tail !({k}usize ) ;"), format!("__rx_tail ! ({k}usize ) ;")] { if body.contains(&p) { body = body.replace(&p, &format!("\n{}\n", sec.get(&format!("tail {k}")).cloned().unwrap_or_default())); } }
    }
    if let Some(ex) = sec.get("exit") {
        let p = ["__rx_exit ( ) ;", "__rx_exit () ;"].into_iter().find(|m| body.contains(m)).ok_or("internal: exit marker")?;
        body = body.replacen(p, &format!("\n{ex}\n"), 1);
    }
    for (k, text) in sec.iter().filter_map(|(k, v)| Some((k.strip_prefix("let ")?.trim().to_string(), v))) {
        for p in [format!("__rx_let_{k} ( ) ;"), format!("__rx_let_{k} () ;")] { if body.contains(&p) { body = body.replacen(&p, &format!("\n{text}\n"), 1); } }
    }
    for (k, text) in sec.iter().filter_map(|(k, v)| Some((k.strip_prefix("after ")?.trim().to_string(), v))) {
        for p in [format!("__rx_after_{k} ( ) ;"), format!("__rx_after_{k} () ;")] { if body.contains(&p) { body = body.replacen(&p, &format!("\n{text}\n"), 1); } }
    }
    for (k, text) in &rw.clotext {
        let mark = format!("{{\n__rx_closure !({k}usize ) ;");
        let mark2 = format!("{{\n__rx_closure ! ({k}usize ) ;");
        let p = if body.contains(&mark) { mark } else { mark2 };
        if body.matches(&p).count() != 1 { return Err(format!("internal: closure marker {k}: {body}")); }
        body = body.replacen(&p, &format!("\n{text}{{\n"), 1);
    }
    for k in rw.closures.keys() { if k != "*" && !rw.used.contains(k) { return Err(format!("no closure {k} in the code")); } }
    let nl = sec.keys().filter(|k| k.starts_with("loop ") && *k != "loop *").count();
    if nl > 0 && nl != rw.loops && !(sec.contains_key("loop *") && nl < rw.loops) { return Err(format!("the contract annotates {nl} loops, the code has {}", rw.loops)); }
    if let Some(en) = sec.get("entry") { let p = body.find('{').unwrap(); body.insert_str(p + 1, &format!("\n{en}")); }
    o.push_str(&body);
    o.push('\n');
    Ok((o, rw.notes.into_iter().collect()))
}

struct Strip { types: Vec<(String, String)> }
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear(); }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        let n = norm(t);
        for (a, b) in &self.types { if *a == n { *t = syn::parse_str(b).unwrap(); return; } }
        visit_mut::visit_type_mut(self, t)
    }
    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) { *v = parse_quote!(pub); }
}

pub fn emit_item(mut it: syn::Item, opts: &BTreeMap<String, String>, sec: &BTreeMap<String, String>) -> Result<String, String> {
    let mut s = Strip { types: pairs(sec.get("types")).into_iter().map(|(a, b)| (a.split_whitespace().collect::<Vec<_>>().join(""), b)).collect() };
    match &mut it {
        syn::Item::Enum(e) => {
            e.attrs.clear(); e.vis = parse_quote!(pub);
            if let Some(n) = opts.get("as") { e.ident = quote::format_ident!("{}", n); }
            // optional library features are off
            let keep: Vec<syn::Variant> = e.variants.iter().filter(|v| !v.attrs.iter().any(|a| { let t = norm(a); t.contains("cfg(feature=") })).cloned().collect();
            e.variants = keep.into_iter().collect();
            for v in e.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); s.visit_type_mut(&mut f.ty); if let Some(i) = &f.ident { let t = i.to_string(); if let Some(x) = t.strip_prefix("r#") { f.ident = Some(quote::format_ident!("{}_", x)); } } } }
            // opaque=A,B,..: payload replaced by a single opaque type when the payload type is not modelled
            if let Some(known) = opts.get("payload") {
                let ok: BTreeSet<&str> = known.split(',').collect();
                for v in e.variants.iter_mut() { for f in v.fields.iter_mut() { if !ok.contains(norm(&f.ty).as_str()) { f.ty = parse_quote!(Opaque); } } }
            }
        }
        syn::Item::Struct(e) => { e.attrs.clear(); e.vis = parse_quote!(pub); if let Some(n) = opts.get("as") { e.ident = quote::format_ident!("{}", n); } for f in e.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); s.visit_type_mut(&mut f.ty); } }
        syn::Item::Const(c) => { c.attrs.clear(); c.vis = parse_quote!(pub); }
        _ => {}
    }
    let mut o = String::new();
    if let syn::Item::Const(c) = &it { if norm(&c.ty) == "&str" || norm(&c.ty) == "&'staticstr" {
        let (id, e) = (&c.ident, &c.expr);
        o.push_str(&format!("pub open spec fn {id}_spec() -> Seq<char> {{ {0}@ }}\npub exec const {id}: &'static str ensures {id}@ == {0}@ {{ {0} }}\n", quote!(#e)));
        // facts about the literal: whether it is a lower-case identifier, and a number that is its alone
        if opts.contains_key("plain") { if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = &**e {
            let v = l.value(); let h = v.bytes().fold(0u128, |h, b| (h.wrapping_mul(257) + b as u128 + 1) % 0xffff_ffff_ffff_ffc5);
            let pl = !v.is_empty() && v.chars().all(|c| c == '_' || c.is_ascii_lowercase() || c.is_ascii_digit()) && !v.starts_with(|c: char| c.is_ascii_digit());
            o.push_str(&format!("#[verifier::external_body] pub proof fn {id}_plain() ensures plain({id}_spec()) == {pl}, strid({id}_spec()) == {h} {{}}\n"));
        } }
        return Ok(o);
    } }
    if let (syn::Item::Const(c), Some(k)) = (&it, sec.get("contract")) {
        let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
        o.push_str(&format!("pub exec const {id}: {} {k} {{ {} }}\n", quote!(#ty), quote!(#e)));
        return Ok(o);
    }
    if let Some(d) = opts.get("derive") { o.push_str(&format!("#[derive({d})]\n")); }
    print(quote!(#it), &mut o);
    o.push('\n');
    Ok(o)
}

/// the end of an iteration, wherever a `continue` ends it
struct TailAtContinue(usize);
impl VisitMut for TailAtContinue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) | Expr::Async(_) => {}
            Expr::Continue(c) if c.label.is_none() => { let n = self.0; *e = parse_quote!({ __rx_tail!(#n); continue; }); }
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }
}
