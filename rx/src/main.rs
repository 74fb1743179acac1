//! rx: mechanical extractor. Reads a template holding the contracts (ghost code only) and
//! `//@extract` blocks naming functions of /repo, parses the /repo file with syn, rewrites the
//! function with the fixed list of rules in rules.rs and splices the contract text in.
//! usage: rx <template.vrs> <repo> <out.rs> <meta.json>
mod rules;
mod verbatim;
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn die(msg: String) -> ! {
    eprintln!("RX-ERROR: {msg}");
    std::process::exit(3);
}

pub fn last_seg(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => last_seg(&r.elem),
        _ => String::from("?"),
    }
}

pub enum Found {
    Fn(syn::ImplItemFn),
    Item(syn::Item),
}

fn is_test_mod(m: &syn::ItemMod) -> bool {
    m.attrs.iter().any(|a| quote::quote!(#a).to_string().contains("test"))
}

fn items<'a>(f: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in f {
        if let syn::Item::Mod(m) = i {
            if is_test_mod(m) { continue; }
            if let Some((_, c)) = &m.content { items(c, out); }
        } else {
            out.push(i);
        }
    }
}

/// a single-rule macro_rules! with one `$x: ident` parameter that expands to items is read with $x := Repo
fn expand_macro_rules(f: &mut syn::File) {
    use proc_macro2::{TokenStream, TokenTree};
    fn subst(ts: TokenStream, var: &str) -> TokenStream {
        let mut out = vec![];
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match t {
                TokenTree::Punct(p) if p.as_char() == '$' => match it.peek() {
                    Some(TokenTree::Ident(i)) if i == var => { it.next(); out.push(TokenTree::Ident(proc_macro2::Ident::new("Repo", p.span()))); }
                    _ => out.push(TokenTree::Punct(p)),
                },
                TokenTree::Group(g) => out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream(), var)))),
                t => out.push(t),
            }
        }
        out.into_iter().collect()
    }
    let mut extra = vec![];
    for i in &f.items {
        if let syn::Item::Macro(m) = i {
            if m.ident.is_none() || !m.mac.path.is_ident("macro_rules") { continue; }
            let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
            // (pattern) => {body} [;]
            if t.len() < 4 || t.len() > 5 { continue; }
            if let (TokenTree::Group(p), TokenTree::Group(b)) = (&t[0], &t[3]) {
                let pv: Vec<String> = p.stream().into_iter().map(|x| x.to_string()).collect();
                if pv.len() != 4 || pv[0] != "$" || pv[3] != "ident" { continue; }
                if let Ok(x) = syn::parse2::<syn::File>(subst(b.stream(), &pv[1])) { extra.extend(x.items); }
            }
        }
    }
    f.items.extend(extra);
}

fn free_to_impl(f: &syn::ItemFn) -> syn::ImplItemFn {
    syn::ImplItemFn { attrs: vec![], vis: syn::Visibility::Inherited, defaultness: None, sig: f.sig.clone(), block: (*f.block).clone() }
}

/// selectors: `fn NAME` | `impl TYPE :: NAME` | `impl TRAIT for TYPE :: NAME` | `trait TRAIT :: NAME`
/// | `struct NAME` | `enum NAME` | `const NAME`
/// alternatives: `A || B` takes the first that exists (an impl's own method, else the trait's default)
pub fn find(file: &syn::File, sel: &str) -> Result<Found, String> {
    if sel.contains("||") {
        let mut last = Err(String::new());
        for s in sel.split("||") { last = find(file, s.trim()); if last.is_ok() { return last; } }
        return last;
    }
    if let Some((outer, name)) = sel.split_once(" @ ") {
        if let Some(sn) = name.trim().strip_prefix("struct ") {
            // a struct declared inside a function
            let f = match find(file, outer.trim())? { Found::Fn(f) => f, _ => return Err("not a function".into()) };
            let v: Vec<syn::ItemStruct> = f.block.stmts.iter().filter_map(|s| if let syn::Stmt::Item(syn::Item::Struct(s)) = s { if s.ident == sn.trim() { Some(s.clone()) } else { None } } else { None }).collect();
            return if v.len() == 1 { Ok(Found::Item(syn::Item::Struct(v[0].clone()))) } else { Err(format!("struct `{sn}`: {} matches", v.len())) };
        }
        if let Some(k) = name.trim().strip_prefix("async ") {
            // the N-th async block of a function in source order; its captured variables come with //@sig
            let f = match find(file, outer.trim())? { Found::Fn(f) => f, _ => return Err("not a function".into()) };
            struct A(Vec<syn::ExprAsync>);
            impl<'a> syn::visit::Visit<'a> for A { fn visit_expr_async(&mut self, c: &'a syn::ExprAsync) { self.0.push(c.clone()); syn::visit::visit_expr_async(self, c) } }
            let mut v = A(vec![]);
            syn::visit::Visit::visit_block(&mut v, &f.block);
            let k: usize = k.trim().parse().map_err(|_| "async block number")?;
            let b = &v.0.get(k).ok_or(format!("async block {k}: {} found", v.0.len()))?.block;
            return Ok(Found::Fn(syn::parse_quote!(fn block() #b)));
        }
        if let Some(k) = name.trim().strip_prefix("arm ") {
            // the one match arm of a function whose pattern has all of these words; its variables come with //@sig
            let f = match find(file, outer.trim())? { Found::Fn(f) => f, _ => return Err("not a function".into()) };
            struct A<'a>(Vec<&'a str>, Vec<syn::Expr>);
            impl<'a, 'b> syn::visit::Visit<'b> for A<'a> { fn visit_arm(&mut self, c: &'b syn::Arm) { let p = &c.pat; let n = quote::quote!(#p).to_string().replace(' ', ""); if self.0.iter().all(|w| n.contains(w)) { self.1.push((*c.body).clone()); } else { syn::visit::visit_arm(self, c) } } }
            let mut v = A(k.split('&').map(str::trim).collect(), vec![]);
            syn::visit::Visit::visit_block(&mut v, &f.block);
            if v.1.len() != 1 { return Err(format!("match arm `{k}`: {} found", v.1.len())); }
            return Ok(Found::Fn(match v.1.remove(0) { syn::Expr::Block(b) => { let b = b.block; syn::parse_quote!(fn block() #b) } e => syn::parse_quote!(fn block() { #e }) }));
        }
        if let Some(k) = name.trim().strip_prefix("closure ") {
            // the N-th closure of a function in source order; its captured variables come with //@sig
            let f = match find(file, outer.trim())? { Found::Fn(f) => f, _ => return Err("not a function".into()) };
            struct C(Vec<syn::ExprClosure>);
            impl<'a> syn::visit::Visit<'a> for C { fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) { self.0.push(c.clone()); syn::visit::visit_expr_closure(self, c) } }
            let mut v = C(vec![]);
            syn::visit::Visit::visit_block(&mut v, &f.block);
            let k: usize = k.trim().parse().map_err(|_| "closure number")?;
            let c = v.0.get(k).ok_or(format!("closure {k}: {} found", v.0.len()))?;
            let b = &c.body;
            let r: syn::ImplItemFn = match &**b { syn::Expr::Block(b) => { let b = &b.block; syn::parse_quote!(fn closure() #b) } syn::Expr::Async(b) => { let b = &b.block; syn::parse_quote!(fn closure() #b) } b => syn::parse_quote!(fn closure() { #b }) };
            return Ok(Found::Fn(r));
        }
        // the closure bound by `let NAME = |..| {..}` inside a function
        let f = match find(file, outer.trim())? { Found::Fn(f) => f, _ => return Err("not a function".into()) };
        struct V(String, Vec<syn::ExprClosure>);
        impl<'a> syn::visit::Visit<'a> for V {
            fn visit_local(&mut self, l: &'a syn::Local) {
                let id = match &l.pat { syn::Pat::Ident(i) => Some(&i.ident), syn::Pat::Type(t) => if let syn::Pat::Ident(i) = &*t.pat { Some(&i.ident) } else { None }, _ => None };
                if let (Some(id), Some(i)) = (id, &l.init) { if *id == self.0 { if let syn::Expr::Closure(c) = &*i.expr { self.1.push(c.clone()); } } }
                syn::visit::visit_local(self, l)
            }
        }
        let mut v = V(name.trim().to_string(), vec![]);
        syn::visit::Visit::visit_block(&mut v, &f.block);
        if v.1.len() != 1 { return Err(format!("closure `{name}`: {} matches", v.1.len())); }
        let c = v.1.pop().unwrap();
        let b = &c.body;
        let id = quote::format_ident!("{}", name.trim());
        let ins: Vec<syn::FnArg> = c.inputs.iter().map(|p| match p { syn::Pat::Type(_) => syn::parse_quote!(#p), p => syn::parse_quote!(#p: ()) }).collect();
        let r: syn::ImplItemFn = match &**b { syn::Expr::Block(b) => { let b = &b.block; syn::parse_quote!(fn #id(#(#ins),*) #b) } b => syn::parse_quote!(fn #id(#(#ins),*) { #b }) };
        return Ok(Found::Fn(r));
    }
    let mut its = vec![];
    items(&file.items, &mut its);
    let (head, name) = match sel.split_once("::") {
        Some((h, n)) => (h.trim().to_string(), n.trim().to_string()),
        None => { let (k, n) = sel.trim().split_once(' ').ok_or("bad selector")?; (k.trim().to_string(), n.trim().to_string()) }
    };
    let hw: Vec<&str> = head.split_whitespace().collect();
    if hw[0] == "macroenum" {
        // NAME!(A, B = "..", ..) read as enum Keyword { NoKeyword, A, B, .. }
        for it in its { if let syn::Item::Macro(m) = it { if m.ident.is_none() && m.mac.path.is_ident(&name) {
            let ids: Vec<proc_macro2::Ident> = m.mac.tokens.clone().into_iter().filter_map(|t| if let proc_macro2::TokenTree::Ident(i) = t { Some(i) } else { None }).collect();
            return Ok(Found::Item(syn::parse_quote!(pub enum Keyword { NoKeyword, #(#ids),* })));
        } } }
        return Err(format!("macro {name} not found"));
    }
    let mut hits = vec![];
    for it in its {
        match (it, hw[0]) {
            (syn::Item::Fn(f), "fn") if f.sig.ident == name => hits.push(Found::Fn(free_to_impl(f))),
            (syn::Item::Struct(s), "struct") if s.ident == name => hits.push(Found::Item(it.clone())),
            (syn::Item::Enum(s), "enum") if s.ident == name => hits.push(Found::Item(it.clone())),
            (syn::Item::Const(s), "const") if s.ident == name => hits.push(Found::Item(it.clone())),
            (syn::Item::Impl(im), "impl") => {
                let ty = last_seg(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let ok = if hw.len() == 4 && hw[2] == "for" { tr.as_deref() == Some(hw[1]) && ty == hw[3] } else { tr.is_none() && hw.len() == 2 && ty == hw[1] };
                if ok {
                    for x in &im.items {
                        if let syn::ImplItem::Fn(f) = x { if f.sig.ident == name { hits.push(Found::Fn(f.clone())); } }
                        // an associated constant is read as a function without arguments
                        if let syn::ImplItem::Const(c) = x { if c.ident == name { let (id, t, e) = (&c.ident, &c.ty, &c.expr); hits.push(Found::Fn(syn::parse_quote!(fn #id() -> #t { #e }))); } }
                    }
                }
            }
            (syn::Item::Trait(t), "trait") if hw.len() == 2 && t.ident == hw[1] => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                hits.push(Found::Fn(syn::ImplItemFn { attrs: vec![], vis: syn::Visibility::Inherited, defaultness: None, sig: f.sig.clone(), block: b.clone() }));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if hits.len() == 1 { Ok(hits.pop().unwrap()) } else { Err(format!("selector `{sel}`: {} matches", hits.len())) }
}

/// Does the file define the item at all (used by //@absent and //@ifpresent)?
fn exists(file: &syn::File, sel: &str) -> bool { find(file, sel).is_ok() }

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 5 && a[1] == "--harness" { if let Err(e) = verbatim::main(&a[2..]) { die(e); } return; }
    if a.len() < 5 { die("usage: rx <template> <repo> <out.rs> <meta.json>".into()); }
    let tpl = std::fs::read_to_string(&a[1]).unwrap_or_else(|e| die(format!("{}: {e}", a[1])));
    let repo = &a[2];
    let mut files: BTreeMap<String, syn::File> = BTreeMap::new();
    let mut load = |f: &str| -> syn::File {
        let p = if f.starts_with('/') { f.to_string() } else if let Some(r) = f.strip_prefix("~/") { format!("{}/{r}", std::env::var("HOME").unwrap_or("/root".into())) } else { format!("{repo}/{f}") };
        files.entry(p.clone()).or_insert_with(|| {
            let s = std::fs::read_to_string(&p).unwrap_or_else(|e| die(format!("{p}: {e}")));
            let mut f = syn::parse_file(&s).unwrap_or_else(|e| die(format!("{p}: {e}")));
            expand_macro_rules(&mut f);
            f
        }).clone()
    };
    let mut out = String::new();
    let mut sqlhead = String::new();
    let mut funcs: Vec<String> = vec![];
    let mut tpl = tpl;
    while let Some(p) = tpl.lines().position(|l| l.trim().starts_with("//@include ")) {
        let dir = std::path::Path::new(&a[1]).parent().unwrap();
        let mut o = String::new();
        for (k, l) in tpl.lines().enumerate() {
            if k == p { let f = l.trim().strip_prefix("//@include ").unwrap().trim(); o.push_str(&std::fs::read_to_string(dir.join(f)).unwrap_or_else(|e| die(format!("{f}: {e}")))); }
            else { o.push_str(l); }
            o.push('\n');
        }
        tpl = o;
    }
    let lines: Vec<&str> = tpl.lines().collect();
    // names that carry a contract in this template: never inlined
    let mut known: Vec<String> = vec![];
    for l in &lines {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@extract ") { if r.contains("ifpresent") { let ps: Vec<&str> = r.split(" | ").map(|x| x.trim()).collect(); if !exists(&load(ps[0]), ps[1]) { continue; } } if let Some(s) = r.split(" | ").nth(1) { if let Some(n) = s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).last() { known.push(n.into()); } } }
        else if let Some(p) = t.find("fn ") { let n: String = t[p + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect(); if !n.is_empty() { known.push(n); } }
    }
    // `//@sql NAME text`: a string literal with this text (white space collapsed) reads as lit_NAME()
    let sql: Vec<(String, String)> = lines.iter().filter_map(|l| l.trim().strip_prefix("//@sql ")).map(|r| { let (n, t) = r.split_once(' ').unwrap_or((r, "")); (n.to_string(), rules::squeeze(t.trim_matches('`'))) }).collect();
    if !sql.is_empty() {
        let ns: Vec<&str> = sql.iter().map(|x| x.0.as_str()).collect();
        let mut head = format!("pub enum Sql {{ {} }}\npub uninterp spec fn sqltext(s: Sql) -> Seq<char>;\n", ns.join(", "));
        for n in ns { let _ = write!(head, "#[verifier::external_body] pub fn lit_{n}() -> (r: String) ensures r@ == sqltext(Sql::{n}) {{ unimplemented!() }}\n"); }
        sqlhead = head;
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim();
        if l == "//@sqltable" { out.push_str(&sqlhead); i += 1; continue; }
        if l.starts_with("//@sql ") { i += 1; continue; }
        if let Some(rest) = l.strip_prefix("//@extract ") {
            // //@extract FILE | SELECTOR | opt=val opt=val
            let parts: Vec<&str> = rest.split(" | ").map(|x| x.trim()).collect();
            if parts.len() < 2 { die(format!("bad extract line: {l}")); }
            let file = load(parts[0]);
            let mut opts: BTreeMap<String, String> = BTreeMap::new();
            for o in parts.get(2).unwrap_or(&"").split_whitespace() {
                let (k, v) = o.split_once('=').unwrap_or((o, "1"));
                opts.insert(k.into(), v.into());
            }
            opts.entry("known".into()).or_insert(known.join(","));
            // sections
            let mut sec: BTreeMap<String, String> = BTreeMap::new();
            let mut cur = "contract".to_string();
            i += 1;
            loop {
                if i >= lines.len() { die(format!("unterminated extract: {l}")); }
                let t = lines[i].trim();
                if t == "//@end" { i += 1; break; }
                if let Some(x) = t.strip_prefix("//@") { cur = x.trim().to_string(); sec.entry(cur.clone()).or_default(); }
                else { let e = sec.entry(cur.clone()).or_default(); e.push_str(lines[i]); e.push('\n'); }
                i += 1;
            }
            match find(&file, parts[1]) {
                Err(_) if opts.contains_key("ifpresent") => {}
                Err(e) => die(format!("{}: {e}", parts[0])),
                Ok(Found::Item(it)) => {
                    let t = rules::emit_item(it, &opts, &sec).unwrap_or_else(|e| die(format!("{}: {}: {e}", parts[0], parts[1])));
                    let _ = writeln!(out, "// extracted: {} {}", parts[0], parts[1]);
                    out.push_str(&t);
                    funcs.push(format!("{{\"file\":{},\"item\":{},\"kind\":\"type\",\"notes\":[]}}", json_str(parts[0]), json_str(parts[1])));
                }
                Ok(Found::Fn(f)) => {
                    let helpers = rules::helper_table(&file);
                    let (t, notes) = rules::emit_fn(f, &opts, &sec, &helpers, &sql).unwrap_or_else(|e| die(format!("{}: {}: {e}", parts[0], parts[1])));
                    let _ = writeln!(out, "// extracted: {} {}", parts[0], parts[1]);
                    out.push_str(&t);
                    let ns: Vec<String> = notes.iter().map(|n| json_str(n)).collect();
                    funcs.push(format!("{{\"file\":{},\"item\":{},\"kind\":\"fn\",\"notes\":[{}]}}", json_str(parts[0]), json_str(parts[1]), ns.join(",")));
                }
            }
        } else if let Some(rest) = l.strip_prefix("//@absent ") {
            // the proof relies on an item NOT existing (e.g. a trait default not overridden)
            let parts: Vec<&str> = rest.split(" | ").map(|x| x.trim()).collect();
            let file = load(parts[0]);
            if exists(&file, parts[1]) { die(format!("{}: {} exists but the contract assumes it does not", parts[0], parts[1])); }
            i += 1;
        } else {
            out.push_str(lines[i]);
            out.push('\n');
            i += 1;
        }
    }
    std::fs::write(&a[3], out).unwrap();
    std::fs::write(&a[4], format!("{{\"functions\":[{}]}}\n", funcs.join(",\n"))).unwrap();
}
