//! `rx --harness SRC REPO OUT`: copies a harness, replacing each line
//!   //@verbatim FILE | sel ; sel ; .. | except=a,b skipuse=c,d
//! with the exact source text of the selected items of /repo/FILE (a method inside its impl header), of the
//! same-file functions, constants, types and methods these refer to (unless excepted), and of the file's `use`
//! items that do not start at crate/super/self or a skipped crate. `arms=P,Q`: in a match one of whose patterns has the
//! text P or Q, only such arms (and a `_` arm, or one that panics in its place) are kept.
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;

fn offs(src: &str) -> Vec<usize> { let mut v = vec![0]; for (i, b) in src.bytes().enumerate() { if b == b'\n' { v.push(i + 1); } } v }
struct Src<'a> { s: &'a str, l: Vec<usize> }
impl<'a> Src<'a> {
    fn at(&self, p: proc_macro2::LineColumn) -> usize {
        let st = self.l[p.line - 1];
        st + self.s[st..].chars().take(p.column).map(|c| c.len_utf8()).sum::<usize>()
    }
    fn text(&self, sp: proc_macro2::Span) -> &'a str { &self.s[self.at(sp.start())..self.at(sp.end())] }
}
fn idents(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in ts { match t { proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => idents(g.stream(), out), _ => {} } }
}
fn use_tree(t: &syn::UseTree, skip: &[String]) -> Option<String> {
    let root = match t { syn::UseTree::Path(p) => p.ident.to_string(), syn::UseTree::Name(n) => n.ident.to_string(), syn::UseTree::Rename(r) => r.ident.to_string(), syn::UseTree::Glob(_) => return None, syn::UseTree::Group(g) => { let v: Vec<String> = g.items.iter().filter_map(|x| use_tree(x, skip)).collect(); return if v.is_empty() { None } else { Some(format!("{{{}}}", v.join(", "))) } } };
    if ["crate", "super", "self"].contains(&root.as_str()) || skip.contains(&root) { None } else { Some(quote::quote!(#t).to_string()) }
}
struct Cuts<'a, 'b> { s: &'b Src<'a>, arms: &'b [String], v: Vec<(usize, usize, String)> }
impl<'a, 'b, 'c> syn::visit::Visit<'c> for Cuts<'a, 'b> {
    fn visit_expr_match(&mut self, m: &'c syn::ExprMatch) {
        let pat = |a: &syn::Arm| { let p = &a.pat; quote::quote!(#p).to_string().replace(' ', "") };
        let hit = |a: &syn::Arm| self.arms.iter().any(|x| pat(a).contains(x.as_str()));
        if m.arms.iter().any(|a| hit(a)) {
            let mut wild = false; let mut last = 0; let mut cuts = vec![];
            for a in &m.arms { let (x, y) = (self.s.at(a.span().start()), self.s.at(a.span().end())); last = y; if pat(a) == "_" { wild = true; } else if !hit(a) { cuts.push((x, y, String::new())); } }
            if !wild { if let Some(c) = cuts.iter_mut().find(|c| c.1 == last) { c.2 = "_ => panic!(\"VERIF-HARNESS: an arm that is not here\"),".into(); } else { cuts.push((last, last, " _ => panic!(\"VERIF-HARNESS: an arm that is not here\"),".into())); } }
            self.v.extend(cuts);
        }
        syn::visit::visit_expr_match(self, m);
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Key { Item(usize), Method(usize, usize) }

pub fn expand(src: &str, spec: &str) -> Result<String, String> {
    let f = syn::parse_file(src).map_err(|e| e.to_string())?;
    let s = Src { s: src, l: offs(src) };
    let parts: Vec<&str> = spec.split(" | ").map(|x| x.trim()).collect();
    let mut except: Vec<String> = vec![]; let mut skip: Vec<String> = vec![]; let mut arms: Vec<String> = vec![];
    for o in parts.get(1).unwrap_or(&"").split_whitespace() {
        if let Some(x) = o.strip_prefix("except=") { except = x.split(',').map(String::from).collect(); }
        if let Some(x) = o.strip_prefix("arms=") { arms = x.split(',').map(String::from).collect(); }
        if let Some(x) = o.strip_prefix("skipuse=") { skip = x.split(',').map(String::from).collect(); }
    }
    let is_test = |a: &[syn::Attribute]| a.iter().any(|a| { let t = quote::quote!(#a).to_string(); t.contains("cfg") && t.contains("test") });
    let mut items: Vec<&syn::Item> = vec![];
    for i in &f.items {
        let at: &[syn::Attribute] = match i { syn::Item::Fn(x) => &x.attrs, syn::Item::Mod(x) => &x.attrs, syn::Item::Impl(x) => &x.attrs, syn::Item::Struct(x) => &x.attrs, syn::Item::Enum(x) => &x.attrs, syn::Item::Const(x) => &x.attrs, syn::Item::Use(x) => &x.attrs, _ => &[] };
        if !is_test(at) { items.push(i); }
    }
    let ty_of = |i: &syn::Item| -> Option<String> { if let syn::Item::Impl(im) = i { Some(crate::last_seg(&im.self_ty)) } else { None } };
    let name_of = |i: &syn::Item| -> Option<(&'static str, String)> { Some(match i { syn::Item::Fn(x) => ("fn", x.sig.ident.to_string()), syn::Item::Const(x) => ("const", x.ident.to_string()), syn::Item::Static(x) => ("static", x.ident.to_string()), syn::Item::Struct(x) => ("struct", x.ident.to_string()), syn::Item::Enum(x) => ("enum", x.ident.to_string()), syn::Item::Type(x) => ("type", x.ident.to_string()), syn::Item::Trait(x) => ("trait", x.ident.to_string()), _ => return None }) };
    let mut picked: BTreeSet<Key> = BTreeSet::new(); let mut todo: Vec<Key> = vec![];
    let add = |k: Key, picked: &mut BTreeSet<Key>, todo: &mut Vec<Key>| { if picked.insert(k.clone()) { todo.push(k); } };
    for sel in parts[0].split(';').map(|x| x.trim()).filter(|x| !x.is_empty()) {
        let before = picked.len();
        if sel == "*" { for i in 0..items.len() { if !matches!(items[i], syn::Item::Use(_)) && !matches!(items[i], syn::Item::Mod(m) if m.content.is_none()) { add(Key::Item(i), &mut picked, &mut todo); } } continue; }
        let w: Vec<&str> = sel.split("::").map(|x| x.trim()).collect();
        let h: Vec<&str> = w[0].split_whitespace().collect();
        for (n, i) in items.iter().enumerate() {
            if h[0] == "impl" {
                let syn::Item::Impl(im) = i else { continue };
                let ty = crate::last_seg(&im.self_ty); let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let ok = if h.len() == 4 { tr.as_deref() == Some(h[1]) && ty == h[3] } else { tr.is_none() && ty == h[1] };
                if !ok { continue; }
                if w.len() == 1 { add(Key::Item(n), &mut picked, &mut todo); }
                else { for (m, x) in im.items.iter().enumerate() { if let syn::ImplItem::Fn(x) = x { if x.sig.ident == w[1] { add(Key::Method(n, m), &mut picked, &mut todo); } } } }
            } else if name_of(i).map_or(false, |(k, nm)| k == h[0] && nm == h[1]) { add(Key::Item(n), &mut picked, &mut todo); }
        }
        if picked.len() == before { return Err(format!("selector `{sel}` matches nothing")); }
    }
    while let Some(k) = todo.pop() {
        let mut ids = BTreeSet::new();
        let own = match &k { Key::Item(n) => { let i = items[*n]; idents(quote::quote!(#i), &mut ids); ty_of(i) } Key::Method(n, m) => { let syn::Item::Impl(im) = items[*n] else { unreachable!() }; let x = &im.items[*m]; idents(quote::quote!(#x), &mut ids); ty_of(items[*n]) } };
        for (n, i) in items.iter().enumerate() {
            if let Some((k, nm)) = name_of(i) {
                if ids.contains(&nm) && !except.contains(&nm) {
                    add(Key::Item(n), &mut picked, &mut todo);
                    if k == "struct" || k == "enum" { for (q, j) in items.iter().enumerate() { if let syn::Item::Impl(im) = j { if ty_of(j).as_deref() == Some(&nm) { if im.trait_.is_some() { add(Key::Item(q), &mut picked, &mut todo); } else { for (m, x) in im.items.iter().enumerate() { if let syn::ImplItem::Fn(x) = x { if ids.contains(&x.sig.ident.to_string()) { add(Key::Method(q, m), &mut picked, &mut todo); } } } } } } } }
                }
            }
            // methods of a type that is here already
            if let syn::Item::Impl(im) = i { if im.trait_.is_none() { let ty = ty_of(i).unwrap(); let here = own.as_deref() == Some(&ty) || items.iter().enumerate().any(|(q, j)| picked.contains(&Key::Item(q)) && name_of(j).map_or(false, |(_, nm)| nm == ty)); if here && !picked.contains(&Key::Item(n)) { for (m, x) in im.items.iter().enumerate() { if let syn::ImplItem::Fn(x) = x { let nm = x.sig.ident.to_string(); if ids.contains(&nm) && !except.contains(&nm) { add(Key::Method(n, m), &mut picked, &mut todo); } } } } } }
        }
    }
    let mut out = String::new();
    for i in &items { if let syn::Item::Use(u) = i { if let Some(t) = use_tree(&u.tree, &skip) { out.push_str(&format!("pub use {t};\n")); } } }
    let cut = |a: usize, b: usize, mut v: Vec<(usize, usize, String)>| -> String { v.sort(); let mut o = String::new(); let mut at = a; for (x, y, t) in v { if x < at { continue; } o.push_str(&s.s[at..x]); o.push_str(&t); at = y; } o.push_str(&s.s[at..b]); o };
    let mut per: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for k in &picked { match k { Key::Item(n) => { out.push_str(s.text(items[*n].span())); out.push('\n'); } Key::Method(n, m) => per.entry(*n).or_default().push(*m) } }
    for (n, ms) in per {
        let syn::Item::Impl(im) = items[n] else { unreachable!() };
        if picked.contains(&Key::Item(n)) { continue; }
        let a = s.at(im.impl_token.span.start()); let b = s.at(im.brace_token.span.open().start());
        for at in &im.attrs { out.push_str(s.text(at.span())); out.push('\n'); }
        out.push_str(&s.s[a..b]); out.push_str("{\n");
        for m in ms { let sp = im.items[m].span(); let mut c = Cuts { s: &s, arms: &arms, v: vec![] }; if !arms.is_empty() { syn::visit::visit_impl_item(&mut c, &im.items[m]); } out.push_str(&cut(s.at(sp.start()), s.at(sp.end()), c.v)); out.push('\n'); }
        out.push_str("}\n");
    }
    Ok(out)
}
pub fn main(a: &[String]) -> Result<(), String> {
    let h = std::fs::read_to_string(&a[0]).map_err(|e| e.to_string())?;
    let mut out = String::new();
    for l in h.lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@verbatim ") {
            let (file, spec) = r.split_once(" | ").ok_or("bad //@verbatim line")?;
            let p = format!("{}/{}", a[1], file.trim());
            let src = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
            out.push_str(&expand(&src, spec).map_err(|e| format!("{file}: {e}"))?);
        } else { out.push_str(l); out.push('\n'); }
    }
    std::fs::write(&a[2], out).map_err(|e| e.to_string())
}
