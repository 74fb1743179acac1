use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
use std::collections::VecDeque;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
//@include parser.inc.rs
// ---- the grammar: what each construct means, as a function of the token stream (None: refused)
pub open spec fn ovs(v: Seq<(String, Value)>) -> Seq<(Seq<char>, Value)> { v.map_values(|p: (String, Value)| (p.0@, p.1)) }
pub open spec fn vv(v: Seq<Vec<OrderByExpr>>) -> Seq<Seq<OrderByExpr>> { v.map_values(|p: Vec<OrderByExpr>| p@) }
pub ghost struct ColV { pub name: Ident, pub ty: Opaque, pub collation: Option<ObjectName>, pub options: Seq<ColumnOptionDef> }
pub open spec fn cv(c: ColumnDef) -> ColV { ColV { name: c.name, ty: c.data_type, collation: c.collation, options: c.options@ } }
pub open spec fn cvs(v: Seq<ColumnDef>) -> Seq<ColV> { v.map_values(|c: ColumnDef| cv(c)) }
pub open spec fn joined(v: Seq<Seq<char>>) -> Seq<char> { join_spec(v, "."@) }
pub broadcast proof fn lemma_ovs(v: Seq<(String, Value)>, p: (String, Value)) ensures #[trigger] ovs(v.push(p)) == ovs(v).push((p.0@, p.1)) { assert(ovs(v.push(p)) =~= ovs(v).push((p.0@, p.1))); }
pub broadcast proof fn lemma_vv(v: Seq<Vec<OrderByExpr>>, p: Vec<OrderByExpr>) ensures #[trigger] vv(v.push(p)) == vv(v).push(p@) { assert(vv(v.push(p)) =~= vv(v).push(p@)); }
pub broadcast proof fn lemma_cvs(v: Seq<ColumnDef>, p: ColumnDef) ensures #[trigger] cvs(v.push(p)) == cvs(v).push(cv(p)) { assert(cvs(v.push(p)) =~= cvs(v).push(cv(p))); }
pub broadcast proof fn lemma_cvs_add(v: Seq<ColumnDef>, w: Seq<ColumnDef>) ensures #[trigger] cvs(v + w) == cvs(v) + cvs(w) { assert(cvs(v + w) =~= cvs(v) + cvs(w)); }
pub broadcast proof fn lemma_views(v: Seq<String>, p: String) ensures #[trigger] views(v.push(p)) == views(v).push(p@) { assert(views(v.push(p)) =~= views(v).push(p@)); }
pub broadcast proof fn lemma_views1(s: Seq<String>) ensures s.len() == 1 ==> #[trigger] views(s) == seq![s[0]@] { if s.len() == 1 { assert(views(s) =~= seq![s[0]@]); } }
pub broadcast proof fn lemma_ovs0(s: Seq<(String, Value)>) ensures s.len() == 0 ==> #[trigger] ovs(s) == Seq::<(Seq<char>, Value)>::empty() { if s.len() == 0 { assert(ovs(s) =~= Seq::<(Seq<char>, Value)>::empty()); } }
pub broadcast proof fn lemma_views0(s: Seq<String>) ensures s.len() == 0 ==> #[trigger] views(s) == Seq::<Seq<char>>::empty() { if s.len() == 0 { assert(views(s) =~= Seq::<Seq<char>>::empty()); } }
pub broadcast proof fn lemma_vv0(s: Seq<Vec<OrderByExpr>>) ensures s.len() == 0 ==> #[trigger] vv(s) == Seq::<Seq<OrderByExpr>>::empty() { if s.len() == 0 { assert(vv(s) =~= Seq::<Seq<OrderByExpr>>::empty()); } }
pub broadcast proof fn lemma_cvs0(s: Seq<ColumnDef>) ensures s.len() == 0 ==> #[trigger] cvs(s) == Seq::<ColV>::empty() { if s.len() == 0 { assert(cvs(s) =~= Seq::<ColV>::empty()); } }
pub broadcast proof fn lemma_ovs1(s: Seq<(String, Value)>) ensures s.len() == 1 ==> #[trigger] ovs(s) == seq![(s[0].0@, s[0].1)] { if s.len() == 1 { assert(ovs(s) =~= seq![(s[0].0@, s[0].1)]); } }
pub broadcast proof fn lemma_join(v: Seq<Seq<char>>, p: Seq<char>) ensures #[trigger] joined(v.push(p)) == (if v.len() == 0 { p } else { joined(v) + "."@ + p }) { assert(v.push(p).drop_last() =~= v); }
pub broadcast proof fn lemma_skip(s: St) ensures (#[trigger] skip_semis(s)).toks == s.toks, skip_semis(s).pos >= s.pos, tok(s, 0) is SemiColon ==> skip_semis(s).pos > s.pos && skip_semis(s) == skip_semis(adv(s, 1)) decreases left(s)
{ if tok(s, 0) is SemiColon { lemma_skip(adv(s, 1)); } }
pub broadcast group parser_lemmas { lemma_ovs, lemma_vv, lemma_cvs, lemma_cvs_add, lemma_views, lemma_views1, lemma_join, lemma_ovs0, lemma_views0, lemma_vv0, lemma_cvs0, lemma_ovs1, lemma_start, lemma_semi, lemma_stmt, lemma_stop }
// a dotted option key: word (. word)*, or one quoted string
pub open spec fn g_key_rest(s: St, acc: Seq<Seq<char>>) -> Option<(Seq<Seq<char>>, St)> decreases left(s) {
    if tok(s, 0) is Period { match tok(s, 1) { Token::Word(w) => g_key_rest(adv(s, 2), acc.push(w.value@)), _ => None } } else { Some((acc, s)) }
}
pub open spec fn g_key(s: St) -> Option<(Seq<char>, St)> {
    match tok(s, 0) {
        Token::Word(w) => match g_key_rest(adv(s, 1), seq![w.value@]) { Some((p, t)) => Some((joined(p), t)), None => None },
        Token::SingleQuotedString(x) => Some((x@, adv(s, 1))),
        Token::DoubleQuotedString(x) => Some((x@, adv(s, 1))),
        Token::EscapedStringLiteral(x) => Some((x@, adv(s, 1))),
        _ => None,
    }
}
pub open spec fn g_value(s: St) -> Option<(Value, St)> {
    match tok(s, 0) {
        Token::Word(w) => Some((Value::SingleQuotedString(w.value), adv(s, 1))),
        Token::SingleQuotedString(x) => Some((Value::SingleQuotedString(x), adv(s, 1))),
        Token::DoubleQuotedString(x) => Some((Value::DoubleQuotedString(x), adv(s, 1))),
        Token::EscapedStringLiteral(x) => Some((Value::EscapedStringLiteral(x), adv(s, 1))),
        Token::Number(x, l) => Some((Value::Number(x, l), adv(s, 1))),
        _ => None,
    }
}
// OPTIONS ( key value, .. [,] )
pub open spec fn g_options_rest(s: St, acc: Seq<(Seq<char>, Value)>) -> Option<(Seq<(Seq<char>, Value)>, St)> decreases left(s) {
    match g_key(s) { None => None, Some((k, s1)) => match g_value(s1) { None => None, Some((v, s2)) => {
        let a = acc.push((k, v));
        if tok(s2, 0) is RParen { Some((a, adv(s2, 1))) }
        else if !(tok(s2, 0) is Comma) { None }
        else if tok(s2, 1) is RParen { Some((a, adv(s2, 2))) }
        else if left(adv(s2, 1)) < left(s) { g_options_rest(adv(s2, 1), a) } else { None }
    } } }
}
pub open spec fn g_options(s: St) -> Option<(Seq<(Seq<char>, Value)>, St)> { if tok(s, 0) is LParen { g_options_rest(adv(s, 1), Seq::empty()) } else { None } }
// [( name, .. [,] )]
pub open spec fn g_parts_rest(s: St, acc: Seq<Seq<char>>) -> Option<(Seq<Seq<char>>, St)> decreases left(s) {
    if !is_word(s) { None } else { match ident_at(s, false) { None => None, Some((i, s2)) => {
        let a = acc.push(i.disp());
        if tok(s2, 0) is RParen { Some((a, adv(s2, 1))) }
        else if !(tok(s2, 0) is Comma) { None }
        else if tok(s2, 1) is RParen { Some((a, adv(s2, 2))) }
        else if left(adv(s2, 1)) < left(s) { g_parts_rest(adv(s2, 1), a) } else { None }
    } } }
}
pub open spec fn g_parts(s: St) -> Option<(Seq<Seq<char>>, St)> {
    if !(tok(s, 0) is LParen) { Some((Seq::empty(), s)) } else if tok(s, 1) is RParen { Some((Seq::empty(), adv(s, 2))) } else { g_parts_rest(adv(s, 1), Seq::empty()) }
}
pub open spec fn g_format(s: St) -> Option<(Seq<char>, St)> { match tok(s, 0) { Token::Word(w) => Some((upper(w.value@), adv(s, 1))), _ => None } }
// COPY clauses: any order, each at most once, up to the end of the statement, which is left in place
pub ghost struct CopyB { pub stored: Option<Seq<char>>, pub target: Option<Seq<char>>, pub parts: Option<Seq<Seq<char>>>, pub opts: Option<Seq<(Seq<char>, Value)>> }
pub open spec fn ends(s: St) -> bool { tok(s, 0) is EOF || tok(s, 0) is SemiColon }
pub open spec fn g_copy_clauses(s: St, b: CopyB) -> Option<(CopyB, St)> decreases left(s) {
    let s1 = adv(s, 1); let s2 = adv(s, 2);
    if is_kw(s, Keyword::STORED) {
        if !is_kw(s1, Keyword::AS) || b.stored is Some { None } else { match g_format(s2) { Some((x, t)) if left(t) < left(s) => g_copy_clauses(t, CopyB { stored: Some(x), ..b }), _ => None } }
    } else if is_kw(s, Keyword::TO) {
        if b.target is Some { None } else { match string_at(s1) { Some((x, t)) if left(t) < left(s) => g_copy_clauses(t, CopyB { target: Some(x), ..b }), _ => None } }
    } else if is_kw(s, Keyword::PARTITIONED) {
        if !is_kw(s1, Keyword::BY) || b.parts is Some { None } else { match g_parts(s2) { Some((x, t)) if left(t) < left(s) => g_copy_clauses(t, CopyB { parts: Some(x), ..b }), _ => None } }
    } else if is_kw(s, Keyword::OPTIONS) {
        if b.opts is Some { None } else { match g_options(s1) { Some((x, t)) if left(t) < left(s) => g_copy_clauses(t, CopyB { opts: Some(x), ..b }), _ => None } }
    } else if ends(s) { Some((b, s)) } else { None }
}
pub open spec fn no_copy() -> CopyB { CopyB { stored: None, target: None, parts: None, opts: None } }
// ORDER BY lists
pub open spec fn g_order_item(s: St) -> Option<(OrderByExpr, St)> {
    match expr_at(s) { None => None, Some((e, s1)) => {
        let asc = if is_kw(s1, Keyword::ASC) { Some(true) } else if is_kw(s1, Keyword::DESC) { Some(false) } else { None };
        let s2 = if asc is Some { adv(s1, 1) } else { s1 };
        let nulls = if is_kw(s2, Keyword::NULLS) && is_kw(adv(s2, 1), Keyword::FIRST) { Some(true) } else if is_kw(s2, Keyword::NULLS) && is_kw(adv(s2, 1), Keyword::LAST) { Some(false) } else { None };
        Some((OrderByExpr { expr: e, asc: asc, nulls_first: nulls, with_fill: None }, if nulls is Some { adv(s2, 2) } else { s2 }))
    } }
}
pub open spec fn g_order_rest(s: St, acc: Seq<OrderByExpr>) -> Option<(Seq<OrderByExpr>, St)> decreases left(s) {
    match g_order_item(s) { None => None, Some((x, t)) => {
        if tok(t, 0) is Comma { if left(adv(t, 1)) < left(s) { g_order_rest(adv(t, 1), acc.push(x)) } else { None } }
        else if tok(t, 0) is RParen { Some((acc.push(x), adv(t, 1))) } else { None }
    } }
}
pub open spec fn g_order(s: St) -> Option<(Seq<OrderByExpr>, St)> { if tok(s, 0) is LParen { g_order_rest(adv(s, 1), Seq::empty()) } else { None } }
// column definitions
pub open spec fn g_col_options(s: St, acc: Seq<ColumnOptionDef>) -> Option<(Seq<ColumnOptionDef>, St)> decreases left(s) {
    if is_kw(s, Keyword::CONSTRAINT) {
        match ident_at(adv(s, 1), false) { None => None, Some((n, s2)) => match option_at(s2) { Some((Some(o), t)) if left(t) < left(s) => g_col_options(t, acc.push(ColumnOptionDef { name: Some(n), option: o })), _ => None } }
    } else { match option_at(s) { None => None, Some((None, t)) => Some((acc, t)), Some((Some(o), t)) => if left(t) < left(s) { g_col_options(t, acc.push(ColumnOptionDef { name: None, option: o })) } else { None } } }
}
pub open spec fn g_col(s: St) -> Option<(ColV, St)> {
    match ident_at(s, false) { None => None, Some((n, s1)) => match type_at(s1) { None => None, Some((ty, s2)) => {
        if is_kw(s2, Keyword::COLLATE) {
            match name_at(adv(s2, 1), false) { None => None, Some((c, s3)) => match g_col_options(s3, Seq::empty()) { None => None, Some((o, t)) => Some((ColV { name: n, ty: ty, collation: Some(c), options: o }, t)) } }
        } else { match g_col_options(s2, Seq::empty()) { None => None, Some((o, t)) => Some((ColV { name: n, ty: ty, collation: None, options: o }, t)) } }
    } } }
}
// one entry of a column list: a table constraint, else a column
pub open spec fn g_cols_item(s: St) -> Option<(Option<ColV>, Option<Opaque>, St)> {
    match constraint_at(s) { None => None, Some((Some(c), s2)) => Some((None, Some(c), s2)),
        Some((None, s1)) => if !is_word(s1) { None } else { match g_col(s1) { None => None, Some((c, s2)) => Some((Some(c), None, s2)) } } }
}
pub open spec fn g_cols_rest(s: St, cols: Seq<ColV>, cons: Seq<Opaque>) -> Option<(Seq<ColV>, Seq<Opaque>, St)> decreases left(s) {
    match g_cols_item(s) { None => None, Some((c, k, s2)) => {
        let cols2 = match c { Some(c) => cols.push(c), None => cols };
        let cons2 = match k { Some(k) => cons.push(k), None => cons };
        if tok(s2, 0) is RParen { Some((cols2, cons2, adv(s2, 1))) }
        else if !(tok(s2, 0) is Comma) { None }
        else if tok(s2, 1) is RParen { Some((cols2, cons2, adv(s2, 2))) }
        else if left(adv(s2, 1)) < left(s) { g_cols_rest(adv(s2, 1), cols2, cons2) } else { None }
    } }
}
pub open spec fn g_cols(s: St) -> Option<(Seq<ColV>, Seq<Opaque>, St)> {
    if !(tok(s, 0) is LParen) { Some((Seq::empty(), Seq::empty(), s)) } else if tok(s, 1) is RParen { Some((Seq::empty(), Seq::empty(), adv(s, 2))) } else { g_cols_rest(adv(s, 1), Seq::empty(), Seq::empty()) }
}
// CREATE EXTERNAL TABLE clauses
pub ghost struct ExtB { pub format: Option<Seq<char>>, pub location: Option<Seq<char>>, pub parts: Option<Seq<Seq<char>>>, pub orders: Seq<Seq<OrderByExpr>>, pub opts: Option<Seq<(Seq<char>, Value)>>, pub cols: Seq<ColV> }
pub open spec fn names(c: Seq<ColV>) -> Seq<Seq<char>> { c.map_values(|c: ColV| c.name.disp()) }
// names, or definitions which then are columns as well
pub open spec fn g_ext_parts(s: St, b: ExtB) -> Option<(ExtB, St)> {
    if tok(s, 2) is Comma || tok(s, 2) is RParen { match g_parts(s) { None => None, Some((p, t)) => Some((ExtB { parts: Some(p), ..b }, t)) } }
    else { match g_cols(s) { None => None, Some((c, k, t)) => if k.len() != 0 { None } else { Some((ExtB { parts: Some(names(c)), cols: b.cols + c, ..b }, t)) } } }
}
pub open spec fn g_ext_clauses(s: St, b: ExtB) -> Option<(ExtB, St)> decreases left(s) {
    let s1 = adv(s, 1); let s2 = adv(s, 2);
    if is_kw(s, Keyword::STORED) {
        if !is_kw(s1, Keyword::AS) || b.format is Some { None } else { match g_format(s2) { Some((x, t)) if left(t) < left(s) => g_ext_clauses(t, ExtB { format: Some(x), ..b }), _ => None } }
    } else if is_kw(s, Keyword::LOCATION) {
        if b.location is Some { None } else { match string_at(s1) { Some((x, t)) if left(t) < left(s) => g_ext_clauses(t, ExtB { location: Some(x), ..b }), _ => None } }
    } else if is_kw(s, Keyword::WITH) {
        if !is_kw(s1, Keyword::ORDER) { None } else { match g_order(s2) { Some((x, t)) if left(t) < left(s) => g_ext_clauses(t, ExtB { orders: b.orders.push(x), ..b }), _ => None } }
    } else if is_kw(s, Keyword::PARTITIONED) {
        if !is_kw(s1, Keyword::BY) || b.parts is Some { None } else { match g_ext_parts(s2, b) { Some((x, t)) if left(t) < left(s) => g_ext_clauses(t, x), _ => None } }
    } else if is_kw(s, Keyword::OPTIONS) {
        if b.opts is Some { None } else { match g_options(s1) { Some((x, t)) if left(t) < left(s) => g_ext_clauses(t, ExtB { opts: Some(x), ..b }), _ => None } }
    } else if is_kw(s, Keyword::DELIMITER) || is_kw(s, Keyword::COMPRESSION) { None }
    else if ends(s) { Some((b, s)) } else { None }
}
// ---- what a statement is
pub ghost enum Stm {
    Native(SQLStatement),
    Vacuum(ObjectName),
    VacuumDb(Ident),
    Truncate(ObjectName),
    Convert { location: Seq<char>, table: ObjectName },
    Copy { source: CopyToSource, b: CopyB },
    Function { or_replace: bool, temporary: bool, name: ObjectName, body: BodyV },
    External { name: ObjectName, if_not_exists: bool, temporary: bool, unbounded: bool, constraints: Seq<Opaque>, b: ExtB },
}
pub ghost enum BodyV { Dollar(DollarQuotedString), Text(Seq<char>) }
pub open spec fn opt_or<T>(o: Option<Seq<T>>) -> Seq<T> { match o { Some(x) => x, None => Seq::empty() } }
pub open spec fn body_is(e: Expr, b: BodyV) -> bool {
    match b { BodyV::Dollar(d) => e == Expr::Value(Value::DollarQuotedString(d)), BodyV::Text(t) => match e { Expr::Value(Value::SingleQuotedString(x)) => x@ == t, _ => false } }
}
pub open spec fn truncates(t: SQLStatement, n: spec_fn(ObjectName) -> bool, table: bool) -> bool {
    match t { SQLStatement::Truncate { table_names, partitions, table: tb, only, identity, cascade, on_cluster } =>
        table_names@.len() == 1 && n(table_names@[0].name) && tb == table && !only && identity is None && cascade is None && on_cluster is None, _ => false }
}
pub open spec fn parts_of(t: SQLStatement) -> Option<Vec<Expr>> { match t { SQLStatement::Truncate { partitions, .. } => partitions, _ => None } }
// the statement handed on says exactly what was written
#[verifier::opaque]
pub open spec fn means(x: Statement, m: Stm) -> bool {
    match m {
        Stm::Native(q) => x matches Statement::Statement(b) && *b == q,
        Stm::Vacuum(n) => x matches Statement::Statement(b) && truncates(*b, |o: ObjectName| o == n, false) && parts_of(*b) is None,
        Stm::VacuumDb(i) => x matches Statement::Statement(b) && truncates(*b, |o: ObjectName| o.0@.len() == 0, false) && parts_of(*b) is Some && parts_of(*b)->0@.len() == 1 && parts_of(*b)->0@[0] == Expr::Identifier(i),
        Stm::Truncate(n) => x matches Statement::Statement(b) && truncates(*b, |o: ObjectName| o == n, true) && parts_of(*b) is None,
        Stm::Convert { location, table } => x matches Statement::CopyTo(c) && c.source == CopyToSource::Relation(table) && c.target@ == location && ovs(c.options@) == seq![convert_mark()] && c.partitioned_by@.len() == 0 && c.stored_as is None,
        Stm::Copy { source, b } => x matches Statement::CopyTo(c) && c.source == source && Some(c.target@) == b.target && ovs(c.options@) == opt_or(b.opts) && views(c.partitioned_by@) == opt_or(b.parts)
            && (c.stored_as is Some <==> b.stored is Some) && (b.stored is Some ==> c.stored_as->0@ == b.stored->0),
        Stm::Function { or_replace, temporary, name, body } => x matches Statement::Statement(b) && ((*b) matches SQLStatement::CreateFunction(f) && f.or_replace == or_replace && f.temporary == temporary && f.name == name
            && (f.function_body matches Some(CreateFunctionBody::AsBeforeOptions(e)) && body_is(e, body))
            && !f.if_not_exists && f.args is None && f.return_type is None && f.behavior is None && f.called_on_null is None && f.parallel is None && f.using is None && f.language is None && f.determinism_specifier is None && f.options is None && f.remote_connection is None),
        Stm::External { name, if_not_exists, temporary, unbounded, constraints, b } => x matches Statement::CreateExternalTable(c) && c.name == name && c.if_not_exists == if_not_exists && c.temporary == temporary && c.unbounded == unbounded
            && c.constraints@ == constraints && cvs(c.columns@) == b.cols && Some(c.file_type@) == b.format && Some(c.location@) == b.location && views(c.table_partition_cols@) == opt_or(b.parts) && vv(c.order_exprs@) == b.orders && ovs(c.options@) == opt_or(b.opts),
    }
}
pub open spec fn g_vacuum(s: St) -> Option<(Stm, St)> {
    if is_kw(s, Keyword::TABLE) { match name_at(adv(s, 1), true) { None => None, Some((n, t)) => Some((Stm::Vacuum(n), t)) } }
    else if is_kw(s, Keyword::DATABASE) { match ident_at(adv(s, 1), false) { None => None, Some((n, t)) => Some((Stm::VacuumDb(n), t)) } }
    else { None }
}
pub open spec fn g_truncate(s: St) -> Option<(Stm, St)> { if is_kw(s, Keyword::TABLE) { match name_at(adv(s, 1), true) { None => None, Some((n, t)) => Some((Stm::Truncate(n), t)) } } else { None } }
pub open spec fn g_convert(s: St) -> Option<(Stm, St)> {
    match string_at(s) { None => None, Some((l, s1)) => if is_kw(s1, Keyword::TO) && is_kw(adv(s1, 1), Keyword::DELTA) { match name_at(adv(s1, 2), true) { None => None, Some((n, t)) => Some((Stm::Convert { location: l, table: n }, t)) } } else { None } }
}
pub open spec fn g_copy_source(s: St) -> Option<(CopyToSource, St)> {
    if tok(s, 0) is LParen { match query_at(adv(s, 1)) { Some((q, t)) if tok(t, 0) is RParen => Some((CopyToSource::Query(Box::new(q)), adv(t, 1))), _ => None } }
    else { match name_at(s, true) { None => None, Some((n, t)) => Some((CopyToSource::Relation(n), t)) } }
}
pub open spec fn g_copy(s: St) -> Option<(Stm, St)> {
    match g_copy_source(s) { None => None, Some((src, s1)) => match g_copy_clauses(s1, no_copy()) { Some((b, t)) if b.target is Some => Some((Stm::Copy { source: src, b: b }, t)), _ => None } }
}
pub open spec fn g_body(s: St) -> Option<(BodyV, St)> {
    match tok(s, 0) { Token::DollarQuotedString(d) => Some((BodyV::Dollar(d), adv(s, 1))), _ => match string_at(s) { None => None, Some((x, t)) => Some((BodyV::Text(x), t)) } }
}
pub open spec fn g_function(s: St, or_replace: bool, temporary: bool) -> Option<(Stm, St)> {
    match name_at(s, false) { None => None, Some((n, s1)) => if !is_kw(s1, Keyword::AS) { None } else { match g_body(adv(s1, 1)) { None => None, Some((b, t)) => Some((Stm::Function { or_replace: or_replace, temporary: temporary, name: n, body: b }, t)) } } }
}
pub open spec fn ext_done(n: ObjectName, ine: bool, temporary: bool, unbounded: bool, cons: Seq<Opaque>, x: Option<(ExtB, St)>) -> Option<(Stm, St)> {
    match x { None => None, Some((b, t)) => if b.format is Some && b.location is Some { Some((Stm::External { name: n, if_not_exists: ine, temporary: temporary, unbounded: unbounded, constraints: cons, b: b }, t)) } else { None } }
}
pub open spec fn g_external(s: St, unbounded: bool) -> Option<(Stm, St)> {
    let temporary = is_kw(s, Keyword::TEMP) || is_kw(s, Keyword::TEMPORARY);
    let s1 = if temporary { adv(s, 1) } else { s };
    if !is_kw(s1, Keyword::TABLE) { None } else {
        let s2 = adv(s1, 1);
        let ine = is_kw(s2, Keyword::IF) && is_kw(adv(s2, 1), Keyword::NOT) && is_kw(adv(s2, 2), Keyword::EXISTS);
        let s3 = if ine { adv(s2, 3) } else { s2 };
        match name_at(s3, true) { None => None, Some((n, s4)) => match g_cols(s4) { None => None, Some((cols, cons, s5)) =>
            ext_done(n, ine, temporary, unbounded, cons, g_ext_clauses(s5, ExtB { format: None, location: None, parts: None, orders: Seq::empty(), opts: None, cols: cols })) } }
    }
}
// after CREATE
pub open spec fn g_create(s: St) -> Option<(Stm, St)> {
    let or_replace = is_kw(s, Keyword::OR) && is_kw(adv(s, 1), Keyword::REPLACE);
    let s1 = if or_replace { adv(s, 2) } else { s };
    if is_kw(s1, Keyword::EXTERNAL) { g_external(adv(s1, 1), false) }
    else if is_kw(s1, Keyword::UNBOUNDED) { if is_kw(adv(s1, 1), Keyword::EXTERNAL) { g_external(adv(s1, 2), true) } else { None } }
    else if is_kw(s1, Keyword::FUNCTION) { g_function(adv(s1, 1), or_replace, false) }
    else { match create_at(s) { None => None, Some((q, t)) => Some((Stm::Native(q), t)) } }   // everything else is sqlparser's, OR REPLACE included
}
#[verifier::opaque]
pub open spec fn g_statement(s: St) -> Option<(Stm, St)> {
    if is_kw(s, Keyword::CREATE) { g_create(adv(s, 1)) }
    else if is_kw(s, Keyword::CONVERT) { g_convert(adv(s, 1)) }
    else if is_kw(s, Keyword::COPY) { g_copy(adv(s, 1)) }
    else if is_kw(s, Keyword::VACUUM) { g_vacuum(adv(s, 1)) }
    else if is_kw(s, Keyword::TRUNCATE) { g_truncate(adv(s, 1)) }
    else { match statement_at(s) { None => None, Some((q, t)) => Some((Stm::Native(q), t)) } }
}
// a script: statements separated by one or more semicolons (empty statements ignored), all of them, in order
pub open spec fn skip_semis(s: St) -> St decreases left(s) { if tok(s, 0) is SemiColon { skip_semis(adv(s, 1)) } else { s } }
pub open spec fn g_script(s: St, acc: Seq<Stm>, need_semi: bool) -> Option<Seq<Stm>> decreases left(s) {
    let s1 = skip_semis(s);
    if tok(s1, 0) is EOF { Some(acc) }
    else if need_semi && s1 == s { None }
    else { match g_statement(s1) { Some((m, t)) if left(t) < left(s1) && left(s1) <= left(s) => g_script(t, acc.push(m), true), _ => None } }
}
#[verifier::opaque]
pub open spec fn all_mean(v: Seq<Statement>, m: Seq<Stm>) -> bool { v.len() == m.len() && forall|i: int| 0 <= i < v.len() ==> means(#[trigger] v[i], m[i]) }

// reading the script so far left these statements and this rest
pub open spec fn whole(s0: St) -> Option<Seq<Stm>> { g_script(s0, Seq::empty(), false) }
#[verifier::opaque]
pub open spec fn so_far(v: Seq<Statement>, cur: St, delim: bool, s0: St) -> bool { exists|acc: Seq<Stm>| all_mean(v, acc) && #[trigger] g_script(cur, acc, delim) == whole(s0) }
#[verifier::opaque]
pub open spec fn reads(s0: St, v: Seq<Statement>) -> bool { whole(s0) matches Some(m) && all_mean(v, m) }
pub broadcast proof fn lemma_start(v: Seq<Statement>, s0: St) ensures v.len() == 0 ==> #[trigger] so_far(v, s0, false, s0) { reveal(so_far); reveal(all_mean); if v.len() == 0 { assert(all_mean(v, Seq::empty())); assert(g_script(s0, Seq::empty(), false) == whole(s0)); } }
pub broadcast proof fn lemma_semi(v: Seq<Statement>, cur: St, delim: bool, s0: St) requires so_far(v, cur, delim, s0), tok(cur, 0) is SemiColon ensures #![trigger so_far(v, cur, delim, s0), adv(cur, 1)] so_far(v, adv(cur, 1), false, s0) {
    reveal(so_far); let acc = choose|acc: Seq<Stm>| all_mean(v, acc) && #[trigger] g_script(cur, acc, delim) == whole(s0);
    lemma_skip(cur); lemma_skip(adv(cur, 1));
    assert(g_script(adv(cur, 1), acc, false) == g_script(cur, acc, delim));
}
pub broadcast proof fn lemma_stmt(v: Seq<Statement>, cur: St, s0: St, x: Statement) requires so_far(v, cur, false, s0), !(tok(cur, 0) is SemiColon), !(tok(cur, 0) is EOF), g_statement(cur) is Some, left((g_statement(cur)->0).1) < left(cur), means(x, (g_statement(cur)->0).0)
    ensures #![trigger so_far(v, cur, false, s0), v.push(x)] so_far(v.push(x), (g_statement(cur)->0).1, true, s0) {
    reveal(so_far); reveal(all_mean); let acc = choose|acc: Seq<Stm>| all_mean(v, acc) && #[trigger] g_script(cur, acc, false) == whole(s0);
    let (m, t) = g_statement(cur)->0;
    assert(all_mean(v.push(x), acc.push(m)));
    assert(g_script(t, acc.push(m), true) == g_script(cur, acc, false));
}
pub broadcast proof fn lemma_stop(v: Seq<Statement>, cur: St, delim: bool, s0: St) requires #[trigger] so_far(v, cur, delim, s0), !(tok(cur, 0) is SemiColon)
    ensures tok(cur, 0) is EOF ==> reads(s0, v) && whole(s0) is Some, !(tok(cur, 0) is EOF) && (delim || g_statement(cur) is None) ==> whole(s0) is None {
    reveal(so_far); reveal(reads); let acc = choose|acc: Seq<Stm>| all_mean(v, acc) && #[trigger] g_script(cur, acc, delim) == whole(s0);
}
// ---- the code
pub mod code {
use super::*;
broadcast use parser_lemmas;
pub struct DFParser { pub parser: Parser }
//@extract src/datafusion/parser.rs | fn parse_file_type
//@methods
to_uppercase/0 => rx_upper
//@contract
    ensures r is Ok, r->Ok_0@ == upper(s@),
//@end
//@extract src/datafusion/parser.rs | fn ensure_not_set
//@contract
    ensures r is Ok <==> field is None,
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_copy @ struct Builder | as=CopyBuilder
//@end
impl CopyBuilder { #[verifier::external_body] pub fn default() -> (r: CopyBuilder) ensures cbv(r) == no_copy() { unimplemented!() } }
pub open spec fn ostr(o: Option<String>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn cbv(b: CopyBuilder) -> CopyB { CopyB { stored: ostr(b.stored_as), target: ostr(b.target), parts: match b.partitioned_by { Some(x) => Some(views(x@)), None => None }, opts: match b.options { Some(x) => Some(ovs(x@)), None => None } } }
//@extract src/datafusion/parser.rs | impl DFParser :: parse_create_external_table @ struct Builder | as=ExtBuilder
//@end
impl ExtBuilder { #[verifier::external_body] pub fn default() -> (r: ExtBuilder) ensures r.file_type is None, r.location is None, r.table_partition_cols is None, r.order_exprs@.len() == 0, r.options is None { unimplemented!() } }
pub open spec fn ebv(b: ExtBuilder, cols: Seq<ColumnDef>) -> ExtB { ExtB { format: ostr(b.file_type), location: ostr(b.location), parts: match b.table_partition_cols { Some(x) => Some(views(x@)), None => None }, orders: vv(b.order_exprs@), opts: match b.options { Some(x) => Some(ovs(x@)), None => None }, cols: cvs(cols) } }
#[verifier::external_body] pub fn rx_str(s: &str) -> String { unimplemented!() }
#[verifier::external_body] pub fn mut_extend(v: &mut Vec<ColumnDef>, w: Vec<ColumnDef>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
impl DFParser {
//@extract src/datafusion/parser.rs | impl DFParser :: expected
//@contract
    ensures r is Err,
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: new_with_dialect
//@types
&'a dyn Dialect => D
Result<Self,ParserError> => Result<DFParser,ParserError>
//@generics
<D: Copy>
//@contract
    ensures match tokens_of(sql@) { None => r is Err, Some(t) => r is Ok && r->Ok_0.parser.st() == (St { toks: t, pos: 0 }) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: new
//@contract
    ensures match tokens_of(sql@) { None => r is Err, Some(t) => r is Ok && r->Ok_0.parser.st() == (St { toks: t, pos: 0 }) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_sql
//@contract
    ensures match tokens_of(sql@) { None => r is Err, Some(t) => match whole(St { toks: t, pos: 0 }) { None => r is Err, Some(m) => r is Ok && reads(St { toks: t, pos: 0 }, r->Ok_0@) } },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_sql_with_dialect
//@types
&dyn Dialect => D
//@generics
<D: Copy>
//@loop 0
    invariant_except_break tokens_of(sql@) is Some, parser.parser.st().toks == tokens_of(sql@)->0, so_far(stmts@, parser.parser.st(), expecting_statement_delimiter, St { toks: tokens_of(sql@)->0, pos: 0 }),
    ensures tokens_of(sql@) is Some, whole(St { toks: tokens_of(sql@)->0, pos: 0 }) is Some, reads(St { toks: tokens_of(sql@)->0, pos: 0 }, stmts@),
    decreases left(parser.parser.st()),
//@body 0
    let ghost l0 = left(parser.parser.st());
//@loop 1
    invariant left(parser.parser.st()) <= l0, tokens_of(sql@) is Some, parser.parser.st().toks == tokens_of(sql@)->0,
    so_far(stmts@, parser.parser.st(), expecting_statement_delimiter, St { toks: tokens_of(sql@)->0, pos: 0 }),
    decreases left(parser.parser.st()),
//@contract
    ensures match tokens_of(sql@) { None => r is Err, Some(t) => match whole(St { toks: t, pos: 0 }) { None => r is Err, Some(m) => r is Ok && reads(St { toks: t, pos: 0 }, r->Ok_0@) } },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_statement
//@calls
Box::from => rx_box
Box::new => rx_box
//@entry
    proof { reveal(means); reveal(g_statement); }
//@contract
    ensures match g_statement(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && means(r->Ok_0, x) && final(self).parser.st() == t && fwd(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_convert
//@calls
Box::from => rx_box
Box::new => rx_box
//@entry
    proof { reveal(means); }
//@contract
    ensures match g_convert(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && means(r->Ok_0, x) && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_vacuum
//@calls
Box::from => rx_box
Box::new => rx_box
//@entry
    proof { reveal(means); }
//@contract
    ensures match g_vacuum(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && means(r->Ok_0, x) && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_truncate
//@calls
Box::from => rx_box
Box::new => rx_box
//@entry
    proof { reveal(means); }
//@contract
    ensures match g_truncate(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && means(r->Ok_0, x) && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_copy
//@rename
Builder => CopyBuilder
//@methods
into/0 => rx_str
//@loop 0
    invariant_except_break same_from(old(self).parser.st(), self.parser.st()), g_copy_source(old(self).parser.st()) matches Some((src, s1)) && src == source && g_copy_clauses(self.parser.st(), cbv(builder)) == g_copy_clauses(s1, no_copy()),
    ensures same_from(old(self).parser.st(), self.parser.st()), g_copy_source(old(self).parser.st()) matches Some((src, s1)) && src == source && g_copy_clauses(s1, no_copy()) == Some((cbv(builder), self.parser.st())),
    decreases left(self.parser.st()),
//@entry
    proof { reveal(means); }
//@contract
    ensures match g_copy(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && means(r->Ok_0, x) && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_option_key
//@loop 0
    invariant same_from(old(self).parser.st(), self.parser.st()), tok(old(self).parser.st(), 0) matches Token::Word(w) && g_key_rest(self.parser.st(), views(parts@)) == g_key_rest(adv(old(self).parser.st(), 1), seq![w.value@]),
    decreases left(self.parser.st()),
//@contract
    ensures match g_key(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0@ == x && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_option_value
//@contract
    ensures match g_value(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0 == x && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_value_options
//@loop 0
    invariant_except_break same_from(old(self).parser.st(), self.parser.st()), tok(old(self).parser.st(), 0) is LParen, g_options_rest(self.parser.st(), ovs(options@)) == g_options_rest(adv(old(self).parser.st(), 1), Seq::empty()),
    ensures same_from(old(self).parser.st(), self.parser.st()), g_options(old(self).parser.st()) == Some((ovs(options@), self.parser.st())),
    decreases left(self.parser.st()),
//@contract
    ensures match g_options(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && ovs(r->Ok_0@) == x && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_partitions
//@loop 0
    invariant_except_break same_from(old(self).parser.st(), self.parser.st()), tok(old(self).parser.st(), 0) is LParen, !(tok(old(self).parser.st(), 1) is RParen), g_parts_rest(self.parser.st(), views(partitions@)) == g_parts_rest(adv(old(self).parser.st(), 1), Seq::empty()),
    ensures same_from(old(self).parser.st(), self.parser.st()), g_parts(old(self).parser.st()) == Some((views(partitions@), self.parser.st())),
    decreases left(self.parser.st()),
//@contract
    ensures match g_parts(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && views(r->Ok_0@) == x && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_file_format
//@contract
    ensures match g_format(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0@ == x && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_order_by_expr
//@contract
    ensures match g_order_item(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0 == x && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_order_by_exprs
//@loop 0
    invariant same_from(old(self).parser.st(), self.parser.st()), tok(old(self).parser.st(), 0) is LParen, g_order_rest(self.parser.st(), values@) == g_order_rest(adv(old(self).parser.st(), 1), Seq::empty()),
    decreases left(self.parser.st()),
//@contract
    ensures match g_order(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0@ == x && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_column_def
//@loop 0
    invariant_except_break same_from(old(self).parser.st(), self.parser.st()), g_col(old(self).parser.st()) == (match g_col_options(self.parser.st(), options@) { None => None, Some((o, t)) => Some((ColV { name: name, ty: data_type, collation: collation, options: o }, t)) }),
    ensures same_from(old(self).parser.st(), self.parser.st()), g_col(old(self).parser.st()) == Some((ColV { name: name, ty: data_type, collation: collation, options: options@ }, self.parser.st())),
    decreases left(self.parser.st()),
//@contract
    ensures match g_col(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && cv(r->Ok_0) == x && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_columns
//@loop 0
    invariant_except_break same_from(old(self).parser.st(), self.parser.st()), tok(old(self).parser.st(), 0) is LParen, !(tok(old(self).parser.st(), 1) is RParen), g_cols_rest(self.parser.st(), cvs(columns@), constraints@) == g_cols_rest(adv(old(self).parser.st(), 1), Seq::empty(), Seq::empty()),
    ensures same_from(old(self).parser.st(), self.parser.st()), g_cols(old(self).parser.st()) == Some((cvs(columns@), constraints@, self.parser.st())),
    decreases left(self.parser.st()),
//@contract
    ensures match g_cols(old(self).parser.st()) { None => r is Err, Some((x, y, t)) => r is Ok && cvs(r->Ok_0.0@) == x && r->Ok_0.1@ == y && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_create_function_body_string
//@contract
    ensures match g_body(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && body_is(r->Ok_0, x) && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_create_function
//@calls
Box::from => rx_box
Box::new => rx_box
//@entry
    proof { reveal(means); }
//@contract
    ensures match g_function(old(self).parser.st(), or_replace, temporary) { None => r is Err, Some((x, t)) => r is Ok && means(r->Ok_0, x) && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_create
//@calls
Box::from => rx_box
Box::new => rx_box
//@entry
    proof { reveal(means); }
//@contract
    ensures match g_create(old(self).parser.st()) { None => r is Err, Some((x, t)) => r is Ok && means(r->Ok_0, x) && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
//@extract src/datafusion/parser.rs | impl DFParser :: parse_create_external_table
//@rename
Builder => ExtBuilder
//@methods
into/0 => rx_str
extend/1 => mut_extend
//@loop 0
    invariant_except_break same_from(old(self).parser.st(), self.parser.st()), g_external(old(self).parser.st(), unbounded) == ext_done(table_name, if_not_exists, temporary, unbounded, constraints@, g_ext_clauses(self.parser.st(), ebv(builder, columns@))),
    ensures same_from(old(self).parser.st(), self.parser.st()), g_external(old(self).parser.st(), unbounded) == ext_done(table_name, if_not_exists, temporary, unbounded, constraints@, Some((ebv(builder, columns@), self.parser.st()))),
    decreases left(self.parser.st()),
//@loop 1
    invariant_except_break 0 <= __it1.pos() <= cols@.len(), __it1.all().len() == cols@.len(), forall|j: int| 0 <= j < cols@.len() ==> *(#[trigger] __it1.all()[j]) == cols@[j], __acc1@.len() == __it1.pos(), views(__acc1@) =~= names(cvs(cols@)).take(__it1.pos()),
    ensures views(__acc1@) == names(cvs(cols@)),
    decreases cols@.len() - __it1.pos(),
//@entry
    proof { reveal(means); }
//@contract
    ensures match g_external(old(self).parser.st(), unbounded) { None => r is Err, Some((x, t)) => r is Ok && means(r->Ok_0, x) && final(self).parser.st() == t && same_from(old(self).parser.st(), t) },
//@end
}

} // mod code
//@probe
pub proof fn probe_no_semi(s: St) requires g_statement(s) is Some ensures g_script(s, Seq::empty(), true) is Some {}
//@probe
pub proof fn probe_kw(s: St) requires is_kw(s, Keyword::COPY) ensures g_statement(s) is Some {}
} // verus!
fn main() {}
