use vstd::prelude::*;
verus! {
//@include strings.inc.rs
pub struct Column { pub name: String }
//@include fp_scalar.inc.rs
impl RxDisp for ScalarValue { uninterp spec fn disp(&self) -> Seq<char>; }
pub open spec fn is_str(v: ScalarValue) -> bool { v is Utf8 && v->Utf8_0 is Some || v is LargeUtf8 && v->LargeUtf8_0 is Some || v is Utf8View && v->Utf8View_0 is Some }
pub open spec fn str_of(v: ScalarValue) -> Seq<char> { match v { ScalarValue::Utf8(Some(s)) | ScalarValue::LargeUtf8(Some(s)) | ScalarValue::Utf8View(Some(s)) => s@, _ => Seq::empty() } }

// ---- how a SQL reader reads one quoted token: q doubled stands for q; `bs`: backslash escapes are on
// (then a backslash is refused here, because its reading depends on what follows)
pub open spec fn rd(t: Seq<char>, q: char, bs: bool) -> Option<Seq<char>> decreases t.len() {
    if t.len() == 0 { None }
    else if t[0] == q {
        if t.len() == 1 { Some(Seq::empty()) }
        else if t[1] == q { match rd(t.skip(2), q, bs) { Some(x) => Some(seq![q] + x), None => None } }
        else { None }
    }
    else if bs && t[0] == '\\' { None }
    else { match rd(t.skip(1), q, bs) { Some(x) => Some(seq![t[0]] + x), None => None } }
}
// t is exactly one token quoted with q, and it reads back as s
pub open spec fn token(t: Seq<char>, q: char, bs: bool, s: Seq<char>) -> bool {
    t.len() >= 2 && t[0] == q && rd(t.skip(1), q, bs) == Some(s)
}
pub open spec fn quoted(s: Seq<char>, q: char) -> Seq<char> { seq![q] + replace_char(s, q, seq![q, q]) + seq![q] }
pub proof fn lemma_rd(s: Seq<char>, q: char, bs: bool, rest: Seq<char>)
    requires bs ==> !s.contains('\\') && q != '\\',
    ensures
        rd(replace_char(s, q, seq![q, q]) + rest, q, bs) is Some == rd(rest, q, bs) is Some,
        rd(rest, q, bs) matches Some(x) ==> rd(replace_char(s, q, seq![q, q]) + rest, q, bs) == Some(s + x),
    decreases s.len(),
{
    let qq = seq![q, q];
    if s.len() == 0 {
        assert(replace_char(s, q, qq) + rest =~= rest);
        if rd(rest, q, bs) is Some { assert(s + rd(rest, q, bs)->0 =~= rd(rest, q, bs)->0); }
    } else {
        let c = s.last();
        let ch = if c == q { qq } else { seq![c] };
        if bs { assert forall|x: char| s.drop_last().contains(x) implies s.contains(x) by { let i = s.drop_last().index_of(x); assert(s[i] == x); } assert(s.contains(c)) by { assert(s[s.len() - 1] == c); } }
        let tail = ch + rest;
        lemma_rd(s.drop_last(), q, bs, tail);
        assert(replace_char(s, q, qq) + rest =~= replace_char(s.drop_last(), q, qq) + tail);
        if c == q {
            if rest.len() > 0 { }
            assert(tail.skip(2) =~= rest);
            assert(tail[0] == q && tail[1] == q);
        } else {
            assert(tail.skip(1) =~= rest);
            assert(tail[0] == c);
        }
        if rd(rest, q, bs) is Some {
            let x = rd(rest, q, bs)->0;
            assert(s.drop_last() + (seq![c] + x) =~= s + x);
        }
    }
}
pub proof fn lemma_quoted(s: Seq<char>, q: char, bs: bool)
    requires bs ==> !s.contains('\\') && q != '\\',
    ensures token(quoted(s, q), q, bs, s),
{
    let end = seq![q];
    lemma_rd(s, q, bs, end);
    assert(rd(end, q, bs) == Some(Seq::<char>::empty()));
    assert(s + Seq::<char>::empty() =~= s);
    assert(quoted(s, q).skip(1) =~= replace_char(s, q, seq![q, q]) + end);
}
pub proof fn lemma_lits()
    ensures "\""@ == seq!['"'], "\"\""@ == seq!['"', '"'], "`"@ == seq!['`'], "``"@ == seq!['`', '`'], "'"@ == seq!['\''], "''"@ == seq!['\'', '\''],
{
    reveal_strlit("\""); reveal_strlit("\"\""); reveal_strlit("`"); reveal_strlit("``"); reveal_strlit("'"); reveal_strlit("''");
    assert("\""@ =~= seq!['"']); assert("\"\""@ =~= seq!['"', '"']); assert("`"@ =~= seq!['`']); assert("``"@ =~= seq!['`', '`']);
    assert("'"@ =~= seq!['\'']); assert("''"@ =~= seq!['\'', '\'']);
}

//@extract datafusion_remote_tables/src/filter_pushdown.rs | fn quote_identifier_double_quotes
    ensures token(r@, '"', false, name@),
//@entry
    proof { lemma_lits(); lemma_quoted(name@, '"', false);
        assert forall|x: Seq<char>| x =~= quoted(name@, '"') implies #[trigger] token(x, '"', false, name@) by { } }
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | fn quote_identifier_backticks
    ensures token(r@, '`', false, name@),
//@entry
    proof { lemma_lits(); lemma_quoted(name@, '`', false);
        assert forall|x: Seq<char>| x =~= quoted(name@, '`') implies #[trigger] token(x, '`', false, name@) by { } }
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | fn quote_string | ifpresent
//@types
&str => &String
//@contract
    ensures token(r@, '\'', false, val@), !val@.contains('\\') ==> token(r@, '\'', true, val@),
//@entry
    proof { lemma_lits(); lemma_quoted(val@, '\'', false); if !val@.contains('\\') { lemma_quoted(val@, '\'', true); }
        assert forall|x: Seq<char>| x =~= quoted(val@, '\'') implies #[trigger] token(x, '\'', false, val@) by { }
        assert forall|x: Seq<char>| x =~= quoted(val@, '\'') && !val@.contains('\\') implies #[trigger] token(x, '\'', true, val@) by { } }
//@end

pub struct PostgresFilterPushdown {}
pub struct SQLiteFilterPushdown {}
pub struct MySQLFilterPushdown {}
impl PostgresFilterPushdown {
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for PostgresFilterPushdown :: scalar_value_to_sql || trait FilterPushdownConverter :: scalar_value_to_sql
    ensures r is Some && is_str(*value) ==> token(r->0@, '\'', false, str_of(*value)),
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for PostgresFilterPushdown :: col_to_sql || trait FilterPushdownConverter :: col_to_sql
    ensures token(r@, '"', false, col.name@),
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for PostgresFilterPushdown :: string_to_sql || trait FilterPushdownConverter :: string_to_sql
//@types
&str => &String
//@contract
    ensures r is Some ==> token(r->0@, '\'', false, val@),
//@end
}
impl SQLiteFilterPushdown {
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for SQLiteFilterPushdown :: scalar_value_to_sql || trait FilterPushdownConverter :: scalar_value_to_sql
    ensures r is Some && is_str(*value) ==> token(r->0@, '\'', false, str_of(*value)),
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for SQLiteFilterPushdown :: col_to_sql || trait FilterPushdownConverter :: col_to_sql
    ensures token(r@, '"', false, col.name@),
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for SQLiteFilterPushdown :: string_to_sql || trait FilterPushdownConverter :: string_to_sql
//@types
&str => &String
//@contract
    ensures r is Some ==> token(r->0@, '\'', false, val@),
//@end
}
impl MySQLFilterPushdown {
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for MySQLFilterPushdown :: scalar_value_to_sql || trait FilterPushdownConverter :: scalar_value_to_sql
    ensures r is Some && is_str(*value) ==> token(r->0@, '\'', false, str_of(*value)) && token(r->0@, '\'', true, str_of(*value)),
//@end
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for MySQLFilterPushdown :: col_to_sql || trait FilterPushdownConverter :: col_to_sql
    ensures token(r@, '`', false, col.name@),
//@end
// whether backslashes escape depends on the mode of the server: the literal has to read the same both ways
//@extract datafusion_remote_tables/src/filter_pushdown.rs | impl FilterPushdownConverter for MySQLFilterPushdown :: string_to_sql || trait FilterPushdownConverter :: string_to_sql
//@types
&str => &String
//@contract
    ensures r is Some ==> token(r->0@, '\'', false, val@) && token(r->0@, '\'', true, val@),
//@end
}
//@probe
proof fn probe_axioms() ensures false {}
//@probe
proof fn probe_token(t: Seq<char>, s: Seq<char>) ensures !token(t, '"', false, s) {}
} // verus!
fn main() {}
