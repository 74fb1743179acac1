// ---- tokens (sqlparser's tokenizer) and the abstract syntax the parser builds
pub struct Opaque { pub id: u64 }
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/keywords.rs | macroenum define_keywords | derive=PartialEq,Eq,Clone,Copy,Structural
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/tokenizer.rs | struct Word
//@end
pub struct DollarQuotedString { pub value: String, pub tag: Option<String> }
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/tokenizer.rs | enum Token | payload=Word,String,bool,char,DollarQuotedString
//@end
pub struct TokenWithSpan { pub token: Token, pub span: Opaque }
impl RxDisp for TokenWithSpan { uninterp spec fn disp(&self) -> Seq<char>; }
impl PartialEqSpecImpl<Token> for TokenWithSpan {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Token) -> bool { self.token == *o }
}
impl PartialEq<Token> for TokenWithSpan { #[verifier::external_body] fn eq(&self, o: &Token) -> (r: bool) { unimplemented!() } }
pub struct Ident { pub value: String, pub quote_style: Option<char> }
impl RxDisp for Ident { uninterp spec fn disp(&self) -> Seq<char>; }
pub struct ObjectName(pub Vec<Ident>);
impl ObjectName {}
pub struct TruncateTableTarget { pub name: ObjectName }
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/value.rs | enum Value | payload=String,bool,DollarQuotedString
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/mod.rs | enum Expr | payload=Value,Ident
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/query.rs | struct OrderByExpr
//@types
Option<WithFill> => Option<Opaque>
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/ddl.rs | struct ColumnOptionDef
//@types
ColumnOption => Opaque
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/ddl.rs | struct ColumnDef
//@types
DataType => Opaque
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/mod.rs | enum CreateFunctionBody | payload=Expr
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/ddl.rs | struct CreateFunction
//@types
Option<Vec<OperateFunctionArg>> => Option<Opaque>
Option<DataType> => Option<Opaque>
Option<FunctionBehavior> => Option<Opaque>
Option<FunctionCalledOnNull> => Option<Opaque>
Option<FunctionParallel> => Option<Opaque>
Option<CreateFunctionUsing> => Option<Opaque>
Option<FunctionDeterminismSpecifier> => Option<Opaque>
Option<Vec<SqlOption>> => Option<Opaque>
//@end
// sqlparser's statement: the two variants this parser builds itself, and the rest
pub enum SQLStatement {
    Truncate { table_names: Vec<TruncateTableTarget>, partitions: Option<Vec<Expr>>, table: bool, only: bool, identity: Option<Opaque>, cascade: Option<Opaque>, on_cluster: Option<Ident> },
    CreateFunction(CreateFunction),
    Rest(Opaque),
}
pub type Query = Opaque;
pub type TableConstraint = Opaque;
pub enum CopyToSource { Relation(ObjectName), Query(Box<Query>) }
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-sql-44.0.0/src/parser.rs | struct CopyToStatement
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-sql-44.0.0/src/parser.rs | struct CreateExternalTable
//@types
Vec<LexOrdering> => Vec<Vec<OrderByExpr>>
//@end
pub enum Statement { Statement(Box<SQLStatement>), CreateExternalTable(CreateExternalTable), CopyTo(CopyToStatement), Explain(Opaque) }
pub enum ParserError { TokenizerError(String), ParserError(String), RecursionLimitExceeded }
#[verifier::external_body] pub fn rx_err() -> ParserError { unimplemented!() }
#[verifier::external_body] pub fn rx_box<T>(t: T) -> (r: Box<T>) ensures *r == t { unimplemented!() }
// the marker that turns COPY into CONVERT: a constant pair, cloned
pub struct ConvertMark {}
pub open spec fn convert_mark() -> (Seq<char>, Value) { ("CONVERT_TO_DELTA"@, Value::Boolean(true)) }
impl ConvertMark { #[verifier::external_body] pub fn clone(&self) -> (r: (String, Value)) ensures (r.0@, r.1) == convert_mark() { unimplemented!() } }
pub exec const CONVERT_TO_DELTA: ConvertMark ensures true { ConvertMark {} }
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn rx_upper(s: &str) -> (r: String) ensures r@ == upper(s@) { unimplemented!() }

// ---- the token stream: tokens without whitespace, and how many have been consumed
pub ghost struct St { pub toks: Seq<Token>, pub pos: nat }
pub open spec fn tok(s: St, k: nat) -> Token { if s.pos + k < s.toks.len() { s.toks[(s.pos + k) as int] } else { Token::EOF } }
pub open spec fn adv(s: St, k: nat) -> St { St { toks: s.toks, pos: s.pos + k } }
pub open spec fn kw(s: St) -> Keyword { match tok(s, 0) { Token::Word(w) => w.keyword, _ => Keyword::NoKeyword } }
pub open spec fn is_word(s: St) -> bool { tok(s, 0) is Word }
pub open spec fn is_kw(s: St, k: Keyword) -> bool { is_word(s) && kw(s) == k }
pub open spec fn kws(s: St, l: Seq<Keyword>) -> bool { (l.len() < 1 || is_kw(s, l[0])) && (l.len() < 2 || is_kw(adv(s, 1), l[1])) && (l.len() < 3 || is_kw(adv(s, 2), l[2])) && (l.len() < 4 || is_kw(adv(s, 3), l[3])) }
pub open spec fn among(k: Keyword, l: Seq<Keyword>) -> bool {
    (l.len() > 0 && l[0] == k) || (l.len() > 1 && l[1] == k) || (l.len() > 2 && l[2] == k) || (l.len() > 3 && l[3] == k) || (l.len() > 4 && l[4] == k) || (l.len() > 5 && l[5] == k)
    || (l.len() > 6 && l[6] == k) || (l.len() > 7 && l[7] == k) || (l.len() > 8 && l[8] == k) || (l.len() > 9 && l[9] == k)
}
// consuming moved forward over at least one token of the same stream
pub open spec fn fwd(s: St, t: St) -> bool { t.toks == s.toks && s.pos < t.pos && s.pos < s.toks.len() }
pub open spec fn same_from(s: St, t: St) -> bool { t.toks == s.toks && s.pos <= t.pos }
pub open spec fn left(s: St) -> nat { if s.pos < s.toks.len() { (s.toks.len() - s.pos) as nat } else { 0 } }
pub open spec fn plain(t: Token) -> bool { t is SemiColon || t is LParen || t is RParen || t is Comma || t is Period || t is EOF || t is Eq || t is Colon }
// what sqlparser's own productions make of the stream at a position (None: refused)
pub uninterp spec fn name_at(s: St, in_table: bool) -> Option<(ObjectName, St)>;
pub uninterp spec fn ident_at(s: St, in_table: bool) -> Option<(Ident, St)>;
pub uninterp spec fn string_at(s: St) -> Option<(Seq<char>, St)>;
pub uninterp spec fn query_at(s: St) -> Option<(Query, St)>;
pub uninterp spec fn statement_at(s: St) -> Option<(SQLStatement, St)>;
pub uninterp spec fn create_at(s: St) -> Option<(SQLStatement, St)>;
pub uninterp spec fn expr_at(s: St) -> Option<(Expr, St)>;
pub uninterp spec fn type_at(s: St) -> Option<(Opaque, St)>;
pub uninterp spec fn option_at(s: St) -> Option<(Option<Opaque>, St)>;
pub uninterp spec fn constraint_at(s: St) -> Option<(Option<Opaque>, St)>;

pub struct Dialect {}
pub struct GenericDialect {}
pub uninterp spec fn tokens_of(sql: Seq<char>) -> Option<Seq<Token>>;
pub struct Tokenizer { pub sql: Ghost<Seq<char>> }
pub struct Tokens { pub t: Ghost<Seq<Token>> }
pub trait AnyDialect {}
impl<'a> AnyDialect for &'a GenericDialect {}
impl<'a> AnyDialect for &'a Dialect {}
impl Tokenizer {
    #[verifier::external_body] pub fn new<D>(d: D, sql: &str) -> (r: Tokenizer) ensures r.sql@ == sql@ { unimplemented!() }
    #[verifier::external_body] pub fn tokenize(&mut self) -> (r: Result<Tokens, ParserError>)
        ensures match tokens_of(old(self).sql@) { None => r is Err, Some(t) => r is Ok && r->Ok_0.t@ == t } { unimplemented!() }
}
#[verifier::external_body]
pub struct Parser { p: u64 }
impl Parser {
    pub uninterp spec fn st(&self) -> St;
    #[verifier::external_body] pub fn new<D>(d: D) -> Parser { unimplemented!() }
    #[verifier::external_body] pub fn with_tokens(self, t: Tokens) -> (r: Parser) ensures r.st() == (St { toks: t.t@, pos: 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn peek_token(&self) -> (r: TokenWithSpan) ensures r.token == tok(self.st(), 0) { unimplemented!() }
    #[verifier::external_body] pub fn peek_nth_token(&self, n: usize) -> (r: TokenWithSpan) ensures r.token == tok(self.st(), n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn next_token(&mut self) -> (r: TokenWithSpan) ensures r.token == tok(old(self).st(), 0), final(self).st() == adv(old(self).st(), 1) { unimplemented!() }
    #[verifier::external_body] pub fn prev_token(&mut self) requires old(self).st().pos > 0 ensures final(self).st() == (St { toks: old(self).st().toks, pos: (old(self).st().pos - 1) as nat }) { unimplemented!() }
    #[verifier::external_body] pub fn consume_token(&mut self, t: &Token) -> (r: bool) requires plain(*t)
        ensures r == (tok(old(self).st(), 0) == *t), final(self).st() == (if r { adv(old(self).st(), 1) } else { old(self).st() }) { unimplemented!() }
    #[verifier::external_body] pub fn expect_token(&mut self, t: &Token) -> (r: Result<TokenWithSpan, ParserError>) requires plain(*t)
        ensures r is Ok <==> tok(old(self).st(), 0) == *t, r is Ok ==> final(self).st() == adv(old(self).st(), 1) { unimplemented!() }
    #[verifier::external_body] pub fn parse_keyword(&mut self, k: Keyword) -> (r: bool)
        ensures r == is_kw(old(self).st(), k), final(self).st() == (if r { adv(old(self).st(), 1) } else { old(self).st() }) { unimplemented!() }
    #[verifier::external_body] pub fn parse_keywords(&mut self, l: &[Keyword]) -> (r: bool) requires l@.len() <= 4
        ensures r == kws(old(self).st(), l@), final(self).st() == (if r { adv(old(self).st(), l@.len()) } else { old(self).st() }) { unimplemented!() }
    #[verifier::external_body] pub fn parse_one_of_keywords(&mut self, l: &[Keyword]) -> (r: Option<Keyword>) requires l@.len() <= 10
        ensures r is Some <==> is_word(old(self).st()) && among(kw(old(self).st()), l@), r is Some ==> r->0 == kw(old(self).st()),
            final(self).st() == (if r is Some { adv(old(self).st(), 1) } else { old(self).st() }) { unimplemented!() }
    #[verifier::external_body] pub fn expect_keyword(&mut self, k: Keyword) -> (r: Result<TokenWithSpan, ParserError>)
        ensures r is Ok <==> is_kw(old(self).st(), k), r is Ok ==> final(self).st() == adv(old(self).st(), 1) { unimplemented!() }
    #[verifier::external_body] pub fn expect_keywords(&mut self, l: &[Keyword]) -> (r: Result<(), ParserError>) requires l@.len() <= 4
        ensures r is Ok <==> kws(old(self).st(), l@), r is Ok ==> final(self).st() == adv(old(self).st(), l@.len()) { unimplemented!() }
    #[verifier::external_body] pub fn expected<T>(&self, e: &str, t: TokenWithSpan) -> (r: Result<T, ParserError>) ensures r is Err { unimplemented!() }
    #[verifier::external_body] pub fn parse_object_name(&mut self, b: bool) -> (r: Result<ObjectName, ParserError>)
        ensures match name_at(old(self).st(), b) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0 == x && final(self).st() == t && fwd(old(self).st(), t) && x.0@.len() > 0 } { unimplemented!() }
    #[verifier::external_body] pub fn parse_identifier(&mut self, b: bool) -> (r: Result<Ident, ParserError>)
        ensures match ident_at(old(self).st(), b) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0 == x && final(self).st() == t && fwd(old(self).st(), t) } { unimplemented!() }
    #[verifier::external_body] pub fn parse_literal_string(&mut self) -> (r: Result<String, ParserError>)
        ensures match string_at(old(self).st()) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0@ == x && final(self).st() == t && fwd(old(self).st(), t) } { unimplemented!() }
    #[verifier::external_body] pub fn parse_query(&mut self) -> (r: Result<Box<Query>, ParserError>)
        ensures match query_at(old(self).st()) { None => r is Err, Some((x, t)) => r is Ok && *r->Ok_0 == x && final(self).st() == t && fwd(old(self).st(), t) } { unimplemented!() }
    #[verifier::external_body] pub fn parse_statement(&mut self) -> (r: Result<SQLStatement, ParserError>)
        ensures match statement_at(old(self).st()) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0 == x && final(self).st() == t && fwd(old(self).st(), t) } { unimplemented!() }
    #[verifier::external_body] pub fn parse_create(&mut self) -> (r: Result<SQLStatement, ParserError>)
        ensures match create_at(old(self).st()) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0 == x && final(self).st() == t && fwd(old(self).st(), t) } { unimplemented!() }
    #[verifier::external_body] pub fn parse_expr(&mut self) -> (r: Result<Expr, ParserError>)
        ensures match expr_at(old(self).st()) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0 == x && final(self).st() == t && fwd(old(self).st(), t) } { unimplemented!() }
    #[verifier::external_body] pub fn parse_data_type(&mut self) -> (r: Result<Opaque, ParserError>)
        ensures match type_at(old(self).st()) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0 == x && final(self).st() == t && fwd(old(self).st(), t) } { unimplemented!() }
    #[verifier::external_body] pub fn parse_optional_column_option(&mut self) -> (r: Result<Option<Opaque>, ParserError>)
        ensures match option_at(old(self).st()) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0 == x && final(self).st() == t && (if x is Some { fwd(old(self).st(), t) } else { t == old(self).st() }) } { unimplemented!() }
    #[verifier::external_body] pub fn parse_optional_table_constraint(&mut self) -> (r: Result<Option<Opaque>, ParserError>)
        ensures match constraint_at(old(self).st()) { None => r is Err, Some((x, t)) => r is Ok && r->Ok_0 == x && final(self).st() == t && (if x is Some { fwd(old(self).st(), t) } else { t == old(self).st() }) } { unimplemented!() }
}
