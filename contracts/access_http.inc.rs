// ---- the HTTP handlers: what they make the engine do (ran, loaded), which requests are answered how
pub ghost struct Run { pub catalog: Seq<char>, pub plan: LogicalPlan }
pub ghost struct Load { pub catalog: Seq<char>, pub schema: Seq<char>, pub table: Seq<char>, pub bytes: Seq<u8>, pub kind: Seq<char>, pub header: bool, pub columns: Option<SchemaRef> }
pub struct World { pub ran: Ghost<Seq<Run>>, pub loaded: Ghost<Seq<Load>>, pub files: Ghost<IMap<Seq<char>, Seq<u8>>> }
pub uninterp spec fn script(q: Seq<char>) -> Seq<DFStatement>;
// the statement and the default database a plan was made for
pub uninterp spec fn planned(p: LogicalPlan) -> (Seq<char>, DFStatement);
pub uninterp spec fn rows(r: Run) -> Seq<u8>;
pub uninterp spec fn out_schema(r: Run) -> SchemaRef;
pub uninterp spec fn etag_of(p: LogicalPlan) -> Seq<char>;
pub uninterp spec fn pct(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ctype(s: SchemaRef) -> Seq<char>;
pub struct SchemaRef { pub p: Opaque }
impl Clone for SchemaRef { #[verifier::external_body] fn clone(&self) -> (r: SchemaRef) ensures r == *self { unimplemented!() } }
pub struct Exec { pub of: Ghost<Run> }
impl Exec { #[verifier::external_body] pub fn schema(&self) -> (r: SchemaRef) ensures r == out_schema(self.of@) { unimplemented!() } }
pub struct Version { pub p: Opaque }
impl RxDisp for Version { uninterp spec fn disp(&self) -> Seq<char>; }
pub struct Table { pub p: Opaque }
impl Table { #[verifier::external_body] pub fn version(&self) -> Version { unimplemented!() } }
// SeafowlContext: scoped to a default database; planning and executing (assumed: context/logical.rs, context/physical.rs)
pub struct Ctx { pub default_catalog: String, pub rest: Opaque }
impl Ctx {
    #[verifier::external_body] pub fn scope_to_catalog(&self, c: String) -> (r: Ctx) ensures r.default_catalog == c, r.rest == self.rest { unimplemented!() }
    #[verifier::external_body] pub fn parse_query(&self, q: &str) -> (r: Result<Vec<DFStatement>, DataFusionError>) ensures r is Ok ==> r->Ok_0@ == script(q@) { unimplemented!() }
    #[verifier::external_body] pub fn create_logical_plan_from_statement(&self, s: DFStatement) -> (r: Result<LogicalPlan, DataFusionError>) ensures r is Ok ==> planned(r->Ok_0) == (self.default_catalog@, s) { unimplemented!() }
}
// planning a statement physically is where DDL and DML run; a failure may leave the statement attempted
#[verifier::external_body] pub fn wr_create_physical_plan(w: &mut World, c: &Ctx, p: &LogicalPlan) -> (r: Result<Exec, DataFusionError>)
    ensures final(w).loaded == old(w).loaded, final(w).ran@ == old(w).ran@.push(Run { catalog: c.default_catalog@, plan: *p }), r is Ok ==> r->Ok_0.of@ == (Run { catalog: c.default_catalog@, plan: *p }) { unimplemented!() }
#[verifier::external_body] pub fn wr_file_to_table(w: &mut World, c: &Ctx, path: String, kind: &str, columns: Option<SchemaRef>, header: bool, schema: String, table: String) -> (r: Result<Table, DataFusionError>)
    ensures final(w).ran == old(w).ran, final(w).loaded@ == old(w).loaded@.push(Load { catalog: c.default_catalog@, schema: schema@, table: table@, bytes: old(w).files@[path@], kind: kind@, header, columns }) { unimplemented!() }
pub struct StatusCode { pub n: u16 }
impl StatusCode {
    pub const OK: StatusCode = StatusCode { n: 200 };
    pub const NOT_MODIFIED: StatusCode = StatusCode { n: 304 };
    pub const BAD_REQUEST: StatusCode = StatusCode { n: 400 };
    pub const UNAUTHORIZED: StatusCode = StatusCode { n: 401 };
    pub const FORBIDDEN: StatusCode = StatusCode { n: 403 };
    pub const NOT_FOUND: StatusCode = StatusCode { n: 404 };
    pub const METHOD_NOT_ALLOWED: StatusCode = StatusCode { n: 405 };
    pub const CONFLICT: StatusCode = StatusCode { n: 409 };
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode { n: 500 };
    pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode { n: 503 };
}
pub enum Hdr { ContentType, QueryTime, Etag }
pub struct Response { pub status: u16, pub body: Ghost<Seq<u8>>, pub headers: Ghost<IMap<Hdr, Seq<char>>> }
pub struct HeaderValue { pub text: Ghost<Seq<char>> }
#[verifier::external_body] pub fn plan_to_response(c: Ctx, p: Exec) -> (r: Result<Response, DataFusionError>) ensures r is Ok ==> r->Ok_0.status == 200 && r->Ok_0.body@ == rows(p.of@) && r->Ok_0.headers@ == IMap::<Hdr, Seq<char>>::empty() { unimplemented!() }
#[verifier::external_body] pub fn mut_set_header(r: &mut Response, h: Hdr, v: HeaderValue) ensures final(r).status == old(r).status, final(r).body == old(r).body, final(r).headers@ == old(r).headers@.insert(h, v.text@) { unimplemented!() }
#[verifier::external_body] pub fn content_type_with_schema(s: SchemaRef) -> (r: HeaderValue) ensures r.text@ == ctype(s) { unimplemented!() }
#[verifier::external_body] pub fn plan_to_etag(p: &LogicalPlan) -> (r: String) ensures r@ == etag_of(*p) { unimplemented!() }
// times and hexadecimal digests are always fit for a header
#[verifier::external_body] pub fn rx_header(s: &str) -> (r: Result<HeaderValue, ()>) ensures r is Ok, r->Ok_0.text@ == s@ { unimplemented!() }
#[verifier::external_body] pub struct Instant { p: u8 }
#[verifier::external_body] pub struct Duration { p: u8 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } #[verifier::external_body] pub fn elapsed(&self) -> Duration { unimplemented!() } }
impl Duration { #[verifier::external_body] pub fn as_millis(&self) -> u128 { unimplemented!() } }
impl RxDisp for u128 { uninterp spec fn disp(&self) -> Seq<char>; }
#[verifier::external_body] pub fn rx_with_status<B>(body: B, s: StatusCode) -> (r: Response) ensures r.status == s.n, r.headers@ == IMap::<Hdr, Seq<char>>::empty() { unimplemented!() }
pub struct Pct { pub text: Ghost<Seq<char>> }
#[verifier::external_body] pub fn percent_decode_str(s: &str) -> (r: Pct) ensures r.text@ == s@ { unimplemented!() }
impl Pct { #[verifier::external_body] pub fn decode_utf8(self) -> (r: Result<String, Utf8Error>) ensures r is Ok ==> r->Ok_0@ == pct(self.text@) { unimplemented!() } }
pub open spec fn before(s: Seq<char>, c: char) -> Seq<char> { if s.contains(c) { s.take(s.index_of(c)) } else { s } }
pub open spec fn after_last(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() == 0 || s.last() == c { Seq::empty() } else { after_last(s.drop_last(), c).push(s.last()) } }
pub struct Split<'a> { pub s: &'a str, pub c: char }
#[verifier::external_body] pub fn rx_split<'a>(s: &'a str, c: char) -> (r: Split<'a>) ensures r.s == s, r.c == c { unimplemented!() }
impl<'a> Split<'a> {
    #[verifier::external_body] pub fn next(self) -> (r: Option<&'a str>) ensures r is Some, r->0@ == before(self.s@, self.c) { unimplemented!() }
    #[verifier::external_body] pub fn last(self) -> (r: Option<&'a str>) ensures r is Some, r->0@ == after_last(self.s@, self.c) { unimplemented!() }
}
// the conversions of `?` (http_utils.rs; From is reflexive)
pub trait ToApi: Sized { spec fn api(self) -> ApiError; fn to_api_error(self) -> (r: ApiError) ensures r == self.api(); }
impl ToApi for DataFusionError { open spec fn api(self) -> ApiError { ApiError::DataFusionError(self) } fn to_api_error(self) -> (r: ApiError) { ApiError::DataFusionError(self) } }
impl ToApi for IoError { open spec fn api(self) -> ApiError { ApiError::IoError(self) } fn to_api_error(self) -> (r: ApiError) { ApiError::IoError(self) } }
impl ToApi for Utf8Error { open spec fn api(self) -> ApiError { ApiError::QueryDecodeError } fn to_api_error(self) -> (r: ApiError) { ApiError::QueryDecodeError } }
impl ToApi for ApiError { open spec fn api(self) -> ApiError { self } fn to_api_error(self) -> (r: ApiError) { self } }
pub fn to_api<E: ToApi>(e: E) -> (r: ApiError) ensures r == e.api() { e.to_api_error() }
#[verifier::external_body] pub fn own_expect<T>(x: Option<T>, m: &str) -> (r: T) requires x is Some ensures r == x->0 { unimplemented!() }
#[verifier::external_body] pub fn rx_last<T>(x: &Vec<T>) -> (r: Option<&T>) ensures x@.len() == 0 ==> r is None, x@.len() > 0 ==> r is Some && *r->0 == x@.last() { unimplemented!() }
#[verifier::external_body] pub fn rx_not_impl(m: String) -> (r: DataFusionError) { unimplemented!() }
#[verifier::external_body] pub fn mut_pop<T>(v: &mut Vec<T>) -> (r: Option<T>) ensures old(v)@.len() == 0 ==> r is None, old(v)@.len() > 0 ==> r == Some(old(v)@.last()) && final(v)@ == old(v)@.drop_last() { unimplemented!() }
pub fn own_clone<T>(x: T) -> (r: T) ensures r == x { x }
// ---- multipart uploads: a form is a list of parts, a part a list of chunks (None: the connection failed there)
pub ghost struct PartS { pub name: Seq<char>, pub filename: Option<Seq<char>>, pub chunks: Seq<Seq<u8>> }
pub open spec fn flat(c: Seq<Seq<u8>>) -> Seq<u8> decreases c.len() { if c.len() == 0 { Seq::empty() } else { flat(c.drop_last()) + c.last() } }
pub proof fn lemma_flat(c: Seq<Seq<u8>>, i: int) requires 0 <= i < c.len() ensures flat(c.take(i + 1)) == flat(c.take(i)) + c[i] { assert(c.take(i + 1).drop_last() =~= c.take(i)); }
pub struct FormData { pub all: Ghost<Seq<PartS>>, pub pos: Ghost<int> }
pub struct Part { pub of: Ghost<PartS>, pub pos: Ghost<int> }
pub struct Chunk { pub bytes: Ghost<Seq<u8>> }
impl FormData {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<Part, WarpError>>)
        requires 0 <= old(self).pos@ <= old(self).all@.len(),
        ensures final(self).all == old(self).all,
            r is None ==> old(self).pos@ == old(self).all@.len() && final(self).pos == old(self).pos,
            r is Some ==> old(self).pos@ < old(self).all@.len() && final(self).pos@ == old(self).pos@ + 1 && (r->0 is Ok ==> r->0->Ok_0.of@ == old(self).all@[old(self).pos@] && r->0->Ok_0.pos@ == 0) { unimplemented!() }
}
impl Part {
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.of@.name { unimplemented!() }
    #[verifier::external_body] pub fn filename(&self) -> (r: Option<&str>) ensures r is Some == self.of@.filename is Some, r is Some ==> r->0@ == self.of@.filename->0 { unimplemented!() }
    #[verifier::external_body] pub fn data(&mut self) -> (r: Option<Result<Chunk, WarpError>>)
        requires 0 <= old(self).pos@ <= old(self).of@.chunks.len(),
        ensures final(self).of == old(self).of,
            r is None ==> old(self).pos@ == old(self).of@.chunks.len() && final(self).pos == old(self).pos,
            r is Some ==> old(self).pos@ < old(self).of@.chunks.len() && final(self).pos@ == old(self).pos@ + 1 && (r->0 is Ok ==> r->0->Ok_0.bytes@ == old(self).of@.chunks[old(self).pos@]) { unimplemented!() }
}
impl Chunk { #[verifier::external_body] pub fn chunk(&self) -> (r: &[u8]) ensures r@ == self.bytes@ { unimplemented!() } }
#[verifier::external_body] pub fn mut_extend(v: &mut Vec<u8>, x: &[u8]) ensures final(v)@ == old(v)@ + x@ { unimplemented!() }
pub uninterp spec fn text_of(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn schema_of(t: Seq<char>) -> SchemaRef;
#[verifier::external_body] pub fn rx_from_utf8(v: Vec<u8>) -> (r: Result<String, Opaque>) ensures r is Ok ==> r->Ok_0@ == text_of(v@) { unimplemented!() }
#[verifier::external_body] pub fn rx_json_schema(s: &str) -> (r: Result<SchemaRef, Opaque>) ensures r is Ok ==> r->Ok_0 == schema_of(s@) { unimplemented!() }
#[verifier::external_body] pub fn rx_starts_with(s: &str, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(s@) { unimplemented!() }
pub fn rx_id<T>(x: T) -> (r: T) ensures r == x { x }
pub struct NamedTempFile { pub at: Ghost<Seq<char>> }
pub struct Builder { pub p: Opaque }
pub struct PathText { pub text: Ghost<Seq<char>> }
impl RxDisp for PathText { open spec fn disp(&self) -> Seq<char> { self.text@ } }
impl Builder { #[verifier::external_body] pub fn new() -> Builder { unimplemented!() } #[verifier::external_body] pub fn suffix(self, s: &str) -> Builder { unimplemented!() } }
#[verifier::external_body] pub fn wr_tempfile(w: &mut World, b: &Builder) -> (r: Result<NamedTempFile, IoError>)
    ensures final(w).ran == old(w).ran, final(w).loaded == old(w).loaded, r is Ok ==> final(w).files@ == old(w).files@.insert(r->Ok_0.at@, Seq::empty()) { unimplemented!() }
#[verifier::external_body] pub fn wm_write_all(w: &mut World, f: &mut NamedTempFile, b: &[u8]) -> (r: Result<(), IoError>)
    ensures final(f).at == old(f).at, final(w).ran == old(w).ran, final(w).loaded == old(w).loaded, r is Ok ==> final(w).files@ == old(w).files@.insert(old(f).at@, old(w).files@[old(f).at@] + b@) { unimplemented!() }
impl NamedTempFile { #[verifier::external_body] pub fn path(&self) -> (r: PathText) ensures r.text@ == self.at@ { unimplemented!() } }
impl PathText { pub fn display(self) -> (r: PathText) ensures r == self { self } }
pub ghost struct Up { pub header: bool, pub columns: Option<SchemaRef>, pub filename: Seq<char>, pub bytes: Seq<u8> }
// what the parts of a form ask for: later parts of a name replace earlier ones
pub open spec fn asked_of(p: Seq<PartS>) -> Up decreases p.len() {
    if p.len() == 0 { Up { header: true, columns: None, filename: Seq::empty(), bytes: Seq::empty() } } else {
        let u = asked_of(p.drop_last()); let x = p.last(); let b = flat(x.chunks);
        if x.name == "has_header"@ { Up { header: "true"@.is_prefix_of(text_of(b)), ..u } }
        else if x.name == "schema"@ { Up { columns: Some(schema_of(text_of(b))), ..u } }
        else if x.name == "data"@ || x.name == "file"@ { Up { filename: x.filename->0, bytes: b, ..u } }
        else { u }
    }
}
pub proof fn lemma_asked(p: Seq<PartS>, i: int) requires 0 <= i < p.len() ensures p.take(i + 1).drop_last() == p.take(i), p.take(i + 1).last() == p[i] { assert(p.take(i + 1).drop_last() =~= p.take(i)); }
pub fn own_suffix(b: Builder, s: &str) -> (r: Builder) { b.suffix(s) }
pub broadcast proof fn lemma_ext(s: Seq<char>, c: char) ensures #[trigger] after_last(s, c).len() <= s.len() decreases s.len() { if s.len() > 0 && s.last() != c { lemma_ext(s.drop_last(), c); } }
pub struct RBuilder { pub n: u16 }
pub fn rx_builder() -> (r: RBuilder) ensures r.n == 200 { RBuilder { n: 200 } }
pub fn own_status(b: RBuilder, s: StatusCode) -> (r: RBuilder) ensures r.n == s.n { RBuilder { n: s.n } }
#[verifier::external_body] pub fn own_body(b: RBuilder, t: String) -> (r: Result<Response, ()>) ensures r is Ok && r->Ok_0.status == b.n { unimplemented!() }
#[verifier::external_body] pub fn own_unwrap<T>(x: Result<T, ()>, m: &str) -> (r: T) requires x is Ok ensures r == x->Ok_0 { unimplemented!() }
