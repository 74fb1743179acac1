use vstd::prelude::*;
verus! {
//@include strings.inc.rs
//@include iter.inc.rs
//@include access_base.inc.rs
impl AccessPolicy {
//@extract src/auth.rs | impl AccessPolicy :: from_config
//@contract
    ensures r.read == config.read_access, r.write == config.write_access,
//@end
}
//@extract src/auth.rs | fn token_to_principal | streq
//@methods
as_str/0 => REF
//@contract
    ensures
        r is Ok <==> admitted(*policy, optv(token)),
        r is Ok ==> forall|a: Action| can(r->Ok_0, a, *policy) <==> #[trigger] may(*policy, optv(token), a),
        // the reason of a refusal
        r is Err ==> (r->Err_0 is NeedAccessToken <==> token is None),
        (r is Err && token is Some) ==> (r->Err_0 is UselessAccessToken <==> !(policy.read is Password) && !(policy.write is Password)),
        (r is Err && token is Some && !(r->Err_0 is UselessAccessToken)) ==> r->Err_0 is WrongAccessToken,
//@end
//@extract src/auth.rs | fn can_perform_action
//@contract
    ensures r == can(*principal, action, *policy),
//@end
impl UserContext {
//@extract src/auth.rs | impl UserContext :: can_perform_action
//@contract
    ensures r == can(self.principal, action, self.policy),
//@end
}
//@extract src/frontend/http.rs | fn header_to_user_context | optmap resof=token_to_principal
//@methods
strip_prefix/1 => rx_strip_prefix
transpose/0 => own_transpose
//@contract
    ensures
        !well_formed(header) ==> r is Err && r->Err_0 is InvalidAuthorizationHeader,
        well_formed(header) ==> (r is Ok <==> admitted(*policy, token_in(header))),
        r is Ok ==> r->Ok_0.policy == *policy && forall|a: Action| can(r->Ok_0.principal, a, *policy) <==> #[trigger] may(*policy, token_in(header), a),
//@end
//@extract src/frontend/http.rs | fn with_auth @ closure 0
//@sig
fn with_auth_decide(header: Option<String>, policy: AccessPolicy) -> Result<UserContext, Rejection>
//@calls
future::ready => rx_ready
//@paths
warp::reject::custom => rx_reject
//@contract
    ensures
        r is Ok <==> well_formed(header) && admitted(policy, token_in(header)),
        r is Ok ==> r->Ok_0.policy == policy && forall|a: Action| can(r->Ok_0.principal, a, policy) <==> #[trigger] may(policy, token_in(header), a),
//@end
//@extract src/frontend/http.rs | fn cached_read_query_authz @ closure 0
//@sig
fn cached_read_query_authz_decide(user_context: UserContext, policy: AccessPolicy) -> Result<(), Rejection>
//@calls
future::err => rx_err
future::ok => rx_ok
warp::reject::custom => rx_reject
//@contract
    requires user_context.policy == policy,
    ensures
        r is Ok <==> !(policy.read is Off) && can(user_context.principal, Action::Read, policy),
        r is Err ==> (r->Err_0.e is ReadOnlyEndpointDisabled || r->Err_0.e is ReadForbidden) && (r->Err_0.e is ReadOnlyEndpointDisabled <==> policy.read is Off),
//@end

// ---- which statements write. sqlparser's and DataFusion's own types, payloads that do not matter left out
pub struct Query { pub body: Box<SetExpr>, pub rest: Opaque }
pub struct SelectInto { pub p: Opaque }
pub struct Select { pub into: Option<SelectInto>, pub rest: Opaque }
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/query.rs | enum SetExpr | payload=Box<Select>,Box<Query>,Box<SetExpr>,Statement
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/sqlparser-0.53.0/src/ast/mod.rs | enum Statement | payload=bool,Box<Query>,Box<Statement>
//@end
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-sql-44.0.0/src/parser.rs | enum Statement | as=DFStatement payload=Box<Statement>
//@types
Box<SQLStatement> => Box<Statement>
//@end
// SELECT .. INTO creates a table, a query whose body is INSERT or UPDATE changes one
pub open spec fn body_writes(b: SetExpr) -> bool decreases b {
    match b {
        SetExpr::Select(s) => s.into is Some,
        SetExpr::Query(q) => body_writes(*q.body),
        SetExpr::SetOperation { left, right, .. } => body_writes(*left) || body_writes(*right),
        SetExpr::Insert(_) | SetExpr::Update(_) => true,
        SetExpr::Values(_) | SetExpr::Table(_) => false,
    }
}
// may executing the statement change anything?
pub open spec fn sql_writes(s: Statement) -> bool decreases s {
    match s {
        Statement::Query(q) => body_writes(*q.body),
        Statement::Explain { analyze, statement, .. } => analyze && sql_writes(*statement),
        Statement::ExplainTable { .. } | Statement::ShowTables { .. } | Statement::ShowColumns { .. } | Statement::ShowVariable { .. } | Statement::ShowVariables { .. }
        | Statement::ShowSchemas { .. } | Statement::ShowDatabases { .. } | Statement::ShowFunctions { .. } | Statement::ShowViews { .. } | Statement::ShowCreate { .. } => false,
        _ => true,
    }
}
// statements a reader must be allowed to run
pub open spec fn sql_reads(s: Statement) -> bool decreases s {
    match s {
        Statement::Query(q) => !body_writes(*q.body),
        Statement::Explain { analyze, statement, .. } => !analyze || sql_reads(*statement),
        Statement::ShowTables { .. } => true,
        _ => false,
    }
}
pub open spec fn writes(s: DFStatement) -> bool { match s { DFStatement::Statement(s) => sql_writes(*s), _ => true } }
pub open spec fn reads(s: DFStatement) -> bool { match s { DFStatement::Statement(s) => sql_reads(*s), _ => false } }
pub proof fn reads_do_not_write(s: Statement) requires sql_reads(s) ensures !sql_writes(s) decreases s {
    match s { Statement::Explain { analyze, statement, .. } => { if analyze { reads_do_not_write(*statement); } } _ => {} }
}
//@extract src/context/logical.rs | fn is_query_body_read_only | ifpresent
//@contract
    ensures r == !body_writes(*body),
    decreases *body,
//@end
//@extract src/context/logical.rs | fn is_sql_statement_read_only | ifpresent
//@contract
    ensures r ==> !sql_writes(*statement), sql_reads(*statement) ==> r,
    decreases *statement,
//@end
//@extract src/context/logical.rs | fn is_statement_read_only
//@contract
    ensures r ==> !writes(*statement), reads(*statement) ==> r,
//@end
pub struct Analyze { pub input: Box<LogicalPlan>, pub rest: Opaque }
//@extract ~/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/datafusion-expr-44.0.0/src/logical_plan/plan.rs | enum LogicalPlan | payload=Analyze
//@end
// a plan whose execution changes something (an extension is one of the DDL statements of seafowl)
pub open spec fn plan_writes(p: LogicalPlan) -> bool decreases p {
    match p { LogicalPlan::Dml(_) | LogicalPlan::Ddl(_) | LogicalPlan::Copy(_) | LogicalPlan::Extension(_) => true, LogicalPlan::Analyze(a) => plan_writes(*a.input), _ => false }
}
pub open spec fn plan_reads(p: LogicalPlan) -> bool {
    match p { LogicalPlan::Dml(_) | LogicalPlan::Ddl(_) | LogicalPlan::Copy(_) | LogicalPlan::Extension(_) | LogicalPlan::Analyze(_) | LogicalPlan::Statement(_) | LogicalPlan::DescribeTable(_) | LogicalPlan::Explain(_) => false, _ => true }
}
//@extract src/context/logical.rs | fn is_read_only
//@contract
    ensures r ==> !plan_writes(*plan), plan_reads(*plan) ==> r,
//@end
//@include access_http.inc.rs
pub open spec fn asked(path: Seq<char>, raw: Option<Seq<char>>) -> Seq<char> { match raw { Some(q) => pct(q), None => pct(before(path, '.')) } }
// the first n statements of a script, run in order for a database
pub open spec fn ran_upto(a: World, b: World, cat: Seq<char>, v: Seq<DFStatement>, n: int) -> bool {
    b.loaded == a.loaded && 0 <= n <= v.len() && b.ran@.len() == a.ran@.len() + n && (forall|i: int| 0 <= i < a.ran@.len() ==> b.ran@[i] == a.ran@[i])
    && forall|i: int| 0 <= i < n ==> (#[trigger] b.ran@[a.ran@.len() + i]).catalog == cat && planned(b.ran@[a.ran@.len() + i].plan) == (cat, v[i])
}
pub open spec fn holds_plan(p: Option<Exec>, r: Run) -> bool { p is Some && p->0.of@ == r }
pub open spec fn load_of(f: Seq<PartS>, cat: Seq<char>, schema: Seq<char>, table: Seq<char>) -> Load { let u = asked_of(f); Load { catalog: cat, schema, table, bytes: u.bytes, kind: after_last(u.filename, '.'), header: u.header, columns: u.columns } }
pub open spec fn some_write(v: Seq<DFStatement>) -> bool { exists|i: int| 0 <= i < v.len() && writes(#[trigger] v[i]) }
pub open spec fn all_read(v: Seq<DFStatement>) -> bool { forall|i: int| 0 <= i < v.len() ==> reads(#[trigger] v[i]) }
pub open spec fn permitted(u: UserContext, v: Seq<DFStatement>) -> bool {
    (some_write(v) ==> can(u.principal, Action::Write, u.policy)) && (all_read(v) ==> can(u.principal, Action::Read, u.policy)) && (can(u.principal, Action::Read, u.policy) || can(u.principal, Action::Write, u.policy))
}
//@extract src/frontend/http.rs | fn uncached_read_write_query | world streq try=to_api
//@types
Arc<SeafowlContext> => Ctx
//@methods
headers_mut/0 => DROP
insert/2 => mut_set_header
parse/0 => rx_header
create_physical_plan/1 => wr_create_physical_plan
expect/1 => own_expect
last/0 => rx_last
//@paths
header::CONTENT_TYPE => Hdr::ContentType
QUERY_TIME_HEADER => Hdr::QueryTime
//@contract
    ensures
        final(w).loaded == old(w).loaded,
        final(w).ran@ == old(w).ran@ || (permitted(user_context, script(query@)) && ran_upto(*old(w), *final(w), database_name@, script(query@), final(w).ran@.len() - old(w).ran@.len())),
        r is Ok ==> ran_upto(*old(w), *final(w), database_name@, script(query@), script(query@).len() as int) && script(query@).len() > 0
            && r->Ok_0.status == 200 && r->Ok_0.body@ == rows(final(w).ran@.last()),
        (r is Err && r->Err_0 is WriteForbidden) ==> !(some_write(script(query@)) && can(user_context.principal, Action::Write, user_context.policy)) && !(all_read(script(query@)) && can(user_context.principal, Action::Read, user_context.policy)),
//@entry
    let ghost w0 = *w;
//@loop 0
    invariant
        __it0.all() == Seq::new(statements@.len(), |i: int| &statements@[i]), 0 <= __it0.pos() <= __it0.all().len(),
        __acc0 <= __it0.pos(), __it0.all().len() <= usize::MAX,
        __acc0 == __it0.pos() ==> forall|i: int| 0 <= i < __it0.pos() ==> !writes(#[trigger] statements@[i]),
        (forall|i: int| 0 <= i < __it0.pos() ==> reads(#[trigger] statements@[i])) ==> __acc0 == __it0.pos(),
    ensures
        __it0.pos() == statements@.len(),
        __acc0 == __it0.pos() ==> forall|i: int| 0 <= i < __it0.pos() ==> !writes(#[trigger] statements@[i]),
        (forall|i: int| 0 <= i < __it0.pos() ==> reads(#[trigger] statements@[i])) ==> __acc0 == __it0.pos(),
    decreases __it0.all().len() - __it0.pos(),
//@loop 1
    invariant
        w0 == *old(w), __it1.all() == script(query@), 0 <= __it1.pos() <= __it1.all().len(), context.default_catalog@ == database_name@,
        permitted(user_context, script(query@)),
        ran_upto(w0, *w, database_name@, script(query@), __it1.pos()),
        __it1.pos() > 0 ==> holds_plan(plan_to_output, w.ran@.last()),
    ensures __it1.pos() >= __it1.all().len(),
    decreases __it1.all().len() - __it1.pos(),
//@end
impl Ctx {
//@extract src/context/logical.rs | impl SeafowlContext :: create_logical_plan
//@types
Result<LogicalPlan> => Result<LogicalPlan, DataFusionError>
//@calls
Error::NotImplemented => rx_not_impl
//@methods
pop/0 => mut_pop
//@contract
    ensures r is Ok ==> script(sql@).len() == 1 && planned(r->Ok_0) == (self.default_catalog@, script(sql@)[0]),
//@end
}
//@extract src/frontend/http.rs | fn cached_read_query | world streq try=to_api
//@types
Arc<SeafowlContext> => Ctx
//@methods
headers_mut/0 => DROP
insert/2 => mut_set_header
parse/0 => rx_header
create_physical_plan/1 => wr_create_physical_plan
split/1 => rx_split
into_response/0 => DROP
clone/0 => own_clone
//@calls
warp::reply::with_status => rx_with_status
//@paths
header::CONTENT_TYPE => Hdr::ContentType
header::ETAG => Hdr::Etag
QUERY_TIME_HEADER => Hdr::QueryTime
//@contract
    ensures
        final(w).loaded == old(w).loaded,
        // at most one plan is run, for the database of the request, made from its query, and it writes nothing
        final(w).ran@ == old(w).ran@ || (ran_upto(*old(w), *final(w), database_name@, script(asked(query_or_hash@, optv(maybe_raw_query))), 1) && !plan_writes(final(w).ran@.last().plan)),
        // a query sent beside the URL has to be the one the URL names
        (maybe_raw_query is Some && (r is Ok || final(w).ran@ != old(w).ran@)) ==> before(query_or_hash@, '.') == hash(pct(maybe_raw_query->0@)),
        r is Ok && r->Ok_0.status != 304 ==> final(w).ran@ != old(w).ran@ && r->Ok_0.status == 200 && r->Ok_0.body@ == rows(final(w).ran@.last())
            && r->Ok_0.headers@.dom().contains(Hdr::Etag) && r->Ok_0.headers@[Hdr::Etag] == etag_of(final(w).ran@.last().plan)
            && r->Ok_0.headers@.dom().contains(Hdr::ContentType) && r->Ok_0.headers@[Hdr::ContentType] == ctype(out_schema(final(w).ran@.last())),
        // unchanged is only answered to a caller that holds the tag of this very plan
        r is Ok && r->Ok_0.status == 304 ==> exists|p: LogicalPlan| planned(p) == (database_name@, script(asked(query_or_hash@, optv(maybe_raw_query)))[0]) && if_none_match is Some && if_none_match->0@ == #[trigger] etag_of(p) && !plan_writes(p),
//@end
//@extract src/frontend/http.rs | fn load_part | try=to_api
//@methods
extend/1 => mut_extend
//@contract
    requires part.pos@ == 0,
    ensures r is Ok ==> r->Ok_0@ == flat(part.of@.chunks), r is Err ==> r->Err_0 is UploadBodyLoadError,
//@entry
    let ghost cs = part.of@.chunks;
//@loop 0
    invariant part.of@.chunks == cs, 0 <= part.pos@ <= cs.len(), bytes@ == flat(cs.take(part.pos@)),
    ensures bytes@ == flat(cs),
    decreases cs.len() - part.pos@,
//@body 0
    proof { assert(cs.take(cs.len() as int) =~= cs); if part.pos@ < cs.len() { lemma_flat(cs, part.pos@); } }
//@end
//@extract src/frontend/http.rs | fn upload | world streq try=to_api
//@types
Arc<SeafowlContext> => Ctx
//@calls
String::from_utf8 => rx_from_utf8
serde_json::from_str => rx_json_schema
Arc::new => rx_id
tempfile::Builder::new => Builder::new
warp::reply::with_status => rx_with_status
//@methods
starts_with/1 => rx_starts_with
split/1 => rx_split
suffix/1 => own_suffix
tempfile/0 => wr_tempfile
write_all/1 => wm_write_all
file_to_table/6 => wr_file_to_table
into_response/0 => DROP
//@contract
    requires form.pos@ == 0,
    ensures
        final(w).ran == old(w).ran,
        !can(user_context.principal, Action::Write, user_context.policy) ==> r is Err && r->Err_0 is WriteForbidden && final(w).loaded == old(w).loaded,
        (r is Err && r->Err_0 is WriteForbidden) ==> !can(user_context.principal, Action::Write, user_context.policy),
        final(w).loaded@ == old(w).loaded@ || final(w).loaded@ == old(w).loaded@.push(load_of(form.all@, database_name@, schema_name@, table_name@)),
        r is Ok ==> r->Ok_0.status == 200 && final(w).loaded@ == old(w).loaded@.push(load_of(form.all@, database_name@, schema_name@, table_name@)),
        final(w).loaded@ != old(w).loaded@ ==> final(w).loaded@.last().kind == "csv"@ || final(w).loaded@.last().kind == "parquet"@,
//@entry
    broadcast use lemma_ext;
    proof { reveal_strlit(""); reveal_strlit("csv"); reveal_strlit("parquet"); reveal_strlit("has_header"); reveal_strlit("schema"); reveal_strlit("data"); reveal_strlit("file"); }
    let ghost w0 = *w; let ghost fs = form.all@; proof { assert(fs.take(fs.len() as int) =~= fs); }
    proof { assert(asked_of(fs.take(0)) == Up { header: true, columns: None, filename: Seq::empty(), bytes: Seq::empty() }); assert(""@ =~= Seq::<char>::empty()); assert(after_last(Seq::empty(), '.') =~= Seq::<char>::empty()); }
//@loop 0
    invariant
        w0 == *old(w), w.ran == w0.ran, w.loaded == w0.loaded, form.all@ == fs, 0 <= form.pos@ <= fs.len(), context.default_catalog@ == database_name@,
        can(user_context.principal, Action::Write, user_context.policy),
        has_header == asked_of(fs.take(form.pos@)).header, schema == asked_of(fs.take(form.pos@)).columns, filename@ == asked_of(fs.take(form.pos@)).filename,
        file_type@ == after_last(filename@, '.'), filename@.len() > 0 ==> w.files@[temp_path@] == asked_of(fs.take(form.pos@)).bytes,
    ensures form.pos@ == fs.len(),
    decreases fs.len() - form.pos@,
//@body 0
    proof { reveal_strlit("has_header"); reveal_strlit("schema"); reveal_strlit("data"); reveal_strlit("file"); if form.pos@ < fs.len() { lemma_asked(fs, form.pos@); } }
//@loop 1
    invariant
        w0 == *old(w), can(user_context.principal, Action::Write, user_context.policy), w.ran == w0.ran, w.loaded == w0.loaded, 0 <= part.pos@ <= part.of@.chunks.len(), part.of@ == fs[form.pos@ - 1], temp_path@ == temp_file.at@,
        w.files@[temp_file.at@] == flat(part.of@.chunks.take(part.pos@)),
    ensures w.files@[temp_file.at@] == flat(part.of@.chunks),
    decreases part.of@.chunks.len() - part.pos@,
//@body 1
    proof { let cs = part.of@.chunks; assert(cs.take(cs.len() as int) =~= cs); if part.pos@ < cs.len() { lemma_flat(cs, part.pos@); } }
//@end
pub open spec fn status_of(e: ApiError) -> int {
    match e {
        ApiError::ReadForbidden | ApiError::WriteForbidden => 403,
        ApiError::NeedAccessToken | ApiError::WrongAccessToken | ApiError::InvalidAuthorizationHeader => 401,
        ApiError::NotReadOnlyQuery | ApiError::ReadOnlyEndpointDisabled => 405,
        ApiError::IoError(_) => 500,
        _ => 400,
    }
}
impl ApiError {
//@extract src/frontend/http_utils.rs | impl ApiError :: status_code_body
//@contract
    ensures r.0.n == status_of(*self), ApiError::WriteForbidden == *self ==> r.1@ == "WRITE_FORBIDDEN"@, ApiError::ReadForbidden == *self ==> r.1@ == "READ_FORBIDDEN"@,
//@end
//@extract src/frontend/http_utils.rs | impl ApiError :: response
//@types
Response<Body> => Response
//@calls
Response::builder => rx_builder
//@methods
status/1 => own_status
into/0 => DROP
body/1 => own_body
expect/1 => own_unwrap
//@contract
    ensures r.status == status_of(*self),
//@end
}
pub trait Reply: Sized { spec fn code(&self) -> int; fn into_response(self) -> (r: Response) ensures r.status == self.code(); }
impl Reply for Response { open spec fn code(&self) -> int { self.status as int } fn into_response(self) -> (r: Response) { self } }
impl Reply for ApiError {
    open spec fn code(&self) -> int { status_of(*self) }
//@extract src/frontend/http_utils.rs | impl Reply for ApiError :: into_response | intrait
//@types
Response<Body> => Response
//@end
}
//@extract src/frontend/http_utils.rs | fn into_response
//@types
Response<Body> => Response
//@contract
    ensures r.status == (match reply_res { Ok(x) => x.code(), Err(e) => e.code() }),
//@end
// ---- must be refused
//@probe
pub fn probe_anyone_writes(p: &AccessPolicy) ensures can(Principal::Reader, Action::Write, *p) {}
//@probe
pub fn probe_token_kept(h: Option<String>, p: &AccessPolicy) { let r = header_to_user_context(h, p); assert(r is Ok ==> !(p.write is Off)); }
//@probe
pub fn probe_write_unchecked(w: &mut World, d: String, u: UserContext, q: String, c: Ctx) { let ghost a = *w; let r = uncached_read_write_query(w, d, u, q, c); assert(w.ran@ == a.ran@ || can(u.principal, Action::Write, u.policy)); }
//@probe
pub fn probe_get_never_runs(w: &mut World, d: String, q: String, c: Ctx) { let ghost a = *w; let r = cached_read_query(w, d, q, None, None, c); assert(w.ran@ == a.ran@); }
//@probe
pub fn probe_upload_never_loads(w: &mut World, d: String, s: String, t: String, u: UserContext, f: FormData, c: Ctx) requires f.pos@ == 0 { let ghost a = *w; let r = upload(w, d, s, t, u, f, c); assert(w.loaded@ == a.loaded@); }
//@probe
pub fn probe_select_into_reads(s: &DFStatement) { let r = is_statement_read_only(s); assert(r ==> !(s is Statement)); }
}
fn main() {}
