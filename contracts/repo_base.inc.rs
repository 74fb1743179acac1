// ---- the catalog database: its state, what each SQL statement of the repository does to it (assumed of the database;
// exercised on a real SQLite database by the replay), transactions
#[verifier::external_body]
pub struct Opaque { p: u8 }
pub struct Uuid { pub id: u128 }
impl Copy for Uuid {}
impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Uuid) ensures r == *self { unimplemented!() } }
pub type DatabaseId = i64;
pub type CollectionId = i64;
pub type TableId = i64;
pub type TableVersionId = i64;
pub type FunctionId = i64;
pub type Timestamp = i64;
pub ghost struct Coll { pub db: int, pub name: Seq<char> }
pub ghost struct Tab { pub coll: int, pub name: Seq<char>, pub uuid: Uuid }
pub ghost struct Ver { pub table: int, pub version: int }
pub ghost struct Col { pub ver: int, pub name: Seq<char>, pub ty: Seq<char> }
pub ghost struct Fun { pub db: int, pub name: Seq<char>, pub entry: Seq<char>, pub lang: Seq<char>, pub inputs: Seq<char>, pub ret: Seq<char>, pub data: Seq<char>, pub vol: Seq<char> }
pub ghost struct Drp { pub db: Seq<char>, pub coll: Seq<char>, pub table: Seq<char>, pub uuid: Uuid, pub status: Seq<char>, pub time: int }
pub ghost struct Db { pub dbs: IMap<int, Seq<char>>, pub colls: IMap<int, Coll>, pub tabs: IMap<int, Tab>, pub vers: IMap<int, Ver>, pub cols: ISet<Col>, pub funs: IMap<int, Fun>, pub dropped: IMap<int, Drp> }

pub ghost enum Bind { I(int), S(Seq<char>), U(Uuid) }
pub ghost enum Piece { T(Seq<char>), B(Bind) }
pub ghost struct Stmt { pub pieces: Seq<Piece>, pub binds: Seq<Bind> }
pub trait RxBind { spec fn b(&self) -> Bind; }
impl RxBind for i64 { open spec fn b(&self) -> Bind { Bind::I(*self as int) } }
impl RxBind for str { open spec fn b(&self) -> Bind { Bind::S(self@) } }
impl RxBind for String { open spec fn b(&self) -> Bind { Bind::S(self@) } }
impl RxBind for Uuid { open spec fn b(&self) -> Bind { Bind::U(*self) } }
impl<T: RxBind + ?Sized> RxBind for &T { open spec fn b(&self) -> Bind { (**self).b() } }

// a statement as the repository composes it
pub ghost enum Cmd {
    InsDb(Seq<char>), InsColl(int, Seq<char>), InsTab(int, Seq<char>, Uuid), InsVer(int), InsCols(Seq<Col>), DelOld(int), MaxVer(Uuid), CopyVer(int, int), CopyCols(int, int),
    Rename(int, Seq<char>), Move(int, Seq<char>, int), InsFun(bool, Fun), DelFuns(int, Seq<Seq<char>>), DelTab(int), DelColl(int), DelDb(int), UpdDropped(Uuid, Seq<char>), DelDropped(Uuid),
    GetDb(Seq<char>), GetColl(Seq<char>, Seq<char>), GetTab(Seq<char>, Seq<char>, Seq<char>), ListColls(Seq<char>), ListFuns(int), ListVers(Seq<char>, Option<Seq<Seq<char>>>), ListDropped(Option<Seq<char>>),
}
pub open spec fn txt(s: Sql) -> Piece { Piece::T(sqltext(s)) }
// QUERIES.cast_timestamp with the column filled in
pub uninterp spec fn cast_of(col: Seq<char>) -> Seq<char>;
// the placeholder list $i, $i+1, ..
pub open spec fn dollar(i: int) -> Seq<char> { "$"@ + dec(i) }
pub uninterp spec fn dec(i: int) -> Seq<char>;
pub open spec fn means(q: Stmt, c: Cmd) -> bool {
    match c {
        Cmd::InsDb(n) => q.pieces == seq![txt(Sql::INS_DB)] && q.binds == seq![Bind::S(n)],
        Cmd::InsColl(d, n) => q.pieces == seq![txt(Sql::INS_COLL)] && q.binds == seq![Bind::I(d), Bind::S(n)],
        Cmd::InsTab(c, n, u) => q.pieces == seq![txt(Sql::INS_TAB)] && q.binds == seq![Bind::I(c), Bind::S(n), Bind::U(u)],
        Cmd::InsVer(t) => q.pieces == seq![txt(Sql::INS_VER)] && q.binds == seq![Bind::I(t)],
        Cmd::InsCols(v) => v.len() > 0 && q.pieces == ins_pieces(v) && q.binds == Seq::<Bind>::empty(),
        Cmd::DelOld(t) => q.pieces == seq![txt(Sql::DEL_OLD)] && q.binds == seq![Bind::I(t)],
        Cmd::MaxVer(u) => q.pieces == seq![txt(Sql::MAX_VER)] && q.binds == seq![Bind::U(u)],
        Cmd::CopyVer(v, from) => q.pieces == seq![txt(Sql::COPY_VER)] && q.binds == seq![Bind::I(v), Bind::I(from)],
        Cmd::CopyCols(from, to) => q.pieces == seq![txt(Sql::COPY_COLS)] && q.binds == seq![Bind::I(from), Bind::I(to)],
        Cmd::Rename(t, n) => q.pieces == seq![txt(Sql::RENAME)] && q.binds == seq![Bind::S(n), Bind::I(t)],
        Cmd::Move(t, n, c) => q.pieces == seq![txt(Sql::MOVE)] && q.binds == seq![Bind::S(n), Bind::I(c), Bind::I(t)],
        Cmd::InsFun(repl, f) => q.pieces == seq![Piece::T(ins_fun(repl))]
            && q.binds == seq![Bind::I(f.db), Bind::S(f.name), Bind::S(f.entry), Bind::S(f.lang), Bind::S(f.inputs), Bind::S(f.ret), Bind::S(f.data), Bind::S(f.vol)],
        Cmd::DelFuns(d, names) => q.pieces == seq![Piece::T(fun_text(names.len() as int))] && q.binds == fun_binds(d, names),
        Cmd::DelTab(t) => q.pieces == seq![txt(Sql::DEL_TAB)] && q.binds == seq![Bind::I(t)],
        Cmd::DelColl(t) => q.pieces == seq![txt(Sql::DEL_COLL)] && q.binds == seq![Bind::I(t)],
        Cmd::DelDb(t) => q.pieces == seq![txt(Sql::DEL_DB)] && q.binds == seq![Bind::I(t)],
        Cmd::UpdDropped(u, s) => q.pieces == seq![txt(Sql::UPD_DROPPED)] && q.binds == seq![Bind::S(s), Bind::U(u)],
        Cmd::DelDropped(u) => q.pieces == seq![txt(Sql::DEL_DROPPED)] && q.binds == seq![Bind::U(u)],
        Cmd::GetDb(n) => q.pieces == seq![txt(Sql::GET_DB)] && q.binds == seq![Bind::S(n)],
        Cmd::GetColl(d, n) => q.pieces == seq![txt(Sql::GET_COLL)] && q.binds == seq![Bind::S(d), Bind::S(n)],
        Cmd::GetTab(d, c, n) => q.pieces == seq![txt(Sql::GET_TAB)] && q.binds == seq![Bind::S(d), Bind::S(c), Bind::S(n)],
        Cmd::ListColls(n) => q.pieces == seq![txt(Sql::LATEST), txt(Sql::LIST_COLLS), Piece::B(Bind::S(n)), txt(Sql::LIST_COLLS_END)] && q.binds == Seq::<Bind>::empty(),
        Cmd::ListFuns(d) => q.pieces == seq![txt(Sql::LIST_FUNS)] && q.binds == seq![Bind::I(d)],
        Cmd::ListVers(n, None) => q.pieces == seq![Piece::T(vers_text()), txt(Sql::WHERE_DB), Piece::B(Bind::S(n))] && q.binds == Seq::<Bind>::empty(),
        Cmd::ListVers(n, Some(ts)) => ts.len() > 0 && q.pieces == seq![Piece::T(vers_text()), txt(Sql::WHERE_DB), Piece::B(Bind::S(n)), txt(Sql::AND_TABLES)] + binds_of(ts) + seq![txt(Sql::CLOSE)] && q.binds == Seq::<Bind>::empty(),
        Cmd::ListDropped(None) => q.pieces == seq![Piece::T(dropped_text())] && q.binds == Seq::<Bind>::empty(),
        Cmd::ListDropped(Some(n)) => q.pieces == seq![Piece::T(dropped_text()), txt(Sql::WHERE_DROPPED), Piece::B(Bind::S(n))] && q.binds == Seq::<Bind>::empty(),
    }
}
// the statement a text with its binds is
pub open spec fn one(q: Stmt, s: Sql) -> bool { q.pieces.len() == 1 && q.pieces[0] == txt(s) }
pub open spec fn nob(q: Stmt) -> bool { q.binds.len() == 0 }
pub open spec fn ins_fun(repl: bool) -> Seq<char> { sqltext(Sql::INS_FUN) + sqltext(if repl { Sql::REPL_FUN } else { Sql::EMPTY }) + sqltext(Sql::RET_FUN) }
pub open spec fn vers_text() -> Seq<char> { sqltext(Sql::LIST_VERS) + cast_of("table_version.creation_time"@) + sqltext(Sql::LIST_VERS_FROM) }
pub open spec fn dropped_text() -> Seq<char> { sqltext(Sql::LIST_DROPPED) + cast_of("drop_time"@) + sqltext(Sql::FROM_DROPPED) }
pub open spec fn fun_list(n: int) -> Seq<Seq<char>> { Seq::new(n as nat, |i: int| dollar(i + 2)) }
pub open spec fn fun_text(n: int) -> Seq<char> { sqltext(Sql::DEL_FUNS) + join_spec(fun_list(n), sqltext(Sql::COMMA)) + sqltext(Sql::DEL_FUNS_END) }
pub open spec fn fun_binds(d: int, names: Seq<Seq<char>>) -> Seq<Bind> { seq![Bind::I(d)] + Seq::new(names.len(), |i: int| Bind::S(names[i])) }
pub open spec fn vers_pieces(n: Seq<char>, ts: Seq<Seq<char>>) -> Seq<Piece> { seq![Piece::T(vers_text()), txt(Sql::WHERE_DB), Piece::B(Bind::S(n)), txt(Sql::AND_TABLES)] + binds_of(ts) }
pub broadcast proof fn m_0(q: Stmt) requires one(q, Sql::INS_DB) && q.binds.len() == 1 && q.binds[0] is S ensures #[trigger] known(q), means(q, Cmd::InsDb(q.binds[0]->S_0)) { let c = Cmd::InsDb(q.binds[0]->S_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_1(q: Stmt) requires one(q, Sql::INS_COLL) && q.binds.len() == 2 && q.binds[0] is I && q.binds[1] is S ensures #[trigger] known(q), means(q, Cmd::InsColl(q.binds[0]->I_0, q.binds[1]->S_0)) { let c = Cmd::InsColl(q.binds[0]->I_0, q.binds[1]->S_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_2(q: Stmt) requires one(q, Sql::INS_TAB) && q.binds.len() == 3 && q.binds[0] is I && q.binds[1] is S && q.binds[2] is U ensures #[trigger] known(q), means(q, Cmd::InsTab(q.binds[0]->I_0, q.binds[1]->S_0, q.binds[2]->U_0)) { let c = Cmd::InsTab(q.binds[0]->I_0, q.binds[1]->S_0, q.binds[2]->U_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_3(q: Stmt) requires one(q, Sql::INS_VER) && q.binds.len() == 1 && q.binds[0] is I ensures #[trigger] known(q), means(q, Cmd::InsVer(q.binds[0]->I_0)) { let c = Cmd::InsVer(q.binds[0]->I_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_4(q: Stmt) requires one(q, Sql::DEL_OLD) && q.binds.len() == 1 && q.binds[0] is I ensures #[trigger] known(q), means(q, Cmd::DelOld(q.binds[0]->I_0)) { let c = Cmd::DelOld(q.binds[0]->I_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_5(q: Stmt) requires one(q, Sql::MAX_VER) && q.binds.len() == 1 && q.binds[0] is U ensures #[trigger] known(q), means(q, Cmd::MaxVer(q.binds[0]->U_0)) { let c = Cmd::MaxVer(q.binds[0]->U_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_6(q: Stmt) requires one(q, Sql::COPY_VER) && q.binds.len() == 2 && q.binds[0] is I && q.binds[1] is I ensures #[trigger] known(q), means(q, Cmd::CopyVer(q.binds[0]->I_0, q.binds[1]->I_0)) { let c = Cmd::CopyVer(q.binds[0]->I_0, q.binds[1]->I_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_7(q: Stmt) requires one(q, Sql::COPY_COLS) && q.binds.len() == 2 && q.binds[0] is I && q.binds[1] is I ensures #[trigger] known(q), means(q, Cmd::CopyCols(q.binds[0]->I_0, q.binds[1]->I_0)) { let c = Cmd::CopyCols(q.binds[0]->I_0, q.binds[1]->I_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_8(q: Stmt) requires one(q, Sql::RENAME) && q.binds.len() == 2 && q.binds[0] is S && q.binds[1] is I ensures #[trigger] known(q), means(q, Cmd::Rename(q.binds[1]->I_0, q.binds[0]->S_0)) { let c = Cmd::Rename(q.binds[1]->I_0, q.binds[0]->S_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_9(q: Stmt) requires one(q, Sql::MOVE) && q.binds.len() == 3 && q.binds[0] is S && q.binds[1] is I && q.binds[2] is I ensures #[trigger] known(q), means(q, Cmd::Move(q.binds[2]->I_0, q.binds[0]->S_0, q.binds[1]->I_0)) { let c = Cmd::Move(q.binds[2]->I_0, q.binds[0]->S_0, q.binds[1]->I_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_10(q: Stmt) requires one(q, Sql::DEL_TAB) && q.binds.len() == 1 && q.binds[0] is I ensures #[trigger] known(q), means(q, Cmd::DelTab(q.binds[0]->I_0)) { let c = Cmd::DelTab(q.binds[0]->I_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_11(q: Stmt) requires one(q, Sql::DEL_COLL) && q.binds.len() == 1 && q.binds[0] is I ensures #[trigger] known(q), means(q, Cmd::DelColl(q.binds[0]->I_0)) { let c = Cmd::DelColl(q.binds[0]->I_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_12(q: Stmt) requires one(q, Sql::DEL_DB) && q.binds.len() == 1 && q.binds[0] is I ensures #[trigger] known(q), means(q, Cmd::DelDb(q.binds[0]->I_0)) { let c = Cmd::DelDb(q.binds[0]->I_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_13(q: Stmt) requires one(q, Sql::UPD_DROPPED) && q.binds.len() == 2 && q.binds[0] is S && q.binds[1] is U ensures #[trigger] known(q), means(q, Cmd::UpdDropped(q.binds[1]->U_0, q.binds[0]->S_0)) { let c = Cmd::UpdDropped(q.binds[1]->U_0, q.binds[0]->S_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_14(q: Stmt) requires one(q, Sql::DEL_DROPPED) && q.binds.len() == 1 && q.binds[0] is U ensures #[trigger] known(q), means(q, Cmd::DelDropped(q.binds[0]->U_0)) { let c = Cmd::DelDropped(q.binds[0]->U_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_15(q: Stmt) requires one(q, Sql::GET_DB) && q.binds.len() == 1 && q.binds[0] is S ensures #[trigger] known(q), means(q, Cmd::GetDb(q.binds[0]->S_0)) { let c = Cmd::GetDb(q.binds[0]->S_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_16(q: Stmt) requires one(q, Sql::GET_COLL) && q.binds.len() == 2 && q.binds[0] is S && q.binds[1] is S ensures #[trigger] known(q), means(q, Cmd::GetColl(q.binds[0]->S_0, q.binds[1]->S_0)) { let c = Cmd::GetColl(q.binds[0]->S_0, q.binds[1]->S_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_17(q: Stmt) requires one(q, Sql::GET_TAB) && q.binds.len() == 3 && q.binds[0] is S && q.binds[1] is S && q.binds[2] is S ensures #[trigger] known(q), means(q, Cmd::GetTab(q.binds[0]->S_0, q.binds[1]->S_0, q.binds[2]->S_0)) { let c = Cmd::GetTab(q.binds[0]->S_0, q.binds[1]->S_0, q.binds[2]->S_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_18(q: Stmt) requires one(q, Sql::LIST_FUNS) && q.binds.len() == 1 && q.binds[0] is I ensures #[trigger] known(q), means(q, Cmd::ListFuns(q.binds[0]->I_0)) { let c = Cmd::ListFuns(q.binds[0]->I_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_19a(q: Stmt) requires q.pieces.len() == 1 && q.pieces[0] == Piece::T(ins_fun(true)) && q.binds.len() == 8 && q.binds[0] is I && (forall|i: int| 1 <= i < 8 ==> (#[trigger] q.binds[i]) is S) ensures #[trigger] known(q), means(q, Cmd::InsFun(true, Fun { db: q.binds[0]->I_0, name: q.binds[1]->S_0, entry: q.binds[2]->S_0, lang: q.binds[3]->S_0, inputs: q.binds[4]->S_0, ret: q.binds[5]->S_0, data: q.binds[6]->S_0, vol: q.binds[7]->S_0 })) { let c = Cmd::InsFun(true, Fun { db: q.binds[0]->I_0, name: q.binds[1]->S_0, entry: q.binds[2]->S_0, lang: q.binds[3]->S_0, inputs: q.binds[4]->S_0, ret: q.binds[5]->S_0, data: q.binds[6]->S_0, vol: q.binds[7]->S_0 }); assert(means(q, c)) by { lemma_ext(q); assert(q.binds[1] is S && q.binds[2] is S && q.binds[3] is S && q.binds[4] is S && q.binds[5] is S && q.binds[6] is S && q.binds[7] is S); } }
pub broadcast proof fn m_19b(q: Stmt) requires q.pieces.len() == 1 && q.pieces[0] == Piece::T(ins_fun(false)) && q.binds.len() == 8 && q.binds[0] is I && (forall|i: int| 1 <= i < 8 ==> (#[trigger] q.binds[i]) is S) ensures #[trigger] known(q), means(q, Cmd::InsFun(false, Fun { db: q.binds[0]->I_0, name: q.binds[1]->S_0, entry: q.binds[2]->S_0, lang: q.binds[3]->S_0, inputs: q.binds[4]->S_0, ret: q.binds[5]->S_0, data: q.binds[6]->S_0, vol: q.binds[7]->S_0 })) { let c = Cmd::InsFun(false, Fun { db: q.binds[0]->I_0, name: q.binds[1]->S_0, entry: q.binds[2]->S_0, lang: q.binds[3]->S_0, inputs: q.binds[4]->S_0, ret: q.binds[5]->S_0, data: q.binds[6]->S_0, vol: q.binds[7]->S_0 }); assert(means(q, c)) by { lemma_ext(q); assert(q.binds[1] is S && q.binds[2] is S && q.binds[3] is S && q.binds[4] is S && q.binds[5] is S && q.binds[6] is S && q.binds[7] is S); } }
pub broadcast proof fn m_20(q: Stmt) requires q.pieces.len() == 4 && q.pieces[0] == txt(Sql::LATEST) && q.pieces[1] == txt(Sql::LIST_COLLS) && q.pieces[2] is B && q.pieces[2]->B_0 is S && q.pieces[3] == txt(Sql::LIST_COLLS_END) && nob(q) ensures #[trigger] known(q), means(q, Cmd::ListColls(q.pieces[2]->B_0->S_0)) { let c = Cmd::ListColls(q.pieces[2]->B_0->S_0); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_21(q: Stmt) requires q.pieces.len() == 3 && q.pieces[0] == Piece::T(vers_text()) && q.pieces[1] == txt(Sql::WHERE_DB) && q.pieces[2] is B && q.pieces[2]->B_0 is S && nob(q) ensures #[trigger] known(q), means(q, Cmd::ListVers(q.pieces[2]->B_0->S_0, None)) { let c = Cmd::ListVers(q.pieces[2]->B_0->S_0, None); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_22(q: Stmt) requires q.pieces.len() == 1 && q.pieces[0] == Piece::T(dropped_text()) && nob(q) ensures #[trigger] known(q), means(q, Cmd::ListDropped(None)) { let c = Cmd::ListDropped(None); assert(means(q, c)) by { lemma_ext(q); } }
pub broadcast proof fn m_23(q: Stmt) requires q.pieces.len() == 3 && q.pieces[0] == Piece::T(dropped_text()) && q.pieces[1] == txt(Sql::WHERE_DROPPED) && q.pieces[2] is B && q.pieces[2]->B_0 is S && nob(q) ensures #[trigger] known(q), means(q, Cmd::ListDropped(Some(q.pieces[2]->B_0->S_0))) { let c = Cmd::ListDropped(Some(q.pieces[2]->B_0->S_0)); assert(means(q, c)) by { lemma_ext(q); } }
pub proof fn lemma_ext(q: Stmt)
    ensures
        q.pieces.len() == 1 ==> q.pieces == seq![q.pieces[0]],
        q.pieces.len() == 3 ==> q.pieces == seq![q.pieces[0], q.pieces[1], q.pieces[2]],
        q.pieces.len() == 4 ==> q.pieces == seq![q.pieces[0], q.pieces[1], q.pieces[2], q.pieces[3]],
        q.binds.len() == 0 ==> q.binds == Seq::<Bind>::empty(),
        q.binds.len() == 1 ==> q.binds == seq![q.binds[0]],
        q.binds.len() == 2 ==> q.binds == seq![q.binds[0], q.binds[1]],
        q.binds.len() == 3 ==> q.binds == seq![q.binds[0], q.binds[1], q.binds[2]],
        q.binds.len() == 8 ==> q.binds == seq![q.binds[0], q.binds[1], q.binds[2], q.binds[3], q.binds[4], q.binds[5], q.binds[6], q.binds[7]],
{
    if q.pieces.len() == 1 { assert(q.pieces =~= seq![q.pieces[0]]); }
    if q.pieces.len() == 3 { assert(q.pieces =~= seq![q.pieces[0], q.pieces[1], q.pieces[2]]); }
    if q.pieces.len() == 4 { assert(q.pieces =~= seq![q.pieces[0], q.pieces[1], q.pieces[2], q.pieces[3]]); }
    if q.binds.len() == 0 { assert(q.binds =~= Seq::<Bind>::empty()); }
    if q.binds.len() == 1 { assert(q.binds =~= seq![q.binds[0]]); }
    if q.binds.len() == 2 { assert(q.binds =~= seq![q.binds[0], q.binds[1]]); }
    if q.binds.len() == 3 { assert(q.binds =~= seq![q.binds[0], q.binds[1], q.binds[2]]); }
    if q.binds.len() == 8 { assert(q.binds =~= seq![q.binds[0], q.binds[1], q.binds[2], q.binds[3], q.binds[4], q.binds[5], q.binds[6], q.binds[7]]); }
}
pub broadcast proof fn m_cols(q: Stmt, v: Seq<Col>)
    requires v.len() > 0, q.pieces == #[trigger] ins_pieces(v), nob(q)
    ensures #[trigger] known(q), means(q, Cmd::InsCols(v))
{ lemma_ext(q); let c = Cmd::InsCols(v); assert(means(q, c)); }
pub broadcast proof fn m_funs(q: Stmt, d: int, names: Seq<Seq<char>>)
    requires one_text(q, fun_text(names.len() as int)), q.binds == #[trigger] fun_binds(d, names)
    ensures #[trigger] known(q), means(q, Cmd::DelFuns(d, names))
{ lemma_ext(q); let c = Cmd::DelFuns(d, names); assert(means(q, c)); }
pub open spec fn one_text(q: Stmt, t: Seq<char>) -> bool { q.pieces.len() == 1 && q.pieces[0] == Piece::T(t) }
pub broadcast proof fn m_vers(q: Stmt, n: Seq<char>, ts: Seq<Seq<char>>)
    requires ts.len() > 0, q.pieces =~= (#[trigger] vers_pieces(n, ts)).push(txt(Sql::CLOSE)), nob(q)
    ensures #[trigger] known(q), means(q, Cmd::ListVers(n, Some(ts)))
{ lemma_ext(q); let c = Cmd::ListVers(n, Some(ts)); assert(vers_pieces(n, ts).push(txt(Sql::CLOSE)) =~= seq![Piece::T(vers_text()), txt(Sql::WHERE_DB), Piece::B(Bind::S(n)), txt(Sql::AND_TABLES)] + binds_of(ts) + seq![txt(Sql::CLOSE)]); assert(means(q, c)); }
pub broadcast group stmts { m_0, m_1, m_2, m_3, m_4, m_5, m_6, m_7, m_8, m_9, m_10, m_11, m_12, m_13, m_14, m_15, m_16, m_17, m_18, m_19a, m_19b, m_20, m_21, m_22, m_23, m_cols, m_funs, m_vers }
pub open spec fn elems<T>(v: Seq<T>) -> ISet<T> { ISet::new(|x: T| v.contains(x)) }
pub open spec fn binds_of(ts: Seq<Seq<char>>) -> Seq<Piece> { Seq::new(ts.len(), |i: int| Piece::B(Bind::S(ts[i]))) }
pub open spec fn ins_pieces(v: Seq<Col>) -> Seq<Piece>
    decreases v.len()
{ if v.len() == 0 { seq![txt(Sql::INS_COLS)] } else { ins_pieces(v.drop_last()).push(Piece::B(Bind::I(v.last().ver))).push(Piece::B(Bind::S(v.last().name))).push(Piece::B(Bind::S(v.last().ty))) } }
pub open spec fn is_read(c: Cmd) -> bool { c is MaxVer || c is GetDb || c is GetColl || c is GetTab || c is ListColls || c is ListFuns || c is ListVers || c is ListDropped }

// one row of an answer (its columns as far as the repository reads them)
pub ghost struct RowS { pub id: Option<int>, pub parent: int, pub name: Seq<char> }
// what a statement that succeeds does: state before, state after, the row fetched
pub open spec fn ran(c: Cmd, a: Db, b: Db, row: RowS) -> bool {
    match c {
        Cmd::InsDb(n) => row.id is Some && !a.dbs.dom().contains(row.id->0) && !a.dbs.values().contains(n) && b == (Db { dbs: a.dbs.insert(row.id->0, n), ..a }),
        Cmd::InsColl(d, n) => row.id is Some && !a.colls.dom().contains(row.id->0) && a.dbs.dom().contains(d) && !a.colls.values().contains(Coll { db: d, name: n }) && b == (Db { colls: a.colls.insert(row.id->0, Coll { db: d, name: n }), ..a }),
        Cmd::InsTab(c, n, u) => row.id is Some && !a.tabs.dom().contains(row.id->0) && a.colls.dom().contains(c) && !has_table(a, c, n) && b == (Db { tabs: a.tabs.insert(row.id->0, Tab { coll: c, name: n, uuid: u }), ..a }),
        Cmd::InsVer(t) => row.id is Some && !a.vers.dom().contains(row.id->0) && b == (Db { vers: a.vers.insert(row.id->0, Ver { table: t, version: 0 }), ..a }),
        Cmd::InsCols(v) => b == (Db { cols: a.cols.union(elems(v)), ..a }),
        Cmd::DelOld(t) => exists|keep: int| old_removed(a, b, t, keep),
        Cmd::MaxVer(u) => b == a && (match row.id { Some(v) => latest(a, u, v), None => forall|v: int| !of_uuid(a, u, v) }),
        Cmd::CopyVer(v, from) => row.id is Some && !a.vers.dom().contains(row.id->0) && a.vers.dom().contains(from) && b == (Db { vers: a.vers.insert(row.id->0, Ver { table: a.vers[from].table, version: v }), ..a }),
        Cmd::CopyCols(from, to) => b == (Db { cols: cols_copied(a.cols, from, to), ..a }),
        Cmd::Rename(t, n) => a.tabs.dom().contains(t) && b == (Db { tabs: a.tabs.insert(t, Tab { name: n, ..a.tabs[t] }), ..a }),
        Cmd::Move(t, n, c) => a.tabs.dom().contains(t) && a.colls.dom().contains(c) && b == (Db { tabs: a.tabs.insert(t, Tab { name: n, coll: c, ..a.tabs[t] }), ..a }),
        Cmd::InsFun(repl, f) => row.id is Some && (has_fun(a, f.db, f.name) ==> repl && a.funs.dom().contains(row.id->0) && a.funs[row.id->0].db == f.db && a.funs[row.id->0].name == f.name) && (!has_fun(a, f.db, f.name) ==> !a.funs.dom().contains(row.id->0))
            && b == (Db { funs: a.funs.insert(row.id->0, f), ..a }),
        Cmd::DelFuns(d, names) => b == (Db { funs: a.funs.remove_keys(named(a, d, names)), ..a }) && (exists|k: int| named(a, d, names).contains(k)),
        Cmd::DelTab(t) => a.tabs.dom().contains(t) && b == without_tabs(a, iset![t]),
        Cmd::DelColl(c) => a.colls.dom().contains(c) && b == without_colls(a, iset![c]),
        Cmd::DelDb(d) => a.dbs.dom().contains(d) && b == without_db(a, d),
        Cmd::UpdDropped(u, s) => b == (Db { dropped: IMap::new(|k: int| a.dropped.dom().contains(k), |k: int| if a.dropped[k].uuid == u { Drp { status: s, ..a.dropped[k] } } else { a.dropped[k] }), ..a }) && (exists|k: int| a.dropped.dom().contains(k) && (#[trigger] a.dropped[k]).uuid == u),
        Cmd::DelDropped(u) => b == (Db { dropped: a.dropped.remove_keys(ISet::new(|k: int| a.dropped.dom().contains(k) && a.dropped[k].uuid == u)), ..a }) && (exists|k: int| a.dropped.dom().contains(k) && (#[trigger] a.dropped[k]).uuid == u),
        Cmd::GetDb(n) => b == a && row.id is Some && a.dbs.dom().contains(row.id->0) && a.dbs[row.id->0] == n && row.name == n,
        Cmd::GetColl(d, n) => b == a && row.id is Some && a.colls.dom().contains(row.id->0) && a.colls[row.id->0] == (Coll { db: row.parent, name: n }) && a.dbs.dom().contains(row.parent) && a.dbs[row.parent] == d && row.name == n,
        Cmd::GetTab(d, c, n) => b == a && row.id is Some && a.tabs.dom().contains(row.id->0) && a.tabs[row.id->0].coll == row.parent && a.tabs[row.id->0].name == n && row.name == n
            && a.colls.dom().contains(row.parent) && a.colls[row.parent].name == c && a.dbs.dom().contains(a.colls[row.parent].db) && a.dbs[a.colls[row.parent].db] == d,
        _ => b == a,
    }
}
pub open spec fn has_table(a: Db, c: int, n: Seq<char>) -> bool { exists|k: int| a.tabs.dom().contains(k) && (#[trigger] a.tabs[k]).coll == c && a.tabs[k].name == n }
pub open spec fn has_fun(a: Db, d: int, n: Seq<char>) -> bool { exists|k: int| a.funs.dom().contains(k) && (#[trigger] a.funs[k]).db == d && a.funs[k].name == n }
pub open spec fn named(a: Db, d: int, names: Seq<Seq<char>>) -> ISet<int> { ISet::new(|k: int| a.funs.dom().contains(k) && a.funs[k].db == d && names.contains(a.funs[k].name)) }
pub open spec fn of_uuid(a: Db, u: Uuid, v: int) -> bool { a.vers.dom().contains(v) && a.tabs.dom().contains(a.vers[v].table) && a.tabs[a.vers[v].table].uuid == u }
pub open spec fn latest(a: Db, u: Uuid, v: int) -> bool { of_uuid(a, u, v) && forall|x: int| of_uuid(a, u, x) ==> x <= v }
pub open spec fn cols_copied(cols: ISet<Col>, from: int, to: int) -> ISet<Col> { cols.union(ISet::new(|c: Col| c.ver == to && cols.contains(Col { ver: from, ..c }))) }
pub open spec fn without_vers(a: Db, vs: ISet<int>) -> Db { Db { vers: a.vers.remove_keys(vs), cols: ISet::new(|c: Col| a.cols.contains(c) && !vs.contains(c.ver)), ..a } }
// every version of table t except `keep`
pub open spec fn old_removed(a: Db, b: Db, t: int, keep: int) -> bool { b == without_vers(a, ISet::new(|v: int| a.vers.dom().contains(v) && a.vers[v].table == t && v != keep)) && ((exists|v: int| a.vers.dom().contains(v) && (#[trigger] a.vers[v]).table == t) ==> a.vers.dom().contains(keep) && a.vers[keep].table == t) }
pub open spec fn without_tabs(a: Db, ts: ISet<int>) -> Db { let x = without_vers(a, ISet::new(|v: int| a.vers.dom().contains(v) && ts.contains(a.vers[v].table))); Db { tabs: a.tabs.remove_keys(ts), ..x } }
pub open spec fn without_colls(a: Db, cs: ISet<int>) -> Db { let x = without_tabs(a, ISet::new(|t: int| a.tabs.dom().contains(t) && cs.contains(a.tabs[t].coll))); Db { colls: a.colls.remove_keys(cs), ..x } }
pub open spec fn without_db(a: Db, d: int) -> Db {
    let x = without_colls(a, ISet::new(|c: int| a.colls.dom().contains(c) && a.colls[c].db == d));
    Db { dbs: a.dbs.remove(d), funs: a.funs.remove_keys(ISet::new(|k: int| a.funs.dom().contains(k) && a.funs[k].db == d)), ..x }
}

// ---- connections and transactions. `own` lists the state changes this call made visible to others, each as (state
// before, state after): one per committed transaction and per writing statement outside of one. Between the calls the
// database can be in any state (other connections), within a transaction it only changes by the transaction.
pub struct World { pub own: Ghost<Seq<(Db, Db)>>, pub tx: Ghost<Option<(Db, Db)>> }
impl World {
    pub open spec fn own(&self) -> Seq<(Db, Db)> { self.own@ }
    pub open spec fn tx(&self) -> Option<(Db, Db)> { self.tx@ }
    pub open spec fn tx_a(&self) -> Db { (self.tx@->Some_0).0 }
    pub open spec fn tx_b(&self) -> Db { (self.tx@->Some_0).1 }
}
// nothing happened, or one change
pub open spec fn one_step(a: World, b: World) -> bool { b.own() == a.own() || (b.own().len() == a.own().len() + 1 && b.own().drop_last() == a.own()) }
pub open spec fn stepped(a: World, b: World) -> bool { b.own().len() == a.own().len() + 1 && b.own().drop_last() == a.own() }
pub open spec fn before(w: World) -> Db { w.own().last().0 }
pub open spec fn after(w: World) -> Db { w.own().last().1 }
pub struct Pool { p: u8 }
impl Copy for Pool {}
impl Clone for Pool { #[verifier::external_body] fn clone(&self) -> (r: Pool) { unimplemented!() } }
pub struct Tx { p: u8 }
pub trait Exec { spec fn in_tx(&self) -> bool; }
impl Exec for &Pool { open spec fn in_tx(&self) -> bool { false } }
impl Exec for &mut Tx { open spec fn in_tx(&self) -> bool { true } }
pub enum DbErr { D { msg: Ghost<Seq<char>>, code: Ghost<Option<Seq<char>>> } }
pub enum SqlxError { Database(DbErr), RowNotFound, Other(Opaque) }
pub struct JsonError { p: u8 }
pub enum Error { UniqueConstraintViolation(SqlxError), FKConstraintViolation(SqlxError), SqlxError(SqlxError), SerdeJsonError(JsonError) }
pub type Result<T, E = Error> = core::result::Result<T, E>;
#[verifier::external_body] pub fn rx_from_err(e: JsonError) -> (r: Error) ensures r == Error::SerdeJsonError(e) { unimplemented!() }
#[verifier::external_body]
pub fn w_begin(w: &mut World, p: Pool) -> (r: Result<Tx, SqlxError>)
    requires old(w).tx() is None,
    ensures final(w).own() == old(w).own(), r is Ok ==> (final(w).tx() is Some && final(w).tx_a() == final(w).tx_b()), r is Err ==> final(w).tx() is None,
{ unimplemented!() }
// a commit that fails may or may not have reached the database
#[verifier::external_body]
pub fn w_commit(w: &mut World, t: Tx) -> (r: Result<(), SqlxError>)
    requires old(w).tx() is Some,
    ensures final(w).tx() is None, final(w).own() != old(w).own() ==> final(w).own().drop_last() == old(w).own(),
        r is Ok ==> final(w).own().drop_last() == old(w).own() && final(w).own() == old(w).own().push(old(w).tx()->0),
        r is Err ==> (final(w).own() == old(w).own() || final(w).own() == old(w).own().push(old(w).tx()->0)),
{ unimplemented!() }
pub open spec fn known(q: Stmt) -> bool { exists|c: Cmd| means(q, c) }
pub open spec fn may(w: World, e: bool) -> bool { if e { w.tx() is Some } else { w.tx() is None } }
// a statement whose text and binds mean c, run on a connection: `row` is what it returned
pub open spec fn effect(q: Stmt, in_tx: bool, a: World, b: World, ok: bool, row: RowS) -> bool {
    forall|c: Cmd| #[trigger] means(q, c) ==> {
        &&& in_tx ==> b.own() == a.own() && b.tx() is Some && b.tx_a() == a.tx_a() && (ok ==> ran(c, a.tx_b(), b.tx_b(), row))
        &&& !in_tx ==> b.tx() is None && (b.own() == a.own() || (!is_read(c) && stepped(a, b) && ran(c, before(b), after(b), row))) && (ok && !is_read(c) ==> stepped(a, b))
        &&& !in_tx && ok && is_read(c) ==> exists|d: Db| #[trigger] ran(c, d, d, row)
    }
}
pub struct Query { pub s: Ghost<Stmt> }
#[verifier::reject_recursive_types(T)]
pub struct QueryAs<T> { pub s: Ghost<Stmt>, pub t: core::marker::PhantomData<T> }
pub struct Row { pub r: Ghost<RowS> }
pub trait Qry: Sized { type Out: Answer; spec fn stmt(&self) -> Stmt; }
pub trait Answer: Sized { spec fn is(&self, r: RowS) -> bool; }
impl Answer for Row { open spec fn is(&self, r: RowS) -> bool { self.r@ == r } }
impl Qry for Query { type Out = Row; open spec fn stmt(&self) -> Stmt { self.s@ } }
impl<T: Answer> Qry for QueryAs<T> { type Out = T; open spec fn stmt(&self) -> Stmt { self.s@ } }
impl Query { #[verifier::external_body] pub fn bind<B: RxBind>(self, b: B) -> (r: Query) ensures r.s@ == (Stmt { binds: self.s@.binds.push(b.b()), ..self.s@ }) { unimplemented!() } }
impl<T> QueryAs<T> { #[verifier::external_body] pub fn bind<B: RxBind>(self, b: B) -> (r: QueryAs<T>) ensures r.s@ == (Stmt { binds: self.s@.binds.push(b.b()), ..self.s@ }) { unimplemented!() } }
#[verifier::external_body] pub fn sql_query<S: RxDisp>(s: S) -> (r: Query) ensures r.s@ == (Stmt { pieces: seq![Piece::T(s.disp())], binds: Seq::empty() }) { unimplemented!() }
#[verifier::external_body] pub fn sql_query_as<S: RxDisp, T>(s: S) -> (r: QueryAs<T>) ensures r.s@ == (Stmt { pieces: seq![Piece::T(s.disp())], binds: Seq::empty() }) { unimplemented!() }
#[verifier::external_body]
pub fn w_fetch_one<Q: Qry, E: Exec>(w: &mut World, q: Q, e: E) -> (r: Result<Q::Out, SqlxError>)
    requires known(q.stmt()), may(*old(w), e.in_tx()),
    ensures known(q.stmt()), exists|row: RowS| #[trigger] effect(q.stmt(), e.in_tx(), *old(w), *final(w), r is Ok, row) && (r is Ok ==> r->Ok_0.is(row)),
{ unimplemented!() }
pub struct Done { pub n: u64 }
impl Done { pub fn rows_affected(&self) -> u64 { self.n } }
#[verifier::external_body]
pub fn w_execute<Q: Qry, E: Exec>(w: &mut World, q: Q, e: E) -> (r: Result<Done, SqlxError>)
    requires known(q.stmt()), may(*old(w), e.in_tx()),
    ensures known(q.stmt()), exists|row: RowS| #[trigger] effect(q.stmt(), e.in_tx(), *old(w), *final(w), r is Ok, row),
{ unimplemented!() }
// all rows of a listing, decoded column by column
pub uninterp spec fn listing<T>(c: Cmd, d: Db) -> Seq<T>;
pub open spec fn listed<T>(q: Stmt, v: Seq<T>) -> bool { forall|c: Cmd| #[trigger] means(q, c) ==> exists|d: Db| v == listing::<T>(c, d) }
#[verifier::external_body]
pub fn w_fetch_all<T, E: Exec>(w: &mut World, q: QueryAs<T>, e: E) -> (r: Result<Vec<T>, SqlxError>)
    requires known(q.s@), may(*old(w), e.in_tx()),
    ensures known(q.s@), final(w).own() == old(w).own(), r is Ok ==> listed(q.s@, r->Ok_0@),
{ unimplemented!() }
impl Row {
    // NULL does not decode
    #[verifier::external_body] pub fn try_get<S: RxDisp>(self, c: S) -> (r: Result<i64, SqlxError>) ensures r is Ok && c.disp() == "id"@ ==> self.r@.id == Some(r->Ok_0 as int) { unimplemented!() }
}
impl RxDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }

// ---- the incremental builder
pub struct Builder { pub p: Ghost<Seq<Piece>> }
pub struct SepRow { pub p: Ghost<Seq<Piece>> }
impl Builder {
    #[verifier::external_body] pub fn new<S: RxDisp>(s: S) -> (r: Builder) ensures r.p@ == seq![Piece::T(s.disp())] { unimplemented!() }
    #[verifier::external_body] pub fn push<S: RxDisp>(&mut self, s: S) ensures final(self).p@ == old(self).p@.push(Piece::T(s.disp())) { unimplemented!() }
    #[verifier::external_body] pub fn push_bind<B: RxBind>(&mut self, b: B) ensures final(self).p@ == old(self).p@.push(Piece::B(b.b())) { unimplemented!() }
    #[verifier::external_body] pub fn push_unseparated<S: RxDisp>(&mut self, s: S) ensures final(self).p@ == old(self).p@.push(Piece::T(s.disp())) { unimplemented!() }
    #[verifier::external_body] pub fn build(&mut self) -> (r: Query) ensures r.s@ == (Stmt { pieces: old(self).p@, binds: Seq::empty() }) { unimplemented!() }
    #[verifier::external_body] pub fn build_query_as<T>(&mut self) -> (r: QueryAs<T>) ensures r.s@ == (Stmt { pieces: old(self).p@, binds: Seq::empty() }) { unimplemented!() }
}
impl SepRow { #[verifier::external_body] pub fn push_bind<B: RxBind>(&mut self, b: B) ensures final(self).p@ == old(self).p@.push(Piece::B(b.b())) { unimplemented!() } }
#[verifier::external_body] pub fn row_begin(b: &mut Builder) -> (r: SepRow) ensures r.p@ == old(b).p@ { unimplemented!() }
#[verifier::external_body] pub fn row_end(b: &mut Builder, r: SepRow) ensures final(b).p@ == r.p@ { unimplemented!() }
// .separated(", "): the binds pushed through it are separated by the separator
#[verifier::external_body] pub fn mut_separated<'a, S: RxDisp>(b: &'a mut Builder, s: S) -> (r: &'a mut Builder)
    ensures s.disp() == sqltext(Sql::COMMA) ==> (*r).p@ == (*old(b)).p@, *final(b) == *final(r) { unimplemented!() }
pub struct RepositoryQueries { pub latest_table_versions: String, pub cast_timestamp: String }
pub uninterp spec fn is_cast(s: Seq<char>) -> bool;
#[verifier::external_body] pub fn rx_replace_str(s: &String, a: &str, b: &str) -> (r: String) ensures is_cast(s@) && a@ == "timestamp_column"@ ==> r@ == cast_of(b@) { unimplemented!() }
#[verifier::external_body] pub fn rx_join_by<S: RxDisp>(v: &Vec<String>, sep: S) -> (r: String) ensures r@ == join_spec(views(v@), sep.disp()) { unimplemented!() }
pub trait RxClone: Sized { fn rx_clone_(&self) -> (r: Self) ensures r == *self; }
impl RxClone for String { #[verifier::external_body] fn rx_clone_(&self) -> (r: String) { unimplemented!() } }
pub fn rx_clone<T: RxClone>(x: &T) -> (r: T) ensures r == *x { x.rx_clone_() }
impl RxDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
