// ---- texts compared for equality, hashes, dependencies of the HTTP frontend (assumed contracts)
#[verifier::external_body]
pub struct Opaque { p: u8 }
pub ghost enum Key { S(Seq<char>), I(int), A(Seq<char>) }
pub trait RxKey { spec fn key(&self) -> Key; }
impl RxKey for str { open spec fn key(&self) -> Key { Key::S(self@) } }
impl RxKey for String { open spec fn key(&self) -> Key { Key::S(self@) } }
impl RxKey for usize { open spec fn key(&self) -> Key { Key::I(*self as int) } }
impl RxKey for i32 { open spec fn key(&self) -> Key { Key::I(*self as int) } }
impl<T: RxKey + ?Sized> RxKey for &T { open spec fn key(&self) -> Key { (**self).key() } }
#[verifier::external_body] pub fn rx_eq<A: RxKey + ?Sized, B: RxKey + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.key() == b.key()) { unimplemented!() }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn sha256(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn hex_lower(b: Seq<u8>) -> Seq<char>;
pub open spec fn hash(s: Seq<char>) -> Seq<char> { hex_lower(sha256(utf8(s))) }
pub struct Sha256 { pub fed: Ghost<Seq<u8>> }
pub struct Digest { pub bytes: Ghost<Seq<u8>> }
impl Sha256 {
    #[verifier::external_body] pub fn new() -> (r: Sha256) ensures r.fed@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, s: &str) ensures final(self).fed@ == old(self).fed@ + utf8(s@) { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: Digest) ensures r.bytes@ == sha256(self.fed@) { unimplemented!() }
}
#[verifier::external_body] pub fn encode(d: Digest) -> (r: String) ensures r@ == hex_lower(d.bytes@) { unimplemented!() }
#[verifier::external_body] pub fn rx_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures p@.is_prefix_of(s@) ==> r is Some && r->0@ == s@.skip(p@.len() as int), !p@.is_prefix_of(s@) ==> r is None { unimplemented!() }
#[verifier::external_body] pub fn own_transpose<T, E>(x: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures x is None ==> r == Ok::<Option<T>, E>(None), (x is Some && x->0 is Ok) ==> r == Ok::<Option<T>, E>(Some(x->0->Ok_0)), (x is Some && x->0 is Err) ==> r == Err::<Option<T>, E>(x->0->Err_0) { unimplemented!() }
pub struct DataFusionError { pub p: Opaque }
pub struct IoError { pub p: Opaque }
pub struct Utf8Error { pub p: Opaque }
pub struct WarpError { pub p: Opaque }
impl RxDisp for Opaque { uninterp spec fn disp(&self) -> Seq<char>; }
impl RxDisp for DataFusionError { uninterp spec fn disp(&self) -> Seq<char>; }
impl RxDisp for IoError { uninterp spec fn disp(&self) -> Seq<char>; }
impl RxDisp for WarpError { uninterp spec fn disp(&self) -> Seq<char>; }
//@extract src/frontend/http_utils.rs | enum ApiError | payload=String,DataFusionError,IoError,WarpError
//@types
std::io::Error => IoError
warp::Error => WarpError
//@end
pub struct Rejection { pub e: ApiError }
#[verifier::external_body] pub fn rx_reject(e: ApiError) -> (r: Rejection) ensures r.e == e { unimplemented!() }
pub fn rx_err<T>(e: Rejection) -> (r: Result<T, Rejection>) ensures r == Err::<T, Rejection>(e) { Err(e) }
pub fn rx_ok<T>(x: T) -> (r: Result<T, Rejection>) ensures r == Ok::<T, Rejection>(x) { Ok(x) }
pub fn rx_ready<T>(x: T) -> (r: T) ensures r == x { x }
//@extract src/config/schema.rs | fn str_to_hex_hash
//@contract
    ensures r@ == hash(input@),
//@entry
    proof { assert(Seq::<u8>::empty() + utf8(input@) =~= utf8(input@)); }
//@end
//@extract src/config/schema.rs | enum AccessSettings
//@end
//@extract src/config/schema.rs | struct HttpFrontend
//@end
//@extract src/auth.rs | enum Principal
//@end
//@extract src/auth.rs | enum Resource
//@end
//@extract src/auth.rs | enum Action
//@end
//@extract src/auth.rs | struct AccessPolicy
//@end
//@extract src/auth.rs | struct UserContext
//@end
impl Clone for AccessSettings { #[verifier::external_body] fn clone(&self) -> (r: AccessSettings) ensures r == *self { unimplemented!() } }
impl Clone for AccessPolicy { #[verifier::external_body] fn clone(&self) -> (r: AccessPolicy) ensures r == *self { unimplemented!() } }

// ---- the property: what a holder of a token may do under a policy
pub open spec fn opens(s: AccessSettings, tok: Option<Seq<char>>) -> bool { match s { AccessSettings::Any => true, AccessSettings::Off => false, AccessSettings::Password { sha256_hash } => tok is Some && hash(tok->0) == sha256_hash@ } }
pub open spec fn may(p: AccessPolicy, tok: Option<Seq<char>>, a: Action) -> bool {
    match a { Action::Write => opens(p.write, tok), Action::Read => opens(p.read, tok) || (p.write is Password && opens(p.write, tok)) }
}
pub open spec fn can(who: Principal, a: Action, p: AccessPolicy) -> bool {
    match a { Action::Write => who is Writer || p.write is Any, Action::Read => who is Writer || who is Reader || p.read is Any }
}
pub open spec fn secret(s: AccessSettings, tok: Seq<char>) -> bool { s is Password && opens(s, Some(tok)) }
pub open spec fn optv(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn admitted(p: AccessPolicy, tok: Option<Seq<char>>) -> bool {
    match tok { None => p.read is Any || p.write is Any, Some(t) => secret(p.write, t) || secret(p.read, t) }
}
//@extract src/frontend/http.rs | const BEARER_PREFIX
//@end
pub open spec fn token_in(h: Option<String>) -> Option<Seq<char>> { match h { None => None, Some(h) => Some(h@.skip(BEARER_PREFIX_spec().len() as int)) } }
pub open spec fn well_formed(h: Option<String>) -> bool { h is Some ==> "Bearer "@.is_prefix_of(h->0@) }
