// ---- what the sync writer works with: stand-ins with their (trusted) contracts
global size_of usize == 8;
pub type Seqc = Seq<char>;
pub type Origin = String;
pub type SequenceNumber = u64;
pub enum SyncError { SchemaError { reason: String }, InvalidMessage { reason: String }, NotImplemented, Other(LibError) }
pub type SyncResult<T, E = SyncError> = core::result::Result<T, E>;
#[verifier::external_body] pub struct LibError { p: u8 }
#[verifier::external_body] pub fn sync_err<E>(e: E) -> SyncError { unimplemented!() }
#[verifier::external_body] pub fn rx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub trait RxCl { type Out; spec fn cl(&self) -> Self::Out; }
impl RxCl for String { type Out = String; open spec fn cl(&self) -> String { *self } }
impl<T> RxCl for Vec<T> { type Out = Vec<T>; open spec fn cl(&self) -> Vec<T> { *self } }
impl RxCl for u64 { type Out = u64; open spec fn cl(&self) -> u64 { *self } }
impl<T: RxCl> RxCl for Option<T> { type Out = Option<T>; open spec fn cl(&self) -> Option<T> { *self } }
impl<T: RxCl> RxCl for &T { type Out = T::Out; open spec fn cl(&self) -> T::Out { (**self).cl() } }
#[verifier::external_body] pub fn rx_own<T: RxCl>(x: &T) -> (r: T::Out) ensures r == x.cl() { unimplemented!() }
pub uninterp spec fn num_text(n: u64) -> Seqc;
impl RxDisp for u64 { open spec fn disp(&self) -> Seqc { num_text(*self) } }
// == of the standard types
pub trait RxKey { type K; spec fn key(&self) -> Self::K; }
impl RxKey for String { type K = Seqc; open spec fn key(&self) -> Seqc { self@ } }
impl RxKey for usize { type K = int; open spec fn key(&self) -> int { *self as int } }
impl<T: RxKey> RxKey for &T { type K = T::K; open spec fn key(&self) -> T::K { (**self).key() } }
#[verifier::external_body] pub fn rx_eq<A: RxKey>(a: &A, b: &A) -> (r: bool) ensures r == (a.key() == b.key()) { unimplemented!() }
#[verifier::external_body] pub fn rx_starts_with<S: RxDisp + ?Sized>(s: &S, p: &str) -> (r: bool) { unimplemented!() }
pub trait RxNew: Sized { spec fn fresh(r: Self) -> bool; fn rx_new() -> (r: Self) ensures Self::fresh(r); }
impl RxNew for usize { open spec fn fresh(r: usize) -> bool { r == 0 } fn rx_new() -> (r: usize) { 0 } }
#[verifier::external_body] pub fn rx_opt_cloned<T>(x: &Option<&T>) -> (r: Option<T>) ensures r == (match *x { Some(v) => Some(*v), None => None }) { unimplemented!() }
#[verifier::external_body] pub fn rx_ge(a: &usize, b: &usize) -> (r: bool) ensures r == (*a >= *b) { unimplemented!() }
#[verifier::external_body] pub fn own_or_false(x: Option<bool>) -> (r: bool) ensures r == (match x { Some(b) => b, None => false }) { unimplemented!() }
// positions of a vector, mutably
#[verifier::external_body] pub fn rx_at<T>(v: &Vec<T>, i: usize) -> (r: &T) requires i < v@.len() ensures *r == v@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn rx_at_mut<'a, T>(v: &'a mut Vec<T>, i: usize) -> (r: &'a mut T) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
#[verifier::external_body] pub fn mut_extend<T>(v: &mut Vec<T>, b: Vec<T>) ensures final(v)@ == old(v)@ + b@ { unimplemented!() }
pub trait VecEnds<T> { spec fn el(&self) -> Seq<T>;
    fn last_mut(&mut self) -> (r: Option<&mut T>) ensures r is Some <==> old(self).el().len() > 0, r is None ==> final(self).el() == old(self).el(), r matches Some(v) ==> *v == old(self).el().last() && final(self).el() == old(self).el().update(old(self).el().len() - 1, *final(v));
    fn first(&self) -> (r: Option<&T>) ensures r is Some <==> self.el().len() > 0, r matches Some(v) ==> *v == self.el()[0];
    fn last(&self) -> (r: Option<&T>) ensures r is Some <==> self.el().len() > 0, r matches Some(v) ==> *v == self.el().last();
}
impl<T> VecEnds<T> for Vec<T> { open spec fn el(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn last_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() }
    #[verifier::external_body] fn first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn last(&self) -> (r: Option<&T>) { unimplemented!() }
}
#[verifier::external_body] pub fn rx_last<T>(v: &[T]) -> (r: Option<&T>) ensures r is Some <==> v@.len() > 0, r matches Some(x) ==> *x == v@.last() { unimplemented!() }
// iteration backwards, and in step
pub struct RxRev<C> { pub c: C }
impl<C: RxItems> RxItems for RxRev<C> { type Item = C::Item; open spec fn items(&self) -> Seq<C::Item> { self.c.items().reverse() } }
pub struct RxZip<A, B> { pub a: A, pub b: B }
impl<A: RxItems, B: RxItems> RxItems for RxZip<A, B> { type Item = (A::Item, B::Item);
    open spec fn items(&self) -> Seq<(A::Item, B::Item)> { Seq::new((if self.a.items().len() < self.b.items().len() { self.a.items().len() } else { self.b.items().len() }), |i: int| (self.a.items()[i], self.b.items()[i])) } }
// ids
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Uuid { p: u8 }
impl View for Uuid { type V = Uuid; open spec fn view(&self) -> Uuid { *self } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct RxSeen<T> { p: Vec<T> }
impl<T> View for RxSeen<T> { type V = ISet<T>; uninterp spec fn view(&self) -> ISet<T>; }
#[verifier::external_body] pub fn rx_seen<T>() -> (r: RxSeen<T>) ensures r@ == ISet::<T>::empty() { unimplemented!() }
impl<T> RxSeen<T> { #[verifier::external_body] pub fn rx_first(&mut self, x: &T) -> (r: bool) ensures r == !old(self)@.contains(*x), final(self)@ == old(self)@.insert(*x) { unimplemented!() } }
// sets and maps
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct RxSet<T> { p: Vec<T> }
impl<T: View> View for RxSet<T> { type V = ISet<T::V>; uninterp spec fn view(&self) -> ISet<T::V>; }
impl<T: View> RxSet<T> {
    #[verifier::external_body] pub fn new() -> (r: RxSet<T>) ensures r@ == ISet::<T::V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from(x: [T; 1]) -> (r: RxSet<T>) ensures r@ == ISet::<T::V>::empty().insert(x@[0]@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x@) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(x@) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(x@) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r <==> (forall|k: T::V| !(#[trigger] self@.contains(k))) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct RxMap<K, V> { p: Vec<(K, V)> }
impl<K: View, V> View for RxMap<K, V> { type V = IMap<K::V, V>; uninterp spec fn view(&self) -> IMap<K::V, V>; }
impl<K: View, V> RxMap<K, V> {
    #[verifier::external_body] pub fn from(x: [(K, V); 1]) -> (r: RxMap<K, V>) ensures r@ == IMap::<K::V, V>::empty().insert(x@[0].0@, x@[0].1) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn get<Q: RxDisp + ?Sized>(&self, k: &Q) -> (r: Option<&V>) where K: View<V = Seqc> ensures r is Some <==> self@.dom().contains(k.disp()), r matches Some(v) ==> *v == self@[k.disp()] { unimplemented!() }
}
impl<K: View, V> RxNew for RxMap<K, V> { open spec fn fresh(r: Self) -> bool { r@ == IMap::<K::V, V>::empty() } #[verifier::external_body] fn rx_new() -> (r: Self) { unimplemented!() } }
#[verifier::external_body] #[derive(Debug)] pub struct SyncWriterMetrics { p: u8 }
impl RxNew for SyncWriterMetrics { open spec fn fresh(r: Self) -> bool { true } #[verifier::external_body] fn rx_new() -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct Instant { p: u8 }
#[verifier::external_body] pub struct Span { p: u8 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } #[verifier::external_body] pub fn elapsed(&self) -> Span { unimplemented!() } }
impl Span { #[verifier::external_body] pub fn as_millis(&self) -> u128 { unimplemented!() } }
// record batches and what a batch read under a schema does to a table
#[verifier::external_body] pub struct RecordBatch { p: u8 }
pub uninterp spec fn bytes_of(b: RecordBatch) -> int;
pub uninterp spec fn rows_of(b: RecordBatch) -> int;
pub open spec fn MEM() -> int { 0x1000_0000_0000_0000 }
impl RecordBatch {
    #[verifier::external_body] pub fn get_array_memory_size(&self) -> (r: usize) ensures r == bytes_of(*self), r <= MEM() { unimplemented!() }
    #[verifier::external_body] pub fn num_rows(&self) -> (r: usize) ensures r == rows_of(*self), r <= MEM() { unimplemented!() }
}
#[verifier::external_body] pub struct Eff { p: u8 }
pub uninterp spec fn nil() -> Eff;
pub uninterp spec fn then(a: Eff, b: Eff) -> Eff;
#[verifier::external_body] pub broadcast proof fn ax_nil_l(a: Eff) ensures #[trigger] then(nil(), a) == a {}
#[verifier::external_body] pub broadcast proof fn ax_nil_r(a: Eff) ensures #[trigger] then(a, nil()) == a {}
#[verifier::external_body] pub proof fn ax_assoc(a: Eff, b: Eff, c: Eff) ensures then(then(a, b), c) == then(a, then(b, c)) {}
// the shape of a sync schema: role, name and type of each column
pub ghost struct Col { pub role: ColumnRole, pub name: Seqc, pub ty: DataType }
// the rows of a batch one after the other
pub uninterp spec fn beff(sh: Seq<Col>, b: RecordBatch) -> Eff;
// the rows of a squashed batch, at once
pub uninterp spec fn seff(sh: Seq<Col>, b: RecordBatch) -> Eff;
pub open spec fn eff(sh: Seq<Col>, d: Seq<RecordBatch>) -> Eff decreases d.len() { if d.len() == 0 { nil() } else { then(eff(sh, d.drop_last()), beff(sh, d.last())) } }
pub proof fn lemma_eff_cat(sh: Seq<Col>, a: Seq<RecordBatch>, b: Seq<RecordBatch>) ensures eff(sh, a + b) == then(eff(sh, a), eff(sh, b)) decreases b.len() {
    broadcast use ax_nil_r;
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_eff_cat(sh, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); ax_assoc(eff(sh, a), eff(sh, b.drop_last()), beff(sh, b.last())); }
}
pub open spec fn bsum(d: Seq<RecordBatch>) -> int decreases d.len() { if d.len() == 0 { 0 } else { bsum(d.drop_last()) + bytes_of(d.last()) } }
pub open spec fn rsum(d: Seq<RecordBatch>) -> int decreases d.len() { if d.len() == 0 { 0 } else { rsum(d.drop_last()) + rows_of(d.last()) } }
#[verifier::external_body] pub broadcast proof fn ax_batch(b: RecordBatch) ensures 0 <= #[trigger] bytes_of(b) <= MEM() {}
#[verifier::external_body] pub broadcast proof fn ax_batchr(b: RecordBatch) ensures 0 <= #[trigger] rows_of(b) <= MEM() {}
pub proof fn lemma_sum_cat(a: Seq<RecordBatch>, b: Seq<RecordBatch>) ensures bsum(a + b) == bsum(a) + bsum(b), rsum(a + b) == rsum(a) + rsum(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_sum_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn lemma_sum_mono(a: Seq<RecordBatch>, i: int) requires 0 <= i <= a.len() ensures 0 <= bsum(a.take(i)) <= bsum(a), 0 <= rsum(a.take(i)) <= rsum(a) decreases a.len() {
    broadcast use ax_batch, ax_batchr;
    if i == a.len() { assert(a.take(i) =~= a); if a.len() > 0 { lemma_sum_mono(a.drop_last(), i - 1); assert(a.drop_last().take(i - 1) =~= a.drop_last()); } }
    else { lemma_sum_mono(a.drop_last(), i); assert(a.drop_last().take(i) =~= a.take(i)); }
}
