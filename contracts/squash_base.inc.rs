// ---- arrow and the standard collections: stand-ins with their (trusted) contracts
pub type Seqc = Seq<char>;
pub enum SyncError { SchemaError { reason: String }, InvalidMessage { reason: String }, NotImplemented, Other(LibError) }
pub type SyncResult<T, E = SyncError> = core::result::Result<T, E>;
#[verifier::external_body] #[derive(Debug)] pub struct LibError { p: u8 }
#[verifier::external_body] pub fn rx_from_err<E, F>(e: E) -> F { unimplemented!() }
#[verifier::external_body] pub fn rx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub trait RxCl { type Out; spec fn cl(&self) -> Self::Out; }
impl<T> RxCl for Vec<T> { type Out = Vec<T>; open spec fn cl(&self) -> Vec<T> { *self } }
impl<T: RxCl> RxCl for &T { type Out = T::Out; open spec fn cl(&self) -> T::Out { (**self).cl() } }
impl RxCl for FieldRef { type Out = FieldRef; open spec fn cl(&self) -> FieldRef { *self } }
impl RxCl for String { type Out = String; open spec fn cl(&self) -> String { *self } }
impl RxCl for DataType { type Out = DataType; open spec fn cl(&self) -> DataType { *self } }
impl RxCl for ArrayRef { type Out = ArrayRef; open spec fn cl(&self) -> ArrayRef { *self } }
impl RxCl for Schema { type Out = Schema; open spec fn cl(&self) -> Schema { *self } }
#[verifier::external_body] pub fn rx_own<T: RxCl>(x: &T) -> (r: T::Out) ensures r == x.cl() { unimplemented!() }
pub fn rx_arc<T>(x: T) -> (r: T) ensures r == x { x }
pub trait RxKey { type K; spec fn key(&self) -> Self::K; }
impl RxKey for String { type K = Seqc; open spec fn key(&self) -> Seqc { self@ } }
impl RxKey for u64 { type K = int; open spec fn key(&self) -> int { *self as int } }
impl RxKey for bool { type K = bool; open spec fn key(&self) -> bool { *self } }
impl RxKey for i32 { type K = int; open spec fn key(&self) -> int { *self as int } }
impl RxKey for str { type K = Seqc; open spec fn key(&self) -> Seqc { self@ } }
impl<T: RxKey + ?Sized> RxKey for &T { type K = T::K; open spec fn key(&self) -> T::K { (**self).key() } }
#[verifier::external_body] pub fn rx_eq<A: RxKey>(a: &A, b: &A) -> (r: bool) ensures r == (a.key() == b.key()) { unimplemented!() }
#[verifier::external_body] pub fn rx_at<T>(v: &Vec<T>, i: usize) -> (r: &T) requires i < v@.len() ensures *r == v@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn rx_at_mut<'a, T>(v: &'a mut Vec<T>, i: usize) -> (r: &'a mut T) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
#[verifier::external_body] pub fn rx_vec_repeat<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
pub fn rx_first<T>(v: &Vec<T>) -> (r: Option<&T>) ensures r is Some <==> v@.len() > 0, r matches Some(x) ==> *x == v@[0] { if v.len() == 0 { None } else { Some(&v[0]) } }
pub struct RxZip<A, B> { pub a: A, pub b: B }
impl<A: RxItems, B: RxItems> RxItems for RxZip<A, B> { type Item = (A::Item, B::Item);
    open spec fn items(&self) -> Seq<(A::Item, B::Item)> { Seq::new((if self.a.items().len() < self.b.items().len() { self.a.items().len() } else { self.b.items().len() }), |i: int| (self.a.items()[i], self.b.items()[i])) } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { p: Vec<T> }
impl<T: View> View for HashSet<T> { type V = ISet<T::V>; uninterp spec fn view(&self) -> ISet<T::V>; }
impl<T: View> HashSet<T> {
    #[verifier::external_body] pub fn new() -> (r: HashSet<T>) ensures r@ == ISet::<T::V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x@), r == !old(self)@.contains(x@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures self@ == ISet::<T::V>::empty() <==> r == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == ISet::<T::V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(x@) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { p: Vec<(K, V)> }
impl<K: View, V> View for HashMap<K, V> { type V = IMap<K::V, V>; uninterp spec fn view(&self) -> IMap<K::V, V>; }
impl<K: View, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: HashMap<K, V>) ensures r@ == IMap::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@), r is Some <==> old(self)@.dom().contains(k@), r matches Some(v) ==> v == old(self)@[k@] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>) ensures r is Some <==> self@.dom().contains(k@), r matches Some(v) ==> *v == self@[k@] { unimplemented!() }
}
// the place of a key in a map, filled when there was none
#[verifier::external_body] pub fn rx_entry<'a, K: View, V>(m: &'a mut HashMap<K, V>, k: K, v: V) -> (r: &'a mut V)
    ensures *r == (if old(m)@.dom().contains(k@) { old(m)@[k@] } else { v }), final(m)@ == old(m)@.insert(k@, *final(r)) { unimplemented!() }
impl<T: View> RxKey for HashSet<T> { type K = ISet<T::V>; open spec fn key(&self) -> ISet<T::V> { self@ } }
// types, fields, schemas
#[verifier::external_body] pub struct OtherType { p: u8 }
pub enum DataType { Boolean, Other(OtherType) }
impl View for DataType { type V = DataType; open spec fn view(&self) -> DataType { *self } }
impl RxDisp for DataType { uninterp spec fn disp(&self) -> Seqc; }
impl RxKey for usize { type K = int; open spec fn key(&self) -> int { *self as int } }
impl RxKey for DataType { type K = DataType; open spec fn key(&self) -> DataType { *self } }
#[verifier::external_body] pub struct FieldRef { p: u8 }
pub type Field = FieldRef;
impl FieldRef {
    pub uninterp spec fn fname(&self) -> Seqc;
    pub uninterp spec fn ftype(&self) -> DataType;
    #[verifier::external_body] pub fn new(n: &str, t: DataType, nullable: bool) -> (r: FieldRef) ensures r.fname() == n@, r.ftype() == t { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.fname() { unimplemented!() }
    #[verifier::external_body] pub fn data_type(&self) -> (r: &DataType) ensures *r == self.ftype() { unimplemented!() }
    #[verifier::external_body] pub fn is_nullable(&self) -> bool { unimplemented!() }
}
pub type Fields = Vec<FieldRef>;
pub struct Schema { pub f: Fields }
pub open spec fn named(f: Seq<FieldRef>, n: Seqc) -> bool { exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).fname() == n }
impl Schema {
    pub fn new(f: Fields) -> (r: Schema) ensures r.f == f { Schema { f } }
    // the fields with those nested in them
    pub uninterp spec fn flat(&self) -> nat;
    #[verifier::external_body] pub fn flattened_fields(&self) -> (r: Vec<&FieldRef>) ensures r@.len() == self.flat(), r@.len() >= self.f@.len(), self.flat() == self.f@.len() ==> forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.f@[i] { unimplemented!() }
    pub fn fields(&self) -> (r: &Fields) ensures *r == self.f { &self.f }
    #[verifier::external_body] pub fn index_of(&self, n: &str) -> (r: core::result::Result<usize, LibError>)
        ensures r is Ok <==> named(self.f@, n@), r matches Ok(i) ==> i < self.f@.len() && self.f@[i as int].fname() == n@ && (forall|j: int| 0 <= j < i ==> (#[trigger] self.f@[j]).fname() != n@) { unimplemented!() }
}
// arrays and batches
#[verifier::external_body] pub struct ArrayRef { p: u8 }
impl View for ArrayRef { type V = Seq<Val>; uninterp spec fn view(&self) -> Seq<Val>; }
impl ArrayRef { #[verifier::external_body] pub fn data_type(&self) -> (r: &DataType) { unimplemented!() } }
#[verifier::external_body] pub fn new_null_array(t: &DataType, n: usize) -> (r: ArrayRef) ensures r@ == nullkey(n as nat) { unimplemented!() }
#[verifier::external_body] pub struct BooleanArray { p: u8 }
impl View for BooleanArray { type V = Seq<Val>; uninterp spec fn view(&self) -> Seq<Val>; }
impl BooleanArray { #[verifier::external_body] pub fn value(&self, i: usize) -> (r: bool) requires i < self@.len(), self@[i as int] is Bool ensures r == (self@[i as int] == Val::Bool(true)) { unimplemented!() } }
pub open spec fn bools(c: Seq<Val>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]) is Bool }
#[verifier::external_body] pub fn rx_downcast<'a, T: View<V = Seq<Val>>>(a: &&'a ArrayRef) -> (r: Option<&'a T>) ensures bools((**a)@) ==> r is Some, r matches Some(x) ==> x@ == (**a)@ { unimplemented!() }
#[verifier::external_body] pub struct UInt64Array { p: u8 }
impl View for UInt64Array { type V = Seq<u64>; uninterp spec fn view(&self) -> Seq<u64>; }
impl UInt64Array { #[verifier::external_body] pub fn from(v: Vec<u64>) -> (r: UInt64Array) ensures r@ == v@ { unimplemented!() } }
#[verifier::external_body] pub fn take(a: &ArrayRef, ix: &UInt64Array, o: Option<usize>) -> (r: core::result::Result<ArrayRef, LibError>)
    requires forall|i: int| 0 <= i < ix@.len() ==> (#[trigger] ix@[i]) < a@.len()
    ensures r matches Ok(x) ==> x@ == Seq::new(ix@.len(), |i: int| a@[ix@[i] as int]) { unimplemented!() }
pub type Table = Seq<Seq<Val>>;
pub struct RecordBatch { pub s: Schema, pub cols: Vec<ArrayRef>, pub rows: usize }
pub open spec fn table(b: RecordBatch) -> Table { b.cols@.map_values(|a: ArrayRef| a@) }
pub open spec fn batch_ok(b: RecordBatch) -> bool { b.cols@.len() == b.s.f@.len() && forall|p: int| 0 <= p < b.cols@.len() ==> (#[trigger] b.cols@[p])@.len() == b.rows }
impl RecordBatch {
    pub fn schema(&self) -> (r: &Schema) ensures *r == self.s { &self.s }
    pub fn columns(&self) -> (r: &Vec<ArrayRef>) ensures *r == self.cols { &self.cols }
    pub fn column(&self, i: usize) -> (r: &ArrayRef) requires i < self.cols@.len() ensures *r == self.cols@[i as int] { &self.cols[i] }
    pub fn num_rows(&self) -> (r: usize) ensures r == self.rows { self.rows }
    #[verifier::external_body] pub fn try_new(s: Schema, cols: Vec<ArrayRef>) -> (r: core::result::Result<RecordBatch, LibError>) ensures r matches Ok(b) ==> b.s == s && b.cols == cols && batch_ok(b) { unimplemented!() }
}
// the rows of the batches one after the other
pub open spec fn total(d: Seq<RecordBatch>) -> nat decreases d.len() { if d.len() == 0 { 0 } else { total(d.drop_last()) + d.last().rows as nat } }
pub open spec fn catcol(d: Seq<RecordBatch>, p: int) -> Seq<Val> decreases d.len() { if d.len() == 0 { Seq::empty() } else { catcol(d.drop_last(), p) + d.last().cols@[p]@ } }
#[verifier::external_body] pub fn concat_batches(s: &Schema, d: &Vec<RecordBatch>) -> (r: core::result::Result<RecordBatch, LibError>)
    requires forall|i: int| 0 <= i < d@.len() ==> (#[trigger] d@[i]).cols@.len() >= s.f@.len()
    ensures r matches Ok(b) ==> b.s == *s && batch_ok(b) && b.rows == total(d@) && forall|p: int| 0 <= p < b.cols@.len() ==> (#[trigger] b.cols@[p])@ == catcol(d@, p) { unimplemented!() }
// rows in the row format: equal exactly when the values are
#[verifier::external_body] pub struct SortField { p: u8 }
impl SortField { #[verifier::external_body] pub fn new(t: DataType) -> SortField { unimplemented!() } }
#[verifier::external_body] pub struct RowConverter { p: u8 }
#[verifier::external_body] pub struct Rows { p: u8 }
impl View for Rows { type V = Seq<Key>; uninterp spec fn view(&self) -> Seq<Key>; }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Row { p: u8 }
impl View for Row { type V = Key; uninterp spec fn view(&self) -> Key; }
impl RxKey for Row { type K = Key; open spec fn key(&self) -> Key { self@ } }
pub open spec fn rowkeys(c: Seq<ArrayRef>, n: nat) -> Seq<Key> { Seq::new(n, |i: int| Seq::new(c.len(), |k: int| c[k]@[i])) }
impl RowConverter {
    #[verifier::external_body] pub fn new(f: Vec<SortField>) -> (r: core::result::Result<RowConverter, LibError>) { unimplemented!() }
    #[verifier::external_body] pub fn convert_columns(&self, c: &Vec<ArrayRef>) -> (r: core::result::Result<Rows, LibError>)
        ensures r matches Ok(x) ==> (c@.len() > 0 ==> x@ == rowkeys(c@, c@[0]@.len())) { unimplemented!() }
}
impl Rows {
    #[verifier::external_body] pub fn row(&self, i: usize) -> (r: Row) requires i < self@.len() ensures r@ == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn num_rows(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub uninterp spec fn row_of(k: Key) -> Row;
#[verifier::external_body] pub broadcast proof fn ax_row_of(k: Key) ensures (#[trigger] row_of(k))@ == k {}
impl<'a> RxItems for &'a Rows { type Item = Row; open spec fn items(&self) -> Seq<Row> { Seq::new(self@.len(), |i: int| row_of(self@[i])) } }
