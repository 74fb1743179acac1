// ---- writing the rows of a plan: temporary Parquet files, their upload, the log entries made for them. A row is an opaque value.
#[verifier::external_body] pub struct DataFusionError { p: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct LibError { p: u8 }
impl DataFusionError {
    #[verifier::external_body] pub fn from<E>(e: E) -> DataFusionError { unimplemented!() }
    #[verifier::external_body] pub fn rx_ObjectStore(e: StoreError) -> DataFusionError { unimplemented!() }
    #[verifier::external_body] pub fn rx_External<E>(e: E) -> DataFusionError { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, DataFusionError>;
#[verifier::external_body] pub fn rx_from_err<E, F>(e: E) -> F { unimplemented!() }
pub fn rx_same<T>(x: T) -> (r: T) ensures r == x { x }
pub type Row = int;
pub type Rows = Seq<Row>;
pub open spec fn cat(s: Seq<Rows>) -> Rows decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last() } }
pub proof fn lemma_cat_push(s: Seq<Rows>, x: Rows) ensures cat(s.push(x)) == cat(s) + x { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lemma_cat_step(s: Seq<Rows>, i: int) requires 0 <= i < s.len() ensures #[trigger] cat(s.subrange(0, i + 1)) == cat(s.subrange(0, i)) + s[i] { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
pub struct RxZip<A, B> { pub a: A, pub b: B }
impl<A: RxItems, B: RxItems> RxItems for RxZip<A, B> { type Item = (A::Item, B::Item);
    open spec fn items(&self) -> Seq<(A::Item, B::Item)> { Seq::new((if self.a.items().len() < self.b.items().len() { self.a.items().len() } else { self.b.items().len() }), |i: int| (self.a.items()[i], self.b.items()[i])) } }
// ---- batches
#[verifier::external_body] pub struct RecordBatch { p: u8 }
impl View for RecordBatch { type V = Rows; uninterp spec fn view(&self) -> Rows; }
impl RecordBatch {
    #[verifier::external_body] pub fn num_rows(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn slice(&self, o: usize, n: usize) -> (r: RecordBatch) requires o + n <= self@.len() ensures r@ == self@.subrange(o as int, o + n) { unimplemented!() }
}
// ---- plans: the batches of each of their partitions
pub type SchemaRef = TableSchema;
#[verifier::external_body] pub struct Partitioning { p: u8 }
impl Partitioning { pub uninterp spec fn count(&self) -> int; #[verifier::external_body] pub fn partition_count(&self) -> (r: usize) ensures r == self.count() { unimplemented!() } }
#[verifier::external_body] pub struct Plan { p: u8 }
impl Plan {
    pub uninterp spec fn parts(&self) -> Seq<Seq<Rows>>;
    pub open spec fn rows(&self) -> Rows { cat(prows(*self)) }
    pub uninterp spec fn sch(&self) -> ArrowSchema; #[verifier::external_body] pub fn schema(&self) -> (r: SchemaRef) ensures r.sch() == self.sch() { unimplemented!() }
    #[verifier::external_body] pub fn output_partitioning(&self) -> (r: Partitioning) ensures r.count() == self.parts().len() { unimplemented!() }
    #[verifier::external_body] pub fn execute(&self, i: usize, c: TaskCtx) -> (r: Result<BatchStream>) requires i < self.parts().len() ensures r is Ok ==> r->Ok_0.all() == self.parts()[i as int] && r->Ok_0.pos() == 0 { unimplemented!() }
}
#[verifier::external_body] pub struct SessionState { p: u8 }
#[verifier::external_body] pub struct TaskCtx { p: u8 }
#[verifier::external_body] pub fn task_ctx(s: &SessionState) -> TaskCtx { unimplemented!() }
#[verifier::external_body] pub struct BatchStream { p: u8 }
impl BatchStream {
    pub uninterp spec fn all(&self) -> Seq<Rows>; pub uninterp spec fn pos(&self) -> int;
    // the next batch, the end after the last one, or an error
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<RecordBatch>>) requires 0 <= old(self).pos() <= old(self).all().len()
        ensures final(self).all() == old(self).all(), r is None <==> old(self).pos() == old(self).all().len(), r is None ==> final(self).pos() == old(self).pos(),
            r is Some ==> final(self).pos() == old(self).pos() + 1 && (r->Some_0 is Ok ==> r->Some_0->Ok_0@ == old(self).all()[old(self).pos()]) { unimplemented!() }
}
// ---- temporary files: a handle names the file, its writer gathers rows; closing gives the record of what the file has
pub uninterp spec fn bytes_of(file: int) -> Seq<u8>;
#[verifier::external_body] pub struct TempPath { p: u8 }
impl TempPath { pub uninterp spec fn id(&self) -> int; #[verifier::external_body] pub fn to_str(&self) -> (r: Option<FilePath>) ensures r is Some, r->Some_0.id() == self.id() { unimplemented!() } }
#[verifier::external_body] pub struct FilePath { p: u8 }
impl FilePath { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body] pub fn rx_expect<T>(o: Option<T>, m: &str) -> (r: T) ensures o is Some && r == o->Some_0 { unimplemented!() }
#[verifier::external_body] pub struct ArrowWriter { p: u8 }
impl ArrowWriter {
    pub uninterp spec fn id(&self) -> int; pub uninterp spec fn rows(&self) -> Rows;
    #[verifier::external_body] pub fn write(&mut self, b: &RecordBatch) -> (r: core::result::Result<(), LibError>) ensures final(self).id() == old(self).id(), r is Ok ==> final(self).rows() == old(self).rows() + b@ { unimplemented!() }
    #[verifier::external_body] pub fn close(self) -> (r: core::result::Result<FileMeta, LibError>) ensures r is Ok ==> r->Ok_0.id() == self.id() && r->Ok_0.rows() == self.rows() { unimplemented!() }
}
#[verifier::external_body] pub struct FileMeta { p: u8 }
impl FileMeta { pub uninterp spec fn id(&self) -> int; pub uninterp spec fn rows(&self) -> Rows; }
#[verifier::external_body] pub fn temp_partition_file_writer(s: SchemaRef) -> (r: Result<(TempPath, ArrowWriter)>) ensures r is Ok ==> r->Ok_0.0.id() == r->Ok_0.1.id() && r->Ok_0.1.rows() == Rows::empty() { unimplemented!() }
// ---- reading the file back and storing it
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Uuid { p: u8 }
impl RxDisp for Uuid { uninterp spec fn disp(&self) -> Seq<char>; }
#[verifier::external_body] pub fn get_uuid() -> Uuid { unimplemented!() }
pub uninterp spec fn pad0(n: int, w: int) -> Seq<char>;
#[verifier::external_body] pub fn rx_pad0(n: &usize, w: usize) -> (r: String) ensures r@ == pad0(*n as int, w as int) { unimplemented!() }
#[verifier::external_body] pub proof fn axiom_pad0(w: int) ensures forall|i: int, j: int| 0 <= i && 0 <= j && #[trigger] pad0(i, w) == #[trigger] pad0(j, w) ==> i == j {}
#[verifier::external_body] pub struct OPath { p: u8 }
impl View for OPath { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl RxDisp for OPath { open spec fn disp(&self) -> Seq<char> { self@ } }
// the names given here have only characters that a path keeps as they are
#[verifier::external_body] pub fn path_from(s: String) -> (r: OPath) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn rx_to_string<T: RxDisp + ?Sized>(x: &T) -> (r: String) ensures r@ == x.disp() { unimplemented!() }
#[verifier::external_body] pub struct Meta { p: u8 }
impl Meta { pub uninterp spec fn id(&self) -> int; #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == bytes_of(self.id()).len(), r <= i64::MAX { unimplemented!() } }
#[verifier::external_body] pub fn fs_metadata(p: FilePath) -> (r: core::result::Result<Meta, LibError>) ensures r is Ok ==> r->Ok_0.id() == p.id() { unimplemented!() }
#[verifier::external_body] pub struct AsyncFile { p: u8 }
impl AsyncFile { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body] pub fn open_file(p: TempPath) -> (r: core::result::Result<AsyncFile, LibError>) ensures r is Ok ==> r->Ok_0.id() == p.id() { unimplemented!() }
#[verifier::external_body] pub struct BytesMut { p: u8 }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body] pub struct Bytes { p: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } #[verifier::external_body] pub fn into(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() } }
impl BytesMut {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub struct BufReader { p: u8 }
impl BufReader {
    pub uninterp spec fn id(&self) -> int; pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] pub fn with_capacity(n: usize, f: AsyncFile) -> (r: BufReader) ensures r.id() == f.id(), r.pos() == 0 { unimplemented!() }
    // the next bytes of the file; none of them only at its end
    #[verifier::external_body] pub fn read_buf(&mut self, b: &mut BytesMut) -> (r: core::result::Result<usize, StdIoError>) requires 0 <= old(self).pos() <= bytes_of(old(self).id()).len()
        ensures final(self).id() == old(self).id(), old(self).pos() <= final(self).pos() <= bytes_of(old(self).id()).len(),
            r is Ok ==> final(self).pos() == old(self).pos() + r->Ok_0 && final(b)@ == old(b)@ + bytes_of(old(self).id()).subrange(old(self).pos(), final(self).pos()) && (r->Ok_0 == 0 ==> old(self).pos() == bytes_of(old(self).id()).len()) { unimplemented!() }
}
#[verifier::external_body] pub struct StdIoError { p: u8 }
pub mod object_store { pub enum Error { Generic { store: &'static str, source: Box<crate::StdIoError> }, Other } }
pub type StoreError = object_store::Error;
/// the object `name` of the store has these bytes; the file at the local path has them
pub uninterp spec fn stored(store: int, name: Seq<char>, b: Seq<u8>) -> bool;
pub uninterp spec fn at_path(path: Seq<char>, b: Seq<u8>) -> bool;
#[verifier::external_body] pub struct Store { p: u8 }
impl Clone for Store { #[verifier::external_body] fn clone(&self) -> (r: Store) ensures r.id() == self.id() { unimplemented!() } }
impl Store { pub uninterp spec fn id(&self) -> int; #[verifier::external_body] pub fn put_multipart(&self, name: &OPath) -> (r: core::result::Result<Upload, StoreError>) ensures r is Ok ==> r->Ok_0.store() == self.id() && r->Ok_0.name() == name@ && r->Ok_0.sent() == Seq::<u8>::empty() { unimplemented!() } }
#[verifier::external_body] pub struct Upload { p: u8 }
impl Upload {
    pub uninterp spec fn store(&self) -> int; pub uninterp spec fn name(&self) -> Seq<char>; pub uninterp spec fn sent(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn put_part(&mut self, b: Bytes) -> (r: core::result::Result<(), StoreError>) ensures final(self).store() == old(self).store(), final(self).name() == old(self).name(), r is Ok ==> final(self).sent() == old(self).sent() + b@ { unimplemented!() }
    #[verifier::external_body] pub fn complete(&mut self) -> (r: core::result::Result<(), StoreError>) ensures r is Ok ==> stored(old(self).store(), old(self).name(), old(self).sent()) { unimplemented!() }
    #[verifier::external_body] pub fn abort(&mut self) -> core::result::Result<(), StoreError> { unimplemented!() }
}
#[verifier::external_body] pub fn fast_upload(p: &TempPath, to: String) -> (r: core::result::Result<(), StoreError>) ensures r is Ok ==> at_path(to@, bytes_of(p.id())) { unimplemented!() }
// ---- log entries
#[verifier::external_body] pub struct PartVals { p: u8 }
#[verifier::external_body] pub struct AddRest { p: u8 }
pub struct Add { pub path: String, pub size: i64, pub partition_values: PartVals, pub rest: AddRest }
impl Add { pub open spec fn path(&self) -> Seq<char> { self.path@ } pub uninterp spec fn file(&self) -> int; pub open spec fn size(&self) -> int { self.size as int } pub uninterp spec fn rows(&self) -> Rows; }
#[verifier::external_body] pub fn create_add(v: &NoVals, path: String, size: i64, m: &FileMeta, n: i32, c: &Option<Vec<String>>) -> (r: core::result::Result<Add, LibError>) ensures r is Ok ==> r->Ok_0.path() == path@ && r->Ok_0.size() == size && r->Ok_0.file() == m.id() && r->Ok_0.rows() == m.rows() { unimplemented!() }
pub struct NoVals; impl NoVals { pub fn default() -> NoVals { NoVals } }
/// the file an entry names is in the table's place, with all of its bytes
pub open spec fn in_place(a: Add, store: int, dir: Option<String>) -> bool {
    &&& a.size() == bytes_of(a.file()).len()
    &&& match dir { Some(d) => at_path(d@ + "/"@ + a.path(), bytes_of(a.file())), None => stored(store, a.path(), bytes_of(a.file())) }
}
pub open spec fn part_name(i: int, u: Seq<char>) -> Seq<char> { "part-"@ + pad0(i, 5) + "-"@ + u + "-c000.snappy.parquet"@ }
#[verifier::external_body] pub struct Permit { p: u8 }
#[verifier::external_body] pub fn semaphore(n: usize) -> Sem { unimplemented!() }
#[verifier::external_body] pub struct Sem { p: u8 }
#[verifier::external_body] pub fn again(s: &Sem) -> Sem { unimplemented!() }
impl Sem { #[verifier::external_body] pub fn acquire_owned(self) -> core::result::Result<Permit, LibError> { unimplemented!() } }
#[verifier::external_body] pub struct JoinError { p: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct JoinHandle<T> { p: core::marker::PhantomData<T> }
impl<T> JoinHandle<T> { pub uninterp spec fn answer(&self) -> T; }
// tokio: the answer of a task, or that it was cancelled or panicked; join_all keeps their order
#[verifier::external_body] pub fn spawn<T>(x: T) -> (r: JoinHandle<T>) ensures r.answer() == x { unimplemented!() }
#[verifier::external_body] pub fn join_all<T>(v: Vec<JoinHandle<T>>) -> (r: Vec<core::result::Result<T, JoinError>>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i] is Ok ==> r@[i]->Ok_0 == v@[i].answer()) { unimplemented!() }
pub open spec fn mrows(v: Seq<FileMeta>) -> Seq<Rows> { Seq::new(v.len(), |i: int| v[i].rows()) }
pub open spec fn arows(v: Seq<Add>) -> Seq<Rows> { Seq::new(v.len(), |i: int| v[i].rows()) }
pub open spec fn prows(p: Plan) -> Seq<Rows> { Seq::new(p.parts().len(), |i: int| cat(p.parts()[i])) }
pub open spec fn so_far(m: Seq<FileMeta>, w: ArrowWriter) -> Rows { cat(mrows(m)) + w.rows() }
pub open spec fn pairs_ok(p: Seq<TempPath>, m: Seq<FileMeta>, max: u32) -> bool { forall|k: int| 0 <= k < m.len() && k < p.len() ==> (#[trigger] p[k]).id() == m[k].id() && m[k].rows().len() <= max }
pub open spec fn files_ok(p: Seq<TempPath>, m: Seq<FileMeta>, w: ArrowWriter, max: u32) -> bool { p.len() == m.len() + 1 && pairs_ok(p, m, max) && p.last().id() == w.id() && w.rows().len() <= max }
pub proof fn lemma_pairs_push(p0: Seq<TempPath>, m0: Seq<FileMeta>, y: TempPath, x: FileMeta, max: u32) requires pairs_ok(p0, m0, max), p0.len() == m0.len() + 1, p0.last().id() == x.id(), x.rows().len() <= max ensures pairs_ok(p0.push(y), m0.push(x), max) {
    let p = p0.push(y); let m = m0.push(x);
    assert forall|k: int| 0 <= k < m.len() && k < p.len() implies (#[trigger] p[k]).id() == m[k].id() && m[k].rows().len() <= max by { if k < m0.len() { assert(p[k] == p0[k] && m[k] == m0[k]); } }
}
pub open spec fn made(a: Add, m: FileMeta, k: int, u: Seq<char>, store: int, dir: Option<String>) -> bool { a.rows() == m.rows() && a.path() == part_name(k, u) && in_place(a, store, dir) }
pub broadcast proof fn lemma_mrows_push(m: Seq<FileMeta>, x: FileMeta) ensures #[trigger] cat(mrows(m.push(x))) == cat(mrows(m)) + x.rows() { assert(mrows(m.push(x)) =~= mrows(m).push(x.rows())); lemma_cat_push(mrows(m), x.rows()); }
pub proof fn lemma_names(i: int, j: int, u: Seq<char>) requires 0 <= i, 0 <= j, part_name(i, u) == part_name(j, u) ensures i == j {
    let p = "part-"@; let s = "-"@ + u + "-c000.snappy.parquet"@;
    assert(part_name(i, u) =~= p + pad0(i, 5) + s); assert(part_name(j, u) =~= p + pad0(j, 5) + s);
    let a = pad0(i, 5); let b = pad0(j, 5); assert((p + a + s).len() == (p + b + s).len()); assert(a.len() == b.len());
    assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { assert((p + a + s)[p.len() + k] == a[k]); assert((p + b + s)[p.len() + k] == b[k]); }
    assert(a =~= b); axiom_pad0(5);
}
pub open spec fn zipped(z: Seq<(TempPath, FileMeta)>, p: Seq<TempPath>, m: Seq<FileMeta>) -> bool { z.len() == m.len() && forall|k: int| 0 <= k < m.len() ==> #[trigger] z[k] == (p[k], m[k]) }
pub broadcast proof fn lemma_assoc(a: Rows, b: Rows, c: Rows) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn lemma_full(s: Seq<Rows>, n: int) requires n == s.len() ensures #[trigger] s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }
pub open spec fn all_made(a: Seq<Add>, m: Seq<FileMeta>, u: Seq<char>, store: int, dir: Option<String>) -> bool { a.len() == m.len() && forall|k: int| 0 <= k < a.len() ==> made(#[trigger] a[k], m[k], k, u, store, dir) }
/// every row once and in order, in files of the allowed size, in place, under distinct names
pub open spec fn wrote(a: Seq<Add>, rows: Rows, max: u32, store: int, dir: Option<String>) -> bool {
    &&& cat(arows(a)) == rows
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).rows().len() <= max && in_place(a[i], store, dir)
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).path() != (#[trigger] a[j]).path()
}
pub proof fn lemma_wrote(a: Seq<Add>, p: Seq<TempPath>, m: Seq<FileMeta>, max: u32, u: Seq<char>, store: int, dir: Option<String>) requires all_made(a, m, u, store, dir), pairs_ok(p, m, max), p.len() == m.len()
    ensures wrote(a, cat(mrows(m)), max, store, dir) {
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).rows() == m[i].rows() && a[i].rows().len() <= max && in_place(a[i], store, dir) by { assert(made(a[i], m[i], i, u, store, dir)); assert(p[i].id() == m[i].id()); }
    assert(arows(a) =~= mrows(m));
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).path() != (#[trigger] a[j]).path() by { assert(made(a[i], m[i], i, u, store, dir)); assert(made(a[j], m[j], j, u, store, dir)); if a[i].path() == a[j].path() { lemma_names(i, j, u); } }
}
