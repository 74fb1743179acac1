// ---- creating a table
#[verifier::external_body] pub struct Field { p: u8 }
pub ghost struct TCol { pub name: Seqc, pub ty: DataType }
impl Field { pub uninterp spec fn col(&self) -> TCol; }
impl RxCl for Field { type Out = Field; open spec fn cl(&self) -> Field { *self } }
#[verifier::external_body] pub fn rx_field(f: &FieldRef) -> (r: &Field) ensures r.col().ty == field_type(*f) { unimplemented!() }
impl Field { #[verifier::external_body] pub fn with_name(self, n: &str) -> (r: Field) ensures r.col() == (TCol { name: n@, ty: self.col().ty }) { unimplemented!() } }
#[verifier::external_body] pub fn rx_text(t: &Text) -> (r: &str) ensures r@ == t@ { unimplemented!() }
#[verifier::external_body] pub fn rx_env(n: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body] pub struct SchemaBuilder { p: u8 }
#[verifier::external_body] pub struct Schema { p: u8 }
impl Schema { pub uninterp spec fn cols(&self) -> Seq<TCol>; }
impl SchemaBuilder {
    pub uninterp spec fn cols(&self) -> Seq<TCol>;
    #[verifier::external_body] pub fn new() -> (r: SchemaBuilder) ensures r.cols() == Seq::<TCol>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, f: Field) ensures final(self).cols() == old(self).cols().push(f.col()) { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: Schema) ensures r.cols() == self.cols() { unimplemented!() }
}
// the delta columns of an arrow schema
pub uninterp spec fn delta_columns(c: Seq<TCol>) -> Seqc;
#[verifier::external_body] pub struct DeltaSchema { p: u8 }
#[verifier::external_body] pub struct DeltaFields { p: u8 }
impl DeltaSchema { pub uninterp spec fn cols(&self) -> Seqc; #[verifier::external_body] pub fn fields(&self) -> (r: DeltaFields) ensures r.cols() == self.cols() { unimplemented!() } }
impl DeltaFields { pub uninterp spec fn cols(&self) -> Seqc; }
#[verifier::external_body] pub fn schema_try_from(s: &Schema) -> (r: core::result::Result<DeltaSchema, LibError>) ensures r is Ok ==> r->Ok_0.cols() == delta_columns(s.cols()) { unimplemented!() }
#[verifier::external_body] pub fn rx_all(f: &DeltaFields) -> (r: DeltaFields) ensures r.cols() == f.cols() { unimplemented!() }
pub struct CreateBuilder { pub log: Option<LogStore>, pub cols: Option<DeltaFields> }
impl CreateBuilder {
    pub fn new() -> (r: CreateBuilder) ensures r.log is None, r.cols is None { CreateBuilder { log: None, cols: None } }
    pub fn with_log_store(self, l: LogStore) -> (r: CreateBuilder) ensures r.log == Some(l), r.cols == self.cols { CreateBuilder { log: Some(l), cols: self.cols } }
    pub fn with_columns(self, c: DeltaFields) -> (r: CreateBuilder) ensures r.cols == Some(c), r.log == self.log { CreateBuilder { log: self.log, cols: Some(c) } }
    pub fn with_comment(self, c: String) -> (r: CreateBuilder) ensures r == self { self }
}
#[verifier::external_body] pub fn rx_await(b: CreateBuilder) -> (r: core::result::Result<DeltaTable, LibError>)
    ensures r matches Ok(t) ==> b.log is Some && b.cols is Some && t.url() == b.log->0.url() && t.columns() == b.cols->0.cols()
{ unimplemented!() }
// the columns a table is made with: the new keys and the values
pub open spec fn table_columns(v: Seq<SyncColumn>) -> Seq<TCol> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { match v.last().role { ColumnRole::NewPk | ColumnRole::Value => table_columns(v.drop_last()).push(TCol { name: v.last().name@, ty: field_type(v.last().field) }), _ => table_columns(v.drop_last()) } }
}
