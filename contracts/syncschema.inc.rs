#[derive(PartialEq, Eq, Clone, Copy)] pub enum ColumnRole { OldPk = 0, NewPk = 1, Changed = 2, Value = 3 }
impl RxKey for ColumnRole { type K = ColumnRole; open spec fn key(&self) -> ColumnRole { *self } }
impl View for ColumnRole { type V = ColumnRole; open spec fn view(&self) -> ColumnRole { *self } }
impl ColumnRole { pub open spec fn at(i: i32) -> Option<ColumnRole> { if i == 0 { Some(ColumnRole::OldPk) } else if i == 1 { Some(ColumnRole::NewPk) } else if i == 2 { Some(ColumnRole::Changed) } else if i == 3 { Some(ColumnRole::Value) } else { None } } }
#[verifier::external_body] pub fn rx_role(i: i32) -> (r: core::result::Result<ColumnRole, LibError>) ensures r is Ok <==> ColumnRole::at(i) is Some, r matches Ok(x) ==> ColumnRole::at(i) == Some(x) { unimplemented!() }
pub struct ColumnDescriptor { pub role: i32, pub name: String }
impl ColumnDescriptor { #[verifier::external_body] pub fn role(&self) -> (r: ColumnRole) ensures ColumnRole::at(self.role) is Some ==> r == ColumnRole::at(self.role)->Some_0 { unimplemented!() } }
#[verifier::external_body] pub struct Text { p: u8 }
impl RxKey for Text { type K = Seqc; open spec fn key(&self) -> Seqc { self@ } }
impl RxCl for Text { type Out = Text; open spec fn cl(&self) -> Text { *self } }
#[verifier::external_body] pub fn rx_text_from(t: &str) -> (r: Text) ensures r@ == t@ { unimplemented!() }
impl View for Text { type V = Seqc; uninterp spec fn view(&self) -> Seqc; }
#[verifier::external_body] pub fn rx_text(t: &Text) -> (r: &str) ensures r@ == t@ { unimplemented!() }
//@extract src/sync/schema/mod.rs | struct SyncColumn
//@types
Arc<str> => Text
//@end
//@extract src/sync/schema/mod.rs | struct SyncSchema
//@types
Arc<str> => Text
//@end
//@include squash_rows.inc.rs
impl SyncColumn {
//@extract src/sync/schema/mod.rs | impl SyncColumn :: name
//@methods
as_ref/0 => rx_text
//@contract
    ensures r@ == self.name@, // name
//@end
//@extract src/sync/schema/mod.rs | impl SyncColumn :: role
//@contract
    ensures r == self.role, // role
//@end
//@extract src/sync/schema/mod.rs | impl SyncColumn :: field
//@contract
    ensures *r == self.field, // field
//@end
}
impl SyncSchema {
//@extract src/sync/schema/mod.rs | impl SyncSchema :: try_new | streq forchain optmap
//@types
SchemaRef => Schema
Arc<str> => Text
//@calls
ColumnRole::try_from => rx_role
Arc::from => rx_text_from
//@methods
clone/0 => rx_own
//@vars
__acc1 => bool
__acc2 => Vec<SyncColumn>
//@contract
    ensures
        r is Ok <==> acceptable(column_descriptors@, schema, validate_pks), // accepted
        r matches Ok(s) ==> described(s, column_descriptors@, schema), // columns
        r matches Ok(s) ==> index_ok(s), // index
        r matches Ok(s) ==> (validate_pks && schema.flat() == schema.f@.len() && distinct_cols(shape(s)) ==> sensible(shape(s))), // sensible
//@loop 0
    invariant
        __it0.all().len() == common(column_descriptors@, schema.f@), 0 <= __it0.pos() <= __it0.all().len(), forall|i: int| 0 <= i < __it0.all().len() ==> #[trigger] __it0.all()[i] == (&column_descriptors@[i], &schema.f@[i]),
        column_descriptors@.len() == schema.flat(),
        old_pk_types@ == pks(column_descriptors@, schema.f@, 0, __it0.pos()), new_pk_types@ == pks(column_descriptors@, schema.f@, 1, __it0.pos()),
        forall|i: int| 0 <= i < __it0.pos() ==> col_ok(column_descriptors@, schema.f@, i),
    ensures __it0.pos() == common(column_descriptors@, schema.f@),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof {
        let k = __it0.pos();
        if k < __it0.all().len() {
            lemma_pks(column_descriptors@, schema.f@, 0, k); lemma_pks(column_descriptors@, schema.f@, 1, k);
            assert(acceptable(column_descriptors@, schema, validate_pks) ==> col_ok(column_descriptors@, schema.f@, k));
        }
    }
//@loop 1
    invariant_except_break
        !__acc1, forall|j: int| 0 <= j < __it1.pos() ==> !is_value(column_descriptors@, col_desc.name@, j),
    invariant
        0 <= __it1.pos() <= __it1.all().len(), __it1.all() == Seq::new(column_descriptors@.len(), |i: int| &column_descriptors@[i]),
    ensures __acc1 <==> exists|j: int| is_value(column_descriptors@, col_desc.name@, j),
    decreases __it1.all().len() - __it1.pos(),
//@body 1
    proof { let k = __it1.pos(); if k < column_descriptors@.len() { assert(is_value(column_descriptors@, col_desc.name@, k) == (column_descriptors@[k].name@ == col_desc.name@ && column_descriptors@[k].role == 3)); } }
//@loop 2
    invariant
        __it2.all().len() == common(column_descriptors@, schema.f@), 0 <= __it2.pos() <= __it2.all().len(), forall|i: int| 0 <= i < __it2.all().len() ==> #[trigger] __it2.all()[i] == (column_descriptors@[i], &schema.f@[i]),
        forall|i: int| 0 <= i < __it2.all().len() ==> col_ok(column_descriptors@, schema.f@, i),
        __k2 == __it2.pos(), __it2.all().len() <= usize::MAX,
        __acc2@.len() == __it2.pos(), forall|i: int| 0 <= i < __acc2@.len() ==> as_described(#[trigger] __acc2@[i], column_descriptors@[i], schema.f@[i]),
        indexed_so_far(indices@, __acc2@),
    ensures __it2.pos() == common(column_descriptors@, schema.f@),
    decreases __it2.all().len() - __it2.pos(),
//@body 2
    let ghost (i0, a0) = (indices@, __acc2@);
    proof { if __it2.pos() < __it2.all().len() { assert(col_ok(column_descriptors@, schema.f@, __it2.pos())); } }
//@exit
    proof { lemma_new_schema(SyncSchema { columns, indices }, column_descriptors@, schema, validate_pks); }
//@end
//@extract src/sync/schema/mod.rs | impl SyncSchema :: columns
//@types
&[SyncColumn] => &Vec<SyncColumn>
//@contract
    ensures *r == self.columns, // cols
//@end
//@extract src/sync/schema/mod.rs | impl SyncSchema :: is_compatible_with | streq
//@contract
    ensures r <==> shape(*self) == shape(*other) && same_types(*self, *other), // compatible
//@loop 0
    invariant_except_break
        __acc0, forall|i: int| 0 <= i < __it0.pos() ==> #[trigger] alike(self.columns@[i], other.columns@[i]),
    invariant
        0 <= __it0.pos() <= __it0.all().len(), __it0.all().len() == self.columns@.len(), self.columns@.len() == other.columns@.len(), forall|i: int| 0 <= i < __it0.all().len() ==> #[trigger] __it0.all()[i] == (&self.columns@[i], &other.columns@[i]),
    ensures __acc0 <==> forall|i: int| 0 <= i < self.columns@.len() ==> #[trigger] alike(self.columns@[i], other.columns@[i]),
    decreases __it0.all().len() - __it0.pos(),
//@body 0
    proof { let k = __it0.pos(); if k < self.columns@.len() { assert(alike(self.columns@[k], other.columns@[k]) == (self.columns@[k].name@ == other.columns@[k].name@ && self.columns@[k].role == other.columns@[k].role && self.columns@[k].field.ftype() == other.columns@[k].field.ftype())); } }
//@exit
    proof { lemma_compatible(*self, *other); }
//@end
//@extract src/sync/schema/mod.rs | impl SyncSchema :: column | optmap
//@contract
    requires index_ok(*self)
    ensures r is Some <==> hasc(shape(*self), role, name@), // there
        r matches Some(c) ==> exists|p: int| is_at(shape(*self), role, name@, p) && *c == self.columns@[p], // it
//@end
//@extract src/sync/schema/mod.rs | impl SyncSchema :: with_fields | streq forchain
//@methods
clone/0 => rx_own
//@contract
    ensures shape(*final(self)) == shape(*old(self)), final(self).indices == old(self).indices, // same
        r is Ok ==> final(self).columns@.len() == fields@.len() && forall|i: int| 0 <= i < fields@.len() ==> (#[trigger] final(self).columns@[i]).field == fields@[i], // fields
//@loop 0
    invariant
        __ix0 <= __len0, __len0 == fields@.len(), self.columns@.len() == fields@.len(), old(self).columns@.len() == fields@.len(), self.indices == old(self).indices,
        forall|i: int| 0 <= i < fields@.len() ==> colv(#[trigger] self.columns@[i]) == colv(old(self).columns@[i]),
        forall|i: int| 0 <= i < __ix0 ==> (#[trigger] self.columns@[i]).field == fields@[i],
    ensures
        shape(*self) =~= shape(*old(self)), __ix0 == fields@.len(),
    decreases __len0 - __ix0,
//@body 0
    proof { assert(shape(*self) =~= shape(*old(self))); }
//@end
}
