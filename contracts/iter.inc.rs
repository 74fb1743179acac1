// ---- iteration over slices and vectors: assumed contract of the standard iterators (every element, in order, once)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RxIt<T> { p: core::marker::PhantomData<T> }
impl<T> RxIt<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn rx_next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).all().len(),
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
pub trait RxItems: Sized { type Item; spec fn items(&self) -> Seq<Self::Item>; }
impl<T> RxItems for Vec<T> { type Item = T; open spec fn items(&self) -> Seq<T> { self@ } }
impl<'a, T> RxItems for &'a Vec<T> { type Item = &'a T; open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } }
impl<'a, T> RxItems for &'a [T] { type Item = &'a T; open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } }
impl<'a, T> RxItems for &'a &'a [T] { type Item = &'a T; open spec fn items(&self) -> Seq<&'a T> { Seq::new((**self)@.len(), |i: int| &(**self)@[i]) } }
impl<'a, T> RxItems for &'a &'a Vec<T> { type Item = &'a T; open spec fn items(&self) -> Seq<&'a T> { Seq::new((**self)@.len(), |i: int| &(**self)@[i]) } }
impl RxItems for core::ops::Range<usize> { type Item = usize; open spec fn items(&self) -> Seq<usize> { Seq::new((if self.end >= self.start { self.end - self.start } else { 0 }) as nat, |i: int| (self.start + i) as usize) } }
#[verifier::external_body]
pub fn rx_into_iter<C: RxItems>(c: C) -> (r: RxIt<C::Item>) ensures r.all() == c.items(), r.pos() == 0, r.all().len() <= usize::MAX { unimplemented!() }
