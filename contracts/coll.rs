// ---- iteration: what is left to come, in order --------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VxIt<T> { p: core::marker::PhantomData<T> }
impl<T> VxIt<T> {
    uninterp spec fn all(&self) -> Seq<T>;
    uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).all().len()
        ensures final(self).all() == old(self).all(), 0 <= final(self).pos() <= final(self).all().len(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() == old(self).all().len() ==> r is None && final(self).pos() == old(self).pos()
    { unimplemented!() }
}
/// something that can be gone through: `items` says in which sequences its elements may come
trait VxColl: Sized { type Item; spec fn items(self, s: Seq<Self::Item>) -> bool; }
#[verifier::external_body]
fn vx_into_iter<C: VxColl>(c: C) -> (r: VxIt<C::Item>)
    ensures r.pos() == 0, c.items(r.all()) { unimplemented!() }
impl<T> VxColl for Vec<T> { type Item = T; spec fn items(self, s: Seq<T>) -> bool { s == self@ } }
impl<'a, T> VxColl for &'a Vec<T> { type Item = &'a T; spec fn items(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[i] } }
impl<T> VxColl for VxIt<T> { type Item = T; spec fn items(self, s: Seq<T>) -> bool { s == self.all().skip(self.pos()) } }
