/// iterators over owned values, as the elements still to come (@opt seqiters)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { _x: Vec<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(t) => old(self)@.len() > 0 && t == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
    { unimplemented!() }
}
/// what can be iterated over by value
pub trait VxSeq<T>: Sized { spec fn elems(self) -> Seq<T>; }
impl<T> VxSeq<T> for Vec<T> { open spec fn elems(self) -> Seq<T> { self@ } }
impl<T> VxSeq<T> for VxIter<T> { open spec fn elems(self) -> Seq<T> { self@ } }
/// v.into_iter()
#[verifier::external_body]
pub fn vx_iter<T, V: VxSeq<T>>(v: V) -> (r: VxIter<T>) ensures r@ == v.elems() { unimplemented!() }
/// v.rev()
#[verifier::external_body]
pub fn vx_rev<T, V: VxSeq<T>>(v: V) -> (r: VxIter<T>) ensures r@ == v.elems().reverse() { unimplemented!() }
/// a.zip(b)
#[verifier::external_body]
pub fn vx_zip<A, B, V: VxSeq<A>, W: VxSeq<B>>(a: V, b: W) -> (r: VxIter<(A, B)>)
    ensures r@.len() == (if a.elems().len() <= b.elems().len() { a.elems().len() } else { b.elems().len() }),
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a.elems()[i], b.elems()[i]),
{ unimplemented!() }
/// a.zip(&mut b): one element of b is taken for each of a
#[verifier::external_body]
pub fn vx_zip_mut<A, B>(a: VxIter<A>, b: &mut VxIter<B>) -> (r: VxIter<(A, B)>)
    requires a@.len() <= old(b)@.len(),
    ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a@[i], old(b)@[i]), final(b)@ == old(b)@.skip(a@.len() as int),
{ unimplemented!() }
/// a.extend(b)
#[verifier::external_body]
pub fn vx_extend<T, V: VxSeq<T>>(a: &mut Vec<T>, b: V)
    ensures final(a)@ == old(a)@ + b.elems(),
{ unimplemented!() }
/// a.reverse()
#[verifier::external_body]
pub fn vx_reverse<T>(a: &mut Vec<T>)
    ensures final(a)@ == old(a)@.reverse(),
{ unimplemented!() }
