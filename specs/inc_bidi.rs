// std::rc::Rc is modelled by its content: sharing is invisible except through try_unwrap, whose success
// (no other handle on the value is alive when the two maps have given up theirs) is assumed
pub struct Rc<T>(pub T);
impl<T> Rc<T> {
    pub fn new(t: T) -> (r: Rc<T>)
        ensures r == Rc(t),
    { Rc(t) }
    pub fn as_ref(&self) -> (r: &T)
        ensures *r == self.0,
    { &self.0 }
    pub fn try_unwrap(this: Rc<T>) -> (r: Result<T, Rc<T>>)
        ensures r == Ok::<T, Rc<T>>(this.0),
    { Ok(this.0) }
}
impl<T> VxKey<T> for Rc<T> { open spec fn vx_key(q: &T) -> Rc<T> { Rc(*q) } }

//@type lapex-parser/src/lr_parser/bidimap.rs InnerMap
//@type lapex-parser/src/lr_parser/bidimap.rs BidiMap #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)]
impl<A, B> BidiMap<A, B> {
    // each map is the other's inverse
    pub open spec fn wf(&self) -> bool {
        &&& forall|a: Rc<A>| #[trigger] self.a_b_map@.contains_key(a) ==> self.b_a_map@.contains_key(self.a_b_map@[a]) && self.b_a_map@[self.a_b_map@[a]] == a
        &&& forall|b: Rc<B>| #[trigger] self.b_a_map@.contains_key(b) ==> self.a_b_map@.contains_key(self.b_a_map@[b]) && self.a_b_map@[self.b_a_map@[b]] == b
    }
}
//@fn lapex-parser/src/lr_parser/bidimap.rs BidiMap::new
//@spec
    ensures r.wf(), forall|b: Rc<B>| !#[trigger] r.b_a_map@.contains_key(b), forall|a: Rc<A>| !#[trigger] r.a_b_map@.contains_key(a),
//@end
//@fn lapex-parser/src/lr_parser/bidimap.rs BidiMap::insert
//@spec
    ensures
        final(self).a_b_map@ == old(self).a_b_map@.insert(Rc(a), Rc(b)),
        final(self).b_a_map@ == old(self).b_a_map@.insert(Rc(b), Rc(a)),
//@end
//@fn lapex-parser/src/lr_parser/bidimap.rs BidiMap::get_a_to_b
//@spec
    ensures
        self.a_b_map@.contains_key(Rc(*a)) ==> r == Some(&self.a_b_map@[Rc(*a)].0),
        !self.a_b_map@.contains_key(Rc(*a)) ==> r is None,
//@end
//@fn lapex-parser/src/lr_parser/bidimap.rs BidiMap::get_b_to_a
//@spec
    ensures
        self.b_a_map@.contains_key(Rc(*b)) ==> r == Some(&self.b_a_map@[Rc(*b)].0),
        !self.b_a_map@.contains_key(Rc(*b)) ==> r is None,
//@end
//@fn lapex-parser/src/lr_parser/bidimap.rs BidiMap::remove_by_b
//@spec
    requires old(self).wf(),
    ensures
        old(self).b_a_map@.contains_key(Rc(*b)) ==> r == Some((old(self).b_a_map@[Rc(*b)].0, *b))
            && final(self).b_a_map@ == old(self).b_a_map@.remove(Rc(*b))
            && final(self).a_b_map@ == old(self).a_b_map@.remove(old(self).b_a_map@[Rc(*b)]),
        !old(self).b_a_map@.contains_key(Rc(*b)) ==> r is None,
//@end
//@fn lapex-parser/src/lr_parser/bidimap.rs BidiMap::iter as=vx_iter
//@spec
    ensures r.pos() == 0, pairs_of(self.a_b_map@, r.seq()),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(),
            it0.seq().len() == vx_order(self.a_b_map@.dom()).len(),
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]).0 == vx_order(self.a_b_map@.dom())[i] && *it0.seq()[i].1 == self.a_b_map@[vx_order(self.a_b_map@.dom())[i]],
            acc0@.len() == it0.pos(),
            pairs_upto(self.a_b_map@, acc0@),
        decreases it0.seq().len() - it0.pos(),
//@end
pub open spec fn pairs_upto<A, B>(m: Map<Rc<A>, Rc<B>>, s: Seq<(&A, &B)>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> Rc(*(#[trigger] s[i]).0) == vx_order(m.dom())[i] && Rc(*s[i].1) == m[vx_order(m.dom())[i]]
}
// the pairs of the map, each once
pub open spec fn pairs_of<A, B>(m: Map<Rc<A>, Rc<B>>, s: Seq<(&A, &B)>) -> bool { s.len() == vx_order(m.dom()).len() && pairs_upto(m, s) }
