pub mod vxs {
use vstd::prelude::*;
use crate::vxp::*;
verus! {
// ---- generated code as data: arms of a match, names, what is written out ------------------------------
// an identifier written into the generated code; equal texts are equal names
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VxName { t: u64 }
impl VxName { pub uninterp spec fn text(&self) -> Seq<char>; }
// the name with a text
pub uninterp spec fn name_of(t: Seq<char>) -> VxName;
#[verifier::external_body]
pub broadcast proof fn axiom_name_text(t: Seq<char>)
    ensures (#[trigger] name_of(t)).text() == t,
{ }
#[verifier::external_body]
pub fn vx_name(s: &str) -> (r: VxName)
    ensures r == name_of(s@),
{ unimplemented!() }
#[verifier::external_body]
#[derive(Debug)]
pub struct LexError { t: u8 }
pub trait VxParse { fn vx_parse(&self) -> (r: Result<VxName, LexError>) ensures r is Ok, r->Ok_0 == name_of(self.vx_ps()); spec fn vx_ps(&self) -> Seq<char>; }
impl VxParse for String {
    open spec fn vx_ps(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_parse(&self) -> (r: Result<VxName, LexError>) { unimplemented!() }
}
// ToTokens: a number is written as a literal of its type and value, a name as itself
pub trait VxQ: Sized + Copy {
    fn vx_q(&self) -> (r: Self)
        ensures r == *self;
}
// equality of what a pattern compares with
pub trait VxSame: Sized + Copy {
    fn vx_same(&self, o: &Self) -> (r: bool)
        ensures r == (*self == *o);
}
impl VxQ for u32 { fn vx_q(&self) -> (r: u32) { *self } }
impl VxSame for u32 { fn vx_same(&self, o: &u32) -> (r: bool) { *self == *o } }
impl VxQ for usize { fn vx_q(&self) -> (r: usize) { *self } }
impl VxSame for usize { fn vx_same(&self, o: &usize) -> (r: bool) { *self == *o } }
impl VxQ for VxName {
    fn vx_q(&self) -> (r: VxName) { *self }
}
impl VxSame for VxName {
    #[verifier::external_body]
    fn vx_same(&self, o: &VxName) -> (r: bool) { unimplemented!() }
}
// the arms of a match are tried in order
pub trait VxArm<S> {
    spec fn pm(&self, s: S) -> bool;
    fn m(&self, s: &S) -> (r: bool)
        ensures r == self.pm(*s);
}
pub open spec fn vx_hit<S, A: VxArm<S>>(l: Seq<A>, s: S) -> Option<A>
    decreases l.len(),
{
    if l.len() == 0 { None } else {
        match vx_hit(l.drop_last(), s) { Some(a) => Some(a), None => if l.last().pm(s) { Some(l.last()) } else { None } }
    }
}
pub broadcast proof fn lemma_hit_push<S, A: VxArm<S>>(l: Seq<A>, a: A, s: S)
    ensures #[trigger] vx_hit(l.push(a), s) == match vx_hit(l, s) { Some(b) => Some(b), None => if a.pm(s) { Some(a) } else { None } },
{ assert(l.push(a).drop_last() =~= l); }
pub proof fn lemma_hit_at<S, A: VxArm<S>>(l: Seq<A>, s: S, k: int)
    requires 0 <= k < l.len(), l[k].pm(s), forall|j: int| 0 <= j < k ==> !(#[trigger] l[j]).pm(s),
    ensures vx_hit(l, s) == Some(l[k]),
    decreases l.len(),
{
    if k < l.len() - 1 {
        assert(l.drop_last()[k] == l[k]);
        assert forall|j: int| 0 <= j < k implies !(#[trigger] l.drop_last()[j]).pm(s) by { assert(l.drop_last()[j] == l[j]); }
        lemma_hit_at(l.drop_last(), s, k);
    } else {
        assert forall|j: int| 0 <= j < l.len() - 1 implies !(#[trigger] l.drop_last()[j]).pm(s) by { assert(l.drop_last()[j] == l[j]); }
        lemma_hit_none(l.drop_last(), s);
    }
}
pub proof fn lemma_hit_none<S, A: VxArm<S>>(l: Seq<A>, s: S)
    requires forall|j: int| 0 <= j < l.len() ==> !(#[trigger] l[j]).pm(s),
    ensures vx_hit(l, s) is None,
    decreases l.len(),
{
    if l.len() > 0 {
        assert forall|j: int| 0 <= j < l.len() - 1 implies !(#[trigger] l.drop_last()[j]).pm(s) by { assert(l.drop_last()[j] == l[j]); }
        lemma_hit_none(l.drop_last(), s);
    }
}
pub fn vx_sel<S, A: VxArm<S>>(l: &Vec<A>, s: S) -> (r: Option<usize>)
    ensures
        r matches Some(k) ==> k < l@.len() && l@[k as int].pm(s) && vx_hit(l@, s) == Some(l@[k as int]),
        r is None ==> vx_hit(l@, s) is None,
{
    let mut k: usize = 0;
    while k < l.len()
        invariant k <= l@.len(), forall|j: int| 0 <= j < k ==> !(#[trigger] l@[j]).pm(s),
        decreases l@.len() - k,
    {
        if l[k].m(&s) {
            proof { lemma_hit_at(l@, s, k as int); }
            return Some(k);
        }
        k = k + 1;
    }
    proof { lemma_hit_none(l@, s); }
    None
}
// a sink the generated program is written to
#[verifier::external_body]
pub struct Error { t: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct VxOut<P> { t: std::marker::PhantomData<P> }
impl<P> View for VxOut<P> { type V = Seq<P>; uninterp spec fn view(&self) -> Seq<P>; }
impl<P> VxOut<P> {
    #[verifier::external_body]
    pub fn vx_emit(&mut self, p: P) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(p),
    { unimplemented!() }
}
// ---- text built by format! where it matters ------------------------------------------------------------
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'a> VxShow for &'a str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for usize { open spec fn shown(&self) -> Seq<char> { vx_dec(*self as nat) } }
impl<'a> VxShow for &'a usize { open spec fn shown(&self) -> Seq<char> { vx_dec(**self as nat) } }
impl VxShow for u16 { open spec fn shown(&self) -> Seq<char> { vx_dec(*self as nat) } }
impl<'a> VxShow for &'a u16 { open spec fn shown(&self) -> Seq<char> { vx_dec(**self as nat) } }
// decimal digits; different numbers are written differently
pub open spec fn vx_digit(n: nat) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
pub open spec fn vx_dec(n: nat) -> Seq<char>
    decreases n,
{ if n < 10 { seq![vx_digit(n)] } else { vx_dec(n / 10).push(vx_digit(n % 10)) } }
pub proof fn lemma_dec(n: nat, m: nat)
    requires vx_dec(n) == vx_dec(m),
    ensures n == m,
    decreases n,
{
    assert(vx_dec(n).last() == vx_digit(n % 10));
    assert(vx_dec(m).last() == vx_digit(m % 10));
    lemma_dec_some(n / 10);
    lemma_dec_some(m / 10);
    if n >= 10 {
        assert(vx_dec(n).len() > 1);
        assert(vx_dec(n).drop_last() =~= vx_dec(n / 10));
        assert(m >= 10);
        assert(vx_dec(m).drop_last() =~= vx_dec(m / 10));
        lemma_dec(n / 10, m / 10);
    } else {
        assert(m < 10);
    }
}
pub proof fn lemma_dec_some(n: nat)
    ensures vx_dec(n).len() > 0,
    decreases n,
{ if n >= 10 { lemma_dec_some(n / 10); } }
// a text with its holes {} filled in order
pub open spec fn vx_txt(l: Seq<char>, a: Seq<Seq<char>>) -> Seq<char>
    decreases l.len(),
{
    if l.len() == 0 { l }
    else if l.len() >= 2 && l[0] == '{' && l[1] == '}' && a.len() > 0 { a[0] + vx_txt(l.skip(2), a.skip(1)) }
    else { seq![l[0]] + vx_txt(l.skip(1), a) }
}
pub open spec fn vx_txt1(l: Seq<char>, a: Seq<char>) -> Seq<char> { vx_txt(l, seq![a]) }
pub open spec fn vx_txt2(l: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char> { vx_txt(l, seq![a, b]) }
pub open spec fn vx_hole(l: Seq<char>) -> bool
    decreases l.len(),
{ l.len() >= 2 && ((l[0] == '{' && l[1] == '}') || vx_hole(l.skip(1))) }
pub proof fn lemma_txt1(l: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires vx_hole(l), vx_txt1(l, a) == vx_txt1(l, b),
    ensures a == b,
    decreases l.len(),
{
    if l[0] == '{' && l[1] == '}' {
        let x = vx_txt(l.skip(2), Seq::empty());
        assert(seq![a].skip(1) =~= Seq::empty());
        assert(seq![b].skip(1) =~= Seq::empty());
        assert(vx_txt1(l, a) == a + x && vx_txt1(l, b) == b + x);
        assert((a + x).len() == a.len() + x.len() && (b + x).len() == b.len() + x.len());
        assert((a + x).take(a.len() as int) =~= a);
        assert((b + x).take(b.len() as int) =~= b);
    } else {
        assert(vx_txt1(l, a) == seq![l[0]] + vx_txt1(l.skip(1), a));
        assert(vx_txt1(l, b) == seq![l[0]] + vx_txt1(l.skip(1), b));
        assert((seq![l[0]] + vx_txt1(l.skip(1), a)).skip(1) =~= vx_txt1(l.skip(1), a));
        assert((seq![l[0]] + vx_txt1(l.skip(1), b)).skip(1) =~= vx_txt1(l.skip(1), b));
        lemma_txt1(l.skip(1), a, b);
    }
}
#[verifier::external_body]
pub fn vx_fmt1<A: VxShow>(l: &str, a: &A) -> (r: String)
    ensures r@ == vx_txt1(l@, a.shown()),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt2<A: VxShow, B: VxShow>(l: &str, a: &A, b: &B) -> (r: String)
    ensures r@ == vx_txt2(l@, a.shown(), b.shown()),
{ unimplemented!() }
// ---- a function without arguments, called again and again ---------------------------------------------------
pub trait VxSource: Sized {
    type Item;
    spec fn item(&self, k: nat) -> Self::Item;
    spec fn taken(&self) -> nat;
    fn vx_next(&mut self) -> (r: Self::Item)
        ensures r == old(self).item(old(self).taken()), final(self).taken() == old(self).taken() + 1, forall|k: nat| final(self).item(k) == old(self).item(k);
}
// ---- VecDeque --------------------------------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxDeque<T> { t: std::marker::PhantomData<T> }
impl<T> View for VxDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VxDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(&self@[0]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(&self@.last()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
pub trait VxChar {
    spec fn vx_c(&self) -> char;
    fn vx_len_utf8(&self) -> (r: usize)
        ensures r == vx_utf8(self.vx_c());
}
impl VxChar for char {
    open spec fn vx_c(&self) -> char { *self }
    #[verifier::external_body]
    fn vx_len_utf8(&self) -> (r: usize) { unimplemented!() }
}
// indexing a string by a range of bytes: panics unless the range lies on character boundaries
pub fn vx_str_index<'a>(s: &'a str, r: Range<usize>) -> (t: &'a str)
    requires s.vx_range_ok(r.start, r.end),
    ensures s.vx_range_is(r.start, r.end, t),
{ s.vx_range(r.start, r.end) }
pub use std::ops::Range;
pub assume_specification<'a, T: Copy>[ Option::<&T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == match o { Some(x) => Some(*x), None => None },
    opens_invariants none
    no_unwind;
} // verus!
}
use vxs::*;
