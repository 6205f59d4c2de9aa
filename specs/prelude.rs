// Trusted prelude: contracts for the parts of std the extracted functions use. Everything marked
// external_body / axiom here is an ASSUMED contract on a dependency (listed in the evidence).
#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unused_assignments, private_interfaces, unreachable_code, unreachable_patterns, mismatched_lifetime_syntaxes)]
pub mod vxp {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
verus! {

// ---- panics ------------------------------------------------------------------------------------
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T)
    requires false,
{ panic!() }

#[verifier::external_body]
pub fn vx_panic_s() -> !
    requires false,
{ panic!() }

// arbitrary (used by the vacuity probes only)
#[verifier::external_body]
pub fn vx_nd() -> (r: bool)
{ unimplemented!() }

pub fn vx_rt_assert(b: bool)
    requires b,
{ }

// text built by format!/to_string-like calls whose content no contract depends on
#[verifier::external_body]
pub fn vx_fmt() -> (r: String)
{ String::new() }

#[verifier::external_body]
pub fn vx_ptr_eq<T>(a: &T, b: &T) -> (r: bool)
    ensures r == (a == b),
{ unimplemented!() }

// ---- Clone yields an equal value ----------------------------------------------------------------
pub trait VxClone: Sized {
    fn vx_clone(&self) -> (r: Self)
        ensures r == *self;
}
impl<T> VxClone for T {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}

// ---- iterators ----------------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { t: std::marker::PhantomData<T> }

impl<T> VxIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;

    pub open spec fn rest(&self) -> Seq<T> {
        if self.pos() == 0 { self.seq() } else { self.seq().skip(self.pos() as int) }
    }

    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool)
        ensures self.pos() <= self.seq().len(), r == (self.pos() < self.seq().len()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn advance(&mut self) -> (r: T)
        requires old(self).pos() < old(self).seq().len(),
        ensures
            final(self).seq() == old(self).seq(),
            final(self).pos() == old(self).pos() + 1,
            r == old(self).seq()[old(self).pos() as int],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&T>)
        ensures
            self.pos() <= self.seq().len(),
            self.pos() < self.seq().len() ==> r == Some(&self.seq()[self.pos() as int]),
            self.pos() >= self.seq().len() ==> r is None,
    { unimplemented!() }

    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).seq() == old(self).seq(),
            old(self).pos() <= old(self).seq().len(),
            old(self).pos() < old(self).seq().len() ==> r == Some(old(self).seq()[old(self).pos() as int]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).seq().len() ==> r is None && final(self).pos() == old(self).pos(),
    { if self.has_next() { Some(self.advance()) } else { None } }

    pub fn peekable(self) -> (r: Self)
        ensures r == self,
    { self }

    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VxIter<(usize, T)>)
        ensures r.pos() == 0, r.seq() == Seq::new(self.rest().len(), |i: int| (i as usize, self.rest()[i])),
            self.rest().len() <= usize::MAX,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn chain<I: IntoVx<Item = T>>(self, o: I) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == self.rest() + o.vx_seq(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == self.rest().skip(if n <= self.rest().len() { n as int } else { self.rest().len() as int }),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == self.rest().take(if n <= self.rest().len() { n as int } else { self.rest().len() as int }),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn rev(self) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == self.rest().reverse(),
    { unimplemented!() }
}

impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest().last()) && final(self).rest() == old(self).rest().drop_last(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>)
        ensures
            self.rest().len() == 0 ==> r is None,
            self.rest().len() > 0 ==> r == Some(self.rest().last()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures
            n >= old(self).rest().len() ==> r is None && final(self).rest().len() == 0,
            n < old(self).rest().len() ==> r == Some(old(self).rest()[n as int]) && final(self).rest() == old(self).rest().skip(n + 1),
    { unimplemented!() }
}

// ---- what an Option or a Result holds -----------------------------------------------------------
pub trait VxOpt<T>: Sized {
    spec fn vx_o(self) -> Option<T>;
    fn vx_opt(self) -> (r: Option<T>)
        ensures r == self.vx_o();
}
impl<T> VxOpt<T> for Option<T> {
    open spec fn vx_o(self) -> Option<T> { self }
    fn vx_opt(self) -> (r: Option<T>) { self }
}
impl<T, E> VxOpt<T> for Result<T, E> {
    open spec fn vx_o(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn vx_opt(self) -> (r: Option<T>) { match self { Ok(x) => Some(x), Err(_) => None } }
}

// ---- membership in a vector (Eq is structural) --------------------------------------------------
pub trait VxHas<T> {
    spec fn vx_has(&self, x: T) -> bool;
    fn contains(&self, x: &T) -> (r: bool)
        ensures r == self.vx_has(*x);
}
impl<T> VxHas<T> for Vec<T> {
    open spec fn vx_has(&self, x: T) -> bool { self@.contains(x) }
    #[verifier::external_body]
    fn contains(&self, x: &T) -> (r: bool) { unimplemented!() }
}

impl<'a, T> VxIter<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == Seq::new(self.rest().len(), |i: int| *self.rest()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == Seq::new(self.rest().len(), |i: int| *self.rest()[i]),
    { unimplemented!() }
}

#[verifier::external_body]
pub fn once<T>(x: T) -> (r: VxIter<T>)
    ensures r.pos() == 0, r.seq() == seq![x],
{ unimplemented!() }

pub open spec fn refs<T>(s: Seq<T>) -> Seq<&'static T> { Seq::new(s.len(), |i: int| &s[i]) }

pub trait IntoVx: Sized {
    type Item;
    spec fn vx_seq(self) -> Seq<Self::Item>;
    fn vx_into(self) -> (r: VxIter<Self::Item>)
        ensures r.seq() == self.vx_seq(), r.pos() == 0;
}
impl<T> IntoVx for VxIter<T> {
    type Item = T;
    open spec fn vx_seq(self) -> Seq<T> { self.rest() }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VxIter<T>) { unimplemented!() }
}
impl<T> IntoVx for Vec<T> {
    type Item = T;
    open spec fn vx_seq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VxIter<T>) { unimplemented!() }
}
impl<'a, T> IntoVx for &'a Vec<T> {
    type Item = &'a T;
    open spec fn vx_seq(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<'a, T> IntoVx for &'a [T] {
    type Item = &'a T;
    open spec fn vx_seq(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl IntoVx for std::ops::Range<usize> {
    type Item = usize;
    open spec fn vx_seq(self) -> Seq<usize> {
        Seq::new(if self.end >= self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize)
    }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VxIter<usize>) { unimplemented!() }
}
impl IntoVx for std::ops::Range<u32> {
    type Item = u32;
    open spec fn vx_seq(self) -> Seq<u32> {
        Seq::new(if self.end >= self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as u32)
    }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VxIter<u32>) { unimplemented!() }
}

pub struct RangeInclusive<T> { pub start: T, pub end: T }
impl<T> RangeInclusive<T> {
    pub fn new(start: T, end: T) -> (r: Self)
        ensures r.start == start, r.end == end,
    { RangeInclusive { start, end } }
    pub fn start(&self) -> (r: &T)
        ensures *r == self.start,
    { &self.start }
    pub fn end(&self) -> (r: &T)
        ensures *r == self.end,
    { &self.end }
}
impl RangeInclusive<u32> {
    pub fn contains(&self, x: &u32) -> (r: bool)
        ensures r == (self.start <= *x <= self.end),
    { self.start <= *x && *x <= self.end }
}
impl IntoVx for RangeInclusive<usize> {
    type Item = usize;
    open spec fn vx_seq(self) -> Seq<usize> {
        Seq::new(if self.end >= self.start { (self.end - self.start + 1) as nat } else { 0 }, |i: int| (self.start + i) as usize)
    }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VxIter<usize>) { unimplemented!() }
}

pub trait VxIterable {
    type It;
    spec fn vx_it_seq(&self) -> Seq<&Self::It>;
    fn vx_iter(&self) -> (r: VxIter<&Self::It>)
        ensures r.seq() == self.vx_it_seq(), r.pos() == 0;
}
impl<T> VxIterable for Vec<T> {
    type It = T;
    open spec fn vx_it_seq(&self) -> Seq<&T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
}
impl<T> VxIterable for [T] {
    type It = T;
    open spec fn vx_it_seq(&self) -> Seq<&T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
}

// ---- sub-slices -----------------------------------------------------------------------------------
pub trait VxRange {
    type S: ?Sized;
    spec fn vx_range_ok(&self, a: usize, b: usize) -> bool;
    spec fn vx_range_is(&self, a: usize, b: usize, r: &Self::S) -> bool;
    spec fn vx_range_end(&self) -> usize;
    fn vx_range(&self, a: usize, b: usize) -> (r: &Self::S)
        requires self.vx_range_ok(a, b),
        ensures self.vx_range_is(a, b, r);
    fn vx_range_from(&self, a: usize) -> (r: &Self::S)
        requires self.vx_range_ok(a, self.vx_range_end()),
        ensures self.vx_range_is(a, self.vx_range_end(), r);
}
impl<T> VxRange for [T] {
    type S = [T];
    open spec fn vx_range_ok(&self, a: usize, b: usize) -> bool { a <= b <= self@.len() }
    open spec fn vx_range_is(&self, a: usize, b: usize, r: &[T]) -> bool { r@ == self@.subrange(a as int, b as int) }
    open spec fn vx_range_end(&self) -> usize { self@.len() as usize }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_range_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
}
impl<T> VxRange for Vec<T> {
    type S = [T];
    open spec fn vx_range_ok(&self, a: usize, b: usize) -> bool { a <= b <= self@.len() }
    open spec fn vx_range_is(&self, a: usize, b: usize, r: &[T]) -> bool { r@ == self@.subrange(a as int, b as int) }
    open spec fn vx_range_end(&self) -> usize { self@.len() as usize }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_range_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
}
// strings: byte offset of the i-th character
pub open spec fn vx_utf8(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
pub open spec fn vx_boff(s: Seq<char>, i: nat) -> nat
    decreases i,
{ if i == 0 || i > s.len() { 0 } else { vx_boff(s, (i - 1) as nat) + vx_utf8(s[i - 1]) } }
impl VxRange for str {
    type S = str;
    open spec fn vx_range_ok(&self, a: usize, b: usize) -> bool {
        exists|i: nat, j: nat| i <= j <= self@.len() && a == #[trigger] vx_boff(self@, i) && b == #[trigger] vx_boff(self@, j)
    }
    open spec fn vx_range_is(&self, a: usize, b: usize, r: &str) -> bool {
        forall|i: nat, j: nat| i <= j <= self@.len() && a == #[trigger] vx_boff(self@, i) && b == #[trigger] vx_boff(self@, j)
            ==> r@ == self@.subrange(i as int, j as int)
    }
    open spec fn vx_range_end(&self) -> usize { vx_boff(self@, self@.len()) as usize }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_range_from(&self, a: usize) -> (r: &str) { unimplemented!() }
}
pub trait VxStr {
    spec fn vx_s(&self) -> Seq<char>;
    fn vx_char_indices(&self) -> (r: VxIter<(usize, char)>)
        ensures r.pos() == 0, vx_boff(self.vx_s(), self.vx_s().len()) <= isize::MAX, self.vx_s().len() <= isize::MAX,
            r.seq() == Seq::new(self.vx_s().len(), |i: int| (vx_boff(self.vx_s(), i as nat) as usize, self.vx_s()[i]));
    // str::len: bytes (a str is never longer than isize::MAX bytes)
    fn vx_len(&self) -> (r: usize)
        ensures r == vx_boff(self.vx_s(), self.vx_s().len());
    fn vx_chars(&self) -> (r: VxIter<char>)
        ensures r.pos() == 0, r.seq() == self.vx_s(), self.vx_s().len() <= isize::MAX, vx_boff(self.vx_s(), self.vx_s().len()) <= isize::MAX;
}
impl VxStr for str {
    open spec fn vx_s(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_char_indices(&self) -> (r: VxIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { unimplemented!() }
}

// ---- slice::binary_search_by_key, for u32 keys -----------------------------------------------------
pub open spec fn key_lt<T, F: Fn(&T) -> u32>(f: F, x: T, k: u32) -> bool { exists|a: u32| #[trigger] call_ensures(f, (&x,), a) && a < k }
pub open spec fn key_gt<T, F: Fn(&T) -> u32>(f: F, x: T, k: u32) -> bool { exists|a: u32| #[trigger] call_ensures(f, (&x,), a) && a > k }
pub trait VxSearch {
    type El;
    spec fn vx_els(&self) -> Seq<Self::El>;
    fn vx_binary_search_by_key<F: Fn(&Self::El) -> u32>(&self, k: &u32, f: F) -> (r: Result<usize, usize>)
        requires
            forall|i: int| 0 <= i < self.vx_els().len() ==> call_requires(f, (&#[trigger] self.vx_els()[i],)),
            forall|i: int, j: int, a: u32, b: u32| 0 <= i < j < self.vx_els().len() && #[trigger] call_ensures(f, (&self.vx_els()[i],), a)
                && #[trigger] call_ensures(f, (&self.vx_els()[j],), b) ==> a <= b,
        ensures
            r matches Ok(i) ==> i < self.vx_els().len() && call_ensures(f, (&self.vx_els()[i as int],), *k),
            r matches Err(i) ==> i <= self.vx_els().len()
                && (forall|j: int| 0 <= j < i ==> key_lt(f, #[trigger] self.vx_els()[j], *k))
                && (forall|j: int| i <= j < self.vx_els().len() ==> key_gt(f, #[trigger] self.vx_els()[j], *k));
}
impl<T> VxSearch for Vec<T> {
    type El = T;
    open spec fn vx_els(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_binary_search_by_key<F: Fn(&T) -> u32>(&self, k: &u32, f: F) -> (r: Result<usize, usize>) { unimplemented!() }
}

// ---- sorting --------------------------------------------------------------------------------------
pub struct Reverse<T>(pub T);
pub trait VxOrd: Sized { spec fn vx_le(self, o: Self) -> bool; }
impl VxOrd for usize { open spec fn vx_le(self, o: usize) -> bool { self <= o } }
impl<T: VxOrd> VxOrd for Reverse<T> { open spec fn vx_le(self, o: Reverse<T>) -> bool { o.0.vx_le(self.0) } }
// b lists the elements of a in another order
pub open spec fn vx_perm_by<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool {
    p.len() == a.len() && b.len() == a.len() && p.no_duplicates()
        && (forall|i: int| #[trigger] p.contains(i) <==> 0 <= i < a.len())
        && (forall|i: int| 0 <= i < p.len() ==> 0 <= p[i] < a.len() && #[trigger] b[i] == a[p[i]])
}
pub open spec fn key_le<T, K: VxOrd, F: FnMut(&T) -> K>(f: F, x: T, y: T) -> bool {
    exists|a: K, b: K| #[trigger] call_ensures(f, (&x,), a) && #[trigger] call_ensures(f, (&y,), b) && a.vx_le(b)
}
pub trait VxSort {
    type El;
    spec fn vx_sels(&self) -> Seq<Self::El>;
    fn vx_sort_by_key<K: VxOrd, F: FnMut(&Self::El) -> K>(&mut self, f: F)
        requires
            forall|i: int| 0 <= i < old(self).vx_sels().len() ==> call_requires(f, (&#[trigger] old(self).vx_sels()[i],)),
        ensures
            exists|p: Seq<int>| #[trigger] vx_perm_by(old(self).vx_sels(), final(self).vx_sels(), p),
            forall|i: int, j: int| 0 <= i < j < final(self).vx_sels().len() ==> key_le(f, #[trigger] final(self).vx_sels()[i], #[trigger] final(self).vx_sels()[j]);
}
impl<T> VxSort for Vec<T> {
    type El = T;
    open spec fn vx_sels(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sort_by_key<K: VxOrd, F: FnMut(&T) -> K>(&mut self, f: F) { unimplemented!() }
}

// ---- collect ------------------------------------------------------------------------------------
pub trait VxFromVec<T>: Sized {
    spec fn vx_from(s: Seq<T>, r: Self) -> bool;
    fn vx_from_vec(v: Vec<T>) -> (r: Self)
        ensures Self::vx_from(v@, r);
}
impl<T> VxFromVec<T> for Vec<T> {
    open spec fn vx_from(s: Seq<T>, r: Self) -> bool { r@ == s }
    fn vx_from_vec(v: Vec<T>) -> (r: Self) { v }
}

// ---- std::collections::BTreeSet / HashSet -------------------------------------------------------
// iteration order of an ordered container; only its being a duplicate-free listing is assumed here
pub uninterp spec fn vx_order<T>(s: Set<T>) -> Seq<T>;
#[verifier::external_body]
pub broadcast proof fn axiom_vx_order<T>(s: Set<T>)
    ensures
        (#[trigger] vx_order(s)).no_duplicates(),
        vx_order(s).len() == s.len(),
        forall|x: T| #[trigger] vx_order(s).contains(x) == s.contains(x),
        forall|i: int| 0 <= i < vx_order(s).len() ==> s.contains(#[trigger] vx_order(s)[i]),
{ }
// ordered containers of characters list them in code point order
#[verifier::external_body]
pub broadcast proof fn axiom_vx_order_char(s: Set<char>)
    ensures
        chars_sorted(#[trigger] vx_order(s)),
{ }
pub open spec fn chars_sorted(o: Seq<char>) -> bool {
    forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i] as u32) < (#[trigger] o[j] as u32)
}
pub broadcast group vx_axioms { axiom_vx_order, axiom_vx_order_char }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { t: std::marker::PhantomData<T> }
impl<T> View for BTreeSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> BTreeSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<T>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: &T) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool)
        ensures r == self@.contains(*x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ == Set::<T>::empty()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_extend<I: IntoVx<Item = T>>(&mut self, it: I)
        ensures final(self)@ == old(self)@.union(it.vx_seq().to_set()),
    { unimplemented!() }
}
impl<T> VxIterable for BTreeSet<T> {
    type It = T;
    open spec fn vx_it_seq(&self) -> Seq<&T> { Seq::new(vx_order(self@).len(), |i: int| &vx_order(self@)[i]) }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
}
impl<'a, T> IntoVx for &'a BTreeSet<T> {
    type Item = &'a T;
    open spec fn vx_seq(self) -> Seq<&'a T> { Seq::new(vx_order(self@).len(), |i: int| &vx_order(self@)[i]) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<T> IntoVx for BTreeSet<T> {
    type Item = T;
    open spec fn vx_seq(self) -> Seq<T> { vx_order(self@) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VxIter<T>) { unimplemented!() }
}
impl<T> VxFromVec<T> for BTreeSet<T> {
    open spec fn vx_from(s: Seq<T>, r: Self) -> bool { r@ == s.to_set() }
    #[verifier::external_body]
    fn vx_from_vec(v: Vec<T>) -> (r: Self) { unimplemented!() }
}
// set equality is content equality
impl<T> PartialEqSpecImpl for BTreeSet<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl<T> PartialEq for BTreeSet<T> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}

// ---- std::collections::BTreeMap / HashMap -------------------------------------------------------
// lookup by a borrowed form of the key
pub trait VxKey<Q: ?Sized>: Sized { spec fn vx_key(q: &Q) -> Self; }
impl<T> VxKey<T> for T { open spec fn vx_key(q: &T) -> T { *q } }
impl<'a> VxKey<str> for &'a str { open spec fn vx_key(q: &str) -> &'a str { q } }
// a str is its text
#[verifier::external_body]
pub proof fn axiom_str_text(a: &str, b: &str)
    ensures a@ == b@ ==> a == b,
{ }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { t: std::marker::PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<V>) where K: VxKey<Q>
        ensures
            final(self)@ == old(self)@.remove(K::vx_key(k)),
            r == (if old(self)@.contains_key(K::vx_key(k)) { Some(old(self)@[K::vx_key(k)]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: ?Sized>(&self, k: &Q) -> (r: Option<&V>) where K: VxKey<Q>
        ensures
            self@.contains_key(K::vx_key(k)) ==> r == Some(&self@[K::vx_key(k)]),
            !self@.contains_key(K::vx_key(k)) ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>) where K: VxKey<Q>
        ensures
            old(self)@.contains_key(K::vx_key(k)) ==> r is Some && *r->0 == old(self)@[K::vx_key(k)] && final(self)@ == old(self)@.insert(K::vx_key(k), *final(r->0)),
            !old(self)@.contains_key(K::vx_key(k)) ==> r is None && final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: ?Sized>(&self, k: &Q) -> (r: bool) where K: VxKey<Q>
        ensures r == self@.contains_key(K::vx_key(k)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ == Map::<K, V>::empty()),
    { unimplemented!() }
    // map.entry(k).or_insert(v)
    #[verifier::external_body]
    pub fn vx_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures
            *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VxIter<&K>)
        ensures r.pos() == 0, r.seq() == Seq::new(vx_order(self@.dom()).len(), |i: int| &vx_order(self@.dom())[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: VxIter<&V>)
        ensures r.pos() == 0, r.seq() == Seq::new(vx_order(self@.dom()).len(), |i: int| &self@[vx_order(self@.dom())[i]]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VxIter<(&K, &V)>)
        ensures r.pos() == 0, r.seq() == Seq::new(vx_order(self@.dom()).len(), |i: int| (&vx_order(self@.dom())[i], &self@[vx_order(self@.dom())[i]])),
    { unimplemented!() }
}
impl<'a, K, V> IntoVx for &'a BTreeMap<K, V> {
    type Item = (&'a K, &'a V);
    open spec fn vx_seq(self) -> Seq<(&'a K, &'a V)> { Seq::new(vx_order(self@.dom()).len(), |i: int| (&vx_order(self@.dom())[i], &self@[vx_order(self@.dom())[i]])) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VxIter<(&'a K, &'a V)>) { unimplemented!() }
}
impl<K, V> IntoVx for BTreeMap<K, V> {
    type Item = (K, V);
    open spec fn vx_seq(self) -> Seq<(K, V)> { Seq::new(vx_order(self@.dom()).len(), |i: int| (vx_order(self@.dom())[i], self@[vx_order(self@.dom())[i]])) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VxIter<(K, V)>) { unimplemented!() }
}
// collecting pairs: the last pair of a key wins
pub open spec fn pairs_to_map<K, V>(s: Seq<(K, V)>) -> Map<K, V>
    decreases s.len(),
{ if s.len() == 0 { Map::empty() } else { pairs_to_map(s.drop_last()).insert(s.last().0, s.last().1) } }
impl<K, V> VxFromVec<(K, V)> for BTreeMap<K, V> {
    open spec fn vx_from(s: Seq<(K, V)>, r: Self) -> bool { r@ == pairs_to_map(s) }
    #[verifier::external_body]
    fn vx_from_vec(v: Vec<(K, V)>) -> (r: Self) { unimplemented!() }
}
pub type HashMap<K, V> = BTreeMap<K, V>;
pub type HashSet<T> = BTreeSet<T>;

} // verus!
} // mod vxp
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use crate::vxp::*;
use std::num::TryFromIntError;
