// Writers, written texts, substitutions as function values, regular-expression matches: contracts of what the
// templating code calls. A writer is the log of what it was asked to do.
pub mod vxo {
use vstd::prelude::*;
use crate::vxp::*;
verus! {
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { t: u8 }
// a character written; a function value run on the writer, with its result; a write that failed
pub enum Ev { Ch(char), Ran(int, Result<(), Error>), Failed(Error) }
pub open spec fn chars(t: Seq<char>) -> Seq<Ev> { Seq::new(t.len(), |i: int| Ev::Ch(t[i])) }
// l1 is l0 followed by what was to be done; on an error, by what came before the failing step and that step
pub open spec fn halted(l0: Seq<Ev>, want: Seq<Ev>, l1: Seq<Ev>, e: Error, k: nat) -> bool {
    k <= want.len() && (l1 == (l0 + want.take(k as int)).push(Ev::Failed(e))
        || (k < want.len() && want[k as int] is Ran && l1 == (l0 + want.take(k as int)).push(Ev::Ran(want[k as int]->Ran_0, Err(e)))))
}
pub open spec fn did(l0: Seq<Ev>, want: Seq<Ev>, l1: Seq<Ev>, r: Result<(), Error>) -> bool {
    match r { Ok(_) => l1 == l0 + want, Err(e) => exists|k: nat| #[trigger] halted(l0, want, l1, e, k) }
}
#[verifier::external_body]
pub struct VxOut { t: u8 }
impl VxOut { pub uninterp spec fn log(&self) -> Seq<Ev>; }
// the text a write! produces
pub trait VxDisp { spec fn shown(&self) -> Seq<char>; }
impl VxDisp for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<D: VxDisp + ?Sized> VxDisp for &D { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body]
pub struct VxText { t: u8 }
impl VxText {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.t() == Seq::<char>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(self, s: &str) -> (r: Self)
        ensures r.t() == self.t() + s@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<D: VxDisp + ?Sized>(self, d: &D) -> (r: Self)
        ensures r.t() == self.t() + d.shown(), self.t().len() == 0 ==> r.t() == d.shown(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_write(w: &mut VxOut, t: VxText) -> (r: Result<(), Error>)
    ensures did(old(w).log(), chars(t.t()), final(w).log(), r),
{ unimplemented!() }
// Box<dyn Fn(&mut dyn Write) -> Result<(), Error>>
#[verifier::external_body]
pub struct VxSub<'a> { t: &'a u8 }
pub uninterp spec fn fid<F>(f: F) -> int;
impl<'a> VxSub<'a> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn of<F: Fn(&mut VxOut) -> Result<(), Error> + 'a>(f: F) -> (r: Self)
        ensures r.id() == fid(f),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_call(&self, w: &mut VxOut) -> (r: Result<(), Error>)
        ensures final(w).log() == old(w).log().push(Ev::Ran(self.id(), r)),
    { unimplemented!() }
}
// Box<dyn Fn(&'static str) -> Result<Box<dyn Write>, Error>> (the writer it hands over is owned)
#[verifier::external_body]
pub struct VxOpen<'a> { t: &'a u8 }
impl<'a> VxOpen<'a> {
    pub uninterp spec fn gives(&self, key: &'static str, r: Result<VxOut, Error>) -> bool;
    #[verifier::external_body]
    pub fn of<F: Fn(&'static str) -> Result<VxOut, Error> + 'a>(f: F) -> (r: Self)
        requires forall|k: &'static str| #[trigger] f.requires((k,)),
        ensures forall|k: &'static str, o: Result<VxOut, Error>| #[trigger] r.gives(k, o) ==> f.ensures((k,), o),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_call(&self, key: &'static str) -> (r: Result<VxOut, Error>)
        ensures self.gives(key, r),
    { unimplemented!() }
}
// std::io::sink
#[verifier::external_body]
pub fn sink() -> VxOut { unimplemented!() }
pub uninterp spec fn trimmed(t: Seq<char>) -> Seq<char>;
pub trait VxTrim { spec fn vx_tt(&self) -> Seq<char>; fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.vx_tt()); }
impl VxTrim for str {
    open spec fn vx_tt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { unimplemented!() }
}

// ---- crate regex: the matches of an expression in a text, left to right, without overlap; places in characters
#[verifier::external_body]
pub struct Match<'h> { t: &'h u8 }
impl<'h> Match<'h> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn span(&self) -> (nat, nat);
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize)
        ensures r == vx_boff(self.text(), self.span().0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize)
        ensures r == vx_boff(self.text(), self.span().1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'h str)
        ensures r@ == self.text().subrange(self.span().0 as int, self.span().1 as int),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Captures { t: u8 }
impl Captures {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn grp(&self, n: nat) -> Option<(nat, nat)>;
    #[verifier::external_body]
    pub fn get<'h>(&'h self, n: usize) -> (r: Option<Match<'h>>)
        ensures match self.grp(n as nat) { Some(s) => r is Some && r->0.text() == self.text() && r->0.span() == s, None => r is None },
    { unimplemented!() }
}
pub open spec fn at0(c: Captures) -> (nat, nat) { c.grp(0)->0 }
pub open spec fn ordered(t: Seq<char>, ms: Seq<Captures>) -> bool {
    (forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() ==> ms[i].text() == t && ms[i].grp(0) is Some && at0(ms[i]).0 <= at0(ms[i]).1 <= t.len())
        && forall|i: int, j: int| #![trigger ms[i], ms[j]] 0 <= i < j < ms.len() ==> at0(ms[i]).1 <= at0(ms[j]).0
}
#[verifier::external_body]
pub struct Regex { t: u8 }
impl Regex {
    pub uninterp spec fn finds(&self, t: Seq<char>) -> Seq<Captures>;
    #[verifier::external_body]
    pub fn captures_iter(&self, t: &str) -> (r: VxIter<Captures>)
        ensures r.pos() == 0, r.seq() == self.finds(t@), ordered(t@, self.finds(t@)), vx_boff(t@, t@.len()) <= isize::MAX,
    { unimplemented!() }
}
// /*{ .. }*/, the shortest, on one line
pub open spec fn opens(t: Seq<char>, i: nat) -> bool { i + 3 <= t.len() && t[i as int] == '/' && t[i as int + 1] == '*' && t[i as int + 2] == '{' }
pub open spec fn closes(t: Seq<char>, i: nat) -> bool { i + 3 <= t.len() && t[i as int] == '}' && t[i as int + 1] == '*' && t[i as int + 2] == '/' }
pub open spec fn close_from(t: Seq<char>, i: nat) -> Option<nat>
    decreases t.len() - i,
{
    if closes(t, i) { Some(i) } else if i >= t.len() || t[i as int] == '\n' { None } else { close_from(t, i + 1) }
}
pub open spec fn marks(t: Seq<char>, i: nat) -> Seq<(nat, nat)>
    decreases t.len() - i,
{
    if i >= t.len() { Seq::empty() }
    else if opens(t, i) && close_from(t, i + 3) is Some && i + 3 <= close_from(t, i + 3)->0 && close_from(t, i + 3)->0 + 3 <= t.len() {
        seq![(i, close_from(t, i + 3)->0 + 3)] + marks(t, close_from(t, i + 3)->0 + 3)
    } else { marks(t, i + 1) }
}
pub open spec fn marker(x: Regex) -> bool {
    forall|t: Seq<char>| {
        &&& (#[trigger] x.finds(t)).len() == marks(t, 0).len()
        &&& forall|i: int| #![trigger x.finds(t)[i]] 0 <= i < marks(t, 0).len() ==> {
            &&& x.finds(t)[i].text() == t
            &&& x.finds(t)[i].grp(0) == Some(marks(t, 0)[i])
            &&& x.finds(t)[i].grp(1) == Some(((marks(t, 0)[i].0 + 3) as nat, (marks(t, 0)[i].1 - 3) as nat))
        }
    }
}
// Regex::new of the expression the code has: `\/\*\{(.*?)\}\*\/`
#[verifier::external_body]
pub fn vx_marker_regex() -> (r: Result<Regex, Error>)
    ensures r is Ok, marker(r->Ok_0),
{ unimplemented!() }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Lazy<T> { t: std::marker::PhantomData<T> }
impl<T> Lazy<T> {
    pub uninterp spec fn val(&self) -> T;
    #[verifier::external_body]
    pub fn new<F: Fn() -> T>(f: F) -> (r: Self)
        requires f.requires(()),
        ensures f.ensures((), r.val()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_force(&self) -> (r: &T)
        ensures *r == self.val(),
    { unimplemented!() }
}
} // verus!
}
pub use vxo::*;
