// Writers and written texts, for code that writes program text: contracts of write! and writeln!. A writer is
// the text written to it so far; what it holds after a failed write is unspecified.
pub mod vxo {
use vstd::prelude::*;
use crate::vxp::*;
verus! {
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { t: u8 }
#[verifier::external_body]
pub struct VxOut { t: u8 }
impl VxOut { pub uninterp spec fn text(&self) -> Seq<char>; }
// a number in decimal, a text as {:?} shows it
pub uninterp spec fn dec(n: nat) -> Seq<char>;
pub uninterp spec fn dbgt<D>(d: D) -> Seq<char>;
pub trait VxDisp { spec fn shown(&self) -> Seq<char>; }
impl VxDisp for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxDisp for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxDisp for u16 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxDisp for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxDisp for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl<D: VxDisp + ?Sized> VxDisp for &D { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body]
pub struct VxText { t: u8 }
impl VxText {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.t() == Seq::<char>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(self, s: &str) -> (r: Self)
        ensures r.t() == self.t() + s@, self.t().len() == 0 ==> r.t() == s@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<D: VxDisp + ?Sized>(self, d: &D) -> (r: Self)
        ensures r.t() == self.t() + d.shown(), self.t().len() == 0 ==> r.t() == d.shown(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn dbg<D>(self, d: &D) -> (r: Self)
        ensures r.t() == self.t() + dbgt(*d), self.t().len() == 0 ==> r.t() == dbgt(*d),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_write(w: &mut VxOut, t: VxText) -> (r: Result<(), Error>)
    ensures r is Ok ==> final(w).text() == old(w).text() + t.t(),
{ unimplemented!() }
// format!
pub uninterp spec fn fmt1(f: &str, a: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_fmt1<D: VxDisp + ?Sized>(f: &str, a: &D) -> (r: String)
    ensures r@ == fmt1(f, a.shown()),
{ unimplemented!() }
pub uninterp spec fn joined<T>(v: Seq<T>, s: &str) -> Seq<char>;
pub trait VxJoin { spec fn jn(&self, s: &str) -> Seq<char>; fn vx_join(&self, s: &str) -> (r: String) ensures r@ == self.jn(s); }
impl<T> VxJoin for Vec<T> {
    open spec fn jn(&self, s: &str) -> Seq<char> { joined(self@, s) }
    #[verifier::external_body]
    fn vx_join(&self, s: &str) -> (r: String) { unimplemented!() }
}
// include_str!
#[verifier::external_body]
pub fn vx_file(name: &'static str) -> (r: &'static str) { unimplemented!() }
// lapex-codegen's templates (C14)
#[verifier::external_body]
pub struct Template<'a> { t: &'a u8 }
impl<'a> Template<'a> {
    #[verifier::external_body]
    pub fn new(t: &'a str) -> (r: Self) { unimplemented!() }
}
pub broadcast proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] (a + (b + c)) == a + b + c,
{ assert(a + (b + c) =~= a + b + c); }
} // verus!
}
pub use vxo::*;
