// Assumed: what the regular-expression parser (crate regex-syntax) hands over. The declarations mirror
// regex_syntax::hir; which expression a text denotes is that crate's business (uninterpreted here).
pub mod vxh {
use vstd::prelude::*;
use crate::vxp::*;
verus! {
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { t: u8 }
#[verifier::external_body]
#[derive(Debug)]
pub struct Utf8Error { t: u8 }
// the bytes of a literal
#[verifier::external_body]
pub struct VxBytes { t: Vec<u8> }
impl VxBytes {
    // the text they encode, if they are UTF-8
    pub uninterp spec fn decode(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn vx_as_ref(&self) -> (r: &VxBytes)
        ensures r == self,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_from_utf8(b: &VxBytes) -> (r: Result<&str, Utf8Error>)
    ensures match b.decode() { Some(s) => r is Ok && r->Ok_0@ == s, None => r is Err },
{ unimplemented!() }
pub struct Literal(pub VxBytes);
#[derive(Clone, Copy)]
pub struct ClassUnicodeRange { pub vx_lo: char, pub vx_hi: char }
impl ClassUnicodeRange {
    pub fn start(&self) -> (r: char) ensures r == self.vx_lo { self.vx_lo }
    pub fn end(&self) -> (r: char) ensures r == self.vx_hi { self.vx_hi }
}
pub struct ClassUnicode { pub vx_ranges: Vec<ClassUnicodeRange> }
impl ClassUnicode {
    pub fn vx_iter(&self) -> (r: VxIter<&ClassUnicodeRange>)
        ensures r.pos() == 0, r.seq() == Seq::new(self.vx_ranges@.len(), |i: int| &self.vx_ranges@[i]),
    { (&self.vx_ranges).vx_into() }
}
pub struct ClassBytes { pub t: u8 }
pub enum Class { Unicode(ClassUnicode), Bytes(ClassBytes) }
pub struct Look { pub t: u8 }
pub struct Repetition { pub min: u32, pub max: Option<u32>, pub greedy: bool, pub sub: Box<Hir> }
pub struct Capture { pub index: u32, pub sub: Box<Hir> }
pub enum HirKind {
    Empty, Literal(Literal), Class(Class), Look(Look), Repetition(Repetition), Capture(Capture), Concat(Vec<Hir>), Alternation(Vec<Hir>),
}
pub struct Hir { pub vx_kind: HirKind }
impl Hir {
    pub fn kind(&self) -> (r: &HirKind)
        ensures *r == self.vx_kind,
    { &self.vx_kind }
}
pub trait VxUnbox<T> { fn vx_as_ref(&self) -> (r: &T) ensures *r == self.vx_un(); spec fn vx_un(&self) -> T; }
impl<T> VxUnbox<T> for Box<T> {
    open spec fn vx_un(&self) -> T { **self }
    fn vx_as_ref(&self) -> (r: &T) { &**self }
}
// what a text means as a regular expression
pub uninterp spec fn hir_of(s: Seq<char>) -> Option<Hir>;
#[verifier::external_body]
pub fn parse(s: &str) -> (r: Result<Hir, Error>)
    ensures match hir_of(s@) { Some(h) => r is Ok && r->Ok_0 == h, None => r is Err },
{ unimplemented!() }
// the kinds of token of lapex.lapex, as the build writes them (tokens.rs)
#[derive(Clone, Copy, Debug)]
pub enum TokenType {
    EndOfFile, TkKwToken, TkKwEntry, TkKwProd, TkEquals, TkSemi, TkLpar, TkRpar, TkLbrack, TkRbrack, TkDigit, TkQuestion,
    TkNothing, TkAsterisk, TkPlus, TkPipe, TkIdent, TkString, TkRegex, TkWhitespace, TkNewline,
}
// decimal numbers
pub open spec fn isdec(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
pub open spec fn decval(s: Seq<char>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { (decval(s.drop_last()) * 10 + (s.last() as u32 - '0' as u32)) as nat } }
#[verifier::external_body]
#[derive(Debug)]
pub struct ParseIntError { t: u8 }
// str::parse of a number of a type
pub trait VxNum: Sized { spec fn top() -> nat; spec fn val(&self) -> nat; }
impl VxNum for u8 { open spec fn top() -> nat { 255 } open spec fn val(&self) -> nat { *self as nat } }
impl VxNum for u16 { open spec fn top() -> nat { 65535 } open spec fn val(&self) -> nat { *self as nat } }
impl VxNum for u32 { open spec fn top() -> nat { 0xFFFF_FFFF } open spec fn val(&self) -> nat { *self as nat } }
pub trait VxParseNum {
    spec fn vx_t(&self) -> Seq<char>;
    fn vx_parse<T: VxNum>(&self) -> (r: Result<T, ParseIntError>)
        ensures isdec(self.vx_t()) ==> (r is Ok <==> decval(self.vx_t()) <= T::top()) && (r is Ok ==> r->Ok_0.val() == decval(self.vx_t()));
}
impl VxParseNum for str {
    open spec fn vx_t(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_parse<T: VxNum>(&self) -> (r: Result<T, ParseIntError>) { unimplemented!() }
}
// the lexer the build generates from lapex.lapex (what such a lexer does: C02, C12, C15, C16)
#[verifier::external_body]
#[derive(Debug)]
pub struct LexerError { t: u8 }
// the kind of the token that starts at character p, and where it ends
pub uninterp spec fn lexes(s: Seq<char>, p: nat) -> Option<(TokenType, nat)>;
pub open spec fn piece(s: Seq<char>, p: nat, e: nat) -> Seq<char> { s.subrange(p as int, e as int) }
pub open spec fn has_nl(t: Seq<char>) -> bool { exists|i: int| 0 <= i < t.len() && #[trigger] t[i] == '\n' }
// what the rules of lapex.lapex say about the text of a token
pub open spec fn tk_text_ok(k: TokenType, t: Seq<char>) -> bool {
    &&& k is TkNewline ==> t == seq!['\n']
    &&& !(k is TkNewline) ==> !has_nl(t)
    &&& k is TkWhitespace ==> t.len() > 0
    &&& k is TkString ==> t.len() >= 2 && t[0] == '"' && t.last() == '"'
    &&& k is TkRegex ==> t.len() >= 2 && t[0] == '/' && t.last() == '/'
    &&& k is TkDigit ==> isdec(t)
}
#[verifier::external_body]
pub proof fn axiom_lexes(s: Seq<char>, p: nat)
    requires p <= s.len(),
    ensures lexes(s, p) matches Some((k, e)) ==> p <= e <= s.len() && tk_text_ok(k, piece(s, p, e)),
{ }
#[verifier::external_body]
pub struct Lexer<'src> { t: &'src str }
impl<'src> Lexer<'src> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    // the last token lies between these
    pub uninterp spec fn from(&self) -> nat;
    pub uninterp spec fn at(&self) -> nat;
    #[verifier::external_body]
    pub fn new(src: &'src str) -> (r: Self)
        ensures r.src() == src@, r.from() == 0, r.at() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Result<TokenType, LexerError>)
        ensures
            final(self).src() == old(self).src(),
            match lexes(old(self).src(), old(self).at()) {
                Some((k, e)) => r == Ok::<TokenType, LexerError>(k) && final(self).from() == old(self).at() && final(self).at() == e,
                None => r is Err,
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn slice(&self) -> (r: &'src str)
        requires self.from() <= self.at() <= self.src().len(),
        ensures r@ == piece(self.src(), self.from(), self.at()),
    { unimplemented!() }
}
} // verus!
}
pub use vxh::*;
pub use vstd::multiset::Multiset;
