// Files, paths, and the code writers: contracts of what the driver calls. The generated-code writer is the log of
// what was put into it.
pub mod vxd {
use vstd::prelude::*;
use crate::vxp::*;
verus! {
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { t: u8 }
#[verifier::external_body]
pub struct Path { t: u8 }
#[verifier::external_body]
#[derive(Debug)]
pub struct PathBuf { t: u8 }
pub uninterp spec fn joined(a: Seq<char>, b: Seq<char>) -> Seq<char>;
impl Path {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf)
        ensures r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_join(&self, n: &str) -> (r: PathBuf)
        ensures r@ == joined(self@, n@),
    { unimplemented!() }
}
impl PathBuf { pub uninterp spec fn view(&self) -> Seq<char>; }
// the text of the file at a path, if it can be read
pub uninterp spec fn file_text(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn read_error(e: Error, p: Seq<char>) -> bool;
#[verifier::external_body]
pub fn read_to_string(p: &Path) -> (r: Result<String, Error>)
    ensures match r { Ok(s) => file_text(p@) == Some(s@), Err(e) => file_text(p@) is None && read_error(e, p@) },
{ unimplemented!() }
#[verifier::external_body]
pub struct File { t: u8 }
impl File {
    pub uninterp spec fn at(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn create(p: PathBuf) -> (r: Result<File, Error>)
        ensures r matches Ok(f) ==> f.at() == p@,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct BufWriter { t: u8 }
impl BufWriter {
    pub uninterp spec fn at(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(f: File) -> (r: BufWriter)
        ensures r.at() == f.at(),
    { unimplemented!() }
}
// a value's identity, to say which value was handed over
pub uninterp spec fn idof<T: ?Sized>(x: &T) -> int;
#[derive(Structural, PartialEq, Eq, Copy, Clone)]
pub enum OutLang { Cpp, Rust }
// which writer: the lexer's, the LR, LL or GLR parser's, of a language
pub enum Part { Lexer(OutLang), Lr(OutLang), Ll(OutLang), Glr(OutLang) }
pub ghost enum Put {
    Tokens(Part, int),                  // token rules
    Lexer(Part, int, int, int),         // token rules, alphabet ranges, automaton
    Parser(Part, int, int),             // grammar, table
    Text(Seq<char>, Seq<(int, int)>),   // an output of this name: tables printed (grammar, table)
}
// an output a text goes to
#[verifier::external_body]
pub struct VxOut { t: u8 }
impl VxOut { pub uninterp spec fn tables(&self) -> Seq<(int, int)>; }
#[verifier::external_body]
pub struct GeneratedCodeWriter { t: u8 }
impl GeneratedCodeWriter {
    pub uninterp spec fn log(&self) -> Seq<Put>;
    // output `name` is the file of that name in directory d
    pub uninterp spec fn goes(&self, d: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn with_default<F: Fn(&'static str) -> Result<BufWriter, Error>>(f: F) -> (r: Self)
        requires forall|n: &'static str| #[trigger] f.requires((n,)),
        ensures
            r.log() == Seq::<Put>::empty(),
            forall|d: Seq<char>| (forall|n: &'static str, o: BufWriter| #[trigger] f.ensures((n,), Ok(o)) ==> o.at() == joined(d, n@)) ==> #[trigger] r.goes(d),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn generate_code<F: FnOnce(&mut VxOut) -> Result<(), Error>>(&mut self, name: &'static str, f: F) -> (r: Result<(), Error>)
        requires forall|w: &mut VxOut| #[trigger] f.requires((w,)),
        ensures
            forall|d: Seq<char>| old(self).goes(d) ==> #[trigger] final(self).goes(d),
            r is Ok ==> exists|t: Seq<(int, int)>| #[trigger] prints(f, t) && final(self).log() == old(self).log().push(Put::Text(name@, t)),
    { unimplemented!() }
}
// run on a fresh output, f prints the tables t
#[verifier::prophetic]
pub open spec fn prints<F: FnOnce(&mut VxOut) -> Result<(), Error>>(f: F, t: Seq<(int, int)>) -> bool {
    exists|w: &mut VxOut| #[trigger] f.ensures((w,), Ok(())) && (*w).tables() == Seq::<(int, int)>::empty() && final(w).tables() == t
}
// a refusal that ends the program: expect
pub trait VxGot<T> { spec fn got(&self) -> Option<T>; fn vx_got(self, m: &str) -> (r: T) where Self: Sized ensures self.got() == Some(r); }
impl<T, E> VxGot<T> for Result<T, E> {
    open spec fn got(&self) -> Option<T> { match self { Ok(x) => Some(*x), Err(_) => None } }
    #[verifier::external_body]
    fn vx_got(self, m: &str) -> (r: T) { unimplemented!() }
}
// a conversion of a value to its own type
pub trait VxSame: Sized { fn vx_same(self) -> (r: Self) ensures r == self; }
impl<T> VxSame for Vec<T> {
    #[verifier::external_body]
    fn vx_same(self) -> (r: Self) { unimplemented!() }
}
// the texts of an error message: the literal with its hole filled
pub uninterp spec fn vx_txt1(l: Seq<char>, a: Seq<char>) -> Seq<char>;
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_fmt1<A: VxShow>(l: &str, a: &A) -> (r: String)
    ensures r@ == vx_txt1(l@, a.shown()),
{ unimplemented!() }
} // verus!
}
pub use vxd::*;
