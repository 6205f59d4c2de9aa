//@include prelude.rs
verus! {
global size_of usize == 8;
broadcast use vx_axioms;

//@type lapex-input/src/lib.rs SourcePos
//@type lapex-input/src/lib.rs SourceSpan
//@type lapex-input/src/lib.rs Spanned
//@include inc_toktypes.rs
//@type lapex-lexer/src/alphabet.rs Alphabet

//@include inc_alphabet.rs

//@include inc_genalpha.rs
//@include inc_alpha_fns.rs
} // verus!
fn main() {}
