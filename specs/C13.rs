//@include prelude.rs
verus! {
global size_of usize == 8;
broadcast use vx_axioms;

//@type lapex-input/src/lib.rs SourcePos
//@type lapex-input/src/lib.rs SourceSpan

//@include inc_linecol.rs
//@include inc_spans.rs
} // verus!
fn main() {}
