//@include prelude.rs
//@include pre_graph.rs
verus! {
global size_of usize == 8;
broadcast use {vx_axioms, vx_graph_axioms};
//@include inc_grammar.rs
//@include inc_nfa.rs
//@include inc_toktypes.rs
//@type lapex-lexer/src/alphabet.rs Alphabet
//@include inc_alphabet.rs
//@include inc_thompson.rs
//@include inc_build.rs
//@include inc_alpha_fns.rs
//@include inc_buildfns.rs
//@include inc_gennfa.rs
} // verus!
fn main() {}
