//@include prelude.rs
//@include pre_graph.rs
//@include pre_stage.rs
//@include pre_ptr.rs
verus! {
global size_of usize == 8;
broadcast use {vx_axioms, vx_graph_axioms};
//@import inc_nfa.rs C02
//@include inc_drun.rs
//@import inc_dfa.rs C03
//@type lapex-input/src/lib.rs Characters
//@type lapex-input/src/lib.rs Pattern
//@type lapex-input/src/lib.rs TokenPattern
//@type lapex-input/src/lib.rs TokenRule
//@include inc_rlexer.rs
} // verus!
fn main() {}
