//@include prelude.rs
//@include pre_graph.rs
verus! {
global size_of usize == 8;
broadcast use {vx_axioms, vx_graph_axioms};
//@include inc_nfa.rs
//@include inc_dfa.rs
//@include inc_drun.rs
//@include inc_powerset.rs
//@include inc_convert.rs
} // verus!
fn main() {}
