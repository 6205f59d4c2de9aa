//@include prelude.rs
//@include pre_graph.rs
verus! {
global size_of usize == 8;
broadcast use {vx_axioms, vx_graph_axioms};
//@include inc_grammar.rs
//@include inc_first.rs
//@include inc_first_fns.rs
//@include inc_items.rs
//@include inc_closure.rs
//@include inc_glevel.rs
//@include inc_bidi.rs
//@include inc_pgraph.rs
//@include inc_lrauto.rs
//@include inc_lrsteps.rs
//@include inc_lrgraph.rs
} // verus!
fn main() {}
