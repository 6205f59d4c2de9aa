//@include prelude.rs
//@include pre_graph.rs
verus! {
global size_of usize == 8;
broadcast use {vx_axioms, vx_graph_axioms};
//@include inc_grammar.rs
//@import inc_first.rs C07
//@import inc_first_fns.rs C07
//@import inc_items.rs C09
//@import inc_closure.rs C09
//@import inc_glevel.rs C09
//@include inc_bidi.rs
//@import inc_pgraph.rs C10
//@import inc_lrauto.rs C10
//@import inc_lrgraph.rs C10
//@include inc_conflicts.rs
//@import inc_table.rs C12
//@include inc_gen11.rs
} // verus!
fn main() {}
