//@include prelude.rs
//@include pre_graph.rs
//@include pre_stage.rs
//@include pre_ptr.rs
verus! {
global size_of usize == 8;
broadcast use {vx_axioms, vx_graph_axioms};
//@include inc_grammar.rs
//@import inc_first.rs C07
//@import inc_first_fns.rs C07
//@import inc_items.rs C09
//@import inc_closure.rs C09
//@import inc_glevel.rs C09
//@include inc_bidi.rs
//@import inc_pgraph.rs C10
//@import inc_lrauto.rs C10
//@import inc_lrgraph.rs C10
//@import inc_conflicts.rs C11
//@import inc_table.rs C12
//@include inc_rparser.rs
//@import inc_single.rs C12
//@include inc_lrthm.rs
//@import inc_gen12.rs C12
//@include inc_rpgen.rs
} // verus!
fn main() {}
