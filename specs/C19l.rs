//@include prelude.rs
//@include pre_cpp.rs
verus! {
global size_of usize == 8;
broadcast use vx_axioms;
//@include inc_grammar.rs
//@import inc_first.rs C07
//@import inc_first_fns.rs C07
//@import inc_follow.rs C07
//@import inc_follow_fns.rs C07
//@import inc_lltable.rs C08
//@include inc_cppnames.rs
//@include inc_cppll.rs
} // verus!
fn main() {}
