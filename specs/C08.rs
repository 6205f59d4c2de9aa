//@include prelude.rs
verus! {
global size_of usize == 8;
broadcast use vx_axioms;
//@include inc_grammar.rs
//@include inc_first.rs
//@include inc_first_fns.rs
//@include inc_follow.rs
//@include inc_follow_fns.rs
//@include inc_lltable.rs
} // verus!
fn main() {}
