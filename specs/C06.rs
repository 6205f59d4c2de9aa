//@include prelude.rs
verus! {
global size_of usize == 8;
broadcast use vx_axioms;
//@include inc_grammar.rs
//@include inc_toktypes.rs
//@include inc_ruleset.rs
//@include inc_builder.rs
} // verus!
fn main() {}
