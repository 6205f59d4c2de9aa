//@include prelude.rs
//@include pre_graph.rs
//@include pre_drv.rs
verus! {
global size_of usize == 8;
broadcast use {vx_axioms, vx_graph_axioms};
//@include inc_grammar.rs
//@include inc_linecol.rs
//@include inc_nfa.rs
//@include inc_toktypes.rs
//@include inc_ruleset.rs
//@type lapex-lexer/src/alphabet.rs Alphabet
//@import inc_dfa.rs C03
} // verus!
pub mod lx {
use super::*;
verus! {
broadcast use {vx_axioms, vx_graph_axioms};
//@include inc_alphabet.rs
//@import inc_thompson.rs C02
//@import inc_build.rs C02
//@import inc_genalpha.rs C01
//@import inc_alpha_fns.rs C01
//@import inc_gennfa.rs C02
//@import inc_drun.rs C03
//@import inc_powerset.rs C03
//@import inc_convert.rs C03
//@import inc_prec.rs C04
//@include inc_lexthm.rs
} // verus!
}
pub mod gr {
use super::*;
verus! {
broadcast use {vx_axioms, vx_graph_axioms};
//@import inc_builder.rs C06
} // verus!
}
pub mod ll {
use super::*;
verus! {
broadcast use vx_axioms;
//@import inc_first.rs C07
//@import inc_first_fns.rs C07
//@import inc_follow.rs C08
//@import inc_follow_fns.rs C08
//@import inc_lltable.rs C08
} // verus!
}
pub mod ps {
use super::*;
verus! {
broadcast use {vx_axioms, vx_graph_axioms};
//@import inc_first.rs C07
//@import inc_first_fns.rs C07
//@import inc_items.rs C09
//@import inc_closure.rs C09
//@import inc_glevel.rs C09
//@import inc_bidi.rs C10
//@import inc_pgraph.rs C10
//@import inc_lrauto.rs C10
//@import inc_lrgraph.rs C10
//@import inc_conflicts.rs C11
//@import inc_table.rs C12
//@import inc_single.rs C12
//@import inc_gen12.rs C12
} // verus!
}
pub mod er {
use super::*;
use super::ps::{Item, Conflict, RuleRef};
use super::lx::PrecedenceError;
verus! {
broadcast use vx_axioms;
//@import inc_spans.rs C13
//@include inc_errors.rs
} // verus!
}
pub mod tl {
use super::*;
use super::ps::*;
use super::gr::{gram_of, Names, built, nrules, appended};
use super::er::{placed, tellable, item_span};
verus! {
broadcast use vx_axioms;
//@include inc_told.rs
} // verus!
}
pub mod dv {
use super::*;
use super::ps::{Item, Conflict, ActionGotoTable, GenerationResult, made, small};
use super::lx::*;
use super::gr::{gram_of, Names, all_full};
use super::ll::LLParserTable;
use super::er::*;
use super::tl::{lemma_tellable, lemma_kind, spans_in};
verus! {
broadcast use {vx_axioms, vx_graph_axioms};
//@include inc_driver.rs
} // verus!
}
fn main() {}
