//@include prelude.rs
verus! {
global size_of usize == 8;
broadcast use vx_axioms;

//@type lapex-input/src/lib.rs Characters
//@type lapex-input/src/lib.rs Pattern
//@type lapex-input/src/lib.rs TokenPattern
//@type lapex-input/src/lib.rs TokenRule

// ---- the property: precedence of a rule ---------------------------------------------------------
pub open spec fn prec(p: Pattern) -> nat
    decreases p,
{
    match p {
        Pattern::Sequence { elements } => prec_sum(elements@, elements@.len()),
        Pattern::Alternative { elements } => prec_min(elements@, elements@.len()),
        Pattern::Repetition { min, max, inner } => (min as nat) * prec(*inner),
        Pattern::CharSet { chars, negated } => 1,
        Pattern::Char { chars } => 1,
    }
}
pub open spec fn prec_sum(s: Seq<Pattern>, n: nat) -> nat
    decreases s, n,
{
    if n == 0 || n > s.len() { 0 } else { prec_sum(s, (n - 1) as nat) + prec(s[n - 1]) }
}
pub open spec fn prec_min(s: Seq<Pattern>, n: nat) -> nat
    decreases s, n,
{
    if n == 0 || n > s.len() { 0 }
    else if n == 1 { prec(s[0]) }
    else if prec(s[n - 1]) < prec_min(s, (n - 1) as nat) { prec(s[n - 1]) }
    else { prec_min(s, (n - 1) as nat) }
}
pub open spec fn rule_prec(r: TokenRule) -> nat {
    match r.precedence {
        Some(p) => p as nat,
        None => match r.pattern {
            TokenPattern::Literal { characters } => 2 * characters@.len(),
            TokenPattern::Pattern { pattern } => prec(pattern),
        },
    }
}

// A pattern as the front ends build it: alternatives have an alternative, and precedences stay in usize.
pub open spec fn wf(p: Pattern) -> bool
    decreases p,
{
    prec(p) <= usize::MAX && match p {
        Pattern::Sequence { elements } => forall|i: int| 0 <= i < elements@.len() ==> wf(#[trigger] elements@[i]),
        Pattern::Alternative { elements } => elements@.len() > 0 && forall|i: int| 0 <= i < elements@.len() ==> wf(#[trigger] elements@[i]),
        Pattern::Repetition { min, max, inner } => wf(*inner),
        _ => true,
    }
}

pub proof fn lemma_sum_mono(s: Seq<Pattern>, i: nat, j: nat)
    requires i <= j <= s.len(),
    ensures prec_sum(s, i) <= prec_sum(s, j),
    decreases j,
{
    if i < j { lemma_sum_mono(s, i, (j - 1) as nat); }
}

//@fn lapex-input/src/lib.rs Pattern::precedence
//@spec
    requires wf(*self),
    ensures r == prec(*self),
    decreases *self,
//@loop 0
        invariant
            *self matches Pattern::Sequence { elements: es } && es == *elements && wf(*self),
            it0.seq() == elements.vx_it_seq(), it0.pos() <= it0.seq().len(),
            acc0 == prec_sum(elements@, it0.pos()),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    proof {
        lemma_sum_mono(elements@, it0.pos(), elements@.len());
        assert(*e0 == elements@[it0.pos() - 1]);
    }
//@loop 1
        invariant
            *self matches Pattern::Alternative { elements: es } && es == *elements && wf(*self),
            it1.seq() == elements.vx_it_seq(), it1.pos() <= it1.seq().len(),
            it1.pos() == 0 ==> acc1 is None,
            it1.pos() > 0 ==> acc1 == Some(prec_min(elements@, it1.pos()) as usize) && prec_min(elements@, it1.pos()) <= usize::MAX,
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    proof { assert(*e1 == elements@[it1.pos() - 1]); }
//@end

//@fn lapex-input/src/lib.rs TokenRule::precedence
//@spec
    requires
        self.precedence is None ==> (self.pattern matches TokenPattern::Pattern { pattern } ==> wf(pattern)),
        self.precedence is None ==> (self.pattern matches TokenPattern::Literal { characters } ==> 2 * characters@.len() <= usize::MAX),
    ensures r == rule_prec(*self),
//@end
} // verus!
fn main() {}
