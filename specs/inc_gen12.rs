//@include inc_outcome.rs
// ---- C12: the table that generation returns --------------------------------------------------------------
pub open spec fn tabled<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, r: GenerationResult<'g, 'r, N>) -> bool {
    is_entry(g, en) && is_automaton(g, lalr, en, p) && tidy(g, lalr, en, p) && match r {
        GenerationResult::NoConflicts(t) => table_ok(g, p, t) && single(p.sts().len() as int, t),
        GenerationResult::AllowedConflicts { table, .. } => table_ok(g, p, table),
        GenerationResult::BadConflicts(_) => true,
    }
}
// both: conflicts reported or the table of the automaton
pub open spec fn made<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, allow: bool, r: GenerationResult<'g, 'r, N>) -> bool {
    exists|en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, cs: Set<Conflict<'g, 'r>>| #[trigger] judged(g, lalr, allow, en, p, cs, r) && tabled(g, lalr, en, p, r)
}
//@fn lapex-parser/src/lr_parser/mod.rs generate_table
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires N <= 1, grammar.wf(), small(grammar),
    ensures
        exists|en: Item<'grammar, 'rules, N>, p: ParserGraph<'grammar, 'rules, N>| #[trigger] tabled(grammar, lalr, en, p, r),
        made(grammar, lalr, allow_conflicts, r),
//@at call generate_parser_graph 0 after
    let ghost p = parser_graph;
    let ghost en = choose|en: Item<'grammar, 'rules, N>| is_entry(grammar, en) && #[trigger] is_automaton(grammar, lalr, en, p) && tidy(grammar, lalr, en, p);
    let ghost mut cs = Set::<Conflict<'grammar, 'rules>>::empty();
    proof { lemma_fit(grammar, lalr, en, p); }
//@at loop 0 before
    proof { cs = choose|cs: Set<Conflict<'grammar, 'rules>>| conflicts_exact(p.sts(), p.es(), cs) && it0.seq() == #[trigger] vx_order(cs); }
//@loop 0
        invariant it0.pos() <= it0.seq().len(), it0.seq() == vx_order(cs), acc0@ == it0.seq().take(it0.pos() as int),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 after
    proof {
        assert(acc0@ =~= vx_order(cs));
        if acc0@.len() == 0 { assert forall|c: Conflict<'grammar, 'rules>| !#[trigger] cs.contains(c) by { assert(!vx_order(cs).contains(c)); } }
    }
//@at call build_table 0 after
    proof { if conflicts@.len() == 0 { thm_single(grammar, lalr, en, p, table, cs); } }
//@at exits
    proof { assert(tabled(grammar, lalr, en, p, vx_ret)); assert(judged(grammar, lalr, allow_conflicts, en, p, cs, vx_ret)); }
//@end
