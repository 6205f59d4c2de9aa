//@include inc_outcome.rs
//@fn lapex-parser/src/lr_parser/mod.rs generate_table
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires N <= 1, grammar.wf(), small(grammar),
    ensures exists|en: Item<'grammar, 'rules, N>, p: ParserGraph<'grammar, 'rules, N>, cs: Set<Conflict<'grammar, 'rules>>| #[trigger] judged(grammar, lalr, allow_conflicts, en, p, cs, r),
//@at call generate_parser_graph 0 after
    let ghost p = parser_graph;
    let ghost en = choose|en: Item<'grammar, 'rules, N>| is_entry(grammar, en) && #[trigger] is_automaton(grammar, lalr, en, p) && tidy(grammar, lalr, en, p);
    let ghost mut cs = Set::<Conflict<'grammar, 'rules>>::empty();
    proof { lemma_fit(grammar, lalr, en, p); }
//@at loop 0 before
    proof { cs = choose|cs: Set<Conflict<'grammar, 'rules>>| conflicts_exact(p.sts(), p.es(), cs) && it0.seq() == #[trigger] vx_order(cs); }
//@loop 0
        invariant it0.pos() <= it0.seq().len(), it0.seq() == vx_order(cs), acc0@ == it0.seq().take(it0.pos() as int),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 after
    proof {
        assert(acc0@ =~= vx_order(cs));
        if acc0@.len() == 0 { assert forall|c: Conflict<'grammar, 'rules>| !#[trigger] cs.contains(c) by { assert(!vx_order(cs).contains(c)); } }
    }
//@at exits
    proof { assert(judged(grammar, lalr, allow_conflicts, en, p, cs, vx_ret)); }
//@end
