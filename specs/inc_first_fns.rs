//@fn lapex-parser/src/util.rs get_first_terminals_of_sequence
//@spec
    requires nts_in(fv(first_sets@), sequence@),
    ensures r@ == fseq(fv(first_sets@), sequence@),
//@loop 0
        invariant_except_break
            result_set@.union(fseq(fv(first_sets@), sequence@.skip(it0.pos() as int))) =~= fseq(fv(first_sets@), sequence@),
            it0.pos() > 0 || result_set@ == Set::<Symbol>::empty(),
        invariant
            it0.seq().len() == sequence@.len(), it0.pos() <= sequence@.len(),
            forall|i: int| 0 <= i < sequence@.len() ==> #[trigger] it0.seq()[i] == i,
            nts_in(fv(first_sets@), sequence@),
            epsilon_first_set@ == Set::<Symbol>::empty().insert(Symbol::Epsilon),
        ensures
            result_set@ == fseq(fv(first_sets@), sequence@),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 before
    proof { assert(sequence@.skip(0) =~= sequence@); }
//@at loop 0 start
    proof {
        let s0 = sequence@.skip(it0.pos() - 1);
        assert(s0[0] == sequence@[it0.pos() - 1]);
        assert(s0.skip(1) =~= sequence@.skip(it0.pos() as int));
    }
    let ghost res0 = result_set@;
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(),
            it1.seq().len() == vx_order(first_set_for_symbol@).len(),
            forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == vx_order(first_set_for_symbol@)[i],
            forall|x: Symbol| #[trigger] result_set@.contains(x) <==> res0.contains(x) || (x != Symbol::Epsilon
                && exists|i: int| 0 <= i < it1.pos() && #[trigger] vx_order(first_set_for_symbol@)[i] == x),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 after
    proof {
        assert forall|x: Symbol| #[trigger] result_set@.contains(x) <==> res0.contains(x) || (x != Symbol::Epsilon && first_set_for_symbol@.contains(x)) by {
            if first_set_for_symbol@.contains(x) { assert(vx_order(first_set_for_symbol@).contains(x)); }
        }
    }
//@end

//@fn lapex-parser/src/util.rs compute_first_sets
//@spec
    requires grammar.wf(),
    ensures first_exact(grammar, fv(r@)),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == grammar.nts(),
            forall|a: Symbol| #[trigger] fv(first_sets@).contains_key(a) <==> exists|i: int| 0 <= i < it0.pos() && it0.seq()[i] == a,
            forall|a: Symbol| #[trigger] fv(first_sets@).contains_key(a) ==> fv(first_sets@)[a] == Set::<Symbol>::empty(),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    let ghost g0 = fv(first_sets@);
//@at loop 0 end
    proof { assert(fv(first_sets@) =~= g0.insert(it0.seq()[it0.pos() - 1], Set::<Symbol>::empty())); }
//@at loop 0 after
    proof {
        assert forall|a: Symbol| #[trigger] fv(first_sets@).contains_key(a) <==> grammar.nts().contains(a) by { }
    }
//@loop 1
        invariant
            grammar.wf(), dom_ok(grammar, fv(first_sets@)), sound(grammar, fv(first_sets@)), bounded(grammar, fv(first_sets@)),
        ensures
            closed(grammar, fv(first_sets@)),
        decreases slack(fv(first_sets@), grammar.nts(), univ(grammar).len(), grammar.nts().len()),
//@at loop 1 start
    let ghost f0 = fv(first_sets@);
//@at loop 1 end
    proof {
        lemma_slack(f0, fv(first_sets@), grammar.nts(), univ(grammar).len(), grammar.nts().len());
        lemma_slack_nonneg(grammar, f0, grammar.nts(), grammar.nts().len());
        lemma_slack_nonneg(grammar, fv(first_sets@), grammar.nts(), grammar.nts().len());
    }
//@loop 2
        invariant
            it2.pos() <= it2.seq().len(), it2.seq().len() == grammar.rules@.len(),
            forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == grammar.rules@[i],
            grammar.wf(), dom_ok(grammar, fv(first_sets@)), sound(grammar, fv(first_sets@)), bounded(grammar, fv(first_sets@)),
            dom_ok(grammar, f0), grown(f0, fv(first_sets@)),
            inserted_any ==> exists|i: int| 0 <= i < grammar.nts().len() && f0[#[trigger] grammar.nts()[i]] != fv(first_sets@)[grammar.nts()[i]],
            !inserted_any ==> fv(first_sets@) == f0 && forall|i: int| 0 <= i < it2.pos() ==> fseq(f0, (#[trigger] grammar.rules@[i]).rhs@).subset_of(f0[grammar.rules@[i].l()]),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    let ghost f1 = fv(first_sets@);
    let ghost k = it2.pos() - 1;
    let ghost a = rule.l();
    let ghost ins0 = inserted_any;
    proof {
        assert(rule_wf(grammar, *rule));
        assert forall|j: int| 0 <= j < rule.rhs@.len() && is_nt(#[trigger] rule.rhs@[j]) implies f1.contains_key(rule.rhs@[j]) by { assert(sym_wf(grammar, rule.rhs@[j])); }
        assert(f1.contains_key(a));
    }
//@at loop 3 before
    let ghost ff = *final(first_set_of_lhs);
//@loop 3
        invariant
            it3.pos() <= it3.seq().len(), it3.seq() == vx_order(fseq(f1, grammar.rules@[k].rhs@)),
            *final(first_set_of_lhs) == ff,
            forall|x: Symbol| #[trigger] first_set_of_lhs@.contains(x) <==> f1[a].contains(x) || exists|i: int| 0 <= i < it3.pos() && #[trigger] it3.seq()[i] == x,
            inserted_any <==> ins0 || exists|x: Symbol| #[trigger] first_set_of_lhs@.contains(x) && !f1[a].contains(x),
        decreases it3.seq().len() - it3.pos(),
//@at loop 3 start
    let ghost m0 = first_set_of_lhs@;
    let ghost ins1 = inserted_any;
//@at loop 3 end
    proof {
        let y = it3.seq()[it3.pos() - 1];
        assert(first_set_of_lhs@ =~= m0.insert(y));
        assert(first_set_of_lhs@.contains(y));
        assert forall|x: Symbol| m0.contains(x) implies #[trigger] first_set_of_lhs@.contains(x) by { }
        if inserted_any && !ins0 {
            if ins1 {
                let x = choose|x: Symbol| #[trigger] m0.contains(x) && !f1[a].contains(x);
                assert(first_set_of_lhs@.contains(x));
            } else {
                assert(!m0.contains(y));
                if f1[a].contains(y) { assert(m0.contains(y)); }
            }
        }
        if !inserted_any {
            assert forall|x: Symbol| #[trigger] first_set_of_lhs@.contains(x) implies f1[a].contains(x) by {
                assert(m0.contains(x));
            }
        }
    }
//@at loop 3 after
    proof {
        let s = fseq(f1, rule.rhs@);
        assert forall|x: Symbol| #[trigger] first_set_of_lhs@.contains(x) <==> f1[a].contains(x) || s.contains(x) by {
            if s.contains(x) { assert(vx_order(s).contains(x)); }
        }
        assert(first_set_of_lhs@ =~= f1[a].union(s));
    }
//@at loop 2 end
    proof {
        let f2 = fv(first_sets@);
        let s = fseq(f1, rule.rhs@);
        assert(f2 =~= f1.insert(a, f1[a].union(s)));
        assert forall|b: Symbol, x: Symbol| f2.contains_key(b) && #[trigger] f2[b].contains(x) implies in_first(grammar, seq![b], x) by {
            if b == a && !f1[a].contains(x) { lemma_rule_sound(grammar, f1, k, x); }
        }
        assert forall|b: Symbol, x: Symbol| f2.contains_key(b) && #[trigger] f2[b].contains(x) implies univ(grammar).contains(x) by {
            if b == a && !f1[a].contains(x) {
                assert forall|j: int| 0 <= j < rule.rhs@.len() implies univ(grammar).contains(#[trigger] rule.rhs@[j]) by { lemma_usyms(grammar.rules@, grammar.rules@.len(), k, j); }
                lemma_fseq_bounded(grammar, f1, rule.rhs@, x);
            }
        }
        if inserted_any {
            if !ins0 {
                let i = choose|i: int| 0 <= i < grammar.nts().len() && grammar.nts()[i] == a;
                assert(f0[grammar.nts()[i]] != f2[grammar.nts()[i]]);
            } else {
                let i = choose|i: int| 0 <= i < grammar.nts().len() && f0[#[trigger] grammar.nts()[i]] != f1[grammar.nts()[i]];
                let b = grammar.nts()[i];
                assert(f0.contains_key(b));
                if f2[b] == f0[b] { assert(f1[b] =~= f0[b]); }
            }
        } else {
            assert(f1[a].union(s) =~= f1[a]);
            assert(f2 =~= f1);
        }
    }
//@at end
    proof { lemma_exact(grammar, fv(first_sets@)); }
//@end
