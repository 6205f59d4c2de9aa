//@fn lapex-parser/src/ll_parser/mod.rs get_follow_symbols_of_remainder
//@spec
    requires
        nts_in(fv(first_sets@), remainder@),
        vanish_set(fv(first_sets@), remainder@) ==> lhs is Some && fv(follow_sets@).contains_key(lhs->0),
    ensures r@ == wset(fv(first_sets@), fv(follow_sets@), lhs, remainder@),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == vx_order(fs),
            forall|x: Symbol| #[trigger] result_set@.contains(x) <==> res0.contains(x) || (x != Symbol::Epsilon
                && exists|i: int| 0 <= i < it0.pos() && #[trigger] it0.seq()[i] == x),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 before
    let ghost res0 = result_set@;
    let ghost fs = fseq(fv(first_sets@), remainder@);
    proof {
        if vanish_set(fv(first_sets@), remainder@) { assert(res0 =~= fv(follow_sets@)[lhs->0]); }
        else { assert(res0 =~= Set::<Symbol>::empty()); }
    }
//@at loop 0 after
    proof {
        assert forall|x: Symbol| #[trigger] result_set@.contains(x) <==> res0.contains(x) || (x != Symbol::Epsilon && fs.contains(x)) by {
            if fs.contains(x) { assert(vx_order(fs).contains(x)); }
        }
        assert(result_set@ =~= wset(fv(first_sets@), fv(follow_sets@), lhs, remainder@));
    }
//@end

//@fn lapex-parser/src/ll_parser/mod.rs compute_follow_sets
//@spec
    requires grammar.wf(), first_exact(grammar, fv(first_sets@)),
    ensures follow_exact(grammar, fv(r@)),
//@at start
    let ghost f = fv(first_sets@);
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == grammar.nts(),
            forall|a: Symbol| #[trigger] fv(follow_sets@).contains_key(a) <==> exists|i: int| 0 <= i < it0.pos() && it0.seq()[i] == a,
            forall|a: Symbol| #[trigger] fv(follow_sets@).contains_key(a) ==> fv(follow_sets@)[a] == Set::<Symbol>::empty(),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    let ghost g0 = fv(follow_sets@);
//@at loop 0 end
    proof { assert(fv(follow_sets@) =~= g0.insert(it0.seq()[it0.pos() - 1], Set::<Symbol>::empty())); }
//@at loop 0 after
    proof {
        assert forall|a: Symbol| #[trigger] fv(follow_sets@).contains_key(a) <==> grammar.nts().contains(a) by { }
        lemma_exact_bounded(grammar, f);
    }
//@loop 1
        invariant
            grammar.wf(), f == fv(first_sets@), first_exact(grammar, f), bounded(grammar, f), terminated_entry_point_rhs@ == ar(grammar, 0),
            dom_ok(grammar, fv(follow_sets@)), wsound(grammar, fv(follow_sets@)), bounded(grammar, fv(follow_sets@)),
        ensures
            wclosed(grammar, f, fv(follow_sets@)),
        decreases slack(fv(follow_sets@), grammar.nts(), univ(grammar).len(), grammar.nts().len()),
//@at loop 1 start
    let ghost w0 = fv(follow_sets@);
//@at loop 1 end
    proof {
        lemma_slack(w0, fv(follow_sets@), grammar.nts(), univ(grammar).len(), grammar.nts().len());
        lemma_slack_nonneg(grammar, w0, grammar.nts(), grammar.nts().len());
        lemma_slack_nonneg(grammar, fv(follow_sets@), grammar.nts(), grammar.nts().len());
    }
//@loop 2
        invariant
            grammar.wf(),
            it2.pos() <= it2.seq().len(), it2.seq().len() == grammar.rules@.len(),
            forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == grammar.rules@[i],
            acc0@.len() == it2.pos(),
            ar_list(grammar, acc0@, 1),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    proof { assert(rule_wf(grammar, grammar.rules@[it2.pos() - 1])); }
//@loop 3
        invariant
            grammar.wf(), f == fv(first_sets@), first_exact(grammar, f), bounded(grammar, f),
            it3.pos() <= it3.seq().len(), it3.seq().len() == grammar.rules@.len() + 1,
            ar_list(grammar, it3.seq(), 0),
            dom_ok(grammar, fv(follow_sets@)), wsound(grammar, fv(follow_sets@)), bounded(grammar, fv(follow_sets@)),
            dom_ok(grammar, w0), grown(w0, fv(follow_sets@)),
            inserted_any ==> exists|i: int| 0 <= i < grammar.nts().len() && w0[#[trigger] grammar.nts()[i]] != fv(follow_sets@)[grammar.nts()[i]],
            !inserted_any ==> fv(follow_sets@) == w0 && forall|n: int| 0 <= n < it3.pos() ==> #[trigger] wcl_rule(grammar, f, w0, n),
        decreases it3.seq().len() - it3.pos(),
//@at loop 3 start
    let ghost n = it3.pos() - 1;
//@loop 4
        invariant
            grammar.wf(), f == fv(first_sets@), first_exact(grammar, f), bounded(grammar, f),
            0 <= n <= grammar.rules@.len(), lhs == al(grammar, n), sequence@ == ar(grammar, n),
            it4.pos() <= it4.seq().len(), it4.seq().len() == sequence@.len(), sequence@.len() <= usize::MAX,
            forall|i: int| 0 <= i < it4.seq().len() ==> #[trigger] it4.seq()[i] == i,
            dom_ok(grammar, fv(follow_sets@)), wsound(grammar, fv(follow_sets@)), bounded(grammar, fv(follow_sets@)),
            dom_ok(grammar, w0), grown(w0, fv(follow_sets@)),
            inserted_any ==> exists|i: int| 0 <= i < grammar.nts().len() && w0[#[trigger] grammar.nts()[i]] != fv(follow_sets@)[grammar.nts()[i]],
            !inserted_any ==> fv(follow_sets@) == w0 && (forall|m: int| 0 <= m < n ==> #[trigger] wcl_rule(grammar, f, w0, m))
                && forall|j: int| 0 <= j < it4.pos() ==> #[trigger] wcl(grammar, f, w0, n, j),
        decreases it4.seq().len() - it4.pos(),
//@at loop 4 start
    let ghost w1 = fv(follow_sets@);
    let ghost j = it4.pos() - 1;
    let ghost a = ar(grammar, n)[j];
    let ghost ins0 = inserted_any;
    let ghost s = wset(f, w1, al(grammar, n), ar(grammar, n).skip(j + 1));
    proof {
        assert(it4.seq()[it4.pos() - 1] == j);
        assert(i == j);
        assert(sequence@[j] == a);
        lemma_ar_nts(grammar, f, n);
        lemma_ar_nts(grammar, w1, n);
        lemma_rest_nts(f, ar(grammar, n), j + 1);
        assert(sequence@.subrange(j + 1, sequence@.len() as int) =~= sequence@.skip(j + 1));
        if n == 0 { lemma_w_end(grammar, f); if j == 1 { assert(a == Symbol::End); } }
    }
//@at loop 5 before
    let ghost ff = *final(follow_set_of_nt);
//@loop 5
        invariant
            it5.pos() <= it5.seq().len(), it5.seq() == vx_order(s),
            *final(follow_set_of_nt) == ff,
            forall|x: Symbol| #[trigger] follow_set_of_nt@.contains(x) <==> w1[a].contains(x) || exists|i: int| 0 <= i < it5.pos() && #[trigger] it5.seq()[i] == x,
            inserted_any <==> ins0 || exists|x: Symbol| #[trigger] follow_set_of_nt@.contains(x) && !w1[a].contains(x),
        decreases it5.seq().len() - it5.pos(),
//@at loop 5 start
    let ghost m0 = follow_set_of_nt@;
    let ghost ins1 = inserted_any;
//@at loop 5 end
    proof {
        let y = it5.seq()[it5.pos() - 1];
        assert(follow_set_of_nt@ =~= m0.insert(y));
        assert(follow_set_of_nt@.contains(y));
        assert forall|x: Symbol| m0.contains(x) implies #[trigger] follow_set_of_nt@.contains(x) by { }
        if inserted_any && !ins0 {
            if ins1 {
                let x = choose|x: Symbol| #[trigger] m0.contains(x) && !w1[a].contains(x);
                assert(follow_set_of_nt@.contains(x));
            } else {
                assert(!m0.contains(y));
                if w1[a].contains(y) { assert(m0.contains(y)); }
            }
        }
        if !inserted_any {
            assert forall|x: Symbol| #[trigger] follow_set_of_nt@.contains(x) implies w1[a].contains(x) by { assert(m0.contains(x)); }
        }
    }
//@at loop 5 after
    proof {
        assert forall|x: Symbol| #[trigger] follow_set_of_nt@.contains(x) <==> w1[a].contains(x) || s.contains(x) by {
            if s.contains(x) { assert(vx_order(s).contains(x)); }
        }
        assert(follow_set_of_nt@ =~= w1[a].union(s));
    }
//@at loop 4 end
    proof {
        let w2 = fv(follow_sets@);
        if is_nt(a) {
            assert(w2 =~= w1.insert(a, w1[a].union(s)));
            assert forall|b: Symbol, x: Symbol| w2.contains_key(b) && #[trigger] w2[b].contains(x) implies in_follow(grammar, b, x) by {
                if b == a && !w1[a].contains(x) { lemma_w_sound(grammar, f, w1, n, j, x); }
            }
            assert forall|b: Symbol, x: Symbol| w2.contains_key(b) && #[trigger] w2[b].contains(x) implies univ(grammar).contains(x) by {
                if b == a && !w1[a].contains(x) { lemma_w_bounded(grammar, f, w1, n, j, x); }
            }
            if inserted_any {
                if !ins0 {
                    let i = choose|i: int| 0 <= i < grammar.nts().len() && grammar.nts()[i] == a;
                    assert(w0[grammar.nts()[i]] != w2[grammar.nts()[i]]);
                } else {
                    let i = choose|i: int| 0 <= i < grammar.nts().len() && w0[#[trigger] grammar.nts()[i]] != w1[grammar.nts()[i]];
                    let b = grammar.nts()[i];
                    assert(w0.contains_key(b));
                    if w2[b] == w0[b] { assert(w1[b] =~= w0[b]); }
                }
            } else {
                assert(w1[a].union(s) =~= w1[a]);
                assert(w2 =~= w1);
                assert(wcl(grammar, f, w0, n, j));
            }
        } else {
            assert(wcl(grammar, f, w1, n, j));
        }
    }
//@at loop 3 end
    proof { if !inserted_any { assert(wcl_rule(grammar, f, w0, n)); } }
//@at end
    proof { lemma_w_exact(grammar, f, fv(follow_sets@)); }
//@end
