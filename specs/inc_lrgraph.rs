//@fn lapex-parser/src/lr_parser/mod.rs generate_parser_graph
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@attr #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires
        N <= 1, grammar.wf(), small(grammar),
        if N == 0 { forall|a: Symbol| !#[trigger] fv(first_sets@).contains_key(a) } else { first_exact(grammar, fv(first_sets@)) },
    ensures
        exists|en: Item<'grammar, 'rules, N>| is_entry(grammar, en) && #[trigger] is_automaton(grammar, lalr, en, r) && tidy(grammar, lalr, en, r),
//@at start
    let ghost f = fv(first_sets@);
//@at call build_rules_map 0 after
    let ghost rm = rules_map@;
    let ghost en = entry_item;
    proof {
        assert(tables_ok::<N>(grammar, rm, f));
        lemma_tables::<N>(grammar, rm, f);
        assert(is_entry(grammar, en));
        if N == 1 { assert(en.lookahead@[0] == Symbol::End); }
        assert(g_item(grammar, en));
        lemma_g_item(grammar, rm, f, en);
    }
//@at call expand_item 0 after
    proof { thm_closure(grammar, rm, f, en, entry_item_set@); }
//@at call add_state 0 after
    let ghost pg1 = parser_graph;
//@at loop 0 before
    proof {
        assert(parser_graph.sts() =~= pg1.sts());
        assert(parser_graph.wf() && parser_graph.cm_ok());
        let e = il(entry_item_set@);
        assert(e =~= iclo(grammar, en));
        assert(parser_graph.sts()[0] == entry_item_set@);
        assert(canon(grammar, en, 0, e));
        lemma_same(e, e, e);
        assert(unprocessed_states@[0] == nx(0));
        assert forall|i: int| 0 <= i < parser_graph.sts().len() implies justified(grammar, lalr, en, il(#[trigger] parser_graph.sts()[i])) by { }
    }
//@loop 0
        invariant
            cache_ok(rm, f, item_set_cache@),
            ginv(grammar, lalr, en, parser_graph),
            forall|i: int| 0 <= i < unprocessed_states@.len() ==> (#[trigger] unprocessed_states@[i]).i < parser_graph.sts().len(),
            forall|i: int| 0 <= i < parser_graph.sts().len() ==> unprocessed_states@.contains(nx(i)) || #[trigger] done(grammar, lalr, parser_graph.sts(), parser_graph.es(), i),
        ensures
            unprocessed_states@.len() == 0,
//@at loop 0 top
    let ghost w0 = unprocessed_states@;
//@at call get_item_set 0 after
    let ghost s = start_state.i as int;
    let ghost p0 = parser_graph.sts()[s];
    let ghost ord = vx_order(p0);
    let ghost mut tm = Map::<Symbol, BTreeSet<Item<'grammar, 'rules, N>>>::empty();
    let ghost mut keys = Seq::<Symbol>::empty();
    proof {
        assert(w0.len() > 0);
        assert(w0.drop_last() == unprocessed_states@ && w0.last() == start_state);
        lemma_pop_has(w0);
        assert(nx(s) == start_state);
    }
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), it1.seq().len() == ord.len(),
            forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == ord[i],
            cache_ok(rm, f, item_set_cache@),
            moves_upto(grammar, ord, it1.pos() as int, transition_map@),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost m0 = transition_map@;
    let ghost cur = *it1.seq()[it1.pos() - 1];
    proof { assert(p0.contains(cur)); assert(g_item(grammar, cur)); lemma_g_item(grammar, rm, f, cur); }
//@loop 2
        invariant
            cur.after() is Some,
            target_item.rule == cur.rule, target_item.lookahead == cur.lookahead, target_item.d() <= target_item.rs().len(),
            norm(target_item.rs(), cur.d() + 1) == norm(target_item.rs(), target_item.d()),
        ensures
            target_item.d() == norm(target_item.rs(), cur.d() + 1),
        decreases target_item.rs().len() - target_item.d(),
//@at loop 2 after
    proof {
        let x = cur.after()->0;
        assert(moves(cur, x));
        lemma_adv(grammar, rm, f, cur, x);
        assert(target_item == adv(cur));
        lemma_g_item(grammar, rm, f, target_item);
    }
//@at call expand_item 1 after
    proof { thm_closure(grammar, rm, f, adv(cur), target_item_set@); }
//@loop 3
        invariant
            it3.pos() <= it3.seq().len(), it3.seq().len() == vx_order(target_item_set@).len(),
            forall|i: int| 0 <= i < it3.seq().len() ==> *(#[trigger] it3.seq()[i]) == vx_order(target_item_set@)[i],
            acc0@.len() == it3.pos(),
            forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == vx_order(target_item_set@)[i],
        decreases it3.seq().len() - it3.pos(),
//@at loop 3 after
    proof { assert(acc0@ =~= vx_order(target_item_set@)); lemma_order_set(target_item_set@); }
//@at loop 1 end
    proof { lemma_moves_step(grammar, ord, it1.pos() as int, m0, transition_map@); }
//@at loop 4 before
    proof {
        tm = transition_map@;
        keys = vx_order(tm.dom());
        lemma_moves_of(grammar, p0, tm);
        lemma_same(il(p0), il(p0), il(p0));
    }
//@loop 4
        invariant
            it4.pos() <= it4.seq().len(), it4.seq().len() == keys.len(),
            forall|i: int| 0 <= i < it4.seq().len() ==> #[trigger] it4.seq()[i] == (keys[i], tm[keys[i]]),
            inv4(grammar, lalr, en, parser_graph, unprocessed_states@, s, p0, keys, it4.pos() as int),
        decreases it4.seq().len() - it4.pos(),
//@at loop 4 start
    let ghost k = it4.pos() - 1;
    let ghost u = unprocessed_states@;
    let ghost o = parser_graph;
    let ghost t = it4.seq()[k].1@;
    proof { assert(tm.contains_key(keys[k])); }
//@loop 5
        invariant
            it5.pos() <= it5.seq().len(), it5.seq() == vx_order(t), acc1@ == it5.seq().take(it5.pos() as int),
        decreases it5.seq().len() - it5.pos(),
//@at loop 5 after
    proof { assert(acc1@ =~= vx_order(t)); lemma_order_set(t); }
//@loop 6
        invariant
            it6.pos() <= it6.seq().len(), it6.seq() == vx_order(t), acc2@ == it6.seq().take(it6.pos() as int),
        decreases it6.seq().len() - it6.pos(),
//@at loop 6 after
    proof {
        assert(acc2@ =~= vx_order(t)); lemma_order_set(t);
        assert forall|i: int| 0 <= i < o.sts().len() implies #[trigger] o.sts()[i] != t by { lemma_eq_core(o.sts()[i], o.sts()[i], o.sts()[i]); }
    }
//@loop 7
        invariant
            it7.pos() <= it7.seq().len(), it7.seq() == vx_order(t), acc3@ == it7.seq().take(it7.pos() as int),
        decreases it7.seq().len() - it7.pos(),
//@at loop 7 after
    proof { assert(acc3@ =~= vx_order(t)); lemma_order_set(t); }
//@at call merge_into_state 0 after
    proof { lemma_merge(o, parser_graph, state, t, merged); }
//@at call add_transition 0 before
    let ghost m = parser_graph;
    proof {
        assert(next_state(lalr, o, m, u, unprocessed_states@, target_state, t));
        lemma_next(grammar, rm, f, lalr, en, o, m, u, unprocessed_states@, target_state, t, s, p0, keys, k);
    }
//@at call add_transition 0 after
    proof { lemma_edge(grammar, lalr, en, m, parser_graph, unprocessed_states@, target_state, t, s, p0, keys, k); }
//@at call add_transition 1 before
    let ghost m = parser_graph;
    proof {
        assert(next_state(lalr, o, m, u, unprocessed_states@, target_state, t));
        lemma_next(grammar, rm, f, lalr, en, o, m, u, unprocessed_states@, target_state, t, s, p0, keys, k);
    }
//@at call add_transition 1 after
    proof { lemma_edge(grammar, lalr, en, m, parser_graph, unprocessed_states@, target_state, t, s, p0, keys, k); }
//@at loop 0 end
    proof {
        let st = parser_graph.sts();
        if !unprocessed_states@.contains(nx(s)) {
            assert(il(st[s]) == il(p0));
            assert forall|x: Symbol| #[trigger] has_move(il(st[s]), x) implies edge_for(grammar, lalr, st, parser_graph.es(), s, il(st[s]), x) by {
                assert(tm.contains_key(x));
                assert(keys.contains(x));
                let j = choose|j: int| 0 <= j < keys.len() && keys[j] == x;
                assert(edge_for(grammar, lalr, st, parser_graph.es(), s, il(p0), keys[j]));
            }
        }
    }
//@at loop 0 after
    proof {
        assert forall|i: int| 0 <= i < parser_graph.sts().len() implies done(grammar, lalr, parser_graph.sts(), parser_graph.es(), i) by {
            assert(!unprocessed_states@.contains(nx(i)));
        }
        thm_tidy(grammar, rm, f, lalr, en, parser_graph);
        assert(is_entry(grammar, en) && is_automaton(grammar, lalr, en, parser_graph));
    }
//@end
