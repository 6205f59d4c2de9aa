// ---- the closure over the grammar -------------------------------------------------------------------
pub open spec fn rule_in(g: &Grammar, r: Rule) -> bool { r == g.entry_rule || exists|i: int| 0 <= i < g.rules@.len() && #[trigger] g.rules@[i] == r }
// the crate counts dots in a byte
pub open spec fn small(g: &Grammar) -> bool { forall|i: int| 0 <= i < g.rules@.len() ==> (#[trigger] g.rules@[i]).rhs@.len() <= 255 }
pub open spec fn g_item<const N: usize>(g: &Grammar, a: Item<N>) -> bool {
    N <= 1 && rule_in(g, *a.rule.0) && a.d() <= a.rs().len() && (N == 1 ==> is_t(a.lookahead@[0]))
}
// the grammar requires b for a: a production of the nonterminal after the dot, at its start past empty
// markers, with a lookahead that can begin the rest of a followed by a's lookahead
pub open spec fn gstep<const N: usize>(g: &Grammar, a: Item<N>, b: Item<N>) -> bool {
    &&& a.after() is Some
    &&& exists|i: int| 0 <= i < g.rules@.len() && #[trigger] rule_at(g.rules@, i, a.after()->0, b.rule.0)
    &&& b.d() == norm(b.rs(), 0)
    &&& N == 0 || in_first(g, a.beyond(), b.lookahead@[0])
}
pub open spec fn greach<const N: usize>(g: &Grammar, k: nat, a: Item<N>, b: Item<N>) -> bool
    decreases k,
{ if k == 0 { a == b } else { exists|c: Item<N>| greach(g, (k - 1) as nat, a, c) && #[trigger] gstep(g, c, b) } }
pub open spec fn gclo<const N: usize>(g: &Grammar, a: Item<N>, b: Item<N>) -> bool { exists|k: nat| #[trigger] greach(g, k, a, b) }
// the tables the construction works with belong to the grammar
pub open spec fn tables_ok<const N: usize>(g: &Grammar, rm: Prods, f: Sets) -> bool {
    g.wf() && small(g) && prods_of(g.rules@, g.rules@.len() as int, rm) && (if N == 0 { forall|a: Symbol| !#[trigger] f.contains_key(a) } else { first_exact(g, f) })
}
pub proof fn lemma_tables<const N: usize>(g: &Grammar, rm: Prods, f: Sets)
    requires tables_ok::<N>(g, rm, f),
    ensures sets_ok(f), prods_ok::<N>(rm, f),
{
    if N != 0 {
        assert forall|a: Symbol, x: Symbol| f.contains_key(a) && #[trigger] f[a].contains(x) implies is_t(x) || x == Symbol::Epsilon by {
            assert(in_first(g, seq![a], x));
            if x != Symbol::Epsilon {
                let k = choose|k: nat| #[trigger] begins(g, k, seq![a], x);
                lemma_begin_term(g, k, seq![a], x);
            }
        }
    }
    assert forall|a: Symbol, r: &Rule| #[trigger] prod(rm, a, r) implies r.rhs@.len() <= 255 && (N == 1 ==> rhs_ok(f, r.rhs@)) by {
        let i = choose|i: int| 0 <= i < g.rules@.len() && #[trigger] rule_at(g.rules@, i, a, r);
        assert(g.rules@[i].rhs@.len() <= 255);
        lemma_rule_ok::<N>(g, rm, f, *r);
    }
}
pub proof fn lemma_rule_ok<const N: usize>(g: &Grammar, rm: Prods, f: Sets, r: Rule)
    requires tables_ok::<N>(g, rm, f), rule_in(g, r),
    ensures r.rhs@.len() <= 255, N == 1 ==> rhs_ok(f, r.rhs@),
{
    if r == g.entry_rule {
        assert(is_nt(g.entry_symbol));
    } else {
        let i = choose|i: int| 0 <= i < g.rules@.len() && #[trigger] g.rules@[i] == r;
        assert(rule_wf(g, g.rules@[i]));
        assert forall|k: int| 0 <= k < r.rhs@.len() implies #[trigger] r.rhs@[k] != Symbol::End by { assert(sym_wf(g, r.rhs@[k])); }
        if N == 1 {
            assert forall|k: int| 0 <= k < r.rhs@.len() && is_nt(#[trigger] r.rhs@[k]) implies f.contains_key(r.rhs@[k]) by { assert(sym_wf(g, r.rhs@[k])); }
        }
    }
}
pub proof fn lemma_g_item<const N: usize>(g: &Grammar, rm: Prods, f: Sets, a: Item<N>)
    requires tables_ok::<N>(g, rm, f), g_item(g, a),
    ensures item_ok(f, a),
{ lemma_rule_ok::<N>(g, rm, f, *a.rule.0); }
pub proof fn lemma_step_g<const N: usize>(g: &Grammar, rm: Prods, f: Sets, a: Item<N>, b: Item<N>)
    requires tables_ok::<N>(g, rm, f), g_item(g, a),
    ensures step(rm, f, a, b) <==> gstep(g, a, b), step(rm, f, a, b) ==> g_item(g, b),
{
    lemma_tables::<N>(g, rm, f);
    lemma_g_item(g, rm, f, a);
    if a.after() is Some {
        if prod(rm, a.after()->0, b.rule.0) {
            let i = choose|i: int| 0 <= i < g.rules@.len() && #[trigger] rule_at(g.rules@, i, a.after()->0, b.rule.0);
            assert(g.rules@[i] == *b.rule.0);
        }
        if N == 1 {
            lemma_beyond(f, a);
            lemma_seq_exact(g, f, a.beyond(), b.lookahead@[0]);
        }
        if step(rm, f, a, b) { lemma_step_ok(rm, f, a, b); }
    }
}
pub proof fn lemma_reach_g<const N: usize>(g: &Grammar, rm: Prods, f: Sets, k: nat, a: Item<N>, b: Item<N>)
    requires tables_ok::<N>(g, rm, f), g_item(g, a),
    ensures reach(rm, f, k, a, b) <==> greach(g, k, a, b), reach(rm, f, k, a, b) ==> g_item(g, b),
    decreases k,
{
    if k > 0 {
        let j = (k - 1) as nat;
        if reach(rm, f, k, a, b) {
            let c = choose|c: Item<N>| reach(rm, f, j, a, c) && #[trigger] step(rm, f, c, b);
            lemma_reach_g(g, rm, f, j, a, c);
            lemma_step_g(g, rm, f, c, b);
        }
        if greach(g, k, a, b) {
            let c = choose|c: Item<N>| greach(g, j, a, c) && #[trigger] gstep(g, c, b);
            lemma_reach_g(g, rm, f, j, a, c);
            lemma_step_g(g, rm, f, c, b);
        }
    }
}
// C09: the item set built from an item is the least set the grammar requires
pub proof fn thm_closure<const N: usize>(g: &Grammar, rm: Prods, f: Sets, a: Item<N>, s: Set<Item<N>>)
    requires tables_ok::<N>(g, rm, f), g_item(g, a), is_clo(rm, f, a, s),
    ensures forall|b: Item<N>| #[trigger] s.contains(b) <==> gclo(g, a, b), forall|b: Item<N>| #[trigger] s.contains(b) ==> g_item(g, b),
{
    assert forall|b: Item<N>| #[trigger] s.contains(b) <==> gclo(g, a, b) by {
        if s.contains(b) {
            let k = choose|k: nat| #[trigger] reach(rm, f, k, a, b);
            lemma_reach_g(g, rm, f, k, a, b);
        }
        if gclo(g, a, b) {
            let k = choose|k: nat| #[trigger] greach(g, k, a, b);
            lemma_reach_g(g, rm, f, k, a, b);
        }
    }
    assert forall|b: Item<N>| #[trigger] s.contains(b) implies g_item(g, b) by {
        let k = choose|k: nat| #[trigger] reach(rm, f, k, a, b);
        lemma_reach_g(g, rm, f, k, a, b);
    }
}
