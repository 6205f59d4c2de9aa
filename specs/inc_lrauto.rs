// ---- the automaton the grammar prescribes -------------------------------------------------------------
// sets of items, possibly infinite, so that every goto is a value
pub open spec fn il<T>(s: Set<T>) -> ISet<T> { ISet::new(|x: T| s.contains(x)) }
// item a moves on x: x is after its dot, and it is not the entry item
pub open spec fn moves<const N: usize>(a: Item<N>, x: Symbol) -> bool { a.after() == Some(x) && a.rule.0.lhs is Some }
pub open spec fn adv<'g, 'r, const N: usize>(a: Item<'g, 'r, N>) -> Item<'g, 'r, N> {
    Item { rule: a.rule, dot_position: norm(a.rs(), a.d() + 1) as u8, lookahead: a.lookahead }
}
pub open spec fn has_move<const N: usize>(s: ISet<Item<N>>, x: Symbol) -> bool { exists|a: Item<N>| #[trigger] s.contains(a) && moves(a, x) }
pub open spec fn in_gt<const N: usize>(g: &Grammar, s: ISet<Item<N>>, x: Symbol, b: Item<N>) -> bool {
    exists|a: Item<N>| #[trigger] s.contains(a) && moves(a, x) && gclo(g, adv(a), b)
}
// the closures of all items of s that move on x, advanced over it
pub open spec fn gt<'g, 'r, const N: usize>(g: &Grammar, s: ISet<Item<'g, 'r, N>>, x: Symbol) -> ISet<Item<'g, 'r, N>> { ISet::new(|b: Item<'g, 'r, N>| in_gt(g, s, x, b)) }
pub open spec fn iclo<'g, 'r, const N: usize>(g: &Grammar, a: Item<'g, 'r, N>) -> ISet<Item<'g, 'r, N>> { ISet::new(|b: Item<'g, 'r, N>| gclo(g, a, b)) }
// s is a set of the canonical collection, k gotos away from the closure of the entry item
pub open spec fn step_canon<const N: usize>(g: &Grammar, s: ISet<Item<N>>, x: Symbol, t: ISet<Item<N>>) -> bool { has_move(s, x) && t == gt(g, s, x) }
pub open spec fn canon<'g, 'r, const N: usize>(g: &Grammar, en: Item<'g, 'r, N>, k: nat, t: ISet<Item<'g, 'r, N>>) -> bool
    decreases k,
{
    if k == 0 { t == iclo(g, en) }
    else { exists|s: ISet<Item<'g, 'r, N>>, x: Symbol| canon(g, en, (k - 1) as nat, s) && #[trigger] step_canon(g, s, x, t) }
}
pub open spec fn icore<const N: usize>(s: ISet<Item<N>>, c: Item<0>) -> bool { exists|a: Item<N>| #[trigger] s.contains(a) && core(a) == c }
pub open spec fn same<const N: usize>(s: ISet<Item<N>>, t: ISet<Item<N>>) -> bool { forall|c: Item<0>| #[trigger] icore(s, c) <==> icore(t, c) }
// how a goto set relates to the state standing for it
pub open spec fn rel<const N: usize>(lalr: bool, s: ISet<Item<N>>, t: ISet<Item<N>>) -> bool {
    if lalr { s.subset_of(t) && same(s, t) } else { s == t }
}
pub open spec fn from_canon<'g, 'r, const N: usize>(g: &Grammar, en: Item<'g, 'r, N>, s: ISet<Item<'g, 'r, N>>, b: Item<'g, 'r, N>) -> bool {
    exists|k: nat, c: ISet<Item<'g, 'r, N>>| #[trigger] canon(g, en, k, c) && c.contains(b) && same(c, s)
}
pub open spec fn is_canon<'g, 'r, const N: usize>(g: &Grammar, en: Item<'g, 'r, N>, s: ISet<Item<'g, 'r, N>>) -> bool {
    exists|k: nat| #[trigger] canon(g, en, k, s)
}
// a state holds nothing but what the canonical collection puts there
pub open spec fn justified<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, s: ISet<Item<'g, 'r, N>>) -> bool {
    if lalr { forall|b: Item<'g, 'r, N>| #[trigger] s.contains(b) ==> from_canon(g, en, s, b) } else { is_canon(g, en, s) }
}
pub type States<'g, 'r, const N: usize> = Seq<Set<Item<'g, 'r, N>>>;
// an edge is a move of its state and leads to the state of its goto
pub open spec fn edge_ok<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, st: States<'g, 'r, N>, e: GEdge<Symbol>) -> bool {
    &&& e.s.i < st.len() && e.t.i < st.len()
    &&& has_move(il(st[e.s.i as int]), e.w)
    &&& if lalr { same(gt(g, il(st[e.s.i as int]), e.w), il(st[e.t.i as int])) } else { gt(g, il(st[e.s.i as int]), e.w) == il(st[e.t.i as int]) }
}
pub open spec fn edge_for<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, st: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, i: int, p: ISet<Item<'g, 'r, N>>, x: Symbol) -> bool {
    exists|j: int| 0 <= j < es.len() && (#[trigger] es[j]).s.i == i && es[j].w == x && es[j].t.i < st.len() && rel(lalr, gt(g, p, x), il(st[es[j].t.i as int]))
}
// every move of state i has its edge
pub open spec fn done<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, st: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, i: int) -> bool {
    forall|x: Symbol| #[trigger] has_move(il(st[i]), x) ==> edge_for(g, lalr, st, es, i, il(st[i]), x)
}
pub open spec fn ginv<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>) -> bool {
    &&& p.wf()
    &&& lalr ==> p.cm_ok()
    &&& forall|i: int| 0 <= i < p.sts().len() ==> justified(g, lalr, en, il(#[trigger] p.sts()[i]))
    &&& forall|i: int, a: Item<'g, 'r, N>| 0 <= i < p.sts().len() && #[trigger] p.sts()[i].contains(a) ==> g_item(g, a)
    &&& forall|j: int| 0 <= j < p.es().len() ==> edge_ok(g, lalr, p.sts(), #[trigger] p.es()[j])
    &&& p.entry_state is Some && p.entry_state->0.i < p.sts().len() && rel(lalr, iclo(g, en), il(p.sts()[p.entry_state->0.i as int]))
}
// C10: the automaton
pub open spec fn is_automaton<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>) -> bool {
    ginv(g, lalr, en, p) && forall|i: int| 0 <= i < p.sts().len() ==> done(g, lalr, p.sts(), p.es(), i)
}
// the initial item
pub open spec fn is_entry<const N: usize>(g: &Grammar, a: Item<N>) -> bool {
    *a.rule.0 == g.entry_rule && a.dot_position == 0 && a.lookahead == [Symbol::End; N]
}

// ---- lookaheads do not influence cores ---------------------------------------------------------------
pub proof fn lemma_begins_la(g: &Grammar, k: nat, s: Seq<Symbol>, t: Symbol, u: Symbol, x: Symbol)
    requires is_t(t), is_t(u), begins(g, k, s + seq![t], x),
    ensures begins(g, k, s + seq![u], x) || begins(g, k, s + seq![u], u),
    decreases k, s.len(),
{
    let a = s + seq![t];
    let b = s + seq![u];
    if s.len() == 0 { assert(b[0] == u); }
    else {
        assert(a[0] == s[0] && b[0] == s[0]);
        assert(a.skip(1) =~= s.skip(1) + seq![t]);
        assert(b.skip(1) =~= s.skip(1) + seq![u]);
        match s[0] {
            Symbol::Epsilon => { lemma_begins_la(g, k, s.skip(1), t, u, x); }
            Symbol::NonTerminal(_) => {
                let i = choose|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).l() == a[0] && begins(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1), x);
                let m = g.rules@[i].rhs@ + s.skip(1);
                assert(g.rules@[i].rhs@ + a.skip(1) =~= m + seq![t]);
                assert(g.rules@[i].rhs@ + b.skip(1) =~= m + seq![u]);
                lemma_begins_la(g, (k - 1) as nat, m, t, u, x);
            }
            _ => { }
        }
    }
}
pub proof fn lemma_first_la(g: &Grammar, s: Seq<Symbol>, t: Symbol, u: Symbol, x: Symbol) -> (y: Symbol)
    requires is_t(t), is_t(u), is_t(x), in_first(g, s + seq![t], x),
    ensures in_first(g, s + seq![u], y),
{
    let k = choose|k: nat| #[trigger] begins(g, k, s + seq![t], x);
    lemma_begins_la(g, k, s, t, u, x);
    if begins(g, k, s + seq![u], x) { x } else { u }
}
pub proof fn lemma_core_parts<'g, 'r, const N: usize>(a: Item<'g, 'r, N>, b: Item<'g, 'r, N>)
    ensures core(a) == core(b) <==> a.rule == b.rule && a.dot_position == b.dot_position,
{ }
// the closures of items with equal cores have equal cores
pub proof fn lemma_core_reach<'g, 'r, const N: usize>(g: &Grammar, rm: Prods, f: Sets, k: nat, a: Item<'g, 'r, N>, a2: Item<'g, 'r, N>, b: Item<'g, 'r, N>) -> (b2: Item<'g, 'r, N>)
    requires tables_ok::<N>(g, rm, f), g_item(g, a), g_item(g, a2), core(a) == core(a2), greach(g, k, a, b),
    ensures greach(g, k, a2, b2), core(b) == core(b2), g_item(g, b), g_item(g, b2),
    decreases k,
{
    if k == 0 { a2 } else {
        let c = choose|c: Item<'g, 'r, N>| greach(g, (k - 1) as nat, a, c) && #[trigger] gstep(g, c, b);
        let c2 = lemma_core_reach(g, rm, f, (k - 1) as nat, a, a2, c);
        lemma_reach_g(g, rm, f, (k - 1) as nat, a, c);
        lemma_step_g(g, rm, f, c, b);
        let la: [Symbol; N] = if N == 1 {
            let s = c.rs().skip(c.d() + 1);
            let y = lemma_first_la(g, s, c.lookahead@[0], c2.lookahead@[0], b.lookahead@[0]);
            assert(in_first(g, c2.beyond(), y));
            [y; N]
        } else { c2.lookahead };
        let b2 = Item { rule: b.rule, dot_position: b.dot_position, lookahead: la };
        assert(gstep(g, c2, b2));
        assert(greach(g, k, a2, b2));
        lemma_step_g(g, rm, f, c2, b2);
        b2
    }
}
pub proof fn lemma_adv<'g, 'r, const N: usize>(g: &Grammar, rm: Prods, f: Sets, a: Item<'g, 'r, N>, x: Symbol)
    requires tables_ok::<N>(g, rm, f), g_item(g, a), moves(a, x),
    ensures g_item(g, adv(a)), adv(a).d() == norm(a.rs(), a.d() + 1),
{
    lemma_rule_ok::<N>(g, rm, f, *a.rule.0);
    lemma_norm(a.rs(), a.d() + 1);
}
// moves and gotos depend on cores only
pub proof fn lemma_same_gt<'g, 'r, const N: usize>(g: &Grammar, rm: Prods, f: Sets, s: ISet<Item<'g, 'r, N>>, t: ISet<Item<'g, 'r, N>>, x: Symbol)
    requires tables_ok::<N>(g, rm, f), same(s, t), forall|a: Item<'g, 'r, N>| #[trigger] s.contains(a) ==> g_item(g, a), forall|a: Item<'g, 'r, N>| #[trigger] t.contains(a) ==> g_item(g, a),
    ensures has_move(s, x) <==> has_move(t, x), same(gt(g, s, x), gt(g, t, x)),
{
    lemma_half_gt(g, rm, f, s, t, x);
    assert forall|c: Item<0>| #[trigger] icore(t, c) <==> icore(s, c) by { assert(icore(s, c) <==> icore(t, c)); }
    lemma_half_gt(g, rm, f, t, s, x);
}
pub proof fn lemma_half_gt<'g, 'r, const N: usize>(g: &Grammar, rm: Prods, f: Sets, s: ISet<Item<'g, 'r, N>>, t: ISet<Item<'g, 'r, N>>, x: Symbol)
    requires tables_ok::<N>(g, rm, f), same(s, t), forall|a: Item<'g, 'r, N>| #[trigger] s.contains(a) ==> g_item(g, a), forall|a: Item<'g, 'r, N>| #[trigger] t.contains(a) ==> g_item(g, a),
    ensures has_move(s, x) ==> has_move(t, x), forall|c: Item<0>| #[trigger] icore(gt(g, s, x), c) ==> icore(gt(g, t, x), c),
{
    if has_move(s, x) {
        let a = choose|a: Item<'g, 'r, N>| #[trigger] s.contains(a) && moves(a, x);
        assert(icore(s, core(a)));
        assert(icore(t, core(a)));
        let a2 = choose|a2: Item<'g, 'r, N>| #[trigger] t.contains(a2) && core(a2) == core(a);
        assert(moves(a2, x));
    }
    assert forall|c: Item<0>| #[trigger] icore(gt(g, s, x), c) implies icore(gt(g, t, x), c) by {
        let b = choose|b: Item<'g, 'r, N>| #[trigger] gt(g, s, x).contains(b) && core(b) == c;
        let a = choose|a: Item<'g, 'r, N>| #[trigger] s.contains(a) && moves(a, x) && gclo(g, adv(a), b);
        assert(icore(s, core(a)));
        assert(icore(t, core(a)));
        let a2 = choose|a2: Item<'g, 'r, N>| #[trigger] t.contains(a2) && core(a2) == core(a);
        lemma_adv(g, rm, f, a, x);
        lemma_adv(g, rm, f, a2, x);
        let k = choose|k: nat| #[trigger] greach(g, k, adv(a), b);
        let b2 = lemma_core_reach(g, rm, f, k, adv(a), adv(a2), b);
        assert(gclo(g, adv(a2), b2));
        assert(in_gt(g, t, x, b2));
        assert(gt(g, t, x).contains(b2));
    }
}
pub proof fn lemma_gt_items<'g, 'r, const N: usize>(g: &Grammar, rm: Prods, f: Sets, s: ISet<Item<'g, 'r, N>>, x: Symbol)
    requires tables_ok::<N>(g, rm, f), forall|a: Item<'g, 'r, N>| #[trigger] s.contains(a) ==> g_item(g, a),
    ensures forall|b: Item<'g, 'r, N>| #[trigger] gt(g, s, x).contains(b) ==> g_item(g, b),
{
    assert forall|b: Item<'g, 'r, N>| #[trigger] gt(g, s, x).contains(b) implies g_item(g, b) by {
        let a = choose|a: Item<'g, 'r, N>| #[trigger] s.contains(a) && moves(a, x) && gclo(g, adv(a), b);
        lemma_adv(g, rm, f, a, x);
        let k = choose|k: nat| #[trigger] greach(g, k, adv(a), b);
        lemma_reach_g(g, rm, f, k, adv(a), b);
    }
}
pub proof fn lemma_canon_items<'g, 'r, const N: usize>(g: &Grammar, rm: Prods, f: Sets, en: Item<'g, 'r, N>, k: nat, s: ISet<Item<'g, 'r, N>>)
    requires tables_ok::<N>(g, rm, f), g_item(g, en), canon(g, en, k, s),
    ensures forall|b: Item<'g, 'r, N>| #[trigger] s.contains(b) ==> g_item(g, b),
    decreases k,
{
    if k == 0 {
        assert forall|b: Item<'g, 'r, N>| #[trigger] s.contains(b) implies g_item(g, b) by {
            let j = choose|j: nat| #[trigger] greach(g, j, en, b);
            lemma_reach_g(g, rm, f, j, en, b);
        }
    } else {
        let (q, x) = choose|q: ISet<Item<'g, 'r, N>>, x: Symbol| canon(g, en, (k - 1) as nat, q) && #[trigger] step_canon(g, q, x, s);
        lemma_canon_items(g, rm, f, en, (k - 1) as nat, q);
        lemma_gt_items(g, rm, f, q, x);
    }
}
pub proof fn lemma_same<const N: usize>(a: ISet<Item<N>>, b: ISet<Item<N>>, c: ISet<Item<N>>)
    ensures same(a, a), same(a, b) ==> same(b, a), same(a, b) && same(b, c) ==> same(a, c),
{
    if same(a, b) { assert forall|x: Item<0>| #[trigger] icore(b, x) <==> icore(a, x) by { assert(icore(a, x) <==> icore(b, x)); } }
    if same(a, b) && same(b, c) { assert forall|x: Item<0>| #[trigger] icore(a, x) <==> icore(c, x) by { assert(icore(b, x) <==> icore(c, x)); } }
}
pub proof fn lemma_same_core<const N: usize>(s: Set<Item<N>>, t: Set<Item<N>>)
    ensures eq_core(s, t) <==> same(il(s), il(t)),
{
    assert forall|c: Item<0>| #[trigger] has_core(s, c) <==> icore(il(s), c) by { lemma_il_core(s, c); }
    assert forall|c: Item<0>| #[trigger] has_core(t, c) <==> icore(il(t), c) by { lemma_il_core(t, c); }
    if eq_core(s, t) { assert forall|c: Item<0>| #[trigger] icore(il(s), c) <==> icore(il(t), c) by { assert(has_core(s, c) <==> has_core(t, c)); } }
    if same(il(s), il(t)) { assert forall|c: Item<0>| #[trigger] has_core(s, c) <==> has_core(t, c) by { assert(icore(il(s), c) <==> icore(il(t), c)); } }
}
pub proof fn lemma_il_core<const N: usize>(s: Set<Item<N>>, c: Item<0>)
    ensures has_core(s, c) <==> icore(il(s), c),
{
    if has_core(s, c) { let a = choose|a: Item<N>| #[trigger] s.contains(a) && core(a) == c; assert(il(s).contains(a)); }
    if icore(il(s), c) { let a = choose|a: Item<N>| #[trigger] il(s).contains(a) && core(a) == c; assert(s.contains(a)); }
}
// the goto of a justified set is justified
pub proof fn lemma_justified<'g, 'r, const N: usize>(g: &Grammar, rm: Prods, f: Sets, lalr: bool, en: Item<'g, 'r, N>, s: ISet<Item<'g, 'r, N>>, x: Symbol)
    requires tables_ok::<N>(g, rm, f), g_item(g, en), justified(g, lalr, en, s), has_move(s, x), forall|a: Item<'g, 'r, N>| #[trigger] s.contains(a) ==> g_item(g, a),
    ensures justified(g, lalr, en, gt(g, s, x)),
{
    let t = gt(g, s, x);
    if lalr {
        assert forall|b: Item<'g, 'r, N>| #[trigger] t.contains(b) implies from_canon(g, en, t, b) by {
            let a = choose|a: Item<'g, 'r, N>| #[trigger] s.contains(a) && moves(a, x) && gclo(g, adv(a), b);
            let (k, c) = choose|k: nat, c: ISet<Item<'g, 'r, N>>| #[trigger] canon(g, en, k, c) && c.contains(a) && same(c, s);
            let d = gt(g, c, x);
            assert(has_move(c, x));
            assert(step_canon(g, c, x, d));
            assert(canon(g, en, k + 1, d));
            assert(in_gt(g, c, x, b));
            lemma_canon_items(g, rm, f, en, k, c);
            lemma_same_gt(g, rm, f, c, s, x);
        }
    } else {
        let k = choose|k: nat| #[trigger] canon(g, en, k, s);
        assert(step_canon(g, s, x, t));
        assert(canon(g, en, k + 1, t));
    }
}
// C10: the canonical collection is all there
pub proof fn thm_canon<'g, 'r, const N: usize>(g: &Grammar, rm: Prods, f: Sets, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, k: nat, c: ISet<Item<'g, 'r, N>>) -> (i: int)
    requires tables_ok::<N>(g, rm, f), g_item(g, en), is_automaton(g, lalr, en, p), canon(g, en, k, c),
    ensures 0 <= i < p.sts().len(), rel(lalr, c, il(p.sts()[i])),
    decreases k,
{
    if k == 0 { p.entry_state->0.i as int }
    else {
        let (s, x) = choose|s: ISet<Item<'g, 'r, N>>, x: Symbol| canon(g, en, (k - 1) as nat, s) && #[trigger] step_canon(g, s, x, c);
        let i = thm_canon(g, rm, f, lalr, en, p, (k - 1) as nat, s);
        let q = il(p.sts()[i]);
        let a = choose|a: Item<'g, 'r, N>| #[trigger] s.contains(a) && moves(a, x);
        assert(q.contains(a));
        assert(has_move(q, x));
        assert(done(g, lalr, p.sts(), p.es(), i));
        assert(edge_for(g, lalr, p.sts(), p.es(), i, q, x));
        let es = p.es();
        let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).s.i == i && es[j].w == x && es[j].t.i < p.sts().len() && rel(lalr, gt(g, q, x), il(p.sts()[es[j].t.i as int]));
        let t = il(p.sts()[es[j].t.i as int]);
        if lalr {
            lemma_canon_items(g, rm, f, en, (k - 1) as nat, s);
            lemma_same_gt(g, rm, f, s, q, x);
            lemma_same(c, gt(g, q, x), t);
            assert forall|b: Item<'g, 'r, N>| #[trigger] c.contains(b) implies t.contains(b) by {
                let a = choose|a: Item<'g, 'r, N>| #[trigger] s.contains(a) && moves(a, x) && gclo(g, adv(a), b);
                assert(q.contains(a));
                assert(gt(g, q, x).contains(b));
            }
        }
        es[j].t.i as int
    }
}
// C10: different states stand for different sets; in LALR mode for different cores
pub proof fn thm_distinct<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, i: int, j: int)
    requires is_automaton(g, lalr, en, p), 0 <= i < p.sts().len(), 0 <= j < p.sts().len(), if lalr { same(il(p.sts()[i]), il(p.sts()[j])) } else { il(p.sts()[i]) == il(p.sts()[j]) },
    ensures i == j,
{
    if lalr { lemma_same_core(p.sts()[i], p.sts()[j]); assert(eq_core(p.sts()[i], p.sts()[j])); }
    else {
        assert forall|a: Item<'g, 'r, N>| p.sts()[i].contains(a) <==> p.sts()[j].contains(a) by {
            assert(il(p.sts()[i]).contains(a) <==> il(p.sts()[j]).contains(a));
        }
        assert(p.sts()[i] =~= p.sts()[j]);
        lemma_wf_distinct(p, i, j);
    }
}
// C10: transitions are exactly the moves, and lead to the one state of the goto
pub proof fn thm_edges<'g, 'r, const N: usize>(g: &Grammar, rm: Prods, f: Sets, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, j: int)
    requires tables_ok::<N>(g, rm, f), is_automaton(g, lalr, en, p), 0 <= j < p.es().len(),
    ensures ({ let e = p.es()[j]; e.s.i < p.sts().len() && e.t.i < p.sts().len() && has_move(il(p.sts()[e.s.i as int]), e.w) && rel(lalr, gt(g, il(p.sts()[e.s.i as int]), e.w), il(p.sts()[e.t.i as int])) }),
{
    let e = p.es()[j];
    let q = il(p.sts()[e.s.i as int]);
    assert(edge_ok(g, lalr, p.sts(), e));
    if lalr {
        assert(done(g, lalr, p.sts(), p.es(), e.s.i as int));
        assert(edge_for(g, lalr, p.sts(), p.es(), e.s.i as int, q, e.w));
        let es = p.es();
        let m = choose|m: int| 0 <= m < es.len() && (#[trigger] es[m]).s.i == e.s.i && es[m].w == e.w && es[m].t.i < p.sts().len() && rel(lalr, gt(g, q, e.w), il(p.sts()[es[m].t.i as int]));
        let t1 = il(p.sts()[e.t.i as int]);
        let t2 = il(p.sts()[es[m].t.i as int]);
        lemma_same(gt(g, q, e.w), t1, t2);
        lemma_same(t1, gt(g, q, e.w), t2);
        thm_distinct(g, lalr, en, p, e.t.i as int, es[m].t.i as int);
    }
}
// C10: no state moves on one symbol twice, differently
pub open spec fn functional<E>(es: Seq<GEdge<E>>) -> bool {
    forall|j: int, k: int| 0 <= j < es.len() && 0 <= k < es.len() && (#[trigger] es[j]).s == (#[trigger] es[k]).s && es[j].w == es[k].w ==> es[j].t == es[k].t
}
pub open spec fn edge_exact<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, st: States<'g, 'r, N>, e: GEdge<Symbol>) -> bool {
    e.s.i < st.len() && e.t.i < st.len() && has_move(il(st[e.s.i as int]), e.w) && rel(lalr, gt(g, il(st[e.s.i as int]), e.w), il(st[e.t.i as int]))
}
// the items of an automaton: the initial one, and productions of the grammar with the dot past empty markers
pub open spec fn own_item<const N: usize>(g: &Grammar, en: Item<N>, a: Item<N>) -> bool {
    a == en || (a.rule.0.lhs is Some && g.rules@.contains(*a.rule.0) && a.d() <= a.rs().len() && (a.d() < a.rs().len() ==> a.rs()[a.d()] != Symbol::Epsilon))
}
pub open spec fn tidy<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>) -> bool {
    &&& functional(p.es())
    &&& forall|j: int| 0 <= j < p.es().len() ==> edge_exact(g, lalr, p.sts(), #[trigger] p.es()[j])
    &&& forall|i: int, a: Item<'g, 'r, N>| 0 <= i < p.sts().len() && #[trigger] p.sts()[i].contains(a) ==> own_item(g, en, a)
}
pub proof fn lemma_own_reach<'g, 'r, const N: usize>(g: &Grammar, en: Item<'g, 'r, N>, k: nat, a: Item<'g, 'r, N>, b: Item<'g, 'r, N>)
    requires g.wf(), small(g), own_item(g, en, a), greach(g, k, a, b),
    ensures own_item(g, en, b),
    decreases k,
{
    if k > 0 {
        let c = choose|c: Item<'g, 'r, N>| greach(g, (k - 1) as nat, a, c) && #[trigger] gstep(g, c, b);
        lemma_norm(b.rs(), 0);
        let i = choose|i: int| 0 <= i < g.rules@.len() && #[trigger] rule_at(g.rules@, i, c.after()->0, b.rule.0);
        assert(g.rules@[i] == *b.rule.0);
    }
}
pub proof fn lemma_own_canon<'g, 'r, const N: usize>(g: &Grammar, en: Item<'g, 'r, N>, k: nat, s: ISet<Item<'g, 'r, N>>, b: Item<'g, 'r, N>)
    requires g.wf(), small(g), is_entry(g, en), canon(g, en, k, s), s.contains(b),
    ensures own_item(g, en, b),
    decreases k,
{
    if k == 0 {
        let m = choose|m: nat| #[trigger] greach(g, m, en, b);
        lemma_own_reach(g, en, m, en, b);
    } else {
        let (q, x) = choose|q: ISet<Item<'g, 'r, N>>, x: Symbol| canon(g, en, (k - 1) as nat, q) && #[trigger] step_canon(g, q, x, s);
        let a = choose|a: Item<'g, 'r, N>| #[trigger] q.contains(a) && moves(a, x) && gclo(g, adv(a), b);
        lemma_own_canon(g, en, (k - 1) as nat, q, a);
        let i = choose|i: int| 0 <= i < g.rules@.len() && #[trigger] g.rules@[i] == *a.rule.0;
        assert(g.rules@[i].rhs@.len() <= 255);
        lemma_norm(a.rs(), a.d() + 1);
        assert(own_item(g, en, adv(a)));
        let m = choose|m: nat| #[trigger] greach(g, m, adv(a), b);
        lemma_own_reach(g, en, m, adv(a), b);
    }
}
pub proof fn thm_tidy<'g, 'r, const N: usize>(g: &Grammar, rm: Prods, f: Sets, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>)
    requires tables_ok::<N>(g, rm, f), is_entry(g, en), is_automaton(g, lalr, en, p),
    ensures tidy(g, lalr, en, p),
{
    assert forall|j: int| 0 <= j < p.es().len() implies edge_exact(g, lalr, p.sts(), #[trigger] p.es()[j]) by { thm_edges(g, rm, f, lalr, en, p, j); }
    let es = p.es();
    assert forall|j: int, k: int| 0 <= j < es.len() && 0 <= k < es.len() && (#[trigger] es[j]).s == (#[trigger] es[k]).s && es[j].w == es[k].w implies es[j].t == es[k].t by {
        assert(edge_exact(g, lalr, p.sts(), es[j]));
        assert(edge_exact(g, lalr, p.sts(), es[k]));
        let q = gt(g, il(p.sts()[es[j].s.i as int]), es[j].w);
        if lalr {
            lemma_same(q, il(p.sts()[es[j].t.i as int]), il(p.sts()[es[k].t.i as int]));
            lemma_same(il(p.sts()[es[j].t.i as int]), q, il(p.sts()[es[k].t.i as int]));
        }
        thm_distinct(g, lalr, en, p, es[j].t.i as int, es[k].t.i as int);
    }
    assert forall|i: int, a: Item<'g, 'r, N>| 0 <= i < p.sts().len() && #[trigger] p.sts()[i].contains(a) implies own_item(g, en, a) by {
        let s = il(p.sts()[i]);
        assert(s.contains(a));
        assert(justified(g, lalr, en, il(p.sts()[i])));
        if lalr {
            assert(from_canon(g, en, s, a));
            let (k, c) = choose|k: nat, c: ISet<Item<'g, 'r, N>>| #[trigger] canon(g, en, k, c) && c.contains(a) && same(c, s);
            lemma_own_canon(g, en, k, c, a);
        } else {
            let k = choose|k: nat| #[trigger] canon(g, en, k, s);
            lemma_own_canon(g, en, k, s, a);
        }
    }
}
// ---- steps of the construction -------------------------------------------------------------------------
pub open spec fn mv_seen<const N: usize>(v: Seq<Item<N>>, n: int, x: Symbol) -> bool { exists|j: int| 0 <= j < n && moves(#[trigger] v[j], x) }
pub open spec fn gt_seen<const N: usize>(g: &Grammar, v: Seq<Item<N>>, n: int, x: Symbol, b: Item<N>) -> bool {
    exists|j: int| 0 <= j < n && moves(#[trigger] v[j], x) && gclo(g, adv(v[j]), b)
}
pub type Moves<'g, 'r, const N: usize> = Map<Symbol, BTreeSet<Item<'g, 'r, N>>>;
pub open spec fn moves_upto<'g, 'r, const N: usize>(g: &Grammar, v: Seq<Item<'g, 'r, N>>, n: int, m: Moves<'g, 'r, N>) -> bool {
    &&& forall|x: Symbol| #[trigger] m.contains_key(x) <==> mv_seen(v, n, x)
    &&& forall|x: Symbol, b: Item<'g, 'r, N>| m.contains_key(x) ==> (#[trigger] m[x]@.contains(b) <==> gt_seen(g, v, n, x, b))
}
pub open spec fn moves_of<'g, 'r, const N: usize>(g: &Grammar, s: ISet<Item<'g, 'r, N>>, m: Moves<'g, 'r, N>) -> bool {
    &&& forall|x: Symbol| #[trigger] m.contains_key(x) <==> has_move(s, x)
    &&& forall|x: Symbol| #[trigger] m.contains_key(x) ==> il(m[x]@) == gt(g, s, x)
}
pub proof fn lemma_moves_of<'g, 'r, const N: usize>(g: &Grammar, s: Set<Item<'g, 'r, N>>, m: Moves<'g, 'r, N>)
    requires moves_upto(g, vx_order(s), vx_order(s).len() as int, m),
    ensures moves_of(g, il(s), m),
{
    let v = vx_order(s);
    let n = v.len() as int;
    assert forall|x: Symbol| mv_seen(v, n, x) <==> #[trigger] has_move(il(s), x) by {
        if mv_seen(v, n, x) { let j = choose|j: int| 0 <= j < n && moves(#[trigger] v[j], x); assert(il(s).contains(v[j])); }
        if has_move(il(s), x) { let a = choose|a: Item<'g, 'r, N>| #[trigger] il(s).contains(a) && moves(a, x); assert(v.contains(a)); let j = choose|j: int| 0 <= j < n && v[j] == a; assert(moves(v[j], x)); }
    }
    assert forall|x: Symbol| #[trigger] m.contains_key(x) implies il(m[x]@) == gt(g, il(s), x) by {
        assert forall|b: Item<'g, 'r, N>| il(m[x]@).contains(b) <==> gt(g, il(s), x).contains(b) by {
            assert(m[x]@.contains(b) <==> gt_seen(g, v, n, x, b));
            if gt_seen(g, v, n, x, b) { let j = choose|j: int| 0 <= j < n && moves(#[trigger] v[j], x) && gclo(g, adv(v[j]), b); assert(il(s).contains(v[j])); }
            if in_gt(g, il(s), x, b) {
                let a = choose|a: Item<'g, 'r, N>| #[trigger] il(s).contains(a) && moves(a, x) && gclo(g, adv(a), b);
                assert(v.contains(a));
                let j = choose|j: int| 0 <= j < n && v[j] == a;
                assert(moves(v[j], x));
            }
        }
        assert(il(m[x]@) =~= gt(g, il(s), x));
    }
}
pub proof fn lemma_moves_step<'g, 'r, const N: usize>(g: &Grammar, v: Seq<Item<'g, 'r, N>>, n: int, m0: Moves<'g, 'r, N>, m: Moves<'g, 'r, N>)
    requires
        0 < n <= v.len(), moves_upto(g, v, n - 1, m0),
        !(exists|x: Symbol| #[trigger] moves(v[n - 1], x)) ==> m == m0,
        forall|x: Symbol| #[trigger] moves(v[n - 1], x) ==> m.dom() == m0.dom().insert(x)
            && (forall|y: Symbol| y != x && #[trigger] m0.contains_key(y) ==> m[y] == m0[y])
            && (forall|b: Item<'g, 'r, N>| #[trigger] m[x]@.contains(b) <==> (m0.contains_key(x) && m0[x]@.contains(b)) || gclo(g, adv(v[n - 1]), b)),
    ensures moves_upto(g, v, n, m),
{
    let a = v[n - 1];
    assert forall|x: Symbol| #[trigger] m.contains_key(x) <==> mv_seen(v, n, x) by {
        assert(m0.contains_key(x) <==> mv_seen(v, n - 1, x));
        if mv_seen(v, n - 1, x) { let j = choose|j: int| 0 <= j < n - 1 && moves(#[trigger] v[j], x); assert(moves(v[j], x)); }
        if mv_seen(v, n, x) && !mv_seen(v, n - 1, x) { let j = choose|j: int| 0 <= j < n && moves(#[trigger] v[j], x); assert(j == n - 1); assert(m.dom().contains(x)); }
        if m.contains_key(x) && !m0.contains_key(x) {
            if exists|y: Symbol| #[trigger] moves(a, y) { let y = choose|y: Symbol| #[trigger] moves(a, y); assert(m.dom().contains(x)); assert(x == y); }
        }
        if m0.contains_key(x) {
            if exists|y: Symbol| #[trigger] moves(a, y) { let y = choose|y: Symbol| #[trigger] moves(a, y); assert(m.dom().contains(x)); }
        }
    }
    assert forall|x: Symbol, b: Item<'g, 'r, N>| m.contains_key(x) implies (#[trigger] m[x]@.contains(b) <==> gt_seen(g, v, n, x, b)) by {
        let was = m0.contains_key(x) && m0[x]@.contains(b);
        assert(m0.contains_key(x) ==> (m0[x]@.contains(b) <==> gt_seen(g, v, n - 1, x, b)));
        if !m0.contains_key(x) { assert(!mv_seen(v, n - 1, x)); assert(!gt_seen(g, v, n - 1, x, b)) by { if gt_seen(g, v, n - 1, x, b) { let j = choose|j: int| 0 <= j < n - 1 && moves(#[trigger] v[j], x) && gclo(g, adv(v[j]), b); assert(mv_seen(v, n - 1, x)); } } }
        assert(was <==> gt_seen(g, v, n - 1, x, b));
        assert(gt_seen(g, v, n, x, b) <==> gt_seen(g, v, n - 1, x, b) || (moves(a, x) && gclo(g, adv(a), b))) by {
            if gt_seen(g, v, n - 1, x, b) { let j = choose|j: int| 0 <= j < n - 1 && moves(#[trigger] v[j], x) && gclo(g, adv(v[j]), b); assert(moves(v[j], x)); }
            if gt_seen(g, v, n, x, b) { let j = choose|j: int| 0 <= j < n && moves(#[trigger] v[j], x) && gclo(g, adv(v[j]), b); assert(j < n - 1 || j == n - 1); }
            if moves(a, x) && gclo(g, adv(a), b) { assert(moves(v[n - 1], x)); }
        }
        if moves(a, x) { } else {
            if exists|y: Symbol| #[trigger] moves(a, y) {
                let y = choose|y: Symbol| #[trigger] moves(a, y);
                assert(m.dom().contains(x));
                assert(x != y);
                assert(m0.contains_key(x));
                assert(m[x] == m0[x]);
            }
        }
    }
}
