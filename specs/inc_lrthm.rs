// ---- driving a conflict-free table keeps the stack a viable prefix ------------------------------------------
// states and symbols along a path of the automaton from its entry
pub open spec fn path(es: Seq<GEdge<Symbol>>, en: usize, st: Seq<usize>, sy: Seq<Symbol>) -> bool {
    &&& st.len() == sy.len() + 1 && st[0] == en
    &&& forall|i: int| 0 <= i < sy.len() ==> leads(es, st[i] as int, #[trigger] sy[i], st[i + 1] as int)
}
// a state of the path: the entry, or where an edge leads
pub open spec fn reached(es: Seq<GEdge<Symbol>>, en: usize, q: int) -> bool { q == en || exists|s: int, x: Symbol| #[trigger] leads(es, s, x, q) }
pub open spec fn before<const N: usize>(a: Item<N>) -> Seq<Symbol> { plain(a.rs().take(a.d())) }
pub open spec fn auto_ok<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>) -> bool {
    N <= 1 && g.wf() && small(g) && is_entry(g, en) && is_automaton(g, lalr, en, p) && tidy(g, lalr, en, p)
}
pub proof fn lemma_norm_plain(s: Seq<Symbol>, d: int)
    requires 0 <= d <= s.len(),
    ensures plain(s.take(norm(s, d))) == plain(s.take(d)),
    decreases s.len() - d,
{
    if d < s.len() && s[d] == Symbol::Epsilon {
        lemma_norm_plain(s, d + 1);
        assert(s.take(d + 1).drop_last() =~= s.take(d));
    }
}
pub proof fn lemma_start_plain(s: Seq<Symbol>)
    ensures plain(s.take(norm(s, 0))).len() == 0,
{ lemma_norm_plain(s, 0); }
pub proof fn lemma_lhs_reach<'g, 'r, const N: usize>(g: &Grammar, k: nat, a: Item<'g, 'r, N>, b: Item<'g, 'r, N>)
    requires g.wf(), greach(g, k, a, b), k > 0 || a.rule.0.lhs is Some,
    ensures b.rule.0.lhs is Some,
    decreases k,
{
    if k > 0 {
        let c = choose|c: Item<'g, 'r, N>| greach(g, (k - 1) as nat, a, c) && #[trigger] gstep(g, c, b);
        let i = choose|i: int| 0 <= i < g.rules@.len() && #[trigger] rule_at(g.rules@, i, c.after()->0, b.rule.0);
    }
}
// advancing an item of the automaton moves its symbol before the dot
pub proof fn lemma_adv_before<'g, 'r, const N: usize>(g: &Grammar, en: Item<'g, 'r, N>, a: Item<'g, 'r, N>, x: Symbol)
    requires small(g), g.wf(), is_entry(g, en), own_item(g, en, a), moves(a, x),
    ensures before(adv(a)) == before(a).push(x), adv(a).rule == a.rule,
{
    let s = a.rs();
    lemma_norm_plain(s, a.d() + 1);
    lemma_norm(s, a.d() + 1);
    let i = choose|i: int| 0 <= i < g.rules@.len() && g.rules@[i] == *a.rule.0;
    assert(s.len() <= 255);
    assert(s.take(a.d() + 1).drop_last() =~= s.take(a.d()));
}
// where an item of a state comes from
pub proof fn lemma_from_edge<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, s: int, x: Symbol, q: int, a: Item<'g, 'r, N>) -> (r: (Item<'g, 'r, N>, Item<'g, 'r, N>))
    requires auto_ok(g, lalr, en, p), leads(p.es(), s, x, q), p.sts()[q].contains(a),
    ensures 0 <= s < p.sts().len(), 0 <= q < p.sts().len(), p.sts()[s].contains(r.0), moves(r.0, x), gclo(g, adv(r.0), r.1), core(r.1) == core(a),
{
    let j = choose|j: int| 0 <= j < p.es().len() && (#[trigger] p.es()[j]).s.i == s && p.es()[j].w == x && p.es()[j].t.i == q;
    assert(edge_exact(g, lalr, p.sts(), p.es()[j]));
    let G = gt(g, il(p.sts()[s]), x);
    assert(il(p.sts()[q]).contains(a));
    assert(icore(il(p.sts()[q]), core(a)));
    assert(icore(G, core(a)));
    let c = choose|c: Item<'g, 'r, N>| #[trigger] G.contains(c) && core(c) == core(a);
    assert(in_gt(g, il(p.sts()[s]), x, c));
    let b = choose|b: Item<'g, 'r, N>| #[trigger] il(p.sts()[s]).contains(b) && moves(b, x) && gclo(g, adv(b), c);
    (b, c)
}
pub proof fn lemma_to_edge<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, s: int, x: Symbol, q: int, b: Item<'g, 'r, N>, c: Item<'g, 'r, N>) -> (a: Item<'g, 'r, N>)
    requires auto_ok(g, lalr, en, p), leads(p.es(), s, x, q), 0 <= s < p.sts().len(), p.sts()[s].contains(b), moves(b, x), gclo(g, adv(b), c),
    ensures 0 <= q < p.sts().len(), p.sts()[q].contains(a), core(a) == core(c),
{
    let j = choose|j: int| 0 <= j < p.es().len() && (#[trigger] p.es()[j]).s.i == s && p.es()[j].w == x && p.es()[j].t.i == q;
    assert(edge_exact(g, lalr, p.sts(), p.es()[j]));
    let G = gt(g, il(p.sts()[s]), x);
    assert(il(p.sts()[s]).contains(b));
    assert(in_gt(g, il(p.sts()[s]), x, c));
    assert(G.contains(c));
    assert(icore(G, core(c)));
    assert(icore(il(p.sts()[q]), core(c)));
    let a = choose|a: Item<'g, 'r, N>| #[trigger] il(p.sts()[q]).contains(a) && core(a) == core(c);
    a
}
pub proof fn lemma_from_entry<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, a: Item<'g, 'r, N>) -> (c: Item<'g, 'r, N>)
    requires auto_ok(g, lalr, en, p), p.sts()[p.entry_state->0.i as int].contains(a),
    ensures gclo(g, en, c), core(c) == core(a),
{
    let q = p.entry_state->0.i as int;
    let G = iclo(g, en);
    assert(il(p.sts()[q]).contains(a));
    assert(icore(il(p.sts()[q]), core(a)));
    assert(icore(G, core(a)));
    let c = choose|c: Item<'g, 'r, N>| #[trigger] G.contains(c) && core(c) == core(a);
    c
}
pub proof fn lemma_to_entry<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, c: Item<'g, 'r, N>) -> (a: Item<'g, 'r, N>)
    requires auto_ok(g, lalr, en, p), gclo(g, en, c),
    ensures p.sts()[p.entry_state->0.i as int].contains(a), core(c) == core(a),
{
    let q = p.entry_state->0.i as int;
    let G = iclo(g, en);
    assert(G.contains(c));
    assert(icore(G, core(c)));
    assert(icore(il(p.sts()[q]), core(c)));
    let a = choose|a: Item<'g, 'r, N>| #[trigger] il(p.sts()[q]).contains(a) && core(a) == core(c);
    a
}
// the entry state's items have nothing before their dot
pub proof fn lemma_entry_before<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, a: Item<'g, 'r, N>)
    requires auto_ok(g, lalr, en, p), p.sts()[p.entry_state->0.i as int].contains(a),
    ensures before(a).len() == 0,
{
    let c = lemma_from_entry(g, lalr, en, p, a);
    lemma_core_parts(c, a);
    let k = choose|k: nat| #[trigger] greach(g, k, en, c);
    if k == 0 { assert(a.rs().take(0).len() == 0); }
    else { lemma_start_plain(c.rs()); }
}
pub proof fn lemma_entry_first<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, s: int, x: Symbol)
    requires auto_ok(g, lalr, en, p), leads(p.es(), s, x, p.entry_state->0.i as int),
    ensures false,
{
    let q = p.entry_state->0.i as int;
    let j = choose|j: int| 0 <= j < p.es().len() && (#[trigger] p.es()[j]).s.i == s && p.es()[j].w == x && p.es()[j].t.i == q;
    assert(edge_exact(g, lalr, p.sts(), p.es()[j]));
    let b = choose|b: Item<'g, 'r, N>| #[trigger] il(p.sts()[s]).contains(b) && moves(b, x);
    assert(p.sts()[s].contains(b));
    assert(greach(g, 0, adv(b), adv(b)));
    let a = lemma_to_edge(g, lalr, en, p, s, x, q, b, adv(b));
    lemma_core_parts(a, adv(b));
    lemma_adv_before(g, en, b, x);
    lemma_entry_before(g, lalr, en, p, a);
}
// what is before the dot of an item of the last state is on top, and the item started where it begins
pub proof fn lemma_prefix<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, st: Seq<usize>, sy: Seq<Symbol>, a: Item<'g, 'r, N>) -> (a0: Item<'g, 'r, N>)
    requires auto_ok(g, lalr, en, p), path(p.es(), p.entry_state->0.i, st, sy), p.sts()[st.last() as int].contains(a),
    ensures
        before(a).len() <= sy.len(), sy.skip(sy.len() - before(a).len()) == before(a),
        a0.rule == a.rule, before(a0).len() == 0, p.sts()[st[sy.len() - before(a).len()] as int].contains(a0),
    decreases sy.len(),
{
    let m = sy.len() as int;
    if m == 0 {
        lemma_entry_before(g, lalr, en, p, a);
        assert(sy.skip(0) =~= before(a));
        a
    } else {
        assert(leads(p.es(), st[m - 1] as int, sy[m - 1], st[m] as int));
        let (b, c) = lemma_from_edge(g, lalr, en, p, st[m - 1] as int, sy[m - 1], st[m] as int, a);
        lemma_core_parts(c, a);
        let k = choose|k: nat| #[trigger] greach(g, k, adv(b), c);
        if k > 0 {
            lemma_start_plain(c.rs());
            assert(sy.skip(m) =~= before(a));
            a
        } else {
            lemma_adv_before(g, en, b, sy[m - 1]);
            assert forall|i: int| 0 <= i < sy.drop_last().len() implies leads(p.es(), st.drop_last()[i] as int, #[trigger] sy.drop_last()[i], st.drop_last()[i + 1] as int) by { assert(leads(p.es(), st[i] as int, sy[i], st[i + 1] as int)); }
            let a0 = lemma_prefix(g, lalr, en, p, st.drop_last(), sy.drop_last(), b);
            let u = sy.drop_last();
            assert(sy.skip(m - before(a).len()) =~= u.skip(u.len() - before(b).len()).push(sy[m - 1]));
            a0
        }
    }
}
// where an item started, the goto of its rule's nonterminal is there
pub proof fn lemma_goto<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, q: int, a: Item<'g, 'r, N>)
    requires auto_ok(g, lalr, en, p), reached(p.es(), p.entry_state->0.i, q), p.sts()[q].contains(a), before(a).len() == 0, a.rule.0.lhs is Some,
    ensures (q == p.entry_state->0.i && a.rule.0.l() == g.entry_symbol) || exists|t: int| leads(p.es(), q, a.rule.0.l(), t),
{
    let A = a.rule.0.l();
    if q == p.entry_state->0.i {
        let c = lemma_from_entry(g, lalr, en, p, a);
        lemma_core_parts(c, a);
        let k = choose|k: nat| #[trigger] greach(g, k, en, c);
        assert(k > 0);
        let d = choose|d: Item<'g, 'r, N>| greach(g, (k - 1) as nat, en, d) && #[trigger] gstep(g, d, c);
        let i = choose|i: int| 0 <= i < g.rules@.len() && #[trigger] rule_at(g.rules@, i, d.after()->0, c.rule.0);
        if k - 1 == 0 {
            assert(d == en);
        } else {
            lemma_lhs_reach(g, (k - 1) as nat, en, d);
            let e = lemma_to_entry(g, lalr, en, p, d);
            lemma_core_parts(e, d);
            lemma_moves_on(g, lalr, en, p, q, e, A);
        }
    } else {
        let (s, x) = choose|s: int, x: Symbol| #[trigger] leads(p.es(), s, x, q);
        let (b, c) = lemma_from_edge(g, lalr, en, p, s, x, q, a);
        lemma_core_parts(c, a);
        lemma_adv_before(g, en, b, x);
        let k = choose|k: nat| #[trigger] greach(g, k, adv(b), c);
        assert(k > 0);
        let d = choose|d: Item<'g, 'r, N>| greach(g, (k - 1) as nat, adv(b), d) && #[trigger] gstep(g, d, c);
        let i = choose|i: int| 0 <= i < g.rules@.len() && #[trigger] rule_at(g.rules@, i, d.after()->0, c.rule.0);
        lemma_lhs_reach(g, (k - 1) as nat, adv(b), d);
        assert(gclo(g, adv(b), d));
        let e = lemma_to_edge(g, lalr, en, p, s, x, q, b, d);
        lemma_core_parts(e, d);
        lemma_moves_on(g, lalr, en, p, q, e, A);
    }
}
pub proof fn lemma_moves_on<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, q: int, e: Item<'g, 'r, N>, x: Symbol)
    requires auto_ok(g, lalr, en, p), 0 <= q < p.sts().len(), p.sts()[q].contains(e), moves(e, x),
    ensures exists|t: int| leads(p.es(), q, x, t),
{
    assert(il(p.sts()[q]).contains(e));
    assert(has_move(il(p.sts()[q]), x));
    assert(done(g, lalr, p.sts(), p.es(), q));
    assert(edge_for(g, lalr, p.sts(), p.es(), q, il(p.sts()[q]), x));
    let es = p.es();
    let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).s.i == q && es[j].w == x && es[j].t.i < p.sts().len() && rel(lalr, gt(g, il(p.sts()[q]), x), il(p.sts()[es[j].t.i as int]));
    assert(leads(es, q, x, es[j].t.i as int));
}
// ---- the cells ----------------------------------------------------------------------------------------------
pub open spec fn tab_of<'g, 'r, const N: usize>(t: TabG<'g, 'r>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>) -> bool {
    t.c == b.entries@ && t.n == p.sts().len() && t.en == b.entry_state
}
pub open spec fn driven<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>) -> bool {
    auto_ok(t.g, lalr, en, p) && table_ok(t.g, p, b) && single(p.sts().len() as int, b) && tab_of(t, p, b) && tab_wf(t)
}
pub proof fn lemma_one<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>, q: int, x: Symbol) -> (r: (Seq<Item<'g, 'r, N>>, Seq<TE<'g, 'r>>))
    requires driven(lalr, en, p, b, t), 0 <= q < t.n,
    ensures
        cell_made(cell(t.c, q, x), t.g, p.sts(), p.es(), t.en as int, q, x, r.0, r.1),
        cell(t.c, q, x).len() == r.0.len() + r.1.len() && cell(t.c, q, x).len() <= 1,
        r.0.len() == 1 ==> cell(t.c, q, x)[0] == red(r.0[0]),
        r.1.len() == 1 ==> cell(t.c, q, x)[0] == r.1[0],
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let c = cell(t.c, q, x);
    let es = p.es();
    assert(cell_ok(cell(b.entries@, q, x), t.g, p.sts(), es, b.entry_state as int, q, x));
    let (v, w) = choose|v: Seq<Item<'g, 'r, N>>, w: Seq<TE<'g, 'r>>| #[trigger] cell_made(c, t.g, p.sts(), es, t.en as int, q, x, v, w);
    let s = reds(v) + w;
    assert(c.to_multiset().len() == c.len());
    assert(s.to_multiset().len() == s.len());
    if s.len() == 1 {
        assert(s.contains(s[0]));
        assert(s.to_multiset().count(s[0]) > 0);
        assert(c.contains(s[0]));
    }
    (v, w)
}
pub proof fn lemma_cell_reduce<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>, q: int, x: Symbol) -> (a: Item<'g, 'r, N>)
    requires driven(lalr, en, p, b, t), 0 <= q < t.n, cell(t.c, q, x).len() > 0, cell(t.c, q, x)[0] is Reduce,
    ensures p.sts()[q].contains(a), a.after() is None, cell(t.c, q, x)[0] == red(a), t.g.rules@.contains(*a.rule.0),
{
    let (v, w) = lemma_one(lalr, en, p, b, t, q, x);
    assert(v.contains(v[0]));
    assert(own_item(t.g, en, v[0]));
    v[0]
}
pub proof fn lemma_cell_shift<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>, q: int, x: Symbol)
    requires driven(lalr, en, p, b, t), 0 <= q < t.n, cell(t.c, q, x).len() > 0,
    ensures
        cell(t.c, q, x)[0] matches TableEntry::Shift { target } ==> leads(p.es(), q, x, target as int) && target < t.n && a_symbol(t.g, x),
        cell(t.c, q, x)[0] is Accept ==> q == t.en && x == t.g.entry_symbol,
{
    let (v, w) = lemma_one(lalr, en, p, b, t, q, x);
    lemma_fit(t.g, lalr, en, p);
}
// on a nonterminal there are no reductions
pub proof fn lemma_cell_goto<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>, q: int, x: Symbol)
    requires driven(lalr, en, p, b, t), 0 <= q < t.n, is_nt(x), (q == t.en && x == t.g.entry_symbol) || exists|s: int| leads(p.es(), q, x, s),
    ensures !(mv(t, q as usize, x) is Stuck),
{
    let (v, w) = lemma_one(lalr, en, p, b, t, q, x);
    if v.len() > 0 {
        assert(v.contains(v[0]));
        assert(looks(t.g, v[0], x) && p.sts()[q].contains(v[0]));
        assert(g_item(t.g, v[0]));
        if N == 0 && t.g.ts().contains(x) { let j = choose|j: int| 0 <= j < t.g.ts().len() && t.g.ts()[j] == x; assert(t.g.ts()[j] is Terminal); }
    }
}
// a reduction of a cell is an item of the state, complete
pub proof fn lemma_act_reduce<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>, q: int, k: TokenType) -> (a: Item<'g, 'r, N>)
    requires driven(lalr, en, p, b, t), 0 <= q < t.n, act(t, q as usize, k) is Reduce,
    ensures ({
        let i = act(t, q as usize, k)->Reduce_0;
        0 <= i < t.g.rules@.len() && t.g.rules@[i] == *a.rule.0 && p.sts()[q].contains(a) && before(a) == plain(t.g.rules@[i].rhs@) && a.rule.0.lhs is Some
    }),
{
    let x = sym_of(t.g, k)->0;
    let i = act(t, q as usize, k)->Reduce_0;
    let a = lemma_cell_reduce(lalr, en, p, b, t, q, x);
    let j = choose|j: int| 0 <= j < t.g.rules@.len() && t.g.rules@[j] == *a.rule.0;
    assert(t.g.rules@[j] == *a.rule.0);
    assert(t.g.rules@[i] == *a.rule.0);
    assert(g_item(t.g, a));
    assert(a.rs().take(a.d()) =~= a.rs());
    assert(rule_wf(t.g, t.g.rules@[i]));
    a
}
// the goto after it
pub proof fn lemma_land<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>, d: Cfg, a: Item<'g, 'r, N>)
    requires driven(lalr, en, p, b, t), half_way(p, t, d), p.sts()[d.st.last() as int].contains(a), before(a).len() == 0, a.rule.0.lhs is Some, d.sy.last() == a.rule.0.l(),
    ensures !(land(t, d) is Stuck), land(t, d) matches Out::Done(e) ==> e.st.len() == 1 && e.sy == seq![t.g.entry_symbol], land(t, d) matches Out::Next(e) ==> on_path(p, t, e),
{
    hide(ginv); hide(tidy); hide(table_ok); hide(single);
    let r = d.st.last() as int;
    let n = d.st.len() - 1;
    assert(r == d.st[n]);
    if n > 0 { assert(leads(p.es(), d.st[n - 1] as int, d.sy[n - 1], d.st[n] as int)); }
    lemma_same_entry(lalr, en, p, b, t);
    assert(reached(p.es(), t.en, r));
    if r == t.en && n > 0 { lemma_entry_first(t.g, lalr, en, p, d.st[n - 1] as int, d.sy[n - 1]); }
    lemma_goto(t.g, lalr, en, p, r, a);
    lemma_cell_goto(lalr, en, p, b, t, r, d.sy.last());
    lemma_cell_shift(lalr, en, p, b, t, r, d.sy.last());
    lemma_extend(p, t, d);
    if land(t, d) is Done { assert(d.sy =~= seq![t.g.entry_symbol]); }
}
pub proof fn lemma_same_entry<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>)
    requires driven(lalr, en, p, b, t),
    ensures p.entry_state->0.i == t.en, t.n == p.sts().len(),
{ }
pub proof fn lemma_drive_reduce<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>, f: Toks, c: Cfg)
    requires driven(lalr, en, p, b, t), on_path(p, t, c), act(t, c.st.last(), f(c.pos)) is Reduce,
    ensures fits(t, f, c), lr_step(t, f, c) matches Out::Next(d) ==> on_path(p, t, d),
{
    hide(ginv); hide(tidy); hide(table_ok); hide(single); hide(is_automaton);
    let q = c.st.last() as int;
    assert(c.st[c.st.len() - 1] < t.n);
    let i = act(t, c.st.last(), f(c.pos))->Reduce_0;
    let a = lemma_act_reduce(lalr, en, p, b, t, q, f(c.pos));
    lemma_same_entry(lalr, en, p, b, t);
    let a0 = lemma_prefix(t.g, lalr, en, p, c.st, c.sy, a);
    let m = plain(t.g.rules@[i].rhs@).len() as int;
    let d = reduced(t, c, i);
    assert(d.st.last() == c.st[c.sy.len() - m]);
    assert forall|k: int| 0 <= k < d.st.len() - 1 implies leads(p.es(), d.st[k] as int, #[trigger] d.sy[k], d.st[k + 1] as int) by { assert(leads(p.es(), c.st[k] as int, c.sy[k], c.st[k + 1] as int)); }
    assert forall|k: int| 0 <= k < d.sy.len() implies #[trigger] a_symbol(t.g, d.sy[k]) by {
        if k < d.sy.len() - 1 { assert(a_symbol(t.g, c.sy[k])); }
        else { assert(rule_wf(t.g, t.g.rules@[i])); }
    }
    assert forall|k: int| 0 <= k < d.st.len() implies #[trigger] d.st[k] < t.n by { assert(c.st[k] < t.n); }
    lemma_land(lalr, en, p, b, t, d, a0);
}
pub proof fn lemma_drive_shift<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>, f: Toks, c: Cfg)
    requires driven(lalr, en, p, b, t), on_path(p, t, c), act(t, c.st.last(), f(c.pos)) is Shift,
    ensures fits(t, f, c), lr_step(t, f, c) matches Out::Next(d) ==> on_path(p, t, d),
{
    hide(ginv); hide(tidy); hide(table_ok); hide(single); hide(is_automaton);
    let q = c.st.last() as int;
    assert(c.st[c.st.len() - 1] < t.n);
    let x = sym_of(t.g, f(c.pos))->0;
    assert(a_token(t.g, x));
    lemma_cell_shift(lalr, en, p, b, t, q, x);
    if t.g.nts().contains(x) { let j = choose|j: int| 0 <= j < t.g.nts().len() && t.g.nts()[j] == x; assert(is_nt(t.g.nts()[j])); }
    if t.g.ts().contains(x) { let j = choose|j: int| 0 <= j < t.g.ts().len() && t.g.ts()[j] == x; assert(t.g.ts()[j] is Terminal); }
    let d = shifted(t, f, c);
    assert forall|k: int| 0 <= k < d.st.len() - 1 implies leads(p.es(), d.st[k] as int, #[trigger] d.sy[k], d.st[k + 1] as int) by { assert(leads(p.es(), c.st[k] as int, c.sy[k], c.st[k + 1] as int)); }
    lemma_extend(p, t, d);
}
// one step from a path stays on it, and does what the stack discipline asks
pub proof fn lemma_drive<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>, f: Toks, c: Cfg)
    requires driven(lalr, en, p, b, t), on_path(p, t, c),
    ensures fits(t, f, c), lr_step(t, f, c) matches Out::Next(d) ==> on_path(p, t, d),
{
    hide(driven); hide(on_path);
    match act(t, c.st.last(), f(c.pos)) {
        Act::Bad => { },
        Act::Shift => { lemma_drive_shift(lalr, en, p, b, t, f, c); },
        Act::Reduce(i) => { lemma_drive_reduce(lalr, en, p, b, t, f, c); },
    }
}
pub open spec fn on_path<'g, 'r, const N: usize>(p: ParserGraph<'g, 'r, N>, t: TabG<'g, 'r>, c: Cfg) -> bool {
    path(p.es(), t.en, c.st, c.sy) && in_range(t, c)
}
// on the way from one state to the next
pub open spec fn half_way<'g, 'r, const N: usize>(p: ParserGraph<'g, 'r, N>, t: TabG<'g, 'r>, c: Cfg) -> bool {
    &&& c.st.len() == c.sy.len() && c.st.len() > 0 && c.st[0] == t.en && in_range(t, c)
    &&& forall|k: int| 0 <= k < c.st.len() - 1 ==> leads(p.es(), c.st[k] as int, #[trigger] c.sy[k], c.st[k + 1] as int)
}
pub proof fn lemma_extend<'g, 'r, const N: usize>(p: ParserGraph<'g, 'r, N>, t: TabG<'g, 'r>, c: Cfg)
    requires half_way(p, t, c), land(t, c) matches Out::Next(d) ==> d.st.last() < t.n && leads(p.es(), c.st.last() as int, c.sy.last(), d.st.last() as int),
    ensures land(t, c) matches Out::Next(d) ==> on_path(p, t, d),
{
    if let Out::Next(d) = land(t, c) {
        assert forall|k: int| 0 <= k < d.sy.len() implies leads(p.es(), d.st[k] as int, #[trigger] d.sy[k], d.st[k + 1] as int) by {
            if k < c.st.len() - 1 { assert(leads(p.es(), c.st[k] as int, c.sy[k], c.st[k + 1] as int)); }
        }
    }
}
// C16: a conflict-free table drives the stack soundly on every token sequence
pub proof fn thm_sound<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>)
    requires driven(lalr, en, p, b, t),
    ensures lr_sound(t),
{
    assert forall|f: Toks, k: nat| match #[trigger] run(t, f, k) { Some(c) => fits(t, f, c), None => true } by {
        if run(t, f, k) is Some { lemma_driven(lalr, en, p, b, t, f, k); lemma_drive(lalr, en, p, b, t, f, run(t, f, k)->0); }
    }
}
pub proof fn lemma_driven<'g, 'r, const N: usize>(lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, b: ActionGotoTable<'g, 'r>, t: TabG<'g, 'r>, f: Toks, k: nat)
    requires driven(lalr, en, p, b, t), run(t, f, k) is Some,
    ensures on_path(p, t, run(t, f, k)->0),
    decreases k,
{
    if k > 0 {
        lemma_driven(lalr, en, p, b, t, f, (k - 1) as nat);
        lemma_drive(lalr, en, p, b, t, f, run(t, f, (k - 1) as nat)->0);
    }
}
