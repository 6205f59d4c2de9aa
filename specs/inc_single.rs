// C12: without conflicts there is one entry to a cell at most
pub open spec fn single<'g, 'r>(n: int, t: ActionGotoTable<'g, 'r>) -> bool { forall|i: int, x: Symbol| 0 <= i < n ==> (#[trigger] cell(t.entries@, i, x)).len() <= 1 }
pub proof fn thm_single<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, t: ActionGotoTable<'g, 'r>, cs: Set<Conflict<'g, 'r>>)
    requires N <= 1, g.wf(), is_automaton(g, lalr, en, p), table_ok(g, p, t), conflicts_exact(p.sts(), p.es(), cs), forall|c: Conflict<'g, 'r>| !cs.contains(c),
    ensures single(p.sts().len() as int, t),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let st = p.sts();
    let es = p.es();
    let e0 = t.entry_state as int;
    assert forall|i: int, x: Symbol| 0 <= i < st.len() implies (#[trigger] cell(t.entries@, i, x)).len() <= 1 by {
        let c = cell(t.entries@, i, x);
        assert(cell_ok(c, g, st, es, e0, i, x));
        let (v, w) = choose|v: Seq<Item<'g, 'r, N>>, w: Seq<TE<'g, 'r>>| #[trigger] cell_made(c, g, st, es, e0, i, x, v, w);
        assert(c.to_multiset().len() == c.len());
        assert((reds(v) + w).to_multiset().len() == (reds(v) + w).len());
        assert(c.len() == v.len() + w.len());
        assert(w.len() <= 1);
        assert(state_reported(st, es, cs, i));
        if v.len() > 0 {
            assert(v.contains(v[0]));
            let la = v[0].lookahead;
            assert forall|a: Item<'g, 'r, N>| v.contains(a) implies a.lookahead == la by {
                assert(looks(g, a, x) && looks(g, v[0], x));
                assert(a.lookahead@ =~= la@) by { if N == 1 { assert(a.lookahead@[0] == la@[0]); } }
                assert(a.lookahead =~= la);
            }
            assert(reported(st, es, cs, i, la));
            if v.len() > 1 {
                assert(v.contains(v[1]));
                assert(completed(st[i], la, v[0]) && completed(st[i], la, v[1]) && v[0] != v[1]);
                assert(two(st[i], la));
            }
            assert(st[i].contains(v[0]) && g_item(g, v[0]));
            assert(!is_nt(x)) by { if N == 0 && g.ts().contains(x) { let j = choose|j: int| 0 <= j < g.ts().len() && g.ts()[j] == x; assert(g.ts()[j] is Terminal); } }
            assert(is_nt(g.entry_symbol)) by { let j = choose|j: int| 0 <= j < g.nts().len() && g.nts()[j] == g.entry_symbol; }
            if w.len() == 1 {
                assert(exists|q: int| leads(es, i, x, q));
                let q = choose|q: int| leads(es, i, x, q);
                let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).s.i == i && es[j].w == x && es[j].t.i == q;
                assert forall|b: Item<'g, 'r, N>| #[trigger] completed(st[i], la, b) implies b == v[0] by { assert(looks(g, b, x)); assert(v.contains(b)); }
                assert(only(st[i], la, v[0]));
                assert(shifts_on(es, i, la, x));
                assert(cs.contains(sr_c(i, v[0], x)));
            }
        }
    }
}
