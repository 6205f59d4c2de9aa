// ---- states grow, keeping their cores ------------------------------------------------------------------
pub open spec fn gstates<'g, 'r, const N: usize>(lalr: bool, o: States<'g, 'r, N>, n: States<'g, 'r, N>) -> bool {
    o.len() <= n.len() && forall|i: int| 0 <= i < o.len() ==> rel(lalr, il(o[i]), il(#[trigger] n[i]))
}
pub open spec fn g_items<'g, 'r, const N: usize>(g: &Grammar, s: States<'g, 'r, N>) -> bool {
    forall|i: int, a: Item<'g, 'r, N>| 0 <= i < s.len() && #[trigger] s[i].contains(a) ==> g_item(g, a)
}
pub proof fn lemma_grow_edge<'g, 'r, const N: usize>(g: &Grammar, rm: Prods, f: Sets, lalr: bool, o: States<'g, 'r, N>, n: States<'g, 'r, N>, e: GEdge<Symbol>)
    requires tables_ok::<N>(g, rm, f), gstates(lalr, o, n), g_items(g, o), g_items(g, n), edge_ok(g, lalr, o, e),
    ensures edge_ok(g, lalr, n, e),
{
    let a = il(o[e.s.i as int]);
    let b = il(n[e.s.i as int]);
    let t = il(o[e.t.i as int]);
    let u = il(n[e.t.i as int]);
    assert(rel(lalr, a, b) && rel(lalr, t, u));
    if lalr {
        lemma_same_gt(g, rm, f, a, b, e.w);
        lemma_same(gt(g, a, e.w), gt(g, b, e.w), u);
        lemma_same(gt(g, b, e.w), gt(g, a, e.w), u);
        lemma_same(gt(g, a, e.w), t, u);
    }
}
pub proof fn lemma_grow_for<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, o: States<'g, 'r, N>, n: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, fs: Seq<GEdge<Symbol>>, i: int, p: ISet<Item<'g, 'r, N>>, x: Symbol)
    requires gstates(lalr, o, n), es.len() <= fs.len(), fs.take(es.len() as int) == es, edge_for(g, lalr, o, es, i, p, x),
    ensures edge_for(g, lalr, n, fs, i, p, x),
{
    let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).s.i == i && es[j].w == x && es[j].t.i < o.len() && rel(lalr, gt(g, p, x), il(o[es[j].t.i as int]));
    assert(fs[j] == fs.take(es.len() as int)[j]);
    assert(fs[j].s.i == i);
    let t = es[j].t.i as int;
    assert(rel(lalr, il(o[t]), il(n[t])));
    lemma_same(gt(g, p, x), il(o[t]), il(n[t]));
}
pub proof fn lemma_grow_done<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, o: States<'g, 'r, N>, n: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, fs: Seq<GEdge<Symbol>>, i: int)
    requires gstates(lalr, o, n), es.len() <= fs.len(), fs.take(es.len() as int) == es, 0 <= i < o.len(), done(g, lalr, o, es, i), il(n[i]) == il(o[i]),
    ensures done(g, lalr, n, fs, i),
{
    assert forall|x: Symbol| #[trigger] has_move(il(n[i]), x) implies edge_for(g, lalr, n, fs, i, il(n[i]), x) by {
        lemma_grow_for(g, lalr, o, n, es, fs, i, il(o[i]), x);
    }
}
// adding items to a state that its core already has
pub proof fn lemma_merge<'g, 'r, const N: usize>(o: ParserGraph<'g, 'r, N>, m: ParserGraph<'g, 'r, N>, s: NodeIndex, t: Set<Item<'g, 'r, N>>, r: bool)
    requires o.wf(), o.cm_ok(), s.i < o.sts().len(), eq_core(o.sts()[s.i as int], t), merged(o, m, s, t, r),
    ensures m.wf(), m.cm_ok(), eq_core(o.sts()[s.i as int], o.sts()[s.i as int].union(t)),
{
    let a = o.sts()[s.i as int];
    let u = a.union(t);
    assert forall|c: Item<0>| #[trigger] has_core(a, c) <==> has_core(u, c) by {
        assert(has_core(a, c) <==> has_core(t, c));
        if has_core(a, c) { let x = choose|x: Item<'g, 'r, N>| #[trigger] a.contains(x) && core(x) == c; assert(u.contains(x)); }
        if has_core(u, c) {
            let x = choose|x: Item<'g, 'r, N>| #[trigger] u.contains(x) && core(x) == c;
            if a.contains(x) { } else { assert(t.contains(x)); assert(has_core(t, c)); }
        }
    }
    assert forall|i: int| 0 <= i < o.sts().len() && i != s.i implies #[trigger] o.sts()[i] != u by {
        if o.sts()[i] == u { assert(eq_core(o.sts()[s.i as int], o.sts()[i])); }
    }
}
// the state chosen for the goto t: an existing one, a new one, or one with the same core that takes its items
pub open spec fn next_state<'g, 'r, const N: usize>(lalr: bool, o: ParserGraph<'g, 'r, N>, m: ParserGraph<'g, 'r, N>, u: Seq<NodeIndex>, v: Seq<NodeIndex>, k: NodeIndex, t: Set<Item<'g, 'r, N>>) -> bool {
    &&& m.wf() && (lalr ==> m.cm_ok()) && m.es() == o.es() && m.entry_state == o.entry_state
    &&& {
        ||| !lalr && m.sts() == o.sts() && v == u && k.i < o.sts().len() && o.sts()[k.i as int] == t
        ||| m.sts() == o.sts().push(t) && k.i == o.sts().len() && v == u.push(k)
        ||| lalr && k.i < o.sts().len() && eq_core(o.sts()[k.i as int], t) && m.sts() == o.sts().update(k.i as int, o.sts()[k.i as int].union(t))
            && v == (if o.sts()[k.i as int].union(t) != o.sts()[k.i as int] { u.push(k) } else { u })
    }
}
pub open spec fn inv4<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, u: Seq<NodeIndex>, s: int, p0: Set<Item<'g, 'r, N>>, ord: Seq<Symbol>, n: int) -> bool {
    &&& ginv(g, lalr, en, p)
    &&& 0 <= s < p.sts().len()
    &&& forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i]).i < p.sts().len()
    &&& rel(lalr, il(p0), il(p.sts()[s])) && (il(p.sts()[s]) == il(p0) || u.contains(nx(s)))
    &&& justified(g, lalr, en, il(p0)) && forall|a: Item<'g, 'r, N>| #[trigger] il(p0).contains(a) ==> g_item(g, a)
    &&& forall|i: int| 0 <= i < p.sts().len() ==> u.contains(nx(i)) || i == s || #[trigger] done(g, lalr, p.sts(), p.es(), i)
    &&& forall|j: int| 0 <= j < n ==> edge_for(g, lalr, p.sts(), p.es(), s, il(p0), #[trigger] ord[j])
}
pub proof fn lemma_next<'g, 'r, const N: usize>(g: &Grammar, rm: Prods, f: Sets, lalr: bool, en: Item<'g, 'r, N>, o: ParserGraph<'g, 'r, N>, m: ParserGraph<'g, 'r, N>, u: Seq<NodeIndex>, v: Seq<NodeIndex>, k: NodeIndex, t: Set<Item<'g, 'r, N>>,
    s: int, p0: Set<Item<'g, 'r, N>>, ord: Seq<Symbol>, n: int)
    requires tables_ok::<N>(g, rm, f), g_item(g, en), inv4(g, lalr, en, o, u, s, p0, ord, n), 0 <= n < ord.len(), next_state(lalr, o, m, u, v, k, t), il(t) == gt(g, il(p0), ord[n]), has_move(il(p0), ord[n]),
    ensures inv4(g, lalr, en, m, v, s, p0, ord, n), k.i < m.sts().len(), rel(lalr, il(t), il(m.sts()[k.i as int])), edge_ok(g, lalr, m.sts(), GEdge { s: nx(s), t: k, w: ord[n] }),
{
    let x = ord[n];
    lemma_justified(g, rm, f, lalr, en, il(p0), x);
    lemma_gt_items(g, rm, f, il(p0), x);
    let os = o.sts();
    let ms = m.sts();
    let ki = k.i as int;
    assert(nx(ki) == k);
    assert forall|y: NodeIndex| u.contains(y) implies v.contains(y) by { lemma_push_has(u, k); }
    lemma_push_has(u, k);
    let merge = ki < os.len() && ms.len() == os.len() && lalr && eq_core(os[ki], t) && ms == os.update(ki, os[ki].union(t));
    assert forall|a: Item<'g, 'r, N>| #[trigger] t.contains(a) implies g_item(g, a) by { assert(il(t).contains(a)); }
    if merge {
        lemma_same_core(os[ki], t);
        let w = os[ki].union(t);
        assert(eq_core(os[ki], w)) by {
            assert forall|c: Item<0>| #[trigger] has_core(os[ki], c) <==> has_core(w, c) by {
                assert(has_core(os[ki], c) <==> has_core(t, c));
                if has_core(os[ki], c) { let y = choose|y: Item<'g, 'r, N>| #[trigger] os[ki].contains(y) && core(y) == c; assert(w.contains(y)); }
                if has_core(w, c) {
                    let y = choose|y: Item<'g, 'r, N>| #[trigger] w.contains(y) && core(y) == c;
                    if !os[ki].contains(y) { assert(t.contains(y)); assert(has_core(t, c)); }
                }
            }
        }
        lemma_same_core(os[ki], w);
        lemma_same(il(t), il(os[ki]), il(w));
        lemma_same(il(os[ki]), il(t), il(w));
        assert(il(t).subset_of(il(w)));
        assert(justified(g, lalr, en, il(w))) by {
            assert forall|b: Item<'g, 'r, N>| #[trigger] il(w).contains(b) implies from_canon(g, en, il(w), b) by {
                if os[ki].contains(b) {
                    assert(il(os[ki]).contains(b));
                    assert(from_canon(g, en, il(os[ki]), b));
                    let (j, c) = choose|j: nat, c: ISet<Item<'g, 'r, N>>| #[trigger] canon(g, en, j, c) && c.contains(b) && same(c, il(os[ki]));
                    lemma_same(c, il(os[ki]), il(w));
                } else {
                    assert(il(t).contains(b));
                    assert(from_canon(g, en, il(t), b));
                    let (j, c) = choose|j: nat, c: ISet<Item<'g, 'r, N>>| #[trigger] canon(g, en, j, c) && c.contains(b) && same(c, il(t));
                    lemma_same(c, il(t), il(w));
                }
            }
        }
    }
    assert(gstates(lalr, os, ms)) by {
        assert forall|i: int| 0 <= i < os.len() implies rel(lalr, il(os[i]), il(#[trigger] ms[i])) by {
            lemma_same(il(os[i]), il(os[i]), il(os[i]));
        }
    }
    assert(g_items(g, ms));
    assert forall|i: int| 0 <= i < ms.len() implies justified(g, lalr, en, il(#[trigger] ms[i])) by {
        if i < os.len() { assert(justified(g, lalr, en, il(os[i]))); }
    }
    assert forall|j: int| 0 <= j < m.es().len() implies edge_ok(g, lalr, ms, #[trigger] m.es()[j]) by {
        lemma_grow_edge(g, rm, f, lalr, os, ms, o.es()[j]);
    }
    assert(o.es().take(o.es().len() as int) =~= o.es());
    assert forall|j: int| 0 <= j < n implies edge_for(g, lalr, ms, m.es(), s, il(p0), #[trigger] ord[j]) by {
        lemma_grow_for(g, lalr, os, ms, o.es(), m.es(), s, il(p0), ord[j]);
    }
    let e = m.entry_state->0.i as int;
    assert(rel(lalr, il(os[e]), il(ms[e])));
    lemma_same(iclo(g, en), il(os[e]), il(ms[e]));
    assert(rel(lalr, il(os[s]), il(ms[s])));
    lemma_same(il(p0), il(os[s]), il(ms[s]));
    if il(ms[s]) != il(os[s]) {
        assert(merge && s == ki);
        if os[ki].union(t) == os[ki] { assert(ms[s] == os[s]); }
        assert(v.contains(nx(s)));
    }
    assert forall|i: int| 0 <= i < ms.len() implies v.contains(nx(i)) || i == s || #[trigger] done(g, lalr, ms, m.es(), i) by {
        if i < os.len() {
            assert(u.contains(nx(i)) || i == s || done(g, lalr, os, o.es(), i));
            if !v.contains(nx(i)) && i != s {
                if merge && i == ki { if os[ki].union(t) == os[ki] { assert(ms[i] == os[i]); } }
                assert(il(ms[i]) == il(os[i]));
                lemma_grow_done(g, lalr, os, ms, o.es(), m.es(), i);
            }
        }
    }
    lemma_same(il(t), il(t), il(t));
    assert(rel(lalr, il(t), il(ms[ki])));
    if lalr {
        assert forall|a: Item<'g, 'r, N>| #[trigger] il(ms[s]).contains(a) implies g_item(g, a) by { assert(ms[s].contains(a)); }
        lemma_same_gt(g, rm, f, il(p0), il(ms[s]), x);
        lemma_same(gt(g, il(ms[s]), x), il(t), il(ms[ki]));
        lemma_same(il(t), gt(g, il(ms[s]), x), il(ms[ki]));
    }
}
pub proof fn lemma_edge<'g, 'r, const N: usize>(g: &Grammar, lalr: bool, en: Item<'g, 'r, N>, m: ParserGraph<'g, 'r, N>, p: ParserGraph<'g, 'r, N>, v: Seq<NodeIndex>, k: NodeIndex, t: Set<Item<'g, 'r, N>>, s: int, p0: Set<Item<'g, 'r, N>>, ord: Seq<Symbol>, n: int)
    requires inv4(g, lalr, en, m, v, s, p0, ord, n), 0 <= n < ord.len(), il(t) == gt(g, il(p0), ord[n]), k.i < m.sts().len(), rel(lalr, il(t), il(m.sts()[k.i as int])), edge_ok(g, lalr, m.sts(), GEdge { s: nx(s), t: k, w: ord[n] }),
        p.wf(), lalr ==> p.cm_ok(), p.sts() == m.sts(), p.entry_state == m.entry_state, p.es() == m.es().push(GEdge { s: nx(s), t: k, w: ord[n] }),
    ensures inv4(g, lalr, en, p, v, s, p0, ord, n + 1),
{
    assert forall|i: int| 0 <= i < p.sts().len() implies rel(lalr, il(m.sts()[i]), il(#[trigger] p.sts()[i])) by { lemma_same(il(m.sts()[i]), il(m.sts()[i]), il(m.sts()[i])); }
    assert(gstates(lalr, m.sts(), p.sts()));
    assert(p.es().take(m.es().len() as int) =~= m.es());
    assert(p.sts().len() <= usize::MAX);
    let e = GEdge { s: nx(s), t: k, w: ord[n] };
    assert(p.es()[m.es().len() as int] == e);
    assert forall|j: int| 0 <= j < n + 1 implies edge_for(g, lalr, p.sts(), p.es(), s, il(p0), #[trigger] ord[j]) by {
        if j < n { lemma_grow_for(g, lalr, m.sts(), p.sts(), m.es(), p.es(), s, il(p0), ord[j]); }
        else { assert(p.es()[m.es().len() as int].s.i == s); }
    }
    assert forall|i: int| 0 <= i < p.sts().len() implies v.contains(nx(i)) || i == s || #[trigger] done(g, lalr, p.sts(), p.es(), i) by {
        assert(v.contains(nx(i)) || i == s || done(g, lalr, m.sts(), m.es(), i));
        if !v.contains(nx(i)) && i != s { lemma_grow_done(g, lalr, m.sts(), p.sts(), m.es(), p.es(), i); }
    }
    assert forall|j: int| 0 <= j < p.es().len() implies edge_ok(g, lalr, p.sts(), #[trigger] p.es()[j]) by {
        if j < m.es().len() { assert(p.es()[j] == m.es()[j]); }
    }
}
pub proof fn lemma_order_set<T>(s: Set<T>)
    ensures vx_order(s).to_set() == s,
{ assert(vx_order(s).to_set() =~= s); }
