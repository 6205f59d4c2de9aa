// ---- from rules to the resolved automaton, end to end -------------------------------------------------
// rule k matches the text whose class indices are w
pub open spec fn fits<'r>(al: Alphabet, rules: Seq<Spanned<TokenRule<'r>>>, k: int, w: W) -> bool {
    0 <= k < rules.len() && rule_lang(al, rules[k].inner).contains(w)
}
// every other rule that matches w has a lower precedence than rule k, which matches it
pub open spec fn best<'r>(al: Alphabet, rules: Seq<Spanned<TokenRule<'r>>>, k: int, w: W) -> bool {
    fits(al, rules, k, w) && forall|j: int| #[trigger] fits(al, rules, j, w) && rules[j] != rules[k] ==> prec(rules[j].inner) < prec(rules[k].inner)
}
// the automaton x sorts w: it accepts w for the best matching rule, and does not accept it if none matches
pub open spec fn sorts<'r>(al: Alphabet, rules: Seq<Spanned<TokenRule<'r>>>, x: RDfa<'r>, w: W) -> bool {
    match drun(x.graph.edges(), w) {
        None => forall|k: int| !#[trigger] fits(al, rules, k, w),
        Some(q) => x.graph.valid(q) && match x.graph.nodes()[q.i as int] {
            AutomatonState::Intermediate(_) => forall|k: int| !#[trigger] fits(al, rules, k, w),
            AutomatonState::Accepting(r) => exists|k: int| #[trigger] best(al, rules, k, w) && *r == rules[k].inner,
        },
    }
}
pub open spec fn sorts_all<'r>(al: Alphabet, rules: Seq<Spanned<TokenRule<'r>>>, x: RDfa<'r>) -> bool { forall|w: W| #[trigger] sorts(al, rules, x, w) }

// the states after w are those a path spelling w leads to
pub open spec fn sing(s: NodeIndex) -> Nodes { ISet::empty().insert(s) }
pub proof fn lemma_epath_rch(e: Seq<GEdge<NfaEdge<usize>>>, s: NodeIndex, w: W, k: nat, a: NodeIndex, b: NodeIndex)
    requires rch(eset(e, 0), s, w, a), epath(e, k, a, b),
    ensures rch(eset(e, 0), s, w, b),
    decreases k,
{
    if k > 0 {
        let c = choose|c: NodeIndex| epath(e, (k - 1) as nat, a, c) && #[trigger] estep(e, c, b);
        lemma_epath_rch(e, s, w, (k - 1) as nat, a, c);
        let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).s == c && e[i].t == b && e[i].w is Epsilon;
        assert(eset(e, 0).contains(e[i]));
        lemma_step(eset(e, 0), s, w, e[i]);
    }
}
pub proof fn lemma_run_rch(e: Seq<GEdge<NfaEdge<usize>>>, s: NodeIndex, w: W, b: NodeIndex)
    requires nfa_run(e, sing(s), w).contains(b),
    ensures rch(eset(e, 0), s, w, b),
    decreases w.len(),
{
    if w.len() == 0 {
        let (a, k) = choose|a: NodeIndex, k: nat| sing(s).contains(a) && #[trigger] epath(e, k, a, b);
        assert(w =~= W::empty());
        lemma_here(eset(e, 0), s);
        lemma_epath_rch(e, s, w, k, a, b);
    } else {
        let r0 = nfa_run(e, sing(s), w.drop_last());
        let m = moved(e, r0, w.last());
        let (a, k) = choose|a: NodeIndex, k: nat| m.contains(a) && #[trigger] epath(e, k, a, b);
        let z = choose|z: NodeIndex| r0.contains(z) && #[trigger] tstep(e, z, w.last(), a);
        lemma_run_rch(e, s, w.drop_last(), z);
        let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).s == z && e[i].t == a && e[i].w == NfaEdge::Transition(w.last());
        assert(eset(e, 0).contains(e[i]));
        lemma_step(eset(e, 0), s, w.drop_last(), e[i]);
        assert(app(w.drop_last(), e[i].w) =~= w);
        lemma_epath_rch(e, s, w, k, a, b);
    }
}
pub proof fn lemma_rch_run(e: Seq<GEdge<NfaEdge<usize>>>, s: NodeIndex)
    ensures forall|w: W, b: NodeIndex| #[trigger] rch(eset(e, 0), s, w, b) ==> nfa_run(e, sing(s), w).contains(b),
{
    let inv = |b: NodeIndex, w: W| nfa_run(e, sing(s), w).contains(b);
    assert(inv(s, W::empty())) by { assert(epath(e, 0, s, s)); assert(sing(s).contains(s)); assert(reach(e, sing(s), s)); }
    assert forall|g: Ed, w: W| #[trigger] eset(e, 0).contains(g) && #[trigger] inv(g.s, w) implies inv(g.t, app(w, g.w)) by {
        let i = choose|i: int| 0 <= i < e.len() && 0 <= i && #[trigger] e[i] == g;
        match g.w {
            NfaEdge::Epsilon => {
                assert(estep(e, g.s, g.t));
                if w.len() == 0 { lemma_estep_in(e, sing(s), g.s, g.t); } else { lemma_estep_in(e, moved(e, nfa_run(e, sing(s), w.drop_last()), w.last()), g.s, g.t); }
            }
            NfaEdge::Transition(x) => {
                let v = w.push(x);
                assert(v.drop_last() =~= w);
                assert(tstep(e, g.s, x, g.t));
                let m = moved(e, nfa_run(e, sing(s), w), x);
                assert(m.contains(g.t));
                assert(epath(e, 0, g.t, g.t));
                assert(reach(e, m, g.t));
            }
        }
    }
    lemma_inv(eset(e, 0), s, inv);
}
pub proof fn lemma_dstep(d: Seq<GEdge<usize>>, q: NodeIndex, x: usize, k: int)
    requires det(d), 0 <= k < d.len(), d[k].s == q, d[k].w == x,
    ensures dstep(d, q, x) == Some(d[k].t),
{ }
pub proof fn lemma_same_det(d: Seq<GEdge<usize>>, r: Seq<GEdge<usize>>, p: Seq<int>)
    requires same_edges_by(d, r, p), det(d),
    ensures det(r),
{
    assert forall|k: int, l: int| 0 <= k < r.len() && 0 <= l < r.len() && (#[trigger] r[k]).s == (#[trigger] r[l]).s && r[k].w == r[l].w implies k == l by {
        assert(p.contains(p[k]) && p.contains(p[l]));
        assert(r[k] == d[p[k]] && r[l] == d[p[l]]);
    }
}
// the same edges lead a word to the same state
pub proof fn lemma_same_drun(d: Seq<GEdge<usize>>, r: Seq<GEdge<usize>>, w: W)
    requires same_edges(d, r), det(d),
    ensures drun(d, w) == drun(r, w),
    decreases w.len(),
{
    if w.len() > 0 {
        lemma_same_drun(d, r, w.drop_last());
        let p = choose|p: Seq<int>| #[trigger] same_edges_by(d, r, p);
        if let Some(q) = drun(d, w.drop_last()) {
            let x = w.last();
            if exists|k: int| 0 <= k < d.len() && (#[trigger] d[k]).s == q && d[k].w == x {
                let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]).s == q && d[k].w == x;
                assert(p.contains(k));
                let i = choose|i: int| 0 <= i < p.len() && p[i] == k;
                assert(r[i] == d[k]);
                assert(r[i].s == q && r[i].w == x);
                lemma_same_det(d, r, p);
                lemma_dstep(d, q, x, k);
                lemma_dstep(r, q, x, i);
            } else {
                assert forall|k: int| 0 <= k < r.len() implies !((#[trigger] r[k]).s == q && r[k].w == x) by { assert(0 <= k < p.len()); assert(p.contains(p[k])); assert(r[k] == d[p[k]]); }
            }
        }
    }
}
pub proof fn thm_sorts<'r>(al: Alphabet, rules: Seq<Spanned<TokenRule<'r>>>, n: TNfa<'r>, s: NodeIndex, ends: Seq<NodeIndex>, d: CDfa<'r>, x: RDfa<'r>, w: W)
    requires
        nwf(n), accepts(al, n, s, rules, ends), ends.len() == rules.len(),
        word_ok(n.graph, s, d.v(), w), det(d.graph.edges()),
        relabelled(d.graph.nodes(), x.graph.nodes()), x.graph.nodes().len() == d.graph.nodes().len(), same_edges(d.graph.edges(), x.graph.edges()), x.wf(),
    ensures sorts(al, rules, x, w),
{
    let e = n.graph.edges();
    let nodes = n.graph.nodes();
    let r = nfa_run(e, sing(s), w);
    lemma_same_drun(d.graph.edges(), x.graph.edges(), w);
    lemma_rch_run(e, s);
    assert forall|k: int| #[trigger] fits(al, rules, k, w) implies r.contains(ends[k]) && nodes[ends[k].i as int] == AutomatonState::Accepting(&rules[k]) && ends[k].i < nodes.len() by {
        assert(rch(eset(e, 0), s, w, ends[k]));
    }
    match drun(d.graph.edges(), w) {
        None => {}
        Some(q) => {
            let st = d.graph.nodes()[q.i as int];
            assert(label_ok(st, x.graph.nodes()[q.i as int]));
            match st {
                AutomatonState::Intermediate(_) => {
                    assert forall|k: int| !#[trigger] fits(al, rules, k, w) by {
                        if fits(al, rules, k, w) { assert(labels(nodes, r, &rules[k])); }
                    }
                }
                AutomatonState::Accepting(c) => {
                    let l = x.graph.nodes()[q.i as int]->Accepting_0;
                    let i = choose|i: int| #[trigger] wins(c, i) && *l == c@[i].inner;
                    assert(c@.contains(c@[i]));
                    let a = choose|a: NodeIndex| #[trigger] r.contains(a) && a.i < nodes.len() && nodes[a.i as int] == AutomatonState::Accepting(c@[i]);
                    let k = choose|k: int| 0 <= k < ends.len() && (#[trigger] ends[k]).i == a.i;
                    assert(ends[k] == a);
                    lemma_run_rch(e, s, w, a);
                    assert(rch(eset(e, 0), s, w, ends[k]));
                    assert(fits(al, rules, k, w));
                    assert(rules[k] == *c@[i]);
                    assert forall|j: int| #[trigger] fits(al, rules, j, w) && rules[j] != rules[k] implies prec(rules[j].inner) < prec(rules[k].inner) by {
                        assert(c@.contains(&rules[j]));
                        let m = choose|m: int| 0 <= m < c@.len() && c@[m] == &rules[j];
                        assert(m != i);
                        assert(cp(c, m) < cp(c, i));
                    }
                    assert(best(al, rules, k, w));
                }
            }
        }
    }
}

// ---- what a caller of the three steps can conclude -------------------------------------------------------
pub broadcast proof fn lemma_sorted<'r>(al: Alphabet, rules: Seq<Spanned<TokenRule<'r>>>, n: TNfa<'r>, s: NodeIndex, ends: Seq<NodeIndex>, d: CDfa<'r>, x: RDfa<'r>)
    requires
        nwf(n), #[trigger] accepts(al, n, s, rules, ends), ends.len() == rules.len(),
        forall|w: W| #[trigger] word_ok(n.graph, s, d.v(), w), det(d.graph.edges()),
        #[trigger] relabelled(d.graph.nodes(), x.graph.nodes()), x.graph.nodes().len() == d.graph.nodes().len(), same_edges(d.graph.edges(), x.graph.edges()), x.wf(),
    ensures sorts_all(al, rules, x),
{
    assert forall|w: W| #[trigger] sorts(al, rules, x, w) by { assert(word_ok(n.graph, s, d.v(), w)); thm_sorts(al, rules, n, s, ends, d, x, w); }
}
pub proof fn lemma_listed<'r>(al: Alphabet, rules: Seq<Spanned<TokenRule<'r>>>, n: TNfa<'r>, s: NodeIndex, ends: Seq<NodeIndex>, d: CDfa<'r>, i: int, c: Cands<'r>, j: int)
    requires
        accepts(al, n, s, rules, ends), 0 <= i < d.graph.nodes().len(), lists_ok(n.graph.nodes(), d.graph.nodes()[i]),
        d.graph.nodes()[i] == AutomatonState::Accepting(c), 0 <= j < c@.len(),
    ensures exists|k: int| 0 <= k < rules.len() && #[trigger] rules[k] == *c@[j],
{
    let nodes = n.graph.nodes();
    let m = choose|m: int| 0 <= m < nodes.len() && #[trigger] nodes[m] == AutomatonState::Accepting(c@[j]);
    let k = choose|k: int| 0 <= k < ends.len() && (#[trigger] ends[k]).i == m;
    assert(nodes[ends[k].i as int] == AutomatonState::Accepting(&rules[k]));
    assert(rules[k] == *c@[j]);
}
pub broadcast proof fn lemma_cands<'r>(al: Alphabet, rules: Seq<Spanned<TokenRule<'r>>>, n: TNfa<'r>, s: NodeIndex, ends: Seq<NodeIndex>, d: CDfa<'r>)
    requires
        #[trigger] accepts(al, n, s, rules, ends), d.wf(), forall|k: int| 0 <= k < rules.len() ==> prec_ok((#[trigger] rules[k]).inner),
        forall|i: int| 0 <= i < d.graph.nodes().len() ==> lists_ok(n.graph.nodes(), #[trigger] d.graph.nodes()[i]),
    ensures #[trigger] dfa_cands_ok(d),
{
    assert forall|i: int, c: Cands| 0 <= i < d.graph.nodes().len() && #[trigger] d.graph.nodes()[i] == AutomatonState::Accepting(c) implies #[trigger] cands_ok(c) by {
        assert(lists_ok(n.graph.nodes(), d.graph.nodes()[i]));
        assert forall|j: int| 0 <= j < c@.len() implies prec_ok((#[trigger] c@[j]).inner) by {
            lemma_listed(al, rules, n, s, ends, d, i, c, j);
            let k = choose|k: int| 0 <= k < rules.len() && #[trigger] rules[k] == *c@[j];
            assert(prec_ok(rules[k].inner));
        }
    }
}
// the tied rules an error lists: at least two, of the same precedence
pub open spec fn tied_rule<'r>(rules: Seq<Spanned<TokenRule<'r>>>, e: PrecedenceError, m: int, k: int) -> bool {
    0 <= k < rules.len() && e.rules@[m].span == rules[k].span && e.rules@[m].inner@ == rules[k].inner.name@ && prec(rules[k].inner) == e.precedence
}
pub open spec fn has_tied<'r>(rules: Seq<Spanned<TokenRule<'r>>>, e: PrecedenceError, m: int) -> bool { exists|k: int| #[trigger] tied_rule(rules, e, m, k) }
pub open spec fn ties<'r>(rules: Seq<Spanned<TokenRule<'r>>>, e: PrecedenceError) -> bool {
    e.rules@.len() >= 2 && forall|m: int| 0 <= m < e.rules@.len() ==> #[trigger] has_tied(rules, e, m)
}
pub broadcast proof fn lemma_ties<'r>(al: Alphabet, rules: Seq<Spanned<TokenRule<'r>>>, n: TNfa<'r>, s: NodeIndex, ends: Seq<NodeIndex>, d: CDfa<'r>, e: PrecedenceError)
    requires
        #[trigger] accepts(al, n, s, rules, ends), #[trigger] tie_in(d, e),
        forall|i: int| 0 <= i < d.graph.nodes().len() ==> lists_ok(n.graph.nodes(), #[trigger] d.graph.nodes()[i]),
    ensures ties(rules, e),
{
    let (i, c) = choose|i: int, c: Cands| 0 <= i < d.graph.nodes().len() && #[trigger] d.graph.nodes()[i] == AutomatonState::Accepting(c) && #[trigger] tied(c, e);
    let q = choose|q: Seq<int>| #[trigger] tied_at(c, e, q);
    assert(lists_ok(n.graph.nodes(), d.graph.nodes()[i]));
    assert forall|m: int| 0 <= m < e.rules@.len() implies #[trigger] has_tied(rules, e, m) by {
        assert(q.contains(q[m]));
        assert(top(c, q[m]));
        lemma_listed(al, rules, n, s, ends, d, i, c, q[m]);
        let k = choose|k: int| 0 <= k < rules.len() && #[trigger] rules[k] == *c@[q[m]];
        assert(cp(c, q[m]) == e.precedence);
        assert(tied_rule(rules, e, m, k));
    }
}
