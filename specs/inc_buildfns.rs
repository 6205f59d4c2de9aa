// ---- termination: nesting depth ------------------------------------------------------------------
pub open spec fn pheight(p: Pattern) -> nat
    decreases p,
{
    match p {
        Pattern::Sequence { elements } => 1 + hmax(elements@, elements@.len()),
        Pattern::Alternative { elements } => 1 + hmax(elements@, elements@.len()),
        Pattern::Repetition { min, max, inner } => 1 + pheight(*inner),
        _ => 0,
    }
}
pub open spec fn hmax(s: Seq<Pattern>, n: nat) -> nat
    decreases s, n,
{ if n == 0 || n > s.len() { 0 } else if hmax(s, (n - 1) as nat) > pheight(s[n - 1]) { hmax(s, (n - 1) as nat) } else { pheight(s[n - 1]) } }
pub open spec fn hmax_r(s: Seq<&Pattern>, n: nat) -> nat
    decreases n,
{ if n == 0 || n > s.len() { 0 } else if hmax_r(s, (n - 1) as nat) > pheight(*s[n - 1]) { hmax_r(s, (n - 1) as nat) } else { pheight(*s[n - 1]) } }
pub proof fn lemma_hmax(s: Seq<Pattern>, n: nat, i: int)
    requires 0 <= i < n <= s.len(),
    ensures pheight(s[i]) <= hmax(s, n),
    decreases n,
{ if i < n - 1 { lemma_hmax(s, (n - 1) as nat, i); } }
pub proof fn lemma_hmax_r(s: Seq<&Pattern>, n: nat, i: int)
    requires 0 <= i < n <= s.len(),
    ensures pheight(*s[i]) <= hmax_r(s, n),
    decreases n,
{ if i < n - 1 { lemma_hmax_r(s, (n - 1) as nat, i); } }
pub proof fn lemma_hmax_bound(s: Seq<&Pattern>, n: nat, h: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> pheight(*#[trigger] s[i]) <= h,
    ensures hmax_r(s, n) <= h,
    decreases n,
{ if n > 0 { lemma_hmax_bound(s, (n - 1) as nat, h); } }

// ---- what a chain-building call adds ---------------------------------------------------------------
pub open spec fn langs(al: Alphabet, p: Seq<Pc>, ps: Seq<&Pattern>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] p[i]).l == lang(al, *ps[i]) }
pub open spec fn chained<'r>(o: TNfa<'r>, n: TNfa<'r>, p: Seq<Pc>, s: NodeIndex, t: NodeIndex) -> bool {
    grows(o, n) && pieces(p, s, t, nn(o), nn(n)) && delta(o, n) == pre_e(p, p.len() as int)
}
pub open spec fn joints(p: Seq<Pc>, r: Seq<NodeIndex>, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r[i] == p[i].t }
pub proof fn lemma_seq_built<'r>(al: Alphabet, o: TNfa<'r>, n: TNfa<'r>, p: Seq<Pc>, s: NodeIndex, t: NodeIndex, els: Seq<Pattern>)
    requires chained(o, n, p, s, t), p.len() == els.len(), forall|i: int| 0 <= i < els.len() ==> (#[trigger] p[i]).l == lang(al, els[i]),
    ensures built(o, n, s, t, lseq(al, els, els.len())),
{
    let k = p.len();
    lemma_chain(p, s, t, nn(o), nn(n), k);
    lemma_cc_lseq(al, p, els, k);
    assert(pc_ok(p[k - 1], nn(o), nn(n)));
    lemma_wider(delta(o, n), pre_n(p, k as int, nn(o)), s, t, cc(p, k), rng(nn(o), nn(n)));
}
proof fn lemma_cc_lseq(al: Alphabet, p: Seq<Pc>, els: Seq<Pattern>, n: nat)
    requires n <= p.len() == els.len(), forall|i: int| 0 <= i < els.len() ==> (#[trigger] p[i]).l == lang(al, els[i]),
    ensures cc(p, n) == lseq(al, els, n),
    decreases n,
{ if n > 0 { lemma_cc_lseq(al, p, els, (n - 1) as nat); assert(p[n - 1].l == lang(al, els[n - 1])); } }

// one more branch of an alternative
pub proof fn lemma_branch(a: Es, f: Es, e: Es, base: int, mid: int, top: int, s: NodeIndex, t: NodeIndex, is: NodeIndex, ie: NodeIndex, la: Lang, l: Lang)
    requires
        frag(a, rng(base, mid), s, t, la), frag(f, rng(mid + 2, top), is, ie, l), is.i == mid, ie.i == mid + 1, s.i < base, t.i < base,
        base <= mid, mid + 2 <= top, e == a.union(f).union(one(eedge(s, is))).union(one(eedge(ie, t))),
    ensures frag(e, rng(base, top), s, t, la.union(l)),
{
    let n = rng(mid + 2, top);
    lemma_wrap(f, n, s, is, ie, t, l);
    let w = one(eedge(s, is)).union(f).union(one(eedge(ie, t)));
    let n2 = with(with(none(), n, is), none(), ie);
    lemma_par(a, rng(base, mid), w, n2, s, t, la, l);
    assert(a.union(w) =~= e);
    lemma_wider(e, rng(base, mid).union(n2), s, t, la.union(l), rng(base, top));
}
// any number of repetitions
pub proof fn lemma_star(f: Es, e: Es, base: int, top: int, s: NodeIndex, t: NodeIndex, is: NodeIndex, ie: NodeIndex, l: Lang)
    requires
        frag(f, rng(base + 2, top), is, ie, l), is.i == base, ie.i == base + 1, s.i < base, t.i < base, s != t, base + 2 <= top,
        e == one(eedge(s, is)).union(f).union(one(eedge(s, t))).union(one(eedge(ie, is))).union(one(eedge(ie, t))),
    ensures frag(e, rng(base, top), s, t, pows(l, 0, None)),
{
    let n = rng(base + 2, top);
    lemma_eps_edge(s, is);
    lemma_loop(one(eedge(s, is)), none(), f, n, s, is, ie, t, eword(), l);
    lemma_cat_eps(pows(l, 1, None));
    lemma_eps_edge(s, t);
    let lp = looped(one(eedge(s, is)), f, is, ie, t);
    let n2 = loop_nodes(none(), n, is, ie);
    lemma_par(one(eedge(s, t)), none(), lp, n2, s, t, eword(), pows(l, 1, None));
    assert(one(eedge(s, t)).union(lp) =~= e);
    assert forall|w: W| eword().union(pows(l, 1, None)).contains(w) == pows(l, 0, None).contains(w) by {
        if eword().contains(w) { assert(pw(l, 0).contains(w)); }
        if pows(l, 0, None).contains(w) { let k = choose|k: nat| #[trigger] pw(l, k).contains(w); if k > 0 { assert(pows(l, 1, None).contains(w)); } }
        if pows(l, 1, None).contains(w) { let k = choose|k: nat| 1 <= k && #[trigger] pw(l, k).contains(w); assert(pw(l, k).contains(w)); }
    }
    assert(eword().union(pows(l, 1, None)) =~= pows(l, 0, None));
    lemma_wider(e, none().union(n2), s, t, pows(l, 0, None), rng(base, top));
}
// at least n > 0 repetitions
pub proof fn lemma_atleast(p: Seq<Pc>, e: Es, base: int, top: int, s: NodeIndex, t: NodeIndex, is: NodeIndex, ie: NodeIndex, prev: NodeIndex, l: Lang)
    requires
        pieces(p, is, ie, base + 2, top), is.i == base, ie.i == base + 1, s.i < base, t.i < base, s != t,
        forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).l == l, prev == jn(p, is, p.len() - 1),
        e == one(eedge(s, is)).union(pre_e(p, p.len() as int)).union(one(eedge(ie, prev))).union(one(eedge(ie, t))),
    ensures frag(e, rng(base, top), s, t, pows(l, p.len(), None)),
{
    let n = p.len();
    let c = p[n - 1];
    let nf = rng(c.lo, c.hi);
    assert(pc_ok(c, base + 2, top));
    assert(linked(p, is, n - 1));
    lemma_eps_edge(s, is);
    assert forall|g: Ed| pre_e(p, n as int).contains(g) == pre_e(p, n - 1).union(c.e).contains(g) by {
        if pre_e(p, n as int).contains(g) { let i = choose|i: int| 0 <= i < n && (#[trigger] p[i]).e.contains(g); if i < n - 1 { assert(pre_e(p, n - 1).contains(g)); } }
        if pre_e(p, n - 1).contains(g) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] p[i]).e.contains(g); assert(pre_e(p, n as int).contains(g)); }
        if c.e.contains(g) { assert(p[n - 1].e.contains(g)); }
    }
    assert(pre_e(p, n as int) =~= pre_e(p, n - 1).union(c.e));
    if n == 1 {
        assert(pre_e(p, 0) =~= ISet::<Ed>::new(|g: Ed| false));
        lemma_loop(one(eedge(s, is)), none(), c.e, nf, s, is, ie, t, eword(), l);
        assert(looped(one(eedge(s, is)), c.e, is, ie, t) =~= e);
        assert(pw(l, 0) == eword());
        lemma_pows_cat(l, 0, 1, None);
        lemma_wider(e, loop_nodes(none(), nf, is, ie), s, t, pows(l, 1, None), rng(base, top));
    } else {
        let d = p[n - 2];
        assert(pc_ok(d, base + 2, top));
        assert(inner_pc(d));
        assert(d.hi <= c.m);
        let m = (n - 1) as nat;
        lemma_chain(p, is, ie, base + 2, top, m);
        lemma_cc_pw(p, m, l);
        let np0 = pre_n(p, m as int, base + 2);
        lemma_serial(one(eedge(s, is)), none(), pre_e(p, m as int), np0, s, is, prev, eword(), pw(l, m));
        lemma_cat_eps(pw(l, m));
        let ep = one(eedge(s, is)).union(pre_e(p, m as int));
        let np = with(none(), np0, is);
        lemma_loop(ep, np, c.e, nf, s, prev, ie, t, pw(l, m), l);
        assert(looped(ep, c.e, prev, ie, t) =~= e);
        lemma_pows_cat(l, m, 1, None);
        lemma_wider(e, loop_nodes(np, nf, prev, ie), s, t, pows(l, n, None), rng(base, top));
    }
}
// exactly n repetitions between is and ie
pub open spec fn exact<'r>(o: TNfa<'r>, n: TNfa<'r>, is: NodeIndex, ie: NodeIndex, l: Lang, k: nat) -> bool { built(o, n, is, ie, pw(l, k)) }
pub proof fn lemma_exact0<'r>(o: TNfa<'r>, n: TNfa<'r>, is: NodeIndex, ie: NodeIndex, l: Lang)
    requires grows(o, n), delta(o, n) == one(eedge(is, ie)), is != ie, is.i < nn(o), ie.i < nn(o),
    ensures exact(o, n, is, ie, l, 0),
{
    lemma_eps_edge(is, ie);
    lemma_wider(delta(o, n), none(), is, ie, eword(), rng(nn(o), nn(n)));
}
pub proof fn lemma_exact<'r>(o: TNfa<'r>, n: TNfa<'r>, p: Seq<Pc>, is: NodeIndex, ie: NodeIndex, l: Lang)
    requires chained(o, n, p, is, ie), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).l == l,
    ensures exact(o, n, is, ie, l, p.len()),
{
    let k = p.len();
    lemma_chain(p, is, ie, nn(o), nn(n), k);
    lemma_cc_pw(p, k, l);
    assert(pc_ok(p[k - 1], nn(o), nn(n)));
    lemma_wider(delta(o, n), pre_n(p, k as int, nn(o)), is, ie, pw(l, k), rng(nn(o), nn(n)));
}
pub proof fn lemma_exactly(f: Es, e: Es, base: int, top: int, s: NodeIndex, t: NodeIndex, is: NodeIndex, ie: NodeIndex, l: Lang, k: nat)
    requires
        frag(f, rng(base + 2, top), is, ie, pw(l, k)), is.i == base, ie.i == base + 1, s.i < base, t.i < base, s != t, base + 2 <= top,
        e == one(eedge(s, is)).union(f).union(one(eedge(ie, t))),
    ensures frag(e, rng(base, top), s, t, pows(l, k, Some(k))),
{
    let n = rng(base + 2, top);
    lemma_wrap(f, n, s, is, ie, t, pw(l, k));
    lemma_pows_one(l, k);
    lemma_wider(e, with(with(none(), n, is), none(), ie), s, t, pw(l, k), rng(base, top));
}
// k to k + p.len() repetitions
pub open spec fn taps(r: Seq<NodeIndex>, n: int, u: NodeIndex) -> Es { ISet::new(|g: Ed| exists|i: int| 0 <= i < n && g == eedge(#[trigger] r[i], u)) }
pub proof fn lemma_taps_add(r: Seq<NodeIndex>, n: int, u: NodeIndex)
    requires 0 <= n < r.len(),
    ensures taps(r, n + 1, u) == taps(r, n, u).union(one(eedge(r[n], u))),
{
    assert forall|g: Ed| taps(r, n + 1, u).contains(g) == taps(r, n, u).union(one(eedge(r[n], u))).contains(g) by {
        if taps(r, n + 1, u).contains(g) { let i = choose|i: int| 0 <= i < n + 1 && g == eedge(#[trigger] r[i], u); if i < n { assert(taps(r, n, u).contains(g)); } }
        if taps(r, n, u).contains(g) { let i = choose|i: int| 0 <= i < n && g == eedge(#[trigger] r[i], u); assert(g == eedge(r[i], u)); }
    }
    assert(taps(r, n + 1, u) =~= taps(r, n, u).union(one(eedge(r[n], u))));
}
// every joint of the chain, its start and its end
pub open spec fn all_joints(p: Seq<Pc>, s: NodeIndex, r: Seq<NodeIndex>) -> bool {
    (forall|i: int| 0 <= i <= p.len() ==> r.contains(#[trigger] jn(p, s, i))) && (forall|x: NodeIndex| #[trigger] r.contains(x) ==> exists|i: int| 0 <= i <= p.len() && x == #[trigger] jn(p, s, i))
}
pub proof fn lemma_all_joints(p: Seq<Pc>, s: NodeIndex, t: NodeIndex, r0: Seq<NodeIndex>, r: Seq<NodeIndex>)
    requires p.len() > 0, p.last().t == t, joints(p, r0, p.len() - 1), r == r0.push(s).push(t),
    ensures all_joints(p, s, r),
{
    let k = p.len() as int;
    assert(r[k] == t && r[k - 1] == s);
    assert forall|i: int| 0 <= i <= p.len() implies r.contains(#[trigger] jn(p, s, i)) by {
        if i == 0 { assert(r[k - 1] == jn(p, s, i)); } else if i == k { assert(r[k] == jn(p, s, i)); } else { assert(r[i - 1] == r0[i - 1]); assert(r0[i - 1] == p[i - 1].t); }
    }
    assert forall|x: NodeIndex| #[trigger] r.contains(x) implies exists|i: int| 0 <= i <= p.len() && x == #[trigger] jn(p, s, i) by {
        let i = choose|i: int| 0 <= i < r.len() && r[i] == x;
        if i < k - 1 { assert(r0[i] == p[i].t); assert(x == jn(p, s, i + 1)); } else if i == k - 1 { assert(x == jn(p, s, 0)); } else { assert(x == jn(p, s, k)); }
    }
}
pub proof fn lemma_upto(f: Es, p: Seq<Pc>, r: Seq<NodeIndex>, e: Es, base: int, mid: int, top: int, s: NodeIndex, t: NodeIndex, is: NodeIndex, ie: NodeIndex, ms: NodeIndex, me: NodeIndex, l: Lang, k: nat)
    requires
        frag(f, rng(base + 2, mid), is, ie, pw(l, k)), is.i == base, ie.i == base + 1, s.i < base, t.i < base, s != t, base + 2 <= mid,
        ms.i == mid, me.i == mid + 1, pieces(p, ms, me, mid + 2, top),
        forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).l == l,
        all_joints(p, ms, r),
        e == one(eedge(s, is)).union(f).union(one(eedge(ie, ms))).union(pre_e(p, p.len() as int)).union(taps(r, r.len() as int, t)),
    ensures frag(e, rng(base, top), s, t, pows(l, k, Some((k + p.len()) as nat))),
{
    let n = rng(base + 2, mid);
    lemma_wrap(f, n, s, is, ie, ms, pw(l, k));
    let w = one(eedge(s, is)).union(f).union(one(eedge(ie, ms)));
    let nw = with(with(none(), n, is), none(), ie);
    lemma_taps(p, ms, me, t, mid + 2, top, 0, l);
    let g = tap_e(p, ms, t, 0);
    let ng = tap_n(p, ms, me, 0, top);
    assert(pc_ok(p[0], mid + 2, top));
    lemma_serial(w, nw, g, ng, s, ms, t, pw(l, k), pows(l, 0, Some(p.len())));
    lemma_pows_cat(l, k, 0, Some(p.len()));
    let tt = taps(r, r.len() as int, t);
    let pe = pre_e(p, p.len() as int);
    assert forall|x: Ed| g.contains(x) == pe.union(tt).contains(x) by {
        if tt.contains(x) {
            let i = choose|i: int| 0 <= i < r.len() && x == eedge(#[trigger] r[i], t);
            assert(r.contains(r[i]));
            let j = choose|j: int| 0 <= j <= p.len() && r[i] == #[trigger] jn(p, ms, j);
            assert(x == eedge(jn(p, ms, j), t));
        }
        if pe.contains(x) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).e.contains(x); assert(p[i].e.contains(x)); }
        if g.contains(x) {
            if exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).e.contains(x) { assert(pe.contains(x)); } else {
                let i = choose|i: int| 0 <= i <= p.len() && x == eedge(#[trigger] jn(p, ms, i), t);
                assert(r.contains(jn(p, ms, i)));
                let j = choose|j: int| 0 <= j < r.len() && r[j] == jn(p, ms, i);
                assert(x == eedge(r[j], t));
            }
        }
    }
    assert(g =~= pe.union(tt));
    assert(w.union(g) =~= e);
    lemma_wider(e, with(nw, ng, ms), s, t, pows(l, k, Some((k + p.len()) as nat)), rng(base, top));
}
// edges for a set of classes
pub open spec fn upto(f: ISet<usize>, n: int) -> ISet<usize> { ISet::new(|x: usize| x < n && f.contains(x)) }
pub proof fn lemma_lettered<'r>(o: TNfa<'r>, n: TNfa<'r>, s: NodeIndex, t: NodeIndex, f: ISet<usize>)
    requires grows(o, n), delta(o, n) == tedges(s, t, f), s != t, s.i < nn(o), t.i < nn(o),
    ensures built(o, n, s, t, letters(f)),
{
    lemma_letters(s, t, f);
    lemma_wider(delta(o, n), none(), s, t, letters(f), rng(nn(o), nn(n)));
}
pub proof fn lemma_char_class(al: Alphabet, c: Characters, a: int, b: int, f: ISet<usize>)
    requires al.wf(), cown(al, c), span_of(al, c, a, b), forall|i: usize| #[trigger] f.contains(i) <==> a <= i <= b,
    ensures lang(al, Pattern::Char { chars: c }) == letters(f),
{
    let g = classes(al, |x: int| cc_in(c, x));
    assert forall|i: usize| f.contains(i) == g.contains(i) by {
        if i < al.ranges@.len() { lemma_span(al, c, a, b, i as int); }
    }
    assert(f =~= g);
}

//@fn lapex-lexer/src/nfa/mod.rs chain_pattern_iterator
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@spec
    requires
        alphabet.wf(), nwf(*old(nfa)), old(nfa).graph.valid(start), old(nfa).graph.valid(end), start != end,
        patterns.pos() == 0, patterns.seq().len() > 0, forall|i: int| 0 <= i < patterns.seq().len() ==> good(*alphabet, *#[trigger] patterns.seq()[i]),
    ensures
        exists|p: Seq<Pc>| #[trigger] chained(*old(nfa), *final(nfa), p, start, end) && p.len() == patterns.seq().len()
            && langs(*alphabet, p, patterns.seq(), p.len() as int) && joints(p, r@, p.len() - 1),
        adds(*old(nfa), *final(nfa), delta(*old(nfa), *final(nfa))),
    decreases hmax_r(patterns.seq(), patterns.seq().len()), 1nat,
//@at start
    let ghost o = *nfa;
    let ghost ps = patterns.seq();
    let ghost base = nn(o);
    let ghost mut pcs: Seq<Pc> = Seq::empty();
    let ghost mut n1 = *nfa;
    proof { lemma_grows_refl(o); assert(pre_e(pcs, 0) =~= no_edges::<NfaEdge<usize>>()); }
//@loop 0
        invariant
            alphabet.wf(), o == *old(nfa), nwf(o), o.graph.valid(start), o.graph.valid(end), start != end, base == nn(o),
            patterns.seq() == ps, patterns.pos() <= ps.len(), ps.len() > 0, forall|i: int| 0 <= i < ps.len() ==> good(*alphabet, *#[trigger] ps[i]),
            pcs.len() == patterns.pos(), langs(*alphabet, pcs, ps, pcs.len() as int),
            grows(o, *nfa), delta(o, *nfa) == pre_e(pcs, pcs.len() as int),
            pcs.len() < ps.len() ==> chain(pcs, start, base, nn(*nfa), true) && inner_start == jn(pcs, start, pcs.len() as int)
                && joints(pcs, intermediates@, pcs.len() as int),
            pcs.len() == ps.len() ==> pieces(pcs, start, end, base, nn(*nfa)) && joints(pcs, intermediates@, pcs.len() - 1),
        ensures
            pcs.len() == ps.len(),
        decreases ps.len() - patterns.pos(),
//@at loop 0 start
    let ghost n0 = *nfa;
    let ghost pc0 = pcs;
    let ghost k = pcs.len() as int;
    proof { if k < ps.len() { lemma_hmax_r(ps, ps.len(), k); } if k > 0 && k < ps.len() { assert(pc_ok(pcs[k - 1], base, nn(n0))); assert(inner_pc(pcs[k - 1])); } }
//@at call build_nfa_from_pattern 0 before
    proof { n1 = *nfa; }
//@at call build_nfa_from_pattern 0 after
    proof {
        let n2 = *nfa;
        let c = Pc { e: delta(n1, n2), m: nn(n0), lo: nn(n1), hi: nn(n2), s: inner_start, t: inner_end, l: lang(*alphabet, *p) };
        assert(delta(o, n1) =~= delta(o, n0));
        pcs = pc0.push(c);
        lemma_chain_push(pc0, start, base, nn(n0), c, nn(n2), true);
        lemma_pre_push(pc0, c);
        assert(jn(pcs, start, k + 1) == inner_end);
        assert(langs(*alphabet, pcs, ps, k + 1)) by { assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] pcs[i]).l == lang(*alphabet, *ps[i]) by { if i < k { assert(pc0[i].l == lang(*alphabet, *ps[i])); } } }
        assert forall|i: int| 0 <= i < k + 1 implies #[trigger] intermediates@[i] == pcs[i].t by { if i < k { assert(pc0[i].t == pcs[i].t); } }
    }
//@at call build_nfa_from_pattern 1 after
    proof {
        let n2 = *nfa;
        let c = Pc { e: delta(n0, n2), m: nn(n0), lo: nn(n0), hi: nn(n2), s: inner_start, t: end, l: lang(*alphabet, *p) };
        pcs = pc0.push(c);
        lemma_chain_push(pc0, start, base, nn(n0), c, nn(n2), false);
        lemma_pre_push(pc0, c);
        assert(langs(*alphabet, pcs, ps, k + 1)) by { assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] pcs[i]).l == lang(*alphabet, *ps[i]) by { if i < k { assert(pc0[i].l == lang(*alphabet, *ps[i])); } } }
        assert forall|i: int| 0 <= i < k implies #[trigger] intermediates@[i] == pcs[i].t by { assert(pc0[i].t == pcs[i].t); }
        assert(pcs.last() == c);
    }
//@at end
    proof { lemma_adds(o, *nfa); assert(chained(o, *nfa, pcs, start, end)); }
//@end
pub open spec fn all_are(s: Seq<&Pattern>, p: Pattern) -> bool { forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == p }
//@fn lapex-lexer/src/nfa/mod.rs chain_pattern_times
//@spec
    requires
        alphabet.wf(), nwf(*old(nfa)), old(nfa).graph.valid(start), old(nfa).graph.valid(end), start != end, times > 0, good(*alphabet, *pattern),
    ensures
        exists|p: Seq<Pc>| #[trigger] chained(*old(nfa), *final(nfa), p, start, end) && p.len() == times
            && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).l == lang(*alphabet, *pattern)) && joints(p, r@, p.len() - 1),
        adds(*old(nfa), *final(nfa), delta(*old(nfa), *final(nfa))),
    decreases pheight(*pattern), 2nat,
//@loop 0
        invariant
            it0.seq().len() == times, it0.pos() <= it0.seq().len(),
            acc0@.len() == it0.pos(),
            all_are(acc0@, *pattern),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 after
    proof { assert(acc0@.skip(0) =~= acc0@); lemma_hmax_bound(acc0@, acc0@.len(), pheight(*pattern)); }
//@end
//@fn lapex-lexer/src/nfa/mod.rs build_nfa_from_pattern
//@spec
    requires
        alphabet.wf(), nwf(*old(nfa)), old(nfa).graph.valid(start), old(nfa).graph.valid(end), start != end, good(*alphabet, *pattern),
    ensures
        r is Some,
        built(*old(nfa), *final(nfa), start, end, lang(*alphabet, *pattern)),
        adds(*old(nfa), *final(nfa), delta(*old(nfa), *final(nfa))),
    decreases pheight(*pattern), 0nat,
//@at start
    let ghost o = *nfa;
    let ghost al = *alphabet;
    let ghost base = nn(o);
    let ghost mut n0 = *nfa;
    let ghost mut n1 = *nfa;
    let ghost mut n2 = *nfa;
    let ghost mut m0 = *nfa;
    let ghost mut m1 = *nfa;
    let ghost mut fs: ISet<usize> = ISet::empty();
    proof { lemma_grows_refl(o); }
//@at call chain_pattern_iterator 0 before
    proof {
        let s = Seq::new(elements@.len(), |i: int| &elements@[i]);
        assert forall|i: int| 0 <= i < s.len() implies pheight(*#[trigger] s[i]) <= hmax(elements@, elements@.len()) by { lemma_hmax(elements@, elements@.len(), i); }
        lemma_hmax_bound(s, s.len(), hmax(elements@, elements@.len()));
        assert forall|i: int| 0 <= i < s.len() implies good(al, *#[trigger] s[i]) by { assert(good(al, elements@[i])); }
    }
//@at call chain_pattern_iterator 0 after
    proof {
        let n = *nfa;
        let p = choose|p: Seq<Pc>| #[trigger] chained(o, n, p, start, end) && p.len() == elements@.len() && langs(al, p, Seq::new(elements@.len(), |i: int| &elements@[i]), p.len() as int);
        lemma_seq_built(al, o, n, p, start, end, elements@);
    }
//@at loop 0 before
    proof {
        lemma_no_edge(start, end);
        assert(no_edges::<NfaEdge<usize>>() =~= ISet::<Ed>::new(|g: Ed| false));
        assert(lalt(al, elements@, 0) =~= ISet::<W>::new(|w: W| false));
        lemma_wider(delta(o, o), none(), start, end, lalt(al, elements@, 0), rng(base, base));
    }
//@loop 0
        invariant
            alphabet.wf(), o == *old(nfa), al == *alphabet, base == nn(o), nwf(o), o.graph.valid(start), o.graph.valid(end), start != end, good(al, *pattern),
            *pattern matches Pattern::Alternative { elements: es } && es == *elements,
            it0.seq() == elements.vx_seq(), it0.pos() <= it0.seq().len(),
            grows(o, *nfa), frag(delta(o, *nfa), rng(base, nn(*nfa)), start, end, lalt(al, elements@, it0.pos())),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    proof { n0 = *nfa; assert(*elem == elements@[it0.pos() - 1]); lemma_hmax(elements@, elements@.len(), it0.pos() - 1); assert(good(al, elements@[it0.pos() - 1])); }
//@at call build_nfa_from_pattern 0 before
    proof { n1 = *nfa; assert(delta(o, n1) =~= delta(o, n0)); }
//@at call build_nfa_from_pattern 0 after
    proof { n2 = *nfa; }
//@at loop 0 end
    proof {
        lemma_branch(delta(o, n0), delta(n1, n2), delta(o, *nfa), base, nn(n0), nn(*nfa), start, end, inner_start, inner_end, lalt(al, elements@, (it0.pos() - 1) as nat), lang(al, *elem));
        assert(lalt(al, elements@, it0.pos()) == lalt(al, elements@, (it0.pos() - 1) as nat).union(lang(al, *elem)));
    }
//@at call add_epsilon_transition 2 after
    proof {
        m0 = *nfa;
        lemma_grows_refl(m0);
        assert(delta(o, m0) =~= one(eedge(start, inner_start)));
    }
//@at call build_nfa_from_pattern 1 after
    proof { m1 = *nfa; }
//@at call add_epsilon_transition 5 after
    proof {
        lemma_star(delta(m0, m1), delta(o, *nfa), base, nn(*nfa), start, end, inner_start, inner_end, lang(al, **inner));
    }
//@at call pop 0 before
    let ghost its = intermediates@;
    proof { m1 = *nfa; }
//@at call add_epsilon_transition 8 after
    proof {
        let l = lang(al, **inner);
        let p = choose|p: Seq<Pc>| #[trigger] chained(m0, m1, p, inner_start, inner_end) && p.len() == *n as nat && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).l == l) && joints(p, its, p.len() - 1);
        if its.len() > 0 { assert(its[its.len() - 1] == p[its.len() - 1].t); }
        assert(previous == jn(p, inner_start, p.len() - 1));
        lemma_atleast(p, delta(o, *nfa), base, nn(*nfa), start, end, inner_start, inner_end, previous, l);
    }
//@at call add_epsilon_transition 9 before
    proof {
        m1 = *nfa;
        let l = lang(al, **inner);
        if *n == 0 { assert(delta(m0, m1) =~= one(eedge(inner_start, inner_end))); lemma_exact0(m0, m1, inner_start, inner_end, l); } else {
            let p = choose|p: Seq<Pc>| #[trigger] chained(m0, m1, p, inner_start, inner_end) && p.len() == *n as nat && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).l == l);
            lemma_exact(m0, m1, p, inner_start, inner_end, l);
        }
        lemma_grows_trans(o, m0, m1);
    }
//@at call add_epsilon_transition 9 after
    proof {
        let l = lang(al, **inner);
        lemma_exactly(delta(m0, m1), delta(o, *nfa), base, nn(*nfa), start, end, inner_start, inner_end, l, *n as nat);
    }
//@at call add_intermediate_state 4 before
    proof {
        m1 = *nfa;
        let l = lang(al, **inner);
        if *n == 0 { assert(delta(m0, m1) =~= one(eedge(inner_start, inner_end))); lemma_exact0(m0, m1, inner_start, inner_end, l); } else {
            let p = choose|p: Seq<Pc>| #[trigger] chained(m0, m1, p, inner_start, inner_end) && p.len() == *n as nat && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).l == l);
            lemma_exact(m0, m1, p, inner_start, inner_end, l);
        }
        lemma_grows_trans(o, m0, m1);
    }
//@at call chain_pattern_times 1 before
    let ghost n3 = *nfa;
    proof { assert(delta(o, n3) =~= delta(o, m1).union(one(eedge(inner_end, max_start)))); }
//@at call chain_pattern_times 1 after
    let ghost n4 = *nfa;
    let ghost l = lang(al, **inner);
    let ghost q = choose|p: Seq<Pc>| #[trigger] chained(n3, n4, p, max_start, max_end) && p.len() == (*max - *min) as nat && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).l == l) && joints(p, max_intermediates@, p.len() - 1);
    let ghost its = max_intermediates@;
//@at loop 1 before
    let ghost lst = it1.seq();
    proof {
        lemma_grows_refl(n4);
        lemma_all_joints(q, max_start, max_end, its, lst);
        assert(taps(lst, 0, end) =~= no_edges::<NfaEdge<usize>>());
        assert forall|i: int| 0 <= i < lst.len() implies n4.graph.valid(#[trigger] lst[i]) by {
            if i < its.len() { assert(its[i] == q[i].t); assert(pc_ok(q[i], nn(n3), nn(n4))); assert(inner_pc(q[i])); }
        }
    }
//@loop 1
        invariant
            it1.seq() == lst, it1.pos() <= lst.len(), nwf(n4), n4.graph.valid(end),
            forall|i: int| 0 <= i < lst.len() ==> n4.graph.valid(#[trigger] lst[i]),
            grows(n4, *nfa), nn(*nfa) == nn(n4), delta(n4, *nfa) == taps(lst, it1.pos() as int, end),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 end
    proof { lemma_taps_add(lst, it1.pos() - 1, end); }
//@at loop 1 after
    proof {
        lemma_grows_trans(o, n3, n4);
        lemma_grows_trans(o, n4, *nfa);
        lemma_upto(delta(m0, m1), q, lst, delta(o, *nfa), base, nn(m1), nn(*nfa), start, end, inner_start, inner_end, max_start, max_end, l, *min as nat);
    }
//@loop 2
        invariant
            alphabet.wf(), al == *alphabet, good(al, *pattern), *nfa == o,
            *pattern matches Pattern::CharSet { chars: es, negated: _ } && es == *chars_vec,
            it2.seq() == chars_vec.vx_seq(), it2.pos() <= it2.seq().len(),
            forall|i: usize| #[trigger] indices@.contains(i) <==> hits(al, chars_vec@, it2.pos() as int, i),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    let ghost idx0 = indices@;
    proof { assert(*chars == chars_vec@[it2.pos() - 1]); assert(cown(al, chars_vec@[it2.pos() - 1])); }
//@at call insert 0 after
    proof {
        let c = *chars;
        assert forall|i: usize| #[trigger] indices@.contains(i) <==> idx0.contains(i) || hit(al, c, i as int) by {
            if i < al.ranges@.len() { lemma_span(al, c, index as int, index as int, i as int); }
        }
    }
//@loop 3
        invariant
            it3.seq() == (RangeInclusive { start: index_start, end: index_end }).vx_seq(), it3.pos() <= it3.seq().len(),
            forall|i: usize| #[trigger] indices@.contains(i) <==> idx0.contains(i) || index_start <= i < index_start + it3.pos(),
        decreases it3.seq().len() - it3.pos(),
//@at loop 3 after
    proof {
        let c = *chars;
        assert forall|i: usize| #[trigger] indices@.contains(i) <==> idx0.contains(i) || hit(al, c, i as int) by {
            if i < al.ranges@.len() { lemma_span(al, c, index_start as int, index_end as int, i as int); }
        }
    }
//@at loop 2 end
    proof {
        let c = *chars;
        let k = it2.pos() as int;
        assert forall|i: usize| #[trigger] indices@.contains(i) <==> hits(al, chars_vec@, k, i) by {
            if hits(al, chars_vec@, k, i) { let j = choose|j: int| 0 <= j < k && hit(al, #[trigger] chars_vec@[j], i as int); if j < k - 1 { assert(hits(al, chars_vec@, k - 1, i)); } }
            if hit(al, c, i as int) { assert(hit(al, chars_vec@[k - 1], i as int)); }
            if hits(al, chars_vec@, k - 1, i) { let j = choose|j: int| 0 <= j < k - 1 && hit(al, #[trigger] chars_vec@[j], i as int); assert(hit(al, chars_vec@[j], i as int)); }
        }
    }
//@at loop 2 after
    proof {
        fs = cs_classes(al, chars_vec@, *negated);
        lemma_hits(al, chars_vec@, *negated);
        assert(tedges(start, end, upto(fs, 0)) =~= no_edges::<NfaEdge<usize>>());
    }
//@loop 4
        invariant
            al == *alphabet, nwf(o), o.graph.valid(start), o.graph.valid(end), grows(o, *nfa), nn(*nfa) == nn(o),
            it4.seq() == (0..al.ranges@.len() as usize).vx_seq(), it4.pos() <= it4.seq().len(), it4.seq().len() == al.ranges@.len(),
            forall|i: usize| #[trigger] fs.contains(i) <==> i < al.ranges@.len() && !indices@.contains(i),
            delta(o, *nfa) == tedges(start, end, upto(fs, it4.pos() as int)),
        decreases it4.seq().len() - it4.pos(),
//@at loop 4 start
    proof { n0 = *nfa; }
//@at loop 4 end
    proof {
        if fs.contains(i) { lemma_tedges_add(start, end, upto(fs, it4.pos() - 1), i); assert(upto(fs, it4.pos() - 1).insert(i) =~= upto(fs, it4.pos() as int)); }
        else { assert(upto(fs, it4.pos() - 1) =~= upto(fs, it4.pos() as int)); }
    }
//@at loop 4 after
    proof { assert(upto(fs, it4.pos() as int) =~= fs); lemma_lettered(o, *nfa, start, end, fs); }
//@at loop 5 before
    let ghost lst = it5.seq();
    let ghost mut done: ISet<usize> = ISet::empty();
    proof { assert(tedges(start, end, done) =~= no_edges::<NfaEdge<usize>>()); }
//@loop 5
        invariant
            nwf(o), o.graph.valid(start), o.graph.valid(end), grows(o, *nfa), nn(*nfa) == nn(o),
            it5.seq() == lst, it5.pos() <= it5.seq().len(),
            forall|i: usize| #[trigger] done.contains(i) <==> exists|j: int| 0 <= j < it5.pos() && #[trigger] lst[j] == i,
            delta(o, *nfa) == tedges(start, end, done),
        decreases it5.seq().len() - it5.pos(),
//@at loop 5 end
    proof {
        lemma_tedges_add(start, end, done, i);
        let d0 = done;
        done = done.insert(i);
        assert(lst[it5.pos() - 1] == i);
        assert forall|x: usize| #[trigger] done.contains(x) <==> exists|j: int| 0 <= j < it5.pos() && #[trigger] lst[j] == x by {
            if d0.contains(x) { let j = choose|j: int| 0 <= j < it5.pos() - 1 && #[trigger] lst[j] == x; assert(lst[j] == x); }
            if exists|j: int| 0 <= j < it5.pos() && #[trigger] lst[j] == x { let j = choose|j: int| 0 <= j < it5.pos() && #[trigger] lst[j] == x; if j < it5.pos() - 1 { assert(d0.contains(x)); } }
        }
    }
//@at loop 5 after
    proof {
        assert forall|x: usize| done.contains(x) == fs.contains(x) by {
            if fs.contains(x) { assert(indices@.contains(x)); assert(lst.contains(x)); }
            if done.contains(x) { let j = choose|j: int| 0 <= j < it5.pos() && #[trigger] lst[j] == x; assert(lst.contains(x)); }
        }
        assert(done =~= fs);
        lemma_lettered(o, *nfa, start, end, fs);
    }
//@at call add_transition 2 after
    proof {
        let fs = ISet::new(|i: usize| i == index);
        lemma_char_class(al, *chars, index as int, index as int, fs);
        assert(delta(o, *nfa) =~= tedges(start, end, fs)) by {
            assert forall|g: Ed| delta(o, *nfa).contains(g) == tedges(start, end, fs).contains(g) by { assert(fs.contains(index)); if g == tedge(start, index, end) { } }
        }
        lemma_lettered(o, *nfa, start, end, fs);
    }
//@at loop 6 before
    let ghost mut done: ISet<usize> = ISet::empty();
    proof { assert(tedges(start, end, done) =~= no_edges::<NfaEdge<usize>>()); }
//@loop 6
        invariant
            nwf(o), o.graph.valid(start), o.graph.valid(end), grows(o, *nfa), nn(*nfa) == nn(o),
            it6.seq() == (RangeInclusive { start: index_start, end: index_end }).vx_seq(), it6.pos() <= it6.seq().len(),
            forall|i: usize| #[trigger] done.contains(i) <==> index_start <= i < index_start + it6.pos(),
            delta(o, *nfa) == tedges(start, end, done),
        decreases it6.seq().len() - it6.pos(),
//@at loop 6 end
    proof { lemma_tedges_add(start, end, done, i); done = done.insert(i); }
//@at loop 6 after
    proof {
        lemma_char_class(al, *chars, index_start as int, index_end as int, done);
        lemma_lettered(o, *nfa, start, end, done);
    }
//@at end
    proof { lemma_adds(o, *nfa); }
//@end
