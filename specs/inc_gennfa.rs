// ---- the automaton of all rules --------------------------------------------------------------------
pub open spec fn rule_ok(al: Alphabet, r: TokenRule) -> bool {
    owns(al, rule_mention(r)) && match r.pattern {
        TokenPattern::Literal { characters } => characters@.len() > 0,
        TokenPattern::Pattern { pattern } => shape_ok(pattern),
    }
}
pub proof fn lemma_lit_words(al: Alphabet, els: Seq<Pattern>, cs: Seq<char>, n: nat)
    requires n <= cs.len() == els.len(), forall|i: int| 0 <= i < cs.len() ==> #[trigger] els[i] == (Pattern::Char { chars: Characters::Single(cs[i]) }),
    ensures forall|w: W| #[trigger] lseq(al, els, n).contains(w) <==> lit_word(al, cs, w, n),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_lit_words(al, els, cs, m);
        let c = Characters::Single(cs[m as int]);
        assert(els[m as int] == (Pattern::Char { chars: c }));
        let ll = lang(al, els[m as int]);
        assert(ll == letters(classes(al, |x: int| cc_in(c, x))));
        assert forall|w: W| #[trigger] lseq(al, els, n).contains(w) <==> lit_word(al, cs, w, n) by {
            if lseq(al, els, n).contains(w) {
                let (u, v) = lemma_cat_out(lseq(al, els, m), ll, w);
                assert(v.len() == 1 && class_all(al, v[0] as int, |x: int| cc_in(c, x)));
                assert forall|k: int| 0 <= k < n implies class_all(al, #[trigger] w[k] as int, |x: int| x == cs[k] as u32) by {
                    if k < m { assert(w[k] == u[k]); } else { assert(w[k] == v[0]); assert(forall|x: int| #[trigger] in_range(al.ranges@[v[0] as int], x) ==> cc_in(c, x)); }
                }
            }
            if lit_word(al, cs, w, n) {
                let u = w.take(m as int);
                let v = w.skip(m as int);
                assert(class_all(al, w[m as int] as int, |x: int| x == cs[m as int] as u32));
                assert forall|k: int| 0 <= k < m implies class_all(al, #[trigger] u[k] as int, |x: int| x == cs[k] as u32) by { assert(class_all(al, w[k] as int, |x: int| x == cs[k] as u32)); }
                assert(lseq(al, els, m).contains(u));
                assert(v.len() == 1 && v[0] == w[m as int]);
                assert(class_all(al, v[0] as int, |x: int| cc_in(c, x)));
                lemma_cat_in(lseq(al, els, m), ll, u, v);
                assert(u + v =~= w);
            }
        }
    } else {
        assert forall|w: W| #[trigger] lseq(al, els, n).contains(w) <==> w.len() == n by { if w.len() == 0 { assert(w =~= W::empty()); } }
    }
}
pub proof fn lemma_lit_good(al: Alphabet, r: TokenRule, p: Pattern, cs: Seq<char>)
    requires lit_of(p, cs), cs.len() > 0, r.pattern matches TokenPattern::Literal { characters } && characters@ == cs, rule_ok(al, r),
    ensures good(al, p), lang(al, p) == rule_lang(al, r),
{
    let els = p->Sequence_elements@;
    assert forall|i: int| 0 <= i < els.len() implies good(al, #[trigger] els[i]) by {
        assert(els[i] == (Pattern::Char { chars: Characters::Single(cs[i]) }));
        assert(cs.to_set().contains(cs[i]));
        assert(cown(al, Characters::Single(cs[i])));
    }
    lemma_lit_words(al, els, cs, cs.len());
    assert(lang(al, p) == lseq(al, els, els.len()));
    let cs2 = r.pattern->Literal_characters@;
    assert(cs2 == cs);
    assert forall|w: W| lang(al, p).contains(w) == rule_lang(al, r).contains(w) by {
        assert(lseq(al, els, cs.len()).contains(w) <==> lit_word(al, cs, w, cs.len()));
    }
    assert(lang(al, p) =~= rule_lang(al, r));
}
pub open spec fn edges_lt(e: Es, hi: int) -> bool { forall|g: Ed| #[trigger] e.contains(g) ==> g.s.i < hi && g.t.i < hi }
pub open spec fn none_into(e: Es, s: NodeIndex) -> bool { forall|g: Ed| #[trigger] e.contains(g) ==> g.t != s }
// adding one rule's fragment behind the automaton leaves what the others accept, and adds what the rule accepts
pub proof fn lemma_add_rule(e: Es, f: Es, e2: Es, lo: int, hi: int, s: NodeIndex, rs: NodeIndex, re: NodeIndex, l: Lang)
    requires
        edges_lt(e, lo), none_into(e, s), s.i < lo, rs.i == lo, re.i == lo + 1, frag(f, rng(lo + 2, hi), rs, re, l), lo + 2 <= hi,
        e2 == e.union(one(eedge(s, rs))).union(f),
    ensures
        edges_lt(e2, hi), none_into(e2, s),
        forall|w: W, x: NodeIndex| x.i < lo ==> (#[trigger] rch(e2, s, w, x) <==> rch(e, s, w, x)),
        forall|w: W| #[trigger] rch(e2, s, w, re) <==> l.contains(w),
{
    let ep = one(eedge(s, rs));
    let g0 = ep.union(f);
    let n = rng(lo + 2, hi);
    lemma_eps_edge(s, rs);
    lemma_serial(ep, none(), f, n, s, rs, re, eword(), l);
    lemma_cat_eps(l);
    let start_inv = |x: NodeIndex, w: W| x == s ==> w == W::empty();
    lemma_inv(e, s, start_inv);
    let inv = |x: NodeIndex, w: W| if x.i < lo { rch(e, s, w, x) } else { rch(g0, s, w, x) };
    lemma_here(e, s);
    lemma_here(g0, s);
    assert forall|g: Ed, w: W| #[trigger] e2.contains(g) && #[trigger] inv(g.s, w) implies inv(g.t, app(w, g.w)) by {
        if e.contains(g) {
            lemma_step(e, s, w, g);
        } else if g == eedge(s, rs) {
            assert(start_inv(s, w));
            assert(g0.contains(g));
            lemma_step(g0, s, w, g);
        } else {
            assert(f.contains(g));
            assert(g.s == rs || n.contains(g.s));
            assert(g.t == re || n.contains(g.t));
            assert(g0.contains(g));
            lemma_step(g0, s, w, g);
        }
    }
    lemma_inv(e2, s, inv);
    lemma_mono(e, e2, s);
    lemma_mono(g0, e2, s);
    assert forall|w: W, x: NodeIndex| x.i < lo implies (#[trigger] rch(e2, s, w, x) <==> rch(e, s, w, x)) by {
        if rch(e2, s, w, x) { assert(inv(x, w)); }
    }
    assert forall|w: W| #[trigger] rch(e2, s, w, re) <==> l.contains(w) by {
        if rch(e2, s, w, re) { assert(inv(re, w)); assert(rlang(g0, s, re).contains(w)); }
        if l.contains(w) { assert(rlang(g0, s, re).contains(w)); }
    }
    assert forall|g: Ed| #[trigger] e2.contains(g) implies g.s.i < hi && g.t.i < hi && g.t != s by {
        if f.contains(g) { assert(g.s == rs || n.contains(g.s)); assert(g.t == re || n.contains(g.t)); }
    }
}
// `ends` are the accepting states, one for each of the first n rules, and each is reached by exactly the words of its rule
pub open spec fn accepts<'r>(al: Alphabet, n: TNfa<'r>, s: NodeIndex, rules: Seq<Spanned<TokenRule<'r>>>, ends: Seq<NodeIndex>) -> bool {
    &&& ends.len() <= rules.len()
    &&& forall|k: int| 0 <= k < ends.len() ==> 0 <= (#[trigger] ends[k]).i < nn(n) && n.graph.nodes()[ends[k].i as int] == AutomatonState::Accepting(&rules[k])
    &&& forall|i: int, j: int| 0 <= i < j < ends.len() ==> (#[trigger] ends[i]).i < (#[trigger] ends[j]).i
    &&& forall|i: int| 0 <= i < nn(n) ==> #[trigger] n.graph.nodes()[i] is Intermediate || exists|k: int| 0 <= k < ends.len() && (#[trigger] ends[k]).i == i
    &&& forall|k: int, w: W| 0 <= k < ends.len() ==> (#[trigger] rch(eset(n.graph.edges(), 0), s, w, ends[k]) <==> rule_lang(al, rules[k].inner).contains(w))
}
pub proof fn lemma_wf_edges<'r>(n: TNfa<'r>)
    requires n.wf(),
    ensures edges_lt(eset(n.graph.edges(), 0), nn(n)),
{
    assert forall|g: Ed| #[trigger] eset(n.graph.edges(), 0).contains(g) implies g.s.i < nn(n) && g.t.i < nn(n) by {
        let i = choose|i: int| 0 <= i < n.graph.edges().len() && 0 <= i && #[trigger] n.graph.edges()[i] == g;
    }
}
pub proof fn lemma_rule_added<'r>(al: Alphabet, a: TNfa<'r>, c: TNfa<'r>, d: TNfa<'r>, s: NodeIndex, rs: NodeIndex, re: NodeIndex, rules: Seq<Spanned<TokenRule<'r>>>, ends: Seq<NodeIndex>)
    requires
        nwf(a), nwf(c), accepts(al, a, s, rules, ends), ends.len() < rules.len(), none_into(eset(a.graph.edges(), 0), s), s.i < nn(a),
        rs.i == nn(a), re.i == nn(a) + 1, nn(c) == nn(a) + 2, ext(a.graph.nodes(), c.graph.nodes()), c.graph.nodes()[nn(a)] is Intermediate,
        c.graph.nodes()[nn(a) + 1] == AutomatonState::Accepting(&rules[ends.len() as int]),
        c.graph.edges() == a.graph.edges().push(eedge(s, rs)),
        built(c, d, rs, re, rule_lang(al, rules[ends.len() as int].inner)),
    ensures
        accepts(al, d, s, rules, ends.push(re)), none_into(eset(d.graph.edges(), 0), s),
{
    let e = eset(a.graph.edges(), 0);
    let f = delta(c, d);
    let e2 = eset(d.graph.edges(), 0);
    let k = ends.len() as int;
    let l = rule_lang(al, rules[k].inner);
    lemma_wf_edges(a);
    lemma_eset_push(a.graph.edges(), eedge(s, rs), 0);
    lemma_eset_ext(c.graph.edges(), d.graph.edges(), 0);
    lemma_add_rule(e, f, e2, nn(a), nn(d), s, rs, re, l);
    let q = ends.push(re);
    assert forall|j: int| 0 <= j < q.len() implies 0 <= (#[trigger] q[j]).i < nn(d) && d.graph.nodes()[q[j].i as int] == AutomatonState::Accepting(&rules[j]) by {
        if j < k { assert(q[j] == ends[j]); assert(c.graph.nodes()[ends[j].i as int] == a.graph.nodes()[ends[j].i as int]); }
        assert(d.graph.nodes()[q[j].i as int] == c.graph.nodes()[q[j].i as int]);
    }
    assert forall|i: int| 0 <= i < nn(d) implies #[trigger] d.graph.nodes()[i] is Intermediate || exists|j: int| 0 <= j < q.len() && (#[trigger] q[j]).i == i by {
        if i < nn(c) {
            assert(d.graph.nodes()[i] == c.graph.nodes()[i]);
            if i < nn(a) {
                assert(c.graph.nodes()[i] == a.graph.nodes()[i]);
                if !(a.graph.nodes()[i] is Intermediate) { let j = choose|j: int| 0 <= j < ends.len() && (#[trigger] ends[j]).i == i; assert(q[j].i == i); }
            } else if i == nn(a) + 1 { assert(q[k].i == i); }
        }
    }
    assert forall|j: int, w: W| 0 <= j < q.len() implies (#[trigger] rch(e2, s, w, q[j]) <==> rule_lang(al, rules[j].inner).contains(w)) by {
        if j < k { assert(q[j] == ends[j]); assert(ends[j].i < nn(a)); assert(rch(e, s, w, ends[j]) <==> rule_lang(al, rules[j].inner).contains(w)); }
    }
}
//@fn lapex-lexer/src/nfa/mod.rs generate_nfa
//@spec
    requires
        alphabet.wf(), forall|k: int| 0 <= k < rules@.len() ==> rule_ok(*alphabet, (#[trigger] rules@[k]).inner),
    ensures
        nwf(r.1), r.1.graph.valid(r.0),
        exists|ends: Seq<NodeIndex>| #[trigger] accepts(*alphabet, r.1, r.0, rules@, ends) && ends.len() == rules@.len(),
//@at start
    let ghost al = *alphabet;
    let ghost mut ends: Seq<NodeIndex> = Seq::empty();
    let ghost mut na = arbitrary::<TNfa<'rules>>();
    let ghost mut nc = arbitrary::<TNfa<'rules>>();
//@loop 0
        invariant
            al == *alphabet, al.wf(), forall|k: int| 0 <= k < rules@.len() ==> rule_ok(al, (#[trigger] rules@[k]).inner),
            it0.seq() == rules.vx_seq(), it0.pos() <= it0.seq().len(),
            nwf(nfa), nfa.graph.valid(start), ends.len() == it0.pos(),
            accepts(al, nfa, start, rules@, ends), none_into(eset(nfa.graph.edges(), 0), start),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    let ghost k = it0.pos() - 1;
    proof {
        na = nfa;
        assert(it0.seq()[k] == rule);
        assert(*rule == rules@[k]);
        assert(rule_ok(al, rules@[k].inner));
        match &rule.inner.pattern {
            TokenPattern::Literal { characters } => {
                assert forall|p: Pattern| #[trigger] lit_of(p, characters@) implies good(al, p) && lang(al, p) == rule_lang(al, rule.inner) by { lemma_lit_good(al, rule.inner, p, characters@); }
            }
            TokenPattern::Pattern { pattern } => { lemma_good(al, *pattern); }
        }
    }
//@at call add_epsilon_transition 0 after
    proof { nc = nfa; }
//@at loop 0 end
    proof {
        lemma_rule_added(al, na, nc, nfa, start, rule_start, rule_end, rules@, ends);
        ends = ends.push(rule_end);
    }
//@at end
    proof { assert(accepts(al, vx_ret.1, vx_ret.0, rules@, ends)); }
//@end
