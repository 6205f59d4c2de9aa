//@type lapex-lexer/src/lib.rs PrecedenceError

// ---- the precedence of a rule --------------------------------------------------------------------
pub open spec fn pprec(p: Pattern) -> int
    decreases p, 0nat, 0nat,
{
    match p {
        Pattern::Sequence { elements } => psum(elements, elements@.len()),
        Pattern::Alternative { elements } => pmin(elements, elements@.len()),
        Pattern::Repetition { min, max, inner } => min * pprec(*inner),
        Pattern::CharSet { chars, negated } => 1,
        Pattern::Char { chars } => 1,
    }
}
pub open spec fn psum(v: Vec<Pattern>, k: nat) -> int
    decreases v, 1nat, k,
{ if k == 0 || k > v@.len() { 0 } else { psum(v, (k - 1) as nat) + pprec(v@[k - 1]) } }
pub open spec fn pmin(v: Vec<Pattern>, k: nat) -> int
    decreases v, 1nat, k,
{
    if k == 0 || k > v@.len() { 0 } else if k == 1 { pprec(v@[0]) } else {
        let a = pmin(v, (k - 1) as nat);
        let b = pprec(v@[k - 1]);
        if b < a { b } else { a }
    }
}
// what the precedence computation needs: alternatives are non-empty, and no sub-pattern's precedence exceeds a machine word
pub open spec fn pat_ok(p: Pattern) -> bool
    decreases p,
{
    0 <= pprec(p) <= usize::MAX && match p {
        Pattern::Sequence { elements } => forall|i: int| 0 <= i < elements@.len() ==> pat_ok(#[trigger] elements@[i]),
        Pattern::Alternative { elements } => elements@.len() > 0 && forall|i: int| 0 <= i < elements@.len() ==> pat_ok(#[trigger] elements@[i]),
        Pattern::Repetition { min, max, inner } => pat_ok(*inner),
        _ => true,
    }
}
pub open spec fn prec(r: TokenRule) -> int {
    match r.precedence {
        Some(p) => p as int,
        None => match r.pattern {
            TokenPattern::Literal { characters } => 2 * characters@.len() as int,
            TokenPattern::Pattern { pattern } => pprec(pattern),
        },
    }
}
pub open spec fn prec_ok(r: TokenRule) -> bool {
    r.precedence is None ==> match r.pattern {
        TokenPattern::Literal { characters } => 2 * characters@.len() <= usize::MAX,
        TokenPattern::Pattern { pattern } => pat_ok(pattern),
    }
}
pub proof fn lemma_psum_le(v: Vec<Pattern>, j: nat, k: nat)
    requires j <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> pat_ok(#[trigger] v@[i]),
    ensures 0 <= psum(v, j) <= psum(v, k),
    decreases k,
{
    if j < k { lemma_psum_le(v, j, (k - 1) as nat); assert(pat_ok(v@[k - 1])); }
    else if k > 0 { lemma_psum_le(v, (k - 1) as nat, (k - 1) as nat); assert(pat_ok(v@[k - 1])); }
}
//@fn lapex-input/src/lib.rs Pattern::precedence
//@spec
    requires pat_ok(*self),
    ensures r == pprec(*self),
    decreases self,
//@loop 0
        invariant
            *self == (Pattern::Sequence { elements: *elements }), pat_ok(*self), it0.pos() <= it0.seq().len(), it0.seq() == elements.vx_it_seq(),
            acc0 == psum(*elements, it0.pos()),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    proof { let p = it0.pos(); assert(e0 == it0.seq()[p - 1]); assert(*e0 == elements@[p - 1]); lemma_psum_le(*elements, p, elements@.len()); }
//@loop 1
        invariant
            *self == (Pattern::Alternative { elements: *elements }), pat_ok(*self), it1.pos() <= it1.seq().len(), it1.seq() == elements.vx_it_seq(),
            it1.pos() == 0 ==> acc1 is None,
            it1.pos() > 0 ==> acc1 is Some && acc1->0 == pmin(*elements, it1.pos()),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    proof { let p = it1.pos(); assert(e1 == it1.seq()[p - 1]); assert(*e1 == elements@[p - 1]); }
//@end
//@fn lapex-input/src/lib.rs TokenRule::precedence
//@spec
    requires prec_ok(*self),
    ensures r == prec(*self),
//@end
//@fn lapex-input/src/lib.rs Spanned::new
//@spec
    ensures r.span == span, r.inner == inner,
//@end

// ---- the winner of a candidate list ---------------------------------------------------------------
pub type Cands<'rules> = Vec<&'rules Spanned<TokenRule<'rules>>>;
pub open spec fn cp(c: Cands, i: int) -> int { prec(c@[i].inner) }
pub open spec fn top(c: Cands, i: int) -> bool { 0 <= i < c@.len() && forall|j: int| 0 <= j < c@.len() ==> #[trigger] cp(c, j) <= cp(c, i) }
// r is the one candidate with strictly higher precedence than all others
pub open spec fn wins(c: Cands, i: int) -> bool { 0 <= i < c@.len() && forall|j: int| 0 <= j < c@.len() && j != i ==> #[trigger] cp(c, j) < cp(c, i) }
pub open spec fn winner<'r>(c: Cands<'r>, r: &'r TokenRule<'r>) -> bool { exists|i: int| #[trigger] wins(c, i) && *r == c@[i].inner }
// the error lists exactly the candidates tied at the top, once each
pub open spec fn tied_at(c: Cands, e: PrecedenceError, q: Seq<int>) -> bool {
    &&& q.no_duplicates() && q.len() >= 2 && e.rules@.len() == q.len()
    &&& forall|i: int| #[trigger] q.contains(i) <==> top(c, i)
    &&& forall|k: int| 0 <= k < q.len() ==> (#[trigger] e.rules@[k]).span == c@[q[k]].span && e.rules@[k].inner@ == c@[q[k]].inner.name@
    &&& forall|k: int| 0 <= k < q.len() ==> e.precedence == cp(c, #[trigger] q[k])
}
pub open spec fn tied(c: Cands, e: PrecedenceError) -> bool { exists|q: Seq<int>| #[trigger] tied_at(c, e, q) }
pub open spec fn cands_ok(c: Cands) -> bool { c@.len() > 0 && forall|i: int| 0 <= i < c@.len() ==> prec_ok((#[trigger] c@[i]).inner) }
// success and failure exclude each other
pub proof fn lemma_winner_or_tied(c: Cands, r: &TokenRule, e: PrecedenceError)
    requires winner(c, r), tied(c, e),
    ensures false,
{
    let i = choose|i: int| #[trigger] wins(c, i);
    let q = choose|q: Seq<int>| #[trigger] tied_at(c, e, q);
    assert(q.contains(q[0]) && q.contains(q[1]));
    assert(top(c, q[0]) && top(c, q[1]));
    assert(cp(c, i) <= cp(c, q[0]) && cp(c, i) <= cp(c, q[1]));
    assert(q[0] == i && q[1] == i);
}
pub proof fn lemma_perm_len(p: Seq<int>, n: nat)
    requires p.no_duplicates(), forall|i: int| #[trigger] p.contains(i) <==> 0 <= i < n,
    ensures p.len() == n,
{
    p.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n as int);
    assert(p.to_set() =~= vstd::set_lib::set_int_range(0, n as int));
}
pub open spec fn with_prec<'r>(c: Cands<'r>, s: Seq<(&'r Spanned<TokenRule<'r>>, usize)>) -> bool {
    s.len() <= c@.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == c@[i] && s[i].1 == cp(c, i)
}
// entries of the sorted list with the highest precedence, found so far
pub open spec fn picked<'r>(s: Seq<(&'r Spanned<TokenRule<'r>>, usize)>, n: int, h: usize, q: Seq<int>, v: Seq<&'r Spanned<TokenRule<'r>>>) -> bool {
    &&& v.len() == q.len() && q.no_duplicates() && n <= s.len()
    &&& forall|k: int| 0 <= k < q.len() ==> 0 <= #[trigger] q[k] < n && s[q[k]].1 == h && v[k] == s[q[k]].0
    &&& forall|i: int| 0 <= i < n && (#[trigger] s[i]).1 == h ==> q.contains(i)
}
pub proof fn lemma_picked_push<'r>(s: Seq<(&'r Spanned<TokenRule<'r>>, usize)>, n: int, h: usize, q: Seq<int>, v: Seq<&'r Spanned<TokenRule<'r>>>, x: &'r Spanned<TokenRule<'r>>)
    requires picked(s, n, h, q, v), 0 <= n < s.len(), s[n].1 == h, s[n].0 == x,
    ensures picked(s, n + 1, h, q.push(n), v.push(x)),
{
    assert forall|i: int| 0 <= i < n + 1 && (#[trigger] s[i]).1 == h implies q.push(n).contains(i) by {
        if i < n { let k = choose|k: int| 0 <= k < q.len() && q[k] == i; assert(q.push(n)[k] == i); } else { assert(q.push(n)[q.len() as int] == n); }
    }
}
// picked entries of a permutation of the candidates: exactly the candidates at the top
pub proof fn lemma_picked_top<'r>(c: Cands<'r>, a: Seq<(&'r Spanned<TokenRule<'r>>, usize)>, s: Seq<(&'r Spanned<TokenRule<'r>>, usize)>, p: Seq<int>, h: usize, q: Seq<int>, v: Seq<&'r Spanned<TokenRule<'r>>>, qp: Seq<int>)
    requires
        with_prec(c, a), a.len() == c@.len(), vx_perm_by(a, s, p), c@.len() > 0, picked(s, s.len() as int, h, q, v),
        forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).1 <= h, exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == h,
        qp == Seq::new(q.len(), |k: int| p[q[k]]),
    ensures
        qp.no_duplicates(), qp.len() == v.len(), qp.len() > 0,
        forall|i: int| #[trigger] qp.contains(i) <==> top(c, i),
        forall|k: int| 0 <= k < qp.len() ==> cp(c, #[trigger] qp[k]) == h && v[k] == c@[qp[k]],
{
    assert forall|i: int| 0 <= i < s.len() implies cp(c, #[trigger] p[i]) == s[i].1 && s[i].0 == c@[p[i]] by { assert(s[i] == a[p[i]]); }
    assert forall|i: int| 0 <= i < c@.len() implies #[trigger] cp(c, i) <= h by {
        assert(p.contains(i));
        let j = choose|j: int| 0 <= j < p.len() && p[j] == i;
        assert(s[j].1 <= h);
        assert(cp(c, p[j]) == s[j].1);
    }
    assert forall|k: int| 0 <= k < qp.len() implies cp(c, #[trigger] qp[k]) == h && v[k] == c@[qp[k]] by { assert(qp[k] == p[q[k]]); }
    assert forall|i: int, j: int| 0 <= i < qp.len() && 0 <= j < qp.len() && i != j implies qp[i] != qp[j] by { assert(q[i] != q[j]); assert(p[q[i]] != p[q[j]]); }
    let j0 = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == h;
    assert(q.contains(j0));
    assert(cp(c, p[j0]) == h);
    assert forall|i: int| #[trigger] qp.contains(i) <==> top(c, i) by {
        if qp.contains(i) {
            let k = choose|k: int| 0 <= k < qp.len() && qp[k] == i;
            assert(cp(c, qp[k]) == h);
            assert(p.contains(p[q[k]]));
            assert(top(c, i));
        }
        if top(c, i) {
            assert(p.contains(i));
            let j = choose|j: int| 0 <= j < p.len() && p[j] == i;
            assert(p.contains(p[j0]));
            assert(cp(c, p[j0]) <= cp(c, i));
            assert(cp(c, p[j]) == s[j].1);
            assert(q.contains(j));
            let k = choose|k: int| 0 <= k < q.len() && q[k] == j;
            assert(qp[k] == i);
        }
    }
}
pub proof fn lemma_winner<'r>(c: Cands<'r>, q: Seq<int>, r: &'r TokenRule<'r>)
    requires q.no_duplicates(), q.len() == 1, forall|i: int| #[trigger] q.contains(i) <==> top(c, i), *r == c@[q[0]].inner,
    ensures winner(c, r),
{
    assert(q.contains(q[0]));
    assert forall|j: int| 0 <= j < c@.len() && j != q[0] implies #[trigger] cp(c, j) < cp(c, q[0]) by {
        if cp(c, j) >= cp(c, q[0]) { assert(top(c, j)); assert(q.contains(j)); }
    }
    assert(wins(c, q[0]));
}
pub open spec fn described<'r>(v: Seq<&'r Spanned<TokenRule<'r>>>, s: Seq<Spanned<String>>) -> bool {
    s.len() <= v.len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).span == v[k].span && s[k].inner@ == v[k].inner.name@
}
//@fn lapex-lexer/src/lib.rs resolve_precedence
//@spec
    requires cands_ok(*rules),
    ensures
        r matches Ok(w) ==> winner(*rules, w),
        r matches Err(e) ==> tied(*rules, e),
//@at start
    let ghost mut q: Seq<int> = Seq::empty();
    let ghost mut a: Seq<(&Spanned<TokenRule>, usize)> = Seq::empty();
    let ghost mut qp: Seq<int> = Seq::empty();
//@loop 0
        invariant
            cands_ok(*rules), it0.pos() <= it0.seq().len(), it0.seq() == rules.vx_it_seq(),
            acc0@.len() == it0.pos(), with_prec(*rules, acc0@),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    proof { let n = it0.pos(); assert(e0 == it0.seq()[n - 1]); assert(prec_ok(rules@[n - 1].inner)); }
//@at loop 0 after
    proof { a = acc0@; }
//@closure 0 |r: &(&'rules Spanned<TokenRule<'rules>>, usize)| -> (k: Reverse<usize>)
    ensures k.0 == r.1,
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), it1.seq() == sorted_rules.vx_it_seq(),
            picked(sorted_rules@, it1.pos() as int, highest_precedence, q, acc1@),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost n1 = it1.pos() - 1;
    let ghost v1 = acc1@;
    proof { assert(e1 == it1.seq()[n1]); assert(*e1 == sorted_rules@[n1]); }
//@at loop 1 end
    proof {
        if acc1@.len() > q.len() { lemma_picked_push(sorted_rules@, n1, highest_precedence, q, v1, sorted_rules@[n1].0); q = q.push(n1); }
    }
//@at loop 1 after
    proof {
        let p = choose|p: Seq<int>| #[trigger] vx_perm_by(a, sorted_rules@, p);
        qp = Seq::new(q.len(), |k: int| p[q[k]]);
        assert(sorted_rules@[0].1 == highest_precedence);
        lemma_picked_top(*rules, a, sorted_rules@, p, highest_precedence, q, acc1@, qp);
    }
//@loop 2
        invariant
            it2.pos() <= it2.seq().len(), it2.seq() == rules_with_matching_prec.vx_it_seq(), acc2@.len() == it2.pos(),
            described(rules_with_matching_prec@, acc2@),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    proof { assert(e2 == it2.seq()[it2.pos() - 1]); }
//@at exits
    proof {
        if vx_ret is Err { let e = vx_ret->Err_0; assert(tied_at(*rules, e, qp)); } else { lemma_winner(*rules, qp, vx_ret->Ok_0); }
    }
//@end

// ---- applying it to an automaton -----------------------------------------------------------------
pub type CDfa<'rules> = Dfa<Vec<&'rules Spanned<TokenRule<'rules>>>, usize>;
pub type RDfa<'rules> = Dfa<&'rules TokenRule<'rules>, usize>;
pub open spec fn label_ok<'r>(a: AutomatonState<Vec<&'r Spanned<TokenRule<'r>>>>, b: AutomatonState<&'r TokenRule<'r>>) -> bool {
    match a {
        AutomatonState::Accepting(c) => b matches AutomatonState::Accepting(w) && winner(c, w),
        AutomatonState::Intermediate(_) => b is Intermediate,
    }
}
// the same edges, once each
pub open spec fn same_edges_by(d: Seq<GEdge<usize>>, r: Seq<GEdge<usize>>, p: Seq<int>) -> bool {
    &&& p.no_duplicates() && p.len() == r.len() && d.len() == r.len()
    &&& forall|i: int| #[trigger] p.contains(i) <==> 0 <= i < d.len()
    &&& forall|k: int| 0 <= k < p.len() ==> #[trigger] r[k] == d[p[k]]
}
pub open spec fn same_edges(d: Seq<GEdge<usize>>, r: Seq<GEdge<usize>>) -> bool { exists|p: Seq<int>| #[trigger] same_edges_by(d, r, p) }
pub open spec fn dfa_cands_ok(d: CDfa) -> bool {
    d.wf() && forall|i: int, c: Cands| 0 <= i < d.graph.nodes().len() && #[trigger] d.graph.nodes()[i] == AutomatonState::Accepting(c) ==> #[trigger] cands_ok(c)
}
pub open spec fn is_id(m: Map<NodeIndex, NodeIndex>, n: nat) -> bool {
    forall|x: NodeIndex| (#[trigger] m.contains_key(x) <==> x.i < n) && (x.i < n ==> m[x] == x)
}
pub open spec fn relabelled<'r>(d: Seq<AutomatonState<Vec<&'r Spanned<TokenRule<'r>>>>>, r: Seq<AutomatonState<&'r TokenRule<'r>>>) -> bool {
    r.len() <= d.len() && forall|i: int| 0 <= i < r.len() ==> label_ok(d[i], #[trigger] r[i])
}
pub proof fn lemma_labels_push<'r>(d: Seq<AutomatonState<Vec<&'r Spanned<TokenRule<'r>>>>>, r0: Seq<AutomatonState<&'r TokenRule<'r>>>, r1: Seq<AutomatonState<&'r TokenRule<'r>>>)
    requires relabelled(d, r0), r1.len() == r0.len() + 1, r1.len() <= d.len(), r1.drop_last() == r0, label_ok(d[r0.len() as int], r1.last()),
    ensures relabelled(d, r1),
{
    assert forall|i: int| 0 <= i < r1.len() implies label_ok(d[i], #[trigger] r1[i]) by {
        if i < r0.len() { assert(r0[i] == r1.drop_last()[i]); }
    }
}
pub proof fn lemma_id_push(m: Map<NodeIndex, NodeIndex>, n: nat, x: NodeIndex)
    requires is_id(m, n), x.i == n,
    ensures is_id(m.insert(x, x), n + 1),
{
    assert forall|y: NodeIndex| (#[trigger] m.insert(x, x).contains_key(y) <==> y.i < n + 1) && (y.i < n + 1 ==> m.insert(x, x)[y] == y) by {
        if y.i == n { assert(y == x); }
        assert(m.contains_key(y) <==> y.i < n);
    }
}
// r lists the edges of d picked by p
pub open spec fn pairs(d: Seq<GEdge<usize>>, r: Seq<GEdge<usize>>, p: Seq<int>) -> bool {
    p.len() == r.len() && forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] p[k] < d.len() && r[k] == d[p[k]]
}
// p picks the edges that leave the first j nodes of o
pub open spec fn picks(d: Seq<GEdge<usize>>, o: Seq<NodeIndex>, j: int, p: Seq<int>) -> bool {
    p.no_duplicates() && forall|i: int| #[trigger] p.contains(i) <==> 0 <= i < d.len() && o.take(j).contains(d[i].s)
}
pub proof fn lemma_picks_step(d: Seq<GEdge<usize>>, o: Seq<NodeIndex>, j: int, p: Seq<int>)
    requires picks(d, o, j, p), 0 <= j < o.len(), o.no_duplicates(),
    ensures picks(d, o, j + 1, p + vx_out(d, o[j])),
{
    broadcast use vx_graph_axioms;
    let u = vx_out(d, o[j]);
    let q = p + u;
    assert(o.take(j + 1) =~= o.take(j).push(o[j]));
    assert forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < q.len() && a != b implies q[a] != q[b] by {
        if a < p.len() { assert(p.contains(p[a])); }
        if b < p.len() { assert(p.contains(p[b])); }
        if a < p.len() && b >= p.len() { lemma_other(d, o, j, p[a], b - p.len()); }
        if b < p.len() && a >= p.len() { lemma_other(d, o, j, p[b], a - p.len()); }
    }
    assert forall|i: int| #[trigger] q.contains(i) <==> 0 <= i < d.len() && o.take(j + 1).contains(d[i].s) by {
        if q.contains(i) {
            let k = choose|k: int| 0 <= k < q.len() && q[k] == i;
            if k < p.len() {
                assert(p.contains(i));
                let l = choose|l: int| 0 <= l < o.take(j).len() && o.take(j)[l] == d[i].s;
                assert(o.take(j + 1)[l] == d[i].s);
            } else {
                assert(u[k - p.len()] == i);
                assert(o.take(j + 1)[j] == d[i].s);
            }
        }
        if 0 <= i < d.len() && o.take(j + 1).contains(d[i].s) {
            let o1 = o.take(j + 1);
            let l = choose|l: int| 0 <= l < o1.len() && #[trigger] o1[l] == d[i].s;
            if l < j {
                assert(o.take(j)[l] == d[i].s);
                assert(p.contains(i));
                let k = choose|k: int| 0 <= k < p.len() && p[k] == i;
                assert(q[k] == i);
            } else {
                assert(d[i].s == o[j]);
                assert(u.contains(i));
                let k = choose|k: int| 0 <= k < u.len() && u[k] == i;
                assert(q[p.len() + k] == i);
            }
        }
    }
}
proof fn lemma_other(d: Seq<GEdge<usize>>, o: Seq<NodeIndex>, j: int, i: int, k: int)
    requires 0 <= j < o.len(), o.no_duplicates(), 0 <= i < d.len(), o.take(j).contains(d[i].s), 0 <= k < vx_out(d, o[j]).len(),
    ensures vx_out(d, o[j])[k] != i,
{
    broadcast use vx_graph_axioms;
    let l = choose|l: int| 0 <= l < o.take(j).len() && o.take(j)[l] == d[i].s;
    assert(o[l] == d[i].s);
}
pub proof fn lemma_pairs_push(d: Seq<GEdge<usize>>, r: Seq<GEdge<usize>>, p: Seq<int>, u: Seq<int>, k: int)
    requires pairs(d, r, p + u.take(k)), 0 <= k < u.len(), 0 <= u[k] < d.len(),
    ensures pairs(d, r.push(d[u[k]]), p + u.take(k + 1)),
{
    let q = p + u.take(k);
    let q1 = q.push(u[k]);
    assert(p + u.take(k + 1) =~= q1);
    let r1 = r.push(d[u[k]]);
    assert(q.len() == r.len());
    assert forall|i: int| 0 <= i < q1.len() implies 0 <= #[trigger] q1[i] < d.len() && r1[i] == d[q1[i]] by { if i < r.len() { assert(r1[i] == r[i]); assert(q1[i] == q[i]); assert(r[i] == d[q[i]]); } else { assert(q1[i] == u[k]); assert(r1[i] == d[u[k]]); } }
    assert(pairs(d, r1, q1));
}
pub proof fn lemma_all_picked(d: Seq<GEdge<usize>>, r: Seq<GEdge<usize>>, o: Seq<NodeIndex>, p: Seq<int>)
    requires pairs(d, r, p), picks(d, o, o.len() as int, p), forall|i: int| 0 <= i < d.len() ==> o.contains((#[trigger] d[i]).s),
    ensures same_edges(d, r),
{
    assert(o.take(o.len() as int) =~= o);
    assert forall|i: int| #[trigger] p.contains(i) <==> 0 <= i < d.len() by { }
    lemma_perm_len(p, d.len());
    assert(same_edges_by(d, r, p));
}
pub open spec fn tie_in(d: CDfa, e: PrecedenceError) -> bool {
    exists|i: int, c: Cands| 0 <= i < d.graph.nodes().len() && #[trigger] d.graph.nodes()[i] == AutomatonState::Accepting(c) && #[trigger] tied(c, e)
}
//@fn lapex-lexer/src/lib.rs apply_precedence_to_dfa
//@spec
    requires dfa_cands_ok(dfa),
    ensures
        r matches Ok(x) ==> x.wf() && x.graph.nodes().len() == dfa.graph.nodes().len()
            && relabelled(dfa.graph.nodes(), x.graph.nodes()) && same_edges(dfa.graph.edges(), x.graph.edges()),
        r matches Err(e) ==> tie_in(dfa, e),
//@at start
    let ghost dn = dfa.graph.nodes();
    let ghost de = dfa.graph.edges();
    let ghost mut pm: Seq<int> = Seq::empty();
    let ghost mut o: Seq<NodeIndex> = Seq::empty();
//@loop 0
        invariant
            dfa_cands_ok(dfa), dn == dfa.graph.nodes(), dn.len() <= usize::MAX, it0.pos() <= it0.seq().len(), it0.seq().len() == dn.len(),
            forall|i: int| 0 <= i < dn.len() ==> (#[trigger] it0.seq()[i]).0.i == i && *it0.seq()[i].1 == dn[i],
            resulting_dfa.wf(), resulting_dfa.graph.edges().len() == 0, resulting_dfa.graph.nodes().len() == it0.pos(),
            relabelled(dn, resulting_dfa.graph.nodes()), is_id(state_mapping@, it0.pos()),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    let ghost rn = resulting_dfa.graph.nodes();
    let ghost m0 = state_mapping@;
    let ghost n0 = it0.pos() - 1;
    proof { assert(it0.seq()[n0].0 == idx && *state == dn[n0]); lemma_id_push(m0, n0 as nat, idx); if let AutomatonState::Accepting(c) = state { assert(dn[n0] == AutomatonState::Accepting(*c)); assert(cands_ok(*c)); } }
//@at loop 0 end
    proof { lemma_labels_push(dn, rn, resulting_dfa.graph.nodes()); assert(state_mapping@ == m0.insert(idx, idx)); }
//@at loop 0 after
    proof {
        o = vx_order(state_mapping@.dom());
        assert(pairs(de, resulting_dfa.graph.edges(), pm));
        assert forall|i: int| #[trigger] pm.contains(i) <==> 0 <= i < de.len() && o.take(0).contains(de[i].s) by { }
        assert(picks(de, o, 0, pm));
    }
//@loop 1
        invariant
            dfa_cands_ok(dfa), dn == dfa.graph.nodes(), de == dfa.graph.edges(), it1.pos() <= it1.seq().len(), is_id(state_mapping@, dn.len()),
            o == vx_order(state_mapping@.dom()), it1.seq() == (&state_mapping).vx_seq(),
            resulting_dfa.wf(), resulting_dfa.graph.nodes().len() == dn.len(), relabelled(dn, resulting_dfa.graph.nodes()),
            pairs(de, resulting_dfa.graph.edges(), pm), picks(de, o, it1.pos() as int, pm),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost j = it1.pos() - 1;
    let ghost u = vx_out(de, o[j]);
    let ghost pm0 = pm;
    proof {
        assert(it1.seq()[j].0 == old_idx);
        assert(*old_idx == o[j]);
        assert(state_mapping@.dom().contains(o[j]));
        assert(state_mapping@.contains_key(o[j]));
        assert(*new_idx == o[j]);
        lemma_picks_step(de, o, j, pm);
        pm = pm0 + u;
        assert(pm0 + u.take(0) =~= pm0);
    }
//@loop 2
        invariant
            dfa_cands_ok(dfa), dn == dfa.graph.nodes(), de == dfa.graph.edges(), it2.pos() <= it2.seq().len(), is_id(state_mapping@, dn.len()),
            u == vx_out(de, *old_idx), from_refs(de, *old_idx, it2.seq()), it2.seq().len() == u.len(), *new_idx == *old_idx, old_idx.i < dn.len(),
            resulting_dfa.wf(), resulting_dfa.graph.nodes().len() == dn.len(), relabelled(dn, resulting_dfa.graph.nodes()),
            pairs(de, resulting_dfa.graph.edges(), pm0 + u.take(it2.pos() as int)),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    let ghost k = it2.pos() - 1;
    let ghost re = resulting_dfa.graph.edges();
    proof {
        assert(it2.seq()[k].1 == old_target_idx && it2.seq()[k].0 == weight);
        assert(0 <= u[k] < de.len() && de[u[k]].s == *old_idx);
        assert(de[u[k]].t == old_target_idx && de[u[k]].w == *weight);
        assert(state_mapping@.contains_key(old_target_idx));
        lemma_pairs_push(de, re, pm0, u, k);
    }
//@at loop 2 after
    proof { assert(u.take(u.len() as int) =~= u); }
//@at loop 1 after
    proof {
        assert forall|i: int| 0 <= i < de.len() implies o.contains((#[trigger] de[i]).s) by { assert(state_mapping@.contains_key(de[i].s)); assert(state_mapping@.dom().contains(de[i].s)); }
        lemma_all_picked(de, resulting_dfa.graph.edges(), o, pm);
    }
//@end
