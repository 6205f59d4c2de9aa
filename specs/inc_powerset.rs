// ---- empty-step closure ---------------------------------------------------------------------------
pub open spec fn within(n: nat, c: Nodes) -> bool { forall|a: NodeIndex| #[trigger] c.contains(a) ==> a.i < n }
// how many of the nodes 0..n are not in c
pub open spec fn left(n: nat, c: Nodes) -> nat
    decreases n,
{ if n == 0 { 0 } else { left((n - 1) as nat, c) + if c.contains(nd(n - 1)) { 0nat } else { 1nat } } }
pub open spec fn fresh1(s: Seq<NodeIndex>, c: Nodes) -> nat { if s.len() == 1 && !c.contains(s[0]) { 0 } else { 1 } }
// c has every empty step from a
pub open spec fn done<T>(e: Seq<GEdge<NfaEdge<T>>>, c: Nodes, a: NodeIndex) -> bool {
    forall|b: NodeIndex| #[trigger] estep(e, a, b) ==> c.contains(b)
}
pub proof fn lemma_left(n: nat, c: Nodes, d: Nodes)
    requires forall|a: NodeIndex| #[trigger] c.contains(a) ==> d.contains(a),
    ensures left(n, d) <= left(n, c),
    decreases n,
{ if n > 0 { lemma_left((n - 1) as nat, c, d); } }
pub proof fn lemma_left_less(n: nat, c: Nodes, d: Nodes, a: NodeIndex)
    requires forall|a: NodeIndex| #[trigger] c.contains(a) ==> d.contains(a), a.i < n, d.contains(a), !c.contains(a),
    ensures left(n, d) < left(n, c),
    decreases n,
{
    if a.i == n - 1 { assert(nd(n - 1) == a); lemma_left((n - 1) as nat, c, d); } else { lemma_left_less((n - 1) as nat, c, d, a); }
}
//@fn lapex-automaton/src/lib.rs Nfa::epsilon_closure
//@spec
    requires
        self.wf(), within(self.graph.nodes().len(), ns(start_nodes@.to_set())),
    ensures
        old(closure)@.subset_of(final(closure)@), start_nodes@.to_set().subset_of(final(closure)@),
        forall|a: NodeIndex| #[trigger] final(closure)@.contains(a) ==> old(closure)@.contains(a) || reach(self.graph.edges(), ns(start_nodes@.to_set()), a),
        forall|a: NodeIndex| #[trigger] final(closure)@.contains(a) && (!old(closure)@.contains(a) || start_nodes@.contains(a)) ==> done(self.graph.edges(), ns(final(closure)@), a),
    decreases left(self.graph.nodes().len(), ns(old(closure)@)), fresh1(start_nodes@, ns(old(closure)@)),
//@at start
    let ghost c0 = closure@;
    let ghost e = self.graph.edges();
    let ghost n = self.graph.nodes().len();
    let ghost ss = start_nodes@;
//@loop 0
        invariant
            self.wf(), e == self.graph.edges(), n == self.graph.nodes().len(), c0 == old(closure)@, ss == start_nodes@, within(n, ns(ss.to_set())),
            it0.pos() <= it0.seq().len(), it0.seq() == ss,
            c0.subset_of(closure@),
            forall|i: int| 0 <= i < it0.pos() ==> closure@.contains(#[trigger] ss[i]) && done(e, ns(closure@), ss[i]),
            forall|a: NodeIndex| #[trigger] closure@.contains(a) ==> c0.contains(a) || reach(e, ns(ss.to_set()), a),
            forall|a: NodeIndex| #[trigger] closure@.contains(a) && !c0.contains(a) ==> done(e, ns(closure@), a),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    let ghost i0 = it0.pos() - 1;
    proof {
        assert(start_node == ss[i0]);
        assert(ns(ss.to_set()).contains(start_node));
        assert(epath(e, 0, start_node, start_node));
        assert(reach(e, ns(ss.to_set()), start_node));
    }
//@loop 1
        invariant
            self.wf(), e == self.graph.edges(), n == self.graph.nodes().len(), c0 == old(closure)@, ss == start_nodes@, within(n, ns(ss.to_set())),
            0 <= i0 < ss.len(), start_node == ss[i0], closure@.contains(start_node), reach(e, ns(ss.to_set()), start_node),
            it1.pos() <= it1.seq().len(), out_refs(e, start_node, it1.seq()),
            c0.subset_of(closure@),
            forall|i: int| 0 <= i < i0 ==> closure@.contains(#[trigger] ss[i]) && done(e, ns(closure@), ss[i]),
            forall|i: int| 0 <= i < it1.pos() && e[#[trigger] vx_out(e, start_node)[i]].w is Epsilon ==> closure@.contains(e[vx_out(e, start_node)[i]].t),
            forall|a: NodeIndex| #[trigger] closure@.contains(a) ==> c0.contains(a) || reach(e, ns(ss.to_set()), a),
            forall|a: NodeIndex| #[trigger] closure@.contains(a) && !c0.contains(a) && a != start_node ==> done(e, ns(closure@), a),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost c1 = closure@;
    let ghost i1 = it1.pos() - 1;
    let ghost ei = vx_out(e, start_node)[i1];
    proof {
        assert(it1.seq()[i1].t == e[ei].t);
        assert(edge == it1.seq()[i1]);
        if e[ei].w is Epsilon {
            assert(estep(e, start_node, e[ei].t));
            lemma_estep_in(e, ns(ss.to_set()), start_node, e[ei].t);
            lemma_left(n, ns(c0), ns(c1));
            if !c0.contains(start_node) { lemma_left_less(n, ns(c0), ns(c1), start_node); }
            let t = seq![e[ei].t];
            assert forall|a: NodeIndex| #[trigger] reach(e, ns(t.to_set()), a) implies reach(e, ns(ss.to_set()), a) by {
                lemma_reach_trans(e, ns(ss.to_set()), ns(t.to_set()), a);
            }
        }
    }
//@at loop 1 after
    proof {
        assert forall|b: NodeIndex| #[trigger] estep(e, start_node, b) implies closure@.contains(b) by {
            let x = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).s == start_node && e[i].t == b && e[i].w is Epsilon;
            assert(vx_out(e, start_node).contains(x));
            let y = choose|y: int| 0 <= y < vx_out(e, start_node).len() && vx_out(e, start_node)[y] == x;
        }
    }
//@end
// ---- powerset graph -------------------------------------------------------------------------------
pub type NE<T> = Seq<GEdge<NfaEdge<T>>>;
pub type PG<T> = GV<BTreeSet<NodeIndex>, T>;
pub open spec fn pset<T>(p: PG<T>, i: int) -> Nodes { ns(p.nodes()[i]@) }
pub open spec fn right_edge<T>(e: NE<T>, p: PG<T>, k: int) -> bool {
    let d = p.edges()[k];
    pset(p, d.t.i as int) == eclos(e, moved(e, pset(p, d.s.i as int), d.w)) && exists|b: NodeIndex| #[trigger] moved(e, pset(p, d.s.i as int), d.w).contains(b)
}
pub open spec fn distinct<T>(p: PG<T>) -> bool {
    forall|i: int, j: int| 0 <= i < j < p.nodes().len() ==> (#[trigger] p.nodes()[i])@ != (#[trigger] p.nodes()[j])@
}
pub open spec fn pwf<T>(e: NE<T>, n: nat, p: PG<T>) -> bool {
    &&& edges_in(p.edges(), p.nodes().len())
    &&& forall|i: int| 0 <= i < p.nodes().len() ==> within(n, ns((#[trigger] p.nodes()[i])@))
    &&& distinct(p)
    &&& det(p.edges())
    &&& forall|k: int| 0 <= k < p.edges().len() ==> #[trigger] right_edge(e, p, k)
}
pub open spec fn has_edge<E>(d: Seq<GEdge<E>>, i: int, x: E) -> bool { exists|k: int| 0 <= k < d.len() && (#[trigger] d[k]).s.i == i && d[k].w == x }
// every symbol the set of node i can move on has an edge
pub open spec fn complete<T>(e: NE<T>, p: PG<T>, i: int) -> bool {
    forall|x: T, b: NodeIndex| #[trigger] moved(e, pset(p, i), x).contains(b) ==> has_edge(p.edges(), i, x)
}
pub open spec fn grown<N, E>(p: GV<N, E>, p0: GV<N, E>) -> bool {
    &&& p0.nodes().len() <= p.nodes().len() && p0.edges().len() <= p.edges().len()
    &&& forall|i: int| 0 <= i < p0.nodes().len() ==> #[trigger] p.nodes()[i] == p0.nodes()[i]
    &&& forall|i: int| 0 <= i < p0.edges().len() ==> #[trigger] p.edges()[i] == p0.edges()[i]
    &&& forall|i: int| p0.edges().len() <= i < p.edges().len() ==> (#[trigger] p.edges()[i]).s.i >= p0.nodes().len()
}
// all sets of nodes 0..n
pub open spec fn subsets(n: nat) -> Set<Set<NodeIndex>>
    decreases n,
{
    if n == 0 { Set::empty().insert(Set::empty()) }
    else { subsets((n - 1) as nat).union(subsets((n - 1) as nat).map(|s: Set<NodeIndex>| s.insert(nd(n - 1)))) }
}
pub proof fn lemma_subsets(n: nat, s: Set<NodeIndex>)
    requires n <= usize::MAX, forall|a: NodeIndex| #[trigger] s.contains(a) ==> a.i < n,
    ensures subsets(n).contains(s),
    decreases n,
{
    if n == 0 { assert(s =~= Set::empty()); }
    else {
        let a = nd(n - 1);
        let t = s.remove(a);
        assert forall|b: NodeIndex| #[trigger] t.contains(b) implies b.i < n - 1 by { if b.i == n - 1 { assert(b == a); } }
        lemma_subsets((n - 1) as nat, t);
        if s.contains(a) { 
            assert(t.insert(a) =~= s);
            assert(subsets((n - 1) as nat).map(|s: Set<NodeIndex>| s.insert(nd(n - 1))).contains(s));
        } else { assert(t =~= s); }
    }
}
pub open spec fn used<T>(p: PG<T>) -> Set<Set<NodeIndex>> { p.nodes().map_values(|s: BTreeSet<NodeIndex>| s@).to_set() }
pub open spec fn unused<T>(n: nat, p: PG<T>) -> nat { subsets(n).difference(used(p)).len() }
pub proof fn lemma_unused<T>(n: nat, p0: PG<T>, p: PG<T>, s: Set<NodeIndex>)
    requires
        n <= usize::MAX, p0.nodes().len() < p.nodes().len(),
        forall|i: int| 0 <= i < p0.nodes().len() ==> #[trigger] p.nodes()[i] == p0.nodes()[i],
        distinct(p), p.nodes()[p0.nodes().len() as int]@ == s, within(n, ns(s)),
    ensures unused(n, p) < unused(n, p0),
{
    let k = p0.nodes().len() as int;
    let a = p.nodes().map_values(|s: BTreeSet<NodeIndex>| s@);
    let a0 = p0.nodes().map_values(|s: BTreeSet<NodeIndex>| s@);
    let x = subsets(n).difference(used(p));
    let y = subsets(n).difference(used(p0));
    assert forall|z: Set<NodeIndex>| #[trigger] x.contains(z) implies y.contains(z) by {
        if a0.contains(z) { let i = choose|i: int| 0 <= i < a0.len() && a0[i] == z; assert(p.nodes()[i] == p0.nodes()[i]); assert(a[i] == z); }
    }
    assert forall|b: NodeIndex| #[trigger] s.contains(b) implies b.i < n by { assert(ns(s).contains(b)); }
    lemma_subsets(n, s);
    assert(a[k] == s);
    assert(!x.contains(s));
    if a0.contains(s) { let i = choose|i: int| 0 <= i < a0.len() && a0[i] == s; assert(p.nodes()[i] == p0.nodes()[i]); assert(p.nodes()[i]@ == p.nodes()[k]@); }
    assert(y.contains(s));
    assert(x.subset_of(y.remove(s)));
    vstd::set_lib::lemma_len_subset(x, y.remove(s));
}
// moves of the nodes o[0..i], and of the first j listed edges of o[i]
pub open spec fn emove<T>(e: NE<T>, k: int, x: T, b: NodeIndex) -> bool { 0 <= k < e.len() && e[k].t == b && e[k].w == NfaEdge::Transition(x) }
pub open spec fn pmoved<T>(e: NE<T>, o: Seq<NodeIndex>, i: int, j: int, x: T, b: NodeIndex) -> bool {
    (exists|l: int| 0 <= l < i && #[trigger] tstep(e, o[l], x, b)) || (i < o.len() && exists|l: int| 0 <= l < j && #[trigger] emove(e, vx_out(e, o[i])[l], x, b))
}
pub open spec fn mm_ok<T>(e: NE<T>, o: Seq<NodeIndex>, i: int, j: int, m: Map<T, Vec<NodeIndex>>) -> bool {
    &&& forall|x: T, b: NodeIndex| m.contains_key(x) && #[trigger] m[x]@.contains(b) ==> pmoved(e, o, i, j, x, b)
    &&& forall|x: T, b: NodeIndex| #[trigger] pmoved(e, o, i, j, x, b) ==> m.contains_key(x) && m[x]@.contains(b)
    &&& forall|x: T| #[trigger] m.contains_key(x) ==> m[x]@.len() > 0
}
pub proof fn lemma_mm_next<T>(e: NE<T>, o: Seq<NodeIndex>, i: int, j: int, m0: Map<T, Vec<NodeIndex>>, m: Map<T, Vec<NodeIndex>>)
    requires
        mm_ok(e, o, i, j, m0), 0 <= i < o.len(), 0 <= j < vx_out(e, o[i]).len(),
        match e[vx_out(e, o[i])[j]].w {
            NfaEdge::Epsilon => m == m0,
            NfaEdge::Transition(x) => m.dom() == m0.dom().insert(x) && m[x]@ == (if m0.contains_key(x) { m0[x]@ } else { seq![] }).push(e[vx_out(e, o[i])[j]].t)
                && forall|y: T| y != x && m0.contains_key(y) ==> #[trigger] m[y] == m0[y],
        },
    ensures mm_ok(e, o, i, j + 1, m),
{
    let l = vx_out(e, o[i])[j];
    assert forall|x: T, b: NodeIndex| #[trigger] pmoved(e, o, i, j + 1, x, b) == (pmoved(e, o, i, j, x, b) || emove(e, l, x, b)) by {
        if emove(e, l, x, b) { assert(emove(e, vx_out(e, o[i])[j], x, b)); }
    }
    match e[l].w {
        NfaEdge::Epsilon => {}
        NfaEdge::Transition(x) => {
            let s0: Seq<NodeIndex> = if m0.contains_key(x) { m0[x]@ } else { seq![] };
            let b0 = e[l].t;
            assert(emove(e, l, x, b0));
            assert forall|b: NodeIndex| #[trigger] m[x]@.contains(b) == (s0.contains(b) || b == b0) by {
                let s = m[x]@;
                if s0.contains(b) { let q = choose|q: int| 0 <= q < s0.len() && s0[q] == b; assert(s[q] == b); }
                if b == b0 { assert(s[s0.len() as int] == b); }
                if s.contains(b) { let q = choose|q: int| 0 <= q < s.len() && s[q] == b; if q < s0.len() { assert(s0[q] == b); } }
            }
            assert forall|y: T, b: NodeIndex| m.contains_key(y) && #[trigger] m[y]@.contains(b) implies pmoved(e, o, i, j + 1, y, b) by {
                if y == x { if s0.contains(b) { assert(m0[x]@.contains(b)); } } else { assert(m0[y]@.contains(b)); }
            }
            assert forall|y: T, b: NodeIndex| #[trigger] pmoved(e, o, i, j + 1, y, b) implies m.contains_key(y) && m[y]@.contains(b) by {
                if pmoved(e, o, i, j, y, b) { assert(m0[y]@.contains(b)); }
            }
        }
    }
}
pub proof fn lemma_pmoved_next<T>(e: NE<T>, o: Seq<NodeIndex>, i: int)
    requires 0 <= i < o.len(),
    ensures forall|x: T, b: NodeIndex| #[trigger] pmoved(e, o, i, vx_out(e, o[i]).len() as int, x, b) == pmoved(e, o, i + 1, 0, x, b),
{
    let n = vx_out(e, o[i]).len() as int;
    assert forall|x: T, b: NodeIndex| #[trigger] pmoved(e, o, i, n, x, b) == pmoved(e, o, i + 1, 0, x, b) by {
        if pmoved(e, o, i, n, x, b) {
            if exists|l: int| 0 <= l < i && #[trigger] tstep(e, o[l], x, b) {} else {
                let l = choose|l: int| 0 <= l < n && #[trigger] emove(e, vx_out(e, o[i])[l], x, b);
                assert(e[vx_out(e, o[i])[l]].s == o[i]);
                assert(tstep(e, o[i], x, b));
            }
        }
        if pmoved(e, o, i + 1, 0, x, b) {
            let l = choose|l: int| 0 <= l < i + 1 && #[trigger] tstep(e, o[l], x, b);
            if l == i {
                let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).s == o[i] && e[k].t == b && e[k].w == NfaEdge::Transition(x);
                let y = choose|y: int| 0 <= y < n && vx_out(e, o[i])[y] == k;
                assert(vx_out(e, o[i]).contains(k));
                assert(emove(e, vx_out(e, o[i])[y], x, b));
            }
        }
    }
}
pub proof fn lemma_mm_node<T>(e: NE<T>, o: Seq<NodeIndex>, i: int, m: Map<T, Vec<NodeIndex>>)
    requires 0 <= i < o.len(), mm_ok(e, o, i, vx_out(e, o[i]).len() as int, m),
    ensures mm_ok(e, o, i + 1, 0, m),
{ lemma_pmoved_next(e, o, i); 
    let n = vx_out(e, o[i]).len() as int;
    assert forall|x: T, b: NodeIndex| #[trigger] pmoved(e, o, i + 1, 0, x, b) implies m.contains_key(x) && m[x]@.contains(b) by { assert(pmoved(e, o, i, n, x, b)); }
    assert forall|x: T, b: NodeIndex| m.contains_key(x) && #[trigger] m[x]@.contains(b) implies pmoved(e, o, i + 1, 0, x, b) by { assert(pmoved(e, o, i, n, x, b)); }
}
pub proof fn lemma_push_drop<A>()
    ensures forall|s: Seq<A>, d: A| #[trigger] s.push(d).drop_last() == s,
{ assert forall|s: Seq<A>, d: A| #[trigger] s.push(d).drop_last() == s by { assert(s.push(d).drop_last() =~= s); } }
pub proof fn lemma_pmoved_all<T>(e: NE<T>, s: Set<NodeIndex>, o: Seq<NodeIndex>)
    requires o == vx_order(s),
    ensures forall|x: T, b: NodeIndex| #[trigger] pmoved(e, o, o.len() as int, 0, x, b) == moved(e, ns(s), x).contains(b),
{
    assert forall|x: T, b: NodeIndex| #[trigger] pmoved(e, o, o.len() as int, 0, x, b) == moved(e, ns(s), x).contains(b) by {
        if moved(e, ns(s), x).contains(b) {
            let a = choose|a: NodeIndex| ns(s).contains(a) && #[trigger] tstep(e, a, x, b);
            assert(o.contains(a));
            let l = choose|l: int| 0 <= l < o.len() && o[l] == a;
            assert(tstep(e, o[l], x, b));
        }
        if pmoved(e, o, o.len() as int, 0, x, b) {
            let l = choose|l: int| 0 <= l < o.len() && #[trigger] tstep(e, o[l], x, b);
            assert(ns(s).contains(o[l]));
        }
    }
}
pub proof fn lemma_reach_within<T>(e: NE<T>, n: nat, s: Nodes)
    requires edges_in(e, n), within(n, s),
    ensures within(n, eclos(e, s)),
{
    let c = ISet::new(|a: NodeIndex| a.i < n);
    assert forall|a: NodeIndex, b: NodeIndex| c.contains(a) && #[trigger] estep(e, a, b) implies c.contains(b) by {}
    lemma_eclos_least(e, s, c);
}
pub proof fn lemma_closed<T>(e: NE<T>, s: Nodes, c: Set<NodeIndex>)
    requires
        forall|a: NodeIndex| #[trigger] s.contains(a) ==> c.contains(a),
        forall|a: NodeIndex| #[trigger] c.contains(a) ==> reach(e, s, a) && done(e, ns(c), a),
    ensures ns(c) == eclos(e, s),
{
    assert forall|a: NodeIndex, b: NodeIndex| ns(c).contains(a) && #[trigger] estep(e, a, b) implies ns(c).contains(b) by { assert(done(e, ns(c), a)); }
    lemma_eclos_least(e, s, ns(c));
    assert(ns(c) =~= eclos(e, s));
}
// one more edge from the node whose set is being expanded
pub open spec fn keys_done<E>(d: Seq<GEdge<E>>, i: int, o: Seq<E>, k: int) -> bool {
    &&& forall|l: int| 0 <= l < d.len() && (#[trigger] d[l]).s.i == i ==> o.take(k).contains(d[l].w)
    &&& forall|l: int| 0 <= l < k ==> has_edge(d, i, #[trigger] o[l])
}
pub proof fn lemma_complete_grown<T>(e: NE<T>, p: PG<T>, p0: PG<T>, i: int)
    requires grown(p, p0), 0 <= i < p0.nodes().len(), complete(e, p0, i),
    ensures complete(e, p, i),
{
    assert(p.nodes()[i] == p0.nodes()[i]);
    assert forall|x: T, b: NodeIndex| #[trigger] moved(e, pset(p, i), x).contains(b) implies has_edge(p.edges(), i, x) by {
        assert(moved(e, pset(p0, i), x).contains(b));
        let k = choose|k: int| 0 <= k < p0.edges().len() && (#[trigger] p0.edges()[k]).s.i == i && p0.edges()[k].w == x;
        assert(p.edges()[k] == p0.edges()[k]);
    }
}
pub proof fn lemma_unused_grown<T>(n: nat, p: PG<T>, p0: PG<T>)
    requires grown(p, p0),
    ensures unused(n, p) <= unused(n, p0),
{
    let a = p.nodes().map_values(|s: BTreeSet<NodeIndex>| s@);
    let a0 = p0.nodes().map_values(|s: BTreeSet<NodeIndex>| s@);
    let x = subsets(n).difference(used(p));
    let y = subsets(n).difference(used(p0));
    assert forall|z: Set<NodeIndex>| #[trigger] x.contains(z) implies y.contains(z) by {
        if a0.contains(z) { let i = choose|i: int| 0 <= i < a0.len() && a0[i] == z; assert(p.nodes()[i] == p0.nodes()[i]); assert(a[i] == z); }
    }
    vstd::set_lib::lemma_len_subset(x, y);
}
pub proof fn lemma_add_node<T>(e: NE<T>, n: nat, p: PG<T>, p0: PG<T>, c: BTreeSet<NodeIndex>)
    requires
        pwf(e, n, p0), p.nodes() == p0.nodes().push(c), p.edges() == p0.edges(), within(n, ns(c@)), p0.nodes().len() < usize::MAX,
        forall|i: int| 0 <= i < p0.nodes().len() ==> (#[trigger] p0.nodes()[i])@ != c@,
    ensures pwf(e, n, p), grown(p, p0),
{
    assert forall|k: int| 0 <= k < p.edges().len() implies #[trigger] right_edge(e, p, k) by { assert(right_edge(e, p0, k)); }
}
pub proof fn lemma_add_edge<T>(e: NE<T>, n: nat, p: PG<T>, p0: PG<T>, d: GEdge<T>, o: Seq<T>, k: int)
    requires
        pwf(e, n, p0), p.nodes() == p0.nodes(), p.edges() == p0.edges().push(d), p.valid(d.s), p.valid(d.t),
        pset(p, d.t.i as int) == eclos(e, moved(e, pset(p, d.s.i as int), d.w)), exists|b: NodeIndex| #[trigger] moved(e, pset(p, d.s.i as int), d.w).contains(b),
        o.no_duplicates(), 0 <= k < o.len(), o[k] == d.w, keys_done(p0.edges(), d.s.i as int, o, k),
    ensures
        pwf(e, n, p), keys_done(p.edges(), d.s.i as int, o, k + 1), forall|i: int| 0 <= i < p.nodes().len() && #[trigger] complete(e, p0, i) ==> complete(e, p, i),
{
    let q = p0.edges().len() as int;
    assert forall|l: int| 0 <= l < p.edges().len() implies #[trigger] right_edge(e, p, l) by { if l < q { assert(right_edge(e, p0, l)); } }
    assert forall|l: int| 0 <= l < q implies !((#[trigger] p0.edges()[l]).s == d.s && p0.edges()[l].w == d.w) by {
        if p0.edges()[l].s == d.s {
            assert(o.take(k).contains(p0.edges()[l].w));
            let y = choose|y: int| 0 <= y < k && o.take(k)[y] == p0.edges()[l].w;
            assert(o[y] == p0.edges()[l].w);
        }
    }
    assert forall|l: int| 0 <= l < p.edges().len() && (#[trigger] p.edges()[l]).s.i == d.s.i implies o.take(k + 1).contains(p.edges()[l].w) by {
        if l < q {
            assert(p0.edges()[l].s.i == d.s.i);
            let y = choose|y: int| 0 <= y < k && o.take(k)[y] == p0.edges()[l].w;
            assert(o.take(k + 1)[y] == p.edges()[l].w);
        } else { assert(o.take(k + 1)[k] == d.w); }
    }
    assert forall|l: int| 0 <= l < k + 1 implies has_edge(p.edges(), d.s.i as int, #[trigger] o[l]) by {
        if l < k {
            assert(has_edge(p0.edges(), d.s.i as int, o[l]));
            let y = choose|y: int| 0 <= y < p0.edges().len() && (#[trigger] p0.edges()[y]).s.i == d.s.i && p0.edges()[y].w == o[l];
            assert(p.edges()[y] == p0.edges()[y]);
        } else { assert(p.edges()[q] == d); }
    }
    assert forall|i: int| 0 <= i < p.nodes().len() && #[trigger] complete(e, p0, i) implies complete(e, p, i) by {
        assert forall|x: T, b: NodeIndex| #[trigger] moved(e, pset(p, i), x).contains(b) implies has_edge(p.edges(), i, x) by {
            assert(moved(e, pset(p0, i), x).contains(b));
            let y = choose|y: int| 0 <= y < p0.edges().len() && (#[trigger] p0.edges()[y]).s.i == i && p0.edges()[y].w == x;
            assert(p.edges()[y] == p0.edges()[y]);
        }
    }
}
// edges added elsewhere leave the keys of node i alone
pub proof fn lemma_keys_grown<T>(p: PG<T>, p0: PG<T>, i: int, o: Seq<T>, k: int)
    requires grown(p, p0), i < p0.nodes().len(), keys_done(p0.edges(), i, o, k),
    ensures keys_done(p.edges(), i, o, k),
{
    assert forall|l: int| 0 <= l < p.edges().len() && (#[trigger] p.edges()[l]).s.i == i implies o.take(k).contains(p.edges()[l].w) by {
        assert(l < p0.edges().len());
        assert(p.edges()[l] == p0.edges()[l]);
    }
    assert forall|l: int| 0 <= l < k implies has_edge(p.edges(), i, #[trigger] o[l]) by {
        assert(has_edge(p0.edges(), i, o[l]));
        let y = choose|y: int| 0 <= y < p0.edges().len() && (#[trigger] p0.edges()[y]).s.i == i && p0.edges()[y].w == o[l];
        assert(p.edges()[y] == p0.edges()[y]);
    }
}
//@fn lapex-automaton/src/lib.rs Nfa::add_powerset_to_dfa
//@spec
    requires
        self.wf(), pwf(self.graph.edges(), self.graph.nodes().len(), old(dfa).v()), within(self.graph.nodes().len(), ns(nodes@.to_set())),
    ensures
        pwf(self.graph.edges(), self.graph.nodes().len(), final(dfa).v()), grown(final(dfa).v(), old(dfa).v()), final(dfa).valid(r),
        pset(final(dfa).v(), r.i as int) == eclos(self.graph.edges(), ns(nodes@.to_set())),
        forall|i: int| old(dfa).nodes().len() <= i < final(dfa).nodes().len() ==> #[trigger] complete(self.graph.edges(), final(dfa).v(), i),
        old(dfa).nodes().len() == 0 ==> r.i == 0,
    decreases unused(self.graph.nodes().len(), old(dfa).v()),
//@at start
    let ghost e = self.graph.edges();
    let ghost n = self.graph.nodes().len();
    let ghost ss = ns(nodes@.to_set());
    let ghost p0 = dfa.v();
    let ghost mut cs: Set<NodeIndex> = Set::empty();
    let ghost mut o: Seq<NodeIndex> = seq![];
    let ghost mut p1 = dfa.v();
    let ghost n0 = p0.nodes().len() as int;
//@at loop 0 before
    proof {
        cs = closure@;
        o = vx_order(cs);
        lemma_closed(e, ss, cs);
        lemma_reach_within(e, n, ss);
    }
//@loop 0
        invariant_except_break
            acc0 is None, forall|i: int| 0 <= i < it0.pos() ==> (#[trigger] p0.nodes()[i])@ != cs,
        invariant
            it0.pos() <= it0.seq().len(), dfa.v() == p0, cs == closure@,
            it0.seq() == Seq::new(p0.nodes().len(), |i: int| (NodeIndex { i: i as usize }, &p0.nodes()[i])), p0.nodes().len() <= usize::MAX,
        ensures
            acc0 is None ==> forall|i: int| 0 <= i < p0.nodes().len() ==> (#[trigger] p0.nodes()[i])@ != cs,
            acc0 matches Some((i, w)) ==> p0.valid(i) && p0.nodes()[i.i as int]@ == cs,
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    proof { assert(e0 == it0.seq()[it0.pos() - 1]); }
//@at loop 1 before
    proof {
        p1 = dfa.v();
        lemma_add_node(e, n, p1, p0, closure);
        lemma_unused(n, p0, p1, cs);
        assert(mm_ok(e, o, 0, 0, target_multi_map@));
    }
//@loop 1
        invariant
            e == self.graph.edges(), o == vx_order(cs),
            it1.pos() <= it1.seq().len(), it1.seq() == o,
            mm_ok(e, o, it1.pos() as int, 0, target_multi_map@),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost i1 = it1.pos() - 1;
    proof { assert(node == o[i1]); }
//@loop 2
        invariant
            e == self.graph.edges(), 0 <= i1 < o.len(), node == o[i1],
            it2.pos() <= it2.seq().len(), out_refs(e, node, it2.seq()),
            mm_ok(e, o, i1, it2.pos() as int, target_multi_map@),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    let ghost i2 = it2.pos() - 1;
    let ghost m0 = target_multi_map@;
    proof { assert(edge == it2.seq()[i2]); }
//@at loop 2 end
    proof { lemma_mm_next(e, o, i1, i2, m0, target_multi_map@); }
//@at loop 2 after
    proof { lemma_mm_node(e, o, i1, target_multi_map@); }
//@at loop 3 before
    let ghost mm = target_multi_map@;
    let ghost mo = vx_order(mm.dom());
    proof {
        lemma_pmoved_all(e, cs, o);
        assert(pset(p1, n0) == ns(cs));
    }
//@loop 3
        invariant
            self.wf(), e == self.graph.edges(), n == self.graph.nodes().len(), p0 == old(dfa).v(), pwf(e, n, p0), ns(cs) == eclos(e, ss), n0 == p0.nodes().len(), n0 <= usize::MAX,
            pwf(e, n, dfa.v()), grown(dfa.v(), p0), n0 < dfa.nodes().len(), dfa.nodes()[n0]@ == cs, node_dfa == nd(n0), within(n, ns(cs)),
            mo == vx_order(mm.dom()), it3.pos() <= it3.seq().len(),
            it3.seq() == Seq::new(mo.len(), |i: int| (mo[i], mm[mo[i]])),
            mm_ok(e, o, o.len() as int, 0, mm),
            forall|x: TransitionType, b: NodeIndex| #[trigger] pmoved(e, o, o.len() as int, 0, x, b) == moved(e, ns(cs), x).contains(b),
            unused(n, dfa.v()) < unused(n, p0),
            keys_done(dfa.edges(), n0, mo, it3.pos() as int),
            forall|i: int| n0 < i < dfa.nodes().len() ==> #[trigger] complete(e, dfa.v(), i),
        decreases it3.seq().len() - it3.pos(),
//@at loop 3 start
    let ghost k = it3.pos() - 1;
    let ghost p2 = dfa.v();
    proof {
        assert(t == mo[k] && targets == mm[t]);
        assert(mm.contains_key(t));
        assert forall|b: NodeIndex| #[trigger] ns(targets@.to_set()).contains(b) == moved(e, ns(cs), t).contains(b) by {
            assert(targets@.to_set().contains(b) == targets@.contains(b));
            assert(pmoved(e, o, o.len() as int, 0, t, b) == moved(e, ns(cs), t).contains(b));
        }
        assert(ns(targets@.to_set()) =~= moved(e, ns(cs), t));
        assert(targets@.contains(targets@[0]));
        assert(moved(e, ns(cs), t).contains(targets@[0]));
    }
//@at loop 3 end
    proof {
        let ghost d = GEdge { s: node_dfa, t: target_dfa, w: mo[k] };
        let p3 = GV { n: dfa.nodes(), e: dfa.edges().drop_last() };
        lemma_push_drop::<GEdge<TransitionType>>();
        assert(dfa.edges() =~= p3.e.push(d));
        assert(p3.nodes()[n0] == p2.nodes()[n0]);
        lemma_keys_grown(p3, p2, n0, mo, k);
        lemma_unused_grown(n, p3, p2);
        assert forall|i: int| n0 < i < p3.nodes().len() implies #[trigger] complete(e, p3, i) by { if i < p2.nodes().len() { lemma_complete_grown(e, p3, p2, i); } }
        lemma_add_edge(e, n, dfa.v(), p3, d, mo, k);
        assert forall|i: int| n0 < i < dfa.nodes().len() implies #[trigger] complete(e, dfa.v(), i) by { assert(complete(e, p3, i)); }
    }
//@at loop 3 after
    proof {
        assert(mo.take(mo.len() as int) =~= mo);
        assert forall|x: TransitionType, b: NodeIndex| #[trigger] moved(e, pset(dfa.v(), n0), x).contains(b) implies has_edge(dfa.edges(), n0, x) by {
            assert(pmoved(e, o, o.len() as int, 0, x, b));
            assert(mo.contains(x));
            let l = choose|l: int| 0 <= l < mo.len() && mo[l] == x;
            assert(has_edge(dfa.edges(), n0, mo[l]));
        }
        assert(complete(e, dfa.v(), n0));
    }
//@end
