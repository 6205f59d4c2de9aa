// ---- from the powerset graph to the automaton -----------------------------------------------------
// the accept labels among the nodes o[0..k], in order
pub open spec fn acc_list<S>(nodes: Seq<AutomatonState<S>>, o: Seq<NodeIndex>, k: int) -> Seq<S>
    decreases k,
{
    if k <= 0 { seq![] } else {
        let l = acc_list(nodes, o, k - 1);
        let a = o[k - 1];
        if a.i < nodes.len() { match nodes[a.i as int] { AutomatonState::Accepting(s) => l.push(s), _ => l } } else { l }
    }
}
pub open spec fn state_ok<S>(nodes: Seq<AutomatonState<S>>, s: Set<NodeIndex>, st: AutomatonState<Vec<S>>) -> bool {
    let l = acc_list(nodes, vx_order(s), vx_order(s).len() as int);
    match st { AutomatonState::Accepting(v) => v@ == l && l.len() > 0, AutomatonState::Intermediate(_) => l.len() == 0 }
}
pub type DV<S, T> = GV<AutomatonState<Vec<S>>, T>;
pub type Vis = Map<NodeIndex, NodeIndex>;
pub open spec fn vis(v: Vis) -> Nodes { ISet::new(|a: NodeIndex| v.contains_key(a)) }
// edge k of d is the image of an edge of p
pub open spec fn image<S, T>(p: PG<T>, d: DV<S, T>, v: Vis, l: int, k: int) -> bool {
    &&& 0 <= l < p.edges().len() && 0 <= k < d.edges().len()
    &&& v.contains_key(p.edges()[l].s) && v[p.edges()[l].s] == d.edges()[k].s
    &&& v.contains_key(p.edges()[l].t) && v[p.edges()[l].t] == d.edges()[k].t
    &&& p.edges()[l].w == d.edges()[k].w
}
pub open spec fn has_origin<S, T>(p: PG<T>, d: DV<S, T>, v: Vis, k: int) -> bool { exists|l: int| #[trigger] image(p, d, v, l, k) }
pub open spec fn has_image<S, T>(p: PG<T>, d: DV<S, T>, v: Vis, l: int) -> bool { exists|k: int| #[trigger] image(p, d, v, l, k) }
pub open spec fn covered(v: Vis, i: int) -> bool { exists|a: NodeIndex| #[trigger] v.contains_key(a) && v[a].i == i }
pub open spec fn cwf<S, T>(nodes: Seq<AutomatonState<S>>, p: PG<T>, d: DV<S, T>, v: Vis) -> bool {
    &&& edges_in(d.edges(), d.nodes().len())
    &&& det(d.edges())
    &&& forall|a: NodeIndex| #[trigger] v.contains_key(a) ==> p.valid(a) && d.valid(v[a]) && state_ok(nodes, p.nodes()[a.i as int]@, d.nodes()[v[a].i as int])
    &&& forall|a: NodeIndex, b: NodeIndex| #[trigger] v.contains_key(a) && #[trigger] v.contains_key(b) && v[a] == v[b] ==> a == b
    &&& forall|i: int| 0 <= i < d.nodes().len() ==> #[trigger] covered(v, i)
    &&& forall|k: int| 0 <= k < d.edges().len() ==> #[trigger] has_origin(p, d, v, k)
}
// all edges of p from a have images
pub open spec fn cdone<S, T>(p: PG<T>, d: DV<S, T>, v: Vis, a: NodeIndex) -> bool {
    forall|l: int| 0 <= l < p.edges().len() && (#[trigger] p.edges()[l]).s == a ==> has_image(p, d, v, l)
}
pub open spec fn vgrown<S, T>(d: DV<S, T>, v: Vis, d0: DV<S, T>, v0: Vis) -> bool {
    &&& grown(d, d0)
    &&& forall|a: NodeIndex| #[trigger] v0.contains_key(a) ==> v.contains_key(a) && v[a] == v0[a]
}
pub proof fn lemma_image_grown<S, T>(p: PG<T>, d: DV<S, T>, v: Vis, d0: DV<S, T>, v0: Vis, l: int, k: int)
    requires vgrown(d, v, d0, v0), image(p, d0, v0, l, k),
    ensures image(p, d, v, l, k),
{ assert(d.edges()[k] == d0.edges()[k]); }
pub proof fn lemma_cdone_grown<S, T>(p: PG<T>, d: DV<S, T>, v: Vis, d0: DV<S, T>, v0: Vis, a: NodeIndex)
    requires vgrown(d, v, d0, v0), cdone(p, d0, v0, a),
    ensures cdone(p, d, v, a),
{
    assert forall|l: int| 0 <= l < p.edges().len() && (#[trigger] p.edges()[l]).s == a implies has_image(p, d, v, l) by {
        assert(has_image(p, d0, v0, l));
        let k = choose|k: int| #[trigger] image(p, d0, v0, l, k);
        lemma_image_grown(p, d, v, d0, v0, l, k);
    }
}
pub proof fn lemma_conv_node<S, T>(nodes: Seq<AutomatonState<S>>, p: PG<T>, d: DV<S, T>, v: Vis, d0: DV<S, T>, v0: Vis, a: NodeIndex)
    requires
        cwf(nodes, p, d0, v0), p.valid(a), !v0.contains_key(a), d.edges() == d0.edges(), d.nodes().len() == d0.nodes().len() + 1, d.nodes().len() <= usize::MAX,
        d.nodes().drop_last() == d0.nodes(), state_ok(nodes, p.nodes()[a.i as int]@, d.nodes().last()), v == v0.insert(a, nd(d0.nodes().len() as int)),
    ensures cwf(nodes, p, d, v), vgrown(d, v, d0, v0),
{
    let n = d0.nodes().len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] d.nodes()[i] == d0.nodes()[i] by { assert(d.nodes().drop_last()[i] == d.nodes()[i]); }
    assert forall|b: NodeIndex| #[trigger] v.contains_key(b) implies p.valid(b) && d.valid(v[b]) && state_ok(nodes, p.nodes()[b.i as int]@, d.nodes()[v[b].i as int]) by {
        if b != a { assert(v0.contains_key(b)); assert(v[b] == v0[b]); }
    }
    assert forall|b: NodeIndex, c: NodeIndex| #[trigger] v.contains_key(b) && #[trigger] v.contains_key(c) && v[b] == v[c] implies b == c by {
        if b != a { assert(v0.contains_key(b)); assert(d0.valid(v0[b])); }
        if c != a { assert(v0.contains_key(c)); assert(d0.valid(v0[c])); }
    }
    assert forall|i: int| 0 <= i < d.nodes().len() implies #[trigger] covered(v, i) by {
        if i < n { assert(covered(v0, i)); let b = choose|b: NodeIndex| #[trigger] v0.contains_key(b) && v0[b].i == i; assert(v.contains_key(b)); } else { assert(v.contains_key(a)); }
    }
    assert forall|k: int| 0 <= k < d.edges().len() implies #[trigger] has_origin(p, d, v, k) by {
        assert(has_origin(p, d0, v0, k));
        let l = choose|l: int| #[trigger] image(p, d0, v0, l, k);
        lemma_image_grown(p, d, v, d0, v0, l, k);
    }
}
// the edges of d from v[a] are the images of the first j listed edges of p from a
pub open spec fn cpart<S, T>(p: PG<T>, d: DV<S, T>, v: Vis, a: NodeIndex, j: int) -> bool {
    &&& forall|k: int| 0 <= k < d.edges().len() && (#[trigger] d.edges()[k]).s == v[a] ==> cfrom(p, a, j, d.edges()[k].w)
    &&& forall|i: int| 0 <= i < j ==> has_image(p, d, v, #[trigger] vx_out(p.edges(), a)[i])
}
pub open spec fn cfrom<T>(p: PG<T>, a: NodeIndex, j: int, x: T) -> bool { exists|i: int| 0 <= i < j && p.edges()[#[trigger] vx_out(p.edges(), a)[i]].w == x }
pub proof fn lemma_conv_edge<S, T>(nodes: Seq<AutomatonState<S>>, p: PG<T>, d: DV<S, T>, v: Vis, d0: DV<S, T>, a: NodeIndex, j: int, x: GEdge<T>)
    requires
        cwf(nodes, p, d0, v), cpart(p, d0, v, a, j), 0 <= j < vx_out(p.edges(), a).len(), det(p.edges()), v.contains_key(a),
        d.nodes() == d0.nodes(), d.edges() == d0.edges().push(x),
        x.s == v[a], x.w == p.edges()[vx_out(p.edges(), a)[j]].w, v.contains_key(p.edges()[vx_out(p.edges(), a)[j]].t), x.t == v[p.edges()[vx_out(p.edges(), a)[j]].t],
    ensures
        cwf(nodes, p, d, v), cpart(p, d, v, a, j + 1),
        forall|l: int, k: int| #[trigger] image(p, d0, v, l, k) ==> image(p, d, v, l, k),
{
    let l = vx_out(p.edges(), a)[j];
    let n = d0.edges().len() as int;
    assert forall|l: int, k: int| #[trigger] image(p, d0, v, l, k) implies image(p, d, v, l, k) by { assert(d.edges()[k] == d0.edges()[k]); }
    assert(image(p, d, v, l, n));
    assert forall|k: int| 0 <= k < d.edges().len() implies #[trigger] has_origin(p, d, v, k) by {
        if k < n { assert(has_origin(p, d0, v, k)); let m = choose|m: int| #[trigger] image(p, d0, v, m, k); assert(image(p, d, v, m, k)); }
    }
    assert forall|k: int| 0 <= k < n implies !((#[trigger] d0.edges()[k]).s == x.s && d0.edges()[k].w == x.w) by {
        if d0.edges()[k].s == x.s && d0.edges()[k].w == x.w {
            assert(cfrom(p, a, j, x.w));
            let i = choose|i: int| 0 <= i < j && p.edges()[#[trigger] vx_out(p.edges(), a)[i]].w == x.w;
            assert(p.edges()[vx_out(p.edges(), a)[i]].s == a);
            assert(p.edges()[l].s == a);
        }
    }
    assert forall|k: int| 0 <= k < d.edges().len() && (#[trigger] d.edges()[k]).s == v[a] implies cfrom(p, a, j + 1, d.edges()[k].w) by {
        if k < n { 
            assert(d0.edges()[k].s == v[a]);
            assert(cfrom(p, a, j, d0.edges()[k].w));
            let i = choose|i: int| 0 <= i < j && p.edges()[#[trigger] vx_out(p.edges(), a)[i]].w == d0.edges()[k].w;
            assert(i < j + 1);
        } else { assert(p.edges()[vx_out(p.edges(), a)[j]].w == x.w); }
    }
    assert forall|i: int| 0 <= i < j + 1 implies has_image(p, d, v, #[trigger] vx_out(p.edges(), a)[i]) by {
        if i < j { let m = choose|k: int| #[trigger] image(p, d0, v, vx_out(p.edges(), a)[i], k); assert(image(p, d, v, vx_out(p.edges(), a)[i], m)); }
    }
}
pub proof fn lemma_cpart_grown<S, T>(p: PG<T>, d: DV<S, T>, v: Vis, d0: DV<S, T>, v0: Vis, a: NodeIndex, j: int)
    requires vgrown(d, v, d0, v0), v0.contains_key(a), d0.valid(v0[a]), cpart(p, d0, v0, a, j),
    ensures cpart(p, d, v, a, j),
{
    assert(v[a] == v0[a]);
    assert forall|k: int| 0 <= k < d.edges().len() && (#[trigger] d.edges()[k]).s == v[a] implies cfrom(p, a, j, d.edges()[k].w) by {
        assert(k < d0.edges().len());
        assert(d.edges()[k] == d0.edges()[k]);
    }
    assert forall|i: int| 0 <= i < j implies has_image(p, d, v, #[trigger] vx_out(p.edges(), a)[i]) by {
        assert(has_image(p, d0, v0, vx_out(p.edges(), a)[i]));
        let k = choose|k: int| #[trigger] image(p, d0, v0, vx_out(p.edges(), a)[i], k);
        lemma_image_grown(p, d, v, d0, v0, vx_out(p.edges(), a)[i], k);
    }
}
pub proof fn lemma_cpart_all<S, T>(p: PG<T>, d: DV<S, T>, v: Vis, a: NodeIndex)
    requires cpart(p, d, v, a, vx_out(p.edges(), a).len() as int),
    ensures cdone(p, d, v, a),
{
    assert forall|l: int| 0 <= l < p.edges().len() && (#[trigger] p.edges()[l]).s == a implies has_image(p, d, v, l) by {
        assert(vx_out(p.edges(), a).contains(l));
        let i = choose|i: int| 0 <= i < vx_out(p.edges(), a).len() && vx_out(p.edges(), a)[i] == l;
        assert(has_image(p, d, v, vx_out(p.edges(), a)[i]));
    }
}
//@fn lapex-automaton/src/lib.rs Nfa::convert_powerset_to_dfa
//@spec
    requires
        old(dfa).wf(), edges_in(powerset_dfa.edges(), powerset_dfa.nodes().len()), det(powerset_dfa.edges()),
        powerset_dfa.valid(node), !old(visited)@.contains_key(node),
        cwf(self.graph.nodes(), powerset_dfa.v(), old(dfa).v(), old(visited)@),
    ensures
        final(dfa).wf(), cwf(self.graph.nodes(), powerset_dfa.v(), final(dfa).v(), final(visited)@),
        vgrown(final(dfa).v(), final(visited)@, old(dfa).v(), old(visited)@),
        final(visited)@.contains_key(node), final(visited)@[node] == r, r.i == old(dfa).graph.nodes().len(),
        forall|a: NodeIndex| #[trigger] final(visited)@.contains_key(a) && !old(visited)@.contains_key(a) ==> cdone(powerset_dfa.v(), final(dfa).v(), final(visited)@, a),
    decreases left(powerset_dfa.nodes().len(), vis(old(visited)@)),
//@at start
    let ghost p = powerset_dfa.v();
    let ghost d0 = dfa.v();
    let ghost v0 = visited@;
    let ghost nodes = self.graph.nodes();
    let ghost mut d1 = dfa.v();
    let ghost mut v1 = visited@;
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), nodes == self.graph.nodes(),
            it0.seq() == Seq::new(vx_order(powerset@).len(), |i: int| &vx_order(powerset@)[i]),
            accepts@ == acc_list(nodes, vx_order(powerset@), it0.pos() as int),
        decreases it0.seq().len() - it0.pos(),
//@at loop 1 before
    proof {
        d1 = dfa.v();
        v1 = visited@;
        lemma_conv_node(nodes, p, d1, v1, d0, v0, node);
        lemma_left_less(p.nodes().len(), vis(v0), vis(v1), node);
        assert forall|k: int| 0 <= k < d1.edges().len() implies (#[trigger] d1.edges()[k]).s != start by {}
        assert(cpart(p, d1, v1, node, 0));
    }
//@loop 1
        invariant
            nodes == self.graph.nodes(), p == powerset_dfa.v(), edges_in(p.edges(), p.nodes().len()), det(p.edges()), p.valid(node), !v0.contains_key(node),
            v0 == old(visited)@, d0 == old(dfa).v(),
            it1.pos() <= it1.seq().len(), out_refs(p.edges(), node, it1.seq()),
            dfa.wf(), cwf(nodes, p, dfa.v(), visited@), vgrown(dfa.v(), visited@, d0, v0),
            visited@.contains_key(node), visited@[node] == start, start.i == d0.nodes().len(), start.i < dfa.graph.nodes().len(),
            left(p.nodes().len(), vis(visited@)) < left(p.nodes().len(), vis(v0)),
            cpart(p, dfa.v(), visited@, node, it1.pos() as int),
            forall|a: NodeIndex| #[trigger] visited@.contains_key(a) && !v0.contains_key(a) && a != node ==> cdone(p, dfa.v(), visited@, a),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost j = it1.pos() - 1;
    let ghost d2 = dfa.v();
    let ghost v2 = visited@;
    proof {
        assert(edge == it1.seq()[j]);
        assert(p.edges()[vx_out(p.edges(), node)[j]].t == edge.t);
    }
//@at loop 1 end
    proof {
        let ghost x = GEdge { s: start, t: end, w: *edge.w };
        let d3 = GV { n: dfa.graph.nodes(), e: dfa.graph.edges().drop_last() };
        lemma_push_drop::<GEdge<TransitionType>>();
        assert(dfa.v().edges() =~= d3.e.push(x));
        lemma_cpart_grown(p, d3, visited@, d2, v2, node, j);
        lemma_conv_edge(nodes, p, dfa.v(), visited@, d3, node, j, x);
        lemma_left(p.nodes().len(), vis(v2), vis(visited@));
        assert forall|a: NodeIndex| #[trigger] visited@.contains_key(a) && !v0.contains_key(a) && a != node implies cdone(p, dfa.v(), visited@, a) by {
            if v2.contains_key(a) { lemma_cdone_grown(p, d3, visited@, d2, v2, a); }
            assert(cdone(p, d3, visited@, a));
            assert forall|l: int| 0 <= l < p.edges().len() && (#[trigger] p.edges()[l]).s == a implies has_image(p, dfa.v(), visited@, l) by {
                assert(has_image(p, d3, visited@, l));
                let k = choose|k: int| #[trigger] image(p, d3, visited@, l, k);
                assert(image(p, dfa.v(), visited@, l, k));
            }
        }
    }
//@at loop 1 after
    proof { lemma_cpart_all(p, dfa.v(), visited@, node); }
//@end
// ---- the whole construction -------------------------------------------------------------------------
pub open spec fn labels<S>(nodes: Seq<AutomatonState<S>>, r: Nodes, x: S) -> bool {
    exists|a: NodeIndex| #[trigger] r.contains(a) && a.i < nodes.len() && nodes[a.i as int] == AutomatonState::Accepting(x)
}
pub open spec fn acc_ok<S>(nodes: Seq<AutomatonState<S>>, r: Nodes, st: AutomatonState<Vec<S>>) -> bool {
    match st {
        AutomatonState::Accepting(v) => v@.len() > 0 && forall|x: S| #[trigger] v@.contains(x) <==> labels(nodes, r, x),
        AutomatonState::Intermediate(_) => forall|x: S| !#[trigger] labels(nodes, r, x),
    }
}
pub open spec fn word_ok<S, T>(nfa: NG<S, T>, entry: NodeIndex, d: DV<S, T>, w: Seq<T>) -> bool {
    let r = nfa_run(nfa.edges(), ISet::empty().insert(entry), w);
    match drun(d.edges(), w) {
        None => forall|a: NodeIndex| !#[trigger] r.contains(a),
        Some(q) => d.valid(q) && (exists|a: NodeIndex| #[trigger] r.contains(a)) && acc_ok(nfa.nodes(), r, d.nodes()[q.i as int]),
    }
}
pub proof fn lemma_acc_list<S>(nodes: Seq<AutomatonState<S>>, o: Seq<NodeIndex>, k: int, x: S)
    requires 0 <= k <= o.len(),
    ensures acc_list(nodes, o, k).contains(x) <==> exists|i: int| 0 <= i < k && (#[trigger] o[i]).i < nodes.len() && nodes[o[i].i as int] == AutomatonState::Accepting(x),
    decreases k,
{
    if k > 0 {
        lemma_acc_list(nodes, o, k - 1, x);
        let l = acc_list(nodes, o, k - 1);
        let m = acc_list(nodes, o, k);
        if l.contains(x) { let i = choose|i: int| 0 <= i < l.len() && l[i] == x; assert(m[i] == x); }
        if m.contains(x) { let i = choose|i: int| 0 <= i < m.len() && m[i] == x; if i < l.len() { assert(l[i] == x); } }
        if o[k - 1].i < nodes.len() && nodes[o[k - 1].i as int] == AutomatonState::Accepting(x) { assert(m[l.len() as int] == x); }
    }
}
pub proof fn lemma_acc_ok<S>(nodes: Seq<AutomatonState<S>>, s: Set<NodeIndex>, st: AutomatonState<Vec<S>>)
    requires state_ok(nodes, s, st),
    ensures acc_ok(nodes, ns(s), st),
{
    let o = vx_order(s);
    let l = acc_list(nodes, o, o.len() as int);
    assert forall|x: S| #[trigger] l.contains(x) == labels(nodes, ns(s), x) by {
        lemma_acc_list(nodes, o, o.len() as int, x);
        if l.contains(x) {
            let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).i < nodes.len() && nodes[o[i].i as int] == AutomatonState::Accepting(x);
            assert(ns(s).contains(o[i]));
        }
        if labels(nodes, ns(s), x) {
            let a = choose|a: NodeIndex| #[trigger] ns(s).contains(a) && a.i < nodes.len() && nodes[a.i as int] == AutomatonState::Accepting(x);
            assert(o.contains(a));
            let i = choose|i: int| 0 <= i < o.len() && o[i] == a;
        }
    }
    if l.len() == 0 { assert forall|x: S| !#[trigger] labels(nodes, ns(s), x) by { assert(l.contains(x) == labels(nodes, ns(s), x)); } }
}
pub proof fn lemma_eclos_empty<T>(e: NE<T>, s: Nodes)
    ensures (exists|a: NodeIndex| #[trigger] s.contains(a)) <==> (exists|a: NodeIndex| #[trigger] eclos(e, s).contains(a)),
{
    if exists|a: NodeIndex| #[trigger] s.contains(a) { let a = choose|a: NodeIndex| #[trigger] s.contains(a); assert(epath(e, 0, a, a)); assert(eclos(e, s).contains(a)); }
    if exists|a: NodeIndex| #[trigger] eclos(e, s).contains(a) { let a = choose|a: NodeIndex| #[trigger] eclos(e, s).contains(a); }
}
pub open spec fn conv_ok<S, T>(nfa: NG<S, T>, entry: NodeIndex, p: PG<T>, st: NodeIndex, d: DV<S, T>, v: Vis) -> bool {
    &&& pwf(nfa.edges(), nfa.nodes().len(), p) && forall|i: int| 0 <= i < p.nodes().len() ==> #[trigger] complete(nfa.edges(), p, i)
    &&& p.valid(st) && pset(p, st.i as int) == eclos(nfa.edges(), ISet::empty().insert(entry))
    &&& cwf(nfa.nodes(), p, d, v) && v.contains_key(st) && v[st] == nd(0)
    &&& forall|a: NodeIndex| #[trigger] v.contains_key(a) ==> cdone(p, d, v, a)
}
// after w the automaton is in the image of the powerset node whose set the NFA reaches
pub open spec fn tracks<S, T>(p: PG<T>, v: Vis, r: Nodes, q: Option<NodeIndex>) -> bool {
    match q {
        None => forall|a: NodeIndex| !#[trigger] r.contains(a),
        Some(q) => (exists|a: NodeIndex| #[trigger] r.contains(a)) && exists|a: NodeIndex| #[trigger] v.contains_key(a) && v[a] == q && pset(p, a.i as int) == r,
    }
}
pub proof fn lemma_word<S, T>(nfa: NG<S, T>, entry: NodeIndex, p: PG<T>, st: NodeIndex, d: DV<S, T>, v: Vis, w: Seq<T>)
    requires conv_ok(nfa, entry, p, st, d, v),
    ensures tracks::<S, T>(p, v, nfa_run(nfa.edges(), ISet::empty().insert(entry), w), drun(d.edges(), w)),
    decreases w.len(),
{
    let e = nfa.edges();
    let s = ISet::empty().insert(entry);
    let r = nfa_run(e, s, w);
    if w.len() == 0 {
        assert(s.contains(entry));
        lemma_eclos_empty(e, s);
        assert(v.contains_key(st));
    } else {
        let w0 = w.drop_last();
        let x = w.last();
        let r0 = nfa_run(e, s, w0);
        lemma_word(nfa, entry, p, st, d, v, w0);
        lemma_eclos_empty(e, moved(e, r0, x));
        match drun(d.edges(), w0) {
            None => {
                if exists|b: NodeIndex| #[trigger] moved(e, r0, x).contains(b) {
                    let b = choose|b: NodeIndex| #[trigger] moved(e, r0, x).contains(b);
                    let a = choose|a: NodeIndex| r0.contains(a) && #[trigger] tstep(e, a, x, b);
                }
            }
            Some(q) => {
                let a = choose|a: NodeIndex| #[trigger] v.contains_key(a) && v[a] == q && pset(p, a.i as int) == r0;
                let de = d.edges();
                if exists|b: NodeIndex| #[trigger] moved(e, r0, x).contains(b) {
                    let b = choose|b: NodeIndex| #[trigger] moved(e, r0, x).contains(b);
                    assert(complete(e, p, a.i as int));
                    assert(has_edge(p.edges(), a.i as int, x));
                    let l = choose|l: int| 0 <= l < p.edges().len() && (#[trigger] p.edges()[l]).s.i == a.i && p.edges()[l].w == x;
                    assert(p.edges()[l].s == a);
                    assert(cdone(p, d, v, a));
                    assert(has_image(p, d, v, l));
                    let k = choose|k: int| #[trigger] image(p, d, v, l, k);
                    assert(de[k].s == q && de[k].w == x);
                    assert(right_edge(e, p, l));
                    assert(dstep(de, q, x) == Some(de[k].t));
                    let t = p.edges()[l].t;
                    assert(v.contains_key(t) && v[t] == de[k].t && pset(p, t.i as int) == r);
                } else {
                    if exists|k: int| 0 <= k < de.len() && (#[trigger] de[k]).s == q && de[k].w == x {
                        let k = choose|k: int| 0 <= k < de.len() && (#[trigger] de[k]).s == q && de[k].w == x;
                        assert(has_origin(p, d, v, k));
                        let l = choose|l: int| #[trigger] image(p, d, v, l, k);
                        assert(v.contains_key(p.edges()[l].s));
                        assert(p.edges()[l].s == a);
                        assert(right_edge(e, p, l));
                    }
                }
            }
        }
    }
}
// what an accepting state lists are labels of the NFA's accepting states, at least one
pub open spec fn lists_ok<S>(nodes: Seq<AutomatonState<S>>, st: AutomatonState<Vec<S>>) -> bool {
    st matches AutomatonState::Accepting(v) ==> v@.len() > 0 && forall|j: int| 0 <= j < v@.len() ==> exists|n: int| 0 <= n < nodes.len() && #[trigger] nodes[n] == AutomatonState::Accepting(#[trigger] v@[j])
}
pub proof fn lemma_lists<S, T>(nodes: Seq<AutomatonState<S>>, p: PG<T>, d: DV<S, T>, v: Vis, i: int)
    requires cwf(nodes, p, d, v), 0 <= i < d.nodes().len(),
    ensures lists_ok(nodes, d.nodes()[i]),
{
    assert(covered(v, i));
    let a = choose|a: NodeIndex| #[trigger] v.contains_key(a) && v[a].i == i;
    let o = vx_order(p.nodes()[a.i as int]@);
    if d.nodes()[i] is Accepting {
        let l = d.nodes()[i]->Accepting_0;
        assert forall|j: int| 0 <= j < l@.len() implies exists|n: int| 0 <= n < nodes.len() && #[trigger] nodes[n] == AutomatonState::Accepting(#[trigger] l@[j]) by {
            lemma_acc_list(nodes, o, o.len() as int, l@[j]);
            assert(acc_list(nodes, o, o.len() as int).contains(l@[j]));
            let n = choose|n: int| 0 <= n < o.len() && (#[trigger] o[n]).i < nodes.len() && nodes[o[n].i as int] == AutomatonState::Accepting(l@[j]);
            assert(nodes[o[n].i as int] == AutomatonState::Accepting(l@[j]));
        }
    }
}
pub proof fn lemma_words<S, T>(nfa: NG<S, T>, entry: NodeIndex, p: PG<T>, st: NodeIndex, d: DV<S, T>, v: Vis)
    requires conv_ok(nfa, entry, p, st, d, v),
    ensures forall|w: Seq<T>| #[trigger] word_ok(nfa, entry, d, w),
{
    assert forall|w: Seq<T>| #[trigger] word_ok(nfa, entry, d, w) by {
        lemma_word(nfa, entry, p, st, d, v, w);
        let r = nfa_run(nfa.edges(), ISet::empty().insert(entry), w);
        match drun(d.edges(), w) {
            None => {}
            Some(q) => {
                let a = choose|a: NodeIndex| #[trigger] v.contains_key(a) && v[a] == q && pset(p, a.i as int) == r;
                lemma_acc_ok(nfa.nodes(), p.nodes()[a.i as int]@, d.nodes()[q.i as int]);
            }
        }
    }
}
//@fn lapex-automaton/src/lib.rs Nfa::powerset_construction
//@spec
    requires self.wf(), self.graph.valid(entrypoint),
    ensures
        r.wf(), r.graph.nodes().len() > 0, det(r.graph.edges()),
        forall|w: Seq<TransitionType>| #[trigger] word_ok(self.graph, entrypoint, r.v(), w),
        forall|i: int| 0 <= i < r.graph.nodes().len() ==> lists_ok(self.graph.nodes(), #[trigger] r.graph.nodes()[i]),
//@at end
    proof {
        assert forall|i: int| 0 <= i < dfa.graph.nodes().len() implies lists_ok(self.graph.nodes(), #[trigger] dfa.graph.nodes()[i]) by {
            lemma_lists(self.graph.nodes(), powerset_dfa.v(), dfa.v(), visited@, i);
        }
        assert forall|a: NodeIndex| #[trigger] seq![entrypoint].to_set().contains(a) == (a == entrypoint) by {
            assert(seq![entrypoint][0] == entrypoint);
            assert(seq![entrypoint].to_set().contains(a) == seq![entrypoint].contains(a));
        }
        assert(ns(seq![entrypoint].to_set()) =~= ISet::empty().insert(entrypoint));
        lemma_words(self.graph, entrypoint, powerset_dfa.v(), start_dfa, dfa.v(), visited@);
    }
//@end
