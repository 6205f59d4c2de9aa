//@type lapex-automaton/src/lib.rs StateId
//@type lapex-automaton/src/lib.rs AutomatonState #[verifier::accept_recursive_types(StateType)]
//@type lapex-automaton/src/lib.rs NfaEdge
//@type lapex-automaton/src/lib.rs Nfa #[verifier::reject_recursive_types(StateType)] #[verifier::reject_recursive_types(TransitionType)]
//@type lapex-automaton/src/lib.rs Dfa #[verifier::reject_recursive_types(StateType)] #[verifier::reject_recursive_types(TransitionType)]

// ---- NFA: what it accepts -----------------------------------------------------------------------
pub type NG<S, T> = Graph<AutomatonState<S>, NfaEdge<T>>;
pub type Nodes = ISet<NodeIndex>;
pub open spec fn ns(s: Set<NodeIndex>) -> Nodes { ISet::new(|a: NodeIndex| s.contains(a)) }
pub open spec fn nd(i: int) -> NodeIndex { NodeIndex { i: i as usize } }
impl<StateType, TransitionType> Nfa<StateType, TransitionType> {
    pub open spec fn g(&self) -> NG<StateType, TransitionType> { self.graph }
    pub open spec fn wf(&self) -> bool { edges_in(self.graph.edges(), self.graph.nodes().len()) }
}
pub open spec fn edges_in<E>(e: Seq<GEdge<E>>, n: nat) -> bool {
    n <= usize::MAX && forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).s.i < n && e[i].t.i < n
}
// an empty step / a step on x from a to b
pub open spec fn estep<T>(e: Seq<GEdge<NfaEdge<T>>>, a: NodeIndex, b: NodeIndex) -> bool {
    exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).s == a && e[i].t == b && e[i].w is Epsilon
}
pub open spec fn tstep<T>(e: Seq<GEdge<NfaEdge<T>>>, a: NodeIndex, x: T, b: NodeIndex) -> bool {
    exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).s == a && e[i].t == b && e[i].w == NfaEdge::Transition(x)
}
pub open spec fn epath<T>(e: Seq<GEdge<NfaEdge<T>>>, k: nat, a: NodeIndex, b: NodeIndex) -> bool
    decreases k,
{ if k == 0 { a == b } else { exists|c: NodeIndex| epath(e, (k - 1) as nat, a, c) && #[trigger] estep(e, c, b) } }
// the states reachable by empty steps from a set; the states one step on x leads to
pub open spec fn reach<T>(e: Seq<GEdge<NfaEdge<T>>>, s: Nodes, b: NodeIndex) -> bool {
    exists|a: NodeIndex, k: nat| s.contains(a) && #[trigger] epath(e, k, a, b)
}
pub open spec fn eclos<T>(e: Seq<GEdge<NfaEdge<T>>>, s: Nodes) -> Nodes { ISet::new(|b: NodeIndex| reach(e, s, b)) }
pub open spec fn moved<T>(e: Seq<GEdge<NfaEdge<T>>>, s: Nodes, x: T) -> Nodes {
    ISet::new(|b: NodeIndex| exists|a: NodeIndex| s.contains(a) && #[trigger] tstep(e, a, x, b))
}
// the NFA states after reading w
pub open spec fn nfa_run<T>(e: Seq<GEdge<NfaEdge<T>>>, s: Nodes, w: Seq<T>) -> Nodes
    decreases w.len(),
{ if w.len() == 0 { eclos(e, s) } else { eclos(e, moved(e, nfa_run(e, s, w.drop_last()), w.last())) } }

pub proof fn lemma_estep_in<T>(e: Seq<GEdge<NfaEdge<T>>>, s: Nodes, a: NodeIndex, b: NodeIndex)
    requires reach(e, s, a), estep(e, a, b),
    ensures reach(e, s, b),
{
    let (z, k) = choose|z: NodeIndex, k: nat| s.contains(z) && #[trigger] epath(e, k, z, a);
    assert(epath(e, (k + 1) as nat, z, b));
}
// a set that contains s and is closed under empty steps contains all that is reachable
pub proof fn lemma_eclos_least<T>(e: Seq<GEdge<NfaEdge<T>>>, s: Nodes, c: Nodes)
    requires s.subset_of(c), forall|a: NodeIndex, b: NodeIndex| c.contains(a) && #[trigger] estep(e, a, b) ==> c.contains(b),
    ensures forall|b: NodeIndex| #[trigger] reach(e, s, b) ==> c.contains(b),
{
    assert forall|b: NodeIndex| #[trigger] reach(e, s, b) implies c.contains(b) by {
        let (a, k) = choose|a: NodeIndex, k: nat| s.contains(a) && #[trigger] epath(e, k, a, b);
        lemma_epath_in(e, c, k, a, b);
    }
}
pub proof fn lemma_epath_in<T>(e: Seq<GEdge<NfaEdge<T>>>, c: Nodes, k: nat, a: NodeIndex, b: NodeIndex)
    requires c.contains(a), epath(e, k, a, b), forall|a: NodeIndex, b: NodeIndex| c.contains(a) && #[trigger] estep(e, a, b) ==> c.contains(b),
    ensures c.contains(b),
    decreases k,
{
    if k > 0 {
        let d = choose|d: NodeIndex| epath(e, (k - 1) as nat, a, d) && #[trigger] estep(e, d, b);
        lemma_epath_in(e, c, (k - 1) as nat, a, d);
    }
}
pub proof fn lemma_reach_trans<T>(e: Seq<GEdge<NfaEdge<T>>>, s: Nodes, t: Nodes, b: NodeIndex)
    requires reach(e, t, b), forall|a: NodeIndex| #[trigger] t.contains(a) ==> reach(e, s, a),
    ensures reach(e, s, b),
{
    let c = eclos(e, s);
    assert forall|a: NodeIndex, b: NodeIndex| c.contains(a) && #[trigger] estep(e, a, b) implies c.contains(b) by { lemma_estep_in(e, s, a, b); }
    lemma_eclos_least(e, t, c);
}
