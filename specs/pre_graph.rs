pub mod vxg {
use vstd::prelude::*;
use crate::vxp::*;
verus! {
// ---- petgraph: assumed contracts ---------------------------------------------------------------
// indices are modelled as unbounded below usize::MAX (petgraph panics beyond 2^32 - 1 nodes or edges)
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub struct NodeIndex { pub i: usize }
impl NodeIndex {
    pub fn index(self) -> (r: usize)
        ensures r == self.i,
    { self.i }
}
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub struct EdgeIndex { pub i: usize }
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum Direction { Outgoing, Incoming }
pub use Direction::Outgoing;
pub use Direction::Incoming;
#[verifier::reject_recursive_types(E)]
pub ghost struct GEdge<E> { pub s: NodeIndex, pub t: NodeIndex, pub w: E }
// the value of a graph
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(E)]
pub ghost struct GV<N, E> { pub n: Seq<N>, pub e: Seq<GEdge<E>> }
impl<N, E> GV<N, E> {
    pub open spec fn nodes(&self) -> Seq<N> { self.n }
    pub open spec fn edges(&self) -> Seq<GEdge<E>> { self.e }
    pub open spec fn valid(&self, n: NodeIndex) -> bool { n.i < self.n.len() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(E)]
pub struct Graph<N, E> { t: std::marker::PhantomData<(N, E)> }
pub type DiGraph<N, E> = Graph<N, E>;
pub struct EdgeReference<'a, E> { pub s: NodeIndex, pub t: NodeIndex, pub w: &'a E }
impl<'a, E> EdgeReference<'a, E> {
    pub fn weight(&self) -> (r: &'a E)
        ensures *r == *self.w,
    { self.w }
    pub fn source(&self) -> (r: NodeIndex)
        ensures r == self.s,
    { self.s }
    pub fn target(&self) -> (r: NodeIndex)
        ensures r == self.t,
    { self.t }
}
// the order in which the outgoing edges of a node are listed: all of them, once each
pub uninterp spec fn vx_out<E>(e: Seq<GEdge<E>>, n: NodeIndex) -> Seq<int>;
#[verifier::external_body]
pub broadcast proof fn axiom_vx_out<E>(e: Seq<GEdge<E>>, n: NodeIndex)
    ensures
        (#[trigger] vx_out(e, n)).no_duplicates(),
        forall|i: int| 0 <= i < vx_out(e, n).len() ==> 0 <= #[trigger] vx_out(e, n)[i] < e.len() && e[vx_out(e, n)[i]].s == n,
        forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).s == n ==> vx_out(e, n).contains(i),
{ }
pub open spec fn out_refs<'a, E>(e: Seq<GEdge<E>>, n: NodeIndex, s: Seq<EdgeReference<'a, E>>) -> bool {
    s.len() == vx_out(e, n).len()
        && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).s == n && s[i].t == e[vx_out(e, n)[i]].t && *s[i].w == e[vx_out(e, n)[i]].w
}
impl<N, E> Graph<N, E> {
    pub uninterp spec fn nodes(&self) -> Seq<N>;
    pub uninterp spec fn edges(&self) -> Seq<GEdge<E>>;
    pub open spec fn v(&self) -> GV<N, E> { GV { n: self.nodes(), e: self.edges() } }
    pub open spec fn valid(&self, n: NodeIndex) -> bool { n.i < self.nodes().len() }
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.nodes().len() == 0, r.edges().len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_node(&mut self, n: N) -> (r: NodeIndex)
        ensures r.i == old(self).nodes().len(), old(self).nodes().len() < usize::MAX, final(self).nodes() == old(self).nodes().push(n), final(self).edges() == old(self).edges(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, w: E) -> (r: EdgeIndex)
        requires old(self).valid(a), old(self).valid(b),
        ensures final(self).nodes() == old(self).nodes(), final(self).edges() == old(self).edges().push(GEdge { s: a, t: b, w }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn node_weight(&self, a: NodeIndex) -> (r: Option<&N>)
        ensures
            self.valid(a) ==> r == Some(&self.nodes()[a.i as int]),
            !self.valid(a) ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn node_references(&self) -> (r: VxIter<(NodeIndex, &N)>)
        ensures r.pos() == 0, self.nodes().len() <= usize::MAX,
            r.seq() == Seq::new(self.nodes().len(), |i: int| (NodeIndex { i: i as usize }, &self.nodes()[i])),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn node_indices(&self) -> (r: VxIter<NodeIndex>)
        ensures r.pos() == 0, self.nodes().len() <= usize::MAX, r.seq() == Seq::new(self.nodes().len(), |i: int| NodeIndex { i: i as usize }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn edges_directed(&self, n: NodeIndex, d: Direction) -> (r: VxIter<EdgeReference<'_, E>>)
        ensures r.pos() == 0, d is Outgoing ==> out_refs(self.edges(), n, r.seq()),
    { unimplemented!() }
}
pub broadcast group vx_graph_axioms { axiom_vx_out }
} // verus!
} // mod vxg
use crate::vxg::*;
