// ---- running the automaton over class indices, from its first state ----------------------------------
pub open spec fn dstep<T>(d: Seq<GEdge<T>>, q: NodeIndex, x: T) -> Option<NodeIndex> {
    if exists|k: int| 0 <= k < d.len() && (#[trigger] d[k]).s == q && d[k].w == x {
        Some(d[choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]).s == q && d[k].w == x].t)
    } else { None }
}
// the state of the automaton after reading w from its first state; None when it is stuck
pub open spec fn drun<T>(d: Seq<GEdge<T>>, w: Seq<T>) -> Option<NodeIndex>
    decreases w.len(),
{
    if w.len() == 0 { Some(nd(0)) } else {
        match drun(d, w.drop_last()) { Some(q) => dstep(d, q, w.last()), None => None }
    }
}
pub open spec fn det<E>(d: Seq<GEdge<E>>) -> bool {
    forall|k: int, l: int| 0 <= k < d.len() && 0 <= l < d.len() && (#[trigger] d[k]).s == (#[trigger] d[l]).s && d[k].w == d[l].w ==> k == l
}
