// the transitions a state lists: symbol and target of its outgoing edges
pub open spec fn from_refs<T>(e: Seq<GEdge<T>>, n: NodeIndex, s: Seq<(&T, NodeIndex)>) -> bool {
    s.len() <= vx_out(e, n).len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]).0 == e[vx_out(e, n)[i]].w && s[i].1 == e[vx_out(e, n)[i]].t
}
impl<StateType, TransitionType> Dfa<StateType, TransitionType> {
    pub open spec fn v(&self) -> GV<AutomatonState<StateType>, TransitionType> { self.graph.v() }
    pub open spec fn wf(&self) -> bool { self.intermediate_counter <= self.graph.nodes().len() && edges_in(self.graph.edges(), self.graph.nodes().len()) }
}
//@fn lapex-automaton/src/lib.rs Dfa::new
//@spec
    ensures r.wf(), r.graph.nodes().len() == 0, r.graph.edges().len() == 0,
//@end
//@fn lapex-automaton/src/lib.rs Dfa::add_intermediate_state
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).graph.edges() == old(self).graph.edges(), r.i == old(self).graph.nodes().len(),
        final(self).graph.nodes().len() == r.i + 1, final(self).graph.nodes().drop_last() == old(self).graph.nodes(), final(self).graph.nodes().last() is Intermediate,
//@at end
    proof { assert(self.graph.nodes().drop_last() =~= old(self).graph.nodes()); }
//@end
//@fn lapex-automaton/src/lib.rs Dfa::add_accepting_state
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).graph.edges() == old(self).graph.edges(), r.i == old(self).graph.nodes().len(),
        final(self).graph.nodes().len() == r.i + 1, final(self).graph.nodes().drop_last() == old(self).graph.nodes(),
        final(self).graph.nodes().last() == AutomatonState::Accepting(state),
//@at end
    proof { assert(self.graph.nodes().drop_last() =~= old(self).graph.nodes()); }
//@end
//@fn lapex-automaton/src/lib.rs Dfa::add_transition
//@spec
    requires old(self).wf(), old(self).graph.valid(start), old(self).graph.valid(end),
    ensures
        final(self).wf(), final(self).graph.nodes() == old(self).graph.nodes(),
        final(self).graph.edges() == old(self).graph.edges().push(GEdge { s: start, t: end, w: transition }),
//@end
//@fn lapex-automaton/src/lib.rs Dfa::states
//@spec
    ensures r.pos() == 0, self.graph.nodes().len() <= usize::MAX,
        r.seq() == Seq::new(self.graph.nodes().len(), |i: int| (NodeIndex { i: i as usize }, &self.graph.nodes()[i])),
//@end
//@fn lapex-automaton/src/lib.rs Dfa::transitions_from
//@spec
    ensures r.pos() == 0, r.seq().len() == vx_out(self.graph.edges(), node).len(), from_refs(self.graph.edges(), node, r.seq()),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), out_refs(self.graph.edges(), node, it0.seq()),
            acc0@.len() == it0.pos(), from_refs(self.graph.edges(), node, acc0@),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    proof { assert(e0 == it0.seq()[it0.pos() - 1]); }
//@end
