// ---- the parser graph --------------------------------------------------------------------------------
//@type lapex-parser/src/lr_parser/mod.rs ParserGraph #[verifier::reject_recursive_types(N)]
pub open spec fn nx(i: int) -> NodeIndex { NodeIndex { i: i as usize } }
// a set's value is its contents
#[verifier::external_body]
pub proof fn axiom_set_ext<T>(a: BTreeSet<T>, b: BTreeSet<T>)
    ensures a@ == b@ ==> a == b,
{ }
pub open spec fn has_core<const N: usize>(s: Set<Item<N>>, c: Item<0>) -> bool { exists|i: Item<N>| #[trigger] s.contains(i) && core(i) == c }
pub open spec fn is_core<const N: usize>(s: Set<Item<N>>, c: Set<Item<0>>) -> bool { forall|x: Item<0>| #[trigger] c.contains(x) <==> has_core(s, x) }
pub open spec fn eq_core<const N: usize>(s: Set<Item<N>>, t: Set<Item<N>>) -> bool { forall|x: Item<0>| #[trigger] has_core(s, x) <==> has_core(t, x) }
impl<'grammar, 'rules, const N: usize> ParserGraph<'grammar, 'rules, N> {
    pub open spec fn set_of(&self, n: NodeIndex) -> Set<Item<'grammar, 'rules, N>> { self.state_map.b_a_map@[Rc(n)].0@ }
    // the item sets of the states, by index
    pub open spec fn sts(&self) -> Seq<Set<Item<'grammar, 'rules, N>>> { Seq::new(self.graph.nodes().len(), |i: int| self.set_of(nx(i))) }
    pub open spec fn es(&self) -> Seq<GEdge<Symbol>> { self.graph.edges() }
    pub open spec fn wf(&self) -> bool {
        &&& self.state_map.wf()
        &&& self.graph.nodes().len() <= usize::MAX
        &&& forall|n: NodeIndex| #[trigger] self.state_map.b_a_map@.contains_key(Rc(n)) <==> n.i < self.graph.nodes().len()
    }
    // the map from cores to states, for states of distinct cores
    pub open spec fn cm_ok(&self) -> bool {
        &&& forall|c: BTreeSet<Item<'grammar, 'rules, 0>>| #[trigger] self.lr0_core_map@.contains_key(c) ==> self.lr0_core_map@[c].i < self.sts().len() && is_core(self.sts()[self.lr0_core_map@[c].i as int], c@)
        &&& forall|i: int, c: BTreeSet<Item<'grammar, 'rules, 0>>| 0 <= i < self.sts().len() && #[trigger] is_core(self.sts()[i], c@) ==> self.lr0_core_map@.contains_key(c) && self.lr0_core_map@[c].i == i
        &&& forall|i: int, j: int| 0 <= i < self.sts().len() && 0 <= j < self.sts().len() && #[trigger] eq_core(self.sts()[i], self.sts()[j]) ==> i == j
    }
}
// every set in the map is a state's
pub proof fn lemma_wf_state<'g, 'r, const N: usize>(p: ParserGraph<'g, 'r, N>, a: BTreeSet<Item<'g, 'r, N>>)
    requires p.wf(), p.state_map.a_b_map@.contains_key(Rc(a)),
    ensures p.state_map.a_b_map@[Rc(a)].0.i < p.sts().len(), p.sts()[p.state_map.a_b_map@[Rc(a)].0.i as int] == a@,
{
    let n = p.state_map.a_b_map@[Rc(a)];
    assert(p.state_map.b_a_map@.contains_key(Rc(n.0)));
    assert(nx(n.0.i as int) == n.0);
}
pub proof fn lemma_eq_core<const N: usize>(a: Set<Item<N>>, b: Set<Item<N>>, c: Set<Item<N>>)
    ensures eq_core(a, a), eq_core(a, b) ==> eq_core(b, a), eq_core(a, b) && eq_core(b, c) ==> eq_core(a, c),
{
    if eq_core(a, b) { assert forall|x: Item<0>| #[trigger] has_core(b, x) <==> has_core(a, x) by { assert(has_core(a, x) <==> has_core(b, x)); } }
    if eq_core(a, b) && eq_core(b, c) { assert forall|x: Item<0>| #[trigger] has_core(a, x) <==> has_core(c, x) by { assert(has_core(b, x) <==> has_core(c, x)); } }
}
pub proof fn lemma_core_eq<const N: usize>(s: Set<Item<N>>, t: Set<Item<N>>, c: Set<Item<0>>)
    ensures is_core(s, c) && is_core(t, c) ==> eq_core(s, t), is_core(s, c) && eq_core(s, t) ==> is_core(t, c), eq_core(s, t) ==> eq_core(t, s),
{
    if is_core(s, c) && is_core(t, c) { assert forall|x: Item<0>| #[trigger] has_core(s, x) <==> has_core(t, x) by { assert(c.contains(x) <==> has_core(t, x)); } }
    if is_core(s, c) && eq_core(s, t) { assert forall|x: Item<0>| #[trigger] c.contains(x) <==> has_core(t, x) by { assert(has_core(s, x) <==> has_core(t, x)); } }
}
// two sets with a core are the same value
pub proof fn lemma_core_one<const N: usize>(s: Set<Item<N>>, c: BTreeSet<Item<0>>, d: BTreeSet<Item<0>>)
    requires is_core(s, c@), is_core(s, d@),
    ensures c == d,
{
    assert forall|x: Item<0>| c@.contains(x) <==> #[trigger] d@.contains(x) by { assert(c@.contains(x) <==> has_core(s, x)); }
    assert(c@ =~= d@);
    axiom_set_ext(c, d);
}
pub proof fn lemma_cm<'g, 'r, const N: usize>(o: ParserGraph<'g, 'r, N>, n: ParserGraph<'g, 'r, N>, k: int, c: BTreeSet<Item<'g, 'r, 0>>)
    requires
        o.cm_ok(), 0 <= k < n.sts().len(), n.sts().len() <= usize::MAX, is_core(n.sts()[k], c@), n.lr0_core_map@ == o.lr0_core_map@.insert(c, nx(k)),
        k < o.sts().len() ==> n.sts().len() == o.sts().len() && eq_core(o.sts()[k], n.sts()[k]),
        k >= o.sts().len() ==> n.sts().len() == o.sts().len() + 1,
        forall|i: int| 0 <= i < o.sts().len() && i != k ==> #[trigger] n.sts()[i] == o.sts()[i],
        k >= o.sts().len() ==> forall|i: int| 0 <= i < o.sts().len() ==> !eq_core(#[trigger] o.sts()[i], n.sts()[k]),
    ensures n.cm_ok(),
{
    let s = n.sts()[k];
    if k < o.sts().len() {
        lemma_core_eq(s, o.sts()[k], c@);
        lemma_core_eq(o.sts()[k], s, c@);
        assert(is_core(o.sts()[k], c@));
    }
    assert forall|d: BTreeSet<Item<'g, 'r, 0>>| #[trigger] n.lr0_core_map@.contains_key(d) implies n.lr0_core_map@[d].i < n.sts().len() && is_core(n.sts()[n.lr0_core_map@[d].i as int], d@) by {
        if d != c {
            let j = o.lr0_core_map@[d].i as int;
            assert(o.lr0_core_map@.contains_key(d));
            if j == k { lemma_core_eq(o.sts()[k], s, d@); }
        }
    }
    assert forall|i: int, j: int| 0 <= i < n.sts().len() && 0 <= j < n.sts().len() && #[trigger] eq_core(n.sts()[i], n.sts()[j]) implies i == j by {
        if k < o.sts().len() {
            lemma_eq_core(o.sts()[i], n.sts()[i], n.sts()[j]);
            lemma_eq_core(o.sts()[i], n.sts()[j], o.sts()[j]);
            assert(eq_core(n.sts()[j], o.sts()[j]));
            assert(eq_core(o.sts()[i], n.sts()[i]));
            assert(eq_core(o.sts()[i], o.sts()[j]));
        } else if i == k && j != k {
            lemma_eq_core(n.sts()[j], n.sts()[i], n.sts()[j]);
            assert(!eq_core(o.sts()[j], n.sts()[k]));
        } else if i != k && j == k {
            assert(!eq_core(o.sts()[i], n.sts()[k]));
        }
    }
    assert forall|i: int, d: BTreeSet<Item<'g, 'r, 0>>| 0 <= i < n.sts().len() && #[trigger] is_core(n.sts()[i], d@) implies n.lr0_core_map@.contains_key(d) && n.lr0_core_map@[d].i == i by {
        if i == k { lemma_core_one(s, c, d); }
        else {
            assert(o.lr0_core_map@.contains_key(d));
            if d == c {
                lemma_core_eq(o.sts()[i], s, d@);
                if k < o.sts().len() { assert(o.lr0_core_map@[d].i == k); }
            }
        }
    }
}
pub proof fn lemma_wf_distinct<'g, 'r, const N: usize>(p: ParserGraph<'g, 'r, N>, i: int, j: int)
    requires p.wf(), 0 <= i < p.sts().len(), 0 <= j < p.sts().len(), p.sts()[i] == p.sts()[j],
    ensures i == j,
{
    assert(p.state_map.b_a_map@.contains_key(Rc(nx(i))));
    assert(p.state_map.b_a_map@.contains_key(Rc(nx(j))));
    axiom_set_ext(p.state_map.b_a_map@[Rc(nx(i))].0, p.state_map.b_a_map@[Rc(nx(j))].0);
}
//@fn lapex-parser/src/lr_parser/mod.rs get_lr0_core
//@spec
    ensures is_core(item_set@, r@),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == vx_order(item_set@).len(),
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == vx_order(item_set@)[i],
            acc0@.len() == it0.pos(),
            forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == core(vx_order(item_set@)[i]),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 after
    proof { lemma_cores(item_set@, acc0@); }
//@end
//@fn lapex-parser/src/lr_parser/mod.rs get_hash_lr0_core
//@spec
    ensures is_core(item_set@, r@),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == vx_order(item_set@).len(),
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == vx_order(item_set@)[i],
            acc0@.len() == it0.pos(),
            forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == core(vx_order(item_set@)[i]),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 after
    proof { lemma_cores(item_set@, acc0@); }
//@end
pub proof fn lemma_cores<const N: usize>(s: Set<Item<N>>, v: Seq<Item<0>>)
    requires v.len() == vx_order(s).len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == core(vx_order(s)[i]),
    ensures is_core(s, v.to_set()),
{
    assert forall|x: Item<0>| #[trigger] v.to_set().contains(x) <==> has_core(s, x) by {
        if v.to_set().contains(x) {
            let i = choose|i: int| 0 <= i < v.len() && v[i] == x;
            assert(s.contains(vx_order(s)[i]));
        }
        if has_core(s, x) {
            let a = choose|a: Item<N>| #[trigger] s.contains(a) && core(a) == x;
            assert(vx_order(s).contains(a));
            let i = choose|i: int| 0 <= i < v.len() && vx_order(s)[i] == a;
            assert(v[i] == x);
            assert(v.contains(x));
        }
    }
}
//@fn lapex-parser/src/lr_parser/mod.rs ParserGraph::new
//@spec
    ensures r.wf(), r.cm_ok(), r.sts().len() == 0, r.es().len() == 0, r.graph.nodes().len() == 0,
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ParserGraph::add_state
//@spec
    requires old(self).wf(), forall|i: int| 0 <= i < old(self).sts().len() ==> #[trigger] old(self).sts()[i] != set@,
    ensures
        final(self).wf(), final(self).sts() == old(self).sts().push(set@), final(self).es() == old(self).es(),
        r.i == old(self).sts().len(), final(self).entry_state == old(self).entry_state,
        old(self).cm_ok() && (forall|i: int| 0 <= i < old(self).sts().len() ==> !eq_core(#[trigger] old(self).sts()[i], set@)) ==> final(self).cm_ok(),
//@at start
    let ghost o = *self;
    let ghost ns = set;

//@at end
    proof {
        if o.state_map.a_b_map@.contains_key(Rc(ns)) { lemma_wf_state(o, ns); }
        assert(self.sts() =~= o.sts().push(ns@)) by {
            assert forall|i: int| 0 <= i < o.sts().len() + 1 implies #[trigger] self.sts()[i] == o.sts().push(ns@)[i] by { }
        }
        let c = choose|c: BTreeSet<Item<'grammar, 'rules, 0>>| #[trigger] is_core(ns@, c@) && self.lr0_core_map@ == o.lr0_core_map@.insert(c, entry_node);
        assert(is_core(ns@, c@) && self.lr0_core_map@ == o.lr0_core_map@.insert(c, entry_node));
        if o.cm_ok() && (forall|i: int| 0 <= i < o.sts().len() ==> !eq_core(#[trigger] o.sts()[i], ns@)) { lemma_cm(o, *self, o.sts().len() as int, c); }
    }
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ParserGraph::get_item_set
//@spec
    requires self.wf(),
    ensures state.i < self.sts().len() ==> r is Some && r->0@ == self.sts()[state.i as int], state.i >= self.sts().len() ==> r is None,
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ParserGraph::update_item_set
//@spec
    requires old(self).wf(), state.i < old(self).sts().len(),
        forall|m: &mut ItemSet<'grammar, 'rules, N>| m@ == old(self).sts()[state.i as int] ==> #[trigger] call_requires(op, (m,)),
    ensures r is Some, updated(*old(self), *final(self), *state, op, r->0),
//@at start
    let ghost o = *self;
    let ghost st = *state;
    proof { assert(o.state_map.b_a_map@.contains_key(Rc(st))); assert(nx(st.i as int) == st); }
//@at end
    proof {
        let nb = self.state_map.b_a_map@[Rc(st)].0;
        assert(self.sts()[st.i as int] == nb@);
        assert(self.sts() =~= o.sts().update(st.i as int, nb@));
        assert(op_ens(op, o.state_map.b_a_map@[Rc(st)].0, nb, vx_ret->0));
        let c = choose|c: BTreeSet<Item<'grammar, 'rules, 0>>| #[trigger] is_core(nb@, c@) && self.lr0_core_map@ == o.lr0_core_map@.insert(c, st);
        assert(is_core(nb@, c@) && self.lr0_core_map@ == o.lr0_core_map@.insert(c, st));
        if o.cm_ok() && eq_core(o.sts()[st.i as int], nb@) { lemma_cm(o, *self, st.i as int, c); }
        if forall|i: int| 0 <= i < o.sts().len() && i != st.i ==> #[trigger] o.sts()[i] != nb@ {
            if o.state_map.a_b_map@.contains_key(Rc(nb)) { lemma_wf_state(o, nb); }
            assert(self.wf());
        }
    }
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ParserGraph::get_state
//@spec
    requires self.wf(),
    ensures r is Some ==> r->0.i < self.sts().len() && self.sts()[r->0.i as int] == set@,
        r is None ==> forall|i: int| 0 <= i < self.sts().len() ==> #[trigger] self.sts()[i] != set@,
//@at start
    proof {
        if self.state_map.a_b_map@.contains_key(Rc(*set)) { lemma_wf_state(*self, *set); }
        assert forall|i: int| 0 <= i < self.sts().len() && #[trigger] self.sts()[i] == set@ implies self.state_map.a_b_map@.contains_key(Rc(*set)) by {
            assert(self.state_map.b_a_map@.contains_key(Rc(nx(i))));
            axiom_set_ext(self.state_map.b_a_map@[Rc(nx(i))].0, *set);
        }
    }
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ParserGraph::get_state_by_lr0_core
//@spec
    requires self.wf(), self.cm_ok(),
    ensures r is Some ==> r->0.i < self.sts().len() && eq_core(self.sts()[r->0.i as int], set@),
        r is None ==> forall|i: int| 0 <= i < self.sts().len() ==> !eq_core(#[trigger] self.sts()[i], set@),
//@at end
    proof {
        let c = choose|c: BTreeSet<Item<'grammar, 'rules, 0>>| #[trigger] is_core(set@, c@) && (self.lr0_core_map@.contains_key(c) ==> vx_ret == Some(&self.lr0_core_map@[c])) && (!self.lr0_core_map@.contains_key(c) ==> vx_ret is None);
        assert(is_core(set@, c@) && (self.lr0_core_map@.contains_key(c) ==> vx_ret == Some(&self.lr0_core_map@[c])) && (!self.lr0_core_map@.contains_key(c) ==> vx_ret is None));
        if vx_ret is Some { lemma_core_eq(self.sts()[vx_ret->0.i as int], set@, c@); }
        else {
            assert forall|i: int| 0 <= i < self.sts().len() implies !eq_core(#[trigger] self.sts()[i], set@) by {
                lemma_core_eq(set@, self.sts()[i], c@);
                lemma_core_eq(self.sts()[i], set@, c@);
            }
        }
    }
//@end
//@fn lapex-parser/src/lr_parser/mod.rs ParserGraph::add_transition
//@spec
    requires start_state.i < old(self).sts().len(), target_state.i < old(self).sts().len(), old(self).wf(),
    ensures final(self).wf(), final(self).sts() == old(self).sts(), final(self).es() == old(self).es().push(GEdge { s: start_state, t: target_state, w: transition }),
        final(self).entry_state == old(self).entry_state, old(self).cm_ok() ==> final(self).cm_ok(),
//@at start
    let ghost o = *self;
//@at end
    proof { assert(self.sts() =~= o.sts()); }
//@end
#[verifier::prophetic]
pub open spec fn op_ens<T, R, F: FnOnce(&mut T) -> R>(op: F, a: T, b: T, r: R) -> bool {
    exists|m: &mut T| *m == a && *final(m) == b && #[trigger] call_ensures(op, (m,), r)
}
// the state's set was replaced by what op made of it
#[verifier::prophetic]
pub open spec fn updated<'g, 'r, const N: usize, R, F: FnOnce(&mut ItemSet<'g, 'r, N>) -> R>(o: ParserGraph<'g, 'r, N>, n: ParserGraph<'g, 'r, N>, s: NodeIndex, op: F, r: R) -> bool {
    &&& n.sts() == o.sts().update(s.i as int, n.sts()[s.i as int])
    &&& n.es() == o.es() && n.entry_state == o.entry_state
    &&& op_ens(op, o.state_map.b_a_map@[Rc(s)].0, n.state_map.b_a_map@[Rc(s)].0, r)
    &&& (forall|i: int| 0 <= i < o.sts().len() && i != s.i ==> #[trigger] o.sts()[i] != n.sts()[s.i as int]) ==> n.wf()
    &&& o.cm_ok() && eq_core(o.sts()[s.i as int], n.sts()[s.i as int]) ==> n.cm_ok()
}
//@fn lapex-parser/src/lr_parser/mod.rs merge_into_state
//@spec
    requires old(parser_graph).wf(), state.i < old(parser_graph).sts().len(),
    ensures r is Some, merged(*old(parser_graph), *final(parser_graph), state, item_set@, r->0),
//@closure 0 |update: &mut ItemSet<'grammar, 'rules, N>| -> (r: bool) ensures final(update)@ == old(update)@.union(ts), r == (final(update)@ != old(update)@)
//@at start
    let ghost ts = item_set@;
    let ghost pg0 = *parser_graph;
//@at loop 0 before
    let ghost u0 = update@;
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == vx_order(ts),
            forall|x: Item<'grammar, 'rules, N>| #[trigger] update@.contains(x) <==> u0.contains(x) || seen(it0.seq(), it0.pos() as int, x),
            reprocess == (update@ != u0),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    let ghost u1 = update@;
    let ghost y = it0.seq()[it0.pos() - 1];
//@at loop 0 end
    proof {
        assert forall|x: Item<'grammar, 'rules, N>| #[trigger] update@.contains(x) <==> u0.contains(x) || seen(it0.seq(), it0.pos() as int, x) by {
            lemma_seen(it0.seq(), it0.pos() as int, x);
        }
        if u1.contains(y) { assert(update@ =~= u1); } else {
            assert(update@.contains(y));
            assert(!u0.contains(y));
        }
    }
//@at loop 0 after
    proof {
        assert forall|x: Item<'grammar, 'rules, N>| #[trigger] update@.contains(x) <==> u0.contains(x) || ts.contains(x) by {
            if ts.contains(x) {
                assert(vx_order(ts).contains(x));
                let i = choose|i: int| 0 <= i < vx_order(ts).len() && vx_order(ts)[i] == x;
                assert(seen(it0.seq(), it0.pos() as int, x));
            }
        }
        assert(update@ =~= u0.union(ts));
    }
//@at end
    proof {
        assert(nx(state.i as int) == state);
        let n = *parser_graph;
        assert(n.sts().len() == pg0.sts().len());
        assert(n.sts()[state.i as int] == n.set_of(nx(state.i as int)));
        assert(n.sts()[state.i as int] == n.state_map.b_a_map@[Rc(state)].0@);
        assert(pg0.sts()[state.i as int] == pg0.state_map.b_a_map@[Rc(state)].0@);
    }
//@end
// x is one of the first n of s
pub open spec fn seen<T>(s: Seq<T>, n: int, x: T) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i] == x }
pub proof fn lemma_seen<T>(s: Seq<T>, n: int, x: T)
    requires 0 < n <= s.len(),
    ensures seen(s, n, x) <==> seen(s, n - 1, x) || s[n - 1] == x,
{ if seen(s, n - 1, x) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] s[i] == x; assert(s[i] == x); } }
pub open spec fn merged<'g, 'r, const N: usize>(o: ParserGraph<'g, 'r, N>, n: ParserGraph<'g, 'r, N>, s: NodeIndex, t: Set<Item<'g, 'r, N>>, r: bool) -> bool {
    let a = o.sts()[s.i as int];
    &&& n.sts() == o.sts().update(s.i as int, a.union(t))
    &&& r == (a.union(t) != a)
    &&& n.es() == o.es() && n.entry_state == o.entry_state
    &&& (forall|i: int| 0 <= i < o.sts().len() && i != s.i ==> #[trigger] o.sts()[i] != a.union(t)) ==> n.wf()
    &&& o.cm_ok() && eq_core(a, a.union(t)) ==> n.cm_ok()
}
