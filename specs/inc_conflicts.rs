// ---- conflicts ------------------------------------------------------------------------------------------
//@type lapex-parser/src/lr_parser/mod.rs Conflict
// completed items of a state with lookahead la
pub open spec fn completed<const N: usize>(s: Set<Item<N>>, la: [Symbol; N], a: Item<N>) -> bool { s.contains(a) && a.after() is None && a.lookahead == la }
pub open spec fn listing<const N: usize>(s: Set<Item<N>>, la: [Symbol; N], v: Seq<Item<N>>) -> bool {
    v.no_duplicates() && forall|a: Item<N>| #[trigger] v.contains(a) <==> completed(s, la, a)
}
pub open spec fn cores<'g, 'r, const N: usize>(v: Seq<Item<'g, 'r, N>>) -> Seq<Item<'g, 'r, 0>> { Seq::new(v.len(), |i: int| core(v[i])) }
// c reports the completed items of state i that share lookahead la, all of them
pub open spec fn rr<'g, 'r, const N: usize>(st: States<'g, 'r, N>, c: Conflict<'g, 'r>, i: int, la: [Symbol; N], v: Seq<Item<'g, 'r, N>>) -> bool {
    listing(st[i], la, v) && v.len() > 1 && (c matches Conflict::ReduceReduce { state, items } && state == i && items@ == cores(v))
}
pub open spec fn is_rr<'g, 'r, const N: usize>(st: States<'g, 'r, N>, c: Conflict<'g, 'r>, i: int, la: [Symbol; N]) -> bool {
    exists|v: Seq<Item<'g, 'r, N>>| #[trigger] rr(st, c, i, la, v)
}
pub open spec fn only<const N: usize>(s: Set<Item<N>>, la: [Symbol; N], a: Item<N>) -> bool {
    completed(s, la, a) && forall|b: Item<N>| #[trigger] completed(s, la, b) ==> b == a
}
// the state shifts on x, and x is the lookahead (or there is no lookahead to tell)
pub open spec fn shifts_on<const N: usize>(es: Seq<GEdge<Symbol>>, i: int, la: [Symbol; N], x: Symbol) -> bool {
    (N == 0 || la@[0] == x) && exists|j: int| 0 <= j < es.len() && (#[trigger] es[j]).s.i == i && es[j].w == x
}
pub open spec fn sr_c<'g, 'r, const N: usize>(i: int, a: Item<'g, 'r, N>, x: Symbol) -> Conflict<'g, 'r> {
    Conflict::ShiftReduce { state: i as usize, item_to_reduce: core(a), shift_symbol: x }
}
pub open spec fn sr<'g, 'r, const N: usize>(st: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, c: Conflict<'g, 'r>, i: int, la: [Symbol; N], a: Item<'g, 'r, N>, x: Symbol) -> bool {
    only(st[i], la, a) && shifts_on(es, i, la, x) && c == sr_c(i, a, x)
}
pub open spec fn is_conflict<'g, 'r, const N: usize>(st: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, c: Conflict<'g, 'r>) -> bool {
    ||| exists|i: int, la: [Symbol; N]| 0 <= i < st.len() && #[trigger] is_rr(st, c, i, la)
    ||| exists|i: int, la: [Symbol; N], a: Item<'g, 'r, N>, x: Symbol| 0 <= i < st.len() && #[trigger] sr(st, es, c, i, la, a, x)
}
pub open spec fn two<const N: usize>(s: Set<Item<N>>, la: [Symbol; N]) -> bool {
    exists|a: Item<N>, b: Item<N>| #[trigger] completed(s, la, a) && #[trigger] completed(s, la, b) && a != b
}
// everything to report about state i and lookahead la is reported
pub open spec fn reported<'g, 'r, const N: usize>(st: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, cs: Set<Conflict<'g, 'r>>, i: int, la: [Symbol; N]) -> bool {
    &&& two(st[i], la) ==> exists|c: Conflict<'g, 'r>| #[trigger] cs.contains(c) && is_rr(st, c, i, la)
    &&& forall|a: Item<'g, 'r, N>, x: Symbol| #[trigger] only(st[i], la, a) && #[trigger] shifts_on(es, i, la, x) ==> cs.contains(sr_c(i, a, x))
}
pub open spec fn state_reported<'g, 'r, const N: usize>(st: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, cs: Set<Conflict<'g, 'r>>, i: int) -> bool {
    forall|la: [Symbol; N]| #[trigger] reported(st, es, cs, i, la)
}
// C11: the conflicts are exactly those there are
pub open spec fn conflicts_exact<'g, 'r, const N: usize>(st: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, cs: Set<Conflict<'g, 'r>>) -> bool {
    &&& forall|c: Conflict<'g, 'r>| #[trigger] cs.contains(c) ==> is_conflict(st, es, c)
    &&& forall|i: int| 0 <= i < st.len() ==> #[trigger] state_reported(st, es, cs, i)
}
pub open spec fn vals<'g, 'r, 'a, const N: usize>(v: Seq<&'a Item<'g, 'r, N>>) -> Seq<Item<'g, 'r, N>> { Seq::new(v.len(), |i: int| *v[i]) }
pub type Reducing<'g, 'r, 'a, const N: usize> = Map<[Symbol; N], Vec<&'a Item<'g, 'r, N>>>;
pub open spec fn red_ok<'g, 'r, 'a, const N: usize>(t: Set<Item<'g, 'r, N>>, m: Reducing<'g, 'r, 'a, N>) -> bool {
    &&& forall|la: [Symbol; N]| #[trigger] m.contains_key(la) <==> exists|a: Item<'g, 'r, N>| #[trigger] completed(t, la, a)
    &&& forall|la: [Symbol; N]| #[trigger] m.contains_key(la) ==> listing(t, la, vals(m[la]@))
}
pub proof fn lemma_red_step<'g, 'r, 'a, const N: usize>(t: Set<Item<'g, 'r, N>>, a: &'a Item<'g, 'r, N>, m0: Reducing<'g, 'r, 'a, N>, m: Reducing<'g, 'r, 'a, N>)
    requires
        red_ok(t, m0), !t.contains(*a),
        a.after() is Some ==> m == m0,
        a.after() is None ==> m.dom() == m0.dom().insert(a.lookahead)
            && (forall|la: [Symbol; N]| la != a.lookahead && #[trigger] m0.contains_key(la) ==> m[la] == m0[la])
            && m[a.lookahead]@ == (if m0.contains_key(a.lookahead) { m0[a.lookahead]@ } else { Seq::empty() }).push(a),
    ensures red_ok(t.insert(*a), m),
{
    let u = t.insert(*a);
    assert forall|la: [Symbol; N], b: Item<'g, 'r, N>| #[trigger] completed(u, la, b) <==> completed(t, la, b) || (b == *a && a.after() is None && a.lookahead == la) by { }
    assert forall|la: [Symbol; N]| #[trigger] m.contains_key(la) <==> exists|b: Item<'g, 'r, N>| #[trigger] completed(u, la, b) by {
        if m.contains_key(la) {
            if m0.contains_key(la) { let b = choose|b: Item<'g, 'r, N>| #[trigger] completed(t, la, b); assert(completed(u, la, b)); }
            else { assert(m.dom().contains(la)); assert(completed(u, la, *a)); }
        }
        if exists|b: Item<'g, 'r, N>| #[trigger] completed(u, la, b) {
            let b = choose|b: Item<'g, 'r, N>| #[trigger] completed(u, la, b);
            if completed(t, la, b) { assert(m0.contains_key(la)); if a.after() is None { assert(m.dom().contains(la)); } }
            else { assert(m.dom().contains(la)); }
        }
    }
    assert forall|la: [Symbol; N]| #[trigger] m.contains_key(la) implies listing(u, la, vals(m[la]@)) by {
        if a.after() is None && la == a.lookahead {
            let v0 = if m0.contains_key(la) { m0[la]@ } else { Seq::<&'a Item<'g, 'r, N>>::empty() };
            assert(vals(m[la]@) =~= vals(v0).push(*a));
            lemma_push_has(vals(v0), *a);
            if !m0.contains_key(la) {
                assert forall|b: Item<'g, 'r, N>| !completed(t, la, b) by { }
            } else { assert(listing(t, la, vals(v0))); }
            assert forall|b: Item<'g, 'r, N>| #[trigger] vals(v0).contains(b) <==> completed(t, la, b) by { }
            assert(!vals(v0).contains(*a));
            lemma_push_nodup(vals(v0), *a);
        } else {
            assert(m0.contains_key(la)) by { if a.after() is None { assert(m.dom().contains(la)); } }
            assert(listing(t, la, vals(m0[la]@)));
        }
    }
}
pub proof fn lemma_push_nodup<T>(s: Seq<T>, x: T)
    requires s.no_duplicates(), !s.contains(x),
    ensures s.push(x).no_duplicates(),
{ }
pub proof fn lemma_take_set<T>(s: Seq<T>, n: int)
    requires 0 < n <= s.len(), s.no_duplicates(),
    ensures s.take(n).to_set() == s.take(n - 1).to_set().insert(s[n - 1]), !s.take(n - 1).to_set().contains(s[n - 1]),
{
    assert(s.take(n) =~= s.take(n - 1).push(s[n - 1]));
    lemma_push_has(s.take(n - 1), s[n - 1]);
    assert(s.take(n).to_set() =~= s.take(n - 1).to_set().insert(s[n - 1]));
}
pub proof fn lemma_two<'g, 'r, const N: usize>(s: Set<Item<'g, 'r, N>>, la: [Symbol; N], v: Seq<Item<'g, 'r, N>>)
    requires listing(s, la, v),
    ensures two(s, la) ==> v.len() > 1, v.len() == 1 ==> only(s, la, v[0]), v.len() != 1 ==> forall|a: Item<'g, 'r, N>| !#[trigger] only(s, la, a),
{
    if two(s, la) {
        let (a, b) = choose|a: Item<'g, 'r, N>, b: Item<'g, 'r, N>| #[trigger] completed(s, la, a) && #[trigger] completed(s, la, b) && a != b;
        assert(v.contains(a) && v.contains(b));
    }
    if v.len() == 1 {
        assert(v.contains(v[0]));
        assert forall|b: Item<'g, 'r, N>| #[trigger] completed(s, la, b) implies b == v[0] by { assert(v.contains(b)); }
    } else {
        assert forall|a: Item<'g, 'r, N>| !#[trigger] only(s, la, a) by {
            if only(s, la, a) {
                assert(v.contains(a));
                assert(v.contains(v[0]) && v.contains(v[1]));
                assert(completed(s, la, v[0]) && completed(s, la, v[1]));
            }
        }
    }
}
pub proof fn lemma_more<'g, 'r, const N: usize>(st: States<'g, 'r, N>, es: Seq<GEdge<Symbol>>, cs: Set<Conflict<'g, 'r>>, ds: Set<Conflict<'g, 'r>>, i: int)
    requires cs.subset_of(ds),
    ensures
        forall|la: [Symbol; N]| #[trigger] reported(st, es, cs, i, la) ==> reported(st, es, ds, i, la),
        state_reported(st, es, cs, i) ==> state_reported(st, es, ds, i),
{
    assert forall|la: [Symbol; N]| #[trigger] reported(st, es, cs, i, la) implies reported(st, es, ds, i, la) by {
        if two(st[i], la) { let c = choose|c: Conflict<'g, 'r>| #[trigger] cs.contains(c) && is_rr(st, c, i, la); assert(ds.contains(c)); }
    }
    if state_reported(st, es, cs, i) {
        assert forall|la: [Symbol; N]| #[trigger] reported(st, es, ds, i, la) by { assert(reported(st, es, cs, i, la)); }
    }
}
// every state is listed by the map's iterator
pub proof fn lemma_listed<'g, 'r, const N: usize>(p: ParserGraph<'g, 'r, N>, s: Seq<(&BTreeSet<Item<'g, 'r, N>>, &NodeIndex)>, k: int)
    requires p.wf(), pairs_of(p.state_map.a_b_map@, s), 0 <= k < s.len(),
    ensures (*s[k].1).i < p.sts().len(), (*s[k].0)@ == p.sts()[(*s[k].1).i as int],
{
    let a = vx_order(p.state_map.a_b_map@.dom())[k];
    assert(p.state_map.a_b_map@.contains_key(a));
    assert(Rc(*s[k].0) == a);
    lemma_wf_state(p, *s[k].0);
}
pub proof fn lemma_all_listed<'g, 'r, const N: usize>(p: ParserGraph<'g, 'r, N>, s: Seq<(&BTreeSet<Item<'g, 'r, N>>, &NodeIndex)>, i: int) -> (k: int)
    requires p.wf(), pairs_of(p.state_map.a_b_map@, s), 0 <= i < p.sts().len(),
    ensures 0 <= k < s.len(), *s[k].1 == nx(i),
{
    let o = vx_order(p.state_map.a_b_map@.dom());
    let a = p.state_map.b_a_map@[Rc(nx(i))];
    assert(p.state_map.b_a_map@.contains_key(Rc(nx(i))));
    assert(p.state_map.a_b_map@.dom().contains(a));
    assert(o.contains(a));
    let k = choose|k: int| 0 <= k < o.len() && o[k] == a;
    assert(Rc(*s[k].0) == o[k]);
    k
}
//@fn lapex-parser/src/lr_parser/mod.rs find_conflicts
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@spec
    requires N <= 1, parser_graph.wf(),
    ensures conflicts_exact(parser_graph.sts(), parser_graph.es(), r@),
//@at start
    let ghost st = parser_graph.sts();
    let ghost es = parser_graph.es();
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), pairs_of(parser_graph.state_map.a_b_map@, it0.seq()),
            forall|c: Conflict<'grammar, 'rules>| #[trigger] conflicts@.contains(c) ==> is_conflict(st, es, c),
            forall|k: int| 0 <= k < it0.pos() ==> state_reported(st, es, conflicts@, (*(#[trigger] it0.seq()[k]).1).i as int),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    let ghost c0 = conflicts@;
    let ghost n = (*state).i as int;
    let ghost s = item_set@;
    let ghost ord = vx_order(s);
    let ghost mut m = Map::<[Symbol; N], Vec<&Item<'grammar, 'rules, N>>>::empty();
    let ghost mut keys = Seq::<[Symbol; N]>::empty();
    proof {
        lemma_listed(*parser_graph, it0.seq(), it0.pos() - 1);
        assert(st[n] == s);
        assert(nx(n) == *state);
        assert(ord.take(0).to_set() =~= Set::<Item<'grammar, 'rules, N>>::empty());
    }
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), it1.seq().len() == ord.len(),
            forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == ord[i],
            red_ok(ord.take(it1.pos() as int).to_set(), reducing_items@),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost m0 = reducing_items@;
    let ghost cur = it1.seq()[it1.pos() - 1];
//@at loop 1 end
    proof {
        lemma_take_set(ord, it1.pos() as int);
        lemma_red_step(ord.take(it1.pos() - 1).to_set(), cur, m0, reducing_items@);
    }
//@at loop 2 before
    proof {
        m = reducing_items@;
        keys = vx_order(m.dom());
        assert(ord.take(ord.len() as int) =~= ord);
        assert(ord.to_set() =~= s);
        assert(red_ok(s, m));
    }
//@loop 2
        invariant
            it2.pos() <= it2.seq().len(), it2.seq().len() == keys.len(),
            forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == (keys[i], m[keys[i]]),
            c0.subset_of(conflicts@),
            forall|c: Conflict<'grammar, 'rules>| #[trigger] conflicts@.contains(c) ==> is_conflict(st, es, c),
            forall|k: int| 0 <= k < it2.pos() ==> reported(st, es, conflicts@, n, #[trigger] keys[k]),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    let ghost c2 = conflicts@;
    let ghost kk = it2.pos() - 1;
    let ghost la = keys[kk];
    let ghost rv = reducing_items@;
    let ghost v = vals(rv);
    proof {
        assert(m.contains_key(la));
        assert(la == lookahead && m[la]@ == rv);
        assert(listing(s, la, v));
        lemma_two(s, la, v);
    }
//@loop 3
        invariant
            it3.pos() <= it3.seq().len(), it3.seq() == rv,
            acc0@.len() == it3.pos(),
            forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == core(v[i]),
        decreases it3.seq().len() - it3.pos(),
//@at loop 3 after
    proof { assert(acc0@ =~= cores(v)); }
//@loop 4
        invariant
            it4.pos() <= it4.seq().len(), out_refs(es, *state, it4.seq()),
            v.len() == 1, only(s, la, v[0]),
            c2.subset_of(conflicts@),
            forall|c: Conflict<'grammar, 'rules>| #[trigger] conflicts@.contains(c) ==> is_conflict(st, es, c),
            forall|j: int| 0 <= j < it4.pos() && (N == 0 || la@[0] == *(#[trigger] it4.seq()[j]).w) ==> conflicts@.contains(sr_c(n, v[0], *it4.seq()[j].w)),
        decreases it4.seq().len() - it4.pos(),
//@at loop 4 start
    proof {
        let j = it4.pos() - 1;
        let x = *it4.seq()[j].w;
        assert(es[vx_out(es, *state)[j]].s.i == n);
        assert(es[vx_out(es, *state)[j]].w == x);
        assert(vals(rv)[0] == *rv[0]);
        if N == 0 || la@[0] == x { assert(shifts_on(es, n, la, x)); assert(sr(st, es, sr_c(n, v[0], x), n, la, v[0], x)); assert(is_conflict(st, es, sr_c(n, v[0], x))); }
    }
//@at loop 4 after
    proof {
        assert forall|a: Item<'grammar, 'rules, N>, x: Symbol| #[trigger] only(s, la, a) && #[trigger] shifts_on(es, n, la, x) implies conflicts@.contains(sr_c(n, a, x)) by {
            assert(completed(s, la, a) && a == v[0]);
            let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).s.i == n && es[j].w == x;
            assert(es[j].s == *state);
            assert(vx_out(es, *state).contains(j));
            let q = choose|q: int| 0 <= q < vx_out(es, *state).len() && vx_out(es, *state)[q] == j;
            assert(*it4.seq()[q].w == x);
        }
    }
//@at call insert 0 after
    proof {
        let items = choose|items: Vec<Item<'grammar, 'rules, 0>>| conflicts@ == #[trigger] c2.insert(Conflict::ReduceReduce { state: n as usize, items }) && items@ == cores(v);
        let c = Conflict::ReduceReduce { state: n as usize, items };
        assert(conflicts@ == c2.insert(c));
        assert(rr(st, c, n, la, v));
        assert(is_rr(st, c, n, la));
        assert(conflicts@.contains(c));
        assert(exists|c: Conflict<'grammar, 'rules>| #[trigger] conflicts@.contains(c) && is_rr(st, c, n, la));
    }
//@at loop 2 end
    proof {
        assert(reported(st, es, conflicts@, n, la));
        lemma_more(st, es, c2, conflicts@, n);
    }
//@at loop 0 end
    proof {
        assert forall|l: [Symbol; N]| #[trigger] reported(st, es, conflicts@, n, l) by {
            if m.contains_key(l) {
                assert(keys.contains(l));
                let k = choose|k: int| 0 <= k < keys.len() && keys[k] == l;
                assert(reported(st, es, conflicts@, n, keys[k]));
            } else {
                assert forall|a: Item<'grammar, 'rules, N>| !#[trigger] completed(s, l, a) by { }
            }
        }
        assert(state_reported(st, es, conflicts@, n));
        assert forall|k: int| 0 <= k < it0.pos() implies state_reported(st, es, conflicts@, (*(#[trigger] it0.seq()[k]).1).i as int) by {
            lemma_more(st, es, c0, conflicts@, (*it0.seq()[k].1).i as int);
        }
    }
//@at loop 0 after
    proof {
        assert forall|i: int| 0 <= i < st.len() implies #[trigger] state_reported(st, es, conflicts@, i) by {
            let k = lemma_all_listed(*parser_graph, it0.seq(), i);
            assert((*it0.seq()[k].1).i == i);
        }
    }
//@end
