// ---- the language of a pattern, over the classes of an alphabet --------------------------------------
pub open spec fn cc_in(c: Characters, x: int) -> bool {
    match c { Characters::Single(a) => a as u32 == x, Characters::Range(a, b) => a as u32 <= x <= b as u32 }
}
pub open spec fn cs_in(s: Seq<Characters>, x: int) -> bool { exists|j: int| 0 <= j < s.len() && cc_in(#[trigger] s[j], x) }
// class i consists of characters that satisfy f
pub open spec fn class_all(al: Alphabet, i: int, f: spec_fn(int) -> bool) -> bool {
    0 <= i < al.ranges@.len() && forall|x: int| #[trigger] in_range(al.ranges@[i], x) ==> f(x)
}
pub open spec fn letters(f: ISet<usize>) -> Lang { ISet::new(|w: W| w.len() == 1 && f.contains(w[0])) }
pub open spec fn classes(al: Alphabet, f: spec_fn(int) -> bool) -> ISet<usize> { ISet::new(|i: usize| class_all(al, i as int, f)) }
pub open spec fn cs_classes(al: Alphabet, s: Seq<Characters>, neg: bool) -> ISet<usize> { classes(al, |x: int| cs_in(s, x) != neg) }
pub open spec fn lang(al: Alphabet, p: Pattern) -> Lang
    decreases p,
{
    match p {
        Pattern::Sequence { elements } => lseq(al, elements@, elements@.len()),
        Pattern::Alternative { elements } => lalt(al, elements@, elements@.len()),
        Pattern::Repetition { min, max, inner } => pows(lang(al, *inner), min as nat, match max { Some(h) => Some(h as nat), None => None }),
        Pattern::CharSet { chars, negated } => letters(cs_classes(al, chars@, negated)),
        Pattern::Char { chars } => letters(classes(al, |x: int| cc_in(chars, x))),
    }
}
pub open spec fn lseq(al: Alphabet, s: Seq<Pattern>, n: nat) -> Lang
    decreases s, n,
{ if n == 0 || n > s.len() { eword() } else { cat(lseq(al, s, (n - 1) as nat), lang(al, s[n - 1])) } }
pub open spec fn lalt(al: Alphabet, s: Seq<Pattern>, n: nat) -> Lang
    decreases s, n,
{ if n == 0 || n > s.len() { ISet::new(|w: W| false) } else { lalt(al, s, (n - 1) as nat).union(lang(al, s[n - 1])) } }
// w spells the first n characters of cs: its k-th class holds nothing but cs[k]
pub open spec fn lit_word(al: Alphabet, cs: Seq<char>, w: W, n: nat) -> bool {
    w.len() == n && forall|k: int| 0 <= k < n ==> class_all(al, #[trigger] w[k] as int, |x: int| x == cs[k] as u32)
}
pub open spec fn rule_lang(al: Alphabet, r: TokenRule) -> Lang {
    match r.pattern {
        TokenPattern::Literal { characters } => ISet::new(|w: W| lit_word(al, characters@, w, characters@.len())),
        TokenPattern::Pattern { pattern } => lang(al, pattern),
    }
}
// what is required of a pattern: sequences are non-empty, a bounded repetition's bounds are ordered
pub open spec fn shape_ok(p: Pattern) -> bool
    decreases p,
{
    match p {
        Pattern::Sequence { elements } => elements@.len() > 0 && forall|i: int| 0 <= i < elements@.len() ==> shape_ok(#[trigger] elements@[i]),
        Pattern::Alternative { elements } => forall|i: int| 0 <= i < elements@.len() ==> shape_ok(#[trigger] elements@[i]),
        Pattern::Repetition { min, max, inner } => shape_ok(*inner) && (max is None || max->0 >= min),
        _ => true,
    }
}
pub open spec fn cown(al: Alphabet, c: Characters) -> bool { forall|x: char| #[trigger] mention1(c).contains(x) ==> own_range(al.ranges@, x) }
// ... and every character it mentions has a class of its own (C01)
pub open spec fn good(al: Alphabet, p: Pattern) -> bool
    decreases p,
{
    match p {
        Pattern::Sequence { elements } => elements@.len() > 0 && forall|i: int| 0 <= i < elements@.len() ==> good(al, #[trigger] elements@[i]),
        Pattern::Alternative { elements } => forall|i: int| 0 <= i < elements@.len() ==> good(al, #[trigger] elements@[i]),
        Pattern::Repetition { min, max, inner } => good(al, *inner) && (max is None || max->0 >= min),
        Pattern::CharSet { chars, negated } => forall|i: int| 0 <= i < chars@.len() ==> cown(al, #[trigger] chars@[i]),
        Pattern::Char { chars } => cown(al, chars),
    }
}
pub open spec fn owns(al: Alphabet, m: Set<char>) -> bool { forall|x: char| #[trigger] m.contains(x) ==> own_range(al.ranges@, x) }
pub proof fn lemma_mention_seq(s: Seq<Pattern>, n: nat, i: int)
    requires 0 <= i < n <= s.len(),
    ensures mention(s[i]).subset_of(mention_seq(s, n)),
    decreases n,
{ if i < n - 1 { lemma_mention_seq(s, (n - 1) as nat, i); } }
pub proof fn lemma_mention_chars(s: Seq<Characters>, n: nat, i: int)
    requires 0 <= i < n <= s.len(),
    ensures mention1(s[i]).subset_of(mention_chars(s, n)),
    decreases n,
{ if i < n - 1 { lemma_mention_chars(s, (n - 1) as nat, i); } }
// the alphabet's guarantee (C01) gives what the automaton needs
pub proof fn lemma_good(al: Alphabet, p: Pattern)
    requires shape_ok(p), owns(al, mention(p)),
    ensures good(al, p),
    decreases p,
{
    match p {
        Pattern::Sequence { elements } => {
            assert forall|i: int| 0 <= i < elements@.len() implies good(al, #[trigger] elements@[i]) by { lemma_mention_seq(elements@, elements@.len(), i); lemma_good(al, elements@[i]); }
        }
        Pattern::Alternative { elements } => {
            assert forall|i: int| 0 <= i < elements@.len() implies good(al, #[trigger] elements@[i]) by { lemma_mention_seq(elements@, elements@.len(), i); lemma_good(al, elements@[i]); }
        }
        Pattern::Repetition { min, max, inner } => { lemma_good(al, *inner); }
        Pattern::CharSet { chars, negated } => {
            assert forall|i: int| 0 <= i < chars@.len() implies cown(al, #[trigger] chars@[i]) by { lemma_mention_chars(chars@, chars@.len(), i); }
        }
        Pattern::Char { chars } => { }
    }
}
// ---- classes and character sets --------------------------------------------------------------------
pub open spec fn hit(al: Alphabet, c: Characters, i: int) -> bool { class_all(al, i, |x: int| cc_in(c, x)) }
pub open spec fn span_of(al: Alphabet, c: Characters, a: int, b: int) -> bool {
    0 <= a < al.ranges@.len() && 0 <= b < al.ranges@.len() && match c {
        Characters::Single(x) => in_range(al.ranges@[a], x as int) && a == b,
        Characters::Range(x, y) => in_range(al.ranges@[a], x as int) && in_range(al.ranges@[b], y as int),
    }
}
pub proof fn lemma_own(al: Alphabet, x: char, a: int)
    requires al.wf(), own_range(al.ranges@, x), 0 <= a < al.ranges@.len(), in_range(al.ranges@[a], x as int),
    ensures al.ranges@[a].start == x as u32, al.ranges@[a].end == x as u32,
{
    let r = al.ranges@;
    let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).start == x as u32 && r[i].end == x as u32;
    if i < a { assert(r[i].end < r[a].start); }
    if a < i { assert(r[a].end < r[i].start); }
}
// the classes between the class of the first and of the last character are those inside the range, and the others avoid it
pub proof fn lemma_span(al: Alphabet, c: Characters, a: int, b: int, i: int)
    requires al.wf(), cown(al, c), span_of(al, c, a, b), 0 <= i < al.ranges@.len(),
    ensures
        hit(al, c, i) <==> a <= i <= b,
        !hit(al, c, i) ==> forall|x: int| #[trigger] in_range(al.ranges@[i], x) ==> !cc_in(c, x),
{
    let r = al.ranges@;
    let (lo, hi): (char, char) = match c { Characters::Single(x) => (x, x), Characters::Range(x, y) => (x, y) };
    assert(mention1(c).contains(lo) && mention1(c).contains(hi));
    lemma_own(al, lo, a);
    lemma_own(al, hi, b);
    assert(r[i].start <= r[i].end);
    assert(in_range(r[i], r[i].start as int));
    if i < a { assert(r[i].end < r[a].start); }
    if a < i { assert(r[a].end < r[i].start); }
    if i < b { assert(r[i].end < r[b].start); }
    if b < i { assert(r[b].end < r[i].start); }
    if a <= i <= b {
        assert forall|x: int| #[trigger] in_range(r[i], x) implies cc_in(c, x) by { }
    } else {
        assert forall|x: int| #[trigger] in_range(r[i], x) implies !cc_in(c, x) by { }
    }
}
pub open spec fn hits(al: Alphabet, s: Seq<Characters>, n: int, i: usize) -> bool { exists|j: int| 0 <= j < n && hit(al, #[trigger] s[j], i as int) }
pub proof fn lemma_span_any(al: Alphabet, c: Characters, i: int)
    requires al.wf(), cown(al, c), 0 <= i < al.ranges@.len(), !hit(al, c, i),
    ensures forall|x: int| #[trigger] in_range(al.ranges@[i], x) ==> !cc_in(c, x),
{
    let (lo, hi): (char, char) = match c { Characters::Single(x) => (x, x), Characters::Range(x, y) => (x, y) };
    let n = al.ranges@.len() as int;
    lemma_locate(al.ranges@, n, lo as int);
    lemma_locate(al.ranges@, n, hi as int);
    let a = choose|m: int| 0 <= m < n && in_range(#[trigger] al.ranges@[m], lo as int);
    let b0 = choose|m: int| 0 <= m < n && in_range(#[trigger] al.ranges@[m], hi as int);
    let b = match c { Characters::Single(x) => a, Characters::Range(x, y) => b0 };
    lemma_span(al, c, a, b, i);
}
pub proof fn lemma_hits(al: Alphabet, s: Seq<Characters>, neg: bool)
    requires al.wf(), forall|i: int| 0 <= i < s.len() ==> cown(al, #[trigger] s[i]),
    ensures forall|i: usize| #[trigger] cs_classes(al, s, neg).contains(i) <==> i < al.ranges@.len() && hits(al, s, s.len() as int, i) != neg,
{
    let r = al.ranges@;
    let f = |x: int| cs_in(s, x) != neg;
    assert forall|i: usize| #[trigger] cs_classes(al, s, neg).contains(i) <==> i < r.len() && hits(al, s, s.len() as int, i) != neg by {
        if i < r.len() {
            assert(r[i as int].start <= r[i as int].end);
            assert(in_range(r[i as int], r[i as int].start as int));
            if hits(al, s, s.len() as int, i) {
                let j = choose|j: int| 0 <= j < s.len() && hit(al, #[trigger] s[j], i as int);
                assert forall|x: int| #[trigger] in_range(r[i as int], x) implies cs_in(s, x) by { assert(cc_in(s[j], x)); }
            } else {
                assert forall|x: int| #[trigger] in_range(r[i as int], x) implies !cs_in(s, x) by {
                    assert forall|j: int| 0 <= j < s.len() implies !cc_in(#[trigger] s[j], x) by { lemma_span_any(al, s[j], i as int); }
                }
            }
        }
    }
}

// ---- the part of an automaton a call adds -----------------------------------------------------------
pub type TNfa<'rules> = Nfa<&'rules Spanned<TokenRule<'rules>>, usize>;
pub open spec fn ext<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn rng(a: int, b: int) -> Nodes { ISet::new(|x: NodeIndex| a <= x.i < b) }
// the edges from the a-th on
pub open spec fn eset<E>(e: Seq<GEdge<E>>, a: int) -> ISet<GEdge<E>> { ISet::new(|g: GEdge<E>| exists|i: int| a <= i < e.len() && 0 <= i && #[trigger] e[i] == g) }
pub proof fn lemma_eset_ext<E>(e0: Seq<GEdge<E>>, e1: Seq<GEdge<E>>, a: int)
    requires ext(e0, e1), 0 <= a <= e0.len(),
    ensures eset(e1, a) == eset(e0, a).union(eset(e1, e0.len() as int)),
{
    assert forall|g: GEdge<E>| eset(e1, a).contains(g) == eset(e0, a).union(eset(e1, e0.len() as int)).contains(g) by {
        if eset(e0, a).contains(g) { let i = choose|i: int| a <= i < e0.len() && 0 <= i && #[trigger] e0[i] == g; assert(e1[i] == g); }
        if eset(e1, a).contains(g) { let i = choose|i: int| a <= i < e1.len() && 0 <= i && #[trigger] e1[i] == g; if i < e0.len() { assert(e0[i] == g); } }
    }
    assert(eset(e1, a) =~= eset(e0, a).union(eset(e1, e0.len() as int)));
}
pub proof fn lemma_eset_push<E>(e: Seq<GEdge<E>>, g: GEdge<E>, a: int)
    requires 0 <= a <= e.len(),
    ensures eset(e.push(g), a) == eset(e, a).union(one(g)),
{
    let e1 = e.push(g);
    assert forall|h: GEdge<E>| eset(e1, a).contains(h) == eset(e, a).union(one(g)).contains(h) by {
        if eset(e, a).contains(h) { let i = choose|i: int| a <= i < e.len() && 0 <= i && #[trigger] e[i] == h; assert(e1[i] == h); }
        if eset(e1, a).contains(h) { let i = choose|i: int| a <= i < e1.len() && 0 <= i && #[trigger] e1[i] == h; if i < e.len() { assert(e[i] == h); } }
        assert(e1[e.len() as int] == g);
    }
    assert(eset(e1, a) =~= eset(e, a).union(one(g)));
}
pub open spec fn no_edges<E>() -> ISet<GEdge<E>> { ISet::new(|g: GEdge<E>| false) }
pub open spec fn nwf<S, T>(n: Nfa<S, T>) -> bool { n.wf() && n.intermediate_counter <= n.graph.nodes().len() }
// nothing but intermediate states is added to o, and only behind what is there
pub open spec fn grows<S, T>(o: Nfa<S, T>, n: Nfa<S, T>) -> bool {
    nwf(n) && ext(o.graph.nodes(), n.graph.nodes()) && ext(o.graph.edges(), n.graph.edges())
        && forall|i: int| o.graph.nodes().len() <= i < n.graph.nodes().len() ==> #[trigger] n.graph.nodes()[i] is Intermediate
}
pub open spec fn nn<S, T>(n: Nfa<S, T>) -> int { n.graph.nodes().len() as int }
pub open spec fn ne<S, T>(n: Nfa<S, T>) -> int { n.graph.edges().len() as int }
// the edges n has beyond o
pub open spec fn delta<S, T>(o: Nfa<S, T>, n: Nfa<S, T>) -> ISet<GEdge<NfaEdge<T>>> { eset(n.graph.edges(), ne(o)) }
pub proof fn lemma_grows_refl<S, T>(o: Nfa<S, T>)
    requires nwf(o),
    ensures grows(o, o), delta(o, o) == no_edges::<NfaEdge<T>>(),
{ assert(delta(o, o) =~= no_edges::<NfaEdge<T>>()); }
pub proof fn lemma_grows_trans<S, T>(a: Nfa<S, T>, b: Nfa<S, T>, c: Nfa<S, T>)
    requires grows(a, b), grows(b, c),
    ensures grows(a, c), delta(a, c) == delta(a, b).union(delta(b, c)),
{
    lemma_eset_ext(b.graph.edges(), c.graph.edges(), ne(a));
    assert forall|i: int| a.graph.nodes().len() <= i < c.graph.nodes().len() implies #[trigger] c.graph.nodes()[i] is Intermediate by {
        if i < b.graph.nodes().len() { assert(c.graph.nodes()[i] == b.graph.nodes()[i]); }
    }
    assert forall|i: int| 0 <= i < a.graph.nodes().len() implies #[trigger] c.graph.nodes()[i] == a.graph.nodes()[i] by { assert(c.graph.nodes()[i] == b.graph.nodes()[i]); }
    assert forall|i: int| 0 <= i < a.graph.edges().len() implies #[trigger] c.graph.edges()[i] == a.graph.edges()[i] by { assert(c.graph.edges()[i] == b.graph.edges()[i]); }
}
// whatever b has grown from, c has grown from with the edges d more
pub open spec fn adds<S, T>(b: Nfa<S, T>, c: Nfa<S, T>, d: ISet<GEdge<NfaEdge<T>>>) -> bool {
    forall|o: Nfa<S, T>| #[trigger] grows(o, b) ==> grows(o, c) && delta(o, c) == delta(o, b).union(d)
}
pub proof fn lemma_adds<S, T>(b: Nfa<S, T>, c: Nfa<S, T>)
    requires nwf(b), grows(b, c),
    ensures adds(b, c, delta(b, c)),
{
    assert forall|o: Nfa<S, T>| #[trigger] grows(o, b) implies grows(o, c) && delta(o, c) == delta(o, b).union(delta(b, c)) by { lemma_grows_trans(o, b, c); }
}
pub open spec fn built<'r>(o: TNfa<'r>, n: TNfa<'r>, s: NodeIndex, t: NodeIndex, l: Lang) -> bool {
    grows(o, n) && frag(delta(o, n), rng(nn(o), nn(n)), s, t, l)
}
//@fn lapex-automaton/src/lib.rs Nfa::new
//@spec
    ensures nwf(r), r.graph.nodes().len() == 0, r.graph.edges().len() == 0,
//@end
//@fn lapex-automaton/src/lib.rs Nfa::add_intermediate_state
//@spec
    requires nwf(*old(self)),
    ensures
        nwf(*final(self)), r.i == nn(*old(self)), nn(*final(self)) == r.i + 1, final(self).graph.edges() == old(self).graph.edges(),
        grows(*old(self), *final(self)), adds(*old(self), *final(self), no_edges()),
//@at end
    proof {
        let n = *self;
        assert(delta(*old(self), n) =~= no_edges::<NfaEdge<TransitionType>>());
        lemma_adds(*old(self), n);
    }
//@end
//@fn lapex-automaton/src/lib.rs Nfa::add_accepting_state
//@spec
    requires nwf(*old(self)),
    ensures
        nwf(*final(self)), r.i == nn(*old(self)), final(self).graph.edges() == old(self).graph.edges(),
        final(self).graph.nodes() == old(self).graph.nodes().push(AutomatonState::Accepting(state)),
//@end
//@fn lapex-automaton/src/lib.rs Nfa::add_epsilon_transition
//@spec
    requires nwf(*old(self)), old(self).graph.valid(start), old(self).graph.valid(end),
    ensures
        nwf(*final(self)), final(self).graph.nodes() == old(self).graph.nodes(),
        final(self).graph.edges() == old(self).graph.edges().push(GEdge { s: start, t: end, w: NfaEdge::Epsilon }),
        grows(*old(self), *final(self)), adds(*old(self), *final(self), one(GEdge { s: start, t: end, w: NfaEdge::Epsilon })),
//@at end
    proof {
        let n = *self;
        let g = GEdge { s: start, t: end, w: NfaEdge::<TransitionType>::Epsilon };
        lemma_grows_refl(*old(self));
        lemma_eset_push(old(self).graph.edges(), g, ne(*old(self)));
        assert(delta(*old(self), n) =~= one(g));
        lemma_adds(*old(self), n);
    }
//@end
//@fn lapex-automaton/src/lib.rs Nfa::add_transition
//@spec
    requires nwf(*old(self)), old(self).graph.valid(start), old(self).graph.valid(end),
    ensures
        nwf(*final(self)), final(self).graph.nodes() == old(self).graph.nodes(),
        final(self).graph.edges() == old(self).graph.edges().push(GEdge { s: start, t: end, w: NfaEdge::Transition(transition) }),
        grows(*old(self), *final(self)), adds(*old(self), *final(self), one(GEdge { s: start, t: end, w: NfaEdge::Transition(transition) })),
//@at end
    proof {
        let n = *self;
        let g = GEdge { s: start, t: end, w: NfaEdge::Transition(transition) };
        lemma_grows_refl(*old(self));
        lemma_eset_push(old(self).graph.edges(), g, ne(*old(self)));
        assert(delta(*old(self), n) =~= one(g));
        lemma_adds(*old(self), n);
    }
//@end

// ---- chains of fragments ---------------------------------------------------------------------------
#[verifier::reject_recursive_types]
pub ghost struct Pc { pub e: Es, pub m: int, pub lo: int, pub hi: int, pub s: NodeIndex, pub t: NodeIndex, pub l: Lang }
pub open spec fn jn(p: Seq<Pc>, s: NodeIndex, i: int) -> NodeIndex { if i == 0 { s } else { p[i - 1].t } }
pub open spec fn pc_ok(c: Pc, base: int, top: int) -> bool { frag(c.e, rng(c.lo, c.hi), c.s, c.t, c.l) && base <= c.m <= c.lo <= c.hi <= top }
pub open spec fn linked(p: Seq<Pc>, s: NodeIndex, i: int) -> bool { p[i].s == jn(p, s, i) }
pub open spec fn inner_pc(c: Pc) -> bool { c.t.i == c.m && c.lo == c.m + 1 }
// consecutive fragments; all but the last (or all, while open) end in a state of their own
pub open spec fn chain(p: Seq<Pc>, s: NodeIndex, base: int, top: int, open: bool) -> bool {
    &&& s.i < base && base <= top
    &&& forall|i: int| 0 <= i < p.len() ==> pc_ok(#[trigger] p[i], base, top)
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] linked(p, s, i)
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).hi <= (#[trigger] p[j]).m
    &&& forall|i: int| 0 <= i < p.len() && (open || i < p.len() - 1) ==> inner_pc(#[trigger] p[i])
}
pub open spec fn pieces(p: Seq<Pc>, s: NodeIndex, t: NodeIndex, base: int, top: int) -> bool {
    p.len() > 0 && chain(p, s, base, top, false) && p.last().t == t && t.i < base && s != t
}
pub open spec fn pre_e(p: Seq<Pc>, n: int) -> Es { ISet::new(|g: Ed| exists|i: int| 0 <= i < n && (#[trigger] p[i]).e.contains(g)) }
pub open spec fn pre_n(p: Seq<Pc>, n: int, base: int) -> Nodes { ISet::new(|x: NodeIndex| base <= x.i < p[n - 1].hi && x != p[n - 1].t) }
pub open spec fn cc(p: Seq<Pc>, n: nat) -> Lang
    decreases n,
{ if n == 0 || n > p.len() { eword() } else { cat(cc(p, (n - 1) as nat), p[n - 1].l) } }
pub proof fn lemma_chain(p: Seq<Pc>, s: NodeIndex, t: NodeIndex, base: int, top: int, n: nat)
    requires pieces(p, s, t, base, top), 0 < n <= p.len(),
    ensures frag(pre_e(p, n as int), pre_n(p, n as int, base), s, p[n - 1].t, cc(p, n)),
    decreases n,
{
    let c = p[n - 1];
    assert(pc_ok(c, base, top));
    assert(linked(p, s, n - 1));
    if n < p.len() { assert(inner_pc(p[n - 1])); }
    if n == 1 {
        assert(pre_e(p, 1) =~= c.e) by {
            assert forall|g: Ed| pre_e(p, 1).contains(g) == c.e.contains(g) by { assert(p[0].e == c.e); }
        }
        reveal_with_fuel(cc, 2);
        lemma_cat_eps(c.l);
        lemma_wider(c.e, rng(c.lo, c.hi), s, c.t, c.l, pre_n(p, 1, base));
    } else {
        lemma_chain(p, s, t, base, top, (n - 1) as nat);
        let d = p[n - 2];
        assert(pc_ok(d, base, top));
        assert(inner_pc(d));
        assert(d.hi <= c.m);
        let n1 = pre_n(p, n - 1, base);
        let n2 = rng(c.lo, c.hi);
        assert(c.s == d.t);
        lemma_serial(pre_e(p, n - 1), n1, c.e, n2, s, d.t, c.t, cc(p, (n - 1) as nat), c.l);
        assert forall|g: Ed| pre_e(p, n as int).contains(g) == pre_e(p, n - 1).union(c.e).contains(g) by {
            if pre_e(p, n as int).contains(g) { let i = choose|i: int| 0 <= i < n && (#[trigger] p[i]).e.contains(g); if i < n - 1 { assert(pre_e(p, n - 1).contains(g)); } }
            if pre_e(p, n - 1).contains(g) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] p[i]).e.contains(g); assert(pre_e(p, n as int).contains(g)); }
            if c.e.contains(g) { assert(p[n - 1].e.contains(g)); }
        }
        assert(pre_e(p, n as int) =~= pre_e(p, n - 1).union(c.e));
        lemma_wider(pre_e(p, n as int), with(n1, n2, d.t), s, c.t, cc(p, n), pre_n(p, n as int, base));
    }
}
// appending a fragment
pub proof fn lemma_chain_push(p: Seq<Pc>, s: NodeIndex, base: int, top: int, c: Pc, top2: int, open: bool)
    requires chain(p, s, base, top, true), top <= c.m, top <= top2, pc_ok(c, base, top2), c.s == jn(p, s, p.len() as int), open ==> inner_pc(c),
    ensures chain(p.push(c), s, base, top2, open),
{
    let q = p.push(c);
    assert forall|i: int| 0 <= i < q.len() implies pc_ok(#[trigger] q[i], base, top2) by { if i < p.len() { assert(pc_ok(p[i], base, top)); } }
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] linked(q, s, i) by { if i < p.len() { assert(linked(p, s, i)); } }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).hi <= (#[trigger] q[j]).m by { if j == p.len() { assert(pc_ok(p[i], base, top)); } }
    assert forall|i: int| 0 <= i < q.len() && (open || i < q.len() - 1) implies inner_pc(#[trigger] q[i]) by { if i < p.len() { assert(inner_pc(p[i])); } }
}
pub proof fn lemma_pre_push(p: Seq<Pc>, c: Pc)
    ensures pre_e(p.push(c), p.len() as int + 1) == pre_e(p, p.len() as int).union(c.e),
{
    let q = p.push(c);
    assert forall|g: Ed| pre_e(q, p.len() as int + 1).contains(g) == pre_e(p, p.len() as int).union(c.e).contains(g) by {
        if pre_e(q, p.len() as int + 1).contains(g) { let i = choose|i: int| 0 <= i < p.len() as int + 1 && (#[trigger] q[i]).e.contains(g); if i < p.len() { assert(p[i].e.contains(g)); } }
        if pre_e(p, p.len() as int).contains(g) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).e.contains(g); assert(q[i].e.contains(g)); }
        if c.e.contains(g) { assert(q[p.len() as int].e.contains(g)); }
    }
    assert(pre_e(q, p.len() as int + 1) =~= pre_e(p, p.len() as int).union(c.e));
}
pub proof fn lemma_cc_pw(p: Seq<Pc>, n: nat, l: Lang)
    requires n <= p.len(), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).l == l,
    ensures cc(p, n) == pw(l, n),
    decreases n,
{ if n > 0 { lemma_cc_pw(p, (n - 1) as nat, l); assert(p[n - 1].l == l); } }

// ---- leaving a chain at every joint -------------------------------------------------------------------
// the edges of the fragments from the j-th on, and an empty edge from each of their joints to u
pub open spec fn tap_e(p: Seq<Pc>, s: NodeIndex, u: NodeIndex, j: int) -> Es {
    ISet::new(|g: Ed| (exists|i: int| j <= i < p.len() && (#[trigger] p[i]).e.contains(g)) || (exists|i: int| j <= i <= p.len() && g == eedge(#[trigger] jn(p, s, i), u)))
}
pub open spec fn tap_n(p: Seq<Pc>, s: NodeIndex, t: NodeIndex, j: int, top: int) -> Nodes {
    ISet::new(|x: NodeIndex| x != jn(p, s, j) && (x == t || (if j < p.len() { p[j].m } else { top }) <= x.i < top))
}
pub proof fn lemma_pows_up(l: Lang, n: nat)
    requires n > 0,
    ensures eword().union(cat(l, pows(l, 0, Some((n - 1) as nat)))) == pows(l, 0, Some(n)),
{
    let rest = pows(l, 0, Some((n - 1) as nat));
    lemma_pw1(l);
    lemma_pows_cat(l, 1, 0, Some((n - 1) as nat));
    assert(cat(l, rest) == pows(l, 1, Some(n)));
    assert forall|w: W| eword().union(cat(l, rest)).contains(w) == pows(l, 0, Some(n)).contains(w) by {
        if eword().contains(w) { assert(pw(l, 0).contains(w)); }
        if cat(l, rest).contains(w) { let k = choose|k: nat| 1 <= k && k <= n && #[trigger] pw(l, k).contains(w); assert(pw(l, k).contains(w)); }
        if pows(l, 0, Some(n)).contains(w) {
            let k = choose|k: nat| k <= n && #[trigger] pw(l, k).contains(w);
            if k > 0 { assert(pows(l, 1, Some(n)).contains(w)); }
        }
    }
    assert(eword().union(cat(l, rest)) =~= pows(l, 0, Some(n)));
}
pub proof fn lemma_tap_step(p: Seq<Pc>, s: NodeIndex, u: NodeIndex, j: int)
    requires 0 <= j < p.len(),
    ensures one(eedge(jn(p, s, j), u)).union(p[j].e.union(tap_e(p, s, u, j + 1))) == tap_e(p, s, u, j),
{
    let c = p[j];
    let x = jn(p, s, j);
    let e2 = tap_e(p, s, u, j + 1);
    let e4 = one(eedge(x, u)).union(c.e.union(e2));
    assert forall|g: Ed| e4.contains(g) == tap_e(p, s, u, j).contains(g) by {
        if g == eedge(x, u) { assert(g == eedge(jn(p, s, j), u)); }
        if c.e.contains(g) { assert(p[j].e.contains(g)); }
        if e2.contains(g) {
            if exists|i: int| j + 1 <= i < p.len() && (#[trigger] p[i]).e.contains(g) { let i = choose|i: int| j + 1 <= i < p.len() && (#[trigger] p[i]).e.contains(g); assert(p[i].e.contains(g)); }
            else { let i = choose|i: int| j + 1 <= i <= p.len() && g == eedge(#[trigger] jn(p, s, i), u); assert(g == eedge(jn(p, s, i), u)); }
        }
        if tap_e(p, s, u, j).contains(g) {
            if exists|i: int| j <= i < p.len() && (#[trigger] p[i]).e.contains(g) {
                let i = choose|i: int| j <= i < p.len() && (#[trigger] p[i]).e.contains(g);
                if i > j { assert(p[i].e.contains(g)); assert(e2.contains(g)); }
            } else {
                let i = choose|i: int| j <= i <= p.len() && g == eedge(#[trigger] jn(p, s, i), u);
                if i > j { assert(g == eedge(jn(p, s, i), u)); assert(e2.contains(g)); }
            }
        }
    }
    assert(e4 =~= tap_e(p, s, u, j));
}
pub proof fn lemma_taps(p: Seq<Pc>, s: NodeIndex, t: NodeIndex, u: NodeIndex, base: int, top: int, j: int, l: Lang)
    requires
        pieces(p, s, t, base, top), 0 <= j <= p.len(), u.i < base, u != s, u != t,
        forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).l == l,
    ensures frag(tap_e(p, s, u, j), tap_n(p, s, t, j, top), jn(p, s, j), u, pows(l, 0, Some((p.len() - j) as nat))),
    decreases p.len() - j,
{
    let x = jn(p, s, j);
    let n = (p.len() - j) as nat;
    if j == p.len() {
        assert(x == t);
        assert(tap_e(p, s, u, j) =~= one(eedge(t, u))) by {
            assert forall|g: Ed| tap_e(p, s, u, j).contains(g) == one(eedge(t, u)).contains(g) by {
                if one(eedge(t, u)).contains(g) { assert(g == eedge(jn(p, s, j), u)); }
                if tap_e(p, s, u, j).contains(g) { let i = choose|i: int| j <= i <= p.len() && g == eedge(#[trigger] jn(p, s, i), u); assert(i == j); }
            }
        }
        lemma_eps_edge(t, u);
        lemma_pows_one(l, 0);
        lemma_wider(tap_e(p, s, u, j), none(), x, u, eword(), tap_n(p, s, t, j, top));
    } else {
        lemma_taps(p, s, t, u, base, top, j + 1, l);
        let c = p[j];
        assert(pc_ok(c, base, top));
        assert(linked(p, s, j));
        assert(c.s == x);
        let y = jn(p, s, j + 1);
        assert(c.t == y);
        let rest = pows(l, 0, Some((n - 1) as nat));
        let n1 = rng(c.lo, c.hi);
        let n2 = tap_n(p, s, t, j + 1, top);
        let e2 = tap_e(p, s, u, j + 1);
        lemma_tap_nodes(p, s, t, u, base, top, j);
        lemma_serial(c.e, n1, e2, n2, x, y, u, l, rest);
        lemma_eps_edge(x, u);
        let e3 = c.e.union(e2);
        let n3 = with(n1, n2, y);
        lemma_par(one(eedge(x, u)), none(), e3, n3, x, u, eword(), cat(l, rest));
        lemma_pows_up(l, n);
        lemma_tap_step(p, s, u, j);
        lemma_wider(one(eedge(x, u)).union(e3), none().union(n3), x, u, pows(l, 0, Some(n)), tap_n(p, s, t, j, top));
    }
}
proof fn lemma_tap_nodes(p: Seq<Pc>, s: NodeIndex, t: NodeIndex, u: NodeIndex, base: int, top: int, j: int)
    requires pieces(p, s, t, base, top), 0 <= j < p.len(), u.i < base, u != s, u != t,
    ensures ({
        let n1 = rng(p[j].lo, p[j].hi);
        let n2 = tap_n(p, s, t, j + 1, top);
        let x = jn(p, s, j);
        &&& apart(n1, n2) && !n2.contains(x) && !n1.contains(u) && x != u
        &&& none().union(with(n1, n2, jn(p, s, j + 1))).subset_of(tap_n(p, s, t, j, top))
        &&& !tap_n(p, s, t, j, top).contains(x) && !tap_n(p, s, t, j, top).contains(u)
    }),
{
    let c = p[j];
    assert(pc_ok(c, base, top));
    assert(linked(p, s, j));
    if j > 0 { assert(pc_ok(p[j - 1], base, top)); assert(inner_pc(p[j - 1])); assert(p[j - 1].hi <= c.m); }
    if j < p.len() - 1 { assert(inner_pc(c)); assert(pc_ok(p[j + 1], base, top)); assert(c.hi <= p[j + 1].m); }
}
// a fragment entered and left by empty edges
pub proof fn lemma_wrap(e: Es, n: Nodes, s: NodeIndex, a: NodeIndex, b: NodeIndex, t: NodeIndex, l: Lang)
    requires frag(e, n, a, b, l), s != a, s != b, t != a, t != b, s != t, !n.contains(s), !n.contains(t),
    ensures frag(one(eedge(s, a)).union(e).union(one(eedge(b, t))), with(with(none(), n, a), none(), b), s, t, l),
{
    lemma_eps_edge(s, a);
    lemma_eps_edge(b, t);
    lemma_serial(one(eedge(s, a)), none(), e, n, s, a, b, eword(), l);
    lemma_cat_eps(l);
    lemma_serial(one(eedge(s, a)).union(e), with(none(), n, a), one(eedge(b, t)), none(), s, b, t, l, eword());
}
// one edge for each of a set of symbols
pub open spec fn tedges(s: NodeIndex, t: NodeIndex, f: ISet<usize>) -> Es { ISet::new(|g: Ed| exists|x: usize| f.contains(x) && g == #[trigger] tedge(s, x, t)) }
pub proof fn lemma_letters(s: NodeIndex, t: NodeIndex, f: ISet<usize>)
    requires s != t,
    ensures frag(tedges(s, t, f), none(), s, t, letters(f)),
{
    let e = tedges(s, t, f);
    let inv = |x: NodeIndex, w: W| if x == s { w == W::empty() } else { x == t && letters(f).contains(w) };
    assert forall|g: Ed, w: W| #[trigger] e.contains(g) && #[trigger] inv(g.s, w) implies inv(g.t, app(w, g.w)) by { }
    lemma_inv(e, s, inv);
    lemma_here(e, s);
    assert forall|w: W| rlang(e, s, t).contains(w) == letters(f).contains(w) by {
        if rch(e, s, w, t) { assert(inv(t, w)); }
        if letters(f).contains(w) {
            assert(e.contains(tedge(s, w[0], t)));
            lemma_step(e, s, W::empty(), tedge(s, w[0], t));
            assert(W::empty().push(w[0]) =~= w);
        }
    }
    assert(rlang(e, s, t) =~= letters(f));
}
pub proof fn lemma_tedges_add(s: NodeIndex, t: NodeIndex, f: ISet<usize>, x: usize)
    ensures tedges(s, t, f).union(one(tedge(s, x, t))) == tedges(s, t, f.insert(x)),
{
    assert forall|g: Ed| tedges(s, t, f).union(one(tedge(s, x, t))).contains(g) == tedges(s, t, f.insert(x)).contains(g) by {
        if tedges(s, t, f).contains(g) { let y = choose|y: usize| f.contains(y) && g == #[trigger] tedge(s, y, t); assert(f.insert(x).contains(y)); }
        if tedges(s, t, f.insert(x)).contains(g) { let y = choose|y: usize| f.insert(x).contains(y) && g == #[trigger] tedge(s, y, t); }
        if g == tedge(s, x, t) { assert(f.insert(x).contains(x)); }
    }
    assert(tedges(s, t, f).union(one(tedge(s, x, t))) =~= tedges(s, t, f.insert(x)));
}
