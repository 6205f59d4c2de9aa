// ---- words, paths, languages ---------------------------------------------------------------------
pub type W = Seq<usize>;
pub type Ed = GEdge<NfaEdge<usize>>;
pub type Es = ISet<Ed>;
pub type Lang = ISet<W>;
pub open spec fn app(w: W, l: NfaEdge<usize>) -> W { match l { NfaEdge::Epsilon => w, NfaEdge::Transition(x) => w.push(x) } }
// k edges lead from a to b and spell w
pub open spec fn path(e: Es, k: nat, a: NodeIndex, w: W, b: NodeIndex) -> bool
    decreases k,
{
    if k == 0 { a == b && w == W::empty() } else {
        exists|g: Ed, w0: W| path(e, (k - 1) as nat, a, w0, g.s) && #[trigger] e.contains(g) && w == #[trigger] app(w0, g.w) && g.t == b
    }
}
pub open spec fn rch(e: Es, a: NodeIndex, w: W, b: NodeIndex) -> bool { exists|k: nat| #[trigger] path(e, k, a, w, b) }
pub open spec fn rlang(e: Es, a: NodeIndex, b: NodeIndex) -> Lang { ISet::new(|w: W| rch(e, a, w, b)) }
pub open spec fn cutat(x: Lang, y: Lang, w: W, i: int) -> bool { 0 <= i <= w.len() && x.contains(w.take(i)) && y.contains(w.skip(i)) }
pub open spec fn cat(x: Lang, y: Lang) -> Lang { ISet::new(|w: W| exists|i: int| #[trigger] cutat(x, y, w, i)) }
pub open spec fn eword() -> Lang { ISet::new(|w: W| w == W::empty()) }
pub open spec fn pw(x: Lang, k: nat) -> Lang
    decreases k,
{ if k == 0 { eword() } else { cat(pw(x, (k - 1) as nat), x) } }
pub open spec fn pows(x: Lang, lo: nat, hi: Option<nat>) -> Lang {
    ISet::new(|w: W| exists|k: nat| lo <= k && (hi is None || k <= hi->0) && #[trigger] pw(x, k).contains(w))
}

pub proof fn lemma_step(e: Es, a: NodeIndex, w: W, g: Ed)
    requires rch(e, a, w, g.s), e.contains(g),
    ensures rch(e, a, app(w, g.w), g.t),
{
    let k = choose|k: nat| #[trigger] path(e, k, a, w, g.s);
    assert(path(e, k + 1, a, app(w, g.w), g.t));
}
pub proof fn lemma_here(e: Es, a: NodeIndex)
    ensures rch(e, a, W::empty(), a),
{ assert(path(e, 0, a, W::empty(), a)); }
pub open spec fn closed(e: Es, inv: spec_fn(NodeIndex, W) -> bool) -> bool {
    forall|g: Ed, w: W| #[trigger] e.contains(g) && #[trigger] inv(g.s, w) ==> inv(g.t, app(w, g.w))
}
// what holds at the start and is kept by every edge holds wherever a path leads
pub proof fn lemma_inv(e: Es, a: NodeIndex, inv: spec_fn(NodeIndex, W) -> bool)
    requires inv(a, W::empty()), closed(e, inv),
    ensures forall|w: W, b: NodeIndex| #[trigger] rch(e, a, w, b) ==> inv(b, w),
{
    assert forall|w: W, b: NodeIndex| #[trigger] rch(e, a, w, b) implies inv(b, w) by {
        let k = choose|k: nat| #[trigger] path(e, k, a, w, b);
        lemma_inv_n(e, a, inv, k, w, b);
    }
}
proof fn lemma_inv_n(e: Es, a: NodeIndex, inv: spec_fn(NodeIndex, W) -> bool, k: nat, w: W, b: NodeIndex)
    requires inv(a, W::empty()), closed(e, inv), path(e, k, a, w, b),
    ensures inv(b, w),
    decreases k,
{
    if k > 0 {
        let (g, w0) = choose|g: Ed, w0: W| path(e, (k - 1) as nat, a, w0, g.s) && #[trigger] e.contains(g) && w == #[trigger] app(w0, g.w) && g.t == b;
        lemma_inv_n(e, a, inv, (k - 1) as nat, w0, g.s);
    }
}
pub proof fn lemma_app(u: W, v: W, l: NfaEdge<usize>)
    ensures u + app(v, l) == app(u + v, l),
{ assert(u + app(v, l) =~= app(u + v, l)); }
pub proof fn lemma_trans(e: Es, a: NodeIndex, u: W, b: NodeIndex, v: W, c: NodeIndex)
    requires rch(e, a, u, b), rch(e, b, v, c),
    ensures rch(e, a, u + v, c),
{
    let inv = |x: NodeIndex, v: W| rch(e, a, u + v, x);
    assert(u + W::empty() =~= u);
    assert forall|g: Ed, w: W| #[trigger] e.contains(g) && #[trigger] inv(g.s, w) implies inv(g.t, app(w, g.w)) by {
        lemma_step(e, a, u + w, g);
        lemma_app(u, w, g.w);
    }
    lemma_inv(e, b, inv);
    assert(inv(c, v));
}
pub proof fn lemma_mono(e: Es, f: Es, a: NodeIndex)
    requires e.subset_of(f),
    ensures forall|w: W, b: NodeIndex| #[trigger] rch(e, a, w, b) ==> rch(f, a, w, b),
{
    let inv = |x: NodeIndex, w: W| rch(f, a, w, x);
    lemma_here(f, a);
    assert forall|g: Ed, w: W| #[trigger] e.contains(g) && #[trigger] inv(g.s, w) implies inv(g.t, app(w, g.w)) by {
        assert(f.contains(g));
        lemma_step(f, a, w, g);
    }
    lemma_inv(e, a, inv);
    assert forall|w: W, b: NodeIndex| #[trigger] rch(e, a, w, b) implies rch(f, a, w, b) by { assert(inv(b, w)); }
}

// ---- algebra of languages ------------------------------------------------------------------------
pub proof fn lemma_cat_in(x: Lang, y: Lang, u: W, v: W)
    requires x.contains(u), y.contains(v),
    ensures cat(x, y).contains(u + v),
{
    assert((u + v).take(u.len() as int) =~= u);
    assert((u + v).skip(u.len() as int) =~= v);
    assert(cutat(x, y, u + v, u.len() as int));
}
pub proof fn lemma_cat_out(x: Lang, y: Lang, w: W) -> (r: (W, W))
    requires cat(x, y).contains(w),
    ensures x.contains(r.0), y.contains(r.1), w == r.0 + r.1,
{
    let i = choose|i: int| #[trigger] cutat(x, y, w, i);
    assert(w.take(i) + w.skip(i) =~= w);
    (w.take(i), w.skip(i))
}
pub proof fn lemma_cat_eps(x: Lang)
    ensures cat(eword(), x) == x, cat(x, eword()) == x,
{
    assert forall|w: W| cat(eword(), x).contains(w) == x.contains(w) by {
        if cat(eword(), x).contains(w) { let (u, v) = lemma_cat_out(eword(), x, w); assert(u + v =~= v); }
        if x.contains(w) { lemma_cat_in(eword(), x, W::empty(), w); assert(W::empty() + w =~= w); }
    }
    assert(cat(eword(), x) =~= x);
    assert forall|w: W| cat(x, eword()).contains(w) == x.contains(w) by {
        if cat(x, eword()).contains(w) { let (u, v) = lemma_cat_out(x, eword(), w); assert(u + v =~= u); }
        if x.contains(w) { lemma_cat_in(x, eword(), w, W::empty()); assert(w + W::empty() =~= w); }
    }
    assert(cat(x, eword()) =~= x);
}
pub proof fn lemma_cat_assoc(x: Lang, y: Lang, z: Lang)
    ensures cat(cat(x, y), z) == cat(x, cat(y, z)),
{
    assert forall|w: W| cat(cat(x, y), z).contains(w) == cat(x, cat(y, z)).contains(w) by {
        if cat(cat(x, y), z).contains(w) {
            let (u, c) = lemma_cat_out(cat(x, y), z, w);
            let (a, b) = lemma_cat_out(x, y, u);
            lemma_cat_in(y, z, b, c);
            lemma_cat_in(x, cat(y, z), a, b + c);
            assert(a + (b + c) =~= w);
        }
        if cat(x, cat(y, z)).contains(w) {
            let (a, u) = lemma_cat_out(x, cat(y, z), w);
            let (b, c) = lemma_cat_out(y, z, u);
            lemma_cat_in(x, y, a, b);
            lemma_cat_in(cat(x, y), z, a + b, c);
            assert((a + b) + c =~= w);
        }
    }
    assert(cat(cat(x, y), z) =~= cat(x, cat(y, z)));
}
pub proof fn lemma_pw_add(x: Lang, a: nat, b: nat)
    ensures cat(pw(x, a), pw(x, b)) == pw(x, a + b),
    decreases b,
{
    if b == 0 { lemma_cat_eps(pw(x, a)); } else {
        lemma_pw_add(x, a, (b - 1) as nat);
        lemma_cat_assoc(pw(x, a), pw(x, (b - 1) as nat), x);
    }
}
pub proof fn lemma_pw1(x: Lang)
    ensures pw(x, 1) == x,
{ reveal_with_fuel(pw, 2); lemma_cat_eps(x); }
pub proof fn lemma_pows_cat(x: Lang, n: nat, lo: nat, hi: Option<nat>)
    ensures cat(pw(x, n), pows(x, lo, hi)) == pows(x, n + lo, match hi { Some(h) => Some(n + h), None => None }),
{
    let h2: Option<nat> = match hi { Some(h) => Some(n + h), None => None };
    assert forall|w: W| cat(pw(x, n), pows(x, lo, hi)).contains(w) == pows(x, n + lo, h2).contains(w) by {
        if cat(pw(x, n), pows(x, lo, hi)).contains(w) {
            let (u, v) = lemma_cat_out(pw(x, n), pows(x, lo, hi), w);
            let k = choose|k: nat| lo <= k && (hi is None || k <= hi->0) && #[trigger] pw(x, k).contains(v);
            lemma_cat_in(pw(x, n), pw(x, k), u, v);
            lemma_pw_add(x, n, k);
        }
        if pows(x, n + lo, h2).contains(w) {
            let k = choose|k: nat| n + lo <= k && (h2 is None || k <= h2->0) && #[trigger] pw(x, k).contains(w);
            let m = (k - n) as nat;
            lemma_pw_add(x, n, m);
            let (u, v) = lemma_cat_out(pw(x, n), pw(x, m), w);
            assert(pows(x, lo, hi).contains(v));
            lemma_cat_in(pw(x, n), pows(x, lo, hi), u, v);
        }
    }
    assert(cat(pw(x, n), pows(x, lo, hi)) =~= pows(x, n + lo, h2));
}
pub proof fn lemma_pows_one(x: Lang, n: nat)
    ensures pows(x, n, Some(n)) == pw(x, n),
{ assert(pows(x, n, Some(n)) =~= pw(x, n)); }

// ---- fragments -----------------------------------------------------------------------------------
pub open spec fn inside(e: Es, n: Nodes, s: NodeIndex, t: NodeIndex) -> bool {
    forall|g: Ed| #[trigger] e.contains(g) ==> (g.s == s || n.contains(g.s)) && (g.t == t || n.contains(g.t))
}
// edges e, with inner nodes n, lead from s to t exactly by the words of l; nothing leads back into s or on from t
pub open spec fn frag(e: Es, n: Nodes, s: NodeIndex, t: NodeIndex, l: Lang) -> bool {
    s != t && !n.contains(s) && !n.contains(t) && inside(e, n, s, t) && rlang(e, s, t) == l
}
pub proof fn lemma_wider(e: Es, n: Nodes, s: NodeIndex, t: NodeIndex, l: Lang, n2: Nodes)
    requires frag(e, n, s, t, l), n.subset_of(n2), !n2.contains(s), !n2.contains(t),
    ensures frag(e, n2, s, t, l),
{ }
pub open spec fn one<E>(g: GEdge<E>) -> ISet<GEdge<E>> { ISet::new(|h: GEdge<E>| h == g) }
pub open spec fn none() -> Nodes { ISet::new(|x: NodeIndex| false) }
pub open spec fn eedge(a: NodeIndex, b: NodeIndex) -> Ed { GEdge { s: a, t: b, w: NfaEdge::Epsilon } }
pub open spec fn tedge(a: NodeIndex, x: usize, b: NodeIndex) -> Ed { GEdge { s: a, t: b, w: NfaEdge::Transition(x) } }
pub open spec fn word1(w: W) -> Lang { ISet::new(|v: W| v == w) }
pub proof fn lemma_one(g: Ed)
    requires g.s != g.t,
    ensures frag(one(g), none(), g.s, g.t, word1(app(W::empty(), g.w))),
{
    let e = one(g);
    lemma_here(e, g.s);
    assert(e.contains(g));
    lemma_step(e, g.s, W::empty(), g);
    let inv = |x: NodeIndex, w: W| if x == g.s { w == W::empty() } else { x == g.t && w == app(W::empty(), g.w) };
    lemma_inv(e, g.s, inv);
    assert forall|w: W| rlang(e, g.s, g.t).contains(w) == word1(app(W::empty(), g.w)).contains(w) by {
        if rch(e, g.s, w, g.t) { assert(inv(g.t, w)); }
    }
    assert(rlang(e, g.s, g.t) =~= word1(app(W::empty(), g.w)));
}
pub proof fn lemma_eps_edge(a: NodeIndex, b: NodeIndex)
    requires a != b,
    ensures frag(one(eedge(a, b)), none(), a, b, eword()),
{ lemma_one(eedge(a, b)); assert(word1(W::empty()) =~= eword()); }
pub proof fn lemma_no_edge(s: NodeIndex, t: NodeIndex)
    requires s != t,
    ensures frag(ISet::<Ed>::new(|g: Ed| false), none(), s, t, ISet::<W>::new(|w: W| false)),
{
    let e = ISet::<Ed>::new(|g: Ed| false);
    let inv = |x: NodeIndex, w: W| x == s;
    lemma_inv(e, s, inv);
    assert forall|w: W| !rlang(e, s, t).contains(w) by { if rch(e, s, w, t) { assert(inv(t, w)); } }
    assert(rlang(e, s, t) =~= ISet::<W>::new(|w: W| false));
}
pub open spec fn with(n: Nodes, m: Nodes, x: NodeIndex) -> Nodes { ISet::new(|a: NodeIndex| n.contains(a) || m.contains(a) || a == x) }
pub open spec fn apart(n: Nodes, m: Nodes) -> bool { forall|a: NodeIndex| !(#[trigger] n.contains(a) && m.contains(a)) }
pub proof fn lemma_serial(e1: Es, n1: Nodes, e2: Es, n2: Nodes, s: NodeIndex, m: NodeIndex, t: NodeIndex, l1: Lang, l2: Lang)
    requires frag(e1, n1, s, m, l1), frag(e2, n2, m, t, l2), apart(n1, n2), !n2.contains(s), !n1.contains(t), s != t,
    ensures frag(e1.union(e2), with(n1, n2, m), s, t, cat(l1, l2)),
{
    let e = e1.union(e2);
    let inv = |x: NodeIndex, w: W|
        if x == s || n1.contains(x) || x == m { rch(e1, s, w, x) } else { (n2.contains(x) || x == t) && cat(l1, rlang(e2, m, x)).contains(w) };
    lemma_here(e1, s);
    assert forall|g: Ed, w: W| #[trigger] e.contains(g) && #[trigger] inv(g.s, w) implies inv(g.t, app(w, g.w)) by {
        if e1.contains(g) {
            assert(g.s == s || n1.contains(g.s));
            assert(g.t == m || n1.contains(g.t));
            lemma_step(e1, s, w, g);
        } else {
            assert(e2.contains(g));
            assert(g.s == m || n2.contains(g.s));
            assert(g.t == t || n2.contains(g.t));
            assert(g.t != s && !n1.contains(g.t) && g.t != m);
            if g.s == m {
                assert(rlang(e1, s, m).contains(w));
                lemma_here(e2, m);
                lemma_step(e2, m, W::empty(), g);
                lemma_cat_in(l1, rlang(e2, m, g.t), w, app(W::empty(), g.w));
                lemma_app(w, W::empty(), g.w);
                assert(w + W::empty() =~= w);
            } else {
                let (u, v) = lemma_cat_out(l1, rlang(e2, m, g.s), w);
                lemma_step(e2, m, v, g);
                lemma_cat_in(l1, rlang(e2, m, g.t), u, app(v, g.w));
                lemma_app(u, v, g.w);
            }
        }
    }
    lemma_inv(e, s, inv);
    lemma_mono(e1, e, s);
    lemma_mono(e2, e, m);
    assert forall|w: W| rlang(e, s, t).contains(w) == cat(l1, l2).contains(w) by {
        if rch(e, s, w, t) { assert(inv(t, w)); }
        if cat(l1, l2).contains(w) {
            let (u, v) = lemma_cat_out(l1, l2, w);
            assert(rlang(e1, s, m).contains(u) && rlang(e2, m, t).contains(v));
            lemma_trans(e, s, u, m, v, t);
        }
    }
    assert(rlang(e, s, t) =~= cat(l1, l2));
}
pub proof fn lemma_par(e1: Es, n1: Nodes, e2: Es, n2: Nodes, s: NodeIndex, t: NodeIndex, l1: Lang, l2: Lang)
    requires frag(e1, n1, s, t, l1), frag(e2, n2, s, t, l2), apart(n1, n2),
    ensures frag(e1.union(e2), n1.union(n2), s, t, l1.union(l2)),
{
    let e = e1.union(e2);
    let inv = |x: NodeIndex, w: W|
        if x == s { w == W::empty() } else if n1.contains(x) { rch(e1, s, w, x) } else if n2.contains(x) { rch(e2, s, w, x) } else { x == t && (rch(e1, s, w, x) || rch(e2, s, w, x)) };
    lemma_here(e1, s);
    lemma_here(e2, s);
    assert forall|g: Ed, w: W| #[trigger] e.contains(g) && #[trigger] inv(g.s, w) implies inv(g.t, app(w, g.w)) by {
        if e1.contains(g) {
            assert(g.s == s || n1.contains(g.s));
            assert(g.t == t || n1.contains(g.t));
            lemma_step(e1, s, w, g);
        } else {
            assert(e2.contains(g));
            assert(g.s == s || n2.contains(g.s));
            assert(g.t == t || n2.contains(g.t));
            lemma_step(e2, s, w, g);
        }
    }
    lemma_inv(e, s, inv);
    lemma_mono(e1, e, s);
    lemma_mono(e2, e, s);
    assert forall|w: W| rlang(e, s, t).contains(w) == l1.union(l2).contains(w) by {
        if rch(e, s, w, t) { assert(inv(t, w)); assert(rlang(e1, s, t).contains(w) || rlang(e2, s, t).contains(w)); }
        if l1.contains(w) { assert(rlang(e1, s, t).contains(w)); }
        if l2.contains(w) { assert(rlang(e2, s, t).contains(w)); }
    }
    assert(rlang(e, s, t) =~= l1.union(l2));
}
// p leads from s to a, f from a to b; from b one may go back to a or on to t
pub open spec fn looped(ep: Es, ef: Es, a: NodeIndex, b: NodeIndex, t: NodeIndex) -> Es {
    ISet::new(|g: Ed| ep.contains(g) || ef.contains(g) || g == eedge(b, a) || g == eedge(b, t))
}
pub open spec fn loop_nodes(np: Nodes, nf: Nodes, a: NodeIndex, b: NodeIndex) -> Nodes {
    ISet::new(|x: NodeIndex| np.contains(x) || nf.contains(x) || x == a || x == b)
}
pub proof fn lemma_loop(ep: Es, np: Nodes, ef: Es, nf: Nodes, s: NodeIndex, a: NodeIndex, b: NodeIndex, t: NodeIndex, lp: Lang, l: Lang)
    requires
        frag(ep, np, s, a, lp), frag(ef, nf, a, b, l), apart(np, nf), !np.contains(b), !np.contains(t), !nf.contains(s), !nf.contains(t),
        s != b, t != s, t != a, t != b,
    ensures frag(looped(ep, ef, a, b, t), loop_nodes(np, nf, a, b), s, t, cat(lp, pows(l, 1, None))),
{
    let e = looped(ep, ef, a, b, t);
    let star = cat(lp, pows(l, 0, None));
    let plus = cat(lp, pows(l, 1, None));
    let inv = |x: NodeIndex, w: W|
        if x == s || np.contains(x) { rch(ep, s, w, x) } else if x == a { star.contains(w) } else if nf.contains(x) { cat(star, rlang(ef, a, x)).contains(w) } else { (x == b || x == t) && plus.contains(w) };
    lemma_here(ep, s);
    assert(pw(l, 0).contains(W::empty()));
    // star . l is plus
    assert forall|w: W| #[trigger] cat(star, l).contains(w) implies plus.contains(w) by {
        let (u, v) = lemma_cat_out(star, l, w);
        let (u1, u2) = lemma_cat_out(lp, pows(l, 0, None), u);
        let k = choose|k: nat| #[trigger] pw(l, k).contains(u2);
        lemma_cat_in(pw(l, k), l, u2, v);
        assert(pw(l, k + 1).contains(u2 + v));
        lemma_cat_in(lp, pows(l, 1, None), u1, u2 + v);
        assert(u1 + (u2 + v) =~= w);
    }
    assert forall|w: W| #[trigger] plus.contains(w) implies star.contains(w) by {
        let (u1, u2) = lemma_cat_out(lp, pows(l, 1, None), w);
        assert(pows(l, 0, None).contains(u2));
        lemma_cat_in(lp, pows(l, 0, None), u1, u2);
    }
    assert forall|g: Ed, w: W| #[trigger] e.contains(g) && #[trigger] inv(g.s, w) implies inv(g.t, app(w, g.w)) by {
        if ep.contains(g) {
            assert(g.s == s || np.contains(g.s));
            assert(g.t == a || np.contains(g.t));
            lemma_step(ep, s, w, g);
            if g.t == a {
                let w2 = app(w, g.w);
                assert(rlang(ep, s, a).contains(w2));
                assert(pows(l, 0, None).contains(W::empty()));
                lemma_cat_in(lp, pows(l, 0, None), w2, W::empty());
                assert(w2 + W::empty() =~= w2);
            }
        } else if ef.contains(g) {
            assert(g.s == a || nf.contains(g.s));
            assert(g.t == b || nf.contains(g.t));
            let (u, v): (W, W) = if g.s == a { lemma_here(ef, a); assert(w + W::empty() =~= w); (w, W::empty()) } else { lemma_cat_out(star, rlang(ef, a, g.s), w) };
            assert(star.contains(u) && rch(ef, a, v, g.s) && w == u + v);
            lemma_step(ef, a, v, g);
            lemma_app(u, v, g.w);
            let y = rlang(ef, a, g.t);
            assert(y.contains(app(v, g.w)));
            lemma_cat_in(star, y, u, app(v, g.w));
        } else if g == eedge(b, a) {
        } else {
            assert(g == eedge(b, t));
        }
    }
    lemma_inv(e, s, inv);
    lemma_mono(ep, e, s);
    lemma_mono(ef, e, a);
    assert forall|w: W| rlang(e, s, t).contains(w) == plus.contains(w) by {
        if rch(e, s, w, t) { assert(inv(t, w)); }
        if plus.contains(w) {
            let (u, v) = lemma_cat_out(lp, pows(l, 1, None), w);
            assert(rlang(ep, s, a).contains(u));
            let k = choose|k: nat| 1 <= k && #[trigger] pw(l, k).contains(v);
            lemma_around(e, ef, s, a, b, l, u, k, v);
            assert(e.contains(eedge(b, t)));
            lemma_step(e, s, u + v, eedge(b, t));
        }
    }
    assert(rlang(e, s, t) =~= plus);
}
proof fn lemma_around(e: Es, ef: Es, s: NodeIndex, a: NodeIndex, b: NodeIndex, l: Lang, u: W, k: nat, v: W)
    requires ef.subset_of(e), rlang(ef, a, b) == l, rch(e, s, u, a), 1 <= k, pw(l, k).contains(v), e.contains(eedge(b, a)),
    ensures rch(e, s, u + v, b),
    decreases k,
{
    let (v1, v2) = lemma_cat_out(pw(l, (k - 1) as nat), l, v);
    lemma_mono(ef, e, a);
    assert(rlang(ef, a, b).contains(v2));
    if k == 1 {
        assert(v1 + v2 =~= v2);
        lemma_trans(e, s, u, a, v2, b);
    } else {
        lemma_around(e, ef, s, a, b, l, u, (k - 1) as nat, v1);
        lemma_step(e, s, u + v1, eedge(b, a));
        lemma_trans(e, s, u + v1, a, v2, b);
        assert((u + v1) + v2 =~= u + v);
    }
}
