// ---- the closure of an item, relative to the tables the construction is given ---------------------
pub type Prods<'g, 'r> = Map<Symbol, Vec<&'g Rule<'r>>>;
pub open spec fn prod(rm: Prods, a: Symbol, r: &Rule) -> bool { rm.contains_key(a) && rm[a]@.contains(r) }
// rule r, the i-th of the list, belongs to nonterminal a
pub open spec fn rule_at(rules: Seq<Rule>, i: int, a: Symbol, r: &Rule) -> bool { rules[i] == *r && r.lhs is Some && r.l() == a }
pub open spec fn prods_of(rules: Seq<Rule>, n: int, rm: Prods) -> bool {
    forall|a: Symbol, r: &Rule| #[trigger] prod(rm, a, r) <==> exists|i: int| 0 <= i < n && #[trigger] rule_at(rules, i, a, r)
}
pub open spec fn prods_ok<const N: usize>(rm: Prods, f: Sets) -> bool {
    forall|a: Symbol, r: &Rule| #[trigger] prod(rm, a, r) ==> r.rhs@.len() <= 255 && (N == 1 ==> rhs_ok(f, r.rhs@))
}
// the lookaheads an item hands to the productions of the nonterminal after its dot
pub open spec fn la_of<const N: usize>(f: Sets, a: Item<N>, la: [Symbol; N]) -> bool {
    N == 0 || fseq(f, a.beyond()).contains(la@[0])
}
pub proof fn lemma_beyond<const N: usize>(f: Sets, a: Item<N>)
    requires item_ok(f, a), N == 1, a.after() is Some,
    ensures
        nts_in(f, a.beyond()),
        a.d() + 1 < a.rs().len() ==> a.beyond()[0] == a.rs()[a.d() + 1],
        a.d() + 1 < a.rs().len() && a.rs()[a.d() + 1] is Terminal ==> fseq(f, a.beyond()) == Set::<Symbol>::empty().insert(a.rs()[a.d() + 1]),
        a.d() + 1 >= a.rs().len() ==> a.beyond() == seq![a.lookahead@[0]] && fseq(f, a.beyond()) == Set::<Symbol>::empty().insert(a.lookahead@[0]),
        a.d() + 1 < a.rs().len() ==> a.rs()[a.d() + 1] != Symbol::End,
{
    let s = a.rs().skip(a.d() + 1);
    assert forall|k: int| 0 <= k < a.beyond().len() && is_nt(#[trigger] a.beyond()[k]) implies f.contains_key(a.beyond()[k]) by {
        if k < s.len() { assert(a.beyond()[k] == a.rs()[k + a.d() + 1]); }
    }
    if a.d() + 1 >= a.rs().len() { assert(a.beyond() =~= seq![a.lookahead@[0]]); }
}
pub open spec fn sets_ok(f: Sets) -> bool {
    forall|a: Symbol, x: Symbol| f.contains_key(a) && #[trigger] f[a].contains(x) ==> is_t(x) || x == Symbol::Epsilon
}
// before a terminal, only terminals come first
pub proof fn lemma_fseq_t(f: Sets, s: Seq<Symbol>, t: Symbol, x: Symbol)
    requires sets_ok(f), nts_in(f, s), is_t(t), fseq(f, s + seq![t]).contains(x),
    ensures is_t(x),
    decreases s.len(),
{
    let u = s + seq![t];
    if s.len() == 0 { assert(u =~= seq![t]); }
    else {
        assert(u[0] == s[0]);
        assert(u.skip(1) =~= s.skip(1) + seq![t]);
        assert forall|k: int| 0 <= k < s.skip(1).len() && is_nt(#[trigger] s.skip(1)[k]) implies f.contains_key(s.skip(1)[k]) by { assert(s.skip(1)[k] == s[k + 1]); }
        if fseq(f, u.skip(1)).contains(x) { lemma_fseq_t(f, s.skip(1), t, x); }
    }
}
pub proof fn lemma_step_ok<const N: usize>(rm: Prods, f: Sets, a: Item<N>, b: Item<N>)
    requires sets_ok(f), prods_ok::<N>(rm, f), item_ok(f, a), step(rm, f, a, b),
    ensures item_ok(f, b),
{
    assert(prod(rm, a.after()->0, b.rule.0));
    lemma_norm(b.rs(), 0);
    if N == 1 {
        let s = a.rs().skip(a.d() + 1);
        assert forall|k: int| 0 <= k < s.len() && is_nt(#[trigger] s[k]) implies f.contains_key(s[k]) by { assert(s[k] == a.rs()[k + a.d() + 1]); }
        lemma_fseq_t(f, s, a.lookahead@[0], b.lookahead@[0]);
    }
}
// b is an item a requires
pub open spec fn step<const N: usize>(rm: Prods, f: Sets, a: Item<N>, b: Item<N>) -> bool {
    a.after() is Some && prod(rm, a.after()->0, b.rule.0) && b.d() == norm(b.rs(), 0) && la_of(f, a, b.lookahead)
}
pub open spec fn reach<const N: usize>(rm: Prods, f: Sets, k: nat, a: Item<N>, b: Item<N>) -> bool
    decreases k,
{ if k == 0 { a == b } else { exists|c: Item<N>| reach(rm, f, (k - 1) as nat, a, c) && #[trigger] step(rm, f, c, b) } }
pub open spec fn clo<const N: usize>(rm: Prods, f: Sets, a: Item<N>, b: Item<N>) -> bool { exists|k: nat| #[trigger] reach(rm, f, k, a, b) }
// a set closed under step that contains a contains its closure
pub open spec fn closed_in<const N: usize>(rm: Prods, f: Sets, s: Set<Item<N>>, a: Item<N>) -> bool {
    forall|b: Item<N>| #[trigger] step(rm, f, a, b) ==> s.contains(b)
}
pub proof fn lemma_clo_in<const N: usize>(rm: Prods, f: Sets, s: Set<Item<N>>, k: nat, a: Item<N>, b: Item<N>)
    requires s.contains(a), forall|x: Item<N>| s.contains(x) ==> #[trigger] closed_in(rm, f, s, x), reach(rm, f, k, a, b),
    ensures s.contains(b),
    decreases k,
{
    if k > 0 {
        let c = choose|c: Item<N>| reach(rm, f, (k - 1) as nat, a, c) && #[trigger] step(rm, f, c, b);
        lemma_clo_in(rm, f, s, (k - 1) as nat, a, c);
        assert(closed_in(rm, f, s, c));
    }
}
pub proof fn lemma_clo_step<const N: usize>(rm: Prods, f: Sets, a: Item<N>, c: Item<N>, b: Item<N>)
    requires clo(rm, f, a, c), step(rm, f, c, b),
    ensures clo(rm, f, a, b),
{
    let k = choose|k: nat| #[trigger] reach(rm, f, k, a, c);
    assert(reach(rm, f, k + 1, a, b));
}
pub proof fn lemma_push_has<T>(s: Seq<T>, x: T)
    ensures forall|y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x,
{
    assert forall|y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
        if y == x { assert(s.push(x)[s.len() as int] == x); }
    }
}
pub proof fn lemma_pop_has<T>(s: Seq<T>)
    requires s.len() > 0,
    ensures forall|y: T| #[trigger] s.contains(y) <==> s.drop_last().contains(y) || y == s.last(),
{ assert(s.drop_last().push(s.last()) =~= s); lemma_push_has(s.drop_last(), s.last()); }
pub proof fn lemma_clo_self<const N: usize>(rm: Prods, f: Sets, a: Item<N>)
    ensures clo(rm, f, a, a),
{ assert(reach(rm, f, 0, a, a)); }
pub open spec fn is_clo<const N: usize>(rm: Prods, f: Sets, a: Item<N>, s: Set<Item<N>>) -> bool {
    forall|b: Item<N>| #[trigger] s.contains(b) <==> clo(rm, f, a, b)
}
// every closure remembered is the closure of its item
pub open spec fn cache_ok<'g, 'r, const N: usize>(rm: Prods, f: Sets, c: Map<Item<'g, 'r, N>, BTreeSet<Item<'g, 'r, N>>>) -> bool {
    forall|i: Item<N>| #[trigger] c.contains_key(i) ==> is_clo(rm, f, i, c[i]@)
}

pub open spec fn la_list<const N: usize>(v: Seq<[Symbol; N]>, o: Seq<Symbol>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@[0] == o[i]
}

//@fn lapex-parser/src/lr_parser/mod.rs determine_lookaheads_to_expand
//@spec
    requires item_ok(fv(first_sets@), *item), *top == *item, item.after() is Some,
    ensures forall|la: [Symbol; N]| #[trigger] r@.contains(la) <==> la_of(fv(first_sets@), *item, la),
//@at start
    let ghost f = fv(first_sets@);
    let ghost a = *item;
    let ghost mut fs = Set::<Symbol>::empty();
    proof {
        if N == 1 { lemma_beyond(f, a); fs = fseq(f, a.beyond()); }
    }
//@loop 0
        invariant
            N == 1,
            it0.pos() <= it0.seq().len(), it0.seq() == item.beyond(),
            acc0@.len() == it0.pos(),
            forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == it0.seq()[i],
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 after
    proof { assert(acc0@ =~= item.beyond()); }
//@loop 1
        invariant
            N == 1,
            it1.pos() <= it1.seq().len(), it1.seq().len() == vx_order(fs).len(),
            forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == vx_order(fs)[i],
            acc1@.len() == it1.pos(),
            la_list::<N>(acc1@, vx_order(fs)),
        decreases it1.seq().len() - it1.pos(),
//@at end
    proof {
        assert forall|la: [Symbol; N]| #[trigger] vx_ret@.contains(la) <==> la_of(f, a, la) by {
            if N == 0 { assert(vx_ret@[0] =~= la); }
            else {
                if fs.contains(la@[0]) {
                    assert(vx_order(fs).contains(la@[0]));
                    let j = choose|j: int| 0 <= j < vx_order(fs).len() && vx_order(fs)[j] == la@[0];
                    if vx_ret@.len() == 1 { assert(vx_ret@[0]@[0] == la@[0]); } else { assert(vx_ret@[j]@[0] == la@[0]); }
                    assert(exists|i: int| 0 <= i < vx_ret@.len() && (#[trigger] vx_ret@[i])@[0] == la@[0]);
                    let i = choose|i: int| 0 <= i < vx_ret@.len() && (#[trigger] vx_ret@[i])@[0] == la@[0];
                    assert(vx_ret@[i] =~= la);
                }
            }
        }
    }
//@end
// ---- termination: the items a closure can hold ------------------------------------------------------
pub open spec fn mk<'g, 'r, const N: usize>(r: &'g Rule<'r>, x: Symbol) -> Item<'g, 'r, N> {
    Item { rule: RuleRef(r), dot_position: norm(r.rhs@, 0) as u8, lookahead: [x; N] }
}
pub open spec fn all_rules<'g, 'r>(rm: Prods<'g, 'r>, o: Seq<Symbol>) -> Seq<&'g Rule<'r>>
    decreases o.len(),
{ if o.len() == 0 { Seq::empty() } else { all_rules(rm, o.drop_last()) + rm[o.last()]@ } }
pub proof fn lemma_all_rules(rm: Prods, o: Seq<Symbol>, a: Symbol, r: &Rule)
    requires o.contains(a), rm[a]@.contains(r),
    ensures all_rules(rm, o).contains(r),
    decreases o.len(),
{
    let p = all_rules(rm, o.drop_last());
    let q = rm[o.last()]@;
    if o.last() == a {
        let i = choose|i: int| 0 <= i < q.len() && q[i] == r;
        assert((p + q)[p.len() + i] == r);
    } else {
        let j = choose|j: int| 0 <= j < o.len() && o[j] == a;
        assert(o.drop_last()[j] == a);
        lemma_all_rules(rm, o.drop_last(), a, r);
        let i = choose|i: int| 0 <= i < p.len() && p[i] == r;
        assert((p + q)[i] == r);
    }
}
pub open spec fn rule_syms(rs: Seq<&Rule>) -> Set<Symbol>
    decreases rs.len(),
{ if rs.len() == 0 { Set::<Symbol>::empty() } else { rule_syms(rs.drop_last()).union(rs.last().rhs@.to_set()) } }
pub proof fn lemma_rule_syms(rs: Seq<&Rule>, i: int, k: int)
    requires 0 <= i < rs.len(), 0 <= k < rs[i].rhs@.len(),
    ensures rule_syms(rs).contains(rs[i].rhs@[k]),
    decreases rs.len(),
{
    if i < rs.len() - 1 { assert(rs.drop_last()[i] == rs[i]); lemma_rule_syms(rs.drop_last(), i, k); }
    else { assert(rs.last().rhs@.to_set().contains(rs[i].rhs@[k])); }
}
pub open spec fn set_syms(f: Sets, o: Seq<Symbol>) -> Set<Symbol>
    decreases o.len(),
{ if o.len() == 0 { Set::<Symbol>::empty() } else { set_syms(f, o.drop_last()).union(f[o.last()]) } }
pub proof fn lemma_set_syms(f: Sets, o: Seq<Symbol>, a: Symbol, x: Symbol)
    requires o.contains(a), f[a].contains(x),
    ensures set_syms(f, o).contains(x),
    decreases o.len(),
{
    if o.last() != a {
        let j = choose|j: int| 0 <= j < o.len() && o[j] == a;
        assert(o.drop_last()[j] == a);
        lemma_set_syms(f, o.drop_last(), a, x);
    }
}
pub open spec fn rules_of<'g, 'r>(rm: Prods<'g, 'r>) -> Seq<&'g Rule<'r>> { all_rules(rm, vx_order(rm.dom())) }
pub open spec fn las<const N: usize>(rm: Prods, f: Sets, root: Item<N>) -> Set<Symbol> {
    rule_syms(rules_of(rm)).union(root.rs().to_set()).union(set_syms(f, vx_order(f.dom()))).insert(if N == 1 { root.lookahead@[0] } else { Symbol::End })
}
pub open spec fn row<'g, 'r, const N: usize>(r: &'g Rule<'r>, l: Set<Symbol>) -> Set<Item<'g, 'r, N>> { l.map(|x: Symbol| mk::<N>(r, x)) }
pub open spec fn uni_rows<'g, 'r, const N: usize>(rs: Seq<&'g Rule<'r>>, l: Set<Symbol>) -> Set<Item<'g, 'r, N>>
    decreases rs.len(),
{ if rs.len() == 0 { Set::empty() } else { uni_rows::<N>(rs.drop_last(), l).union(row::<N>(rs.last(), l)) } }
pub open spec fn uni<'g, 'r, const N: usize>(rm: Prods<'g, 'r>, f: Sets, root: Item<'g, 'r, N>) -> Set<Item<'g, 'r, N>> {
    uni_rows::<N>(rules_of(rm), las(rm, f, root)).insert(root)
}
pub proof fn lemma_uni_rows<const N: usize>(rs: Seq<&Rule>, l: Set<Symbol>, i: int, x: Symbol)
    requires 0 <= i < rs.len(), l.contains(x),
    ensures uni_rows::<N>(rs, l).contains(mk::<N>(rs[i], x)),
    decreases rs.len(),
{
    if i < rs.len() - 1 { assert(rs.drop_last()[i] == rs[i]); lemma_uni_rows::<N>(rs.drop_last(), l, i, x); }
    else { assert(row::<N>(rs[i], l).contains(mk::<N>(rs[i], x))); }
}
// where a lookahead can come from
pub proof fn lemma_fseq_in(f: Sets, s: Seq<Symbol>, l: Set<Symbol>, x: Symbol)
    requires nts_in(f, s), fseq(f, s).contains(x),
        forall|k: int| 0 <= k < s.len() ==> l.contains(#[trigger] s[k]),
        forall|a: Symbol, y: Symbol| f.contains_key(a) && #[trigger] f[a].contains(y) ==> l.contains(y),
    ensures l.contains(x),
    decreases s.len(),
{
    assert forall|k: int| 0 <= k < s.skip(1).len() && is_nt(#[trigger] s.skip(1)[k]) implies f.contains_key(s.skip(1)[k]) by { assert(s.skip(1)[k] == s[k + 1]); }
    assert forall|k: int| 0 <= k < s.skip(1).len() implies l.contains(#[trigger] s.skip(1)[k]) by { assert(s.skip(1)[k] == s[k + 1]); }
    assert(l.contains(s[0]));
    if s.len() > 1 && fseq(f, s.skip(1)).contains(x) { lemma_fseq_in(f, s.skip(1), l, x); }
}
pub open spec fn in_uni<const N: usize>(rm: Prods, f: Sets, root: Item<N>, a: Item<N>) -> bool {
    (a.rule == root.rule || rules_of(rm).contains(a.rule.0)) && (N == 1 ==> las(rm, f, root).contains(a.lookahead@[0]))
}
pub proof fn lemma_uni_step<const N: usize>(rm: Prods, f: Sets, root: Item<N>, a: Item<N>, b: Item<N>)
    requires sets_ok(f), prods_ok::<N>(rm, f), item_ok(f, a), step(rm, f, a, b), in_uni(rm, f, root, a),
    ensures in_uni(rm, f, root, b), uni(rm, f, root).contains(b),
{
    let l = las(rm, f, root);
    let rs = rules_of(rm);
    let x = a.after()->0;
    assert(prod(rm, x, b.rule.0));
    lemma_norm(b.rs(), 0);
    assert(vx_order(rm.dom()).contains(x));
    lemma_all_rules(rm, vx_order(rm.dom()), x, b.rule.0);
    let i = choose|i: int| 0 <= i < rs.len() && rs[i] == b.rule.0;
    let y = if N == 1 { b.lookahead@[0] } else { Symbol::End };
    if N == 1 {
        lemma_beyond(f, a);
        let s = a.beyond();
        assert forall|k: int| 0 <= k < s.len() implies l.contains(#[trigger] s[k]) by {
            if k < s.len() - 1 {
                let q = k + a.d() + 1;
                assert(s[k] == a.rs()[q]);
                if a.rule == root.rule { assert(root.rs().to_set().contains(root.rs()[q])); }
                else {
                    let j = choose|j: int| 0 <= j < rs.len() && rs[j] == a.rule.0;
                    lemma_rule_syms(rs, j, q);
                }
            }
        }
        assert forall|c: Symbol, z: Symbol| f.contains_key(c) && #[trigger] f[c].contains(z) implies l.contains(z) by {
            assert(vx_order(f.dom()).contains(c));
            lemma_set_syms(f, vx_order(f.dom()), c, z);
        }
        lemma_fseq_in(f, s, l, y);
    }
    lemma_uni_rows::<N>(rs, l, i, y);
    assert(b.lookahead =~= [y; N]);
    assert(b == mk::<N>(rs[i], y));
}
pub proof fn lemma_uni_clo<const N: usize>(rm: Prods, f: Sets, k: nat, root: Item<N>, b: Item<N>)
    requires sets_ok(f), prods_ok::<N>(rm, f), item_ok(f, root), reach(rm, f, k, root, b),
    ensures in_uni(rm, f, root, b), uni(rm, f, root).contains(b), item_ok(f, b),
    decreases k,
{
    if k > 0 {
        let c = choose|c: Item<N>| reach(rm, f, (k - 1) as nat, root, c) && #[trigger] step(rm, f, c, b);
        lemma_uni_clo(rm, f, (k - 1) as nat, root, c);
        lemma_uni_step(rm, f, root, c, b);
        lemma_step_ok(rm, f, c, b);
    }
}
pub proof fn lemma_in_uni<const N: usize>(rm: Prods, f: Sets, root: Item<N>, s: Set<Item<N>>)
    requires sets_ok(f), prods_ok::<N>(rm, f), item_ok(f, root), forall|b: Item<N>| #[trigger] s.contains(b) ==> clo(rm, f, root, b),
    ensures s.len() <= uni(rm, f, root).len(),
{
    assert forall|b: Item<N>| #[trigger] s.contains(b) implies uni(rm, f, root).contains(b) by {
        let k = choose|k: nat| #[trigger] reach(rm, f, k, root, b);
        lemma_uni_clo(rm, f, k, root, b);
    }
    vstd::set_lib::lemma_len_subset(s, uni(rm, f, root));
}

// work list: everything found is required, and everything found but the item being expanded is either
// waiting or has all the items it requires
pub open spec fn wl_ok<const N: usize>(rm: Prods, f: Sets, root: Item<N>, cur: Item<N>, s: Set<Item<N>>, t: Seq<Item<N>>) -> bool {
    &&& s.contains(root) && s.contains(cur)
    &&& forall|i: int| 0 <= i < t.len() ==> s.contains(#[trigger] t[i])
    &&& forall|x: Item<N>| #[trigger] s.contains(x) ==> clo(rm, f, root, x) && item_ok(f, x)
    &&& forall|x: Item<N>| #[trigger] s.contains(x) ==> t.contains(x) || x == cur || closed_in(rm, f, s, x)
}

//@fn lapex-parser/src/lr_parser/mod.rs expand_item
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@spec
    requires sets_ok(fv(first_sets@)), item_ok(fv(first_sets@), item), prods_ok::<N>(rules_map@, fv(first_sets@)), cache_ok(rules_map@, fv(first_sets@), old(item_set_cache)@),
    ensures is_clo(rules_map@, fv(first_sets@), item, r@), cache_ok(rules_map@, fv(first_sets@), final(item_set_cache)@),
//@at start
    let ghost f = fv(first_sets@);
    let ghost rm = rules_map@;
    let ghost root = item;
    let ghost c0 = item_set_cache@;
//@at loop 0 before
    proof { lemma_clo_self(rm, f, root); assert(to_expand@[0] == root); }
//@loop 0
        invariant
            prods_ok::<N>(rm, f), cache_ok(rm, f, c0), item_set_cache@ == c0,
            item_set@.contains(root),
            forall|i: int| 0 <= i < to_expand@.len() ==> item_set@.contains(#[trigger] to_expand@[i]),
            forall|x: Item<N>| #[trigger] item_set@.contains(x) ==> clo(rm, f, root, x) && item_ok(f, x),
            forall|x: Item<N>| #[trigger] item_set@.contains(x) ==> to_expand@.contains(x) || closed_in(rm, f, item_set@, x),
        ensures to_expand@.len() == 0,
        decreases uni(rm, f, root).len() - item_set@.len(), to_expand@.len(),
//@at loop 0 start
    let ghost t0 = to_expand@;
    let ghost s0 = item_set@;
    let ghost cur = t0.last();
    proof {
        assert(s0.contains(cur));
        lemma_pop_has(t0);
        assert(clo(rm, f, root, cur) && item_ok(f, cur));
    }
//@at loop 0 end
    proof {
        lemma_in_uni(rm, f, root, item_set@);
        assert(closed_in(rm, f, item_set@, cur)) by {
            assert forall|b: Item<N>| #[trigger] step(rm, f, cur, b) implies item_set@.contains(b) by {
                assert(prod(rm, cur.after()->0, b.rule.0));
            }
        }
    }
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(),
            cur.after() is Some, cur == top, rm.contains_key(cur.after()->0),
            it1.seq().len() == rm[cur.after()->0]@.len(),
            forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == rm[cur.after()->0]@[i],
            wl_ok(rm, f, root, cur, item_set@, to_expand@),
            to_expand@.len() - (t0.len() - 1) == item_set@.len() - s0.len(), item_set@.len() >= s0.len(),
            forall|b: Item<N>, i: int| #[trigger] step(rm, f, cur, b) && 0 <= i < it1.pos() && #[trigger] rm[cur.after()->0]@[i] == b.rule.0 ==> item_set@.contains(b),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost s1 = item_set@;
    let ghost rr = it1.seq()[it1.pos() - 1];
    proof {
        assert(rm[cur.after()->0]@.contains(*rr));
        assert(prod(rm, cur.after()->0, *rr));
    }
//@loop 2
        invariant
            it2.pos() <= it2.seq().len(),
            forall|la: [Symbol; N]| #[trigger] it2.seq().contains(la) <==> la_of(f, cur, la),
            wl_ok(rm, f, root, cur, item_set@, to_expand@),
            to_expand@.len() - (t0.len() - 1) == item_set@.len() - s0.len(), item_set@.len() >= s0.len(),
            s1.subset_of(item_set@),
            forall|b: Item<N>, j: int| #[trigger] step(rm, f, cur, b) && 0 <= j < it2.pos() && b.rule.0 == *rr && #[trigger] it2.seq()[j] == b.lookahead ==> item_set@.contains(b),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    let ghost mut new_item = cur;
    let ghost t2 = to_expand@;
    let ghost s2 = item_set@;
    let ghost la = it2.seq()[it2.pos() - 1];
    proof { assert(it2.seq().contains(la)); lemma_norm(rr.rhs@, 0); }
//@loop 3
        invariant
            item.rule.0 == *rr, item.lookahead == la, item.d() <= item.rs().len(), norm(item.rs(), 0) == norm(item.rs(), item.d()),
        ensures
            item.d() == norm(item.rs(), 0),
        decreases item.rs().len() - item.d(),
//@at loop 2 after
    proof {
        assert forall|b: Item<N>, i: int| #[trigger] step(rm, f, cur, b) && 0 <= i < it1.pos() && #[trigger] rm[cur.after()->0]@[i] == b.rule.0 implies item_set@.contains(b) by {
            if i == it1.pos() - 1 {
                assert(it2.seq().contains(b.lookahead));
            }
        }
    }
//@at loop 2 end
    proof {
        assert forall|x: Item<N>| #[trigger] item_set@.contains(x) implies clo(rm, f, root, x) && item_ok(f, x) && (to_expand@.contains(x) || x == cur || closed_in(rm, f, item_set@, x)) by {
            if s2.contains(x) {
                if t2.contains(x) { }
                else if x != cur { assert(closed_in(rm, f, s2, x)); }
            }
        }
        assert forall|b: Item<N>, j: int| #[trigger] step(rm, f, cur, b) && 0 <= j < it2.pos() && b.rule.0 == *rr && #[trigger] it2.seq()[j] == b.lookahead implies item_set@.contains(b) by {
            if j == it2.pos() - 1 { assert(b == new_item); }
        }
    }
//@at loop 3 after
    proof {
        new_item = item;
        lemma_push_has(to_expand@, item);
        assert(step(rm, f, cur, item));
        lemma_clo_step(rm, f, root, cur, item);
        lemma_step_ok(rm, f, cur, item);
    }
//@at loop 0 after
    proof {
        assert forall|b: Item<N>| #[trigger] item_set@.contains(b) <==> clo(rm, f, root, b) by {
            if clo(rm, f, root, b) {
                let k = choose|k: nat| #[trigger] reach(rm, f, k, root, b);
                lemma_clo_in(rm, f, item_set@, k, root, b);
            }
        }
    }
//@end
//@fn lapex-parser/src/lr_parser/mod.rs build_rules_map
//@spec
    ensures prods_of(grammar.rules@, grammar.rules@.len() as int, r@),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == grammar.rules@.len(),
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == grammar.rules@[i],
            prods_of(grammar.rules@, it0.pos() as int, rules_map@),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    let ghost m0 = rules_map@;
    let ghost k = it0.pos() - 1;
//@at loop 0 end
    proof {
        let rr = it0.seq()[k];
        assert(m0.contains_key(rr.l()) ==> true);
        if rr.lhs is Some {
            lemma_push_has(if m0.contains_key(rr.l()) { m0[rr.l()]@ } else { Seq::empty() }, rr);
        }
        assert forall|a: Symbol, r: &Rule| #[trigger] prod(rules_map@, a, r) <==> exists|i: int| 0 <= i < k + 1 && #[trigger] rule_at(grammar.rules@, i, a, r) by {
            assert(prod(m0, a, r) <==> exists|i: int| 0 <= i < k && #[trigger] rule_at(grammar.rules@, i, a, r));
            if rule_at(grammar.rules@, k, a, r) { }
        }
    }
//@end
