// FOLLOW, stated independently of how it is computed: x can follow a, in at most k steps outwards
pub open spec fn can_vanish(g: &Grammar, s: Seq<Symbol>) -> bool { exists|k: nat| #[trigger] vanishes(g, k, s) }
pub open spec fn foll(g: &Grammar, k: nat, a: Symbol, x: Symbol) -> bool
    decreases k,
{
    k > 0 && ((a == g.entry_symbol && x == Symbol::End)
        || exists|i: int, j: int| 0 <= i < g.rules@.len() && 0 <= j < g.rules@[i].rhs@.len() && #[trigger] g.rules@[i].rhs@[j] == a
            && ((x != Symbol::Epsilon && in_first(g, g.rules@[i].rhs@.skip(j + 1), x))
                || (can_vanish(g, g.rules@[i].rhs@.skip(j + 1)) && foll(g, (k - 1) as nat, g.rules@[i].l(), x))))
}
pub open spec fn in_follow(g: &Grammar, a: Symbol, x: Symbol) -> bool { exists|k: nat| #[trigger] foll(g, k, a, x) }
pub open spec fn follow_exact(g: &Grammar, w: Sets) -> bool {
    &&& dom_ok(g, w)
    &&& forall|a: Symbol, x: Symbol| g.nts().contains(a) ==> (#[trigger] w[a].contains(x) <==> in_follow(g, a, x))
}
// one step of the computation
pub open spec fn vanish_set(f: Sets, rest: Seq<Symbol>) -> bool { rest.len() == 0 || fseq(f, rest).contains(Symbol::Epsilon) }
pub open spec fn wset(f: Sets, w: Sets, lhs: Option<Symbol>, rest: Seq<Symbol>) -> Set<Symbol> {
    let h = fseq(f, rest).remove(Symbol::Epsilon);
    if vanish_set(f, rest) { h.union(w[lhs->0]) } else { h }
}
// the rules, preceded by the augmented entry rule
pub open spec fn al(g: &Grammar, n: int) -> Option<Symbol> { if n == 0 { None } else { Some(g.rules@[n - 1].l()) } }
pub open spec fn ar(g: &Grammar, n: int) -> Seq<Symbol> { if n == 0 { seq![g.entry_symbol, Symbol::End] } else { g.rules@[n - 1].rhs@ } }
pub open spec fn ar_list(g: &Grammar, s: Seq<(Option<Symbol>, &Vec<Symbol>)>, k: int) -> bool {
    forall|n: int| 0 <= n < s.len() ==> (#[trigger] s[n]).0 == al(g, n + k) && s[n].1@ == ar(g, n + k)
}
pub open spec fn wcl(g: &Grammar, f: Sets, w: Sets, n: int, j: int) -> bool {
    is_nt(ar(g, n)[j]) ==> wset(f, w, al(g, n), ar(g, n).skip(j + 1)).subset_of(w[ar(g, n)[j]])
}
pub open spec fn wcl_rule(g: &Grammar, f: Sets, w: Sets, n: int) -> bool { forall|j: int| 0 <= j < ar(g, n).len() ==> #[trigger] wcl(g, f, w, n, j) }
pub open spec fn wclosed(g: &Grammar, f: Sets, w: Sets) -> bool { forall|n: int| 0 <= n <= g.rules@.len() ==> #[trigger] wcl_rule(g, f, w, n) }
pub open spec fn wsound(g: &Grammar, w: Sets) -> bool {
    forall|a: Symbol, x: Symbol| w.contains_key(a) && #[trigger] w[a].contains(x) ==> in_follow(g, a, x)
}
pub proof fn lemma_ar_nts(g: &Grammar, f: Sets, n: int)
    requires g.wf(), dom_ok(g, f), 0 <= n <= g.rules@.len(),
    ensures nts_in(f, ar(g, n)), n > 0 ==> f.contains_key(al(g, n)->0),
{
    if n > 0 {
        assert(rule_wf(g, g.rules@[n - 1]));
        assert forall|k: int| 0 <= k < ar(g, n).len() && is_nt(#[trigger] ar(g, n)[k]) implies f.contains_key(ar(g, n)[k]) by { assert(sym_wf(g, ar(g, n)[k])); }
    }
}
pub proof fn lemma_rest_nts(f: Sets, s: Seq<Symbol>, j: int)
    requires nts_in(f, s), 0 <= j <= s.len(),
    ensures nts_in(f, s.skip(j)),
{ assert forall|k: int| 0 <= k < s.skip(j).len() && is_nt(#[trigger] s.skip(j)[k]) implies f.contains_key(s.skip(j)[k]) by { assert(s.skip(j)[k] == s[k + j]); } }
pub proof fn lemma_w_end(g: &Grammar, f: Sets)
    ensures fseq(f, ar(g, 0).skip(1)) =~= Set::<Symbol>::empty().insert(Symbol::End), ar(g, 0).skip(1).len() == 1,
{ assert(ar(g, 0).skip(1) =~= seq![Symbol::End]); }
pub proof fn lemma_w_sound(g: &Grammar, f: Sets, w: Sets, n: int, j: int, x: Symbol)
    requires g.wf(), first_exact(g, f), dom_ok(g, w), wsound(g, w), 0 <= n <= g.rules@.len(), 0 <= j < ar(g, n).len(), is_nt(ar(g, n)[j]),
        wset(f, w, al(g, n), ar(g, n).skip(j + 1)).contains(x),
    ensures in_follow(g, ar(g, n)[j], x),
{
    lemma_ar_nts(g, f, n);
    lemma_ar_nts(g, w, n);
    let rest = ar(g, n).skip(j + 1);
    let a = ar(g, n)[j];
    if n == 0 {
        lemma_w_end(g, f);
        assert(foll(g, 1, a, x));
    } else {
        lemma_rest_nts(f, ar(g, n), j + 1);
        let i = n - 1;
        assert(g.rules@[i].rhs@[j] == a);
        if fseq(f, rest).remove(Symbol::Epsilon).contains(x) {
            lemma_seq_exact(g, f, rest, x);
            assert(foll(g, 1, a, x));
        } else {
            if rest.len() == 0 { assert(vanishes(g, 0, rest)); } else { lemma_seq_exact(g, f, rest, Symbol::Epsilon); }
            assert(can_vanish(g, rest));
            assert(w[al(g, n)->0].contains(x));
            let k = choose|k: nat| #[trigger] foll(g, k, al(g, n)->0, x);
            assert(foll(g, k + 1, a, x));
        }
    }
}
pub proof fn lemma_w_complete(g: &Grammar, f: Sets, w: Sets, k: nat, a: Symbol, x: Symbol)
    requires g.wf(), first_exact(g, f), dom_ok(g, w), wclosed(g, f, w), foll(g, k, a, x), is_nt(a),
    ensures w[a].contains(x),
    decreases k,
{
    if a == g.entry_symbol && x == Symbol::End {
        lemma_w_end(g, f);
        assert(wcl_rule(g, f, w, 0));
        assert(wcl(g, f, w, 0, 0));
        assert(wset(f, w, al(g, 0), ar(g, 0).skip(1)).contains(x));
    } else {
        let (i, j) = choose|i: int, j: int| 0 <= i < g.rules@.len() && 0 <= j < g.rules@[i].rhs@.len() && #[trigger] g.rules@[i].rhs@[j] == a
            && ((x != Symbol::Epsilon && in_first(g, g.rules@[i].rhs@.skip(j + 1), x))
                || (can_vanish(g, g.rules@[i].rhs@.skip(j + 1)) && foll(g, (k - 1) as nat, g.rules@[i].l(), x)));
        let n = i + 1;
        let rest = ar(g, n).skip(j + 1);
        lemma_ar_nts(g, f, n);
        lemma_rest_nts(f, ar(g, n), j + 1);
        assert(wcl_rule(g, f, w, n));
        assert(wcl(g, f, w, n, j));
        lemma_seq_exact(g, f, rest, x);
        if !(x != Symbol::Epsilon && in_first(g, rest, x)) {
            lemma_seq_exact(g, f, rest, Symbol::Epsilon);
            lemma_w_complete(g, f, w, (k - 1) as nat, g.rules@[i].l(), x);
        }
        assert(wset(f, w, al(g, n), rest).contains(x));
    }
}
pub proof fn lemma_w_exact(g: &Grammar, f: Sets, w: Sets)
    requires g.wf(), first_exact(g, f), dom_ok(g, w), wclosed(g, f, w), wsound(g, w),
    ensures follow_exact(g, w),
{
    assert forall|a: Symbol, x: Symbol| g.nts().contains(a) implies (#[trigger] w[a].contains(x) <==> in_follow(g, a, x)) by {
        let m = choose|m: int| 0 <= m < g.nts().len() && g.nts()[m] == a;
        assert(is_nt(g.nts()[m]));
        if in_follow(g, a, x) { let k = choose|k: nat| #[trigger] foll(g, k, a, x); lemma_w_complete(g, f, w, k, a, x); }
    }
}
pub proof fn lemma_w_bounded(g: &Grammar, f: Sets, w: Sets, n: int, j: int, x: Symbol)
    requires g.wf(), dom_ok(g, f), bounded(g, f), dom_ok(g, w), bounded(g, w), 0 <= n <= g.rules@.len(), 0 <= j < ar(g, n).len(),
        wset(f, w, al(g, n), ar(g, n).skip(j + 1)).contains(x), is_nt(ar(g, n)[j]),
    ensures univ(g).contains(x),
{
    lemma_ar_nts(g, f, n);
    lemma_ar_nts(g, w, n);
    let rest = ar(g, n).skip(j + 1);
    if n == 0 { lemma_w_end(g, f); }
    else {
        lemma_rest_nts(f, ar(g, n), j + 1);
        assert forall|k: int| 0 <= k < rest.len() implies univ(g).contains(#[trigger] rest[k]) by {
            assert(rest[k] == g.rules@[n - 1].rhs@[k + j + 1]);
            lemma_usyms(g.rules@, g.rules@.len(), n - 1, k + j + 1);
        }
        if fseq(f, rest).contains(x) { lemma_fseq_bounded(g, f, rest, x); }
    }
}
// exact FIRST sets only hold symbols of the grammar
pub proof fn lemma_exact_bounded(g: &Grammar, f: Sets)
    requires g.wf(), first_exact(g, f),
    ensures bounded(g, f),
{
    assert forall|a: Symbol, x: Symbol| f.contains_key(a) && #[trigger] f[a].contains(x) implies univ(g).contains(x) by {
        assert(in_first(g, seq![a], x));
        lemma_usyms_eps(g.rules@, g.rules@.len());
        if x != Symbol::Epsilon {
            let k = choose|k: nat| #[trigger] begins(g, k, seq![a], x);
            let m = choose|m: int| 0 <= m < g.nts().len() && g.nts()[m] == a;
            assert(is_nt(g.nts()[m]));
            lemma_begin_univ(g, k, seq![a], x);
        }
    }
}
pub open spec fn usq(g: &Grammar, s: Seq<Symbol>) -> bool { forall|k: int| 0 <= k < s.len() && !is_nt(#[trigger] s[k]) ==> univ(g).contains(s[k]) }
pub proof fn lemma_begin_univ(g: &Grammar, k: nat, a: Seq<Symbol>, x: Symbol)
    requires g.wf(), usq(g, a), begins(g, k, a, x),
    ensures univ(g).contains(x),
    decreases k, a.len(),
{
    assert(usq(g, a.skip(1))) by { assert forall|k: int| 0 <= k < a.skip(1).len() && !is_nt(#[trigger] a.skip(1)[k]) implies univ(g).contains(a.skip(1)[k]) by { assert(a.skip(1)[k] == a[k + 1]); } }
    match a[0] {
        Symbol::Epsilon => { lemma_begin_univ(g, k, a.skip(1), x); }
        Symbol::NonTerminal(_) => {
            let i = choose|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).l() == a[0]
                && begins(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1), x);
            let b = g.rules@[i].rhs@ + a.skip(1);
            assert forall|k: int| 0 <= k < b.len() && !is_nt(#[trigger] b[k]) implies univ(g).contains(b[k]) by {
                if k < g.rules@[i].rhs@.len() { lemma_usyms(g.rules@, g.rules@.len(), i, k); } else { assert(b[k] == a.skip(1)[k - g.rules@[i].rhs@.len()]); }
            }
            lemma_begin_univ(g, (k - 1) as nat, b, x);
        }
        _ => {}
    }
}
