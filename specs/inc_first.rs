// ---- FIRST: what the property says -------------------------------------------------------------
// leftmost derivation of at most k rule applications from the string a
pub open spec fn begins(g: &Grammar, k: nat, a: Seq<Symbol>, t: Symbol) -> bool
    decreases k, a.len(),
{
    if a.len() == 0 { false } else {
        match a[0] {
            Symbol::Terminal(_) | Symbol::End => a[0] == t,
            Symbol::Epsilon => begins(g, k, a.skip(1), t),
            Symbol::NonTerminal(_) => k > 0 && exists|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).l() == a[0]
                && begins(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1), t),
        }
    }
}
pub open spec fn vanishes(g: &Grammar, k: nat, a: Seq<Symbol>) -> bool
    decreases k, a.len(),
{
    if a.len() == 0 { true } else {
        match a[0] {
            Symbol::Terminal(_) | Symbol::End => false,
            Symbol::Epsilon => vanishes(g, k, a.skip(1)),
            Symbol::NonTerminal(_) => k > 0 && exists|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).l() == a[0]
                && vanishes(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1)),
        }
    }
}
pub open spec fn in_first(g: &Grammar, a: Seq<Symbol>, x: Symbol) -> bool {
    if x == Symbol::Epsilon { a.len() > 0 && exists|k: nat| #[trigger] vanishes(g, k, a) }
    else { exists|k: nat| #[trigger] begins(g, k, a, x) }
}
// sets of symbols per nonterminal
pub type Sets = Map<Symbol, Set<Symbol>>;
pub open spec fn fv(f: Map<Symbol, BTreeSet<Symbol>>) -> Sets { f.map_values(|s: BTreeSet<Symbol>| s@) }
pub open spec fn dom_ok(g: &Grammar, f: Sets) -> bool {
    forall|a: Symbol| #[trigger] f.contains_key(a) <==> g.nts().contains(a)
}
pub open spec fn first_exact(g: &Grammar, f: Sets) -> bool {
    &&& dom_ok(g, f)
    &&& forall|a: Symbol, x: Symbol| g.nts().contains(a) ==> (#[trigger] f[a].contains(x) <==> in_first(g, seq![a], x))
}
// ---- what get_first_terminals_of_sequence computes from given sets ------------------------------
pub open spec fn fset(f: Sets, x: Symbol) -> Set<Symbol> {
    match x {
        Symbol::Terminal(_) | Symbol::End => Set::<Symbol>::empty().insert(x),
        Symbol::Epsilon => Set::<Symbol>::empty().insert(Symbol::Epsilon),
        Symbol::NonTerminal(_) => f[x],
    }
}
pub open spec fn fseq(f: Sets, s: Seq<Symbol>) -> Set<Symbol>
    decreases s.len(),
{
    if s.len() == 0 { Set::<Symbol>::empty() } else {
        let h = fset(f, s[0]);
        if h.contains(Symbol::Epsilon) {
            if s.len() == 1 { h } else { h.remove(Symbol::Epsilon).union(fseq(f, s.skip(1))) }
        } else { h }
    }
}
pub open spec fn nts_in(f: Sets, s: Seq<Symbol>) -> bool {
    forall|k: int| 0 <= k < s.len() && is_nt(#[trigger] s[k]) ==> f.contains_key(s[k])
}
// x is in the set of the whole string: by its first symbol, or after vanishing symbols
pub open spec fn fin(f: Sets, s: Seq<Symbol>, x: Symbol) -> bool
    decreases s.len(),
{
    if s.len() == 0 { x == Symbol::Epsilon } else {
        (x != Symbol::Epsilon && fset(f, s[0]).contains(x)) || (fset(f, s[0]).contains(Symbol::Epsilon) && fin(f, s.skip(1), x))
    }
}
pub proof fn lemma_fin(f: Sets, s: Seq<Symbol>, x: Symbol)
    requires s.len() > 0,
    ensures fin(f, s, x) == fseq(f, s).contains(x),
    decreases s.len(),
{
    if s.len() > 1 { lemma_fin(f, s.skip(1), x); }
    else { assert(s.skip(1).len() == 0); reveal_with_fuel(fin, 2); }
}
pub proof fn lemma_fin_concat(f: Sets, a: Seq<Symbol>, b: Seq<Symbol>, x: Symbol)
    ensures fin(f, a + b, x) == ((x != Symbol::Epsilon && fin(f, a, x)) || (fin(f, a, Symbol::Epsilon) && fin(f, b, x))),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert((a + b)[0] == a[0]);
        lemma_fin_concat(f, a.skip(1), b, x);
    }
}
// ---- concatenation of derivations ---------------------------------------------------------------
pub proof fn lemma_vanish_mono(g: &Grammar, k: nat, k2: nat, a: Seq<Symbol>)
    requires k <= k2, vanishes(g, k, a),
    ensures vanishes(g, k2, a),
    decreases k, a.len(),
{
    if a.len() > 0 {
        match a[0] {
            Symbol::Epsilon => { lemma_vanish_mono(g, k, k2, a.skip(1)); }
            Symbol::NonTerminal(_) => {
                let i = choose|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).l() == a[0]
                    && vanishes(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1));
                lemma_vanish_mono(g, (k - 1) as nat, (k2 - 1) as nat, g.rules@[i].rhs@ + a.skip(1));
            }
            _ => {}
        }
    }
}
pub proof fn lemma_vanish_concat(g: &Grammar, k: nat, a: Seq<Symbol>, k2: nat, b: Seq<Symbol>)
    requires vanishes(g, k, a), vanishes(g, k2, b),
    ensures vanishes(g, k + k2, a + b),
    decreases k, a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); lemma_vanish_mono(g, k2, k + k2, b); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        match a[0] {
            Symbol::Epsilon => { lemma_vanish_concat(g, k, a.skip(1), k2, b); }
            Symbol::NonTerminal(_) => {
                let i = choose|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).l() == a[0]
                    && vanishes(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1));
                lemma_vanish_concat(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1), k2, b);
                assert(g.rules@[i].rhs@ + a.skip(1) + b =~= g.rules@[i].rhs@ + (a + b).skip(1));
            }
            _ => {}
        }
    }
}
pub proof fn lemma_begin_mono(g: &Grammar, k: nat, k2: nat, a: Seq<Symbol>, t: Symbol)
    requires k <= k2, begins(g, k, a, t),
    ensures begins(g, k2, a, t),
    decreases k, a.len(),
{
    match a[0] {
        Symbol::Epsilon => { lemma_begin_mono(g, k, k2, a.skip(1), t); }
        Symbol::NonTerminal(_) => {
            let i = choose|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).l() == a[0]
                && begins(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1), t);
            lemma_begin_mono(g, (k - 1) as nat, (k2 - 1) as nat, g.rules@[i].rhs@ + a.skip(1), t);
        }
        _ => {}
    }
}
pub proof fn lemma_begin_prefix(g: &Grammar, k: nat, a: Seq<Symbol>, b: Seq<Symbol>, t: Symbol)
    requires begins(g, k, a, t),
    ensures begins(g, k, a + b, t),
    decreases k, a.len(),
{
    assert((a + b)[0] == a[0]);
    assert((a + b).skip(1) =~= a.skip(1) + b);
    match a[0] {
        Symbol::Epsilon => { lemma_begin_prefix(g, k, a.skip(1), b, t); }
        Symbol::NonTerminal(_) => {
            let i = choose|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).l() == a[0]
                && begins(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1), t);
            lemma_begin_prefix(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1), b, t);
            assert(g.rules@[i].rhs@ + a.skip(1) + b =~= g.rules@[i].rhs@ + (a + b).skip(1));
        }
        _ => {}
    }
}
pub proof fn lemma_begin_after(g: &Grammar, k: nat, a: Seq<Symbol>, k2: nat, b: Seq<Symbol>, t: Symbol)
    requires vanishes(g, k, a), begins(g, k2, b, t),
    ensures begins(g, k + k2, a + b, t),
    decreases k, a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); lemma_begin_mono(g, k2, k + k2, b, t); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        match a[0] {
            Symbol::Epsilon => { lemma_begin_after(g, k, a.skip(1), k2, b, t); }
            Symbol::NonTerminal(_) => {
                let i = choose|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).l() == a[0]
                    && vanishes(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1));
                lemma_begin_after(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1), k2, b, t);
                assert(g.rules@[i].rhs@ + a.skip(1) + b =~= g.rules@[i].rhs@ + (a + b).skip(1));
            }
            _ => {}
        }
    }
}
// ---- soundness and completeness -----------------------------------------------------------------
pub open spec fn sound(g: &Grammar, f: Sets) -> bool {
    forall|a: Symbol, x: Symbol| f.contains_key(a) && #[trigger] f[a].contains(x) ==> in_first(g, seq![a], x)
}
pub open spec fn closed(g: &Grammar, f: Sets) -> bool {
    forall|i: int| 0 <= i < g.rules@.len() ==> fseq(f, (#[trigger] g.rules@[i]).rhs@).subset_of(f[g.rules@[i].l()])
}
pub proof fn lemma_fset_sound(g: &Grammar, f: Sets, a: Symbol, x: Symbol)
    requires sound(g, f), is_nt(a) ==> f.contains_key(a), fset(f, a).contains(x),
    ensures in_first(g, seq![a], x),
{
    let s = seq![a];
    assert(s.skip(1).len() == 0);
    match a {
        Symbol::Terminal(_) | Symbol::End => { assert(begins(g, 0, s, x)); }
        Symbol::Epsilon => { assert(vanishes(g, 0, s.skip(1))); assert(vanishes(g, 0, s)); }
        _ => {}
    }
}
pub proof fn lemma_fin_sound(g: &Grammar, f: Sets, s: Seq<Symbol>, x: Symbol)
    requires sound(g, f), nts_in(f, s), fin(f, s, x),
    ensures
        x != Symbol::Epsilon ==> exists|k: nat| #[trigger] begins(g, k, s, x),
        x == Symbol::Epsilon ==> exists|k: nat| #[trigger] vanishes(g, k, s),
    decreases s.len(),
{
    if s.len() == 0 { assert(vanishes(g, 0, s)); }
    else {
        let h = seq![s[0]];
        assert(h + s.skip(1) =~= s);
        assert forall|k: int| 0 <= k < s.skip(1).len() && is_nt(#[trigger] s.skip(1)[k]) implies f.contains_key(s.skip(1)[k]) by { assert(s.skip(1)[k] == s[k + 1]); }
        if x != Symbol::Epsilon && fset(f, s[0]).contains(x) {
            lemma_fset_sound(g, f, s[0], x);
            let k = choose|k: nat| #[trigger] begins(g, k, h, x);
            lemma_begin_prefix(g, k, h, s.skip(1), x);
        } else {
            lemma_fset_sound(g, f, s[0], Symbol::Epsilon);
            let k = choose|k: nat| #[trigger] vanishes(g, k, h);
            lemma_fin_sound(g, f, s.skip(1), x);
            if x == Symbol::Epsilon {
                let k2 = choose|k: nat| #[trigger] vanishes(g, k, s.skip(1));
                lemma_vanish_concat(g, k, h, k2, s.skip(1));
            } else {
                let k2 = choose|k: nat| #[trigger] begins(g, k, s.skip(1), x);
                lemma_begin_after(g, k, h, k2, s.skip(1), x);
            }
        }
    }
}
// a set of a right-hand side is in the set of the left-hand side
pub proof fn lemma_rule_sound(g: &Grammar, f: Sets, i: int, x: Symbol)
    requires g.wf(), sound(g, f), dom_ok(g, f), 0 <= i < g.rules@.len(), fseq(f, g.rules@[i].rhs@).contains(x),
    ensures in_first(g, seq![g.rules@[i].l()], x),
{
    let r = g.rules@[i];
    let a = seq![r.l()];
    assert(rule_wf(g, r));
    assert(nts_in(f, r.rhs@)) by {
        assert forall|k: int| 0 <= k < r.rhs@.len() && is_nt(#[trigger] r.rhs@[k]) implies f.contains_key(r.rhs@[k]) by { assert(sym_wf(g, r.rhs@[k])); }
    }
    lemma_fin(f, r.rhs@, x);
    lemma_fin_sound(g, f, r.rhs@, x);
    assert(r.rhs@ + a.skip(1) =~= r.rhs@);
    if x == Symbol::Epsilon {
        let k = choose|k: nat| #[trigger] vanishes(g, k, r.rhs@);
        assert(vanishes(g, k + 1, a));
    } else {
        let k = choose|k: nat| #[trigger] begins(g, k, r.rhs@, x);
        assert(begins(g, k + 1, a, x));
    }
}
pub proof fn lemma_fin_unfold(g: &Grammar, f: Sets, i: int, rest: Seq<Symbol>, a: Seq<Symbol>, x: Symbol)
    requires g.wf(), closed(g, f), dom_ok(g, f), 0 <= i < g.rules@.len(), a.len() > 0, a[0] == g.rules@[i].l(), rest == a.skip(1),
        fin(f, g.rules@[i].rhs@ + rest, x),
    ensures fin(f, a, x),
{
    let r = g.rules@[i];
    assert(rule_wf(g, r));
    lemma_fin_concat(f, r.rhs@, rest, x);
    lemma_fin(f, r.rhs@, x);
    lemma_fin(f, r.rhs@, Symbol::Epsilon);
}
pub proof fn lemma_complete(g: &Grammar, f: Sets, k: nat, a: Seq<Symbol>, x: Symbol)
    requires g.wf(), closed(g, f), dom_ok(g, f), begins(g, k, a, x) && x != Symbol::Epsilon || vanishes(g, k, a) && x == Symbol::Epsilon,
    ensures fin(f, a, x),
    decreases k, a.len(),
{
    if a.len() > 0 {
        match a[0] {
            Symbol::Epsilon => { lemma_complete(g, f, k, a.skip(1), x); }
            Symbol::NonTerminal(_) => {
                let i = if x == Symbol::Epsilon {
                    choose|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).l() == a[0]
                        && vanishes(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1))
                } else {
                    choose|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).l() == a[0]
                        && begins(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1), x)
                };
                lemma_complete(g, f, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1), x);
                lemma_fin_unfold(g, f, i, a.skip(1), a, x);
            }
            _ => {}
        }
    }
}
pub proof fn lemma_exact(g: &Grammar, f: Sets)
    requires g.wf(), closed(g, f), sound(g, f), dom_ok(g, f),
    ensures first_exact(g, f),
{
    assert forall|a: Symbol, x: Symbol| g.nts().contains(a) implies (#[trigger] f[a].contains(x) <==> in_first(g, seq![a], x)) by {
        let s = seq![a];
        if in_first(g, s, x) {
            let k = if x == Symbol::Epsilon { choose|k: nat| #[trigger] vanishes(g, k, s) } else { choose|k: nat| #[trigger] begins(g, k, s, x) };
            if x != Symbol::Epsilon { lemma_begin_term(g, k, s, x); }
            lemma_complete(g, f, k, s, x);
            lemma_fin(f, s, x);
        }
    }
}
pub proof fn lemma_begin_term(g: &Grammar, k: nat, a: Seq<Symbol>, x: Symbol)
    requires begins(g, k, a, x),
    ensures is_t(x),
    decreases k, a.len(),
{
    match a[0] {
        Symbol::Epsilon => { lemma_begin_term(g, k, a.skip(1), x); }
        Symbol::NonTerminal(_) => {
            let i = choose|i: int| 0 <= i < g.rules@.len() && (#[trigger] g.rules@[i]).l() == a[0]
                && begins(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1), x);
            lemma_begin_term(g, (k - 1) as nat, g.rules@[i].rhs@ + a.skip(1), x);
        }
        _ => {}
    }
}
// the statement for sequences of symbols
pub proof fn lemma_seq_exact(g: &Grammar, f: Sets, s: Seq<Symbol>, x: Symbol)
    requires g.wf(), first_exact(g, f), nts_in(f, s),
    ensures fseq(f, s).contains(x) <==> in_first(g, s, x),
{
    lemma_exact_closed(g, f);
    if s.len() > 0 {
        lemma_fin(f, s, x);
        if fin(f, s, x) { lemma_fin_sound(g, f, s, x); }
        if in_first(g, s, x) {
            let k = if x == Symbol::Epsilon { choose|k: nat| #[trigger] vanishes(g, k, s) } else { choose|k: nat| #[trigger] begins(g, k, s, x) };
            if x != Symbol::Epsilon { lemma_begin_term(g, k, s, x); }
            lemma_complete(g, f, k, s, x);
        }
    } else if x != Symbol::Epsilon {
        assert forall|k: nat| !#[trigger] begins(g, k, s, x) by {}
    }
}
pub proof fn lemma_exact_closed(g: &Grammar, f: Sets)
    requires g.wf(), first_exact(g, f),
    ensures closed(g, f), sound(g, f),
{
    assert(sound(g, f));
    assert forall|i: int| 0 <= i < g.rules@.len() implies fseq(f, (#[trigger] g.rules@[i]).rhs@).subset_of(f[g.rules@[i].l()]) by {
        assert(rule_wf(g, g.rules@[i]));
        assert forall|x: Symbol| fseq(f, g.rules@[i].rhs@).contains(x) implies f[g.rules@[i].l()].contains(x) by { lemma_rule_sound(g, f, i, x); }
    }
}
// ---- termination measure ------------------------------------------------------------------------
pub open spec fn usyms(rules: Seq<Rule>, n: nat) -> Set<Symbol>
    decreases n,
{ if n == 0 || n > rules.len() { Set::<Symbol>::empty().insert(Symbol::Epsilon) } else { usyms(rules, (n - 1) as nat).union(rules[n - 1].rhs@.to_set()) } }
pub open spec fn univ(g: &Grammar) -> Set<Symbol> { usyms(g.rules@, g.rules@.len()).insert(Symbol::End) }
pub proof fn lemma_usyms(rules: Seq<Rule>, n: nat, i: int, k: int)
    requires n <= rules.len(), 0 <= i < n, 0 <= k < rules[i].rhs@.len(),
    ensures usyms(rules, n).contains(rules[i].rhs@[k]),
    decreases n,
{ if i < n - 1 { lemma_usyms(rules, (n - 1) as nat, i, k); } else { assert(rules[i].rhs@.to_set().contains(rules[i].rhs@[k])); } }
pub proof fn lemma_usyms_eps(rules: Seq<Rule>, n: nat)
    ensures usyms(rules, n).contains(Symbol::Epsilon),
    decreases n,
{ if n > 0 && n <= rules.len() { lemma_usyms_eps(rules, (n - 1) as nat); } }
pub open spec fn bounded(g: &Grammar, f: Sets) -> bool {
    forall|a: Symbol, x: Symbol| f.contains_key(a) && #[trigger] f[a].contains(x) ==> univ(g).contains(x)
}
pub proof fn lemma_fseq_bounded(g: &Grammar, f: Sets, s: Seq<Symbol>, x: Symbol)
    requires bounded(g, f), nts_in(f, s), forall|k: int| 0 <= k < s.len() ==> univ(g).contains(#[trigger] s[k]), fseq(f, s).contains(x),
    ensures univ(g).contains(x),
    decreases s.len(),
{
    lemma_usyms_eps(g.rules@, g.rules@.len());
    assert forall|k: int| 0 <= k < s.skip(1).len() && is_nt(#[trigger] s.skip(1)[k]) implies f.contains_key(s.skip(1)[k]) by { assert(s.skip(1)[k] == s[k + 1]); }
    assert(fset(f, s[0]).contains(x) ==> univ(g).contains(x)) by { assert(univ(g).contains(s[0])); }
    if s.len() > 1 && fseq(f, s.skip(1)).contains(x) { lemma_fseq_bounded(g, f, s.skip(1), x); }
}
pub open spec fn slack(f: Sets, nts: Seq<Symbol>, u: nat, n: nat) -> int
    decreases n,
{ if n == 0 { 0 } else { slack(f, nts, u, (n - 1) as nat) + (u - f[nts[n - 1]].len()) } }
pub open spec fn grown(f0: Sets, f: Sets) -> bool {
    forall|a: Symbol| f0.contains_key(a) ==> (#[trigger] f0[a]).subset_of(f[a])
}
pub proof fn lemma_slack(f0: Sets, f: Sets, nts: Seq<Symbol>, u: nat, n: nat)
    requires n <= nts.len(), grown(f0, f), forall|i: int| 0 <= i < nts.len() ==> f0.contains_key(#[trigger] nts[i]),
    ensures
        slack(f, nts, u, n) <= slack(f0, nts, u, n),
        (exists|i: int| 0 <= i < n && f0[#[trigger] nts[i]] != f[nts[i]]) ==> slack(f, nts, u, n) < slack(f0, nts, u, n),
    decreases n,
{
    if n > 0 {
        lemma_slack(f0, f, nts, u, (n - 1) as nat);
        let a = nts[n - 1];
        assert(f0.contains_key(a));
        vstd::set_lib::lemma_len_subset(f0[a], f[a]);
        if f0[a] != f[a] {
            if f0[a].len() == f[a].len() { vstd::set_lib::lemma_subset_equality(f0[a], f[a]); }
        }
    }
}
pub proof fn lemma_slack_nonneg(g: &Grammar, f: Sets, nts: Seq<Symbol>, n: nat)
    requires n <= nts.len(), bounded(g, f), forall|i: int| 0 <= i < nts.len() ==> f.contains_key(#[trigger] nts[i]),
    ensures slack(f, nts, univ(g).len(), n) >= 0,
    decreases n,
{
    if n > 0 {
        lemma_slack_nonneg(g, f, nts, (n - 1) as nat);
        let a = nts[n - 1];
        assert(f.contains_key(a));
        assert(f[a].subset_of(univ(g)));
        vstd::set_lib::lemma_len_subset(f[a], univ(g));
    }
}
