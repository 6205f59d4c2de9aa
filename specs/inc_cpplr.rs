// ---- switches over symbols, states and rules: arms by key ------------------------------------------------
pub ghost struct KArm<K, V> { pub k: K, pub v: V }
pub open spec fn k_has<K, V>(a: Seq<KArm<K, V>>, k: K) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).k == k }
// one arm for each key of xs that f has something for, and no other
pub open spec fn k_in<K, V>(a: Seq<KArm<K, V>>, f: spec_fn(K) -> Option<V>, xs: Seq<K>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> xs.contains((#[trigger] a[i]).k) && f(a[i].k) == Some(a[i].v)
    &&& forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j ==> (#[trigger] a[i]).k != (#[trigger] a[j]).k
    &&& forall|k: K| #[trigger] xs.contains(k) && f(k) is Some ==> k_has(a, k)
}
pub open spec fn k_put<K, V>(a: Seq<KArm<K, V>>, f: spec_fn(K) -> Option<V>, k: K) -> Seq<KArm<K, V>> {
    match f(k) { Some(v) => a.push(KArm { k, v }), None => a }
}
pub proof fn lemma_k<K, V>(a: Seq<KArm<K, V>>, f: spec_fn(K) -> Option<V>, xs: Seq<K>, n: int)
    requires 0 <= n < xs.len(), k_in(a, f, xs.take(n)), xs.no_duplicates(),
    ensures k_in(k_put(a, f, xs[n]), f, xs.take(n + 1)), f(xs[n]) is Some ==> k_put(a, f, xs[n]).drop_last() == a,
{
    let d = k_put(a, f, xs[n]);
    let s0 = xs.take(n);
    let s = xs.take(n + 1);
    assert(s =~= s0.push(xs[n]));
    assert forall|k: K| #[trigger] s.contains(k) <==> s0.contains(k) || k == xs[n] by {
        if s0.contains(k) { let j = choose|j: int| 0 <= j < s0.len() && s0[j] == k; assert(s[j] == k); }
        if k == xs[n] { assert(s[n] == k); }
    }
    assert(!s0.contains(xs[n])) by { if s0.contains(xs[n]) { let j = choose|j: int| 0 <= j < s0.len() && s0[j] == xs[n]; assert(xs[j] == xs[n]); } }
    assert forall|k: K| #[trigger] s.contains(k) && f(k) is Some implies k_has(d, k) by {
        if k == xs[n] { assert(d[a.len() as int].k == k); } else { assert(s0.contains(k)); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).k == k; assert(d[i] == a[i]); }
    }
    if f(xs[n]) is Some { assert(d.drop_last() =~= a); }
}
pub proof fn lemma_k0<K, V>(f: spec_fn(K) -> Option<V>, xs: Seq<K>)
    ensures k_in(Seq::<KArm<K, V>>::empty(), f, xs.take(0)),
{ }
// ---- what a cell of the table calls for -------------------------------------------------------------------
pub ghost enum Mv { To(usize), Accept }
pub ghost enum Act { Shift, Reduce(int) }
pub open spec fn rule_ix(g: &Grammar, r: Rule) -> int { choose|i: int| 0 <= i < g.rules@.len() && #[trigger] g.rules@[i] == r }
pub open spec fn e_mv(e: TE) -> Option<Mv> { match e { TableEntry::Shift { target } => Some(Mv::To(target)), TableEntry::Accept => Some(Mv::Accept), _ => None } }
pub open spec fn e_act(g: &Grammar, e: TE) -> Option<Act> { match e { TableEntry::Shift { .. } => Some(Act::Shift), TableEntry::Reduce { rule } => Some(Act::Reduce(rule_ix(g, *rule))), _ => None } }
pub open spec fn mv_at(c: Cells, q: usize) -> spec_fn(Symbol) -> Option<Mv> { |x: Symbol| { let s = cell(c, q as int, x); if s.len() == 0 { None } else { e_mv(s[0]) } } }
pub open spec fn act_at(g: &Grammar, c: Cells, q: usize) -> spec_fn(Symbol) -> Option<Act> { |x: Symbol| { let s = cell(c, q as int, x); if s.len() == 0 { None } else { e_act(g, s[0]) } } }
pub open spec fn goes(x: Symbol) -> bool { x is Terminal || x is NonTerminal }
pub open spec fn toks(g: &Grammar) -> Seq<Symbol> { g.ts().push(Symbol::End) }
pub open spec fn rd_ok(g: &Grammar, e: TE) -> bool { e matches TableEntry::Reduce { rule } ==> g.rules@.contains(*rule) }
// shifts are on terminals and non-terminals, acceptance is on a non-terminal
pub open spec fn moves_ok(e: TE, x: Symbol) -> bool { match e { TableEntry::Shift { .. } => goes(x), TableEntry::Accept => is_nt(x), _ => true } }
pub open spec fn index_ok(g: &Grammar, m: Map<VxPtr<Rule>, usize>) -> bool {
    &&& forall|i: int| 0 <= i < g.rules@.len() ==> m.contains_key(vx_ptr(#[trigger] g.rules@[i])) && m[vx_ptr(g.rules@[i])] == i
    &&& forall|k: VxPtr<Rule>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < g.rules@.len() && k == vx_ptr(#[trigger] g.rules@[i])
}
pub open spec fn lhs_rules(g: &Grammar, k: int, x: Symbol) -> Seq<int>
    decreases k,
{ if k <= 0 { seq![] } else if g.rules@[k - 1].l() == x { lhs_rules(g, k - 1, x).push(k - 1) } else { lhs_rules(g, k - 1, x) } }
pub open spec fn are_rules(g: &Grammar, v: Seq<&Rule>, s: Seq<int>) -> bool { v.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> *v[j] == g.rules@[#[trigger] s[j]] }
pub open spec fn by_nt(g: &Grammar, k: int, m: Map<Symbol, Vec<&Rule>>) -> bool {
    &&& forall|x: Symbol| #[trigger] m.contains_key(x) <==> lhs_rules(g, k, x).len() > 0
    &&& forall|x: Symbol| #[trigger] m.contains_key(x) ==> are_rules(g, m[x]@, lhs_rules(g, k, x))
}
// ---- texts ------------------------------------------------------------------------------------------------
pub open spec fn label(g: &Grammar, x: Symbol) -> Seq<char> {
    match x { Symbol::NonTerminal(_) => "NonTerminalType::"@ + en(g, x), Symbol::Epsilon => ""@, _ => "lexer::TokenType::TK_"@ + tkn(g, x) }
}
pub open spec fn mbody_text(p: Seq<char>, w: Mv) -> Seq<char> {
    (match w { Mv::To(t) => p + "{\n"@ + "Transition transition{"@ + dec(t as nat) + ", false};\n"@, Mv::Accept => p + "{\n"@ + "Transition transition{0, true};\n"@ }) + "return transition;\n"@ + "}\n"@
}
pub open spec fn mcases_text(p: Seq<char>, g: &Grammar, a: Seq<KArm<Symbol, Mv>>) -> Seq<char>
    decreases a.len(),
{ if a.len() == 0 { p } else { mbody_text(mcases_text(p, g, a.drop_last()) + "case "@ + label(g, a.last().k) + ":\n"@, a.last().v) } }
pub open spec fn mswitch_text(p: Seq<char>, g: &Grammar, a: Seq<KArm<Symbol, Mv>>) -> Seq<char> {
    mcases_text(p, g, a) + "default:\n"@ + "// Entered state where top of stack doesn't produce a valid transition.\n"@ + "std::terminate();\n"@
}
pub open spec fn abody_text(p: Seq<char>, w: Act) -> Seq<char> {
    (match w { Act::Shift => p + "{\n"@ + "Action act{ActionType::Shift, 0};\n"@, Act::Reduce(i) => p + "{\n"@ + "Action act{ActionType::Reduce, "@ + dec(i as nat) + "};\n"@ }) + "return act;\n"@ + "}\n"@
}
pub open spec fn acases_text(p: Seq<char>, g: &Grammar, a: Seq<KArm<Symbol, Act>>) -> Seq<char>
    decreases a.len(),
{ if a.len() == 0 { p } else { abody_text(acases_text(p, g, a.drop_last()) + "case "@ + label(g, a.last().k) + ":\n"@, a.last().v) } }
pub open spec fn refused(p: Seq<char>, m: Seq<char>) -> Seq<char> { p + "default:\n"@ + "throw_unexpected_token_error(\""@ + m + "\", lookahead_token);\n"@ }
// the cells of a state: the one entry each
pub open spec fn ones<'a, 'g, 'r>(c: Cells<'g, 'r>, q: int, xs: Seq<Symbol>, s: Seq<(Symbol, Option<&'a TE<'g, 'r>>)>) -> bool {
    s.len() == xs.len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 == xs[k] && (match s[k].1 {
        Some(e) => cell(c, q, xs[k]).len() > 0 && *e == cell(c, q, xs[k])[0], None => cell(c, q, xs[k]).len() == 0 })
}
//@type lapex-cpp-codegen/src/lr_parser/mod.rs CodeWriter
impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
    pub open spec fn c(&self) -> Cells<'grammar, 'rules> { self.parser_table.entries@ }
    pub open spec fn ok(&self) -> bool {
        &&& self.grammar.wf() && self.grammar.rules@.no_duplicates() && self.grammar.rules@.len() <= usize::MAX
        &&& filled(self.c())
        &&& forall|i: int, x: Symbol| 0 <= i < self.parser_table.state_count ==> (#[trigger] cell(self.c(), i, x)).len() <= 1
        &&& forall|i: int, x: Symbol| 0 <= i < self.parser_table.state_count && (#[trigger] cell(self.c(), i, x)).len() > 0 ==> self.entry_ok(cell(self.c(), i, x)[0], x)
        &&& index_ok(self.grammar, self.rule_index_map@)
        &&& by_nt(self.grammar, self.grammar.rules@.len() as int, self.rules_by_non_terminal@)
    }
    pub open spec fn entry_ok(&self, e: TE, x: Symbol) -> bool { moves_ok(e, x) && rd_ok(self.grammar, e) }
}
pub open spec fn xs_ok(g: &Grammar, xs: Seq<Symbol>) -> bool { xs == toks(g) || xs == g.nts() }
pub proof fn lemma_xs(g: &Grammar, xs: Seq<Symbol>)
    requires g.wf(), xs_ok(g, xs),
    ensures xs.no_duplicates(), forall|k: int| 0 <= k < xs.len() ==> named_sym(g, #[trigger] xs[k]),
{
    broadcast use vx_axioms;
    if xs == toks(g) {
        assert forall|k: int| 0 <= k < xs.len() implies named_sym(g, #[trigger] xs[k]) by { if k < g.ts().len() { assert(g.ts()[k] is Terminal); assert(vx_order(g.tokens@.dom()).contains(g.ts()[k])); } }
        assert forall|i: int, j: int| 0 <= i < xs.len() && 0 <= j < xs.len() && i != j implies xs[i] != xs[j] by {
            if i < g.ts().len() { assert(g.ts()[i] is Terminal); }
            if j < g.ts().len() { assert(g.ts()[j] is Terminal); }
        }
    } else {
        assert forall|k: int| 0 <= k < xs.len() implies named_sym(g, #[trigger] xs[k]) by { assert(is_nt(g.nts()[k])); }
    }
}
pub open spec fn named_sym(g: &Grammar, s: Symbol) -> bool { s is Terminal ==> g.tokens@.contains_key(s) }
//@fn lapex-cpp-codegen/src/lr_parser/mod.rs CodeWriter::write_non_terminal_enum_name wr
//@rename to_uppercase vx_upper
//@spec
    requires non_terminal is NonTerminal,
    ensures r is Ok ==> final(output).text() == old(output).text() + en(self.grammar, non_terminal),
//@at start
    broadcast use lemma_assoc;
//@end
//@fn lapex-cpp-codegen/src/lr_parser/mod.rs CodeWriter::write_non_terminal_enum_variants wr
//@spec
    requires self.grammar.wf(),
    ensures r is Ok ==> final(output).text() == ens_text(old(output).text(), self.grammar, self.grammar.nts(), self.grammar.nts().len() as int),
//@at start
    broadcast use lemma_assoc;
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == self.grammar.nts(), self.grammar.wf(),
            output.text() == ens_text(old(output).text(), self.grammar, it0.seq(), it0.pos() as int),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_assoc;
//@end
//@fn lapex-cpp-codegen/src/lr_parser/action_goto.rs CodeWriter::write_goto_case_header wr
//@spec
    requires moves_ok(*entry, symbol), named_sym(self.grammar, symbol),
    ensures r is Ok ==> r->Ok_0 == (e_mv(*entry) is Some) && final(output).text() == (if e_mv(*entry) is Some { old(output).text() + "case "@ + label(self.grammar, symbol) + ":\n"@ } else { old(output).text() }),
//@at start
    broadcast use lemma_assoc;
//@end
//@fn lapex-cpp-codegen/src/lr_parser/action_goto.rs CodeWriter::write_goto_case_body wr
//@spec
    ensures r is Ok && e_mv(*entry) is Some ==> final(output).text() == mbody_text(old(output).text(), e_mv(*entry)->0),
//@at start
    broadcast use lemma_assoc;
//@end
//@fn lapex-cpp-codegen/src/lr_parser/action_goto.rs CodeWriter::write_action_case_header wr
//@spec
    requires is_t(symbol) || is_nt(symbol), named_sym(self.grammar, symbol),
    ensures r is Ok ==> r->Ok_0 == (e_act(self.grammar, *entry) is Some) && final(output).text() == (if e_act(self.grammar, *entry) is Some { old(output).text() + "case "@ + label(self.grammar, symbol) + ":\n"@ } else { old(output).text() }),
//@at start
    broadcast use lemma_assoc;
    proof { assert("lexer::TokenType::TK_EOF"@ =~= "lexer::TokenType::TK_"@ + "EOF"@) by { reveal_strlit("lexer::TokenType::TK_EOF"); reveal_strlit("lexer::TokenType::TK_"); reveal_strlit("EOF"); } }
//@end
//@fn lapex-cpp-codegen/src/lr_parser/action_goto.rs CodeWriter::write_action_case_body wr
//@spec
    requires self.ok(), rd_ok(self.grammar, *entry),
    ensures r is Ok && e_act(self.grammar, *entry) is Some ==> final(output).text() == abody_text(old(output).text(), e_act(self.grammar, *entry)->0),
//@at start
    broadcast use {lemma_assoc, axiom_ptr};
    proof { if let TableEntry::Reduce { rule } = *entry { let i = rule_ix(self.grammar, *rule); assert(self.grammar.rules@[i] == *rule); } }
//@end
//@fn lapex-cpp-codegen/src/lr_parser/action_goto.rs CodeWriter::translate_vecs_to_elements
//@spec
    requires pair.1 matches Some(v) ==> v@.len() == 1,
    ensures r.0 == pair.0, match pair.1 { Some(v) => r.1 is Some && *r.1->0 == v@[0], None => r.1 is None },
//@end
// what is handed to a writer of cases
pub type Cell1<'a, 'g, 'r> = (Symbol, Option<&'a TE<'g, 'r>>);
pub open spec fn keys<'a, 'g, 'r>(s: Seq<Cell1<'a, 'g, 'r>>) -> Seq<Symbol> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn pick_ix<'a, 'g, 'r>(s: Seq<Cell1<'a, 'g, 'r>>, x: Symbol) -> int { choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x }
pub open spec fn pick<'a, 'g, 'r>(s: Seq<Cell1<'a, 'g, 'r>>, x: Symbol) -> Option<&'a TE<'g, 'r>> { s[pick_ix(s, x)].1 }
pub open spec fn mv_in<'a, 'g, 'r>(s: Seq<Cell1<'a, 'g, 'r>>) -> spec_fn(Symbol) -> Option<Mv> { |x: Symbol| match pick(s, x) { Some(e) => e_mv(*e), None => None } }
pub open spec fn act_in<'a, 'g, 'r>(g: &Grammar, s: Seq<Cell1<'a, 'g, 'r>>) -> spec_fn(Symbol) -> Option<Act> { |x: Symbol| match pick(s, x) { Some(e) => e_act(g, *e), None => None } }
pub open spec fn cells_ok<'a, 'g, 'r>(g: &Grammar, s: Seq<Cell1<'a, 'g, 'r>>) -> bool {
    keys(s).no_duplicates() && forall|i: int| 0 <= i < s.len() ==> named_sym(g, (#[trigger] s[i]).0) && (s[i].1 matches Some(e) ==> moves_ok(*e, s[i].0) && rd_ok(g, *e))
}
pub proof fn lemma_pick<'a, 'g, 'r>(s: Seq<Cell1<'a, 'g, 'r>>, k: int)
    requires keys(s).no_duplicates(), 0 <= k < s.len(),
    ensures pick(s, s[k].0) == s[k].1,
{
    let x = s[k].0;
    let i = pick_ix(s, x);
    assert(s[k].0 == x);
    assert(s[i].0 == x);
    if i != k { assert(keys(s)[i] != keys(s)[k]); }
}
pub open spec fn goto_cases(g: &Grammar, f: spec_fn(Symbol) -> Option<Mv>, xs: Seq<Symbol>, p: Seq<char>, r: Seq<char>) -> bool {
    exists|a: Seq<KArm<Symbol, Mv>>| r == #[trigger] mswitch_text(p, g, a) && k_in(a, f, xs)
}
//@fn lapex-cpp-codegen/src/lr_parser/action_goto.rs CodeWriter::write_goto_cases wr
//@spec
    requires self.ok(), states.pos() == 0, cells_ok(self.grammar, states.seq()),
    ensures r is Ok ==> goto_cases(self.grammar, mv_in(states.seq()), keys(states.seq()), old(output).text(), final(output).text()),
//@at start
    broadcast use lemma_assoc;
    let ghost mut a: Seq<KArm<Symbol, Mv>> = seq![];
    let ghost s = states.seq();
    let ghost xs = keys(s);
    let ghost f = mv_in(s);
    let ghost p0 = output.text();
    proof { lemma_k0::<Symbol, Mv>(f, xs); }
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == s, cells_ok(self.grammar, s), xs == keys(s), f == mv_in(s), self.ok(),
            k_in(a, f, xs.take(it0.pos() as int)),
            output.text() == mcases_text(p0, self.grammar, a),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_assoc;
    let ghost k = it0.pos() - 1;
    proof {
        assert((symbol, entry) == s[k]);
        lemma_pick(s, k);
        lemma_k(a, f, xs, k);
        a = k_put(a, f, symbol);
    }
//@at loop 0 after
    proof { assert(xs.take(it0.pos() as int) =~= xs); }
//@at end
    proof { assert(vx_ret is Ok ==> output.text() == mswitch_text(p0, self.grammar, a)); }
//@end
pub open spec fn expect_ok(g: &Grammar, v: Seq<Option<SymbolIdx>>) -> bool { forall|i: int| 0 <= i < v.len() ==> ((#[trigger] v[i]) matches Some(t) ==> g.tokens@.contains_key(Symbol::Terminal(t))) }
pub open spec fn aswitch_text(p: Seq<char>, g: &Grammar, a: Seq<KArm<Symbol, Act>>, m: Seq<char>) -> Seq<char> { refused(acases_text(p, g, a), m) }
pub open spec fn act_cases(g: &Grammar, f: spec_fn(Symbol) -> Option<Act>, xs: Seq<Symbol>, p: Seq<char>, r: Seq<char>) -> bool {
    exists|a: Seq<KArm<Symbol, Act>>, m: Seq<char>| r == #[trigger] aswitch_text(p, g, a, m) && k_in(a, f, xs)
}
//@fn lapex-cpp-codegen/src/lr_parser/action_goto.rs CodeWriter::write_action_cases wr
//@spec
    requires self.ok(), states.pos() == 0, cells_ok(self.grammar, states.seq()), forall|i: int| 0 <= i < states.seq().len() ==> is_t((#[trigger] states.seq()[i]).0),
    ensures r is Ok ==> act_cases(self.grammar, act_in(self.grammar, states.seq()), keys(states.seq()), old(output).text(), final(output).text()),
//@at start
    broadcast use lemma_assoc;
    let ghost mut a: Seq<KArm<Symbol, Act>> = seq![];
    let ghost s = states.seq();
    let ghost xs = keys(s);
    let ghost f = act_in(self.grammar, s);
    let ghost p0 = output.text();
    proof { lemma_k0::<Symbol, Act>(f, xs); }
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == s, cells_ok(self.grammar, s), xs == keys(s), f == act_in(self.grammar, s), self.ok(), expect_ok(self.grammar, expected_symbols@),
            forall|i: int| 0 <= i < s.len() ==> is_t((#[trigger] s[i]).0),
            k_in(a, f, xs.take(it0.pos() as int)),
            output.text() == acases_text(p0, self.grammar, a),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_assoc;
    let ghost k = it0.pos() - 1;
    proof {
        assert((symbol, entry) == s[k]);
        assert(is_t(s[k].0));
        lemma_pick(s, k);
        lemma_k(a, f, xs, k);
        a = k_put(a, f, symbol);
    }
//@at loop 0 after
    proof { assert(xs.take(it0.pos() as int) =~= xs); }
//@loop 1
        invariant it1.pos() <= it1.seq().len(), expect_ok(self.grammar, it1.seq()),
        decreases it1.seq().len() - it1.pos(),
//@at exits since token_names
    proof { if vx_ret is Ok { assert(output.text() == aswitch_text(p0, self.grammar, a, joined(token_names@, ", "))); } }
//@end
// some cell of state i, for one of xs, holds a shift
pub open spec fn shifts_in(m: Cells, i: usize, xs: Seq<Symbol>) -> bool { exists|k: int| 0 <= k < xs.len() && has_sh(cell(m, i as int, #[trigger] xs[k])) }
pub open spec fn has_sh(s: Seq<TE>) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]) is Shift }
//@fn lapex-parser/src/lr_parser/mod.rs ActionGotoTable::state_has_shift
//@spec
    ensures r == (shifts_in(self.entries@, state, grammar.nts()) || shifts_in(self.entries@, state, grammar.ts().push(Symbol::End))),
//@at start
    let ghost xs = grammar.nts() + grammar.ts().push(Symbol::End);
    let ghost mut b0 = false;
    proof { assert(xs.take(0) =~= seq![]); }
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), listed(self.entries@, state, xs, it0.seq()),
            acc0 == shifts_in(self.entries@, state, xs.take(it0.pos() as int)),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    let ghost k = it0.pos() - 1;
    proof { b0 = acc0; assert(e0 == it0.seq()[k]); lemma_shifts_step(self.entries@, state, xs, k); }
//@loop 1
        invariant_except_break
            acc0 == b0, forall|j: int| 0 <= j < it1.pos() ==> !((#[trigger] cell(self.entries@, state as int, xs[k])[j]) is Shift),
        invariant
            it1.pos() <= it1.seq().len(), it1.seq().len() == cell(self.entries@, state as int, xs[k]).len(),
            forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]) == cell(self.entries@, state as int, xs[k])[j],
        ensures acc0 == (b0 || has_sh(cell(self.entries@, state as int, xs[k]))),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    proof { assert(*e0__ == cell(self.entries@, state as int, xs[k])[it1.pos() - 1]); }
//@at loop 0 after
    proof {
        let n = grammar.nts();
        let t = grammar.ts().push(Symbol::End);
        assert(xs.take(it0.pos() as int) =~= xs);
        if shifts_in(self.entries@, state, n) { let k = choose|k: int| 0 <= k < n.len() && has_sh(cell(self.entries@, state as int, #[trigger] n[k])); assert(xs[k] == n[k]); }
        if shifts_in(self.entries@, state, t) { let k = choose|k: int| 0 <= k < t.len() && has_sh(cell(self.entries@, state as int, #[trigger] t[k])); assert(xs[n.len() + k] == t[k]); }
        if acc0 {
            let k = choose|k: int| 0 <= k < xs.len() && has_sh(cell(self.entries@, state as int, #[trigger] xs[k]));
            if k < n.len() { assert(xs[k] == n[k]); } else { assert(xs[k] == t[k - n.len()]); }
        }
    }
//@end
pub proof fn lemma_shifts_step(m: Cells, i: usize, xs: Seq<Symbol>, k: int)
    requires 0 <= k < xs.len(),
    ensures shifts_in(m, i, xs.take(k + 1)) == (shifts_in(m, i, xs.take(k)) || has_sh(cell(m, i as int, xs[k]))),
{
    let s0 = xs.take(k);
    let s = xs.take(k + 1);
    if shifts_in(m, i, s0) { let j = choose|j: int| 0 <= j < s0.len() && has_sh(cell(m, i as int, #[trigger] s0[j])); assert(s[j] == s0[j]); }
    if has_sh(cell(m, i as int, xs[k])) { assert(s[k] == xs[k]); }
    if shifts_in(m, i, s) { let j = choose|j: int| 0 <= j < s.len() && has_sh(cell(m, i as int, #[trigger] s[j])); if j < k { assert(s0[j] == s[j]); } }
}

// ---- the two tables ---------------------------------------------------------------------------------------
pub proof fn lemma_cong<K, V>(a: Seq<KArm<K, V>>, f: spec_fn(K) -> Option<V>, h: spec_fn(K) -> Option<V>, xs: Seq<K>)
    requires k_in(a, f, xs), forall|k: int| 0 <= k < xs.len() ==> f(#[trigger] xs[k]) == h(xs[k]),
    ensures k_in(a, h, xs),
{
    assert forall|k: K| #[trigger] xs.contains(k) implies f(k) == h(k) by { let j = choose|j: int| 0 <= j < xs.len() && xs[j] == k; assert(f(xs[j]) == h(xs[j])); }
}
pub proof fn lemma_ones<'a, 'g, 'r>(w: &CodeWriter<'g, 'r>, q: usize, xs: Seq<Symbol>, s: Seq<Cell1<'a, 'g, 'r>>)
    requires w.ok(), q < w.parser_table.state_count, xs_ok(w.grammar, xs), ones(w.c(), q as int, xs, s),
    ensures
        cells_ok(w.grammar, s), keys(s) == xs,
        forall|k: int| 0 <= k < xs.len() ==> mv_in(s)(#[trigger] xs[k]) == mv_at(w.c(), q)(xs[k]),
        forall|k: int| 0 <= k < xs.len() ==> act_in(w.grammar, s)(#[trigger] xs[k]) == act_at(w.grammar, w.c(), q)(xs[k]),
{
    lemma_xs(w.grammar, xs);
    assert(keys(s) =~= xs) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] keys(s)[i] == xs[i] by { assert(s[i].0 == xs[i]); } }
    assert forall|i: int| 0 <= i < s.len() implies named_sym(w.grammar, (#[trigger] s[i]).0) && (s[i].1 matches Some(e) ==> moves_ok(*e, s[i].0) && rd_ok(w.grammar, *e)) by {
        assert(cell(w.c(), q as int, xs[i]).len() <= 1);
    }
    assert forall|k: int| 0 <= k < xs.len() implies mv_in(s)(#[trigger] xs[k]) == mv_at(w.c(), q)(xs[k]) && act_in(w.grammar, s)(xs[k]) == act_at(w.grammar, w.c(), q)(xs[k]) by {
        assert(s[k].0 == xs[k]);
        lemma_pick(s, k);
        assert(cell(w.c(), q as int, xs[k]).len() <= 1);
    }
}
pub ghost struct GRow { pub q: usize, pub t: Seq<KArm<Symbol, Mv>>, pub n: Seq<KArm<Symbol, Mv>> }
pub ghost struct ARow { pub q: usize, pub t: Seq<KArm<Symbol, Act>>, pub m: Seq<char> }
// some symbol takes the parser out of state q
pub open spec fn leaves(g: &Grammar, c: Cells, q: usize) -> bool { moves_on(c, q, toks(g)) || moves_on(c, q, g.nts()) }
pub open spec fn moves_on(c: Cells, q: usize, xs: Seq<Symbol>) -> bool { exists|k: int| 0 <= k < xs.len() && mv_at(c, q)(#[trigger] xs[k]) is Some }
pub open spec fn grow_ok(g: &Grammar, c: Cells, a: GRow) -> bool { k_in(a.t, mv_at(c, a.q), toks(g)) && k_in(a.n, mv_at(c, a.q), g.nts()) }
pub open spec fn grows_in(a: Seq<GRow>, g: &Grammar, c: Cells, n: usize) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).q < n && grow_ok(g, c, a[i])
    &&& forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j ==> (#[trigger] a[i]).q != (#[trigger] a[j]).q
    &&& forall|q: usize| q < n && #[trigger] leaves(g, c, q) ==> exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).q == q
}
pub open spec fn arows_in(a: Seq<ARow>, g: &Grammar, c: Cells, n: usize) -> bool {
    a.len() == n && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).q == i && k_in(a[i].t, act_at(g, c, a[i].q), toks(g))
}
pub open spec fn grow_text(p: Seq<char>, g: &Grammar, a: GRow) -> Seq<char> {
    let t = mswitch_text(p + "case "@ + dec(a.q as nat) + ": {\n"@ + "if (current_symbol.kind == SymbolKind::Terminal) {\n"@ + "switch (static_cast<lexer::TokenType>(current_symbol.identifier)) {\n"@, g, a.t);
    let n = mswitch_text(t + "}\n"@ + "} else if (current_symbol.kind == SymbolKind::NonTerminal) {\n"@ + "switch (static_cast<parser::NonTerminalType>(current_symbol.identifier)) {\n"@, g, a.n);
    n + "}\n"@ + "} else {\n"@ + "// There was a state atop the stack when there should have been a symbol.\n"@ + "std::terminate();\n"@ + "}\n"@ + "}\n"@ + "break;\n"@
}
pub open spec fn grows_text(p: Seq<char>, g: &Grammar, a: Seq<GRow>) -> Seq<char>
    decreases a.len(),
{ if a.len() == 0 { p } else { grow_text(grows_text(p, g, a.drop_last()), g, a.last()) } }
pub open spec fn arow_text(p: Seq<char>, g: &Grammar, a: ARow) -> Seq<char> {
    aswitch_text(p + "case "@ + dec(a.q as nat) + ": {\n"@ + "switch (lookahead_token) {\n"@, g, a.t, a.m) + "}\n"@ + "}\n"@ + "break;\n"@
}
pub open spec fn arows_text(p: Seq<char>, g: &Grammar, a: Seq<ARow>) -> Seq<char>
    decreases a.len(),
{ if a.len() == 0 { p } else { arow_text(arows_text(p, g, a.drop_last()), g, a.last()) } }
pub open spec fn by_state(p: Seq<char>) -> Seq<char> { p + "switch (state) {\n"@ }
pub open spec fn no_state(p: Seq<char>) -> Seq<char> { p + "default:\n"@ + "// Encountered a parser state that does not exist.\n"@ + "std::terminate();\n"@ + "}\n"@ }
// the entries of a cell, one at a time
pub proof fn lemma_one<'a, 'g, 'r>(w: &CodeWriter<'g, 'r>, q: usize, xs: Seq<Symbol>, s: Seq<(Symbol, Option<&'a Vec<TE<'g, 'r>>>)>, k: int)
    requires w.ok(), q < w.parser_table.state_count, listed(w.c(), q, xs, s), 0 <= k < s.len(),
    ensures s[k].0 == xs[k], match s[k].1 { Some(v) => v@.len() == 1 && v@ == cell(w.c(), q as int, xs[k]), None => cell(w.c(), q as int, xs[k]).len() == 0 },
{ assert(cell(w.c(), q as int, xs[k]).len() <= 1); }
//@fn lapex-cpp-codegen/src/lr_parser/action_goto.rs CodeWriter::write_action_table wr
//@spec
    requires self.ok(),
    ensures r is Ok ==> exists|a: Seq<ARow>| final(output).text() == no_state(#[trigger] arows_text(by_state(old(output).text()), self.grammar, a)) && arows_in(a, self.grammar, self.c(), self.parser_table.state_count),
//@at start
    hide(k_in);
    broadcast use lemma_assoc;
    let ghost mut a: Seq<ARow> = seq![];
    let ghost mut p0: Seq<char> = seq![];
    let ghost mut p1: Seq<char> = seq![];
    let ghost mut s1 = Seq::<Cell1>::empty();
    let ghost g = self.grammar;
    let ghost p = by_state(output.text());
//@loop 0
        invariant
            self.ok(), g == self.grammar, it0.pos() <= it0.seq().len(), it0.seq().len() == self.parser_table.state_count,
            forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == i,
            arows_in(a, g, self.c(), it0.pos() as usize),
            output.text() == arows_text(p, g, a),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_assoc;
    proof { p0 = output.text(); lemma_xs(g, toks(g)); }
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), listed(self.c(), state, toks(g), it1.seq()), state < self.parser_table.state_count,
            ones(self.c(), state as int, toks(g).take(it1.pos() as int), acc0@),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 before
    proof { p1 = output.text(); }
//@at loop 1 start
    proof {
        lemma_one(self, state, toks(g), it1.seq(), it1.pos() - 1);
    }
//@at loop 1 after
    proof {
        assert(toks(g).take(it1.pos() as int) =~= toks(g));
        s1 = acc0@;
        lemma_ones(self, state, toks(g), s1);
        assert forall|i: int| 0 <= i < s1.len() implies is_t((#[trigger] s1[i]).0) by { assert(s1[i].0 == toks(g)[i]); if i < g.ts().len() { assert(g.ts()[i] is Terminal); } }
    }
//@at loop 0 end
    proof {
        let (t, m) = choose|t: Seq<KArm<Symbol, Act>>, m: Seq<char>| output.text() == #[trigger] aswitch_text(p1, g, t, m) + "}\n"@ + "}\n"@ + "break;\n"@ && k_in(t, act_in(g, s1), toks(g));
        lemma_cong(t, act_in(g, s1), act_at(g, self.c(), state), toks(g));
        let x = ARow { q: state, t, m };
        assert(output.text() == arow_text(p0, g, x));
        assert(a.push(x).drop_last() =~= a);
        a = a.push(x);
    }
//@at exits
    proof { if vx_ret is Ok { assert(output.text() == no_state(arows_text(p, g, a))); } }
//@end
// some cell of state i, for one of xs, holds an acceptance
pub open spec fn accepts_in(m: Cells, i: usize, xs: Seq<Symbol>) -> bool { exists|k: int| 0 <= k < xs.len() && has_ac(cell(m, i as int, #[trigger] xs[k])) }
pub open spec fn has_ac(s: Seq<TE>) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]) is Accept }
pub proof fn lemma_accepts_step(m: Cells, i: usize, xs: Seq<Symbol>, k: int)
    requires 0 <= k < xs.len(),
    ensures accepts_in(m, i, xs.take(k + 1)) == (accepts_in(m, i, xs.take(k)) || has_ac(cell(m, i as int, xs[k]))),
{
    let s0 = xs.take(k);
    let s = xs.take(k + 1);
    if accepts_in(m, i, s0) { let j = choose|j: int| 0 <= j < s0.len() && has_ac(cell(m, i as int, #[trigger] s0[j])); assert(s[j] == s0[j]); }
    if has_ac(cell(m, i as int, xs[k])) { assert(s[k] == xs[k]); }
    if accepts_in(m, i, s) { let j = choose|j: int| 0 <= j < s.len() && has_ac(cell(m, i as int, #[trigger] s[j])); if j < k { assert(s0[j] == s[j]); } }
}
pub proof fn lemma_leaves(w: &CodeWriter, q: usize)
    requires w.ok(), q < w.parser_table.state_count, leaves(w.grammar, w.c(), q),
    ensures shifts_in(w.c(), q, w.grammar.nts()) || shifts_in(w.c(), q, toks(w.grammar)) || accepts_in(w.c(), q, w.grammar.nts()),
{
    let g = w.grammar;
    let c = w.c();
    if moves_on(c, q, toks(g)) {
        let k = choose|k: int| 0 <= k < toks(g).len() && mv_at(c, q)(#[trigger] toks(g)[k]) is Some;
        let x = toks(g)[k];
        assert(is_t(x)) by { if k < g.ts().len() { assert(g.ts()[k] is Terminal); } }
        assert(w.entry_ok(cell(c, q as int, x)[0], x));
        assert(cell(c, q as int, x)[0] is Shift);
        assert(has_sh(cell(c, q as int, x)));
    } else {
        let k = choose|k: int| 0 <= k < g.nts().len() && mv_at(c, q)(#[trigger] g.nts()[k]) is Some;
        let x = g.nts()[k];
        assert(has_sh(cell(c, q as int, x)) || has_ac(cell(c, q as int, x))) by { assert(cell(c, q as int, x)[0] is Shift || cell(c, q as int, x)[0] is Accept); }
    }
}
//@fn lapex-cpp-codegen/src/lr_parser/action_goto.rs CodeWriter::write_goto_table wr
//@spec
    requires self.ok(),
    ensures r is Ok ==> exists|a: Seq<GRow>| final(output).text() == no_state(#[trigger] grows_text(by_state(old(output).text()), self.grammar, a)) && grows_in(a, self.grammar, self.c(), self.parser_table.state_count),
//@at start
    hide(k_in);
    broadcast use lemma_assoc;
    let ghost mut a: Seq<GRow> = seq![];
    let ghost mut p0: Seq<char> = seq![];
    let ghost mut p1: Seq<char> = seq![];
    let ghost mut p2: Seq<char> = seq![];
    let ghost mut s1 = Seq::<Cell1>::empty();
    let ghost mut s2 = Seq::<Cell1>::empty();
    let ghost mut ta: Seq<KArm<Symbol, Mv>> = seq![];
    let ghost mut b0 = false;
    let ghost mut taken = false;
    let ghost g = self.grammar;
    let ghost c = self.c();
    let ghost p = by_state(output.text());
//@loop 0
        invariant
            self.ok(), g == self.grammar, c == self.c(), it0.pos() <= it0.seq().len(), it0.seq().len() == self.parser_table.state_count,
            forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == i,
            grows_in(a, g, c, it0.pos() as usize),
            output.text() == grows_text(p, g, a),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_assoc;
    proof { p0 = output.text(); taken = false; lemma_xs(g, toks(g)); lemma_xs(g, g.nts()); assert(g.nts().take(0) =~= seq![]); if leaves(g, c, state) { lemma_leaves(self, state); } }
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), listed(c, state, g.nts(), it1.seq()),
            acc0 == accepts_in(c, state, g.nts().take(it1.pos() as int)),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost k = it1.pos() - 1;
    proof { b0 = acc0; assert(e0 == it1.seq()[k]); lemma_accepts_step(c, state, g.nts(), k); }
//@loop 2
        invariant_except_break
            acc0 == b0, forall|j: int| 0 <= j < it2.pos() ==> !((#[trigger] cell(c, state as int, g.nts()[k])[j]) is Accept),
        invariant
            it2.pos() <= it2.seq().len(), it2.seq().len() == cell(c, state as int, g.nts()[k]).len(),
            forall|j: int| 0 <= j < it2.seq().len() ==> *(#[trigger] it2.seq()[j]) == cell(c, state as int, g.nts()[k])[j],
        ensures acc0 == (b0 || has_ac(cell(c, state as int, g.nts()[k]))),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    proof { assert(*it2.seq()[it2.pos() - 1] == cell(c, state as int, g.nts()[k])[it2.pos() - 1]); }
//@at loop 1 after
    proof { assert(g.nts().take(it1.pos() as int) =~= g.nts()); }
//@loop 3
        invariant
            it3.pos() <= it3.seq().len(), listed(c, state, toks(g), it3.seq()),
            ones(c, state as int, toks(g).take(it3.pos() as int), acc1@),
        decreases it3.seq().len() - it3.pos(),
//@at loop 3 before
    proof { p1 = output.text(); }
//@at loop 3 start
    proof {
        lemma_one(self, state, toks(g), it3.seq(), it3.pos() - 1);
    }
//@at loop 3 after
    proof {
        assert(toks(g).take(it3.pos() as int) =~= toks(g));
        taken = true;
        s1 = acc1@;
        lemma_ones(self, state, toks(g), s1);
    }
//@loop 4
        invariant
            it4.pos() <= it4.seq().len(), listed(c, state, g.nts(), it4.seq()),
            ones(c, state as int, g.nts().take(it4.pos() as int), acc2@),
        decreases it4.seq().len() - it4.pos(),
//@at loop 4 before
    proof {
        p2 = output.text();
        ta = choose|t: Seq<KArm<Symbol, Mv>>| output.text() == (#[trigger] mswitch_text(p1, g, t)) + "}\n"@ + "} else if (current_symbol.kind == SymbolKind::NonTerminal) {\n"@ + "switch (static_cast<parser::NonTerminalType>(current_symbol.identifier)) {\n"@ && k_in(t, mv_in(s1), toks(g));
        lemma_cong(ta, mv_in(s1), mv_at(c, state), toks(g));
    }
//@at loop 4 start
    proof {
        lemma_one(self, state, g.nts(), it4.seq(), it4.pos() - 1);
    }
//@at loop 4 after
    proof {
        assert(g.nts().take(it4.pos() as int) =~= g.nts());
        s2 = acc2@;
        lemma_ones(self, state, g.nts(), s2);
    }
//@at loop 0 end
    proof {
        if taken {
            let n = choose|t: Seq<KArm<Symbol, Mv>>| output.text() == (#[trigger] mswitch_text(p2, g, t)) + "}\n"@ + "} else {\n"@ + "// There was a state atop the stack when there should have been a symbol.\n"@ + "std::terminate();\n"@ + "}\n"@ + "}\n"@ + "break;\n"@ && k_in(t, mv_in(s2), g.nts());
            lemma_cong(n, mv_in(s2), mv_at(c, state), g.nts());
            let x = GRow { q: state, t: ta, n };
            assert(output.text() == grow_text(p0, g, x));
            assert(a.push(x).drop_last() =~= a);
            lemma_grows_step(a, g, c, state, x);
            a = a.push(x);
        }
    }
//@at exits
    proof { if vx_ret is Ok { assert(output.text() == no_state(grows_text(p, g, a))); } }
//@end
pub proof fn lemma_grows_step(a: Seq<GRow>, g: &Grammar, c: Cells, q: usize, x: GRow)
    requires grows_in(a, g, c, q), x.q == q, q < usize::MAX, grow_ok(g, c, x),
    ensures grows_in(a.push(x), g, c, (q + 1) as usize),
{
    let b = a.push(x);
    assert forall|r: usize| r < q + 1 && #[trigger] leaves(g, c, r) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).q == r by {
        if r == q { assert(b[a.len() as int].q == r); } else { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).q == r; assert(b[i].q == r); }
    }
}

// ---- switches over the rules ------------------------------------------------------------------------------
pub open spec fn plain(s: Seq<Symbol>) -> Seq<Symbol>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else if s.last() == Symbol::Epsilon { plain(s.drop_last()) } else { plain(s.drop_last()).push(s.last()) } }
pub proof fn lemma_plain_take(s: Seq<Symbol>, k: int)
    requires 0 <= k < s.len(),
    ensures plain(s.take(k + 1)) == (if s[k] == Symbol::Epsilon { plain(s.take(k)) } else { plain(s.take(k)).push(s[k]) }), plain(s.take(k)).len() <= k,
    decreases k,
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    if k > 0 { lemma_plain_take(s, k - 1); }
}
pub proof fn lemma_lhs_rules(g: &Grammar, k: int, x: Symbol)
    requires 0 <= k <= g.rules@.len(),
    ensures
        lhs_rules(g, k, x).no_duplicates(),
        forall|i: int| #[trigger] lhs_rules(g, k, x).contains(i) <==> 0 <= i < k && g.rules@[i].l() == x,
    decreases k,
{
    if k > 0 {
        lemma_lhs_rules(g, k - 1, x);
        let s = lhs_rules(g, k - 1, x);
        lemma_push_has(s, k - 1);
        assert(!s.contains(k - 1));
        assert(s.push(k - 1).no_duplicates());
    }
}
// the numbers of the rules, in some order
pub open spec fn each_rule(a: Seq<int>, g: &Grammar) -> bool {
    &&& a.no_duplicates()
    &&& forall|i: int| #[trigger] a.contains(i) <==> 0 <= i < g.rules@.len()
}
pub open spec fn rules_by(a: Seq<int>, g: &Grammar, ks: Seq<VxPtr<Rule>>) -> bool {
    a.len() == ks.len() && forall|i: int| 0 <= i < a.len() ==> 0 <= (#[trigger] a[i]) < g.rules@.len() && ks[i] == vx_ptr(g.rules@[a[i]])
}
pub proof fn lemma_each_rule(a: Seq<int>, g: &Grammar, m: Map<VxPtr<Rule>, usize>)
    requires index_ok(g, m), rules_by(a, g, vx_order(m.dom())),
    ensures each_rule(a, g),
{
    broadcast use {vx_axioms, axiom_ptr};
    let o = vx_order(m.dom());
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { assert(o[i] != o[j]); }
    assert forall|i: int| 0 <= i < g.rules@.len() implies #[trigger] a.contains(i) by {
        let k = vx_ptr(g.rules@[i]);
        assert(m.contains_key(k));
        assert(o.contains(k));
        let j = choose|j: int| 0 <= j < o.len() && o[j] == k;
        assert(vx_ptr(g.rules@[a[j]]).at() == k.at());
        assert(m[vx_ptr(g.rules@[a[j]])] == a[j]);
        assert(a[j] == i);
    }
}
pub open spec fn by_rule(p: Seq<char>) -> Seq<char> { p + "switch(rule) {\n"@ }
pub open spec fn no_rule(p: Seq<char>) -> Seq<char> { p + "default:\n"@ + "// Tried reducing non-existent rule.\n"@ + "std::terminate();\n"@ + "}\n"@ }
// as many states and symbols come off the stack as the right-hand side has symbols, the left-hand side goes on
pub open spec fn sred_text(p: Seq<char>, g: &Grammar, i: int) -> Seq<char> {
    let c = p + "case "@ + dec(i as nat) + ": {\n"@;
    let n = plain(g.rules@[i].rhs@).len();
    let d = if n > 0 {
        c + "for (size_t i = 0; i < "@ + dec(n) + "; i++) {\n"@ + "parse_stack.pop_back();\n"@ + "Symbol reduced_symbol = parse_stack.back();\n"@ + "rev_reduced_symbols.push_back(reduced_symbol);\n"@ + "parse_stack.pop_back();\n"@ + "}\n"@
    } else { c };
    d + "Symbol reduced_non_terminal{SymbolKind::NonTerminal, static_cast<uint32_t>(NonTerminalType::"@ + en(g, g.rules@[i].l()) + ")};\n"@ + "parse_stack.push_back(reduced_non_terminal);\n"@ + "return;\n"@ + "}\n"@
}
pub open spec fn sreds_text(p: Seq<char>, g: &Grammar, a: Seq<int>) -> Seq<char>
    decreases a.len(),
{ if a.len() == 0 { p } else { sred_text(sreds_text(p, g, a.drop_last()), g, a.last()) } }
//@fn lapex-cpp-codegen/src/lr_parser/mod.rs get_rule_from_pointer external
//@spec
    ensures *r == rule.at(),
//@end
//@fn lapex-cpp-codegen/src/lr_parser/mod.rs CodeWriter::write_stack_reduce_table wr
//@spec
    requires self.ok(),
    ensures r is Ok ==> exists|a: Seq<int>| final(output).text() == no_rule(#[trigger] sreds_text(by_rule(old(output).text()), self.grammar, a)) && each_rule(a, self.grammar),
//@at start
    broadcast use lemma_assoc;
    let ghost g = self.grammar;
    let ghost ord = vx_order(self.rule_index_map@.dom());
    let ghost p = by_rule(output.text());
    let ghost mut a: Seq<int> = seq![];
    let ghost mut p0: Seq<char> = seq![];
    proof { assert(ord.take(0) =~= seq![]); }
//@loop 0
        invariant
            self.ok(), g == self.grammar, ord == vx_order(self.rule_index_map@.dom()), it0.pos() <= it0.seq().len(), it0.seq().len() == ord.len(),
            forall|i: int| 0 <= i < ord.len() ==> *(#[trigger] it0.seq()[i]).0 == ord[i] && *it0.seq()[i].1 == self.rule_index_map@[ord[i]],
            rules_by(a, g, ord.take(it0.pos() as int)),
            output.text() == sreds_text(p, g, a),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use {lemma_assoc, axiom_ptr, vx_axioms};
    let ghost k = it0.pos() - 1;
    let ghost j = *rule_index as int;
    proof {
        p0 = output.text();
        assert(self.rule_index_map@.contains_key(ord[k]));
        let q = choose|q: int| 0 <= q < g.rules@.len() && ord[k] == vx_ptr(#[trigger] g.rules@[q]);
        assert(j == q);
        lemma_takes(ord, k);
        assert(rule.at() == g.rules@[j]);
        let r = rule.at();
        assert(rule_wf(g, g.rules@[j]));
        assert(r.rhs@.len() == r.rhs.len());
    }
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), it1.seq().len() == rule.rhs@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == rule.rhs@[i],
            acc0 == plain(rule.rhs@.take(it1.pos() as int)).len(), rule.rhs@.len() <= usize::MAX,
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    proof { lemma_plain_take(rule.rhs@, it1.pos() - 1); }
//@at loop 1 after
    proof { assert(rule.rhs@.take(it1.pos() as int) =~= rule.rhs@); }
//@at loop 0 end
    proof {
        assert(output.text() == sred_text(p0, g, j));
        assert(a.push(j).drop_last() =~= a);
        a = a.push(j);
    }
//@at exits
    proof { if vx_ret is Ok { assert(ord.take(ord.len() as int) =~= ord); lemma_each_rule(a, g, self.rule_index_map@); assert(output.text() == no_rule(sreds_text(p, g, a))); } }
//@end
// ---- visitor calls ----------------------------------------------------------------------------------------
pub open spec fn bn(g: &Grammar, x: Symbol) -> Seq<char> { if g.productions@.contains_key(x) { g.productions@[x]@ } else { fmt1("anon{}", dec(x->NonTerminal_0 as nat)) } }
// the method for rule i: numbered when its left-hand side has several rules
pub open spec fn method(p: Seq<char>, g: &Grammar, i: int) -> Seq<char> {
    let v = lhs_rules(g, g.rules@.len() as int, g.rules@[i].l());
    if v.len() == 1 { p + "reduce_"@ + bn(g, g.rules@[i].l()) } else { p + "reduce_"@ + bn(g, g.rules@[i].l()) + "_"@ + dec((v.index_of(i) + 1) as nat) }
}
pub open spec fn vred_text(p: Seq<char>, g: &Grammar, i: int) -> Seq<char> {
    method(p + "case "@ + dec(i as nat) + ": {\n"@ + "visitor."@, g, i) + "();\n"@ + "return;\n"@ + "}\n"@
}
pub open spec fn vreds_text(p: Seq<char>, g: &Grammar, a: Seq<int>) -> Seq<char>
    decreases a.len(),
{ if a.len() == 0 { p } else { vred_text(vreds_text(p, g, a.drop_last()), g, a.last()) } }
pub proof fn lemma_lit2()
    ensures "visitor.reduce_"@ == "visitor."@ + "reduce_"@, "virtual void reduce_"@ == "virtual void "@ + "reduce_"@,
{
    reveal_strlit("visitor.reduce_"); reveal_strlit("visitor."); reveal_strlit("reduce_"); reveal_strlit("virtual void reduce_"); reveal_strlit("virtual void ");
    assert("visitor.reduce_"@ =~= "visitor."@ + "reduce_"@);
    assert("virtual void reduce_"@ =~= "virtual void "@ + "reduce_"@);
}
//@fn lapex-cpp-codegen/src/lr_parser/mod.rs CodeWriter::get_non_terminal_name fmt
//@spec
    requires non_terminal is NonTerminal,
    ensures r@ == bn(self.grammar, *non_terminal),
//@end
//@fn lapex-cpp-codegen/src/lr_parser/mod.rs CodeWriter::write_visitor_reduce_switch wr
//@spec
    requires self.ok(),
    ensures r is Ok ==> exists|a: Seq<int>| final(output).text() == no_rule(#[trigger] vreds_text(by_rule(old(output).text()), self.grammar, a)) && each_rule(a, self.grammar),
//@at start
    broadcast use lemma_assoc;
    let ghost g = self.grammar;
    let ghost ord = vx_order(self.rule_index_map@.dom());
    let ghost p = by_rule(output.text());
    let ghost mut a: Seq<int> = seq![];
    let ghost mut p0: Seq<char> = seq![];
    proof { assert(ord.take(0) =~= seq![]); lemma_lit2(); }
//@loop 0
        invariant
            self.ok(), g == self.grammar, ord == vx_order(self.rule_index_map@.dom()), it0.pos() <= it0.seq().len(), it0.seq().len() == ord.len(),
            forall|i: int| 0 <= i < ord.len() ==> *(#[trigger] it0.seq()[i]).0 == ord[i] && *it0.seq()[i].1 == self.rule_index_map@[ord[i]],
            rules_by(a, g, ord.take(it0.pos() as int)),
            output.text() == vreds_text(p, g, a),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use {lemma_assoc, axiom_ptr, vx_axioms};
    let ghost k = it0.pos() - 1;
    let ghost j = *rule_index as int;
    let ghost v = lhs_rules(g, g.rules@.len() as int, g.rules@[j].l());
    proof {
        p0 = output.text();
        assert(self.rule_index_map@.contains_key(ord[k]));
        let q = choose|q: int| 0 <= q < g.rules@.len() && ord[k] == vx_ptr(#[trigger] g.rules@[q]);
        assert(j == q);
        lemma_takes(ord, k);
        assert(rule.at() == g.rules@[j]);
        assert(rule_wf(g, g.rules@[j]));
        lemma_lhs_rules(g, g.rules@.len() as int, g.rules@[j].l());
        assert(v.contains(j));
        assert(self.rules_by_non_terminal@.contains_key(g.rules@[j].l()));
        let rv = self.rules_by_non_terminal@[g.rules@[j].l()];
        assert(rv@.len() == rv.len());
    }
//@loop 1
        invariant_except_break
            acc0 is None, forall|i: int| 0 <= i < it1.pos() ==> #[trigger] v[i] != j,
        invariant
            it1.pos() <= it1.seq().len(), acc0 is None ==> n0 == it1.pos(), g.rules@.no_duplicates(), 0 <= j < g.rules@.len(), *rule == g.rules@[j], forall|i: int| #[trigger] v.contains(i) ==> 0 <= i < g.rules@.len(), v.len() <= usize::MAX, it1.seq().len() == v.len(), are_rules(g, rules_vec@, v), forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == rules_vec@[i],
        ensures acc0 is Some ==> 0 <= acc0->0 < v.len() && v[acc0->0 as int] == j, acc0 is None ==> !v.contains(j),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    proof {
        let i = it1.pos() - 1;
        assert(v.contains(v[i]));
        assert(**it1.seq()[i] == g.rules@[v[i]]);
        if g.rules@[v[i]] == g.rules@[j] { assert(v[i] == j); }
    }
//@at loop 0 end
    proof {
        assert(output.text() == vred_text(p0, g, j));
        assert(a.push(j).drop_last() =~= a);
        a = a.push(j);
    }
//@at exits
    proof { if vx_ret is Ok { assert(ord.take(ord.len() as int) =~= ord); lemma_each_rule(a, g, self.rule_index_map@); assert(output.text() == no_rule(vreds_text(p, g, a))); } }
//@end
// ---- the visitor's methods: the same names, once each -----------------------------------------------------
//@type lapex-parser/src/grammar.rs RuleDisplay
pub uninterp spec fn rule_text(g: &Grammar, r: Rule) -> Seq<char>;
impl<'rule, 'grammar> VxDisp for RuleDisplay<'rule, 'grammar> { open spec fn shown(&self) -> Seq<char> { rule_text(self.grammar, *self.rule) } }
//@fn lapex-parser/src/grammar.rs Rule::display
//@spec
    ensures r.rule == self && r.grammar == grammar,
//@end
pub open spec fn vdecl_text(p: Seq<char>, g: &Grammar, i: int) -> Seq<char> {
    method(p + "// "@ + rule_text(g, g.rules@[i]) + "\n"@ + "virtual void "@, g, i) + "() = 0;\n"@
}
pub open spec fn vdecls_text(p: Seq<char>, g: &Grammar, a: Seq<int>) -> Seq<char>
    decreases a.len(),
{ if a.len() == 0 { p } else { vdecl_text(vdecls_text(p, g, a.drop_last()), g, a.last()) } }
// the rules of the non-terminals of s, and the first k of those of x
pub open spec fn rules_upto(a: Seq<int>, g: &Grammar, s: Seq<Symbol>, x: Symbol, k: int) -> bool {
    &&& a.no_duplicates()
    &&& forall|i: int| #[trigger] a.contains(i) <==> 0 <= i < g.rules@.len() && (s.contains(g.rules@[i].l()) || lhs_rules(g, g.rules@.len() as int, x).take(k).contains(i))
}
pub open spec fn upto0(a: Seq<int>, g: &Grammar, s: Seq<Symbol>) -> bool { forall|x: Symbol| #[trigger] rules_upto(a, g, s, x, 0) }
//@fn lapex-cpp-codegen/src/lr_parser/mod.rs CodeWriter::write_visitor_methods wr
//@spec
    requires self.ok(),
    ensures r is Ok ==> exists|a: Seq<int>| final(output).text() == #[trigger] vdecls_text(old(output).text(), self.grammar, a) && each_rule(a, self.grammar),
//@at start
    broadcast use lemma_assoc;
    let ghost g = self.grammar;
    let ghost n = g.rules@.len() as int;
    let ghost ord = vx_order(self.rules_by_non_terminal@.dom());
    let ghost p = output.text();
    let ghost mut a: Seq<int> = seq![];
    let ghost mut p0: Seq<char> = seq![];
    proof { assert(ord.take(0) =~= seq![]); lemma_lit2(); }
//@loop 0
        invariant
            self.ok(), g == self.grammar, n == g.rules@.len(), ord == vx_order(self.rules_by_non_terminal@.dom()), it0.pos() <= it0.seq().len(), it0.seq().len() == ord.len(),
            forall|i: int| 0 <= i < ord.len() ==> *(#[trigger] it0.seq()[i]).0 == ord[i] && *it0.seq()[i].1 == self.rules_by_non_terminal@[ord[i]],
            upto0(a, g, ord.take(it0.pos() as int)),
            output.text() == vdecls_text(p, g, a),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use {lemma_assoc, vx_axioms};
    let ghost k = it0.pos() - 1;
    let ghost x = ord[k];
    let ghost v = lhs_rules(g, n, x);
    proof {
        assert(self.rules_by_non_terminal@.contains_key(ord[k]));
        lemma_lhs_rules(g, n, x);
        lemma_takes(ord, k);
        assert(v.contains(v[0]));
        assert(v.take(0) =~= seq![]);
        assert(are_rules(g, rules@, v));
        assert(rules@.len() == rules.len());
        assert(rules_upto(a, g, ord.take(k), x, 0));
        p0 = output.text();
    }
//@loop 1
        invariant
            self.ok(), g == self.grammar, n == g.rules@.len(), v == lhs_rules(g, n, x), are_rules(g, rules@, v), v.len() != 1, non_terminal_name@ == bn(g, x),
            v.no_duplicates(), forall|i: int| #[trigger] v.contains(i) <==> 0 <= i < n && g.rules@[i].l() == x,
            it1.pos() <= it1.seq().len(), it1.seq().len() == v.len(), forall|i: int| 0 <= i < it1.seq().len() ==> (#[trigger] it1.seq()[i]).0 == i && *it1.seq()[i].1 == rules@[i],
            rules_upto(a, g, ord.take(k), x, it1.pos() as int), !ord.take(k).contains(x), v.len() <= usize::MAX,
            output.text() == vdecls_text(p, g, a),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    broadcast use lemma_assoc;
    let ghost kk = it1.pos() - 1;
    let ghost j = v[kk];
    proof {
        assert(v.contains(v[kk]));
        assert(**rule == g.rules@[v[kk]]);
        assert(v.index_of(v[kk]) == kk);
        lemma_upto_step(a, g, ord.take(k), x, kk);
        p0 = output.text();
    }
//@at loop 1 end
    proof {
        assert(output.text() == vdecl_text(p0, g, j));
        assert(a.push(j).drop_last() =~= a);
        a = a.push(j);
    }
//@at loop 0 end
    proof {
        if v.len() == 1 {
            let j = v[0];
            assert(*rules@[0] == g.rules@[j]);
            lemma_upto_step(a, g, ord.take(k), x, 0);
            assert(output.text() == vdecl_text(p0, g, j));
            assert(a.push(j).drop_last() =~= a);
            a = a.push(j);
        }
        lemma_upto_all(a, g, ord, k);
    }
//@at exits
    proof { if vx_ret is Ok { assert(ord.take(ord.len() as int) =~= ord); lemma_each_upto(a, g, self.rules_by_non_terminal@); } }
//@end
pub proof fn lemma_upto_step(a: Seq<int>, g: &Grammar, s: Seq<Symbol>, x: Symbol, k: int)
    requires ({ let v = lhs_rules(g, g.rules@.len() as int, x); rules_upto(a, g, s, x, k) && 0 <= k < v.len() && !s.contains(x) }),
    ensures rules_upto(a.push(lhs_rules(g, g.rules@.len() as int, x)[k]), g, s, x, k + 1),
{
    let n = g.rules@.len() as int;
    let v = lhs_rules(g, n, x);
    let j = v[k];
    lemma_lhs_rules(g, n, x);
    assert(v.contains(j));
    lemma_push_has(a, j);
    lemma_takes(v, k);
    assert(v.take(k + 1) =~= v.take(k).push(j));
    lemma_push_has(v.take(k), j);
    assert(!v.take(k).contains(j)) by { if v.take(k).contains(j) { let i = choose|i: int| 0 <= i < k && v.take(k)[i] == j; assert(v[i] == v[k]); } }
    assert(!a.contains(j));
    assert(a.push(j).no_duplicates());
}
pub proof fn lemma_upto_all(a: Seq<int>, g: &Grammar, o: Seq<Symbol>, k: int)
    requires 0 <= k < o.len(), rules_upto(a, g, o.take(k), o[k], lhs_rules(g, g.rules@.len() as int, o[k]).len() as int),
    ensures upto0(a, g, o.take(k + 1)),
{
    let n = g.rules@.len() as int;
    let v = lhs_rules(g, n, o[k]);
    lemma_lhs_rules(g, n, o[k]);
    assert(v.take(v.len() as int) =~= v);
    lemma_takes(o, k);
    assert(o.take(k + 1) =~= o.take(k).push(o[k]));
    lemma_push_has(o.take(k), o[k]);
    let s1 = o.take(k + 1);
    assert forall|x: Symbol| #[trigger] rules_upto(a, g, s1, x, 0) by { assert(lhs_rules(g, n, x).take(0) =~= seq![]); }
}
pub proof fn lemma_each_upto(a: Seq<int>, g: &Grammar, m: Map<Symbol, Vec<&Rule>>)
    requires by_nt(g, g.rules@.len() as int, m), upto0(a, g, vx_order(m.dom())),
    ensures each_rule(a, g),
{
    broadcast use vx_axioms;
    let n = g.rules@.len() as int;
    assert(rules_upto(a, g, vx_order(m.dom()), Symbol::End, 0));
    assert(lhs_rules(g, n, Symbol::End).take(0) =~= seq![]);
    assert forall|i: int| 0 <= i < n implies #[trigger] a.contains(i) by {
        let x = g.rules@[i].l();
        lemma_lhs_rules(g, n, x);
        assert(lhs_rules(g, n, x).contains(i));
        assert(m.contains_key(x));
        assert(vx_order(m.dom()).contains(x));
    }
}
// ---- the writer itself ------------------------------------------------------------------------------------
//@fn lapex-cpp-codegen/src/lr_parser/mod.rs CodeWriter::new
//@sub include_str !( ==> vx_file(
//@spec
    requires grammar.wf(), grammar.rules@.no_duplicates(), grammar.rules@.len() <= usize::MAX,
    ensures r.grammar == grammar, r.parser_table == parser_table, index_ok(grammar, r.rule_index_map@), by_nt(grammar, grammar.rules@.len() as int, r.rules_by_non_terminal@),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == grammar.rules@.len(), grammar.wf(),
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == grammar.rules@[i],
            by_nt(grammar, it0.pos() as int, rules_by_non_terminal@),
        decreases it0.seq().len() - it0.pos(),
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), it1.seq().len() == grammar.rules@.len(), grammar.rules@.len() <= usize::MAX,
            forall|i: int| 0 <= i < it1.seq().len() ==> (#[trigger] it1.seq()[i]).0 == i && *it1.seq()[i].1 == grammar.rules@[i],
            acc0@.len() == it1.pos(), forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == (vx_ptr(grammar.rules@[i]), i as usize),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 after
    proof {
        broadcast use axiom_ptr;
        let m = pairs_to_map(acc0@);
        assert forall|i: int| 0 <= i < grammar.rules@.len() implies m.contains_key(vx_ptr(#[trigger] grammar.rules@[i])) && m[vx_ptr(grammar.rules@[i])] == i by {
            assert(acc0@[i].0 == vx_ptr(grammar.rules@[i]));
            lemma_pairs_map(acc0@, vx_ptr(grammar.rules@[i]));
        }
        assert forall|k: VxPtr<Rule>| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < grammar.rules@.len() && k == vx_ptr(#[trigger] grammar.rules@[i]) by { lemma_pairs_map(acc0@, k); }
    }
//@end
