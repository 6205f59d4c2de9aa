// ---- the generator ---------------------------------------------------------------------------------------
//@fn lapex-parser/src/grammar.rs Grammar::get_production_name
//@spec
    ensures
        r is Some <==> non_terminal is NonTerminal && self.productions@.contains_key(*non_terminal),
        r is Some ==> r->0@ == self.productions@[*non_terminal]@,
//@end
//@fn lapex-parser/src/grammar.rs Grammar::get_token_name
//@spec
    requires self.tokens@.contains_key(Symbol::Terminal(index)),
    ensures r@ == self.tokens@[Symbol::Terminal(index)]@,
//@end
//@fn lapex-parser/src/grammar.rs Rule::rule
//@spec
    ensures r == self.rule,
//@end
//@type rparser CodeWriter
//@fn rparser get_rule_from_pointer external
//@spec
    ensures *r == rule.at(),
//@end
//@fn lapex-rust-codegen/src/lib.rs get_non_terminal_enum_name fmt
//@spec
    requires non_terminal is NonTerminal,
    ensures r@ == nt_name(grammar, non_terminal),
//@end
// rules by address, rules by nonterminal
pub open spec fn index_ok(g: &Grammar, m: Map<VxPtr<Rule>, usize>) -> bool {
    &&& forall|i: int| 0 <= i < g.rules@.len() ==> m.contains_key(vx_ptr(#[trigger] g.rules@[i])) && m[vx_ptr(g.rules@[i])] == i
    &&& forall|k: VxPtr<Rule>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < g.rules@.len() && k == vx_ptr(#[trigger] g.rules@[i])
}
pub open spec fn are_rules(g: &Grammar, v: Seq<&Rule>, s: Seq<int>) -> bool { v.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> *v[j] == g.rules@[#[trigger] s[j]] }
pub open spec fn by_nt(g: &Grammar, k: int, m: Map<Symbol, Vec<&Rule>>) -> bool {
    &&& forall|x: Symbol| #[trigger] m.contains_key(x) <==> lhs_rules(g, k, x).len() > 0
    &&& forall|x: Symbol| #[trigger] m.contains_key(x) ==> are_rules(g, m[x]@, lhs_rules(g, k, x))
}
pub proof fn lemma_lhs_rules(g: &Grammar, k: int, x: Symbol)
    requires 0 <= k <= g.rules@.len(),
    ensures
        lhs_rules(g, k, x).no_duplicates(),
        forall|i: int| #[trigger] lhs_rules(g, k, x).contains(i) <==> 0 <= i < k && g.rules@[i].l() == x,
    decreases k,
{
    if k > 0 {
        lemma_lhs_rules(g, k - 1, x);
        let s = lhs_rules(g, k - 1, x);
        lemma_push_has(s, k - 1);
        assert(!s.contains(k - 1));
        assert(s.push(k - 1).no_duplicates());
    }
}
impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
    pub open spec fn tab(&self) -> TabG<'grammar, 'rules> { TabG { c: self.parser_table.entries@, n: self.parser_table.state_count as int, en: self.parser_table.entry_state, g: self.grammar } }
    pub open spec fn ok(&self) -> bool {
        &&& tab_wf(self.tab()) && filled(self.parser_table.entries@)
        &&& index_ok(self.grammar, self.rule_index_map@)
        &&& by_nt(self.grammar, self.grammar.rules@.len() as int, self.rules_by_non_terminal@)
    }
}
//@fn rparser CodeWriter::new
//@spec
    requires grammar.wf(), grammar.rules@.no_duplicates(), grammar.rules@.len() <= usize::MAX,
    ensures r.grammar == grammar, r.parser_table == parser_table, index_ok(grammar, r.rule_index_map@), by_nt(grammar, grammar.rules@.len() as int, r.rules_by_non_terminal@),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == grammar.rules@.len(), grammar.wf(),
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == grammar.rules@[i],
            by_nt(grammar, it0.pos() as int, rules_by_non_terminal@),
        decreases it0.seq().len() - it0.pos(),
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), it1.seq().len() == grammar.rules@.len(), grammar.rules@.len() <= usize::MAX,
            forall|i: int| 0 <= i < it1.seq().len() ==> (#[trigger] it1.seq()[i]).0 == i && *it1.seq()[i].1 == grammar.rules@[i],
            acc0@.len() == it1.pos(), forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == (vx_ptr(grammar.rules@[i]), i as usize),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 after
    proof {
        broadcast use axiom_ptr;
        let m = pairs_to_map(acc0@);
        assert forall|i: int| 0 <= i < grammar.rules@.len() implies m.contains_key(vx_ptr(#[trigger] grammar.rules@[i])) && m[vx_ptr(grammar.rules@[i])] == i by {
            assert(acc0@[i].0 == vx_ptr(grammar.rules@[i]));
            lemma_pairs_map(acc0@, vx_ptr(grammar.rules@[i]));
        }
        assert forall|k: VxPtr<Rule>| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < grammar.rules@.len() && k == vx_ptr(#[trigger] grammar.rules@[i]) by { lemma_pairs_map(acc0@, k); }
    }
//@end
//@fn rparser CodeWriter::get_non_terminal_name fmt
//@spec
    requires non_terminal is NonTerminal,
    ensures r@ == nt_base(self.grammar, *non_terminal),
//@end
// what an entry moves to, what it does
pub open spec fn goes(x: Symbol) -> bool { x is Terminal || x is NonTerminal }
pub open spec fn goto_arm(g: &Grammar, a: GotoArm, w: Mv, q: usize, x: Symbol) -> bool {
    mv_is(Some(a), w) && forall|s: (usize, StackSymbol)| #[trigger] a.pm(s) <==> s == (q, ss_of(g, x))
}
pub open spec fn act_arm(g: &Grammar, a: ActArm, w: Seq<Act>, q: usize, x: Symbol) -> bool {
    acts_are(Some(a), w) && w.len() > 0 && forall|s: (usize, TokenType)| #[trigger] a.pm(s) <==> s == (q, tk(g, x))
}
//@fn rparser CodeWriter::make_goto fmt
//@rename parse vx_parse
//@spec
    requires self.ok(), symbol is Terminal ==> self.grammar.tokens@.contains_key(symbol),
    ensures
        !goes(symbol) || e_mv(*entry) is Stuck ==> final(gotos)@ == old(gotos)@,
        goes(symbol) && !(e_mv(*entry) is Stuck) ==> exists|a: GotoArm| final(gotos)@ == old(gotos)@.push(a) && #[trigger] goto_arm(self.grammar, a, e_mv(*entry), state, symbol),
//@at exits
    proof {
        if goes(symbol) && !(e_mv(*entry) is Stuck) { assert(goto_arm(self.grammar, gotos@.last(), e_mv(*entry), state, symbol)); }
    }
//@end
//@fn rparser CodeWriter::make_action fmt
//@rename parse vx_parse
//@spec
    requires
        self.ok(), symbol is Terminal ==> self.grammar.tokens@.contains_key(symbol),
        forall|k: int| 0 <= k < entries@.len() ==> entry_sane(self.grammar, self.parser_table.state_count as int, #[trigger] entries@[k]),
    ensures
        is_nt(symbol) || symbol is Epsilon || cell_acts(self.grammar, entries@).len() == 0 ==> final(actions)@ == old(actions)@,
        is_t(symbol) && cell_acts(self.grammar, entries@).len() > 0 ==> exists|a: ActArm| final(actions)@ == old(actions)@.push(a) && #[trigger] act_arm(self.grammar, a, cell_acts(self.grammar, entries@), state, symbol),
//@at loop 0 before
    proof { assert(entries@.take(0) =~= seq![]); }
//@loop 0
        invariant
            self.ok(), it0.pos() <= it0.seq().len(), it0.seq().len() == entries@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == entries@[i],
            forall|k: int| 0 <= k < entries@.len() ==> entry_sane(self.grammar, self.parser_table.state_count as int, #[trigger] entries@[k]),
            els_are(actions_for_entry@, cell_acts(self.grammar, entries@.take(it0.pos() as int))),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    let ghost k = it0.pos() - 1;
    proof { assert(entries@.take(k + 1).drop_last() =~= entries@.take(k)); assert(entries@.take(k + 1).last() == entries@[k]); assert(entry_sane(self.grammar, self.parser_table.state_count as int, entries@[k])); }
//@at loop 0 after
    proof { assert(entries@.take(it0.pos() as int) =~= entries@); }
//@at exits
    proof {
        if is_t(symbol) && cell_acts(self.grammar, entries@).len() > 0 { assert(act_arm(self.grammar, actions@.last(), cell_acts(self.grammar, entries@), state, symbol)); }
    }
//@end
// the arms written so far: everything before state q, and the symbols s of state q
pub open spec fn gotos_in(l: Seq<GotoArm>, t: TabG, q: int, s: Seq<Symbol>) -> bool {
    forall|p: usize, x: Symbol| #![trigger mv(t, p, x)] a_symbol(t.g, x) ==> {
        if p < q || (p == q && s.contains(x)) { mv_is(vx_hit(l, (p, ss_of(t.g, x))), mv(t, p, x)) } else { vx_hit(l, (p, ss_of(t.g, x))) is None }
    }
}
// and what the entries of the cell of y so far say
pub open spec fn gotos_at(l: Seq<GotoArm>, t: TabG, q: int, s: Seq<Symbol>, y: Symbol, w: Mv) -> bool {
    forall|p: usize, x: Symbol| #![trigger mv(t, p, x)] a_symbol(t.g, x) ==> {
        if p < q || (p == q && s.contains(x)) { mv_is(vx_hit(l, (p, ss_of(t.g, x))), mv(t, p, x)) }
        else if p == q && x == y { mv_is(vx_hit(l, (p, ss_of(t.g, x))), w) }
        else { vx_hit(l, (p, ss_of(t.g, x))) is None }
    }
}
pub open spec fn acts_in(l: Seq<ActArm>, t: TabG, q: int, s: Seq<Symbol>) -> bool {
    forall|p: usize, k: TokenType| #![trigger vx_hit(l, (p, k))] {
        if p < q { acts_are(vx_hit(l, (p, k)), acts(t, p, k)) }
        else if p == q && sym_of(t.g, k) is Some && s.contains(sym_of(t.g, k)->0) && acts(t, p, k).len() > 0 { acts_are(vx_hit(l, (p, k)), acts(t, p, k)) }
        else { vx_hit(l, (p, k)) is None }
    }
}
pub proof fn lemma_ss_of(g: &Grammar, x: Symbol, y: Symbol)
    requires names_ok(g), g.wf(), a_symbol(g, x), a_symbol(g, y), ss_of(g, x) == ss_of(g, y),
    ensures x == y,
{
    lemma_kind(g, x);
    lemma_kind(g, y);
}
pub proof fn lemma_kind(g: &Grammar, x: Symbol)
    requires g.wf(),
    ensures g.ts().contains(x) ==> x is Terminal && g.tokens@.contains_key(x), g.nts().contains(x) ==> x is NonTerminal,
{
    if g.ts().contains(x) { let j = choose|j: int| 0 <= j < g.ts().len() && g.ts()[j] == x; assert(g.ts()[j] is Terminal); }
    if g.nts().contains(x) { let j = choose|j: int| 0 <= j < g.nts().len() && g.nts()[j] == x; assert(g.nts()[j] is NonTerminal); }
}
pub proof fn lemma_listed_symbols(g: &Grammar)
    requires g.wf(),
    ensures ({ let ls = g.ts().push(Symbol::End) + g.nts(); ls.no_duplicates() && forall|x: Symbol| #[trigger] ls.contains(x) <==> a_symbol(g, x) || x == Symbol::End }),
{
    lemma_symbols(g);
    let a = g.ts().push(Symbol::End);
    let ls = a + g.nts();
    assert forall|x: Symbol| #[trigger] ls.contains(x) <==> a_symbol(g, x) || x == Symbol::End by {
        if a.contains(x) { let j = choose|j: int| 0 <= j < a.len() && a[j] == x; assert(ls[j] == x); }
        if g.nts().contains(x) { let j = choose|j: int| 0 <= j < g.nts().len() && g.nts()[j] == x; assert(ls[a.len() + j] == x); }
        if x == Symbol::End { assert(a.contains(x)); }
        if g.ts().contains(x) { assert(a.contains(x)); }
    }
    assert forall|i: int, j: int| 0 <= i < ls.len() && 0 <= j < ls.len() && i != j implies ls[i] != ls[j] by {
        if i < a.len() && j >= a.len() { lemma_kind(g, ls[i]); lemma_kind(g, ls[j]); assert(a.contains(a[i])); assert(g.nts().contains(g.nts()[j - a.len()])); }
        if j < a.len() && i >= a.len() { lemma_kind(g, ls[i]); lemma_kind(g, ls[j]); assert(a.contains(a[j])); assert(g.nts().contains(g.nts()[i - a.len()])); }
    }
}
pub proof fn lemma_goto_step(l: Seq<GotoArm>, m: Seq<GotoArm>, t: TabG, q: usize, s: Seq<Symbol>, y: Symbol, w: Mv, e: TE)
    requires
        gotos_at(l, t, q as int, s, y, w), t.g.wf(), names_ok(t.g), !s.contains(y),
        a_symbol(t.g, y) || y == Symbol::End,
        y == Symbol::End || e_mv(e) is Stuck ==> m == l,
        y != Symbol::End && !(e_mv(e) is Stuck) ==> exists|a: GotoArm| m == l.push(a) && #[trigger] goto_arm(t.g, a, e_mv(e), q, y),
    ensures gotos_at(m, t, q as int, s, y, if w is Stuck { e_mv(e) } else { w }),
{
    broadcast use lemma_hit_push;
    let w2 = if w is Stuck { e_mv(e) } else { w };
    lemma_kind(t.g, y);
    assert forall|p: usize, x: Symbol| #![trigger mv(t, p, x)] a_symbol(t.g, x) implies {
        if p < q || (p == q && s.contains(x)) { mv_is(vx_hit(m, (p, ss_of(t.g, x))), mv(t, p, x)) }
        else if p == q && x == y { mv_is(vx_hit(m, (p, ss_of(t.g, x))), w2) }
        else { vx_hit(m, (p, ss_of(t.g, x))) is None }
    } by {
        lemma_kind(t.g, x);
        if ss_of(t.g, x) == ss_of(t.g, y) && a_symbol(t.g, y) { lemma_ss_of(t.g, x, y); }
        if y != Symbol::End && !(e_mv(e) is Stuck) {
            let a = choose|a: GotoArm| m == l.push(a) && #[trigger] goto_arm(t.g, a, e_mv(e), q, y);
            assert(a.pm((p, ss_of(t.g, x))) <==> (p, ss_of(t.g, x)) == (q, ss_of(t.g, y)));
        }
    }
}
pub proof fn lemma_goto_cell(l: Seq<GotoArm>, t: TabG, q: usize, s: Seq<Symbol>, y: Symbol)
    requires gotos_at(l, t, q as int, s, y, mv(t, q, y)),
    ensures gotos_in(l, t, q as int, s.push(y)),
{
    lemma_push_has(s, y);
}
pub proof fn lemma_mv_take(c: Seq<TE>, k: int)
    requires 0 <= k < c.len(),
    ensures mv_of(c.take(k + 1)) == (if mv_of(c.take(k)) is Stuck { e_mv(c[k]) } else { mv_of(c.take(k)) }), c.take(c.len() as int) == c, c.take(0) == Seq::<TE>::empty(),
{
    assert(c.take(k + 1).drop_last() =~= c.take(k));
    assert(c.take(c.len() as int) =~= c);
    assert(c.take(0) =~= Seq::empty());
}
pub proof fn lemma_act_step(l: Seq<ActArm>, m: Seq<ActArm>, t: TabG, q: usize, s: Seq<Symbol>, y: Symbol)
    requires
        acts_in(l, t, q as int, s), t.g.wf(), names_ok(t.g), !s.contains(y), a_token(t.g, y),
        cell_acts(t.g, cell(t.c, q as int, y)).len() == 0 ==> m == l,
        cell_acts(t.g, cell(t.c, q as int, y)).len() > 0 ==> exists|a: ActArm| m == l.push(a) && #[trigger] act_arm(t.g, a, cell_acts(t.g, cell(t.c, q as int, y)), q, y),
    ensures acts_in(m, t, q as int, s.push(y)),
{
    broadcast use lemma_hit_push;
    lemma_push_has(s, y);
    lemma_sym_of(t.g, y);
    let w = cell_acts(t.g, cell(t.c, q as int, y));
    assert forall|p: usize, k: TokenType| #![trigger vx_hit(m, (p, k))] {
        if p < q { acts_are(vx_hit(m, (p, k)), acts(t, p, k)) }
        else if p == q && sym_of(t.g, k) is Some && s.push(y).contains(sym_of(t.g, k)->0) && acts(t, p, k).len() > 0 { acts_are(vx_hit(m, (p, k)), acts(t, p, k)) }
        else { vx_hit(m, (p, k)) is None }
    } by {
        let h = vx_hit(l, (p, k));
        if w.len() > 0 {
            let a = choose|a: ActArm| m == l.push(a) && #[trigger] act_arm(t.g, a, w, q, y);
            assert(a.pm((p, k)) <==> (p, k) == (q, tk(t.g, y)));
        }
    }
}
pub proof fn lemma_act_end(l: Seq<ActArm>, t: TabG, q: usize, s: Seq<Symbol>, a: ActArm)
    requires
        acts_in(l, t, q as int, s), forall|x: Symbol| a_token(t.g, x) ==> #[trigger] s.contains(x),
        a is A_state_X, forall|z: (usize, TokenType)| #[trigger] a.pm(z) <==> z.0 == q,
    ensures acts_in(l.push(a), t, q + 1, seq![]),
{
    broadcast use lemma_hit_push;
    assert forall|p: usize, k: TokenType| #![trigger vx_hit(l.push(a), (p, k))] {
        if p < q + 1 { acts_are(vx_hit(l.push(a), (p, k)), acts(t, p, k)) } else { vx_hit(l.push(a), (p, k)) is None }
    } by {
        let h = vx_hit(l, (p, k));
        assert(a.pm((p, k)) <==> p == q);
        if sym_of(t.g, k) is Some { assert(s.contains(sym_of(t.g, k)->0)); }
    }
}
//@fn rparser CodeWriter::make_gotos
//@rename parse vx_parse
//@spec
    requires self.ok(),
    ensures gotos_ok(r@, self.tab()),
//@at start
    let ghost t = self.tab();
    proof { lemma_symbols(t.g); }
//@loop 0
        invariant
            self.ok(), t == self.tab(), it0.pos() <= it0.seq().len(), it0.seq().len() == t.n,
            forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == i,
            gotos_in(gotos@, t, it0.pos() as int, seq![]),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    proof { lemma_symbols(t.g); }
    let ghost ls = t.g.ts().push(Symbol::End) + t.g.nts();
    proof { assert(ls.take(0) =~= seq![]); lemma_listed_symbols(t.g); }
//@loop 1
        invariant
            self.ok(), t == self.tab(), it1.pos() <= it1.seq().len(), listed(t.c, state, ls, it1.seq()),
            state < t.n, ls == t.g.ts().push(Symbol::End) + t.g.nts(), ls.no_duplicates(), forall|x: Symbol| #[trigger] ls.contains(x) <==> a_symbol(t.g, x) || x == Symbol::End,
            gotos_in(gotos@, t, state as int, ls.take(it1.pos() as int)),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost l0 = gotos@;
    let ghost k = it1.pos() - 1;
    let ghost s0 = ls.take(k);
    let ghost cs = cell(t.c, state as int, symbol);
    proof {
        lemma_takes(ls, k);
        assert(ls.contains(ls[k]));
        lemma_kind(t.g, symbol);
        assert(entry matches Some(v) ==> v@ == cell(t.c, state as int, symbol));
        assert(cs.take(0) =~= Seq::empty());
        assert(gotos_at(l0, t, state as int, s0, symbol, Mv::Stuck));
        if cs.len() == 1 { lemma_mv_take(cs, 0); }
    }
//@loop 2
        invariant
            self.ok(), t == self.tab(), it2.pos() <= it2.seq().len(), it2.seq().len() == cs.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == cs[i],
            state < t.n, a_symbol(t.g, symbol) || symbol == Symbol::End, !s0.contains(symbol), symbol is Terminal ==> t.g.tokens@.contains_key(symbol), a_symbol(t.g, symbol) ==> goes(symbol),
            gotos_at(gotos@, t, state as int, s0, symbol, mv_of(cs.take(it2.pos() as int))),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    let ghost l2 = gotos@;
    let ghost k2 = it2.pos() - 1;
//@at loop 2 end
    proof {
        lemma_mv_take(cs, k2);
        lemma_goto_step(l2, gotos@, t, state, s0, symbol, mv_of(cs.take(k2)), cs[k2]);
    }
//@at loop 1 end
    proof {
        assert(cs.take(cs.len() as int) =~= cs);
        if !gotos_at(gotos@, t, state as int, s0, symbol, mv(t, state, symbol)) {
            lemma_mv_take(cs, 0);
            lemma_goto_step(l0, gotos@, t, state, s0, symbol, Mv::Stuck, cs[0]);
        }
        lemma_goto_cell(gotos@, t, state, s0, symbol);
        assert(ls.take(k + 1) =~= ls.take(k).push(ls[k]));
    }
//@at loop 1 after
    proof {
        assert(ls.take(it1.pos() as int) =~= ls);
        assert forall|p: usize, x: Symbol| #![trigger mv(t, p, x)] a_symbol(t.g, x) implies {
            if p < state + 1 { mv_is(vx_hit(gotos@, (p, ss_of(t.g, x))), mv(t, p, x)) } else { vx_hit(gotos@, (p, ss_of(t.g, x))) is None }
        } by { assert(ls.contains(x)); }
    }
//@end
//@fn rparser CodeWriter::extract_expected_symbols
//@spec
    requires symbol is Terminal || symbol is End,
    ensures final(expected_symbols)@ == old(expected_symbols)@ || final(expected_symbols)@ == old(expected_symbols)@.insert(if symbol is Terminal { Some(symbol->Terminal_0) } else { None }),
//@end
//@fn rparser CodeWriter::make_actions fmt
//@rename parse vx_parse
//@spec
    requires self.ok(),
    ensures acts_ok(r@, self.tab()),
//@at start
    let ghost t = self.tab();
    proof { lemma_symbols(t.g); }
//@loop 0
        invariant
            self.ok(), t == self.tab(), it0.pos() <= it0.seq().len(), it0.seq().len() == t.n,
            forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == i,
            acts_in(actions@, t, it0.pos() as int, seq![]),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    proof { lemma_symbols(t.g); }
    let ghost ls = t.g.ts().push(Symbol::End);
    let ghost mut l1 = actions@;
    proof { assert(ls.take(0) =~= seq![]); }
//@loop 1
        invariant
            self.ok(), t == self.tab(), it1.pos() <= it1.seq().len(), listed(t.c, state, ls, it1.seq()),
            state < t.n, ls == t.g.ts().push(Symbol::End), ls.no_duplicates(), forall|x: Symbol| #[trigger] ls.contains(x) <==> a_token(t.g, x),
            acts_in(actions@, t, state as int, ls.take(it1.pos() as int)),
            forall|z: Option<u16>| #[trigger] expected_symbols@.contains(z) ==> (z matches Some(k) ==> t.g.tokens@.contains_key(Symbol::Terminal(k))),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost l0 = actions@;
    let ghost k = it1.pos() - 1;
    proof {
        lemma_takes(ls, k);
        assert(ls.contains(ls[k]));
        lemma_kind(t.g, symbol);
        assert(entry matches Some(v) ==> v@ == cell(t.c, state as int, symbol));
    }
//@loop 2
        invariant
            it2.pos() <= it2.seq().len(), t == self.tab(), symbol is Terminal || symbol is End, symbol is Terminal ==> t.g.tokens@.contains_key(symbol),
            forall|z: Option<u16>| #[trigger] expected_symbols@.contains(z) ==> (z matches Some(k) ==> t.g.tokens@.contains_key(Symbol::Terminal(k))),
        decreases it2.seq().len() - it2.pos(),
//@at loop 1 end
    proof {
        lemma_act_step(l0, actions@, t, state, ls.take(k), symbol);
        assert(ls.take(k + 1) =~= ls.take(k).push(ls[k]));
    }
//@at loop 1 after
    proof { l1 = actions@; assert(ls.take(it1.pos() as int) =~= ls); }
//@loop 3
        invariant
            it3.pos() <= it3.seq().len(), t == self.tab(),
            forall|i: int| 0 <= i < it3.seq().len() ==> (#[trigger] it3.seq()[i] matches Some(k) ==> t.g.tokens@.contains_key(Symbol::Terminal(k))),
        decreases it3.seq().len() - it3.pos(),
//@at loop 0 end
    proof {
        let a = actions@.last();
        assert(actions@ == l1.push(a));
        lemma_act_end(l1, t, state, ls, a);
    }
//@end
// the rules done so far
pub open spec fn reds_in(l: Seq<RedArm>, g: &Grammar, s: Seq<VxPtr<Rule>>) -> bool {
    forall|i: usize| i < g.rules@.len() ==> if s.contains(vx_ptr(g.rules@[i as int])) { red_is(g, i as int, #[trigger] vx_hit(l, rred(i))) } else { vx_hit(l, rred(i)) is None }
}
pub open spec fn visits_in(l: Seq<VisitArm>, g: &Grammar, s: Seq<Symbol>, x: Symbol, v: Seq<int>) -> bool {
    forall|i: usize| i < g.rules@.len() ==> if s.contains(g.rules@[i as int].l()) || (g.rules@[i as int].l() == x && v.contains(i as int)) { visit_is(g, i as int, #[trigger] vx_hit(l, rred(i))) } else { vx_hit(l, rred(i)) is None }
}
pub proof fn lemma_plain_take(s: Seq<Symbol>, k: int)
    requires 0 <= k < s.len(),
    ensures plain(s.take(k + 1)) == (if s[k] == Symbol::Epsilon { plain(s.take(k)) } else { plain(s.take(k)).push(s[k]) }), plain(s.take(k)).len() <= k,
    decreases k,
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    if k > 0 { lemma_plain_take(s, k - 1); }
}
//@fn rparser CodeWriter::make_rule_reductions fmt
//@rename parse vx_parse
//@spec
    requires self.ok(),
    ensures reds_ok(r@, self.grammar),
//@at start
    let ghost g = self.grammar;
    let ghost ord = vx_order(self.rule_index_map@.dom());
    proof { assert(ord.take(0) =~= seq![]); }
//@loop 0
        invariant
            self.ok(), g == self.grammar, ord == vx_order(self.rule_index_map@.dom()), it0.pos() <= it0.seq().len(), it0.seq().len() == ord.len(),
            forall|i: int| 0 <= i < ord.len() ==> *(#[trigger] it0.seq()[i]).0 == ord[i] && *it0.seq()[i].1 == self.rule_index_map@[ord[i]],
            reds_in(rule_reductions@, g, ord.take(it0.pos() as int)),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use {lemma_hit_push, lemma_rred, axiom_ptr, vx_axioms};
    let ghost k = it0.pos() - 1;
    let ghost l0 = rule_reductions@;
    let ghost j = *rule_index;
    proof {
        assert(self.rule_index_map@.contains_key(ord[k]));
        let q = choose|q: int| 0 <= q < g.rules@.len() && ord[k] == vx_ptr(#[trigger] g.rules@[q]);
        assert(j == q);
        lemma_takes(ord, k);
        assert(rule.at() == g.rules@[j as int]);
        let r = rule.at();
        assert(r.rhs@.len() == r.rhs.len());
    }
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), it1.seq().len() == rule.rhs@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == rule.rhs@[i],
            acc0 == plain(rule.rhs@.take(it1.pos() as int)).len(), rule.rhs@.len() <= usize::MAX,
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    proof { lemma_plain_take(rule.rhs@, it1.pos() - 1); }
//@at loop 1 after
    proof { assert(rule.rhs@.take(it1.pos() as int) =~= rule.rhs@); }
//@at loop 0 end
    proof {
        let a = rule_reductions@.last();
        assert(rule_reductions@ == l0.push(a));
        assert forall|i: usize| i < g.rules@.len() implies if ord.take(k + 1).contains(vx_ptr(g.rules@[i as int])) { red_is(g, i as int, #[trigger] vx_hit(rule_reductions@, rred(i))) } else { vx_hit(rule_reductions@, rred(i)) is None } by {
            let h = vx_hit(l0, rred(i));
            assert(a.pm(rred(i)) <==> rred(i) == rred(j));
            assert(self.rule_index_map@[vx_ptr(g.rules@[i as int])] == i);
        }
    }
//@at loop 0 after
    proof {
        assert(ord.take(it0.pos() as int) =~= ord);
        assert forall|i: usize| i < g.rules@.len() implies red_is(g, i as int, #[trigger] vx_hit(rule_reductions@, rred(i))) by {
            assert(self.rule_index_map@.contains_key(vx_ptr(g.rules@[i as int])));
            assert(ord.contains(vx_ptr(g.rules@[i as int])));
        }
    }
//@end
//@fn rparser CodeWriter::make_rule_visits fmt
//@rename parse vx_parse
//@spec
    requires self.ok(),
    ensures visits_ok(r@, self.grammar),
//@at start
    let ghost g = self.grammar;
    let ghost n = g.rules@.len() as int;
    let ghost ord = vx_order(self.rules_by_non_terminal@.dom());
    proof { assert(ord.take(0) =~= seq![]); }
//@loop 0
        invariant
            self.ok(), g == self.grammar, n == g.rules@.len(), ord == vx_order(self.rules_by_non_terminal@.dom()), it0.pos() <= it0.seq().len(), it0.seq().len() == ord.len(),
            forall|i: int| 0 <= i < ord.len() ==> *(#[trigger] it0.seq()[i]).0 == ord[i] && *it0.seq()[i].1 == self.rules_by_non_terminal@[ord[i]],
            visits_in(rule_visits@, g, ord.take(it0.pos() as int), Symbol::End, seq![]),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use {lemma_hit_push, lemma_rred, vx_axioms};
    let ghost k = it0.pos() - 1;
    let ghost x = ord[k];
    let ghost v = lhs_rules(g, n, x);
    let ghost l0 = rule_visits@;
    proof {
        assert(self.rules_by_non_terminal@.contains_key(ord[k]));
        lemma_lhs_rules(g, n, x);
        lemma_takes(ord, k);
        assert(v.contains(v[0]));
        assert(v.take(0) =~= seq![]);
        assert(are_rules(g, rules@, v));
        assert forall|i: usize| i < n implies if ord.take(k).contains(g.rules@[i as int].l()) || (g.rules@[i as int].l() == x && seq![].contains(i as int)) { visit_is(g, i as int, #[trigger] vx_hit(l0, rred(i))) } else { vx_hit(l0, rred(i)) is None } by { let h = vx_hit(l0, rred(i)); }
    }
//@loop 1
        invariant
            self.ok(), g == self.grammar, n == g.rules@.len(), v == lhs_rules(g, n, x), are_rules(g, rules@, v), v.len() != 1, non_terminal_name@ == nt_base(g, x),
            v.no_duplicates(), forall|i: int| #[trigger] v.contains(i) <==> 0 <= i < n && g.rules@[i].l() == x,
            it1.pos() <= it1.seq().len(), it1.seq().len() == v.len(), forall|i: int| 0 <= i < it1.seq().len() ==> (#[trigger] it1.seq()[i]).0 == i && *it1.seq()[i].1 == rules@[i],
            visits_in(rule_visits@, g, ord.take(k), x, v.take(it1.pos() as int)), !ord.take(k).contains(x), v.len() <= usize::MAX,
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    broadcast use {lemma_hit_push, lemma_rred};
    let ghost l1 = rule_visits@;
    let ghost kk = it1.pos() - 1;
    let ghost j = v[kk] as usize;
    proof {
        lemma_takes(v, kk);
        assert(v.contains(v[kk]));
        assert(**rule == g.rules@[v[kk]]);
        assert(v.index_of(v[kk]) == kk);
    }
//@at loop 1 end
    proof {
        let a = rule_visits@.last();
        assert(rule_visits@ == l1.push(a));
        assert forall|i: usize| i < n implies if ord.take(k).contains(g.rules@[i as int].l()) || (g.rules@[i as int].l() == x && v.take(kk + 1).contains(i as int)) { visit_is(g, i as int, #[trigger] vx_hit(rule_visits@, rred(i))) } else { vx_hit(rule_visits@, rred(i)) is None } by {
            let h = vx_hit(l1, rred(i));
            assert(a.pm(rred(i)) <==> rred(i) == rred(j));
        }
    }
//@at loop 1 after
    proof { assert(v.take(it1.pos() as int) =~= v); }
//@at loop 0 end
    proof {
        if v.len() == 1 {
            let j = v[0] as usize;
            let a = rule_visits@.last();
            assert(rule_visits@ == l0.push(a));
            assert forall|i: usize| i < n implies if ord.take(k).contains(g.rules@[i as int].l()) || (g.rules@[i as int].l() == x && v.contains(i as int)) { visit_is(g, i as int, #[trigger] vx_hit(rule_visits@, rred(i))) } else { vx_hit(rule_visits@, rred(i)) is None } by {
                let h = vx_hit(l0, rred(i));
                assert(a.pm(rred(i)) <==> rred(i) == rred(j));
                if v.contains(i as int) { let z = choose|z: int| 0 <= z < v.len() && v[z] == i; }
            }
        }
        assert forall|i: usize| i < n implies if ord.take(k + 1).contains(g.rules@[i as int].l()) { visit_is(g, i as int, #[trigger] vx_hit(rule_visits@, rred(i))) } else { vx_hit(rule_visits@, rred(i)) is None } by { let h = vx_hit(rule_visits@, rred(i)); }
    }
//@at loop 0 after
    proof {
        assert(ord.take(it0.pos() as int) =~= ord);
        assert forall|i: usize| i < n implies visit_is(g, i as int, #[trigger] vx_hit(rule_visits@, rred(i))) by {
            lemma_lhs_rules(g, n, g.rules@[i as int].l());
            assert(lhs_rules(g, n, g.rules@[i as int].l()).contains(i as int));
            assert(self.rules_by_non_terminal@.contains_key(g.rules@[i as int].l()));
            assert(ord.contains(g.rules@[i as int].l()));
        }
    }
//@end
//@fn rparser CodeWriter::write_parser fmt
//@rename parse vx_parse
//@sub output : &mut dyn Write ==> output: &mut VxOut<ParseProg>
//@spec
    requires self.ok(),
    ensures r is Ok ==> exists|p: ParseProg| final(output)@ == old(output)@.push(p) && #[trigger] prog_ok(p, self.tab()),
//@loop 0
        invariant it0.pos() <= it0.seq().len(),
        decreases it0.seq().len() - it0.pos(),
//@loop 1
        invariant it1.pos() <= it1.seq().len(), it1.seq() == self.grammar.nts(), self.ok(),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    proof { assert(self.grammar.nts().contains(e1)); lemma_kind(self.grammar, e1); }
//@at exits
    proof { if vx_ret is Ok { assert(prog_ok(output@.last(), self.tab())); } }
//@end
// C22: what is written for any table generated from a grammar asks the table
pub proof fn thm_asked<'g, 'r, const N: usize>(w: CodeWriter<'g, 'r>, lalr: bool, en: Item<'g, 'r, N>, p: ParserGraph<'g, 'r, N>)
    requires
        N <= 1, w.grammar.wf(), small(w.grammar), w.grammar.rules@.no_duplicates(), w.grammar.rules@.len() <= usize::MAX, names_ok(w.grammar),
        is_entry(w.grammar, en), is_automaton(w.grammar, lalr, en, p), tidy(w.grammar, lalr, en, p), table_ok(w.grammar, p, *w.parser_table),
        index_ok(w.grammar, w.rule_index_map@), by_nt(w.grammar, w.grammar.rules@.len() as int, w.rules_by_non_terminal@),
    ensures w.ok(),
{
    lemma_fit(w.grammar, lalr, en, p);
    assert(tab_wf(w.tab()));
}
