// LL(1) tables: which rule claims which cell, and what a table states
//@type lapex-parser/src/ll_parser/mod.rs LLParserError
//@type lapex-parser/src/ll_parser/mod.rs LLParserTable

pub type Cell = (SymbolIdx, Option<SymbolIdx>);
// rule i claims the cell (its left-hand side, t): way 0 through FIRST, way 1 through FOLLOW
pub open spec fn claims(g: &Grammar, i: int, w: int, t: Symbol) -> bool {
    0 <= i < g.rules@.len() && is_t(t) && (if w == 0 { in_first(g, g.rules@[i].rhs@, t) }
        else { w == 1 && in_first(g, g.rules@[i].rhs@, Symbol::Epsilon) && in_follow(g, g.rules@[i].l(), t) })
}
pub open spec fn cell(a: Symbol, t: Symbol) -> Cell {
    (a->NonTerminal_0, match t { Symbol::Terminal(k) => Some(k), _ => None })
}
pub open spec fn claimed(g: &Grammar, i: int, t: Symbol) -> Cell { cell(g.rules@[i].l(), t) }
// the table states exactly the claims, and no cell is claimed twice
pub open spec fn tab_exact(g: &Grammar, tab: Map<Cell, Vec<Symbol>>) -> bool {
    &&& forall|i: int, w: int, t: Symbol| #[trigger] claims(g, i, w, t) ==> tab.contains_key(claimed(g, i, t)) && tab[claimed(g, i, t)] == g.rules@[i].rhs
    &&& forall|k: Cell| #[trigger] tab.contains_key(k) ==> exists|i: int, w: int, t: Symbol| #[trigger] claims(g, i, w, t) && claimed(g, i, t) == k
    &&& forall|i: int, w: int, j: int, v: int, t: Symbol| #[trigger] claims(g, i, w, t) && #[trigger] claims(g, j, v, t) && g.rules@[i].l() == g.rules@[j].l()
            ==> i == j && w == v
}
// the error names a cell claimed in two ways and the two productions
pub open spec fn conflict_at(g: &Grammar, e: LLParserError, i: int, w: int, j: int, v: int) -> bool {
    match e {
        LLParserError::ParserTableConflict { non_terminal, terminal, production, existing_production } =>
            (i != j || w != v) && claims(g, i, w, terminal) && claims(g, j, v, terminal)
                && g.rules@[i].l() == non_terminal && g.rules@[j].l() == non_terminal
                && production == g.rules@[i].rhs && existing_production == g.rules@[j].rhs,
        _ => false,
    }
}
pub open spec fn conflict_ok(g: &Grammar, e: LLParserError) -> bool {
    exists|i: int, w: int, j: int, v: int| #[trigger] conflict_at(g, e, i, w, j, v)
}
// progress: rules before n are done, of rule n the ways before ph, and of way ph the lookaheads in pre
pub open spec fn dn(g: &Grammar, n: int, ph: int, pre: Seq<Symbol>, i: int, w: int, t: Symbol) -> bool {
    claims(g, i, w, t) && (i < n || i == n && (w < ph || w == ph && pre.contains(t)))
}
pub open spec fn tab_ok(g: &Grammar, tab: Map<Cell, Vec<Symbol>>, n: int, ph: int, pre: Seq<Symbol>) -> bool {
    &&& forall|i: int, w: int, t: Symbol| #[trigger] dn(g, n, ph, pre, i, w, t) ==> tab.contains_key(claimed(g, i, t)) && tab[claimed(g, i, t)] == g.rules@[i].rhs
    &&& forall|k: Cell| #[trigger] tab.contains_key(k) ==> exists|i: int, w: int, t: Symbol| #[trigger] dn(g, n, ph, pre, i, w, t) && claimed(g, i, t) == k
    &&& forall|i: int, w: int, j: int, v: int, t: Symbol| #[trigger] dn(g, n, ph, pre, i, w, t) && #[trigger] dn(g, n, ph, pre, j, v, t) && g.rules@[i].l() == g.rules@[j].l()
            ==> i == j && w == v
}
pub proof fn lemma_cell(g: &Grammar, i: int, t: Symbol, j: int, u: Symbol)
    requires 0 <= i < g.rules@.len(), 0 <= j < g.rules@.len(), is_t(t), is_t(u), claimed(g, i, t) == claimed(g, j, u),
    ensures t == u, g.rules@[i].l() == g.rules@[j].l(),
{ }
pub proof fn lemma_tab_start(g: &Grammar)
    ensures tab_ok(g, Map::empty(), 0, 0, Seq::empty()),
{ }
pub proof fn lemma_tab_step(g: &Grammar, tab: Map<Cell, Vec<Symbol>>, n: int, ph: int, pre: Seq<Symbol>, s: Symbol)
    requires g.wf(), tab_ok(g, tab, n, ph, pre), claims(g, n, ph, s), !pre.contains(s), ph == 0 || ph == 1,
    ensures
        !tab.contains_key(claimed(g, n, s)) ==> tab_ok(g, tab.insert(claimed(g, n, s), g.rules@[n].rhs), n, ph, pre.push(s)),
        tab.contains_key(claimed(g, n, s)) ==> exists|j: int, v: int| #[trigger] claims(g, j, v, s) && g.rules@[j].l() == g.rules@[n].l() && (j != n || v != ph)
            && tab[claimed(g, n, s)] == g.rules@[j].rhs,
{
    let k = claimed(g, n, s);
    let p2 = pre.push(s);
    assert(forall|x: Symbol| #[trigger] p2.contains(x) <==> pre.contains(x) || x == s) by {
        assert forall|x: Symbol| pre.contains(x) || x == s implies #[trigger] p2.contains(x) by {
            if pre.contains(x) { let q = choose|q: int| 0 <= q < pre.len() && pre[q] == x; assert(p2[q] == x); }
            else { assert(p2[pre.len() as int] == s); }
        }
    }
    if tab.contains_key(k) {
        let (i, w, t) = choose|i: int, w: int, t: Symbol| #[trigger] dn(g, n, ph, pre, i, w, t) && claimed(g, i, t) == k;
        lemma_cell(g, i, t, n, s);
        assert(claims(g, i, w, s));
    } else {
        let tab2 = tab.insert(k, g.rules@[n].rhs);
        assert forall|i: int, w: int, t: Symbol| #[trigger] dn(g, n, ph, p2, i, w, t) implies
            dn(g, n, ph, pre, i, w, t) || (i == n && w == ph && t == s) by { }
        assert forall|i: int, w: int, t: Symbol| #[trigger] dn(g, n, ph, p2, i, w, t) implies tab2.contains_key(claimed(g, i, t)) && tab2[claimed(g, i, t)] == g.rules@[i].rhs by {
            if dn(g, n, ph, pre, i, w, t) { }
        }
        assert forall|q: Cell| #[trigger] tab2.contains_key(q) implies exists|i: int, w: int, t: Symbol| #[trigger] dn(g, n, ph, p2, i, w, t) && claimed(g, i, t) == q by {
            if q == k { assert(dn(g, n, ph, p2, n, ph, s)); }
            else {
                let (i, w, t) = choose|i: int, w: int, t: Symbol| #[trigger] dn(g, n, ph, pre, i, w, t) && claimed(g, i, t) == q;
                assert(dn(g, n, ph, p2, i, w, t));
            }
        }
        assert forall|i: int, w: int, j: int, v: int, t: Symbol| #[trigger] dn(g, n, ph, p2, i, w, t) && #[trigger] dn(g, n, ph, p2, j, v, t) && g.rules@[i].l() == g.rules@[j].l()
            implies i == j && w == v by {
            let a = dn(g, n, ph, pre, i, w, t);
            let b = dn(g, n, ph, pre, j, v, t);
            if a && !b { assert(tab.contains_key(claimed(g, i, t))); }
            if b && !a { assert(tab.contains_key(claimed(g, j, t))); }
        }
    }
}
pub proof fn lemma_tab_same(g: &Grammar, tab: Map<Cell, Vec<Symbol>>, n: int, ph: int, pre: Seq<Symbol>, n2: int, ph2: int, pre2: Seq<Symbol>)
    requires tab_ok(g, tab, n, ph, pre),
        forall|i: int, w: int, t: Symbol| #[trigger] dn(g, n2, ph2, pre2, i, w, t) ==> dn(g, n, ph, pre, i, w, t),
        forall|i: int, w: int, t: Symbol| #[trigger] dn(g, n, ph, pre, i, w, t) ==> dn(g, n2, ph2, pre2, i, w, t),
    ensures tab_ok(g, tab, n2, ph2, pre2),
{
    assert forall|k: Cell| #[trigger] tab.contains_key(k) implies exists|i: int, w: int, t: Symbol| #[trigger] dn(g, n2, ph2, pre2, i, w, t) && claimed(g, i, t) == k by {
        let (i, w, t) = choose|i: int, w: int, t: Symbol| #[trigger] dn(g, n, ph, pre, i, w, t) && claimed(g, i, t) == k;
        assert(dn(g, n2, ph2, pre2, i, w, t));
    }
}
pub proof fn lemma_tab_skip(g: &Grammar, tab: Map<Cell, Vec<Symbol>>, n: int, ph: int, pre: Seq<Symbol>, s: Symbol)
    requires tab_ok(g, tab, n, ph, pre), !is_t(s),
    ensures tab_ok(g, tab, n, ph, pre.push(s)),
{
    let p2 = pre.push(s);
    assert(forall|x: Symbol| #[trigger] p2.contains(x) ==> pre.contains(x) || x == s);
    assert forall|x: Symbol| #[trigger] pre.contains(x) implies p2.contains(x) by {
        let q = choose|q: int| 0 <= q < pre.len() && pre[q] == x; assert(p2[q] == x);
    }
    assert(forall|i: int, w: int, t: Symbol| #[trigger] dn(g, n, ph, p2, i, w, t) <==> dn(g, n, ph, pre, i, w, t));
    lemma_tab_same(g, tab, n, ph, pre, n, ph, p2);
}
// all lookaheads of a way are done
pub proof fn lemma_tab_way(g: &Grammar, tab: Map<Cell, Vec<Symbol>>, n: int, ph: int, pre: Seq<Symbol>)
    requires tab_ok(g, tab, n, ph, pre), forall|t: Symbol| #[trigger] claims(g, n, ph, t) ==> pre.contains(t),
    ensures tab_ok(g, tab, n, ph + 1, Seq::empty()), ph == 1 ==> tab_ok(g, tab, n + 1, 0, Seq::empty()),
{
    let e = Seq::<Symbol>::empty();
    assert forall|i: int, w: int, t: Symbol| #[trigger] dn(g, n, ph + 1, e, i, w, t) <==> dn(g, n, ph, pre, i, w, t) by { if i == n && w == ph && claims(g, n, ph, t) { } }
    lemma_tab_same(g, tab, n, ph, pre, n, ph + 1, e);
    if ph == 1 {
        assert forall|i: int, w: int, t: Symbol| #[trigger] dn(g, n + 1, 0, e, i, w, t) <==> dn(g, n, ph + 1, e, i, w, t) by { }
        lemma_tab_same(g, tab, n, ph + 1, e, n + 1, 0, e);
    }
}
pub proof fn lemma_tab_done(g: &Grammar, tab: Map<Cell, Vec<Symbol>>)
    requires tab_ok(g, tab, g.rules@.len() as int, 0, Seq::empty()),
    ensures tab_exact(g, tab),
{
    let n = g.rules@.len() as int;
    let e = Seq::<Symbol>::empty();
    assert(forall|i: int, w: int, t: Symbol| #[trigger] dn(g, n, 0, e, i, w, t) ==> claims(g, i, w, t));
    assert(forall|i: int, w: int, t: Symbol| #[trigger] claims(g, i, w, t) ==> dn(g, n, 0, e, i, w, t));
}
pub open spec fn prefix(s: Set<Symbol>, k: int) -> Seq<Symbol> { vx_order(s).take(k) }
pub proof fn lemma_prefix(s: Set<Symbol>, k: int)
    requires 0 <= k < vx_order(s).len(),
    ensures !prefix(s, k).contains(vx_order(s)[k]), prefix(s, k + 1) == prefix(s, k).push(vx_order(s)[k]), s.contains(vx_order(s)[k]),
{
    assert(prefix(s, k + 1) =~= prefix(s, k).push(vx_order(s)[k]));
}

//@fn lapex-parser/src/ll_parser/mod.rs LLParserTable::new
//@spec
    ensures r.table@ == Map::<Cell, Vec<Symbol>>::empty(),
//@end
//@fn lapex-parser/src/ll_parser/mod.rs LLParserTable::get_production
//@spec
    ensures
        is_nt(non_terminal) && is_t(*terminal) ==> (match r {
            Some(p) => self.table@.contains_key(cell(non_terminal, *terminal)) && *p == self.table@[cell(non_terminal, *terminal)],
            None => !self.table@.contains_key(cell(non_terminal, *terminal)),
        }),
        !(is_nt(non_terminal) && is_t(*terminal)) ==> r is None,
//@end
//@fn lapex-parser/src/ll_parser/mod.rs LLParserTable::check_for_conflict_and_insert
//@spec
    ensures
        old(self).table@.contains_key((non_terminal_index, terminal_index)) ==> r == Err::<(), LLParserError>(LLParserError::ParserTableConflict {
            non_terminal: Symbol::NonTerminal(non_terminal_index),
            terminal: (match terminal_index { Some(k) => Symbol::Terminal(k), None => Symbol::End }),
            production, existing_production: old(self).table@[(non_terminal_index, terminal_index)] }),
        !old(self).table@.contains_key((non_terminal_index, terminal_index)) ==> r is Ok
            && final(self).table@ == old(self).table@.insert((non_terminal_index, terminal_index), production),
//@end
//@fn lapex-parser/src/ll_parser/mod.rs LLParserTable::insert
//@spec
    ensures
        is_nt(non_terminal) && is_t(terminal) ==> {
            &&& old(self).table@.contains_key(cell(non_terminal, terminal)) ==> r == Err::<(), LLParserError>(LLParserError::ParserTableConflict {
                    non_terminal, terminal, production, existing_production: old(self).table@[cell(non_terminal, terminal)] })
            &&& !old(self).table@.contains_key(cell(non_terminal, terminal)) ==> r is Ok
                    && final(self).table@ == old(self).table@.insert(cell(non_terminal, terminal), production)
        },
        !(is_nt(non_terminal) && is_t(terminal)) ==> r == Err::<(), LLParserError>(LLParserError::InvalidParserTableEntry),
//@end
//@fn lapex-parser/src/ll_parser/mod.rs generate_table
//@spec
    requires grammar.wf(),
    ensures
        r matches Ok(t) ==> tab_exact(grammar, t.table@),
        r matches Err(e) ==> conflict_ok(grammar, e),
//@loop 0
        invariant
            grammar.wf(), first_exact(grammar, fv(first_sets@)), follow_exact(grammar, fv(follow_sets@)),
            it0.pos() <= it0.seq().len(), it0.seq().len() == grammar.rules@.len(),
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == grammar.rules@[i],
            tab_ok(grammar, parser_table.table@, it0.pos() as int, 0, Seq::empty()),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 before
    proof { lemma_tab_start(grammar); }
//@at loop 0 start
    let ghost n = it0.pos() - 1;
    let ghost f = fv(first_sets@);
    let ghost fs = fseq(f, rule.rhs@);
    let ghost ws = fv(follow_sets@)[grammar.rules@[n].l()];
    proof {
        assert(rule_wf(grammar, grammar.rules@[n]));
        assert(nts_in(f, rule.rhs@)) by {
            assert forall|k: int| 0 <= k < rule.rhs@.len() && is_nt(#[trigger] rule.rhs@[k]) implies f.contains_key(rule.rhs@[k]) by { assert(sym_wf(grammar, rule.rhs@[k])); }
        }
        assert forall|x: Symbol| fs.contains(x) <==> #[trigger] in_first(grammar, rule.rhs@, x) by { lemma_seq_exact(grammar, f, rule.rhs@, x); }
    }
//@at loop 1 before
    proof { assert(prefix(fs, 0) =~= Seq::<Symbol>::empty()); }
//@loop 1
        invariant
            grammar.wf(), 0 <= n < grammar.rules@.len(), *rule == grammar.rules@[n], rule_wf(grammar, *rule), fs == fseq(f, rule.rhs@),
            forall|x: Symbol| fs.contains(x) <==> #[trigger] in_first(grammar, rule.rhs@, x),
            it1.pos() <= it1.seq().len(), it1.seq().len() == vx_order(fs).len(),
            forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == vx_order(fs)[i],
            tab_ok(grammar, parser_table.table@, n, 0, prefix(fs, it1.pos() as int)),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    let ghost t0 = parser_table.table@;
    let ghost p0 = prefix(fs, it1.pos() - 1);
    proof {
        lemma_prefix(fs, it1.pos() - 1);
        assert(it1.seq()[it1.pos() - 1] == symbol);
        if is_t(*symbol) { assert(claims(grammar, n, 0, *symbol)); lemma_tab_step(grammar, t0, n, 0, p0, *symbol); }
        else { lemma_tab_skip(grammar, t0, n, 0, p0, *symbol); }
        if is_t(*symbol) && t0.contains_key(claimed(grammar, n, *symbol)) {
            let (j, v) = choose|j: int, v: int| #[trigger] claims(grammar, j, v, *symbol) && grammar.rules@[j].l() == grammar.rules@[n].l() && (j != n || v != 0)
                && t0[claimed(grammar, n, *symbol)] == grammar.rules@[j].rhs;
            let e = LLParserError::ParserTableConflict { non_terminal: grammar.rules@[n].l(), terminal: *symbol, production: grammar.rules@[n].rhs, existing_production: grammar.rules@[j].rhs };
            assert(conflict_at(grammar, e, n, 0, j, v));
        }
    }
//@at loop 1 after
    proof {
        assert(prefix(fs, vx_order(fs).len() as int) =~= vx_order(fs));
        lemma_tab_way(grammar, parser_table.table@, n, 0, vx_order(fs));
    }
//@loop 2
        invariant
            grammar.wf(), 0 <= n < grammar.rules@.len(), *rule == grammar.rules@[n], rule_wf(grammar, *rule), fs.contains(Symbol::Epsilon),
            in_first(grammar, rule.rhs@, Symbol::Epsilon),
            forall|x: Symbol| ws.contains(x) <==> #[trigger] in_follow(grammar, rule.l(), x),
            it2.pos() <= it2.seq().len(), it2.seq().len() == vx_order(ws).len(),
            forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == vx_order(ws)[i],
            tab_ok(grammar, parser_table.table@, n, 1, prefix(ws, it2.pos() as int)),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 before
    proof { assert(prefix(ws, 0) =~= Seq::<Symbol>::empty()); }
//@at loop 2 start
    let ghost t0 = parser_table.table@;
    let ghost p0 = prefix(ws, it2.pos() - 1);
    proof {
        lemma_prefix(ws, it2.pos() - 1);
        assert(it2.seq()[it2.pos() - 1] == symbol);
        if is_t(*symbol) { assert(claims(grammar, n, 1, *symbol)); lemma_tab_step(grammar, t0, n, 1, p0, *symbol); }
        else { lemma_tab_skip(grammar, t0, n, 1, p0, *symbol); }
        if is_t(*symbol) && t0.contains_key(claimed(grammar, n, *symbol)) {
            let (j, v) = choose|j: int, v: int| #[trigger] claims(grammar, j, v, *symbol) && grammar.rules@[j].l() == grammar.rules@[n].l() && (j != n || v != 1)
                && t0[claimed(grammar, n, *symbol)] == grammar.rules@[j].rhs;
            let e = LLParserError::ParserTableConflict { non_terminal: grammar.rules@[n].l(), terminal: *symbol, production: grammar.rules@[n].rhs, existing_production: grammar.rules@[j].rhs };
            assert(conflict_at(grammar, e, n, 1, j, v));
        }
    }
//@at loop 2 after
    proof { assert(prefix(ws, vx_order(ws).len() as int) =~= vx_order(ws)); }
//@at loop 0 end
    proof {
        if fs.contains(Symbol::Epsilon) { lemma_tab_way(grammar, parser_table.table@, n, 1, vx_order(ws)); }
        else { lemma_tab_way(grammar, parser_table.table@, n, 1, Seq::empty()); }
    }
//@at exits
    proof { if vx_ret is Ok { lemma_tab_done(grammar, parser_table.table@); } }
//@end
