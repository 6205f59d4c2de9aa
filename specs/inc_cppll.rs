// ---- the emitted LL table: a switch over non-terminals of switches over lookaheads -----------------------
// one lookahead: the symbols pushed, last one first
pub struct LCell { pub t: Symbol, pub syms: Seq<Symbol> }
pub struct LArm { pub x: Symbol, pub cells: Seq<LCell>, pub msg: Seq<char> }
pub open spec fn sym_text(p: Seq<char>, g: &Grammar, s: Symbol, i: int) -> Seq<char> {
    match s {
        Symbol::NonTerminal(_) => p + "Symbol sym"@ + dec(i as nat) + "{SymbolKind::NonTerminal, static_cast<uint32_t>(NonTerminalType::"@ + en(g, s) + ")};\n"@ + "parse_stack.push(sym"@ + dec(i as nat) + ");\n"@,
        Symbol::Terminal(_) => p + "Symbol sym"@ + dec(i as nat) + "{SymbolKind::Terminal, static_cast<uint32_t>(lexer::TokenType::TK_"@ + tkn(g, s) + ")};\n"@ + "parse_stack.push(sym"@ + dec(i as nat) + ");\n"@,
        Symbol::Epsilon => p + "// epsilon; push nothing to stack\n"@,
        Symbol::End => p,
    }
}
pub open spec fn push_text(p: Seq<char>, g: &Grammar, s: Seq<Symbol>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { p } else { sym_text(push_text(p, g, s, n - 1), g, s[s.len() - n], n - 1) } }
pub open spec fn lcell_text(p: Seq<char>, g: &Grammar, c: LCell) -> Seq<char> {
    push_text(p + "case lexer::TokenType::TK_"@ + tkn(g, c.t) + ": {\n"@, g, c.syms, c.syms.len() as int) + "break;\n"@ + "}\n"@
}
pub open spec fn lcells_text(p: Seq<char>, g: &Grammar, c: Seq<LCell>) -> Seq<char>
    decreases c.len(),
{ if c.len() == 0 { p } else { lcell_text(lcells_text(p, g, c.drop_last()), g, c.last()) } }
pub open spec fn larm_text(p: Seq<char>, g: &Grammar, a: LArm) -> Seq<char> {
    lcells_text(p + "case static_cast<uint32_t>(NonTerminalType::"@ + en(g, a.x) + "): {\n"@ + "switch (lookahead) {\n"@, g, a.cells)
        + "default:\n"@ + "throw std::runtime_error(\""@ + a.msg + "\");\n"@ + "}\n"@ + "break;\n"@ + "}\n"@
}
pub open spec fn larms_text(p: Seq<char>, g: &Grammar, a: Seq<LArm>) -> Seq<char>
    decreases a.len(),
{ if a.len() == 0 { p } else { larm_text(larms_text(p, g, a.drop_last()), g, a.last()) } }
// the switch as written for these arms
pub open spec fn table_text(p: Seq<char>, g: &Grammar, a: Seq<LArm>) -> Seq<char> { larms_text(p + "switch(non_terminal.identifier) {\n"@, g, a) + "}\n"@ }
// a cell of the table among the lookaheads in s
pub open spec fn stated(tab: Map<Cell, Vec<Symbol>>, x: Symbol, t: Symbol, c: LCell) -> bool { c.t == t && tab.contains_key(cell(x, t)) && c.syms == tab[cell(x, t)]@ }
pub open spec fn cells_in(c: Seq<LCell>, tab: Map<Cell, Vec<Symbol>>, x: Symbol, s: Seq<Symbol>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> s.contains((#[trigger] c[i]).t) && stated(tab, x, c[i].t, c[i])
    &&& forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j ==> (#[trigger] c[i]).t != (#[trigger] c[j]).t
    &&& forall|t: Symbol| s.contains(t) && #[trigger] tab.contains_key(cell(x, t)) ==> has_t(c, t)
}
pub open spec fn has_t(c: Seq<LCell>, t: Symbol) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).t == t }
pub open spec fn has_x(a: Seq<LArm>, x: Symbol) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).x == x }
// every non-terminal has one case; in it, every lookahead has a case iff the table has an entry, which is pushed
pub open spec fn larms_in(a: Seq<LArm>, g: &Grammar, tab: Map<Cell, Vec<Symbol>>, s: Seq<Symbol>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> s.contains((#[trigger] a[i]).x) && cells_in(a[i].cells, tab, a[i].x, g.ts().push(Symbol::End))
    &&& forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j ==> (#[trigger] a[i]).x != (#[trigger] a[j]).x
    &&& forall|x: Symbol| #[trigger] s.contains(x) ==> has_x(a, x)
}
// the table's entries name the grammar's symbols
pub open spec fn entries_ok(g: &Grammar, tab: Map<Cell, Vec<Symbol>>) -> bool {
    forall|k: Cell, i: int| tab.contains_key(k) && 0 <= i < tab[k]@.len() ==> named_sym(g, #[trigger] tab[k]@[i])
}
pub open spec fn named_sym(g: &Grammar, s: Symbol) -> bool { s is Terminal ==> g.tokens@.contains_key(s) }
pub proof fn lemma_exact_entries(g: &Grammar, tab: Map<Cell, Vec<Symbol>>)
    requires g.wf(), tab_exact(g, tab),
    ensures entries_ok(g, tab),
{
    assert forall|k: Cell, i: int| tab.contains_key(k) && 0 <= i < tab[k]@.len() implies named_sym(g, #[trigger] tab[k]@[i]) by {
        let (q, w, t) = choose|q: int, w: int, t: Symbol| #[trigger] claims(g, q, w, t) && claimed(g, q, t) == k;
        assert(tab[k] == g.rules@[q].rhs);
        assert(rule_wf(g, g.rules@[q]));
        assert(sym_wf(g, g.rules@[q].rhs@[i]));
        let s = tab[k]@[i];
        if s is Terminal { let j = choose|j: int| 0 <= j < g.ts().len() && g.ts()[j] == s; assert(vx_order(g.tokens@.dom()).contains(s)); }
    }
}
//@type lapex-cpp-codegen/src/ll_parser/mod.rs CodeWriter
//@fn lapex-cpp-codegen/src/ll_parser/mod.rs CodeWriter::write_non_terminal_enum_name wr
//@rename to_uppercase vx_upper
//@spec
    requires non_terminal is NonTerminal,
    ensures r is Ok ==> final(output).text() == old(output).text() + en(self.grammar, non_terminal),
//@at start
    broadcast use lemma_assoc;
//@end
//@fn lapex-cpp-codegen/src/ll_parser/mod.rs CodeWriter::write_non_terminal_enum_variants wr
//@spec
    requires self.grammar.wf(),
    ensures r is Ok ==> final(output).text() == ens_text(old(output).text(), self.grammar, self.grammar.nts(), self.grammar.nts().len() as int),
//@at start
    broadcast use lemma_assoc;
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == self.grammar.nts(), self.grammar.wf(),
            output.text() == ens_text(old(output).text(), self.grammar, it0.seq(), it0.pos() as int),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_assoc;
//@end
//@fn lapex-cpp-codegen/src/ll_parser/mod.rs CodeWriter::write_push_symbol_sequence wr
//@spec
    requires forall|i: int| 0 <= i < symbols@.len() ==> named_sym(self.grammar, #[trigger] symbols@[i]),
    ensures r is Ok ==> final(output).text() == push_text(old(output).text(), self.grammar, symbols@, symbols@.len() as int),
//@at start
    broadcast use lemma_assoc;
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == symbols@.len(),
            forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == i && *it0.seq()[i].1 == symbols@[symbols@.len() - 1 - i],
            forall|i: int| 0 <= i < symbols@.len() ==> named_sym(self.grammar, #[trigger] symbols@[i]),
            output.text() == push_text(old(output).text(), self.grammar, symbols@, it0.pos() as int),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_assoc;
    proof { assert((i, symbol) == it0.seq()[it0.pos() - 1]); assert(named_sym(self.grammar, symbols@[symbols@.len() - it0.pos()])); }
//@end
//@fn lapex-cpp-codegen/src/ll_parser/mod.rs CodeWriter::write_parser_table_error wr
//@spec
    requires allowed_tokens.pos() == 0,
    ensures r is Ok ==> exists|m: Seq<char>| final(output).text() == #[trigger] thrown(old(output).text(), m),
//@at start
    broadcast use lemma_assoc;
//@loop 0
        invariant it0.pos() <= it0.seq().len(),
        decreases it0.seq().len() - it0.pos(),
//@at exits
    proof { if vx_ret is Ok { assert(output.text() == thrown(old(output).text(), message@)); } }
//@end
pub open spec fn thrown(p: Seq<char>, m: Seq<char>) -> Seq<char> { p + "throw std::runtime_error(\""@ + m + "\");\n"@ }
//@fn lapex-cpp-codegen/src/ll_parser/mod.rs CodeWriter::lookaheads_with_names wr
//@spec
    requires self.grammar.wf(),
    ensures r.pos() == 0, named(self.grammar, self.grammar.ts().push(Symbol::End), r.seq()),
//@end
//@fn lapex-cpp-codegen/src/ll_parser/mod.rs CodeWriter::write_table_switch wr
//@spec
    requires self.grammar.wf(), tab_exact(self.grammar, self.parser_table.table@),
    ensures r is Ok ==> exists|a: Seq<LArm>| final(output).text() == #[trigger] table_text(old(output).text(), self.grammar, a) && larms_in(a, self.grammar, self.parser_table.table@, self.grammar.nts()),
//@at start
    broadcast use lemma_assoc;
    let ghost g = self.grammar;
    let ghost tab = self.parser_table.table@;
    let ghost mut a: Seq<LArm> = seq![];
    let ghost mut c: Seq<LCell> = seq![];
    let ghost mut p0: Seq<char> = seq![];
    let ghost mut p1: Seq<char> = seq![];
    let ghost mut p2: Seq<char> = seq![];
    let ghost mut p3: Seq<char> = seq![];
    proof { lemma_exact_entries(g, tab); }
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == g.nts(), g == self.grammar, tab == self.parser_table.table@, g.wf(), entries_ok(g, tab),
            larms_in(a, g, tab, g.nts().take(it0.pos() as int)),
            output.text() == larms_text(old(output).text() + "switch(non_terminal.identifier) {\n"@, g, a),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_assoc;
    proof { p0 = output.text(); c = seq![]; }
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), named(g, g.ts().push(Symbol::End), it1.seq()), g == self.grammar, tab == self.parser_table.table@, g.wf(), entries_ok(g, tab), non_terminal is NonTerminal,
            cells_in(c, tab, non_terminal, g.ts().push(Symbol::End).take(it1.pos() as int)),
            output.text() == lcells_text(p1, g, c),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 before
    proof { p1 = output.text(); }
//@at loop 1 start
    broadcast use lemma_assoc;
    proof { p2 = output.text(); assert((terminal, token_name) == it1.seq()[it1.pos() - 1]); }
//@at loop 1 end
    proof {
        let ls = g.ts().push(Symbol::End);
        lemma_cells_step(c, tab, non_terminal, ls, it1.pos() as int - 1);
        if tab.contains_key(cell(non_terminal, terminal)) {
            let x = LCell { t: terminal, syms: tab[cell(non_terminal, terminal)]@ };
            assert(c.push(x).drop_last() =~= c);
            assert(output.text() == lcell_text(p2, g, x));
            c = c.push(x);
        }
    }
//@at loop 1 after
    proof { p3 = output.text(); }
//@loop 2
        invariant it2.pos() <= it2.seq().len(),
        decreases it2.seq().len() - it2.pos(),
//@at loop 0 end
    proof {
        let m = choose|m: Seq<char>| output.text() == #[trigger] thrown(p3 + "default:\n"@, m) + "}\n"@ + "break;\n"@ + "}\n"@;
        let x = LArm { x: non_terminal, cells: c, msg: m };
        assert(output.text() == larm_text(p0, g, x));
        assert(a.push(x).drop_last() =~= a);
        let ls = g.ts().push(Symbol::End);
        assert(ls.take(ls.len() as int) =~= ls);
        lemma_larms_step(a, g, tab, it0.pos() as int - 1, x);
        a = a.push(x);
    }
//@at exits
    proof { if vx_ret is Ok { assert(g.nts().take(g.nts().len() as int) =~= g.nts()); assert(output.text() == table_text(old(output).text(), g, a)); } }
//@end
pub proof fn lemma_cells_step(c: Seq<LCell>, tab: Map<Cell, Vec<Symbol>>, x: Symbol, ls: Seq<Symbol>, n: int)
    requires 0 <= n < ls.len(), cells_in(c, tab, x, ls.take(n)), ls.no_duplicates(),
    ensures ({ let t = ls[n]; let y = LCell { t, syms: tab[cell(x, t)]@ }; cells_in(if tab.contains_key(cell(x, t)) { c.push(y) } else { c }, tab, x, ls.take(n + 1)) }),
{
    let t = ls[n];
    let y = LCell { t, syms: tab[cell(x, t)]@ };
    let d = if tab.contains_key(cell(x, t)) { c.push(y) } else { c };
    let s0 = ls.take(n);
    let s = ls.take(n + 1);
    assert(s =~= s0.push(t));
    lemma_push_has(s0, t);
    assert(!s0.contains(t)) by { if s0.contains(t) { let j = choose|j: int| 0 <= j < s0.len() && s0[j] == t; assert(ls[j] == ls[n]); } }
    assert forall|u: Symbol| s.contains(u) && #[trigger] tab.contains_key(cell(x, u)) implies has_t(d, u) by {
        if u == t { assert(d[c.len() as int].t == u); } else { assert(has_t(c, u)); let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).t == u; assert(d[i] == c[i]); }
    }
}
pub proof fn lemma_larms_step(a: Seq<LArm>, g: &Grammar, tab: Map<Cell, Vec<Symbol>>, n: int, y: LArm)
    requires 0 <= n < g.nts().len(), larms_in(a, g, tab, g.nts().take(n)), g.nts().no_duplicates(), y.x == g.nts()[n], cells_in(y.cells, tab, y.x, g.ts().push(Symbol::End)),
    ensures larms_in(a.push(y), g, tab, g.nts().take(n + 1)),
{
    let ls = g.nts();
    let s0 = ls.take(n);
    let s = ls.take(n + 1);
    let d = a.push(y);
    assert(s =~= s0.push(y.x));
    lemma_push_has(s0, y.x);
    assert(!s0.contains(y.x)) by { if s0.contains(y.x) { let j = choose|j: int| 0 <= j < s0.len() && s0[j] == y.x; assert(ls[j] == ls[n]); } }
    assert forall|x: Symbol| #[trigger] s.contains(x) implies has_x(d, x) by {
        if x == y.x { assert(d[a.len() as int].x == x); } else { assert(has_x(a, x)); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).x == x; assert(d[i] == a[i]); }
    }
}
pub proof fn lemma_push_has(s: Seq<Symbol>, y: Symbol)
    ensures forall|x: Symbol| #[trigger] s.push(y).contains(x) <==> s.contains(x) || x == y,
{
    assert forall|x: Symbol| s.contains(x) || x == y implies #[trigger] s.push(y).contains(x) by {
        if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(s.push(y)[j] == x); } else { assert(s.push(y)[s.len() as int] == y); }
    }
}
// ---- visitor calls: one case per named non-terminal ------------------------------------------------------
pub open spec fn vcalls_text(p: Seq<char>, g: &Grammar, s: Seq<Symbol>, n: int, ex: bool) -> Seq<char>
    decreases n,
{
    if n <= 0 { p } else {
        let q = vcalls_text(p, g, s, n - 1, ex);
        let x = s[n - 1];
        if !g.productions@.contains_key(x) { q } else {
            let c = q + "case NonTerminalType::"@ + en(g, x) + ":\n"@;
            if ex { c + "visitor.exit_"@ + g.productions@[x]@ + "();\n"@ + "break;\n"@ } else { c + "visitor.enter_"@ + g.productions@[x]@ + "();\n"@ + "break;\n"@ }
        }
    }
}
pub open spec fn vdecls_text(p: Seq<char>, g: &Grammar, s: Seq<Symbol>, n: int) -> Seq<char>
    decreases n,
{
    if n <= 0 { p } else {
        let q = vdecls_text(p, g, s, n - 1);
        let x = s[n - 1];
        if !g.productions@.contains_key(x) { q } else {
            q + "virtual void enter_"@ + g.productions@[x]@ + "() = 0;\n"@ + "virtual void exit_"@ + g.productions@[x]@ + "() = 0;\n"@
        }
    }
}
//@fn lapex-cpp-codegen/src/ll_parser/mod.rs CodeWriter::write_non_terminal_visitor_call wr
//@spec
    requires self.grammar.wf(),
    ensures r is Ok ==> final(output).text() == vcalls_text(old(output).text() + "switch (non_terminal) {\n"@, self.grammar, self.grammar.nts(), self.grammar.nts().len() as int, is_exit) + "}\n"@,
//@at start
    broadcast use lemma_assoc;
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == self.grammar.nts(), self.grammar.wf(),
            output.text() == vcalls_text(old(output).text() + "switch (non_terminal) {\n"@, self.grammar, it0.seq(), it0.pos() as int, is_exit),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_assoc;
    proof { assert(is_nt(self.grammar.nts()[it0.pos() - 1])); }
//@end
//@fn lapex-cpp-codegen/src/ll_parser/mod.rs CodeWriter::write_visitor_methods wr
//@spec
    requires self.grammar.wf(),
    ensures r is Ok ==> final(output).text() == vdecls_text(old(output).text(), self.grammar, self.grammar.nts(), self.grammar.nts().len() as int),
//@at start
    broadcast use lemma_assoc;
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == self.grammar.nts(), self.grammar.wf(),
            output.text() == vdecls_text(old(output).text(), self.grammar, it0.seq(), it0.pos() as int),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    broadcast use lemma_assoc;
    proof { assert(is_nt(self.grammar.nts()[it0.pos() - 1])); }
//@end
