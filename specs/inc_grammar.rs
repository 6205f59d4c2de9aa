// grammar types and accessors, extracted; their views
//@type lapex-input/src/lib.rs SourcePos #[derive(Copy, Clone)]
//@type lapex-input/src/lib.rs SourceSpan #[derive(Copy, Clone)]
//@type lapex-input/src/lib.rs Spanned
//@type lapex-input/src/lib.rs ProductionPattern
//@type lapex-input/src/lib.rs ProductionRule
//@type lapex-parser/src/grammar.rs SymbolIdx
//@type lapex-parser/src/grammar.rs GrammarError
//@type lapex-parser/src/grammar.rs Symbol #[derive(Structural, PartialEq, Eq, Copy, Clone)]
//@type lapex-parser/src/grammar.rs Rule
//@type lapex-parser/src/grammar.rs Grammar

pub open spec fn is_nt(s: Symbol) -> bool { s is NonTerminal }
pub open spec fn is_t(s: Symbol) -> bool { s is Terminal || s is End }

impl<'rules> Rule<'rules> {
    pub open spec fn l(&self) -> Symbol { Symbol::NonTerminal(self.lhs->0) }
    pub open spec fn r(&self) -> Seq<Symbol> { self.rhs@ }
}
impl<'rules> Grammar<'rules> {
    // the nonterminals in listing order
    pub open spec fn nts(&self) -> Seq<Symbol> { vx_order(self.productions@.dom()) + self.anonymous_non_terminals@ }
    pub open spec fn ts(&self) -> Seq<Symbol> { vx_order(self.tokens@.dom()) }
    // what grammar construction guarantees (C06)
    pub open spec fn wf(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.nts().len() ==> is_nt(#[trigger] self.nts()[i])
        &&& forall|i: int| 0 <= i < self.ts().len() ==> (#[trigger] self.ts()[i]) is Terminal
        &&& self.nts().no_duplicates()
        &&& forall|i: int| 0 <= i < self.rules@.len() ==> rule_wf(self, #[trigger] self.rules@[i])
        &&& self.nts().contains(self.entry_symbol)
        &&& self.entry_rule.lhs is None && self.entry_rule.rhs@ == seq![self.entry_symbol]
    }
}
pub open spec fn rule_wf(g: &Grammar, r: Rule) -> bool {
    &&& r.lhs is Some && g.nts().contains(r.l())
    &&& r.rhs@.len() > 0
    &&& forall|k: int| 0 <= k < r.rhs@.len() ==> sym_wf(g, #[trigger] r.rhs@[k])
}
pub open spec fn sym_wf(g: &Grammar, s: Symbol) -> bool {
    match s { Symbol::NonTerminal(_) => g.nts().contains(s), Symbol::Terminal(_) => g.ts().contains(s), Symbol::Epsilon => true, Symbol::End => false }
}

//@fn lapex-parser/src/grammar.rs Rule::lhs
//@spec
    ensures r == (match self.lhs { Some(i) => Some(Symbol::NonTerminal(i)), None => None }),
//@end
//@fn lapex-parser/src/grammar.rs Rule::rhs
//@spec
    ensures *r == self.rhs,
//@end
//@fn lapex-parser/src/grammar.rs Grammar::non_terminals
//@spec
    ensures r.pos() == 0, r.seq() == self.nts(),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(),
            it0.seq().len() == self.nts().len(),
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.nts()[i],
            acc0@.len() == it0.pos(),
            forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == self.nts()[i],
        decreases it0.seq().len() - it0.pos(),
//@at end
    assert(vx_ret.seq() =~= self.nts());
//@end
//@fn lapex-parser/src/grammar.rs Grammar::terminals
//@spec
    ensures r.pos() == 0, r.seq() == self.ts(),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(),
            it0.seq().len() == self.ts().len(),
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.ts()[i],
            acc0@.len() == it0.pos(),
            forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == self.ts()[i],
        decreases it0.seq().len() - it0.pos(),
//@at end
    assert(vx_ret.seq() =~= self.ts());
//@end
//@fn lapex-parser/src/grammar.rs Grammar::symbols
//@spec
    ensures r.pos() == 0, r.seq() == self.ts() + self.nts(),
//@at end
    assert(vx_ret.seq() =~= self.ts() + self.nts());
//@end
//@fn lapex-parser/src/grammar.rs Grammar::rules
//@spec
    ensures r@ == self.rules@,
//@end
//@fn lapex-parser/src/grammar.rs Grammar::entry_rule
//@spec
    ensures *r == self.entry_rule,
//@end
//@fn lapex-parser/src/grammar.rs Grammar::entry_point
//@spec
    ensures *r == self.entry_symbol,
//@end
