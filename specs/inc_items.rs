// ---- LR items -------------------------------------------------------------------------------------
//@type lapex-parser/src/lr_parser/item.rs DotIdx
//@type lapex-parser/src/lr_parser/item.rs RuleRef
//@type lapex-parser/src/lr_parser/item.rs Item
//@type lapex-parser/src/lr_parser/mod.rs ItemSet
//@type lapex-parser/src/lr_parser/mod.rs ItemHashSet

impl<'grammar, 'rules, const N: usize> Item<'grammar, 'rules, N> {
    pub open spec fn rs(&self) -> Seq<Symbol> { self.rule.0.rhs@ }
    pub open spec fn d(&self) -> int { self.dot_position as int }
    // the symbol after the dot
    pub open spec fn after(&self) -> Option<Symbol> { if self.d() < self.rs().len() { Some(self.rs()[self.d()]) } else { None } }
    // what follows the symbol after the dot, and then the lookahead
    pub open spec fn beyond(&self) -> Seq<Symbol> { self.rs().skip(self.d() + 1) + seq![self.lookahead@[0]] }
}
// empty markers are skipped
pub open spec fn norm(s: Seq<Symbol>, d: int) -> int
    decreases s.len() - d,
{ if 0 <= d < s.len() && s[d] == Symbol::Epsilon { norm(s, d + 1) } else { d } }
pub proof fn lemma_norm(s: Seq<Symbol>, d: int)
    requires 0 <= d <= s.len(),
    ensures d <= norm(s, d) <= s.len(), norm(s, d) < s.len() ==> s[norm(s, d)] != Symbol::Epsilon,
    decreases s.len() - d,
{ if d < s.len() && s[d] == Symbol::Epsilon { lemma_norm(s, d + 1); } }
// dot positions are a byte (the crate's limit: longer right-hand sides are refused by a panic)
pub open spec fn rhs_ok(f: Sets, s: Seq<Symbol>) -> bool {
    s.len() <= 255 && nts_in(f, s) && forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != Symbol::End
}
pub open spec fn item_ok<const N: usize>(f: Sets, i: Item<N>) -> bool {
    N <= 1 && i.d() <= i.rs().len() && (N == 1 ==> rhs_ok(f, i.rs()) && is_t(i.lookahead@[0])) && i.rs().len() <= 255
}

// automatic dereferencing of the rule reference
//@fn lapex-parser/src/lr_parser/item.rs RuleRef::deref
//@sub Self :: Target ==> Rule < 'rules >
//@spec
    ensures r == self.0,
//@end
impl<'grammar, 'rules> RuleRef<'grammar, 'rules> {
    pub fn rhs(&self) -> (r: &Vec<Symbol>)
        ensures *r == self.0.rhs,
    { self.deref().rhs() }
    pub fn lhs(&self) -> (r: Option<Symbol>)
        ensures r == (match self.0.lhs { Some(i) => Some(Symbol::NonTerminal(i)), None => None }),
    { self.deref().lhs() }
}
//@fn lapex-parser/src/lr_parser/item.rs Item::new
//@spec
    ensures r.rule.0 == rule, r.dot_position == 0, r.lookahead == lookahead,
//@end
//@fn lapex-parser/src/lr_parser/item.rs Item::to_lr0
//@spec
    ensures r == core(*self),
//@at end
    proof { assert(vx_ret.lookahead =~= core(*self).lookahead); }
//@end
pub open spec fn core<'grammar, 'rules, const N: usize>(i: Item<'grammar, 'rules, N>) -> Item<'grammar, 'rules, 0> {
    Item { rule: i.rule, dot_position: i.dot_position, lookahead: vx_arr0() }
}
pub uninterp spec fn vx_arr0() -> [Symbol; 0];
//@fn lapex-parser/src/lr_parser/item.rs Item::lookahead
//@spec
    ensures *r == self.lookahead,
//@end
//@fn lapex-parser/src/lr_parser/item.rs Item::symbol_after_dot_offset
//@spec
    requires self.d() + offset <= 255,
    ensures r == (if self.d() + offset < self.rs().len() { Some(self.rs()[self.d() + offset]) } else { None }),
//@end
//@fn lapex-parser/src/lr_parser/item.rs Item::symbol_after_dot
//@spec
    ensures r == self.after(),
//@end
//@fn lapex-parser/src/lr_parser/item.rs Item::symbols_following_symbol_after_dot
//@spec
    requires self.d() < self.rs().len(), self.d() < 255,
    ensures r.pos() == 0, r.seq() == self.rs().skip(self.d() + 1),
//@loop 0
        invariant
            self.d() < self.rs().len(),
            it0.pos() <= it0.seq().len(),
            it0.seq().len() == self.rs().len() - self.d() - 1,
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.rs()[i + self.d() + 1],
            acc0@.len() == it0.pos(),
            forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == self.rs()[i + self.d() + 1],
        decreases it0.seq().len() - it0.pos(),
//@at end
    proof { assert(vx_ret.seq() =~= self.rs().skip(self.d() + 1)); }
//@end
//@fn lapex-parser/src/lr_parser/item.rs Item::advance_dot
//@spec
    requires old(self).rs().len() <= 255,
    ensures final(self).rule == old(self).rule, final(self).lookahead == old(self).lookahead,
        old(self).d() < old(self).rs().len() ==> final(self).d() == old(self).d() + 1 && r,
        old(self).d() >= old(self).rs().len() ==> *final(self) == *old(self) && !r,
//@end
//@fn lapex-parser/src/lr_parser/item.rs Item::rule
//@spec
    ensures r == self.rule.0,
//@end
