// ---- the errors the driver reports --------------------------------------------------------------------
//@type lapex/src/errors.rs Severity
//@type lapex/src/errors.rs Location
//@type lapex/src/errors.rs LapexErrorType
//@type lapex/src/errors.rs LapexError
// how an item and a symbol are written is left open
pub uninterp spec fn item_shown<'g, 'r>(a: Item<'g, 'r, 0>, g: &Grammar) -> Seq<char>;
pub uninterp spec fn symbol_shown(g: &Grammar, s: Symbol) -> Seq<char>;
#[verifier::external_body]
pub struct VxItemText { t: u8 }
impl VxItemText { pub uninterp spec fn t(&self) -> Seq<char>; }
impl VxShow for VxItemText { open spec fn shown(&self) -> Seq<char> { self.t() } }
impl<'grammar, 'rules> Item<'grammar, 'rules, 0> {
    #[verifier::external_body]
    pub fn display(&self, grammar: &Grammar) -> (r: VxItemText)
        ensures r.t() == item_shown(*self, grammar),
    { unimplemented!() }
}
//@fn lapex-parser/src/grammar.rs Rule::rule
//@spec
    ensures r == self.rule,
//@end
impl<'grammar, 'rules> RuleRef<'grammar, 'rules> {
    pub fn rule(&self) -> (r: &'grammar Spanned<ProductionRule<'rules>>)
        ensures r == self.0.rule,
    { self.deref().rule() }
}
//@fn lapex-parser/src/lr_parser/item.rs Item::production
//@spec
    ensures r == self.rule.0.rule,
//@end
//@fn lapex-parser/src/grammar.rs Grammar::get_token_name
//@spec
    requires self.tokens@.contains_key(Symbol::Terminal(index)),
    ensures r@ == self.tokens@[Symbol::Terminal(index)]@,
//@end
//@fn lapex-parser/src/grammar.rs Grammar::get_symbol_name external
//@spec
    ensures r@ == symbol_shown(self, *symbol),
//@end
// the span lies in the text
pub open spec fn placed(sp: SourceSpan, t: Seq<char>) -> bool {
    &&& !lex_lt(sp.end.p(), sp.start.p())
    &&& exists|i: nat| i <= t.len() && #[trigger] lc(t, i) == sp.start.p()
    &&& exists|i: nat| i <= t.len() && #[trigger] lc(t, i) == sp.end.p()
}
// the place of a span: its position, its file, its text
pub open spec fn cut_at(sp: SourceSpan, t: Seq<char>, i: nat, j: nat) -> bool { i <= j <= t.len() && lc(t, i) == sp.start.p() && lc(t, j) == sp.end.p() }
pub open spec fn locates(l: Location, sp: SourceSpan, file: Seq<char>, t: Seq<char>) -> bool {
    l.pos == sp.start && l.file@ == file && exists|i: nat, j: nat| #[trigger] cut_at(sp, t, i, j) && l.text@ == t.subrange(i as int, j as int)
}
//@fn lapex/src/errors.rs Location::from_span
//@spec
    requires placed(span, contents@),
    ensures r is Some, locates(r->0, span, file@, contents@),
//@at end
    proof {
        let sp = vx_ret->0.text@;
        let (i, j) = choose|i: nat, j: nat| i <= j <= contents@.len() && #[trigger] lc(contents@, i) == span.start.p()
            && #[trigger] lc(contents@, j) == span.end.p() && sp == contents@.subrange(i as int, j as int);
        assert(cut_at(span, contents@, i, j));
    }
//@end
pub open spec fn item_span<'g, 'r>(a: Item<'g, 'r, 0>) -> SourceSpan { a.rule.0.rule.span }
// what can be reported: the productions' spans lie in the text, and a token to shift has a name
pub open spec fn tellable<'g, 'r>(c: Conflict<'g, 'r>, g: &Grammar, t: Seq<char>) -> bool {
    match c {
        Conflict::ShiftReduce { state, item_to_reduce, shift_symbol } => placed(item_span(item_to_reduce), t) && (shift_symbol is Terminal ==> g.tokens@.contains_key(shift_symbol)),
        Conflict::ReduceReduce { state, items } => forall|k: int| 0 <= k < items@.len() ==> placed(item_span(#[trigger] items@[k]), t),
    }
}
pub open spec fn shift_name(g: &Grammar, x: Symbol) -> Seq<char> { if x is Terminal { g.tokens@[x]@ } else { symbol_shown(g, x) } }
pub open spec fn item_told<'g, 'r>(l: (Location, String), a: Item<'g, 'r, 0>, g: &Grammar, file: Seq<char>, t: Seq<char>) -> bool {
    locates(l.0, item_span(a), file, t) && l.1@ == vx_txt1("{}"@, item_shown(a, g))
}
// the error tells the conflict: its state, the symbol, the items with their places
pub open spec fn tells<'g, 'r>(e: LapexError, c: Conflict<'g, 'r>, g: &Grammar, file: Seq<char>, t: Seq<char>) -> bool {
    match c {
        Conflict::ShiftReduce { state: s, item_to_reduce: a, shift_symbol: x } => e.error matches LapexErrorType::ShiftReduce { state, symbol_name, location, item_text }
            && state == s && symbol_name@ == shift_name(g, x) && item_told((location, item_text), a, g, file, t),
        Conflict::ReduceReduce { state: s, items: v } => e.error matches LapexErrorType::ReduceReduce { state, items }
            && state == s && items@.len() == v@.len() && forall|k: int| 0 <= k < v@.len() ==> item_told(#[trigger] items@[k], v@[k], g, file, t),
    }
}
pub open spec fn tell_all<'g, 'r>(es: Seq<LapexError>, cs: Seq<Conflict<'g, 'r>>, g: &Grammar, file: Seq<char>, t: Seq<char>) -> bool {
    es.len() == cs.len() && forall|k: int| 0 <= k < cs.len() ==> tells(#[trigger] es[k], cs[k], g, file, t)
}
//@fn lapex/src/errors.rs LapexError::conflicts fmt
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires forall|k: int| 0 <= k < conflicts@.len() ==> tellable(#[trigger] conflicts@[k], grammar, contents@),
    ensures tell_all(r@, conflicts@, grammar, file@, contents@),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == conflicts@.len(), acc0@.len() == it0.pos(),
            forall|k: int| 0 <= k < conflicts@.len() ==> *(#[trigger] it0.seq()[k]) == conflicts@[k],
            forall|k: int| 0 <= k < acc0@.len() ==> tells(#[trigger] acc0@[k], conflicts@[k], grammar, file@, contents@),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    proof { assert(*it0.seq()[it0.pos() - 1] == conflicts@[it0.pos() - 1]); assert(tellable(conflicts@[it0.pos() - 1], grammar, contents@)); }
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), it1.seq().len() == items@.len(), acc1@.len() == it1.pos(),
            forall|k: int| 0 <= k < items@.len() ==> *(#[trigger] it1.seq()[k]) == items@[k],
            forall|k: int| 0 <= k < acc1@.len() ==> item_told(#[trigger] acc1@[k], items@[k], grammar, file@, contents@),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    proof { assert(*it1.seq()[it1.pos() - 1] == items@[it1.pos() - 1]); assert(placed(item_span(items@[it1.pos() - 1]), contents@)); }
//@end
pub open spec fn io_told(es: Seq<LapexError>, p: Seq<char>) -> bool {
    es.len() == 1 && (es[0].error matches LapexErrorType::IO { file, error } && file@ == p && read_error(error, p))
}
//@fn lapex/src/errors.rs LapexError::io
//@spec
    requires read_error(error, file@),
    ensures io_told(r@, file@),
//@end
pub open spec fn rule_told(l: (Location, String), r: Spanned<String>, file: Seq<char>, t: Seq<char>) -> bool {
    locates(l.0, r.span, file, t) && l.1@ == r.inner@
}
pub open spec fn tie_told(es: Seq<LapexError>, e: PrecedenceError, file: Seq<char>, t: Seq<char>) -> bool {
    es.len() == 1 && (es[0].error matches LapexErrorType::Precedence { rules } && rules@.len() == e.rules@.len()
        && forall|k: int| 0 <= k < e.rules@.len() ==> rule_told(#[trigger] rules@[k], e.rules@[k], file, t))
}
//@fn lapex/src/errors.rs LapexError::precedence
//@spec
    requires forall|k: int| 0 <= k < error.rules@.len() ==> placed((#[trigger] error.rules@[k]).span, contents@),
    ensures tie_told(r@, error, file@, contents@),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == error.rules@, acc0@.len() == it0.pos(),
            forall|k: int| 0 <= k < acc0@.len() ==> rule_told(#[trigger] acc0@[k], error.rules@[k], file@, contents@),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    proof { assert(it0.seq()[it0.pos() - 1] == error.rules@[it0.pos() - 1]); }
//@end
