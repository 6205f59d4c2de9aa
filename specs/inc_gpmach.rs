// ---- what the generated parser computes --------------------------------------------------------------------
pub ghost struct TabG<'g, 'r> { pub c: Cells<'g, 'r>, pub n: int, pub en: usize, pub g: &'g Grammar<'g> }
// rules by their number
pub open spec fn rule_ix(g: &Grammar, r: Rule) -> int { choose|i: int| 0 <= i < g.rules@.len() && #[trigger] g.rules@[i] == r }
pub open spec fn plain(s: Seq<Symbol>) -> Seq<Symbol>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else if s.last() == Symbol::Epsilon { plain(s.drop_last()) } else { plain(s.drop_last()).push(s.last()) } }
// the terminal a token stands for
pub open spec fn tk(g: &Grammar, x: Symbol) -> TokenType { if x is End { TokenType::EndOfFile } else { tok_of(g.tokens@[x]@) } }
pub open spec fn a_token(g: &Grammar, x: Symbol) -> bool { g.ts().contains(x) || x == Symbol::End }
pub open spec fn sym_of(g: &Grammar, t: TokenType) -> Option<Symbol> {
    if exists|x: Symbol| #[trigger] a_token(g, x) && tk(g, x) == t { Some(choose|x: Symbol| #[trigger] a_token(g, x) && tk(g, x) == t) } else { None }
}
// different terminals have different variants, and so have nonterminals (or else the emitted file does not compile)
pub open spec fn names_ok(g: &Grammar) -> bool {
    &&& forall|x: Symbol, y: Symbol| #[trigger] g.ts().contains(x) && #[trigger] g.ts().contains(y) && tk(g, x) == tk(g, y) ==> x == y
    &&& forall|x: Symbol, y: Symbol| #[trigger] g.nts().contains(x) && #[trigger] g.nts().contains(y) && nt_of(g, x) == nt_of(g, y) ==> x == y
}
pub proof fn lemma_sym_of(g: &Grammar, x: Symbol)
    requires names_ok(g), a_token(g, x), g.wf(),
    ensures sym_of(g, tk(g, x)) == Some(x),
{
    broadcast use lemma_tok_of;
    assert forall|y: Symbol| #[trigger] a_token(g, y) && tk(g, y) == tk(g, x) implies y == x by {
        if g.ts().contains(x) { let j = choose|j: int| 0 <= j < g.ts().len() && g.ts()[j] == x; assert(g.ts()[j] is Terminal); }
        if g.ts().contains(y) { let j = choose|j: int| 0 <= j < g.ts().len() && g.ts()[j] == y; assert(g.ts()[j] is Terminal); }
    }
}
pub open spec fn nt_name(g: &Grammar, x: Symbol) -> Seq<char> {
    if g.productions@.contains_key(x) { vx_txt1("Nt{}"@, camel(g.productions@[x]@)) } else { vx_txt1("NtAnon{}"@, vx_dec(x->NonTerminal_0 as nat)) }
}
pub open spec fn nt_base(g: &Grammar, x: Symbol) -> Seq<char> {
    if g.productions@.contains_key(x) { g.productions@[x]@ } else { vx_txt1("anon{}"@, vx_dec(x->NonTerminal_0 as nat)) }
}
pub open spec fn nt_of(g: &Grammar, x: Symbol) -> NonTerminalType { NonTerminalType::of(name_of(nt_name(g, x))) }
pub open spec fn rn(i: usize) -> VxName { name_of(vx_txt1("Rule{}"@, vx_dec(i as nat))) }
pub open spec fn rred(i: usize) -> ReducedRule { ReducedRule::of(rn(i)) }
pub broadcast proof fn lemma_rred(i: usize, j: usize)
    ensures #[trigger] rred(i) == #[trigger] rred(j) ==> i == j,
{
    broadcast use axiom_name_text;
    if rred(i) == rred(j) {
        let l = "Rule{}"@;
        reveal_strlit("Rule{}");
        assert(l.skip(1).skip(1).skip(1).skip(1)[0] == '{');
        reveal_with_fuel(vx_hole, 6);
        assert(rn(i).text() == vx_txt1(l, vx_dec(i as nat)));
        assert(rn(j).text() == vx_txt1(l, vx_dec(j as nat)));
        lemma_txt1(l, vx_dec(i as nat), vx_dec(j as nat));
        lemma_dec(i as nat, j as nat);
    }
}
#[derive(Clone, Copy)]
pub enum NonTerminalType { Nt(VxName) }
impl NonTerminalType {
    pub open spec fn of(n: VxName) -> NonTerminalType { NonTerminalType::Nt(n) }
    pub fn vx_of(n: VxName) -> (r: NonTerminalType)
        ensures r == NonTerminalType::of(n),
    { NonTerminalType::Nt(n) }
}
impl VxSame for NonTerminalType {
    #[verifier::external_body]
    fn vx_same(&self, o: &NonTerminalType) -> (r: bool) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub enum ReducedRule { Rule(VxName) }
impl ReducedRule {
    pub open spec fn of(n: VxName) -> ReducedRule { ReducedRule::Rule(n) }
    pub fn vx_of(n: VxName) -> (r: ReducedRule)
        ensures r == ReducedRule::of(n),
    { ReducedRule::Rule(n) }
}
impl VxSame for ReducedRule {
    #[verifier::external_body]
    fn vx_same(&self, o: &ReducedRule) -> (r: bool) { unimplemented!() }
}
// the numbers of the rules of a nonterminal, in order
pub open spec fn lhs_rules(g: &Grammar, k: int, x: Symbol) -> Seq<int>
    decreases k,
{ if k <= 0 { seq![] } else if g.rules@[k - 1].l() == x { lhs_rules(g, k - 1, x).push(k - 1) } else { lhs_rules(g, k - 1, x) } }
// the visitor's function for a rule
pub open spec fn visit_name(g: &Grammar, i: int) -> VxName {
    let x = g.rules@[i].l();
    let v = lhs_rules(g, g.rules@.len() as int, x);
    if v.len() == 1 { name_of(vx_txt1("reduce_{}"@, nt_base(g, x))) } else { visit_nth(g, x, i, v.index_of(i)) }
}
pub open spec fn visit_nth(g: &Grammar, x: Symbol, i: int, k: int) -> VxName {
    match g.rules@[i].rule.inner.tag {
        Some(t) => name_of(vx_txt2("reduce_{}_{}"@, nt_base(g, x), t@)),
        None => name_of(vx_txt2("reduce_{}_{}"@, nt_base(g, x), vx_dec((k + 1) as nat))),
    }
}
// ---- the moves of a cell -----------------------------------------------------------------------------------
pub ghost enum Act { Shift, Reduce(int), Bad }
pub ghost enum Mv { To(usize), Accept, Stuck }
pub open spec fn act_of<'g, 'r>(g: &Grammar, e: TE<'g, 'r>) -> Act { match e { TableEntry::Shift { .. } => Act::Shift, TableEntry::Reduce { rule } => Act::Reduce(rule_ix(g, *rule)), _ => Act::Bad } }
pub open spec fn e_mv(e: TE) -> Mv { match e { TableEntry::Shift { target } => Mv::To(target), TableEntry::Accept => Mv::Accept, _ => Mv::Stuck } }
// every shift and reduction of a cell, in the cell's order
pub open spec fn cell_acts<'g, 'r>(g: &Grammar, s: Seq<TE<'g, 'r>>) -> Seq<Act>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else if act_of(g, s.last()) is Bad { cell_acts(g, s.drop_last()) } else { cell_acts(g, s.drop_last()).push(act_of(g, s.last())) } }
pub open spec fn acts(t: TabG, q: usize, k: TokenType) -> Seq<Act> { match sym_of(t.g, k) { Some(x) => cell_acts(t.g, cell(t.c, q as int, x)), None => seq![] } }
pub open spec fn mv_of(s: Seq<TE>) -> Mv
    decreases s.len(),
{ if s.len() == 0 { Mv::Stuck } else { match mv_of(s.drop_last()) { Mv::Stuck => e_mv(s.last()), w => w } } }
pub open spec fn mv(t: TabG, q: usize, x: Symbol) -> Mv { mv_of(cell(t.c, q as int, x)) }
pub open spec fn tab_wf(t: TabG) -> bool {
    &&& t.g.wf() && names_ok(t.g) && 0 <= t.en < t.n <= usize::MAX && t.g.rules@.len() <= usize::MAX
    &&& t.g.rules@.no_duplicates()
    &&& forall|i: int, x: Symbol, k: int| 0 <= i < t.n && 0 <= k < cell(t.c, i, x).len() ==> entry_sane(t.g, t.n, #[trigger] cell(t.c, i, x)[k])
}
pub proof fn lemma_rule_ix(g: &Grammar, i: int)
    requires g.rules@.no_duplicates(), 0 <= i < g.rules@.len(),
    ensures rule_ix(g, g.rules@[i]) == i,
{ }
// ---- what is interpolated says the same ----------------------------------------------------------------------
pub open spec fn el_is(e: ActE, w: Act) -> bool {
    match w {
        Act::Shift => e is E_Action_Shift,
        Act::Reduce(i) => e matches ActE::E_Action_Reduce_rule_ReducedRule_rule_name { rule_name } && rule_name == rn(i as usize),
        Act::Bad => false,
    }
}
pub open spec fn els_are(l: Seq<ActE>, w: Seq<Act>) -> bool { l.len() == w.len() && forall|i: int| 0 <= i < w.len() ==> el_is(#[trigger] l[i], w[i]) }
pub open spec fn els_of(s: Seq<&ActE>) -> Seq<ActE> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn acts_are(a: Option<ActArm>, w: Seq<Act>) -> bool {
    if w.len() == 0 { a matches Some(b) && b is A_state_X } else {
        a matches Some(ActArm::A_condition_to_Ok_vx_list_actions_for_entry { condition, actions_for_entry }) && els_are(actions_for_entry@, w)
    }
}
pub open spec fn ss_of(g: &Grammar, x: Symbol) -> StackSymbol {
    if x is NonTerminal { StackSymbol::NonTerminal { non_terminal: nt_of(g, x) } } else { StackSymbol::Terminal { token: tk(g, x) } }
}
pub open spec fn mv_is(a: Option<GotoArm>, w: Mv) -> bool {
    match w {
        Mv::To(q) => a matches Some(GotoArm::A_condition_to_Some_Goto_State { condition, target }) && target == q,
        Mv::Accept => a matches Some(b) && b is A_condition_to_Some_Goto_Accept,
        Mv::Stuck => a is None,
    }
}
pub open spec fn acts_ok(l: Seq<ActArm>, t: TabG) -> bool { forall|q: usize, k: TokenType| q < t.n ==> acts_are(#[trigger] vx_hit(l, (q, k)), acts(t, q, k)) }
pub open spec fn gotos_ok(l: Seq<GotoArm>, t: TabG) -> bool { forall|q: usize, x: Symbol| #![trigger mv(t, q, x)] q < t.n && a_symbol(t.g, x) ==> mv_is(vx_hit(l, (q, ss_of(t.g, x))), mv(t, q, x)) }
pub open spec fn red_is(g: &Grammar, i: int, a: Option<RedArm>) -> bool {
    a matches Some(RedArm::A_ReducedRule_rule_name { rule_name, symbols_to_reduce, non_terminal }) && symbols_to_reduce == plain(g.rules@[i].rhs@).len() && non_terminal == name_of(nt_name(g, g.rules@[i].l()))
}
pub open spec fn visit_is(g: &Grammar, i: int, a: Option<VisitArm>) -> bool {
    a matches Some(VisitArm::A_ReducedRule_rule_name { rule_name, function }) && function == visit_name(g, i)
}
pub open spec fn reds_ok(l: Seq<RedArm>, g: &Grammar) -> bool { forall|i: usize| i < g.rules@.len() ==> red_is(g, i as int, #[trigger] vx_hit(l, rred(i))) }
pub open spec fn visits_ok(l: Seq<VisitArm>, g: &Grammar) -> bool { forall|i: usize| i < g.rules@.len() ==> visit_is(g, i as int, #[trigger] vx_hit(l, rred(i))) }
pub open spec fn prog_ok(p: ParseProg, t: TabG) -> bool {
    p.entry == t.en && acts_ok(p.actions@, t) && gotos_ok(p.gotos@, t) && reds_ok(p.rule_reductions@, t.g) && visits_ok(p.rule_visits@, t.g)
}
// ---- the generated parser's questions to the table -----------------------------------------------------------
pub ghost enum VxEv<T> { Shift(TokenType, T), Call(VxName) }
pub trait Visitor<T> {
    spec fn log(&self) -> Seq<VxEv<T>>;
    fn shift(&mut self, token: TokenType, data: T)
        ensures final(self).log() == old(self).log().push(VxEv::Shift(token, data));
    fn vx_call(&mut self, f: VxName)
        ensures final(self).log() == old(self).log().push(VxEv::Call(f));
}
//@type rparser StackSymbol #[derive(Clone, Copy)]
//@type rparser Action
//@type rparser Goto
//@type rparser ParserError
//@type rparser Parser #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(E)]
// a list that is part of the program
#[verifier::external_body]
pub fn vx_static(v: Vec<Action>) -> (r: &'static [Action])
    ensures r@ == v@,
{ unimplemented!() }
pub open spec fn does(a: Action, w: Act) -> bool {
    match w {
        Act::Shift => a is Shift,
        Act::Reduce(i) => a matches Action::Reduce { rule } && rule == rred(i as usize),
        Act::Bad => false,
    }
}
//@fn rparser Parser::next_actions
//@spec
    requires prog_ok(*vx_p, vx_g), state < vx_g.n,
    ensures
        acts(vx_g, state, next_token).len() > 0 ==> (r matches Ok(l) && l@.len() == acts(vx_g, state, next_token).len() && forall|i: int| 0 <= i < l@.len() ==> does(#[trigger] l@[i], acts(vx_g, state, next_token)[i])),
        acts(vx_g, state, next_token).len() == 0 ==> (r matches Err(ParserError::UnexpectedToken { got, got_data, expected }) && got == next_token && got_data == next_data),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), vx_lst@.len() == it0.pos(), els_are(els_of(it0.seq()), acts(vx_g, state, next_token)),
            forall|i: int| 0 <= i < vx_lst@.len() ==> does(#[trigger] vx_lst@[i], acts(vx_g, state, next_token)[i]),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    proof { assert(el_is(els_of(it0.seq())[it0.pos() - 1], acts(vx_g, state, next_token)[it0.pos() - 1])); }
//@loop 1
        invariant it1.pos() <= it1.seq().len(),
        decreases it1.seq().len() - it1.pos(),
//@end
//@fn rparser Parser::next_goto
//@spec
    requires prog_ok(*vx_p, vx_g), *state < vx_g.n, exists|x: Symbol| #[trigger] a_symbol(vx_g.g, x) && *symbol == ss_of(vx_g.g, x),
    ensures
        forall|x: Symbol| #[trigger] a_symbol(vx_g.g, x) && *symbol == ss_of(vx_g.g, x) ==> match mv(vx_g, *state, x) {
            Mv::To(q) => r matches Some(Goto::State { state_id }) && state_id == q,
            Mv::Accept => r matches Some(g) && g is Accept,
            Mv::Stuck => r is None,
        },
//@end
//@fn rparser Parser::get_rule_reduction
//@spec
    requires prog_ok(*vx_p, vx_g), exists|i: usize| i < vx_g.g.rules@.len() && *rule == #[trigger] rred(i),
    ensures forall|i: usize| i < vx_g.g.rules@.len() && *rule == #[trigger] rred(i) ==> r.0 == plain(vx_g.g.rules@[i as int].rhs@).len() && r.1 == (StackSymbol::NonTerminal { non_terminal: nt_of(vx_g.g, vx_g.g.rules@[i as int].l()) }),
//@end
//@fn rparser Parser::do_visit
//@spec
    requires prog_ok(*vx_p, vx_g), exists|i: usize| i < vx_g.g.rules@.len() && *rule == #[trigger] rred(i),
    ensures
        forall|i: usize| i < vx_g.g.rules@.len() && *rule == #[trigger] rred(i) ==> final(self).visitor.log() == old(self).visitor.log().push(VxEv::Call(visit_name(vx_g.g, i as int))),
//@end
