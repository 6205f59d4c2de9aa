// ---- what the generated parser computes --------------------------------------------------------------------
pub ghost struct TabG<'g, 'r> { pub c: Cells<'g, 'r>, pub n: int, pub en: usize, pub g: &'g Grammar<'g> }
// rules by their number
pub open spec fn rule_ix(g: &Grammar, r: Rule) -> int { choose|i: int| 0 <= i < g.rules@.len() && #[trigger] g.rules@[i] == r }
pub open spec fn plain(s: Seq<Symbol>) -> Seq<Symbol>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else if s.last() == Symbol::Epsilon { plain(s.drop_last()) } else { plain(s.drop_last()).push(s.last()) } }
// the terminal a token stands for
pub open spec fn tk(g: &Grammar, x: Symbol) -> TokenType { if x is End { TokenType::EndOfFile } else { tok_of(g.tokens@[x]@) } }
pub open spec fn a_token(g: &Grammar, x: Symbol) -> bool { g.ts().contains(x) || x == Symbol::End }
pub open spec fn sym_of(g: &Grammar, t: TokenType) -> Option<Symbol> {
    if exists|x: Symbol| #[trigger] a_token(g, x) && tk(g, x) == t { Some(choose|x: Symbol| #[trigger] a_token(g, x) && tk(g, x) == t) } else { None }
}
// different terminals have different variants, and so have nonterminals (or else the emitted file does not compile)
pub open spec fn names_ok(g: &Grammar) -> bool {
    &&& forall|x: Symbol, y: Symbol| #[trigger] g.ts().contains(x) && #[trigger] g.ts().contains(y) && tk(g, x) == tk(g, y) ==> x == y
    &&& forall|x: Symbol, y: Symbol| #[trigger] g.nts().contains(x) && #[trigger] g.nts().contains(y) && nt_of(g, x) == nt_of(g, y) ==> x == y
}
pub proof fn lemma_sym_of(g: &Grammar, x: Symbol)
    requires names_ok(g), a_token(g, x), g.wf(),
    ensures sym_of(g, tk(g, x)) == Some(x),
{
    broadcast use lemma_tok_of;
    assert forall|y: Symbol| #[trigger] a_token(g, y) && tk(g, y) == tk(g, x) implies y == x by {
        if g.ts().contains(x) { let j = choose|j: int| 0 <= j < g.ts().len() && g.ts()[j] == x; assert(g.ts()[j] is Terminal); }
        if g.ts().contains(y) { let j = choose|j: int| 0 <= j < g.ts().len() && g.ts()[j] == y; assert(g.ts()[j] is Terminal); }
    }
}
pub open spec fn nt_name(g: &Grammar, x: Symbol) -> Seq<char> {
    if g.productions@.contains_key(x) { vx_txt1("Nt{}"@, camel(g.productions@[x]@)) } else { vx_txt1("NtAnon{}"@, vx_dec(x->NonTerminal_0 as nat)) }
}
pub open spec fn nt_base(g: &Grammar, x: Symbol) -> Seq<char> {
    if g.productions@.contains_key(x) { g.productions@[x]@ } else { vx_txt1("anon{}"@, vx_dec(x->NonTerminal_0 as nat)) }
}
pub open spec fn nt_of(g: &Grammar, x: Symbol) -> NonTerminalType { NonTerminalType::of(name_of(nt_name(g, x))) }
pub open spec fn rn(i: usize) -> VxName { name_of(vx_txt1("Rule{}"@, vx_dec(i as nat))) }
pub open spec fn rred(i: usize) -> ReducedRule { ReducedRule::of(rn(i)) }
pub broadcast proof fn lemma_rred(i: usize, j: usize)
    ensures #[trigger] rred(i) == #[trigger] rred(j) ==> i == j,
{
    broadcast use axiom_name_text;
    if rred(i) == rred(j) {
        let l = "Rule{}"@;
        reveal_strlit("Rule{}");
        assert(l.skip(1).skip(1).skip(1).skip(1)[0] == '{');
        reveal_with_fuel(vx_hole, 6);
        assert(rn(i).text() == vx_txt1(l, vx_dec(i as nat)));
        assert(rn(j).text() == vx_txt1(l, vx_dec(j as nat)));
        lemma_txt1(l, vx_dec(i as nat), vx_dec(j as nat));
        lemma_dec(i as nat, j as nat);
    }
}
#[derive(Clone, Copy)]
pub enum NonTerminalType { Nt(VxName) }
impl NonTerminalType {
    pub open spec fn of(n: VxName) -> NonTerminalType { NonTerminalType::Nt(n) }
    pub fn vx_of(n: VxName) -> (r: NonTerminalType)
        ensures r == NonTerminalType::of(n),
    { NonTerminalType::Nt(n) }
}
impl VxSame for NonTerminalType {
    #[verifier::external_body]
    fn vx_same(&self, o: &NonTerminalType) -> (r: bool) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub enum ReducedRule { Rule(VxName) }
impl ReducedRule {
    pub open spec fn of(n: VxName) -> ReducedRule { ReducedRule::Rule(n) }
    pub fn vx_of(n: VxName) -> (r: ReducedRule)
        ensures r == ReducedRule::of(n),
    { ReducedRule::Rule(n) }
}
impl VxSame for ReducedRule {
    #[verifier::external_body]
    fn vx_same(&self, o: &ReducedRule) -> (r: bool) { unimplemented!() }
}
// the numbers of the rules of a nonterminal, in order
pub open spec fn lhs_rules(g: &Grammar, k: int, x: Symbol) -> Seq<int>
    decreases k,
{ if k <= 0 { seq![] } else if g.rules@[k - 1].l() == x { lhs_rules(g, k - 1, x).push(k - 1) } else { lhs_rules(g, k - 1, x) } }
// the visitor's function for a rule
pub open spec fn visit_name(g: &Grammar, i: int) -> VxName {
    let x = g.rules@[i].l();
    let v = lhs_rules(g, g.rules@.len() as int, x);
    if v.len() == 1 { name_of(vx_txt1("reduce_{}"@, nt_base(g, x))) } else { visit_nth(g, x, i, v.index_of(i)) }
}
pub open spec fn visit_nth(g: &Grammar, x: Symbol, i: int, k: int) -> VxName {
    match g.rules@[i].rule.inner.tag {
        Some(t) => name_of(vx_txt2("reduce_{}_{}"@, nt_base(g, x), t@)),
        None => name_of(vx_txt2("reduce_{}_{}"@, nt_base(g, x), vx_dec((k + 1) as nat))),
    }
}
pub ghost enum Act { Shift, Reduce(int), Bad }
pub ghost enum Mv { To(usize), Accept, Stuck }
pub open spec fn act_of<'g, 'r>(g: &Grammar, e: TE<'g, 'r>) -> Act { match e { TableEntry::Shift { .. } => Act::Shift, TableEntry::Reduce { rule } => Act::Reduce(rule_ix(g, *rule)), _ => Act::Bad } }
pub open spec fn cell_act<'g, 'r>(g: &Grammar, s: Seq<TE<'g, 'r>>) -> Act { if s.len() == 0 { Act::Bad } else { act_of(g, s[0]) } }
pub open spec fn act(t: TabG, q: usize, k: TokenType) -> Act { match sym_of(t.g, k) { Some(x) => cell_act(t.g, cell(t.c, q as int, x)), None => Act::Bad } }
pub open spec fn mv(t: TabG, q: usize, x: Symbol) -> Mv {
    let s = cell(t.c, q as int, x);
    if s.len() == 0 { Mv::Stuck } else { match s[0] { TableEntry::Shift { target } => Mv::To(target), TableEntry::Accept => Mv::Accept, _ => Mv::Stuck } }
}
// the parser's configuration; the log names tokens by their place in the input and rules by their number
pub ghost enum LEv { Shift(nat), Reduce(int) }
pub ghost struct Cfg { pub st: Seq<usize>, pub sy: Seq<Symbol>, pub pos: nat, pub log: Seq<LEv> }
pub ghost enum Out { Next(Cfg), Done(Cfg), Bad, Stuck }
pub type Toks = spec_fn(nat) -> TokenType;
pub open spec fn land(t: TabG, c: Cfg) -> Out {
    match mv(t, c.st.last(), c.sy.last()) { Mv::To(q) => Out::Next(Cfg { st: c.st.push(q), ..c }), Mv::Accept => Out::Done(c), Mv::Stuck => Out::Stuck }
}
pub open spec fn shifted(t: TabG, f: Toks, c: Cfg) -> Cfg { Cfg { st: c.st, sy: c.sy.push(sym_of(t.g, f(c.pos))->0), pos: c.pos + 1, log: c.log.push(LEv::Shift(c.pos)) } }
pub open spec fn reduced(t: TabG, c: Cfg, i: int) -> Cfg {
    let m = plain(t.g.rules@[i].rhs@).len();
    Cfg { st: c.st.take(c.st.len() - m), sy: c.sy.take(c.sy.len() - m).push(t.g.rules@[i].l()), pos: c.pos, log: c.log.push(LEv::Reduce(i)) }
}
pub open spec fn lr_step(t: TabG, f: Toks, c: Cfg) -> Out {
    match act(t, c.st.last(), f(c.pos)) {
        Act::Bad => Out::Bad,
        Act::Shift => land(t, shifted(t, f, c)),
        Act::Reduce(i) => if plain(t.g.rules@[i].rhs@).len() > c.sy.len() { Out::Stuck } else { land(t, reduced(t, c, i)) },
    }
}
pub open spec fn cfg0(t: TabG) -> Cfg { Cfg { st: seq![t.en], sy: seq![], pos: 0, log: seq![] } }
pub open spec fn run(t: TabG, f: Toks, k: nat) -> Option<Cfg>
    decreases k,
{ if k == 0 { Some(cfg0(t)) } else { match run(t, f, (k - 1) as nat) { Some(c) => match lr_step(t, f, c) { Out::Next(d) => Some(d), _ => None }, None => None } } }
// what the stack discipline needs of a configuration: a reduction finds its right-hand side on top, the goto is
// there, the end of the input is not shifted, and accepting leaves the entry symbol alone
pub open spec fn fits(t: TabG, f: Toks, c: Cfg) -> bool {
    &&& act(t, c.st.last(), f(c.pos)) matches Act::Reduce(i) ==> 0 <= i < t.g.rules@.len() && ({
            let p = plain(t.g.rules@[i].rhs@);
            p.len() <= c.sy.len() && c.sy.skip(c.sy.len() - p.len()) == p
        })
    &&& act(t, c.st.last(), f(c.pos)) is Shift ==> t.g.ts().contains(sym_of(t.g, f(c.pos))->0)
    &&& !(lr_step(t, f, c) is Stuck)
    &&& lr_step(t, f, c) matches Out::Done(d) ==> d.st.len() == 1 && d.sy == seq![t.g.entry_symbol]
}
pub open spec fn lr_sound(t: TabG) -> bool { forall|f: Toks, k: nat| match #[trigger] run(t, f, k) { Some(c) => fits(t, f, c), None => true } }
// what the tables must look like
pub open spec fn tab_wf(t: TabG) -> bool {
    &&& t.g.wf() && names_ok(t.g) && 0 <= t.en < t.n <= usize::MAX && t.g.rules@.len() <= usize::MAX
    &&& t.g.rules@.no_duplicates()
    &&& forall|i: int, x: Symbol, k: int| 0 <= i < t.n && 0 <= k < cell(t.c, i, x).len() ==> entry_sane(t.g, t.n, #[trigger] cell(t.c, i, x)[k])
}
pub proof fn lemma_rule_ix(g: &Grammar, i: int)
    requires g.rules@.no_duplicates(), 0 <= i < g.rules@.len(),
    ensures rule_ix(g, g.rules@[i]) == i,
{ }
// the stack, read from the log alone: None if a reduction does not find its right-hand side
pub open spec fn replay(g: &Grammar, f: Toks, l: Seq<LEv>) -> Option<Seq<Symbol>>
    decreases l.len(),
{
    if l.len() == 0 { Some(seq![]) } else {
        match replay(g, f, l.drop_last()) {
            None => None,
            Some(s) => match l.last() {
                LEv::Shift(k) => Some(s.push(sym_of(g, f(k))->0)),
                LEv::Reduce(i) => {
                    let p = plain(g.rules@[i].rhs@);
                    if p.len() <= s.len() && s.skip(s.len() - p.len()) == p { Some(s.take(s.len() - p.len()).push(g.rules@[i].l())) } else { None }
                },
            },
        }
    }
}
// the tokens shifted
pub open spec fn shifts(l: Seq<LEv>) -> Seq<nat>
    decreases l.len(),
{ if l.len() == 0 { seq![] } else { match l.last() { LEv::Shift(k) => shifts(l.drop_last()).push(k), _ => shifts(l.drop_last()) } } }
pub open spec fn faithful(t: TabG, f: Toks, c: Cfg) -> bool {
    replay(t.g, f, c.log) == Some(c.sy) && shifts(c.log) == Seq::new(c.pos, |i: int| i as nat)
}
pub proof fn lemma_faithful(t: TabG, f: Toks, c: Cfg)
    requires faithful(t, f, c), fits(t, f, c),
    ensures
        lr_step(t, f, c) matches Out::Next(d) ==> faithful(t, f, d),
        lr_step(t, f, c) matches Out::Done(d) ==> faithful(t, f, d),
{
    match act(t, c.st.last(), f(c.pos)) {
        Act::Bad => { },
        Act::Shift => {
            let d = shifted(t, f, c);
            assert(d.log.drop_last() =~= c.log);
            assert(shifts(d.log) =~= Seq::new(d.pos, |i: int| i as nat));
        },
        Act::Reduce(i) => {
            let d = reduced(t, c, i);
            assert(d.log.drop_last() =~= c.log);
        },
    }
}
// C16: what has been reported so far builds what is on the stack, and shifts every token read once and in order
pub proof fn thm_faithful(t: TabG, f: Toks, k: nat)
    requires lr_sound(t), run(t, f, k) is Some,
    ensures faithful(t, f, run(t, f, k)->0),
    decreases k,
{
    if k == 0 {
        assert(shifts(cfg0(t).log) =~= Seq::new(0, |i: int| i as nat));
    } else {
        thm_faithful(t, f, (k - 1) as nat);
        lemma_faithful(t, f, run(t, f, (k - 1) as nat)->0);
    }
}
// C16: success means that what was reported reduces the tokens consumed to the entry symbol
pub proof fn thm_accept(t: TabG, f: Toks, k: nat)
    requires lr_sound(t), run(t, f, k) is Some, lr_step(t, f, run(t, f, k)->0) is Done,
    ensures ({
        let d = lr_step(t, f, run(t, f, k)->0)->Done_0;
        replay(t.g, f, d.log) == Some(seq![t.g.entry_symbol]) && shifts(d.log) == Seq::new(d.pos, |i: int| i as nat)
    }),
{
    thm_faithful(t, f, k);
    lemma_faithful(t, f, run(t, f, k)->0);
}

// ---- what is interpolated says the same ----------------------------------------------------------------------
pub open spec fn act_is(a: Option<ActArm>, w: Act) -> bool {
    match w {
        Act::Shift => a matches Some(b) && b is A_condition_to_Ok_Action_Shift,
        Act::Reduce(i) => a matches Some(ActArm::A_condition_to_Ok_Action_Reduce { condition, rule_name }) && rule_name == rn(i as usize),
        Act::Bad => a matches Some(b) && b is A_state_X,
    }
}
pub open spec fn ss_of(g: &Grammar, x: Symbol) -> StackSymbol {
    if x is NonTerminal { StackSymbol::NonTerminal { non_terminal: nt_of(g, x) } } else { StackSymbol::Terminal { token: tk(g, x) } }
}
pub open spec fn mv_is(a: Option<GotoArm>, w: Mv) -> bool {
    match w {
        Mv::To(q) => a matches Some(GotoArm::A_condition_to_Goto_State_state_id { condition, target }) && target == q,
        Mv::Accept => a matches Some(b) && b is A_condition_to_Goto_Accept,
        Mv::Stuck => a is None,
    }
}
pub open spec fn acts_ok(l: Seq<ActArm>, t: TabG) -> bool { forall|q: usize, k: TokenType| q < t.n ==> act_is(#[trigger] vx_hit(l, (q, k)), act(t, q, k)) }
pub open spec fn gotos_ok(l: Seq<GotoArm>, t: TabG) -> bool { forall|q: usize, x: Symbol| #![trigger mv(t, q, x)] q < t.n && a_symbol(t.g, x) ==> mv_is(vx_hit(l, (q, ss_of(t.g, x))), mv(t, q, x)) }
pub open spec fn red_is(g: &Grammar, i: int, a: Option<RedArm>) -> bool {
    a matches Some(RedArm::A_ReducedRule_rule_name { rule_name, symbols_to_reduce, non_terminal }) && symbols_to_reduce == plain(g.rules@[i].rhs@).len() && non_terminal == name_of(nt_name(g, g.rules@[i].l()))
}
pub open spec fn visit_is(g: &Grammar, i: int, a: Option<VisitArm>) -> bool {
    a matches Some(VisitArm::A_ReducedRule_rule_name { rule_name, function }) && function == visit_name(g, i)
}
pub open spec fn reds_ok(l: Seq<RedArm>, g: &Grammar) -> bool { forall|i: usize| i < g.rules@.len() ==> red_is(g, i as int, #[trigger] vx_hit(l, rred(i))) }
pub open spec fn visits_ok(l: Seq<VisitArm>, g: &Grammar) -> bool { forall|i: usize| i < g.rules@.len() ==> visit_is(g, i as int, #[trigger] vx_hit(l, rred(i))) }
pub open spec fn prog_ok(p: ParseProg, t: TabG) -> bool {
    p.entry == t.en && acts_ok(p.actions@, t) && gotos_ok(p.gotos@, t) && reds_ok(p.rule_reductions@, t.g) && visits_ok(p.rule_visits@, t.g)
}

// ---- the generated parser ------------------------------------------------------------------------------------
pub ghost enum VxEv<T> { Shift(TokenType, T), Call(VxName) }
pub trait Visitor<T> {
    spec fn log(&self) -> Seq<VxEv<T>>;
    fn shift(&mut self, token: TokenType, data: T)
        ensures final(self).log() == old(self).log().push(VxEv::Shift(token, data));
    fn vx_call(&mut self, f: VxName)
        ensures final(self).log() == old(self).log().push(VxEv::Call(f));
}
pub open spec fn ev_of<T>(g: &Grammar, src: spec_fn(nat) -> (TokenType, T), e: LEv) -> VxEv<T> {
    match e { LEv::Shift(k) => VxEv::Shift(src(k).0, src(k).1), LEv::Reduce(i) => VxEv::Call(visit_name(g, i)) }
}
pub open spec fn evs<T>(g: &Grammar, src: spec_fn(nat) -> (TokenType, T), l: Seq<LEv>) -> Seq<VxEv<T>> { Seq::new(l.len(), |i: int| ev_of(g, src, l[i])) }
// states and symbols alternate
pub open spec fn stack_is(g: &Grammar, s: Seq<StackSymbol>, st: Seq<usize>, sy: Seq<Symbol>) -> bool {
    &&& s.len() == st.len() + sy.len() && (st.len() == sy.len() || st.len() == sy.len() + 1)
    &&& forall|i: int| 0 <= i < st.len() ==> #[trigger] s[2 * i] == (StackSymbol::State { state_id: st[i] })
    &&& forall|i: int| 0 <= i < sy.len() ==> #[trigger] s[2 * i + 1] == ss_of(g, sy[i])
}
//@type rparser StackSymbol #[derive(Clone, Copy)]
//@type rparser Action
//@type rparser Goto
//@type rparser ParserError
//@type rparser Parser #[verifier::reject_recursive_types(T)]
impl<T, F: VxSource<Item = (TokenType, T)>, V: Visitor<T>> Parser<T, F, V> {
    // the tokens to come, the first of which is the next to be read
    pub open spec fn src(&self) -> spec_fn(nat) -> (TokenType, T) { let b = self.token_function.taken(); |k: nat| self.token_function.item(b + k) }
}
pub open spec fn toks<T>(src: spec_fn(nat) -> (TokenType, T)) -> Toks { |k: nat| src(k).0 }
// the run behind a call: how it ended, what the visitor was told (after l0), what was read
pub open spec fn ended<T>(t: TabG, src: spec_fn(nat) -> (TokenType, T), l0: Seq<VxEv<T>>, k: nat, r: Result<(), ParserError>, log: Seq<VxEv<T>>, taken: int) -> bool {
    match r {
        Ok(_) => accepted(t, src, l0, k, log, taken),
        Err(ParserError::UnexpectedToken { got, expected }) => run(t, toks(src), k) matches Some(c) && lr_step(t, toks(src), c) is Bad && got == src(c.pos).0 && log == l0 + evs(t.g, src, c.log) && taken == c.pos + 1,
    }
}
pub open spec fn accepted<T>(t: TabG, src: spec_fn(nat) -> (TokenType, T), l0: Seq<VxEv<T>>, k: nat, log: Seq<VxEv<T>>, taken: int) -> bool {
    run(t, toks(src), k) matches Some(c) && lr_step(t, toks(src), c) matches Out::Done(d) && log == l0 + evs(t.g, src, d.log) && taken == d.pos + 1
}
// between two steps
pub open spec fn at<T>(t: TabG, src: spec_fn(nat) -> (TokenType, T), l0: Seq<VxEv<T>>, c: Cfg, s: Seq<StackSymbol>, log: Seq<VxEv<T>>, taken: int) -> bool {
    c.st.len() == c.sy.len() + 1 && stack_is(t.g, s, c.st, c.sy) && in_range(t, c) && log == l0 + evs(t.g, src, c.log) && taken == c.pos + 1
}
// within a step, before the goto
pub open spec fn mid<T>(t: TabG, src: spec_fn(nat) -> (TokenType, T), l0: Seq<VxEv<T>>, c: Cfg, s: Seq<StackSymbol>, log: Seq<VxEv<T>>, taken: int) -> bool {
    c.st.len() == c.sy.len() && c.st.len() > 0 && stack_is(t.g, s, c.st, c.sy) && in_range(t, c) && log == l0 + evs(t.g, src, c.log) && taken == c.pos + 1
}
pub proof fn lemma_evs<T>(g: &Grammar, src: spec_fn(nat) -> (TokenType, T), l0: Seq<VxEv<T>>, l: Seq<LEv>, e: LEv)
    ensures l0 + evs(g, src, l.push(e)) == (l0 + evs(g, src, l)).push(ev_of(g, src, e)),
{ assert(l0 + evs(g, src, l.push(e)) =~= (l0 + evs(g, src, l)).push(ev_of(g, src, e))); }
pub open spec fn in_range(t: TabG, c: Cfg) -> bool {
    &&& forall|i: int| 0 <= i < c.st.len() ==> #[trigger] c.st[i] < t.n
    &&& forall|i: int| 0 <= i < c.sy.len() ==> #[trigger] a_symbol(t.g, c.sy[i])
}
//@fn rparser Parser::new
//@spec
    ensures r.token_function == token_function, r.visitor == visitor,
//@end
//@fn rparser Parser::next_action
//@spec
    requires prog_ok(*vx_p, vx_g), state < vx_g.n,
    ensures
        match act(vx_g, state, next_token) {
            Act::Shift => r matches Ok(Action::Shift),
            Act::Reduce(i) => r matches Ok(Action::Reduce { rule }) && rule == rred(i as usize),
            Act::Bad => r matches Err(ParserError::UnexpectedToken { got, expected }) && got == next_token,
        },
//@loop 0
        invariant it0.pos() <= it0.seq().len(),
        decreases it0.seq().len() - it0.pos(),
//@end
//@fn rparser Parser::next_goto
//@spec
    requires prog_ok(*vx_p, vx_g), state < vx_g.n, exists|x: Symbol| #[trigger] a_symbol(vx_g.g, x) && symbol == ss_of(vx_g.g, x) && !(mv(vx_g, state, x) is Stuck),
    ensures
        forall|x: Symbol| #![trigger mv(vx_g, state, x)] a_symbol(vx_g.g, x) && symbol == ss_of(vx_g.g, x) ==> match mv(vx_g, state, x) { Mv::To(q) => r matches Goto::State { state_id } && state_id == q, Mv::Accept => r is Accept, Mv::Stuck => true },
//@end
//@fn rparser Parser::reduce_stack_and_visit
//@spec
    requires
        prog_ok(*vx_p, vx_g), vx_g.g.wf(), vx_g.g.rules@.len() <= usize::MAX,
        exists|i: usize| i < vx_g.g.rules@.len() && rule == #[trigger] rred(i) && 2 * plain(vx_g.g.rules@[i as int].rhs@).len() <= old(stack)@.len(),
    ensures
        final(self).token_function == old(self).token_function,
        forall|i: usize| i < vx_g.g.rules@.len() && rule == #[trigger] rred(i) ==> {
            &&& final(stack)@ == old(stack)@.take(old(stack)@.len() - 2 * plain(vx_g.g.rules@[i as int].rhs@).len()).push(ss_of(vx_g.g, vx_g.g.rules@[i as int].l()))
            &&& final(self).visitor.log() == old(self).visitor.log().push(VxEv::Call(visit_name(vx_g.g, i as int)))
        },
//@at start
    broadcast use lemma_rred;
    let ghost ri = choose|i: usize| i < vx_g.g.rules@.len() && rule == #[trigger] rred(i) && 2 * plain(vx_g.g.rules@[i as int].rhs@).len() <= old(stack)@.len();
    let ghost s0 = stack@;
//@at loop 0 before
    let ghost m = plain(vx_g.g.rules@[ri as int].rhs@).len();
    assert(red_is(vx_g.g, ri as int, vx_hit(vx_p.rule_reductions@, rred(ri))));
    assert(to_pop == m);
//@loop 0
        invariant it0.pos() <= it0.seq().len(), it0.seq().len() == m, 2 * m <= s0.len(), stack@ == s0.take(s0.len() - 2 * it0.pos()),
        decreases it0.seq().len() - it0.pos(),
//@at end
    assert(visit_is(vx_g.g, ri as int, vx_hit(vx_p.rule_visits@, rred(ri))));
//@end
//@fn rparser Parser::parse
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub VecDeque ==> VxDeque
//@spec
    requires prog_ok(*vx_p, vx_g), tab_wf(vx_g), lr_sound(vx_g),
    ensures
        exists|k: nat| #[trigger] run(vx_g, toks(old(self).src()), k) is Some && ended(vx_g, old(self).src(), old(self).visitor.log(), k, r, final(self).visitor.log(), final(self).token_function.taken() - old(self).token_function.taken()),
//@at start
    broadcast use lemma_rred;
    let ghost t = vx_g;
    let ghost src = self.src();
    let ghost f = toks(src);
    let ghost base = self.token_function.taken() as int;
    let ghost l0 = self.visitor.log();
    let ghost mut k: nat = 0;
//@at loop 0 before
    proof {
        assert(l0 + evs(t.g, src, cfg0(t).log) =~= l0);
        assert(lookahead@ =~= seq![src(0)]);
    }
//@attr #[verifier::loop_isolation(false)]
//@loop 0
        invariant
            run(t, f, k) is Some,
            stack@.len() == 0 ==> accepted(t, src, l0, k, self.visitor.log(), self.token_function.taken() - base),
            stack@.len() > 0 ==> at(t, src, l0, run(t, f, k)->0, stack@, self.visitor.log(), self.token_function.taken() - base) && lookahead@ == seq![src((run(t, f, k)->0).pos)],
            forall|n: nat| #[trigger] self.token_function.item(n) == old(self).token_function.item(n),
//@at loop 0 start
    let ghost c = run(t, f, k)->0;
    let ghost s0 = stack@;
    proof {
        assert(fits(t, f, c));
        assert(stack@.last() == stack@[2 * (c.st.len() - 1)]);
        assert(c.st.last() < t.n);
    }
//@at call last 1 before
    let ghost d = match act(t, c.st.last(), f(c.pos)) { Act::Reduce(i) => reduced(t, c, i), _ => shifted(t, f, c) };
    proof {
        match act(t, c.st.last(), f(c.pos)) {
            Act::Reduce(i) => {
                lemma_evs(t.g, src, l0, c.log, LEv::Reduce(i));
                assert(stack@.len() == 2 * d.sy.len());
            },
            Act::Shift => {
                lemma_evs(t.g, src, l0, c.log, LEv::Shift(c.pos));
            },
            Act::Bad => { },
        }
        assert(mid(t, src, l0, d, stack@, self.visitor.log(), self.token_function.taken() - base));
        assert(stack@.last() == stack@[2 * (d.sy.len() - 1) + 1]);
        assert(stack@[stack@.len() - 2] == stack@[2 * (d.st.len() - 1)]);
        assert(a_symbol(t.g, d.sy.last()));
    }
//@at loop 0 end
    proof {
        if stack@.len() > 0 { k = k + 1; }
    }
//@end
