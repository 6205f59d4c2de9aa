// ---- tokens with their places ------------------------------------------------------------------------
pub open spec fn posn(p: (nat, nat)) -> SourcePos { SourcePos { line: p.0 as u16, col: p.1 as u16 } }
pub open spec fn place(s: Seq<char>, p: nat, e: nat) -> SourceSpan { SourceSpan { start: posn(lc(s, p)), end: posn(lc(s, e)) } }
// the next token from character p on that is no space, and where it ends
pub open spec fn tok_from(s: Seq<char>, p: nat) -> Option<(GTk, nat)>
    decreases s.len() - p,
{
    if p > s.len() { None } else {
        match lexes(s, p) {
            None => None,
            Some((k, e)) => if k is TkNewline || k is TkWhitespace { if p < e <= s.len() { tok_from(s, e) } else { None } }
                else { Some((GTk { ty: k, text: piece(s, p, e), span: place(s, p, e) }, e)) },
        }
    }
}
pub open spec fn nextt(s: Seq<char>, p: nat) -> (GTk, nat) { tok_from(s, p)->0 }
pub open spec fn tokens(s: Seq<char>, p: nat, ts: Seq<GTk>) -> bool
    decreases ts.len(),
{
    if ts.len() == 0 { tok_from(s, p) is Some && nextt(s, p).0.ty is EndOfFile } else {
        tok_from(s, p) is Some && nextt(s, p).0 == ts[0] && !(ts[0].ty is EndOfFile) && tokens(s, nextt(s, p).1, ts.skip(1))
    }
}
pub proof fn lemma_tok_from(s: Seq<char>, p: nat)
    requires tok_from(s, p) is Some,
    ensures text_ok(nextt(s, p).0), nextt(s, p).1 <= s.len(), !(nextt(s, p).0.ty is TkNewline), !(nextt(s, p).0.ty is TkWhitespace),
    decreases s.len() - p,
{
    axiom_lexes(s, p);
    match lexes(s, p) { Some((k, e)) => { if k is TkNewline || k is TkWhitespace { lemma_tok_from(s, e); } } None => { } }
}
pub proof fn lemma_tokens_ok(s: Seq<char>, p: nat, ts: Seq<GTk>)
    requires tokens(s, p, ts),
    ensures texts_ok(ts),
    decreases ts.len(),
{
    if ts.len() > 0 {
        lemma_tok_from(s, p);
        lemma_tokens_ok(s, nextt(s, p).1, ts.skip(1));
        assert forall|i: int| 0 <= i < ts.len() implies text_ok(#[trigger] ts[i]) by { if i > 0 { assert(ts.skip(1)[i - 1] == ts[i]); } }
    }
}
// a stretch without line ends moves the column
pub proof fn lemma_lc_run(s: Seq<char>, p: nat, e: nat)
    requires p <= e <= s.len(), !has_nl(piece(s, p, e)),
    ensures lc(s, e).0 == lc(s, p).0, lc(s, e).1 == lc(s, p).1 + (e - p),
    decreases e,
{
    if e > p {
        assert forall|i: int| 0 <= i < e - 1 - p implies #[trigger] piece(s, p, (e - 1) as nat)[i] != '\n' by { assert(piece(s, p, e)[i] == piece(s, p, (e - 1) as nat)[i]); }
        lemma_lc_run(s, p, (e - 1) as nat);
        assert(piece(s, p, e)[e - 1 - p] == s[e - 1]);
    }
}
pub proof fn lemma_lc_nl(s: Seq<char>, p: nat, e: nat)
    requires p <= e <= s.len(), piece(s, p, e) == seq!['\n'],
    ensures e == p + 1, lc(s, e).0 == lc(s, p).0 + 1, lc(s, e).1 == 1,
{ assert(piece(s, p, e).len() == 1); assert(piece(s, p, e)[0] == s[p as int]); }

// ---- the closure that reads the next token, its captured variables as fields --------------------------
pub struct VxTokens<'src> { pub lexer: Lexer<'src>, pub line: u16, pub col: u16 }
impl<'src> VxTokens<'src> {
    pub open spec fn inv(&self) -> bool {
        self.lexer.src().len() < 65535 && self.lexer.at() <= self.lexer.src().len() && (self.line as nat, self.col as nat) == lc(self.lexer.src(), self.lexer.at())
    }
}
//@lift lapex-input-gen/src/lib.rs GeneratedLapexInputParser::parse_lapex token_fun VxTokens<'src> lexer,line,col : pub fn call(&mut self) -> (TokenType, TokenData<'src>)
//@fn lapex-input-gen/src/lib.rs VxTokens::call
//@spec
    requires old(self).inv(), tok_from(old(self).lexer.src(), old(self).lexer.at()) is Some,
    ensures
        final(self).inv(), final(self).lexer.src() == old(self).lexer.src(),
        ({
            let t = tok_from(old(self).lexer.src(), old(self).lexer.at())->0;
            r.0 == t.0.ty && r.1.text@ == t.0.text && r.1.span == t.0.span && final(self).lexer.at() == t.1
        }),
//@loop 0
        invariant
            self.lexer.src() == s0, s0.len() < 65535, tok_from(s0, p0) is Some,
            self.lexer.from() <= self.lexer.at() <= s0.len(),
            lexes(s0, self.lexer.from()) == Some((next_tk, self.lexer.at())),
            (self.line as nat, self.col as nat) == lc(s0, self.lexer.from()),
            tok_from(s0, self.lexer.from()) == tok_from(s0, p0),
        ensures
            !(next_tk is TkNewline), !(next_tk is TkWhitespace),
        decreases s0.len() - self.lexer.from(),
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), acc0 == it1.pos(), it1.seq() == piece(self.lexer.src(), self.lexer.from(), self.lexer.at()), it1.seq().len() <= 65535,
        decreases it1.seq().len() - it1.pos(),
//@loop 2
        invariant
            it2.pos() <= it2.seq().len(), acc1 == it2.pos(), it2.seq() == piece(self.lexer.src(), self.lexer.from(), self.lexer.at()), it2.seq().len() <= 65535,
        decreases it2.seq().len() - it2.pos(),
//@at start
    let ghost s0 = self.lexer.src();
    let ghost p0 = self.lexer.at();
    proof { axiom_lexes(s0, p0); }
//@at loop 0 start
    let ghost q0 = self.lexer.from();
    let ghost q1 = self.lexer.at();
    proof {
        axiom_lexes(s0, q0);
        axiom_lexes(s0, q1);
        lemma_pos(s0, q0);
        lemma_pos(s0, q1);
        if next_tk is TkNewline { lemma_lc_nl(s0, q0, q1); }
        if next_tk is TkWhitespace { lemma_lc_run(s0, q0, q1); }
        if next_tk is TkNewline || next_tk is TkWhitespace { assert(tok_from(s0, q0) == tok_from(s0, q1)); assert(tok_from(s0, q1) is Some); assert(lexes(s0, q1) is Some); }
    }
//@at loop 0 after
    proof {
        let q0 = self.lexer.from();
        let q1 = self.lexer.at();
        axiom_lexes(s0, q0);
        lemma_pos(s0, q0);
        lemma_pos(s0, q1);
        lemma_lc_run(s0, q0, q1);
        assert(tok_from(s0, q0) == Some((GTk { ty: next_tk, text: piece(s0, q0, q1), span: place(s0, q0, q1) }, q1)));
    }
//@end

// ---- the parser the build generates from lapex.lapex --------------------------------------------------
// Assumed: it reads the tokens up to the end; if some derivation of the grammar has just these, it succeeds
// and has made the visitor's calls of such a derivation, children before parents, left to right.
pub open spec fn states(s: Seq<char>, p: nat, t: TRules) -> bool { wrs(t) && tokens(s, p, yrs(t)) }
#[verifier::external_body]
#[derive(Debug)]
pub struct ParserError { t: u8 }
pub struct Parser<'stack, 'src> { pub vx_tokens: VxTokens<'src>, pub vx_visitor: LapexAstVisitor<'stack, 'src> }
pub open spec fn visited(s: Seq<char>, p: nat, t: TRules, a: Seq<GE>, b: Seq<GE>) -> bool { states(s, p, t) && run(a, lrs(t)) == Some(b) }
impl<'stack, 'src> Parser<'stack, 'src> {
    pub fn new(f: VxTokens<'src>, v: LapexAstVisitor<'stack, 'src>) -> (r: Self)
        ensures r.vx_tokens == f, r.vx_visitor == v,
    { Parser { vx_tokens: f, vx_visitor: v } }
    #[verifier::external_body]
    pub fn parse(&mut self) -> (r: Result<(), ParserError>)
        requires
            old(self).vx_tokens.inv(),
            forall|t: TRules| #[trigger] states(old(self).vx_tokens.lexer.src(), old(self).vx_tokens.lexer.at(), t) ==> run(sv((*old(self).vx_visitor.stack)@), lrs(t)) is Some,
        ensures
            *final(final(self).vx_visitor.stack) == *final(old(self).vx_visitor.stack),
            (exists|t: TRules| #[trigger] states(old(self).vx_tokens.lexer.src(), old(self).vx_tokens.lexer.at(), t))
                ==> r is Ok && exists|t: TRules| #[trigger] visited(old(self).vx_tokens.lexer.src(), old(self).vx_tokens.lexer.at(), t,
                    sv((*old(self).vx_visitor.stack)@), sv((*final(self).vx_visitor.stack)@)),
    { unimplemented!() }
}

// ---- reading a whole file -----------------------------------------------------------------------------
pub open spec fn entries(m: Multiset<GRS>) -> Multiset<GRS> { m.filter(|x: GRS| x.0 is Entry) }
// some derivation states it; every one (there is only one) is readable and names one entry
pub open spec fn well_formed(s: Seq<char>) -> bool {
    &&& s.len() < 65535
    &&& exists|t: TRules| #[trigger] states(s, 0, t)
    &&& forall|t: TRules| #[trigger] states(s, 0, t) ==> rds(t) && entries(mrs(t)).len() == 1
}
pub open spec fn tviews(s: Seq<Spanned<TokenRule>>) -> Seq<GRS> { Seq::new(s.len(), |i: int| (gr_token(s[i].inner), s[i].span)) }
pub open spec fn pviews(s: Seq<Spanned<ProductionRule>>) -> Seq<GRS> { Seq::new(s.len(), |i: int| (gr_prod(s[i].inner), s[i].span)) }
pub open spec fn eviews(s: Seq<Spanned<EntryRule>>) -> Seq<GRS> { Seq::new(s.len(), |i: int| (gr_entry(s[i].inner), s[i].span)) }
pub open spec fn sum3(a: Seq<Spanned<TokenRule>>, b: Seq<Spanned<ProductionRule>>, c: Seq<Spanned<EntryRule>>) -> Multiset<GRS> {
    tviews(a).to_multiset().add(pviews(b).to_multiset()).add(eviews(c).to_multiset())
}
pub open spec fn rs_view(r: RuleSet) -> Multiset<GRS> { sum3(r.token_rules@, r.production_rules@, seq![r.entry_rule]) }
pub open spec fn reads(s: Seq<char>, t: TRules, r: RuleSet) -> bool { states(s, 0, t) && rs_view(r) == mrs(t) }
pub proof fn lemma_sum_t(a: Seq<Spanned<TokenRule>>, b: Seq<Spanned<ProductionRule>>, c: Seq<Spanned<EntryRule>>, x: Spanned<TokenRule>)
    ensures sum3(a.push(x), b, c) == sum3(a, b, c).insert((gr_token(x.inner), x.span)),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(tviews(a.push(x)) =~= tviews(a).push((gr_token(x.inner), x.span)));
    assert(sum3(a.push(x), b, c) =~= sum3(a, b, c).insert((gr_token(x.inner), x.span)));
}
pub proof fn lemma_sum_p(a: Seq<Spanned<TokenRule>>, b: Seq<Spanned<ProductionRule>>, c: Seq<Spanned<EntryRule>>, x: Spanned<ProductionRule>)
    ensures sum3(a, b.push(x), c) == sum3(a, b, c).insert((gr_prod(x.inner), x.span)),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(pviews(b.push(x)) =~= pviews(b).push((gr_prod(x.inner), x.span)));
    assert(sum3(a, b.push(x), c) =~= sum3(a, b, c).insert((gr_prod(x.inner), x.span)));
}
pub proof fn lemma_sum_e(a: Seq<Spanned<TokenRule>>, b: Seq<Spanned<ProductionRule>>, c: Seq<Spanned<EntryRule>>, x: Spanned<EntryRule>)
    ensures sum3(a, b, c.push(x)) == sum3(a, b, c).insert((gr_entry(x.inner), x.span)),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(eviews(c.push(x)) =~= eviews(c).push((gr_entry(x.inner), x.span)));
    assert(sum3(a, b, c.push(x)) =~= sum3(a, b, c).insert((gr_entry(x.inner), x.span)));
}
pub proof fn lemma_sum_entries(a: Seq<Spanned<TokenRule>>, b: Seq<Spanned<ProductionRule>>, c: Seq<Spanned<EntryRule>>)
    ensures entries(sum3(a, b, c)).len() == c.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let m = sum3(a, b, c);
    assert forall|x: GRS| entries(m).count(x) == eviews(c).to_multiset().count(x) by {
        if x.0 is Entry {
            if tviews(a).to_multiset().count(x) > 0 { assert(tviews(a).contains(x)); }
            if pviews(b).to_multiset().count(x) > 0 { assert(pviews(b).contains(x)); }
        } else {
            if eviews(c).to_multiset().count(x) > 0 { assert(eviews(c).contains(x)); }
        }
    }
    assert(entries(m) =~= eviews(c).to_multiset());
    assert(eviews(c).to_multiset().len() == eviews(c).len());
}
pub proof fn lemma_sum_none(s: Seq<Spanned<Rule>>)
    requires s.len() == 0,
    ensures sum3(Seq::empty(), Seq::empty(), Seq::empty()) == rules_view(s).to_multiset(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(rules_view(s) =~= Seq::empty());
    assert(tviews(Seq::empty()) =~= Seq::empty());
    assert(pviews(Seq::empty()) =~= Seq::empty());
    assert(eviews(Seq::empty()) =~= Seq::empty());
    let e = Seq::<GRS>::empty().to_multiset();
    assert(e =~= Multiset::empty()) by { assert(e.len() == 0); }
    assert(sum3(Seq::empty(), Seq::empty(), Seq::empty()) =~= e);
}
pub proof fn lemma_visits(s: Seq<char>)
    requires well_formed(s),
    ensures forall|t: TRules| #[trigger] states(s, 0, t) ==> run(Seq::empty(), lrs(t)) == Some(seq![GE::Rules(mrs(t))]),
{
    hide(run);
    assert forall|t: TRules| #[trigger] states(s, 0, t) implies run(Seq::empty(), lrs(t)) == Some(seq![GE::Rules(mrs(t))]) by {
        lemma_tokens_ok(s, 0, yrs(t));
        thm_visit(Seq::empty(), t);
        assert(Seq::<GE>::empty().push(GE::Rules(mrs(t))) =~= seq![GE::Rules(mrs(t))]);
    }
}
//@fn lapex-input/src/lib.rs RuleSet::new
//@spec
    ensures r.entry_rule == entry_rule, r.token_rules == token_rules, r.production_rules == production_rules,
//@end
pub struct GeneratedLapexInputParser;
//@fn lapex-input-gen/src/lib.rs GeneratedLapexInputParser::parse_lapex
//@spec
    requires well_formed(source@),
    ensures r matches Ok(x) && exists|t: TRules| #[trigger] reads(source@, t, x),
//@loop 0
        invariant
            it0.pos() <= it0.seq().len(), it0.seq() == rs,
            sum3(token_rules@, prod_rules@, entry_rules@) == rules_view(rs.take(it0.pos() as int)).to_multiset(),
        decreases it0.seq().len() - it0.pos(),
//@at start
    hide(run); hide(lrs); hide(mrs); hide(tokens); hide(wrs); hide(yrs); hide(rds); hide(sum3); hide(nf); hide(plang);
    proof {
        lemma_pos(source@, 0);
        lemma_visits(source@);
    }
    let ghost mut t0: TRules = arbitrary();
    let ghost mut rs: Seq<Spanned<Rule<'src>>> = Seq::empty();
//@at call parse 0 before
    proof { assert(sv((*parser.vx_visitor.stack)@) =~= Seq::empty()); }
//@at call parse 0 after
    proof {
        let sf = (*parser.vx_visitor.stack)@;
        assert(exists|t: TRules| #[trigger] states(source@, 0, t));
        t0 = choose|t: TRules| #[trigger] visited(source@, 0, t, Seq::empty(), sv(sf));
        assert(visited(source@, 0, t0, Seq::empty(), sv(sf)));
        assert(sv(sf) == seq![GE::Rules(mrs(t0))]);
        assert(sv(sf).len() == sf.len());
        assert(ge(sf[0]) == sv(sf)[0]);
    }
//@at loop 0 before
    proof { rs = rules@; assert(rs.take(0) =~= Seq::empty()); lemma_sum_none(rs.take(0)); }
//@at loop 0 end
    proof {
        let a = rs.take(it0.pos() - 1);
        let x = rs[it0.pos() - 1];
        assert(rs.take(it0.pos() as int) =~= a.push(x));
        lemma_rules_more(a, a.push(x));
        let i = x.inner;
        if i is TokenRule { assert(token_rules@ =~= tb.push(Spanned { span: x.span, inner: i->TokenRule_0 })); lemma_sum_t(tb, pb, eb, Spanned { span: x.span, inner: i->TokenRule_0 }); }
        if i is ProductionRule { assert(prod_rules@ =~= pb.push(Spanned { span: x.span, inner: i->ProductionRule_0 })); lemma_sum_p(tb, pb, eb, Spanned { span: x.span, inner: i->ProductionRule_0 }); }
        if i is EntryRule { assert(entry_rules@ =~= eb.push(Spanned { span: x.span, inner: i->EntryRule_0 })); lemma_sum_e(tb, pb, eb, Spanned { span: x.span, inner: i->EntryRule_0 }); }
    }
//@at loop 0 start
    let ghost tb = token_rules@;
    let ghost pb = prod_rules@;
    let ghost eb = entry_rules@;
//@at loop 0 after
    proof { assert(rs.take(it0.pos() as int) =~= rs); lemma_sum_entries(token_rules@, prod_rules@, entry_rules@); assert(entry_rules@ =~= seq![entry_rules@[0]]); }
//@at exits
    proof { let x = vx_ret->Ok_0; assert(rs_view(x) == mrs(t0)); assert(reads(source@, t0, x)); }
//@end
