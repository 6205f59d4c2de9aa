//@type lapex-parser/src/grammar_builder.rs GrammarBuilder

// ---- the property: how a production pattern expands -----------------------------------------------
// Anonymous symbols are numbered from n. `temps` counts them, `out` is what stands for the pattern in its
// parent's right-hand side, `rls` are the rules of its anonymous symbols.
pub type Names<'a> = Map<&'a str, Symbol>;
pub type GRule = (int, Seq<Symbol>);
pub open spec fn nt(i: int) -> Symbol { Symbol::NonTerminal(i as u16) }

pub open spec fn temps(p: ProductionPattern) -> nat
    decreases p,
{
    match p {
        ProductionPattern::Sequence { elements } => temps_sum(elements@, elements@.len()),
        ProductionPattern::Alternative { elements } => 1 + temps_sum(elements@, elements@.len()),
        ProductionPattern::OneOrMany { inner } => 1 + temps(*inner),
        ProductionPattern::ZeroOrMany { inner } => 1 + temps(*inner),
        ProductionPattern::Optional { inner } => 1 + temps(*inner),
        _ => 0,
    }
}
pub open spec fn temps_sum(s: Seq<ProductionPattern>, k: nat) -> nat
    decreases s, k,
{ if k == 0 || k > s.len() { 0 } else { temps_sum(s, (k - 1) as nat) + temps(s[k - 1]) } }

// all names of the pattern are defined
pub open spec fn named(p: ProductionPattern, sy: Names) -> bool
    decreases p,
{
    match p {
        ProductionPattern::Sequence { elements } => named_all(elements@, elements@.len(), sy),
        ProductionPattern::Alternative { elements } => named_all(elements@, elements@.len(), sy),
        ProductionPattern::OneOrMany { inner } => named(*inner, sy),
        ProductionPattern::ZeroOrMany { inner } => named(*inner, sy),
        ProductionPattern::Optional { inner } => named(*inner, sy),
        ProductionPattern::Rule { rule_name } => sy.contains_key(rule_name),
        ProductionPattern::Epsilon => true,
    }
}
pub open spec fn named_all(s: Seq<ProductionPattern>, k: nat, sy: Names) -> bool
    decreases s, k,
{ if k == 0 || k > s.len() { true } else { named_all(s, (k - 1) as nat, sy) && named(s[k - 1], sy) } }

pub open spec fn outp(p: ProductionPattern, sy: Names, n: int) -> Seq<Symbol>
    decreases p,
{
    match p {
        ProductionPattern::Sequence { elements } => cat(elements@, elements@.len(), sy, n),
        ProductionPattern::Rule { rule_name } => seq![sy[rule_name]],
        ProductionPattern::Epsilon => seq![Symbol::Epsilon],
        _ => seq![nt(n)],
    }
}
pub open spec fn cat(s: Seq<ProductionPattern>, k: nat, sy: Names, n: int) -> Seq<Symbol>
    decreases s, k,
{ if k == 0 || k > s.len() { seq![] } else { cat(s, (k - 1) as nat, sy, n) + outp(s[k - 1], sy, n + temps_sum(s, (k - 1) as nat)) } }

pub open spec fn rls(p: ProductionPattern, sy: Names, n: int) -> Seq<GRule>
    decreases p,
{
    match p {
        ProductionPattern::Sequence { elements } => rls_cat(elements@, elements@.len(), sy, n),
        ProductionPattern::Alternative { elements } => rls_alt(elements@, elements@.len(), sy, n),
        ProductionPattern::OneOrMany { inner } => rls(*inner, sy, n + 1).push((n, outp(*inner, sy, n + 1)))
            .push((n, outp(*inner, sy, n + 1).push(nt(n)))),
        ProductionPattern::ZeroOrMany { inner } => rls(*inner, sy, n + 1).push((n, seq![Symbol::Epsilon]))
            .push((n, outp(*inner, sy, n + 1).push(nt(n)))),
        ProductionPattern::Optional { inner } => rls(*inner, sy, n + 1).push((n, outp(*inner, sy, n + 1))).push((n, seq![Symbol::Epsilon])),
        _ => seq![],
    }
}
pub open spec fn rls_cat(s: Seq<ProductionPattern>, k: nat, sy: Names, n: int) -> Seq<GRule>
    decreases s, k,
{ if k == 0 || k > s.len() { seq![] } else { rls_cat(s, (k - 1) as nat, sy, n) + rls(s[k - 1], sy, n + temps_sum(s, (k - 1) as nat)) } }
pub open spec fn rls_alt(s: Seq<ProductionPattern>, k: nat, sy: Names, n: int) -> Seq<GRule>
    decreases s, k,
{
    if k == 0 || k > s.len() { seq![] }
    else {
        (rls_alt(s, (k - 1) as nat, sy, n) + rls(s[k - 1], sy, n + 1 + temps_sum(s, (k - 1) as nat)))
            .push((n, outp(s[k - 1], sy, n + 1 + temps_sum(s, (k - 1) as nat))))
    }
}
// the name an error reports occurs in the pattern
pub open spec fn occurs(p: ProductionPattern, m: Seq<char>) -> bool
    decreases p,
{
    match p {
        ProductionPattern::Sequence { elements } => occurs_in(elements@, elements@.len(), m),
        ProductionPattern::Alternative { elements } => occurs_in(elements@, elements@.len(), m),
        ProductionPattern::OneOrMany { inner } => occurs(*inner, m),
        ProductionPattern::ZeroOrMany { inner } => occurs(*inner, m),
        ProductionPattern::Optional { inner } => occurs(*inner, m),
        ProductionPattern::Rule { rule_name } => rule_name@ == m,
        ProductionPattern::Epsilon => false,
    }
}
pub open spec fn occurs_in(s: Seq<ProductionPattern>, k: nat, m: Seq<char>) -> bool
    decreases s, k,
{ if k == 0 || k > s.len() { false } else { occurs_in(s, (k - 1) as nat, m) || occurs(s[k - 1], m) } }
pub proof fn lemma_occurs(s: Seq<ProductionPattern>, k: nat, m: Seq<char>, i: int)
    requires 0 <= i < k <= s.len(), occurs(s[i], m),
    ensures occurs_in(s, k, m),
    decreases k,
{ if i < k - 1 { lemma_occurs(s, (k - 1) as nat, m, i); } }

// ---- the builder's state ------------------------------------------------------------------------
impl<'rules> GrammarBuilder<'rules> {
    pub open spec fn next(&self) -> int { self.max_symbol + 1 + self.temp_count }
    pub open spec fn bwf(&self) -> bool {
        &&& self.next() <= 65536
        &&& self.anonymous_non_terminals@ == Seq::new(self.temp_count as nat, |i: int| nt(self.max_symbol + 1 + i))
    }
    pub open spec fn same_names(&self, o: &Self) -> bool {
        self.symbols@ == o.symbols@ && self.max_symbol == o.max_symbol && self.tokens@ == o.tokens@ && self.productions@ == o.productions@
            && self.rule_set == o.rule_set
    }
}
pub open spec fn rule_states(r: Rule, s: GRule) -> bool { r.lhs == Some(s.0 as u16) && r.rhs@ == s.1 }
// `rs` is `rs0` followed by the rules `add`, all of them from the production `parent`
pub open spec fn appended(rs: Seq<Rule>, rs0: Seq<Rule>, add: Seq<GRule>, parent: &Spanned<ProductionRule>) -> bool {
    &&& rs.len() == rs0.len() + add.len()
    &&& forall|i: int| 0 <= i < rs0.len() ==> #[trigger] rs[i] == rs0[i]
    &&& forall|i: int| rs0.len() <= i < rs.len() ==> rule_states(#[trigger] rs[i], add[i - rs0.len()]) && rs[i].rule == parent
}
pub open spec fn bad_ref(e: GrammarError, p: ProductionPattern, sy: Names) -> bool {
    e matches GrammarError::MissingSymbol(m) && occurs(p, m@) && !named(p, sy)
}

pub proof fn lemma_append(rs: Seq<Rule>, rs1: Seq<Rule>, rs0: Seq<Rule>, a: Seq<GRule>, b: Seq<GRule>, parent: &Spanned<ProductionRule>)
    requires appended(rs1, rs0, a, parent), appended(rs, rs1, b, parent),
    ensures appended(rs, rs0, a + b, parent),
{
    assert forall|i: int| 0 <= i < rs0.len() implies #[trigger] rs[i] == rs0[i] by { assert(rs[i] == rs1[i]); }
    assert forall|i: int| rs0.len() <= i < rs.len() implies rule_states(#[trigger] rs[i], (a + b)[i - rs0.len()]) && rs[i].rule == parent by {
        if i < rs1.len() { assert(rs[i] == rs1[i]); assert(rule_states(rs1[i], a[i - rs0.len()])); }
        else { assert(rule_states(rs[i], b[i - rs1.len()])); }
    }
}
pub proof fn lemma_append1(rs: Seq<Rule>, rs1: Seq<Rule>, rs0: Seq<Rule>, a: Seq<GRule>, b: GRule, parent: &Spanned<ProductionRule>)
    requires appended(rs1, rs0, a, parent), rs.len() == rs1.len() + 1, forall|i: int| 0 <= i < rs1.len() ==> #[trigger] rs[i] == rs1[i],
        rule_states(rs[rs1.len() as int], b), rs[rs1.len() as int].rule == parent,
    ensures appended(rs, rs0, a.push(b), parent),
{
    assert(appended(rs, rs1, seq![b], parent));
    lemma_append(rs, rs1, rs0, a, seq![b], parent);
    assert(a + seq![b] =~= a.push(b));
}
pub proof fn lemma_temps_mono(s: Seq<ProductionPattern>, j: nat, k: nat)
    requires j <= k <= s.len(),
    ensures temps_sum(s, j) <= temps_sum(s, k),
    decreases k,
{ if j < k { lemma_temps_mono(s, j, (k - 1) as nat); } }
pub proof fn lemma_named(s: Seq<ProductionPattern>, k: nat, sy: Names, i: int)
    requires 0 <= i < k <= s.len(), named_all(s, k, sy),
    ensures named(s[i], sy),
    decreases k,
{ if i < k - 1 { lemma_named(s, (k - 1) as nat, sy, i); } }
// the error of an element is an error of the list
pub proof fn lemma_elem_err(e: GrammarError, s: Seq<ProductionPattern>, i: int, sy: Names)
    requires 0 <= i < s.len(), bad_ref(e, s[i], sy),
    ensures !named_all(s, s.len(), sy), occurs(s[i], e->MissingSymbol_0@),
{ if named_all(s, s.len(), sy) { lemma_named(s, s.len(), sy, i); } }
pub open spec fn listed(p: ProductionPattern, s: Seq<ProductionPattern>) -> bool {
    match p { ProductionPattern::Sequence { elements } => elements@ == s, ProductionPattern::Alternative { elements } => elements@ == s, _ => false }
}
pub proof fn elem_errs(p: ProductionPattern, s: Seq<ProductionPattern>, i: int, sy: Names)
    requires 0 <= i < s.len(), listed(p, s),
    ensures forall|e: GrammarError| #[trigger] bad_ref(e, s[i], sy) ==> bad_ref(e, p, sy),
{
    assert forall|e: GrammarError| #[trigger] bad_ref(e, s[i], sy) implies bad_ref(e, p, sy) by {
        lemma_elem_err(e, s, i, sy);
        let m = e->MissingSymbol_0@;
        match p {
            ProductionPattern::Sequence { elements } => { lemma_occurs(elements@, elements@.len(), m, i); assert(occurs(p, m)); assert(named(p, sy) == named_all(elements@, elements@.len(), sy)); }
            ProductionPattern::Alternative { elements } => { lemma_occurs(elements@, elements@.len(), m, i); assert(occurs(p, m)); assert(named(p, sy) == named_all(elements@, elements@.len(), sy)); }
            _ => {}
        }
    }
}
pub open spec fn flat(v: Seq<Vec<Symbol>>, k: nat) -> Seq<Symbol>
    decreases k,
{ if k == 0 || k > v.len() { seq![] } else { flat(v, (k - 1) as nat) + v[k - 1]@ } }
pub open spec fn parts(v: Seq<Vec<Symbol>>, s: Seq<ProductionPattern>, sy: Names, n: int) -> bool {
    v.len() <= s.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == outp(s[i], sy, n + temps_sum(s, i as nat))
}
pub proof fn lemma_flat(v: Seq<Vec<Symbol>>, k: nat, s: Seq<ProductionPattern>, sy: Names, n: int)
    requires parts(v, s, sy, n), k <= v.len(),
    ensures flat(v, k) == cat(s, k, sy, n),
    decreases k,
{ if k > 0 { lemma_flat(v, (k - 1) as nat, s, sy, n); assert(v[k - 1]@ == outp(s[k - 1], sy, n + temps_sum(s, (k - 1) as nat))); } }

impl FromSpecImpl<std::num::TryFromIntError> for GrammarError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: std::num::TryFromIntError) -> Self { GrammarError::TooManyRules }
}
//@fn lapex-parser/src/grammar.rs GrammarError::from trait=From keeptrait
//@end
//@fn lapex-parser/src/grammar.rs Rule::entry
//@spec
    ensures r.lhs is None, r.rhs@ == seq![entry_symbol], r.rule == rule,
//@end
//@fn lapex-parser/src/grammar.rs Rule::new
//@spec
    ensures
        lhs is NonTerminal ==> (r matches Ok(x) && x.lhs == Some(lhs->NonTerminal_0) && x.rhs == rhs && x.rule == rule),
        !(lhs is NonTerminal) ==> r == Err::<Rule, GrammarError>(GrammarError::RuleWithTerminalLeftHandSide),
//@end
//@fn lapex-parser/src/grammar.rs Grammar::new
//@spec
    ensures r.rules == rules, r.anonymous_non_terminals == anonymous_non_terminals, r.productions == productions, r.tokens == tokens,
        r.entry_rule == entry_rule, r.entry_symbol == entry_symbol,
//@end
//@fn lapex-parser/src/grammar_builder.rs GrammarBuilder::get_temp_symbol
//@spec
    requires old(self).bwf(),
    ensures
        final(self).same_names(old(self)), final(self).rules == old(self).rules,
        old(self).next() <= 65535 ==> r == Ok::<Symbol, GrammarError>(nt(old(self).next())) && final(self).bwf() && final(self).next() == old(self).next() + 1,
        old(self).next() > 65535 ==> r == Err::<Symbol, GrammarError>(GrammarError::TooManyRules),
//@at end
    proof { assert(self.anonymous_non_terminals@ =~= Seq::new(self.temp_count as nat, |i: int| nt(self.max_symbol + 1 + i))); }
//@end
//@fn lapex-parser/src/grammar_builder.rs GrammarBuilder::get_symbol_by_name
//@spec
    ensures
        *final(self) == *old(self),
        old(self).symbols@.contains_key(symbol_name) ==> r == Ok::<Symbol, GrammarError>(old(self).symbols@[symbol_name]),
        !old(self).symbols@.contains_key(symbol_name) ==> (r matches Err(GrammarError::MissingSymbol(m)) && m@ == symbol_name@),
//@end
//@fn lapex-parser/src/grammar_builder.rs GrammarBuilder::transform_pattern
//@spec
    requires old(self).bwf(),
    ensures
        final(self).same_names(old(self)),
        r matches Ok(v) ==> {
            &&& final(self).bwf() && final(self).next() == old(self).next() + temps(*pattern)
            &&& named(*pattern, old(self).symbols@)
            &&& v@ == outp(*pattern, old(self).symbols@, old(self).next())
            &&& appended(final(self).rules@, old(self).rules@, rls(*pattern, old(self).symbols@, old(self).next()), parent_rule)
        },
        r matches Err(e) ==> bad_ref(e, *pattern, old(self).symbols@) || (e == GrammarError::TooManyRules && old(self).next() + temps(*pattern) > 65536),
    decreases *pattern,
//@at start
    let ghost s0 = *self;
    let ghost sy = self.symbols@;
    let ghost n = self.next();
    let ghost r0 = self.rules@;
    let ghost pat = *pattern;
    proof { assert(appended(r0, r0, seq![], parent_rule)); }
//@loop 0
        invariant_except_break
            err0 is None, acc0@.len() == it0.pos(), named_all(elements@, it0.pos(), sy), self.bwf(), self.next() == n + temps_sum(elements@, it0.pos()),
            appended(self.rules@, r0, rls_cat(elements@, it0.pos(), sy, n), parent_rule),
        invariant
            self.same_names(&s0), s0 == *old(self), sy == s0.symbols@, n == s0.next(), r0 == s0.rules@, pat == *pattern, (pat matches ProductionPattern::Sequence { elements: es } && es == *elements),
            it0.pos() <= it0.seq().len(), it0.seq().len() == elements@.len(),
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == elements@[i],
            parts(acc0@, elements@, sy, n),
        ensures
            err0 matches Some(e) ==> bad_ref(e, pat, sy) || (e == GrammarError::TooManyRules && n + temps(pat) > 65536),
            err0 is None ==> acc0@.len() == elements@.len() && named_all(elements@, elements@.len(), sy) && self.bwf() && self.next() == n + temps(pat)
                && appended(self.rules@, r0, rls(pat, sy, n), parent_rule),
        decreases it0.seq().len() - it0.pos(),
//@at loop 0 start
    let ghost r1 = self.rules@;
    let ghost a0 = acc0@;
    let ghost j = it0.pos() - 1;
    proof {
        assert(*e0 == elements@[j]);
        
        elem_errs(pat, elements@, j, sy);
        lemma_temps_mono(elements@, (j + 1) as nat, elements@.len()); }
//@at loop 0 end
    proof {
        if err0 is None {
            lemma_append(self.rules@, r1, r0, rls_cat(elements@, j as nat, sy, n), rls(elements@[j], sy, n + temps_sum(elements@, j as nat)), parent_rule);
        }
    }
//@loop 1
        invariant
            it1.pos() <= it1.seq().len(), acc1@ =~= flat(it1.seq(), it1.pos()), flat(it1.seq(), it1.seq().len()) == cat(elements@, elements@.len(), sy, n),
        decreases it1.seq().len() - it1.pos(),
//@loop 2
        invariant
            it2.pos() <= it2.seq().len(), it2.seq() == it1.seq()[j1]@, acc1@ == b1 + it2.seq().take(it2.pos() as int),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 before
    let ghost b1 = acc1@;
//@at loop 2 after
    proof { assert(it2.seq().take(it2.seq().len() as int) =~= it2.seq()); }
//@at loop 1 start
    let ghost a1 = acc1@;
    let ghost j1 = it1.pos() - 1;
//@at loop 1 end
    proof { assert(acc1@ == a1 + it1.seq()[j1]@); }
//@at loop 1 before
    proof { lemma_flat(it1.seq(), it1.seq().len(), elements@, sy, n); }
//@loop 3
        invariant
            self.same_names(&s0), s0 == *old(self), sy == s0.symbols@, n == s0.next(), r0 == s0.rules@, pat == *pattern, (pat matches ProductionPattern::Alternative { elements: es } && es == *elements), n + 1 <= 65536,
            it3.pos() <= it3.seq().len(), it3.seq().len() == elements@.len(),
            forall|i: int| 0 <= i < it3.seq().len() ==> *(#[trigger] it3.seq()[i]) == elements@[i],
            alt_symbol == nt(n),
            named_all(elements@, it3.pos(), sy), self.bwf(), self.next() == n + 1 + temps_sum(elements@, it3.pos()),
            appended(self.rules@, r0, rls_alt(elements@, it3.pos(), sy, n), parent_rule),
        decreases it3.seq().len() - it3.pos(),
//@at loop 3 start
    let ghost r1 = self.rules@;
    let ghost j = it3.pos() - 1;
    let ghost o = outp(elements@[j], sy, n + 1 + temps_sum(elements@, j as nat));
    let ghost q = rls(elements@[j], sy, n + 1 + temps_sum(elements@, j as nat));
    proof {
        assert(*elem == elements@[j]);
        
        elem_errs(pat, elements@, j, sy);
        lemma_temps_mono(elements@, (j + 1) as nat, elements@.len()); }
//@at loop 3 end
    proof {
        let rs = self.rules@;
        lemma_append(rs.drop_last(), r1, r0, rls_alt(elements@, j as nat, sy, n), q, parent_rule);
        lemma_append1(rs, rs.drop_last(), r0, rls_alt(elements@, j as nat, sy, n) + q, (n, o), parent_rule);
    }
//@at exits
    proof {
        if vx_ret is Ok {
            let rs = self.rules@;
            let rs1 = rs.drop_last();
            let rs2 = rs1.drop_last();
            match pat {
                ProductionPattern::OneOrMany { inner } => {
                    let o = outp(*inner, sy, n + 1);
                    lemma_append1(rs1, rs2, r0, rls(*inner, sy, n + 1), (n, o), parent_rule);
                    lemma_append1(rs, rs1, r0, rls(*inner, sy, n + 1).push((n, o)), (n, o.push(nt(n))), parent_rule);
                }
                ProductionPattern::ZeroOrMany { inner } => {
                    let o = outp(*inner, sy, n + 1);
                    let e = seq![Symbol::Epsilon];
                    assert(rs1.last().rhs@ =~= e);
                    lemma_append1(rs1, rs2, r0, rls(*inner, sy, n + 1), (n, e), parent_rule);
                    lemma_append1(rs, rs1, r0, rls(*inner, sy, n + 1).push((n, e)), (n, o.push(nt(n))), parent_rule);
                }
                ProductionPattern::Optional { inner } => {
                    let o = outp(*inner, sy, n + 1);
                    let e = seq![Symbol::Epsilon];
                    assert(rs.last().rhs@ =~= e);
                    lemma_append1(rs1, rs2, r0, rls(*inner, sy, n + 1), (n, o), parent_rule);
                    lemma_append1(rs, rs1, r0, rls(*inner, sy, n + 1).push((n, o)), (n, e), parent_rule);
                }
                _ => {}
            }
            assert(vx_ret->Ok_0@ =~= outp(pat, sy, n));
        }
    }
//@end

// ---- names and symbols ----------------------------------------------------------------------------
pub open spec fn tname<'a>(rs: &'a RuleSet<'a>, i: int) -> &'a str { rs.token_rules@[i].inner.name }
pub open spec fn pname<'a>(rs: &'a RuleSet<'a>, i: int) -> &'a str { rs.production_rules@[i].inner.name }
pub open spec fn ntok(rs: &RuleSet) -> nat { rs.token_rules@.len() }
pub open spec fn nprod(rs: &RuleSet) -> nat { rs.production_rules@.len() }
pub open spec fn tsym(i: int) -> Symbol { Symbol::Terminal(i as u16) }
// a token's symbol is numbered by its place; a production's by the first production of that name
pub open spec fn tok_syms(rs: &RuleSet, k: int, sy: Names) -> bool {
    forall|i: int| 0 <= i < k ==> sy.contains_key(#[trigger] tname(rs, i)) && sy[tname(rs, i)] == tsym(i)
}
pub open spec fn prod_sym(rs: &RuleSet, i: int, sy: Names) -> bool {
    sy.contains_key(pname(rs, i)) && sy[pname(rs, i)] is NonTerminal
        && (sy[pname(rs, i)]->NonTerminal_0 as int) <= i && pname(rs, sy[pname(rs, i)]->NonTerminal_0 as int) == pname(rs, i)
}
pub open spec fn key_known(rs: &RuleSet, kt: int, kp: int, q: &str) -> bool {
    (exists|i: int| 0 <= i < kt && #[trigger] tname(rs, i) == q) || (exists|i: int| 0 <= i < kp && #[trigger] pname(rs, i) == q)
}
pub open spec fn syms_ok(rs: &RuleSet, kt: int, kp: int, sy: Names) -> bool {
    &&& kt <= 65536 && kp <= 65536
    &&& tok_syms(rs, kt, sy)
    &&& forall|i: int| 0 <= i < kp ==> #[trigger] prod_sym(rs, i, sy)
    &&& forall|q: &str| #[trigger] sy.contains_key(q) ==> key_known(rs, kt, kp, q)
}
pub open spec fn toks_ok(rs: &RuleSet, kt: int, toks: Map<Symbol, &str>) -> bool {
    &&& forall|i: int| 0 <= i < kt ==> #[trigger] toks.contains_key(tsym(i)) && toks[tsym(i)] == tname(rs, i)
    &&& forall|s: Symbol| #[trigger] toks.contains_key(s) ==> s is Terminal && (s->Terminal_0 as int) < kt
}
pub open spec fn prods_ok(rs: &RuleSet, kp: int, sy: Names, prods: Map<Symbol, &str>) -> bool {
    &&& forall|i: int| 0 <= i < kp && sy[#[trigger] pname(rs, i)] == nt(i) ==> prods.contains_key(nt(i)) && prods[nt(i)] == pname(rs, i)
    &&& forall|s: Symbol| #[trigger] prods.contains_key(s) ==> s is NonTerminal && (s->NonTerminal_0 as int) < kp
            && sy[pname(rs, s->NonTerminal_0 as int)] == s
}
pub open spec fn max_ok(rs: &RuleSet, sy: Names, m: u16) -> bool {
    &&& forall|q: &str| #[trigger] sy.contains_key(q) ==> sidx(sy[q]) <= m
    &&& m == 0 || m < ntok(rs) || m < nprod(rs)
}
pub open spec fn sidx(s: Symbol) -> u16 { match s { Symbol::NonTerminal(i) => i, Symbol::Terminal(i) => i, _ => 0 } }
pub open spec fn unspan(m: Map<&str, (Symbol, SourceSpan)>) -> Names<'_> { m.map_values(|v: (Symbol, SourceSpan)| v.0) }
// the spans of two rules that define one name
pub open spec fn clash(rs: &RuleSet, e: GrammarError) -> bool {
    e matches GrammarError::ConflictingRules { rules } && ({
        ||| exists|i: int, j: int| 0 <= i < j < ntok(rs) && #[trigger] tname(rs, i) == #[trigger] tname(rs, j)
                && rules@ == seq![rs.token_rules@[i].span, rs.token_rules@[j].span]
        ||| exists|i: int, j: int| 0 <= i < ntok(rs) && 0 <= j < nprod(rs) && #[trigger] tname(rs, i) == #[trigger] pname(rs, j)
                && rules@ == seq![rs.token_rules@[i].span, rs.production_rules@[j].span]
    })
}
pub open spec fn names_done(rs: &RuleSet, b: &GrammarBuilder) -> bool {
    &&& syms_ok(rs, ntok(rs) as int, nprod(rs) as int, b.symbols@)
    &&& toks_ok(rs, ntok(rs) as int, b.tokens@)
    &&& prods_ok(rs, nprod(rs) as int, b.symbols@, b.productions@)
    &&& max_ok(rs, b.symbols@, b.max_symbol)
}
pub open spec fn tspans(rs: &RuleSet, k: int, m: Map<&str, (Symbol, SourceSpan)>) -> bool {
    forall|i: int| 0 <= i < k ==> (#[trigger] m[tname(rs, i)]).1 == rs.token_rules@[i].span
}
pub open spec fn ents_of(m: Map<&str, (Symbol, SourceSpan)>, s: Seq<(&str, (Symbol, SourceSpan))>) -> bool {
    s.len() == vx_order(m.dom()).len()
        && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == vx_order(m.dom())[i] && s[i].1 == m[vx_order(m.dom())[i]]
}
pub open spec fn vals_of(m: Map<&str, (Symbol, SourceSpan)>, s: Seq<&(Symbol, SourceSpan)>) -> bool {
    s.len() == vx_order(m.dom()).len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == m[vx_order(m.dom())[i]]
}
pub proof fn lemma_pairs<K, V>(s: Seq<(K, V)>, m: Map<K, V>)
    requires forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1,
    ensures
        forall|k: K| #[trigger] pairs_to_map(s).contains_key(k) ==> m.contains_key(k) && pairs_to_map(s)[k] == m[k],
        forall|i: int| 0 <= i < s.len() ==> pairs_to_map(s).contains_key((#[trigger] s[i]).0),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies m.contains_key((#[trigger] t[i]).0) && m[t[i].0] == t[i].1 by { assert(t[i] == s[i]); }
        lemma_pairs(t, m);
        assert(s[s.len() - 1] == s.last());
        let pm = pairs_to_map(s);
        assert(pm == pairs_to_map(t).insert(s.last().0, s.last().1));
        assert forall|k: K| #[trigger] pm.contains_key(k) implies m.contains_key(k) && pm[k] == m[k] by { if k != s.last().0 { assert(pairs_to_map(t).contains_key(k)); } }
        assert forall|i: int| 0 <= i < s.len() implies pairs_to_map(s).contains_key((#[trigger] s[i]).0) by { if i < t.len() { assert(t[i] == s[i]); } }
    }
}
pub proof fn lemma_names(m: Map<&str, (Symbol, SourceSpan)>, s: Seq<(&str, (Symbol, SourceSpan))>, r: Seq<(&str, Symbol)>)
    requires pairs_of(s, r), r.len() == s.len(), ents_of(m, s),
    ensures pairs_to_map(r) =~= unspan(m),
{
    let n = unspan(m);
    assert forall|i: int| 0 <= i < r.len() implies n.contains_key((#[trigger] r[i]).0) && n[r[i].0] == r[i].1 by { assert(s[i].0 == r[i].0); assert(m.dom().contains(vx_order(m.dom())[i])); }
    lemma_pairs(r, n);
    assert forall|q: &str| n.contains_key(q) implies #[trigger] pairs_to_map(r).contains_key(q) by {
        assert(vx_order(m.dom()).contains(q));
        let i = choose|i: int| 0 <= i < vx_order(m.dom()).len() && vx_order(m.dom())[i] == q;
        assert(s[i].0 == q);
        assert(r[i].0 == q);
    }
}
pub proof fn lemma_max(rs: &RuleSet, m: Map<&str, (Symbol, SourceSpan)>, s: Seq<&(Symbol, SourceSpan)>, x: Option<u16>)
    requires syms_ok(rs, ntok(rs) as int, nprod(rs) as int, unspan(m)), is_max(s, s.len() as int, x), vals_of(m, s),
    ensures max_ok(rs, unspan(m), match x { Some(y) => y, None => 0 }),
{
    let n = unspan(m);
    let y: u16 = match x { Some(y) => y, None => 0 };
    assert forall|q: &str| #[trigger] n.contains_key(q) implies sidx(n[q]) <= y by {
        assert(vx_order(m.dom()).contains(q));
        let i = choose|i: int| 0 <= i < vx_order(m.dom()).len() && vx_order(m.dom())[i] == q;
        assert(*s[i] == m[q]);
    }
    if y != 0 {
        let i = choose|i: int| 0 <= i < s.len() && sidx((#[trigger] s[i]).0) == y;
        let q = vx_order(m.dom())[i];
        assert(m.dom().contains(q));
        assert(n.contains_key(q));
        assert(key_known(rs, ntok(rs) as int, nprod(rs) as int, q));
        if exists|i: int| 0 <= i < ntok(rs) && #[trigger] tname(rs, i) == q {
            let t = choose|i: int| 0 <= i < ntok(rs) && #[trigger] tname(rs, i) == q;
        } else {
            let t = choose|i: int| 0 <= i < nprod(rs) && #[trigger] pname(rs, i) == q;
            assert(prod_sym(rs, t, n));
        }
    }
}
pub open spec fn is_max(s: Seq<&(Symbol, SourceSpan)>, k: int, m: Option<u16>) -> bool {
    match m {
        None => k == 0,
        Some(m) => (forall|i: int| 0 <= i < k ==> sidx((#[trigger] s[i]).0) <= m) && exists|i: int| 0 <= i < k && sidx((#[trigger] s[i]).0) == m,
    }
}
pub open spec fn pairs_of(s: Seq<(&str, (Symbol, SourceSpan))>, r: Seq<(&str, Symbol)>) -> bool {
    r.len() <= s.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == s[i].0 && r[i].1 == s[i].1.0
}
pub open spec fn tok_list(rs: &RuleSet, s: Seq<(&str, Symbol, &Spanned<TokenRule>)>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == tname(rs, i) && s[i].1 == tsym(i) && *s[i].2 == rs.token_rules@[i]
}
pub open spec fn prod_list(rs: &RuleSet, s: Seq<(&str, Symbol, &Spanned<ProductionRule>)>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == pname(rs, i) && s[i].1 == nt(i) && *s[i].2 == rs.production_rules@[i]
}
//@fn lapex-parser/src/grammar_builder.rs GrammarBuilder::from_rule_set
//@spec
    ensures
        r matches Ok(b) ==> b.rule_set == rule_set && b.bwf() && b.temp_count == 0 && b.rules@.len() == 0 && names_done(rule_set, &b),
        r matches Err(e) ==> clash(rule_set, e) || (e == GrammarError::TooManyRules && (ntok(rule_set) > 65536 || nprod(rule_set) > 65536)),
//@loop 0
        invariant_except_break
            err0 is None, acc0@.len() == it0.pos(), it0.pos() <= 65536,
        invariant
            it0.pos() <= it0.seq().len(), it0.seq().len() == ntok(rule_set),
            forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == i && *it0.seq()[i].1 == rule_set.token_rules@[i],
            tok_list(rule_set, acc0@),
        ensures
            err0 is None ==> acc0@.len() == ntok(rule_set) && ntok(rule_set) <= 65536,
            err0 matches Some(e) ==> e == GrammarError::TooManyRules && ntok(rule_set) > 65536,
        decreases it0.seq().len() - it0.pos(),
//@loop 1
        invariant_except_break
            err1 is None, acc1@.len() == it1.pos(), it1.pos() <= 65536,
        invariant
            it1.pos() <= it1.seq().len(), it1.seq().len() == nprod(rule_set),
            forall|i: int| 0 <= i < it1.seq().len() ==> (#[trigger] it1.seq()[i]).0 == i && *it1.seq()[i].1 == rule_set.production_rules@[i],
            prod_list(rule_set, acc1@),
        ensures
            err1 is None ==> acc1@.len() == nprod(rule_set) && nprod(rule_set) <= 65536,
            err1 matches Some(e) ==> e == GrammarError::TooManyRules && nprod(rule_set) > 65536,
        decreases it1.seq().len() - it1.pos(),
//@loop 2
        invariant
            it2.pos() <= it2.seq().len(), it2.seq().len() == ntok(rule_set), ntok(rule_set) <= 65536,
            tok_list(rule_set, it2.seq()),
            syms_ok(rule_set, it2.pos() as int, 0, unspan(symbols_with_span@)),
            tspans(rule_set, it2.pos() as int, symbols_with_span@),
            toks_ok(rule_set, it2.pos() as int, tokens@),
        decreases it2.seq().len() - it2.pos(),
//@at loop 2 start
    let ghost k = it2.pos() - 1;
    let ghost tk0 = tokens@;
    let ghost m0 = symbols_with_span@;
    proof {
        assert(it2.seq()[k].0 == tname(rule_set, k));
        let q = tname(rule_set, k);
        if m0.contains_key(q) {
            assert(unspan(m0).contains_key(q));
            let i = choose|i: int| 0 <= i < k && #[trigger] tname(rule_set, i) == q;
            assert(m0[tname(rule_set, i)].1 == rule_set.token_rules@[i].span);
            let rr = seq![rule_set.token_rules@[i].span, rule_set.token_rules@[k].span];
            assert forall|rules: Vec<SourceSpan>| #[trigger] rules@ =~= rr implies clash(rule_set, GrammarError::ConflictingRules { rules }) by {
                assert(tname(rule_set, i) == tname(rule_set, k));
            }
        }
    }
//@at loop 2 end
    proof {
        let m = symbols_with_span@;
        assert(unspan(m) =~= unspan(m0).insert(tname(rule_set, k), tsym(k)));
        assert forall|i: int| 0 <= i < k implies #[trigger] tname(rule_set, i) != tname(rule_set, k) by { assert(unspan(m0).contains_key(tname(rule_set, i))); }
        assert(tokens@ =~= tk0.insert(tsym(k), tname(rule_set, k)));
        assert forall|i: int| 0 <= i < k + 1 implies #[trigger] tokens@.contains_key(tsym(i)) && tokens@[tsym(i)] == tname(rule_set, i) by {
            if i < k { assert(tk0.contains_key(tsym(i))); }
        }
    }
//@loop 3
        invariant
            it3.pos() <= it3.seq().len(), it3.seq().len() == nprod(rule_set), ntok(rule_set) <= 65536, nprod(rule_set) <= 65536,
            prod_list(rule_set, it3.seq()),
            syms_ok(rule_set, ntok(rule_set) as int, it3.pos() as int, unspan(symbols_with_span@)),
            tspans(rule_set, ntok(rule_set) as int, symbols_with_span@),
            toks_ok(rule_set, ntok(rule_set) as int, tokens@),
            prods_ok(rule_set, it3.pos() as int, unspan(symbols_with_span@), productions@),
        decreases it3.seq().len() - it3.pos(),
//@at loop 3 start
    let ghost k = it3.pos() - 1;
    let ghost m0 = symbols_with_span@;
    let ghost q = pname(rule_set, k);
    proof {
        assert(it3.seq()[k].0 == pname(rule_set, k));
        if m0.contains_key(q) {
            assert(unspan(m0).contains_key(q));
            assert(key_known(rule_set, ntok(rule_set) as int, k, q));
            if exists|i: int| 0 <= i < ntok(rule_set) && #[trigger] tname(rule_set, i) == q {
                let i = choose|i: int| 0 <= i < ntok(rule_set) && #[trigger] tname(rule_set, i) == q;
                assert(m0[tname(rule_set, i)].1 == rule_set.token_rules@[i].span);
                assert(m0[q].0 == tsym(i));
                assert(tokens@.contains_key(tsym(i)));
                let rr = seq![rule_set.token_rules@[i].span, rule_set.production_rules@[k].span];
                assert forall|rules: Vec<SourceSpan>| #[trigger] rules@ =~= rr implies clash(rule_set, GrammarError::ConflictingRules { rules }) by {
                    assert(tname(rule_set, i) == pname(rule_set, k));
                }
            } else {
                let i = choose|i: int| 0 <= i < k && #[trigger] pname(rule_set, i) == q;
                assert(prod_sym(rule_set, i, unspan(m0)));
                assert(!tokens@.contains_key(m0[q].0));
            }
        }
    }
//@at loop 3 end
    proof {
        let m = symbols_with_span@;
        let kt = ntok(rule_set) as int;
        if m0.contains_key(q) {
            assert(m == m0);
            let i = choose|i: int| 0 <= i < k && #[trigger] pname(rule_set, i) == q;
            assert(prod_sym(rule_set, i, unspan(m)));
            assert(prod_sym(rule_set, k, unspan(m)));
        } else {
            assert(unspan(m) =~= unspan(m0).insert(q, nt(k)));
            assert forall|i: int| 0 <= i < kt implies #[trigger] tname(rule_set, i) != q by { assert(unspan(m0).contains_key(tname(rule_set, i))); }
            assert forall|i: int| 0 <= i < k implies #[trigger] pname(rule_set, i) != q by { assert(prod_sym(rule_set, i, unspan(m0))); }
            assert forall|i: int| 0 <= i < k + 1 implies #[trigger] prod_sym(rule_set, i, unspan(m)) by { if i < k { assert(prod_sym(rule_set, i, unspan(m0))); } }
        }
        assert forall|z: &str| #[trigger] unspan(m).contains_key(z) implies key_known(rule_set, kt, k + 1, z) by {
            if unspan(m0).contains_key(z) { assert(key_known(rule_set, kt, k, z)); } else { assert(pname(rule_set, k) == z); }
        }
    }
//@loop 4
        invariant
            it4.pos() <= it4.seq().len(), vals_of(symbols_with_span@, it4.seq()),
            is_max(it4.seq(), it4.pos() as int, acc2),
        decreases it4.seq().len() - it4.pos(),
//@at loop 4 after
    proof { lemma_max(rule_set, symbols_with_span@, it4.seq(), acc2); }
//@at loop 5 before
    let ghost mm = symbols_with_span@;
//@at loop 5 after
    proof { lemma_names(mm, it5.seq(), acc3@); }
//@loop 5
        invariant
            it5.pos() <= it5.seq().len(), ents_of(mm, it5.seq()), acc3@.len() == it5.pos(),
            pairs_of(it5.seq(), acc3@),
        decreases it5.seq().len() - it5.pos(),
//@at end
    proof {
        let b = vx_ret->Ok_0;
        assert(b.bwf()) by { assert(b.anonymous_non_terminals@ =~= Seq::new(0, |i: int| nt(b.max_symbol + 1 + i))); }
        assert(syms_ok(rule_set, ntok(rule_set) as int, nprod(rule_set) as int, b.symbols@));
        assert(toks_ok(rule_set, ntok(rule_set) as int, b.tokens@));
        assert(prods_ok(rule_set, nprod(rule_set) as int, b.symbols@, b.productions@));
        assert(max_ok(rule_set, b.symbols@, b.max_symbol));
    }
//@end

// ---- the whole grammar ------------------------------------------------------------------------------
pub open spec fn ppat<'a>(rs: &'a RuleSet<'a>, i: int) -> ProductionPattern<'a> { rs.production_rules@[i].inner.pattern }
pub open spec fn ptemps(rs: &RuleSet, k: nat) -> nat
    decreases k,
{ if k == 0 { 0 } else { ptemps(rs, (k - 1) as nat) + temps(ppat(rs, k - 1)) } }
// the rules of production i, whose anonymous symbols are numbered from n
pub open spec fn prules(p: ProductionPattern, s: Symbol, sy: Names, n: int) -> Seq<GRule> {
    rls(p, sy, n).push((s->NonTerminal_0 as int, outp(p, sy, n)))
}
pub open spec fn prule_at(rs: &RuleSet, i: int, sy: Names, n: int) -> Seq<GRule> {
    prules(ppat(rs, i), sy[pname(rs, i)], sy, n + ptemps(rs, i as nat))
}
pub open spec fn nrules(rs: &RuleSet, k: nat, sy: Names, n: int) -> nat
    decreases k,
{ if k == 0 { 0 } else { nrules(rs, (k - 1) as nat, sy, n) + prule_at(rs, k - 1, sy, n).len() } }
// the rules are those of the productions 0..k, in order
pub open spec fn built(r: Seq<Rule>, rs: &RuleSet, k: nat, sy: Names, n: int) -> bool
    decreases k,
{
    if k == 0 { r.len() == 0 } else {
        let m = nrules(rs, (k - 1) as nat, sy, n) as int;
        m <= r.len() && built(r.take(m), rs, (k - 1) as nat, sy, n)
            && appended(r, r.take(m), prule_at(rs, k - 1, sy, n), &rs.production_rules@[k - 1])
    }
}
pub open spec fn all_named(rs: &RuleSet, k: int, sy: Names) -> bool { forall|i: int| 0 <= i < k ==> named(#[trigger] ppat(rs, i), sy) }
pub open spec fn ename<'a>(rs: &'a RuleSet<'a>) -> &'a str { rs.entry_rule.inner.name }
pub open spec fn entry_ok(rs: &RuleSet, g: &Grammar, sy: Names) -> bool {
    exists|i: int| 0 <= i < nprod(rs) && #[trigger] pname(rs, i) == ename(rs) && g.entry_rule.rule == &rs.production_rules@[i]
        && g.entry_symbol == sy[ename(rs)] && g.entry_rule.lhs is None && g.entry_rule.rhs@ == seq![g.entry_symbol]
}
pub open spec fn gram_of(rs: &RuleSet, g: &Grammar, sy: Names, m: u16) -> bool {
    &&& syms_ok(rs, ntok(rs) as int, nprod(rs) as int, sy)
    &&& toks_ok(rs, ntok(rs) as int, g.tokens@)
    &&& prods_ok(rs, nprod(rs) as int, sy, g.productions@)
    &&& max_ok(rs, sy, m)
    &&& m + 1 + ptemps(rs, nprod(rs)) <= 65536
    &&& g.anonymous_non_terminals@ == Seq::new(ptemps(rs, nprod(rs)), |i: int| nt(m + 1 + i))
    &&& built(g.rules@, rs, nprod(rs), sy, m + 1)
    &&& all_named(rs, nprod(rs) as int, sy)
    &&& entry_ok(rs, g, sy)
}
pub open spec fn build_err(rs: &RuleSet, e: GrammarError, sy: Names, m: u16) -> bool {
    ||| exists|i: int| 0 <= i < nprod(rs) && bad_ref(e, #[trigger] ppat(rs, i), sy)
    ||| e == GrammarError::TooManyRules && m + 1 + ptemps(rs, nprod(rs)) > 65536
    ||| (e matches GrammarError::MissingSymbol(x) && x@ == ename(rs)@ && forall|i: int| 0 <= i < nprod(rs) ==> #[trigger] pname(rs, i) != ename(rs))
}
pub proof fn lemma_ptemps(rs: &RuleSet, j: nat, k: nat)
    requires j <= k,
    ensures ptemps(rs, j) <= ptemps(rs, k),
    decreases k,
{ if j < k { lemma_ptemps(rs, j, (k - 1) as nat); } }
pub proof fn lemma_built(r2: Seq<Rule>, r1: Seq<Rule>, rs: &RuleSet, k: nat, sy: Names, n: int)
    requires k > 0, built(r1, rs, (k - 1) as nat, sy, n), appended(r2, r1, prule_at(rs, k - 1, sy, n), &rs.production_rules@[k - 1]),
    ensures built(r2, rs, k, sy, n),
{
    lemma_built_len(r1, rs, (k - 1) as nat, sy, n);
    assert(r2.take(r1.len() as int) =~= r1);
}
pub proof fn lemma_built_len(r: Seq<Rule>, rs: &RuleSet, k: nat, sy: Names, n: int)
    requires built(r, rs, k, sy, n),
    ensures r.len() == nrules(rs, k, sy, n),
    decreases k,
{
    if k > 0 {
        let m = nrules(rs, (k - 1) as nat, sy, n) as int;
        lemma_built_len(r.take(m), rs, (k - 1) as nat, sy, n);
    }
}

//@fn lapex-parser/src/grammar_builder.rs GrammarBuilder::add_production_rule
//@spec
    requires
        old(self).bwf(), old(self).symbols@.contains_key(prod_rule.inner.name), old(self).symbols@[prod_rule.inner.name] is NonTerminal,
    ensures
        final(self).same_names(old(self)),
        r is Ok ==> {
            &&& final(self).bwf() && final(self).next() == old(self).next() + temps(prod_rule.inner.pattern)
            &&& named(prod_rule.inner.pattern, old(self).symbols@)
            &&& appended(final(self).rules@, old(self).rules@,
                    prules(prod_rule.inner.pattern, old(self).symbols@[prod_rule.inner.name], old(self).symbols@, old(self).next()), prod_rule)
        },
        r matches Err(e) ==> bad_ref(e, prod_rule.inner.pattern, old(self).symbols@)
            || (e == GrammarError::TooManyRules && old(self).next() + temps(prod_rule.inner.pattern) > 65536),
//@at end
    proof {
        let rs = self.rules@;
        let sy = old(self).symbols@;
        let n = old(self).next();
        let p = prod_rule.inner.pattern;
        lemma_append1(rs, rs.drop_last(), old(self).rules@, rls(p, sy, n), (sy[prod_rule.inner.name]->NonTerminal_0 as int, outp(p, sy, n)), prod_rule);
    }
//@end
//@fn lapex-parser/src/grammar_builder.rs GrammarBuilder::build
//@spec
    requires self.bwf(), self.temp_count == 0, self.rules@.len() == 0, names_done(self.rule_set, &self),
    ensures
        r matches Ok(g) ==> gram_of(self.rule_set, &g, self.symbols@, self.max_symbol),
        r matches Err(e) ==> build_err(self.rule_set, e, self.symbols@, self.max_symbol),
//@loop 0
        invariant
            rs == self.rule_set, sy == self.symbols@, m == self.max_symbol,
            vx_self.same_names(&self), vx_self.bwf(), names_done(rs, &self), nprod(rs) <= 65536,
            it0.pos() <= it0.seq().len(), it0.seq().len() == nprod(rs),
            forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == rs.production_rules@[i],
            vx_self.next() == m + 1 + ptemps(rs, it0.pos()),
            built(vx_self.rules@, rs, it0.pos(), sy, m + 1),
            all_named(rs, it0.pos() as int, sy),
        decreases it0.seq().len() - it0.pos(),
//@at start
    let ghost rs = self.rule_set;
    let ghost sy = self.symbols@;
    let ghost m = self.max_symbol;
//@at loop 0 start
    let ghost k = it0.pos() - 1;
    let ghost r1 = vx_self.rules@;
    proof {
        assert(*rule == rs.production_rules@[k]);
        assert(rule.inner.name == pname(rs, k));
        assert(prod_sym(rs, k, sy));
        assert(rule.inner.pattern == ppat(rs, k));
        lemma_ptemps(rs, (k + 1) as nat, nprod(rs));
    }
//@at loop 0 end
    proof {
        lemma_built(vx_self.rules@, r1, rs, (k + 1) as nat, sy, m + 1);
    }
//@at loop 0 after
    proof {
        assert forall|i: int| 0 <= i < nprod(rs) && #[trigger] pname(rs, i) == ename(rs) implies sy.contains_key(ename(rs)) by { assert(prod_sym(rs, i, sy)); }
    }
//@loop 1
        invariant_except_break
            acc0 is None, forall|i: int| 0 <= i < it1.pos() ==> #[trigger] pname(rs, i) != ename(rs),
        invariant
            entry_name == ename(rs),
            it1.pos() <= it1.seq().len(), it1.seq().len() == nprod(rs),
            forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == rs.production_rules@[i],
        ensures
            acc0 matches Some(p) ==> exists|i: int| 0 <= i < nprod(rs) && #[trigger] pname(rs, i) == ename(rs) && p == &rs.production_rules@[i],
            acc0 is None ==> forall|i: int| 0 <= i < nprod(rs) ==> #[trigger] pname(rs, i) != ename(rs),
        decreases it1.seq().len() - it1.pos(),
//@at loop 1 start
    proof { 
        assert(it1.seq()[it1.pos() - 1] == e0);
        axiom_str_text(pname(rs, it1.pos() - 1), ename(rs)); }
//@end

// ---- what the other analyses take from grammar construction (Grammar::wf) ---------------------------
// the front end builds no empty sequence (its parser asks for at least one element)
pub open spec fn full(p: ProductionPattern) -> bool
    decreases p,
{
    match p {
        ProductionPattern::Sequence { elements } => elements@.len() > 0 && full_all(elements@, elements@.len()),
        ProductionPattern::Alternative { elements } => full_all(elements@, elements@.len()),
        ProductionPattern::OneOrMany { inner } => full(*inner),
        ProductionPattern::ZeroOrMany { inner } => full(*inner),
        ProductionPattern::Optional { inner } => full(*inner),
        _ => true,
    }
}
pub open spec fn full_all(s: Seq<ProductionPattern>, k: nat) -> bool
    decreases s, k,
{ if k == 0 || k > s.len() { true } else { full_all(s, (k - 1) as nat) && full(s[k - 1]) } }

// a symbol a right-hand side may have: named, empty, or anonymous with a number in lo..hi
pub open spec fn sym_of(s: Symbol, sy: Names, lo: int, hi: int) -> bool {
    s == Symbol::Epsilon || (exists|q: &str| #[trigger] sy.contains_key(q) && sy[q] == s) || (exists|i: int| lo <= i < hi && s == #[trigger] nt(i))
}
pub open spec fn str_of(a: Seq<Symbol>, sy: Names, lo: int, hi: int) -> bool {
    a.len() > 0 && forall|i: int| 0 <= i < a.len() ==> sym_of(#[trigger] a[i], sy, lo, hi)
}
pub open spec fn rls_of(r: Seq<GRule>, sy: Names, lo: int, hi: int) -> bool {
    forall|i: int| 0 <= i < r.len() ==> lo <= (#[trigger] r[i]).0 < hi && str_of(r[i].1, sy, lo, hi)
}
pub proof fn lemma_of_wider(a: Seq<Symbol>, r: Seq<GRule>, sy: Names, lo: int, hi: int, lo2: int, hi2: int)
    requires lo2 <= lo, hi <= hi2,
    ensures str_of(a, sy, lo, hi) ==> str_of(a, sy, lo2, hi2), rls_of(r, sy, lo, hi) ==> rls_of(r, sy, lo2, hi2),
{
    assert forall|s: Symbol| #[trigger] sym_of(s, sy, lo, hi) implies sym_of(s, sy, lo2, hi2) by {}
    assert forall|b: Seq<Symbol>| #[trigger] str_of(b, sy, lo, hi) implies str_of(b, sy, lo2, hi2) by {}
}
pub proof fn lemma_of(p: ProductionPattern, sy: Names, n: int)
    requires full(p), named(p, sy),
    ensures str_of(outp(p, sy, n), sy, n, n + temps(p)), rls_of(rls(p, sy, n), sy, n, n + temps(p)),
    decreases p, 0nat,
{
    let hi = n + temps(p);
    match p {
        ProductionPattern::Sequence { elements } => { lemma_of_cat(elements@, elements@.len(), sy, n); }
        ProductionPattern::Alternative { elements } => { lemma_of_alt(elements@, elements@.len(), sy, n); assert(sym_of(nt(n), sy, n, hi)); }
        ProductionPattern::OneOrMany { inner } => { lemma_of_inner(p, *inner, sy, n); }
        ProductionPattern::ZeroOrMany { inner } => { lemma_of_inner(p, *inner, sy, n); }
        ProductionPattern::Optional { inner } => { lemma_of_inner(p, *inner, sy, n); }
        ProductionPattern::Rule { rule_name } => { assert(sy.contains_key(rule_name)); }
        ProductionPattern::Epsilon => {}
    }
}
pub proof fn lemma_of_inner(p: ProductionPattern, q: ProductionPattern, sy: Names, n: int)
    requires decreases_to!(p => q), full(q), named(q, sy), temps(p) == 1 + temps(q),
    ensures
        str_of(outp(q, sy, n + 1), sy, n, n + temps(p)), str_of(outp(q, sy, n + 1).push(nt(n)), sy, n, n + temps(p)),
        rls_of(rls(q, sy, n + 1), sy, n, n + temps(p)), sym_of(nt(n), sy, n, n + temps(p)),
    decreases q, 1nat,
{
    lemma_of(q, sy, n + 1);
    lemma_of_wider(outp(q, sy, n + 1), rls(q, sy, n + 1), sy, n + 1, n + 1 + temps(q), n, n + temps(p));
    assert(nt(n) == nt(n));
}
pub proof fn lemma_of_cat(s: Seq<ProductionPattern>, k: nat, sy: Names, n: int)
    requires k <= s.len(), full_all(s, k), named_all(s, k, sy),
    ensures
        k > 0 ==> str_of(cat(s, k, sy, n), sy, n, n + temps_sum(s, k)), k == 0 ==> cat(s, k, sy, n).len() == 0,
        rls_of(rls_cat(s, k, sy, n), sy, n, n + temps_sum(s, k)),
    decreases s, k,
{
    if k > 0 {
        let j = (k - 1) as nat;
        let m = n + temps_sum(s, j);
        lemma_of_cat(s, j, sy, n);
        lemma_of(s[k - 1], sy, m);
        lemma_of_wider(cat(s, j, sy, n), rls_cat(s, j, sy, n), sy, n, m, n, n + temps_sum(s, k));
        lemma_of_wider(outp(s[k - 1], sy, m), rls(s[k - 1], sy, m), sy, m, m + temps(s[k - 1]), n, n + temps_sum(s, k));
    }
}
pub proof fn lemma_of_alt(s: Seq<ProductionPattern>, k: nat, sy: Names, n: int)
    requires k <= s.len(), full_all(s, k), named_all(s, k, sy),
    ensures rls_of(rls_alt(s, k, sy, n), sy, n, n + 1 + temps_sum(s, k)),
    decreases s, k,
{
    if k > 0 {
        let j = (k - 1) as nat;
        let m = n + 1 + temps_sum(s, j);
        let hi = n + 1 + temps_sum(s, k);
        lemma_of_alt(s, j, sy, n);
        lemma_of(s[k - 1], sy, m);
        lemma_of_wider(seq![], rls_alt(s, j, sy, n), sy, n, m, n, hi);
        lemma_of_wider(outp(s[k - 1], sy, m), rls(s[k - 1], sy, m), sy, m, m + temps(s[k - 1]), n, hi);
    }
}
pub open spec fn all_full(rs: &RuleSet) -> bool { forall|i: int| 0 <= i < nprod(rs) ==> full(#[trigger] ppat(rs, i)) }
pub proof fn lemma_built_of(g: &Grammar, r: Seq<Rule>, rs: &RuleSet, k: nat, sy: Names, n: int, i: int)
    requires
        built(r, rs, k, sy, n), k <= nprod(rs), all_named(rs, nprod(rs) as int, sy), all_full(rs), 0 <= i < r.len(), n >= 0, n + ptemps(rs, k) <= 65536,
        forall|i: int| 0 <= i < nprod(rs) ==> #[trigger] prod_sym(rs, i, sy),
        forall|q: &str| #[trigger] sy.contains_key(q) ==> sym_wf(g, sy[q]),
        forall|j: int| n <= j < n + ptemps(rs, k) ==> g.nts().contains(#[trigger] nt(j)),
    ensures rule_wf(g, r[i]),
    decreases k,
{
    let m = nrules(rs, (k - 1) as nat, sy, n) as int;
    lemma_ptemps(rs, (k - 1) as nat, k);
    if i < m {
        assert(r.take(m)[i] == r[i]);
        lemma_built_of(g, r.take(m), rs, (k - 1) as nat, sy, n, i);
    } else {
        let lo = n + ptemps(rs, (k - 1) as nat);
        let p = ppat(rs, k - 1);
        let hi = lo + temps(p);
        lemma_of(p, sy, lo);
        let s = sy[pname(rs, k - 1)];
        assert(prod_sym(rs, k - 1, sy));
        let add = prule_at(rs, k - 1, sy, n);
        assert(r.take(m).len() == m);
        let w = add[i - m];
        assert(rule_states(r[i], w));
        assert(str_of(w.1, sy, lo, hi)) by { if i - m < rls(p, sy, lo).len() { assert(w == rls(p, sy, lo)[i - m]); } }
        assert forall|j: int| 0 <= j < w.1.len() implies sym_wf(g, #[trigger] w.1[j]) by { assert(sym_of(w.1[j], sy, lo, hi)); }
        if i - m < rls(p, sy, lo).len() {
            assert(w == rls(p, sy, lo)[i - m]);
            assert(g.nts().contains(nt(w.0)));
        } else {
            assert(w.0 == s->NonTerminal_0 as int);
            assert(sym_wf(g, s));
        }
    }
}
pub proof fn lemma_wf(rs: &RuleSet, g: &Grammar, sy: Names, m: u16)
    requires gram_of(rs, g, sy, m), all_full(rs),
    ensures g.wf(),
{
    let n = m + 1;
    let h = ptemps(rs, nprod(rs));
    let po = vx_order(g.productions@.dom());
    let an = g.anonymous_non_terminals@;
    assert forall|q: &str| #[trigger] sy.contains_key(q) implies sym_wf(g, sy[q]) by {
        if exists|i: int| 0 <= i < ntok(rs) && #[trigger] tname(rs, i) == q {
            let i = choose|i: int| 0 <= i < ntok(rs) && #[trigger] tname(rs, i) == q;
            assert(g.tokens@.contains_key(tsym(i)));
            assert(vx_order(g.tokens@.dom()).contains(tsym(i)));
        } else {
            assert(key_known(rs, ntok(rs) as int, nprod(rs) as int, q));
            let i = choose|i: int| 0 <= i < nprod(rs) && #[trigger] pname(rs, i) == q;
            assert(prod_sym(rs, i, sy));
            let j = sy[q]->NonTerminal_0 as int;
            assert(pname(rs, j) == q && sy[pname(rs, j)] == nt(j));
            assert(po.contains(nt(j)));
            let x = choose|x: int| 0 <= x < po.len() && po[x] == nt(j);
            assert(g.nts()[x] == nt(j));
        }
    }
    assert forall|j: int| n <= j < n + h implies g.nts().contains(#[trigger] nt(j)) by {
        assert(an[j - n] == nt(j));
        assert(g.nts()[po.len() + (j - n)] == nt(j));
    }
    assert forall|i: int| 0 <= i < g.rules@.len() implies rule_wf(g, #[trigger] g.rules@[i]) by { lemma_built_of(g, g.rules@, rs, nprod(rs), sy, n, i); }
    assert forall|i: int| 0 <= i < g.nts().len() implies is_nt(#[trigger] g.nts()[i]) by {
        if i < po.len() { assert(g.productions@.contains_key(po[i])); }
    }
    assert forall|i: int| 0 <= i < g.ts().len() implies (#[trigger] g.ts()[i]) is Terminal by { assert(g.tokens@.contains_key(vx_order(g.tokens@.dom())[i])); }
    assert forall|i: int, j: int| 0 <= i < j < g.nts().len() implies g.nts()[i] != g.nts()[j] by {
        if i < po.len() {
            if j >= po.len() {
                let q = po[i];
                assert(g.productions@.contains_key(q));
                let name = pname(rs, q->NonTerminal_0 as int);
                assert(prod_sym(rs, q->NonTerminal_0 as int, sy));
                assert(sy.contains_key(name) && sy[name] == q);
                assert(sidx(sy[name]) <= m);
                assert(an[j - po.len()] == nt(n + (j - po.len())));
            }
        } else {
            assert(an[i - po.len()] == nt(n + (i - po.len())));
            assert(an[j - po.len()] == nt(n + (j - po.len())));
        }
    }
    let i = choose|i: int| 0 <= i < nprod(rs) && #[trigger] pname(rs, i) == ename(rs) && g.entry_rule.rule == &rs.production_rules@[i]
        && g.entry_symbol == sy[ename(rs)] && g.entry_rule.lhs is None && g.entry_rule.rhs@ == seq![g.entry_symbol];
    assert(prod_sym(rs, i, sy));
    assert(sym_wf(g, sy[ename(rs)]));
}
//@fn lapex-parser/src/grammar.rs Grammar::from_rule_set
//@spec
    ensures
        r matches Ok(g) ==> exists|sy: Names, m: u16| gram_of(rule_set, &g, sy, m),
        r matches Ok(g) ==> (all_full(rule_set) ==> g.wf()),
        r matches Err(e) ==> clash(rule_set, e) || (e == GrammarError::TooManyRules && (ntok(rule_set) > 65536 || nprod(rule_set) > 65536))
            || exists|sy: Names, m: u16| syms_ok(rule_set, ntok(rule_set) as int, nprod(rule_set) as int, sy) && max_ok(rule_set, sy, m) && build_err(rule_set, e, sy, m),
//@at end
    proof {
        if vx_ret is Ok {
            let g = vx_ret->Ok_0;
            let (sy, m) = choose|sy: Names, m: u16| gram_of(rule_set, &g, sy, m);
            if all_full(rule_set) { lemma_wf(rule_set, &g, sy, m); }
        }
    }
//@end
