// ---- what a parsed grammar file says --------------------------------------------------------------
// Production patterns up to nesting of sequences in sequences and alternatives in alternatives, and up to
// the order of alternatives: a normal form. The alternatives are a bag, written as one fixed listing of it.
pub enum GP { Name(Seq<char>), Sq(Seq<GP>), Al(Seq<GP>), Eps, Opt(Box<GP>), Star(Box<GP>), Plus(Box<GP>) }
pub open spec fn nsq(p: GP) -> Seq<GP> { match p { GP::Sq(s) => s, _ => seq![p] } }
pub open spec fn nal(p: GP) -> Seq<GP> { match p { GP::Al(s) => s, _ => seq![p] } }
pub open spec fn bag(m: Multiset<GP>) -> Seq<GP> { choose|t: Seq<GP>| t.to_multiset() == m }
pub open spec fn mksq(s: Seq<GP>) -> GP { GP::Sq(s) }
pub open spec fn mkal(s: Seq<GP>) -> GP { GP::Al(bag(s.to_multiset())) }

pub open spec fn nf(p: ProductionPattern) -> GP
    decreases p,
{
    match p {
        ProductionPattern::Sequence { elements } => mksq(fsq(elements@, elements@.len())),
        ProductionPattern::Alternative { elements } => mkal(fal(elements@, elements@.len())),
        ProductionPattern::Epsilon => GP::Eps,
        ProductionPattern::OneOrMany { inner } => GP::Plus(Box::new(nf(*inner))),
        ProductionPattern::ZeroOrMany { inner } => GP::Star(Box::new(nf(*inner))),
        ProductionPattern::Optional { inner } => GP::Opt(Box::new(nf(*inner))),
        ProductionPattern::Rule { rule_name } => GP::Name(rule_name@),
    }
}
pub open spec fn fsq(s: Seq<ProductionPattern>, n: nat) -> Seq<GP>
    decreases s, n,
{ if n == 0 || n > s.len() { Seq::empty() } else { fsq(s, (n - 1) as nat) + nsq(nf(s[n - 1])) } }
pub open spec fn fal(s: Seq<ProductionPattern>, n: nat) -> Seq<GP>
    decreases s, n,
{ if n == 0 || n > s.len() { Seq::empty() } else { fal(s, (n - 1) as nat) + nal(nf(s[n - 1])) } }

pub proof fn lemma_bag(s: Seq<GP>)
    ensures bag(s.to_multiset()).to_multiset() == s.to_multiset(), bag(s.to_multiset()).len() == s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let m = s.to_multiset();
    assert((|t: Seq<GP>| t.to_multiset() == m)(s));
    let t = bag(s.to_multiset());
    assert(t.to_multiset().len() == t.len());
    assert(s.to_multiset().len() == s.len());
}
pub proof fn lemma_fsq_front(x: ProductionPattern, s: Seq<ProductionPattern>, n: nat)
    requires n <= s.len(),
    ensures fsq(s.insert(0, x), n + 1) == nsq(nf(x)) + fsq(s, n),
    decreases n,
{
    let t = s.insert(0, x);
    if n == 0 { assert(t[0] == x); assert(fsq(t, 0) =~= Seq::empty()); assert(fsq(t, 1) =~= nsq(nf(x))); assert(fsq(s, 0) =~= Seq::empty()); assert(fsq(t, 1) =~= nsq(nf(x)) + fsq(s, 0)); }
    else {
        lemma_fsq_front(x, s, (n - 1) as nat);
        assert(t[n as int] == s[n - 1]);
        assert(fsq(t, n + 1) =~= fsq(t, n) + nsq(nf(s[n - 1])));
        assert(fsq(t, n + 1) =~= nsq(nf(x)) + fsq(s, n));
    }
}
pub proof fn lemma_fal_prefix(s: Seq<ProductionPattern>, t: Seq<ProductionPattern>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i],
    ensures fal(s, n) == fal(t, n), fsq(s, n) == fsq(t, n),
    decreases n,
{ if n > 0 { lemma_fal_prefix(s, t, (n - 1) as nat); assert(s[n - 1] == t[n - 1]); } }
pub proof fn lemma_fal_push(x: ProductionPattern, s: Seq<ProductionPattern>)
    ensures fal(s.push(x), s.len() + 1) == fal(s, s.len()) + nal(nf(x)),
{ lemma_fal_prefix(s.push(x), s, s.len()); assert(s.push(x)[s.len() as int] == x); }
// the bag of two listings put together
pub proof fn lemma_bag_cat(a: Seq<GP>, b: Seq<GP>, c: Seq<GP>, d: Seq<GP>)
    requires a.to_multiset() == c.to_multiset(), b.to_multiset() == d.to_multiset(),
    ensures (a + b).to_multiset() == (d + c).to_multiset(), (a + b).len() == (d + c).len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    vstd::seq_lib::lemma_multiset_commutative(a, b);
    vstd::seq_lib::lemma_multiset_commutative(d, c);
    assert((a + b).to_multiset() =~= (d + c).to_multiset());
    assert((a + b).to_multiset().len() == (a + b).len());
    assert((d + c).to_multiset().len() == (d + c).len());
}
// one more concatenation in front of alternatives
pub open spec fn alt2(c: GP, a: GP) -> GP { mkal(nal(c) + nal(a)) }
pub open spec fn seq2(u: GP, c: GP) -> GP { mksq(nsq(u) + nsq(c)) }
pub proof fn lemma_conc(u: ProductionPattern, c: ProductionPattern, p: ProductionPattern)
    requires
        p is Sequence,
        (c is Sequence && p->Sequence_elements@ == c->Sequence_elements@.insert(0, u)) || p->Sequence_elements@ == seq![u, c],
    ensures nf(p) == seq2(nf(u), nf(c)),
{
    let e = p->Sequence_elements@;
    if c is Sequence && e == c->Sequence_elements@.insert(0, u) {
        lemma_fsq_front(u, c->Sequence_elements@, c->Sequence_elements@.len());
    } else {
        assert(fsq(e, 0) =~= Seq::empty());
        assert(fsq(e, 1) =~= nsq(nf(u)));
        assert(fsq(e, 2) =~= nsq(nf(u)) + nsq(nf(c)));
    }
}
pub proof fn lemma_alt(c: ProductionPattern, a: ProductionPattern, p: ProductionPattern)
    requires
        p is Alternative,
        (a is Alternative && p->Alternative_elements@ == a->Alternative_elements@.push(c)) || p->Alternative_elements@ == seq![a, c]
        || (a is Alternative && p->Alternative_elements@ == a->Alternative_elements@.insert(0, c)) || p->Alternative_elements@ == seq![c, a],
    ensures nf(p) == alt2(nf(c), nf(a)),
{
    let e = p->Alternative_elements@;
    let n = nal(nf(c));
    assert(fal(e, 0) =~= Seq::empty());
    assert(e.len() == 2 ==> fal(e, 1) =~= nal(nf(e[0])) && fal(e, 2) =~= nal(nf(e[0])) + nal(nf(e[1])));
    let m = nal(nf(a));
    lemma_bag(m);
    if a is Alternative {
        let f = fal(a->Alternative_elements@, a->Alternative_elements@.len());
        lemma_bag(f);
        assert(m == bag(f.to_multiset()));
        lemma_fal_push(c, a->Alternative_elements@);
        lemma_fal_front(c, a->Alternative_elements@, a->Alternative_elements@.len());
        lemma_bag_cat(f, n, m, n);
        lemma_bag_cat(n, f, n, m);
    }
    lemma_bag_cat(m, n, m, n);
    lemma_bag_cat(n, m, n, m);
}
pub proof fn lemma_fal_front(x: ProductionPattern, s: Seq<ProductionPattern>, n: nat)
    requires n <= s.len(),
    ensures fal(s.insert(0, x), n + 1) == nal(nf(x)) + fal(s, n),
    decreases n,
{
    let t = s.insert(0, x);
    if n == 0 { assert(t[0] == x); assert(fal(t, 0) =~= Seq::empty()); assert(fal(t, 1) =~= nal(nf(x))); assert(fal(s, 0) =~= Seq::empty()); assert(fal(t, 1) =~= nal(nf(x)) + fal(s, 0)); }
    else {
        lemma_fal_front(x, s, (n - 1) as nat);
        assert(t[n as int] == s[n - 1]);
        assert(fal(t, n + 1) =~= fal(t, n) + nal(nf(s[n - 1])));
        assert(fal(t, n + 1) =~= nal(nf(x)) + fal(s, n));
    }
}

// ---- rules ---------------------------------------------------------------------------------------
pub enum GTok { Lit(Seq<char>), Re(CL) }
pub enum GR { Token { name: Seq<char>, prec: Option<u16>, pat: GTok }, Prod { name: Seq<char>, tag: Option<Seq<char>>, pat: GP }, Entry { name: Seq<char> } }
pub type GRS = (GR, SourceSpan);
pub open spec fn oseq(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn gtok(p: TokenPattern) -> GTok {
    match p { TokenPattern::Literal { characters } => GTok::Lit(characters@), TokenPattern::Pattern { pattern } => GTok::Re(plang(pattern)) }
}
pub open spec fn gr_token(r: TokenRule) -> GR { GR::Token { name: r.name@, prec: r.precedence, pat: gtok(r.pattern) } }
pub open spec fn gr_prod(r: ProductionRule) -> GR { GR::Prod { name: r.name@, tag: oseq(r.tag), pat: nf(r.pattern) } }
pub open spec fn gr_entry(r: EntryRule) -> GR { GR::Entry { name: r.name@ } }
pub open spec fn gr(r: Rule) -> GR {
    match r { Rule::TokenRule(t) => gr_token(t), Rule::ProductionRule(p) => gr_prod(p), Rule::EntryRule(e) => gr_entry(e) }
}
pub open spec fn grs(r: Spanned<Rule>) -> GRS { (gr(r.inner), r.span) }
pub open spec fn rules_view(s: Seq<Spanned<Rule>>) -> Seq<GRS> { Seq::new(s.len(), |i: int| grs(s[i])) }

// ---- the visitor's stack ----------------------------------------------------------------------------
pub enum GE { Tok(Seq<char>, SourceSpan), Rule(GR, SourceSpan), Tag(Option<Seq<char>>), Pat(GP), Rules(Multiset<GRS>), Prec(Option<u16>) }
pub open spec fn ge(e: Spanned<Ast>) -> GE {
    match e.inner {
        Ast::Token(t) => GE::Tok(t@, e.span),
        Ast::Rule(r) => GE::Rule(gr(r), e.span),
        Ast::Tag(o) => GE::Tag(oseq(o)),
        Ast::Pattern(p) => GE::Pat(nf(p)),
        Ast::Rules(v) => GE::Rules(rules_view(v@).to_multiset()),
        Ast::Precedence(o) => GE::Prec(o),
    }
}
pub open spec fn sv(s: Seq<Spanned<Ast>>) -> Seq<GE> { Seq::new(s.len(), |i: int| ge(s[i])) }
pub open spec fn spans(a: SourceSpan, b: SourceSpan) -> SourceSpan { SourceSpan { start: a.start, end: b.end } }

// a token as the parser sees it
pub struct GTk { pub ty: TokenType, pub text: Seq<char>, pub span: SourceSpan }
pub open spec fn tok_rule_pat(t: Seq<char>) -> Option<GTok> {
    if t.len() < 2 || t[0] != t.last() { None }
    else if t[0] == '"' { Some(GTok::Lit(inside(t))) }
    else if t[0] == '/' { match hir_of(inside(t)) { Some(h) => if hbad(h) { None } else { Some(GTok::Re(hlang(h))) }, None => None } }
    else { None }
}
// what the parser calls
pub enum Call {
    Shift(GTk), Nop, EntryRule, ProdRule, TokenRule, Precedence, NoPrecedence, Tag, NoTag, Nothing, Alternative, Concatenation,
    Optional, OneOrMany, ZeroOrMany, Item, Group, Rules1, Rules2,
}
pub open spec fn tp(s: Seq<GE>, k: int) -> GE { s[s.len() - 1 - k] }
pub open spec fn cut(s: Seq<GE>, n: int, e: GE) -> Option<Seq<GE>> { Some(s.take(s.len() - n).push(e)) }
// what each call does to the stack (None: the stack is not in a state the call is made in)
pub open spec fn vstep(s: Seq<GE>, c: Call) -> Option<Seq<GE>> {
    match c {
        Call::Shift(t) => Some(s.push(GE::Tok(t.text, t.span))),
        Call::Nop => Some(s),
        Call::NoTag => Some(s.push(GE::Tag(None))),
        Call::NoPrecedence => Some(s.push(GE::Prec(None))),
        Call::EntryRule => if s.len() < 3 { None } else { match (tp(s, 2), tp(s, 1), tp(s, 0)) {
            (GE::Tok(_, a), GE::Tok(n, _), GE::Tok(_, z)) => cut(s, 3, GE::Rule(GR::Entry { name: n }, spans(a, z))), _ => None } },
        Call::ProdRule => if s.len() < 6 { None } else { match (tp(s, 5), tp(s, 4), tp(s, 3), tp(s, 1), tp(s, 0)) {
            (GE::Tok(_, a), GE::Tok(n, _), GE::Tag(o), GE::Pat(p), GE::Tok(_, z)) => cut(s, 6, GE::Rule(GR::Prod { name: n, tag: o, pat: p }, spans(a, z))), _ => None } },
        Call::TokenRule => if s.len() < 6 { None } else { match (tp(s, 5), tp(s, 4), tp(s, 3), tp(s, 1), tp(s, 0)) {
            (GE::Tok(_, a), GE::Tok(n, _), GE::Prec(o), GE::Tok(t, _), GE::Tok(_, z)) => match tok_rule_pat(t) {
                Some(p) => cut(s, 6, GE::Rule(GR::Token { name: n, prec: o, pat: p }, spans(a, z))), None => None }, _ => None } },
        Call::Precedence => if s.len() < 3 { None } else { match (tp(s, 2), tp(s, 1), tp(s, 0)) {
            (GE::Tok(_, _), GE::Tok(t, _), GE::Tok(_, _)) => if isdec(t) && decval(t) <= 65535 { cut(s, 3, GE::Prec(Some(decval(t) as u16))) } else { None }, _ => None } },
        Call::Tag => if s.len() < 3 { None } else { match (tp(s, 2), tp(s, 1), tp(s, 0)) {
            (GE::Tok(_, _), GE::Tok(t, _), GE::Tok(_, _)) => cut(s, 3, GE::Tag(Some(t))), _ => None } },
        Call::Nothing => if s.len() < 1 { None } else { match tp(s, 0) { GE::Tok(_, _) => cut(s, 1, GE::Pat(GP::Eps)), _ => None } },
        Call::Item => if s.len() < 1 { None } else { match tp(s, 0) { GE::Tok(t, _) => cut(s, 1, GE::Pat(GP::Name(t))), _ => None } },
        Call::Group => if s.len() < 3 { None } else { match (tp(s, 2), tp(s, 1), tp(s, 0)) {
            (GE::Tok(_, _), GE::Pat(p), GE::Tok(_, _)) => cut(s, 3, GE::Pat(p)), _ => None } },
        Call::Optional => if s.len() < 2 { None } else { match (tp(s, 1), tp(s, 0)) { (GE::Pat(p), GE::Tok(_, _)) => cut(s, 2, GE::Pat(GP::Opt(Box::new(p)))), _ => None } },
        Call::OneOrMany => if s.len() < 2 { None } else { match (tp(s, 1), tp(s, 0)) { (GE::Pat(p), GE::Tok(_, _)) => cut(s, 2, GE::Pat(GP::Plus(Box::new(p)))), _ => None } },
        Call::ZeroOrMany => if s.len() < 2 { None } else { match (tp(s, 1), tp(s, 0)) { (GE::Pat(p), GE::Tok(_, _)) => cut(s, 2, GE::Pat(GP::Star(Box::new(p)))), _ => None } },
        Call::Alternative => if s.len() < 3 { None } else { match (tp(s, 2), tp(s, 1), tp(s, 0)) {
            (GE::Pat(c), GE::Tok(_, _), GE::Pat(a)) => cut(s, 3, GE::Pat(alt2(c, a))), _ => None } },
        Call::Concatenation => if s.len() < 2 { None } else { match (tp(s, 1), tp(s, 0)) { (GE::Pat(u), GE::Pat(c)) => cut(s, 2, GE::Pat(seq2(u, c))), _ => None } },
        Call::Rules1 => if s.len() < 1 { None } else { match tp(s, 0) { GE::Rule(r, p) => cut(s, 1, GE::Rules(Multiset::singleton((r, p)))), _ => None } },
        Call::Rules2 => if s.len() < 2 { None } else { match (tp(s, 1), tp(s, 0)) { (GE::Rule(r, p), GE::Rules(m)) => cut(s, 2, GE::Rules(m.insert((r, p)))), _ => None } },
    }
}
pub open spec fn vdo(s: Seq<Spanned<Ast>>, c: Call, t: Seq<Spanned<Ast>>) -> bool { vstep(sv(s), c) == Some(sv(t)) }
pub open spec fn vok(s: Seq<Spanned<Ast>>, c: Call) -> bool { vstep(sv(s), c) is Some }
pub proof fn lemma_sv_push(s: Seq<Spanned<Ast>>, n: int, e: Spanned<Ast>)
    requires 0 <= n <= s.len(),
    ensures sv(s.take(n).push(e)) == sv(s).take(n).push(ge(e)),
{ assert(sv(s.take(n).push(e)) =~= sv(s).take(n).push(ge(e))); }
pub proof fn lemma_rules_one(s: Seq<Spanned<Rule>>)
    requires s.len() == 1,
    ensures rules_view(s).to_multiset() == Multiset::singleton(grs(s[0])),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(rules_view(s) =~= Seq::empty().push(grs(s[0])));
    assert(rules_view(s).to_multiset() =~= Multiset::singleton(grs(s[0])));
}
pub proof fn lemma_rules_more(s: Seq<Spanned<Rule>>, t: Seq<Spanned<Rule>>)
    requires t.len() == s.len() + 1, forall|i: int| 0 <= i < s.len() ==> s[i] == t[i],
    ensures rules_view(t).to_multiset() == rules_view(s).to_multiset().insert(grs(t.last())),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(rules_view(t) =~= rules_view(s).push(grs(t.last())));
}
