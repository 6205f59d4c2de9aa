// ---- grammar files as derivations of lapex.lapex -----------------------------------------------------
//@text lapex-input-gen/src/lapex.lapex
// token KW_TOKEN = "token";
// token KW_ENTRY = "entry";
// token KW_PROD = "prod";
// token EQUALS = "=";
// token SEMI = ";";
// token LPAR = "(";
// token RPAR = ")";
// token LBRACK = "[";
// token RBRACK = "]";
// token DIGIT = /(0|[1-9][0-9]*)/;
// token QUESTION = "?";
// token NOTHING = "!";
// token ASTERISK = "*";
// token PLUS = "+";
// token PIPE = "|";
// token IDENT = /[a-zA-Z][a-zA-Z0-9_]*/;
// token STRING = /"([^"\\\n]|\\.)*"/;
// token REGEX = /\/([^\/\\\n]|\\.)*\//;
// token WHITESPACE = /[ \t]+/;
// token NEWLINE = /[\n]/;
// 
// entry rules;
// prod rules = rule;
// prod rules = rule rules;
// prod rule = entry_rule;
// prod rule = prod_rule;
// prod rule = token_rule;
// prod entry_rule = KW_ENTRY IDENT SEMI;
// prod prod_rule = KW_PROD IDENT (tag)? EQUALS pattern SEMI;
// prod token_rule = KW_TOKEN IDENT (precedence)? EQUALS string_or_regex SEMI;
// prod precedence = LBRACK DIGIT RBRACK;
// prod tag = LBRACK IDENT RBRACK;
// prod string_or_regex = REGEX;
// prod string_or_regex = STRING;
// prod pattern = alternative;
// prod pattern = NOTHING;
// prod alternative = concatenation PIPE alternative;
// prod alternative = concatenation;
// prod concatenation = unary concatenation;
// prod concatenation = unary;
// prod unary = option;
// prod unary = repetition_one;
// prod unary = repetition_zero;
// prod unary = item;
// prod option = item QUESTION;
// prod repetition_zero = item ASTERISK;
// prod repetition_one = item PLUS;
// prod item = IDENT;
// prod item = LPAR pattern RPAR;
//@end
pub enum TPat { Alt(Box<TAlt>), Nothing(GTk) }
pub enum TAlt { More(TConc, GTk, Box<TAlt>), One(TConc) }
pub enum TConc { More(TUn, Box<TConc>), One(TUn) }
pub enum TUn { Opt(TItem, GTk), Plus(TItem, GTk), Star(TItem, GTk), One(TItem) }
pub enum TItem { Name(GTk), Group(GTk, Box<TPat>, GTk) }
pub struct TBr { pub l: GTk, pub x: GTk, pub r: GTk }
pub enum TRule {
    Entry(GTk, GTk, GTk),
    Prod(GTk, GTk, Option<TBr>, GTk, TPat, GTk),
    Token(GTk, GTk, Option<TBr>, GTk, GTk, GTk),
}
pub enum TRules { One(TRule), More(TRule, Box<TRules>) }

// the tokens of a derivation, in order
pub open spec fn yp(p: TPat) -> Seq<GTk>
    decreases p,
{ match p { TPat::Alt(a) => ya(*a), TPat::Nothing(t) => seq![t] } }
pub open spec fn ya(a: TAlt) -> Seq<GTk>
    decreases a,
{ match a { TAlt::More(c, t, b) => yc(c) + seq![t] + ya(*b), TAlt::One(c) => yc(c) } }
pub open spec fn yc(c: TConc) -> Seq<GTk>
    decreases c,
{ match c { TConc::More(u, d) => yu(u) + yc(*d), TConc::One(u) => yu(u) } }
pub open spec fn yu(u: TUn) -> Seq<GTk>
    decreases u,
{ match u { TUn::Opt(i, t) => yi(i) + seq![t], TUn::Plus(i, t) => yi(i) + seq![t], TUn::Star(i, t) => yi(i) + seq![t], TUn::One(i) => yi(i) } }
pub open spec fn yi(i: TItem) -> Seq<GTk>
    decreases i,
{ match i { TItem::Name(t) => seq![t], TItem::Group(l, p, r) => seq![l] + yp(*p) + seq![r] } }
pub open spec fn yb(b: Option<TBr>) -> Seq<GTk> { match b { Some(b) => seq![b.l, b.x, b.r], None => Seq::empty() } }
pub open spec fn yr(r: TRule) -> Seq<GTk> {
    match r {
        TRule::Entry(a, b, c) => seq![a, b, c],
        TRule::Prod(a, b, o, e, p, z) => seq![a, b] + yb(o) + seq![e] + yp(p) + seq![z],
        TRule::Token(a, b, o, e, t, z) => seq![a, b] + yb(o) + seq![e, t, z],
    }
}
pub open spec fn yrs(r: TRules) -> Seq<GTk>
    decreases r,
{ match r { TRules::One(x) => yr(x), TRules::More(x, y) => yr(x) + yrs(*y) } }

// the tokens are of the right kinds, and the numbers and expressions can be read
pub open spec fn is_ty(t: GTk, k: TokenType) -> bool { t.ty == k }
pub open spec fn wp(p: TPat) -> bool
    decreases p,
{ match p { TPat::Alt(a) => wa(*a), TPat::Nothing(t) => t.ty is TkNothing } }
pub open spec fn wa(a: TAlt) -> bool
    decreases a,
{ match a { TAlt::More(c, t, b) => wc(c) && t.ty is TkPipe && wa(*b), TAlt::One(c) => wc(c) } }
pub open spec fn wc(c: TConc) -> bool
    decreases c,
{ match c { TConc::More(u, d) => wu(u) && wc(*d), TConc::One(u) => wu(u) } }
pub open spec fn wu(u: TUn) -> bool
    decreases u,
{
    match u {
        TUn::Opt(i, t) => wi(i) && t.ty is TkQuestion, TUn::Plus(i, t) => wi(i) && t.ty is TkPlus,
        TUn::Star(i, t) => wi(i) && t.ty is TkAsterisk, TUn::One(i) => wi(i),
    }
}
pub open spec fn wi(i: TItem) -> bool
    decreases i,
{ match i { TItem::Name(t) => t.ty is TkIdent, TItem::Group(l, p, r) => l.ty is TkLpar && wp(*p) && r.ty is TkRpar } }
pub open spec fn wr(r: TRule) -> bool {
    match r {
        TRule::Entry(a, b, c) => a.ty is TkKwEntry && b.ty is TkIdent && c.ty is TkSemi,
        TRule::Prod(a, b, o, e, p, z) => a.ty is TkKwProd && b.ty is TkIdent && e.ty is TkEquals && wp(p) && z.ty is TkSemi
            && (o matches Some(b) ==> b.l.ty is TkLbrack && b.x.ty is TkIdent && b.r.ty is TkRbrack),
        TRule::Token(a, b, o, e, t, z) => a.ty is TkKwToken && b.ty is TkIdent && e.ty is TkEquals && (t.ty is TkString || t.ty is TkRegex) && z.ty is TkSemi
            && (o matches Some(b) ==> b.l.ty is TkLbrack && b.x.ty is TkDigit && b.r.ty is TkRbrack)
    }
}
pub open spec fn wrs(r: TRules) -> bool
    decreases r,
{ match r { TRules::One(x) => wr(x), TRules::More(x, y) => wr(x) && wrs(*y) } }

// the numbers fit and the expressions have a meaning
pub open spec fn rd(r: TRule) -> bool {
    match r {
        TRule::Token(a, b, o, e, t, z) => (o matches Some(b) ==> decval(b.x.text) <= 65535)
            && (t.ty is TkRegex ==> (hir_of(inside(t.text)) matches Some(h) && !hbad(h))),
        _ => true,
    }
}
pub open spec fn rds(r: TRules) -> bool
    decreases r,
{ match r { TRules::One(x) => rd(x), TRules::More(x, y) => rd(x) && rds(*y) } }

// what a derivation states
pub open spec fn mp(p: TPat) -> GP
    decreases p,
{ match p { TPat::Alt(a) => ma(*a), TPat::Nothing(t) => GP::Eps } }
pub open spec fn ma(a: TAlt) -> GP
    decreases a,
{ match a { TAlt::More(c, t, b) => alt2(mc(c), ma(*b)), TAlt::One(c) => mc(c) } }
pub open spec fn mc(c: TConc) -> GP
    decreases c,
{ match c { TConc::More(u, d) => seq2(mu(u), mc(*d)), TConc::One(u) => mu(u) } }
pub open spec fn mu(u: TUn) -> GP
    decreases u,
{
    match u {
        TUn::Opt(i, t) => GP::Opt(Box::new(mi(i))), TUn::Plus(i, t) => GP::Plus(Box::new(mi(i))),
        TUn::Star(i, t) => GP::Star(Box::new(mi(i))), TUn::One(i) => mi(i),
    }
}
pub open spec fn mi(i: TItem) -> GP
    decreases i,
{ match i { TItem::Name(t) => GP::Name(t.text), TItem::Group(l, p, r) => mp(*p) } }
pub open spec fn mr(r: TRule) -> GR {
    match r {
        TRule::Entry(a, b, c) => GR::Entry { name: b.text },
        TRule::Prod(a, b, o, e, p, z) => GR::Prod { name: b.text, tag: match o { Some(x) => Some(x.x.text), None => None }, pat: mp(p) },
        TRule::Token(a, b, o, e, t, z) => GR::Token { name: b.text, prec: match o { Some(x) => Some(decval(x.x.text) as u16), None => None },
            pat: if t.ty is TkString { GTok::Lit(inside(t.text)) } else { GTok::Re(hlang(hir_of(inside(t.text))->0)) } },
    }
}
// from the first character of the rule to its last
pub open spec fn rspan(r: TRule) -> SourceSpan { spans(yr(r)[0].span, yr(r).last().span) }
pub open spec fn mrs(r: TRules) -> Multiset<GRS>
    decreases r,
{ match r { TRules::One(x) => Multiset::singleton((mr(x), rspan(x))), TRules::More(x, y) => mrs(*y).insert((mr(x), rspan(x))) } }

// the calls an LR parser makes for a derivation
pub open spec fn sh(t: GTk) -> Seq<Call> { seq![Call::Shift(t)] }
pub open spec fn lp(p: TPat) -> Seq<Call>
    decreases p,
{ match p { TPat::Alt(a) => la(*a).push(Call::Nop), TPat::Nothing(t) => sh(t).push(Call::Nothing) } }
pub open spec fn la(a: TAlt) -> Seq<Call>
    decreases a,
{ match a { TAlt::More(c, t, b) => ((lc_(c) + sh(t)) + la(*b)).push(Call::Alternative), TAlt::One(c) => lc_(c).push(Call::Nop) } }
pub open spec fn lc_(c: TConc) -> Seq<Call>
    decreases c,
{ match c { TConc::More(u, d) => (lu(u) + lc_(*d)).push(Call::Concatenation), TConc::One(u) => lu(u).push(Call::Nop) } }
pub open spec fn lu(u: TUn) -> Seq<Call>
    decreases u,
{
    match u {
        TUn::Opt(i, t) => (li(i) + sh(t)).push(Call::Optional).push(Call::Nop), TUn::Plus(i, t) => (li(i) + sh(t)).push(Call::OneOrMany).push(Call::Nop),
        TUn::Star(i, t) => (li(i) + sh(t)).push(Call::ZeroOrMany).push(Call::Nop), TUn::One(i) => li(i).push(Call::Nop),
    }
}
pub open spec fn li(i: TItem) -> Seq<Call>
    decreases i,
{ match i { TItem::Name(t) => sh(t).push(Call::Item), TItem::Group(l, p, r) => ((sh(l) + lp(*p)) + sh(r)).push(Call::Group) } }
pub open spec fn lb(b: Option<TBr>, some: Call, none: Call) -> Seq<Call> {
    match b { Some(b) => ((sh(b.l) + sh(b.x)) + sh(b.r)).push(some).push(Call::Nop), None => seq![none] }
}
pub open spec fn lr_(r: TRule) -> Seq<Call> {
    match r {
        TRule::Entry(a, b, c) => ((sh(a) + sh(b)) + sh(c)).push(Call::EntryRule).push(Call::Nop),
        TRule::Prod(a, b, o, e, p, z) => (((((sh(a) + sh(b)) + lb(o, Call::Tag, Call::NoTag)) + sh(e)) + lp(p)) + sh(z)).push(Call::ProdRule).push(Call::Nop),
        TRule::Token(a, b, o, e, t, z) => (((((sh(a) + sh(b)) + lb(o, Call::Precedence, Call::NoPrecedence)) + sh(e)) + sh(t).push(Call::Nop)) + sh(z)).push(Call::TokenRule).push(Call::Nop),
    }
}
pub open spec fn lrs(r: TRules) -> Seq<Call>
    decreases r,
{ match r { TRules::One(x) => lr_(x).push(Call::Rules1), TRules::More(x, y) => (lr_(x) + lrs(*y)).push(Call::Rules2) } }

// running calls on a stack
pub open spec fn run(s: Seq<GE>, l: Seq<Call>) -> Option<Seq<GE>>
    decreases l.len(),
{ if l.len() == 0 { Some(s) } else { match run(s, l.drop_last()) { Some(t) => vstep(t, l.last()), None => None } } }
pub proof fn lemma_run_push(s: Seq<GE>, l: Seq<Call>, c: Call)
    ensures run(s, l.push(c)) == match run(s, l) { Some(t) => vstep(t, c), None => None },
{ assert(l.push(c).drop_last() =~= l); }
pub proof fn lemma_run_cat(s: Seq<GE>, a: Seq<Call>, b: Seq<Call>)
    ensures run(s, a + b) == match run(s, a) { Some(t) => run(t, b), None => None },
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_run_cat(s, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn lemma_run_sh(s: Seq<GE>, t: GTk)
    ensures run(s, sh(t)) == Some(s.push(GE::Tok(t.text, t.span))),
{ assert(sh(t).drop_last() =~= Seq::empty()); assert(run(s, Seq::<Call>::empty()) == Some(s)); }
pub proof fn lemma_run_one(s: Seq<GE>, c: Call)
    ensures run(s, seq![c]) == vstep(s, c),
{ assert(seq![c].drop_last() =~= Seq::empty()); assert(run(s, Seq::<Call>::empty()) == Some(s)); }

pub open spec fn onto(s: Seq<GE>, e: GE) -> Option<Seq<GE>> { Some(s.push(e)) }
pub proof fn lemma_cat2(s: Seq<GE>, a: Seq<Call>, t: Seq<GE>, b: Seq<Call>, u: Seq<GE>)
    requires run(s, a) == Some(t), run(t, b) == Some(u),
    ensures run(s, a + b) == Some(u),
{ lemma_run_cat(s, a, b); }
pub proof fn lemma_push2(s: Seq<GE>, a: Seq<Call>, t: Seq<GE>, c: Call, u: Seq<GE>)
    requires run(s, a) == Some(t), vstep(t, c) == Some(u),
    ensures run(s, a.push(c)) == Some(u),
{ lemma_run_push(s, a, c); }
pub proof fn lemma_sh2(s: Seq<GE>, a: Seq<Call>, t: Seq<GE>, k: GTk)
    requires run(s, a) == Some(t),
    ensures run(s, a + sh(k)) == onto(t, GE::Tok(k.text, k.span)),
{ lemma_run_sh(t, k); lemma_run_cat(s, a, sh(k)); }
pub proof fn lemma_three(s: Seq<GE>, a: GE, b: GE, c: GE)
    ensures s.push(a).push(b).push(c).take(s.len() as int) == s, s.push(a).push(b).push(c).len() == s.len() + 3,
        tp(s.push(a).push(b).push(c), 2) == a, tp(s.push(a).push(b).push(c), 1) == b, tp(s.push(a).push(b).push(c), 0) == c,
{ assert(s.push(a).push(b).push(c).take(s.len() as int) =~= s); }
// single steps
pub proof fn lemma_v1(s: Seq<GE>, a: GE)
    ensures
        s.push(a).take(s.len() as int) == s,
        a matches GE::Tok(x, _) ==> vstep(s.push(a), Call::Nothing) == onto(s, GE::Pat(GP::Eps)) && vstep(s.push(a), Call::Item) == onto(s, GE::Pat(GP::Name(x))),
        a matches GE::Rule(r, p) ==> vstep(s.push(a), Call::Rules1) == onto(s, GE::Rules(Multiset::singleton((r, p)))),
{ assert(s.push(a).take(s.len() as int) =~= s); }
pub proof fn lemma_v2(s: Seq<GE>, p: GP, b: GE)
    ensures
        b is Tok ==> vstep(s.push(GE::Pat(p)).push(b), Call::Optional) == onto(s, GE::Pat(GP::Opt(Box::new(p))))
            && vstep(s.push(GE::Pat(p)).push(b), Call::OneOrMany) == onto(s, GE::Pat(GP::Plus(Box::new(p))))
            && vstep(s.push(GE::Pat(p)).push(b), Call::ZeroOrMany) == onto(s, GE::Pat(GP::Star(Box::new(p)))),
        b matches GE::Pat(q) ==> vstep(s.push(GE::Pat(p)).push(b), Call::Concatenation) == onto(s, GE::Pat(seq2(p, q))),
{ assert(s.push(GE::Pat(p)).push(b).take(s.len() as int) =~= s); }
pub proof fn lemma_v2r(s: Seq<GE>, r: GR, x: SourceSpan, m: Multiset<GRS>)
    ensures vstep(s.push(GE::Rule(r, x)).push(GE::Rules(m)), Call::Rules2) == onto(s, GE::Rules(m.insert((r, x)))),
{ assert(s.push(GE::Rule(r, x)).push(GE::Rules(m)).take(s.len() as int) =~= s); }
pub proof fn lemma_v3(s: Seq<GE>, a: GE, b: GE, c: GE)
    ensures
        (a is Pat && b is Tok && c is Pat) ==> vstep(s.push(a).push(b).push(c), Call::Alternative) == onto(s, GE::Pat(alt2(a->Pat_0, c->Pat_0))),
        (a is Tok && b is Pat && c is Tok) ==> vstep(s.push(a).push(b).push(c), Call::Group) == onto(s, GE::Pat(b->Pat_0)),
{ lemma_three(s, a, b, c); }
pub proof fn lemma_vnop(s: Seq<GE>) ensures vstep(s, Call::Nop) == Some(s) { }
pub proof fn lemma_lp(s: Seq<GE>, p: TPat)
    requires wp(p),
    ensures run(s, lp(p)) == onto(s, GE::Pat(mp(p))),
    decreases p,
{
    hide(vstep); hide(run);
    match p {
        TPat::Alt(a) => { lemma_la(s, *a); lemma_vnop(s.push(GE::Pat(mp(p)))); lemma_push2(s, la(*a), s.push(GE::Pat(mp(p))), Call::Nop, s.push(GE::Pat(mp(p)))); }
        TPat::Nothing(t) => { lemma_run_sh(s, t); lemma_v1(s, GE::Tok(t.text, t.span)); lemma_push2(s, sh(t), s.push(GE::Tok(t.text, t.span)), Call::Nothing, s.push(GE::Pat(GP::Eps))); }
    }
}
pub proof fn lemma_la(s: Seq<GE>, a: TAlt)
    requires wa(a),
    ensures run(s, la(a)) == onto(s, GE::Pat(ma(a))),
    decreases a,
{
    hide(vstep); hide(run);
    let f = s.push(GE::Pat(ma(a)));
    match a {
        TAlt::More(c, t, b) => {
            lemma_lc(s, c);
            let s1 = s.push(GE::Pat(mc(c)));
            lemma_sh2(s, lc_(c), s1, t);
            let s2 = s1.push(GE::Tok(t.text, t.span));
            lemma_la(s2, *b);
            let s3 = s2.push(GE::Pat(ma(*b)));
            lemma_cat2(s, lc_(c) + sh(t), s2, la(*b), s3);
            lemma_v3(s, GE::Pat(mc(c)), GE::Tok(t.text, t.span), GE::Pat(ma(*b)));
            lemma_push2(s, (lc_(c) + sh(t)) + la(*b), s3, Call::Alternative, f);
        }
        TAlt::One(c) => { lemma_lc(s, c); lemma_vnop(f); lemma_push2(s, lc_(c), f, Call::Nop, f); }
    }
}
pub proof fn lemma_lc(s: Seq<GE>, c: TConc)
    requires wc(c),
    ensures run(s, lc_(c)) == onto(s, GE::Pat(mc(c))),
    decreases c,
{
    hide(vstep); hide(run);
    let f = s.push(GE::Pat(mc(c)));
    match c {
        TConc::More(u, d) => {
            lemma_lu(s, u);
            let s1 = s.push(GE::Pat(mu(u)));
            lemma_lc(s1, *d);
            let s2 = s1.push(GE::Pat(mc(*d)));
            lemma_cat2(s, lu(u), s1, lc_(*d), s2);
            lemma_v2(s, mu(u), GE::Pat(mc(*d)));
            lemma_push2(s, lu(u) + lc_(*d), s2, Call::Concatenation, f);
        }
        TConc::One(u) => { lemma_lu(s, u); lemma_vnop(f); lemma_push2(s, lu(u), f, Call::Nop, f); }
    }
}
pub proof fn lemma_suffix(s: Seq<GE>, i: TItem, t: GTk, c: Call, g: GP)
    requires run(s, li(i)) == onto(s, GE::Pat(mi(i))), vstep(s.push(GE::Pat(mi(i))).push(GE::Tok(t.text, t.span)), c) == onto(s, GE::Pat(g)),
    ensures run(s, (li(i) + sh(t)).push(c).push(Call::Nop)) == onto(s, GE::Pat(g)),
{
    hide(run);
    let s1 = s.push(GE::Pat(mi(i)));
    let f = s.push(GE::Pat(g));
    lemma_sh2(s, li(i), s1, t);
    lemma_push2(s, li(i) + sh(t), s1.push(GE::Tok(t.text, t.span)), c, f);
    lemma_vnop(f);
    lemma_push2(s, (li(i) + sh(t)).push(c), f, Call::Nop, f);
}
pub proof fn lemma_lu(s: Seq<GE>, u: TUn)
    requires wu(u),
    ensures run(s, lu(u)) == onto(s, GE::Pat(mu(u))),
    decreases u,
{
    hide(vstep); hide(run);
    match u {
        TUn::Opt(i, t) => { lemma_li(s, i); lemma_v2(s, mi(i), GE::Tok(t.text, t.span)); lemma_suffix(s, i, t, Call::Optional, mu(u)); }
        TUn::Plus(i, t) => { lemma_li(s, i); lemma_v2(s, mi(i), GE::Tok(t.text, t.span)); lemma_suffix(s, i, t, Call::OneOrMany, mu(u)); }
        TUn::Star(i, t) => { lemma_li(s, i); lemma_v2(s, mi(i), GE::Tok(t.text, t.span)); lemma_suffix(s, i, t, Call::ZeroOrMany, mu(u)); }
        TUn::One(i) => { lemma_li(s, i); let f = s.push(GE::Pat(mi(i))); lemma_vnop(f); lemma_push2(s, li(i), f, Call::Nop, f); }
    }
}
pub proof fn lemma_li(s: Seq<GE>, i: TItem)
    requires wi(i),
    ensures run(s, li(i)) == onto(s, GE::Pat(mi(i))),
    decreases i,
{
    hide(vstep); hide(run);
    let f = s.push(GE::Pat(mi(i)));
    match i {
        TItem::Name(t) => { lemma_run_sh(s, t); lemma_v1(s, GE::Tok(t.text, t.span)); lemma_push2(s, sh(t), s.push(GE::Tok(t.text, t.span)), Call::Item, f); }
        TItem::Group(l, p, r) => {
            lemma_run_sh(s, l);
            let s1 = s.push(GE::Tok(l.text, l.span));
            lemma_lp(s1, *p);
            let s2 = s1.push(GE::Pat(mp(*p)));
            lemma_cat2(s, sh(l), s1, lp(*p), s2);
            lemma_sh2(s, sh(l) + lp(*p), s2, r);
            let s3 = s2.push(GE::Tok(r.text, r.span));
            lemma_v3(s, GE::Tok(l.text, l.span), GE::Pat(mp(*p)), GE::Tok(r.text, r.span));
            lemma_push2(s, (sh(l) + lp(*p)) + sh(r), s3, Call::Group, f);
        }
    }
}
pub open spec fn text_ok(t: GTk) -> bool { tk_text_ok(t.ty, t.text) }
pub open spec fn texts_ok(s: Seq<GTk>) -> bool { forall|i: int| 0 <= i < s.len() ==> text_ok(#[trigger] s[i]) }
pub proof fn lemma_lr_entry(s: Seq<GE>, a: GTk, b: GTk, c: GTk)
    ensures run(s, lr_(TRule::Entry(a, b, c))) == onto(s, GE::Rule(mr(TRule::Entry(a, b, c)), spans(a.span, c.span))),
{
    let r = TRule::Entry(a, b, c);
    lemma_run_sh(s, a);
    let s1 = s.push(GE::Tok(a.text, a.span));
    lemma_sh2(s, sh(a), s1, b);
    let s2 = s1.push(GE::Tok(b.text, b.span));
    lemma_sh2(s, sh(a) + sh(b), s2, c);
    let s3 = s2.push(GE::Tok(c.text, c.span));
    let s4 = s.push(GE::Rule(mr(r), spans(a.span, c.span)));
    assert(s3.take(s3.len() - 3) =~= s);
    lemma_push2(s, (sh(a) + sh(b)) + sh(c), s3, Call::EntryRule, s4);
    lemma_push2(s, ((sh(a) + sh(b)) + sh(c)).push(Call::EntryRule), s4, Call::Nop, s4);
}
pub proof fn lemma_lb(s: Seq<GE>, o: Option<TBr>, some: Call, none: Call, g: GE)
    requires
        o matches Some(b) ==> vstep(s.push(GE::Tok(b.l.text, b.l.span)).push(GE::Tok(b.x.text, b.x.span)).push(GE::Tok(b.r.text, b.r.span)), some) == onto(s, g),
        o is None ==> vstep(s, none) == onto(s, g),
    ensures run(s, lb(o, some, none)) == onto(s, g),
{
    match o {
        Some(b) => {
            lemma_run_sh(s, b.l);
            let s1 = s.push(GE::Tok(b.l.text, b.l.span));
            lemma_sh2(s, sh(b.l), s1, b.x);
            let s2 = s1.push(GE::Tok(b.x.text, b.x.span));
            lemma_sh2(s, sh(b.l) + sh(b.x), s2, b.r);
            let s3 = s2.push(GE::Tok(b.r.text, b.r.span));
            lemma_push2(s, (sh(b.l) + sh(b.x)) + sh(b.r), s3, some, s.push(g));
            lemma_push2(s, ((sh(b.l) + sh(b.x)) + sh(b.r)).push(some), s.push(g), Call::Nop, s.push(g));
        }
        None => { lemma_run_one(s, none); }
    }
}
pub proof fn lemma_lr_prod(s: Seq<GE>, a: GTk, b: GTk, o: Option<TBr>, e: GTk, p: TPat, z: GTk)
    requires wp(p),
    ensures run(s, lr_(TRule::Prod(a, b, o, e, p, z))) == onto(s, GE::Rule(mr(TRule::Prod(a, b, o, e, p, z)), spans(a.span, z.span))),
{
    let r = TRule::Prod(a, b, o, e, p, z);
    let g = GE::Tag(match o { Some(x) => Some(x.x.text), None => None });
    lemma_run_sh(s, a);
    let s1 = s.push(GE::Tok(a.text, a.span));
    lemma_sh2(s, sh(a), s1, b);
    let s2 = s1.push(GE::Tok(b.text, b.span));
    match o { Some(x) => { lemma_three(s2, GE::Tok(x.l.text, x.l.span), GE::Tok(x.x.text, x.x.span), GE::Tok(x.r.text, x.r.span)); } None => { } }
    lemma_lb(s2, o, Call::Tag, Call::NoTag, g);
    let s3 = s2.push(g);
    let l3 = (sh(a) + sh(b)) + lb(o, Call::Tag, Call::NoTag);
    lemma_cat2(s, sh(a) + sh(b), s2, lb(o, Call::Tag, Call::NoTag), s3);
    lemma_sh2(s, l3, s3, e);
    let s4 = s3.push(GE::Tok(e.text, e.span));
    lemma_lp(s4, p);
    let s5 = s4.push(GE::Pat(mp(p)));
    lemma_cat2(s, l3 + sh(e), s4, lp(p), s5);
    lemma_sh2(s, l3 + sh(e) + lp(p), s5, z);
    let s6 = s5.push(GE::Tok(z.text, z.span));
    let f = s.push(GE::Rule(mr(r), spans(a.span, z.span)));
    assert(s6.take(s6.len() - 6) =~= s);
    assert(tp(s6, 5) == s1.last() && tp(s6, 4) == s2.last() && tp(s6, 3) == g && tp(s6, 1) == s5.last());
    lemma_push2(s, l3 + sh(e) + lp(p) + sh(z), s6, Call::ProdRule, f);
    lemma_push2(s, (l3 + sh(e) + lp(p) + sh(z)).push(Call::ProdRule), f, Call::Nop, f);
}
pub proof fn lemma_lr_token(s: Seq<GE>, a: GTk, b: GTk, o: Option<TBr>, e: GTk, t: GTk, z: GTk)
    requires wr(TRule::Token(a, b, o, e, t, z)), rd(TRule::Token(a, b, o, e, t, z)), text_ok(t), o matches Some(x) ==> text_ok(x.x),
    ensures run(s, lr_(TRule::Token(a, b, o, e, t, z))) == onto(s, GE::Rule(mr(TRule::Token(a, b, o, e, t, z)), spans(a.span, z.span))),
{
    let r = TRule::Token(a, b, o, e, t, z);
    let g = GE::Prec(match o { Some(x) => Some(decval(x.x.text) as u16), None => None });
    lemma_run_sh(s, a);
    let s1 = s.push(GE::Tok(a.text, a.span));
    lemma_sh2(s, sh(a), s1, b);
    let s2 = s1.push(GE::Tok(b.text, b.span));
    match o { Some(x) => { lemma_three(s2, GE::Tok(x.l.text, x.l.span), GE::Tok(x.x.text, x.x.span), GE::Tok(x.r.text, x.r.span)); } None => { } }
    lemma_lb(s2, o, Call::Precedence, Call::NoPrecedence, g);
    let s3 = s2.push(g);
    let l3 = (sh(a) + sh(b)) + lb(o, Call::Precedence, Call::NoPrecedence);
    lemma_cat2(s, sh(a) + sh(b), s2, lb(o, Call::Precedence, Call::NoPrecedence), s3);
    lemma_sh2(s, l3, s3, e);
    let s4 = s3.push(GE::Tok(e.text, e.span));
    let s5 = s4.push(GE::Tok(t.text, t.span));
    lemma_run_sh(s4, t);
    lemma_push2(s4, sh(t), s5, Call::Nop, s5);
    lemma_cat2(s, l3 + sh(e), s4, sh(t).push(Call::Nop), s5);
    lemma_sh2(s, l3 + sh(e) + sh(t).push(Call::Nop), s5, z);
    let s6 = s5.push(GE::Tok(z.text, z.span));
    let f = s.push(GE::Rule(mr(r), spans(a.span, z.span)));
    assert(s6.take(s6.len() - 6) =~= s);
    assert(tp(s6, 5) == s1.last() && tp(s6, 4) == s2.last() && tp(s6, 3) == g && tp(s6, 1) == s5.last());
    lemma_push2(s, l3 + sh(e) + sh(t).push(Call::Nop) + sh(z), s6, Call::TokenRule, f);
    lemma_push2(s, (l3 + sh(e) + sh(t).push(Call::Nop) + sh(z)).push(Call::TokenRule), f, Call::Nop, f);
}
pub proof fn lemma_ends(r: TRule)
    requires texts_ok(yr(r)),
    ensures match r {
        TRule::Entry(a, b, c) => rspan(r) == spans(a.span, c.span),
        TRule::Prod(a, b, o, e, p, z) => rspan(r) == spans(a.span, z.span),
        TRule::Token(a, b, o, e, t, z) => rspan(r) == spans(a.span, z.span) && text_ok(t) && (o matches Some(x) ==> text_ok(x.x)),
    }
{
    let y = yr(r);
    match r {
        TRule::Token(a, b, o, e, t, z) => {
            assert(y[y.len() - 2] == t);
            assert(text_ok(y[y.len() - 2]));
            match o { Some(x) => { assert(y[3] == x.x); assert(text_ok(y[3])); } None => { } }
        }
        _ => { }
    }
}
pub proof fn lemma_lr(s: Seq<GE>, r: TRule)
    requires wr(r), rd(r), texts_ok(yr(r)),
    ensures run(s, lr_(r)) == onto(s, GE::Rule(mr(r), rspan(r))),
{
    lemma_ends(r);
    match r {
        TRule::Entry(a, b, c) => { lemma_lr_entry(s, a, b, c); }
        TRule::Prod(a, b, o, e, p, z) => { lemma_lr_prod(s, a, b, o, e, p, z); }
        TRule::Token(a, b, o, e, t, z) => { lemma_lr_token(s, a, b, o, e, t, z); }
    }
}
pub proof fn lemma_texts(a: Seq<GTk>, b: Seq<GTk>)
    requires texts_ok(a + b),
    ensures texts_ok(a), texts_ok(b),
{
    assert forall|i: int| 0 <= i < a.len() implies text_ok(#[trigger] a[i]) by { assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies text_ok(#[trigger] b[i]) by { assert((a + b)[i + a.len()] == b[i]); }
}
pub proof fn thm_visit(s: Seq<GE>, r: TRules)
    requires wrs(r), rds(r), texts_ok(yrs(r)),
    ensures run(s, lrs(r)) == onto(s, GE::Rules(mrs(r))),
    decreases r,
{
    hide(vstep); hide(run); hide(text_ok);
    match r {
        TRules::One(x) => {
            lemma_lr(s, x);
            let s1 = s.push(GE::Rule(mr(x), rspan(x)));
            lemma_v1(s, GE::Rule(mr(x), rspan(x)));
            lemma_push2(s, lr_(x), s1, Call::Rules1, s.push(GE::Rules(mrs(r))));
        }
        TRules::More(x, y) => {
            lemma_texts(yr(x), yrs(*y));
            lemma_lr(s, x);
            let s1 = s.push(GE::Rule(mr(x), rspan(x)));
            thm_visit(s1, *y);
            let s2 = s1.push(GE::Rules(mrs(*y)));
            lemma_cat2(s, lr_(x), s1, lrs(*y), s2);
            lemma_v2r(s, mr(x), rspan(x), mrs(*y));
            lemma_push2(s, lr_(x) + lrs(*y), s2, Call::Rules2, s.push(GE::Rules(mrs(r))));
        }
    }
}
