use crate::util::{leak, Ctx, Rng};
use lapex_input::*;
use lapex_parser::grammar::{Grammar, GrammarError, Rule, Symbol};
use lapex_parser::ll_parser::{self, LLParserError};
use std::collections::{BTreeMap, BTreeSet};

fn span(i: usize) -> SourceSpan {
    SourceSpan { start: SourcePos { line: i as u16, col: 1 }, end: SourcePos { line: i as u16, col: 5 } }
}

pub fn rpp(r: &mut Rng, depth: usize, names: &[&'static str], eps: bool) -> ProductionPattern<'static> {
    let k = if depth == 0 { r.below(8) } else { r.below(16) };
    match k {
        0 if eps => ProductionPattern::Epsilon,
        0..=7 => ProductionPattern::Rule { rule_name: *r.pick(names) },
        8..=11 => {
            let n = r.range(1, 3);
            ProductionPattern::Sequence { elements: (0..n).map(|_| rpp(r, depth - 1, names, eps)).collect() }
        }
        12 => {
            let n = r.range(1, 3);
            ProductionPattern::Alternative { elements: (0..n).map(|_| rpp(r, depth - 1, names, eps)).collect() }
        }
        13 => ProductionPattern::OneOrMany { inner: Box::new(rpp(r, depth - 1, names, eps)) },
        14 => ProductionPattern::ZeroOrMany { inner: Box::new(rpp(r, depth - 1, names, eps)) },
        _ => ProductionPattern::Optional { inner: Box::new(rpp(r, depth - 1, names, eps)) },
    }
}

const NAMES: &[&str] = &["P0", "P1", "P2", "P3", "P4"];
const TOKS: &[&str] = &["T0", "T1", "T2", "T3", "T4"];

fn tok(i: usize, name: &'static str) -> Spanned<TokenRule<'static>> {
    Spanned::new(span(i), TokenRule { name, precedence: None, pattern: TokenPattern::Literal { characters: vec!['a'] } })
}
fn prod(i: usize, name: &'static str, pattern: ProductionPattern<'static>) -> Spanned<ProductionRule<'static>> {
    Spanned::new(span(i), ProductionRule { name, tag: None, pattern })
}

// a rule set whose references are all defined
pub fn rset(r: &mut Rng, maxdepth: usize) -> &'static RuleSet<'static> {
    let nt = r.range(1, 3);
    let np = r.range(1, 3);
    let extra = r.below(4);
    let names: Vec<&'static str> = TOKS[..nt].iter().chain(TOKS[..nt].iter()).chain(NAMES[..np].iter()).copied().collect();
    let eps = r.chance(1, 2);
    let mut prods = vec![];
    for i in 0..np {
        let d = r.range(0, maxdepth);
        prods.push(prod(100 + i, NAMES[i], rpp(r, d, &names, eps)));
    }
    for i in 0..extra {
        let n = NAMES[r.below(np)];
        let d = r.range(0, maxdepth);
        prods.push(prod(200 + i, n, rpp(r, d, &names, eps)));
    }
    if r.chance(1, 2) {
        // declaration order is arbitrary
        let k = r.below(prods.len());
        prods.rotate_left(k);
    }
    let entry = NAMES[if r.chance(1, 2) { 0 } else { r.below(np) }];
    Box::leak(Box::new(RuleSet::new(
        Spanned::new(span(1), EntryRule { name: entry }),
        (0..nt).map(|i| tok(10 + i, TOKS[i])).collect(),
        prods,
    )))
}
pub fn show(rs: &RuleSet) -> String {
    fn p(x: &ProductionPattern) -> String {
        match x {
            ProductionPattern::Sequence { elements } => format!("({})", elements.iter().map(p).collect::<Vec<_>>().join(" ")),
            ProductionPattern::Alternative { elements } => format!("({})", elements.iter().map(p).collect::<Vec<_>>().join(" | ")),
            ProductionPattern::OneOrMany { inner } => format!("{}+", p(inner)),
            ProductionPattern::ZeroOrMany { inner } => format!("{}*", p(inner)),
            ProductionPattern::Optional { inner } => format!("{}?", p(inner)),
            ProductionPattern::Rule { rule_name } => rule_name.to_string(),
            ProductionPattern::Epsilon => "eps".into(),
        }
    }
    if rs.production_rules.len() + rs.token_rules.len() > 60 {
        return format!(
            "entry {}; {} tokens; {} productions, first {:.200?}",
            rs.entry_rule.inner.name,
            rs.token_rules.len(),
            rs.production_rules.len(),
            rs.production_rules.first().map(|r| p(&r.inner.pattern).chars().take(150).collect::<String>())
        );
    }
    format!(
        "entry {}; tokens {}; {}",
        rs.entry_rule.inner.name,
        rs.token_rules.iter().map(|t| t.inner.name).collect::<Vec<_>>().join(" "),
        rs.production_rules.iter().map(|r| format!("{} = {}", r.inner.name, p(&r.inner.pattern))).collect::<Vec<_>>().join("; ")
    )
}

// ---- C06 --------------------------------------------------------------------------------------
fn refs<'a>(p: &'a ProductionPattern<'static>, out: &mut Vec<&'a str>, anon: &mut usize) {
    match p {
        ProductionPattern::Sequence { elements } => elements.iter().for_each(|e| refs(e, out, anon)),
        ProductionPattern::Alternative { elements } => {
            *anon += 1;
            elements.iter().for_each(|e| refs(e, out, anon))
        }
        ProductionPattern::OneOrMany { inner } | ProductionPattern::ZeroOrMany { inner } | ProductionPattern::Optional { inner } => {
            *anon += 1;
            refs(inner, out, anon)
        }
        ProductionPattern::Rule { rule_name } => out.push(rule_name),
        ProductionPattern::Epsilon => {}
    }
}
struct M<'a> {
    named: BTreeMap<&'a str, Symbol>,
    by_lhs: BTreeMap<Symbol, Vec<(usize, Vec<Symbol>, *const Spanned<ProductionRule<'static>>)>>,
    anon: BTreeSet<Symbol>,
}
type Asg = (BTreeMap<Symbol, *const ProductionPattern<'static>>, BTreeSet<usize>);
impl<'a> M<'a> {
    fn leaves<'p>(&self, p: &'p ProductionPattern<'static>, out: &mut Vec<&'p ProductionPattern<'static>>) {
        if let ProductionPattern::Sequence { elements } = p {
            elements.iter().for_each(|e| self.leaves(e, out));
        } else {
            out.push(p);
        }
    }
    // does the symbol string expand the pattern? asg: which pattern node each anonymous symbol stands for
    fn seq(&self, p: &ProductionPattern<'static>, s: &[Symbol], par: *const Spanned<ProductionRule<'static>>, asg: &mut Asg) -> bool {
        let mut l = vec![];
        self.leaves(p, &mut l);
        l.len() == s.len() && l.iter().zip(s).all(|(p, s)| self.one(p, *s, par, asg))
    }
    fn one(&self, p: &ProductionPattern<'static>, s: Symbol, par: *const Spanned<ProductionRule<'static>>, asg: &mut Asg) -> bool {
        match p {
            ProductionPattern::Rule { rule_name } => self.named.get(rule_name) == Some(&s),
            ProductionPattern::Epsilon => s == Symbol::Epsilon,
            ProductionPattern::Sequence { .. } => unreachable!(),
            _ => {
                if !self.anon.contains(&s) {
                    return false;
                }
                if let Some(q) = asg.0.get(&s) {
                    return *q == p as *const _;
                }
                asg.0.insert(s, p as *const _);
                let empty = vec![];
                let rules = self.by_lhs.get(&s).unwrap_or(&empty);
                if rules.iter().any(|(i, _, q)| *q != par || asg.1.contains(i)) {
                    return false;
                }
                rules.iter().for_each(|(i, _, _)| {
                    asg.1.insert(*i);
                });
                let rhs: Vec<&Vec<Symbol>> = rules.iter().map(|x| &x.1).collect();
                match p {
                    ProductionPattern::Alternative { elements } => {
                        // one rule per element, in any order
                        fn go(m: &M, els: &[ProductionPattern<'static>], rhs: &[&Vec<Symbol>], par: *const Spanned<ProductionRule<'static>>, asg: &mut Asg) -> bool {
                            if els.is_empty() {
                                return rhs.is_empty();
                            }
                            for k in 0..rhs.len() {
                                let mut a2 = (asg.0.clone(), asg.1.clone());
                                if m.seq(&els[0], rhs[k], par, &mut a2) {
                                    let mut rest = rhs.to_vec();
                                    rest.remove(k);
                                    if go(m, &els[1..], &rest, par, &mut a2) {
                                        *asg = a2;
                                        return true;
                                    }
                                }
                            }
                            false
                        }
                        rhs.len() == elements.len() && go(self, elements, &rhs, par, asg)
                    }
                    ProductionPattern::Optional { inner } => self.two(&rhs, asg, &|m, a, b, g| a[..] == [Symbol::Epsilon] && m.seq(inner, b, par, g)),
                    ProductionPattern::ZeroOrMany { inner } => {
                        self.two(&rhs, asg, &|m, a, b, g| a[..] == [Symbol::Epsilon] && b.last() == Some(&s) && m.seq(inner, &b[..b.len() - 1], par, g))
                    }
                    ProductionPattern::OneOrMany { inner } => {
                        self.two(&rhs, asg, &|m, a, b, g| m.seq(inner, a, par, g) && b.last() == Some(&s) && m.seq(inner, &b[..b.len() - 1], par, g))
                    }
                    _ => unreachable!(),
                }
            }
        }
    }
    fn two(&self, rhs: &[&Vec<Symbol>], asg: &mut Asg, f: &dyn Fn(&M, &[Symbol], &[Symbol], &mut Asg) -> bool) -> bool {
        if rhs.len() != 2 {
            return false;
        }
        for (a, b) in [(0, 1), (1, 0)] {
            let mut a2 = (asg.0.clone(), asg.1.clone());
            if f(self, rhs[a], rhs[b], &mut a2) {
                *asg = a2;
                return true;
            }
        }
        false
    }
}

pub fn check_grammar(rs: &'static RuleSet<'static>) -> Result<(), String> {
    // what must be reported
    let mut wrong: Vec<String> = vec![];
    let mut confl: Vec<(SourceSpan, SourceSpan)> = vec![];
    let nt = rs.token_rules.len();
    {
        let mut by: BTreeMap<&str, Vec<SourceSpan>> = BTreeMap::new();
        for t in &rs.token_rules {
            by.entry(t.inner.name).or_default().push(t.span);
        }
        for v in by.values() {
            for i in 0..v.len() {
                for j in i + 1..v.len() {
                    confl.push((v[i], v[j]));
                }
            }
        }
        for p in &rs.production_rules {
            if let Some(v) = by.get(p.inner.name) {
                v.iter().for_each(|s| confl.push((*s, p.span)));
            }
        }
    }
    let mut rr = vec![];
    let mut anon = 0;
    for p in &rs.production_rules {
        refs(&p.inner.pattern, &mut rr, &mut anon);
    }
    let pnames: BTreeSet<&str> = rs.production_rules.iter().map(|p| p.inner.name).collect();
    let tnames: BTreeSet<&str> = rs.token_rules.iter().map(|p| p.inner.name).collect();
    for n in rr {
        if !pnames.contains(n) && !tnames.contains(n) {
            wrong.push(n.to_string());
        }
    }
    if !pnames.contains(rs.entry_rule.inner.name) {
        wrong.push(rs.entry_rule.inner.name.to_string());
    }
    let many = nt.max(rs.production_rules.len()) + anon > 65536;
    let must_many = nt > 65536 || pnames.len() + anon > 65536;
    let g = match Grammar::from_rule_set(rs) {
        Err(GrammarError::ConflictingRules { rules }) => {
            if rules.len() == 2 && confl.iter().any(|(a, b)| (rules[0], rules[1]) == (*a, *b) || (rules[1], rules[0]) == (*a, *b)) {
                return Ok(());
            }
            return Err(format!("reported conflicting rules {:?}, which do not share a name (conflicts: {:?})", rules, confl));
        }
        Err(GrammarError::MissingSymbol(s)) => {
            if wrong.contains(&s) {
                return Ok(());
            }
            return Err(format!("reported missing symbol {:?}, but it is defined (missing: {:?})", s, wrong));
        }
        Err(GrammarError::TooManyRules) => {
            if many {
                return Ok(());
            }
            return Err("reported too many rules although the symbols can be numbered".into());
        }
        Err(e) => return Err(format!("unexpected error {:?}", e)),
        Ok(g) => g,
    };
    if !wrong.is_empty() || !confl.is_empty() || must_many {
        return Err(format!("a grammar was produced although undefined {:?} / conflicting {:?} / too many symbols {}", wrong, confl, must_many));
    }
    // symbols
    let terms: Vec<(Symbol, &str)> = g.terminals_with_names().collect();
    let tset: BTreeSet<Symbol> = g.terminals().collect();
    if terms.len() != nt || tset.len() != nt || !tset.iter().all(|s| matches!(s, Symbol::Terminal(_))) {
        return Err(format!("{} token rules, terminal symbols {:.200?}", nt, terms));
    }
    let mut named: BTreeMap<&str, Symbol> = BTreeMap::new();
    for (s, n) in &terms {
        if named.insert(n, *s).is_some() || !tnames.contains(n) {
            return Err(format!("token name {} has no symbol of its own", n));
        }
        if let Symbol::Terminal(i) = s {
            if g.get_token_name(*i) != *n {
                return Err(format!("terminal {} is named {} and {}", i, n, g.get_token_name(*i)));
            }
        }
    }
    let nts: Vec<Symbol> = g.non_terminals().collect();
    let ntset: BTreeSet<Symbol> = nts.iter().copied().collect();
    if ntset.len() != nts.len() {
        return Err(format!("a nonterminal symbol is used twice: {:?}", nts));
    }
    let syms: Vec<Symbol> = g.symbols().collect();
    if syms.len() != nts.len() + nt || syms.iter().copied().collect::<BTreeSet<_>>() != ntset.union(&tset).copied().collect() {
        return Err(format!("symbols() lists {:?}", syms));
    }
    let mut anons = BTreeSet::new();
    for s in &nts {
        match g.get_production_name(s) {
            Some(n) => {
                if !pnames.contains(n) || named.insert(leak(n.to_string()), *s).is_some() {
                    return Err(format!("production name {} has no symbol of its own", n));
                }
            }
            None => {
                anons.insert(*s);
            }
        }
    }
    for n in &pnames {
        if !named.contains_key(n) {
            return Err(format!("production {} has no symbol", n));
        }
    }
    if g.entry_point() != &named[rs.entry_rule.inner.name] || g.entry_rule().lhs().is_some() || g.entry_rule().rhs()[..] != [*g.entry_point()] {
        return Err(format!("entry point is {:?}, expected {:?}", g.entry_point(), named[rs.entry_rule.inner.name]));
    }
    if anon > 1000 {
        // only the number of symbols matters here
        return if anons.len() == anon { Ok(()) } else { Err(format!("{} anonymous symbols, expected {}", anons.len(), anon)) };
    }
    // rules
    let mut m = M { named, by_lhs: BTreeMap::new(), anon: anons };
    for (i, r) in g.rules().iter().enumerate() {
        let l = r.lhs().ok_or("a rule without left-hand side")?;
        m.by_lhs.entry(l).or_default().push((i, r.rhs().clone(), r.rule() as *const _ as *const Spanned<ProductionRule<'static>>));
    }
    let mut asg: Asg = (BTreeMap::new(), BTreeSet::new());
    for p in &rs.production_rules {
        let l = m.named[p.inner.name];
        let cands: Vec<usize> = m
            .by_lhs
            .get(&l)
            .map(|v| v.iter().filter(|x| x.2 == p as *const _).map(|x| x.0).collect())
            .unwrap_or_default();
        if cands.len() != 1 {
            return Err(format!("production at line {} has {} rules for its own symbol, expected 1", p.span.start.line, cands.len()));
        }
        let rhs = g.rules()[cands[0]].rhs().clone();
        asg.1.insert(cands[0]);
        if !m.seq(&p.inner.pattern, &rhs, p as *const _, &mut asg) {
            return Err(format!("the rules of the production at line {} do not expand its pattern: {}", p.span.start.line, rules_text(&g)));
        }
    }
    if asg.1.len() != g.rules().len() {
        let extra: Vec<usize> = (0..g.rules().len()).filter(|i| !asg.1.contains(i)).collect();
        return Err(format!("rules {:?} expand no pattern: {}", extra, rules_text(&g)));
    }
    if m.anon.iter().any(|s| !asg.0.contains_key(s)) {
        return Err("an anonymous nonterminal stands for nothing".into());
    }
    Ok(())
}
pub fn rules_text(g: &Grammar) -> String {
    g.rules().iter().take(40).map(|r| format!("{:?} -> {:?}", r.lhs(), r.rhs())).collect::<Vec<_>>().join("; ")
}

pub fn c06(cx: &mut Ctx) {
    let mut n = 0;
    while cx.go() {
        n += 1;
        let r = &mut cx.rng;
        let rs: &'static RuleSet<'static> = if n % 4000 == 17 {
            // at and beyond the numbering limit
            match r.below(5) {
                0 => {
                    let k = *r.pick(&[65535usize, 65536, 65537]);
                    big(k, 1, 0)
                }
                1 => {
                    let k = *r.pick(&[65535usize, 65536, 65537, 65538]);
                    big(1, k, 0)
                }
                2 => {
                    let k = *r.pick(&[65533usize, 65534, 65535, 65536, 65537]);
                    big(2, 1, k)
                }
                3 => {
                    let k = *r.pick(&[65535usize, 65536]);
                    big(k, 1, 1)
                }
                _ => {
                    let k = *r.pick(&[65534usize, 65535, 65536]);
                    big(1, k, 2)
                }
            }
        } else if r.chance(1, 3) {
            // arbitrary names: undefined, duplicate or clashing
            let nt = r.below(4);
            let np = r.below(4);
            let mut pool: Vec<&'static str> = vec![];
            pool.extend_from_slice(&TOKS[..3]);
            pool.extend_from_slice(&NAMES[..3]);
            let toks: Vec<_> = (0..nt).map(|i| tok(10 + i, if r.chance(1, 8) { *r.pick(&pool) } else { TOKS[i] })).collect();
            let prods: Vec<_> = (0..np)
                .map(|i| {
                    let nm = if r.chance(1, 8) { *r.pick(&pool) } else { NAMES[i] };
                    let d = r.below(3);
                    prod(100 + i, nm, rpp(r, d, &pool, true))
                })
                .collect();
            Box::leak(Box::new(RuleSet::new(Spanned::new(span(1), EntryRule { name: *r.pick(&pool) }), toks, prods)))
        } else {
            rset(r, 4)
        };
        cx.case(|| show(rs), !rs.production_rules.is_empty(), || check_grammar(rs));
    }
}
// many tokens / productions / anonymous symbols
fn big(nt: usize, np: usize, anon: usize) -> &'static RuleSet<'static> {
    let toks = (0..nt).map(|i| tok(10, leak(format!("T{}", i)))).collect();
    let prods = (0..np)
        .map(|i| {
            let p = if i == 0 && anon > 0 {
                ProductionPattern::Sequence {
                    elements: (0..anon).map(|_| ProductionPattern::Optional { inner: Box::new(ProductionPattern::Rule { rule_name: "T0" }) }).collect(),
                }
            } else {
                ProductionPattern::Rule { rule_name: "T0" }
            };
            prod(100, leak(format!("P{}", i)), p)
        })
        .collect();
    Box::leak(Box::new(RuleSet::new(Spanned::new(span(1), EntryRule { name: "P0" }), toks, prods)))
}

// ---- FIRST / FOLLOW reference -------------------------------------------------------------------
pub struct Ref {
    pub rules: Vec<(Symbol, Vec<Symbol>)>, // right-hand sides without empty markers
    pub nullable: BTreeSet<Symbol>,
    pub first: BTreeMap<Symbol, BTreeSet<Symbol>>,
    pub follow: BTreeMap<Symbol, BTreeSet<Symbol>>,
    pub entry: Symbol,
}
impl Ref {
    pub fn new(g: &Grammar) -> Ref {
        let rules: Vec<(Symbol, Vec<Symbol>)> =
            g.rules().iter().map(|r| (r.lhs().unwrap(), r.rhs().iter().copied().filter(|s| *s != Symbol::Epsilon).collect())).collect();
        // nullable: rules all of whose symbols vanish, by counting
        let mut nullable: BTreeSet<Symbol> = BTreeSet::new();
        loop {
            let add: Vec<Symbol> = rules.iter().filter(|(l, r)| !nullable.contains(l) && r.iter().all(|s| nullable.contains(s))).map(|x| x.0).collect();
            if add.is_empty() {
                break;
            }
            nullable.extend(add);
        }
        // "can begin with" relation and its reachability closure
        let mut begins: BTreeMap<Symbol, BTreeSet<Symbol>> = BTreeMap::new();
        for (l, r) in &rules {
            for s in r {
                begins.entry(*l).or_default().insert(*s);
                if !nullable.contains(s) {
                    break;
                }
            }
        }
        let mut first = BTreeMap::new();
        for nt in g.non_terminals() {
            let mut seen = BTreeSet::from([nt]);
            let mut todo = vec![nt];
            while let Some(x) = todo.pop() {
                for y in begins.get(&x).into_iter().flatten() {
                    if seen.insert(*y) {
                        todo.push(*y);
                    }
                }
            }
            first.insert(nt, seen.into_iter().filter(|s| matches!(s, Symbol::Terminal(_))).collect::<BTreeSet<_>>());
        }
        let mut r = Ref { rules, nullable, first, follow: BTreeMap::new(), entry: *g.entry_point() };
        // FOLLOW: sources, then propagation along "ends with"
        let mut base: BTreeMap<Symbol, BTreeSet<Symbol>> = g.non_terminals().map(|n| (n, BTreeSet::new())).collect();
        let mut from: BTreeMap<Symbol, BTreeSet<Symbol>> = BTreeMap::new();
        base.get_mut(&r.entry).unwrap().insert(Symbol::End);
        for (l, rhs) in &r.rules {
            for i in 0..rhs.len() {
                if let Symbol::NonTerminal(_) = rhs[i] {
                    let f = r.first_of(&rhs[i + 1..]);
                    base.get_mut(&rhs[i]).unwrap().extend(f);
                    if rhs[i + 1..].iter().all(|s| r.nullable.contains(s)) {
                        from.entry(rhs[i]).or_default().insert(*l);
                    }
                }
            }
        }
        for nt in g.non_terminals() {
            let mut seen = BTreeSet::from([nt]);
            let mut todo = vec![nt];
            while let Some(x) = todo.pop() {
                for y in from.get(&x).into_iter().flatten() {
                    if seen.insert(*y) {
                        todo.push(*y);
                    }
                }
            }
            let f: BTreeSet<Symbol> = seen.iter().flat_map(|s| base[s].iter().copied()).collect();
            r.follow.insert(nt, f);
        }
        r
    }
    pub fn is_nullable(&self, s: &[Symbol]) -> bool {
        s.iter().all(|x| *x == Symbol::Epsilon || self.nullable.contains(x))
    }
    pub fn first_of(&self, s: &[Symbol]) -> BTreeSet<Symbol> {
        let mut out = BTreeSet::new();
        for x in s {
            match x {
                Symbol::Terminal(_) | Symbol::End => {
                    out.insert(*x);
                }
                Symbol::NonTerminal(_) => out.extend(self.first[x].iter().copied()),
                Symbol::Epsilon => {}
            }
            if !(*x == Symbol::Epsilon || self.nullable.contains(x)) {
                break;
            }
        }
        out
    }
}

// ---- LL tables ----------------------------------------------------------------------------------
pub fn check_ll(g: &Grammar) -> Result<(), String> {
    let rf = Ref::new(g);
    let mut claims: BTreeMap<(Symbol, Symbol), Vec<Vec<Symbol>>> = BTreeMap::new();
    for r in g.rules() {
        let r: &Rule = r;
        let l = r.lhs().unwrap();
        for t in rf.first_of(r.rhs()) {
            claims.entry((l, t)).or_default().push(r.rhs().clone());
        }
        if rf.is_nullable(r.rhs()) {
            for t in &rf.follow[&l] {
                claims.entry((l, *t)).or_default().push(r.rhs().clone());
            }
        }
    }
    let bad: Vec<_> = claims.iter().filter(|(_, v)| v.len() > 1).collect();
    match ll_parser::generate_table(g) {
        Ok(t) => {
            if let Some((c, v)) = bad.first() {
                return Err(format!("no conflict reported, but cell {:?} is claimed by {:?}", c, v));
            }
            for nt in g.non_terminals() {
                for s in g.terminals().chain(std::iter::once(Symbol::End)) {
                    let want = claims.get(&(nt, s)).map(|v| &v[0]);
                    let got = t.get_production(nt, &s);
                    if got != want {
                        return Err(format!("table entry ({:?}, {:?}) = {:?}, expected {:?} [{}]", nt, s, got, want, rules_text(g)));
                    }
                }
                for s in g.non_terminals().chain(std::iter::once(Symbol::Epsilon)) {
                    if t.get_production(nt, &s).is_some() {
                        return Err(format!("table entry for ({:?}, {:?})", nt, s));
                    }
                }
            }
            Ok(())
        }
        Err(LLParserError::ParserTableConflict { non_terminal, terminal, production, existing_production }) => {
            let v = claims.get(&(non_terminal, terminal)).cloned().unwrap_or_default();
            let i = v.iter().position(|p| *p == production);
            let j = v.iter().enumerate().position(|(k, p)| *p == existing_production && Some(k) != i);
            let j2 = if production == existing_production { v.iter().filter(|p| **p == production).count() >= 2 } else { j.is_some() };
            if v.len() < 2 || i.is_none() || !j2 {
                return Err(format!(
                    "reported conflict at ({:?}, {:?}) between {:?} and {:?}; the claims of that cell are {:?} [{}]",
                    non_terminal, terminal, production, existing_production, v, rules_text(g)
                ));
            }
            Ok(())
        }
        Err(e) => Err(format!("unexpected error {:?}", e)),
    }
}

// grammars biased towards LL(1): alternatives starting with distinct terminals
fn rset_ll(r: &mut Rng) -> &'static RuleSet<'static> {
    let nt = r.range(3, 5);
    let np = r.range(1, 4);
    let mut prods = vec![];
    let names: Vec<&'static str> = TOKS[..nt].iter().chain(NAMES[..np].iter()).copied().collect();
    for i in 0..np {
        let alts = r.range(1, 3);
        let mut t = r.below(nt);
        for a in 0..alts {
            let mut els = vec![];
            let kind = r.below(6);
            if kind == 0 {
                els.push(ProductionPattern::Epsilon);
            }
            if kind == 1 && i + 1 < np {
                els.push(ProductionPattern::Rule { rule_name: NAMES[i + 1] });
            } else if kind != 0 {
                els.push(ProductionPattern::Rule { rule_name: TOKS[t % nt] });
                t += 1;
            }
            for _ in 0..r.below(3) {
                els.push(if r.chance(1, 5) { rpp(r, 1, &names, false) } else { ProductionPattern::Rule { rule_name: *r.pick(&names) } });
            }
            if els.is_empty() {
                els.push(ProductionPattern::Epsilon);
            }
            prods.push(prod(100 + 10 * i + a, NAMES[i], ProductionPattern::Sequence { elements: els }));
        }
    }
    Box::leak(Box::new(RuleSet::new(Spanned::new(span(1), EntryRule { name: NAMES[0] }), (0..nt).map(|i| tok(10 + i, TOKS[i])).collect(), prods)))
}

pub fn rset_any(r: &mut Rng) -> &'static RuleSet<'static> {
    match r.below(3) {
        0 => rset_ll(r),
        1 => rset(r, 3),
        _ => rset(r, 2),
    }
}

pub fn c08(cx: &mut Ctx) {
    let mut n = 0;
    while cx.go() {
        n += 1;
        let rs = if n % 3000 == 11 {
            // terminal indices up to the last one
            let k = *cx.rng.pick(&[65535usize, 65536]);
            big2(k)
        } else if cx.rng.chance(2, 3) {
            rset_ll(&mut cx.rng)
        } else {
            rset(&mut cx.rng, 3)
        };
        cx.case(
            || show(rs),
            true,
            || {
                let g = Grammar::from_rule_set(rs).map_err(|e| format!("grammar error {:?}", e))?;
                if rs.token_rules.len() > 1000 {
                    return check_ll_big(&g, rs.token_rules.len());
                }
                check_ll(&g)
            },
        );
    }
}
fn big2(nt: usize) -> &'static RuleSet<'static> {
    let toks = (0..nt).map(|i| tok(10, leak(format!("T{}", i)))).collect();
    let last = leak(format!("T{}", nt - 1));
    let prods = vec![
        prod(100, "P0", ProductionPattern::Rule { rule_name: last }),
        prod(101, "P0", ProductionPattern::Epsilon),
        prod(102, "P1", ProductionPattern::Rule { rule_name: "T0" }),
        prod(103, "P1", ProductionPattern::Rule { rule_name: last }),
    ];
    Box::leak(Box::new(RuleSet::new(Spanned::new(span(1), EntryRule { name: "P0" }), toks, prods)))
}
fn check_ll_big(g: &Grammar, nt: usize) -> Result<(), String> {
    let t = ll_parser::generate_table(g).map_err(|e| format!("{:?}", e))?;
    for p in g.non_terminals() {
        for s in [Symbol::End, Symbol::Terminal(0), Symbol::Terminal((nt - 1) as u16), Symbol::Terminal((nt - 2) as u16)] {
            let want: Vec<&Vec<Symbol>> = g
                .rules()
                .iter()
                .filter(|r| {
                    r.lhs() == Some(p) && (r.rhs()[0] == s || (r.rhs()[0] == Symbol::Epsilon && s == Symbol::End && p == *g.entry_point()))
                })
                .map(|r| r.rhs())
                .collect();
            if t.get_production(p, &s) != want.first().copied() {
                return Err(format!("table entry ({:?}, {:?}) = {:?}, expected {:?}", p, s, t.get_production(p, &s), want));
            }
        }
    }
    Ok(())
}
