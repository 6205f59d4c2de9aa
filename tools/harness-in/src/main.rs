// C17: random grammar files are written as text, read by the generated front end, and compared with
// the rules they were written from.
#[path = "../../harness/src/util.rs"]
mod util;
use lapex_input::*;
use lapex_input_gen::GeneratedLapexInputParser;
use std::collections::BTreeSet;
use util::{leak, Ctx, Rng};

// ---------------------------------------------------------------- regular expressions

#[derive(Clone, Debug)]
enum Re {
    Chars(Vec<(char, char)>, bool),
    Lit(char),
    Dot,
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>),
    Group(Box<Re>),
}
const POOL: &[char] = &['a', 'b', 'c', 'd', 'z', '0', '9', '_', ' ', '"', '/', '+', '.', '*', '(', '\\', '[', '-', '|', '\n', '\t', 'é', '→', '\u{10000}', '\u{7f}', '\u{1}'];

fn rre(r: &mut Rng, d: usize) -> Re {
    let k = if d == 0 { r.below(5) } else { r.below(11) };
    match k {
        0 | 1 | 2 => {
            let pool = if r.chance(2, 3) { &POOL[..5] } else { POOL };
            Re::Lit(*r.pick(pool))
        }
        3 => {
            let n = r.range(1, 3);
            Re::Chars(
                (0..n)
                    .map(|_| {
                        let (a, b) = (*r.pick(POOL), *r.pick(POOL));
                        if r.chance(1, 2) {
                            (a, a)
                        } else {
                            (a.min(b), a.max(b))
                        }
                    })
                    .collect(),
                r.chance(1, 4),
            )
        }
        4 => {
            if r.chance(1, 3) {
                Re::Dot
            } else {
                Re::Lit('a')
            }
        }
        5 | 6 | 7 => {
            let n = r.range(2, 4);
            Re::Cat((0..n).map(|_| rre(r, d - 1)).collect())
        }
        8 => {
            let n = r.range(2, 3);
            Re::Alt((0..n).map(|_| rre(r, d - 1)).collect())
        }
        9 => {
            let min = r.below(4) as u32;
            let max = if r.chance(1, 2) { None } else { Some(min.max(1) + r.below(3) as u32) };
            Re::Rep(Box::new(rre(r, d - 1)), min, max)
        }
        _ => Re::Group(Box::new(rre(r, d - 1))),
    }
}
fn lit(c: char, out: &mut String) {
    match c {
        '\n' => out.push_str("\\n"),
        '\t' => out.push_str("\\t"),
        c if c.is_ascii_punctuation() && c != '_' && c != '"' => {
            out.push('\\');
            out.push(c)
        }
        c if (c as u32) < 32 || c as u32 == 127 => out.push_str(&format!("\\x{:02x}", c as u32)),
        c => out.push(c),
    }
}
fn retext(re: &Re, r: &mut Rng, out: &mut String) {
    match re {
        Re::Lit(c) => lit(*c, out),
        Re::Dot => out.push('.'),
        Re::Chars(v, neg) => {
            out.push('[');
            if *neg {
                out.push('^');
            }
            for (a, b) in v {
                lit(*a, out);
                if a != b {
                    out.push('-');
                    lit(*b, out);
                }
            }
            out.push(']');
        }
        Re::Cat(v) => {
            for e in v {
                if matches!(e, Re::Alt(_)) {
                    out.push_str("(?:");
                    retext(e, r, out);
                    out.push(')');
                } else {
                    retext(e, r, out);
                }
            }
        }
        Re::Alt(v) => {
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    out.push('|');
                }
                retext(e, r, out);
            }
        }
        Re::Rep(e, min, max) => {
            if matches!(**e, Re::Lit(_) | Re::Chars(..) | Re::Dot | Re::Group(_)) {
                retext(e, r, out);
            } else {
                out.push_str("(?:");
                retext(e, r, out);
                out.push(')');
            }
            match (min, max) {
                (0, None) => out.push('*'),
                (1, None) => out.push('+'),
                (0, Some(1)) => out.push('?'),
                (a, None) => out.push_str(&format!("{{{},}}", a)),
                (a, Some(b)) if a == b => out.push_str(&format!("{{{}}}", a)),
                (a, Some(b)) => out.push_str(&format!("{{{},{}}}", a, b)),
            }
        }
        Re::Group(e) => {
            out.push_str(if r.chance(1, 2) { "(" } else { "(?:" });
            retext(e, r, out);
            out.push(')');
        }
    }
}
type Ends = BTreeSet<usize>;
fn rep(w: &[char], from: &Ends, min: u32, max: Option<u32>, f: &dyn Fn(&Ends) -> Ends) -> Ends {
    let mut s = from.clone();
    for _ in 0..min {
        s = f(&s);
    }
    let mut all = s.clone();
    for _ in 0..max.map_or(w.len() as u32 + 2, |m| (m - min).min(w.len() as u32 + 2)) {
        s = f(&s);
        all.extend(s.iter().copied());
    }
    all
}
fn rends(re: &Re, w: &[char], from: &Ends) -> Ends {
    let one = |p: &dyn Fn(char) -> bool| from.iter().filter(|i| **i < w.len() && p(w[**i])).map(|i| i + 1).collect();
    match re {
        Re::Lit(c) => one(&|x| x == *c),
        Re::Dot => one(&|x| x != '\n'),
        Re::Chars(v, neg) => one(&|x| v.iter().any(|(a, b)| *a <= x && x <= *b) != *neg),
        Re::Cat(v) => v.iter().fold(from.clone(), |s, e| rends(e, w, &s)),
        Re::Alt(v) => v.iter().flat_map(|e| rends(e, w, from)).collect(),
        Re::Rep(e, min, max) => rep(w, from, *min, *max, &|s| rends(e, w, s)),
        Re::Group(e) => rends(e, w, from),
    }
}
fn pends(p: &Pattern, w: &[char], from: &Ends) -> Ends {
    let cin = |c: &Characters, x: char| match c {
        Characters::Single(a) => *a == x,
        Characters::Range(a, b) => *a <= x && x <= *b,
    };
    let one = |q: &dyn Fn(char) -> bool| from.iter().filter(|i| **i < w.len() && q(w[**i])).map(|i| i + 1).collect();
    match p {
        Pattern::Sequence { elements } => elements.iter().fold(from.clone(), |s, e| pends(e, w, &s)),
        Pattern::Alternative { elements } => elements.iter().flat_map(|e| pends(e, w, from)).collect(),
        Pattern::Repetition { min, max, inner } => rep(w, from, *min, *max, &|s| pends(inner, w, s)),
        Pattern::CharSet { chars, negated } => one(&|x| chars.iter().any(|c| cin(c, x)) != *negated),
        Pattern::Char { chars } => one(&|x| cin(chars, x)),
    }
}
fn word(re: &Re, r: &mut Rng, out: &mut Vec<char>) {
    match re {
        Re::Lit(c) => out.push(*c),
        Re::Dot => out.push(*r.pick(POOL)),
        Re::Chars(v, neg) => {
            let (a, b) = *r.pick(v);
            let mut c = if r.chance(1, 2) { a } else { b };
            if *neg || r.chance(1, 6) {
                c = char::from_u32(if r.chance(1, 2) { b as u32 + 1 } else { (a as u32).saturating_sub(1) }).unwrap_or('q');
            } else if r.chance(1, 3) {
                c = char::from_u32((a as u32 + b as u32) / 2).unwrap_or(a);
            }
            out.push(c)
        }
        Re::Cat(v) => v.iter().for_each(|e| word(e, r, out)),
        Re::Alt(v) => {
            let i = r.below(v.len());
            word(&v[i], r, out)
        }
        Re::Rep(e, min, max) => {
            let n = match (r.below(5), max) {
                (0, _) => min.saturating_sub(1),
                (1, Some(m)) => *m,
                (2, Some(m)) => m + 1,
                (3, None) => min + 3,
                _ => *min,
            };
            for _ in 0..n {
                if out.len() < 60 {
                    word(e, r, out)
                }
            }
        }
        Re::Group(e) => word(e, r, out),
    }
}

// ---------------------------------------------------------------- production patterns

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Pp {
    Eps,
    Name(String),
    Seq(Vec<Pp>),
    Alt(Vec<Pp>),
    Plus(Box<Pp>),
    Star(Box<Pp>),
    Opt(Box<Pp>),
}
fn rpp(r: &mut Rng, d: usize, names: &[String]) -> Pp {
    let k = if d == 0 { 0 } else { r.below(9) };
    match k {
        0 | 1 => Pp::Name(r.pick(names).clone()),
        2 | 3 => {
            let n = r.range(2, 4);
            Pp::Seq((0..n).map(|_| rpp(r, d - 1, names)).collect())
        }
        4 | 5 => {
            let n = r.range(2, 4);
            Pp::Alt((0..n).map(|_| rpp(r, d - 1, names)).collect())
        }
        6 => Pp::Plus(Box::new(rpp(r, d - 1, names))),
        7 => Pp::Star(Box::new(rpp(r, d - 1, names))),
        _ => {
            if r.chance(1, 4) {
                Pp::Eps
            } else {
                Pp::Opt(Box::new(rpp(r, d - 1, names)))
            }
        }
    }
}
fn ws(r: &mut Rng, must: bool) -> String {
    let mut s = String::new();
    let n = if must { r.range(1, 2) } else { r.below(2) };
    for _ in 0..n {
        s.push_str(*r.pick(&[" ", " ", " ", "\t", "\n", "  ", "\n\n", " \n "]));
    }
    s
}
// level 0: alternative, 1: concatenation element, 2: operand of a postfix operator
fn pptext(p: &Pp, level: usize, r: &mut Rng, out: &mut String) {
    let paren = match p {
        Pp::Name(_) => false,
        Pp::Eps => true,
        Pp::Alt(_) => level >= 1 || r.chance(1, 8),
        Pp::Seq(_) => level >= 2 || (level == 1) || r.chance(1, 8),
        _ => level >= 2,
    };
    // the empty marker may stand alone or in parentheses
    let paren = paren || r.chance(1, 15);
    if paren {
        out.push('(');
        out.push_str(&ws(r, false));
    }
    match p {
        Pp::Eps => out.push('!'),
        Pp::Name(n) => out.push_str(n),
        Pp::Seq(v) => {
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    out.push_str(&ws(r, true));
                }
                pptext(e, 1, r, out);
            }
        }
        Pp::Alt(v) => {
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    out.push_str(&ws(r, false));
                    out.push('|');
                    out.push_str(&ws(r, false));
                }
                if let Pp::Seq(w) = e {
                    for (j, x) in w.iter().enumerate() {
                        if j > 0 {
                            out.push_str(&ws(r, true));
                        }
                        pptext(x, 1, r, out);
                    }
                } else {
                    pptext(e, 1, r, out);
                }
            }
        }
        Pp::Plus(e) | Pp::Star(e) | Pp::Opt(e) => {
            pptext(e, 2, r, out);
            out.push_str(&ws(r, false));
            out.push(match p {
                Pp::Plus(_) => '+',
                Pp::Star(_) => '*',
                _ => '?',
            });
        }
    }
    if paren {
        out.push_str(&ws(r, false));
        out.push(')');
    }
}
// equality up to nesting of sequences in sequences and alternatives in alternatives, and up to the
// order of alternatives
fn norm(p: &Pp) -> Pp {
    match p {
        Pp::Eps | Pp::Name(_) => p.clone(),
        Pp::Seq(v) => {
            let mut o = vec![];
            for e in v {
                match norm(e) {
                    Pp::Seq(w) => o.extend(w),
                    x => o.push(x),
                }
            }
            if o.len() == 1 {
                o.pop().unwrap()
            } else {
                Pp::Seq(o)
            }
        }
        Pp::Alt(v) => {
            let mut o = vec![];
            for e in v {
                match norm(e) {
                    Pp::Alt(w) => o.extend(w),
                    x => o.push(x),
                }
            }
            o.sort();
            if o.len() == 1 {
                o.pop().unwrap()
            } else {
                Pp::Alt(o)
            }
        }
        Pp::Plus(e) => Pp::Plus(Box::new(norm(e))),
        Pp::Star(e) => Pp::Star(Box::new(norm(e))),
        Pp::Opt(e) => Pp::Opt(Box::new(norm(e))),
    }
}
fn conv(p: &ProductionPattern) -> Pp {
    match p {
        ProductionPattern::Epsilon => Pp::Eps,
        ProductionPattern::Rule { rule_name } => Pp::Name(rule_name.to_string()),
        ProductionPattern::Sequence { elements } => Pp::Seq(elements.iter().map(conv).collect()),
        ProductionPattern::Alternative { elements } => Pp::Alt(elements.iter().map(conv).collect()),
        ProductionPattern::OneOrMany { inner } => Pp::Plus(Box::new(conv(inner))),
        ProductionPattern::ZeroOrMany { inner } => Pp::Star(Box::new(conv(inner))),
        ProductionPattern::Optional { inner } => Pp::Opt(Box::new(conv(inner))),
    }
}

// ---------------------------------------------------------------- files

enum R {
    Entry(String),
    Lit(String, Option<u16>, Vec<char>),
    Re(String, Option<u16>, Re, Vec<Vec<char>>),
    Prod(String, Option<String>, Pp),
}
fn ident(r: &mut Rng, i: usize) -> String {
    let base = *r.pick(&["a", "Tok", "x_y", "ENTRY", "tokens", "prod1", "R2D2", "e__", "Zz_9"]);
    format!("{}{}", base, i)
}
fn parse(src: &'static str) -> Result<RuleSet<'static>, String> {
    GeneratedLapexInputParser.parse_lapex(src).map_err(|e| format!("rejected: {}", e))
}

fn c17(cx: &mut Ctx) {
    let mut n = 0;
    while cx.go() {
        n += 1;
        if n % 5 == 0 {
            rejected(cx);
            continue;
        }
        let k = cx.rng.range(1, 6);
        let names: Vec<String> = (0..k + 1).map(|i| ident(&mut cx.rng, i)).collect();
        let mut rules = vec![R::Entry(names[0].clone())];
        for i in 0..k {
            let r = &mut cx.rng;
            let name = if r.chance(1, 4) { names[0].clone() } else { names[i].clone() };
            let prec = if r.chance(1, 3) { Some(*r.pick(&[0u16, 1, 7, 10, 99, 255, 256, 1000, 65535])) } else { None };
            match r.below(4) {
                0 => {
                    let mut v = vec![];
                    for _ in 0..r.below(5) {
                        match *r.pick(POOL) {
                            '"' | '\n' => v.extend(['\\', '"']),
                            '\\' => v.extend(['\\', '\\']),
                            c => v.push(c),
                        }
                    }
                    rules.push(R::Lit(name, prec, v));
                }
                1 => {
                    let d = r.range(0, 3);
                    let re = rre(r, d);
                    let mut ws = vec![vec![]];
                    for _ in 0..12 {
                        let mut w = vec![];
                        word(&re, r, &mut w);
                        if r.chance(1, 4) && !w.is_empty() {
                            let p = r.below(w.len());
                            if r.chance(1, 2) {
                                w.remove(p);
                            } else {
                                w[p] = *r.pick(POOL);
                            }
                        }
                        ws.push(w);
                    }
                    rules.push(R::Re(name, prec, re, ws));
                }
                _ => {
                    let d = r.range(0, 3);
                    let tag = if r.chance(1, 3) { Some(ident(r, i)) } else { None };
                    rules.push(R::Prod(name, tag, rpp(r, d, &names)));
                }
            }
        }
        let len = rules.len();
        for i in (1..len).rev() {
            let j = cx.rng.below(i + 1);
            rules.swap(i, j);
        }
        // the text of each rule, then of the file
        let mut src = ws(&mut cx.rng, false);
        let mut texts = vec![];
        for rule in &rules {
            let r = &mut cx.rng;
            let mut t = String::new();
            let sfx = |r: &mut Rng, x: &Option<String>| match x {
                Some(x) => format!("{}[{}{}{}]", ws(r, false), ws(r, false), x, ws(r, false)),
                None => String::new(),
            };
            match rule {
                R::Entry(n) => t = format!("entry{}{}{};", ws(r, true), n, ws(r, false)),
                R::Lit(n, p, v) => {
                    t = format!("token{}{}{}{}={}\"{}\"{};", ws(r, true), n, sfx(r, &p.map(|x| x.to_string())), ws(r, false), ws(r, false), v.iter().collect::<String>(), ws(r, false))
                }
                R::Re(n, p, re, _) => {
                    let mut x = String::new();
                    retext(re, r, &mut x);
                    t = format!("token{}{}{}{}={}/{}/{};", ws(r, true), n, sfx(r, &p.map(|x| x.to_string())), ws(r, false), ws(r, false), x, ws(r, false))
                }
                R::Prod(n, g, p) => {
                    t.push_str(&format!("prod{}{}{}{}={}", ws(r, true), n, sfx(r, g), ws(r, false), ws(r, false)));
                    pptext(p, 0, r, &mut t);
                    t.push_str(&ws(r, false));
                    t.push(';');
                }
            }
            src.push_str(&t);
            src.push_str(&ws(r, false));
            texts.push(t);
        }
        let src = leak(src);
        cx.case(|| format!("{:?}", src), true, || check(src, &rules, &texts));
    }
}

fn check(src: &'static str, rules: &[R], texts: &[String]) -> Result<(), String> {
    let rs = parse(src)?;
    let span = |s: &SourceSpan, want: &str| match s.substring(src) {
        Some(t) if t == want => Ok(()),
        x => Err(format!("span {:?} is the text {:?}, expected {:?}", s, x, want)),
    };
    // each rule of the file is found once
    let mut toks: Vec<usize> = (0..rs.token_rules.len()).collect();
    let mut prods: Vec<usize> = (0..rs.production_rules.len()).collect();
    for (rule, text) in rules.iter().zip(texts) {
        match rule {
            R::Entry(n) => {
                if rs.entry_rule.inner.name != n {
                    return Err(format!("entry {:?}, expected {:?}", rs.entry_rule.inner.name, n));
                }
                span(&rs.entry_rule.span, text)?;
            }
            R::Lit(n, p, _) | R::Re(n, p, _, _) => {
                let mut why = String::from("no such token");
                let hit = toks.iter().position(|i| {
                    let t = &rs.token_rules[*i];
                    if t.inner.name != n {
                        return false;
                    }
                    match token_is(t, p, rule).and_then(|_| span(&t.span, text)) {
                        Ok(()) => true,
                        Err(e) => {
                            why = e;
                            false
                        }
                    }
                });
                match hit {
                    Some(h) => {
                        toks.remove(h);
                    }
                    None => return Err(format!("token rule {:?} is not in the result: {}", text, why)),
                }
            }
            R::Prod(n, g, p) => {
                let mut why = String::from("no such production");
                let hit = prods.iter().position(|i| {
                    let t = &rs.production_rules[*i];
                    if t.inner.name != n {
                        return false;
                    }
                    let r = if t.inner.tag != g.as_deref() {
                        Err(format!("tag {:?}, expected {:?}", t.inner.tag, g))
                    } else if norm(&conv(&t.inner.pattern)) != norm(p) {
                        Err(format!("pattern {:?}, expected {:?}", norm(&conv(&t.inner.pattern)), norm(p)))
                    } else {
                        span(&t.span, text)
                    };
                    match r {
                        Ok(()) => true,
                        Err(e) => {
                            why = e;
                            false
                        }
                    }
                });
                match hit {
                    Some(h) => {
                        prods.remove(h);
                    }
                    None => return Err(format!("production {:?} is not in the result: {}", text, why)),
                }
            }
        }
    }
    if !toks.is_empty() || !prods.is_empty() {
        return Err(format!("{} token rules and {} productions that the file does not contain", toks.len(), prods.len()));
    }
    Ok(())
}
fn token_is(t: &Spanned<TokenRule>, p: &Option<u16>, rule: &R) -> Result<(), String> {
    if t.inner.precedence != *p {
        return Err(format!("precedence {:?}, expected {:?}", t.inner.precedence, p));
    }
    match (rule, &t.inner.pattern) {
        (R::Lit(_, _, v), TokenPattern::Literal { characters }) => {
            if characters != v {
                return Err(format!("literal {:?}, expected {:?}", characters, v));
            }
            Ok(())
        }
        (R::Re(_, _, re, words), TokenPattern::Pattern { pattern }) => {
            for w in words {
                let want = rends(re, w, &BTreeSet::from([0])).contains(&w.len());
                let got = pends(pattern, w, &BTreeSet::from([0])).contains(&w.len());
                if want != got {
                    return Err(format!("the pattern {} {:?}, the regular expression {:?} does not agree; pattern {:?}", if got { "accepts" } else { "rejects" }, w.iter().collect::<String>(), re, pattern));
                }
            }
            Ok(())
        }
        _ => Err("a literal is read as a regular expression or the other way round".into()),
    }
}

// expressions that have no pattern
fn rejected(cx: &mut Ctx) {
    let d = cx.rng.range(0, 2);
    let re = rre(&mut cx.rng, d);
    let mut x = String::new();
    retext(&Re::Group(Box::new(re)), &mut cx.rng, &mut x);
    let r = &mut cx.rng;
    let bad = match r.below(12) {
        0 => "a*?".to_string(),
        1 => "a+?".to_string(),
        2 => "b??".to_string(),
        3 => "(?:ab){2,3}?".to_string(),
        4 => "^a".to_string(),
        5 => "a$".to_string(),
        6 => r"\ba".to_string(),
        7 => r"a\B".to_string(),
        8 => "()".to_string(),
        9 => "(?:)".to_string(),
        10 => "(?:aa|)".to_string(),
        _ => "(?:b{2,}?)".to_string(),
    };
    let t = match r.below(4) {
        0 => bad.clone(),
        1 if !bad.starts_with("()") && bad != "(?:)" => format!("{}(?:{})", x, bad),
        2 if !bad.starts_with("()") && bad != "(?:)" => format!("(?:{}){}", bad, x),
        _ => format!("zq|(?:xy{}c){{2}}", if bad.starts_with("()") || bad == "(?:)" { "^".into() } else { format!("(?:{})", bad) }),
    };
    let src = leak(format!("token T = /{}/;\nentry e;\nprod e = T;", t));
    cx.case(
        || format!("{:?}", src),
        true,
        || {
            let h = std::panic::catch_unwind(|| parse(src).map(|r| format!("{:?}", r.token_rules[0].inner.pattern)));
            match h {
                Err(_) | Ok(Err(_)) => Ok(()),
                Ok(Ok(p)) => Err(format!("the expression /{}/ contains {} and must be rejected, it is read as {}", t, bad, p)),
            }
        },
    );
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let millis: u64 = a[3].parse().unwrap();
    let work = a.get(4).cloned().unwrap_or("/tmp".into());
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            util::watchdog();
            let mut cx = Ctx::new(seed, millis, &work);
            c17(&mut cx);
            cx.report();
            cx.fail.is_some()
        })
        .unwrap();
    match h.join() {
        Ok(false) => {}
        Ok(true) => std::process::exit(1),
        Err(_) => {
            println!("HARNESS-ERROR");
            std::process::exit(2)
        }
    }
}
