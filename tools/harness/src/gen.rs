// C15 and C16: the emitted Rust programs are compiled, run and compared with the automaton or table
// they were emitted from.
use crate::gram::{rset_any, rules_text, show};
use crate::lex::{rrules, rule_mentioned};
use crate::util::{now_ms, Ctx, Rng, CASE_START};
use lapex_automaton::{AutomatonState, Dfa};
use lapex_codegen::GeneratedCodeWriter;
use lapex_input::*;
use lapex_lexer::{apply_precedence_to_dfa, generate_alphabet, generate_nfa, LexerCodeGen};
use lapex_parser::grammar::{Grammar, Symbol};
use lapex_parser::lr_parser::{generate_table, ActionGotoTable, GenerationResult, LRParserCodeGen, TableEntry};
use lapex_rust_codegen::{RustGLRParserCodeGen, RustLRParserCodeGen, RustLexerCodeGen};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::Command;

// builds src as a program, runs it and returns its output lines "k i text" grouped by (k, i)
fn compile_run(cx: &Ctx, name: &str, src: &str) -> Result<BTreeMap<(usize, usize), String>, String> {
    let dir = std::path::Path::new(&cx.work).join(format!("gen-{}-{}", name, std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let main = dir.join("main.rs");
    let exe = dir.join("main");
    std::fs::write(&main, src).map_err(|e| e.to_string())?;
    let rc = Command::new("rustc")
        .args(["--edition", "2021", "-C", "debuginfo=0", "-A", "warnings", "-o"])
        .arg(&exe)
        .arg(&main)
        .output()
        .map_err(|e| e.to_string())?;
    let clean = |r| {
        let _ = std::fs::remove_file(&exe);
        if std::env::var("HARNESS_KEEP").is_err() {
            let _ = std::fs::remove_file(&main);
            let _ = std::fs::remove_dir(&dir);
        }
        r
    };
    if !rc.status.success() {
        let e = String::from_utf8_lossy(&rc.stderr);
        return clean(Err(format!("the generated code does not compile: {}", e.chars().take(3000).collect::<String>())));
    }
    // a generated program that does not finish is itself a failure
    let out = Command::new("timeout").arg("20").arg(&exe).stderr(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut m = BTreeMap::new();
    for l in text.lines() {
        let mut it = l.splitn(3, ' ');
        if let (Some(a), Some(b), Some(c)) = (it.next(), it.next(), it.next()) {
            if let (Ok(a), Ok(b)) = (a.parse(), b.parse()) {
                m.insert((a, b), c.to_string());
            }
        }
    }
    clean(Ok(m))
}

fn camel(n: &str) -> String {
    n.split('_').map(|s| format!("{}{}", s[..1].to_ascii_uppercase(), s[1..].to_ascii_lowercase())).collect()
}

// ---------------------------------------------------------------- lexers

type D = Dfa<&'static TokenRule<'static>, usize>;

fn build(rules: &'static [Spanned<TokenRule<'static>>]) -> Option<(Vec<std::ops::RangeInclusive<u32>>, D)> {
    let alphabet = generate_alphabet(rules);
    let (start, nfa) = generate_nfa(&alphabet, rules);
    let dfa = nfa.powerset_construction(start);
    let dfa = apply_precedence_to_dfa(dfa).ok()?;
    Some((alphabet.into_ranges(), dfa))
}

// what the automaton says the successive calls of next return
fn oracle(ranges: &[std::ops::RangeInclusive<u32>], dfa: &D, text: &str, calls: usize) -> String {
    let mut trans: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut acc: BTreeMap<usize, String> = BTreeMap::new();
    for (id, st) in dfa.states() {
        for (t, to) in dfa.transitions_from(id) {
            trans.insert((id.index(), *t), to.index());
        }
        if let AutomatonState::Accepting(r) = st {
            acc.insert(id.index(), format!("Tk{}", camel(r.name)));
        }
    }
    let mut out = String::new();
    let mut pos = 0;
    for _ in 0..calls {
        let start = pos;
        let mut st = 0usize;
        let res = loop {
            let c = text[pos..].chars().next();
            let cls = c.map(|c| ranges.iter().position(|r| r.contains(&(c as u32))).unwrap());
            if st == 0 && c.is_none() {
                break "EndOfFile".to_string();
            }
            if let Some(to) = cls.and_then(|k| trans.get(&(st, k))) {
                pos += c.unwrap().len_utf8();
                st = *to;
                continue;
            }
            break match acc.get(&st) {
                Some(n) => n.clone(),
                None => "!".to_string(),
            };
        };
        write!(out, "{}@{}..{};", res, start, pos).unwrap();
    }
    out
}

fn rtext(r: &mut Rng, pool: &[char]) -> String {
    let n = r.below(9);
    let mut s = String::new();
    for _ in 0..n {
        let c = *r.pick(pool);
        for _ in 0..(if r.chance(1, 5) { 3 } else { 1 }) {
            s.push(c);
        }
    }
    s
}

const LEX_DRIVER: &str = r#"
macro_rules! drive { ($m:ident, $k:expr, $i:expr, $text:expr, $calls:expr) => {{
    let r = std::panic::catch_unwind(|| {
        let text: &str = $text;
        let mut lx = $m::lexer::Lexer::new(text);
        let mut out = String::new();
        for _ in 0..$calls {
            let t = match lx.next() { Ok(t) => format!("{:?}", t), Err(_) => "!".to_string() };
            let sp = lx.span();
            if text.get(sp.clone()) != Some(lx.slice()) { out.push_str("<slice differs from the span>"); }
            out.push_str(&format!("{}@{}..{};", t, sp.start, sp.end));
        }
        out
    });
    println!("{} {} {}", $k, $i, r.unwrap_or("panic".to_string()));
}}}
"#;

pub fn c15(cx: &mut Ctx) {
    const EXTRA: &[char] = &['\0', '\u{1}', 'a', 'b', 'q', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{e9}'];
    let mut batch = 0;
    while cx.go() {
        batch += 1;
        let mut src = String::from(LEX_DRIVER);
        let mut body = String::new();
        let mut want: Vec<((usize, usize), String, String)> = vec![];
        CASE_START.store(now_ms(), std::sync::atomic::Ordering::SeqCst);
        let mut k = 0;
        let mut tries = 0;
        while k < 40 && tries < 400 {
            tries += 1;
            let small = cx.rng.chance(2, 3);
            let d = cx.rng.range(0, 3);
            let mut rules = rrules(&mut cx.rng, 4, d, small);
            if rules.is_empty() {
                continue;
            }
            let n = rules.len();
            for (i, r) in rules.iter_mut().enumerate() {
                if cx.rng.chance(3, 4) {
                    r.inner.precedence = Some(((i * 7 + 3) % n) as u16 + (i as u16) * 8);
                }
                // token names in snake case become enum variants
                if cx.rng.chance(1, 3) {
                    r.inner.name = crate::util::leak(format!("tok_{}_x{}", ["a", "bc", "d"][i % 3], i));
                }
            }
            let rules: &'static [Spanned<TokenRule<'static>>] = Box::leak(rules.into_boxed_slice());
            let Some((ranges, dfa)) = build(rules) else { continue };
            if dfa.states().count() > 60 {
                continue;
            }
            let (mut toks, mut lex) = (Vec::new(), Vec::new());
            {
                let mut gen = GeneratedCodeWriter::with_default(|_| Ok(std::io::sink()));
                gen.add_target("tokens.rs", &mut toks);
                gen.add_target("lexer.rs", &mut lex);
                let cg = RustLexerCodeGen::new();
                cg.generate_tokens(rules, &mut gen);
                cg.generate_lexer(rules, &ranges, &dfa, &mut gen);
            }
            writeln!(
                src,
                "mod g{} {{ pub mod tokens {{ {} }} pub mod lexer {{ {} }} }}",
                k,
                String::from_utf8(toks).unwrap(),
                String::from_utf8(lex).unwrap()
            )
            .unwrap();
            // the ends and a middle of every symbol class
            let mut pool: Vec<char> = ranges.iter().flat_map(|r| [*r.start(), *r.end(), (r.start() + r.end()) / 2, r.end().saturating_sub(1)]).filter_map(char::from_u32).collect();
            let mut m = vec![];
            rules.iter().for_each(|r| rule_mentioned(&r.inner, &mut m));
            pool.extend(m.iter().flat_map(|(a, b)| [*a, *b, a + 1, b + 1]).filter_map(char::from_u32));
            let hot = pool.clone();
            pool.extend_from_slice(EXTRA);
            for i in 0..10 {
                let text = if i == 0 { String::new() } else if i < 6 && !hot.is_empty() { rtext(&mut cx.rng, &hot) } else { rtext(&mut cx.rng, &pool) };
                let calls = text.chars().count() + 3;
                writeln!(body, "drive!(g{}, {}, {}, {:?}, {});", k, k, i, text, calls).unwrap();
                let desc = format!(
                    "token rules {:?}; input {:?}",
                    rules.iter().map(|r| (r.inner.name, r.inner.precedence, &r.inner.pattern)).collect::<Vec<_>>(),
                    text
                );
                want.push(((k, i), oracle(&ranges, &dfa, &text, calls), desc));
            }
            k += 1;
        }
        writeln!(src, "fn main() {{ std::panic::set_hook(Box::new(|_| {{}}));\n{} }}", body).unwrap();
        let res = compile_run(cx, &format!("c15-{}", batch), &src);
        CASE_START.store(0, std::sync::atomic::Ordering::SeqCst);
        finish(cx, res, want);
    }
}

fn finish(cx: &mut Ctx, res: Result<BTreeMap<(usize, usize), String>, String>, want: Vec<((usize, usize), String, String)>) {
    match res {
        Err(e) => cx.case(|| "a batch of generated programs".into(), true, || Err(e)),
        Ok(got) => {
            for (key, w, desc) in want {
                let g = got.get(&key).cloned().unwrap_or("no answer (the program did not finish)".into());
                cx.case(
                    || desc.clone(),
                    true,
                    || {
                        if g == w {
                            Ok(())
                        } else {
                            Err(format!("generated program: {}\nexpected:          {}", g, w))
                        }
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------- LR parsers

// the run the table prescribes: shifts (token, data) and reductions (rule index), then the outcome
fn lr_oracle(g: &Grammar, t: &ActionGotoTable, names: &BTreeMap<usize, String>, toks: &[usize]) -> String {
    let mut out = String::new();
    let mut stack: Vec<usize> = vec![t.entry_state()];
    let mut at = 0;
    let token = |i: usize| -> Symbol {
        if i < toks.len() {
            g.terminals().nth(toks[i]).unwrap()
        } else {
            Symbol::End
        }
    };
    for _ in 0..400 {
        let st = *stack.last().unwrap();
        let la = token(at);
        let e = t.get_entry(st, la).and_then(|v| v.first());
        match e {
            Some(TableEntry::Shift { target }) => {
                write!(out, "s{}:{};", tname(g, la), at).unwrap();
                at += 1;
                stack.push(*target);
            }
            Some(TableEntry::Reduce { rule }) => {
                let i = g.rules().iter().position(|r| r as *const _ as *const u8 == *rule as *const _ as *const u8).unwrap();
                write!(out, "{};", names[&i]).unwrap();
                let n = rule.rhs().iter().filter(|s| !matches!(s, Symbol::Epsilon)).count();
                for _ in 0..n {
                    stack.pop();
                }
                let st = *stack.last().unwrap();
                match t.get_entry(st, rule.lhs().unwrap()).and_then(|v| v.first()) {
                    Some(TableEntry::Shift { target }) => stack.push(*target),
                    Some(TableEntry::Accept) => {
                        write!(out, "ok read {}", at + 1).unwrap();
                        return out;
                    }
                    _ => {
                        write!(out, "stuck").unwrap();
                        return out;
                    }
                }
            }
            _ => {
                let exp: Vec<String> = g
                    .terminals()
                    .chain(std::iter::once(Symbol::End))
                    .filter(|s| matches!(t.get_entry(st, *s).and_then(|v| v.first()), Some(TableEntry::Shift { .. } | TableEntry::Reduce { .. })))
                    .map(|s| tname(g, s))
                    .collect();
                let mut exp = exp;
                exp.sort();
                write!(out, "unexpected {} expected {:?} read {}", tname(g, la), exp, at + 1).unwrap();
                return out;
            }
        }
    }
    "long".into()
}
fn tname(g: &Grammar, s: Symbol) -> String {
    match s {
        Symbol::Terminal(i) => format!("Tk{}", camel(g.get_token_name(i))),
        _ => "EndOfFile".into(),
    }
}

const LR_DRIVER: &str = r#"
type Log = std::rc::Rc<std::cell::RefCell<String>>;
macro_rules! drive { ($m:ident, $k:expr, $i:expr, [$($tok:ident),*]) => {{
    let r = std::panic::catch_unwind(|| {
        use $m::tokens::TokenType;
        let toks: Vec<TokenType> = vec![$(TokenType::$tok),*];
        let mut at = 0usize;
        let log: Log = Default::default();
        let reads = std::rc::Rc::new(std::cell::Cell::new(0usize));
        let rd = reads.clone();
        let mut p = $m::parser::Parser::new(move || {
            rd.set(rd.get() + 1);
            if rd.get() > 500 { panic!("too many reads"); }
            let t = if at < toks.len() { toks[at] } else { TokenType::EndOfFile };
            at += 1;
            (t, at - 1)
        }, $m::V(log.clone()));
        let r = p.parse();
        let mut out = log.borrow().clone();
        match r {
            Ok(()) => out.push_str(&format!("ok read {}", reads.get())),
            Err($m::parser::ParserError::UnexpectedToken { got, expected }) => {
                let mut exp: Vec<String> = expected.iter().map(|t| format!("{:?}", t)).collect();
                exp.sort();
                out.push_str(&format!("unexpected {:?} expected {:?} read {}", got, exp, reads.get()));
            }
        }
        out
    });
    println!("{} {} {}", $k, $i, r.unwrap_or("panic".to_string()));
}}}
"#;

fn visit_names(g: &Grammar) -> BTreeMap<usize, String> {
    // name of each rule's visitor method
    let mut by_nt: BTreeMap<Symbol, Vec<usize>> = BTreeMap::new();
    for (i, r) in g.rules().iter().enumerate() {
        by_nt.entry(r.lhs().unwrap()).or_default().push(i);
    }
    let mut names: BTreeMap<usize, String> = BTreeMap::new();
    for (nt, rules) in &by_nt {
        let base = match (g.get_production_name(nt), nt) {
            (Some(n), _) => n.to_string(),
            (None, Symbol::NonTerminal(i)) => format!("anon{}", i),
            _ => unreachable!(),
        };
        for (j, i) in rules.iter().enumerate() {
            let r = &g.rules()[*i];
            let n = if rules.len() == 1 {
                format!("reduce_{}", base)
            } else if let Some(tag) = r.rule().inner.tag {
                format!("reduce_{}_{}", base, tag)
            } else {
                format!("reduce_{}_{}", base, j + 1)
            };
            names.insert(*i, n);
        }
    }
    names
}

pub fn c16(cx: &mut Ctx) {
    let mut batch = 0;
    while cx.go() {
        batch += 1;
        let mut src = String::from(LR_DRIVER);
        let mut body = String::new();
        let mut want: Vec<((usize, usize), String, String)> = vec![];
        CASE_START.store(now_ms(), std::sync::atomic::Ordering::SeqCst);
        let mut k = 0;
        let mut tries = 0;
        while k < 30 && tries < 1500 {
            tries += 1;
            let rs = rset_any(&mut cx.rng);
            let tagged = cx.rng.chance(1, 3);
            let rs = if tagged { with_tags(rs) } else { rs };
            let Ok(g) = Grammar::from_rule_set(rs) else { continue };
            let lr1 = cx.rng.chance(2, 3);
            if lr1 && g.rules().len() > 14 {
                continue;
            }
            let r0;
            let r1;
            let t: &ActionGotoTable = if lr1 {
                r1 = generate_table::<1>(&g, false, cx.rng.chance(1, 2));
                match &r1 {
                    GenerationResult::NoConflicts(t) => t,
                    _ => continue,
                }
            } else {
                r0 = generate_table::<0>(&g, false, false);
                match &r0 {
                    GenerationResult::NoConflicts(t) => t,
                    _ => continue,
                }
            };
            if t.states() > 60 {
                continue;
            }
            let names = visit_names(&g);
            let distinct: std::collections::BTreeSet<&String> = names.values().collect();
            if distinct.len() != names.len() {
                continue;
            }
            let mut toks = Vec::new();
            let mut parser = Vec::new();
            {
                let mut gen = GeneratedCodeWriter::with_default(|_| Ok(std::io::sink()));
                gen.add_target("tokens.rs", &mut toks);
                gen.add_target("parser.rs", &mut parser);
                RustLexerCodeGen::new().generate_tokens(&rs.token_rules, &mut gen);
                RustLRParserCodeGen::new().generate_code(&g, t, &mut gen);
            }
            writeln!(
                src,
                "mod g{} {{ pub mod tokens {{ {} }} pub mod parser {{ {} }} pub struct V(pub super::Log); impl parser::Visitor<usize> for V {{ fn shift(&mut self, token: tokens::TokenType, data: usize) {{ self.0.borrow_mut().push_str(&format!(\"s{{:?}}:{{}};\", token, data)); }} {} }} }}",
                k,
                String::from_utf8(toks).unwrap(),
                String::from_utf8(parser).unwrap(),
                names.values().map(|n| format!("fn {}(&mut self) {{ self.0.borrow_mut().push_str(\"{};\"); }}", n, n)).collect::<String>(),
            )
            .unwrap();
            let nt = g.terminals().count();
            let sents = sentences(&mut cx.rng, &g, 8);
            let mut i = 0;
            for s in 0..16 {
                let mut toks: Vec<usize> = if s < 8 && s < sents.len() { sents[s].clone() } else { (0..cx.rng.below(8)).map(|_| cx.rng.below(nt)).collect() };
                if s >= 4 && !toks.is_empty() && cx.rng.chance(1, 2) {
                    let p = cx.rng.below(toks.len());
                    if cx.rng.chance(1, 2) {
                        toks.remove(p);
                    } else {
                        toks[p] = cx.rng.below(nt);
                    }
                }
                let w = lr_oracle(&g, t, &names, &toks);
                if w == "long" {
                    continue;
                }
                let tn: Vec<String> = toks.iter().map(|x| tname(&g, g.terminals().nth(*x).unwrap())).collect();
                writeln!(body, "drive!(g{}, {}, {}, [{}]);", k, k, i, tn.join(",")).unwrap();
                want.push(((k, i), w, format!("{} [LR({})] rules {}; tokens {:?}", show(rs), lr1 as u8, rules_text(&g), tn)));
                i += 1;
            }
            k += 1;
        }
        writeln!(src, "fn main() {{ std::panic::set_hook(Box::new(|_| {{}}));\n{} }}", body).unwrap();
        let res = compile_run(cx, &format!("c16-{}", batch), &src);
        CASE_START.store(0, std::sync::atomic::Ordering::SeqCst);
        finish(cx, res, want);
    }
}

// ---------------------------------------------------------------- GLR tables
// what the emitted parser answers when it asks its table, compared with the table
pub fn c22(cx: &mut Ctx) {
    let mut batch = 0;
    while cx.go() {
        batch += 1;
        let mut src = String::from("type Log = std::rc::Rc<std::cell::RefCell<String>>;\n");
        let mut plain = src.clone();
        let mut body = String::new();
        let mut want: Vec<((usize, usize), String, String)> = vec![];
        CASE_START.store(now_ms(), std::sync::atomic::Ordering::SeqCst);
        let mut k = 0;
        let mut tries = 0;
        while k < 30 && tries < 1500 {
            tries += 1;
            let rs = rset_any(&mut cx.rng);
            let tagged = cx.rng.chance(1, 3);
            let rs = if tagged { with_tags(rs) } else { rs };
            let Ok(g) = Grammar::from_rule_set(rs) else { continue };
            let lr1 = cx.rng.chance(2, 3);
            if lr1 && g.rules().len() > 14 {
                continue;
            }
            let r0;
            let r1;
            let few = cx.rng.chance(2, 3);
            let t: &ActionGotoTable = if lr1 {
                r1 = generate_table::<1>(&g, true, cx.rng.chance(1, 2));
                match &r1 {
                    GenerationResult::NoConflicts(t) if !few => t,
                    GenerationResult::AllowedConflicts { table, .. } => table,
                    _ => continue,
                }
            } else {
                r0 = generate_table::<0>(&g, true, false);
                match &r0 {
                    GenerationResult::NoConflicts(t) if !few => t,
                    GenerationResult::AllowedConflicts { table, .. } => table,
                    _ => continue,
                }
            };
            if t.states() > 40 {
                continue;
            }
            let names = visit_names(&g);
            let distinct: std::collections::BTreeSet<&String> = names.values().collect();
            if distinct.len() != names.len() {
                continue;
            }
            let mut toks = Vec::new();
            let mut parser = Vec::new();
            {
                let mut gen = GeneratedCodeWriter::with_default(|_| Ok(std::io::sink()));
                gen.add_target("tokens.rs", &mut toks);
                gen.add_target("parser.rs", &mut parser);
                RustLexerCodeGen::new().generate_tokens(&rs.token_rules, &mut gen);
                RustGLRParserCodeGen::new().generate_code(&g, t, &mut gen);
            }
            let ts: Vec<Symbol> = g.terminals().chain(std::iter::once(Symbol::End)).collect();
            let nts: Vec<(Symbol, String)> = g.non_terminals().map(|s| (s, nname(&g, s))).collect();
            // asks every question
            let mut dump = String::new();
            write!(
                dump,
                "pub fn vx_dump<V: Visitor<usize>>(k: usize, v: V, log: super::super::Log) {{ \
                 let mut p = Parser::new(|| -> Result<(TokenType, usize), std::fmt::Error> {{ Ok((TokenType::EndOfFile, 0)) }}, v); \
                 for q in 0..{} {{ \
                   let mut out = String::new(); \
                   for t in [{}] {{ \
                     out.push_str(&format!(\"{{:?}}:\", t)); \
                     match p.next_actions(q, t, 7) {{ \
                       Ok(l) => for a in l {{ match a {{ Action::Shift => out.push_str(\" shift\"), Action::Reduce {{ rule }} => {{ p.do_visit(rule); out.push(' '); out.push_str(&log.borrow_mut().split_off(0)); }} }} }}, \
                       Err(ParserError::UnexpectedToken {{ got, got_data, .. }}) => out.push_str(&format!(\" unexpected {{:?}} {{}}\", got, got_data)), \
                       Err(_) => out.push_str(\" another error\"), \
                     }} \
                     out.push_str(\"; \"); \
                   }} \
                   for s in [{}] as [StackSymbol; {}] {{ \
                     match p.next_goto(&q, &s) {{ Some(Goto::State {{ state_id }}) => out.push_str(&format!(\"{{}},\", state_id)), Some(Goto::Accept) => out.push_str(\"accept,\"), None => out.push_str(\"-,\") }} \
                   }} \
                   println!(\"{{}} {{}} {{}}\", k, q, out); \
                 }} \
                 for (i, r) in [{}].iter().enumerate() {{ \
                   let (n, s) = p.get_rule_reduction(r); \
                   p.do_visit(r); \
                   println!(\"{{}} {{}} {{}} {{:?}} {{}}\", k, {} + i, n, s, log.borrow_mut().split_off(0)); \
                 }} }}",
                t.states(),
                ts.iter().map(|s| format!("TokenType::{}", tname(&g, *s))).collect::<Vec<_>>().join(","),
                g.terminals()
                    .map(|s| format!("StackSymbol::Terminal {{ token: TokenType::{} }}", tname(&g, s)))
                    .chain(nts.iter().map(|s| format!("StackSymbol::NonTerminal {{ non_terminal: NonTerminalType::{} }}", s.1)))
                    .collect::<Vec<_>>()
                    .join(","),
                ts.len() - 1 + nts.len(),
                (0..g.rules().len()).map(|i| format!("ReducedRule::Rule{}", i)).collect::<Vec<_>>().join(","),
                t.states(),
            )
            .unwrap();
            for (o, d) in [(&mut src, dump.as_str()), (&mut plain, "")] {
                writeln!(
                    o,
                    "mod g{} {{ pub mod tokens {{ {} }} pub mod parser {{ {} {} }} pub struct V(pub super::Log); impl parser::Visitor<usize> for V {{ fn shift(&mut self, token: tokens::TokenType, data: usize) {{ let _ = (token, data); }} {} }} }}",
                    k,
                    String::from_utf8(toks.clone()).unwrap(),
                    String::from_utf8(parser.clone()).unwrap(),
                    d,
                    names.values().map(|n| format!("fn {}(&mut self) {{ self.0.borrow_mut().push_str(\"{}\"); }}", n, n)).collect::<String>(),
                )
                .unwrap();
            }
            writeln!(body, "{{ let log: Log = Default::default(); g{}::parser::vx_dump({}, g{}::V(log.clone()), log); }}", k, k, k).unwrap();
            let desc = format!("{} [LR({})] rules {}", show(rs), lr1 as u8, rules_text(&g));
            let number = |rule: &lapex_parser::grammar::Rule| g.rules().iter().position(|r| r as *const _ as *const u8 == rule as *const _ as *const u8).unwrap();
            for q in 0..t.states() {
                let mut w = String::new();
                for s in &ts {
                    write!(w, "{}:", tname(&g, *s)).unwrap();
                    let mut any = false;
                    for e in t.get_entry(q, *s).map(|v| v.as_slice()).unwrap_or(&[]) {
                        match e {
                            TableEntry::Shift { .. } => w.push_str(" shift"),
                            TableEntry::Reduce { rule } => write!(w, " {}", names[&number(rule)]).unwrap(),
                            _ => continue,
                        }
                        any = true;
                    }
                    if !any {
                        write!(w, " unexpected {} 7", tname(&g, *s)).unwrap();
                    }
                    w.push_str("; ");
                }
                for s in g.terminals().chain(nts.iter().map(|s| s.0)) {
                    let m = t.get_entry(q, s).and_then(|v| v.iter().find(|e| matches!(e, TableEntry::Shift { .. } | TableEntry::Accept)));
                    match m {
                        Some(TableEntry::Shift { target }) => write!(w, "{},", target).unwrap(),
                        Some(_) => w.push_str("accept,"),
                        None => w.push_str("-,"),
                    }
                }
                want.push(((k, q), w, format!("{}; questions in state {}", desc, q)));
            }
            for (i, r) in g.rules().iter().enumerate() {
                let n = r.rhs().iter().filter(|s| !matches!(s, Symbol::Epsilon)).count();
                let w = format!("{} NonTerminal {{ non_terminal: {} }} {}", n, nname(&g, r.lhs().unwrap()), names[&i]);
                want.push(((k, t.states() + i), w, format!("{}; the reduction of rule {}", desc, i)));
            }
            k += 1;
        }
        let main = "fn main() { std::panic::set_hook(Box::new(|_| {}));\n";
        writeln!(src, "{}{} }}", main, body).unwrap();
        writeln!(plain, "{} }}", main).unwrap();
        let mut res = compile_run(cx, &format!("c22-{}", batch), &src);
        let mut asked = true;
        if matches!(&res, Err(e) if e.starts_with("the generated code does not compile")) {
            // the questions are named otherwise now: only whether the code compiles can be told
            asked = false;
            res = compile_run(cx, &format!("c22-{}", batch), &plain);
            want.clear();
        }
        CASE_START.store(0, std::sync::atomic::Ordering::SeqCst);
        finish(cx, res, want);
        if !asked {
            println!("NOTE: the generated parser's next_actions, next_goto, get_rule_reduction or do_visit is written otherwise; not run");
            break;
        }
    }
}
fn nname(g: &Grammar, s: Symbol) -> String {
    match (g.get_production_name(&s), s) {
        (Some(n), _) => format!("Nt{}", camel(n)),
        (None, Symbol::NonTerminal(i)) => format!("NtAnon{}", i),
        _ => unreachable!(),
    }
}

fn copy(p: &ProductionPattern<'static>) -> ProductionPattern<'static> {
    use ProductionPattern::*;
    match p {
        Epsilon => Epsilon,
        Rule { rule_name } => Rule { rule_name },
        Sequence { elements } => Sequence { elements: elements.iter().map(copy).collect() },
        Alternative { elements } => Alternative { elements: elements.iter().map(copy).collect() },
        OneOrMany { inner } => OneOrMany { inner: Box::new(copy(inner)) },
        ZeroOrMany { inner } => ZeroOrMany { inner: Box::new(copy(inner)) },
        Optional { inner } => Optional { inner: Box::new(copy(inner)) },
    }
}
fn with_tags(rs: &'static RuleSet<'static>) -> &'static RuleSet<'static> {
    const TAGS: &[&str] = &["one", "two", "three", "four", "five", "six", "seven", "eight", "nine"];
    let prods = rs
        .production_rules
        .iter()
        .enumerate()
        .map(|(i, p)| Spanned::new(p.span, ProductionRule { name: p.inner.name, tag: if i % 3 != 1 && i < 9 { Some(TAGS[i]) } else { None }, pattern: copy(&p.inner.pattern) }))
        .collect();
    Box::leak(Box::new(RuleSet::new(Spanned::new(rs.entry_rule.span, EntryRule { name: rs.entry_rule.inner.name }), rs.token_rules.iter().map(|t| Spanned::new(t.span, TokenRule { name: t.inner.name, precedence: None, pattern: TokenPattern::Literal { characters: vec!['a'] } })).collect(), prods)))
}

// random derivations from the entry symbol
fn sentences(r: &mut Rng, g: &Grammar, n: usize) -> Vec<Vec<usize>> {
    let terms: Vec<Symbol> = g.terminals().collect();
    let mut out = vec![];
    for _ in 0..n {
        let mut form: Vec<Symbol> = vec![*g.entry_point()];
        let mut steps = 0;
        while let Some(p) = form.iter().position(|s| matches!(s, Symbol::NonTerminal(_))) {
            steps += 1;
            if steps > 60 || form.len() > 30 {
                break;
            }
            let cands: Vec<_> = g.rules().iter().filter(|x| x.lhs() == Some(form[p])).collect();
            if cands.is_empty() {
                break;
            }
            let c = if steps > 12 { cands.iter().min_by_key(|c| c.rhs().len()).unwrap() } else { r.pick(&cands) };
            let rhs: Vec<Symbol> = c.rhs().iter().copied().filter(|s| !matches!(s, Symbol::Epsilon)).collect();
            form.splice(p..=p, rhs);
        }
        let s: Vec<usize> = form.iter().filter_map(|s| terms.iter().position(|t| t == s)).collect();
        out.push(s.into_iter().take(40).collect());
    }
    out
}
