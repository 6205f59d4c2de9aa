// C19: the emitted C++ programs are compiled with g++, run, and compared with the automaton or table they
// were emitted from.
#[path = "../../harness/src/gram.rs"]
#[allow(dead_code)]
mod gram;
#[path = "../../harness/src/lex.rs"]
#[allow(dead_code)]
mod lex;
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;
use crate::gram::{rset_any, rules_text, show};
use crate::lex::{rrules, rule_mentioned};
use crate::util::{leak, now_ms, Ctx, Rng, CASE_START};
use lapex_automaton::{AutomatonState, Dfa};
use lapex_codegen::GeneratedCodeWriter;
use lapex_cpp_codegen::{CppLLParserCodeGen, CppLRParserCodeGen, CppLexerCodeGen};
use lapex_input::*;
use lapex_lexer::{apply_precedence_to_dfa, generate_alphabet, generate_nfa, LexerCodeGen};
use lapex_parser::grammar::{Grammar, Symbol};
use lapex_parser::ll_parser::{self, LLParserCodeGen, LLParserTable};
use lapex_parser::lr_parser::{generate_table, ActionGotoTable, GenerationResult, LRParserCodeGen, TableEntry};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::process::Command;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let millis: u64 = a[3].parse().unwrap();
    let work = a.get(4).cloned().unwrap_or("/tmp".into());
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            util::watchdog();
            util::CASE_LIMIT_MS.store(150_000, std::sync::atomic::Ordering::SeqCst);
            let mut cx = Ctx::new(seed, millis, &work);
            c19(&mut cx);
            cx.report();
            cx.fail.is_some()
        })
        .unwrap();
    match h.join() {
        Ok(false) => {}
        Ok(true) => std::process::exit(1),
        Err(_) => {
            println!("HARNESS-ERROR");
            std::process::exit(2)
        }
    }
}

type Want = Vec<((usize, usize), String, String)>;

// one emitted program: its files, and the code that drives it
struct Unit {
    files: BTreeMap<String, String>,
    body: String,
    want: Vec<(String, String)>, // expected line, description
}

// the files of one unit as one text: includes of its own files are expanded in place (once each)
fn expand(files: &BTreeMap<String, String>, name: &str, seen: &mut BTreeSet<String>, sys: &mut BTreeSet<String>, out: &mut String) {
    if !seen.insert(name.to_string()) {
        return;
    }
    let Some(text) = files.get(name) else {
        writeln!(out, "#error \"{} is not emitted\"", name).unwrap();
        return;
    };
    for l in text.lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("#include") {
            let r = r.trim();
            if let Some(q) = r.strip_prefix('"') {
                expand(files, q.trim_end_matches('"'), seen, sys, out);
            } else {
                sys.insert(r.to_string());
            }
        } else if !t.starts_with("#pragma once") {
            writeln!(out, "{}", l).unwrap();
        }
    }
}

fn compile_run(work: &str, name: &str, src: &str) -> Result<BTreeMap<(usize, usize), String>, String> {
    let dir = std::path::Path::new(work).join(format!("cpp-{}-{}", name, std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let main = dir.join("main.cpp");
    let exe = dir.join("main");
    std::fs::write(&main, src).map_err(|e| e.to_string())?;
    let rc = Command::new("timeout").args(["100", "g++", "-std=c++17", "-w", "-O0", "-fmax-errors=3", "-o"]).arg(&exe).arg(&main).output().map_err(|e| e.to_string())?;
    let clean = |r| {
        let _ = std::fs::remove_file(&exe);
        if std::env::var("HARNESS_KEEP").is_err() {
            let _ = std::fs::remove_file(&main);
            let _ = std::fs::remove_dir(&dir);
        }
        r
    };
    if !rc.status.success() {
        let e = String::from_utf8_lossy(&rc.stderr);
        return clean(Err(format!("the generated code does not compile: {}", e.chars().take(3000).collect::<String>())));
    }
    let out = Command::new("timeout").arg("20").arg(&exe).stderr(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut m = BTreeMap::new();
    for l in text.lines() {
        let mut it = l.splitn(3, ' ');
        if let (Some(a), Some(b), Some(c)) = (it.next(), it.next(), it.next()) {
            if let (Ok(a), Ok(b)) = (a.parse(), b.parse()) {
                m.insert((a, b), c.to_string());
            }
        }
    }
    clean(Ok(m))
}

// every case runs in its own process: a crash or an endless loop of one does not hide the others
const DRIVER: &str = r#"
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <string>
#include <sstream>
#include <vector>
#include <stdexcept>
#include <functional>
static void vx_cases(int k, int n, std::string (*f)(int)) { for (int i = 0; i < n; i++) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        alarm(5);
        std::string s;
        try { s = f(i); } catch (std::exception &e) { s = std::string("uncaught ") + e.what(); }
        printf("%d %d %s\n", k, i, s.c_str());
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("%d %d crashed or did not finish\n", k, i); fflush(stdout); }
} }
"#;

// one program text for some units, and what it should print
fn prepare(units: &[Unit]) -> (String, Want) {
    let mut sys = BTreeSet::new();
    let mut text = String::new();
    let mut body = String::new();
    let mut want: Want = vec![];
    for (k, u) in units.iter().enumerate() {
        let mut seen = BTreeSet::new();
        writeln!(text, "namespace g{} {{", k).unwrap();
        for f in u.files.keys() {
            expand(&u.files, f, &mut seen, &mut sys, &mut text);
            text.push('\n');
        }
        writeln!(text, "}}").unwrap();
        body.push_str(&u.body.replace("@K", &k.to_string()));
        for (i, (w, d)) in u.want.iter().enumerate() {
            want.push(((k, i), w.clone(), d.clone()));
        }
    }
    let mut src = String::new();
    for s in &sys {
        writeln!(src, "#include {}", s).unwrap();
    }
    writeln!(src, "{}\n{}", DRIVER, text).unwrap();
    let mut split = body.split("//MAIN");
    let (mut decls, mut calls) = (split.next().unwrap().to_string(), String::new());
    for part in split {
        let (c, d) = part.split_once("//DECL").unwrap_or((part, ""));
        calls.push_str(c);
        decls.push_str(d);
    }
    writeln!(src, "{}\nint main() {{\n{}\nreturn 0; }}", decls, calls).unwrap();
    (src, want)
}

// the emitted files as they are, in a directory of their own, each source compiled by itself
fn separate(work: &str, name: &str, u: &Unit) -> Result<(), String> {
    let dir = std::path::Path::new(work).join(format!("cpps-{}-{}", name, std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    for (f, t) in &u.files {
        std::fs::write(dir.join(f), t).map_err(|e| e.to_string())?;
    }
    let mut res = Ok(());
    for f in u.files.keys().filter(|f| f.ends_with(".cpp")) {
        let rc = Command::new("timeout").args(["100", "g++", "-std=c++17", "-w", "-fsyntax-only", "-fmax-errors=3"]).arg(dir.join(f)).output().map_err(|e| e.to_string())?;
        if !rc.status.success() {
            res = Err(format!("{} does not compile: {}", f, String::from_utf8_lossy(&rc.stderr).chars().take(2000).collect::<String>()));
        }
    }
    for f in u.files.keys() {
        let _ = std::fs::remove_file(dir.join(f));
    }
    let _ = std::fs::remove_dir(&dir);
    res
}

fn run(cx: &mut Ctx, batches: Vec<Vec<Unit>>) {
    let progs: Vec<(String, Want)> = batches.iter().map(|u| prepare(u)).collect();
    let work = cx.work.clone();
    let res: Vec<Result<BTreeMap<(usize, usize), String>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = progs.iter().enumerate().map(|(i, p)| { let work = &work; s.spawn(move || compile_run(work, &format!("b{}", i), &p.0)) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("the compiler was not run".into()))).collect()
    });
    CASE_START.store(0, std::sync::atomic::Ordering::SeqCst);
    for ((units, (_, want)), res) in batches.into_iter().zip(progs).zip(res) {
        if cx.fail.is_some() {
            return;
        }
        match res {
            Err(e) if units.len() > 1 => {
                // which one?
                for u in units {
                    CASE_START.store(now_ms(), std::sync::atomic::Ordering::SeqCst);
                    run(cx, vec![vec![u]]);
                    if cx.fail.is_some() {
                        return;
                    }
                }
                cx.case(|| "a batch of generated programs".into(), true, || Err(e));
            }
            Err(e) => {
                let d = units.iter().flat_map(|u| u.want.iter().map(|w| w.1.clone())).next().unwrap_or_default();
                cx.case(|| d.clone(), true, || Err(e));
            }
            Ok(got) => {
                for (key, w, desc) in want {
                    let g = got.get(&key).cloned().unwrap_or("no answer (the program did not finish)".into());
                    cx.case(|| desc.clone(), true, || if g == w { Ok(()) } else { Err(format!("generated program: {}\nexpected:          {}", g, w)) });
                }
            }
        }
    }
}

fn emit(files: &[&str], f: impl FnOnce(&mut GeneratedCodeWriter)) -> BTreeMap<String, String> {
    let mut bufs: Vec<Vec<u8>> = files.iter().map(|_| Vec::new()).collect();
    {
        let mut gen = GeneratedCodeWriter::with_default(|n| Err::<std::io::Sink, _>(std::io::Error::new(std::io::ErrorKind::Other, format!("unexpected file {}", n))));
        for (n, b) in files.iter().zip(bufs.iter_mut()) {
            gen.add_target(leak(n.to_string()), b);
        }
        f(&mut gen);
    }
    files.iter().map(|n| n.to_string()).zip(bufs.into_iter().map(|b| String::from_utf8(b).unwrap())).collect()
}
fn cstr(s: &str) -> String {
    let mut o = String::from("\"");
    for b in s.bytes() {
        write!(o, "\\{:03o}", b).unwrap();
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- lexers
type D = Dfa<&'static TokenRule<'static>, usize>;
fn build(rules: &'static [Spanned<TokenRule<'static>>]) -> Option<(Vec<std::ops::RangeInclusive<u32>>, D)> {
    let alphabet = generate_alphabet(rules);
    let (start, nfa) = generate_nfa(&alphabet, rules);
    let dfa = nfa.powerset_construction(start);
    let dfa = apply_precedence_to_dfa(dfa).ok()?;
    Some((alphabet.into_ranges(), dfa))
}
// what the automaton says the successive calls of next return: token name and positions in characters
fn lex_oracle(ranges: &[std::ops::RangeInclusive<u32>], dfa: &D, text: &[char], calls: usize) -> String {
    let mut trans: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut acc: BTreeMap<usize, String> = BTreeMap::new();
    for (id, st) in dfa.states() {
        for (t, to) in dfa.transitions_from(id) {
            trans.insert((id.index(), *t), to.index());
        }
        if let AutomatonState::Accepting(r) = st {
            acc.insert(id.index(), r.name.to_string());
        }
    }
    let mut out = String::new();
    let mut pos = 0;
    for _ in 0..calls {
        let start = pos;
        let mut st = 0usize;
        let res = loop {
            let cls = text.get(pos).map(|c| ranges.iter().position(|r| r.contains(&(*c as u32))).unwrap());
            if st == 0 && cls.is_none() {
                break "<EOF>".to_string();
            }
            if let Some(to) = cls.and_then(|k| trans.get(&(st, k))) {
                pos += 1;
                st = *to;
                continue;
            }
            break acc.get(&st).cloned().unwrap_or("<ERR>".to_string());
        };
        if res.starts_with('<') {
            write!(out, "{}@{};", res, start).unwrap();
        } else {
            write!(out, "{}@{}..{};", res, start, pos).unwrap();
        }
    }
    out
}
const LEX: &str = r#"
struct L@K { const char *s; size_t n; int calls; };
static const L@K in@K[] = { TABLE };
static std::string run@K(int i) {
    std::istringstream in(std::string(in@K[i].s, in@K[i].n));
    g@K::lexer::Lexer l(in);
    std::string o;
    for (int j = 0; j < in@K[i].calls; j++) {
        auto t = l.next();
        std::string n = g@K::lexer::get_token_name(t);
        o += n + "@" + std::to_string(l.start());
        if (n[0] != '<') o += ".." + std::to_string(l.end());
        o += ";";
    }
    return o;
}
"#;
fn rtext(r: &mut Rng, pool: &[char]) -> Vec<char> {
    let n = r.range(0, 9);
    (0..n).map(|_| *r.pick(pool)).filter(|c| *c != '\0').collect()
}
fn lexer_unit(rng: &mut Rng) -> Option<Unit> {
    const EXTRA: &[char] = &['\u{1}', 'a', 'b', 'q', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{e9}'];
    let small = rng.chance(2, 3);
    let d = rng.range(0, 3);
    let mut rules = rrules(rng, 4, d, small);
    if rules.is_empty() {
        return None;
    }
    let n = rules.len();
    for (i, r) in rules.iter_mut().enumerate() {
        if rng.chance(3, 4) {
            r.inner.precedence = Some(((i * 7 + 3) % n) as u16 + (i as u16) * 8);
        }
    }
    let rules: &'static [Spanned<TokenRule<'static>>] = Box::leak(rules.into_boxed_slice());
    let names: BTreeSet<&str> = rules.iter().map(|r| r.inner.name).collect();
    if names.len() != rules.len() {
        return None;
    }
    let (ranges, dfa) = build(rules)?;
    if dfa.states().count() > 60 {
        return None;
    }
    let files = emit(&["tokens.h", "tokens.cpp", "lexer.h", "lexer.cpp"], |gen| {
        let cg = CppLexerCodeGen::new();
        cg.generate_tokens(rules, gen);
        cg.generate_lexer(rules, &ranges, &dfa, gen);
    });
    let mut pool: Vec<char> = ranges.iter().flat_map(|r| [*r.start(), *r.end(), (r.start() + r.end()) / 2, r.end().saturating_sub(1)]).filter_map(char::from_u32).filter(|c| *c != '\0').collect();
    let mut m = vec![];
    rules.iter().for_each(|r| rule_mentioned(&r.inner, &mut m));
    pool.extend(m.iter().flat_map(|(a, b)| [*a, *b, a + 1, b + 1]).filter_map(char::from_u32).filter(|c| *c != '\0'));
    let hot = pool.clone();
    pool.extend_from_slice(EXTRA);
    let mut table = String::new();
    let mut want = vec![];
    for i in 0..10 {
        let text = if i == 0 { vec![] } else if i < 6 && !hot.is_empty() { rtext(rng, &hot) } else { rtext(rng, &pool) };
        let s: String = text.iter().collect();
        let calls = text.len() + 3;
        write!(table, "{{{}, {}, {}}}, ", cstr(&s), s.len(), calls).unwrap();
        let desc = format!("C++ lexer; token rules {:?}; input {:?}", rules.iter().map(|r| (r.inner.name, r.inner.precedence, &r.inner.pattern)).collect::<Vec<_>>(), s);
        want.push((lex_oracle(&ranges, &dfa, &text, calls), desc));
    }
    let mut body = LEX.replace("TABLE", &table);
    writeln!(body, "//MAIN\nvx_cases(@K, {}, run@K);", want.len()).unwrap();
    body.push_str("//DECL");
    Some(Unit { files, body, want })
}

// ---------------------------------------------------------------- parsers
fn tname(g: &Grammar, s: Symbol) -> String {
    match s {
        Symbol::Terminal(i) => g.get_token_name(i).to_string(),
        _ => "<EOF>".into(),
    }
}
fn token(g: &Grammar, toks: &[usize], i: usize) -> Symbol {
    if i < toks.len() {
        g.terminals().nth(toks[i]).unwrap()
    } else {
        Symbol::End
    }
}
// no two of the grammar's names become the same C++ name
fn nameable(g: &Grammar) -> bool {
    let mut s = BTreeSet::new();
    g.non_terminals().all(|n| match (g.get_production_name(&n), n) {
        (Some(x), _) => s.insert(x.to_uppercase()),
        (None, Symbol::NonTerminal(i)) => s.insert(format!("ANON{}", i)),
        _ => true,
    })
}
fn lr_oracle(g: &Grammar, t: &ActionGotoTable, names: &BTreeMap<usize, String>, toks: &[usize]) -> String {
    let mut out = String::new();
    let mut stack: Vec<usize> = vec![t.entry_state()];
    let mut at = 0;
    for _ in 0..400 {
        let st = *stack.last().unwrap();
        let la = token(g, toks, at);
        match t.get_entry(st, la).and_then(|v| v.first()) {
            Some(TableEntry::Shift { target }) => {
                write!(out, "s{}:{};", tname(g, la), at).unwrap();
                at += 1;
                stack.push(*target);
            }
            Some(TableEntry::Reduce { rule }) => {
                let i = g.rules().iter().position(|r| r as *const _ as *const u8 == *rule as *const _ as *const u8).unwrap();
                write!(out, "{};", names[&i]).unwrap();
                let n = rule.rhs().iter().filter(|s| !matches!(s, Symbol::Epsilon)).count();
                for _ in 0..n {
                    stack.pop();
                }
                let st = *stack.last().unwrap();
                match t.get_entry(st, rule.lhs().unwrap()).and_then(|v| v.first()) {
                    Some(TableEntry::Shift { target }) => stack.push(*target),
                    Some(TableEntry::Accept) => {
                        write!(out, "ok read {}", at + 1).unwrap();
                        return out;
                    }
                    _ => {
                        write!(out, "stuck").unwrap();
                        return out;
                    }
                }
            }
            _ => {
                let exp: BTreeSet<String> = g
                    .terminals()
                    .chain(std::iter::once(Symbol::End))
                    .filter(|s| matches!(t.get_entry(st, *s).and_then(|v| v.first()), Some(TableEntry::Shift { .. } | TableEntry::Reduce { .. })))
                    .map(|s| format!("'{}'", tname(g, s)))
                    .collect();
                write!(out, "unexpected '{}' expected {:?} read {}", tname(g, la), exp.into_iter().collect::<Vec<_>>().join(" "), at + 1).unwrap();
                return out;
            }
        }
    }
    "long".into()
}
// what the LL table prescribes: productions entered and left, tokens consumed
fn ll_oracle(g: &Grammar, t: &LLParserTable, toks: &[usize]) -> String {
    enum S {
        Sym(Symbol),
        Exit(Symbol),
    }
    let mut out = String::new();
    let mut stack = vec![S::Sym(Symbol::End), S::Sym(*g.entry_point())];
    let mut at = 0;
    for _ in 0..600 {
        let la = token(g, toks, at);
        match stack.pop() {
            None => {
                out.push_str("ok");
                return out;
            }
            Some(S::Exit(n)) => {
                if let Some(name) = g.get_production_name(&n) {
                    write!(out, "exit_{};", name).unwrap();
                }
            }
            Some(S::Sym(n @ Symbol::NonTerminal(_))) => {
                let Some(p) = t.get_production(n, &la) else {
                    write!(out, "error at {}", at).unwrap();
                    return out;
                };
                if let Some(name) = g.get_production_name(&n) {
                    write!(out, "enter_{};", name).unwrap();
                }
                stack.push(S::Exit(n));
                stack.extend(p.iter().rev().filter(|s| !matches!(s, Symbol::Epsilon)).map(|s| S::Sym(*s)));
            }
            Some(S::Sym(x)) => {
                if x != la {
                    write!(out, "error at {}", at).unwrap();
                    return out;
                }
                if x != Symbol::End {
                    write!(out, "t{}:{};", tname(g, x), at).unwrap();
                }
                at += 1;
            }
        }
    }
    "long".into()
}

const PARSE: &str = r#"
static const g@K::lexer::TokenType toks@K[] = { TABLE };
static const size_t at@K[] = { OFFSETS };
static std::string run@K(int i) {
    using namespace g@K;
    const lexer::TokenType *toks = toks@K + at@K[i];
    size_t ntoks = at@K[i + 1] - at@K[i];
    V@K v;
    size_t at = 0;
    parser::Parser<size_t> p([&]() -> parser::Token<size_t> {
        if (at > 600) throw std::runtime_error("too many reads");
        lexer::TokenType t = at < ntoks ? toks[at] : lexer::TokenType::TK_EOF;
        at++;
        return {t, at - 1};
    }, v);
    try { p.parse(); v.log += "ok"; FINISH } catch (std::runtime_error &e) { FAILURE }
    return v.log;
}
"#;
const LR_FAIL: &str = r#"
        std::string m = e.what();
        size_t a = m.find("', expected one of: ");
        if (m.rfind("Unexpected token '", 0) != 0 || a == std::string::npos) { v.log += "other error " + m; return v.log; }
        std::string got = m.substr(18, a - 18);
        std::string rest = m.substr(a + 20);
        std::vector<std::string> ex;
        while (!rest.empty()) { size_t c = rest.find(", "); ex.push_back(rest.substr(0, c)); rest = c == std::string::npos ? "" : rest.substr(c + 2); }
        for (size_t i = 0; i < ex.size(); i++) for (size_t j = i + 1; j < ex.size(); j++) if (ex[j] < ex[i]) std::swap(ex[i], ex[j]);
        std::string all;
        for (auto &x : ex) all += (all.empty() ? "" : " ") + x;
        v.log += "unexpected '" + got + "' expected \"" + all + "\" read " + std::to_string(at);
"#;

fn inputs(rng: &mut Rng, g: &Grammar) -> Vec<Vec<usize>> {
    let nt = g.terminals().count();
    let sents = sentences(rng, g, 8);
    let mut v = vec![];
    for s in 0..16 {
        let mut toks: Vec<usize> = if s < 8 && s < sents.len() {
            sents[s].clone()
        } else {
            let n = rng.below(8);
            (0..n).map(|_| rng.below(nt)).collect()
        };
        if s >= 4 && !toks.is_empty() && rng.chance(1, 2) {
            let p = rng.below(toks.len());
            if rng.chance(1, 2) {
                toks.remove(p);
            } else {
                toks[p] = rng.below(nt);
            }
        }
        v.push(toks);
    }
    v
}
fn parser_unit(g: &Grammar, files: BTreeMap<String, String>, visitor: String, what: &str, runs: Vec<(Vec<usize>, String)>, ll: bool) -> Unit {
    let mut body = format!("struct V@K : g@K::parser::Visitor<size_t> {{ std::string log; {} }};\n", visitor);
    body.push_str(&PARSE.replace("FINISH", if ll { "" } else { "v.log += \" read \" + std::to_string(at);" }).replace("FAILURE", if ll { "v.log += \"error at \" + std::to_string(at - 1);" } else { LR_FAIL }));
    let mut want = vec![];
    let (mut table, mut offs, mut at) = (String::new(), String::from("0"), 0);
    for (toks, w) in runs.into_iter() {
        let names: Vec<String> = toks.iter().map(|x| tname(g, g.terminals().nth(*x).unwrap())).collect();
        for n in &names {
            write!(table, "g@K::lexer::TokenType::TK_{}, ", n).unwrap();
        }
        at += names.len();
        write!(offs, ", {}", at).unwrap();
        want.push((w, format!("{} rules {}; tokens {:?}", what, rules_text(g), names)));
    }
    table.push_str("g@K::lexer::TokenType::TK_EOF");
    body = body.replace("TABLE", &table).replace("OFFSETS", &offs);
    writeln!(body, "//MAIN\nvx_cases(@K, {}, run@K);", want.len()).unwrap();
    body.push_str("//DECL");
    Unit { files, body, want }
}
const PFILES: &[&str] = &["tokens.h", "tokens.cpp", "parser.h", "parser.cpp", "parser_impl.h", "visitor.h"];

fn lr_unit(rng: &mut Rng) -> Option<Unit> {
    let rs = rset_any(rng);
    let g = Grammar::from_rule_set(rs).ok()?;
    if !nameable(&g) {
        return None;
    }
    let lr1 = rng.chance(2, 3);
    if lr1 && g.rules().len() > 14 {
        return None;
    }
    let r0;
    let r1;
    let t: &ActionGotoTable = if lr1 {
        r1 = generate_table::<1>(&g, false, rng.chance(1, 2));
        match &r1 {
            GenerationResult::NoConflicts(t) => t,
            _ => return None,
        }
    } else {
        r0 = generate_table::<0>(&g, false, false);
        match &r0 {
            GenerationResult::NoConflicts(t) => t,
            _ => return None,
        }
    };
    if t.states() > 60 {
        return None;
    }
    let mut by_nt: BTreeMap<Symbol, Vec<usize>> = BTreeMap::new();
    for (i, r) in g.rules().iter().enumerate() {
        by_nt.entry(r.lhs().unwrap()).or_default().push(i);
    }
    let mut names: BTreeMap<usize, String> = BTreeMap::new();
    for (nt, rules) in &by_nt {
        let base = match (g.get_production_name(nt), nt) {
            (Some(n), _) => n.to_string(),
            (None, Symbol::NonTerminal(i)) => format!("anon{}", i),
            _ => unreachable!(),
        };
        for (j, i) in rules.iter().enumerate() {
            names.insert(*i, if rules.len() == 1 { format!("reduce_{}", base) } else { format!("reduce_{}_{}", base, j + 1) });
        }
    }
    let distinct: BTreeSet<&String> = names.values().collect();
    if distinct.len() != names.len() {
        return None;
    }
    let files = emit(PFILES, |gen| {
        CppLexerCodeGen::new().generate_tokens(&rs.token_rules, gen);
        CppLRParserCodeGen::new().generate_code(&g, t, gen);
    });
    let mut visitor = String::from("void shift(g@K::lexer::TokenType t, size_t d) override { log += std::string(\"s\") + g@K::lexer::get_token_name(t) + \":\" + std::to_string(d) + \";\"; }");
    for n in names.values() {
        write!(visitor, " void {}() override {{ log += \"{};\"; }}", n, n).unwrap();
    }
    let runs: Vec<_> = inputs(rng, &g).into_iter().map(|t2| (lr_oracle(&g, t, &names, &t2), t2)).filter(|x| x.0 != "long").map(|(w, t)| (t, w)).collect();
    Some(parser_unit(&g, files, visitor, &format!("C++ LR({}) parser; {};", lr1 as u8, show(rs)), runs, false))
}

fn ll_unit(rng: &mut Rng) -> Option<Unit> {
    let rs = rset_any(rng);
    let g = Grammar::from_rule_set(rs).ok()?;
    if !nameable(&g) {
        return None;
    }
    let t = ll_parser::generate_table(&g).ok()?;
    let files = emit(PFILES, |gen| {
        CppLexerCodeGen::new().generate_tokens(&rs.token_rules, gen);
        CppLLParserCodeGen::new().generate_code(&g, &t, gen);
    });
    let mut visitor = String::from("void token(g@K::lexer::TokenType t, size_t d) override { if (t != g@K::lexer::TokenType::TK_EOF) log += std::string(\"t\") + g@K::lexer::get_token_name(t) + \":\" + std::to_string(d) + \";\"; }");
    for n in g.non_terminals().filter_map(|n| g.get_production_name(&n)) {
        for w in ["enter", "exit"] {
            write!(visitor, " void {}_{}() override {{ log += \"{}_{};\"; }}", w, n, w, n).unwrap();
        }
    }
    let runs: Vec<_> = inputs(rng, &g).into_iter().map(|t2| (ll_oracle(&g, &t, &t2), t2)).filter(|x| x.0 != "long").map(|(w, t)| (t, w)).collect();
    Some(parser_unit(&g, files, visitor, &format!("C++ LL parser; {};", show(rs)), runs, true))
}

// random derivations from the entry symbol
fn sentences(r: &mut Rng, g: &Grammar, n: usize) -> Vec<Vec<usize>> {
    let terms: Vec<Symbol> = g.terminals().collect();
    let mut out = vec![];
    for _ in 0..n {
        let mut form: Vec<Symbol> = vec![*g.entry_point()];
        let mut steps = 0;
        while let Some(p) = form.iter().position(|s| matches!(s, Symbol::NonTerminal(_))) {
            steps += 1;
            if steps > 60 || form.len() > 30 {
                break;
            }
            let cands: Vec<_> = g.rules().iter().filter(|x| x.lhs() == Some(form[p])).collect();
            if cands.is_empty() {
                break;
            }
            let c = if steps > 12 { cands.iter().min_by_key(|c| c.rhs().len()).unwrap() } else { r.pick(&cands) };
            let rhs: Vec<Symbol> = c.rhs().iter().copied().filter(|s| !matches!(s, Symbol::Epsilon)).collect();
            form.splice(p..=p, rhs);
        }
        let s: Vec<usize> = form.iter().filter_map(|s| terms.iter().position(|t| t == s)).collect();
        out.push(s.into_iter().take(40).collect());
    }
    out
}

fn c19(cx: &mut Ctx) {
    let mut first = true;
    while cx.go() {
        CASE_START.store(now_ms(), std::sync::atomic::Ordering::SeqCst);
        let mut batches = vec![];
        for _ in 0..8 {
            let mut units = vec![];
            for kind in [0, 1, 2] {
                let (mut k, mut tries) = (0, 0);
                while k < 5 && tries < 800 {
                    tries += 1;
                    let u = match kind {
                        0 => lexer_unit(&mut cx.rng),
                        1 => lr_unit(&mut cx.rng),
                        _ => ll_unit(&mut cx.rng),
                    };
                    if let Some(u) = u {
                        if !u.want.is_empty() {
                            if first && k == 0 {
                                let r = separate(&cx.work, &format!("k{}", kind), &u);
                                let d = u.want[0].1.clone();
                                cx.case(|| d.clone(), true, || r.clone());
                            }
                            units.push(u);
                            k += 1;
                        }
                    }
                }
            }
            first = false;
            batches.push(units);
        }
        if cx.fail.is_some() {
            return;
        }
        run(cx, batches);
    }
}
