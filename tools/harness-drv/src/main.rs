// C21: the driver is run on random rule sets, languages, algorithms and flags; what it writes and what it
// reports is compared with the steps run one by one.
#[path = "../../harness/src/util.rs"]
mod util;
#[allow(dead_code)]
#[path = "../../harness/src/gram.rs"]
mod gram;
#[allow(dead_code)]
#[path = "../../harness/src/lex.rs"]
mod lex;
use lapex::{Language, ParsingAlgorithm};
use lapex_codegen::GeneratedCodeWriter;
use lapex_cpp_codegen::*;
use lapex_input::*;
use lapex_lexer::LexerCodeGen;
use lapex_parser::grammar::{Grammar, Symbol};
use lapex_parser::ll_parser::LLParserCodeGen;
use lapex_parser::lr_parser::{generate_table, output_table, ActionGotoTable, Conflict, GenerationResult, LRParserCodeGen};
use lapex_rust_codegen::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use util::{Ctx, Rng};


const CH: &[char] = &['a', 'b', ' ', ';', '=', 'é', '→', '\n', '\n'];

fn copy(p: &ProductionPattern<'static>) -> ProductionPattern<'static> {
    let all = |v: &Vec<ProductionPattern<'static>>| v.iter().map(copy).collect();
    match p {
        ProductionPattern::Sequence { elements } => ProductionPattern::Sequence { elements: all(elements) },
        ProductionPattern::Alternative { elements } => ProductionPattern::Alternative { elements: all(elements) },
        ProductionPattern::Rule { rule_name } => ProductionPattern::Rule { rule_name },
        ProductionPattern::OneOrMany { inner } => ProductionPattern::OneOrMany { inner: Box::new(copy(inner)) },
        ProductionPattern::ZeroOrMany { inner } => ProductionPattern::ZeroOrMany { inner: Box::new(copy(inner)) },
        ProductionPattern::Optional { inner } => ProductionPattern::Optional { inner: Box::new(copy(inner)) },
        ProductionPattern::Epsilon => ProductionPattern::Epsilon,
    }
}

// the rule set of a seed: the productions of the parser checks, the token rules of the lexer checks, and
// spans that lie in the text
fn rules_of(seed: u64) -> (RuleSet<'static>, &'static str) {
    let mut r = Rng::new(seed);
    let n = r.range(30, 90);
    let mut chars: Vec<char> = (0..n).map(|_| *r.pick(CH)).collect();
    if r.chance(1, 3) {
        chars.splice(0..0, (0..300).map(|_| '\n'));
    }
    let text = util::leak(chars.iter().collect());
    let mut pos = vec![SourcePos { line: 1, col: 1 }];
    for c in &chars {
        let l = *pos.last().unwrap();
        pos.push(if *c == '\n' { SourcePos { line: l.line + 1, col: 1 } } else { SourcePos { line: l.line, col: l.col + 1 } });
    }
    let rs = gram::rset_any(&mut r);
    let small = r.chance(1, 2);
    let mut pool = lex::rrules(&mut r, 5, 2, small).into_iter();
    let mut span = |r: &mut Rng| {
        let (a, b) = (r.below(pos.len()), r.below(pos.len()));
        SourceSpan { start: pos[a.min(b)], end: pos[a.max(b)] }
    };
    let mut toks = vec![];
    let keep = r.chance(2, 3);
    for (i, t) in rs.token_rules.iter().enumerate() {
        let (pattern, precedence) = if keep {
            (TokenPattern::Literal { characters: vec![(b'a' + i as u8) as char] }, None)
        } else if let Some(p) = pool.next() {
            (p.inner.pattern, p.inner.precedence)
        } else {
            (TokenPattern::Literal { characters: vec!['a'] }, Some(r.below(3) as u16))
        };
        toks.push(Spanned::new(span(&mut r), TokenRule { name: t.inner.name, precedence, pattern }));
    }
    let prods = rs.production_rules.iter().map(|p| Spanned::new(span(&mut r), ProductionRule { name: p.inner.name, tag: p.inner.tag, pattern: copy(&p.inner.pattern) })).collect();
    let entry = Spanned::new(span(&mut r), EntryRule { name: rs.entry_rule.inner.name });
    (RuleSet::new(entry, toks, prods), text)
}

struct Stub(u64, &'static str);
impl LapexInputParser for Stub {
    fn parse_lapex<'src>(&self, source: &'src str) -> Result<RuleSet<'src>, LapexParsingError> {
        if source != self.1 {
            return Err(LapexParsingError::NoEntryRule);
        }
        Ok(rules_of(self.0).0)
    }
}

type Files = BTreeMap<String, Vec<u8>>;
#[derive(Clone)]
struct Sink(&'static str, Rc<RefCell<Files>>, Rc<RefCell<Vec<u8>>>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.2.borrow_mut().extend_from_slice(b);
        self.1.borrow_mut().insert(self.0.to_string(), self.2.borrow().clone());
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// an error as the driver has to report it: pieces its printed form contains
type Told = Vec<String>;
enum Want {
    Done,
    Refused(Vec<Told>),
    NoTable, // the grammar is not LL(1)
}

fn place(file: &str, s: SourceSpan) -> String {
    format!("{}:{}:{}", file, s.start.line, s.start.col)
}
fn told(c: &Conflict, g: &Grammar, file: &str, text: &str) -> Told {
    let mut v = vec![];
    match c {
        Conflict::ShiftReduce { state, item_to_reduce, shift_symbol } => {
            v.push("shift-reduce".to_string());
            v.push(format!("In state \u{1b}[1m{}\u{1b}[0m", state));
            v.push(place(file, item_to_reduce.production().span));
            v.extend(item_to_reduce.production().span.substring(text).unwrap().lines().map(|s| s.to_string()));
            v.push(format!("{}", item_to_reduce.display(g)));
            v.push(match shift_symbol {
                Symbol::Terminal(t) => g.get_token_name(*t).to_string(),
                s => g.get_symbol_name(s),
            });
        }
        Conflict::ReduceReduce { state, items } => {
            v.push("reduce-reduce".to_string());
            for i in items {
                v.push(format!("In state \u{1b}[1m{}\u{1b}[0m", state));
                v.push(place(file, i.production().span));
                v.extend(i.production().span.substring(text).unwrap().lines().map(|s| s.to_string()));
                v.push(format!("{}", i.display(g)));
            }
        }
    }
    v
}

struct Job {
    seed: u64,
    lang: Language,
    lexer: bool,
    alg: ParsingAlgorithm,
    table: bool,
}

fn reference(j: &Job, rs: &RuleSet, text: &str, file: &str) -> (Files, Want) {
    let files: Rc<RefCell<Files>> = Default::default();
    let f2 = files.clone();
    let mut gen = GeneratedCodeWriter::with_default(move |name| {
        f2.borrow_mut().insert(name.to_string(), vec![]);
        Ok(Sink(name, f2.clone(), Default::default()))
    });
    let cpp = matches!(j.lang, Language::Cpp);
    let lx: Box<dyn LexerCodeGen> = if cpp { Box::new(CppLexerCodeGen::new()) } else { Box::new(RustLexerCodeGen::new()) };
    lx.generate_tokens(&rs.token_rules, &mut gen);
    let done = |w| (files.borrow().clone(), w);
    if j.lexer {
        let al = lapex_lexer::generate_alphabet(&rs.token_rules);
        let (s, n) = lapex_lexer::generate_nfa(&al, &rs.token_rules);
        match lapex_lexer::apply_precedence_to_dfa(n.powerset_construction(s)) {
            Err(e) => {
                let mut v = vec!["precedence".to_string()];
                for r in &e.rules {
                    v.push(place(file, r.span));
                    v.push(r.inner.to_string());
                    v.extend(r.span.substring(text).unwrap().lines().map(|s| s.to_string()));
                }
                drop(gen);
                return done(Want::Refused(vec![v]));
            }
            Ok(dfa) => lx.generate_lexer(&rs.token_rules, al.get_ranges(), &dfa, &mut gen),
        }
    }
    let g = Grammar::from_rule_set(rs).unwrap();
    let mut lr = |t: ActionGotoTable, glr: bool| {
        if j.table {
            gen.generate_code("table", |o| output_table(&g, &t, o)).unwrap();
        }
        match (cpp, glr) {
            (true, false) => CppLRParserCodeGen::new().generate_code(&g, &t, &mut gen),
            (true, true) => CppGLRParserCodeGen::new().generate_code(&g, &t, &mut gen),
            (false, false) => RustLRParserCodeGen::new().generate_code(&g, &t, &mut gen),
            (false, true) => RustGLRParserCodeGen::new().generate_code(&g, &t, &mut gen),
        }
    };
    macro_rules! run { ($n:literal, $lalr:expr) => {
        match generate_table::<$n>(&g, false, $lalr) {
            GenerationResult::NoConflicts(t) => { lr(t, false); Want::Done }
            GenerationResult::BadConflicts(c) => Want::Refused(c.iter().map(|c| told(c, &g, file, text)).collect()),
            _ => panic!("reference: conflicts allowed"),
        }
    } }
    let w = match j.alg {
        ParsingAlgorithm::LR0 => run!(0, false),
        ParsingAlgorithm::LR1 => run!(1, false),
        ParsingAlgorithm::LALR => run!(1, true),
        ParsingAlgorithm::GLR => {
            match generate_table::<1>(&g, true, true) {
                GenerationResult::NoConflicts(t) => lr(t, true),
                GenerationResult::AllowedConflicts { table, .. } => lr(table, true),
                _ => panic!("reference: conflicts refused"),
            }
            Want::Done
        }
        ParsingAlgorithm::LL1 => match lapex_parser::ll_parser::generate_table(&g) {
            Ok(t) => {
                CppLLParserCodeGen::new().generate_code(&g, &t, &mut gen);
                Want::Done
            }
            Err(_) => Want::NoTable,
        },
    };
    drop(gen);
    done(w)
}

fn listing(dir: &std::path::Path) -> Files {
    let mut m = Files::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        m.insert(e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap());
    }
    m
}

fn check(j: &Job, dir: &std::path::Path, missing: bool) -> Result<(), String> {
    let (rs, text) = rules_of(j.seed);
    let out = dir.join("out");
    let file = dir.join(if missing { "none.lapex" } else { "in.lapex" });
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).map_err(|e| e.to_string())?;
    std::fs::write(dir.join("in.lapex"), text).map_err(|e| e.to_string())?;
    let fname = file.display().to_string();
    let want = catch_unwind(AssertUnwindSafe(|| reference(j, &rs, text, &fname)));
    let got = catch_unwind(AssertUnwindSafe(|| {
        lapex::generate(j.lexer, j.alg.clone(), j.table, &file, &out, j.lang.clone(), Stub(j.seed, text)).map_err(|es| es.iter().map(|e| format!("{}", e)).collect::<Vec<_>>())
    }));
    let files = listing(&out);
    if missing {
        return match got {
            Ok(Err(es)) if es.len() == 1 && es[0].contains(&fname) && files.is_empty() => Ok(()),
            Ok(Err(es)) => Err(format!("the grammar file cannot be read; reported {:?}, written {:?}", es, files.keys())),
            _ => Err("the grammar file cannot be read, and no error is returned".into()),
        };
    }
    let (wf, want) = match want {
        Ok(x) => x,
        Err(_) => return Ok(()), // a step itself fails: not the driver's matter
    };
    match (&want, &got) {
        (Want::NoTable, Ok(Ok(()))) => return Err("the grammar is not LL(1), and the driver reports success".into()),
        (Want::NoTable, _) => {}
        (_, Err(p)) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            return Err(format!("the driver panicked: {}", m));
        }
        (Want::Done, Ok(Err(es))) => return Err(format!("the driver reports errors where there are none: {:?}", es)),
        (Want::Refused(v), Ok(Ok(()))) => return Err(format!("the driver reports success; it had to report {:?}", v)),
        (Want::Done, Ok(Ok(()))) => {}
        (Want::Refused(v), Ok(Err(es))) => {
            if es.len() != v.len() {
                return Err(format!("{} errors reported, expected {}: {:?}", es.len(), v.len(), es));
            }
            let mut left: Vec<&String> = es.iter().collect();
            for t in v {
                match left.iter().position(|e| t.iter().all(|p| e.contains(p.as_str()))) {
                    Some(k) => {
                        left.remove(k);
                    }
                    None => return Err(format!("no error tells {:?}; reported: {:?}", t, es)),
                }
            }
        }
    }
    if files != wf {
        let d: Vec<_> = wf.keys().chain(files.keys()).filter(|k| wf.get(*k) != files.get(*k)).collect();
        let show = |m: &Files, k: &str| m.get(k).map(|b| String::from_utf8_lossy(b).chars().take(1500).collect::<String>()).unwrap_or("(no file)".into());
        return Err(format!("files that differ: {:?}\n--- {} written:\n{}\n--- expected:\n{}", d, d[0], show(&files, d[0]), show(&wf, d[0])));
    }
    Ok(())
}

fn c21(cx: &mut Ctx) {
    let dir = std::path::PathBuf::from(&cx.work).join(format!("drv-{}", std::process::id()));
    while cx.go() {
        let r = &mut cx.rng;
        let alg = r.pick(&[ParsingAlgorithm::LR0, ParsingAlgorithm::LR1, ParsingAlgorithm::LALR, ParsingAlgorithm::LALR, ParsingAlgorithm::GLR, ParsingAlgorithm::LL1]).clone();
        let lang = if alg == ParsingAlgorithm::LL1 || r.chance(1, 2) { Language::Cpp } else { Language::Rust };
        let j = Job { seed: r.next(), lang, lexer: r.chance(1, 2), alg, table: r.chance(1, 2) };
        let missing = r.chance(1, 12);
        let d = || {
            let (rs, text) = rules_of(j.seed);
            let toks: Vec<String> = rs.token_rules.iter().map(|t| format!("{:?}", t)).collect();
            let sp: Vec<_> = rs.production_rules.iter().map(|p| (p.span.start.line, p.span.start.col, p.span.end.line, p.span.end.col)).collect();
            format!(
                "language {:?}, algorithm {}, lexer {}, table {}, file {}; grammar {}; tokens {:?}; production spans {:?}; text {:?}",
                j.lang, j.alg, j.lexer, j.table, if missing { "missing" } else { "there" }, gram::show(&rs), toks, sp, text
            )
        };
        cx.case(d, true, || check(&j, &dir, missing));
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let millis: u64 = a[3].parse().unwrap();
    let work = a.get(4).cloned().unwrap_or("/tmp".into());
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            util::watchdog();
            let mut cx = Ctx::new(seed, millis, &work);
            c21(&mut cx);
            cx.report();
            cx.fail.is_some()
        })
        .unwrap();
    match h.join() {
        Ok(false) => {}
        Ok(true) => std::process::exit(1),
        Err(_) => {
            println!("HARNESS-ERROR");
            std::process::exit(2)
        }
    }
}
