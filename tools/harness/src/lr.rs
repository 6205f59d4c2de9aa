use crate::gram::{self, rset_any, rules_text, show, Ref};
use crate::util::Ctx;
use lapex_parser::grammar::{Grammar, Rule, Symbol};
use lapex_parser::lr_parser::{generate_table, ActionGotoTable, Conflict, GenerationResult, TableEntry};
use std::collections::{BTreeMap, BTreeSet};

// independent LR(0) / LR(1) / LALR construction over right-hand sides without empty markers.
// rule index usize::MAX is the entry rule. Lookahead: None in LR(0).
type It = (usize, usize, Option<Symbol>);
type Set = BTreeSet<It>;

pub struct RefLr {
    pub states: Vec<Set>,
    pub edges: Vec<BTreeMap<Symbol, usize>>,
}
const ENTRY: usize = usize::MAX;

fn rhs<'a>(rf: &'a Ref, entry: &'a [Symbol; 1], r: usize) -> &'a [Symbol] {
    if r == ENTRY {
        entry
    } else {
        &rf.rules[r].1
    }
}

fn closure(rf: &Ref, kernel: &Set) -> Set {
    let e = [rf.entry];
    let mut s = kernel.clone();
    // naive: add until nothing changes
    loop {
        let mut add = Set::new();
        for (r, d, la) in &s {
            let x = rhs(rf, &e, *r);
            if let Some(Symbol::NonTerminal(n)) = x.get(*d) {
                let las: Vec<Option<Symbol>> = match la {
                    None => vec![None],
                    Some(l) => {
                        let mut rest: Vec<Symbol> = x[*d + 1..].to_vec();
                        rest.push(*l);
                        rf.first_of(&rest).into_iter().map(Some).collect()
                    }
                };
                for (i, (l, _)) in rf.rules.iter().enumerate() {
                    if *l == Symbol::NonTerminal(*n) {
                        for la in &las {
                            if !s.contains(&(i, 0, *la)) {
                                add.insert((i, 0, *la));
                            }
                        }
                    }
                }
            }
        }
        if add.is_empty() {
            return s;
        }
        s.extend(add);
    }
}
fn goto(rf: &Ref, s: &Set) -> BTreeMap<Symbol, Set> {
    let e = [rf.entry];
    let mut out: BTreeMap<Symbol, Set> = BTreeMap::new();
    for (r, d, la) in s {
        if *r == ENTRY {
            continue; // the entry item is accepted, not shifted
        }
        if let Some(x) = rhs(rf, &e, *r).get(*d) {
            out.entry(*x).or_default().insert((*r, d + 1, *la));
        }
    }
    out
}

pub fn reference(g: &Grammar, n: usize, lalr: bool) -> Option<RefLr> {
    let rf = Ref::new(g);
    let start = closure(&rf, &Set::from([(ENTRY, 0, if n == 0 { None } else { Some(Symbol::End) })]));
    let mut states = vec![start.clone()];
    let mut index: BTreeMap<Set, usize> = BTreeMap::from([(start, 0)]);
    let mut edges: Vec<BTreeMap<Symbol, usize>> = vec![];
    let mut i = 0;
    while i < states.len() {
        let mut ed = BTreeMap::new();
        for (x, k) in goto(&rf, &states[i].clone()) {
            let t = closure(&rf, &k);
            let j = *index.entry(t.clone()).or_insert_with(|| {
                states.push(t);
                states.len() - 1
            });
            ed.insert(x, j);
        }
        edges.push(ed);
        i += 1;
        if states.len() > 400 {
            return None;
        }
    }
    if !lalr {
        return Some(RefLr { states, edges });
    }
    // LALR from the canonical collection: merge equal cores
    let core = |s: &Set| -> BTreeSet<(usize, usize)> { s.iter().map(|x| (x.0, x.1)).collect() };
    let mut ids: BTreeMap<BTreeSet<(usize, usize)>, usize> = BTreeMap::new();
    let mut ms: Vec<Set> = vec![];
    let mut map = vec![];
    for s in &states {
        let j = *ids.entry(core(s)).or_insert_with(|| {
            ms.push(Set::new());
            ms.len() - 1
        });
        ms[j].extend(s.iter().copied());
        map.push(j);
    }
    let mut me = vec![BTreeMap::new(); ms.len()];
    for (i, e) in edges.iter().enumerate() {
        for (x, j) in e {
            me[map[i]].insert(*x, map[*j]);
        }
    }
    Some(RefLr { states: ms, edges: me })
}


fn rule_index(g: &Grammar, r: &Rule) -> Option<usize> {
    let p = r as *const Rule as *const u8;
    if p == g.entry_rule() as *const Rule as *const u8 {
        return Some(ENTRY);
    }
    g.rules().iter().position(|x| x as *const Rule as *const u8 == p)
}

// state correspondence, found by following shifts from the entry state
fn map_states(g: &Grammar, t: &ActionGotoTable, rl: &RefLr) -> Result<Vec<Option<usize>>, String> {
    let mut m: Vec<Option<usize>> = vec![None; rl.states.len()];
    let mut back: BTreeMap<usize, usize> = BTreeMap::new();
    m[0] = Some(t.entry_state());
    back.insert(t.entry_state(), 0);
    let mut todo = vec![0];
    while let Some(i) = todo.pop() {
        let st = m[i].unwrap();
        for (x, j) in &rl.edges[i] {
            if i == 0 && *x == *g.entry_point() {
                continue;
            }
            let mut tg: Vec<usize> = vec![];
            for e in t.get_entry(st, *x).into_iter().flatten() {
                if let TableEntry::Shift { target } = e {
                    tg.push(*target);
                }
            }
            if tg.len() != 1 {
                return Err(format!("state {} must shift {:?} to one state, its shifts are {:?}", st, x, tg));
            }
            match m[*j] {
                None => {
                    if let Some(k) = back.insert(tg[0], *j) {
                        return Err(format!("state {} stands for two different item sets: {:?} and {:?}", tg[0], rl.states[k], rl.states[*j]));
                    }
                    m[*j] = Some(tg[0]);
                    todo.push(*j);
                }
                Some(k) if k != tg[0] => {
                    return Err(format!("states {} and {} hold the same items {:?}", k, tg[0], rl.states[*j]));
                }
                _ => {}
            }
        }
    }
    Ok(m)
}

fn check_cells(g: &Grammar, t: &ActionGotoTable, rl: &RefLr, n: usize) -> Result<(), String> {
    let entry_move = rl.edges[0].contains_key(g.entry_point());
    let m = map_states(g, t, rl)?;
    let mut kf = None;
    if !entry_move && t.states() != rl.states.len() {
        return Err(format!("{} states, expected {}", t.states(), rl.states.len()));
    }
    let rf = Ref::new(g);
    for i in 0..rl.states.len() {
        let Some(st) = m[i] else { continue };
        if st >= t.states() {
            return Err(format!("target {} is not a state of the table", st));
        }
        let done: Vec<(usize, Option<Symbol>)> =
            rl.states[i].iter().filter(|(r, d, _)| *r != ENTRY && *d == rf.rules[*r].1.len()).map(|x| (x.0, x.2)).collect();
        for x in g.symbols().chain(std::iter::once(Symbol::End)) {
            let mut want: Vec<String> = vec![];
            if i == 0 && x == *g.entry_point() {
                want.push("accept".into());
                if entry_move {
                    kf = Some(format!("the entry symbol also occurs on a right-hand side: the entry state's move on it is replaced by Accept [{}]", "table cell (entry state, entry symbol)"));
                }
            } else if let Some(j) = rl.edges[i].get(&x) {
                want.push(format!("shift {}", m[*j].unwrap()));
            }
            for (r, la) in &done {
                let hit = if n == 0 { !matches!(x, Symbol::NonTerminal(_)) } else { *la == Some(x) };
                if hit {
                    want.push(format!("reduce {}", r));
                }
            }
            let mut got: Vec<String> = vec![];
            let mut errs = 0;
            for e in t.get_entry(st, x).into_iter().flatten() {
                match e {
                    TableEntry::Shift { target } => got.push(format!("shift {}", target)),
                    TableEntry::Reduce { rule } => match rule_index(g, rule) {
                        Some(r) => got.push(format!("reduce {}", r)),
                        None => return Err(format!("cell ({}, {:?}) reduces a rule that is not in the grammar", st, x)),
                    },
                    TableEntry::Accept => got.push("accept".into()),
                    TableEntry::Error => errs += 1,
                }
            }
            want.sort();
            got.sort();
            if got != want || (errs > 0 && !want.is_empty()) {
                return Err(format!(
                    "cell ({}, {:?}) holds {:?}{}, expected {:?}; items of the state: {:?}; rules {}",
                    st, x, got, if errs > 0 { " and an error" } else { "" }, want, rl.states[i], rules_text(g)
                ));
            }
        }
        // the iterators read the same cells
        let f = |v: Option<&Vec<TableEntry>>| format!("{:?}", v);
        let a: Vec<(Symbol, String)> = t.iter_state_terminals(st, g).chain(t.iter_state_non_terminals(st, g)).map(|(s, e)| (s, f(e))).collect();
        let b: Vec<(Symbol, String)> =
            g.terminals().chain(std::iter::once(Symbol::End)).chain(g.non_terminals()).map(|s| (s, f(t.get_entry(st, s)))).collect();
        if a.iter().collect::<BTreeSet<_>>() != b.iter().collect::<BTreeSet<_>>() {
            return Err(format!("state {}: iter_state_* and get_entry disagree", st));
        }
        if t.get_entry(st, Symbol::Epsilon).is_some() {
            return Err(format!("state {} has an entry for the empty marker", st));
        }
    }
    match kf {
        Some(k) => Err(format!("[KF:entry-move] {}", k)),
        None => Ok(()),
    }
}

type Cf = (bool, usize, Vec<usize>, Option<Symbol>);
fn ref_conflicts(g: &Grammar, rl: &RefLr, n: usize) -> BTreeSet<Cf> {
    let rf = Ref::new(g);
    let mut out = BTreeSet::new();
    for (i, s) in rl.states.iter().enumerate() {
        let mut by: BTreeMap<Option<Symbol>, Vec<usize>> = BTreeMap::new();
        for (r, d, la) in s {
            if *r != ENTRY && *d == rf.rules[*r].1.len() {
                by.entry(*la).or_default().push(*r);
            }
        }
        for (la, mut rs) in by {
            rs.sort();
            if rs.len() > 1 {
                out.insert((true, i, rs, None));
            } else {
                for x in rl.edges[i].keys() {
                    if n == 0 || la == Some(*x) {
                        out.insert((false, i, rs.clone(), Some(*x)));
                    }
                }
            }
        }
    }
    out
}
fn conv(g: &Grammar, c: &Conflict) -> Result<Cf, String> {
    match c {
        Conflict::ShiftReduce { state, item_to_reduce, shift_symbol } => {
            if item_to_reduce.symbol_after_dot().is_some() {
                return Err(format!("conflict names an item that is not completed: {}", item_to_reduce));
            }
            Ok((false, *state, vec![rule_index(g, item_to_reduce.rule()).ok_or("conflict names a foreign rule")?], Some(*shift_symbol)))
        }
        Conflict::ReduceReduce { state, items } => {
            let mut v = vec![];
            for it in items {
                if it.symbol_after_dot().is_some() {
                    return Err(format!("conflict names an item that is not completed: {}", it));
                }
                v.push(rule_index(g, it.rule()).ok_or("conflict names a foreign rule")?);
            }
            v.sort();
            Ok((true, *state, v, None))
        }
    }
}

fn check<const N: usize>(g: &Grammar, lalr: bool, cells: bool, confl: bool) -> Result<(), String> {
    let Some(rl) = reference(g, N, lalr) else { return Ok(()) };
    let want = ref_conflicts(g, &rl, N);
    let entry_move = rl.edges[0].contains_key(g.entry_point());
    let all = generate_table::<N>(g, true, lalr);
    let none = generate_table::<N>(g, false, lalr);
    let tag = format!("LR({}){}", N, if lalr { " merged (LALR)" } else { "" });
    let (table, got): (&ActionGotoTable, Vec<Cf>) = match &all {
        GenerationResult::NoConflicts(t) => (t, vec![]),
        GenerationResult::AllowedConflicts { table, conflicts } => {
            if conflicts.is_empty() {
                return Err(format!("{}: an empty conflict list is reported", tag));
            }
            (table, conflicts.iter().map(|c| conv(g, c)).collect::<Result<_, _>>()?)
        }
        GenerationResult::BadConflicts(_) => return Err(format!("{}: conflicts are refused although they are allowed", tag)),
    };
    let mut known = None;
    let rc = check_cells(g, table, &rl, N);
    if let Err(e) = &rc {
        if e.starts_with("[KF:") {
            known = Some(e.clone());
        } else if cells || confl {
            return Err(format!("{}: {}", tag, e));
        }
    }
    if confl {
        let bad = matches!(&none, GenerationResult::BadConflicts(_));
        if bad != !want.is_empty() || matches!(&none, GenerationResult::AllowedConflicts { .. }) {
            return Err(format!("{}: with conflicts not allowed, generation {} although the conflicts are {:?}", tag, if bad { "is refused" } else { "succeeds" }, want));
        }
        if matches!(&all, GenerationResult::NoConflicts(_)) != want.is_empty() {
            return Err(format!("{}: conflicts {:?} are not reported", tag, want));
        }
        let m = map_states(g, table, &rl)?;
        let w: BTreeSet<Cf> = want.iter().filter_map(|c| m[c.1].map(|s| (c.0, s, c.2.clone(), c.3))).collect();
        let g1: BTreeSet<Cf> = got.iter().cloned().collect();
        if entry_move {
            if !w.is_subset(&g1) || g1.len() != want.len() {
                return Err(format!("{}: conflicts {:?}, expected {:?}", tag, g1, w));
            }
        } else if g1 != w {
            return Err(format!("{}: conflicts {:?}, expected {:?}; rules {}", tag, g1, w, rules_text(g)));
        }
        if let GenerationResult::BadConflicts(v) = &none {
            let g2: BTreeSet<Cf> = v.iter().map(|c| conv(g, c)).collect::<Result<_, _>>()?;
            if g2.len() != want.len() {
                return Err(format!("{}: {} conflicts refused, expected {}", tag, g2.len(), want.len()));
            }
        }
    }
    if let GenerationResult::NoConflicts(t) = &none {
        if let Err(e) = check_cells(g, t, &rl, N) {
            if !e.starts_with("[KF:") {
                return Err(format!("{} (conflicts not allowed): {}", tag, e));
            }
        }
        for (i, _) in rl.states.iter().enumerate() {
            for x in g.symbols().chain(std::iter::once(Symbol::End)) {
                if i < t.states() && t.get_entry(i, x).map_or(0, |v| v.len()) > 1 {
                    return Err(format!("{}: conflict-free, but cell ({}, {:?}) has several entries", tag, i, x));
                }
            }
        }
    }
    match known {
        Some(k) if cells && !confl => Err(k),
        _ => Ok(()),
    }
}

fn run(cx: &mut Ctx, modes: &[(usize, bool)], cells: bool, confl: bool, kf: bool) {
    while cx.go() {
        let rs = rset_any(&mut cx.rng);
        let (n, lalr) = *cx.rng.pick(modes);
        cx.case(
            || format!("{} [LR({}){}]", show(rs), n, if lalr { " LALR" } else { "" }),
            true,
            || {
                let g = Grammar::from_rule_set(rs).map_err(|e| format!("grammar error {:?}", e))?;
                let r = if n == 0 { check::<0>(&g, lalr, cells, confl) } else { check::<1>(&g, lalr, cells, confl) };
                match r {
                    Err(e) if e.starts_with("[KF:") && !kf => Ok(()),
                    x => x,
                }
            },
        );
    }
}

pub fn c07(cx: &mut Ctx) {
    while cx.go() {
        let rs = rset_any(&mut cx.rng);
        cx.case(
            || show(rs),
            true,
            || {
                let g = Grammar::from_rule_set(rs).map_err(|e| format!("grammar error {:?}", e))?;
                gram::check_ll(&g)?;
                match check::<1>(&g, false, true, false) {
                    Err(e) if e.starts_with("[KF:") => Ok(()),
                    x => x,
                }
            },
        );
    }
}
pub fn c09(cx: &mut Ctx) {
    run(cx, &[(0, false), (1, false), (1, false)], true, false, false)
}
pub fn c10(cx: &mut Ctx) {
    run(cx, &[(0, false), (1, false), (1, true), (1, true), (0, true)], true, false, false)
}
pub fn c11(cx: &mut Ctx) {
    run(cx, &[(0, false), (1, false), (1, true)], false, true, false)
}
pub fn c12(cx: &mut Ctx) {
    run(cx, &[(0, false), (0, false), (1, false), (1, true)], true, false, true)
}
