use crate::util::{leak, Ctx, Rng};
use lapex_automaton::{AutomatonState, Dfa, Nfa, NfaEdge, StateId};
use lapex_input::*;
use lapex_lexer::{apply_precedence_to_dfa, generate_alphabet, generate_nfa};
use petgraph::visit::EdgeRef;
use petgraph::Direction::Outgoing;
use std::collections::{BTreeMap, BTreeSet};

const POOL: &[char] = &[
    'a', 'b', 'c', 'd', 'e', 'f', 'x', 'z', '0', '\u{1}', '\u{2}', '\u{7f}', '\u{e9}', '\u{d7ff}', '\u{e000}', '\u{10fffe}', '\u{10ffff}', '\n',
];

fn rchar(r: &mut Rng, small: bool) -> char {
    if small || r.chance(3, 4) {
        POOL[r.below(if small { 5 } else { POOL.len() })]
    } else {
        loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                return c;
            }
        }
    }
}
fn rchars(r: &mut Rng, small: bool) -> Characters {
    if r.chance(1, 2) {
        Characters::Single(rchar(r, small))
    } else {
        let (a, b) = (rchar(r, small), rchar(r, small));
        if a <= b {
            Characters::Range(a, b)
        } else {
            Characters::Range(b, a)
        }
    }
}
pub fn rpat(r: &mut Rng, depth: usize, small: bool) -> Pattern {
    let k = if depth == 0 { r.below(2) } else { r.below(6) };
    match k {
        0 => Pattern::Char { chars: rchars(r, small) },
        1 => {
            let n = r.range(1, 3);
            Pattern::CharSet { chars: (0..n).map(|_| rchars(r, small)).collect(), negated: r.chance(1, 3) }
        }
        2 | 3 => {
            let n = r.range(1, 3);
            Pattern::Sequence { elements: (0..n).map(|_| rpat(r, depth - 1, small)).collect() }
        }
        4 => {
            let n = r.range(1, 3);
            Pattern::Alternative { elements: (0..n).map(|_| rpat(r, depth - 1, small)).collect() }
        }
        _ => {
            let min = *r.pick(&[0u32, 0, 1, 1, 2, 3]);
            let max = if r.chance(1, 2) { None } else { Some(min + r.below(3) as u32) };
            Pattern::Repetition { min, max, inner: Box::new(rpat(r, depth - 1, small)) }
        }
    }
}
pub fn rrules(r: &mut Rng, maxn: usize, depth: usize, small: bool) -> Vec<Spanned<TokenRule<'static>>> {
    let n = r.range(0, maxn);
    (0..n)
        .map(|i| {
            let pattern = if r.chance(1, 3) {
                let l = r.range(1, 3);
                TokenPattern::Literal { characters: (0..l).map(|_| rchar(r, small)).collect() }
            } else {
                TokenPattern::Pattern { pattern: rpat(r, depth, small) }
            };
            let precedence = if r.chance(1, 4) { Some(r.below(6) as u16) } else { None };
            Spanned::new(
                SourceSpan { start: SourcePos { line: i as u16 + 1, col: 1 }, end: SourcePos { line: i as u16 + 1, col: 9 } },
                TokenRule { name: leak(format!("T{}", i)), precedence, pattern },
            )
        })
        .collect()
}

fn mentioned(p: &Pattern, out: &mut Vec<(u32, u32)>) {
    let c = |c: &Characters, out: &mut Vec<(u32, u32)>| match c {
        Characters::Single(a) => out.push((*a as u32, *a as u32)),
        Characters::Range(a, b) => out.push((*a as u32, *b as u32)),
    };
    match p {
        Pattern::Sequence { elements } | Pattern::Alternative { elements } => elements.iter().for_each(|e| mentioned(e, out)),
        Pattern::Repetition { inner, .. } => mentioned(inner, out),
        Pattern::CharSet { chars, .. } => chars.iter().for_each(|x| c(x, out)),
        Pattern::Char { chars } => c(chars, out),
    }
}
pub fn rule_mentioned(r: &TokenRule, out: &mut Vec<(u32, u32)>) {
    match &r.pattern {
        TokenPattern::Literal { characters } => characters.iter().for_each(|c| out.push((*c as u32, *c as u32))),
        TokenPattern::Pattern { pattern } => mentioned(pattern, out),
    }
}

pub fn c01(cx: &mut Ctx) {
    while cx.go() {
        let small = cx.rng.chance(1, 3);
        let d = cx.rng.range(0, 3);
        let rules = rrules(&mut cx.rng, 4, d, small);
        let mut probes: Vec<u32> = (0..40).map(|_| cx.rng.below(0x110100) as u32).collect();
        cx.case(
            || format!("{:?}", rules.iter().map(|r| &r.inner.pattern).collect::<Vec<_>>()),
            !rules.is_empty(),
            || {
                let alph = generate_alphabet(&rules);
                let rs: Vec<(u32, u32)> = alph.get_ranges().iter().map(|r| (*r.start(), *r.end())).collect();
                let mut at = 0u32;
                for (i, (a, b)) in rs.iter().enumerate() {
                    if *a != at || b < a {
                        return Err(format!("range {} is {:x}..={:x}, expected start {:x}: not a partition", i, a, b, at));
                    }
                    at = b + 1;
                }
                if at != 0x110000 {
                    return Err(format!("ranges end at {:x}, not at 0x10ffff", at.wrapping_sub(1)));
                }
                let mut m = vec![];
                for r in &rules {
                    rule_mentioned(&r.inner, &mut m);
                }
                for (a, b) in &m {
                    for x in [a, b] {
                        if !rs.contains(&(*x, *x)) {
                            return Err(format!("mentioned character {:x} is not a range of its own", x));
                        }
                    }
                }
                for (a, b) in &rs {
                    for x in [*a, *b, a.wrapping_sub(1), b + 1, (a + b) / 2] {
                        probes.push(x);
                    }
                }
                for x in probes.iter().copied() {
                    let want = rs.iter().position(|(a, b)| *a <= x && x <= *b);
                    let got = alph.find_range(x);
                    if want != got {
                        return Err(format!("find_range({:x}) = {:?}, expected {:?}", x, got, want));
                    }
                }
                Ok(())
            },
        );
    }
}

// ---- language of a pattern over a word of code points (oracle) ----------------------------------
fn cin(c: &Characters, x: u32) -> bool {
    match c {
        Characters::Single(a) => *a as u32 == x,
        Characters::Range(a, b) => *a as u32 <= x && x <= *b as u32,
    }
}
fn ends(p: &Pattern, w: &[u32], from: &BTreeSet<usize>) -> BTreeSet<usize> {
    match p {
        Pattern::Sequence { elements } => {
            let mut s = from.clone();
            for e in elements {
                s = ends(e, w, &s);
            }
            s
        }
        Pattern::Alternative { elements } => {
            let mut s = BTreeSet::new();
            for e in elements {
                s.extend(ends(e, w, from));
            }
            s
        }
        Pattern::Repetition { min, max, inner } => {
            let mut s = from.clone();
            for _ in 0..*min {
                s = ends(inner, w, &s);
            }
            let mut all = s.clone();
            let mut k = *min;
            loop {
                if let Some(m) = max {
                    if k >= *m {
                        break;
                    }
                }
                s = ends(inner, w, &s);
                k += 1;
                let before = all.len();
                all.extend(s.iter().copied());
                if all.len() == before && (max.is_none() || k > *min + w.len() as u32 + 2) {
                    break;
                }
            }
            all
        }
        Pattern::CharSet { chars, negated } => from
            .iter()
            .filter(|i| **i < w.len() && (chars.iter().any(|c| cin(c, w[**i])) != *negated))
            .map(|i| i + 1)
            .collect(),
        Pattern::Char { chars } => from.iter().filter(|i| **i < w.len() && cin(chars, w[**i])).map(|i| i + 1).collect(),
    }
}
pub fn accepts(p: &TokenPattern, w: &[u32]) -> bool {
    match p {
        TokenPattern::Literal { characters } => characters.len() == w.len() && characters.iter().zip(w).all(|(a, b)| *a as u32 == *b),
        TokenPattern::Pattern { pattern } => {
            let mut s = BTreeSet::new();
            s.insert(0);
            ends(pattern, w, &s).contains(&w.len())
        }
    }
}

fn eclose<S: std::fmt::Debug, T: std::fmt::Debug>(nfa: &Nfa<S, T>, s: &mut BTreeSet<StateId>) {
    let mut st: Vec<StateId> = s.iter().copied().collect();
    while let Some(x) = st.pop() {
        for e in nfa.graph().edges_directed(x, Outgoing) {
            if let NfaEdge::Epsilon = e.weight() {
                if s.insert(e.target()) {
                    st.push(e.target());
                }
            }
        }
    }
}
fn step<S: std::fmt::Debug, T: std::fmt::Debug + PartialEq>(nfa: &Nfa<S, T>, s: &BTreeSet<StateId>, t: &T) -> BTreeSet<StateId> {
    let mut o = BTreeSet::new();
    for x in s {
        for e in nfa.graph().edges_directed(*x, Outgoing) {
            if let NfaEdge::Transition(u) = e.weight() {
                if u == t {
                    o.insert(e.target());
                }
            }
        }
    }
    eclose(nfa, &mut o);
    o
}

pub fn c02(cx: &mut Ctx) {
    while cx.go() {
        let d = cx.rng.range(0, 3);
        let rules = rrules(&mut cx.rng, 3, d, true);
        let seed = cx.rng.next();
        cx.case(
            || format!("{:?}", rules.iter().map(|r| &r.inner.pattern).collect::<Vec<_>>()),
            !rules.is_empty(),
            || {
                let mut r = Rng::new(seed);
                let alph = generate_alphabet(&rules);
                let reps: Vec<u32> = alph.get_ranges().iter().map(|r| *r.start()).collect();
                let (start, nfa) = generate_nfa(&alph, &rules);
                let acc: BTreeMap<StateId, usize> = nfa
                    .graph()
                    .node_indices()
                    .filter_map(|n| match &nfa.graph()[n] {
                        AutomatonState::Accepting(a) => Some((n, rules.iter().position(|x| std::ptr::eq(x, *a)).unwrap_or(usize::MAX))),
                        _ => None,
                    })
                    .collect();
                let mut lab: Vec<usize> = acc.values().copied().collect();
                lab.sort();
                if lab != (0..rules.len()).collect::<Vec<_>>() {
                    return Err(format!("accepting states are labelled {:?} for {} rules", lab, rules.len()));
                }
                // every word up to length 3 over up to 7 classes, plus random longer words
                let mut words: Vec<Vec<usize>> = vec![vec![]];
                let n = reps.len();
                let mut classes: Vec<usize> = (0..n).collect();
                while classes.len() > 7 {
                    let i = r.below(classes.len());
                    classes.remove(i);
                }
                let mut layer = vec![vec![]];
                for _ in 0..3 {
                    let mut nl = vec![];
                    for w in &layer {
                        for c in &classes {
                            let mut v: Vec<usize> = w.clone();
                            v.push(*c);
                            nl.push(v);
                        }
                    }
                    words.extend(nl.iter().cloned());
                    layer = nl;
                }
                for _ in 0..60 {
                    // random walk through the NFA to favour accepted words
                    let l = r.range(3, 9);
                    let mut s: BTreeSet<StateId> = [start].into();
                    eclose(&nfa, &mut s);
                    let mut w = vec![];
                    for _ in 0..l {
                        let mut en: Vec<usize> = vec![];
                        for x in &s {
                            for e in nfa.graph().edges_directed(*x, Outgoing) {
                                if let NfaEdge::Transition(t) = e.weight() {
                                    en.push(*t);
                                }
                            }
                        }
                        let c = if en.is_empty() || r.chance(1, 10) { r.below(n) } else { *r.pick(&en) };
                        if c >= n {
                            return Err(format!("transition on class {} but there are only {} classes", c, n));
                        }
                        w.push(c);
                        s = step(&nfa, &s, &c);
                    }
                    words.push(w);
                }
                for w in &words {
                    let cps: Vec<u32> = w.iter().map(|i| reps[*i]).collect();
                    let mut s: BTreeSet<StateId> = [start].into();
                    eclose(&nfa, &mut s);
                    for c in w {
                        s = step(&nfa, &s, c);
                    }
                    let got: BTreeSet<usize> = s.iter().filter_map(|x| acc.get(x).copied()).collect();
                    let want: BTreeSet<usize> = (0..rules.len()).filter(|i| accepts(&rules[*i].inner.pattern, &cps)).collect();
                    if got != want {
                        return Err(format!("word {:x?}: NFA accepts rules {:?}, the patterns match {:?}", cps, got, want));
                    }
                }
                Ok(())
            },
        );
    }
}

pub fn c03(cx: &mut Ctx) {
    while cx.go() {
        let n = cx.rng.range(1, 6);
        let k = cx.rng.range(1, 3) as u8;
        let mut acc: Vec<Option<u32>> = vec![];
        for i in 0..n {
            acc.push(if cx.rng.chance(1, 2) { Some(100 + (i as u32) / (1 + cx.rng.below(2) as u32)) } else { None });
        }
        let m = cx.rng.range(0, 2 * n + 2);
        let edges: Vec<(usize, usize, Option<u8>)> = (0..m)
            .map(|_| {
                let r = &mut cx.rng;
                (r.below(n), r.below(n), if r.chance(1, 3) { None } else { Some(r.below(k as usize) as u8) })
            })
            .collect();
        let entry = cx.rng.below(n);
        cx.case(
            || format!("states(accept labels) {:?} edges(from,to,symbol/epsilon) {:?} entry {}", acc, edges, entry),
            m > 0,
            || {
                let mut nfa: Nfa<u32, u8> = Nfa::new();
                let ids: Vec<StateId> = acc
                    .iter()
                    .map(|a| match a {
                        Some(l) => nfa.add_accepting_state(*l),
                        None => nfa.add_intermediate_state(),
                    })
                    .collect();
                for (a, b, t) in &edges {
                    match t {
                        None => nfa.add_epsilon_transition(ids[*a], ids[*b]),
                        Some(t) => nfa.add_transition(ids[*a], ids[*b], *t),
                    };
                }
                let dfa = nfa.powerset_construction(ids[entry]);
                let states: Vec<StateId> = dfa.states().map(|(i, _)| i).collect();
                let label = |s: StateId| -> Vec<u32> {
                    let (_, st) = dfa.states().find(|(i, _)| *i == s).unwrap();
                    match st {
                        AutomatonState::Accepting(v) => {
                            let mut v = v.clone();
                            v.sort();
                            v
                        }
                        _ => vec![],
                    }
                };
                if states[0].index() != 0 {
                    return Err("first state has index != 0".into());
                }
                for (_, st) in dfa.states() {
                    if let AutomatonState::Accepting(v) = st {
                        if v.is_empty() {
                            return Err("accepting state without labels".into());
                        }
                    }
                }
                for s in &states {
                    let ts: Vec<u8> = dfa.transitions_from(*s).map(|(t, _)| *t).collect();
                    let u: BTreeSet<u8> = ts.iter().copied().collect();
                    if u.len() != ts.len() {
                        return Err(format!("state {:?} has two transitions on one symbol: {:?}", s, ts));
                    }
                }
                // walk pairs (subset, dfa state)
                let mut s0: BTreeSet<StateId> = [ids[entry]].into();
                eclose(&nfa, &mut s0);
                let mut seen = BTreeSet::new();
                let mut work = vec![(s0, states[0], vec![])];
                while let Some((set, d, w)) = work.pop() {
                    if !seen.insert((set.clone(), d)) {
                        continue;
                    }
                    let mut want: Vec<u32> = set
                        .iter()
                        .filter_map(|x| match &nfa.graph()[*x] {
                            AutomatonState::Accepting(l) => Some(*l),
                            _ => None,
                        })
                        .collect();
                    want.sort();
                    let got = label(d);
                    if got != want {
                        return Err(format!("after word {:?}: labels {:?}, expected {:?}", w, got, want));
                    }
                    for c in 0..k {
                        let t = step(&nfa, &set, &c);
                        let td: Option<StateId> = dfa.transitions_from(d).find(|(x, _)| **x == c).map(|(_, t)| t);
                        let mut w2: Vec<u8> = w.clone();
                        w2.push(c);
                        match (t.is_empty(), td) {
                            (true, None) => {}
                            (false, Some(td)) => work.push((t, td, w2)),
                            (e, td) => return Err(format!("after word {:?}: NFA run empty = {}, DFA move = {:?}", w2, e, td)),
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

pub fn prec(p: &Pattern) -> usize {
    match p {
        Pattern::Sequence { elements } => {
            let mut s = 0;
            for e in elements {
                s += prec(e);
            }
            s
        }
        Pattern::Alternative { elements } => {
            let mut s = usize::MAX;
            for e in elements {
                s = s.min(prec(e));
            }
            s
        }
        Pattern::Repetition { min, inner, .. } => (*min as usize) * prec(inner),
        Pattern::CharSet { .. } | Pattern::Char { .. } => 1,
    }
}
pub fn rule_prec(r: &TokenRule) -> usize {
    match (r.precedence, &r.pattern) {
        (Some(p), _) => p as usize,
        (None, TokenPattern::Literal { characters }) => 2 * characters.len(),
        (None, TokenPattern::Pattern { pattern }) => prec(pattern),
    }
}

pub fn c04(cx: &mut Ctx) {
    while cx.go() {
        let mut rules = rrules(&mut cx.rng, 6, 1, true);
        if rules.is_empty() {
            rules = rrules(&mut cx.rng, 6, 1, true);
            if rules.is_empty() {
                continue;
            }
        }
        if cx.rng.chance(1, 2) {
            // distinct explicit precedences so that resolution succeeds often
            let base = cx.rng.below(3) as u16;
            let big = cx.rng.chance(1, 4);
            for (i, r) in rules.iter_mut().enumerate() {
                r.inner.precedence = Some(base + ((i * 7) % 13) as u16 + if big { 65000 } else { 0 });
            }
        }
        let n = cx.rng.range(1, 5);
        let labels: Vec<Vec<usize>> = (0..n)
            .map(|_| {
                if cx.rng.chance(1, 3) {
                    vec![]
                } else {
                    let mut v: Vec<usize> = (0..rules.len()).collect();
                    for i in (1..v.len()).rev() {
                        let j = cx.rng.below(i + 1);
                        v.swap(i, j);
                    }
                    v.truncate(cx.rng.range(1, rules.len().min(4)));
                    v
                }
            })
            .collect();
        let m = cx.rng.range(0, 6);
        let edges: Vec<(usize, usize, usize)> = (0..m).map(|_| (cx.rng.below(n), cx.rng.below(n), cx.rng.below(4))).collect();
        let rules = &rules;
        cx.case(
            || {
                format!(
                    "precedences {:?} candidates per state {:?} transitions {:?}",
                    rules.iter().map(|r| rule_prec(&r.inner)).collect::<Vec<_>>(),
                    labels,
                    edges
                )
            },
            labels.iter().any(|l| l.len() > 1),
            || {
                let mut dfa: Dfa<Vec<&Spanned<TokenRule>>, usize> = Dfa::new();
                let ids: Vec<StateId> = labels
                    .iter()
                    .map(|l| {
                        if l.is_empty() {
                            dfa.add_intermediate_state()
                        } else {
                            dfa.add_accepting_state(l.iter().map(|i| &rules[*i]).collect())
                        }
                    })
                    .collect();
                for (a, b, t) in &edges {
                    dfa.add_transition(ids[*a], ids[*b], *t);
                }
                let ties: Vec<(usize, BTreeSet<usize>)> = labels
                    .iter()
                    .filter(|l| !l.is_empty())
                    .map(|l| {
                        let top = l.iter().map(|i| rule_prec(&rules[*i].inner)).max().unwrap();
                        (top, l.iter().copied().filter(|i| rule_prec(&rules[*i].inner) == top).collect::<BTreeSet<_>>())
                    })
                    .collect();
                let bad: Vec<&(usize, BTreeSet<usize>)> = ties.iter().filter(|t| t.1.len() > 1).collect();
                match apply_precedence_to_dfa(dfa) {
                    Err(e) => {
                        let got: BTreeSet<usize> = e
                            .rules
                            .iter()
                            .map(|r| rules.iter().position(|x| x.inner.name == r.inner && x.span == r.span).unwrap_or(usize::MAX))
                            .collect();
                        if got.len() != e.rules.len() || !bad.iter().any(|b| b.0 == e.precedence && b.1 == got) {
                            return Err(format!("error reports precedence {} rules {:?}; ambiguous states: {:?}", e.precedence, got, bad));
                        }
                    }
                    Ok(d) => {
                        if !bad.is_empty() {
                            return Err(format!("resolution succeeded although states are ambiguous: {:?}", bad));
                        }
                        let st: Vec<_> = d.states().collect();
                        if st.len() != n {
                            return Err(format!("{} states became {}", n, st.len()));
                        }
                        for (i, (id, s)) in st.iter().enumerate() {
                            if id.index() != i {
                                return Err("state order changed".into());
                            }
                            match s {
                                AutomatonState::Accepting(r) => {
                                    let got = rules.iter().position(|x| std::ptr::eq(&x.inner, *r)).unwrap_or(usize::MAX);
                                    let l = &labels[i];
                                    if l.is_empty() || !l.contains(&got) {
                                        return Err(format!("state {} accepts rule {}, candidates {:?}", i, got, l));
                                    }
                                    let top = l.iter().map(|j| rule_prec(&rules[*j].inner)).max().unwrap();
                                    if rule_prec(&rules[got].inner) != top {
                                        return Err(format!("state {} accepts rule {} which is not the highest of {:?}", i, got, l));
                                    }
                                }
                                _ => {
                                    if !labels[i].is_empty() {
                                        return Err(format!("state {} lost its accept label", i));
                                    }
                                }
                            }
                            let mut got: Vec<(usize, usize)> = d.transitions_from(*id).map(|(t, x)| (*t, x.index())).collect();
                            let mut want: Vec<(usize, usize)> = edges.iter().filter(|e| e.0 == i).map(|e| (e.2, e.1)).collect();
                            got.sort();
                            want.sort();
                            if got != want {
                                return Err(format!("state {} transitions {:?}, expected {:?}", i, got, want));
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

pub fn c05(cx: &mut Ctx) {
    while cx.go() {
        let d = cx.rng.range(0, 4);
        let mut rules = rrules(&mut cx.rng, 3, d, false);
        for r in rules.iter_mut() {
            match cx.rng.below(6) {
                0 => r.inner.precedence = Some(cx.rng.below(65536) as u16),
                1 => r.inner.precedence = Some(*cx.rng.pick(&[0, 1, 255, 256, 65535])),
                2 => {
                    let l = cx.rng.range(0, 300);
                    r.inner.pattern = TokenPattern::Literal { characters: vec!['a'; l] };
                }
                3 => {
                    let min = *cx.rng.pick(&[5u32, 255, 256, 65535, 65536, 1_000_000]);
                    let inner = Box::new(rpat(&mut cx.rng, 1, true));
                    r.inner.pattern = TokenPattern::Pattern { pattern: Pattern::Repetition { min, max: None, inner } };
                }
                _ => {}
            }
        }
        cx.case(
            || format!("{:?}", rules.iter().map(|r| (&r.inner.precedence, &r.inner.pattern)).collect::<Vec<_>>()),
            !rules.is_empty(),
            || {
                for r in &rules {
                    let (g, w) = (r.inner.precedence(), rule_prec(&r.inner));
                    if g != w {
                        return Err(format!("precedence of {:?} is {}, expected {}", r.inner, g, w));
                    }
                }
                Ok(())
            },
        );
    }
}
