use crate::util::Ctx;
use lapex_codegen::{GeneratedCodeWriter, Template};
use lapex_input::{SourcePos, SourceSpan};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::rc::Rc;

// ---- C13 --------------------------------------------------------------------------------------
pub fn c13(cx: &mut Ctx) {
    const CH: &[char] = &['a', 'b', '\n', '\n', '\r', '\u{e9}', '\u{20ac}', '\u{1f600}', ' ', '\t', '\0', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{301}', '\u{200b}', '\u{10ffff}'];
    while cx.go() {
        let r = &mut cx.rng;
        let big = r.chance(1, 400);
        let n = if big { r.range(65_530, 66_200) } else { r.below(14) };
        let mode = r.below(4);
        let text: String = (0..n)
            .map(|_| if big && mode == 0 { 'x' } else if big && mode == 1 { '\n' } else { CH[r.below(CH.len())] })
            .collect();
        let chars: Vec<char> = text.chars().collect();
        let mut pos = vec![(1usize, 1usize)];
        for c in &chars {
            let l = *pos.last().unwrap();
            pos.push(if *c == '\n' { (l.0 + 1, 1) } else { (l.0, l.1 + 1) });
        }
        let index: BTreeMap<(usize, usize), usize> = pos.iter().enumerate().map(|(i, p)| (*p, i)).collect();
        let tries = if big { 12 } else { 40 };
        let spans: Vec<((u16, u16), (u16, u16))> = (0..tries)
            .map(|_| {
                let mut g = || -> (u16, u16) {
                    if r.chance(3, 4) {
                        let p = if big && r.chance(1, 2) { pos[pos.len() - 1 - r.below(20)] } else { pos[r.below(pos.len())] };
                        (p.0.min(65535) as u16, p.1.min(65535) as u16)
                    } else if big {
                        (*r.pick(&[0u16, 1, 2, 65534, 65535]), *r.pick(&[0u16, 1, 2, 65534, 65535]))
                    } else {
                        (r.below(7) as u16, r.below(9) as u16)
                    }
                };
                let (a, b) = (g(), g());
                if a <= b { (a, b) } else { (b, a) }
            })
            .collect();
        for (a, b) in spans {
            let span = SourceSpan { start: SourcePos { line: a.0, col: a.1 }, end: SourcePos { line: b.0, col: b.1 } };
            let d = || {
                if big {
                    format!("text of {} characters (kind {}), span {:?}..{:?}", n, mode, a, b)
                } else {
                    format!("text {:?}, span {:?}..{:?}", text, a, b)
                }
            };
            cx.case(d, n > 0, || {
                let i = index.get(&(a.0 as usize, a.1 as usize));
                let j = index.get(&(b.0 as usize, b.1 as usize));
                let want: Option<String> = match (i, j) {
                    (Some(i), Some(j)) => Some(chars[*i..*j].iter().collect()),
                    _ => None,
                };
                let got = span.substring(&text).map(|s| s.to_string());
                if got != want {
                    return Err(format!("substring = {:.200?}, expected {:.200?}", got, want));
                }
                Ok(())
            });
        }
    }
}

// ---- C14 --------------------------------------------------------------------------------------
const KEYS: &[&str] = &["a", "b", "key", "x_y", "", "\u{e9}"];

// writer that fails after `limit` bytes and writes at most `step` bytes per call
struct W {
    out: Rc<RefCell<Vec<u8>>>,
    limit: usize,
    step: usize,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut o = self.out.borrow_mut();
        let n = b.len().min(self.step).min(self.limit - o.len());
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        o.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

enum Seg {
    Lit(String),
    Key(String),
}
fn segs(t: &str) -> Vec<Seg> {
    let c: Vec<char> = t.chars().collect();
    let at = |i: usize, p: &str| -> bool { p.chars().enumerate().all(|(k, x)| c.get(i + k) == Some(&x)) };
    let mut out = vec![];
    let mut lit = String::new();
    let mut i = 0;
    while i < c.len() {
        if at(i, "/*{") {
            let mut j = i + 3;
            let mut hit = false;
            while j < c.len() {
                if at(j, "}*/") {
                    hit = true;
                    break;
                }
                if c[j] == '\n' {
                    break;
                }
                j += 1;
            }
            if hit {
                out.push(Seg::Lit(std::mem::take(&mut lit)));
                out.push(Seg::Key(c[i + 3..j].iter().collect::<String>().trim().to_string()));
                i = j + 3;
                continue;
            }
        }
        lit.push(c[i]);
        i += 1;
    }
    out.push(Seg::Lit(lit));
    out
}

pub fn c14(cx: &mut Ctx) {
    const P: &[&str] = &[
        "/*{a}*/", "/*{ b }*/", "/*{key}*/", "/*{\tx_y }*/", "/*{}*/", "/*{\u{e9}}*/", "/*{", "}*/", "/*", "*/", "{", "}", "/", "*", "\n", "foo", " ",
        "\u{1f600}", "$1", "\\", "/*{a\n}*/", "{}", "%s", "\r\n",
    ];
    while cx.go() {
        let r = &mut cx.rng;
        if r.chance(1, 4) {
            targets(cx);
            continue;
        }
        let n = r.below(9);
        let t: String = (0..n).map(|_| *r.pick(P)).collect();
        let sg = segs(&t);
        // substitutions, registered possibly several times: the last one counts
        let mut subs: Vec<(&'static str, String, usize)> = vec![];
        for k in KEYS {
            let times = r.range(1, 2);
            for _ in 0..times {
                let l = r.below(4);
                let v: String = (0..l).map(|_| *r.pick(P)).collect();
                subs.push((k, v, if r.chance(1, 25) { 1 } else { 0 }));
            }
        }
        // only registered keys are in scope of the property
        if sg.iter().any(|s| matches!(s, Seg::Key(k) if !KEYS.contains(&k.as_str()))) {
            continue;
        }
        let limit = if r.chance(1, 4) { r.below(30) } else { usize::MAX };
        let step = *r.pick(&[1usize, 2, 1000]);
        let via_target = r.chance(1, 3);
        cx.case(
            || format!("template {:?}, substitutions {:?}, writer limit {} step {}", t, subs, limit, step),
            !t.is_empty(),
            || {
                // expected output and outcome
                let mut want: Vec<u8> = vec![];
                let mut err: Option<&str> = None;
                for s in &sg {
                    let (txt, fails) = match s {
                        Seg::Lit(l) => (l.as_str(), false),
                        Seg::Key(k) => {
                            let (_, v, f) = subs.iter().rev().find(|(x, _, _)| x == k).unwrap();
                            (v.as_str(), *f == 1)
                        }
                    };
                    want.extend_from_slice(txt.as_bytes());
                    if want.len() > limit {
                        want.truncate(limit);
                        err = Some("full");
                        break;
                    }
                    if fails {
                        err = Some("sub");
                        break;
                    }
                }
                let tpl = Template::new(&t);
                let mut w = tpl.writer();
                for (k, v, f) in &subs {
                    let v = v.clone();
                    let f = *f;
                    w.substitute(k, move |o| {
                        write!(o, "{}", v)?;
                        if f == 1 {
                            Err(std::io::Error::new(std::io::ErrorKind::Other, "sub"))
                        } else {
                            Ok(())
                        }
                    });
                }
                let out = Rc::new(RefCell::new(vec![]));
                let mut o = W { out: out.clone(), limit, step };
                let res = if via_target {
                    let mut g = GeneratedCodeWriter::new();
                    g.add_target("it", &mut o);
                    g.generate_code("it", |x| w.write(x))
                } else {
                    w.write(&mut o)
                };
                let got = out.borrow().clone();
                if got != want {
                    return Err(format!("output {:?}, expected {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want)));
                }
                let e = res.as_ref().err().map(|e| e.to_string());
                if e.as_deref() != err {
                    return Err(format!("result {:?}, expected error {:?}", e, err));
                }
                Ok(())
            },
        );
    }
}

fn targets(cx: &mut Ctx) {
    const N: &[&str] = &["p", "q", "pq", "r.rs", "s"];
    let r = &mut cx.rng;
    let nreg = r.below(6);
    let regs: Vec<&'static str> = (0..nreg).map(|_| *r.pick(N)).collect();
    let ngen = r.below(7);
    let gens: Vec<(&'static str, String, bool)> =
        (0..ngen).map(|i| (*r.pick(N), format!("<{}>", i), r.chance(1, 6))).collect();
    let deffail = r.chance(1, 6);
    cx.case(
        || format!("targets {:?}, generated {:?}, default fails: {}", regs, gens, deffail),
        nreg > 0 && ngen > 0,
        || {
            let bufs: Vec<Rc<RefCell<Vec<u8>>>> = regs.iter().map(|_| Rc::new(RefCell::new(vec![]))).collect();
            let mut ws: Vec<W> = bufs.iter().map(|b| W { out: b.clone(), limit: usize::MAX, step: 3 }).collect();
            let defs: Rc<RefCell<Vec<(String, Rc<RefCell<Vec<u8>>>)>>> = Rc::new(RefCell::new(vec![]));
            let d2 = defs.clone();
            let mut g = GeneratedCodeWriter::with_default(move |n| {
                if deffail {
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "nodef"));
                }
                let b = Rc::new(RefCell::new(vec![]));
                d2.borrow_mut().push((n.to_string(), b.clone()));
                Ok(W { out: b, limit: usize::MAX, step: 2 })
            });
            for (n, w) in regs.iter().zip(ws.iter_mut()) {
                g.add_target(n, w);
            }
            let mut want: Vec<Vec<u8>> = regs.iter().map(|_| vec![]).collect();
            let mut wantdef: Vec<(String, Vec<u8>)> = vec![];
            for (n, t, fail) in &gens {
                let res = g.generate_code(n, |w| {
                    w.write_all(t.as_bytes())?;
                    if *fail {
                        Err(std::io::Error::new(std::io::ErrorKind::Other, "gen"))
                    } else {
                        Ok(())
                    }
                });
                let mut e = if *fail { Some("gen") } else { None };
                match regs.iter().rposition(|x| x == n) {
                    Some(i) => want[i].extend_from_slice(t.as_bytes()),
                    None if deffail => e = Some("nodef"),
                    None => wantdef.push((n.to_string(), t.as_bytes().to_vec())),
                }
                let ge = res.err().map(|e| e.to_string());
                if ge.as_deref() != e {
                    return Err(format!("generate_code({:?}) returned {:?}, expected {:?}", n, ge, e));
                }
            }
            drop(g);
            for (i, b) in bufs.iter().enumerate() {
                if *b.borrow() != want[i] {
                    return Err(format!("target {:?} (#{}) got {:?}, expected {:?}", regs[i], i, String::from_utf8_lossy(&b.borrow()), String::from_utf8_lossy(&want[i])));
                }
            }
            let gotdef: Vec<(String, Vec<u8>)> = defs.borrow().iter().map(|(n, b)| (n.clone(), b.borrow().clone())).collect();
            if gotdef != wantdef {
                return Err(format!("default writers {:?}, expected {:?}", gotdef, wantdef));
            }
            Ok(())
        },
    );
}
