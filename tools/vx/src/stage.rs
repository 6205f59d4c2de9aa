// Stage erasure: a code generator written with `quote!` is read as two stages of one program. Every
// quoted match arm becomes a variant of an enum that captures what is interpolated into it, the quoted
// program becomes ordinary code that takes the interpolated lists as data (a struct), and a `match` with a
// spliced list of arms becomes a first-match search in that list followed by the code of the arm hit.
// Patterns and bodies come from the quoted text; nothing is written by hand.
use crate::desugar::id;
use proc_macro2::{Delimiter, Group, Ident, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

type R<T> = std::result::Result<T, String>;

#[derive(Default, Clone)]
pub struct Dir {
    pub name: String,
    pub vars: BTreeMap<String, String>,                // interpolated variable -> type
    pub dests: Vec<(String, String, String, String)>, // fn, variable, enum, matched type
    pub rets: Vec<(String, String)>,                   // fn, return type
    pub prog: Option<(String, String)>,                // fn, struct
    pub named: BTreeSet<String>,                       // enums whose variants are interpolated names; the spec declares them
    pub exprs: BTreeSet<String>,                       // enums of quoted expressions
    pub ghost: Option<String>,
    pub generics: String,
}

pub fn parse_dir(lines: &[&str]) -> R<Dir> {
    let mut d = Dir::default();
    for l in lines {
        let l = l.trim();
        if l.is_empty() {
            continue;
        }
        let (k, r) = l.split_once(' ').ok_or(format!("stage: bad line {}", l))?;
        let w: Vec<&str> = r.split_whitespace().collect();
        match k {
            "var" => {
                let (n, t) = r.trim().split_once(' ').ok_or("stage: var")?;
                d.vars.insert(n.into(), t.trim().into());
            }
            "arms" | "exprs" => {
                let mut p = r.trim().splitn(4, ' ');
                let mut n = || p.next().map(|s| s.trim().to_string()).ok_or("stage: arms");
                d.dests.push((n()?, n()?, n()?, n()?));
                if k == "exprs" {
                    d.exprs.insert(d.dests.last().unwrap().2.clone());
                }
            }
            "ret" => {
                let (n, t) = r.trim().split_once(' ').ok_or("stage: ret")?;
                d.rets.push((n.into(), t.trim().into()));
            }
            "prog" => d.prog = Some((w[0].into(), w[1].into())),
            "named" => {
                d.named.insert(w[0].into());
            }
            "ghost" => d.ghost = Some(r.trim().into()),
            "generics" => d.generics = r.trim().into(),
            _ => return Err(format!("stage: bad line {}", l)),
        }
    }
    Ok(d)
}

// ---- quoted text -> parseable tokens ------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
enum Cx {
    Other,
    Match,
    Enum,
    Items,
    List,
}

fn holes(ts: TokenStream, cx: Cx) -> R<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    let is = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
    while i < v.len() {
        if is(v.get(i), '#') {
            match v.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    out.push(TokenTree::Ident(Ident::new(&format!("vx_hole_{}", n), n.span())));
                    i += 2;
                    continue;
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    let mut j = i + 2;
                    let mut sep: Option<TokenTree> = None;
                    if !is(v.get(j), '*') {
                        sep = v.get(j).cloned();
                        j += 1;
                    }
                    if !is(v.get(j), '*') {
                        return Err("stage: splice without `*`".into());
                    }
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut hs: Vec<Ident> = vec![];
                    for k in 0..inner.len() {
                        if is(inner.get(k), '#') {
                            if let Some(TokenTree::Ident(n)) = inner.get(k + 1) {
                                hs.push(n.clone());
                            }
                        }
                    }
                    if hs.len() != 1 {
                        return Err("stage: splice with other than one list".into());
                    }
                    let n = &hs[0];
                    // nothing but the list and at most one separator, unless the context is a list of expressions
                    let plain = inner.len() == 2 || (inner.len() == 3 && is(inner.get(2), ','));
                    if cx != Cx::List && !plain {
                        return Err("stage: splice of more than a list".into());
                    }
                    let _ = sep;
                    let rep: TokenStream = match cx {
                        Cx::Match => quote!(vx_arms!(#n) => {}),
                        Cx::Enum => {
                            let w = id(&format!("Vx_{}", n));
                            quote!(#w,)
                        }
                        Cx::Items => quote!(vx_items!{#n}),
                        Cx::List => {
                            let x = holes(g.stream(), Cx::Other)?;
                            quote!(vx_list!(#n, #x))
                        }
                        Cx::Other => return Err("stage: splice in an unknown place".into()),
                    };
                    out.extend(rep);
                    i = j + 1;
                    continue;
                }
                _ => {}
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            // what kind of group is it?
            let mut k = Cx::Other;
            if g.delimiter() == Delimiter::Brace {
                for t in out.iter().rev() {
                    match t {
                        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => break,
                        TokenTree::Punct(p) if p.as_char() == ';' || p.as_char() == ',' && false => break,
                        TokenTree::Ident(n) => {
                            let n = n.to_string();
                            if n == "match" {
                                k = Cx::Match;
                                break;
                            } else if n == "enum" {
                                k = Cx::Enum;
                                break;
                            } else if n == "trait" || n == "impl" {
                                k = Cx::Items;
                                break;
                            }
                        }
                        _ => {}
                    }
                }
            } else if g.delimiter() == Delimiter::Bracket {
                if let [.., TokenTree::Ident(n), TokenTree::Punct(p)] = &out[..] {
                    if n == "vec" && p.as_char() == '!' {
                        k = Cx::List;
                    }
                }
                if let Some(TokenTree::Punct(p)) = out.last() {
                    if p.as_char() == '&' {
                        k = Cx::List;
                    }
                }
            }
            let s = holes(g.stream(), k)?;
            let mut ng = Group::new(g.delimiter(), s);
            ng.set_span(g.span());
            out.push(TokenTree::Group(ng));
            i += 1;
            continue;
        }
        out.push(v[i].clone());
        i += 1;
    }
    let _ = Spacing::Alone;
    Ok(out.into_iter().collect())
}

fn hole_of(i: &Ident) -> Option<String> {
    i.to_string().strip_prefix("vx_hole_").map(|s| s.to_string())
}

fn collect(ts: TokenStream, hs: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                if let Some(h) = hole_of(&i) {
                    if !hs.contains(&h) {
                        hs.push(h);
                    }
                }
            }
            TokenTree::Group(g) => collect(g.stream(), hs),
            _ => {}
        }
    }
}

// identifiers of a pattern, for naming the variant after its shape
fn shape(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => out.push(hole_of(&i).unwrap_or(if i == "_" { "X".into() } else { i.to_string() })),
            TokenTree::Group(g) => shape(g.stream(), out),
            _ => {}
        }
    }
}

struct Variant {
    name: String,
    fname: String,
    holes: Vec<String>,
    pat: Pat,
    body: Option<Expr>,
}

struct En {
    name: String,
    scrut: String,
    vars: Vec<Variant>,
}

// a pattern with the holes replaced by bound names, plus the comparisons they stand for
struct PatHoles<'a> {
    named: &'a BTreeSet<String>,
    n: usize,
    // (bound name, hole, kind) kind: 0 ==, 1 >=, 2 <=, 3 nested pattern
    // 4 the variant the name stands for
    cmp: Vec<(Ident, String, u8)>,
    of: BTreeMap<String, String>,
    err: Option<String>,
}
impl<'a> PatHoles<'a> {
    fn fresh(&mut self) -> Ident {
        self.n += 1;
        id(&format!("vx_b{}", self.n))
    }
}
fn path_hole(p: &Path) -> Option<(Option<String>, String)> {
    let l = p.segments.last()?;
    let h = hole_of(&l.ident)?;
    let pre = if p.segments.len() > 1 { Some(p.segments[p.segments.len() - 2].ident.to_string()) } else { None };
    Some((pre, h))
}
fn expr_hole(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if let Some((None, h)) = path_hole(&p.path) {
            return Some(h);
        }
    }
    None
}
impl<'a> VisitMut for PatHoles<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        match p {
            Pat::Ident(i) => {
                if let Some(h) = hole_of(&i.ident) {
                    let b = self.fresh();
                    *p = parse_quote!(#b);
                    self.cmp.push((b, h, 0));
                    return;
                }
            }
            Pat::Path(x) => {
                if let Some((pre, h)) = path_hole(&x.path) {
                    let b = self.fresh();
                    *p = parse_quote!(#b);
                    match pre {
                        None => self.cmp.push((b, h, 0)),
                        Some(t) => {
                            if !self.named.contains(&t) {
                                self.err = Some(format!("stage: {} is not a named enum", t));
                            }
                            self.of.insert(b.to_string(), t);
                            self.cmp.push((b, h, 4));
                        }
                    }
                    return;
                }
            }
            Pat::Range(r) => {
                let a = r.start.as_ref().and_then(|e| expr_hole(e));
                let b = r.end.as_ref().and_then(|e| expr_hole(e));
                if let (Some(a), Some(b), RangeLimits::Closed(_)) = (a, b, &r.limits) {
                    let n = self.fresh();
                    *p = parse_quote!(#n);
                    self.cmp.push((n.clone(), a, 1));
                    self.cmp.push((n, b, 2));
                    return;
                }
                self.err = Some("stage: range pattern".into());
                return;
            }
            _ => {}
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

// vx_list!(list, element)
struct L(Ident, Expr);
impl parse::Parse for L {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let _: Ident = i.parse()?;
        i.parse::<Token![!]>()?;
        let c;
        parenthesized!(c in i);
        let n: Ident = c.parse()?;
        c.parse::<Token![,]>()?;
        let e: Expr = c.parse()?;
        c.parse::<Option<Token![,]>>()?;
        Ok(L(n, e))
    }
}
// holes in expressions
struct ExprHoles<'a> {
    named: &'a BTreeSet<String>,
    d: &'a Dir,
    ens: &'a [En],
    // how a hole reads
    read: &'a dyn Fn(&str) -> Expr,
    err: Option<String>,
}
impl<'a> VisitMut for ExprHoles<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some((pre, h)) = path_hole(&p.path) {
                let v = (self.read)(&h);
                match pre {
                    None => *e = v,
                    Some(t) => {
                        if !self.named.contains(&t) {
                            self.err = Some(format!("stage: {} is not a named enum", t));
                        }
                        let t = id(&t);
                        *e = parse_quote!(#t::vx_of(#v));
                    }
                }
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(h) = hole_of(&m.method) {
                let v = (self.read)(&h);
                m.method = id("vx_call");
                m.args.insert(0, v);
            }
        }
        if let Expr::Reference(r) = e {
            // &[#(#x,)*] with a list of quoted expressions: a constant of the generated program
            if let Expr::Array(a) = &*r.expr {
                if a.elems.len() == 1 && r.mutability.is_none() {
                    if let Some(Expr::Macro(m)) = a.elems.first() {
                        if m.mac.path.is_ident("vx_list") {
                            let (p, b) = (&m.mac.path, &m.mac.tokens);
                            let l = match syn::parse2::<L>(quote!(#p!(#b))) {
                                Ok(l) => l,
                                Err(x) => {
                                    self.err = Some(format!("stage: list {}", x));
                                    return;
                                }
                            };
                            let nm = l.0.to_string();
                            if expr_hole(&l.1).as_deref() != Some(nm.as_str()) {
                                self.err = Some("stage: list of other than its elements".into());
                                return;
                            }
                            let en = self.d.dests.iter().find(|x| x.1 == nm && self.d.exprs.contains(&x.2)).and_then(|x| self.ens.iter().find(|e| e.name == x.2));
                            let en = match en {
                                Some(e) => e,
                                None => {
                                    self.err = Some(format!("stage: list {} is not one of expressions", nm));
                                    return;
                                }
                            };
                            let eni = id(&en.name);
                            let mut arms: Vec<TokenStream> = vec![];
                            for v in &en.vars {
                                let vn = id(&v.name);
                                let hs: Vec<Ident> = v.holes.iter().map(|h| id(h)).collect();
                                let bs: Vec<Ident> = v.holes.iter().map(|h| id(&format!("vx_e_{}", h))).collect();
                                let mut body = v.body.clone().unwrap();
                                let rd = |h: &str| -> Expr {
                                    let b = id(&format!("vx_e_{}", h));
                                    parse_quote!((*#b))
                                };
                                let mut eh = ExprHoles { named: self.named, d: self.d, ens: self.ens, read: &rd, err: None };
                                eh.visit_expr_mut(&mut body);
                                if eh.err.is_some() {
                                    self.err = eh.err;
                                    return;
                                }
                                arms.push(if hs.is_empty() { quote!(#eni::#vn => #body,) } else { quote!(#eni::#vn { #(#hs: #bs),* } => #body,) });
                            }
                            let src = (self.read)(&nm);
                            *e = parse_quote!(vx_static({
                                let mut vx_lst = Vec::new();
                                for vx_el in (#src).iter() { vx_lst.push(match vx_el { #(#arms)* }); }
                                vx_lst
                            }));
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            // vec![#(f(#x)),*]
            if m.mac.path.is_ident("vec") {
                let toks = m.mac.tokens.to_string();
                if toks.contains("vx_list") {
                    match m.mac.parse_body::<L>() {
                        Ok(L(n, mut x)) => {
                            // the element hole reads the element of the list
                            let nm = n.to_string();
                            let el = |h: &str| -> Expr { if h == nm { parse_quote!((*vx_el)) } else { parse_quote!(vx_nohole) } };
                            let mut eh = ExprHoles { named: self.named, d: self.d, ens: self.ens, read: &el, err: None };
                            eh.visit_expr_mut(&mut x);
                            let src = (self.read)(&nm);
                            *e = parse_quote!({
                                let mut vx_lst = Vec::new();
                                for vx_el in (#src).iter() { vx_lst.push(#x); }
                                vx_lst
                            });
                            return;
                        }
                        Err(x) => {
                            self.err = Some(format!("stage: list {}", x));
                            return;
                        }
                    }
                }
            }
            let mut hs = vec![];
            collect(m.mac.tokens.clone(), &mut hs);
            if !hs.is_empty() {
                self.err = Some("stage: interpolation inside a macro".into());
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub struct Out {
    pub file: File,
    pub decls: String,
}

struct Gen<'a> {
    d: &'a Dir,
    fname: String,
    dest: Vec<String>,
    ens: Vec<En>,
    prog: Option<File>,
    prog_holes: Vec<String>,
    err: Option<String>,
}

impl<'a> Gen<'a> {
    fn fail(&mut self, s: String) {
        if self.err.is_none() {
            self.err = Some(s);
        }
    }
    fn dest_enum(&self, var: &str) -> Option<(String, String)> {
        self.d
            .dests
            .iter()
            .find(|(f, v, _, _)| (f == "*" || *f == self.fname) && v == var)
            .map(|(_, _, e, s)| (e.clone(), s.clone()))
    }
    fn ty(&self, t: &Type, var: &str) -> Type {
        struct T(Type);
        impl VisitMut for T {
            fn visit_type_mut(&mut self, t: &mut Type) {
                if let Type::Path(p) = t {
                    if p.path.segments.last().unwrap().ident == "TokenStream" {
                        *t = self.0.clone();
                        return;
                    }
                }
                visit_mut::visit_type_mut(self, t);
            }
        }
        let e: Type = match self.dest_enum(var) {
            Some((e, _)) => parse_str(&e).unwrap(),
            None => parse_quote!(VxName),
        };
        let mut t = t.clone();
        T(e).visit_type_mut(&mut t);
        t
    }
    fn quote_expr(&mut self, ts: TokenStream) -> R<Expr> {
        let t = holes(ts.clone(), Cx::Other)?;
        // a program
        if let Some((f, st)) = &self.d.prog {
            if *f == self.fname {
                if let Ok(file) = syn::parse2::<File>(t.clone()) {
                    if file.items.len() > 1 {
                        if self.prog.is_some() {
                            return Err("stage: two programs".into());
                        }
                        let mut hs = vec![];
                        collect(t.clone(), &mut hs);
                        let mut lists = vec![];
                        arm_lists(t, &mut lists);
                        for l in lists {
                            if !hs.contains(&l) {
                                hs.push(l);
                            }
                        }
                        self.prog = Some(file);
                        self.prog_holes = hs.clone();
                        let st = id(st);
                        let fs: Vec<TokenStream> = hs
                            .iter()
                            .map(|h| {
                                let i = id(h);
                                if self.dest_enum(h).is_some() { quote!(#i: #i) } else { quote!(#i: #i.vx_q()) }
                            })
                            .collect();
                        return Ok(parse_quote!(#st { #(#fs),* }));
                    }
                }
            }
        }
        let dest = self.dest.last().cloned().ok_or(format!("stage: quote! without a destination in {}", self.fname))?;
        // an identifier standing for a name
        let v: Vec<TokenTree> = t.clone().into_iter().collect();
        if let [TokenTree::Ident(i)] = &v[..] {
            if hole_of(i).is_none() {
                let s = i.to_string();
                return Ok(parse_quote!(vx_name(#s)));
            }
        }
        let (en, scrut) = self.dest_enum(&dest).ok_or(format!("stage: quote! pushed to `{}` in {}", dest, self.fname))?;
        let mut hs = vec![];
        collect(t.clone(), &mut hs);
        let mut lists = vec![];
        arm_lists(t.clone(), &mut lists);
        for l in &lists {
            if !hs.contains(l) {
                hs.push(l.clone());
            }
        }
        struct A(Pat, Option<Expr>);
        impl parse::Parse for A {
            fn parse(i: parse::ParseStream) -> Result<Self> {
                let p = Pat::parse_multi_with_leading_vert(i)?;
                if i.is_empty() {
                    return Ok(A(p, None));
                }
                i.parse::<Token![=>]>()?;
                let e: Expr = i.parse()?;
                i.parse::<Option<Token![,]>>()?;
                if !i.is_empty() {
                    return Err(i.error("more than an arm"));
                }
                Ok(A(p, Some(e)))
            }
        }
        let expr = self.d.exprs.contains(&en);
        let A(pat, body) = if expr {
            A(parse_quote!(_), Some(syn::parse2::<Expr>(t).map_err(|e| format!("stage: quoted expression in {}: {}", self.fname, e))?))
        } else {
            syn::parse2::<A>(t).map_err(|e| format!("stage: quoted arm in {}: {}", self.fname, e))?
        };
        let mut sh = vec![if expr { "E" } else { "A" }.to_string()];
        shape(if expr { body.to_token_stream() } else { pat.to_token_stream() }, &mut sh);
        if let Some(b) = &body {
            // the pattern may be one hole: the body then names the variant
            if sh.len() == 2 && !expr {
                sh.push("to".into());
                shape(b.to_token_stream(), &mut sh);
                sh.truncate(6);
            }
        }
        let mut name = sh.join("_");
        name.retain(|c| c.is_ascii_alphanumeric() || c == '_');
        let k = match self.ens.iter().position(|e| e.name == en) {
            Some(k) => k,
            None => {
                self.ens.push(En { name: en.clone(), scrut, vars: vec![] });
                self.ens.len() - 1
            }
        };
        match self.ens[k].vars.iter().find(|v| v.name == name) {
            Some(v) => {
                let tk = |p: &Pat, b: &Option<Expr>| (p.to_token_stream().to_string(), b.as_ref().map(|b| b.to_token_stream().to_string()));
                if v.fname != self.fname || tk(&v.pat, &v.body) != tk(&pat, &body) || v.holes != hs {
                    return Err(format!("stage: two arms of the same shape {} in {}", name, self.fname));
                }
            }
            None => self.ens[k].vars.push(Variant { name: name.clone(), fname: self.fname.clone(), holes: hs.clone(), pat, body }),
        }
        let is_list = |h: &str| lists.iter().any(|l| l == h);
        let (en, name) = (id(&en), id(&name));
        let fs: Vec<TokenStream> = hs
            .iter()
            .map(|h| {
                let i = id(h);
                // a list is used up
                if is_list(h) { quote!(#i: #i) } else { quote!(#i: #i.vx_q()) }
            })
            .collect();
        Ok(if hs.is_empty() { parse_quote!(#en::#name) } else { parse_quote!(#en::#name { #(#fs),* }) })
    }
}

// lists spliced into matches or lists
fn arm_lists(ts: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        if let (TokenTree::Ident(n), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 2)) {
            if n == "vx_arms" || n == "vx_list" {
                if let Some(TokenTree::Ident(x)) = g.stream().into_iter().next() {
                    let s = x.to_string();
                    if !out.contains(&s) {
                        out.push(s);
                    }
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            arm_lists(g.stream(), out);
        }
    }
}

impl<'a> VisitMut for Gen<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let n = match &l.pat {
            Pat::Ident(i) => Some(i.ident.to_string()),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = n {
            if let Pat::Type(t) = &mut l.pat {
                *t.ty = self.ty(&t.ty, &n);
            }
            self.dest.push(n);
            visit_mut::visit_local_mut(self, l);
            self.dest.pop();
        } else {
            visit_mut::visit_local_mut(self, l);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if m.method == "push" && m.args.len() == 1 {
                if let Expr::Path(p) = &*m.receiver {
                    if let Some(i) = p.path.get_ident() {
                        self.dest.push(i.to_string());
                        visit_mut::visit_expr_mut(self, e);
                        self.dest.pop();
                        return;
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n == "quote" {
                match self.quote_expr(m.mac.tokens.clone()) {
                    Ok(x) => *e = x,
                    Err(s) => self.fail(s),
                }
                return;
            }
            if n == "write" || n == "writeln" {
                if let Ok(a) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let ok = a.len() == 3 && matches!(&a[1], Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if s.value() == "{}");
                    if ok {
                        let (o, x) = (&a[0], &a[2]);
                        let mut x = x.clone();
                        self.visit_expr_mut(&mut x);
                        *e = parse_quote!(#o.vx_emit(#x));
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // `write!(..)` as a statement
        if let Stmt::Macro(m) = s {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n == "quote" || n == "write" || n == "writeln" {
                let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                self.visit_expr_mut(&mut e);
                *s = Stmt::Expr(e, m.semi_token);
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

// the program's functions: matches with spliced arms, scalar holes, the extra parameters
struct ProgFns<'a> {
    d: &'a Dir,
    ens: &'a Vec<En>,
    lists: BTreeMap<String, String>, // list -> enum
    uses: bool,
    refs: BTreeSet<String>, // parameters that are references
    err: Option<String>,
}
impl<'a> VisitMut for ProgFns<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Match(m) = e {
            let mut rest: Vec<Arm> = vec![];
            let mut list: Option<(usize, String)> = None;
            for (i, a) in m.arms.iter().enumerate() {
                if let Pat::Macro(p) = &a.pat {
                    if p.mac.path.is_ident("vx_arms") {
                        list = Some((i, p.mac.tokens.to_string()));
                        continue;
                    }
                }
                rest.push(a.clone());
            }
            if let Some((i, l)) = list {
                if i != 0 {
                    self.err = Some("stage: arms before the spliced list".into());
                    return;
                }
                self.uses = true;
                let en = match self.lists.get(&l).and_then(|n| self.ens.iter().find(|e| e.name == *n)) {
                    Some(e) => e,
                    None => {
                        self.err = Some(format!("stage: list {} unknown", l));
                        return;
                    }
                };
                let eni = id(&en.name);
                let li = id(&l);
                let mut arms: Vec<TokenStream> = vec![];
                // in an order that does not depend on where they are written
                let mut vars: Vec<&Variant> = en.vars.iter().collect();
                vars.sort_by(|a, b| a.name.cmp(&b.name));
                for v in vars {
                    let vn = id(&v.name);
                    let hs: Vec<Ident> = v.holes.iter().map(|h| id(h)).collect();
                    let bs: Vec<Ident> = v.holes.iter().map(|h| id(&format!("vx_f_{}", h))).collect();
                    let mut body = v.body.clone().unwrap();
                    let rd = |h: &str| -> Expr {
                        let b = id(&format!("vx_f_{}", h));
                        parse_quote!((*#b))
                    };
                    let mut eh = ExprHoles { named: &self.d.named, d: self.d, ens: self.ens, read: &rd, err: None };
                    eh.visit_expr_mut(&mut body);
                    if eh.err.is_some() {
                        self.err = eh.err;
                        return;
                    }
                    let mut wp = v.pat.clone();
                    Wild.visit_pat_mut(&mut wp);
                    let lhs = if hs.is_empty() { quote!(#eni::#vn) } else { quote!(#eni::#vn { #(#hs: #bs),* }) };
                    let body: TokenStream = if matches!(wp, Pat::Wild(_)) {
                        quote!(#body)
                    } else {
                        quote!(match vx_s { #wp => #body, _ => vx_panic() })
                    };
                    arms.push(quote!(#lhs => #body,));
                }
                let none: TokenStream = if rest.is_empty() { quote!(vx_panic()) } else { quote!(match vx_s { #(#rest)* }) };
                // patterns match through references
                let rf = |x: &Expr| -> Expr {
                    match x {
                        Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())) => parse_quote!(*#x),
                        _ => x.clone(),
                    }
                };
                let sc: Expr = match &*m.expr {
                    Expr::Tuple(t) => {
                        let es: Vec<Expr> = t.elems.iter().map(rf).collect();
                        parse_quote!((#(#es),*))
                    }
                    x => rf(x),
                };
                *e = parse_quote!({
                    let vx_s = #sc;
                    match vx_sel(&vx_p.#li, vx_s) {
                        Some(vx_k) => match &vx_p.#li[vx_k] { #(#arms)* },
                        None => #none,
                    }
                });
            }
        }
    }
}
// holes of a pattern that is known to match
struct Wild;
impl VisitMut for Wild {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        match p {
            Pat::Ident(i) if hole_of(&i.ident).is_some() => {
                *p = parse_quote!(_);
                return;
            }
            Pat::Path(x) => {
                if path_hole(&x.path).is_some() {
                    *p = parse_quote!(_);
                    return;
                }
            }
            Pat::Range(r) => {
                if r.start.as_ref().and_then(|e| expr_hole(e)).is_some() {
                    *p = parse_quote!(_);
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

struct AddArgs<'a> {
    fns: &'a BTreeSet<String>,
    ghost: bool,
    hit: bool,
}
impl<'a> VisitMut for AddArgs<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) && self.fns.contains(&m.method.to_string()) => {
                m.args.push(parse_quote!(vx_p));
                if self.ghost {
                    m.args.push(parse_quote!(Ghost(vx_g)));
                }
                self.hit = true;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.len() == 2 && self.fns.contains(&p.path.segments.last().unwrap().ident.to_string()) {
                        c.args.push(parse_quote!(vx_p));
                        if self.ghost {
                            c.args.push(parse_quote!(Ghost(vx_g)));
                        }
                        self.hit = true;
                    }
                }
            }
            _ => {}
        }
    }
}

fn calls(b: &Block, fns: &BTreeSet<String>) -> bool {
    let mut a = AddArgs { fns, ghost: false, hit: false };
    a.visit_block_mut(&mut b.clone());
    a.hit
}

pub fn erase(mut file: File, d: &Dir) -> R<Out> {
    // 1. the generator's functions
    let mut g = Gen { d, fname: String::new(), dest: vec![], ens: vec![], prog: None, prog_holes: vec![], err: None };
    for it in file.items.iter_mut() {
        if let Item::Impl(im) = it {
            for ii in im.items.iter_mut() {
                if let ImplItem::Fn(f) = ii {
                    g.fname = f.sig.ident.to_string();
                    let relevant = d.prog.as_ref().map_or(false, |(n, _)| *n == g.fname)
                        || d.dests.iter().any(|(n, _, _, _)| *n == g.fname)
                        || d.rets.iter().any(|(n, _)| *n == g.fname);
                    if !relevant {
                        continue;
                    }
                    for a in f.sig.inputs.iter_mut() {
                        if let FnArg::Typed(pt) = a {
                            if let Pat::Ident(pi) = &*pt.pat {
                                let n = pi.ident.to_string();
                                *pt.ty = g.ty(&pt.ty, &n);
                            }
                        }
                    }
                    if let Some((_, t)) = d.rets.iter().find(|(n, _)| *n == g.fname) {
                        let t: Type = parse_str(t).map_err(|e| e.to_string())?;
                        f.sig.output = parse_quote!(-> #t);
                    }
                    g.visit_block_mut(&mut f.block);
                }
            }
        }
    }
    if let Some(e) = g.err {
        return Err(e);
    }
    let prog = g.prog.take().ok_or("stage: no quoted program found")?;
    let ens = g.ens;
    let vty = |f: &str, h: &str| -> R<String> {
        d.vars.get(&format!("{}.{}", f, h)).or(d.vars.get(h)).cloned().ok_or(format!("stage: no type for interpolated `{}`", h))
    };
    // fragments of patterns interpolated into other patterns
    let mut frags: BTreeSet<String> = BTreeSet::new();
    for e in &ens {
        for v in &e.vars {
            for h in &v.holes {
                let t = vty(&v.fname, h)?;
                if ens.iter().any(|x| x.name == t) {
                    frags.insert(t);
                }
            }
        }
    }
    // 2. declarations
    let mut decls = String::new();
    for e in &ens {
        let frag = frags.contains(&e.name);
        let der = if frag { "#[derive(Clone, Copy)]\n" } else { "" };
        decls.push_str(&format!("// ---- quoted arms of {}\n{}pub enum {} {{\n", d.name, der, e.name));
        for v in &e.vars {
            let mut fs = vec![];
            for h in &v.holes {
                fs.push(format!("{}: {}", h, vty(&v.fname, h)?));
            }
            if fs.is_empty() {
                decls.push_str(&format!("    {},\n", v.name));
            } else {
                decls.push_str(&format!("    {} {{ {} }},\n", v.name, fs.join(", ")));
            }
        }
        decls.push_str("}\n");
        if d.exprs.contains(&e.name) {
            continue;
        }
        if frag {
            decls.push_str(&format!("impl VxQ for {n} {{ fn vx_q(&self) -> (r: {n}) {{ *self }} }}\n", n = e.name));
        }
        let (mut sp, mut ex) = (String::new(), String::new());
        for v in &e.vars {
            let mut p = v.pat.clone();
            let mut nested: Option<String> = None;
            // `#condition => ..`: the whole pattern is a hole of an enum type
            if let Pat::Ident(i) = &p {
                if let Some(h) = hole_of(&i.ident) {
                    if ens.iter().any(|x| vty(&v.fname, &h).map_or(false, |t| t == x.name)) {
                        nested = Some(h);
                    }
                }
            }
            let mut ph = PatHoles { named: &d.named, n: 0, cmp: vec![], of: BTreeMap::new(), err: None };
            ph.visit_pat_mut(&mut p);
            if let Some(x) = ph.err {
                return Err(x);
            }
            let mut used: Vec<String> = vec![];
            let (mut cs, mut cx) = (vec![], vec![]);
            if let Some(h) = &nested {
                used.push(h.clone());
                cs.push(format!("vx_f_{}.pm(vx_s)", h));
                cx.push(format!("vx_f_{}.m(vx_s)", h));
            } else {
                for (b, h, k) in &ph.cmp {
                    if !used.contains(h) {
                        used.push(h.clone());
                    }
                    match k {
                        0 => {
                            cs.push(format!("{} == vx_f_{}", b, h));
                            cx.push(format!("{}.vx_same(vx_f_{})", b, h));
                        }
                        1 => {
                            cs.push(format!("{} >= vx_f_{}", b, h));
                            cx.push(format!("{} >= *vx_f_{}", b, h));
                        }
                        4 => {
                            let t = &ph.of[&b.to_string()];
                            cs.push(format!("{} == {}::of(vx_f_{})", b, t, h));
                            cx.push(format!("{}.vx_same(&{}::vx_of(*vx_f_{}))", b, t, h));
                        }
                        _ => {
                            cs.push(format!("{} <= vx_f_{}", b, h));
                            cx.push(format!("{} <= *vx_f_{}", b, h));
                        }
                    }
                }
            }
            if cs.is_empty() {
                cs.push("true".into());
                cx.push("true".into());
            }
            let pt = if nested.is_some() { "_".to_string() } else { p.to_token_stream().to_string() };
            let lhs = if v.holes.is_empty() {
                format!("{}::{}", e.name, v.name)
            } else {
                let fs: Vec<String> = used.iter().map(|h| format!("{}: vx_f_{}", h, h)).chain(std::iter::once("..".to_string())).collect();
                format!("{}::{} {{ {} }}", e.name, v.name, fs.join(", "))
            };
            let fallthrough = if refutable(&p) && nested.is_none() { ", _ => false" } else { "" };
            sp.push_str(&format!("            {} => match vx_s {{ {} => {}{} }},\n", lhs, pt, cs.join(" && "), fallthrough));
            ex.push_str(&format!("            {} => match *vx_s {{ {} => {}{} }},\n", lhs, pt, cx.join(" && "), fallthrough));
        }
        decls.push_str(&format!(
            "impl VxArm<{s}> for {n} {{\n    open spec fn pm(&self, vx_s: {s}) -> bool {{\n        match *self {{\n{sp}        }}\n    }}\n    fn m(&self, vx_s: &{s}) -> (r: bool) {{\n        match self {{\n{ex}        }}\n    }}\n}}\n",
            s = e.scrut,
            n = e.name,
            sp = sp,
            ex = ex
        ));
    }
    let (_, st) = d.prog.clone().unwrap();
    decls.push_str(&format!("// ---- what is interpolated into the quoted program of {}\npub struct {} {{\n", d.name, st));
    let mut lists: BTreeMap<String, String> = BTreeMap::new();
    for h in &g.prog_holes {
        if let Some((_, _, e, _)) = d.dests.iter().find(|(f, v, _, _)| (f == "*" || d.prog.as_ref().unwrap().0 == *f) && v == h) {
            decls.push_str(&format!("    pub {}: Vec<{}>,\n", h, e));
            lists.insert(h.clone(), e.clone());
        } else {
            decls.push_str(&format!("    pub {}: {},\n", h, vty(&d.prog.as_ref().unwrap().0, h)?));
        }
    }
    decls.push_str("}\n");
    // 3. the program
    let mut prog = prog;
    // the bound std::error::Error says nothing a contract could use
    struct NoErr;
    impl VisitMut for NoErr {
        fn visit_type_param_mut(&mut self, t: &mut TypeParam) {
            t.bounds = t
                .bounds
                .iter()
                .filter(|b| !matches!(b, TypeParamBound::Trait(t) if t.path.to_token_stream().to_string() == "std :: error :: Error"))
                .cloned()
                .collect();
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
    NoErr.visit_file_mut(&mut prog);
    let mut with: BTreeSet<String> = BTreeSet::new();
    for it in prog.items.iter_mut() {
        if let Item::Impl(im) = it {
            for ii in im.items.iter_mut() {
                if let ImplItem::Fn(f) = ii {
                    let refs = f
                        .sig
                        .inputs
                        .iter()
                        .filter_map(|a| match a {
                            FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                                (Pat::Ident(i), Type::Reference(_)) => Some(i.ident.to_string()),
                                _ => None,
                            },
                            _ => None,
                        })
                        .collect();
                    let mut p = ProgFns { d, ens: &ens, lists: lists.clone(), uses: false, refs, err: None };
                    p.visit_block_mut(&mut f.block);
                    if let Some(e) = p.err {
                        return Err(e);
                    }
                    let mut uses = p.uses;
                    let mut hs = vec![];
                    collect(f.block.to_token_stream(), &mut hs);
                    if !hs.is_empty() {
                        uses = true;
                        let rd = |h: &str| -> Expr {
                            let i = id(h);
                            parse_quote!(vx_p.#i)
                        };
                        let mut eh = ExprHoles { named: &d.named, d, ens: &ens, read: &rd, err: None };
                        eh.visit_block_mut(&mut f.block);
                        if let Some(e) = eh.err {
                            return Err(e);
                        }
                    }
                    if uses {
                        with.insert(f.sig.ident.to_string());
                    }
                }
            }
        }
    }
    loop {
        let mut grew = false;
        for it in &prog.items {
            if let Item::Impl(im) = it {
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        let n = f.sig.ident.to_string();
                        if !with.contains(&n) && calls(&f.block, &with) {
                            with.insert(n);
                            grew = true;
                        }
                    }
                }
            }
        }
        if !grew {
            break;
        }
    }
    let sti = id(&st);
    for it in prog.items.iter_mut() {
        if let Item::Impl(im) = it {
            if im.trait_.is_some() {
                continue;
            }
            for ii in im.items.iter_mut() {
                if let ImplItem::Fn(f) = ii {
                    AddArgs { fns: &with, ghost: d.ghost.is_some(), hit: false }.visit_block_mut(&mut f.block);
                    if with.contains(&f.sig.ident.to_string()) {
                        f.sig.inputs.push(parse_quote!(vx_p: &#sti));
                        if let Some(gt) = &d.ghost {
                            let gt: Type = parse_str(gt).map_err(|e| e.to_string())?;
                            f.sig.inputs.push(parse_quote!(Ghost(vx_g): Ghost<#gt>));
                        }
                    }
                }
            }
        }
    }
    file.items.extend(prog.items);
    let _ = Span::call_site();
    Ok(Out { file, decls })
}

fn refutable(p: &Pat) -> bool {
    match p {
        // a capitalised name is a constant or a variant without fields
        Pat::Ident(i) => i.ident.to_string().starts_with(|c: char| c.is_uppercase()),
        Pat::Wild(_) => false,
        Pat::Tuple(t) => t.elems.iter().any(refutable),
        _ => true,
    }
}
