// Mechanical desugarings applied to extracted function bodies and signatures. Every rewrite is listed in
// DESIGN.md ("What extraction changes"). None of them consults the spec template.
use proc_macro2::{Ident, Span};
use syn::parse_quote;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Desugar {
    uid: usize,
    pub iter_params: Vec<(String, Type)>, // generic name -> item type
    pub notes: Vec<String>,
    try_ty: Option<Type>,
    iter_vars: Vec<String>,
    pub fmt: bool, // texts built by format! matter
    pub wr: bool, // trait objects (dyn Write, Box<dyn Fn>) become the contracts' types
    wr_bound: Vec<String>,
}

const DROP_BOUNDS: &[&str] = &[
    "Debug", "Display", "Clone", "Eq", "Ord", "PartialEq", "PartialOrd", "Hash", "Write", "Sized",
];

const RENAME: &[&str] = &[
    "iter", "into_iter", "iter_mut", "chars", "char_indices", "extend", "sort_by_key", "binary_search_by_key",
    "clone", "sort", "to_ascii_uppercase", "to_ascii_lowercase", "split", "join", "drain",
];

// `FnMut() -> X`: a source of values
fn source_bound(b: &TypeParamBound) -> TypeParamBound {
    if let TypeParamBound::Trait(t) = b {
        let seg = t.path.segments.last().unwrap();
        if seg.ident == "FnMut" {
            if let PathArguments::Parenthesized(a) = &seg.arguments {
                if let (true, ReturnType::Type(_, x)) = (a.inputs.is_empty(), &a.output) {
                    return parse_quote!(VxSource<Item = #x>);
                }
            }
        }
    }
    b.clone()
}

// methods that start an iterator
const ITER_SRC: &[&str] = &[
    "iter", "into_iter", "iter_mut", "keys", "values", "chars", "char_indices", "edges_directed", "node_references",
    "node_indices", "states", "transitions_from", "non_terminals", "terminals", "symbols", "enumerate", "skip", "take",
    "chain", "rev", "peekable", "copied", "cloned", "symbols_following_symbol_after_dot", "into_keys", "into_values",
    "iter_state_terminals", "iter_state_non_terminals", "split",
];
// and the functions of the files read that say so themselves (`-> impl Iterator`)
static ITER_FNS: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
pub fn note_iter_fns(f: &syn::File) {
    struct V;
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_signature(&mut self, s: &'a Signature) {
            if let ReturnType::Type(_, t) = &s.output {
                if let Type::ImplTrait(i) = &**t {
                    if i.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().unwrap().ident == "Iterator")) {
                        ITER_FNS.lock().unwrap().insert(s.ident.to_string());
                    }
                }
            }
        }
    }
    syn::visit::Visit::visit_file(&mut V, f);
}
fn is_iter_src(n: &str) -> bool {
    ITER_SRC.contains(&n) || ITER_FNS.lock().unwrap().contains(n)
}
const ADAPT_CLOSURE: &[&str] = &["map", "filter", "filter_map", "flat_map", "take_while"];
const ADAPT_PLAIN: &[&str] = &["enumerate", "skip", "take", "chain", "rev", "peekable", "copied", "cloned", "into_iter"];
const CONSUME: &[&str] = &[
    "collect", "sum", "min", "max", "for_each", "find", "any", "all", "count", "position", "find_map",
];

pub fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

impl Desugar {
    pub fn new() -> Self {
        Desugar { uid: 0, iter_params: vec![], notes: vec![], try_ty: None, iter_vars: vec![], fmt: false, wr: false, wr_bound: vec![] }
    }
    fn fresh(&mut self) -> usize {
        self.uid += 1;
        self.uid
    }

    // ---- generics -------------------------------------------------------------------------------
    pub fn generics(&mut self, g: &mut Generics) {
        let mut iterp = vec![];
        let mut grab = |name: &str, bounds: &Punctuated<TypeParamBound, Token![+]>| {
            for b in bounds {
                if let TypeParamBound::Trait(t) = b {
                    let seg = t.path.segments.last().unwrap();
                    if seg.ident == "Iterator" {
                        if let PathArguments::AngleBracketed(a) = &seg.arguments {
                            for ga in &a.args {
                                if let GenericArgument::AssocType(at) = ga {
                                    if at.ident == "Item" {
                                        iterp.push((name.to_string(), at.ty.clone()));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        };
        for p in &g.params {
            if let GenericParam::Type(tp) = p {
                grab(&tp.ident.to_string(), &tp.bounds);
            }
        }
        if let Some(w) = &g.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(pt) = p {
                    if let Type::Path(tp) = &pt.bounded_ty {
                        if let Some(i) = tp.path.get_ident() {
                            grab(&i.to_string(), &pt.bounds);
                        }
                    }
                }
            }
        }
        let names: Vec<String> = iterp.iter().map(|x| x.0.clone()).collect();
        self.iter_params.extend(iterp);
        let keep = |b: &TypeParamBound| -> bool {
            match b {
                TypeParamBound::Trait(t) => {
                    let n = t.path.segments.last().unwrap().ident.to_string();
                    !DROP_BOUNDS.contains(&n.as_str()) && n != "Iterator"
                }
                _ => true,
            }
        };
        let mut params: Punctuated<GenericParam, Token![,]> = Punctuated::new();
        for mut p in g.params.clone() {
            if let GenericParam::Type(tp) = &mut p {
                if names.contains(&tp.ident.to_string()) {
                    continue;
                }
                let nb: Punctuated<TypeParamBound, Token![+]> = tp.bounds.iter().filter(|b| keep(b)).map(source_bound).collect();
                if nb.is_empty() {
                    tp.colon_token = None;
                }
                tp.bounds = nb;
            }
            params.push(p);
        }
        g.params = params;
        if let Some(w) = &mut g.where_clause {
            let mut np: Punctuated<WherePredicate, Token![,]> = Punctuated::new();
            for p in w.predicates.clone() {
                match p {
                    WherePredicate::Type(mut pt) => {
                        let nb: Punctuated<TypeParamBound, Token![+]> =
                            pt.bounds.iter().filter(|b| keep(b)).cloned().collect();
                        if !nb.is_empty() {
                            pt.bounds = nb;
                            np.push(WherePredicate::Type(pt));
                        }
                    }
                    o => np.push(o),
                }
            }
            w.predicates = np;
            if w.predicates.is_empty() {
                g.where_clause = None;
            }
        }
    }

    // ---- loops ----------------------------------------------------------------------------------
    fn for_loop(&mut self, pat: Pat, src: Expr, body: Block, label: Option<Label>) -> Expr {
        let u = self.fresh();
        let it = id(&format!("__vx_it_u{}", u));
        let lu = LitInt::new(&format!("{}", u), Span::call_site());
        let stmts = semi(&body.stmts);
        let w: Expr = parse_quote!({
            let mut #it = IntoVx::vx_into(#src);
            __vx_lb!(#lu);
            #label while #it.has_next() {
                __vx_inv!();
                let #pat = #it.advance();
                __vx_ls!();
                #(#stmts)*
                __vx_le!();
            }
            __vx_la!();
        });
        w
    }

    // is this expression an iterator (as opposed to Option/Result)?
    fn is_iter(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if is_iter_src(&n) {
                    return true;
                }
                if ADAPT_CLOSURE.contains(&n.as_str()) || n == "flatten" {
                    return self.is_iter(&m.receiver);
                }
                false
            }
            Expr::Paren(p) => self.is_iter(&p.expr),
            Expr::Range(_) => true,
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.iter_vars.contains(&i.to_string())),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let l = p.path.segments.last().unwrap().ident.to_string();
                    return l == "once" || l == "empty" || l == "vx_into";
                }
                false
            }
            Expr::Block(b) => {
                // result of a materialised chain
                if let Some(Stmt::Expr(Expr::Call(c), None)) = b.block.stmts.last() {
                    if let Expr::Path(p) = &*c.func {
                        return p.path.segments.last().unwrap().ident == "vx_into";
                    }
                }
                false
            }
            _ => false,
        }
    }

    // split a chain `src.op(closure).op(closure)` into source and closure adaptors
    fn split_chain(&self, e: &Expr) -> (Expr, Vec<(String, ExprClosure)>) {
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if ADAPT_CLOSURE.contains(&n.as_str()) && m.args.len() == 1 && self.is_iter(&m.receiver) {
                let c: Option<ExprClosure> = match &m.args[0] {
                    Expr::Closure(c) => Some(c.clone()),
                    Expr::Path(f) => Some(parse_quote!(|__vx_x| #f(__vx_x))),
                    _ => None,
                };
                if let Some(c) = c {
                    let (s, mut v) = self.split_chain(&m.receiver);
                    v.push((n, c));
                    return (s, v);
                }
            }
            if n == "flatten" && m.args.is_empty() && self.is_iter(&m.receiver) {
                let (s, mut v) = self.split_chain(&m.receiver);
                v.push(("flat_map".to_string(), parse_quote!(|__vx_x| __vx_x)));
                return (s, v);
            }
        }
        (e.clone(), vec![])
    }

    // statements executing the adaptors on `e`, ending in `tail`
    fn pipeline(&mut self, ops: &[(String, ExprClosure)], e: Ident, tail: Vec<Stmt>) -> Vec<Stmt> {
        if ops.is_empty() {
            return tail;
        }
        let (n, c) = &ops[0];
        let pat = closure_pat(c, 0);
        let body = &c.body;
        let e2 = id(&format!("{}_", e));
        let mut out: Vec<Stmt> = vec![];
        match n.as_str() {
            "map" => {
                if has_try(body) {
                    // `?` in a closure ends the closure, not the enclosing function
                    let b = try_to_match(body);
                    match &self.try_ty {
                        Some(t) => out.push(parse_quote!(let #e2: #t = { let #pat = #e; #b };)),
                        None => out.push(parse_quote!(let #e2 = { let #pat = #e; #b };)),
                    }
                } else {
                    out.push(parse_quote!(let #e2 = { let #pat = #e; #body };));
                }
                let rest = self.pipeline(&ops[1..], e2, tail);
                out.extend(rest);
            }
            "filter" => {
                let rest = self.pipeline(&ops[1..], e.clone(), tail);
                out.push(parse_quote!(let #e2 = { let #pat = &#e; #body };));
                out.push(parse_quote!(if #e2 { #(#rest)* }));
            }
            "take_while" => {
                let rest = self.pipeline(&ops[1..], e.clone(), tail);
                out.push(parse_quote!(let #e2 = { let #pat = &#e; #body };));
                out.push(parse_quote!(if !#e2 { break; }));
                out.extend(rest);
            }
            "filter_map" => {
                let rest = self.pipeline(&ops[1..], e2.clone(), tail);
                let e3 = id(&format!("{}o", e));
                out.push(parse_quote!(let #e3 = { let #pat = #e; #body };));
                out.push(parse_quote!(if let Some(#e2) = #e3 { #(#rest)* }));
            }
            "flat_map" => {
                if ops[1..].iter().any(|(n, _)| n == "take_while") {
                    panic!("take_while after flat_map is not supported");
                }
                let rest = self.pipeline(&ops[1..], e2.clone(), tail);
                let b: Block = Block { brace_token: Default::default(), stmts: rest };
                let src: Expr = parse_quote!({ let #pat = #e; #body });
                let inner = self.for_loop(parse_quote!(#e2), src, b, None);
                out.push(Stmt::Expr(inner, None));
            }
            _ => unreachable!(),
        }
        out
    }

    fn chain_consumer(&mut self, m: &ExprMethodCall, result_hint: bool) -> Option<Expr> {
        let n = m.method.to_string();
        if !CONSUME.contains(&n.as_str()) || !self.is_iter(&m.receiver) {
            return None;
        }
        let (src, ops) = self.split_chain(&m.receiver);
        for (n, c) in &ops {
            if n != "map" && has_try(&c.body) {
                panic!("`?` in a {} closure is not supported", n);
            }
        }
        self.try_ty = turbofish_result(m);
        let u = self.fresh();
        let acc = id(&format!("__vx_acc_u{}", u));
        let e = id(&format!("__vx_e_u{}", u));
        // the element name seen by the tail
        let mut last = e.clone();
        for (n, _) in &ops {
            if n != "filter" && n != "take_while" {
                last = id(&format!("{}_", last));
            }
        }
        let clos = |i: usize| -> Option<ExprClosure> {
            if let Some(Expr::Closure(c)) = m.args.get(i) {
                Some(c.clone())
            } else {
                None
            }
        };
        let (init, tail, result): (Vec<Stmt>, Vec<Stmt>, Option<Expr>) = match n.as_str() {
            "collect" => {
                if result_hint || turbofish_is_result(m) {
                    let er = id(&format!("__vx_err_u{}", u));
                    (
                        vec![parse_quote!(let mut #acc = Vec::new();), parse_quote!(let mut #er = None;)],
                        vec![parse_quote!(match #last {
                            Ok(__vx_v) => { #acc.push(__vx_v); }
                            Err(__vx_x) => { #er = Some(__vx_x); break; }
                        })],
                        Some(parse_quote!(match #er { None => Ok(#acc), Some(__vx_x) => Err(__vx_x) })),
                    )
                } else {
                    (
                        vec![parse_quote!(let mut #acc = Vec::new();)],
                        vec![parse_quote!(#acc.push(#last);)],
                        match m.turbofish.as_ref().and_then(|t| t.args.first()) {
                            Some(GenericArgument::Type(t @ Type::Path(_))) => Some(parse_quote!(<#t as VxFromVec<_>>::vx_from_vec(#acc))),
                            _ => Some(parse_quote!(VxFromVec::vx_from_vec(#acc))),
                        },
                    )
                }
            }
            "sum" => (
                vec![parse_quote!(let mut #acc = 0;)],
                vec![parse_quote!(#acc = #acc + #last;)],
                Some(parse_quote!(#acc)),
            ),
            "count" => (
                vec![parse_quote!(let mut #acc: usize = 0;)],
                vec![parse_quote!(#acc = #acc + 1;)],
                Some(parse_quote!(#acc)),
            ),
            "min" => (
                vec![parse_quote!(let mut #acc = None;)],
                vec![parse_quote!(#acc = match #acc { None => Some(#last), Some(__vx_m) => if #last < __vx_m { Some(#last) } else { Some(__vx_m) } };)],
                Some(parse_quote!(#acc)),
            ),
            "max" => (
                vec![parse_quote!(let mut #acc = None;)],
                vec![parse_quote!(#acc = match #acc { None => Some(#last), Some(__vx_m) => if #last >= __vx_m { Some(#last) } else { Some(__vx_m) } };)],
                Some(parse_quote!(#acc)),
            ),
            "for_each" => {
                let c = clos(0)?;
                let pat = closure_pat(&c, 0);
                let body = &c.body;
                (vec![], vec![parse_quote!(let #pat = #last;), parse_quote!({ #body; })], None)
            }
            "find" => {
                let c = clos(0)?;
                let pat = closure_pat(&c, 0);
                let body = &c.body;
                let t = id(&format!("__vx_t_u{}", u));
                (
                    vec![parse_quote!(let mut #acc = None;)],
                    vec![
                        parse_quote!(let #t = { let #pat = &#last; #body };),
                        parse_quote!(if #t { #acc = Some(#last); break; }),
                    ],
                    Some(parse_quote!(#acc)),
                )
            }
            "find_map" => {
                let c = clos(0)?;
                let pat = closure_pat(&c, 0);
                let body = &c.body;
                (
                    vec![parse_quote!(let mut #acc = None;)],
                    vec![
                        parse_quote!(#acc = { let #pat = #last; #body };),
                        parse_quote!(if #acc.is_some() { break; }),
                    ],
                    Some(parse_quote!(#acc)),
                )
            }
            "any" | "all" => {
                let c = clos(0)?;
                let pat = closure_pat(&c, 0);
                let body = &c.body;
                let t = id(&format!("__vx_t_u{}", u));
                if n == "any" {
                    (
                        vec![parse_quote!(let mut #acc = false;)],
                        vec![parse_quote!(let #t = { let #pat = #last; #body };), parse_quote!(if #t { #acc = true; break; })],
                        Some(parse_quote!(#acc)),
                    )
                } else {
                    (
                        vec![parse_quote!(let mut #acc = true;)],
                        vec![parse_quote!(let #t = { let #pat = #last; #body };), parse_quote!(if !#t { #acc = false; break; })],
                        Some(parse_quote!(#acc)),
                    )
                }
            }
            "position" => {
                let c = clos(0)?;
                let pat = closure_pat(&c, 0);
                let body = &c.body;
                let t = id(&format!("__vx_t_u{}", u));
                let k = id(&format!("__vx_n_u{}", u));
                (
                    vec![parse_quote!(let mut #acc = None;), parse_quote!(let mut #k: usize = 0;)],
                    vec![parse_quote!(let #t = { let #pat = #last; #body };), parse_quote!(if #t { #acc = Some(#k); break; }), parse_quote!(#k = #k + 1;)],
                    Some(parse_quote!(#acc)),
                )
            }
            _ => return None,
        };
        // a plain `X.collect()` with nothing to compute per element needs no loop
        let body_stmts = self.pipeline(&ops, e.clone(), tail);
        let blk = Block { brace_token: Default::default(), stmts: body_stmts };
        let lp = self.for_loop(parse_quote!(#e), src, blk, None);
        let r: Expr = match result {
            Some(r) => parse_quote!({ #(#init)* #lp #r }),
            None => parse_quote!({ #(#init)* #lp }),
        };
        Some(r)
    }

    // closure adaptors not followed by a consumer: materialise
    fn materialise(&mut self, e: &Expr) -> Option<Expr> {
        let (src, ops) = self.split_chain(e);
        if ops.is_empty() {
            return None;
        }
        let u = self.fresh();
        let acc = id(&format!("__vx_acc_u{}", u));
        let el = id(&format!("__vx_e_u{}", u));
        let mut last = el.clone();
        for (n, _) in &ops {
            if n != "filter" && n != "take_while" {
                last = id(&format!("{}_", last));
            }
        }
        let body = self.pipeline(&ops, el.clone(), vec![parse_quote!(#acc.push(#last);)]);
        let blk = Block { brace_token: Default::default(), stmts: body };
        let lp = self.for_loop(parse_quote!(#el), src, blk, None);
        Some(parse_quote!({ let mut #acc = Vec::new(); #lp IntoVx::vx_into(#acc) }))
    }
}

fn turbofish_is_result(m: &ExprMethodCall) -> bool {
    if let Some(t) = &m.turbofish {
        if let Some(GenericArgument::Type(Type::Path(p))) = t.args.first() {
            return p.path.segments.last().unwrap().ident == "Result";
        }
    }
    false
}

// Result<_, E> from `collect::<Result<_, E>>`, with the collection's type left open
fn turbofish_result(m: &ExprMethodCall) -> Option<Type> {
    let t = m.turbofish.as_ref()?;
    if let Some(GenericArgument::Type(Type::Path(p))) = t.args.first() {
        let l = p.path.segments.last().unwrap();
        if l.ident == "Result" {
            if let PathArguments::AngleBracketed(a) = &l.arguments {
                if let Some(GenericArgument::Type(e)) = a.args.iter().nth(1) {
                    return Some(parse_quote!(Result<_, #e>));
                }
            }
        }
    }
    None
}

struct TryFind(bool);
impl<'a> syn::visit::Visit<'a> for TryFind {
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
pub fn has_try(e: &Expr) -> bool {
    let mut f = TryFind(false);
    syn::visit::Visit::visit_expr(&mut f, e);
    f.0
}
fn has_try_stmt(s: &Stmt) -> bool {
    let mut f = TryFind(false);
    syn::visit::Visit::visit_stmt(&mut f, s);
    f.0
}
struct CallFind(bool);
impl<'a> syn::visit::Visit<'a> for CallFind {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().unwrap().ident.to_string().starts_with(|c: char| c.is_uppercase()) {
                syn::visit::visit_expr_call(self, c);
                return;
            }
        }
        self.0 = true;
    }
    fn visit_expr_method_call(&mut self, _: &'a ExprMethodCall) {
        self.0 = true;
    }
    fn visit_expr_macro(&mut self, _: &'a ExprMacro) {
        self.0 = true;
    }
}
fn pure_expr(e: &Expr) -> bool {
    let mut f = CallFind(false);
    syn::visit::Visit::visit_expr(&mut f, e);
    !f.0
}
// take the first evaluated `X?` out of `e`, leaving `q` in its place
fn take_try(e: &mut Expr, q: &Ident) -> Option<Expr> {
    fn list<'a>(v: Vec<&'a mut Expr>, q: &Ident) -> Option<Expr> {
        for x in v {
            if has_try(x) {
                return take_try(x, q);
            }
            if !pure_expr(x) {
                panic!("`?` in a closure after an impure expression");
            }
        }
        None
    }
    match e {
        Expr::Try(t) => {
            if has_try(&t.expr) {
                return take_try(&mut t.expr, q);
            }
            let x = (*t.expr).clone();
            *e = parse_quote!(#q);
            Some(x)
        }
        Expr::Call(c) => {
            let mut v = vec![&mut *c.func];
            v.extend(c.args.iter_mut());
            list(v, q)
        }
        Expr::MethodCall(m) => {
            let mut v = vec![&mut *m.receiver];
            v.extend(m.args.iter_mut());
            list(v, q)
        }
        Expr::Tuple(t) => list(t.elems.iter_mut().collect(), q),
        Expr::Struct(t) => list(t.fields.iter_mut().map(|f| &mut f.expr).collect(), q),
        Expr::Reference(r) => take_try(&mut r.expr, q),
        Expr::Field(r) => take_try(&mut r.base, q),
        Expr::Paren(r) => take_try(&mut r.expr, q),
        _ => panic!("`?` in an unsupported position of a closure"),
    }
}
fn try_to_match(e: &Expr) -> Expr {
    if !has_try(e) {
        return e.clone();
    }
    let q = id("__vx_q");
    if let Expr::Block(b) = e {
        let mut pre: Vec<Stmt> = vec![];
        let mut it = b.block.stmts.iter();
        while let Some(s) = it.next() {
            if !has_try_stmt(s) {
                pre.push(s.clone());
                continue;
            }
            let rest: Vec<Stmt> = it.cloned().collect();
            match s {
                Stmt::Local(l) => {
                    let init = l.init.as_ref().expect("let");
                    if init.diverge.is_some() {
                        panic!("`?` in a let-else of a closure");
                    }
                    let mut x = (*init.expr).clone();
                    let y = take_try(&mut x, &q).unwrap();
                    let pat = &l.pat;
                    let tail: Expr = try_to_match(&parse_quote!({ let #pat = #x; #(#rest)* }));
                    return parse_quote!({ #(#pre)* match #y { Ok(#q) => #tail, Err(__vx_x) => Err(From::from(__vx_x)) } });
                }
                Stmt::Expr(x, semi) => {
                    let mut x = x.clone();
                    let y = take_try(&mut x, &q).unwrap();
                    let tail: Expr = if semi.is_some() {
                        try_to_match(&parse_quote!({ #x; #(#rest)* }))
                    } else {
                        try_to_match(&parse_quote!({ #x }))
                    };
                    return parse_quote!({ #(#pre)* match #y { Ok(#q) => #tail, Err(__vx_x) => Err(From::from(__vx_x)) } });
                }
                _ => panic!("`?` in an unsupported statement of a closure"),
            }
        }
        unreachable!()
    }
    let mut x = e.clone();
    let y = take_try(&mut x, &q).unwrap();
    let tail = try_to_match(&x);
    parse_quote!(match #y { Ok(#q) => #tail, Err(__vx_x) => Err(From::from(__vx_x)) })
}

fn closure_pat(c: &ExprClosure, i: usize) -> Pat {
    c.inputs[i].clone()
}

fn strip_path(p: &mut Path) {
    // std::collections::X::y -> X::y ; a::b::f -> f   (only leading lower-case module segments)
    let n = p.segments.len();
    if n < 2 {
        return;
    }
    let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
    let mut k = 0;
    while k + 1 < n {
        let s = segs[k].ident.to_string();
        let prim = ["char", "u8", "u16", "u32", "u64", "usize", "str", "i32", "i64"].contains(&s.as_str());
        if s.chars().next().unwrap().is_lowercase() && !prim {
            k += 1;
        } else {
            break;
        }
    }
    if k == 0 {
        return;
    }
    let full: Vec<String> = segs.iter().map(|s| s.ident.to_string()).collect();
    let mut rest: Vec<PathSegment> = segs[k..].to_vec();
    if full.join("::") == "std::ptr::eq" {
        rest[0].ident = id("vx_ptr_eq");
    }
    if full.join("::") == "std::str::from_utf8" {
        rest = vec![segs[n - 1].clone()];
        rest[0].ident = id("vx_from_utf8");
    }
    if full.join("::") == "std::str::Utf8Error" {
        rest = vec![segs[n - 1].clone()];
    }
    p.leading_colon = None;
    p.segments = rest.into_iter().collect();
}

impl VisitMut for Desugar {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let n = p.segments.len();
        if n >= 2 && p.segments[n - 2].ident == "io" && p.segments[n - 1].ident == "Result" {
            if let PathArguments::AngleBracketed(a) = &mut p.segments[n - 1].arguments {
                if a.args.len() == 1 {
                    a.args.push(parse_quote!(Error));
                }
            }
        }
        strip_path(p);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if self.wr {
            self.trait_objects(t);
        }
        if let Type::Ptr(p) = t {
            let x = &p.elem;
            *t = parse_quote!(VxPtr<#x>);
            return;
        }
        if let Type::Path(tp) = t {
            let seg = tp.path.segments.last().unwrap();
            if seg.ident == "Peekable" {
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(GenericArgument::Type(inner)) = a.args.first() {
                        let inner = inner.clone();
                        *t = inner;
                        return;
                    }
                }
            }
            if tp.path.segments.last().unwrap().ident == "Chars" {
                *t = parse_quote!(VxIter<char>);
                return;
            }
            if let Some(i) = tp.path.get_ident() {
                for (n, ty) in &self.iter_params {
                    if i == n {
                        let ty = ty.clone();
                        *t = parse_quote!(VxIter<#ty>);
                        return;
                    }
                }
            }
        }
        if let Type::ImplTrait(it) = t {
            for b in &it.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    let seg = tb.path.segments.last().unwrap();
                    if seg.ident == "Iterator" {
                        if let PathArguments::AngleBracketed(a) = &seg.arguments {
                            for ga in &a.args {
                                if let GenericArgument::AssocType(at) = ga {
                                    let ty = at.ty.clone();
                                    *t = parse_quote!(VxIter<#ty>);
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    fn visit_signature_mut(&mut self, s: &mut Signature) {
        for a in &s.inputs {
            if let FnArg::Typed(PatType { pat, ty, .. }) = a {
                if let (Pat::Ident(p), Type::Path(t)) = (&**pat, &**ty) {
                    if self.iter_params.iter().any(|(n, _)| t.path.is_ident(n)) {
                        self.iter_vars.push(p.ident.to_string());
                    }
                }
            }
        }
        visit_mut::visit_signature_mut(self, s);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        // variables holding iterators
        if let (Some(init), Pat::Ident(pi)) = (&l.init, &l.pat) {
            let n = pi.ident.to_string();
            if self.is_iter(&init.expr) {
                self.iter_vars.push(n);
            } else {
                self.iter_vars.retain(|x| *x != n);
            }
        }
        // let x: Result<..> = chain.collect();
        let is_res = if let Pat::Type(pt) = &l.pat {
            if let Type::Path(tp) = &*pt.ty {
                tp.path.segments.last().unwrap().ident == "Result"
            } else {
                false
            }
        } else {
            false
        };
        if is_res {
            if let Some(init) = &mut l.init {
                if let Expr::MethodCall(m) = &*init.expr {
                    if m.method == "collect" {
                        let mm = m.clone();
                        if let Some(mut e) = self.chain_consumer(&mm, true) {
                            visit_mut::visit_expr_mut(self, &mut e);
                            *init.expr = e;
                            visit_mut::visit_pat_mut(self, &mut l.pat);
                            return;
                        }
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.wr {
            // calls of function values held by fields and local names
            if let Expr::Call(c) = e {
                let f: Option<Expr> = match &*c.func {
                    Expr::Path(p) => match p.path.get_ident() {
                        Some(i) if self.wr_bound.contains(&i.to_string()) => Some((*c.func).clone()),
                        _ => None,
                    },
                    Expr::Paren(p) if matches!(&*p.expr, Expr::Field(_)) => Some((*p.expr).clone()),
                    _ => None,
                };
                if let Some(f) = f {
                    let a = &c.args;
                    *e = parse_quote!(#f.vx_call(#a));
                }
            }
            // `?` spelled out (error types equal, else the text does not type-check), so that the exit takes hints
            if let Expr::Try(t) = e {
                let x = &t.expr;
                *e = parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => { return Err(vx_e); } });
            }
        }
        // `&x[a..b]` on strings, slices and vectors
        if let Expr::Reference(r) = e {
            if let Expr::Index(ix) = &*r.expr {
                if let Expr::Range(rg) = &*ix.index {
                    let x = &ix.expr;
                    let new: Option<Expr> = match (&rg.start, &rg.end, &rg.limits) {
                        (Some(a), Some(b), RangeLimits::HalfOpen(_)) => Some(parse_quote!(#x.vx_range(#a, #b))),
                        (Some(a), None, _) => Some(parse_quote!(#x.vx_range_from(#a))),
                        (None, Some(b), RangeLimits::HalfOpen(_)) => Some(parse_quote!(#x.vx_range(0, #b))),
                        _ => None,
                    };
                    if let Some(n) = new {
                        *e = n;
                    }
                }
            }
        }
        // pre-order rewrites producing loops
        loop {
            let new = match e {
                Expr::ForLoop(f) => {
                    let f = f.clone();
                    let (src, ops) = self.split_chain(&f.expr);
                    if !ops.is_empty() && ops.iter().all(|(n, c)| n != "flat_map" && !has_try(&c.body)) {
                        // the adaptors run lazily, element by element
                        let el = id(&format!("__vx_e_u{}", self.fresh()));
                        let mut last = el.clone();
                        for (n, _) in &ops {
                            if n != "filter" && n != "take_while" {
                                last = id(&format!("{}_", last));
                            }
                        }
                        let pat = &f.pat;
                        let mut tail: Vec<Stmt> = vec![parse_quote!(let #pat = #last;)];
                        tail.extend(semi(&f.body.stmts));
                        let stmts = self.pipeline(&ops, el.clone(), tail);
                        let body = Block { brace_token: Default::default(), stmts };
                        Some(self.for_loop(parse_quote!(#el), src, body, f.label))
                    } else {
                        Some(self.for_loop(*f.pat, *f.expr, f.body, f.label))
                    }
                }
                Expr::While(w) if !is_vx_while(w) => {
                    let w = w.clone();
                    if let Expr::Let(l) = &*w.cond {
                        let pat = &l.pat;
                        let ex = &l.expr;
                        let stmts = &semi(&w.body.stmts);
                        let label = &w.label;
                        let u = LitInt::new(&format!("{}", self.fresh()), Span::call_site());
                        Some(parse_quote!({
                            __vx_lb!(#u);
                            #label loop {
                                __vx_inv!();
                                if let #pat = #ex { __vx_ls!(); #(#stmts)* __vx_le!(); } else { break; }
                            }
                            __vx_la!();
                        }))
                    } else {
                        let c = &w.cond;
                        let stmts = &semi(&w.body.stmts);
                        let label = &w.label;
                        let u = LitInt::new(&format!("{}", self.fresh()), Span::call_site());
                        Some(parse_quote!({
                            __vx_lb!(#u);
                            #label while #c { __vx_inv!(); __vx_ls!(); #(#stmts)* __vx_le!(); }
                            __vx_la!();
                        }))
                    }
                }
                Expr::Loop(w) if !is_vx_block(&w.body) => {
                    let w = w.clone();
                    let stmts = &semi(&w.body.stmts);
                    let label = &w.label;
                    let u = LitInt::new(&format!("{}", self.fresh()), Span::call_site());
                    Some(parse_quote!({
                        __vx_lb!(#u);
                        #label loop { __vx_inv!(); __vx_ls!(); #(#stmts)* __vx_le!(); }
                        __vx_la!();
                    }))
                }
                Expr::MethodCall(m) => {
                    let mm = m.clone();
                    let n = mm.method.to_string();
                    if n == "or_insert" || n == "or_insert_with" || n == "or_default" {
                        if let Expr::MethodCall(r) = &*mm.receiver {
                            if r.method == "entry" {
                                let map = &r.receiver;
                                let k = &r.args[0];
                                if n == "or_insert" {
                                    let v = &mm.args[0];
                                    Some(parse_quote!(#map.vx_entry_or_insert(#k, #v)))
                                } else if n == "or_insert_with" {
                                    if let Expr::Closure(c) = &mm.args[0] {
                                        // evaluate the default only when the key is absent
                                        let b = &c.body;
                                        let u = self.fresh();
                                        let kk = id(&format!("__vx_k_u{}", u));
                                        Some(parse_quote!({
                                            let #kk = #k;
                                            if !#map.contains_key(&#kk) {
                                                let __vx_v = #b;
                                                #map.insert(#kk.clone(), __vx_v);
                                            }
                                            #map.get_mut(&#kk).unwrap()
                                        }))
                                    } else {
                                        None
                                    }
                                } else {
                                    None
                                }
                            } else {
                                None
                            }
                        } else {
                            None
                        }
                    } else if CONSUME.contains(&n.as_str()) && self.is_iter(&mm.receiver) {
                        self.chain_consumer(&mm, false)
                    } else if ADAPT_CLOSURE.contains(&n.as_str()) && self.is_iter(&mm.receiver) {
                        self.materialise(&Expr::MethodCall(mm))
                    } else if n == "map" && mm.args.len() == 1 && is_unwrapped(&mm.receiver) {
                        None // not an Option any more: a method of the type itself
                    } else if n == "map" && mm.args.len() == 1 {
                        if let Expr::Closure(c) = &mm.args[0] {
                            let pat = closure_pat(c, 0);
                            let body = &c.body;
                            let r = &mm.receiver;
                            Some(parse_quote!(match #r { Some(#pat) => Some(#body), None => None }))
                        } else if let Expr::Path(f) = &mm.args[0] {
                            let r = &mm.receiver;
                            Some(parse_quote!(match #r { Some(__vx_x) => Some(#f(__vx_x)), None => None }))
                        } else {
                            None
                        }
                    } else if n == "and_then" && mm.args.len() == 1 {
                        if let Expr::Closure(c) = &mm.args[0] {
                            let pat = closure_pat(c, 0);
                            let body = &c.body;
                            let r = &mm.receiver;
                            Some(parse_quote!(match #r { Some(#pat) => #body, None => None }))
                        } else {
                            None
                        }
                    } else if (n == "filter" || n == "is_some_and" || n == "is_none_or") && mm.args.len() == 1 {
                        // an Option's: iterators were dealt with above
                        if let Expr::Closure(c) = &mm.args[0] {
                            let pat = closure_pat(c, 0);
                            let body = &c.body;
                            let r = &mm.receiver;
                            let x = id(&format!("__vx_f_u{}", self.fresh()));
                            Some(match n.as_str() {
                                "filter" => parse_quote!(match #r {
                                    Some(#x) => { if { let #pat = &#x; #body } { Some(#x) } else { None } }
                                    None => None,
                                }),
                                "is_some_and" => parse_quote!(match #r { Some(#pat) => #body, None => false }),
                                _ => parse_quote!(match #r { Some(#pat) => #body, None => true }),
                            })
                        } else {
                            None
                        }
                    } else if n == "map_or" && mm.args.len() == 2 {
                        // of an Option or a Result
                        let r = &mm.receiver;
                        let d = &mm.args[0];
                        let t = id(&format!("__vx_d_u{}", self.fresh()));
                        match &mm.args[1] {
                            Expr::Closure(c) => {
                                let pat = closure_pat(c, 0);
                                let body = &c.body;
                                Some(parse_quote!(match #r.vx_opt() { Some(#pat) => #body, None => #d }))
                                    .filter(|_| matches!(d, Expr::Lit(_) | Expr::Path(_)))
                            }
                            Expr::Path(f) => Some(parse_quote!({
                                let #t = #r.vx_opt();
                                match #t { Some(__vx_x) => #f(__vx_x), None => #d }
                            }))
                            .filter(|_| matches!(d, Expr::Lit(_) | Expr::Path(_) | Expr::Cast(_))),
                            _ => None,
                        }
                    } else if (n == "unwrap_or_else" || n == "ok_or_else") && mm.args.len() == 1 {
                        if let Expr::Closure(c) = &mm.args[0] {
                            if c.inputs.is_empty() {
                                let body = &c.body;
                                let r = &mm.receiver;
                                if n == "unwrap_or_else" {
                                    Some(parse_quote!(match #r { Some(__vx_x) => __vx_x, None => #body }))
                                } else {
                                    Some(parse_quote!(match #r { Some(__vx_x) => Ok(__vx_x), None => Err(#body) }))
                                }
                            } else {
                                None
                            }
                        } else {
                            None
                        }
                    } else if n == "then_some" {
                        let r = &mm.receiver;
                        let a = &mm.args[0];
                        let u = self.fresh();
                        let t = id(&format!("__vx_ts_u{}", u));
                        Some(parse_quote!({ let #t = #a; if #r { Some(#t) } else { None } }))
                    } else if n == "then" && mm.args.len() == 1 {
                        if let Expr::Closure(c) = &mm.args[0] {
                            let r = &mm.receiver;
                            let b = &c.body;
                            Some(parse_quote!(if #r { Some(#b) } else { None }))
                        } else {
                            None
                        }
                    } else if RENAME.contains(&n.as_str()) {
                        let mut m2 = mm.clone();
                        m2.method = if n == "into_iter" { id("vx_into") } else { id(&format!("vx_{}", n)) };
                        Some(Expr::MethodCall(m2))
                    } else {
                        None
                    }
                }
                Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.segments.len() >= 2
                    && p.path.segments[p.path.segments.len() - 2].ident == "String" && p.path.segments.last().unwrap().ident == "from") =>
                {
                    let x = &c.args[0];
                    Some(parse_quote!(#x.to_string()))
                }
                Expr::Match(m) => slice_match(m),
                Expr::Cast(c) if matches!(&*c.ty, Type::Ptr(_)) => {
                    let x = &c.expr;
                    Some(parse_quote!(vx_addr(#x)))
                }
                // calling a function held in a field
                Expr::Call(c) if c.args.is_empty() && matches!(&*c.func, Expr::Paren(p) if matches!(&*p.expr, Expr::Field(_))) => {
                    let f = if let Expr::Paren(p) = &*c.func { &p.expr } else { unreachable!() };
                    Some(parse_quote!(#f.vx_next()))
                }
                Expr::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    self.macro_expr(&n, &m.mac)
                }
                _ => None,
            };
            match new {
                Some(n) => *e = n,
                None => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Closure(c) = e {
            if !matches!(&*c.body, Expr::Block(_)) {
                let b = &c.body;
                *c.body = parse_quote!({ #b });
            }
        }
        if let Expr::Range(r) = e {
            if let (Some(a), Some(b), RangeLimits::Closed(_)) = (&r.start, &r.end, &r.limits) {
                *e = parse_quote!(RangeInclusive::new(#a, #b));
            }
        }
        if let Expr::Path(p) = e {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if s == ["char", "MAX"] {
                *e = parse_quote!('\u{10FFFF}');
            }
        }
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if !n.starts_with("__vx") {
                if let Some(e) = self.macro_expr(&n, &m.mac) {
                    let semi = m.semi_token;
                    let e = if semi.is_some() && e == parse_quote!(vx_panic()) { parse_quote!(vx_panic_s()) } else { e };
                    *s = Stmt::Expr(e, Some(semi.unwrap_or_default()));
                    if semi.is_none() {
                        // tail macro such as unreachable!()
                        if let Stmt::Expr(ee, _) = s.clone() {
                            *s = Stmt::Expr(ee, None);
                        }
                    }
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        if self.wr {
            self.hoist_closures(b);
        }
        visit_mut::visit_block_mut(self, b);
        // loops in tail position of a block are unit statements
        for s in b.stmts.iter_mut() {
            if let Stmt::Local(l) = s {
                // attributes (e.g. #[allow]) dropped
                l.attrs.clear();
            }
        }
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
    }
}

impl Desugar {
    // dyn Write -> VxOut; Box<dyn Fn(&mut dyn Write) ..> -> VxSub; Box<dyn Fn(other) ..> -> VxOpen; std::io names shortened
    fn trait_objects(&mut self, t: &mut Type) {
        if let Type::Paren(p) = t {
            let x = (*p.elem).clone();
            *t = x;
        }
        if let Type::TraitObject(o) = t {
            for b in &o.bounds {
                let TypeParamBound::Trait(tb) = b else { continue };
                let seg = tb.path.segments.last().unwrap();
                if seg.ident == "Write" {
                    *t = parse_quote!(VxOut);
                    return;
                }
            }
        }
        if let Type::Path(tp) = t {
            let seg = tp.path.segments.last().unwrap().clone();
            if tp.path.segments.len() == 3 && tp.path.segments[0].ident == "std" && tp.path.segments[1].ident == "io" {
                if seg.ident == "Error" {
                    *t = parse_quote!(Error);
                } else if seg.ident == "Result" {
                    if let PathArguments::AngleBracketed(a) = &seg.arguments {
                        let a = a.args.clone();
                        *t = parse_quote!(Result<#a, Error>);
                    }
                }
                return;
            }
            if seg.ident == "Box" {
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(GenericArgument::Type(Type::TraitObject(o))) = a.args.first() {
                        let lts: Vec<&Lifetime> = o.bounds.iter().filter_map(|b| if let TypeParamBound::Lifetime(l) = b { Some(l) } else { None }).collect();
                        for b in &o.bounds {
                            let TypeParamBound::Trait(tb) = b else { continue };
                            let seg = tb.path.segments.last().unwrap();
                            if seg.ident == "Fn" {
                                if let PathArguments::Parenthesized(pa) = &seg.arguments {
                                    let first = pa.inputs.first().map(|x| quote::ToTokens::to_token_stream(x).to_string()).unwrap_or_default();
                                    let n = id(if first.contains("VxOut") { "VxSub" } else { "VxOpen" });
                                    *t = parse_quote!(#n<#(#lts),*>);
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    // closures among the arguments of a call get a name of their own before the statement
    fn hoist_closures(&mut self, b: &mut Block) {
        struct H<'a>(&'a mut usize, Vec<Stmt>);
        impl<'a> VisitMut for H<'a> {
            fn visit_block_mut(&mut self, _: &mut Block) {}
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
            fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
                visit_mut::visit_expr_call_mut(self, c);
                let plain = matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 1);
                if plain {
                    for a in c.args.iter_mut() {
                        if let Expr::Closure(cl) = a {
                            let n = id(&format!("vx_cl{}", self.0));
                            *self.0 += 1;
                            let cl = cl.clone();
                            self.1.push(parse_quote!(let #n = #cl;));
                            *a = parse_quote!(#n);
                        }
                    }
                }
            }
        }
        let mut out = vec![];
        let mut n = 0;
        for mut s in std::mem::take(&mut b.stmts) {
            let mut h = H(&mut n, vec![]);
            h.visit_stmt_mut(&mut s);
            out.extend(h.1);
            out.push(s);
        }
        b.stmts = out;
    }

    pub fn bound_names(&mut self, b: &mut Block) {
        struct N(Vec<String>);
        impl VisitMut for N {
            fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                self.0.push(p.ident.to_string());
            }
        }
        let mut n = N(vec![]);
        n.visit_block_mut(b);
        self.wr_bound = n.0;
    }

    // text written by write!(w, "..", args)
    fn write_macro(&mut self, mac: &Macro, ln: bool) -> Option<Expr> {
        let args = mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let w = args.first()?;
        let l = match args.get(1)? {
            Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) => l.value() + if ln { "\n" } else { "" },
            _ => return None,
        };
        let mut pos = args.iter().skip(2);
        let mut t: Expr = parse_quote!(VxText::new());
        let mut lit = String::new();
        let mut ch = l.chars().peekable();
        while let Some(c) = ch.next() {
            if c == '{' && ch.peek() != Some(&'{') {
                let name: String = ch.by_ref().take_while(|c| *c != '}').collect();
                let dbg = name.ends_with(":?");
                let name = name.strip_suffix(":?").unwrap_or(&name).to_string();
                let x: Expr = if name.is_empty() {
                    pos.next()?.clone()
                } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.starts_with(|c: char| c.is_ascii_digit()) {
                    let v = id(&name);
                    parse_quote!(#v)
                } else {
                    return None;
                };
                if !lit.is_empty() {
                    t = parse_quote!(#t.lit(#lit));
                    lit.clear();
                }
                let x: Expr = match x {
                    Expr::Reference(_) => x,
                    x => parse_quote!(&(#x)),
                };
                t = if dbg { parse_quote!(#t.dbg(#x)) } else { parse_quote!(#t.arg(#x)) };
            } else {
                if c == '{' || c == '}' {
                    ch.next();
                }
                lit.push(c);
                // line by line, so that lines written together read as lines written one by one
                if c == '\n' {
                    t = parse_quote!(#t.lit(#lit));
                    lit.clear();
                }
            }
        }
        if pos.next().is_some() {
            return None;
        }
        if !lit.is_empty() {
            t = parse_quote!(#t.lit(#lit));
        }
        Some(parse_quote!(vx_write(#w, #t)))
    }

    fn macro_expr(&mut self, n: &str, mac: &Macro) -> Option<Expr> {
        match n {
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(vx_panic())),
            "assert" | "debug_assert" => {
                let args = mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let c = args.first()?;
                Some(parse_quote!(vx_rt_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let args = mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let (a, b) = (args.first()?, args.get(1)?);
                Some(parse_quote!(vx_rt_assert(#a == #b)))
            }
            "vec" => {
                if let Ok(args) = mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let u = self.fresh();
                    let v = id(&format!("__vx_vec_u{}", u));
                    let es: Vec<&Expr> = args.iter().collect();
                    if es.is_empty() {
                        return Some(parse_quote!(Vec::new()));
                    }
                    Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#es);)* #v }))
                } else {
                    None
                }
            }
            "write" if self.wr => self.write_macro(mac, false),
            "writeln" if self.wr => self.write_macro(mac, true),
            "format" if self.fmt => {
                let args = mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let l = match &args[0] {
                    Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) => l.clone(),
                    _ => return Some(parse_quote!(vx_fmt())),
                };
                // holes: {} takes the next argument, {name} the variable
                let mut pos = args.iter().skip(1).cloned();
                let mut es: Vec<Expr> = vec![];
                let mut lit = String::new();
                let mut rest = l.value();
                let fits = loop {
                    let Some(k) = rest.find(|c| c == '{' || c == '}') else {
                        lit.push_str(&rest);
                        break pos.next().is_none();
                    };
                    lit.push_str(&rest[..k]);
                    let Some(e) = rest[k..].find('}') else { break false };
                    if !rest[k..].starts_with('{') {
                        break false;
                    }
                    let name = rest[k + 1..k + e].to_string();
                    if name.is_empty() {
                        match pos.next() {
                            Some(x) => es.push(x),
                            None => break false,
                        }
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.starts_with(|c: char| c.is_ascii_digit()) {
                        let v = id(&name);
                        es.push(parse_quote!(#v));
                    } else {
                        break false;
                    }
                    lit.push_str("{}");
                    rest = rest[k + e + 1..].to_string();
                };
                if !fits || es.is_empty() || es.len() > 2 {
                    return Some(parse_quote!(vx_fmt()));
                }
                let f = id(&format!("vx_fmt{}", es.len()));
                Some(parse_quote!(#f(#lit, #(&(#es)),*)))
            }
            "format" => Some(parse_quote!(vx_fmt())),
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = mac.parse_body::<M>().ok()?;
                Some(match g {
                    None => parse_quote!(match #e { #p => true, _ => false }),
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                })
            }
            _ => None,
        }
    }
}

// a loop body's tail expression becomes a statement
// `match e { Some([a, b]) => .., Some([..]) => .., None => .. }`: the length decides
fn slice_match(m: &ExprMatch) -> Option<Expr> {
    fn some_slice(p: &Pat) -> Option<&PatSlice> {
        if let Pat::TupleStruct(t) = p {
            if t.path.is_ident("Some") && t.elems.len() == 1 {
                if let Pat::Slice(s) = &t.elems[0] {
                    return Some(s);
                }
            }
        }
        None
    }
    // `match s { [a] => .., _ => .. }`
    if m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) {
        let mut els: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let b = &a.body;
            if a.guard.is_some() {
                return None;
            }
            els = Some(match &a.pat {
                Pat::Wild(_) => parse_quote!({ #b }),
                Pat::Slice(s) if s.elems.len() == 1 && matches!(s.elems[0], Pat::Rest(_)) => parse_quote!({ #b }),
                Pat::Slice(s) => {
                    let n = s.elems.len();
                    let mut ls: Vec<Stmt> = vec![];
                    for (i, p) in s.elems.iter().enumerate() {
                        if !matches!(p, Pat::Ident(_) | Pat::Wild(_)) {
                            return None;
                        }
                        ls.push(parse_quote!(let #p = &__vx_sl[#i];));
                    }
                    let e = els?;
                    parse_quote!({ if __vx_sl.len() == #n { #(#ls)* #b } else #e })
                }
                _ => return None,
            });
        }
        let (e, b) = (&m.expr, els?);
        return Some(parse_quote!({ let __vx_sl = #e; #b }));
    }
    if !m.arms.iter().any(|a| some_slice(&a.pat).is_some()) {
        return None;
    }
    let mut rest: Vec<&Arm> = vec![];
    let mut some: Option<Expr> = None;
    for a in m.arms.iter().rev() {
        let b = &a.body;
        match some_slice(&a.pat) {
            Some(_) if a.guard.is_some() => return None,
            Some(s) if s.elems.len() == 1 && matches!(s.elems[0], Pat::Rest(_)) => some = Some(parse_quote!({ #b })),
            Some(s) => {
                let n = s.elems.len();
                let mut ls: Vec<Stmt> = vec![];
                for (i, p) in s.elems.iter().enumerate() {
                    if !matches!(p, Pat::Ident(_) | Pat::Wild(_)) {
                        return None;
                    }
                    ls.push(parse_quote!(let #p = &__vx_sl[#i];));
                }
                let els = some?;
                some = Some(parse_quote!(if __vx_sl.len() == #n { #(#ls)* #b } else #els));
                if let Some(Expr::If(_)) = &some {
                    let e = some.take().unwrap();
                    some = Some(parse_quote!({ #e }));
                }
            }
            None => {
                // `Some(x)`: whatever its length
                if let (Pat::TupleStruct(t), None) = (&a.pat, &a.guard) {
                    if let (true, 1, Some(Pat::Ident(i))) = (t.path.is_ident("Some"), t.elems.len(), t.elems.first()) {
                        if i.subpat.is_none() && i.by_ref.is_none() {
                            let x = &i.ident;
                            some = Some(parse_quote!({ let #x = __vx_sl; #b }));
                            continue;
                        }
                    }
                }
                rest.insert(0, a)
            }
        }
    }
    // the patterns of slices come before a catch-all
    if let (Some(f), Some(l)) = (m.arms.first(), m.arms.last()) {
        if some_slice(&f.pat).is_none() && some_slice(&l.pat).is_some() && matches!(f.pat, Pat::Wild(_)) {
            return None;
        }
    }
    let e = &m.expr;
    let s = some?;
    Some(parse_quote!(match #e { Some(__vx_sl) => #s, #(#rest)* }))
}

fn semi(s: &[Stmt]) -> Vec<Stmt> {
    let mut v = s.to_vec();
    if let Some(Stmt::Expr(_, t)) = v.last_mut() {
        if t.is_none() {
            *t = Some(Default::default());
        }
    }
    v
}

fn is_vx_block(b: &Block) -> bool {
    if let Some(Stmt::Macro(m)) = b.stmts.first() {
        return m.mac.path.is_ident("__vx_inv");
    }
    false
}
fn is_vx_while(w: &ExprWhile) -> bool {
    is_vx_block(&w.body)
}

// Rewrites `return e` and the tail expression so that a proof hint can be placed at every exit.
pub struct Exits;
impl VisitMut for Exits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            let v: Expr = match &r.expr {
                Some(x) => (**x).clone(),
                None => parse_quote!(()),
            };
            *e = parse_quote!({ let vx_ret = #v; __vx_exit!(); return vx_ret; });
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

pub fn tail_exit(b: &mut Block, hint: &str) {
    let h = id(hint);
    match b.stmts.pop() {
        Some(Stmt::Expr(e, None)) => {
            b.stmts.push(parse_quote!(let vx_ret = #e;));
            b.stmts.push(parse_quote!(#h!();));
            b.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
        }
        Some(s) => {
            b.stmts.push(s);
            b.stmts.push(parse_quote!(#h!();));
        }
        None => b.stmts.push(parse_quote!(#h!();)),
    }
}

fn is_unwrapped(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => (m.method == "unwrap" && m.args.is_empty()) || (m.method == "expect" && m.args.len() == 1),
        Expr::Paren(p) => is_unwrapped(&p.expr),
        _ => false,
    }
}
