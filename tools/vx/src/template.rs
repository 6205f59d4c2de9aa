use crate::desugar::{self, Desugar, Exits};
use crate::print::print;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct FnInfo {
    pub name: String,
    pub file: String,
    pub src_lines: (usize, usize),
    pub out_lines: (usize, usize),
    pub external: bool,
    pub loops: usize,
}

pub struct Res {
    pub text: String,
    pub fns: Vec<FnInfo>,
    pub types: Vec<String>,
    pub loopless: Vec<String>,
}

impl Res {
    pub fn map_json(&self) -> String {
        let f: Vec<String> = self
            .fns
            .iter()
            .map(|f| {
                format!(
                    "{{\"name\":{:?},\"file\":{:?},\"src\":[{},{}],\"out\":[{},{}],\"external\":{},\"loops\":{}}}",
                    f.name, f.file, f.src_lines.0, f.src_lines.1, f.out_lines.0, f.out_lines.1, f.external, f.loops
                )
            })
            .collect();
        let t: Vec<String> = self.types.iter().map(|t| format!("{:?}", t)).collect();
        let l: Vec<String> = self.loopless.iter().map(|t| format!("{:?}", t)).collect();
        format!("{{\"fns\":[{}],\"types\":[{}],\"loopmismatch\":[{}]}}\n", f.join(","), t.join(","), l.join(","))
    }
}

struct Ctx {
    vacuity: bool,
    repo: String,
    specdir: String,
    import: Option<String>,
    files: BTreeMap<String, File>,
    real: BTreeMap<String, String>,
    res: Res,
}

type R<T> = std::result::Result<T, String>;

pub fn process(repo: &str, specdir: &str, spec: &str, vacuity: bool) -> R<Res> {
    let mut cx = Ctx {
        vacuity,
        repo: repo.into(),
        specdir: specdir.into(),
        import: None,
        files: BTreeMap::new(),
        real: BTreeMap::new(),
        res: Res { text: String::new(), fns: vec![], types: vec![], loopless: vec![] },
    };
    cx.template(spec)?;
    Ok(cx.res)
}

#[derive(Default, Clone)]
struct FnDir {
    file: String,
    path: String,
    rename: Option<String>,
    flags: Vec<String>,
    ret: Option<String>,
    spec: String,
    loops: BTreeMap<usize, String>,
    at: Vec<(String, String)>,
    attrs: String,
    closures: BTreeMap<usize, String>,
    // headers of every closure whose text (or callee) mentions a word; `$1` is the closure's first argument
    closures_has: Vec<(String, String)>,
    subs: Vec<(String, String)>,
    header: Option<String>,
    renames: Vec<(String, String)>,
}

impl Ctx {
    fn file(&mut self, f: &str) -> R<&File> {
        if !self.files.contains_key(f) {
            let p = format!("{}/{}", self.repo, f);
            let s = fs::read_to_string(&p).map_err(|e| format!("file {}: {}", p, e))?;
            let ast = syn::parse_file(&s).map_err(|e| format!("parse {}: {}", p, e))?;
            crate::desugar::note_iter_fns(&ast);
            self.files.insert(f.to_string(), ast);
        }
        Ok(&self.files[f])
    }

    fn emit(&mut self, s: &str) {
        self.res.text.push_str(s);
        if !s.ends_with('\n') {
            self.res.text.push('\n');
        }
    }

    fn template(&mut self, name: &str) -> R<()> {
        let p = format!("{}/{}", self.specdir, name);
        let s = fs::read_to_string(&p).map_err(|e| format!("template {}: {}", p, e))?;
        let lines: Vec<&str> = s.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i].trim_start();
            if let Some(r) = l.strip_prefix("//@include ") {
                self.template(r.trim())?;
                i += 1;
            } else if let Some(r) = l.strip_prefix("//@import ") {
                // contracts and lemma statements only; another check discharges them
                let (f, by) = r.trim().split_once(' ').ok_or("import: which check proves it?")?;
                let was = self.import.take();
                self.import = Some(by.trim().to_string());
                let r = self.template(f);
                self.import = was;
                r?;
                i += 1;
            } else if let Some(r) = l.strip_prefix("//@type ") {
                let r = r.to_string();
                self.emit_type(&r)?;
                i += 1;
            } else if let Some(r) = l.strip_prefix("//@text ") {
                // the file is, up to white space, the text the contracts were written for
                let mut j = i + 1;
                while j < lines.len() && lines[j].trim() != "//@end" {
                    j += 1;
                }
                let p = format!("{}/{}", self.repo, r.trim());
                let s = fs::read_to_string(&p).map_err(|e| format!("file {}: {}", p, e))?;
                let want: Vec<&str> = lines[i + 1..j].iter().flat_map(|l| l.trim_start().trim_start_matches("// ").split_whitespace()).collect();
                if s.split_whitespace().collect::<Vec<_>>() != want {
                    return Err(format!("{} is no longer the text the contracts speak of", r.trim()));
                }
                i = j + 1;
            } else if let Some(r) = l.strip_prefix("//@lift ") {
                let r = r.to_string();
                self.lift(&r)?;
                i += 1;
            } else if let Some(r) = l.strip_prefix("//@stage ") {
                let (f, n) = r.trim().split_once(" as=").ok_or("stage: name?")?;
                let mut j = i + 1;
                while j < lines.len() && lines[j].trim() != "//@end" {
                    j += 1;
                }
                let mut d = crate::stage::parse_dir(&lines[i + 1..j])?;
                d.name = n.trim().to_string();
                let src = self.file(f.trim())?.clone();
                let o = crate::stage::erase(src, &d)?;
                self.emit(&o.decls);
                self.files.insert(d.name.clone(), o.file);
                self.real.insert(d.name.clone(), f.trim().to_string());
                i = j + 1;
            } else if let Some(r) = l.strip_prefix("//@fn ") {
                let mut d = FnDir::default();
                let mut ws = r.split_whitespace();
                d.file = ws.next().unwrap().into();
                d.path = ws.next().unwrap().into();
                for w in ws {
                    if let Some(n) = w.strip_prefix("as=") {
                        d.rename = Some(n.into());
                    } else {
                        d.flags.push(w.into());
                    }
                }
                i += 1;
                #[derive(Clone)]
                enum Sec {
                    None,
                    Spec,
                    Loop(usize),
                    At(String),
                    Closure(usize),
                    ClosureHas(String),
                }
                let mut sec = Sec::None;
                let mut buf = String::new();
                loop {
                    if i >= lines.len() {
                        return Err(format!("template {}: missing //@end for {}", name, d.path));
                    }
                    let l = lines[i].trim_start();
                    let is_dir = l.starts_with("//@");
                    if is_dir {
                        match &sec {
                            Sec::None => {}
                            Sec::Spec => d.spec = buf.clone(),
                            Sec::Loop(k) => {
                                d.loops.insert(*k, buf.clone());
                            }
                            Sec::At(w) => d.at.push((w.clone(), buf.clone())),
                            Sec::ClosureHas(w) => d.closures_has.push((w.clone(), buf.clone())),
                            Sec::Closure(k) => {
                                d.closures.insert(*k, buf.clone());
                            }
                        }
                        buf.clear();
                        sec = Sec::None;
                        let l = &l[3..];
                        if l.trim() == "end" {
                            i += 1;
                            break;
                        } else if let Some(r) = l.strip_prefix("ret ") {
                            d.ret = Some(r.trim().into());
                        } else if l.trim() == "spec" {
                            sec = Sec::Spec;
                        } else if let Some(r) = l.strip_prefix("loop ") {
                            sec = Sec::Loop(r.trim().parse().unwrap());
                        } else if let Some(r) = l.strip_prefix("at ") {
                            sec = Sec::At(r.trim().into());
                        } else if let Some(r) = l.strip_prefix("attr ") {
                            d.attrs.push_str(r);
                            d.attrs.push('\n');
                        } else if let Some(r) = l.strip_prefix("closure has ") {
                            let (w, rest) = r.trim().split_once(' ').unwrap_or((r.trim(), ""));
                            sec = Sec::ClosureHas(w.to_string());
                            buf.push_str(rest);
                            buf.push(' ');
                        } else if let Some(r) = l.strip_prefix("closure ") {
                            let (k, rest) = r.trim().split_once(' ').unwrap_or((r.trim(), ""));
                            sec = Sec::Closure(k.parse().unwrap());
                            buf.push_str(rest);
                            buf.push(' ');
                        } else if let Some(r) = l.strip_prefix("header ") {
                            d.header = Some(r.trim().into());
                        } else if let Some(r) = l.strip_prefix("rename ") {
                            // method calls `.a(..)` of this function become `.b(..)` (a typed stand-in)
                            let (a, b) = r.trim().split_once(' ').unwrap();
                            d.renames.push((a.into(), b.trim().into()));
                        } else if let Some(r) = l.strip_prefix("sub ") {
                            let mut p = r.splitn(2, " ==> ");
                            d.subs.push((p.next().unwrap().trim().into(), p.next().unwrap().trim().into()));
                        } else {
                            return Err(format!("template {}: bad directive {}", name, l));
                        }
                    } else {
                        buf.push_str(lines[i]);
                        buf.push('\n');
                    }
                    i += 1;
                }
                if self.import.is_some() {
                    d.flags.push("external".into());
                }
                self.emit_fn(d)?;
            } else {
                let l = match &self.import {
                    Some(by) if lines[i].starts_with("pub proof fn ") => format!("#[verifier::external_body] /*IMPORTED {}*/ {}", by, lines[i]),
                    _ => lines[i].to_string(),
                };
                self.emit(&l);
                i += 1;
            }
        }
        Ok(())
    }

    // Closure conversion: `let VAR = || BODY;` in the named function becomes `let VAR = NAME { captured.. };`
    // and BODY, with the captured variables read as fields, the body of NAME's method SIG. The captured
    // variables must not be used again in the function, and the closure must not bind their names.
    fn lift(&mut self, r: &str) -> R<()> {
        let (h, sig) = r.split_once(" : ").ok_or("lift: signature?")?;
        let w: Vec<&str> = h.split_whitespace().collect();
        let (file, path, var, name, caps) = (w[0], w[1], w[2], w[3], w[4]);
        let caps: Vec<String> = caps.split(',').map(|s| s.to_string()).collect();
        let (_, fname) = path.rsplit_once("::").ok_or("lift: path")?;
        self.file(file)?;
        let f = self.files.get_mut(file).unwrap();
        let mut body: Option<Expr> = None;
        for it in f.items.iter_mut() {
            if let Item::Impl(im) = it {
                for ii in im.items.iter_mut() {
                    if let ImplItem::Fn(x) = ii {
                        if x.sig.ident == fname {
                            let mut after = false;
                            for s in x.block.stmts.iter_mut() {
                                if after {
                                    let mut u = Uses { names: &caps, hit: None };
                                    u.visit_stmt_mut(s);
                                    if let Some(h) = u.hit {
                                        return Err(format!("lift {}: `{}` is used after the closure", var, h));
                                    }
                                    continue;
                                }
                                if let Stmt::Local(l) = s {
                                    if let (Pat::Ident(pi), Some(init)) = (&l.pat, &mut l.init) {
                                        if pi.ident == var {
                                            if let Expr::Closure(c) = &*init.expr {
                                                if !c.inputs.is_empty() {
                                                    return Err(format!("lift {}: parameters", var));
                                                }
                                                body = Some((*c.body).clone());
                                                let n: Path = parse_str(name.split('<').next().unwrap()).unwrap();
                                                let fs: Vec<Ident> = caps.iter().map(|c| parse_str(c).unwrap()).collect();
                                                init.expr = Box::new(parse_quote!(#n { #(#fs),* }));
                                                after = true;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        let mut body = body.ok_or(format!("lift: closure {} not found in {}", var, path))?;
        let mut u = Fields { names: &caps, bound: None };
        u.visit_expr_mut(&mut body);
        if let Some(b) = u.bound {
            return Err(format!("lift {}: the closure binds `{}`", var, b));
        }
        let gen = match name.find('<') {
            Some(k) => name[k..].to_string(),
            None => String::new(),
        };
        let blk: Block = match body {
            Expr::Block(b) => b.block,
            e => parse_quote!({ #e }),
        };
        let s = format!("impl{} {} {{ {} {} }}", gen, name, sig, blk.to_token_stream());
        let im: Item = parse_str(&s).map_err(|e| format!("lift: {}", e))?;
        self.files.get_mut(file).unwrap().items.push(im);
        Ok(())
    }

    fn emit_type(&mut self, r: &str) -> R<()> {
        let mut ws = r.splitn(3, ' ');
        let file = ws.next().unwrap().to_string();
        let name = ws.next().unwrap().trim().to_string();
        let attrs = ws.next().unwrap_or("").to_string();
        let f = self.file(&file)?;
        let mut found = None;
        for it in &f.items {
            match it {
                Item::Struct(s) if s.ident == name => found = Some(it.clone()),
                Item::Enum(s) if s.ident == name => found = Some(it.clone()),
                Item::Type(s) if s.ident == name => found = Some(it.clone()),
                _ => {}
            }
        }
        let mut it = found.ok_or(format!("type {} not found in {}", name, file))?;
        let mut ds = Desugar::new();
        ds.wr = true;
        let vis: Visibility = parse_quote!(pub);
        match &mut it {
            Item::Struct(s) => {
                s.attrs.clear();
                s.vis = vis.clone();
                ds.generics(&mut s.generics);
                for f in s.fields.iter_mut() {
                    f.vis = vis.clone();
                    f.attrs.clear();
                }
            }
            Item::Enum(s) => {
                s.attrs.clear();
                s.vis = vis.clone();
                ds.generics(&mut s.generics);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                }
            }
            Item::Type(s) => {
                s.attrs.clear();
                s.vis = vis.clone();
            }
            _ => {}
        }
        ds.visit_item_mut(&mut it);
        self.res.types.push(format!("{}::{}", file, name));
        let t = print(it.to_token_stream(), 0);
        self.emit(&attrs);
        self.emit(&t);
        Ok(())
    }

    fn find_fn(&mut self, d: &FnDir) -> R<(Option<ItemImpl>, Signature, Block, (usize, usize), Visibility)> {
        let (ty, fname) = match d.path.rsplit_once("::") {
            Some((t, f)) => (Some(t.to_string()), f.to_string()),
            None => (None, d.path.clone()),
        };
        let trait_flag: Option<String> =
            d.flags.iter().find_map(|f| f.strip_prefix("trait=").map(|s| s.to_string()));
        let file = d.file.clone();
        let f = self.file(&file)?;
        for it in &f.items {
            match it {
                Item::Fn(x) if ty.is_none() && x.sig.ident == fname => {
                    let sp = (x.sig.fn_token.span.start().line, x.block.brace_token.span.close().end().line);
                    return Ok((None, x.sig.clone(), (*x.block).clone(), sp, x.vis.clone()));
                }
                Item::Impl(im) if ty.is_some() => {
                    if let Type::Path(p) = &*im.self_ty {
                        let tn = p.path.segments.last().unwrap().ident.to_string();
                        if &tn != ty.as_ref().unwrap() {
                            continue;
                        }
                        if let Some(tf) = &trait_flag {
                            match &im.trait_ {
                                Some((_, p, _)) if trait_matches(p, tf) => {}
                                _ => continue,
                            }
                        }
                        for ii in &im.items {
                            if let ImplItem::Fn(x) = ii {
                                if x.sig.ident == fname {
                                    let sp = (
                                        x.sig.fn_token.span.start().line,
                                        x.block.brace_token.span.close().end().line,
                                    );
                                    let mut im2 = im.clone();
                                    im2.items.clear();
                                    return Ok((Some(im2), x.sig.clone(), x.block.clone(), sp, x.vis.clone()));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        Err(format!("fn {} not found in {}", d.path, d.file))
    }

    fn emit_fn(&mut self, mut d: FnDir) -> R<()> {
        let (im, mut sig, mut block, src_lines, _vis) = self.find_fn(&d)?;
        if let Some(f) = self.real.get(&d.file) {
            d.file = f.clone();
        }
        let mut ds = Desugar::new();
        ds.fmt = d.flags.iter().any(|f| f == "fmt");
        ds.wr = d.flags.iter().any(|f| f == "wr");
        ds.bound_names(&mut block);
        let external = d.flags.iter().any(|f| f == "external");
        // signature
        if let Some(n) = &d.rename {
            sig.ident = desugar::id(n);
        }
        ds.generics(&mut sig.generics);
        // `mut x: T` parameters stay; `mut self` becomes a rebinding
        let mut pre: Vec<Stmt> = vec![];
        let mut_self = match sig.inputs.first_mut() {
            Some(FnArg::Receiver(r)) if r.reference.is_none() && r.mutability.is_some() => {
                r.mutability = None;
                true
            }
            _ => false,
        };
        let mut nwild = 0;
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(pt) = a {
                if let Pat::Ident(pi) = &mut *pt.pat {
                    if pi.mutability.is_some() && pi.by_ref.is_none() {
                        // Verus: rebind `mut` parameters
                        pi.mutability = None;
                        let n = &pi.ident;
                        pre.push(parse_quote!(let mut #n = #n;));
                    }
                }
                if let Pat::Wild(_) = &*pt.pat {
                    // Verus: every parameter has a name
                    nwild += 1;
                    let n = desugar::id(&format!("vx_unused{}", nwild));
                    *pt.pat = parse_quote!(#n);
                }
                pt.attrs.clear();
            }
        }
        ds.visit_signature_mut(&mut sig);
        ds.visit_block_mut(&mut block);
        if !d.renames.is_empty() {
            struct M<'a>(&'a Vec<(String, String)>);
            impl<'a> VisitMut for M<'a> {
                fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
                    for (a, b) in self.0 {
                        if m.method == a {
                            m.method = desugar::id(b);
                            break;
                        }
                    }
                    visit_mut::visit_expr_method_call_mut(self, m);
                }
            }
            M(&d.renames).visit_block_mut(&mut block);
        }
        if mut_self {
            pre.push(parse_quote!(let mut vx_self = self;));
            struct S;
            impl VisitMut for S {
                fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                    if p.path.is_ident("self") {
                        p.path = parse_quote!(vx_self);
                    }
                }
            }
            S.visit_block_mut(&mut block);
        }
        // hints anchored at the K-th call of a function: `//@at call NAME K before|after`
        let mut calls: Vec<(String, usize, bool, usize)> = vec![];
        for (i, (w, _)) in d.at.iter().enumerate() {
            if let Some(r) = w.strip_prefix("call ") {
                let p: Vec<&str> = r.split_whitespace().collect();
                calls.push((p[0].into(), p[1].parse().unwrap(), p[2] == "after", i));
            }
        }
        if !calls.is_empty() {
            let mut m = CallMarks { calls: &calls, counts: BTreeMap::new(), placed: vec![] };
            m.visit_block_mut(&mut block);
            if m.placed.len() != calls.len() {
                return Err(format!("fn {}: a call a hint is anchored at is not there", d.path));
            }
        }
        let has_ret = !matches!(sig.output, ReturnType::Default);
        let wants_exits = d.at.iter().any(|(w, _)| w.starts_with("exits"));
        let wants_end = d.at.iter().any(|(w, _)| w == "end");
        // `E?` where the error needs no conversion (the types have to agree, or the text does not compile)
        if d.flags.iter().any(|f| f == "trysame") {
            struct Q;
            impl VisitMut for Q {
                fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    visit_mut::visit_expr_mut(self, e);
                    if let Expr::Try(t) = e {
                        let x = &t.expr;
                        *e = parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => { return Err(vx_e); } });
                    }
                }
            }
            Q.visit_block_mut(&mut block);
        }
        if wants_exits {
            Exits.visit_block_mut(&mut block);
            if has_ret || !matches!(block.stmts.last(), Some(Stmt::Expr(_, None))) {
                desugar::tail_exit(&mut block, "__vx_exit");
            } else {
                if let Some(Stmt::Expr(Expr::MethodCall(_) | Expr::Call(_) | Expr::Assign(_), semi)) = block.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                block.stmts.push(parse_quote!(__vx_exit!();));
            }
        } else if wants_end {
            if has_ret {
                desugar::tail_exit(&mut block, "__vx_end");
            } else {
                block.stmts.push(parse_quote!(__vx_end!();));
            }
        }
        let stmts = &block.stmts;
        let full: Block = parse2(quote!({ #(#pre)* __vx_start!(); #(#stmts)* })).map_err(|e| format!("fn {}: {}: {}", d.path, e, quote!({ #(#stmts)* })))?;
        let mut out = String::new();
        // header
        let indent = if im.is_some() { 1 } else { 0 };
        if let Some(mut im) = im {
            if let Some(h) = &d.header {
                out.push_str(&format!("{} {{\n", h));
            } else {
                ds.generics(&mut im.generics);
                im.attrs.clear();
                let keep_trait = d.flags.iter().any(|f| f == "keeptrait");
                if !keep_trait {
                    im.trait_ = None;
                }
                let mut st = (*im.self_ty).clone();
                ds.visit_type_mut(&mut st);
                let (ig, _, wc) = im.generics.split_for_impl();
                let ig = quote!(#ig);
                let tr = im.trait_.as_ref().map(|(_, p, f)| {
                    let mut p = p.clone();
                    ds.visit_path_mut(&mut p);
                    quote!(#p #f)
                });
                out.push_str(&print(quote!(impl #ig #tr #st #wc), 0));
                out.push_str(" {\n");
            }
        }
        if !d.attrs.is_empty() {
            out.push_str(&d.attrs);
        }
        if external {
            match &self.import {
                Some(by) => out.push_str(&format!("#[verifier::external_body] /*IMPORTED {}*/\n", by)),
                None => out.push_str("#[verifier::external_body]\n"),
            }
        }
        let keep_trait = d.flags.iter().any(|f| f == "keeptrait");
        // signature with named return
        let ret = d.ret.clone().unwrap_or("r".into());
        let mut s2 = sig.clone();
        s2.output = ReturnType::Default;
        let wc = s2.generics.where_clause.take();
        if !keep_trait {
            out.push_str("pub ");
        }
        out.push_str(&print(s2.to_token_stream(), indent));
        if let ReturnType::Type(_, t) = &sig.output {
            out.push_str(&format!(" -> ({}: {})", ret, print(t.to_token_stream(), indent)));
        }
        if let Some(w) = wc {
            out.push_str(&print(w.to_token_stream(), indent));
        }
        out.push('\n');
        out.push_str(&d.spec);
        let mut nloops = 0;
        if external {
            out.push_str("{ unimplemented!() }\n");
        } else {
            let body = print(full.to_token_stream(), indent);
            let (body, n) = self.markers(&body, &d)?;
            nloops = n;
            out.push_str(&body);
        }
        if indent > 0 {
            out.push_str("\n}\n");
        }
        let mut out = out;
        for (a, b) in &d.subs {
            if !out.contains(a.as_str()) {
                return Err(format!("fn {}: text to substitute not found: {}", d.path, a));
            }
            out = out.replace(a.as_str(), b);
        }
        let start = self.res.text.matches('\n').count() + 1;
        self.emit(&format!("// ---- extracted: {} {} (lines {}-{})", d.file, d.path, src_lines.0, src_lines.1));
        self.emit(&out);
        let end = self.res.text.matches('\n').count() + 1;
        if !external && nloops != d.loops.len() {
            self.res.loopless.push(d.path.clone());
        }
        self.res.fns.push(FnInfo {
            name: d.path.clone(),
            file: d.file.clone(),
            src_lines,
            out_lines: (start, end),
            external,
            loops: nloops,
        });
        Ok(())
    }

    // resolve the __vx_* markers of a printed body
    fn markers(&mut self, body: &str, d: &FnDir) -> R<(String, usize)> {
        let mut out = String::new();
        let mut stack: Vec<usize> = vec![];
        let mut next = 0usize;
        let mut uid_to_loop: BTreeMap<usize, usize> = BTreeMap::new();
        let at = |w: &str| -> String {
            d.at.iter().filter(|(x, _)| x == w).map(|(_, t)| t.clone()).collect::<Vec<_>>().join("\n")
        };
        let mut ncl = 0usize;
        // locals of the function's own block that are in scope
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut pending: Option<String> = None;
        let indent = body.lines().filter(|l| l.trim().starts_with("let ")).map(|l| l.len() - l.trim_start().len()).min().unwrap_or(0);
        let all_lines: Vec<&str> = body.lines().collect();
        for (line_no, line) in body.lines().enumerate() {
            let t = line.trim();
            if line.len() - line.trim_start().len() == indent {
                if !t.starts_with(|c| c == '}' || c == ')') {
                    seen.extend(pending.take());
                }
                if let Some(r) = t.strip_prefix("let ") {
                    let r = r.strip_prefix("mut ").unwrap_or(r);
                    let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    pending = Some(n);
                }
            }
            let norm: String = t.chars().filter(|c| !c.is_whitespace()).collect();
            if let Some(r) = norm.strip_prefix("__vx_lb!(") {
                let u: usize = r.trim_end_matches(");").parse().unwrap();
                uid_to_loop.insert(u, next);
                stack.push(next);
                out.push_str(&at(&format!("loop {} before", next)));
                // let the loop body see what holds before the loop, so that a local
                // introduced outside the loop needs no invariant of its own
                let sp = d.loops.get(&next).map(String::as_str).unwrap_or("");
                let w: Vec<&str> = sp.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
                if !w.contains(&"invariant_except_break") && !w.contains(&"ensures") && !d.attrs.contains("loop_isolation") {
                    out.push_str("#[verifier::loop_isolation(false)]\n");
                }
                next += 1;
            } else if norm == "__vx_inv!();" {
                // the `{` opening the loop body has just been printed
                while out.ends_with(char::is_whitespace) {
                    out.pop();
                }
                if !out.ends_with('{') {
                    return Err(format!("internal: loop marker of {} misplaced", d.path));
                }
                out.pop();
                out.push('\n');
                let k = *stack.last().unwrap();
                if let Some(s) = d.loops.get(&k) {
                    out.push_str(s);
                }
                out.push_str("{\n");
                out.push_str(&at(&format!("loop {} top", k)));
            } else if norm == "__vx_ls!();" {
                let k = *stack.last().unwrap();
                if self.vacuity {
                    out.push_str("if vx_nd () { assert(false); } /*VACUITY*/\n");
                }
                out.push_str(&at(&format!("loop {} start", k)));
            } else if norm == "__vx_le!();" {
                let k = *stack.last().unwrap();
                out.push_str(&at(&format!("loop {} end", k)));
            } else if norm == "__vx_la!();" {
                let k = stack.pop().unwrap();
                out.push_str(&at(&format!("loop {} after", k)));
            } else if let Some(r) = norm.strip_prefix("__vx_mk!(") {
                let u: usize = r.trim_end_matches(");").parse().unwrap();
                out.push_str(&d.at[u].1);
            } else if norm == "__vx_start!();" {
                if self.vacuity {
                    out.push_str("if vx_nd () { assert(false); } /*VACUITY*/\n");
                }
                out.push_str(&at("start"));
            } else if norm == "__vx_exit!();" {
                // `exits since x`: where the function's local x is in scope; `exits before x`: where it is not
                for (w, t) in &d.at {
                    let p: Vec<&str> = w.split_whitespace().collect();
                    let sel = match p[..] {
                        ["exits"] => true,
                        ["exits", "since", x] => seen.contains(x),
                        ["exits", "before", x] => !seen.contains(x),
                        _ => false,
                    };
                    if sel {
                        out.push_str(t);
                    }
                }
            } else if norm == "__vx_end!();" {
                out.push_str(&at("end"));
            } else {
                // closures left in the text can be given a Verus header
                let mut l = line.to_string();
                if !d.closures.is_empty() || !d.closures_has.is_empty() {
                    if let Some(p) = find_closure(&l) {
                        if let Some(h) = d.closures.get(&ncl) {
                            let (a, b) = (l[..p.0].to_string(), l[p.1..].to_string());
                            l = format!("{} {} {}", a, h.trim(), b);
                        }
                        let text = closure_text(&all_lines[line_no..], p.0);
                        for (w, h) in &d.closures_has {
                            if words(&text).contains(&w.as_str()) {
                                let first: String = l[p.0 + 1..p.1 - 1].trim().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                                let (a, b) = (l[..p.0].to_string(), l[p.1..].to_string());
                                l = format!("{} {} {}", a, h.trim().replace("$1", &first), b);
                                break;
                            }
                        }
                        ncl += 1;
                    }
                }
                out.push_str(&l);
                out.push('\n');
            }
        }
        // stable names for the generated temporaries
        for (u, k) in uid_to_loop.iter().rev() {
            out = out.replace(&format!("__vx_it_u{}.", u), &format!("it{}.", k));
            out = out.replace(&format!("__vx_it_u{} ", u), &format!("it{} ", k));
        }
        seen.extend(pending.take());
        for (w, _) in &d.at {
            if let ["exits", "since" | "before", x] = w.split_whitespace().collect::<Vec<_>>()[..] {
                if !seen.contains(x) {
                    return Err(format!("fn {}: no local {} to speak of at its exits", d.path, x));
                }
            }
        }
        for kind in ["acc", "e", "vec", "t", "err", "ts", "k", "n"] {
            let pre = format!("__vx_{}_u", kind);
            let mut order: Vec<usize> = vec![];
            let mut p = 0;
            while let Some(q) = out[p..].find(&pre) {
                let s = p + q + pre.len();
                let dgt: String = out[s..].chars().take_while(|c| c.is_ascii_digit()).collect();
                let u: usize = dgt.parse().unwrap();
                if !order.contains(&u) {
                    order.push(u);
                }
                p = s;
            }
            let mut idx: Vec<(usize, usize)> = order.iter().enumerate().map(|(i, u)| (*u, i)).collect();
            idx.sort();
            for (u, i) in idx.iter().rev() {
                out = out.replace(&format!("{}{}", pre, u), &format!("{}{}", kind, i));
            }
        }
        Ok((out, next))
    }
}

// places the markers of `//@at call` hints next to the innermost statement containing the call
struct CallMarks<'a> {
    calls: &'a Vec<(String, usize, bool, usize)>,
    counts: BTreeMap<String, usize>,
    placed: Vec<usize>,
}
struct Direct(Vec<String>);
impl VisitMut for Direct {
    fn visit_block_mut(&mut self, _: &mut Block) {}
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        self.0.push(m.method.to_string());
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Expr::Path(p) = &*c.func {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
    }
}
impl<'a> VisitMut for CallMarks<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut dv = Direct(vec![]);
            dv.visit_stmt_mut(&mut s);
            let (mut before, mut after): (Vec<Stmt>, Vec<Stmt>) = (vec![], vec![]);
            for n in dv.0 {
                let c = self.counts.entry(n.clone()).or_insert(0);
                let k = *c;
                *c += 1;
                for (name, kk, is_after, idx) in self.calls.iter() {
                    if *name == n && *kk == k {
                        self.placed.push(*idx);
                        let lit = LitInt::new(&format!("{}", idx), proc_macro2::Span::call_site());
                        if *is_after { after.push(parse_quote!(__vx_mk!(#lit);)) } else { before.push(parse_quote!(__vx_mk!(#lit);)) }
                    }
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.extend(before);
            if after.is_empty() {
                out.push(s);
            } else if let Stmt::Expr(e, None) = s {
                out.push(parse_quote!(let vx_tail = #e;));
                out.extend(after);
                out.push(Stmt::Expr(parse_quote!(vx_tail), None));
            } else {
                out.push(s);
                out.extend(after);
            }
        }
        b.stmts = out;
    }
}

fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect()
}
// the callee's name and the text of the closure that starts at byte `p` of the first line, up to the closing parenthesis
fn closure_text(lines: &[&str], p: usize) -> String {
    let mut out = lines[0][..p].to_string();
    let mut depth = 0i32;
    for (i, l) in lines.iter().enumerate() {
        for c in (if i == 0 { &l[p..] } else { *l }).chars() {
            match c {
                '(' | '{' | '[' => depth += 1,
                ')' | '}' | ']' => depth -= 1,
                _ => (),
            }
            if depth < 0 {
                return out;
            }
            out.push(c);
        }
        out.push('\n');
    }
    out
}
// byte range of `|args|` of a closure on this line
fn find_closure(l: &str) -> Option<(usize, usize)> {
    let b: Vec<char> = l.chars().collect();
    let _ = b;
    let mut i = 0;
    let by = l.as_bytes();
    while i < by.len() {
        if by[i] == b'|' {
            if i + 1 < by.len() && by[i + 1] == b'|' {
                i += 2;
                continue;
            }
            let prev = l[..i].trim_end();
            if prev.ends_with('(') || prev.ends_with(',') || prev.ends_with('=') || prev.ends_with(" move") || prev.ends_with("(move") {
                if let Some(j) = l[i + 1..].find('|') {
                    return Some((i, i + 1 + j + 1));
                }
            }
        }
        i += 1;
    }
    None
}

// `From` matches any `From<..>`; `From<X>` only the implementation whose argument's last segment is X
fn trait_matches(p: &Path, want: &str) -> bool {
    let seg = p.segments.last().unwrap();
    match want.split_once('<') {
        None => seg.ident == want,
        Some((n, a)) => {
            let a = a.trim_end_matches('>');
            seg.ident == n
                && match &seg.arguments {
                    PathArguments::AngleBracketed(g) => match g.args.first() {
                        Some(GenericArgument::Type(Type::Path(tp))) => tp.path.segments.last().unwrap().ident == a,
                        _ => false,
                    },
                    _ => false,
                }
        }
    }
}

struct Uses<'a> {
    names: &'a Vec<String>,
    hit: Option<String>,
}
impl<'a> VisitMut for Uses<'a> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if self.names.iter().any(|n| i == n) {
            self.hit = Some(i.to_string());
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        for t in m.tokens.clone() {
            let s = t.to_string();
            if let Some(n) = self.names.iter().find(|n| s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| &w == n)) {
                self.hit = Some(n.clone());
            }
        }
    }
    // a field or method of that name is no use of the variable
    fn visit_member_mut(&mut self, _: &mut Member) {}
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        self.visit_expr_mut(&mut m.receiver);
        for a in m.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }
}
struct Fields<'a> {
    names: &'a Vec<String>,
    bound: Option<String>,
}
impl<'a> VisitMut for Fields<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(n) = self.names.iter().find(|n| p.path.is_ident(n.as_str())) {
                let i: Ident = parse_str(n).unwrap();
                *e = parse_quote!(self.#i);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if self.names.iter().any(|n| p.ident == n) {
            self.bound = Some(p.ident.to_string());
        }
    }
}
