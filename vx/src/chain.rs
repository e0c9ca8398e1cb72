//! Lowerings of futures and iterator chains (opts `async`, `chain`).
//!
//! async: the code of an async block runs where the block stands; `.await` yields the value; what
//! is dropped is the suspension itself, i.e. the interleaving with other tasks.
//! chain: an iterator chain with closures becomes an index loop that runs the same closure bodies
//! on the same elements in the same order.
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Async {
    pub notes: Vec<String>,
    pub errors: Vec<String>,
}
fn future_output(t: &Type) -> Option<Type> {
    // Pin<Box<dyn Future<Output = X> + ..>>
    let arg = |t: &Type, name: &str| -> Option<Type> {
        let Type::Path(p) = t else { return None };
        let s = p.path.segments.last()?;
        if s.ident != name {
            return None;
        }
        let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
        a.args.iter().find_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None })
    };
    let b = arg(t, "Pin")?;
    let d = arg(&b, "Box")?;
    let Type::TraitObject(o) = d else { return None };
    for b in &o.bounds {
        if let TypeParamBound::Trait(t) = b {
            let s = t.path.segments.last()?;
            if s.ident == "Future" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    for x in &a.args {
                        if let GenericArgument::AssocType(q) = x {
                            if q.ident == "Output" {
                                return Some(q.ty.clone());
                            }
                        }
                    }
                }
            }
        }
    }
    None
}
struct HasReturn(bool);
impl<'a> syn::visit::Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
impl Async {
    pub fn run(f: &mut ItemFn) -> Async {
        let mut a = Async { notes: vec![], errors: vec![] };
        let mut boxed = false;
        if f.sig.asyncness.is_some() {
            f.sig.asyncness = None;
            a.notes.push("async fn -> fn".into());
        } else if let ReturnType::Type(_, t) = &mut f.sig.output {
            if let Some(x) = future_output(t) {
                *t = Box::new(x);
                boxed = true;
                a.notes.push("-> Pin<Box<dyn Future<Output = X>>> becomes -> X".into());
            }
        }
        a.visit_block_mut(&mut f.block);
        let _ = boxed;
        // a tail block `{ a; b }` ends the function: its statements become the function's own
        while let Some(Stmt::Expr(Expr::Block(b), None)) = f.block.stmts.last() {
            if b.label.is_some() || !b.attrs.is_empty() {
                break;
            }
            let inner = b.block.stmts.clone();
            f.block.stmts.pop();
            f.block.stmts.extend(inner);
        }
        // the lifetime of the boxed future is not part of the contract text
        a.notes.push("async blocks run in place, .await yields the value: suspension points are dropped".into());
        a
    }
}
impl VisitMut for Async {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Await(a) => Some((*a.base).clone()),
            Expr::Async(a) => {
                let mut r = HasReturn(false);
                syn::visit::Visit::visit_block(&mut r, &a.block);
                if r.0 {
                    self.errors.push("return or ? inside an async block".into());
                }
                let b = &a.block;
                if b.stmts.len() == 1 {
                    if let Stmt::Expr(x, None) = &b.stmts[0] {
                        Some(x.clone())
                    } else {
                        Some(parse_quote!(#b))
                    }
                } else {
                    Some(parse_quote!(#b))
                }
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if (f == "Box::pin" || f == "futures::future::ready" || f == "ready") && c.args.len() == 1 {
                    Some(c.args[0].clone())
                } else if (f == "join_all" || f.ends_with("::join_all")) && c.args.len() == 1 {
                    let x = &c.args[0];
                    Some(parse_quote!(__vp_join_all(#x)))
                } else {
                    None
                }
            }
            Expr::Macro(m) if m.mac.path.segments.last().map_or(false, |s| s.ident == "join") => {
                match m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    Ok(parts) => {
                        let mut v: Vec<Expr> = parts.into_iter().collect();
                        for x in v.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        self.notes.push("join!(a, b) -> (a, b)".into());
                        Some(parse_quote!((#(#v),*)))
                    }
                    Err(_) => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if m.mac.path.is_ident("join") {
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                let semi = m.semi_token;
                *s = Stmt::Expr(e, semi);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

pub struct Chain {
    pub notes: Vec<String>,
    pub errors: Vec<String>,
    n: usize,
    sumty: String,
    hoisted: Vec<Vec<Stmt>>,
    elems: std::collections::HashMap<usize, String>,
}
enum Step {
    Let(Pat, Expr),
    If(Expr),
}
enum Len {
    Range(Expr, Expr), // a..b, only as the sole source
    N(Expr),
}
struct Pipe {
    k: usize,
    pre: Vec<Stmt>,
    len: Len,
    steps: Vec<Step>,
    elem: Expr,
    filtered: bool,
}
fn id(s: &str, k: usize) -> Ident {
    Ident::new(&format!("{}{}", s, k), proc_macro2::Span::call_site())
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
impl Chain {
    pub fn run(f: &mut ItemFn, sumty: &str, elems: &std::collections::HashMap<usize, String>) -> Chain {
        let mut c = Chain { notes: vec![], errors: vec![], n: 0, sumty: sumty.to_string(), hoisted: vec![], elems: elems.clone() };
        c.visit_block_mut(&mut f.block);
        if c.n > 0 {
            c.notes.push("iterator chains -> index loops over the same elements, in order, running the same closure bodies".into());
        }
        c
    }
    fn hoist(&mut self, st: Vec<Stmt>) {
        if let Some(h) = self.hoisted.last_mut() {
            h.extend(st);
        }
    }
    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n
    }
    fn v(&mut self, e: &Expr) -> Expr {
        let mut e = e.clone();
        self.visit_expr_mut(&mut e);
        e
    }
    fn container(&mut self, r: &Expr, by_value: bool) -> Pipe {
        let k = self.fresh();
        let i = id("__i", k);
        let r = self.v(r);
        let mut pre = vec![];
        let base: Expr = if crate::lower::is_place(strip(&r)) {
            strip(&r).clone()
        } else {
            let s = id("__s", k);
            if matches!(strip(&r), Expr::Index(_)) {
                pre.push(parse_quote!(let #s = &#r;));
            } else {
                pre.push(parse_quote!(let #s = #r;));
            }
            parse_quote!(#s)
        };
        let elem: Expr = if by_value { parse_quote!(vp_take(&#base, #i)) } else { parse_quote!(&#base[#i]) };
        Pipe { k, pre, len: Len::N(parse_quote!(#base.len())), steps: vec![], elem, filtered: false }
    }
    /// normalise a range source so that it can be zipped, counted or limited
    fn indexed(&mut self, p: &mut Pipe) {
        if let Len::Range(a, b) = &p.len {
            let lo = id("__lo", p.k);
            let i = id("__i", p.k);
            p.pre.push(parse_quote!(let #lo = #a;));
            let len: Expr = parse_quote!(vp_range_len(#lo, #b));
            p.len = Len::N(len);
            struct S(Ident, Expr);
            impl VisitMut for S {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if matches!(e, Expr::Path(p) if p.path.is_ident(&self.0)) {
                        *e = self.1.clone();
                        return;
                    }
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            let mut s = S(i.clone(), parse_quote!((#lo + #i)));
            s.visit_expr_mut(&mut p.elem);
            for st in p.steps.iter_mut() {
                match st {
                    Step::Let(_, e) | Step::If(e) => s.visit_expr_mut(e),
                }
            }
        }
    }
    fn is_pipe(e: &Expr) -> bool {
        match strip(e) {
            Expr::Range(r) => r.start.is_some() && r.end.is_some(),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "into_iter" => m.args.is_empty(),
                    "map" | "filter" | "zip" | "take" | "skip" => m.args.len() == 1 && Self::is_pipe(&m.receiver),
                    "enumerate" | "cloned" | "copied" => m.args.is_empty() && Self::is_pipe(&m.receiver),
                    _ => false,
                }
            }
            _ => false,
        }
    }
    fn closure1(&mut self, e: &Expr) -> Option<(Pat, Expr)> {
        let Expr::Closure(c) = strip(e) else {
            return None;
        };
        if c.inputs.len() != 1 {
            return None;
        }
        let mut r = HasReturn(false);
        syn::visit::Visit::visit_expr(&mut r, &c.body);
        if r.0 {
            self.errors.push("return or ? inside a closure of an iterator chain".into());
        }
        let b = self.v(&c.body);
        Some((c.inputs[0].clone(), b))
    }
    fn pipe(&mut self, e: &Expr) -> Option<Pipe> {
        if !Self::is_pipe(e) {
            return None;
        }
        match strip(e) {
            Expr::Range(r) => {
                let k = self.fresh();
                let a = self.v(r.start.as_ref().unwrap());
                let b = self.v(r.end.as_ref().unwrap());
                let b: Expr = match r.limits {
                    RangeLimits::Closed(_) => {
                        self.notes.push("a..=b -> a..b + 1 (overflow checked)".into());
                        match strip(&b) {
                            Expr::Path(_) | Expr::Lit(_) => parse_quote!(#b + 1),
                            Expr::Binary(_) => parse_quote!((#b) + 1),
                            _ => parse_quote!((#b) + 1),
                        }
                    }
                    _ => b,
                };
                let i = id("__i", k);
                Some(Pipe { k, pre: vec![], len: Len::Range(a, b), steps: vec![], elem: parse_quote!(#i), filtered: false })
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" => Some(self.container(&m.receiver, false)),
                    "into_iter" => {
                        if Self::is_pipe(&m.receiver) {
                            return self.pipe(&m.receiver);
                        }
                        Some(self.container(&m.receiver, true))
                    }
                    "map" => {
                        let mut p = self.pipe(&m.receiver)?;
                        let Some((pat, body)) = self.closure1(&m.args[0]) else {
                            // a path to a function
                            let f = &m.args[0];
                            let el = &p.elem;
                            p.elem = parse_quote!(#f(#el));
                            return Some(p);
                        };
                        let el = p.elem.clone();
                        if !matches!(pat, Pat::Wild(_)) || !matches!(el, Expr::Path(_)) {
                            p.steps.push(Step::Let(pat, el));
                        }
                        p.elem = body;
                        Some(p)
                    }
                    "filter" => {
                        let mut p = self.pipe(&m.receiver)?;
                        let (pat, body) = self.closure1(&m.args[0])?;
                        let ev = id("__e", p.k);
                        let el = p.elem.clone();
                        p.steps.push(Step::Let(parse_quote!(#ev), el));
                        p.steps.push(Step::Let(pat, parse_quote!(&#ev)));
                        p.steps.push(Step::If(body));
                        p.elem = parse_quote!(#ev);
                        p.filtered = true;
                        Some(p)
                    }
                    "cloned" | "copied" => {
                        let mut p = self.pipe(&m.receiver)?;
                        let el = p.elem.clone();
                        p.elem = match &el {
                            Expr::Reference(r) => {
                                let x = &r.expr;
                                parse_quote!(#x.clone())
                            }
                            _ => parse_quote!((#el).clone()),
                        };
                        Some(p)
                    }
                    "take" | "skip" => {
                        let mut p = self.pipe(&m.receiver)?;
                        if p.filtered || n == "skip" {
                            self.errors.push(format!("{} after filter is not lowered", n));
                        }
                        self.indexed(&mut p);
                        let a = self.v(&m.args[0]);
                        if let Len::N(l) = &p.len {
                            p.len = Len::N(parse_quote!(vp_min(#l, #a)));
                        }
                        Some(p)
                    }
                    "enumerate" => {
                        let mut p = self.pipe(&m.receiver)?;
                        if p.filtered {
                            self.errors.push("enumerate after filter is not lowered".into());
                        }
                        self.indexed(&mut p);
                        let (i, el) = (id("__i", p.k), p.elem.clone());
                        p.elem = parse_quote!((#i, #el));
                        Some(p)
                    }
                    "zip" => {
                        let mut p = self.pipe(&m.receiver)?;
                        self.indexed(&mut p);
                        let mut q = match self.pipe(&m.args[0]) {
                            Some(q) => q,
                            None => self.container(&m.args[0], true),
                        };
                        self.indexed(&mut q);
                        if p.filtered || q.filtered {
                            self.errors.push("zip after filter is not lowered".into());
                        }
                        // both sides run over the same index
                        struct R(Ident, Ident);
                        impl VisitMut for R {
                            fn visit_ident_mut(&mut self, i: &mut Ident) {
                                if *i == self.0 {
                                    *i = self.1.clone();
                                }
                            }
                        }
                        let mut r = R(id("__i", q.k), id("__i", p.k));
                        r.visit_expr_mut(&mut q.elem);
                        for st in q.steps.iter_mut() {
                            match st {
                                Step::Let(_, e) | Step::If(e) => r.visit_expr_mut(e),
                            }
                        }
                        p.pre.extend(q.pre);
                        p.steps.extend(q.steps);
                        let (a, b) = (p.elem.clone(), q.elem);
                        p.elem = parse_quote!((#a, #b));
                        p.len = match (&p.len, &q.len) {
                            (Len::N(x), Len::N(y)) => Len::N(parse_quote!(vp_min(#x, #y))),
                            _ => return None,
                        };
                        Some(p)
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn nest(steps: &[Step], inner: Vec<Stmt>) -> Vec<Stmt> {
        let mut out = vec![];
        for (i, s) in steps.iter().enumerate() {
            match s {
                Step::Let(p, e) => out.push(parse_quote!(let #p = #e;)),
                Step::If(c) => {
                    let rest = Self::nest(&steps[i + 1..], inner);
                    out.push(parse_quote!(if #c { #(#rest)* }));
                    return out;
                }
            }
        }
        out.extend(inner);
        out
    }
    fn looped(p: &Pipe, inner: Vec<Stmt>) -> Vec<Stmt> {
        let mut out = p.pre.clone();
        let i = id("__i", p.k);
        let body = Self::nest(&p.steps, inner);
        match &p.len {
            Len::Range(a, b) => out.push(parse_quote!(for #i in #a..#b { #(#body)* })),
            Len::N(l) => {
                let n = id("__n", p.k);
                out.push(parse_quote!(let #n: usize = #l;));
                out.push(parse_quote!(for #i in 0..#n { #(#body)* }));
            }
        }
        out
    }
    fn collect(&mut self, p: &Pipe) -> Expr {
        let c = id("__c", p.k);
        let el = &p.elem;
        let ty: Type = self.elems.get(&p.k).and_then(|t| parse_str(t).ok()).unwrap_or(parse_quote!(_));
        let mut st: Vec<Stmt> = vec![parse_quote!(let mut #c: Vec<#ty> = Vec::new();)];
        let mut looped = Self::looped(p, vec![parse_quote!(#c.push(#el);)]);
        // how many elements are collected so far follows from the index
        let from = match &p.len {
            Len::N(_) => Some("0".to_string()),
            Len::Range(a, _) => matches!(strip(a), Expr::Path(_) | Expr::Lit(_)).then(|| a.to_token_stream().to_string()),
        };
        if let (false, Some(a), Some(Stmt::Expr(Expr::ForLoop(l), _))) = (p.filtered, from, looped.last_mut()) {
            let s = format!("{}@.len() == {} - ({})", c, id("__i", p.k), a);
            l.body.stmts.insert(0, parse_quote!(__vp_lead!(#s);));
        }
        st.extend(looped);
        // the source expressions are evaluated before the result vector is made; no difference
        parse_quote!({ #(#st)* #c })
    }
}
impl VisitMut for Chain {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            // conditions of assertions may contain chains
            let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if n == "assert" || n == "assert_eq" || n == "assert_ne" {
                if let Ok(parts) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let keep = if n == "assert" { 1 } else { 2 };
                    let v: Vec<Expr> = parts.iter().take(keep).map(|x| self.v(x)).collect();
                    m.mac.tokens = quote::quote!(#(#v),*);
                }
                return;
            }
        }
        let new: Option<Expr> = match e {
            Expr::Call(c) if c.func.to_token_stream().to_string() == "__vp_join_all" => {
                let x = c.args[0].clone();
                Some(match self.pipe(&x) {
                    Some(p) => self.collect(&p),
                    None => self.v(&x),
                })
            }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "collect" | "sum" | "product" | "fold") => {
                let m = m.clone();
                match self.pipe(&m.receiver) {
                    None => None,
                    Some(p) => match m.method.to_string().as_str() {
                        "collect" => Some(self.collect(&p)),
                        "fold" => {
                            let acc = id("__a", p.k);
                            let init = self.v(&m.args[0]);
                            match strip(&m.args[1]) {
                                Expr::Closure(c) if c.inputs.len() == 2 => {
                                    let mut r = HasReturn(false);
                                    syn::visit::Visit::visit_expr(&mut r, &c.body);
                                    if r.0 {
                                        self.errors.push("return or ? inside a closure of an iterator chain".into());
                                    }
                                    let b = self.v(&c.body);
                                    let (pa, pe) = (&c.inputs[0], &c.inputs[1]);
                                    let el = &p.elem;
                                    let mut st: Vec<Stmt> = vec![parse_quote!(let mut #acc = #init;)];
                                    st.extend(Self::looped(&p, vec![parse_quote!(let #pa = #acc;), parse_quote!(let #pe = #el;), parse_quote!(#acc = #b;)]));
                                    Some(parse_quote!({ #(#st)* #acc }))
                                }
                                _ => None,
                            }
                        }
                        op => {
                            let st = self.sumty.clone();
                            self.elems.entry(p.k).or_insert(st);
                            let c = self.collect(&p);
                            let t = Ident::new(&self.sumty, proc_macro2::Span::call_site());
                            let o = Ident::new(op, proc_macro2::Span::call_site());
                            self.notes.push(format!("chain.{}() -> {}::{}(collected elements)", op, t, o));
                            Some(parse_quote!(#t::#o(#c)))
                        }
                    },
                }
            }
            _ => None,
        };
        match new {
            Some(n) => *e = n,
            None => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            let semi = m.semi_token;
            *s = Stmt::Expr(e, semi);
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        // plain ranges stay as they are
        let direct = matches!(strip(&f.expr), Expr::Range(_));
        if !direct && Self::is_pipe(&f.expr) && f.label.is_none() {
            let ex = (*f.expr).clone();
            if let Some(p) = self.pipe(&ex) {
                let pat = &f.pat;
                let el = &p.elem;
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                let bs = &body.stmts;
                let mut inner: Vec<Stmt> = vec![parse_quote!(let #pat = #el;)];
                inner.extend(bs.iter().cloned());
                let st = Self::looped(&p, inner);
                // the loop itself must stay a `for`: setup statements are hoisted by visit_block_mut
                let mut st = st;
                let Some(Stmt::Expr(Expr::ForLoop(l), _)) = st.pop() else { return };
                *f = l;
                self.hoist(st);
                return;
            }
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // a chain bound by `let` without a terminal operation is evaluated eagerly; sound when the
        // next statement consumes it and nothing in between can observe the difference
        let n = b.stmts.len();
        for i in 0..n {
            let Stmt::Local(l) = &b.stmts[i] else { continue };
            let Some(init) = &l.init else { continue };
            if init.diverge.is_some() || matches!(strip(&init.expr), Expr::Range(_)) || !Self::is_pipe(&init.expr) {
                continue;
            }
            let name = match &l.pat {
                Pat::Ident(p) => p.ident.to_string(),
                _ => continue,
            };
            let uses = |s: &Stmt| -> usize {
                let t = s.to_token_stream().to_string();
                t.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| *w == name).count()
            };
            let next_ok = i + 1 < n && {
                let t = b.stmts[i + 1].to_token_stream().to_string();
                let k = uses(&b.stmts[i + 1]);
                t.contains(&format!("__vp_join_all ({})", name)) && k >= 1
            };
            if !next_ok {
                // a slice iterator kept for later use: only plain sources are understood
                if !matches!(strip(&init.expr), Expr::MethodCall(m) if m.method == "iter") {
                    self.errors.push(format!("iterator `{}` is not consumed by the next statement", name));
                }
                continue;
            }
            let (l2, e2) = (l.clone(), init.expr.clone());
            let mut l2 = l2;
            l2.init.as_mut().unwrap().expr = Box::new(parse_quote!(__vp_join_all(#e2)));
            b.stmts[i] = Stmt::Local(l2);
            self.notes.push(format!("lazy iterator `{}` evaluated where it is bound (the next statement consumes it)", name));
        }
        // `let it = X.iter();` used as `it.…`: the slice itself
        let mut subs: Vec<(String, Expr)> = vec![];
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::MethodCall(m) = strip(&init.expr) {
                        if m.method == "iter" && m.args.is_empty() && crate::lower::is_place(&m.receiver) && p.mutability.is_none() {
                            subs.push((p.ident.to_string(), (*init.expr).clone()));
                            self.notes.push(format!("iterator `{}` replaced by its definition", p.ident));
                            continue;
                        }
                    }
                }
            }
            let mut s = s;
            for (n, e) in &subs {
                struct R<'a>(&'a str, &'a Expr);
                impl<'a> VisitMut for R<'a> {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        if matches!(e, Expr::Path(p) if p.path.is_ident(self.0)) {
                            *e = self.1.clone();
                            return;
                        }
                        visit_mut::visit_expr_mut(self, e);
                    }
                }
                R(n, e).visit_stmt_mut(&mut s);
            }
            out.push(s);
        }
        b.stmts = out;
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            let mark = b.stmts.len();
            let _ = mark;
            self.hoisted.push(vec![]);
            self.visit_stmt_mut(&mut s);
            let h = self.hoisted.pop().unwrap();
            b.stmts.extend(h);
            b.stmts.push(s);
        }
    }
}
