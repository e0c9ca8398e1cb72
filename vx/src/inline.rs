//! Helpers and constants that the pinned tree does not have (`known.txt` lists those it has) are
//! put back where they are used, so that a function is verified against its contract whether or
//! not part of its body has been moved into a helper.  A call `h(a, b)` of `fn h(p: P, q: Q) -> R
//! { s; e }` becomes `{ let p: P = a; let q: Q = b; s; e }`; an argument that is a variable, a
//! borrow of a place or a literal is put in directly.  Recursive helpers, helpers with a return
//! inside a loop and those with closures or `impl Trait` among their parameters stay as they are.
use super::*;
use std::collections::HashSet;

const KNOWN: &str = include_str!("../known.txt");

pub fn names_of(items: &[Item]) -> Vec<String> {
    let mut v = vec![];
    for i in items {
        match i {
            Item::Fn(f) => v.push(format!("fn {}", f.sig.ident)),
            Item::Const(c) => v.push(format!("const {}", c.ident)),
            Item::Static(c) => v.push(format!("const {}", c.ident)),
            Item::Impl(im) => {
                let t = type_last_ident(&im.self_ty).unwrap_or_default();
                for m in &im.items {
                    match m {
                        ImplItem::Fn(f) => v.push(format!("fn {}::{}", t, f.sig.ident)),
                        ImplItem::Const(f) => v.push(format!("const {}::{}", t, f.ident)),
                        _ => {}
                    }
                }
            }
            Item::Trait(t) => {
                for m in &t.items {
                    match m {
                        TraitItem::Fn(f) => v.push(format!("fn {}::{}", t.ident, f.sig.ident)),
                        TraitItem::Const(f) => v.push(format!("const {}::{}", t.ident, f.ident)),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    v
}

struct Helper {
    name: String,
    ty: Option<String>,
    f: ItemFn,
}

pub struct Inline {
    helpers: Vec<Helper>,
    consts: Vec<(Option<String>, String, Expr)>,
    selfty: Option<String>,
    pub notes: Vec<String>,
    caller_names: HashSet<String>,
    budget: usize,
    ret: Option<String>,
    fresh: usize,
    changed: bool,
}

pub fn idents_in(t: &impl ToTokens) -> HashSet<String> {
    fn go(t: TokenStream, out: &mut HashSet<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => go(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut s = HashSet::new();
    go(t.to_token_stream(), &mut s);
    s
}

pub fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::Paren(p) => root(&p.expr),
        _ => None,
    }
}

/// the names a pattern-free visit of the block binds
pub fn binds(b: &Block) -> HashSet<String> {
    struct V(HashSet<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let s = p.ident.to_string();
            if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                self.0.insert(s);
            }
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(HashSet::new());
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

struct Rename<'a>(&'a HashMap<String, String>);
impl<'a> VisitMut for Rename<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = Ident::new(n, p.ident.span());
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident().cloned() {
            if let Some(n) = self.0.get(&i.to_string()) {
                let id = Ident::new(n, i.span());
                p.path = parse_quote!(#id);
            }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let t = std::mem::take(&mut m.tokens);
        m.tokens = ren_tokens(t, self.0);
    }
}
fn ren_tokens(t: TokenStream, map: &HashMap<String, String>) -> TokenStream {
    t.into_iter()
        .map(|x| match x {
            proc_macro2::TokenTree::Ident(i) => match map.get(&i.to_string()) {
                Some(n) => Ident::new(n, i.span()).into(),
                None => i.into(),
            },
            proc_macro2::TokenTree::Group(g) => proc_macro2::Group::new(g.delimiter(), ren_tokens(g.stream(), map)).into(),
            x => x,
        })
        .collect()
}

/// puts `place` (for a parameter bound to a borrow of it) or a value in place of a variable
pub struct Put<'a> {
    pub name: &'a str,
    pub value: Expr,         // what a bare occurrence becomes
    pub place: Option<Expr>, // what `*p`, `p.f`, `p[i]` and `p.m()` become
    pub bad: bool,
}
impl<'a> Put<'a> {
    fn is(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.is_ident(self.name),
            Expr::Paren(p) => self.is(&p.expr),
            _ => false,
        }
    }
}
impl<'a> VisitMut for Put<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(pl) = self.place.clone() {
            match e {
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) => {
                    *e = pl;
                    return;
                }
                Expr::Field(f) if self.is(&f.base) => {
                    *f.base = pl;
                    return;
                }
                Expr::Index(i) if self.is(&i.expr) => {
                    *i.expr = pl;
                    self.visit_expr_mut(&mut i.index);
                    return;
                }
                Expr::MethodCall(m) if self.is(&m.receiver) => {
                    *m.receiver = pl;
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
                _ => {}
            }
        }
        if matches!(e, Expr::Path(_)) && self.is(e) {
            *e = self.value.clone();
            return;
        }
        if let Expr::Struct(s) = e {
            for f in s.fields.iter_mut() {
                f.colon_token = Some(Default::default());
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if idents_in(&m.tokens).contains(self.name) {
            if let Expr::Path(p) = &self.value {
                if let (Some(i), None) = (p.path.get_ident(), &self.place) {
                    let map = [(self.name.to_string(), i.to_string())].into_iter().collect();
                    let t = std::mem::take(&mut m.tokens);
                    m.tokens = ren_tokens(t, &map);
                    return;
                }
            }
            self.bad = true;
        }
    }
}

struct Flow {
    ret: bool,
    ret_in_loop: bool,
    q: bool,
    depth: usize,
}
impl<'a> syn::visit::Visit<'a> for Flow {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret = true;
        self.ret_in_loop |= self.depth > 0;
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'a ExprTry) {
        self.q = true;
        syn::visit::visit_expr_try(self, r);
    }
    fn visit_expr_while(&mut self, r: &'a ExprWhile) {
        self.depth += 1;
        syn::visit::visit_expr_while(self, r);
        self.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, r: &'a ExprForLoop) {
        self.depth += 1;
        syn::visit::visit_expr_for_loop(self, r);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, r: &'a ExprLoop) {
        self.depth += 1;
        syn::visit::visit_expr_loop(self, r);
        self.depth -= 1;
    }
}
fn flow_stmts(s: &[Stmt]) -> Flow {
    let mut f = Flow { ret: false, ret_in_loop: false, q: false, depth: 0 };
    for x in s {
        syn::visit::Visit::visit_stmt(&mut f, x);
    }
    f
}
fn flow_expr(e: &Expr) -> Flow {
    let mut f = Flow { ret: false, ret_in_loop: false, q: false, depth: 0 };
    syn::visit::Visit::visit_expr(&mut f, e);
    f
}

fn block_of(mut s: Vec<Stmt>, e: Option<Expr>) -> Block {
    if let Some(e) = e {
        s.push(Stmt::Expr(e, None));
    }
    Block { brace_token: Default::default(), stmts: s }
}

/// rewrites early returns into nested if / else; None if the shape is not supported.
/// The result is the statements with the value of the block as a trailing expression (if any).
pub fn no_returns(stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
    let Some(k) = stmts.iter().position(|s| flow_stmts(std::slice::from_ref(s)).ret) else {
        return Some(stmts);
    };
    let mut pre: Vec<Stmt> = stmts[..k].to_vec();
    let rest: Vec<Stmt> = stmts[k + 1..].to_vec();
    match stmts[k].clone() {
        Stmt::Expr(Expr::Return(r), _) => {
            if let Some(e) = r.expr {
                if flow_expr(&e).ret {
                    return None;
                }
                pre.push(Stmt::Expr(*e, None));
            }
            Some(pre)
        }
        Stmt::Expr(Expr::If(i), _) => {
            if flow_expr(&i.cond).ret {
                return None;
            }
            let join = |mut b: Vec<Stmt>| -> Option<Vec<Stmt>> {
                // the branch falls through into the rest unless it always returns
                if let Some(Stmt::Expr(e, semi @ None)) = b.last_mut() {
                    if !rest.is_empty() && !matches!(e, Expr::Return(_)) {
                        *semi = Some(Default::default());
                    }
                }
                b.extend(rest.iter().cloned());
                no_returns(b)
            };
            let a = join(i.then_branch.stmts.clone())?;
            let b = match &i.else_branch {
                None => join(vec![])?,
                Some((_, e)) => match &**e {
                    Expr::Block(b) => join(b.block.stmts.clone())?,
                    e => join(vec![Stmt::Expr(e.clone(), None)])?,
                },
            };
            let (c, a, b) = (&i.cond, block_of(a, None), block_of(b, None));
            pre.push(Stmt::Expr(parse_quote!(if #c #a else #b), None));
            Some(pre)
        }
        Stmt::Expr(Expr::Match(m), _) => {
            if flow_expr(&m.expr).ret || m.arms.iter().any(|a| a.guard.is_some()) {
                return None;
            }
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                let mut b: Vec<Stmt> = match &*a.body {
                    Expr::Block(b) => b.block.stmts.clone(),
                    e => vec![Stmt::Expr(e.clone(), None)],
                };
                if let Some(Stmt::Expr(e, semi @ None)) = b.last_mut() {
                    if !rest.is_empty() && !matches!(e, Expr::Return(_)) {
                        *semi = Some(Default::default());
                    }
                }
                b.extend(rest.iter().cloned());
                let b = block_of(no_returns(b)?, None);
                *a.body = parse_quote!(#b);
                a.comma = Some(Default::default());
            }
            pre.push(Stmt::Expr(Expr::Match(m), None));
            Some(pre)
        }
        _ => None,
    }
}

/// the value of a block whose callers write `h(..)?`: `Ok(v)` becomes v, `Err(e)` returns
fn unwrap_ok(e: Expr) -> Expr {
    match e {
        Expr::Paren(p) => unwrap_ok(*p.expr),
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) => c.args[0].clone(),
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) => parse_quote!(return #c),
        Expr::If(mut i) if i.else_branch.is_some() => {
            let s = std::mem::take(&mut i.then_branch.stmts);
            i.then_branch.stmts = unwrap_last(s);
            let (t, e) = i.else_branch.take().unwrap();
            i.else_branch = Some((t, Box::new(unwrap_ok(*e))));
            Expr::If(i)
        }
        Expr::Block(mut b) => {
            let s = std::mem::take(&mut b.block.stmts);
            b.block.stmts = unwrap_last(s);
            Expr::Block(b)
        }
        Expr::Match(mut m) => {
            for a in m.arms.iter_mut() {
                let e = std::mem::replace(&mut *a.body, parse_quote!(()));
                *a.body = unwrap_ok(e);
                a.comma = Some(Default::default());
            }
            Expr::Match(m)
        }
        e => parse_quote!(#e?),
    }
}
fn unwrap_last(mut s: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(e, None)) = s.pop_if(|x| matches!(x, Stmt::Expr(_, None))) {
        s.push(Stmt::Expr(unwrap_ok(e), None));
    }
    s
}

#[derive(Clone, Copy, PartialEq)]
enum Pos {
    Tail,  // its value is the value of the function
    Try,   // followed by `?`
    Value, // anything else
}

struct Call {
    helper: usize,
    args: Vec<Expr>,
    recv: Option<Expr>,
}

impl Inline {
    /// None if the file has nothing new
    pub fn new(items: &[Item], others: &[(String, Vec<Item>)], file: &str, path: &str, f: &ItemFn) -> Inline {
        let base = file.split('#').next().unwrap();
        let known: HashSet<&str> = KNOWN.lines().filter_map(|l| l.strip_prefix(file).or_else(|| l.strip_prefix(base)).and_then(|r| r.strip_prefix(' '))).collect();
        let selfty = path.rsplit_once("::").map(|(t, _)| t.rsplit(" for ").next().unwrap().trim_start_matches("trait ").to_string());
        let mut helpers = vec![];
        let mut consts = vec![];
        let mut collect = |items: &[Item], known: &HashSet<&str>, free_only: bool| {
            for i in items {
                match i {
                    Item::Fn(f) if !known.contains(format!("fn {}", f.sig.ident).as_str()) => helpers.push(Helper { name: f.sig.ident.to_string(), ty: None, f: f.clone() }),
                    Item::Const(c) if !known.contains(format!("const {}", c.ident).as_str()) => consts.push((None, c.ident.to_string(), typed(&c.ty, &c.expr))),
                    Item::Impl(im) if !free_only => {
                        let t = type_last_ident(&im.self_ty).unwrap_or_default();
                        for m in &im.items {
                            match m {
                                ImplItem::Fn(f) if im.trait_.is_none() && !known.contains(format!("fn {}::{}", t, f.sig.ident).as_str()) => helpers.push(Helper { name: f.sig.ident.to_string(), ty: Some(t.clone()), f: impl_method(f) }),
                                ImplItem::Const(c) if im.trait_.is_none() && !known.contains(format!("const {}::{}", t, c.ident).as_str()) => consts.push((Some(t.clone()), c.ident.to_string(), typed(&c.ty, &c.expr))),
                                _ => {}
                            }
                        }
                    }
                    _ => {}
                }
            }
        };
        collect(items, &known, false);
        for (of, items) in others {
            let known: HashSet<&str> = KNOWN.lines().filter_map(|l| l.strip_prefix(of.as_str()).and_then(|r| r.strip_prefix(' '))).collect();
            collect(items, &known, true);
        }
        for h in helpers.iter_mut() {
            strip_attrs_fn(&mut h.f);
        }
        let ret = match &f.sig.output {
            ReturnType::Type(_, t) => Some(norm_ty(t)),
            _ => None,
        };
        Inline { helpers, consts, selfty, notes: vec![], caller_names: HashSet::new(), budget: 40, ret, fresh: 0, changed: false }
    }
    pub fn run(&mut self, f: &mut ItemFn) {
        self.local_items(f);
        if self.helpers.is_empty() && self.consts.is_empty() {
            return;
        }
        loop {
            self.changed = false;
            self.caller_names = binds(&f.block);
            for i in &f.sig.inputs {
                self.caller_names.extend(idents_in(i));
            }
            let b = std::mem::take(&mut f.block.stmts);
            f.block.stmts = self.stmts(b, true);
            if !self.changed || self.budget == 0 {
                break;
            }
        }
        self.visit_block_mut(&mut f.block);
    }
    /// constants and functions declared inside the body
    fn local_items(&mut self, f: &mut ItemFn) {
        struct L<'a>(&'a mut Inline);
        impl<'a> VisitMut for L<'a> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                for s in std::mem::take(&mut b.stmts) {
                    match s {
                        Stmt::Item(Item::Fn(mut f)) => {
                            strip_attrs_fn(&mut f);
                            self.0.notes.push(format!("local function {}", f.sig.ident));
                            self.0.helpers.insert(0, Helper { name: f.sig.ident.to_string(), ty: None, f });
                        }
                        Stmt::Item(Item::Const(c)) => {
                            self.0.notes.push(format!("local constant {}", c.ident));
                            self.0.consts.insert(0, (None, c.ident.to_string(), typed(&c.ty, &c.expr)));
                        }
                        Stmt::Item(Item::Use(u)) => self.0.notes.push(format!("`{}` inside the body dropped", u.to_token_stream())),
                        s => b.stmts.push(s),
                    }
                }
                visit_mut::visit_block_mut(self, b);
            }
        }
        L(self).visit_item_fn_mut(f);
    }
    fn find(&self, e: &Expr) -> Option<Call> {
        let (e, awaited) = match e {
            Expr::Await(a) => (&*a.base, true),
            Expr::Paren(p) => return self.find(&p.expr),
            e => (e, false),
        };
        let call = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() {
                    return None;
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last()?.clone();
                let ty = if segs.len() >= 2 { Some(segs[segs.len() - 2].clone()) } else { None };
                let ty = match ty.as_deref() {
                    Some("Self") => self.selfty.clone(),
                    Some(t) if t.chars().next().unwrap().is_lowercase() => None,
                    _ => ty,
                };
                let c2: Vec<usize> = (0..self.helpers.len()).filter(|&i| self.helpers[i].name == name && self.helpers[i].ty == ty).collect();
                let h = *c2.first()?;
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let recv = if matches!(self.helpers[h].f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                    let r = args.remove(0);
                    Some(match r {
                        Expr::Reference(r) => *r.expr,
                        r => r,
                    })
                } else {
                    None
                };
                Call { helper: h, args, recv }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let c2: Vec<usize> = (0..self.helpers.len()).filter(|&i| self.helpers[i].name == name && self.helpers[i].ty.is_some() && matches!(self.helpers[i].f.sig.inputs.first(), Some(FnArg::Receiver(_)))).collect();
                if c2.len() != 1 {
                    return None;
                }
                Call { helper: c2[0], args: m.args.iter().cloned().collect(), recv: Some((*m.receiver).clone()) }
            }
            _ => return None,
        };
        let h = &self.helpers[call.helper].f;
        if h.sig.asyncness.is_some() != awaited {
            return None;
        }
        let n = h.sig.inputs.iter().filter(|i| matches!(i, FnArg::Typed(_))).count();
        if n != call.args.len() {
            return None;
        }
        Some(call)
    }
    /// the statements and value of the call, or None if it cannot be put in
    fn expand(&mut self, c: &Call, pos: Pos) -> Option<(Vec<Stmt>, Option<Expr>)> {
        if self.budget == 0 {
            return None;
        }
        let h = self.helpers[c.helper].f.clone();
        let name = self.helpers[c.helper].name.clone();
        let sameself = self.helpers[c.helper].ty == self.selfty;
        let mut body = (*h.block).clone();
        if idents_in(&body).contains(&name) {
            return None; // recursive
        }
        if h.sig.inputs.iter().any(|i| matches!(i, FnArg::Typed(t) if matches!(&*t.ty, Type::ImplTrait(_) | Type::BareFn(_)))) {
            return None;
        }
        let hret = match &h.sig.output {
            ReturnType::Type(_, t) => Some(norm_ty(t)),
            _ => None,
        };
        if idents_in(&body).contains("Self") && !sameself {
            return None;
        }
        // the helper's own locals must not meet the caller's names
        let mut map: HashMap<String, String> = HashMap::new();
        let mut params: Vec<(String, bool, Type)> = vec![];
        for i in &h.sig.inputs {
            if let FnArg::Typed(t) = i {
                let Pat::Ident(p) = &*t.pat else { return None };
                if p.by_ref.is_some() || p.subpat.is_some() {
                    return None;
                }
                params.push((p.ident.to_string(), p.mutability.is_some(), (*t.ty).clone()));
            }
        }
        let outer = binds(&Block { brace_token: Default::default(), stmts: body.stmts.iter().filter_map(|s| match s { Stmt::Local(l) => { let p = &l.pat; Some(parse_quote!(let #p;)) } _ => None }).collect() });
        let argnames: HashSet<String> = c.args.iter().chain(c.recv.iter()).flat_map(|a| idents_in(a)).collect();
        let pnames: HashSet<String> = params.iter().map(|p| p.0.clone()).collect();
        for b in binds(&body) {
            if pnames.contains(&b) {
                // a local that shadows a parameter: substitution would be wrong
                map.insert(b.clone(), format!("{}_h{}", b, self.fresh));
                return None;
            }
            // a `let` of the helper's own block stays visible after it; others only capture arguments
            if (outer.contains(&b) && self.caller_names.contains(&b)) || argnames.contains(&b) {
                map.insert(b.clone(), format!("{}_h{}", b, self.fresh));
            }
        }
        // parameters get names of their own, then what they stand for is put in
        for p in params.iter_mut() {
            if self.caller_names.contains(&p.0) || argnames.contains(&p.0) {
                let n = format!("{}_h{}", p.0, self.fresh);
                map.insert(p.0.clone(), n.clone());
                p.0 = n;
            }
        }
        self.fresh += 1;
        Rename(&map).visit_block_mut(&mut body);
        let mut pre: Vec<Stmt> = vec![];
        // what the calls may change through a borrow must be read before the call
        let mutroots: HashSet<String> = c.args.iter().filter_map(|a| match a { Expr::Reference(r) if r.mutability.is_some() => root(&r.expr), _ => None }).collect();
        let generic: HashSet<String> = h.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        for ((p, mutable, ty), a) in params.iter().zip(&c.args) {
            let mut a = a.clone();
            while let Expr::Paren(x) = a {
                a = *x.expr;
            }
            let direct = !*mutable
                && match &a {
                    Expr::Path(x) => x.path.get_ident().map_or(false, |i| !mutroots.contains(&i.to_string())),
                    Expr::Reference(r) => root(&r.expr).map_or(false, |x| r.mutability.is_some() || !mutroots.contains(&x)),
                    Expr::Lit(l) => matches!(&l.lit, Lit::Int(_) | Lit::Bool(_)),
                    _ => false,
                };
            if direct {
                let place = match &a {
                    Expr::Reference(r) => Some((*r.expr).clone()),
                    _ => None,
                };
                let value = if matches!(a, Expr::Lit(_)) { typed(ty, &a) } else { a.clone() };
                let mut put = Put { name: p, value, place, bad: false };
                put.visit_block_mut(&mut body);
                if put.bad {
                    return None;
                }
            } else {
                let id = Ident::new(p, proc_macro2::Span::call_site());
                let m = if *mutable { Some(quote!(mut)) } else { None };
                let plain = idents_in(ty).is_disjoint(&generic);
                if plain {
                    pre.push(parse_quote!(let #m #id: #ty = #a;));
                } else {
                    pre.push(parse_quote!(let #m #id = #a;));
                }
            }
        }
        if let Some(r) = &c.recv {
            if r.to_token_stream().to_string() != "self" {
                root(r)?;
                let mut put = Put { name: "self", value: r.clone(), place: Some(r.clone()), bad: false };
                // only `self.f` and `self.m()` keep their meaning whatever the receiver's type is
                struct Bare(bool);
                impl<'a> syn::visit::Visit<'a> for Bare {
                    fn visit_expr(&mut self, e: &'a Expr) {
                        match e {
                            Expr::Field(f) if matches!(&*f.base, Expr::Path(p) if p.path.is_ident("self")) => {}
                            Expr::MethodCall(m) if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) => {
                                for a in &m.args {
                                    self.visit_expr(a)
                                }
                            }
                            Expr::Path(p) if p.path.is_ident("self") => self.0 = true,
                            e => syn::visit::visit_expr(self, e),
                        }
                    }
                }
                let mut bare = Bare(false);
                syn::visit::Visit::visit_block(&mut bare, &body);
                if bare.0 {
                    return None;
                }
                put.visit_block_mut(&mut body);
                if put.bad {
                    return None;
                }
            } else if matches!(h.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_none() && r.mutability.is_some()) {
                return None;
            }
        }
        let mut st = body.stmts;
        let fl = flow_stmts(&st);
        let mut pos = pos;
        if pos == Pos::Tail && hret != self.ret {
            pos = Pos::Value;
        }
        match pos {
            Pos::Tail => {}
            Pos::Value => {
                if fl.ret_in_loop || fl.q {
                    return None;
                }
                st = no_returns(st)?;
            }
            Pos::Try => {
                if fl.ret || fl.q {
                    // an error leaves the caller as it left the helper: same error type
                    let err = |t: &Option<String>| t.as_ref().and_then(|t| t.strip_prefix("Result<").map(|t| t.rsplit_once(',').map(|x| x.1.to_string()).unwrap_or(t.to_string())));
                    let (a, b) = (err(&hret), err(&self.ret));
                    if a.is_none() || a != b {
                        return None;
                    }
                }
                if fl.ret_in_loop {
                    return None;
                }
                st = no_returns(st)?;
                st = unwrap_last(st);
            }
        }
        let val = match st.pop() {
            Some(Stmt::Expr(e, None)) => Some(e),
            Some(s) => {
                st.push(s);
                None
            }
            None => None,
        };
        pre.extend(st);
        self.budget -= 1;
        self.changed = true;
        self.notes.push(format!("helper {} put in where it is called", name));
        Some((pre, val))
    }
    fn stmts(&mut self, b: Vec<Stmt>, tail: bool) -> Vec<Stmt> {
        let mut out = vec![];
        let n = b.len();
        for (k, s) in b.into_iter().enumerate() {
            let last = tail && k + 1 == n;
            match s {
                Stmt::Expr(e, semi) => {
                    let (inner, pos) = match &e {
                        Expr::Try(t) => ((*t.expr).clone(), Pos::Try),
                        Expr::Return(r) if r.expr.is_some() => ((**r.expr.as_ref().unwrap()).clone(), Pos::Tail),
                        e => (e.clone(), if last && semi.is_none() { Pos::Tail } else { Pos::Value }),
                    };
                    if let Some(c) = self.find(&inner) {
                        if let Some((st, v)) = self.expand(&c, pos) {
                            out.extend(st);
                            match v {
                                Some(v) if matches!(e, Expr::Return(_)) => out.push(Stmt::Expr(parse_quote!(return #v), semi)),
                                Some(v) => out.push(Stmt::Expr(v, semi)),
                                None if matches!(e, Expr::Return(_)) && !last => return vec![],
                                None => {}
                            }
                            continue;
                        }
                    }
                    let mut e = e;
                    if last && semi.is_none() {
                        self.tail(&mut e);
                    } else {
                        self.visit_expr_mut(&mut e);
                    }
                    out.push(Stmt::Expr(e, semi));
                }
                Stmt::Local(mut l) => {
                    if let Some(init) = &l.init {
                        if init.diverge.is_none() {
                            let (inner, pos) = match &*init.expr {
                                Expr::Try(t) => ((*t.expr).clone(), Pos::Try),
                                e => (e.clone(), Pos::Value),
                            };
                            if let Some(c) = self.find(&inner) {
                                if let Some((st, Some(v))) = self.expand(&c, pos) {
                                    out.extend(st);
                                    let p = &l.pat;
                                    let ret = match &self.helpers[c.helper].f.sig.output {
                                        ReturnType::Type(_, t) if matches!(l.pat, Pat::Ident(_)) && pos == Pos::Value && self.helpers[c.helper].f.sig.generics.params.is_empty() && !matches!(**t, Type::ImplTrait(_) | Type::Reference(_)) && !idents_in(t).contains("Self") => Some((**t).clone()),
                                        _ => None,
                                    };
                                    match ret {
                                        Some(t) => out.push(parse_quote!(let #p: #t = #v;)),
                                        None => out.push(parse_quote!(let #p = #v;)),
                                    }
                                    continue;
                                }
                            }
                        }
                    }
                    self.visit_local_mut(&mut l);
                    out.push(Stmt::Local(l));
                }
                mut s => {
                    self.visit_stmt_mut(&mut s);
                    out.push(s);
                }
            }
        }
        out
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                let s = std::mem::take(&mut i.then_branch.stmts);
                i.then_branch.stmts = self.stmts(s, true);
                if let Some((_, e)) = &mut i.else_branch {
                    self.tail(e);
                }
            }
            Expr::Block(b) => {
                let s = std::mem::take(&mut b.block.stmts);
                b.block.stmts = self.stmts(s, true);
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    self.tail(&mut a.body);
                }
            }
            e => self.visit_expr_mut(e),
        }
    }
}
impl VisitMut for Inline {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let s = std::mem::take(&mut b.stmts);
        b.stmts = self.stmts(s, false);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let (inner, pos) = match &*e {
            Expr::Try(t) => ((*t.expr).clone(), Pos::Try),
            Expr::Return(r) if r.expr.is_some() => ((**r.expr.as_ref().unwrap()).clone(), Pos::Tail),
            e => (e.clone(), Pos::Value),
        };
        if let Some(c) = self.find(&inner) {
            if let Some((st, v)) = self.expand(&c, pos) {
                let isret = matches!(e, Expr::Return(_));
                *e = match v {
                    Some(v) if st.is_empty() && matches!(v, Expr::Path(_) | Expr::Field(_) | Expr::Lit(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Index(_) | Expr::Block(_) | Expr::Paren(_)) => v,
                    Some(v) if st.is_empty() => parse_quote!((#v)),
                    v => {
                        let b = block_of(st, v);
                        parse_quote!(#b)
                    }
                };
                if isret {
                    let x = e.clone();
                    *e = parse_quote!(return #x);
                }
                return;
            }
        }
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let ty = if segs.len() == 2 { Some(if segs[0] == "Self" { self.selfty.clone().unwrap_or_default() } else { segs[0].clone() }) } else { None };
                if segs.len() <= 2 {
                    if let Some((_, n, v)) = self.consts.iter().find(|(t, n, _)| n == segs.last().unwrap() && *t == ty) {
                        self.notes.push(format!("constant {} replaced by its value", n));
                        *e = v.clone();
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// an integer literal takes the type it is declared with
pub fn typed(ty: &Type, e: &Expr) -> Expr {
    let t = norm_ty(ty);
    if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = e {
        if i.suffix().is_empty() && ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].contains(&t.as_str()) {
            let l = LitInt::new(&format!("{}{}", i.base10_digits(), t), i.span());
            return parse_quote!(#l);
        }
        return e.clone();
    }
    match e {
        Expr::Path(_) | Expr::Array(_) | Expr::Call(_) => e.clone(),
        e => parse_quote!((#e)),
    }
}
