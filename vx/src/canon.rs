//! Loops brought to one shape: a `for` over an integer range.
//!   for p in X.iter_mut() {..}, for (i, p) in X.iter().enumerate() {..}, for (a, b) in X.iter().zip(Y.iter()) {..}
//!     -> for k in 0..X.len() { let p = &X[k]; .. }   (a mutable element stands for X[k] itself)
//!   let mut i = A; while i < B {..; i += 1;}  ->  for i in A..B {..}
//!     when nothing else assigns i, nothing uses it later, B does not change and the body has no continue
//!     (also with `let j = i; i += 1;` as the first two statements: for j in A..B)
//!   loop { if C { break; } .. }  ->  while !C { .. }
//!   for i in (A..B).rev() { X[i] op= .. }  ->  for i in A..B {..}   when the body reads X at i only
//!   let s = &E[a..]; s[x..y], s.len()  ->  E[a + x..a + y], E.len() - a   for a new local s, when E and a stay what they are
//!   while c > 0 {..; c -= 1;}  ->  for _ in 0..c {..}    when the function mentions c nowhere else
use super::*;
use syn::visit::Visit;

pub struct Canon {
    pub notes: Vec<String>,
    known: Vec<String>,
}

enum Base {
    Iter(Expr),
    IterMut(Expr),
    Copied(Expr),
}
enum Chain {
    Base(Base),
    Enumerate(Box<Chain>),
    Zip(Box<Chain>, Box<Chain>),
}

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.segments.len() == 1,
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        _ => false,
    }
}

fn chain(e: &Expr) -> Option<Chain> {
    match e {
        Expr::Paren(p) => chain(&p.expr),
        Expr::Reference(r) if place(&r.expr) => Some(Chain::Base(if r.mutability.is_some() { Base::IterMut((*r.expr).clone()) } else { Base::Iter((*r.expr).clone()) })),
        Expr::MethodCall(m) => match (m.method.to_string().as_str(), m.args.len()) {
            ("iter", 0) if place(&m.receiver) => Some(Chain::Base(Base::Iter((*m.receiver).clone()))),
            ("iter_mut", 0) if place(&m.receiver) => Some(Chain::Base(Base::IterMut((*m.receiver).clone()))),
            ("copied" | "cloned", 0) => match chain(&m.receiver)? {
                Chain::Base(Base::Iter(x)) => Some(Chain::Base(Base::Copied(x))),
                _ => None,
            },
            ("enumerate", 0) => Some(Chain::Enumerate(Box::new(chain(&m.receiver)?))),
            ("zip", 1) => Some(Chain::Zip(Box::new(chain(&m.receiver)?), Box::new(chain(&m.args[0])?))),
            _ => None,
        },
        _ => None,
    }
}

fn bases<'a>(c: &'a Chain, out: &mut Vec<&'a Base>) {
    match c {
        Chain::Base(b) => out.push(b),
        Chain::Enumerate(c) => bases(c, out),
        Chain::Zip(a, b) => {
            bases(a, out);
            bases(b, out);
        }
    }
}

/// the bindings of a pattern: (name, value, place it stands for)
fn bind(p: &Pat, c: &Chain, k: &Ident, index: &mut Option<Ident>, out: &mut Vec<(Pat, Expr, Option<Expr>)>) -> Option<()> {
    let p = match p {
        Pat::Paren(p) => &*p.pat,
        p => p,
    };
    match (c, p) {
        (_, Pat::Wild(_)) => Some(()),
        (Chain::Base(Base::Iter(x)), Pat::Ident(_)) => {
            out.push((p.clone(), parse_quote!(&#x[#k]), None));
            Some(())
        }
        (Chain::Base(Base::Iter(x)), Pat::Reference(r)) => {
            out.push(((*r.pat).clone(), parse_quote!(#x[#k]), None));
            Some(())
        }
        (Chain::Base(Base::Copied(x)), Pat::Ident(_)) => {
            out.push((p.clone(), parse_quote!(#x[#k]), None));
            Some(())
        }
        (Chain::Base(Base::IterMut(x)), Pat::Ident(i)) if i.mutability.is_none() => {
            out.push((p.clone(), parse_quote!(&mut #x[#k]), Some(parse_quote!(#x[#k]))));
            Some(())
        }
        (Chain::Enumerate(c), Pat::Tuple(t)) if t.elems.len() == 2 => {
            match &t.elems[0] {
                Pat::Ident(i) if i.mutability.is_none() => {
                    if index.is_some() {
                        return None;
                    }
                    *index = Some(i.ident.clone());
                }
                Pat::Wild(_) => {}
                _ => return None,
            }
            bind(&t.elems[1], c, k, index, out)
        }
        (Chain::Zip(a, b), Pat::Tuple(t)) if t.elems.len() == 2 => {
            bind(&t.elems[0], a, k, index, out)?;
            bind(&t.elems[1], b, k, index, out)
        }
        _ => None,
    }
}

/// what a loop body does to a variable
struct Uses<'a> {
    name: &'a str,
    assigned: usize,
    used: usize,
    cont: bool,
    brk: bool,
}
impl<'a, 'b> Visit<'b> for Uses<'a> {
    fn visit_expr_assign(&mut self, a: &'b ExprAssign) {
        if inline::root(&a.left).as_deref() == Some(self.name) {
            self.assigned += 1;
        }
        syn::visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'b ExprBinary) {
        if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) && inline::root(&b.left).as_deref() == Some(self.name) {
            self.assigned += 1;
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'b ExprReference) {
        if r.mutability.is_some() && inline::root(&r.expr).as_deref() == Some(self.name) {
            self.assigned += 1;
        }
        syn::visit::visit_expr_reference(self, r);
    }
    fn visit_expr_continue(&mut self, _: &'b ExprContinue) {
        self.cont = true;
    }
    fn visit_expr_break(&mut self, _: &'b ExprBreak) {
        self.brk = true;
    }
    fn visit_ident(&mut self, i: &'b Ident) {
        if i == self.name {
            self.used += 1;
        }
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        if inline::idents_in(&m.tokens).contains(self.name) {
            self.used += 1;
            self.assigned += 1;
        }
    }
}
fn uses(s: &[Stmt], name: &str) -> (usize, usize, bool, bool) {
    let mut u = Uses { name, assigned: 0, used: 0, cont: false, brk: false };
    for x in s {
        u.visit_stmt(x);
    }
    (u.assigned, u.used, u.cont, u.brk)
}

/// literals, constants, variables and their lengths
fn stable(e: &Expr, roots: &mut Vec<String>) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Path(p) => {
            if let Some(i) = p.path.get_ident() {
                roots.push(i.to_string());
            }
            true
        }
        Expr::Paren(p) => stable(&p.expr, roots),
        Expr::Field(f) => stable(&f.base, roots),
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_)) && stable(&b.left, roots) && stable(&b.right, roots),
        Expr::MethodCall(m) => m.method == "len" && m.args.is_empty() && stable(&m.receiver, roots),
        _ => false,
    }
}
fn mutating(s: &[Stmt], name: &str) -> bool {
    // a method other than the plain readers may change its receiver
    struct M<'a>(&'a str, bool);
    impl<'a, 'b> Visit<'b> for M<'a> {
        fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
            if inline::root(&m.receiver).as_deref() == Some(self.0) && !["len", "iter", "is_empty", "clone", "to_vec", "get", "first", "last", "wrapping_add", "rotate_left", "rotate_right"].contains(&m.method.to_string().as_str()) {
                self.1 = true;
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut m = M(name, false);
    for x in s {
        m.visit_stmt(x);
    }
    m.1 || uses(s, name).0 > 0
}

/// while c > 0 {..; c -= 1;}
fn countdown(f: &mut Block, notes: &mut Vec<String>) {
    struct W<'a>(&'a Block, &'a mut Vec<String>);
    impl<'a> VisitMut for W<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let Expr::While(w) = e else { return };
            if w.label.is_some() {
                return;
            }
            let Expr::Binary(c) = &*w.cond else { return };
            let Expr::Path(p) = &*c.left else { return };
            let Some(id) = p.path.get_ident() else { return };
            if !matches!(c.op, BinOp::Gt(_) | BinOp::Ne(_)) || c.right.to_token_stream().to_string() != "0" {
                return;
            }
            let name = id.to_string();
            let Some((last, rest)) = w.body.stmts.split_last() else { return };
            if last.to_token_stream().to_string() != format!("{} -= 1 ;", name) || uses(rest, &name).1 > 0 || uses(rest, &name).2 {
                return;
            }
            // bound once, and mentioned by the condition and the decrement only
            if uses(&self.0.stmts, &name).1 != 3 {
                return;
            }
            self.1.push(format!("while {} > 0, counting down by one -> for _ in 0..{}", name, name));
            *e = parse_quote!(for _ in 0..#id { #(#rest)* });
        }
    }
    let g = f.clone();
    W(&g, notes).visit_block_mut(f);
}

/// the condition that holds when `c` does not
fn negation(c: &Expr) -> Expr {
    match c {
        Expr::Paren(p) => negation(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (*u.expr).clone(),
        Expr::Binary(b) => {
            let (l, r) = (&b.left, &b.right);
            match b.op {
                BinOp::Lt(_) => parse_quote!(#l >= #r),
                BinOp::Le(_) => parse_quote!(#l > #r),
                BinOp::Gt(_) => parse_quote!(#l <= #r),
                BinOp::Ge(_) => parse_quote!(#l < #r),
                BinOp::Eq(_) => parse_quote!(#l != #r),
                BinOp::Ne(_) => parse_quote!(#l == #r),
                _ => parse_quote!(!(#c)),
            }
        }
        _ => parse_quote!(!(#c)),
    }
}
/// loop { if C { break; } .. }
fn breaking(e: &Expr) -> Option<Expr> {
    let (body, label) = match e {
        Expr::Loop(l) => (&l.body, &l.label),
        Expr::While(w) if w.cond.to_token_stream().to_string() == "true" => (&w.body, &w.label),
        _ => return None,
    };
    let (first, rest) = body.stmts.split_first()?;
    let Stmt::Expr(Expr::If(i), _) = first else { return None };
    if i.else_branch.is_some() || matches!(&*i.cond, Expr::Let(_)) || i.then_branch.to_token_stream().to_string().replace(' ', "").trim_matches(|c| c == '{' || c == '}' || c == ';') != "break" {
        return None;
    }
    let c = negation(&i.cond);
    Some(parse_quote!(#label while #c { #(#rest)* }))
}
/// for i in (A..B).rev() whose only effect is on element i of one place, which is read at i only
fn backwards(f: &ExprForLoop) -> Option<Expr> {
    let Expr::MethodCall(m) = &*f.expr else { return None };
    if m.method != "rev" || !m.args.is_empty() || f.label.is_some() {
        return None;
    }
    let mut r = &*m.receiver;
    while let Expr::Paren(p) = r {
        r = &p.expr;
    }
    let Expr::Range(_) = r else { return None };
    let Pat::Ident(i) = &*f.pat else { return None };
    let i = i.ident.to_string();
    let [Stmt::Expr(s, _)] = &f.body.stmts[..] else { return None };
    let (left, right) = match s {
        Expr::Assign(a) => (&*a.left, &*a.right),
        Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::BitXorAssign(_) | BinOp::SubAssign(_)) => (&*b.left, &*b.right),
        _ => return None,
    };
    let Expr::Index(x) = left else { return None };
    if !place(&x.expr) || x.index.to_token_stream().to_string() != i {
        return None;
    }
    // the right-hand side: operators, casts and elements of places; the written place at i only
    fn pure(e: &Expr, written: &str, at: &str, i: &str) -> bool {
        match e {
            Expr::Lit(_) => true,
            Expr::Path(p) => p.path.get_ident().map_or(false, |p| *p != written),
            Expr::Paren(p) => pure(&p.expr, written, at, i),
            Expr::Cast(c) => pure(&c.expr, written, at, i),
            Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::BitXor(_) | BinOp::BitAnd(_) | BinOp::BitOr(_)) && pure(&b.left, written, at, i) && pure(&b.right, written, at, i),
            Expr::Index(x) => (x.to_token_stream().to_string() == at) || (place(&x.expr) && inline::root(&x.expr).map_or(false, |r| r != written) && pure(&x.index, written, at, i)),
            _ => false,
        }
    }
    if !pure(right, &inline::root(&x.expr)?, &x.to_token_stream().to_string(), &i) {
        return None;
    }
    let (p, b) = (&f.pat, &f.body);
    Some(parse_quote!(for #p in #r #b))
}
/// let s = &E[a..]; then s[x..y] is E[a + x..a + y]
struct Tail<'a> {
    name: &'a str,
    of: &'a Expr,
    from: &'a Expr,
}
impl<'a> VisitMut for Tail<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let (of, a) = (self.of, self.from);
        let own = |e: &Expr| matches!(e, Expr::Path(p) if p.path.get_ident().map_or(false, |i| i == self.name));
        match e {
            Expr::Index(x) if own(&x.expr) => match &*x.index {
                Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                    let term = |e: &Option<Box<Expr>>| -> Option<Expr> {
                        e.as_ref().map(|e| match &**e {
                            Expr::Binary(b) if !matches!(b.op, BinOp::Add(_) | BinOp::Mul(_)) => parse_quote!((#e)),
                            Expr::Cast(_) | Expr::Unary(_) => parse_quote!((#e)),
                            e => e.clone(),
                        })
                    };
                    *e = match (term(&r.start), term(&r.end)) {
                        (Some(s), Some(t)) => parse_quote!(#of[#a + #s..#a + #t]),
                        (Some(s), None) => parse_quote!(#of[#a + #s..]),
                        (None, Some(t)) => parse_quote!(#of[#a..#a + #t]),
                        (None, None) => parse_quote!(#of[#a..]),
                    };
                }
                Expr::Range(_) => {}
                k => *e = parse_quote!(#of[#a + (#k)]),
            },
            Expr::MethodCall(m) if m.method == "len" && own(&m.receiver) => *e = parse_quote!((#of.len() - #a)),
            _ => {}
        }
    }
}
fn tails(b: &mut Block, known: &[String], notes: &mut Vec<String>) {
    for k in 0..b.stmts.len() {
        let Stmt::Local(l) = &b.stmts[k] else { continue };
        let Pat::Ident(p) = &l.pat else { continue };
        let name = p.ident.to_string();
        if p.mutability.is_some() || known.contains(&name) {
            continue;
        }
        let Some(Expr::Reference(r)) = l.init.as_ref().map(|i| (*i.expr).clone()) else { continue };
        let Expr::Index(x) = &*r.expr else { continue };
        let Expr::Range(g) = &*x.index else { continue };
        let (Some(from), None, None) = (&g.start, &g.end, &r.mutability) else { continue };
        let mut roots = vec![];
        let rest = &b.stmts[k + 1..];
        let bound = inline::binds(&Block { brace_token: Default::default(), stmts: rest.to_vec() });
        if !place(&x.expr) || !stable(&x.expr, &mut roots) || !stable(from, &mut roots) || bound.contains(&name) || roots.iter().any(|r| bound.contains(r) || mutating(rest, r)) {
            continue;
        }
        let (of, from) = ((*x.expr).clone(), (**from).clone());
        let from: Expr = if matches!(from, Expr::Binary(_)) { parse_quote!((#from)) } else { from };
        for s in &mut b.stmts[k + 1..] {
            Tail { name: &name, of: &of, from: &from }.visit_stmt_mut(s);
        }
        notes.push(format!("elements of {} -> elements of the slice it is the end of", name));
    }
}

impl Canon {
    pub fn run(f: &mut ItemFn, known: Vec<String>) -> Vec<String> {
        let mut c = Canon { notes: vec![], known };
        countdown(&mut f.block, &mut c.notes);
        c.visit_block_mut(&mut f.block);
        c.notes
    }
    fn whiles(&mut self, b: &mut Block) {
        let mut k = 0;
        while k < b.stmts.len() {
            let Some((id, hi, body)) = (match &b.stmts[k] {
                Stmt::Expr(Expr::While(w), _) if w.label.is_none() => match &*w.cond {
                    Expr::Binary(c) if matches!(c.op, BinOp::Lt(_) | BinOp::Ne(_)) => match &*c.left {
                        Expr::Path(p) if p.path.get_ident().is_some() => Some((p.path.get_ident().unwrap().clone(), (*c.right).clone(), w.body.stmts.clone(), matches!(c.op, BinOp::Ne(_)))),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            })
            .filter(|x| !x.3)
            .map(|x| (x.0, x.1, x.2)) else {
                k += 1;
                continue;
            };
            let name = id.to_string();
            let done = (|| -> Option<()> {
                let j = (0..k).rev().find(|&j| matches!(&b.stmts[j], Stmt::Local(l) if matches!(&l.pat, Pat::Ident(p) if p.ident == id && p.mutability.is_some()) || matches!(&l.pat, Pat::Type(t) if matches!(&*t.pat, Pat::Ident(p) if p.ident == id && p.mutability.is_some()))))?;
                let Stmt::Local(l) = &b.stmts[j] else { return None };
                let lo = (*l.init.as_ref()?.expr).clone();
                let ty = match &l.pat {
                    Pat::Type(t) => Some((*t.ty).clone()),
                    _ => None,
                };
                let mut lr = vec![];
                if !stable(&lo, &mut lr) {
                    return None;
                }
                // between the two, and after the loop, nothing mentions it; A is still what it was
                if uses(&b.stmts[j + 1..k], &name).1 > 0 || uses(&b.stmts[k + 1..], &name).1 > 0 || lr.iter().any(|r| mutating(&b.stmts[j + 1..k], r)) {
                    return None;
                }
                let (last, rest) = body.split_last()?;
                // let j = i; i += 1; ..
                if let [Stmt::Local(first), inc, rest @ ..] = &body[..] {
                    if let (Pat::Ident(j), Some(v)) = (&first.pat, &first.init) {
                        let mut roots = vec![];
                        if j.mutability.is_none() && v.diverge.is_none() && v.expr.to_token_stream().to_string() == name && inc.to_token_stream().to_string() == format!("{} += 1 ;", name)
                            && uses(rest, &name).1 == 0 && stable(&hi, &mut roots) && !roots.iter().any(|r| *r == name || mutating(rest, r)) {
                            let lo: Expr = match (&ty, &lo) {
                                (Some(t), Expr::Lit(_)) => inline::typed(t, &lo),
                                _ => lo.clone(),
                            };
                            let j = &j.ident;
                            b.stmts[k] = Stmt::Expr(parse_quote!(for #j in #lo..#hi { #(#rest)* }), None);
                            self.notes.push(format!("while {} < B, counting up by one -> for {} in A..B", name, j));
                            return Some(());
                        }
                    }
                }
                let Stmt::Expr(Expr::Binary(inc), Some(_)) = last else { return None };
                if !matches!(inc.op, BinOp::AddAssign(_)) || inline::root(&inc.left).as_deref() != Some(&name) || inc.right.to_token_stream().to_string() != "1" {
                    return None;
                }
                let (a, _, cont, _) = uses(rest, &name);
                if a > 0 || cont {
                    return None;
                }
                let mut roots = vec![];
                if !stable(&hi, &mut roots) || roots.iter().any(|r| *r == name || mutating(rest, r)) {
                    return None;
                }
                let lo: Expr = match &ty {
                    Some(t) => match &lo {
                        Expr::Lit(_) => inline::typed(t, &lo),
                        _ => lo,
                    },
                    None => lo,
                };
                let hi = &hi;
                b.stmts[k] = Stmt::Expr(parse_quote!(for #id in #lo..#hi { #(#rest)* }), None);
                b.stmts.remove(j);
                self.notes.push(format!("while {} < B, counting up by one -> for {} in A..B", name, name));
                Some(())
            })();
            if done.is_none() {
                k += 1;
            }
        }
    }
    fn for_loop(&mut self, e: &ExprForLoop) -> Option<Expr> {
        let c = chain(&e.expr)?;
        if matches!(c, Chain::Base(Base::Iter(_) | Base::Copied(_))) {
            return None;
        }
        let mut bs = vec![];
        bases(&c, &mut bs);
        let mut index = None;
        let mut binds = vec![];
        let k0 = Ident::new("__vp_k", proc_macro2::Span::call_site());
        bind(&e.pat, &c, &k0, &mut index, &mut binds)?;
        let k = index.clone().unwrap_or(k0.clone());
        let mut binds = vec![];
        index = None;
        bind(&e.pat, &c, &k, &mut index, &mut binds)?;
        let xs: Vec<&Expr> = bs.iter().map(|b| match b { Base::Iter(x) | Base::IterMut(x) | Base::Copied(x) => x }).collect();
        // an index that the body shadows or changes would no longer be the position
        let mut body = e.body.clone();
        if inline::binds(&body).contains(&k.to_string()) {
            return None;
        }
        let mut lets: Vec<Stmt> = vec![];
        for (p, v, pl) in binds {
            match pl {
                Some(pl) => {
                    let Pat::Ident(id) = &p else { return None };
                    let name = id.ident.to_string();
                    if inline::binds(&body).contains(&name) {
                        return None;
                    }
                    let mut put = inline::Put { name: &name, value: v, place: Some(pl), bad: false };
                    put.visit_block_mut(&mut body);
                    if put.bad {
                        return None;
                    }
                }
                None => lets.push(parse_quote!(let #p = #v;)),
            }
        }
        let n: Expr = match xs.len() {
            1 => {
                let x = xs[0];
                parse_quote!(#x.len())
            }
            2 => {
                let (x, y) = (xs[0], xs[1]);
                parse_quote!(if #x.len() <= #y.len() { #x.len() } else { #y.len() })
            }
            _ => return None,
        };
        self.notes.push("loop over the elements -> loop over the index".into());
        let st = &body.stmts;
        let label = &e.label;
        if xs.len() == 2 {
            return Some(parse_quote!({ let __vp_n: usize = #n; #label for #k in 0..__vp_n { #(#lets)* #(#st)* } }));
        }
        Some(parse_quote!(#label for #k in 0..#n { #(#lets)* #(#st)* }))
    }
}
impl VisitMut for Canon {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        tails(b, &self.known, &mut self.notes);
        self.whiles(b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = breaking(e) {
            self.notes.push("loop with a break at its start -> while".into());
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(f) = e {
            if let Some(n) = backwards(f) {
                self.notes.push("independent elements, last to first -> first to last".into());
                *e = n;
            }
        }
        if let Expr::ForLoop(f) = e {
            if let Some(n) = self.for_loop(f) {
                *e = n;
            }
        }
    }
}
