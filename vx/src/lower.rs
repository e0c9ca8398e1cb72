//! Lowerings: mechanical, semantics-preserving rewrites into the subset Verus accepts.
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Lower {
    pub notes: Vec<String>,
    pub errors: Vec<String>,
    subs: Vec<(String, String)>,
    opts: HashMap<String, String>,
}

impl Lower {
    pub fn new(opts: &HashMap<String, String>, subs: &[(String, String)]) -> Lower {
        Lower { notes: vec![], errors: vec![], subs: subs.to_vec(), opts: opts.clone() }
    }
    pub fn note(&mut self, s: &str) {
        if !self.notes.iter().any(|n| n == s) {
            self.notes.push(s.to_string());
        }
    }
    pub fn run(&mut self, f: &mut ItemFn) {
        if let (Some(n), Some(w)) = (self.opts.get("droptype").cloned(), self.opts.get("word").cloned()) {
            // instantiate one generic word type; the callers' turbofish is checked by `monocall`
            let g = std::mem::take(&mut f.sig.generics.params);
            f.sig.generics.params = g.into_iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == n)).collect();
            let mut t = TypeSub { subs: vec![(n.clone(), w.clone())], hit: vec![false] };
            t.visit_item_fn_mut(f);
            self.notes.push(format!("type parameter {} instantiated with {}", n, w));
        }
        if let Some(FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                struct S;
                impl VisitMut for S {
                    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                        if p.path.is_ident("self") {
                            *p = parse_quote!(vp_self);
                        }
                    }
                }
                S.visit_block_mut(&mut f.block);
                f.block.stmts.insert(0, parse_quote!(let mut vp_self = self;));
                self.note("mut self -> self, moved to a mutable local");
            }
        }
        self.visit_item_fn_mut(f);
        let subs = self.subs.clone();
        if !subs.is_empty() {
            let mut t = TypeSub { subs: subs.iter().map(|(a, b)| (norm(a), b.clone())).collect(), hit: vec![false; subs.len()] };
            t.visit_item_fn_mut(f);
            self.notes.push(format!("type/path substitutions: {}", subs.iter().map(|(a, b)| format!("{} => {}", a, b)).collect::<Vec<_>>().join("; ")));
        }
    }
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub struct TypeSub {
    pub subs: Vec<(String, String)>,
    pub hit: Vec<bool>,
}
impl TypeSub {
    fn look(&mut self, s: &str) -> Option<String> {
        for (i, (a, b)) in self.subs.iter().enumerate() {
            if *a == s {
                self.hit[i] = true;
                return Some(b.clone());
            }
            // `A::` replaces a path prefix
            if a.ends_with("::") {
                if let Some(r) = s.strip_prefix(a.as_str()) {
                    self.hit[i] = true;
                    return Some(format!("{}{}", b, r));
                }
            }
        }
        None
    }
}
impl VisitMut for TypeSub {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = norm(&t.to_token_stream().to_string());
        if let Some(b) = self.look(&s) {
            if let Ok(n) = parse_str(&b) {
                *t = n;
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            let s = norm(&p.to_token_stream().to_string());
            if let Some(b) = self.look(&s) {
                if let Ok(n) = parse_str(&b) {
                    *e = n;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_trait_bound_mut(&mut self, e: &mut TraitBound) {
        let s = norm(&e.path.to_token_stream().to_string());
        if let Some(b) = self.look(&s) {
            if let Ok(n) = parse_str(&b) {
                e.path = n;
                return;
            }
        }
        visit_mut::visit_trait_bound_mut(self, e);
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        let s = norm(&e.path.to_token_stream().to_string());
        if let Some(b) = self.look(&s) {
            if let Ok(n) = parse_str(&b) {
                e.path = n;
            }
        }
        visit_mut::visit_expr_struct_mut(self, e);
    }
}

/// an expression without side effects that names a place
pub fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

/// f64::ceil(A as f64 / B as f64) as usize  ->  vp_ceil_div(A, B)
fn ceil_div(e: &Expr) -> Option<Expr> {
    let Expr::Cast(c) = e else { return None };
    if norm(&c.ty.to_token_stream().to_string()) != "usize" {
        return None;
    }
    let Expr::Call(k) = &*c.expr else { return None };
    if norm(&k.func.to_token_stream().to_string()) != "f64::ceil" || k.args.len() != 1 {
        return None;
    }
    let Expr::Binary(b) = &k.args[0] else { return None };
    if !matches!(b.op, BinOp::Div(_)) {
        return None;
    }
    let f = |x: &Expr| -> Option<Expr> {
        match x {
            Expr::Cast(c) if norm(&c.ty.to_token_stream().to_string()) == "f64" => Some((*c.expr).clone()),
            Expr::Paren(p) => match &*p.expr {
                Expr::Cast(c) if norm(&c.ty.to_token_stream().to_string()) == "f64" => Some((*c.expr).clone()),
                _ => None,
            },
            _ => None,
        }
    };
    let (a, b) = (f(&b.left)?, f(&b.right)?);
    Some(parse_quote!(vp_ceil_div(#a, #b)))
}
impl Lower {
    /// X.iter().map(|p| B).collect::<Vec<_>>()  ->  { let mut c = Vec::new(); for i in 0..X.len() { let p = &X[i]; c.push(B); } c }
    fn map_collect(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(c) = e else { return None };
        if c.method != "collect" {
            return None;
        }
        let Expr::MethodCall(m) = &*c.receiver else { return None };
        if m.method != "map" || m.args.len() != 1 {
            return None;
        }
        let Expr::Closure(cl) = &m.args[0] else { return None };
        if cl.inputs.len() != 1 {
            return None;
        }
        let Expr::MethodCall(mut it) = (*m.receiver).clone() else { return None };
        let mut byval = false;
        while (it.method == "copied" || it.method == "cloned") && it.args.is_empty() {
            byval = true;
            let Expr::MethodCall(x) = *it.receiver else { return None };
            it = x;
        }
        if it.method != "iter" || !is_place(&it.receiver) {
            return None;
        }
        let x = &it.receiver;
        let mut p = match &cl.inputs[0] {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        if let Pat::Reference(r) = &p {
            p = (*r.pat).clone();
            byval = true;
        }
        let mut b = cl.body.clone();
        if self.opts.contains_key("derefelem") {
            if let (Pat::Ident(id), false) = (&p, byval) {
                struct D(Ident);
                impl VisitMut for D {
                    fn visit_expr_binary_mut(&mut self, b: &mut ExprBinary) {
                        visit_mut::visit_expr_binary_mut(self, b);
                        for x in [&mut b.left, &mut b.right] {
                            if matches!(&**x, Expr::Path(p) if p.path.is_ident(&self.0)) {
                                let y = x.clone();
                                **x = parse_quote!((*#y));
                            }
                        }
                    }
                }
                D(id.ident.clone()).visit_expr_mut(&mut b);
                self.note("operators on &u8 -> operators on the dereferenced u8");
            }
        }
        self.note("X.iter().map(|p| B).collect() -> index loop pushing B");
        let elem: Expr = if byval { parse_quote!(#x[__vp_i]) } else { parse_quote!(&#x[__vp_i]) };
        let mut auto: Option<Stmt> = None;
        if let (Pat::Ident(id), true) = (&p, bits_only(&b)) {
            // a pure element: the loop invariant says the pushed elements are the mapped ones
            struct S<'a>(&'a Ident, Expr);
            impl<'a> VisitMut for S<'a> {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    match e {
                        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.visit_expr_mut(&mut u.expr),
                        Expr::Path(p) if p.path.is_ident(self.0) => {
                            *e = self.1.clone();
                            return;
                        }
                        _ => {}
                    }
                    if let Expr::Unary(u) = e {
                        if matches!(u.op, UnOp::Deref(_)) {
                            let x = u.expr.clone();
                            *e = *x;
                            return;
                        }
                    }
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            let mut t = (*b).clone();
            let xs: Expr = parse_quote!(vp_view!(#x)[vp_j]);
            S(&id.ident, xs).visit_expr_mut(&mut t);
            let t = t.to_token_stream().to_string().replace(&quote!(vp_view!(#x)).to_string(), &format!("{}@", quote!(#x)));
            let s = format!("    invariant __vp_c@.len() == __vp_i, forall|vp_j: int| 0 <= vp_j < __vp_i ==> __vp_c@[vp_j] == ({}),\n", t);
            auto = Some(parse_quote!(__vp_auto!(#s);));
        }
        Some(parse_quote!({
            let mut __vp_c = Vec::new();
            for __vp_i in 0..#x.len() {
                #auto
                let #p = #elem;
                __vp_c.push(#b);
            }
            __vp_c
        }))
    }
}
fn bits_only(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Path(p) => p.path.segments.len() == 1,
        Expr::Binary(b) => matches!(b.op, BinOp::BitXor(_) | BinOp::BitAnd(_) | BinOp::BitOr(_)) && bits_only(&b.left) && bits_only(&b.right),
        Expr::Unary(u) => bits_only(&u.expr),
        Expr::Paren(p) => bits_only(&p.expr),
        _ => false,
    }
}
fn is_pure(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Binary(b) => compound(&b.op).is_none() && is_pure(&b.left) && is_pure(&b.right),
        Expr::Paren(p) => is_pure(&p.expr),
        e => is_place(e),
    }
}
fn compound(o: &BinOp) -> Option<BinOp> {
    Some(match o {
        BinOp::AddAssign(_) => BinOp::Add(Default::default()),
        BinOp::SubAssign(_) => BinOp::Sub(Default::default()),
        BinOp::MulAssign(_) => BinOp::Mul(Default::default()),
        BinOp::DivAssign(_) => BinOp::Div(Default::default()),
        BinOp::RemAssign(_) => BinOp::Rem(Default::default()),
        BinOp::BitXorAssign(_) => BinOp::BitXor(Default::default()),
        BinOp::BitAndAssign(_) => BinOp::BitAnd(Default::default()),
        BinOp::BitOrAssign(_) => BinOp::BitOr(Default::default()),
        BinOp::ShlAssign(_) => BinOp::Shl(Default::default()),
        BinOp::ShrAssign(_) => BinOp::Shr(Default::default()),
        _ => return None,
    })
}

fn is_int_ty(t: &Type) -> bool {
    matches!(t.to_token_stream().to_string().as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize")
}

impl VisitMut for Lower {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = ceil_div(e) {
            self.note("f64::ceil(a as f64 / b as f64) as usize -> vp_ceil_div(a, b) (contract checked exhaustively on its domain)");
            *e = n;
        }
        if let Some(n) = self.map_collect(e) {
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            // X[i] op= E  ->  X[i] = X[i] op (E)   (X and i without side effects)
            Expr::Binary(b) if compound(&b.op).is_some() => match &*b.left {
                Expr::Index(ix) if is_place(&ix.expr) && is_pure(&ix.index) => {
                    self.note("X[i] op= E -> X[i] = X[i] op (E)");
                    let op = compound(&b.op).unwrap();
                    let (l, r) = (&b.left, &b.right);
                    Some(parse_quote!(#l = #l #op (#r)))
                }
                _ => None,
            },
            Expr::Cast(c) if is_int_ty(&c.ty) && !matches!(&*c.expr, Expr::Lit(_)) => {
                self.note("integer casts marked as truncating (Rust semantics)");
                let (x, t) = (&c.expr, &c.ty);
                // `__vp_trunc! ( (x) as t )` becomes `#[verifier::truncate] ((x) as t)` in the text
                Some(parse_quote!((__vp_trunc!((#x) as #t))))
            }
            Expr::MethodCall(m) if m.method == "wrapping_add" && self.opts.contains_key("wrapref") && m.args.len() == 1 => match &m.args[0] {
                Expr::Reference(r) => {
                    self.note("num::WrappingAdd::wrapping_add(&x) -> inherent wrapping_add(x)");
                    let (rc, x) = (&m.receiver, &r.expr);
                    Some(parse_quote!(#rc.wrapping_add(#x)))
                }
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "into" && self.opts.contains_key("intovec") => {
                self.note("slice.into() to a Vec -> slice.to_vec()");
                let r = &m.receiver;
                Some(parse_quote!(#r.to_vec()))
            }
            Expr::MethodCall(m) if m.method == "deref" && m.args.is_empty() => {
                self.note("vec.deref() -> vec.as_slice()");
                let r = &m.receiver;
                Some(parse_quote!(#r.as_slice()))
            }
            Expr::Reference(r) if r.mutability.is_none() && self.opts.contains_key("slicederef") && matches!(&*r.expr, Expr::Unary(u) if matches!(u.op, UnOp::Deref(_))) => {
                self.note("&*vec -> vec.as_slice()");
                if let Expr::Unary(u) = &*r.expr {
                    let x = &u.expr;
                    Some(parse_quote!(#x.as_slice()))
                } else {
                    None
                }
            }
            Expr::MethodCall(m) if m.method == "concat" && m.args.is_empty() => {
                if let Expr::Macro(mm) = &*m.receiver {
                    if mm.mac.path.is_ident("vec") {
                        let parts = mm.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        match parts {
                            Ok(parts) => {
                                self.note("vec![a, b, ..].concat() -> extend_from_slice of each slice in turn");
                                let mut st: Vec<Stmt> = vec![];
                                for mut q in parts {
                                    self.visit_expr_mut(&mut q);
                                    st.push(parse_quote!(vp_extend(&mut __vp_cat, #q);));
                                }
                                Some(parse_quote!({ let mut __vp_cat = Vec::new(); #(#st)* __vp_cat }))
                            }
                            Err(_) => None,
                        }
                    } else {
                        None
                    }
                } else {
                    self.note("vecs.concat() -> vp_concat(&vecs) (trusted contract)");
                    let r = &m.receiver;
                    Some(parse_quote!(vp_concat(&#r)))
                }
            }
            // X[a..b].try_into().unwrap()
            Expr::MethodCall(m) if m.method == "unwrap" => match &*m.receiver {
                Expr::MethodCall(i) if (i.method == "write_u32" || i.method == "write_u64") && i.turbofish.is_some() && is_place(&i.receiver) => {
                    let t = i.turbofish.as_ref().unwrap().args.to_token_stream().to_string();
                    let e = match t.as_str() { "LittleEndian" => "le", "BigEndian" => "be", _ => "unknown" };
                    self.note("byteorder write_uN::<E>(x).unwrap() on a Vec<u8> -> vp_write_uN_E (trusted contract)");
                    let id = Ident::new(&format!("vp_{}_{}", i.method, e), proc_macro2::Span::call_site());
                    let (rc, a) = (&i.receiver, &i.args);
                    Some(parse_quote!(#id(&mut #rc, #a)))
                }
                Expr::MethodCall(i) if i.method == "try_into" => match &*i.receiver {
                    Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)) => {
                        self.note("slice.try_into().unwrap() -> vp_slice_to_array (panics unless the lengths agree)");
                        let r = &i.receiver;
                        Some(parse_quote!(vp_slice_to_array(&#r)))
                    }
                    _ => None,
                },
                _ => None,
            },
            Expr::Macro(m) if m.mac.path.is_ident("assert") => {
                let c: std::result::Result<Expr, _> = m.mac.parse_body_with(|p: syn::parse::ParseStream| {
                    let e: Expr = p.parse()?;
                    let _: proc_macro2::TokenStream = p.parse()?;
                    Ok(e)
                });
                match c {
                    Ok(c) => {
                        self.note("assert!(c) -> if !(c) { vp_panic() }");
                        let mut c = c;
                        self.visit_expr_mut(&mut c);
                        Some(parse_quote!({ if !(#c) { vp_panic(); } }))
                    }
                    Err(_) => None,
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("assert_eq") || m.mac.path.is_ident("assert_ne") => {
                let eq = m.mac.path.is_ident("assert_eq");
                match m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    Ok(p) if p.len() >= 2 => {
                        let (mut a, mut b) = (p[0].clone(), p[1].clone());
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        self.note("assert_eq!(a, b) -> if !(a == b) { vp_panic() }");
                        Some(if eq { parse_quote!({ if !(#a == #b) { vp_panic(); } }) } else { parse_quote!({ if #a == #b { vp_panic(); } }) })
                    }
                    _ => None,
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("panic") => Some(parse_quote!(vp_panic())),
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
    fn visit_expr_for_loop_mut(&mut self, e: &mut ExprForLoop) {
        // for (i, x) in E.iter().enumerate() { B }  ->  for i in 0..E.len() { let x = &E[i]; B }
        if let Expr::MethodCall(en) = &*e.expr {
            if en.method == "enumerate" {
                if let Expr::MethodCall(it) = &*en.receiver {
                    if it.method == "iter" && is_place(&it.receiver) {
                        if let Pat::Tuple(t) = &*e.pat {
                            if t.elems.len() == 2 {
                                if let Pat::Ident(i) = &t.elems[0] {
                                    let (i, x, r) = (i.clone(), t.elems[1].clone(), it.receiver.clone());
                                    self.note("for (i, x) in E.iter().enumerate() -> for i in 0..E.len() { let x = &E[i]; .. }");
                                    e.body.stmts.insert(0, parse_quote!(let #x = &#r[#i];));
                                    e.pat = Box::new(Pat::Ident(i));
                                    e.expr = Box::new(parse_quote!(0..#r.len()));
                                }
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_for_loop_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            let semi = m.semi_token;
            *s = Stmt::Expr(e, semi);
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_call_mut(&mut self, e: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, e);
        let f = norm(&e.func.to_token_stream().to_string());
        if let Some(mc) = self.opts.get("monocall").cloned() {
            let (name, ty) = mc.split_once(':').unwrap();
            if let Expr::Path(p) = &mut *e.func {
                let last = p.path.segments.last_mut().unwrap();
                if last.ident == name {
                    let mut ok = false;
                    if let PathArguments::AngleBracketed(a) = &mut last.arguments {
                        if let Some(GenericArgument::Type(t)) = a.args.first() {
                            if t.to_token_stream().to_string() == ty {
                                let rest: Vec<_> = a.args.iter().skip(1).cloned().collect();
                                a.args = rest.into_iter().collect();
                                ok = true;
                            }
                        }
                    }
                    if !ok {
                        self.errors.push(format!("call of {} is not instantiated with {}", name, ty));
                    }
                }
            }
        }
        for t in ["u32", "u64"] {
            if f == format!("{}::from_le_bytes", t) {
                self.note("uN::from_le_bytes -> vp_uN_from_le_bytes (trusted contract)");
                let id = Ident::new(&format!("vp_{}_from_le_bytes", t), proc_macro2::Span::call_site());
                *e.func = parse_quote!(#id);
            }
        }
        let _ = quote!();
    }
}

#[allow(dead_code)]
pub fn opt(l: &Lower, k: &str) -> bool {
    l.opts.contains_key(k)
}
