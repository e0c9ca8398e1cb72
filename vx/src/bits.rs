//! `bits=T`: every maximal expression built from `&`, `|`, `^` and `!` over at most three simple
//! operands of type T is followed, in ghost code, by its normal form (the disjunction of its
//! minterms, from its truth table), an equation the bit-vector solver discharges.  The proof then
//! depends on the function the expression computes, not on how it is written.
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Bits {
    ty: Type,
    pub marks: Vec<(usize, String)>,
    next: usize,
}

enum B {
    Leaf(usize),
    Not(Box<B>),
    Bin(char, Box<B>, Box<B>),
}

fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.segments.len() == 1,
        Expr::Field(f) => simple(&f.base),
        Expr::Paren(p) => simple(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple(&u.expr),
        Expr::Index(i) => simple(&i.expr) && (simple(&i.index) || matches!(&*i.index, Expr::Lit(_))),
        _ => false,
    }
}

fn parse(e: &Expr, leaves: &mut Vec<Expr>) -> Option<B> {
    match e {
        Expr::Paren(p) => parse(&p.expr, leaves),
        Expr::Group(p) => parse(&p.expr, leaves),
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => Some(B::Not(Box::new(parse(&u.expr, leaves)?))),
        Expr::Binary(b) => {
            let c = match b.op {
                BinOp::BitAnd(_) => '&',
                BinOp::BitOr(_) => '|',
                BinOp::BitXor(_) => '^',
                _ => return None,
            };
            Some(B::Bin(c, Box::new(parse(&b.left, leaves)?), Box::new(parse(&b.right, leaves)?)))
        }
        e if simple(e) => {
            let t = e.to_token_stream().to_string();
            let i = leaves.iter().position(|l| l.to_token_stream().to_string() == t).unwrap_or_else(|| {
                leaves.push(e.clone());
                leaves.len() - 1
            });
            Some(B::Leaf(i))
        }
        _ => None,
    }
}

impl B {
    fn eval(&self, bits: usize) -> bool {
        match self {
            B::Leaf(i) => bits >> i & 1 == 1,
            B::Not(x) => !x.eval(bits),
            B::Bin('&', x, y) => x.eval(bits) & y.eval(bits),
            B::Bin('|', x, y) => x.eval(bits) | y.eval(bits),
            B::Bin(_, x, y) => x.eval(bits) ^ y.eval(bits),
        }
    }
    fn text(&self, v: &[Ident]) -> Expr {
        match self {
            B::Leaf(i) => {
                let x = &v[*i];
                parse_quote!(#x)
            }
            B::Not(x) => {
                let x = x.text(v);
                parse_quote!((!#x))
            }
            B::Bin(c, x, y) => {
                let (x, y) = (x.text(v), y.text(v));
                match c {
                    '&' => parse_quote!((#x & #y)),
                    '|' => parse_quote!((#x | #y)),
                    _ => parse_quote!((#x ^ #y)),
                }
            }
        }
    }
}

/// the disjunction of the minterms, over the variables in the given order
fn normal(b: &B, order: &[usize], v: &[Ident]) -> Expr {
    let n = order.len();
    let mut acc: Option<Expr> = None;
    for m in 0..1usize << n {
        // bit k of m, from the top, is the value of the k-th variable of the order
        let mut bits = 0;
        let mut term: Option<Expr> = None;
        for (k, &i) in order.iter().enumerate() {
            let on = m >> (n - 1 - k) & 1 == 1;
            if on {
                bits |= 1 << i;
            }
            let x = &v[i];
            let lit: Expr = if on { parse_quote!(#x) } else { parse_quote!((!#x)) };
            term = Some(match term {
                None => lit,
                Some(t) => parse_quote!((#t & #lit)),
            });
        }
        if b.eval(bits) {
            let t = term.unwrap();
            acc = Some(match acc {
                None => t,
                Some(a) => parse_quote!((#a | #t)),
            });
        }
    }
    acc.unwrap_or_else(|| {
        let x = &v[0];
        parse_quote!((#x ^ #x))
    })
}

impl Bits {
    /// returns the ghost text of every marker `__vp_mark!(k)` it introduced, k counting from `next`
    pub fn run(f: &mut ItemFn, ty: &str, next: usize) -> Vec<(usize, String)> {
        let mut b = Bits { ty: parse_str(ty).unwrap(), marks: vec![], next };
        b.visit_block_mut(&mut f.block);
        b.marks
    }
}
impl VisitMut for Bits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Binary(_) | Expr::Unary(_) | Expr::Paren(_)) {
            let mut leaves = vec![];
            if let Some(b) = parse(e, &mut leaves) {
                if leaves.len() >= 2 && leaves.len() <= 3 && matches!(strip(e), Expr::Binary(_) | Expr::Unary(_)) {
                    let n = proc_macro2::Literal::usize_unsuffixed(self.next);
                    let v: Vec<Ident> = (0..leaves.len()).map(|i| Ident::new(&format!("vp_bit{}", i), proc_macro2::Span::call_site())).collect();
                    let t = &self.ty;
                    let mut out = quote!();
                    for (x, l) in v.iter().zip(&leaves) {
                        out.extend(quote!(let #x: #t = #l;));
                    }
                    let x = b.text(&v);
                    let orders: Vec<Vec<usize>> = if leaves.len() == 2 { vec![vec![0, 1], vec![1, 0]] } else { vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]] };
                    let mut asserts = String::new();
                    for o in orders {
                        let n = normal(&b, &o, &v);
                        asserts.push_str(&format!("assert({} == {}) by(bit_vector); ", x.to_token_stream(), n.to_token_stream()));
                    }
                    self.marks.push((self.next, format!("proof {{ {} }}", asserts)));
                    self.next += 1;
                    *e = parse_quote!({ #out __vp_mark!(#n); #x });
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
