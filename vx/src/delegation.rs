//! `vx --delegation EXPANDED.rs LABEL OUT.rs META.json [EXPANDED.rs LABEL ..]`
//! Takes the forwarding implementations the attribute macro generated (as the compiler expands them from
//! the current source), keeps traits, generics and bodies, and gives every forwarded method the contract
//! "one call of the operation of the same name on the type delegated to, with the same arguments in the same
//! order, result unchanged".  Dropped: bounds other than those of the generated traits, attributes, provided
//! methods (the macro does not forward them); a boxed future becomes the opaque type Fut of its output.
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::HashSet;
use std::fs;
use syn::*;

fn flat(items: Vec<Item>, path: &str, out: &mut Vec<(String, Vec<Item>)>) {
    let mut here = vec![];
    for i in items {
        match i {
            Item::Mod(m) => {
                if let Some((_, it)) = m.content {
                    flat(it, &format!("{}{}::", path, m.ident), out)
                }
            }
            i => here.push(i),
        }
    }
    out.push((path.to_string(), here));
}
fn boxed_future(t: &Type) -> Option<Type> {
    fn arg(t: &Type, n: &str) -> Option<Type> {
        if let Type::Path(p) = t {
            let l = p.path.segments.last()?;
            if l.ident == n {
                if let PathArguments::AngleBracketed(a) = &l.arguments {
                    if let Some(GenericArgument::Type(t)) = a.args.first() {
                        return Some(t.clone());
                    }
                }
            }
        }
        None
    }
    let b = arg(&arg(t, "Pin")?, "Box")?;
    if let Type::TraitObject(o) = b {
        for x in &o.bounds {
            if let TypeParamBound::Trait(t) = x {
                let l = t.path.segments.last()?;
                if l.ident == "Future" {
                    if let PathArguments::AngleBracketed(a) = &l.arguments {
                        for g in &a.args {
                            if let GenericArgument::AssocType(x) = g {
                                return Some(x.ty.clone());
                            }
                        }
                    }
                }
            }
        }
    }
    None
}
struct M {
    name: Ident,
    /// type parameters of the method
    tys: Vec<Ident>,
    spec_params: Vec<TokenStream>,
    spec_names: Vec<Ident>,
    call: Vec<TokenStream>,
    /// signature without body, return value named
    sig: TokenStream,
}
fn method(f: &TraitItemFn) -> std::result::Result<M, String> {
    let name = f.sig.ident.clone();
    let mut tys = vec![];
    let mut lts = vec![];
    for g in &f.sig.generics.params {
        match g {
            GenericParam::Type(t) => tys.push(t.ident.clone()),
            GenericParam::Lifetime(l) => lts.push(l.lifetime.clone()),
            _ => return Err(format!("{}: const parameter", name)),
        }
    }
    let (mut sp, mut sn, mut call, mut args) = (vec![], vec![], vec![], vec![]);
    for a in &f.sig.inputs {
        let pt = match a {
            FnArg::Typed(t) => t,
            _ => return Err(format!("{}: receiver", name)),
        };
        let id = match &*pt.pat {
            Pat::Ident(i) => i.ident.clone(),
            _ => return Err(format!("{}: pattern parameter", name)),
        };
        let ty = &*pt.ty;
        args.push(quote!(#id: #ty));
        let mut one = |n: Ident, t: TokenStream, c: TokenStream| {
            sp.push(quote!(#n: #t));
            sn.push(n);
            call.push(c);
        };
        match ty {
            Type::Reference(r) if r.mutability.is_some() => {
                let e = &r.elem;
                one(format_ident!("{}_before", id), quote!(#e), quote!(*old(#id)));
                one(format_ident!("{}_after", id), quote!(#e), quote!(*final(#id)));
            }
            Type::Reference(r) => match &*r.elem {
                Type::Slice(s) => {
                    let e = &s.elem;
                    one(id.clone(), quote!(Seq<#e>), quote!(#id@));
                }
                e => one(id.clone(), quote!(#e), quote!(*#id)),
            },
            t => one(id.clone(), quote!(#t), quote!(#id)),
        }
    }
    let (ret, st, rc) = match &f.sig.output {
        ReturnType::Default => (quote!(()), quote!(()), quote!(result_)),
        ReturnType::Type(_, t) => match (&**t, boxed_future(t)) {
            (_, Some(o)) => (quote!(Fut<#o>), quote!(Fut<#o>), quote!(result_)),
            (Type::Reference(r), _) if r.mutability.is_none() => {
                let e = &r.elem;
                (quote!(#t), quote!(#e), quote!(*result_))
            }
            (t, _) => (quote!(#t), quote!(#t), quote!(result_)),
        },
    };
    sp.push(quote!(result_: #st));
    sn.push(format_ident!("result_"));
    call.push(rc);
    let gen = if lts.is_empty() && tys.is_empty() { quote!() } else { quote!(<#(#lts,)* #(#tys),*>) };
    Ok(M { sig: quote!(fn #name #gen(#(#args),*) -> (result_: #ret)), name, tys, spec_params: sp, spec_names: sn, call })
}
fn generics(g: &Generics, traits: &HashSet<String>) -> (TokenStream, TokenStream) {
    let mut ps = vec![];
    for p in &g.params {
        match p {
            GenericParam::Type(t) => {
                let i = &t.ident;
                ps.push(quote!(#i))
            }
            GenericParam::Lifetime(l) => {
                let i = &l.lifetime;
                ps.push(quote!(#i))
            }
            GenericParam::Const(c) => ps.push(quote!(#c)),
        }
    }
    let mut ws = vec![];
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                for b in &t.bounds {
                    if let TypeParamBound::Trait(x) = b {
                        if traits.contains(&x.path.segments.last().unwrap().ident.to_string()) {
                            let ty = &t.bounded_ty;
                            ws.push(quote!(#ty: #x))
                        }
                    }
                }
            }
        }
    }
    (if ps.is_empty() { quote!() } else { quote!(<#(#ps),*>) }, if ws.is_empty() { quote!() } else { quote!(where #(#ws),*) })
}
/// type arguments naming the trait's own parameters
fn own_args(g: &Generics) -> Vec<TokenStream> {
    g.params
        .iter()
        .map(|p| match p {
            GenericParam::Type(t) => t.ident.to_token_stream(),
            GenericParam::Lifetime(l) => l.lifetime.to_token_stream(),
            GenericParam::Const(c) => c.ident.to_token_stream(),
        })
        .collect()
}
fn trait_text(t: &ItemTrait, ms: &[M], names: &HashSet<String>) -> TokenStream {
    let (g, _) = generics(&t.generics, names);
    let id = &t.ident;
    let mut items = vec![];
    for m in ms {
        let c = format_ident!("called_{}", m.name);
        let (tys, sp, call, sig) = (&m.tys, &m.spec_params, &m.call, &m.sig);
        let (tg, tf) = if tys.is_empty() { (quote!(), quote!()) } else { (quote!(<#(#tys),*>), quote!(::<#(#tys),*>)) };
        items.push(quote!(spec fn #c #tg(#(#sp),*) -> bool; #sig ensures Self::#c #tf(#(#call),*);));
    }
    quote!(pub trait #id #g { #(#items)* })
}
pub fn run(args: &[String]) -> i32 {
    let (out, meta) = (&args[0], &args[1]);
    let mut text = String::from("use vstd::prelude::*;\nverus! {\n/// the future of an operation: opaque, so forwarding can only return it\n#[verifier::external_body] // opaque type, no contract\n#[verifier::reject_recursive_types(S)]\npub struct Fut<S>(core::marker::PhantomData<S>);\npub struct Delegate;\n");
    let (mut errors, mut functions, mut id) = (vec![], vec![], 0usize);
    let mut ntraits = vec![];
    for pair in args[2..].chunks(2) {
        let (path, label) = (&pair[0], &pair[1]);
        let src = fs::read_to_string(path).unwrap_or_default();
        let file = match parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                errors.push(format!("the expansion of {} does not parse: {}", label, e));
                continue;
            }
        };
        let mut mods = vec![];
        flat(file.items, "", &mut mods);
        let mut found = 0;
        for (mp, items) in &mods {
            let find = |n: &str| items.iter().find_map(|i| if let Item::Trait(t) = i { if t.ident == n { Some(t.clone()) } else { None } } else { None });
            for i in items {
                let x = match i {
                    Item::Trait(t) => t,
                    _ => continue,
                };
                let n = x.ident.to_string();
                let (xi, xm, xd) = match (find(&format!("{}Impl", n)), find(&format!("{}Marker", n)), find(&format!("{}Delegate", n))) {
                    (Some(a), Some(b), Some(c)) => (a, b, c),
                    _ => continue,
                };
                found += 1;
                ntraits.push(format!("{}{}{}", label, mp, n));
                let names: HashSet<String> = [n.clone(), format!("{}Impl", n), format!("{}Marker", n), format!("{}Delegate", n)].iter().cloned().collect();
                let req = |t: &ItemTrait| -> std::result::Result<Vec<M>, String> { t.items.iter().filter_map(|i| if let TraitItem::Fn(f) = i { if f.default.is_none() { Some(method(f)) } else { None } } else { None }).collect() };
                let (mx, mi) = match (req(x), req(&xi)) {
                    (Ok(a), Ok(b)) => (a, b),
                    (Err(e), _) | (_, Err(e)) => {
                        errors.push(format!("{}: {}", n, e));
                        continue;
                    }
                };
                let mut body = vec![format!("{}", trait_text(x, &mx, &names)), format!("{}", trait_text(&xi, &mi, &names))];
                let mid = &xm.ident;
                body.push(format!("{}", quote!(pub trait #mid { type Marker; })));
                let (dg, _) = generics(&xd.generics, &names);
                let (did, xid) = (&xd.ident, &x.ident);
                let own = own_args(&x.generics);
                // the associated type as the expansion bounds it
                let assoc = xd.items.iter().find_map(|i| if let TraitItem::Type(t) = i { Some(t.bounds.clone()) } else { None });
                match assoc {
                    Some(b) => body.push(format!("{}", quote!(pub trait #did #dg { type Delegate: #b; }))),
                    None => errors.push(format!("{}: no associated delegate", n)),
                }
                let iid = &xi.ident;
                for (tr, ms, target) in [(n.clone(), &mx, quote!(<P as #iid<#(#own,)* Marker>>)), (format!("{}Impl", n), &mi, quote!(<P::Delegate as #xid<#(#own),*>>))] {
                    let imps: Vec<&ItemImpl> = items
                        .iter()
                        .filter_map(|i| if let Item::Impl(m) = i { Some(m) } else { None })
                        .filter(|m| m.trait_.as_ref().map_or(false, |t| t.1.segments.last().unwrap().ident == tr) && m.self_ty.to_token_stream().to_string() == "P")
                        .collect();
                    if imps.len() != 1 {
                        errors.push(format!("{}: {} generated implementations of {}", n, imps.len(), tr));
                        continue;
                    }
                    let im = imps[0];
                    let (g, w) = generics(&im.generics, &names);
                    let trp = &im.trait_.as_ref().unwrap().1;
                    body.push(format!("impl {} {} for P {} {{", g, trp.to_token_stream(), w));
                    for m in ms.iter() {
                        let f = im.items.iter().find_map(|i| if let ImplItem::Fn(f) = i { if f.sig.ident == m.name { Some(f) } else { None } } else { None });
                        let f = match f {
                            Some(f) => f,
                            None => {
                                errors.push(format!("{}: {} is not forwarded", n, m.name));
                                continue;
                            }
                        };
                        // the implementation's own signature: its parameters may be named differently from the trait's
                        let fm = match method(&TraitItemFn { attrs: vec![], sig: f.sig.clone(), default: None, semi_token: None }) {
                            Ok(m) => m,
                            Err(e) => {
                                errors.push(e);
                                continue;
                            }
                        };
                        let c = format_ident!("called_{}", m.name);
                        let (tys, sp, sn) = (&m.tys, &m.spec_params, &m.spec_names);
                        let (tg, tf) = if tys.is_empty() { (quote!(), quote!()) } else { (quote!(<#(#tys),*>), quote!(::<#(#tys),*>)) };
                        body.push(format!("{}", quote!(open spec fn #c #tg(#(#sp),*) -> bool { #target::#c #tf(#(#sn),*) })));
                        let (sig, block) = (&fm.sig, &f.block);
                        let fname = format!("{}{}{}::{} ({})", label, mp, n, m.name, if tr == n { "the protocol's implementation" } else { "delegate" });
                        id += 1;
                        body.push(format!("//vp-begin {} {}\n{}\n{}\n//vp-end {}", id, fname, sig, block.to_token_stream(), id));
                        functions.push(serde_json::json!({"name": fname, "id": id, "file": format!("expansion of {}", label), "kind": "function", "loops": 0, "loops_without_invariant": 0,
                            "lowerings": ["bounds outside the generated traits dropped", "boxed future as the opaque Fut"]}));
                    }
                    body.push("}".into());
                }
                text.push_str(&format!("pub mod d{} {{ use super::*;\n{}\n}}\n", found + id * 100, body.join("\n")));
            }
        }
        if found == 0 {
            errors.push(format!("no delegated protocol in the expansion of {}", label));
        }
    }
    text.push_str("}\nfn main() {}\n");
    fs::write(out, text).unwrap();
    let m = serde_json::json!({"functions": functions, "errors": errors, "notes": ntraits});
    fs::write(meta, serde_json::to_string_pretty(&m).unwrap()).unwrap();
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("vx: {}", e);
        }
        return 3;
    }
    0
}
