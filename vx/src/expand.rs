//! Expansion of a `macro_rules!` definition that generates items, for one symbolic instance.
//!
//! `file#macro(var=TOKENS;var=TOKENS)`: the single rule's body is expanded with the given tokens for
//! its variables: the outermost `$( .. )*` repetitions are expanded once, `mashup!` identifier
//! tables are evaluated, and `$crate::` is dropped.
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use std::collections::HashMap;
use std::str::FromStr;
use syn::*;

pub fn expand_macro_rules(items: &[Item], spec: &str) -> std::result::Result<Vec<Item>, String> {
    let (name, args) = match spec.split_once('(') {
        Some((n, a)) => (n, a.strip_suffix(')').unwrap_or(a)),
        None => (spec, ""),
    };
    let mut vars: HashMap<String, TokenStream> = HashMap::new();
    for a in args.split(';').filter(|s| !s.is_empty()) {
        let (k, v) = a.split_once('=').ok_or("macro argument")?;
        vars.insert(k.into(), TokenStream::from_str(v).map_err(|e| e.to_string())?);
    }
    let mac = items
        .iter()
        .find_map(|i| match i {
            Item::Macro(m) if m.mac.path.is_ident("macro_rules") && m.ident.as_ref().map_or(false, |n| n == name) => Some(m.mac.tokens.clone()),
            _ => None,
        })
        .ok_or_else(|| format!("{} not found", name))?;
    // ( pattern ) => { body } ;   -- one rule
    let tt: Vec<TokenTree> = mac.into_iter().collect();
    let groups: Vec<Group> = tt.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g.clone()) } else { None }).collect();
    if groups.len() != 2 {
        return Err(format!("{} rules instead of one", groups.len() / 2));
    }
    let used = vars_in(groups[0].stream());
    for u in &used {
        if !vars.contains_key(u) {
            return Err(format!("macro variable ${} has no instance", u));
        }
    }
    let body = subst(groups[1].stream(), &vars)?;
    // mashup tables
    let mut table: Vec<(String, String, Ident)> = vec![]; // macro name, key, value
    let mut rest: Vec<TokenTree> = vec![];
    let b: Vec<TokenTree> = body.into_iter().collect();
    let mut i = 0;
    while i < b.len() {
        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (b.get(i), b.get(i + 1), b.get(i + 2)) {
            if id == "mashup" && p.as_char() == '!' {
                parse_mashup(g.stream(), &mut table)?;
                i += 3;
                continue;
            }
        }
        rest.push(b[i].clone());
        i += 1;
    }
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < rest.len() {
        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (rest.get(i), rest.get(i + 1), rest.get(i + 2)) {
            if p.as_char() == '!' {
                let m = id.to_string();
                let keys: Vec<(String, Ident)> = table.iter().filter(|(n, _, _)| *n == m).map(|(_, k, v)| (k.clone(), v.clone())).collect();
                if keys.is_empty() {
                    return Err(format!("unknown inner macro {}", m));
                }
                out.extend(mash(g.stream(), &keys));
                i += 3;
                continue;
            }
        }
        out.extend(std::iter::once(rest[i].clone()));
        i += 1;
    }
    let f: File = parse2(out.clone()).map_err(|e| format!("expansion does not parse: {}", e))?;
    Ok(f.items)
}

fn vars_in(t: TokenStream) -> Vec<String> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = vec![];
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Group(g) => out.extend(vars_in(g.stream())),
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    out.push(id.to_string());
                }
            }
            _ => {}
        }
    }
    out
}

/// substitute variables; `$( .. ) sep? */+/?` is expanded once
fn subst(t: TokenStream, vars: &HashMap<String, TokenStream>) -> std::result::Result<TokenStream, String> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1) {
                Some(TokenTree::Ident(id)) if id == "crate" => {
                    // `$crate::a::b::Name` -> `Name`'s path inside the crate, kept as `crate::a::b::Name`
                    out.extend(std::iter::once(TokenTree::Ident(Ident::new("crate", Span::call_site()))));
                    i += 2;
                }
                Some(TokenTree::Ident(id)) => {
                    let s = vars.get(&id.to_string()).ok_or_else(|| format!("macro variable ${} has no instance", id))?;
                    out.extend(s.clone());
                    i += 2;
                }
                Some(TokenTree::Group(g)) => {
                    out.extend(subst(g.stream(), vars)?);
                    i += 2;
                    // separator and repetition operator
                    while let Some(TokenTree::Punct(p)) = v.get(i) {
                        let c = p.as_char();
                        i += 1;
                        if c == '*' || c == '+' || c == '?' {
                            break;
                        }
                    }
                }
                _ => return Err("stray $".into()),
            },
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst(g.stream(), vars)?);
                n.set_span(g.span());
                out.extend(std::iter::once(TokenTree::Group(n)));
                i += 1;
            }
            t => {
                out.extend(std::iter::once(t.clone()));
                i += 1;
            }
        }
    }
    Ok(out)
}

fn parse_mashup(t: TokenStream, table: &mut Vec<(String, String, Ident)>) -> std::result::Result<(), String> {
    // NAME [ key ] = A B C ;
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        let (TokenTree::Ident(n), Some(TokenTree::Group(k))) = (&v[i], v.get(i + 1)) else { return Err("mashup! entry".into()) };
        if k.delimiter() != Delimiter::Bracket {
            return Err("mashup! key".into());
        }
        i += 3; // name, key, =
        let mut s = String::new();
        while i < v.len() {
            if matches!(&v[i], TokenTree::Punct(p) if p.as_char() == ';') {
                break;
            }
            s.push_str(&v[i].to_string());
            i += 1;
        }
        i += 1;
        table.push((n.to_string(), k.stream().to_string(), Ident::new(&s, Span::call_site())));
    }
    Ok(())
}

fn mash(t: TokenStream, keys: &[(String, Ident)]) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    'o: while i < v.len() {
        for (k, id) in keys {
            let n = TokenStream::from_str(k).map(|s| s.into_iter().count()).unwrap_or(0);
            if n > 0 && i + n <= v.len() {
                let s: TokenStream = v[i..i + n].iter().cloned().collect();
                if s.to_string() == *k {
                    out.extend(std::iter::once(TokenTree::Ident(id.clone())));
                    i += n;
                    continue 'o;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), mash(g.stream(), keys));
                n.set_span(g.span());
                out.extend(std::iter::once(TokenTree::Group(n)));
            }
            t => out.extend(std::iter::once(t.clone())),
        }
        i += 1;
    }
    out
}
