//! vx: mechanical extraction of functions from /repo into Verus input files.
//!
//! usage: vx <template> <repo root> <out.rs> <meta.json>
//!
//! A template is Verus text with directives (lines starting with `//@`).  Every function body in
//! the output is produced from the syntax tree of the file in /repo on this run; templates only
//! supply contracts, invariants, ghost code and the names of what to extract.
mod bits;
mod canon;
mod delegation;
mod chain;
mod lower;
mod expand;
mod inline;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const BINDERS: &str = include_str!("../binders.txt");

pub struct Src {
    pub items: Vec<Item>,
}

#[derive(Default)]
struct FnDir {
    file: String,
    path: String,
    opts: HashMap<String, String>,
    spec: String,
    attrs: String,
    loops: BTreeMap<usize, String>,
    loop_ghosts: BTreeMap<usize, String>,
    closures: BTreeMap<usize, String>,
    at: Vec<(String, String)>,
    subs: Vec<(String, String)>,
    textsubs: Vec<(String, String)>,
    binders: Option<Vec<String>>,
    params: HashMap<String, String>,
    drops: Vec<String>,
    elems: HashMap<usize, String>,
}

#[derive(Default)]
pub struct Meta {
    functions: Vec<serde_json::Value>,
    errors: Vec<String>,
    notes: Vec<String>,
}

struct Cx {
    repo: PathBuf,
    tdir: PathBuf,
    cache: HashMap<String, Src>,
    meta: Meta,
    bodies: Vec<(String, String)>, // (id, rust text to format)
    marks: Vec<(String, String)>,  // marker id -> text
    invs: Vec<(String, String)>,
    clos: Vec<(String, String)>,
    next: usize,
    out: String,
    aliases: HashMap<String, String>,
    gsubs: Vec<(String, String)>,
    gargs: HashMap<String, Vec<usize>>,
    contracts: Option<String>,
}

/// `//@garg T i j`: keep only the i-th and j-th generic arguments of T (the others are opaque types)
struct GArg<'a>(&'a HashMap<String, Vec<usize>>);
impl<'a> GArg<'a> {
    fn path(&self, p: &mut syn::Path) {
        for s in p.segments.iter_mut() {
            if let Some(keep) = self.0.get(&s.ident.to_string()) {
                if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                    let old = std::mem::take(&mut a.args);
                    a.args = old.into_iter().enumerate().filter(|(i, _)| keep.contains(i)).map(|(_, x)| x).collect();
                    if a.args.is_empty() {
                        s.arguments = PathArguments::None;
                    }
                }
            }
        }
    }
}
impl<'a> VisitMut for GArg<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        self.path(p);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 6 && a[1] == "--delegation" {
        std::process::exit(delegation::run(&a[2..]));
    }
    if a.len() >= 3 && a[1] == "--list-fns" {
        // the functions and constants of the tree, for known.txt: root, then further "file#macro" names
        let mut cx = Cx::new("/", &a[2]);
        let mut files = vec![];
        rs_files(&PathBuf::from(&a[2]), Path::new(""), &mut files);
        files.extend(a[3..].iter().cloned());
        for f in files {
            match cx.load(&f) {
                Ok(s) => {
                    for n in inline::names_of(&s.items) {
                        println!("{} {}", f, n);
                    }
                }
                Err(e) => eprintln!("{}", e),
            }
        }
        return;
    }
    if a.len() == 4 && a[1] == "--binders" {
        // debugging aid: print the binder list of a function
        let mut cx = Cx::new("/", &a[2]);
        let (f, p) = a[3].split_once(' ').unwrap();
        let func = cx.find_fn(f, p).expect("fn");
        println!("{}", binders_of(&func).join(" "));
        return;
    }
    if a.len() == 4 && a[1] == "--verbatim" {
        // print the verbatim token text of a function or item: "<file> <path>"
        let mut cx = Cx::new("/", &a[2]);
        let (f, p) = a[3].split_once(' ').unwrap();
        if let Some(func) = cx.find_fn(f, p) {
            let mut func = func;
            strip_attrs_fn(&mut func);
            println!("{}", func.to_token_stream());
        } else if let Some(it) = cx.find_item(f, p) {
            println!("{}", it.to_token_stream());
        } else {
            eprintln!("not found");
            std::process::exit(3);
        }
        return;
    }
    let tpl = PathBuf::from(&a[1]);
    let mut cx = Cx::new(tpl.parent().unwrap().to_str().unwrap(), &a[2]);
    let text = fs::read_to_string(&tpl).expect("template");
    cx.process(&text);
    let out = cx.finish();
    fs::write(&a[3], out).unwrap();
    let m = serde_json::json!({"functions": cx.meta.functions, "errors": cx.meta.errors, "notes": cx.meta.notes});
    fs::write(&a[4], serde_json::to_string_pretty(&m).unwrap()).unwrap();
    if !cx.meta.errors.is_empty() {
        for e in &cx.meta.errors {
            eprintln!("vx: {}", e);
        }
        std::process::exit(3);
    }
}

fn rs_files(root: &Path, rel: &Path, out: &mut Vec<String>) {
    let Ok(d) = fs::read_dir(root.join(rel)) else { return };
    let mut v: Vec<_> = d.filter_map(|e| e.ok()).collect();
    v.sort_by_key(|e| e.file_name());
    for e in v {
        let n = e.file_name().to_string_lossy().to_string();
        let r = rel.join(&n);
        if e.path().is_dir() {
            if !n.starts_with('.') && !["target", "tests", "benches", "examples"].contains(&n.as_str()) {
                rs_files(root, &r, out);
            }
        } else if n.ends_with(".rs") {
            out.push(r.to_string_lossy().to_string());
        }
    }
}

fn strip_attrs_fn(f: &mut ItemFn) {
    struct S;
    impl VisitMut for S {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
    }
    S.visit_item_fn_mut(f);
}

pub fn type_last_ident(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => type_last_ident(&r.elem),
        _ => None,
    }
}

fn norm_ty(t: &Type) -> String {
    lower::norm(&t.to_token_stream().to_string())
}

fn impl_method(i: &ImplItemFn) -> ItemFn {
    ItemFn { attrs: vec![], vis: i.vis.clone(), sig: i.sig.clone(), block: Box::new(i.block.clone()) }
}

pub fn binders_of(f: &ItemFn) -> Vec<String> {
    struct B(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let s = p.ident.to_string();
            // constants and unit variants are written in upper case or camel case
            if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                self.0.push(s);
            }
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut b = B(vec![]);
    for i in &f.sig.inputs {
        if let FnArg::Typed(t) = i {
            syn::visit::Visit::visit_pat(&mut b, &t.pat);
        }
    }
    syn::visit::Visit::visit_block(&mut b, &f.block);
    b.0
}

fn word_replace(text: &str, map: &HashMap<String, String>) -> String {
    let mut out = String::new();
    let mut cur = String::new();
    let mut prev_dot = false; // do not rename fields
    let flush = |cur: &mut String, out: &mut String, prev_dot: bool| {
        if !cur.is_empty() {
            match map.get(cur.as_str()) {
                Some(r) if !prev_dot => out.push_str(r),
                _ => out.push_str(cur),
            }
            cur.clear();
        }
    };
    let mut last = ' ';
    for c in text.chars() {
        if c.is_alphanumeric() || c == '_' {
            if cur.is_empty() {
                prev_dot = last == '.' ;
            }
            cur.push(c);
        } else {
            flush(&mut cur, &mut out, prev_dot);
            // `..x` is a range, not a field
            if c == '.' && last == '.' {
                last = ' ';
            } else {
                last = c;
            }
            out.push(c);
            continue;
        }
        last = c;
    }
    flush(&mut cur, &mut out, prev_dot);
    out
}

impl Cx {
    fn new(tdir: &str, repo: &str) -> Cx {
        Cx { repo: PathBuf::from(repo), tdir: PathBuf::from(tdir), cache: HashMap::new(), meta: Meta::default(), bodies: vec![], marks: vec![], invs: vec![], clos: vec![], next: 0, out: String::new(), aliases: HashMap::new(), gsubs: vec![], gargs: HashMap::new(), contracts: None }
    }
    fn err(&mut self, s: String) {
        self.meta.errors.push(s);
    }
    /// a file of the repository, or dep:CRATE/FILE: of the dependency the repository is built with
    fn place(&self, path: &str) -> std::result::Result<PathBuf, String> {
        let Some(dep) = path.strip_prefix("dep:") else { return Ok(self.repo.join(path)) };
        let (name, file) = dep.split_once('/').ok_or("dep: needs CRATE/FILE")?;
        let lock = fs::read_to_string(self.repo.join("Cargo.lock")).unwrap_or_default();
        let mut versions: Vec<String> = vec![];
        let lines: Vec<&str> = lock.lines().collect();
        for w in lines.windows(2) {
            if w[0] == format!("name = \"{}\"", name) {
                versions.extend(w[1].strip_prefix("version = \"").map(|v| v.trim_end_matches('"').to_string()));
            }
        }
        let home = std::env::var("CARGO_HOME").or(std::env::var("HOME").map(|h| h + "/.cargo")).unwrap_or_default();
        let mut found = vec![];
        for h in [home.as_str(), "/root/.cargo"] {
            for r in fs::read_dir(PathBuf::from(h).join("registry/src")).into_iter().flatten().flatten() {
                for c in fs::read_dir(r.path()).into_iter().flatten().flatten() {
                    let n = c.file_name().to_string_lossy().to_string();
                    if n.strip_prefix(name).and_then(|v| v.strip_prefix('-')).map_or(false, |v| if lock.is_empty() { v.starts_with(|c: char| c.is_ascii_digit()) } else { versions.iter().any(|w| w == v) }) && !found.contains(&c.path()) {
                        found.push(c.path());
                    }
                }
            }
        }
        match &found[..] {
            [one] => Ok(one.join(file)),
            _ => Err(format!("lost anchor: the sources of {} are not there, or there are several", name)),
        }
    }
    fn load(&mut self, file: &str) -> std::result::Result<&Src, String> {
        if !self.cache.contains_key(file) {
            let (path, mac) = match file.split_once('#') {
                Some((p, m)) => (p, Some(m)),
                None => (file, None),
            };
            let text = fs::read_to_string(self.place(path)?).map_err(|e| format!("lost anchor: cannot read {}: {}", path, e))?;
            let f = parse_file(&text).map_err(|e| format!("unsupported: cannot parse {}: {}", path, e))?;
            let items = match mac {
                None => f.items,
                Some(m) => expand::expand_macro_rules(&f.items, m).map_err(|e| format!("lost anchor: macro {}: {}", m, e))?,
            };
            let mut flat = vec![];
            flatten(items, &mut flat);
            self.cache.insert(file.to_string(), Src { items: flat });
        }
        Ok(&self.cache[file])
    }
    fn find_item(&mut self, file: &str, name: &str) -> Option<Item> {
        let src = self.load(file).ok()?;
        for i in &src.items {
            let n = match i {
                Item::Const(x) => x.ident.to_string(),
                Item::Static(x) => x.ident.to_string(),
                Item::Struct(x) => x.ident.to_string(),
                Item::Enum(x) => x.ident.to_string(),
                Item::Type(x) => x.ident.to_string(),
                Item::Trait(x) => x.ident.to_string(),
                _ => continue,
            };
            if n == name {
                return Some(i.clone());
            }
        }
        None
    }
    /// path: `f`, `Type::f`, `Trait for Type::f`, `trait Trait::f`
    fn find_fn(&mut self, file: &str, path: &str) -> Option<ItemFn> {
        let src = self.load(file).ok()?;
        if let Some(rest) = path.strip_prefix("trait ") {
            let (t, f) = rest.split_once("::")?;
            for i in &src.items {
                if let Item::Trait(tr) = i {
                    if tr.ident == t {
                        for m in &tr.items {
                            if let TraitItem::Fn(x) = m {
                                if x.sig.ident == f {
                                    return x.default.as_ref().map(|b| ItemFn { attrs: vec![], vis: Visibility::Inherited, sig: x.sig.clone(), block: Box::new(b.clone()) });
                                }
                            }
                        }
                    }
                }
            }
            return None;
        }
        // `static NAME`: the closure a lazily initialised static is built from
        if let Some(name) = path.strip_prefix("static ") {
            for i in &src.items {
                if let Item::Static(st) = i {
                    if st.ident == name {
                        if let Expr::Call(c) = &*st.expr {
                            if let (Some(Expr::Closure(cl)), 1) = (c.args.first(), c.args.len()) {
                                let b = &cl.body;
                                let mut ty = (*st.ty).clone();
                                if let Type::Path(p) = &ty {
                                    if let PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments {
                                        if let Some(GenericArgument::Type(t)) = a.args.first() {
                                            ty = t.clone();
                                        }
                                    }
                                }
                                let body: Block = match &**b {
                                    Expr::Block(b) => b.block.clone(),
                                    e => parse_quote!({ #e }),
                                };
                                return Some(parse_quote!(fn vp_init() -> #ty #body));
                            }
                        }
                    }
                }
            }
            return None;
        }
        let Some((ty, f)) = path.rsplit_once("::") else {
            for i in &src.items {
                if let Item::Fn(x) = i {
                    if x.sig.ident == path {
                        return Some(x.clone());
                    }
                }
            }
            return None;
        };
        let (tr, ty) = match ty.split_once(" for ") {
            Some((a, b)) => (Some(a), b),
            None => (None, ty),
        };
        for i in &src.items {
            if let Item::Impl(im) = i {
                if type_last_ident(&im.self_ty).as_deref() != Some(ty) {
                    continue;
                }
                if let Some(t) = tr {
                    let ok = im.trait_.as_ref().map_or(false, |(_, p, _)| {
                        let full: String = p.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
                        p.segments.last().map_or(false, |s| s.ident == t) || full == t
                    });
                    if !ok {
                        continue;
                    }
                }
                for m in &im.items {
                    if let ImplItem::Fn(x) = m {
                        if x.sig.ident == f {
                            return Some(impl_method(x));
                        }
                    }
                }
            }
        }
        None
    }
    fn process(&mut self, text: &str) {
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            let t = l.trim_start();
            if let Some(d) = t.strip_prefix("//@") {
                let d = d.trim();
                if let Some(f) = d.strip_prefix("include ") {
                    // `contracts UNIT`: the functions of the include are taken by contract only; the
                    // named unit discharges them
                    let (f, con) = match f.split_once(" contracts ") {
                        Some((f, u)) => (f, Some(u.trim().to_string())),
                        None => (f, None),
                    };
                    let saved = self.contracts.clone();
                    if con.is_some() {
                        self.contracts = con;
                    }
                    let p = { let a = self.tdir.join(f.trim()); if a.exists() { a } else { self.tdir.join("lib").join(f.trim()) } };
                    let text = fs::read_to_string(&p).unwrap_or_else(|_| panic!("include {}", p.display()));
                    self.process(&text);
                    self.contracts = saved;
                    i += 1;
                } else if let Some(f) = d.strip_prefix("absent ") {
                    // the default of a dependency's trait is relied on: it must not be overridden
                    let (file, path) = f.trim().split_once(' ').unwrap();
                    let file = self.aliases.get(file).cloned().unwrap_or(file.to_string());
                    match self.load(&file) {
                        Err(e) => self.err(e),
                        Ok(_) => {
                            if self.find_fn(&file, path.trim()).is_some() {
                                self.err(format!("unsupported: {} is now defined in {}", path, file));
                            }
                        }
                    }
                    i += 1;
                } else if let Some(file) = d.strip_prefix("moduli ") {
                    self.emit_moduli(file.trim());
                    i += 1;
                } else if d.starts_with("item ") {
                    let mut body = String::new();
                    i += 1;
                    while i < lines.len() && lines[i].trim_start().starts_with("//@|") {
                        body.push_str(lines[i].trim_start().strip_prefix("//@|").unwrap());
                        body.push('\n');
                        i += 1;
                    }
                    self.emit_item(d, &body);
                } else if d.starts_with("fn ") {
                    let mut blk = vec![];
                    i += 1;
                    while i < lines.len() && lines[i].trim() != "//@endfn" {
                        blk.push(lines[i]);
                        i += 1;
                    }
                    i += 1;
                    self.emit_fn(d, &blk);
                } else if let Some(a) = d.strip_prefix("alias ") {
                    let (a, b) = a.split_once(" = ").unwrap();
                    self.aliases.insert(a.trim().into(), b.trim().into());
                    i += 1;
                } else if let Some(a) = d.strip_prefix("gsub ") {
                    let (a, b) = a.split_once("=>").unwrap();
                    self.gsubs.push((a.trim().into(), b.trim().into()));
                    i += 1;
                } else if let Some(a) = d.strip_prefix("garg ") {
                    let w: Vec<&str> = a.split_whitespace().collect();
                    self.gargs.insert(w[0].into(), w[1..].iter().map(|x| x.parse().unwrap()).collect());
                    i += 1;
                } else if d.starts_with('#') {
                    i += 1; // comment
                } else {
                    panic!("template line: {}", l);
                }
            } else {
                self.out.push_str(l);
                self.out.push('\n');
                i += 1;
            }
        }
    }
    /// moduli <file>: the modulus of every instance of prime_fields! in the file, as a number (up to 128 bits)
    fn emit_moduli(&mut self, file: &str) {
        if let Err(e) = self.load(file) {
            self.err(e);
            return;
        }
        let mut list = vec![];
        for it in self.cache[file].items.iter() {
            let Item::Macro(m) = it else { continue };
            if !m.mac.path.segments.last().map_or(false, |s| s.ident == "prime_fields") || m.ident.is_some() {
                continue;
            }
            let mut name = None;
            for t in m.mac.tokens.clone() {
                match t {
                    proc_macro2::TokenTree::Ident(i) => name = Some(i.to_string()),
                    proc_macro2::TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Parenthesis => {
                        let lits: Vec<syn::Lit> = g.stream().into_iter().filter_map(|t| syn::parse2(t.to_token_stream()).ok()).collect();
                        if let (Some(n), [syn::Lit::Str(v), syn::Lit::Int(r)]) = (name.take(), &lits[..]) {
                            list.push((n, v.value(), r.base10_parse::<u32>().unwrap_or(0)));
                        }
                    }
                    _ => {}
                }
            }
        }
        for (n, v, r) in list {
            match u128::from_str_radix(&v, if (2..=36).contains(&r) { r } else { 10 }) {
                Ok(x) => self.out.push_str(&format!("pub open spec fn modulus_{}() -> int {{ {}int }}\n", n, x)),
                Err(_) => self.out.push_str(&format!("// {}: no number of at most 128 bits\n", n)),
            }
        }
    }
    /// item <file> <name> [derive=A,B] [ensures...]; continuation lines `//@|` give, for statics
    /// and constants under contract, the contract and the proof
    fn emit_item(&mut self, d: &str, body: &str) {
        let w: Vec<&str> = d.split_whitespace().collect();
        let file = self.aliases.get(w[1]).cloned().unwrap_or(w[1].to_string());
        let (file, name) = (file.as_str(), w[2]);
        let opts: HashMap<String, String> = w[3..].iter().filter_map(|s| s.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        if let Err(e) = self.load(file) {
            self.err(e);
            return;
        }
        let Some(mut it) = self.find_item(file, name) else {
            self.err(format!("lost anchor: item {} not found in {}", name, file));
            return;
        };
        GArg(&self.gargs).visit_item_mut(&mut it);
        if !self.gsubs.is_empty() {
            let mut t = lower::TypeSub { subs: self.gsubs.iter().map(|(a, b)| (lower::norm(a), lower::norm(b))).collect(), hit: vec![false; self.gsubs.len()] };
            t.visit_item_mut(&mut it);
        }
        let derive = opts.get("derive").map(|s| format!("#[derive({})]\n", s)).unwrap_or_default();
        if let Some(n) = opts.get("needs") {
            let attrs: &[syn::Attribute] = match &it {
                Item::Struct(s) => &s.attrs,
                Item::Enum(s) => &s.attrs,
                _ => &[],
            };
            let mut has = vec![];
            for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
                let _ = a.parse_nested_meta(|m| {
                    has.extend(m.path.segments.last().map(|x| x.ident.to_string()));
                    Ok(())
                });
            }
            for t in n.split(',').filter(|t| !has.iter().any(|h| h == t)) {
                self.err(format!("{} in {} does not derive {}", name, file, t));
            }
        }
        let text = match it {
            Item::Struct(mut s) => {
                s.attrs.clear();
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    if opts.contains_key("pubfields") {
                        f.vis = parse_quote!(pub);
                    }
                }
                s.vis = parse_quote!(pub);
                if opts.contains_key("nogenerics") {
                    s.generics = Default::default();
                }
                if let Some(keep) = self.gargs.get(name) {
                    let g = std::mem::take(&mut s.generics.params);
                    s.generics.params = g.into_iter().enumerate().filter(|(i, _)| keep.contains(i)).map(|(_, x)| x).collect();
                    s.generics.where_clause = None;
                    if s.generics.params.is_empty() {
                        s.generics = Default::default();
                    }
                }
                format!("{}{}", derive, s.to_token_stream())
            }
            Item::Enum(mut s) => {
                s.attrs.clear();
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                }
                s.vis = parse_quote!(pub);
                format!("{}{}", derive, s.to_token_stream())
            }
            Item::Type(mut t) => {
                t.attrs.clear();
                t.to_token_stream().to_string()
            }
            Item::Const(c) => {
                let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                self.emit_const(id, ty, e, body)
            }
            Item::Static(c) => {
                let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                self.emit_const(id, ty, e, body)
            }
            _ => {
                self.err(format!("unsupported item kind for {}", name));
                return;
            }
        };
        let text = match opts.get("as") {
            Some(n) => text.replace(name, n),
            None => text,
        };
        self.out.push_str(&text);
        self.out.push('\n');
    }
    fn emit_const(&mut self, id: &Ident, ty: &Type, e: &Expr, body: &str) -> String {
        if body.trim().is_empty() {
            quote!(pub const #id: #ty = #e;).to_string()
        } else {
            // lines before "proof" are the contract, lines after it the proof
            let (spec, proof) = match body.split_once("proof") {
                Some((a, b)) => (a.to_string(), b.to_string()),
                None => (body.to_string(), String::new()),
            };
            self.meta.functions.push(serde_json::json!({"name": id.to_string(), "kind": "table"}));
            format!("pub exec static {}: {} {} {{ let r = {}; proof {{ {} }} r }}", id, ty.to_token_stream(), spec, e.to_token_stream(), proof)
        }
    }
    fn emit_fn(&mut self, d: &str, blk: &[&str]) {
        let rest = d.strip_prefix("fn ").unwrap().trim();
        let (file, rest) = rest.split_once(' ').unwrap();
        let file = self.aliases.get(file).cloned().unwrap_or(file.to_string());
        let file = file.as_str();
        let (path, optstr) = match rest.split_once(" | ") {
            Some((p, o)) => (p.trim(), o.trim()),
            None => (rest.trim(), ""),
        };
        let mut fd = FnDir { file: file.into(), path: path.into(), ..Default::default() };
        for w in optstr.split_whitespace() {
            match w.split_once('=') {
                Some((a, b)) => fd.opts.insert(a.into(), b.into()),
                None => fd.opts.insert(w.into(), String::new()),
            };
        }
        // sub blocks
        enum Tgt {
            None,
            Spec,
            Attr,
            Loop(usize),
            Closure(usize),
            At(usize),
        }
        let mut cur = Tgt::None;
        for l in blk {
            let t = l.trim_start();
            if let Some(s) = t.strip_prefix("//@") {
                let s = s.trim();
                if s == "spec" {
                    cur = Tgt::Spec;
                } else if s == "attr" {
                    cur = Tgt::Attr;
                } else if let Some(n) = s.strip_prefix("loop ") {
                    cur = Tgt::Loop(n.trim().parse().unwrap());
                } else if let Some(n) = s.strip_prefix("closure ") {
                    cur = Tgt::Closure(n.trim().parse().unwrap());
                } else if let Some(n) = s.strip_prefix("at ") {
                    fd.at.push((n.trim().to_string(), String::new()));
                    cur = Tgt::At(fd.at.len() - 1);
                } else if let Some(n) = s.strip_prefix("sub ") {
                    let (a, b) = n.split_once("=>").unwrap();
                    fd.subs.push((a.trim().into(), b.trim().into()));
                } else if let Some(n) = s.strip_prefix("textsub ") {
                    let (a, b) = n.split_once("=>").unwrap();
                    fd.textsubs.push((a.trim().into(), b.trim().into()));
                } else if let Some(n) = s.strip_prefix("binders") {
                    fd.binders = Some(n.split_whitespace().map(|s| s.to_string()).collect());
                } else if let Some(n) = s.strip_prefix("elem ") {
                    let (a, b) = n.trim().split_once(' ').unwrap();
                    fd.elems.insert(a.parse().unwrap(), b.trim().into());
                } else if let Some(n) = s.strip_prefix("drop ") {
                    fd.drops.push(lower::norm(n));
                } else if let Some(n) = s.strip_prefix("param ") {
                    let (a, b) = n.split_once("=>").unwrap();
                    fd.params.insert(a.trim().into(), b.trim().into());
                } else if s.starts_with('#') {
                } else {
                    panic!("template sub-directive: {}", l);
                }
                continue;
            }
            let tgt = match cur {
                Tgt::None => continue,
                Tgt::Spec => &mut fd.spec,
                Tgt::Attr => &mut fd.attrs,
                Tgt::Loop(n) => fd.loops.entry(n).or_default(),
                Tgt::Closure(n) => fd.closures.entry(n).or_default(),
                Tgt::At(i) => &mut fd.at[i].1,
            };
            tgt.push_str(l);
            tgt.push('\n');
        }
        fd.subs.extend(self.gsubs.clone());
        if let Err(e) = self.load(file) {
            self.err(e);
            return;
        }
        let Some(mut f) = self.find_fn(file, path) else {
            self.err(format!("lost anchor: function {} not found in {}", path, file));
            return;
        };
        strip_attrs_fn(&mut f);
        if !self.gargs.is_empty() {
            GArg(&self.gargs).visit_item_fn_mut(&mut f);
        }
        let mut notes = vec![];
        // items declared inside the body are dropped when they are the expected ones
        {
            struct D<'a>(&'a [String], Vec<String>, usize);
            impl<'a> VisitMut for D<'a> {
                fn visit_block_mut(&mut self, b: &mut Block) {
                    let st = std::mem::take(&mut b.stmts);
                    for s in st {
                        let t = match &s {
                            Stmt::Item(i) => Some(lower::norm(&i.to_token_stream().to_string())),
                            Stmt::Macro(m) if m.mac.path.is_ident("lazy_static") => Some(lower::norm(&m.mac.tokens.to_string())),
                            _ => None,
                        };
                        if let Some(t) = t {
                            if self.0.iter().any(|d| *d == t) {
                                self.2 += 1;
                                continue;
                            }
                            if !matches!(&s, Stmt::Item(Item::Const(_) | Item::Fn(_) | Item::Use(_))) {
                                self.1.push(t);
                            }
                        }
                        b.stmts.push(s);
                    }
                    visit_mut::visit_block_mut(self, b);
                }
            }
            let mut d = D(&fd.drops, vec![], 0);
            d.visit_block_mut(&mut f.block);
            let (bad, n) = (d.1, d.2);
            for t in bad {
                self.err(format!("unsupported: {}: item inside the body: {}", path, t.chars().take(80).collect::<String>()));
            }
            if n > 0 {
                notes.push(format!("{} item(s) inside the body dropped, each equal to its expected text", n));
            }
        }
        if !fd.opts.contains_key("noinline") {
            let src = match file.split_once("/src/") {
                Some((c, _)) => format!("{}/src", c),
                None => String::new(),
            };
            let mut names = vec![];
            rs_files(&self.repo.clone(), Path::new(&src), &mut names);
            let mut others = vec![];
            for n in names {
                if n != file.split('#').next().unwrap() || n != file {
                    if let Ok(s) = self.load(&n) {
                        others.push((n, s.items.clone()));
                    }
                }
            }
            let items = self.load(file).unwrap().items.clone();
            let mut il = inline::Inline::new(&items, &others, file, path, &f);
            il.run(&mut f);
            notes.extend(il.notes);
        }
        let recorded = BINDERS.lines().filter_map(|l| l.strip_prefix(&format!("{}\t{}\t", file, path))).next().map(|l| l.split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>());
        let old = fd.binders.clone().or(recorded);
        notes.extend(canon::Canon::run(&mut f, old.clone().unwrap_or_default()));
        // rename annotations if only local names changed
        let new = binders_of(&f);
        if let Some(old) = old {
            // names that are gone are matched, in order, with names that are new: annotations follow a
            // renamed local; a wrong match can only make the proof fail
            let uniq = |v: &[String], w: &[String]| -> Vec<String> {
                let mut o: Vec<String> = vec![];
                for x in v {
                    if !w.contains(x) && !o.contains(x) {
                        o.push(x.clone());
                    }
                }
                o
            };
            let (gone, fresh) = (uniq(&old, &new), uniq(&new, &old));
            if !gone.is_empty() && gone.len() == fresh.len() {
                let map: HashMap<String, String> = gone.into_iter().zip(fresh).collect();
                notes.push(format!("locals renamed: {:?}", map));
                for s in std::iter::once(&mut fd.spec).chain(fd.loops.values_mut()).chain(fd.closures.values_mut()).chain(fd.at.iter_mut().map(|x| &mut x.1)) {
                    *s = word_replace(s, &map);
                }
                for (k, _) in fd.at.iter_mut() {
                    if k.starts_with("let ") || k.starts_with("names ") {
                        *k = word_replace(k, &map);
                    }
                }
            }
        }
        if fd.opts.contains_key("async") {
            let a = chain::Async::run(&mut f);
            notes.extend(a.notes);
            for e in a.errors {
                self.err(format!("unsupported: {}: {}", path, e));
            }
        }
        if fd.opts.contains_key("chain") {
            let c = chain::Chain::run(&mut f, fd.opts.get("chain").filter(|s| !s.is_empty()).map(|s| s.as_str()).unwrap_or("F"), &fd.elems);
            notes.extend(c.notes);
            for e in c.errors {
                self.err(format!("unsupported: {}: {}", path, e));
            }
        }
        let mut lw = lower::Lower::new(&fd.opts, &fd.subs);
        lw.run(&mut f);
        notes.extend(lw.notes.clone());
        for e in lw.errors {
            self.err(format!("unsupported: {}: {}", path, e));
        }
        if let Some(t) = fd.opts.get("bits") {
            for (k, text) in bits::Bits::run(&mut f, t, self.next) {
                self.marks.push((format!("__vp_mark!({});", k), text));
                self.next = k + 1;
                notes.push("bit expression followed by its normal form (ghost)".into());
            }
        }
        // anchors
        let mut an = Anchor { cx: self, fd: &fd, loops: 0, closures: 0, calls: HashMap::new(), lets: HashMap::new(), ifs: 0, returns: 0, stack: vec![], used: vec![false; fd.at.len()], used_loops: vec![] };
        an.visit_block_mut(&mut f.block);
        let (nl, nc, used, used_loops) = (an.loops, an.closures, an.used.clone(), an.used_loops.clone());
        let is_unit = matches!(f.sig.output, ReturnType::Default);
        // entry / exit
        let mut used = used;
        let mut at: Vec<(String, String)> = fd.at.iter().map(|(a, t)| (a.to_string(), t.to_string())).collect();
        if std::env::var("VX_VACUITY").is_ok() {
            // a check of the contracts: this must fail in every function, or its assumptions contradict each other
            at.push(("exit".to_string(), "proof { assert(false); }".to_string()));
            used.push(false);
        }
        for (i, (a, t)) in at.iter().enumerate() {
            if a == "entry" {
                used[i] = true;
                let m = self.mark(t);
                f.block.stmts.insert(0, m);
            } else if a == "exit" {
                used[i] = true;
                let m = self.mark(t);
                match f.block.stmts.pop() {
                    Some(Stmt::Expr(e, None)) if !is_unit => {
                        match &f.sig.output {
                            ReturnType::Type(_, t) if !matches!(**t, Type::ImplTrait(_) | Type::Reference(_)) && !fd.params.contains_key("return") => f.block.stmts.push(parse_quote!(let __ret: #t = #e;)),
                            _ => f.block.stmts.push(parse_quote!(let __ret = #e;)),
                        }
                        f.block.stmts.push(m);
                        f.block.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
                    }
                    Some(Stmt::Expr(e, None)) => {
                        f.block.stmts.push(Stmt::Expr(e, Some(Default::default())));
                        f.block.stmts.push(m);
                    }
                    Some(s) => {
                        f.block.stmts.push(s);
                        f.block.stmts.push(m);
                    }
                    None => f.block.stmts.push(m),
                }
            }
        }
        for (i, u) in used.iter().enumerate() {
            if !u {
                self.err(format!("lost anchor: {} has no {}", path, fd.at[i].0));
            }
        }
        for n in fd.loops.keys() {
            if *n > nl || !used_loops.contains(n) {
                self.err(format!("lost anchor: {} has no loop {}", path, n));
            }
        }
        for n in fd.closures.keys() {
            if *n > nc {
                self.err(format!("lost anchor: {} has no closure {}", path, n));
            }
        }
        let loops_without = nl - fd.loops.len().min(nl);
        // signature
        let mut sig = f.sig.clone();
        let newname = fd.opts.get("name").cloned().unwrap_or(sig.ident.to_string());
        sig.ident = Ident::new(&newname, proc_macro2::Span::call_site());
        if fd.opts.contains_key("nogenerics") {
            sig.generics = Default::default();
            // references keep no named lifetime (erased: it does not bear on behaviour)
            struct E;
            impl syn::visit_mut::VisitMut for E {
                fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
                    if t.lifetime.as_ref().map(|l| l.ident != "static").unwrap_or(false) {
                        t.lifetime = None;
                    }
                    syn::visit_mut::visit_type_reference_mut(self, t);
                }
            }
            syn::visit_mut::VisitMut::visit_signature_mut(&mut E, &mut sig);
        }
        if let Some(k) = fd.opts.get("keepgen") {
            let g = std::mem::take(&mut sig.generics.params);
            sig.generics.params = g.into_iter().filter(|p| matches!(p, GenericParam::Type(t) if t.ident == k.as_str())).collect();
            if let Some(w) = &mut sig.generics.where_clause {
                let ps = std::mem::take(&mut w.predicates);
                w.predicates = ps.into_iter().filter(|p| matches!(p, WherePredicate::Type(t) if norm_ty(&t.bounded_ty) == *k)).collect();
            }
        }
        if let Some(g) = fd.opts.get("nowhere") {
            let _ = g;
            sig.generics.where_clause = None;
        }
        for inp in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = inp {
                if let Pat::Ident(p) = &*t.pat {
                    if let Some(ty) = fd.params.get(&p.ident.to_string()) {
                        t.ty = Box::new(parse_str(ty).unwrap());
                    }
                }
            }
        }
        let out = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => format!(" -> ({}: {})", fd.opts.get("ret").map(|s| s.as_str()).unwrap_or("r"), fd.params.get("return").cloned().unwrap_or(t.to_token_stream().to_string())),
        };
        sig.output = ReturnType::Default;
        let wc = sig.generics.where_clause.take();
        let vis = match fd.opts.get("vis") {
            Some(v) => v.replace("none", ""),
            None => f.vis.to_token_stream().to_string(),
        };
        let wct = wc.map(|w| w.to_token_stream().to_string()).unwrap_or_default();
        let sigt = format!("{} {}{} {}", vis, sig.to_token_stream(), out, wct);
        if let Some(u) = &self.contracts {
            self.out.push_str(&format!("#[verifier::external_body] // {}: contract discharged in unit {}\n{}\n{}{{ unimplemented!() }}\n", path, u, sigt, fd.spec));
            return;
        }
        let id = format!("__vp_fn_{}", self.next);
        self.next += 1;
        let block = &f.block;
        self.bodies.push((id.clone(), format!("fn {}() {}\n", id, block.to_token_stream())));
        if !fd.textsubs.is_empty() {
            notes.push(format!("text substitutions: {:?}", fd.textsubs));
        }
        self.out.push_str(&format!("//vp-begin {} {}\n{}{}\n{}{{{{{}}}}}\n//vp-end {}\n", id, path, fd.attrs, sigt, fd.spec, id, id));
        self.meta.functions.push(serde_json::json!({"name": path, "emitted": newname, "id": id, "file": file, "kind": "function", "loops": nl, "loops_without_invariant": loops_without, "binders": new.join(" "), "lowerings": notes,
            "textsubs": fd.textsubs.iter().map(|(a,b)| vec![a.clone(), b.clone()]).collect::<Vec<_>>()}));
    }
    fn mark(&mut self, t: &str) -> Stmt {
        let id = self.next;
        self.next += 1;
        self.marks.push((format!("__vp_mark!({});", id), t.to_string()));
        let n = proc_macro2::Literal::usize_unsuffixed(id);
        parse_quote!(__vp_mark!(#n);)
    }
    fn finish(&mut self) -> String {
        // format all bodies in one rustfmt run
        let all: String = self.bodies.iter().map(|(_, t)| t.as_str()).collect::<Vec<_>>().join("\n");
        let dir = std::env::temp_dir().join(format!("vx-{}", std::process::id()));
        fs::create_dir_all(&dir).unwrap();
        let p = dir.join("b.rs");
        fs::write(&p, &all).unwrap();
        let ok = std::process::Command::new("rustfmt").arg("--edition").arg("2021").arg("--config").arg("max_width=160").arg(&p).output();
        let text = match ok {
            Ok(o) if o.status.success() => fs::read_to_string(&p).unwrap(),
            Ok(o) => {
                self.err(format!("unsupported: rustfmt failed: {}", String::from_utf8_lossy(&o.stderr)));
                all.clone()
            }
            Err(e) => {
                self.err(format!("unsupported: rustfmt: {}", e));
                all.clone()
            }
        };
        let _ = fs::remove_dir_all(&dir);
        let mut out = self.out.clone();
        for i in 0..self.bodies.len() {
            let id = &self.bodies[i].0;
            let Some(a) = text.find(&format!("fn {}()", id)) else { continue };
            let b = if i + 1 < self.bodies.len() { text.find(&format!("fn {}()", self.bodies[i + 1].0)).unwrap_or(text.len()) } else { text.len() };
            let t = &text[a..b];
            let t = t[t.find('{').unwrap()..].trim_end().to_string();
            let mut t = t;
            if let Some(m) = self.meta.functions.iter().find(|m| m["id"] == id.as_str()) {
                for s in m["textsubs"].as_array().unwrap() {
                    let (a, b) = (s[0].as_str().unwrap(), s[1].as_str().unwrap());
                    if !t.contains(a) {
                        self.meta.errors.push(format!("lost anchor: {}: text `{}` not found", m["name"].as_str().unwrap(), a));
                    }
                    t = t.replace(a, b);
                }
            }
            out = out.replace(&format!("{{{{{}}}}}", id), &t);
        }
        // truncating casts
        out = out.replace("__vp_trunc!", "#[verifier::truncate] ");
        // named ghost iterators
        while let Some(a) = out.find("__vp_it!(") {
            let st = a + "__vp_it!(".len();
            let mut depth = 1;
            let mut e = st;
            for (k, c) in out[st..].char_indices() {
                match c {
                    '(' | '[' | '{' => depth += 1,
                    ')' | ']' | '}' => depth -= 1,
                    _ => {}
                }
                if depth == 0 {
                    e = st + k;
                    break;
                }
            }
            let inner = out[st..e].to_string();
            let (n, x) = inner.split_once(',').unwrap();
            out = format!("{}{}: {}{}", &out[..a], n.trim(), x.trim(), &out[e + 1..]);
        }
        // loop invariants: "{ __vp_inv!(k);" -> "<inv> {"
        for (m, t) in self.invs.clone() {
            if let Some(p) = out.find(&m) {
                let brace = out[..p].rfind('{').unwrap();
                out = format!("{}\n{}{{{}", &out[..brace].trim_end(), t, &out[p + m.len()..]);
            }
        }
        for (m, t) in self.clos.clone() {
            if let Some(p) = out.find(&m) {
                let brace = out[..p].rfind('{').unwrap();
                out = format!("{} {} {{{}", &out[..brace].trim_end(), t.trim(), &out[p + m.len()..]);
            }
        }
        for (m, t) in self.marks.clone() {
            out = out.replace(&m, t.trim_end());
        }
        out
    }
}

fn flatten(items: Vec<Item>, out: &mut Vec<Item>) {
    for i in items {
        match i {
            Item::Mod(m) => {
                // skip test modules
                let test = m.attrs.iter().any(|a| a.to_token_stream().to_string().replace(' ', "").contains("cfg(test)"));
                if !test {
                    if let Some((_, it)) = m.content {
                        flatten(it, out);
                    }
                }
            }
            i => out.push(i),
        }
    }
}

#[derive(Default)]
struct StmtCtx {
    before: Vec<Stmt>,
    after: Vec<Stmt>,
}

struct Anchor<'a> {
    cx: &'a mut Cx,
    fd: &'a FnDir,
    loops: usize,
    closures: usize,
    calls: HashMap<String, usize>,
    lets: HashMap<String, usize>,
    ifs: usize,
    returns: usize,
    stack: Vec<StmtCtx>,
    used: Vec<bool>,
    used_loops: Vec<usize>,
}

impl<'a> Anchor<'a> {
    fn get(&mut self, key: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (i, (a, t)) in self.fd.at.iter().enumerate() {
            if a == key {
                self.used[i] = true;
                v.push(t.clone());
            }
        }
        v.into_iter().map(|t| self.cx.mark(&t)).collect()
    }
    fn call(&mut self, name: &str) {
        let c = self.calls.entry(name.to_string()).or_insert(0);
        *c += 1;
        let n = *c;
        let b = self.get(&format!("call {} {} before", name, n));
        let a = self.get(&format!("call {} {} after", name, n));
        if let Some(s) = self.stack.last_mut() {
            s.before.extend(b);
            s.after.extend(a);
        }
    }
    fn loop_body(&mut self, n: usize, body: &mut Block) {
        self.visit_block_mut(body);
        let st = self.get(&format!("loop {} start", n));
        let en = self.get(&format!("loop {} end", n));
        if !en.is_empty() {
            if let Some(Stmt::Expr(e, semi @ None)) = body.stmts.last_mut() {
                let _ = e;
                *semi = Some(Default::default());
            }
            body.stmts.extend(en);
        }
        for s in st.into_iter().rev() {
            body.stmts.insert(0, s);
        }
        let mut take = |name: &str| {
            let k = body.stmts.iter().position(|s| matches!(s, Stmt::Macro(StmtMacro { mac: m, .. }) | Stmt::Expr(Expr::Macro(ExprMacro { mac: m, .. }), _) if m.path.is_ident(name)))?;
            match body.stmts.remove(k) {
                Stmt::Macro(StmtMacro { mac: m, .. }) | Stmt::Expr(Expr::Macro(ExprMacro { mac: m, .. }), _) => m.parse_body::<LitStr>().ok().map(|s| s.value()),
                _ => None,
            }
        };
        let auto = take("__vp_auto");
        let lead = take("__vp_lead");
        if let Some(inv) = self.fd.loops.get(&n).or(auto.as_ref()) {
            self.used_loops.push(n);
            let id = self.cx.next;
            self.cx.next += 1;
            let inv = match inv.trim_start().strip_prefix("@it ") {
                Some(r) => r.split_once('\n').map(|x| x.1).unwrap_or("").to_string(),
                None => inv.clone(),
            };
            let inv = match (lead, inv.trim_start().strip_prefix("invariant ")) {
                (Some(l), Some(r)) => format!("    invariant {}, {}", l, r),
                _ => inv,
            };
            self.cx.invs.push((format!("__vp_inv!({});", id), inv));
            let l = proc_macro2::Literal::usize_unsuffixed(id);
            body.stmts.insert(0, parse_quote!(__vp_inv!(#l);));
        }
        let b = self.get(&format!("loop {} before", n));
        let a = self.get(&format!("loop {} after", n));
        if let Some(s) = self.stack.last_mut() {
            s.before.extend(b);
            s.after.extend(a);
        }
    }
}

impl<'a> VisitMut for Anchor<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        let mut out = vec![];
        // `names a b`: after the statement of one block by which all of them have been bound
        let mut bound: Vec<String> = vec![];
        for (i, mut s) in stmts.into_iter().enumerate() {
            self.stack.push(StmtCtx::default());
            self.visit_stmt_mut(&mut s);
            let mut lets = vec![];
            if let Stmt::Local(l) = &s {
                struct P(Vec<String>);
                impl<'b> syn::visit::Visit<'b> for P {
                    fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                        self.0.push(p.ident.to_string());
                    }
                }
                let mut p = P(vec![]);
                syn::visit::Visit::visit_pat(&mut p, &l.pat);
                let before = bound.clone();
                bound.extend(p.0.iter().cloned());
                for (k, (a, t)) in self.fd.at.iter().enumerate() {
                    if let Some(ns) = a.strip_prefix("names ") {
                        let all = |v: &Vec<String>| ns.split_whitespace().all(|n| v.iter().any(|x| x == n));
                        if all(&bound) && !all(&before) && !self.used[k] {
                            self.used[k] = true;
                            lets.push(self.cx.mark(&t.clone()));
                        }
                    }
                }
                for id in p.0 {
                    let c = self.lets.entry(id.clone()).or_insert(0);
                    *c += 1;
                    let k = *c;
                    lets.extend(self.get(&format!("let {} {} after", id, k)));
                    let bf = self.get(&format!("let {} {} before", id, k));
                    self.stack.last_mut().unwrap().before.extend(bf);
                }
            }
            let ctx = self.stack.pop().unwrap();
            out.extend(ctx.before);
            if !ctx.after.is_empty() && i + 1 == n {
                if let Stmt::Expr(e, semi @ None) = &mut s {
                    let _ = e;
                    *semi = Some(Default::default());
                }
            }
            out.push(s);
            out.extend(lets);
            out.extend(ctx.after);
        }
        b.stmts = out;
    }
    fn visit_expr_call_mut(&mut self, e: &mut ExprCall) {
        if let Expr::Path(p) = &*e.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            self.call(&n);
        }
        visit_mut::visit_expr_call_mut(self, e);
    }
    fn visit_expr_method_call_mut(&mut self, e: &mut ExprMethodCall) {
        let n = e.method.to_string();
        self.call(&n);
        visit_mut::visit_expr_method_call_mut(self, e);
    }
    fn visit_expr_return_mut(&mut self, e: &mut ExprReturn) {
        self.returns += 1;
        let k = format!("return {}", self.returns);
        let b = self.get(&k);
        if let Some(s) = self.stack.last_mut() {
            s.before.extend(b);
        }
        visit_mut::visit_expr_return_mut(self, e);
    }
    fn visit_expr_for_loop_mut(&mut self, e: &mut ExprForLoop) {
        self.loops += 1;
        let n = self.loops;
        self.visit_expr_mut(&mut e.expr);
        // `@it NAME` as the first line of an invariant names the ghost iterator
        if let Some(name) = self.fd.loops.get(&n).and_then(|t| t.trim_start().strip_prefix("@it ")).and_then(|t| t.split_whitespace().next()) {
            let id = Ident::new(name, proc_macro2::Span::call_site());
            let x = &e.expr;
            e.expr = Box::new(parse_quote!(__vp_it!(#id, #x)));
        }
        self.loop_body(n, &mut e.body);
    }
    fn visit_expr_while_mut(&mut self, e: &mut ExprWhile) {
        self.loops += 1;
        let n = self.loops;
        self.visit_expr_mut(&mut e.cond);
        self.loop_body(n, &mut e.body);
    }
    fn visit_expr_loop_mut(&mut self, e: &mut ExprLoop) {
        self.loops += 1;
        let n = self.loops;
        self.loop_body(n, &mut e.body);
    }
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        self.ifs += 1;
        let n = self.ifs;
        self.visit_expr_mut(&mut e.cond);
        self.visit_block_mut(&mut e.then_branch);
        let s = self.get(&format!("if {} then-start", n));
        for x in s.into_iter().rev() {
            e.then_branch.stmts.insert(0, x);
        }
        let s = self.get(&format!("if {} then-end", n));
        if !s.is_empty() {
            if let Some(Stmt::Expr(_, semi @ None)) = e.then_branch.stmts.last_mut() {
                *semi = Some(Default::default());
            }
        }
        e.then_branch.stmts.extend(s);
        if let Some((_, el)) = &mut e.else_branch {
            let s = self.get(&format!("if {} else-start", n));
            self.visit_expr_mut(el);
            if let Expr::Block(b) = &mut **el {
                for x in s.into_iter().rev() {
                    b.block.stmts.insert(0, x);
                }
            }
        } else {
            // an annotation for a missing else branch creates one holding ghost code only
            let s = self.get(&format!("if {} else-start", n));
            if !s.is_empty() {
                e.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#s)* }))));
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, e: &mut ExprClosure) {
        self.closures += 1;
        let n = self.closures;
        visit_mut::visit_expr_closure_mut(self, e);
        if let Some(t) = self.fd.closures.get(&n) {
            let id = self.cx.next;
            self.cx.next += 1;
            self.cx.clos.push((format!("__vp_clo!({});", id), t.clone()));
            let l = proc_macro2::Literal::usize_unsuffixed(id);
            let body = &e.body;
            e.body = match &**body {
                Expr::Block(b) if b.label.is_none() => {
                    let st = &b.block.stmts;
                    parse_quote!({ __vp_clo!(#l); #(#st)* })
                }
                b => parse_quote!({ __vp_clo!(#l); #b }),
            };
        }
    }
}

#[allow(dead_code)]
pub fn toks<T: ToTokens>(t: &T) -> TokenStream {
    t.to_token_stream()
}
#[allow(dead_code)]
fn exists(p: &Path) -> bool {
    p.exists()
}
