//! Mechanical extractor: takes a plan (Verus text with `@@` directives) and the source tree, pulls the named
//! functions / types out of the source with syn, applies the documented desugarings, splices the contracts in,
//! and writes one Verus file plus a map of line ranges to extracted functions.
//! Exit 0 always when the plan could be read; per-item failures are reported in the map as `lost`.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::visit_mut::{self, VisitMut};
use syn::*;

type R<T> = std::result::Result<T, String>;

const FEATURES: &[&str] = &["default", "default-config", "regex", "glob", "http", "cache", "base64", "commands"];

// ---------------------------------------------------------------- cfg
fn cfg_eval(m: &Meta) -> bool {
    match m {
        Meta::Path(p) => !(p.is_ident("test") || p.is_ident("debug_assertions")),
        Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    return FEATURES.contains(&s.value().as_str());
                }
            }
            false
        }
        Meta::List(l) => {
            let inner: punctuated::Punctuated<Meta, Token![,]> =
                l.parse_args_with(punctuated::Punctuated::parse_terminated).unwrap_or_default();
            if l.path.is_ident("not") { !inner.iter().all(cfg_eval) }
            else if l.path.is_ident("any") { inner.iter().any(cfg_eval) }
            else { inner.iter().all(cfg_eval) }
        }
    }
}
fn keep(attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") { a.parse_args::<Meta>().map(|m| cfg_eval(&m)).unwrap_or(true) } else { true }
    })
}

// ---------------------------------------------------------------- item lookup
#[derive(Clone)]
enum Found { Fn(ItemFn), Method { imp: ItemImpl, f: ImplItemFn }, Struct(ItemStruct), Enum(ItemEnum), Const(ItemConst), Static(ItemStatic), TypeAlias(ItemType) }

fn type_last_ident(t: &Type) -> Option<String> {
    match t { Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()), Type::Reference(r) => type_last_ident(&r.elem), _ => None }
}
/// `f#spawnedK`: the body of the K-th closure given to `spawn_scoped` in `f`; `f#tail`: the value `f` ends with; `f#setup`: what `f` does
/// before the statement that calls `thread::scope`.
fn inside(f: &ItemFn, what: &str) -> Option<Found> {
    let block: Block = if what == "setup" {
        struct C(bool);
        impl<'x> visit::Visit<'x> for C { fn visit_expr_call(&mut self, c: &'x ExprCall) { if matches!(&*c.func, Expr::Path(p) if path_str(&p.path).ends_with("thread::scope")) { self.0 = true } visit::visit_expr_call(self, c) } }
        let k = f.block.stmts.iter().position(|s| { let mut c = C(false); visit::Visit::visit_stmt(&mut c, s); c.0 })?;
        let stmts = &f.block.stmts[..k]; parse_quote! {{ #(#stmts)* }}
    } else if what == "tail" {
        match f.block.stmts.last()? { Stmt::Expr(e, None) => parse_quote! {{ #e }}, _ => return None }
    } else {
        struct C(Vec<Expr>);
        impl<'x> visit::Visit<'x> for C { fn visit_expr_method_call(&mut self, m: &'x ExprMethodCall) { visit::visit_expr_method_call(self, m); if m.method == "spawn_scoped" { if let Some(Expr::Closure(c)) = m.args.iter().nth(1) { if c.inputs.is_empty() { self.0.push((*c.body).clone()) } } } } }
        let mut c = C(vec![]); visit::Visit::visit_block(&mut c, &f.block);
        match c.0.into_iter().nth(what.strip_prefix("spawned")?.parse().ok()?)? { Expr::Block(b) => b.block, e => parse_quote! {{ #e }} }
    };
    let sig: Signature = parse_quote! { fn inner() };
    Some(Found::Fn(ItemFn { attrs: vec![], vis: Visibility::Inherited, sig, block: Box::new(block) }))
}
/// Item macros of the crate that only write out impls for one type (`string_or_struct_magic!(T)`) are expanded here: the macro's own
/// text with `$type` replaced.
fn expand_item_macros(file: &mut File, macros: &str) {
    let Ok(defs) = parse_file(macros) else { return };
    let mut out: Vec<Item> = vec![];
    for it in std::mem::take(&mut file.items) {
        if let Item::Macro(m) = &it { if m.ident.is_none() && keep(&m.attrs) {
            let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            let body = defs.items.iter().find_map(|d| match d { Item::Macro(d) if d.ident.as_ref().is_some_and(|i| *i == n) => one_type_rule(d.mac.tokens.clone()), _ => None });
            if let Some((var, body)) = body { if let Ok(f) = parse2::<File>(subst(body, &var, &m.mac.tokens)) { out.extend(f.items); continue } }
        } }
        out.push(it);
    }
    file.items = out;
}
/// `($x:ty) => { BODY }` as the only rule
fn one_type_rule(t: TokenStream) -> Option<(String, TokenStream)> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let (TokenTree::Group(a), TokenTree::Group(b)) = (v.first()?, v.get(3)?) else { return None };
    if v.len() > 5 { return None }
    let p: Vec<String> = a.stream().into_iter().map(|x| x.to_string()).collect();
    if p.len() != 4 || p[0] != "$" || p[3] != "ty" { return None }
    Some((p[1].clone(), b.stream()))
}
fn subst(t: TokenStream, var: &str, by: &TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect(); let mut out = TokenStream::new(); let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Ident(n))) = (&v[i], v.get(i + 1)) { if p.as_char() == '$' && n == var { out.extend(by.clone()); i += 2; continue } }
        match &v[i] { TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), var, by)); n.set_span(g.span()); out.extend([TokenTree::Group(n)]) } x => out.extend([x.clone()]) }
        i += 1;
    }
    out
}
/// What serde's derives are told about a field: (default, skip_serializing_if), as written; `default` without a path is "".
fn serde_says(attrs: &[Attribute]) -> (Option<String>, Option<String>, Option<String>, Vec<String>) {
    let (mut d, mut k, mut r, mut al) = (None, None, None, vec![]);
    for a in attrs.iter().filter(|a| a.path().is_ident("serde")) {
        let Ok(ms) = a.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated) else { continue };
        for m in ms { let v = match &m { Meta::NameValue(nv) => match &nv.value { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()), _ => None }, _ => None };
            if m.path().is_ident("default") { d = Some(v.unwrap_or_default()) } else if m.path().is_ident("skip_serializing_if") { k = v } else if m.path().is_ident("rename") { r = v } else if m.path().is_ident("alias") { al.extend(v) } }
    }
    (d, k, r, al)
}
impl Opts {
    /// Left out of the enum the contracts see: the variants named, or all that carry something and are not named.
    fn drops(&self, v: &Variant) -> bool { let n = v.ident.to_string(); self.drop_variants.contains(&n) || self.units_and.as_ref().is_some_and(|k| !matches!(v.fields, Fields::Unit) && !k.contains(&n)) }
}
/// The words serde writes and reads for the variants that carry nothing.
fn emit_words(e: &ItemEnum, o: &Opts) -> String {
    let (mut w, mut r) = (String::new(), String::new()); let n = &e.ident;
    for v in e.variants.iter().filter(|v| keep(&v.attrs) && !o.drops(v) && matches!(v.fields, Fields::Unit)) {
        let (_, _, ren, al) = serde_says(&v.attrs); let word = ren.unwrap_or(v.ident.to_string());
        let _ = write!(w, "{n}::{} => Some({word:?}@), ", v.ident);
        for x in std::iter::once(&word).chain(&al) { let _ = write!(r, "(w == {x:?}@ && x == {n}::{}) || ", v.ident); }
    }
    format!("/// the word serde's derived code writes for `x`\npub open spec fn word_{n}(x: {n}) -> Option<S> {{ match x {{ {w}_ => None }} }}\n/// ... and those it reads as `x`\npub open spec fn reads_{n}(w: S, x: {n}) -> bool {{ {r}false }}\n")
}
/// A word is read as one variant only, and the word written for a variant is read as it.
fn emit_words_lemma(e: &ItemEnum, o: &Opts, vac: bool) -> String {
    let n = &e.ident; let mut ws: Vec<String> = vec![];
    for v in e.variants.iter().filter(|v| keep(&v.attrs) && !o.drops(v) && matches!(v.fields, Fields::Unit)) { let (_, _, ren, al) = serde_says(&v.attrs); for x in std::iter::once(ren.unwrap_or(v.ident.to_string())).chain(al) { if !ws.contains(&x) { ws.push(x) } } }
    let mut b = String::new();
    for w in &ws { let _ = writeln!(b, "reveal_strlit({w:?});"); }
    for (i, x) in ws.iter().enumerate() { for y in &ws[i + 1..] { let (p, q): (Vec<char>, Vec<char>) = (x.chars().collect(), y.chars().collect());
        if p.len() != q.len() { let _ = writeln!(b, "assert({x:?}@.len() != {y:?}@.len());"); } else { let k = (0..p.len()).find(|k| p[*k] != q[*k]).unwrap(); let _ = writeln!(b, "assert({x:?}@[{k}] != {y:?}@[{k}]);"); } } }
    let ens = format!("word_{n}(x) == Some(w) ==> reads_{n}(w, x), reads_{n}(w, x) && reads_{n}(w, y) ==> x == y");
    if vac { format!("#[verifier::external_body]\npub proof fn words_{n}(w: S, x: {n}, y: {n})\nensures {ens}\n{{}}\npub proof fn words_{n}__vac(w: S, x: {n}, y: {n})\nensures false\n{{\n{b}}}\n") }
    else { format!("pub proof fn words_{n}(w: S, x: {n}, y: {n})\nensures {ens}\n{{\n{b}}}\n") }
}
/// Per field that may be left out: what reading puts there, and when writing leaves it out.
fn emit_left_out(found: &Found, listed: &[String], docs: &HashMap<String, String>) -> R<Vec<(String, String)>> {
    let mut fs: Vec<(String, Field)> = vec![]; let owner;
    match found {
        Found::Struct(s) => { owner = s.ident.to_string(); for f in s.fields.iter() { fs.push((f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), f.clone())) } }
        Found::Enum(e) => { owner = e.ident.to_string(); for v in e.variants.iter().filter(|v| keep(&v.attrs)) { for f in v.fields.iter() { fs.push((match &f.ident { Some(i) => format!("{}.{i}", v.ident), None => v.ident.to_string() }, f.clone())) } } }
        _ => return Err("not a type".into()),
    }
    let mut out = vec![]; let mut seen = BTreeSet::new();
    for (n, f) in fs.iter().filter(|(_, f)| keep(&f.attrs)) {
        let n = n.replace("r#", ""); let (d, k, _, _) = serde_says(&f.attrs); seen.insert(n.clone());
        if d.is_none() && k.is_none() && !listed.contains(&n) { continue }
        let id = format!("{owner}_{}", n.replace('.', "_")); let doc = docs.get(&n); let ty = pt(f.ty.to_token_stream()); let optional = ty.starts_with("Option <") || ty.starts_with("Option<");
        let named = |p: &Option<String>| p.as_deref().is_some_and(|x| !["", "is_default", "Option::default", "Option::is_none"].contains(&x));
        // a field whose attributes name only what fits any type is checked at any type that has a default
        let (g, t) = if named(&d) || named(&k) || doc.is_some() { ("".to_string(), ty.clone()) } else if [&d, &k].iter().any(|x| x.as_deref().is_some_and(|x| x.starts_with("Option::"))) || (d.is_none() && optional) { ("<T>".into(), "Option<T>".into()) } else { ("<T: Dv>".into(), "T".into()) };
        let p = |x: &str| match doc { Some(v) => v.replace('$', x), None => format!("Dv::is_def(&{x})") };
        let body = match d.as_deref() { Some("") => format!("<{t} as Dv>::default()"), Some("Option::default") => format!("<{t} as Dv>::default()"), Some(x) => format!("{x}()"), None if optional => "None".into(), None => "vx_absent()".into() };
        out.push((format!("{owner}.{n} [left out]"), format!("fn w_{id}_left_out{g}() -> (r: {t})\nensures {}\n{{ {body} }}\n", p("r"))));
        if let Some(k) = k { let body = if k == "Option::is_none" { "x.is_none()".into() } else { format!("{k}(x)") }; out.push((format!("{owner}.{n} [not written]"), format!("fn w_{id}_not_written{g}(x: &{t}) -> (r: bool)\nensures r ==> {}\n{{ {body} }}\n", p("(*x)")))); }
    }
    for n in listed { if !seen.contains(n) { return Err(format!("{owner}.{n} not found")) } }
    Ok(out)
}
fn find(items: &[Item], kind: &str, name: &str) -> Option<Found> {
    if let Some((m, inner)) = name.split_once('/') { // an item of that module
        return items.iter().find_map(|i| match i { Item::Mod(x) if x.ident == m && keep(&x.attrs) => find(&x.content.as_ref()?.1, kind, inner), _ => None });
    }
    if let Some((f, inner)) = name.split_once("#in#") {
        let block = match find(items, kind, f)? { Found::Fn(f) => *f.block, Found::Method { f, .. } => f.block, _ => return None };
        let its: Vec<Item> = block.stmts.into_iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i) } else { None }).collect();
        return find(&its, kind, inner);
    }
    if let Some((f, what)) = name.split_once('#').filter(|(_, w)| *w == "tail" || *w == "setup" || w.starts_with("spawned")) { return match find(items, kind, f)? { Found::Fn(f) => inside(&f, what), _ => None } }
    let (ty, meth) = match name.split_once("::") { Some((a, b)) => (Some(a), b), None => (None, name) };
    let (trait_name, ty) = match ty { Some(t) => match t.split_once('@') { Some((a, b)) => (Some(b), Some(a)), None => (None, Some(t)) }, None => (None, None) };
    for it in items {
        match it {
            Item::Fn(f) if kind == "fn" && ty.is_none() && f.sig.ident == meth && keep(&f.attrs) => return Some(Found::Fn(f.clone())),
            Item::Impl(im) if kind == "fn" && ty.is_some() && keep(&im.attrs) => {
                if type_last_ident(&im.self_ty).as_deref() == ty {
                    match (trait_name, &im.trait_) {
                        (Some(tn), Some((_, p, _))) => { if p.to_token_stream().to_string().replace(' ', "") != tn { continue } }
                        (Some(_), None) => continue,
                        _ => {}
                    }
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x { if f.sig.ident == meth && keep(&f.attrs) { return Some(Found::Method { imp: im.clone(), f: f.clone() }) } }
                    }
                }
            }
            Item::Struct(s) if kind == "struct" && s.ident == name && keep(&s.attrs) => return Some(Found::Struct(s.clone())),
            Item::Enum(s) if kind == "enum" && s.ident == name && keep(&s.attrs) => return Some(Found::Enum(s.clone())),
            Item::Const(s) if kind == "const" && s.ident == name && keep(&s.attrs) => return Some(Found::Const(s.clone())),
            Item::Static(s) if kind == "const" && s.ident == name && keep(&s.attrs) => return Some(Found::Static(s.clone())),
            Item::Type(s) if kind == "type" && s.ident == name && keep(&s.attrs) => return Some(Found::TypeAlias(s.clone())),
            Item::Mod(m) if keep(&m.attrs) => if let Some((_, its)) = &m.content { if let Some(f) = find(its, kind, name) { return Some(f) } },
            _ => {}
        }
    }
    None
}

// ---------------------------------------------------------------- options
#[derive(Default, Clone, Debug)]
struct Opts {
    name: Option<String>, sig: Option<String>, ret: Option<String>, spec: String,
    loops: HashMap<usize, String>, looptop: HashMap<usize, String>, loopend: HashMap<usize, String>, loopbefore: HashMap<usize, String>, loopafter: HashMap<usize, String>,
    nloops: Option<usize>,
    head: String, tail: String,
    rename: HashMap<String, String>, rename_fn: HashMap<String, String>, kinds: HashMap<String, String>, closures: HashMap<usize, String>,
    eq: bool, eq_nostar: bool, typemap: HashMap<String, String>, attrs: String, fields: Vec<String>, after: HashMap<String, String>, get_leak: bool, tosp: Vec<String>,
    noimpl: bool, ranges: bool, selfname: Option<String>, derive: String, dflt: bool, drop_calls: BTreeSet<String>, derefs: BTreeSet<String>, keep_mut_self: bool, index: Option<String>,
    replace: Vec<(String, String)>, whenspec: Vec<(String, String)>, arr2fn: bool, rename_var: HashMap<String,String>, fors: HashMap<usize, String>, casts: HashMap<String,String>, out: Option<String>, addargs: HashMap<String, String>, noargs: BTreeSet<String>, drop_variants: BTreeSet<String>, drop_items: bool, units_and: Option<BTreeSet<String>>,
}

// ---------------------------------------------------------------- transformation
struct Tx<'a> { o: &'a Opts, counts: HashMap<String, usize>, nclosure: usize, nloop: usize, errs: Vec<String>, tmp: usize }

/// Verifier syntax that syn cannot parse, carried through further rewriting as the argument of a marker macro.
fn verb(t: TokenStream) -> Expr { Expr::Macro(ExprMacro { attrs: vec![], mac: parse_quote! { vx_verb! { #t } } }) }
fn unverb(t: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect(); let mut out = TokenStream::new(); let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Ident(m), Some(TokenTree::Punct(_)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) { if m == "vx_verb" { out.extend(unverb(g.stream())); i += 3; continue } }
        match &v[i] { TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), unverb(g.stream())); n.set_span(g.span()); out.extend([TokenTree::Group(n)]) } x => out.extend([x.clone()]) }
        i += 1;
    }
    out
}
fn toks(s: &str) -> TokenStream { s.parse().unwrap_or_else(|e| panic!("bad tokens in plan: {e}: {s}")) }

impl<'a> Tx<'a> {
    fn kind(&mut self, m: &str, default: &str) -> String {
        let n = { let c = self.counts.entry(m.to_string()).or_insert(0); let r = *c; *c += 1; r };
        self.o.kinds.get(&format!("{m}#{n}")).or_else(|| self.o.kinds.get(m)).cloned().unwrap_or(default.to_string())
    }
    fn fresh(&mut self) -> Ident { self.tmp += 1; Ident::new(&format!("vx_t{}", self.tmp), proc_macro2::Span::call_site()) }
    /// (pattern, body) of a closure argument, or an application of a path argument.
    fn fun(&mut self, e: &Expr) -> Option<(TokenStream, TokenStream)> {
        match e {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut p = c.inputs[0].clone();
                if let Pat::Type(pt) = &p { p = (*pt.pat).clone(); }
                let b = &c.body; Some((p.to_token_stream(), quote! { #b }))
            }
            Expr::Path(p) => { let t = self.fresh(); Some((quote! { #t }, quote! { #p(#t) })) }
            // an already-transformed closure may be Verbatim; not expected here
            _ => None,
        }
    }
    /// with `@@out NET`, `print!`/`println!` append their text to the stated output
    fn print_macro(&mut self, m: &mut Macro) {
        if self.o.out.is_none() { return }
        let n = path_str(&m.path);
        if n == "print" || n == "println" {
            let t = &m.tokens; let t = if t.is_empty() { quote! { "" } } else { t.clone() };
            m.path = parse_str(if n == "print" { "vx_print" } else { "vx_println" }).unwrap(); m.tokens = t;
        }
    }
    fn format_macro(&mut self, mac: &Macro) -> R<Expr> {
        let args: punctuated::Punctuated<Expr, Token![,]> = mac.parse_body_with(punctuated::Punctuated::parse_terminated).map_err(|e| e.to_string())?;
        let mut it = args.into_iter();
        let f = match it.next() { Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(), _ => return Err("format!: non-literal format string".into()) };
        let mut rest: Vec<Expr> = it.collect(); rest.reverse();
        let mut acc: TokenStream = quote! { vx_empty() };
        let mut first = true;
        let mut lit = String::new();
        let mut ch = f.chars().peekable();
        let flush = |lit: &mut String, acc: &mut TokenStream, first: &mut bool| { if !lit.is_empty() { let l = lit.clone(); *acc = if *first { quote! { vx_disp(&#l) } } else { quote! { vx_cat(#acc, #l) } }; *first = false; lit.clear(); } };
        while let Some(c) = ch.next() {
            match c {
                '{' if ch.peek() == Some(&'{') => { ch.next(); lit.push('{') }
                '}' if ch.peek() == Some(&'}') => { ch.next(); lit.push('}') }
                '{' => {
                    let mut inner = String::new();
                    loop { match ch.next() { Some('}') => break, Some(x) => inner.push(x), None => return Err("format!: unbalanced".into()) } }
                    let dbg = inner.ends_with(":?"); if dbg { inner.truncate(inner.len() - 2); }
                    if inner.contains(':') { return Err("format!: format spec".into()) }
                    flush(&mut lit, &mut acc, &mut first);
                    let e: Expr = if inner.is_empty() { rest.pop().ok_or("format!: missing arg")? } else { parse_str(&inner).map_err(|e| e.to_string())? };
                    let d = if dbg { quote! { vx_dbg(&#e) } } else { quote! { vx_disp(&#e) } };
                    acc = if first { d } else { quote! { vx_cat(#acc, #d) } }; first = false;
                }
                c => lit.push(c),
            }
        }
        flush(&mut lit, &mut acc, &mut first);
        parse2(acc).map_err(|e| e.to_string())
    }
}

/// equality looks through references, so the operands' own dereferences say nothing
fn nostar(e: &Expr, on: bool) -> &Expr { match e { Expr::Unary(u) if on && matches!(u.op, UnOp::Deref(_)) => nostar(&u.expr, on), Expr::Paren(p) if on => nostar(&p.expr, on), e => e } }
fn par(e: &Expr) -> Expr { if matches!(e, Expr::Binary(_) | Expr::Range(_) | Expr::Cast(_)) { parse_quote! { (#e) } } else { e.clone() } }
fn parse2_pat(t: TokenStream) -> Pat { parse::Parser::parse2(Pat::parse_single, t).unwrap() }
fn path_str(p: &Path) -> String { p.to_token_stream().to_string().replace(' ', "") }

impl<'a> VisitMut for Tx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let attrs: Vec<Attribute> = match &s {
                Stmt::Local(l) => l.attrs.clone(),
                Stmt::Macro(m) => m.attrs.clone(),
                Stmt::Expr(e, _) => expr_attrs(e),
                Stmt::Item(_) => vec![],
            };
            if !keep(&attrs) { continue }
            if let Stmt::Macro(m) = &mut s { self.print_macro(&mut m.mac); }
            if let Stmt::Expr(Expr::Macro(m), _) = &mut s { self.print_macro(&mut m.mac); }
            if let Stmt::Macro(m) = &s {
                let n = path_str(&m.mac.path);
                if ["debug", "eprintln", "println", "eprint", "debug_assert"].contains(&n.as_str()) { continue }
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                s = Stmt::Expr(e, m.semi_token);
            }
            if let Stmt::Expr(Expr::Macro(m), _) = &s {
                let n = path_str(&m.mac.path);
                if ["debug", "eprintln", "println", "eprint"].contains(&n.as_str()) { continue }
            }
            if let Stmt::Item(Item::Use(_)) = &s { continue }
            // a visitor declared inside: its methods are under contract on their own
            if let Stmt::Item(Item::Impl(_) | Item::Struct(_)) = &s { if self.o.drop_items { continue } }
            match &mut s {
                Stmt::Local(l) => l.attrs.clear(),
                Stmt::Expr(e, _) => clear_attrs(e),
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
        // splice after-statements ghost text
        if !self.o.after.is_empty() {
            let mut out = vec![];
            for s in std::mem::take(&mut b.stmts) {
                let mut add = None;
                if let Stmt::Local(l) = &s {
                    let p = match &l.pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                    let n = match &p { Pat::Ident(i) => i.ident.to_string(), p => p.to_token_stream().to_string() };
                    add = self.o.after.get(&n).cloned();
                }
                out.push(s);
                if let Some(a) = add { out.push(Stmt::Expr(Expr::Verbatim(toks(&a)), None)); }
            }
            b.stmts = out;
        }
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| keep(&a.attrs));
        for a in &mut m.arms { a.attrs.clear();
            // a string literal in a pattern is a binding compared in the guard
            let mut lits: Vec<(Ident, LitStr)> = vec![];
            struct L<'z>(&'z mut Vec<(Ident, LitStr)>, &'z mut usize);
            impl<'z> VisitMut for L<'z> { fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Lit(l) = p { if let Lit::Str(s) = &l.lit { *self.1 += 1; let i = Ident::new(&format!("vx_l{}", self.1), proc_macro2::Span::call_site()); self.0.push((i.clone(), s.clone())); *p = parse2_pat(quote! { #i }); return } }
                visit_mut::visit_pat_mut(self, p) } }
            if !matches!(a.pat, Pat::Or(_)) { L(&mut lits, &mut self.tmp).visit_pat_mut(&mut a.pat); }
            for (i, s) in lits { let g: Expr = parse_quote! { vx_streq(#i, #s) }; a.guard = Some(match a.guard.take() { None => (Default::default(), Box::new(g)), Some((t, old)) => (t, Box::new(parse_quote! { #g && (#old) })) }); }
        }
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        let f: Vec<FieldValue> = s.fields.iter().filter(|f| keep(&f.attrs)).cloned().map(|mut f| { f.attrs.clear(); f }).collect();
        s.fields = f.into_iter().collect(); if s.rest.is_some() && !s.fields.empty_or_trailing() { s.fields.push_punct(Default::default()); }
        visit_mut::visit_expr_struct_mut(self, s);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        p.leading_colon = None;
        // strip crate-internal module prefixes
        while p.segments.len() > 1 && ["crate", "super"].contains(&p.segments[0].ident.to_string().as_str()) {
            p.segments = p.segments.iter().skip(1).cloned().collect(); p.leading_colon = None;
        }
        if p.segments.len() > 1 && p.segments[0].ident == "Self" && p.segments[1].ident == "Value" { if let Some(n) = self.o.typemap.get("Self::Value") {
            let np: Path = parse_str(n).unwrap(); p.segments = np.segments.into_iter().chain(p.segments.iter().skip(2).cloned()).collect(); } }
        let full = path_str(p);
        if let Some(n) = self.o.rename_fn.get(&full) { *p = parse_str(n).unwrap(); return }
        for i in 0..p.segments.len() {
            let id = p.segments[i].ident.to_string();
            if let Some(n) = self.o.typemap.get(&id) {
                // a target written `X<>` keeps the type arguments
                let np: Path = parse_str(n.trim_end_matches("<>")).unwrap_or_else(|e| panic!("typemap {n}: {e}"));
                let mut segs: Vec<PathSegment> = np.segments.iter().cloned().collect();
                if n.ends_with("<>") { segs.last_mut().unwrap().arguments = p.segments[i].arguments.clone(); }
                segs.extend(p.segments.iter().skip(i + 1).cloned());
                p.segments = segs.into_iter().collect(); p.leading_colon = None;
                break;
            }
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::Ident(i) = p { if let Some(n) = self.o.rename_var.get(&i.ident.to_string()) { i.ident = parse_str(n).unwrap(); } }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `<T>::f` is `T::f`
        if let Expr::Path(x) = e { if let Some(q) = &x.qself { if let (0, Type::Path(t)) = (q.position, &*q.ty) { if t.qself.is_none() {
            let segs: Vec<PathSegment> = t.path.segments.iter().chain(x.path.segments.iter()).cloned().collect();
            x.path.segments = segs.into_iter().collect(); x.path.leading_colon = None; x.qself = None;
        } } } }
        // macro expansion first, so that the arguments get visited
        if let Expr::Macro(m) = e {
            let n = path_str(&m.mac.path);
            let r: R<Option<Expr>> = (|| {
                Ok(match n.as_str() {
                    "get_str" | "get_string" | "get_cow" => {
                        let a: punctuated::Punctuated<Expr, Token![,]> = m.mac.parse_body_with(punctuated::Punctuated::parse_terminated).map_err(|e| e.to_string())?;
                        if a.len() != 3 { return Err("get_*! arity".into()) }
                        let (v, st, er) = (&a[0], &a[1], &a[2]);
                        let base = quote! { #v.get(&#st.to_view())?.ok_or(#er::StringSourceIsNone)? };
                        Some(match n.as_str() { "get_str" => parse_quote! { vx_leak(#base) }, "get_string" => parse_quote! { #base.into_owned() }, _ => parse_quote! { #base } })
                    }
                    "format" => Some(self.format_macro(&m.mac)?),
                    "vx_print" | "vx_println" => { let t = self.format_macro(&m.mac)?; let net: Expr = parse_str(self.o.out.as_ref().unwrap()).unwrap(); let t = if n == "vx_print" { t } else { parse_quote! { vx_cat(#t, "\n") } }; Some(parse_quote! { vx_out(#net, #t) }) }
                    "matches" => {
                        // matches!(e, pat) => match e { pat => true, _ => false }
                        struct MM { e: Expr, p: Pat, g: Option<Expr> }
                        impl parse::Parse for MM { fn parse(i: parse::ParseStream) -> Result<Self> { let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<Token![,]>>(); Ok(MM { e, p, g }) } }
                        let mm: MM = m.mac.parse_body().map_err(|e| e.to_string())?;
                        let (a, p) = (mm.e, mm.p);
                        Some(match mm.g { Some(g) => parse_quote! { match #a { #p if #g => true, _ => false } }, None => parse_quote! { match #a { #p => true, _ => false } } })
                    }
                    "vec" => None,
                    // a failed assertion diverges; what its message says is not kept
                    "assert" | "assert_eq" | "assert_ne" => {
                        let a: punctuated::Punctuated<Expr, Token![,]> = m.mac.parse_body_with(punctuated::Punctuated::parse_terminated).map_err(|e| e.to_string())?;
                        let (x, y) = (&a[0], a.get(1));
                        Some(match n.as_str() { "assert" => parse_quote! { vx_assert(#x) }, "assert_eq" => parse_quote! { vx_assert(vx_same_value(&#x, &#y)) }, _ => parse_quote! { vx_assert(!vx_same_value(&#x, &#y)) } })
                    }
                    "unreachable" | "panic" => Some(parse_quote! { vx_unreachable() }),
                    other => return Err(format!("unknown macro {other}!")),
                })
            })();
            match r { Ok(Some(x)) => *e = x, Ok(None) => {}, Err(x) => self.errs.push(x) }
        }
        clear_attrs(e);
        let is_for = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_));
        let loop_idx = if is_for { let i = self.nloop; self.nloop += 1; i } else { 0 };
        visit_mut::visit_expr_mut(self, e);
        // `match M.entry(K) { Entry::Vacant(p) => A, Entry::Occupied(q) => B }`: a lookup, then operations on M at K
        // an arm with both a guard and alternatives: one arm per alternative
        if let Expr::Match(m) = e { if m.arms.iter().any(|a| a.guard.is_some()) { m.arms = std::mem::take(&mut m.arms).into_iter().flat_map(|a| { if a.guard.is_none() { vec![a] } else { alternatives(&a.pat).into_iter().map(|p| { let mut b = a.clone(); b.pat = p; b.comma.get_or_insert(Default::default()); b }).collect() } }).collect(); } }
        if let Expr::Match(m) = e { if let Expr::MethodCall(i) = &*m.expr { if i.method == "entry" && i.args.len() == 1 {
            match entry_match(m, &i.receiver, &i.args[0]) { Ok(x) => *e = x, Err(x) => self.errs.push(x) }
        } } }
        match e {
            Expr::MethodCall(mc) => {
                let name = mc.method.to_string();
                if self.o.drop_calls.contains(&name) { let r = (*mc.receiver).clone(); *e = r; return }
                if let Some(x) = self.o.addargs.get(&name) { mc.args.push(parse_str(x).unwrap()); }
                if self.o.noargs.contains(&name) { mc.args.clear(); }
                let recv = mc.receiver.clone();
                let repl: Option<TokenStream> = match name.as_str() {
                    "map" if mc.args.len() == 1 => {
                        let k = self.kind("map", "option");
                        if k == "keep" { None } else { self.fun(&mc.args[0]).map(|(p, b)| match k.as_str() {
                            "option" => quote! { (match #recv { Some(#p) => Some(#b), None => None }) },
                            _ => quote! { (match #recv { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) }) } }) }
                    }
                    "and_then" if mc.args.len() == 1 => {
                        let k = self.kind("and_then", "option");
                        if k == "keep" { None } else { self.fun(&mc.args[0]).map(|(p, b)| match k.as_str() {
                            "option" => quote! { (match #recv { Some(#p) => #b, None => None }) },
                            _ => quote! { (match #recv { Ok(#p) => #b, Err(vx_e) => Err(vx_e) }) } }) }
                    }
                    "is_some_and" if mc.args.len() == 1 => { if self.kind("is_some_and", "option") == "keep" { None } else { self.fun(&mc.args[0]).map(|(p, b)| quote! { (match #recv { Some(#p) => #b, None => false }) }) } }
                    "is_none_or" if mc.args.len() == 1 => { self.fun(&mc.args[0]).map(|(p, b)| quote! { (match #recv { Some(#p) => #b, None => true }) }) }
                    "map_or" if mc.args.len() == 2 => { let d = mc.args[0].clone(); self.fun(&mc.args[1]).map(|(p, b)| quote! { (match #recv { Some(#p) => #b, None => #d }) }) }
                    "filter" if mc.args.len() == 1 => {
                        let k = self.kind("filter", "option");
                        if k == "keep" { None } else { self.fun(&mc.args[0]).map(|(p, b)| quote! { (match #recv { Some(vx_v) => { let vx_keep = { let #p = &vx_v; #b }; if vx_keep { Some(vx_v) } else { None } }, None => None }) }) }
                    }
                    "map_err" if mc.args.len() == 1 => { if self.kind("map_err", "result") == "keep" { None } else { self.fun(&mc.args[0]).map(|(p, b)| quote! { (match #recv { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) }) }) } }
                    "or_else" if mc.args.len() == 1 => { let k = self.kind("or_else", "result"); match (&mc.args[0], k.as_str()) {
                        (_, "result") => self.fun(&mc.args[0]).map(|(p, b)| quote! { (match #recv { Ok(vx_v) => Ok(vx_v), Err(#p) => #b }) }),
                        (Expr::Closure(c), "option") => { let b = &c.body; Some(quote! { (match #recv { Some(vx_v) => Some(vx_v), None => #b }) }) }
                        _ => None } }
                    "unwrap_or_else" if mc.args.len() == 1 => { let k = self.kind("unwrap_or_else", "option"); match (&mc.args[0], k.as_str()) {
                        (Expr::Closure(c), "option") => { let b = &c.body; Some(quote! { (match #recv { Some(vx_v) => vx_v, None => #b }) }) }
                        (a, "result") => { let a = a.clone(); self.fun(&a).map(|(p, b)| quote! { (match #recv { Ok(vx_v) => vx_v, Err(#p) => #b }) }) }
                        _ => None } }
                    "ok_or_else" if mc.args.len() == 1 => match &mc.args[0] { Expr::Closure(c) => { let b = &c.body; Some(quote! { (match #recv { Some(vx_v) => Ok(vx_v), None => Err(#b) }) }) } _ => None },
                    "then" if mc.args.len() == 1 => match &mc.args[0] { Expr::Closure(c) => { let b = &c.body; Some(quote! { (if #recv { Some(#b) } else { None }) }) } _ => None },
                    "or_default" if mc.args.is_empty() => match &*mc.receiver { Expr::MethodCall(i) if i.method == "entry" && i.args.len() == 1 => { let (m, k) = (&i.receiver, &i.args[0]); Some(quote! { #m.vx_entry_or_default(#k) }) } _ => None },
                    "then_some" if mc.args.len() == 1 => { let b = mc.args[0].clone(); Some(quote! { (if #recv { Some(#b) } else { None }) }) }
                    "zip" if mc.args.len() == 1 && self.kind("zip", "keep") == "option" => { let b = mc.args[0].clone(); Some(quote! { (match (#recv, #b) { (Some(vx_a), Some(vx_b)) => Some((vx_a, vx_b)), _ => None }) }) }
                    _ => None,
                };
                if let Some(r) = repl { *e = parse2(r.clone()).unwrap_or_else(|x| panic!("desugar {x}: {r}")); return }
                let n = { let c = self.counts.entry(format!("call:{name}")).or_insert(0); let r = *c; *c += 1; r };
                if let Some(nn) = self.o.rename.get(&format!("{name}#{n}")).or_else(|| self.o.rename.get(&name)) {
                    let nn = nn.clone();
                    if nn.ends_with("()") { // a free function taking the receiver first
                        let f: Path = parse_str(nn.trim_end_matches("()")).unwrap(); let a = &mc.args;
                        *e = if a.is_empty() { parse_quote! { #f(#recv) } } else { parse_quote! { #f(#recv, #a) } };
                    } else { if !nn.ends_with("_to") { mc.turbofish = None; } mc.method = parse_str(&nn).unwrap(); }
                }
            }
            Expr::Binary(b) if self.o.eq => match b.op {
                BinOp::Eq(_) => { let (l, r) = (par(nostar(&b.left, self.o.eq_nostar)), par(nostar(&b.right, self.o.eq_nostar))); *e = parse_quote! { vx_eq(&#l, &#r) } }
                BinOp::Ne(_) => { let (l, r) = (par(nostar(&b.left, self.o.eq_nostar)), par(nostar(&b.right, self.o.eq_nostar))); *e = parse_quote! { !vx_eq(&#l, &#r) } }
                _ => {}
            },
            Expr::Range(r) if self.o.ranges => {
                let lo = match &r.start { Some(x) => quote! { Bound::Included(#x) }, None => quote! { Bound::Unbounded } };
                let hi = match (&r.end, &r.limits) { (None, _) => quote! { Bound::Unbounded }, (Some(x), RangeLimits::HalfOpen(_)) => quote! { Bound::Excluded(#x) }, (Some(x), RangeLimits::Closed(_)) => quote! { Bound::Included(#x) } };
                *e = parse_quote! { (#lo, #hi) };
            }
            Expr::Index(ix) => if let Some(f) = &self.o.index { let (a, i) = (&ix.expr, &ix.index); let f: Path = parse_str(f).unwrap(); *e = parse_quote! { #f(&#a, #i) } },
            Expr::Cast(c) => if let Some(f) = self.o.casts.get(&c.ty.to_token_stream().to_string()) { let (a, f) = (&c.expr, parse_str::<Path>(f).unwrap()); *e = parse_quote! { #f(#a) } },
            Expr::Closure(c) => {
                let i = self.nclosure; self.nclosure += 1;
                if let Some(h) = self.o.closures.get(&i) { let b = &c.body; let h = toks(h);
                    let pats: Vec<TokenStream> = c.inputs.iter().enumerate().filter_map(|(k, p)| { let p = match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }; if matches!(p, Pat::Ident(_) | Pat::Wild(_)) { None } else { let v = Ident::new(&(if k == 0 { "vx_p".to_string() } else { format!("vx_p{k}") }), proc_macro2::Span::call_site()); Some(quote! { let #p = #v; }) } }).collect();
                    let b = quote! { #(#pats)* #b }; *e = verb(quote! { #h { #b } }) }
            }
            Expr::ForLoop(f) => {
                let inv = toks(self.o.loops.get(&loop_idx).map(|s| s.as_str()).unwrap_or(""));
                let top = toks(self.o.looptop.get(&loop_idx).map(|s| s.as_str()).unwrap_or(""));
                let end = toks(self.o.loopend.get(&loop_idx).map(|s| s.as_str()).unwrap_or(""));
                let before = toks(self.o.loopbefore.get(&loop_idx).map(|s| s.as_str()).unwrap_or(""));
                let after = toks(self.o.loopafter.get(&loop_idx).map(|s| s.as_str()).unwrap_or(""));
                let it = Ident::new(&format!("it{loop_idx}"), proc_macro2::Span::call_site());
                let (pat, ex, body, label) = (&f.pat, &f.expr, &f.body.stmts, &f.label);
                let how = self.o.fors.get(&loop_idx).cloned().unwrap_or_default();
                let t = if how.starts_with("forever") {
                    // `for PAT in EXPR` over an iterator that never ends: a loop that asks for the next element
                    let v = Ident::new(&format!("vx_v{loop_idx}"), proc_macro2::Span::call_site());
                    let get: Path = parse_str(how.split_whitespace().nth(1).unwrap()).unwrap();
                    quote! { { #before let mut #v = #ex; #label loop #inv { #top let #pat = #get(&mut #v); #(#body)* #end } #after } }
                } else if how.starts_with("index") {
                    // `for PAT in EXPR` where EXPR is (a reference to) something with Vec indexing: an index loop over the same elements in the same order
                    let v = Ident::new(&format!("vx_v{loop_idx}"), proc_macro2::Span::call_site());
                    let i = Ident::new(&format!("vx_i{loop_idx}"), proc_macro2::Span::call_site());
                    let get: Path = parse_str(how.split_whitespace().nth(1).unwrap_or("vx_nth")).unwrap();
                    let n = Ident::new(&format!("vx_n{loop_idx}"), proc_macro2::Span::call_site());
                    quote! { { #before let #v = #ex; let #n = vx_count(&#v); let mut #i: usize = 0; #label while #i < #n #inv { #top let #pat = #get(&#v, #i); #i = #i + 1; #(#body)* #end } #after } }
                } else if before.is_empty() && after.is_empty() { quote! { #label for #pat in #it: #ex #inv { #top #(#body)* #end } } }
                else { quote! { { #before #label for #pat in #it: #ex #inv { #top #(#body)* #end } #after } } };
                *e = verb(t);
            }
            Expr::While(f) => {
                let inv = toks(self.o.loops.get(&loop_idx).map(|s| s.as_str()).unwrap_or(""));
                let top = toks(self.o.looptop.get(&loop_idx).map(|s| s.as_str()).unwrap_or(""));
                let end = toks(self.o.loopend.get(&loop_idx).map(|s| s.as_str()).unwrap_or(""));
                let (c, body, label) = (&f.cond, &f.body.stmts, &f.label);
                // `while let P = E { B }`  =>  `loop { match E { P => { B } _ => break } }`
                *e = if let Expr::Let(l) = &**c { let (p, x) = (&l.pat, &l.expr); verb(quote! { #label loop #inv { #top match #x { #p => { #(#body)* #end } _ => { break; } } } }) } else { verb(quote! { #label while #c #inv { #top #(#body)* #end } }) };
            }
            Expr::Loop(f) => {
                let inv = toks(self.o.loops.get(&loop_idx).map(|s| s.as_str()).unwrap_or(""));
                let (body, label) = (&f.body.stmts, &f.label);
                *e = verb(quote! { #label loop #inv { #(#body)* } });
            }
            _ => {}
        }
        // `&text[range]`: the slice function already returns a reference
        if let Expr::Reference(r) = e { if let Expr::Call(c) = &*r.expr { if self.o.index.as_deref() == Some("vx_slice") && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vx_slice")) { let c = c.clone(); *e = Expr::Call(c); } } }
        // `&*f()?`: reading an owned text through its dereference
        if let Expr::Reference(r) = e { if let Expr::Unary(u) = &*r.expr { if matches!(u.op, UnOp::Deref(_)) { if let Expr::Try(t) = &*u.expr { let t = t.clone(); *e = parse_quote! { vx_leak(#t) }; } else if let Expr::Path(p) = &*u.expr { if p.path.get_ident().is_some_and(|i| self.o.derefs.contains(&i.to_string())) { let p = p.clone(); *e = parse_quote! { vx_tref(&#p) }; } } } } }
        if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if let Some(n) = self.o.rename_var.get(&i.to_string()) { *e = parse_str(n).unwrap(); } } }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
    }
}
/// the alternatives a pattern lists, at any depth of tuples
fn alternatives(p: &Pat) -> Vec<Pat> {
    let list = |ps: &punctuated::Punctuated<Pat, Token![,]>| ps.iter().fold(vec![vec![]], |acc: Vec<Vec<Pat>>, p| acc.into_iter().flat_map(|v| alternatives(p).into_iter().map(move |q| { let mut w = v.clone(); w.push(q); w })).collect());
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(alternatives).collect(),
        Pat::Paren(q) => alternatives(&q.pat),
        Pat::Tuple(t) => list(&t.elems).into_iter().map(|v| { let mut t = t.clone(); t.elems = v.into_iter().collect(); Pat::Tuple(t) }).collect(),
        Pat::TupleStruct(t) => list(&t.elems).into_iter().map(|v| { let mut t = t.clone(); t.elems = v.into_iter().collect(); Pat::TupleStruct(t) }).collect(),
        p => vec![p.clone()],
    }
}
fn entry_match(m: &ExprMatch, map: &Expr, key: &Expr) -> R<Expr> {
    struct Sub<'a> { v: Option<Ident>, map: &'a Expr, bad: bool }
    impl VisitMut for Sub<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let Some(v) = &self.v else { return };
            let is = |x: &Expr| matches!(x, Expr::Path(p) if p.path.is_ident(v));
            if let Expr::MethodCall(c) = e { if is(&c.receiver) {
                let (m, a) = (self.map, &c.args);
                let n = c.method.to_string();
                let n = n.strip_prefix("vx_").unwrap_or(&n);
                *e = match n {
                    "insert" => parse_quote! { #m.vx_insert_at(vx_k, #a) },
                    "remove_entry" => parse_quote! { #m.vx_remove_entry(vx_k) },
                    "get" => parse_quote! { #m.vx_at(&vx_k) },
                    _ => { self.bad = true; return }
                };
            } } else if is(e) { /* counted by the caller of `visit`: a bare use is left and will not compile */ }
        }
    }
    let (mut vac, mut occ) = (None, None);
    for a in &m.arms {
        let Pat::TupleStruct(t) = &a.pat else { return Err("entry match: pattern".into()) };
        if t.elems.len() != 1 || a.guard.is_some() { return Err("entry match: pattern".into()) }
        let v = match &t.elems[0] { Pat::Ident(i) => Some(i.ident.clone()), Pat::Wild(_) => None, _ => return Err("entry match: pattern".into()) };
        let mut b = (*a.body).clone(); let mut s = Sub { v, map, bad: false }; s.visit_expr_mut(&mut b);
        if s.bad { return Err("entry match: method".into()) }
        match t.path.segments.last().unwrap().ident.to_string().as_str() { "Vacant" => vac = Some(b), "Occupied" => occ = Some(b), _ => return Err("entry match: variant".into()) }
    }
    let (Some(a), Some(b)) = (vac, occ) else { return Err("entry match: arms".into()) };
    Ok(parse_quote! { { let vx_k = #key; if #map.vx_has_key(&vx_k) { #b } else { #a } } })
}
fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    macro_rules! g { ($($v:ident),*) => { match e { $(Expr::$v(x) => x.attrs.clone(),)* _ => vec![] } } }
    g!(Assign, Binary, Block, Break, Call, Cast, Closure, Continue, Field, ForLoop, If, Index, Let, Lit, Loop, Macro, Match, MethodCall, Paren, Path, Reference, Return, Struct, Try, Tuple, Unary, Unsafe, While)
}
fn clear_attrs(e: &mut Expr) {
    macro_rules! g { ($($v:ident),*) => { match e { $(Expr::$v(x) => x.attrs.clear(),)* _ => {} } } }
    g!(Assign, Binary, Block, Break, Call, Cast, Closure, Continue, Field, ForLoop, If, Index, Let, Lit, Loop, Macro, Match, MethodCall, Paren, Path, Reference, Return, Struct, Try, Tuple, Unary, Unsafe, While)
}

// ---------------------------------------------------------------- printing
fn print_tokens(ts: TokenStream, out: &mut String, indent: usize) {
    let mut joint = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Brace => ("{", "}"), Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                if !joint && !out.ends_with(['(', '[', '\n']) { out.push(' '); }
                out.push_str(o);
                if g.delimiter() == Delimiter::Brace {
                    let _ = write!(out, "\n{}", "  ".repeat(indent + 1));
                    print_tokens(g.stream(), out, indent + 1);
                    while out.ends_with([' ', '\n']) { out.pop(); }
                    let _ = write!(out, "\n{}{}\n{}", "  ".repeat(indent), c, "  ".repeat(indent));
                } else { print_tokens(g.stream(), out, indent); out.push_str(c); }
                joint = false;
            }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                if !joint && !out.ends_with(['(', '[', '\n']) && ch != ';' && ch != ',' { out.push(' '); }
                out.push(ch);
                joint = p.spacing() == Spacing::Joint;
                if ch == ';' { let _ = write!(out, "\n{}", "  ".repeat(indent)); }
            }
            TokenTree::Ident(i) => { if !joint && !out.ends_with(['(', '[', '\n']) { out.push(' '); } let _ = write!(out, "{i}"); joint = false; }
            TokenTree::Literal(l) => { if !joint && !out.ends_with(['(', '[', '\n']) { out.push(' '); } let _ = write!(out, "{l}"); joint = false; }
        }
    }
}
fn pt(ts: TokenStream) -> String { let mut s = String::new(); print_tokens(ts, &mut s, 0); s }

// ---------------------------------------------------------------- fn emission
struct Emitted { text: String, info: String }
/// A contract without a body: what callers see of a function that was dropped or could not be extracted.
fn emit_stub(found: &Found, o: &Opts) -> R<Emitted> {
    let mut o = o.clone();
    for m in [&mut o.loops, &mut o.looptop, &mut o.loopend, &mut o.closures, &mut o.fors] { m.clear(); }
    o.nloops = None; o.replace.clear(); o.head.clear(); o.tail.clear();
    o.attrs = "#[verifier::external_body]".into();
    emit_fn(found, &o, Some(parse_quote! {{ unimplemented() }}))
}

fn count_loops(b: &Block) -> usize {
    struct C(usize);
    impl<'x> visit::Visit<'x> for C { fn visit_expr(&mut self, e: &'x Expr) { if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) { self.0 += 1 } visit::visit_expr(self, e) } }
    let mut c = C(0); visit::Visit::visit_block(&mut c, b); c.0
}
fn calls(b: &Block) -> BTreeSet<String> {
    struct C(BTreeSet<String>);
    impl<'x> visit::Visit<'x> for C {
        fn visit_expr_method_call(&mut self, m: &'x ExprMethodCall) { self.0.insert(format!(".{}", m.method)); visit::visit_expr_method_call(self, m) }
        fn visit_expr_call(&mut self, m: &'x ExprCall) { if let Expr::Path(p) = &*m.func { self.0.insert(path_str(&p.path)); } visit::visit_expr_call(self, m) }
    }
    let mut c = C(Default::default()); visit::Visit::visit_block(&mut c, b); c.0
}

/// replaces every occurrence of `a` in `body`, comparing without white space
fn replace_nows(body: &str, a: &str, b: &str) -> Option<String> {
    let a: Vec<char> = a.chars().filter(|c| !c.is_whitespace()).collect();
    let idx: Vec<(usize, char)> = body.char_indices().filter(|(_, c)| !c.is_whitespace()).collect();
    let mut out = String::new(); let mut last = 0; let mut i = 0; let mut any = false;
    while i + a.len() <= idx.len() {
        if (0..a.len()).all(|k| idx[i + k].1 == a[k]) { any = true; out.push_str(&body[last..idx[i].0]); out.push_str(b); let e = idx[i + a.len() - 1]; last = e.0 + e.1.len_utf8(); i += a.len(); } else { i += 1 }
    }
    out.push_str(&body[last..]); if any { Some(out) } else { None }
}
fn emit_fn(found: &Found, o: &Opts, block_override: Option<Block>) -> R<Emitted> {
    let (mut sig, block, imp) = match found {
        Found::Fn(f) => (f.sig.clone(), (*f.block).clone(), None),
        Found::Method { imp, f } => (f.sig.clone(), f.block.clone(), Some(imp.clone())),
        _ => return Err("not a fn".into()),
    };
    let mut block = block_override.unwrap_or(block);
    if o.drop_items { block.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Impl(_) | Item::Struct(_)))) }
    let nl = count_loops(&block);
    let expected = o.nloops.unwrap_or_else(|| o.loops.keys().max().map(|x| x + 1).unwrap_or(0));
    if nl != expected { return Err(format!("loop structure changed: {nl} loops, contracts for {expected}")) }
    let mut tx = Tx { o, counts: Default::default(), nclosure: 0, nloop: 0, errs: vec![], tmp: 0 };
    tx.visit_block_mut(&mut block);
    tx.visit_signature_mut(&mut sig);
    if let Some(e) = tx.errs.first() { return Err(e.clone()) }
    if let Some(mx) = o.closures.keys().max() { if *mx >= tx.nclosure { return Err("closure structure changed".into()) } }
    sig.constness = None;
    let name = o.name.clone().unwrap_or(sig.ident.to_string());
    sig.ident = parse_str(&name).map_err(|e| e.to_string())?;
    let sigtxt = if let Some(s) = &o.sig { s.clone() } else {
        let ret = o.ret.clone().unwrap_or("r".into());
        let out = match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => format!(" -> ({ret}: {})", pt(t.to_token_stream()).trim()) };
        let mut s2 = sig.clone(); s2.output = ReturnType::Default;
        let wh = s2.generics.where_clause.take();
        let wh = wh.map(|w| pt(w.to_token_stream())).unwrap_or_default();
        format!("{}{} {}", pt(s2.to_token_stream()).trim(), out, wh)
    };
    let head = o.head.trim();
    let stmts = &block.stmts;
    let mut body = pt(unverb(quote! { #(#stmts)* }));
    for (a, b) in &o.replace { body = replace_nows(&body, a, b).ok_or(format!("replace anchor not found: {a}"))?; }
    let mut t = String::new();
    let inim = imp.is_some() && !o.noimpl;
    if inim {
        let im = imp.as_ref().unwrap();
        let mut gen = im.generics.clone(); let mut st = (*im.self_ty).clone();
        let mut tx = Tx { o, counts: Default::default(), nclosure: 0, nloop: 0, errs: vec![], tmp: 0 };
        tx.visit_type_mut(&mut st); tx.visit_generics_mut(&mut gen);
        let (ig, _, wh) = gen.split_for_impl();
        // anonymous lifetimes in the self type are fine
        let _ = writeln!(t, "impl{} {} {} {{", ig.to_token_stream(), st.to_token_stream(), wh.to_token_stream());
    }
    let mut sigtxt = sigtxt; let mut spec = o.spec.trim_end().to_string();
    if std::env::var("VX_VACUITY").is_ok() && !o.attrs.contains("external_body") {
        // reachability probe: the same body under the same precondition must NOT satisfy `ensures false`;
        // callers keep seeing the real contract (as a stub)
        let _ = writeln!(t, "#[verifier::external_body]\npub {sigtxt}\n{spec}\n{{ unimplemented!() }}");
        let k = sigtxt.find(&format!("fn {name}")).ok_or("vacuity: name")?;
        sigtxt = format!("{}fn {name}__vac{}", &sigtxt[..k], &sigtxt[k + 3 + name.len()..]);
        let cut = [spec.find("ensures"), spec.find("default_ensures")].into_iter().flatten().min().unwrap_or(spec.len());
        spec = format!("{}\nensures false,", spec[..cut].trim_end());
        if !spec.starts_with("requires") && cut > 0 && !spec.trim_start().starts_with("ensures") { /* keep as is */ }
    }
    if !o.attrs.is_empty() { let _ = writeln!(t, "{}", o.attrs); }
    let _ = writeln!(t, "pub {sigtxt}\n{spec}\n{{");
    if !head.is_empty() { let _ = writeln!(t, "{head}"); }
    let _ = writeln!(t, "{body}\n{}}}", if o.tail.is_empty() { String::new() } else { format!("{}\n", o.tail) });
    if inim { t.push_str("}\n"); }
    Ok(Emitted { text: t, info: format!("loops={nl}") })
}

// ---------------------------------------------------------------- arms
/// Finds the match on `self` (or `(self, x)`) in the function: must be a direct statement, optionally wrapped in `Ok(..)` or `Some(..)`.
fn find_match(b: &mut Block) -> Option<&mut ExprMatch> {
    fn inner(e: &mut Expr) -> Option<&mut ExprMatch> {
        match e {
            Expr::Match(m) => { let s = m.expr.to_token_stream().to_string(); if s == "self" || s.starts_with("(self ,") { Some(m) } else { None } }
            Expr::Call(c) if c.args.len() == 1 => inner(&mut c.args[0]),
            Expr::Paren(p) => inner(&mut p.expr),
            _ => None,
        }
    }
    for s in b.stmts.iter_mut() { if let Stmt::Expr(e, _) = s { if let Some(m) = inner(e) { return Some(m) } } else if let Stmt::Local(l) = s { if let Some(i) = &mut l.init { if let Some(m) = inner(&mut i.expr) { return Some(m) } } } }
    None
}
fn pat_variants(p: &Pat, out: &mut Vec<String>) {
    let last = |p: &Path, out: &mut Vec<String>| { if p.segments.len() >= 2 { out.push(p.segments.last().unwrap().ident.to_string()) } };
    match p {
        Pat::Path(x) => last(&x.path, out),
        Pat::TupleStruct(x) => last(&x.path, out),
        Pat::Struct(x) => last(&x.path, out),
        Pat::Or(o) => for c in &o.cases { pat_variants(c, out) },
        Pat::Tuple(t) => { if let Some(f) = t.elems.first() { pat_variants(f, out) } }
        Pat::Paren(p) => pat_variants(&p.pat, out),
        Pat::Reference(r) => pat_variants(&r.pat, out),
        Pat::Wild(_) | Pat::Ident(_) => out.push("_".into()),
        _ => out.push("?".into()),
    }
}
/// Specialise the function to one variant: every arm of the dispatch match that cannot match it is dropped (and a
/// catch-all `_ => vx_unreachable()` is added, whose precondition is `false`).
fn specialise(b: &Block, variant: &str) -> R<Block> {
    let mut b = b.clone();
    let m = find_match(&mut b).ok_or("dispatch match not found")?;
    m.arms.retain(|a| keep(&a.attrs));
    let mut n = 0; let mut has_wild = false;
    let mut arms = vec![];
    for a in &m.arms {
        let mut vs = vec![]; pat_variants(&a.pat, &mut vs);
        if vs.iter().any(|v| v == variant) { n += 1; arms.push(a.clone()); }
        else if vs.iter().any(|v| v == "_" || v == "?") { arms.push(a.clone()); has_wild = true; n += 1; }
    }
    if n == 0 { return Err(format!("no arm for {variant}")) }
    if !has_wild { arms.push(parse_quote! { _ => vx_unreachable(), }); }
    m.arms = arms;
    Ok(b)
}

// ---------------------------------------------------------------- types
/// What `#[derive(Default)]` makes: an enum's `#[default]` variant, a struct of default fields.
fn derived_default(found: &Found) -> R<String> {
    let derives = |attrs: &[Attribute]| attrs.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().to_string().contains("Default"));
    match found {
        Found::Enum(e) => { if !derives(&e.attrs) { return Err("Default is not derived".into()) }
            let v = e.variants.iter().find(|v| keep(&v.attrs) && v.attrs.iter().any(|a| a.path().is_ident("default"))).ok_or("no #[default] variant")?;
            Ok(format!("impl VxDef for {0} {{ open spec fn is_def(&self) -> bool {{ *self == {0}::{1} }} fn vx_def() -> (r: Self) {{ {0}::{1} }} }}\n", e.ident, v.ident)) }
        Found::Struct(s) => { if !derives(&s.attrs) { return Err("Default is not derived".into()) }
            let f: Vec<String> = s.fields.iter().filter(|f| keep(&f.attrs)).map(|f| format!("VxDef::is_def(&self.{})", f.ident.as_ref().unwrap())).collect();
            let (g, _, w) = s.generics.split_for_impl(); if !s.generics.params.is_empty() { let _ = (g, w); return Err("generic".into()) }
            Ok(format!("impl VxDef for {0} {{ open spec fn is_def(&self) -> bool {{ {1} }} #[verifier::external_body] fn vx_def() -> (r: Self) {{ unimplemented!() }} }}\n", s.ident, if f.is_empty() { "true".into() } else { f.join(" && ") })) }
        _ => Err("not a type".into()),
    }
}
fn emit_type(found: &Found, o: &Opts) -> R<String> {
    let mut tx = Tx { o, counts: Default::default(), nclosure: 0, nloop: 0, errs: vec![], tmp: 0 };
    let dflt = if o.dflt { derived_default(found)? } else { String::new() };
    let mut item: Item = match found {
        Found::Struct(s) => { let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub);
            match &mut s.fields { Fields::Named(n) => { let f: Vec<Field> = n.named.iter().filter(|f| keep(&f.attrs)).cloned().map(|mut f| { f.attrs.clear(); f.vis = parse_quote!(pub); f }).collect(); n.named = f.into_iter().collect(); }
                Fields::Unnamed(n) => for f in n.unnamed.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub) }, _ => {} }
            Item::Struct(s) }
        Found::Enum(s) => { let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub);
            let v: Vec<Variant> = s.variants.iter().filter(|v| keep(&v.attrs) && !o.drops(v)).cloned().map(|mut v| { v.attrs.clear();
                match &mut v.fields { Fields::Named(n) => for f in n.named.iter_mut() { f.attrs.clear() }, Fields::Unnamed(n) => for f in n.unnamed.iter_mut() { f.attrs.clear() }, _ => {} } v }).collect();
            s.variants = v.into_iter().collect(); Item::Enum(s) }
        Found::Const(c) => { let mut c = c.clone(); c.attrs.clear(); c.vis = parse_quote!(pub); if let Type::Reference(r) = &mut *c.ty { r.lifetime.get_or_insert_with(|| syn::Lifetime::new("'static", proc_macro2::Span::call_site())); } Item::Const(c) }
        Found::Static(c) => { let mut c = c.clone(); c.attrs.clear(); c.vis = parse_quote!(pub); Item::Static(c) }
        Found::TypeAlias(c) => { let mut c = c.clone(); c.attrs.clear(); c.vis = parse_quote!(pub); Item::Type(c) }
        _ => return Err("not a type".into()),
    };
    tx.visit_item_mut(&mut item);
    if let Some(n) = &o.name { let n = syn::Ident::new(n, proc_macro2::Span::call_site()); match &mut item { Item::Struct(s) => s.ident = n, Item::Enum(s) => s.ident = n, _ => {} } }
    if let (Item::Const(c), false) = (&item, o.spec.is_empty()) {
        let ty = pt(c.ty.to_token_stream()); let mut r = format!("{}\npub exec const {}: {ty}\n{}\n{{ {} }}\n", o.attrs, c.ident, o.spec, pt(c.expr.to_token_stream()));
        if std::env::var("VX_VACUITY").is_ok() { let _ = write!(r, "pub fn vx_{}__vac() -> {ty}\nensures false\n{{ {} }}\n", c.ident.to_string().to_lowercase(), pt(c.expr.to_token_stream())); }
        return Ok(r) }
    let d = if o.derive.is_empty() { String::new() } else { format!("#[derive({})]\n", o.derive) };
    Ok(format!("{}{d}{}\n{dflt}", if o.attrs.is_empty() { String::new() } else { format!("{}\n", o.attrs) }, pt(item.to_token_stream())))
}
/// Error enums: the enum plus one `From` impl per `#[from]` field (what thiserror derives).
fn emit_error(found: &Found, o: &Opts, units: &[String]) -> R<String> {
    let Found::Enum(e) = found else { return Err("@@error needs an enum".into()) };
    let mut froms = String::new(); let mut ax: Vec<String> = vec![];
    for v in &e.variants {
        if !keep(&v.attrs) || o.drops(v) { continue }
        if let Fields::Unnamed(u) = &v.fields { for f in &u.unnamed { if f.attrs.iter().any(|a| a.path().is_ident("from")) {
            let mut t = f.ty.clone(); let mut tx = Tx { o, counts: Default::default(), nclosure: 0, nloop: 0, errs: vec![], tmp: 0 }; tx.visit_type_mut(&mut t);
            let _ = writeln!(froms, "impl vstd::std_specs::convert::FromSpecImpl<{t}> for {n} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(value: {t}) -> Self {{ {n}::{v}(value) }} }}\nimpl From<{t}> for {n} {{ fn from(value: {t}) -> Self {{ {n}::{v}(value) }} }}", t = t.to_token_stream(), n = e.ident, v = v.ident);
            ax.push(format!("pub broadcast axiom fn x{k}(t: {t}, s: {n}) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<{n}, {t}>(t, s) ==> s == {n}::{v}(t);", k = ax.len(), t = t.to_token_stream(), n = e.ident, v = v.ident));
        } } }
    }
    for u in units {
        if !e.variants.iter().any(|v| v.ident == u.as_str() && keep(&v.attrs)) { continue }
        let _ = writeln!(froms, "impl vstd::std_specs::convert::FromSpecImpl<{u}> for {n} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(value: {u}) -> Self {{ {n}::{u} }} }}\nimpl From<{u}> for {n} {{ fn from(value: {u}) -> Self {{ {n}::{u} }} }}", n = e.ident);
        ax.push(format!("pub broadcast axiom fn x{k}(t: {u}, s: {n}) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<{n}, {u}>(t, s) ==> s == {n}::{u};", k = ax.len(), n = e.ident));
    }
    if !ax.is_empty() {
        let names: Vec<String> = (0..ax.len()).map(|k| format!("x{k}")).collect();
        let _ = writeln!(froms, "pub mod vx_from_{n} {{ use super::*; {} pub broadcast group all {{ {} }} }}", ax.join("\n"), names.join(", "), n = e.ident);
    }
    Ok(format!("{}{froms}", emit_type(found, o)?))
}

/// `from_units!{Error, A, B}` in the file: the unit errors A, B convert to Error::A, Error::B.
fn units_of(repo: &str, f: &str, name: &str, get: &mut dyn FnMut(&str, &str) -> R<File>) -> Vec<String> {
    let Ok(file) = get(repo, f) else { return vec![] };
    for it in &file.items { if let Item::Macro(m) = it { if m.mac.path.is_ident("from_units") {
        let ids: Vec<String> = m.mac.tokens.to_string().split(',').map(|s| s.trim().to_string()).collect();
        if ids.first().map(|s| s.as_str()) == Some(name) { return ids[1..].to_vec() }
    } } }
    vec![]
}
// ---------------------------------------------------------------- plan
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (plan, repo, out, map) = (&a[1], &a[2], &a[3], &a[4]);
    let dropped: BTreeSet<String> = a.get(5).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let base = std::path::Path::new(plan).parent().unwrap().to_path_buf();
    let mut files: HashMap<String, R<File>> = HashMap::new();
    let mut outtxt = String::new();
    let mut entries: Vec<(String, String, usize, usize, String, String)> = vec![]; // name, src, l0, l1, status, detail
    let mut defaults = Opts::default(); let mut stubs = false;
    let mut lines: Vec<String> = vec![];
    fn load(p: &std::path::Path, base: &std::path::Path, lines: &mut Vec<String>) {
        let t = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p:?}: {e}"));
        for l in t.lines() { if let Some(f) = l.strip_prefix("@@include ") { load(&base.join(f.trim()), base, lines) } else { lines.push(l.to_string()) } }
    }
    load(std::path::Path::new(plan), &base, &mut lines);

    let mut get = |repo: &str, f: &str| -> R<File> {
        files.entry(f.to_string()).or_insert_with(|| {
            let t = std::fs::read_to_string(std::path::Path::new(repo).join(f)).map_err(|e| format!("{f}: {e}"))?;
            let mut file = parse_file(&t).map_err(|e| format!("{f}: {e}"))?;
            if let Ok(m) = std::fs::read_to_string(std::path::Path::new(repo).join("src/util/macros.rs")) { expand_item_macros(&mut file, &m); }
            Ok(file)
        }).clone()
    };
    fn apply_opt(o: &mut Opts, key: &str, arg: &str, text: &str) {
        let kv = |s: &str| -> Vec<(String, String)> { s.split_whitespace().filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect() };
        let n = || arg.trim().parse::<usize>().unwrap_or_else(|_| panic!("bad index {arg}"));
        match key {
            "name" => o.name = Some(arg.trim().into()),
            "sig" => o.sig = Some(format!("{arg} {}", text.trim_end())),
            "ret" => o.ret = Some(arg.trim().into()),
            "spec" => { if !o.spec.is_empty() { o.spec.push('\n') } o.spec.push_str(arg); o.spec.push('\n'); o.spec.push_str(text) }
            "loop" => { o.loops.insert(n(), text.into()); }
            "looptop" => { o.looptop.insert(n(), text.into()); }
            "loopend" => { o.loopend.insert(n(), text.into()); }
            "loopbefore" => { o.loopbefore.insert(n(), text.into()); }
            "loopafter" => { o.loopafter.insert(n(), text.into()); }
            "for" => { let (i, r) = arg.trim().split_once(' ').unwrap(); o.fors.insert(i.parse().unwrap(), r.into()); }
            "nloops" => o.nloops = Some(n()),
            "head" => { o.head.push_str(arg); o.head.push('\n'); o.head.push_str(text) }
            "tail" => { o.tail.push_str(arg); o.tail.push('\n'); o.tail.push_str(text) }
            "rename" => o.rename.extend(kv(arg)),
            "rename_fn" => o.rename_fn.extend(kv(arg)),
            "rename_var" => o.rename_var.extend(kv(arg)),
            "kind" => o.kinds.extend(kv(arg)),
            "typemap" => o.typemap.extend(kv(arg)),
            "cast" => o.casts.extend(kv(arg)),
            "closure" => { let (i, r) = arg.trim().split_once(' ').unwrap(); o.closures.insert(i.parse().unwrap(), format!("{r} {text}")); }
            "eq_nostar" => o.eq_nostar = true,
            "eq" => o.eq = true,
            "noeq" => o.eq = false,
            "ranges" => o.ranges = true,
            "noranges" => o.ranges = false,
            "index" => o.index = Some(arg.trim().into()),
            "attr" => { o.attrs.push_str(arg); o.attrs.push('\n') }
            "derive" => o.derive = arg.trim().into(),
            "dflt" => o.dflt = true,
            "noimpl" => o.noimpl = true,
            "again" => {}
            "deref" => o.derefs.extend(arg.split_whitespace().map(|s| s.to_string())),
            "drop_calls" => o.drop_calls.extend(arg.split_whitespace().map(|s| s.to_string())),
            "out" => o.out = Some(arg.trim().into()),
            "addarg" => { let (a, b) = arg.trim().split_once('=').unwrap(); o.addargs.insert(a.into(), b.into()); }
            "noargs" => o.noargs.extend(arg.split_whitespace().map(|s| s.to_string())),
            "drop_items" => o.drop_items = true,
            "units_and" => o.units_and = Some(arg.split_whitespace().map(|s| s.to_string()).collect()),
            "drop_variants" => o.drop_variants.extend(arg.split_whitespace().map(|s| s.to_string())),
            "after" => { o.after.insert(arg.trim().into(), text.into()); }
            "replace" => { let (a, b) = text.split_once("=====").unwrap(); o.replace.push((a.trim().into(), b.trim().into())); }
            k => panic!("unknown directive @@{k}"),
        }
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        if !l.starts_with("@@") { outtxt.push_str(&l); outtxt.push('\n'); i += 1; continue }
        let (key, arg) = match l[2..].split_once(' ') { Some((a, b)) => (a.to_string(), b.to_string()), None => (l[2..].to_string(), String::new()) };
        // gather sub-directives up to @@end
        let mut subs: Vec<(String, String, String)> = vec![];
        i += 1;
        if ["fn", "arms", "struct", "enum", "const", "type", "error", "defaults", "words", "written"].contains(&key.as_str()) {
            loop {
                if i >= lines.len() { panic!("missing @@end for {l}") }
                let s = lines[i].clone(); i += 1;
                if s.trim_end() == "@@end" { break }
                if let Some(r) = s.strip_prefix("@@") {
                    let (k, a) = match r.split_once(' ') { Some((a, b)) => (a, b), None => (r, "") };
                    subs.push((k.to_string(), a.to_string(), String::new()));
                } else if let Some(x) = subs.last_mut() { x.2.push_str(&s); x.2.push('\n') }
                else if !s.trim().is_empty() { panic!("stray text in {l}: {s}") }
            }
        }
        let line0 = |t: &str| t.matches('\n').count() + 1;
        match key.as_str() {
            "stubs" => { stubs = arg.trim() == "on"; }
            "reset" => { defaults = Opts::default(); }
            "defaults" => { for (k, a, t) in &subs { apply_opt(&mut defaults, k, a, t) } }
            "fn" => {
                let mut p = arg.split_whitespace(); let (f, name) = (p.next().unwrap(), p.next().unwrap());
                let mut o = defaults.clone(); for (k, a, t) in &subs { apply_opt(&mut o, k, a, t) }
                let id = match subs.iter().find(|x| x.0 == "again") { Some((_, a, _)) => format!("{name} [{}]", a.trim()), None => name.to_string() };
                if entries.iter().any(|e| e.0 == id) { continue }
                if stubs {
                    // the contract as verified by another plan, without the body
                    match get(repo, f).and_then(|file| find(&file.items, "fn", name).ok_or(format!("{name} not found in {f}"))).and_then(|x| emit_stub(&x, &o)) {
                        Ok(s) => { outtxt.push_str(&s.text.replace("unimplemented ()", "unimplemented!()")); entries.push((id, f.into(), 0, 0, "stub".into(), String::new())) }
                        Err(e) => entries.push((id, f.into(), 0, 0, "lost".into(), e)),
                    }
                    continue
                }
                let r = get(repo, f).and_then(|file| find(&file.items, "fn", name).ok_or(format!("{name} not found in {f}"))).and_then(|x| emit_fn(&x, &o, None));
                let stub = if r.is_err() || dropped.contains(&id) { get(repo, f).and_then(|file| find(&file.items, "fn", name).ok_or(String::new())).and_then(|x| emit_stub(&x, &o)).ok() } else { None };
                emit(&mut outtxt, &mut entries, id, f, r, stub, &dropped, line0);
            }
            "arms" => {
                if stubs { continue }
                let mut p = arg.split_whitespace(); let (f, name) = (p.next().unwrap(), p.next().unwrap());
                let ename = p.next().map(|s| s.to_string()).unwrap_or(name.split("::").next().unwrap().split('@').next().unwrap().to_string());
                let efile = p.next().unwrap_or(f).to_string();
                let mut common = defaults.clone();
                let mut arms: Vec<(String, Opts, bool, String)> = vec![];
                for (k, a, t) in &subs {
                    match k.as_str() {
                        "arm" => { let v = a.trim().to_string(); let mut o = common.clone(); o.name = Some(format!("{}__{}", name.split("::").last().unwrap(), v.replace(' ', "_"))); if !t.trim().is_empty() { o.spec.push('\n'); o.spec.push_str(t); } arms.push((v, o, true, String::new())) }
                        "skip" => { let (v, why) = a.split_once(' ').unwrap_or((a, "")); arms.push((v.into(), common.clone(), false, why.into())) }
                        _ => match arms.last_mut() { Some((_, o, _, _)) => apply_opt(o, k, a, t), None => apply_opt(&mut common, k, a, t) },
                    }
                }
                let found = get(repo, f).and_then(|file| find(&file.items, "fn", name).ok_or(format!("{name} not found in {f}")));
                let en = get(repo, &efile).and_then(|file| find(&file.items, "enum", &ename).ok_or(format!("enum {ename} not found")));
                if let Ok(Found::Enum(e)) = &en {
                    for v in e.variants.iter().filter(|v| keep(&v.attrs)) {
                        let n = v.ident.to_string();
                        if !arms.iter().any(|(x, ..)| x.split_whitespace().next() == Some(&n)) { entries.push((format!("{name}[{n}]"), f.into(), 0, 0, "uncontracted".into(), "variant without a contract in the plan".into())) }
                    }
                }
                for (v, mut o, on, why) in arms {
                    let vn = v.split_whitespace().next().unwrap().to_string(); o.spec = o.spec.replace("VARIANT", &vn); o.head = o.head.replace("VARIANT", &vn);
                    let id = format!("{name}[{v}]");
                    if !on { entries.push((id, f.into(), 0, 0, "skipped".into(), why)); continue }
                    let vname = v.split_whitespace().next().unwrap().to_string();
                    let r = found.clone().and_then(|x| { let b = match &x { Found::Fn(f) => (*f.block).clone(), Found::Method { f, .. } => f.block.clone(), _ => unreachable!() };
                        let nb = specialise(&b, &vname)?; emit_fn(&x, &o, Some(nb)) });
                    emit(&mut outtxt, &mut entries, id, f, r, None, &dropped, line0);
                }
            }
            "struct" | "enum" | "const" | "type" | "error" => {
                let mut p = arg.split_whitespace(); let (f, name) = (p.next().unwrap(), p.next().unwrap());
                let mut o = defaults.clone(); for (k, a, t) in &subs { apply_opt(&mut o, k, a, t) }
                let kk = if key == "error" { "enum" } else { key.as_str() };
                let r = get(repo, f).and_then(|file| find(&file.items, kk, name).ok_or(format!("{kk} {name} not found in {f}"))).and_then(|x| if key == "error" { let u = units_of(repo, f, name, &mut get); emit_error(&x, &o, &u) } else { emit_type(&x, &o) });
                let id = format!("{kk} {name}");
                // a constant with a contract is an obligation of its own
                let st = if key == "const" && !o.spec.is_empty() { "fn" } else { "type" };
                if st == "fn" && dropped.contains(&id) { entries.push((id, f.into(), 0, 0, "dropped".into(), "front end rejected it".into())); continue }
                match r { Ok(t) => { let l0 = line0(&outtxt); outtxt.push_str(&t); entries.push((id, f.into(), l0, line0(&outtxt), st.into(), String::new())) }
                    Err(e) => entries.push((id, f.into(), 0, 0, "losttype".into(), e)) }
            }
            "words" => {
                let mut p = arg.split_whitespace(); let (f, name) = (p.next().unwrap(), p.next().unwrap());
                let mut o = defaults.clone(); for (k, a, t) in &subs { apply_opt(&mut o, k, a, t) }
                match get(repo, f).and_then(|file| match find(&file.items, "enum", name) { Some(Found::Enum(e)) => Ok((emit_words(&e, &o), emit_words_lemma(&e, &o, std::env::var("VX_VACUITY").is_ok()))), _ => Err(format!("enum {name} not found in {f}")) }) {
                    Ok((t, l)) => { let l0 = line0(&outtxt); outtxt.push_str(&t); let l1 = line0(&outtxt); entries.push((format!("words {name} (types)"), f.into(), l0, l1, "type".into(), String::new()));
                        if dropped.contains(&format!("words {name}")) { entries.push((format!("words {name}"), f.into(), 0, 0, "dropped".into(), "front end rejected it".into())) }
                        else { outtxt.push_str(&l); entries.push((format!("words {name}"), f.into(), l1, line0(&outtxt), "fn".into(), String::new())) } }
                    Err(e) => entries.push((format!("words {name}"), f.into(), 0, 0, "losttype".into(), e)),
                }
            }
            "written" => {
                let mut p = arg.split_whitespace(); let (f, name) = (p.next().unwrap(), p.next().unwrap());
                let mut listed: Vec<String> = vec![]; let mut docs = HashMap::new();
                for (k, a, _) in &subs { match k.as_str() { "fields" => listed.extend(a.split_whitespace().map(|s| s.to_string())), "documented" => { let (x, y) = a.trim().split_once(' ').unwrap(); docs.insert(x.to_string(), y.to_string()); listed.push(x.to_string()); } k => panic!("unknown directive @@{k}") } }
                let r = get(repo, f).and_then(|file| find(&file.items, "struct", name).or_else(|| find(&file.items, "enum", name)).ok_or(format!("{name} not found in {f}"))).and_then(|x| emit_left_out(&x, &listed, &docs));
                match r { Err(e) => entries.push((format!("{name} [left out]"), f.into(), 0, 0, "lost".into(), e)),
                    Ok(v) => for (id, t) in v {
                        if dropped.contains(&id) { entries.push((id, f.into(), 0, 0, "dropped".into(), "front end rejected it".into())); continue }
                        // reachability probe, as in emit_fn: the real function as a stub, and its body under `ensures false`
                        let t = if std::env::var("VX_VACUITY").is_ok() { let (a, b) = (t.find("ensures ").unwrap(), t.find("\n{ ").unwrap()); let n = t[3..].find(['<', '(']).unwrap() + 3;
                            format!("#[verifier::external_body]\n{}\n{{ unimplemented!() }}\n{}__vac{}ensures false{}", &t[..b], &t[..n], &t[n..a], &t[b..]) } else { t };
                        let l0 = line0(&outtxt); outtxt.push_str(&t); entries.push((id, f.into(), l0, line0(&outtxt), "fn".into(), String::new()))
                    } }
            }
            k => panic!("unknown directive @@{k}"),
        }
    }
    fn emit(outtxt: &mut String, entries: &mut Vec<(String, String, usize, usize, String, String)>, id: String, f: &str, r: R<Emitted>, stub: Option<Emitted>, dropped: &BTreeSet<String>, line0: impl Fn(&str) -> usize) {
        if let Some(s) = stub { outtxt.push_str(&s.text.replace("unimplemented ()", "unimplemented!()")); }
        if dropped.contains(&id) { entries.push((id, f.into(), 0, 0, "dropped".into(), "front end rejected it".into())); return }
        match r {
            Ok(e) => { let l0 = line0(outtxt); outtxt.push_str(&e.text); entries.push((id, f.into(), l0, line0(outtxt), "fn".into(), e.info)) }
            Err(e) => entries.push((id, f.into(), 0, 0, "lost".into(), e)),
        }
    }
    // several blocks may share one match: a variant counts as uncontracted only when no block has it
    let have: BTreeSet<String> = entries.iter().filter(|e| e.4 != "uncontracted").map(|e| e.0.clone()).collect(); let mut seen = BTreeSet::new();
    entries.retain(|e| e.4 != "uncontracted" || (!have.contains(&e.0) && seen.insert(e.0.clone())));
    // raw identifiers (`r#else`) are written `else_` (Verus does not accept them as enum fields)
    // One module-level `broadcast use` is allowed: it names every conversion axiom emitted above (`?` on a `#[from]` error).
    let mods: Vec<&str> = outtxt.match_indices("pub mod vx_from_").map(|(i, _)| outtxt[i + 8..].split_whitespace().next().unwrap()).collect();
    if !mods.is_empty() {
        let uses: Vec<String> = mods.iter().map(|m| format!("{m}::all")).collect();
        let at = outtxt.rfind("\n}\nfn main").expect("the end of the verus block");
        outtxt.insert_str(at + 1, &format!("broadcast use {{{}}};\n", uses.join(", ")));
    }
    for kw in ["else", "try", "type", "match", "if", "in", "ref", "as", "where"] { outtxt = outtxt.replace(&format!("r#{kw}"), &format!("{kw}_")); }
    std::fs::write(out, outtxt).unwrap();
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', " ");
    let mut j = String::from("[\n");
    for (k, (n, f, a, b, s, d)) in entries.iter().enumerate() {
        let _ = writeln!(j, "{}{{\"name\":\"{}\",\"file\":\"{}\",\"l0\":{a},\"l1\":{b},\"status\":\"{s}\",\"detail\":\"{}\"}}", if k > 0 { "," } else { "" }, esc(n), esc(f), esc(d));
    }
    j.push_str("]\n");
    std::fs::write(map, j).unwrap();
    let _ = (BTreeMap::<u8, u8>::new(), calls as fn(&Block) -> BTreeSet<String>);
}
