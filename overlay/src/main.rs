//! Mechanical extraction: reads a crate's sources and a unit template, and writes a single Verus file in which every
//! `//@fn` directive is replaced by the function of that path, its signature and body taken from the source text by
//! byte span, with the contract, loop invariants and ghost statements given in the template inserted around it.
//!
//! usage: overlay SRC_DIR TEMPLATE OUT.rs MAP.json [--external PATH]... [--canary PATH]
use proc_macro2::{Span, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;

mod names;

fn die(msg: String) -> ! {
    eprintln!("overlay: {msg}");
    std::process::exit(3)
}

// ---------------------------------------------------------------- source index

#[derive(Clone)]
struct FnEntry {
    file: usize,
    module: String,
    tail: String,
    name: String,
    kind: Kind,
    attrs_end: usize,
    sig: (usize, usize),
    /// (start of arrow, start of type, end of type)
    ret: Option<(usize, usize, usize)>,
    /// byte ranges of `_` parameter patterns, and the names of all typed parameters
    params: Vec<(String, (usize, usize))>,
    /// source text of the parameter patterns and types (without the receiver); the generic parameters; receiver kind
    ptexts: Vec<(String, String)>,
    generics: BTreeSet<String>,
    recv: bool,
    body: Option<(usize, usize)>,
    head: Option<(usize, usize)>,
    line: usize,
    end_line: usize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Free,
    Inherent,
    TraitImpl,
    TraitDef,
}
struct TypeEntry {
    file: usize,
    path: String,
    name: String,
    text: String,
    line: usize,
}
struct Src {
    path: String,
    text: String,
}
struct Index {
    files: Vec<Src>,
    fns: Vec<FnEntry>,
    types: Vec<TypeEntry>,
    /// enum tuple constructors with one field
    ctors: BTreeSet<String>,
    /// texts that stand in place of files
    texts: BTreeMap<String, String>,
}

fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && matches!(&a.meta, syn::Meta::List(l) if l.tokens.to_string() == "test")
    })
}
fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        syn::Type::Tuple(t) if t.elems.is_empty() => "()".into(),
        other => {
            use std::fmt::Write;
            let mut s = String::new();
            let _ = write!(s, "{:?}", other.span());
            s
        }
    }
}

impl Index {
    fn load(src: &Path) -> Index {
        Index::load_with(src, Default::default())
    }
    fn load_with(src: &Path, texts: BTreeMap<String, String>) -> Index {
        let mut ix = Index { files: vec![], fns: vec![], types: vec![], ctors: Default::default(), texts };
        ix.file(&src.join("lib.rs"), "", src);
        ix
    }
    fn file(&mut self, path: &Path, module: &str, dir: &Path) {
        let text = match self.texts.get(&path.display().to_string()).cloned().map_or_else(|| std::fs::read_to_string(path), Ok) {
            Ok(t) => t,
            Err(e) => die(format!("{}: {e}", path.display())),
        };
        let parsed = match syn::parse_file(&text) {
            Ok(p) => p,
            Err(e) => die(format!("{}: {e}", path.display())),
        };
        let id = self.files.len();
        self.files.push(Src { path: path.display().to_string(), text });
        self.items(&parsed.items, id, module, dir);
    }
    fn items(&mut self, items: &[syn::Item], file: usize, module: &str, dir: &Path) {
        let sub = |n: &str| if module.is_empty() { n.to_string() } else { format!("{module}::{n}") };
        for it in items {
            match it {
                syn::Item::Mod(m) => {
                    if is_test(&m.attrs) {
                        continue;
                    }
                    let name = m.ident.to_string();
                    if let Some((_, items)) = &m.content {
                        self.items(items, file, &sub(&name), &dir.join(&name));
                    } else {
                        let a = dir.join(format!("{name}.rs"));
                        let b = dir.join(&name).join("mod.rs");
                        let p = if a.exists() { a } else { b };
                        self.file(&p, &sub(&name), &dir.join(&name));
                    }
                }
                syn::Item::Fn(f) => {
                    if !is_test(&f.attrs) {
                        self.add(file, module, f.sig.ident.to_string(), Kind::Free, &f.sig, Some(&f.block), None)
                    }
                }
                syn::Item::Impl(im) => {
                    if is_test(&im.attrs) {
                        continue;
                    }
                    let head = (rng(im.impl_token.span).0, rng(im.brace_token.span.open()).0);
                    let ty = ty_name(&im.self_ty);
                    for x in &im.items {
                        if let syn::ImplItem::Fn(f) = x {
                            let n = f.sig.ident.to_string();
                            let (tail, kind) = match &im.trait_ {
                                Some((p, tr, _)) => {
                                    let _ = p;
                                    let tr = tr_name(tr);
                                    (format!("<{tr} for {ty}>::{n}"), Kind::TraitImpl)
                                }
                                None => (format!("{ty}::{n}"), Kind::Inherent),
                            };
                            self.add(file, module, tail, kind, &f.sig, Some(&f.block), Some(head));
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    let head = (rng(t.trait_token.span).0, rng(t.brace_token.span.open()).0);
                    for x in &t.items {
                        if let syn::TraitItem::Fn(f) = x {
                            let tail = format!("{}::{}", t.ident, f.sig.ident);
                            self.add(file, module, tail, Kind::TraitDef, &f.sig, f.default.as_ref(), Some(head));
                        }
                    }
                }
                syn::Item::Struct(s) => {
                    let text = self.files[file].text.clone();
                    let mut edits: Vec<(usize, usize, String)> = vec![];
                    let end = rng(s.span()).1;
                    for f in s.fields.iter() {
                        let st = rng(f.vis.span());
                        let begin = f.ident.as_ref().map(|i| rng(i.span()).0).unwrap_or(rng(f.ty.span()).0);
                        let st0 = if matches!(f.vis, syn::Visibility::Inherited) { begin } else { st.0 };
                        edits.push((st0, begin, "pub ".into()));
                        for a in &f.attrs {
                            let r = rng(a.span());
                            edits.push((r.0, r.1, String::new()));
                        }
                    }
                    let start = rng(s.struct_token.span).0;
                    let t = format!("pub {}", edit(&text, start, end, edits));
                    self.types.push(TypeEntry { file, path: sub(&s.ident.to_string()), name: s.ident.to_string(), text: t, line: s.span().start().line });
                }
                syn::Item::Enum(e) => {
                    let text = self.files[file].text.clone();
                    let mut edits = vec![];
                    for v in &e.variants {
                        if matches!(&v.fields, syn::Fields::Unnamed(u) if u.unnamed.len() == 1) {
                            self.ctors.insert(format!("{}::{}", e.ident, v.ident));
                        }
                        for a in &v.attrs {
                            let r = rng(a.span());
                            edits.push((r.0, r.1, String::new()));
                        }
                        for f in v.fields.iter() {
                            for a in &f.attrs {
                                let r = rng(a.span());
                                edits.push((r.0, r.1, String::new()));
                            }
                        }
                    }
                    let start = rng(e.enum_token.span).0;
                    let end = rng(e.span()).1;
                    let t = format!("pub {}", edit(&text, start, end, edits));
                    self.types.push(TypeEntry { file, path: sub(&e.ident.to_string()), name: e.ident.to_string(), text: t, line: e.span().start().line });
                }
                _ => {}
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn add(&mut self, file: usize, module: &str, tail: String, kind: Kind, sig: &syn::Signature, body: Option<&syn::Block>, head: Option<(usize, usize)>) {
        let ret = match &sig.output {
            syn::ReturnType::Default => None,
            syn::ReturnType::Type(a, t) => Some((rng(a.span()).0, rng(t.span()).0, rng(t.span()).1)),
        };
        let mut params = vec![];
        for (k, i) in sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(t) = i {
                let r = rng(t.pat.span());
                let n = match &*t.pat {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    _ => format!("vx_p{k}"),
                };
                params.push((n, r));
            }
        }
        let whole = &self.files[file].text;
        let mut ptexts = vec![];
        for i in sig.inputs.iter() {
            if let syn::FnArg::Typed(t) = i {
                let (p, q) = (rng(t.pat.span()), rng(t.ty.span()));
                ptexts.push((whole[p.0..p.1].to_string(), whole[q.0..q.1].to_string()));
            }
        }
        let generics = sig.generics.params.iter().filter_map(|g| match g {
            syn::GenericParam::Type(t) => Some(t.ident.to_string()),
            syn::GenericParam::Const(t) => Some(t.ident.to_string()),
            _ => None,
        }).collect();
        let start = rng(sig.span()).0;
        let end = match body {
            Some(b) => rng(b.brace_token.span.open()).0,
            None => rng(sig.span()).1,
        };
        let blk = body.map(|b| (rng(b.brace_token.span.open()).0, rng(b.brace_token.span.close()).1));
        self.fns.push(FnEntry {
            file,
            module: module.into(),
            name: sig.ident.to_string(),
            tail,
            kind,
            attrs_end: start,
            sig: (start, end),
            ret,
            params,
            ptexts,
            generics,
            recv: sig.receiver().is_some(),
            body: blk,
            head,
            line: sig.span().start().line,
            end_line: body.map(|b| b.brace_token.span.close().end().line).unwrap_or(sig.span().end().line),
        });
    }
    /// Finds a function by `module::tail`; if it is not there, by a unique `tail` anywhere in the crate.
    fn find(&self, path: &str) -> Option<&FnEntry> {
        if let Some((a, b)) = path.split_once("??") {
            return self.find_one(a, true).or_else(|| self.find_one(b, false));
        }
        self.find_one(path, false)
    }
    fn find_one(&self, path: &str, _exact: bool) -> Option<&FnEntry> {
        let (module, tail) = split_path(path);
        if let Some(f) = self.fns.iter().find(|f| f.module == module && f.tail == tail) {
            return Some(f);
        }
        let c: Vec<_> = self.fns.iter().filter(|f| f.tail == tail).collect();
        if c.len() == 1 {
            Some(c[0])
        } else {
            None
        }
    }
}
fn tr_name(p: &syn::Path) -> String {
    let last = p.segments.last().unwrap();
    let n = last.ident.to_string();
    if n == "From" || n == "TryFrom" {
        if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
            if let Some(syn::GenericArgument::Type(syn::Type::Path(t))) = a.args.first() {
                return format!("{n}<{}>", t.path.segments.last().unwrap().ident);
            }
        }
    }
    n
}
fn split_path(path: &str) -> (String, String) {
    // module segments are lower case identifiers; the tail starts at `<`, at a type name, or is the last segment
    if let Some(i) = path.find('<') {
        return (path[..i].trim_end_matches("::").to_string(), path[i..].to_string());
    }
    let segs: Vec<&str> = path.split("::").collect();
    let mut k = segs.len() - 1;
    for (i, s) in segs.iter().enumerate() {
        if s.chars().next().is_some_and(|c| c.is_uppercase()) {
            k = i;
            break;
        }
    }
    (segs[..k].join("::"), segs[k..].join("::"))
}
fn edit(text: &str, start: usize, end: usize, mut edits: Vec<(usize, usize, String)>) -> String {
    edits.sort_by_key(|e| (e.0, e.1));
    let mut out = String::new();
    let mut at = start;
    for (a, b, r) in edits {
        assert!(a >= at && b <= end, "overlapping edits");
        out.push_str(&text[at..a]);
        out.push_str(&r);
        at = b;
    }
    out.push_str(&text[at..end]);
    out
}

// ---------------------------------------------------------------- token patterns

#[derive(Clone, Debug)]
struct Tok {
    s: String,
    start: usize,
    end: usize,
}
fn flat(ts: TokenStream, out: &mut Vec<Tok>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = (rng(g.span_open()), rng(g.span_close()));
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                out.push(Tok { s: a.into(), start: o.0, end: o.1 });
                flat(g.stream(), out);
                out.push(Tok { s: b.into(), start: c.0, end: c.1 });
            }
            other => {
                let r = rng(other.span());
                out.push(Tok { s: other.to_string(), start: r.0, end: r.1 });
            }
        }
    }
}
fn toks(text: &str) -> Vec<Tok> {
    let ts: TokenStream = match text.parse() {
        Ok(t) => t,
        Err(e) => die(format!("cannot tokenise `{text}`: {e}")),
    };
    // spans of a parsed string start after earlier sources in the source map: make them relative
    let mut v = vec![];
    flat(ts, &mut v);
    let lines: Vec<usize> = vec![];
    let _ = lines;
    if let Some(f) = v.first() {
        // leading trivia: find the offset of the first token textually
        let base = f.start;
        let lead = lead_trivia(text);
        for t in &mut v {
            t.start = t.start - base + lead;
            t.end = t.end - base + lead;
        }
    }
    v
}
fn lead_trivia(text: &str) -> usize {
    let b = text.as_bytes();
    let mut i = 0;
    loop {
        if i < b.len() && b[i].is_ascii_whitespace() {
            i += 1;
        } else if text[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if text[i..].starts_with("/*") {
            i += text[i..].find("*/").map(|k| k + 2).unwrap_or(text.len() - i);
        } else {
            return i;
        }
    }
}
fn closes(o: &str) -> i32 {
    match o {
        "(" | "{" | "[" => 1,
        ")" | "}" | "]" => -1,
        _ => 0,
    }
}
/// Pattern tokens: `$x` one token tree, `$$x` a shortest balanced sequence (possibly empty).
fn try_match(pat: &[Tok], src: &[Tok], at: usize, caps: &mut Vec<(String, usize, usize)>) -> Option<usize> {
    if pat.is_empty() {
        return Some(at);
    }
    if pat[0].s == "$" && pat.len() >= 2 && pat[1].s != "$" {
        // one token tree
        if at >= src.len() || closes(&src[at].s) < 0 {
            return None;
        }
        let mut e = at;
        if closes(&src[at].s) > 0 {
            let mut d = 0;
            loop {
                d += closes(&src[e].s);
                if d == 0 {
                    break;
                }
                e += 1;
            }
        }
        e += 1;
        if clash(caps, src, &pat[1].s, at, e) {
            return None;
        }
        caps.push((pat[1].s.clone(), at, e));
        if let Some(r) = try_match(&pat[2..], src, e, caps) {
            return Some(r);
        }
        caps.pop();
        return None;
    }
    if pat.len() >= 3 && pat[0].s == "$" && pat[1].s == "$" {
        let mut e = at;
        let mut d = 0;
        loop {
            if d == 0 {
                if !clash(caps, src, &pat[2].s, at, e) {
                    caps.push((pat[2].s.clone(), at, e));
                    if let Some(r) = try_match(&pat[3..], src, e, caps) {
                        return Some(r);
                    }
                    caps.pop();
                }
            }
            if e >= src.len() {
                return None;
            }
            d += closes(&src[e].s);
            if d < 0 {
                return None;
            }
            e += 1;
        }
    }
    if at < src.len() && src[at].s == pat[0].s {
        return try_match(&pat[1..], src, at + 1, caps);
    }
    None
}
/// A name captured before has to capture the same tokens again.
fn clash(caps: &[(String, usize, usize)], src: &[Tok], name: &str, a: usize, b: usize) -> bool {
    caps.iter().any(|(n, x, y)| {
        n == name && (y - x != b - a || (0..b - a).any(|k| src[x + k].s != src[a + k].s))
    })
}
/// Applies the substitution everywhere; returns the number of places.
fn subst(text: &str, pat: &str, repl: &str, holes: &mut Vec<String>, ctx: &HashMap<String, String>) -> (String, usize) {
    let p = toks(pat);
    let s = toks(text);
    let mut out = String::new();
    let mut at_byte = 0;
    let mut i = 0;
    let mut n = 0;
    while i < s.len() {
        let mut caps = vec![];
        if let Some(e) = try_match(&p, &s, i, &mut caps) {
            if e > i {
                let mut r = repl.to_string();
                caps.sort_by_key(|c| std::cmp::Reverse(c.0.len()));
                for (name, a, b) in &caps {
                    let t = if a == b { "" } else { &text[s[*a].start..s[*b - 1].end] };
                    r = r.replace(&format!("$${name}"), t).replace(&format!("${name}"), t);
                }
                for (k, v) in ctx {
                    r = r.replace(k, v);
                }
                out.push_str(&text[at_byte..s[i].start]);
                if let Some(raw) = r.strip_prefix("!") {
                    // Verus syntax: kept in a hole until the Rust-level passes are over
                    out.push_str(&format!("vx_hole_{}!()", holes.len()));
                    holes.push(raw.trim().to_string());
                } else {
                    out.push_str(&r);
                }
                at_byte = s[e - 1].end;
                i = e;
                n += 1;
                continue;
            }
        }
        i += 1;
    }
    out.push_str(&text[at_byte..]);
    (out, n)
}

// ---------------------------------------------------------------- Rust-level passes on a body

struct OptFinder {
    found: Option<((usize, usize), String, (usize, usize), (usize, usize), (usize, usize))>,
    names: Vec<&'static str>,
}
impl<'a> Visit<'a> for OptFinder {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        if self.found.is_none() && self.names.contains(&m.method.to_string().as_str()) && m.args.len() == 1 {
            if let syn::Expr::Closure(c) = &m.args[0] {
                if c.inputs.len() == 1 {
                    self.found = Some((rng(m.span()), m.method.to_string(), rng(m.receiver.span()), rng(c.inputs[0].span()), rng(c.body.span())));
                }
            }
        }
    }
}
struct HasTry(bool);
impl<'a> Visit<'a> for HasTry {
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
/// Byte ranges of the expressions in tail position of a block.
fn tails(b: &syn::Block, out: &mut Vec<(usize, usize)>) {
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
        tail_expr(e, out);
    }
}
fn tail_expr(e: &syn::Expr, out: &mut Vec<(usize, usize)>) {
    out.push(rng(e.span()));
    match e {
        syn::Expr::If(i) => {
            tails(&i.then_branch, out);
            if let Some((_, e)) = &i.else_branch {
                tail_expr(e, out);
            }
        }
        syn::Expr::Match(m) => {
            for a in &m.arms {
                tail_expr(&a.body, out);
            }
        }
        syn::Expr::Block(b) => tails(&b.block, out),
        _ => {}
    }
}
/// the expressions a function returns early
struct Returned(Vec<(usize, usize)>);
impl<'a> Visit<'a> for Returned {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        if let Some(e) = &r.expr {
            tail_expr(e, &mut self.0);
        }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item_fn(&mut self, _: &'a syn::ItemFn) {}
}
fn parse_block(text: &str) -> Option<(syn::Block, usize)> {
    let b: syn::Block = syn::parse_str(text).ok()?;
    let base = rng(b.brace_token.span.open()).0;
    Some((b, base.wrapping_sub(lead_trivia(text))))
}
/// `is_some_and`, `is_none_or` and `map_or` of `Option` with a closure literal become a `match`; `iter.any(closure)` and
/// `iter.all(closure)` as the result of the function become a loop with early returns.
fn desugar_bool(mut text: String, log: &mut Vec<String>) -> String {
    struct V {
        found: Option<((usize, usize), String, (usize, usize), (usize, usize), (usize, usize), Option<(usize, usize)>)>,
        tails: Vec<(usize, usize)>,
    }
    impl<'a> Visit<'a> for V {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            syn::visit::visit_expr_method_call(self, m);
            if self.found.is_some() {
                return;
            }
            let name = m.method.to_string();
            let (d, c) = match (name.as_str(), m.args.len()) {
                ("is_some_and" | "is_none_or", 1) => (None, &m.args[0]),
                ("any" | "all", 1) if self.tails.contains(&rng(m.span())) => (None, &m.args[0]),
                ("map_or", 2) if pure(&m.args[0]) => (Some(rng(m.args[0].span())), &m.args[1]),
                _ => return,
            };
            if let syn::Expr::Closure(c) = c {
                let mut h = HasTry(false);
                h.visit_expr(&c.body);
                if c.inputs.len() == 1 && !h.0 {
                    self.found = Some((rng(m.span()), name, rng(m.receiver.span()), rng(c.inputs[0].span()), rng(c.body.span()), d));
                }
            }
        }
    }
    for _ in 0..20 {
        let Some((b, base)) = parse_block(&text) else { return text };
        let mut v = V { found: None, tails: vec![] };
        tails(&b, &mut v.tails);
        let mut r = Returned(vec![]);
        r.visit_block(&b);
        v.tails.append(&mut r.0);
        v.visit_block(&b);
        let Some((whole, name, recv, pat, body, d)) = v.found else { return text };
        let sl = |r: (usize, usize)| &text[r.0 - base..r.1 - base];
        let new = match name.as_str() {
            "any" => format!("{{ for {} in {} {{ if {} {{ return true; }} }} false }}", sl(pat), sl(recv), sl(body)),
            "all" => format!("{{ for {} in {} {{ if !({}) {{ return false; }} }} true }}", sl(pat), sl(recv), sl(body)),
            _ => format!("match {} {{ Some({}) => {{ {} }}, None => {} }}", sl(recv), sl(pat), sl(body), match d { Some(d) => sl(d), None if name == "is_none_or" => "true", None => "false" }),
        };
        log.push(format!("{name} with a closure literal as {}: {}", if name.starts_with('a') { "a loop" } else { "match" }, sl(whole).replace('\n', " ")));
        let (a, e) = (whole.0 - base, whole.1 - base);
        text = format!("{}{}{}", &text[..a], new, &text[e..]);
    }
    text
}
/// In the body of a `for` loop, `if C { continue; } REST` becomes `if C { } else { REST }`, and
/// `let P = E else { continue; }; REST` becomes `if let P = E { REST }`.
fn desugar_continue(mut text: String, log: &mut Vec<String>) -> String {
    struct V(Option<((usize, usize), String, usize)>);
    fn only_continue(b: &syn::Block) -> bool {
        matches!(&b.stmts[..], [syn::Stmt::Expr(syn::Expr::Continue(c), _)] if c.label.is_none())
    }
    impl V {
        fn block(&mut self, b: &syn::Block) {
            for (k, st) in b.stmts.iter().enumerate() {
                if self.0.is_some() {
                    return;
                }
                let end = rng(b.brace_token.span.close()).0;
                match st {
                    syn::Stmt::Expr(syn::Expr::If(i), _) if i.else_branch.is_none() && only_continue(&i.then_branch) => {
                        self.0 = Some((rng(i.then_branch.span()), "{ } else {".into(), end));
                    }
                    syn::Stmt::Local(l) => {
                        if let Some(init) = &l.init {
                            if let Some((_, d)) = &init.diverge {
                                if matches!(&**d, syn::Expr::Block(x) if only_continue(&x.block)) {
                                    let (p, e) = (rng(l.pat.span()), rng(init.expr.span()));
                                    self.0 = Some((rng(l.span()), format!("\u{1}{}:{}:{}:{}", p.0, p.1, e.0, e.1), end));
                                }
                            }
                        }
                    }
                    // the last statement may end the round too
                    syn::Stmt::Expr(syn::Expr::If(i), _) if k + 1 == b.stmts.len() => {
                        self.block(&i.then_branch);
                        if let Some((_, e)) = &i.else_branch {
                            if let syn::Expr::Block(e) = &**e {
                                self.block(&e.block);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    impl<'a> Visit<'a> for V {
        fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
            self.block(&l.body);
            syn::visit::visit_expr_for_loop(self, l);
        }
    }
    for _ in 0..20 {
        let Some((b, base)) = parse_block(&text) else { return text };
        let mut v = V(None);
        v.visit_block(&b);
        let Some((at, new, end)) = v.0 else { return text };
        let new = match new.strip_prefix('\u{1}') {
            None => new,
            Some(x) => {
                let x: Vec<usize> = x.split(':').map(|n| n.parse::<usize>().unwrap() - base).collect();
                format!("if let {} = {} {{", &text[x[0]..x[1]], &text[x[2]..x[3]])
            }
        };
        log.push("continue in a loop as the other branch".into());
        text = format!("{}{}{} }} {}", &text[..at.0 - base], new, &text[at.1 - base..end - base], &text[end - base..]);
    }
    text
}
/// `Option::map/and_then` with a closure literal becomes a `match`.
fn desugar_opt(mut text: String, log: &mut Vec<String>) -> String {
    loop {
        let Some((b, base)) = parse_block(&text) else { return text };
        let mut f = OptFinder { found: None, names: vec!["map", "and_then"] };
        f.visit_block(&b);
        let Some((whole, name, recv, pat, body)) = f.found else { return text };
        let sl = |r: (usize, usize)| &text[r.0 - base..r.1 - base];
        let mut h = HasTry(false);
        if let Ok(e) = syn::parse_str::<syn::Expr>(sl(body)) {
            h.visit_expr(&e);
        }
        if h.0 {
            let mut t = vec![];
            tails(&b, &mut t);
            if !t.contains(&whole) || name != "and_then" {
                log.push(format!("not desugared (early exit in a closure that is not in tail position): {}", sl(whole)));
                return text;
            }
        }
        let bodyt = if name == "map" { format!("Some({})", sl(body)) } else { sl(body).to_string() };
        let new = format!("match {} {{ Some({}) => {}, None => None }}", sl(recv), sl(pat), bodyt);
        log.push(format!("Option::{name} with a closure literal as match: {}", sl(whole).replace('\n', " ")));
        let (a, e) = (whole.0 - base, whole.1 - base);
        text = format!("{}{}{}", &text[..a], new, &text[e..]);
    }
}

/// (end of the parameter list, body, whether the body is a block, parameter names)
struct Closures(Vec<(usize, (usize, usize), bool, Vec<String>, Vec<(usize, usize)>)>);
impl<'a> Visit<'a> for Closures {
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let names = c
            .inputs
            .iter()
            .map(|p| match p {
                syn::Pat::Ident(i) => i.ident.to_string(),
                syn::Pat::Type(t) => match &*t.pat {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    _ => "vx_pat".into(),
                },
                _ => "vx_pat".into(),
            })
            .collect();
        if matches!(c.output, syn::ReturnType::Default) {
            let pats = c.inputs.iter().map(|p| match p { syn::Pat::Type(t) => rng(t.pat.span()), p => rng(p.span()) }).collect();
            self.0.push((rng(c.or2_token.span()).1, rng(c.body.span()), matches!(&*c.body, syn::Expr::Block(_)), names, pats));
        }
        syn::visit::visit_expr_closure(self, c);
    }
}
struct StrMatch(Option<((usize, usize), (usize, usize), Vec<(Vec<(usize, usize)>, Option<(usize, usize)>, (usize, usize))>)>);
impl<'a> Visit<'a> for StrMatch {
    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        syn::visit::visit_expr_match(self, m);
        if self.0.is_some() {
            return;
        }
        fn lits(p: &syn::Pat, out: &mut Vec<(usize, usize)>) -> bool {
            match p {
                syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => {
                    out.push(rng(l.span()));
                    true
                }
                syn::Pat::Or(o) => o.cases.iter().all(|c| lits(c, out)),
                syn::Pat::Paren(p) => lits(&p.pat, out),
                _ => false,
            }
        }
        let mut arms = vec![];
        let n = m.arms.len();
        for (k, a) in m.arms.iter().enumerate() {
            let mut l = vec![];
            let wild = k + 1 == n && matches!(a.pat, syn::Pat::Wild(_)) && a.guard.is_none();
            if !wild && !lits(&a.pat, &mut l) {
                return;
            }
            arms.push((l, a.guard.as_ref().map(|g| rng(g.1.span())), rng(a.body.span())));
        }
        if n < 2 || !arms[n - 1].0.is_empty() {
            return;
        }
        self.0 = Some((rng(m.span()), rng(m.expr.span()), arms));
    }
}
/// a string literal within the pattern of an arm, and where the condition of the arm goes: (literal, end of the pattern, guard)
struct StrInPat(Option<((usize, usize), usize, Option<(usize, usize)>)>);
impl<'a> Visit<'a> for StrInPat {
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        syn::visit::visit_arm(self, a);
        fn lit(p: &syn::Pat) -> Option<(usize, usize)> {
            match p {
                syn::Pat::Tuple(t) => t.elems.iter().find_map(|e| if matches!(e, syn::Pat::Lit(_)) { str_lit(e) } else { lit(e) }),
                syn::Pat::TupleStruct(t) => t.elems.iter().find_map(|e| if matches!(e, syn::Pat::Lit(_)) { str_lit(e) } else { lit(e) }),
                syn::Pat::Paren(p) => lit(&p.pat),
                _ => None,
            }
        }
        fn str_lit(p: &syn::Pat) -> Option<(usize, usize)> {
            match p {
                syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => Some(rng(l.span())),
                _ => None,
            }
        }
        if let (None, Some(l)) = (&self.0, lit(&a.pat)) {
            self.0 = Some((l, rng(a.pat.span()).1, a.guard.as_ref().map(|g| rng(g.1.span()))));
        }
    }
}
/// `match` on string literals becomes a chain of comparisons.
fn desugar_strmatch(mut text: String, log: &mut Vec<String>) -> String {
    for round in 0..20 {
        let Some((b, base)) = parse_block(&text) else { return text };
        let mut v = StrInPat(None);
        v.visit_block(&b);
        let Some((lit, end, guard)) = v.0 else { break };
        let l = text[lit.0 - base..lit.1 - base].to_string();
        let (at, cond) = match guard {
            Some(g) => (g, format!("vx_l{round} == {l} && ({})", &text[g.0 - base..g.1 - base])),
            None => ((end, end), format!(" if vx_l{round} == {l}")),
        };
        text.replace_range(at.0 - base..at.1 - base, &cond);
        text.replace_range(lit.0 - base..lit.1 - base, &format!("vx_l{round}"));
        log.push(format!("the string literal {l} in a pattern as a condition of the arm"));
    }
    for round in 0..20 {
        let Some((b, base)) = parse_block(&text) else { return text };
        let mut v = StrMatch(None);
        v.visit_block(&b);
        let Some((whole, scrut, arms)) = v.0 else { return text };
        let sl = |r: &(usize, usize)| &text[r.0 - base..r.1 - base];
        let mut out = format!("({{ let vx_s{round} = {}; ", sl(&scrut));
        for (l, g, body) in &arms {
            if l.is_empty() {
                out.push_str(&format!("{{ {} }} }})", sl(body)));
            } else {
                let c = l.iter().map(|x| format!("vx_s{round} == {}", sl(x))).collect::<Vec<_>>().join(" || ");
                let g = g.as_ref().map(|g| format!(" && ({})", sl(g))).unwrap_or_default();
                out.push_str(&format!("if ({c}){g} {{ {} }} else ", sl(body)));
            }
        }
        log.push("match on string literals as comparisons".into());
        text = format!("{}{}{}", &text[..whole.0 - base], out, &text[whole.1 - base..]);
    }
    text
}
/// The string literals of `const NAME: [&str; _] = [..]` (or `&[..]`) in the file or the function.
fn str_list(text: &str, body: &str, name: &str) -> Option<Vec<String>> {
    struct V<'n>(&'n str, Option<Vec<String>>);
    impl V<'_> {
        fn expr(&mut self, e: &syn::Expr) {
            match e {
                syn::Expr::Reference(r) => self.expr(&r.expr),
                syn::Expr::Array(a) => {
                    self.1 = a.elems.iter().map(|e| match e {
                        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(format!("{:?}", s.value())),
                        _ => None,
                    }).collect();
                }
                _ => {}
            }
        }
    }
    impl<'a> Visit<'a> for V<'_> {
        fn visit_item_const(&mut self, c: &'a syn::ItemConst) {
            if c.ident == self.0 {
                self.expr(&c.expr);
            }
        }
        fn visit_item_static(&mut self, c: &'a syn::ItemStatic) {
            if c.ident == self.0 {
                self.expr(&c.expr);
            }
        }
    }
    let mut v = V(name, None);
    if let Ok(b) = syn::parse_str::<syn::Block>(body) {
        v.visit_block(&b);
    }
    if v.1.is_none() {
        if let Ok(f) = syn::parse_file(text) {
            v.visit_file(&f);
        }
    }
    v.1
}
/// `matches!(e, "a" | "b" if c)` and `LIST.contains(&e)` with string literals become comparisons.
fn desugar_strlists(ix: &Index, f: &FnEntry, mut text: String, log: &mut Vec<String>) -> String {
    struct V<'l> {
        list: &'l dyn Fn(&str) -> Option<Vec<String>>,
        /// whole, value (to be dereferenced or not), literals, guard
        found: Option<((usize, usize), (usize, usize), bool, Vec<String>, Option<(usize, usize)>)>,
    }
    impl V<'_> {
        fn mac(&mut self, m: &syn::Macro, whole: (usize, usize)) {
            if self.found.is_some() || !m.path.is_ident("matches") {
                return;
            }
            let parse = |i: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Pat, Option<syn::Expr>)> {
                let e = i.parse()?;
                i.parse::<syn::Token![,]>()?;
                let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                let g = if i.peek(syn::Token![if]) {
                    i.parse::<syn::Token![if]>()?;
                    Some(i.parse()?)
                } else {
                    None
                };
                let _ = i.parse::<Option<syn::Token![,]>>();
                Ok((e, p, g))
            };
            let Ok((e, p, g)) = m.parse_body_with(parse) else { return };
            fn lits(p: &syn::Pat, out: &mut Vec<String>) -> bool {
                match p {
                    syn::Pat::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => {
                        out.push(format!("{:?}", s.value()));
                        true
                    }
                    syn::Pat::Or(o) => o.cases.iter().all(|c| lits(c, out)),
                    syn::Pat::Paren(p) => lits(&p.pat, out),
                    _ => false,
                }
            }
            let mut l = vec![];
            if lits(&p, &mut l) {
                self.found = Some((whole, rng(e.span()), false, l, g.map(|g| rng(g.span()))));
            }
        }
    }
    impl<'a> Visit<'a> for V<'_> {
        fn visit_expr_macro(&mut self, m: &'a syn::ExprMacro) {
            self.mac(&m.mac, rng(m.span()));
        }
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            syn::visit::visit_expr_method_call(self, m);
            if self.found.is_some() || m.method != "contains" || m.args.len() != 1 {
                return;
            }
            if let syn::Expr::Path(p) = &*m.receiver {
                if let Some(l) = p.path.get_ident().and_then(|i| (self.list)(&i.to_string())) {
                    self.found = Some((rng(m.span()), rng(m.args[0].span()), true, l, None));
                }
            }
        }
    }
    for round in 0..20 {
        let Some((b, base)) = parse_block(&text) else { return text };
        let list = |n: &str| str_list(&ix.files[f.file].text, &text, n);
        let mut v = V { list: &list, found: None };
        v.visit_block(&b);
        let Some((whole, e, deref, l, g)) = v.found else { return text };
        let c = l.iter().map(|x| format!("vx_l{round} == {x}")).collect::<Vec<_>>().join(" || ");
        let sl = |r: (usize, usize)| &text[r.0 - base..r.1 - base];
        let g = g.map(|g| format!(" && ({})", sl(g))).unwrap_or_default();
        let new = format!("({{ let vx_l{round} = {}({}); ({c}){g} }})", if deref { "*" } else { "" }, sl(e));
        log.push("membership in a list of string literals as comparisons".into());
        text = format!("{}{}{}", &text[..whole.0 - base], new, &text[whole.1 - base..]);
    }
    text
}
// ---------------------------------------------------------------- parser combinators (`//@mode combinators`)

/// What the unit template says about code written with parser combinators.
#[derive(Default, Clone)]
struct Comb {
    on: bool,
    /// functions that are passed as values inside a recursion: replaced by a closure with this text
    fnvalues: BTreeMap<String, String>,
    /// method renames
    renames: BTreeMap<String, String>,
    /// enum tuple constructors of the crate with one field
    ctors: BTreeSet<String>,
    /// statics whose contract is assumed: name, why
    opaque: BTreeMap<String, String>,
    /// string literals the lemmas are about; what the characters of others are is said where they are used
    lits: BTreeSet<String>,
}
/// One rewriting site: byte range and replacement kind.
enum Site {
    Value(String),
    Ctor(String),
    Pure { params: Vec<((usize, usize), bool)>, body: (usize, usize) },
    Curried { func: (usize, usize), args: Vec<(usize, usize)> },
    Slice { base: (usize, usize), from: Option<(usize, usize)>, to: Option<(usize, usize)>, get: bool },
    Rename { name: (usize, usize), to: String },
}
struct Sites<'c> {
    c: &'c Comb,
    locals: BTreeSet<String>,
    eta: &'c dyn Fn(&str) -> bool,
    pass: u8,
    found: Option<((usize, usize), Site)>,
}
fn pure(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) => true,
        syn::Expr::Path(_) => true,
        syn::Expr::Paren(p) => pure(&p.expr),
        syn::Expr::Reference(r) => r.mutability.is_none() && pure(&r.expr),
        syn::Expr::Group(p) => pure(&p.expr),
        syn::Expr::Tuple(t) => t.elems.iter().all(pure),
        syn::Expr::Field(f) => pure(&f.base),
        syn::Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| pure(&f.expr)),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && pure(&u.expr),
        // comparisons with a character, a number or a truth value, and what is said of them
        syn::Expr::Binary(b) => match b.op {
            syn::BinOp::And(_) | syn::BinOp::Or(_) => pure(&b.left) && pure(&b.right),
            syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) => {
                let lit = |e: &syn::Expr| matches!(e, syn::Expr::Lit(l) if !matches!(l.lit, syn::Lit::Str(_)));
                pure(&b.left) && pure(&b.right) && (lit(&b.left) || lit(&b.right))
            }
            _ => false,
        },
        syn::Expr::MethodCall(m) => {
            m.args.is_empty()
                && pure(&m.receiver)
                && ["is_some", "is_none", "is_ok", "is_err", "is_ascii_alphabetic", "is_ascii_digit", "is_ascii_alphanumeric", "is_ascii_hexdigit", "is_ascii_whitespace"].contains(&m.method.to_string().as_str())
        }
        syn::Expr::Block(b) => b.label.is_none() && b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], syn::Stmt::Expr(e, None) if pure(e)),
        syn::Expr::Call(c) => match &*c.func {
            syn::Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string().starts_with(char::is_uppercase) && c.args.iter().all(pure),
            _ => false,
        },
        _ => false,
    }
}
fn range_parts(r: &syn::ExprRange) -> Option<(Option<(usize, usize)>, Option<(usize, usize)>)> {
    if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
        return None;
    }
    Some((r.start.as_ref().map(|x| rng(x.span())), r.end.as_ref().map(|x| rng(x.span()))))
}
impl Sites<'_> {
    fn value(&mut self, e: &syn::Expr) {
        let syn::Expr::Path(p) = e else { return };
        if p.qself.is_some() || self.found.is_some() || self.pass > 1 {
            return;
        }
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 1 && !self.locals.contains(&segs[0]) {
            if self.pass == 0 && (self.eta)(&segs[0]) {
                self.found = Some((rng(e.span()), Site::Value(segs[0].clone())));
            } else if self.pass == 1 && self.c.fnvalues.contains_key(&segs[0]) {
                self.found = Some((rng(e.span()), Site::Value(segs[0].clone())));
            }
        }
        if self.pass == 1 && self.c.ctors.contains(&segs.join("::")) {
            self.found = Some((rng(e.span()), Site::Ctor(segs.join("::"))));
        }
    }
}
impl<'a> Visit<'a> for Sites<'_> {
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if matches!(&*init.expr, syn::Expr::Call(_) | syn::Expr::Macro(_) | syn::Expr::MethodCall(_)) {
                self.locals.insert(i.ident.to_string());
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_tuple(&mut self, t: &'a syn::ExprTuple) {
        syn::visit::visit_expr_tuple(self, t);
        for a in &t.elems {
            self.value(a);
        }
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        syn::visit::visit_expr_closure(self, c);
        if self.pass == 2 && self.found.is_none() && matches!(c.output, syn::ReturnType::Default) && pure(&c.body) {
            let params = c.inputs.iter().map(|p| (rng(p.span()), matches!(p, syn::Pat::Ident(_)) || matches!(p, syn::Pat::Type(t) if matches!(&*t.pat, syn::Pat::Ident(_))))).collect();
            self.found = Some((rng(c.span()), Site::Pure { params, body: rng(c.body.span()) }));
        }
    }
    fn visit_expr_call(&mut self, m: &'a syn::ExprCall) {
        syn::visit::visit_expr_call(self, m);
        for a in &m.args {
            self.value(a);
        }
        if self.pass == 3 && self.found.is_none() {
            let curried = match &*m.func {
                syn::Expr::Call(_) => true,
                syn::Expr::MethodCall(_) => true,
                syn::Expr::Paren(_) | syn::Expr::Block(_) => true,
                syn::Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.locals.contains(&i.to_string())),
                _ => false,
            };
            if curried {
                self.found = Some((rng(m.span()), Site::Curried { func: rng(m.func.span()), args: m.args.iter().map(|a| rng(a.span())).collect() }));
            }
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        for a in &m.args {
            self.value(a);
        }
        if self.found.is_some() {
            return;
        }
        let name = m.method.to_string();
        if self.pass == 4 && name == "get" && m.args.len() == 1 {
            if let syn::Expr::Range(r) = &m.args[0] {
                if let Some((from, to)) = range_parts(r) {
                    self.found = Some((rng(m.span()), Site::Slice { base: rng(m.receiver.span()), from, to, get: true }));
                    return;
                }
            }
        }
        if self.pass == 4 {
            if let syn::Expr::Index(i) = &*m.receiver {
                if let syn::Expr::Range(r) = &*i.index {
                    if let Some((from, to)) = range_parts(r) {
                        self.found = Some((rng(i.span()), Site::Slice { base: rng(i.expr.span()), from, to, get: false }));
                        return;
                    }
                }
            }
        }
        if self.pass == 5 {
            if let Some(n) = self.c.renames.get(&name) {
                self.found = Some((rng(m.span()), Site::Rename { name: rng(m.method.span()), to: n.clone() }));
            }
        }
    }
    fn visit_expr_reference(&mut self, m: &'a syn::ExprReference) {
        syn::visit::visit_expr_reference(self, m);
        if self.pass == 4 && self.found.is_none() {
            if let syn::Expr::Index(i) = &*m.expr {
                if let syn::Expr::Range(r) = &*i.index {
                    if let Some((from, to)) = range_parts(r) {
                        self.found = Some((rng(m.span()), Site::Slice { base: rng(i.expr.span()), from, to, get: false }));
                    }
                }
            }
        }
    }
}
/// A helper `fn h(i) -> .. { EXPR(i) }` is EXPR as a value.
fn eta_body(ix: &Index, f: &FnEntry, provided: &BTreeSet<String>, n: &str) -> Option<String> {
    if provided.contains(n) || n == f.name {
        return None;
    }
    let c: Vec<&FnEntry> = ix.fns.iter().filter(|g| g.name == n && g.kind == Kind::Free && g.file == f.file && g.module == f.module).collect();
    let [g] = c[..] else { return None };
    let (x, y) = g.body?;
    let t = &ix.files[g.file].text[x..y];
    let (b, base) = parse_block(t)?;
    let [(p, _)] = &g.ptexts[..] else { return None };
    let [syn::Stmt::Expr(syn::Expr::Call(m), None)] = &b.stmts[..] else { return None };
    let arg = m.args.first().filter(|_| m.args.len() == 1)?;
    if !matches!(arg, syn::Expr::Path(q) if q.path.is_ident(p.trim())) {
        return None;
    }
    let r = rng(m.func.span());
    let func = &t[r.0 - base..r.1 - base];
    if toks(func).iter().any(|k| k.s == p.trim()) {
        return None;
    }
    Some(func.to_string())
}
fn desugar_comb(ix: &Index, f: &FnEntry, provided: &BTreeSet<String>, c: &Comb, mut text: String, holes: &mut Vec<String>, ctx: &HashMap<String, String>, log: &mut Vec<String>) -> String {
    for pass in 0..6u8 {
        for round in 0..200 {
            let Some((b, base)) = parse_block(&text) else { return text };
            let eta = |n: &str| eta_body(ix, f, provided, n).is_some();
            let mut v = Sites { c, locals: BTreeSet::new(), eta: &eta, pass, found: None };
            v.visit_block(&b);
            let Some((whole, site)) = v.found else { break };
            let sl = |r: (usize, usize)| text[r.0 - base..r.1 - base].to_string();
            let mut hole = |t: String| {
                holes.push(t);
                format!("vx_hole_{}!()", holes.len() - 1)
            };
            let new = match site {
                Site::Value(n) if pass == 0 => {
                    log.push(format!("the helper {n}, used as a value, replaced by its body"));
                    eta_body(ix, f, provided, &n).unwrap()
                }
                Site::Value(n) => {
                    let mut t = c.fnvalues[&n].clone();
                    for (k, v) in ctx {
                        t = t.replace(k.as_str(), v);
                    }
                    log.push(format!("the function {n}, used as a value, as a closure that calls it"));
                    hole(format!("({})", t.trim()))
                }
                Site::Ctor(n) => {
                    log.push(format!("the constructor {n}, used as a value, as a closure"));
                    hole(format!("(|vx_x| -> (vx_o: _) ensures same(vx_o, {n}(vx_x)) {{ {n}(vx_x) }})"))
                }
                Site::Pure { params, body } => {
                    let bt = sl(body);
                    let (mut ps, mut lets) = (vec![], String::new());
                    for (k, (r, plain)) in params.iter().enumerate() {
                        if *plain {
                            ps.push(sl(*r));
                        } else {
                            ps.push(format!("vx_q{k}_{round}"));
                            if sl(*r) != "_" {
                                lets.push_str(&format!("let {} = vx_q{k}_{round}; ", sl(*r)));
                            }
                        }
                    }
                    log.push(format!("closure annotated with its own value: |{}| {}", ps.join(", "), bt.replace('\n', " ")));
                    // (a result of a parser: its error type is not written)
                    let ty = if bt.trim_start().starts_with("Ok(") || bt.trim_start().starts_with("Err(") { "IResult<_, _>" } else { "_" };
                    hole(format!("(|{}| -> (vx_o: {ty}) ensures ({{ {lets} same(vx_o, {bt}) }}) {{ {lets} {bt} }})", ps.join(", ")))
                }
                Site::Curried { func, args } => format!("{}.run({})", sl(func), args.iter().map(|a| sl(*a)).collect::<Vec<_>>().join(", ")),
                Site::Slice { base: b, from, to, get } => {
                    let n = if get { "vx_get" } else { "vx_slice" };
                    let a = from.map(sl).unwrap_or("0".into());
                    match to {
                        Some(e) => format!("{n}_to({}, {a}, {})", sl(b), sl(e)),
                        None => format!("{n}_from({}, {a})", sl(b)),
                    }
                }
                Site::Rename { name, to } => {
                    text = format!("{}{}{}", &text[..name.0 - base], to, &text[name.1 - base..]);
                    continue;
                }
            };
            text = format!("{}{}{}", &text[..whole.0 - base], new, &text[whole.1 - base..]);
        }
        if pass == 0 {
            text = inline_helpers(ix, f, provided, text, log);
        }
    }
    text
}

struct CallFinder<'c> {
    free: &'c dyn Fn(&str) -> bool,
    method: &'c dyn Fn(&str) -> bool,
    found: Option<((usize, usize), String, Vec<(usize, usize)>, bool)>,
}
impl<'a> Visit<'a> for CallFinder<'_> {
    fn visit_expr_call(&mut self, m: &'a syn::ExprCall) {
        syn::visit::visit_expr_call(self, m);
        if self.found.is_some() {
            return;
        }
        if let syn::Expr::Path(p) = &*m.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = segs.last().unwrap().clone();
            let assoc = segs.len() == 2 && segs[0] == "Self";
            if p.qself.is_none() && ((segs.len() == 1 && (self.free)(&n)) || (assoc && (self.method)(&n))) {
                self.found = Some((rng(m.span()), n, m.args.iter().map(|a| rng(a.span())).collect(), false));
            }
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        if self.found.is_some() {
            return;
        }
        let on_self = matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self"));
        if on_self && (self.method)(&m.method.to_string()) {
            self.found = Some((rng(m.span()), m.method.to_string(), m.args.iter().map(|a| rng(a.span())).collect(), true));
        }
    }
}
fn early(e: &syn::Expr) -> bool {
    let mut h = HasTry(false);
    h.visit_expr(e);
    h.0
}
fn early_stmt(st: &syn::Stmt) -> bool {
    let mut h = HasTry(false);
    h.visit_stmt(st);
    h.0
}
/// The operand of the only `?` of an expression, if it is what the expression evaluates first: (the `?` expression, operand)
fn first_try(e: &syn::Expr) -> Option<((usize, usize), (usize, usize))> {
    match e {
        syn::Expr::Try(t) if early(&t.expr) => first_try(&t.expr),
        syn::Expr::Try(t) => Some((rng(t.span()), rng(t.expr.span()))),
        syn::Expr::MethodCall(m) => {
            if early(&m.receiver) {
                first_try(&m.receiver)
            } else {
                None
            }
        }
        syn::Expr::Field(f) => first_try(&f.base),
        syn::Expr::Paren(p) => first_try(&p.expr),
        syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(_)) => first_try(c.args.first()?),
        _ => None,
    }
}
/// The body of a function as a block without early returns (`return` and `?` outside of loops and closures), or nothing.
/// `ret` is the type returned.
fn straighten(text: &str, ret: &str, depth: usize) -> Option<String> {
    let (b, base) = parse_block(text)?;
    if depth > 40 {
        return None;
    }
    let mut h = HasTry(false);
    h.visit_block(&b);
    if !h.0 {
        return Some(text.to_string());
    }
    let sl = |r: (usize, usize)| text[r.0 - base..r.1 - base].to_string();
    let (ok, bad) = match ret.trim() {
        r if r.starts_with("Option") => ("Some", "None => None"),
        r if r.starts_with("Result") || r.starts_with("IResult") => ("Ok", "Err(vx_err) => Err(vx_err)"),
        _ => ("", ""),
    };
    let k = b.stmts.iter().position(early_stmt)?;
    let inner_end = text.len() - 1 - (text.len() - text.trim_end().len());
    let head = text[1..rng(b.stmts[k].span()).0 - base].to_string();
    let rest_from = |st: &syn::Stmt| text[rng(st.span()).1 - base..inner_end].to_string();
    let last = k + 1 == b.stmts.len();
    let block_of = |e: &syn::Expr| -> Option<String> {
        let t = sl(rng(e.span()));
        straighten(&(if matches!(e, syn::Expr::Block(b) if b.label.is_none()) { t } else { format!("{{ {t} }}") }), ret, depth + 1)
    };
    let diverges = |b: &syn::Block| matches!(b.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Return(_), _)));
    let st = &b.stmts[k];
    let mid = match st {
        syn::Stmt::Expr(syn::Expr::Return(r), _) => {
            let e = r.expr.as_ref()?;
            block_of(e)?
        }
        syn::Stmt::Expr(syn::Expr::If(i), semi) => {
            if early(&i.cond) {
                return None;
            }
            let cond = sl(rng(i.cond.span()));
            match &i.else_branch {
                None => {
                    if last || !diverges(&i.then_branch) {
                        return None;
                    }
                    let t = straighten(&sl(rng(i.then_branch.span())), ret, depth + 1)?;
                    let r = straighten(&format!("{{ {} }}", rest_from(st)), ret, depth + 1)?;
                    format!("if {cond} {t} else {r}")
                }
                Some((_, e)) if last && semi.is_none() => {
                    let t = straighten(&sl(rng(i.then_branch.span())), ret, depth + 1)?;
                    format!("if {cond} {t} else {}", block_of(e)?)
                }
                _ => return None,
            }
        }
        syn::Stmt::Expr(syn::Expr::Match(m), None) if last && !early(&m.expr) => {
            let mut t = format!("match {} {{ ", sl(rng(m.expr.span())));
            for a in &m.arms {
                if a.guard.as_ref().is_some_and(|g| early(&g.1)) {
                    return None;
                }
                let g = a.guard.as_ref().map(|g| format!(" if {}", sl(rng(g.1.span())))).unwrap_or_default();
                t.push_str(&format!("{}{g} => {}, ", sl(rng(a.pat.span())), block_of(&a.body)?));
            }
            t + "}"
        }
        syn::Stmt::Expr(e, None) if last => {
            let (q, o) = first_try(e)?;
            if ok.is_empty() {
                return None;
            }
            let er = rng(e.span());
            let v = format!("vx_t{depth}");
            let new = format!("{{ {}{v}{} }}", &text[er.0 - base..q.0 - base], &text[q.1 - base..er.1 - base]);
            format!("match ({}) {{ {ok}({v}) => {}, {bad} }}", sl(o), straighten(&new, ret, depth + 1)?)
        }
        syn::Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = sl(rng(l.pat.span()));
            match &init.diverge {
                Some((_, d)) => {
                    if early(&init.expr) || last {
                        return None;
                    }
                    let syn::Expr::Block(db) = &**d else { return None };
                    if !diverges(&db.block) {
                        return None;
                    }
                    let r = straighten(&format!("{{ {} }}", rest_from(st)), ret, depth + 1)?;
                    format!("match ({}) {{ {pat} => {r}, _ => {} }}", sl(rng(init.expr.span())), block_of(d)?)
                }
                None => {
                    let (q, o) = first_try(&init.expr)?;
                    if ok.is_empty() || last {
                        return None;
                    }
                    let er = rng(init.expr.span());
                    let v = format!("vx_t{depth}");
                    let lr = rng(l.span());
                    let new = format!("{{ {}{v}{} {} }}", &text[lr.0 - base..q.0 - base], &text[q.1 - base..lr.1 - base], rest_from(st));
                    let _ = er;
                    format!("match ({}) {{ {ok}({v}) => {}, {bad} }}", sl(o), straighten(&new, ret, depth + 1)?)
                }
            }
        }
        _ => return None,
    };
    Some(format!("{{ {head} {mid} }}"))
}
/// Calls of functions of the same module that the template does not know are replaced by their bodies, so that a
/// helper function split off from a function under contract is still verified as part of it.
fn inline_helpers(ix: &Index, f: &FnEntry, provided: &BTreeSet<String>, mut text: String, log: &mut Vec<String>) -> String {
    let callee = |n: &str, method: bool| -> Option<&FnEntry> {
        if provided.contains(n) || n == f.name {
            return None;
        }
        let c: Vec<&FnEntry> = ix
            .fns
            .iter()
            .filter(|g| g.name == n && g.body.is_some() && g.file == f.file && g.module == f.module)
            .filter(|g| if method { g.kind == Kind::Inherent } else { g.kind == Kind::Free })
            .collect();
        if c.len() == 1 { Some(c[0]) } else { None }
    };
    let mut skip: BTreeSet<String> = BTreeSet::new();
    for round in 0..40 {
        let Some((b, base)) = parse_block(&text) else { return text };
        let fr = |n: &str| !skip.contains(n) && callee(n, false).is_some();
        let me = |n: &str| !skip.contains(n) && callee(n, true).is_some();
        let mut v = CallFinder { free: &fr, method: &me, found: None };
        v.visit_block(&b);
        let Some((whole, name, args, has_self)) = v.found else { return text };
        let g = callee(&name, false).filter(|_| !has_self).or_else(|| callee(&name, true)).unwrap();
        let (x, y) = g.body.unwrap();
        let mut gb = ix.files[g.file].text[x..y].to_string();
        let mut h = HasTry(false);
        match syn::parse_str::<syn::Block>(&gb) {
            Ok(blk) => h.visit_block(&blk),
            Err(_) => h.0 = true,
        }
        let mut t = vec![];
        tails(&b, &mut t);
        if h.0 && !t.contains(&whole) {
            let rt = g.ret.map(|r| ix.files[g.file].text[r.1..r.2].to_string()).unwrap_or_default();
            if let Some(n) = straighten(&gb, &rt, 0) {
                log.push(format!("early returns of the helper {name} as nested matches"));
                gb = n;
                h.0 = false;
            }
        }
        if (h.0 && !t.contains(&whole)) || g.recv != has_self || args.len() != g.ptexts.len() {
            skip.insert(name);
            continue;
        }
        let mut pre = String::new();
        for (k, (a, (_, ty))) in args.iter().zip(&g.ptexts).enumerate() {
            let a = &text[a.0 - base..a.1 - base];
            let words = toks(ty);
            let plain = !words.iter().any(|w| g.generics.contains(&w.s) || w.s == "impl" || w.s == "Self");
            let mut tyt = String::new();
            let mut q = false;
            for w in &words {
                if q {
                    tyt.push_str("_ ");
                    q = false;
                } else if w.s == "'" {
                    tyt.push('\'');
                    q = true;
                } else {
                    tyt.push_str(&w.s);
                    if w.s.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        tyt.push(' ');
                    }
                }
            }
            if plain {
                pre.push_str(&format!("let vx_a{round}_{k}: {tyt} = {a}; "));
            } else {
                pre.push_str(&format!("let vx_a{round}_{k} = {a}; "));
            }
        }
        for (k, (p, _)) in g.ptexts.iter().enumerate() {
            pre.push_str(&format!("let {p} = vx_a{round}_{k}; "));
        }
        let new = format!("({{ {pre} {gb} }})");
        let (a, e) = (whole.0 - base, whole.1 - base);
        log.push(format!("call of the helper {name} replaced by its body"));
        text = format!("{}{}{}", &text[..a], new, &text[e..]);
    }
    text
}

/// (whole loop, start of the iterated expression, body braces, end of that expression if it is a plain variable)
struct Loops(Vec<((usize, usize), usize, (usize, usize), usize)>);
impl<'a> Visit<'a> for Loops {
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.0.push((rng(l.span()), 0, rng(l.body.brace_token.span.join()), 0));
        syn::visit::visit_expr_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.0.push((rng(l.span()), 0, rng(l.body.brace_token.span.join()), 0));
        syn::visit::visit_expr_while(self, l);
    }
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        let e = rng(l.expr.span());
        self.0.push((rng(l.span()), e.0, rng(l.body.brace_token.span.join()), if matches!(&*l.expr, syn::Expr::Path(_)) { e.1 } else { 0 }));
        syn::visit::visit_expr_for_loop(self, l);
    }
}

struct Calls {
    free: BTreeSet<String>,
    methods: BTreeSet<String>,
}
impl<'a> Visit<'a> for Calls {
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 1 {
            self.free.insert(segs[0].clone());
        } else {
            self.methods.insert(segs[segs.len() - 1].clone());
            self.free.insert(segs[segs.len() - 1].clone());
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.methods.insert(m.method.to_string());
        syn::visit::visit_expr_method_call(self, m);
    }
}

// ---------------------------------------------------------------- template

#[derive(Default)]
struct FnSpec {
    path: String,
    ret: String,
    novis: bool,
    opt: bool,
    ext: bool,
    sigonly: bool,
    rename: Option<String>,
    attrs: Vec<String>,
    contract: String,
    pre: BTreeMap<usize, String>,
    inv: BTreeMap<usize, String>,
    lstart: BTreeMap<usize, String>,
    lend: BTreeMap<usize, String>,
    bstart: String,
    tail: String,
    substs: Vec<(String, String)>,
    sigsubsts: Vec<(String, String)>,
    nloops: Option<usize>,
    closures: BTreeMap<usize, String>,
    iters: BTreeMap<usize, String>,
    wrap: Option<String>,
    /// callee, argument, text of the function the argument is moved to
    hoists: Vec<(String, usize, String, String)>,
}

struct Out {
    text: String,
    fns: Vec<serde_json::Value>,
    drops: Vec<String>,
    problems: Vec<String>,
    called_free: BTreeSet<String>,
    called_methods: BTreeSet<String>,
}
impl Out {
    fn line(&self) -> usize {
        self.text.matches('\n').count() + 1
    }
}

/// resolve holes (they may be nested)
/// the literals that stand for sets of characters
fn char_sets(text: &str) -> BTreeSet<String> {
    let t = toks(text);
    t.windows(3).filter(|w| matches!(&w[0].s[..], "is_not" | "is_a") && w[1].s == "(" && w[2].s.starts_with('"') && w[2].s.len() <= 80).map(|w| w[2].s.clone()).collect()
}

/// what such a literal contains, spelt out
fn set_facts(lit: &str) -> String {
    let Ok(l) = syn::parse_str::<syn::LitStr>(lit) else { return String::new() };
    let v = l.value();
    if v.is_empty() {
        return String::new();
    }
    let each: Vec<String> = v.chars().enumerate().map(|(k, c)| format!("vx_s[{k}] == {c:?}")).collect();
    let any: Vec<String> = v.chars().map(|c| format!("vx_c == {c:?}")).collect();
    format!(
        "proof {{ reveal_strlit({lit}); let vx_s = {lit}@; assert({}); assert forall|vx_c: char| #[trigger] vx_s.contains(vx_c) == ({}) by {{ }} lemmas::lemma_set_is(vx_s); }} ",
        each.join(" && "),
        any.join(" || ")
    )
}

fn unhole(mut body: String, holes: &[String]) -> String {
    loop {
        let Some(i) = body.rfind("vx_hole_") else { return body };
        let j = i + "vx_hole_".len();
        let e = body[j..].find("!()").unwrap() + j;
        let k: usize = body[j..e].parse().unwrap();
        body = format!("{}{}{}", &body[..i], holes[k], &body[e + 3..]);
    }
}

/// the argument of the calls of a function, within calls of another (if named), if it calls a third (if named)
struct ArgOf<'b> {
    callee: &'b str,
    outer: &'b str,
    inside: usize,
    arg: usize,
    /// functions that the argument calls (`*f`) and does not call (`!f`)
    has: &'b str,
    found: Vec<(usize, usize)>,
}
impl<'a, 'b> Visit<'a> for ArgOf<'b> {
    fn visit_expr_call(&mut self, m: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*m.func {
            if p.path.segments.last().is_some_and(|s| s.ident == self.callee) && (self.outer.is_empty() || self.inside > 0) {
                if let Some(a) = m.args.iter().nth(self.arg) {
                    let calls = self.has.replace('*', "\n*").replace('!', "\n!").lines().filter(|w| !w.is_empty()).all(|w| {
                        let mut h = ArgOf { callee: &w[1..], outer: "", inside: 0, arg: 0, has: "", found: vec![] };
                        h.visit_expr(a);
                        h.found.is_empty() == w.starts_with('!')
                    });
                    if calls {
                        self.found.push(rng(a.span()));
                    }
                }
            }
            if p.path.segments.last().is_some_and(|s| s.ident == self.outer) {
                self.inside += 1;
                syn::visit::visit_expr_call(self, m);
                self.inside -= 1;
                return;
            }
        }
        syn::visit::visit_expr_call(self, m);
    }
}

/// (beginning of the initialiser, name) of the local variables, (field, name it is bound to) in struct patterns
/// The variables that a loop changes and that live longer than a round of it.
fn carried(b: &syn::Block, whole: (usize, usize)) -> Vec<String> {
    struct V {
        whole: (usize, usize),
        outer: BTreeSet<String>,
        inner: BTreeSet<String>,
        used: BTreeSet<String>,
    }
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            let r = rng(p.span());
            let inside = self.whole.0 <= r.0 && r.1 <= self.whole.1;
            if p.mutability.is_some() && p.by_ref.is_none() && !inside {
                self.outer.insert(p.ident.to_string());
            } else if inside {
                self.inner.insert(p.ident.to_string());
            }
        }
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
            let r = rng(p.span());
            if let (Some(i), true) = (p.path.get_ident(), self.whole.0 <= r.0 && r.1 <= self.whole.1) {
                self.used.insert(i.to_string());
            }
        }
    }
    let mut v = V { whole, outer: BTreeSet::new(), inner: BTreeSet::new(), used: BTreeSet::new() };
    v.visit_block(b);
    v.outer.iter().filter(|x| v.used.contains(*x) && !v.inner.contains(*x)).cloned().collect()
}

fn bound_names(b: &syn::Block, body: &str, base: usize) -> (Vec<(String, String)>, Vec<(String, String)>) {
    struct V<'t>(&'t str, usize, Vec<(String, String)>, Vec<(String, String)>);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_local(&mut self, l: &'a syn::Local) {
            let p = match &l.pat {
                syn::Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let (syn::Pat::Ident(i), Some(init)) = (p, &l.init) {
                let r = rng(init.expr.span());
                self.2.push((self.0[r.0 - self.1..r.1 - self.1].to_string(), i.ident.to_string()));
            }
            syn::visit::visit_local(self, l);
        }
        fn visit_field_pat(&mut self, f: &'a syn::FieldPat) {
            if let (syn::Member::Named(m), syn::Pat::Ident(i)) = (&f.member, &*f.pat) {
                self.3.push((m.to_string(), i.ident.to_string()));
            }
            syn::visit::visit_field_pat(self, f);
        }
    }
    let mut v = V(body, base, vec![], vec![]);
    v.visit_block(b);
    (v.2, v.3)
}

fn render(ix: &Index, f: &FnEntry, s: &FnSpec, out: &mut Out, canary: Option<usize>, provided: &BTreeSet<String>, comb: &Comb) {
    let src = &ix.files[f.file].text;
    let mut drops = vec![];
    let mut problems = vec![];
    // how the text differs in shape from what the annotations were written for
    let mut loose: Vec<String> = vec![];
    let mut holes: Vec<String> = vec![];
    let mut hoisted: Vec<String> = vec![];
    let mut ctx = HashMap::new();
    for (i, (n, _)) in f.params.iter().enumerate() {
        ctx.insert(format!("${}", i + 1), n.clone());
    }
    let fill = |t: &str| {
        let mut t = t.to_string();
        for (k, v) in &ctx {
            t = t.replace(k.as_str(), v);
        }
        t
    };
    // signature
    let mut edits = vec![];
    for (n, r) in &f.params {
        if n.starts_with("vx_p") {
            edits.push((r.0, r.1, n.clone()));
        }
    }
    if let Some((_, a, b)) = f.ret {
        let name = if s.ret.is_empty() { "vx_ret" } else { &s.ret };
        edits.push((a, a, format!("({name}: ")));
        edits.push((b, b, ")".into()));
    }
    let mut sig = edit(src, f.sig.0, f.sig.1, edits);
    for (p, r) in &s.sigsubsts {
        let (t, n) = subst(&sig, p, r, &mut holes, &ctx);
        sig = t;
        if n > 0 {
            drops.push(format!("signature: {p} ==> {r}"));
        }
    }
    if let Some(n) = &s.rename {
        let (t, _) = subst(&sig, &format!("fn {}", f.name), &format!("fn {n}"), &mut holes, &ctx);
        sig = t;
    }
    // body
    let mut body = f.body.map(|(a, b)| src[a..b].to_string()).unwrap_or_default();
    let st = toks(&sig);
    if let Some(k) = (1..st.len().saturating_sub(1)).find(|&k| st[k].s == "mut" && st[k + 1].s == "self" && st[k - 1].s == "(") {
        sig.replace_range(st[k].start..st[k].end, "");
        let edits = toks(&body).into_iter().filter(|t| t.s == "self").map(|t| (t.start, t.end, "vx_self".to_string())).collect();
        body = edit(&body, 0, body.len(), edits);
        body = body.replacen('{', "{ let mut vx_self = self; ", 1);
        drops.push("mut self: moved to a variable first".into());
    }
    let mut nloops = 0;
    if !s.ext && !s.sigonly && f.body.is_some() {
        for (n, why) in &comb.opaque {
            if toks(&body).iter().any(|t| t.s == *n) {
                problems.push(why.clone());
            }
        }
        body = inline_helpers(ix, f, provided, body, &mut drops);
        if comb.on {
            body = desugar_comb(ix, f, provided, comb, body, &mut holes, &ctx, &mut drops);
        }
        if let Some((b, _)) = parse_block(&body) {
            let mut c = Calls { free: BTreeSet::new(), methods: BTreeSet::new() };
            c.visit_block(&b);
            out.called_free.extend(c.free);
            out.called_methods.extend(c.methods);
        }
        let mut placed = false;
        for (at, (callee, arg, nth, text)) in s.hoists.iter().enumerate() {
            // (`|`: in place of the one before, where that is not there)
            if callee.starts_with('|') && placed {
                continue;
            }
            let last = !s.hoists.get(at + 1).is_some_and(|h| h.0.starts_with('|'));
            let callee = callee.trim_start_matches('|');
            let found = parse_block(&body).and_then(|(b, base)| {
                let (outer, inner) = callee.rsplit_once('/').unwrap_or(("", callee));
                let mut h = ArgOf { callee: inner, outer, inside: 0, arg: *arg, has: if nth.starts_with(['*', '!']) { nth } else { "" }, found: vec![] };
                h.visit_block(&b);
                match nth.parse::<usize>() {
                    Ok(n) => h.found.get(n).map(|r| (r.0 - base, r.1 - base)),
                    Err(_) if h.found.len() == 1 => Some((h.found[0].0 - base, h.found[0].1 - base)),
                    Err(_) => None,
                }
            });
            placed = found.is_some();
            match (found, fill(text).split_once("fn ")) {
                (Some((a, b)), Some((_, rest))) => {
                    let name: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    hoisted.push(fill(text).replace("$EXPR", &body[a..b]));
                    // its parameters have the names of the variables of the expression
                    let params = &rest[rest.find('(').unwrap() + 1..rest.find(')').unwrap()];
                    let args: Vec<&str> = params.split(',').filter_map(|p| p.split_once(':').map(|(n, _)| n.trim())).collect();
                    body.replace_range(a..b, &format!("{name}({})", args.join(", ")));
                    drops.push(format!("argument {arg} of {callee} is computed by a function of its own, {name}"));
                }
                _ if !last => {}
                _ => problems.push(format!("no single call of {callee}")),
            }
        }
        body = desugar_strlists(ix, f, body, &mut drops);
        body = desugar_strmatch(body, &mut drops);
        body = desugar_bool(body, &mut drops);
        body = desugar_continue(body, &mut drops);
        if s.opt {
            body = desugar_opt(body, &mut drops);
        }
        for (p, r) in &s.substs {
            let (t, n) = subst(&body, p, r, &mut holes, &ctx);
            body = t;
            if n > 0 {
                drops.push(format!("{p} ==> {r}"));
            }
        }
        match parse_block(&body) {
            None => problems.push("body not parseable after substitutions".to_string()),
            Some((b, base)) => {
                let mut l = Loops(vec![]);
                l.visit_block(&b);
                l.0.sort();
                nloops = l.0.len();
                let want = s.nloops.unwrap_or(s.inv.len());
                // fewer loops: the proof is tried without what is said about loops
                let misfit = nloops < want;
                if misfit {
                    loose.push(format!("{nloops} loops where {want} are annotated"));
                } else if nloops > want {
                    problems.push(format!("{nloops} loops where {want} are annotated"));
                }
                let (names, fields) = bound_names(&b, &body, base);
                let fill = |t: &str| {
                    let mut t = fill(t);
                    for (pre, names) in [("$local{", &names), ("$field{", &fields)] {
                        while let Some(a) = t.find(pre) {
                            let z = a + t[a..].find('}').unwrap();
                            let key = t[a + pre.len()..z].to_string();
                            // not there: the text does not compile and the function is set aside
                            let n = names.iter().find(|(i, _)| if pre == "$field{" { *i == key } else { i.starts_with(&key) }).map_or(format!("vx_no_{}", names.len()), |(_, n)| n.clone());
                            t.replace_range(a..=z, &n);
                        }
                    }
                    t
                };
                let mut ins: Vec<(usize, usize, String)> = vec![];
                if !misfit {
                    for (k, (whole, ..)) in l.0.iter().enumerate() {
                        let said: BTreeSet<String> = s.inv.get(&k).map(|t| fill(t)).iter().flat_map(|t| t.split(|c: char| !c.is_alphanumeric() && c != '_').map(String::from).collect::<Vec<_>>()).collect();
                        for v in carried(&b, *whole) {
                            if !said.contains(&v) {
                                loose.push(format!("loop {k} carries the variable {v}, about which nothing is annotated"));
                            }
                        }
                    }
                }
                for (k, (whole, expr, brace, plain)) in l.0.iter().enumerate() {
                    let mut post = 0;
                    if let Some(p) = s.pre.get(&k).filter(|_| !misfit) {
                        ins.push((whole.0 - base, post, format!("{{ {} ", fill(p))));
                        ins.push((whole.1 - base, 9, " }".into()));
                        post += 1;
                    }
                    let _ = post;
                    if let Some(n) = s.iters.get(&k).filter(|_| !misfit) {
                        let (n, suffix) = n.split_once(' ').unwrap_or((n, ""));
                        if *expr > 0 {
                            ins.push((expr - base, 2, format!("{n}: ")));
                        }
                        if *plain > 0 && !suffix.is_empty() {
                            ins.push((plain - base, 2, suffix.trim().to_string()));
                            drops.push(format!("the iterated variable {}: {}{}", &body[expr - base..plain - base], &body[expr - base..plain - base], suffix.trim()));
                        }
                    }
                    if let Some(p) = s.inv.get(&k).filter(|_| !misfit) {
                        ins.push((brace.0 - base, 3, format!("\n{}", fill(p))));
                    }
                    if let Some(p) = s.lstart.get(&k).filter(|_| !misfit) {
                        ins.push((brace.0 + 1 - base, 4, format!(" {} ", fill(p))));
                    }
                    if let Some(p) = s.lend.get(&k).filter(|_| !misfit) {
                        ins.push((brace.1 - 1 - base, 5, format!(" {} ", fill(p))));
                    }
                }
                let mut cuts: Vec<(usize, usize, String)> = vec![];
                {
                    let mut c = Closures(vec![]);
                    c.visit_block(&b);
                    c.0.sort();
                    if c.0.len() != s.closures.len() {
                        // those that only build a value say so themselves; the proof is tried with that
                        let mut rest = 0;
                        for (at, bd, blk, names, pats) in &c.0 {
                            let bt = &body[bd.0 - base..bd.1 - base];
                            if !syn::parse_str::<syn::Expr>(bt).is_ok_and(|e| pure(&e)) {
                                rest += 1;
                                continue;
                            }
                            let mut lets = String::new();
                            for (i, n) in names.iter().enumerate() {
                                if n == "vx_pat" {
                                    let n = format!("vx_c{at}_{i}");
                                    let p = &body[pats[i].0 - base..pats[i].1 - base];
                                    if p != "_" {
                                        lets.push_str(&format!("let {p} = {n}; "));
                                    }
                                    cuts.push((pats[i].0 - base, pats[i].1 - base, n));
                                }
                            }
                            ins.push((at - base, 6, format!(" -> (vx_o: _) ensures ({{ {lets} crate::vx_same(vx_o, {bt}) }}) ")));
                            if !blk || !lets.is_empty() {
                                ins.push((bd.0 - base, 7, format!("{{ {lets}")));
                                ins.push((bd.1 - base, 8, " }".into()));
                            }
                            drops.push(format!("closure annotated with its own value: {}", bt.replace('\n', " ")));
                        }
                        if rest > 0 || !s.closures.is_empty() {
                            loose.push(format!("{} closures where {} are annotated", c.0.len(), s.closures.len()));
                        }
                    } else {
                        for (ck, ((at, bd, blk, names, pats), (_, t))) in c.0.iter().zip(&s.closures).enumerate() {
                            let mut t = fill(t);
                            let mut lets = String::new();
                            for (i, n) in names.iter().enumerate() {
                                if n == "vx_pat" {
                                    // a parameter pattern is taken apart inside the body
                                    let n = format!("vx_c{ck}_{i}");
                                    t = t.replace(&format!("$c{}", i + 1), &n);
                                    lets.push_str(&format!("let {} = {n}; ", &body[pats[i].0 - base..pats[i].1 - base]));
                                    cuts.push((pats[i].0 - base, pats[i].1 - base, n));
                                } else {
                                    t = t.replace(&format!("$c{}", i + 1), n);
                                }
                            }
                            if !lets.is_empty() {
                                ins.push((bd.0 - base, 6, format!("{{ {lets}")));
                                ins.push((bd.1 - base, 9, " }".into()));
                            }
                            // verus syntax goes through a hole
                            ins.push((at - base, 6, format!(" {} ", t.trim())));
                            if !blk && lets.is_empty() {
                                ins.push((bd.0 - base, 7, "{ ".into()));
                                ins.push((bd.1 - base, 8, " }".into()));
                            }
                        }
                    }
                }
                let mut all: Vec<(usize, i32, usize, String)> = ins.into_iter().map(|(a, p, t)| (a, p as i32, a, t)).collect();
                all.extend(cuts.into_iter().map(|(a, b, t)| (a, 99, b, t)));
                all.sort();
                for (at, _, to, t) in all.into_iter().rev() {
                    body.replace_range(at..to, &t);
                }
            }
        }
        body = unhole(body, &holes);
        for h in &mut hoisted {
            *h = unhole(std::mem::take(h), &holes);
        }
        let mut reveals = String::new();
        if comb.on && !s.ext {
            for l in char_sets(&body).difference(&comb.lits) {
                reveals.push_str(&set_facts(l));
            }
            for h in &mut hoisted {
                let facts: String = char_sets(h).difference(&comb.lits).map(|l| set_facts(l)).collect();
                if let (false, Some(at)) = (facts.is_empty(), h.find("\n{\n")) {
                    h.insert_str(at + 3, &facts);
                }
            }
            let mut new = BTreeSet::new();
            for k in toks(&body) {
                if k.s.starts_with('"') && k.s.len() <= 34 && (!comb.lits.contains(&k.s) || !s.bstart.contains("lemma_") || s.bstart.find("proof {").is_none()) {
                    new.insert(k.s);
                }
            }
            for l in new.iter().take(6) {
                let empty = if l == "\"\"" { "assert forall|s: Seq<char>| #[trigger] s.len() == 0 implies s == \"\"@ by { assert(s =~= \"\"@); } " } else { "" };
                reveals.push_str(&format!("proof {{ reveal_strlit({l}); {empty}}} "));
            }
        }
        if let Some(w) = &s.wrap {
            body = format!("{{ {w}({body}) }}");
        }
        if !reveals.is_empty() {
            let at = body.find('{').unwrap() + 1;
            body.insert_str(at, &reveals);
        }
        if !s.bstart.is_empty() || !s.tail.is_empty() {
            let inner = &body[body.find('{').unwrap() + 1..body.rfind('}').unwrap()];
            let r = if s.ret.is_empty() { "vx_ret" } else { &s.ret };
            body = if s.tail.is_empty() {
                format!("{{ {}\n{} }}", fill(&s.bstart), inner)
            } else {
                format!("{{ {}\nlet {r} = {{ {} }};\n{}\n{r} }}", fill(&s.bstart), inner, fill(&s.tail))
            };
        }
    }
    let start = out.line();
    for h in &hoisted {
        out.text.push_str(h);
    }
    for a in &s.attrs {
        out.text.push_str(a);
        out.text.push('\n');
    }
    if s.ext {
        out.text.push_str("#[verifier::external_body]\n");
    }
    if !s.novis {
        out.text.push_str("pub ");
    }
    out.text.push_str(sig.trim_end());
    out.text.push('\n');
    let mut contract = fill(&s.contract);
    if let (Some(k), true, false) = (canary, contract.trim().is_empty(), s.sigonly || s.ext) {
        // contract inherited from the trait: the end of the body has to be reachable
        let name = if s.ret.is_empty() { "vx_ret" } else { &s.ret };
        let ty = sig.find(&format!("({name}: ")).map(|i| {
            let t = &sig[i + name.len() + 3..];
            let mut depth = 0;
            let end = t.find(|c| {
                depth += match c { '(' => 1, ')' => -1, _ => 0 };
                depth < 0
            });
            format!(": {}", &t[..end.unwrap_or(t.len())])
        });
        body = format!("{{ let vx_c{} = {body}; assert(vx_canary({k}, ())); vx_c }}", ty.unwrap_or_default());
    } else if let (Some(k), false) = (canary, s.sigonly || s.ext) {
        let r = if f.ret.is_none() { "()" } else if s.ret.is_empty() { "vx_ret" } else { &s.ret };
        // reachability check: this clause must be refuted
        if contract.contains("ensures") {
            contract = contract.replacen("ensures", &format!("ensures vx_canary({k}, {r}), "), 1);
        } else if let Some(i) = contract.find("decreases") {
            contract.insert_str(i, &format!("ensures vx_canary({k}, {r}),\n    "));
        } else {
            contract.push_str(&format!("\n    ensures vx_canary({k}, {r}),\n"));
        }
    }
    out.text.push_str(&contract);
    if !contract.ends_with('\n') {
        out.text.push('\n');
    }
    if s.sigonly {
        out.text.push_str(";\n");
    } else if s.ext {
        out.text.push_str("{ unimplemented!() }\n");
    } else {
        out.text.push_str(&body);
        out.text.push('\n');
    }
    let end = out.line() - 1;
    for d in &drops {
        let d = format!("{}: {}", s.path, d);
        if !out.drops.contains(&d) {
            out.drops.push(d);
        }
    }
    for p in &problems {
        out.problems.push(format!("{}: {}", s.path, p));
    }
    out.fns.push(serde_json::json!({
        "path": s.path, "found": format!("{}::{}", f.module, f.tail), "file": ix.files[f.file].path, "src_lines": [f.line, f.end_line],
        "lines": [start, end], "external": s.ext, "sigonly": s.sigonly, "loops": nloops, "problems": problems, "loose": loose, "inlined": drops.iter().any(|d| d.starts_with("call of the helper")),
        "contracted": !s.contract.trim().is_empty(),
    }));
}

// ---------------------------------------------------------------- regular expressions (`//@regex`)

/// The pattern of `static NAME = Regex::new(LITERAL).unwrap()`, directly or in lazy_static!, LazyLock and the like.
fn static_regex(ix: &Index, name: &str) -> Result<(String, String), String> {
    fn walk(ts: TokenStream, name: &str, found: &mut Vec<Vec<TokenTree>>) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            if let TokenTree::Group(g) = t {
                walk(g.stream(), name, found);
            }
            let is = |k: usize, w: &str| k < v.len() && v[k].to_string() == w;
            if is(i, "static") && (is(i + 1, name) || is(i + 1, "ref") && is(i + 2, name)) {
                found.push(v[i..].iter().take_while(|t| t.to_string() != ";").cloned().collect());
            }
        }
    }
    fn leaves(ts: &[TokenTree], out: &mut Vec<TokenTree>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => leaves(&g.stream().into_iter().collect::<Vec<_>>(), out),
                _ => out.push(t.clone()),
            }
        }
    }
    let mut found = vec![];
    let mut file = String::new();
    for f in &ix.files {
        let mut v = vec![];
        walk(f.text.parse::<TokenStream>().map_err(|e| e.to_string())?, name, &mut v);
        if !v.is_empty() {
            file = f.path.clone();
        }
        found.extend(v);
    }
    let [decl] = &found[..] else { return Err(format!("{} declarations of {name}", found.len())) };
    let mut l = vec![];
    leaves(decl, &mut l);
    let ok = ["static", "ref", "Regex", "new", "unwrap", "expect", "LazyLock", "Lazy", "OnceLock", "std", "sync", "lazy", "once_cell", "regex"];
    for t in &l {
        if let TokenTree::Ident(i) = t {
            let i = i.to_string();
            if i != name && !ok.contains(&i.as_str()) {
                return Err(format!("{name} is made with {i}"));
            }
        }
    }
    let words: Vec<String> = l.iter().map(|t| t.to_string()).collect();
    let at = words.windows(4).position(|w| w[0] == "Regex" && w[1] == ":" && w[2] == ":" && w[3] == "new").ok_or("no Regex::new")?;
    let lit: syn::LitStr = syn::parse_str(words.get(at + 4).ok_or("no pattern")?).map_err(|_| "the pattern is no literal".to_string())?;
    Ok((lit.value(), file))
}
fn char_lit(c: char) -> String {
    format!("'{}'", c.escape_default())
}
/// a pattern as a term over the matchers of the template; sets are collected
fn regex_term(a: &regex_syntax::ast::Ast, sets: &mut Vec<String>) -> Result<String, String> {
    use regex_syntax::ast::*;
    fn set(ranges: Vec<(char, char)>, neg: bool, sets: &mut Vec<String>) -> String {
        let mut r = ranges;
        r.sort();
        r.dedup();
        let t = r.iter().map(|(a, b)| if a == b { format!("c == {}", char_lit(*a)) } else { format!("{} <= c <= {}", char_lit(*a), char_lit(*b)) }).collect::<Vec<_>>().join(" || ");
        let t = if neg { format!("!({t})") } else { t };
        let k = sets.iter().position(|x| *x == t).unwrap_or_else(|| {
            sets.push(t);
            sets.len() - 1
        });
        format!("@set{k}()")
    }
    fn items(i: &ClassSetItem, out: &mut Vec<(char, char)>) -> Result<(), String> {
        match i {
            ClassSetItem::Literal(l) => out.push((l.c, l.c)),
            ClassSetItem::Range(r) => out.push((r.start.c, r.end.c)),
            ClassSetItem::Union(u) => {
                for i in &u.items {
                    items(i, out)?;
                }
            }
            _ => return Err("character class".into()),
        }
        Ok(())
    }
    /// the set of a node that matches one character
    fn one(a: &Ast, sets: &mut Vec<String>) -> Result<Option<String>, String> {
        Ok(match a {
            Ast::Literal(l) => Some(set(vec![(l.c, l.c)], false, sets)),
            Ast::ClassBracketed(b) => {
                let ClassSet::Item(i) = &b.kind else { return Err("character class".into()) };
                let mut v = vec![];
                items(i, &mut v)?;
                Some(set(v, b.negated, sets))
            }
            Ast::Group(g) if !matches!(g.kind, GroupKind::NonCapturing(ref f) if !f.items.is_empty()) => one(&g.ast, sets)?,
            _ => None,
        })
    }
    Ok(match a {
        Ast::Empty(_) => "re_nothing()".into(),
        Ast::Literal(l) => format!("re_word({:?}@)", l.c.to_string()),
        Ast::ClassBracketed(_) => format!("re_set({})", one(a, sets)?.unwrap()),
        Ast::Group(g) => match &g.kind {
            GroupKind::NonCapturing(f) if !f.items.is_empty() => return Err("flags".into()),
            _ => regex_term(&g.ast, sets)?,
        },
        Ast::Alternation(x) => {
            let mut v = x.asts.iter().map(|y| regex_term(y, sets)).collect::<Result<Vec<_>, _>>()?;
            let mut t = v.pop().unwrap();
            while let Some(y) = v.pop() {
                t = format!("re_alt({y}, {t})");
            }
            t
        }
        Ast::Concat(x) => {
            let mut v: Vec<String> = vec![];
            let mut word = String::new();
            for y in &x.asts {
                if let Ast::Literal(l) = y {
                    word.push(l.c);
                    continue;
                }
                if !word.is_empty() {
                    v.push(format!("re_word({:?}@)", std::mem::take(&mut word)));
                }
                v.push(regex_term(y, sets)?);
            }
            if !word.is_empty() {
                v.push(format!("re_word({word:?}@)"));
            }
            let mut t = v.pop().unwrap_or("re_nothing()".into());
            while let Some(y) = v.pop() {
                t = format!("re_cat({y}, {t})");
            }
            t
        }
        Ast::Repetition(r) => {
            let pref = |a: String, b: String| if r.greedy { format!("re_alt({a}, {b})") } else { format!("re_alt({b}, {a})") };
            let times = |n: u32, t: &str| (1..n).fold(t.to_string(), |a, _| format!("re_cat({t}, {a})"));
            match &r.op.kind {
                RepetitionKind::ZeroOrOne => pref(regex_term(&r.ast, sets)?, "re_nothing()".into()),
                RepetitionKind::Range(RepetitionRange::Exactly(n)) if (1..10).contains(n) => times(*n, &regex_term(&r.ast, sets)?),
                RepetitionKind::OneOrMore if r.greedy => format!("re_many({})", one(&r.ast, sets)?.ok_or("repetition")?),
                RepetitionKind::ZeroOrMore if r.greedy => format!("re_alt(re_many({}), re_nothing())", one(&r.ast, sets)?.ok_or("repetition")?),
                _ => return Err("repetition".into()),
            }
        }
        _ => return Err("an operator outside the translated subset".into()),
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 4 && args[1] == "--names" {
        let ix = Index::load(&PathBuf::from(&args[2]));
        let t = serde_json::to_string_pretty(&names::record(&ix)).unwrap() + "\n";
        std::fs::write(&args[3], t).unwrap_or_else(|e| die(format!("{}: {e}", args[3])));
        return;
    }
    if args.len() < 5 {
        die("usage: overlay SRC TEMPLATE OUT MAP [--external PATH]... [--canary PATH]".into());
    }
    let ix = Index::load(&PathBuf::from(&args[1]));
    let tpl = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| die(format!("{}: {e}", args[2])));
    let dir = PathBuf::from(&args[2]).parent().unwrap().to_path_buf();
    let (ix, renamed) = match std::fs::read_to_string(dir.join("names.json")).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(base) => names::restore(ix, &PathBuf::from(&args[1]), &base),
        None => (ix, vec![]),
    };
    let mut external = BTreeSet::new();
    let mut canary: Vec<String> = vec![];
    let mut i = 5;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--external" => {
                external.insert(args[i + 1].clone());
            }
            "--canary" => canary.push(args[i + 1].clone()),
            o => die(format!("unknown option {o}")),
        };
        i += 2;
    }
    // includes
    let mut lines: Vec<String> = vec![];
    fn inc(t: &str, dir: &Path, out: &mut Vec<String>) {
        for l in t.lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                let p = dir.join(f.trim());
                let t = std::fs::read_to_string(&p).unwrap_or_else(|e| die(format!("{}: {e}", p.display())));
                inc(&t, dir, out);
            } else {
                out.push(l.to_string());
            }
        }
    }
    inc(&tpl, &dir, &mut lines);

    let mut out = Out { text: String::new(), fns: vec![], drops: vec![], problems: vec![], called_free: Default::default(), called_methods: Default::default() };
    let mut missing: Vec<String> = vec![];
    let mut types: Vec<serde_json::Value> = vec![];
    let mut i = 0;
    let mut provided_free: BTreeSet<String> = BTreeSet::new();
    for l in &lines {
        let mut rest = l.as_str();
        while let Some(k) = rest.find("fn ") {
            let n: String = rest[k + 3..].trim_start().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            provided_free.insert(n);
            rest = &rest[k + 3..];
        }
        if let Some(p) = l.trim().strip_prefix("//@fn ") {
            let p = p.split_whitespace().next().unwrap();
            provided_free.insert(p.rsplit("::").next().unwrap().to_string());
        }
    }
    let mut modules: BTreeSet<(usize, String)> = BTreeSet::new();
    let mut helper_slot: Option<usize> = None;
    let mut comb = Comb { ctors: ix.ctors.clone(), ..Default::default() };
    while i < lines.len() {
        let l = lines[i].clone();
        let t = l.trim().to_string();
        if let Some(p) = t.strip_prefix("//@type ") {
            let p = p.trim();
            let p: &str = &p.to_string();
            match ix.types.iter().find(|x| x.path == p).or_else(|| {
                let n = p.rsplit("::").next().unwrap();
                let c: Vec<_> = ix.types.iter().filter(|x| x.name == n).collect();
                if c.len() == 1 { Some(c[0]) } else { None }
            }) {
                Some(x) => {
                    let mut text = x.text.clone();
                    while i + 1 < lines.len() {
                        let Some(d) = lines[i + 1].trim().strip_prefix("//@typesubst ") else { break };
                        let (a, b) = d.split_once("==>").unwrap_or_else(|| die(format!("bad typesubst {d}")));
                        let (t, n) = subst(&text, a.trim(), b.trim(), &mut vec![], &HashMap::new());
                        text = t;
                        if n > 0 {
                            out.drops.push(format!("{p}: {} ==> {}", a.trim(), b.trim()));
                        }
                        i += 1;
                    }
                    out.text.push_str(&text);
                    out.text.push('\n');
                    types.push(serde_json::json!({"path": p, "file": ix.files[x.file].path, "line": x.line}));
                }
                None => missing.push(p.to_string()),
            }
        } else if let Some(p) = t.strip_prefix("//@implhead ") {
            match ix.find(p.trim()) {
                Some(f) => {
                    let h = f.head.unwrap_or_else(|| die(format!("{p} has no impl header")));
                    out.text.push_str(ix.files[f.file].text[h.0..h.1].trim());
                    out.text.push('\n');
                }
                None => missing.push(p.trim().to_string()),
            }
        } else if t == "//@mode combinators" {
            comb.on = true;
            for l in lines.iter().filter(|l| !l.trim().starts_with("//")) {
                for part in l.split("reveal_strlit(").skip(1) {
                    let mut esc = false;
                    let end = part.char_indices().skip(1).find(|(_, c)| {
                        let e = esc;
                        esc = !esc && *c == '\\';
                        *c == '"' && !e
                    });
                    if let (true, Some((e, _))) = (part.starts_with('"'), end) {
                        comb.lits.insert(part[..=e].to_string());
                    }
                }
            }
        } else if let Some(r) = t.strip_prefix("//@rename ") {
            let (a, b) = r.split_once("==>").unwrap_or_else(|| die(format!("bad rename {r}")));
            comb.renames.insert(a.trim().into(), b.trim().into());
        } else if let Some(n) = t.strip_prefix("//@fnvalue ") {
            let mut x = String::new();
            i += 1;
            while i < lines.len() && lines[i].trim() != "//@end" {
                x.push_str(&lines[i]);
                x.push('\n');
                i += 1;
            }
            comb.fnvalues.insert(n.trim().into(), x);
        } else if let Some(n) = t.strip_prefix("//@regex ") {
            // NAME FN: a spec function FN for the pattern of the static NAME, the text up to //@else about it (in
            // which @ stands for FN), and what is assumed instead if the pattern cannot be translated
            let mut w = n.split_whitespace();
            let (name, fun) = (w.next().unwrap_or_default().to_string(), w.next().unwrap_or_default().to_string());
            let (mut a, mut b, mut second) = (String::new(), String::new(), false);
            i += 1;
            while i < lines.len() && lines[i].trim() != "//@end" {
                if lines[i].trim() == "//@else" {
                    second = true;
                } else if second {
                    b.push_str(&format!("{}\n", lines[i]));
                } else {
                    a.push_str(&format!("{}\n", lines[i]));
                }
                i += 1;
            }
            let r = static_regex(&ix, &name).and_then(|(p, f)| {
                let ast = regex_syntax::ast::parse::Parser::new().parse(&p).map_err(|e| e.to_string())?;
                let mut sets = vec![];
                let t = regex_term(&ast, &mut sets)?;
                Ok((p, f, t, sets))
            });
            match r {
                Ok((p, f, t, sets)) if !external.contains(&format!("regex:{name}")) => {
                    out.drops.push(format!("the pattern of {name}, {p}, as a term over the matchers"));
                    types.push(serde_json::json!({"path": name, "file": f, "line": 0}));
                    for (k, x) in sets.iter().enumerate() {
                        out.text.push_str(&format!("pub open spec fn {fun}_set{k}() -> spec_fn(char) -> bool {{ |c: char| {x} }}\n"));
                    }
                    out.text.push_str(&format!("pub open spec fn {fun}() -> Matcher {{ {} }}\n", t.replace('@', "\u{1}").replace("\"\u{1}", "\"@").replace('\u{1}', &format!("{fun}_"))));
                    let start = out.line();
                    out.text.push_str(&a);
                    out.fns.push(serde_json::json!({
                        "path": format!("regex:{name}"), "found": name, "file": f, "src_lines": [0, 0], "lines": [start, out.line() - 1],
                        "external": false, "sigonly": false, "loops": 0, "problems": [], "contracted": true,
                    }));
                }
                r => {
                    let why = match r { Err(e) => e, _ => "set aside".into() };
                    out.text.push_str(&format!("pub uninterp spec fn {fun}() -> Matcher;\n{b}"));
                    comb.opaque.insert(name.clone(), format!("the pattern of {name} is outside the translated subset or its lemma is not redone: {why}"));
                }
            }
        } else if t == "//@helpers" {
            if !canary.is_empty() {
                out.text.push_str("pub uninterp spec fn vx_canary<T>(k: int, t: T) -> bool;\n");
            }
            helper_slot = Some(out.text.len());
        } else if let Some(p) = t.strip_prefix("//@fn ") {
            let mut s = FnSpec::default();
            for (k, w) in fn_words(p).into_iter().enumerate() {
                if k == 0 {
                    s.path = w;
                } else if let Some(r) = w.strip_prefix("ret=") {
                    s.ret = r.into();
                } else if let Some(r) = w.strip_prefix("wrap=") {
                    s.wrap = Some(r.into());
                } else if let Some(r) = w.strip_prefix("as=") {
                    s.rename = Some(r.into());
                } else if let Some(r) = w.strip_prefix("loops=") {
                    s.nloops = r.parse().ok();
                } else {
                    match w.as_str() {
                        "novis" => s.novis = true,
                        "opt" => s.opt = true,
                        "ext" => s.ext = true,
                        "sigonly" => s.sigonly = true,
                        o => die(format!("unknown flag {o}")),
                    }
                }
            }
            i += 1;
            let mut sect = (String::from("contract"), 0usize);
            loop {
                if i >= lines.len() {
                    die(format!("//@fn {} without //@end", s.path));
                }
                let l = lines[i].clone();
                let t = l.trim();
                if t == "//@end" {
                    break;
                }
                if let Some(d) = t.strip_prefix("//@") {
                    let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
                    match w {
                        "attr" => s.attrs.push(rest.into()),
                        "subst" | "sigsubst" => {
                            let mut full = rest.to_string();
                            while i + 1 < lines.len() && lines[i + 1].trim().starts_with("//@+") {
                                i += 1;
                                full.push('\n');
                                full.push_str(lines[i].trim().strip_prefix("//@+").unwrap());
                            }
                            let (a, b) = full.split_once("==>").unwrap_or_else(|| die(format!("bad subst {full}")));
                            let v = if w == "subst" { &mut s.substs } else { &mut s.sigsubsts };
                            v.push((a.trim().into(), b.trim().into()));
                        }
                        "closure" | "pre" | "loop" | "loopstart" | "loopend" | "bodystart" | "tail" => {
                            sect = (w.into(), rest.trim().parse().unwrap_or(0));
                        }
                        "hoist" => {
                            let mut w = rest.split_whitespace();
                            let c = w.next().unwrap_or_default().to_string();
                            let k = w.next().and_then(|k| k.parse().ok()).unwrap_or(0);
                            s.hoists.push((c, k, w.next().unwrap_or_default().to_string(), String::new()));
                            sect = ("hoist".into(), 0);
                        }
                        "iter" => {
                            let mut it = rest.split_whitespace();
                            let k = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                            s.iters.insert(k, it.collect::<Vec<_>>().join(" "));
                        }
                        o => die(format!("unknown directive {o}")),
                    }
                } else {
                    let l = format!("{l}\n");
                    match sect.0.as_str() {
                        "contract" => s.contract.push_str(&l),
                        "closure" => s.closures.entry(sect.1).or_default().push_str(&l),
                        "pre" => s.pre.entry(sect.1).or_default().push_str(&l),
                        "loop" => s.inv.entry(sect.1).or_default().push_str(&l),
                        "loopstart" => s.lstart.entry(sect.1).or_default().push_str(&l),
                        "loopend" => s.lend.entry(sect.1).or_default().push_str(&l),
                        "bodystart" => s.bstart.push_str(&l),
                        "hoist" => s.hoists.last_mut().unwrap().3.push_str(&l),
                        _ => s.tail.push_str(&l),
                    }
                }
                i += 1;
            }
            if external.contains(&s.path) && !s.sigonly {
                s.ext = true;
            }
            match ix.find(&s.path) {
                Some(f) => {
                    modules.insert((f.file, f.module.clone()));
                    let c = canary.iter().position(|p| *p == s.path);
                    render(&ix, f, &s, &mut out, c, &provided_free, &comb);
                }
                None => missing.push(s.path.clone()),
            }
        } else {
            out.text.push_str(&l);
            out.text.push('\n');
        }
        i += 1;
    }
    // helpers without a contract
    let mut all_substs: Vec<(String, String)> = vec![];
    for l in &lines {
        if let Some((a, b)) = l.trim().strip_prefix("//@subst ").and_then(|d| d.split_once("==>")) {
            let e = (a.trim().to_string(), b.trim().to_string());
            if !all_substs.contains(&e) {
                all_substs.push(e);
            }
        }
    }
    let mut uncontracted = vec![];
    let mut extra = Out { text: String::new(), fns: vec![], drops: vec![], problems: vec![], called_free: out.called_free.clone(), called_methods: out.called_methods.clone() };
    let mut done: BTreeSet<String> = BTreeSet::new();
    loop {
        let mut again = false;
        for f in &ix.fns {
            let key = format!("{}::{}", f.module, f.tail);
            if done.contains(&key) || provided_free.contains(&f.name) || f.body.is_none() {
                continue;
            }
            if !modules.contains(&(f.file, f.module.clone())) {
                continue;
            }
            let hit = match f.kind {
                Kind::Free => extra.called_free.contains(&f.name),
                Kind::Inherent => extra.called_methods.contains(&f.name) || extra.called_free.contains(&f.name),
                _ => false,
            };
            if !hit {
                continue;
            }
            done.insert(key.clone());
            again = true;
            // what is named differently in the template is named differently here, too
            let s = FnSpec { path: key.clone(), substs: all_substs.clone(), ext: external.contains(&key), ..Default::default() };
            if let (Kind::Inherent, Some(h)) = (f.kind, f.head) {
                extra.text.push_str(ix.files[f.file].text[h.0..h.1].trim());
                extra.text.push_str(" {\n");
                render(&ix, f, &s, &mut extra, None, &provided_free, &comb);
                extra.text.push_str("}\n");
            } else {
                render(&ix, f, &s, &mut extra, None, &provided_free, &comb);
            }
            uncontracted.push(key);
        }
        if !again {
            break;
        }
    }
    if let (Some(at), false) = (helper_slot, extra.text.is_empty()) {
        let shift = extra.text.matches('\n').count() as i64;
        let slot_line = out.text[..at].matches('\n').count() as i64;
        out.text.insert_str(at, &extra.text);
        let bump = |v: &mut serde_json::Value, by: i64| {
            for k in 0..2 {
                let x = v["lines"][k].as_i64().unwrap();
                v["lines"][k] = (x + by).into();
            }
        };
        for f in &mut out.fns {
            if f["lines"][0].as_i64().unwrap() > slot_line {
                bump(f, shift);
            }
        }
        for mut f in extra.fns {
            bump(&mut f, slot_line);
            out.fns.push(f);
        }
        out.problems.extend(extra.problems);
    }
    // functions that stand in an implementation of a trait beside one under contract, and are not under contract themselves
    // (overriding what the trait provides)
    let mut overrides: Vec<String> = vec![];
    let mut replaced: Vec<(String, String)> = vec![];
    let impls: BTreeSet<String> = out.fns.iter().filter_map(|f| f["found"].as_str()).filter_map(|p| p.rsplit_once("::")).map(|p| p.0.to_string()).collect();
    let here: BTreeSet<String> = out.fns.iter().filter_map(|f| f["found"].as_str()).map(String::from).collect();
    for f in &ix.fns {
        let p = format!("{}::{}", f.module, f.tail);
        if f.kind == Kind::TraitImpl && !here.contains(&p) && p.rsplit_once("::").is_some_and(|x| impls.contains(x.0)) {
            overrides.push(p);
            continue;
        }
        // an implementation of a trait elsewhere that replaces a function the trait provides and that is under contract here
        if f.kind == Kind::TraitImpl && !here.contains(&p) {
            let tr = f.tail.strip_prefix('<').and_then(|t| t.split_once(" for ")).map(|x| x.0).unwrap_or("");
            let of = format!("{tr}::{}", f.tail.rsplit("::").next().unwrap_or(""));
            if ix.fns.iter().any(|d| d.kind == Kind::TraitDef && d.body.is_some() && d.tail == of && here.contains(&format!("{}::{}", d.module, d.tail))) {
                replaced.push((p, of));
            }
        }
    }
    // hand-written implementations of the standard traits that types are taken to derive, and own methods that hide
    // those of the crate's traits
    let own: BTreeSet<&str> = types.iter().filter_map(|t| t["path"].as_str()).map(|p| p.rsplit("::").next().unwrap_or(p)).collect();
    let of_traits: BTreeSet<String> = ix.fns.iter().filter(|f| f.kind == Kind::TraitDef).filter_map(|f| f.tail.rsplit("::").next()).map(String::from).collect();
    let mut by_hand: Vec<String> = vec![];
    for f in &ix.fns {
        let p = format!("{}::{}", f.module, f.tail);
        if here.contains(&p) {
            continue;
        }
        let (head, name) = f.tail.rsplit_once("::").unwrap_or(("", &f.tail));
        let hit = match f.kind {
            Kind::TraitImpl => head.strip_prefix('<').and_then(|h| h.strip_suffix('>')).and_then(|h| h.split_once(" for ")).is_some_and(|(tr, ty)| {
                own.contains(ty.trim_start_matches('&')) && ["Clone", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Drop", "Default", "Borrow", "ToOwned", "AsRef", "Deref", "DerefMut"].contains(&tr)
            }),
            Kind::Inherent => own.contains(head) && of_traits.contains(name),
            _ => false,
        };
        if hit {
            by_hand.push(p);
        }
    }
    let map = serde_json::json!({
        "overrides": overrides, "by_hand": by_hand, "renamed": renamed, "replaced": replaced,
        "fns": out.fns, "types": types, "drops": out.drops, "problems": out.problems, "missing": missing, "uncontracted": uncontracted,
    });
    if out.text.contains("vx_same(") {
        out.text.push_str("\nverus! { pub open spec fn vx_same<T>(a: T, b: T) -> bool { a == b } }\n");
    }
    std::fs::write(&args[3], &out.text).unwrap_or_else(|e| die(format!("{}: {e}", args[3])));
    std::fs::write(&args[4], serde_json::to_string_pretty(&map).unwrap()).unwrap_or_else(|e| die(format!("{}: {e}", args[4])));
}

fn fn_words(p: &str) -> Vec<String> {
    // the path may contain spaces inside <...>
    let mut depth = 0;
    let mut out = vec![String::new()];
    let mut prev = ' ';
    for c in p.chars() {
        match c {
            '<' => depth += 1,
            '>' if prev != '=' => depth -= 1,
            _ => {}
        }
        if c.is_whitespace() && depth == 0 {
            if !out.last().unwrap().is_empty() {
                out.push(String::new());
            }
        } else {
            out.last_mut().unwrap().push(c);
        }
        prev = c;
    }
    out.retain(|s| !s.is_empty());
    out
}
