//! Renamings. Contracts name the private functions, types, fields and parameters they speak of; where the source uses
//! other names than those recorded in `contracts/names.json` for what is otherwise the same declaration, the
//! extraction works on the source with that name written back throughout (an injective renaming of identifiers: the
//! old name may not occur where the new one does).
use crate::{flat, rng, Index, Tok};
use proc_macro2::TokenStream;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;

fn norm(text: &str, own: &str) -> String {
    let ts: TokenStream = text.parse().unwrap_or_default();
    let mut v = vec![];
    flat(ts, &mut v);
    v.iter().map(|t| if t.s == own { "Self" } else { &t.s }).filter(|t| !t.is_empty()).collect::<Vec<_>>().join(" ")
}

/// the non-test tokens of a file
fn tokens(text: &str) -> Vec<Tok> {
    let Ok(f) = syn::parse_file(text) else { return vec![] };
    let mut cut: Vec<(usize, usize)> = vec![];
    for it in &f.items {
        let (attrs, r): (&[syn::Attribute], _) = match it {
            syn::Item::Mod(m) => (&m.attrs, rng(m.span())),
            syn::Item::Fn(m) => (&m.attrs, rng(m.span())),
            syn::Item::Impl(m) => (&m.attrs, rng(m.span())),
            syn::Item::Use(m) => (&m.attrs, rng(m.span())),
            _ => continue,
        };
        if crate::is_test(attrs) {
            cut.push(r);
        }
    }
    let ts: TokenStream = text.parse().unwrap_or_default();
    let mut v = vec![];
    flat(ts, &mut v);
    v.retain(|t| text.get(t.start..t.end) == Some(&t.s[..]) && !cut.iter().any(|c| c.0 <= t.start && t.end <= c.1));
    v
}

struct Decl {
    /// module and enclosing item
    place: String,
    name: String,
    shape: String,
    /// fields, variants or parameters in order
    parts: Vec<(String, String)>,
    file: usize,
    span: (usize, usize),
}

fn decls(ix: &Index) -> (Vec<Decl>, Vec<Decl>, Vec<Decl>) {
    let mut fns = vec![];
    for f in &ix.fns {
        let place = format!("{}::{}", f.module, f.tail.rsplit_once("::").map_or("", |x| x.0));
        let text = &ix.files[f.file].text;
        let types = f.ptexts.iter().map(|p| norm(&p.1, "")).collect::<Vec<_>>().join(", ");
        let ret = f.ret.map(|r| norm(&text[r.1..r.2], "")).unwrap_or_default();
        fns.push(Decl {
            place,
            name: f.name.clone(),
            shape: format!("{:?} {} ({types}) -> {ret}", f.kind, f.recv),
            parts: f.params.iter().map(|p| (p.0.clone(), String::new())).collect(),
            file: f.file,
            span: (f.sig.0, f.body.map_or(f.sig.1, |b| b.1)),
        });
    }
    let mut types = vec![];
    let mut statics = vec![];
    for t in &ix.types {
        let (module, _) = t.path.rsplit_once("::").unwrap_or(("", &t.path));
        let mut parts = vec![];
        let mut shape = String::new();
        if let Ok(it) = syn::parse_str::<syn::Item>(&t.text) {
            let field = |f: &syn::Field, pre: &str, parts: &mut Vec<(String, String)>| {
                let r = rng(f.ty.span());
                let ty = norm(t.text.get(r.0..r.1).unwrap_or(""), &t.name);
                parts.push((f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), format!("{pre}{ty}")));
            };
            match &it {
                syn::Item::Struct(s) => {
                    shape = "struct".into();
                    for f in &s.fields {
                        field(f, "", &mut parts);
                    }
                }
                syn::Item::Enum(e) => {
                    shape = "enum".into();
                    for v in &e.variants {
                        parts.push((v.ident.to_string(), "variant".into()));
                        for f in &v.fields {
                            field(f, "in variant ", &mut parts);
                        }
                    }
                }
                _ => {}
            }
        }
        types.push(Decl { place: module.into(), name: t.name.clone(), shape, parts, file: t.file, span: (0, 0) });
    }
    for (k, f) in ix.files.iter().enumerate() {
        let v = tokens(&f.text);
        for w in v.windows(3) {
            if w[0].s == "static" && w[1].s == "ref" {
                statics.push(Decl { place: String::new(), name: w[2].s.clone(), shape: "static".into(), parts: vec![], file: k, span: (0, 0) });
            }
        }
    }
    (fns, types, statics)
}

/// what is recorded of the tree the contracts were written for
pub fn record(ix: &Index) -> Value {
    let (fns, types, statics) = decls(ix);
    let j = |v: &[Decl]| v.iter().map(|d| json!({"place": d.place, "name": d.name, "shape": d.shape, "parts": d.parts})).collect::<Vec<_>>();
    json!({"fns": j(&fns), "types": j(&types), "statics": j(&statics)})
}

fn known(v: &Value) -> Vec<(String, String, String, Vec<(String, String)>)> {
    let s = |x: &Value| x.as_str().unwrap_or("").to_string();
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|d| {
                    let parts = d["parts"].as_array().map(|p| p.iter().map(|x| (s(&x[0]), s(&x[1]))).collect()).unwrap_or_default();
                    (s(&d["place"]), s(&d["name"]), s(&d["shape"]), parts)
                })
                .collect()
        })
        .unwrap_or_default()
}

fn rename(text: &str, toks: &[Tok], from: &str, to: &str) -> String {
    let mut out = text.to_string();
    for t in toks.iter().rev().filter(|t| t.s == from) {
        out.replace_range(t.start..t.end, to);
    }
    out
}

/// one renaming that brings the source nearer to what is recorded: the texts of the files, and what was done
fn step(ix: &Index, base: &Value) -> Option<(BTreeMap<String, String>, String)> {
    let (fns, types, statics) = decls(ix);
    // everywhere
    let all = |new: &str, old: &str| -> Option<BTreeMap<String, String>> {
        if new.is_empty() || old.is_empty() || new == old || new.starts_with("vx_") {
            return None;
        }
        let mut m = BTreeMap::new();
        for f in &ix.files {
            let v = tokens(&f.text);
            if v.iter().any(|t| t.s == new) {
                // a module's name is also a file's, and may stand for one of another crate
                if v.iter().any(|t| t.s == old) || v.windows(2).any(|w| w[0].s == "mod" && w[1].s == new) {
                    return None;
                }
                m.insert(f.path.clone(), rename(&f.text, &v, new, old));
            }
        }
        if m.is_empty() { None } else { Some(m) }
    };
    for (kind, here, key) in [("type", &types, "types"), ("static", &statics, "statics"), ("function", &fns, "fns")] {
        let b = known(&base[key]);
        for (place, name, shape, parts) in &b {
            if here.iter().any(|d| d.place == *place && d.name == *name) {
                continue;
            }
            let kinds = |p: &[(String, String)]| p.iter().map(|x| x.1.clone()).collect::<Vec<_>>();
            let c: Vec<&Decl> = here
                .iter()
                .filter(|d| d.place == *place && d.shape == *shape && kinds(&d.parts) == kinds(parts))
                .filter(|d| !b.iter().any(|x| x.0 == d.place && x.1 == d.name))
                .collect();
            if c.len() == 1 {
                if let Some(m) = all(&c[0].name, name) {
                    return Some((m, format!("{kind} {} stands as {name}", c[0].name)));
                }
            }
        }
    }
    // fields and variants
    for (place, name, _, parts) in &known(&base["types"]) {
        let Some(d) = types.iter().find(|d| d.place == *place && d.name == *name) else { continue };
        if d.parts.len() != parts.len() || d.parts.iter().zip(parts).any(|(a, b)| a.1 != b.1) {
            continue;
        }
        let old: BTreeSet<&String> = parts.iter().map(|p| &p.0).collect();
        for (a, b) in d.parts.iter().zip(parts) {
            if a.0 != b.0 && !old.contains(&a.0) {
                if let Some(m) = all(&a.0, &b.0) {
                    return Some((m, format!("{} of {name} stands as {}", a.0, b.0)));
                }
            }
        }
    }
    // parameters
    for (place, name, _, parts) in &known(&base["fns"]) {
        let v: Vec<&Decl> = fns.iter().filter(|d| d.place == *place && d.name == *name).collect();
        if v.len() != 1 || v[0].parts.len() != parts.len() {
            continue;
        }
        let d = v[0];
        let text = &ix.files[d.file].text;
        let inside: Vec<Tok> = tokens(text).into_iter().filter(|t| d.span.0 <= t.start && t.end <= d.span.1).collect();
        for (a, b) in d.parts.iter().zip(parts) {
            if a.0 == b.0 || a.0.is_empty() || b.0.is_empty() || a.0.starts_with("vx_") || b.0.starts_with("vx_") || a.0.starts_with('_') || b.0.starts_with('_') {
                continue;
            }
            if inside.iter().any(|t| t.s == b.0) {
                continue;
            }
            // only where every occurrence is plainly the variable
            let plain = inside.iter().enumerate().filter(|(_, t)| t.s == a.0).all(|(k, _)| {
                let p = if k > 0 { &inside[k - 1].s[..] } else { "" };
                let n = inside.get(k + 1).map_or("", |t| &t.s[..]);
                let pp = if k > 1 { &inside[k - 2].s[..] } else { "" };
                let first = inside[k].start < d.span.1 && inside[..k].iter().all(|t| t.s != a.0);
                let field = p == "." && pp != ".";
                !field && !(p == ":" && pp == ":") && n != "!" && (first || n != ":") && !(matches!(p, "{" | ",") && matches!(n, "}" | ",") && (p == "{" || n == "}"))
            });
            if plain {
                let mut m = BTreeMap::new();
                m.insert(ix.files[d.file].path.clone(), rename(text, &inside, &a.0, &b.0));
                return Some((m, format!("parameter {} of {name} stands as {}", a.0, b.0)));
            }
        }
    }
    None
}

/// a constant that is a literal: its uses in the same file are replaced by the literal
fn constant(ix: &Index) -> Option<(BTreeMap<String, String>, String)> {
    for f in &ix.files {
        let Ok(parsed) = syn::parse_file(&f.text) else { continue };
        for it in &parsed.items {
            let (attrs, name, value, span) = match it {
                syn::Item::Const(c) => (&c.attrs, c.ident.to_string(), &*c.expr, rng(c.span())),
                syn::Item::Static(c) if matches!(c.mutability, syn::StaticMutability::None) => (&c.attrs, c.ident.to_string(), &*c.expr, rng(c.span())),
                _ => continue,
            };
            let syn::Expr::Lit(l) = value else { continue };
            if crate::is_test(attrs) || !matches!(l.lit, syn::Lit::Str(_) | syn::Lit::Char(_)) || name == "_" {
                continue;
            }
            let r = rng(l.span());
            let lit = f.text[r.0..r.1].to_string();
            let v = tokens(&f.text);
            let mut text = f.text.clone();
            let mut uses = 0;
            for (k, t) in v.iter().enumerate().rev() {
                if t.s != name || (span.0 <= t.start && t.end <= span.1) {
                    continue;
                }
                let p = if k > 0 { &v[k - 1].s[..] } else { "" };
                if matches!(p, ":" | "::" | "." | "'" | "let" | "fn" | "mut" | "ref") || matches!(v.get(k + 1).map(|t| &t.s[..]), Some(":" | "::" | "!" | "(")) {
                    continue;
                }
                text.replace_range(t.start..t.end, &lit);
                uses += 1;
            }
            if uses > 0 && syn::parse_file(&text).is_ok() {
                let mut m = BTreeMap::new();
                m.insert(f.path.clone(), text);
                return Some((m, format!("constant {name} stands as {lit}")));
            }
        }
    }
    None
}

pub fn restore(mut ix: Index, src: &std::path::Path, base: &Value) -> (Index, Vec<String>) {
    let mut log = vec![];
    let mut texts: BTreeMap<String, String> = BTreeMap::new();
    for _ in 0..60 {
        let Some((m, what)) = step(&ix, base).or_else(|| constant(&ix)) else { break };
        log.push(what);
        texts.extend(m);
        ix = Index::load_with(src, texts.clone());
    }
    (ix, log)
}
