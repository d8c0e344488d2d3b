//! An independent reference for strict HTML, written from the properties, over vectors of characters.
use std::collections::{BTreeMap, HashMap};

use soupy::parser::HTMLNode;

pub type N = HTMLNode<String>;

const VOID: &[&str] = &["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"];
const RAW: &[&str] = &["script", "style"];

fn ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}
fn name_char(c: char) -> bool {
    !matches!(c, '\t' | '\n' | '\x0c' | '\r' | ' ' | '"' | '\'' | '>' | '/' | '=')
}
fn value_char(c: char) -> bool {
    !matches!(c, '\t' | '\n' | '\x0c' | '\r' | ' ' | '"' | '\'' | '=' | '<' | '>' | '`')
}
fn skip(s: &[char], mut i: usize) -> usize {
    while i < s.len() && ws(s[i]) {
        i += 1;
    }
    i
}
fn run(s: &[char], i: usize, f: fn(char) -> bool) -> usize {
    s[i..].iter().take_while(|c| f(**c)).count() + i
}
fn at(s: &[char], i: usize, t: &str, fold: bool) -> Option<usize> {
    let mut k = i;
    for c in t.chars() {
        let d = *s.get(k)?;
        if !(c == d || fold && c.eq_ignore_ascii_case(&d)) {
            return None;
        }
        k += 1;
    }
    Some(k)
}
fn find(s: &[char], i: usize, t: &str) -> Option<(usize, usize)> {
    (i..=s.len()).find_map(|k| at(s, k, t, false).map(|e| (k, e)))
}
fn text(s: &[char]) -> String {
    s.iter().collect()
}
fn end_tag(s: &[char], i: usize, name: &str) -> Option<usize> {
    let i = at(s, i, "</", false)?;
    let i = at(s, i, name, true)?;
    at(s, skip(s, i), ">", false)
}

struct Start {
    name: String,
    attrs: BTreeMap<String, String>,
    closed: bool,
    end: usize,
}

fn start_tag(s: &[char], i: usize) -> Option<Start> {
    let a = at(s, i, "<", false)?;
    let b = run(s, a, |c| c.is_ascii_alphanumeric());
    if a == b || s.get(b).is_some_and(|c| name_char(*c)) {
        return None;
    }
    let mut attrs = BTreeMap::new();
    let mut i = b;
    loop {
        let k = skip(s, i);
        if let Some(end) = at(s, k, "/>", false) {
            return Some(Start { name: text(&s[a..b]), attrs, closed: true, end });
        }
        if let Some(end) = at(s, k, ">", false) {
            return Some(Start { name: text(&s[a..b]), attrs, closed: false, end });
        }
        let e = run(s, k, name_char);
        if e == k {
            return None;
        }
        let key = text(&s[k..e]);
        let q = skip(s, e);
        if s.get(q) == Some(&'=') {
            let v = skip(s, q + 1);
            match s.get(v) {
                Some(c @ ('"' | '\'')) => {
                    let (x, y) = find(s, v + 1, &c.to_string())?;
                    attrs.insert(key, text(&s[v + 1..x]));
                    i = y;
                }
                _ => {
                    let x = run(s, v, value_char);
                    if x == v {
                        return None;
                    }
                    attrs.insert(key, text(&s[v..x]));
                    i = x;
                }
            }
        } else {
            attrs.insert(key, String::new());
            i = e;
        }
    }
}

fn node(s: &[char], i: usize) -> Option<(N, usize)> {
    if *s.get(i)? != '<' {
        let e = run(s, i, |c| c != '<');
        return Some((N::Text(text(&s[i..e])), e));
    }
    if let Some(b) = at(s, i, "<!--", false) {
        let (x, y) = find(s, b, "-->")?;
        return Some((N::Comment(text(&s[b..x])), y));
    }
    if let Some(b) = at(s, i, "<!doctype ", true) {
        let (x, y) = find(s, b, ">")?;
        return Some((N::Doctype(text(&s[b..x])), y));
    }
    let t = start_tag(s, i)?;
    let low = t.name.to_ascii_lowercase();
    if VOID.contains(&low.as_str()) {
        return Some((N::Void { name: t.name, attrs: t.attrs }, t.end));
    }
    if RAW.contains(&low.as_str()) {
        if t.closed {
            return Some((N::RawElement { name: t.name, attrs: t.attrs, content: String::new() }, t.end));
        }
        let (x, y) = (t.end..s.len()).find_map(|k| end_tag(s, k, &low).map(|e| (k, e)))?;
        let content = text(&s[t.end..x]).trim().to_string();
        return Some((N::RawElement { name: t.name, attrs: t.attrs, content }, y));
    }
    if t.closed {
        return Some((N::Element { name: t.name, attrs: t.attrs, children: vec![] }, t.end));
    }
    let (children, e) = nodes(s, t.end);
    let e = end_tag(s, e, &low)?;
    Some((N::Element { name: t.name, attrs: t.attrs, children }, e))
}

fn nodes(s: &[char], mut i: usize) -> (Vec<N>, usize) {
    let mut v = vec![];
    while let Some((n, e)) = node(s, i) {
        v.push(n);
        i = e;
    }
    (v, i)
}

/// the document before references are decoded; None for malformed input
pub fn parse(t: &str) -> Option<Vec<N>> {
    let s: Vec<char> = t.chars().collect();
    let (v, e) = nodes(&s, 0);
    (e == s.len()).then_some(v)
}

pub const ENTITIES: &[(&str, &str)] = include!("entities.inc");

pub struct Refs {
    full: HashMap<&'static str, &'static str>,
    legacy: HashMap<&'static str, &'static str>,
}
impl Refs {
    pub fn new() -> Self {
        let mut full = HashMap::new();
        let mut legacy = HashMap::new();
        for (k, v) in ENTITIES {
            if let Some(n) = k.strip_suffix(';') {
                full.insert(n, *v);
            } else {
                legacy.insert(*k, *v);
            }
        }
        Refs { full, legacy }
    }

    pub fn decode(&self, t: &str) -> String {
        let s: Vec<char> = t.chars().collect();
        let mut out = String::new();
        let mut i = 0;
        while i < s.len() {
            if s[i] == '&' {
                if let Some((v, e)) = self.reference(&s, i + 1) {
                    out += &v;
                    i = e;
                    continue;
                }
            }
            out.push(s[i]);
            i += 1;
        }
        out
    }

    fn reference(&self, s: &[char], i: usize) -> Option<(String, usize)> {
        if s.get(i) == Some(&'#') {
            let (from, radix) = if matches!(s.get(i + 1), Some('x' | 'X')) { (i + 2, 16) } else { (i + 1, 10) };
            let e = s[from.min(s.len())..].iter().take_while(|c| c.is_digit(radix)).count() + from;
            if e == from || s.get(e) != Some(&';') {
                return None;
            }
            let mut v: u64 = 0;
            for c in &s[from..e] {
                v = (v * u64::from(radix) + u64::from(c.to_digit(radix).unwrap())).min(1 << 40);
            }
            return Some((char::from_u32(u32::try_from(v).ok()?)?.to_string(), e + 1));
        }
        let e = s[i..].iter().take_while(|c| c.is_ascii_alphanumeric()).count() + i;
        if s.get(e) == Some(&';') {
            if let Some(v) = self.full.get(text(&s[i..e]).as_str()) {
                return Some(((*v).into(), e + 1));
            }
        }
        // without semicolon: a whole run of letters, or a name that ends in a digit
        let l = s[i..].iter().take_while(|c| c.is_ascii_alphabetic()).count() + i;
        if let Some(v) = self.legacy.get(text(&s[i..l]).as_str()) {
            return Some(((*v).into(), l));
        }
        for k in (i..=e).rev() {
            let n = text(&s[i..k]);
            if n.ends_with(|c: char| c.is_ascii_digit()) {
                if let Some(v) = self.legacy.get(n.as_str()) {
                    return Some(((*v).into(), k));
                }
            }
        }
        None
    }

    pub fn decode_node(&self, n: &N) -> N {
        let m = |a: &BTreeMap<String, String>| a.iter().map(|(k, v)| (k.clone(), self.decode(v))).collect();
        match n {
            N::Text(t) => N::Text(self.decode(t)),
            N::Void { name, attrs } => N::Void { name: name.clone(), attrs: m(attrs) },
            N::RawElement { name, attrs, content } => N::RawElement { name: name.clone(), attrs: m(attrs), content: content.clone() },
            N::Element { name, attrs, children } => N::Element {
                name: name.clone(),
                attrs: m(attrs),
                children: children.iter().map(|c| self.decode_node(c)).collect(),
            },
            o => o.clone(),
        }
    }
}
