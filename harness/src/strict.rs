//! C14-C18: the strict HTML parser against the reference
use std::{
    borrow::Cow,
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
};

use soupy::{parser::HTMLNode, prelude::*};

use crate::{
    cx::{Cx, Rng},
    strictref::{self, Refs, N},
};

fn owned(n: &HTMLNode<Cow<'_, str>>) -> N {
    let m = |a: &BTreeMap<Cow<str>, Cow<str>>| a.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    match n {
        HTMLNode::Comment(s) => N::Comment(s.to_string()),
        HTMLNode::Doctype(s) => N::Doctype(s.to_string()),
        HTMLNode::Text(s) => N::Text(s.to_string()),
        HTMLNode::Void { name, attrs } => N::Void { name: name.to_string(), attrs: m(attrs) },
        HTMLNode::RawElement { name, attrs, content } => N::RawElement { name: name.to_string(), attrs: m(attrs), content: content.to_string() },
        HTMLNode::Element { name, attrs, children } => N::Element { name: name.to_string(), attrs: m(attrs), children: children.iter().map(owned).collect() },
    }
}

fn parse(t: &str) -> Result<Vec<N>, String> {
    match Soup::html_strict(t) {
        Ok(s) => Ok(s.strict().all().map(|i| owned(&i)).collect()),
        Err(e) => Err(e.to_string()),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Aspect {
    Status,
    Structure,
    Attrs,
    Content,
    /// everything but white space around raw content
    Account,
    All,
}

/// what an aspect keeps of a node
fn view(n: &N, a: Aspect) -> N {
    let t = |s: &String, keep: bool| if keep { s.clone() } else { String::new() };
    let (names, attrs, content) = match a {
        Aspect::Status => (false, false, false),
        Aspect::Structure => (true, false, false),
        Aspect::Attrs => (true, true, false),
        Aspect::Content => (true, false, true),
        Aspect::Account | Aspect::All => (true, true, true),
    };
    let m = |x: &BTreeMap<String, String>| if attrs { x.clone() } else { BTreeMap::new() };
    match n {
        N::Comment(s) => N::Comment(t(s, content)),
        N::Doctype(s) => N::Doctype(t(s, content)),
        N::Text(s) => N::Text(t(s, content)),
        N::Void { name, attrs } => N::Void { name: t(name, names), attrs: m(attrs) },
        N::RawElement { name, attrs, content: c } => N::RawElement { name: t(name, names), attrs: m(attrs), content: if a == Aspect::Account { c.trim().into() } else { t(c, content) } },
        N::Element { name, attrs, children } => N::Element {
            name: t(name, names),
            attrs: m(attrs),
            children: children.iter().map(|c| view(c, a)).collect(),
        },
    }
}

fn check(doc: &str, refs: &Refs, a: Aspect) -> Result<(), String> {
    let want = strictref::parse(doc).map(|v| v.iter().map(|n| refs.decode_node(n)).collect::<Vec<_>>());
    match (parse(doc), want) {
        (Ok(g), Some(w)) => {
            // accounting for the whole text: without references to decode, nothing written may be missing
            let a = if a == Aspect::Status && !doc.contains('&') { Aspect::Account } else { a };
            let f = |v: &[N]| v.iter().map(|n| view(n, a)).collect::<Vec<_>>();
            if f(&g) == f(&w) { Ok(()) } else { Err(format!("got {g:?}, expected {w:?}")) }
        }
        (Ok(g), None) if matches!(a, Aspect::Status | Aspect::Structure) => Err(format!("got {g:?}, expected an error")),
        (Err(e), Some(w)) if a != Aspect::Status => Err(format!("got the error {e}, expected {w:?}")),
        _ => Ok(()),
    }
}

/// one case; a failing text is made as short as deleting pieces of it allows
fn text_case(c: &mut Cx, nontrivial: bool, doc: &str, refs: &Refs, a: Aspect) -> bool {
    if c.case(nontrivial, || doc.to_string(), || check(doc, refs, a)) {
        return true;
    }
    let fails = |d: &str| match catch_unwind(AssertUnwindSafe(|| check(d, refs, a))) {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(_) => Some("panicked".to_string()),
    };
    let mut best: Vec<char> = doc.chars().collect();
    let mut why = None;
    let mut size = best.len() / 2;
    while size > 0 {
        let mut i = 0;
        while i + size <= best.len() {
            let d: String = best[..i].iter().chain(&best[i + size..]).collect();
            if let Some(e) = fails(&d) {
                best.drain(i..i + size);
                why = Some(e);
            } else {
                i += 1;
            }
        }
        size /= 2;
    }
    if let (Some(e), Some((_, first))) = (why, c.failure().cloned()) {
        let e = if e == "panicked" { first } else { e };
        c.replace_failure(best.iter().collect(), e);
    }
    false
}

const VOID: &[&str] = &["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"];
const NAMES: &[&str] = &[
    "a", "b", "p", "i", "div", "h1", "h2", "h", "ab", "bdo", "brx", "basefont", "colgroup", "table", "hrx", "imgs", "inputs", "linkx", "metadata", "sources", "tracks", "wbrs", "areas", "embeds", "scripts",
    "style1", "scriptstyle", "s", "st", "1", "a1", "9b", "html", "body",
];

fn case_mix(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_uppercase(),
        1 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.into(),
    }
}
fn space(r: &mut Rng, least: usize) -> String {
    (0..least + r.below(3)).map(|_| *r.pick(&[' ', ' ', '\t', '\n', '\r'])).collect()
}

/// what a generator stresses
#[derive(Clone, Copy)]
struct Mix {
    attrs: usize,
    content: usize,
}

fn attr(r: &mut Rng, out: &mut String, rich: bool) {
    let name = if rich {
        let n = 1 + r.below(4);
        (0..n).map(|_| *r.pick(&["a", "b", "B", "-", ":", "_", "1", "@", "é", "<", "`", "&", "\u{a0}", "\u{b}", "x", "[", "(", ".", "\\", "n", "t", "r", "f"])).collect::<String>()
    } else {
        (*r.pick(&["id", "class", "x"])).to_string()
    };
    *out += &name;
    if r.chance(1, 5) {
        return;
    }
    if rich {
        *out += &space(r, 0);
    }
    *out += "=";
    if rich {
        *out += &space(r, 0);
    }
    let parts: &[&str] = if rich {
        &["a", "n", "t", "f", "r", "\\", "1", "/", "é", "-", "#", "?", "&", ";", "😀", ".", "\u{a0}", "\u{b}", "n", "N", "(", "!", "]"]
    } else {
        &["v", "w"]
    };
    let v: String = (0..1 + r.below(5)).map(|_| *r.pick(parts)).collect();
    match r.below(3) {
        0 => *out += &v,
        k => {
            let (q, other) = if k == 1 { ('"', "'") } else { ('\'', "\"") };
            let mut v = if r.chance(1, 6) { String::new() } else { v };
            if rich {
                for _ in 0..r.below(3) {
                    v += r.pick(&[other, ">", "<", " ", "=", "\n", "/>", "`", "</a>", "\t"]);
                    v += r.pick(parts);
                }
            }
            out.push(q);
            *out += &v;
            out.push(q);
        }
    }
}

fn start(r: &mut Rng, out: &mut String, name: &str, m: Mix) {
    *out += "<";
    *out += name;
    for _ in 0..r.below(m.attrs + 1) {
        *out += &space(r, 1);
        attr(r, out, m.attrs > 1);
    }
    *out += &space(r, 0);
}

fn gen(r: &mut Rng, depth: usize, m: Mix, out: &mut String) {
    match r.below(if depth == 0 { 7 } else { 13 }) {
        0 => {
            let n = case_mix(r, *r.clone().pick(VOID));
            start(r, out, &n, m);
            // an unquoted value would swallow the slash
            *out += r.pick(&[">", " />", ">"]);
        }
        1 | 2 => {
            let t = if m.content > 0 {
                (0..1 + r.below(5)).map(|_| *r.pick(&["x", " ", "\n", ">", "\"", "é😀", "&", "-->", "=", "/", "a b", "]]>", "'"])).collect::<String>()
            } else {
                "t".into()
            };
            *out += &t;
        }
        3 => {
            *out += "<!--";
            if m.content > 0 {
                for _ in 0..r.below(4) {
                    *out += r.pick(&["c", "-", "--", ">", "<b>", "</b>", "<!--", "&amp;", "é", "\n", "--!", "\"", "--", "&#65;"]);
                }
            }
            *out += "-->";
        }
        4 => {
            *out += &case_mix(r, "<!doctype");
            *out += " ";
            if m.content > 0 {
                for _ in 0..r.below(4) {
                    *out += r.pick(&["html", " ", "<", "\"", "&amp;", "é", "\n", "--"]);
                }
            } else {
                *out += "html";
            }
            *out += ">";
        }
        5 | 6 => {
            let low = *r.pick(&["script", "style"]);
            let n = case_mix(r, low);
            start(r, out, &n, m);
            if r.chance(1, 6) {
                *out += " />";
                return;
            }
            *out += ">";
            if m.content > 0 {
                for _ in 0..r.below(6) {
                    *out += r.pick(&[
                        "x", " ", "\n", "<", ">", "</", "</b>", "</scrip>", "</sty", "</scripts>", "</script x>", "</style/>", "</styles>", "</ script>", "<script>", "<!--", "-->", "&amp;", "&#65;", "é😀", "\"", "'",
                        "</scr\u{131}pt>", "\u{a0}", "\u{3000}", "<style>", "</SCRIPTX>", "</s", "\u{212a}",
                    ]);
                }
                if r.chance(1, 4) {
                    *out += if low == "script" { "</style>" } else { "</script>" };
                }
            } else {
                *out += "r";
            }
            *out += "</";
            *out += &case_mix(r, low);
            *out += &space(r, 0);
            *out += ">";
        }
        _ => {
            let low = *r.pick(NAMES);
            let n = case_mix(r, low);
            start(r, out, &n, m);
            if r.chance(1, 6) {
                *out += " />";
                return;
            }
            *out += ">";
            for _ in 0..r.below(4) {
                gen(r, depth - 1, m, out);
            }
            *out += "</";
            *out += &case_mix(r, low);
            *out += &space(r, 0);
            *out += ">";
        }
    }
}

fn document(r: &mut Rng, m: Mix) -> String {
    let mut d = String::new();
    for _ in 0..1 + r.below(4) {
        gen(r, 4, m, &mut d);
    }
    d
}

fn damage(r: &mut Rng, d: &str) -> String {
    let mut s: Vec<char> = d.chars().collect();
    for _ in 0..1 + r.below(2) {
        if s.is_empty() {
            break;
        }
        let i = r.below(s.len());
        match r.below(5) {
            0 => s.truncate(i),
            1 => {
                s.remove(i);
            }
            2 => {
                s.splice(i..i, r.pick(&["<", ">", "/", "\"", "'", "=", " ", "</a>", "<b>", "-", "x", "\u{212a}", "\u{130}"]).chars());
            }
            3 => {
                let j = (i + 1 + r.below(6)).min(s.len());
                s.drain(i..j);
            }
            _ => {
                let j = r.below(s.len());
                s.swap(i, j);
            }
        }
    }
    s.into_iter().collect()
}

fn sequences(c: &mut Cx, refs: &Refs, parts: &[&str], len: usize, a: Aspect) -> bool {
    for n in 1..=len {
        let mut ix = vec![0usize; n];
        loop {
            let d: String = ix.iter().map(|i| parts[*i]).collect();
            if !text_case(c, n > 1, &d, refs, a) {
                return false;
            }
            let mut k = n;
            while k > 0 {
                ix[k - 1] += 1;
                if ix[k - 1] < parts.len() {
                    break;
                }
                ix[k - 1] = 0;
                k -= 1;
            }
            if k == 0 {
                break;
            }
        }
    }
    c.exhaustive.push(format!("all sequences of at most {len} of the {} pieces {parts:?}", parts.len()));
    true
}

const SMALL: &[&str] = &["<", "</", ">", "/>", "a", "B", "br", "script", " ", "<!--", "-->", "<!doctype ", "=", "\"", "'", "\u{212a}", "é", "-"];
const LARGE: &[&str] = &[
    "<a>", "</a>", "<A ", "</A >", "<b>", "</b>", "<br>", "<br/>", "</br>", "<script>", "</script>", "</Script >", "<style>", "</style>", "x", "<!--", "-->", "x=1", "y='", "'>", ">", "/>", "<lin\u{212a}>", "<ab>", "</ab>", "<!DOCTYPE h>",
];

fn random_docs(c: &mut Cx, refs: &Refs, n: usize, m: Mix, a: Aspect, damaged: usize) -> bool {
    for _ in 0..n {
        let mut r = c.rng.clone();
        let mut d = document(&mut r, m);
        if r.chance(damaged, 4) {
            d = damage(&mut r, &d);
        }
        c.rng = r;
        if !text_case(c, true, &d, refs, a) {
            return false;
        }
    }
    true
}

/// documents larger than a fixed size or a narrow counter allows for
fn large(c: &mut Cx, refs: &Refs, a: Aspect) -> bool {
    let nest = |n: usize, name: &str| format!("{}x{}", format!("<{name}>").repeat(n), format!("</{name}>").repeat(n));
    let attrs: String = (0..300).map(|i| format!(" a{}={}", i % 270, i)).collect();
    let quoted: String = (0..300).map(|i| format!(" a{}=\"{} '&amp;>\"", i % 270, i)).collect();
    let docs = [
        ("300 siblings", "<b>x</b>y<br><!--c-->".repeat(300)),
        ("70000 siblings", "<b>x</b><br>".repeat(35_000)),
        ("150 levels", nest(150, "a")),
        ("300 attributes", format!("<p{attrs}>x</p><br{attrs}><script{attrs} ></script>")),
        ("300 quoted attributes", format!("<p{quoted}>x</p><br{quoted}><style{quoted}></style>")),
        ("a long text", "x &amp; y\n".repeat(9000)),
        ("a long text after an unknown reference", format!("&nope;{}&lt;{}", "x".repeat(70_000), "y".repeat(70_000))),
        ("long texts with late references", format!("<p>{0}&lt;{0}&#65;x</p>{0}&amp;<br a='{0}&gt;' b={0}&lt;>", "x ".repeat(35_000).trim_end().replace(' ', "y"))),
        ("a very long text with late references", format!("{0}&amp;{0}&eacute;&", "0123456789 é\n".repeat(25_000))),
        ("many texts with references", "<b>x&lt;</b>y&amp;<br a='&gt;'>&".repeat(3000)),
        ("a long text without references", "0123456789 é\n".repeat(25_000)),
        ("long contents with tags", format!("<script>{0}&amp;</b></script><style> {0}<b></style><!--{0}&amp;<b>--><!doctype {0}&amp;>", "0123456789 é\n".repeat(6000))),
        ("many raw elements", "<script>a</b>&amp; </script><style/><style>b<b></style>".repeat(3000)),
        ("long names in several cases", { let n = "nameName".repeat(40); format!("<{0} {0}=1 {1}=2 {2}=3 {0}x=4>x<{2}s></{1}S></{1} >", n, n.to_uppercase(), n.to_lowercase()) }),
        ("a long comment", format!("<!--{}-->x", "- -- > <b> ".repeat(7000))),
        ("a long doctype", format!("<!DOCTYPE {}>x", "html \"".repeat(12_000))),
        ("a long script", format!("<script>{}</script>x", "if (a < b) { c('</b>'); }\n".repeat(3000))),
        ("a long value", format!("<p a={} b='{}' c=\"{}\"></p>", "v".repeat(70_000), "w ".repeat(35_000), "&lt;".repeat(20_000))),
        ("a long name", format!("<{0} {0}=1>x</{0}>", "n".repeat(70_000))),
        ("much white space", format!("<p{0}a{0}={0}b{0}>x</p{0}>", " \n\t\r".repeat(20_000))),
        ("white space in raw content", format!("<style>{0}x{0}</style>", " \n\t\r".repeat(20_000))),
        ("a long number", format!("&#{0}65;&#x{0}41;x", "0".repeat(70_000))),
    ];
    for (what, d) in docs {
        if !c.case(true, || what.to_string(), || check(&d, refs, a).map_err(|e| e.chars().take(300).collect())) {
            return false;
        }
    }
    true
}

/// each element, attribute, value and text in use, in each place, where the aspect can depend on it
fn in_use(c: &mut Cx, refs: &Refs, a: Aspect) -> bool {
    let v = crate::names::corpus();
    for d in &v {
        if !text_case(c, true, d, refs, a) {
            return false;
        }
    }
    c.exhaustive.push(format!("{} documents with the names, values and texts HTML documents use, one or two at a time in each place", v.len()));
    true
}

pub fn c14(c: &mut Cx) {
    c.rule = "all short sequences of markup pieces, random documents and damaged ones (cut, with characters deleted, inserted, swapped): no panic, and a document only where the reference accepts the text, with the same kinds of nodes; non-trivial: more than one piece".into();
    let refs = Refs::new();
    let n = c.n(4, 5);
    if !sequences(c, &refs, SMALL, n, Aspect::Status) || !sequences(c, &refs, LARGE, 4, Aspect::Status) {
        return;
    }
    let n = c.n(60_000, 1_000_000);
    if !random_docs(c, &refs, n, Mix { attrs: 2, content: 1 }, Aspect::Status, 3) {
        return;
    }
    if !large(c, &refs, Aspect::Status) || !in_use(c, &refs, Aspect::Status) {
        return;
    }
    // characters of every encoded length at every place of every keyword
    for k in ["<!doctype html>", "<script>x</script>", "<style></style>", "<link>", "<input a=b>", "<br>", "<img/>", "<p>x</p>", "<!--x-->", "<a b='c'></a>"] {
        for (i, _) in k.char_indices() {
            for ch in ["é", "\u{212a}", "\u{130}", "\u{17f}", "😀", "\u{0}"] {
                for d in [format!("{}{ch}{}", &k[..i], &k[i..]), format!("{}{ch}{}", &k[..i], &k[i + 1..])] {
                    if !text_case(c, true, &d, &refs, Aspect::Status) {
                        return;
                    }
                }
            }
        }
    }
}

pub fn c15(c: &mut Cx) {
    c.rule = "all short sequences of markup pieces; random documents, nested at most 5 deep, with names that begin with others, in mixed case, self-closed, with space in end tags, and damaged ones; every pair of names of void and other elements; structure and names compared with the reference; non-trivial: more than one piece".into();
    let refs = Refs::new();
    if !sequences(c, &refs, LARGE, 4, Aspect::Structure) {
        return;
    }
    let mut names: Vec<String> = NAMES.iter().map(|s| (*s).to_string()).collect();
    for v in VOID.iter().chain(&["script", "style"]) {
        names.push((*v).into());
        names.push(v.to_uppercase());
        names.push(format!("{v}s"));
        names.push(v[..v.len() - 1].into());
        names.push(format!("x{v}"));
        names.push(v.replace('k', "\u{212a}").replace('s', "\u{17f}"));
    }
    for a in &names {
        for d in [format!("<{a}>"), format!("<{a}/>"), format!("<{a}></{a}>"), format!("<{a} x=1>t</{a} >"), format!("<{a}><b></b></{a}>"), format!("<p><{a}></p>"), format!("<p><{a} />t</p>")] {
            if !text_case(c, true, &d, &refs, Aspect::Structure) {
                return;
            }
        }
        for b in &names {
            let d = format!("<{a}>t</{b}>");
            if !text_case(c, true, &d, &refs, Aspect::Structure) {
                return;
            }
        }
    }
    c.exhaustive.push(format!("all pairs of {} names as start and end tag", names.len()));
    let n = c.n(60_000, 1_000_000);
    if !random_docs(c, &refs, n, Mix { attrs: 1, content: 0 }, Aspect::Structure, 1) {
        return;
    }
    if !large(c, &refs, Aspect::Structure) || !in_use(c, &refs, Aspect::Structure) {
        return;
    }
    let mut d = String::new();
    for i in 0..200 {
        d += &format!("<a{i}>x<br>");
    }
    for i in (0..200).rev() {
        d += &format!("</A{i}>");
    }
    text_case(c, true, &d, &refs, Aspect::Structure);
}

pub fn c16(c: &mut Cx) {
    c.rule = "all sequences of at most 6 (thorough: 7) pieces inside a start tag; random start tags of every kind of element with all forms of attributes, white space, duplicates and special characters; names and values compared with the reference; non-trivial: more than one piece".into();
    let refs = Refs::new();
    const P: &[&str] = &["a", "b", "=", " ", "\n", "\"", "'", "n", "/"];
    let len = c.n(6, 7);
    for n in 1..=len {
        let mut ix = vec![0usize; n];
        'seq: loop {
            let mid: String = ix.iter().map(|i| P[*i]).collect();
            let d = format!("<p {mid}></p>");
            if !text_case(c, n > 1, &d, &refs, Aspect::Attrs) {
                return;
            }
            let mut k = n;
            loop {
                if k == 0 {
                    break 'seq;
                }
                ix[k - 1] += 1;
                if ix[k - 1] < P.len() {
                    break;
                }
                ix[k - 1] = 0;
                k -= 1;
            }
        }
    }
    c.exhaustive.push(format!("all sequences of at most {len} of {P:?} in a start tag"));
    // every ASCII character and some others at the start, inside and at the end of a name and a value of each form
    for ch in (0u8..128).map(char::from).chain(['\u{a0}', 'é', '\u{2028}', '\u{3000}', '😀', '\u{85}']) {
        if ch == '\x0c' || ch == '&' {
            continue;
        }
        for d in [
            format!("<p {ch}a=1>"), format!("<p a{ch}b=1>"), format!("<p a{ch}=1>"), format!("<p a={ch}1>"), format!("<p a=1{ch}2>"), format!("<p a=1{ch}>"), format!("<p a=\"1{ch}2\">"), format!("<p a='{ch}2'>"),
            format!("<p a{ch}>"), format!("<p a {ch} b>"), format!("<p a{ch}b>"),
        ] {
            for d in [format!("{d}</p>"), d.replace("<p", "<br"), format!("{}</script>", d.replace("<p", "<script"))] {
                if !text_case(c, true, &d, &refs, Aspect::Attrs) {
                    return;
                }
            }
        }
    }
    c.exhaustive.push("every ASCII character (form feed and ampersand aside) at 11 places of a start tag, for three kinds of element".into());
    // pairs and triples of names that share beginnings or differ in case, short and long
    let mut names: Vec<String> = vec![];
    for n in ["a", "id", "data-x", "data-first-name", "http-equivalent-header", "xlink:href", "aria-labelledby", "éa", "@click.prevent"] {
        for m in [n.to_string(), n.to_uppercase(), format!("{}{}", n[..1 + n.chars().next().unwrap().len_utf8() - 1].to_uppercase(), &n[n.chars().next().unwrap().len_utf8()..]), format!("{n}s"), format!("{n}-"), format!("x{n}"), n.replace('-', "_"), n.replace('a', "4"), {
            let mut t = n.to_string();
            t.pop();
            t
        }] {
            if !m.is_empty() && !names.contains(&m) {
                names.push(m);
            }
        }
    }
    for (i, a) in names.iter().enumerate() {
        for (j, b) in names.iter().enumerate() {
            let k = &names[(i + j) % names.len()];
            for d in [format!("<p {a}=1 {b}=2></p>"), format!("<br {b}='x' {a} {k}=\"y\">"), format!("<script {a} {b}=0 {k}=9></script>")] {
                if !text_case(c, true, &d, &refs, Aspect::Attrs) {
                    return;
                }
            }
        }
    }
    c.exhaustive.push(format!("all pairs of {} attribute names that share beginnings or differ in case", names.len()));
    if !large(c, &refs, Aspect::Attrs) || !in_use(c, &refs, Aspect::Attrs) {
        return;
    }
    let n = c.n(60_000, 1_000_000);
    random_docs(c, &refs, n, Mix { attrs: 5, content: 0 }, Aspect::Attrs, 0);
}

pub fn c17(c: &mut Cx) {
    c.rule = "all sequences of at most 5 (thorough: 6) pieces inside a comment, a document type, a script, a style and as text; random documents full of such content; contents compared with the reference; non-trivial: more than one piece".into();
    let refs = Refs::new();
    let boxes: &[(&str, &str, &[&str])] = &[
        ("<!--", "-->", &["-", ">", "<", "!", "a", "\n", "&amp;", "é"]),
        ("<!DocType ", ">", &["html", " ", "<", "\"", "&amp;", "\n", "-"]),
        ("<script>", "</script>", &["x", " ", "\n", "<", "</", "script", ">", "&lt;", "</style>"]),
        ("<STYLE>", "</sTyle\n>", &["x", "\t", "<", "</style", "</", ">", "&#65;", "é", "\u{a0}"]),
        ("<p>", "</p>", &["x", " ", "\n", ">", "&", "\"", "é", "-->"]),
        ("", "", &["x", " ", "\n", ">", "&", "\"", "<br>", "<!--c-->", "</"]),
    ];
    for (a, z, parts) in boxes {
        let len = c.n(5, 6);
        for n in 0..=len {
            let mut ix = vec![0usize; n];
            'seq: loop {
                let mid: String = ix.iter().map(|i| parts[*i]).collect();
                if !text_case(c, n > 1, &format!("{a}{mid}{z}"), &refs, Aspect::Content) {
                    return;
                }
                let mut k = n;
                loop {
                    if k == 0 {
                        break 'seq;
                    }
                    ix[k - 1] += 1;
                    if ix[k - 1] < parts.len() {
                        break;
                    }
                    ix[k - 1] = 0;
                    k -= 1;
                }
            }
        }
        c.exhaustive.push(format!("all sequences of at most {len} of {parts:?} between {a:?} and {z:?}"));
    }
    if !large(c, &refs, Aspect::Content) || !in_use(c, &refs, Aspect::Content) {
        return;
    }
    let n = c.n(60_000, 1_000_000);
    random_docs(c, &refs, n, Mix { attrs: 0, content: 1 }, Aspect::Content, 0);
}

pub fn c18(c: &mut Cx) {
    c.rule = "every named reference of the HTML standard, with and without semicolon, alone and in context, in text and in attribute values of every form; every Unicode scalar value as decimal and hexadecimal reference (thorough; quick: every 7th and all below 4096) and numbers that denote none; random texts of reference pieces; malformed and unknown references; contents compared with the reference decoding; non-trivial: every case".into();
    let refs = Refs::new();
    let mut both = |c: &mut Cx, t: &str| {
        if t.contains('<') {
            return true;
        }
        let d = if t.contains('"') { format!("<p a='{t}'>{t}</p>") } else { format!("<p a=\"{t}\">{t}</p>") };
        text_case(c, true, &d, &refs, Aspect::All)
    };
    for (k, _) in strictref::ENTITIES {
        let bare = k.trim_end_matches(';');
        for t in [format!("&{k}"), format!("x&{k}y"), format!("&{k} &{k}"), format!("&{bare} "), format!("&{bare}1;"), format!("&{bare}=;"), format!("&amp;{k}"), format!("&{}x;", bare)] {
            if !both(c, &t) {
                return;
            }
        }
    }
    c.exhaustive.push(format!("all {} named references", strictref::ENTITIES.len()));
    let step = c.n(7, 1) as u32;
    let mut v: u32 = 0;
    while v < 0x11_0100 {
        let (d, h) = (format!("&#{v};"), format!("&#x{v:x};"));
        if !text_case(c, true, &format!("{d}{h}&#X{v:X};&#00{v};&#x000{v:X};"), &refs, Aspect::All) {
            return;
        }
        v += if v < 4096 { 1 } else { step };
    }
    if step == 1 {
        c.exhaustive.push("all numbers up to 0x110100 in five notations".into());
    }
    for t in [
        "&#55296;", "&#57343;", "&#xD800;", "&#xDFFF;", "&#x10FFFF;", "&#x110000;", "&#4294967295;", "&#4294967296;", "&#4294967361;", "&#x100000041;", "&#99999999999999999999;", "&#;", "&#x;", "&#X;", "&#x", "&#", "&", "&;", "& ",
        "&&amp;", "&amp;amp;", "&amp;lt;", "&ampamp;", "&#38;lt;", "&#x26;#65;", "&#65", "&#65 ;", "&#6a;", "&#xg;", "&#xx41;", "&#-65;", "&#+65;", "&# 65;", "&#x+41;", "&x41;", "&65;", "&nope;", "&nope", "&AMP", "&Amp;", "&aMP;", "&lt", "&ltx;",
        "&notit;", "&not it", "&not;it;", "&there4;", "&there4", "&there5;", "&sup1", "&sup12", "&sup9", "&frac12x", "&frac12", "&frac99;", "&emsp13;", "&emsp", "&blk14;", "&é;", "&amp\u{0};", "&ａmp;", "&#６５;", "&#65;&#66;", "&amp;&#38;",
        "&#0;", "&#128;", "&#xFFFE;", "&#xfdd0;", "&#1;", "&quot;", "a&b=c&copy=d", "&lt;&gt;", "&#\u{661};",
    ] {
        if !both(c, t) {
            return;
        }
        for d in [t.to_string(), format!("<br a='{t}'>"), format!("<script a='{t}'>{t}</script>"), format!("<!--{t}-->{t}")] {
            if !t.contains('"') && !text_case(c, true, &d, &refs, Aspect::All) {
                return;
            }
        }
    }
    if !large(c, &refs, Aspect::All) || !in_use(c, &refs, Aspect::All) {
        return;
    }
    const P: &[&str] = &["&", "#", "x", "amp", "lt", ";", "41", "9", "a", " ", "é", "notin", "sup", "1", "AMP", "nbsp", "CounterClockwiseContourIntegral", "0", "D800", "frac12", "there4", "&amp;", "&#"];
    for _ in 0..c.n(100_000, 1_000_000) {
        let mut r = c.rng.clone();
        let t: String = (0..1 + r.below(7)).map(|_| *r.pick(P)).collect();
        c.rng = r;
        if !both(c, &t) {
            return;
        }
    }
}
