//! C13: the lenient document against the HTML5 tree
use soupy::{parser::HTMLNode, prelude::*};

use crate::cx::{Cx, Rng};

const VOID: &[&str] = &["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"];

type L = HTMLNode<scraper::StrTendril>;

fn want(n: ego_tree::NodeRef<'_, scraper::Node>, out: &mut Vec<HTMLNode<String>>) {
    match n.value() {
        scraper::Node::Document | scraper::Node::Fragment | scraper::Node::ProcessingInstruction(_) => {}
        scraper::Node::Doctype(d) => out.push(HTMLNode::Doctype(d.name().to_string())),
        scraper::Node::Comment(c) => out.push(HTMLNode::Comment(c.to_string())),
        scraper::Node::Text(t) => out.push(HTMLNode::Text(t.to_string())),
        scraper::Node::Element(e) => {
            let name = e.name().to_string();
            let attrs = e.attrs().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            let mut children = vec![];
            for k in n.children() {
                want(k, &mut children);
            }
            if VOID.contains(&e.name()) && !n.has_children() {
                out.push(HTMLNode::Void { name, attrs });
            } else {
                out.push(HTMLNode::Element { name, attrs, children });
            }
        }
    }
}

fn owned(n: &L) -> HTMLNode<String> {
    let m = |a: &std::collections::BTreeMap<scraper::StrTendril, scraper::StrTendril>| a.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    match n {
        HTMLNode::Comment(s) => HTMLNode::Comment(s.to_string()),
        HTMLNode::Doctype(s) => HTMLNode::Doctype(s.to_string()),
        HTMLNode::Text(s) => HTMLNode::Text(s.to_string()),
        HTMLNode::Void { name, attrs } => HTMLNode::Void { name: name.to_string(), attrs: m(attrs) },
        HTMLNode::RawElement { name, attrs, content } => HTMLNode::RawElement { name: name.to_string(), attrs: m(attrs), content: content.to_string() },
        HTMLNode::Element { name, attrs, children } => HTMLNode::Element { name: name.to_string(), attrs: m(attrs), children: children.iter().map(owned).collect() },
    }
}

fn check(doc: &str) -> Result<(), String> {
    let s = Soup::html(doc);
    let got: Vec<_> = s.strict().all().map(|i| owned(&i)).collect();
    let tree = scraper::Html::parse_document(doc).tree;
    let mut w = vec![];
    for k in tree.root().children() {
        want(k, &mut w);
    }
    if got == w {
        return Ok(());
    }
    Err(format!("got {got:?}, the HTML5 tree is {w:?}"))
}

const BITS: &[&str] = &[
    "<p>", "</p>", "<div class='a b' id=x>", "</div>", "<br>", "<br/>", "</br>", "<img src=a>", "<input disabled>", "<hr>", "<wbr>", "<area>", "<base>", "<col>", "<embed>", "<link>",
    "<meta charset=u>", "<source>", "<track>", "<param>", "<table>", "<tr>", "<td>", "</table>", "<ul>", "<li>", "<svg>", "<br/></svg>", "<link>x</link>", "</svg>", "<math>", "<mi>", "</math>",
    "<template>", "</template>", "<script>", "if (a<b) {}", "</script>", "<style>", "</style>", "<textarea>", "</textarea>", "<title>", "</title>", "<select>", "<option>", "</select>", "text",
    " ", "\n", "&amp;", "&nbsp", "&lt", "é😀", "\u{0}", "<!--", "c", "-->", "<!DOCTYPE html>", "<!doctype html public \"a\" \"b\">", "<?pi x?>", "<![CDATA[x]]>", "<", ">", "</", "<a", "a=b", "\"", "'", "=",
    "<b>", "<i>", "</b>", "</i>", "<html lang=en>", "<head>", "<body class=q>", "</body>", "</html>", "<frameset>", "<svg:a x:y=1>", "<x-y>", "<image>", "<keygen>", "<command>",
];

fn random(r: &mut Rng) -> String {
    (0..1 + r.below(14)).map(|_| *r.pick(BITS)).collect()
}

pub fn c13(c: &mut Cx) {
    c.rule = "random sequences of at most 14 of some 80 pieces of HTML (well-formed or not; void, raw, foreign, table and template content included), compared with the tree html5ever builds; every pair of pieces; non-trivial: every case".into();
    for v in VOID {
        for d in [format!("<{v}>"), format!("<{v}/>t"), format!("<svg><{v}>x</{v}></svg>"), format!("<div><{v} a=1 b='2'>t</{v}></div>"), format!("<{}>", v.to_uppercase())] {
            if !c.case(true, || d.clone(), || check(&d)) {
                return;
            }
        }
    }
    for a in BITS {
        for b in BITS {
            let d = format!("{a}{b}");
            if !c.case(true, || d.clone(), || check(&d)) {
                return;
            }
        }
    }
    c.exhaustive.push("all pairs of the pieces".into());
    for _ in 0..c.n(12_000, 200_000) {
        let mut r = c.rng.clone();
        let d = random(&mut r);
        c.rng = r;
        if !c.case(true, || d.clone(), || check(&d)) {
            return;
        }
    }
    let nest = |n: usize, name: &str| format!("{}x{}", format!("<{name}>").repeat(n), format!("</{name}>").repeat(n));
    let attrs: String = (0..300).map(|i| format!(" a{}={}", i % 270, i)).collect();
    for (what, d) in [
        ("300 siblings", "<b>x</b>y<br><!--c--><input>".repeat(300)),
        ("70000 siblings", "<b>x</b><br>".repeat(35_000)),
        ("150 levels", nest(150, "div")),
        ("300 attributes", format!("<p{attrs}>x</p><br{attrs}><script{attrs} ></script>")),
        ("a long text", "x &amp; y\n".repeat(9000)),
        ("a long comment", format!("<!--{}-->x", "- -- > <b> ".repeat(7000))),
        ("a long script", format!("<script>{}</script>x", "if (a < b) { c('</b>'); }\n".repeat(3000))),
        ("a long value", format!("<p a={} b='{}'></p>", "v".repeat(70_000), "&lt;".repeat(20_000))),
        ("a long name", format!("<{0} {0}=1>x</{0}>", "n".repeat(70_000))),
        ("several comments around the document", "<!--a--><!--b--><!DOCTYPE html><!--c--><p>x</p><!--d--></html><!--e--><!--f-->".into()),
    ] {
        if !c.case(true, || what.to_string(), || check(&d).map_err(|e| e.chars().take(300).collect())) {
            return;
        }
    }
    let v = crate::names::corpus();
    for d in &v {
        if !c.case(true, || d.clone(), || check(d)) {
            return;
        }
    }
    c.exhaustive.push(format!("{} documents with the names, values and texts HTML documents use", v.len()));
    // texts of other types
    c.case(true, || "texts of type String and &String".into(), || {
        let d = String::from("<p>a<br>b");
        let x: Vec<_> = Soup::html(d.clone()).iter().map(|i| owned(&i)).collect();
        let y: Vec<_> = Soup::html(&d).iter().map(|i| owned(&i)).collect();
        let z: Vec<_> = Soup::html("<p>a<br>b").iter().map(|i| owned(&i)).collect();
        if x == y && y == z { Ok(()) } else { Err("documents differ".into()) }
    });
}
