//! C12: the document against the tree of the underlying reader, and against what was written
use soupy::{parser::XMLNode, prelude::*};

use crate::cx::{Cx, Rng};

fn same(g: &XMLNode, w: &xmltree::XMLNode, path: &str) -> Result<(), String> {
    let bad = || Err(format!("at {path}: got {g:?}, the reader gives {w:?}"));
    match (g, w) {
        (XMLNode::Comment(a), xmltree::XMLNode::Comment(b)) | (XMLNode::CData(a), xmltree::XMLNode::CData(b)) | (XMLNode::Text(a), xmltree::XMLNode::Text(b)) if a == b => Ok(()),
        (XMLNode::ProcessingInstruction(a, x), xmltree::XMLNode::ProcessingInstruction(b, y)) if a == b && x == y => Ok(()),
        (XMLNode::Element(a), xmltree::XMLNode::Element(b)) => {
            let attrs: std::collections::BTreeMap<_, _> = b.attributes.clone().into_iter().collect();
            if a.name != b.name || a.prefix != b.prefix || a.namespace != b.namespace || a.namespaces != b.namespaces || a.attributes != attrs || a.children.len() != b.children.len() {
                return bad();
            }
            for (i, (x, y)) in a.children.iter().zip(&b.children).enumerate() {
                same(x, y, &format!("{path}/{i}"))?;
            }
            Ok(())
        }
        _ => bad(),
    }
}

fn check(doc: &str) -> Result<(), String> {
    match (Soup::xml(doc.as_bytes()), xmltree::Element::parse_all(doc.as_bytes())) {
        (Ok(s), Ok(w)) => {
            let v: Vec<XMLNode> = s.strict().all().map(|i| (*i).clone()).collect();
            if v.len() != w.len() {
                return Err(format!("{} top-level nodes, the reader gives {}", v.len(), w.len()));
            }
            v.iter().zip(&w).enumerate().try_for_each(|(i, (g, w))| same(g, w, &i.to_string()))
        }
        (Err(a), Err(b)) => {
            if a.to_string() == b.to_string() { Ok(()) } else { Err(format!("error {a}, the reader's is {b}")) }
        }
        (Ok(_), Err(b)) => Err(format!("a document where the reader gives the error {b}")),
        (Err(a), Ok(_)) => Err(format!("error {a} where the reader gives a document")),
    }
}

fn write(r: &mut Rng, depth: usize, out: &mut String) {
    match r.below(if depth == 0 { 5 } else { 10 }) {
        0 => *out += "<!-- c & < -->",
        1 => *out += "<![CDATA[ <x> & ]]>",
        2 => *out += r.pick(&["<?pi some data?>", "<?pi?>", "<?xml-stylesheet href='a'?>"]),
        3 => *out += r.pick(&["text", " ", "\n  ", "a &amp; b &lt; &#65;", "é😀", "x y"]),
        4 => *out += r.pick(&["<e/>", "<p:e xmlns:p='u:p' p:a='1'/>", "<e a='1' b=\"2\" c='&quot;&amp;'/>", "<e xmlns='u:d'/>"]),
        _ => {
            let n = *r.pick(&["a", "b", "long-name", "x.y", "é", "a", "b", "xmlns", "xml", "A", "p:a", "a:a", "b:a", "a:b", "q:long-name", "é:é", "xml:a"]);
            *out += &format!("<{n}");
            if let Some((p, _)) = n.split_once(':').filter(|(p, _)| *p != "xml") {
                *out += &format!(" xmlns:{p}='{}'", r.pick(&["u:p", "u:d", "a", "b", "u:q"]));
            }
            for (i, k) in ["k", "id", "class", "z", "a", "b", "q"].iter().enumerate() {
                if r.chance(1, 3) {
                    *out += &format!(" {k}='{}'", r.pick(&["", "v", "a b", "&lt;", "1", "\n"]));
                }
                let _ = i;
            }
            *out += r.pick(&["", "", " xmlns='u:d'", " xmlns:q='u:q' q:at='w'"]);
            *out += ">";
            for _ in 0..r.below(4) {
                write(r, depth - 1, out);
            }
            *out += &format!("</{n}>");
        }
    }
}

pub fn c12(c: &mut Cx) {
    c.rule = "random well-formed documents (namespaces, prefixes, CDATA, comments, instructions, references), nested at most 5 deep, and damaged ones; compared node by node with xmltree's tree; non-trivial: every case".into();
    for _ in 0..c.n(12_000, 150_000) {
        let mut r = c.rng.clone();
        let mut d = String::from(*r.pick(&["", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n", "<!-- before -->", "<?pi before?>", "<!-- -->", "<!---->", "<?pi?>", "<!--a--> <!--\n-->"]));
        d += "<root a='1'>";
        for _ in 0..r.below(5) {
            write(&mut r, 4, &mut d);
        }
        d += "</root>";
        d += r.pick(&["", "\n", "<!-- after -->", "<?pi after?>", "<!-- -->", "<?pi?><!---->"]);
        if r.chance(1, 4) {
            let cs: Vec<char> = d.chars().collect();
            let i = r.below(cs.len());
            d = cs[..i].iter().chain(&cs[(i + 1).min(cs.len())..]).collect();
            if r.chance(1, 2) {
                d.truncate(d.char_indices().nth(i).map_or(d.len(), |x| x.0));
            }
        }
        c.rng = r;
        if !c.case(true, || d.clone(), || check(&d)) {
            return;
        }
    }
    // a reader that fails
    struct Broken(usize);
    impl std::io::Read for Broken {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let d = b"<root><a/>";
            if self.0 >= d.len() {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken"));
            }
            b[0] = d[self.0];
            self.0 += 1;
            Ok(1)
        }
    }
    c.case(true, || "a reader that fails after <root><a/>".into(), || match Soup::xml(Broken(0)) {
        Ok(_) => Err("a document".into()),
        Err(_) => Ok(()),
    });
    let attrs: String = (0..300).map(|i| format!(" a{i}='{i}'")).collect();
    for (what, d) in [
        ("300 siblings", format!("<r>{}</r>", "<b>x</b>y<br/><!--c--><?p i?><![CDATA[d]]>".repeat(300))),
        ("30000 siblings", format!("<r>{}</r>", "<b>x</b>".repeat(30_000))),
        ("100 levels", format!("{}x{}", "<a>".repeat(100), "</a>".repeat(100))),
        ("300 attributes", format!("<p{attrs}>x<q{attrs}/></p>")),
        ("a long text", format!("<p>{}</p>", "x &amp; y\n".repeat(9000))),
        ("a long comment", format!("<p><!--{}--></p>", "- > <b> ".repeat(7000))),
        ("a long value", format!("<p a='{}'/>", "v".repeat(70_000))),
        ("five megabytes", format!("<p>{}<b/>{}<c d='e'/></p>", "x &amp; y\n".repeat(300_000), "z".repeat(2_500_000))),
        ("many namespaces", format!("<p{}/>", (0..100).map(|i| format!(" xmlns:n{i}='u{i}' n{i}:k{i}='v'")).collect::<String>())),
        ("empty values and contents", "<p a='' b=\"\"><q></q><!----><![CDATA[]]><?i?></p>".to_string()),
        ("white space kept by the reader", "<p> <![CDATA[ ]]> <q> x </q>\n<!-- --> </p>".to_string()),
        ("namespace undeclared again", "<a xmlns='u'><b xmlns=''><c/></b><xml:d xml:lang='e'/></a>".to_string()),
        ("prefixes that are names too", "<a:a xmlns:a='u:a' a:a='a' a='b'><a xmlns='a'/><b:a xmlns:b='a' b:b='b'/><a:b><b/></a:b></a:a>".to_string()),
        ("one namespace under several prefixes", "<a:x xmlns:a='u' xmlns:b='u' xmlns='u' a:k='1'><b:x b:l='2'/><x m='3'/><y xmlns:a='v'><a:x/></y></a:x>".to_string()),
        ("comments and instructions around", "<?xml version='1.0'?><!--a--><?b c?><r/><!--d--><?e?>".to_string()),
    ] {
        if !c.case(true, || what.to_string(), || check(&d).map_err(|e| e.chars().take(300).collect())) {
            return;
        }
    }
    use crate::names::{ATTRS, ELEMENTS, TEXTS, VALUES};
    let esc = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;");
    let mut v = vec![];
    for (k, e) in ELEMENTS.iter().chain(&["A", "Item", "ns:item", "_x", "x-1", "x.2", "xs:schema", "é"]).enumerate() {
        for a in ATTRS.iter().filter(|a| !a.starts_with('@') && !a.starts_with(':') && !a.ends_with('-')) {
            v.push(format!("<{e} xmlns:ns='u:n' xmlns:xs='u:x' xmlns:xlink='u:l' {a}=\"v w\">x</{e}>"));
        }
        for (j, t) in TEXTS.iter().enumerate() {
            v.push(format!("<r xmlns:ns='u:n' xmlns:xs='u:x'><{e}>{0}<{e}/>{0}</{e}>{0}</r>", esc(t)));
            if j == k % TEXTS.len() {
                v.push(format!("<{e}>{}<!--c-->{}<?p?>{}<![CDATA[x]]>{}</{e}>", t, t, t, t));
            }
        }
    }
    for t in TEXTS.iter().chain(VALUES) {
        v.push(format!("<r><!--{t}--><![CDATA[{t}]]><?p {t}?><p a=\"{}\" b='{t}'/>{}</r>", esc(t), esc(t)));
        v.push(format!("<r><![CDATA[{t}]]></r>"));
        v.push(format!("<r><?p {t}?></r>"));
        v.push(format!("<r><?{t}?></r>"));
        v.push(format!("<r><!--{t}--></r>"));
        v.push(format!("{t}<r/>{t}"));
        v.push(format!("<!--{t}--><r/><?p {t}?><!--{t}-->"));
        v.push(format!("<?p {t}?>\n<!--{t}-->\n<r><?p?><!----></r>"));
        v.push(format!("<r xmlns='{0}' xmlns:p='{0}x'><p:q p:a='{0}'/></r>", esc(t)));
        for u in TEXTS {
            v.push(format!("<r>{}<b/>{}</r>", esc(t), esc(u)));
        }
    }
    for a in ATTRS {
        for w in VALUES {
            v.push(format!("<r {a}=\"{}\"/>", esc(w)));
        }
        for b in ATTRS {
            v.push(format!("<r {a}='1' {b}='2'/>"));
        }
    }
    for d in &v {
        if !c.case(true, || d.clone(), || check(d)) {
            return;
        }
    }
    c.exhaustive.push(format!("{} documents with names, values and texts in use, one or two at a time in each place", v.len()));
    // readers that give a few bytes at a time, or are interrupted
    struct Slow<'a>(&'a [u8], usize, bool);
    impl std::io::Read for Slow<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            self.2 = !self.2;
            if self.2 && self.1 == 1 {
                return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again"));
            }
            let n = self.1.min(b.len()).min(self.0.len());
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    for d in ["<r a='1'>é😀<b>x &amp; y</b><!--c--><![CDATA[z]]></r>", "<?xml version='1.0'?>\n<r><q:e xmlns:q='u'/> t </r>\n", "<r><a></r>", "<r>"] {
        for n in [1, 2, 3, 7] {
            let r = c.case(true, || format!("{d:?}, read {n} bytes at a time"), || match (Soup::xml(Slow(d.as_bytes(), n, false)), Soup::xml(d.as_bytes()), xmltree::Element::parse_all(Slow(d.as_bytes(), n, false))) {
                (Ok(a), Ok(b), Ok(_)) => if a.iter().map(|i| (*i).clone()).eq(b.iter().map(|i| (*i).clone())) { Ok(()) } else { Err("the document differs from the one read at once".into()) },
                (Err(_), _, Err(_)) => Ok(()),
                (a, _, b) => Err(format!("gives {:?}, the reader gives {:?}", a.map(|_| ()).map_err(|e| e.to_string()), b.map(|_| ()).map_err(|e| e.to_string()))),
            });
            if !r {
                return;
            }
        }
    }
    // two roots, an empty text
    for d in ["", " ", "<a/><b/>", "text", "<a></b>", "<a>", "<a/>t", "<a b=c/>", "<a>&nope;</a>"] {
        if !c.case(true, || format!("{d:?}"), || check(d)) {
            return;
        }
    }
}
