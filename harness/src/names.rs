//! names, attributes and contents that HTML and XML documents use, any of which code might single out

pub const ELEMENTS: &[&str] = &[
    "a", "abbr", "acronym", "address", "applet", "article", "aside", "audio", "b", "base", "basefont", "bdi", "bdo", "bgsound", "big", "blink", "blockquote", "body", "br", "button", "canvas", "caption",
    "center", "circle", "cite", "code", "col", "colgroup", "command", "content", "data", "datalist", "dd", "del", "desc", "details", "dfn", "dialog", "dir", "div", "dl", "dt", "element", "em", "embed", "fieldset", "figcaption", "figure", "font",
    "footer", "foreignobject", "form", "frame", "frameset", "g", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "i", "iframe", "image", "img", "input", "ins", "isindex", "kbd", "keygen",
    "label", "legend", "li", "link", "listing", "main", "map", "mark", "marquee", "math", "menu", "menuitem", "meta", "meter", "mi", "mo", "multicol", "nav", "nextid", "nobr", "noembed", "noframes", "noscript", "object", "ol",
    "optgroup", "option", "output", "p", "param", "path", "picture", "plaintext", "portal", "pre", "progress", "q", "rb", "rect", "rp", "rt", "rtc", "ruby", "s", "samp", "script", "search", "section", "select", "shadow", "slot", "small", "source",
    "spacer", "span", "strike", "strong", "style", "sub", "summary", "sup", "svg", "table", "tbody", "td", "template", "text", "textarea", "tfoot", "th", "thead", "time", "title", "tr", "track", "tt", "u", "ul", "use", "var", "video",
    "wbr", "xml", "xmp",
];

pub const ATTRS: &[&str] = &[
    "id", "class", "href", "src", "style", "title", "alt", "name", "value", "type", "rel", "lang", "dir", "hidden", "checked", "disabled", "selected", "readonly", "required", "multiple", "async", "defer", "open", "width", "height", "data-x", "data-",
    "aria-label", "role", "tabindex", "onclick", "on", "xmlns", "xmlns:xlink", "xlink:href", "xml:lang", "xml:space", "xml:base", "xml:id", "v-if", ":key", "@click", "_x", "content", "charset", "http-equiv", "media", "action", "method", "for", "colspan", "rowspan", "nowrap",
    "ID", "Class", "dataFoo", "viewBox", "x1", "srcset", "usemap", "ismap", "is", "slot", "part", "key", "ref", "true", "false", "null",
];

pub const VALUES: &[&str] = &[
    "", " ", "a", "A", " a", "a ", " a b ", "a  b", "\ta", "a\n", "a\r\nb", "true", "false", "null", "0", "01", "-1", "1e3", "none", "/", "//x", "/a/b/", "a/", "javascript:x", "http://x.y/?a=b&c=d#e", "#", "a,b", "a;b", "x:y", "%20", "+", "\\", "\\n", "é", "e\u{301}", "😀", "\u{a0}",
    "\u{feff}", "\u{200b}", "\u{0}", "[x]", "{x}", "(x)", "$1", "${x}", "{{x}}", "*", "?", "ABC", "aBc", "ß", "İ", "K", "--", "->", "/>", "><", "-->", "]]>", "<b>", "</p>", "text/css", "utf-8", "id", "class",
];

pub const TEXTS: &[&str] = &[
    "x", " ", "  ", "\n", "\n\n", "\r\n", "\t", " x", "x ", "\nx", "\n\nx", "x\n", "x\n\ny", "\r\nx", "a  b", "\u{a0}", "\u{a0}x\u{a0}", "\u{3000}x", "\u{feff}x", "\u{200b}", "\u{2028}", "\u{85}", "\u{0}", "x\u{0}y", "\u{b}", "\u{1}", "\u{7f}", "é", "e\u{301}", "😀", "👨\u{200d}👩", "ß", "İ",
    "]]>", "-->", "{{x}}", "${x}", "%s", "\\n", "\\", "//", "/* x */", "null", "true", "0", "lorem ipsum dolor sit amet", "a=b", "a>b", "\"x\"", "'x'", "`x`", "x;", ";", "#", "~", "|",
];

/// documents that put each of these in each place, one or two at a time
pub fn corpus() -> Vec<String> {
    let mut v = vec![];
    let up = |s: &str, k: usize| if k % 4 == 3 { s.to_uppercase() } else { s.to_string() };
    for (k, e) in ELEMENTS.iter().enumerate() {
        for (j, t) in TEXTS.iter().enumerate() {
            v.push(format!("<{0}>{t}</{0}>", up(e, j)));
            v.push(format!("<div>{t}<{0}>{t}<i>{t}</i>{t}</{0}>{t}</div>", up(e, k + j)));
        }
        for (j, f) in ELEMENTS.iter().enumerate() {
            v.push(format!("<{0}><{1}>x</{1}> </{0}>", up(e, k + j), f));
            if j % 3 == k % 3 {
                v.push(format!("<{e}>x<{f} /><b>y</b><{f}></{f}></{e}>"));
                v.push(format!("<{e}>x</{e}><{f}>y</{f}>\n<{e}>z</{e}>"));
            }
        }
        for (j, a) in ATTRS.iter().enumerate() {
            v.push(format!("<{0} {a}=\"v w\">x</{0}>", up(e, k + j)));
            v.push(format!("<{e} {a}>x</{e}>"));
            v.push(format!("<{e} {a}={a}><br {a}=''></{e}>"));
        }
    }
    for (j, a) in ATTRS.iter().enumerate() {
        for (k, w) in VALUES.iter().enumerate() {
            let e = ["p", "br", "input", "script", "html", "IMG"][(j + k) % 6];
            let z = if matches!(e, "p" | "script" | "html") { format!("</{e}>") } else { String::new() };
            v.push(format!("<{e} {a}=\"{w}\">{z}"));
            v.push(format!("<{e} x=1 {a} = '{w}' y>{z}"));
        }
        for (k, b) in ATTRS.iter().enumerate() {
            v.push(match (j + k) % 3 {
                0 => format!("<p {a}=1 {b}=2>x</p>"),
                1 => format!("<input {a} {b}='2'>"),
                _ => format!("<a {a}=\"1\" x {b}>x</a>"),
            });
        }
    }
    for t in TEXTS.iter().chain(VALUES) {
        v.push(format!("<!--{t}-->"));
        v.push(format!("<p>x<!--{t}-->{t}</p>"));
        v.push(format!("<!DOCTYPE {t}>x"));
        v.push(format!("<!doctype html {t}><html></html>"));
        v.push(format!("<script>{t}</script>"));
        v.push(format!("<script>\n{t}\n</script>"));
        v.push(format!("<STYLE>x{t}</STYLE>"));
        for u in TEXTS {
            v.push(format!("{t}<!--c-->{u}"));
            v.push(format!("<p>{t}</p>{u}<br>{t}"));
            v.push(format!("{t}{u}"));
        }
    }
    for c in ["[if IE]>x<![endif]", " [if lt IE 9]> <p> <![endif] ", "#include virtual=\"x\"", " ko if: x ", "noindex", "googleoff: all", "?xml version='1.0'?", "", "-", "!", "[CDATA[x]]", "\u{feff}"] {
        v.push(format!("<!--{c}-->"));
        v.push(format!("<p><!--{c}--><!--{c}-->x</p>"));
    }
    for d in ["html", "HTML", "html5", "html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd\"", "html SYSTEM \"about:legacy-compat\"", "svg", "", " ", " html ", "html\n", "\thtml", "math", "x y z"] {
        v.push(format!("<!DOCTYPE {d}><html><head></head><body>x</body></html>"));
        v.push(format!("<!DocType {d}>\n<!--x-->\n<p>y</p>\n"));
        v.push(format!("x<!doctype {d}><!DOCTYPE {d}>"));
    }
    for t in ["application/json", "text/template", "module", "text/x-handlebars", "application/ld+json", "text/html"] {
        v.push(format!("<script type=\"{t}\">\n<b>x</b> &amp; {{ \"a\": 1 }}\n</script>"));
        v.push(format!("<style type='{t}'> a > b {{}} </style>"));
    }
    for p in ["<p>one<p>two", "<ul><li>a<li>b</ul>", "<dl><dt>a<dd>b</dl>", "<select><option>a<option>b</select>", "<table><tr><td>a<td>b<tr><td>c</table>", "<table><tr><td>a</td></tr></table>", "<p><div>x</div></p>", "<a><a>x</a></a>", "<b><i>x</b>y</i>",
        "<script></script>", "<script> </script>", "<style></style>", "<p></p>", "<p> </p>", "<br></br>", "</p>", "<p/>x", "<div/>", "<script/>x", "<?xml version='1.0'?><p>x</p>", "<![CDATA[x]]>", "<svg><![CDATA[x]]></svg>", "<!>", "<!x>", "<!doctype>", "<!DOCTYPE>", "<>", "< p>", "</ p>", "<p >x</p >", "<p\n>x</p\n>",
        "<title>a &amp; <b>b</b></title>", "<textarea>\n<b>x</b></textarea>", "<pre>\n x</pre>", "<pre>\n\nx</pre>", "<listing>\nx</listing>", "<noscript><p>x</p></noscript>", "<iframe><p>x</p></iframe>", "<xmp><p>x</p></xmp>", "<plaintext><p>x</p></plaintext>", "<template><p>x</p></template>",
        "\u{feff}<p>x</p>", "\u{feff}", "<p>x</p>\u{0}", "\u{1a}", "<p>x</p>\n", "\n<p>x</p>", "\r\n<p>x</p>\r\n"] {
        v.push(p.to_string());
        v.push(p.to_uppercase());
        v.push(format!("<main>{p}</main>"));
        v.push(format!("{p}{p}"));
    }
    v
}
