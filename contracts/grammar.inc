// ---- the language: written from the properties, over sequences of characters
pub open spec fn is_space(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub open spec fn is_alnum(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' }
pub open spec fn is_name(c: char) -> bool {
    !(c == '\t' || c == '\n' || c == '\x0c' || c == '\r' || c == ' ' || c == '"' || c == '\'' || c == '>' || c == '/' || c == '=')
}
pub open spec fn is_value(c: char) -> bool {
    !(c == '\t' || c == '\n' || c == '\x0c' || c == '\r' || c == ' ' || c == '"' || c == '\'' || c == '=' || c == '<' || c == '>' || c == '`')
}
pub open spec fn spaces() -> spec_fn(char) -> bool { |c: char| is_space(c) }
pub open spec fn alnums() -> spec_fn(char) -> bool { |c: char| is_alnum(c) }
pub open spec fn names() -> spec_fn(char) -> bool { |c: char| is_name(c) }
pub open spec fn values() -> spec_fn(char) -> bool { |c: char| is_value(c) }
pub open spec fn texts() -> spec_fn(char) -> bool { |c: char| c != '<' }
pub open spec fn not_in(set: Seq<char>) -> spec_fn(char) -> bool { |c: char| !set.contains(c) }
/// how many characters at the beginning satisfy f
#[verifier::opaque]
pub open spec fn run(s: Seq<char>, f: spec_fn(char) -> bool) -> nat
    decreases s.len()
{
    if s.len() == 0 || !f(s[0]) { 0 } else { 1 + run(s.skip(1), f) }
}
pub open spec fn nonzero(n: nat) -> Option<nat> { if n == 0 { None } else { Some(n) } }
#[verifier::opaque]
pub open spec fn starts(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.take(t.len() as int) == t }
/// the first place where t occurs
#[verifier::opaque]
pub open spec fn find(s: Seq<char>, t: Seq<char>) -> Option<nat>
    decreases s.len()
{
    if starts(s, t) { Some(0) } else if s.len() == 0 { None } else { match find(s.skip(1), t) { Some(k) => Some(k + 1), None => None } }
}
pub open spec fn lower(c: char) -> char {
    if 'A' <= c <= 'Z' { ((c as u32) + 32) as char } else { c }
}
/// equal ignoring ASCII case
#[verifier::opaque]
pub open spec fn same_nc(s: Seq<char>, t: Seq<char>) -> bool {
    s.len() == t.len() && forall|k: int| 0 <= k < s.len() ==> lower(#[trigger] s[k]) == lower(t[k])
}
#[verifier::opaque]
pub open spec fn starts_nc(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && same_nc(s.take(t.len() as int), t) }
pub open spec fn skip_spaces(s: Seq<char>) -> Seq<char> { s.skip(run(s, spaces()) as int) }

pub type Attr = (Seq<char>, Seq<char>);
/// a quoted attribute value: what it is, and the rest of the text
#[verifier::opaque]
pub open spec fn quoted_at(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if s.len() > 0 && (s[0] == '"' || s[0] == '\'') {
        match find(s.skip(1), if s[0] == '"' { "\""@ } else { "'"@ }) {
            Some(x) => Some((s.skip(1).take(x as int), s.skip(x as int + 2))),
            None => None,
        }
    } else {
        None
    }
}
/// an attribute value: what it is, and the rest of the text
#[verifier::opaque]
pub open spec fn value_at(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let n = run(s, values()) as int;
    if n == 0 { quoted_at(s) } else { Some((s.take(n), s.skip(n))) }
}
#[verifier::opaque]
pub open spec fn attr_at(s: Seq<char>) -> Option<(Attr, Seq<char>)> {
    let n = run(s, names()) as int;
    if n == 0 {
        None
    } else {
        let (key, rest) = (s.take(n), s.skip(n));
        let q = skip_spaces(rest);
        if q.len() > 0 && q[0] == '=' {
            match value_at(skip_spaces(q.skip(1))) {
                Some((v, r)) => Some(((key, v), r)),
                // there is no value: the equals sign is left over, and the tag does not end there
                None => Some(((key, Seq::empty()), rest)),
            }
        } else {
            Some(((key, Seq::empty()), rest))
        }
    }
}
/// attributes separated by white space
#[verifier::opaque]
pub open spec fn attrs_at(s: Seq<char>) -> (Seq<Attr>, Seq<char>)
    decreases s.len()
{
    match attr_at(skip_spaces(s)) {
        Some((a, r)) if r.len() < s.len() => (seq![a] + attrs_at(r).0, attrs_at(r).1),
        _ => (Seq::empty(), s),
    }
}
/// what follows the name in a start tag: attributes, whether it is closed by "/>", and the rest
#[verifier::opaque]
pub open spec fn after_name(s: Seq<char>) -> Option<(Seq<Attr>, bool, Seq<char>)> {
    let (attrs, r) = attrs_at(s);
    let q = skip_spaces(r);
    if q.len() >= 2 && q[0] == '/' && q[1] == '>' {
        Some((attrs, true, q.skip(2)))
    } else if q.len() >= 1 && q[0] == '>' {
        Some((attrs, false, q.skip(1)))
    } else {
        None
    }
}
pub struct Start {
    pub name: Seq<char>,
    pub attrs: Seq<Attr>,
    pub closed: bool,
    pub rest: Seq<char>,
}
/// a start tag whose name is made of ASCII letters and digits
#[verifier::opaque]
pub open spec fn start_at(s: Seq<char>) -> Option<Start> {
    if s.len() == 0 || s[0] != '<' {
        None
    } else {
        let t = s.skip(1);
        let n = run(t, alnums()) as int;
        if n == 0 || (n < t.len() && is_name(t[n])) {
            None
        } else {
            match after_name(t.skip(n)) {
                Some((attrs, closed, rest)) => Some(Start { name: t.take(n), attrs, closed, rest }),
                None => None,
            }
        }
    }
}
/// the rest after an end tag of that name
#[verifier::opaque]
pub open spec fn end_at(s: Seq<char>, name: Seq<char>) -> Option<Seq<char>> {
    if s.len() >= 2 && s[0] == '<' && s[1] == '/' && starts_nc(s.skip(2), name) {
        let q = skip_spaces(s.skip(2 + name.len() as int));
        if q.len() > 0 && q[0] == '>' { Some(q.skip(1)) } else { None }
    } else {
        None
    }
}
/// where the first end tag of that name begins
#[verifier::opaque]
pub open spec fn raw_end(s: Seq<char>, name: Seq<char>) -> Option<nat>
    decreases s.len()
{
    if end_at(s, name) is Some { Some(0) } else if s.len() == 0 { None } else { match raw_end(s.skip(1), name) { Some(k) => Some(k + 1), None => None } }
}
pub uninterp spec fn is_white(c: char) -> bool;
#[verifier::opaque]
pub open spec fn trim_start(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_white(s[0]) { trim_start(s.skip(1)) } else { s }
}
#[verifier::opaque]
pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_white(s.last()) { trim_end(s.drop_last()) } else { s }
}
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
pub open spec fn void_names() -> Seq<Seq<char>> {
    seq!["area"@, "base"@, "br"@, "col"@, "embed"@, "hr"@, "img"@, "input"@, "link"@, "meta"@, "source"@, "track"@, "wbr"@]
}
pub open spec fn raw_names() -> Seq<Seq<char>> { seq!["script"@, "style"@] }
/// one of the names, ignoring ASCII case
#[verifier::opaque]
pub open spec fn named(name: Seq<char>, names: Seq<Seq<char>>) -> bool { exists|k: int| 0 <= k < names.len() && same_nc(name, #[trigger] names[k]) }
pub open spec fn is_void(name: Seq<char>) -> bool { named(name, void_names()) }
pub open spec fn is_raw(name: Seq<char>) -> bool { named(name, raw_names()) }

pub enum T {
    Comment(Seq<char>),
    Doctype(Seq<char>),
    Text(Seq<char>),
    Void { name: Seq<char>, attrs: Map<Seq<char>, Seq<char>> },
    Raw { name: Seq<char>, attrs: Map<Seq<char>, Seq<char>>, content: Seq<char> },
    Element { name: Seq<char>, attrs: Map<Seq<char>, Seq<char>>, children: Seq<T> },
}
/// A map from pairs: the last one of a name counts.
#[verifier::opaque]
pub open spec fn map_of(s: Seq<Attr>) -> Map<Seq<char>, Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0, s.last().1) }
}
/// one node, and the rest of the text
#[verifier::opaque]
pub open spec fn node_at(s: Seq<char>) -> Option<(T, Seq<char>)>
    decreases s.len(), 0nat
{
    if s.len() == 0 {
        None
    } else if s[0] != '<' {
        let n = run(s, texts()) as int;
        Some((T::Text(s.take(n)), s.skip(n)))
    } else if starts(s, "<!--"@) {
        match find(s.skip(4), "-->"@) {
            Some(x) => Some((T::Comment(s.skip(4).take(x as int)), s.skip(x as int + 7))),
            None => None,
        }
    } else if starts_nc(s, "<!doctype "@) {
        match find(s.skip(10), ">"@) {
            Some(x) => Some((T::Doctype(s.skip(10).take(x as int)), s.skip(x as int + 11))),
            None => None,
        }
    } else {
        match start_at(s) {
            None => None,
            Some(t) =>
                if is_void(t.name) {
                    Some((T::Void { name: t.name, attrs: map_of(t.attrs) }, t.rest))
                } else if is_raw(t.name) {
                    raw_at(t)
                } else if t.closed {
                    Some((T::Element { name: t.name, attrs: map_of(t.attrs), children: Seq::empty() }, t.rest))
                } else if t.rest.len() < s.len() {
                    match end_at(nodes_at(t.rest).1, t.name) {
                        Some(rest) => Some((T::Element { name: t.name, attrs: map_of(t.attrs), children: nodes_at(t.rest).0 }, rest)),
                        None => None,
                    }
                } else {
                    None  // never: lemma_start
                },
        }
    }
}
#[verifier::opaque]
pub open spec fn raw_at(t: Start) -> Option<(T, Seq<char>)> {
    if t.closed {
        Some((T::Raw { name: t.name, attrs: map_of(t.attrs), content: Seq::empty() }, t.rest))
    } else {
        match raw_end(t.rest, t.name) {
            Some(x) => match end_at(t.rest.skip(x as int), t.name) {
                Some(rest) => Some((T::Raw { name: t.name, attrs: map_of(t.attrs), content: trim(t.rest.take(x as int)) }, rest)),
                None => None,
            },
            None => None,
        }
    }
}
/// as many nodes as there are, and the rest of the text
#[verifier::opaque]
pub open spec fn nodes_at(s: Seq<char>) -> (Seq<T>, Seq<char>)
    decreases s.len(), 1nat
{
    match node_at(s) {
        Some((n, r)) if r.len() < s.len() => (seq![n] + nodes_at(r).0, nodes_at(r).1),
        _ => (Seq::empty(), s),
    }
}
/// the document of a text; None if it is malformed
pub open spec fn document(s: Seq<char>) -> Option<Seq<T>> {
    if nodes_at(s).1.len() == 0 { Some(nodes_at(s).0) } else { None }
}
