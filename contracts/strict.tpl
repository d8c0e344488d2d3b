// unit strict: the parsers of src/parser/html/strict.rs
#![allow(unused)]
use vstd::prelude::*;
use std::collections::BTreeMap;
verus! {
//@include std_more.inc
//@mode combinators
//@rename len ==> vx_len
//@rename into_iter ==> vx_into_iter
//@rename into ==> vx_into
//@rename to_string ==> vx_to_string
//@rename trim_start_matches ==> vx_trim_start_matches
//@rename trim_end_matches ==> vx_trim_end_matches
//@rename strip_prefix ==> vx_strip_prefix
//@rename is_char_boundary ==> vx_is_char_boundary
//@rename split_at ==> vx_split_at
//@rename find ==> vx_find
//@rename contains ==> vx_contains
//@rename starts_with ==> vx_starts_with
//@rename parse ==> vx_parse
//@fnvalue element
|j: &'a str| -> (o: _) requires j@.len() <= $1@.len() ensures node_is(o, element_at(j@)) { element(j) }
//@end
//@fnvalue parse
|j: &'a str| -> (o: _) requires j@.len() < $1@.len() ensures nodes_are(o, nodes_at(j@)) { parse(j) }
//@end
//@fnvalue single
|j: &'a str| -> (o: _) requires j@.len() <= $1@.len() ensures node_is(o, node_at(j@)) { single(j) }
//@end
//@include nom.inc
//@include grammar.inc
//@include str_shims.inc
//@include escape.inc

//@type parser::html::node::HTMLNode

pub uninterp spec fn attrs_of<B>(m: BTreeMap<B, B>) -> Map<Seq<char>, Seq<char>>;
pub open spec fn chars_of<'a>(v: Seq<(&'a str, &'a str)>) -> Seq<Attr> { v.map_values(|a: (&'a str, &'a str)| (a.0@, a.1@)) }
pub struct Items<B> { v: Vec<B> }
pub trait IntoItems<B>: Sized { fn vx_into_iter(self) -> (r: Items<B>) ensures r.items() == self.seq(); spec fn seq(self) -> Seq<B>; }
impl<B> IntoItems<B> for Vec<B> {
    open spec fn seq(self) -> Seq<B> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: Items<B>) { unimplemented!() }
}
impl<B> Items<B> {
    pub uninterp spec fn items(self) -> Seq<B>;
    #[verifier::external_body]
    pub fn map<C, F: Fn(B) -> C>(self, f: F) -> (r: Items<C>)
        requires forall|k: int| 0 <= k < self.items().len() ==> f.requires((#[trigger] self.items()[k],)),
        ensures r.items().len() == self.items().len(),
            forall|k: int| 0 <= k < r.items().len() ==> f.ensures((self.items()[k],), #[trigger] r.items()[k]),
    { unimplemented!() }
}
/// the pairs of a map, each once
pub uninterp spec fn entries<'a>(m: BTreeMap<&'a str, &'a str>) -> Seq<(&'a str, &'a str)>;
impl<'a> IntoItems<(&'a str, &'a str)> for BTreeMap<&'a str, &'a str> {
    open spec fn seq(self) -> Seq<(&'a str, &'a str)> { entries(self) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: Items<(&'a str, &'a str)>)
        ensures map_of(chars_of(r.items())) == attrs_of(self),
    { unimplemented!() }
}
pub open spec fn cow_chars<'a>(v: Seq<(Cow<'a, str>, Cow<'a, str>)>) -> Seq<Attr> { v.map_values(|a: (Cow<'a, str>, Cow<'a, str>)| (a.0@, a.1@)) }
impl<'a> Items<(Cow<'a, str>, Cow<'a, str>)> {
    #[verifier::external_body]
    pub fn collect(self) -> (r: BTreeMap<Cow<'a, str>, Cow<'a, str>>) ensures attrs_of(r) == map_of(cow_chars(self.items())) { unimplemented!() }
}
impl<'a> Items<HTMLNode<Cow<'a, str>>> {
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<HTMLNode<Cow<'a, str>>>) ensures r@ == self.items() { unimplemented!() }
}
impl<'a> Items<(&'a str, &'a str)> {
    /// pairs inserted one after the other
    #[verifier::external_body]
    pub fn collect(self) -> (r: BTreeMap<&'a str, &'a str>) ensures attrs_of(r) == map_of(chars_of(self.items())) { unimplemented!() }
}

/// the node stands for the tree
pub open spec fn is<'a>(n: HTMLNode<&'a str>, t: T) -> bool
    decreases t
{
    match n {
        HTMLNode::Comment(c) => t == T::Comment(c@),
        HTMLNode::Doctype(c) => t == T::Doctype(c@),
        HTMLNode::Text(c) => t == T::Text(c@),
        HTMLNode::Void { name, attrs } => t == (T::Void { name: name@, attrs: attrs_of(attrs) }),
        HTMLNode::RawElement { name, attrs, content } => t == (T::Raw { name: name@, attrs: attrs_of(attrs), content: content@ }),
        HTMLNode::Element { name, attrs, children } => t matches T::Element { name: tn, attrs: ta, children: tc }
            && tn == name@ && ta == attrs_of(attrs) && tc.len() == children@.len()
            && forall|k: int| 0 <= k < tc.len() ==> is(#[trigger] children@[k], tc[k]),
    }
}
pub open spec fn all_are<'a>(v: Seq<HTMLNode<&'a str>>, t: Seq<T>) -> bool {
    v.len() == t.len() && forall|k: int| 0 <= k < t.len() ==> is(#[trigger] v[k], t[k])
}
pub open spec fn node_is<'a>(r: IResult<&'a str, HTMLNode<&'a str>>, o: Option<(T, Seq<char>)>) -> bool {
    match o {
        Some(x) => r matches Ok(z) && z.0@ == x.1 && is(z.1, x.0),
        None => soft(r),
    }
}
pub open spec fn nodes_are<'a>(r: IResult<&'a str, Vec<HTMLNode<&'a str>>>, o: (Seq<T>, Seq<char>)) -> bool {
    r matches Ok(z) && z.0@ == o.1 && all_are(z.1@, o.0)
}
pub open spec fn rest_is<'a, O>(r: IResult<&'a str, O>, o: Option<Seq<char>>) -> bool {
    match o {
        Some(x) => r matches Ok(z) && z.0@ == x,
        None => soft(r),
    }
}
/// attributes with the references in their values decoded
pub open spec fn decode_values(m: Map<Seq<char>, Seq<char>>) -> Map<Seq<char>, Seq<char>> { m.map_values(|v: Seq<char>| decode(v)) }
/// the node of the document that stands for the tree: references are decoded in text and attribute values only
pub open spec fn out<'a>(n: HTMLNode<Cow<'a, str>>, t: T) -> bool
    decreases t
{
    match n {
        HTMLNode::Comment(c) => t == T::Comment(c@),
        HTMLNode::Doctype(c) => t == T::Doctype(c@),
        HTMLNode::Text(c) => t matches T::Text(s) && c@ == decode(s),
        HTMLNode::Void { name, attrs } => t matches T::Void { name: tn, attrs: ta } && tn == name@ && attrs_of(attrs) == decode_values(ta),
        HTMLNode::RawElement { name, attrs, content } => t matches T::Raw { name: tn, attrs: ta, content: tc }
            && tn == name@ && attrs_of(attrs) == decode_values(ta) && tc == content@,
        HTMLNode::Element { name, attrs, children } => t matches T::Element { name: tn, attrs: ta, children: tc }
            && tn == name@ && attrs_of(attrs) == decode_values(ta) && tc.len() == children@.len()
            && forall|k: int| 0 <= k < tc.len() ==> out(#[trigger] children@[k], tc[k]),
    }
}
pub open spec fn all_out<'a>(v: Seq<HTMLNode<Cow<'a, str>>>, t: Seq<T>) -> bool {
    v.len() == t.len() && forall|k: int| 0 <= k < t.len() ==> out(#[trigger] v[k], t[k])
}
/// the result of the strict parser for a text
pub open spec fn result_is<'a>(r: Result<Vec<HTMLNode<Cow<'a, str>>>, nom::Err<E>>, s: Seq<char>) -> bool {
    match document(s) {
        Some(t) => r matches Ok(v) && all_out(v@, t),
        None => r is Err,
    }
}
// the alternatives on their own
pub open spec fn comment_at(s: Seq<char>) -> Option<(T, Seq<char>)> {
    if starts(s, "<!--"@) {
        match find(s.skip(4), "-->"@) {
            Some(x) => Some((T::Comment(s.skip(4).take(x as int)), s.skip(x as int + 7))),
            None => None,
        }
    } else { None }
}
pub open spec fn doctype_at(s: Seq<char>) -> Option<(T, Seq<char>)> {
    if starts_nc(s, "<!doctype "@) {
        match find(s.skip(10), ">"@) {
            Some(x) => Some((T::Doctype(s.skip(10).take(x as int)), s.skip(x as int + 11))),
            None => None,
        }
    } else { None }
}
pub open spec fn void_at(s: Seq<char>) -> Option<(T, Seq<char>)> {
    match start_at(s) {
        Some(t) => if is_void(t.name) { Some((T::Void { name: t.name, attrs: map_of(t.attrs) }, t.rest)) } else { None },
        None => None,
    }
}
pub open spec fn raw_element_at(s: Seq<char>) -> Option<(T, Seq<char>)> {
    match start_at(s) {
        Some(t) => if is_raw(t.name) { raw_at(t) } else { None },
        None => None,
    }
}
pub open spec fn element_at(s: Seq<char>) -> Option<(T, Seq<char>)> {
    match start_at(s) {
        None => None,
        Some(t) =>
            if t.closed {
                Some((T::Element { name: t.name, attrs: map_of(t.attrs), children: Seq::empty() }, t.rest))
            } else {
                match end_at(nodes_at(t.rest).1, t.name) {
                    Some(rest) => Some((T::Element { name: t.name, attrs: map_of(t.attrs), children: nodes_at(t.rest).0 }, rest)),
                    None => None,
                }
            },
    }
}
pub open spec fn text_at(s: Seq<char>) -> Option<(T, Seq<char>)> {
    let n = run(s, texts());
    if n == 0 { None } else { Some((T::Text(s.take(n as int)), s.skip(n as int))) }
}
pub open spec fn quoted_is<'a>(r: IResult<&'a str, &'a str>, o: Option<(Seq<char>, Seq<char>)>) -> bool {
    match o {
        Some(x) => r matches Ok(z) && z.0@ == x.1 && z.1@ == x.0,
        None => soft(r),
    }
}
/// the answer of start_tag(inner)
pub open spec fn started<'a, A: P<'a, &'a str>>(inner: A, i: &'a str, r: IResult<&'a str, (&'a str, Vec<(&'a str, &'a str)>, bool)>) -> bool {
    if i@.len() > 0 && i@[0] == '<' {
        exists|j: &'a str, x: IResult<&'a str, &'a str>| j@ == i@.skip(1) && #[trigger] inner.rel(j, x) && (fails_with(x, r) || (x matches Ok(y)
            && if y.0@.len() > 0 && is_name(y.0@[0]) { soft(r) } else {
                match after_name(y.0@) {
                    Some(a) => r matches Ok(z) && z.0@ == a.2 && z.1.0 == y.1 && chars_of(z.1.1@) == a.0 && z.1.2 == a.1,
                    None => soft(r),
                }
            }))
    } else {
        soft(r)
    }
}
pub mod lemmas {
use super::*;
//@include grammar_lemmas.inc
//@include strict_lemmas.inc
//@include escape_lemmas.inc
//@include escape_re.inc
pub broadcast group seqs { lemma_skip_skip, lemma_skip_take, lemma_skip_zero, lemma_starts, lemma_starts_one, lemma_run, lemma_find }
pub broadcast group positions_only { lemma_skip_skip, lemma_skip_take, lemma_skip_zero, lemma_starts, lemma_starts_one, lemma_run_length, lemma_find }
pub broadcast group rests { lemma_attrs_rest, lemma_start, lemma_attr, lemma_end, lemma_raw_end, lemma_nodes_rest, lemma_node }
pub broadcast group alternatives { lemma_alternatives, lemma_alternative_rests, lemma_doctype_rest, lemma_void_rest, lemma_raw_rest, lemma_element_rest, lemma_text_rest }
pub broadcast group positions { lemma_boundary, lemma_starts_nc, lemma_boundary_zero, lemma_boundary_from }
}
pub use lemmas::*;
pub mod code {
use super::*;
use super::HTMLNode::*;

//@fn parser::html::strict::attr ret=r
//@sigsubst <'a, E> ==> <'a>
//@sigsubst where E: nom::error::ParseError<&'a str>, ==>
    ensures takes(i, nonzero(run(i@, names())), r),
//@bodystart
    proof { lemma_sets(); }
//@end

//@fn parser::html::strict::ws ret=p wrap=parser
//@sigsubst <'a, F, O, E: nom::error::ParseError<&'a str>> ==> <'a, F, O>
//@sigsubst impl FnMut(&'a str) -> IResult<&'a str, O, E> ==> Parse<'a, O>
//@sigsubst F: Fn(&'a str) -> IResult<&'a str, O, E> ==> F: P<'a, O>
    requires shrinks($1),
    ensures shrinks(p), forall|n: nat| $1.ok(n) ==> #[trigger] p.ok(n),
        forall|i: &'a str, r: IResult<&'a str, O>| #[trigger] p.rel(i, r) ==> exists|j: &'a str, x: IResult<&'a str, O>|
            j@ == skip_spaces(i@) && #[trigger] $1.rel(j, x)
            && (fails_with(x, r) || (x matches Ok(y) && r matches Ok(z) && z.0@ == skip_spaces(y.0@) && z.1 == y.1)),
//@bodystart
    broadcast use {lemmas::seqs};
//@end

//@fn parser::html::strict::take_to ret=p wrap=parser
//@sigsubst <'a, E: nom::error::ParseError<&'a str>> ==> <'a>
//@sigsubst impl FnMut(&'a str) -> IResult<&'a str, &'a str, E> ==> Parse<'a, &'a str>
    ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
        forall|j: &'a str, r: IResult<&'a str, &'a str>| #[trigger] p.rel(j, r) ==> match find(j@, $1@) {
            Some(x) => r matches Ok(z) && z.0@ == j@.skip(x as int + $1@.len() as int) && z.1@ == j@.take(x as int),
            None => soft(r),
        },
//@bodystart
    broadcast use {lemmas::seqs};
//@end

//@fn parser::html::strict::tag_no_case ret=p wrap=parser
//@sigsubst <'a, E: nom::error::ParseError<&'a str>> ==> <'a>
//@sigsubst impl Fn(&'a str) -> IResult<&'a str, &'a str, E> ==> Parse<'a, &'a str>
    ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
        forall|i: &'a str, r: IResult<&'a str, &'a str>| #[trigger] p.rel(i, r) ==> takes(i, if starts_nc(i@, $1@) { Some($1@.len()) } else { None }, r),
//@closure 0
-> (o: IResult<&'a str, &'a str>) ensures takes($c1, if starts_nc($c1@, $1@) { Some($1@.len()) } else { None }, o)
//@bodystart
    proof { reveal(starts_nc); reveal(same_nc); }
    broadcast use {lemmas::positions};
//@end

//@fn parser::html::strict::comment ret=r
    ensures node_is(r, comment_at(i@)),
//@bodystart
    broadcast use {lemmas::seqs};
    proof { lemma_lits(); }
//@end
//@fn parser::html::strict::doctype ret=r
    ensures node_is(r, doctype_at(i@)),
//@bodystart
    broadcast use {lemmas::seqs};
    proof { lemma_lits(); lemmas::lemma_doctype_open(i@); }
//@end
//@fn parser::html::strict::start_tag ret=p wrap=parser
//@sigsubst <'a, F, E> ==> <'a, F>
//@sigsubst impl FnMut(&'a str) -> IResult<&'a str, (&'a str, Vec<(&'a str, &'a str)>, bool), E> ==> Parse<'a, (&'a str, Vec<(&'a str, &'a str)>, bool)>
//@sigsubst F: Parser<&'a str, &'a str, E>, E: nom::error::ParseError<&'a str>, ==> F: P<'a, &'a str>,
    requires shrinks($1),
    ensures shrinks(p), forall|n: nat| $1.ok(n) ==> #[trigger] p.ok(n),
        forall|i: &'a str, r: IResult<&'a str, (&'a str, Vec<(&'a str, &'a str)>, bool)>| #[trigger] p.rel(i, r) ==> started($1, i, r),
//@hoist |many0/separated_pair 2 *alt*is_not
pub fn vx_value<'a>() -> (p: Parse<'a, &'a str>)
    ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
        forall|j: &'a str, x: IResult<&'a str, &'a str>| #[trigger] p.rel(j, x) ==> quoted_is(x, value_at(j@)),
{
    broadcast use {lemmas::positions_only, lemmas::lemma_quoted_not};
    proof { lemma_lits(); lemma_sets(); reveal(quoted_at); reveal(value_at); }
    parser($EXPR)
}
//@hoist |many0/separated_pair 2 *alt!is_not
pub fn vx_quoted<'a>() -> (p: Parse<'a, &'a str>)
    ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
        forall|j: &'a str, x: IResult<&'a str, &'a str>| #[trigger] p.rel(j, x) ==> quoted_is(x, quoted_at(j@)),
{
    broadcast use {lemmas::positions_only};
    proof { lemma_lits(); reveal(quoted_at); }
    parser($EXPR)
}
//@hoist many0/preceded 1 0
pub fn vx_forms<'a>() -> (p: Parse<'a, (&'a str, &'a str)>)
    ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
        forall|j: &'a str, x: IResult<&'a str, (&'a str, &'a str)>| #[trigger] p.rel(j, x) ==> attr_is(x, attr_at(j@)),
{
    broadcast use {lemmas::positions_only, lemmas::lemma_quoted_not};
    proof { lemma_lits(); lemma_sets(); reveal(attr_at); reveal(value_at); }
    parser($EXPR)
}
//@hoist many0
pub fn vx_attribute<'a>() -> (p: Parse<'a, (&'a str, &'a str)>)
    ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
        forall|j: &'a str, x: IResult<&'a str, (&'a str, &'a str)>| #[trigger] p.rel(j, x) ==> attr_is(x, attr_at(skip_spaces(j@))),
{
    broadcast use {lemmas::positions_only};
    proof { lemma_lits(); lemma_sets(); }
    parser($EXPR)
}
//@bodystart
    broadcast use {lemmas::positions_only, lemmas::lemma_many_attrs};
    proof { lemma_lits(); lemma_sets(); reveal(after_name); }
//@end
//@fn parser::html::strict::end_tag ret=p wrap=parser
//@sigsubst <'a, E: nom::error::ParseError<&'a str>> ==> <'a>
//@sigsubst impl FnMut(&'a str) -> IResult<&'a str, &'a str, E> ==> Parse<'a, &'a str>
    ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
        forall|i: &'a str, r: IResult<&'a str, &'a str>| #[trigger] p.rel(i, r) ==> rest_is(r, end_at(i@, $1@)),
//@bodystart
    proof { reveal(end_at); }
    broadcast use {lemmas::seqs};
    proof { lemma_lits(); }
//@end
//@fn parser::html::strict::void ret=r
    ensures node_is(r, void_at(i@)),
//@closure 0
-> (o: HTMLNode<&str>) ensures o matches HTMLNode::Void { name, attrs } && name == $c1.0 && attrs_of(attrs) == map_of(chars_of($c1.1@))
//@hoist start_tag
pub fn vx_void_name<'a>() -> (p: Parse<'a, &'a str>)
    ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n), lists(p, void_names()),
{
    broadcast use {lemmas::lemma_void_prefix};
    parser($EXPR)
}
//@bodystart
    broadcast use {lemmas::seqs};
    proof { lemma_void_names(); lemma_listed($1@, void_names()); }
//@end
//@fn parser::html::strict::raw_element ret=r
    ensures node_is(r, raw_element_at(i@)),
//@hoist start_tag
pub fn vx_raw_name<'a>() -> (p: Parse<'a, &'a str>)
    ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n), lists(p, raw_names()),
{
    broadcast use {lemmas::lemma_raw_prefix};
    parser($EXPR)
}
//@hoist recognize
pub fn vx_raw_content<'a>(name: &'a str) -> (p: Parse<'a, usize>)
    ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
        forall|j: &'a str, x: IResult<&'a str, usize>| #[trigger] p.rel(j, x) ==> until_end(j@, name@, x),
{
    broadcast use {lemmas::lemma_many_chars, lemmas::lemma_end};
    parser($EXPR)
}
//@bodystart
    broadcast use {lemmas::seqs, lemmas::rests, lemmas::lemma_trim_empty};
    proof { lemma_lits(); reveal(raw_at); lemma_raw_names(); lemma_listed($1@, raw_names()); }
//@end
//@fn parser::html::strict::element ret=r
//@sigsubst fn element ==> fn element<'a>
//@sigsubst : &str ==> : &'a str
//@sigsubst IResult<&str, ==> IResult<&'a str,
//@sigsubst HTMLNode<&str> ==> HTMLNode<&'a str>
    ensures node_is(r, element_at(i@)),
    decreases i@.len(), 0nat,
//@bodystart
    proof { reveal(start_at); }
    broadcast use {lemmas::seqs, lemmas::rests};
//@end
//@fn parser::html::strict::text ret=r
    ensures node_is(r, text_at(i@)),
//@bodystart
    proof { lemma_sets(); lemma_lits(); lemma_find_text(i@); lemma_boundary_end(i@); }
    broadcast use {lemmas::positions};
//@end
//@fn parser::html::strict::single ret=r
//@sigsubst fn single ==> fn single<'a>
//@sigsubst : &str ==> : &'a str
//@sigsubst IResult<&str, ==> IResult<&'a str,
//@sigsubst HTMLNode<&str> ==> HTMLNode<&'a str>
    ensures node_is(r, node_at(i@)),
    decreases i@.len(), 1nat,
//@bodystart
    broadcast use {lemmas::alternatives};
//@end
//@fn parser::html::strict::parse ret=r
//@sigsubst fn parse ==> fn parse<'a>
//@sigsubst : &str ==> : &'a str
//@sigsubst IResult<&str, ==> IResult<&'a str,
//@sigsubst HTMLNode<&str> ==> HTMLNode<&'a str>
    ensures nodes_are(r, nodes_at(i@)),
    decreases i@.len(), 2nat,
//@bodystart
        broadcast use {lemmas::lemma_many_nodes, lemmas::lemma_node};
//@end
//@fn parser::html::strict::escape_ref ret=r opt
//@subst u32::from_str_radix ==> vx_u32_from_str_radix
//@subst char::from_u32 ==> vx_char_from_u32
    requires is_ref($1@),
    ensures match meaning($1@) { Some(v) => r matches Some(c) && c@ == v, None => r is None },
//@bodystart
    proof { lemma_meaning($1@); }
//@end
//@fn parser::html::strict::escape_text ret=r loops=1
    ensures r@ == decode($1@),
//@iter 0 it
//@loop 0
    invariant
        0 <= p <= $1@.len(), boundary($1@, $local{0} as nat, p),
        it.seq().len() == refs($1@, 0).len(),
        forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]).hay() == $1@ && it.seq()[k].at() == refs($1@, 0)[k],
        refs($1@, p) == refs($1@, 0).skip(it.index() as int),
        $local{String::}@ + decoded($1@, p) == decode($1@),
//@loopstart
    broadcast use lemmas::positions;
    let ghost n0 = $local{String::}@;
    proof {
        lemma_refs($1@, p);
        assert(refs($1@, p)[0] == refs($1@, 0)[it.index() as int]);
    }
//@loopend
    proof {
        let (a, b) = refs($1@, 0)[it.index() as int];
        assert($local{String::}@ + decoded($1@, b) =~= n0 + decoded($1@, p));
        p = b;
    }
//@bodystart
    broadcast use lemmas::positions;
    let ghost mut p = 0int;
    proof { lemmas::lemma_escapes($1@); lemma_refs($1@, 0); lemma_no_refs($1@, 0); assert($1@.skip(0) =~= $1@); assert($1@.take(0) =~= Seq::<char>::empty()); }
//@tail
    proof { lemma_refs($1@, p); }
//@end
//@fn parser::html::strict::escape_attrs ret=r
    ensures attrs_of(r) == decode_values(attrs_of($1)),
//@closure 0
-> (o: (Cow<'a, str>, Cow<'a, str>)) ensures o.0@ == $c1.0@, o.1@ == decode($c1.1@)
//@bodystart
    broadcast use lemmas::lemma_decode_values;
//@end
//@fnvalue escape_node
|j: HTMLNode<&'a str>| -> (o: HTMLNode<Cow<'a, str>>) requires decreases_to!($1 => j) ensures forall|t: T| #[trigger] is(j, t) ==> out(o, t) { escape_node(j) }
//@end
//@fn parser::html::strict::escape_node ret=r
//@sigsubst fn escape_node ==> fn escape_node<'a>
//@sigsubst HTMLNode<&str> ==> HTMLNode<&'a str>
//@sigsubst Cow<str> ==> Cow<'a, str>
//@subst #[allow(clippy::enum_glob_use)] use HTMLNode::*; ==>
    ensures forall|t: T| #[trigger] is($1, t) ==> out(r, t),
    decreases $1,
//@bodystart
    broadcast use lemmas::lemma_is;
//@end
//@fnvalue escape_node
|j: HTMLNode<&'a str>| -> (o: HTMLNode<Cow<'a, str>>) ensures forall|t: T| #[trigger] is(j, t) ==> out(o, t) { escape_node(j) }
//@end
//@fn parser::html::strict::parse_escaped ret=r
//@sigsubst fn parse_escaped ==> fn parse_escaped<'a>
//@sigsubst : &str ==> : &'a str
//@sigsubst IResult<&str, ==> IResult<&'a str,
//@sigsubst Cow<str> ==> Cow<'a, str>
    ensures r matches Ok(z) && z.0@ == nodes_at($1@).1 && all_out(z.1@, nodes_at($1@).0),
//@end
//@type parser::html::strict::StrictHTMLParser
//@typesubst PhantomData ==> Phantom
impl<'a> StrictHTMLParser<'a> {
//@fn parser::html::strict::<Parser for StrictHTMLParser>::parse ret=r
//@sigsubst Self::Node ==> HTMLNode<Cow<'a, str>>
//@sigsubst Self::Error ==> nom::Err<E>
    ensures result_is(r, $1@),
//@bodystart
    broadcast use lemmas::lemma_nodes_rest;
//@end
}
//@helpers
}
}
fn main() {}
