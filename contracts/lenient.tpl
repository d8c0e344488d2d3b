// unit lenient: src/parser/html/lenient.rs
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use std::collections::BTreeMap;
use std::convert::Infallible;
use std::marker::PhantomData;
verus! {
//@include std_more.inc
//@include std_cut.inc

// ---- mirrors of the parts of scraper 0.22 and ego-tree 0.10 that are used (assumed; the harness compiles the code
// against the real ones)
pub struct DomTree {
    pub value: scraper::Node,
    pub kids: Seq<DomTree>,
}
pub mod scraper {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::*;
    /// a text: determined by its characters
    #[verifier::external_body]
    pub struct StrTendril { s: String }
    impl View for StrTendril { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    pub uninterp spec fn tendril(c: Seq<char>) -> StrTendril;
    pub broadcast axiom fn axiom_tendril(c: Seq<char>) ensures (#[trigger] tendril(c))@ == c;
    impl Clone for StrTendril {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
    impl<'a> FromSpecImpl<&'a str> for StrTendril {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(s: &'a str) -> Self { tendril(s@) }
    }
    impl<'a> From<&'a str> for StrTendril {
        #[verifier::external_body]
        fn from(s: &'a str) -> (r: Self) { unimplemented!() }
    }
    pub enum Node {
        Document,
        Fragment,
        Doctype(Doctype),
        Comment(Comment),
        Text(Text),
        Element(Element),
        ProcessingInstruction(ProcessingInstruction),
    }
    pub struct Doctype { pub name: StrTendril, pub public_id: StrTendril, pub system_id: StrTendril }
    pub struct Comment { pub comment: StrTendril }
    pub struct Text { pub text: StrTendril }
    pub struct ProcessingInstruction { pub target: StrTendril, pub data: StrTendril }
    #[verifier::external_body]
    pub struct Element { _p: () }
    impl Element {
        pub uninterp spec fn s_name(self) -> Seq<char>;
        /// local names and values, in the order of attrs()
        pub uninterp spec fn s_attrs(self) -> Seq<(&'static str, &'static str)>;
        #[verifier::external_body]
        pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
        #[verifier::external_body]
        pub fn attrs<'a>(&'a self) -> (r: Items<(&'a str, &'a str)>) ensures r.items() == self.s_attrs() { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Html0 { _p: () }
    pub struct Html { pub tree: Tree }
    #[verifier::external_body]
    pub struct Tree { _p: () }
    impl Tree {
        pub uninterp spec fn s_root(self) -> DomTree;
        #[verifier::external_body]
        pub fn root<'a>(&'a self) -> (r: ego_tree::NodeRef<'a, Node>) ensures r.tree() == self.s_root() { unimplemented!() }
    }
    /// the tree the HTML5 algorithm builds for a text
    pub uninterp spec fn html5(text: Seq<char>) -> DomTree;
    impl Html {
        #[verifier::external_body]
        pub fn parse_document(text: &str) -> (r: Html) ensures r.tree.s_root() == html5(text@) { unimplemented!() }
    }
}
pub mod ego_tree {
    use vstd::prelude::*;
    use crate::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct NodeRef<'a, T: 'a> { p: &'a T }
    impl<'a> NodeRef<'a, scraper::Node> {
        pub uninterp spec fn tree(self) -> DomTree;
        #[verifier::external_body]
        pub fn value(&self) -> (r: &'a scraper::Node) ensures *r == self.tree().value { unimplemented!() }
        #[verifier::external_body]
        pub fn has_children(&self) -> (r: bool) ensures r == (self.tree().kids.len() > 0) { unimplemented!() }
        #[verifier::external_body]
        pub fn children(&self) -> (r: Items<NodeRef<'a, scraper::Node>>)
            ensures r.items().len() == self.tree().kids.len(),
                forall|i: int| 0 <= i < r.items().len() ==> (#[trigger] r.items()[i]).tree() == self.tree().kids[i],
        { unimplemented!() }
        /// try_into: the blanket impl calls the TryFrom impl
        pub fn try_into(self) -> (r: Result<HTMLNode<scraper::StrTendril>, ()>)
            ensures mirrors(self.tree(), r.ok()),
            decreases self.tree(), 1nat,
        { HTMLNode::try_from(self) }
    }
}
broadcast use scraper::axiom_tendril;

// ---- shims of the iterator adapters used (assumed: what std documents for pure closures)
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct Items<B> { v: Vec<B> }
impl<B> Items<B> {
    pub uninterp spec fn items(self) -> Seq<B>;
    #[verifier::external_body]
    pub fn map<C, F: Fn(B) -> C>(self, f: F) -> (r: Items<C>)
        requires forall|k: int| 0 <= k < self.items().len() ==> f.requires((#[trigger] self.items()[k],)),
        ensures r.items().len() == self.items().len(),
            forall|k: int| 0 <= k < self.items().len() ==> f.ensures((self.items()[k],), #[trigger] r.items()[k]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<C, F: Fn(B) -> Option<C>>(self, f: F) -> (r: Items<C>)
        requires forall|k: int| 0 <= k < self.items().len() ==> f.requires((#[trigger] self.items()[k],)),
        ensures exists|o: Seq<Option<C>>| #[trigger] somes(o) == r.items() && o.len() == self.items().len()
            && forall|k: int| 0 <= k < o.len() ==> f.ensures((self.items()[k],), #[trigger] o[k]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<V: FromItems<B>>(self) -> (r: V)
        ensures r.from_items(self.items()),
    { unimplemented!() }
}
pub trait FromItems<B> { spec fn from_items(&self, s: Seq<B>) -> bool; }
impl<B> FromItems<B> for Vec<B> { open spec fn from_items(&self, s: Seq<B>) -> bool { self@ == s } }
impl<K, V> FromItems<(K, V)> for BTreeMap<K, V> { open spec fn from_items(&self, s: Seq<(K, V)>) -> bool { self@ == map_of(s) } }
/// The values present, in order.
pub open spec fn somes<B>(o: Seq<Option<B>>) -> Seq<B>
    decreases o.len()
{
    if o.len() == 0 { Seq::empty() }
    else { somes(o.drop_last()) + (match o.last() { Some(b) => seq![b], None => Seq::empty() }) }
}
/// A map collected from pairs: the last one of a name counts.
pub open spec fn map_of<K, V>(s: Seq<(K, V)>) -> Map<K, V>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0, s.last().1) }
}

//@type parser::html::node::HTMLNode
//@type parser::html::lenient::LenientHTMLParser

// ---- C13
pub open spec fn void_name(n: Seq<char>) -> bool {
    n == "area"@ || n == "base"@ || n == "br"@ || n == "col"@ || n == "embed"@ || n == "hr"@ || n == "img"@ || n == "input"@
        || n == "link"@ || n == "meta"@ || n == "source"@ || n == "track"@ || n == "wbr"@
}
/// The attributes of the element, name by name.
pub open spec fn same_attrs(e: scraper::Element, m: BTreeMap<scraper::StrTendril, scraper::StrTendril>) -> bool {
    exists|s: Seq<(scraper::StrTendril, scraper::StrTendril)>| #[trigger] map_of(s) == m@ && s.len() == e.s_attrs().len()
        && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (scraper::tendril(e.s_attrs()[i].0@), scraper::tendril(e.s_attrs()[i].1@))
}
/// o is what has to become of the tree t (None: left out).
pub open spec fn mirrors(t: DomTree, o: Option<HTMLNode<scraper::StrTendril>>) -> bool
    decreases t, 0nat
{
    match t.value {
        scraper::Node::Document | scraper::Node::Fragment | scraper::Node::ProcessingInstruction(_) => o is None,
        scraper::Node::Doctype(d) => o == Some(HTMLNode::Doctype(d.name)),
        scraper::Node::Comment(c) => o == Some(HTMLNode::Comment(c.comment)),
        scraper::Node::Text(x) => o == Some(HTMLNode::Text(x.text)),
        scraper::Node::Element(e) =>
            if void_name(e.s_name()) && t.kids.len() == 0 {
                o matches Some(HTMLNode::Void { name, attrs }) && name == scraper::tendril(e.s_name()) && same_attrs(e, attrs)
            } else {
                o matches Some(HTMLNode::Element { name, attrs, children }) && name == scraper::tendril(e.s_name()) && same_attrs(e, attrs)
                    && exists|k: Seq<Option<HTMLNode<scraper::StrTendril>>>| #[trigger] somes(k) == children@ && k.len() == t.kids.len()
                        && forall|i: int| 0 <= i < t.kids.len() ==> mirrors(t.kids[i], #[trigger] k[i])
            },
    }
}

impl HTMLNode<scraper::StrTendril> {
//@fn parser::html::lenient::<TryFrom<NodeRef> for HTMLNode>::try_from ret=r
//@sigsubst Self::Error ==> ()
//@sigsubst fn try_from ==> fn try_from<'a>
    ensures mirrors($1.tree(), r.ok()),
    decreases $1.tree(), 0nat,
//@closure 0
-> (o: (scraper::StrTendril, scraper::StrTendril)) ensures o == (scraper::tendril($c1.0@), scraper::tendril($c1.1@))
//@closure 1
-> (o: Option<HTMLNode<scraper::StrTendril>>) requires exists|i: int| 0 <= i < $1.tree().kids.len() && $c1.tree() == #[trigger] $1.tree().kids[i] ensures mirrors($c1.tree(), o)
//@end
}

/// stands for the type of the text
#[verifier::external_body]
pub struct AnyText { _p: () }
impl AnyText {
    pub uninterp spec fn chars(self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self.chars() { unimplemented!() }
}
impl LenientHTMLParser<AnyText> {
//@fn parser::html::lenient::<Parser for LenientHTMLParser>::parse ret=r
//@sigsubst text: S ==> text: AnyText
//@sigsubst Self::Node ==> HTMLNode<scraper::StrTendril>
//@sigsubst Self::Error ==> Infallible
    ensures r matches Ok(v) && exists|k: Seq<Option<HTMLNode<scraper::StrTendril>>>| #[trigger] somes(k) == v@
        && ({ let t = scraper::html5($1.chars()); k.len() == t.kids.len() && forall|i: int| 0 <= i < t.kids.len() ==> mirrors(t.kids[i], #[trigger] k[i]) }),
//@closure 0
-> (o: Option<HTMLNode<scraper::StrTendril>>) ensures mirrors($c1.tree(), o)
//@end
}
//@helpers
}
fn main() {}
