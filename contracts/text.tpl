// unit text: Node::get, Node::all_text (src/node.rs)
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::convert::FromSpec;
use vstd::std_specs::btree::*;
use vstd::laws_cmp::*;
use std::collections::BTreeMap;
verus! {
//@include std_more.inc
//@include std_cut.inc

//@include node_trait.inc

//@type node::NodeIter

//@include node_iter_ghost.inc

//@implhead node::NodeIter::tree
{
//@fn node::NodeIter::tree ret=r ext
    ensures r.rem() == preorder(*$1),
//@end
}

// ---- shims of the iterator adapters used (assumed: what std documents for pure closures)
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct Items<B> { v: Vec<B> }
impl<B> Items<B> {
    pub uninterp spec fn items(self) -> Seq<B>;
    #[verifier::external_body]
    pub fn map<C, F: Fn(B) -> C>(self, f: F) -> (r: Items<C>)
        requires forall|k: int| 0 <= k < self.items().len() ==> f.requires((#[trigger] self.items()[k],)),
        ensures r.items().len() == self.items().len(),
            forall|k: int| 0 <= k < self.items().len() ==> f.ensures((self.items()[k],), #[trigger] r.items()[k]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<V: FromItems<B>>(self) -> (r: V)
        ensures r.from_items() == self.items(),
    { unimplemented!() }
}
pub trait FromItems<B> { spec fn from_items(&self) -> Seq<B>; }
impl<B> FromItems<B> for Vec<B> { open spec fn from_items(&self) -> Seq<B> { self@ } }

impl<'x, N: Node> NodeIter<'x, N> {
    #[verifier::external_body]
    pub fn filter_map<B, F: Fn(&'x N) -> Option<B>>(self, f: F) -> (r: Items<B>)
        requires forall|k: int| 0 <= k < self.rem().len() ==> f.requires((&#[trigger] self.rem()[k],)),
        ensures exists|o: Seq<Option<B>>| #[trigger] somes(o) == r.items() && o.len() == self.rem().len()
            && forall|k: int| 0 <= k < o.len() ==> f.ensures((&self.rem()[k],), #[trigger] o[k]),
    { unimplemented!() }
}
/// The values present, in order.
pub open spec fn somes<B>(o: Seq<Option<B>>) -> Seq<B>
    decreases o.len()
{
    if o.len() == 0 { Seq::empty() }
    else { somes(o.drop_last()) + (match o.last() { Some(b) => seq![b], None => Seq::empty() }) }
}
/// The texts separated by the given separator.
pub open spec fn joined(s: Seq<String>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.len() == 1 { s[0]@ }
    else { joined(s.drop_last(), sep) + sep + s.last()@ }
}
pub trait JoinTexts { fn join(&self, sep: &str) -> (r: String); }
impl JoinTexts for Vec<String> {
    #[verifier::external_body]
    fn join(&self, sep: &str) -> (r: String)
        ensures r@ == joined(self@, sep@),
    { unimplemented!() }
}

// ---- the property
/// The texts carried by the nodes of a sequence, in order.
pub open spec fn texts<N: Node>(s: Seq<N>) -> Seq<N::Text>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { texts(s.drop_last()) + (match s.last().s_text() { Some(t) => seq![t], None => Seq::empty() }) }
}
/// r is what Display prints for the texts, joined by line breaks.
pub open spec fn printed<T: std::fmt::Display>(ts: Seq<T>, r: String) -> bool {
    exists|p: Seq<String>| p.len() == ts.len()
        && (forall|k: int| 0 <= k < ts.len() ==> vstd::string::to_string_from_display_ensures::<T>(&ts[k], #[trigger] p[k]))
        && r@ == #[trigger] joined(p, "\n"@)
}
proof fn lemma_texts<'x, N: Node>(s: Seq<N>, o: Seq<Option<&'x N::Text>>)
    requires o.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] o[k] == opt_ref(s[k].s_text()),
    ensures somes(o).len() == texts(s).len(), forall|k: int| 0 <= k < texts(s).len() ==> *#[trigger] somes(o)[k] == texts(s)[k],
    decreases s.len(),
{
    if s.len() > 0 {
        let n = s.len() - 1;
        assert(o[n] == opt_ref(s[n].s_text()));
        lemma_texts(s.drop_last(), o.drop_last());
    }
}
/// No text at all: the empty text; and exactly one: that text.
proof fn lemma_joined_ends(s: Seq<String>, sep: Seq<char>)
    ensures s.len() == 0 ==> joined(s, sep).len() == 0, s.len() == 1 ==> joined(s, sep) == s[0]@,
{}

pub trait NodeExt: Node {
//@fn node::Node::descendants ret=r novis sigonly
        ensures r.rem() == preorder(*self),
//@end
//@fn node::Node::all_text ret=r novis sigonly
        ensures printed(texts(preorder(*self)), r),
//@end
//@fn node::Node::get ret=r novis sigonly
        requires obeys_cmp::<Self::Text>(), <Self::Text as FromSpec<&'a Q>>::obeys_from_spec(),
        ensures r == (match self.s_attrs() {
            None => None,
            Some(m) => ({ let key = <Self::Text as FromSpec<&'a Q>>::from_spec($1);
                if m@.contains_key(key) { Some(&m@[key]) } else { None } }),
        }),
//@end
}
impl<T: Node> NodeExt for T {
//@fn node::Node::descendants ret=r novis ext
//@end
//@fn node::Node::all_text ret=r novis
//@subst .map(ToString::to_string) ==> .map(|vx_t| vx_t.to_string())
//@subst .filter_map(Node::text) ==> .filter_map(|vx_n| vx_n.text())
//@subst .filter_map(Self::text) ==> .filter_map(|vx_n| vx_n.text())
//@closure 0
-> (o: Option<&Self::Text>) ensures o == opt_ref($c1.s_text())
//@closure 1
-> (o: String) ensures vstd::string::to_string_from_display_ensures::<Self::Text>($c1, o)
//@bodystart
    assert forall|s: Seq<T>, o: Seq<Option<&T::Text>>| #![trigger somes(o), texts(s)]
        o.len() == s.len() && (forall|k: int| 0 <= k < s.len() ==> #[trigger] o[k] == opt_ref(s[k].s_text())) implies
        somes(o).len() == texts(s).len() && forall|k: int| 0 <= k < texts(s).len() ==> *#[trigger] somes(o)[k] == texts(s)[k]
        by { lemma_texts(s, o); }
//@end
//@fn node::Node::get ret=r novis opt
//@bodystart
    broadcast use axiom_key_obeys_cmp_spec_meaning;
//@end
}
//@helpers
}
fn main() {}
