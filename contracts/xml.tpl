// unit xml: src/parser/xml/mod.rs
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::io::Read;
use xmltree::Namespace;
verus! {
//@include std_more.inc
//@include std_cut.inc

// ---- mirror of the reader's types (xmltree 0.11; the harness compiles the code against the real ones)
pub mod xmltree {
    use vstd::prelude::*;
    use std::collections::BTreeMap;
    pub enum XMLNode {
        Element(Element),
        Comment(String),
        CData(String),
        Text(String),
        ProcessingInstruction(String, Option<String>),
    }
    pub struct Element {
        pub prefix: Option<String>,
        pub namespace: Option<String>,
        pub namespaces: Option<Namespace>,
        pub name: String,
        pub attributes: AttributeMap<String, String>,
        pub children: Vec<XMLNode>,
    }
    pub struct Namespace(pub BTreeMap<String, String>);
    #[verifier::external_body]
    pub struct ParseError { _p: () }

    /// a hash map: a finite map from names to values
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct AttributeMap<K, V> { _k: Vec<(K, V)> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct Pairs<K, V> { _k: Vec<(K, V)> }
    impl<K, V> AttributeMap<K, V> {
        pub uninterp spec fn pairs(self) -> Map<K, V>;
        /// into_iter yields every pair once, in some order ...
        #[verifier::external_body]
        pub fn into_iter(self) -> (r: Pairs<K, V>)
            ensures r.pairs() == self.pairs(),
        { unimplemented!() }
    }
    impl<K, V> Pairs<K, V> {
        pub uninterp spec fn pairs(self) -> Map<K, V>;
        /// ... and collecting pairs with different keys into a map keeps them all
        #[verifier::external_body]
        pub fn collect(self) -> (r: BTreeMap<K, V>)
            ensures r@ == self.pairs(),
        { unimplemented!() }
    }
    /// what the reader makes of an input
    pub uninterp spec fn reads<R>(input: R, out: Result<Vec<XMLNode>, ParseError>) -> bool;
    impl Element {
        #[verifier::external_body]
        pub fn parse_all<R>(r: R) -> (out: Result<Vec<XMLNode>, ParseError>)
            ensures reads(r, out),
        { unimplemented!() }
    }
    // conversions by into(): the blanket impl calls the From impl
    impl Element {
        pub fn into(self) -> (r: crate::XMLElement)
            ensures crate::same_element(self, r),
            decreases self, 1nat,
        { crate::XMLElement::from(self) }
    }
    impl XMLNode {
        pub fn into(self) -> (r: crate::XMLNode)
            ensures crate::same_node(self, r),
            decreases self, 1nat,
        { crate::XMLNode::from(self) }
    }
}

//@include node_trait.inc

//@type parser::xml::XMLElement
//@type parser::xml::XMLNode
//@type parser::xml::XMLParser

// ---- C12: node for node the same
pub open spec fn same_node(x: xmltree::XMLNode, r: XMLNode) -> bool
    decreases x, 0nat
{
    match (x, r) {
        (xmltree::XMLNode::Element(a), XMLNode::Element(b)) => same_element(a, b),
        (xmltree::XMLNode::Comment(a), XMLNode::Comment(b)) => a == b,
        (xmltree::XMLNode::CData(a), XMLNode::CData(b)) => a == b,
        (xmltree::XMLNode::Text(a), XMLNode::Text(b)) => a == b,
        (xmltree::XMLNode::ProcessingInstruction(a, c), XMLNode::ProcessingInstruction(b, d)) => a == b && c == d,
        _ => false,
    }
}
pub open spec fn same_element(x: xmltree::Element, r: XMLElement) -> bool
    decreases x, 0nat
{
    &&& r.prefix == x.prefix
    &&& r.namespace == x.namespace
    &&& r.namespaces == x.namespaces
    &&& r.name == x.name
    &&& r.attributes@ == x.attributes.pairs()
    &&& r.children@.len() == x.children@.len()
    &&& forall|i: int| 0 <= i < x.children@.len() ==> same_node(#[trigger] x.children@[i], r.children@[i])
}

impl XMLElement {
//@fn parser::xml::<From<Element> for XMLElement>::from ret=r
//@subst .map(Into::into) ==> .map(|vx_e| vx_e.into())
//@subst .map(XMLNode::from) ==> .map(|vx_e| vx_e.into())
    ensures same_element($1, r),
    decreases $1, 0nat,
//@closure 0
-> (o: XMLNode) requires exists|i: int| 0 <= i < $1.children@.len() && $c1 == #[trigger] $1.children@[i] ensures same_node($c1, o)
//@end
}
impl XMLNode {
//@fn parser::xml::<From<XMLNode> for XMLNode>::from ret=r
    ensures same_node($1, r),
    decreases $1, 0nat,
//@end
}

pub trait Parser {
    type Input;
    type Node: Node;
    type Error;
}
/// stands for the reader type: closures inside generic functions are out of Verus' reach, so the type parameter is
/// represented by an opaque type about which nothing is known
#[verifier::external_body]
pub struct AnyReader { _p: () }
impl XMLParser<AnyReader> {
//@fn parser::xml::<Parser for XMLParser>::parse ret=r
//@sigsubst R ==> AnyReader
//@sigsubst Vec<Self::Node> ==> Vec<XMLNode>
//@sigsubst Self::Error ==> xmltree::ParseError
//@subst .map(Into::into) ==> .map(|vx_e| vx_e.into())
//@subst .map(XMLNode::from) ==> .map(|vx_e| vx_e.into())
//@subst .map(Self::Node::from) ==> .map(|vx_e| vx_e.into())
    ensures
        r matches Err(e) ==> xmltree::reads($1, Err(e)),
        r matches Ok(w) ==> exists|out: Result<Vec<xmltree::XMLNode>, xmltree::ParseError>| #[trigger] xmltree::reads($1, out)
            && (out matches Ok(v) && w@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> same_node(v@[i], #[trigger] w@[i])),
//@closure 0
-> (o: XMLNode) ensures same_node($c1, o)
//@end
}

// ---- C11: the accessors
pub open spec fn kids(n: XMLNode) -> Seq<XMLNode> {
    match n { XMLNode::Element(e) => e.children@, _ => Seq::empty() }
}
pub open spec fn height(n: XMLNode) -> nat
    decreases n, kids(n).len() + 1
{
    match n { XMLNode::Element(e) => 1 + height_of(n, e.children@.len()), _ => 0 }
}
pub open spec fn height_of(n: XMLNode, k: nat) -> nat
    decreases n, k
{
    match n {
        XMLNode::Element(e) => if 0 < k <= e.children@.len() {
            let a = height(e.children@[k - 1]); let b = height_of(n, (k - 1) as nat);
            if a > b { a } else { b }
        } else { 0 },
        _ => 0,
    }
}
proof fn lemma_height_of(n: XMLNode, k: nat, i: int)
    requires 0 <= i < k <= kids(n).len(),
    ensures height(kids(n)[i]) <= height_of(n, k),
    decreases k,
{
    if i < k - 1 { lemma_height_of(n, (k - 1) as nat, i); }
}
proof fn lemma_xml_height(n: XMLNode)
    ensures forall|i: int| 0 <= i < kids(n).len() ==> height(#[trigger] kids(n)[i]) < height(n),
{
    assert forall|i: int| 0 <= i < kids(n).len() implies height(#[trigger] kids(n)[i]) < height(n) by {
        lemma_height_of(n, kids(n).len(), i);
    }
}
impl Node for XMLNode {
    type Text = String;
    open spec fn s_name(&self) -> Option<String> {
        match *self {
            XMLNode::Element(e) => Some(e.name),
            XMLNode::Comment(_) | XMLNode::CData(_) | XMLNode::Text(_) | XMLNode::ProcessingInstruction(_, _) => None,
        }
    }
    open spec fn s_text(&self) -> Option<String> {
        match *self { XMLNode::Text(t) => Some(t), _ => None }
    }
    open spec fn s_attrs(&self) -> Option<BTreeMap<String, String>> {
        match *self {
            XMLNode::Element(e) => Some(e.attributes),
            XMLNode::Comment(_) | XMLNode::CData(_) | XMLNode::Text(_) | XMLNode::ProcessingInstruction(_, _) => None,
        }
    }
    open spec fn s_children(&self) -> Seq<Self> { kids(*self) }
    open spec fn s_height(&self) -> nat { height(*self) }
    proof fn lemma_height(&self, i: int) { lemma_xml_height(*self); }

//@fn parser::xml::<Node for XMLNode>::name ret=r novis
//@end
//@fn parser::xml::<Node for XMLNode>::text ret=r novis
//@end
//@fn parser::xml::<Node for XMLNode>::attrs ret=r novis
//@end
//@fn parser::xml::<Node for XMLNode>::children ret=r novis
//@bodystart
    proof { lemma_xml_height(*self); }
//@end
}
impl XMLNode {
//@fn parser::xml::XMLNode::iter ret=r
    ensures IteratorSpec::remaining(&r).unref() =~= self.s_children(),
//@end
//@fn parser::xml::<IntoIterator for &XMLNode>::into_iter ret=r
//@sigsubst (self) ==> (&self)
//@sigsubst Self::IntoIter ==> std::slice::Iter<'_, XMLNode>
    ensures IteratorSpec::remaining(&r).unref() =~= self.s_children(),
//@end
}
//@helpers
}
fn main() {}
