// unit html: src/parser/html/node.rs
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::BTreeMap;
verus! {
//@include std_more.inc
//@include std_cut.inc

//@include node_trait.inc

//@type parser::html::node::HTMLNode

/// Nesting depth of the tree below a node: a value is finite.
pub open spec fn height<S>(n: HTMLNode<S>) -> nat
    decreases n, kids(n).len() + 1
{
    match n { HTMLNode::Element { children, .. } => 1 + height_of(n, children@.len()), _ => 0 }
}
pub open spec fn height_of<S>(n: HTMLNode<S>, k: nat) -> nat
    decreases n, k
{
    match n {
        HTMLNode::Element { children, .. } => if 0 < k <= children@.len() {
            let a = height(children@[k - 1]); let b = height_of(n, (k - 1) as nat);
            if a > b { a } else { b }
        } else { 0 },
        _ => 0,
    }
}
pub open spec fn kids<S>(n: HTMLNode<S>) -> Seq<HTMLNode<S>> {
    match n { HTMLNode::Element { children, .. } => children@, _ => Seq::empty() }
}
proof fn lemma_height_of<S>(n: HTMLNode<S>, k: nat, i: int)
    requires 0 <= i < k <= kids(n).len(),
    ensures height(kids(n)[i]) <= height_of(n, k),
    decreases k,
{
    if i < k - 1 { lemma_height_of(n, (k - 1) as nat, i); }
}
proof fn lemma_html_height<S>(n: HTMLNode<S>)
    ensures forall|i: int| 0 <= i < kids(n).len() ==> height(#[trigger] kids(n)[i]) < height(n),
{
    assert forall|i: int| 0 <= i < kids(n).len() implies height(#[trigger] kids(n)[i]) < height(n) by {
        lemma_height_of(n, kids(n).len(), i);
    }
}

// ---- what the accessors have to say about each kind of node
impl<S> Node for HTMLNode<S> {
    type Text = S;
    open spec fn s_name(&self) -> Option<S> {
        match *self {
            HTMLNode::Element { name, .. } => Some(name),
            HTMLNode::RawElement { name, .. } => Some(name),
            HTMLNode::Void { name, .. } => Some(name),
            HTMLNode::Comment(_) | HTMLNode::Doctype(_) | HTMLNode::Text(_) => None,
        }
    }
    open spec fn s_text(&self) -> Option<S> {
        match *self { HTMLNode::Text(t) => Some(t), _ => None }
    }
    open spec fn s_attrs(&self) -> Option<BTreeMap<S, S>> {
        match *self {
            HTMLNode::Element { attrs, .. } => Some(attrs),
            HTMLNode::RawElement { attrs, .. } => Some(attrs),
            HTMLNode::Void { attrs, .. } => Some(attrs),
            HTMLNode::Comment(_) | HTMLNode::Doctype(_) | HTMLNode::Text(_) => None,
        }
    }
    open spec fn s_children(&self) -> Seq<Self> { kids(*self) }
    open spec fn s_height(&self) -> nat { height(*self) }
    proof fn lemma_height(&self, i: int) { lemma_html_height(*self); }

//@fn parser::html::node::<Node for HTMLNode>::name ret=r novis
//@end
//@fn parser::html::node::<Node for HTMLNode>::text ret=r novis
//@end
//@fn parser::html::node::<Node for HTMLNode>::attrs ret=r novis
//@end
//@fn parser::html::node::<Node for HTMLNode>::children ret=r novis
//@bodystart
    proof { lemma_html_height(*self); }
//@end
}

impl<S> HTMLNode<S> {
//@fn parser::html::node::HTMLNode::iter ret=r
    ensures IteratorSpec::remaining(&r).unref() =~= self.s_children(),
//@end
}
impl<S> HTMLNode<S> {
//@fn parser::html::node::<IntoIterator for &HTMLNode>::into_iter ret=r
//@sigsubst (self) ==> (&self)
//@sigsubst Self::IntoIter ==> std::slice::Iter<'_, HTMLNode<S>>
    ensures IteratorSpec::remaining(&r).unref() =~= self.s_children(),
//@end
}
//@helpers
}
fn main() {}
