//! C10, C11: accessors of the built-in node types
use std::collections::BTreeMap;

use soupy::{
    parser::{HTMLNode, XMLElement, XMLNode},
    prelude::*,
};

use crate::cx::{Cx, Rng};

fn map(r: &mut Rng) -> BTreeMap<String, String> {
    (0..r.below(4)).map(|_| (s(r), (*r.pick(&["", "x", "y", "a", "class"])).to_string())).collect()
}
fn s(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        return crate::tree::word(r).to_string();
    }
    (*r.pick(&["div", "br", "script", "", "x", "text", "y\nz", "\n", "id"])).to_string()
}

pub fn html(r: &mut Rng, depth: usize) -> HTMLNode<String> {
    match r.below(if depth == 0 { 5 } else { 9 }) {
        0 => HTMLNode::Comment(s(r)),
        1 => HTMLNode::Doctype(s(r)),
        2 => HTMLNode::Text(s(r)),
        3 => HTMLNode::Void { name: s(r), attrs: map(r) },
        4 => HTMLNode::RawElement { name: s(r), attrs: map(r), content: s(r) },
        _ => HTMLNode::Element {
            name: s(r),
            attrs: map(r),
            children: (0..r.below(4)).map(|_| html(r, depth - 1)).collect(),
        },
    }
}

fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what} gives {got:?}, expected {want:?}")) }
}

fn html_node(n: &HTMLNode<String>) -> Result<(), String> {
    let (name, attrs, text, kids): (Option<&String>, Option<&BTreeMap<String, String>>, Option<&String>, &[HTMLNode<String>]) = match n {
        HTMLNode::Comment(_) | HTMLNode::Doctype(_) => (None, None, None, &[]),
        HTMLNode::Text(t) => (None, None, Some(t), &[]),
        HTMLNode::Void { name, attrs } | HTMLNode::RawElement { name, attrs, .. } => (Some(name), Some(attrs), None, &[]),
        HTMLNode::Element { name, attrs, children } => (Some(name), Some(attrs), None, children),
    };
    eq("name", n.name(), name)?;
    eq("attrs", n.attrs(), attrs)?;
    eq("text", n.text(), text)?;
    eq("children", n.children(), kids)?;
    let p = |v: &[HTMLNode<String>]| v.iter().map(|x| x as *const _).collect::<Vec<_>>();
    eq("iter", n.iter().map(|x| x as *const _).collect::<Vec<_>>(), p(kids))?;
    let mut v = vec![];
    for x in n {
        v.push(x as *const _);
    }
    eq("iteration", v, p(kids))?;
    kids.iter().try_for_each(html_node)
}

pub fn c10(c: &mut Cx) {
    c.rule = "random nodes of every kind, nested at most 3 deep; non-trivial: every case".into();
    for _ in 0..c.n(20_000, 200_000) {
        let mut r = c.rng.clone();
        let n = html(&mut r, 3);
        c.rng = r;
        if !c.case(true, || format!("{n:?}"), || html_node(&n)) {
            return;
        }
    }
}

pub fn xml(r: &mut Rng, depth: usize) -> XMLNode {
    match r.below(if depth == 0 { 5 } else { 9 }) {
        0 => XMLNode::Comment(s(r)),
        1 => XMLNode::CData(s(r)),
        2 => XMLNode::Text(s(r)),
        3 => XMLNode::ProcessingInstruction(s(r), r.chance(1, 2).then(|| "pi".to_string())),
        _ => XMLNode::Element(XMLElement {
            prefix: r.chance(1, 3).then(|| s(r)),
            namespace: r.chance(1, 3).then(|| s(r)),
            namespaces: None,
            name: s(r),
            attributes: map(r),
            children: if depth == 0 { vec![] } else { (0..r.below(4)).map(|_| xml(r, depth - 1)).collect() },
        }),
    }
}

fn xml_node(n: &XMLNode) -> Result<(), String> {
    let (name, attrs, text, kids): (Option<&String>, Option<&BTreeMap<String, String>>, Option<&String>, &[XMLNode]) = match n {
        XMLNode::Element(e) => (Some(&e.name), Some(&e.attributes), None, &e.children),
        XMLNode::Text(t) => (None, None, Some(t), &[]),
        _ => (None, None, None, &[]),
    };
    eq("name", n.name(), name)?;
    eq("attrs", n.attrs(), attrs)?;
    eq("text", n.text(), text)?;
    eq("children", n.children(), kids)?;
    let p = |v: &[XMLNode]| v.iter().map(|x| x as *const _).collect::<Vec<_>>();
    eq("iter", n.iter().map(|x| x as *const _).collect::<Vec<_>>(), p(kids))?;
    let mut v = vec![];
    for x in n {
        v.push(x as *const _);
    }
    eq("iteration", v, p(kids))?;
    kids.iter().try_for_each(xml_node)
}

pub fn c11(c: &mut Cx) {
    c.rule = "random nodes of every kind, nested at most 3 deep; non-trivial: every case".into();
    for _ in 0..c.n(20_000, 200_000) {
        let mut r = c.rng.clone();
        let n = xml(&mut r, 3);
        c.rng = r;
        if !c.case(true, || format!("{n:?}"), || xml_node(&n)) {
            return;
        }
    }
}
