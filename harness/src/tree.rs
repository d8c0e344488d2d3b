//! C01-C05, C07-C09, C19-C21 on trees of a node type of our own (the traits' code is the library's).
use std::{borrow::Cow, collections::BTreeMap, ops::Deref};

use soupy::{filter::*, parser::{HTMLNode, Parser, XMLNode}, prelude::*, query::*};

use crate::cx::{Cx, Rng};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct T {
    pub name: Option<String>,
    pub text: Option<String>,
    pub attrs: Option<BTreeMap<String, String>>,
    pub children: Vec<T>,
}
impl Node for T {
    type Text = String;
    fn name(&self) -> Option<&String> {
        self.name.as_ref()
    }
    fn text(&self) -> Option<&String> {
        self.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        self.attrs.as_ref()
    }
    fn children(&self) -> &[T] {
        &self.children
    }
}

/// a user-defined parser: the input is the answer
pub struct P<N>(std::marker::PhantomData<N>);
impl<N: Node> Parser for P<N> {
    type Input = Result<Vec<N>, String>;
    type Node = N;
    type Error = String;
    fn parse(input: Self::Input) -> Result<Vec<N>, String> {
        input
    }
}
pub fn soup<N: Node + Clone>(nodes: &[N]) -> Soup<N> {
    Soup::new::<P<N>>(Ok(nodes.to_vec())).unwrap()
}

/// What a node is, told by looking into it rather than by asking it.
pub trait Plain: Node<Text = String> + Clone + PartialEq + std::fmt::Debug {
    fn kids(&self) -> &[Self];
    fn plain(&self) -> (Option<&String>, Option<&String>, Option<&BTreeMap<String, String>>);
    fn tree(&self) -> T {
        let (name, text, attrs) = self.plain();
        T { name: name.cloned(), text: text.cloned(), attrs: attrs.cloned(), children: self.kids().iter().map(Plain::tree).collect() }
    }
}
impl Plain for T {
    fn kids(&self) -> &[T] {
        &self.children
    }
    fn plain(&self) -> (Option<&String>, Option<&String>, Option<&BTreeMap<String, String>>) {
        (self.name.as_ref(), self.text.as_ref(), self.attrs.as_ref())
    }
}
impl Plain for HTMLNode<String> {
    fn kids(&self) -> &[Self] {
        if let HTMLNode::Element { children, .. } = self { children } else { &[] }
    }
    fn plain(&self) -> (Option<&String>, Option<&String>, Option<&BTreeMap<String, String>>) {
        match self {
            HTMLNode::Comment(_) | HTMLNode::Doctype(_) => (None, None, None),
            HTMLNode::Text(t) => (None, Some(t), None),
            HTMLNode::Void { name, attrs } | HTMLNode::RawElement { name, attrs, .. } | HTMLNode::Element { name, attrs, .. } => (Some(name), None, Some(attrs)),
        }
    }
}
impl Plain for XMLNode {
    fn kids(&self) -> &[Self] {
        if let XMLNode::Element(e) = self { &e.children } else { &[] }
    }
    fn plain(&self) -> (Option<&String>, Option<&String>, Option<&BTreeMap<String, String>>) {
        match self {
            XMLNode::Element(e) => (Some(&e.name), None, Some(&e.attributes)),
            XMLNode::Text(t) => (None, Some(t), None),
            _ => (None, None, None),
        }
    }
}

pub const NAMES: &[&str] = &["a", "b", "A", "ab", "", "class", "é", "a b"];
const MORE: &[&str] = &[
    "aB", "AB", "ab ", " ab", "aé", "e\u{301}", "Class", "clas", "class2", "data-x", "data-y", "x:y", "#text", "0", "-", "\u{0}", "ab\n", "\t", "*", "div", "id", "href", "none",
    "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz0123456789", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz0123456780",
];
pub fn word(r: &mut Rng) -> &'static str {
    if r.chance(5, 6) { r.pick(NAMES) } else { r.pick(MORE) }
}

pub fn show(t: &T) -> String {
    let mut s = String::from("(");
    s += &match &t.name {
        Some(n) => format!("{n:?}"),
        None => "-".into(),
    };
    if let Some(x) = &t.text {
        s += &format!(" text={x:?}");
    }
    if let Some(a) = &t.attrs {
        s += &format!(" attrs={a:?}");
    }
    for c in &t.children {
        s += &show(c);
    }
    s + ")"
}
pub fn shows(f: &[T]) -> String {
    f.iter().map(show).collect::<Vec<_>>().join(" ")
}

fn leaf(name: Option<&str>) -> T {
    T { name: name.map(Into::into), text: None, attrs: None, children: vec![] }
}

fn decorate(r: &mut Rng, t: &mut T) {
    t.name = r.chance(3, 4).then(|| word(r).to_string());
    t.text = r.chance(1, 2).then(|| if r.chance(1, 8) { word(r).to_string() } else { (*r.pick(&["x", "", "y\nz", "\n", "é", " x ", " "])).to_string() });
    t.attrs = r.chance(2, 3).then(|| {
        let mut m = BTreeMap::new();
        let n = if r.chance(1, 12) { 30 } else { 4 };
        for _ in 0..r.below(n) {
            m.insert(word(r).to_string(), word(r).to_string());
        }
        m
    });
    for c in &mut t.children {
        decorate(r, c);
    }
}

/// a random forest of about n nodes
pub fn forest(r: &mut Rng, n: usize) -> Vec<T> {
    let mut out = vec![];
    let mut left = n;
    while left > 0 {
        let k = 1 + r.below(left);
        left -= k;
        let mut t = leaf(None);
        if k > 1 {
            t.children = forest(r, k - 1);
        }
        out.push(t);
    }
    for t in &mut out {
        decorate(r, t);
    }
    out
}

/// all forests of exactly n nodes (shape only)
pub fn shapes(n: usize) -> Vec<Vec<T>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 0..n {
        for inner in shapes(k) {
            for rest in shapes(n - 1 - k) {
                let mut f = vec![T { children: inner.clone(), ..leaf(None) }];
                f.extend(rest);
                out.push(f);
            }
        }
    }
    out
}

fn number(f: &mut [T], next: &mut usize) {
    for t in f {
        t.name = Some(format!("n{next}"));
        *next += 1;
        number(&mut t.children, next);
    }
}

/// reference: pre-order
fn pre<'x, N: Plain>(t: &'x N, out: &mut Vec<&'x N>) {
    out.push(t);
    for c in t.kids() {
        pre(c, out);
    }
}
pub fn flat<N: Plain>(f: &[N], recursive: bool) -> Vec<&N> {
    let mut v = vec![];
    for t in f {
        if recursive {
            pre(t, &mut v);
        } else {
            v.push(t);
        }
    }
    v
}

fn same<N: Plain>(got: &[*const N], want: &[&N], what: &str) -> Result<(), String> {
    let w: Vec<*const N> = want.iter().map(|t| *t as *const N).collect();
    if got == w.as_slice() {
        return Ok(());
    }
    let name = |p: &*const N| show(&unsafe { &**p }.tree());
    Err(format!(
        "{what}: got {} nodes [{}], expected {} nodes [{}]",
        got.len(),
        got.iter().map(name).collect::<Vec<_>>().join(", "),
        w.len(),
        w.iter().map(name).collect::<Vec<_>>().join(", ")
    ))
}

/// ways of using the rest of an iterator that has given `k` items; `want` is everything it should give
const WAYS: usize = 16;
fn rest<N: Plain, I: Iterator>(mut it: I, way: usize, k: usize, ptr: &dyn Fn(I::Item) -> *const N, want: &[*const N]) -> Result<(), String> {
    let want = &want[k.min(want.len())..];
    let n = want.len();
    let eq = |what: &str, got: &[*const N], want: &[*const N]| {
        if got == want {
            return Ok(());
        }
        Err(format!("after {k} items, {what} gives {} nodes where {} were expected, or others", got.len(), want.len()))
    };
    let one = |what: &str, got: Option<*const N>, want: Option<&*const N>| {
        if got.as_ref() == want { Ok(()) } else { Err(format!("after {k} items, {what} gives {} where {} was expected", got.map_or("nothing".into(), |p| show(&unsafe { &*p }.tree())), want.map_or("nothing".into(), |p| show(&unsafe { &**p }.tree())))) }
    };
    let (lo, hi) = it.size_hint();
    if lo > n || hi.is_some_and(|h| h < n) {
        return Err(format!("after {k} items, size_hint ({lo}, {hi:?}) does not allow the {n} items left"));
    }
    let cap = n + 5;
    match way {
        0 => eq("next", &std::iter::from_fn(|| it.next()).take(cap).map(ptr).collect::<Vec<_>>(), want)?,
        1 => return eq("collect", &it.map(ptr).collect::<Vec<_>>(), want),
        2 => {
            let mut v = vec![];
            it.for_each(|x| v.push(ptr(x)));
            return eq("for_each", &v, want);
        }
        3 => return eq("fold", &it.fold(vec![], |mut v, x| { v.push(ptr(x)); v }), want),
        4 => return if it.count() == n { Ok(()) } else { Err(format!("after {k} items, count() differs from {n}")) },
        5 => return one("last", it.last().map(ptr), want.last()),
        6 | 7 | 8 => {
            let j = [0, n / 2, n.saturating_sub(1)][way - 6];
            one("nth", it.nth(j).map(ptr), want.get(j))?;
            if n > 0 {
                one("next after nth", it.next().map(ptr), want.get(j + 1))?;
            }
            return Ok(());
        }
        9 => {
            if it.nth(n).is_some() {
                return Err(format!("after {k} items, nth({n}) gives something past the end"));
            }
        }
        10 => return eq("step_by(2)", &it.step_by(2).take(cap).map(ptr).collect::<Vec<_>>(), &want.iter().copied().step_by(2).collect::<Vec<_>>()),
        11 => return eq("skip(1)", &it.skip(1).take(cap).map(ptr).collect::<Vec<_>>(), want.get(1..).unwrap_or(&[])),
        12 => {
            let mut c = 0;
            one("find", it.by_ref().find(|_| { c += 1; c > n / 2 }).map(ptr), want.get(n / 2))?;
            if n > 0 {
                one("next after find", it.next().map(ptr), want.get(n / 2 + 1))?;
            }
            return Ok(());
        }
        13 => {
            let mut v = vec![];
            let all = it.by_ref().all(|x| { v.push(ptr(x)); v.len() < cap });
            eq("all", &v, want)?;
            if !all {
                return Err("too many items".into());
            }
        }
        14 => {
            let v: Vec<_> = it.by_ref().take(n / 2).map(ptr).collect();
            eq("take", &v, &want[..n / 2])?;
            let v: Vec<_> = it.by_ref().map(ptr).collect();
            eq("collect after take", &v, &want[n / 2..])?;
        }
        _ => {
            let mut v = vec![];
            let e: Result<(), ()> = it.try_for_each(|x| { v.push(ptr(x)); if v.len() < cap { Ok(()) } else { Err(()) } });
            eq("try_for_each", &v, want)?;
            if e.is_err() {
                return Err("too many items".into());
            }
        }
    }
    for i in 0..3 {
        if it.next().is_some() {
            return Err(format!("yields an item again after its end (call {i} after the end)"));
        }
    }
    Ok(())
}

/// an iterator is drained in several ways, always from a fresh one
fn drain<N: Plain, I, F>(mk: F, ptr: impl Fn(I::Item) -> *const N, want: &[&N], what: &str) -> Result<(), String>
where
    I: Iterator,
    F: Fn() -> I,
{
    let limit = want.len() + 5;
    let got: Vec<_> = {
        let mut it = mk();
        std::iter::from_fn(move || it.next()).take(limit).map(&ptr).collect()
    };
    same(&got, want, what)?;
    for k in [0, 1, 2, want.len() / 2, want.len().saturating_sub(1), want.len()] {
        if k > want.len() {
            continue;
        }
        for way in 0..WAYS {
            let mut it = mk();
            for _ in 0..k {
                it.next();
            }
            rest(it, way, k, &ptr, &got).map_err(|e| format!("{what}: {e}"))?;
        }
    }
    Ok(())
}

fn c01_tree<N: Plain>(t: &N) -> Result<(), String> {
    let mut want = vec![];
    pre(t, &mut want);
    drain(|| t.descendants(), |n| n as *const N, &want, "descendants")?;
    // a clone-free second traversal from inside
    for n in t.descendants() {
        let mut w = vec![];
        pre(n, &mut w);
        let got: Vec<*const N> = n.descendants().take(w.len() + 3).map(|n| n as *const N).collect();
        same(&got, &w, "descendants of a descendant")?;
    }
    Ok(())
}

pub fn c01(c: &mut Cx) {
    c.rule = "every tree shape of at most 7 (thorough: 9) nodes, random trees, broad and deep trees; every way of draining the iterator; non-trivial: at least two nodes".into();
    for n in 1..=c.n(7, 9) {
        for inner in shapes(n - 1) {
            let mut f = vec![T { children: inner, ..leaf(None) }];
            number(&mut f, &mut 0);
            let t = &f[0];
            if !c.case(n > 1, || show(t), || c01_tree(t)) {
                return;
            }
        }
        c.exhaustive.push(format!("all trees of {n} nodes"));
    }
    for w in [255usize, 256, 257, 1000, 65536 + 1] {
        let mut f = vec![T { children: vec![leaf(None); w], ..leaf(None) }];
        number(&mut f, &mut 0);
        let t = &f[0];
        let r = if w < 2000 {
            c.case(true, || format!("a root with {w} children"), || c01_tree(t))
        } else {
            c.case(true, || format!("a root with {w} children"), || {
                let got: Vec<*const T> = t.descendants().take(w + 9).map(|n| n as *const T).collect();
                same(&got, &flat(&f, true), "descendants").map_err(|e| e.chars().take(300).collect())
            })
        };
        if !r {
            return;
        }
    }
    for d in [50usize, 200] {
        let mut t = leaf(Some("end"));
        for i in 0..d {
            t = T { children: vec![leaf(Some("l")), t, leaf(Some("r"))], ..leaf(Some(&format!("d{i}"))) };
        }
        if !c.case(true, || format!("a tree nested {d} levels deep, with a leaf before and after on every level"), || c01_tree(&t)) {
            return;
        }
    }
    for _ in 0..c.n(5000, 100_000) {
        let n = 1 + c.rng.below(30);
        let mut r = c.rng.clone();
        let f = forest(&mut r, n);
        c.rng = r;
        for t in &f {
            if !c.case(true, || show(t), || c01_tree(t)) {
                return;
            }
        }
    }
    builtin(c, (2000, 40_000), |_, h, x| {
        h.iter().try_for_each(c01_tree)?;
        x.iter().try_for_each(c01_tree)
    });
}

/// random nodes of the two built-in node types
fn builtin(c: &mut Cx, n: (usize, usize), f: impl Fn(&mut Rng, &[HTMLNode<String>], &[XMLNode]) -> Result<(), String>) {
    for _ in 0..c.n(n.0, n.1) {
        let mut r = c.rng.clone();
        let (k, d) = (r.below(4), r.below(4));
        let h: Vec<_> = (0..k).map(|_| crate::nodes::html(&mut r, d)).collect();
        let x: Vec<_> = (0..k).map(|_| crate::nodes::xml(&mut r, d)).collect();
        c.rng = r.clone();
        c.rng.next();
        if !c.case(k > 0, || format!("HTML {h:?} and XML {x:?}"), || f(&mut r.clone(), &h, &x)) {
            return;
        }
    }
}
fn builtin_queries(c: &mut Cx, n: (usize, usize), mk: impl Fn(&mut Rng) -> Vec<Op>) {
    builtin(c, n, |r, h, x| {
        let ops = mk(r);
        check_query(h, &ops).map_err(|e| format!("{ops:?} on the HTML: {e}"))?;
        check_query(x, &ops).map_err(|e| format!("{ops:?} on the XML: {e}"))
    });
}

// ---- conditions

#[derive(Clone, Debug)]
pub enum Pat {
    Bool(bool),
    Str(&'static str),
    Own(String),
    Cow(Cow<'static, str>),
    Re(String),
    /// a user-defined pattern with no value to look up
    Len(usize),
}
impl Pat {
    /// reference
    pub fn accepts(&self, s: &str) -> bool {
        match self {
            Pat::Bool(b) => *b,
            Pat::Str(t) => *t == s,
            Pat::Own(t) => t == s,
            Pat::Cow(t) => t.as_ref() == s,
            Pat::Re(r) => regex::Regex::new(r).unwrap().is_match(s),
            Pat::Len(n) => s.len() == *n,
        }
    }
    pub fn random(r: &mut Rng) -> Pat {
        let s = word(r);
        match r.below(8) {
            0 | 1 => Pat::Str(s),
            2 => Pat::Own(s.into()),
            3 => Pat::Cow(if r.chance(1, 2) { Cow::Borrowed(s) } else { Cow::Owned(s.into()) }),
            4 => Pat::Re((*r.pick(&["a", "^a$", "b$", ".", "^$", "", "(?i)^ab$", "\\s", "^[a-z]+$", "b*$"])).into()),
            5 => Pat::Len(r.below(3)),
            _ => Pat::Bool(r.chance(4, 5)),
        }
    }
}
impl Pattern<String> for Pat {
    fn matches(&self, h: &String) -> bool {
        match self {
            Pat::Bool(b) => b.matches(h),
            Pat::Str(s) => s.matches(h),
            Pat::Own(s) => s.matches(h),
            Pat::Cow(s) => s.matches(h),
            Pat::Re(r) => regex::Regex::new(r).unwrap().matches(h),
            Pat::Len(n) => h.len() == *n,
        }
    }
    fn value(&self) -> Option<String> {
        match self {
            Pat::Bool(b) => Pattern::<String>::value(b),
            Pat::Str(s) => s.value(),
            Pat::Own(s) => s.value(),
            Pat::Cow(s) => s.value(),
            Pat::Re(r) => regex::Regex::new(r).unwrap().value(),
            Pat::Len(_) => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Tag(Pat),
    Attr(Pat, Pat),
    AttrName(Pat),
    AttrValue(Pat),
    Class(Pat),
    Strict,
    Recursive,
}
impl Op {
    fn accepts(&self, t: &T) -> bool {
        let attr = |n: &dyn Fn(&str) -> bool, v: &Pat| t.attrs.as_ref().is_some_and(|m| m.iter().any(|(k, w)| n(k) && v.accepts(w)));
        match self {
            Op::Tag(p) => t.name.as_ref().is_some_and(|n| p.accepts(n)),
            Op::Attr(n, v) => attr(&|k| n.accepts(k), v),
            Op::AttrName(n) => attr(&|k| n.accepts(k), &Pat::Bool(true)),
            Op::AttrValue(v) => attr(&|_| true, v),
            Op::Class(v) => attr(&|k| k == "class", v),
            Op::Strict | Op::Recursive => true,
        }
    }
    fn random(r: &mut Rng) -> Op {
        match r.below(5) {
            0 | 1 => Op::Tag(Pat::random(r)),
            2 => Op::Attr(Pat::random(r), Pat::random(r)),
            3 => match r.below(3) {
                0 => Op::AttrName(Pat::random(r)),
                1 => Op::AttrValue(Pat::random(r)),
                _ => Op::Class(Pat::random(r)),
            },
            _ => Op::Tag(Pat::Bool(true)),
        }
    }
}

pub fn expected<'x>(nodes: &'x [T], ops: &[Op]) -> Vec<&'x T> {
    let mut rec = true;
    for o in ops {
        match o {
            Op::Strict => rec = false,
            Op::Recursive => rec = true,
            _ => {}
        }
    }
    flat(nodes, rec).into_iter().filter(|t| ops.iter().all(|o| o.accepts(t))).collect()
}

pub enum Got<N> {
    All(Vec<*const N>),
    First(Option<*const N>),
    Checked(Result<(), String>),
}
pub enum Mode<'m, N> {
    All,
    First,
    Into,
    /// take some items one by one and use the rest in one of several ways
    Rest(usize, usize, &'m [*const N]),
}
impl<N> Clone for Mode<'_, N> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<N> Copy for Mode<'_, N> {}

fn exec<'x, N: Plain, F: Filter<N>>(q: Query<'x, N, F>, m: Mode<N>) -> Got<N> {
    let p = |i: QueryItem<'x, N>| i.deref() as *const N;
    match m {
        Mode::All => Got::All(q.all().take(100_000).map(p).collect()),
        Mode::Into => {
            let mut v = vec![];
            for i in q {
                v.push(p(i));
                if v.len() > 100_000 {
                    break;
                }
            }
            Got::All(v)
        }
        Mode::First => Got::First(q.first().map(p)),
        Mode::Rest(k, way, want) => {
            let mut it = q.all();
            for _ in 0..k {
                it.next();
            }
            Got::Checked(rest(it, way, k, &p, want))
        }
    }
}

macro_rules! level {
    ($f:ident, $g:ident) => {
        fn $f<'x, N: Plain, F: Filter<N>>(q: Query<'x, N, F>, ops: &[Op], m: Mode<N>) -> Got<N> {
            let Some((o, rest)) = ops.split_first() else { return exec(q, m) };
            match o.clone() {
                Op::Strict => $f(q.strict(), rest, m),
                Op::Recursive => $f(q.recursive(), rest, m),
                Op::Tag(p) => $g(q.tag(p), rest, m),
                Op::Attr(a, b) => $g(q.attr(a, b), rest, m),
                Op::AttrName(a) => $g(q.attr_name(a), rest, m),
                Op::AttrValue(a) => $g(q.attr_value(a), rest, m),
                Op::Class(a) => $g(q.class(a), rest, m),
            }
        }
    };
}
fn l_end<'x, N: Plain, F: Filter<N>>(q: Query<'x, N, F>, ops: &[Op], m: Mode<N>) -> Got<N> {
    match ops.split_first() {
        None => exec(q, m),
        Some((Op::Strict, r)) => l_end(q.strict(), r, m),
        Some((Op::Recursive, r)) => l_end(q.recursive(), r, m),
        Some(_) => unreachable!("chain too long"),
    }
}
level!(l2, l_end);
level!(l1, l2);
level!(l0, l1);
const MAX_CONDS: usize = 3;

/// the chain of operations, starting from the document
pub fn build<N: Plain>(s: &Soup<N>, ops: &[Op], m: Mode<N>) -> Got<N> {
    let Some((o, rem)) = ops.split_first() else {
        let p = |i: QueryItem<'_, N>| i.deref() as *const N;
        return match m {
            Mode::First => Got::First(s.iter().next().map(p)),
            Mode::Rest(k, way, want) => {
                let mut it = s.iter();
                for _ in 0..k {
                    it.next();
                }
                Got::Checked(rest(it, way, k, &p, want))
            }
            Mode::Into => {
                let mut v = vec![];
                for i in s {
                    v.push(p(i));
                    if v.len() > 100_000 {
                        break;
                    }
                }
                Got::All(v)
            }
            Mode::All => Got::All(s.iter().take(100_000).map(p).collect()),
        };
    };
    match o.clone() {
        Op::Strict => l0(s.strict(), rem, m),
        Op::Recursive => l0(s.recursive(), rem, m),
        Op::Tag(p) => l1(s.tag(p), rem, m),
        Op::Attr(a, b) => l1(s.attr(a, b), rem, m),
        Op::AttrName(a) => l1(s.attr_name(a), rem, m),
        Op::AttrValue(a) => l1(s.attr_value(a), rem, m),
        Op::Class(a) => l1(s.class(a), rem, m),
    }
}

fn check_query<N: Plain>(nodes: &[N], ops: &[Op]) -> Result<(), String> {
    check_query_ways(nodes, ops, true)
}
fn check_query_ways<N: Plain>(nodes: &[N], ops: &[Op], ways: bool) -> Result<(), String> {
    let s = soup(nodes);
    // the document keeps its nodes in a vector: find it through the first node, so that results can be identified
    let base = s.strict().all().next().map_or(std::ptr::null(), |i| i.deref() as *const N);
    let kept: &[N] = if nodes.is_empty() { &[] } else if base.is_null() {
        return Err("a strict query without conditions yields nothing on a document with nodes".into());
    } else {
        unsafe { std::slice::from_raw_parts(base, nodes.len()) }
    };
    let trees: Vec<T> = kept.iter().map(Plain::tree).collect();
    let wanted: std::collections::HashSet<*const T> = expected(&trees, ops).into_iter().map(|t| t as *const T).collect();
    // the same places in the document's own nodes
    let want: Vec<&N> = flat(&trees, true)
        .into_iter()
        .zip(flat(kept, true))
        .filter(|(t, _)| wanted.contains(&(*t as *const T)))
        .map(|(_, n)| n)
        .collect();
    for m in [Mode::All, Mode::Into] {
        if let Got::All(v) = build(&s, ops, m) {
            same(&v, &want, "results")?;
        }
    }
    if let Got::First(f) = build(&s, ops, Mode::First) {
        if f != want.first().map(|t| *t as *const N) {
            return Err(format!(
                "first() gives {}, expected {}",
                f.map_or("nothing".into(), |p| show(&unsafe { &*p }.tree())),
                want.first().map_or("nothing".into(), |t| show(&t.tree()))
            ));
        }
    }
    let w: Vec<*const N> = want.iter().map(|t| *t as *const N).collect();
    for k in [0, 1, w.len() / 2, w.len()] {
        for way in 0..if ways && k <= w.len() { WAYS } else { 0 } {
            if let Got::Checked(r) = build(&s, ops, Mode::Rest(k, way, &w)) {
                r?;
            }
        }
    }
    Ok(())
}

fn random_ops(r: &mut Rng, conds: usize, scopes: bool) -> Vec<Op> {
    let mut v = vec![];
    let sc = |r: &mut Rng, v: &mut Vec<Op>| {
        if scopes {
            for _ in 0..r.below(3) {
                v.push(if r.chance(1, 2) { Op::Strict } else { Op::Recursive });
            }
        } else if r.chance(1, 4) {
            v.push(Op::Strict);
        }
    };
    sc(r, &mut v);
    for _ in 0..conds.min(MAX_CONDS) {
        v.push(Op::random(r));
        if scopes {
            sc(r, &mut v);
        }
    }
    v
}

fn queries(c: &mut Cx, n: usize, mk: impl Fn(&mut Rng) -> Vec<Op>) {
    for i in 0..n {
        let mut r = c.rng.clone();
        let k = r.below(1 + (i % 24));
        let f = forest(&mut r, k);
        let ops = mk(&mut r);
        c.rng = r;
        if !c.case(k > 1, || format!("document: {} query: {ops:?}", shows(&f)), || check_query(&f, &ops)) {
            return;
        }
    }
}

pub fn c02(c: &mut Cx) {
    c.rule = "random documents of at most 24 nodes and all forests of at most 6 nodes, random chains of at most 3 conditions, run with all, first, for and partly consumed iterators; results compared by identity; non-trivial: at least two nodes".into();
    for n in 0..=6 {
        for mut f in shapes(n) {
            number(&mut f, &mut 0);
            for ops in [
                vec![],
                vec![Op::Strict],
                vec![Op::Recursive],
                vec![Op::Tag(Pat::Bool(true))],
                vec![Op::Tag(Pat::Re("[135]".into()))],
                vec![Op::Tag(Pat::Own(format!("n{}", n.max(1) - 1)))],
            ] {
                if !c.case(n > 1, || format!("document: {} query: {ops:?}", shows(&f)), || {
                    check_query(&f, &ops)?;
                    let s = soup(&f);
                    let a: Vec<*const T> = s.iter().take(1000).map(|i| i.deref() as *const T).collect();
                    let mut b = vec![];
                    for i in &s {
                        b.push(i.deref() as *const T);
                        if b.len() > 1000 {
                            break;
                        }
                    }
                    if a != b {
                        return Err("iter() and iteration of the reference differ".into());
                    }
                    let names: Vec<_> = s.iter().take(1000).map(|i| i.name().cloned()).collect();
                    let want: Vec<_> = flat(&f, true).iter().map(|t| t.name.clone()).collect();
                    if names != want {
                        return Err(format!("iterating the document: got {names:?}, expected {want:?}"));
                    }
                    Ok(())
                }) {
                    return;
                }
            }
        }
        c.exhaustive.push(format!("all forests of {n} nodes"));
    }
    // as many top-level nodes, or as many children, as a narrow counter cannot count
    for w in [255usize, 256, 257, 70_000] {
        let mut f = vec![leaf(None); w];
        number(&mut f, &mut 0);
        for ops in [vec![], vec![Op::Strict], vec![Op::Tag(Pat::Own(format!("n{}", w - 1)))]] {
            if !c.case(true, || format!("document: {w} top-level nodes query: {ops:?}"), || check_query(&f, &ops).map_err(|e| e.chars().take(300).collect())) {
                return;
            }
        }
    }
    let n = c.n(6000, 150_000);
    queries(c, n, |r| {
        let k = r.below(4);
        random_ops(r, k, false)
    });
    builtin_queries(c, (1500, 40_000), |r| {
        let k = r.below(4);
        random_ops(r, k, false)
    });
}

pub fn c03(c: &mut Cx) {
    c.rule = "random documents; chains with scope choices before, between and after at most 3 conditions, several at a time; non-trivial: at least two nodes".into();
    let n = c.n(8000, 150_000);
    queries(c, n, |r| {
        let k = r.below(4);
        random_ops(r, k, true)
    });
    builtin_queries(c, (1000, 30_000), |r| {
        let k = r.below(4);
        random_ops(r, k, true)
    });
}

/// a user-defined filter
struct By(usize);
impl Filter<T> for By {
    fn matches(&self, t: &T) -> bool {
        match self.0 {
            0 => false,
            1 => true,
            2 => t.name.is_some(),
            3 => t.text.is_some(),
            4 => t.children.is_empty(),
            k => t.name.as_ref().is_some_and(|n| n.len() == k - 5),
        }
    }
}

struct Never;
impl Filter<T> for Never {
    fn matches(&self, _: &T) -> bool {
        false
    }
}
struct Always;
impl Filter<T> for Always {
    fn matches(&self, _: &T) -> bool {
        true
    }
}
struct Leaf;
impl Filter<T> for Leaf {
    fn matches(&self, n: &T) -> bool {
        n.children().is_empty()
    }
}

pub fn c04(c: &mut Cx) {
    c.rule = "the three combinators on user-defined filters and nested; chains of 2 and 3 conditions in every order, each once more with the conditions applied one by one by hand; non-trivial: every case".into();
    for _ in 0..c.n(300, 3000) {
        let mut r = c.rng.clone();
        let n = 1 + r.below(8);
        let f = forest(&mut r, n);
        c.rng = r;
        for i in 0..8 {
            for j in 0..8 {
                for t in flat(&f, true) {
                    if !c.case(true, || format!("filters {i} and {j} on {}", show(t)), || {
                        let (a, b) = (By(i).matches(t), By(j).matches(t));
                        let w = |k: &str, g: bool, e: bool| if g == e { Ok(()) } else { Err(format!("{k} gives {g}, expected {e} ({a}, {b})")) };
                        w("And", And(By(i), By(j)).matches(t), a && b)?;
                        w("Or", Or(By(i), By(j)).matches(t), a || b)?;
                        w("()", Filter::<T>::matches(&(), t), true)?;
                        // filters that hold no data, in each place
                        for (k, g, e) in [
                            ("And(none, _)", And(Never, By(j)).matches(t), false),
                            ("And(_, none)", And(By(i), Never).matches(t), false),
                            ("And(all, _)", And(Always, By(j)).matches(t), b),
                            ("And(_, all)", And(By(i), Always).matches(t), a),
                            ("And(leaf, _)", And(Leaf, By(j)).matches(t), Leaf.matches(t) && b),
                            ("And(_, leaf)", And(By(i), Leaf).matches(t), a && Leaf.matches(t)),
                            ("And(leaf, none)", And(Leaf, Never).matches(t), false),
                            ("And(none, all)", And(Never, Always).matches(t), false),
                            ("And((), none)", And((), Never).matches(t), false),
                            ("And(none, ())", And(Never, ()).matches(t), false),
                            ("And((), _)", And((), By(j)).matches(t), b),
                            ("Or(none, _)", Or(Never, By(j)).matches(t), b),
                            ("Or(_, none)", Or(By(i), Never).matches(t), a),
                            ("Or(all, _)", Or(Always, By(j)).matches(t), true),
                            ("Or(leaf, _)", Or(Leaf, By(j)).matches(t), Leaf.matches(t) || b),
                            ("Or(_, leaf)", Or(By(i), Leaf).matches(t), a || Leaf.matches(t)),
                            ("Or(none, none)", Or(Never, Never).matches(t), false),
                            ("Or((), none)", Or((), Never).matches(t), true),
                            ("And(And(none, _), _)", And(And(Never, By(i)), By(j)).matches(t), false),
                            ("And(Or(none, _), _)", And(Or(Never, By(i)), By(j)).matches(t), a && b),
                            ("Or(And(none, _), _)", Or(And(Never, By(i)), By(j)).matches(t), b),
                        ] {
                            w(k, g, e)?;
                        }
                        w("And(Or, And)", And(Or(By(i), By(j)), And(By(j), By(i))).matches(t), (a || b) && a && b)?;
                        w("Or(And, ())", Or(And(By(i), By(j)), ()).matches(t), true)
                    }) {
                        return;
                    }
                }
            }
        }
    }
    for _ in 0..c.n(3000, 60000) {
        let mut r = c.rng.clone();
        let n = 1 + r.below(20);
        let f = forest(&mut r, n);
        let k = 2 + r.below(2);
        let ops: Vec<Op> = (0..k).map(|_| Op::random(&mut r)).collect();
        c.rng = r;
        if !c.case(true, || format!("document: {} query: {ops:?}", shows(&f)), || {
            check_query_ways(&f, &ops, false)?;
            let mut rev = ops.clone();
            rev.reverse();
            check_query_ways(&f, &rev, false)?;
            let mut rot = ops.clone();
            rot.rotate_left(1);
            rot.insert(1, Op::Strict);
            check_query_ways(&f, &rot, false)
        }) {
            return;
        }
    }
}

pub fn c05(c: &mut Cx) {
    c.rule = "attribute conditions, directly and through queries, with name and value patterns of every kind, on nodes with 0 to 6 attributes (and none at all); non-trivial: the node has attributes".into();
    for _ in 0..c.n(6000, 100_000) {
        let mut r = c.rng.clone();
        let mut t = leaf(None);
        decorate(&mut r, &mut t);
        if r.chance(1, 3) {
            let m = t.attrs.get_or_insert_with(BTreeMap::new);
            for n in NAMES.iter().take(6) {
                m.insert((*n).into(), word(&mut r).into());
            }
        }
        let (n, v) = (Pat::random(&mut r), Pat::random(&mut r));
        c.rng = r;
        if !c.case(t.attrs.as_ref().is_some_and(|a| !a.is_empty()), || format!("name {n:?} value {v:?} on {}", show(&t)), || {
            let w = Op::Attr(n.clone(), v.clone()).accepts(&t);
            let g = Attr { name: n.clone(), value: v.clone() }.matches(&t);
            if g != w {
                return Err(format!("the condition gives {g}, expected {w}"));
            }
            for o in [Op::Attr(n.clone(), v.clone()), Op::AttrName(n.clone()), Op::AttrValue(v.clone()), Op::Class(v.clone())] {
                check_query_ways(std::slice::from_ref(&t), std::slice::from_ref(&o), false).map_err(|e| format!("{o:?}: {e}"))?;
                check_query_ways(std::slice::from_ref(&t), &[Op::Tag(Pat::Bool(true)), o.clone()], false).map_err(|e| format!("{o:?}: {e}"))?;
            }
            Ok(())
        }) {
            return;
        }
    }
    let n = c.n(2000, 40_000);
    queries(c, n, |r| {
        let mut v = vec![];
        for _ in 0..1 + r.below(2) {
            v.push(match r.below(4) {
                0 => Op::AttrName(Pat::random(r)),
                1 => Op::AttrValue(Pat::random(r)),
                2 => Op::Class(Pat::random(r)),
                _ => Op::Attr(Pat::random(r), Pat::random(r)),
            });
        }
        v
    });
    builtin_queries(c, (1500, 40_000), |r| {
        vec![match r.below(4) {
            0 => Op::AttrName(Pat::random(r)),
            1 => Op::AttrValue(Pat::random(r)),
            2 => Op::Class(Pat::random(r)),
            _ => Op::Attr(Pat::random(r), Pat::random(r)),
        }]
    });
}

pub fn c07(c: &mut Cx) {
    c.rule = "tag conditions with patterns of every kind on named and unnamed nodes, directly and through queries; unnamed nodes of both built-in node types; non-trivial: every case".into();
    for _ in 0..c.n(6000, 100_000) {
        let mut r = c.rng.clone();
        let mut t = leaf(None);
        decorate(&mut r, &mut t);
        let p = Pat::random(&mut r);
        c.rng = r;
        if !c.case(true, || format!("tag {p:?} on {}", show(&t)), || {
            let w = Op::Tag(p.clone()).accepts(&t);
            let g = Tag { tag: p.clone() }.matches(&t);
            if g != w {
                return Err(format!("the condition gives {g}, expected {w}"));
            }
            check_query(std::slice::from_ref(&t), &[Op::Tag(p.clone())])
        }) {
            return;
        }
    }
    let n = c.n(2000, 40_000);
    queries(c, n, |r| vec![Op::Tag(Pat::random(r))]);
    builtin_queries(c, (1500, 40_000), |r| vec![Op::Tag(Pat::random(r))]);
    let doc = "<!DOCTYPE html><!--c--><div>t<br/><script>x</script></div>";
    if !c.case(true, || format!("tag(true) on {doc}"), || {
        let s = Soup::html_strict(doc).map_err(|e| e.to_string())?;
        let v: Vec<String> = s.tag(true).all().map(|n| n.name().unwrap().to_string()).collect();
        if v != ["div", "br", "script"] {
            return Err(format!("strict HTML: {v:?}"));
        }
        let s = Soup::html(doc);
        let v: Vec<String> = s.tag(true).all().map(|n| n.name().unwrap().to_string()).collect();
        if v != ["html", "head", "body", "div", "br", "script"] {
            return Err(format!("lenient HTML: {v:?}"));
        }
        let s = Soup::xml("<?xml version='1.0'?><!--c--><a><?p i?><![CDATA[x]]>t<b/></a>".as_bytes()).map_err(|e| e.to_string())?;
        let v: Vec<String> = s.tag(true).all().map(|n| n.name().unwrap().to_string()).collect();
        if v != ["a", "b"] {
            return Err(format!("XML: {v:?}"));
        }
        Ok(())
    }) {}
}

pub fn c08(c: &mut Cx) {
    c.rule = "all_text of random trees (texts with line breaks and empty texts included) against the texts in document order joined by line breaks; non-trivial: at least one text".into();
    fn check<N: Plain>(t: &N) -> Result<(), String> {
        let v: Vec<String> = flat(std::slice::from_ref(t), true).iter().filter_map(|n| n.plain().1.cloned()).collect();
        let w = v.join("\n");
        let g = t.all_text();
        if g == w { Ok(()) } else { Err(format!("all_text gives {g:?}, expected {w:?}")) }
    }
    for n in [63usize, 64, 65, 1000, 5000] {
        let mut f = vec![T { children: vec![leaf(None); n], ..leaf(None) }];
        for (i, t) in f[0].children.iter_mut().enumerate() {
            t.text = Some("x".repeat(i % 7));
        }
        if !c.case(true, || format!("{n} texts"), || check(&f[0]).map_err(|e| e.chars().take(300).collect())) {
            return;
        }
    }
    builtin(c, (5000, 40_000), |_, h, x| {
        h.iter().try_for_each(|t| flat(std::slice::from_ref(t), true).into_iter().try_for_each(check))?;
        x.iter().try_for_each(|t| flat(std::slice::from_ref(t), true).into_iter().try_for_each(check))
    });
    for n in 1..=6 {
        for f in shapes(n) {
            for bits in 0..(1u32 << n) {
                let mut f = f.clone();
                fn put(f: &mut [T], k: &mut u32, bits: u32) {
                    for t in f {
                        t.text = (bits >> *k & 1 == 1).then(|| format!("t{k}"));
                        *k += 1;
                        put(&mut t.children, k, bits);
                    }
                }
                put(&mut f, &mut 0, bits);
                for t in &f {
                    if !c.case(bits != 0, || show(t), || check(t)) {
                        return;
                    }
                }
            }
        }
        c.exhaustive.push(format!("all forests of {n} nodes with every choice of which have text"));
    }
    for _ in 0..c.n(10_000, 100_000) {
        let mut r = c.rng.clone();
        let n = 1 + r.below(25);
        let f = forest(&mut r, n);
        c.rng = r;
        for t in &f {
            if !c.case(true, || show(t), || check(t)) {
                return;
            }
        }
    }
}

fn c09_doc<N: Plain>(f: &[N]) -> Result<(), String> {
    let s = soup(f);
    let want = flat(f, true);
    let got: Vec<_> = s.iter().take(1000).collect();
    if got.len() != want.len() {
        return Err(format!("{} results, expected {}", got.len(), want.len()));
    }
    for (g, w) in got.iter().zip(&want) {
        let d: &N = g;
        let p = w.plain();
        if d != *w || (g.name(), g.text(), g.attrs()) != p || g.children() != w.kids() {
            return Err(format!("a result is {d:?}, expected {w:?}"));
        }
        let q = g.query();
        let v: Vec<N> = q.strict().all().map(|i| (*i).clone()).collect();
        if v != w.kids() {
            return Err(format!("query() of {w:?} holds {v:?}"));
        }
        let v: Vec<N> = q.iter().map(|i| (*i).clone()).collect();
        let e: Vec<N> = flat(w.kids(), true).into_iter().cloned().collect();
        if v != e {
            return Err(format!("query() of {w:?} iterates over {v:?}"));
        }
        #[allow(clippy::clone_on_copy)]
        if !std::ptr::eq(g.clone().deref(), d) {
            return Err(format!("a copy of the result {w:?} is another node"));
        }
    }
    Ok(())
}

pub fn c09(c: &mut Cx) {
    c.rule = "every result of a query over random documents: access to the node itself, and the document made from it; the same for both HTML parsers and XML; non-trivial: a node with children".into();
    for _ in 0..c.n(8000, 60_000) {
        let mut r = c.rng.clone();
        let n = 1 + r.below(16);
        let f = forest(&mut r, n);
        c.rng = r;
        if !c.case(n > 1, || shows(&f), || c09_doc(&f)) {
            return;
        }
    }
    builtin(c, (4000, 40_000), |_, h, x| {
        c09_doc(h)?;
        c09_doc(x)
    });
    // documents as the parsers give them: what the document made from a node holds is its children, in every respect
    let holds = |q: Vec<String>, k: Vec<String>, n: &dyn std::fmt::Debug| if q == k { Ok(()) } else { Err(format!("query() of {n:?} holds {q:?}")) };
    for doc in [
        "<div id='d'>a<p class='x'>b<br></p><!--c--><script>s</script><style></style>d</div><p></p>",
        "<ul><li>1</li><li>2<b>3</b></li></ul>t",
        "<a A='1' b='' c=\"é &amp; &lt;\">  <b> x </b>\n<!-- - --><!----></a> ",
        "<p>a<!DOCTYPE html><br/><img src='x'><script src='y' /><style>  a{} </style><b/></p><!doctype html>",
    ] {
        if !c.case(true, || format!("HTML {doc}"), || {
            let s = Soup::html_strict(doc).map_err(|e| e.to_string())?;
            for i in s.iter() {
                let v: Vec<_> = i.query().strict().all().map(|n| (*n).clone()).collect();
                if v != i.children() {
                    return Err(format!("query() of {:?} holds {v:?}", *i));
                }
                holds(v.iter().map(|n| format!("{n:?}")).collect(), i.children().iter().map(|n| format!("{n:?}")).collect(), &*i)?;
            }
            let s = Soup::html(doc);
            for i in s.iter() {
                let v: Vec<_> = i.query().strict().all().map(|n| (*n).clone()).collect();
                if v != i.children() {
                    return Err(format!("query() of {:?} holds {v:?}", *i));
                }
                holds(v.iter().map(|n| format!("{n:?}")).collect(), i.children().iter().map(|n| format!("{n:?}")).collect(), &*i)?;
            }
            Ok(())
        }) {
            return;
        }
    }
    for doc in [
        "<r><div id='d'>a<p class='x'>b<br/></p><!--c--><script>s</script><style></style>d</div><p></p></r>",
        "<r xmlns='u'><a xmlns:q='v' q:k='1' k='2'><q:b xmlns='w'><c/></q:b><d xmlns=''>t</d></a><e/></r>",
        "<p:r xmlns:p='u:p'><p:a xmlns:q='u:q' q:b='c'/><a xmlns='d' e='f'><p:g xmlns:p='h'><i/></p:g></a><![CDATA[ <x> ]]><?pi data?><?pi?> t <!-- c --></p:r>",
        "<?xml version='1.0'?><!-- a --><r a='' b='&lt;é'><x/>\n<![CDATA[]]><!----><y> </y></r><?end?>",
    ] {
        if !c.case(true, || format!("XML {doc}"), || {
            let s = Soup::xml(doc.as_bytes()).map_err(|e| e.to_string())?;
            for i in s.iter() {
                let v: Vec<_> = i.query().strict().all().map(|n| (*n).clone()).collect();
                if v != i.children() {
                    return Err(format!("query() of {:?} holds {v:?}", *i));
                }
                holds(v.iter().map(|n| format!("{n:?}")).collect(), i.children().iter().map(|n| format!("{n:?}")).collect(), &*i)?;
                // and through it, the whole tree
                let all: Vec<_> = i.query().all().map(|n| format!("{:?}", *n)).collect();
                let mut want = vec![];
                fn walk(n: &XMLNode, out: &mut Vec<String>) {
                    out.push(format!("{n:?}"));
                    n.children().iter().for_each(|k| walk(k, out));
                }
                i.children().iter().for_each(|k| walk(k, &mut want));
                if all != want {
                    return Err(format!("the query of {:?} gives {all:?}", *i));
                }
            }
            Ok(())
        }) {
            return;
        }
    }
}

pub fn c19(c: &mut Cx) {
    c.rule = "a query with scope, copied and cloned, extended by the same and by different conditions, run interleaved; clones of results and of documents; non-trivial: at least two nodes".into();
    for _ in 0..c.n(5000, 80_000) {
        let mut r = c.rng.clone();
        let n = r.below(16);
        let f = forest(&mut r, n);
        let (p, p2) = (Pat::random(&mut r), Pat::random(&mut r));
        let strict = r.chance(1, 2);
        c.rng = r;
        if !c.case(n > 1, || format!("document {} strict {strict} tags {p:?} {p2:?}", shows(&f)), || {
            let s = soup(&f);
            let q = if strict { s.strict() } else { s.recursive() };
            let q1 = q;
            #[allow(clippy::clone_on_copy)]
            let q2 = q.clone();
            let id = |i: QueryItem<'_, T>| i.deref() as *const T;
            let base: Vec<_> = q.all().take(1000).map(id).collect();
            let a: Vec<_> = q1.all().take(1000).map(id).collect();
            let b: Vec<_> = q2.all().take(1000).map(id).collect();
            if base != a || base != b {
                return Err(format!("original gives {} results, copy {}, clone {}", base.len(), a.len(), b.len()));
            }
            if base.len() != flat(&f, !strict).len() {
                return Err(format!("{} results, expected {}", base.len(), flat(&f, !strict).len()));
            }
            // interleaved, and with another query built and run in between
            let mut i1 = q1.tag(p.clone()).all();
            let mut i2 = q2.tag(p.clone()).all();
            let alone: Vec<_> = q.tag(p.clone()).all().take(1000).map(id).collect();
            let (mut v1, mut v2) = (vec![], vec![]);
            for k in 0..1000 {
                let x = i1.next().map(id);
                let _ = q.tag(p2.clone()).first();
                let _ = s.tag(p2.clone()).all().count();
                let y = if k % 2 == 0 { i2.next().map(id) } else { None };
                v1.extend(x);
                v2.extend(y);
                if x.is_none() {
                    break;
                }
            }
            v2.extend(i2.take(1000).map(id));
            if v1 != alone || v2 != alone {
                return Err(format!("interleaved queries give {} and {} results, alone {}", v1.len(), v2.len(), alone.len()));
            }
            let after: Vec<T> = s.strict().all().map(|i| (*i).clone()).collect();
            if after != f {
                return Err("the document changed".into());
            }
            let t = s.clone();
            let cl: Vec<T> = t.strict().all().map(|i| (*i).clone()).collect();
            if cl != f {
                return Err("a clone of the document differs".into());
            }
            Ok(())
        }) {
            return;
        }
    }
    // documents as the parsers give them, copied; and several documents at once, asked in turn
    const DOCS: &[&str] = &[
        "<r xmlns='u'><a xmlns:q='v' q:k='1' k='2'><q:b xmlns='w'><c/></q:b><d xmlns=''>t</d></a><e/></r>",
        "<p:r xmlns:p='u:p'><p:a xmlns:q='u:q' q:b='c'/><a xmlns='d' e='f'><p:g xmlns:p='h'><i/></p:g></a><![CDATA[ <x> ]]><?pi data?> t <!-- c --></p:r>",
        "<a k='2'><b k='1'>x</b><b>y</b><c>&amp;</c></a>",
        "<a k='1'><b k='2'>y</b><b>x</b><c>&lt;</c></a>",
    ];
    fn copies<N: Node + Clone + std::fmt::Debug + PartialEq>(s: &Soup<N>) -> Result<(), String> {
        let want: Vec<String> = s.strict().all().map(|n| format!("{:?}", *n)).collect();
        let t = s.clone();
        let nodes: Vec<N> = s.strict().all().map(|n| (*n).clone()).collect();
        for (k, v) in [
            ("a clone of the document", t.strict().all().map(|n| format!("{:?}", *n)).collect::<Vec<_>>()),
            ("clones of the nodes", nodes.iter().map(|n| format!("{n:?}")).collect()),
            ("the document again", s.strict().all().map(|n| format!("{:?}", *n)).collect()),
        ] {
            if v != want {
                return Err(format!("{k}: {v:?}, expected {want:?}"));
            }
        }
        for i in s.iter() {
            let j = i.clone();
            if !std::ptr::eq(i.deref(), j.deref()) {
                return Err(format!("the clone of the result {:?} refers to another node", *i));
            }
            if format!("{:?}", (*i).clone()) != format!("{:?}", *i) {
                return Err(format!("the clone of {:?} differs: {:?}", *i, (*i).clone()));
            }
        }
        Ok(())
    }
    for d in DOCS {
        if !c.case(true, || format!("copies of {d}"), || {
            copies(&Soup::xml(d.as_bytes()).map_err(|e| e.to_string())?)?;
            copies(&Soup::html(d))?;
            match Soup::html_strict(d) {
                Ok(s) => copies(&s),
                Err(_) => Ok(()),
            }
        }) {
            return;
        }
    }
    let soups: Vec<_> = DOCS.iter().map(|d| (Soup::xml(d.as_bytes()).unwrap(), Soup::html(d))).collect();
    for t in ["a", "b", "c", "q", "r"] {
        for k in ["k", "x"] {
            if !c.case(true, || format!("four documents asked for {t} and {k} in turn"), || {
                let mut xs: Vec<_> = soups.iter().map(|s| (s.0.tag(t).attr(k, true).all(), s.1.tag(t).attr(k, true).all())).collect();
                let mut got = vec![(vec![], vec![]); soups.len()];
                for _ in 0..20 {
                    for (x, g) in xs.iter_mut().zip(&mut got) {
                        g.0.extend(x.0.next().map(|n| format!("{:?}", *n)));
                        g.1.extend(x.1.next().map(|n| format!("{:?}", *n)));
                    }
                }
                for (s, g) in soups.iter().zip(&got) {
                    let w0: Vec<_> = s.0.iter().filter(|n| n.name().map_or(false, |m| m == t) && n.attrs().map_or(false, |a| a.contains_key(k))).map(|n| format!("{:?}", *n)).collect();
                    let w1: Vec<_> = s.1.iter().filter(|n| n.name().map_or(false, |m| &**m == t) && n.attrs().map_or(false, |a| a.keys().any(|x| &**x == k))).map(|n| format!("{:?}", *n)).collect();
                    if g.0 != w0 || g.1 != w1 {
                        return Err(format!("got {g:?}, expected {:?}", (w0, w1)));
                    }
                }
                Ok(())
            }) {
                return;
            }
        }
    }
}

pub fn c20(c: &mut Cx) {
    c.rule = "documents made by a user-defined parser from random node lists and errors; the three constructors against their parsers on sample texts, well-formed and not; non-trivial: at least one node or an error".into();
    for i in 0..c.n(3000, 30_000) {
        let mut r = c.rng.clone();
        let n = r.below(14);
        let f = forest(&mut r, n);
        c.rng = r;
        let input = if i % 5 == 4 { Err(format!("error {i}")) } else { Ok(f) };
        if !c.case(true, || format!("{:?}", input.as_ref().map(|f| shows(f))), || {
            match (Soup::new::<P<T>>(input.clone()), &input) {
                (Ok(s), Ok(f)) => {
                    let v: Vec<T> = s.strict().all().map(|i| (*i).clone()).collect();
                    if &v == f { Ok(()) } else { Err(format!("the document holds {}", shows(&v))) }
                }
                (Err(e), Err(w)) if &e == w => Ok(()),
                (r, _) => Err(format!("got {:?}", r.map(|_| "a document"))),
            }
        }) {
            return;
        }
    }
    builtin(c, (1500, 20_000), |_, h, x| {
        fn holds<N: Plain>(f: &[N]) -> Result<(), String> {
            let v: Vec<N> = soup(f).strict().all().map(|i| (*i).clone()).collect();
            if v == f { Ok(()) } else { Err(format!("the document holds {v:?}")) }
        }
        holds(h)?;
        holds(x)
    });
    for n in [255usize, 256, 257, 70_000] {
        let f = vec![leaf(None); n];
        if !c.case(true, || format!("{n} nodes"), || {
            let k = soup(&f).strict().all().count();
            if k == n { Ok(()) } else { Err(format!("the document holds {k} nodes")) }
        }) {
            return;
        }
    }
    const TEXTS: &[&str] = &[
        "", "x", "<a>", "<a></a>", "<a>x</a> <b/>t", "<a><b></a>", "<?xml version='1.0'?><a x='1'>t<!--c--></a>", "<p>a<br>b</p>", "</p>", "<!--", "<a", "a<b>c</b>d",
        "<script>if (a<b) {}</script>", "\u{feff}<a/>", "<a>&amp;&lt;</a>", "\n", "<!-- -->", "a<!-- --> ", "<!-- --><a/><!---->", "<a/><?p?>", "<A X=1></A>",
    ];
    let mut texts: Vec<String> = TEXTS.iter().map(|t| t.to_string()).collect();
    for t in crate::names::TEXTS {
        texts.extend([t.to_string(), format!("{t}<p>a</p>"), format!("<p>a</p>{t}"), format!("<p>{t}</p>"), format!("<!--{t}--><p a=\"{t}\">{t}<br/>{t}</p>{t}")]);
    }
    for t in &texts {
        let t = t.as_str();
        if !c.case(true, || format!("text {t:?}"), || {
            use soupy::parser::{LenientHTMLParser, StrictHTMLParser, XMLParser};
            match (Soup::html_strict(t), StrictHTMLParser::parse(t)) {
                (Ok(s), Ok(w)) => {
                    let v: Vec<_> = s.strict().all().map(|i| (*i).clone()).collect();
                    if v != w {
                        return Err(format!("html_strict holds {v:?}, the parser gives {w:?}"));
                    }
                }
                (Err(a), Err(b)) if a == b => {}
                (a, b) => return Err(format!("html_strict gives {:?}, the parser {b:?}", a.map(|_| "a document"))),
            }
            let s = Soup::html(t);
            let w = LenientHTMLParser::<&str>::parse(t).unwrap();
            let v: Vec<_> = s.strict().all().map(|i| (*i).clone()).collect();
            if v != w {
                return Err(format!("html holds {v:?}, the parser gives {w:?}"));
            }
            match (Soup::xml(t.as_bytes()), XMLParser::parse(t.as_bytes())) {
                (Ok(s), Ok(w)) => {
                    let v: Vec<_> = s.strict().all().map(|i| (*i).clone()).collect();
                    if v != w {
                        return Err(format!("xml holds {v:?}, the parser gives {w:?}"));
                    }
                }
                (Err(a), Err(b)) if a.to_string() == b.to_string() => {}
                (a, b) => return Err(format!("xml gives {:?}, the parser {b:?}", a.map(|_| "a document"))),
            }
            Ok(())
        }) {
            return;
        }
    }
}

pub fn c21(c: &mut Cx) {
    c.rule = "look-ups of present, absent and similar names on nodes with 0 to 8 attributes and on nodes without; non-trivial: the node has attributes".into();
    for _ in 0..c.n(30_000, 300_000) {
        let mut r = c.rng.clone();
        let mut t = leaf(None);
        decorate(&mut r, &mut t);
        c.rng = r;
        if !c.case(t.attrs.is_some(), || show(&t), || {
            for n in NAMES.iter().chain(MORE).chain(&["zz", "aa", "CLASS", "class ", " class"]) {
                let w = t.attrs.as_ref().and_then(|m| m.iter().find(|(k, _)| k == n).map(|(_, v)| v));
                let g = t.get(*n);
                if g != w {
                    return Err(format!("get({n:?}) gives {g:?}, expected {w:?}"));
                }
            }
            Ok(())
        }) {
            return;
        }
    }
    builtin(c, (2000, 40_000), |_, h, x| {
        fn look<N: Plain>(f: &[N]) -> Result<(), String> {
            for t in flat(f, true) {
                for n in NAMES.iter().chain(MORE).chain(&["zz", "aa", "CLASS", "class ", " class"]) {
                    let w = t.plain().2.and_then(|m| m.iter().find(|(k, _)| k == n).map(|(_, v)| v));
                    let g = t.get(*n);
                    if g != w {
                        return Err(format!("get({n:?}) gives {g:?}, expected {w:?}"));
                    }
                }
            }
            Ok(())
        }
        look(h)?;
        look(x)
    });
    if !c.case(true, || "attributes of parsed elements".into(), || {
        let s = Soup::html_strict("<!--c-->t<a x=1 Y='2' z></a><br q=3><script w=4></script>").map_err(|e| e.to_string())?;
        let v: Vec<_> = s.iter().map(|n| ["x", "Y", "y", "z", "q", "w"].map(|k| n.get(k).map(ToString::to_string))).collect();
        let o = |s: &str| Some(s.to_string());
        let e = vec![
            [None, None, None, None, None, None],
            [None, None, None, None, None, None],
            [o("1"), o("2"), None, o(""), None, None],
            [None, None, None, None, o("3"), None],
            [None, None, None, None, None, o("4")],
        ];
        if v == e { Ok(()) } else { Err(format!("{v:?}")) }
    }) {}
}
