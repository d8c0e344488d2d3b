// unit query: src/pattern.rs, src/filter.rs, src/query.rs, src/soup.rs
#![feature(sized_hierarchy)]
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use vstd::laws_cmp::*;
use vstd::std_specs::convert::*;
use core::marker::PointeeSized;
use std::collections::BTreeMap;
use std::borrow::Cow;
verus! {
//@include std_more.inc
//@include std_cut.inc
//@include std_shims.inc
//@include node_trait.inc
//@type node::NodeIter
//@include node_iter_ghost.inc
//@include pattern_trait.inc
//@include pattern_impls.inc
//@include filter_trait.inc
//@type filter::And
//@type filter::Or
//@type filter::Attr
//@type filter::Tag
//@include filter_defs.inc
//@include filter_impls.inc

//@implhead node::NodeIter::direct
{
//@fn node::NodeIter::direct ret=r ext
    ensures r == (NodeIter::Direct { iter: $1 }),
//@end
//@fn node::NodeIter::tree ret=r ext
    ensures r == (NodeIter::Tree { node: $1, child: None, next: None }),
//@end
}

impl<'x, N: Node> NodeIter<'x, N> {
//@fn node::<Iterator for NodeIter>::next ret=ret ext
//@sigsubst Self::Item ==> &'x N
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self).rem().len() > 0 ==> ret == Some(&old(self).rem()[0]) && final(self).rem() =~= old(self).rem().drop_first(),
        old(self).rem().len() == 0 ==> ret is None && final(self).rem() =~= old(self).rem(),
        ret is Some ==> final(self).togo() < old(self).togo(),
//@end
}

//@type soup::Soup
//@type query::Query
//@type query::QueryItem
//@type query::MapNodeIter
#[verifier::reject_recursive_types(N)]
//@type query::QueryIter
//@typesubst std::iter::Flatten<MapNodeIter<'x, N>> ==> crate::Flatten<'x, N>

// ---- ghost definitions
/// the nodes a query looks at, in document order
pub open spec fn scope<N: Node>(nodes: Seq<N>, recursive: bool) -> Seq<N> {
    if recursive { flat_preorder(nodes) } else { nodes }
}
pub open spec fn flat_preorder<N: Node>(nodes: Seq<N>) -> Seq<N>
    decreases nodes.len()
{
    if nodes.len() == 0 { Seq::empty() } else { preorder(nodes[0]) + flat_preorder(nodes.drop_first()) }
}
/// those of them the filter accepts, in the same order
pub open spec fn matching<N, F: Filter<N>>(s: Seq<N>, f: F) -> Seq<N>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if f.s_matches(&s[0]) { seq![s[0]] + matching(s.drop_first(), f) }
    else { matching(s.drop_first(), f) }
}
#[verifier::prophetic]
pub open spec fn flat_rem<'x, N: Node>(s: Seq<NodeIter<'x, N>>) -> Seq<N>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { s[0].rem() + flat_rem(s.drop_first()) }
}
impl<'x, N: Node> MapNodeIter<'x, N> {
    #[verifier::prophetic]
    pub open spec fn mrem(&self) -> Seq<NodeIter<'x, N>> {
        match self.iter {
            None => Seq::empty(),
            Some(it) => if self.recursive { tree_iters(IteratorSpec::remaining(&it).unref()) } else { seq![NodeIter::Direct { iter: it }] }
        }
    }
}
pub open spec fn tree_iters<'x, N: Node>(s: Seq<N>) -> Seq<NodeIter<'x, N>> {
    Seq::new(s.len(), |i: int| NodeIter::Tree { node: &s[i], child: None, next: None })
}
proof fn lemma_tree_iters<'x, N: Node>(s: Seq<N>)
    ensures flat_rem::<N>(tree_iters::<'x, N>(s)) == flat_preorder(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_tree_iters(s.drop_first());
        assert(tree_iters::<'x, N>(s).drop_first() =~= tree_iters::<'x, N>(s.drop_first()));
        assert(tree_iters::<'x, N>(s)[0].rem() =~= preorder(s[0]));
    } else { assert(flat_rem::<N>(tree_iters::<'x, N>(s)) =~= flat_preorder(s)); }
}
proof fn lemma_single<'x, N: Node>(x: NodeIter<'x, N>)
    ensures flat_rem(seq![x]) == x.rem()
{
    assert(seq![x].drop_first() =~= Seq::<NodeIter<'x, N>>::empty());
    assert(flat_rem(Seq::<NodeIter<'x, N>>::empty()) =~= Seq::<N>::empty());
    assert(seq![x][0] == x);
    assert(flat_rem(seq![x]) =~= x.rem());
}

proof fn lemma_no_condition<N>(s: Seq<N>)
    ensures matching(s, ()) == s
    decreases s.len()
{
    if s.len() > 0 {
        lemma_no_condition(s.drop_first());
        assert(seq![s[0]] + s.drop_first() =~= s);
    } else { assert(matching(s, ()) =~= s); }
}
/// conditions compose: the results of a conjunction are the results of one among the results of the other
proof fn lemma_conjunction<N, A: Filter<N>, B: Filter<N>>(s: Seq<N>, a: A, b: B)
    ensures matching(s, And(a, b)) == matching(matching(s, a), b), matching(s, And(a, b)) == matching(s, And(b, a))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_conjunction(s.drop_first(), a, b);
        let t = matching(s.drop_first(), a);
        if a.s_matches(&s[0]) {
            assert((seq![s[0]] + t).drop_first() =~= t);
        }
    } else { assert(matching(s, And(a, b)) =~= Seq::<N>::empty()); }
}
/// every result is in scope and accepted; every accepted node in scope is a result
proof fn lemma_exact<N, F: Filter<N>>(s: Seq<N>, f: F)
    ensures
        forall|n: N| #[trigger] matching(s, f).contains(n) <==> s.contains(n) && f.s_matches(&n),
        matching(s, f).len() <= s.len(),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_exact(s.drop_first(), f);
        let t = s.drop_first();
        let m = matching(s, f);
        let mt = matching(t, f);
        assert(s =~= seq![s[0]] + t);
        assert forall|n: N| #[trigger] m.contains(n) <==> s.contains(n) && f.s_matches(&n) by {
            assert(mt.contains(n) <==> t.contains(n) && f.s_matches(&n));
            if t.contains(n) { let i = choose|i: int| 0 <= i < t.len() && t[i] == n; assert(s[i + 1] == n); }
            if s.contains(n) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n; if i > 0 { assert(t[i - 1] == n); } }
            if f.s_matches(&s[0]) {
                assert(m == seq![s[0]] + mt);
                if mt.contains(n) { let i = choose|i: int| 0 <= i < mt.len() && mt[i] == n; assert(m[i + 1] == n); }
                if m.contains(n) { let i = choose|i: int| 0 <= i < m.len() && m[i] == n; if i > 0 { assert(mt[i - 1] == n); } else { assert(m[0] == s[0]); } }
                if n == s[0] { assert(m[0] == n); }
            } else { assert(m == mt); }
        }
    }
}

// ---- std::iter::Flatten over MapNodeIter, by its algorithm: the first inner iterator until it is empty, then the next one.
// That std does this is assumed; that it yields the concatenation of the inner iterators, and ends, is proved.
#[verifier::reject_recursive_types(N)]
pub struct Flatten<'x, N: Node> { pub iter: MapNodeIter<'x, N>, pub front: Option<NodeIter<'x, N>> }
impl<'x, N: Node> Flatten<'x, N> {
    #[verifier::prophetic]
    pub open spec fn frem(self) -> Seq<N> {
        (match self.front { None => Seq::empty(), Some(c) => c.rem() }) + flat_rem(self.iter.mrem())
    }
    pub open spec fn wf(self) -> bool { match self.front { None => true, Some(c) => c.wf() } }
    pub open spec fn togo(self) -> nat { match self.front { None => 0, Some(c) => c.togo() } }
    pub open spec fn before(self, o: Self) -> bool {
        self.iter.togo() < o.iter.togo() || (self.iter.togo() == o.iter.togo() && self.togo() < o.togo())
    }
    #[verifier::loop_isolation(false)]
    pub fn next(&mut self) -> (ret: Option<&'x N>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            old(self).frem().len() > 0 ==> ret == Some(&old(self).frem()[0]) && final(self).frem() == old(self).frem().drop_first(),
            old(self).frem().len() == 0 ==> ret is None && final(self).frem() == old(self).frem(),
            ret is Some ==> final(self).before(*old(self)),
    {
        loop
            invariant
                self.wf(),
                self.frem() == old(self).frem(),
                *self == *old(self) || self.iter.togo() < old(self).iter.togo(),
            decreases self.iter.togo(),
        {
            let ghost was = *self;
            let mut front = self.front.take();
            if let Some(mut c) = front {
                let r = c.next();
                if r.is_some() {
                    self.front = Some(c);
                    proof { assert(self.frem() =~= was.frem().drop_first()); }
                    return r;
                }
                proof { assert(self.frem() =~= was.frem()); }
            }
            proof { assert(self.frem() =~= flat_rem(self.iter.mrem())); }
            match self.iter.next() {
                None => { return None; }
                Some(inner) => {
                    self.front = Some(inner);
                    proof { assert(self.frem() =~= was.frem()); }
                }
            }
        }
    }
}
impl<'x, N: Node> MapNodeIter<'x, N> {
    pub open spec fn togo(&self) -> nat { match self.iter { None => 0, Some(it) => 1 + slice_togo(it) } }
    pub fn flatten(self) -> (r: Flatten<'x, N>)
        ensures r.frem() == flat_rem(self.mrem()), r.wf(),
    {
        let r = Flatten { iter: self, front: None };
        proof { assert(r.frem() =~= flat_rem(self.mrem())); }
        r
    }
}

// ---- assumed contract on <[T]>::to_vec
pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) where T: Clone,
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);

pub fn vx_to_vec<T: Clone>(s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]),
{ s.to_vec() }

// ---- the code
//@implhead query::MapNodeIter::new
{
//@fn query::MapNodeIter::new ret=r
    ensures r.recursive == $2, r.iter matches Some(it) && IteratorSpec::remaining(&it).unref() =~= $1@,
//@end
}
impl<'x, N: Node> MapNodeIter<'x, N> {
//@fn query::<Iterator for MapNodeIter>::next ret=ret opt
//@sigsubst Self::Item ==> NodeIter<'x, N>
    ensures
        ret matches Some(it) ==> it.wf(),
        old(self).mrem().len() > 0 ==> ret == Some(old(self).mrem()[0]) && final(self).mrem() =~= old(self).mrem().drop_first(),
        old(self).mrem().len() == 0 ==> ret is None && final(self).mrem() =~= old(self).mrem(),
        ret is Some ==> final(self).togo() < old(self).togo(),
//@bodystart
    broadcast use finite::axiom_slice_finite;
//@end
}

impl<'x, N: Node, F: Filter<N>> QueryIter<'x, N, F> {
    /// the results still to come
    #[verifier::prophetic]
    pub open spec fn qrem(self) -> Seq<N> { matching(self.iter.frem(), self.filter) }
}
//@implhead query::QueryIter::new
{
//@fn query::QueryIter::new ret=r
    ensures r.filter == $3, r.iter.frem() =~= scope($1@, $2), r.iter.wf(),
//@tail
    proof {
        lemma_tree_iters($1@);
        assert forall|it: std::slice::Iter<'x, N>| #[trigger] flat_rem(seq![NodeIter::Direct { iter: it }]) == IteratorSpec::remaining(&it).unref() by { lemma_single(NodeIter::Direct { iter: it }); }
    }
//@end
}
impl<'x, N: Node, F: Filter<N>> QueryIter<'x, N, F> {
//@fn query::<Iterator for QueryIter>::next ret=ret loops=1
//@sigsubst Self::Item ==> QueryItem<'x, N>
//@attr #[verifier::loop_isolation(false)]
    requires old(self).filter.s_ok(), old(self).iter.wf(),
    ensures
        final(self).iter.wf(),
        final(self).filter == old(self).filter,
        old(self).qrem().len() > 0 ==> (ret matches Some(r) && *r.item == old(self).qrem()[0]) && final(self).qrem() =~= old(self).qrem().drop_first(),
        old(self).qrem().len() == 0 ==> ret is None && final(self).qrem() =~= old(self).qrem(),
//@loop 0
    invariant
        self.filter == old(self).filter,
        self.iter.wf(),
        self.qrem() == old(self).qrem(),
    decreases self.iter.iter.togo(), self.iter.togo(),
//@end
}
impl<'x, N: Node, F: Filter<N>> Query<'x, N, F> {
//@fn query::<IntoIterator for Query>::into_iter ret=r
//@sigsubst Self::IntoIter ==> QueryIter<'x, N, F>
    ensures r.iter.wf(), r.filter == self.filter, r.qrem() == matching(scope(self.soup.nodes@, self.recursive), self.filter),
//@end
}
impl<'x, N: Node, F: Filter<N>> Query<'x, N, F> {
//@fn query::Queryable::first ret=ret
//@sigsubst Option<Self::Item> ==> Option<QueryItem<'x, N>>
//@sigsubst where Self: IntoIterator, ==> where
    requires self.filter.s_ok(),
    ensures ({ let m = matching(scope(self.soup.nodes@, self.recursive), self.filter);
        (m.len() > 0 ==> (ret matches Some(r) && *r.item == m[0])) && (m.len() == 0 ==> ret is None) }),
//@end
//@fn query::Queryable::all ret=r
//@sigsubst Self::IntoIter ==> QueryIter<'x, N, F>
//@sigsubst where Self: IntoIterator, ==> where
    ensures r.iter.wf(), r.filter == self.filter, r.qrem() == matching(scope(self.soup.nodes@, self.recursive), self.filter),
//@end
}

/// a copy or clone has the same document, scope and conditions
impl<'x, N, F: Clone> Query<'x, N, F> {
//@fn query::<Clone for Query>::clone ret=r
    ensures r.soup == self.soup, r.recursive == self.recursive, cloned(self.filter, r.filter),
//@end
}

pub trait Queryable<'x>: Sized {
    type Node: Node;
    type Filter: Filter<Self::Node>;
    spec fn q_soup(&self) -> &'x Soup<Self::Node>;
    spec fn q_recursive(&self) -> bool;
    spec fn q_filter(&self) -> Self::Filter;
//@fn query::Queryable::recursive ret=r novis sigonly
        ensures r.soup == self.q_soup(), r.recursive == true, r.filter == self.q_filter(),
//@end
//@fn query::Queryable::strict ret=r novis sigonly
        ensures r.soup == self.q_soup(), r.recursive == false, r.filter == self.q_filter(),
//@end
//@fn query::Queryable::tag ret=r novis sigonly
        ensures r.soup == self.q_soup(), r.recursive == self.q_recursive(), r.filter == And(self.q_filter(), Tag { tag: $1 }),
//@end
//@fn query::Queryable::attr ret=r novis sigonly
        ensures r.soup == self.q_soup(), r.recursive == self.q_recursive(), r.filter == And(self.q_filter(), Attr { name: $1, value: $2 }),
//@end
//@fn query::Queryable::attr_name ret=r novis
        ensures r.soup == self.q_soup(), r.recursive == self.q_recursive(), r.filter == And(self.q_filter(), Attr { name: $1, value: true }),
//@end
//@fn query::Queryable::attr_value ret=r novis
        ensures r.soup == self.q_soup(), r.recursive == self.q_recursive(), r.filter == And(self.q_filter(), Attr { name: true, value: $1 }),
//@end
//@fn query::Queryable::class ret=r novis
        ensures r.soup == self.q_soup(), r.recursive == self.q_recursive(), r.filter.0 == self.q_filter(),
            r.filter.1.name@ == "class"@, r.filter.1.value == $1,
//@end
}

//@implhead query::<Queryable for Query>::tag
{
    type Node = N;
    type Filter = F;
    open spec fn q_soup(&self) -> &'x Soup<N> { self.soup }
    open spec fn q_recursive(&self) -> bool { self.recursive }
    open spec fn q_filter(&self) -> F { self.filter }
//@fn query::<Queryable for Query>::recursive ret=r novis
//@end
//@fn query::<Queryable for Query>::strict ret=r novis
//@end
//@fn query::<Queryable for Query>::tag ret=r novis
//@end
//@fn query::<Queryable for Query>::attr ret=r novis
//@end
}
//@implhead query::<Queryable for &Soup>::tag
{
    type Node = N;
    type Filter = ();
    open spec fn q_soup(&self) -> &'x Soup<N> { *self }
    open spec fn q_recursive(&self) -> bool { true }
    open spec fn q_filter(&self) -> () { () }
//@fn query::<Queryable for &Soup>::recursive ret=r novis
//@end
//@fn query::<Queryable for &Soup>::strict ret=r novis
//@end
//@fn query::<Queryable for &Soup>::tag ret=r novis
//@end
//@fn query::<Queryable for &Soup>::attr ret=r novis
//@end
}

//@implhead query::QueryItem::query
{
//@fn query::QueryItem::query ret=r
    ensures r.nodes@.len() == self.item.s_children().len(),
        forall|i: int| 0 <= i < r.nodes@.len() ==> cloned(self.item.s_children()[i], #[trigger] r.nodes@[i]),
//@subst Vec::from($$x) ==> vx_to_vec($$x)
//@subst .to_owned() ==> .to_vec()
//@end
}
impl<'x, N> QueryItem<'x, N> {
//@fn query::<Deref for QueryItem>::deref ret=r
//@sigsubst Self::Target ==> N
    ensures r == self.item,
//@end
}

//@implhead soup::Soup::iter
{
//@fn soup::Soup::iter ret=r
    ensures r.iter.wf(), r.qrem() == flat_preorder(self.nodes@),
//@bodystart
    proof { lemma_no_condition(flat_preorder(self.nodes@)); }
//@end
}
impl<'x, N: Node> Soup<N> {
//@fn soup::<IntoIterator for &Soup>::into_iter ret=r
//@sigsubst self ==> &'x self
//@sigsubst Self::IntoIter ==> QueryIter<'x, N, ()>
    ensures r.iter.wf(), r.qrem() == flat_preorder(self.nodes@),
//@bodystart
    proof { lemma_no_condition(flat_preorder(self.nodes@)); }
//@end
}
//@helpers
}
fn main() {}
