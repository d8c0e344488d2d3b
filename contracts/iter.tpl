// unit iter: src/node.rs
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::BTreeMap;
verus! {
//@include std_more.inc
//@include std_cut.inc

mod bounds {
    use super::*;
    pub broadcast proof fn lemma_slice_len<T>(s: &[T])
        ensures #[trigger] s@.len() <= usize::MAX,
    {
        let k = vstd::slice::spec_slice_len(s);
        assert(k == s@.len());
    }
}
broadcast use {bounds::lemma_slice_len, finite::axiom_slice_finite};

//@include node_trait.inc

//@type node::NodeIter

//@include node_iter_ghost.inc

//@implhead node::NodeIter::direct
{
//@fn node::NodeIter::direct ret=r
    ensures r == (NodeIter::Direct { iter: $1 }),
//@end
//@fn node::NodeIter::tree ret=r
    ensures r == (NodeIter::Tree { node: $1, child: None, next: None }),
//@end
}

impl<'x, N: Node> NodeIter<'x, N> {
//@fn node::<Iterator for NodeIter>::next ret=ret
//@sigsubst Self::Item ==> &'x N
//@attr #[verifier::loop_isolation(false)]
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self).rem().len() > 0 ==> ret == Some(&old(self).rem()[0]) && final(self).rem() =~= old(self).rem().drop_first(),
        old(self).rem().len() == 0 ==> ret is None && final(self).rem() =~= old(self).rem(),
        ret is Some ==> final(self).togo() < old(self).togo(),
    decreases old(self).meas(),
//@pre 0
    let ghost fchild = *final($field{child}); let ghost fnext = *final($field{next});
//@loop 0
    invariant
        *final($field{child}) == fchild, *final($field{next}) == fnext,
        tree_rem(**$field{node}, *$field{child}, *$field{next}) == old(self).rem(),
        tree_togo(**$field{node}, *$field{child}, *$field{next}) <= old(self).togo(),
        $field{node}.s_height() < old(self).meas(),
        (*$field{child}) matches Some(c) ==> (*$field{next}) is Some && c.wf(),
        (*$field{child}) matches Some(c) ==> c.meas() < old(self).meas(),
        *old(self) is Tree,
    decreases
        (match *$field{next} { None => 1int + usize::MAX, Some(n) => usize::MAX - n }),
        (match *$field{child} { None => 0int, Some(_) => 1int }),
//@end
}

pub trait NodeExt: Node {
//@fn node::Node::descendants ret=r novis sigonly
        ensures r.rem() == preorder(*self), r.wf(),
//@end
}
impl<T: Node> NodeExt for T {
//@fn node::Node::descendants ret=r novis
//@end
}
//@helpers
}
fn main() {}
