#[verifier::prophetic]
pub open spec fn tree_rem<'x, N: Node>(node: N, child: Option<Box<NodeIter<'x, N>>>, next: Option<usize>) -> Seq<N> {
    (match child { None => Seq::empty(), Some(c) => c.rem() })
        + (match next { None => preorder(node), Some(k) => forest_from(node, k as nat) })
}
pub open spec fn tree_togo<'x, N: Node>(node: N, child: Option<Box<NodeIter<'x, N>>>, next: Option<usize>) -> nat {
    (match child { None => 0, Some(c) => c.togo() })
        + (match next { None => preorder(node), Some(k) => forest_from(node, k as nat) }).len()
}
impl<'x, N: Node> NodeIter<'x, N> {
    /// what is still to be yielded
    #[verifier::prophetic]
    pub open spec fn rem(self) -> Seq<N> decreases self {
        match self {
            NodeIter::Direct { iter } => IteratorSpec::remaining(&iter).unref(),
            NodeIter::Tree { node, child, next } =>
              (match child { None => Seq::empty(), Some(c) => c.rem() }) +
              (match next { None => preorder(*node), Some(k) => forest_from(*node, k as nat) }),
        }
    }
    /// how many it is still going to yield, from what it holds
    pub open spec fn togo(self) -> nat decreases self {
        match self {
            NodeIter::Direct { iter } => slice_togo(iter),
            NodeIter::Tree { node, child, next } =>
              (match child { None => 0, Some(c) => c.togo() }) +
              (match next { None => preorder(*node), Some(k) => forest_from(*node, k as nat) }).len(),
        }
    }
    /// a child is being walked only once the node itself was yielded
    pub open spec fn wf(self) -> bool decreases self {
        match self {
            NodeIter::Direct { iter } => true,
            NodeIter::Tree { node, child, next } => match child { None => true, Some(c) => next is Some && c.wf() },
        }
    }
    pub open spec fn meas(self) -> nat decreases self {
        match self {
            NodeIter::Direct { iter } => 0,
            NodeIter::Tree { node, child, next } => {
                let c = match child { None => 0, Some(c) => c.meas() };
                1 + (if c > node.s_height() { c } else { node.s_height() })
            }
        }
    }
}
pub open spec fn slice_togo<'x, N>(it: std::slice::Iter<'x, N>) -> nat { IteratorSpec::decrease(&it).unwrap() }
pub mod finite {
    use super::*;
    /// a slice is finite: its iterator has a measure
    pub broadcast axiom fn axiom_slice_finite<'x, N>(it: std::slice::Iter<'x, N>)
        ensures #[trigger] IteratorSpec::decrease(&it) is Some;
}
