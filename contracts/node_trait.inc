// ---- the Node trait: signatures from the source, ghost view added
pub trait Node: Sized {
    type Text;

    spec fn s_name(&self) -> Option<Self::Text>;
    spec fn s_text(&self) -> Option<Self::Text>;
    spec fn s_attrs(&self) -> Option<BTreeMap<Self::Text, Self::Text>>;
    spec fn s_children(&self) -> Seq<Self>;
    spec fn s_height(&self) -> nat;

    /// a node is a finite tree
    proof fn lemma_height(&self, i: int)
        requires 0 <= i < self.s_children().len(),
        ensures self.s_children()[i].s_height() < self.s_height();

//@fn node::Node::name ret=r novis sigonly
        ensures r == opt_ref(self.s_name()),
//@end
//@fn node::Node::text ret=r novis sigonly
        ensures r == opt_ref(self.s_text()),
//@end
//@fn node::Node::attrs ret=r novis sigonly
        ensures r == opt_ref(self.s_attrs()),
//@end
//@fn node::Node::children ret=r novis sigonly
        ensures r@ == self.s_children(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).s_height() < self.s_height(),
//@end
}

pub open spec fn opt_ref<'a, T>(o: Option<T>) -> Option<&'a T> {
    match o { Some(t) => Some(&t), None => None }
}

/// The node itself, then the subtrees of its children from first to last.
pub open spec fn preorder<N: Node>(n: N) -> Seq<N>
    decreases n.s_height(), 1nat, 0nat
{
    seq![n] + forest_from(n, 0)
}
/// The subtrees of the children from index k on.  (The height guard is always true: see lemma_height.)
pub open spec fn forest_from<N: Node>(n: N, k: nat) -> Seq<N>
    decreases n.s_height(), 0nat, n.s_children().len() - k
{
    if k < n.s_children().len() && n.s_children()[k as int].s_height() < n.s_height() {
        preorder(n.s_children()[k as int]) + forest_from(n, k + 1)
    } else { Seq::empty() }
}
