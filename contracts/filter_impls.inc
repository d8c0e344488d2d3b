//@implhead filter::<Filter for ()>::matches
{
    open spec fn s_matches(&self, node: &N) -> bool { true }
    open spec fn s_ok(&self) -> bool { true }
//@fn filter::<Filter for ()>::matches ret=r novis
//@end
}

//@implhead filter::<Filter for And>::matches
{
    open spec fn s_matches(&self, node: &N) -> bool { self.0.s_matches(node) && self.1.s_matches(node) }
    open spec fn s_ok(&self) -> bool { self.0.s_ok() && self.1.s_ok() }
//@fn filter::<Filter for And>::matches ret=r novis
//@end
}

//@implhead filter::<Filter for Or>::matches
{
    open spec fn s_matches(&self, node: &N) -> bool { self.0.s_matches(node) || self.1.s_matches(node) }
    open spec fn s_ok(&self) -> bool { self.0.s_ok() && self.1.s_ok() }
//@fn filter::<Filter for Or>::matches ret=r novis
//@end
}

//@implhead filter::<Filter for Attr>::matches
{
    open spec fn s_matches(&self, node: &T) -> bool { attr_matches(node.s_attrs(), self.name, self.value) }
    open spec fn s_ok(&self) -> bool { self.name.s_ok() && self.value.s_ok() && obeys_cmp::<T::Text>() }
//@fn filter::<Filter for Attr>::matches ret=r novis loops=1
//@attr #[verifier::loop_isolation(false)]
//@iter 0 it .iter()
//@bodystart
    proof { assert(vstd::std_specs::btree::key_obeys_cmp_spec::<T::Text>()) by { broadcast use vstd::std_specs::btree::axiom_key_obeys_cmp_spec_meaning; } }
//@loop 0
    invariant
        $1.s_attrs() is Some,
        forall|j: int| 0 <= j < it.seq().len() ==> ($1.s_attrs()->Some_0@.contains_key(*(#[trigger] it.seq()[j]).0)
            && $1.s_attrs()->Some_0@[*it.seq()[j].0] == *it.seq()[j].1),
        forall|j: int| 0 <= j < it.index() ==>
            !(self.name.s_matches((#[trigger] it.seq()[j]).0) && self.value.s_matches(it.seq()[j].1)),
//@end
}

//@implhead filter::<Filter for Tag>::matches
{
    open spec fn s_matches(&self, node: &N) -> bool { tag_matches(node.s_name(), self.tag) }
    open spec fn s_ok(&self) -> bool { self.tag.s_ok() }
//@fn filter::<Filter for Tag>::matches ret=r novis
//@end
}
