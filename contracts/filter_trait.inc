pub trait Filter<N> {
    /// whether the filter accepts a node
    spec fn s_matches(&self, node: &N) -> bool;
    /// laws the patterns and text types have to satisfy
    spec fn s_ok(&self) -> bool;
//@fn filter::Filter::matches ret=r novis sigonly
        requires self.s_ok(),
        ensures r == self.s_matches($1),
//@end
}
