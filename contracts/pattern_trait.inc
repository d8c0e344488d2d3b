pub trait Pattern<S> {
    /// whether the pattern accepts a text
    spec fn s_matches(&self, haystack: &S) -> bool;
    /// laws the text type has to satisfy
    spec fn s_ok(&self) -> bool;

//@fn pattern::Pattern::matches ret=r novis sigonly
        requires self.s_ok(),
        ensures r == self.s_matches($1),
//@end
//@fn pattern::Pattern::value ret=r novis sigonly
        requires self.s_ok(),
        // a direct look-up finds exactly what matching finds
        ensures r matches Some(v) ==> forall|k: S| #[trigger] self.s_matches(&k) <==> k == v,
//@end
}
