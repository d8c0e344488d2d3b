pub mod regex {
    use vstd::prelude::*;
    verus! {
    /// stand-in for regex::Regex (assumed contract: is_match decides the language of the pattern)
    #[verifier::external_body]
    pub struct Regex { _p: () }
    pub uninterp spec fn found(re: &Regex, s: Seq<char>) -> bool;
    impl Regex {
        #[verifier::external_body]
        pub fn is_match(&self, haystack: &str) -> (r: bool)
            ensures r == found(self, haystack@),
        { unimplemented!() }
    }
    }
}

//@implhead pattern::<Pattern for bool>::matches
{
    open spec fn s_matches(&self, haystack: &S) -> bool { *self }
    open spec fn s_ok(&self) -> bool { true }
//@fn pattern::<Pattern for bool>::matches ret=r novis
//@end
//@fn pattern::<Pattern for bool>::value??pattern::Pattern::value ret=r novis
//@end
}

//@implhead pattern::<Pattern for &str>::matches
{
    open spec fn s_matches(&self, haystack: &S) -> bool { as_ref_of::<S, str>(haystack)@ == self@ }
    open spec fn s_ok(&self) -> bool { text_laws::<'a, S>() }
//@fn pattern::<Pattern for &str>::matches ret=r novis
//@end
//@fn pattern::<Pattern for &str>::value??pattern::Pattern::value ret=r novis
//@end
}

//@implhead pattern::<Pattern for Cow>::matches
{
    open spec fn s_matches(&self, haystack: &S) -> bool { as_ref_of::<S, str>(haystack)@ == cow_view(self) }
    open spec fn s_ok(&self) -> bool { text_laws::<S>() }
//@fn pattern::<Pattern for Cow>::matches ret=r novis
//@end
//@fn pattern::<Pattern for Cow>::value??pattern::Pattern::value ret=r novis
//@end
}

//@implhead pattern::<Pattern for String>::matches
{
    open spec fn s_matches(&self, haystack: &S) -> bool { as_ref_of::<S, str>(haystack)@ == self@ }
    open spec fn s_ok(&self) -> bool { text_laws::<S>() }
//@fn pattern::<Pattern for String>::matches ret=r novis
//@end
//@fn pattern::<Pattern for String>::value??pattern::Pattern::value ret=r novis
//@end
}

//@implhead pattern::<Pattern for Regex>::matches
{
    open spec fn s_matches(&self, haystack: &S) -> bool { regex::found(self, as_ref_of::<S, str>(haystack)@) }
    open spec fn s_ok(&self) -> bool { true }
//@fn pattern::<Pattern for Regex>::matches ret=r novis
//@end
//@fn pattern::<Pattern for Regex>::value??pattern::Pattern::value ret=r novis
//@end
}
