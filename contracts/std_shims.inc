// ---- assumed contracts on the standard library (trusted; see DESIGN.md, "Assumptions")
pub mod std_shims {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use vstd::std_specs::cmp::*;
    use core::marker::PointeeSized;
    use std::borrow::Cow;
    verus! {
    pub uninterp spec fn as_ref_of<S: PointeeSized, T: PointeeSized>(s: &S) -> &T;
    #[verifier::external_trait_specification]
    pub trait ExAsRef<T: PointeeSized>: PointeeSized {
        type ExternalTraitSpecificationFor: AsRef<T> + PointeeSized;
        fn as_ref(&self) -> (r: &T)
            ensures r == as_ref_of::<Self, T>(self);
    }
    pub open spec fn cow_view(c: &Cow<'_, str>) -> Seq<char> { as_ref_of::<Cow<'_, str>, str>(c)@ }
    // comparing texts of different types compares their characters
    pub broadcast axiom fn axiom_eq_string_str(a: &String, b: &str)
        ensures (#[trigger] <String as PartialEqSpec<str>>::eq_spec(a, b)) == (a@ == b@);
    pub broadcast axiom fn axiom_eq_str_string(a: &str, b: &String)
        ensures (#[trigger] <str as PartialEqSpec<String>>::eq_spec(a, b)) == (a@ == b@);
    pub broadcast axiom fn axiom_eq_cow_str<'a>(a: &Cow<'a, str>, b: &str)
        ensures (#[trigger] <Cow<'a, str> as PartialEqSpec<str>>::eq_spec(a, b)) == (cow_view(a) == b@);
    pub broadcast axiom fn axiom_eq_str_cow<'a>(a: &str, b: &Cow<'a, str>)
        ensures (#[trigger] <str as PartialEqSpec<Cow<'a, str>>>::eq_spec(a, b)) == (a@ == cow_view(b));
    pub broadcast axiom fn axiom_eq_obeys<'a>(b: &str)
        ensures (#[trigger] b@) == b@,
            <String as PartialEqSpec<str>>::obeys_eq_spec(), <str as PartialEqSpec<String>>::obeys_eq_spec(),
            <Cow<'a, str> as PartialEqSpec<str>>::obeys_eq_spec(), <str as PartialEqSpec<Cow<'a, str>>>::obeys_eq_spec(),
            <Cow<'a, str> as PartialEqSpec<&'a str>>::obeys_eq_spec(), <String as PartialEqSpec<&'a str>>::obeys_eq_spec(),
            <&'a str as PartialEqSpec<Cow<'a, str>>>::obeys_eq_spec(), <&'a str as PartialEqSpec<String>>::obeys_eq_spec();
    pub broadcast axiom fn axiom_eq_string_rstr<'a>(a: &String, b: &&'a str)
        ensures (#[trigger] <String as PartialEqSpec<&'a str>>::eq_spec(a, b)) == (a@ == b@);
    pub broadcast axiom fn axiom_eq_rstr_string<'a>(a: &&'a str, b: &String)
        ensures (#[trigger] <&'a str as PartialEqSpec<String>>::eq_spec(a, b)) == (a@ == b@);
    pub broadcast axiom fn axiom_eq_cow_rstr<'a>(a: &Cow<'a, str>, b: &&'a str)
        ensures (#[trigger] <Cow<'a, str> as PartialEqSpec<&'a str>>::eq_spec(a, b)) == (cow_view(a) == b@);
    pub broadcast axiom fn axiom_eq_rstr_cow<'a>(a: &&'a str, b: &Cow<'a, str>)
        ensures (#[trigger] <&'a str as PartialEqSpec<Cow<'a, str>>>::eq_spec(a, b)) == (a@ == cow_view(b));
    pub broadcast group group_text_eq { axiom_eq_obeys, axiom_eq_string_rstr, axiom_eq_rstr_string, axiom_eq_cow_rstr, axiom_eq_rstr_cow,
        axiom_eq_string_str, axiom_eq_str_string, axiom_eq_cow_str, axiom_eq_str_cow }

    pub assume_specification<'a, 'b, B> [<Cow<'a, B> as std::ops::Deref>::deref] (c: &'b Cow<'a, B>) -> (r: &'b B)
        where B: ?Sized + ToOwned
        ensures r == as_ref_of::<Cow<'a, B>, B>(c);

    /// A type of texts: determined by its characters, and made from a string without changing them.
    pub open spec fn text_laws<'a, S: AsRef<str> + From<&'a str>>() -> bool {
        &&& <S as FromSpec<&'a str>>::obeys_from_spec()
        &&& forall|s: &'a str| #![trigger <S as FromSpec<&'a str>>::from_spec(s)] as_ref_of::<S, str>(&<S as FromSpec<&'a str>>::from_spec(s))@ == s@
        &&& forall|a: S, b: S| #![trigger as_ref_of::<S, str>(&a), as_ref_of::<S, str>(&b)]
                as_ref_of::<S, str>(&a)@ == as_ref_of::<S, str>(&b)@ ==> a == b
    }
    }
}
use std_shims::*;
broadcast use std_shims::group_text_eq;
