// ---- mirror of the parts of nom 7 that are used (assumed; the harness runs the real code). A parser is described by
// the relation between its input and its result; results of slicing combinators are described by their characters.
pub type E = nom::error::Error0;
pub mod nom {
    use vstd::prelude::*;
    pub use super::comb::IResult;
    pub enum Err<X> { Incomplete(usize), Error(X), Failure(X) }
    pub mod error {
        use vstd::prelude::*;
        pub enum ErrorKind {
            Tag, MapRes, MapOpt, Alt, IsNot, IsA, SeparatedList, SeparatedNonEmptyList, Many0, Many1, ManyTill, Count, TakeUntil, LengthValue,
            TagClosure, Alpha, Digit, HexDigit, OctDigit, AlphaNumeric, Space, MultiSpace, LengthValueFn, Eof, Switch, TagBits, OneOf, NoneOf, Char,
            CrLf, RegexpMatch, RegexpMatches, RegexpFind, RegexpCapture, RegexpCaptures, TakeWhile1, Complete, Fix, Escaped, EscapedTransform, NonEmpty,
            ManyMN, Not, Permutation, Verify, TakeTill1, TakeWhileMN, TooLarge, Many0Count, Many1Count, Float, Satisfy, Fail,
        }
        pub type Error = Error0;
        /// stands for the error type
        #[verifier::external_body]
        pub struct Error0 { _p: () }
        impl Error0 {
            #[verifier::external_body]
            pub fn from_error_kind(i: &str, k: ErrorKind) -> Error0 { unimplemented!() }
            #[verifier::external_body]
            pub fn new(i: &str, k: ErrorKind) -> Error0 { unimplemented!() }
        }
    }
    pub mod combinator { pub use super::super::comb::*; }
    pub mod branch { pub use super::super::comb::*; }
    pub mod multi { pub use super::super::comb::*; }
    pub mod sequence { pub use super::super::comb::*; }
    pub mod bytes { pub mod complete { pub use super::super::super::comb::*; } }
    pub mod character { pub mod complete { pub use super::super::super::comb::*; } }
}
pub mod comb {
    use vstd::prelude::*;
    use super::*;
    pub type IResult<I, O, X = E> = Result<(I, O), nom::Err<X>>;
    pub trait P<'a, O>: Sized {
        /// what the parser can answer to an input
        spec fn rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool;
        /// it may be run on every input of at most n characters
        spec fn ok(self, n: nat) -> bool;
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(O)]
    pub struct Parse<'a, O> { p: &'a O }
    impl<'a, O> P<'a, O> for Parse<'a, O> {
        uninterp spec fn rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool;
        uninterp spec fn ok(self, n: nat) -> bool;
    }
    impl<'a, O> Parse<'a, O> {
        #[verifier::external_body]
        pub fn run(&self, i: &'a str) -> (r: IResult<&'a str, O>)
            requires (*self).ok(i@.len()),
            ensures (*self).rel(i, r),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn parse(&self, i: &'a str) -> (r: IResult<&'a str, O>)
            requires (*self).ok(i@.len()),
            ensures (*self).rel(i, r),
        { unimplemented!() }
    }
    impl<'a, O, F: Fn(&'a str) -> IResult<&'a str, O>> P<'a, O> for F {
        open spec fn rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool { self.ensures((i,), r) }
        open spec fn ok(self, n: nat) -> bool { forall|i: &'a str| i@.len() <= n ==> #[trigger] self.requires((i,)) }
    }
    /// the rest is never longer than the input
    pub open spec fn shrinks<'a, O, A: P<'a, O>>(a: A) -> bool {
        forall|i: &'a str, r: IResult<&'a str, O>| #[trigger] a.rel(i, r) ==> (r matches Ok(x) ==> x.0@.len() <= i@.len())
    }
    pub open spec fn soft<'a, O>(r: IResult<&'a str, O>) -> bool { r matches Err(nom::Err::Error(_)) }
    pub open spec fn soft_fail<'a, O, A: P<'a, O>>(a: A, i: &'a str) -> bool {
        exists|x: IResult<&'a str, O>| #[trigger] a.rel(i, x) && soft(x)
    }
    pub open spec fn same<T>(a: T, b: T) -> bool { a == b }
    /// the answer of a parser that takes n characters (None: it does not match)
    pub open spec fn takes<'a>(i: &'a str, n: Option<nat>, r: IResult<&'a str, &'a str>) -> bool {
        match n {
            Some(n) => r matches Ok(x) && n <= i@.len() && x.0@ == i@.skip(n as int) && x.1@ == i@.take(n as int),
            None => soft(r),
        }
    }
    /// a parser of any form, as a value
    #[verifier::external_body]
    pub fn parser<'a, O, A: P<'a, O>>(a: A) -> (p: Parse<'a, O>)
        ensures forall|i: &'a str, r: IResult<&'a str, O>| #[trigger] p.rel(i, r) ==> a.rel(i, r),
            forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn tag<'a>(t: &'a str) -> (p: Parse<'a, &'a str>)
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, &'a str>| #[trigger] p.rel(i, r) ==> takes(i, if starts(i@, t@) { Some(t@.len()) } else { None }, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_not<'a>(t: &'a str) -> (p: Parse<'a, &'a str>)
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, &'a str>| #[trigger] p.rel(i, r) ==> takes(i, nonzero(run(i@, not_in(t@))), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_until<'a>(t: &'a str) -> (p: Parse<'a, &'a str>)
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, &'a str>| #[trigger] p.rel(i, r) ==> takes(i, find(i@, t@), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn alphanumeric1<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
        ensures takes(i, nonzero(run(i@, alnums())), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn multispace0<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
        ensures takes(i, Some(run(i@, spaces())), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn anychar<'a>(i: &'a str) -> (r: IResult<&'a str, char>)
        ensures if i@.len() == 0 { soft(r) } else { r matches Ok(x) && x.0@ == i@.skip(1) && x.1 == i@[0] },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn char<'a>(c: char) -> (p: Parse<'a, char>)
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, char>| #[trigger] p.rel(i, r) ==>
                if i@.len() > 0 && i@[0] == c { r matches Ok(x) && x.0@ == i@.skip(1) && x.1 == c } else { soft(r) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<'a, O1, O2, A: P<'a, O1>, F: Fn(O1) -> O2>(a: A, f: F) -> (p: Parse<'a, O2>)
        requires shrinks(a), forall|o: O1| #[trigger] f.requires((o,)),
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, O2>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O1>| #[trigger] a.rel(i, x)
                && match x { Ok(y) => r matches Ok(z) && z.0 == y.0 && f.ensures((y.1,), z.1), Err(e) => r == Err::<(&'a str, O2), nom::Err<E>>(e) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn not<'a, O, A: P<'a, O>>(a: A) -> (p: Parse<'a, ()>)
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, ()>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O>| #[trigger] a.rel(i, x)
                && match x { Ok(y) => soft(r), Err(nom::Err::Error(_)) => r == Ok::<(&'a str, ()), nom::Err<E>>((i, ())), Err(e) => r == Err::<(&'a str, ()), nom::Err<E>>(e) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn recognize<'a, O, A: P<'a, O>>(a: A) -> (p: Parse<'a, &'a str>)
        requires shrinks(a),
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, &'a str>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O>| #[trigger] a.rel(i, x)
                && match x {
                    Ok(y) => r matches Ok(z) && z.0 == y.0 && z.1@ == i@.take(i@.len() - y.0@.len()),
                    Err(e) => r == Err::<(&'a str, &'a str), nom::Err<E>>(e),
                },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all_consuming<'a, O, A: P<'a, O>>(a: A) -> (p: Parse<'a, O>)
        requires shrinks(a),
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, O>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O>| #[trigger] a.rel(i, x)
                && (if x matches Ok(y) && y.0@.len() > 0 { soft(r) } else { r == x }),
    { unimplemented!() }
    /// r is the answer of running b on the rest that the first part x left, with its output changed by nothing
    pub open spec fn fails_with<'a, O1, O2>(x: IResult<&'a str, O1>, r: IResult<&'a str, O2>) -> bool {
        x matches Err(e) && r == Err::<(&'a str, O2), nom::Err<E>>(e)
    }
    #[verifier::external_body]
    pub fn preceded<'a, O1, O2, A: P<'a, O1>, B: P<'a, O2>>(a: A, b: B) -> (p: Parse<'a, O2>)
        requires shrinks(a), shrinks(b),
        ensures shrinks(p), forall|n: nat| a.ok(n) && b.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, O2>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O1>| #[trigger] a.rel(i, x)
                && (fails_with(x, r) || (x matches Ok(y) && b.rel(y.0, r))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn terminated<'a, O1, O2, A: P<'a, O1>, B: P<'a, O2>>(a: A, b: B) -> (p: Parse<'a, O1>)
        requires shrinks(a), shrinks(b),
        ensures shrinks(p), forall|n: nat| a.ok(n) && b.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, O1>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O1>| #[trigger] a.rel(i, x)
                && (fails_with(x, r) || (x matches Ok(y) && exists|z: IResult<&'a str, O2>| #[trigger] b.rel(y.0, z)
                    && (fails_with(z, r) || (z matches Ok(u) && r == Ok::<(&'a str, O1), nom::Err<E>>((u.0, y.1)))))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pair<'a, O1, O2, A: P<'a, O1>, B: P<'a, O2>>(a: A, b: B) -> (p: Parse<'a, (O1, O2)>)
        requires shrinks(a), shrinks(b),
        ensures shrinks(p), forall|n: nat| a.ok(n) && b.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, (O1, O2)>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O1>| #[trigger] a.rel(i, x)
                && (fails_with(x, r) || (x matches Ok(y) && exists|z: IResult<&'a str, O2>| #[trigger] b.rel(y.0, z)
                    && (fails_with(z, r) || (z matches Ok(u) && r == Ok::<(&'a str, (O1, O2)), nom::Err<E>>((u.0, (y.1, u.1))))))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delimited<'a, O1, O2, O3, A: P<'a, O1>, B: P<'a, O2>, C: P<'a, O3>>(a: A, b: B, c: C) -> (p: Parse<'a, O2>)
        requires shrinks(a), shrinks(b), shrinks(c),
        ensures shrinks(p), forall|n: nat| a.ok(n) && b.ok(n) && c.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, O2>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O1>| #[trigger] a.rel(i, x)
                && (fails_with(x, r) || (x matches Ok(y) && exists|z: IResult<&'a str, O2>| #[trigger] b.rel(y.0, z)
                    && (fails_with(z, r) || (z matches Ok(u) && exists|w: IResult<&'a str, O3>| #[trigger] c.rel(u.0, w)
                        && (fails_with(w, r) || (w matches Ok(v) && r == Ok::<(&'a str, O2), nom::Err<E>>((v.0, u.1)))))))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn separated_pair<'a, O1, O2, O3, A: P<'a, O1>, B: P<'a, O2>, C: P<'a, O3>>(a: A, b: B, c: C) -> (p: Parse<'a, (O1, O3)>)
        requires shrinks(a), shrinks(b), shrinks(c),
        ensures shrinks(p), forall|n: nat| a.ok(n) && b.ok(n) && c.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, (O1, O3)>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O1>| #[trigger] a.rel(i, x)
                && (fails_with(x, r) || (x matches Ok(y) && exists|z: IResult<&'a str, O2>| #[trigger] b.rel(y.0, z)
                    && (fails_with(z, r) || (z matches Ok(u) && exists|w: IResult<&'a str, O3>| #[trigger] c.rel(u.0, w)
                        && (fails_with(w, r) || (w matches Ok(v) && r == Ok::<(&'a str, (O1, O3)), nom::Err<E>>((v.0, (y.1, v.1))))))))),
    { unimplemented!() }
    /// parsers one after the other
    pub trait Tuple<'a, O>: Sized {
        spec fn tuple_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool;
        spec fn tuple_ok(self, n: nat) -> bool;
        spec fn tuple_shrinks(self) -> bool;
    }
    impl<'a, O1, O2, A: P<'a, O1>, B: P<'a, O2>> Tuple<'a, (O1, O2)> for (A, B) {
        open spec fn tuple_rel(self, i: &'a str, r: IResult<&'a str, (O1, O2)>) -> bool { exists|x: IResult<&'a str, O1>| #[trigger] self.0.rel(i, x) && (fails_with(x, r) || (x matches Ok(y) && exists|z: IResult<&'a str, O2>| #[trigger] self.1.rel(y.0, z) && (fails_with(z, r) || (z matches Ok(u) && r == Ok::<(&'a str, (O1, O2)), nom::Err<E>>((u.0, (y.1, u.1))))))) }
        open spec fn tuple_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) }
        open spec fn tuple_shrinks(self) -> bool { shrinks(self.0) && shrinks(self.1) }
    }
    impl<'a, O1, O2, O3, A: P<'a, O1>, B: P<'a, O2>, C: P<'a, O3>> Tuple<'a, (O1, O2, O3)> for (A, B, C) {
        open spec fn tuple_rel(self, i: &'a str, r: IResult<&'a str, (O1, O2, O3)>) -> bool { exists|x: IResult<&'a str, O1>| #[trigger] self.0.rel(i, x) && (fails_with(x, r) || (x matches Ok(y) && exists|z: IResult<&'a str, O2>| #[trigger] self.1.rel(y.0, z) && (fails_with(z, r) || (z matches Ok(u) && exists|w: IResult<&'a str, O3>| #[trigger] self.2.rel(u.0, w) && (fails_with(w, r) || (w matches Ok(v) && r == Ok::<(&'a str, (O1, O2, O3)), nom::Err<E>>((v.0, (y.1, u.1, v.1))))))))) }
        open spec fn tuple_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) }
        open spec fn tuple_shrinks(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) }
    }
    impl<'a, O1, O2, O3, O4, A: P<'a, O1>, B: P<'a, O2>, C: P<'a, O3>, D: P<'a, O4>> Tuple<'a, (O1, O2, O3, O4)> for (A, B, C, D) {
        open spec fn tuple_rel(self, i: &'a str, r: IResult<&'a str, (O1, O2, O3, O4)>) -> bool { exists|x: IResult<&'a str, O1>| #[trigger] self.0.rel(i, x) && (fails_with(x, r) || (x matches Ok(y) && exists|z: IResult<&'a str, O2>| #[trigger] self.1.rel(y.0, z) && (fails_with(z, r) || (z matches Ok(u) && exists|w: IResult<&'a str, O3>| #[trigger] self.2.rel(u.0, w) && (fails_with(w, r) || (w matches Ok(v) && exists|s: IResult<&'a str, O4>| #[trigger] self.3.rel(v.0, s) && (fails_with(s, r) || (s matches Ok(m) && r == Ok::<(&'a str, (O1, O2, O3, O4)), nom::Err<E>>((m.0, (y.1, u.1, v.1, m.1))))))))))) }
        open spec fn tuple_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) }
        open spec fn tuple_shrinks(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) }
    }
    impl<'a, O1, O2, O3, O4, O5, A: P<'a, O1>, B: P<'a, O2>, C: P<'a, O3>, D: P<'a, O4>, G: P<'a, O5>> Tuple<'a, (O1, O2, O3, O4, O5)> for (A, B, C, D, G) {
        open spec fn tuple_rel(self, i: &'a str, r: IResult<&'a str, (O1, O2, O3, O4, O5)>) -> bool { exists|x: IResult<&'a str, O1>| #[trigger] self.0.rel(i, x) && (fails_with(x, r) || (x matches Ok(y) && exists|z: IResult<&'a str, O2>| #[trigger] self.1.rel(y.0, z) && (fails_with(z, r) || (z matches Ok(u) && exists|w: IResult<&'a str, O3>| #[trigger] self.2.rel(u.0, w) && (fails_with(w, r) || (w matches Ok(v) && exists|s: IResult<&'a str, O4>| #[trigger] self.3.rel(v.0, s) && (fails_with(s, r) || (s matches Ok(m) && exists|q: IResult<&'a str, O5>| #[trigger] self.4.rel(m.0, q) && (fails_with(q, r) || (q matches Ok(n) && r == Ok::<(&'a str, (O1, O2, O3, O4, O5)), nom::Err<E>>((n.0, (y.1, u.1, v.1, m.1, n.1))))))))))))) }
        open spec fn tuple_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) && self.4.ok(n) }
        open spec fn tuple_shrinks(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) && shrinks(self.4) }
    }
    impl<'a, O1, O2, O3, O4, O5, O6, A: P<'a, O1>, B: P<'a, O2>, C: P<'a, O3>, D: P<'a, O4>, G: P<'a, O5>, H: P<'a, O6>> Tuple<'a, (O1, O2, O3, O4, O5, O6)> for (A, B, C, D, G, H) {
        open spec fn tuple_rel(self, i: &'a str, r: IResult<&'a str, (O1, O2, O3, O4, O5, O6)>) -> bool { exists|x: IResult<&'a str, O1>| #[trigger] self.0.rel(i, x) && (fails_with(x, r) || (x matches Ok(y) && exists|z: IResult<&'a str, O2>| #[trigger] self.1.rel(y.0, z) && (fails_with(z, r) || (z matches Ok(u) && exists|w: IResult<&'a str, O3>| #[trigger] self.2.rel(u.0, w) && (fails_with(w, r) || (w matches Ok(v) && exists|s: IResult<&'a str, O4>| #[trigger] self.3.rel(v.0, s) && (fails_with(s, r) || (s matches Ok(m) && exists|q: IResult<&'a str, O5>| #[trigger] self.4.rel(m.0, q) && (fails_with(q, r) || (q matches Ok(n) && exists|t: IResult<&'a str, O6>| #[trigger] self.5.rel(n.0, t) && (fails_with(t, r) || (t matches Ok(h) && r == Ok::<(&'a str, (O1, O2, O3, O4, O5, O6)), nom::Err<E>>((h.0, (y.1, u.1, v.1, m.1, n.1, h.1))))))))))))))) }
        open spec fn tuple_ok(self, n: nat) -> bool { self.0.ok(n) && self.1.ok(n) && self.2.ok(n) && self.3.ok(n) && self.4.ok(n) && self.5.ok(n) }
        open spec fn tuple_shrinks(self) -> bool { shrinks(self.0) && shrinks(self.1) && shrinks(self.2) && shrinks(self.3) && shrinks(self.4) && shrinks(self.5) }
    }
    #[verifier::external_body]
    pub fn tuple<'a, O, L: Tuple<'a, O>>(l: L) -> (p: Parse<'a, O>)
        requires l.tuple_shrinks(),
        ensures shrinks(p), forall|n: nat| l.tuple_ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, O>| #[trigger] p.rel(i, r) ==> l.tuple_rel(i, r),
    { unimplemented!() }
    pub trait Alts<'a, O>: Sized {
        spec fn alts_rel(self, i: &'a str, r: IResult<&'a str, O>) -> bool;
        spec fn alts_ok(self, n: nat) -> bool;
        spec fn alts_shrink(self) -> bool;
    }
//@include nom_alts.inc
    #[verifier::external_body]
    pub fn alt<'a, O, L: Alts<'a, O>>(l: L) -> (p: Parse<'a, O>)
        requires l.alts_shrink(),
        ensures shrinks(p), forall|n: nat| l.alts_ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, O>| #[trigger] p.rel(i, r) ==> l.alts_rel(i, r),
    { unimplemented!() }
    /// a was run again and again: from at[k] it went to at[k + 1] with output os[k]
    #[verifier::opaque]
    pub open spec fn steps<'a, O, A: P<'a, O>>(a: A, i: &'a str, at: Seq<&'a str>, os: Seq<O>) -> bool {
        at.len() == os.len() + 1 && at[0] == i
            && forall|k: int| 0 <= k < os.len() ==> (#[trigger] at[k])@.len() > at[k + 1]@.len() && a.rel(at[k], Ok((at[k + 1], os[k])))
    }
    /// why it ended: x is the answer at the last place
    pub open spec fn stops<'a, O, O2>(last: &'a str, x: IResult<&'a str, O>, r: IResult<&'a str, O2>) -> bool {
        match x {
            Err(nom::Err::Error(_)) => r matches Ok(z) && z.0 == last,
            Err(e) => r == Err::<(&'a str, O2), nom::Err<E>>(e),
            Ok(y) => y.0@.len() == last@.len() && soft(r),
        }
    }
    pub open spec fn many<'a, O, O2, A: P<'a, O>>(a: A, i: &'a str, at: Seq<&'a str>, os: Seq<O>, r: IResult<&'a str, O2>) -> bool {
        steps(a, i, at, os) && exists|x: IResult<&'a str, O>| #[trigger] a.rel(at.last(), x) && stops(at.last(), x, r)
    }
    #[verifier::external_body]
    pub fn many0<'a, O, A: P<'a, O>>(a: A) -> (p: Parse<'a, Vec<O>>)
        requires shrinks(a),
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, Vec<O>>| #[trigger] p.rel(i, r) ==> exists|at: Seq<&'a str>, os: Seq<O>|
                #[trigger] many(a, i, at, os, r) && (r matches Ok(z) ==> z.1@ == os),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn many0_count<'a, O, A: P<'a, O>>(a: A) -> (p: Parse<'a, usize>)
        requires shrinks(a),
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, usize>| #[trigger] p.rel(i, r) ==> exists|at: Seq<&'a str>, os: Seq<O>|
                #[trigger] many(a, i, at, os, r) && (r matches Ok(z) ==> z.1 == os.len()),
    { unimplemented!() }
//@include nom_more.inc
}
pub use comb::*;
