// vx-spare begin
    // ---- parts of nom 7 that the code does not use at present
    #[verifier::external_body]
    pub fn opt<'a, O, A: P<'a, O>>(a: A) -> (p: Parse<'a, Option<O>>)
        requires shrinks(a),
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, Option<O>>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O>| #[trigger] a.rel(i, x)
                && match x { Ok(y) => r == Ok::<(&'a str, Option<O>), nom::Err<E>>((y.0, Some(y.1))), Err(nom::Err::Error(_)) => r == Ok::<(&'a str, Option<O>), nom::Err<E>>((i, None)), Err(e) => r == Err::<(&'a str, Option<O>), nom::Err<E>>(e) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek<'a, O, A: P<'a, O>>(a: A) -> (p: Parse<'a, O>)
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, O>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O>| #[trigger] a.rel(i, x)
                && match x { Ok(y) => r == Ok::<(&'a str, O), nom::Err<E>>((i, y.1)), Err(e) => r == x },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cut<'a, O, A: P<'a, O>>(a: A) -> (p: Parse<'a, O>)
        requires shrinks(a),
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, O>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O>| #[trigger] a.rel(i, x)
                && match x { Err(nom::Err::Error(e)) => r == Err::<(&'a str, O), nom::Err<E>>(nom::Err::Failure(e)), _ => r == x },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn value<'a, O1: Clone, O2, A: P<'a, O2>>(v: O1, a: A) -> (p: Parse<'a, O1>)
        requires shrinks(a),
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, O1>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, O2>| #[trigger] a.rel(i, x)
                && match x { Ok(y) => r matches Ok(z) && z.0 == y.0 && cloned(v, z.1), Err(e) => r == Err::<(&'a str, O1), nom::Err<E>>(e) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn success<'a, O: Clone>(v: O) -> (p: Parse<'a, O>)
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, O>| #[trigger] p.rel(i, r) ==> (r matches Ok(z) && z.0 == i && cloned(v, z.1)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn verify<'a, A: P<'a, &'a str>, F: Fn(&str) -> bool>(a: A, f: F) -> (p: Parse<'a, &'a str>)
        requires shrinks(a), forall|o: &str| #[trigger] f.requires((o,)),
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, &'a str>| #[trigger] p.rel(i, r) ==> exists|x: IResult<&'a str, &'a str>| #[trigger] a.rel(i, x)
                && match x { Ok(y) => (r == x && f.ensures((y.1,), true)) || (soft(r) && f.ensures((y.1,), false)), Err(e) => r == x },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cond<'a, O, A: P<'a, O>>(b: bool, a: A) -> (p: Parse<'a, Option<O>>)
        requires shrinks(a),
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, Option<O>>| #[trigger] p.rel(i, r) ==> if b { exists|x: IResult<&'a str, O>| #[trigger] a.rel(i, x)
                && match x { Ok(y) => r == Ok::<(&'a str, Option<O>), nom::Err<E>>((y.0, Some(y.1))), Err(e) => r == Err::<(&'a str, Option<O>), nom::Err<E>>(e) } }
                else { r == Ok::<(&'a str, Option<O>), nom::Err<E>>((i, None)) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn eof<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
        ensures if i@.len() == 0 { r == Ok::<(&'a str, &'a str), nom::Err<E>>((i, i)) } else { soft(r) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rest<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
        ensures takes(i, Some(i@.len()), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn multispace1<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
        ensures takes(i, nonzero(run(i@, spaces())), r),
    { unimplemented!() }
    pub open spec fn blanks() -> spec_fn(char) -> bool { |c: char| c == ' ' || c == '\t' }
    #[verifier::external_body]
    pub fn space0<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
        ensures takes(i, Some(run(i@, blanks())), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn space1<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
        ensures takes(i, nonzero(run(i@, blanks())), r),
    { unimplemented!() }
    pub open spec fn alphas() -> spec_fn(char) -> bool { |c: char| 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
    #[verifier::external_body]
    pub fn alpha1<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
        ensures takes(i, nonzero(run(i@, alphas())), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn alpha0<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
        ensures takes(i, Some(run(i@, alphas())), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn alphanumeric0<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
        ensures takes(i, Some(run(i@, alnums())), r),
    { unimplemented!() }
    pub open spec fn digits() -> spec_fn(char) -> bool { |c: char| '0' <= c <= '9' }
    #[verifier::external_body]
    pub fn digit1<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
        ensures takes(i, nonzero(run(i@, digits())), r),
    { unimplemented!() }
    pub open spec fn among(set: Seq<char>) -> spec_fn(char) -> bool { |c: char| set.contains(c) }
    #[verifier::external_body]
    pub fn is_a<'a>(t: &'a str) -> (p: Parse<'a, &'a str>)
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, &'a str>| #[trigger] p.rel(i, r) ==> takes(i, nonzero(run(i@, among(t@))), r),
    { unimplemented!() }
    /// g says what the predicate f says (the opposite of it, if not yes)
    pub open spec fn agree<F: Fn(char) -> bool>(f: F, g: spec_fn(char) -> bool, yes: bool) -> bool {
        forall|c: char, b: bool| #[trigger] f.ensures((c,), b) ==> b == (g(c) == yes)
    }
    #[verifier::external_body]
    pub fn take_while<'a, F: Fn(char) -> bool>(f: F) -> (p: Parse<'a, &'a str>)
        requires forall|c: char| #[trigger] f.requires((c,)),
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, &'a str>, g: spec_fn(char) -> bool| #![trigger p.rel(i, r), run(i@, g)] p.rel(i, r) && agree(f, g, true) ==> takes(i, Some(run(i@, g)), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_while1<'a, F: Fn(char) -> bool>(f: F) -> (p: Parse<'a, &'a str>)
        requires forall|c: char| #[trigger] f.requires((c,)),
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, &'a str>, g: spec_fn(char) -> bool| #![trigger p.rel(i, r), run(i@, g)] p.rel(i, r) && agree(f, g, true) ==> takes(i, nonzero(run(i@, g)), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_till<'a, F: Fn(char) -> bool>(f: F) -> (p: Parse<'a, &'a str>)
        requires forall|c: char| #[trigger] f.requires((c,)),
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, &'a str>, g: spec_fn(char) -> bool| #![trigger p.rel(i, r), run(i@, g)] p.rel(i, r) && agree(f, g, false) ==> takes(i, Some(run(i@, g)), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_till1<'a, F: Fn(char) -> bool>(f: F) -> (p: Parse<'a, &'a str>)
        requires forall|c: char| #[trigger] f.requires((c,)),
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, &'a str>, g: spec_fn(char) -> bool| #![trigger p.rel(i, r), run(i@, g)] p.rel(i, r) && agree(f, g, false) ==> takes(i, nonzero(run(i@, g)), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn satisfy<'a, F: Fn(char) -> bool>(f: F) -> (p: Parse<'a, char>)
        requires forall|c: char| #[trigger] f.requires((c,)),
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, char>| #[trigger] p.rel(i, r) ==>
                (i@.len() > 0 && f.ensures((i@[0],), true) && (r matches Ok(x) && x.0@ == i@.skip(1) && x.1 == i@[0]))
                || ((i@.len() == 0 || f.ensures((i@[0],), false)) && soft(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_until1<'a>(t: &'a str) -> (p: Parse<'a, &'a str>)
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, &'a str>| #[trigger] p.rel(i, r) ==> takes(i, if find(i@, t@) == Some(0nat) { None } else { find(i@, t@) }, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take<'a>(n: usize) -> (p: Parse<'a, &'a str>)
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, &'a str>| #[trigger] p.rel(i, r) ==> takes(i, if n <= i@.len() { Some(n as nat) } else { None }, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn one_of<'a>(t: &'a str) -> (p: Parse<'a, char>)
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, char>| #[trigger] p.rel(i, r) ==>
                if i@.len() > 0 && t@.contains(i@[0]) { r matches Ok(x) && x.0@ == i@.skip(1) && x.1 == i@[0] } else { soft(r) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn none_of<'a>(t: &'a str) -> (p: Parse<'a, char>)
        ensures shrinks(p), forall|n: nat| #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, char>| #[trigger] p.rel(i, r) ==>
                if i@.len() > 0 && !t@.contains(i@[0]) { r matches Ok(x) && x.0@ == i@.skip(1) && x.1 == i@[0] } else { soft(r) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn many1<'a, O, A: P<'a, O>>(a: A) -> (p: Parse<'a, Vec<O>>)
        requires shrinks(a),
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, Vec<O>>| #[trigger] p.rel(i, r) ==>
                (exists|at: Seq<&'a str>, os: Seq<O>| #[trigger] many(a, i, at, os, r) && (r matches Ok(z) ==> z.1@ == os && os.len() > 0))
                || (soft_fail(a, i) && soft(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn many1_count<'a, O, A: P<'a, O>>(a: A) -> (p: Parse<'a, usize>)
        requires shrinks(a),
        ensures shrinks(p), forall|n: nat| a.ok(n) ==> #[trigger] p.ok(n),
            forall|i: &'a str, r: IResult<&'a str, usize>| #[trigger] p.rel(i, r) ==>
                (exists|at: Seq<&'a str>, os: Seq<O>| #[trigger] many(a, i, at, os, r) && (r matches Ok(z) ==> z.1 == os.len() && os.len() > 0))
                || (soft_fail(a, i) && soft(r)),
    { unimplemented!() }
// vx-spare end
