pub proof fn lemma_sets()
    ensures not_in("\t\n\x0c\r \"'>/="@) == names(), not_in("\t\n\x0c\r \"'=<>`"@) == values(), not_in("<"@) == texts(),
{
    reveal_strlit("\t\n\x0c\r \"'>/=");
    reveal_strlit("\t\n\x0c\r \"'=<>`");
    reveal_strlit("<");
    lemma_set_chars();
    assert(not_in("\t\n\x0c\r \"'>/="@) =~= names());
    assert(not_in("\t\n\x0c\r \"'=<>`"@) =~= values());
    assert(not_in("<"@) =~= texts());
}
/// a set of characters is known by what it contains, in whatever order they are written
pub proof fn lemma_set_is(t: Seq<char>)
    ensures
        (forall|c: char| #[trigger] t.contains(c) == !is_name(c)) ==> not_in(t) == names(),
        (forall|c: char| #[trigger] t.contains(c) == !is_value(c)) ==> not_in(t) == values(),
        (forall|c: char| #[trigger] t.contains(c) == (c == '<')) ==> not_in(t) == texts(),
{
    if forall|c: char| #[trigger] t.contains(c) == !is_name(c) { assert(not_in(t) =~= names()); }
    if forall|c: char| #[trigger] t.contains(c) == !is_value(c) { assert(not_in(t) =~= values()); }
    if forall|c: char| #[trigger] t.contains(c) == (c == '<') { assert(not_in(t) =~= texts()); }
}
proof fn lemma_set_chars()
    ensures forall|c: char| "\t\n\x0c\r \"'>/="@.contains(c) == !is_name(c), forall|c: char| "\t\n\x0c\r \"'=<>`"@.contains(c) == !is_value(c),
        forall|c: char| "<"@.contains(c) == (c == '<'),
{
    reveal_strlit("\t\n\x0c\r \"'>/=");
    reveal_strlit("\t\n\x0c\r \"'=<>`");
    reveal_strlit("<");
    let s = "\t\n\x0c\r \"'>/="@;
    assert(s[0] == '\t' && s[1] == '\n' && s[2] == '\x0c' && s[3] == '\r' && s[4] == ' ' && s[5] == '"' && s[6] == '\'' && s[7] == '>' && s[8] == '/' && s[9] == '=');
    let s = "\t\n\x0c\r \"'=<>`"@;
    assert(s[0] == '\t' && s[1] == '\n' && s[2] == '\x0c' && s[3] == '\r' && s[4] == ' ' && s[5] == '"' && s[6] == '\'' && s[7] == '=' && s[8] == '<' && s[9] == '>' && s[10] == '`');
    let s = "<"@;
    assert(s[0] == '<');
}

// ---- the alternatives, in order, are the language
pub open spec fn first_of(s: Seq<char>) -> Option<(T, Seq<char>)> {
    if comment_at(s) is Some { comment_at(s) }
    else if doctype_at(s) is Some { doctype_at(s) }
    else if void_at(s) is Some { void_at(s) }
    else if raw_element_at(s) is Some { raw_element_at(s) }
    else if element_at(s) is Some { element_at(s) }
    else { text_at(s) }
}
proof fn lemma_mark(s: Seq<char>)
    requires s.len() >= 2, s[0] == '<', s[1] == '!',
    ensures start_at(s) is None,
{
    reveal(start_at);
    reveal(run);
    assert(s.skip(1)[0] == '!');
}
pub broadcast proof fn lemma_alternatives(s: Seq<char>)
    ensures #[trigger] node_at(s) == first_of(s),
        // most of them exclude each other
        text_at(s) is Some ==> comment_at(s) is None && doctype_at(s) is None && void_at(s) is None && raw_element_at(s) is None && element_at(s) is None,
        comment_at(s) is Some ==> doctype_at(s) is None && void_at(s) is None && raw_element_at(s) is None && element_at(s) is None,
        doctype_at(s) is Some ==> void_at(s) is None && raw_element_at(s) is None && element_at(s) is None,
        void_at(s) is Some ==> raw_element_at(s) is None,
{
    reveal(node_at); reveal(nodes_at); reveal(raw_at); reveal(starts);
    lemma_lits();
    if s.len() == 0 || s[0] != '<' {
        reveal(start_at); reveal(run); reveal(starts_nc); reveal(same_nc);
        if s.len() > 0 {
            if starts(s, "<!--"@) { assert(s.take(4)[0] == '<'); }
            if starts_nc(s, "<!doctype "@) { assert(lower(s.take(10)[0]) == lower("<!doctype "@[0])); }
            lemma_run(s, texts());
        }
    } else if starts(s, "<!--"@) {
        assert(s.take(4)[1] == '!');
        assert(s.take(4)[2] == '-');
        lemma_mark(s);
        reveal(starts_nc); reveal(same_nc); reveal(run);
        if starts_nc(s, "<!doctype "@) { assert(lower(s.take(10)[2]) == lower("<!doctype "@[2])); }
    } else if starts_nc(s, "<!doctype "@) {
        reveal(starts_nc); reveal(same_nc); reveal(run);
        assert(lower(s.take(10)[1]) == lower("<!doctype "@[1]));
        lemma_mark(s);
    } else {
        reveal(run);
        lemma_start(s);
        if let Some(t) = start_at(s) {
            lemma_not_both(t.name);
            if is_raw(t.name) {
                lemma_nodes_suffix(t.rest);
                lemma_raw_end(t.rest, t.name);
                let r = nodes_at(t.rest).1;
                if !t.closed && end_at(r, t.name) is Some { lemma_raw_end_found(t.rest, t.rest.len() - r.len(), t.name); }
            }
        }
    }
}
pub broadcast proof fn lemma_alternative_rests(s: Seq<char>)
    ensures
        #[trigger] comment_at(s) matches Some(x) ==> x.1.len() < s.len(),
{
    lemma_lits();
    lemma_find(s.skip(4), "-->"@);
    reveal(starts);
}
/// the space of the opening may be read by itself
pub proof fn lemma_doctype_open(s: Seq<char>)
    ensures
        "<!doctype"@.len() == 9,
        starts_nc(s, "<!doctype "@) == (starts_nc(s, "<!doctype"@) && s.len() > 9 && s[9] == ' '),
        s.len() >= 10 ==> s.skip(9).skip(1) =~= s.skip(10),
{
    lemma_lits();
    reveal_strlit("<!doctype");
    let t = "<!doctype"@; let u = "<!doctype "@;
    assert(t =~= seq!['<', '!', 'd', 'o', 'c', 't', 'y', 'p', 'e']);
    reveal(starts_nc); reveal(same_nc);
    if starts_nc(s, u) {
        assert forall|k: int| 0 <= k < 9 implies lower(#[trigger] s.take(9)[k]) == lower(t[k]) by { assert(lower(s.take(10)[k]) == lower(u[k])); }
        assert(lower(s.take(10)[9]) == lower(u[9]));
    }
    if starts_nc(s, t) && s.len() > 9 && s[9] == ' ' {
        assert forall|k: int| 0 <= k < 10 implies lower(#[trigger] s.take(10)[k]) == lower(u[k]) by { if k < 9 { assert(lower(s.take(9)[k]) == lower(t[k])); } }
    }
}
pub broadcast proof fn lemma_doctype_rest(s: Seq<char>)
    ensures #[trigger] doctype_at(s) matches Some(x) ==> x.1.len() < s.len(),
{
    lemma_lits();
    lemma_find(s.skip(10), ">"@);
    reveal(starts_nc);
}
pub broadcast proof fn lemma_void_rest(s: Seq<char>)
    ensures #[trigger] void_at(s) matches Some(x) ==> x.1.len() < s.len(),
{ lemma_start(s); }
pub broadcast proof fn lemma_raw_rest(s: Seq<char>)
    ensures #[trigger] raw_element_at(s) matches Some(x) ==> x.1.len() < s.len(),
{
    lemma_start(s);
    reveal(raw_at);
    broadcast use {lemma_raw_end, lemma_end};
}
pub broadcast proof fn lemma_element_rest(s: Seq<char>)
    ensures #[trigger] element_at(s) matches Some(x) ==> x.1.len() < s.len(),
{
    lemma_start(s);
    broadcast use {lemma_nodes_rest, lemma_end};
}
pub broadcast proof fn lemma_text_rest(s: Seq<char>)
    ensures #[trigger] text_at(s) matches Some(x) ==> x.1.len() < s.len(),
{ lemma_run(s, texts()); }

// ---- repetition
/// after the first step it goes on in the same way
pub proof fn lemma_tail<'a, O, O2, A: P<'a, O>>(a: A, i: &'a str, at: Seq<&'a str>, os: Seq<O>, r: IResult<&'a str, O2>)
    requires many(a, i, at, os, r), os.len() > 0,
    ensures many(a, at[1], at.skip(1), os.skip(1), r), a.rel(i, Ok((at[1], os[0]))), at[1]@.len() < i@.len(),
{
    reveal(steps);
    let z = 0int;
    assert(at[z]@.len() > at[z + 1]@.len() && a.rel(at[z], Ok((at[z + 1], os[z]))));
    let (at2, os2) = (at.skip(1), os.skip(1));
    assert(at2.last() == at.last());
    assert forall|k: int| 0 <= k < os2.len() implies (#[trigger] at2[k])@.len() > at2[k + 1]@.len() && a.rel(at2[k], Ok((at2[k + 1], os2[k]))) by {
        assert(at2[k] == at[k + 1]);
        assert(at2[k + 1] == at[k + 2]);
        assert(os2[k] == os[k + 1]);
        assert(at[k + 1]@.len() > at[k + 1 + 1]@.len());
    }
    assert(steps(a, at[1], at2, os2));
}
pub proof fn lemma_stop<'a, O, O2, A: P<'a, O>>(a: A, i: &'a str, at: Seq<&'a str>, os: Seq<O>, r: IResult<&'a str, O2>) -> (x: IResult<&'a str, O>)
    requires many(a, i, at, os, r), os.len() == 0,
    ensures a.rel(i, x), stops(i, x, r),
{
    reveal(steps);
    assert(at.last() == i);
    choose|x: IResult<&'a str, O>| #[trigger] a.rel(at.last(), x) && stops(at.last(), x, r)
}
pub broadcast proof fn lemma_many_nodes<'a, A: P<'a, HTMLNode<&'a str>>>(a: A, i: &'a str, at: Seq<&'a str>, os: Seq<HTMLNode<&'a str>>, r: IResult<&'a str, Vec<HTMLNode<&'a str>>>)
    requires
        #[trigger] many(a, i, at, os, r),
        forall|j: &'a str, x: IResult<&'a str, HTMLNode<&'a str>>| #[trigger] a.rel(j, x) ==> node_is(x, node_at(j@)),
    ensures
        r matches Ok(z) && z.0@ == nodes_at(i@).1,
        all_are(os, nodes_at(i@).0),
    decreases os.len()
{
    lemma_unfold(i@);
    lemma_node(i@);
    if os.len() == 0 {
        let x = lemma_stop(a, i, at, os, r);
        assert(node_is(x, node_at(i@)));
    } else {
        lemma_tail(a, i, at, os, r);
        let x: IResult<&'a str, HTMLNode<&'a str>> = Ok((at[1], os[0]));
        assert(a.rel(i, x));
        assert(node_is(x, node_at(i@)));
        lemma_many_nodes(a, at[1], at.skip(1), os.skip(1), r);
        let t = nodes_at(i@).0;
        let u = nodes_at(at[1]@).0;
        assert forall|k: int| 0 <= k < t.len() implies is(#[trigger] os[k], t[k]) by {
            if k > 0 { assert(is(os.skip(1)[k - 1], u[k - 1])); }
        }
    }
}
pub open spec fn attr_is<'a>(r: IResult<&'a str, (&'a str, &'a str)>, o: Option<(Attr, Seq<char>)>) -> bool {
    match o {
        Some(x) => r matches Ok(z) && z.0@ == x.1 && z.1.0@ == x.0.0 && z.1.1@ == x.0.1,
        None => soft(r),
    }
}
pub broadcast proof fn lemma_many_attrs<'a, A: P<'a, (&'a str, &'a str)>>(a: A, i: &'a str, at: Seq<&'a str>, os: Seq<(&'a str, &'a str)>, r: IResult<&'a str, Vec<(&'a str, &'a str)>>)
    requires
        #[trigger] many(a, i, at, os, r),
        forall|j: &'a str, x: IResult<&'a str, (&'a str, &'a str)>| #[trigger] a.rel(j, x) ==> attr_is(x, attr_at(skip_spaces(j@))),
    ensures
        r matches Ok(z) && z.0@ == attrs_at(i@).1,
        chars_of(os) == attrs_at(i@).0,
    decreases os.len()
{
    lemma_unfold_attrs(i@);
    if os.len() == 0 {
        let x = lemma_stop(a, i, at, os, r);
        assert(attr_is(x, attr_at(skip_spaces(i@))));
        assert(chars_of(os) =~= Seq::empty());
    } else {
        lemma_tail(a, i, at, os, r);
        let x: IResult<&'a str, (&'a str, &'a str)> = Ok((at[1], os[0]));
        assert(a.rel(i, x));
        assert(attr_is(x, attr_at(skip_spaces(i@))));
        lemma_many_attrs(a, at[1], at.skip(1), os.skip(1), r);
        assert(chars_of(os) =~= seq![(os[0].0@, os[0].1@)] + chars_of(os.skip(1)));
    }
}

/// a tag that begins with one of the names
pub open spec fn lists<'a, A: P<'a, &'a str>>(a: A, names: Seq<Seq<char>>) -> bool {
    forall|j: &'a str, x: IResult<&'a str, &'a str>| #[trigger] a.rel(j, x) ==> takes(j, prefix_of(j@, names), x)
}
pub open spec fn start_is<'a>(r: IResult<&'a str, (&'a str, Vec<(&'a str, &'a str)>, bool)>, o: Option<Start>) -> bool {
    match o {
        Some(t) => r matches Ok(z) && z.0@ == t.rest && z.1.0@ == t.name && chars_of(z.1.1@) == t.attrs && z.1.2 == t.closed,
        None => soft(r),
    }
}
pub broadcast proof fn lemma_void_prefix(s: Seq<char>)
    ensures
        #![trigger prefix_of(s, void_names())]
        "area"@.len() == 4, "base"@.len() == 4, "br"@.len() == 2, "col"@.len() == 3, "embed"@.len() == 5, "hr"@.len() == 2, "img"@.len() == 3, "input"@.len() == 5, "link"@.len() == 4, "meta"@.len() == 4, "source"@.len() == 6, "track"@.len() == 5, "wbr"@.len() == 3,
        starts_nc(s, "area"@) ==> prefix_of(s, void_names()) == Some(4nat),
        starts_nc(s, "base"@) ==> prefix_of(s, void_names()) == Some(4nat),
        starts_nc(s, "br"@) ==> prefix_of(s, void_names()) == Some(2nat),
        starts_nc(s, "col"@) ==> prefix_of(s, void_names()) == Some(3nat),
        starts_nc(s, "embed"@) ==> prefix_of(s, void_names()) == Some(5nat),
        starts_nc(s, "hr"@) ==> prefix_of(s, void_names()) == Some(2nat),
        starts_nc(s, "img"@) ==> prefix_of(s, void_names()) == Some(3nat),
        starts_nc(s, "input"@) ==> prefix_of(s, void_names()) == Some(5nat),
        starts_nc(s, "link"@) ==> prefix_of(s, void_names()) == Some(4nat),
        starts_nc(s, "meta"@) ==> prefix_of(s, void_names()) == Some(4nat),
        starts_nc(s, "source"@) ==> prefix_of(s, void_names()) == Some(6nat),
        starts_nc(s, "track"@) ==> prefix_of(s, void_names()) == Some(5nat),
        starts_nc(s, "wbr"@) ==> prefix_of(s, void_names()) == Some(3nat),
        !starts_nc(s, "area"@) && !starts_nc(s, "base"@) && !starts_nc(s, "br"@) && !starts_nc(s, "col"@) && !starts_nc(s, "embed"@) && !starts_nc(s, "hr"@) && !starts_nc(s, "img"@) && !starts_nc(s, "input"@) && !starts_nc(s, "link"@) && !starts_nc(s, "meta"@) && !starts_nc(s, "source"@) && !starts_nc(s, "track"@) && !starts_nc(s, "wbr"@) ==> prefix_of(s, void_names()) is None,
{
    reveal_strlit("area"); reveal_strlit("base"); reveal_strlit("br"); reveal_strlit("col"); reveal_strlit("embed"); reveal_strlit("hr"); reveal_strlit("img"); reveal_strlit("input"); reveal_strlit("link"); reveal_strlit("meta"); reveal_strlit("source"); reveal_strlit("track"); reveal_strlit("wbr");
    lemma_void_names();
    lemma_prefix(s, void_names());
    assert(void_names()[0] == "area"@);
    assert(void_names()[1] == "base"@);
    assert(void_names()[2] == "br"@);
    assert(void_names()[3] == "col"@);
    assert(void_names()[4] == "embed"@);
    assert(void_names()[5] == "hr"@);
    assert(void_names()[6] == "img"@);
    assert(void_names()[7] == "input"@);
    assert(void_names()[8] == "link"@);
    assert(void_names()[9] == "meta"@);
    assert(void_names()[10] == "source"@);
    assert(void_names()[11] == "track"@);
    assert(void_names()[12] == "wbr"@);
}
pub broadcast proof fn lemma_raw_prefix(s: Seq<char>)
    ensures
        #![trigger prefix_of(s, raw_names())]
        "script"@.len() == 6, "style"@.len() == 5,
        starts_nc(s, "script"@) ==> prefix_of(s, raw_names()) == Some(6nat),
        starts_nc(s, "style"@) ==> prefix_of(s, raw_names()) == Some(5nat),
        !starts_nc(s, "script"@) && !starts_nc(s, "style"@) ==> prefix_of(s, raw_names()) is None,
{
    reveal_strlit("script"); reveal_strlit("style");
    lemma_raw_names();
    lemma_prefix(s, raw_names());
    assert(raw_names()[0] == "script"@);
    assert(raw_names()[1] == "style"@);
}
/// what is read by taking characters until the end tag
pub open spec fn until_end<'a, O>(a: Seq<char>, name: Seq<char>, r: IResult<&'a str, O>) -> bool {
    r matches Ok(z) && match raw_end(a, name) {
        Some(k) => z.0@ == a.skip(k as int),
        None => z.0@ == Seq::<char>::empty(),
    }
}
pub open spec fn but_end<'a, O, A: P<'a, O>>(a: A, name: Seq<char>) -> bool {
    forall|j: &'a str, x: IResult<&'a str, O>| #[trigger] a.rel(j, x) ==>
        if j@.len() == 0 || end_at(j@, name) is Some { soft(x) } else { x matches Ok(z) && z.0@ == j@.skip(1) }
}
pub broadcast proof fn lemma_many_chars<'a, O, A: P<'a, O>>(a: A, i: &'a str, at: Seq<&'a str>, os: Seq<O>, r: IResult<&'a str, usize>, name: Seq<char>)
    requires
        #[trigger] many(a, i, at, os, r), but_end(a, name),
    ensures
        #[trigger] until_end(i@, name, r),
    decreases os.len()
{
    lemma_raw_unfold(i@, name);
    assert(i@.skip(0) =~= i@);
    if os.len() == 0 {
        let x = lemma_stop(a, i, at, os, r);
        if i@.len() == 0 { assert(i@ =~= Seq::<char>::empty()); }
    } else {
        lemma_tail(a, i, at, os, r);
        let x: IResult<&'a str, O> = Ok((at[1], os[0]));
        assert(a.rel(i, x));
        lemma_many_chars(a, at[1], at.skip(1), os.skip(1), r, name);
        lemma_raw_end(i@.skip(1), name);
        if let Some(k) = raw_end(i@.skip(1), name) { assert(i@.skip(1).skip(k as int) =~= i@.skip(k as int + 1)); }
    }
}
