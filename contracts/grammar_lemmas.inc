// ---- facts about the language
pub broadcast proof fn lemma_skip_skip(s: Seq<char>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn lemma_skip_take(s: Seq<char>, a: int, n: int)
    requires 0 <= a, 0 <= n, a + n <= s.len(),
    ensures #[trigger] s.skip(a).take(n) == s.subrange(a, a + n),
{ assert(s.skip(a).take(n) =~= s.subrange(a, a + n)); }
pub broadcast proof fn lemma_skip_zero(s: Seq<char>)
    ensures #[trigger] s.skip(0) == s,
{ assert(s.skip(0) =~= s); }
pub broadcast proof fn lemma_starts(s: Seq<char>, t: Seq<char>)
    ensures #[trigger] starts(s, t) == (s.len() >= t.len() && forall|k: int| 0 <= k < t.len() ==> s[k] == #[trigger] t[k]),
{reveal(starts); 
    if s.len() >= t.len() && forall|k: int| 0 <= k < t.len() ==> s[k] == #[trigger] t[k] { assert(s.take(t.len() as int) =~= t); }
    if starts(s, t) { assert forall|k: int| 0 <= k < t.len() implies s[k] == #[trigger] t[k] by { assert(s.take(t.len() as int)[k] == t[k]); } }
}
pub broadcast proof fn lemma_starts_one(s: Seq<char>, t: Seq<char>)
    requires #[trigger] starts(s, t), t.len() == 1,
    ensures s.len() > 0, s[0] == t[0],
{ lemma_starts(s, t); }
pub broadcast proof fn lemma_run(s: Seq<char>, f: spec_fn(char) -> bool)
    ensures #[trigger] run(s, f) <= s.len(),
        forall|k: int| 0 <= k < run(s, f) ==> f(#[trigger] s[k]),
        run(s, f) < s.len() ==> !f(s[run(s, f) as int]),
    decreases s.len()
{reveal(run); 
    if s.len() > 0 && f(s[0]) {
        let t = s.skip(1);
        lemma_run(t, f);
        assert forall|k: int| 0 <= k < run(s, f) implies f(#[trigger] s[k]) by {
            if k > 0 { assert(s[k] == t[k - 1]); }
        }
        if run(s, f) < s.len() { assert(s[run(s, f) as int] == t[run(t, f) as int]); }
    }
}
/// only as much as is needed to follow positions
pub broadcast proof fn lemma_run_length(s: Seq<char>, f: spec_fn(char) -> bool)
    ensures #[trigger] run(s, f) <= s.len(), (run(s, f) == 0) == (s.len() == 0 || !f(s[0])),
{
    reveal(run);
    lemma_run(s, f);
}
pub broadcast proof fn lemma_trim_empty(s: Seq<char>)
    requires s.len() == 0,
    ensures #[trigger] trim(s) == s,
{ reveal_with_fuel(trim_start, 2); reveal_with_fuel(trim_end, 2); }
/// a value begins with a quotation mark or is written without, not both
pub broadcast proof fn lemma_quoted_not(s: Seq<char>)
    ensures #[trigger] quoted_at(s) is Some ==> run(s, values()) == 0,
{
    reveal(quoted_at);
    broadcast use lemma_run_length;
}
pub proof fn lemma_run_is(s: Seq<char>, f: spec_fn(char) -> bool, n: int)
    requires 0 <= n <= s.len(), forall|k: int| 0 <= k < n ==> f(#[trigger] s[k]), n < s.len() ==> !f(s[n]),
    ensures run(s, f) == n,
{
    lemma_run(s, f);
    if run(s, f) < n { assert(f(s[run(s, f) as int])); }
}
pub broadcast proof fn lemma_find(s: Seq<char>, t: Seq<char>)
    ensures #[trigger] find(s, t) matches Some(x) ==> x + t.len() <= s.len() && starts(s.skip(x as int), t),
    decreases s.len()
{reveal(find); reveal(starts); 
    assert(s.skip(0) =~= s);
    if !starts(s, t) && s.len() > 0 {
        lemma_find(s.skip(1), t);
        if let Some(x) = find(s.skip(1), t) { assert(s.skip(1).skip(x as int) =~= s.skip(x as int + 1)); }
    }
}
pub broadcast proof fn lemma_attrs_rest(s: Seq<char>)
    ensures #[trigger] attrs_at(s).1.len() <= s.len(),
    decreases s.len()
{reveal(attrs_at); 
    if let Some((a, r)) = attr_at(skip_spaces(s)) { if r.len() < s.len() { lemma_attrs_rest(r); } }
}
/// The rest after a start tag is shorter.
pub broadcast proof fn lemma_start(s: Seq<char>)
    ensures #[trigger] start_at(s) matches Some(t) ==> t.rest.len() < s.len(),
{reveal(start_at); reveal(after_name); 
    broadcast use {lemma_run, lemma_attrs_rest};
}
pub broadcast proof fn lemma_attr(s: Seq<char>)
    ensures #[trigger] attr_at(s) matches Some(x) ==> x.1.len() < s.len(),
{reveal(attr_at); reveal(value_at); reveal(quoted_at); lemma_lits();
    broadcast use {lemma_run, lemma_find};
}
pub broadcast proof fn lemma_end(s: Seq<char>, name: Seq<char>)
    ensures #[trigger] end_at(s, name) matches Some(x) ==> x.len() < s.len(),
{reveal(end_at); reveal(starts_nc); 
    broadcast use lemma_run;
}
pub broadcast proof fn lemma_raw_end(s: Seq<char>, name: Seq<char>)
    ensures #[trigger] raw_end(s, name) matches Some(x) ==> x <= s.len() && end_at(s.skip(x as int), name) is Some,
    decreases s.len()
{reveal(raw_end); 
    assert(s.skip(0) =~= s);
    if end_at(s, name) is None && s.len() > 0 {
        lemma_raw_end(s.skip(1), name);
        if let Some(x) = raw_end(s.skip(1), name) { assert(s.skip(1).skip(x as int) =~= s.skip(x as int + 1)); }
    }
}
pub broadcast proof fn lemma_nodes_rest(s: Seq<char>)
    ensures #[trigger] nodes_at(s).1.len() <= s.len(),
    decreases s.len()
{reveal(node_at); reveal(nodes_at); 
    if let Some((n, r)) = node_at(s) { if r.len() < s.len() { lemma_nodes_rest(r); } }
}
proof fn lemma_raw_at(t: Start)
    ensures raw_at(t) matches Some(x) ==> x.1.len() <= t.rest.len(),
{
    reveal(raw_at);
    lemma_raw_end(t.rest, t.name);
    if let Some(x) = raw_end(t.rest, t.name) { lemma_end(t.rest.skip(x as int), t.name); }
}
/// The rest after a node is shorter.
pub broadcast proof fn lemma_node(s: Seq<char>)
    ensures #[trigger] node_at(s) matches Some(x) ==> x.1.len() < s.len(),
{
    reveal(node_at); reveal(nodes_at);
    lemma_lits();
    lemma_run(s, texts());
    if s.len() > 0 && s[0] != '<' {
        reveal(run);
    } else if s.len() > 0 && starts(s, "<!--"@) {
        lemma_starts(s, "<!--"@);
        lemma_find(s.skip(4), "-->"@);
    } else if s.len() > 0 && starts_nc(s, "<!doctype "@) {
        reveal(starts_nc);
        lemma_find(s.skip(10), ">"@);
    } else if s.len() > 0 {
        lemma_start(s);
        if let Some(t) = start_at(s) {
            lemma_raw_at(t);
            lemma_nodes_rest(t.rest);
            lemma_end(nodes_at(t.rest).1, t.name);
        }
    }
}
/// one step of the repetition
pub proof fn lemma_unfold(s: Seq<char>)
    ensures nodes_at(s) == (match node_at(s) {
        Some((n, r)) => (seq![n] + nodes_at(r).0, nodes_at(r).1),
        _ => (Seq::empty(), s),
    }),
{
    reveal(node_at); reveal(nodes_at);
    lemma_node(s);
}
pub proof fn lemma_unfold_attrs(s: Seq<char>)
    ensures attrs_at(s) == (match attr_at(skip_spaces(s)) {
        Some((a, r)) => (seq![a] + attrs_at(r).0, attrs_at(r).1),
        _ => (Seq::empty(), s),
    }),
        attr_at(skip_spaces(s)) matches Some(x) ==> x.1.len() < s.len(),
{
    reveal(attrs_at);
    lemma_run(s, spaces());
    lemma_attr(skip_spaces(s));
}
pub proof fn lemma_lits()
    ensures "<!--"@ == seq!['<', '!', '-', '-'], "-->"@ == seq!['-', '-', '>'], ">"@ == seq!['>'], "<"@ == seq!['<'], "</"@ == seq!['<', '/'], "/>"@ == seq!['/', '>'],
        "'"@ == seq!['\''], "\""@ == seq!['"'], ""@ == Seq::<char>::empty(),
        "<!doctype "@ == seq!['<', '!', 'd', 'o', 'c', 't', 'y', 'p', 'e', ' '],
{
    reveal_strlit("<!--"); reveal_strlit("-->"); reveal_strlit(">"); reveal_strlit("<"); reveal_strlit("</"); reveal_strlit("/>");
    reveal_strlit("'"); reveal_strlit("\""); reveal_strlit(""); reveal_strlit("<!doctype ");
    assert("<!--"@ =~= seq!['<', '!', '-', '-']);
    assert("-->"@ =~= seq!['-', '-', '>']);
    assert(">"@ =~= seq!['>']);
    assert("<"@ =~= seq!['<']);
    assert("</"@ =~= seq!['<', '/']);
    assert("/>"@ =~= seq!['/', '>']);
    assert("'"@ =~= seq!['\'']);
    assert("\""@ =~= seq!['"']);
    assert(""@ =~= Seq::<char>::empty());
    assert("<!doctype "@ =~= seq!['<', '!', 'd', 'o', 'c', 't', 'y', 'p', 'e', ' ']);
}
// ---- what is left is the end of the text
pub open spec fn suffix(r: Seq<char>, s: Seq<char>) -> bool { r.len() <= s.len() && r == s.skip(s.len() - r.len()) }
pub broadcast proof fn lemma_suffix(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures suffix(#[trigger] s.skip(k), s),
{}
pub proof fn lemma_suffix_of(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires suffix(a, b), suffix(b, c),
    ensures suffix(a, c),
{ assert(c.skip(c.len() - b.len()).skip(b.len() - a.len()) =~= c.skip(c.len() - a.len())); }
proof fn lemma_value_suffix(s: Seq<char>)
    ensures value_at(s) matches Some(x) ==> suffix(x.1, s),
{
    reveal(value_at);
    reveal(quoted_at);
    lemma_lits();
    broadcast use {lemma_run, lemma_find};
}
proof fn lemma_attr_suffix(s: Seq<char>)
    ensures attr_at(s) matches Some(x) ==> suffix(x.1, s),
{
    reveal(attr_at);
    broadcast use lemma_run;
    let rest = s.skip(run(s, names()) as int);
    let q = skip_spaces(rest);
    lemma_suffix_of(q, rest, s);
    if q.len() > 0 {
        let v = skip_spaces(q.skip(1));
        lemma_suffix_of(q.skip(1), q, s);
        lemma_suffix_of(v, q.skip(1), s);
        lemma_value_suffix(v);
        if let Some(x) = value_at(v) { lemma_suffix_of(x.1, v, s); }
    }
}
proof fn lemma_attrs_suffix(s: Seq<char>)
    ensures suffix(attrs_at(s).1, s),
    decreases s.len()
{
    reveal(attrs_at);
    broadcast use lemma_run;
    let q = skip_spaces(s);
    assert(s.skip(0) =~= s);
    lemma_attr_suffix(q);
    if let Some((a, r)) = attr_at(q) {
        if r.len() < s.len() {
            lemma_suffix_of(r, q, s);
            lemma_attrs_suffix(r);
            lemma_suffix_of(attrs_at(r).1, r, s);
        }
    }
}
proof fn lemma_after_name_suffix(s: Seq<char>)
    ensures after_name(s) matches Some(x) ==> suffix(x.2, s),
{
    reveal(after_name);
    broadcast use lemma_run;
    lemma_attrs_suffix(s);
    let r = attrs_at(s).1;
    let q = skip_spaces(r);
    lemma_suffix_of(q, r, s);
    if q.len() >= 1 { lemma_suffix_of(q.skip(1), q, s); }
    if q.len() >= 2 { lemma_suffix_of(q.skip(2), q, s); }
}
pub proof fn lemma_start_suffix(s: Seq<char>)
    ensures start_at(s) matches Some(t) ==> suffix(t.rest, s),
{
    reveal(start_at);
    broadcast use lemma_run;
    if s.len() > 0 {
        let t = s.skip(1);
        let n = run(t, alnums()) as int;
        lemma_suffix_of(t.skip(n), t, s);
        lemma_after_name_suffix(t.skip(n));
        if let Some(x) = after_name(t.skip(n)) { lemma_suffix_of(x.2, t.skip(n), s); }
    }
}
pub proof fn lemma_end_suffix(s: Seq<char>, name: Seq<char>)
    ensures end_at(s, name) matches Some(x) ==> suffix(x, s),
{
    reveal(end_at); reveal(starts_nc);
    broadcast use lemma_run;
    if end_at(s, name) is Some {
        let r = s.skip(2 + name.len() as int);
        let q = skip_spaces(r);
        lemma_suffix_of(q, r, s);
        lemma_suffix_of(q.skip(1), q, s);
    }
}
pub proof fn lemma_node_suffix(s: Seq<char>)
    ensures node_at(s) matches Some(x) ==> suffix(x.1, s),
    decreases s.len(), 0nat
{
    reveal(node_at); reveal(nodes_at); reveal(raw_at); reveal(starts_nc); reveal(starts);
    broadcast use {lemma_run, lemma_find, lemma_raw_end};
    lemma_lits();
    lemma_start(s);
    lemma_start_suffix(s);
    if let Some(t) = start_at(s) {
        lemma_nodes_suffix(t.rest);
        lemma_suffix_of(nodes_at(t.rest).1, t.rest, s);
        let r = nodes_at(t.rest).1;
        lemma_end_suffix(r, t.name);
        if let Some(x) = end_at(r, t.name) { lemma_suffix_of(x, r, s); }
        if let Some(k) = raw_end(t.rest, t.name) {
            let r = t.rest.skip(k as int);
            lemma_suffix_of(r, t.rest, s);
            lemma_end_suffix(r, t.name);
            if let Some(x) = end_at(r, t.name) { lemma_suffix_of(x, r, s); }
        }
    }
}
pub proof fn lemma_nodes_suffix(s: Seq<char>)
    ensures suffix(nodes_at(s).1, s),
    decreases s.len(), 1nat
{
    reveal(node_at); reveal(nodes_at);
    assert(s.skip(0) =~= s);
    lemma_node_suffix(s);
    if let Some((n, r)) = node_at(s) {
        if r.len() < s.len() {
            lemma_nodes_suffix(r);
            lemma_suffix_of(nodes_at(r).1, r, s);
        }
    }
}
/// An end tag anywhere means there is a first one.
pub proof fn lemma_raw_end_found(s: Seq<char>, k: int, name: Seq<char>)
    requires 0 <= k <= s.len(), end_at(s.skip(k), name) is Some,
    ensures raw_end(s, name) is Some,
    decreases s.len()
{
    reveal(raw_end);
    assert(s.skip(0) =~= s);
    if k > 0 {
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
        lemma_raw_end_found(s.skip(1), k - 1, name);
    }
}
// ---- bytes
pub proof fn lemma_bytes(s: Seq<char>, j: int, k: int)
    requires 0 <= j < k <= s.len(),
    ensures bytes(s.take(j)) < bytes(s.take(k)),
    decreases k
{
    assert(s.take(k).drop_last() =~= s.take(k - 1));
    if j < k - 1 { lemma_bytes(s, j, k - 1); }
}
pub broadcast proof fn lemma_boundary(s: Seq<char>, n: nat, j: int, k: int)
    requires #[trigger] boundary(s, n, j), #[trigger] boundary(s, n, k),
    ensures j == k,
{
    if j < k { lemma_bytes(s, j, k); }
    if k < j { lemma_bytes(s, k, j); }
}
pub proof fn lemma_lower(c: char, d: char)
    requires lower(c) == lower(d),
    ensures width(c) == width(d),
{
}
pub proof fn lemma_nc_bytes(s: Seq<char>, t: Seq<char>)
    requires same_nc(s, t),
    ensures bytes(s) == bytes(t),
    decreases s.len()
{reveal(same_nc); 
    if s.len() > 0 {
        assert(lower(s[s.len() - 1]) == lower(t[s.len() - 1]));
        lemma_lower(s.last(), t.last());
        assert forall|k: int| 0 <= k < s.drop_last().len() implies lower(#[trigger] s.drop_last()[k]) == lower(t.drop_last()[k]) by { assert(lower(s[k]) == lower(t[k])); }
        lemma_nc_bytes(s.drop_last(), t.drop_last());
    }
}
pub broadcast proof fn lemma_starts_nc(s: Seq<char>, t: Seq<char>)
    requires #[trigger] starts_nc(s, t),
    ensures boundary(s, bytes(t), t.len() as int), boundary(s, 0, 0),
{reveal(starts_nc); reveal(same_nc); 
    lemma_nc_bytes(s.take(t.len() as int), t);
    assert(s.take(0).len() == 0);
}
pub broadcast proof fn lemma_boundary_zero(s: Seq<char>)
    ensures #[trigger] bytes(s) >= 0, boundary(s, 0, 0),
{ assert(s.take(0).len() == 0); }
pub broadcast proof fn lemma_boundary_from(s: Seq<char>, n: nat, k: int)
    requires #[trigger] boundary(s, n, k),
    ensures boundary(s, 0, 0),
{ lemma_boundary_zero(s); }
pub proof fn lemma_boundary_end(s: Seq<char>)
    ensures boundary(s, bytes(s), s.len() as int), boundary(s, 0, 0),
{ assert(s.take(s.len() as int) =~= s); assert(s.take(0).len() == 0); }
/// text goes on to the next angle bracket
pub proof fn lemma_find_text(s: Seq<char>)
    ensures match find(s, seq!['<']) { Some(x) => run(s, texts()) == x, None => run(s, texts()) == s.len() },
    decreases s.len(),
{
    reveal(find);
    reveal(run);
    lemma_sets();
    lemma_starts(s, seq!['<']);
    assert(seq!['<'][0] == '<');
    if s.len() > 0 && s[0] != '<' { lemma_find_text(s.skip(1)); }
}

// ---- names from a list
/// how long the name from the list is with which s begins
#[verifier::opaque]
pub open spec fn prefix_of(s: Seq<char>, names: Seq<Seq<char>>) -> Option<nat> {
    if exists|k: int| 0 <= k < names.len() && starts_nc(s, #[trigger] names[k]) {
        Some(names[choose|k: int| 0 <= k < names.len() && starts_nc(s, #[trigger] names[k])].len())
    } else {
        None
    }
}
/// lower case letters, at least two, and the first two are different in different names
#[verifier::opaque]
pub open spec fn apart(names: Seq<Seq<char>>) -> bool {
    &&& forall|k: int, p: int| 0 <= k < names.len() && 0 <= p < names[k].len() ==> 'a' <= #[trigger] names[k][p] <= 'z'
    &&& forall|k: int| 0 <= k < names.len() ==> (#[trigger] names[k]).len() >= 2
    &&& forall|a: int, b: int| 0 <= a < names.len() && 0 <= b < names.len() && a != b ==> (#[trigger] names[a])[0] != (#[trigger] names[b])[0] || names[a][1] != names[b][1]
}
proof fn lemma_letters(s: Seq<char>, t: Seq<char>)
    requires starts_nc(s, t), forall|p: int| 0 <= p < t.len() ==> 'a' <= #[trigger] t[p] <= 'z',
    ensures t.len() <= s.len(), forall|p: int| 0 <= p < t.len() ==> is_alnum(#[trigger] s[p]) && lower(s[p]) == t[p],
{
    reveal(starts_nc); reveal(same_nc);
    assert forall|p: int| 0 <= p < t.len() implies is_alnum(#[trigger] s[p]) && lower(s[p]) == t[p] by {
        assert(lower(s.take(t.len() as int)[p]) == lower(t[p]));
    }
}
proof fn lemma_apart(s: Seq<char>, names: Seq<Seq<char>>, a: int, b: int)
    requires apart(names), 0 <= a < names.len(), 0 <= b < names.len(), starts_nc(s, names[a]), starts_nc(s, names[b]),
    ensures a == b,
{
    reveal(apart);
    lemma_letters(s, names[a]);
    lemma_letters(s, names[b]);
    assert(names[a].len() >= 2 && names[b].len() >= 2);
    assert(is_alnum(s[0]) && is_alnum(s[1]));
    assert(lower(s[0]) == names[a][0] && lower(s[0]) == names[b][0]);
    assert(lower(s[1]) == names[a][1] && lower(s[1]) == names[b][1]);
    if a != b { assert(names[a][0] != names[b][0] || names[a][1] != names[b][1]); }
}
pub proof fn lemma_prefix(s: Seq<char>, names: Seq<Seq<char>>)
    requires apart(names),
    ensures
        forall|k: int| 0 <= k < names.len() && starts_nc(s, #[trigger] names[k]) ==> prefix_of(s, names) == Some(names[k].len()),
        (forall|k: int| 0 <= k < names.len() ==> !starts_nc(s, #[trigger] names[k])) ==> prefix_of(s, names) is None,
{
    reveal(prefix_of);
    assert forall|k: int| 0 <= k < names.len() && starts_nc(s, #[trigger] names[k]) implies prefix_of(s, names) == Some(names[k].len()) by {
        let c = choose|k: int| 0 <= k < names.len() && starts_nc(s, #[trigger] names[k]);
        lemma_apart(s, names, k, c);
    }
}
/// The name of a start tag is in the list if and only if the tag begins with a name from the list that does not go on.
proof fn lemma_named(s: Seq<char>, names: Seq<Seq<char>>)
    requires apart(names),
    ensures ({
        let n = run(s, alnums());
        let whole = n > 0 && !(n < s.len() && is_name(s[n as int])) && named(s.take(n as int), names);
        match prefix_of(s, names) {
            Some(m) => m <= s.len() && if m < s.len() && is_name(s[m as int]) { !whole } else { whole && m == n },
            None => !whole,
        }
    }),
{
    let n = run(s, alnums()) as int;
    lemma_run(s, alnums());
    lemma_prefix(s, names);
    let whole = n > 0 && !(n < s.len() && is_name(s[n])) && named(s.take(n), names);
    if whole {
        reveal(named); reveal(starts_nc);
        let k = choose|k: int| 0 <= k < names.len() && same_nc(s.take(n), #[trigger] names[k]);
        assert(names[k].len() == n) by { reveal(same_nc); }
        assert(starts_nc(s, names[k]));
    }
    if let Some(m) = prefix_of(s, names) {
        let k = choose|k: int| 0 <= k < names.len() && starts_nc(s, #[trigger] names[k]);
        assert(0 <= k < names.len() && starts_nc(s, names[k]));
        assert(forall|p: int| 0 <= p < names[k].len() ==> 'a' <= #[trigger] names[k][p] <= 'z' && names[k].len() >= 2) by { reveal(apart); }
        lemma_letters(s, names[k]);
        if !(m < s.len() && is_name(s[m as int])) {
            lemma_run_is(s, alnums(), m as int);
            assert(names[k].len() >= 2) by { reveal(apart); }
            assert(same_nc(s.take(n), names[k])) by { reveal(starts_nc); }
            reveal(named);
        }
    }
}
/// the start tag, found by the name
pub open spec fn listed_at(i: Seq<char>, names: Seq<Seq<char>>) -> Option<Start> {
    if i.len() > 0 && i[0] == '<' {
        let s = i.skip(1);
        match prefix_of(s, names) {
            Some(m) => if m < s.len() && is_name(s[m as int]) { None } else {
                match after_name(s.skip(m as int)) {
                    Some((attrs, closed, rest)) => Some(Start { name: s.take(m as int), attrs, closed, rest }),
                    None => None,
                }
            },
            None => None,
        }
    } else {
        None
    }
}
pub proof fn lemma_listed(i: Seq<char>, names: Seq<Seq<char>>)
    requires apart(names),
    ensures match start_at(i) {
        Some(t) => if named(t.name, names) { listed_at(i, names) == Some(t) } else { listed_at(i, names) is None },
        None => listed_at(i, names) is None,
    },
{
    reveal(start_at);
    if i.len() > 0 && i[0] == '<' { lemma_named(i.skip(1), names); }
}
pub proof fn lemma_void_names()
    ensures apart(void_names()), void_names().len() == 13,
{
    reveal_strlit("area"); reveal_strlit("base"); reveal_strlit("br"); reveal_strlit("col"); reveal_strlit("embed"); reveal_strlit("hr"); reveal_strlit("img");
    reveal_strlit("input"); reveal_strlit("link"); reveal_strlit("meta"); reveal_strlit("source"); reveal_strlit("track"); reveal_strlit("wbr");
    reveal(apart);
}
pub proof fn lemma_raw_names()
    ensures apart(raw_names()), raw_names().len() == 2,
{
    reveal_strlit("script"); reveal_strlit("style");
    reveal(apart);
}

/// no name is in both lists
pub proof fn lemma_not_both(n: Seq<char>)
    ensures !(is_void(n) && is_raw(n)),
{
    reveal_strlit("area"); reveal_strlit("base"); reveal_strlit("br"); reveal_strlit("col"); reveal_strlit("embed"); reveal_strlit("hr"); reveal_strlit("img");
    reveal_strlit("input"); reveal_strlit("link"); reveal_strlit("meta"); reveal_strlit("source"); reveal_strlit("track"); reveal_strlit("wbr");
    reveal_strlit("script"); reveal_strlit("style");
    if is_void(n) && is_raw(n) {
        reveal(named); reveal(same_nc);
        let k = choose|k: int| 0 <= k < 13 && same_nc(n, #[trigger] void_names()[k]);
        let j = choose|j: int| 0 <= j < 2 && same_nc(n, #[trigger] raw_names()[j]);
        assert(lower(n[0]) == lower(void_names()[k][0]) && lower(n[1]) == lower(void_names()[k][1]));
        assert(lower(n[0]) == 's' && lower(n[1]) == if j == 0 { 'c' } else { 't' });
        assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7 || k == 8 || k == 9 || k == 10 || k == 11 || k == 12);
    }
}
pub proof fn lemma_raw_unfold(s: Seq<char>, name: Seq<char>)
    ensures raw_end(s, name) == (if end_at(s, name) is Some { Some(0nat) } else if s.len() == 0 { None } else { match raw_end(s.skip(1), name) { Some(k) => Some(k + 1), None => None } }),
{ reveal(raw_end); }
