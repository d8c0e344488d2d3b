// ---- references
pub proof fn lemma_refs(s: Seq<char>, p: int)
    requires 0 <= p <= s.len(),
    ensures match refs(s, p) {
        v => if v.len() == 0 { decoded(s, p) == s.skip(p) } else {
            let (a, b) = v[0];
            p <= a < b <= s.len() && v.skip(1) == refs(s, b) && ref_at(s.skip(a)) == Some((b - a) as nat) && is_ref(s.subrange(a, b))
                && decoded(s, p) == s.subrange(p, a) + (match meaning(s.subrange(a, b)) { Some(x) => x, None => s.subrange(a, b) }) + decoded(s, b)
        }
    },
    decreases s.len() - p
{
    reveal(refs); reveal(decoded);
    if p < s.len() {
        lemma_ref_at(s.skip(p));
        match ref_at(s.skip(p)) {
            Some(n) if 0 < n <= s.len() - p => {
                let v = refs(s, p);
                assert(s.skip(p).take(n as int) =~= s.subrange(p, p + n));
                assert(v.skip(1) =~= refs(s, p + n));
                assert(s.subrange(p, p) =~= Seq::<char>::empty());
                let x = match meaning(s.subrange(p, p + n)) { Some(x) => x, None => s.subrange(p, p + n) };
                assert(s.subrange(p, p) + x + decoded(s, p + n) =~= x + decoded(s, p + n));
            },
            _ => {
                lemma_refs(s, p + 1);
                let v = refs(s, p + 1);
                if v.len() == 0 {
                    assert(seq![s[p]] + s.skip(p + 1) =~= s.skip(p));
                } else {
                    let (a, b) = v[0];
                    let x = match meaning(s.subrange(a, b)) { Some(x) => x, None => s.subrange(a, b) };
                    assert(seq![s[p]] + (s.subrange(p + 1, a) + x + decoded(s, b)) =~= s.subrange(p, a) + x + decoded(s, b));
                }
            },
        }
    } else {
        assert(s.skip(p) =~= Seq::<char>::empty());
    }
}
/// a text without ampersands stands for itself
pub proof fn lemma_no_refs(s: Seq<char>, p: int)
    requires 0 <= p <= s.len(),
    ensures find(s.skip(p), seq!['&']) is None ==> decoded(s, p) == s.skip(p),
    decreases s.len() - p,
{
    reveal(decoded);
    reveal(find);
    if p < s.len() {
        lemma_starts(s.skip(p), seq!['&']);
        assert(s.skip(p).skip(1) =~= s.skip(p + 1));
        lemma_no_refs(s, p + 1);
        assert(seq![s[p]] + s.skip(p + 1) =~= s.skip(p));
    } else {
        assert(s.skip(p) =~= Seq::<char>::empty());
    }
}
/// A reference is a name, or a number.
pub open spec fn is_ref(t: Seq<char>) -> bool {
    &&& t.len() >= 2
    &&& t[0] == '&'
    &&& if t[1] == '#' {
        t.len() > 3 && t.last() == ';' && (all_digits(t.subrange(2, t.len() - 1), 10)
            || (t[2] == 'x' || t[2] == 'X') && t.len() > 4 && all_digits(t.subrange(3, t.len() - 1), 16))
    } else {
        is_letter(t[1])
    }
}
proof fn lemma_ref_at(s: Seq<char>)
    ensures ref_at(s) matches Some(n) ==> 0 < n <= s.len() && is_ref(s.take(n as int)),
{
    if let Some(n) = ref_at(s) {
        let t = s.skip(1);
        reveal(ref_len);
        reveal_strlit("there"); reveal_strlit("sup"); reveal_strlit("frac"); reveal_strlit("emsp"); reveal_strlit("blk");
        lemma_run(t, letters());
        lemma_run(t.skip(1), digits());
        lemma_run(t.skip(2), hexes());
        lemma_starts(t, "there"@); lemma_starts(t, "sup"@); lemma_starts(t, "frac"@); lemma_starts(t, "emsp"@); lemma_starts(t, "blk"@);
        assert(t[0] == s[1]);
        let u = s.take(n as int);
        {
            if starts(t, "there"@) { assert("there"@[0] == 't'); }
            if starts(t, "sup"@) { assert("sup"@[0] == 's'); }
            if starts(t, "frac"@) { assert("frac"@[0] == 'f'); }
            if starts(t, "emsp"@) { assert("emsp"@[0] == 'e'); }
            if starts(t, "blk"@) { assert("blk"@[0] == 'b'); }
        }
        if t[0] == '#' {
            let d = run(t.skip(1), digits()) as int;
            let h = run(t.skip(2), hexes()) as int;
            if d > 0 {
                assert(u.last() == t[1 + d]);
                assert forall|k: int| 0 <= k < d implies digit(#[trigger] u.subrange(2, n - 1)[k]) < 10 by { assert(u.subrange(2, n - 1)[k] == t.skip(1)[k]); }
            } else {
                assert(u.last() == t[2 + h]);
                assert(u[2] == t[1]);
                assert forall|k: int| 0 <= k < h implies digit(#[trigger] u.subrange(3, n - 1)[k]) < 16 by { assert(u.subrange(3, n - 1)[k] == t.skip(2)[k]); }
            }
        } else {
            assert(u[1] == t[0]);
        }
    }
}

pub proof fn lemma_cut(s: Seq<char>, t: Seq<char>)
    ensures t.len() > 0 && !starts(s, t) ==> cut_all(s, t) == s, t.len() > 0 && starts(s, t) ==> cut_all(s, t) == cut_all(s.skip(t.len() as int), t),
{ reveal(cut_all); lemma_starts(s, t); }
pub proof fn lemma_cut_end(s: Seq<char>, c: char)
    ensures s.len() == 0 || s.last() != c ==> cut_end(s, c) == s, s.len() > 0 && s.last() == c ==> cut_end(s, c) == cut_end(s.drop_last(), c),
{ reveal(cut_end); }
/// what the code that decodes a reference looks at
pub proof fn lemma_meaning(t: Seq<char>)
    requires is_ref(t),
    ensures
        entity(t) is Some ==> meaning(t) == entity(t),
        entity(t) is None ==> ({
            let v = cut_end(cut_all(t, "&#"@), ';');
            &&& v.len() > 0
            &&& meaning(t) == if v[0] == 'x' || v[0] == 'X' { number_value(u32_of(v.skip(1), 16)) } else { number_value(u32_of(v, 10)) }
        }),
{
    reveal(meaning);
    reveal_strlit("&#");
    let p = "&#"@;
    lemma_starts(t, p);
    lemma_cut(t, p);
    if t[1] == '#' {
        let r = t.skip(2);
        let w = t.subrange(2, t.len() - 1);
        assert(starts(t, p));
        lemma_starts(r, p);
        lemma_cut(r, p);
        assert(p[0] == '&' && r[0] == t[2] && r.last() == t.last());
        assert(r.drop_last() =~= w);
        lemma_cut_end(r, ';');
        let x = t.subrange(3, t.len() - 1);
        assert(w.skip(1) =~= x);
        if all_digits(w, 10) { assert(digit(w.last()) < 10); assert(digit(w[0]) < 10); assert(t[2] == w[0]); } else { assert(digit(x.last()) < 16); assert(w.last() == x.last()); assert(digit(x[0]) < 16); }
        lemma_cut_end(w, ';');
        assert(cut_end(cut_all(t, p), ';') == w);
    } else {
        assert(t[1] != p[1]);
        lemma_cut_keeps(t);
        let v = cut_end(t, ';');
        assert(digit(v[0]) == 99);
    }
}
proof fn lemma_cut_keeps(t: Seq<char>)
    requires t.len() >= 2, t[1] != ';',
    ensures cut_end(t, ';').len() >= 2, cut_end(t, ';')[0] == t[0],
    decreases t.len()
{
    lemma_cut_end(t, ';');
    if t.last() == ';' { lemma_cut_keeps(t.drop_last()); }
}
pub open spec fn number_value(n: Option<int>) -> Option<Seq<char>> { match n { Some(n) => scalar(n), None => None } }
pub broadcast proof fn lemma_decode_values<'a>(v: Seq<(&'a str, &'a str)>, w: Seq<(Cow<'a, str>, Cow<'a, str>)>)
    requires v.len() == w.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] w[k]).0@ == v[k].0@ && w[k].1@ == decode(v[k].1@),
    ensures #![trigger chars_of(v), cow_chars(w)] map_of(cow_chars(w)) == decode_values(map_of(chars_of(v))),
{
    let (a, b) = (chars_of(v), cow_chars(w));
    assert(b =~= a.map_values(|x: Attr| (x.0, decode(x.1))));
    lemma_map_values(a);
}
proof fn lemma_map_values(a: Seq<Attr>)
    ensures map_of(a.map_values(|x: Attr| (x.0, decode(x.1)))) == decode_values(map_of(a)),
    decreases a.len()
{
    reveal(map_of);
    let f = |x: Attr| (x.0, decode(x.1));
    if a.len() > 0 {
        lemma_map_values(a.drop_last());
        assert(a.map_values(f).drop_last() =~= a.drop_last().map_values(f));
    }
    assert(map_of(a.map_values(f)) =~= decode_values(map_of(a)));
}

pub broadcast proof fn lemma_is<'a>(n: HTMLNode<&'a str>, t: T)
    requires #[trigger] is(n, t),
    ensures n matches HTMLNode::Element { children, .. } ==> (t matches T::Element { children: tc, .. }
        && tc.len() == children@.len() && forall|k: int| 0 <= k < tc.len() ==> is(#[trigger] children@[k], tc[k])),
{
}

// ---- the pattern of references
proof fn lemma_cat(a: Matcher, b: Matcher, s: Seq<char>)
    ensures
        a(s).len() == 0 ==> re_cat(a, b)(s).len() == 0,
        a(s).len() > 0 && b(s.skip(a(s)[0] as int)).len() > 0 ==> first(re_cat(a, b)(s)) == Some(a(s)[0] + b(s.skip(a(s)[0] as int))[0]),
        a(s).len() == 1 && b(s.skip(a(s)[0] as int)).len() == 0 ==> re_cat(a, b)(s).len() == 0,
        a(s).len() == 1 ==> re_cat(a, b)(s).len() == b(s.skip(a(s)[0] as int)).len(),
{
    reveal_with_fuel(then, 2);
    let v = a(s);
    if v.len() == 1 { assert(v.skip(1).len() == 0); }
}
proof fn lemma_option(o: Matcher, u: Seq<char>)
    requires o == re_alt(re_word(";"@), re_nothing()),
    ensures o(u).len() > 0, o(u)[0] == if u.len() > 0 && u[0] == ';' { 1nat } else { 0nat },
{
    reveal_strlit(";");
    assert(";"@[0] == ';');
    lemma_starts(u, ";"@);
}
pub open spec fn word_ref(t: Seq<char>) -> Option<nat> {
    if word_digits(t, "there"@, 1) { Some(6) }
    else if word_digits(t, "sup"@, 1) { Some(4) }
    else if word_digits(t, "frac"@, 2) || word_digits(t, "emsp"@, 2) { Some(6) }
    else if word_digits(t, "blk"@, 2) { Some(5) }
    else { None }
}
proof fn lemma_lit_words()
    ensures "there"@ == seq!['t', 'h', 'e', 'r', 'e'], "sup"@ == seq!['s', 'u', 'p'], "frac"@ == seq!['f', 'r', 'a', 'c'],
        "emsp"@ == seq!['e', 'm', 's', 'p'], "blk"@ == seq!['b', 'l', 'k'],
{
    reveal_strlit("there"); reveal_strlit("sup"); reveal_strlit("frac"); reveal_strlit("emsp"); reveal_strlit("blk");
    assert("there"@ =~= seq!['t', 'h', 'e', 'r', 'e']);
    assert("sup"@ =~= seq!['s', 'u', 'p']);
    assert("frac"@ =~= seq!['f', 'r', 'a', 'c']);
    assert("emsp"@ =~= seq!['e', 'm', 's', 'p']);
    assert("blk"@ =~= seq!['b', 'l', 'k']);
}
/// they begin with different letters
proof fn lemma_word_starts(t: Seq<char>)
    ensures
        starts(t, "there"@) ==> t.len() >= 5 && t[0] == 't', starts(t, "sup"@) ==> t.len() >= 3 && t[0] == 's', starts(t, "frac"@) ==> t.len() >= 4 && t[0] == 'f',
        starts(t, "emsp"@) ==> t.len() >= 4 && t[0] == 'e', starts(t, "blk"@) ==> t.len() >= 3 && t[0] == 'b',
        "there"@.len() == 5, "sup"@.len() == 3, "frac"@.len() == 4, "emsp"@.len() == 4, "blk"@.len() == 3,
{
    lemma_lit_words();
    lemma_starts(t, "there"@); lemma_starts(t, "sup"@); lemma_starts(t, "frac"@); lemma_starts(t, "emsp"@); lemma_starts(t, "blk"@);
    assert("there"@[0] == 't' && "sup"@[0] == 's' && "frac"@[0] == 'f' && "emsp"@[0] == 'e' && "blk"@[0] == 'b');
}
proof fn lemma_one_digit(t: Seq<char>, word: Seq<char>, d: spec_fn(char) -> bool)
    requires starts(t, word), d == digits(),
    ensures re_set(d)(t.skip(word.len() as int)) == (if word_digits(t, word, 1) { seq![1nat] } else { Seq::<nat>::empty() }),
        first(re_cat(re_set(d), re_set(d))(t.skip(word.len() as int))) == (if word_digits(t, word, 2) { Some(2nat) } else { None }),
        re_cat(re_set(d), re_set(d))(t.skip(word.len() as int)).len() <= 1,
{
    lemma_starts(t, word);
    let n = word.len() as int;
    let u = t.skip(n);
    if u.len() > 0 && is_digit(u[0]) { assert(word_digits(t, word, 1)); }
    if word_digits(t, word, 1) { assert(is_digit(t[n])); }
    lemma_cat(re_set(d), re_set(d), u);
    if u.len() > 1 && is_digit(u[0]) && is_digit(u[1]) { assert(word_digits(t, word, 2)); }
    if word_digits(t, word, 2) { assert(is_digit(t[n]) && is_digit(t[n + 1])); }
    if u.len() > 1 { assert(u.skip(1)[0] == u[1]); }
}
proof fn lemma_words(t: Seq<char>, d: spec_fn(char) -> bool, o: Matcher)
    requires d == digits(), o == re_alt(re_word(";"@), re_nothing()),
    ensures
        first(re_cat(re_alt(re_cat(re_alt(re_word("there"@), re_word("sup"@)), re_set(d)), re_cat(re_alt(re_word("frac"@), re_alt(re_word("emsp"@), re_word("blk"@))), re_cat(re_set(d), re_set(d)))), o)(t))
            == (match word_ref(t) { Some(n) => Some(semi(t, n as int)), None => None }),
{
    let x1 = re_alt(re_word("there"@), re_word("sup"@));
    let x2 = re_alt(re_word("frac"@), re_alt(re_word("emsp"@), re_word("blk"@)));
    let dd = re_cat(re_set(d), re_set(d));
    let xx = re_alt(re_cat(x1, re_set(d)), re_cat(x2, dd));
    lemma_word_starts(t);
    if starts(t, "there"@) { lemma_one_digit(t, "there"@, d); }
    if starts(t, "sup"@) { lemma_one_digit(t, "sup"@, d); }
    if starts(t, "frac"@) { lemma_one_digit(t, "frac"@, d); }
    if starts(t, "emsp"@) { lemma_one_digit(t, "emsp"@, d); }
    if starts(t, "blk"@) { lemma_one_digit(t, "blk"@, d); }
    lemma_cat(x1, re_set(d), t);
    lemma_cat(x2, dd, t);
    lemma_cat(xx, o, t);
    assert(first(xx(t)) == word_ref(t));
    if let Some(n) = word_ref(t) { lemma_option(o, t.skip(n as int)); }
}
proof fn lemma_word_letters(t: Seq<char>)
    ensures word_ref(t) is Some ==> t.len() > 0 && t[0] != '#',
{ lemma_word_starts(t); }
proof fn lemma_countdown(n: nat)
    ensures n > 0 ==> countdown(n).len() > 0 && countdown(n)[0] == n, n == 0 ==> countdown(n).len() == 0,
{ reveal(countdown); }
proof fn lemma_name_ref(t: Seq<char>, l: spec_fn(char) -> bool, o: Matcher)
    requires l == letters(), o == re_alt(re_word(";"@), re_nothing()),
    ensures first(re_cat(re_many(l), o)(t)) == (if run(t, letters()) > 0 { Some(semi(t, run(t, letters()) as int)) } else { None }),
{
    let n = run(t, l);
    lemma_run(t, l);
    lemma_countdown(n);
    lemma_cat(re_many(l), o, t);
    if n > 0 { lemma_option(o, t.skip(n as int)); }
}
/// fewer than all of them are not followed by a semicolon
proof fn lemma_none(u: Seq<char>, n: nat)
    requires n <= u.len(), forall|k: int| 1 <= k <= n ==> k >= u.len() || u[k] != ';',
    ensures then(countdown(n), re_word(";"@), u).len() == 0,
    decreases n
{
    reveal(then); reveal(countdown);
    if n > 0 {
        let v = countdown(n);
        assert(v.skip(1) =~= countdown((n - 1) as nat));
        reveal_strlit(";");
        lemma_starts(u.skip(n as int), ";"@);
        assert(";"@[0] == ';');
        lemma_none(u, (n - 1) as nat);
    }
}
proof fn lemma_number(u: Seq<char>, f: spec_fn(char) -> bool)
    requires !f(';'),
    ensures ({ let n = run(u, f); first(re_cat(re_many(f), re_word(";"@))(u)) == if n > 0 && n < u.len() && u[n as int] == ';' { Some(n + 1) } else { None } }),
{
    let n = run(u, f);
    lemma_run(u, f);
    lemma_countdown(n);
    lemma_cat(re_many(f), re_word(";"@), u);
    reveal_strlit(";");
    lemma_starts(u.skip(n as int), ";"@);
    assert(";"@[0] == ';');
    if !(n > 0 && n < u.len() && u[n as int] == ';') { lemma_none(u, n); }
}
proof fn lemma_numbers(t: Seq<char>, d: spec_fn(char) -> bool, w: Matcher)
    requires d == digits(), w == re_word("#"@),
    ensures ({ let n = run(t.skip(1), digits()) as int; first(re_cat(w, re_cat(re_many(d), re_word(";"@)))(t))
        == if t.len() > 0 && t[0] == '#' && n > 0 && 1 + n < t.len() && t[1 + n] == ';' { Some((n + 2) as nat) } else { None } }),
{
    reveal_strlit("#");
    assert("#"@[0] == '#');
    lemma_starts(t, "#"@);
    let m = re_cat(re_many(d), re_word(";"@));
    lemma_cat(w, m, t);
    lemma_number(t.skip(1), d);
    lemma_run(t.skip(1), d);
}
proof fn lemma_hexes(t: Seq<char>, x: spec_fn(char) -> bool, h: spec_fn(char) -> bool, w: Matcher)
    requires forall|c: char| #[trigger] x(c) == (c == 'x' || c == 'X'), h == hexes(), w == re_word("#"@),
    ensures ({ let n = run(t.skip(2), hexes()) as int; first(re_cat(w, re_cat(re_set(x), re_cat(re_many(h), re_word(";"@))))(t))
        == if t.len() > 1 && t[0] == '#' && (t[1] == 'x' || t[1] == 'X') && n > 0 && 2 + n < t.len() && t[2 + n] == ';' { Some((n + 3) as nat) } else { None } }),
{
    reveal_strlit("#");
    assert("#"@[0] == '#');
    lemma_starts(t, "#"@);
    let m = re_cat(re_many(h), re_word(";"@));
    lemma_cat(w, re_cat(re_set(x), m), t);
    lemma_cat(re_set(x), m, t.skip(1));
    if t.len() >= 2 { assert(t.skip(1).skip(1) =~= t.skip(2)); }
    lemma_number(t.skip(2), h);
    lemma_run(t.skip(2), h);
}
pub proof fn lemma_hits(s: Seq<char>, p: int)
    requires 0 <= p, forall|u: Seq<char>| first(#[trigger] escape_re()(u)) == ref_at(u),
    ensures hits(escape_re(), s, p) == refs(s, p),
    decreases s.len() - p
{
    reveal(hits); reveal(refs);
    if p < s.len() {
        lemma_ref_at(s.skip(p));
        match ref_at(s.skip(p)) {
            Some(n) if 0 < n <= s.len() - p => { lemma_hits(s, p + n); }
            _ => { lemma_hits(s, p + 1); }
        }
    }
}
/// what find_iter finds
pub broadcast proof fn lemma_escapes(s: Seq<char>)
    ensures never_empty(escape_re()), #[trigger] hits(escape_re(), s, 0) == refs(s, 0),
{
    assert forall|u: Seq<char>| first(#[trigger] escape_re()(u)) == ref_at(u) by { lemma_escape(u); }
    assert forall|u: Seq<char>| first(#[trigger] escape_re()(u)) != Some(0nat) by { lemma_ref_at(u); }
    lemma_hits(s, 0);
}
