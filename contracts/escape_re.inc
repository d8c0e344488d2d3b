//@regex ESCAPE escape_re
/// The pattern matches exactly the references.
pub proof fn lemma_escape(s: Seq<char>)
    ensures first(escape_re()(s)) == ref_at(s),
{
    let t = s.skip(1);
    let (d, l, x, h) = (escape_re_set0(), escape_re_set1(), escape_re_set2(), escape_re_set3());
    assert(d =~= digits());
    assert(l =~= letters());
    assert(h =~= hexes());
    let o = re_alt(re_word(";"@), re_nothing());
    let x1 = re_alt(re_word("there"@), re_word("sup"@));
    let x2 = re_alt(re_word("frac"@), re_alt(re_word("emsp"@), re_word("blk"@)));
    let xx = re_alt(re_cat(x1, re_set(d)), re_cat(x2, re_cat(re_set(d), re_set(d))));
    let a = re_cat(xx, o);
    let b = re_cat(re_many(l), o);
    let c = re_cat(re_word("#"@), re_cat(re_many(d), re_word(";"@)));
    let e = re_cat(re_word("#"@), re_cat(re_set(x), re_cat(re_many(h), re_word(";"@))));
    let all = re_alt(a, re_alt(b, re_alt(c, e)));
    assert(escape_re() == re_cat(re_word("&"@), all));
    reveal_strlit("&"); reveal_strlit("#"); reveal_strlit(";");
    assert("&"@[0] == '&' && "#"@[0] == '#');
    lemma_starts(s, "&"@);
    lemma_cat(re_word("&"@), all, s);
    if s.len() > 0 && s[0] == '&' {
        lemma_words(t, d, o);
        lemma_name_ref(t, l, o);
        lemma_numbers(t, d, re_word("#"@));
        lemma_hexes(t, x, h, re_word("#"@));
        reveal(ref_len);
        lemma_run(t, letters());
        lemma_run(t.skip(1), digits());
        assert(run(t, letters()) > 0 ==> is_letter(t[0]));
        if t.len() > 0 && run(t.skip(1), digits()) > 0 { assert(t.skip(1)[0] == t[1] && is_digit(t.skip(1)[0])); }
        assert(first(all(t)) == ref_len(t));
        lemma_word_letters(t);
        if t.len() == 0 { reveal(run); }
    }
}
//@else
#[verifier::external_body]
pub proof fn lemma_escape(s: Seq<char>)
    ensures first(escape_re()(s)) == ref_at(s),
{ }
//@end
