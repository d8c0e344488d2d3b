//! C06
use std::borrow::Cow;

use soupy::prelude::*;

use crate::cx::Cx;

fn one<S>(p: &str, h: &str, mk: &dyn Fn(&str) -> S) -> Result<(), String>
where
    S: AsRef<str> + for<'a> From<&'a str> + PartialEq,
{
    let want = p.chars().eq(h.chars());
    let hs = mk(h);
    let ty = std::any::type_name::<S>();
    let pats: [(&str, bool, Option<S>); 4] = [
        ("&str", p.matches_(&hs), p.value_()),
        ("String", Pattern::<S>::matches(&p.to_string(), &hs), Pattern::<S>::value(&p.to_string())),
        ("Cow::Borrowed", Pattern::<S>::matches(&Cow::Borrowed(p), &hs), Pattern::<S>::value(&Cow::Borrowed(p))),
        (
            "Cow::Owned",
            Pattern::<S>::matches(&Cow::<str>::Owned(p.into()), &hs),
            Pattern::<S>::value(&Cow::<str>::Owned(p.into())),
        ),
    ];
    for (k, m, v) in pats {
        if m != want {
            return Err(format!("{k} pattern {p:?} on the {ty} {h:?}: matches gives {m}, expected {want}"));
        }
        if let Some(v) = v {
            if v.as_ref() != p {
                return Err(format!("{k} pattern {p:?} offers the {ty} {:?} to look up", v.as_ref()));
            }
            // offered, so it must be the one text that matches
            if (v == hs) != want {
                return Err(format!("{k} pattern {p:?} offers a value equal to {h:?}"));
            }
        }
    }
    for b in [true, false] {
        if Pattern::<S>::matches(&b, &hs) != b {
            return Err(format!("{b} on {h:?}"));
        }
        if Pattern::<S>::value(&b).is_some() {
            return Err(format!("{b} offers a text to look up"));
        }
    }
    Ok(())
}
fn cow(p: &str, h: &str) -> Result<(), String> {
    let want = p == h;
    for hs in [Cow::Borrowed(h), Cow::Owned(h.to_string())] {
        let m = Pattern::<Cow<str>>::matches(&p, &hs);
        if m != want {
            return Err(format!("&str pattern {p:?} on the Cow {h:?}: matches gives {m}"));
        }
        if let Some(v) = Pattern::<Cow<str>>::value(&p) {
            if &*v != p {
                return Err(format!("&str pattern {p:?} offers the Cow {v:?}"));
            }
        }
        for b in [true, false] {
            if Pattern::<Cow<str>>::matches(&b, &hs) != b || Pattern::<Cow<str>>::value(&b).is_some() {
                return Err(format!("{b} on the Cow {h:?}"));
            }
        }
    }
    Ok(())
}
trait Borrowed {
    fn matches_<S: AsRef<str> + for<'a> From<&'a str>>(&self, h: &S) -> bool;
    fn value_<S: AsRef<str> + for<'a> From<&'a str>>(&self) -> Option<S>;
}
impl Borrowed for str {
    fn matches_<S: AsRef<str> + for<'a> From<&'a str>>(&self, h: &S) -> bool {
        Pattern::<S>::matches(&self, h)
    }
    fn value_<S: AsRef<str> + for<'a> From<&'a str>>(&self) -> Option<S> {
        Pattern::<S>::value(&self)
    }
}

const PARTS: &[&str] = &["a", "A", "b", " ", "é", "e\u{301}", "ß", "ss", "K", "\u{212a}", "\n", "\u{0}", "😀", "i", "İ"];

pub fn c06(c: &mut Cx) {
    c.rule = "all pairs of texts of at most 2 of 15 characters (case, accents, ligatures, line breaks, NUL included), for haystacks of three text types and patterns of every text kind; the regular expressions against the regex crate; non-trivial: both texts non-empty".into();
    let mut texts = vec![String::new()];
    for a in PARTS {
        texts.push((*a).into());
        for b in PARTS {
            texts.push(format!("{a}{b}"));
        }
    }
    for p in &texts {
        for h in &texts {
            if !c.case(!p.is_empty() && !h.is_empty(), || format!("pattern {p:?} text {h:?}"), || {
                one::<String>(p, h, &|s| s.into())?;
                cow(p, h)?;
                one::<scraper::StrTendril>(p, h, &|s| s.into())
            }) {
                return;
            }
        }
    }
    c.exhaustive.push("all pairs of the texts described".into());
    for _ in 0..c.n(10_000, 60_000) {
        let mut r = c.rng.clone();
        let mut mk = |n: usize| (0..r.below(n)).map(|_| *r.pick(PARTS)).collect::<String>();
        let p = mk(6);
        let h = if mk(3).is_empty() { p.clone() } else { mk(6) };
        c.rng = r;
        if !c.case(!p.is_empty() && !h.is_empty(), || format!("pattern {p:?} text {h:?}"), || {
            one::<String>(&p, &h, &|s| s.into())?;
            cow(&p, &h)?;
            one::<scraper::StrTendril>(&p, &h, &|s| s.into())
        }) {
            return;
        }
    }
    // long texts that differ in one place only, or in length
    for n in [7usize, 8, 15, 16, 31, 32, 63, 64, 255, 256, 1000, 70_000] {
        let base = "ab".repeat(n / 2 + 1);
        let mut others = vec![base.clone(), base[1..].to_string(), format!("{base}b"), format!("{base} "), base.to_uppercase()];
        for i in [0, 1, n / 2, n - 1, n] {
            let mut o = base.clone().into_bytes();
            o[i] = b'x';
            others.push(String::from_utf8(o).unwrap());
        }
        for o in &others {
            if !c.case(true, || format!("pattern of {} characters, text of {}", base.len(), o.len()), || {
                one::<String>(&base, o, &|s| s.into())?;
                cow(&base, o)?;
                one::<scraper::StrTendril>(&base, o, &|s| s.into())
            }.map_err(|e: String| e.chars().take(200).collect())) {
                return;
            }
        }
    }
    const RE: &[&str] = &[
        "a", "^a", "a$", "^a$", "", "^$", ".", "(?i)a", "[^a]", "ab|ba", "\\s", "(?s)^.$", "\\bA\\b", "b*", "A", "b", "x", "^b", "b$", "^A", "é", "\\w", "\\W", "\\d", "a+", "a?", "[ab]", "[^b]", "(?i)b", "ba|ab", "ab",
        "a.", ".a", "^.b", "(?x) a", "(?-u:a)", "ß", "ss", "^(?:)$", "\\S", "(?i)ß", "(?i)k",
    ];
    let rxs: Vec<regex::Regex> = RE.iter().map(|re| regex::Regex::new(re).unwrap()).collect();
    let ask = |rx: &regex::Regex, h: &String| {
        let w = rx.find(h).is_some();
        let got = [
            Pattern::<String>::matches(rx, h),
            Pattern::<Cow<str>>::matches(rx, &Cow::Borrowed(h.as_str())),
            Pattern::<scraper::StrTendril>::matches(rx, &h.as_str().into()),
        ];
        if got != [w; 3] {
            return Err(format!("matches gives {got:?}, expected {w}"));
        }
        if let Some(v) = Pattern::<String>::value(rx) {
            if texts.iter().any(|t| rx.is_match(t) != (*t == v)) {
                return Err(format!("offers {v:?} to look up"));
            }
        }
        Ok(())
    };
    // each expression asked about one text after the other, each text of one expression after the other
    for rx in &rxs {
        for h in &texts {
            if !c.case(true, || format!("regex {:?} text {h:?}", rx.as_str()), || ask(rx, h)) {
                return;
            }
        }
    }
    for h in &texts {
        for rx in &rxs {
            if !c.case(true, || format!("regex {:?} text {h:?}, asked after other regexes", rx.as_str()), || ask(rx, h)) {
                return;
            }
        }
    }
    // settings that the source does not show
    for (what, rx) in [
        ("case ignored", regex::RegexBuilder::new("^ab$").case_insensitive(true).build()),
        ("case not ignored", regex::RegexBuilder::new("^ab$").build()),
        ("any character", regex::RegexBuilder::new("^.b$").dot_matches_new_line(true).build()),
        ("any line", regex::RegexBuilder::new("^b$").multi_line(true).build()),
        ("first line", regex::RegexBuilder::new("^b$").build()),
        ("white space ignored", regex::RegexBuilder::new(" a ").ignore_whitespace(true).build()),
        ("white space", regex::RegexBuilder::new(" a ").build()),
    ] {
        let rx = rx.unwrap();
        for h in texts.iter().cloned().chain([" a ".into(), "x a y".into(), "a\nb".into(), "b\na".into()]) {
            if !c.case(true, || format!("regex {:?} ({what}) text {h:?}", rx.as_str()), || ask(&rx, &h)) {
                return;
            }
        }
    }
    // long texts: the match anywhere
    for n in [15usize, 16, 64, 255, 256, 1000, 70_000] {
        for (a, re) in [("x", "a"), ("x", "^a"), ("x", "a$"), ("x", "^xa"), ("é", "é$"), ("x", "x{3}a")] {
            let rx = regex::Regex::new(re).unwrap();
            for h in [a.repeat(n), format!("{}a", a.repeat(n)), format!("a{}", a.repeat(n)), format!("{0}a{0}", a.repeat(n / 2)), format!("{}\na", a.repeat(n))] {
                if !c.case(true, || format!("regex {re:?} on a text of {} bytes", h.len()), || ask(&rx, &h).map_err(|e: String| e.chars().take(200).collect())) {
                    return;
                }
            }
        }
    }
}
