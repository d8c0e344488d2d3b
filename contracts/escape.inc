// ---- character references
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn is_hex(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub open spec fn is_letter(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
pub open spec fn digits() -> spec_fn(char) -> bool { |c: char| is_digit(c) }
pub open spec fn hexes() -> spec_fn(char) -> bool { |c: char| is_hex(c) }
pub open spec fn letters() -> spec_fn(char) -> bool { |c: char| is_letter(c) }
/// with the semicolon, if there is one
pub open spec fn semi(s: Seq<char>, n: int) -> nat { if n < s.len() && s[n] == ';' { (n + 1) as nat } else { n as nat } }
/// one of the words followed by that many digits
pub open spec fn word_digits(s: Seq<char>, word: Seq<char>, n: int) -> bool {
    starts(s, word) && s.len() >= word.len() + n && forall|k: int| word.len() <= k < word.len() + n ==> is_digit(#[trigger] s[k])
}
/// how long the reference is with which s, the text after an ampersand, begins
#[verifier::opaque]
pub open spec fn ref_len(s: Seq<char>) -> Option<nat> {
    if word_digits(s, "there"@, 1) { Some(semi(s, 6)) }
    else if word_digits(s, "sup"@, 1) { Some(semi(s, 4)) }
    else if word_digits(s, "frac"@, 2) || word_digits(s, "emsp"@, 2) { Some(semi(s, 6)) }
    else if word_digits(s, "blk"@, 2) { Some(semi(s, 5)) }
    else if run(s, letters()) > 0 { Some(semi(s, run(s, letters()) as int)) }
    else if s.len() > 0 && s[0] == '#' {
        let d = run(s.skip(1), digits());
        let h = run(s.skip(2), hexes());
        if d > 0 {
            if 1 + d < s.len() && s[1 + d as int] == ';' { Some(d + 2) } else { None }
        } else if s.len() > 1 && (s[1] == 'x' || s[1] == 'X') && h > 0 && 2 + h < s.len() && s[2 + h as int] == ';' {
            Some(h + 3)
        } else {
            None
        }
    }
    else { None }
}
/// the reference, from its ampersand on, with which s begins
pub open spec fn ref_at(s: Seq<char>) -> Option<nat> {
    if s.len() > 0 && s[0] == '&' {
        match ref_len(s.skip(1)) { Some(n) => Some(n + 1), None => None }
    } else {
        None
    }
}
/// The table of named references of the HTML standard.
pub uninterp spec fn entity(t: Seq<char>) -> Option<Seq<char>>;
pub open spec fn digit(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'z' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'Z' { c as int - 'A' as int + 10 } else { 99 }
}
/// the number written; 99 and above are no digits
#[verifier::opaque]
pub open spec fn number(s: Seq<char>, radix: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { number(s.drop_last(), radix) * radix + digit(s.last()) }
}
pub open spec fn all_digits(s: Seq<char>, radix: int) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> digit(#[trigger] s[k]) < radix }
pub open spec fn is_scalar(n: int) -> bool { 0 <= n < 0xD800 || 0xE000 <= n < 0x110000 }
/// the characters a number stands for
pub open spec fn scalar(n: int) -> Option<Seq<char>> { if is_scalar(n) { Some(seq![n as char]) } else { None } }
/// what a reference stands for, if anything
#[verifier::opaque]
pub open spec fn meaning(t: Seq<char>) -> Option<Seq<char>> {
    if entity(t) is Some { entity(t) }
    else if t.len() > 3 && t[1] == '#' {
        if t[2] == 'x' || t[2] == 'X' { scalar(number(t.subrange(3, t.len() - 1), 16)) } else { scalar(number(t.subrange(2, t.len() - 1), 10)) }
    }
    else { None }
}
/// the text from position p on with its references replaced, once
#[verifier::opaque]
pub open spec fn decoded(s: Seq<char>, p: int) -> Seq<char>
    decreases s.len() - p
{
    if p < 0 || p >= s.len() {
        Seq::empty()
    } else {
        match ref_at(s.skip(p)) {
            Some(n) if 0 < n <= s.len() - p => (match meaning(s.subrange(p, p + n)) { Some(v) => v, None => s.subrange(p, p + n) }) + decoded(s, p + n),
            _ => seq![s[p]] + decoded(s, p + 1),
        }
    }
}
pub open spec fn decode(s: Seq<char>) -> Seq<char> { decoded(s, 0) }
/// where the references from position p on are
#[verifier::opaque]
pub open spec fn refs(s: Seq<char>, p: int) -> Seq<(int, int)>
    decreases s.len() - p
{
    if p < 0 || p >= s.len() {
        Seq::empty()
    } else {
        match ref_at(s.skip(p)) {
            Some(n) if 0 < n <= s.len() - p => seq![(p, p + n)] + refs(s, p + n),
            _ => refs(s, p + 1),
        }
    }
}

pub struct Phantom<A> { pub g: Ghost<A> }

// ---- regular expressions: the lengths of the matches at the beginning of a text, the preferred ones first
pub type Matcher = spec_fn(Seq<char>) -> Seq<nat>;
pub open spec fn re_nothing() -> Matcher { |s: Seq<char>| seq![0nat] }
pub open spec fn re_set(f: spec_fn(char) -> bool) -> Matcher { |s: Seq<char>| if s.len() > 0 && f(s[0]) { seq![1nat] } else { Seq::empty() } }
pub open spec fn re_word(t: Seq<char>) -> Matcher { |s: Seq<char>| if starts(s, t) { seq![t.len()] } else { Seq::empty() } }
pub open spec fn re_alt(a: Matcher, b: Matcher) -> Matcher { |s: Seq<char>| a(s) + b(s) }
pub open spec fn re_cat(a: Matcher, b: Matcher) -> Matcher { |s: Seq<char>| then(a(s), b, s) }
/// one or more
pub open spec fn re_many(f: spec_fn(char) -> bool) -> Matcher { |s: Seq<char>| countdown(run(s, f)) }
/// every first part, continued
#[verifier::opaque]
pub open spec fn then(v: Seq<nat>, b: Matcher, s: Seq<char>) -> Seq<nat>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { b(s.skip(v[0] as int)).map_values(|n: nat| v[0] + n) + then(v.skip(1), b, s) }
}
#[verifier::opaque]
pub open spec fn countdown(n: nat) -> Seq<nat>
    decreases n
{
    if n == 0 { Seq::empty() } else { seq![n] + countdown((n - 1) as nat) }
}
pub open spec fn first(v: Seq<nat>) -> Option<nat> { if v.len() > 0 { Some(v[0]) } else { None } }
/// the matches from position p on
#[verifier::opaque]
pub open spec fn hits(m: Matcher, s: Seq<char>, p: int) -> Seq<(int, int)>
    decreases s.len() - p
{
    if p < 0 || p >= s.len() {
        Seq::empty()
    } else {
        match first(m(s.skip(p))) {
            Some(n) if 0 < n <= s.len() - p => seq![(p, p + n)] + hits(m, s, p + n),
            _ => hits(m, s, p + 1),
        }
    }
}
pub open spec fn never_empty(m: Matcher) -> bool { forall|s: Seq<char>| first(#[trigger] m(s)) != Some(0nat) }

// ---- mirrors of what is used of std, regex and phf (assumed contracts)
/// stands for std::borrow::Cow
#[verifier::reject_recursive_types(B)]
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
impl<'a> View for Cow<'a, str> {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> { match *self { Cow::Borrowed(b) => b@, Cow::Owned(s) => s@ } }
}
/// stands for String
#[verifier::external_body]
pub struct String { p: () }
impl View for String { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub trait Chars { spec fn chars(&self) -> Seq<char>; }
impl Chars for str { open spec fn chars(&self) -> Seq<char> { self@ } }
impl<'x> Chars for &'x str { open spec fn chars(&self) -> Seq<char> { self@ } }
impl Chars for String { open spec fn chars(&self) -> Seq<char> { self@ } }
impl<'a> Chars for Cow<'a, str> { open spec fn chars(&self) -> Seq<char> { self@ } }
impl String {
    #[verifier::external_body]
    pub fn new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str<X: Chars + ?Sized>(&mut self, x: &X) ensures final(self)@ == old(self)@ + x.chars() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
}
/// into(): the characters stay the same
pub trait IntoCow<'a>: Sized {
    spec fn into_chars(self) -> Seq<char>;
    fn vx_into(self) -> (r: Cow<'a, str>) ensures r@ == self.into_chars();
}
impl<'a> IntoCow<'a> for &'a str {
    open spec fn into_chars(self) -> Seq<char> { self@ }
    fn vx_into(self) -> (r: Cow<'a, str>) { Cow::Borrowed(self) }
}
impl<'a> IntoCow<'a> for String {
    open spec fn into_chars(self) -> Seq<char> { self@ }
    fn vx_into(self) -> (r: Cow<'a, str>) { Cow::Owned(self) }
}
impl String {
    #[verifier::external_body]
    pub fn from<X: Chars>(x: X) -> (r: String) ensures r@ == x.chars() { unimplemented!() }
}
impl<'x> CharText for &'x str {
    open spec fn one(self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(self) -> (r: String) { unimplemented!() }
}
pub trait CharText { fn vx_to_string(self) -> (r: String) ensures r@ == self.one(); spec fn one(self) -> Seq<char>; }
impl CharText for char {
    open spec fn one(self) -> Seq<char> { seq![self] }
    #[verifier::external_body]
    fn vx_to_string(self) -> (r: String) { unimplemented!() }
}
#[verifier::opaque]
pub open spec fn cut_all(s: Seq<char>, t: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if 0 < t.len() <= s.len() && starts(s, t) { cut_all(s.skip(t.len() as int), t) } else { s }
}
#[verifier::opaque]
pub open spec fn cut_end(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && s.last() == c { cut_end(s.drop_last(), c) } else { s }
}
/// what FromStr and from_str_radix of u32 accept
pub open spec fn u32_of(s: Seq<char>, radix: int) -> Option<int> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if all_digits(d, radix) && number(d, radix) <= 0xffff_ffff { Some(number(d, radix)) } else { None }
}
#[verifier::external_body]
pub struct ParseIntError { p: () }
pub trait ParseTo: Sized { spec fn parse_rel(s: Seq<char>, r: Result<Self, ParseIntError>) -> bool; }
impl ParseTo for u32 {
    open spec fn parse_rel(s: Seq<char>, r: Result<u32, ParseIntError>) -> bool {
        match u32_of(s, 10) { Some(n) => r matches Ok(v) && v == n, None => r is Err }
    }
}
pub trait StrShims {
    fn vx_trim_start_matches(&self, t: &str) -> (r: &str);
    fn vx_trim_end_matches(&self, c: char) -> (r: &str);
    fn vx_strip_prefix(&self, cs: [char; 2]) -> (r: Option<&str>);
    fn vx_parse<V: ParseTo>(&self) -> (r: Result<V, ParseIntError>);
}
impl StrShims for str {
    #[verifier::external_body]
    fn vx_trim_start_matches(&self, t: &str) -> (r: &str) ensures r@ == cut_all(self@, t@) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_end_matches(&self, c: char) -> (r: &str) ensures r@ == cut_end(self@, c) { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_prefix(&self, cs: [char; 2]) -> (r: Option<&str>)
        ensures if self@.len() > 0 && (self@[0] == cs@[0] || self@[0] == cs@[1]) { r matches Some(x) && x@ == self@.skip(1) } else { r is None },
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse<V: ParseTo>(&self) -> (r: Result<V, ParseIntError>) ensures V::parse_rel(self@, r) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_u32_from_str_radix(s: &str, radix: u32) -> (r: Result<u32, ParseIntError>)
    ensures match u32_of(s@, radix as int) { Some(n) => r matches Ok(v) && v == n, None => r is Err },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_char_from_u32(n: u32) -> (r: Option<char>)
    ensures if is_scalar(n as int) { r == Some(n as char) } else { r is None },
{ unimplemented!() }
/// stands for phf::Map
pub struct Table { }
pub const ENTITIES: Table = Table { };
impl Table {
    #[verifier::external_body]
    pub fn get(&self, t: &str) -> (r: Option<&'static &'static str>)
        ensures match entity(t@) { Some(v) => r matches Some(x) && x@ == v, None => r is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, t: &str) -> (r: bool) ensures r == (entity(t@) is Some) { unimplemented!() }
}
/// stands for regex::Match
#[verifier::external_body]
pub struct Match<'h> { p: &'h () }
impl<'h> Match<'h> {
    pub uninterp spec fn hay(self) -> Seq<char>;
    pub uninterp spec fn at(self) -> (int, int);
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize) ensures boundary((*self).hay(), r as nat, (*self).at().0) { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize) ensures boundary((*self).hay(), r as nat, (*self).at().1) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'h str) ensures r@ == (*self).hay().subrange((*self).at().0, (*self).at().1) { unimplemented!() }
}
/// stands for the regular expression ESCAPE
pub struct Pattern0 { }
pub const ESCAPE: Pattern0 = Pattern0 { };
impl Pattern0 {
    /// the matches in order, as a list
    #[verifier::external_body]
    pub fn find_iter<'h>(&self, t: &'h str) -> (r: Vec<Match<'h>>)
        requires never_empty(escape_re()),
        ensures r@.len() == hits(escape_re(), t@, 0).len(),
            forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).hay() == t@ && r@[k].at() == hits(escape_re(), t@, 0)[k],
    { unimplemented!() }
}
