// ---- str: positions are in bytes of UTF-8
pub open spec fn width(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
/// length in bytes
pub open spec fn bytes(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { bytes(s.drop_last()) + width(s.last()) }
}
/// n is the position of character k
pub open spec fn boundary(s: Seq<char>, n: nat, k: int) -> bool { 0 <= k <= s.len() && bytes(s.take(k)) == n }
pub trait Len { spec fn length(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.length(); }
impl Len for str {
    open spec fn length(&self) -> nat { bytes(self@) }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { unimplemented!() }
}
impl<B> Len for Vec<B> {
    open spec fn length(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { unimplemented!() }
}
pub assume_specification [str::eq_ignore_ascii_case](s: &str, t: &str) -> (r: bool) ensures r == same_nc(s@, t@);
pub assume_specification<'a> [str::trim_start](s: &'a str) -> (r: &'a str) ensures r@ == trim_start(s@);
pub assume_specification<'a> [str::trim_end](s: &'a str) -> (r: &'a str) ensures r@ == trim_end(s@);
pub assume_specification [char::to_ascii_lowercase](c: &char) -> (r: char) ensures r == lower(*c);
pub assume_specification [char::eq_ignore_ascii_case](c: &char, d: &char) -> (r: bool) ensures r == (lower(*c) == lower(*d));
pub assume_specification<'a> [str::trim](s: &'a str) -> (r: &'a str) ensures r@ == trim(s@);
#[verifier::external_body]
pub fn vx_get_to<'a>(s: &'a str, a: usize, b: usize) -> (r: Option<&'a str>)
    ensures match r {
        Some(m) => exists|j: int, k: int| #[trigger] boundary(s@, a as nat, j) && #[trigger] boundary(s@, b as nat, k) && j <= k && m@ == s@.subrange(j, k),
        None => forall|j: int, k: int| !(#[trigger] boundary(s@, a as nat, j) && #[trigger] boundary(s@, b as nat, k) && j <= k),
    }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_get_from<'a>(s: &'a str, a: usize) -> (r: Option<&'a str>)
    ensures match r {
        Some(m) => exists|j: int| #[trigger] boundary(s@, a as nat, j) && m@ == s@.skip(j),
        None => forall|j: int| !#[trigger] boundary(s@, a as nat, j),
    }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_slice_to<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires exists|j: int, k: int| #[trigger] boundary(s@, a as nat, j) && #[trigger] boundary(s@, b as nat, k) && j <= k,
    ensures exists|j: int, k: int| #[trigger] boundary(s@, a as nat, j) && #[trigger] boundary(s@, b as nat, k) && j <= k && r@ == s@.subrange(j, k),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_slice_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires exists|j: int| #[trigger] boundary(s@, a as nat, j),
    ensures exists|j: int| #[trigger] boundary(s@, a as nat, j) && r@ == s@.skip(j),
{ unimplemented!() }
// vx-spare begin
/// what is looked for in a text: a character or a text
pub trait Needle: Sized { spec fn needle(self) -> Seq<char>; }
impl Needle for char { open spec fn needle(self) -> Seq<char> { seq![self] } }
impl<'b> Needle for &'b str { open spec fn needle(self) -> Seq<char> { self@ } }
pub trait StrFind {
    fn vx_find<N: Needle>(&self, n: N) -> Option<usize>;
    fn vx_contains<N: Needle>(&self, n: N) -> bool;
    fn vx_starts_with<N: Needle>(&self, n: N) -> bool;
}
impl StrFind for str {
    #[verifier::external_body]
    fn vx_find<N: Needle>(&self, n: N) -> (r: Option<usize>)
        ensures match find(self@, n.needle()) { Some(k) => r matches Some(p) && boundary(self@, p as nat, k as int), None => r is None },
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_contains<N: Needle>(&self, n: N) -> (r: bool) ensures r == (find(self@, n.needle()) is Some) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with<N: Needle>(&self, n: N) -> (r: bool) ensures r == starts(self@, n.needle()) { unimplemented!() }
}
pub trait StrMore {
    fn vx_is_char_boundary(&self, n: usize) -> bool;
    spec fn cut(&self, n: nat) -> bool;
    fn vx_split_at(&self, n: usize) -> (&str, &str) requires self.cut(n as nat);
}
impl StrMore for str {
    open spec fn cut(&self, n: nat) -> bool { exists|k: int| #[trigger] boundary(self@, n, k) }
    #[verifier::external_body]
    fn vx_is_char_boundary(&self, n: usize) -> (r: bool)
        ensures r == exists|k: int| #[trigger] boundary(self@, n as nat, k),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_split_at(&self, n: usize) -> (r: (&str, &str))
        ensures exists|k: int| #[trigger] boundary(self@, n as nat, k) && r.0@ == self@.take(k) && r.1@ == self@.skip(k),
    { unimplemented!() }
}
// vx-spare end
