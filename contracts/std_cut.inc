// vx-spare begin
// ---- texts cut or changed in a way that no property here asks for: which text results is left open
pub mod std_cut {
    use vstd::prelude::*;
    verus! {
    pub uninterp spec fn trimmed(how: int, s: Seq<char>) -> Seq<char>;
    pub assume_specification<'a> [str::trim_start](s: &'a str) -> (r: &'a str) ensures r@ == trimmed(1, s@);
    pub assume_specification<'a> [str::trim_end](s: &'a str) -> (r: &'a str) ensures r@ == trimmed(2, s@);
    pub assume_specification [str::to_lowercase](s: &str) -> (r: String) ensures r@ == trimmed(3, s@);
    pub assume_specification [str::to_uppercase](s: &str) -> (r: String) ensures r@ == trimmed(4, s@);
    pub assume_specification [str::to_ascii_lowercase](s: &str) -> (r: String) ensures r@ == trimmed(5, s@);
    pub assume_specification [str::to_ascii_uppercase](s: &str) -> (r: String) ensures r@ == trimmed(6, s@);
    pub assume_specification<'a> [str::trim](s: &'a str) -> (r: &'a str) ensures r@ == trimmed(0, s@);
    pub assume_specification [str::eq_ignore_ascii_case](s: &str, t: &str) -> (r: bool) ensures r == (trimmed(5, s@) == trimmed(5, t@));
    }
}
// vx-spare end
