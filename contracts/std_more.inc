// vx-spare begin
// ---- further assumed contracts on the standard library, where vstd has none (trusted; each states what the documentation says)
pub mod std_more {
    use vstd::prelude::*;
    verus! {
    pub assume_specification<T> [Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>)
        ensures r == (if a is Some { a } else { b });
    pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else](a: Option<T>, f: F) -> (r: Option<T>)
        requires a is None ==> f.requires(()),
        ensures a is Some ==> r == a, a is None ==> f.ensures((), r);
    pub assume_specification<T> [Option::<T>::xor](a: Option<T>, b: Option<T>) -> (r: Option<T>)
        ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
    pub assume_specification<T, U> [Option::<T>::and](a: Option<T>, b: Option<U>) -> (r: Option<U>)
        ensures r == (if a is Some { b } else { None });
    pub assume_specification<T, U> [Option::<T>::zip](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
        ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
    pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter](a: Option<T>, p: P) -> (r: Option<T>)
        requires a is Some ==> p.requires((&a->0,)),
        ensures a is None ==> r is None, a is Some && r is Some ==> r == a && p.ensures((&a->0,), true), a is Some && r is None ==> p.ensures((&a->0,), false);
    pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or](a: Option<T>, d: U, f: F) -> (r: U)
        requires a is Some ==> f.requires((a->0,)),
        ensures a is None ==> r == d, a is Some ==> f.ensures((a->0,), r);
    pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else](a: Option<T>, d: D, f: F) -> (r: U)
        requires a is Some ==> f.requires((a->0,)), a is None ==> d.requires(()),
        ensures a is None ==> d.ensures((), r), a is Some ==> f.ensures((a->0,), r);
    pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and](a: Option<T>, f: F) -> (r: bool)
        requires a is Some ==> f.requires((a->0,)),
        ensures a is None ==> !r, a is Some ==> f.ensures((a->0,), r);
    pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or](a: Option<T>, f: F) -> (r: bool)
        requires a is Some ==> f.requires((a->0,)),
        ensures a is None ==> r, a is Some ==> f.ensures((a->0,), r);
    pub assume_specification<T: Copy> [Option::<&T>::copied](a: Option<&T>) -> (r: Option<T>)
        ensures r == (match a { Some(x) => Some(*x), None => None });
    pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then](a: Result<T, E>, f: F) -> (r: Result<U, E>)
        requires a is Ok ==> f.requires((a->Ok_0,)),
        ensures a is Err ==> r == Err::<U, E>(a->Err_0), a is Ok ==> f.ensures((a->Ok_0,), r);
    pub assume_specification<T, E, F, O: FnOnce(E) -> Result<T, F>> [Result::<T, E>::or_else](a: Result<T, E>, f: O) -> (r: Result<T, F>)
        requires a is Err ==> f.requires((a->Err_0,)),
        ensures a is Ok ==> r == Ok::<T, F>(a->Ok_0), a is Err ==> f.ensures((a->Err_0,), r);
    pub assume_specification<T, E, F> [Result::<T, E>::or](a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>)
        ensures r == (match a { Ok(x) => Ok(x), Err(_) => b });
    pub assume_specification<T, E> [Result::<T, E>::unwrap_or](a: Result<T, E>, b: T) -> (r: T)
        ensures r == (match a { Ok(x) => x, Err(_) => b });
    pub assume_specification<T, E, F: FnOnce(E) -> T> [Result::<T, E>::unwrap_or_else](a: Result<T, E>, f: F) -> (r: T)
        requires a is Err ==> f.requires((a->Err_0,)),
        ensures a is Ok ==> r == a->Ok_0, a is Err ==> f.ensures((a->Err_0,), r);
    pub assume_specification<T, E, U, F: FnOnce(T) -> U> [Result::<T, E>::map_or](a: Result<T, E>, d: U, f: F) -> (r: U)
        requires a is Ok ==> f.requires((a->Ok_0,)),
        ensures a is Err ==> r == d, a is Ok ==> f.ensures((a->Ok_0,), r);
    pub assume_specification<T> [core::mem::replace::<T>](a: &mut T, b: T) -> (r: T)
        ensures r == *old(a), *final(a) == b;
    pub assume_specification<T> [bool::then_some::<T>](c: bool, t: T) -> (r: Option<T>)
        ensures r == (if c { Some(t) } else { None });
    // ASCII classes
    pub open spec fn s_is_ascii_alphabetic(c: &char) -> bool { 'a' <= *c <= 'z' || 'A' <= *c <= 'Z' }
    #[verifier::when_used_as_spec(s_is_ascii_alphabetic)]
    pub assume_specification [char::is_ascii_alphabetic](c: &char) -> (r: bool) ensures r == s_is_ascii_alphabetic(c);
    pub open spec fn s_is_ascii_digit(c: &char) -> bool { '0' <= *c <= '9' }
    #[verifier::when_used_as_spec(s_is_ascii_digit)]
    pub assume_specification [char::is_ascii_digit](c: &char) -> (r: bool) ensures r == s_is_ascii_digit(c);
    pub open spec fn s_is_ascii_alphanumeric(c: &char) -> bool { '0' <= *c <= '9' || 'a' <= *c <= 'z' || 'A' <= *c <= 'Z' }
    #[verifier::when_used_as_spec(s_is_ascii_alphanumeric)]
    pub assume_specification [char::is_ascii_alphanumeric](c: &char) -> (r: bool) ensures r == s_is_ascii_alphanumeric(c);
    pub open spec fn s_is_ascii_hexdigit(c: &char) -> bool { '0' <= *c <= '9' || 'a' <= *c <= 'f' || 'A' <= *c <= 'F' }
    #[verifier::when_used_as_spec(s_is_ascii_hexdigit)]
    pub assume_specification [char::is_ascii_hexdigit](c: &char) -> (r: bool) ensures r == s_is_ascii_hexdigit(c);
    pub open spec fn s_is_ascii_whitespace(c: &char) -> bool { *c == ' ' || *c == '\t' || *c == '\n' || *c == '\r' || *c == '\u{c}' }
    #[verifier::when_used_as_spec(s_is_ascii_whitespace)]
    pub assume_specification [char::is_ascii_whitespace](c: &char) -> (r: bool) ensures r == s_is_ascii_whitespace(c);
    pub assume_specification [char::from_u32](n: u32) -> (r: Option<char>)
        ensures r == (if n < 0xd800 || 0xe000 <= n <= 0x10ffff { Some(n as char) } else { None });
    }
}
// vx-spare end
