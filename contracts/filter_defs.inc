pub open spec fn attr_matches<T, N: Pattern<T>, V: Pattern<T>>(attrs: Option<BTreeMap<T, T>>, name: N, value: V) -> bool {
    match attrs {
        None => false,
        Some(m) => exists|k: T| #[trigger] m@.contains_key(k) && name.s_matches(&k) && value.s_matches(&m@[k]),
    }
}
pub open spec fn tag_matches<T, P: Pattern<T>>(name: Option<T>, tag: P) -> bool {
    match name { None => false, Some(n) => tag.s_matches(&n) }
}
