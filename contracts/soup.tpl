// unit soup: the constructors in src/soup.rs
#![allow(unused)]
use vstd::prelude::*;
use std::collections::BTreeMap;
use parser::Parser;
verus! {
//@include std_more.inc
//@include std_cut.inc

//@include node_trait.inc

pub mod parser {
use vstd::prelude::*;
use crate::Node;
use std::collections::BTreeMap;
//@include parser_trait.inc

// the built-in parsers, known only by their contracts here (see the units strict, lenient and xml)
#[verifier::external_body]
pub struct AnyNode { _p: () }
impl Node for AnyNode {
    type Text = String;
    uninterp spec fn s_name(&self) -> Option<String>;
    uninterp spec fn s_text(&self) -> Option<String>;
    uninterp spec fn s_attrs(&self) -> Option<BTreeMap<String, String>>;
    uninterp spec fn s_children(&self) -> Seq<Self>;
    uninterp spec fn s_height(&self) -> nat;
    #[verifier::external_body]
    proof fn lemma_height(&self, i: int) { }
    #[verifier::external_body]
    fn name(&self) -> Option<&String> { unimplemented!() }
    #[verifier::external_body]
    fn text(&self) -> Option<&String> { unimplemented!() }
    #[verifier::external_body]
    fn attrs(&self) -> Option<&BTreeMap<String, String>> { unimplemented!() }
    #[verifier::external_body]
    fn children(&self) -> &[Self] { unimplemented!() }
}
#[verifier::external_body]
#[derive(Debug)]
pub struct AnyError { _p: () }

pub struct StrictHTMLParser<'a> { pub _marker: Ghost<&'a str> }
pub uninterp spec fn strict_result(input: &str, r: Result<Vec<AnyNode>, AnyError>) -> bool;
impl<'a> Parser for StrictHTMLParser<'a> {
    type Input = &'a str;
    type Node = AnyNode;
    type Error = AnyError;
    open spec fn s_parse(input: &'a str, r: Result<Vec<AnyNode>, AnyError>) -> bool { strict_result(input, r) }
    #[verifier::external_body]
    fn parse(input: &'a str) -> Result<Vec<AnyNode>, AnyError> { unimplemented!() }
}

pub struct LenientHTMLParser<S> { pub _marker: Ghost<S> }
pub uninterp spec fn lenient_result<S>(input: S, r: Vec<AnyNode>) -> bool;
impl<S> Parser for LenientHTMLParser<S> {
    type Input = S;
    type Node = AnyNode;
    type Error = std::convert::Infallible;
    // never an error: unit lenient
    open spec fn s_parse(input: S, r: Result<Vec<AnyNode>, std::convert::Infallible>) -> bool { r matches Ok(v) && lenient_result(input, v) }
    #[verifier::external_body]
    fn parse(input: S) -> Result<Vec<AnyNode>, std::convert::Infallible> { unimplemented!() }
}

pub struct XMLParser<R> { pub _marker: Ghost<R> }
pub uninterp spec fn xml_result<R>(input: R, r: Result<Vec<AnyNode>, AnyError>) -> bool;
impl<R> Parser for XMLParser<R> {
    type Input = R;
    type Node = AnyNode;
    type Error = AnyError;
    open spec fn s_parse(input: R, r: Result<Vec<AnyNode>, AnyError>) -> bool { xml_result(input, r) }
    #[verifier::external_body]
    fn parse(input: R) -> Result<Vec<AnyNode>, AnyError> { unimplemented!() }
}
}

/// there is no such error
#[verifier::external_body]
pub fn vx_never<T>(x: std::convert::Infallible) -> (r: T) ensures false { unimplemented!() }

//@type soup::Soup

//@implhead soup::Soup::new
{
//@fn soup::Soup::new ret=r
    ensures
        r matches Ok(s) ==> P::s_parse($1, Ok(s.nodes)),
        r matches Err(e) ==> P::s_parse($1, Err(e)),
//@end
}

impl Soup {
//@fn soup::Soup::html_strict ret=r
    ensures
        r matches Ok(s) ==> parser::strict_result($1, Ok(s.nodes)),
        r matches Err(e) ==> parser::strict_result($1, Err(e)),
//@end
//@fn soup::Soup::html ret=r
//@subst match $x {} ==> vx_never($x)
    ensures parser::lenient_result($1, r.nodes),
//@end
//@fn soup::Soup::xml ret=r
    ensures
        r matches Ok(s) ==> parser::xml_result($1, Ok(s.nodes)),
        r matches Err(e) ==> parser::xml_result($1, Err(e)),
//@end
}
//@helpers
}
fn main() {}
