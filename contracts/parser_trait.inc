pub trait Parser {
    type Input;
    type Node: Node;
    type Error;
    /// what the parser may return for an input
    spec fn s_parse(input: Self::Input, r: Result<Vec<Self::Node>, Self::Error>) -> bool;
//@fn parser::Parser::parse ret=r novis sigonly
        ensures Self::s_parse($1, r),
//@end
}
