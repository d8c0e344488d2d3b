"""Which contracts decide which property.

units: template -> functions whose obligations the property needs (every failure of one of them is a violation of the
property); lemmas: the statements over those contracts that state the property itself; assumed: what stays unproved."""

ITER = ["node::NodeIter::direct", "node::NodeIter::tree", "node::<Iterator for NodeIter>::next", "node::Node::descendants"]
RUN = ["query::MapNodeIter::new", "query::<Iterator for MapNodeIter>::next", "query::QueryIter::new",
       "query::<Iterator for QueryIter>::next", "query::<IntoIterator for Query>::into_iter", "query::Queryable::first",
       "query::Queryable::all"]
SCOPE = ["query::<Queryable for Query>::recursive", "query::<Queryable for Query>::strict",
         "query::<Queryable for &Soup>::recursive", "query::<Queryable for &Soup>::strict"]
COND = ["query::<Queryable for Query>::tag", "query::<Queryable for Query>::attr",
        "query::<Queryable for &Soup>::tag", "query::<Queryable for &Soup>::attr"]
SHORT = ["query::Queryable::attr_name", "query::Queryable::attr_value", "query::Queryable::class"]
SOUPIT = ["soup::Soup::iter", "soup::<IntoIterator for &Soup>::into_iter"]
PAT = ["pattern::<Pattern for %s>::%s" % (t, m) for t in ("bool", "&str", "Cow", "String", "Regex")
       for m in ("matches", "value??pattern::Pattern::value")]

A_NODE = "a user-defined node type's children() form a finite tree and its Node methods are pure (trait contract of Node; the built-in node types are proved to keep it, units html and xml)"
A_FLAT = "std::iter::Flatten works by the algorithm written in the template (first inner iterator until it is empty, then the next); that this yields the concatenation and ends is proved; a slice iterator has a measure (axiom_slice_finite)"
A_VEC = "vstd's contracts for Vec, slice::Iter, Option, BTreeMap; <[T]>::to_vec clones every element in order"
A_TEXT = "AsRef<str>/From<&str>/PartialEq of the text type are consistent (text_laws; equality of String, str and Cow is equality of their characters)"
A_RE = "regex::Regex::is_match is the notion of being found (external)"
A_BT = "BTreeMap lookup is by equality for a text type whose Ord obeys vstd's obeys_cmp"

S = "parser::html::strict::"
A_NOM = "nom's combinators do what the contracts in contracts/nom.inc say (relations between input and result; errors carry no position)"
A_STR = "str positions are UTF-8 byte positions; eq_ignore_ascii_case, trim, get and slicing as documented (contracts/str_shims.inc)"
A_ERR = "the error type is one concrete type (the code is generic in it and the properties do not speak of it)"
A_RX = "the regex crate finds leftmost-first, greedy, non-overlapping matches (the pattern itself is read from the source and proved to be the references)"
A_TAB = "ENTITIES is the table of named references of the HTML standard (all its entries are compared with an independent copy by the harness, on every run)"
A_MAP = "collecting pairs into a BTreeMap keeps the last value of a name; iterating it yields every pair once; map and collect of iterators as documented"
A_NUM = "u32::from_str_radix, str::parse::<u32>, char::from_u32, trim_start_matches, trim_end_matches, strip_prefix, push_str as documented"
GRAMMAR = ["attr", "ws", "take_to", "tag_no_case", "comment", "doctype", "start_tag", "end_tag", "void", "raw_element", "element", "text", "single", "parse"]
ESC = ["escape_ref", "escape_text", "escape_attrs", "escape_node", "parse_escaped", "<Parser for StrictHTMLParser>::parse"]


def nodes(*methods, **more):
    """the accessors of the built-in node types that a property rests on"""
    u = {"html": ["parser::html::node::<Node for HTMLNode>::" + m for m in methods],
         "xml": ["parser::xml::<Node for XMLNode>::" + m for m in methods]}
    u.update(more)
    return u


TREE = {"html": ["lemma_height_of", "lemma_html_height", "lemma_height"], "xml": ["lemma_height_of", "lemma_xml_height", "lemma_height"]}


def strict(*names):
    return {"strict": [n if n.startswith("regex:") else S + n for n in names]}


PROPS = {
    "C01": dict(units=nodes("children", iter=ITER), lemmas=dict(TREE, iter=["lemma_height"]), assumed=[A_NODE]),
    "C02": dict(units=nodes("children", iter=ITER, query=RUN + SOUPIT + ["filter::<Filter for ()>::matches"]),
                lemmas={"query": ["lemma_tree_iters", "lemma_single", "lemma_exact", "lemma_no_condition"]},
                assumed=[A_NODE, A_FLAT, A_VEC]),
    "C03": dict(units={"iter": ITER, "query": RUN + SCOPE + COND + SOUPIT}, lemmas={"query": ["lemma_tree_iters", "lemma_single"]},
                assumed=[A_NODE, A_FLAT, A_VEC]),
    "C04": dict(units={"query": ["filter::<Filter for ()>::matches", "filter::<Filter for And>::matches", "filter::<Filter for Or>::matches"]
                       + SCOPE + COND + SHORT + ["query::<Clone for Query>::clone"]},
                lemmas={"query": ["lemma_conjunction"]}, assumed=[A_NODE]),
    "C05": dict(units=nodes("attrs", query=["filter::<Filter for Attr>::matches"] + SHORT + COND + [p for p in PAT if "bool" in p or "&str" in p]),
                lemmas={}, assumed=[A_NODE, A_BT, A_VEC, A_TEXT]),
    "C06": dict(units={"query": PAT}, lemmas={}, assumed=[A_TEXT, A_RE]),
    "C07": dict(units=nodes("name", query=["filter::<Filter for Tag>::matches"] + COND), lemmas={}, assumed=[A_NODE]),
    "C08": dict(units=nodes("text", "children", iter=ITER, text=["node::Node::all_text"]), lemmas={"text": ["lemma_texts", "lemma_joined_ends"]},
                assumed=[A_NODE, "Iterator::filter_map, map, collect and [String]::join as documented (local shims with those contracts)",
                         "ToString::to_string prints what Display prints (vstd contract)"]),
    "C21": dict(units=nodes("attrs", text=["node::Node::get"]), lemmas={}, assumed=[A_NODE, A_BT, "From<&Q> of the text type obeys vstd's from_spec"]),
    "C09": dict(units=nodes("children", query=["query::QueryItem::query", "query::<Deref for QueryItem>::deref"]), lemmas={},
                assumed=[A_NODE, A_VEC, "the node type's Clone returns an equal value"]),
    "C19": dict(units={"query": ["query::<Clone for Query>::clone"] + SCOPE + COND + RUN}, lemmas={},
                assumed=["the filter's Clone returns an equal value (holds for the derived Clone of the filters here)",
                         "Copy is a bitwise copy (language semantics)", "no interior mutability in node and text types: methods take &self"]),
    "C10": dict(units={"html": ["parser::html::node::<Node for HTMLNode>::" + m for m in ("name", "text", "attrs", "children")]
                       + ["parser::html::node::HTMLNode::iter", "parser::html::node::<IntoIterator for &HTMLNode>::into_iter"]},
                lemmas={"html": ["lemma_height_of", "lemma_html_height", "lemma_height"]}, assumed=[A_VEC]),
    "C11": dict(units={"xml": ["parser::xml::<Node for XMLNode>::" + m for m in ("name", "text", "attrs", "children")]
                       + ["parser::xml::XMLNode::iter", "parser::xml::<IntoIterator for &XMLNode>::into_iter"]},
                lemmas={"xml": ["lemma_height_of", "lemma_xml_height", "lemma_height"]}, assumed=[A_VEC]),
    "C12": dict(units={"xml": ["parser::xml::<From<Element> for XMLElement>::from", "parser::xml::<From<XMLNode> for XMLNode>::from",
                               "parser::xml::<Parser for XMLParser>::parse"], "soup": ["soup::Soup::new", "soup::Soup::xml"]}, lemmas={},
                assumed=["xmltree's types are as mirrored in the template (the real code is compiled against the real ones by the harness)",
                         "xmltree::Element::parse_all delivers the tree, or the error, of the input (external)",
                         "HashMap::into_iter yields every pair once; collecting pairs with distinct keys into a BTreeMap keeps them all",
                         "Into::into calls the From impl (blanket impl of std)", A_VEC]),
    "C13": dict(units={"lenient": ["parser::html::lenient::<TryFrom<NodeRef> for HTMLNode>::try_from",
                                   "parser::html::lenient::<Parser for LenientHTMLParser>::parse"],
                       "soup": ["soup::Soup::new", "soup::Soup::html"]}, lemmas={},
                assumed=["scraper::Html::parse_document builds the tree of the HTML5 algorithm (external; html5 is uninterpreted)",
                         "scraper's and ego-tree's types are as mirrored in the template (the harness compiles the real code against the real ones)",
                         "Iterator::map, filter_map and collect as documented (local shims with those contracts)",
                         "the blanket TryInto calls TryFrom; a StrTendril is determined by its characters"]),
    "C20": dict(units={"soup": ["soup::Soup::new", "soup::Soup::html_strict", "soup::Soup::html", "soup::Soup::xml"]}, lemmas={},
                assumed=["Parser::parse of each parser is specified by an uninterpreted relation between input and result",
                         "the lenient parser never returns an error (its error type is Infallible; proved in unit lenient)"]),
    "C14": dict(units=dict(strict(*GRAMMAR, "parse_escaped", ESC[-1]), soup=["soup::Soup::new", "soup::Soup::html_strict"]),
                lemmas={"strict": ["lemma_alternatives", "lemma_not_both", "lemma_many_nodes", "lemma_nodes_rest"]},
                assumed=[A_NOM, A_STR, A_ERR, A_MAP]),
    "C15": dict(units=strict("tag_no_case", "start_tag", "end_tag", "void", "raw_element", "element", "single", "parse", "escape_node", "parse_escaped", ESC[-1]),
                lemmas={"strict": ["lemma_alternatives", "lemma_not_both", "lemma_many_nodes", "lemma_nodes_rest", "lemma_void_prefix", "lemma_raw_prefix", "lemma_listed"]},
                assumed=[A_NOM, A_STR, A_ERR, A_MAP]),
    "C16": dict(units=strict("attr", "ws", "start_tag", "void", "raw_element", "element", "escape_attrs", "escape_node"),
                lemmas={"strict": ["lemma_many_attrs", "lemma_decode_values", "lemma_sets"]}, assumed=[A_NOM, A_STR, A_ERR, A_MAP]),
    "C17": dict(units=strict("take_to", "tag_no_case", "comment", "doctype", "end_tag", "raw_element", "text", "single", "escape_node"),
                lemmas={"strict": ["lemma_many_chars", "lemma_alternatives"]},
                assumed=[A_NOM, A_STR, A_ERR, "which characters are white space to str::trim is left open (uninterpreted)"]),
    "C18": dict(units=strict(*ESC, "regex:ESCAPE"),
                lemmas={"strict": ["lemma_refs", "lemma_meaning", "lemma_escapes", "lemma_decode_values"]},
                assumed=[A_RX, A_TAB, A_NUM, A_MAP, A_STR]),
}
