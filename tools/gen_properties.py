#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

prop("C01", "Descendant traversal is a complete pre-order walk",
 "Iterating over the descendants of any node yields the node itself first and then, for each of its children from first to last, that child's whole subtree in the same manner: every node of the subtree exactly once, depth-first, in document order, and nothing else. The iteration always terminates, and once it has reported its end it keeps reporting it.",
 ["inputs", "histories"], "every finite tree of every node type (any branching, any depth), every number of calls to next, also after the end",
 "Two tests walk the first six nodes of one document; a walk that skips, repeats or reorders nodes only at a particular shape (last child, empty element, deeper level) is never seen.",
 ["src/node.rs"], [("tree/direct iterator state machine", "src/node.rs: impl Iterator for NodeIter"), ("Node::descendants", "src/node.rs")],
 ["Node::descendants()"], [("child / next cursor", "subtree being walked and index of the next child", "src/node.rs NodeIter::Tree")])

prop("C02", "Query results are exactly the matching nodes in document order",
 "Executing a query yields exactly those nodes within its scope that satisfy its condition: each such node once, in document order, no other node, and then the end. Asking for the first result gives the first of those, or nothing if there is none; iterating over a document without conditions yields all its nodes.",
 ["inputs", "histories"], "every document, every condition, both scopes, every sequence of next calls",
 "Tests look at a few tags in three fixed documents; a result lost or duplicated at another position, at a top-level boundary or after a non-matching node stays unseen.",
 ["src/query.rs", "src/soup.rs", "src/node.rs"], [("filtering loop", "src/query.rs: impl Iterator for QueryIter"), ("per-root iterators", "src/query.rs: impl Iterator for MapNodeIter"), ("first/all", "src/query.rs: Queryable::first, all"), ("Soup::iter", "src/soup.rs")],
 ["Queryable::all", "Queryable::first", "Soup::iter", "IntoIterator for Query and &Soup"])

prop("C03", "Search scope: recursive by default, strict means top level only",
 "A query searches every depth of the document unless it was made strict; a strict query considers only the top-level nodes, and never looks below them. Choosing the scope may be done before, between or after adding conditions and repeatedly: the last choice counts, and conditions already given stay in force.",
 ["inputs", "programs"], "every document and every chain of scope choices and conditions",
 "One test compares one strict and one recursive query per format; order of builder calls and nested or repeated choices are not covered.",
 ["src/query.rs"], [("scope flag", "src/query.rs: recursive(), strict() of Query and &Soup"), ("scope-dependent iteration", "src/query.rs: MapNodeIter")],
 ["Queryable::recursive", "Queryable::strict"], [("recursive flag", "scope of the query", "src/query.rs Query")])

prop("C04", "Conditions compose as logical conjunction (and disjunction)",
 "Every condition added to a query narrows it: a node is a result only if it satisfies all the conditions given, independent of their order, and adding a condition changes neither the scope nor the other conditions. A conjunction of two filters accepts a node exactly if both accept it, a disjunction exactly if at least one does, and the empty filter accepts every node.",
 ["inputs", "programs"], "every node and every combination of filters, of any nesting",
 "No test uses a disjunction or chains more than one or two conditions; a composition that loses a condition, or a scope, in one builder is invisible.",
 ["src/filter.rs", "src/query.rs"], [("And, Or, ()", "src/filter.rs"), ("tag, attr", "src/query.rs: Queryable for Query and &Soup")],
 ["Queryable::tag", "Queryable::attr", "filter::And", "filter::Or"])

prop("C05", "Attribute conditions match by name and value",
 "An attribute condition accepts a node exactly if the node has at least one attribute whose name matches the name pattern and whose value, of that same attribute, matches the value pattern; a node without attributes is never accepted. The shorthands mean: by name, any value; by value, any name; by class, the attribute called class with exactly that value.",
 ["inputs"], "every attribute map, every pair of patterns (fixed text, boolean, regular expression, user-defined)",
 "Tests use documents where the wanted attribute is the only or first one; a condition that pairs one attribute's name with another's value, or stops at the first attribute, passes them.",
 ["src/filter.rs", "src/query.rs"], [("Attr filter: lookup and scan", "src/filter.rs: impl Filter for Attr"), ("attr_name, attr_value, class", "src/query.rs: Queryable")],
 ["Queryable::attr", "attr_name", "attr_value", "class"])

prop("C06", "Patterns match exactly, and their lookup shortcut agrees",
 "A text pattern (borrowed, owned or copy-on-write) matches a text exactly if they are equal character for character; true matches and false rejects every text; a regular expression matches exactly if it is found in the text. Where a pattern offers a value to look up directly, that value is the one and only text the pattern matches.",
 ["inputs"], "every pattern of every provided kind against every text",
 "Three tests try one regular expression, true and one owned string; prefixes, case differences, false, the empty text and the agreement of the lookup shortcut with matching are not tried.",
 ["src/pattern.rs"], [("Pattern impls", "src/pattern.rs")], ["Pattern::matches", "Pattern::value", "Queryable::tag/attr with each kind of pattern"])

prop("C07", "Tag conditions look at element names only",
 "A tag condition accepts a node exactly if the node has a name and that name matches the pattern; nodes without a name (text, comments, document types, CDATA, processing instructions) are never accepted, whatever the pattern.",
 ["inputs"], "every node and every pattern",
 "Tests only search elements that exist; no test asks whether nameless nodes can slip through, e.g. with the always-true pattern.",
 ["src/filter.rs"], [("Tag filter", "src/filter.rs: impl Filter for Tag")], ["Queryable::tag"])

prop("C08", "Text extraction returns all text in order",
 "The text of a node's tree is the concatenation, separated by single line breaks, of the texts of exactly those nodes in its subtree (itself included) that carry text, in document order; it is empty if there are none.",
 ["inputs"], "every tree of every node type",
 "One document's text is compared; text directly in the root, empty texts, and interleaved elements are not.",
 ["src/node.rs"], [("Node::all_text", "src/node.rs")], ["Node::all_text"])

prop("C09", "A result is the matched node, and re-queries see exactly its children",
 "A query result gives access to the matched node itself. Turning a result into a new document yields one whose top-level nodes are exactly equal to the matched node's direct children, in order, the node itself not included.",
 ["inputs"], "every node of every document",
 "One test per format re-queries one element.",
 ["src/query.rs"], [("QueryItem::query, Deref", "src/query.rs")], ["QueryItem::query", "Deref for QueryItem"])

prop("C10", "HTML node accessors report what the node is",
 "For an HTML node, the name and attributes are those of the element if the node is an element of any kind (ordinary, raw or void) and absent otherwise; the text is present exactly for text nodes; the children are those of an ordinary element, in order, and none for every other kind of node. Iterating over a node goes through exactly these children.",
 ["inputs"], "every HTML node of every kind",
 "Tests read names, attributes and children of a few ordinary elements; raw and void elements, comments and document types are hardly touched.",
 ["src/parser/html/node.rs"], [("Node for HTMLNode", "src/parser/html/node.rs"), ("iter, IntoIterator", "src/parser/html/node.rs")], ["Node::name, text, attrs, children on HTMLNode", "HTMLNode::iter"])

prop("C11", "XML node accessors report what the node is",
 "For an XML node, name, attributes and children are those of the element if the node is an element, and absent or empty otherwise; the text is present exactly for text nodes. Iterating over a node goes through exactly these children.",
 ["inputs"], "every XML node of every kind",
 "Tests read a few elements and text nodes; comments, CDATA and processing instructions are not covered.",
 ["src/parser/xml/mod.rs"], [("Node for XMLNode", "src/parser/xml/mod.rs"), ("iter, IntoIterator", "src/parser/xml/mod.rs")], ["Node::name, text, attrs, children on XMLNode", "XMLNode::iter"])

prop("C12", "XML documents are mirrored faithfully",
 "Parsing XML yields, for well-formed input, exactly the node tree delivered by the underlying XML reader: the same nodes of the same kinds in the same order and nesting, with the same name, prefix, namespaces, attributes and content, nothing lost, added or changed. For input the reader rejects, its error is returned and no document.",
 ["inputs"], "every tree the XML reader can deliver, and every error",
 "Tests check element names and text in one document; prefixes, namespaces, comments, CDATA, processing instructions and their order are not checked.",
 ["src/parser/xml/mod.rs", "src/soup.rs"], [("From<xmltree::Element>, From<xmltree::XMLNode>", "src/parser/xml/mod.rs"), ("XMLParser::parse", "src/parser/xml/mod.rs")], ["Soup::xml"])

prop("C13", "Lenient HTML never fails and mirrors the HTML5 parse tree",
 "The lenient parser accepts every text. Its document is exactly the tree the HTML5 parser builds: every element, text, comment and document type appears once, in the same order and nesting, with the same name, attributes and content; only processing instructions and fragments (the contents of template) are left out; an element is void exactly if its name is one of the void element names and it has no children.",
 ["inputs"], "every text, well-formed or not",
 "Tests compare three documents; the conversion of other node kinds, foreign elements and attributes, and of unusual nesting is not exercised.",
 ["src/parser/html/lenient.rs", "src/soup.rs"], [("TryFrom<NodeRef>", "src/parser/html/lenient.rs"), ("LenientHTMLParser::parse", "src/parser/html/lenient.rs")], ["Soup::html"])

prop("C14", "Strict HTML consumes the whole text or reports an error",
 "For every text the strict parser either returns a document that accounts for the whole text, from the first to the last character, or an error; malformed input (an unclosed or wrongly closed element, a stray tag, an unterminated comment, attribute value or tag) gives an error, never a document of the part before it. It never panics (call stack exhaustion by extreme nesting aside).",
 ["inputs"], "every text",
 "Tests parse valid fragments only; not one test expects an error.",
 ["src/parser/html/strict.rs"], [("StrictHTMLParser::parse", "src/parser/html/strict.rs"), ("nom grammar", "src/parser/html/strict.rs")], ["Soup::html_strict"])

prop("C15", "Strict HTML recovers the element structure",
 "In the strict parser's document each element has the name written in its start tag and, in order, the nodes written between its start tag and its matching end tag, where names match ignoring ASCII case; self-closed elements have no children; an element is void exactly if its whole name is one of the void element names ignoring ASCII case, and it then has no end tag. Elements whose name merely begins with another element's name are not confused with it.",
 ["inputs"], "every well-formed document made of elements with ASCII alphanumeric names, text, comments, document types and raw elements, of any shape and depth",
 "Tests cover a handful of fragments; e.g. names that extend a void name, mixed case, and self-closing inside nesting are not covered.",
 ["src/parser/html/strict.rs"], [("void, element, raw_element, start_tag, single, parse", "src/parser/html/strict.rs")], ["Soup::html_strict"])

prop("C16", "Strict HTML reads every attribute form",
 "A start tag's attributes are read with exactly the names and values written, whether the value is double-quoted, single-quoted, unquoted or absent (then empty), with any white space (space, tab, line break) between attributes and around the equals sign; a name given twice keeps the last value. A quoted value extends to the matching quote and may contain anything else; an unquoted value extends to the next white space, quote, equals sign, angle bracket or backquote.",
 ["inputs"], "every list of attributes in every combination of forms, on ordinary, void and raw elements",
 "Tests use a few double-quoted values, one single-quoted, one unquoted and one bare attribute with friendly characters.",
 ["src/parser/html/strict.rs"], [("attr, start_tag, ws", "src/parser/html/strict.rs")], ["Soup::html_strict, then Node::attrs"])

prop("C17", "Text, comments, doctypes and raw content are kept verbatim",
 "In the strict parser's document a comment holds exactly the characters between its delimiters, a document type those between the keyword and the closing bracket, and script and style elements (whatever their case) the characters up to their first end tag, with surrounding white space trimmed; none of these is parsed for markup, and no character reference is decoded in them. A text node holds a maximal run of characters free of markup, and only character references in it are changed.",
 ["inputs"], "every content of these constructs",
 "Tests use one or two simple comments, document types and scripts.",
 ["src/parser/html/strict.rs"], [("comment, doctype, raw_element, text, take_to", "src/parser/html/strict.rs"), ("escape_node", "src/parser/html/strict.rs")], ["Soup::html_strict"])

prop("C18", "Character references are decoded, everything else is unchanged",
 "In text and in attribute values of the strict parser's document, every named reference of the HTML standard written with its semicolon is replaced by exactly the characters the standard gives for it, and every decimal or hexadecimal numeric reference that denotes a Unicode scalar value by that character; names that the standard allows without semicolon are also recognised without it if no letter follows (those ending in a digit, such as sup1, whatever follows). All other characters stay as they are and in order, including unknown or malformed references; decoding is done once, not repeated on its result.",
 ["inputs"], "every text, all 2231 named references, all 1 112 064 scalar values in decimal and hexadecimal",
 "Tests decode three references; the table of over two thousand and all combinations of references and plain text are unchecked.",
 ["src/parser/html/strict.rs", "src/parser/html/entities.rs"], [("ESCAPE, escape_ref, escape_text, escape_attrs, escape_node", "src/parser/html/strict.rs"), ("ENTITIES", "src/parser/html/entities.rs")], ["Soup::html_strict, text nodes and attribute values"])

prop("C19", "Copies of a query are equivalent and queries do not interfere",
 "A copied or cloned query has the same scope and conditions as the original, so that both give the same results on the same document; building or executing one query never affects another, nor the document.",
 ["inputs", "histories"], "every query, document, and interleaving of executions",
 "One test copies one strict query without conditions; cloning (the non-Copy case) is not tested at all.",
 ["src/query.rs"], [("Clone/Copy for Query", "src/query.rs")], ["Query: Clone, Copy"])

prop("C20", "Documents hold exactly what the parser returned",
 "Creating a document with any parser, built-in or user-defined, yields a document whose top-level nodes are exactly the nodes the parser returned, in order, or, if the parser fails, exactly its error.",
 ["inputs"], "every parser, every input",
 "Tests only go through built-in parsers with valid input; the error path is never taken.",
 ["src/soup.rs"], [("Soup::new, html, html_strict, xml", "src/soup.rs")], ["Soup::new", "Soup::html", "Soup::html_strict", "Soup::xml"])

prop("C21", "Attribute lookup by name is exact",
 "Looking up an attribute on a node returns the value of the attribute with exactly that name if the node has one, and nothing otherwise, in particular for nodes without attributes.",
 ["inputs"], "every node, every name",
 "Tests look up attributes that exist.",
 ["src/node.rs"], [("Node::get", "src/node.rs")], ["Node::get"])

prop("C22", "Deeply nested documents are handled without exhausting the stack",
 "Parsing, traversing, converting and dropping a document needs an amount of call stack that does not grow with the nesting depth of the document, so that no input can abort the process.",
 ["inputs"], "every nesting depth",
 "Tests nest three levels deep.",
 ["src/node.rs", "src/parser/html/strict.rs", "src/parser/html/lenient.rs", "src/parser/xml/mod.rs"], [("recursion over children", "src/node.rs, src/parser/*")], ["Soup::html, html_strict, descendants, Drop"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
