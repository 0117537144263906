#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
       "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
       "observe_at":observe or [],"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(d)
CORE="serde_json_path_core/src/"; SJP="serde_json_path/src/"; MAC="serde_json_path_macros/src/internal/"
Q=["serde_json_path::JsonPath::query","serde_json_path::JsonPath::query_located"]

p("C01","Structural selection conforms to RFC 9535",
  "For every valid JSONPath query made of child and descendant segments with name, wildcard, index and slice selectors, and every JSON document, querying returns exactly the nodes RFC 9535 prescribes, as many times as it prescribes, and in order: selectors left to right within a segment, array elements by index, object members in the document map's own order, descendants depth-first with each node before its children. Applying a selector to a value of the wrong kind, a missing name or an out-of-range index selects nothing and is never an error.",
  ["inputs"],"all (query, document) pairs over names, wildcards, indices, slices and descendant segments, including negative and out-of-range indices, empty containers, duplicate selectors, non-ASCII and empty member names, deep and wide documents",
  "The tests check about a dozen queries over one bookstore document; the RFC compliance suite is an absent submodule. The property quantifies over all queries and documents.",
  [CORE+"spec/query.rs",CORE+"spec/segment.rs",CORE+"spec/selector/mod.rs",CORE+"spec/selector/name.rs",CORE+"spec/selector/index.rs"],
  [("Queryable for Query: fold segments over the node list",CORE+"spec/query.rs"),("descend / Segment::query",CORE+"spec/segment.rs"),("Index::query negative index handling",CORE+"spec/selector/index.rs")],Q)
p("C02","Array slices follow the RFC 9535 slice algorithm",
  "For every start, end and step (each optional, positive, zero or negative, anywhere in the I-JSON integer range) and every array length, a slice selects exactly the elements, in exactly the order, given by the RFC 9535 normalisation and bounds rules; a step of zero and a non-array value select nothing.",
  ["inputs"],"all (start, end, step, length) with each part possibly omitted, including boundary values around 0, +-length and +-(2^53-1)",
  "Existing tests parse a few slices and evaluate five forward examples; the space of sign combinations and boundaries, in both the plain and the located evaluator, is not sampled.",
  [CORE+"spec/selector/slice.rs",CORE+"spec/integer.rs",SJP+"parser/selector/slice.rs"],
  [("bounds_on_forward_slice / bounds_on_reverse_slice",CORE+"spec/selector/slice.rs"),("checked Integer arithmetic",CORE+"spec/integer.rs")],Q)
p("C03","Filter comparisons follow RFC 9535 comparison semantics",
  "For every pair of comparables (literals, singular queries with names or positive or negative indices, functions yielding a value) and each of == != < <= > >=, the filter selects a node exactly when RFC 9535 says the comparison holds: a missing value equals only a missing value, numbers compare mathematically at any depth, strings compare by Unicode scalar values, arrays and objects compare deeply for equality and are never ordered, and <=, >= mean strictly-ordered-or-equal.",
  ["inputs"],"all operand pairs over every JSON kind and the missing value, all six operators, both operand orders; numbers within the I-JSON interoperable range",
  "The suite compares a handful of numbers and strings; kinds that have no order, missing operands, nested numeric values of different representation and negative indices are never compared.",
  [CORE+"spec/selector/filter.rs",SJP+"parser/selector/filter.rs"],
  [("ComparisonExpr::test_filter, check_equal_to, check_less_than",CORE+"spec/selector/filter.rs"),("SingularQuery::eval_query",CORE+"spec/selector/filter.rs")],Q)
p("C04","Filters select by logical structure, existence and scope",
  "A filter selects, in order, exactly those array elements or object member values for which its logical expression is true, where || binds weaker than && and ! binds tightest, parentheses group, and a query used as a test is true exactly when it selects at least one node, even a null or false one. Within nested filters @ denotes the node tested by the innermost filter and $ always denotes the root of the queried document.",
  ["inputs"],"all filter expressions over existence tests, comparisons, negation, conjunction, disjunction, grouping and nested filters, on all documents",
  "Tests evaluate single flat filters; precedence, negation of groups, nesting depth and re-binding of @ versus $ are not exercised over generated expressions.",
  [CORE+"spec/selector/filter.rs",CORE+"spec/query.rs",SJP+"parser/selector/filter.rs"],
  [("LogicalOrExpr / LogicalAndExpr / BasicExpr::test_filter",CORE+"spec/selector/filter.rs"),("current and root threaded through Queryable::query",CORE+"spec/query.rs")],Q)
p("C05","length, count and value compute what RFC 9535 defines",
  "In every filter and for every argument, length() yields the number of Unicode scalar values of a string, of elements of an array or of members of an object and nothing for any other or missing argument; count() yields the number of nodes in the nodelist including duplicates; value() yields the single node's value and nothing for an empty or longer nodelist. These results behave as ordinary values in comparisons and as arguments of other functions.",
  ["inputs"],"all argument expressions and documents, including non-ASCII strings, empty containers, duplicate nodes, nested calls",
  "Four unit tests use ASCII strings and one document; duplicates, non-BMP text, missing arguments and nesting are not covered.",
  [SJP+"parser/selector/function/registry.rs",CORE+"spec/functions.rs"],
  [("length, count, value registered functions",SJP+"parser/selector/function/registry.rs"),("FunctionExpr::evaluate argument conversion",CORE+"spec/functions.rs")],Q)
p("C06","match and search implement I-Regexp matching",
  "For every string and every I-Regexp pattern, match() is true exactly when the entire string matches and search() exactly when some substring matches, with '.' matching any character except line feed and carriage return and alternation never escaping the anchoring. A missing or non-string argument, or a pattern that is not a valid regular expression on its own (including one with unbalanced parentheses), yields false and never an error. What unescaped '^' and '$' and set operations within classes mean is left to the regex dialect.",
  ["inputs"],"all (subject, pattern) pairs over literals, dot, classes, negated classes, groups, alternation and bounded/unbounded repetition, with subjects derived from the pattern and patterns from literals or from the document",
  "Three tests use fixed names and patterns; anchoring of alternations, line terminators, invalid patterns and patterns taken from the document are not explored.",
  [SJP+"parser/selector/function/registry.rs"],
  [("match_func / search",SJP+"parser/selector/function/registry.rs")],Q)
p("C07","The parser accepts exactly the RFC 9535 grammar",
  "A string is accepted as a query exactly when it is well-formed under the RFC 9535 grammar (whitespace, names, quoting, integers without leading zeros or -0, numbers, singular queries on both sides of comparisons, function-call syntax, no leading or trailing text), and it then means what the grammar says. Every other string is rejected with an error. Two things are left open: blank space inside the brackets of a compared singular query, and number literals beyond the range of a double.",
  ["inputs"],"all strings; in practice all rendered grammar derivations plus token-level and character-level mutations of them",
  "The repository's tests parse about sixty strings and the compliance suite is absent here; the language and its complement are infinite.",
  [SJP+"parser/mod.rs",SJP+"parser/segment.rs",SJP+"parser/selector/filter.rs",SJP+"parser/selector/slice.rs",SJP+"parser/primitive/int.rs",SJP+"parser/primitive/number.rs",SJP+"parser/selector/function/mod.rs"],
  [("parse_query_main and all sub-parsers, cut/uncut commit points",SJP+"parser/mod.rs")],["serde_json_path::JsonPath::parse"])
p("C08","Function calls are accepted exactly when well-typed",
  "A query containing function calls is accepted exactly when every call names a known function, has the declared number of arguments, each argument (literal, query, logical expression or nested call) is convertible to the declared parameter type under the RFC 9535 type rules, and the result type suits its position (test or comparison). A call used as a test with the wrong number of arguments is rejected with a message giving the expected count and then the received count.",
  ["inputs","programs"],"all call expressions over the built-in functions and user functions of every signature up to three parameters and some longer ones, in test, negated, comparison and argument position",
  "Two tests misuse length(); the product of signatures, argument kinds and positions is not enumerated.",
  [CORE+"spec/functions.rs",SJP+"parser/selector/function/mod.rs",SJP+"parser/selector/filter.rs",MAC+"common/define.rs"],
  [("FunctionArgType::converts_to, as_type_kind",CORE+"spec/functions.rs"),("generated validators",MAC+"common/define.rs")],["serde_json_path::JsonPath::parse"])
p("C09","String literals decode to exactly the characters they denote",
  "For every string and every RFC 9535 way to write it (single or double quotes, raw characters, short escapes, \\u escapes with any hexadecimal letter case, surrogate pairs), the literal denotes exactly that string both as a member name and as a comparison value. Malformed literals (lone or swapped surrogates, raw control characters, unknown escapes, the other quote escaped, unterminated text) are rejected.",
  ["inputs"],"all strings over the Unicode scalar values including controls, quotes, backslash and non-BMP characters, times all spellings, plus malformed variants",
  "Unit tests decode eight ASCII literals; no test decodes a surrogate pair or a \\u escape.",
  [SJP+"parser/primitive/string.rs"],
  [("parse_string_literal, parse_escaped_char, parse_surrogate",SJP+"parser/primitive/string.rs")],["serde_json_path::JsonPath::parse"])
p("C10","Indices and slice parts are exact I-JSON integers",
  "An index or slice part is accepted exactly when its value lies in [-(2^53)+1, (2^53)-1] and it is written without leading zeros, plus sign or negative zero, and it selects by that exact value. Integer arithmetic in the library never leaves that range: out-of-range conversions, parses, sums, differences and products are reported, never wrapped or clamped.",
  ["inputs"],"all decimal integer texts around 0, the array length, +-2^31, +-2^53, +-2^63 and beyond, and all pairs of in-range integers",
  "One test parses three integers; range edges and arithmetic are untested.",
  [CORE+"spec/integer.rs",SJP+"parser/primitive/int.rs",CORE+"spec/selector/index.rs"],
  [("Integer::try_new / checked_* ",CORE+"spec/integer.rs"),("parse_int",SJP+"parser/primitive/int.rs")],["serde_json_path::JsonPath::parse","serde_json_path_core::spec::integer::Integer"])
p("C11","Parsing any string returns, never panics",
  "Parsing any UTF-8 string, however truncated or malformed, returns either a path or an error and never panics or aborts. The error's position is a byte offset inside the input (at most its length) on a character boundary, its text contains that position and a non-empty message, and valid segments put in front of the faulty part move it by their length.",
  ["inputs"],"all strings with nesting bounded to 40 levels: arbitrary Unicode, grammar-biased token soups, and every prefix and mutation of valid queries",
  "A few invalid strings are tested; truncation points inside escapes and other states are not.",
  [SJP+"path.rs",SJP+"error.rs",SJP+"parser/utils.rs",SJP+"parser/primitive/string.rs"],
  [("nom Incomplete is declared unreachable",SJP+"path.rs"),("Error::calculate_position",SJP+"parser/mod.rs")],["serde_json_path::JsonPath::parse","serde_json_path::ParseError"])
p("C12","Evaluating any accepted query terminates without panicking",
  "Any path that was accepted by the parser can be evaluated, plainly and with locations, on any JSON document without panicking, aborting or unbounded memory, whatever extreme integers, patterns, custom argument kinds or document shapes are involved. Each reported node lies inside the queried document.",
  ["inputs"],"all accepted strings, including mutants, on all documents; extreme integers, arbitrary text as regular expressions, deep and wide documents",
  "Tests only evaluate benign queries.",
  [CORE+"spec/selector/slice.rs",CORE+"spec/functions.rs",CORE+"node.rs",MAC+"common/define.rs"],
  [("unwraps in generated evaluators rely on validation",MAC+"common/define.rs"),("checked arithmetic in slices",CORE+"spec/selector/slice.rs")],Q)
p("C13","Parsing cost stays polynomial in the query length",
  "The work done to parse a query, measured in memory allocations, is bounded by a fixed polynomial of its length, for every nesting of filters, parentheses, negations and function calls. Deepening a query by one level never multiplies the work.",
  ["inputs"],"all nesting families: filters in queries in filters, calls in calls, calls over filters, groups and negations, and random mixtures of them, up to 40 levels, valid or cut short",
  "No test nests more than two levels or measures work.",
  [SJP+"parser/selector/filter.rs",SJP+"parser/selector/function/mod.rs"],
  [("ordered alternatives in parse_basic_expr and parse_function_argument",SJP+"parser/selector/filter.rs")],["serde_json_path::JsonPath::parse"])
p("C14","Printing a path and parsing it back gives an equal path",
  "For every accepted query, the text produced by displaying the parsed path is itself accepted, parses to a path equal to the original, selects the same nodes from every document, and prints identically again.",
  ["inputs"],"all accepted queries, including names and string literals with quotes, backslashes and control characters, negated function calls, all literal kinds and nested filters",
  "One round trip of one simple query is tested.",
  [CORE+"spec/query.rs",CORE+"spec/segment.rs",CORE+"spec/selector/filter.rs",CORE+"spec/selector/name.rs",CORE+"spec/selector/slice.rs",CORE+"spec/functions.rs"],
  [("Display implementations of every query element",CORE+"spec/selector/filter.rs")],["serde_json_path::JsonPath (Display, FromStr)"])
p("C15","Serde and string conversions agree with parsing",
  "Serialising a path yields its displayed text as a JSON string; deserialising a JSON string, parsing through FromStr and calling parse accept exactly the same strings and give equal paths, whatever the data source (borrowed text, owned value, reader, escaped text). A node list serialises to the array of its nodes, and a located node list to the array of its location texts and nodes, in order.",
  ["inputs"],"all accepted and rejected strings; all query results",
  "Two tests deserialise one query each from an owned value.",
  [SJP+"path.rs",CORE+"node.rs",CORE+"path.rs"],
  [("Serialize/Deserialize for JsonPath",SJP+"path.rs"),("derived Serialize on NodeList, LocatedNodeList",CORE+"node.rs")],["serde_json_path::JsonPath","serde_json_path::NodeList","serde_json_path::LocatedNodeList"])
p("C16","Plain and located queries return the same nodes",
  "For every path and document, querying with locations returns the same nodes (the same places in the document, not merely equal values), in the same order and with the same multiplicity, as querying without locations and as querying through the extension method on the value.",
  ["inputs"],"all accepted queries of every selector and function kind, on all documents",
  "The two evaluators are separate code for every selector; tests compare them only through the absent compliance suite.",
  [CORE+"spec/query.rs",CORE+"spec/segment.rs",CORE+"spec/selector/mod.rs",CORE+"spec/selector/slice.rs",CORE+"spec/selector/index.rs",CORE+"spec/selector/name.rs",CORE+"spec/selector/filter.rs",SJP+"ext.rs"],
  [("parallel query / query_located implementations",CORE+"spec/query.rs")],Q)
p("C17","Every reported location leads to exactly its node",
  "For every located result, following the location's elements from the root, resolving its JSON Pointer with the standard resolver, and the node reference itself all denote one and the same place in the document, so an edit through the pointer changes that node and nothing else.",
  ["inputs"],"all accepted queries and documents, in particular member names containing '/', '~', digits, quotes, empty names and mixtures of arrays and objects at any depth",
  "Tests check a few locations with plain ASCII names and one pointer escape.",
  [CORE+"path.rs",CORE+"spec/segment.rs",CORE+"spec/query.rs"],
  [("clone_and_push of the parent path",CORE+"path.rs"),("PathElement::to_json_pointer escaping",CORE+"path.rs")],["serde_json_path::LocatedNode","serde_json_path::NormalizedPath::to_json_pointer"])
p("C18","Locations print as canonical RFC 9535 normalized paths",
  "A location's text is the RFC 9535 section 2.7 normalized path of the node: bracketed single-quoted names with the prescribed escapes for quote, backslash and every control character, and plain decimal indices. That text is itself a valid query that selects exactly that node, and different places in a document have different texts.",
  ["inputs"],"all documents, in particular member names with quotes, backslashes, control characters and non-ASCII text",
  "Unit tests cover the display of one path element at a time and only some control characters; the text of whole locations with special names is not tested.",
  [CORE+"path.rs"],
  [("Display for NormalizedPath and PathElement",CORE+"path.rs")],["serde_json_path::NormalizedPath (Display, Serialize)"])
p("C19","Deduplication keeps each selected place exactly once",
  "Deduplicating the located results of any query, or any concatenation and reordering of located results on one document, leaves exactly one entry for each distinct place selected, loses no place, invents none and keeps each entry's node, and doing it again changes nothing. The in-place and the by-value forms agree and neither panics.",
  ["inputs","histories"],"all located node lists obtained from queries on one document, with any number and arrangement of duplicates, and equal values at different places",
  "Two doc examples dedup a four-element list.",
  [CORE+"node.rs",CORE+"path.rs"],
  [("sort by location then Vec::dedup",CORE+"node.rs"),("PartialOrd for PathElement",CORE+"path.rs")],["serde_json_path::LocatedNodeList::dedup"])
p("C20","Node list accessors describe one and the same list",
  "For every query result, length, emptiness, first, last, indexed access, iteration in either direction, node and location iterators with their exact sizes, extraction of all nodes, and the at-most-one and exactly-one extractors with the counts in their errors all describe one and the same sequence; the same holds for the accessors of a location.",
  ["inputs","histories"],"all query results of any size and all interleavings of forward and backward iteration",
  "Doc examples call each accessor once on a tiny list.",
  [CORE+"node.rs",CORE+"path.rs"],
  [("NodeList / LocatedNodeList / Locations / Nodes",CORE+"node.rs"),("NormalizedPath accessors",CORE+"path.rs")],["serde_json_path::NodeList","serde_json_path::LocatedNodeList","serde_json_path::NormalizedPath"])
p("C21","Results depend only on the path text and the document",
  "A query's result depends only on the path's text and the current content of the document: it is the same whatever was parsed, evaluated, cloned, dropped, edited or deduplicated before, on whichever thread, and however many threads share the path or the document at the same time. Evaluation never changes the document.",
  ["histories","schedules"],"all sequences of parse, clone, drop, query, edit-document and concurrent-query operations over several paths and documents in one process",
  "Every test is a single parse and query in a fresh state on one thread.",
  [SJP+"path.rs",SJP+"parser/selector/function/registry.rs",CORE+"spec/functions.rs"],
  [("immutable AST, LazyLock statics for registry, validators and evaluators",SJP+"parser/selector/function/registry.rs")],Q,
  [("REGISTRY and per-function validator/evaluator statics","lazily initialised process-wide state",SJP+"parser/selector/function/registry.rs")])
p("C22","Equivalent spellings of a query mean the same",
  "Rewriting a query without changing its RFC 9535 meaning never changes acceptance or results: shorthand or bracket notation for names and wildcards, either quote style, any escape spelling, omitted or explicit slice defaults, redundant parentheses, and any amount of blank space (space, tab, line feed, carriage return) wherever the grammar allows it.",
  ["inputs"],"all pairs of spellings of one abstract query, on all documents",
  "A few whitespace placements in slices are tested; the combinations are not.",
  [SJP+"parser/segment.rs",SJP+"parser/selector/filter.rs",SJP+"parser/selector/slice.rs",SJP+"parser/selector/function/mod.rs",SJP+"parser/primitive/string.rs"],
  [("multispace0 placements and shorthand parsers",SJP+"parser/segment.rs")],Q)
p("C23","Queries compose from their segments and selectors",
  "For every document, a query followed by further segments selects the in-order concatenation of those segments applied to each node of the query; a segment with several selectors selects, per input node, the in-order concatenation of each selector alone; and a descendant segment selects what its child form selects at the node and then at each of its descendants in depth-first order. Filters that mention the root keep referring to the whole document under this decomposition.",
  ["inputs"],"all ways to split a query into prefix and suffix or a selector list into parts, on all documents",
  "No test relates the results of different queries.",
  [CORE+"spec/query.rs",CORE+"spec/segment.rs"],
  [("fold over segments; append per selector",CORE+"spec/query.rs")],Q)
p("C24","User-defined functions receive and return what they declare",
  "A function registered with the function attribute, of any signature over node lists, values and logicals, is called with exactly the values its argument expressions denote at the node under test, in order and converted to the declared kinds, and its result is used exactly as returned; every way to read or make such a value presents the same list, value or truth; it is known under its declared or overridden name, whatever other function names are registered, and shadows a built-in of the same name.",
  ["inputs","programs"],"all signatures up to three parameters over the three kinds and some of up to twelve, all argument expressions, all documents, names of any legal form including one letter and literal-keyword prefixes",
  "Three custom functions with one or two arguments are tested on one document.",
  [CORE+"spec/functions.rs",SJP+"parser/selector/function/mod.rs",MAC+"common/define.rs",MAC+"func/define.rs",MAC+"func/args.rs"],
  [("inventory registration and generated evaluator",MAC+"func/define.rs"),("TryFrom<JsonPathValue> conversions",CORE+"spec/functions.rs")],Q)
p("C25","Path equality is consistent with meaning",
  "Parsing one text twice, cloning, and printing and reparsing give equal paths, equality is symmetric, and two paths that compare equal select the same nodes from every document; paths differing in any name, index, slice part, operator, literal, function, argument, negation or segment kind that changes what they select compare unequal.",
  ["inputs"],"all pairs of queries, in particular pairs that differ in one place",
  "One equality of a round-tripped query is tested.",
  [SJP+"path.rs",CORE+"spec/query.rs",CORE+"spec/segment.rs",CORE+"spec/selector/filter.rs",CORE+"spec/functions.rs"],
  [("derived PartialEq/Eq/Clone on the AST; manual PartialEq for Validated",CORE+"spec/functions.rs")],["serde_json_path::JsonPath (PartialEq, Clone)"])
p("C26","Results do not depend on optional build features",
  "With tracing enabled, with user functions disabled, with serde_json preserving member order, with serde_json keeping arbitrary-precision numbers, or in an optimised build, every query is accepted or rejected and selects the same nodes as in the default build; with insertion-ordered objects, members are visited in that insertion order. Without the regex feature, match and search are unknown functions and nothing else changes.",
  ["configurations","inputs"],"the supported feature combinations times generated queries and documents",
  "The test run builds one feature set.",
  ["serde_json_path/Cargo.toml","serde_json_path_core/Cargo.toml",SJP+"parser/selector/function/mod.rs",SJP+"parser/selector/function/registry.rs",CORE+"spec/selector/filter.rs",CORE+"spec/segment.rs"],
  [("cfg(feature) gates",SJP+"parser/selector/function/registry.rs")],Q)
p("C27","The function attribute accepts exactly well-typed signatures",
  "Applying the function attribute to a Rust function compiles exactly when every parameter is a plain identifier typed as a node list, value or logical and the return type is one of these three, whatever the function and its parameters are called and however the types are path-qualified or lifetime-annotated; any other parameter or return type, a receiver, or a missing return type is a compile error. A compiled function is registered under its own name or the name given in the attribute.",
  ["programs"],"generated Rust functions with random parameter lists, type spellings, return types and attribute arguments",
  "No compile-fail test exists; three good signatures are compiled.",
  [MAC+"common/extract.rs",MAC+"common/define.rs",MAC+"func/args.rs",MAC+"func/define.rs"],
  [("extract_components signature checks",MAC+"common/extract.rs")],["compiling a crate that uses serde_json_path::function"])
p("C28","Evaluation does no more work than the query denotes",
  "Evaluating a query tests each candidate node of each filter and evaluates each operand, subquery and function argument at most once per node tested, so the calls of user functions and the allocations made stay within a small multiple of what RFC 9535's evaluation of the query needs, however deeply filters, calls and logical expressions nest; in particular the cost never doubles with each level of nesting, and, as results borrow from the document, no memory is taken in proportion to the size of the values that are visited.",
  ["inputs"],"all queries and documents, in particular filters, calls, negations and groups nested up to 16 levels over documents of that depth",
  "No test measures work; an expression evaluated twice at each level gives the right answer and costs 2^depth.",
  [CORE+"spec/selector/filter.rs",CORE+"spec/functions.rs",CORE+"spec/query.rs",CORE+"spec/segment.rs",SJP+"parser/selector/filter.rs",SJP+"path.rs"],
  [("TestFilter::test_filter recursion",CORE+"spec/selector/filter.rs"),("FunctionExpr::evaluate",CORE+"spec/functions.rs"),("ASTs built by the parser, evaluated as often as they hold an expression",SJP+"parser/selector/filter.rs")],Q)
p("C29","Locations compare and print by their elements",
  "Two locations are equal exactly when they are the same sequence of names and indices, whatever documents and queries they come from, and two elements when both are the same name or both the same index; a name never equals an index or a number, nor an index a string. Names order by Unicode scalar values, indices by number, a name and an index not at all, and locations by their first differing element with a prefix before what it is a prefix of, so that the locations of one document are totally ordered from the root on; all operators agree with partial_cmp and ==. Located nodes are equal exactly when location and value are, lists exactly when they are element by element. An element displays as the text it has within the normalized path, without brackets and quotes and with its backslashes left as they are.",
  ["inputs"],"all pairs of locations, elements, nodes and lists within one document, between a document and an edited copy, and between unrelated documents; names with digits, quotes, control and non-BMP characters",
  "The documentation compares three elements with a literal; no test orders or displays locations of different documents, or displays names with most control characters.",
  [CORE+"path.rs",CORE+"node.rs"],
  [("PartialOrd and PartialEq for PathElement, derived ones of NormalizedPath",CORE+"path.rs"),("Display for PathElement",CORE+"path.rs"),("derived PartialEq for LocatedNode and the lists",CORE+"node.rs")],["serde_json_path::NormalizedPath","serde_json_path::PathElement","serde_json_path::LocatedNode","serde_json_path::LocatedNodeList","serde_json_path::NodeList"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
for d in P:
    assert len(d["title"])<=80,d["id"]
print(len(P))
