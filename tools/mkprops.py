#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
H="crates/jsonpath_rfc9535/src/"; PE="crates/jsonpath_rfc9535_pest/src/"; PR="crates/jsonpath_rfc9535_pest_recursive/src/"
S="crates/jsonpath_rfc9535_serde/src/"; I="crates/jsonpath_rfc9535_iter/src/"; L="crates/jsonpath_rfc9535_locations/src/"; G="crates/jsonpath_rfc9535_singular_selector/src/"
ALLPARSE=[H+"lexer.rs",H+"parser.rs",PE+"parser.rs",PE+"jsonpath.pest",PR+"parser.rs",PR+"jsonpath.pest",S+"parser.rs",S+"jsonpath.pest",S+"unescape.rs",I+"parser.rs",I+"jsonpath.pest",L+"parser.rs",L+"jsonpath.pest",G+"parser.rs",G+"jsonpath.pest"]
EVAL=[S+"ast.rs",I+"iter.rs",I+"selector.rs",I+"segment.rs",I+"filter.rs",L+"query.rs",L+"segment.rs",L+"selector.rs",L+"filter.rs",G+"query.rs",G+"segment.rs",G+"selector.rs",G+"filter.rs"]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

CTS="The repository's compliance suite is an empty submodule here; what is left are a few hundred fixed query strings, "

p("C01","Every valid RFC 9535 query is accepted by every parser",
 "Any string that RFC 9535's grammar and function typing rules make a valid JSONPath query is parsed successfully by all seven parsers. This holds whatever optional whitespace, quoting, escapes, shorthand or bracketed notation, redundant parentheses, number spelling and nesting of filters and functions the query uses.",
 ["inputs"],"for all well-formed, well-typed query strings over the standard functions, in all their concrete spellings",
 CTS+"each checked alone in one spelling; combinations of segments, nested filters, function arguments and whitespace positions are unbounded.",
 ALLPARSE,[("hand-written lexer state machine and precedence parser",H+"lexer.rs, "+H+"parser.rs"),("pest grammar plus typed AST construction",PE+"jsonpath.pest, "+PE+"parser.rs")],
 ["Parser::parse / JSONPathParser::parse / Query::standard return Ok"])
p("C02","Every invalid query is rejected by every parser",
 "Any string that is not a valid RFC 9535 query is rejected with an error by all seven parsers (the extended parser also admits its own documented extensions). This covers lexical and grammatical errors, uncompared literals or value-typed function results, comparisons of non-singular queries, wrong number or type of function arguments, unknown functions, integers outside the exact range, stray whitespace, embedded NULs and trailing input.",
 ["inputs"],"for all strings that differ from a valid query by arbitrary token- or character-level edits, and for all strings outright",
 CTS+"so only a sample of single mistakes is tried; acceptance of some other malformed string is never observed.",
 ALLPARSE,[("lexer error states",H+"lexer.rs"),("assert_comparable/assert_compared/assert_well_typed/parse_i_json_int",H+"parser.rs, "+S+"parser.rs"),("grammar anchoring SOI..EOI",S+"jsonpath.pest")],
 ["parse returns Err"])
p("C03","The parsed syntax tree says exactly what the query text says",
 "For every accepted query the syntax tree a parser returns has the same segments and selectors in the same order, the same decoded names and string literals, the same integers, slice parts and numeric literal values, the same operators with the RFC's precedence, the same negations, and the same function names and arguments as the query text. All seven parsers therefore agree with one another.",
 ["inputs"],"for all valid query strings, comparing the tree with the query's abstract meaning (And/Or chains up to associativity, an absent slice step equal to 1)",
 "Existing tests compare canonical text for about twenty queries and otherwise only check that parsing succeeds; decoding of escapes, numbers and precedence in combination is unchecked.",
 ALLPARSE,[("AST building",H+"parser.rs, "+PE+"parser.rs, "+PR+"parser.rs"),("string unescaping",S+"unescape.rs"),("number parsing",S+"parser.rs")],
 ["public AST enums"])
p("C04","A query's canonical text parses back to the same query",
 "Displaying any parsed query yields a valid query that the same parser and all other parsers accept and that has the same syntax tree. Displaying is canonical: it is unchanged by a further parse-and-display, and two spellings of the same query that differ only in whitespace, quoting, escapes, shorthand, number spelling or redundant parentheses display identically.",
 ["inputs"],"for all valid queries, including names and literals holding quotes, backslashes, control characters and non-BMP characters, negated groups and extreme numbers",
 "Existing tests pin the displayed text of about twenty simple queries and never parse it back.",
 [H+"query.rs",PE+"ast.rs",PR+"ast.rs",S+"ast.rs",I+"selector.rs",I+"filter.rs",L+"selector.rs",L+"filter.rs",G+"selector.rs",G+"filter.rs"],
 [("Display impls of query, segment, selector, filter expression",H+"query.rs, "+S+"ast.rs")],["to_string() of a parsed query"])
p("C05","No string makes a parser or lexer panic or abort",
 "Parsing or tokenizing any string returns a result: it never panics (with debug assertions and overflow checks on), never aborts the process, and never hits unreachable code. This holds for arbitrary bytes decoded as UTF-8, for near-valid queries with any token missing, duplicated or swapped, for extreme numbers, and for truncated escapes.",
 ["inputs"],"for all strings up to moderate nesting depth, for the lexer and all seven parsers",
 "A crash needs one particular malformed string; the existing tests try a couple of hundred chosen ones.",
 ALLPARSE,[("debug assertions, unwrap and slicing in lexer and parser",H+"lexer.rs, "+H+"parser.rs"),("unreachable arms over grammar rules",S+"parser.rs"),("byte indexing in unescape",S+"unescape.rs")],
 ["parse/tokenize under catch_unwind, process exit status"])
p("C06","Evaluating any valid query on any JSON document never fails",
 "Once a query has parsed, evaluating it against any JSON value completes and yields a list of nodes: it never panics, overflows, or returns an error. This includes documents with unsigned 64-bit and floating-point extremes, empty containers, odd member names, and queries with extreme indexes, slice bounds and steps, zero steps, invalid regular expressions and ill-matched operand types.",
 ["inputs"],"for all pairs of valid query and JSON document, in all four evaluating crates, with overflow checks on",
 "Evaluation is essentially untested here (the compliance suite is absent); a panic needs an unusual value or bound meeting a particular selector or comparison.",
 EVAL+[S+"standard_functions.rs"],[("index and slice normalisation",L+"selector.rs, "+S+"ast.rs"),("JSON number conversion",L+"filter.rs"),("regex compilation failures",L+"standard_functions.rs")],
 ["find/find_loop/iterator under catch_unwind"])
p("C07","Child segments select exactly the nodes the RFC prescribes, in order",
 "A child segment applies each of its selectors in order to each input node in order and concatenates the results, keeping duplicates. A name selects the member with exactly that name from objects only; an index selects the element counted from the front or back from arrays only; a slice selects exactly the elements of the RFC's bounds algorithm in step order; a wildcard selects every array element in index order or every member value.",
 ["inputs"],"for all documents and all queries of child segments with name, index, slice and wildcard selectors, including bounds and steps far outside the array and at the integer limits",
 "No test here evaluates a slice, an index out of range or a multi-selector segment in most of the crates; the bounds arithmetic has many boundary cases.",
 EVAL,[("slice bounds",S+"ast.rs slice, "+L+"selector.rs slice, "+I+"selector.rs slice"),("norm_index",L+"selector.rs"),("segment resolution order",S+"ast.rs Segment::resolve")],
 ["node list returned by find: value identity and order"])
p("C08","Descendant segments visit every descendant once, in document order",
 "A descendant segment applies its selectors to each input node and to every one of its descendants, each exactly once, with a node before its descendants and array elements (with everything beneath them) in index order. For each visited node all its selectors are applied in order, and chaining descendant segments repeats this per input node, keeping duplicates.",
 ["inputs"],"for all documents (any shape up to the JSON parser's depth limit) and all queries with one or more descendant segments",
 "Order and completeness over arbitrary tree shapes cannot be sampled by fixed documents, and the evaluator tests here do not run.",
 [S+"ast.rs",I+"segment.rs",I+"iter.rs",L+"segment.rs",G+"segment.rs"],[("recursive visit",S+"ast.rs visit, "+L+"segment.rs visit/descend, "+I+"segment.rs visit_iter")],
 ["node list returned by find"])
p("C09","Filter selectors keep exactly the children whose expression is true",
 "A filter selector yields, in order, exactly those elements or member values of an array or object for which its logical expression is true, and nothing for other values. A query used as a test is true exactly when it selects at least one node, whatever that node's value; negation, conjunction and disjunction follow Boolean logic; `@` is the child being tested by the innermost enclosing filter and `$` is always the root of the whole document, at every nesting depth.",
 ["inputs"],"for all documents and all filter expressions, including filters nested inside queries inside filters",
 "The truth value of arbitrary nested expressions, and which node `$` and `@` denote inside nested filters, is not sampled by any existing evaluation test.",
 [S+"ast.rs",I+"filter.rs",I+"iter.rs",L+"filter.rs",L+"selector.rs",G+"filter.rs",G+"selector.rs"],
 [("expression evaluation and truthiness",L+"filter.rs evaluate/is_truthy"),("filter iterators",I+"iter.rs ArrayFilterIter/ObjectFilterIter"),("query context",S+"ast.rs QueryContext")],
 ["node list returned by find"])
p("C10","Comparisons follow RFC 9535 semantics for all operand pairs",
 "The six comparison operators give the RFC 9535 result for every pair of operands: two empty results are equal and an empty result differs from every value; values of different types are unequal and unordered; numbers compare by mathematical value however they are spelled, also inside arrays and objects, which compare deeply; strings order by Unicode scalar values. `!=` is always the negation of `==`, `<=` and `>=` are `<` and `>` or `==`, and swapping operands mirrors the operator.",
 ["inputs"],"for all pairs of comparables (literals, singular queries, function results) over all I-JSON-interoperable values",
 "The operand-type by operator matrix crossed with values, number spellings and nested containers is large and no comparison is evaluated by the tests that run here.",
 [S+"ast.rs",I+"filter.rs",L+"filter.rs",G+"filter.rs"],[("compare/eq/lt",L+"filter.rs, "+S+"ast.rs, "+I+"filter.rs"),("number conversion",L+"filter.rs from_json_value")],
 ["membership of a child in the filter's result"])
p("C11","length, count and value return what RFC 9535 defines",
 "`length` is the number of Unicode scalar values of a string, elements of an array or members of an object, and nothing for any other value or an empty query; `count` is the number of nodes its argument selects, duplicates included; `value` is the value of the only node its argument selects and nothing if there are none or several. The results compare like any other value.",
 ["inputs"],"for all argument queries and documents, including non-BMP strings, empty containers, duplicate nodes and functions nested in functions",
 "No test that runs here evaluates a function; results depend on arbitrary argument values and node counts.",
 [S+"standard_functions.rs",I+"standard_functions.rs",L+"standard_functions.rs",G+"standard_functions.rs",L+"filter.rs"],[("Count/Length/Value::call",L+"standard_functions.rs"),("argument conversion",L+"filter.rs unpack_result")],
 ["membership of a child in the filter's result"])
p("C12","match and search decide I-Regexp matches correctly",
 "`match` is true exactly when its second argument is a valid I-Regexp (RFC 9485) that matches the whole of the first, and `search` exactly when it matches some substring. Non-string arguments and patterns that are not valid I-Regexps give false, never an error; the dot matches any character except line feed and carriage return.",
 ["inputs"],"for all subject strings and pattern strings (literal or taken from the document), valid or not",
 "The pattern language is infinite; the tests that run here evaluate no regular expression.",
 [S+"standard_functions.rs",I+"standard_functions.rs",L+"standard_functions.rs",G+"standard_functions.rs"],[("I-Regexp check, translation and anchoring",L+"standard_functions.rs full_match/map_regex")],
 ["membership of a child in the filter's result"])
p("C13","Each node's location is the normalized path of exactly that node",
 "Every node a query returns carries a location which is the RFC 9535 normalized path of that very node in the document: following its parts from the root leads to the same value, not merely an equal one. As text it is a valid query which, evaluated on the same document, selects exactly that node, and different nodes have different locations.",
 ["inputs"],"for all documents, with member names holding quotes, backslashes, control characters, dots, brackets or non-ASCII text, and all queries",
 "Path tests cover three plain names; normalisation of negative indexes, slices in reverse and escaping of arbitrary names is open-ended.",
 [S+"ast.rs",I+"node.rs",I+"iter.rs",L+"node.rs",L+"conslist.rs",L+"segment.rs",L+"selector.rs",G+"node.rs",G+"conslist.rs"],[("new_child_member/new_child_element",S+"ast.rs, "+I+"node.rs"),("Node::path and shared location lists",L+"node.rs, "+L+"conslist.rs")],
 ["location string / path() of each returned node, address of its value"])
p("C14","All evaluators give the same node list",
 "For the same standard query and document, the eager evaluator, its explicit-loop variant, the lazy iterator, the location-list evaluator and the singular-selector evaluator return the same nodes in the same order with the same locations, and all accept or all reject the query.",
 ["inputs"],"for all pairs of standard query and document, covering every selector, segment and function",
 "Each crate would at best be checked against its own expected outputs; agreement over arbitrary inputs is not tested at all.",
 EVAL,[("five evaluation entry points",S+"jsonpath.rs, "+I+"jsonpath.rs, "+L+"jsonpath.rs, "+G+"jsonpath.rs")],
 ["find, find_loop, iterator collect"])
p("C15","Results do not depend on earlier queries or on concurrent ones",
 "Evaluating a query on a document gives the same result at any point of any history of earlier evaluations and parses, whether its patterns were seen before, evicted or seen by the other regex function, and whether the parsed query or environment is new or reused. Evaluating and parsing from several threads at once gives each thread the result it would get alone.",
 ["histories","schedules"],"for all sequences of find calls over varying patterns, subjects and environments (including more distinct patterns than any cache holds), and for concurrent callers",
 "Cached state only shows over long mixed histories; the tests evaluate each query once in a fresh process.",
 [S+"standard_functions.rs",I+"standard_functions.rs",L+"standard_functions.rs",G+"standard_functions.rs",S+"jsonpath.rs",L+"jsonpath.rs"],[("per-function LRU cache of compiled patterns behind a mutex",L+"standard_functions.rs"),("lazily initialised global parser and environment",L+"query.rs, "+L+"jsonpath.rs")],
 ["find results over a history against a fresh environment and a model"],
 [("compiled pattern cache","pattern text to compiled regex, capacity 100",L+"standard_functions.rs"),("global ENV and PARSER","shared across threads",L+"jsonpath.rs")])
p("C16","Custom function signatures are enforced exactly as registered",
 "A parser on which functions have been registered accepts a call exactly when the argument count equals the registered parameter count, each argument can be converted to its parameter's type under RFC 9535's rules, and the result type fits where the call stands (value results only compared or as value arguments, logical results only as tests or logical arguments, nodes results as tests or nodes or logical arguments). Registering a name again replaces its signature, unregistered names are name errors, and other parsers are unaffected.",
 ["configurations","inputs"],"for all registered signatures over the three types, all arities, and all well-typed and ill-typed calls, including nested ones",
 "Two or three fixed signatures are tried by existing tests; the type-by-argument-kind-by-position matrix is not.",
 [H+"parser.rs",PE+"parser.rs",PR+"parser.rs",S+"parser.rs",I+"parser.rs",L+"parser.rs",G+"parser.rs",L+"jsonpath.pest"],[("assert_well_typed/is_value_type/is_nodes_type",H+"parser.rs, "+L+"parser.rs"),("function_argument rule",L+"jsonpath.pest")],
 ["parse result of a Parser with registered functions"],[("function register","name to signature, per parser","functions / function_signatures fields")])
p("C17","Custom functions receive correctly converted arguments",
 "During evaluation a registered function extension is called with exactly its declared number of arguments, each converted to the declared type: a value (or nothing, if a singular query selects no node) for a value parameter, the node list for a nodes parameter, and true or false for a logical parameter, a query there counting as true exactly when it selects a node. Its result is then used as RFC 9535 says for its type.",
 ["inputs","configurations"],"for all registered functions over the three types, all argument expressions and all documents",
 "No test registers a function with an evaluator.",
 [S+"ast.rs",I+"filter.rs",L+"filter.rs",G+"filter.rs"],[("unpack_result and function dispatch",L+"filter.rs, "+S+"ast.rs, "+I+"filter.rs")],
 ["arguments seen by, and results produced through, a recording function"])
p("C18","The singular query selector selects by the value its query yields",
 "In the extended evaluator a bracketed selector that is a singular query selects, from an object, the member named by the string that query yields from the document root and, from an array, the element at the integer it yields, counting from the end if negative. It selects nothing if the query yields no node, another type of value, an out-of-range integer or an absent name, and it works inside multi-selector, descendant and nested positions.",
 ["inputs"],"for all documents and all queries of the extended dialect using singular query selectors, including nested ones",
 "Four fixed queries on one document are tested.",
 [G+"selector.rs",G+"parser.rs",G+"jsonpath.pest"],[("Selector::SingularQuery resolution",G+"selector.rs"),("singular_query_selector rule",G+"jsonpath.pest")],["find of the extended crate"])
p("C19","The extended dialect's implicit root means the same as `$`",
 "In the extended evaluator a query without a leading `$` that starts with a bracketed selection or a bare name means exactly the same as that query with `$` (and `.` before a bare name) in front: same syntax tree, same nodes, same canonical text. Likewise a singular query selector with or without its leading `$`. Every standard query keeps its standard meaning there.",
 ["inputs"],"for all standard and extended queries, with and without the leading root identifier, on all documents",
 "Six fixed queries on one document are tested.",
 [G+"parser.rs",G+"jsonpath.pest"],[("implicit_root_query and implicit_root_singular_query_segments rules",G+"jsonpath.pest")],["find / parse / Display of the extended crate"])
p("C20","Lexer tokens tile the query and carry exact source spans",
 "For every input string the token sequence has non-overlapping, increasing spans inside the string on character boundaries, and each token's kind and value are exactly what the source text at its span says; only whitespace, dots, quotes and the opening parenthesis of a call lie between them. A sequence ends with exactly one end-of-query token at the end of the text or exactly one error token.",
 ["inputs"],"for all strings, valid queries and malformed ones, including multi-byte characters",
 "About twenty token sequences of ASCII queries are pinned by unit tests.",
 [H+"lexer.rs",H+"token.rs"],[("emit/next/ignore position bookkeeping",H+"lexer.rs")],["tokenize / lex"],[("start, pos, filter depth and parenthesis stack","position and nesting of the scanner",H+"lexer.rs Lexer")])
p("C21","Errors report the right kind and a usable position",
 "A query whose only fault is calling an unregistered function yields a name error naming it; one whose only fault is a wrong argument count, an argument of the wrong type, or an uncompared or wrongly compared function result yields a type error, and the counts or the argument's position it states are true; one whose only fault is grammatical or an out-of-range integer yields a syntax error. Positions the hand-written parser reports lie within the query text, and for a function error are exactly the function's name.",
 ["inputs"],"for all valid queries with a single fault injected at any place, in all seven parsers",
 "Four fixed faulty queries are tested, in one crate.",
 [H+"errors.rs",H+"parser.rs",H+"lexer.rs",PE+"parser.rs",PR+"parser.rs",S+"parser.rs",I+"parser.rs",L+"parser.rs",G+"parser.rs"],[("JSONPathError construction",H+"errors.rs, "+S+"errors.rs"),("spans carried from tokens",H+"parser.rs")],["kind, message and span of the returned error"])
p("C22","Singularity and emptiness predicates tell the truth",
 "A parsed query reports itself singular exactly when it consists only of child segments with one name or index selector each, and empty exactly when it has no segments, at top level as well as inside filters. A query that reports itself singular never selects more than one node of any document.",
 ["inputs"],"for all valid queries and documents, in all seven crates",
 "The predicates are exercised only through a few comparison-validity tests, never on whole queries.",
 [H+"query.rs",PE+"ast.rs",PR+"ast.rs",S+"ast.rs",I+"query.rs",L+"query.rs",G+"query.rs"],[("is_singular/is_empty",H+"query.rs, "+L+"query.rs")],["is_singular()/is_empty() of parsed queries"])
p("C23","The lazy iterator yields the eager result, step by step",
 "Pulling nodes one at a time from the lazy evaluator yields the eager result's nodes in order, then keeps reporting the end; stopping early, resuming later, or interleaving several iterators over the same or different documents changes nothing. Each node handed out stays valid and unchanged after the iterator has moved on or been dropped.",
 ["histories","inputs"],"for all queries, documents, and interleavings of next calls over several live iterators, with drops at any point",
 "The iterator is only ever collected in one go, in tests that do not run here.",
 [I+"iter.rs",I+"node.rs",I+"segment.rs"],[("QueryIter/SegmentIter/SelectorIter/filter iterators",I+"iter.rs")],["QueryIter::next"],[("SegmentIter","current selector iterator and remaining ones",I+"iter.rs")])
p("C24","Large documents and long queries are handled without exhausting the stack",
 "Evaluation handles arrays and objects with hundreds of thousands of children, most of which may fail a filter or be selected by none of many selectors, documents nested as deeply as the JSON parser allows, and queries with thousands of segments or selectors, or about a hundred operators, on a default-sized thread stack in an unoptimised build. Results stay correct at that size.",
 ["inputs"],"for all wide, deep or long shapes up to the stated sizes",
 "Test documents have a handful of elements.",
 [I+"iter.rs",S+"ast.rs",L+"segment.rs",L+"conslist.rs",H+"parser.rs"],[("iterative list walking, list drop",I+"iter.rs, "+L+"conslist.rs")],["find on generated large inputs in a subprocess with the default stack"])
p("C25","Queries compose: results concatenate over segments and selectors",
 "For any query cut at any segment, the result equals evaluating the first part and then the rest on each of its result nodes in turn, concatenated, when the rest does not refer to the document root. A segment with several child selectors gives each input node the concatenation of its selectors' results, and embedding the document deeper inside another and prefixing the query with the way to it changes locations only by that prefix.",
 ["inputs"],"for all documents, all cut points and all root-independent remainders",
 "A relation between several evaluations, which example-based tests never state.",
 EVAL,[("segment folding",S+"ast.rs find/find_loop, "+L+"query.rs find, "+I+"iter.rs QueryIter::new")],["node lists of related queries"])
p("C26","The configured integer range is enforced everywhere integers appear",
 "Every index, slice start, stop and step in a query, at top level or in nested queries inside filters and function arguments, is accepted exactly when it lies within the parser's configured range, by default the interoperable range from -(2^53-1) to 2^53-1, and is otherwise a syntax error. Number literals in comparisons are not subject to it.",
 ["inputs","configurations"],"for all integers, positions of integers in queries, and configured ranges",
 "Four out-of-range literals are tried, all with the default range.",
 [H+"parser.rs",PE+"parser.rs",PR+"parser.rs",S+"parser.rs",I+"parser.rs",L+"parser.rs",G+"parser.rs"],[("index_range and parse_i_json_int",H+"parser.rs, "+L+"parser.rs")],["parse result of a parser with a configured range"],[("index_range","inclusive range of accepted integers, public field of each parser",H+"parser.rs")])
p("C27","Syntax tree nodes carry the source position of their text",
 "In the hand-written parser's tree every segment, selector and filter expression node carries the byte span, in the query text, of the token that introduces it: the bracket, name, wildcard or `..` of a segment, the digits, name, string content, `*`, `:` or `?` of a selector, the literal, operator, function name, `@` or `$` of an expression; an infix expression has its left operand's. Whitespace, quotes, multi-byte characters, escapes and parentheses around a node do not shift its span.",
 ["inputs"],"for all valid queries in all spellings",
 "No test looks at a span in a tree.",
 [H+"parser.rs",H+"query.rs",H+"lexer.rs",H+"token.rs"],[("spans copied from tokens",H+"parser.rs parse_segments, parse_selectors, parse_bracketed, parse_slice_or_index, parse_filter, parse_basic_expression"),("FilterExpression::span",H+"query.rs")],
 ["span fields and span() of the parsed tree"])
p("C28","Every entry point gives the same result",
 "The convenience functions, the parser structs made by `new` or `default`, the environments' own `find` methods, the exported environment, a default or fresh environment, a query rebuilt from its segments, a cloned query, and parsing from an explicit token list all do what `Query::standard` followed by evaluation does in the same crate: the same nodes with the same locations in the same order, or the same kind of error, for valid and invalid query text alike.",
 ["inputs"],"for all strings as query text and all documents, over every public entry point of the seven crates",
 "Existing tests use one or two entry points per crate, on valid queries.",
 [H+"query.rs",H+"parser.rs",PE+"ast.rs",PE+"parser.rs",PR+"ast.rs",PR+"parser.rs",S+"jsonpath.rs",S+"env.rs",S+"ast.rs",I+"jsonpath.rs",I+"env.rs",I+"query.rs",L+"jsonpath.rs",L+"env.rs",L+"query.rs",G+"jsonpath.rs",G+"env.rs",G+"query.rs"],
 [("find, find_loop",S+"jsonpath.rs, "+I+"jsonpath.rs, "+L+"jsonpath.rs, "+G+"jsonpath.rs"),("Environment::find, Environment::new",S+"env.rs, "+I+"env.rs, "+L+"env.rs, "+G+"env.rs"),("Query::new, Query::standard",H+"query.rs")],
 ["result of each entry point"])
p("C29","Node locations are persistent lists, unaffected by later use",
 "A node's location in the list-based evaluators is an immutable list, most recent element first. After any history of appending, taking tails or last elements, cloning, collecting, iterating and dropping over lists that share elements, every list still has exactly the elements, length, head and last element it was made with, a location's text is the normalized path of its elements from the root, and lists of millions of elements are dropped without exhausting the stack.",
 ["histories"],"for all histories of list operations over any number of lists sharing tails, dropped in any order",
 "The list's unit tests are short fixed sequences on one or two lists, and the location text is tested on four locations.",
 [L+"conslist.rs",L+"node.rs",G+"conslist.rs",G+"node.rs"],[("append/tailn/lastn/Drop/Iter",L+"conslist.rs, "+G+"conslist.rs"),("Node::path",L+"node.rs, "+G+"node.rs")],
 ["iter, len, head, last and path of every live list"],[("front, length","shared reference-counted nodes and the element count kept beside them",L+"conslist.rs ConsList")])
p("C30","Trees built by hand behave like parsed ones",
 "A query tree put together from a crate's public tree types that stands for a valid query behaves like the tree parsed from that query's text: displaying it gives a valid query with the same meaning which the crate reads back as the same tree, its predicates tell the truth, and the evaluators whose tree types are public select the same nodes with it. This holds whichever way operators are grouped, numbers are held and an end marker is present or absent.",
 ["inputs"],"for all valid trees over names, literals, integers and numbers of any value, in the five crates with public tree types",
 "Tests only ever display and evaluate trees that a parser made.",
 [H+"query.rs",PE+"ast.rs",PR+"ast.rs",S+"ast.rs",I+"query.rs",I+"segment.rs",I+"selector.rs",I+"filter.rs"],[("Display implementations, write_escaped",H+"query.rs, "+PE+"ast.rs, "+PR+"ast.rs, "+S+"ast.rs, "+I+"filter.rs"),("Query::new",S+"ast.rs, "+I+"query.rs")],
 ["Display, is_singular, is_empty and find of constructed queries"])
p("C31","Errors and tokens show exactly what they stand for",
 "An error's text shows its message in full, and in the hand-written parser its kind and the source range it holds, whether a parser made the error or a caller did, boxed or not. A message that names what was found, or rejected as an index, keyword or function, names exactly the source text at the error's range, or in the parsers without ranges an index or name that stands in the text; one that says a bracketed selection or a string is left open is right. Every lexer token displays as the source text it was read from. A function extension registered with the lazy evaluator shows its parameter and result types.",
 ["inputs"],"for all strings as query text, and all messages and spans errors can be made with",
 "A few tests compare the message field of one error each; none displays an error or a token.",
 [H+"errors.rs",H+"token.rs",H+"parser.rs",H+"lexer.rs",PE+"errors.rs",PR+"errors.rs",S+"errors.rs",I+"errors.rs",I+"function.rs",L+"errors.rs",G+"errors.rs"],
 [("Display for JSONPathError and JSONPathErrorType",H+"errors.rs, "+S+"errors.rs, "+I+"errors.rs, "+L+"errors.rs"),("Display for TokenType",H+"token.rs"),("messages quoting a token",H+"parser.rs parse_tokens, parse_bracketed, parse_function_call, parse_i_json_int")],
 ["to_string and Debug of errors, kinds, tokens and function extensions; msg and span fields"])
p("C32","Work stays in proportion to the input",
 "Tokenizing, parsing and dropping a query, valid or not, takes time and memory in proportion to the length of its text, however it nests and wherever its error is. Displaying a query takes at most its length times the depth it nests to. Evaluating takes time and memory in proportion to the work the query asks for on the document: values visited and expressions tested, the length of the locations made, the size of the values compared or passed to functions, and the size of the queries within filters each time they are started. Nothing takes twice as long for one more level of nesting of the query or the document.",
 ["inputs"],"for all texts, and all queries and documents, as the text, the query or the document grows in any place",
 "Tests use short queries and tiny documents and measure nothing.",
 [H+"lexer.rs",H+"parser.rs",H+"query.rs",PE+"parser.rs",PE+"ast.rs",PR+"parser.rs",PR+"ast.rs",S+"parser.rs",S+"ast.rs",I+"parser.rs",I+"iter.rs",I+"segment.rs",I+"filter.rs",L+"parser.rs",L+"segment.rs",L+"selector.rs",L+"filter.rs",L+"node.rs",G+"parser.rs",G+"segment.rs",G+"selector.rs",G+"filter.rs",G+"node.rs"],
 [("tokenize, Parser::parse",H+"lexer.rs, "+H+"parser.rs"),("JSONPathParser::parse",PE+"parser.rs, "+PR+"parser.rs, "+S+"parser.rs, "+I+"parser.rs, "+L+"parser.rs, "+G+"parser.rs"),("resolve, visit, evaluate",S+"ast.rs, "+I+"iter.rs, "+L+"segment.rs, "+L+"selector.rs, "+L+"filter.rs, "+G+"segment.rs"),("Node::path",L+"node.rs, "+G+"node.rs")],
 ["processor time and bytes allocated of each operation at two sizes"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
