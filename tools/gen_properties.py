#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A path query returns exactly the nodes the document tree says it addresses",
  "For every well-formed document and every path built from element names, indices, # counts, #.field extraction, @attributes and %, Get returns the kind, text, attribute value or count that a walk over the document tree gives, taking the first match in document order. "
  "When the tree has no node at that path the result is Null, and nodes elsewhere in the document never contribute to the answer.",
  ["inputs"], "all well-formed documents and all paths over the basic segment kinds",
  "The tests assert a few hundred hand-picked document/path pairs; nested namesakes, missing siblings, mixed text and root-level arrays interact in combinations no example list covers.",
  ["get.go", "parser.go", "path.go"],
  [("segment walk over re-parsed content", "get.go executeQuery"), ("content extraction", "parser.go parseElementContent"), ("root arrays", "get.go collectFragmentRoots")],
  ["Get result: Type, String(), Array()"])

prop("C02", "Wildcards return every matching node once, in order, and nothing else",
  "For every document and every path containing * or **, the result lists exactly the nodes reached by replacing * with each child and ** with each descendant, each once. "
  "* results come in document order and ** results with descendants before their ancestor; one result is returned plain, several as an Array, none as Null.",
  ["inputs"], "all documents and all paths that contain at least one wildcard",
  "wildcard_test.go checks counts on some documents; it does not check exactness, order and flattening over all tree shapes and wildcard positions.",
  ["get.go"], [("single-level expansion", "get.go handleWildcardMatches"), ("recursive expansion", "get.go recursiveSearchWithContext")],
  ["Get result Array() elements, their order and kind"])

prop("C03", "Filters keep exactly the elements whose condition is true",
  "For every document and filter, #(cond) returns the first and #(cond)# all elements for which the condition on the named child, attribute or nested path is true under the documented operators, in document order. "
  "Numeric operators compare only finite numbers, string operators compare exact text, a missing operand never satisfies a comparison, and the segments after the filter continue from the kept elements only.",
  ["inputs"], "all documents, operators, operand values and filter positions",
  "filter_test.go covers each operator with a handful of values; operator parsing, quoting, numeric edge values and position of the filter in the path multiply far beyond that.",
  ["filter.go", "get.go", "path.go"], [("condition parser", "filter.go parseFilterCondition"), ("condition evaluation", "filter.go evaluateFilterWithDepth"), ("routing", "get.go handleFilterQuery, handleFilterQueryOnMatches")],
  ["Get result for paths with #(...) and #(...)#"])

prop("C04", "Pattern operators % and !% implement glob matching exactly",
  "For every text and pattern, the % filter holds exactly when the whole text matches the pattern with * standing for any run of characters, ? for one character and backslash making the next character literal. "
  "!% holds exactly when % does not, for every existing operand within the documented complexity bound.",
  ["inputs"], "all texts and all patterns up to a length bound over an alphabet with every special character and multi-byte characters",
  "Pattern tests list examples; the matcher is a dynamic program with fast paths, and off-by-one errors show only on specific text/pattern shapes.",
  ["internal/pattern/match.go", "filter.go"], [("dynamic-programming matcher", "internal/pattern/match.go Match"), ("no-wildcard fast path", "filter.go evaluateFilterWithDepth")],
  ["which elements a %/!% filter keeps"])

prop("C05", "Comments, CDATA, PIs, DOCTYPE and attribute text are never taken as elements",
  "For every document, tag-like text inside comments, CDATA sections, processing instructions, DOCTYPE declarations and attribute values is never treated as markup by queries, modifications, Map or filters. "
  "Adding or removing such constructs between nodes leaves every query answer unchanged, and entity declarations are never expanded.",
  ["inputs"], "all placements of opaque constructs with all tag-like payloads in all small documents",
  "Tests place a few benign comments; none enumerates payloads such as closing tags of the enclosing element, and several such tests are skipped today.",
  ["parser.go", "get.go", "builder.go", "validate.go"], [("skipping", "parser.go skipToNextElement"), ("content scan", "parser.go parseElementContent"), ("text extraction", "parser.go extractTextContent, extractDirectTextOnly")],
  ["Get, Map, Set and Delete on decorated documents compared with the plain document"])

prop("C06", "What Set stores is what Get reads back",
  "For every well-formed document, every path of element names, indices and an optional final attribute that Set accepts, and every string, integer, float or boolean value, Get on the same path of the result returns that value: attributes exactly, element text exactly up to surrounding white space, numbers and booleans through their accessors. "
  "This holds within the documented limits whether the target existed, was self-closing, had children or had to be created, and no value can introduce markup.",
  ["inputs"], "all documents, target kinds, paths and values over an alphabet containing every XML-special character",
  "set_test.go reads back a few plain strings; special characters, self-closing targets, unusual tag spelling and repeated namesakes are not crossed with each other.",
  ["set.go", "builder.go", "parser.go"], [("escaping", "parser.go escapeXML, unescapeXML"), ("location of target", "builder.go findElementLocation"), ("replacement", "builder.go replaceElement, replaceAttribute")],
  ["Get(Set(doc, path, v), path)"])

prop("C07", "Set, append and Delete leave everything but their target untouched",
  "For every successful modification, the bytes before the place that changes and the bytes after it are preserved exactly, and every element, attribute, text, comment and declaration that is not the target or part of it reads the same as before. "
  "An attribute change touches only the opening tag of its element and keeps the other attributes' values.",
  ["inputs", "histories"], "all documents in any legal spelling, all targets and all modifying calls",
  "Tests compare full output on tidy documents; spelling variants (spaces in tags, single quotes, comments, attribute order) before the target are where offsets go wrong and are not enumerated.",
  ["builder.go", "parser.go"], [("byte offsets of the target", "builder.go findElementLocation"), ("splice", "builder.go replaceElement, removeElement, replaceAttribute, appendElement")],
  ["returned document compared with the input bytes and with an independent parse"])

prop("C08", "Set creates exactly the missing part of the path and nothing more",
  "When the addressed node does not exist, Set adds only the missing elements, named as in the path and nested in path order, as the last content of the deepest existing ancestor, or as a new root after the existing roots when no ancestor exists. "
  "Setting a missing attribute creates its element the same way, and a path that cannot be created is refused instead of being written.",
  ["inputs"], "all documents and all creatable and non-creatable paths",
  "Tests create one or two levels under tidy parents; self-closing parents, several roots, partial matches and non-creatable segments are not crossed.",
  ["builder.go", "set.go"], [("creation", "builder.go createElement, createInParent, createInRoot, createSiblingRoot, buildElementPath")],
  ["returned document compared with the modelled tree", "error value for refused paths"])

prop("C09", "Appending with index -1 adds exactly one element after the last namesake",
  "For every document and array path ending in -1, Set and SetRaw add exactly one new element holding the value, directly after the last existing sibling of that name or at the end of the parent's content when there is none, creating missing parents. "
  "All previous elements keep their content and index, the count grows by one, and other negative indices or a -1 before the end of the path are rejected.",
  ["inputs", "histories"], "all documents, array paths, values and sequences of appends",
  "append_test.go appends to a few arrays; interleaved other elements, nested namesakes, self-closing and missing parents are not enumerated.",
  ["builder.go", "path.go"], [("append", "builder.go appendElement, appendRootElement, findLastMatchPosition"), ("index intent", "path.go resolveIndexIntent")],
  ["Set/SetRaw result, counts and indexed reads before and after"])

prop("C10", "Delete removes exactly the addressed node",
  "For every document and path, Delete (and Set with nil) removes precisely the element or attribute that Get resolves for that path, together with its content, and nothing else. "
  "When Get finds nothing there, the document is returned byte for byte with no error.",
  ["inputs"], "all documents and all element, index and attribute paths",
  "delete_test.go removes a few nodes from tidy documents; namesakes, nested namesakes, several roots and spelling variants are not crossed.",
  ["builder.go", "set.go"], [("location", "builder.go findElementLocation"), ("removal", "builder.go removeElement, deleteAttribute")],
  ["returned document compared with the modelled tree"])

prop("C11", "Well-formedness is closed under every sequence of modifications",
  "Starting from any valid document (or none), every successful Set, SetRaw, append, SetMany, Delete or DeleteMany returns a document that is again valid, unless a deletion removed its last root element. "
  "Therefore every further call can operate on the output of the previous ones, for any sequence of calls, paths and values.",
  ["histories", "inputs"], "all sequences of modifying calls up to a depth bound from all seed documents",
  "Tests apply at most a few calls in a row to fixed documents and rarely re-validate the output.",
  ["builder.go", "set.go", "validate.go"], [("input validation", "set.go SetBytesWithOptions"), ("escaping", "parser.go escapeXML"), ("raw guard", "set.go validateRawXML")],
  ["Valid on every returned document"])

prop("C12", "A failing modification changes nothing and reports its documented error class",
  "Whenever a modifying call returns an error, the returned document equals the input and the error matches the documented class: malformed XML for invalid or oversized documents, invalid path for unusable paths, invalid value for unusable values. "
  "SetMany, and DeleteMany on its distinct paths, equal the sequence of single calls when all succeed and return the original document when any fails.",
  ["inputs", "histories", "fault_sequences"], "all error causes, their combinations and every position of a failing step in a batch",
  "errors_test.go triggers each error once; combinations, batch positions and the returned document are covered only in part.",
  ["set.go", "errors.go", "builder.go"], [("early returns of the original", "set.go"), ("sentinel errors", "errors.go")],
  ["returned document and errors.Is on every call"])

prop("C13", "Valid accepts exactly the well-formed documents, and both validators agree",
  "For every byte string, Valid is true exactly when the text is a sequence of properly nested elements with legal names, quoted attributes, terminated comments, CDATA, PIs and declarations, no stray text outside the roots and no exceeded limit. "
  "ValidateWithError fails exactly when Valid is false and then reports a line and column between the start of the construct at fault and the end of the document; string and byte variants agree.",
  ["inputs"], "all strings up to a length bound over a markup alphabet, plus all token sequences up to a bound",
  "validate_test.go lists examples of good and bad documents; recognisers fail on unusual truncations and orders that only enumeration reaches.",
  ["validate.go"], [("recogniser", "validate.go validator")],
  ["Valid, ValidBytes, ValidateWithError, ValidateBytesWithError"])

prop("C14", "SetRaw only admits raw XML that stays inside its target",
  "For every raw fragment, SetRaw either rejects it with an invalid-value error and the original document, or returns a valid document in which the fragment is the exact content of the target and all other nodes are unchanged. "
  "Fragments with unbalanced or truncated tags, unterminated or nested CDATA, unterminated comments, or DOCTYPE or ENTITY declarations in any letter case are always rejected, and balanced plain fragments are accepted.",
  ["inputs"], "all fragments up to a bound over markup tokens and over raw markup characters",
  "Tests try some bad fragments; an escape from the target needs particular token orders and truncations.",
  ["set.go"], [("fragment validation", "set.go validateRawXML")],
  ["SetRaw result, error, Valid and Get on the result"])

prop("C15", "No input makes any call panic, hang or touch its arguments",
  "For every document, path, value, option set and modifier chain, including malformed and truncated ones, every public function and every method on every Result returns normally after a bounded amount of work. "
  "Byte slices, strings, slices and options passed in are left exactly as they were, and returned results do not change when the caller later overwrites its buffer.",
  ["inputs", "programs"], "all byte strings up to a length bound over markup and path alphabets, for every entry point",
  "The fuzz targets only replay their seed corpora in the test run; panics hide in short inputs of a particular form.",
  ["parser.go", "path.go", "filter.go", "get.go", "result.go", "set.go"], [("bounds checks", "parser.go, path.go"), ("limits", "parser.go constants"), ("copying of content", "parser.go parseElementContent")],
  ["return of every call, argument bytes after the call"])

prop("C16", "Answers depend only on the arguments, never on history or chance",
  "For every call, repeating it gives the same answer and the same bytes, no matter which other paths, options, documents or modifiers were used before and how many distinct paths have been seen. "
  "In particular remembering parsed paths is never observable, and attribute order in returned raw text and written tags is stable.",
  ["histories", "inputs"], "all orderings of call histories up to a bound, including histories that overflow any path memory, and repeated calls",
  "Every test runs each call once in one fixed order, so neither hidden state nor iteration-order effects can show.",
  ["path.go", "parser.go", "builder.go", "get.go"], [("path cache with copies", "path.go parsePath"), ("attribute ordering", "parser.go, builder.go")],
  ["equality of results across histories and repetitions"],
  [("pathCache", "parsed paths kept between calls", "path.go")])

prop("C17", "Concurrent use behaves like some sequential order, with no data race",
  "Under every interleaving of concurrent queries, modifications, path parsing and modifier registration, each call returns what it would return in some sequential order of the calls, and registrations take effect exactly once. "
  "No interleaving contains a data race or a deadlock. A batch counts as its single calls, and each modifier of a chain is looked up on its own.",
  ["schedules", "programs"], "all interleavings (up to a preemption bound) of all small sets of concurrent calls",
  "concurrency_test.go starts goroutines and lets the Go scheduler pick a few interleavings; results are checked only loosely.",
  ["path.go", "modifier.go"], [("path cache lock", "path.go pathCacheMu"), ("registry lock", "modifier.go modifierMu"), ("copy on read and write", "path.go parsePath")],
  ["results of each concurrent call, race detector"],
  [("pathCache", "shared parsed-path memory", "path.go"), ("modifiers", "shared modifier registry", "modifier.go")])

prop("C18", "Options change only what they document",
  "Case-insensitive calls answer as the plain call would on a document and path with all names folded to lower case, and any other option setting answers queries exactly as the plain call. "
  "An indent setting adds only white space between elements to what Set produces, and default or nil options are identical to the plain call in result, bytes and error.",
  ["inputs", "configurations"], "all option combinations, documents with mixed-case names and paths of every segment kind, with modifiers",
  "options_test.go checks selected paths per option; the option-aware query engine is separate code and is not compared with the plain one.",
  ["options.go", "get.go", "set.go", "builder.go", "path.go"], [("option-aware engine", "get.go executeQueryWithOptions"), ("folded matching", "path.go matchesWithOptions"), ("indentation", "builder.go buildElementPath")],
  ["GetWithOptions, SetWithOptions, DeleteBytesWithOptions against the plain calls"])

prop("C19", "Fluent queries and Map agree with full-path queries",
  "For every element result, Get, GetMany and GetWithOptions on it answer exactly as the remaining path evaluated on that element's children, arrays answer through their first element and other results answer Null. "
  "Map lists each child name of the element exactly once with that child's result (an Array in document order when the name repeats) plus the direct text under %, and nothing else.",
  ["inputs"], "all documents, prefixes and remaining paths; all contents for Map",
  "Fluent tests use a few two-step chains; the wrapping of fragments with several top-level children makes many remaining paths behave differently.",
  ["result.go", "get.go"], [("re-query of raw content", "result.go Get"), ("fragment detection", "result.go isMultiRootFragment"), ("map building", "result.go Map")],
  ["Result.Get, GetMany, GetWithOptions, Map, MapWithOptions"])

prop("C20", "Result accessors are consistent conversions of the found value",
  "For every result, String, Int, Float, Bool, Value, Exists, IsArray, Array and ForEach follow their documented conversion of the underlying text: numbers parse or are zero, the documented words are true, Null yields zero values, and an array's text is a JSON-like list with correct escaping. "
  "ForEach visits exactly the members of Array in order with their positions and stops when asked to.",
  ["inputs"], "all texts up to a bound over digit, sign, exponent, quote and letter alphabets, and all arrays of them",
  "result_test.go uses a table of literals; numeric borders, quotes and early stops are not enumerated.",
  ["result.go"], [("conversions", "result.go methods of Result")],
  ["accessor values against an independent conversion"])

prop("C21", "Modifiers apply once, left to right, to the final result, from a sound registry",
  "For every query and modifier chain, the result is the built-in or registered modifiers applied once each from left to right to the result of the bare path, with unknown names or over-long chains giving Null. "
  "reverse, sort, first, last and flatten are the exact list operations; pretty and ugly change white space only. The registry accepts each name once, never alters built-ins, and resolves exactly the names currently registered.",
  ["inputs", "histories"], "all chains up to a length bound over all modifiers for every kind of query result; all registry call sequences",
  "modifier_test.go applies single modifiers to simple paths; chains over wildcard, recursive, filter, index and option-aware results are not crossed.",
  ["modifier.go", "get.go", "path.go"], [("chain", "modifier.go applyModifiers"), ("registry", "modifier.go RegisterModifier, UnregisterModifier"), ("split of path and chain", "path.go parseModifiers")],
  ["Get(path|chain) against the modelled chain on Get(path)"],
  [("registry", "registered modifiers by name", "modifier.go")])

prop("C22", "Every documented limit is enforced exactly at its boundary",
  "Inputs at a documented limit (document, value and token size, nesting, attributes, path segments, field and filter length, wildcard results, modifier chain) work fully, and inputs just beyond it are rejected or truncated as documented, for queries, validation and modifications alike. "
  "No sequence of modifications produces a document beyond a limit, and no query returns more results than the limit.",
  ["inputs", "configurations"], "each limit at limit-1, limit and limit+1 for every entry point it governs, and pairs of limits",
  "security_test.go usually probes far beyond a limit and only one entry point; off-by-one errors and entry points that forget a limit pass.",
  ["parser.go", "path.go", "filter.go", "get.go", "modifier.go", "validate.go", "set.go"], [("limit constants and their checks", "parser.go, path.go, filter.go, get.go, modifier.go")],
  ["results, errors and sizes at each boundary"])

prop("C23", "A prefixed name matches only its own prefix, a bare name matches any prefix",
  "For every document and path, a path name without a prefix addresses elements by local name whatever their prefix, and a name with a prefix addresses only elements with that same prefix and local name. "
  "This holds alike for plain steps, array indices and counts, filters, wildcards, and for the targets of Set, append and Delete.",
  ["inputs"], "all documents with up to three prefixes and all paths with and without prefixes, for every operation",
  "namespace_test.go covers plain steps; arrays, roots and modifications with mixed prefixes are mostly untested.",
  ["path.go", "get.go", "builder.go"], [("name comparison", "path.go matches, splitNamespace")],
  ["Get, Set, Delete on prefixed documents"])

prop("C24", "Path text is read as documented: separators, escapes, filters and indices",
  "For every path, an unescaped dot separates segments, a backslash makes the next character literal so that names with dots are addressable, and a filter or modifier stays whole. "
  "Exactly the integers are indices, empty segments and empty or unterminated filters are skipped, over-long paths and invalid filter conditions address nothing, and equal segment lists give equal answers however they are spelled.",
  ["inputs"], "all path strings up to a length bound over the path alphabet on documents whose names exercise every special character",
  "path_test.go checks internal segments for chosen strings; observable addressing of all short strings is not covered.",
  ["path.go", "filter.go"], [("splitting", "path.go splitPath"), ("segment classification", "path.go parsePathInternal")],
  ["Get result for every path string against a reference reading of the path"])

prop("C25", "All variants of an operation give the same answer",
  "For every input, the string, byte, many, single and option-taking (default options) variants of Get, Set, SetRaw, Delete and validation return the same results, bytes and error classes. "
  "Batch variants return one answer per requested path in the requested order.",
  ["inputs", "programs"], "all inputs of the other properties through every variant, including malformed documents and paths",
  "Tests usually exercise one variant per case.",
  ["get.go", "set.go", "validate.go", "result.go"], [("delegation between variants", "get.go, set.go, validate.go")],
  ["pairwise equality of variant answers"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
