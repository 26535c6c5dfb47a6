NOTES = ("One analyzer (analyzer/, Go, golang.org/x/tools/go/ssa) decides every claimed property from /repo's current source; "
         "check.sh builds it when it is out of date and runs one check. No code of /repo is run and no hooks are needed.")
ALLF = ["inter_add.go", "inter_set.go", "inter_delete.go", "inter_get.go", "inter_iter.go", "inter_type.go", "inter_core.go", "parse_add.go", "parse_set.go",
        "parse_delete.go", "parse_get.go", "parse_utils.go", "parse_core.go", "jin_object.go", "jin_object_add.go", "jin_object_get.go", "jin_object_set.go",
        "jin_object_others.go", "make.go", "others.go", "utils.go", "walk.go", "errors.go"]
NOTYET = "check not built yet"
PTS = "whole-program points-to and effect analysis over SSA, per exported function"
TERM = "path-wise value-flow equivalence with a reference over SSA"
TEXTA = "abstract interpretation over SSA in a domain of texts generated by the JSON grammar, with the specification run alongside"
TEXTLIM = ("All well-formed documents: any length, any number of members, any white space, any string contents; nesting is followed to any depth with the depth abstracted above a bound. "
           "Loops are followed to a fixpoint. A state whose result is definitely another one is a violation; a state the domain cannot follow is listed in the evidence as not decided and raises no alarm (there is none on the current tree).")
ENGINE = "backward proof of panic conditions over SSA in linear integer arithmetic, with inductively proved loop invariants and function contracts"
ENGLIM = ("All paths, all loop iterations and all inputs of the given functions and everything they may run; no unrolling and no bounds. Integers are mathematical (no overflow at 2^63), library functions are taken not to panic, "
          "callbacks and receivers are not nil and callbacks leave the document alone. An obligation the engine cannot prove is reported as a violation.")
TABLE = [
P("C01", "Reads never panic",
  "No read operation of the package or of a JO (get, get-all, typed and array getters, keys, values, maps, length, type queries, iteration and walking) panics: for every byte sequence given as document, valid JSON or not, complete or cut anywhere, and for every path, it returns a result or an error.",
  ["inputs"], "every read function, every document (any bytes, any length), every path and key list",
  "Tests read well-formed documents; an index that runs past the end or before the start needs a document cut, padded or nested in one particular way.",
  ["inter_core.go", "inter_get.go", "inter_iter.go", "inter_type.go", "others.go", "utils.go", "walk.go", "jin_object_get.go"],
  [("path search", "inter_core.go: core"), ("range of a value", "utils.go: getStartEnd"), ("iteration", "inter_iter.go"), ("type queries", "inter_type.go")],
  True, ENGINE, ENGLIM),
P("C02", "Edits never panic",
  "No add, insert, set, set-key, store or delete of the package or of a JO panics: for every byte sequence given as document and every key, value, index and path, it returns a document and possibly an error.",
  ["inputs"], "every edit function, every document (any bytes), key, value, index and path",
  "Tests edit well-formed documents; the splice positions are computed from neighbouring bytes that need not be there.",
  ["inter_add.go", "inter_set.go", "inter_delete.go", "inter_core.go", "utils.go", "jin_object_add.go", "jin_object_set.go", "jin_object_others.go"],
  [("splicing", "utils.go: replace"), ("edges of a deletion", "inter_delete.go: Delete"), ("insertion point", "inter_add.go: Insert")],
  True, ENGINE, ENGLIM),
P("C03", "Builders, formatters and Schemes never panic",
  "No builder, Flatten, Indent, ParseArray, ErrEqual, Scheme method or JO constructor panics, whatever values, lists, maps or bytes it is given, nil and empty ones and lists of different lengths included.",
  ["inputs", "histories"], "every builder, formatter and Scheme method, every argument, every history of a Scheme",
  "Tests build from a few non-empty values and format valid documents.",
  ["make.go", "others.go", "utils.go", "jin_object.go", "errors.go"],
  [("string encoder", "utils.go: formatType, isNumber"), ("trailing comma", "make.go"), ("array splitting", "others.go: ParseArray"), ("formatting", "others.go: Flatten, Indent")],
  True, ENGINE, ENGLIM),
P("C04", "Parse and the Parser never panic",
  "Parse returns a Parser or an error for every byte sequence, and no method of a Parser panics, whatever was parsed, whatever edits came before, failed ones included, and whatever keys, values, indexes and paths it is given.",
  ["inputs", "histories"], "Parse and every Parser method, every document, every sequence of edits",
  "The tree is built by pushing and popping on unchecked brackets, and edits splice it; a nil node or a range that ends before it begins takes an unbalanced document or an edit of an unusual kind of value.",
  ["parse_core.go", "parse_utils.go", "parse_add.go", "parse_set.go", "parse_delete.go", "parse_get.go", "sequence.go"],
  [("tree construction", "parse_core.go: pCore"), ("stack", "sequence.go"), ("tree edits", "parse_utils.go: attach, deAttach, refresh")],
  True, ENGINE + "; struct-field and element invariants; contents of local stacks", ENGLIM + " Relations between the fields of a struct and non-nil elements are invariants proved over all writers.",
  state=[("tree", "nodes with non-nil children", "parse_utils.go: node"), ("stack", "0 <= index <= len(list)", "sequence.go: sequance")]),
P("C05", "Every operation terminates",
  "Every operation comes to an end for every input: no loop runs for ever and no recursion goes on without end, whatever bytes, paths, keys, values and lists are given (callbacks permitting).",
  ["inputs", "histories"], "every loop and every recursive call in every function the API can run, every input",
  "A loop that fails to move needs one particular byte sequence, and a test that hangs cannot be told from a slow one.",
  ALLF, [("scans", "inter_core.go: core"), ("jump over values", "inter_core.go: core"), ("recursion", "walk.go: walk, parse_utils.go: dive, createTree")],
  True, "ranking functions over SSA loops and call-graph cycles, proved by backward linear arithmetic with invariants",
  "All 112 loops and all recursive calls. For Walk the measure is the length of the path, which grows with every step; that a path longer than the document is deep does not resolve is not proved. Trees are taken to be finite."),
P("C06", "Nothing the caller passes in is ever modified",
  "No operation writes to memory it was given: not to the document, not to the value or key bytes, not to a path or key list, including the unused capacity behind a slice. "
  "An edit that has to keep a value keeps a copy, so that changing the value's bytes afterwards changes neither a document, a Parser, a JO nor a Scheme.",
  ["inputs", "histories"], "every exported function, every argument, every capacity behind it, every later use of the argument by its caller",
  "Tests pass exact-capacity literals and do not look at their arguments again; a write into spare capacity or a retained array shows only with a caller that shares or reuses the array.",
  ALLF, [("results are built in new arrays", "utils.go: replace"), ("paths are extended by copying", "utils.go: appendPath"), ("Parser nodes copy the value", "parse_utils.go: valueNode, packValue"), ("Scheme copies key lists", "make.go: copyKeys")],
  True, PTS,
  "Sound over all paths up to the points-to abstraction (flow-insensitive, per entry point); assumes the modelled standard library functions write only where they document. Does not cover what a caller's callback does with the slices it is handed; Parse and New adopt the document itself, as documented.",
  observe=["memory of the arguments before and after each call"]),
P("C07", "A successful edit and every builder return memory of their own",
  "The document a successful add, insert, set, store or delete returns shares no memory with the document, value, key or path it was given; neither does the result of a builder, of Flatten or of Indent with its input. "
  "A JO never holds an array it was passed as a value.",
  ["inputs", "histories"], "every edit function, builder and formatter, every return that reports success, whatever the caller does with the input afterwards",
  "Tests compare contents; sharing shows only when the old and the new document are both changed later.",
  ["utils.go", "inter_add.go", "inter_set.go", "inter_delete.go", "make.go", "others.go", "jin_object_add.go", "jin_object_set.go"],
  [("splicing allocates", "utils.go: replace"), ("builders allocate", "make.go")],
  True, PTS + ", with returns split by the values that reach them",
  "Every return that may carry a nil error is covered, through delegation between edit functions; aliasing is decided by allocation site. Assumes a function value reached through a helper keeps the contract the helper's own returns show."),
P("C08", "Returned strings and collections are independent copies",
  "Every string, list of strings and map an operation returns stays what it was, whatever happens later to the document, the Parser, the JO or the value it came from: none shows memory of a byte slice, and no returned list or map is one that the library or the caller also holds.",
  ["inputs", "histories"], "every exported function that returns strings, string lists or maps, every later write to the document",
  "Tests read results at once; a string made without copying looks right until the document's bytes change.",
  ["inter_get.go", "parse_get.go", "parse_utils.go", "others.go", "utils.go", "make.go", "jin_object.go"],
  [("strings are made by copying conversions", "inter_get.go: GetString"), ("the one reinterpreting conversion feeds node labels only", "utils.go: byteArrayToString, parse_core.go: pCore")],
  True, PTS,
  "All conversions in the package are followed, including through unsafe; results of fmt and strconv are taken to be copies."),
P("C09", "Operations keep no hidden state; reads may run concurrently",
  "No operation leaves anything behind in the package: there is no mutable package state, and operations other than edits write only memory they allocate themselves. "
  "Hence the same call on the same input always gives the same result (except for the key order of the builder that takes a map), and any number of reads of one document, JO or Parser may run at the same time.",
  ["schedules", "histories", "inputs"], "every interleaving of non-editing operations on shared documents, JOs and Parsers; every earlier call",
  "The tests are sequential and each operation runs on its own document; a cache, a lazily built table or a scratch buffer in the package passes them.",
  ALLF, [("lookup tables are local", "inter_core.go: core"), ("no package variables", "*.go")],
  True, PTS + "; call graph allow-list",
  "Covers all writes reachable from each entry point. Assumes strconv, fmt, strings, bytes and sort are safe for concurrent use. A user's callback is the user's."),
P("C10", "A failed edit leaves the document as it was",
  "Whenever an add, insert, set, store or delete returns an error, the document it returns is exactly the one it was given, same bytes and same length, never nil or a part of it; a JO whose edit fails still holds the document it held.",
  ["inputs", "fault_sequences"], "every edit function and JO edit method, every path on which an error is returned",
  "Tests check the document after successful edits; the error paths, of which there are dozens, mostly have no test that looks at the returned document.",
  ["inter_add.go", "inter_set.go", "inter_delete.go", "jin_object_add.go", "jin_object_set.go", "jin_object_others.go"],
  [("error returns carry the parameter", "inter_add.go, inter_set.go, inter_delete.go"), ("JO stores what the edit returned", "jin_object_add.go")],
  True, "return-path enumeration and typestate over SSA, with error nilness by dominating branches; points-to for writes",
  "Every return statement is split by the values reaching it; an error whose nilness no branch settles counts as possible. Decides identity of the returned slice, and by the effect analysis that its bytes are not written."),
P("C11", "A failed Parser edit changes nothing; a successful one changes text and tree",
  "When a Parser edit returns an error, neither its text nor its tree has changed. "
  "When it returns no error, no error of the steps it is made of was ignored, its text has been replaced by the result of the corresponding edit of the text it held, and its tree has been changed too.",
  ["histories", "inputs", "fault_sequences"], "every Parser edit method, every order in which its steps can fail, every state of the Parser",
  "Tests edit valid documents successfully; text and tree drift apart only after an edit that fails half-way.",
  ["parse_add.go", "parse_set.go", "parse_delete.go", "parse_utils.go"],
  [("text is edited before the tree is touched", "parse_add.go, parse_set.go, parse_delete.go"), ("refresh reads every value before it stores one", "parse_utils.go: refresh")],
  True, "interprocedural typestate (write-then-error, unchecked error, missing update) over SSA paths",
  "All paths of all Parser edit methods with writing helpers expanded; loops to a fixpoint. Decides order and completeness of the updates, not that the new tree equals a reparse of the new text.",
  state=[("text", "the document the Parser holds", "parse_utils.go: Parser.json"), ("tree", "nodes read from it", "parse_utils.go: Parser.core")]),
P("C12", "Typed variants equal the raw edit on the value's canonical text",
  "Every typed add, insert, set and store (string, bool, float, and every integer width, of the package, the JO and the Parser) does exactly what the raw edit does with the same document, key, index and path and with the value written as JSON text: integers in base 10 with their sign and full width, floats in shortest decimal notation without exponent, booleans as true or false, strings through one and the same encoder. "
  "A typed key/value add refuses an empty key with the null-key error and a typed insert refuses a negative index with the index error, before anything else.",
  ["inputs"], "every typed variant, every value of its type, every document, key, index and path",
  "72 variants differ in one conversion each; tests call a few of them with one small value.",
  ["inter_add.go", "inter_set.go", "parse_add.go", "parse_set.go", "jin_object_add.go", "jin_object_set.go"],
  [("one-line delegation", "inter_add.go, parse_add.go, jin_object_add.go"), ("string encoder", "utils.go: formatType")],
  True, TERM,
  "All paths compared as terms; base edits are uninterpreted, so the result holds whatever they do. Trusts strconv's documented formats."),
P("C13", "A JO does exactly what the package functions do to its document",
  "Every method of a JO that exists as a package function returns what that function returns for the document the JO holds; an edit method also makes the JO hold the document the function returns, and nothing else changes it.",
  ["inputs", "histories"], "every JO method, every document and argument, every history of edits",
  "54 mirror methods; most have no test of their own, and swapped arguments of the same type compile.",
  ["jin_object.go", "jin_object_add.go", "jin_object_get.go", "jin_object_set.go", "jin_object_others.go"],
  [("delegation", "jin_object_*.go")], True, TERM,
  "All paths compared as terms with the package function as an uninterpreted call or expanded alike on both sides."),
P("C14", "Every error carries its own documented code and ErrEqual tells them apart",
  "Each error the library makes ends in the two-digit code documented for its condition; no two conditions share a code, and ErrEqual(err, code) is true exactly when err's text ends in that code, and false for nil and for any other error.",
  ["inputs"], "every place that creates an error, every error value, every code",
  "Tests compare a few codes; a swapped or duplicated code shows only in callers that branch on it.",
  ["errors.go"], [("constants", "errors.go"), ("constructors", "errors.go"), ("ErrEqual", "errors.go: ErrEqual")],
  True, "constant and format-string dataflow over all error creation sites; " + TERM + " for ErrEqual",
  "Decides which code each constructor writes and what ErrEqual compares; does not decide that each failing situation picks the right constructor."),
P("C15", "Iteration hands every member to the callback once, in order",
  "IterateArray and IterateKeyValue call the callback for the first member of the container, then for the next, and so on to the last, each time with exactly the bytes of that key and of that value (strings without their quotation marks, other values without the white space around them). "
  "They stop at once when the callback says so or returns an error, and return that error and no other. An empty container gives no call.",
  ["inputs", "histories"], "every well-formed document with any white space, nesting and string contents, every sequence of answers of the callback",
  "What separates members depends on every byte before: an escaped quotation mark, a bracket inside a string, an empty element; tests use a few plain documents.",
  ["inter_iter.go", "utils.go"], [("separators at level 0 or 1", "inter_iter.go"), ("cleaning", "utils.go: cleanValue")],
  True, TEXTA, TEXTLIM),
P("C16", "Keys, values and maps hold all members, each once, in order",
  "GetKeys, GetValues and GetKeysValues return exactly the keys and values of the object, each once and in the order of the document; GetMap maps every key of an object to its value and every index of an array to its element.",
  ["inputs"], "every well-formed object and array with any white space, nesting and string contents",
  "A member is lost or cut only for one particular arrangement of quotation marks, escapes, brackets and separators.",
  ["inter_get.go", "utils.go"], [("one pass over the container", "inter_get.go: GetKeys, GetValues, GetKeysValues, GetMap")],
  True, TEXTA, TEXTLIM + " The map is followed as a sequence of stores; when a document holds one key twice the last store wins."),
P("C19", "Length counts the members of a container",
  "Length returns the number of members of the object or array, 0 for an empty one, whatever stands inside them.",
  ["inputs"], "every well-formed document with any white space, nesting and string contents",
  "Commas and brackets inside strings and nested containers must not count; tests hold few of them.",
  ["others.go", "utils.go"], [("counting", "others.go: Length")],
  True, TEXTA, TEXTLIM),
P("C20", "The library touches nothing outside its arguments",
  "No operation writes or deletes files, starts processes, uses the network, reads the environment or the clock, or prints; only the two file-reading constructors open a file, and only the one at the path they are given.",
  ["inputs", "programs"], "every exported function, every call chain from it",
  "The package contains helpers that write files and run programs (for its tests); whether an exported function can reach them is a question about the call graph.",
  ALLF + ["testing_utils.go"], [("helpers are unreachable from the API", "testing_utils.go"), ("file constructors", "jin_object.go: ReadFile, ReadJSONFile")],
  True, "call-graph reachability with a callee allow-list", "All call chains including function values and package initialisation. Trusts that strconv, fmt.Sprint*/Errorf, strings, bytes and sort do no I/O."),
P("C21", "A Scheme owns its key lists, and saving and restoring keep them apart",
  "Changing the slice a Scheme was made from, or one it handed out, never changes the Scheme. "
  "Its saved keys are those it was made with or those current at the last save; adding or removing keys leaves them alone, and restoring makes the current keys a copy of them, so that later changes of the one never reach the other. The Scheme's builders use the current keys.",
  ["histories"], "every sequence of make, add, remove, save, restore and reads, with any changes to slices in between",
  "Sharing between the two lists shows only after a particular sequence, such as save, remove, add, restore; tests do not run it.",
  ["make.go"], [("copies at every boundary", "make.go: copyKeys, MakeScheme, Save, Restore, GetOriginalKeys, GetCurrentKeys")],
  True, PTS + " (ownership of the two lists); " + TERM + " for the builders",
  "Decides whose memory each list is, where its strings come from and which methods change it; not the number or order of the keys copied.",
  state=[("current keys", "", "make.go: Scheme.keys"), ("saved keys", "", "make.go: Scheme.originalKeys")]),
P("C22", "Typed getters are conversions of the raw getter's text",
  "The string, int, float, bool and string-array getters of the package and of the Parser read the value the raw getter returns for the same path and convert exactly that text; the raw getter's error passes through unchanged, and text that does not convert gives that type's parse error and the type's failure value.",
  ["inputs"], "every document, path and value text",
  "Tests convert a handful of well-formed values; wrong fallback values and swallowed errors appear on malformed ones.",
  ["inter_get.go", "parse_get.go"], [("delegation to Get", "inter_get.go: GetString, GetInt, GetFloat, GetBool, GetStringArray")],
  True, TERM, "All paths compared as terms; array splitting itself is an uninterpreted call."),
P("C23", "A path leads to exactly the value it names, or to an error",
  "For every document and path the search finds the value that stands under the keys and indexes the path names, one level after the other, and returns where its key, its first byte and its end are; when there is no such value, because a key is missing, an index is negative, too large or no number, or a value on the way has no members, it returns an error. "
  "A key matches only when it is the same as the path's element from its first to its last byte, and only a key of the object searched, not one of a nested object, not a value and not the inside of a string.",
  ["inputs"], "every well-formed document with any white space, nesting and string contents, every path",
  "The search skips members by counting quotation marks and brackets; where that goes wrong depends on all bytes before the value.",
  ["inter_core.go"], [("search", "inter_core.go: core"), ("jump over values", "inter_core.go: core"), ("comparison of keys", "inter_core.go: core")],
  True, TEXTA, TEXTLIM + " Paths of one and two elements before objects and arrays; longer ones repeat the outer loop."),
P("C24", "An edit changes exactly the place it names",
  "The document a successful edit returns is the given one with a single change: Set and Store put the new value where the old one was, SetKey the new key where the old key was, Delete takes out the member with one comma next to it (white space next to them may go), Add, AddKeyValue and Store put the new member behind the last one and Insert puts it before the element of that index, each with exactly the comma that is needed; every other byte stays as it is. Get returns the bytes of the value. "
  "A key that is there already is not added again nor given to another member; a search that fails makes the edit fail; a place of another kind (also a string that looks like a container) is refused, and so is an edit that names no place.",
  ["inputs"], "every edit, every document around the place, first, last, only and middle members, empty containers, every kind of value, any white space",
  "Which comma has to go and where the edges are depends on the neighbours and on the white space between them; tests edit compact documents.",
  ["inter_add.go", "inter_set.go", "inter_delete.go", "inter_get.go", "utils.go"],
  [("splice", "utils.go: replace"), ("edges of a member", "inter_delete.go: Delete, inter_add.go: Insert"), ("end of a container", "inter_add.go: Add, AddKeyValue")],
  True, TEXTA, TEXTLIM + " The search is taken as specified by C23; bytes inside other values are any."),
P("C25", "The kind of a value is told by its first byte and nothing else",
  "IsObject, IsArray and IsValue tell objects, arrays and other values apart, IsEmpty tells whether a container has a member, and GetType names each of the six kinds of JSON value, whatever white space is around it, whatever a string looks like and however large a number is. "
  "The iterators, GetKeys, GetValues, GetKeysValues, GetMap and the array getters return an error for a value of a kind they are not for, and hand out nothing.",
  ["inputs"], "every kind and form of value, at the root or at a path, with any white space",
  "Tests ask about a few values; strings that look like something else, exotic numbers and white space around a root value are rare in them.",
  ["inter_type.go", "inter_iter.go", "inter_get.go", "others.go", "utils.go"], [("type queries", "inter_type.go: typeControlCore, GetType, IsEmpty"), ("kind tests", "inter_iter.go, inter_get.go")],
  True, TEXTA, TEXTLIM + " A conversion of strconv is open to succeed or fail. The array getters also take a string that holds an array; that case is left open."),
P("C26", "A list read from an array holds all its elements, in order",
  "ParseArray, GetStringArray, GetIntArray, GetFloatArray and GetBoolArray return one entry for each element of the array, in the order of the document, made from exactly that element's text (strings without their quotation marks, other values without the white space around them); an empty array gives an empty list, and an element that does not convert an error.",
  ["inputs"], "every well-formed array with any white space, nesting and string contents",
  "An element is lost, cut or doubled only for one particular arrangement of quotation marks, escapes, brackets and separators.",
  ["inter_get.go", "others.go", "utils.go"], [("one pass over the array", "others.go: ParseArray; inter_get.go: GetIntArray, GetFloatArray, GetBoolArray")],
  True, TEXTA, TEXTLIM + " A root array is taken without white space around it; strconv's conversions are open to succeed or fail."),
P("C17", "A builder puts out every element once, in order",
  "MakeArray, its typed forms and MakeArrayBytes return an opening square bracket, every element once in the order given, a comma between each two, and the closing bracket; no elements give []. An element is written in the notation of its kind: an int in decimal, a bool as true or false, a float64 as strconv.FormatFloat with format 'f', shortest precision and 64 bits, bytes as they are, a string by the library's rule for strings, and anything else as the text fmt gives it, by that same rule. "
  "MakeJson, MakeJsonString and the Scheme's builders write a key in quotation marks, a colon and the value of the same number for every key, in order, with commas between, inside of braces; the Scheme's use its current keys; lists of different lengths give nil. "
  "MakeJsonWithMap writes every key of the map once, with its own value.",
  ["inputs"], "every number of elements and every list of values, keys and maps",
  "A dropped, doubled or shifted element, a lost comma or a narrowed number shows only for one length of the list or one value.",
  ["make.go", "utils.go"], [("one pass over the list", "make.go: MakeArray*, MakeJson*"), ("values for the current keys", "make.go: Scheme.MakeJson, Scheme.MakeJsonString")],
  True, "Every builder is followed with lists that are generated one element at a time; each byte and text it puts out is compared with what the specification has next. A wrong byte, a wrong element or a return at the wrong place is the violation.",
  "Lists, maps and texts of any length. fmt, strconv and the rule for strings are functions of their argument. bytes.Buffer, strings.Join and other ways to build a text come out undecided."),
P("C18", "Flatten and Indent change white space outside of strings and nothing else",
  "Flatten returns the document without the white space that stands outside of strings, and with every other byte in its place, white space and escapes inside strings among them. "
  "Indent returns the same bytes with white space outside of strings only: a new line after every opening bracket and comma and before every closing bracket, and each line begins with one tab for every container open there.",
  ["inputs"], "every document with any nesting and any string contents",
  "White space inside a string is kept or lost depending on all quotation marks and backslashes before it; a wrong depth shows only for one nesting.",
  ["others.go", "utils.go"], [("copying with strings tracked", "others.go: Flatten, Indent"), ("tabs", "utils.go: createTabs")],
  True, TEXTA, "Any sequence of tokens with balanced brackets stands for a document; unbounded depth, lengths and escapes. A chunk-wise copy comes out undecided."),
P("C27", "Walk hands out every leaf once, with its own path",
  "Walk calls the callback once for every value of the document that is no object and no array, in the order of the document, with the value, the path that leads to it (the keys and element numbers from the root) and the last element of that path as key; the path handed to one call is not written to for a later one. "
  "When the callback says to stop, it is not called again and Walk returns nil; when it returns an error, it is not called again and Walk returns that error. An error of a search ends the walk and is returned.",
  ["inputs", "histories"], "every document of any depth and every sequence of answers of the callback, at every depth",
  "A wrong element number, a lost answer of the callback several levels down or a shared path array shows only for one shape of document and one moment of stopping.",
  ["walk.go", "utils.go"], [("recursion through the iterators", "walk.go: walk"), ("path of a member", "utils.go: appendPath")],
  True, "Every path through Walk, its recursive function and the functions it gives to the iterators is followed in the abstract domain, with all answers of the type query, the getter, the iteration, the recursion and the callback; a path, a call or a return that differs from what the specification says is the violation.",
  "Assume-guarantee on the recursion: a recursive call does for the member's path what the function is shown to do for its own. GetType, Get and the iterators are taken as C25, C04 and C15 say. An explicit stack in place of the recursion comes out undecided."),
]
