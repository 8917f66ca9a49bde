#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording has one source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)
J, V, M, A = "json/JSON.go", "json/Value.go", "json/Map.go", "json/Array.go"

p("C01", "Parsing any string terminates and gives a document or errors, never both",
  "For every input string whatsoever, well-formed or not, parsing returns: it neither panics nor runs forever. It returns either a document and no errors, or no document and at least one error, and parsing the same string again gives the same outcome.",
  ["inputs"], "every byte string",
  "The tests parse about 200 chosen strings; a crash needs one particular arrangement of brackets, quotes and backslashes among exponentially many.",
  [J], [("container stack of the character loop", "JSON.go parseJSONMap"), ("scalar classification and dequoting", "JSON.go parseJSONValue"), ("prefix/suffix checks and bracket metrics", "JSON.go Parse")],
  ["return values of Parse", "panics", "termination"],
  [("list", "stack of open containers; popping it when empty is the crash", "JSON.go parseJSONMap")])
p("C02", "A well-formed document parses to exactly the tree it denotes",
  "Every well-formed JSON object text (starting with '{' and ending with '}') whose numbers are in range is accepted, and the resulting document has exactly the members, nesting, array elements and scalar values the text denotes. Keys keep the order of their first appearance, a repeated key keeps its first position and its last value, and array elements keep their order, at every width and nesting depth.",
  ["inputs", "programs"], "every well-formed JSON object text: all tree shapes, positions and value kinds",
  "Tests cover flat objects and a few two- or three-level nestings; the parser is a mode machine whose next mode depends on the enclosing container, so each pair of neighbouring constructs at each depth is a separate case.",
  [J, M, A], [("mode machine driven by the enclosing container", "JSON.go parseJSONMap"), ("key order and replacement", "Map.go setInternalValue"), ("element order", "Array.go Append*")],
  ["GetKeys, GetValue, Values, GetArray, GetValues, IsMap/IsArray/... on the parsed document"],
  [("current_mode", "what the parser expects next", "JSON.go parseJSONMap"), ("list", "open containers", "JSON.go parseJSONMap")])
p("C03", "String contents survive parsing exactly, as keys and as values",
  "For every Unicode string, a JSON string literal denoting it (escaped in any of the ways JSON allows, or written raw) is parsed to exactly that string, whether it is a member value, an array element, or the key of a scalar, object or array member. Structural characters, quotes, backslashes, control characters, blanks at either end and multi-byte characters inside a string never end it early, are never dropped or altered, and never influence the surrounding document.",
  ["inputs"], "every string content, every spelling of it as a literal, every position in a document",
  "Tests try one special character at a time in the middle of an ASCII word; they contain no multi-byte character, no escaped backslash and no key with special characters in front of a container.",
  [J], [("escape-aware end-of-string detection", "JSON.go parseJSONMap"), ("dequoting and unescaping", "JSON.go parseJSONValue, unquote_key_value")],
  ["GetKeys, GetStringValue, GetArrayOfStringValue on the parsed document"])
p("C04", "Insignificant whitespace never changes what a document means",
  "Inserting any amount of spaces, tabs, carriage returns or newlines between any two tokens of a well-formed document, including inside empty objects and arrays, leaves the parsed document unchanged.",
  ["inputs"], "every well-formed document, every token gap, every whitespace run",
  "Tests place a single blank or newline in a handful of gaps of a one-member object; gaps in arrays, nested containers and empty containers, and combinations of gaps, are not reached.",
  [J], [("whitespace skipping per mode, trimming of scalars", "JSON.go parseJSONMap, parseJSONValue")],
  ["parsed document compared with that of the compact text"])
p("C05", "Number literals are parsed exactly into the narrowest fitting type",
  "An integer literal is stored with exactly its value in the narrowest type that holds it: unsigned 8, 16, 32 or 64 bit when it carries no minus sign, signed 8, 16, 32 or 64 bit when it does; a literal beyond the unsigned or signed 64 bit range is an error. A literal with a fraction or an exponent is stored as the nearest single-precision value when it is within single-precision range, as the nearest double-precision value when only that range holds it, and is an error beyond that (of nonzero literals too small for full single precision, either the nearest single or the nearest double). This holds identically for member values and array elements.",
  ["inputs"], "every number literal, every position",
  "Tests check hand-picked limits of each width; the behaviour changes at sixteen boundaries and must hold for every literal around and between them, in maps and arrays alike.",
  [J], [("width selection and range checks", "JSON.go parseJSONValue")],
  ["GetType/IsInt8.../GetUInt64/GetInt64/GetFloat64 on the parsed value"])
p("C06", "Truncated or structurally broken documents are rejected",
  "Every proper prefix of a well-formed document is rejected, and so is every text in which '{', '}', '[' and ']' outside strings are not properly nested and closed, a string is not terminated, or anything but whitespace follows the brace closing the document. A value that is neither a string, an object, an array, a number, true, false nor null is rejected, and a rejected text yields no document, not even a partial one.",
  ["inputs", "crash_points"], "every truncation point, every deletion, insertion or swap of structural characters in a document",
  "Tests reject eight fixed strings; whether damage is noticed depends on where it falls relative to the nesting and on compensating damage elsewhere.",
  [J], [("container stack and bracket/quote metrics", "JSON.go Parse, parseJSONMap"), ("scalar classification", "JSON.go parseJSONValue")],
  ["return values of Parse"])
p("C07", "Serialising writes valid JSON that denotes exactly the document",
  "For every document, parsed or built through the API, serialising it appends to the given builder a single valid JSON text (as judged by any standard JSON reader) with exactly the document's members in key order, elements in order, and values: strings character for character, integers digit for digit, fractional numbers to within their own precision. What the builder already held is kept, repeated serialisation gives identical text, and a document holding something JSON cannot express gives an error.",
  ["inputs", "histories"], "every document content, shape, storage form (value or pointer) and construction history",
  "The tests only print serialised output and never compare it with anything.",
  [J, M, A], [("rendering by dynamic type, escaping", "JSON.go ConvertInterfaceValueToJSONStringValue"), ("member and separator output", "Map.go toJSONString, Array.go ToJSONString")],
  ["text appended by ToJSONString, decoded by an independent JSON decoder"])
p("C08", "Parse and serialise are inverse: a round trip preserves the document",
  "Serialising a parsed document and parsing the result gives an equal document: same keys in the same order, same nesting, same strings, same numbers with the same types, same booleans and nulls. The serialised text is a fixed point: serialising again gives the same text.",
  ["inputs", "histories"], "every document that can be parsed; every document built from strings, booleans, nulls, integers, objects and arrays",
  "No test parses what was serialised; quoting, number formatting and parsing must agree on every content at once.",
  [J, M, A], [("escaping versus unescaping", "JSON.go"), ("number formatting versus width selection", "JSON.go")],
  ["Parse(ToJSONString(doc)) compared with doc"])
p("C09", "A map behaves as an insertion-ordered dictionary under every history",
  "After any sequence of insertions, replacements and removals, a map answers every query as an insertion-ordered dictionary would: the key list, key presence, each value, the ordered list of values and the serialised text all agree. A replaced key keeps its position, a removed key is gone everywhere and returns at the end when set again, and removing an absent key is an error that changes nothing. A key list obtained earlier is a snapshot that later changes to the map do not alter, and altering it does not alter the map.",
  ["histories"], "every sequence of map operations",
  "Existing tests only parse and read; no test removes, replaces or re-inserts a key.",
  [M], [("three parallel structures kept in step", "Map.go setInternalValue, removeKey, RemoveKey, getKeys")],
  ["GetKeys, HasKey, GetValue, typed getters, Values, ToJSONString, RemoveKey result"],
  [("internal_map / internal_keys / internal_keys_obj", "dictionary, key order, value order: must agree", "Map.go NewMapOfValues")])
p("C10", "An array behaves as a list under every history",
  "After any sequence of appends, replacements by index and removals by index, an array's length, elements, bulk getters and serialised text are those of a plain list. An index outside the list gives an error and leaves the array unchanged, in every operation that takes an index.",
  ["histories"], "every sequence of array operations, every index including negative and out of range",
  "No test calls an array operation other than the bulk getters of a freshly parsed array.",
  [A], [("bounds checks and slice editing", "Array.go SetValueAtIndex, RemoveValueAtIndex, GetStringValue, GetMap, Append*")],
  ["Len, GetValues, GetStringValue, GetMap, GetArrayOf*, ToJSONString"],
  [("values", "the element slice", "Array.go NewArrayOfValues")])
p("C11", "A clone is equal to its original and independent of it",
  "Cloning a map, array or value gives an equal one: same keys in order, same nesting, same values and types, nulls and empty containers included. From then on no change made through either, at any depth, is visible through the other, and cloning leaves the original unchanged.",
  ["histories", "inputs"], "every document shape, every mutation site, both directions, clones of clones",
  "No test clones anything; sharing shows only when a particular nested part is changed afterwards.",
  [M, A, V], [("recursive cloning by kind", "Map.go clone, Array.go clone, Value.go clone")],
  ["observation of original and clone after each mutation"])
p("C12", "What a typed setter stores, the matching getter returns",
  "For every supported type and every value of it, a value stored through any setter, append or value constructor is returned unchanged by the matching getter (single-precision numbers to at least six decimal places), in both its pointer and its plain form, and storing again replaces it completely. Exactly the type predicates describing the stored kind answer true, the same through a map as through the value itself, and exactly one of map, array, string, bool, number and null applies.",
  ["inputs", "histories"], "every (container, setter, getter, predicate, value) combination, and every pair of consecutive stores",
  "The tests reach getters only through parsed text, so most setters, predicates and pointer forms are never executed.",
  [V, M, A], [("setter and getter closures per type", "Value.go, Map.go, Array.go")],
  ["Get*/Is*/GetType/GetObject after Set*/Append*/NewValue"])
p("C13", "Numeric conversion is exact or an error, never wrapped or truncated",
  "Reading a stored number as another numeric type gives the same number whenever the requested type can represent it, and an error otherwise; it never wraps around, truncates or changes sign. Integers read as floating point, and doubles read as single precision, give the nearest representable value (single-precision reads: to at least six decimal places), and a fractional or floating-point value is never silently turned into an integer. The pointer getter, the plain getter and the bulk array getter agree.",
  ["inputs"], "every stored number, stored type, storage form and requested type",
  "Twelve stored types times twelve requested types times both storage forms times the boundaries of each are beyond what the tests sample: they read each number as its own type.",
  [V, M, A], [("widening to 64 bit plus range checks", "Value.go GetInt64, GetUInt64, Get[U]Int{8,16,32}, GetInt, GetFloat32, GetFloat64")],
  ["Get<type> and Get<type>Value on Value, Map and Array"])
p("C14", "Numbers and booleans held as text convert exactly or give an error",
  "A string that is the decimal text of an integer is read by every integer getter as exactly that integer if it is in that type's range and as an error if it is not, and by floating-point getters as the nearest value (single-precision reads: to at least six decimal places); text that is not a number, read as a number, is an error. Read as a boolean, 'true' and '1' are true, 'false' and '0' are false, and any other text is an error.",
  ["inputs"], "every text, every numeric or boolean getter, both storage forms",
  "No test reads a string as a number or boolean.",
  [V], [("strconv conversions inside the getters", "Value.go GetInt64, GetUInt64, GetFloat64, GetBool, GetBoolValue")],
  ["Get<type>/Get<type>Value of a string value"])
p("C15", "Absent, null and mistyped values are reported, never invented and never fatal",
  "Reading an absent key or a null: pointer getters give nil without an error, plain getters give an error, type predicates other than the null predicate answer false, and the null predicate answers true. Reading a present value as a kind it cannot be converted to gives an error together with a nil or zero result. No read operation on any document panics, whatever the kind of the stored value, and a failed read changes nothing.",
  ["inputs"], "every read operation applied to every kind of stored value, to null and to absent keys",
  "Tests read values as what they are; the mismatched and absent combinations (dozens of getters by a dozen kinds) are untested.",
  [V, M, A], [("nil checks and default branches of every getter", "Value.go, Map.go, Array.go")],
  ["results, errors and panics of every getter and predicate"])
p("C16", "Bulk array getters agree element by element with the array",
  "A bulk getter returns one entry per element, in order, each equal to what the single-value getter gives for that element. Null elements appear as nil in the pointer form and make the plain form an error, and if any element cannot be converted the whole call is an error and returns no list.",
  ["inputs"], "every array content (mixed kinds, nulls, any length), every bulk getter, through the array and through the enclosing map",
  "Tests read homogeneous arrays of one or two elements as their own type; mixed content, nulls between values, and the plain forms are untested.",
  [A, M], [("per-element conversion loops", "Array.go GetArrayOf*"), ("delegation", "Map.go GetArrayOf*")],
  ["GetArrayOf* and GetArrayOf*Value"])
p("C17", "Reading never changes a document",
  "No sequence of read operations (getters, predicates, key and value listings, conversions, serialisation, cloning), successful or failing, changes anything a later read returns, neither on the same value nor on any other part of the document.",
  ["histories"], "every sequence of read operations on every document",
  "Tests read each value once and stop; a cached or lazily converted representation shows only on a later read of another kind.",
  [V, M, A, J], [("getters copy out of the stored object", "Value.go, Map.go, Array.go")],
  ["full observation of the document before and after each read"])
p("C18", "Nested containers are live: edits through any handle are seen everywhere",
  "A map or array obtained from a document, at any depth and by any getter, or placed into one by any setter, is the one the document holds, and so is a value obtained from it or placed into it by pointer: a change made through any handle is seen by every other handle, by the enclosing document and in its serialised text, and changes nothing else. Replacing or removing a nested container in its parent detaches it: later edits through an old handle no longer show in the parent.",
  ["histories"], "every sequence of edits through any of the handles of a nested document",
  "No test edits a nested container.",
  [V, M, A], [("shared closures behind copied structs, pointer versus value unboxing", "Value.go GetMap, GetMapValue, GetArray, GetArrayValue; Map.go SetMap, SetMapValue, SetArray, SetArrayValue, SetValue")],
  ["observation through the root and every handle after every edit"])
p("C19", "Separate documents never interfere; concurrent reads are safe",
  "Parsing, building, editing or serialising one document gives the same results whatever happens to other documents at the same time, under every interleaving of goroutines and every preceding history. Goroutines that only read one shared document all get the results a single reader would get, without data races.",
  ["schedules", "histories"], "every interleaving of two or three goroutines on separate documents or reading a shared one; every sequence of operations alternating between documents",
  "The tests run one goroutine on one document at a time.",
  [J, V, M, A], [("absence of package-level mutable state; reads do not write", "all of package json")],
  ["results of each goroutine compared with its sequential run", "race detector"])
p("C20", "Constructors from Go collections hold exactly the given elements",
  "An array or map made from a Go slice or map holds exactly the given elements, each under its index or key and with its own kind and value; elements that already are values are kept as those values, and nil elements are kept as nulls. An absent or empty collection gives an empty container, and later changes to the Go collection do not affect the container.",
  ["inputs"], "every collection of supported elements",
  "No test uses these constructors with content.",
  [M, A, V], [("wrapping by dynamic type", "Map.go NewMapOfValues, Array.go NewArrayOfValues, Value.go NewValue")],
  ["observation of the constructed container"])
p("C21", "Times, error lists and functions stored in a document can be read back",
  "A time, a list of errors or a function stored in a map or value is reported as present and returned unchanged by the matching getter. Clones keep times and error messages exactly, errors are serialised as their messages, a list of texts reads as the errors with those messages, UTC times are serialised to the microsecond, and reading that text as a time gives the same instant to the microsecond.",
  ["inputs", "histories"], "every time, every list of error messages, every storage form",
  "No test stores a time, an error or a function.",
  [V, M, J], [("GetTime, GetErrors, GetFunc and the null predicate", "Value.go"), ("rendering", "JSON.go")],
  ["GetTime, GetTimeValue, GetErrors, GetFunc, IsNil, IsNull, Clone, ToJSONString"])
p("C22", "Plain-text rendering of scalars agrees with the value",
  "Converting a scalar to plain text gives the string itself for strings (unquoted and unescaped), the decimal digits for integers, text that reads back as the same number for floating-point values, 'true' or 'false' for booleans and 'null' for null, the same whether the scalar is stored plain, by pointer or wrapped in a value; unsupported kinds give an error and no text.",
  ["inputs"], "every scalar of every supported type and storage form",
  "No test calls the conversion.",
  [J], [("rendering by dynamic type", "JSON.go ConvertInterfaceValueToStringValue")],
  ["result of ConvertInterfaceValueToStringValue"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
