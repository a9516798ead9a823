#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for ids, titles and statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
J, M, A, V = "json/JSON.go", "json/Map.go", "json/Array.go", "json/Value.go"

prop("C01", "Parsing is faithful to the document",
 "Parsing any well-formed JSON object text (RFC 8259, whose numbers are representable) succeeds and yields a map that equals the document: the same nesting, keys in order of first appearance, array elements in order, the same booleans and nulls, and every key and string with its escapes decoded (an unpaired surrogate escape as U+FFFD) and all other text byte for byte unchanged. When a key repeats in an object, the key keeps its first position and has its last value.",
 ["inputs"], "all well-formed JSON object texts, of every shape, depth, width, key and string content",
 "tests parse a few dozen tiny documents, one key or one short array each; they never combine nesting, escapes, Unicode, repeated keys or sizes beyond a handful of elements",
 [J], [("mode state machine", J+" parseJSONMap"), ("scalar conversion", J+" parseJSONValue"), ("escape decoding", J+" unescapeJSONString")],
 ["json.Parse", "Map.GetKeys", "Map.GetValue", "Array.GetValues", "Value.GetObject"])

prop("C02", "Number literals keep their value and get the narrowest integer type",
 "Every integer literal in the signed or unsigned 64-bit range is read exactly, into the narrowest 8, 16, 32 or 64 bit type that holds it (unsigned when it has no minus sign, signed when it has one). Every literal with a fraction or exponent within the range of a double is read as the nearest double (sign of zero included), or as the nearest single-precision float only when that loses nothing (it has the same value or the same shortest decimal form). Literals outside those ranges are rejected with an error, in an object and in an array alike.",
 ["inputs"], "all JSON number literals: every width boundary, sign, digit count, fraction and exponent",
 "tests pin the boundaries of each width but not the values in between, the 64-bit neighbours, exponents, long fractions or subnormals",
 [J], [("number classification", J+" parseJSONValue")], ["json.Parse", "Value.GetType", "Value.GetObject"])

prop("C03", "Parse is total",
 "For every input string whatsoever Parse terminates, never panics or crashes the process, and returns either a usable non-nil map and no errors, or a nil map and at least one error.",
 ["inputs"], "all byte strings: truncations, mutations, random tokens, random bytes, deep nesting, invalid UTF-8",
 "tests feed Parse a few malformed inputs and a panic needs one specific misplaced character",
 [J], [("bracket and comma bookkeeping", J+" parseJSONMap"), ("error returns", J+" Parse")], ["json.Parse"])

prop("C04", "Malformed text is rejected",
 "Parse returns an error for every text that is not exactly one JSON object from its first to its last character: unbalanced or crossed brackets, unterminated strings, missing, doubled or trailing commas and colons, bare words, malformed numbers, keys without values or non-string keys, or any content before or after the object. The only tolerated departures from RFC 8259 are stray backslashes (optionally followed by n, r or t) between tokens, and raw control characters and unknown or incomplete backslash escapes inside strings.",
 ["inputs"], "all texts that are not a JSON object, in particular every small damage to a valid one",
 "tests reject a few unbalanced texts; the number of ways to damage a document is unbounded",
 [J], [("bracket, comma and stray-text checks", J+" parseJSONMap"), ("number grammar", J+" json_number"), ("envelope check", J+" Parse")], ["json.Parse"])

prop("C05", "Whitespace between tokens does not change the result",
 "Inserting any amount of spaces, tabs, carriage returns and newlines between any two tokens of a document (inside the outermost braces) gives a parse result equal to that of the compact document, including the type each number is given. Whitespace inside strings and keys is kept exactly.",
 ["inputs"], "all documents and all whitespace placements and amounts",
 "tests use a few fixed layouts; the parser handles whitespace separately in each of its states",
 [J], [("whitespace skipping per mode", J+" parseJSONMap"), ("trimming", J+" parseJSONValue")], ["json.Parse"])

prop("C06", "Serialised text is valid JSON with exactly the document's content",
 "Serialising any document built from supported values (parsed or built through the API) appends text that an independent JSON parser accepts and reads as exactly that content: the same keys in the same order, the same elements, strings, booleans, nulls, integers and floating point numbers. Text already in the output builder is left as it was.",
 ["inputs", "histories"], "all documents of supported values, however they were built",
 "tests compare the output of a few one-key documents; escaping, number formatting and separators depend on content and position",
 [J, M, A], [("map serialiser", M+" toJSONString"), ("array serialiser", A+" ToJSONString"), ("scalar rendering", J+" ConvertInterfaceValueToJSONStringValue")],
 ["Map.ToJSONString", "Array.ToJSONString"])

prop("C07", "Serialise then parse gives the same document back",
 "For every document whose root is a map, serialising it and parsing the text succeeds and gives a document with equal content (keys in order, strings, booleans, nulls, exact integers, equal floats), and serialising that again gives the identical text.",
 ["inputs", "histories"], "all documents of JSON-representable values, parsed or built through the API",
 "tests check round trips of a few literals; losing precision, escapes or order needs particular contents",
 [J, M, A], [("serialiser", J+" ConvertInterfaceValueToJSONStringValue"), ("parser", J+" parseJSONMap")], ["Map.ToJSONString", "json.Parse"])

prop("C08", "A map behaves as an insertion-ordered dictionary",
 "After any sequence of typed sets, overwrites, removals and re-insertions, a map reports exactly the keys that are present (has-key, key list, value lookup, null check, the ordered list of values and the serialised text all agree), each with the value set last. New keys go to the end, overwriting keeps the position, removing keeps the order of the rest, and removing an absent key reports failure and changes nothing. Entries are separate: changing one through its cell changes that entry only, unless the same cell was put in several places.",
 ["histories"], "all histories of map operations with any keys and any number of entries",
 "tests set and read one or two keys; nothing removes, overwrites or re-inserts keys",
 [M], [("key list, value list and lookup table kept in step", M+" setInternalValue/removeKey")],
 ["Map.Set*", "Map.RemoveKey", "Map.GetKeys", "Map.Values", "Map.HasKey", "Map.GetValue", "Map.ToJSONString"],
 [dict(name="internal_map/internal_keys/internal_keys_obj", meaning="lookup table, ordered keys, ordered values", where=M)])

prop("C09", "An array behaves as a growable sequence",
 "After any sequence of typed appends, replacements and removals by index, an array's length, element list, indexed getters and serialised text agree with the sequence those operations describe. Replacing or removing at an index outside the array (negative or past the end) reports failure and changes nothing, and indexed reads outside the array report an error. Elements are separate: changing one through its cell changes that element only, unless the same cell was put in several places.",
 ["histories"], "all histories of array operations, all indices and lengths",
 "tests append a few values and read them; no test removes or replaces elements or uses bad indices",
 [A], [("backing slice", A+" NewArrayOfValues"), ("index checks", A+" SetValueAtIndex/RemoveValueAtIndex")],
 ["Array.Append*", "Array.SetValueAtIndex", "Array.RemoveValueAtIndex", "Array.Len", "Array.GetValues", "Array.GetStringValue", "Array.GetMap"])

prop("C10", "A clone is a deep, independent copy",
 "Cloning a map, array or value of supported data (null, booleans, all numeric types, strings, times, errors, nested maps and arrays) succeeds and gives equal content in equal order. From then on no change to the original or to the clone, at any depth, including through pointers previously stored in or handed out by either, is visible in the other.",
 ["histories", "inputs"], "all documents and all later mutations of either copy",
 "no test mutates a document after cloning it, and sharing shows up only through a later mutation at a specific depth",
 [M, A, V], [("recursive clone", M+" clone"), ("array clone", A+" clone"), ("per-type value clone", V+" clone")],
 ["Map.Clone", "Array.Clone", "Value.Clone"])

prop("C11", "Numeric accessors are exact or report an error",
 "Reading any stored integer through any integer accessor returns exactly that mathematical value when the requested type can hold it and an error otherwise: it never wraps, truncates or changes sign; reading it through the double accessor gives the nearest double, and the single-precision accessor gives the nearest single to that double written with six decimals. The pointer and value forms of an accessor always agree, whichever integer type the number was stored as and whether it was stored by value or by pointer, and fractions are never silently read as integers.",
 ["inputs"], "all pairs of stored numeric type and value with every numeric accessor, through map and value",
 "tests read a number back through the accessor of its own type; the cross-type matrix and its boundaries are untested",
 [V, M], [("widening and range checks", V+" GetInt64/GetUInt64/Get*"), ("delegation", M)], ["Value.Get*", "Map.Get*"])

prop("C12", "Accessors never panic and fail cleanly",
 "No getter or predicate of a map, array or value panics, whatever is stored there and whatever key or index is asked for. For an absent key of a map, or a null read through a map or a value, getters that return a pointer return nil without error and getters that return a scalar by value return an error; a stored value of an incompatible kind (or a text other than 1, true, 0 and false read as a boolean) yields an error; and whenever an error is returned the accompanying result is nil, the zero value or an empty container.",
 ["inputs"], "every accessor against every kind of stored value (including nil pointers, nested values and unsupported Go types), absent keys and out-of-range indices",
 "tests call accessors on values of the matching type only",
 [M, A, V], [("nil checks", M+" isValueNilForMap"), ("type switches", V)], ["every Get*/Is* of Map, Array and Value"])

prop("C13", "Type predicates agree with the stored value",
 "Each type predicate of a map or value is true exactly when the stored value is of the kind it names: null, boolean, true, false, string, empty string, map, array, each integer width, the signed and unsigned groups, integer, each float width, float, and number, with stored-by-pointer and stored-by-value treated alike. Absent keys are null and nothing else, and the text comparison is true exactly for a string with that text.",
 ["inputs"], "every predicate against every stored kind and value",
 "tests call only the predicate expected to be true",
 [V, M], [("predicates", V+" Is*"), ("delegation", M+" Is*")], ["Value.Is*", "Map.Is*", "Map.IsNull"])

prop("C14", "Bulk array getters agree with element-wise reads",
 "Reading an array as a list of a given type returns as many entries as the array has elements, in order, each equal to reading that element alone; nulls become nil entries in pointer lists and errors in value lists. If any single element cannot be read as that type, wherever it is, the whole read returns an error and no list, and the map-level and array-level forms agree.",
 ["inputs"], "all arrays (any mix of kinds, any length) and all bulk getters",
 "tests read homogeneous arrays of two or three elements of the matching type",
 [A, M], [("bulk getters", A+" GetArrayOf*"), ("delegation", M+" GetArrayOf*")], ["Array.GetArrayOf*", "Map.GetArrayOf*"])

prop("C15", "Concurrent use is safe and gives sequential results",
 "Goroutines that parse, build, read, clone and serialise their own documents, and goroutines that read (look up, test, iterate, serialise or clone) one fully built document that nobody modifies, run without data races or crashes. Each gets exactly the results it would get alone.",
 ["schedules"], "all interleavings of independent writers and shared readers",
 "all tests are sequential",
 [J, M, A, V], [("no package-level mutable state", J), ("reads do not write", M)], ["json.Parse", "Map.*", "Array.*", "Value.*"])

prop("C16", "Reads have no side effects and documents are isolated",
 "Any number of getters, predicates, iterations, serialisations and clones leaves a document exactly as it was, and repeating a read gives an equal result. Changing a key list, a bulk-read list or a number obtained from a document does not change the document, and operations on one document, or repeated parses of the same text, never affect another document.",
 ["histories"], "all interleavings of reads, and of operations on several documents",
 "tests read each value once and never hold two documents",
 [M, A, V, J], [("reads work on copies", V), ("key list copy", M+" GetKeys")], ["all read operations"])

prop("C17", "Every typed set is read back unchanged",
 "A value stored in a map, value or array through any typed setter or append, by value or by pointer, is read back by the matching getters with exactly that value and kind, for every value of the type (the single-precision getter rounds to six decimals); a nil pointer is read back as null. Setters that take a scalar by value keep a snapshot: later changes to the caller's variable are not seen. Setting again replaces the stored value and never writes into a variable stored earlier.",
 ["inputs"], "every setter and append with every value of its type",
 "tests store one or two values per type, mostly through the parser",
 [M, A, V], [("setters", M+" Set*"), ("appends", A+" Append*"), ("value setters", V+" Set*")], ["Set*/Append* with Get*"])

prop("C18", "Times survive storing, serialising and reading",
 "A time stored by value or by pointer is returned unchanged by the time getters; it is serialised in the form YYYY-MM-DD hh:mm:ss.ffffff of its own wall clock, and after serialising and parsing, the time getters return that wall clock time to the microsecond. Text in that form with zero to nine fractional digits is read exactly, and text that is not a time yields an error.",
 ["inputs"], "all times (years 1 to 9999, any nanosecond, any zone) and all texts",
 "no test stores or reads a time",
 [V, J, M], [("time getters", V+" GetTime*"), ("rendering", J+" ConvertInterfaceValueTo*")], ["SetTime*", "GetTime*", "ToJSONString"])

prop("C19", "Rendering of Go values is uniform and exact",
 "The value renderers (plain text and JSON text) render a supported value, a pointer to it and a wrapped value holding either identically: integers as exact decimals, booleans as true or false, floats as decimals that read back as the same float, strings and error messages with exactly their text, string and error lists element by element in order, absent values as null. The plain form is the unquoted text itself and the JSON form is valid JSON for the same content.",
 ["inputs"], "all supported Go values, by value, by pointer and wrapped",
 "tests never call the renderers directly and reach only a few kinds through serialisation",
 [J], [("renderers", J+" ConvertInterfaceValueToJSONStringValue/ConvertInterfaceValueToStringValue")], ["json.ConvertInterfaceValueToJSONStringValue", "json.ConvertInterfaceValueToStringValue"])

prop("C20", "Unrepresentable values are reported, never silently dropped",
 "Serialising or cloning a document reports an error whenever any value in it, at any depth or position, is of an unsupported Go type (and serialising also when it is a NaN or infinite float); a document without such values serialises and clones without error. A nil output builder is reported as an error, not a crash.",
 ["inputs"], "all documents with unsupported values planted at any depth and position among any siblings",
 "no test serialises an unsupported value; error propagation through nesting levels is untested",
 [J, M, A, V], [("error aggregation", M+" toJSONString, clone"), ("default cases", J)], ["ToJSONString", "Clone"])

prop("C21", "Containers obtained from a document are live parts of it",
 "A map or array stored in a document, or obtained from it by any getter, by pointer or by value, is that part of the document itself: changes made through it are seen by every later read or serialisation of the document and of every other handle to it, and vice versa. Replacing or removing the entry detaches the old container without changing it.",
 ["histories"], "all nestings and all interleavings of operations on parents and children through several handles",
 "no test modifies a nested container after attaching or fetching it",
 [M, A, V], [("shared closures", M+" NewMapOfValues"), ("container getters", V+" GetMap/GetArray")], ["GetMap*", "GetArray*", "SetMap*", "SetArray*"])

prop("C22", "Text is converted to scalars exactly or rejected",
 "Reading a stored string through a boolean accessor gives true for \"true\" and \"1\", false for \"false\" and \"0\", and an error for anything else; through an integer accessor it gives exactly the decimal integer it spells when the type can hold it and otherwise an error (the text NULL counts as a null for the unsigned accessors); through the double accessor the nearest double. Reading it as runes gives exactly its Unicode code points in order.",
 ["inputs"], "all strings and all scalar accessors",
 "tests do not read strings through scalar accessors and use ASCII only",
 [V, M], [("string cases", V+" GetBool/GetInt64/GetUInt64/GetFloat64/GetRunes")], ["GetBool*", "GetInt*", "GetUInt*", "GetFloat64*", "GetRunes"])

prop("C23", "Documents built from Go collections hold exactly what was given",
 "Creating a map from a Go map or an array from a Go slice gives a document with exactly those keys or, in order, those elements, each reading back as the given value with the given kind; wrapped values are adopted as they are, and nil or empty collections give an empty, usable document. Later changes to the Go collection do not add, remove or replace entries, and documents built this way behave like any other.",
 ["inputs", "histories"], "all Go maps and slices of supported values",
 "no test uses these constructors with contents",
 [M, A], [("constructors", M+" NewMapOfValues, "+A+" NewArrayOfValues")], ["NewMapOfValues", "NewArrayOfValues", "NewValue"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P))
