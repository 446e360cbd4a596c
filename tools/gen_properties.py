#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Edit the table here, then run this."""
import json, os
J, V, M, A = "json/JSON.go", "json/Value.go", "json/Map.go", "json/Array.go"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Parsing any text ends in a document or in errors, never both, never a crash",
  "For every text given to the parser, parsing terminates and yields exactly one of two outcomes: a document and no errors, or no document and at least one error. It never panics and never loops forever, however malformed the text is.",
  ["inputs"], "all texts",
  "The tests feed about a hundred hand-written, almost all well-formed texts; a crash needs an unusual malformed one.",
  [J], [("entry checks and error collection", J+": Parse"), ("state machine over the characters", J+": parseJSONMap")],
  ["result and error list of Parse"])
p("C02", "Unbalanced, mis-nested or trailing text is rejected",
  "A text is accepted only if, outside string literals, every opening brace or bracket is closed by one of its own kind in properly nested order, every string literal is terminated, and the brace that closes the outermost object is the last character that is not whitespace. Every other text is refused with an error.",
  ["inputs"], "all texts",
  "Three tests cover missing brackets; the combinations of bracket kind, position, nesting and string context are unbounded.",
  [J], [("bracket/quote counters", J+": Parse"), ("container stack", J+": parseJSONMap")], ["result of Parse"])
p("C03", "Unquoted values are accepted only if they are true, false, null or a number",
  "When a value position of an otherwise well-formed document holds an unquoted token that is not exactly true, false, null or a decimal number, the whole parse fails with an error. true, false and null are read as exactly that value, and two tokens without a comma between them are never fused into one value. Blanks and stray backslashes around a token are skipped.",
  ["inputs"], "all unquoted tokens in value position of an object or array",
  "Tests use a handful of good tokens; near-miss tokens (wrong case, extra sign, second point, embedded blanks, hexadecimal) are not sampled.",
  [J], [("token classification", J+": parseJSONValue")], ["result of Parse", "type and value accessors"])
p("C04", "Integer literals are read exactly, in the narrowest type, or rejected",
  "An integer literal between -2^63 and 2^64-1 is read as exactly that number, stored in the narrowest signed (negative) or unsigned (non-negative) type of 8, 16, 32 or 64 bits that holds it, both as an object member and as an array element. A literal outside that range is rejected with an error instead of being wrapped, clipped or turned into something else.",
  ["inputs"], "all integer literals",
  "The tests sample the type boundaries, not the 2^65 values between and beyond them.",
  [J], [("width selection", J+": parseJSONValue")], ["GetType, integer accessors", "error list of Parse"])
p("C05", "String literals and keys are read character for character",
  "A string literal in a document, as a value, as an array element or as a key at any nesting level, is read as exactly the text it denotes: every ordinary byte, including multi-byte characters, brackets, commas, colons and blanks, is kept unchanged, and every JSON escape sequence is decoded. The quote that ends the literal is the first one not preceded by an odd number of backslashes.",
  ["inputs"], "all string literals, all positions",
  "Tests use ASCII words with at most one special character in the middle.",
  [J], [("quote tracking", J+": parseJSONMap"), ("unquoting", J+": parseJSONValue, unquote_key_value")], ["GetKeys", "GetString, GetStringValue"])
p("C06", "The parsed document mirrors the structure of the text",
  "After a successful parse of a well-formed document, every object has exactly the keys of the text in order of first appearance, every array has exactly the elements of the text in order, and nesting is the same at every depth. When a key is repeated in one object, the last value wins and the key keeps its first position.",
  ["inputs"], "all well-formed documents",
  "Tests look at a few fixed documents with nesting up to three and at most a few members.",
  [J, M, A], [("container stack", J+": parseJSONMap"), ("ordered insert", M+": setInternalValue")], ["GetKeys, GetMap, GetArray, GetValues, Len"])
p("C07", "Whitespace between tokens does not matter",
  "Putting any amount of spaces, tabs, carriage returns and line feeds between the tokens of a well-formed document (not before its first or after its last brace) gives the same document as the compact form.",
  ["inputs"], "all well-formed documents, all placements of whitespace",
  "Tests place a blank or newline at a few single positions of one- and two-member documents.",
  [J], [("skipping states", J+": parseJSONMap"), ("trimming", J+": parseJSONValue")], ["result of Parse"])
p("C08", "Decimal literals are read as the nearest float, single if in range else double",
  "A number literal with a decimal point is read as a single-precision value nearest to it when it lies in the single-precision range, otherwise as the nearest double-precision value, and its sign, digits and exponent are all honoured. A literal beyond the double range is rejected with an error.",
  ["inputs"], "all decimal literals",
  "Tests sample about thirty literals.",
  [J], [("float selection", J+": parseJSONValue")], ["IsFloat32, IsFloat64, GetFloat64"])
p("C09", "Any text stored as a value or key survives serialising and parsing",
  "For every string stored in a document, as a member, as an array element or as a key of a scalar, object or array member, serialising the document and parsing the result gives back exactly the same string. This includes quotes, backslashes, control characters, multi-byte characters, the empty string and texts such as nil or null.",
  ["inputs"], "all strings, all positions",
  "No test serialises a document and checks the output.",
  [J, M, A, V], [("string escaping", J+": ConvertInterfaceValueToJSONStringValue"), ("key escaping", M+": toJSONString"), ("unescaping", J+": parseJSONValue")], ["ToJSONString then Parse"])
p("C10", "Numbers, booleans and null survive serialising and parsing",
  "For every integer of any width and signedness, every finite single-precision float, every boolean and null stored in a document, directly or through a pointer, as a member or array element, serialising and parsing gives back an equal value of the same kind. A finite double-precision float comes back as the value its decimal literal denotes to the parser, never altered by the serialised text itself.",
  ["inputs"], "all scalar values",
  "No test serialises a document and checks the output.",
  [J], [("number formatting", J+": ConvertInterfaceValueToJSONStringValue"), ("number parsing", J+": parseJSONValue")], ["ToJSONString then Parse"])
p("C11", "Nested documents survive serialising and parsing",
  "For every document built from objects, arrays and scalars, however nested, including empty objects and arrays, serialising it and parsing the text gives a document with the same keys in the same order, the same elements in the same order and equal scalars at every level; serialising that document again gives the same text.",
  ["inputs", "histories"], "all documents built through the API",
  "No test serialises a document and checks the output.",
  [J, M, A], [("recursive serialisation", M+": toJSONString; "+A+": ToJSONString"), ("container stack", J+": parseJSONMap")], ["ToJSONString then Parse"])
p("C12", "Serialised text is valid JSON or an error is reported",
  "Serialising any document of objects, arrays, strings, numbers, booleans, nulls and error lists either reports errors or produces one syntactically valid JSON text: separators in the right places, strings with no raw quote, backslash or control character, legal escapes only, and numbers in JSON form. Not-a-number and infinite values are reported as errors.",
  ["inputs"], "all documents",
  "No test looks at the serialised text.",
  [J, M, A], [("writers", J+": ConvertInterfaceValueToJSONStringValue")], ["ToJSONString"])
p("C13", "Serialising appends, repeats identically and changes nothing",
  "Serialising a document appends its text to whatever the output builder already holds and leaves the document as it was, so serialising twice appends the same text twice, members come out in insertion order, and all later reads give the same results as before.",
  ["inputs", "histories"], "all documents and preceding output",
  "No test serialises twice or into a non-empty builder.",
  [J, M, A], [("writers", M+": toJSONString; "+A+": ToJSONString")], ["ToJSONString"])
p("C14", "Integer accessors return the exact number or an error, never a wrapped one",
  "Reading a stored integer of any width and signedness, held directly or through a pointer, with any integer accessor returns exactly the stored number when it fits the requested type and an error when it does not. A number is never wrapped, truncated or clipped, and an in-range number is never refused.",
  ["inputs"], "all stored integers, all stored types, all integer accessors",
  "Tests read small constants back in the type they were stored in; conversions across types are 20 x 10 combinations of 2^64 values.",
  [V], [("range checks", V+": GetInt64, GetUInt64 and the narrowing accessors")], ["GetInt*, GetUInt* and their Value forms"])
p("C15", "Float accessors return the stored number",
  "Reading a stored number with the double-precision accessors returns exactly the stored float, and for a stored integer the nearest double. The single-precision accessors return the single-precision value nearest to that double taken to six decimal places, or an error when its magnitude exceeds the single-precision range; they never return another number.",
  ["inputs"], "all stored numbers",
  "Tests read a dozen constants that happen to survive rounding to six decimals.",
  [V], [("conversion", V+": GetFloat64, GetFloat32")], ["GetFloat32, GetFloat64 and their Value forms"])
p("C16", "Pointer and value forms of an accessor agree, and null is consistent",
  "For every stored value, the pointer form and the value form of a typed accessor agree: they return the same value or both report an error. For null the pointer forms return nil without error and the value forms return an error, in values, objects and arrays alike.",
  ["inputs"], "all stored values, all typed accessors",
  "Tests call one form on well-typed constants.",
  [V, M], [("accessor pairs", V+": GetX / GetXValue; "+M+": GetX / GetXValue")], ["typed accessors"])
p("C17", "Reading a value as the wrong kind is an error, never a crash or a made-up value",
  "Reading a stored value with an accessor of a kind it does not have (a number as string or boolean, a string as object or array, an object as number, and so on) returns an error and no value. No accessor of a value, object or array ever panics, whatever is stored, and every accessor the API declares can be called.",
  ["inputs"], "all stored kinds times all accessors",
  "Tests read only well-typed values.",
  [V, M, A], [("type switches", V+": GetString, GetBool, GetInt64, GetUInt64, GetFloat64, GetMap, GetArray")], ["typed accessors"])
p("C18", "Type predicates describe the stored value exactly",
  "For every stored value the type predicates are true exactly for its kind: the width-specific ones for that width only, the signed, unsigned, integer, float and number ones for their families, and the string, boolean, map, array and nil ones for those kinds. The true/false and empty-string predicates depend on the value exactly, and a value, its map entry and its array element answer alike.",
  ["inputs"], "all stored values",
  "Tests check the one predicate that should be true.",
  [V, M], [("predicates", V+": Is*; "+M+": Is*")], ["Is* functions, GetType"])
p("C19", "A map behaves as an insertion-ordered dictionary under any history",
  "Under any sequence of set, overwrite, remove and re-insert operations with any keys, a map's key list, key lookup, values list and serialised order agree with each other and with an insertion-ordered dictionary: overwriting keeps the position, removing deletes only that key, re-inserting appends. Removing an absent key reports an error and changes nothing.",
  ["histories", "inputs"], "all sequences of operations, all keys and values",
  "Tests never remove or overwrite keys.",
  [M], [("key list, values list and lookup table kept in step", M+": setInternalValue, removeKey, RemoveKey")], ["GetKeys, HasKey, GetValue, Values, ToJSONString"],
  [dict(name="internal_map", meaning="key to value", where=M), dict(name="internal_keys", meaning="keys in insertion order", where=M), dict(name="internal_keys_obj", meaning="values in insertion order", where=M)])
p("C20", "An array behaves as a sequence under any history",
  "Under any sequence of append, set-at-index and remove-at-index operations, an array's length, elements and serialised order equal those of a plain list. An index that is negative or not below the length is refused with an error and leaves the array unchanged.",
  ["histories", "inputs"], "all sequences of operations, all indexes",
  "Tests build arrays by parsing only.",
  [A], [("slice updates and bounds checks", A+": Append*, SetValueAtIndex, RemoveValueAtIndex")], ["Len, GetValues, indexed accessors, ToJSONString"],
  [dict(name="values", meaning="elements in order", where=A)])
p("C21", "A clone is equal and independent",
  "Cloning a value, object or array yields a document equal to the original at every level, with the same serialised text, and afterwards no modification of either one, at any depth, is visible in the other. Cloning does not change the original.",
  ["inputs", "histories"], "all documents, all later modifications",
  "No test clones.",
  [V, M, A], [("deep copy", V+": clone; "+M+": clone; "+A+": clone")], ["Clone, then accessors and ToJSONString of both"])
p("C22", "Typed array reads convert every element, in order",
  "Reading a whole array as a typed list gives one entry per element, in order, each equal to reading that element alone with the same accessor. Null elements become nil entries in the pointer forms and make the value forms fail, and any element that cannot be read makes the whole read fail with an error instead of being dropped or defaulted.",
  ["inputs"], "all arrays, all element types, all typed list accessors",
  "Tests read arrays of one to three well-typed elements.",
  [A, M], [("element loops", A+": GetArrayOf*; "+M+": GetArrayOf*")], ["GetArrayOf*"])
p("C23", "Map access by key is the same as access to the value under that key",
  "For every key and stored value, reading through the map by key gives the same result as taking the value and reading it, and what was stored with a typed setter, directly or through a pointer, is what is read. For a key that is absent or null, pointer readers give nil without error, value readers give an error and predicates give false.",
  ["inputs"], "all keys, all stored values, all keyed accessors",
  "Tests read a few parsed members.",
  [M], [("keyed accessors and setters", M)], ["keyed Get*, Is*, Set*"])
p("C24", "Documents are independent of one another and of earlier calls",
  "The result of parsing a text or of building a document depends only on that text or those operations: earlier parses, failed parses and modifications of other documents never change it, and modifying one document never shows in a document that was not explicitly made part of it.",
  ["histories", "inputs"], "all sequences of parses and modifications",
  "Tests use one document each.",
  [J, M, A, V], [("fresh containers and captured variables per call", M+": NewMapOfValues; "+A+": NewArrayOfValues; "+V+": NewValue; "+J+": Parse")], ["all accessors"])
p("C25", "Building from native Go values keeps every element",
  "A map built from a Go map has exactly its keys with their values, an array built from a Go slice has exactly its elements in order, and both can be read back and serialised as if they had been stored one by one. Elements that are already library values are used as they are.",
  ["inputs", "schedules"], "all Go maps and slices of supported values, all iteration orders",
  "No test uses these constructors.",
  [M, A], [("constructors", M+": NewMapOfValues; "+A+": NewArrayOfValues")], ["GetKeys, GetValue, GetValues, Len"])
p("C26", "Text read as a number or boolean means exactly what it says",
  "Reading a stored string with an integer accessor gives exactly the number its decimal digits denote, or an error if it is not a plain decimal integer or does not fit the requested type (a leading plus sign, and -0 for an unsigned type, may be refused; the unsigned accessors read the text NULL as null); reading it with a boolean accessor gives true only for true or 1, false only for false or 0, and an error for anything else.",
  ["inputs"], "all strings, all numeric and boolean accessors",
  "No test reads a number from a string.",
  [V], [("text conversion", V+": GetInt64, GetUInt64, GetBool, GetBoolValue")], ["GetInt*, GetUInt*, GetBool*"])
p("C27", "Converting a scalar to text gives its exact decimal or literal text",
  "Converting a stored integer, boolean or string to plain text gives the number's shortest decimal form, true or false, or the string itself unchanged, for every width, signedness and pointer form, and agrees with the number in the serialised document.",
  ["inputs"], "all scalars",
  "No test uses the conversion.",
  [J], [("conversion", J+": ConvertInterfaceValueToStringValue")], ["ConvertInterfaceValueToStringValue"])
p("C28", "The characters of a string are returned in order and complete",
  "Reading a stored string as characters gives exactly its Unicode characters in order, one entry each, whatever the string contains, and changing those entries or the string later does not affect the other.",
  ["inputs"], "all strings",
  "No test reads characters.",
  [V], [("rune loop", V+": GetRunes")], ["GetRunes"])
p("C29", "Errors, times and functions stored in a document can be read back",
  "An error list, a time or a function stored in a value or map is not reported as null and is read back unchanged by its accessor: the same messages in the same order, the same instant, the same function. Times and errors survive cloning, with messages kept verbatim.",
  ["inputs"], "all error lists, times and functions",
  "No test stores anything but scalars and containers.",
  [V, M], [("nil test", V+": IsNil"), ("accessors", V+": GetErrors, GetTime, GetFunc")], ["GetErrors, GetTime, GetFunc, Clone"])
p("C30", "Reading a document never writes to it, so it can be read concurrently",
  "Type predicates, accessors, cloning and serialising write to no memory that other readers of the same document can see, so any number of readers may run at the same time on a document nobody modifies. Operations on documents that share nothing write to no common memory, so they may run at the same time as well.",
  ["schedules", "inputs"], "all interleavings of readers, and of operations on separate documents",
  "The tests are single-threaded and no run of them uses the race detector.",
  [J, V, M, A], [("no caches or package-level state", J+", "+V+", "+M+", "+A)], ["memory written by read operations"])
p("C31", "Comparing a value with a text is exact",
  "A value is reported equal to a text exactly if it holds a string of those very bytes, in the plain and the pointer form of the comparison alike; a number, boolean or container is equal to no text, and only null is equal to the absence of a text (a nil pointer). Comparing changes neither the value nor the text.",
  ["inputs", "histories"], "all stored values, all texts",
  "No test compares a value with a text.",
  [V], [("comparison", V+": IsValueEqualToStringValue, IsValueEqualToString")], ["IsValueEqualToStringValue", "IsValueEqualToString"])
p("C32", "Key lists and typed lists that were read belong to the caller",
  "The list of keys of a map and the typed lists of numbers, booleans or strings read from an array or member stay as they were read whatever is done to the document afterwards, and replacing entries of such a list, or writing through its pointers to elements that were not themselves stored by pointer, never changes the document or another list. So a loop over the keys may remove, replace or add keys and visits exactly the keys there were when it began.",
  ["histories", "inputs"], "all documents, all later modifications of the document and of the lists",
  "Tests read keys and lists once and change nothing afterwards.",
  [M, A], [("key list and key removal", M+": GetKeys, removeKey"), ("typed lists", A+": GetArrayOf*; "+M+": GetArrayOf*")], ["GetKeys, GetArrayOf*, then accessors and ToJSONString"])
p("C33", "A value holds exactly what was stored in it last",
  "After any sequence of stores into one value, of any kinds and by any setter, its predicates, its type, its accessors and its text are those of the last store alone: nothing of an earlier store remains, and no other value of the document changes. Storing a nil pointer makes the value null.",
  ["histories", "inputs"], "all sequences of setters of a value, all stored objects",
  "No test stores twice into one value.",
  [V], [("setters", V+": Set*"), ("type and predicates", V+": GetType, Is*")], ["Get*, Is*, GetType, ToJSONString after Set*"])
p("C34", "A change through any handle to a nested container shows everywhere",
  "Containers are held by reference: a map or array that is part of a document can be reached by pointer, by value, through its value or through the handle it was stored from, and a change through any of these, at any depth, is seen by every other, by every place the container was stored in, by the document's text and by clones made afterwards. A container that was removed or replaced no longer has any effect on the document.",
  ["histories", "inputs"], "all documents, all ways to a nested container, all sequences of changes",
  "Tests build documents inside out and read them once.",
  [M, A, V], [("access to nested containers", M+": GetMap, GetMapValue, GetArray, GetArrayValue, Values; "+A+": GetValues; "+V+": GetMap, GetArray"), ("storing by value", M+": SetMapValue, SetArrayValue; "+A+": AppendMapValue, AppendArrayValue")], ["ToJSONString, Clone and all accessors of the outer document"])
p("C35", "A time is written as its date and time of day, and read back to the microsecond",
  "A time stored in a document through a pointer is written as a string with its date and time of day in its own zone, to the microsecond (YYYY-MM-DD HH:MM:SS.ffffff), wherever it is stored, in a clone too, and converting it to text gives the same characters; a time stored by value is written alike or an error is reported. Reading that text as a time, from the parsed document, gives the same date and time of day cut to the microsecond. A text of this form with 0 to 9 decimal places is read as exactly the time it says, with and without the number of places given; a text that is no date and time is an error with no time. Writing and reading change nothing.",
  ["inputs"], "all times of the years 1 to 9999, all texts",
  "No test stores a time.",
  [J, V, M], [("times as text", J+": ConvertInterfaceValueToJSONStringValue, ConvertInterfaceValueToStringValue"), ("texts as times", V+": GetTime, GetTimeValue, GetTimeWithDecimalPlaces"), ("times of a map", M+": SetTime, GetTime")], ["ToJSONString, ConvertInterfaceValueToStringValue, GetTime, GetTimeWithDecimalPlaces, GetTimeValue"])
p("C36", "What is written on its own is written as in a document",
  "Writing anything a document can hold by itself, with the conversion function or the writer of a map or array, appends to what the builder already holds exactly the characters that stand for it inside a document, wherever it stands there and in whatever form it is given: as the Go value, by value or by pointer, in a Value or a pointer to one. It can be written by itself exactly if it can be written in a document; nothing, in any form, is written as null. So a document is written as its parts are, in order, and writing parts changes nothing.",
  ["inputs"], "all values, containers and forms of them, all builders",
  "The tests write whole documents only.",
  [J, M, A], [("conversion of any value", J+": ConvertInterfaceValueToJSONStringValue"), ("writers of containers", M+": ToJSONString; "+A+": ToJSONString")], ["ConvertInterfaceValueToJSONStringValue, ToJSONString"])
p("C37", "An object is given back as it was stored",
  "Whatever is stored as an object, in a new value, through a setter of a value or map, or among the Go values a map or array is made of, is given back by GetObject and GetObjectForMap as the same object: the same type, the same content, the same pointer, and GetType names its type. A value that was put into a map or array is given back by GetValue, GetValues and Values as that very value. Nothing stored is nothing given back. Reading it in any way, through any accessor, does not replace it.",
  ["inputs", "histories"], "all Go values, all ways of storing and reading",
  "The tests read scalars through the accessor of their own kind only.",
  [V, M, A], [("objects", V+": NewValue, SetObject, GetObject; "+M+": SetObjectForMap, GetObjectForMap"), ("values of containers", M+": GetValue, Values; "+A+": GetValues, SetValueAtIndex")], ["GetObject, GetObjectForMap, GetValue, GetValues, Values, GetType"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
