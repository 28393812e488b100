#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the prose stays reviewable)."""
import json, os
V='json/Value.go'; M='json/Map.go'; A='json/Array.go'; J='json/JSON.go'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Parsing never crashes",
 "For every input string, well formed or not, parsing returns to its caller with a document or with errors. It never panics: no out-of-range index or slice, no nil dereference, no failed type assertion, no explicit panic.",
 ["inputs"],"every string passed to Parse",
 "198 tests feed about 150 fixed documents, nearly all well formed; a crash needs a malformed document whose bytes meet one unguarded access.",
 [J],[("parse loop over the input with an explicit container stack",J+":parseJSONMap"),("literal conversion with prefix/suffix dequoting",J+":parseJSONValue"),("entry checks",J+":Parse")],
 [("container stack","open objects/arrays, innermost last",J+":parseJSONMap")],["return of Parse"])
p("C02","Parsing always finishes, in bounded steps and stack",
 "For every input string parsing terminates: each step of the parser consumes at least one byte of the input, so there are at most as many steps as bytes. The call depth does not grow with the nesting of the document.",
 ["inputs"],"every string passed to Parse, at any nesting depth",
 "A test only shows that its own document terminates; a path that fails to advance, or that recurses per level, is reached only by particular byte sequences or depths.",
 [J],[("index advanced on every path of the loop",J+":parseJSONMap"),("explicit stack instead of recursion",J+":parseJSONMap")])
p("C03","A result and errors are never returned together",
 "Every operation that can report a list of errors returns either a non-empty list together with no value (nil, zero or an empty container), or no errors at all. In particular parsing returns a document exactly when it returns no errors, and the non-pointer form of a read never reports success for a missing or null value.",
 ["inputs","histories"],"every operation returning errors, every stored content type and every input",
 "Tests look at one side at a time and only for stored types they happen to parse; a value leaking out next to errors, or a nil,nil success from a value-returning read, is visible only for particular content.",
 [J,V,M,A],[("len(errors) > 0 checks before the success return","every operation")])
p("C04","No failure of a nested step is swallowed",
 "When a step an operation depends on (a conversion, a nested read, a nested serialisation or clone, a literal of the document being parsed) reports errors, the operation itself reports errors. A success therefore means every nested step succeeded.",
 ["inputs","histories"],"every operation that can report errors, for every nested step that can fail",
 "Only a few failing literals are tested, each at one place; dropping an error on one branch leaves all of them passing.",
 [J,V,M,A],[("errors = append(errors, nested...) on each failing branch","every operation")])
p("C05","Every published operation is implemented",
 "Every operation that the document, array and value types publish can be called on every instance that the library's constructors return. None of them is left unset.",
 ["programs"],"every published operation of Map, Array and Value and every way of constructing one",
 "The operations are function-typed fields, so a missing one compiles, and fails only when somebody calls exactly that operation.",
 [V,M,A],[("struct literal in each constructor",V+":NewValue, "+M+":NewMapOfValues, "+A+":NewArrayOfValues")])
p("C06","Reading a value never crashes, whatever it holds",
 "Every read, type question, conversion, serialisation and clone of a value returns normally for every kind of content a value can hold, including null, typed nil pointers and types the library does not know. A content type an operation does not support is reported as an error, never as a panic.",
 ["inputs","histories"],"every operation of a value x every dynamic type of its content (incl. nil pointers and foreign types)",
 "The product of operations and content types has several thousand entries; the tests visit a few dozen.",
 [V,J],[("dispatch on the name of the dynamic type followed by a type assertion",V+", "+J)],None,["return of each operation"])
p("C07","Integer reads are exact or refused",
 "Reading stored integer content (or decimal text) as an integer type returns exactly the stored number whenever it fits the requested type, and errors whenever it does not. A number is never wrapped, truncated or clamped, and one that fits is never refused.",
 ["inputs"],"every stored integer content type and number x every requested integer type",
 "Tests read each boundary with the type it was parsed as; cross-type reads at the edges (one of 20 content types read as one of 10) are not covered.",
 [V],[("range checks before each narrowing conversion",V+":GetInt8..GetUInt64, GetInt, GetUInt and their value forms")])
p("C08","Document operations act on exactly the named key's value",
 "Reading, asking or writing through a document gives the same answer as the same operation on the value stored under that key, without altering or reinterpreting it. A missing or null key reads as nil without errors, as an error for the non-pointer form, and as a negative answer to every type question; a write stores exactly the value it was given.",
 ["inputs","histories"],"every keyed operation of a document, every key, every stored value",
 "There are about 110 near-identical keyed operations; tests call a quarter of them, and a cross-wired one answers correctly for most content.",
 [M],[("each operation forwards to the same-named operation of the stored value",M+":NewMapOfValues")])
p("C09","Array operations act on exactly the right elements",
 "Appending adds exactly the given value at the end; positional read, write and remove affect exactly the given position and report an error exactly when it is out of range. Reading an array as a typed list yields one entry per element, in order, each equal to the typed read of that element, or errors.",
 ["inputs","histories"],"every array operation, every length and index, every element content",
 "Tests read short parsed arrays whose elements all have the tested type; index edges, mixed content and most appends are never executed.",
 [A],[("bounds checks and element loops",A+":NewArrayOfValues")])
p("C10","A clone is complete and shares nothing with its original",
 "Cloning data (null, text, booleans, numbers, times, errors, objects and arrays of these) succeeds and yields an independent copy holding every key and element, in order, with the same kind and the same content. No later change to either one can be seen through the other.",
 ["inputs","histories"],"every document/array/value holding data, and every later mutation of either side",
 "No test clones anything.",
 [V,M,A],[("recursive clone building fresh values",V+":clone, "+M+":clone, "+A+":clone")])
p("C11","Serialised objects and arrays are well formed, complete and ordered",
 "When serialisation reports no errors, an object is written as one brace-enclosed list containing every key with its own value exactly once, in key insertion order, and an array as one bracket-enclosed list containing every element exactly once, in order. Separators stand exactly between entries, for every number of entries.",
 ["inputs","histories"],"every document or array of every size",
 "Tests print the serialised text but never check it.",
 [M,A,J],[("bracket and separator writes around the entry loop",M+":toJSONString, "+A+":ToJSONString, "+J+":ConvertInterfaceValueToJSONStringValue")])
p("C12","Text cannot escape from its quotes",
 "Text content and keys are always written between double quotes with every embedded double quote escaped, for every kind of content that is written as text, so text can never end its string early or inject structure. Parsing undoes exactly that escape, for keys and values alike, wherever they occur.",
 ["inputs"],"every text or key content, every content type written as text, objects and arrays at any depth",
 "Tests parse three documents with an escaped quote and never check serialised text.",
 [J,M],[("quote escaping when writing",J+":ConvertInterfaceValueToJSONStringValue, "+M+":toJSONString"),("unescaping when reading",J+":parseJSONValue, unquote_key_value")])
p("C13","Keys, values and lookup of a document always agree",
 "After any sequence of operations a document's key list, value list and lookup describe the same entries: each key appears exactly once, in the order of first insertion, with the value last stored under it. Key and value lists handed to a caller are snapshots: changing them, or changing the document while walking them, never disturbs either.",
 ["histories"],"every sequence of set, remove and list operations, including by a caller who walks a key list while removing",
 "Tests never overwrite, remove or list more than a couple of keys.",
 [M],[("paired updates of lookup table, key list and value list",M+":setInternalValue, removeKey, RemoveKey")],
 [("lookup table","key to value",M+":NewMapOfValues"),("key list","insertion order",M+":NewMapOfValues"),("value list","parallel to key list",M+":NewMapOfValues")])
p("C14","The library has no hidden shared state and no side effects",
 "Operations touch only the documents and arguments they are given: no package-level state is kept between calls, no goroutine is started, and no file, network, process, environment or console is accessed. Two goroutines working on separately built documents can therefore never affect each other.",
 ["schedules","histories"],"every operation, every interleaving of operations on separate documents",
 "Interference through shared state shows up only under particular interleavings or call sequences; the tests are sequential and independent.",
 [J,V,M,A],[("all state lives in per-instance closures","constructors")])
p("C15","Parsing, building and serialising are deterministic",
 "The same input, or the same sequence of operations, always gives the same document, the same key order, the same serialised bytes and the same errors. No result depends on hash iteration order, on the clock, on random numbers or on scheduling; only the explicit time word now reads the clock.",
 ["histories","schedules"],"every repetition of every operation sequence",
 "A test compares one run with a constant; order-dependence shows only across runs.",
 [J,V,M,A],[("ordered key list drives iteration",M)])
p("C16","Literals are stored exactly, in the documented type",
 "An integer literal is stored as exactly its number, in the smallest signed type that holds it when it is negative and in the smallest unsigned type otherwise, and is reported as an error when it does not fit 64 bits. true, false, null and quoted text become that boolean, null or text, a decimal literal becomes the float its digits denote, and all of this is the same for an entry of an object and an element of an array.",
 ["inputs"],"every literal of every magnitude, inside objects and arrays",
 "Boundaries are tested with selected types and positions only; most of the 2^64 literals at and around the 7 cut points are not.",
 [J],[("classification cascade",J+":parseJSONValue")])
p("C17","Everything that can be stored can be serialised and cloned",
 "Every kind of data that the setters and appenders accept can be serialised and cloned without a not-supported error. This holds for pointer and non-pointer forms alike.",
 ["inputs","programs"],"every setter/appender parameter type x serialise, clone",
 "Tests store only what the parser stores.",
 [V,J,A,M],[("per-type cases of the dispatchers",J+":ConvertInterfaceValueToJSONStringValue, "+V+":clone")])
p("C18","Parsed text is carried byte for byte",
 "Every byte of a quoted key or text value in the input, including multi-byte characters, blanks and structural characters, reaches the stored key or text unchanged and in order. The only bytes that differ are the enclosing quotes and the backslash of an escaped quote.",
 ["inputs"],"every byte sequence inside quotes",
 "All tested texts are short ASCII.",
 [J],[("per-byte accumulation of the token",J+":parseJSONMap"),("dequote and unescape",J+":parseJSONValue")])
p("C19","A successful parse means the document was properly closed",
 "Parsing succeeds only if every opened object and array was closed by the bracket of its own kind, in order, outside any string, and nothing but white space follows the end of the document. Anything else is reported as an error.",
 ["inputs"],"every input string",
 "Only three unbalanced documents are tested.",
 [J],[("container stack push/pop",J+":parseJSONMap"),("bracket and quote counters",J+":Parse")])
p("C20","Scalars are serialised without loss",
 "Integers are written as exactly their decimal digits, booleans as true or false, null as null, and finite floats with enough digits to denote exactly the stored number and still read back as a float. A number that the format cannot express (NaN or an infinity) is reported as an error, not written.",
 ["inputs"],"every stored number, boolean or null, pointer or not",
 "Tests print serialised text but never look at it.",
 [J],[("formatting call of each scalar case",J+":ConvertInterfaceValueToJSONStringValue, ConvertInterfaceValueToStringValue")])
p("C21","Type questions agree with the stored content",
 "Each type question about a value answers yes exactly when the content is of the kind it names (pointer or not) and is not null, and a value whose type question answers yes can be read with the corresponding read without errors. The reported type name is the content's own type, or nil for null.",
 ["inputs","histories"],"every type question x every content type",
 "Tests ask mostly questions whose answer is yes.",
 [V],[("type predicates",V+":IsMap..IsUInt64, GetType")])
p("C22","What is written is what is read back",
 "Content set through any typed setter of a value is returned unchanged by the getter of the same type: text, booleans, numbers, times, error lists, objects and arrays, for every content. This includes texts that look like the words null or nil.",
 ["inputs"],"every setter/getter pair x every content",
 "Tests never set and read back through a value; they only read what was parsed.",
 [V,A,M],[("setters storing the argument, getters dispatching on its type",V)])
p("C23","Reading never changes anything",
 "Reads, type questions, serialisation, cloning and listing leave every document, array and value they touch, and everything their caller passed in, exactly as it was (a serialisation only appends to the builder it was given). Repeating a read therefore gives the same answer.",
 ["histories"],"every observing operation in every state",
 "Tests read once per document.",
 [V,M,A,J],[("observers contain no stores to instance state","all observing operations")])
p("C24","Serialise then parse reproduces the document",
 "For every document holding null, text, booleans, numbers, objects and arrays, parsing its serialised form yields a document with the same keys in the same order and equal values.",
 ["inputs"],"every document",
 "Equality over all documents; no test round-trips.",
 [J,M,A],[("serialiser and parser",J)])
p("C25","Every malformed document is rejected",
 "Parsing succeeds only for documents of the JSON grammar (plus the tolerated stray escapes between tokens); every other input is reported as an error.",
 ["inputs"],"every input string",
 "Language inclusion over all strings.",
 [J],[("mode transitions",J+":parseJSONMap")])
p("C26","Parsing cost is proportional to the input",
 "The time and memory used by parsing grow linearly with the length of the input.",
 ["inputs"],"every input length",
 "Tests use short documents.",
 [J],[("token accumulation",J+":parseJSONMap")])
p("C27","Decimal literals keep double precision",
 "Reading a decimal literal as a 64-bit float yields the 64-bit float nearest to the literal.",
 ["inputs"],"every decimal literal",
 "Numerical result over all literals.",
 [J,V],[("float32 narrowing on parse",J+":parseJSONValue")])
p("C28","Reads of text, flags, decimals and lists are exact or refused",
 "Reading a value as text, flag, decimal, time, characters, error list, function, object or array returns exactly what it holds, or its documented conversion: text is a flag only when it reads 1, true, 0 or false; integer content reads as its nearest decimal and text as the decimal it denotes; a list of texts reads as one error per text, in order. Null reads as missing (nil without errors by the pointer form, an error by the value form), and content of any other kind is reported as an error, never as a missing, empty or made-up value. (A float32 read goes through text with six decimals; what that loses is recorded under the write-read property.)",
 ["inputs","histories"],"every non-integer read x every content type and content",
 "Tests read a handful of values with the read of their own type; conversions, refusals and list reads over all contents are not covered.",
 [V],[("dispatch on the type name in each read",V+":GetMap..GetTime")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x["title"])<=80
        f.write(json.dumps(x)+"\n")
print(len(P))
