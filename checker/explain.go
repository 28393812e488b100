package main

// What each check decides and what it takes for granted, as written into the evidence.

var (
	asLoader  = "the program is what go/packages loads with the installed toolchain for linux/amd64; functions of the standard library behave as modelled in models.go, and unmodelled ones return unknown results without touching the arguments' memory"
	asNames   = "no two types of different packages with the same printed name reach a type switch on names"
	asThread  = "a document is used by one goroutine at a time (C14 decides that nothing is shared between documents)"
	asContent = "content kinds are those listed in content.go: nil, every basic type and pointer to it, times, errors, error lists, the three document types (value, pointer, nil pointer), and one type the library does not know"
	asContr   = "operations of documents met inside another operation act by their contracts, which are decided under C06-C10, C13 and C23"
	asParse   = "a quote preceded by a backslash counts as escaped, inside and outside strings (the tolerance the tests pin); findings that rest on a value the analysis gave up are recorded as undecided"
	asAppend  = "append onto a proper prefix of a slice may overwrite the shared backing store"
)

var explanations = map[string]struct {
	what    string
	assumes []string
}{
	"C01": {"The parser is interpreted abstractly from Parse on an unknown text. Its loop is followed state by state (flags, modes and the kinds of open containers are kept, positions and counters are symbols with bounds) until no new state appears; every index, slice, nil dereference, assertion and explicit panic on every path of every state is an obligation.", []string{asLoader, asContr, asParse}},
	"C02": {"Over the same states, the change of the position is computed for every step from state to state: a step that moves back, or a cycle of steps that consume nothing and whose conditions provably hold again, is a violation. The call graph reachable from Parse must have no cycle through the parser, and every other reachable loop must have a bound read off its code (a range, or a counter against a bound that the body does not move).", []string{asLoader, asContr}},
	"C03": {"Every operation that returns an error list is interpreted on every content kind (and Parse on an unknown text); for every return the error list must be nil with a value or non-empty with an empty value.", []string{asLoader, asContent, asContr}},
	"C04": {"In the same runs, a path on which a nested step reported errors (or a refused conversion) is marked; a return of that path without errors is a violation.", []string{asLoader, asContent, asContr}},
	"C05": {"Every constructor is interpreted; each function field of the structure it returns must be set on every path.", []string{asLoader}},
	"C06": {"Every read, type question, conversion, serialisation and clone is interpreted on every content kind; no path may end in a panic.", []string{asLoader, asContent, asContr}},
	"C07": {"Every integer read is interpreted with a symbolic stored number of every integer type (and decimal text): the returned term must be that number, and a refusal is only allowed where the interval facts of the path exclude the requested type's range.", []string{asLoader, asContent}},
	"C08": {"Every keyed operation is interpreted on a document of unknown content with a symbolic lookup; the outcome is compared with the outcome of the same operation on the value found, and the effect with the exact write.", []string{asLoader, asContr}},
	"C09": {"Every array operation is interpreted on an array of unknown length and content; the resulting list term is compared with the exact append, write, removal or element-wise read. Typed lists are read off loop summaries.", []string{asLoader, asContr, asAppend}},
	"C10": {"Clone is interpreted on every content kind and on objects and arrays of unknown content; the copy is compared structurally, and no cell of the copy may be reachable from the original.", []string{asLoader, asContent, asContr, "raw Go maps and functions as content are not data and are left out"}},
	"C11": {"The writers of objects and arrays are interpreted on unknown entries; the summary of the appended text must be the brackets around one segment per entry in list order, with separators exactly between them.", []string{asLoader, asContr}},
	"C12": {"Every text the writers append is traced: a key or text content may only reach the output through the quote escape between two literal quotes; parsing (reachable states) must undo exactly that escape.", []string{asLoader, asContent, asParse}},
	"C13": {"After every operation on a document of unknown entries, lookup, key list and value list must be the same update of the same entries; lists handed out must be fresh.", []string{asLoader, asContr}},
	"C14": {"All functions reachable from the exported ones are scanned: no package variable is written or handed out, no goroutine is started, no function outside the allowed pure parts of the standard library is called.", []string{asLoader}},
	"C15": {"All reachable functions are scanned for map iteration whose order can reach a result, the clock, randomness, addresses as text, select and goroutines.", []string{asLoader, "the time word now is allowed to read the clock"}},
	"C16": {"The parser's reachable states are run in step with a reader of the same bytes. When a literal ends, what is written to the document is compared with what the literal denotes: number term, type by interval facts, booleans, null, text, or a refusal that only occurs where the literal is not valid.", []string{asLoader, asContr, asParse}},
	"C17": {"Clone and the serialisers are interpreted on every content kind that a setter or appender stores; no path may refuse it as unsupported.", []string{asLoader, asContent, asContr}},
	"C18": {"In the product of C16, quoted texts are symbolic stretches of the input: each byte of a string must be taken up once, and the text or key that is stored must be exactly the stretch between its quotes, with escapes undone.", []string{asLoader, asContr, asParse}},
	"C19": {"In the product of C16, the open containers of the reader are compared with the parser's after each bracket, and every successful return must be in the state after the end of the document with no container open. Suspicions that rest on counters or lists whose exact value was given up are followed again in a run that keeps small values exactly.", []string{asLoader, asContr, asParse}},
	"C20": {"The serialisers are interpreted on every scalar kind; the appended term must be the loss-free text of the stored number (for floats: shortest exact digits, a decimal point, NaN and infinities refused).", []string{asLoader, asContent}},
	"C21": {"Every type question is interpreted on every content kind and compared with the kind; where it answers yes, the corresponding read must have no path that fails.", []string{asLoader, asContent, asNames}},
	"C22": {"Setter and getter of the same type are interpreted one after the other with an unknown argument; the value read must be the argument.", []string{asLoader, asContent}},
	"C28": {"Every read of text, flags, decimals, lists, functions, times, objects and arrays is interpreted on every content kind with an unknown content; the condition of success and the returned term are compared with the documented conversion, null with missing, and content of other kinds with an error. Terms that differ in form are told apart by an instance under which the path's conditions hold and they differ.", []string{asLoader, asContent, asContr}},
	"C23": {"Every read is interpreted with the heap of everything it was given recorded before and after; they must be equal on every path (fresh cells aside).", []string{asLoader, asContent, asContr}},
}
