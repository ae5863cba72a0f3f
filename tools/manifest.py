#!/usr/bin/env python3
"""Regenerate MANIFEST.json: CLAIMED lists the properties with a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C01": "all bodies/splits of the listed generators",
 "C02": "all operation sequences up to the depth on every listed content",
 "C03": "all abandonment points of the listed bodies",
 "C04": "every truncation point of the listed bodies",
 "C05": "all byte strings over the listed alphabets up to the length, and all mutations of the listed bodies",
 "C06": "every position of up to two read faults, every kind, in the listed histories",
 "C08": "all client programs, names, contents and placements of up to two (three) short writes, short reads and interruptions of the listed generators",
 "C09": "all field collections, read-size sequences and placements of up to two (three) source pieces and interruptions of the listed generators",
 "C10": "all collections of up to four (five) of the listed fields, and all listed lengths of names, texts and files",
 "C11": "every placement of one failure (and of two deviations) among all environment calls of all programs of up to four (five) of the listed operations, and up to two (three) among all opens and reads of the files sent",
 "C12": "all contents, limits, thresholds, policies, interfaces and splits of the listed generators",
 "C13": "all field counts, limits, held entries, interfaces and ways of resuming listed",
 "C14": "all contents, limits, thresholds, policies, interfaces and splits of the listed generators",
 "C15": "every position of up to two transport faults, every destination fault and fill level, every continuation listed, and up to two (three) failures, interruptions or shortenings among all file system calls",
 "C16": "all sequences of up to two (three) valid or invalid UTF-8 pieces at every split, policy, limit and threshold listed",
 "C17": "all pairs of hostile names, every interface and every kind of existing file listed, with the whole directory tree compared before and after, and up to three (five) actions of another process before the file system calls",
 "C18": "all sequences of up to three (four) handle operations after every outcome and interface listed, and up to two (three) failing file system calls",
 "C19": "all sequences of two or three saves with every limit, continuation and change listed, on all requests of up to three (four) of the listed fields, and up to two (three) failing file system calls",
 "C20": "all combinations of the listed methods, content types, parameter spellings and boundaries with every server integration",
 "C21": "all combinations of limits, behaviours, directories, requests and truncations listed, run through the middleware on Iron requests",
 "C25": "all client programs of up to three (four) of the listed fields, over Hyper's client (chunked, prepared, sized) against every server integration",
 "C22": "all interleavings of the iteration methods on all listed intact, truncated and malformed requests and transport faults",
 "C23": "every placement of up to three (four) short, refused or interrupted writes with all listed contents, limits, splits and transport faults",
 "C24": "all sequences of up to three writes of the listed sizes and newline positions, through four ways of writing, and up to two (three) failing, short or interrupted writes to standard output itself",
 "C26": "all listed lengths (up to 32 MiB, thorough 200 MiB), content patterns, read sizes and ways of consuming, measured by a counting allocator",
 "C27": "all outcomes, reasons and conversions listed, all sequences of up to four (five) reader operations, and every placement of up to two (three) failures, interruptions or shortenings of writes, opens and reads of the debug output",
 "C28": "all pairs of eleven kinds of request and all placements of the second's steps at the points where control leaves the crate during the first, up to two (three) switches of up to three (four) steps, on one and on two threads",
 "C29": "all sequences of up to three (four) settings and their effect on every listed content through single-field and whole-request saves, count limits before, between and after them, and all sequences of up to three (four) saves of one field by one or several builders",
 "C30": "every state of up to 12 (24) bytes held or left x slice sizes x every piece the mock can draw there, every piece of large slices, and all client programs of up to two (three) fields there and back with every placement of one unusual draw",
 "C31": "the listed groups of sixteen other checks once more with a logger that formats everything, and all listed names, positions and kinds of failing files of prepared requests",
 "C32": "all values of every draw that goes into a boundary and pairs of draws, all sequences of up to three (four) requests of nine clients, all contents differing from the delimiter in one place",
 "C33": "all values of every draw that goes into a file name, all collisions of names between up to three fields and with seven kinds of existing things, through seven ways of saving",
 "C34": "all sequences of up to three (four) fields through the prepared, streaming and sized clients, nine ways of saving and five of iterating, given up at every point and with every placement of one (two) failures",
 "C35": "about a hundred groups of the other checks, each complete within its bounds, on a build without debug assertions and overflow checks",
 "C07": "all header blocks of the listed grammar, and all splits of them",
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="stateless model checking: exhaustive depth-first exploration of the real code under a controlled environment, against a reference model",
            level="model_checking",
            level_note="Exhaustive within bounds: " + CLAIMED[i] + ". The real code runs in every explored execution, so model and "
                       "code are bound step by step. Assumes: transports and sinks obey Read/Write; nothing beyond the bounds "
                       "stated in DESIGN.md is claimed; the reference model and harness (mc/src) are trusted."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
