#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
d = os.path.dirname(os.path.abspath(__file__))
ABS = "abstract interpretation of the SSA form of every API call from every reachable abstract writer state, each path compared with a reference model (typestate)"
TRUST = "Trusted: Go's front end and x/tools/go/ssa, the transfer functions of the analyser, its models of bufio, strconv, fmt, errors and unicode/utf8, and the reference model written from the property. Nothing of the code under test is executed."
CLOSURE = ("Sound for the explored calls: all strings, flags, numbers and stack depths are abstract, and the states are closed under the calls (fixpoint). "
  "Bounded by: at most two namespace bindings on one element; attribute and content lists of the shapes listed in DESIGN.md (up to three items, nested to depth two); with enforcement off, calls that enforcement would refuse are checked for panics, lost errors and refusals only. ")
checks = {
 "C01": ABS, "C02": ABS, "C04": ABS, "C05": ABS, "C06": ABS, "C07": ABS + "; known stacks for the calls that end several nodes", "C08": ABS + ", with an effect analysis of failed checks",
 "C09": ABS + ", with a typestate of the output buffer's errors", "C10": ABS, "C11": ABS, "C12": ABS, "C13": ABS, "C14": ABS, "C15": ABS + "; the indenter likewise, over every pair of events",
 "C16": ABS + "; provenance of the output buffer", "C17": ABS, "C20": "effect analysis: writes to package variables and to memory of the caller, on every path of every API call, by abstract interpretation of the SSA form",
 "C21": "absence of run-time panics on every path of every API call, by abstract interpretation of the SSA form",
 "C27": "abstract interpretation of the SSA form of every API call, also after the sink has failed: no loop round leaves its variables and all memory unchanged (recurrence of abstract states, progress of the position in a string)",
 "C28": ABS + ", for writers without enforcement",
 "C03": "the sets of characters each validator refuses, computed from its SSA form by abstract interpretation over sets of runes and from the name table, compared with the productions",
 "C18": "abstract interpretation of the SSA form of every setter: provenance and conversions of the value, and unchanged fields",
 "C19": "abstract interpretation of the SSA form of ErrCollector's methods over every list of up to four nil or non-nil errors and longer ones, with the provenance of what Error says",
 "C23": "abstract interpretation of the SSA form of the script runner over every script of one or two commands, each path compared with a reference table of handlers and fields",
 "C22": "evaluation of the tables of kinds and states in the SSA form of the package's initialisers and methods, and abstract interpretation of every Start call",
}
EXTRA = "All strings, numbers and flags are abstract. "
notes = {
 "C03": EXTRA + "Not bounded: every rune and every string length. An invalid UTF-8 byte is judged as U+FFFD. " + TRUST,
 "C18": EXTRA + "Not bounded: every value of each type. " + TRUST,
 "C19": EXTRA + "Bounded: lists of up to four errors, and of two more than the largest constant the code compares an integer with (at most 130); two calls in a row. " + TRUST,
 "C27": "A round that provably repeats is a violation; a round not shown to be one is taken to make progress, so a loop that runs long but changes something each time is not reported. " + TRUST,
 "C22": EXTRA + "Bounded: masks of up to two kinds and runs of up to seven. " + TRUST,
 "C23": EXTRA + "Bounded: scripts of up to two commands with up to two parameters each; every string is abstract, so every action, kind, parameter name and value is covered. strings.EqualFold is read as comparison after ToLower. " + TRUST,
}
na = {
 "C24": "quantifies over what a conforming parser makes of whole documents; no static argument about this code decides what another program does with its output, and parsing samples of it would be testing. The parts that are decidable from the source are C01, C02, C04, C10-C14.",
 "C25": "compares with another program (libxml2, not part of the repository); a static argument would have to analyse both, and running both is testing.",
 "C26": "whether a value is allocated on the heap is decided by the compiler's escape analysis and by the growth of the stack and buffers at run time; the compiler's report (-gcflags=-m) is per compiler version, flags allocations that happen only in error paths and on growth, and says nothing about steady state.",
}
props = [json.loads(l) for l in open(os.path.join(d, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
            "technique": checks[i], "level": "other", "level_note": notes.get(i, CLOSURE + TRUST)})
    else:
        m["not_applicable"].append({"property": i, "reason": na[i]})
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(d, "MANIFEST.json"), "a").write("\n")
