#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
model = "exhaustive exploration of bounded lexeme trees and grammar scopes on the real parser, against an independent executable ECMA-262 model (conformance of every explored input)"
T = {
 "C01": "exhaustive exploration of bounded inputs (characters, tokens, truncation points, repetition families) on the real parser in a monitored child process",
 "C05": "exhaustive exploration of all layouts of bounded token sequences on the real parser, against an executable ECMA-262 model",
 "C06": "exhaustive exploration of bounded character sequences on the real lexer, against an executable model of the lexical grammar",
 "C10": "exhaustive exploration of all gaps x trivia of bounded programs on the real parser, against the ECMA-262 model",
 "C11": "complete enumeration of all code points x lexical positions on the real lexer and parser, against the ECMA-262 model",
 "C17": "exhaustive exploration of bounded programs on the real parser and converter, with an ESTree schema monitor on every tree",
 "C19": "exhaustive fault enumeration: every read position x every failure and chunking, on the real parser",
 "C20": "exhaustive enumeration of interleavings and histories under a controlled scheduler, plus happens-before checking of all pairs",
 "C21": "exhaustive enumeration of file lists on the real command",
 "C22": "exhaustive enumeration of call histories on the compiled web bundle, conformance with the library",
 "C23": "complete enumeration of code points and bounded sequences on the real function, against the encoding's definition",
 "C26": "exhaustive exploration of bounded event histories (edits, time, loading and its failures, navigation) of the real page script in a controlled stand-in browser, against a reference of what must be shown",
 "C28": "exhaustive enumeration of operation histories (read, peek, reread, expect) over bounded token texts on the real token scanner, against a queue-free replay",
 "C29": "exhaustive exploration of bounded program trees, layouts and lists on the real parser; the text of every node's span is read again in its place and must give the same node",
 "C27": "exhaustive exploration of bounded lexeme trees, nests and mutations around every unsupported feature on the real parser, against an executable ECMA-262 model that tells which texts need the feature",
 "C24": "exhaustive enumeration of read/step-back operation sequences on the real scanner, against a counting model",
}
N = {
 "C01": "No model: the outcome of every explored input is monitored directly; crashes, hangs (10 s; then 20 s of processor time, twice) and memory growth are attributed to the input and confirmed in fresh processes.",
 "C19": "Every read position of every explored text fails in every way; outside of the explored texts nothing is shown.",
 "C20": "Complete for the explored programs and numbers of preemptions; steps between reads are covered by the happens-before check.",
 "C21": "Complete for lists of up to three (four) of the explored kinds of files.",
 "C22": "Complete for the explored histories; trusts Node.js and the Go toolchain's JavaScript support.",
 "C23": "Complete for single code points; bounded for sequences.",
 "C26": "The page's own script runs in a modelled browser (mc/web/page.js); complete for the explored histories. Bound to the real bundle by a space that runs it.",
 "C24": "Bounded by the length of texts and operation sequences.",
 "C29": "No model: compares the parser with itself, so trees must be right for spans to be (C02-C15 decide that). Nodes are compared by their ESTree trees.",
 "C27": "Holds for every explored text; trusts the model's decision which texts can only be derived with an unsupported feature.",
 "C28": "Complete for the explored texts and lengths of histories; tokens themselves are judged by C06.",
 "C17": "Trusts the transcription of the ESTree node definitions (schema.go).",
}
default_note = "Holds for every input of the explored bounded spaces (listed in the evidence); trusts the executable model in mc/ref, which was compared with acorn during development."
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": [],
     "notes": "No hooks: the explorer uses exported interfaces only and is compiled against /repo's working tree through a replace directive."}
for i in ids:
    m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": T.get(i, model),
        "level": "fault_enumeration" if i == "C19" else "model_checking", "level_note": N.get(i, default_note)})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks")
