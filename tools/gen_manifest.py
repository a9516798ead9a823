#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
ref = "random documents and shape/size sweeps run through the real package in supervised worker processes; "
T = {
"C01": ("differential monitoring of Parse against encoding/json's tokeniser", "trusts encoding/json's tokeniser as the reference"),
"C02": ("differential monitoring of number parsing against math/big and strconv", "trusts math/big and strconv"),
"C03": ("crash, hang and memory watch of Parse under mutated, random and grammar-broken inputs", "a hang is a case over its time limit twice"),
"C04": ("differential monitoring of Parse's verdict against an independent recogniser", "trusts encoding/json.Valid outside the stated tolerances"),
"C05": ("metamorphic monitoring: compact against re-spaced text", "the same document with other whitespace is the oracle"),
"C06": ("differential monitoring of ToJSONString against encoding/json and a document model", "trusts encoding/json and the model"),
"C07": ("round-trip monitoring of ToJSONString and Parse against a document model", "the model states which kinds are JSON-representable"),
"C08": ("history monitoring of maps against a sequential model", "observes after every step through every read"),
"C09": ("history monitoring of arrays against a sequential model", "observes after every step through every read"),
"C10": ("mutation monitoring: everything reachable in one copy is changed and the other compared with the model", "what can be reached is found by reflection over the public surface"),
"C11": ("monitoring the accessor matrix against math/big", "accessors found by reflection"),
"C12": ("panic and result monitoring of every accessor found by reflection", "kinds outside the documented set may give any error"),
"C13": ("monitoring every predicate against the model's kind", "predicates found by reflection"),
"C14": ("differential monitoring of bulk getters against element-wise reads", "element-wise reads are the oracle"),
"C15": ("Go race detector plus comparison of every goroutine's results with a sequential run, yields injected", "explores sampled interleavings; the race detector sees the accesses that ran"),
"C16": ("state snapshots (content, Go types, text) around every read found by reflection", "state is what the public surface shows"),
"C17": ("monitoring each setter and append against the value given", "setters found by reflection"),
"C18": ("monitoring time getters and rendering against package time", "trusts package time"),
"C19": ("differential monitoring of the renderers against strconv and encoding/json", "trusts strconv and encoding/json"),
"C20": ("fault planting: unsupported values at chosen paths, errors watched", "the fault-free twin of each document must give no error"),
"C21": ("history monitoring of nested handles against an aliasing model", "observes through all handles after every step"),
"C22": ("differential monitoring of text conversion against strconv and math/big", "exotic spellings are left unspecified (DESIGN.md)"),
"C23": ("monitoring constructors against the Go collections given", "compares with a model of the collection"),
}
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
 "checks": [{"property": i, "quick_cmd": f"bash bin/check.sh {i} quick", "thorough_cmd": f"bash bin/check.sh {i} thorough",
   "technique": "runtime monitoring: " + T[i][0], "level": "exploration",
   "level_note": "Violations seen on executions of the real code under seeded workloads; no claim beyond them. " + T[i][1][0].upper() + T[i][1][1:] + "."} for i in ids],
 "not_applicable": [],
 "notes": "No hooks: everything is observed through the public surface, the race detector and the process. Findings are in known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
