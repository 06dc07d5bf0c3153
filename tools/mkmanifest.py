#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "generated queries in all concrete spellings against an independent recogniser (accept oracle)",
 "C02": "mutation of valid queries and fault planting against an independent RFC 9535 recogniser (reject oracle)",
 "C03": "generated syntax trees printed in random spellings, parsed, and compared with the generating tree",
 "C04": "display/reparse round trip, idempotence and respelling relation on generated queries",
 "C05": "crash fuzzing of lexer and parsers with structured, token-soup and raw inputs",
 "C06": "crash fuzzing of query evaluation with extreme queries and documents",
 "C07": "generated child-segment queries and documents against a reference evaluator",
 "C08": "generated descendant queries and documents against a reference evaluator",
 "C09": "generated filter queries aimed at the document, against a reference evaluator",
 "C10": "generated operand pairs and every operator against a reference comparison, with algebraic relations",
 "C11": "generated function calls and documents against a reference implementation",
 "C12": "generated patterns, mutants and sampled subjects against a reference I-Regexp matcher",
 "C13": "locations of generated results against reference paths, plus resolve and requery round trips",
 "C14": "differential testing of five evaluators on generated queries and documents",
 "C15": "stateful testing of generated evaluation histories and concurrent callers against fresh evaluation and a model",
 "C16": "generated function signatures and calls against a reference type checker",
 "C17": "recording function extensions with generated signatures, against a reference evaluator",
 "C18": "generated extended queries and documents against a reference evaluator",
 "C19": "implicit and explicit spellings of generated queries compared (metamorphic), and with the standard evaluator",
 "C20": "token-stream invariants on generated, mutated and raw strings",
 "C21": "single planted faults against the reference checker's verdict on their kind; position invariants",
 "C22": "predicates of generated queries against the reference, and result size over generated documents",
 "C23": "model-based testing of generated interleavings of iterator steps, drops and restarts",
 "C24": "generated large and deep inputs on default stacks in an unoptimised build, against a reference evaluator",
 "C25": "metamorphic relations: cutting, splitting and embedding of generated queries and documents",
 "C27": "spans of generated queries' trees against the token positions recorded while printing them",
 "C28": "differential testing of every public entry point against one another and a reference evaluator",
 "C29": "model-based testing of generated histories over pools of lists that share elements",
 "C30": "generated trees built from public types, against the reference evaluator and by display round trip",
 "C31": "generated faulty texts and hand-made errors: what an error or token shows against its fields and the source text",
 "C32": "generated texts, queries and documents measured at growing sizes, against the growth of the work a reference model counts",
 "C26": "generated ranges, positions and boundary integers against arithmetic on the text",
}
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(here, "properties.jsonl"))}
assert set(titles) == set(T), set(titles) ^ set(T)
checks = []
for i in sorted(T):
    checks.append({
        "property": i,
        "quick_cmd": f"bash /verif/check.sh {i} quick",
        "thorough_cmd": f"bash /verif/check.sh {i} thorough",
        "technique": "property-based testing: " + T[i],
        "level": "exploration",
        "level_note": "bounded random search with shrinking plus fixed boundary cases; says nothing about inputs not generated",
    })
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed: everything is observed through the crates' public interfaces. Known findings and repairs: known-findings.json."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
