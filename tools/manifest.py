#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os

MON = "runtime monitoring: generated, enumerated and mutated workloads on the real code, "
CHECKS = {
    "C01": (MON + "every parsed tree compared with a generated model and with an independent parser",
            "Held on all texts run; the model, its renderer and the reference parser are trusted, go/parser defines Go expressions. Seven known findings (a comment within a condition drops the rest of it; a line break in a raw string)."),
    "C02": (MON + "verdicts compared with an independent recogniser of the language",
            "Held on all texts run, short token sequences exhaustively; the recogniser is trusted, go/parser defines Go expressions."),
    "C03": (MON + "trees of different layouts of one model compared with one another (metamorphic oracle)",
            "Held on all pairs of layouts run; the renderer decides what a layout is."),
    "C04": (MON + "print, parse and compare (round-trip oracle), against the model printed",
            "Held on all trees run, pairs of operators and operands exhaustively."),
    "C05": (MON + "printed bytes compared with an independent formatter",
            "Held on all trees and nodes run; the formatter is trusted."),
    "C06": (MON + "expanded rules compared with an independent expansion of the model",
            "Held on all files run; places and counts of alternates enumerated; the model is trusted."),
    "C07": (MON + "file, rules and error observed before and after expansion (all-or-nothing and idempotence monitor)",
            "Held on all files run; compatibility is decided by a model."),
    "C08": (MON + "recorded histories of visits compared with the expected traversal",
            "Held on all traversals run, visitors ending at every node of small trees."),
    "C09": (MON + "predicates compared with the features planted in a model",
            "Held on all rules run; sets of features and places enumerated."),
    "C10": (MON + "scripts read strictly and evaluated next to the rule; a part also decided by z3 and cvc5",
            "Held on all rules and values run: all values up to 16 bits of variables, chosen ones beyond; the reader and evaluator are trusted."),
    "C11": (MON + "verdicts compared with a typed model of the supported fragment",
            "Held on all rules run; families at the border of the fragment enumerated; the model is trusted."),
    "C12": (MON + "processes observed: files before and after, exit status and report against a model of the command",
            "Held on all runs of the real command; scripts are taken from the library (C10)."),
    "C13": (MON + "fault injection at every byte of writers, readers and files; errors, exit status and partial output observed",
            "Held on all faults injected; writers and readers keep to their contracts."),
    "C14": ("runtime monitoring: Go race detector on concurrent stress workloads with yielding readers and writers; results compared with serial ones",
            "No race in the interleavings that occurred, all pairs of operations seen together; says nothing of others."),
    "C15": (MON + "histories of operations with every answer compared with the first to the same question; deep copies of inputs compared",
            "Held on all histories run."),
    "C16": (MON + "reported positions compared with planted ones and with an independent recogniser",
            "Held on all texts run; the recogniser is trusted."),
    "C17": (MON + "statements, allocations and bytes counted on families of growing size",
            "No growth beyond the square on the families run (all constructs at all places, random ones), up to the limits on work; the standard library counts by its allocations."),
    "C18": (MON + "dumps of pairs of trees that are equal, or differ in one place, compared; injectivity monitored over all dumps of a process",
            "Held on all pairs run."),
}

here = os.path.dirname(os.path.abspath(__file__))
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": i,
        "quick_cmd": "./check.sh " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
        "technique": t, "level": "exploration", "level_note": n,
    } for i, (t, n) in sorted(CHECKS.items())],
    "not_applicable": [],
    "notes": "No hooks in /repo: all monitors observe exported functions and the command. Known findings and fixes: known_findings.json. The harness is built from /verif/harness against the working tree of /repo by every check.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
assert props == sorted(CHECKS), set(props) ^ set(CHECKS)
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
