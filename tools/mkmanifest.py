#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claims below."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "contracts")]
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "C06": "The contract of BuildBuckets (counts of values, bounds and their permutation by sorting) is written, but two of about 600 obligations are not discharged and the proof takes 7 minutes; not claimed.",
    "C23": "TSV parsing: file contents, character loops of library string functions and a reader thread; strings are opaque values in the VC generator, so no contract within its reach expresses the property.",
    "C24": "Flat files: the property is about file contents and library serialisation; contracts over repository code would restate assumptions about the library.",
    "C25": "Text helpers work on single characters through library string functions; strings are opaque values in the VC generator.",
    "C26": "The property lives in the pybind11 layer and the Python interpreter, outside the C++ subset the generator reads.",
    "C27": "Freedom from data races quantifies over interleavings; the generator's thread pool model is sequential and cannot express them.",
    "C28": "ThreadPool is condition variables and threads; its property quantifies over interleavings, which sequential contracts cannot express here.",
    "C30": "The round trip is JsonStringToMessage(MessageToJsonString(x)) of the protobuf library: /repo only forwards to it. Its source "
           "is not part of /repo, so no contract over repository code can express or decide the property (an assumed library contract would be the property itself).",
}
checks, na = [], []
for i in ids:
    p = os.path.join(HERE, "contracts", i.lower() + ".py")
    if i in NA or not os.path.exists(p):
        na.append(dict(property=i, reason=NA.get(i, "not covered yet: contracts for these functions are still to be written")))
        continue
    m = importlib.import_module(i.lower())
    level = getattr(m, "LEVEL", "proof")
    note = getattr(m, "NOTE", "") or ("Every obligation generated from the current source is discharged for all inputs (no bound). "
           "Trusted: clang's AST, the VC generator, z3, the models of the C++ library and protobuf accessors.")
    checks.append(dict(property=i, quick_cmd="python3-vt check.py %s quick" % i, thorough_cmd="python3-vt check.py %s thorough" % i,
                       technique=getattr(m, "TECHNIQUE", "contract-based deductive verification of the real code (VC generation from the clang AST, z3), "
                                         "failing inputs replayed on the sanitized build"),
                       level=level, level_note=note))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks in /repo. check.py reads /repo's current working tree on every run."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print("claimed", [c["property"] for c in checks])
