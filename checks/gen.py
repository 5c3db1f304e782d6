#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks/meta.py and checks/table.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import table
from meta import META, NA
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for id, m in sorted(META.items()):
        a = dict(files=m["files"], mechanism=[dict(name=n, where=w) for n, w in m["mech"]], hook_needed=None)
        if m["state"]: a["state"] = [dict(name=n, meaning=x, where=w) for n, x, w in m["state"]]
        a["observe_at"] = list(m["observe"]) or ["results and memory after the call"]
        assert len(m["title"]) <= 80, m["title"]
        f.write(json.dumps(dict(id=id, title=m["title"], statement=m["statement"], quantifier=dict(over=m["over"], text=m["qtext"]), why_tests_cant=m["why"], anchors=a)) + "\n")
def also(id):
    js = table.PROPS[id]["jobs"]("quick"); r = []
    if any(d in ("WIDE=576", "WIDE=1088") for j in js for d in j.get("defs", [])): r.append("long ranges (36 words of 8 bits, 8 of 64; find: 33 of 8) with positions near either end at offsets 0, 5, digits-1")
    if any(j["src"] == "h_huge.cpp" for j in js): r.append("260 words of 8 bits and 1060 of 64 (more than 255 words, more than 65535 bits; thorough: more than 65535 bits in every width), %s, contents arbitrary" % ("two lengths, positions and counts" if id[0] == "C" else "positions at two offsets per end"))
    if any("RAW=1" in j.get("defs", []) for j in js): r.append("iterators over raw word pointers")
    if any("MIX=1" in j.get("defs", []) for j in js): r.append("ranges over two different iterator types")
    if any("CSRC=1" in j.get("defs", []) for j in js): r.append("constant sources")
    if any(j.get("std") == "20" for j in js): r.append("the C++20 build")
    if any("BITLIB_HWY=1" in j.get("defs", []) for j in js) and id != "A17": r.append("the SIMD build")
    return ("; also, at selected positions: " + ", ".join(r)) if r else ""
def harnesses(id):
    js = table.PROPS[id]["jobs"]("quick"); r = {}
    for j in js: r.setdefault(j["src"] + ": " + j["entry"], set()).add(j["word"])
    return ", ".join("`%s`" % k for k in r)
checks = []
for id, m in sorted(META.items()):
    if id in NA: continue
    assert id in table.PROPS, id
    checks.append(dict(property=id, quick_cmd="python3 check.py %s --tier quick" % id, thorough_cmd="python3 check.py %s --tier thorough" % id,
        technique="bounded symbolic execution of the library's LLVM IR, decided by SMT (z3)", level="model_checking",
        level_note="The harness's calls into the current headers are compiled to LLVM IR and executed symbolically over every input within the bounds; each assertion and memory access is decided by z3 (or by its rewriting front end) and every counterexample is replayed natively before it is reported. Bounds: %s%s. Trusted: clang's IR, the executor's semantics (cross-checked on path witnesses against native runs), z3." % (m["bounds"], also(id))))
man = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
    hooks=dict(guard="BITLIB_VERIF", enable="no hooks are needed: the harnesses use the public headers as they are", source_commits=[]),
    notes="properties.jsonl and this file are written by checks/gen.py. known_findings.txt lists the defects found and repaired by fix: commits.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")
# the table of DESIGN.md between its markers
p = os.path.join(ROOT, "DESIGN.md")
if os.path.exists(p):
    t = open(p).read(); a, b = "<!-- properties: written by checks/gen.py -->\n", "<!-- end of properties -->"
    i, j = t.index(a) + len(a), t.index(b)
    out = ""
    for id, m in sorted(META.items()):
        out += "### %s — %s\n\n%s\n\n- over: %s\n- beyond the tests: %s\n- decided by: %s\n- bounds: %s%s\n\n" % (id, m["title"], m["statement"], m["qtext"], m["why"], harnesses(id), m["bounds"], also(id))
    open(p, "w").write(t[:i] + "\n" + out + t[j:])
