#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after an edit)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "crates/math-core/src/"
REN = "crates/mathml-renderer/src/"
CLI = "crates/math-core-cli/src/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, level_note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, note=level_note, observe=observe))


TECH = "symbolic execution of the crates' LLVM IR with Z3 deciding every branch; counterexamples and every path's model replayed natively"
NOTE = ("Exhaustive within the stated input families (the solver decides every branch, no path left open), nothing outside them. "
        "Trusts rustc down to LLVM IR and the engine's IR semantics; the latter is cross-checked by replaying every path's model natively.")

exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]],
                         observe_at=p["observe"] or ["the MathML string or error returned by LatexToMathML's conversion methods"], hook_needed=None)), ensure_ascii=False) + "\n")
na = {x["property"]: x for x in NOT_APPLICABLE}
m = dict(version=1, setup_cmd="python3 build.py", checks=[
    dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
         technique=TECH, level="model_checking", level_note=(p["note"] + " " if p["note"] else "") + NOTE) for p in P if p["id"] not in na],
    not_applicable=NOT_APPLICABLE,
    notes="No hooks in /repo: the harnesses use the public API (or include a source file by path). known-findings.txt lists the defects that were fixed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
