#!/usr/bin/env python3
"""The property catalogue; writes properties.jsonl and MANIFEST.json."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
AI = "abstract interpretation of the LLVM IR (relational linear domain, symbolic memory, widening)"
LIBNOTE = ("All inputs of the analysed functions, all paths; library code inlined completely, no unrolling bound (loops by widening). "
           "Trusted: clang front end, the IR dump, the abstract interpreter in sa/, the models of libc string functions.")


def prop(id, title, statement, over, quant, why, files, mech, observe, technique=None, note=None, na=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append((d, technique, note, na))


exec(open(os.path.join(V, "tools", "props_lib.py")).read())
for n in ("props_gw.py", "props_ag.py", "props_na.py"):
    f = os.path.join(V, "tools", n)
    if os.path.exists(f):
        exec(open(f).read())

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _, _ in P:
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 sa/setup.py",
             checks=[dict(property=d["id"], quick_cmd="python3 sa/main.py %s quick" % d["id"], thorough_cmd="python3 sa/main.py %s thorough" % d["id"],
                          evidence_file="evidence/%s.json" % d["id"], technique=t, level="other", level_note=n)
                     for d, t, n, na in P if na is None],
             not_applicable=[dict(property=d["id"], reason=na) for d, t, n, na in P if na is not None],
             notes="Static analysis only: every check recompiles /repo's current sources to LLVM IR and analyses the IR; nothing of /repo is executed. "
                   "Exit 3 with ANALYSIS-BROKEN means the analysis could not find what it is anchored to. See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    print(len(P), "properties,", len(m["checks"]), "claimed")
