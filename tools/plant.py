#!/usr/bin/env python3
"""plant.py [ids]: writes /verif/seeded/<id> for the gateway bugs listed in tools/bugs.py (harness: tools/gwdemo)"""
import os, sys, subprocess, tempfile, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import bugs
for b in bugs.BUGS:
    id = b["id"]
    if b.get("skip") or sys.argv[1:] and id not in sys.argv[1:]:
        continue
    w = tempfile.mkdtemp(dir="/tmp", prefix="plant_")
    try:
        edits = b["edits"]
        files = sorted({e[0] for e in edits})
        for f in files:
            for s in "ab":
                os.makedirs(os.path.dirname("%s/%s/%s" % (w, s, f)), exist_ok=True)
                with open("%s/%s/%s" % (w, s, f), "wb") as h:
                    h.write(subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f]))
        for e in edits:
            f, old, new = e[:3]
            p = w + "/b/" + f
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = e[3] if len(e) > 3 else 0
            parts = t.split(old)
            if len(parts) < 2 or (len(parts) > 2 and len(e) < 4):
                sys.exit("%s: %d occurrences of %r" % (id, len(parts) - 1, old))
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w", newline="").write(t)
        d = subprocess.run(["diff", "-ru", "a", "b"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        d = "".join(l for l in d.splitlines(True) if not l.startswith("diff "))
        o = V + "/seeded/" + id
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w", newline="").write(d)
        for f in ("netdemo.h",) if b.get("net") else ("gwdemo.h",) + (("tkdemo.h",) if b.get("tasks") else ()):
            shutil.copy(V + "/tools/gwdemo/" + f, o)
        s = open(V + "/tools/gwdemo/demo.sh").read()
        if b.get("asan"):
            s = s.replace("here=$(cd", "export SAN=-fsanitize=address\nhere=$(cd", 1)
        if b.get("leaks"):
            s = s.replace("here=$(cd", "LEAKS=1\nhere=$(cd", 1)
        if b.get("asan"):
            s = s.replace("tail -5 log", "grep -E 'FAIL|ERROR|SUMMARY' log", 1)
        if b.get("net"):
            s = s.replace("linux/udp", "linux/" + b["net"])
        open(o + "/demo.sh", "w").write(s)
        if b.get("net"):
            open(o + "/demo.cpp", "w").write('#include "netdemo.h"\n' + b.get("pre", "") + '\nint main()\n{\n' + b["demo"].strip("\n") + "\n    return failed;\n}\n")
        elif b.get("tasks"):
            open(o + "/demo.cpp", "w").write('#include "tkdemo.h"\n' + b.get("pre", "") + '\nint main()\n{\n    Tasks d;\n' + b["demo"].strip("\n") + "\n    return d.done();\n}\n")
        else:
            open(o + "/demo.cpp", "w").write('#include "gwdemo.h"\n' + b.get("pre", "") + '\nint main()\n{\n    Demo d;\n' + b["demo"].strip("\n") + "\n    return failed;\n}\n")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w)
