#!/usr/bin/env python3
"""Mutation survey of what the handler checks analyse (development aid, no check): mutate.py <out> <n> [seed] [file substring]"""
import sys, os, re, random, subprocess, shutil, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RUN = r'''
import sys, os
sys.path.insert(0, %r)
import report, handlers, build
r = report.Report("ALL", "quick")
try:
    handlers.run_cases(r, *handlers.CASES)
    bad = [k for k, o in r.obl.items() if not o["ok"]]
    print("RESULT", len(bad), (bad or [""])[0][:150])
except build.AnalysisBroken as e:
    print("RESULT broken", str(e)[:200])
'''


def lines(prog):
    """file -> analysed lines"""
    out = {}
    for fn in prog.fns.values():
        if not fn.blocks or not fn.file.startswith("/repo/MQTTSNGateway/src"):
            continue
        for b in fn.blocks:
            for i in b:
                if i.get("l"):
                    out.setdefault(fn.key, (fn.file, set()))[1].add(i["l"])
    return out


def mutants(path, todo):
    src = open(path).read().split("\n")
    for n in sorted(todo):
        if n > len(src):
            continue
        l = src[n - 1]
        c = l.split("//")[0]
        if "WRITELOG" in c or "writelog" in c.lower() or "log(" in c:
            continue
        for a, b in (("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), ("&&", "||"), ("||", "&&"), ("true", "false"), ("false", "true"), (" + ", " - "), (" - ", " + "), ("++", "--"), ("0x7f", "0x3f")):
            for m in re.finditer(re.escape(a), c):
                yield n, l[:m.start()] + b + l[m.end():]
        for m in re.finditer(r"(?<![-<>=!])\s<\s(?!<)|(?<![-<>=!])\s>\s(?!>)", c):
            yield n, l[:m.start()] + (" <= " if "<" in m.group() else " >= ") + l[m.end():]
        for m in re.finditer(r"(?<![\w.\"])\d+(?![\w.\"])", c):
            yield n, l[:m.start()] + str(int(m.group()) + 1) + l[m.end():]
        m = re.match(r"(\s*(?:else )?(?:if|while) \()(.*)(\)\s*)$", c)
        if m:
            yield n, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)
        if re.match(r"\s+[\w>.\-\[\]\(\)&*, !:\"]+(\s*=\s*.*|\(.*\));\s*$", c) and not re.match(r"\s*(return|break|delete|\w+\*? +\w+ *=|[\w:<>*]+ \w+\()", c):
            yield n, ""
        m = re.match(r"(\s*)(return|delete) (.*);", c)
        if m and m.group(2) == "delete":
            yield n, ""
        for m in re.finditer(r"MQTTSN_RC_\w+|Ct?_\w+|Cstat_\w+|Et\w+", c):
            alt = {"MQTTSN_RC_ACCEPTED": "MQTTSN_RC_REJECTED_CONGESTED", "Cstat_Active": "Cstat_Awake", "Cstat_Awake": "Cstat_Asleep", "Cstat_Asleep": "Cstat_Awake"}.get(m.group())
            if alt:
                yield n, l[:m.start()] + alt + l[m.end():]


def main():
    out, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    filt = sys.argv[4] if len(sys.argv) > 4 else ""
    sys.path.insert(0, V + "/sa")
    import build, report, handlers
    r = report.Report("ALL", "quick")
    handlers.run_cases(r, *handlers.CASES)
    fnl = lines(build.load("gw:udp"))
    todo = {}
    for k in r.fns:
        if k in fnl:
            todo.setdefault(fnl[k][0], set()).update(fnl[k][1])
    ms = [(f, ln, new) for f in sorted(todo) if filt in f for ln, new in mutants(f, todo[f])]
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants possible", flush=True)
    w = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + w, shell=True)
    os.makedirs(w + "/v/build")
    subprocess.check_call("cp -r %s/sa %s/v/; cp %s/build/irdump-* %s/v/build/" % (V, w, V, w), shell=True)
    with open(out, "a") as log:
        for f, ln, new in ms[:n]:
            rel = os.path.relpath(f, "/repo")
            p = os.path.join(w, rel)
            src = open(p).read()
            L = src.split("\n")
            old = L[ln - 1]
            L[ln - 1] = new
            open(p, "w").write("\n".join(L))
            try:
                q = subprocess.run(["timeout", "200", sys.executable, "-c", RUN % (w + "/v/sa")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, SA_REPO=w))
                res = [x for x in q.stdout.splitlines() if x.startswith("RESULT")]
                res = res[0][7:] if res else "crash rc=%d %s" % (q.returncode, q.stdout.strip()[-200:].replace("\n", " "))
            finally:
                open(p, "w").write(src)
            log.write(json.dumps(dict(file=rel, line=ln, old=old.strip(), new=new.strip(), res=res)) + "\n")
            log.flush()
    shutil.rmtree(w)


main()
