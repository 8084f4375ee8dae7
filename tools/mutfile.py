#!/usr/bin/env python3
"""Mutation survey of one file against some checks (development aid, no check): mutfile.py <out> <n> <seed> <file> <first-last or -> <check>..."""
import sys, os, random, subprocess, shutil, tempfile, json, importlib.util
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/tools/mutate.py").read().replace("\nmain()\n", "\n")
ns = {"__file__": V + "/tools/mutate.py"}
exec(compile(src, "mutate", "exec"), ns)


def main():
    out, n, seed, f, span = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
    checks = sys.argv[6:]
    path = "/repo/" + f
    total = len(open(path).read().split("\n"))
    lo, hi = (int(x) for x in span.split("-")) if span != "-" else (1, total)
    ms = sorted(set(ns["mutants"](path, range(lo, hi + 1))))
    code = open(path).read().split("\n")
    ms = [m for m in ms if not code[m[0] - 1].strip().startswith(("/*", "*", "//", "=", "D_NWSTACK", "D_LRSTACK", "printf", "WRITELOG"))]
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants possible", flush=True)
    q = Queue()
    dirs = []
    for k in range(4):
        w = tempfile.mkdtemp(prefix="mutf_", dir="/tmp")
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + w, shell=True)
        os.makedirs(w + "/v/build")
        subprocess.check_call("cp -r %s/sa %s/v/; cp %s/build/irdump-* %s/v/build/; cp %s/*.json* %s/v/" % (V, w, V, w, V, w), shell=True)
        q.put(w)
        dirs.append(w)
    log = open(out, "a")

    def one(m):
        ln, new = m
        w = q.get()
        p = os.path.join(w, f)
        s = open(p).read()
        L = s.split("\n")
        old = L[ln - 1]
        L[ln - 1] = new
        open(p, "w").write("\n".join(L))
        res = "SURVIVES"
        try:
            for c in checks:
                x = subprocess.run(["timeout", "400", sys.executable, w + "/v/sa/main.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, SA_REPO=w))
                if x.returncode:
                    res = "%s rc=%d %s" % (c, x.returncode, (x.stdout.strip().splitlines() or [""])[0][:120] if x.returncode == 1 else x.stdout.strip()[-150:].replace("\n", " "))
                    break
        finally:
            open(p, "w").write(s)
            q.put(w)
        log.write(json.dumps(dict(line=ln, old=old.strip(), new=new.strip(), res=res)) + "\n")
        log.flush()
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, ms[:n]))
    for w in dirs:
        shutil.rmtree(w)


main()
