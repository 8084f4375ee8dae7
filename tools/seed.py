#!/usr/bin/env python3
"""seed.py <id>...: confirm /verif/seeded/<id> in a scratch copy of /repo: builds, tests pass, demo 0 -> nonzero; then run the property's check on it.
   seed.py --check-only <id>..: only the check."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(id, check_only):
    d = os.path.join(V, "seeded", id)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    res = []
    try:
        r = w + "/repo"
        os.mkdir(r)
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + r, shell=True)
        if run(["git", "apply", "--directory", "", d + "/patch.diff"], cwd=r).returncode:
            p = run(["patch", "-p1", "-i", d + "/patch.diff"], cwd=r)
            if p.returncode:
                return id, "patch does not apply: " + p.stdout[-300:]
        env = dict(os.environ, SA_REPO=r)
        p = run(["python3", V + "/sa/main.py", meta["property"]], env=env)
        caught = p.returncode == 1 and "VIOLATION property=%s " % meta["property"] in p.stdout
        first = [l for l in p.stdout.splitlines() if l.startswith("  ")][:1]
        return id, "%s %s rc=%d %s" % (meta["property"], "CAUGHT" if caught else "MISSED", p.returncode, first[0].strip() if first else p.stdout.strip()[-200:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


def full(id):
    """in /repo itself: apply, build, test, demo, undo"""
    d = os.path.join(V, "seeded", id)
    st = run(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip()
    if st:
        return "repo not clean"
    out = []
    def demo():
        t = tempfile.mkdtemp(prefix="demo_", dir="/tmp")
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(d, f), t)
        try:
            p = run(["timeout", "300", "bash", t + "/demo.sh"], cwd="/repo")
            return p.returncode, p.stdout[-400:]
        finally:
            shutil.rmtree(t)
    try:
        base = demo()
        if base[0]:
            return "demo fails on the unchanged tree: %s" % (base,)
        p = run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        if p.returncode:
            return "patch does not apply: " + p.stdout
        p = run(["bash", "/opt/vp/build.sh"])
        if p.returncode:
            return "build fails: " + p.stdout[-500:]
        p = run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"])
        t = json.load(open("/tmp/seedtest.json"))
        if len(t["passed"]) != 19:
            return "tests fail: %s" % t["failed"]
        r = demo()
        if r[0] == 0:
            return "demo passes with the patch: " + r[1]
        return "ok (demo rc %d: %s)" % (r[0], r[1].strip().splitlines()[-1][:100] if r[1].strip() else "")
    finally:
        run(["git", "-C", "/repo", "checkout", "--", "."])
        run(["bash", "/opt/vp/build.sh"])


if __name__ == "__main__":
    a = sys.argv[1:]
    co = "--check-only" in a
    a = [x for x in a if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    for id in a:
        if not co:
            print(id, full(id), flush=True)
        print(*one(id, co), flush=True)
