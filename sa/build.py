"""Builds the resolved program (LLVM IR -> JSON) from /repo's *current* working tree."""
import os, subprocess, sys, json, tempfile, shutil, hashlib, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")


class AnalysisBroken(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd="/", **kw)
    if p.returncode:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), p.stderr[-3000:]))
    return p.stdout


def irdump():
    src = os.path.join(HERE, "irdump", "irdump.cpp")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(VERIF, "build", "irdump-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cfg = lambda a: subprocess.check_output(["llvm-config-18"] + a, text=True).split()
    fl = [f for f in cfg(["--cxxflags"]) if not f.startswith("-std=")]
    tmp = out + ".%d" % os.getpid()
    sh(["clang++", "-std=c++17", "-O1"] + fl + ["-fno-exceptions", src, "-o", tmp] + cfg(["--ldflags", "--libs"]))
    os.rename(tmp, out)
    return out


CFLAGS = ["-w", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-c"]


def compile_all(jobs, tmp, keep_going=False):
    tool = irdump()

    def one(j):
        src, flags, out = j
        cxx = src.endswith(".cpp")
        cmd = (["clang++", "-std=gnu++11"] if cxx else ["clang"]) + CFLAGS + flags + [src, "-o", out]
        try:
            sh(cmd)
            sh([tool, "-types", out, out])
            return out
        except AnalysisBroken:
            if keep_going:
                return None
            raise
    with ThreadPoolExecutor(8) as ex:
        return [o for o in ex.map(one, jobs) if o]


def lib_sources():
    s = sorted(glob.glob(REPO + "/MQTTSNPacket/src/*.c"))
    if not s:
        raise AnalysisBroken("no sources in MQTTSNPacket/src")
    return s


def gw_sources(sensornet):
    g = REPO + "/MQTTSNGateway/src"
    s = sorted(glob.glob(g + "/*.cpp")) + sorted(glob.glob(g + "/linux/*.cpp")) + sorted(glob.glob(g + "/linux/%s/*.cpp" % sensornet))
    s = [x for x in s if not os.path.basename(x).startswith("mainLog")]
    inc = ["-I" + g, "-I" + g + "/linux", "-I" + g + "/linux/" + sensornet, "-I" + REPO + "/MQTTSNPacket/src"]
    return s, inc


def load(kind):
    """kind: 'lib', 'gw:udp', 'gw:xbee', ..., 'tester:UDP', ..."""
    from ir import Program
    tmp = tempfile.mkdtemp(prefix="sa_", dir="/tmp")
    try:
        jobs = []
        units = []
        if kind == "lib" or kind.startswith("gw"):
            for s in lib_sources():
                jobs.append((s, ["-I" + REPO + "/MQTTSNPacket/src"], "%s/l_%s.bc" % (tmp, os.path.basename(s))))
        if kind.startswith("gw:"):
            ss, inc = gw_sources(kind[3:])
            for s in ss:
                jobs.append((s, inc, "%s/g_%s.bc" % (tmp, s.replace("/", "_"))))
        if kind.startswith("tester:"):
            t = REPO + "/MQTTSNGateway/GatewayTester"
            for s in sorted(glob.glob(t + "/src/*.cpp")) + [t + "/samples/mainTest.cpp"]:
                jobs.append((s, ["-D" + kind[7:], "-I" + t + "/src"], "%s/t_%s.bc" % (tmp, os.path.basename(s))))
        units = [j[0] for j in jobs]
        outs = compile_all(jobs, tmp)
        sh(["llvm-link-18"] + outs + ["-o", tmp + "/all.bc"])
        with open(tmp + "/all.json", "w") as f:
            p = subprocess.run([irdump(), tmp + "/all.bc", REPO], stdout=f, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise AnalysisBroken("irdump failed: " + p.stderr[-2000:])
        prog = Program(json.load(open(tmp + "/all.json")), kind)
        prog.units = units
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
