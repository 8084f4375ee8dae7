"""T01/T02: the gateway's locks. Every function that can take or release a lock is interpreted with unknown arguments;
the locks held are tracked on every path, through guards, helpers and exceptions."""
import os, re, sys
import build, report
from ai import *
from gw import prog
from oracle import pmap

LOCK, UNLOCK = "Mutex::lock", "Mutex::unlock"
KINDS = ["udp", "udp6", "xbee", "loralink", "rfcomm"]
WAITS = {"sem_wait", "pthread_join", "pthread_cond_wait", "Semaphore::wait", "NamedSemaphore::wait"}
HELD = ("held",)


def direct(fn):
    """names of the functions a function calls: [(name, ins)]"""
    out = []
    for b in fn.blocks:
        for i in b:
            if i["op"] in ("call", "invoke") and i["callee"][0] == "g":
                out.append((i["callee"][1], i))
    return out


class Program:
    """what the functions of one variant of the gateway do with locks"""

    def __init__(self, kind):
        self.kind = kind
        self.p = p = prog("gw:" + kind)
        self.calls = {n: direct(f) for n, f in p.fns.items() if not f.decl}
        key = lambda n: p.fns[n].key if n in p.fns else n
        self.key = key
        # functions that can reach a lock operation, without Mutex's own
        self.mutex = {n for n, f in p.fns.items() if f.cls == "Mutex"}
        ops = {n for n in self.mutex if p.fns[n].src in ("lock", "unlock")}
        if not ops:
            raise build.AnalysisBroken("Mutex::lock and Mutex::unlock are not found")
        self.L = self.closure(ops) - self.mutex
        self.waits = self.closure({n for n in p.fns if key(n) in WAITS or n in WAITS})
        self.throws = self.thrower()
        self.sum = {}
        self.names = {}
        self.records = {}
        order, seen = [], set()

        def visit(n, path=()):
            if n in seen:
                return
            seen.add(n)
            for m, _ in self.calls.get(n, ()):
                visit(m)
            order.append(n)
        sys.setrecursionlimit(20000)
        for n in sorted(self.L):
            visit(n)
        self.order = [n for n in order if n in self.L]

    def closure(self, s):
        s = set(s)
        while True:
            more = {n for n, c in self.calls.items() if n not in s and any(m in s for m, _ in c)}
            if not more:
                return s
            s |= more

    def thrower(self):
        """functions an exception of the program's own can leave -> its types"""
        out = {}
        ch = True
        while ch:
            ch = False
            for n, c in self.calls.items():
                if n in self.mutex:
                    continue
                for m, i in c:
                    if i["op"] != "call":
                        continue
                    t = set(out.get(m, ()))
                    if m == "__cxa_throw":
                        t = {i["args"][1][1] if i["args"][1][0] == "g" else "?"}
                    if t - out.get(n, set()):
                        out.setdefault(n, set()).update(t)
                        ch = True
        return out

    def leaf(self, fn):
        return len(fn.blocks) == 1 and not any(i["op"] in ("call", "invoke") for i in fn.blocks[0])

    # ---------------------------------------------------------------- names
    def name(self, v, fr):
        """the member a pointer operand designates: Class::member"""
        while fr is not None:
            if v[0] == "gep":
                return self.gepname(v)
            if v[0] == "g":
                return self.p.globals[v[1]]["dem"] if v[1] in self.p.globals else v[1]
            if v[0] != "v":
                return None
            fn = fr.fn
            for k, a in enumerate(fn.args):
                if a["id"] == v[1]:
                    if fr.callins is None:
                        return None
                    v, fr = fr.callins["args"][k], fr.up
                    break
            else:
                d = self.defs(fn).get(v[1])
                if d is None:
                    return None
                if d["op"] == "getelementptr":
                    g = d["g"]
                    if g[0] != "gep":
                        return None
                    if g[3] or not g[4].startswith("%"):
                        v = g[1]
                        continue
                    return self.gepname(g)
                elif d["op"] == "load":
                    v = d["o"][0]
                elif d["op"] in ("bitcast", "freeze"):
                    v = d["o"][0]
                else:
                    return None
        return None

    def gepname(self, g):
        c = self._gn.get((g[4], g[2]))
        if c:
            return c
        c = self._gn[(g[4], g[2])] = self.gepname_(g)
        return c

    _gn = {}

    def gepname_(self, g):
        t = g[4].strip('%"')
        for x in ("class.", "struct."):
            if t.startswith(x):
                t = t[len(x):]
        t = t.split("::")[-1] if "<" not in t else t
        t = t.rstrip("0123456789").rstrip(".") if "." in t else t
        tt = t if t in self.p.types else next((x for x in sorted(self.p.types) if x.startswith(t + "<")), t)
        fs = [x for x, o, b, m in self.p.flat_fields(tt) if o == g[2]]
        f = min(fs, key=lambda x: x.count(".")) if fs else None
        return "%s::%s" % (t, f if f else g[2])

    def defs(self, fn):
        d = fn.raw.get("_defs")
        if d is None:
            d = fn.raw["_defs"] = {i["id"]: i for b in fn.blocks for i in b if "id" in i}
        return d

    # ---------------------------------------------------------------- one function
    def analyse(self, n, extra=()):
        """interpret function n; everything it calls that keeps the locks as they are is not entered"""
        if n in self.records:
            return self.records[n]
        p = self.p
        fn = p.fns[n]
        rec = self.records[n] = {"exits": set(), "bad": {}, "order": {}, "calls": {}, "acc": {}, "waits": {}, "takes": set()}
        ip = LockInterp(p, self, rec)
        st = State()
        st.ghost[HELD] = ()
        args = []
        for k, a in enumerate(fn.args):
            ty = a.get("ty") or "ptr"
            w = width_of(ty)
            if ty == "ptr":
                o = ("arg", "a%d" % k)
                args.append(P(o))
                if k == 0 and fn.cls:
                    st.null[o] = False
            elif w == 1:
                args.append(("C", "opq", "a%d" % k))
            elif w:
                args.append(sym("a%d" % k, w))
            else:
                args.append(("U", "a%d" % k))
        if fn.cls == "RingBuffer" and fn.src not in ("RingBuffer", "~RingBuffer"):
            for path, off, bits, mem in p.flat_fields("RingBuffer"):
                if mem[4] == "ptr":
                    v = ip.load(st, args[0][1], Lin(off), 8, "ptr")
                    if v[0] == "P":
                        st.null[v[1]] = False
        outs = ip.run(fn, args, st)
        for o in outs:
            if o.kind == "exit":
                continue
            v = o.val[2].c if o.val[0] == "I" and not o.val[2].t and o.val[1] == 1 else "null" if o.val[0] == "N" else None
            rec["exits"].add((o.kind, o.st.ghost.get(HELD, "differs between iterations"), v))
        self.touched = getattr(self, "touched", set()) | ip.touched
        return rec

    def helper(self, n):
        """a function that changes the locks held in one definite way: its callers are judged with it"""
        ex = self.records[n]["exits"]
        held = {h for k, h, v in ex}
        if any(not isinstance(h, tuple) for h in held):
            return False
        if self.records[n]["bad"]:
            # releases what its caller holds
            if any(b[0] == "release" for b in self.records[n]["bad"]):
                return True
        if held == {()} or not held:
            return False
        if len(held) == 1:
            return True
        # a lock that is taken or not, as the result says
        by = {}
        for k, h, v in ex:
            by.setdefault(v, set()).add(h)
        return self.p.fns[n].ret == "i1" and None not in by and all(len(x) == 1 for x in by.values())

    def all(self):
        if getattr(self, "done", False):
            return self
        self.inline = set()
        called = {m for c in self.calls.values() for m, _ in c}
        for n in self.order:
            self.analyse(n)
            if n in called and self.helper(n):
                self.inline.add(n)
        self.done = True
        return self


class LockInterp(Interp):
    def __init__(self, p, W, rec):
        Interp.__init__(self, p, budget=3000000)
        self.W, self.rec = W, rec
        self.on_access = self.access_hook

    def held(self, st):
        h = st.ghost.get(HELD)
        return h if isinstance(h, tuple) else ()

    def where(self, ins, fr):
        return "%s:%s" % (fr.fn.key, ins["l"])

    def cls(self, addrs):
        return tuple(self.W.names.get((self.rec_id(), a)) or "?" for a in addrs)

    def rec_id(self):
        return id(self.rec)

    def call(self, st, callee, args, ins, fr):
        W, p = self.W, self.prog
        if callee[0] == "g" or callee[0] == "P" and callee[1][0] == "g":
            name = callee[1] if callee[0] == "g" else callee[1][1]
            fn = p.fns.get(name)
            if fn is None or fn.decl:
                if name == "__cxa_throw":
                    st.ghost[("exc",)] = args[1][1][1] if args[1][0] == "P" and args[1][1][0] == "g" else "?"
                    return [Outcome(st, ("U", "exc"), "throw")]
                if name == "llvm.eh.typeid.for" or name.startswith("llvm.eh.typeid.for"):
                    return [Outcome(st, I(32, self.typeid(args[0][1][1]) if args[0][0] == "P" else 0))]
                if name in WAITS:
                    self.note_wait(st, name, ins, fr)
                self.uses(st, args, ins, fr)
                if name.startswith("llvm.") or name in ("_Znwm", "strlen", "memcpy", "memset", "__errno_location"):
                    return self.extern(st, fn.name if fn else name, fn.key if fn else name, args, ins, fr)
                if name in ("exit", "abort"):
                    return [Outcome(st, ("U", "exit"), "exit")]
                return [Outcome(st, self.fresh_ret(st, name, ins, fr))]
            if fn.cls == "Mutex" and fn.src in ("lock", "unlock"):
                return self.lockop(st, fn.src, args[0], ins, fr)
            held = self.held(st)
            self.rec["calls"].setdefault((name, self.cls(held)), self.where(ins, fr))
            if name in W.waits:
                self.note_wait(st, fn.key, ins, fr)
            if (name in W.inline or W.leaf(fn)) and not fr.active(fn) and fr.depth < 12:
                env = st.env
                out = []
                self.hand_over(ins, args, fr)
                for o in self.run(fn, args, st, Frame(fn, "%s.%s" % (fr.ctx, ins.get("_n", 0)), fr.depth + 1, fr, ins)):
                    o.st.env = dict(env)
                    out.append(o)
                return out
            sub = W.records.get(name)
            if sub:
                for t in sub["takes"]:
                    self.rec["takes"].add(t)
                    for h in self.cls(held):
                        self.rec["order"].setdefault((h, t), self.where(ins, fr))
            outs = [Outcome(st, self.fresh_ret(st, fn.key, ins, fr))]
            for t in sorted(W.throws.get(name, ())):
                s = st.copy()
                s.ghost[("exc",)] = t
                outs.append(Outcome(s, ("U", "exc"), "throw"))
            return outs
        # calls through pointers: any function
        self.rec["calls"].setdefault(("<indirect>", self.cls(self.held(st))), self.where(ins, fr))
        return [Outcome(st, self.fresh_ret(st, "indirect", ins, fr))]

    def hand_over(self, ins, args, fr):
        """a member whose address is handed to a helper keeps its name there"""
        for v, x in zip(ins["args"], args):
            if x[0] != "P":
                continue
            d = self.W.defs(fr.fn).get(v[1]) if v[0] == "v" else None
            if v[0] == "gep" or d and d["op"] == "getelementptr":
                n = self.W.name(v, fr)
                if n:
                    self.W.names.setdefault((self.rec_id(), (x[1], x[2])), n)

    def uses(self, st, args, ins, fr):
        """members whose address is handed to a function of the system"""
        for v, x in zip(ins["args"], args):
            if x[0] == "P":
                self.note(st, "use", v, x, ins, fr)

    def note_wait(self, st, what, ins, fr):
        h = self.held(st)
        self.rec["waits"].setdefault((what, self.cls(h)), self.where(ins, fr))

    def typeid(self, name):
        return sum(ord(c) * (i + 1) for i, c in enumerate(name)) % 30000 + 1

    def simple(self, st, ins, fr):
        if ins["op"] == "landingpad":
            t = st.ghost.get(("exc",))
            st.env[ins["id"]] = ("A", FrozenDict({0: P(("ret", st.fresh("exc"))), 1: I(32, self.typeid(t))})) if t and t != "?" else ("U", "exc")
            return
        Interp.simple(self, st, ins, fr)

    def lockop(self, st, op, ptr, ins, fr):
        a = (ptr[1], ptr[2]) if ptr[0] == "P" else ("?", ins["l"])
        held = st.ghost.get(HELD)
        if not isinstance(held, tuple):
            held = ()
        nm = self.W.name(ins["args"][0], fr)
        key = (self.rec_id(), a)
        if nm or key not in self.W.names:
            self.W.names.setdefault(key, nm or "?")
        nm = self.W.names[key]
        if op == "lock":
            if a in held:
                self.rec["bad"].setdefault(("twice", nm), self.where(ins, fr))
            for h in self.cls(held):
                self.rec["order"].setdefault((h, nm), self.where(ins, fr))
            self.rec["takes"].add(nm)
            st.ghost[HELD] = held + (a,)
        else:
            if a not in held:
                self.rec["bad"].setdefault(("release", nm), self.where(ins, fr))
            else:
                i = len(held) - 1 - held[::-1].index(a)
                st.ghost[HELD] = held[:i] + held[i + 1:]
        return [Outcome(st, ("U", "void"))]

    def access_hook(self, st, kind, p, n, ins, fr):
        if ins["op"] in ("load", "store"):
            self.note(st, kind, ins["o"][0 if ins["op"] == "load" else 1], p, ins, fr)

    def note(self, st, kind, v, p, ins, fr):
        d = self.W.defs(fr.fn).get(v[1]) if v[0] == "v" else None
        g = d["g"] if d is not None and d["op"] == "getelementptr" else v if v[0] == "gep" else None
        if g is not None and g[0] == "gep" and g[4].startswith("[") and g[1][0] == "v":
            # the first element of an array member
            d = self.W.defs(fr.fn).get(g[1][1])
            g = d["g"] if d is not None and d["op"] == "getelementptr" else None
        if v[0] == "g":
            nm = self.prog.globals[v[1]]["dem"] if v[1] in self.prog.globals else None
        elif g is None or g[0] != "gep" or g[3] or not g[4].startswith("%"):
            return
        else:
            nm = self.W.gepname(g)
        if nm is None:
            return
        if p[0] == "P" and (p[1][0] in ("heap", "alloca") or p[1] == ("arg", "a0") and self.structor(fr)):
            return      # an object no other thread knows yet, or any more
        self.rec["acc"].setdefault((nm, kind, self.cls(self.held(st))), self.where(ins, fr))

    def structor(self, fr):
        while fr.up is not None:
            fr = fr.up
        fn = fr.fn
        if not fn.cls:
            return False
        c = fn.cls.split("<")[0]
        return fn.src.split("<")[0] in (c, "~" + c)

    def loop(self, fn, fr, h, st, outs):
        s0 = st.copy()
        n = len(outs)
        try:
            return Interp.loop(self, fn, fr, h, st, outs)
        except TooBig:
            del outs[n:]
            return self.coarse_loop(fn, fr, h, s0, outs)

    def coarse_loop(self, fn, fr, h, st, outs):
        """everything an iteration may change is unknown; the locks held are not forgotten"""
        body = fn.loops[h]
        live = fn.live[h] | {i["id"] for i in fn.blocks[h] if i["op"] == "phi"}
        hdr = st
        hdr.env = {k: v for k, v in hdr.env.items() if k in live}
        tag = hdr.fresh("cl@%s.%d" % (fr.ctx, h))
        anyv, anyo = set(), set()
        while True:
            souts = []
            exits, backs = self.region(fn, fr, body, h, hdr.copy(), souts, h)
            ch = False
            for b in backs:
                for e in list(hdr.env):
                    if e in anyv or e not in b.env or b.env[e] == hdr.env[e]:
                        continue
                    v = hdr.env[e]
                    nm = "%s:e%s" % (tag, e)
                    hdr.env[e] = sym(nm, v[1]) if v[0] == "I" else P(("unk", nm)) if v[0] in ("P", "N") else ("C", "opq", nm) if v[0] == "C" else ("U", nm)
                    anyv.add(e)
                    ch = True
                for o, c in b.mem.items():
                    if o in anyo or o not in hdr.mem and o[0] in ("alloca", "heap") or hdr.mem.get(o) == c:
                        continue
                    if o not in hdr.mem and not c.log:
                        continue
                    hdr.mem[o] = Content(("sym", tag))
                    anyo.add(o)
                    ch = True
                g = {k: v for k, v in hdr.ghost.items() if k in b.ghost and b.ghost[k] == v}
                if g != hdr.ghost:
                    hdr.ghost = g
                    ch = True
                nl = {k: v for k, v in hdr.null.items() if b.null.get(k) == v}
                if nl != hdr.null:
                    hdr.null = nl
                    ch = True
            if not ch:
                outs.extend(souts)
                return exits


# ------------------------------------------------------------------ the primitives
def primitive(r, p, key, nargs, want):
    """what Mutex::lock etc. do to the object they wrap, in each of its forms"""
    for fn in [f for f in p.bykey.get(key, []) if len(f.args) == nargs]:
        ops = []

        def m(name):
            def f(ip, st, a, ins, fr):
                st.event(name, a[0])
                s0 = st.copy()
                w = width_of(ins.get("ty") or "")
                f1 = st.facts.add_eq(ZERO)
                out = [(st, I(32, 0))]
                if name in ("pthread_mutex_lock", "pthread_mutex_unlock"):
                    s0.ghost[("failed",)] = True
                    out.append((s0, I(32, 22)))
                return out
            return f
        models = {n: m(n) for n in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "sem_post", "sem_wait", "sem_init", "sem_timedwait")}
        for n in ("Exception::Exception",):
            models[n] = lambda ip, st, a, ins, fr: [(st, ("U", "void"))]
        ip = Interp(p, models)
        st = State()
        o = ("arg", "this")
        st.null[o] = False
        args = [P(o)] + [sym("x%d" % k, 32) if fn.args[k].get("ty") != "ptr" else P(("arg", "p%d" % k)) for k in range(1, nargs)]
        outs = ip.run(fn, args, st)
        r.used(ip)
        if not outs:
            r.ob("%s: returns" % key, False, "no path returns", report.loc(fn))
        for x in outs:
            ev = [e for e in x.st.trace if e[0] != "LOOP"]
            bad = want(p, x, ev, ip, o)
            r.ob("%s: %s" % (key, want.__doc__), bad is None, bad or "", report.loc(fn))
        return
    raise build.AnalysisBroken("%s not found" % key)


def mutex_target(p, x, ip, o):
    """the pthread mutex the Mutex object works on in this state"""
    pm = ip.load(x.st, o, Lin(p.off("Mutex", "_pmutex")), 8, "ptr")
    null = x.st.isnull(pm)
    return P(o, Lin(p.off("Mutex", "_mutex"))) if null else pm if null is False else None


def w_lock(op):
    def want(p, x, ev, ip, o):
        t = mutex_target(p, x, ip, o)
        if t is None:
            return "works on a mutex without knowing whether it is the shared one"
        got = [e for e in ev if e[0].startswith("pthread_mutex_")]
        if got != [("pthread_mutex_" + op, t)]:
            return "does %s instead of %s of its mutex" % (got, op)
        if ("failed",) in x.st.ghost and x.kind != "throw":
            return "a failure is not reported"
        if ("failed",) not in x.st.ghost and x.kind != "ret":
            return "throws although it succeeded"
        return None
    want.__doc__ = "%ss its own mutex once" % op
    return want


def w_sem(op):
    def want(p, x, ev, ip, o):
        got = [e for e in ev if e[0].startswith("sem_")]
        if got != [(op, P(o, Lin(p.off("Semaphore", "_sem"))))]:
            return "does %s instead of %s of its semaphore" % (got, op)
        return None
    want.__doc__ = "does %s on its own semaphore once" % op
    return want


# ------------------------------------------------------------------ T01
def T01(r):
    r.rule("on every path out of a function, by return or by exception, the locks that are held are those held when it was entered; a helper that takes or releases a lock "
           "in one definite way is judged with its callers")
    r.rule("no lock is taken while the same lock is held, none is released that is not held")
    r.rule("the order in which locks are taken while others are held has no cycle; no function waits for another thread while it holds a lock")
    r.rule("Mutex and Semaphore operate on their own pthread object exactly once, and a failure is an exception")
    r.assume("pthread_mutex_lock and pthread_mutex_unlock do not fail on the mutexes of the gateway (Mutex::lock would throw)")
    r.assume("a function that is not entered does not change which mutex a pointer designates")
    r.assume("the ring buffer's pointers into the shared memory, which its constructor sets, are not null")
    pmap(r, KINDS, T01_kind)
    p = prog("gw:udp")
    primitive(r, p, "Mutex::lock", 1, w_lock("lock"))
    primitive(r, p, "Mutex::unlock", 1, w_lock("unlock"))
    primitive(r, p, "Semaphore::post", 1, w_sem("sem_post"))
    primitive(r, p, "Semaphore::wait", 1, w_sem("sem_wait"))
    primitive(r, p, "Semaphore::timedwait", 2, w_sem("sem_timedwait"))
    r.floor("functions that take or release locks", r.counts.get("functions that can reach a lock", 0), 500)


def T01_kind(r, kind):
    order = {}
    if True:
        W = Program(kind).all()
        r.count("functions that can reach a lock", len(W.order))
        r.units |= set(os.path.basename(u) for u in W.p.units)
        called = {m for c in W.calls.values() for m, _ in c}
        for n in W.order:
            rec, fn = W.records[n], W.p.fns[n]
            r.fns.add(fn.key)
            direct_ops = any(W.key(m) in (LOCK, UNLOCK) for m, _ in W.calls[n])
            if n in W.inline:
                r.count("helpers judged with their callers")
                continue
            bad = [(k, h) for k, h, v in rec["exits"] if h != ()]
            r.ob("%s: every path leaves the locks as it found them" % fn.key, not bad,
                 "; ".join("%s with %s" % ("a return" if k == "ret" else "an exception leaves it",
                                           "%s still held" % ", ".join(W.names.get((id(rec), a), "a lock") for a in h) if isinstance(h, tuple) else "a lock that " + h) for k, h in bad[:3]),
                 report.loc(fn))
            tw = [w for (b, nm), w in rec["bad"].items() if b == "twice"]
            rl = [(nm, w) for (b, nm), w in rec["bad"].items() if b == "release"]
            if direct_ops or tw or rl:
                r.ob("%s: takes no lock twice" % fn.key, not tw, "takes a lock it holds at %s" % tw[:1], report.loc(fn))
                r.ob("%s: releases only locks it holds" % fn.key, not rl, "releases %s" % rl[:1], report.loc(fn))
            if rec["takes"]:
                ws = [(k[0], w) for k, w in rec["waits"].items() if k[1]]
                r.ob("%s: waits for no thread while it holds a lock" % fn.key, not ws, "waits in %s" % ws[:1], report.loc(fn))
            for k, w in rec["order"].items():
                order.setdefault(k, (fn, w))
    # cycles
    nodes = {x for k in order for x in k}
    succ = {x: sorted(b for a, b in order if a == x) for x in nodes}

    def reaches(a, b, seen):
        if a == b:
            return [a]
        if a in seen:
            return None
        seen.add(a)
        for c in succ[a]:
            q = reaches(c, b, seen)
            if q:
                return [a] + q
        return None
    for (a, b), (fn, w) in sorted(order.items(), key=str):
        back = reaches(b, a, set())
        r.ob("%s is never held when %s is taken (the order is %s before %s)" % (b, a, a, b), back is None,
             "taken in the other order too: %s; here at %s" % (" -> ".join(back or []), w), report.loc(fn))


# ------------------------------------------------------------------ T02
# member (or class of members) -> the locks one of which is held, kinds of access
SHARED = [
    (r"Que::_(head|tail|cnt)", ("EventQue::_mutex", "PacketQue::_mutex"), ("store",), "the elements of a queue"),
    (r"QueElement::.*", ("EventQue::_mutex", "PacketQue::_mutex"), ("store", "load"), "the elements of a queue"),
    (r"ClientList::_(firstClient|endClient)", ("ClientList::_mutex",), ("store", "load"), "the list of clients"),
    (r"ClientList::_clientCnt", ("ClientList::_mutex",), ("store",), "the number of clients"),
    (r"Client::_(nextClient|prevClient)", ("ClientList::_mutex",), ("store",), "the list of clients"),
    (r"Forwarder::_headClient", ("Forwarder::_mutex",), ("store", "load"), "the clients of a forwarder"),
    (r"ForwarderElement::_next", ("Forwarder::_mutex",), ("store", "load"), "the clients of a forwarder"),
    (r"Network::(_ssl|_ctx|_session|_numOfInstance)", ("Network::_mutex",), ("store", "load"), "the TLS session"),
    (r"Network::(_busy|_sslValid)", ("Network::_mutex",), ("store",), "the TLS session"),
    (r"RingBuffer::(_start|_end|_buffer)", ("RingBuffer::_pmx",), ("store", "load"), "the shared log"),
    (r"Process::_rbdata", ("Process::_mt",), ("store", "load", "use"), "the line that is logged"),
    (r"MultiTaskProcess::_stopCount", ("MultiTaskProcess::_mutex",), ("store",), "the number of tasks that ended"),
]


def members(W, fn):
    """names of the members a function's instructions designate"""
    out = set()
    for b in fn.blocks:
        for i in b:
            g = i.get("g")
            if i["op"] == "getelementptr" and g[0] == "gep" and g[4].startswith("%"):
                out.add(W.gepname(g))
            for v in i.get("o", []):
                if isinstance(v, list) and v and v[0] == "g" and v[1] in W.p.globals:
                    out.add(W.p.globals[v[1]]["dem"])
    return out


UNPUBLISHED = ("ClientsPool",)      # its clients are in no list yet


def T02(r):
    r.rule("what several tasks share - the queues, the list of clients, the clients of a forwarder, the TLS session, the log - is only changed, and where a reader follows "
           "links or buffers only read, while the lock that belongs to it is held, by the function or by every caller of it")
    r.assume("constructors and destructors work on objects no other task uses; clients that are still in the pool are in no list")
    r.assume("the tests whether a queue is empty, and the steps from a client to the next, are allowed without the lock: elements are only appended, and the queue is tested again under the lock")
    pmap(r, KINDS, T02_kind)
    for x in SHARED:
        r.floor("accesses of " + x[0], r.counts.get("accesses of " + x[0], 0), 1)


def T02_kind(r, kind):
    if True:
        W = Program(kind).all()
        callers = {}
        for n, c in W.calls.items():
            for m, _ in c:
                callers.setdefault(m, set()).add(n)
        rx = [(re.compile(a + "$"), locks, kinds, what, a) for a, locks, kinds, what in SHARED]
        cand = []
        for n, fn in W.p.fns.items():
            if not fn.decl and n not in W.mutex and any(x[0].match(m) for x in rx for m in members(W, fn) if m):
                cand.append(n)
                W.analyse(n)

        def guarded(n, locks, seen):
            """is one of the locks held whenever n is called; else a chain of callers without"""
            if n in seen:
                return None
            seen = seen | {n}
            fn = W.p.fns[n]
            cs = callers.get(n)
            if not cs:
                return [fn.key]
            for c in sorted(cs):
                cf = W.p.fns[c]
                if cf.cls and cf.src.split("<")[0].lstrip("~") == cf.cls.split("<")[0]:
                    continue
                rec = W.analyse(c)
                for (m, held), at in rec["calls"].items():
                    if m == n and not set(held) & set(locks):
                        q = guarded(c, locks, seen)
                        if q:
                            return [fn.key] + q
            return None
        for n in sorted(cand):
            fn, rec = W.p.fns[n], W.records[n]
            r.fns.add(fn.key)
            if fn.cls in UNPUBLISHED:
                continue
            for x, locks, kinds, what, a in rx:
                accs = [(nm, k, held, at) for (nm, k, held), at in rec["acc"].items() if x.match(nm) and k in kinds]
                if not accs:
                    continue
                r.count("accesses of " + a, len(accs))
                bad = None
                open_ = [z for z in accs if not set(z[2]) & set(locks)]
                if open_:
                    q = guarded(n, locks, frozenset())
                    if q:
                        bad = "%s of %s at %s without %s (%s)" % (open_[0][1], open_[0][0], open_[0][3], " or ".join(locks), " called by ".join(q))
                r.ob("%s: %s are only touched under %s" % (fn.key, what, " or ".join(locks)), bad is None, bad or "", report.loc(fn))


REG = {"T01": T01, "T02": T02}
