"""T03: the gateway stops.  Every function between the signal and the end of the process is interpreted: the signal handler, the main
loop, the stop events, each task's loop and frame (with run() returning or throwing), and the wait for the tasks."""
import build
from gw import *
from oracle import pmap
import tasks

TASKS = ["PacketHandleTask", "ClientRecvTask", "ClientSendTask", "BrokerRecvTask", "BrokerSendTask"]
QUEUES = ["packetEventQue", "brokerSendQue", "clientSendQue"]
SIGINT = 2


class ExcInterp(Interp):
    """with the types of exceptions"""

    def call(self, st, callee, args, ins, fr):
        name = callee[1] if callee[0] == "g" else callee[1][1] if callee[0] == "P" and callee[1][0] == "g" else None
        if name == "__cxa_throw":
            st.ghost[("exc",)] = args[1][1][1] if args[1][0] == "P" and args[1][1][0] == "g" else "?"
            st.ghost[("excobj",)] = args[0]
            return [Outcome(st, ("U", "exc"), "throw")]
        if name and name.startswith("llvm.eh.typeid.for"):
            return [Outcome(st, I(32, typeid(args[0][1][1]) if args[0][0] == "P" else 0))]
        if name in ("__cxa_begin_catch",):
            return [Outcome(st, args[0])]
        if name in ("__cxa_end_catch",):
            return [Outcome(st, ("U", "void"))]
        return Interp.call(self, st, callee, args, ins, fr)

    def simple(self, st, ins, fr):
        if ins["op"] == "landingpad":
            t = st.ghost.get(("exc",))
            if t and t != "?":
                st.env[ins["id"]] = ("A", FrozenDict({0: st.ghost.get(("excobj",), P(B("exception"))), 1: I(32, typeid(t))}))
                return
        Interp.simple(self, st, ins, fr)


def typeid(name):
    return sum(ord(c) * (i + 1) for i, c in enumerate(name)) % 30000 + 1


EXC = "_ZTIN8MQTTSNGW9ExceptionE"


class SW(World):
    def __init__(self):
        World.__init__(self)
        M = self.models
        for k in ("Process::putLog", "Exception::writeMessage", "LightIndicator::redLight", "LightIndicator::greenLight", "LightIndicator::blueLight", "LightIndicator::allLightOff",
                  "Process::currentDateTime", "currentDateTime", "sleep", "usleep"):
            M[k] = m_nop
        self.running = None

    def check_models(self):
        pass

    def state(self):
        st = World.state(self)
        self.ip0 = ip = Interp(self.p)
        for n in ("mtp", "exception"):
            buf(st, n)
        return st

    def make(self, models):
        ip = ExcInterp(self.p, models=dict(self.models, **models), budget=400000)
        ip.unroll = 8
        return ip

    def has(self, key):
        if not self.p.bykey.get(key):
            raise build.AnalysisBroken("%s is not found" % key)
        return key


def ev(name):
    def m(ip, st, a, ins, fr):
        st.event(name)
        return [(st, ("U", "void"))]
    return m


def gateway_run(r, W):
    """the stop events"""
    p = W.p
    st = W.state()
    off = W.off
    seen = {}

    def running(ip, s, a, ins, fr):
        s.event("running", ip.load(s, B("gateway"), off("Gateway", "_stopFlg"), 1, "i8")[2])
        return [(s, ("U", "void"))]

    def wait(ip, s, a, ins, fr):
        s.event("wait", ip.load(s, B("gateway"), off("Gateway", "_stopFlg"), 1, "i8")[2])
        return [(s, ("U", "void"))]
    ip = W.make({W.has("MultiTaskProcess::run"): running, W.has("MultiTaskProcess::waitStop"): wait, W.has("EventQue::post"): W.post})
    fn = p.fn("Gateway::run")
    outs = ip.run(fn, [P(B("gateway"))], st)
    r.used(ip)
    n = 0
    for o in outs:
        if o.kind != "ret":
            r.ob("Gateway::run returns", False, "a path ends with %s" % o.kind, loc(fn))
            continue
        n += 1
        ks = [x[0] for x in o.st.trace if x[0] in ("running", "post", "wait")]
        posts = [x[1] for x in o.st.trace if x[0] == "post"]
        r.ob("Gateway::run runs the tasks, then posts the stop events, then waits for the tasks", ks[:1] == ["running"] and ks[-1:] == ["wait"] and ks.count("running") == 1 and ks.count("wait") == 1,
             "it does %s" % ks, loc(fn))
        for q in QUEUES:
            k = [x for x in posts if x.que == q]
            r.ob("Gateway::run posts one stop event to %s" % q, len(k) == 1 and k[0].type == W.E["EtStop"], "it posts %s" % k, loc(fn))
        r.ob("Gateway::run posts nothing else", all(x.que in QUEUES for x in posts), "%s" % [x.que for x in posts], loc(fn))
        ids = [x.ev for x in posts]
        r.ob("the stop events are separate objects, each task deletes its own", len(set(ids)) == len(ids), "%s" % ids, loc(fn))
        fl = [x[1] for x in o.st.trace if x[0] in ("running", "wait")]
        r.ob("the gateway is stopping when it waits, and not while it runs", len(fl) == 2 and fl[0] == ZERO and fl[1] == const(1), "_stopFlg is %s" % fl, loc(fn))
    r.floor("paths of Gateway::run", n, 1)


def frames(r, W):
    """EXECRUN of each task"""
    p = W.p
    for t in TASKS:
        def run(ip, s, a, ins, fr):
            x = s.copy()
            x.event("thrown")
            x.ghost[("exc",)] = EXC
            return [Outcome(s, ("U", "void")), Outcome(x, ("U", "exc"), "throw")]
        if not p.bykey.get("Exception::writeMessage") or EXC not in p.globals:
            raise build.AnalysisBroken("the gateway's Exception is not found")
        ip = W.make({W.has(t + "::run"): run, W.has("MultiTaskProcess::threadStopped"): ev("stopped"), W.has("MultiTaskProcess::abort"): ev("abort"), "Thread::getTaskName": lambda ip, s, a, i, fr: [(s, P(B("name")))]})
        fn = p.fn(t + "::EXECRUN")
        st = W.state()
        buf(st, "name")
        outs = ip.run(fn, [P(B("task"))], st)
        r.used(ip)
        kinds = set()
        for o in outs:
            ks = [x[0] for x in o.st.trace if x[0] in ("thrown", "stopped", "abort")]
            thrown = "thrown" in ks
            kinds.add(thrown)
            w = "%s throws" % t if thrown else "%s ends" % t
            r.ob("%s: its thread ends normally" % w, o.kind == "ret", "EXECRUN ends with %s" % o.kind, loc(fn))
            r.ob("%s: it is counted as stopped, once" % w, ks.count("stopped") == 1 and ks[-1] == "stopped", "%s" % ks, loc(fn))
            if thrown:
                r.ob("%s: the whole gateway is stopped" % w, "abort" in ks, "MultiTaskProcess::abort is not called", loc(fn))
            else:
                r.ob("%s: it does not abort" % w, "abort" not in ks, "", loc(fn))
        r.floor("outcomes of %s::EXECRUN" % t, len(kinds), 2)


def main_loop(r, W):
    """MultiTaskProcess::run, waitStop, threadStopped, attach, abort, the signal handler"""
    p = W.p
    n = p.off("MultiTaskProcess", "_threadCount"), p.off("MultiTaskProcess", "_stopCount"), p.off("MultiTaskProcess", "_threadList")
    top = 5

    def start(ip, s, a, ins, fr):
        s.event("start", a[0][1])
        return [(s, I(32, 0))]

    def signal(ip, s, a, ins, fr):
        k = s.ghost.get(("sigs",), 0)
        if k == 3:
            return [Outcome(s, ("U", "exit"), "exit")]
        s.ghost[("sigs",)] = k + 1
        x = s.copy()
        x.event("SIGINT")
        s.event("nosig")
        v = var(("sym", "sig%d" % k, -(1 << 31), (1 << 31) - 1))
        f = s.facts.add_ne(v - SIGINT)
        s.facts = f
        return [(s, I(32, v)), (x, I(32, SIGINT))]
    fn = p.fn("MultiTaskProcess::run")
    paths = 0
    for k in range(top + 1):
        st = W.state()
        ip = W.make({W.has("Process::checkSignal"): signal, W.has("Thread::start"): start})
        ip.unroll = top + 6
        ip.store(st, B("mtp"), Lin(n[0]), 4, I(32, k))
        for i in range(k):
            buf(st, "thread%d" % i)
            ip.store(st, B("mtp"), Lin(n[2] + 8 * i), 8, P(B("thread%d" % i)))
        for o in ip.run(fn, [P(B("mtp"))], st):
            paths += 1
            tr = [x for x in o.st.trace if x[0] in ("start", "SIGINT", "nosig")]
            ks = [x[0] for x in tr]
            started = sorted(str(x[1]) for x in tr if x[0] == "start")
            r.ob("every attached task is started once (%d)" % k, started == sorted(str(B("thread%d" % i)) for i in range(k)), "started: %s" % started, loc(fn))
            r.ob("the tasks are started before the signal is awaited", ks[:k] == ["start"] * k, "%s" % ks, loc(fn))
            if o.kind == "ret":
                r.ob("the gateway runs until SIGINT", ks[-1:] == ["SIGINT"] and ks.count("SIGINT") == 1, "it returns after %s" % ks, loc(fn))
            else:
                r.ob("the gateway stops after SIGINT", o.kind == "exit" and "SIGINT" not in ks, "%s: %s" % (o.kind, ks), loc(fn))
        r.used(ip)
    r.floor("paths of MultiTaskProcess::run", paths, 12)

    # waitStop
    fn = p.fn("MultiTaskProcess::waitStop")
    done = 0
    for k in range(top):
        for j in range(k + 1):
            st = W.state()
            ip = W.make({})

            def nap(ip, s, a, ins, fr):
                c = s.ghost.get(("naps",), 0)
                s.ghost[("naps",)] = c + 1
                x = ip.load(s, B("mtp"), Lin(n[1]), 4, "i32")[2]
                if x.c >= k:
                    if ("late",) in s.ghost:
                        return [Outcome(s, ("U", "exit"), "sleeps")]
                    s.ghost[("late",)] = True
                    return [(s, I(32, 0))]
                if c > k + 1:
                    return [Outcome(s, ("U", "exit"), "exit")]
                y = s.copy()                      # one more task ends while it sleeps, or none
                ip.store(y, B("mtp"), Lin(n[1]), 4, I(32, x.c + 1))
                return [(s, I(32, 0)), (y, I(32, 0))]
            ip.models["sleep"] = ip.models["usleep"] = ip.models["nanosleep"] = nap
            ip.store(st, B("mtp"), Lin(n[0]), 4, I(32, k))
            ip.store(st, B("mtp"), Lin(n[1]), 4, I(32, j))
            for o in ip.run(fn, [P(B("mtp"))], st):
                x = ip.load(o.st, B("mtp"), Lin(n[1]), 4, "i32")[2]
                if o.kind == "exit" and x.c < k:
                    continue                      # still waiting
                r.ob("waitStop returns when all tasks have ended, and not before", o.kind == "ret" and x == const(k), "%s of %d tasks have ended, %s" % (x, k, o.kind), loc(fn))
                done += 1
            r.used(ip)

    r.floor("ends of waitStop", done, 15)

    # threadStopped, attach
    fn = p.fn("MultiTaskProcess::threadStopped")
    st = W.state()
    ip = W.make({"Mutex::lock": m_nop, "Mutex::unlock": m_nop})
    c = var(("sym", "stopped", 0, 100))
    ip.store(st, B("mtp"), Lin(n[1]), 4, I(32, c))
    for o in ip.run(fn, [P(B("mtp"))], st):
        x = ip.load(o.st, B("mtp"), Lin(n[1]), 4, "i32")[2]
        r.ob("threadStopped counts one task", o.kind == "ret" and o.st.facts.entails_eq(x - c - 1), "from %s to %s" % (c, x), loc(fn))
    fn = p.fn("MultiTaskProcess::attach")
    for k in range(top):
        st = W.state()
        ip = W.make({"Mutex::lock": m_nop, "Mutex::unlock": m_nop})
        buf(st, "thread")
        ip.store(st, B("mtp"), Lin(n[0]), 4, I(32, k))
        old = [ip.load(st, B("mtp"), Lin(n[2] + 8 * i), 8, "ptr") for i in range(k)]
        for o in ip.run(fn, [P(B("mtp")), P(B("thread"))], st):
            x = ip.load(o.st, B("mtp"), Lin(n[0]), 4, "i32")[2]
            l = [ip.load(o.st, B("mtp"), Lin(n[2] + 8 * i), 8, "ptr") for i in range(k + 1)]
            r.ob("attach adds the task (%d)" % k, o.kind == "ret" and x == const(k + 1) and l == old + [P(B("thread"))], "%s: %s, %s" % (o.kind, x, l), loc(fn))

    # abort and the signal reach checkSignal
    g = p.fn("Process::checkSignal")
    for entry in ("MultiTaskProcess::abort",):
        fn = p.fn(entry)
        st = W.state()
        ip = W.make({})
        for o in ip.run(fn, [P(B("mtp"))] if fn.args else [], st):
            for o2 in ip.run(g, [P(B("mtp"))], o.st):
                r.ob("after abort every task sees SIGINT", o.kind == "ret" and o2.kind == "ret" and o2.val[0] == "I" and o2.val[2] == const(SIGINT), "%s" % (o2.val,), loc(fn))
        r.used(ip)
    handlers = set()

    found = []
    for f in p.fns.values():
        if f.decl:
            continue
        for b in f.blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and tuple(i["callee"]) == ("g", "signal"):
                    found.append((f, i))
    for f, i in found:
        sig, h = i["args"]
        if sig[0] == "i" and int(sig[-1]) == SIGINT and h[0] == "g":
            handlers.add(h[1])
    if not handlers:
        raise build.AnalysisBroken("no handler of SIGINT is installed")
    for h in sorted(handlers):
        fn = p.fns[h]
        st = W.state()
        ip = W.make({})
        for o in ip.run(fn, [I(32, SIGINT)], st):
            for o2 in ip.run(g, [P(B("mtp"))], o.st):
                r.ob("after SIGINT every task sees it", o.kind == "ret" and o2.kind == "ret" and o2.val[0] == "I" and o2.val[2] == const(SIGINT), "%s" % (o2.val,), loc(fn))
        r.used(ip)


class Only:
    """a report that keeps the obligations about the ends of the task loops"""

    def __init__(self, r):
        self.r = r
        self.prop = r.prop
        self.tier = r.tier

    def ob(self, key, ok, detail="", where=""):
        return self.r.ob("%s: %s" % (self.case_name.split()[0], key), ok, detail, where) if key.endswith(": the task goes on") else ok

    def __getattr__(self, k):
        return getattr(self.r, k)


LOOPS = [("recv", 0, "short", (12, 12), 0), ("recv", 1, "short", (0, 3), 0), ("recv", 0, "long", (5, 11), 0),
         ("client_send", "EtStop", 0, "short"), ("client_send", "EtClientSend", 0, "short"), ("client_send", "EtBroadcast", 0, "short"),
         ("broker_send", "EtStop", None, 0), ("broker_send", "EtBrokerSend", None, 0),
         ("broker_recv", 0, "both", 1, 13), ("broker_recv", 0, "both", 1, 3)]


def handle_task(r, W):
    """PacketHandleTask: a stop event ends it"""
    p = W.p
    fn = p.fn("PacketHandleTask::run")
    for et in ("EtStop", "EtTimeout"):
        st = W.state()
        e = W.event(st, et)

        def get(ip, s, a, ins, fr):
            q = W.que_name(a[0])
            if ("waited",) in s.ghost:
                return [Outcome(s, ("U", "exit"), "again")]
            s.ghost[("waited",)] = True
            s.event("from", q)
            return [(s, e)]
        ip = World.interp(W)
        ip.models.update({W.has("EventQue::timedwait"): get, W.has("EventQue::wait"): get, "Process::checkSignal": lambda ip, s, a, i, fr: [(s, I(32, 0))]})
        n = 0
        for o in ip.run(fn, [P(B("task"))], st):
            n += 1
            r.ob("PacketHandleTask waits for its own queue", [x[1] for x in o.st.trace if x[0] == "from"] == ["packetEventQue"], "", loc(fn))
            r.ob("PacketHandleTask: %s" % ("a stop event ends it" if et == "EtStop" else "it goes on"), o.kind == ("ret" if et == "EtStop" else "again"), "%s" % o.kind, loc(fn))
        r.floor("paths of PacketHandleTask::run at %s" % et, n, 1)
        r.used(ip)


def T03(r):
    r.rule("after SIGINT or the exception of a task every task's loop ends, every task is counted once, and the process ends after the last")
    W = SW()
    prog("gw:udp")
    parts = [gateway_run, frames, main_loop, handle_task]
    cases = [("part", k) for k in range(len(parts))] + LOOPS

    def one(q, k):
        q.case_name = " ".join(str(x) for x in k)
        if k[0] == "part":
            return parts[k[1]](q, W)
        f = getattr(tasks, k[0])
        only = Only(q)
        only.case_name = q.case_name
        f(only, tuple(tasks.MQTYPES[0] if x is None else x for x in k[1:]))
    pmap(r, cases, one)
    ends = [k for k in r.obl if k.endswith(": the task goes on")]
    r.floor("ends of the tasks' loops", len(ends), 20)


REG = {"T03": T03}
