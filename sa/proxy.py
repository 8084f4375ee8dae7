"""R05: the sessions the gateway has itself - those of the QoS -1 proxy and of the aggregator.  From a new proxy on, every sequence of checks, answers,
traffic and lost connections is followed until no new state is found; whether a timer is up is left open."""
import build
import gw
from gw import *
from oracle import *
from handlers import SN, transparent
from tasks import field
from report import loc
from conf import flag

ID = var(("sym", "idlen", 1, 150))
QOSM1PROXY_TYPE = 1
LOST = 3            # PINGREQs repeated before the connection counts as lost


class PW(World):
    def __init__(self):
        World.__init__(self)
        self.timers()
        self.ques()

    def timers(self):
        M = self.models
        key = lambda a: (a[0][1], a[0][2])

        def put(ip, st, k, v, ev):
            st.ghost[("tm",) + k] = v
            st.event("timer", k, ev)

        def start(ip, st, a, ins, fr):
            put(ip, st, key(a), "on", a[1][2])
            return [(st, ("U", "void"))]

        def stop(ip, st, a, ins, fr):
            put(ip, st, key(a), "off", None)
            return [(st, ("U", "void"))]

        def up(ip, st, a, ins, fr):
            k = ("tm",) + key(a)
            v = st.ghost.get(k)
            if v is None:
                st.event("misuse", "a timer that is in no state is asked", loc(fr.fn, ins, fr))
                return [(st, I(8, 0))]
            if v == "off":
                return [(st, I(8, 0))]
            for e in st.trace:
                if e[0] == "up" and e[1] == key(a):
                    return [(st, I(8, int(e[2])))]
            s0 = st.copy()
            s0.event("up", key(a), False)
            st.event("up", key(a), True)
            return [(s0, I(8, 0)), (st, I(8, 1))]
        M["Timer::start"], M["Timer::stop"], M["Timer::isTimeup"] = start, stop, up
        M["Timer::Timer"] = stop
        M["Mutex::Mutex"] = lambda ip, st, a, ins, fr: [(st, ("U", "void"))]
        M["Network::isSecure"] = lambda ip, st, a, ins, fr: [(st, I(8, st.ghost[("secure", a[0][1])]))] if ("secure", a[0][1]) in st.ghost else None

    def secure(self, st, c, yes):
        n = buf(st, "net:" + c)
        Interp(self.p).store(st, B(c), self.off("Client", "_network"), 8, n)
        st.ghost[("secure", n[1])] = int(yes)

    def ques(self):
        M = self.models
        gq = M["EventQue::post"]
        own = lambda st, a: ("eq", a[0][1])
        M["EventQue::EventQue"] = lambda ip, st, a, ins, fr: (st.ghost.__setitem__(own(st, a), ()), [(st, ("U", "void"))])[1]

        def post(ip, st, a, ins, fr):
            k = own(st, a)
            if a[0][0] == "P" and k in st.ghost:
                st.ghost[k] += (a[1],)
                return [(st, ("U", "void"))]
            return gq(ip, st, a, ins, fr)

        def size(ip, st, a, ins, fr):
            return [(st, I(32, len(st.ghost[own(st, a)])))] if own(st, a) in st.ghost else None

        def wait(ip, st, a, ins, fr):
            q = st.ghost.get(own(st, a))
            if q is None:
                return self.timedwait(ip, st, a, ins, fr)
            if not q:
                st.event("misuse", "it waits for an event that does not come", loc(fr.fn, ins, fr))
                return [Outcome(st, ("U", "exit"), "exit")]
            st.ghost[own(st, a)] = q[1:]
            return [(st, q[0])]
        M["EventQue::post"], M["EventQue::size"], M["EventQue::wait"], M["EventQue::timedwait"] = post, size, wait, wait

    def state(self):
        st = World.state(self)
        for c in ("pc", "ps"):
            self.client(st, c)
            n = heapbuf(st, "id:" + c, ID + 1)
            Interp(self.p).store(st, B(c), self.off("Client", "_clientId"), 8, n)
            st.ghost[("strof", n[1])] = (None, ZERO)
        return st


def status(W, st, c, v=None):
    if v is not None:
        Interp(W.p).store(st, B(c), W.off("Client", "_status"), 4, I(32, W.ST["Cstat_" + v]))
    x = Interp(W.p).load(st, B(c), W.off("Client", "_status"), 4, "i32")[2]
    return [k[6:] for k, n in W.ST.items() if x == const(n)][0] if not x.t else None


def fresh(r, W, st, name):
    """a new Proxy"""
    buf(st, name, W.p.types["Proxy"]["size"])
    st.mem[B(name)] = Content(("undef", 0))
    outs = call(r, W, W.p.fn("Proxy::Proxy"), [P(B(name)), P(B("gateway"))], st)
    if len(outs) != 1:
        raise build.AnalysisBroken("proxy: the constructor has %d ends" % len(outs))
    return outs[0].st


def call(r, W, fn, args, st):
    st = st.copy()
    st.trace = ()
    ip = W.interp()
    ip.no_nul = True
    outs = ip.run(fn, args, st)
    r.used(ip)
    r.count("paths", len(outs))
    good = []
    for o in outs:
        bad = [x for x in o.st.trace if x[0] == "misuse"]
        if r.ob("%s: it returns" % fn.key, o.kind == "ret" and not bad, "%s" % (bad[:1] or o.kind,), bad[0][2] if bad else loc(fn)):
            good.append(End(o, ip, W))
    return good


class End:
    def __init__(self, o, ip, W):
        self.st, self.val, self.ip, self.W = o.st, o.val, ip, W


def posts(o):
    return [x[1] for x in o.st.trace if x[0] == "post"]


def is_packet(o, x, client, want):
    if (x.que, x.type, x.client) != ("packetEventQue", o.W.E["EtClientRecv"], P(B(client))):
        return "%s for %s to %s" % (x.type, x.client, x.que)
    return check_packet(o, x, want)


def timers_of(st, obj):
    return {k[2]: v for k, v in st.ghost.items() if k[0] == "tm" and k[1] == B(obj)}


def concrete(W, st, obj):
    ip = Interp(W.p)
    out = []
    for path, off, bits, m in W.p.flat_fields("Proxy"):
        n = max(1, bits // 8)
        if m[4] == "ptr" or "imer." in path:
            continue
        out.append(str(ip.load(st, B(obj), Lin(off), n, "i%d" % (8 * n))))
    return tuple(out) + (tuple(sorted((str(k), v) for k, v in timers_of(st, obj).items())),)


def session(r, case):
    W = PW()
    W.check_models()
    p = W.p
    st = fresh(r, W, W.state(), "prx")
    check, recv, reset = (p.fn("Proxy::" + n) for n in ("checkConnection", "recv", "resetPingTimer"))
    pk = {}
    for n, ty, rc in (("accepted", "CONNACK", 0), ("rejected", "CONNACK", None), ("answer", "PINGRESP", None)):
        v, b, N, ll = W.sn_packet(st, SN[ty], "short", Lin(3 if rc == 0 or n == "rejected" else 2), name=n)
        if ty == "CONNACK":
            x = Interp(p).load(st, b[1], Lin(2), 1, "i8")[2]
            W.fact(st, x, "eq" if rc == 0 else "ne")
            if rc == 0:
                Interp(p).store(st, b[1], Lin(2), 1, I(8, 0))
        pk[n] = v
    me, cl = P(B("prx")), P(B("pc"))
    # which timer is which: traffic starts the one for PINGREQs
    keep = [x[1][1] for o in call(r, W, reset, [me], st) for x in o.st.trace if x[0] == "timer" and x[2] is not None]
    if not r.ob("traffic starts the time after which the connection is tested anew", len(keep) == 1, "%d timers started" % len(keep), loc(reset)):
        return
    keep = keep[0]
    wid = ("utfless", None)
    duration = []

    def expect(S, Wt, n, on):
        """what the check must do: on(timer) tells whether it is up"""
        if S == "Disconnected" or S == "Connecting" and on("resp"):
            return "CONNECT"
        if S == "Active" and on("keep") or Wt and on("resp"):
            return "PINGREQ"
        return None

    todo = [(("Disconnected", False, 0), st)]
    status(W, st, "pc", "Disconnected")
    seen = set()
    resp = None
    steps = 0
    names = {"Disconnected": "disconnected", "Connecting": "connecting", "Active": "connected"}
    while todo:
        (S, Wt, n), st = todo.pop()
        k = (S, Wt, n, concrete(W, st, "prx"))
        if k in seen:
            continue
        seen.add(k)
        steps += 1
        if steps > 400:
            raise build.AnalysisBroken("proxy: too many states")
        lab = "while %s: " % names[S]
        # the periodic check
        for o in call(r, W, check, [me, cl], st):
            ups = {x[1][1]: x[2] for x in o.st.trace if x[0] == "up"}
            tm = timers_of(st, "prx")
            started = {x[1][1]: x[2] for x in o.st.trace if x[0] == "timer"}
            if resp is None and S == "Disconnected":
                c = [t for t in started if t != keep]
                if not r.ob("the answer to CONNECT is waited for a limited time", len(c) == 1 and started[c[0]] is not None, "timers %s" % (started,), loc(check)):
                    return
                resp = c[0]
            free = []

            def on(which):
                t = keep if which == "keep" else resp
                if tm.get(t) != "on":
                    return False
                if t in ups:
                    return ups[t]
                free.append(t)
                return guess.get(t, False)
            wants = set()
            for g in range(4):
                guess = {keep: bool(g & 1), resp: bool(g & 2)}
                wants.add(expect(S, Wt, n, on))
            if not r.ob(lab + "whether the time is over is asked", len(wants) == 1, "what is right depends on it: %s" % (wants,), loc(check)):
                continue
            want = wants.pop()
            got = posts(o)
            if want is None:
                r.ob(lab + "nothing is sent before its time", not got, "%d packets" % len(got), loc(check))
                r.ob(lab + "the state is kept", status(W, o.st, "pc") == S, "%s" % status(W, o.st, "pc"), loc(check))
                todo.append(((S, Wt, n), o.st))
                continue
            if not r.ob(lab + "%s is sent when it is time" % want, len(got) == 1, "%d packets" % len(got), loc(check)):
                continue
            if want == "CONNECT":
                d = []
                bad = is_packet(o, got[0], "pc", ("sn", SN["CONNECT"], (("any", 1, d0), N1(1), ("any", 2, d), ("s", ("heap", "id:pc", 0), ZERO, ID))))
                r.ob(lab + "CONNECT has the client's id", not bad, "%s" % bad, loc(check))
                r.ob(lab + "CONNECT announces no will", d0 and not d0[0].t and not d0[0].c & ~4, "flags %s" % (d0,), loc(check))
                if not bad:
                    duration.append(d[0].c if not d[0].t else 0)
                r.ob(lab + "CONNECT has a keep-alive time", not bad and not d[0].t and d[0].c > 0, "%s" % (d,), loc(check))
                r.ob(lab + "it is connecting from now on", status(W, o.st, "pc") == "Connecting", "%s" % status(W, o.st, "pc"), loc(check))
                t = started.get(resp)
                r.ob(lab + "the answer to CONNECT is waited for at most a minute", t is not None and not t.t and 0 < t.c <= 60000, "%s ms" % t, loc(check))
                todo.append((("Connecting", Wt, n), o.st))
                r.count("CONNECT")
            else:
                bad = is_packet(o, got[0], "pc", ("sn", SN["PINGREQ"], ()))
                r.ob(lab + "PINGREQ has no id", not bad, "%s" % bad, loc(check))
                t = started.get(resp)
                r.ob(lab + "PINGRESP is waited for at most a minute", t is not None and not t.t and 0 < t.c <= 60000, "%s ms" % t, loc(check))
                t = started.get(keep)
                r.ob(lab + "the time for the next PINGREQ starts with this one", t is not None, "", loc(check))
                S2 = "Disconnected" if n + 1 > LOST else S
                r.ob(lab + ("the connection is given up after %d PINGREQs without answer" % (LOST + 1) if n + 1 > LOST else "a PINGREQ does not end the connection"), status(W, o.st, "pc") == S2, "%s after %d" % (status(W, o.st, "pc"), n + 1), loc(check))
                if status(W, o.st, "pc") == S2:
                    todo.append(((S2, True, n + 1), o.st))
                r.count("PINGREQ")
        # what may happen in between
        def event(name, fn, args, S2, W2, n2, st, ends=True):
            for o in call(r, W, fn, args, st):
                r.ob(lab + "%s is not answered" % name, not posts(o), "%d packets" % len(posts(o)), loc(fn))
                r.ob(lab + "%s leaves the client's state alone" % name, status(W, o.st, "pc") == S2, "%s" % status(W, o.st, "pc"), loc(fn))
                started = {x[1][1]: x[2] for x in o.st.trace if x[0] == "timer"}
                if name in ("CONNACK", "PINGRESP", "traffic"):
                    t = started.get(keep)
                    r.ob("after %s the time for the next PINGREQ starts anew" % name, t is not None and not t.t and t.c > 0, "%s" % started, loc(fn))
                    if t is not None and not t.t and duration:
                        r.ob("PINGREQ is sent before the broker ends the session", t.c <= 1500 * min(duration), "after %d ms with a keep-alive time of %d s" % (t.c, min(duration)), loc(fn))
                todo.append(((S2, W2, n2), o.st))
        if S == "Connecting":
            s = st.copy()
            status(W, s, "pc", "Active")
            event("CONNACK", recv, [me, pk["accepted"], cl], "Active", False, 0, s)
            s = st.copy()
            status(W, s, "pc", "Disconnected")
            event("a refusal", recv, [me, pk["rejected"], cl], "Disconnected", Wt, n, s)
        if S == "Active":
            event("PINGRESP", recv, [me, pk["answer"], cl], "Active", False, 0, st)
            event("traffic", reset, [me], "Active", Wt, n, st)
        if S != "Disconnected":
            s = st.copy()
            status(W, s, "pc", "Disconnected")
            todo.append((("Disconnected", Wt, n), s))
    r.count("states", len(seen))


d0 = []


def kept(r, case):
    """packets kept for a proxy that is not connected"""
    n, = case
    W = PW()
    p = W.p
    st = fresh(r, W, W.state(), "prx")
    status(W, st, "pc", "Disconnected")
    me = P(B("prx"))
    save, recv = p.fn("Proxy::savePacket"), p.fn("Proxy::recv")
    pks = []
    for i in range(n):
        v, b, N, ll = W.sn_packet(st, SN["PUBLISH"], "short", name="p%d" % i)
        pks.append((("client", "client2")[i % 2], v, b, var(("sym", "snlen", 2, 65535))))
        outs = call(r, W, save, [me, P(B(pks[-1][0])), v], st)
        if len(outs) != 1:
            raise build.AnalysisBroken("proxy: a packet is kept in %d ways" % len(outs))
        st = outs[0].st
        r.ob("a packet that is kept is not sent before", not posts(outs[0]), "", loc(save))
        st.ghost[("freed", v[1])] = st.ghost[("freed", b[1])] = True       # its event is deleted by the caller
    v, b, N, ll = W.sn_packet(st, SN["CONNACK"], "short", Lin(3), name="ack")
    Interp(p).store(st, b[1], Lin(2), 1, I(8, 0))
    status(W, st, "pc", "Active")
    for o in call(r, W, recv, [me, v, P(B("pc"))], st):
        got = posts(o)
        if r.ob("every kept packet is handled once, when the proxy is connected", len(got) == n, "%d of %d" % (len(got), n), loc(recv)):
            for x, (c, v, b, N) in zip(got, pks):
                bad = is_packet(o, x, c, ("sncopy", b[1], N))
                r.ob("kept packets are handled as they came, in their order", not bad and x.sn != v, "%s" % bad, loc(save))
                r.count("kept packets")
    # refused: they stay
    status(W, st, "pc", "Disconnected")
    Interp(p).store(st, b[1], Lin(2), 1, I(8, 3))
    v2, b2, N, ll = W.sn_packet(st, SN["CONNACK"], "short", Lin(3), name="nack")
    Interp(p).store(st, b2[1], Lin(2), 1, I(8, 3))
    for o in call(r, W, recv, [me, v2, P(B("pc"))], st):
        r.ob("without connection kept packets stay", not posts(o), "%d" % len(posts(o)), loc(recv))


def one(r, W, fn, args, st):
    outs = call(r, W, fn, args, st)
    if len(outs) != 1:
        raise build.AnalysisBroken("%s has %d ends" % (fn.key, len(outs)))
    outs[0].st.trace = ()
    return outs[0].st


def wired(r, W, st, active, secure):
    """the adapters as they are made, with their clients; and which object holds the session of each client"""
    p = W.p
    ip = Interp(p)
    for o, t in (("qosm1", "QoSm1Proxy"), ("aggr", "Aggregater")):
        buf(st, o, p.types[t]["size"])
        st.mem[B(o)] = Content(("undef", 0))
        st = one(r, W, p.fn("%s::%s" % (t, t)), [P(B(o)), P(B("gateway"))], st)
        for c in "cs":
            W.client(st, o + c)
            n = heapbuf(st, "id:" + o + c, ID + 1)
            ip.store(st, B(o + c), W.off("Client", "_clientId"), 8, n)
            st.ghost[("strof", n[1])] = (None, ZERO)
            ip.store(st, B(o + c), W.off("Client", "_clientType"), 4, I(32, W.CT["Ctype_Proxy" if o == "qosm1" else "Ctype_Aggregater"]))
            W.secure(st, o + c, c == "s")
            ip.store(st, B(o + c), W.off("Client", "_forwarder"), 8, NULL)
            st = one(r, W, p.fn("Adapter::setClient"), [P(B(o)), P(B(o + c)), I(8, int(c == "s"))], st)

    def switch(st, active, secure):
        for o, t in (("qosm1", "QoSm1Proxy"), ("aggr", "Aggregater")):
            for path, fo, bits, m in p.flat_fields(t):
                if path.split(".")[-1] == "_isActive":
                    ip.store(st, B(o), Lin(fo), 1, I(8, int(o in active)))
                if path.split(".")[-1] == "_isSecure":
                    ip.store(st, B(o), Lin(fo), 1, I(8, int(secure)))
            fo, sz, ty = field(p, "Adapter", "_isSecure")
            ip.store(st, B(o), fo, 1, I(8, int(secure)))
    fn = p.fn("Adapter::checkConnection")
    owner = {}
    for o in ("qosm1", "aggr"):
        for c in "cs":
            s = st.copy()
            switch(s, (o,), True)
            for c2 in "cs":
                status(W, s, o + c2, "Disconnected" if c2 == c else "Active")
            for e in call(r, W, fn, [P(B(o))], s):
                t = {x[1][0] for x in e.st.trace if x[0] == "timer" and x[2] is not None}
                if r.ob("a session that is disconnected is opened", len(t) == 1 and [x.client for x in posts(e)] == [P(B(o + c))], "of %s: %d timers, CONNECT of %s" % (o + c, len(t), [x.client for x in posts(e)]), loc(fn)):
                    owner[o + c] = t.pop()
    if len(owner) == 4:
        r.ob("each session has its own timers", len(set(owner.values())) == 4, "%s" % owner, loc(fn))
    switch(st, active, secure)
    for o in ("qosm1", "aggr"):
        for c in "cs":
            status(W, st, o + c, "Disconnected")
    return st, owner


def managed(r, case):
    active, secure = case
    W = PW()
    p = W.p
    st, session_of = wired(r, W, W.state(), active, secure)
    if len(session_of) != 4:
        return
    am = P(B("am"))
    fn = p.fn("AdapterManager::checkConnection")
    lab = "with %s%s: " % (" and ".join(active) or "no adapter", ", TLS" if secure else "")
    for o in call(r, W, fn, [am], st):
        got = sorted(x.client[1][1] if x.client[0] == "P" else "?" for x in posts(o))
        want = sorted(a + c for a in active for c in ("c", "s") if c == "c" or secure)
        r.ob(lab + "each session that is configured is opened, no other", got == want, "CONNECT of %s, should be of %s" % (got, want), loc(fn))
        r.count("sessions", len(got))
        owner = {}
        for x in o.st.trace:
            if x[0] == "timer" and x[2] is not None:
                owner.setdefault(x[1][0], 0)
        wantp = {session_of[c] for c in want}
        r.ob(lab + "each session has its own time", set(owner) == wantp, "%s" % (sorted(owner),), loc(fn))
    # whose connection a packet goes on
    fn = p.fn("AdapterManager::getClient")
    for t in sorted(W.CT):
        for sec in (0, 1):
            s = st.copy()
            ip = Interp(p)
            ip.store(s, B("client"), W.off("Client", "_clientType"), 4, I(32, W.CT[t]))
            W.secure(s, "client", sec)
            who = {"Ctype_QoS_1": "qosm1", "Ctype_Aggregated": "aggr"}.get(t)
            own = {"Ctype_Proxy": "qosm1", "Ctype_Aggregater": "aggr"}.get(t)
            for o in call(r, W, fn, [am, P(B("client"))], s):
                want = B(who + "cs"[sec]) if who else B("client")
                r.ob(lab + "a packet of a client of type %s goes on the right connection" % t[6:], o.val == P(want), "%s, should be %s" % (o.val, want), loc(fn))
                started = {x[1][0] for x in o.st.trace if x[0] == "timer" and x[2] is not None}
                a = who or own
                wt = {session_of[a + "cs"[sec]]} if a else set()
                r.ob(lab + "its traffic postpones the PINGREQ of that connection only", started == wt, "%s" % (started,), loc(fn))
                r.count("connections chosen")
    fn = p.fn("AdapterManager::isAggregatedClient")
    for t in sorted(W.CT):
        if t == "Ctype_Aggregated":
            continue
        s = st.copy()
        Interp(p).store(s, B("client"), W.off("Client", "_clientType"), 4, I(32, W.CT[t]))
        for o in call(r, W, fn, [am, P(B("client"))], s):
            v = flag(o.ip, o.st, o.val)
            want = int("aggr" in active and t in ("Ctype_Normal", "Ctype_Forwarded"))
            r.ob(lab + "clients of type %s are aggregated exactly if that is configured" % t[6:], v == const(want), "%s" % (v,), loc(fn))
    # packets for the adapters' clients
    fn = p.fn("Adapter::send")
    for a in ("qosm1", "aggr"):
        for c in ("c", "s"):
            s = st.copy()
            v, b, N, ll = W.sn_packet(s, SN["PINGRESP"], "short", Lin(2), name="answer")
            status(W, s, a + c, "Active")
            for o in call(r, W, fn, [P(B(a)), v, P(B(a + c))], s):
                started = {x[1][0] for x in o.st.trace if x[0] == "timer"}
                want = {session_of[a + c]} if c == "c" or secure else set()
                r.ob(lab + "an answer reaches the session it is for", started == want, "%s" % (started,), loc(fn))
            # a packet kept by it
            s = st.copy()
            v, b, N, ll = W.sn_packet(s, SN["PUBLISH"], "short", name="kept")
            W.secure(s, "client", c == "s")
            ack, b2, _, _ = W.sn_packet(s, SN["CONNACK"], "short", Lin(3), name="ack")
            Interp(p).store(s, b2[1], Lin(2), 1, I(8, 0))
            for o in call(r, W, p.fn("Adapter::savePacket"), [P(B(a)), P(B("client")), v], s):
                for c2 in ("c", "s") if secure else ("c",):
                    for o2 in call(r, W, fn, [P(B(a)), ack, P(B(a + c2))], o.st):
                        r.ob(lab + "a kept packet waits for the session of its client", len(posts(o2)) == int(c == c2), "%d packets after CONNACK of %s" % (len(posts(o2)), a + c2), loc(p.fn("Adapter::savePacket")))


def clock(r, case):
    """a timer, whatever the clock shows"""
    later, own, again = case
    p = prog("gw:udp")
    W = World()
    for n in [k for k in W.models if k.startswith("Timer::")]:
        del W.models[n]
    times = []

    def now(ip, st, a, ins, fr):
        k = len([x for x in st.trace if x[0] == "time"])
        s, u = var(("sym", "sec%d" % k, 1, 1 << 34)), var(("sym", "usec%d" % k, 0, 999999))
        ip.access(st, "store", a[0], const(16), ins, fr)
        ip.store(st, a[0][1], a[0][2], 8, I(64, s))
        ip.store(st, a[0][1], a[0][2] + 8, 8, I(64, u))
        st.event("time", s, u)
        return [(st, I(32, 0))]
    W.models["gettimeofday"] = now
    st = State()
    buf(st, "timer", p.types["Timer"]["size"])
    st.mem[B("timer")] = Content(("undef", 0))
    me = P(B("timer"))
    start, stop = p.fn("Timer::start"), p.fn("Timer::stop")
    ups = {len(f.args): f for f in p.bykey.get("Timer::isTimeup", ())}
    if set(ups) != {1, 2}:
        raise build.AnalysisBroken("Timer::isTimeup takes %s arguments" % sorted(ups))
    up = ups[2 if own else 1]
    ms = var(("sym", "msecs", 0, (1 << 32) - 1))
    ask = lambda s: run(up, [me] + ([I(32, ms)] if own else []), s)

    def run(fn, args, s):
        ip = W.interp()
        ip.no_nul = True
        outs = ip.run(fn, args, s.copy())
        r.used(ip)
        r.count("paths", len(outs))
        if len(outs) < 1 or any(o.kind != "ret" for o in outs):
            r.ob("%s: it returns" % fn.key, False, "", loc(fn))
        return [End(o, ip, W) for o in outs if o.kind == "ret"]

    def never(s, what):
        for o in ask(s):
            r.ob("%s is not up" % what, flag(o.ip, o.st, o.val) == ZERO, "%s" % (flag(o.ip, o.st, o.val),), loc(up))
    st = run(p.fn("Timer::Timer"), [me], st)[0].st
    never(st, "a timer that was never started")
    s = st
    if again:
        s = run(start, [me, I(32, var(("sym", "before", 0, (1 << 32) - 1)))], s)[0].st
    first = len([x for x in s.trace if x[0] == "time"])
    s = run(start, [me, I(32, ms if not own else var(("sym", "other", 0, (1 << 32) - 1)))], s)[0].st
    never(run(stop, [me], s)[0].st, "a timer that was stopped")
    t0 = [x for x in s.trace if x[0] == "time"][first:]
    if not r.ob("a timer starts at the present time", len(t0) == 1, "the clock is read %d times" % len(t0), loc(start)):
        return
    # the second clock reading: later in its second or earlier
    n = len([x for x in s.trace if x[0] == "time"])
    u0, u1 = t0[0][2], var(("sym", "usec%d" % n, 0, 999999))
    s.facts = s.facts.add_ge(u1 - u0 if later else u0 - u1 - 1)
    for o in ask(s):
        t1 = [x for x in o.st.trace if x[0] == "time"][n:]
        if not r.ob("a timer is compared with the present time", len(t1) == 1, "the clock is read %d times" % len(t1), loc(up)):
            continue
        past = (t1[0][1] - t0[0][1]).scale(1000000) + t1[0][2] - t0[0][2]
        for k, s2 in o.ip.split(o.st.copy(), o.ip.tocond(o.val)):
            f = s2.facts
            r.count("timers")
            if k:
                r.ob("a timer is not up before its time", f.entails(past - ms.scale(1000)), "", loc(up))
            else:
                r.ob("a timer is up when its time has passed", f.entails(ms.scale(1000) + 2000 - past), "", loc(up))


def tick(r, case):
    active, secure = case
    W = PW()
    p = W.p
    st, _ = wired(r, W, W.state(), active, secure)
    transparent(W, st)
    fn = p.fn("PacketHandleTask::run")
    lab = "with %s%s: " % (" and ".join(active) or "no adapter", ", TLS" if secure else "")
    W.the_event = W.event(st, "EtTimeout")
    ip = W.interp()
    outs = ip.run(fn, [P(B("task"))], st)
    r.used(ip)
    for o in outs:
        got = sorted(x.client[1][1] for x in posts(o) if x.que == "packetEventQue" and x.client[0] == "P")
        want = sorted(a + c for a in active for c in ("c", "s") if c == "c" or secure)
        r.ob(lab + "the sessions are looked after while nothing else is to do", got == want, "CONNECT of %s, should be of %s" % (got, want), loc(fn))
        r.count("ticks")


PARTS = [("clock", l, o, a) for l in (False, True) for o in (False, True) for a in (False, True)] + [("session",), ("kept", 0), ("kept", 1), ("kept", 3)] + [(n, a, s) for n in ("managed", "tick") for a in ((), ("qosm1",), ("aggr",), ("qosm1", "aggr")) for s in (False, True)] + [("found",)] + [("setup", a, f, q, s) for a in (False, True) for f in (False, True) for q in (False, True) for s in (False, True)]


PLUS = "_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EE"


def literal(ip, st, v):
    """the bytes a C string pointer points to, or None"""
    out = b""
    while len(out) < 200:
        x = ip.load(st, v[1], v[2] + len(out), 1, "i8")
        if x[0] != "I" or x[2].t:
            return None
        if not x[2].c & 255:
            return out.decode("latin1")
        out += bytes([x[2].c & 255])
    return None


def spelled(W):
    """strings remember what they were put together from"""
    M = W.models

    def parts(ip, st, v):
        if v[0] != "P":
            return None
        if v[1] == B("gwname") and v[2] == ZERO:
            return ("<name>",)
        s = st.ghost.get(("strof", v[1]))
        if s and s[0] is not None and v[2] == ZERO:
            return st.ghost.get(("parts", s[0], s[1]))
        t = literal(ip, st, v) if v[1][0] == "g" else None
        return None if t is None else (t,)

    def whole(ip, st, S):
        return st.ghost.get(("parts", S[1], S[2])) if S[0] == "P" else None

    def put(st, S, x):
        if S[0] == "P":
            st.ghost[("parts", S[1], S[2])] = x

    def ctor(ip, st, a, ins, fr):
        x = parts(ip, st, a[1])
        out = m_str_ctor_c(ip, st, a, ins, fr)
        put(st, a[0], x)
        return out

    def copy(ip, st, a, ins, fr):
        x = whole(ip, st, a[1])
        out = m_str_ctor_copy(ip, st, a, ins, fr)
        put(st, a[0], x)
        return out

    def plus(n):
        c = [k.startswith("PK") for k in n]

        def f(ip, st, a, ins, fr):
            x = [(parts if k else whole)(ip, st, v) for k, v in zip(c, a[1:])]
            out = m_str_havoc(ip, st, a, ins, fr)
            put(st, a[0], x[0] + x[1] if None not in x else None)
            return out
        return f

    def append(ip, st, a, ins, fr):
        x, y = whole(ip, st, a[0]), parts(ip, st, a[1])
        out = m_str_havoc(ip, st, a, ins, fr)
        put(st, a[0], x + y if None not in (x, y) else None)
        return out
    for n in (("OS8_", "S9_"), ("OS8_", "PKS5_"), ("RKS8_", "PKS5_"), ("RKS8_", "SA_"), ("OS8_", "RKS8_"), ("RKS8_", "OS8_"), ("PKS5_", "RKS8_"), ("PKS5_", "OS8_")):
        M[PLUS + "".join(n)] = plus(n)
    M[gw.STR + "C1EPKcRKS3_"] = M[gw.STR + "C2EPKcRKS3_"] = ctor
    M[gw.STR + "C1ERKS4_"] = copy
    M[gw.STR + "pLEPKc"] = M[gw.STR + "6appendEPKc"] = append
    return parts


def setup(r, case):
    """the manager is made and initialized"""
    aggr, fwd, qos, secure = case
    W = PW()
    p = W.p
    parts = spelled(W)
    M = W.models
    st = W.state()
    name = heapbuf(st, "gwname", var(("sym", "gwnamelen", 1, 100)))

    def create(ip, st, a, ins, fr):
        n = len([e for e in st.trace if e[0] == "new client"])
        c = "made%d" % n
        s = a[2]
        idp = ip.load(st, s[1], s[2], 8, "ptr") if s[0] == "P" else NULL
        sec = a[4][2]
        out = []
        if st.ghost.get("full") and n == st.ghost["full"] - 1:
            st.event("new client", None, None, None, None)
            return [(st, NULL)]
        W.client(st, c)
        for k, s2 in (ip.split(st, ip.tocond(a[4])) if sec.t else [(bool(sec.c), st)]):
            i = heapbuf(s2, "id:" + c, ID + 1)
            ip.store(s2, B(c), W.off("Client", "_clientId"), 8, i)
            s2.ghost[("strof", i[1])] = (None, ZERO)
            W.secure(s2, c, k)
            status(W, s2, c, "Disconnected")
            ip.store(s2, B(c), W.off("Client", "_forwarder"), 8, NULL)
            s2.event("new client", c, k, bool(s2.isnull(a[1])), (idp[0] == "P", parts(ip, s2, idp)))
            out.append((s2, P(B(c))))
        return out
    for f in p.bykey["ClientList::createClient"]:
        M[f.name] = create

    def noted(what):
        def f(ip, st, a, ins, fr):
            st.event(what, a[0], *a[1:])
            return [(st, ("U", "void"))]
        return f
    M["ClientList::setClientList"] = noted("clients file")
    M["ForwarderList::initialize"] = noted("forwarders")
    M["ForwarderList::ForwarderList"] = noted("forwarder list")
    M["Gateway::hasSecureConnection"] = lambda ip, st, a, ins, fr: [(st, I(8, int(secure)))]
    buf(st, "mgr", p.types["AdapterManager"]["size"])
    st.mem[B("mgr")] = Content(("undef", 0))
    st = one(r, W, p.fn("AdapterManager::AdapterManager"), [P(B("mgr")), P(B("gateway"))], st)
    Interp(p).store(st, B("gateway"), W.off("Gateway", "_adapterManager"), 8, P(B("mgr")))
    fn = p.fn("AdapterManager::initialize")
    on = lambda x: I(8, int(x))
    args = [P(B("mgr")), name, on(aggr), on(fwd), on(qos)]
    kinds = ["Aggregater"] * 2 * aggr + ["Proxy"] * 2 * qos
    what = [x for x, y in zip(("aggregator", "forwarders", "QoS -1 proxy"), (aggr, fwd, qos)) if y]
    lab = "initialized with %s%s: " % (", ".join(what) or "nothing", ", TLS" if secure else "")
    for o in call(r, W, fn, args, st):
        ev = [e for e in o.st.trace if e[0] == "new client"]
        names = [e[1] for e in ev]
        types = {x: [k[6:] for k, n in W.CT.items() if const(n) == o.ip.load(o.st, B(x), W.off("Client", "_clientType"), 4, "i32")[2]] for x in names}
        r.ob(lab + "each adapter has its two clients", sorted(sum(types.values(), [])) == sorted(kinds), "%s" % types, loc(fn))
        for t in set(kinds):
            k = sorted(e[2] for e in ev if types[e[1]] == [t])
            r.ob(lab + "one client of an adapter is for TLS, one is not", k == [False, True], "of %s: %s" % (t, k), loc(fn))
        r.ob(lab + "a client of an adapter has no address", all(e[3] for e in ev), "%s" % (ev,), loc(fn))
        r.ob(lab + "a client of an adapter has a name", all(e[4][0] for e in ev), "%s" % (ev,), loc(fn))
        ids = [e[4][1] for e in ev]
        if None not in ids:
            r.ob(lab + "the clients of the adapters have names of their own", len({"".join(x) for x in ids}) == len(ids), "%s" % ids, loc(fn))
            r.ob(lab + "the name of a client of an adapter tells the gateway", all(x and "<name>" in x for x in ids), "%s" % ids, loc(fn))
            r.count("names", len(ids))
        r.ob(lab + "the clients of the QoS -1 proxy are read", len([e for e in o.st.trace if e[0] == "clients file" and e[2] == I(32, QOSM1PROXY_TYPE)]) == int(qos), "%s" % [e for e in o.st.trace if e[0] == "clients file"], loc(fn))
        r.ob(lab + "forwarders are known if there are some", len([e for e in o.st.trace if e[0] == "forwarders"]) == int(fwd), "", loc(fn))
        s = o.st
        want = sorted(e[1] for e in ev if secure or not e[2])
        fn2 = p.fn("AdapterManager::checkConnection")
        for o2 in call(r, W, fn2, [P(B("mgr"))], s):
            got = sorted(x.client[1][1] for x in posts(o2) if x.client[0] == "P")
            r.ob(lab + "the sessions of the adapters that are on are opened", got == want, "CONNECT of %s, should be %s" % (got, want), loc(fn2))
        fn2 = p.fn("AdapterManager::isAggregaterActive")
        for o2 in call(r, W, fn2, [P(B("mgr"))], s):
            r.ob(lab + "aggregation is on if it is asked for", o2.val[0] == "I" and o2.val[2] == const(int(aggr)), "%s" % (o2.val,), loc(fn2))
        r.count("managers")
    # no room for the clients of an adapter
    for n in range(1, len(kinds) + 1):
        s = st.copy()
        s.trace = ()
        s.ghost["full"] = n
        ip = W.interp()
        ip.no_nul = True
        for o in ip.run(fn, args, s):
            r.ob(lab + "no room for a client of an adapter is an error", o.kind == "throw", "%s" % o.kind, loc(fn))
            r.count("full")
        r.used(ip)


def found(r, case):
    """a QoS -1 client is known by its address, others are not"""
    W = PW()
    p = W.p
    M = W.models
    st = W.state()
    buf(st, "addr")
    for f in p.bykey["ClientList::getClient"]:
        def byaddr(ip, st, a, ins, fr):
            st.event("asked", a[1])
            return [(st, P(B(st.ghost["who"])) if st.ghost["who"] else NULL)]
        M[f.name] = byaddr
    for t, n in list(W.CT.items()) + [(None, None)]:
        for sec in (False, True):
            s = st.copy()
            s.ghost["who"] = "client" if t else None
            if t:
                Interp(p).store(s, B("client"), W.off("Client", "_clientType"), 4, I(32, n))
                W.secure(s, "client", sec)
                i = heapbuf(s, "id:client", ID + 1)
                Interp(p).store(s, B("client"), W.off("Client", "_clientId"), 8, i)
            q = t == "Ctype_QoS_1"
            lab = "the address of %s: " % ("a client of type " + t[6:] if t else "nobody")
            key = lambda k, *ty: [f for f in p.bykey[k] if "SensorNetAddress" in f.name][0]
            for k, want in (("Adapter::getClient", P(B("client")) if q else NULL), ("Adapter::getClientId", i if q else NULL), ("Adapter::isSecure", sec and q)):
                fn = key(k)
                for o in call(r, W, fn, [P(B("qosm1")), P(B("addr"))], s):
                    asked = [e[1] for e in o.st.trace if e[0] == "asked"]
                    r.ob(lab + "it is looked up", asked and all(x == P(B("addr")) for x in asked), "%s" % asked, loc(fn))
                    r.ob(lab + "%s finds QoS -1 clients only" % fn.key, o.val[0] == "I" and o.val[2] == const(int(want)) if k == "Adapter::isSecure" else o.val == want, "%s, should be %s" % (o.val, want), loc(fn))
                    r.count("look-ups")


def R05(r):
    r.rule("a session of the gateway is connected when it is not, tested when it has been idle and given up after unanswered tests; its timers are its own; what was kept for it is handled in order")
    prog("gw:udp")

    def run(q, k):
        q.case_name = " ".join(str(x) for x in k)
        {"setup": setup, "found": found, "session": session, "kept": kept, "managed": managed, "tick": tick, "clock": clock}[k[0]](q, k[1:])
    pmap(r, PARTS, run)
    for c, n in (("states", 10), ("CONNECT", 3), ("PINGREQ", 4), ("kept packets", 4), ("sessions", 8), ("connections chosen", 20), ("ticks", 8), ("timers", 16), ("managers", 16), ("full", 16), ("look-ups", 42)):
        r.floor(c, r.counts.get(c, 0), n)


REG = {"R05": R05}
