"""F01, F02: the configuration.  The reader of parameters is interpreted on lines of unknown characters; the start of the gateway and the
readers of the client and topic lists are interpreted over texts (text.py); each path is compared with what the documents promise."""
import build
from gw import *
from oracle import pmap
from stop import ExcInterp, EXC
from tasks import field
from text import Texts, Part, T, show, bounds, equal
from report import loc

SPACES = (32, 9, 10, 11, 12, 13)


class Undecided(Exception):
    def __init__(self, L):
        self.L = L


def under(facts, spec):
    """spec(facts) for every way to decide what it asks: [(facts, result)]"""
    out, todo = [], [facts]
    while todo:
        f = todo.pop()
        try:
            out.append((f, spec(f)))
        except Undecided as u:
            todo += [g for g in (f.add_eq(u.L), f.add_ne(u.L)) if g is not None]
    return out


def is_zero(f, L):
    if f.entails_eq(L):
        return True
    if f.entails_ne(L):
        return False
    raise Undecided(L)


def fork(st, L):
    """[(state, is it zero)]"""
    out = []
    for g, v in ((st.facts.add_eq(L), True), (st.facts.add_ne(L), False)):
        if g is not None:
            s = st.copy()
            s.facts = g
            out.append((s, v))
    return out


def flag(ip, st, v):
    """a bool as 0 or 1; itself where it is undecided"""
    if v[0] in ("C", "I"):
        ts = {t for t, s in ip.split(st.copy(), ip.tocond(v))}
        if len(ts) == 1:
            return Lin(int(ts.pop()))
    return v[2] if v[0] == "I" else v


class Conf:
    def __init__(self, net="gw:udp"):
        self.p = prog(net)
        self.models = {}
        self.models.update(FREE)
        self.texts = Texts(self.models)
        M = self.models
        for k in ("Process::putLog", "currentDateTime", "Mutex::lock", "Mutex::unlock", "signal"):
            M[k] = m_nop

        def fopen(ip, st, a, ins, fr):
            name = self.texts.cstr(ip, st, a[0], ins, fr)
            s0 = st.copy()
            s0.event("fopen", name, None)
            o = B(st.fresh("FILE"))
            st.mem[o] = Content(("sym", 0))
            st.null[o] = False
            st.ghost[("open", o)] = True
            st.event("fopen", name, o)
            return [(s0, NULL), (st, P(o))]
        M["fopen"] = fopen

        def fclose(ip, st, a, ins, fr):
            if a[0][0] != "P" or not st.ghost.get(("open", a[0][1])):
                st.event("misuse", "fclose of a file that is not open", loc(fr.fn, ins, fr))
            else:
                st.ghost[("open", a[0][1])] = False
            return [(st, I(32, 0))]
        M["fclose"] = fclose

        def newexc(ip, st, a, ins, fr):
            return [(st, ("U", "void"))]
        M["Exception::Exception"] = newexc

    def fgets(self, lines, put):
        """put(ip, st, buffer, line)"""
        def m(ip, st, a, ins, fr):
            if a[2][0] != "P" or not st.ghost.get(("open", a[2][1])):
                st.event("misuse", "fgets of a file that is not open", loc(fr.fn, ins, fr))
                return [(st, NULL)]
            k = st.ghost.get(("line", a[2][1]), 0)
            ip.access(st, "store", a[0], a[1][2], ins, fr)
            if k >= len(lines):
                return [(st, NULL)]
            st.ghost[("line", a[2][1])] = k + 1
            st.event("line", k)
            put(ip, st, a[0], lines[k])
            return [(st, a[0])]
        self.models["fgets"] = m

    def run(self, r, fn, args, st, unroll=None, within=None, models=None, budget=4000000):
        mon = Monitor(r, fn.key)
        ip = ExcInterp(self.p, models=dict(self.models, **(models or {})), max_depth=40, max_states=4000, budget=budget)
        ip.merge_at = 4000
        if unroll:
            ip.unroll = unroll
            if within:
                ip.unroll_in = within
        ip.monitor = mon
        mon.ip = ip
        ip.on_access = mon.on_access
        ip.on_free = mon.on_free
        outs = ip.run(fn, args, st)
        r.used(ip)
        for o in outs:
            bad = [x for x in o.st.trace if x[0] == "misuse"]
            r.ob("%s: files and sockets are used rightly" % fn.key, not bad, "%s" % (bad[:1],), bad[0][2] if bad else loc(fn))
            left = [k for k, v in o.st.ghost.items() if k[0] == "open" and v]
            r.ob("%s: files are closed" % fn.key, not left, "", loc(fn))
            r.count("paths")
        return outs


# ------------------------------------------------------------------ the reader of parameters
PAR = "ab"


def precise(M):
    """functions of strings, character by character"""
    def char(ip, st, p, k):
        return ip.load(st, p[1], p[2] + k, 1, "i8")[2]

    def scan(ip, st, p, ins, fr):
        """[(state, length)]"""
        out, todo = [], [(st, 0)]
        while todo:
            s, k = todo.pop()
            if k > 200:
                raise build.AnalysisBroken("conf: a string without end")
            ip.access(s, "load", P(p[1], p[2] + k), const(1), ins, fr)
            for s2, z in fork(s, char(ip, s, p, k)):
                (out if z else todo).append((s2, k) if z else (s2, k + 1))
        return out

    def strlen(ip, st, a, ins, fr):
        if a[0][0] != "P":
            return None
        return [(s, I(64, n)) for s, n in scan(ip, st, a[0], ins, fr)]

    def strcpy(ip, st, a, ins, fr):
        out = []
        for s, n in scan(ip, st, a[1], ins, fr):
            cs = [char(ip, s, a[1], k) for k in range(n)]
            ip.access(s, "store", a[0], const(n + 1), ins, fr)
            for k, c in enumerate(cs):
                ip.store(s, a[0][1], a[0][2] + k, 1, I(8, c))
            ip.store(s, a[0][1], a[0][2] + n, 1, I(8, 0))
            out.append((s, a[0]))
        return out

    def strncpy(ip, st, a, ins, fr):
        if a[2][2].t:
            return None
        return memcpy(ip, st, a, ins, fr)

    def memcpy(ip, st, a, ins, fr):
        if a[2][2].t or a[0][0] != "P" or a[1][0] != "P":
            return None
        n = a[2][2].c
        ip.access(st, "load", a[1], const(n), ins, fr)
        ip.access(st, "store", a[0], const(n), ins, fr)
        cs = [char(ip, st, a[1], k) for k in range(n)]
        for k, c in enumerate(cs):
            ip.store(st, a[0][1], a[0][2] + k, 1, I(8, c))
        return [(st, a[0])]

    def compare(name, limit):
        def m(ip, st, a, ins, fr):
            n = 200
            if limit:
                if a[2][2].t:
                    raise build.AnalysisBroken("conf: %s of unknown length" % name)
                n = a[2][2].c
            out, todo = [], [(st, 0)]
            while todo:
                s, k = todo.pop()
                if k == n:
                    out.append((s, I(32, 0)))
                    continue
                for x in a[:2]:
                    ip.access(s, "load", P(x[1], x[2] + k), const(1), ins, fr)
                x, y = char(ip, s, a[0], k), char(ip, s, a[1], k)
                for s2, same in fork(s, x - y):
                    if not same:
                        s2.facts = s2.facts
                        v = var(("sym", s2.fresh(name), -255, 255))
                        s2.facts = s2.facts.add_ne(v)
                        out.append((s2, I(32, v)))
                        continue
                    for s3, z in ([(s2, False)] if name == "memcmp" else fork(s2, x)):
                        if z:
                            out.append((s3, I(32, 0)))
                        else:
                            todo.append((s3, k + 1))
            return out
        M[name] = m

    def isspace(ip, st, a, ins, fr):
        out, todo = [], [(st, 0)]
        c = a[0][2]
        while todo:
            s, k = todo.pop()
            if k == len(SPACES):
                out.append((s, I(32, 0)))
                continue
            for s2, same in fork(s, c - SPACES[k]):
                if same:
                    out.append((s2, I(32, 0x2000)))
                else:
                    todo.append((s2, k + 1))
        return out

    def find(back):
        def m(ip, st, a, ins, fr):
            out = []
            c = a[1][2]
            for s, n in scan(ip, st, a[0], ins, fr):
                todo = [(s, 0)]
                while todo:
                    s1, k = todo.pop()
                    if k > n:
                        out.append((s1, NULL))
                        continue
                    i = n - k if back else k
                    for s2, same in fork(s1, char(ip, s1, a[0], i) - c):
                        if same:
                            out.append((s2, P(a[0][1], a[0][2] + i)))
                        else:
                            todo.append((s2, k + 1))
            return out
        return m
    M["strlen"], M["strcpy"], M["isspace"], M["strchr"], M["strrchr"], M["strncpy"] = strlen, strcpy, isspace, find(False), find(True), strncpy
    M["memcpy"] = memcpy
    compare("strcmp", False)
    compare("strncmp", True)
    compare("memcmp", True)


BEFORE = ["", "#ab=q\n", "xy=ab\n", "ab\n", "abc=1\n", "a=2\n", "\n", "abcdefgh=1234567\n", "=ab\n"]


def get_param(r, case):
    before, n, end = case
    W = Conf()
    precise(W.models)
    p = W.p
    fn = p.fn("Process::getParam")
    st = State()
    ip = Interp(p)
    buf(st, "process", p.types["Process"]["size"])
    buf(st, "value", 128)
    buf(st, "parameter", len(PAR) + 1)
    for k, c in enumerate(PAR):
        ip.store(st, B("parameter"), const(k), 1, I(8, ord(c)))
    ip.store(st, B("parameter"), const(len(PAR)), 1, I(8, 0))
    for f, x in (("_configDir", "dir"), ("_configFile", "file")):
        W.texts.put(ip, st, P(B("process"), field(p, "Process", f)[0]), (Part(x),))
    line = []
    f = st.facts
    for k in range(n):
        c = var(("sym", "c%d" % k, 1, 127))
        f = f.add_ne(c - 10)
        line.append(c)
    if n:
        f = f.add_ne(line[0] - ord("#"))
    st.facts = f
    lines = ([[const(ord(c)) for c in before]] if before else []) + [line + ([const(10)] if end else [])]

    def put(ip, st, b, bytes):
        for k, c in enumerate(bytes):
            ip.store(st, b[1], b[2] + k, 1, I(8, c))
        ip.store(st, b[1], b[2] + len(bytes), 1, I(8, 0))
    W.fgets([x for x in lines if x], put)
    where = loc(fn)
    # what is between a string's end and the next '=' of old data must not matter: the buffers are unknown at first
    for o in W.run(r, fn, [P(B("process")), P(B("parameter")), P(B("value"))], st, 24):
        opened = [x for x in o.st.trace if x[0] == "fopen"]
        r.ob("the parameters are read from the configured file", len(opened) == 1 and opened[0][1] == (Part("dir"), Part("file")), "%s" % [show(x[1]) for x in opened], where)
        if opened and opened[0][2] is None:
            r.ob("a missing file is reported", o.kind == "throw" and o.st.ghost.get(("exc",)) == EXC, "ends with %s" % o.kind, where)
            continue
        if not r.ob("the look-up of a parameter returns", o.kind == "ret", "ends with %s" % o.kind, where):
            continue

        def spec(f):
            """the value (list of characters), or None"""
            eq = None
            for k, c in enumerate(line):
                if is_zero(f, c - ord("=")):
                    eq = k
                    break
            if eq != len(PAR) or not all(is_zero(f, line[k] - ord(PAR[k])) for k in range(len(PAR))):
                return None
            v = list(line[eq + 1:])
            blank = lambda c: any(is_zero(f, c - s) for s in SPACES)
            while v and blank(v[-1]):
                v.pop()
            while v and blank(v[0]):
                v.pop(0)
            return v
        for f, want in under(o.st.facts, spec):
            rc = o.val[2]
            if want is None:
                r.ob("a parameter that is not in the file is not found", f.entails_ne(rc), "returns %s" % rc, where)
                r.count("not found")
                continue
            r.count("found")
            if not r.ob("a parameter that is in the file is found", f.entails_eq(rc), "returns %s, line %d characters%s" % (rc, n, " and newline" if end else ""), where):
                continue
            got = [Interp(p).load(o.st, B("value"), const(k), 1, "i8")[2] for k in range(len(want) + 1)]
            ok = all(f.entails_eq(g - w) for g, w in zip(got, want + [ZERO]))
            r.ob("the value of a parameter is what follows '=', without blanks around", ok, "a value of %d characters in a line of %d%s" % (len(want), n, " and newline" if end else ""), where)


# ------------------------------------------------------------------ the start of the gateway
STRING = {"BrokerName": "brokerName", "BrokerPortNo": "port", "BrokerSecurePortNo": "portSecure", "CertKey": "certKey", "PrivateKey": "privateKey", "RootCApath": "rootCApath",
          "RootCAfile": "rootCAfile", "DtlsCertsKey": "gwCertskey", "DtlsPrivKey": "gwPrivatekey", "GatewayName": "gatewayName", "LoginID": "loginId", "Password": "password",
          "ClientsList": "clientListName", "RFCOMMAddress": "rfcommAddr"}
NUMBER = {"GatewayID": ("gatewayId", None, 1, 255), "MQTTVersion": ("mqttVersion", 4, 3, 5), "MaxInflightMsgs": ("maxInflightMsgs", 10, 1, 60), "KeepAlive": ("keepAlive", 900, 1, 65535),
          "MaxNumberOfClients": ("maxClients", None, 1, 1000)}
BOOL = {"ClientAuthentication": "clientAuthentication", "AggregatingGateway": "aggregatingGw", "Forwarder": "forwarder", "QoS-1": "qosMinus1", "PredefinedTopic": "predefinedTopic"}
NETPAR = {"MulticastIP": "s", "MulticastPortNo": (1, 65535), "GatewayPortNo": (1, 65535), "MulticastTTL": (1, 255)}
YES = ("YES", "yes", "Yes")
TYPES = {"TRANSPEARENT": 0, "QOSM1PROXY": 1, "AGGREGATER": 2, "FORWARDER": 3}


class Start(Conf):
    def __init__(self, conf, getopt=()):
        Conf.__init__(self)
        self.conf = conf
        p = self.p
        M = self.models
        tx = self.texts
        for k in ("NamedSemaphore::NamedSemaphore", "RingBuffer::reset", "Mutex::Mutex"):
            M[k] = m_nop
        M["_Znwm"] = self.new
        from stop import typeid

        def getparam(ip, st, a, ins, fr):
            name = "".join(tx.cstr(ip, st, a[1], ins, fr))
            st.event("asked", name)
            v = self.conf.get(name)
            if v is None:
                return [(st, I(32, -3))]
            tx.fill(ip, st, a[2][1], a[2][2], v)
            return [(st, I(32, 0))]
        M["Process::getParam"] = getparam

        def casecmp(ip, st, a, ins, fr):
            x, y = (tx.cstr(ip, st, v, ins, fr) for v in a[:2])
            low = lambda t: tuple(c.lower() if isinstance(c, str) else c for c in t)
            e = equal(low(x), low(y))
            if e is None:
                raise build.AnalysisBroken("the comparison of %s and %s" % (show(x), show(y)))
            return [(st, I(32, 0 if e else 1))]
        M["strcasecmp"] = casecmp

        def event(name, *args, **kw):
            def m(ip, st, a, ins, fr):
                out = []
                for rc in kw.get("results", (None,)):
                    s = st.copy() if len(kw.get("results", ())) > 1 else st
                    s.event(name, *[g(ip, s, a, ins, fr) for g in args], rc)
                    out.append((s, I(int(ins["ty"][1:]), rc) if rc is not None else ("U", "void")))
                return out
            return m
        c = lambda i: lambda ip, st, a, ins, fr: tx.cstr(ip, st, a[i], ins, fr) if a[i][0] == "P" and a[i] != NULL and a[i][0] != "N" else None
        raw = lambda i: lambda ip, st, a, ins, fr: a[i]
        M["RingBuffer::RingBuffer"] = event("ring", c(1))
        M["EventQue::setMaxSize"] = event("queue", raw(0), raw(1))
        M["ClientsPool::allocate"] = event("allocate", raw(1))
        M["ClientList::createList"] = event("list", c(1), raw(2), results=(0, 1))
        M["ClientList::readPredefinedList"] = event("predefined", c(1), raw(2), results=(0, 1))
        M["UDPPort::open"] = event("open", c(1), raw(2), raw(3), raw(4), results=(-1, 0))

        def create(ip, st, a, ins, fr):
            a = tuple(a)
            if len(a) == 4:
                a = a[:3] + (I(1, 0), I(1, 0), a[3])
            ptr = ip.load(st, a[2][1], a[2][2] + p.off("MQTTSNString", "cstring"), 8, "ptr")
            idt = tx.cstr(ip, st, ptr, ins, fr)
            s0 = st.copy()
            s0.event("create", a[1], idt, a[3], a[4], a[5], None)
            if not any(x[0] == "allocate" for x in st.trace):
                return [(s0, NULL)]
            o = B("client:" + show(idt))
            buf(st, o[1], p.types["Client"]["size"])
            st.event("create", a[1], idt, I(1, flag(ip, st, a[3])), I(1, flag(ip, st, a[4])), a[5], o)
            return [(s0, NULL), (st, P(o))]
        M["ClientList::createClient"] = create
        self.getopt = getopt

        def getopt_(ip, st, a, ins, fr):
            k = st.ghost.get(("getopt",), 0)
            if k >= len(getopt):
                return [(st, I(32, -1))]
            st.ghost[("getopt",)] = k + 1
            ip.store(st, ("g", "optarg"), ZERO, 8, tx.buffer(ip, st, getopt[k]))
            return [(st, I(32, ord("f")))]
        M["getopt"] = getopt_

    def new(self, ip, st, a, ins, fr):
        o = ("heap", st.fresh("new@%s" % fr.fn.key), 0)
        st.mem[o] = Content(("sym", 0))
        st.null[o] = False
        st.sizes[o] = a[0][2]
        return [(st, P(o))]

    def state(self):
        """the gateway as its constructor leaves it"""
        p, tx = self.p, self.texts
        st = State()
        buf(st, "gw", p.types["Gateway"]["size"])
        for k in ("Mutex::Mutex", "Semaphore::Semaphore", "Timer::Timer", "LightIndicator::LightIndicator", "Topics::Topics", "UDPPort::UDPPort", "MessageIdTable::MessageIdTable",
                  "AggregateTopicTable::AggregateTopicTable"):
            self.models[k] = m_nop
        ip = ExcInterp(p, models=self.models, max_depth=40, budget=400000)
        outs = [o for o in ip.run(p.fn("Gateway::Gateway"), [P(B("gw"))], st) if o.kind == "ret"]
        if len(outs) != 1:
            raise build.AnalysisBroken("the gateway's constructor has %d ends" % len(outs))
        st = outs[0].st
        st.trace = ()
        at = lambda o, t, f: ip.load(st, o, field(p, t, f)[0], 8, "ptr")[1]
        self.clist = at(B("gw"), "Gateway", "_clientList")
        am = at(B("gw"), "Gateway", "_adapterManager")
        self.adapters = {"qosm1": at(am, "AdapterManager", "_qosm1Proxy"), "aggr": at(am, "AdapterManager", "_aggregater")}
        return st

    def at(self, t, f):
        return field(self.p, t, f)[0]

    def param(self, st, f):
        off, n, ty = field(self.p, "GatewayParams", f)
        return Interp(self.p).load(st, B("gw"), self.at("Gateway", "_params") + off, n, ty)

    def text(self, st, v):
        """text of a char*, or None"""
        if v[0] == "N" or v[0] == "I" and v[2] == ZERO:
            return None
        ip = Interp(self.p)
        return self.texts.cstr(ip, st, v)


def config(**kw):
    """the configuration: texts by name"""
    c = {}
    for k in STRING:
        c[k] = (Part(k),)
    for k, (f, d, lo, hi) in NUMBER.items():
        c[k] = (Part(k, lo=lo, hi=hi),)
    for k, v in NETPAR.items():
        c[k] = (Part(k),) if v == "s" else (Part(k, lo=v[0], hi=v[1]),)
    c["PredefinedTopicList"] = (Part("PredefinedTopicList"),)
    return c


def start(r, case):
    """case: (missing parameters or None for all optional ones, booleans that are YES, how the others are given)"""
    missing, only, yes, spell, other = case
    c = config()
    for k in list(c):
        if missing is not None and k in missing or only is not None and k not in only and k not in ("GatewayID", "GatewayName"):
            del c[k]
    for b in BOOL:
        if b in yes:
            c[b] = T(spell)
        elif other is not None:
            c[b] = T(other)
    W = Start(c)
    p = W.p
    fn = p.fn("Gateway::initialize")
    st = W.state()
    buf(st, "argv")
    where = loc(fn)
    good = 0
    for o in W.run(r, fn, [P(B("gw")), I(32, 1), P(B("argv"))], st, 6):
        s = o.st
        ev = [x for x in s.trace if x[0] not in ("asked", "fopen", "line", "strdup")]
        of = lambda n: [x for x in ev if x[0] == n]
        failed = [x for x in ev if x[0] in ("list", "predefined") and x[-1] == 0 or x[0] == "open" and x[-1] == -1 or x[0] == "create" and x[-1] is None]
        if "GatewayID" not in c or "GatewayName" not in c:
            r.ob("without GatewayID or GatewayName the gateway does not start", o.kind == "throw" and s.ghost.get(("exc",)) == EXC, "ends with %s" % o.kind, where)
            continue
        pool = [x for x in ev if x[0] in ("create", "allocate", "list", "predefined")]
        if not r.ob("the clients are allocated before any is used", pool and pool[0][0] == "allocate" and len(of("allocate")) == 1, "%s" % [x[0] for x in pool], where):
            continue
        if failed:
            r.ob("%s: the gateway does not start" % {"list": "an unreadable client list", "predefined": "an unreadable topic list", "open": "a sensor network that can't be opened", "create": "too few clients for the adapters"}[failed[0][0]],
                 o.kind == "throw" and s.ghost.get(("exc",)) == EXC, "ends with %s" % o.kind, where)
            continue
        if not r.ob("with everything in place the gateway starts", o.kind == "ret", "ends with %s" % o.kind, where):
            continue
        good += 1
        r.count("starts")
        on = lambda b: b in yes
        # parameters
        for k, f in STRING.items():
            got = W.text(s, W.param(s, f))
            r.ob("parameter %s is taken over" % k, got == c.get(k), "%s is %s, should be %s" % (f, show(got), show(c.get(k))), where)
        got = W.text(s, W.param(s, "predefinedTopicFileName"))
        want = c.get("PredefinedTopicList") if on("PredefinedTopic") else None
        r.ob("parameter PredefinedTopicList is taken over", got == want, "is %s, should be %s" % (show(got), show(want)), where)
        for k, (f, d, lo, hi) in NUMBER.items():
            v = W.param(s, f)[2]
            if k in c:
                r.ob("parameter %s is taken over" % k, s.facts.entails_eq(v - W.texts.number(c[k], 32)), "%s is %s" % (f, v), where)
            elif d is not None:
                r.ob("without %s its default is %d" % (k, d), v == const(d), "%s is %s" % (f, v), where)
            else:
                r.ob("without %s it has a default" % k, not v.t and v.c > 0, "%s is %s" % (f, v), where)
        for k, f in BOOL.items():
            v = W.param(s, f)[2]
            r.ob("%s is on exactly if it is YES" % k, v == const(int(on(k))), "%s is %s" % (f, v), where)
        got = W.text(s, W.param(s, "configName"))
        r.ob("the name of the configuration file is kept", got == T("./gateway.conf"), "%s" % show(got), where)
        n, m = W.param(s, "maxClients")[2], W.param(s, "maxInflightMsgs")[2]
        a = of("allocate")[0][1][2]
        r.ob("as many clients are allocated as configured", s.facts.entails_eq(a - n), "%s of %s" % (a, n), where)
        q = of("queue")
        packet = P(B("gw"), W.at("Gateway", "_packetEventQue"))
        r.ob("the packet queue is limited", len(q) == 1 and q[0][1] == packet, "%s" % q, where)
        if q and not m.t:
            r.ob("the packet queue holds as many messages as all clients may have in flight", s.facts.entails_eq(q[0][2][2] - n.scale(m.c)), "%s" % (q[0][2],), where)
        # lists and adapters
        name = c["GatewayName"]
        auth = TYPES["AGGREGATER"] if on("AggregatingGateway") else TYPES["TRANSPEARENT"]
        want = [("list", TYPES["QOSM1PROXY"])] * on("QoS-1") + [("list", auth)] * on("ClientAuthentication")
        lists = [x for x in ev if x[0] == "list"]
        got = [(x[0], x[2][2].c) for x in lists if x[2][2].c != TYPES["FORWARDER"]]
        r.ob("QoS -1 clients and known clients are read from the list of clients, in this order, if configured", got == want, "%s, should be %s" % (got, want), where)
        got = [x[2][2].c for x in lists].count(TYPES["FORWARDER"])
        r.ob("forwarders are read from the list of clients if configured", got == int(on("Forwarder")), "%d times" % got, where)
        r.ob("clients are read from the list that is configured", all(x[1] == c.get("ClientsList") for x in lists), "%s" % [show(x[1]) for x in lists], where)
        pre = of("predefined")
        r.ob("predefined topics are read if configured", [(x[1], x[2][2]) for x in pre] == ([(c.get("PredefinedTopicList"), const(int(on("AggregatingGateway"))))] if on("PredefinedTopic") else []),
             "%s" % [(show(x[1]), x[2]) for x in pre], where)
        if pre and lists:
            r.ob("predefined topics are read after the clients", ev.index(pre[0]) > max(ev.index(x) for x in lists), "", where)
        a = Interp(p).load(s, W.clist, field(p, "ClientList", "_authorize")[0], 1, "i8")[2]
        r.ob("unknown clients are refused exactly with ClientAuthentication", a == const(int(on("ClientAuthentication"))), "_authorize is %s" % a, where)
        made = of("create")
        n = 0
        secure = all(k in c for k in ("CertKey", "PrivateKey", "RootCApath", "RootCAfile"))
        for b, o2, t, suffix, ct in (("AggregatingGateway", "aggr", "Aggregater", "_Aggregater", "Ctype_Aggregater"), ("QoS-1", "qosm1", "QoSm1Proxy", "_QoS-1", "Ctype_Proxy")):
            g = {}
            for path, fo, bits, m in p.flat_fields(t):
                if path == "_isActive":
                    g[path] = Interp(p).load(s, W.adapters[o2], Lin(fo), max(1, bits // 8), "ptr" if m[4] == "ptr" else "i8")
            for path in ("_client", "_clientSecure", "_isSecure"):
                fo, sz, ty = field(p, "Adapter", path)
                g[path] = Interp(p).load(s, W.adapters[o2], fo, sz, ty)
            r.ob("%s: the adapter is active exactly if configured" % b, g["_isActive"][2] == const(int(on(b))), "%s" % (g["_isActive"],), where)
            if not on(b):
                r.ob("%s: otherwise it has no clients" % b, g["_client"] == NULL and g["_clientSecure"] == NULL, "", where)
                continue
            for fld, sec, idt in (("_client", 0, name + T(suffix)), ("_clientSecure", 1, name + T(suffix + "-S"))):
                x = [x for x in made if x[-1] is not None and P(x[-1]) == g[fld]]
                n += 1
                what = "%s: the adapter's %s client" % (b, "secure" if sec else "plain")
                if r.ob(what + " is created under the gateway's name", len(x) == 1 and x[0][2] == idt, "%s" % [show(y[2]) for y in x], where):
                    y = x[0]
                    r.ob(what + " connects %s TLS" % ("with" if sec else "without"), y[4][2] == const(sec), "%s" % (y[4],), where)
                    r.ob(what + " has no address and is stable", y[1] == NULL and y[3][2] == const(1) and y[5][2] == const(0), "%s" % (y,), where)
                    k = Interp(p).load(s, x[0][-1], field(p, "Client", "_clientType")[0], 4, "i32")[2]
                    r.ob(what + " is one of the adapter", k == const(p.enums[ct]), "_clientType is %s" % k, where)
            r.ob("%s: the adapter uses TLS exactly if certificates are configured" % b, g["_isSecure"][2] == const(int(secure)), "%s" % (g["_isSecure"],), where)
        r.ob("no other clients are created", len(made) == n, "%s" % [show(x[2]) for x in made], where)
        # the sensor network
        op = of("open")
        if r.ob("the sensor network is opened once", len(op) == 1, "%d" % len(op), where):
            x = op[0]
            r.ob("the sensor network has the configured multicast address", x[1] == c.get("MulticastIP", ()), "%s" % show(x[1]), where)
            for i, k, d in ((2, "MulticastPortNo", 0), (3, "GatewayPortNo", 0), (4, "MulticastTTL", 1)):
                w = W.texts.number(c[k], 32) if k in c else const(d)
                r.ob("the sensor network has the configured %s" % k, s.facts.entails_eq(x[i][2] - w), "%s" % (x[i],), where)
            r.ob("the sensor network is opened after all clients and topics are known", ev.index(x) == len(ev) - 1 or not [y for y in ev[ev.index(x):] if y[0] in ("list", "predefined", "create")], "", where)
    if "GatewayID" in c and "GatewayName" in c:
        r.floor("starts", good, 1)


def gateway_id(r, case):
    lo, hi = case
    c = config()
    c["GatewayID"] = (Part("GatewayID", lo=lo, hi=hi),)
    W = Start(c)
    fn = W.p.fn("Gateway::initialize")
    st = W.state()
    buf(st, "argv")
    for o in W.run(r, fn, [P(B("gw")), I(32, 1), P(B("argv"))], st, 6):
        r.ob("a GatewayID outside 1..255 is refused", o.kind == "throw" and o.st.ghost.get(("exc",)) == EXC, "%d..%d: ends with %s" % (lo, hi, o.kind), loc(fn))


DIRS = {(): ("./", "gateway.conf"), ("F",): ("./", "F"), ("D", "/", "F"): ("D/", "F"), ("D", "/", "E", "/", "F"): ("D/E/", "F"), ("/", "F"): ("/", "F"), (".", "/", "F"): ("./", "F")}


def options(r, case):
    arg, mem = case
    t = lambda xs: tuple(Part(x) if x in "DEF" else x for x in xs)
    c = config()
    if mem:
        c["ShearedMemory"] = T(mem)
    W = Start(c, (t(arg),) if arg else ())
    p = W.p
    fn = p.fn("Process::initialize")
    st = W.state()
    buf(st, "argv")
    wd, wf = DIRS[arg]
    wd, wf = t(wd), (t(wf) if len(wf) == 1 else T(wf))
    where = loc(fn)
    for o in W.run(r, fn, [P(B("gw")), I(32, 3), P(B("argv"))], st, 6):
        if not r.ob("the options are read", o.kind == "ret", "ends with %s" % o.kind, where):
            continue
        d, f = (W.texts.get(o.st, P(B("gw"), W.at("Process", x))) for x in ("_configDir", "_configFile"))
        r.ob("the configuration file is the one given with -f, else gateway.conf", (d, f) == (wd, wf), "%s and %s, should be %s and %s" % (show(d), show(f), show(wd), show(wf)), where)
        ask = [x for x in o.st.trace if x[0] == "asked"]
        ring = [x for x in o.st.trace if x[0] == "ring"]
        r.ob("the shared log is the one of the directory of the configuration", len(ring) == 1 and ring[0][1] == wd, "%s" % [show(x[1]) for x in ring], where)
        v = Interp(p).load(o.st, B("gw"), W.at("Process", "_log"), 4, "i32")[2]
        if mem:
            r.ob("the log goes to shared memory exactly with ShearedMemory=YES", v == const(int(mem.upper() == "YES")), "_log is %s" % v, where)


ALL = list(config()) + []
STARTS = [(None, None, frozenset(), "YES", None), (None, frozenset(), frozenset(), "YES", None), (None, frozenset(), frozenset(BOOL), "YES", None)] + \
    [(frozenset([k]), None, frozenset(["PredefinedTopic"]), "YES", "NO") for k in ALL] + \
    [(None, frozenset([k]), frozenset(), "YES", "no") for k in ALL if k not in ("GatewayID", "GatewayName")] + \
    [(None, None, frozenset(b for i, b in enumerate(BOOL) if n >> i & 1), YES[n % 3], (None, "NO", "YESS", "Y")[n % 4]) for n in range(32)]
PARTS1 = [(get_param, (b, n, e)) for b in BEFORE for n in (range(0, 8) if not b else (2, 3, 4)) for e in (0, 1) if n or e] + \
    [(start, x) for x in STARTS] + [(gateway_id, x) for x in ((0, 0), (256, 256), (257, 511), (512, 1 << 30))] + [(options, (a, m)) for a in DIRS for m in (None, "YES", "yes", "NO")]


def F01(r):
    r.rule("a parameter has the value the configuration file gives it, or its default; the gateway starts exactly if its configuration can be used, with the lists, adapters and clients it asks for, in the order they depend on each other")
    prog("gw:udp")

    def one(q, k):
        q.case_name = "%s %s" % (k[0].__name__, k[1])
        k[0](q, k[1])
    pmap(r, PARTS1, one)
    r.floor("parameters found", r.counts.get("found", 0), 4)
    r.floor("parameters not found", r.counts.get("not found", 0), 4)
    r.floor("starts", r.counts.get("starts", 0), len(STARTS) - 4)


# ------------------------------------------------------------------ the lists of clients, forwarders and topics
class Lists(Conf):
    def __init__(self, lines):
        Conf.__init__(self)
        p, tx = self.p, self.texts
        M = self.models
        self.fgets(lines, lambda ip, st, b, t: tx.fill(ip, st, b[1], b[2], t))
        self.addr = [field(p, "SensorNetAddress", f) for f in ("_IpAddr", "_portNo")]

        def client_id(ip, st, a, ins, fr):
            if a[0] != "P":
                return None
            x = ip.load(st, a[1], a[2] + p.off("MQTTSNString", "cstring"), 8, "ptr")
            if x[0] == "P" and st.ghost.get(("freed", x[1])):
                st.event("misuse", "an id that was freed", loc(fr.fn, ins, fr))
            return tx.cstr(ip, st, x, ins, fr)

        def address(ip, st, a):
            if a[0] != "P":
                return None
            return tuple(ip.load(st, a[1], a[2] + f[0], f[1], f[2])[2] for f in self.addr)

        def create(ip, st, a, ins, fr):
            a = tuple(a)
            if len(a) == 4:
                a = a[:3] + (I(1, 0), I(1, 0), a[3])
            st.event("client", address(ip, st, a[1]), client_id(ip, st, a[2], ins, fr), flag(ip, st, a[3]), flag(ip, st, a[4]), a[5][2])
            s0 = st.copy()
            buf(st, "client")
            return [(s0, NULL), (st, P(B("client")))]
        M["ClientList::createClient"] = create

        def forwarder(ip, st, a, ins, fr):
            st.event("forwarder", address(ip, st, a[1]), client_id(ip, st, a[2], ins, fr))
            buf(st, "forwarder")
            return [(st, P(B("forwarder")))]
        M["ForwarderList::addForwarder"] = forwarder

        def topic(ip, st, a, ins, fr):
            st.event("topic", client_id(ip, st, a[1], ins, fr), tx.get(st, a[2]), a[3][2], flag(ip, st, a[4]))
            s0 = st.copy()
            buf(st, "client")
            return [(s0, NULL), (st, P(B("client")))]
        M["ClientList::createPredefinedTopic"] = topic

        def inet(ip, st, t):
            if len(t) == 1 and isinstance(t[0], Part) and not t[0].name.startswith("bad"):
                return var(("sym", "address:" + t[0].name, 0, 0xfffffffe))
            return Lin(0xffffffff)

        def inet_addr(ip, st, a, ins, fr):
            return [(st, I(32, inet(ip, st, tx.cstr(ip, st, a[0], ins, fr))))]
        M["inet_addr"] = inet_addr

        def inet_pton(at, family):
            def m(ip, st, a, ins, fr):
                v = inet(ip, st, tx.cstr(ip, st, a[at], ins, fr))
                if not v.t:
                    return [(st, I(32, 0))]
                ip.access(st, "store", a[at + 1], const(4), ins, fr)
                ip.store(st, a[at + 1][1], a[at + 1][2], 4, I(32, v))
                return [(st, I(32, 1))]
            return m
        M["inet_pton"], M["inet_aton"] = inet_pton(1, True), inet_pton(0, False)

    def state(self):
        p = self.p
        st = State()
        ip = Interp(p)
        for n, t in (("gw", "Gateway"), ("clist", "ClientList"), ("am", "AdapterManager"), ("fwdlist", "ForwarderList")):
            buf(st, n, p.types[t]["size"])
        put = lambda o, t, f, v, n=8: ip.store(st, B(o), field(p, t, f)[0], n, v)
        put("gw", "Gateway", "_clientList", P(B("clist")))
        put("gw", "Gateway", "_adapterManager", P(B("am")))
        put("clist", "ClientList", "_gateway", P(B("gw")))
        put("am", "AdapterManager", "_forwarders", P(B("fwdlist")))
        # pointers to strings that are never changed have their first value
        for n, g in p.globals.items():
            i = g.get("init")
            if not g["const"] and i and i[0] == "g" and p.cstr(i[1]) is not None:
                ip.store(st, ("g", n), ZERO, 8, P(("g", i[1])))
        return st


FLAGS = ("QoS-1", "forwarder", "secureConnection", "unstableLine")


def port(n):
    return Part("port%d" % n, lo=1, hi=65535)


def client_line(n, flags, style=0, bad=None):
    """(text, what it says)"""
    sep = (",", ", ", " , ", "\t,\t")[style]
    x = [("", "", "  ", "\t")[style], Part("id%d" % n), sep, Part("bad%d" % n if bad == "ip" else "ip%d" % n)]
    if bad != "colon":
        x += [":", port(n) if bad != "port" else Part("port%d" % n, lo=0, hi=0)]
    for f in flags:
        x += [sep, f]
    x.append(("\n", "", " \n", "\r\n")[style] if style != 3 else "\n")
    return T(*x)


FILLERS = [T("\n"), T("   \t\n"), T("#", Part("c"), ",", Part("d"), ":", Part("e", lo=1, hi=9), ",QoS-1,forwarder,secureConnection,unstableLine\n"), T("# QoS-1\n"), T("#\n")]


def subsets(xs):
    return [tuple(x for i, x in enumerate(xs) if n >> i & 1) for n in range(1 << len(xs))]


def client_list(r, case):
    typ, entries = case        # entries: (flags, style, bad) or the index of a filler
    lines = [FILLERS[e] if isinstance(e, int) else client_line(k, *e) for k, e in enumerate(entries)]
    W = Lists(lines)
    p = W.p
    fn = p.fn("ClientList::createList")
    st = W.state()
    ip = Interp(p)
    name = W.texts.buffer(ip, st, (Part("file"),))
    where = loc(fn)
    for o in W.run(r, fn, [P(B("clist")), name, I(32, typ)], st, 60, lambda f: f is fn or not f.key.startswith("SensorNetAddress::")):
        s = o.st
        opened = [x for x in s.trace if x[0] == "fopen"]
        r.ob("the list that is configured is read", len(opened) == 1 and opened[0][1] == (Part("file"),), "%s" % [show(x[1]) for x in opened], where)
        if not r.ob("the list of clients is read to its end", o.kind == "ret", "ends with %s" % o.kind, where):
            continue
        if opened and opened[0][2] is None:
            r.ob("a list that can't be read is reported", truth_(s, o.val) is False, "", where)
            continue
        r.ob("a list that can be read is accepted", truth_(s, o.val) is True, "", where)
        r.ob("all lines are read", len([x for x in s.trace if x[0] == "line"]) == len(lines), "", where)
        want, care = [], []
        for k, e in enumerate(entries):
            if isinstance(e, int) or e[2]:
                continue
            fl = e[0]
            q, f = "QoS-1" in fl, "forwarder" in fl
            a = (Lin(0), Lin(0))
            if typ == TYPES["FORWARDER"]:
                if f:
                    want.append(("forwarder", k, fl))
                continue
            if typ == TYPES["QOSM1PROXY"]:
                if q:
                    want.append(("client", k, fl))
                continue
            if q and typ == TYPES["AGGREGATER"]:
                continue
            if q or f:
                care.append(k)
                continue
            want.append(("client", k, fl))
        got = [x for x in s.trace if x[0] in ("client", "forwarder")]
        got = [x for x in got if x[2] is None or not any(x[2] == (Part("id%d" % k),) for k in care)]
        nm = {0: "known clients", 1: "QoS -1 clients", 2: "aggregated clients", 3: "forwarders"}[typ]
        if not r.ob("%s: each entry of this kind is registered, and no other" % nm, [(x[0], x[2]) for x in got] == [(w[0], (Part("id%d" % w[1]),)) for w in want],
                    "registered %s, should be %s" % ([(x[0], show(x[2])) for x in got], want), where):
            continue
        for x, (kind, k, fl) in zip(got, want):
            r.count("registered")
            a = x[1]
            pn = W.texts.number((port(k),), 32)
            ipn = var(("sym", "address:ip%d" % k, 0, 0xfffffffe))
            net = Interp(p).x_htons(s.copy(), [I(16, pn)], {"ty": "i16", "id": 0}, None)[0].val[2]
            r.ob("%s have the address of their line" % nm, a is not None and same_int(s.facts, 32, a[0], ipn) and same_int(s.facts, 16, a[1], net), "%s, should be %s and %s in network order" % (a, ipn, pn), where)
            if kind == "client":
                r.ob("%s: unstableLine marks an unstable line" % nm, x[3] == const(int("unstableLine" not in fl)), "%s" % x[3], where)
                r.ob("%s: secureConnection asks for TLS" % nm, x[4] == const(int("secureConnection" in fl)), "%s" % x[4], where)
                r.ob("%s are created as such" % nm, x[5] == const(typ), "type %s" % x[5], where)
        r.ob("nothing of a list stays allocated", not leaked(ip, s), "%s" % leaked(ip, s)[:2], where)


def truth_(st, v):
    if st.facts.entails_ne(v[2]):
        return True
    if st.facts.entails_eq(v[2]):
        return False
    return None


def topic_line(n, ident, style=0):
    sep = (",", ", ", " , ", "\t,")[style]
    who = T("*") if ident == "*" else (Part("id%d" % n),)
    return T(("", "", " ", "\t")[style], *who, sep, *topic_name(n, ident), sep, topic_no(n), ("\n", "", " \n", "\n")[style])


def topic_name(n, ident):
    return (Part("a%d" % n), "/", Part("b%d" % n)) if ident == "levels" else (Part("topic%d" % n),)


def topic_no(n):
    return Part("no%d" % n, lo=1, hi=65535)


def topic_list(r, case):
    aggr, entries = case
    lines = [FILLERS[e] if isinstance(e, int) else topic_line(k, *e) for k, e in enumerate(entries)]
    W = Lists(lines)
    p = W.p
    fn = p.fn("ClientList::readPredefinedList")
    st = W.state()
    ip = Interp(p)
    name = W.texts.buffer(ip, st, (Part("file"),))
    where = loc(fn)
    for o in W.run(r, fn, [P(B("clist")), name, I(1, aggr)], st, 60):
        s = o.st
        opened = [x for x in s.trace if x[0] == "fopen"]
        r.ob("the topic list that is configured is read", len(opened) == 1 and opened[0][1] == (Part("file"),), "%s" % [show(x[1]) for x in opened], where)
        if not r.ob("the list of topics is read to its end", o.kind == "ret", "ends with %s" % o.kind, where):
            continue
        if opened and opened[0][2] is None:
            r.ob("a topic list that can't be read is reported", truth_(s, o.val) is False, "", where)
            continue
        r.ob("a topic list that can be read is accepted", truth_(s, o.val) is True, "", where)
        want = [(("*",) if e[0] == "*" else (Part("id%d" % k),), topic_name(k, e[0]), k) for k, e in enumerate(entries) if not isinstance(e, int)]
        got = [x for x in s.trace if x[0] == "topic"]
        if not r.ob("each predefined topic is registered for its client, under its name", [(x[1], x[2]) for x in got] == [w[:2] for w in want], "%s, should be %s" % ([(show(x[1]), show(x[2])) for x in got], [(show(w[0]), show(w[1])) for w in want]), where):
            continue
        for x, w in zip(got, want):
            r.count("topics")
            r.ob("each predefined topic is registered under its number", s.facts.entails_eq(x[3] - W.texts.number((topic_no(w[2]),), 32)), "%s" % x[3], where)
            r.ob("in an aggregating gateway the clients of predefined topics are aggregated", x[4] == const(aggr), "%s" % x[4], where)
        r.ob("nothing of a topic list stays allocated", not leaked(ip, s), "%s" % leaked(ip, s)[:2], where)


def topic(r, case):
    """what an entry of the topic list does"""
    who, known, auth, aggr, zero = case
    W = Lists([])
    p, tx = W.p, W.texts
    M = W.models
    del M["ClientList::createPredefinedTopic"]
    fn = p.fn("ClientList::createPredefinedTopic")
    st = W.state()
    ip = Interp(p)
    for n, t in (("gwTopics", "Topics"), ("clTopics", "Topics"), ("client", "Client"), ("name", None), ("str", None)):
        buf(st, n, p.types[t]["size"] if t else 64)
    ip.store(st, B("gw"), field(p, "Gateway", "_topics")[0], 8, P(B("gwTopics")))
    ip.store(st, B("client"), field(p, "Client", "_topics")[0], 8, P(B("clTopics")))
    ip.store(st, B("client"), field(p, "Client", "_hasPredefTopic")[0], 1, I(8, 0))
    ip.store(st, B("clist"), field(p, "ClientList", "_authorize")[0], 1, I(8, auth))
    tx.put(ip, st, P(B("name")), (Part("topic"),))
    idt = T("*") if who == "*" else T("*x") if who == "*x" else (Part("id"),)
    ip.store(st, B("str"), const(p.off("MQTTSNString", "cstring")), 8, tx.buffer(ip, st, idt))
    num = ZERO if zero else var(("sym", "topic id", 1, 65535))

    def ident(st, a):
        x = ip.load(st, a[1], a[2] + p.off("MQTTSNString", "cstring"), 8, "ptr")
        return tx.cstr(ip, st, x)

    def get(ip, st, a, ins, fr):
        st.event("looked up", ident(st, a[1]))
        return [(st, P(B("client")) if known else NULL)]
    M["ClientList::getClient"] = get

    def create(ip, st, a, ins, fr):
        typ = a[-1][2]
        st.event("client", None if a[1][0] == "N" or a[1] == NULL else a[1], ident(st, a[2]), typ)
        s0 = st.copy()
        s0.event("none")
        return [(s0, NULL), (st, P(B("client")))]
    M["ClientList::createClient"] = create

    def add(ip, st, a, ins, fr):
        st.event("add", a[0], tx.cstr(ip, st, a[1], ins, fr), a[2][2])
        buf(st, "Topic")
        return [(st, P(B("Topic")))]
    M["Topics::add"] = add
    where = loc(fn)
    for o in W.run(r, fn, [P(B("clist")), P(B("str")), P(B("name")), I(16, num), I(1, aggr)], st):
        s = o.st
        if not r.ob("a predefined topic is registered without failure", o.kind == "ret", "ends with %s" % o.kind, where):
            continue
        adds = [x[1:] for x in s.trace if x[0] == "add"]
        made = [x[1:] for x in s.trace if x[0] == "client"]
        flag = Interp(p).load(s, B("client"), field(p, "Client", "_hasPredefTopic")[0], 1, "i8")[2]
        entry = lambda t: [(P(B(t)), (Part("topic"),), num)]
        if zero:
            r.ob("a predefined topic without number is ignored", not adds and not made, "%s" % adds, where)
        elif who == "*":
            r.ob("a predefined topic of '*' is one of all clients", adds == entry("gwTopics") and not made, "%s" % adds, where)
        elif not known and (auth or any(x[0] == "none" for x in s.trace)):
            r.ob("a predefined topic of a client that can't be is ignored", not adds and (not made or not auth), "%s %s" % (adds, made), where)
        else:
            r.ob("a predefined topic of a client is that client's", adds == entry("clTopics"), "%s" % adds, where)
            r.ob("a client with a predefined topic is marked", flag == const(1), "_hasPredefTopic is %s" % flag, where)
            r.ob("a client that is not known yet is created for its predefined topic", [x[1:] for x in made] == ([(idt, const(TYPES["AGGREGATER" if aggr else "TRANSPEARENT"]))] if not known else []) and all(x[0] is None for x in made), "%s" % made, where)
            r.count("registered topics")


SUB = subsets(FLAGS)
PARTS2 = [(client_list, (t, [(f, s, None)])) for t in range(4) for f in SUB for s in range(4)] + \
    [(client_list, (t, [x, (("QoS-1", "forwarder"), 0, None), ((), 0, None)])) for t in range(4) for x in list(range(len(FILLERS))) + [(FLAGS, 0, None), ((), 0, "ip"), ((), 0, "port"), ((), 0, "colon"), (FLAGS, 0, "ip")]] + \
    [(client_list, (t, [])) for t in range(4)] + \
    [(topic_list, (g, x)) for g in (0, 1) for x in [[(i, s)] for i in ("*", "id", "levels") for s in range(4)] + [[f, ("*", 0), ("id", 0), ("levels", 1)] for f in range(len(FILLERS))] + [[]]] + \
    [(topic, (w, k, a, g, z)) for w in ("*", "*x", "id") for k in (0, 1) for a in (0, 1) for g in (0, 1) for z in (0, 1)]


def F02(r):
    r.rule("every entry of the list of clients, whatever blanks and comments surround it, registers the client or forwarder it describes, with its address, its security and its line; every entry of the list of topics its topic")
    prog("gw:udp")

    def one(q, k):
        q.case_name = "%s %s" % (k[0].__name__, k[1])
        k[0](q, k[1])
    pmap(r, PARTS2, one)
    r.floor("clients and forwarders registered", r.counts.get("registered", 0), 60)
    r.floor("topics read", r.counts.get("topics", 0), 20)
    r.floor("topics registered", r.counts.get("registered topics", 0), 6)


REG = {"F01": F01, "F02": F02}
