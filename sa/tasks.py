"""Rules R*: the task loops around the packet handling thread - what becomes of a datagram of the sensor network, of a queued packet,
and of the bytes of the broker's connection.  One iteration of each loop is analysed from unknown input."""
import build
from gw import *
from oracle import *
from handlers import SN, MQ, STN, Ctx, flagbyte, initial

oracle_muts = ("createClient", "fwdAdd", "netConnect", "netClose", "netSend", "unicast", "broadcast", "adapterSend")


def field(p, t, f):
    for path, off, bits, m in p.flat_fields(t):
        if path == f:
            n = max(1, bits // 8)
            return Lin(off), n, "ptr" if m[4] == "ptr" else "i%d" % (8 * n)
    raise build.AnalysisBroken("no field %s.%s" % (t, f))


def addr_fields(p):
    fs = [(path, Lin(off), max(1, bits // 8)) for path, off, bits, m in p.flat_fields("SensorNetAddress")]
    if not fs:
        raise build.AnalysisBroken("SensorNetAddress has no fields")
    return fs


class TW(World):
    """the world around one of the other tasks"""

    def __init__(self, task, que=None):
        self.taskname = task
        World.__init__(self)
        self.wait_que = que
        self.more_contracts()

    def state(self):
        st = World.state(self)
        p = self.p
        ip = Interp(p)
        t = self.taskname
        buf(st, "atask")
        ip.store(st, B("atask"), self.off(t, "_gateway"), 8, P(B("gateway")))
        for path, off, bits, m in p.flat_fields(t):
            if path == "_sensorNetwork":
                ip.store(st, B("atask"), Lin(off), 8, P(B("gateway"), self.off("Gateway", "_sensorNetwork")))
            if path == "_gwparams":
                ip.store(st, B("atask"), Lin(off), 8, P(B("gateway"), self.off("Gateway", "_params")))
            if path == "_light":
                ip.store(st, B("atask"), Lin(off), 8, P(B("gateway"), self.off("Gateway", "_lightIndicator")))
        for c in ("newclient", "fwdclient"):
            self.client(st, c)
        for c in ("client", "client2", "newclient", "fwdclient", "qosm1_client", "aggr_client"):
            self.more_client(st, ip, c)
        for f in ("_params.clientAuthentication", "_stopFlg"):
            a = ip.load(st, B("gateway"), self.off("Gateway", f), 1, "i8")
            self.fact(st, const(1) - a[2], "ge")
        for f in ("fwd",):
            buf(st, f)
        return st

    def more_client(self, st, ip, c):
        pass

    def more_contracts(self):
        M = self.models
        p = self.p
        M["Process::checkSignal"] = lambda ip, st, a, ins, fr: [(st, sym("signal", 32))]
        M["LightIndicator::blueLight"] = M["LightIndicator::greenLight"] = M["LightIndicator::redLight"] = m_nop
        M["SensorNetAddress::sprint"] = lambda ip, st, a, ins, fr: [(st, a[-1])]

    def mangled(self, key, *has):
        fs = [f.name for f in self.p.bykey.get(key, ()) if all(h in f.name for h in has)]
        if len(fs) != 1:
            raise build.AnalysisBroken("%s(%s): %d functions" % (key, has, len(fs)))
        return fs[0]

    def is_sender(self, ip, st, v):
        """is this the address the datagram came from"""
        if v[0] != "P":
            return False
        for path, off, n in addr_fields(self.p):
            x = ip.load(st, v[1], v[2] + off, n, "i%d" % (8 * n))
            if x[0] != "I" or not same_int(st.facts, 8 * n, x[2], var(("sym", "sender." + path, 0, (1 << 8 * n) - 1))):
                return False
        return True

    def analyse(self, r, st, monitor=None):
        if r.prop in ("M01", "O01", "ALL"):
            monitor = Monitor(r, r.case_name)
            if r.prop == "O01":
                monitor.on_access = lambda *a: None
        ip = self.interp(monitor)
        ip.no_nul = monitor is None or r.prop == "ALL"
        fn = self.p.fn(self.taskname + "::run")
        outs = ip.run(fn, [P(B("atask"))], st)
        r.used(ip)
        r.count("paths", len(outs))
        if r.prop == "M01":
            r.count("accesses", monitor.n)
        if r.prop in ("O01", "ALL"):
            for o in outs:
                if o.kind == "exit":
                    continue
                lk = leaked(ip, o.st)
                r.ob("%s: nothing is left without an owner" % r.case_name, not lk, "lost: %s" % [obj_short(x) for x in lk], loc(fn))
                for n in sorted(set(str(x[1]).split("@")[0] for x in lk)):
                    r.ob("memory allocated in %s is freed or handed on" % n, False, "lost while handling %s" % r.case_name, loc(fn))
        return outs, loc(fn)


_tw = {}


def tworld(cls, *a):
    k = (cls,) + a
    if k not in _tw:
        _tw[k] = cls(*a)
        _tw[k].check_models()
    return _tw[k]


# ------------------------------------------------------------------ datagrams of the sensor network
RLEN = var(("sym", "rlen", -1, 1024))


class Recv(TW):
    def __init__(self, qos, logs):
        self.qos, self.logs = qos, logs
        TW.__init__(self, "ClientRecvTask")

    def state(self):
        st = TW.state(self)
        buf(st, "dgram", RLEN)
        ip = Interp(self.p)
        for path, fo, bits, m in self.p.flat_fields("QoSm1Proxy"):
            if path == "_isActive":
                ip.store(st, B("qosm1"), Lin(fo), 1, I(8, int(self.qos)))
        return st

    def more_contracts(self):
        TW.more_contracts(self)
        M, W, p = self.models, self, self.p
        if not self.logs:       # what is logged is M01's concern
            for f in p.bykey.get("ClientRecvTask::log", ()):
                M[f.name] = m_nop

        def read(ip, st, a, ins, fr):
            if ("read",) in st.ghost:
                return [Outcome(st, ("U", "exit"), "exit")]
            st.ghost[("read",)] = True
            for path, off, n in addr_fields(p):
                ip.store(st, B("gateway"), W.off("Gateway", "_sensorNetwork") + W.off("SensorNetwork", "_senderAddr") + off, n, I(8 * n, var(("sym", "sender." + path, 0, (1 << 8 * n) - 1))))
            s0 = st.copy()
            W.fact(s0, const(1) - RLEN, "ge")
            if a[1][0] == "P":
                ip.store(s0, a[1][1], a[1][2], 1, ip.load(s0, B("dgram"), ZERO, 1, "i8"))
            s0.event("read", a[1], a[2])
            W.fact(st, RLEN - 2, "ge")
            ip.access(st, "store", a[1], a[2][2], ins, fr)
            W.fact(st, a[2][2] - RLEN, "ge")
            if a[1][0] == "P":
                ip.copy_blob(st, a[1][1], a[1][2], RLEN, B("dgram"), ZERO)
            st.event("read", a[1], a[2])
            return [(s0, I(32, RLEN)), (st, I(32, RLEN))]
        M["SensorNetwork::read"] = read

        def byaddr(ip, st, a, ins, fr):
            s0 = st.copy()
            k = W.is_sender(ip, st, a[1])
            s0.event("byAddr", k, None)
            st.event("byAddr", k, B("client"))
            return [(s0, NULL), (st, P(B("client")))]
        M[W.mangled("ClientList::getClient", "SensorNetAddressE")] = byaddr

        def bname(ip, st, v):
            g = lambda f, n, ty: ip.load(st, v[1], v[2] + W.off("MQTTSNString", f), n, ty)
            return g("cstring", 8, "ptr"), g("lenstring.data", 8, "ptr"), g("lenstring.len", 4, "i32")

        def byid(ip, st, a, ins, fr):
            s0 = st.copy()
            k = bname(ip, st, a[1])
            s0.event("byId", k, None)
            st.event("byId", k, B("client2"))
            return [(s0, NULL), (st, P(B("client2")))]
        M[W.mangled("ClientList::getClient", "MQTTSNStringE") if any("MQTTSNStringE" in f.name for f in p.bykey["ClientList::getClient"]) else W.mangled("ClientList::getClient", "P12MQTTSNString")] = byid

        def create(ip, st, a, ins, fr):
            s0 = st.copy()
            ad = "none" if st.isnull(a[1]) else W.is_sender(ip, st, a[1])
            e = (ad, bname(ip, st, a[2]), tuple(a[3:]))
            s0.event("createClient", e, None)
            st.event("createClient", e, B("newclient"))
            return [(s0, NULL), (st, P(B("newclient")))]
        for f in p.bykey["ClientList::createClient"]:
            M[f.name] = create
        M["ClientList::isAuthorized"] = lambda ip, st, a, ins, fr: [(st, I(8, var(("sym", "authorized", 0, 1))))]

        def getfwd(ip, st, a, ins, fr):
            s0 = st.copy()
            k = W.is_sender(ip, st, a[1])
            s0.event("getForwarder", k, None)
            st.event("getForwarder", k, B("fwd"))
            return [(s0, NULL), (st, P(B("fwd")))]
        M["ForwarderList::getForwarder"] = getfwd
        M["Forwarder::getName"] = lambda ip, st, a, ins, fr: [(st, P(("g", "<name>")))]

        def nid(ip, st, v):
            return (ip.load(st, v[1], v[2] + W.off("WirelessNodeId", "_nodeId"), 8, "ptr"), ip.load(st, v[1], v[2] + W.off("WirelessNodeId", "_len"), 1, "i8")[2]) if v[0] == "P" else None

        def fwdget(ip, st, a, ins, fr):
            k = nid(ip, st, a[1])
            m = snap(st, ip, k[0]) if k else ()
            s0 = st.copy()
            s0.event("fwdGet", a[0], k, m, None)
            st.event("fwdGet", a[0], k, m, B("fwdclient"))
            return [(s0, NULL), (st, P(B("fwdclient")))]
        M["Forwarder::getClient"] = fwdget

        def fwdadd(ip, st, a, ins, fr):
            k = nid(ip, st, a[2])
            st.event("fwdAdd", a[0], a[1], k, snap(st, ip, k[0]) if k else ())
            return [(st, ("U", "void"))]
        M["Forwarder::addClient"] = fwdadd

        def qid(ip, st, a, ins, fr):
            s0 = st.copy()
            k = W.is_sender(ip, st, a[1])
            s0.event("qosm1Addr", k, None)
            st.event("qosm1Addr", k, True)
            return [(s0, NULL), (st, P(("g", "<qosm1 client>")))]
        M["Adapter::getClientId"] = qid


def node_ok(o, k, mem, obj, off, n):
    """node id (pointer, length), captured in mem, is n bytes at obj+off"""
    if not k:
        return False
    st = o.st.copy()
    st.mem.update(dict(mem))
    if not same_int(st.facts, 8, k[1], n):
        return False
    if st.facts.entails_eq(n):
        return True
    return k[0][0] == "P" and same_bytes(o.ip, st, k[0][1], k[0][2], obj, off, n)


def id_ok(o, k, obj, off, n):
    return o.st.isnull(k[0]) is True and o.st.facts.entails_eq(k[2][2] - n) and \
        (o.st.facts.entails_eq(n) or k[1][0] == "P" and same_bytes(o.ip, o.st, k[1][1], k[1][2], obj, off, n))


def recv(r, case):
    qos, form, which, pq = case
    W = tworld(Recv, qos, r.prop in ("M01", "ALL"))
    st = W.state()
    by = lambda k: Interp(W.p).load(st, B("dgram"), Lin(k), 1, "i8")[2]
    W.fact(st, by(0) - 1, "ne" if form == "short" else "eq")
    T = by(1 if form == "short" else 3)
    lo, hi = which
    if lo == hi == SN["PUBLISH"]:
        Interp(W.p).store(st, B("dgram"), Lin(2 if form == "short" else 4), 1, I(8, flagbyte(qos=pq)))
    W.fact(st, T - lo, "ge")
    W.fact(st, const(hi) - T, "ge")
    init = {c: initial(W, st, c) for c in ("client", "client2", "fwdclient", "qosm1_client", "newclient")}
    addr0 = {(c, path): Interp(W.p).load(st, B(c), W.off("Client", "_sensorNetAddr") + off, n, "i%d" % (8 * n)) for c in ("client", "client2", "fwdclient", "qosm1_client") for path, off, n in addr_fields(W.p)}
    outs, where = W.analyse(r, st)
    if r.prop in ("M01", "O01"):
        return
    D = B("dgram")

    def spec(o):
        e = Exp()
        n = 0
        if any(x[0] == "read" for x in o.st.trace) is False:
            raise DontCare()
        if o.eq(o.W_signal, 2):
            o.label("stopping")
            raise DontCare()
        moved = []      # clients whose address becomes the sender's
        e.checks.append(("reads into a buffer of the size it says", True, ""))
        handle(o, e, moved)
        for (c, path), was in addr0.items():
            off, m = [(x[1], x[2]) for x in addr_fields(W.p) if x[0] == path][0]
            now = o.ip.load(o.st, B(c), W.off("Client", "_sensorNetAddr") + off, m, "i%d" % (8 * m))
            want = var(("sym", "sender." + path, 0, (1 << 8 * m) - 1)) if c in moved else was[2]
            e.checks.append(("address of the %s" % NAMES.get(c, c), now[0] == "I" and same_int(o.st.facts, 8 * m, now[2], want), "%s is %s, should be %s" % (path, now, want)))
        return e

    def handle(o, e, moved):
        if not o.ge(RLEN - 2):
            o.label("no datagram")
            return
        obj, off, N, fwd = D, ZERO, RLEN, False
        T, ll = typ(o, obj, off, N)
        if T is None or o.eq(T, SN["ADVERTISE"]):
            o.label("no type or ADVERTISE")
            return
        if o.eq(T, SN["GWINFO"]):
            o.label("GWINFO")
            return
        if o.eq(T, SN["SEARCHGW"]):
            o.label("SEARCHGW")
            e.posts.append(("packetEventQue", "EtBroadcast", None, ("sncopy", D, RLEN)))
            return
        cl = None
        if o.eq(T, 0xfe):
            o.label("encapsulated")
            if find(o, e, "getForwarder") is None:
                o.label("unknown forwarder")
                return
            h = o.byte(D, 0)
            if not o.ge(RLEN - 3) or not o.ge(h - 3) or not o.ge(RLEN - h):
                o.label("malformed")
                return
            fwd = True
            obj, off, N = D, h, RLEN - h
            if o.eq(N):
                o.label("nothing encapsulated")
                raise DontCare()
            cl = "fwdclient" if fwd_client(o, e, h) else None
            T, ll = typ(o, obj, off, N)
        else:
            if qos and find(o, e, "qosm1Addr"):
                o.label("QoS-1 client")
                cl = "qosm1_client"
                if not o.eq(T, SN["PUBLISH"]):
                    return
                if not o.ge(N - (ll + 2)):
                    return
                if pq != 3:
                    o.label("not QoS-1")
                    return
            elif find(o, e, "byAddr"):
                cl = "client"
        if cl:
            o.label("known client")
            c = init[cl]
            if o.eq(c["status"], 1) and not (T is not None and (o.eq(T, SN["CONNECT"]))):
                will = T is not None and (o.eq(T, SN["WILLTOPIC"]) or o.eq(T, SN["WILLMSG"]))
                if not (will and not o.eq(c["waitWill"], 0)):
                    o.label("disconnected")
                    e.posts.append(("clientSendQue", "EtClientSend", B(cl), ("sn", SN["DISCONNECT"], ())))
                    return
            e.posts.append(("packetEventQue", "EtClientRecv", B(cl), ("sncopy", obj, N, off)))
            return
        o.label("unknown client")
        if T is None or not o.eq(T, SN["CONNECT"]):
            o.label("not CONNECT")
            return
        # length field must fit, protocol id 1
        L = o.byte(obj, off) if ll == 1 else o.byte(obj, off + 1).scale(256) + o.byte(obj, off + 2)
        if not o.ge(N - L) or not o.ge(L - (ll + 5)) or not o.eq(o.byte(obj, off + ll + 2), 1):
            o.label("malformed")
            return
        io, il = off + ll + 5, L - (ll + 5)
        if o.eq(il):
            o.label("empty id")
        known = find_id(o, e, obj, io, il)
        if known:
            o.label("known id")
            cl = "client2"
        elif not o.eq(var(("sym", "authorized", 0, 1)), 0):
            o.label("not authorised")
            return
        else:
            cl = create(o, e, obj, io, il, not fwd)
            if not cl:
                o.label("no room")
                return
            o.label("new client")
        if fwd:
            def chk(o, x):
                if x[1] != P(B("fwd")) or x[2] != P(B(cl)):
                    return "added %s to %s" % (x[2], x[1])
                return None if node_ok(o, x[3], x[4], D, Lin(3), o.byte(D, 0) - 3) else "another node id"
            e.mut("fwdAdd", "client is reached through the forwarder from now on", chk)
        elif known:
            auth = o.get("gateway", "Gateway", "_params.clientAuthentication", 1)[2]
            if o.eq(auth):
                moved.append(cl)
        e.posts.append(("packetEventQue", "EtClientRecv", B(cl), ("sncopy", obj, N, off)))

    def typ(o, obj, off, N):
        """(message type, length of the length field) or None when the datagram is too short to have one"""
        if not o.ge(N - 1):
            return None, 0
        if o.eq(o.byte(obj, off), 1):
            return (o.byte(obj, off + 3), 3) if o.ge(N - 4) else (None, 0)
        return (o.byte(obj, off + 1), 1) if o.ge(N - 2) else (None, 0)

    def find(o, e, name):
        for x in o.events(name):
            e.checks.append(("%s asked about the sender" % name, x[1] is True, "asked about another address"))
            return x[2]
        raise DontCare() if o.unknown(1) else Missing(name)

    def find_id(o, e, obj, off, n):
        for x in o.events("byId"):
            e.checks.append(("client looked up by its id", id_ok(o, x[1], obj, off, n), "looked up %s" % (x[1],)))
            return x[2]
        raise Missing("byId")

    def fwd_client(o, e, h):
        for x in o.events("fwdGet"):
            e.checks.append(("client looked up by its node id", x[1] == P(B("fwd")) and node_ok(o, x[2], x[3], D, Lin(3), h - 3), "looked up %s" % (x[2],)))
            return x[4]
        raise Missing("fwdGet")

    def create(o, e, obj, off, n, direct):
        for x in o.events("createClient"):
            ad, k, rest = x[1]
            e.checks.append(("client created with its id", id_ok(o, k, obj, off, n), "created %s" % (k,)))
            e.checks.append(("client created with its address", ad is True if direct else ad == "none", "address: %s" % (ad,)))
            e.mut("createClient", "one client is created")
            return "newclient" if x[2] else None
        raise Missing("createClient")

    n = 0
    for out in outs:
        if out.kind == "exit":
            continue
        n += tcheck(r, "datagram", W, out, init, spec, where)
    r.count("datagram_paths", n)


class Missing(Exception):
    pass


NAMES = dict(client="client known by address", client2="client known by id", fwdclient="forwarded client", qosm1_client="QoS-1 proxy's client", newclient="new client")


def tcheck(r, name, W, out, init, spec, where, client=("client", "client2", "fwdclient", "qosm1_client")):
    n = 0
    work = [()]
    while work:
        o = O(W, out.st, init, work.pop())
        o.W_signal = var(("sym", "signal", -(1 << 31), (1 << 31) - 1))
        o.outkind = out.kind
        try:
            e = spec(o)
        except Infeasible:
            work += o.todo
            continue
        except DontCare:
            work += o.todo
            r.count("dont_care")
            continue
        except Missing as m:
            work += o.todo
            lab = name + (" (%s)" % ", ".join(o.labels) if o.labels else "")
            r.ob("%s: %s is asked" % (lab, m), False, "the path decides without looking it up", where)
            continue
        work += o.todo
        n += 1
        lab = name + (" (%s)" % ", ".join(o.labels) if o.labels else "")
        compare_posts(r, lab, o, e, where)
        compare_muts(r, lab, o, e, where)
        for c in client:
            for k, f in FINAL.items():
                if k in e.ignore:
                    continue
                want = e.final.get((c, k), init[c][k])
                got = W.get(o.st, c, "Client", f)[2]
                ok = o.st.facts.entails_eq(got - want) or same_int(o.st.facts, 32, got, want if isinstance(want, Lin) else Lin(want))
                r.ob("%s: %s's %s" % (lab, NAMES.get(c, c), k), ok, "%s is %s afterwards, should be %s" % (f, got, want), where)
        for label, ok, why in e.checks:
            r.ob("%s: %s" % (lab, label), ok, why, where)
        if out.kind != "again":
            r.ob("%s: the task goes on" % lab, getattr(e, "ends", False), "the loop ends with %s" % out.kind, where)
        else:
            r.ob("%s: the task goes on" % lab, not getattr(e, "ends", False), "the loop goes on", where)
    return n


# ------------------------------------------------------------------ packets to the sensor network
class Send(TW):
    """the clientSendQue's task; the network and the adapters are contracts"""

    def __init__(self, fwd, logs):
        self.fwd, self.logs = fwd, logs
        TW.__init__(self, "ClientSendTask", "clientSendQue")

    def state(self):
        st = TW.state(self)
        buf(st, "wnid")
        buf(st, "wnbuf", var(("sym", "wnlen", 0, 252)))
        ip = Interp(self.p)
        ip.store(st, B("wnid"), self.off("WirelessNodeId", "_nodeId"), 8, P(B("wnbuf")))
        ip.store(st, B("wnid"), self.off("WirelessNodeId", "_len"), 1, I(8, var(("sym", "wnlen", 0, 252))))
        ip.store(st, B("client"), self.off("Client", "_forwarder"), 8, P(B("fwd")) if self.fwd else NULL)
        return st

    def more_contracts(self):
        TW.more_contracts(self)
        M, W, p = self.models, self, self.p
        if not self.logs:
            M["ClientSendTask::log"] = m_nop
            M["MQTTSNGWEncapsulatedPacket::print"] = lambda ip, st, a, ins, fr: [(st, a[1])]

        def addr(ip, st, v):
            return tuple(ip.load(st, v[1], v[2] + off, n, "i%d" % (8 * n))[2] for _, off, n in addr_fields(p)) if v[0] == "P" else None

        def out(name, k):
            def m(ip, st, a, ins, fr):
                ip.access(st, "load", a[1], a[2][2], ins, fr)
                st.event(name, a[1], a[2][2], addr(ip, st, a[3]) if k else None, snap(st, ip, a[1]))
                return [(st, sym(st.fresh(name), 32))]
            return m
        M["SensorNetwork::unicast"] = out("unicast", 1)
        M["SensorNetwork::broadcast"] = out("broadcast", 0)

        def nodeid(ip, st, a, ins, fr):
            if a[0] != P(B("fwd")) or a[1] != P(B("client")):
                st.event("adapterSend", "node id of", a[0], a[1])
            return [(st, P(B("wnid")))]
        M["Forwarder::getWirelessNodeId"] = nodeid
        M["Forwarder::getId"] = lambda ip, st, a, ins, fr: [(st, P(("g", "<name>")))]

        def asend(ip, st, a, ins, fr):
            st.event("adapterSend", a[0], a[1], a[2])
            return [(st, ("U", "void"))]
        M["Adapter::send"] = asend


def client_send(r, case):
    etype, fwd, form = case
    W = tworld(Send, fwd, r.prop in ("M01", "ALL"))
    st = W.state()
    ip = Interp(W.p)
    pk, b, N, ll = W.sn_packet(st, None, form, n=var(("sym", "snlen", 2, 1024)))
    W.the_event = W.event(st, etype, "client" if etype == "EtClientSend" else None, sn=pk if etype != "EtStop" else None)
    if etype == "EtSensornetSend":
        a = heapbuf(st, "evaddr", W.p.types["SensorNetAddress"]["size"])
        ip.store(st, W.the_event[1], W.off("Event", "_sensorNetAddr"), 8, a)
    init = {"client": initial(W, st, "client")}
    adr = lambda st, v: tuple(ip.load(st, v[1], v[2] + off, n, "i%d" % (8 * n))[2] for _, off, n in addr_fields(W.p))
    want = dict(client=adr(st, ("P", B("client"), W.off("Client", "_sensorNetAddr"))), fwd=adr(st, ("P", B("fwd"), W.off("Forwarder", "_sensorNetAddr"))),
                ev=adr(st, ("P", ("heap", "evaddr", 0), ZERO)) if etype == "EtSensornetSend" else None)
    if etype == "EtStop":
        st.ghost[("freed", pk[1])] = True
        st.ghost[("freed", b[1])] = True
    outs, where = W.analyse(r, st)
    if r.prop in ("M01", "O01"):
        return

    def sent(o, e, name, text, obj, n, to=None, pre=()):
        def chk(o, x):
            st = o.st.copy()
            st.mem.update(dict(x[4]))
            if to is not None and (x[3] is None or not all(same_int(st.facts, 64, u, v) for u, v in zip(x[3], to))):
                return "sent to another address"
            k = Lin(len(pre)) if not isinstance(pre, tuple) else ZERO
            items = list(pre) + [S(obj, 0, n)]
            if x[1][0] != "P":
                return "no data"
            err = check_items(o, st, x[1][1], x[1][2], items, None)
            if err:
                return err
            total = sum([Lin(1) if i[0] in ("n", "any") else i[3] for i in items], ZERO)
            return None if st.facts.entails_eq(x[2] - total) else "%s bytes sent, should be %s" % (x[2], total)
        e.mut(name, text, chk)

    def spec(o):
        e = Exp()
        stop = o.get("gateway", "Gateway", "_stopFlg", 1)[2]
        if etype == "EtStop" or not o.eq(stop):
            o.label("stopping")
            e.ends = True
            return e
        if etype == "EtBroadcast":
            sent(o, e, "broadcast", "the packet is broadcast unchanged", b[1], N)
        elif etype == "EtSensornetSend":
            sent(o, e, "unicast", "the packet is sent unchanged to the address of the event", b[1], N, want["ev"])
        elif fwd:
            o.label("forwarded client")
            wl = var(("sym", "wnlen", 0, 252))
            if not o.ge(Lin(1024) - 3 - wl - N):
                o.label("too big")
                return e
            sent(o, e, "unicast", "the packet is sent to the forwarder, encapsulated with the client's node id", b[1], N, want["fwd"],
                 [("n", 1, wl + 3), ("n", 1, Lin(0xfe)), ("any", 1, []), S(B("wnbuf"), 0, wl)])
        else:
            t = o.get("client", "Client", "_clientType")[2]
            if o.eq(t, W.CT["Ctype_Proxy"]):
                o.label("QoS-1 proxy")
                e.mut("adapterSend", "the packet is handed to the QoS-1 proxy", lambda o, x: None if x[1:] == (P(B("qosm1")), P(pk[1]), P(B("client"))) else "%s" % (x[1:],))
            elif o.eq(t, W.CT["Ctype_Aggregater"]):
                o.label("aggregater")
                e.mut("adapterSend", "the packet is handed to the aggregater", lambda o, x: None if x[1:] == (P(B("aggr")), P(pk[1]), P(B("client"))) else "%s" % (x[1:],))
            else:
                sent(o, e, "unicast", "the packet is sent unchanged to the client's address", b[1], N, want["client"])
        return e

    n = 0
    for out in outs:
        if out.kind != "exit":
            n += tcheck(r, "packet for the sensor network" if etype == "EtClientSend" else etype, W, out, init, spec, where, client=("client",))
    r.count("send_paths", n)


# ------------------------------------------------------------------ packets to the broker
NETS = dict(client="net", qosm1_client="netQ", qosm1_clientS="netQS", aggr_client="netA", aggr_clientS="netAS")


class BSend(TW):
    """the brokerSendQue's task; the connections are contracts: valid or not, a connect that succeeds or fails, a send with any result"""

    def __init__(self, logs):
        self.logs = logs
        TW.__init__(self, "BrokerSendTask", "brokerSendQue")

    def state(self):
        st = TW.state(self)
        ip = Interp(self.p)
        for c in NETS:
            if c != "client":
                self.client(st, c)
        for c, n in NETS.items():
            buf(st, n)
            ip.store(st, B(c), self.off("Client", "_network"), 8, P(B(n)))
            x = ip.load(st, B(n), self.off("Network", "_secureFlg"), 1, "i8")
            self.fact(st, const(1) - x[2], "ge")
        for a in ("aggr", "qosm1"):
            ip.store(st, B(a), self.off("Adapter", "_clientSecure"), 8, P(B(a + "_clientS")))
        return st

    def more_contracts(self):
        TW.more_contracts(self)
        M, W, p = self.models, self, self.p
        if not self.logs:
            M["BrokerSendTask::log"] = m_nop

        def valid(ip, st, a, ins, fr):
            k = ("conn", a[0][1])
            if k in st.ghost:
                return [(st, I(1, int(st.ghost[k] == "open")))]
            s0 = st.copy()
            s0.ghost[k], st.ghost[k] = "invalid", "open"
            s0.event("was", a[0][1], "invalid")
            st.event("was", a[0][1], "open")
            return [(s0, I(1, 0)), (st, I(1, 1))]
        M["Network::isValid"] = valid

        def connect(ip, st, a, ins, fr):
            e = (a[0][1], st.ghost.get(("conn", a[0][1])), tuple(a[1:]))
            s0 = st.copy()
            s0.ghost[("conn", a[0][1])], st.ghost[("conn", a[0][1])] = "failed", "open"
            s0.event("netConnect", *e, False)
            st.event("netConnect", *e, True)
            return [(s0, I(1, 0)), (st, I(1, 1))]
        M["Network::connect"] = connect

        def close(ip, st, a, ins, fr):
            st.ghost[("conn", a[0][1])] = "closed"
            return [(st, ("U", "void"))]
        M["Network::close"] = close

        def send(ip, st, a, ins, fr):
            ip.access(st, "load", a[1], a[2][2], ins, fr)
            v = sym(st.fresh("netSend"), 32)
            status = tuple((c, W.get(st, c, "Client", "_status")[2]) for c in NETS)
            st.event("netSend", a[0][1], a[1], a[2][2], snap(st, ip, a[1]), v, st.ghost.get(("conn", a[0][1])), status)
            return [(st, v)]
        M["Network::send"] = send

    def interp(self, monitor=None):
        ip = TW.interp(self, monitor)
        ip.unroll = 6           # the bytes of a remaining length
        if self.logs:
            ip.unroll_in = lambda fn: fn.key != 'MQTTGWPacket::print'
        return ip


FORMS = [(0, 127), (128, 16383), (16384, 65530)]
MQTYPES = sorted(set(MQ.values()))


def broker_send(r, case):
    etype, mtype, form = case
    W = tworld(BSend, r.prop in ("M01", "ALL"))
    st = W.state()
    ip = Interp(W.p)
    pk, d, N, fl = W.gw_packet(st, mtype)
    lo, hi = FORMS[form]
    W.fact(st, N - lo, "ge")
    W.fact(st, const(hi) - N, "ge")
    W.the_event = W.event(st, etype, "client", gw=pk)
    init = {c: initial(W, st, c) for c in NETS}
    conf = {f: W.get(st, "gateway", "Gateway", "_params." + f) for f in ("brokerName", "port", "portSecure", "rootCApath", "rootCAfile", "certKey", "privateKey")}
    outs, where = W.analyse(r, st)
    if r.prop in ("M01", "O01"):
        return

    def spec(o):
        e = Exp()
        e.ignore.add("netClose")
        if etype == "EtStop":
            e.ends = True
            return e
        t = o.one_of(o.get("client", "Client", "_clientType")[2], sorted(W.CT.values()))
        secure = not o.eq(o.get("net", "Network", "_secureFlg")[2])
        cl = "client"
        proxy = None
        if t in (W.CT["Ctype_QoS_1"], W.CT["Ctype_Aggregated"]):
            cl = ("qosm1" if t == W.CT["Ctype_QoS_1"] else "aggr") + "_client" + ("S" if secure else "")
            o.label("sent by its adapter's client")
            secure = not o.eq(o.get(NETS[cl], "Network", "_secureFlg")[2])
        net = B(NETS[cl])
        was = [x[2] for x in o.events("was") if x[1] == net]
        if not was:
            raise Missing("connection")
        others = [x for x in o.st.ghost if x[0] == "conn" and x[1] != net]
        e.checks.append(("other connections are left alone", not others, "%s" % others))
        now = o.st.ghost.get(("conn", net))
        connect = mtype == MQ["CONNECT"]
        if connect or was[0] != "open":
            o.label("connects")

            def chk(o, x):
                if x[1] != net:
                    return "another connection"
                if x[2] == "open":
                    return "the old connection is still open"
                names = ("brokerName", "portSecure", "rootCApath", "rootCAfile", "certKey", "privateKey") if secure else ("brokerName", "port")
                return None if x[3] == tuple(conf[f] for f in names) else "connects to %s instead of %s" % (x[3], names)
            e.mut("netConnect", "connects to the configured broker%s" % (" with TLS" if secure else ""), chk)
            c = [x for x in o.events("netConnect")]
            if not c:
                return e
            if not c[0][4]:
                o.label("fails")
                e.checks.append(("the connection is closed", now == "closed" or not secure, "it is %s" % now))
                return e

        def sent(o, x):
            if x[1] != net:
                return "another connection"
            if x[6] != "open":
                return "connection is %s" % x[6]
            st = o.st.copy()
            st.mem.update(dict(x[4]))
            if x[2][0] != "P":
                return "no data"
            by = lambda k: ip.load(st, x[2][1], x[2][2] + k, 1, "i8")[2]
            if not same_int(st.facts, 8, by(0), fl + 16 * mtype):
                return "first byte is %s" % by(0)
            nb = bits_of(28, N, st.facts)
            for k in range(form + 1):
                c = by(1 + k)
                cont = int(k < form)
                cb = bits_of(8, c, st.facts)
                if not (None not in nb and cb == nb[7 * k:7 * k + 7] + [cont] or form == 0 and same_int(st.facts, 8, c, N)):
                    return "byte %d of the remaining length is %s" % (k + 1, c)
            if not st.facts.entails_eq(x[3] - (N + form + 2)):
                return "%s bytes sent, should be %s" % (x[3], N + form + 2)
            if not st.facts.entails_eq(N) and not same_bytes(ip, st, x[2][1], x[2][2] + form + 2, d[1], d[2], N):
                return "the data is not the packet's"
            if connect and not st.facts.entails_eq(dict(x[7])[cl] - W.ST["Cstat_Connecting"]):
                return "the client isn't connecting when CONNECT is sent"
            return None
        e.mut("netSend", "the packet is sent unchanged", sent)
        s = [x for x in o.events("netSend")]
        if not s:
            return e
        if connect:
            e.final[(cl, "status")] = W.ST["Cstat_Connecting"]
        v = s[0][5][2]
        sv = o.get("client", "Client", "_status")   # (keeps the path's facts)
        f = o.st.facts
        neg = f.add_ge(v - (1 << 31)) if f.entails(v) else f.add_ge(-v - 1)
        ok = o.choose([("ok", f.add_ge(v - 1) and f.add_ge(v - 1).add_ge(const((1 << 31) - 1) - v)), ("zero", f.add_eq(v)), ("error", neg)])
        if ok == "ok":
            if mtype == MQ["DISCONNECT"]:
                o.label("left")
                e.final[(cl, "status")] = W.ST["Cstat_Disconnected"]
                e.final[(cl, "waitWill")] = 0
                e.checks.append(("the connection is closed", now == "closed", "it is %s" % now))
            else:
                e.checks.append(("the connection stays open", now == "open", "it is %s" % now))
            return e
        o.label("sending fails")
        if not o.eq(ip.load(o.st, ("g", "errno"), ZERO, 4, "i32")[2], 9):
            e.checks.append(("the connection is closed", now == "closed", "it is %s" % now))
        e.posts.append(("packetEventQue", "EtBrokerRecv", B(cl), ("gw", MQ["DISCONNECT"], None, ())))
        return e

    n = 0
    for out in outs:
        if out.kind != "exit":
            n += tcheck(r, "packet for the broker (%s)" % mtype if etype == "EtBrokerSend" else etype, W, out, init, spec, where, client=tuple(NETS))
    r.count("broker_paths", n)


# ------------------------------------------------------------------ packets of the broker
SOCKS = dict(client=5, client2=70)
RNET = dict(client="net", client2="net2")
STREAM = dict(client="stream", client2="stream2")
GOOD = ("CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBACK", "UNSUBACK", "PINGRESP")


class BRecv(TW):
    """the task that reads the connections: two clients, each connected or not; select and the connections are contracts.
    detail: reads may fail, end, and return less than was asked for (up to two times in a packet)"""

    def __init__(self, detail, logs):
        self.detail, self.logs = detail, logs
        TW.__init__(self, "BrokerRecvTask")

    def state(self):
        st = TW.state(self)
        ip = Interp(self.p)
        for c, n in RNET.items():
            buf(st, n)
            buf(st, STREAM[c])
            ip.store(st, B(c), self.off("Client", "_network"), 8, P(B(n)))
        ip.store(st, B("client"), self.off("Client", "_nextClient"), 8, P(B("client2")))
        ip.store(st, B("client2"), self.off("Client", "_nextClient"), 8, NULL)
        ip.store(st, B("client"), self.off("Client", "_prevClient"), 8, NULL)
        ip.store(st, B("client2"), self.off("Client", "_prevClient"), 8, P(B("client")))
        return st

    def more_contracts(self):
        TW.more_contracts(self)
        M, W, p = self.models, self, self.p
        who = {B(n): c for c, n in RNET.items()}
        if not self.logs:
            for f in ("MQTTGWPacket::print", "MQTTGWPacket::getMsgId"):
                M[f] = lambda ip, st, a, ins, fr: [(st, a[-1])]

        def byindex(ip, st, a, ins, fr):
            k = a[1][2]
            if k.t:
                raise build.AnalysisBroken("ClientList::getClient of an unknown index")
            return [(st, P(B(("client", "client2")[k.c])) if 0 <= k.c < 2 else NULL)]
        M[W.mangled("ClientList::getClient", "Ei")] = byindex

        def valid(ip, st, a, ins, fr):
            k = ("conn", a[0][1])
            if st.ghost.get(k) in ("closed", "invalid"):
                return [(st, I(1, 0))]
            s0 = st.copy()
            if ("selected",) in st.ghost:       # another task may have closed it meanwhile
                s0.ghost[k] = "invalid"
                s0.event("gone", a[0][1])
                return [(st, I(1, 1)), (s0, I(1, 0))]
            if k in st.ghost:
                return [(st, I(1, 1))]
            s0.ghost[k], st.ghost[k] = "invalid", "open"
            s0.event("was", a[0][1], "invalid")
            st.event("was", a[0][1], "open")
            return [(s0, I(1, 0)), (st, I(1, 1))]
        M["Network::isValid"] = valid

        def close(ip, st, a, ins, fr):
            st.ghost[("conn", a[0][1])] = "closed"
            return [(st, ("U", "void"))]
        M["Network::close"] = close

        def word(ip, st, v, i):
            x = ip.load(st, v[1], v[2] + 8 * i, 8, "i64")[2]
            return x.c if not x.t else None

        def select(ip, st, a, ins, fr):
            if a[1][0] != "P":
                st.event("select", a[0][2], None)
                return [(st, I(32, 0))]
            ws = {i: word(ip, st, a[1], i) for i in range(16)}
            if None in ws.values():
                raise build.AnalysisBroken("the set given to select is not known")
            fds = tuple(64 * i + j for i in range(16) for j in range(64) if ws[i] >> j & 1)
            st.event("select", a[0][2], fds)
            st.ghost[("selected",)] = True
            out = []
            subsets = [()]
            for f in fds:
                subsets += [x + (f,) for x in subsets]
            if len(fds) > 3:
                subsets = [fds]
            for sub in subsets:
                for rv in ([1] if sub else [-1, 0]):
                    s = st.copy()
                    if rv >= 0:
                        for i in range(16):
                            ip.store(s, a[1][1], a[1][2] + 8 * i, 8, I(64, sum(1 << (f - 64 * i) for f in sub if f // 64 == i)))
                    s.event("ready", sub)
                    out.append((s, I(32, len(sub) if sub else rv)))
            return out
        M["select"] = select
        M["usleep"] = lambda ip, st, a, ins, fr: [(st, I(32, 0))]

        def rd(ip, st, a, ins, fr):
            o, n = a[0][1], a[2][2]
            c = who.get(o, "client")
            k = ("pos", o)
            at = st.ghost.get(k, ZERO)
            ip.access(st, "store", a[1], n, ins, fr)
            out = []
            if W.detail:
                for rv in (-1, 0):
                    s = st.copy()
                    s.ghost[("broken", o)] = rv if st.facts.entails_eq(at) else -1
                    s.event("netRead", o, "end" if rv == 0 else "error", at)
                    out.append((s, I(32, rv)))
            short = st.ghost.get(("short", o), 0)
            one = st.facts.entails_eq(n - 1)
            if W.detail and not one and short < 2:
                s = st.copy()
                r = var(("sym", st.fresh("read"), 1, 65535))
                if W.fact(s, n - 1 - r, "ge") and W.fact(s, r - 1, "ge"):
                    s.ghost[("short", o)] = short + 1
                    if a[1][0] == "P":
                        ip.copy_blob(s, a[1][1], a[1][2], r, B(STREAM[c]), at)
                    s.ghost[k] = at + r
                    out.append((s, I(32, r)))
            if a[1][0] == "P":
                if one:
                    ip.store(st, a[1][1], a[1][2], 1, ip.load(st, B(STREAM[c]), at, 1, "i8"))
                else:
                    ip.copy_blob(st, a[1][1], a[1][2], n, B(STREAM[c]), at)
            st.ghost[k] = at + n
            out.append((st, I(32, n)))
            return out
        M["Network::recv"] = rd

    def interp(self, monitor=None):
        ip = TW.interp(self, monitor)
        ip.unroll = 9
        if self.logs:
            ip.unroll_in = lambda fn: fn.key != 'MQTTGWPacket::print'
        return ip


def broker_recv(r, case):
    detail, reader, nbytes, mtype = case
    W = tworld(BRecv, detail, r.prop in ("M01", "ALL"))
    st = W.state()
    ip = Interp(W.p)
    # the form of the remaining length in the streams that are read
    SOCK = dict(zip(SOCKS, list(SOCKS.values())[::-1])) if reader == "swapped" else SOCKS
    for c, n in RNET.items():
        ip.store(st, B(n), W.off("Network", "_sockfd"), 4, I(32, SOCK[c]))
    if W.logs and nbytes in (3, 4):       # as two bytes
        return
    for c in SOCK:
        ip.store(st, B(STREAM[c]), ZERO, 1, I(8, var(("sym", "%s.flags" % STREAM[c], 0, 15)) + 16 * mtype))
        for k in range(min(nbytes, 4)):
            x = ip.load(st, B(STREAM[c]), Lin(1 + k), 1, "i8")[2]
            cont = k < nbytes - 1 or nbytes == 5
            lowbits = var(("sym", "%s.len%d" % (STREAM[c], k), 0, (127, 127, 3, 0)[k]))       # packets of up to 65535 bytes
            ip.store(st, B(STREAM[c]), Lin(1 + k), 1, I(8, lowbits + (128 if cont else 0)))
    if detail:
        other = [c for c in SOCK if c != reader][0]
        st.ghost[("conn", B(RNET[other]))] = "invalid"
        st.event("was", B(RNET[other]), "invalid")
    init = {c: initial(W, st, c) for c in SOCK}
    st0 = {c: tuple(ip.load(st, B(STREAM[c]), Lin(k), 1, "i8")[2] for k in range(5)) for c in SOCK}
    outs, where = W.analyse(r, st)
    if r.prop in ("M01", "O01"):
        return

    def spec(o):
        e = Exp()
        e.ignore.add("netClose")
        if o.eq(o.W_signal, 2):
            o.label("stopping")
            e.ends = True
            return e
        was = {x[1]: x[2] for x in o.events("was")}
        valid = [c for c in SOCK if was.get(B(RNET[c])) == "open"]
        unk = [c for c in SOCK if B(RNET[c]) not in was]
        e.checks.append(("every connection is considered", not unk, "%s is not" % unk))
        sel = o.events("select")
        if valid:
            want = tuple(sorted(SOCK[c] for c in valid))
            e.checks.append(("every open connection is waited for", len(sel) == 1 and sel[0][2] == want and not sel[0][1].t and sel[0][1].c > max(want), "select(%s), open sockets %s" % (sel and sel[0][1:], want)))
        ready = o.events("ready")
        ready = ready[0][1] if ready else ()
        gone = {x[1] for x in o.events("gone")}
        for c in SOCK:
            net = B(RNET[c])
            now = o.st.ghost.get(("conn", net))
            if net in gone:
                continue
            pos = o.st.ghost.get(("pos", net), ZERO)
            bad = o.st.ghost.get(("broken", net))
            if c not in valid or SOCK[c] not in ready:
                e.checks.append(("a connection without data is left alone", ("pos", net) not in o.st.ghost and bad is None and now != "closed", "%s: %s" % (c, now)))
                continue
            stat = init[c]["status"]
            if bad == 0:
                o.label("ended by the broker")
                e.checks.append(("the connection is closed", now == "closed", "it is %s" % now))
                e.final[(c, "status")] = W.ST["Cstat_Disconnected"]
                e.final[(c, "waitWill")] = 0
                continue
            if bad == -1 or nbytes == 5:
                o.label("reading fails" if bad == -1 else "malformed")
                s = o.one_of(stat, [W.ST[x] for x in ("Cstat_Active", "Cstat_Asleep", "Cstat_Awake")])
                if s is None:
                    raise DontCare()
                e.checks.append(("the connection is closed", now == "closed", "it is %s" % now))
                e.final[(c, "status")] = W.ST["Cstat_Disconnected"]
                e.final[(c, "waitWill")] = 0
                continue
            e.checks.append(("the connection stays open", now == "open", "it is %s" % now))
            b = st0[c]
            n, mul = ZERO, 1
            for k in range(nbytes):
                n = n + (b[1 + k] - (128 if k < nbytes - 1 else 0)).scale(mul)
                mul *= 128
            e.checks.append(("the whole packet is read and nothing beyond it", o.st.facts.entails_eq(pos - (n + nbytes + 1)), "%s bytes were read, the packet has %s" % (pos, n + nbytes + 1)))
            if mtype not in [MQ[x] for x in GOOD]:
                o.label("not for a client")
                e.ignore.add("packetEventQue")      # it has no effect, be it posted (H08) or not
                continue
            e.posts.append(("packetEventQue", "EtBrokerRecv", B(c), ("raw", b[0], n, B(STREAM[c]), Lin(nbytes + 1))))
        return e

    n = 0
    for out in outs:
        n += tcheck(r, "packets of the broker", W, out, init, spec, where, client=tuple(SOCK))
    r.count("stream_paths", n)


# ranges of message types that are analysed separately
TYPES = [(0, 3), (4, 4), (5, 11), (12, 12), (13, 0x1f), (0x20, 0xfd), (0xfe, 0xff)]
CASES = {"recv": lambda t: [(q, f, w, pq) for q in (0, 1) for f in ("short", "long") for w in TYPES for pq in ((0, 1, 2, 3) if w[0] == w[1] == SN["PUBLISH"] else (0,))],
         "client_send": lambda t: [(e, w, f) for e in ("EtClientSend", "EtBroadcast", "EtSensornetSend", "EtStop") for w in ((0, 1) if e == "EtClientSend" else (0,)) for f in ("short", "long")],
         "broker_send": lambda t: [("EtBrokerSend", m, f) for m in MQTYPES for f in range(len(FORMS))] + [("EtStop", MQTYPES[0], 0)],
         "broker_recv": lambda t: [(1, c, k, MQ["PUBLISH"]) for c in SOCKS for k in (1, 2, 3, 4, 5)] + [(0, "both", 1, m) for m in range(16)] + [(0, "swapped", 1, MQ["PINGRESP"])]}


TABLES = {"R01": ("eque", "clients", "fwd"), "R02": ("eque", "fwd"), "R03": ("eque",), "R04": ("eque", "clients")}


def table(r, case):
    import tables
    tables.CONTRACTS[case[0]](r)


def run_cases(r, *names):
    cases = [("table", n) for n in TABLES.get(r.prop, ())] + [(n,) + tuple(k) for n in names for k in CASES[n](r.tier)]

    def one(q, k):
        q.case_name = " ".join(str(x) for x in k)
        globals()[k[0]](q, k[1:])
    prog("gw:udp")
    if r.prop in TABLES:
        r.rule("queues, clients and forwarders do what the task relies on: each operation on every list of 0 to %d entries with unknown contents" % (3 if r.tier == "quick" else 4))
    pmap(r, cases, one)


def R01(r):
    r.rule("a datagram becomes exactly one event for the client it came from, or is discarded: ADVERTISE, GWINFO, malformed and unauthorised ones")
    run_cases(r, "recv")
    r.floor("datagram paths", r.counts.get("datagram_paths", 0), 20)


def R02(r):
    r.rule("a queued packet is sent once and unchanged: broadcast, to the address of the event, to the client's address, or encapsulated to its forwarder")
    run_cases(r, "client_send")
    r.floor("paths of the client send task", r.counts.get("send_paths", 0), 8)


def R03(r):
    r.rule("a packet for the broker is sent byte by byte on the client's connection (its adapter's for a QoS-1 or aggregated one), which is opened first when needed; failures end the connection and tell the handling thread")
    run_cases(r, "broker_send")
    r.floor("paths of the broker send task", r.counts.get("broker_paths", 0), 50)


def R04(r):
    r.rule("every open connection is waited for; what arrives on it becomes one event per packet for its client, however the stream is cut into pieces; its end or a failure closes it and disconnects the client")
    run_cases(r, "broker_recv")
    r.floor("paths of the broker receive task", r.counts.get("stream_paths", 0), 50)


def ALLT(r):
    run_cases(r, *CASES)


def M01(r):
    import handlers
    handlers.M01(r)
    run_cases(r, *CASES)


def O01(r):
    import handlers
    handlers.O01(r)
    run_cases(r, *CASES)


REG = {"R01": R01, "R02": R02, "R03": R03, "R04": R04, "M01": M01, "O01": O01}
