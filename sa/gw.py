"""A world for the gateway: what surrounds the message handlers, as abstract objects and contracts.

The handlers are analysed from the packet handling thread's run() loop (one iteration, one received event), with every
gateway function between there and the tables/queues analysed in place.  Tables and queues are contracts here
(each is decided separately); what reaches them is recorded as the path's trace.
"""
import build
from ai import *
from codec import prog
from report import loc
from lin import Lin, ZERO, const, var

STATUS = ["Cstat_Free", "Cstat_Disconnected", "Cstat_TryConnecting", "Cstat_Connecting", "Cstat_Active", "Cstat_Asleep", "Cstat_Awake", "Cstat_Lost"]

B = lambda n: ("buf", n)


def buf(st, name, size=None):
    o = B(name)
    st.mem[o] = Content(("sym", 0))
    if size is not None:
        st.sizes[o] = size if isinstance(size, Lin) else Lin(size)
    return P(o)


def heapbuf(st, name, size=None, base=("sym", 0)):
    o = ("heap", name, 0)
    st.mem[o] = Content(base)
    if size is not None:
        st.sizes[o] = size if isinstance(size, Lin) else Lin(size)
    return P(o)


# ------------------------------------------------------------------ externals
STR = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
KSTR = "_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"


def str_make(ip, st, S, data, n, site):
    """std::string object S gets a private copy of n bytes at data"""
    if S[0] != "P":
        return
    o = ("strbuf", st.fresh(site))
    st.mem[o] = Content(("sym", 0))
    st.sizes[o] = n + 1
    if data is not None and data[0] == "P":
        ip.copy_blob(st, o, ZERO, n, data[1], data[2])
    ip.store(st, o, n, 1, I(8, 0))
    ip.store(st, S[1], S[2], 8, P(o))
    ip.store(st, S[1], S[2] + 8, 8, I(64, n))
    st.ghost[("strof", o)] = (S[1], S[2])


def str_data(ip, st, S):
    v = ip.load(st, S[1], S[2], 8, "ptr")
    if v[0] == "P" and lazy(v[1]):
        st.null[v[1]] = False
        L = ip.load(st, S[1], S[2] + 8, 8, "i64")[2]
        f = st.facts.add_ge(L)
        st.facts = f or st.facts
        st.sizes.setdefault(v[1], L + 1)
        st.ghost.setdefault(("strof", v[1]), (S[1], S[2]))
    return v


def str_len(ip, st, S):
    v = ip.load(st, S[1], S[2] + 8, 8, "i64")
    if v[0] == "I":
        st.facts = st.facts.add_ge(v[2]) or st.facts
        st.facts = st.facts.add_ge(const((1 << 30)) - v[2]) or st.facts
    return v


def m_str_cstr(ip, st, a, ins, fr):
    return [(st, str_data(ip, st, a[0]))] if a[0][0] == "P" else None


def m_str_len(ip, st, a, ins, fr):
    return [(st, str_len(ip, st, a[0]))] if a[0][0] == "P" else None


def m_str_ctor_c(ip, st, a, ins, fr):
    n = ip.strlen_of(st, a[1], fr)
    ip.access(st, "load", a[1], n + 1, ins, fr)
    str_make(ip, st, a[0], a[1], n, "str@%s.%s" % (fr.ctx, ins.get("_n", 0)))
    return [(st, ("U", "void"))]


def m_str_ctor_cn(ip, st, a, ins, fr):
    n = a[2][2] if a[2][0] == "I" else var(("sym", st.fresh("n"), 0, None))
    ip.access(st, "load", a[1], n, ins, fr)
    str_make(ip, st, a[0], a[1], n, "str@%s.%s" % (fr.ctx, ins.get("_n", 0)))
    return [(st, ("U", "void"))]


def m_str_ctor_range(ip, st, a, ins, fr):
    b, e = a[1], a[2]
    if b[0] == "P" and e[0] == "P" and b[1] == e[1]:
        n = e[2] - b[2]
    else:
        n = var(("sym", st.fresh("n"), 0, None))
    ip.access(st, "load", b, n, ins, fr)
    str_make(ip, st, a[0], b, n, "str@%s.%s" % (fr.ctx, ins.get("_n", 0)))
    return [(st, ("U", "void"))]


def m_str_ctor_0(ip, st, a, ins, fr):
    str_make(ip, st, a[0], None, ZERO, "str@%s.%s" % (fr.ctx, ins.get("_n", 0)))
    return [(st, ("U", "void"))]


def m_str_ctor_copy(ip, st, a, ins, fr):
    if a[1][0] == "P":
        str_make(ip, st, a[0], str_data(ip, st, a[1]), str_len(ip, st, a[1])[2], "str@%s.%s" % (fr.ctx, ins.get("_n", 0)))
    return [(st, ("U", "void"))]


def m_str_assign(ip, st, a, ins, fr):
    m_str_ctor_copy(ip, st, a, ins, fr)
    return [(st, a[0])]


def m_str_assign_c(ip, st, a, ins, fr):
    m_str_ctor_c(ip, st, a, ins, fr)
    return [(st, a[0])]


def m_nop(ip, st, a, ins, fr):
    return [(st, ("U", "void"))]


def m_str_havoc(ip, st, a, ins, fr):
    if a[0][0] == "P":
        str_make(ip, st, a[0], None, var(("sym", st.fresh("slen@%s.%s" % (fr.ctx, ins.get("_n", 0))), 0, 1 << 30)), "str@%s.%s" % (fr.ctx, ins.get("_n", 0)))
    return [(st, a[0] if ins.get("ty") == "ptr" else ("U", "void"))]


STRINGS = {
    KSTR + "5c_strEv": m_str_cstr, KSTR + "4dataEv": m_str_cstr, KSTR + "6lengthEv": m_str_len, KSTR + "4sizeEv": m_str_len,
    STR + "C1EPKcRKS3_": m_str_ctor_c, STR + "C2EPKcRKS3_": m_str_ctor_c,
    STR + "C1EPKcmRKS3_": m_str_ctor_cn, STR + "C2IPcvEET_S7_RKS3_": m_str_ctor_range,
    STR + "C1IPcvEET_S7_RKS3_": m_str_ctor_range,
    STR + "C1ERKS4_": m_str_ctor_copy, STR + "C1Ev": m_str_ctor_0, STR + "D1Ev": m_nop, STR + "aSERKS4_": m_str_assign,
    STR + "C1IS3_EEPKcRKS3_": m_str_ctor_c, STR + "C2IS3_EEPKcRKS3_": m_str_ctor_c, STR + "C2EPKcmRKS3_": m_str_ctor_cn, STR + "C2ERKS4_": m_str_ctor_copy,
    STR + "C1EOS4_": m_str_ctor_copy, STR + "C2EOS4_": m_str_ctor_copy, STR + "C2Ev": m_str_ctor_0, STR + "D2Ev": m_nop, STR + "6assignEPKc": m_str_assign_c,
    STR + "aSEOS4_": m_str_assign, STR + "aSEPKc": m_str_assign_c, STR + "pLEPKc": m_str_havoc,
    "_ZNSt15__new_allocatorIcED2Ev": m_nop, "_ZNSaIcEC1Ev": m_nop, "_ZNSaIcED1Ev": m_nop,
    "_ZNSt15__new_allocatorIcEC2Ev": m_nop,
    "currentDateTime": lambda ip, st, a, ins, fr: [(st, P(("g", "<now>")))],
    "Process::putLog": m_nop,
}


def m_free(ip, st, a, ins, fr):
    p = a[0]
    if p[0] == "P" and not lazy(p[1]) or p[0] == "P" and st.null.get(p[1]) is False:
        o = p[1]
        ip.on_free(st, o, p[2], ins, fr)
        st.ghost[("freed", o)] = True
    elif p[0] == "P" and st.null.get(p[1]) is None:
        st.ghost[("freed", p[1])] = True
    return [(st, ("U", "void"))]


FREE = {n: m_free for n in ("free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm")}


# ------------------------------------------------------------------ queues
def snap(st, ip, p):
    """content of a packet object (and of the buffer it owns) at this point"""
    if p[0] != "P":
        return ()
    objs, out = [p[1]], []
    seen = set()
    while objs:
        o = objs.pop()
        if o in seen:
            continue
        seen.add(o)
        c = ip.content(st, o)
        out.append((o, c))
        for e in c.log:
            if e[0] == "w" and e[3][0] == "P" and e[3][1][0] in ("heap", "buf", "alloca"):
                objs.append(e[3][1])
    return tuple(out)


class Post:
    where = ""
    """an event handed to a queue"""
    KEY = ("que", "type", "client", "addr", "sn", "gw", "mem", "ev")

    def __init__(self, **k):
        for a, v in k.items():
            setattr(self, a, v)

    def key(self):
        return tuple(getattr(self, a) for a in self.KEY)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Post) and self.key() == o.key()

    def __repr__(self):
        return "Post(%s type=%s client=%s sn=%s gw=%s)" % (self.que, self.type, self.client, self.sn, self.gw)


class World:
    def __init__(self, kind="gw:udp", stored=0, aggr=False, qosm1=None):
        self.p = p = prog(kind)
        self.stored = stored
        self.aggr = aggr
        self.qosm1 = qosm1
        self.models = {}
        self.ip = Interp(p)
        self.models.update(STRINGS)
        self.models.update(FREE)
        self.contracts()
        self.off = lambda t, f: Lin(p.off(t, f))
        self.E = {k: p.enums[k] for k in ("EtStop", "EtTimeout", "EtBrokerRecv", "EtBrokerSend", "EtClientRecv", "EtClientSend", "EtBroadcast", "EtSensornetSend")}
        self.CT = {k: p.enums[k] for k in ("Ctype_Normal", "Ctype_Forwarded", "Ctype_QoS_1", "Ctype_Aggregated", "Ctype_Proxy", "Ctype_Aggregater")}
        self.ST = {k: p.enums[k] for k in STATUS}

    # -- state
    def state(self):
        p, off = self.p, self.off
        st = State()
        for n in ("task", "gateway", "client", "clientTopics", "gwTopics", "am", "aggr", "qosm1", "net", "clist", "fwdlist", "proxy", "proxyS", "aggr_client", "qosm1_client"):
            buf(st, n)
        ip = Interp(p)
        put = lambda o, t, f, v: ip.store(st, B(o), off(t, f), 8, v)
        put("task", "PacketHandleTask", "_gateway", P(B("gateway")))
        put("gateway", "Gateway", "_adapterManager", P(B("am")))
        put("gateway", "Gateway", "_clientList", P(B("clist")))
        put("gateway", "Gateway", "_topics", P(B("gwTopics")))
        for c in ("client", "client2"):
            self.client(st, c)
        for f, o in (("_forwarders", "fwdlist"), ("_qosm1Proxy", "qosm1"), ("_aggregater", "aggr"), ("_gateway", "gateway")):
            put("am", "AdapterManager", f, P(B(o)))
        for o in ("aggr", "qosm1"):
            for f, v in (("_gateway", "gateway"), ("_proxy", "proxy"), ("_proxySecure", "proxyS"), ("_client", o + "_client"), ("_clientSecure", o + "_client")):
                put(o, "Adapter", f, P(B(v)))
        for t, o, v in (("Aggregater", "aggr", self.aggr), ("QoSm1Proxy", "qosm1", self.qosm1)):
            for path, fo, bits, m in p.flat_fields(t):
                if path == "_isActive" and v is not None:
                    ip.store(st, B(o), Lin(fo), 1, I(8, int(v)))
        put("proxy", "Proxy", "_gateway", P(B("gateway")))
        put("proxyS", "Proxy", "_gateway", P(B("gateway")))
        for i in range(self.stored):
            d = heapbuf(st, "storeddata%d" % i, var(("sym", "storedlen%d" % i, 0, 0xfffffff)))
            k = heapbuf(st, "stored%d" % i, p.types["MQTTGWPacket"]["size"])
            ip.store(st, k[1], off("MQTTGWPacket", "_data"), 8, d)
            ip.store(st, k[1], off("MQTTGWPacket", "_remainingLength"), 4, I(32, var(("sym", "storedlen%d" % i, 0, 0xfffffff))))
            st.ghost[("held", k[1])] = True
        # the handler objects the task was constructed with
        n = 0
        for path, o, bits, m in p.flat_fields("PacketHandleTask"):
            if m[4] == "ptr" and m[3].endswith("Handler*"):
                t = m[3].rstrip("*").split("::")[-1]
                h = "handler:" + t
                buf(st, h)
                gwo = [x for x in p.flat_fields(t) if x[0] == "_gateway"]
                if gwo:
                    ip.store(st, B(h), Lin(gwo[0][1]), 8, P(B("gateway")))
                ip.store(st, B("task"), Lin(o), 8, P(B(h)))
                n += 1
        if n < 7:
            raise build.AnalysisBroken("PacketHandleTask has %d handler fields" % n)
        return st

    def client(self, st, name):
        ip = Interp(self.p)
        buf(st, name)
        buf(st, name + "Topics")
        ip.store(st, B(name), self.off("Client", "_topics"), 8, P(B(name + "Topics")))
        ip.store(st, B(name), self.off("Client", "_network"), 8, P(B("net")))
        S = ip.load(st, B(name), self.off("Client", "_status"), 4, "i32")
        st.facts = st.facts.add_ge(S[2] - 1).add_ge(const(7) - S[2])
        C = ip.load(st, B(name), self.off("Client", "_clientType"), 4, "i32")
        st.facts = st.facts.add_ge(C[2]).add_ge(const(5) - C[2])
        for f in ("_holdPingRequest", "_waitWillMsgFlg", "_sessionStatus", "_secureNetwork"):
            x = ip.load(st, B(name), self.off("Client", f), 1, "i8")
            st.facts = st.facts.add_ge(const(1) - x[2])
        # a client that exists has an id (ClientList::createClient sets it)
        ci = ip.load(st, B(name), self.off("Client", "_clientId"), 8, "ptr")
        st.null[ci[1]] = False

    def fact(self, st, L, op="eq"):
        f = {"eq": st.facts.add_eq, "ge": st.facts.add_ge, "ne": st.facts.add_ne}[op](L)
        if f is None:
            return False
        st.facts = f
        return True

    def get(self, st, o, t, f, size=None):
        p = self.p
        for path, off, bits, m in p.flat_fields(t):
            if path == f:
                size = size or bits // 8 or 1
                ty = "ptr" if m[4] == "ptr" else "i%d" % (8 * size)
                return Interp(p).load(st, o if isinstance(o, tuple) else B(o), Lin(off), size, ty)
        raise build.AnalysisBroken("field %s.%s" % (t, f))

    # -- input packets
    def sn_packet(self, st, mtype, form, n=None, name="sn", flags=None):
        """a received MQTT-SN packet of the given type (None: any) and length form; its object and buffer"""
        N = var(("sym", "snlen", 2, 65535)) if n is None else n
        b = heapbuf(st, name, N)
        pk = heapbuf(st, name + "pkt", self.p.types["MQTTSNPacket"]["size"])
        ip = Interp(self.p)
        ip.store(st, pk[1], self.off("MQTTSNPacket", "_buf"), 8, b)
        ip.store(st, pk[1], self.off("MQTTSNPacket", "_bufLen"), 4, I(32, N))
        ll = 1 if form == "short" else 3
        by = lambda k: ip.load(st, b[1], Lin(k), 1, "i8")[2]
        if form == "short":
            self.fact(st, by(0) - N)
            self.fact(st, by(0) - 2, "ge")
            self.fact(st, N - 2, "ge")
        else:
            self.fact(st, by(0) - 1)
            self.fact(st, by(1).scale(256) + by(2) - N)
            self.fact(st, N - 4, "ge")
        if mtype is not None:
            self.fact(st, by(ll) - mtype)
            ip.store(st, b[1], Lin(ll), 1, I(8, mtype))
        if flags is not None:
            ip.store(st, b[1], Lin(ll + 1), 1, I(8, flags))
        return pk, b, N, ll

    def gw_packet(self, st, mtype, flags=None, name="gw"):
        N = var(("sym", name + "len", 0, 0xfffffff))
        d = heapbuf(st, name, N)
        pk = heapbuf(st, name + "pkt", self.p.types["MQTTGWPacket"]["size"])
        ip = Interp(self.p)
        ip.store(st, pk[1], self.off("MQTTGWPacket", "_data"), 8, d)
        ip.store(st, pk[1], self.off("MQTTGWPacket", "_remainingLength"), 4, I(32, N))
        h = ip.load(st, pk[1], self.off("MQTTGWPacket", "_header"), 1, "i8")[2]
        fl = var(("sym", "hflags", 0, 15)) if flags is None else flags if isinstance(flags, Lin) else Lin(flags)
        ip.store(st, pk[1], self.off("MQTTGWPacket", "_header"), 1, I(8, fl + 16 * mtype))
        return pk, d, N, fl

    def event(self, st, etype, client=None, sn=None, gw=None, name="event"):
        ev = heapbuf(st, name, self.p.types["Event"]["size"], ("zero",))
        ip = Interp(self.p)
        o = self.off
        ip.store(st, ev[1], o("Event", "_eventType"), 4, I(32, self.E[etype]))
        if client:
            ip.store(st, ev[1], o("Event", "_client"), 8, P(B(client)))
        if sn:
            ip.store(st, ev[1], o("Event", "_mqttSNPacket"), 8, sn)
        if gw:
            ip.store(st, ev[1], o("Event", "_mqttGWPacket"), 8, gw)
        return ev

    def same_key(self, ip, st, name, a, b):
        from codec import same_bytes
        x, y = a[1], b[1]
        if len(x) != 4 or len(y) != 4:
            return False
        if name == "topicById":
            return same_int(st.facts, 32, x[0][2], y[0][2]) and same_int(st.facts, 16, x[1][2], y[1][2])
        return x[2] == y[2] and same_int(st.facts, 32, x[3][2], y[3][2]) or \
            x[2][0] == "P" and y[2][0] == "P" and st.facts.entails_eq(x[3][2] - y[3][2]) and same_bytes(ip, st, x[2][1], x[2][2], y[2][1], y[2][2], x[3][2])

    # -- contracts
    def que_name(self, v):
        if v[0] != "P":
            return "?"
        o = v[1]
        if o == B("gateway") and not v[2].t:
            for path, off, b, m in self.p.flat_fields("Gateway"):
                if off == v[2].c and m[3].split("::")[-1] == "EventQue":
                    return path.strip("_")
        return str(o)

    def post(self, ip, st, a, ins, fr):
        ev = a[1]
        o = self.off
        where = loc(fr.fn, ins, fr)
        if ev[0] != "P":
            st.event("post", Post(where=where, que=self.que_name(a[0]), type=None, client=NULL, addr=NULL, sn=NULL, gw=NULL, mem=(), ev=ev))
            return [(st, ("U", "void"))]
        L = lambda f, n, ty: ip.load(st, ev[1], ev[2] + o("Event", f), n, ty)
        sn, gw = L("_mqttSNPacket", 8, "ptr"), L("_mqttGWPacket", 8, "ptr")
        ty = L("_eventType", 4, "i32")
        st.event("post", Post(where=where, que=self.que_name(a[0]), type=ty[2].c if not ty[2].t else None, client=L("_client", 8, "ptr"),
                              addr=L("_sensorNetAddr", 8, "ptr"), sn=sn, gw=gw, mem=snap(st, ip, sn) + snap(st, ip, gw), ev=ev))
        st.ghost[("given", ev[1])] = True
        return [(st, ("U", "void"))]

    def timedwait(self, ip, st, a, ins, fr):
        q = self.que_name(a[0])
        if ("waited",) in st.ghost or q != self.wait_que:
            return [Outcome(st, ("U", "exit"), "exit")]
        st.ghost[("waited",)] = True
        return [(st, self.the_event)]

    wait_que = "packetEventQue"
    the_event = None

    def lookup(self, name, tsize, keyargs, found=None):
        """contract of a table look-up: null, or an entry"""
        def m(ip, st, a, ins, fr):
            args = tuple(a)
            s0 = st.copy()
            s0.event(name, self.norm(ip, s0, args), None)
            k = self.norm(ip, st, args)
            o = ("ret", st.fresh(name))
            st.null[o] = False
            if found:
                found(ip, st, a, o)
            st.event(name, k, o)
            return [(s0, NULL), (st, P(o))]
        return m

    def norm(self, ip, st, args):
        return tuple(args)

    def contracts(self):
        M = self.models
        W = self

        def tid(ip, st, v):
            """what a MQTTSN_topicid argument says: type, id, name pointer, name length, short bytes"""
            if v[0] != "P":
                return ("?",)
            g = lambda f, n, ty: ip.load(st, v[1], v[2] + W.off("MQTTSN_topicid", f), n, ty)
            return (g("type", 4, "i32"), g("data.id", 2, "i16"), g("data.long_.name", 8, "ptr"), g("data.long_.len", 4, "i32"))

        def topic_obj(ip, st, o, T):
            """facts every entry of a topic table satisfies: it has a name"""
            s = ip.load(st, o, W.off("Topic", "_topicName"), 8, "ptr")[1]
            st.null[s] = False
            n = str_len(ip, st, P(s))[2]
            W.fact(st, const(65535) - n, "ge")

        def seen(ip, st, name, k):
            """an earlier look-up of the same key in the same, unmodified table"""
            for e in reversed(st.trace):
                if e[0] in ("topicAdd", "topicAddNamed", "topicsEraseNormal") and (e[1] == k[0] or e[1][0] == k[0]):
                    return None
                if e[0] == name and e[1][0] == k[0] and W.same_key(ip, st, name, e[1], k):
                    return e
            return None

        def two(name, fmt, after=None, null=True):
            def m(ip, st, a, ins, fr):
                k = fmt(ip, st, a)
                out = []
                if name in ("topicByName", "topicById", "topicMatch"):
                    e = seen(ip, st, name, k)
                    if e is not None:
                        return [(st, NULL if e[2] is None else P(e[2]))]
                if null:
                    s0 = st.copy()
                    s0.event(name, k, None)
                    out.append((s0, NULL))
                o = ("ret", st.fresh(name))
                st.null[o] = False
                topic_obj(ip, st, o, a)
                if after:
                    after(ip, st, o, a, k)
                st.event(name, k, o)
                return out + [(st, P(o))]
            return m

        tbl = lambda a: a[0][1] if a[0][0] == "P" else "?"

        def named(ip, st, o, data, n):
            """the entry's name is n bytes at data"""
            S = ("strobj", o[1])
            st.mem[S] = Content(("sym", 0))
            str_make(ip, st, P(S), data, n, "name:%s" % (o[1],))
            b = ip.load(st, S, ZERO, 8, "ptr")
            st.ghost[("strof", b[1])] = (S, ZERO)
            ip.store(st, o, W.off("Topic", "_topicName"), 8, P(S))

        def found_id(ip, st, o, a, k):
            t = ip.load(st, o, W.off("Topic", "_type"), 4, "i32")
            i = ip.load(st, o, W.off("Topic", "_topicId"), 2, "i16")
            W.fact(st, t[2] - k[1][0][2])
            W.fact(st, i[2] - k[1][1][2])

        def found_name(ip, st, o, a, k):
            W.fact(st, ip.load(st, o, W.off("Topic", "_type"), 4, "i32")[2], "ge")
            W.fact(st, const(1) - ip.load(st, o, W.off("Topic", "_type"), 4, "i32")[2], "ge")
            W.fact(st, ip.load(st, o, W.off("Topic", "_topicId"), 2, "i16")[2] - 1, "ge")

        def found_same(ip, st, o, a, k):
            found_name(ip, st, o, a, k)
            named(ip, st, o, k[1][2], k[1][3][2])
        byname = two("topicByName", lambda ip, st, a: (tbl(a), tid(ip, st, a[1])), found_same)
        byid = two("topicById", lambda ip, st, a: (tbl(a), tid(ip, st, a[1])), found_id)
        M["Topics::getTopicByName"] = byname
        M["Topics::getTopicById"] = byid
        M["Topics::match"] = two("topicMatch", lambda ip, st, a: (tbl(a), tid(ip, st, a[1])), found_name)

        def add(ip, st, a, ins, fr):
            if len(a) == 2:
                return two("topicAdd", lambda ip, st, a: (tbl(a), tid(ip, st, a[1])), found_same)(ip, st, a, ins, fr)

            def nm(ip, st, o, a, k):
                found_name(ip, st, o, a, k)
                named(ip, st, o, k[1], ip.strlen_of(st, k[1], None))
            return two("topicAddNamed", lambda ip, st, a: (tbl(a), a[1], a[2]), nm)(ip, st, a, ins, fr)
        M["Topics::add"] = add

        def eraseN(ip, st, a, ins, fr):
            for e in st.trace:
                if e[0] in ("topicByName", "topicMatch", "topicById", "topicAdd", "topicAddNamed") and e[2] and e[1][0] == tbl(a):
                    t = ip.load(st, e[2], W.off("Topic", "_type"), 4, "i32")[2]
                    if st.facts.entails_eq(t):
                        st.ghost[("freed", e[2])] = True
            st.event("topicsEraseNormal", tbl(a))
            return [(st, ("U", "void"))]
        M["Topics::eraseNormal"] = eraseN

        which = lambda a: next((f for f in ("_waitedPubTopicIdMap", "_waitedSubTopicIdMap") if a[0][0] == "P" and W.off("Client", f) == a[0][2]), "?")

        def idget(ip, st, a, ins, fr):
            k = (a[0][1] if a[0][0] == "P" else "?", which(a), a[1])
            for e in reversed(st.trace):
                if e[0] in ("idmapAdd", "idmapErase", "idmapClear"):
                    break
                if e[0] == "idmapGet" and e[1][:2] == k[:2] and same_int(st.facts, 16, e[1][2][2], k[2][2]):
                    return [(st, NULL if e[2] is None else P(e[2]))]
            s0 = st.copy()
            s0.event("idmapGet", k, None)
            o = ("ret", st.fresh("idmapGet"))
            st.null[o] = False
            st.event("idmapGet", k, o)
            return [(s0, NULL), (st, P(o))]

        def idadd(ip, st, a, ins, fr):
            st.event("idmapAdd", (a[0][1], which(a), a[1], a[2], tid(ip, st, a[3])))
            return [(st, NULL)]

        def idev(n):
            def m(ip, st, a, ins, fr):
                for e in st.trace:
                    if e[0] == "idmapGet" and e[2] and e[1][:2] == (a[0][1] if a[0][0] == "P" else "?", which(a)) and (n == "idmapClear" or same_int(st.facts, 16, e[1][2][2], a[1][2])):
                        st.ghost[("freed", e[2])] = True
                st.event(n, (a[0][1] if a[0][0] == "P" else "?", which(a)) + tuple(a[1:]))
                return [(st, ("U", "void"))]
            return m
        M["TopicIdMap::getElement"] = idget
        M["TopicIdMap::add"] = idadd
        M["TopicIdMap::erase"] = idev("idmapErase")
        M["TopicIdMap::clear"] = idev("idmapClear")

        # queues
        M["EventQue::post"] = W.post
        M["EventQue::timedwait"] = W.timedwait
        M["EventQue::wait"] = W.timedwait

        def pq_get(ip, st, a, ins, fr):
            n = st.ghost.get(("pq", a[0][1], a[0][2]), None)
            if n is None:
                n = W.stored
            if n == 0:
                return [(st, NULL)]
            i = W.stored - n
            return [(st, P(("heap", "stored%d" % i, 0)))]

        def pq_pop(ip, st, a, ins, fr):
            k = ("pq", a[0][1], a[0][2])
            n = st.ghost.get(k, W.stored)
            st.event("pqPop", a[0][1], a[0][2], n)
            if n:
                st.ghost[("held", ("heap", "stored%d" % (W.stored - n), 0))] = False
                st.ghost[k] = n - 1
            return [(st, ("U", "void"))]

        def pq_post(ip, st, a, ins, fr):
            s0 = st.copy()
            s0.event("pqPost", a[0][1], a[0][2], a[1], snap(s0, ip, a[1]), False)
            st.event("pqPost", a[0][1], a[0][2], a[1], snap(st, ip, a[1]), True)
            if a[1][0] == "P":
                st.ghost[("given", a[1][1])] = True
            return [(s0, I(32, 0)), (st, I(32, 1))]
        for t in ("MQTTGWPacket", "MQTTSNPacket"):
            for f, m in (("getPacket", pq_get), ("pop", pq_pop), ("post", pq_post)):
                M["PacketQue<MQTTSNGW::%s>::%s" % (t, f)] = m
                M["PacketQue<%s>::%s" % (t, f)] = m

        def wset(ip, st, a, ins, fr):
            st.event("regackSet", a[0][1], a[2], a[1], snap(st, ip, a[1]))
            if a[1][0] == "P":
                st.ghost[("given", a[1][1])] = True
            return [(st, I(32, 1))]

        def wget(ip, st, a, ins, fr):
            for e in reversed(st.trace):
                if e[0] in ("regackSet", "regackErase"):
                    break
                if e[0] == "regackGet" and same_int(st.facts, 16, e[2][2], a[1][2]):
                    return [(st, NULL if e[3] is None else P(e[3]))]
            s0 = st.copy()
            s0.event("regackGet", a[0][1], a[1], None)
            heapbuf(st, "pending", W.p.types["MQTTSNPacket"]["size"])
            st.ghost[("held", ("heap", "pending", 0))] = True
            st.event("regackGet", a[0][1], a[1], ("heap", "pending", 0))
            return [(s0, NULL), (st, P(("heap", "pending", 0)))]

        def werase(ip, st, a, ins, fr):
            for e in st.trace:
                if e[0] == "regackGet" and e[3] and same_int(st.facts, 16, e[2][2], a[1][2]):
                    st.ghost[("held", e[3])] = False
            st.event("regackErase", a[0][1], a[1])
            return [(st, ("U", "void"))]

        def wcount(ip, st, a, ins, fr):
            v = sym(st.fresh("regackCount"), 8)
            st.event("regackCount", v)
            return [(st, v)]
        M["WaitREGACKPacketList::setPacket"] = wset
        M["WaitREGACKPacketList::getPacket"] = wget
        M["WaitREGACKPacketList::erase"] = werase
        M["WaitREGACKPacketList::getCount"] = wcount

        # timers and threads
        def tstart(ip, st, a, ins, fr):
            st.event("timer", a[0][1] if a[0][0] == "P" else "?", a[0][2] if a[0][0] == "P" else "?")
            return [(st, ("U", "void"))]
        M["Timer::start"] = tstart
        M["Timer::stop"] = m_nop
        M["Timer::isTimeup"] = lambda ip, st, a, ins, fr: [(st, ("C", "opq", st.fresh("timeup")))]
        M["Thread::getTaskName"] = lambda ip, st, a, ins, fr: [(st, P(("g", "<name>")))]
        M["Mutex::lock"] = m_nop
        M["Mutex::unlock"] = m_nop

        def close(ip, st, a, ins, fr):
            st.event("netClose", a[0][1])
            return [(st, ("U", "void"))]
        M["Network::close"] = close

        # aggregation
        def conv(ip, st, a, ins, fr):
            out = []
            for keep, s1 in ip.split(st.copy(), ip.tocond(a[3])) if len(a) > 3 else [(False, st)]:
                for found in (False, True):
                    s0 = s1.copy()
                    v = sym("convId", 16) if found else I(16, 0)
                    if a[2][0] == "P":
                        ip.store(s0, a[2][1], a[2][2], 2, v)
                    s0.event("convertClient", a[1], B("client2") if found else None, v, keep)
                    out.append((s0, P(B("client2")) if found else NULL))
            return out
        M["MessageIdTable::getClientMsgId"] = conv

        def mtadd(ip, st, a, ins, fr):
            v = sym(st.fresh("aggrId"), 16)
            s0 = st.copy()
            s0.event("aggrAdd", a[-2], a[-1], None)
            o = ("ret", st.fresh("aggrElm"))
            st.null[o] = False
            W.fact(st, ip.load(st, o, W.off("MessageIdElement", "_msgId"), 2, "i16")[2] - 1, "ge")
            st.event("aggrAdd", a[-2], a[-1], o)
            return [(s0, NULL), (st, P(o))]
        M["MessageIdTable::add"] = mtadd

        def mtget(ip, st, a, ins, fr):
            v = sym(st.fresh("aggrGot"), 16)
            st.event("aggrGet", a[-2], a[-1], v)
            return [(st, v)]
        M["MessageIdTable::getMsgId"] = mtget

        def tt(n):
            def m(ip, st, a, ins, fr):
                T = a[1]
                nm = ip.load(st, T[1], T[2] + W.off("Topic", "_topicName"), 8, "ptr") if T[0] == "P" else NULL
                d = (str_data(ip, st, nm), str_len(ip, st, nm)) if nm[0] == "P" else ()
                x = (n, d, snap(st, ip, d[0]) if d else (), a[2] if len(a) > 2 else None)
                if n == "aggrTopicHas":
                    s0 = st.copy()
                    s0.event(*x, False)
                    st.event(*x, True)
                    o = ("ret", st.fresh("aggrTopic"))
                    st.null[o] = False
                    return [(s0, NULL), (st, P(o))]
                st.event(*x)
                return [(st, P(("ret", st.fresh(n))) if ins.get("ty") == "ptr" else ("U", "void"))]
            return m
        M["AggregateTopicTable::add"] = tt("aggrTopicAdd")
        M["AggregateTopicTable::erase"] = tt("aggrTopicErase")
        M["AggregateTopicTable::find"] = tt("aggrTopicHas")

    # -- running
    def check_models(self):
        for k in self.models:
            if "::" in k and not k.startswith("PacketQue<") and k not in self.p.bykey:
                raise build.AnalysisBroken("contract for %s: no such function" % k)

    def interp(self, monitor=None):
        ip = Interp(self.p, self.models, max_depth=40, max_states=2000, budget=3000000)
        ip.merge_at = 400
        ip.peel_big = True
        ip.once = lambda fn: fn.key.endswith("Task::run")
        ip.on_free = (lambda st, o, off, ins, fr: None) if monitor is None else monitor.on_free
        if monitor is not None:
            ip.on_access = monitor.on_access
            monitor.ip = ip
        return ip


# ------------------------------------------------------------------ memory monitor
class Monitor:
    """bounds of every access to an object of known size, no use after free, no double free, no null dereference"""

    def __init__(self, r, tag, prefix=""):
        self.r = r
        self.tag = tag
        self.ip = None
        self.n = 0

    def key(self, fr, ins, what):
        return "%s:%s in %s" % (what, "", fr.fn.key)

    def on_access(self, st, kind, ptr, n, ins, fr):
        r = self.r
        where = loc(fr.fn, ins, fr)
        if st.facts.entails_eq(n):
            return      # nothing is accessed
        if ptr[0] != "P":
            if ptr[0] == "N":
                r.ob("%s: null pointer not dereferenced" % fr.fn.key, False, "%s through a null pointer" % kind, where)
            return
        o, off = ptr[1], ptr[2]
        if o[0] == "g" and o[1] == "<null>":
            r.ob("%s: null pointer not dereferenced" % fr.fn.key, False, "%s through a null pointer" % kind, where)
            return
        if lazy(o) and st.null.get(o) is True:
            r.ob("%s: null pointer not dereferenced" % fr.fn.key, False, "%s through a null pointer (%s)" % (kind, obj_short(o)), where)
            return
        self.n += 1
        if st.ghost.get(("freed", o)):
            r.ob("%s: no use after free" % fr.fn.key, False, "%s of freed %s" % (kind, obj_short(o)), where)
            return
        size = st.sizes.get(o)
        if size is None and o[0] == "g":
            g = self.ip.prog.globals.get(o[1])
            size = Lin(g["size"]) if g and g.get("size") else None
        if size is None:
            return
        f = st.facts
        ok = f.entails_eq(n) or f.entails(-n) or (f.entails(off) and f.entails(size - off - n))
        r.ob("%s: accesses stay inside %s" % (fr.fn.key, obj_kind(o)), ok, "%s of %s bytes at %s of %s (size %s) on [%s]" % (kind, n, off, obj_short(o), size, self.tag), where)

    def on_free(self, st, o, off, ins, fr):
        if o[0] in ("buf", "alloca", "g"):
            self.r.ob("%s: frees heap memory only" % fr.fn.key, False, "free of %s" % (obj_short(o),), loc(fr.fn, ins, fr))
        self.r.ob("%s: frees memory once" % fr.fn.key, not st.ghost.get(("freed", o)), "double free of %s" % (obj_short(o),), loc(fr.fn, ins, fr))


def obj_kind(o):
    if o[0] == "alloca":
        return "local"
    if o[0] == "heap":
        return "heap buffer"
    return o[0]


def leaked(ip, st, result=None):
    """heap objects allocated on this path that nobody owns at its end"""
    roots = set()
    for k, v in st.ghost.items():
        if k[0] in ("given", "held") and v:
            roots.add(k[1])
    if result is not None and result[0] == "P":
        roots.add(result[1])
    for o, c in st.mem.items():
        if o[0] not in ("heap", "alloca", "strbuf"):
            for e in c.log:
                if e[0] == "w" and e[3][0] == "P":
                    roots.add(e[3][1])
    seen = set()
    wl = list(roots)
    while wl:
        o = wl.pop()
        if o in seen:
            continue
        seen.add(o)
        c = st.mem.get(o)
        if c is None:
            continue
        for e in c.log:
            if e[0] == "w" and e[3][0] == "P":
                wl.append(e[3][1])
            if e[0] == "cp":
                for e2 in e[3].log:
                    if e2[0] == "w" and e2[3][0] == "P":
                        wl.append(e2[3][1])
    return [o for o in st.mem if o[0] == "heap" and not st.ghost.get(("freed", o)) and o not in seen]
