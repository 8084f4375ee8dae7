"""S01: the sensor network over UDP and UDP6.  Initialization, sending and receiving are interpreted from the object's constructor on, against contracts
of the socket calls, which may fail anywhere; the state that initialization leaves is the one in which sending and receiving are judged."""
import build
from gw import *
from oracle import pmap
from tasks import field
from text import Part, T, show
from conf import Conf, flag
from report import loc

POLLIN = 1
SOL_SOCKET, REUSEADDR = 1, 2
MAXLEN = 65535


class V4:
    kind, cls, family, alen = "udp", "UDPPort", 2, 16
    address, port = (4, 4), (2, 2)
    params = dict(multicast="MulticastIP", mport="MulticastPortNo", uport="GatewayPortNo", ttl="MulticastTTL")
    level, join, hops = 0, 35, 33
    any = (Lin(0),)
    text = lambda self, ip, port: T(ip, ":", port)


class V6:
    kind, cls, family, alen = "udp6", "UDPPort6", 10, 28
    address, port = (8, 16), (2, 2)
    params = dict(multicast="MulticastIPv6", mport="MulticastIPv6PortNo", uport="GatewayIPv6PortNo", ttl="MulticastHops", interface="MulticastIPv6If")
    level, join, hops = 41, 20, 18
    any = (Lin(0), Lin(0))
    text = lambda self, ip, port: T("[", ip, "]:", port)


def swapped(v):
    """a 16 bit number in network order"""
    return from_bits(16, (lambda b: b[8:] + b[:8])(bits_of(16, v, State().facts)), State().facts)


class Net(Conf):
    def __init__(self, V, conf=None):
        Conf.__init__(self, "gw:" + V.kind)
        self.V = V
        p, tx, M = self.p, self.texts, self.models
        conf = conf or {}

        def getparam(ip, st, a, ins, fr):
            n = a[1] if len(a) == 3 else a[0]
            name = "".join(tx.cstr(ip, st, n, ins, fr))
            t = conf.get(name)
            if t is None:
                return [(st, I(32, -2))]
            ip.access(st, "store", a[-1], const(1), ins, fr)
            tx.fill(ip, st, a[-1][1], a[-1][2], t)
            return [(st, I(32, 0))]
        M["Process::getParam"] = getparam

        def failing(name, args, on=None, values=(-1, 0)):
            def m(ip, st, a, ins, fr):
                out = []
                for v in values:
                    s = st.copy()
                    s.event("sys", name, args(ip, s, a, ins, fr), v)
                    if on and v == values[-1]:
                        on(ip, s, a)
                    out.append((s, I(32, v)))
                return out
            M[name] = m

        def fd(ip, st, v, ins, fr):
            """the number of an open socket"""
            if v[0] != "I" or v[2].t or not st.ghost.get(("socket", v[2].c)):
                st.event("misuse", "socket %s, which is not open" % (v[1:],), loc(fr.fn, ins, fr))
                return None
            return v[2].c

        def socket(ip, st, a, ins, fr):
            s0 = st.copy()
            n = st.ghost.get(("sockets",), 0)
            st.ghost[("sockets",)] = n + 1
            st.ghost[("socket", 100 + n)] = True
            st.event("sys", "socket", tuple(x[2] for x in a), 100 + n)
            s0.event("sys", "socket", tuple(x[2] for x in a), -1)
            return [(s0, I(32, -1)), (st, I(32, 100 + n))]
        M["socket"] = socket

        def close(ip, st, a, ins, fr):
            n = fd(ip, st, a[0], ins, fr)
            if n is not None:
                st.ghost[("socket", n)] = False
                st.event("sys", "close", n, 0)
            return [(st, I(32, 0))]
        M["close"] = close

        def where(ip, st, q):
            """(family, port, address, scope)"""
            x = lambda o, n: ip.load(st, q[1], q[2] + o, n, "i%d" % (8 * n))[2]
            return (x(0, 2), x(*V.port), tuple(x(V.address[0] + k, min(8, V.address[1])) for k in range(0, V.address[1], 8))) + ((x(24, 4),) if V.kind == "udp6" else (ZERO,))

        def bind(ip, st, a, ins, fr):
            n = fd(ip, st, a[0], ins, fr)
            ip.access(st, "load", a[1], a[2][2], ins, fr)
            return (n, where(ip, st, a[1]))
        failing("bind", bind)

        def option(ip, st, a, ins, fr):
            n = fd(ip, st, a[0], ins, fr)
            size = a[4][2]
            ip.access(st, "load", a[3], size, ins, fr)
            v = tuple(ip.load(st, a[3][1], a[3][2] + k, 4, "i32")[2] for k in range(0, min(size.c, 24), 4)) if not size.t and a[3][0] == "P" and size.c % 4 == 0 else None
            v8 = tuple(ip.load(st, a[3][1], a[3][2] + k, 8, "i64")[2] for k in range(0, size.c - 7, 8)) if not size.t and a[3][0] == "P" and size.c >= 16 else None
            return (n, a[1][2], a[2][2], v, v8)
        failing("setsockopt", option)

        def inet(ip, st, t):
            if len(t) == 1 and isinstance(t[0], Part) and not t[0].name.startswith("bad"):
                if V.kind == "udp":
                    return (var(("sym", "address:" + t[0].name, 0, 0xfffffffe)),)
                return tuple(var(("sym", "address%d:" % k + t[0].name, -(1 << 63), (1 << 63) - 1)) for k in (0, 1))
            return None
        self.inet = inet

        def inet_addr(ip, st, a, ins, fr):
            v = inet(ip, st, tx.cstr(ip, st, a[0], ins, fr))
            return [(st, I(32, v[0] if v else 0xffffffff))]
        if V.kind == "udp":
            M["inet_addr"] = inet_addr

        def pton(at):
            def m(ip, st, a, ins, fr):
                v = inet(ip, st, tx.cstr(ip, st, a[at], ins, fr))
                if v is None:
                    return [(st, I(32, 0))]
                ip.access(st, "store", a[at + 1], const(V.address[1]), ins, fr)
                w = min(8, V.address[1])
                for k, x in enumerate(v):
                    ip.store(st, a[at + 1][1], a[at + 1][2] + 8 * k, w, I(8 * w, x))
                return [(st, I(32, 1))]
            return m
        M["inet_pton"], M["inet_aton"] = pton(1), pton(0)
        M["if_nametoindex"] = lambda ip, st, a, ins, fr: [(st, I(32, var(("sym", "index:" + show(tx.cstr(ip, st, a[0], ins, fr)), 0, 1 << 20))))]

        def flags(st, v, ok, ins, fr):
            if v.t or v.c & ~ok:
                st.event("misuse", "flags %s" % (v,), loc(fr.fn, ins, fr))

        def sendto(ip, st, a, ins, fr):
            flags(st, a[3][2], 0x4000 | 0x40, ins, fr)          # MSG_NOSIGNAL, MSG_DONTWAIT
            n = fd(ip, st, a[0], ins, fr)
            ip.access(st, "load", a[1], a[2][2], ins, fr)
            ip.access(st, "load", a[4], a[5][2], ins, fr)
            s0 = st.copy()
            for s, v in ((s0, const(-1)), (st, a[2][2])):
                s.event("sys", "sendto", (n, a[1], a[2][2], where(ip, s, a[4]), a[5][2]), v)
            return [(s0, I(64, -1)), (st, I(64, a[2][2]))]
        M["sendto"] = sendto

        def poll(ip, st, a, ins, fr):
            if a[1][2].t or a[0][0] != "P":
                raise build.AnalysisBroken("sensor: poll of an unknown number of sockets")
            k = a[1][2].c
            ip.access(st, "load", a[0], const(8 * k), ins, fr)
            fds = tuple(fd(ip, st, ip.load(st, a[0][1], a[0][2] + 8 * j, 4, "i32"), ins, fr) for j in range(k))
            ev = tuple(ip.load(st, a[0][1], a[0][2] + 8 * j + 4, 2, "i16")[2] for j in range(k))
            out = []
            for m in range(-1, 1 << k):
                s = st.copy()
                if m >= 0:
                    for j in range(k):
                        ip.store(s, a[0][1], a[0][2] + 8 * j + 6, 2, I(16, POLLIN if m >> j & 1 else 0))
                ready = tuple(f for j, f in enumerate(fds) if m > 0 and m >> j & 1)
                s.event("sys", "poll", (fds, ev, a[2][2]), ready if m >= 0 else -1)
                out.append((s, I(32, bin(m).count("1") if m >= 0 else -1)))
            return out
        M["poll"] = poll

        def recvfrom(ip, st, a, ins, fr):
            flags(st, a[3][2], 0x100 | 0x40, ins, fr)           # MSG_WAITALL, MSG_DONTWAIT
            n = fd(ip, st, a[0], ins, fr)
            ip.access(st, "store", a[1], a[2][2], ins, fr)
            size = ip.load(st, a[5][1], a[5][2], 4, "i32")[2] if a[5][0] == "P" else None
            s0 = st.copy()
            s0.event("sys", "recvfrom", (n, a[1], a[2][2], None), -1)
            ip.havoc(st, a[1][1], a[1][2], a[2][2])
            if a[4][0] == "P":
                if size is None or size.t or size.c < V.alen:
                    st.event("misuse", "the sender's address has %s bytes" % (size,), loc(fr.fn, ins, fr))
                ip.access(st, "store", a[4], const(V.alen), ins, fr)
                ip.store(st, a[4][1], a[4][2], 2, I(16, V.family))
                ip.store(st, a[4][1], a[4][2] + V.port[0], 2, I(16, var(("sym", "sender's port", 0, 65535))))
                w = min(8, V.address[1])
                for k in range(0, V.address[1], 8):
                    ip.store(st, a[4][1], a[4][2] + V.address[0] + k, w, I(8 * w, self.sender()[k // 8]))
                if V.kind == "udp6":
                    ip.store(st, a[4][1], a[4][2] + 24, 4, I(32, self.scope()))
            c = var(("sym", st.fresh("received"), 0, MAXLEN))
            st.facts = st.facts.add_ge(a[2][2] - c)
            st.event("sys", "recvfrom", (n, a[1], a[2][2], None), c)
            return [(s0, I(64, -1)), (st, I(64, c))]
        M["recvfrom"] = recvfrom

    def sender(self):
        if self.V.kind == "udp":
            return (var(("sym", "sender's address", 0, 0xffffffff)),)
        return tuple(var(("sym", "sender's address%d" % k, -(1 << 63), (1 << 63) - 1)) for k in (0, 1))

    def scope(self):
        return var(("sym", "sender's interface", 0, 1 << 20)) if self.V.kind == "udp6" else ZERO

    def constants(self, st):
        for k in (0, 8):
            Interp(self.p).store(st, ("g", "in6addr_any"), const(k), 8, I(64, 0))

    def start(self, r):
        """the network object after its constructor"""
        st = State()
        buf(st, "net", self.p.types["SensorNetwork"]["size"])
        st.mem[B("net")] = Content(("undef", 0))
        self.constants(st)
        outs = [o for o in self.run(r, self.p.fn("SensorNetwork::SensorNetwork"), [P(B("net"))], st) if o.kind == "ret"]
        if len(outs) != 1:
            raise build.AnalysisBroken("sensor: the constructor has %d ends" % len(outs))
        outs[0].st.trace = ()
        return outs[0].st

    def run(self, r, fn, args, st, unroll=4):
        outs = Conf.run(self, r, fn, args, st, unroll)
        for o in outs:
            bad = [x for x in o.st.trace if x[0] == "misuse"]
            r.ob("%s: sockets are used rightly" % fn.key, not bad, "%s" % (bad[:1],), bad[0][2] if bad else loc(fn))
        return outs


def over(p, key, pred):
    fs = [f for f in p.bykey.get(key, ()) if pred(f)]
    if len(fs) != 1:
        raise build.AnalysisBroken("%s: %d functions" % (key, len(fs)))
    return fs[0]


def calls(st, name, ok=None):
    return [x for x in st.trace if x[0] == "sys" and x[1] == name and (ok is None or (x[3] == 0) == ok)]


def opened(st):
    return [k[1] for k, v in st.ghost.items() if k[0] == "socket" and v]


def finite(L):
    return not L.t and 0 <= L.c <= 60000


def run_network(r, case):
    V, missing = case
    V = V()
    name = {k: Part(k, lo=1, hi=65535) if k in ("mport", "uport") else Part(k, lo=0, hi=255) if k == "ttl" else Part(k) for k in V.params}
    conf = {n: (name[k],) for k, n in V.params.items() if k not in missing}
    W = Net(V, conf)
    p = W.p
    st = W.start(r)
    init = p.fn("SensorNetwork::initialize")
    net = P(B("net"))
    where = loc(init)
    num = lambda k: W.texts.number((name[k],), 32)
    group = W.inet(None, st, (name["multicast"],))
    hops = num("ttl") if "ttl" not in missing else Lin(1)
    lab = V.kind + ": "
    for o in W.run(r, init, [net], st):
        s = o.st
        bound = {x[2][0]: x[2][1] for x in calls(s, "bind", True)}
        if o.kind == "throw":
            r.count("failing starts")
            why = [x for x in s.trace if x[0] == "sys" and x[3] == -1]
            r.ob(lab + "it starts if it is configured and nothing fails", bool(why) or bool({"mport", "uport"} & set(missing)), "it does not start although no call has failed", where)
        else:
            r.count("starts")
            failed = [x for x in s.trace if x[0] == "sys" and x[1] in ("socket", "bind") and x[3] == -1 or x[0] == "sys" and x[1] == "setsockopt" and x[3] == -1 and x[2][2] in (const(V.join), const(V.hops)) and x[2][1] == const(V.level)]
            r.ob(lab + "it starts only if its sockets are open, bound and in the group", o.kind == "ret" and not failed, "ends with %s after %s" % (o.kind, failed[:1]), where)
            r.ob(lab + "it starts only with both ports", not {"mport", "uport"} & set(missing), "without %s" % (missing,), where)
            if failed or o.kind != "ret" or {"mport", "uport"} & set(missing):
                continue
            to = lambda k: [n for n, (f, q, a, z) in bound.items() if f == const(V.family) and s.facts.entails_eq(q - swapped(num(k))) and a == V.any and n in opened(s)]
            u, m = to("uport"), to("mport")
            if not r.ob(lab + "one socket is bound to the gateway's port and one to the multicast port, on every interface", len(u) == 1 and len(m) == 1 and len(opened(s)) == 2, "bound %s" % (bound,), where):
                continue
            kinds = {x[3]: x[2] for x in calls(s, "socket")}
            r.ob(lab + "its sockets are datagram sockets", all(kinds[n][:2] == (const(V.family), const(2)) and kinds[n][2] in (ZERO, const(17)) for n in u + m), "%s" % kinds, where)
            opt = lambda lev, k: [x for x in calls(s, "setsockopt", True) if x[2][1] == const(lev) and x[2][2] == const(k)]
            join = [x for x in opt(V.level, V.join) if x[2][0] == m[0]]
            if V.kind == "udp":
                good = bool(join) and join[0][2][3] is not None and s.facts.entails_eq(join[0][2][3][0] - group[0]) and join[0][2][3][1] == ZERO
            else:
                idx = var(("sym", "index:" + show((name["interface"],)), 0, 1 << 20)) if "interface" not in missing else ZERO
                good = bool(join) and join[0][2][4] is not None and all(s.facts.entails_eq(x - y) for x, y in zip(join[0][2][4], group)) and s.facts.entails_eq(join[0][2][3][4] - idx)
            r.ob(lab + "the multicast socket joins the group that is configured", good, "%s" % (join,), where)
            reuse = [i for i, x in enumerate(s.trace) if x[0] == "sys" and x[1] == "setsockopt" and x[2][:3] == (m[0], const(SOL_SOCKET), const(REUSEADDR)) and x[2][3] not in (None, (ZERO,))]
            at = [i for i, x in enumerate(s.trace) if x[0] == "sys" and x[1] == "bind" and x[2][0] == m[0]]
            r.ob(lab + "the multicast port can be shared with other programs on the host", bool(reuse) and reuse[0] < at[0], "", where)
            after(r, V, W, s, net, u[0], m[0], group, num, hops, opt)
        # whatever happened: closing it releases all
        e = s.copy()
        e.trace = ()
        fin = over(p, "SensorNetwork::~SensorNetwork", lambda f: "D0E" not in f.name)
        for o2 in W.run(r, fin, [net], e):
            r.ob(lab + "no socket is left open at its end%s" % (" after a failing start" if o.kind == "throw" else ""), o2.kind == "ret" and not opened(o2.st), "%s left open, %s" % (opened(o2.st), [x[1:] for x in s.trace if x[0] == "sys"][-3:]), where)


def after(r, V, W, st, net, u, m, group, num, hops, opt):
    p = W.p
    lab = V.kind + ": "
    # broadcast
    fn = p.fn("SensorNetwork::broadcast")
    s = st.copy()
    s.trace = ()
    n = var(("sym", "length", 1, MAXLEN))
    data = buf(s, "payload", n)
    ok = [0, 0]
    for o in W.run(r, fn, [net, data, I(16, n)], s):
        c = calls(o.st, "sendto")
        good = o.kind == "ret" and len(c) == 1
        if r.ob(lab + "a broadcast is one datagram", good, "%d" % len(c), loc(fn)):
            f, d, l, dest, dl = c[0][2]
            r.ob(lab + "a broadcast goes to the group, at its port", dest[0] == const(V.family) and o.st.facts.entails_eq(dest[1] - swapped(num("mport"))) and all(o.st.facts.entails_eq(x - y) for x, y in zip(dest[2], group)), "to %s" % (dest,), loc(fn))
            r.ob(lab + "a broadcast is sent unchanged", d == data and o.st.facts.entails_eq(l - n), "%s bytes at %s" % (l, d), loc(fn))
            r.ob(lab + "a broadcast goes as far as is configured", any(x[2][0] == f and x[2][3] is not None and len(x[2][3]) == 1 and o.st.facts.entails_eq(x[2][3][0] - hops) for x in opt(V.level, V.hops)), "the socket it is sent on has not the TTL that is configured", loc(fn))
            res(r, lab + "broadcast", o, c[0][3], fn)
            ok[0] += 1
    # receive, and answer; then receive again
    fn, un = p.fn("SensorNetwork::read"), p.fn("SensorNetwork::unicast")

    size = var(("sym", "size", 1, MAXLEN))

    def receive(o, again, data):
        polls, recvs = calls(o.st, "poll"), calls(o.st, "recvfrom")
        if not r.ob(lab + "receiving returns", o.kind == "ret", "ends with %s" % o.kind, loc(fn)):
            return
        good = bool(polls) and all(set(x[2][0]) == {u, m} and all(not (e.t or not e.c & POLLIN) for e in x[2][1]) for x in polls)
        if not r.ob(lab + "it waits for datagrams on both sockets", good, "%s" % (polls,), loc(fn)):
            return
        r.ob(lab + "it does not wait for ever", all(finite(x[2][2]) for x in polls), "time-out %s" % polls[-1][2][2], loc(fn))
        ready = polls[-1][3] if polls[-1][3] != -1 else ()
        r.ob(lab + "it reads only where a datagram has arrived", len(recvs) <= 1 and all(x[2][0] in ready for x in recvs), "reads %s, ready are %s" % ([x[2][0] for x in recvs], ready), loc(fn))
        if not ready:
            r.ob(lab + "without a datagram it returns nothing", o.st.facts.entails(-o.val[2]) and o.st.facts.entails(o.val[2] + 1), "returns %s" % o.val[2], loc(fn))
            return
        if not r.ob(lab + "a datagram that has arrived is read", len(recvs) == 1, "", loc(fn)):
            return
        f, d, l, _ = recvs[0][2]
        r.ob(lab + "a datagram is read whole into the caller's buffer", d == data and o.st.facts.entails_eq(l - size), "%s bytes at %s" % (l, d), loc(fn))
        res(r, lab + "receive", o, recvs[0][3], fn)
        if again or recvs[0][3] == -1:
            return
        ok[1] += 1
        a = [x for x in W.run(r, p.fn("SensorNetwork::getSenderAddress"), [net], o.st.copy()) if x.kind == "ret"]
        if len(a) != 1 or a[0].val[0] != "P":
            raise build.AnalysisBroken("sensor: the sender's address is not known")
        s2 = a[0].st
        s2.trace = ()
        data2 = buf(s2, "answer", n)
        for o2 in W.run(r, un, [net, data2, I(16, n), a[0].val], s2):
            c = calls(o2.st, "sendto")
            if r.ob(lab + "a packet is one datagram", o2.kind == "ret" and len(c) == 1, "%d" % len(c), loc(un)):
                f, d, l, dest, dl = c[0][2]
                eq = o2.st.facts.entails_eq
                r.ob(lab + "an answer goes to the sender, from the gateway's port", f == u and dest[0] == const(V.family) and eq(dest[1] - var(("sym", "sender's port", 0, 65535))) and all(eq(x - y) for x, y in zip(dest[2], W.sender())) and eq(dest[3] - W.scope()), "from %s to %s" % (f, dest), loc(un))
                r.ob(lab + "a packet is sent unchanged", d == data2 and eq(l - n), "%s bytes at %s" % (l, d), loc(un))
                res(r, lab + "send", o2, c[0][3], un)
    todo = [(st, False)]
    while todo:
        s, again = todo.pop()
        s = s.copy()
        s.trace = ()
        data = buf(s, "packet", size)
        outs = W.run(r, fn, [net, data, I(16, size)], s)
        if not again:
            todo += [(o.st, True) for o in outs if o.kind == "ret"]
        for o in outs:
            receive(o, again, data)
    r.count("broadcasts", ok[0])
    r.count("receptions", ok[1])


def res(r, lab, o, want, fn):
    """the result is what the system said (an error as a negative number)"""
    if want == -1 or want == const(-1):
        r.ob(lab + ": a failure is reported", o.st.facts.entails(-o.val[2] - 1), "returns %s" % o.val[2], loc(fn))
    elif lab.endswith("receive"):
        r.ob(lab + ": the length is what was received", o.st.facts.entails_eq(o.val[2] - want), "returns %s" % o.val[2], loc(fn))
    else:
        r.ob(lab + ": success is not reported as a failure", o.st.facts.entails(o.val[2]), "returns %s" % o.val[2], loc(fn))


def addresses(r, case):
    """an address from its text, used; two addresses compared"""
    V, form = case
    V = V()
    W = Net(V)
    p = W.p
    lab = V.kind + ": "
    fn = over(p, "SensorNetAddress::setAddress", lambda f: len(f.args) == 2 and "basic_string" in f.name)
    good = form in ("good", "many")
    none = " \t\n,#*=/[]."
    ip = Part("ip" if form != "ip" else "bad ip", excl=none + (":" if V.kind == "udp" else ""))
    lo, hi = dict(zero=(0, 0), big=(65536, (1 << 31) - 1)).get(form, (1, 65535))
    port = Part("port", excl=none + ":", lo=lo, hi=hi)
    t = V.text(ip, port) if form != "colon" else T(ip) if V.kind == "udp" else T("[", ip, "]")
    st = State()
    W.constants(st)
    i = Interp(p)
    buf(st, "addr", p.types["SensorNetAddress"]["size"])
    st.mem[B("addr")] = Content(("undef", 0))
    made = [o.st for o in W.run(r, p.fn("SensorNetAddress::SensorNetAddress"), [P(B("addr"))], st) if o.kind == "ret"]
    if len(made) != 1:
        raise build.AnalysisBroken("sensor: an address is made in %d ways" % len(made))
    st = made[0]
    st.trace = ()
    buf(st, "text", 32)
    W.texts.put(i, st, P(B("text")), t)
    for o in W.run(r, fn, [P(B("addr")), P(B("text"))], st):
        if not r.ob(lab + "the reader of addresses returns", o.kind == "ret", "", loc(fn)):
            continue
        if not good:
            r.ob(lab + "a text that is no address is rejected", o.st.facts.entails_ne(o.val[2]), "%s" % form, loc(fn))
            continue
        r.ob(lab + "an address is accepted", o.st.facts.entails_eq(o.val[2]), "", loc(fn))
        s = o.st
        s.trace = ()
        for o1 in W.run(r, p.fn("SensorNetwork::SensorNetwork"), [buf(s, "net", p.types["SensorNetwork"]["size"])], s):
            s = o1.st
        init = p.fn("SensorNetwork::initialize")
        W2 = Net(V, {n: (Part("c:" + k, lo=1, hi=255) if k in ("mport", "uport", "ttl") else Part("c:" + k),) for k, n in V.params.items()})
        un = p.fn("SensorNetwork::unicast")
        for o1 in W2.run(r, init, [P(B("net"))], s):
            if o1.kind != "ret":
                continue
            s2 = o1.st
            s2.trace = ()
            data = buf(s2, "payload", 10)
            for o2 in W.run(r, un, [P(B("net")), data, I(16, 10), P(B("addr"))], s2):
                for c in calls(o2.st, "sendto"):
                    dest = c[2][3]
                    eq = o2.st.facts.entails_eq
                    r.ob(lab + "an address stands for the host and port of its text", eq(dest[1] - swapped(W.texts.number((port,), 32))) and all(eq(x - y) for x, y in zip(dest[2], W.inet(None, None, (ip,)))) and eq(dest[3]), "%s" % (dest,), loc(fn))
                    r.count("addresses used")


def match(r, case):
    V = case[0]()
    W = Net(V)
    p = W.p
    fn = p.fn("SensorNetAddress::isMatch")

    def memcmp(ip, st, a, ins, fr):
        if a[2][2].t:
            return None
        out, s = [], st
        n, k = a[2][2].c, 0
        for x in a[:2]:
            ip.access(st, "load", x, a[2][2], ins, fr)
        while k < n:
            w = 1
            x, y = (ip.load(s, z[1], z[2] + k, w, "i%d" % (8 * w))[2] for z in a[:2])
            g, f = s.facts.add_ne(x - y), s.facts.add_eq(x - y)
            if g is not None:
                s2 = s.copy()
                v = var(("sym", s2.fresh("memcmp"), -255, 255))
                s2.facts = g.add_ne(v)
                out.append((s2, I(32, v)))
            if f is None:
                return out
            s = s.copy()
            s.facts = f
            k += w
        return out + [(s, I(32, 0))]
    W.models["memcmp"] = W.models["bcmp"] = memcmp
    lab = V.kind + ": "
    off = [f for f in p.flat_fields("SensorNetAddress")]
    if V.kind == "udp":
        fields = [field(p, "SensorNetAddress", f)[0] for f in ("_portNo", "_IpAddr")]
        widths = (2, 4)
    else:
        b = field(p, "SensorNetAddress", "_IpAddr")[0]
        fields, widths = [b + 2] + [b + 8 + k for k in range(16)], (2,) + (1,) * 16
    for differ in range(-1, len(fields)):
        st = State()
        ip = Interp(p)
        for n in ("x", "y"):
            buf(st, n, p.types["SensorNetAddress"]["size"])
        for k, (o, w) in enumerate(zip(fields, widths)):
            lo, hi = 0, (1 << 8 * w) - 1
            v = var(("sym", "f%d" % k, lo, hi))
            ip.store(st, B("x"), o, w, I(8 * w, v))
            z = v
            if k == differ:
                z = var(("sym", "g%d" % k, lo, hi))
                st.facts = st.facts.add_ne(v - z)
            ip.store(st, B("y"), o, w, I(8 * w, z))
        for o in W.run(r, fn, [P(B("x")), P(B("y"))], st, 20):
            t = flag(Interp(p), o.st, o.val)
            if differ < 0:
                r.ob(lab + "equal addresses match", o.kind == "ret" and t == const(1), "%s" % (t,), loc(fn))
            else:
                r.ob(lab + "addresses that differ do not match", o.kind == "ret" and t == ZERO, "they differ in part %d, %s" % (differ, t), loc(fn))


PARTS = [(run_network, (V, m)) for V in (V4, V6) for m in ((), ("ttl",), ("mport",), ("uport",)) + ((("interface",),) if V is V6 else ())] + \
        [(addresses, (V, f)) for V in (V4, V6) for f in ("good", "ip", "zero", "big", "colon")] + [(match, (V,)) for V in (V4, V6)]


def S01(r):
    r.rule("over UDP and UDP6 the sockets are bound, joined and limited as configured or the start fails and leaves nothing open; each packet is one datagram, unchanged, to the address it is for; each datagram is read whole, with its sender")
    for V in (V4, V6):
        prog("gw:" + V.kind)

    def one(q, k):
        q.case_name = "%s %s %s" % (k[0].__name__, k[1][0].kind, k[1][1:])
        k[0](q, k[1])
    pmap(r, PARTS, one)
    for c in ("starts", "failing starts", "broadcasts", "receptions", "addresses used"):
        r.floor(c, r.counts.get(c, 0), 2)


REG = {"S01": S01}
