"""S02: the sensor networks over a serial line (XBee, LoRaLink).  Frames of the modem are given byte by byte to the reader; what it delivers, to whom an answer goes and
which bytes are written for a packet are compared with the frame formats."""
import build
from gw import *
from oracle import pmap
from text import Part, T, show
from conf import Conf
from report import loc
from sensor import over

START, ESC, XON, XOFF = 0x7e, 0x7d, 0x11, 0x13
SPECIAL = (START, ESC, XON, XOFF)
BAUD = {9600: 13, 19200: 14, 38400: 15, 57600: 4097, 115200: 4098}


class XBee:
    kind = "xbee"
    baud, dev = "Baudrate", ("SerialDevice",)
    default = 9600

    def data(self, st, style, n, payload, typ=0x90):
        return [const(typ)] + addr(st, 10, style) + [const(1)] + payload

    head = lambda self, L: [L >> 8, L & 255]

    def request(self, f, a, payload):
        """the content of a frame that sends; f: frame id"""
        return [const(0x10), f] + a + [ZERO, ZERO] + payload
    status = 7


class LoRa:
    kind = "loralink"
    baud, dev = "BaudrateLoRaLink", ("DeviceRxLoRaLink", "DeviceTxLoRaLink")
    default = 115200

    def data(self, st, style, n, payload, typ=0x40):
        return addr(st, 1, style) + [var(("sym", "rssi%d" % k, 0, 15)) for k in range(4)] + [const(typ)] + payload

    head = lambda self, L: [(L + 1) >> 8, (L + 1) & 255]

    def request(self, f, a, payload):
        return a + [const(0x40)] + payload


def byte(st, name):
    """any byte that need not be escaped"""
    v = var(("sym", name, 0, 255))
    for x in SPECIAL:
        f = st.facts.add_ne(v - x)
        st.facts = f if f is not None else st.facts
    return v


def some(st, name, n, style):
    """n bytes: 'plain': of any value that is not escaped; 'escaped': all escaped; 'mixed'"""
    return [const(SPECIAL[k % 4]) if style == "escaped" or style == "mixed" and k % 2 else byte(st, "%s%d" % (name, k)) for k in range(n)]


def addr(st, n, style):
    return some(st, "addr", n, style)


def wire(bytes, esc):
    out = []
    for b in bytes:
        if esc and not b.t and b.c in SPECIAL:
            out += [const(ESC), const(b.c ^ 0x20)]
        else:
            out.append(b)
    return out


def total(st, bytes):
    """the sum of the bytes modulo 256"""
    s = ZERO
    for b in bytes:
        s = s + b
    return Interp(None).trunc(st, 8, s)[2]


class Radio(Conf):
    def __init__(self, V, conf):
        Conf.__init__(self, "gw:" + V.kind)
        self.V = V
        p, tx, M = self.p, self.texts, self.models

        def getparam(ip, st, a, ins, fr):
            t = conf.get("".join(tx.cstr(ip, st, a[-2], ins, fr)))
            if t is None:
                return [(st, I(32, -2))]
            tx.fill(ip, st, a[-1][1], a[-1][2], t)
            return [(st, I(32, 0))]
        M["Process::getParam"] = getparam

        def sprintf(ip, st, a, ins, fr):
            f = "".join(tx.cstr(ip, st, a[-2], ins, fr))
            if f not in ("%d", "%u") or a[-1][2].t:
                raise build.AnalysisBroken("radio: sprintf of %r" % f)
            tx.fill(ip, st, a[0][1], a[0][2], T(str(a[-1][2].c)))
            return [(st, I(32, len(str(a[-1][2].c))))]
        M["sprintf"] = M["snprintf"] = sprintf
        M["to_string"] = None

        def open_(ip, st, a, ins, fr):
            s0 = st.copy()
            n = st.ghost.get(("fds",), 0)
            st.ghost[("fds",)] = n + 1
            t = tx.cstr(ip, st, a[0], ins, fr)
            st.event("sys", "open", t, 5 + n)
            s0.event("sys", "open", t, -1)
            return [(s0, I(32, -1)), (st, I(32, 5 + n))]
        M["open"] = M["open64"] = open_

        def speed(ip, st, a, ins, fr):
            st.event("sys", "speed", a[0], a[1][2])
            for o in (52, 56):
                ip.store(st, a[0][1], a[0][2] + o, 4, a[1])
            return [(st, I(32, 0))]
        M["cfsetspeed"] = M["cfsetispeed"] = M["cfsetospeed"] = speed

        def attr(ip, st, a, ins, fr):
            ip.access(st, "load", a[2], const(60), ins, fr)
            bad = [o for o in (0, 4, 8, 12) for v in (ip.load(st, a[2][1], a[2][2] + o, 4, "i32"),) if v[0] != "I" or v[2].t]
            st.event("sys", "tcsetattr", a[0][2], (tuple(bad), ip.load(st, a[2][1], a[2][2] + 52, 4, "i32")[2]))
            return [(st, I(32, 0))]
        M["tcsetattr"] = attr
        for k in ("tcflush", "fflush", "usleep", "Semaphore::Semaphore", "Mutex::Mutex"):
            M[k] = m_nop

        def select(ip, st, a, ins, fr):
            return [(st, I(32, 1 if self.left(st) else 0))]
        M["select"] = select
        M["poll"] = select

        def read(ip, st, a, ins, fr):
            ip.access(st, "store", a[1], a[2][2], ins, fr)
            if a[2][2] != const(1):
                raise build.AnalysisBroken("radio: read of %s bytes" % a[2][2])
            x = self.left(st)
            if not x:
                return [(st, I(64, 0))]
            st.ghost[("at",)] = st.ghost.get(("at",), 0) + 1
            ip.store(st, a[1][1], a[1][2], 1, I(8, x[0]))
            return [(st, I(64, 1))]
        M["read"] = read

        def write(ip, st, a, ins, fr):
            ip.access(st, "load", a[1], a[2][2], ins, fr)
            if a[2][2].t:
                raise build.AnalysisBroken("radio: write of %s bytes" % a[2][2])
            for k in range(a[2][2].c):
                st.event("byte", a[0][2], ip.load(st, a[1][1], a[1][2] + k, 1, "i8")[2])
            return [(st, I(64, a[2][2]))]
        M["write"] = write
        M["Semaphore::post"] = lambda ip, st, a, ins, fr: (st.event("post"), [(st, ("U", "void"))])[1]
        M["Semaphore::timedwait"] = m_nop
        M["NamedSemaphore::timedwait"] = m_nop

    def left(self, st):
        return st.ghost.get(("stream",), ())[st.ghost.get(("at",), 0):]

    def give(self, st, bytes):
        st.ghost[("stream",)] = tuple(bytes)
        st.ghost[("at",)] = 0

    def start(self, r):
        """[outcome] of the start, from the constructor on"""
        st = State()
        buf(st, "net", self.p.types["SensorNetwork"]["size"])
        st.mem[B("net")] = Content(("undef", 0))
        self.models["operator new"] = None
        outs = [o for o in self.run(r, self.p.fn("SensorNetwork::SensorNetwork"), [P(B("net"))], st) if o.kind == "ret"]
        if len(outs) != 1:
            raise build.AnalysisBroken("radio: the constructor has %d ends" % len(outs))
        return self.run(r, self.p.fn("SensorNetwork::initialize"), [P(B("net"))], outs[0].st)

    def started(self, r):
        outs = [o for o in self.start(r) if o.kind == "ret"]
        if len(outs) != 1:
            raise build.AnalysisBroken("radio: the start has %d ends" % len(outs))
        st = outs[0].st
        st.trace = ()
        return st

    def run(self, r, fn, args, st, unroll=1200):
        return Conf.run(self, r, fn, args, st, unroll, budget=400000)


def config(V, baud=None, mode=None):
    c = {d: (Part(d),) for d in V.dev}
    if baud is not None:
        c[V.baud] = T(str(baud))
    if mode is not None:
        c["ApiMode"] = T(str(mode))
    return c


def start(r, case):
    V, baud = case
    V = V()
    W = Radio(V, config(V, baud))
    lab = V.kind + ": "
    fn = W.p.fn("SensorNetwork::initialize")
    want = BAUD.get(baud if baud is not None else V.default)
    for o in W.start(r):
        s = o.st
        op = [x for x in s.trace if x[0] == "sys" and x[1] == "open"]
        failed = want is None or any(x[3] == -1 for x in op)
        if failed:
            r.ob(lab + "a device that can't be opened, or a rate that it does not know, is reported", o.kind == "throw", "%s, rate %s, %s" % (o.kind, baud, op), loc(fn))
            continue
        if not r.ob(lab + "it starts with its devices", o.kind == "ret", "ends with %s" % o.kind, loc(fn)):
            continue
        r.count("starts")
        r.ob(lab + "it opens the devices that are configured", [x[2] for x in op] == [(Part(d),) for d in V.dev], "%s" % [show(x[2]) for x in op], loc(fn))
        at = [x for x in s.trace if x[0] == "sys" and x[1] == "tcsetattr"]
        r.ob(lab + "each device is set up, completely, with the rate that is configured", sorted(x[2].c for x in at) == sorted(x[3] for x in op) and all(not x[3][0] and x[3][1] == const(want) for x in at), "%s" % (at,), loc(fn))


STYLES = ("plain", "escaped", "mixed")


def frame(V, st, content, esc=True, check=None):
    c = const(255) - total(st, content) if check is None else check
    L = len(content)
    if c.t:
        for x in SPECIAL:
            g = st.facts.add_ne(c - x)
            st.facts = g if g is not None else st.facts
    return [const(START)] + wire([const(x) for x in V.head(L)] + content + [c], esc)


def receive(r, case):
    V, style, n, what, mode = case
    V = V()
    W = Radio(V, config(V, mode=mode))
    p = W.p
    lab = V.kind + ": "
    fn = p.fn("SensorNetwork::read")
    st = W.started(r)
    payload = some(st, "p", n, style)
    content = V.data(st, style, n, payload)
    esc = mode != 1
    size = 1024
    good = what in ("good", "noise", "after") or what.startswith("small")
    if what == "bad":           # any wrong check byte
        c = byte(st, "check")
        s = ZERO
        for b in content:
            s = s + b
        tr = lambda x: Interp(None).trunc(st, 8, x)[2]
        for x in (c + tr(s) - 255, tr(s + c) - 255, tr(const(255) - s) - c, tr(s + c + 1), tr(-s - 1) - c, tr(s) + c - Interp(None).shr_atom(st, 32, tr(s) + c, 8).scale(256) - 255):      # it is wrong, however that is computed
            g = st.facts.add_ne(x)
            st.facts = g if g is not None else st.facts
        stream = frame(V, st, content, esc, c)
    else:
        stream = frame(V, st, content, esc)
    if what == "noise":
        stream = [byte(st, "noise%d" % k) for k in range(3)] + stream
    if what == "headless":
        stream = [byte(st, "noise")] + stream[1:]
    if what.startswith("cut"):
        k = int(what[3:])
        if k >= len(stream):
            return
        stream = stream[:k]
    if what.startswith("small"):
        size = int(what[5:])
    if what == "after":
        # a frame that is not for us comes first
        other = some(st, "q", 5, "plain")
        stream = (frame(V, st, [const(0x8a)] + other, esc) if V.kind == "xbee" else frame(V, st, V.data(st, "plain", 0, [], 0x85), esc)) + stream
    data = buf(st, "packet", size)
    W.give(st, stream)
    for k in range(2 if what == "after" else 1):
        nxt = []
        for o in W.run(r, fn, [P(B("net")), data, I(16, size)], st):
            r.ob(lab + "receiving returns", o.kind == "ret", "ends with %s" % o.kind, loc(fn))
            if o.kind != "ret":
                continue
            rc = o.val[2]
            if what == "after" and k == 0 and o.st.facts.entails(-rc) and W.left(o.st):
                nxt.append(o.st)
                continue
            if not good or what.startswith("small") and size < n:
                why = {"bad": "with a wrong check byte", "cut": "that is not complete", "hea": "without its first byte", "sma": "that does not fit"}[what[:3]]
                r.ob(lab + "a frame %s is not delivered" % why, o.st.facts.entails(-rc), "%s: %d bytes, returns %s" % (what, n, rc), loc(fn))
                r.count("rejected")
                continue
            r.count("delivered")
            if not r.ob(lab + "the packet in a frame is delivered", rc == const(n), "%s: %s of %d bytes" % (what, rc, n), loc(fn)):
                continue
            got = [Interp(p).load(o.st, B("packet"), const(i), 1, "i8")[2] for i in range(n)]
            r.ob(lab + "the packet is delivered unchanged", all(o.st.facts.entails_eq(x - y) for x, y in zip(got, payload)), "%s, %d bytes" % (style, n), loc(fn))
            if n in (3, 20):
                answer(r, V, W, o.st, style, esc)
        if not nxt:
            break
        st = nxt[0]


def answer(r, V, W, st, style, esc):
    """a packet for the sender of the last one"""
    a = [x for x in W.run(r, W.p.fn("SensorNetwork::getSenderAddress"), [P(B("net"))], st.copy()) if x.kind == "ret"]
    if len(a) != 1 or a[0].val[0] != "P":
        raise build.AnalysisBroken("radio: the sender's address is not known")
    n = 4
    s = a[0].st
    s.trace = ()
    W.give(s, [])
    want = [byte(s, "a%d" % k) for k in range(n)]
    buf(s, "answer", n)
    for k, v in enumerate(want):
        Interp(W.p).store(s, B("answer"), const(k), 1, I(8, v))
    fn = W.p.fn("SensorNetwork::unicast")
    for o in W.run(r, fn, [P(B("net")), P(B("answer")), I(16, n), a[0].val], s):
        sent(r, V, W, o, addr(s, 10 if V.kind == "xbee" else 1, style), want, esc, fn, "the sender")
        r.count("answers")


def known(f, v):
    """the byte behind an escaped one where the facts determine it, and what else it may be written as"""
    def find(t):
        if isinstance(t, tuple):
            if len(t) > 2 and t[0] == "uf" and t[1] == "xor":
                yield t
            for x in t:
                yield from find(x)
        elif isinstance(t, Lin):
            yield from find(t.t)
    if not v.t:
        return const(v.c ^ 0x20), ()
    for s in SPECIAL:
        if f.entails_eq(v - (s ^ 0x20)):
            return const(s), (v - 32 if s & 0x20 == 0 else v + 32,)
    for t in find(v.t):
        a, b = t[2][:2] if isinstance(t[2], tuple) else (None, None)
        if isinstance(b, Lin) and not b.t:
            b = b.c
        if isinstance(a, Lin) and b == 0x20:
            for s in SPECIAL:
                if f.entails_eq(a - s):
                    return const(s), (a,)
    return None, ()


def sent(r, V, W, o, a, payload, esc, fn, who):
    """the bytes written are one frame for the address with the payload"""
    lab = V.kind + ": "
    f = o.st.facts
    out = [x[2] for x in o.st.trace if x[0] == "byte"]
    fds = {x[1] for x in o.st.trace if x[0] == "byte"}
    r.ob(lab + "frames are written to the device that sends", fds == {const(4 + len(V.dev))}, "%s" % fds, loc(fn))
    if not r.ob(lab + "a packet is one frame", len(out) > 4 and f.entails_eq(out[0] - START), "%s" % (out[:3],), loc(fn)):
        return None
    b, k, clean, alike = [], 1, True, ()
    while k < len(out):
        x = out[k]
        if esc and not x.t and x.c == ESC and k + 1 < len(out):
            y, alike = known(f, out[k + 1])
            b.append(y)
            k += 2
            continue
        if esc and any(not f.entails_ne(x - s) for s in SPECIAL):
            clean = False
        b.append(x)
        alike = ()
        k += 1
    r.ob(lab + "special bytes of a frame are escaped", clean and None not in b, "%s" % (out,), loc(fn))
    if None in b:
        return None
    fid = b[3] if V.kind == "xbee" and len(b) > 3 else ZERO
    body = V.request(fid, a, payload)
    want = [const(x) for x in V.head(len(body))] + body
    same = len(b) == len(want) + 1 and all(f.entails_eq(x - y) for x, y in zip(b, want))
    r.ob(lab + "a packet goes unchanged in a frame for %s" % who, same, "frame %s, should be %s" % (b, want), loc(fn))
    if same:
        r.ob(lab + "the check byte of a frame is right", any(f.entails_eq(c + total(o.st, body) - 255) or f.entails_eq(total(o.st, body + [c]) - 255) or f.entails_eq(total(o.st, [const(255)] + [-x for x in body]) - c) for c in (b[-1],) + alike), "%s, sum %s" % (b[-1], total(o.st, body)), loc(fn))
    return fid


MAXPAYLOAD = 1024


def send(r, case):
    """a packet of n bytes; the modem then answers: none, or a frame of status"""
    V, style, n, reply, mode, cast = case
    V = V()
    W = Radio(V, config(V, mode=mode))
    p = W.p
    lab = V.kind + ": "
    esc = mode != 1
    fn = p.fn("SensorNetwork::broadcast" if cast else "SensorNetwork::unicast")
    st = W.started(r)
    reader = p.fn("SensorNetwork::read")

    def wait(ip, st, a, ins, fr):
        if reply is None:
            return [(st, ("U", "void"))]
        out = [x[2] for x in st.trace if x[0] == "byte"]
        if V.kind == "xbee":
            i = byte(st, "status id")
            c = const(0) if reply == "ok" else byte(st, "status")
            if reply == "fails":
                st.facts = st.facts.add_ge(c - 1)
            fid = self_id(out, esc)
            if reply == "other":
                g = st.facts.add_ne(i - fid)
                c = const(0)
                if g is None:
                    return [(st, ("U", "void"))]
                st.facts = g
            else:
                i = fid
            content = [const(0x8b), i, ZERO, ZERO, ZERO, c, ZERO]
        else:
            content = V.data(st, "plain", 0, [], dict(ok=0x80, fails=0x81, other=0x82)[reply])
        buf(st, "rx", 1024)
        W.give(st, frame(V, st, content, esc))
        res = ip.run(reader, [P(B("net")), P(B("rx")), I(16, 1024)], st)
        out = []
        for o in res:
            r.ob(lab + "a report of the modem is no packet", o.kind == "ret" and o.st.facts.entails(-o.val[2]), "returns %s" % (o.val,), loc(reader))
            s = o.st
            s.env = dict(st.env)
            out.append((s, ("U", "void")))
        return out
    W.models["Semaphore::timedwait"] = wait
    want = some(st, "p", n, style)
    buf(st, "payload", n)
    for k, v in enumerate(want):
        Interp(p).store(st, B("payload"), const(k), 1, I(8, v))
    ad = addr(st, 10 if V.kind == "xbee" else 1, "mixed")
    args = [P(B("net")), P(B("payload")), I(16, n)]
    if not cast:
        sa = buf(st, "to", p.types["SensorNetAddress"]["size"])
        a64 = [field_(p, "_address64"), field_(p, "_address16")] if V.kind == "xbee" else [field_(p, "_devAddr")]
        pos = [a64[0] + k for k in range(8)] + [a64[1] + k for k in range(2)] if V.kind == "xbee" else a64
        for o, v in zip(pos, ad):
            Interp(p).store(st, B("to"), o, 1, I(8, v))
        args.append(sa)
    else:
        ad = [const(x) for x in ((0, 0, 0, 0, 0, 0, 255, 255, 255, 254) if V.kind == "xbee" else (255,))]
    for k in range(2):
        nxt = None
        for o in W.run(r, fn, args, st):
            if not r.ob(lab + "sending returns", o.kind == "ret", "ends with %s" % o.kind, loc(fn)):
                continue
            rc, f = o.val[2], o.st.facts
            if not any(x[0] == "byte" for x in o.st.trace):
                r.ob(lab + "a packet that is too long for a frame is not sent, and that is reported", n > 200 and f.entails(-rc - 1), "%d bytes, returns %s" % (n, rc), loc(fn))
                r.count("too long")
                continue
            fid = sent(r, V, W, o, ad, want, esc, fn, "everyone" if cast else "its address")
            r.count("sent")
            if V.kind == "xbee" and fid is not None:
                r.ob(lab + "a frame asks for a report", f.entails_ne(fid), "frame id %s" % fid, loc(fn))
            if reply == "ok":
                r.ob(lab + "a packet that the modem has sent is reported as sent", f.entails(rc), "returns %s" % rc, loc(fn))
            else:
                r.ob(lab + "a packet that the modem has not sent is reported", f.entails(-rc - 1), "%s: returns %s" % (reply, rc), loc(fn))
            nxt = nxt or o.st
        if nxt is None or n != 3:
            break
        st = nxt
        st.trace = ()


def many(r, V):
    """more packets than there are frame ids"""
    V = V()
    W = Radio(V, config(V))
    p = W.p
    lab = V.kind + ": "
    fn, reader = p.fn("SensorNetwork::broadcast"), p.fn("SensorNetwork::read")
    st = W.started(r)
    buf(st, "payload", 1)
    Interp(p).store(st, B("payload"), ZERO, 1, I(8, 5))

    def wait(ip, st, a, ins, fr):
        out = [x[2] for x in st.trace if x[0] == "byte"]
        buf(st, "rx", 1024)
        W.give(st, frame(V, st, [const(0x8b), self_id(out, True)] + [ZERO] * 5 if V.kind == "xbee" else [ZERO] * 5 + [const(0x80)]))
        res = ip.run(reader, [P(B("net")), P(B("rx")), I(16, 1024)], st)
        for o in res:
            o.st.env = dict(st.env)
        return [(o.st, ("U", "void")) for o in res]
    W.models["Semaphore::timedwait"] = wait
    for k in range(520):
        outs = W.run(r, fn, [P(B("net")), P(B("payload")), I(16, 1)], st)
        if not r.ob(lab + "sending returns", len(outs) == 1 and outs[0].kind == "ret", "packet %d: %s" % (k, [o.kind for o in outs]), loc(fn)):
            return
        o = outs[0]
        out = [x[2] for x in o.st.trace if x[0] == "byte"]
        if V.kind == "xbee":
            r.ob(lab + "a frame asks for a report", o.st.facts.entails_ne(self_id(out, True)), "packet %d" % k, loc(fn))
        r.ob(lab + "a packet that the modem has sent is reported as sent", o.st.facts.entails(o.val[2]), "packet %d: returns %s" % (k, o.val), loc(fn))
        r.count("sent")
        st = o.st
        st.trace = ()


def self_id(out, esc):
    """the frame id in the bytes written"""
    b, k = [], 1
    while k < len(out) and len(b) < 4:
        if esc and not out[k].t and out[k].c == ESC:
            b.append(const(out[k + 1].c ^ 0x20))
            k += 2
        else:
            b.append(out[k])
            k += 1
    return b[3]


def field_(p, f):
    for path, off, bits, m in p.flat_fields("SensorNetAddress"):
        if path.split("[")[0] == f:
            return Lin(off)
    raise build.AnalysisBroken("radio: SensorNetAddress::%s is not found" % f)


def safe(r, case):
    """frames of any announced length, and any content, in any order with other frames"""
    V, msb, lsb = case
    V = V()
    W = Radio(V, config(V))
    p = W.p
    fn = p.fn("SensorNetwork::read")
    st = W.started(r)
    content = [byte(st, "x%d" % k) for k in range(min(msb * 256 + lsb, 700) + 3)]
    typ = 0 if V.kind == "xbee" else 5
    if len(content) > typ:
        content[typ] = const(0x90 if V.kind == "xbee" else 0x40)
    data = buf(st, "packet", 1024)
    W.give(st, [const(START)] + wire([const(msb), const(lsb)], True) + content)
    for o in W.run(r, fn, [P(B("net")), data, I(16, 1024)], st):
        r.ob(V.kind + ": what is delivered is in the buffer", o.kind == "ret" and o.st.facts.entails(const(1024) - o.val[2]), "%d/%d: %s" % (msb, lsb, o.val), loc(fn))
        r.count("lengths")


LENS = sorted(set(range(0, 20)) | {59, 100, 115, 116, 117, 127, 128, 129, 130, 200, 247, 248, 249, 250, 254, 255})
ODD = sorted((set(range(1, 32)) | set(range(109, 127))) - {3, 20})          # among them those whose length is escaped
PARTS = [(start, (V, b)) for V in (XBee, LoRa) for b in (None, 9600, 19200, 38400, 57600, 115200, 1200)] + \
        [(receive, (V, s, n, "good", None)) for V in (XBee, LoRa) for s in STYLES for n in (1, 2, 3, 20, 100)] + \
        [(receive, (V, "plain", n, "good", None)) for V in (XBee, LoRa) for n in ODD] + [(send, (V, "plain", n, "ok", None, False)) for V in (XBee, LoRa) for n in ODD] + \
        [(receive, (XBee, "plain", 3, "good", 1)), (receive, (XBee, "escaped", 3, "good", 1))] + \
        [(receive, (V, s, n, w, None)) for V in (XBee, LoRa) for s in STYLES for n in (2, 20) for w in ("bad", "headless", "noise", "after", "small%d" % (n - 1), "small%d" % n)] + \
        [(receive, (V, s, 2, "cut%d" % k, None)) for V in (XBee, LoRa) for s in ("plain", "mixed") for k in range(0, 30)] + \
        [(send, (V, s, n, q, None, c)) for V in (XBee, LoRa) for s in STYLES for n in (3, 60) for q in (None, "ok", "fails", "other") for c in (False, True)] + \
        [(send, (XBee, "escaped", 3, "ok", 1, False))] + [(many, (V,)) for V in (XBee, LoRa)] + \
        [(send, (V, "plain", n, "ok", None, False)) for V in (XBee, LoRa) for n in (200, 240, 241, 242, 252, 253, 255, 256, 300, 1024)] + \
        [(safe, (V, m, l)) for V in (XBee, LoRa) for m in (0, 1, 2, 255) for l in (LENS if m == 0 else (0, 1, 6, 7, 8, 100, 255))]


def S02(r):
    r.rule("over a serial line each complete frame of the modem with a right check byte is delivered, unchanged and within the buffer, and no other; a packet is written as one frame for its address, or reported as not sent")
    for V in (XBee, LoRa):
        prog("gw:" + V.kind)

    def one(q, k):
        q.case_name = "%s %s %s" % (k[0].__name__, k[1][0].kind, k[1][1:])
        k[0](q, *(k[1] if k[0] is many else (k[1],)))
    pmap(r, PARTS, one)


REG = {"S02": S02}
