"""Executable specifications for the gateway's message handling.

A specification is a plain function of an oracle `o`; where it asks about something the analysed path left open
(`o.eq`, `o.ge`, `o.null`, ...) it is run again for both answers, each under the corresponding assumption.
It returns an Exp: what must have been posted to each queue (byte by byte), which table changes must have been made,
and what the client's state must be.  What the analysed path did is compared with that under the path's facts.
"""
import os, multiprocessing, time
import build
from ai import *
from gw import *
from codec import same_bytes, decode, undef
from report import loc, Report
from lin import Lin, ZERO, const, var


class Infeasible(Exception):
    pass


class DontCare(Exception):
    pass


class O:
    """one run of a specification against one analysed path"""

    def __init__(self, W, st, init, prefix):
        self.W = W
        self.p = W.p
        self.st = st.copy()
        self.init = init
        self.prefix = prefix
        self.n = 0
        self.todo = []
        self.ip = Interp(W.p)
        self.labels = []
        self.fresh = 0

    # -- questions
    def _assume(self, fs):
        if fs is None:
            raise Infeasible()
        self.st.facts = fs

    def choose(self, options):
        """options: list of (value, facts or None when impossible)"""
        opts = [(v, f) for v, f in options if f is not None]
        if not opts:
            raise Infeasible()
        if len(opts) == 1:
            self.st.facts = opts[0][1]
            return opts[0][0]
        i = self.n
        self.n += 1
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
            self.todo += [self.prefix + (0,) * (i - len(self.prefix)) + (j,) for j in range(1, len(opts))]
            self.prefix = self.prefix + (0,) * (i + 1 - len(self.prefix))
        v, f = opts[k]
        self.st.facts = f
        return v

    def eq(self, L, c=0):
        L = L - c if not isinstance(L, int) else Lin(L - c)
        f = self.st.facts
        return self.choose([(True, f.add_eq(L)), (False, f.add_ne(L))])

    def ge(self, L):
        f = self.st.facts
        return self.choose([(True, f.add_ge(L)), (False, f.add_ge(-L - 1))])

    def one_of(self, L, values):
        """the value of L among the given ones, or None"""
        f = self.st.facts
        rest = f
        out = []
        for v in values:
            out.append((v, f.add_eq(L - v)))
            rest = rest.add_ne(L - v) if rest is not None else None
        out.append((None, rest))
        return self.choose(out)

    def isnull(self, v):
        k = self.st.isnull(v)
        if k is not None:
            return k
        if v[0] != "P":
            raise DontCare()
        f = self.st.facts
        k = self.choose([(True, f), (False, f)])
        self.st.null[v[1]] = k
        return k

    def unknown(self, n=2):
        """something the path did not look at"""
        return self.choose([(i, self.st.facts) for i in range(n)])

    def label(self, s):
        self.labels.append(s)

    def get(self, o, t, f, size=None):
        return self.W.get(self.st, o, t, f, size)

    def byte(self, obj, off):
        return self.ip.load(self.st, obj, Lin(off) if isinstance(off, int) else off, 1, "i8")[2]

    def word(self, obj, off):
        return self.byte(obj, off).scale(256) + self.byte(obj, off + 1)

    # -- what the path found in the tables
    def events(self, *names):
        return [e for e in self.st.trace if e[0] in names]

    def obj(self, tag):
        self.fresh += 1
        o = ("ret", "spec:%s%d" % (tag, self.fresh))
        self.st.null[o] = False
        return o

    def by_id(self, table, typ, ident):
        for e in self.events("topicById"):
            t, i = e[1][1][0], e[1][1][1]
            if e[1][0] == B(table) and same_int(self.st.facts, 32, t[2], typ) and same_int(self.st.facts, 16, i[2], ident):
                return e[2]
        return None if self.unknown() else self.obj("topic")

    def by_name(self, table, obj, off, n, kind="topicByName"):
        for e in self.events(kind):
            k = e[1][1]
            if e[1][0] == B(table) and len(k) == 4 and k[2][0] == "P" and self.st.facts.entails_eq(k[3][2] - n) and \
                    same_bytes(self.ip, self.st, k[2][1], k[2][2], obj, off, n):
                return e[2]
        return None if self.unknown() else self.obj("topic")

    def added(self, table, obj, off, n):
        """result of adding the topic with that name"""
        for e in self.events("topicAdd"):
            k = e[1][1]
            if e[1][0] == B(table) and len(k) == 4 and k[2][0] == "P" and self.st.facts.entails_eq(k[3][2] - n) and \
                    same_bytes(self.ip, self.st, k[2][1], k[2][2], obj, off, n):
                return e[2]
        return None if self.unknown() else self.obj("topic")

    def added_named(self, table, obj, ident):
        for e in self.events("topicAddNamed"):
            k = e[1]
            d = self.tname(obj)
            if k[0] == B(table) and k[1][0] == "P" and k[1][1] == d[0] and same_int(self.st.facts, 16, k[2][2], ident):
                return e[2]
        return None if self.unknown() else self.obj("topic")

    def tname(self, topic):
        """(object, offset, length) of a topic's name"""
        nm = self.ip.load(self.st, topic, self.W.off("Topic", "_topicName"), 8, "ptr")
        self.st.null[nm[1]] = False
        d = str_data(self.ip, self.st, nm)
        n = str_len(self.ip, self.st, nm)[2]
        return d[1], d[2], n

    def tid(self, topic):
        return self.ip.load(self.st, topic, self.W.off("Topic", "_topicId"), 2, "i16")[2]

    def ttype(self, topic):
        return self.ip.load(self.st, topic, self.W.off("Topic", "_type"), 4, "i32")[2]

    def cstr(self, v):
        """utf item of a C string pointer"""
        return ("utf", v[1], v[2], self.ip.strlen_of(self.st, v, None))


class Exp:
    """what must happen"""

    def __init__(self):
        self.posts = []     # (queue, event type, client, packet)
        self.muts = []      # (name, predicate text, check)
        self.final = {}
        self.checks = []    # (label, ok, why)
        self.ignore = set()

    def client(self, typ, *items, to="client"):
        self.posts.append(("clientSendQue", "EtClientSend", B(to), ("sn", typ, items)))

    def broker(self, typ, flags, *items, to="client"):
        self.posts.append(("brokerSendQue", "EtBrokerSend", B(to), ("gw", typ, Lin(flags) if isinstance(flags, int) else flags, items)))

    def broadcast(self, typ, *items):
        self.posts.append(("clientSendQue", "EtBroadcast", None, ("sn", typ, items)))

    def repost(self, obj, to="client"):
        self.posts.append(("packetEventQue", "EtBrokerRecv", B(to) if not isinstance(to, tuple) else to, ("obj", obj)))

    def mut(self, name, text, check=None):
        self.muts.append((name, text, check))


MUTS = ("createClient", "fwdAdd", "netConnect", "netSend", "unicast", "broadcast", "adapterSend",
        "topicAdd", "topicAddNamed", "topicsEraseNormal", "idmapAdd", "idmapErase", "idmapClear", "pqPop", "pqPost", "regackSet", "regackErase",
        "netClose", "aggrAdd", "aggrTopicAdd", "aggrTopicErase")
N1 = lambda v: ("n", 1, v if isinstance(v, Lin) else Lin(v))
N2 = lambda v: ("n", 2, v if isinstance(v, Lin) else Lin(v))
S = lambda obj, off, n: ("s", obj, off if isinstance(off, Lin) else Lin(off), n)
LIT = lambda b: ("lit", b)


def check_items(o, st, buf, at, items, end):
    """-> None or what is wrong"""
    ip = o.ip
    f = st.facts
    for i, it in enumerate(items):
        if it[0] == "n":
            bs = [ip.load(st, buf, at + k, 1, "i8") for k in range(it[1])]
            got = ZERO
            for b in bs:
                if undef(b):
                    return "field %d is not set" % (i + 1)
                got = got.scale(256) + b[2]
            if not same_int(f, 8 * it[1], got, it[2]) and not same_val(f, 8 * it[1], got, it[2]) and not (it[1] == 2 and word_is(f, bs[0][2], bs[1][2], it[2])):
                return "field %d is %s, should be %s" % (i + 1, got, it[2])
            at = at + it[1]
        elif it[0] == "any":
            got = ZERO
            for k in range(it[1]):
                x = ip.load(st, buf, at + k, 1, "i8")
                if undef(x):
                    return "field %d is not set" % (i + 1)
                got = got.scale(256) + x[2]
            it[2][:] = [got]
            at = at + it[1]
        elif it[0] == "lit":
            for k, c in enumerate(it[1]):
                b = ip.load(st, buf, at + k, 1, "i8")
                if not f.entails_eq(b[2] - c):
                    return "field %d is not %r" % (i + 1, it[1])
            at = at + len(it[1])
        elif it[0] in ("s", "utf"):
            _, ob, off, n = it
            if it[0] == "utf":
                hi, lo = [ip.load(st, buf, at + k, 1, "i8")[2] for k in (0, 1)]
                if not word_is(f, hi, lo, n):
                    return "length of field %d is %s*256+%s, should be %s" % (i + 1, hi, lo, n)
                at = at + 2
            if not n.t and n.c <= 8:
                pairs = [(ip.load(st, buf, at + k, 1, "i8"), ip.load(st, ob, off + k, 1, "i8")) for k in range(n.c)]
                same = all(x[0] == "I" and y[0] == "I" and same_int(f, 8, x[2], y[2]) for x, y in pairs)
            else:
                same = same_bytes(ip, st, buf, at, ob, off, n)
            if not same:
                return "the %s bytes of field %d are not those of %s" % (n, i + 1, obj_short(ob))
            at = at + n
    if end is not None and not f.entails_eq(at - end):
        return "fields end at %s, packet at %s" % (at, end)
    return None


def same_val(f, w, a, b):
    return f.entails_eq(a - b)


def shifted(L):
    """x, when L is x >> 8"""
    a = one_atom(L)
    if a and a[0] == "uf" and a[1] == "tr":
        a = one_atom(a[2][1])
    if a and a[0] == "uf" and a[1] in ("lshr", "ashr") and a[2][1] == 8:
        return a[2][0]
    return None


def one_atom(L):
    return L.t[0][0] if len(L.t) == 1 and L.c == 0 and L.t[0][1] == 1 else None


def low_byte(f, lo, x):
    """is lo the low byte of x"""
    a = one_atom(lo)
    y = a[2][1] if a and a[0] == "uf" and a[1] in ("tr", "wrap") and a[2][0] == 8 else lo
    return all(k % 256 == 0 for _, k in (x - y).t) and (x - y).c % 256 == 0


def word_is(f, hi, lo, n):
    """is hi:lo the 16 bit value n"""
    if f.entails_eq(hi.scale(256) + lo - n):
        return True
    if True:
        # (x >> 8) and the low 8 bits of x, for an x that has n in its low 16 bits
        x = shifted(hi)
        if x is not None and low_byte(f, lo, x) and (f.entails_eq(x - n) and f.entails(n) and f.entails(const(65535) - n) or same_int(f, 16, x, n)):
            return True
    nb = bits_of(16, n, f)
    if None in nb:
        # writeInt: n/256 and n%256 of an integer known to fit
        return False
    return bits_of(8, lo, f) == nb[:8] and bits_of(8, hi, f) == nb[8:]


def check_packet(o, post, want):
    st = o.st.copy()
    st.mem.update(dict(post.mem))
    ip = o.ip
    W = o.W
    if want[0] == "obj":
        if post.gw[0] != "P" or post.gw[1] != want[1]:
            return "another packet (%s) than %s" % (post.gw, obj_short(want[1]))
        return None
    if want[0] == "snobj":
        if post.sn[0] != "P" or post.sn[1] != want[1]:
            return "another packet (%s) than %s" % (post.sn, obj_short(want[1]))
        return None
    if want[0] in ("sn", "sncopy"):
        v = post.sn
        if v[0] != "P":
            return "no MQTT-SN packet"
        return sn_bytes(o, st, v, want)
    if post.gw[0] != "P":
        return "no MQTT packet"
    if want[0] == "raw":
        return gw_raw(o, st, post.gw, want)
    return gw_bytes(o, st, post.gw, want)


def sn_bytes(o, st, v, want):
    ip, W = o.ip, o.W
    buf = ip.load(st, v[1], v[2] + W.off("MQTTSNPacket", "_buf"), 8, "ptr")
    n = ip.load(st, v[1], v[2] + W.off("MQTTSNPacket", "_bufLen"), 4, "i32")
    if buf[0] != "P" or n[0] != "I":
        return "the packet is empty"
    if want[0] == "sncopy":
        ob, on = want[1:3]
        at = want[3] if len(want) > 3 else ZERO
        if not st.facts.entails_eq(n[2] - on):
            return "length %s, should be %s" % (n[2], on)
        return None if st.facts.entails_eq(on) or same_bytes(ip, st, buf[1], buf[2], ob, at, on) else "not a copy of %s" % obj_short(ob)
    for st2, ll, val, _ in decode(W.p, st, buf[1], n[2]):
        if not st2.facts.entails_eq(val - n[2]):
            return "length field %s, packet has %s bytes" % (val, n[2])
        t = ip.load(st2, buf[1], ll, 1, "i8")[2]
        if not same_int(st2.facts, 8, t, Lin(want[1])):
            return "message type %s, should be %d" % (t, want[1])
        e = check_items(o, st2, buf[1], ll + 1, want[2], val)
        if e:
            return e
    return None


def gw_raw(o, st, v, want):
    """an MQTT packet with that first byte and the n bytes at an object's offset"""
    _, first, want_n, obj, off = want
    ip, W = o.ip, o.W
    h = ip.load(st, v[1], v[2] + W.off("MQTTGWPacket", "_header"), 1, "i8")
    n = ip.load(st, v[1], v[2] + W.off("MQTTGWPacket", "_remainingLength"), 4, "i32")
    d = ip.load(st, v[1], v[2] + W.off("MQTTGWPacket", "_data"), 8, "ptr")
    if h[0] != "I" or not same_int(st.facts, 8, h[2], first):
        return "first byte is %s, should be %s" % (h, first)
    if n[0] != "I" or not same_int(st.facts, 32, n[2], want_n):
        return "remaining length is %s, should be %s" % (n, want_n)
    if st.facts.entails_eq(want_n):
        return None
    if d[0] != "P" or not same_bytes(ip, st, d[1], d[2], obj, off, want_n):
        return "the data is not what was read"
    return None


def gw_bytes(o, st, v, want):
    ip, W = o.ip, o.W
    h = ip.load(st, v[1], v[2] + W.off("MQTTGWPacket", "_header"), 1, "i8")
    n = ip.load(st, v[1], v[2] + W.off("MQTTGWPacket", "_remainingLength"), 4, "i32")
    d = ip.load(st, v[1], v[2] + W.off("MQTTGWPacket", "_data"), 8, "ptr")
    f = st.facts
    hb = bits_of(8, h[2], f) if h[0] == "I" else [None] * 8
    tb = bits_of(4, Lin(want[1]))
    if hb[4:] != tb:
        if not (h[0] == "I" and f.entails(h[2] - 16 * want[1]) and f.entails(const(16 * want[1] + 15) - h[2])):
            return "packet type bits %s, should be %d" % (hb[4:], want[1])
    if want[2] is not None:
        wb = bits_of(4, want[2], f)
        if hb[:4] != wb and not same_int(f, 8, h[2], want[2] + 16 * want[1]):
            return "header flags %s, should be %s" % (hb[:4], wb)
    if n[0] != "I":
        return "remaining length is %s" % (n,)
    if not want[3]:
        return None if f.entails_eq(n[2]) else "remaining length %s, should be 0" % n[2]
    if d[0] != "P":
        return "no data"
    return check_items(o, st, d[1], d[2], want[3], n[2])


# ------------------------------------------------------------------ comparing
FINAL = {"status": "_status", "waitWill": "_waitWillMsgFlg", "hold": "_holdPingRequest", "session": "_sessionStatus", "keepAlive": "_keepAliveMsec"}


def initial(W, st, client="client"):
    return {k: W.get(st, client, "Client", f)[2] for k, f in FINAL.items()}


def check(r, name, W, outs, init, spec, parts=("posts", "tables", "state"), client="client", where=""):
    """compare every analysed path with the specification; returns the number of comparisons"""
    n = 0
    if r.prop in ("M01", "O01"):
        return 0
    if r.prop == "H10":
        parts = ("state",)
    for out in outs:
        if out.kind != "again":
            r.ob("%s: handling returns to the loop" % name, False, "ends with %s" % out.kind, where)
            continue
        work = [()]
        while work:
            o = O(W, out.st, init, work.pop())
            try:
                e = spec(o)
            except Infeasible:
                work += o.todo
                continue
            except DontCare:
                work += o.todo
                r.count("dont_care")
                continue
            work += o.todo
            n += 1
            lab = name + (" (%s)" % ", ".join(o.labels) if o.labels else "")
            if "posts" in parts:
                compare_posts(r, lab, o, e, where)
            if "tables" in parts:
                compare_muts(r, lab, o, e, where)
            if "state" in parts:
                for k, f in FINAL.items():
                    if k in e.ignore:
                        continue
                    want = e.final.get(k, init[k])
                    got = W.get(o.st, client, "Client", f)[2]
                    ok = o.st.facts.entails_eq(got - want) or same_int(o.st.facts, 32, got, want if isinstance(want, Lin) else Lin(want))
                    r.ob("%s: client %s" % (lab, k), ok, "%s is %s afterwards, should be %s" % (f, got, want), where)
            for label, ok, why in e.checks:
                r.ob("%s: %s" % (lab, label), ok, why, where)
    return n


def compare_posts(r, lab, o, e, where):
    acts = {}
    for ev in o.st.trace:
        if ev[0] == "post":
            acts.setdefault(ev[1].que, []).append(ev[1])
    wants = {}
    for w in e.posts:
        wants.setdefault(w[0], []).append(w)
    for q in sorted(set(acts) | set(wants) | {"clientSendQue", "brokerSendQue"}):
        if q in e.ignore:
            continue
        a, w = acts.get(q, []), wants.get(q, [])
        pos = a[0].where if a else where
        r.ob("%s: what is handed to %s" % (lab, q), len(a) == len(w),
             "%d event(s) posted, %d expected (%s; expected %s)" % (len(a), len(w), [(x.type, brief(o, x)) for x in a], [(x[1], x[3][:2]) for x in w]), pos)
        if len(a) != len(w):
            continue
        for i, (x, y) in enumerate(zip(a, w)):
            key = "%s: %s%s" % (lab, q, "" if len(w) == 1 else "[%d]" % i)
            r.ob(key + " event type", x.type == o.W.E[y[1]], "event type %s, should be %s" % (x.type, y[1]), x.where)
            if y[2] is not None:
                r.ob(key + " client", x.client[0] == "P" and x.client[1] == y[2], "addressed to %s, should be %s" % (x.client, y[2]), x.where)
            err = check_packet(o, x, y[3])
            r.ob(key + " packet %s" % (y[3][1] if y[3][0] in ("sn", "gw") else y[3][0]), err is None, err or "", x.where)
            r.count("packets_compared")


def brief(o, post):
    st = o.st.copy()
    st.mem.update(dict(post.mem))
    try:
        if post.gw[0] == "P":
            h = o.ip.load(st, post.gw[1], o.W.off("MQTTGWPacket", "_header"), 1, "i8")
            return "MQTT %s" % (h[2],)
        if post.sn[0] == "P":
            b = o.ip.load(st, post.sn[1], o.W.off("MQTTSNPacket", "_buf"), 8, "ptr")
            if b[0] == "P":
                return "SN %s" % (o.ip.load(st, b[1], Lin(1), 1, "i8")[2],)
    except Exception:
        pass
    return "?"


def compare_muts(r, lab, o, e, where):
    for name in MUTS:
        if name in e.ignore:
            continue
        a = [x for x in o.st.trace if x[0] == name]
        w = [x for x in e.muts if x[0] == name]
        if not a and not w:
            continue
        r.ob("%s: %s" % (lab, name), len(a) == len(w), "%d table operation(s), %d expected: %s" % (len(a), len(w), [x[1] for x in w]), where)
        if len(a) != len(w):
            continue
        left = list(a)
        for _, text, chk in w:
            hit = None
            errs = []
            for x in left:
                err = chk(o, x) if chk else None
                if err is None:
                    hit = x
                    break
                errs.append(err)
            r.ob("%s: %s" % (lab, text), hit is not None, "; ".join(errs), where)
            if hit is not None:
                left.remove(hit)


# ------------------------------------------------------------------ running cases
DEADLINE = time.monotonic() + float(os.environ.get("SA_TIME", "800"))      # a check that takes longer reports what it has found


def pmap(r, cases, fn):
    """fn(report, case) for every case, in parallel; the reports are merged"""
    global _job
    _job = (fn, cases, r.prop, r.tier)
    late = None
    if os.environ.get("SA_SERIAL"):
        res = [_one(i) for i in range(len(cases))]
    else:
        res = []
        with multiprocessing.get_context("fork").Pool(min(8, max(1, len(cases)))) as pool:
            jobs = [pool.apply_async(_one, (i,)) for i in range(len(cases))]
            for i, j in enumerate(jobs):
                j.wait(max(0.0, DEADLINE - time.monotonic()))
                if j.ready():
                    res.append(j.get())
                else:
                    late = "case %s: time ran out" % (cases[i],)
    broken = late
    for obl, counts, fns, units, rules, asm, err in res:
        broken = broken or err
        for k, v in obl.items():
            o = r.obl.get(k)
            if o is None:
                r.obl[k] = dict(v)
            else:
                o["visits"] += v["visits"]
                if not v["ok"] and o["ok"]:
                    o.update(ok=False, detail=v["detail"], where=v["where"])
        for k, v in counts.items():
            r.count(k, v)
        r.fns |= fns
        r.units |= units
        for x in rules:
            r.rule(x)
        for x in asm:
            r.assume(x)
    if broken:
        raise build.AnalysisBroken(broken)


def _one(i):
    fn, cases, prop, tier = _job
    q = Report(prop, tier)
    err = None
    try:
        fn(q, cases[i])
    except build.AnalysisBroken as e:
        if os.environ.get("SA_DEBUG"):
            import traceback
            traceback.print_exc()
        err = "case %s: %s" % (cases[i], e)
    return q.obl, q.counts, q.fns, q.units, q.rules, q.assumptions, err
