"""The tables and queues the handlers work with: each operation is analysed on every list of up to 3 (thorough: 4) entries
whose contents are unknown, and compared with the contract the handlers' rules (gw.py) rely on."""
import build
from gw import *
from codec import same_bytes
from oracle import same_int

_p = {}


def differ(f, a, b):
    return f.entails_ne(a - b) or f.add_eq(a - b) is None


# obligations that belong to memory safety and ownership; the others are those of the handlers' properties
OWN = {"frees the node id of a client it forgets": ("O01",), "frees the node id it replaces": ("O01",), "leaves a consistent list": ("M01", "O01", "H"), "keeps the entries of the list allocated": ("M01", "H"), "frees the entry it removes": ("O01",),
       "loses no memory": ("O01",), "leaves the packets to the caller": ("M01", "O01", "H"), "leaves the event to the caller": ("M01", "O01", "H"),
       "does not free the packet": ("M01", "O01", "H")}


class T:
    """one analysis: a list of k entries behind an owner object"""

    def __init__(self, r, cls, node, fields, kind="gw:udp", prefix="", nprefix=""):
        self.r = r
        self.p = prog(kind)
        self.cls, self.node, self.f = cls, node, fields
        self.prefix = prefix
        self.models = {}
        self.models.update(STRINGS)
        self.models.update(FREE)
        for n in ("lock", "unlock"):
            self.models["Mutex::" + n] = m_nop
        for n in ("post", "wait", "timedwait"):
            self.models["Semaphore::" + n] = self.sem(n)
        for n in ("strchr", "memchr", "strpbrk", "strcspn"):
            self.models[n] = getattr(self, n)
        self.names = {}
        self.tbl = "tbl"
        self.size = self.p.types[node]["size"]
        self.st = State()
        buf(self.st, "tbl")

    def sem(self, n):
        def m(ip, st, a, ins, fr):
            st.event("sem", n)
            if n == "wait":
                return [Outcome(st, ("U", "exit"), "exit")]
            return [(st, ("U", "void"))]
        return m

    def scan(self, st, ip, p, n=64):
        """the bytes at p, up to and including the NUL, as far as they are known"""
        out = []
        while p[0] == "P" and len(out) < n:
            x = ip.load(st, p[1], p[2] + len(out), 1, "i8")
            if x[0] != "I" or x[2].t:
                break
            out.append(x[2].c & 255)
            if not out[-1]:
                return bytes(out)
        return None

    def strchr(self, ip, st, a, ins, fr):
        """of a string whose bytes are known"""
        b = self.scan(st, ip, a[0])
        if b is None or a[1][0] != "I" or a[1][2].t:
            return None
        i = b.find(a[1][2].c & 255)
        return [(st, P(a[0][1], a[0][2] + i) if i >= 0 else NULL)]

    def memchr(self, ip, st, a, ins, fr):
        b = self.scan(st, ip, a[0])
        if b is None or a[1][0] != "I" or a[1][2].t or a[2][2].t:
            return None
        i = b[:a[2][2].c].find(a[1][2].c & 255)
        return [(st, P(a[0][1], a[0][2] + i) if i >= 0 else NULL)]

    def strpbrk(self, ip, st, a, ins, fr):
        b, c = self.scan(st, ip, a[0]), self.scan(st, ip, a[1])
        if b is None or c is None:
            return None
        i = min([i for i, x in enumerate(b[:-1]) if x in c[:-1]] or [-1])
        return [(st, P(a[0][1], a[0][2] + i) if i >= 0 else NULL)]

    def strcspn(self, ip, st, a, ins, fr):
        b, c = self.scan(st, ip, a[0]), self.scan(st, ip, a[1])
        if b is None or c is None:
            return None
        return [(st, I(64, min([i for i, x in enumerate(b) if x in c])))]

    def off(self, t, f):
        return Lin(self.p.off(t, f))

    def fld(self, t, f):
        for path, off, bits, m in self.p.flat_fields(t):
            if path == f:
                n = max(1, bits // 8)
                return Lin(off), n, "ptr" if m[4] == "ptr" else "i%d" % (8 * n)
        raise build.AnalysisBroken("no field %s.%s" % (t, f))

    def get(self, st, o, t, f):
        off, n, ty = self.fld(t, f)
        return Interp(self.p).load(st, o, off, n, ty)

    def put(self, st, o, t, f, v):
        off, n, ty = self.fld(t, f)
        Interp(self.p).store(st, o, off, n, v)

    def owner(self):
        """object and type that hold first/end/count"""
        return B(self.tbl), self.cls

    def build(self, k, content=None, more=False, limit=0):
        """more: the k entries stand for a longer list, whose count is unknown"""
        st, f = self.st, self.f
        self.n = Lin(k)
        self.nodes = [("heap", "node%d" % i, 0) for i in range(k)]
        o, cls = self.owner()
        ns = [P(n) for n in self.nodes]
        for i, n in enumerate(self.nodes):
            st.mem[n] = Content(("sym", 0))
            st.sizes[n] = Lin(self.size)
            self.put(st, n, self.node, f["next"], ns[i + 1] if i + 1 < k else NULL)
            if f.get("prev"):
                self.put(st, n, self.node, f["prev"], ns[i - 1] if i else NULL)
            if content:
                content(st, n, i)
        self.put(st, o, cls, f["first"], ns[0] if k else NULL)
        if f.get("end"):
            self.put(st, o, cls, f["end"], ns[-1] if k else NULL)
        if f.get("cnt"):
            off, n, ty = self.fld(cls, f["cnt"])
            if more:
                self.n = var(("sym", "count", k, limit or (254 if n == 1 else 30000)))
            self.put(st, o, cls, f["cnt"], I(8 * n, self.n))
        return self.nodes

    def ident(self, ip, st, data, n):
        for lab, (o, off, ln) in self.names.items():
            if data[0] == "P" and st.facts.entails_eq(ln - n) and (data[1] == o and st.facts.entails_eq(data[2] - off) or same_bytes(ip, st, data[1], data[2], o, off, ln)):
                return lab
        return None

    def run(self, key, args, tag="", nargs=None):
        return self.run_fn(self.p.fn(key, nargs), args, tag)

    def run_fn(self, fn, args, tag=""):
        key = fn.key
        ip = Interp(self.p, self.models, max_depth=20, max_states=600, budget=400000)
        ip.unroll = 8
        ip.no_nul = True
        ip.merge_at = 500
        self.ip = ip
        mon = Monitor(self.r, key + tag)
        mon.ip = ip
        if self.r.prop in ("M01", "ALL"):
            ip.on_access = mon.on_access
        ip.on_free = mon.on_free if self.r.prop in ("M01", "O01", "ALL") else lambda *a: None
        self.where = loc(fn)
        self.key = self.prefix + fn.key
        outs = ip.run(fn, args, self.st.copy())
        self.r.used(ip)
        self.r.count("table_paths", len(outs))
        if not outs:
            raise build.AnalysisBroken("%s: no path returns" % key)
        return outs

    def ob(self, what, ok, detail=""):
        p = self.r.prop
        if p not in ("ALL", "A01") and (p if p in ("M01", "O01") else "H") not in OWN.get(what, ("H",)):
            return ok
        return self.r.ob("%s: %s" % (self.key, what), ok, detail, self.where)

    def chain(self, st):
        """the entries a walk over the list meets"""
        f = self.f
        o, cls = self.owner()
        out, prev = [], None
        cur = self.get(st, o, cls, f["first"])
        while cur[0] == "P" and len(out) < 9:
            n = cur[1]
            if lazy(n):
                return out, "the list leads to %s, which is no entry" % obj_short(n)
            if n in out:
                return out, "the list is circular"
            if st.ghost.get(("freed", n)):
                return out, "the list contains a freed entry"
            if f.get("prev"):
                b = self.get(st, n, self.node, f["prev"])
                if (b[0] == "P" and b[1]) != (prev or False) or b[0] not in ("P", "N"):
                    return out, "entry %d's back link is %s" % (len(out), b)
            out.append(n)
            prev = n
            cur = self.get(st, n, self.node, f["next"])
        if cur[0] == "P" or cur[0] not in ("N",):
            return out, "the list does not end: %s" % (cur,)
        if f.get("end"):
            e = self.get(st, o, cls, f["end"])
            if out and e[0] != "P" or e[0] == "P" and (not out or e[1] != out[-1]):
                return out, "the end pointer is %s" % (e,)
        if f.get("cnt"):
            c = self.get(st, o, cls, f["cnt"])
            want = self.n + (len(out) - len(self.nodes))
            if not same_int(st.facts, c[1], c[2], want):
                return out, "the count is %s with %s entries" % (c[2], want)
        return out, None

    def check(self, o, want, extra=None):
        """list afterwards == want (node objects; None stands for one new entry); returns the new entries"""
        got, err = self.chain(o.st)
        if err:
            self.ob("leaves a consistent list", False, err)
            return None
        new = [n for n in got if n not in self.nodes]
        w = [n if n is not None else "new" for n in want]
        g = [n if n in self.nodes else "new" for n in got]
        self.ob("leaves a consistent list", True)
        nm = lambda l: [x if x == "new" else "#%d" % self.nodes.index(x) for x in l]
        self.ob("leaves exactly the right entries, in order", w == g, "entries afterwards %s, should be %s" % (nm(g), nm(w)))
        gone = [n for n in self.nodes if n not in got]
        for n in gone:
            self.ob("frees the entry it removes", bool(o.st.ghost.get(("freed", n))), "the removed entry is not freed")
        for n in got:
            self.ob("keeps the entries of the list allocated", not o.st.ghost.get(("freed", n)), "an entry of the list is freed")
        lk = [x for x in leaked(self.ip, o.st, o.val) if x not in self.nodes and not str(x[1]).startswith("held")]
        self.ob("loses no memory", not lk, "lost: %s" % [obj_short(x) for x in lk])
        return new if w == g else None


def sizes(r):
    """(entries, whether they stand for a longer list)"""
    m = 3 if r.tier == "quick" else 4
    return [(k, False) for k in range(m + 1)] + [(m, True)]


def ival(v):
    return v[2] if v[0] == "I" else None


# ------------------------------------------------------------------ message id -> topic id
IDMAP = dict(first="_first", end="_end", next="_next", prev="_prev", cnt="_cnt")


def idmap(r, k, more=False):
    t = T(r, "TopicIdMap", "TopicIdMapElement", IDMAP)
    st = t.st
    nodes = t.build(k, more=more)
    key = lambda s, n: t.get(s, n, t.node, "_msgId")[2]
    for i in range(k):
        for j in range(i):
            st.facts = st.facts.add_ne(key(st, nodes[i]) - key(st, nodes[j]))
    mx = t.get(st, B("tbl"), t.cls, "_maxInflight")[2]
    st.facts = st.facts.add_ge(mx - 1).add_ge(const(1000) - mx)
    m = var(("sym", "m", 0, 65535))
    M = I(16, m)
    return t, nodes, key, m, M, mx


def keep(t, s, nodes, key, m):
    """entries whose key is not m; None if it is not known of one"""
    out = []
    for n in nodes:
        a = key(s, n)
        if same_int(s.facts, 16, a, m):
            continue
        if not differ(s.facts, a, m):
            return None
        out.append(n)
    return out


def C_idmap(r):
    for k, more in sizes(r):
        t, nodes, key, m, M, mx = idmap(r, k, more)
        for o in t.run("TopicIdMap::getElement", [P(B("tbl")), M]):
            if o.val[0] == "P":
                t.ob("finds the entry with that message id", o.val[1] in nodes and same_int(o.st.facts, 16, key(o.st, o.val[1]), m), "returned %s" % (o.val,))
            else:
                t.ob("finds an entry when there is one", all(differ(o.st.facts, key(o.st, n), m) for n in nodes), "returns none although entry %d may match" % k)
            t.check(o, nodes)
        for o in t.run("TopicIdMap::erase", [P(B("tbl")), M]):
            w = keep(t, o.st, nodes, key, m)
            t.ob("looks at every entry", w is not None, "an entry that may have the message id is left alone")
            if w is not None:
                t.check(o, w)
        for o in t.run("TopicIdMap::clear", [P(B("tbl"))]) if not more else ():
            t.check(o, [])
        for typ in (0, 1, 2):
            for name in ([b"a/b", b"a/#", b"+/b", b"#", b"ab+", b"x"] if typ == 0 else [b"??"]):
                t, nodes, key, m, M, mx = idmap(r, k, more)
                st = t.st
                tid = var(("sym", "tid", 0, 65535))
                d = buf(st, "name", len(name) + 1)
                for i, c in enumerate(name + b"\0"):
                    Interp(t.p).store(st, d[1], Lin(i), 1, I(8, c))
                top = buf(st, "topicid", t.p.types["MQTTSN_topicid"]["size"])
                t.put(st, top[1], "MQTTSN_topicid", "type", I(32, typ))
                if typ != 2:
                    if typ == 0:
                        t.put(st, top[1], "MQTTSN_topicid", "data.long_.name", d)
                        t.put(st, top[1], "MQTTSN_topicid", "data.long_.len", I(32, len(name)))
                for o in t.run("TopicIdMap::add", [P(B("tbl")), M, I(16, tid), top]):
                    f = o.st.facts
                    if o.val[0] != "P":
                        t.ob("accepts an id while there is room", f.entails(t.n - mx - 1) or typ != 2 and f.entails_eq(tid),
                             "refuses entry %d with room for twice %s" % (k + 1, mx))
                        t.check(o, nodes)
                        continue
                    w = keep(t, o.st, nodes, key, m)
                    t.ob("replaces an older entry of that message id", w is not None, "two entries may have the same message id")
                    if w is None:
                        continue
                    new = t.check(o, w + [None])
                    if new:
                        n = new[0]
                        t.ob("returns the new entry", o.val[1] == n)
                        t.ob("keeps the message id", same_int(f, 16, key(o.st, n), m))
                        t.ob("keeps the topic id", same_int(f, 16, t.get(o.st, n, t.node, "_topicId")[2], tid))
                        t.ob("keeps the topic type", f.entails_eq(t.get(o.st, n, t.node, "_type")[2] - typ))
                        wc = typ == 0 and (b"#" in name or b"+" in name)
                        t.ob("knows wildcard subscriptions", f.entails_eq(t.get(o.st, n, t.node, "_wildcard")[2] - int(wc)), "wildcard flag of %r is %s" % (name, t.get(o.st, n, t.node, "_wildcard")[2]))
                        s0, t.st = t.st, o.st
                        kk, ww = t.key, t.where
                        for o2 in t.run("TopicIdMapElement::getTopicId", [P(n)]):
                            t.ob("gives the topic id, and 0 for a wildcard subscription", same_int(o2.st.facts, 16, ival(o2.val), ZERO if wc else tid), "id %s" % (o2.val,))
                        t.st, t.key, t.where = s0, kk, ww


# ------------------------------------------------------------------ PUBLISH waiting for REGACK
def C_regack(r):
    F = dict(first="_first", end="_end", next="_next", prev="_prev", cnt="_cnt")
    for k, more in sizes(r):
        t = T(r, "WaitREGACKPacketList", "waitREGACKPacket", F)
        st = t.st
        pk = [heapbuf(st, "held%d" % i, t.p.types["MQTTSNPacket"]["size"]) for i in range(k + 1)]
        nodes = t.build(k, lambda s, n, i: t.put(s, n, t.node, "_packet", pk[i]), more)
        key = lambda s, n: t.get(s, n, t.node, "_msgId")[2]
        m = var(("sym", "m", 0, 65535))
        M = I(16, m)
        off, n8, ty = t.fld(t.cls, "_cnt")
        for o in t.run("WaitREGACKPacketList::setPacket", [P(B("tbl")), pk[k], M]):
            new = t.check(o, nodes + [None])
            t.ob("says that the packet is kept", o.val[0] == "I" and differ(o.st.facts, o.val[2], ZERO), "returns %s" % (o.val,))
            if new:
                t.ob("keeps the message id", same_int(o.st.facts, 16, key(o.st, new[0]), m))
                v = t.get(o.st, new[0], t.node, "_packet")
                t.ob("keeps the packet", v == pk[k] and not o.st.ghost.get(("freed", pk[k][1])), "holds %s" % (v,))
        for o in t.run("WaitREGACKPacketList::getPacket", [P(B("tbl")), M]):
            if o.val[0] == "P":
                i = [x[1] for x in pk].index(o.val[1]) if o.val[1] in [x[1] for x in pk[:k]] else None
                t.ob("finds the packet with that message id", i is not None and same_int(o.st.facts, 16, key(o.st, nodes[i]), m), "returned %s" % (o.val,))
                if i is not None:
                    t.ob("finds the oldest packet first", all(differ(o.st.facts, key(o.st, n), m) for n in nodes[:i]))
            else:
                t.ob("finds a packet when there is one", all(differ(o.st.facts, key(o.st, n), m) for n in nodes))
            t.check(o, nodes)
        for o in t.run("WaitREGACKPacketList::erase", [P(B("tbl")), M]):
            w = []
            hit = None
            for n in nodes:
                if hit is None and same_int(o.st.facts, 16, key(o.st, n), m):
                    hit = n
                    continue
                if hit is None and not differ(o.st.facts, key(o.st, n), m):
                    w = None
                    break
                w.append(n)
            t.ob("looks at every entry", w is not None, "an entry that may have the message id is left alone")
            if w is not None:
                t.check(o, w)
            for x in pk:
                t.ob("leaves the packets to the caller", not o.st.ghost.get(("freed", x[1])), "frees the packet")
        for o in t.run("WaitREGACKPacketList::getCount", [P(B("tbl"))]):
            t.ob("counts the waiting packets", o.val[0] == "I" and o.st.facts.entails_eq(o.val[2] - t.n), "%s for %d" % (o.val, k))


# ------------------------------------------------------------------ queues
def C_pque(r):
    for pkt in ("MQTTGWPacket", "MQTTSNPacket"):
        N = "MQTTSNGW::" + pkt
        for k, more in sizes(r):
            t = T(r, "Que<%s>" % N, "QueElement<%s>" % N, dict(first="_head", end="_tail", next="_next", cnt="_cnt"))
            st = t.st
            buf(st, "pq")
            t.put(st, B("pq"), "PacketQue<%s>" % N, "_que", P(B("tbl")))
            pk = [heapbuf(st, "held%d" % i, t.p.types[pkt]["size"]) for i in range(k + 1)]
            nodes = t.build(k, lambda s, n, i: t.put(s, n, t.node, "_element", pk[i]), more)
            mx = t.get(st, B("tbl"), t.cls, "_maxSize")[2]
            st.facts = st.facts.add_ge(mx)
            C = "PacketQue<%s>::" % N
            for o in t.run(C + "getPacket", [P(B("pq"))]):
                t.ob("gives the oldest packet", o.val == (pk[0] if k else NULL) or not k and o.val[0] == "N", "gives %s" % (o.val,))
                t.check(o, nodes)
            for o in t.run(C + "pop", [P(B("pq"))]):
                t.check(o, nodes[1:])
                for x in pk[:k]:
                    t.ob("leaves the packet to the caller", not o.st.ghost.get(("freed", x[1])), "frees the packet")
            for o in t.run(C + "post", [P(B("pq")), pk[k]]):
                f = o.st.facts
                v = ival(o.val)
                if v is not None and f.entails_eq(v):
                    t.ob("accepts a packet while there is room", f.entails(mx - 1) and f.entails(t.n - mx), "refuses packet %d with room for %s" % (k + 1, mx))
                    t.check(o, nodes)
                else:
                    t.ob("says that it took the packet", v is not None and differ(f, v, ZERO), "returns %s" % (o.val,))
                    t.ob("keeps to its size", f.entails_eq(mx) or f.entails(mx - t.n - 1), "takes packet %d with room for %s" % (k + 1, mx))
                    new = t.check(o, nodes + [None])
                    if new:
                        t.ob("keeps the packet", t.get(o.st, new[0], t.node, "_element") == pk[k])
                t.ob("does not free the packet", not o.st.ghost.get(("freed", pk[k][1])))


class EQ(T):
    def owner(self):
        return B("tbl"), "EventQue"


def C_eque(r):
    N = "MQTTSNGW::Event"
    E = prog("gw:udp").enums["EtTimeout"]
    for k, more in sizes(r):
        t = EQ(r, "Que<%s>" % N, "QueElement<%s>" % N, dict(first="_que._head", end="_que._tail", next="_next", cnt="_que._cnt"))
        st = t.st
        ev = [heapbuf(st, "held%d" % i, t.p.types["Event"]["size"], ("zero",)) for i in range(k + 1)]
        nodes = t.build(k, lambda s, n, i: t.put(s, n, t.node, "_element", ev[i]), more)
        mx = t.get(st, B("tbl"), "EventQue", "_que._maxSize")[2]
        st.facts = st.facts.add_ge(mx)
        for o in t.run("EventQue::post", [P(B("tbl")), ev[k]]):
            f = o.st.facts
            sem = [x for x in o.st.trace if x[0] == "sem"]
            if o.st.ghost.get(("freed", ev[k][1])):
                t.ob("accepts an event while there is room", f.entails(mx - 1) and f.entails(t.n - mx), "refuses event %d with room for %s" % (k + 1, mx))
                t.check(o, nodes)
                t.ob("wakes nobody for a refused event", not sem)
            else:
                new = t.check(o, nodes + [None])
                t.ob("keeps to its size", f.entails_eq(mx) or f.entails(mx - t.n - 1), "takes event %d with room for %s" % (k + 1, mx))
                t.ob("wakes one waiting thread", sem == [("sem", "post")], "semaphore operations: %s" % (sem,))
                if new:
                    t.ob("keeps the event", t.get(o.st, new[0], t.node, "_element") == ev[k])
        for key in ("EventQue::wait", "EventQue::timedwait"):
            for o in t.run(key, [P(B("tbl"))] + ([I(16, var(("sym", "ms", 0, 65535)))] if key.endswith("timedwait") else [])):
                if k:
                    t.ob("gives the oldest event", o.val == ev[0], "gives %s" % (o.val,))
                    t.check(o, nodes[1:])
                    t.ob("leaves the event to the caller", not o.st.ghost.get(("freed", ev[0][1])))
                elif key.endswith("timedwait"):
                    ok = o.val[0] == "P" and o.val[1] not in [x[1] for x in ev]
                    t.ob("gives a timeout event when nothing came", ok and o.st.facts.entails_eq(t.get(o.st, o.val[1], "Event", "_eventType")[2] - E), "gives %s" % (o.val,))
                    t.check(o, nodes)
                else:
                    t.ob("waits while there is nothing", o.kind == "exit", "returns %s" % (o.val,))
        for o in t.run("EventQue::size", [P(B("tbl"))]):
            t.ob("counts the events", o.val[0] == "I" and o.st.facts.entails_eq(o.val[2] - t.n))


# ------------------------------------------------------------------ topics
def str_models(t):
    """string comparison: the two outcomes, remembered"""
    def cmp(ip, st, x, n, y, m):
        a, b = t.ident(ip, st, x, n), t.ident(ip, st, y, m)
        k = ("streq", frozenset((a or x, b or y)))
        if a is not None and a == b:
            return [(st, True)]
        if k in st.ghost:
            return [(st, st.ghost[k])]
        s2 = st.copy()
        s2.ghost[k] = False
        f = st.facts.add_eq(n - m)
        if f is None:
            return [(s2, False)]
        st.facts = f
        st.ghost[k] = True
        return [(st, True), (s2, False)]

    def res(l, eq):
        out = []
        for s, same in l:
            if eq:
                out.append((s, I(1, int(same))))
            elif same:
                out.append((s, I(32, 0)))
            else:
                v = sym(s.fresh("cmp"), 32, -(1 << 31), (1 << 31) - 1)
                s.facts = s.facts.add_ne(v[2]) or s.facts
                out.append((s, v))
        return out

    def m_ss(eq):
        def m(ip, st, a, ins, fr):
            return res(cmp(ip, st, str_data(ip, st, a[0]), str_len(ip, st, a[0])[2], str_data(ip, st, a[1]), str_len(ip, st, a[1])[2]), eq)
        return m

    def m_sc(eq):
        def m(ip, st, a, ins, fr):
            return res(cmp(ip, st, str_data(ip, st, a[0]), str_len(ip, st, a[0])[2], a[1], ip.strlen_of(st, a[1], fr)), eq)
        return m
    t.models[KSTR + "7compareERKS4_"] = m_ss(False)
    t.models[KSTR + "7compareEPKc"] = m_sc(False)
    for mangled in ("_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EESA_",
                    "_ZSteqIcEN9__gnu_cxx11__enable_ifIXsr9__is_charIT_EE7__valueEbE6__typeERKNSt7__cxx1112basic_stringIS3_St11char_traitsIS3_ESaIS3_EEESC_"):
        t.models[mangled] = m_ss(True)
    t.models["_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_"] = m_sc(True)


def topics(r, k, types, more=False):
    t = T(r, "Topics", "Topic", dict(first="_first", next="_next", cnt="_cnt"))
    str_models(t)
    st = t.st
    L = var(("sym", "arglen", 0, 65535))
    d = buf(st, "argname", L)
    t.names["arg"] = (d[1], ZERO, L)

    def content(s, n, i):
        so = ("heap", "heldstr%d" % i, 0)
        s.mem[so] = Content(("sym", 0))
        nd = ("heap", "heldname%d" % i, 0)
        ln = var(("sym", "len%d" % i, 0, 65535))
        s.mem[nd] = Content(("sym", 0))
        s.sizes[nd] = ln + 1
        ip = Interp(t.p)
        ip.store(s, so, ZERO, 8, P(nd))
        ip.store(s, so, Lin(8), 8, I(64, ln))
        s.ghost[("strof", nd)] = (so, ZERO)
        t.names["n%d" % i] = (nd, ZERO, ln)
        t.put(s, n, "Topic", "_topicName", P(so))
        t.put(s, n, "Topic", "_type", I(32, types[i]))
    nodes = t.build(k, content, more, 49)
    a = buf(st, "arg", t.p.types["MQTTSN_topicid"]["size"])
    t.put(st, a[1], "MQTTSN_topicid", "data.long_.name", d)
    t.put(st, a[1], "MQTTSN_topicid", "data.long_.len", I(32, L))
    return t, nodes, a, d, L


def eqname(s, i):
    """is the name of entry i the one that is asked for, as far as the path knows"""
    v = s.ghost.get(("streq", frozenset(("n%d" % i, "arg"))))
    if v is None and s.facts.entails_ne(var(("sym", "len%d" % i, 0, 65535)) - var(("sym", "arglen", 0, 65535))):
        return False
    return v


def C_topics(r):
    p = prog("gw:udp")
    import itertools
    MAXT = None
    for k, more in sizes(r):
        ty0 = [0] * k
        t, nodes, a, d, L = topics(r, k, ty0, more)
        outs = t.run("Topics::getTopicByName", [P(B("tbl")), a])
        for o in outs:
            if o.val[0] == "P":
                i = nodes.index(o.val[1]) if o.val[1] in nodes else None
                t.ob("finds the topic of that name", i is not None and eqname(o.st, i) is True, "returned %s" % (o.val,))
            else:
                t.ob("finds a topic when there is one", all(eqname(o.st, i) is False for i in range(k)), "an entry that may have the name is passed over")
            t.check(o, nodes)
        for types in itertools.product((0, 1), repeat=k) if not more else ():
            t, nodes, a, d, L = topics(r, k, types, False)
            id = lambda s, n: t.get(s, n, "Topic", "_topicId")[2]
            for typ in (0, 1):
                t.put(t.st, a[1], "MQTTSN_topicid", "type", I(32, typ))
                x = var(("sym", "tid", 0, 65535))
                t.put(t.st, a[1], "MQTTSN_topicid", "data.id", I(16, x))
                for o in t.run("Topics::getTopicById", [P(B("tbl")), a]):
                    if o.val[0] == "P":
                        i = nodes.index(o.val[1]) if o.val[1] in nodes else None
                        t.ob("finds the topic of that type and id", i is not None and types[i] == typ and same_int(o.st.facts, 16, id(o.st, nodes[i]), x), "returned %s" % (o.val,))
                    else:
                        t.ob("finds a topic when there is one", all(types[i] != typ or differ(o.st.facts, id(o.st, n), x) for i, n in enumerate(nodes)))
                    t.check(o, nodes)
            for o in t.run("Topics::eraseNormal", [P(B("tbl"))]):
                t.check(o, [n for i, n in enumerate(nodes) if types[i] == 1])
        # registration
        for full in (False, True):
            for fkey in (0, 1):
                t, nodes, a, d, L = topics(r, k, ty0, more)
                st = t.st
                nx = t.get(st, B("tbl"), "Topics", "_nextTopicId")[2]
                st.facts = st.facts.add_ge(nx - k).add_ge(const(65533) - nx)
                for n in nodes:
                    i0 = t.get(st, n, "Topic", "_topicId")[2]
                    st.facts = st.facts.add_ge(i0 - 1).add_ge(nx - i0)
                x = var(("sym", "tid", 0, 65535))
                cnt = k
                if full:
                    off, n8, ty = t.fld("Topics", "_cnt")
                    t.put(st, B("tbl"), "Topics", "_cnt", I(8, 50))
                t.put(st, a[1], "MQTTSN_topicid", "type", I(32, 0))
                if fkey == 0:
                    st.sizes[d[1]] = L
                    args = [P(B("tbl")), a]
                else:
                    st.sizes[d[1]] = L + 1
                    Interp(p).store(st, d[1], L, 1, I(8, 0))
                    st.ghost[("strof", d[1])] = d[1]
                    args = [P(B("tbl")), d, I(16, x)]
                topics_add(t, nodes, args, fkey, full, x, nx, k, L, d)


def topics_add(t, nodes, args, fkey, full, x, nx, k, L, d):
    outs = t.run("Topics::add", args, nargs=len(args))
    for o in outs:
        s, f = o.st, o.st.facts
        hit = [i for i in range(k) if eqname(s, i) is True]
        if full:
            if o.val[0] == "P":
                t.ob("a full table gives known topics only", hit and o.val[1] == nodes[hit[0]], "returned %s" % (o.val,))
            continue
        if hit:
            t.ob("gives the topic that has the name", o.val == P(nodes[hit[0]]), "returned %s" % (o.val,))
            t.check(o, nodes)
            continue
        t.ob("compares with every topic", all(eqname(s, i) is False for i in range(k)), "the name is added without being compared with each topic")
        t.ob("adds a topic while there is room", o.val[0] == "P", "returned %s" % (o.val,))
        new = t.check(o, nodes + [None])
        if not new or o.val[0] != "P":
            continue
        n = new[0]
        t.ob("returns the new topic", o.val[1] == n)
        T_, I_ = t.get(s, n, "Topic", "_type")[2], t.get(s, n, "Topic", "_topicId")[2]
        normal = fkey == 0 or f.entails_eq(x)
        if normal:
            t.ob("a registered topic is a normal one", f.entails_eq(T_), "type %s" % T_)
            t.ob("gives an id from 1 to 0xFFFE", f.entails(I_ - 1) and f.entails(const(0xfffe) - I_), "id %s" % I_)
            for m in nodes:
                t.ob("gives an id no other topic has", differ(f, I_, t.get(s, m, "Topic", "_topicId")[2]), "id %s" % I_)
            t.ob("will not give the id again", f.entails(t.get(s, B("tbl"), "Topics", "_nextTopicId")[2] - I_), "next id %s after %s" % (t.get(s, B("tbl"), "Topics", "_nextTopicId")[2], I_))
        else:
            t.ob("a topic with a given id is a predefined one", f.entails_eq(T_ - 1) and same_int(f, 16, I_, x), "type %s id %s" % (T_, I_))
        S = t.get(s, n, "Topic", "_topicName")
        ok = S[0] == "P"
        if ok:
            q, ln = str_data(t.ip, s, S), str_len(t.ip, s, S)
            ok = f.entails_eq(ln[2] - L) and same_bytes(t.ip, s, q[1], q[2], d[1], ZERO, L)
        t.ob("keeps the name", ok, "the new topic's name is another one")



# ------------------------------------------------------------------ clients and forwarders
def addr_fields(p):
    return [(path, Lin(off), max(1, bits // 8)) for path, off, bits, m in p.flat_fields("SensorNetAddress")]


def addr_at(t, st, o, base):
    return [Interp(t.p).load(st, o, base + off, n, "i%d" % (8 * n))[2] for _, off, n in addr_fields(t.p)]


def addr_same(t, st, a, b):
    """True, False or None (not known)"""
    fs = addr_fields(t.p)
    v = [same_int(st.facts, 8 * n, x, y) for (_, _, n), x, y in zip(fs, a, b)]
    if all(v):
        return True
    return False if any(differ(st.facts, x, y) for x, y in zip(a, b)) else None


def over(t, key, *has):
    """the overload whose mangled name has these parts"""
    fs = [f for f in t.p.bykey.get(key, ()) if all(h in f.name for h in has)]
    if len(fs) != 1:
        raise build.AnalysisBroken("%s(%s): %d functions" % (key, has, len(fs)))
    return fs[0]


def mem_models(t):
    """memcmp and strncmp of objects that are known by name: the two outcomes, remembered"""
    def m(what):
        def f(ip, st, a, ins, fr):
            n = ip.unsigned(st, 64, a[2][2])
            if what == "memcmp":
                ip.access(st, "load", a[0], n, ins, fr)
                ip.access(st, "load", a[1], n, ins, fr)
            if st.facts.entails_eq(n):
                return [(st, I(32, 0))]
            x, y = t.ident(ip, st, a[0], n), t.ident(ip, st, a[1], n)
            if x is None or y is None:
                return None
            k = ("streq", frozenset((x, y)))
            out = []
            for eq in ([st.ghost[k]] if k in st.ghost else [True, False]):
                s = st.copy()
                s.ghost[k] = eq
                v = I(32, 0)
                if not eq:
                    v = sym(s.fresh("cmp"), 32, -(1 << 31), (1 << 31) - 1)
                    s.facts = s.facts.add_ne(v[2]) or s.facts
                out.append((s, v))
            return out
        return f
    t.models["memcmp"] = m("memcmp")
    t.models["strncmp"] = m("strncmp")

    def strcmp(ip, st, a, ins, fr):
        n0, n1 = ip.strlen_of(st, a[0], fr), ip.strlen_of(st, a[1], fr)
        x, y = t.ident(ip, st, a[0], n0), t.ident(ip, st, a[1], n1)
        if x is None or y is None:
            return None
        k = ("streq", frozenset((x, y)))
        out = []
        for eq in ([st.ghost[k]] if k in st.ghost else [True, False]):
            s = st.copy()
            if eq:
                f = s.facts.add_eq(n0 - n1)
                if f is None:
                    continue
                s.facts = f
            s.ghost[k] = eq
            v = I(32, 0)
            if not eq:
                v = sym(s.fresh("cmp"), 32, -(1 << 31), (1 << 31) - 1)
                s.facts = s.facts.add_ne(v[2]) or s.facts
            out.append((s, v))
        return out
    t.models["strcmp"] = strcmp


def named(st, name, n, z):
    """an object of n unknown bytes, followed by a NUL if z"""
    o = ("heap", name, 0)
    st.mem[o] = Content(("sym", 0))
    st.sizes[o] = n + 1 if z else n
    if z:
        Interp(prog("gw:udp")).store(st, o, n, 1, I(8, 0))
        st.ghost[("strof", o)] = o
    return P(o)


def bytes_equal(s, i, L, what="n%d"):
    """is the name of entry i the one asked for, as far as the path knows"""
    Li = var(("sym", "len%d" % i, 0, 255))
    if s.facts.entails_ne(Li - L) or s.facts.add_eq(Li - L) is None:
        return False
    v = s.ghost.get(("streq", frozenset((what % i, "arg"))))
    if v is None and s.facts.entails_eq(L) and s.facts.entails_eq(Li):
        return True
    if v is True and not s.facts.entails_eq(Li - L):
        return None
    return v


CL = dict(first="_firstClient", end="_endClient", next="_nextClient", prev="_prevClient", cnt="_clientCnt")


def C_clients(r):
    p = prog("gw:udp")
    adr = var(("sym", "arglen", 0, 255))
    for k, more in sizes(r):
        def world(free=False, lenform=False):
            t = T(r, "ClientList", "Client", CL)
            mem_models(t)
            st = t.st

            def content(s, n, i):
                ln = var(("sym", "len%d" % i, 0, 255))
                q = named(s, "heldid%d" % i, ln, True)
                t.put(s, n, "Client", "_clientId", q)
                t.names["n%d" % i] = (q[1], ZERO, ln)
            nodes = t.build(k, content, more)
            d = named(st, "argid", adr, not lenform)
            t.names["arg"] = (d[1], ZERO, adr)
            a = buf(st, "arg", p.types["MQTTSNString"]["size"])
            t.put(st, a[1], "MQTTSNString", "cstring", NULL if lenform else d)
            t.put(st, a[1], "MQTTSNString", "lenstring.data", d if lenform else NULL)
            t.put(st, a[1], "MQTTSNString", "lenstring.len", I(32, adr if lenform else ZERO))
            sa = buf(st, "sa", p.types["SensorNetAddress"]["size"])
            pool = buf(st, "pool", p.types["ClientsPool"]["size"])
            t.put(st, B("tbl"), "ClientList", "_clientsPool", pool)
            if free:
                f0, f1 = ("heap", "heldfree0", 0), ("heap", "heldfree1", 0)
                for f in (f0, f1):
                    st.mem[f] = Content(("zero",))
                    st.sizes[f] = Lin(t.size)
                net = ("heap", "heldnet", 0)
                st.mem[net] = Content(("zero",))
                st.sizes[net] = Lin(p.types["Network"]["size"])
                for path, off, bits, m in p.flat_fields("Client"):
                    if path == "_network":
                        t.put(st, f0, "Client", "_network", P(net))
                t.put(st, f0, "Client", "_nextClient", P(f1))
                t.put(st, pool[1], "ClientsPool", "_firstClient", P(f0))
            else:
                t.put(st, pool[1], "ClientsPool", "_firstClient", NULL)
            return t, st, nodes, a, sa, d
        base = Lin(p.off("Client", "_sensorNetAddr"))
        t, st, nodes, a, sa, d = world()
        want = addr_at(t, st, sa[1], ZERO)
        fn = over(t, "ClientList::getClient", "SensorNetAddress")
        for o in t.run_fn(fn, [P(B("tbl")), sa]):
            same = [addr_same(t, o.st, addr_at(t, o.st, n, base), want) for n in nodes]
            if o.val[0] == "P":
                t.ob("finds the client with that address", o.val[1] in nodes and same[nodes.index(o.val[1])] is True, "returned %s" % (o.val,))
            else:
                t.ob("finds a client when there is one with the address", all(x is False for x in same), "returns none although a client may have the address")
            t.check(o, nodes)
        fn = over(t, "ClientList::getClient", "MQTTSNString")
        for lf in (False, True):
            t, st, nodes, a, sa, d = world(lenform=lf)
            for o in t.run_fn(fn, [P(B("tbl")), a]):
                if o.val[0] == "P":
                    t.ob("finds the client with that id", o.val[1] in nodes and bytes_equal(o.st, nodes.index(o.val[1]), adr) is True, "returned %s" % (o.val,))
                else:
                    t.ob("finds a client when there is one with the id", all(bytes_equal(o.st, i, adr) is False for i in range(k)), "returns none although a client may have the id")
                t.check(o, nodes)
        if not more:
            fn = over(t, "ClientList::getClient", "Ei")
            for i in range(k + 1):
                t, st, nodes, a, sa, d = world()
                for o in t.run_fn(fn, [P(B("tbl")), I(32, i)]):
                    t.ob("gives the client of an index", o.val == (P(nodes[i]) if i < k else NULL) or i >= k and o.val[0] == "N", "returned %s" % (o.val,))
        ct = {k_: v for k_, v in p.enums.items() if k_.startswith("Ctype_")}
        fn = over(t, "ClientList::createClient", "bbi")
        for free in (False, True):
            for typ, ctype in ((0, None), (1, "Ctype_QoS_1"), (2, "Ctype_Aggregated")):
                for noaddr in (False, True):
                    for lf in (False, True):
                        if k and (typ or noaddr and lf):
                            continue
                        t, st, nodes, a, sa, d = world(free, lf)
                        want = addr_at(t, st, sa[1], ZERO)
                        sec, uns = var(("sym", "secure", 0, 1)), var(("sym", "unstable", 0, 1))
                        f0 = ("heap", "heldfree0", 0)
                        net = ("heap", "heldnet", 0)
                        for o in t.run_fn(fn, [P(B("tbl")), NULL if noaddr else sa, a, I(8, uns), I(8, sec), I(32, typ)]):
                            s = o.st
                            same = [False if noaddr else addr_same(t, s, addr_at(t, s, n, base), want) for n in nodes]
                            if o.val[0] == "P" and o.val[1] in nodes:
                                t.ob("gives the client that has the address", same[nodes.index(o.val[1])] is True)
                                t.check(o, nodes)
                                continue
                            t.ob("gives no two clients the same address", all(x is False for x in same), "a client may have the address already")
                            if not free:
                                t.ob("keeps to the configured number of clients", o.val[0] != "P", "returned %s" % (o.val,))
                                t.check(o, nodes)
                                continue
                            t.ob("creates a client while there is a free one", o.val == P(f0), "returned %s" % (o.val,))
                            if o.val != P(f0):
                                continue
                            t.check(o, nodes + [None])
                            t.ob("takes the client out of the pool", t.get(s, B("pool"), "ClientsPool", "_firstClient") == P(("heap", "heldfree1", 0)))
                            if not noaddr:
                                t.ob("a new client has the address", addr_same(t, s, addr_at(t, s, f0, base), want) is True)
                            q = t.get(s, f0, "Client", "_clientId")
                            ok = q[0] == "P"
                            if ok:
                                z = Interp(p).load(s, q[1], q[2] + (ZERO if s.facts.entails_eq(adr) else adr), 1, "i8")
                                ok = z[0] == "I" and s.facts.entails_eq(z[2]) and (s.facts.entails_eq(adr) or same_bytes(t.ip, s, q[1], q[2], d[1], ZERO, adr))
                            t.ob("a new client has the id", ok, "id at %s" % (q,))
                            t.ob("a new client is disconnected", s.facts.entails_eq(t.get(s, f0, "Client", "_status")[2] - p.enums["Cstat_Disconnected"]))
                            if ctype:
                                t.ob("a new client has the type", s.facts.entails_eq(t.get(s, f0, "Client", "_clientType")[2] - p.enums[ctype]), "type %s" % (t.get(s, f0, "Client", "_clientType")[2]))
                            t.ob("a new client's connection is secure if configured", same_int(s.facts, 8, t.get(s, net, "Network", "_secureFlg")[2], sec))
                            t.ob("a new client's line is as stated", same_int(s.facts, 8, t.get(s, f0, "Client", "_sensorNetype")[2], uns), "_sensorNetype is %s" % (t.get(s, f0, "Client", "_sensorNetype")[2],))
        if not k:
            # without a statement about line and security: a plain connection
            fn = over(t, "ClientList::createClient", "gi")
            for typ, ctype, noaddr in ((1, "Ctype_QoS_1", False), (2, "Ctype_Aggregated", True)):
                t, st, nodes, a, sa, d = world(True, False)
                want = addr_at(t, st, sa[1], ZERO)
                f0 = ("heap", "heldfree0", 0)
                for o in t.run_fn(fn, [P(B("tbl")), NULL if noaddr else sa, a, I(32, typ)]):
                    s = o.st
                    t.ob("creates a client while there is a free one", o.val == P(f0), "returned %s" % (o.val,))
                    if o.val != P(f0):
                        continue
                    t.ob("a new client has the address", noaddr or addr_same(t, s, addr_at(t, s, f0, base), want) is True)
                    t.ob("a new client has the type", s.facts.entails_eq(t.get(s, f0, "Client", "_clientType")[2] - p.enums[ctype]))
                    t.ob("a new client's connection is plain if not configured", s.facts.entails_eq(t.get(s, ("heap", "heldnet", 0), "Network", "_secureFlg")[2]))


FW = dict(first="_headClient", next="_next")


def C_fwd(r):
    p = prog("gw:udp")
    L = var(("sym", "arglen", 0, 255))
    for k, more in sizes(r):
        if more:
            continue

        def world():
            t = T(r, "Forwarder", "ForwarderElement", FW)
            mem_models(t)
            st = t.st
            cl = [heapbuf(st, "held%d" % i, p.types["Client"]["size"]) for i in range(k + 1)]

            def content(s, n, i):
                ln = var(("sym", "len%d" % i, 0, 255))
                q = named(s, "heldnb%d" % i, ln, False)
                w = ("heap", "heldwn%d" % i, 0)
                s.mem[w] = Content(("sym", 0))
                s.sizes[w] = Lin(p.types["WirelessNodeId"]["size"])
                t.put(s, w, "WirelessNodeId", "_nodeId", q)
                t.put(s, w, "WirelessNodeId", "_len", I(8, ln))
                t.put(s, n, t.node, "_wirelessNodeId", P(w))
                t.put(s, n, t.node, "_client", cl[i])
                t.names["n%d" % i] = (q[1], ZERO, ln)
            nodes = t.build(k, content)
            d = named(st, "argid", L, False)
            t.names["arg"] = (d[1], ZERO, L)
            a = buf(st, "arg", p.types["WirelessNodeId"]["size"])
            t.put(st, a[1], "WirelessNodeId", "_nodeId", d)
            t.put(st, a[1], "WirelessNodeId", "_len", I(8, L))
            return t, st, nodes, cl, a, d
        t, st, nodes, cl, a, d = world()
        eq = lambda s, i: bytes_equal(s, i, L)
        for o in t.run("Forwarder::getClient", [P(B("tbl")), a]):
            if o.val[0] == "P":
                i = cl.index(o.val) if o.val in cl[:k] else None
                t.ob("finds the client with that node id", i is not None and eq(o.st, i) is True, "returned %s" % (o.val,))
            else:
                t.ob("finds a client when there is one with the node id", all(eq(o.st, i) is False for i in range(k)), "returns none although a client may have the node id")
            t.check(o, nodes)
        for i in range(k + 1):
            t, st, nodes, cl, a, d = world()
            for o in t.run("Forwarder::getWirelessNodeId", [P(B("tbl")), cl[i]]):
                t.ob("knows the node id of its clients", o.val == P(("heap", "heldwn%d" % i, 0)) if i < k else o.val[0] == "N", "returned %s" % (o.val,))
                t.check(o, nodes)
            for o in t.run("Forwarder::eraseClient", [P(B("tbl")), cl[i]]):
                t.check(o, [n for j, n in enumerate(nodes) if j != i])
                t.ob("does not free the client", not o.st.ghost.get(("freed", cl[i][1])))
                if i < k:
                    t.ob("frees the node id of a client it forgets", o.st.ghost.get(("freed", ("heap", "heldwn%d" % i, 0))) and o.st.ghost.get(("freed", t.names["n%d" % i][0])))
            for o in t.run("Forwarder::addClient", [P(B("tbl")), cl[i], a]):
                s = o.st
                new = t.check(o, nodes + ([None] if i == k else []))
                if new is None:
                    continue
                t.ob("the client knows its forwarder", t.get(s, cl[i][1], "Client", "_forwarder") == P(B("tbl")))
                n = new[0] if new else nodes[i]
                t.ob("keeps the client", t.get(s, n, t.node, "_client") == cl[i])
                w = t.get(s, n, t.node, "_wirelessNodeId")
                ok = w[0] == "P"
                if ok:
                    q, ln = t.get(s, w[1], "WirelessNodeId", "_nodeId"), t.get(s, w[1], "WirelessNodeId", "_len")[2]
                    ok = same_int(s.facts, 8, ln, L) and q[0] == "P" and q[1] != d[1] and (s.facts.entails_eq(L) or same_bytes(t.ip, s, q[1], q[2], d[1], ZERO, L))
                t.ob("keeps a copy of the node id", ok, "node id at %s" % (w,))
                if ok and i < k:
                    b = t.names["n%d" % i][0]
                    t.ob("frees the node id it replaces", (q[1] == b or s.ghost.get(("freed", b))) and (w == P(("heap", "heldwn%d" % i, 0)) or s.ghost.get(("freed", ("heap", "heldwn%d" % i, 0)))))
                for j in range(k):
                    if j != i:
                        t.ob("leaves the other clients alone", t.get(s, nodes[j], t.node, "_client") == cl[j] and t.get(s, nodes[j], t.node, "_wirelessNodeId") == P(("heap", "heldwn%d" % j, 0)))
        t = T(r, "ForwarderList", "Forwarder", dict(first="_head", next="_next"))
        st = t.st
        nodes = t.build(k)
        sa = buf(st, "sa", p.types["SensorNetAddress"]["size"])
        base = Lin(p.off("Forwarder", "_sensorNetAddr"))
        want = addr_at(t, st, sa[1], ZERO)
        for o in t.run("ForwarderList::getForwarder", [P(B("tbl")), sa]):
            same = [addr_same(t, o.st, addr_at(t, o.st, n, base), want) for n in nodes]
            if o.val[0] == "P":
                t.ob("finds the forwarder with that address", o.val[1] in nodes and same[nodes.index(o.val[1])] is True, "returned %s" % (o.val,))
            else:
                t.ob("finds a forwarder when there is one with the address", all(x is False for x in same))
            t.check(o, nodes)
        if k < 3:
            nm = buf(st, "argname", p.types["MQTTSNString"]["size"])
            text = named(st, "argtext", L, True)
            t.put(st, nm[1], "MQTTSNString", "cstring", text)
            for o in t.run("ForwarderList::addForwarder", [P(B("tbl")), sa, nm]):
                new = t.check(o, nodes + [None])
                if not new:
                    continue
                t.ob("gives the new forwarder", o.val == P(new[0]), "returned %s" % (o.val,))
                t.ob("a new forwarder has the address", addr_same(t, o.st, addr_at(t, o.st, new[0], base), want) is True)
                t.ob("a new forwarder has no clients", t.get(o.st, new[0], "Forwarder", "_headClient") == NULL)


CONTRACTS = dict(idmap=C_idmap, regack=C_regack, pque=C_pque, eque=C_eque, topics=C_topics, clients=C_clients, fwd=C_fwd)
