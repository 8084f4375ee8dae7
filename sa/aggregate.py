"""Rules A*: the gateway that aggregates its clients to one session with the broker."""
import itertools
import build
import tables
from gw import *
from oracle import *
from handlers import *
import handlers as H


# ------------------------------------------------------------------ the clients' connections
def stored_first(o, e, c):
    if c.W.stored:
        reposts(o, e, c)


def connect(r, case):
    form, stored, will, clean, types = case

    def prep(W, st, c):
        ip = Interp(W.p)
        size = W.p.types["Topic"]["size"]
        prev = (B("clientTopics"), W.off("Topics", "_first"))
        c.topics = []
        for i, t in enumerate(types):
            n = heapbuf(st, "topic%d" % i, size)
            st.ghost[("held", n[1])] = True
            so, nd, ln = heapbuf(st, "heldstr%d" % i), heapbuf(st, "heldname%d" % i), var(("sym", "len%d" % i, 0, 65535))
            st.sizes[nd[1]] = ln + 1
            ip.store(st, so[1], ZERO, 8, nd)
            ip.store(st, so[1], Lin(8), 8, I(64, ln))
            st.ghost[("strof", nd[1])] = (so[1], ZERO)
            ip.store(st, n[1], W.off("Topic", "_topicName"), 8, so)
            ip.store(st, n[1], W.off("Topic", "_type"), 4, I(32, t))
            ip.store(st, prev[0], prev[1], 8, n)
            prev = (n[1], W.off("Topic", "_next"))
            c.topics.append((t, ("utf", nd[1], ZERO, ln)))
        ip.store(st, prev[0], prev[1], 8, NULL)
    c = sn_case(r, SN["CONNECT"], form, flags=flagbyte(will=will, clean=clean), stored=stored, prep=prep)

    def spec(o):
        e = Exp()
        N, ll, b = c.N, c.ll, c.b
        if not o.ge(N - ll - 5) or not o.eq(o.byte(b, ll + 2), 1):
            o.label("malformed")
            e.ignore |= {"status", "keepAlive"}
            return e
        s = status(o, c)
        o.label(STN[s])
        if s in (ASLEEP, AWAKE):
            e.client(SN["CONNACK"], N1(0))
            stored_first(o, e, c)
            e.final["status"] = Lin(ACTIVE)
            return e
        e.final["session"] = Lin(clean)
        e.ignore.add("keepAlive")
        if clean:
            for w in ("_waitedPubTopicIdMap", "_waitedSubTopicIdMap"):
                e.mut("idmapClear", "%s emptied" % w, lambda o, x, w=w: None if x[1] == (B("client"), w) else "%s emptied" % (x[1],))
            e.mut("topicsEraseNormal", "registered topics dropped", lambda o, x: None if x[1] == B("clientTopics") else "of another table")
            for t, nm in c.topics:
                if t == 0:
                    e.mut("aggrTopicErase", "the client gets no more messages of its earlier session", lambda o, x, nm=nm: filter_is(o, x, nm))
        if will:
            e.client(SN["WILLTOPICREQ"])
            e.final["status"], e.final["waitWill"] = Lin(DISC), Lin(1)
        else:
            e.client(SN["CONNACK"], N1(0))
            stored_first(o, e, c)
            e.final["status"], e.final["waitWill"] = Lin(ACTIVE), ZERO
        return e
    check(r, "CONNECT/%s of an aggregated client will=%d clean=%d stored=%d" % (form, will, clean, stored), c.W, c.outs, c.init, spec, where=c.where)


def willtopic(r, case):
    form, = case
    c = sn_case(r, SN["WILLTOPIC"], form)

    def spec(o):
        e = Exp()
        if not o.eq(c.init["waitWill"], 1):
            o.label("no will expected")
            return e
        if o.eq(c.N - c.ll - 1):
            raise DontCare()
        o.label("will expected")
        e.client(SN["WILLMSGREQ"])
        return e
    check(r, "WILLTOPIC/%s of an aggregated client" % form, c.W, c.outs, c.init, spec, where=c.where)


def willmsg(r, case):
    form, stored = case
    c = sn_case(r, SN["WILLMSG"], form, stored=stored)

    def spec(o):
        e = Exp()
        if not o.eq(c.init["waitWill"], 1):
            o.label("no will expected")
            return e
        s = status(o, c)
        o.label(STN[s])
        if s != DISC:
            raise DontCare()
        e.client(SN["CONNACK"], N1(0))
        stored_first(o, e, c)
        e.final["status"], e.final["waitWill"] = Lin(ACTIVE), ZERO
        return e
    check(r, "WILLMSG/%s of an aggregated client stored=%d" % (form, stored), c.W, c.outs, c.init, spec, where=c.where)


def disconnect(r, case):
    form, = case
    c = sn_case(r, SN["DISCONNECT"], form)

    def spec(o):
        e = Exp()
        N, ll, b = c.N, c.ll, c.b
        if o.eq(N - ll - 1):
            dur = False
        elif o.eq(N - ll - 3):
            dur = not o.eq(o.word(b, ll + 1))
        else:
            o.label("malformed")
            return e
        s = status(o, c)
        o.label(STN[s])
        e.client(SN["DISCONNECT"])
        if s in (ACTIVE, ASLEEP, AWAKE):
            e.final["status"] = Lin(ASLEEP if dur else DISC)
            if not dur:
                e.final["waitWill"] = ZERO
        else:
            e.ignore |= {"status", "waitWill"}
        return e
    check(r, "DISCONNECT/%s of an aggregated client" % form, c.W, c.outs, c.init, spec, where=c.where)


def pingreq(r, case):
    form, stored = case
    c = sn_case(r, SN["PINGREQ"], form, stored=stored)

    def spec(o):
        e = Exp()
        s = restart(o, e, c)
        if s in (ASLEEP, AWAKE):
            stored_first(o, e, c)
            e.final["status"] = Lin(AWAKE)
        e.final["hold"] = ZERO
        # the answer follows the messages through the packet queue
        e.posts.append(("packetEventQue", "EtBrokerRecv", B("client"), ("gw", MQ["PINGRESP"], ZERO, ())))
        return e
    check(r, "PINGREQ/%s of an aggregated client stored=%d" % (form, stored), c.W, c.outs, c.init, spec, where=c.where)


# ------------------------------------------------------------------ acknowledgements of the clients
def sn_ack(r, case):
    form, name = case
    c = sn_case(r, SN[name], form)

    def spec(o):
        e = Exp()
        N, ll, b = c.N, c.ll, c.b
        restart(o, e, c)
        if name in ("PUBACK", "PUBCOMP"):
            # the broker has its acknowledgement since the message was distributed
            return e
        if not o.ge(N - ll - 3):
            o.label("malformed")
            e.checks = []
            return e
        m = o.word(b, ll + 1)
        if name == "PUBREC":
            e.client(SN["PUBREL"], N2(m))
            return e
        got = [x for x in o.events("aggrGet") if x[1] == P(B("client")) and same_int(o.st.facts, 16, x[2][2], m)]
        v = got[-1][3][2] if got else None if o.unknown() else var(("sym", o.st.fresh("aggrGot"), 1, 65535))
        if v is None or o.eq(v):
            o.label("already completed")
            e.client(SN["PUBCOMP"], N2(m))
        else:
            e.broker(MQ["PUBREL"], 2, N2(v))
        return e
    check(r, "%s/%s of an aggregated client" % (name, form), c.W, c.outs, c.init, spec, where=c.where)


# ------------------------------------------------------------------ a message for all that have subscribed
def distribute(r, case):
    """shape: for each topic filter of the table, how many clients have subscribed to it"""
    qos, shape = case
    W = World(aggr=True)
    W.check_models()

    def ismatch(ip, st, a, ins, fr):
        d = (str_data(ip, st, a[1]), str_len(ip, st, a[1])) if a[1][0] == "P" else ()
        mem = snap(st, ip, d[0]) if d else ()
        k = ("match", a[0], d, mem)
        if k in st.ghost:
            return [(st, I(1, int(st.ghost[k])))]
        s0 = st.copy()
        s0.ghost[k], st.ghost[k] = False, True
        s0.event("isMatch", a[0], d, mem, False)
        st.event("isMatch", a[0], d, mem, True)
        return [(st, I(1, 1)), (s0, I(1, 0))]
    W.models["Topic::isMatch"] = ismatch
    plain = W.interp

    def interp(monitor=None):
        ip = plain(monitor)
        ip.unroll = 8
        ip.unroll_in = lambda fn: "ggregate" in fn.key
        return ip
    W.interp = interp
    dup, retain = var(("sym", "hdr.dup", 0, 1)), var(("sym", "hdr.retain", 0, 1))

    def prep(W, st, c):
        ip = Interp(W.p)
        off = W.off

        def node(name, typ):
            n = heapbuf(st, name, W.p.types[typ]["size"])
            st.ghost[("held", n[1])] = True
            return n

        def chain(nodes, typ, head, tail):
            for i, n in enumerate(nodes):
                ip.store(st, n[1], off(typ, "_next"), 8, nodes[i + 1] if i + 1 < len(nodes) else NULL)
                ip.store(st, n[1], off(typ, "_prev"), 8, nodes[i - 1] if i else NULL)
            ip.store(st, head[0], head[1], 8, nodes[0] if nodes else NULL)
            ip.store(st, tail[0], tail[1], 8, nodes[-1] if nodes else NULL)
        els, c.subs = [], []
        for i, k in enumerate(shape):
            el, tp = node("filter%d" % i, "AggregateTopicElement"), node("topic%d" % i, "Topic")
            ip.store(st, el[1], off("AggregateTopicElement", "_topic"), 8, tp)
            cls = []
            for j in range(k):
                n = node("sub%d.%d" % (i, j), "ClientTopicElement")
                ip.store(st, n[1], off("ClientTopicElement", "_client"), 8, buf(st, "dev%d.%d" % (i, j)))
                cls.append(n)
            chain(cls, "ClientTopicElement", (el[1], off("AggregateTopicElement", "_head")), (el[1], off("AggregateTopicElement", "_tail")))
            els.append(el)
            c.subs.append((tp, [B("dev%d.%d" % (i, j)) for j in range(k)]))
        chain(els, "AggregateTopicElement", (B("aggr"), off("Aggregater", "_topicTable._head")), (B("aggr"), off("Aggregater", "_topicTable._tail")))
    c = gw_case(r, MQ["PUBLISH"], flags=dup.scale(8) + 2 * qos + retain, prep=prep, W=W)

    def spec(o):
        e = Exp()
        N, d = c.N, c.d
        if qos == 3 or not o.ge(N - 2):
            o.label("malformed")
            return e
        n = o.word(d, 0)
        if not o.ge(N - n - (4 if qos else 2)):
            o.label("malformed")
            return e
        if o.eq(n):
            raise DontCare()

        def named(x):
            st = o.st.copy()
            st.mem.update(dict(x[3]))
            q = x[2]
            return q and q[0][0] == "P" and q[1][0] == "I" and st.facts.entails_eq(q[1][2] - n) and same_bytes(o.ip, st, q[0][1], q[0][2], d, Lin(2), n)
        for i, (tp, devs) in enumerate(c.subs):
            got = [x for x in o.events("isMatch") if x[1] == tp and named(x)]
            if got[-1][4] if got else o.unknown():
                o.label("filter %d matches" % i)
                for v in devs:
                    e.posts.append(("packetEventQue", "EtBrokerRecv", v, ("raw", dup.scale(8) + 2 * qos + retain + 16 * MQ["PUBLISH"], N, d, ZERO)))
        if qos:
            e.broker(MQ["PUBACK"] if qos == 1 else MQ["PUBREC"], 0, N2(o.word(d, n + 2)))
        return e
    check(r, "PUBLISH qos=%d from the broker for the subscribers of %s" % (qos, list(shape)), W, c.outs, c.init, spec, where=c.where)


# ------------------------------------------------------------------ the tables
IDS = dict(first="_head", end="_tail", next="_next", prev="_prev", cnt="_cnt")
LIST = dict(first="_head", end="_tail", next="_next", prev="_prev")


def C_ids(r):
    for k, more in tables.sizes(r):
        for whose in itertools.product((0, 1), repeat=k):
            ids(r, k, more, whose)


def ids(r, k, more, whose):
    """the table of message ids; entry i belongs to client whose[i]"""
    cl = [P(B("clientA")), P(B("clientB"))]
    t = tables.T(r, "MessageIdTable", "MessageIdElement", IDS)
    st = t.st
    for v in cl + [P(B("aggregater"))]:
        buf(st, v[1][1])
    nodes = t.build(k, lambda s, n, i: t.put(s, n, t.node, "_client", cl[whose[i]]), more)
    bid = lambda s, n: t.get(s, n, t.node, "_msgId")[2]
    cid = lambda s, n: t.get(s, n, t.node, "_clientMsgId")[2]
    for i in range(k):
        st.facts = st.facts.add_ge(bid(st, nodes[i]) - 1)
        for j in range(i):
            st.facts = st.facts.add_ne(bid(st, nodes[i]) - bid(st, nodes[j]))
            if whose[i] == whose[j]:
                st.facts = st.facts.add_ne(cid(st, nodes[i]) - cid(st, nodes[j]))
    mx = t.get(st, B("tbl"), t.cls, "_maxSize")[2]
    st.facts = st.facts.add_ge(mx - 10).add_ge(const(20000) - mx)
    out = buf(st, "out", 2)
    m = var(("sym", "m", 0, 65535))
    M = I(16, m)

    def newid(ip, s, a, ins, fr):
        v = sym(s.fresh("newId"), 16)
        s.facts = s.facts.add_ge(v[2] - 1)
        if len([x for x in s.trace if x[0] == "newid"]) > 1:
            # there are more ids than entries: one that is not in use comes sooner or later
            for n in nodes:
                s.facts = s.facts.add_ne(v[2] - bid(s, n))
        s.event("newid", v[2])
        return [(s, v)]
    t.models["Aggregater::msgId"] = newid
    nargs = len(t.p.fn("MessageIdTable::getClientMsgId").args)
    for kp in (0, 1) if nargs > 3 else (0,):
        for o in t.run("MessageIdTable::getClientMsgId", [P(B("tbl")), M, out] + [I(1, kp)] * (nargs - 3), tag=" keep=%d" % kp):
            f = o.st.facts
            got = Interp(t.p).load(o.st, out[1], ZERO, 2, "i16")[2]
            hit = [i for i in range(k) if same_int(f, 16, bid(o.st, nodes[i]), m)] if o.val[0] == "P" and o.val[1] in (cl[0][1], cl[1][1]) else []
            live = [n for n in nodes]
            if o.val[0] == "P":
                i = hit[0] if hit else None
                t.ob("gives the client of that message", i is not None and o.val == cl[whose[i]], "returned %s" % (o.val,))
                t.ob("gives the client's own message id", i is not None and same_int(f, 16, got, cid(st, nodes[i])), "message id %s" % got)
                t.check(o, nodes if kp or i is None else nodes[:i] + nodes[i + 1:])
            else:
                t.ob("knows the client of every entry", all(tables.differ(f, bid(st, n), m) for n in nodes), "finds none although an entry may match")
                t.check(o, nodes)
    for key in ("MessageIdTable::erase",) if t.p.bykey.get("MessageIdTable::erase") else ():
        for o in t.run(key, [P(B("tbl")), M]):
            w = [n for n in nodes if not same_int(o.st.facts, 16, bid(st, n), m)]
            t.ob("looks at every entry", all(tables.differ(o.st.facts, bid(st, n), m) for n in w), "an entry that may have the message id is left")
            t.check(o, w)
    mine = [i for i in range(k) if whose[i] == 0]
    for o in t.run("MessageIdTable::getMsgId", [P(B("tbl")), cl[0], M]):
        f = o.st.facts
        v = tables.ival(o.val)
        i = [i for i in mine if same_int(f, 16, cid(st, nodes[i]), m)]
        if i:
            t.ob("gives the id the broker knows the client's message by", same_int(f, 16, v, bid(st, nodes[i[0]])), "gives %s" % v)
        else:
            t.ob("gives 0 for an unknown message", f.entails_eq(v) and all(tables.differ(f, cid(st, nodes[i]), m) for i in mine), "gives %s" % v)
        t.check(o, nodes)
    na = len(t.p.fn("MessageIdTable::add").args)
    for o in t.run("MessageIdTable::add", [P(B("tbl")), P(B("aggregater")), cl[0], M][-na if na < 4 else 0:]):
        f = o.st.facts
        again = [nodes[i] for i in mine if same_int(f, 16, cid(st, nodes[i]), m)]
        if o.val[0] != "P":
            t.ob("accepts a message while there is room", f.entails(t.n - mx), "refuses entry %d with room for %s" % (k + 1, mx))
            t.check(o, nodes)
            continue
        if again:
            t.ob("a message id in use keeps the id the broker knows", o.val == P(again[0]), "returned %s" % (o.val,))
            t.check(o, nodes)
            continue
        t.ob("has one entry for each message of a client", all(tables.differ(f, cid(st, nodes[i]), m) for i in mine) or k == 0, "an entry of the client may have the message id")
        new = t.check(o, nodes + [None])
        if new:
            n = new[0]
            t.ob("returns the new entry", o.val[1] == n)
            t.ob("keeps the client", t.get(o.st, n, t.node, "_client") == cl[0], "%s" % (t.get(o.st, n, t.node, "_client"),))
            t.ob("keeps the client's message id", same_int(f, 16, cid(o.st, n), m), "%s" % cid(o.st, n))
            ev = [x for x in o.st.trace if x[0] == "newid"]
            t.ob("takes a new message id", bool(ev) and same_int(f, 16, bid(o.st, n), ev[-1][1]), "%s of %s" % (bid(o.st, n), ev))
            t.ob("takes a message id that no other message has", all(tables.differ(f, bid(o.st, n), bid(st, x)) for x in nodes), "an older entry may have the same id")


def held(t, s, name):
    """a string object that belongs to a topic"""
    so, nd = ("heap", "heldstr:" + name, 0), ("heap", "heldname:" + name, 0)
    ln = var(("sym", "len:" + name, 0, 65535))
    s.mem[so], s.mem[nd] = Content(("sym", 0)), Content(("sym", 0))
    s.sizes[nd] = ln + 1
    ip = Interp(t.p)
    ip.store(s, so, ZERO, 8, P(nd))
    ip.store(s, so, Lin(8), 8, I(64, ln))
    ip.store(s, nd, ln, 1, I(8, 0))
    s.ghost[("strof", nd)] = (so, ZERO)
    s.ghost[("strof", nd)] = (so, ZERO)
    t.names[name] = (nd, ZERO, ln)
    return P(so), P(nd), ln


def C_subscribers(r):
    """the clients of one topic filter"""
    for k, _ in [x for x in tables.sizes(r) if not x[1]]:
        for at in [None] + list(range(k)):
            t = tables.T(r, "AggregateTopicElement", "ClientTopicElement", LIST)
            st = t.st
            cl = P(B("client"))
            buf(st, "client")
            for i in range(k):
                buf(st, "other%d" % i)
            nodes = t.build(k, lambda s, n, i: t.put(s, n, t.node, "_client", cl if i == at else P(B("other%d" % i))))
            for o in t.run("AggregateTopicElement::add", [P(B("tbl")), cl]):
                if at is not None:
                    t.check(o, nodes)
                else:
                    new = t.check(o, nodes + [None])
                    if new:
                        t.ob("adds the client", t.get(o.st, new[0], t.node, "_client") == cl, "%s" % (t.get(o.st, new[0], t.node, "_client"),))
            for o in t.run("AggregateTopicElement::eraseClient", [P(B("tbl")), cl]):
                t.check(o, [n for i, n in enumerate(nodes) if i != at])
            for o in t.run("AggregateTopicElement::find", [P(B("tbl")), cl]):
                t.ob("finds the client", o.val == (NULL if at is None else P(nodes[at])), "returned %s" % (o.val,))
                t.check(o, nodes)


def filters(r, k, subs):
    """the table of topic filters; subs[i]: the clients of filter i (0: the one in question)"""
    t = tables.T(r, "AggregateTopicTable", "AggregateTopicElement", LIST)
    tables.str_models(t)
    st = t.st
    buf(st, "client")
    cl = P(B("client"))
    t.sub = {}

    def content(s, n, i):
        tp = ("heap", "heldtopic%d" % i, 0)
        s.mem[tp] = Content(("sym", 0))
        s.sizes[tp] = Lin(t.p.types["Topic"]["size"])
        so, nd, ln = held(t, s, "n%d" % i)
        t.put(s, tp, "Topic", "_topicName", so)
        t.put(s, n, t.node, "_topic", P(tp))
        prev = None
        for j, w in enumerate(subs[i]):
            c = ("heap", "heldsub%d.%d" % (i, j), 0)
            s.mem[c] = Content(("sym", 0))
            s.sizes[c] = Lin(t.p.types["ClientTopicElement"]["size"])
            buf(s, "dev%d" % w)
            t.put(s, c, "ClientTopicElement", "_client", cl if w == 0 else P(B("dev%d" % w)))
            t.put(s, c, "ClientTopicElement", "_prev", P(prev) if prev else NULL)
            t.put(s, c, "ClientTopicElement", "_next", NULL)
            if prev:
                t.put(s, prev, "ClientTopicElement", "_next", P(c))
            else:
                t.put(s, n, t.node, "_head", P(c))
            prev = c
        t.put(s, n, t.node, "_tail", P(prev))
    nodes = t.build(k, content)
    arg = buf(st, "arg", t.p.types["Topic"]["size"])
    so, nd, ln = held(t, st, "arg")
    t.put(st, arg[1], "Topic", "_topicName", so)
    t.put(st, arg[1], "Topic", "_type", I(32, 0))
    return t, nodes, arg, cl, (nd, ln)


def clients_of(t, s, n):
    """[clients] of a filter, or None if its list is not consistent"""
    out, prev = [], None
    cur = t.get(s, n, t.node, "_head")
    while cur[0] == "P" and len(out) < 9:
        b = t.get(s, cur[1], "ClientTopicElement", "_prev")
        if (b[1] if b[0] == "P" else None) != prev or s.ghost.get(("freed", cur[1])):
            return None
        out.append(t.get(s, cur[1], "ClientTopicElement", "_client"))
        prev = cur[1]
        cur = t.get(s, cur[1], "ClientTopicElement", "_next")
    e = t.get(s, n, t.node, "_tail")
    if cur[0] != "N" or (e[1] if e[0] == "P" else None) != prev:
        return None
    return out


def named(s, i):
    v = s.ghost.get(("streq", frozenset(("n%d" % i, "arg"))))
    if v is None and s.facts.entails_ne(var(("sym", "len:n%d" % i, 0, 65535)) - var(("sym", "len:arg", 0, 65535))):
        return False
    return v


def C_filters(r):
    who = lambda l, cl: [cl if w == 0 else P(B("dev%d" % w)) for w in l]
    for k in range(4):
        for subs in itertools.product(((0,), (1,), (0, 2), (2, 0)), repeat=k):
            if k > 1 and len([x for x in subs[1:] if x in ((0, 2), (2, 0))]) or k > 2 and r.tier == "quick" and 1 in subs[0]:
                continue
            t, nodes, arg, cl, (nd, ln) = filters(r, k, subs)
            st = t.st

            def rest(o, but=None):
                for i, n in enumerate(nodes):
                    if i != but and not o.st.ghost.get(("freed", n)):
                        t.ob("leaves the clients of the other filters", clients_of(t, o.st, n) == who(subs[i], cl), "filter %d has the clients %s" % (i, clients_of(t, o.st, n)))

            def hit_of(o):
                hit = [i for i in range(k) if named(o.st, i) is True]
                return hit[0] if hit else None

            def gone(o, i):
                """nothing of the removed filter stays allocated"""
                for x in [("heap", "heldtopic%d" % i, 0)] + [("heap", "held%s:n%d" % (p, i), 0) for p in ("str",)] + [("heap", "heldsub%d.%d" % (i, j), 0) for j in range(len(subs[i]))]:
                    t.ob("frees what belongs to a removed filter", bool(o.st.ghost.get(("freed", x))), "%s stays" % obj_short(x))
            for o in t.run("AggregateTopicTable::find", [P(B("tbl")), arg]):
                i = hit_of(o)
                t.ob("finds the filter of that name", o.val == (NULL if i is None else P(nodes[i])) and (i is not None or all(named(o.st, j) is False for j in range(k))), "returned %s" % (o.val,))
                t.check(o, nodes)
            for o in t.run("AggregateTopicTable::add", [P(B("tbl")), arg, cl]):
                i = hit_of(o)
                if i is not None:
                    t.check(o, nodes)
                    w = who(subs[i], cl)
                    got = clients_of(t, o.st, nodes[i])
                    t.ob("the filter has the client once", got is not None and got == (w if cl in w else w + [cl]), "clients %s" % (got,))
                else:
                    t.ob("compares with every filter", all(named(o.st, j) is False for j in range(k)), "a filter that may have the name is not looked at")
                    new = t.check(o, nodes + [None])
                    if new:
                        n = new[0]
                        t.ob("a new filter has the client", clients_of(t, o.st, n) == [cl], "clients %s" % (clients_of(t, o.st, n),))
                        tp = t.get(o.st, n, t.node, "_topic")
                        S = t.get(o.st, tp[1], "Topic", "_topicName") if tp[0] == "P" else NULL
                        ok = S[0] == "P" and tp != arg
                        if ok:
                            q, q2 = str_data(t.ip, o.st, S), str_len(t.ip, o.st, S)
                            ok = q[1] != nd[1] and o.st.facts.entails_eq(q2[2] - ln) and same_bytes(t.ip, o.st, q[1], q[2], nd[1], ZERO, ln)
                        t.ob("keeps a copy of the name", ok, "the new filter's name is %s" % (S,))
                rest(o, i)
            for o in t.run("AggregateTopicTable::erase", [P(B("tbl")), arg, cl], nargs=3):
                i = hit_of(o)
                if i is None:
                    t.ob("compares with every filter", all(named(o.st, j) is False for j in range(k)), "a filter that may have the name is not looked at")
                    t.check(o, nodes)
                else:
                    w = [x for x in who(subs[i], cl) if x != cl]
                    t.check(o, nodes if w else nodes[:i] + nodes[i + 1:])
                    if w:
                        t.ob("the filter keeps its other clients", clients_of(t, o.st, nodes[i]) == w, "clients %s" % (clients_of(t, o.st, nodes[i]),))
                    else:
                        gone(o, i)
                rest(o, i)


OWN_CASES = {
    "connect": lambda t: [(f, s, w, cl, ty) for f in FORMS for s in ((0, 2) if t == "quick" else (0, 1, 2, 3)) for w in (0, 1) for cl in (0, 1)
                          for ty in ([(), (0,), (1, 0), (0, 1, 0)] if cl and s == 0 else [()])],
    "willtopic": lambda t: [(f,) for f in FORMS],
    "willmsg": lambda t: [(f, s) for f in FORMS for s in (0, 2)],
    "disconnect": lambda t: [(f,) for f in FORMS],
    "pingreq": lambda t: [(f, s) for f in FORMS for s in ((0, 2) if t == "quick" else (0, 1, 2, 3))],
    "sn_ack": lambda t: [(f, n) for f in FORMS for n in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP")],
    "distribute": lambda t: [(q, s) for q in (0, 1, 2, 3) for s in ([(), (1,), (2,), (1, 1), (2, 1)] if t == "quick" else [(), (1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (3,)])],
    "table": lambda t: [(n,) for n in CONTRACTS],
}
# what is as for other clients, but for the message ids
SHARED = ("sn_publish", "subscribe", "register", "willupd", "others", "gw_puback", "gw_ack", "suback", "unsuback", "connack", "pingresp", "gw_publish", "gw_others")
CONTRACTS = dict(ids=C_ids, subscribers=C_subscribers, filters=C_filters)


def table(r, case):
    CONTRACTS[case[0]](r)


def cases(tier):
    out = [(n,) + tuple(k) for n in OWN_CASES for k in OWN_CASES[n](tier)]
    return out + [(n, d) + tuple(k) for n in SHARED for k in CASES[n](tier) for d in ((0, 1) if n in ("sn_publish", "subscribe") else (None,))]


def one(q, k):
    q.aggr = True
    q.case_name = "aggregated " + " ".join(str(x) for x in k)
    if k[0] in OWN_CASES:
        globals()[k[0]](q, k[1:])
    else:
        q.dup = k[1]
        getattr(H, k[0])(q, k[2:])


def A01(r):
    r.rule("aggregated clients get the acknowledgements of their own messages, under their own message ids, and each message of the broker once for each of their subscriptions that it matches; it is acknowledged to the broker once")
    prog("gw:udp")
    pmap(r, cases(r.tier), one)
    r.floor("packets compared", r.counts.get("packets_compared", 0), 100)
    r.floor("table operations", r.counts.get("table_paths", 0), 100)


import tasks


def mem_cases(tier):
    """every handler once; how many messages are stored and which clients share a filter does not matter"""
    return [k for k in cases(tier)]


def M01(r):
    tasks.M01(r)
    n = r.counts.get("accesses", 0)
    pmap(r, mem_cases(r.tier), one)
    r.floor("accesses for aggregated clients", r.counts.get("accesses", 0) - n, 1000)


def O01(r):
    tasks.O01(r)
    n = r.counts.get("paths", 0)
    pmap(r, mem_cases(r.tier), one)
    r.floor("paths for aggregated clients", r.counts.get("paths", 0) - n, 100)


REG = {"A01": A01, "M01": M01, "O01": O01}
