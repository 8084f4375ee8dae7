"""Rules H*: what the gateway does with each message of a client or of the broker."""
import build
import tables
from gw import *
from oracle import *

SN = dict(ADVERTISE=0x00, SEARCHGW=0x01, GWINFO=0x02, CONNECT=0x04, CONNACK=0x05, WILLTOPICREQ=0x06, WILLTOPIC=0x07, WILLMSGREQ=0x08,
          WILLMSG=0x09, REGISTER=0x0A, REGACK=0x0B, PUBLISH=0x0C, PUBACK=0x0D, PUBCOMP=0x0E, PUBREC=0x0F, PUBREL=0x10, SUBSCRIBE=0x12,
          SUBACK=0x13, UNSUBSCRIBE=0x14, UNSUBACK=0x15, PINGREQ=0x16, PINGRESP=0x17, DISCONNECT=0x18, WILLTOPICUPD=0x1A,
          WILLTOPICRESP=0x1B, WILLMSGUPD=0x1C, WILLMSGRESP=0x1D)
MQ = dict(CONNECT=1, CONNACK=2, PUBLISH=3, PUBACK=4, PUBREC=5, PUBREL=6, PUBCOMP=7, SUBSCRIBE=8, SUBACK=9, UNSUBSCRIBE=10, UNSUBACK=11,
          PINGREQ=12, PINGRESP=13, DISCONNECT=14)
FREE_, DISC, TRYC, CONN, ACTIVE, ASLEEP, AWAKE, LOST = range(8)
STN = ["free", "disconnected", "try connecting", "connecting", "active", "asleep", "awake", "lost"]
QOSF = {0: 0, 1: 2, 2: 4}


class Ctx:
    pass


_worlds = {}


def world(stored=0, aggr=False, qosm1=None):
    k = (stored, aggr, qosm1)
    if k not in _worlds:
        W = World(stored=stored, aggr=aggr, qosm1=qosm1)
        W.check_models()
        _worlds[k] = W
    return _worlds[k]


def flagbyte(**k):
    """an MQTT-SN flags byte: given fields as constants, the others symbolic bits"""
    L = ZERO
    for name, (sh, w) in (("dup", (7, 1)), ("qos", (5, 2)), ("retain", (4, 1)), ("will", (3, 1)), ("clean", (2, 1)), ("topic", (0, 2))):
        v = k.get(name)
        if v is None:
            v = var(("sym", "flag." + name, 0, (1 << w) - 1))
        else:
            v = Lin(v)
        L = L + v.scale(1 << sh)
    return L


def FLAG(name):
    return var(("sym", "flag." + name, 0, 1))


def DUP(r):
    return FLAG("dup") if getattr(r, "dup", None) is None else Lin(r.dup)


def run_case(r, W, st, ev, monitor=None):
    W.the_event = ev
    if r.prop in ("M01", "O01", "ALL") and monitor is None:
        monitor = Monitor(r, r.case_name)
        if r.prop == "O01":
            monitor.on_access = lambda *a: None
    init = {c: initial(W, st, c) for c in ("client", "client2")}
    owned = {f: W.get(st, "client", "Client", f) for f in ("_willTopic", "_willMsg")}
    ip = W.interp(monitor)
    ip.no_nul = monitor is None or r.prop == "ALL"
    fn = W.p.fn("PacketHandleTask::run")
    outs = ip.run(fn, [P(B("task"))], st)
    r.used(ip)
    r.count("paths", len(outs))
    if r.prop == "M01":
        r.count("accesses", monitor.n)
    if r.prop in ("O01", "ALL"):
        for o in outs:
            lk = leaked(ip, o.st)
            names = sorted(set(str(x[1]).split("@")[0] for x in lk))
            r.ob("%s: nothing is left without an owner" % r.case_name, not lk, "lost: %s" % [obj_short(x) for x in lk], loc(fn))
            for f, old in owned.items():
                new = W.get(o.st, "client", "Client", f)
                if old[0] == "P" and o.st.null.get(old[1]) is not True:
                    r.ob("%s: the client's %s is freed when it is replaced" % (r.case_name, f), new == old or bool(o.st.ghost.get(("freed", old[1]))), "the old one is lost", loc(fn))
            for n in names:
                r.ob("memory allocated in %s is freed or handed on" % n, False, "lost while handling %s" % r.case_name, loc(fn))
    return outs, init, loc(fn)


def transparent(W, st, c="client"):
    C = W.get(st, c, "Client", "_clientType")[2]
    W.fact(st, const(W.CT["Ctype_Forwarded"]) - C, "ge")


def sn_case(r, mtype, form, flags=None, stored=0, prep=None, aggr=None, monitor=None):
    """aggr: the gateway aggregates its clients (default: as the report says)"""
    aggr = getattr(r, "aggr", False) if aggr is None else aggr
    W = world(stored=stored, aggr=aggr)
    st = W.state()
    c = Ctx()
    c.aggr, c.r = aggr, r
    c.pk, c.b, c.N, c.ll = W.sn_packet(st, mtype, form, flags=flags)
    c.b = c.b[1]
    c.W = W
    if not aggr:
        transparent(W, st)
    else:
        C = W.get(st, "client", "Client", "_clientType")[2]
        W.fact(st, C - W.CT["Ctype_Aggregated"])
    if prep:
        prep(W, st, c)
    ev = W.event(st, "EtClientRecv", "client", sn=c.pk)
    c.st0 = st.copy()
    c.outs, init, c.where = run_case(r, W, st, ev, monitor)
    c.init = init["client"]
    c.init2 = init["client2"]
    return c


def gw_case(r, mtype, flags=None, prep=None, aggr=None, monitor=None, ctype="Ctype_Aggregater", W=None):
    """aggr: the gateway aggregates its clients; ctype: whose packet it is then"""
    aggr = getattr(r, "aggr", False) if aggr is None else aggr
    W = W or world(aggr=aggr)
    st = W.state()
    c = Ctx()
    c.W = W
    c.aggr, c.r = aggr, r
    c.pk, c.d, c.N, c.fl = W.gw_packet(st, mtype, flags)
    c.d = c.d[1]
    # as received: the handlers write the client's message id into the packet
    c.m = W.ip.load(st, c.d, ZERO, 1, "i8")[2].scale(256) + W.ip.load(st, c.d, Lin(1), 1, "i8")[2]
    if not aggr:
        transparent(W, st)
    else:
        C = W.get(st, "client", "Client", "_clientType")[2]
        W.fact(st, C - W.CT[ctype])
        C = W.get(st, "client2", "Client", "_clientType")[2]
        W.fact(st, C - W.CT["Ctype_Aggregated"])
    if prep:
        prep(W, st, c)
    ev = W.event(st, "EtBrokerRecv", "client", gw=c.pk)
    c.st0 = st.copy()
    c.outs, init, c.where = run_case(r, W, st, ev, monitor)
    c.init = init["client"]
    c.init2 = init["client2"]
    return c


# ------------------------------------------------------------------ shared pieces
def status(o, c):
    return o.one_of(c.init["status"], list(range(1, 8)))


def timer_restarted(o, e, c):
    W = c.W
    ko = W.off("Client", "_keepAliveTimer")
    ok = any(x[0] == "timer" and x[1] == B("client") and o.st.facts.entails_eq(x[2] - ko) for x in o.st.trace)
    e.checks.append(("keep-alive supervision restarted", ok, "the client's keep-alive timer is not restarted"))


def mut_idmap_add(e, which, msgid, topicid):
    def chk(o, x):
        k = x[1]
        if k[0] != B("client") or k[1] != which:
            return "stored in %s of %s" % (k[1], k[0])
        if not same_int(o.st.facts, 16, k[2][2], msgid):
            return "stored for message id %s, should be %s" % (k[2][2], msgid)
        if not same_int(o.st.facts, 16, k[3][2], topicid):
            return "topic id %s stored, should be %s" % (k[3][2], topicid)
        return None
    e.mut("idmapAdd", "topic id remembered for the acknowledgement", chk)


def mut_idmap_erase(e, which, msgid, client="client"):
    def chk(o, x):
        if x[1][0] != B(client) or x[1][1] != which:
            return "erased in %s of %s" % (x[1][1], x[1][0])
        if not same_int(o.st.facts, 16, x[1][2][2], msgid):
            return "message id %s erased, should be %s" % (x[1][2][2], msgid)
        return None
    e.mut("idmapErase", "acknowledged message id forgotten", chk)


def mut_topic_add(e, table, obj, off, n):
    def chk(o, x):
        k = x[1][1]
        if x[1][0] != B(table):
            return "added to %s" % (x[1][0],)
        if len(k) != 4 or k[2][0] != "P" or not o.st.facts.entails_eq(k[3][2] - n):
            return "length of the name is %s, should be %s" % (k[3][2] if len(k) == 4 else "?", n)
        if not same_bytes(o.ip, o.st, k[2][1], k[2][2], obj, off, n):
            return "another name"
        if not o.st.facts.entails_eq(k[0][2]):
            return "topic type %s, should be NORMAL" % k[0][2]
        return None
    e.mut("topicAdd", "topic added to the client's table", chk)


def mut_topic_named(e, topic, ident):
    def chk(o, x):
        k = x[1]
        d = o.tname(topic)
        if k[0] != B("clientTopics"):
            return "added to %s" % (k[0],)
        if k[1][0] != "P" or k[1][1] != d[0] or not same_int(o.st.facts, 16, k[2][2], ident):
            return "added under another name or id"
        return None
    e.mut("topicAddNamed", "gateway's predefined topic added to the client's table", chk)


def gateway_str(o, f):
    return o.ip.load(o.st, B("gateway"), o.W.off("Gateway", "_params." + f), 8, "ptr")


def connect_items(o, c, clean, will, duration, will_topic=None, will_msg=None, will_flags=ZERO):
    W = o.W
    ver = o.ip.load(o.st, B("gateway"), W.off("Gateway", "_params.mqttVersion"), 1, "i8")[2]
    v = o.one_of(ver, [3, 4])
    if v is None:
        raise DontCare()
    login, pw = gateway_str(o, "loginId"), gateway_str(o, "password")
    nl, np_ = o.isnull(login), o.isnull(pw)
    cid = o.get("client", "Client", "_clientId")
    items = [LIT(b"\0\6MQIsdp") if v == 3 else LIT(b"\0\4MQTT"), N1(v)]
    if not isinstance(clean, Lin):
        clean = Lin(clean)
    fl = clean.scale(2) + 4 * will + will_flags + (0 if np_ else 64) + (0 if nl else 128)
    items += [N1(fl), N2(duration), o.cstr(cid)]
    if will:
        items += [o.cstr(will_topic), o.cstr(will_msg)]
    if not nl:
        items.append(o.cstr(login))
    if not np_:
        items.append(o.cstr(pw))
    return items


def reposts(o, e, c):
    """the stored publishes go back to the packet queue in order, and leave the store"""
    n = c.W.stored
    for i in range(n):
        e.repost(("heap", "stored%d" % i, 0))
        e.mut("pqPop", "stored message %d taken out" % i, lambda o, x: None if x[1] == B("client") and o.st.facts.entails_eq(x[2] - o.W.off("Client", "_clientSleepPacketQue")) else "popped from another queue")


def strings_ok(W, st):
    """the strings a CONNECT is made of fit a length field"""
    for ob, t, f in (("client", "Client", "_clientId"), ("gateway", "Gateway", "_params.loginId"), ("gateway", "Gateway", "_params.password")):
        v = W.get(st, ob, t, f)
        n = Interp(W.p).strlen_of(st, v, None)
        W.fact(st, const(65535) - n, "ge")


# ------------------------------------------------------------------ CONNECT and will (H01)
def connect(r, case):
    form, stored = case
    for will in (0, 1):
        for clean in (0, 1):
            c = sn_case(r, SN["CONNECT"], form, flags=flagbyte(will=will, clean=clean), stored=stored, prep=lambda W, st, c: strings_ok(W, st))

            def spec(o):
                e = Exp()
                N, ll, b = c.N, c.ll, c.b
                if not o.ge(N - ll - 5) or not o.eq(o.byte(b, ll + 2), 1):
                    o.label("malformed")
                    e.ignore |= {"status", "keepAlive"}
                    return e
                s = status(o, c)
                dur = o.word(b, ll + 3)
                o.label(STN[s])
                if s in (ASLEEP, AWAKE):
                    e.client(SN["CONNACK"], N1(0))
                    reposts(o, e, c)
                    e.final["status"] = Lin(ACTIVE)
                    return e
                e.final["status"] = Lin(DISC)
                e.final["session"] = Lin(clean)
                e.final["waitWill"] = Lin(will)
                e.final["keepAlive"] = dur.scale(1000)
                timer_restarted(o, e, c)
                if clean:
                    for w in ("_waitedPubTopicIdMap", "_waitedSubTopicIdMap"):
                        e.mut("idmapClear", "%s emptied" % w, lambda o, x, w=w: None if x[1] == (B("client"), w) else "%s emptied" % (x[1],))
                    e.mut("topicsEraseNormal", "registered topics dropped", lambda o, x: None if x[1] == B("clientTopics") else "of another table")
                if will:
                    e.client(SN["WILLTOPICREQ"])
                    connect_kept(o, e, clean, dur)
                else:
                    e.broker(MQ["CONNECT"], 0, *connect_items(o, c, clean, 0, dur))
                return e
            check(r, "CONNECT/%s will=%d clean=%d stored=%d" % (form, will, clean, stored), c.W, c.outs, c.init, spec, where=c.where)


CD = "_connectData."


def connect_kept(o, e, clean, dur):
    """what CONNECT leaves behind for the CONNECT that follows the will"""
    W = o.W
    g = lambda f, n: o.ip.load(o.st, B("client"), W.off("Client", CD + f), n, "i%d" % (8 * n))
    f = o.st.facts
    login, pw = gateway_str(o, "loginId"), gateway_str(o, "password")
    want = Lin(2 * clean + 4 + (0 if o.isnull(pw) else 64) + (0 if o.isnull(login) else 128))
    e.checks.append(("header kept for the broker", same_int(f, 8, g("header", 1)[2], Lin(0x10)), "%s" % (g("header", 1)[2],)))
    e.checks.append(("connect flags kept for the broker", same_int(f, 8, g("flags.all", 1)[2], want), "%s, should be %s" % (g("flags.all", 1)[2], want)))
    e.checks.append(("keep alive kept for the broker", same_int(f, 32, g("keepAliveTimer", 4)[2], dur), "%s" % (g("keepAliveTimer", 4)[2],)))
    ver = o.ip.load(o.st, B("gateway"), W.off("Gateway", "_params.mqttVersion"), 1, "i8")[2]
    e.checks.append(("version kept for the broker", same_int(f, 8, g("version", 1)[2], ver), "%s" % (g("version", 1)[2],)))
    cid = o.get("client", "Client", "_clientId")
    v = o.ip.load(o.st, B("client"), W.off("Client", CD + "clientID"), 8, "ptr")
    e.checks.append(("client id kept for the broker", v == cid, "%s" % (v,)))
    v = o.ip.load(o.st, B("client"), W.off("Client", CD + "willTopic"), 8, "ptr")
    e.checks.append(("no will topic yet", o.st.isnull(v) is True, "%s" % (v,)))


def prep_connect_data(W, st, c):
    """the state CONNECT (with a will) left"""
    ip = Interp(W.p)
    strings_ok(W, st)
    put = lambda f, n, v: ip.store(st, B("client"), W.off("Client", CD + f), n, v)
    put("header", 1, I(8, 0x10))
    ver = ip.load(st, B("gateway"), W.off("Gateway", "_params.mqttVersion"), 1, "i8")
    put("version", 1, ver)
    put("clientID", 8, W.get(st, "client", "Client", "_clientId"))
    c.fl = {k: var(("sym", "cd." + k, 0, 3 if k == "qos" else 1)) for k in ("clean", "qos", "retain")}
    c.login, c.pw = c.hasauth
    for f, has in (("loginId", c.login), ("password", c.pw)):
        v = W.get(st, "gateway", "Gateway", "_params." + f)
        st.null[v[1]] = not has
        if not has:
            ip.store(st, B("gateway"), W.off("Gateway", "_params." + f), 8, NULL)
    put("flags.all", 1, I(8, c.fl["clean"].scale(2) + 4 + c.fl["qos"].scale(8) + c.fl["retain"].scale(32) + (64 if c.pw else 0) + (128 if c.login else 0)))
    c.dur = var(("sym", "cd.duration", 0, 65535))
    put("keepAliveTimer", 4, I(32, c.dur))


def willtopic(r, case):
    form, auth = case
    for qos in (0, 1, 2):
        def prep(W, st, c):
            c.hasauth = auth
            prep_connect_data(W, st, c)
        c = sn_case(r, SN["WILLTOPIC"], form, flags=flagbyte(qos=qos), prep=prep)

        def spec(o):
            e = Exp()
            W, N, ll, b = c.W, c.N, c.ll, c.b
            if not o.eq(c.init["waitWill"], 1):
                o.label("no will expected")
                return e
            if o.eq(N - ll - 1):
                o.label("empty will topic")
                raise DontCare()
            o.label("will expected")
            e.client(SN["WILLMSGREQ"])
            n = N - ll - 2
            v = o.get("client", "Client", "_willTopic")
            ok = v[0] == "P" and same_bytes(o.ip, o.st, v[1], v[2], b, Lin(ll + 2), n)
            e.checks.append(("will topic kept", ok, "the client's will topic is not the received one"))
            z = v[0] == "P" and o.ip.load(o.st, v[1], v[2] + n, 1, "i8")
            e.checks.append(("will topic NUL-terminated", bool(z) and z[0] == "I" and o.st.facts.entails_eq(z[2]), "%s" % (z,)))
            w = o.ip.load(o.st, B("client"), W.off("Client", CD + "willTopic"), 8, "ptr")
            e.checks.append(("will topic goes into the CONNECT", w == v, "%s, should be %s" % (w, v)))
            fl = o.ip.load(o.st, B("client"), W.off("Client", CD + "flags.all"), 1, "i8")[2]
            want = c.fl["clean"].scale(2) + 4 + 8 * qos + FLAG("retain").scale(32) + (64 if c.pw else 0) + (128 if c.login else 0)
            e.checks.append(("will qos and retain go into the CONNECT", same_int(o.st.facts, 8, fl, want), "flags %s, should be %s" % (fl, want)))
            return e
        check(r, "WILLTOPIC/%s qos=%d auth=%s" % (form, qos, auth), c.W, c.outs, c.init, spec, where=c.where)


def willmsg(r, case):
    form, auth = case

    def prep(W, st, c):
        c.hasauth = auth
        prep_connect_data(W, st, c)
        # the will topic WILLTOPIC left, if it came
        n = var(("sym", "willtopic.len", 0, 65535))
        heapbuf(st, "willtopic", n + 1)
        ip = Interp(W.p)
        ip.store(st, ("heap", "willtopic", 0), n, 1, I(8, 0))
        st.ghost[("given", ("heap", "willtopic", 0))] = True
        if c.topic:
            ip.store(st, B("client"), W.off("Client", CD + "willTopic"), 8, P(("heap", "willtopic", 0)))
            ip.store(st, B("client"), W.off("Client", "_willTopic"), 8, P(("heap", "willtopic", 0)))
            W.fact(st, const(65535) - ip.strlen_of(st, P(("heap", "willtopic", 0)), None), "ge")
        else:
            ip.store(st, B("client"), W.off("Client", CD + "willTopic"), 8, NULL)
    for topic in (0, 1):
        def prep2(W, st, c):
            c.topic = topic
            prep(W, st, c)
        c = sn_case(r, SN["WILLMSG"], form, prep=prep2)

        def spec(o):
            e = Exp()
            W, N, ll, b = c.W, c.N, c.ll, c.b
            if not o.eq(c.init["waitWill"], 1) or not topic:
                o.label("no will expected")
                return e
            s = status(o, c)
            if s in (TRYC, LOST):
                o.label("not connectable")
                return e
            o.label("will expected")
            n = N - ll - 1
            v = o.get("client", "Client", "_willMsg")
            ok = v[0] == "P" and same_bytes(o.ip, o.st, v[1], v[2], b, Lin(ll + 1), n)
            e.checks.append(("will message kept", ok, "the client's will message is not the received one"))
            z = v[0] == "P" and o.ip.load(o.st, v[1], v[2] + n, 1, "i8")
            e.checks.append(("will message NUL-terminated", bool(z) and z[0] == "I" and o.st.facts.entails_eq(z[2]), "%s" % (z,)))
            if v[0] == "P":
                fl = c.fl["qos"].scale(8) + c.fl["retain"].scale(32)
                e.broker(MQ["CONNECT"], 0, *connect_items(o, c, c.fl["clean"], 1, c.dur, P(("heap", "willtopic", 0)), v, fl))
            e.final["waitWill"] = ZERO
            return e
        check(r, "WILLMSG/%s topic=%d auth=%s" % (form, topic, auth), c.W, c.outs, c.init, spec, where=c.where)



# ------------------------------------------------------------------ DISCONNECT, PINGREQ
def restart(o, e, c):
    """any message of an active client restarts its supervision"""
    s = status(o, c)
    o.label(STN[s])
    if s == ACTIVE:
        timer_restarted(o, e, c)
    return s


def disconnect(r, case):
    form, = case
    c = sn_case(r, SN["DISCONNECT"], form)

    def spec(o):
        e = Exp()
        N, ll, b = c.N, c.ll, c.b
        if o.eq(N - ll - 1):
            dur = False
        elif o.eq(N - ll - 3):
            dur = not o.eq(o.word(b, ll + 1))
        else:
            o.label("malformed")
            return e
        s = status(o, c)
        o.label(STN[s])
        if not dur:
            e.broker(MQ["DISCONNECT"], 0)
        e.client(SN["DISCONNECT"])
        if s in (ACTIVE, ASLEEP, AWAKE):
            e.final["status"] = Lin(ASLEEP if dur else DISC)
            if not dur:
                e.final["waitWill"] = ZERO
        else:
            e.ignore |= {"status", "waitWill"}
        return e
    check(r, "DISCONNECT/%s" % form, c.W, c.outs, c.init, spec, where=c.where)


def willupd(r, case):
    form, name, resp = case
    c = sn_case(r, SN[name], form)

    def spec(o):
        e = Exp()
        e.client(SN[resp], N1(3))
        return e
    check(r, "%s/%s" % (name, form), c.W, c.outs, c.init, spec, where=c.where)


def pingreq(r, case):
    form, stored = case
    c = sn_case(r, SN["PINGREQ"], form, stored=stored)

    def spec(o):
        e = Exp()
        s = restart(o, e, c)
        if s in (ASLEEP, AWAKE) and stored:
            reposts(o, e, c)
            e.final["hold"] = Lin(1)
        else:
            e.broker(MQ["PINGREQ"], 0)
            e.final["hold"] = ZERO
        if s in (ASLEEP, AWAKE):
            e.final["status"] = Lin(AWAKE)
        return e
    check(r, "PINGREQ/%s stored=%d" % (form, stored), c.W, c.outs, c.init, spec, where=c.where)


def others(r, case):
    """messages a gateway has no use for"""
    form, = case
    for name in ("ADVERTISE", "SEARCHGW", "GWINFO", "CONNACK", "WILLTOPICREQ", "WILLMSGREQ", "SUBACK", "UNSUBACK", "PINGRESP", "WILLTOPICRESP", "WILLMSGRESP"):
        c = sn_case(r, SN[name], form)

        def spec(o):
            e = Exp()
            if name == "PINGRESP":
                e.ignore.add("status")
            return e
        check(r, "%s/%s from a client" % (name, form), c.W, c.outs, c.init, spec, where=c.where)


# ------------------------------------------------------------------ PUBLISH of a client
TT = {0: "NORMAL", 1: "PREDEFINED", 2: "SHORT"}


def topic_of(o, e, c, typ, ident):
    """the topic with that id: the client's own, or the gateway's predefined one (which becomes the client's)"""
    t = o.by_id("clientTopics", typ, ident)
    if t is not None:
        return t
    if typ == 0 and not any(x[1][0] == B("gwTopics") for x in o.events("topicById")):
        return None
    g = o.by_id("gwTopics", typ, ident)
    if g is None:
        return None
    mut_topic_named(e, g, o.tid(g))
    return o.added_named("clientTopics", g, o.tid(g))


def sn_publish(r, case):
    form, typ, qos = case
    c = sn_case(r, SN["PUBLISH"], form, flags=flagbyte(topic=typ, qos=qos, will=0, clean=0, dup=getattr(r, "dup", None)))

    def spec(o):
        e = Exp()
        N, ll, b = c.N, c.ll, c.b
        if not o.ge(N - ll - 6):
            o.label("malformed")
            return e
        ident, msgid = o.word(b, ll + 2), o.word(b, ll + 4)
        zero = o.eq(msgid)
        if qos in (1, 2) and zero:
            o.label("no message id")
            return e
        if qos in (0, 3) and not zero:
            raise DontCare()
        s = restart(o, e, c)
        if typ == 2:
            name = ("utf", b, Lin(ll + 2), Lin(2))
        else:
            t = topic_of(o, e, c, typ, ident)
            if t is None:
                o.label("unknown topic")
                if qos in (1, 2):
                    e.client(SN["PUBACK"], N2(ident), N2(msgid), N1(2))
                return e
            name = ("utf",) + o.tname(t)
        items = [name] + ([N2(msgid)] if qos in (1, 2) else []) + [S(b, Lin(ll + 6), N - ll - 6)]
        if c.aggr and qos in (1, 2):
            items[1] = table_id(o, e, c, msgid)
        if None not in items:
            e.broker(MQ["PUBLISH"], DUP(r).scale(8) + (0 if qos == 3 else 2 * qos) + FLAG("retain"), *items)
        if qos == 1:
            mut_idmap_add(e, "_waitedPubTopicIdMap", msgid, ident)
        return e
    check(r, "PUBLISH/%s %s qos=%d from the client" % (form, TT[typ], qos if qos < 3 else -1), c.W, c.outs, c.init, spec, where=c.where)


# ------------------------------------------------------------------ aggregated clients
def table_id(o, e, c, msgid):
    """the message id under which the aggregater sends a client's message"""
    same = lambda x: x[1] == P(B("client")) and x[2][0] == "I" and same_int(o.st.facts, 16, x[2][2], msgid)
    if o.eq(DUP(c.r), 1):
        got = [x for x in o.events("aggrGet") if same(x)]
        v = got[-1][3][2] if got else None if o.unknown() else var(("sym", o.st.fresh("aggrGot"), 1, 65535))
        if v is not None and not o.eq(v):
            o.label("sent again")
            return N2(v)
    e.mut("aggrAdd", "the client and its message id are kept in the aggregater's table", lambda o, x: None if same(x) else "kept for %s, %s" % x[1:3])
    add = [x for x in o.events("aggrAdd") if same(x)]
    if not add or add[-1][3] is None:
        o.label("no room in the table")
        return None
    return N2(o.ip.load(o.st, add[-1][3], o.W.off("MessageIdElement", "_msgId"), 2, "i16")[2])


def filter_is(o, x, nm):
    """does the table operation x concern the topic filter nm of the client"""
    _, d, mem, cl = x[:4]
    st = o.st.copy()
    st.mem.update(dict(mem))
    if not d or d[0][0] != "P" or d[1][0] != "I" or not st.facts.entails_eq(d[1][2] - nm[3]):
        return "a topic filter of another length"
    if not nm[3].t:
        pairs = [(o.ip.load(st, d[0][1], d[0][2] + k, 1, "i8"), o.ip.load(o.st, nm[1], nm[2] + k, 1, "i8")) for k in range(nm[3].c)]
        if not all(a[0] == "I" and b[0] == "I" and same_int(st.facts, 8, a[2], b[2]) for a, b in pairs):
            return "another topic filter"
    elif not same_bytes(o.ip, st, d[0][1], d[0][2], nm[1], nm[2], nm[3]):
        return "another topic filter"
    if x[0] != "aggrTopicHas" and cl != P(B("client")):
        return "for %s" % (cl,)
    return None


def aggregated_topic(o, e, c, m, nm, sub):
    """-> the message id of the SUBSCRIBE or UNSUBSCRIBE for the broker, None if it needs none"""
    if sub:
        mid = table_id(o, e, c, m)
        if mid is not None:
            e.mut("aggrTopicAdd", "the client gets the messages of its topic filter", lambda o, x: filter_is(o, x, nm))
        return mid
    e.mut("aggrTopicErase", "the client gets no more messages of the topic filter", lambda o, x: filter_is(o, x, nm))
    has = [x for x in o.events("aggrTopicHas") if filter_is(o, x, nm) is None]
    gone = [i for i, x in enumerate(o.st.trace) if x[0] == "aggrTopicErase"]
    if has and not (gone and o.st.trace.index(has[-1]) > gone[-1]):
        has = []
    if has[-1][4] if has else o.unknown():
        o.label("other clients have subscribed to it")
        e.client(SN["UNSUBACK"], N2(m))
        return None
    return table_id(o, e, c, m)


def owner(o, e, c, m, keep=False):
    """-> (client, its message id) of the message the broker acknowledges; None if nobody's"""
    if not c.aggr:
        return "client", m
    got = [x for x in o.events("convertClient") if same_int(o.st.facts, 16, x[1][2], m)]
    if not got:
        e.checks.append(("the message id is looked up", False, "it is not"))
        return None
    kept = [bool(x[4]) for x in got]
    e.checks.append(("the message id is %s" % ("kept for PUBREL and PUBCOMP" if keep else "forgotten"), all(kept) if keep else not all(kept), "it is %s" % ("forgotten" if keep else "kept")))
    if got[-1][2] is None:
        o.label("nobody's message")
        return None
    return got[-1][2][1], got[-1][3][2]


# ------------------------------------------------------------------ acknowledgements
def sn_puback(r, case):
    form, = case
    c = sn_case(r, SN["PUBACK"], form)

    def spec(o):
        e = Exp()
        N, ll, b = c.N, c.ll, c.b
        if not o.ge(N - ll - 6):
            o.label("malformed")
            return e
        s = restart(o, e, c)
        if s == ACTIVE and o.eq(o.byte(b, ll + 5)):
            e.broker(MQ["PUBACK"], 0, N2(o.word(b, ll + 3)))
        return e
    check(r, "PUBACK/%s from the client" % form, c.W, c.outs, c.init, spec, where=c.where)


def sn_ack(r, case):
    form, name = case
    c = sn_case(r, SN[name], form)

    def spec(o):
        e = Exp()
        N, ll, b = c.N, c.ll, c.b
        if not o.ge(N - ll - 3):
            o.label("malformed")
            return e
        s = restart(o, e, c)
        if s == ACTIVE:
            e.broker(MQ[name], 2 if name == "PUBREL" else 0, N2(o.word(b, ll + 1)))
        return e
    check(r, "%s/%s from the client" % (name, form), c.W, c.outs, c.init, spec, where=c.where)


def gw_puback(r, case):
    c = gw_case(r, MQ["PUBACK"])

    def spec(o):
        e = Exp()
        if not o.ge(c.N - 2):
            o.label("malformed")
            return e
        m = c.m
        w = owner(o, e, c, m)
        if w is None:
            return e
        who, m = w
        t = waited(o, "_waitedPubTopicIdMap", m, who)
        if t is None:
            o.label("not awaited")
            return e
        e.client(SN["PUBACK"], N2(t), N2(m), N1(0), to=who)
        mut_idmap_erase(e, "_waitedPubTopicIdMap", m, who)
        return e
    check(r, "PUBACK from the broker", c.W, c.outs, c.init, spec, where=c.where)


def waited(o, which, msgid, client="client"):
    """the topic id remembered for that message id"""
    for x in o.events("idmapGet"):
        k = x[1]
        if k[0] == B(client) and k[1] == which and same_int(o.st.facts, 16, k[2][2], msgid):
            if x[2] is None:
                return None
            # a topic filter with a wildcard has no topic id
            w = o.ip.load(o.st, x[2], o.W.off("TopicIdMapElement", "_wildcard"), 1, "i8")[2]
            return o.ip.load(o.st, x[2], o.W.off("TopicIdMapElement", "_topicId"), 2, "i16")[2] if o.eq(w) else ZERO
    return None if o.unknown() else var(("sym", o.st.fresh("awaited"), 0, 65535))


def gw_ack(r, case):
    name, = case
    c = gw_case(r, MQ[name])

    def spec(o):
        e = Exp()
        if not o.ge(c.N - 2):
            o.label("malformed")
            return e
        m = c.m
        if c.aggr and name == "PUBREL":
            e.broker(MQ["PUBCOMP"], 0, N2(m))
            return e
        w = owner(o, e, c, m, name == "PUBREC")
        if w is None:
            return e
        who, m = w
        s = o.one_of((c.init if who == "client" else c.init2)["status"], list(range(1, 8)))
        o.label(STN[s])
        if s in (ACTIVE, AWAKE):
            e.client(SN[name], N2(m), to=who)
        elif s == ASLEEP and name == "PUBREL":
            e.broker(MQ["PUBCOMP"], 0, N2(m))
        return e
    check(r, "%s from the broker" % name, c.W, c.outs, c.init, spec, where=c.where)


# ------------------------------------------------------------------ REGISTER
def register(r, case):
    form, = case
    c = sn_case(r, SN["REGISTER"], form)

    def spec(o):
        e = Exp()
        N, ll, b = c.N, c.ll, c.b
        s = status(o, c)
        o.label(STN[s])
        if not o.ge(N - ll - 5) or s not in (ACTIVE, AWAKE):
            return e
        n = N - ll - 5
        if o.eq(n):
            raise DontCare()
        m = o.word(b, ll + 3)
        mut_topic_add(e, "clientTopics", b, Lin(ll + 5), n)
        t = o.added("clientTopics", b, Lin(ll + 5), n)
        if t is None:
            o.label("table full")
            e.client(SN["REGACK"], N2(0), N2(m), N1(1))
        else:
            e.client(SN["REGACK"], N2(o.tid(t)), N2(m), N1(0))
        return e
    check(r, "REGISTER/%s" % form, c.W, c.outs, c.init, spec, where=c.where)


def regack(r, case):
    form, = case
    c = sn_case(r, SN["REGACK"], form)

    def spec(o):
        e = Exp()
        N, ll, b = c.N, c.ll, c.b
        s = status(o, c)
        o.label(STN[s])
        if not o.ge(N - ll - 6) or s not in (ACTIVE, AWAKE):
            return e
        if not o.eq(o.byte(b, ll + 5)):
            raise DontCare()
        m = o.word(b, ll + 3)
        got = [x for x in o.events("regackGet") if same_int(o.st.facts, 16, x[2][2], m)]
        pending = got[-1][3] if got else None if o.unknown() else o.obj("pending")
        if pending is not None:
            o.label("a PUBLISH waits for it")
            e.posts.append(("clientSendQue", "EtClientSend", B("client"), ("snobj", pending)))
            e.mut("regackErase", "the PUBLISH is no longer pending", lambda o, x: None if same_int(o.st.facts, 16, x[2][2], m) else "message id %s erased" % (x[2],))
        cnt = o.events("regackCount")
        if o.eq(c.init["hold"], 1) and (o.eq(cnt[-1][1][2]) if cnt else not o.unknown()):
            o.label("last one before the PINGRESP")
            e.broker(MQ["PINGREQ"], 0)
            e.final["hold"] = ZERO
        return e
    check(r, "REGACK/%s" % form, c.W, c.outs, c.init, spec, where=c.where)


# ------------------------------------------------------------------ SUBSCRIBE
def subscribe(r, case):
    form, typ, qos, name = case
    sub = name == "SUBSCRIBE"

    def prep(W, st, c):
        if typ == 2:
            for k in (4, 5):
                W.fact(st, W.ip.load(st, c.b, Lin(c.ll + k), 1, "i8")[2], "ne")
    c = sn_case(r, SN[name], form, flags=flagbyte(topic=typ, qos=qos, will=0, clean=0, retain=0, dup=getattr(r, "dup", None)), prep=prep)

    def spec(o):
        e = Exp()
        N, ll, b = c.N, c.ll, c.b
        n = N - ll - 4
        if not o.ge(n if typ == 0 else n - 2) or typ == 3:
            o.label("malformed")
            return e
        if typ == 0 and o.eq(n):
            raise DontCare()
        m = o.word(b, ll + 2)
        if o.eq(m):
            o.label("no message id")
            return e
        restart(o, e, c)
        tid = None
        fail_id = ZERO
        if typ == 2:
            nm, tid = ("utf", b, Lin(ll + 4), Lin(2)), o.word(b, ll + 4)
        elif typ == 1:
            fail_id = o.word(b, ll + 4)
            t = topic_of(o, e, c, 1, fail_id) if sub else o.by_id("clientTopics", 1, fail_id)
        else:
            t = o.by_name("clientTopics", b, Lin(ll + 4), n)
            if t is None and sub:
                mut_topic_add(e, "clientTopics", b, Lin(ll + 4), n)
                t = o.added("clientTopics", b, Lin(ll + 4), n)
        if typ != 2:
            if t is None:
                o.label("no such topic")
                if sub:
                    e.client(SN["SUBACK"], N1(32 * qos), N2(fail_id), N2(m), N1(2))
                else:
                    e.client(SN["UNSUBACK"], N2(m))
                return e
            nm, tid = ("utf",) + o.tname(t), o.tid(t)
        if c.aggr:
            mid = aggregated_topic(o, e, c, m, nm, sub)
        else:
            mid = N2(m)
        if mid is not None:
            e.broker(MQ[name], 2, mid, nm, *([N1(qos)] if sub else []))
        if sub:
            mut_idmap_add(e, "_waitedSubTopicIdMap", m, tid)
        return e
    check(r, "%s/%s type=%d qos=%d" % (name, form, typ, qos), c.W, c.outs, c.init, spec, where=c.where)


def suback(r, case):
    c = gw_case(r, MQ["SUBACK"])

    def spec(o):
        e = Exp()
        if not o.ge(c.N - 3):
            o.label("malformed")
            return e
        m, rc = c.m, o.one_of(o.byte(c.d, 2), [0, 1, 2, 0x80])
        if rc is None:
            raise DontCare()
        o.label("return code %d" % rc)
        w = owner(o, e, c, m)
        if w is None:
            return e
        who, m = w
        t = waited(o, "_waitedSubTopicIdMap", m, who)
        if t is None:
            o.label("not awaited")
            return e
        e.client(SN["SUBACK"], N1(32 * rc if rc < 3 else 0), N2(t), N2(m), N1(0 if rc < 3 else 2), to=who)
        mut_idmap_erase(e, "_waitedSubTopicIdMap", m, who)
        return e
    check(r, "SUBACK from the broker", c.W, c.outs, c.init, spec, where=c.where)


def unsuback(r, case):
    c = gw_case(r, MQ["UNSUBACK"])

    def spec(o):
        e = Exp()
        if not o.ge(c.N - 2):
            o.label("malformed")
            return e
        w = owner(o, e, c, c.m)
        if w is not None:
            e.client(SN["UNSUBACK"], N2(w[1]), to=w[0])
        return e
    check(r, "UNSUBACK from the broker", c.W, c.outs, c.init, spec, where=c.where)


# ------------------------------------------------------------------ CONNACK, PINGRESP, DISCONNECT of the broker
def connack(r, case):
    c = gw_case(r, MQ["CONNACK"])

    def spec(o):
        e = Exp()
        if not o.ge(c.N - 2):
            o.label("malformed")
            return e
        rc = o.one_of(o.byte(c.d, 1), [0, 1, 2, 3, 4, 5])
        if rc is None:
            raise DontCare()
        o.label("return code %d" % rc)
        e.client(SN["CONNACK"], N1({0: 0, 1: 3, 2: 3, 3: 1, 4: 3, 5: 3}[rc]))
        e.final["status"] = Lin(DISC if rc else ACTIVE)
        if rc:
            e.final["waitWill"] = ZERO
        return e
    check(r, "CONNACK from the broker", c.W, c.outs, c.init, spec, where=c.where)


def pingresp(r, case):
    c = gw_case(r, MQ["PINGRESP"], ctype="Ctype_Aggregated")

    def spec(o):
        e = Exp()
        e.client(SN["PINGRESP"])
        s = status(o, c)
        o.label(STN[s])
        if s == AWAKE:
            e.final["status"] = Lin(ASLEEP)
        return e
    check(r, "PINGRESP from the broker", c.W, c.outs, c.init, spec, where=c.where)


def gw_disconnect(r, case):
    c = gw_case(r, MQ["DISCONNECT"])

    def spec(o):
        e = Exp()
        e.final["status"] = Lin(DISC)
        e.final["waitWill"] = ZERO
        return e
    check(r, "DISCONNECT from the broker", c.W, c.outs, c.init, spec, where=c.where)


def gw_others(r, case):
    for t in (0, MQ["CONNECT"], MQ["SUBSCRIBE"], MQ["UNSUBSCRIBE"], MQ["PINGREQ"], 15):
        c = gw_case(r, t)
        check(r, "MQTT packet type %d from the broker" % t, c.W, c.outs, c.init, lambda o: Exp(), where=c.where)


# ------------------------------------------------------------------ PUBLISH of the broker
def fits(o, n):
    """does a message whose type and body are n bytes fit a MQTT-SN packet of the gateway"""
    if o.ge(const(1024 - 3) - n):
        return True
    if o.ge(n - 1024):
        return False
    raise DontCare()


def gw_publish(r, case):
    qos, = case
    dup, retain = var(("sym", "hdr.dup", 0, 1)), var(("sym", "hdr.retain", 0, 1))
    c = gw_case(r, MQ["PUBLISH"], flags=dup.scale(8) + 2 * qos + retain, ctype="Ctype_Aggregated")

    def spec(o):
        e = Exp()
        N, d = c.N, c.d
        if qos == 3 or not o.ge(N - 2):
            o.label("malformed")
            return e
        n = o.word(d, 0)
        hl = n + (4 if qos else 2)
        if not o.ge(N - hl):
            o.label("malformed")
            return e
        s = status(o, c)
        o.label(STN[s])
        if s not in (ACTIVE, ASLEEP, AWAKE):
            return e
        m = o.word(d, n + 2) if qos else ZERO

        def ack():
            if qos and not c.aggr:
                e.broker(MQ["PUBACK"] if qos == 1 else MQ["PUBREC"], 0, N2(m))
        if o.eq(n):
            if s == ASLEEP:
                raise DontCare()
            o.label("no topic")
            return e
        if s == ASLEEP:
            ack()

            def chk(o, x):
                if x[1] != B("client") or not o.st.facts.entails_eq(x[2] - o.W.off("Client", "_clientSleepPacketQue")):
                    return "kept in another queue"
                st = o.st.copy()
                st.mem.update(dict(x[4]))
                if x[3][0] != "P":
                    return "no packet"
                h = o.ip.load(st, x[3][1], o.W.off("MQTTGWPacket", "_header"), 1, "i8")[2]
                k = o.ip.load(st, x[3][1], o.W.off("MQTTGWPacket", "_remainingLength"), 4, "i32")[2]
                q = o.ip.load(st, x[3][1], o.W.off("MQTTGWPacket", "_data"), 8, "ptr")
                if not same_int(st.facts, 8, h, dup.scale(8) + 2 * qos + retain + 16 * MQ["PUBLISH"]):
                    return "header of the kept packet is %s" % h
                if not st.facts.entails_eq(k - N):
                    return "length of the kept packet is %s" % k
                if q[0] != "P" or not same_bytes(o.ip, st, q[1], q[2], d, ZERO, N):
                    return "the kept packet is not the received one"
                return None
            e.mut("pqPost", "the message is kept for the sleeping client", chk)
            return e
        payload = S(d, hl, N - hl)

        def publish(typ, ident):
            fl = dup.scale(128) + 32 * qos + retain.scale(16) + typ
            return ("sn", SN["PUBLISH"], (N1(fl), ident, N2(m), payload))
        too_big = False
        if o.eq(n - 2):
            o.label("short topic")
            if not fits(o, N - hl + 6):
                o.label("too big")
                ack()
                return e
            e.posts.append(("clientSendQue", "EtClientSend", B("client"), publish(Lin(2), S(d, 2, Lin(2)))))
            return e
        t = o.by_name("clientTopics", d, Lin(2), n)
        if t is not None:
            o.label("known topic")
            if not fits(o, N - hl + 6):
                o.label("too big")
                ack()
                return e
            ty = o.one_of(o.ttype(t), [0, 1])
            e.posts.append(("clientSendQue", "EtClientSend", B("client"), publish(Lin(ty), N2(o.tid(t)))))
            return e
        match = o.by_name("clientTopics", d, Lin(2), n, "topicMatch")
        clean = o.eq(c.init["session"], 1)
        if match is None and clean:
            o.label("unknown topic")
            ack()
            return e
        o.label("subscribed by a wildcard" if match is not None else "of an earlier session")
        mut_topic_add(e, "clientTopics", d, Lin(2), n)
        t = o.added("clientTopics", d, Lin(2), n)
        if t is None:
            o.label("table full")
            e.ignore.add("brokerSendQue")
            return e
        if not fits(o, n + 5) or not fits(o, N - hl + 6):
            o.label("too big")
            ack()
            return e
        box = []
        e.client(SN["REGISTER"], N2(o.tid(t)), ("any", 2, box), S(d, 2, n))
        want = publish(ZERO, N2(o.tid(t)))

        def chk(o, x):
            if x[1] != B("client"):
                return "kept for %s" % (x[1],)
            if not box or not same_int(o.st.facts, 16, x[2][2], box[0]):
                return "kept under message id %s, REGISTER has %s" % (x[2][2], box)
            if not o.st.facts.entails_ne(box[0]):
                return "REGISTER's message id may be 0"
            st = o.st.copy()
            st.mem.update(dict(x[4]))
            return sn_bytes(o, st, x[3], want) if x[3][0] == "P" else "no packet"
        e.mut("regackSet", "PUBLISH waits for the REGACK", chk)
        return e
    check(r, "PUBLISH qos=%d from the broker" % qos, c.W, c.outs, c.init, spec, where=c.where)


def register_ids(r, case):
    """two messages on new topics, one after the other: the REGISTERs have different message ids"""
    W = world()
    st = W.state()
    transparent(W, st)
    W.fact(st, W.get(st, "client", "Client", "_status")[2] - ACTIVE)

    def packet(st, name):
        pk, d, N, fl = W.gw_packet(st, MQ["PUBLISH"], 2, name)
        n = W.ip.load(st, d[1], ZERO, 1, "i8")[2].scale(256) + W.ip.load(st, d[1], Lin(1), 1, "i8")[2]
        W.fact(st, n - 3, "ge")
        W.fact(st, const(500) - N, "ge")
        W.fact(st, N - n - 4, "ge")
        return W.event(st, "EtBrokerRecv", "client", gw=pk, name=name + "ev")
    sent = lambda o: [x for x in o.st.trace if x[0] == "regackSet"]
    outs, init, where = run_case(r, W, st, packet(st, "gw"))
    n = 0
    for o in outs:
        if not sent(o):
            continue
        a = sent(o)[0][2][2]
        s2 = o.st.copy()
        s2.trace = ()
        s2.ghost.pop(("waited",), None)
        ev = packet(s2, "gw2")
        outs2, init, where = run_case(r, W, s2, ev)
        for o2 in outs2:
            if not sent(o2):
                continue
            n += 1
            b = sent(o2)[0][2][2]
            r.ob("two REGISTERs in a row have different message ids", o2.st.facts.entails_ne(a - b) or differ(o2.st.facts, a, b), "ids %s and %s" % (a, b), where)
    r.floor("pairs of REGISTER messages", n, 2)


def differ(f, a, b, depth=6, done=()):
    """a and b cannot be equal; wrapped-around additions are split into 'did not wrap' and 'did'"""
    if f.entails_ne(a - b):
        return True
    if depth:
        for at in sorted({x for L in (a, b) for x, _ in L.t} | {x for L in (a, b) for y, _ in L.t if y[0] == "uf" and y[1] == "wrap" for x, _ in y[2][1].t}, key=repr):
            if at[0] == "uf" and at[1] == "wrap" and at[2][0] <= 16 and at not in done:
                w, L = at[2]
                lo, hi = f.interval(L)
                if lo is None or hi is None or lo <= -(1 << w) or hi >= 2 << w:
                    continue
                ok = True
                for k in (-1, 0, 1):
                    g = f.add_eq(var(at) - L + (k << w))
                    g = g and g.add_ge(L - (k << w))
                    g = g and g.add_ge(const((k << w) + (1 << w) - 1) - L)
                    ok = ok and (g is None or differ(g, a, b, depth - 1, done + (at,)))
                return ok
    x = f.add_eq(a - b)
    return x is None


# ------------------------------------------------------------------ discovery
def table(r, case):
    tables.CONTRACTS[case[0]](r)


def searchgw(r, case):
    form, = case
    W = world()
    st = W.state()
    c = Ctx()
    c.pk, c.b, c.N, c.ll = W.sn_packet(st, SN["SEARCHGW"], form)
    transparent(W, st)
    ev = W.event(st, "EtBroadcast", None, sn=c.pk)
    outs, init, where = run_case(r, W, st, ev)

    def spec(o):
        e = Exp()
        if not o.ge(c.N - c.ll - 2):
            raise DontCare()
        e.broadcast(SN["GWINFO"], N1(o.ip.load(o.st, B("gateway"), W.off("Gateway", "_params.gatewayId"), 1, "i8")[2]))
        return e
    check(r, "SEARCHGW/%s" % form, W, outs, init["client"], spec, where=where)


def advertise(r, case):
    W = world(qosm1=False)
    st = W.state()
    transparent(W, st)
    ev = W.event(st, "EtTimeout")
    outs, init, where = run_case(r, W, st, ev)

    def spec(o):
        e = Exp()
        up = any(x[0] == "timer" and x[1] == B("task") for x in o.st.trace[1:])
        if up:
            o.label("advertising period over")
            k = o.ip.load(o.st, B("gateway"), W.off("Gateway", "_params.keepAlive"), 2, "i16")[2]
            e.broadcast(SN["ADVERTISE"], N1(o.ip.load(o.st, B("gateway"), W.off("Gateway", "_params.gatewayId"), 1, "i8")[2]), N2(k))
        return e
    check(r, "timeout", W, outs, init["client"], spec, where=where)


FORMS = ("short", "long")
CASES = {
    "connect": lambda t: [(f, s) for f in FORMS for s in ((0, 2) if t == "quick" else (0, 1, 2, 3))],
    "willtopic": lambda t: [(f, a) for f in FORMS for a in ((True, True), (False, False), (True, False))],
    "willmsg": lambda t: [(f, a) for f in FORMS for a in ((True, True), (False, False), (True, False))],
    "disconnect": lambda t: [(f,) for f in FORMS],
    "willupd": lambda t: [(f,) + n for f in FORMS for n in (("WILLTOPICUPD", "WILLTOPICRESP"), ("WILLMSGUPD", "WILLMSGRESP"))],
    "pingreq": lambda t: [(f, s) for f in FORMS for s in ((0, 2) if t == "quick" else (0, 1, 2, 3))],
    "others": lambda t: [(f,) for f in FORMS],
    "sn_publish": lambda t: [(f, ty, q) for f in FORMS for ty in (0, 1, 2) for q in (0, 1, 2, 3) if (ty, q) != (0, 3)],
    "sn_puback": lambda t: [(f,) for f in FORMS],
    "sn_ack": lambda t: [(f, n) for f in FORMS for n in ("PUBREC", "PUBREL", "PUBCOMP")],
    "gw_puback": lambda t: [()],
    "gw_ack": lambda t: [(n,) for n in ("PUBREC", "PUBREL", "PUBCOMP")],
    "register": lambda t: [(f,) for f in FORMS],
    "regack": lambda t: [(f,) for f in FORMS],
    "subscribe": lambda t: [(f, ty, q, "SUBSCRIBE") for f in FORMS for ty in (0, 1, 2, 3) for q in (0, 1, 2)] +
                           [(f, ty, 0, "UNSUBSCRIBE") for f in FORMS for ty in (0, 1, 2, 3)],
    "suback": lambda t: [()], "unsuback": lambda t: [()], "connack": lambda t: [()], "pingresp": lambda t: [()],
    "gw_disconnect": lambda t: [()], "gw_others": lambda t: [()],
    "gw_publish": lambda t: [(q,) for q in (0, 1, 2, 3)],
    "register_ids": lambda t: [()],
    "searchgw": lambda t: [(f,) for f in FORMS], "advertise": lambda t: [()],
}


TABLES = {"H01": ("idmap", "topics", "pque", "eque"), "H02": ("eque",), "H03": ("idmap", "topics", "eque"), "H04": ("topics", "regack", "pque", "eque"),
          "H05": ("idmap", "topics", "eque"), "H06": ("idmap", "eque"), "H07": ("pque", "eque"), "H08": ("eque",), "H09": ("topics", "regack", "eque"), "H10": ()}


def run_cases(r, *names, least=1):
    cases = [("table", n) for n in TABLES.get(r.prop, tables.CONTRACTS)] + [(n,) + tuple(k) for n in names for k in CASES[n](r.tier)]

    def one(q, k):
        q.case_name = " ".join(str(x) for x in k)
        globals()[k[0]](q, k[1:])
    prog("gw:udp")          # compiled once, before the workers start
    pmap(r, cases, one)
    if ("table", "eque") in cases:
        r.rule("the tables and queues do what the handlers rely on: each operation on every list of 0 to %d entries with unknown contents" % (3 if r.tier == "quick" else 4))
        r.floor("table operations", r.counts.get("table_paths", 0), 20)
    if r.prop not in ("M01", "O01", "H10", "ALL"):
        r.floor("packets compared", r.counts.get("packets_compared", 0), least)


def H01(r):
    r.rule("a client's CONNECT becomes the broker's CONNECT field by field, through WILLTOPICREQ/WILLMSGREQ when it announces a will; a sleeping client gets CONNACK and its stored messages")
    run_cases(r, "connect", "willtopic", "willmsg", least=20)


def H02(r):
    run_cases(r, "connack", "pingresp", "gw_disconnect", least=7)


def H03(r):
    run_cases(r, "sn_publish", least=40)


def H04(r):
    run_cases(r, "gw_publish", "register_ids", least=20)


def H05(r):
    run_cases(r, "subscribe", "suback", "unsuback", least=40)


def H06(r):
    run_cases(r, "sn_puback", "sn_ack", "gw_puback", "gw_ack", least=10)


def H07(r):
    run_cases(r, "disconnect", "pingreq", least=10)


def H08(r):
    run_cases(r, "willupd", "others", "gw_others", "searchgw", "advertise", least=6)


def H09(r):
    run_cases(r, "register", "regack", least=6)


def H10(r):
    r.rule("after every message the client's state is the one the protocol prescribes")
    run_cases(r, *CASES)
    r.floor("paths", r.counts.get("paths", 0), 500)


def M01(r):
    r.rule("every access made while handling a message stays inside its object, of memory that is still allocated, through pointers that are not null; memory is freed once")
    run_cases(r, *CASES)
    r.floor("accesses", r.counts.get("accesses", 0), 10000)


def O01(r):
    r.rule("when a message has been handled every allocated object has been freed, queued, or stored in a table or the client")
    run_cases(r, *CASES)
    r.floor("paths", r.counts.get("paths", 0), 500)


REG = {"H10": H10, "M01": M01, "O01": O01, "H01": H01, "H02": H02, "H03": H03, "H04": H04, "H05": H05, "H06": H06, "H07": H07, "H08": H08, "H09": H09}
