"""Rules C01-C06: the MQTT-SN packet library."""
import build
from ai import *
from report import loc
from lin import Lin, ZERO, const, var, Facts

_prog = {}


def prog(kind):
    if kind not in _prog:
        _prog[kind] = build.load(kind)
    return _prog[kind]


MT = "MQTTSN_"
# serializer/deserializer type codes are taken from the spec (protocol constants), not from the code
TYPE = dict(advertise=0x00, searchgw=0x01, gwinfo=0x02, connect=0x04, connack=0x05, willtopicreq=0x06, willtopic=0x07, willmsgreq=0x08,
            willmsg=0x09, register=0x0A, regack=0x0B, publish=0x0C, puback=0x0D, pubcomp=0x0E, pubrec=0x0F, pubrel=0x10, subscribe=0x12,
            suback=0x13, unsubscribe=0x14, unsuback=0x15, pingreq=0x16, pingresp=0x17, disconnect=0x18, willtopicupd=0x1A,
            willtopicresp=0x1B, willmsgupd=0x1C, willmsgresp=0x1D)


def apis(p, prefix):
    out = {}
    for f in p.fns.values():
        if f.decl or not f.key.startswith(prefix):
            continue
        n = f.key[len(prefix):]
        if n in TYPE or n == "ack":
            out[n] = f
    return out


class Buf:
    pass


class Driver:
    """builds symbolic arguments for a codec function from its (resolved) parameter types"""

    def __init__(self, p, fn, cases):
        self.p = p
        self.fn = fn
        self.cases = cases
        self.args = []
        self.st = State()
        self.outs = []      # (index, ptype, obj, size)
        self.ins = {}       # index -> value
        self.buf = None
        self.buflen = None
        self.datas = {}     # obj -> size Lin of readable caller data

    def ge(self, L):
        f = self.st.facts.add_ge(L)
        if f is None:
            return False
        self.st.facts = f
        return True


def mstring(d, name, case):
    """symbolic MQTTSNString object; case 'c' (C string set, the length-delimited part holds anything), 'l' (length-delimited)"""
    p, st = d.p, d.st
    o = ("arg", name)
    st.null[o] = False
    setup_mstring(d, o, 0, case)
    return P(o)


def setup_mstring(d, o, base, case):
    st = d.st
    oc = d.p.off("MQTTSNString", "cstring") + base
    ol = d.p.off("MQTTSNString", "lenstring.len") + base
    od = d.p.off("MQTTSNString", "lenstring.data") + base
    co = ("*", o, Lin(oc), 0)
    do = ("*", o, Lin(od), 0)
    ln = var(("ld", o, Lin(ol), 4, 0))
    if case == "c":
        st.null[co] = False
    else:
        st.null[co] = True
        st.null[do] = False
        d.ge(ln)
        st.sizes[do] = ln
        d.datas[do] = ln
    return ln


TOPIC_CASES = ("normal", "predefined", "short")


def topic(d, name, case, longname):
    st = d.st
    o = ("arg", name)
    st.null[o] = False
    t = {"normal": 0, "predefined": 1, "short": 2}[case]
    d.ge(var(("ld", o, Lin(d.p.off("MQTTSN_topicid", "type")), 4, 0)) - t)
    d.ge(const(t) - var(("ld", o, Lin(d.p.off("MQTTSN_topicid", "type")), 4, 0)))
    if longname:
        n = var(("ld", o, Lin(d.p.off("MQTTSN_topicid", "data.long_.len")), 4, 0))
        do = ("*", o, Lin(d.p.off("MQTTSN_topicid", "data.long_.name")), 0)
        st.null[do] = False
        d.ge(n)
        st.sizes[do] = n
        d.datas[do] = n
    return P(o)


def ser_variants(fn):
    """argument cases for a serializer"""
    types = fn.ptypes[1:]
    n = fn.key
    vs = [()]
    if n in ("MQTTSNSerialize_publish", "MQTTSNSerialize_publishLength"):
        vs = [("normal", "long"), ("normal", ""), ("predefined", ""), ("predefined", "q3"), ("short", ""), ("short", "q3")]
    elif n.replace("Length", "") in ("MQTTSNSerialize_subscribe", "MQTTSNSerialize_unsubscribe"):
        vs = [("normal", "long"), ("predefined", ""), ("short", "")]
    elif n.replace("Length", "") in ("MQTTSNSerialize_connect", "MQTTSNSerialize_register", "MQTTSNSerialize_pingreq", "MQTTSNSerialize_willtopic",
               "MQTTSNSerialize_willtopicupd", "MQTTSNSerialize_willmsg", "MQTTSNSerialize_willmsgupd"):
        vs = [("c",), ("l",)]
    elif n.startswith("MQTTSNSerialize_gwinfo"):
        vs = [("addr",), ("noaddr",)]
    return vs


def make_ser(p, fn, v, wellformed=True):
    d = Driver(p, fn, v)
    st = d.st
    names = [fn.vnames.get(a["id"], "a%d" % i) for i, a in enumerate(fn.args)]
    types = fn.ptypes[1:]
    n = fn.key
    base = n[len("MQTTSNSerialize_"):].replace("Length", "")
    if len(types) != len(fn.args):
        raise AnalysisBroken("parameter list of %s not resolvable" % n)
    nstr = 0
    for i, (t, a) in enumerate(zip(types, fn.args)):
        if i == 0 and t == "unsigned char*":
            o = ("buf", "buf")
            bl = sym("buflen", 32)
            st.sizes[o] = bl[2]
            st.mem[o] = Content(("undef", 0))
            d.buf, d.buflen = o, bl[2]
            v0 = P(o)
        elif i == 1 and d.buf:
            v0 = I(32, d.buflen)
        elif t == "unsigned char*":    # payload / gateway address
            o = ("arg", "data%d" % i)
            d.dataptr = o
            if base == "gwinfo":
                st.null[o] = v[0] == "noaddr"
            else:
                st.null[o] = False
            v0 = P(o)
        elif a["ty"] == "ptr":
            # structure by pointer or by value: identified by the API's parameter
            if base == "connect":
                o = ("arg", "options")
                st.null[o] = False
                d.strlen = setup_mstring(d, o, p.off("MQTTSNPacket_connectData", "clientID"), v[0])
                d.strobj = (o, p.off("MQTTSNPacket_connectData", "clientID"))
                v0 = P(o)
                for fld in ("cleansession", "willFlag"):
                    d.ge(const(1) - var(("ld", o, Lin(p.off("MQTTSNPacket_connectData", fld)), 1, 0)))
            elif base in ("publish", "subscribe", "unsubscribe"):
                v0 = topic(d, "topic", v[0], v[1] == "long")
            else:
                v0 = mstring(d, "str", v[0])
                d.strobj = (v0[1], 0)
        else:
            w = width_of(a["ty"])
            v0 = sym("in_" + str(i), w)
        d.args.append(v0)
        d.ins[i] = v0
    # value preconditions of the API
    if base == "publish":
        if n.endswith("Length"):
            pay, q = d.args[0], d.args[2]
        else:
            pay, q = d.args[8], d.args[3]
            st.sizes[d.dataptr] = pay[2]
            d.datas[d.dataptr] = pay[2]
        d.ge(pay[2])
        if v[1] in ("long", "q3"):
            st.facts = st.facts.add_eq(q[2] - 3)
        else:
            d.ge(q[2])
            d.ge(const(2) - q[2])
        if not n.endswith("Length"):
            d.ge(const(1) - d.args[2][2])
            d.ge(const(1) - d.args[4][2])
    if base == "subscribe" and not n.endswith("Length"):
        d.ge(const(1) - d.args[2][2])
        d.ge(d.args[3][2])
        d.ge(const(3) - d.args[3][2])
    if base == "suback":
        d.ge(d.args[2][2])
        d.ge(const(3) - d.args[2][2])
    if base in ("willtopic", "willtopicupd"):
        d.ge(d.args[2][2])
        d.ge(const(3) - d.args[2][2])
        d.ge(const(1) - d.args[3][2])
    if base == "gwinfo" and not n.endswith("Length"):
        st.sizes[d.dataptr] = d.args[3][2]
        d.datas[d.dataptr] = d.args[3][2]
    if base in ("connack", "willtopicresp", "willmsgresp"):
        d.ge(d.args[2][2])
        d.ge(const(127) - d.args[2][2])
    if base == "disconnect":
        x = d.args[-1][2]
        d.ge(const(65535) - x)
    if base == "register" and n.endswith("Length"):
        d.ge(d.args[0][2])
    return d


def run_ser(p, fn, d, hook=None, limit=False):
    ip = Interp(p)
    ip.on_access = hook
    if limit:
        for n in d.datas.values():
            d.ge(const(65535) - n)
        # precondition: every length the serializer could return is one the length field can express
        for o in ip.run(fn, d.args, d.st.copy()):
            if o.kind == "ret" and const_rc(o.st, o.val) == "ok":
                d.ge(const(65535) - o.val[2])
    outs = ip.run(fn, d.args, d.st.copy())
    return ip, [o for o in outs if o.kind == "ret"]


def const_rc(st, v):
    """sign of a return code: 'ok' (>0 proven), 'fail' (<=0 proven) or None"""
    if v[0] != "I":
        return None
    if st.facts.entails(v[2] - 1):
        return "ok"
    if st.facts.entails(-v[2]):
        return "fail"
    return None


def vname(fn, v):
    return fn.key + ("[" + ",".join(x for x in v if x) + "]" if any(v) else "")


# ------------------------------------------------------------------ C01
def bounds_hook(r, prop, fn, v, kinds, region):
    """obligation for every access to an object of `region` (obj -> size)"""
    def hook(st, kind, ptr, n, ins, fr):
        if ptr[0] == "P":
            o, off = ptr[1], ptr[2]
            if o[0] in ("alloca", "g", "heap"):
                return
            size = st.sizes.get(o)
            if size is None:
                return
            what = "store" if kind == "store" else "load"
            if what not in kinds.get(o, "store load"):
                pass
            ok = st.facts.entails(off) and st.facts.entails(size - off - n) and (not n.t or st.facts.entails(n))
            if not ok and not n.t and n.c == 0:
                ok = True
            if not ok and n.t and st.facts.entails_eq(n):
                ok = True
            where = loc(fr.fn, ins, fr)
            key = "%s: %s of %s in %s" % (vname(fn, v), what, oname(o), fr.fn.key)
            r.ob(key, ok, "%d..: %s of %s byte(s) at offset %s of %s (size %s) not proved in bounds" % (0, what, n, off, oname(o), size), where)
            r.count("accesses")
        elif ptr[0] == "N":
            ok = not n.t and n.c == 0 or (n.t and st.facts.entails_eq(n))
            r.ob("%s: null dereference in %s" % (vname(fn, v), fr.fn.key), ok, "access of %s bytes through a null pointer" % n, loc(fr.fn, ins, fr))
    return hook


def oname(o):
    if o[0] in ("buf", "arg", "out"):
        return o[1]
    if o[0] == "*":
        return "*(%s+%s)" % (oname(o[1]), o[2])
    return str(o[0])


def C01(r):
    p = prog("lib")
    r.rule("every store through the output buffer parameter, and every load of caller data, of every MQTTSNSerialize_* function lies inside the object whose size the caller passed")
    r.assume("lengths passed by the caller are non-negative and describe the data they accompany; C strings are NUL-terminated")
    fs = apis(p, "MQTTSNSerialize_")
    n = 0
    for name, fn in sorted(fs.items()):
        for v in ser_variants(fn):
            d = make_ser(p, fn, v)
            ip, outs = run_ser(p, fn, d, bounds_hook(r, "C01", fn, v, {}, None))
            r.used(ip)
            n += 1
            r.ob("%s: analysed" % vname(fn, v), len(outs) > 0, "no return path found", loc(fn))
    # length-delimited writers used directly by the gateway
    r.floor("serializers", len(fs), 27)
    r.floor("serializer cases", n, 38)



# ------------------------------------------------------------------ helpers on packets
def decode(p, st, buf, buflen, hook=None):
    """abstract MQTTSNPacket_decode over the current memory -> [(state, lenlen Lin, value Lin)]"""
    fn = p.fn("MQTTSNPacket_decode")
    o = ("out", "decoded")
    st = st.copy()
    st.mem[o] = Content(("undef", 0))
    st.sizes[o] = Lin(4)
    ip = Interp(p)
    res = []
    for out in ip.run(fn, [P(buf), I(32, buflen), P(o)], st):
        v = ip.load(out.st, o, ZERO, 4, "i32")
        res.append((out.st, out.val[2], v[2], ip))
    return res


def undef(v):
    """does a loaded value come from memory the analysed code never wrote"""
    if v[0] == "I":
        return any(a[0] == "ld" and a[4] == "undef" for a, _ in v[2].t)
    if v[0] == "P":
        return v[1][0] == "*" and v[1][3] == "undef"
    return v[0] == "U"


def fits(st, rc):
    """restrict to packets whose length the 16 bit length field can express"""
    f = st.facts.add_ge(const(65535) - rc)
    if f is None:
        return False
    st.facts = f
    return True


# ------------------------------------------------------------------ C02
def C02(r):
    p = prog("lib")
    r.rule("on every success path of a serializer the return value R equals the number of bytes written (all of 0..R-1), the length field in front decodes to R, "
           "and R is the value MQTTSNPacket_len(..Length()) announces; every failure path returns <= 0 with the buffer untouched and only when the buffer is too short")
    r.assume("total packet length at most 65535 (what the length field can express)")
    fs = apis(p, "MQTTSNSerialize_")
    n = 0
    for name, fn in sorted(fs.items()):
        for v in ser_variants(fn):
            d = make_ser(p, fn, v)
            written = {}
            ip, outs = run_ser(p, fn, d, limit=True)
            r.used(ip)
            vn = vname(fn, v)
            succ, fail = [], []
            for o in outs:
                k = const_rc(o.st, o.val)
                r.ob("%s: return value classifies as length or error" % vn, k is not None, "return value %s is neither provably positive nor provably <= 0" % (o.val,), loc(fn))
                (succ if k == "ok" else fail).append(o)
            r.ob("%s: can succeed" % vn, bool(succ), "no successful path", loc(fn))
            r.ob("%s: rejects a short buffer" % vn, bool(fail), "no failing path: the buffer length is never checked", loc(fn))
            for o in succ:
                if not fits(o.st, o.val[2]):
                    continue
                rc = o.val[2]
                # bytes written: contiguous cover of [0, rc)
                end = cover(o.st, o.st.mem[d.buf])
                r.ob("%s: returns the number of bytes written" % vn, end is not None and o.st.facts.entails_eq(end - rc),
                     "returned %s but bytes written end at %s" % (rc, end), loc(fn))
                for st2, ll, val, ip2 in decode(p, o.st, d.buf, rc):
                    r.ob("%s: length field equals returned length" % vn, st2.facts.entails(ll - 1) and st2.facts.entails_eq(val - rc),
                         "length field decodes to %s, packet has %s bytes" % (val, rc), loc(fn))
                    n += 1
            for o in fail:
                r.ob("%s: nothing written on failure" % vn, not o.st.mem[d.buf].log, "buffer written although the call fails", loc(fn))
                for s in succ:
                    need = s.val[2]
                    f = o.st.facts
                    for L in s.st.facts.ge:
                        if any(a[0] == "sym" and a[1] == "buflen" for a, _ in L.t):
                            continue
                        f = f.add_ge(L)
                        if f is None:
                            break
                    if f is not None:
                        r.ob("%s: fails only when the buffer is too short" % vn, f.entails(need - d.buflen - 1),
                             "fails although %s bytes could fit in buflen" % need, loc(fn))
            # announced length
            lf = p.bykey.get("MQTTSNSerialize_%sLength" % name)
            if lf:
                lf = lf[0]
                args = length_args(p, lf, fn, d)
                for o in succ:
                    if not fits(o.st, o.val[2]):
                        continue
                    ip3 = Interp(p)
                    for o2 in ip3.run(lf, args, o.st.copy()):
                        for o3 in ip3.run(p.fn("MQTTSNPacket_len"), [o2.val], o2.st):
                            r.ob("%s: announced length equals returned length" % vn, o3.st.facts.entails_eq(o3.val[2] - o.val[2]),
                                 "MQTTSNPacket_len(%s()) = %s, serializer returns %s" % (lf.key, o3.val[2], o.val[2]), loc(lf))
                            r.count("announced_lengths")
    # the length codec itself
    length_codec(r, p)
    r.floor("serializers", len(fs), 27)
    r.floor("decoded lengths", n, 38)
    r.floor("announced lengths", r.counts.get("announced_lengths", 0), 10)


def length_args(p, lf, fn, d):
    """arguments of the ...Length function from the serializer's (matched by type)"""
    out = []
    used = set()
    ft = fn.ptypes[1:]
    for t in lf.ptypes[1:]:
        cand = [i for i in range(2, len(ft)) if ft[i] == t and i not in used]
        if lf.key.endswith("publishLength"):
            cand = {"int": [8] if 8 not in used else [3], "": [6]}[t]
        if lf.key.endswith("registerLength"):
            ip = Interp(p)
            o, b = d.strobj
            n = d.st.sizes.get(("*", o, Lin(p.off("MQTTSNString", "lenstring.data") + b), 0))
            if n is None:
                n = ip.strlen_of(d.st, P(("*", o, Lin(p.off("MQTTSNString", "cstring") + b), 0)), None)
            out.append(I(32, n))
            continue
        if not cand:
            raise AnalysisBroken("cannot match parameter of " + lf.key)
        used.add(cand[0])
        out.append(d.args[cand[0]])
    return out


def cover(st, c):
    """end offset E such that the write log covers exactly [0, E), or None"""
    if c.base[0] not in ("undef",):
        return None
    segs = []
    for e in c.log:
        if e[0] == "w":
            segs.append((e[1], Lin(e[2])))
        elif e[0] in ("cp", "set"):
            segs.append((e[1], e[2]))
        else:
            return None
    end = ZERO
    rest = list(segs)
    while rest:
        for i, (o, n) in enumerate(rest):
            if st.facts.entails(end - o) and st.facts.entails(o):
                if st.facts.entails(o + n - end):
                    end = o + n
                elif not st.facts.entails(end - o - n):
                    continue
                del rest[i]
                break
        else:
            return None
    return end


def length_codec(r, p):
    # MQTTSNPacket_decode against the protocol definition
    fn = p.fn("MQTTSNPacket_decode")
    st = State()
    b = ("buf", "buf")
    bl = sym("buflen", 32)[2]
    st.sizes[b] = bl
    st.mem[b] = Content(("sym", 0))
    B = lambda i: var(("ld", b, Lin(i), 1, 0))
    seen = set()
    for s2, ll, val, ip in decode(p, st, b, bl):
        r.used(ip)
        f = s2.facts
        if f.entails(-ll):
            seen.add("err")
            # error only when the length field is not completely there
            ok = f.entails(-bl) or (f.entails(const(2) - bl) and f.entails_eq(B(0) - 1))
            r.ob("MQTTSNPacket_decode: fails only on an incomplete length field", ok, "returns %s with facts %s" % (ll, f.ge), loc(fn))
        elif f.entails_eq(ll - 1):
            seen.add(1)
            r.ob("MQTTSNPacket_decode: one byte form", f.entails(bl - 1) and f.entails_ne(B(0) - 1) and f.entails_eq(val - B(0)), "value %s" % val, loc(fn))
        elif f.entails_eq(ll - 3):
            seen.add(3)
            r.ob("MQTTSNPacket_decode: three byte form", f.entails(bl - 3) and f.entails_eq(B(0) - 1) and same_int(f, 32, val, B(1).scale(256) + B(2)), "value %s" % val, loc(fn))
        else:
            r.ob("MQTTSNPacket_decode: consumes 1 or 3 bytes", False, "returns %s" % ll, loc(fn))
    r.ob("MQTTSNPacket_decode: both forms and the error are reachable", seen == {"err", 1, 3}, "reached %s" % seen, loc(fn))
    # encode . len consistency for every content length
    ln = sym("content", 32)
    st = State()
    st.facts = st.facts.add_ge(ln[2] - 1).add_ge(const(65532) - ln[2])   # at least the message type
    ip = Interp(p)
    for o in ip.run(p.fn("MQTTSNPacket_len"), [ln], st):
        tot = o.val[2]
        s = o.st
        s.mem[b] = Content(("undef", 0))
        s.sizes[b] = Lin(3)
        for o2 in ip.run(p.fn("MQTTSNPacket_encode"), [P(b), I(32, tot)], s.copy()):
            k = o2.val[2]
            r.ob("MQTTSNPacket_encode: length field size agrees with MQTTSNPacket_len", o2.st.facts.entails_eq(tot - k - ln[2]),
                 "content %s: total %s but %s length bytes" % (ln[2], tot, k), loc(p.fn("MQTTSNPacket_encode")))
            for s3, ll, val, _ in decode(p, o2.st, b, Lin(3)):
                r.ob("MQTTSNPacket_decode: inverts MQTTSNPacket_encode", s3.facts.entails_eq(val - tot) and s3.facts.entails_eq(ll - k), "encoded %s decoded %s" % (tot, val), loc(fn))
                r.count("length_codec")
    r.floor("length codec cases", r.counts.get("length_codec", 0), 2)


# ------------------------------------------------------------------ deserializers
def make_des(p, fn):
    """arguments: output objects, buffer of symbolic length"""
    types = fn.ptypes[1:]
    st = State()
    d = Driver(p, fn, ())
    d.st = st
    if len(types) != len(fn.args):
        raise AnalysisBroken("parameter list of %s not resolvable" % fn.key)
    # the buffer is the last (unsigned char*, int) pair
    bi = max(i for i in range(len(types) - 1) if types[i] == "unsigned char*" and types[i + 1] == "int")
    for i, (t, a) in enumerate(zip(types, fn.args)):
        if i == bi:
            o = ("buf", "buf")
            st.mem[o] = Content(("sym", 0))
            d.buf = o
            d.args.append(P(o))
        elif i == bi + 1:
            L = sym("buflen", 32)
            d.buflen = L[2]
            st.sizes[d.buf] = L[2]
            d.args.append(L)
        elif a["ty"] == "ptr":
            o = ("out", fn.vnames.get(a["id"], "out%d" % i))
            st.mem[o] = Content(("undef", 0))
            d.args.append(P(o))
            d.outs.append((i, t, o))
        else:
            d.args.append(sym("in%d" % i, width_of(a["ty"])))
    d.bi = bi
    return d


OUTSIZE = {"int*": 4, "unsigned char*": 1, "unsigned short*": 2, "unsigned char**": 8}


def C03(r):
    p = prog("lib")
    r.rule("every load through the received buffer, in every MQTTSNDeserialize_* function and the packet readers, lies inside [0, buflen) for every buffer content and every buflen")
    fs = apis(p, "MQTTSNDeserialize_")
    n = 0
    for name, fn in sorted(fs.items()):
        d = make_des(p, fn)
        ip = Interp(p)
        ip.on_access = bounds_hook(r, "C03", fn, (), {}, None)
        outs = ip.run(fn, d.args, d.st.copy())
        r.used(ip)
        n += 1
        r.ob("%s: analysed" % fn.key, bool(outs), "no return path", loc(fn))
    for name in ("MQTTSNPacket_read_nb", "MQTTSNPacket_decode", "MQTTSNPacket_read"):
        fn = p.fn(name)
        st = State()
        b = ("buf", "buf")
        bl = sym("buflen", 32)
        st.sizes[b] = bl[2]
        st.mem[b] = Content(("sym", 0))
        args = [P(b), bl]
        models = {}
        if name == "MQTTSNPacket_decode":
            st.mem[("out", "value")] = Content(("undef", 0))
            args.append(P(("out", "value")))
        if name == "MQTTSNPacket_read":
            args.append(P(("getfn", "getfn")))

            def got(ip, st, a, ins, fr, callee):
                # the reader callback returns at most the length it was offered
                v = sym(st.fresh("got"), 32)
                st.facts = st.facts.add_ge(bl[2] - v[2])
                ip.havoc(st, b)
                return [(st, v)]
            models["<indirect>"] = got
        ip = Interp(p, models)
        ip.on_access = bounds_hook(r, "C03", fn, (), {}, None)
        outs = ip.run(fn, args, st)
        r.used(ip)
        n += 1
        r.ob("%s: analysed" % fn.key, bool(outs), "no return path", loc(fn))
    r.floor("readers", n, 28)
    r.floor("accesses", r.counts.get("accesses", 0), 100)


def C05(r):
    p = prog("lib")
    r.rule("a packet a serializer produced carries its message type code after the length field; a deserializer succeeds only on its own code; MQTTSNPacket_name agrees with the codes")
    ns = nd = 0
    for name, fn in sorted(apis(p, "MQTTSNSerialize_").items()):
        for v in ser_variants(fn):
            d = make_ser(p, fn, v)
            ip, outs = run_ser(p, fn, d)
            r.used(ip)
            for o in outs:
                if const_rc(o.st, o.val) != "ok" or not fits(o.st, o.val[2]):
                    continue
                for st2, ll, val, ip2 in decode(p, o.st, d.buf, o.val[2]):
                    t = ip2.load(st2, d.buf, ll, 1, "i8")
                    if name == "ack":
                        want = d.args[2][2]
                        st2.facts = st2.facts.add_ge(const(255) - want) or st2.facts
                    else:
                        want = Lin(TYPE[name])
                    r.ob("%s: type code" % vname(fn, v), same_int(st2.facts, 8, t[2], want), "type byte is %s, expected %s" % (t[2], want), loc(fn))
                    ns += 1
    for name, fn in sorted(apis(p, "MQTTSNDeserialize_").items()):
        d = make_des(p, fn)
        ip = Interp(p)
        for o in ip.run(fn, d.args, d.st.copy()):
            k = const_rc(o.st, o.val)
            r.ob("%s: return value classifies" % fn.key, k is not None, "return value %s" % (o.val,), loc(fn))
            if k != "ok":
                continue
            for st2, ll, val, ip2 in decode(p, o.st, d.buf, d.buflen):
                t = ip2.load(st2, d.buf, ll, 1, "i8")
                codes = [TYPE[name]] if name != "ack" else [TYPE[x] for x in ("pubrec", "pubrel", "pubcomp")]
                f = st2.facts
                # every other code must be impossible
                for c in range(256):
                    if c in codes:
                        continue
                    if f.add_eq(t[2] - c) is not None:
                        r.ob("%s: accepts only its own type" % fn.key, False, "type code 0x%02x is accepted" % c, loc(fn))
                        break
                else:
                    r.ob("%s: accepts only its own type" % fn.key, True)
                nd += 1
        r.used(ip)
    # names
    fn = p.fn("MQTTSNPacket_name")
    names = {v: k.upper() for k, v in TYPE.items()}
    names[0xfe] = "ENCAPSULATED"
    nn = 0
    for c in list(range(-3, 0)) + list(range(0, 0x1e)) + [0x1e, 0x20, 0xfe, 0xff]:
        ip = Interp(p)
        for o in ip.run(fn, [I(32, c)], State()):
            ok = False
            s = None
            if o.val[0] == "P" and o.val[1][0] == "g" and not o.val[2].t:
                s = p.cstr(o.val[1][1])
            if c in names:
                ok = s == names[c]
            else:
                ok = s is not None and s not in names.values()
            r.ob("MQTTSNPacket_name(0x%02x)" % (c & 0xff if c >= 0 else c), ok, "name is %r" % s, loc(fn))
            nn += 1
        r.used(ip)
    r.floor("serialized packets", ns, 38)
    r.floor("deserializer success paths", nd, 27)
    r.floor("names", nn, 37)


# ------------------------------------------------------------------ C06
def out_cells(p, name, fn, st, ip, obj, t, rcst):
    """[(label, off, size, ty)] cells that must be set for an output parameter"""
    if t in OUTSIZE:
        return [("*" + obj[1], 0, OUTSIZE[t], "ptr" if t.endswith("**") else "i%d" % (8 * OUTSIZE[t]))]
    return None


def C06(r):
    p = prog("lib")
    r.rule("when a deserializer reports success every output parameter has been assigned, and every (pointer, length) output lies inside the received packet")
    n = 0
    for name, fn in sorted(apis(p, "MQTTSNDeserialize_").items()):
        d = make_des(p, fn)
        ip = Interp(p)
        for o in ip.run(fn, d.args, d.st.copy()):
            if const_rc(o.st, o.val) != "ok":
                continue
            st = o.st
            n += 1
            lens = {}
            for i, t, obj in d.outs:
                if t in OUTSIZE:
                    ty = "ptr" if t.endswith("**") else "i%d" % (8 * OUTSIZE[t])
                    v = ip.load(st, obj, ZERO, OUTSIZE[t], ty)
                    r.ob("%s: sets *%s" % (fn.key, obj[1]), not undef(v), "success leaves *%s unassigned" % obj[1], loc(fn))
                    lens[i] = v
                elif name == "connect":
                    for fld, ty in (("cleansession", "i8"), ("willFlag", "i8"), ("duration", "i16")):
                        v = ip.load(st, obj, Lin(p.off("MQTTSNPacket_connectData", fld)), 1 if ty == "i8" else 2, ty)
                        r.ob("%s: sets %s" % (fn.key, fld), not undef(v), "success leaves %s unassigned" % fld, loc(fn))
                    check_mstring(r, p, fn, ip, st, d, obj, p.off("MQTTSNPacket_connectData", "clientID"))
                elif name in ("publish", "subscribe", "unsubscribe"):
                    check_topic(r, p, fn, name, ip, st, d, obj, lens)
                else:
                    check_mstring(r, p, fn, ip, st, d, obj, 0)
            for i, t, obj in d.outs:
                if t == "unsigned char**":
                    li = i + 1 if name == "publish" else i - 1
                    slice_ob(r, "%s: *%s" % (fn.key, obj[1]), st, d, lens[i], lens[li][2], fn)
        r.used(ip)
    r.floor("success paths", n, 27)
    r.floor("slices", r.counts.get("slices", 0), 10)


def slice_ob(r, key, st, d, ptr, n, fn):
    f = st.facts
    if ptr[0] == "N":
        ok = f.entails_eq(n)
    else:
        ok = ptr[0] == "P" and ptr[1] == d.buf and f.entails(n) and f.entails(ptr[2]) and f.entails(d.buflen - ptr[2] - n)
    r.count("slices")
    r.ob(key + " slice lies in the packet", ok, "pointer %s length %s" % (ptr, n), loc(fn))


def check_mstring(r, p, fn, ip, st, d, obj, base):
    c = ip.load(st, obj, Lin(base + p.off("MQTTSNString", "cstring")), 8, "ptr")
    n = ip.load(st, obj, Lin(base + p.off("MQTTSNString", "lenstring.len")), 4, "i32")
    q = ip.load(st, obj, Lin(base + p.off("MQTTSNString", "lenstring.data")), 8, "ptr")
    nm = "%s: %s" % (fn.key, obj[1])
    r.ob(nm + " cstring is NULL", c[0] == "N", "a caller's stale C string pointer survives and takes precedence over the received bytes", loc(fn))
    r.ob(nm + " length and data set", not undef(n) and not undef(q), "unassigned", loc(fn))
    if n[0] == "I":
        slice_ob(r, nm, st, d, q, n[2], fn)


def check_topic(r, p, fn, name, ip, st, d, obj, lens):
    T = lambda f, n, ty: ip.load(st, obj, Lin(p.off("MQTTSN_topicid", f)), n, ty)
    t = T("type", 4, "i32")
    nm = "%s: %s" % (fn.key, obj[1])
    r.ob(nm + ".type set", not undef(t), "unassigned", loc(fn))
    for case in (0, 1, 2):
        f = st.facts.add_eq(t[2] - case)
        if f is None:
            continue
        s2 = st.copy()
        s2.facts = f
        if case == 1 or (case == 0 and name == "publish" and not f.entails_eq(lens[1][2] - 3)):
            if case == 0 and f.add_ne(lens[1][2] - 3) is None:
                pass
            v = ip.load(s2, obj, Lin(p.off("MQTTSN_topicid", "data.id")), 2, "i16")
            r.ob(nm + ".data.id set for type %d" % case, not undef(v), "unassigned", loc(fn))
        elif case == 2:
            for k in range(2):
                v = ip.load(s2, obj, Lin(p.off("MQTTSN_topicid", "data.short_name") + k), 1, "i8")
                r.ob(nm + ".data.short_name[%d] set" % k, not undef(v), "unassigned", loc(fn))
        else:
            nn = ip.load(s2, obj, Lin(p.off("MQTTSN_topicid", "data.long_.len")), 4, "i32")
            q = ip.load(s2, obj, Lin(p.off("MQTTSN_topicid", "data.long_.name")), 8, "ptr")
            r.ob(nm + ".data.long_ set", not undef(nn) and not undef(q), "unassigned", loc(fn))
            slice_ob(r, nm + ".data.long_", s2, d, q, nn[2], fn)


# ------------------------------------------------------------------ C04 / C07
def in_string(d, ip, st):
    """(data object, length Lin) of the string / slice argument of a serializer case"""
    p = d.p
    o, b = d.strobj
    if d.cases[0] == "c":
        co = ("*", o, Lin(p.off("MQTTSNString", "cstring") + b), 0)
        return co, ip.strlen_of(st, P(co), None)
    return ("*", o, Lin(p.off("MQTTSNString", "lenstring.data") + b), 0), var(("ld", o, Lin(p.off("MQTTSNString", "lenstring.len") + b), 4, 0))


def in_topic(d, f, n, ty):
    return var(("ld", ("arg", "topic"), Lin(d.p.off("MQTTSN_topicid", f)), n, 0))


def same_bytes(ip, st, a, aoff, b, boff, n):
    """are the n bytes at a+aoff those at b+boff"""
    f = st.facts
    if f.entails(-n):
        return True
    i = sym(st.fresh("idx"), 32)[2]
    f = f.add_ge(i)
    f = f and f.add_ge(n - i - 1)
    if f is None:
        return True
    return same_at(ip, st, a, aoff, b, boff, i, f, 8)


def same_at(ip, st, a, aoff, b, boff, i, f, depth):
    s = st.copy()
    s.facts = f
    x = ip.load(s, a, aoff + i, 1, "i8")
    y = ip.load(s, b, boff + i, 1, "i8")
    if x[0] == "I" and y[0] == "I" and not undef(x) and same_int(s.facts, 8, x[2], y[2]):
        return True
    if not depth:
        return False
    # the bytes may have been written piece by piece: one piece at a time
    for o, off in ((a, aoff), (b, boff)):
        c = st.mem.get(o)
        for e in (c.log if c is not None else ()):
            if e[0] == "w" or e[1] is None or e[2] is None:
                continue
            for cut in (e[1] - off, e[1] + e[2] - off):
                lo, hi = f.add_ge(cut - i - 1), f.add_ge(i - cut)
                if lo is None or hi is None or f.entails(cut - i - 1) or f.entails(i - cut):
                    continue
                return same_at(ip, st, a, aoff, b, boff, i, lo, depth - 1) and same_at(ip, st, a, aoff, b, boff, i, hi, depth - 1)
    return False


def slice_eq(ip, st, ptr, n, want, wn, woff=ZERO):
    f = st.facts
    if not f.entails_eq(n - wn):
        return "length is %s, %s expected" % (n, wn)
    if f.entails(-wn):
        return None
    if ptr[0] != "P":
        return "data pointer is %s" % (ptr,)
    if not same_bytes(ip, st, ptr[1], ptr[2], want, woff, wn):
        return "bytes differ"
    return None


def C04(r):
    p = prog("lib")
    r.rule("for every MQTTSNSerialize_X / MQTTSNDeserialize_X pair: applied to the bytes and the length the serializer produced, the deserializer succeeds and returns the values that went in")
    r.assume("qos 0..3, boolean flags 0/1, return codes 0..127, total length <= 65535 and at least one topic character where the protocol has one")
    ser, des = apis(p, "MQTTSNSerialize_"), apis(p, "MQTTSNDeserialize_")
    for extra in ("pubrec", "pubrel", "pubcomp"):
        des[extra] = des["ack"]
    n = 0
    for name, fn in sorted(ser.items()):
        if name not in des:
            continue
        df = des[name]
        for v in ser_variants(fn):
            d = make_ser(p, fn, v)
            if name in ("subscribe", "unsubscribe") and v[1] == "long":
                pass
            if name == "ack":
                d.st.facts = d.st.facts.add_ge(d.args[2][2] - TYPE["pubcomp"]).add_ge(const(TYPE["pubrel"]) - d.args[2][2]).add_ne(d.args[2][2] - 0x11) or d.st.facts
                d.st.facts = d.st.facts.add_ge(const(TYPE["pubrel"]) - d.args[2][2])
            ip, outs = run_ser(p, fn, d, limit=True)
            r.used(ip)
            vn = vname(fn, v)
            for o in outs:
                if const_rc(o.st, o.val) != "ok":
                    continue
                dd = make_des(p, df)
                st = o.st
                for _, _, obj in dd.outs:
                    st.mem[obj] = Content(("undef", 0))
                st.sizes[d.buf] = o.val[2]
                args = list(dd.args)
                args[dd.bi] = P(d.buf)
                args[dd.bi + 1] = o.val
                ip2 = Interp(p)
                for o2 in ip2.run(df, args, st.copy()):
                    k = const_rc(o2.st, o2.val)
                    r.ob("%s -> %s: accepted" % (vn, df.key), k == "ok", "the deserializer can return %s for a packet the serializer produced" % (o2.val,), loc(df))
                    n += 1
                    if k == "ok":
                        roundtrip(r, p, name, fn, df, d, dd, ip2, o2.st, vn)
                r.used(ip2)
    r.floor("round trips", n, 36)
    r.floor("values compared", r.counts.get("values", 0), 60)


def roundtrip(r, p, name, fn, df, d, dd, ip, st, vn):
    def ob(label, why):
        r.count("values")
        r.ob("%s -> %s: %s" % (vn, df.key, label), why is None, why or "", loc(df))

    def ob_int(label, w, got, want):
        ok = got[0] == "I" and not undef(got) and same_int(st.facts, w, got[2], want)
        ob(label, None if ok else "returns %s, %s was serialized" % (got, want))

    ins = list(range(2, len(fn.args)))
    outs = list(dd.outs)
    if name in ("pubrec", "pubrel", "pubcomp"):
        t = ip.load(st, outs[0][2], ZERO, 1, "i8")
        ob_int("type", 8, t, Lin(TYPE[name]))
        outs = outs[1:]
    if len(ins) != len(outs):
        raise AnalysisBroken("parameters of %s and %s do not pair up" % (fn.key, df.key))
    for i, (oi, t, obj) in zip(ins, outs):
        lab = "parameter %d" % (i - 1)
        a = d.args[i]
        if t == "unsigned char**":
            q = ip.load(st, obj, ZERO, 8, "ptr")
            other = [x for x in outs if x[0] == (oi + 1 if name == "publish" else oi - 1)][0]
            w = OUTSIZE[other[1]]
            ln = ip.load(st, other[2], ZERO, w, "i%d" % (8 * w))
            wn = d.args[i + 1 if name == "publish" else i - 1][2]
            if d.cases == ("noaddr",):
                wn = ZERO
            if wn.t or wn.c:
                s2 = st
                ob(lab + " bytes", slice_eq(ip, s2, q, ln[2], d.dataptr, wn))
        elif t in OUTSIZE:
            w = 8 * OUTSIZE[t]
            got = ip.load(st, obj, ZERO, OUTSIZE[t], "i%d" % w)
            if name == "disconnect" and st.facts.entails(-a[2]):
                # no duration: any value <= 0 will do
                ok = got[0] == "I" and st.facts.entails(-got[2])
                ob(lab, None if ok else "returns %s for a packet without duration" % (got,))
                continue
            if d.cases == ("noaddr",) and i == 3:
                ob_int(lab, w, got, ZERO)
            else:
                ob_int(lab, min(w, a[1]), got, a[2])
        elif name == "connect":
            for fld, n in (("cleansession", 1), ("willFlag", 1), ("duration", 2)):
                off = Lin(p.off("MQTTSNPacket_connectData", fld))
                ob_int(fld, 8 * n, ip.load(st, obj, off, n, "i%d" % (8 * n)), var(("ld", ("arg", "options"), off, n, 0)))
            ob("clientID", string_eq(p, ip, st, obj, p.off("MQTTSNPacket_connectData", "clientID"), d))
        elif name in ("publish", "subscribe", "unsubscribe"):
            T = lambda f, n, ty: ip.load(st, obj, Lin(p.off("MQTTSN_topicid", f)), n, ty)
            case = {"normal": 0, "predefined": 1, "short": 2}[d.cases[0]]
            ob_int("topic type", 32, T("type", 4, "i32"), Lin(case))
            if d.cases[1] == "long":
                q = T("data.long_.name", 8, "ptr")
                ob("topic name", slice_eq(ip, st, q, T("data.long_.len", 4, "i32")[2],
                                          ("*", ("arg", "topic"), Lin(p.off("MQTTSN_topicid", "data.long_.name")), 0), in_topic(d, "data.long_.len", 4, "i32")))
            elif case == 2:
                for k in range(2):
                    off = Lin(p.off("MQTTSN_topicid", "data.short_name") + k)
                    ob_int("short name", 8, ip.load(st, obj, off, 1, "i8"), var(("ld", ("arg", "topic"), off, 1, 0)))
            else:
                ob_int("topic id", 16, T("data.id", 2, "i16"), in_topic(d, "data.id", 2, "i16"))
        else:
            ob("string", string_eq(p, ip, st, obj, 0, d))


def string_eq(p, ip, st, obj, base, d):
    c = ip.load(st, obj, Lin(base + p.off("MQTTSNString", "cstring")), 8, "ptr")
    if c[0] != "N":
        return "cstring is %s" % (c,)
    n = ip.load(st, obj, Lin(base + p.off("MQTTSNString", "lenstring.len")), 4, "i32")
    q = ip.load(st, obj, Lin(base + p.off("MQTTSNString", "lenstring.data")), 8, "ptr")
    wo, wn = in_string(d, ip, st)
    return slice_eq(ip, st, q, n[2], wo, wn)


# the MQTT-SN 1.2 message bodies (after the message type); numbers are bytes, names refer to API parameters
# F(...) flags byte: bits dup 7, qos 6-5, retain 4, will 3, cleanSession 2, topicIdType 1-0
def F(**k):
    return ("flags", k)


BODY = {
    "advertise": [("p", 0, 1), ("p", 1, 2)],
    "searchgw": [("p", 0, 1)],
    "gwinfo": [("p", 0, 1), ("slice", 2)],
    "connect": [F(will="willFlag", clean="cleansession"), ("const", 1, 1), ("f", "duration", 2), ("str",)],
    "connack": [("p", 0, 1)],
    "willtopicreq": [], "willmsgreq": [], "pingresp": [],
    "willtopic": [F(qos=0, retain=1), ("str",)],
    "willtopicupd": [F(qos=0, retain=1), ("str",)],
    "willmsg": [("str",)], "willmsgupd": [("str",)],
    "register": [("p", 0, 2), ("p", 1, 2), ("str",)],
    "regack": [("p", 0, 2), ("p", 1, 2), ("p", 2, 1)],
    "publish": [F(dup=0, qos=1, retain=2, topic=True), ("topicid",), ("p", 3, 2), ("longtopic",), ("slice", 5)],
    "puback": [("p", 0, 2), ("p", 1, 2), ("p", 2, 1)],
    "pubrec": [("p", 0, 2)], "pubrel": [("p", 0, 2)], "pubcomp": [("p", 0, 2)],
    "ack": [("p", 1, 2)],
    "subscribe": [F(dup=0, qos=1, topic=True), ("p", 2, 2), ("topic",)],
    "suback": [F(qos=0), ("p", 1, 2), ("p", 2, 2), ("p", 3, 1)],
    "unsubscribe": [F(topic=True), ("p", 0, 2), ("topic",)],
    "unsuback": [("p", 0, 2)],
    "pingreq": [("str",)],
    "disconnect": [("opt2", 0)],
    "willtopicresp": [("p", 0, 1)], "willmsgresp": [("p", 0, 1)],
}
FLAGPOS = {"dup": (7, 1), "qos": (5, 2), "retain": (4, 1), "will": (3, 1), "clean": (2, 1), "topic": (0, 2)}


def C07(r):
    p = prog("lib")
    r.rule("the bytes after the message type are, field by field, those of the MQTT-SN 1.2 message format, as a function of the parameters; both when serializing and when deserializing")
    r.assume("qos 0..3, boolean flags 0/1, total length <= 65535")
    n = 0
    for name, fn in sorted(apis(p, "MQTTSNSerialize_").items()):
        for v in ser_variants(fn):
            d = make_ser(p, fn, v)
            if name == "ack":
                d.ge(const(255) - d.args[2][2])
            ip, outs = run_ser(p, fn, d, limit=True)
            r.used(ip)
            vn = vname(fn, v)
            for o in outs:
                if const_rc(o.st, o.val) == "ok":
                    wire(r, p, name, fn, d, o, vn)
                    n += 1
    m = 0
    for name, fn in sorted(apis(p, "MQTTSNDeserialize_").items()):
        d = make_des(p, fn)
        ip = Interp(p)
        for o in ip.run(fn, d.args, d.st.copy()):
            if const_rc(o.st, o.val) == "ok":
                for st2, ll, val, _ in decode(p, o.st, d.buf, d.buflen):
                    unwire(r, p, name, fn, d, ip, st2, ll, val)
                    m += 1
        r.used(ip)
    r.floor("serializer layouts", n, 38)
    r.floor("deserializer layouts", m, 27)
    r.floor("fields", r.counts.get("fields", 0), 120)


def wire(r, p, name, fn, d, o, vn):
    st = o.st
    ip = Interp(p)
    A = lambda k: d.args[2 + k][2]
    opt = lambda f, n: var(("ld", ("arg", "options"), Lin(p.off("MQTTSNPacket_connectData", f)), n, 0))

    def field(label, ok, why=""):
        r.count("fields")
        r.ob("%s: %s" % (vn, label), ok, why, loc(fn))

    for st, ll, val, _ in decode(p, st, d.buf, o.val[2]):
        at = ll + 1
        B = lambda k: ip.load(st, d.buf, at + k, 1, "i8")[2]

        def num(label, w, want):
            nonlocal at
            bs = [B(k) for k in range(w)]
            got = ZERO
            for b in bs:
                got = got.scale(256) + b
            field(label, same_int(st.facts, 8 * w, got, want), "wire value is %s, should be %s" % (got, want))
            at = at + w

        def raw(label, obj, n):
            nonlocal at
            field(label, same_bytes(ip, st, d.buf, at, obj, ZERO, n), "the bytes at offset %s are not those of the argument" % at)
            at = at + n
        for i, item in enumerate(BODY[name]):
            k = item[0]
            lab = "field %d" % (i + 1)
            if k == "p":
                num(lab, item[2], A(item[1]))
            elif k == "const":
                num(lab, item[2], Lin(item[1]))
            elif k == "f":
                num(lab, item[2], opt(item[1], item[2]))
            elif k == "flags":
                want = ZERO
                for fl, (sh, w) in FLAGPOS.items():
                    x = item[1].get(fl)
                    if x is None:
                        continue
                    if x is True:
                        val_ = Lin({"normal": 0, "predefined": 1, "short": 2}[d.cases[0]])
                    elif isinstance(x, str):
                        val_ = opt(x, 1)
                    else:
                        val_ = A(x)
                    want = want + val_.scale(1 << sh)
                num("flags", 1, want)
            elif k == "opt2":
                pos = st.facts.entails(A(0) - 1)
                if pos:
                    num(lab, 2, A(0))
                else:
                    field(lab, st.facts.entails(-A(0)), "duration sent or omitted wrongly")
            elif k == "slice":
                if d.cases == ("noaddr",):
                    continue
                raw(lab, d.dataptr, st.sizes[d.dataptr])
            elif k == "str":
                so, sn = in_string(d, ip, st)
                raw(lab, so, sn)
            elif k == "topicid":
                if d.cases[1] == "long":
                    num(lab, 2, in_topic(d, "data.long_.len", 4, ""))
                elif d.cases[0] == "short":
                    raw2(num, d, p)
                else:
                    num(lab, 2, in_topic(d, "data.id", 2, ""))
            elif k == "longtopic":
                if d.cases[1] == "long":
                    raw(lab, ("*", ("arg", "topic"), Lin(p.off("MQTTSN_topicid", "data.long_.name")), 0), in_topic(d, "data.long_.len", 4, ""))
            elif k == "topic":
                if d.cases[1] == "long":
                    raw(lab, ("*", ("arg", "topic"), Lin(p.off("MQTTSN_topicid", "data.long_.name")), 0), in_topic(d, "data.long_.len", 4, ""))
                elif d.cases[0] == "short":
                    raw2(num, d, p)
                else:
                    num(lab, 2, in_topic(d, "data.id", 2, ""))
        field("nothing follows the last field", st.facts.entails_eq(at - o.val[2]), "fields end at %s, packet at %s" % (at, o.val[2]))


def raw2(num, d, p):
    for k in range(2):
        num("short topic name", 1, var(("ld", ("arg", "topic"), Lin(p.off("MQTTSN_topicid", "data.short_name") + k), 1, 0)))


def unwire(r, p, name, fn, d, ip, st, ll, total):
    """the outputs of a successful deserialization are the wire fields"""
    f = st.facts
    body = BODY[name]
    outs = list(d.outs)
    if name == "ack":
        v = ip.load(st, outs[0][2], ZERO, 1, "i8")
        t = ip.load(st, d.buf, ll, 1, "i8")
        r.ob("%s: type returned" % fn.key, same_int(f, 8, v[2], t[2]), "%s" % (v,), loc(fn))

    def field(label, ok, why=""):
        r.count("fields")
        r.ob("%s: %s" % (fn.key, label), ok, why, loc(fn))

    at = ll + 1

    def bytes_at(w):
        nonlocal at
        got = ZERO
        for k in range(w):
            got = got.scale(256) + ip.load(st, d.buf, at + k, 1, "i8")[2]
        at = at + w
        return got

    def chk(label, v, w, want):
        ok = v[0] == "I" and not undef(v) and same_int(f, w, v[2], want)
        field(label, ok, "output is %s, the wire field is %s" % (v, want))

    def out_int(k):
        i, t, obj = outs[k]
        n = OUTSIZE[t]
        return ip.load(st, obj, ZERO, n, "i%d" % (8 * n)), 8 * n

    def rest(label, ptr, n):
        ok = f.entails_eq(n - (total - at)) and (f.entails_eq(n) or ptr[0] == "P" and ptr[1] == d.buf and f.entails_eq(ptr[2] - at))
        field(label, ok, "slice is %s+%s, should start at %s and reach the end %s" % (ptr, n, at, total))

    def flagval(fb, fl):
        sh, w = FLAGPOS[fl]
        bs = bits_of(8, fb, f)[sh:sh + w]
        return from_bits(8, bs + [0] * (8 - w), f), w

    T = lambda fld, n, ty: ip.load(st, outs[-1 if name != "publish" else 4][2], Lin(p.off("MQTTSN_topicid", fld)), n, ty)
    fb = None
    for i, item in enumerate(body):
        k = item[0]
        lab = "field %d" % (i + 1)
        if k == "p":
            v, w = out_int(item[1])
            chk(lab, v, 8 * item[2], bytes_at(item[2]))
        elif k == "const":
            x = bytes_at(item[2])
            field(lab, f.entails_eq(x - item[1]), "a packet with another value (%s) is accepted" % x)
        elif k == "f":
            v = ip.load(st, outs[0][2], Lin(p.off("MQTTSNPacket_connectData", item[1])), item[2], "i%d" % (8 * item[2]))
            chk(lab, v, 8 * item[2], bytes_at(item[2]))
        elif k == "flags":
            if name in ("willtopic", "willtopicupd") and f.entails_eq(total - at):
                # an empty WILLTOPIC has no flags either
                for fl, x in item[1].items():
                    v, w = out_int(x)
                    chk("flag %s of an empty will" % fl, v, w, ZERO)
                s = outs[2][2]
                field("empty topic", f.entails_eq(ip.load(st, s, Lin(p.off("MQTTSNString", "lenstring.len")), 4, "i32")[2]), "not empty")
                return
            fb = bytes_at(1)
            for fl, x in item[1].items():
                want, w = flagval(fb, fl)
                if x is True:
                    chk("flag " + fl, T("type", 4, "i32"), 32, want)
                elif isinstance(x, str):
                    chk("flag " + fl, ip.load(st, outs[0][2], Lin(p.off("MQTTSNPacket_connectData", x)), 1, "i8"), 8, want)
                else:
                    v, ww = out_int(x)
                    chk("flag " + fl, v, ww, want)
        elif k == "opt2":
            v, w = out_int(0)
            if f.entails_eq(total - at):
                chk(lab + " absent", v, 32, Lin(-1))
            else:
                chk(lab, v, 32, bytes_at(2))
        elif k == "slice":
            pi = item[1]
            li = 6 if name == "publish" else 1
            v, w = out_int(li)
            rest(lab, ip.load(st, outs[pi][2], ZERO, 8, "ptr"), v[2])
            at = total
        elif k == "str":
            o = outs[-1][2] if name != "connect" else outs[0][2]
            b = p.off("MQTTSNPacket_connectData", "clientID") if name == "connect" else 0
            rest(lab, ip.load(st, o, Lin(b + p.off("MQTTSNString", "lenstring.data")), 8, "ptr"),
                 ip.load(st, o, Lin(b + p.off("MQTTSNString", "lenstring.len")), 4, "i32")[2])
            at = total
        elif k in ("topicid", "topic", "longtopic"):
            t = T("type", 4, "i32")[2]
            if k == "longtopic":
                q3 = flagval(fb, "qos")[0]
                if f.entails_eq(t) and f.entails_eq(q3 - 3):
                    n = T("data.long_.len", 4, "i32")[2]
                    q = T("data.long_.name", 8, "ptr")
                    field("topic name", f.entails_eq(n) or q[0] == "P" and q[1] == d.buf and f.entails_eq(q[2] - at), "topic name at %s, should be at %s" % (q, at))
                    at = at + n
                continue
            if f.entails_eq(t):
                if k == "topic":
                    rest("topic name", T("data.long_.name", 8, "ptr"), T("data.long_.len", 4, "i32")[2])
                    at = total
                elif f.entails_eq(flagval(fb, "qos")[0] - 3):
                    chk("topic length", T("data.long_.len", 4, "i32"), 32, bytes_at(2))
                else:
                    chk("topic id", T("data.id", 2, "i16"), 16, bytes_at(2))
            elif f.entails_eq(t - 1):
                chk("topic id", T("data.id", 2, "i16"), 16, bytes_at(2))
            elif f.entails_eq(t - 2):
                for kk in range(2):
                    chk("short name", ip.load(st, outs[-1 if name != "publish" else 4][2], Lin(p.off("MQTTSN_topicid", "data.short_name") + kk), 1, "i8"), 8, bytes_at(1))
            else:
                # undecided (reserved type 3, or one path for several types): wherever type 1 is possible the id must be right
                r.count("undecided_topic_types")
                at = at + 2


def C08(r):
    p = prog("lib")
    r.rule("a packet reader returns the type byte exactly for a datagram that is one packet, whose length field counts all received bytes and which has a type, and MQTTSNPACKET_READ_ERROR otherwise; the source is asked once, for the whole buffer")
    seen = set()
    for name in ("MQTTSNPacket_read", "MQTTSNPacket_read_nb"):
        fn = p.fn(name)
        st = State()
        b = ("buf", "buf")
        bl = sym("buflen", 32)
        st.facts = st.facts.add_ge(bl[2])
        st.sizes[b] = bl[2]
        st.mem[b] = Content(("sym", 0))
        args, models = [P(b), bl], {}
        if name == "MQTTSNPacket_read":
            args.append(P(("getfn", "getfn")))

            def got(ip, st, a, ins, fr, callee):
                v = sym(st.fresh("got"), 32)
                st.facts = st.facts.add_ge(bl[2] - v[2])
                st.event("got", v[2], a[0] == P(b) and a[1][0] == "I" and st.facts.entails_eq(a[1][2] - bl[2]))
                return [(st, v)]
            models["<indirect>"] = got
        ip = Interp(p, models)
        outs = ip.run(fn, args, st)
        r.used(ip)
        if not outs:
            raise build.AnalysisBroken("%s: no path returns" % name)
        for o in outs:
            n = bl[2]
            if name == "MQTTSNPacket_read":
                ev = [x for x in o.st.trace if x[0] == "got"]
                r.ob("%s: asks the source once, for as many bytes as the buffer holds" % name, len(ev) == 1 and ev[0][2], "calls: %s" % (ev,), loc(fn))
                if len(ev) != 1:
                    continue
                n = ev[0][1]
            B = lambda i: ip.load(o.st, b, Lin(i), 1, "i8")[2]
            B = [B(i) for i in range(4)]
            for three in (0, 1):
                f = o.st.facts
                f = f.add_eq(B[0] - 1) if three else f.add_ne(B[0] - 1)
                if f is None:
                    continue
                count = B[1].scale(256) + B[2] if three else B[0]
                ok = f.add_ge(n - (4 if three else 2))
                ok = ok.add_eq(count - n) if ok is not None else None
                form = "three byte" if three else "one byte"
                if f.entails_eq(o.val[2] + 1):
                    seen.add("error")
                    r.ob("%s: accepts a complete packet with a %s length" % (name, form), ok is None or impossible(ok), "a complete packet gives an error", loc(fn))
                else:
                    r.ob("%s: accepts nothing but a complete packet" % name, f.entails(n - (4 if three else 2)) and f.entails_eq(count - n), "an incomplete or overlong datagram gives %s" % (o.val,), loc(fn))
                    r.ob("%s: returns the type behind a %s length" % (name, form), f.entails_eq(o.val[2] - B[3 if three else 1]), "returns %s" % (o.val,), loc(fn))
                    seen.add(three)
        r.count("readers")
    r.floor("kinds of datagrams", len(seen), 3)


def impossible(f):
    """contradictory facts, as far as a disequality shows it"""
    return any(f.entails_eq(x) for x in f.ne)


REG = {"C08": C08, "C01": C01, "C02": C02, "C03": C03, "C04": C04, "C07": C07, "C05": C05, "C06": C06}
