"""N01: the connections to the broker.  TCPStack and Network are interpreted against contracts of the socket calls and of OpenSSL, which
may fail anywhere and answer anything their manuals allow; each path is compared with what a connection is for."""
import build
from gw import *
from oracle import pmap
from stop import ExcInterp
from tasks import field

CTX, SESSION, NUM = ("g", "_ZN7Network4_ctxE"), ("g", "_ZN7Network8_sessionE"), ("g", "_ZN7Network14_numOfInstanceE")
SOCK = 7
NONE, WANT_READ, WANT_WRITE, SYSCALL, ZERO_RETURN = 0, 2, 3, 5, 6
NOSIGNAL = 0x4000
PEM = 1
NID_CN = 13
STREAM = 1
PARTIAL = 2


class FF(FrozenDict):
    pass


class NetWorld:
    def __init__(self, own_tcp):
        self.p = prog("gw:udp")
        self.own_tcp = own_tcp           # TCPStack::connect is a contract
        self.models = {}
        self.contracts()

    def new(self, st, name, alive=True):
        buf(st, name)
        return P(B(name))

    def state(self, secure, sock, ssl, valid, ctx=True, session=True, addrinfo=None, busy=0):
        """addrinfo: 'live', None"""
        p = self.p
        st = State()
        ip = Interp(p)
        if not all(g[1] in p.globals for g in (CTX, SESSION, NUM)):
            raise build.AnalysisBroken("Network's static members are not found")
        buf(st, "net", p.types["Network"]["size"])
        put = lambda f, v: ip.store(st, B("net"), field(p, "Network", f)[0], field(p, "Network", f)[1], v)
        put("_secureFlg", I(8, int(secure)))
        put("_sockfd", I(32, sock))
        put("_ssl", self.new(st, "ssl") if ssl else NULL)
        put("_sslValid", I(8, int(valid)))
        put("_busy", I(8, int(busy)))
        if addrinfo:
            put("_addrinfo", self.new(st, "ai0"))
        else:
            put("_addrinfo", NULL)
        ip.store(st, CTX, ZERO, 8, self.new(st, "ctx") if ctx else NULL)
        ip.store(st, SESSION, ZERO, 8, self.new(st, "session") if session else NULL)
        n = var(("sym", "numOfInstance", 0, 1 << 20))
        if ssl:
            st.facts = st.facts.add_ge(n - 1)
        ip.store(st, NUM, ZERO, 4, I(32, n))
        self.n0 = n
        for s in ("host", "port", "caPath", "caFile", "certkey", "prvkey"):
            buf(st, s, var(("sym", s + ".size", 1, 1 << 20)))
            ip.store(st, B(s), st.sizes[B(s)] - 1, 1, I(8, 0))
            st.ghost[("strof", B(s))] = True
        buf(st, "wire", 8)
        ip.store(st, B("wire"), ZERO, 4, I(32, 0))
        return st

    def get(self, st, f):
        off, n, ty = field(self.p, "Network", f)
        return Interp(self.p).load(st, B("net"), off, n, ty)

    def contracts(self):
        M = self.models
        for k in ("Process::putLog", "currentDateTime", "Mutex::lock", "Mutex::unlock", "SSL_load_error_strings", "OPENSSL_init_ssl", "SSL_library_init", "ERR_error_string_n",
                  "OPENSSL_init_crypto", "ERR_free_strings", "TLS_client_method", "SSLv23_client_method", "gai_strerror", "X509_verify_cert_error_string"):
            M[k] = m_nop
        M["ERR_get_error"] = lambda ip, st, a, ins, fr: [(st, I(64, 1))]

        def handle(kind):
            """a pointer to something that must be alive"""
            def chk(st, v, ins, fr):
                if v[0] != "P":
                    st.event("misuse", "null %s" % kind, loc(fr.fn, ins, fr))
                    return False
                if st.ghost.get(("gone", v[1])):
                    st.event("misuse", "%s after it was freed" % kind, loc(fr.fn, ins, fr))
                    return False
                return True
            return chk
        ok_ssl, ok_ctx, ok_x, ok_ai, ok_sess = handle("SSL"), handle("SSL_CTX"), handle("certificate"), handle("address"), handle("session")

        def alloc(name, prefix, chk=None, pre=None):
            def m(ip, st, a, ins, fr):
                if chk and not chk(st, a[0], ins, fr):
                    return [(st, NULL)]
                s0 = st.copy()
                s0.event("sys", name, tuple(a), NULL)
                o = B("%s@%s" % (prefix, st.fresh(prefix)))
                st.sizes.pop(o, None)
                st.mem[o] = Content(("sym", 0))
                st.null[o] = False
                st.event("sys", name, tuple(a), P(o))
                return [(s0, NULL), (st, P(o))]
            M[name] = m
        alloc("SSL_CTX_new", "ctx")
        alloc("SSL_new", "ssl", ok_ctx)
        alloc("SSL_get_peer_certificate", "x509", ok_ssl)
        alloc("SSL_get1_peer_certificate", "x509", ok_ssl)
        alloc("SSL_get1_session", "session", ok_ssl)

        def free(name, chk):
            def m(ip, st, a, ins, fr):
                if a[0][0] == "N":
                    return [(st, ("U", "void"))]
                if chk(st, a[0], ins, fr):
                    st.ghost[("gone", a[0][1])] = True
                    st.event("sys", name, tuple(a), None)
                return [(st, ("U", "void"))]
            M[name] = m
        free("SSL_free", ok_ssl)
        free("SSL_CTX_free", ok_ctx)
        free("X509_free", ok_x)
        free("freeaddrinfo", ok_ai)
        free("SSL_SESSION_free", ok_sess)

        def result(name, chk, *values):
            """a call that answers one of the values ('?': anything else)"""
            def m(ip, st, a, ins, fr):
                if chk and not chk(st, a[0], ins, fr):
                    return [(st, I(int(ins["ty"][1:]), 0))]
                w = int(ins["ty"][1:])
                out = []
                for v in values:
                    s = st.copy()
                    if v == "?":
                        L = var(("sym", s.fresh(name), -(1 << 31), (1 << 31) - 1))
                        f = s.facts
                        for x in values:
                            if x != "?":
                                f = f.add_ne(L - x)
                        s.facts = f
                    else:
                        L = Lin(v)
                    s.event("sys", name, tuple(a), v)
                    out.append((s, I(w, L)))
                return out
            M[name] = m
        result("SSL_CTX_load_verify_locations", ok_ctx, 0, 1)
        result("SSL_CTX_use_certificate_file", ok_ctx, 1, "?")
        result("SSL_CTX_use_certificate_chain_file", ok_ctx, 1, "?")
        result("SSL_CTX_use_PrivateKey_file", ok_ctx, 1, "?")
        result("SSL_set_fd", ok_ssl, 0, 1)
        result("SSL_set_session", ok_ssl, 0, 1)
        result("SSL_connect", ok_ssl, 1, "?")
        result("SSL_get_verify_result", ok_ssl, 0, "?")
        result("SSL_shutdown", ok_ssl, 1, "?")
        result("SSL_pending", ok_ssl, 0, "?")
        result("X509_check_host", ok_x, 1, "?")

        def subject(ip, st, a, ins, fr):
            ok_x(st, a[0], ins, fr)
            o = B("name of %s" % (a[0][1][1] if a[0][0] == "P" else "?"))
            buf(st, o[1])
            return [(st, P(o))]
        M["X509_get_subject_name"] = subject

        def cn(ip, st, a, ins, fr):
            """-1, or a string of the given length (it may hold a NUL)"""
            n = a[3][2].c
            s0 = st.copy()
            s0.event("sys", "CN", tuple(a), -1)
            L = var(("sym", st.fresh("cnlen"), 0, n - 1))
            ip.access(st, "store", a[2], L + 1, ins, fr)
            ip.havoc(st, a[2][1], a[2][2], L + 1)
            ip.store(st, a[2][1], a[2][2] + L, 1, I(8, 0))
            f = st.facts.add_ge(L - ip.strlen_of(st, a[2], fr))
            if f is None:
                return [(s0, I(32, -1))]
            st.facts = f
            st.event("sys", "CN", tuple(a), L)
            return [(s0, I(32, -1)), (st, I(32, L))]
        M["X509_NAME_get_text_by_NID"] = cn

        def cmp(name):
            def m(ip, st, a, ins, fr):
                for x in a[:2]:
                    ip.access(st, "load", x, a[2][2] if name == "memcmp" else const(1), ins, fr)
                L = var(("sym", st.fresh(name), -255, 255))
                head = {}
                for x in a[:2]:
                    if x[0] == "P":
                        by = tuple(ip.load(st, x[1], Lin(k), 1, "i8") for k in (0, 1))
                        head[x[1]] = (by, ip.strlen_of(st, P(x[1]), fr))
                # of strncmp and memcmp: they compare all of both only if the terminating NUL of one is compared, or the lengths agree
                whole = len(a) < 3
                if not whole and all(x[0] == "P" for x in a[:2]):
                    l1, l2 = (ip.strlen_of(st, x, fr) for x in a[:2])
                    whole = any(st.facts.entails(a[2][2] - 1 - x) for x in (l1, l2)) or all(st.facts.entails(a[2][2] - x) for x in (l1, l2)) and st.facts.entails_eq(l1 - l2)
                st.event("cmp", name, a[0], a[1], L, FrozenDict(head), whole)
                return [(st, I(32, L))]
            M[name] = m
        cmp("strcmp")
        cmp("strcasecmp")
        cmp("strncmp")
        cmp("strncasecmp")
        cmp("memcmp")

        def strchr(name):
            def m(ip, st, a, ins, fr):
                if a[0][0] != "P" or a[1][2].t:
                    return [(st, ip.fresh_ret(st, name, ins, fr))]
                same = ("chr", name, a[0], a[1][2].c, ip.content(st, a[0][1]).id())
                if same in st.ghost:
                    return [(st, st.ghost[same])]
                s0 = st.copy()
                s0.ghost[same] = NULL
                L = ip.strlen_of(st, a[0], fr)
                k = var(("sym", st.fresh(name), 0, 1 << 20))
                f = st.facts.add_ge(L - 1 - k)
                out = [(s0, NULL)]
                if f is not None:
                    st.facts = f
                    x = ip.load(st, a[0][1], a[0][2] + k, 1, "i8")
                    f = st.facts.add_eq(x[2] - a[1][2])
                    if f is not None:
                        st.facts = f
                    st.event("chr", name, a[0], chr(a[1][2].c), k)
                    st.ghost[same] = P(a[0][1], a[0][2] + k)
                    out.append((st, st.ghost[same]))
                return out
            M[name] = m
        strchr("strchr")
        strchr("strrchr")

        # sockets
        def getaddrinfo(ip, st, a, ins, fr):
            s0 = st.copy()
            v = var(("sym", s0.fresh("gai"), -100, 100))
            s0.facts = s0.facts.add_ne(v)
            h = a[2]
            hints = tuple(ip.load(st, h[1], h[2] + k, 4, "i32")[2] for k in (0, 4, 8)) if h[0] == "P" else None
            o = B("ai@%s" % st.fresh("ai"))
            st.mem[o] = Content(("sym", 0))
            st.null[o] = False
            ip.store(st, a[3][1], a[3][2], 8, P(o))
            st.event("sys", "getaddrinfo", tuple(a[:2]), (P(o), hints))
            return [(s0, I(32, v)), (st, I(32, 0))]
        M["getaddrinfo"] = getaddrinfo

        def socket(ip, st, a, ins, fr):
            s0 = st.copy()
            fd = var(("sym", st.fresh("fd"), 1, 1 << 20))
            st.event("sys", "socket", tuple(a), fd)
            return [(s0, I(32, -1)), (st, I(32, fd))]
        M["socket"] = socket

        def call2(name):
            def m(ip, st, a, ins, fr):
                s0 = st.copy()
                s0.event("sys", name, tuple(a), -1)
                st.event("sys", name, tuple(a), 0)
                return [(s0, I(32, -1)), (st, I(32, 0))]
            M[name] = m
        for n in ("setsockopt", "connect", "bind", "listen", "shutdown"):
            call2(n)
        M["close"] = lambda ip, st, a, ins, fr: (st.event("sys", "close", tuple(a), 0), [(st, I(32, 0))])[1]

        def io(name):
            def m(ip, st, a, ins, fr):
                ip.access(st, "load" if name == "send" else "store", a[1], a[2][2], ins, fr)
                if name == "recv" and a[1][0] == "P":
                    ip.havoc(st, a[1][1], a[1][2], a[2][2])
                v = sym(st.fresh(name), ins["ty"][1:] and int(ins["ty"][1:]))
                st.event("sys", name, tuple(a), v)
                return [(st, v)]
            M[name] = m
        io("send")
        io("recv")

        # of every call: up to PARTIAL answers that do not finish it, in every order; then it is finished, or fails for good
        def again(st, what):
            n = st.ghost.get(("again", what), 0)
            st.ghost[("again", what)] = n + 1
            return n < PARTIAL

        def select(ip, st, a, ins, fr):
            if not again(st, "select"):
                return [(st, I(32, 2))]
            s0 = st.copy()
            for x in a[1:3]:
                if x[0] == "P":
                    ip.havoc(st, x[1], x[2], const(128))
            v = var(("sym", st.fresh("select"), 1, 2))
            v0 = var(("sym", s0.fresh("select0"), -1, 0))
            return [(st, I(32, v)), (s0, I(32, v0))]
        M["select"] = select
        M["poll"] = lambda ip, st, a, ins, fr: [(st, sym(st.fresh("poll"), 32))]

        def sslio(name):
            def m(ip, st, a, ins, fr):
                if not ok_ssl(st, a[0], ins, fr):
                    return [(st, I(32, -1))]
                ip.access(st, "load" if name == "SSL_write" else "store", a[1], a[2][2], ins, fr)
                done = ip.load(st, B("wire"), ZERO, 4, "i32")[2]
                right = a[1][0] == "P" and a[1][1] == B("data")
                st.event("io", right and st.facts.entails_eq(a[1][2] - done), st.facts.entails(a[2][2] - 1), "%s of %s bytes at %s, %s are done" % (name, a[2][2], a[1][1:], done), a[2][2] + a[1][2])
                if not again(st, "io"):
                    s0 = st.copy()
                    s0.ghost["fatal"] = True
                    f = st.facts.add_ge(a[2][2] - 1)
                    if f is None:
                        return [(s0, I(32, -1))]
                    st.facts = f
                    if name == "SSL_read" and a[1][0] == "P":
                        ip.havoc(st, a[1][1], a[1][2], a[2][2])
                    ip.store(st, B("wire"), ZERO, 4, I(32, done + a[2][2]))
                    return [(s0, I(32, -1)), (st, I(32, a[2][2]))]
                s0 = st.copy()
                v0 = var(("sym", s0.fresh("err"), -1, 0))
                s0.ghost[("sslrc",)] = v0
                k = var(("sym", st.fresh("moved"), 1, 1 << 16))
                f = st.facts.add_ge(a[2][2] - k)
                out = [(s0, I(32, v0))]
                if f is not None:
                    st.facts = f
                    if name == "SSL_read" and a[1][0] == "P":
                        ip.havoc(st, a[1][1], a[1][2], k)
                    ip.store(st, B("wire"), ZERO, 4, I(32, done + k))
                    st.ghost[("sslrc",)] = k
                    out.append((st, I(32, k)))
                return out
            M[name] = m
        sslio("SSL_write")
        sslio("SSL_read")

        def err(ip, st, a, ins, fr):
            ok_ssl(st, a[0], ins, fr)
            rc = a[1][2]
            if st.facts.entails(rc - 1):
                return [(st, I(32, NONE))]
            out = []
            for v in (ZERO_RETURN, SYSCALL, 1) if st.ghost.get("fatal") else (WANT_READ, WANT_WRITE, ZERO_RETURN, SYSCALL, 1):
                s = st.copy()
                s.event("err", v)
                out.append((s, I(32, v)))
            return out
        M["SSL_get_error"] = err
        if self.own_tcp:
            def tcp(ip, st, a, ins, fr):
                sock = field(self.p, "Network", "_sockfd")
                v = ip.load(st, a[0][1], sock[0], 4, "i32")
                if v[2].t:
                    raise build.AnalysisBroken("the socket is not known where TCPStack::connect is called")
                if v[2].c > 0:
                    st.event("tcp", tuple(a), "is connected")
                    return [(st, I(1, 1))]
                s0 = st.copy()
                s0.event("tcp", tuple(a), "fails")
                st.event("tcp", tuple(a), "connects")
                ip.store(st, a[0][1], sock[0], 4, I(32, SOCK + 1))
                return [(s0, I(1, 0)), (st, I(1, 1))]
            M["TCPStack::connect"] = tcp

            def tclose(ip, st, a, ins, fr):
                st.event("tcpclose", ip.load(st, a[0][1], field(self.p, "Network", "_sockfd")[0], 4, "i32")[2])
                ip.store(st, a[0][1], field(self.p, "Network", "_sockfd")[0], 4, I(32, 0))
                return [(st, ("U", "void"))]
            M["TCPStack::close"] = tclose

    def run(self, r, fn, args, st):
        mon = Monitor(r, fn.key)
        ip = ExcInterp(self.p, models=dict(self.models), budget=4000000)
        if fn.key in ("Network::send", "Network::recv"):
            ip.unroll, ip.unroll_in = 20, lambda f: f is fn
        ip.monitor = mon
        mon.ip = ip
        ip.on_access = mon.on_access
        ip.on_free = mon.on_free
        outs = ip.run(fn, args, st)
        r.used(ip)
        for o in outs:
            bad = [x for x in o.st.trace if x[0] == "misuse"]
            r.ob("%s: what it hands to the system and to OpenSSL exists" % fn.key, not bad, "%s" % (bad[:1],), bad[0][2] if bad else loc(fn))
            r.ob("%s: returns" % fn.key, o.kind == "ret", "a path ends with %s" % o.kind, loc(fn))
            r.count("paths")
        return outs


def pick(p, key, nargs):
    fs = [f for f in p.bykey.get(key, ()) if len(f.args) == nargs]
    if len(fs) != 1:
        raise build.AnalysisBroken("%s with %d arguments: %d functions" % (key, nargs, len(fs)))
    return fs[0]


def sysev(o, name):
    return [x for x in o.st.trace if x[0] == "sys" and x[1] == name]


def truth(o):
    """the value of a bool result: True, False or None"""
    v = o.val
    if v[0] != "I":
        if v[0] == "C":
            return None
        return None
    if o.st.facts.entails_ne(v[2]):
        return True
    return False if o.st.facts.entails_eq(v[2]) else None


def both(o):
    t = truth(o)
    return [t] if t is not None else []


def cstr(o):
    return o


def host_matches(ip, W, o):
    """why the host name and the certificate's name agree on this path, or None"""
    st = o.st
    if any(x[3] == 1 and x[2][1] == P(B("host")) for x in sysev(o, "X509_check_host")):
        return "X509_check_host"
    cns = [x for x in sysev(o, "CN") if x[3] != -1]
    for c in cns:
        a = c[2]
        if a[0] != P(B("name of %s" % peer_of(o))) or a[1][2] != const(NID_CN):
            continue
        text = a[2]
        for x in o.st.trace:
            if x[0] != "cmp" or not x[6] or not st.facts.entails_eq(x[4]):
                continue
            for h, n in ((x[2], x[3]), (x[3], x[2])):
                if h[0] != "P" or n[0] != "P" or h[1] != B("host") or n[1] != text[1]:
                    continue
                d = n[2] - text[2]
                if not h[2].t and h[2].c == 0 and d == ZERO:
                    return "the same name"
                by = x[5][text[1]][0]
                if d == const(2) and all(y[0] == "I" for y in by) and st.facts.entails_eq(by[0][2] - 42) and st.facts.entails_eq(by[1][2] - 46):
                    for e in o.st.trace:
                        if e[0] == "chr" and e[1] == "strchr" and e[2] == P(B("host")) and e[3] == "." and st.facts.entails_eq(h[2] - e[4] - 1):
                            return "a wildcard"
                    if not any(e[0] == "chr" for e in o.st.trace):
                        y = ip.load(st, B("host"), h[2] - 1, 1, "i8")
                        if y[0] == "I" and st.facts.entails_eq(y[2] - 46):
                            return "a wildcard"
    return None


def peer_of(o):
    g = [x for x in o.st.trace if x[0] == "sys" and x[1] in ("SSL_get_peer_certificate", "SSL_get1_peer_certificate") and x[3] != NULL]
    return g[-1][3][1][1] if g else None


def tls_connect(r, case):
    secure, sock, valid, ctx, session, cert, key = case
    W = NetWorld(True)
    p = W.p
    fn = pick(p, "Network::connect", 7)
    st = W.state(secure, SOCK if sock else 0, valid, valid, ctx, session)
    n0 = W.n0
    ip = Interp(p)
    args = [P(B("net")), P(B("host")), P(B("port")), P(B("caPath")), P(B("caFile")), P(B("certkey")) if cert else NULL, P(B("prvkey")) if key else NULL]
    outs = W.run(r, fn, args, st)
    where = loc(fn)
    was = P(B("ssl")) if valid else NULL
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        t = truth(o)
        s = o.st
        ssl, sval = W.get(s, "_ssl"), W.get(s, "_sslValid")[2]
        num = ip.load(s, NUM, ZERO, 4, "i32")[2]
        sess = ip.load(s, SESSION, ZERO, 8, "ptr")
        c = ip.load(s, CTX, ZERO, 8, "ptr")
        news = [x[3] for x in sysev(o, "SSL_new") if x[3] != NULL]
        lab = "TLS connect"
        r.ob(lab + ": it succeeds or fails", t is not None, "it returns %s" % (o.val,), where)
        r.ob(lab + ": no clear text connection is used", not sysev(o, "send") and not sysev(o, "recv"), "", where)
        if not secure:
            r.ob(lab + " of a connection that is not secure: fails, nothing is done", t is False and not [x for x in s.trace if x[0] in ("sys", "tcp", "tcpclose")] and ssl == was, "%s" % (s.trace[:2],), where)
            continue
        live = [x for x in news if not s.ghost.get(("gone", x[1]))]
        peers = [x[3] for x in s.trace if x[0] == "sys" and x[1] in ("SSL_get_peer_certificate", "SSL_get1_peer_certificate") and x[3] != NULL]
        r.ob(lab + ": the broker's certificate is freed", all(s.ghost.get(("gone", x[1])) for x in peers), "it is not", where)
        r.ob(lab + ": the context exists or is forgotten", c[0] == "N" or not s.ghost.get(("gone", c[1])), "a freed context is kept", where)
        ctxs = [x[3] for x in sysev(o, "SSL_CTX_new") if x[3] != NULL]
        r.ob(lab + ": a new context is kept or freed", all(s.ghost.get(("gone", x[1])) or x == c for x in ctxs), "it is lost", where)
        r.ob(lab + ": the session that is kept for resumption exists", sess[0] == "N" or not s.ghost.get(("gone", sess[1])), "", where)
        gots = [x[3] for x in sysev(o, "SSL_get1_session") if x[3] != NULL]
        r.ob(lab + ": a session is kept or freed", all(s.ghost.get(("gone", x[1])) or x == sess for x in gots), "it is lost", where)
        if valid and sock:
            lab += " of a connected one"
            r.ob(lab + ": it stays as it is", t is True and ssl == was and not news and not s.ghost.get(("gone", B("ssl"))) and sval == const(1) and s.facts.entails_eq(num - n0) and not any(x[0] == "tcpclose" for x in s.trace),
                 "%s, session %s" % (t, ssl), where)
            continue
        if t is False:
            lab += " that fails"
            r.ob(lab + ": no TLS session is left", ssl == NULL and not live and sval == ZERO and s.facts.entails_eq(num - n0), "_ssl %s, alive %s, _sslValid %s, sessions %s" % (ssl, live, sval, num - n0), where)
            continue
        if t is not True:
            continue
        n += 1
        lab += " that succeeds"
        tcp = [x for x in s.trace if x[0] == "tcp"]
        r.ob(lab + ": it is a new connection to the broker", len(tcp) == 1 and tcp[0][2] == "connects" and tcp[0][1][1:3] == (P(B("host")), P(B("port"))), "%s" % tcp, where)
        r.ob(lab + ": one TLS session, the connection's", len(live) == 1 and ssl == live[0] and sval == const(1), "_ssl %s, alive %s, _sslValid %s" % (ssl, live, sval), where)
        r.ob(lab + ": it is counted", s.facts.entails_eq(num - n0 - 1), "%s" % (num - n0), where)
        for name, why in (("SSL_set_fd", "runs over the connection to the broker"), ("SSL_connect", "the handshake is complete")):
            x = [x for x in sysev(o, name) if x[3] == 1 and x[2][0] == ssl]
            r.ob(lab + ": " + why, bool(x) and (name != "SSL_set_fd" or x[0][2][1][2] == const(SOCK + 1)), "%s" % sysev(o, name), where)
        ks = [x[1] for x in s.trace if x[0] == "sys"]
        vr = [i for i, x in enumerate(x for x in s.trace if x[0] == "sys") if x[1] == "SSL_get_verify_result" and x[3] == 0 and x[2][0] == ssl]
        r.ob(lab + ": the broker's certificate was verified", bool(vr) and "SSL_connect" in ks[:vr[-1]], "SSL_get_verify_result is not X509_V_OK on this path", where)
        r.ob(lab + ": the broker showed a certificate", bool(peers), "no certificate is asked for, or none needed", where)
        ipx = Interp(p)
        m = host_matches(ipx, W, o)
        r.ob(lab + ": the certificate is that of the host", m is not None, "the names are not compared, or differ, on this path: %s" % ([x[1:] for x in s.trace if x[0] in ("cmp", "chr")],), where)
        if m == "the same name" or m == "a wildcard":
            r.count("matches: " + m)
            # the name is all of what the certificate says
            cn = [x for x in sysev(o, "CN") if x[3] != -1][-1]
            ln = [x[5][cn[2][2][1]][1] for x in s.trace if x[0] == "cmp" and cn[2][2][1] in x[5]]
            r.ob(lab + ": the name in the certificate holds no NUL", any(s.facts.entails_eq(x - cn[3]) for x in ln), "strlen %s, length %s" % (ln, cn[3]), where)
        if not ctx:
            v = [x for x in sysev(o, "SSL_CTX_load_verify_locations") if x[3] == 1]
            r.ob(lab + ": the CA certificates are loaded", len(v) == 1 and v[0][2][0] == c and v[0][2][1:3] == (P(B("caFile")), P(B("caPath"))), "%s" % v, where)
            for given, a, names in ((cert, "certkey", ("SSL_CTX_use_certificate_file", "SSL_CTX_use_certificate_chain_file")), (key, "prvkey", ("SSL_CTX_use_PrivateKey_file",))):
                v = [x for x in s.trace if x[0] == "sys" and x[1] in names]
                r.ob(lab + ": the gateway's %s is used" % a, not given and not v or len(v) == 1 and v[0][3] == 1 and v[0][2][0] == c and v[0][2][1] == P(B(a)), "%s" % v, where)
        elif session:
            r.ob(lab + ": the session to resume is kept", sess == P(B("session")), "", where)
    r.count("successful handshakes", n)


def tcp_connect(r, case):
    """TCPStack::connect on the sockets"""
    sock, ai = case
    W = NetWorld(False)
    p = W.p
    fn = p.fn("TCPStack::connect")
    st = W.state(0, SOCK if sock else 0, False, False, addrinfo=ai)
    outs = W.run(r, fn, [P(B("net")), P(B("host")), P(B("port"))], st)
    where = loc(fn)
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        t, s = truth(o), o.st
        fd = W.get(s, "_sockfd")[2]
        lab = "TCP connect"
        r.ob(lab + ": it succeeds or fails", t is not None, "", where)
        if sock:
            r.ob(lab + " of a connected one: nothing is done", t is True and fd == const(SOCK) and not [x for x in s.trace if x[0] == "sys"], "%s %s" % (t, fd), where)
            continue
        a = W.get(s, "_addrinfo")
        r.ob(lab + ": the address that is kept was not freed", a[0] == "N" or not s.ghost.get(("gone", a[1])), "_addrinfo is dangling", where)
        ais = [x[3][0] for x in sysev(o, "getaddrinfo")] + ([P(B("ai0"))] if ai else [])
        r.ob(lab + ": an address is kept or freed", all(x == a or s.ghost.get(("gone", x[1])) for x in ais), "it is lost", where)
        fds = [x[3] for x in sysev(o, "socket")]
        closed = [x[2][0][2] for x in sysev(o, "close")]
        if t is False:
            r.ob(lab + " that fails: no socket is left", fd == ZERO and all(closed.count(x) == 1 for x in fds) and len(closed) == len(fds), "_sockfd %s, opened %s, closed %s" % (fd, fds, closed), where)
        elif t is True:
            n += 1
            g = sysev(o, "getaddrinfo")
            r.ob(lab + " that succeeds: the host and port were looked up", len(g) == 1 and g[0][2] == (P(B("host")), P(B("port"))), "%s" % [x[2] for x in g], where)
            r.ob(lab + " that succeeds: a stream is asked for", g and g[0][3][1] is not None and g[0][3][1][2] == const(STREAM), "%s" % [x[3] for x in g], where)
            x = g[0][3][0] if g else NULL
            ip = Interp(p)
            ld = lambda off, k, ty: ip.load(s, x[1], Lin(off), k, ty)
            sk, cn = sysev(o, "socket"), [y for y in sysev(o, "connect") if y[3] == 0]
            r.ob(lab + " that succeeds: the socket is of the address' kind", len(sk) == 1 and [y[2] for y in sk[0][2]] == [ld(k, 4, "i32")[2] for k in (4, 8, 12)], "%s" % sk, where)
            r.ob(lab + " that succeeds: it is connected to the address", len(cn) == 1 and cn[0][2][0][2] == fds[-1] and cn[0][2][1] == ld(24, 8, "ptr") and same_int(s.facts, 32, cn[0][2][2][2], ld(16, 4, "i32")[2]), "%s" % cn, where)
            r.ob(lab + " that succeeds: it is the connection's", s.facts.entails_eq(fd - fds[-1]) and not closed, "_sockfd %s, closed %s" % (fd, closed), where)
    if not sock:
        r.floor("TCP connects that succeed", n, 1)


def clear_connect(r, case):
    secure, sock = case
    W = NetWorld(True)
    fn = pick(W.p, "Network::connect", 3)
    st = W.state(secure, SOCK if sock else 0, False, False)
    for o in W.run(r, fn, [P(B("net")), P(B("host")), P(B("port"))], st):
        if o.kind != "ret":
            continue
        t = truth(o)
        tcp = [x for x in o.st.trace if x[0] == "tcp"]
        fd = W.get(o.st, "_sockfd")[2]
        if secure:
            r.ob("connect without TLS of a secure connection: fails, nothing is done", t is False and not tcp and not [x for x in o.st.trace if x[0] == "sys"], "%s %s" % (t, tcp), loc(fn))
        elif sock:
            r.ob("connect of a connected one: succeeds, nothing is done", t is True and fd == const(SOCK), "%s %s" % (t, tcp), loc(fn))
        else:
            r.ob("connect: connects to host and port, and says whether it could", len(tcp) == 1 and tcp[0][1][1:3] == (P(B("host")), P(B("port"))) and t == (tcp[0][2] == "connects"), "%s %s" % (t, tcp), loc(fn))


def send(r, case):
    secure, ssl = case
    W = NetWorld(True)
    p = W.p
    fn = p.fn("Network::send")
    st = W.state(secure, SOCK, ssl, ssl)
    N = var(("sym", "length", 1, 65535))
    buf(st, "data", N)
    outs = W.run(r, fn, [P(B("net")), P(B("data")), I(16, N)], st)
    where = loc(fn)
    ends = set()
    for o in outs:
        if o.kind != "ret":
            continue
        s, v = o.st, o.val[2]
        if not secure:
            x = sysev(o, "send")
            r.ob("send: the bytes are given to the socket, once", len(x) == 1 and x[0][2][0][2] == const(SOCK) and x[0][2][1] == P(B("data")) and s.facts.entails_eq(x[0][2][2][2] - N), "%s" % x, where)
            r.ob("send: a connection that is gone raises no signal", len(x) == 1 and not x[0][2][3][2].t and x[0][2][3][2].c & NOSIGNAL, "flags %s" % (x and x[0][2][3][2]), where)
            r.ob("send: the result is the socket's", len(x) == 1 and same_int(s.facts, 32, v, x[0][3][2]), "%s" % v, where)
            ends.add("clear")
            continue
        lab = "send over TLS"
        r.ob(lab + ": nothing is sent in clear text", not sysev(o, "send"), "::send", where)
        ios = [x for x in s.trace if x[0] == "io"]
        if not ssl:
            r.ob(lab + " without a session: fails", s.facts.entails(-v - 1) and not ios, "%s" % v, where)
            continue
        for x in ios:
            r.ob(lab + ": every write continues where the last one ended", x[1], x[3], where)
            r.ob(lab + ": every write is for what is left", s.facts.entails_eq(x[4] - N), "ends at %s" % x[4], where)
        done = Interp(p).load(s, B("wire"), ZERO, 4, "i32")[2]
        ok = s.facts.entails(-v - 1) or s.facts.entails_eq(v - N) and s.facts.entails_eq(done - N)
        ends.add("all" if s.facts.entails_eq(v - N) else "fails")
        r.ob(lab + ": all bytes are written, or it fails", ok, "returns %s, %s bytes of %s are written" % (v, done, N), where)
        r.ob(lab + ": the connection is free again", W.get(s, "_busy")[2] == ZERO, "_busy is %s" % W.get(s, "_busy")[2], where)
        r.ob(lab + ": the session is kept", W.get(s, "_ssl") == P(B("ssl")) and not s.ghost.get(("gone", B("ssl"))) or s.facts.entails(-v - 1), "", where)
    if secure and ssl:
        r.floor("ends of send over TLS", len(ends), 2)


def recv(r, case):
    secure, ssl, busy = case
    W = NetWorld(True)
    p = W.p
    fn = p.fn("Network::recv")
    st = W.state(secure, SOCK, ssl, ssl, busy=busy)
    n0 = W.n0
    N = var(("sym", "length", 1, 65535))
    buf(st, "data", N)
    outs = W.run(r, fn, [P(B("net")), P(B("data")), I(16, N)], st)
    where = loc(fn)
    ends = set()
    for o in outs:
        if o.kind != "ret":
            continue
        s, v = o.st, o.val[2]
        if not secure:
            x = sysev(o, "recv")
            r.ob("receive: bytes come from the socket", len(x) == 1 and x[0][2][0][2] == const(SOCK) and x[0][2][1] == P(B("data")) and s.facts.entails_eq(x[0][2][2][2] - N), "%s" % x, where)
            r.ob("receive: the result is the socket's", len(x) == 1 and same_int(s.facts, 32, v, x[0][3][2]), "%s" % v, where)
            continue
        lab = "receive over TLS"
        r.ob(lab + ": nothing is read in clear text", not sysev(o, "recv"), "::recv", where)
        ios = [x for x in s.trace if x[0] == "io"]
        if not ssl or busy:
            r.ob(lab + " without a session, or while it is in use: nothing", s.facts.entails(-v) and not ios, "%s" % v, where)
            r.ob(lab + " while it is in use: it stays in use", not busy or W.get(s, "_busy")[2] == const(1), "", where)
            continue
        for x in ios:
            r.ob(lab + ": bytes are appended in order", x[1], x[3], where)
            r.ob(lab + ": not more than fit", s.facts.entails(N - x[4]), "up to %s of %s" % (x[4], N), where)
        done = Interp(p).load(s, B("wire"), ZERO, 4, "i32")[2]
        last = [x[1] for x in s.trace if x[0] == "err"]
        pos = s.facts.entails(v - 1)
        ends.add(pos)
        r.ob(lab + ": it returns the number of bytes, or fails", pos and s.facts.entails_eq(v - done) or s.facts.entails(-v - 1), "returns %s, %s bytes are there" % (v, done), where)
        r.ob(lab + ": the connection is free again", W.get(s, "_busy")[2] == ZERO, "_busy is %s" % W.get(s, "_busy")[2], where)
        gone = bool(s.ghost.get(("gone", B("ssl"))))
        now = W.get(s, "_ssl")
        num = Interp(p).load(s, NUM, ZERO, 4, "i32")[2]
        sv = W.get(s, "_sslValid")[2]
        r.ob(lab + ": a session that ended is freed and no longer valid", (now == NULL and gone and sv == ZERO and s.facts.entails_eq(num - n0 + 1)) or (now == P(B("ssl")) and not gone and sv == const(1) and s.facts.entails_eq(num - n0)),
             "_ssl %s, freed %s, _sslValid %s, sessions %s" % (now, gone, sv, num - n0), where)
        if not pos and last and last[-1] in (ZERO_RETURN, SYSCALL):
            r.ob(lab + ": when the broker ends the session it is over", now == NULL, "", where)
        if pos:
            r.ob(lab + ": the session is kept while data comes", now == P(B("ssl")), "", where)
    if secure and ssl and not busy:
        r.floor("ends of receive over TLS", len(ends), 2)


def close(r, case):
    secure, ssl, ctx, session, sock = case
    W = NetWorld(False)
    p = W.p
    fn = p.fn("Network::close")
    st = W.state(secure, SOCK if sock else 0, ssl, ssl, ctx, session, addrinfo=sock)
    n0 = W.n0
    where = loc(fn)
    ip = Interp(p)
    for o in W.run(r, fn, [P(B("net"))], st):
        if o.kind != "ret":
            continue
        s = o.st
        lab = "close"
        c = [x[2][0][2] for x in sysev(o, "close")]
        r.ob(lab + ": the socket is closed, once", c == ([const(SOCK)] if sock else []) and W.get(s, "_sockfd")[2] == ZERO, "closed %s, _sockfd %s" % (c, W.get(s, "_sockfd")[2]), where)
        a = W.get(s, "_addrinfo")
        r.ob(lab + ": the address is freed or kept", a[0] == "N" or not s.ghost.get(("gone", a[1])), "_addrinfo is dangling", where)
        num = ip.load(s, NUM, ZERO, 4, "i32")[2]
        if secure:
            r.ob(lab + ": the TLS session is freed and forgotten", W.get(s, "_ssl") == NULL and (not ssl or bool(s.ghost.get(("gone", B("ssl"))))) and (not ssl or W.get(s, "_sslValid")[2] == ZERO), "_ssl %s, _sslValid %s" % (W.get(s, "_ssl"), W.get(s, "_sslValid")[2]), where)
            r.ob(lab + ": it is no longer counted", s.facts.entails_eq(num - n0 + int(ssl)), "%s" % (num - n0), where)
            for g, nm in ((CTX, "ctx"), (SESSION, "session")):
                v = ip.load(s, g, ZERO, 8, "ptr")
                had = ctx if nm == "ctx" else session
                freed = bool(s.ghost.get(("gone", B(nm))))
                r.ob(lab + ": the shared %s is freed only with the last session, and then forgotten" % nm, not had or (freed and v == NULL and s.facts.entails_eq(num)) or (not freed and v == P(B(nm)) and not s.facts.entails_eq(num)),
                     "freed %s, %s, sessions left %s" % (freed, v, num), where)
        else:
            r.ob(lab + " of a connection without TLS: no session is touched", s.facts.entails_eq(num - n0) and not s.ghost.get(("gone", B("ssl"))), "", where)


def valid(r, case):
    secure, sock, ok, busy = case
    W = NetWorld(False)
    fn = W.p.fn("Network::isValid")
    st = W.state(secure, SOCK if sock else 0, ok, ok, busy=busy)
    want = bool(sock and (not secure or ok and not busy))
    for o in W.run(r, fn, [P(B("net"))], st):
        r.ob("a connection is usable when its socket is open and, with TLS, its session established and free", o.kind == "ret" and truth(o) is want, "%s, should be %s" % (truth(o), want), loc(fn))


B2 = (0, 1)
PARTS = [(tls_connect, (s, k, v, c, e, ce, ke)) for s in B2 for k in B2 for v in B2 for c in B2 for e in B2 for ce in B2 for ke in B2
         if (s or (not v and c and e and ce and ke)) and (not v or k and c) and (not e or c) and (not (v or c) or ce and ke) and (ce == ke or not c)] + \
        [(tcp_connect, (s, a)) for s in B2 for a in (None, "live")] + [(clear_connect, (s, k)) for s in B2 for k in B2] + \
        [(send, x) for x in ((0, 0), (1, 0), (1, 1))] + [(recv, x) for x in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1))] + \
        [(close, (s, x, c, e, k)) for s in B2 for x in B2 for c in B2 for e in B2 for k in B2 if (not x or s and c) and (s or not x) and (not e or c)] + \
        [(valid, (s, k, v, b)) for s in B2 for k in B2 for v in B2 for b in B2 if not v or k]


def N01(r):
    r.rule("a connection is made to the broker's address; with TLS only after the handshake, with a verified certificate of that host; what is sent and received goes through it completely and in order, nothing in clear text")
    prog("gw:udp")

    def one(q, k):
        q.case_name = "%s %s" % (k[0].__name__, k[1])
        k[0](q, k[1])
    pmap(r, PARTS, one)
    r.floor("successful handshakes", r.counts.get("successful handshakes", 0), 2)
    r.floor("ways the names can match", sum(1 for k in r.counts if k.startswith("matches: ")), 1)


REG = {"N01": N01}
