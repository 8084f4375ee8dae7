"""An abstract domain of texts: a text is a sequence of literal characters and of symbolic parts (any non-empty string of a class: it contains none of some
characters and words).  std::string objects and C strings are bound to texts; positions are linear expressions over the lengths of the parts."""
import build
from gw import *

SEP = " \t\n,:#*=/"
WORDS = ("QoS-1", "forwarder", "secureConnection", "unstableLine")
IDSP = "\u3000".encode()          # the ideographic space; its bytes are blanks for find_first_of


class Part:
    """a symbolic part"""

    def __init__(self, name, excl=SEP, words=WORDS, lo=None, hi=None):
        """with lo and hi: a decimal number in these bounds"""
        self.name, self.excl, self.words, self.lo, self.hi = name, excl, words, lo, hi

    def len(self):
        return var(("sym", "|%s|" % self.name, 1, 1 << 16))

    def __eq__(self, o):
        return isinstance(o, Part) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<%s>" % self.name


def T(*xs):
    out = []
    for x in xs:
        out += list(x) if isinstance(x, (str, tuple, list)) else [x]
    return tuple(out)


def show(t):
    return "".join(x if isinstance(x, str) else "<%s>" % x.name for x in t) if t is not None else "?"


def bounds(t):
    r = [ZERO]
    for x in t:
        r.append(r[-1] + (1 if isinstance(x, str) else x.len()))
    return r


def undecided(what):
    raise build.AnalysisBroken("text: " + what)


def index(st, t, pos):
    """the part at which the position is, or None"""
    bs = bounds(t)
    for k, b in enumerate(bs):
        if b == pos or st.facts.entails_eq(b - pos):
            return k
    return None


def find_any(t, chars, k=0, back=False, neg=False):
    ks = range(k, len(t)) if not back else range(len(t) - 1, -1, -1)
    for i in ks:
        x = t[i]
        if isinstance(x, str):
            if (x in chars) != neg:
                return i
        elif neg or any(c not in x.excl and ord(c) < 128 for c in chars):
            undecided("the search for %r in %s" % (chars, show(t)))
    return None


def find_word(t, w, k=0):
    for i in range(k, len(t)):
        x = t[i]
        if isinstance(x, str):
            if t[i:i + len(w)] == tuple(w):
                return i
            for j, y in enumerate(t[i:i + len(w)]):
                if not isinstance(y, str):
                    undecided("the search for %r in %s" % (w, show(t)))
                if y != w[j]:
                    break
        elif w in x.words or any(c in x.excl for c in w):
            nx = t[i + 1:i + 2]
            if len(w) > 1 and nx and (not isinstance(nx[0], str) or nx[0] in w):
                undecided("the search for %r in %s" % (w, show(t)))
        else:
            undecided("the search for %r in %s" % (w, show(t)))
    return None


NPOS = (1 << 64) - 1


class Texts:
    def __init__(self, models):
        self.m = models
        M = models
        put = self.put
        nop = lambda ip, st, a, ins, fr: [(st, ("U", "void"))]
        for k in ("_ZNSt15__new_allocatorIcED2Ev", "_ZNSaIcEC1Ev", "_ZNSaIcED1Ev", "_ZNSt15__new_allocatorIcEC2Ev", STR + "D1Ev", STR + "D2Ev"):
            M[k] = nop

        def ctor(get):
            def m(ip, st, a, ins, fr):
                put(ip, st, a[0], get(ip, st, a, ins, fr))
                return [(st, a[0] if ins.get("ty") == "ptr" else ("U", "void"))]
            return m
        c = lambda i: lambda ip, st, a, ins, fr: self.cstr(ip, st, a[i], ins, fr)
        o = lambda i: lambda ip, st, a, ins, fr: self.get(st, a[i])
        for k in ("C1EPKcRKS3_", "C2EPKcRKS3_", "C1IS3_EEPKcRKS3_", "C2IS3_EEPKcRKS3_", "aSEPKc", "6assignEPKc"):
            M[STR + k] = ctor(c(1))
        for k in ("C1ERKS4_", "C2ERKS4_", "C1EOS4_", "C2EOS4_", "aSERKS4_", "aSEOS4_", "6assignERKS4_"):
            M[STR + k] = ctor(o(1))
        for k in ("C1Ev", "C2Ev"):
            M[STR + k] = ctor(lambda ip, st, a, ins, fr: ())
        for k in ("5clearEv",):
            M[STR + k] = ctor(lambda ip, st, a, ins, fr: ())
        for k in ("pLEPKc", "6appendEPKc"):
            M[STR + k] = ctor(lambda ip, st, a, ins, fr: self.get(st, a[0]) + self.cstr(ip, st, a[1], ins, fr))
        for k in ("pLERKS4_", "6appendERKS4_"):
            M[STR + k] = ctor(lambda ip, st, a, ins, fr: self.get(st, a[0]) + self.get(st, a[1]))
        plus = "_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EE"
        for k, l, r in (("RKS8_SA_", o(1), o(2)), ("OS8_S9_", o(1), o(2)), ("OS8_PKS5_", o(1), c(2)), ("RKS8_PKS5_", o(1), c(2)), ("PKS5_RKS8_", c(1), o(2)), ("RKS8_OS8_", o(1), o(2)), ("OS8_RKS8_", o(1), o(2)),
                        ("PKS5_OS8_", c(1), o(2))):
            M[plus + k] = ctor(lambda ip, st, a, ins, fr, l=l, r=r: l(ip, st, a, ins, fr) + r(ip, st, a, ins, fr))

        def size(ip, st, a, ins, fr):
            return [(st, I(64, bounds(self.get(st, a[0]))[-1]))]
        M[KSTR + "4sizeEv"] = M[KSTR + "6lengthEv"] = size
        M[KSTR + "5emptyEv"] = lambda ip, st, a, ins, fr: [(st, I(1, int(not self.get(st, a[0]))))]
        M[KSTR + "5c_strEv"] = M[KSTR + "4dataEv"] = lambda ip, st, a, ins, fr: [(st, self.buffer(ip, st, self.get(st, a[0])))]

        def search(chars, back=False, word=False):
            """chars(ip, st, a, ins, fr): the text searched for"""
            def m(ip, st, a, ins, fr):
                t = self.get(st, a[0])
                w = chars(ip, st, a, ins, fr)
                if not all(isinstance(x, str) for x in w):
                    undecided("a search for %s" % show(w))
                k = 0
                if not back and len(a) > 2 and a[2][0] == "I":
                    k = index(st, t, a[2][2])
                    if k is None:
                        if st.facts.entails(a[2][2] - bounds(t)[-1]):
                            k = len(t)
                        elif a[2] == I(64, 0):
                            k = 0
                        else:
                            undecided("the position %s in %s" % (a[2][2], show(t)))
                i = find_word(t, "".join(w), k) if word else find_any(t, "".join(w), k, back)
                return [(st, I(64, bounds(t)[i] if i is not None else Lin(NPOS)))]
            return m
        ch = lambda ip, st, a, ins, fr: (chr(a[1][2].c),) if not a[1][2].t else undecided("a search for an unknown character")
        M[KSTR + "13find_first_ofEPKcm"] = search(c(1))
        M[KSTR + "13find_first_ofEcm"] = M[KSTR + "4findEcm"] = search(ch)
        M[KSTR + "12find_last_ofEPKcm"] = search(c(1), back=True)
        M[KSTR + "12find_last_ofEcm"] = M[KSTR + "5rfindEcm"] = search(ch, back=True)
        M[KSTR + "4findEPKcm"] = search(c(1), word=True)
        M[KSTR + "4findERKS4_m"] = search(o(1), word=True)

        def rng(st, t, p, n):
            """part indices of [p, p+n)"""
            i = index(st, t, p)
            bs = bounds(t)
            if i is None:
                if st.facts.entails(p - bs[-1] - 1):
                    return None
                undecided("position %s of %s" % (p, show(t)))
            if not n.t and n.c in (NPOS, -1):
                return i, len(t)
            e = p + n
            if e.c >= 1 << 63:
                e = e - (1 << 64)
            j = index(st, t, e)
            if j is None:
                if st.facts.entails(e - bs[-1]):
                    j = len(t)
                else:
                    undecided("position %s of %s" % (e, show(t)))
            return i, max(i, j)

        def throws(st, what):
            st.ghost[("exc",)] = "std::" + what
            return [Outcome(st, ("U", "exc"), "throw")]

        def substr(ip, st, a, ins, fr):
            t = self.get(st, a[1])
            r = rng(st, t, a[2][2], a[3][2])
            if r is None:
                return throws(st, "out_of_range")
            put(ip, st, a[0], t[r[0]:r[1]])
            return [(st, ("U", "void"))]
        M[KSTR + "6substrEmm"] = substr

        def erase(ip, st, a, ins, fr):
            t = self.get(st, a[0])
            r = rng(st, t, a[1][2], a[2][2])
            if r is None:
                return throws(st, "out_of_range")
            put(ip, st, a[0], t[:r[0]] + t[r[1]:])
            return [(st, a[0])]
        M[STR + "5eraseEmm"] = erase

        def ctor_sub(ip, st, a, ins, fr):
            t = self.get(st, a[1])
            n = a[3][2] if len(a) > 3 and a[3][0] == "I" else Lin(NPOS)
            r = rng(st, t, a[2][2], n)
            if r is None:
                return throws(st, "out_of_range")
            put(ip, st, a[0], t[r[0]:r[1]])
            return [(st, ("U", "void"))]
        for k in ("C1ERKS4_mm", "C2ERKS4_mm", "C1ERKS4_mmRKS3_", "C1ERKS4_mRKS3_", "C1ERKS4_m"):
            M[STR + k] = ctor_sub

        def at(ip, st, a, ins, fr):
            t = self.get(st, a[0])
            b = self.buffer(ip, st, t)
            return [(st, P(b[1], a[1][2]))]
        for k in (KSTR, STR):
            M[k + "ixEm"] = M[k + "2atEm"] = at
            M[k + "5frontEv"] = lambda ip, st, a, ins, fr: at(ip, st, [a[0], I(64, 0)], ins, fr)
            M[k + "4backEv"] = lambda ip, st, a, ins, fr: at(ip, st, [a[0], I(64, bounds(self.get(st, a[0]))[-1] - 1)], ins, fr)

        def addchar(ip, st, a, ins, fr):
            if a[1][2].t:
                undecided("an unknown character is appended")
            put(ip, st, a[0], self.get(st, a[0]) + (chr(a[1][2].c & 255),))
            return [(st, a[0] if ins.get("ty") == "ptr" else ("U", "void"))]
        M[STR + "pLEc"] = M[STR + "9push_backEc"] = addchar

        def same(l, r):
            def m(ip, st, a, ins, fr):
                x, y = l(ip, st, a, ins, fr), r(ip, st, a, ins, fr)
                w = int(ins["ty"][1:])
                v = equal(x, y)
                if v is None:
                    undecided("the comparison of %s and %s" % (show(x), show(y)))
                return [(st, I(1, int(v)) if w == 1 else I(w, 0 if v else var(("sym", st.fresh("cmp"), 1, 255))))]
            return m
        for k, l, r in (("_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_", o(0), c(1)), (KSTR + "7compareEPKc", o(0), c(1)), (KSTR + "7compareERKS4_", o(0), o(1)),
                        ("_ZSteqIcEN9__gnu_cxx11__enable_ifIXsr9__is_charIT_EE7__valueEbE6__typeERKNSt7__cxx1112basic_stringIS3_St11char_traitsIS3_ESaIS3_EEESC_", o(0), o(1)), ("strcmp", c(0), c(1)),
                        ("_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EESA_", o(0), o(1))):
            M[k] = same(l, r)
            if "SteqI" in k:
                n = k.replace("_ZSteqI", "_ZStneI")
                M[n] = lambda ip, st, a, ins, fr, m=M[k]: [(s2, I(1, const(1) - v[2])) for s2, v in m(ip, st, a, ins, fr)]

        def compare_sub(get):
            def m(ip, st, a, ins, fr):
                t = self.get(st, a[0])
                r = rng(st, t, a[1][2], a[2][2])
                if r is None:
                    return throws(st, "out_of_range")
                u = get(ip, st, a, ins, fr)
                if u is None:
                    return throws(st, "out_of_range")
                v = equal(t[r[0]:r[1]], u)
                if v is None:
                    undecided("a comparison with %s" % show(t))
                return [(st, I(32, 0 if v else var(("sym", st.fresh("cmp"), 1, 255))))]
            return m

        def part_of(ip, st, a, ins, fr):
            t = self.get(st, a[3])
            r = rng(st, t, a[4][2], a[5][2] if len(a) > 5 else Lin(NPOS))
            return None if r is None else t[r[0]:r[1]]
        M[KSTR + "7compareEmmPKc"] = compare_sub(c(3))
        M[KSTR + "7compareEmmRKS4_"] = compare_sub(o(3))
        M[KSTR + "7compareEmmRKS4_mm"] = M[KSTR + "7compareEmmRKS4_m"] = compare_sub(part_of)

        # std::vector<std::string>: the elements' texts, as slots of one object
        V = "_ZNSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EE"
        KV = "_ZNK" + V[3:]
        key = lambda v: ("texts", v[1], v[2])

        def texts(st, v):
            if v[0] == "P" and key(v) in st.ghost:
                return st.ghost[key(v)]
            undecided("the elements of %s are not known" % (v[1:],))

        def slots(ip, st, v, ts):
            st.ghost[key(v)] = tuple(ts)
            for k, t in enumerate(ts):
                put(ip, st, P(slot(v), 32 * k), t)
            return [(st, ("U", "void"))]

        def slot(v):
            return ("vec", v[1], v[2])

        def current(st, v):
            """elements may have been changed in place"""
            return tuple(st.ghost[("text", slot(v), Lin(32 * k))] for k in range(len(texts(st, v))))

        def element(ip, st, a, ins, fr, k=None):
            n = len(texts(st, a[0]))
            k = a[1][2] if k is None else Lin(k % n if n else 0)
            if k.t or not 0 <= k.c < n:
                undecided("element %s of %d" % (k, n))
            return [(st, P(slot(a[0]), 32 * k.c))]
        for x in ("C1Ev", "C2Ev", "5clearEv"):
            M[V + x] = lambda ip, st, a, ins, fr: slots(ip, st, a[0], ())
        for x in ("D1Ev", "D2Ev"):
            M[V + x] = nop
        for x in ("C1ERKS7_", "C2ERKS7_", "C1EOS7_", "C2EOS7_", "aSERKS7_", "aSEOS7_"):
            M[V + x] = lambda ip, st, a, ins, fr: slots(ip, st, a[0], current(st, a[1]))
        M[V + "7reserveEm"] = nop
        for x in ("9push_backERKS5_", "9push_backEOS5_", "12emplace_backIJS5_EEEvDpOT_", "12emplace_backIJRS5_EEEvDpOT_", "12emplace_backIJRKS5_EEEvDpOT_"):
            M[V + x] = lambda ip, st, a, ins, fr: slots(ip, st, a[0], current(st, a[0]) + (self.get(st, a[1]),))
        M[V + "8pop_backEv"] = lambda ip, st, a, ins, fr: slots(ip, st, a[0], current(st, a[0])[:-1])
        for b in (V, KV):
            M[b + "ixEm"] = M[b + "2atEm"] = element
            M[b + "5frontEv"] = lambda ip, st, a, ins, fr: element(ip, st, a, ins, fr, 0)
            M[b + "4backEv"] = lambda ip, st, a, ins, fr: element(ip, st, a, ins, fr, -1)
            M[b + "4sizeEv"] = lambda ip, st, a, ins, fr: [(st, I(64, len(texts(st, a[0]))))]
            M[b + "5emptyEv"] = lambda ip, st, a, ins, fr: [(st, I(1, int(not texts(st, a[0]))))]
            M[b + "5beginEv"] = M[b + "6cbeginEv"] = lambda ip, st, a, ins, fr: [(st, P(slot(a[0]), 0))]
            M[b + "3endEv"] = M[b + "4cendEv"] = lambda ip, st, a, ins, fr: [(st, P(slot(a[0]), 32 * len(texts(st, a[0]))))]

        def strdup(ip, st, a, ins, fr):
            t = self.cstr(ip, st, a[0], ins, fr)
            p = self.buffer(ip, st, t, "heap")
            st.event("strdup", p[1])
            return [(st, p)]
        M["strdup"] = strdup

        def number(get, base=None):
            def m(ip, st, a, ins, fr):
                t = get(ip, st, a, ins, fr)
                w = int(ins["ty"][1:])
                if base is not None and a[base] != I(32, 10):
                    if all(isinstance(x, str) for x in t):
                        undecided("the number %s of another base" % show(t))
                    return [(st, I(w, var(("sym", st.fresh("number of another base"), 0, (1 << 31) - 1))))]
                return [(st, I(w, self.number(t, w)))]
            return m
        M["atoi"] = M["atol"] = number(c(0))
        M["strtoul"] = M["strtol"] = M["__isoc23_strtol"] = M["__isoc23_strtoul"] = number(c(0), 2)
        for f in ("stoul", "stoi", "stol"):
            M["_ZNSt7__cxx11%s%sERKNS_12basic_stringIcSt11char_traitsIcESaIcEEEPmi" % (len(f), f)] = number(o(0), 2)

        def cstrlen(ip, st, a, ins, fr):
            return [(st, I(64, bounds(self.cstr(ip, st, a[0], ins, fr))[-1]))]
        M["strlen"] = cstrlen

    def number(self, t, w):
        """the value of a decimal number"""
        while t and t[0] in (" ", "\t"):
            t = t[1:]
        if t and isinstance(t[0], Part) and t[0].lo is not None and not (t[1:2] and (not isinstance(t[1], str) or t[1].isdigit())):
            return var(("sym", "number:" + t[0].name, t[0].lo, t[0].hi))
        if all(isinstance(x, str) for x in t):
            s = "".join(t).strip()
            i = 0
            while i < len(s) and s[i].isdigit():
                i += 1
            return Lin(int(s[:i] or 0))
        undecided("the number %s" % show(t))

    def put(self, ip, st, S, t):
        if S[0] != "P":
            undecided("a string object that is not known")
        st.ghost[("text", S[1], S[2])] = tuple(t)

    def get(self, st, S):
        if S[0] == "P":
            t = st.ghost.get(("text", S[1], S[2]))
            if t is not None:
                return t
        undecided("the text of %s is not known" % (S[1:],))

    def buffer(self, ip, st, t, kind="strbuf"):
        """a NUL terminated copy"""
        o = (kind, st.fresh("text:" + show(t)), 0) if kind == "heap" else (kind, st.fresh("text:" + show(t)))
        st.mem[o] = Content(("sym", 0))
        st.null[o] = False
        self.fill(ip, st, o, ZERO, t)
        st.sizes[o] = bounds(t)[-1] + 1
        return P(o)

    def fill(self, ip, st, o, off, t):
        bs = bounds(t)
        for x, b in zip(t, bs):
            if isinstance(x, str):
                ip.store(st, o, off + b, 1, I(8, ord(x) & 255))
            else:
                v = x.first() if hasattr(x, "first") else var(("sym", "first of " + x.name, 1, 127))
                f = st.facts
                for c in x.excl:
                    f = f.add_ne(v - ord(c))
                st.facts = f
                ip.store(st, o, off + b, 1, I(8, v))
        ip.store(st, o, off + bs[-1], 1, I(8, 0))
        st.ghost[("ctext", o)] = (ip.content(st, o).id(), off, tuple(t))

    def cstr(self, ip, st, p, ins=None, fr=None):
        """the text at a C string"""
        if p[0] == "P" and p[1][0] == "g" and not p[2].t:
            s = ip.prog.cstr(p[1][1])
            if s is not None:
                return tuple(s.decode("latin-1") if isinstance(s, bytes) else s)[p[2].c:]
        if p[0] == "P":
            g = st.ghost.get(("ctext", p[1]))
            if g and g[0] == ip.content(st, p[1]).id():
                k = index(st, g[2], p[2] - g[1])
                if k is not None:
                    return g[2][k:]
        undecided("the text at %s is not known" % (p[1:],))


def equal(x, y):
    """True, False or None"""
    if x == y:
        return True
    for a, b in zip(x, y):
        if isinstance(a, str) and isinstance(b, str):
            if a != b:
                return False
        elif isinstance(a, str) or isinstance(b, str):
            c, s = (a, b) if isinstance(a, str) else (b, a)
            return False if c in s.excl else None
        elif a != b:
            # different levels are different texts; neither is then a beginning of the other unless as a piece of its own
            return False if getattr(a, "distinct", False) and getattr(b, "distinct", False) else None
    if len(x) != len(y):
        return False
    return None
