"""Linear-inequality abstract domain: affine expressions over atoms, conjunctions of L >= 0,
entailment by bounded Fourier-Motzkin elimination with integer tightening (no external solver)."""
from math import gcd
from functools import lru_cache

INF = None


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t:
            return Lin(self.c + o.c, self.t) if o.c else self
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        return mk(self.c + o.c, d)

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    @property
    def const(self):
        return self.c if not self.t else None

    def __repr__(self):
        s = []
        for a, k in self.t:
            s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + atom_str(a))
        if self.c or not s:
            s.append(str(self.c))
        return " + ".join(s)


def atom_key(a):
    return repr(a)


_keys = {}


def _k(a):
    k = _keys.get(a)
    if k is None:
        k = _keys[a] = len(_keys)
    return k


def mk(c, d):
    if not d:
        return Lin(c, ())
    items = sorted(d.items(), key=lambda x: _k(x[0]))
    return Lin(c, tuple(items))


ZERO = Lin(0)
ONE = Lin(1)


def const(n):
    return Lin(n)


def var(a):
    return Lin(0, ((a, 1),))


def atom_str(a):
    if isinstance(a, tuple):
        if a[0] == "sym":
            return a[1]
        if a[0] == "ld":
            return "[%s+%s]%s" % (obj_str(a[1]), a[2], "" if a[4] == 0 else "'%s" % (a[4],))
        if a[0] == "bits":
            return "bits(" + bits_str(a[1]) + ")"
        if a[0] == "uf":
            return "%s(%s)" % (a[1], ",".join(str(x) for x in a[2]))
    return str(a)


def obj_str(o):
    if isinstance(o, tuple):
        if o[0] == "*":
            return "*(%s+%s)" % (obj_str(o[1]), o[2])
        if o[0] == "alloca":
            return "&%s" % (o[-1],)
        return ":".join(str(x) for x in o if not isinstance(x, tuple))
    return str(o)


def bits_str(bs):
    out = []
    for b in bs:
        if b in (0, 1):
            out.append(str(b))
        elif b is None:
            out.append("?")
        elif b[0] == "~":
            out.append("~%s.%d" % (atom_str(b[1]), b[2]))
        else:
            out.append("%s.%d" % (atom_str(b[0]), b[1]))
    return " ".join(out)


def atom_range(a):
    """(lo, hi), each int or None"""
    if a[0] == "sym":
        return a[2], a[3]
    if a[0] == "ld":
        n = a[3]
        if n <= 2:
            return 0, (1 << (8 * n)) - 1
        return -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1
    if a[0] == "bits":
        hi = 0
        for i, b in enumerate(a[1]):
            if b != 0:
                hi |= 1 << i
        return 0, hi
    if a[0] == "uf":
        return a[3], a[4]
    return None, None


def interval(L, bnd=None):
    lo = hi = L.c
    for a, k in L.t:
        l, h = (bnd.get(a) if bnd and a in bnd else None) or atom_range(a)
        if k < 0:
            l, h = h, l
        if lo is not None:
            lo = None if l is None else lo + k * l
        if hi is not None:
            hi = None if h is None else hi + k * h
    return lo, hi


MAXC = 400


def _norm(c, d):
    """constraint sum d + c >= 0 ; tighten by gcd"""
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        return (c // g if c >= 0 or c % g == 0 else -((-c + g - 1) // g)), {a: k // g for a, k in d.items()}
    return c, d


def infeasible(cons):
    """cons: list of Lin meaning >=0.  True only if no integer point (sound, incomplete)."""
    cs = []
    seen = set()
    for L in cons:
        d = dict(L.t)
        c = L.c
        if not d:
            if c < 0:
                return True
            continue
        c, d = _norm(c, d)
        key = (c, frozenset(d.items()))
        if key not in seen:
            seen.add(key)
            cs.append((c, d))
    while True:
        best = None
        cnt = {}
        for c, d in cs:
            for a, k in d.items():
                p = cnt.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not cnt:
            return any(c < 0 for c, d in cs if not d)
        for a, (p, n) in cnt.items():
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, a)
        a = best[1]
        pos = [(c, d) for c, d in cs if d.get(a, 0) > 0]
        neg = [(c, d) for c, d in cs if d.get(a, 0) < 0]
        new = [(c, d) for c, d in cs if a not in d]
        seen = {(c, frozenset(d.items())) for c, d in new}
        # keep only tightest for identical linear parts
        tight = {}
        for c, d in new:
            k = frozenset(d.items())
            if k not in tight or c < tight[k]:
                tight[k] = c
        for c1, d1 in pos:
            k1 = d1[a]
            for c2, d2 in neg:
                k2 = -d2[a]
                d = {}
                for x, k in d1.items():
                    if x != a:
                        d[x] = k * k2
                for x, k in d2.items():
                    if x != a:
                        v = d.get(x, 0) + k * k1
                        if v:
                            d[x] = v
                        else:
                            d.pop(x, None)
                c = c1 * k2 + c2 * k1
                if not d:
                    if c < 0:
                        return True
                    continue
                c, d = _norm(c, d)
                k = frozenset(d.items())
                if k not in tight or c < tight[k]:
                    tight[k] = c
        cs = [(c, dict(k)) for k, c in tight.items()]
        if len(cs) > MAXC:
            return False
        if not cs:
            return False


class Facts:
    """immutable conjunction of linear inequalities and disequalities"""
    __slots__ = ("ge", "ne", "_h", "_b")

    def __init__(self, ge=frozenset(), ne=frozenset()):
        self.ge = ge
        self.ne = ne
        self._h = None
        self._b = None

    def key(self):
        return (self.ge, self.ne)

    def bounds(self):
        """bounds per atom from unary facts"""
        if self._b is None:
            b = {}
            for L in self.ge:
                if len(L.t) == 1:
                    a, k = L.t[0]
                    lo, hi = b.get(a) or atom_range(a)
                    if k > 0:  # k*a + c >= 0 -> a >= ceil(-c/k)
                        v = -(L.c // k)
                        lo = v if lo is None else max(lo, v)
                    else:
                        v = L.c // (-k)
                        hi = v if hi is None else min(hi, v)
                    b[a] = (lo, hi)
            ch = True
            n = 0
            while ch and n < 4:
                ch = False
                n += 1
                for L in self.ne:
                    if len(L.t) == 1:
                        a, k = L.t[0]
                        if L.c % k == 0:
                            v = -L.c // k
                            lo, hi = b.get(a) or atom_range(a)
                            if lo is not None and lo == v:
                                b[a] = (lo + 1, hi)
                                ch = True
                            elif hi is not None and hi == v:
                                b[a] = (lo, hi - 1)
                                ch = True
            self._b = b
        return self._b

    def interval(self, L):
        return interval(L, self.bounds())

    def _relevant(self, L):
        atoms = set(a for a, _ in L.t)
        rest = list(self.ge)
        used = []
        ch = True
        while ch:
            ch = False
            nr = []
            for f in rest:
                if any(a in atoms for a, _ in f.t):
                    used.append(f)
                    for a, _ in f.t:
                        if a not in atoms:
                            atoms.add(a)
                            ch = True
                else:
                    nr.append(f)
            rest = nr
        b = self.bounds()
        for a in atoms:
            lo, hi = b.get(a) or atom_range(a)
            if lo is not None:
                used.append(Lin(-lo, ((a, 1),)))
            if hi is not None:
                used.append(Lin(hi, ((a, -1),)))
        return used

    def entails(self, L):
        """facts |- L >= 0"""
        lo, hi = self.interval(L)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if not L.t:
            return L.c >= 0
        if not self.ge:
            return False
        neg = -L - 1
        return infeasible(self._relevant(L) + [neg])

    def entails_eq(self, L):
        return self.entails(L) and self.entails(-L)

    def entails_ne(self, L):
        if not L.t:
            return L.c != 0
        if L in self.ne or -L in self.ne:
            return True
        return self.entails(L - 1) or self.entails(-L - 1)

    def add_ge(self, L):
        """returns Facts or None when contradictory"""
        if not L.t:
            return self if L.c >= 0 else None
        if self.entails(L):
            return self
        if self.entails(-L - 1):
            return None
        # strengthen by disequality L != 0
        if self.ne and (L in self.ne or -L in self.ne):
            L = L - 1
        ge = set(self.ge)
        for o in list(ge):
            if o.t == L.t and o.c > L.c:
                ge.discard(o)
        ge.add(L)
        return Facts(frozenset(ge), self.ne)

    def add_eq(self, L):
        f = self.add_ge(L)
        f = f.add_ge(-L) if f is not None else None
        if f is not None and f is not self:
            for M in f.ne:
                if f.entails_eq(M):
                    return None
        return f

    def add_ne(self, L):
        if not L.t:
            return self if L.c else None
        if self.entails_ne(L):
            return self
        if self.entails(L):
            return self.add_ge(L - 1)
        if self.entails(-L):
            return self.add_ge(-L - 1)
        return Facts(self.ge, self.ne | {L})

    def meet_common(self, o):
        """join: keep facts both sides have (syntactic + entailed)"""
        if self.ge == o.ge and self.ne == o.ne:
            return self
        ge = set(self.ge & o.ge)
        for L in self.ge - o.ge:
            if o.entails(L):
                ge.add(L)
        for L in o.ge - self.ge:
            if self.entails(L):
                ge.add(L)
        ne = set(self.ne & o.ne)
        for L in self.ne - o.ne:
            if o.entails_ne(L):
                ne.add(L)
        for L in o.ne - self.ne:
            if self.entails_ne(L):
                ne.add(L)
        return Facts(frozenset(ge), frozenset(ne))

    def without(self, pred):
        """drop every fact mentioning an atom for which pred(atom)"""
        return Facts(frozenset(L for L in self.ge if not any(pred(a) for a, _ in L.t)),
                     frozenset(L for L in self.ne if not any(pred(a) for a, _ in L.t)))
