"""Abstract interpreter over the resolved program (LLVM IR dumped by irdump).

Domain: reduced product of
  * linear inequalities over named unknowns (lin.Facts),
  * bit provenance (which source bit each bit of a value comes from),
  * symbolic memory (objects, affine offsets, write log with disjointness decided by the linear domain),
  * nullness of symbolic pointees,
  * a bounded trace partition (sequence of rule-relevant events).
Loops are solved by widening to an inductive invariant (shared iteration counter + Houdini-style
candidate facts); calls to functions defined in the repository are analysed in place, so extracting
or inlining a helper does not change what is computed.
"""
import sys
from lin import Lin, Facts, ZERO, const, var, interval, atom_range, mk
from build import AnalysisBroken

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- values
def I(w, L):
    return ("I", w, L if isinstance(L, Lin) else Lin(L))


def P(obj, off=ZERO):
    return ("P", obj, off if isinstance(off, Lin) else Lin(off))


NULL = ("N",)


def normc(w, n):
    n &= (1 << w) - 1
    if w >= 32 and n >> (w - 1):
        n -= 1 << w
    return n


def sym(name, w, lo=None, hi=None):
    if lo is None:
        if w <= 16:
            lo, hi = 0, (1 << w) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return I(w, var(("sym", name, lo, hi)))


def isint(v):
    return v[0] == "I"


def width_of(ty):
    if ty.startswith("i") and ty[1:].isdigit():
        return int(ty[1:])
    return None


def struct_parts(ty):
    """[(offset, size, type)] of a literal struct of integers and pointers"""
    if not (ty.startswith("{ ") and ty.endswith(" }")):
        return None
    out, off = [], 0
    for t in ty[2:-2].split(", "):
        w = width_of(t)
        n = 8 if t == "ptr" else w // 8 if w in (8, 16, 32, 64) else 0
        if not n:
            return None
        off = -(-off // n) * n
        out.append((off, n, t))
        off += n
    return out


# ---------------------------------------------------------------- bits
def bits_of(w, L, facts=None):
    """list of w bits (LSB first); element 0/1/(atom,i)/None"""
    if not L.t:
        n = L.c & ((1 << w) - 1)
        return [(n >> i) & 1 for i in range(w)]
    if L.c >= 0 and all(k > 0 and (k & (k - 1)) == 0 for _, k in L.t):
        out = [(L.c >> i) & 1 for i in range(w)]
        ok = True
        for a, k in L.t:
            s = k.bit_length() - 1
            ab = atom_bits(a, facts)
            if ab is None:
                return [None] * w
            for i, b in enumerate(ab):
                if b == 0:
                    continue
                j = i + s
                if j >= w:
                    continue
                if out[j] != 0:
                    ok = False
                    break
                out[j] = b
            if not ok:
                break
        if ok:
            return out
    return [None] * w


def atom_bits(a, facts=None):
    if a[0] == "bits":
        bs = normbits(a[1], facts)
        return bs + [0] * (64 - len(bs))
    lo, hi = (facts.bounds().get(a) if facts else None) or atom_range(a)
    if lo is not None and lo >= 0 and hi is not None:
        if lo == hi:
            return [(lo >> i) & 1 for i in range(64)]
        n = max(1, hi.bit_length())
        if n < 64:
            return [(a, i) for i in range(n)] + [0] * (64 - n)
    if a[0] == "uf" and a[1] == "sx":
        return bits_of(a[2][0], a[2][1], facts) + [None] * (64 - a[2][0])
    lo, hi = atom_range(a)
    if lo is None or hi is None:
        return None
    n = 8
    while not (-(1 << (n - 1)) <= lo and hi < (1 << n)):
        n *= 2
        if n > 64:
            return None
    return [(a, i) for i in range(n)] + [None] * (64 - n)


def normbits(bs, facts):
    """replace bits the facts determine"""
    bs = list(bs)
    if not facts:
        return bs
    bd = facts.bounds()
    for i, b in enumerate(bs):
        if isinstance(b, tuple) and b[0] != "~" and b[0][0] != "bits":
            r = bd.get(b[0])
            if r and r[0] is not None and r[0] >= 0 and r[1] is not None:
                if r[0] == r[1]:
                    bs[i] = (r[0] >> b[1]) & 1
                elif b[1] >= r[1].bit_length():
                    bs[i] = 0
    return bs


def from_bits(w, bs, facts=None):
    """Lin in unsigned range (w<=16) or the atom itself, for a bit vector (no None)"""
    bs = list(bs[:w]) + [0] * (w - len(bs))
    if all(b in (0, 1) for b in bs):
        return Lin(normc(w, sum(b << i for i, b in enumerate(bs))))
    top = max(i for i, b in enumerate(bs) if b != 0) + 1
    # whole atom?
    b0 = bs[0]
    if isinstance(b0, tuple) and b0[0] != "~" and b0[1] == 0:
        a = b0[0]
        if all(bs[i] == (a, i) for i in range(top)):
            ab = atom_bits(a, facts)
            if ab is not None:
                n = 64
                while n and ab[n - 1] == 0:
                    n -= 1
                if n <= top and all(x == (a, i) for i, x in enumerate(ab[:n])):
                    return var(a)
                if top == w and w >= 32 and atom_range(a)[0] is not None and atom_range(a)[0] < 0:
                    lo, hi = atom_range(a)
                    if lo >= -(1 << (w - 1)) and hi < (1 << w):
                        return var(a)
    return var(("bits", tuple(bs[:top])))


def same_int(facts, w, A, B):
    """do two integer values provably have the same w-bit pattern"""
    if A == B:
        return True
    if facts.entails_eq(A - B):
        return True
    a = bits_of(w, A, facts)
    b = bits_of(w, B, facts)
    return None not in a and a == b


# ---------------------------------------------------------------- memory
class Content:
    __slots__ = ("base", "log", "_h", "cid")
    _ids = {}

    def __init__(self, base, log=()):
        self.base = base
        self.log = log
        self._h = None
        self.cid = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.base, self.log))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Content) and hash(self) == hash(o) and self.base == o.base and self.log == o.log)

    def id(self):
        if self.cid is None:
            self.cid = Content._ids.setdefault(self, len(Content._ids))
        return self.cid

    def __repr__(self):
        return "Content#%d" % self.id()


class State:
    __slots__ = ("env", "facts", "mem", "null", "trace", "cnt", "ghost", "sizes")

    def __init__(self):
        self.env = {}
        self.facts = Facts()
        self.mem = {}
        self.null = {}
        self.trace = ()
        self.cnt = {}
        self.ghost = {}
        self.sizes = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.facts = self.facts
        s.mem = dict(self.mem)
        s.null = dict(self.null)
        s.trace = self.trace
        s.cnt = dict(self.cnt)
        s.ghost = dict(self.ghost)
        s.sizes = dict(self.sizes)
        return s

    def event(self, *e):
        self.trace = self.trace + (tuple(e),)

    def fresh(self, tag):
        n = self.cnt.get(tag, 0)
        self.cnt[tag] = n + 1
        return "%s#%d" % (tag, n) if n else tag

    def isnull(self, v):
        """True/False/None"""
        if v[0] == "N":
            return True
        if v[0] == "P":
            o = v[1]
            if lazy(o):
                return self.null.get(o)
            return False
        if v[0] == "I":
            if not v[2].t:
                return v[2].c == 0
        return None


def lazy(o):
    """objects standing for whatever a symbolic pointer points at (may be null)"""
    return o[0] in ("*", "ret", "arg", "unk")


class Frame:
    __slots__ = ("fn", "ctx", "depth", "up", "callins")

    def __init__(self, fn, ctx, depth, up=None, callins=None):
        self.fn = fn
        self.ctx = ctx
        self.depth = depth
        self.up = up
        self.callins = callins

    def active(self, fn):
        """how many activations of the function are on the stack"""
        f, n = self, 0
        while f is not None:
            n += f.fn is fn
            f = f.up
        return n

    def stack(self):
        s, f = [], self
        while f:
            s.append(f.fn.key)
            f = f.up
        return s[::-1]


class Outcome:
    __slots__ = ("st", "val", "kind")

    def __init__(self, st, val, kind="ret"):
        self.st = st
        self.val = val
        self.kind = kind


class TooBig(AnalysisBroken):
    pass


NOHAVOC = set("""strlen strcmp strncmp strcasecmp strncasecmp memcmp strchr strrchr strstr strtok atoi atol printf puts fprintf
close htons ntohs htonl ntohl perror usleep sleep exit abort getpid isdigit isspace isalpha toupper tolower free fclose time
strerror __errno_location write send sendto sem_post sem_wait pthread_mutex_lock pthread_mutex_unlock""".split())

# what these functions change begins at their first argument and has this size, in the C library of Linux on 64 bits
EXTENT = {"sem_init": 32, "sem_destroy": 32, "sem_timedwait": 32, "sem_trywait": 32}
for _n, _k in (("mutex", 40), ("mutexattr", 4), ("cond", 48), ("rwlock", 56), ("attr", 56), ("condattr", 4)):
    for _f in ("init", "destroy", "lock", "trylock", "unlock", "settype", "setpshared", "signal", "broadcast", "wait", "timedwait", "rdlock", "wrlock"):
        EXTENT["pthread_%s_%s" % (_n, _f)] = _k


def one_var(L):
    return len(L.t) == 1 and L.c == 0 and L.t[0][1] == 1


def whole(v):
    """the value of a floating point constant, when it is a positive whole number"""
    if v[0] != "f":
        return None
    try:
        x = float(v[1])
    except ValueError:
        return None
    return int(x) if x == int(x) and 0 < x < 1 << 40 else None


class Interp:
    def __init__(self, prog, models=None, max_depth=24, max_states=48, budget=400000):
        self.prog = prog
        self.models = models or {}
        self.max_depth = max_depth
        self.max_states = max_states
        self.steps = 0
        self.budget = budget
        self.on_access = None      # f(st, kind, ptr, size, ins, frame)
        self.on_call = None        # f(st, callee_key, args, ins, frame)
        self.on_op = None          # f(st, ins, frame, v)
        self.opaque = set()        # Fn keys never entered
        self.recursion = 4         # activations of one function beyond the first
        self.touched = set()       # functions analysed
        self.blocks = 0
        self.ncalls = 0
        self.unresolved = {}
        self.extern_seen = {}
        self.stuck = []
        self.no_nul = False        # std::string values hold no NUL

    # ------------------------------------------------------------ int helpers
    def signed(self, st, w, L):
        if not L.t:
            n = L.c & ((1 << w) - 1)
            return Lin(n - (1 << w) if n >> (w - 1) else n)
        h = 1 << (w - 1)
        lo, hi = st.facts.interval(L)
        if lo is not None and lo >= -h and hi is not None and hi < h:
            return L
        if st.facts.entails(const(h - 1) - L) and st.facts.entails(L + h):
            return L
        if st.facts.entails(L - h) and st.facts.entails(const((1 << w) - 1) - L):
            return L - (1 << w)
        return var(("uf", "sx", (w, L), -h, h - 1))

    def unsigned(self, st, w, L):
        if not L.t:
            return Lin(L.c & ((1 << w) - 1))
        m = (1 << w) - 1
        lo, hi = st.facts.interval(L)
        if lo is not None and lo >= 0 and hi is not None and hi <= m:
            return L
        if st.facts.entails(L) and st.facts.entails(const(m) - L):
            return L
        if st.facts.entails(-L - 1) and st.facts.entails(L + (1 << w)):
            return L + (1 << w)
        return var(("uf", "zx", (w, L), 0, m))

    def fit(self, st, w, L, tag, nsw):
        """result of an arithmetic operation of width w"""
        if not L.t:
            return I(w, normc(w, L.c))
        if len(L.t) > 1 and L.c == 0 and all(k > 0 and not k & (k - 1) for _, k in L.t) and any(x[0] == "bits" for x, _ in L.t):
            b = bits_of(w, L, st.facts)
            if None not in b:
                L2 = from_bits(w, b, st.facts)
                if len(L2.t) == 1 and L2.t[0][0][0] != "bits":
                    return I(w, L2)
        lo, hi = st.facts.interval(L)
        h, m = 1 << (w - 1), (1 << w) - 1
        if lo is not None and hi is not None and ((lo >= -h and hi < h) or (not nsw and lo >= 0 and hi <= m)):
            return I(w, L)
        if not nsw and lo is not None and hi is not None and lo >> w == hi >> w:
            return I(w, L - ((lo >> w) << w))
        if nsw:
            f = st.facts
            if lo is None or lo < -h:
                f = f.add_ge(L + h) or f
            if hi is None or hi >= h:
                f = f.add_ge(const(h - 1) - L) or f
            st.facts = f
            return I(w, L)
        if st.facts.entails(L) and st.facts.entails(const(m) - L):
            return I(w, L)
        if st.facts.entails(L + h) and st.facts.entails(const(h - 1) - L):
            return I(w, L)
        return I(w, var(("uf", "wrap", (w, L), 0, m) if w <= 16 else ("uf", "wrap", (w, L), -h, h - 1)))

    def trunc(self, st, w, L):
        if not L.t:
            return I(w, normc(w, L.c))
        m = (1 << w) - 1
        lo, hi = st.facts.interval(L)
        if lo is not None and lo >= 0 and hi is not None and hi <= m:
            return I(w, L)
        if w >= 32 and st.facts.entails(L + (1 << (w - 1))) and st.facts.entails(const((1 << (w - 1)) - 1) - L):
            return I(w, L)
        if st.facts.entails(L) and st.facts.entails(const(m) - L):
            return I(w, L)
        b = bits_of(w, L, st.facts)
        if None not in b:
            return I(w, from_bits(w, b, st.facts))
        # remainders of remainders
        inner = [(x, k) for x, k in L.t if x[0] == "uf" and x[1] in ("tr", "wrap") and x[2][0] >= w]
        if inner:
            L2 = L
            for x, k in inner:
                L2 = L2 - var(x).scale(k) + x[2][1].scale(k)
            return self.trunc(st, w, L2)
        # drop multiples of 2^w
        d = {a: k for a, k in L.t if k % (1 << w)}
        L2 = mk(L.c % (1 << w) if len(d) != len(L.t) else L.c, d) if len(d) != len(L.t) else L
        if L2 is not L:
            return self.trunc(st, w, L2)
        if L.c < 0 or L.c > m:
            return self.trunc(st, w, Lin(L.c & m, L.t)) if Lin(L.c & m, L.t) != L else I(w, var(("uf", "tr", (w, L), 0, m) if w < 32 else ("uf", "tr", (w, L), -(1 << (w - 1)), (1 << (w - 1)) - 1)))
        return I(w, var(("uf", "tr", (w, L), 0, m) if w < 32 else ("uf", "tr", (w, L), -(1 << (w - 1)), (1 << (w - 1)) - 1)))

    # ------------------------------------------------------------ operands
    def val(self, st, v, fr):
        k = v[0]
        if k == "v":
            r = st.env.get(v[1])
            if r is None:
                raise AnalysisBroken("value %d of %s undefined" % (v[1], fr.fn.key))
            return r
        if k == "i":
            return I(v[1], normc(v[1], v[2]))
        if k == "null":
            return NULL
        if k == "g":
            return P(("g", v[1]))
        if k == "undef":
            w = width_of(v[1])
            if w:
                return sym(st.fresh("undef"), w)
            return ("U", "undef")
        if k == "gep":
            return self.gep(st, v, fr)
        if k == "ce":
            op = v[1]
            if op in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
                return self.val(st, v[3], fr)
            return ("U", "ce")
        if k == "f":
            return ("U", "float")
        if k == "zero":
            return ("A", {})
        return ("U", k)

    def small(self, st, L):
        return st.facts.entails(L + (1 << 40)) and st.facts.entails(const(1 << 40) - L)

    def div(self, st, w, A, n):
        """A / n, rounded towards zero"""
        neg = not st.facts.entails(A)
        if n == 1:
            return I(w, A)
        if neg and not st.facts.entails(-A):
            return I(w, self.ufa(w, "sdiv", (A, const(n))))
        X = -A if neg else A
        if not X.t:
            return I(w, -(X.c // n) if neg else X.c // n)
        lo, hi = st.facts.interval(X)
        q = var(("uf", "div", (X, n), 0 if lo is None else max(lo, 0) // n, None if hi is None else hi // n))
        st.facts = (st.facts.add_ge(X - q.scale(n)) or st.facts)
        st.facts = (st.facts.add_ge(q.scale(n) - X + n - 1) or st.facts)
        return I(w, -q if neg else q)

    def gep(self, st, g, fr):
        b = self.val(st, g[1], fr)
        off = Lin(g[2])
        for vv, sc in g[3]:
            x = self.val(st, vv, fr)
            if x[0] != "I":
                return P(("unk", st.fresh("gep")))
            off = off + self.signed(st, x[1], x[2]).scale(sc)
        if b[0] == "P":
            return ("P", b[1], b[2] + off)
        if b[0] == "N":
            if not off.t and off.c == 0:
                return NULL
            return P(("g", "<null>"), off)
        return P(("unk", st.fresh("gep")))

    # ------------------------------------------------------------ memory
    def content(self, st, obj):
        c = st.mem.get(obj)
        if c is None:
            if obj[0] == "g":
                if self.prog.readonly(obj[1]):
                    c = Content(("init", obj[1]))
                else:
                    c = Content(("sym", 0))
            elif obj[0] in ("*", "ret", "arg", "unk", "buf"):
                c = Content(("sym", 0))
            else:
                c = Content(("undef", 0))
            st.mem[obj] = c
        return c

    def size_of(self, st, obj):
        s = st.sizes.get(obj)
        if s is not None:
            return s
        if obj[0] == "g":
            g = self.prog.globals.get(obj[1])
            if g:
                return Lin(g["size"])
        return None

    def load(self, st, obj, off, size, ty):
        return self._load(st, self.content(st, obj), obj, off, size, ty)

    def _mk(self, st, obj, off, size, ty, ver, null_ok=True):
        w = width_of(ty)
        if w:
            if w == 1:
                w = 8
            a = ("ld", obj, off, size, ver)
            if ty == "i1":
                return ("C", "ne", var(a))
            return I(w, var(a))
        if ty == "ptr":
            return P(("*", obj, off, ver))
        return ("U", ("ld", obj, off, size, ver))

    def conv(self, st, v, size, ty):
        """value stored -> value loaded as type ty"""
        w = width_of(ty)
        if w:
            if v[0] == "I":
                return v if v[1] == w else I(w, v[2]) if w == 8 and v[1] == 1 else self.trunc(st, w, v[2])
            if v[0] == "N":
                return I(w, 0)
            if v[0] in ("P", "C"):
                return v
            return sym(st.fresh("cv"), w)
        if ty == "ptr":
            if v[0] in ("P", "N"):
                return v
            if v[0] == "I" and not v[2].t and v[2].c == 0:
                return NULL
            if v[0] == "I":
                return P(("unk", "i2p", v[2]))
            return P(("unk", st.fresh("cv")))
        return v

    def _load(self, st, c, obj, off, size, ty):
        f = st.facts
        for e in reversed(c.log):
            k = e[0]
            d = off - e[1] if e[1] is not None else None
            if k == "w":
                es = e[2]
                if not d.t:
                    dc = d.c
                    if dc == 0 and es == size:
                        return self.conv(st, e[3], size, ty)
                    if dc + size <= 0 or dc >= es:
                        continue
                    return self._assemble(st, c, obj, off, size, ty)
                if f.entails(d - es) or f.entails(-d - size):
                    continue
                if f.entails_eq(d) and es == size:
                    return self.conv(st, e[3], size, ty)
                return self._mk(st, obj, off, size, ty, ("mix", c.id()))
            L = e[2]
            if k == "hv" and (d is None):
                return self._mk(st, obj, off, size, ty, e[3])
            if L is not None and f.entails(d) and f.entails(L - d - size):
                if k == "cp":
                    return self._load(st, e[3], e[4], e[5] + d, size, ty)
                if k == "set":
                    b = e[3]
                    if not b.t:
                        n = 0
                        for i in range(size):
                            n |= (b.c & 255) << (8 * i)
                        w = width_of(ty)
                        if w:
                            return I(w, normc(w, n))
                        if ty == "ptr" and n == 0:
                            return NULL
                    return self._mk(st, obj, off, size, ty, ("mix", c.id()))
                return self._mk(st, obj, off, size, ty, e[3])
            if L is not None and f.entails(d - L):
                continue
            if f.entails(-d - size):
                continue
            if not d.t and size > 1 and k != "hv":
                return self._assemble(st, c, obj, off, size, ty)
            return self._mk(st, obj, off, size, ty, ("mix", c.id()))
        b = c.base
        if b[0] == "zero":
            w = width_of(ty)
            if w:
                return I(w, 0)
            return NULL if ty == "ptr" else ("U", "zero")
        if b[0] == "init":
            v = self._ginit(st, b[1], off, size, ty)
            if v is not None:
                return v
            return self._mk(st, obj, off, size, ty, 0)
        if b[0] == "undef":
            return self._mk(st, obj, off, size, ty, "undef")
        return self._mk(st, obj, off, size, ty, b[1])

    def _assemble(self, st, c, obj, off, size, ty):
        w = width_of(ty)
        if size == 1 or not w:
            # slice of one bigger write
            for e in reversed(c.log):
                if e[0] == "w":
                    d = off - e[1]
                    if d.t:
                        break
                    if d.c + size <= 0 or d.c >= e[2]:
                        continue
                    v = e[3]
                    if v[0] == "N":
                        return I(w, 0) if w else NULL
                    if w and 0 <= d.c and d.c + size <= e[2] and v[0] == "I":
                        b = bits_of(e[2] * 8, v[2], st.facts)[d.c * 8:(d.c + size) * 8]
                        if None not in b:
                            return I(w, from_bits(w, b, st.facts))
                    break
                break
            return self._mk(st, obj, off, size, ty, ("mix", c.id()))
        bits = []
        for i in range(size):
            v = self._load(st, c, obj, off + i, 1, "i8")
            b = bits_of(8, v[2], st.facts) if v[0] == "I" else [None]
            if None in b:
                return self._mk(st, obj, off, size, ty, ("mix", c.id()))
            bits += b
        # recombine to whole wider atom bits if they come from one atom
        return I(w, from_bits(w, bits, st.facts))

    def _ginit(self, st, g, off, size, ty):
        if off.t:
            return None
        def walk(x, o):
            if x[0] == "data":
                if x[1] == size and o % x[1] == 0 and 0 <= o // x[1] < len(x[2]):
                    w = width_of(ty)
                    return I(w, normc(w, x[2][o // x[1]])) if w else None
                return None
            if x[0] == "agg":
                for e in x[1]:
                    if e[0] <= o < e[0] + e[2]:
                        return walk(e[1], o - e[0])
                return None
            if x[0] == "zero":
                w = width_of(ty)
                return I(w, 0) if w else NULL if ty == "ptr" else None
            if o != 0:
                return None
            if x[0] in ("i", "null", "g", "gep"):
                v = self.val(st, x, None)
                if x[0] == "i" and width_of(ty) == x[1]:
                    return v
                if ty == "ptr":
                    return v
            return None
        return walk(self.prog.globals[g]["init"], off.c)

    def store(self, st, obj, off, size, v):
        c = self.content(st, obj)
        log = c.log
        e = ("w", off, size, v)
        new = []
        # drop an older write of the same cell when nothing in between may alias
        if not off.t:
            for x in log:
                if x[0] == "w" and not x[1].t and off.c <= x[1].c and x[1].c + x[2] <= off.c + size:
                    continue
                new.append(x)
            # canonical order for constant-offset disjoint writes
            i = len(new)
            while i and new[i - 1][0] == "w" and not new[i - 1][1].t and new[i - 1][1].c > off.c and off.c + size <= new[i - 1][1].c:
                i -= 1
            new.insert(i, e)
        else:
            new = [x for x in log if not (x[0] == "w" and x[1] == off and x[2] == size)] if True else log
            new.append(e)
        st.mem[obj] = Content(c.base, tuple(new))

    def copy_blob(self, st, dobj, doff, n, sobj, soff):
        sc = self.content(st, sobj)
        c = self.content(st, dobj)
        if not doff.t and doff.c == 0 and not n.t:
            sz = self.size_of(st, dobj)
            if sz is not None and not sz.t and sz.c == n.c and not soff.t and soff.c == 0:
                # whole-object copy
                st.mem[dobj] = Content(sc.base, sc.log) if sc.base[0] in ("zero", "init") and False else Content(c.base, (("cp", doff, n, sc, sobj, soff),))
                return
        st.mem[dobj] = Content(c.base, c.log + (("cp", doff, n, sc, sobj, soff),))

    def havoc(self, st, obj, off=None, n=None, tag="hv"):
        c = self.content(st, obj)
        h = st.fresh(tag)
        if off is None:
            st.mem[obj] = Content(c.base, (("hv", None, None, h),))
        else:
            st.mem[obj] = Content(c.base, c.log + (("hv", off, n, h),))
        return h

    # ------------------------------------------------------------ conditions
    def cmp(self, st, pred, w, a, b):
        if a[0] in ("P", "N") or b[0] in ("P", "N"):
            return self.pcmp(st, pred, a, b)
        if a[0] == "C" or b[0] == "C":
            # i1 comparisons
            x, y = (a, b) if a[0] == "C" else (b, a)
            if y[0] == "I" and not y[2].t and pred in ("eq", "ne"):
                t = (y[2].c & 1) != 0
                if pred == "ne":
                    t = not t
                return x if t else self.neg(x)
            return ("C", "opq", st.fresh("cmp"))
        if a[0] != "I" or b[0] != "I":
            return ("C", "opq", st.fresh("cmp"))
        A, B = a[2], b[2]
        if pred in ("eq", "ne"):
            d = A - B
            lo, hi = st.facts.interval(d)
            if not (lo is not None and hi is not None and -(1 << w) < lo and hi < (1 << w)):
                d = self.unsigned(st, w, A) - self.unsigned(st, w, B)
            r = ("C", "eq", d)
        else:
            if pred[0] == "s":
                A, B = self.signed(st, w, A), self.signed(st, w, B)
            else:
                A, B = self.unsigned(st, w, A), self.unsigned(st, w, B)
            p = pred[1:]
            r = {"gt": ("C", "ge", A - B - 1), "ge": ("C", "ge", A - B), "lt": ("C", "ge", B - A - 1), "le": ("C", "ge", B - A)}[p]
        if pred == "ne":
            r = ("C", "ne", r[2])
        return self.cnorm(st, r)

    def cnorm(self, st, c):
        L = c[2] if len(c) > 2 else None
        if isinstance(L, Lin) and not L.t:
            t = {"ge": L.c >= 0, "eq": L.c == 0, "ne": L.c != 0}[c[1]]
            return I(1, int(t))
        return c

    def pcmp(self, st, pred, a, b):
        if a[0] == "I" and not a[2].t and a[2].c == 0:
            a = NULL
        if b[0] == "I" and not b[2].t and b[2].c == 0:
            b = NULL
        eq = None
        if a[0] == "N" and b[0] == "N":
            eq = True
        elif a[0] == "N" or b[0] == "N":
            p = b if a[0] == "N" else a
            if p[0] == "P":
                n = st.isnull(p)
                if n is not None:
                    eq = n
                elif pred in ("eq", "ne"):
                    return ("C", "null" if pred == "eq" else "nonnull", p[1])
        elif a[0] == "P" and b[0] == "P":
            if a[1] == b[1]:
                d = a[2] - b[2]
                r = {"eq": ("C", "eq", d), "ne": ("C", "ne", d), "ugt": ("C", "ge", d - 1), "uge": ("C", "ge", d), "ult": ("C", "ge", -d - 1), "ule": ("C", "ge", -d)}.get(pred)
                if r:
                    return self.cnorm(st, r)
            elif pred in ("eq", "ne"):
                na, nb = st.isnull(a), st.isnull(b)
                if na and nb:
                    eq = True
                elif (na and nb is False) or (nb and na is False):
                    eq = False
                elif na or nb:
                    return ("C", "null" if pred == "eq" else "nonnull", (b if na else a)[1])
                elif not lazy(a[1]) and not lazy(b[1]):
                    eq = False
                elif (a[1][0] in ("heap", "alloca")) != (b[1][0] in ("heap", "alloca")) and self.fresh_distinct(st, a[1], b[1]):
                    eq = False
                else:
                    key = ("peq",) + tuple(sorted([repr((a[1], a[2])), repr((b[1], b[2]))]))
                    if key in st.ghost:
                        eq = st.ghost[key]
                    else:
                        return ("C", "peq" if pred == "eq" else "pne", (a[1], a[2]), (b[1], b[2]))
        if eq is None or pred not in ("eq", "ne"):
            return ("C", "opq", st.fresh("pcmp"))
        return I(1, int(eq == (pred == "eq")))

    def fresh_distinct(self, st, a, b):
        return True

    def neg(self, c):
        if c[0] == "I":
            return I(1, 0 if c[2].c else 1)
        if c[0] != "C":
            return c
        k = c[1]
        m = {"null": "nonnull", "nonnull": "null", "peq": "pne", "pne": "peq", "eq": "ne", "ne": "eq"}
        if k in m:
            return ("C", m[k]) + c[2:]
        if k == "ge":
            return ("C", "ge", -c[2] - 1)
        if k == "not":
            return c[2]
        if k == "and":
            return ("C", "or", self.neg(c[2]), self.neg(c[3]))
        if k == "or":
            return ("C", "and", self.neg(c[2]), self.neg(c[3]))
        return ("C", "not", c)

    def tocond(self, v):
        if v[0] == "I":
            L = v[2]
            if not L.t:
                return I(1, int(L.c & 1 if v[1] == 1 else L.c != 0))
            return ("C", "ne", L)
        if v[0] == "C":
            return v
        return ("C", "opq", repr(v))

    def split(self, st, c):
        """-> [(truth, state)] of the feasible sides; st may be reused"""
        if c[0] == "I":
            return [(c[2].c != 0, st)]
        t = self.assume(st.copy(), c)
        f = self.assume(st.copy(), self.neg(c))
        out = []
        out += [(True, s) for s in t]
        out += [(False, s) for s in f]
        return out

    def assume(self, st, c):
        """-> list of states (possibly several for disjunctions); mutates st"""
        if c[0] == "I":
            return [st] if c[2].c != 0 else []
        k = c[1]
        if k == "ge":
            f = st.facts.add_ge(c[2])
            if f is None:
                return []
            st.facts = f
            return [st]
        if k in ("eq", "ne") and len(c[2].t) == 1 and c[2].t[0][0][0] == "uf" and c[2].t[0][0][1] == "cond":
            # a condition that was stored as an integer
            a, q = c[2].t[0]
            at = -c[2].c * q if q in (1, -1) else None
            if at in (0, 1):
                inner = a[2][0] if (at == 1) == (k == "eq") else self.neg(a[2][0])
                f = st.facts.add_eq(var(a) - (at if k == "eq" else 1 - at))
                if f is None:
                    return []
                st.facts = f
                return self.assume(st, inner)
        if k == "eq":
            f = self.add_eq_x(st, c[2])
            if f is None:
                return []
            st.facts = f
            return [st]
        if k == "ne":
            f = st.facts.add_ne(c[2])
            if f is not None:
                cands, M = self.ext_value(f, c[2])
                if cands is not None and len(cands) == 1:
                    f = f.add_ne(M - cands[0])
            if f is None:
                return []
            st.facts = f
            return [st]
        if k in ("null", "nonnull"):
            n = st.null.get(c[2]) if lazy(c[2]) else False
            want = k == "null"
            if n is None:
                st.null[c[2]] = want
                self.on_null(st, c[2], want)
                return [st]
            return [st] if n == want else []
        if k in ("peq", "pne"):
            key = ("peq",) + tuple(sorted([repr(c[2]), repr(c[3])]))
            want = k == "peq"
            if key in st.ghost:
                return [st] if st.ghost[key] == want else []
            st.ghost[key] = want
            return [st]
        if k == "and":
            out = []
            for s in self.assume(st, c[2]):
                out += self.assume(s, c[3])
            return out
        if k == "or":
            out = self.assume(st.copy(), c[2])
            for s in self.assume(st, self.neg(c[2])):
                out += self.assume(s, c[3])
            return out
        if k in ("opq", "not"):
            neg = k == "not"
            base = c[2] if neg else c
            key = ("opq", base[2])
            want = not neg
            if key in st.ghost:
                return [st] if st.ghost[key] == want else []
            st.ghost[key] = want
            return [st]
        raise AnalysisBroken("cond %r" % (c,))

    def on_null(self, st, obj, want):
        pass

    def add_eq_x(self, st, L):
        f = st.facts.add_eq(L)
        if f is None:
            return None
        # propagate through sign/zero-extension atoms
        cands, M = self.ext_value(f, L)
        if cands is not None:
            if not cands:
                return None
            if len(cands) == 1:
                f = f.add_eq(M - cands[0])
        return f

    def ext_value(self, f, L):
        """L is k*ext(M) + c: the values of M for which it is 0, when they are determined"""
        if len(L.t) == 1:
            a, k = L.t[0]
            if L.c % k == 0 and a[0] == "uf" and a[1] in ("sx", "zx", "tr", "wrap"):
                n = -L.c // k
                w, M = a[2]
                lo, hi = f.interval(M)
                m = 1 << w
                if lo is not None and hi is not None and hi - lo < 2 * m:
                    return [x for x in (n, n + m, n - m) if lo <= x <= hi], M
        return None, None

    # ------------------------------------------------------------ instructions
    def binop(self, st, ins, fr):
        op = ins["op"]
        w = width_of(ins["ty"])
        a = self.val(st, ins["o"][0], fr)
        b = self.val(st, ins["o"][1], fr)
        if w is None:
            return ("U", "fp")
        if w == 1 and (a[0] == "C" or b[0] == "C"):
            if op in ("and", "or"):
                a, b = self.tocond(a), self.tocond(b)
                if a[0] == "I":
                    a, b = b, a
                if b[0] == "I":
                    t = b[2].c != 0
                    return (a if t else I(1, 0)) if op == "and" else (I(1, 1) if t else a)
                return ("C", op, a, b)
            if op == "xor":
                if b[0] == "I":
                    return self.neg(a) if b[2].c & 1 else a
                if a[0] == "I":
                    return self.neg(b) if a[2].c & 1 else b
            return ("C", "opq", st.fresh("bin"))
        if a[0] == "C":
            a = I(w, self.cval(st, a))
        if b[0] == "C":
            b = I(w, self.cval(st, b))
        if a[0] == "P" and b[0] == "P" and op == "sub":
            if a[1] == b[1]:
                return I(w, a[2] - b[2])
            return sym(st.fresh("pdiff@%s:%s" % (fr.ctx, ins["id"])), w)
        if op in ("add", "sub") and (a[0] == "P" or b[0] == "P"):
            if a[0] == "P" and b[0] == "I":
                return ("P", a[1], a[2] + (b[2] if op == "add" else -b[2]))
            if b[0] == "P" and op == "add" and a[0] == "I":
                return ("P", b[1], b[2] + a[2])
        if a[0] == "N":
            a = I(w, 0)
        if b[0] == "N":
            b = I(w, 0)
        if a[0] != "I" or b[0] != "I":
            return sym(st.fresh("bin@%s:%s" % (fr.ctx, ins["id"])), w)
        A, B = a[2], b[2]
        nsw = ins.get("nsw")
        isdiv = False
        if op == "add":
            return self.fit(st, w, A + B, op, nsw)
        if op == "sub":
            return self.fit(st, w, A - B, op, nsw)
        if op == "mul":
            if not B.t:
                return self.fit(st, w, A.scale(B.c), op, nsw)
            if not A.t:
                return self.fit(st, w, B.scale(A.c), op, nsw)
            return I(w, self.ufa(w, "mul", (A, B)))
        if op == "shl":
            if not B.t and 0 <= B.c < w:
                bb = bits_of(w, A, st.facts)
                L = A.scale(1 << B.c)
                lo, hi = st.facts.interval(L)
                if lo is not None and lo >= 0 and hi is not None and hi < (1 << (w - 1)):
                    return I(w, L)
                if st.facts.entails(A) and st.facts.entails(const((1 << (w - 1)) - 1) - L):
                    return I(w, L)
                nb = [0] * B.c + bb[:w - B.c]
                if None not in nb:
                    return I(w, from_bits(w, nb, st.facts))
                return self.fit(st, w, L, op, nsw)
            return I(w, self.ufa(w, "shl", (A, B)))
        if not A.t and not B.t:
            x, y = A.c & ((1 << w) - 1), B.c & ((1 << w) - 1)
            sx = x - (1 << w) if x >> (w - 1) else x
            sy = y - (1 << w) if y >> (w - 1) else y
            try:
                n = {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "lshr": lambda: x >> y, "ashr": lambda: sx >> y,
                     "udiv": lambda: x // y, "urem": lambda: x % y, "sdiv": lambda: int(sx / sy) if sy else 0,
                     "srem": lambda: sx - sy * int(sx / sy) if sy else 0}[op]()
                return I(w, normc(w, n))
            except (KeyError, ZeroDivisionError):
                return I(w, self.ufa(w, op, (A, B)))
        if op in ("sdiv", "srem"):
            if st.facts.entails(A) and st.facts.entails(B):
                op = "u" + op[1:]
            elif op == "sdiv" and not B.t and B.c > 1 and st.facts.entails(-A):
                return self.div(st, w, A, B.c)
            else:
                r = self.ufa(w, op, (A, B))
                if op == "srem" and not B.t and B.c:
                    r = var(("uf", op, (A, B), -abs(B.c) + 1, abs(B.c) - 1))
                return I(w, r)
        if op in ("udiv", "urem") and not B.t and B.c > 0 and st.facts.entails(A):
            n = B.c
            if n & (n - 1) == 0:
                s = n.bit_length() - 1
                # 256*a + b style values
                if op == "udiv":
                    op, B, isdiv = "lshr", Lin(s), True
                else:
                    op, B = "and", Lin(n - 1)
            else:
                lo, hi = st.facts.interval(A)
                if op == "udiv":
                    q = ("uf", "div", (A, n), 0 if lo is None else max(lo, 0) // n, None if hi is None else hi // n)
                    st.facts = (st.facts.add_ge(A - var(q).scale(n)) or st.facts)
                    st.facts = (st.facts.add_ge(var(q).scale(n) - A + n - 1) or st.facts)
                    return I(w, var(q))
                return I(w, var(("uf", "rem", (A, n), 0, n - 1)))
        if op in ("lshr", "ashr") and not B.t and 0 <= B.c < w:
            if op == "ashr" and not st.facts.entails(A):
                return I(w, self.ufa(w, op, (A, B)))
            if st.facts.entails(A) and st.facts.entails(const((1 << B.c) - 1) - A):
                return I(w, 0)
            ab = bits_of(w, A, st.facts)
            nb = ab[B.c:] + [0] * B.c
            if None not in nb:
                q = from_bits(w, nb, st.facts)
                if B.c and one_var(A) and st.facts.entails(A):
                    st.facts = st.facts.add_ge(A - q.scale(1 << B.c)) or st.facts
                    st.facts = st.facts.add_ge(q.scale(1 << B.c) - A + (1 << B.c) - 1) or st.facts
                return I(w, q)
            if st.facts.entails(A):
                return I(w, self.shr_atom(st, w, A, B.c))
            return I(w, self.ufa(w, op, (A, B)))
        if op in ("and", "or", "xor"):
            if op == "and":
                for X, M in ((A, B), (B, A)):
                    if not M.t and M.c >= 0 and not (M.c & (M.c + 1)) and X.t and st.facts.entails(X) and st.facts.entails(M - X):
                        return I(w, X)
            ab, bb = bits_of(w, A, st.facts), bits_of(w, B, st.facts)
            out = []
            for x, y in zip(ab, bb):
                if op == "and":
                    r = 0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else None
                elif op == "or":
                    r = 1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else None
                else:
                    if x in (0, 1) and y in (0, 1):
                        r = x ^ y
                    elif x == 0:
                        r = y
                    elif y == 0:
                        r = x
                    elif x == y and x is not None:
                        r = 0
                    elif x == 1 and isinstance(y, tuple):
                        r = y[1:] if y[0] == "~" else ("~",) + y
                    elif y == 1 and isinstance(x, tuple):
                        r = x[1:] if x[0] == "~" else ("~",) + x
                    else:
                        r = None
                out.append(r)
            if None not in out:
                return I(w, from_bits(w, out, st.facts))
            if op == "xor":
                for X, M in ((A, B), (B, A)):
                    if not M.t and (M.c + 1) & ((1 << w) - 1) == 0 and X.t:         # the complement
                        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if M.c < 0 else (0, M.c)
                        if st.facts.entails(X - lo) and st.facts.entails(const(hi) - X):
                            return I(w, const(M.c) - X)
            if op in ("or", "xor"):
                for X, Y in ((A, B), (B, A)):
                    # X multiple of 2^n, 0 <= Y < 2^n
                    g = 0
                    for z in [X.c] + [k for _, k in X.t]:
                        g |= z
                    n = (g & -g) if g else 0
                    if n > 1 and st.facts.entails(Y) and st.facts.entails(const(n - 1) - Y):
                        return self.fit(st, w, X + Y, op, False)
            if op == "and":
                X, M = (A, B) if not B.t else (B, A)
                if not M.t and M.c >= 0 and not (M.c & (M.c + 1)) and X.t and st.facts.entails(X):
                    k = M.c.bit_length()
                    if any(x[0] == "uf" and x[1] == "tr" and x[2][0] >= k for x, _ in X.t):
                        return I(w, self.trunc(st, k, X)[2])
                    return I(w, X - self.shr_atom(st, w, X, k).scale(1 << k))
            if op == "and" and not B.t and B.c >= 0 or op == "and" and not A.t and A.c >= 0:
                m = B.c if not B.t else A.c
                return I(w, var(("uf", "and", (A, B), 0, m)))
            return I(w, self.ufa(w, op, (A, B)))
        return I(w, self.ufa(w, op, (A, B)))

    def shr_atom(self, st, w, A, k):
        """A >> k for A >= 0, linked to A by linear facts"""
        lo, hi = interval(A)
        hi = (1 << w) - 1 if hi is None else min(hi, (1 << w) - 1)
        q = var(("uf", "lshr", (A, k), 0, hi >> k))
        st.facts = st.facts.add_ge(A - q.scale(1 << k)) or st.facts
        st.facts = st.facts.add_ge(q.scale(1 << k) - A + (1 << k) - 1) or st.facts
        return q

    def ufa(self, w, op, args):
        if w <= 16:
            return var(("uf", op, args, 0, (1 << w) - 1))
        return var(("uf", op, args, -(1 << (w - 1)), (1 << (w - 1)) - 1))

    def cval(self, st, c):
        """condition used as integer 0/1"""
        if c[1] in ("ne", "eq") and len(c[2].t) == 1:
            # of a flag that is 0 or 1 itself
            a, k = c[2].t[0]
            A = var(a)
            lo, hi = st.facts.interval(A)
            if lo is not None and hi is not None and lo >= 0 and hi <= 1 and k in (1, -1):
                at = -c[2].c * k
                if at in (0, 1):
                    return A if (at == 1) == (c[1] == "eq") else Lin(1) - A
        return var(("uf", "cond", (c,), 0, 1))

    def do_load(self, st, ins, fr):
        p = self.val(st, ins["o"][0], fr)
        size, ty = ins["size"], ins["ty"]
        if p[0] != "P":
            if self.on_access:
                self.on_access(st, "load", p, Lin(size), ins, fr)
            w = width_of(ty)
            return sym(st.fresh("bad"), w) if w else P(("unk", st.fresh("bad"))) if ty == "ptr" else ("U", "bad")
        if self.on_access:
            self.on_access(st, "load", p, Lin(size), ins, fr)
        if lazy(p[1]) and st.null.get(p[1]) is None:
            st.null[p[1]] = False
        parts = struct_parts(ty)
        if parts:
            return ("A", FrozenDict({k: self.load(st, p[1], p[2] + o, n, t) for k, (o, n, t) in enumerate(parts)}))
        return self.load(st, p[1], p[2], size, ty)

    def do_store(self, st, ins, fr):
        v = self.val(st, ins["o"][0], fr)
        p = self.val(st, ins["o"][1], fr)
        if self.on_access:
            self.on_access(st, "store", p, Lin(ins["size"]), ins, fr)
        if p[0] != "P":
            return
        if lazy(p[1]) and st.null.get(p[1]) is None:
            st.null[p[1]] = False
        if v[0] == "A":
            ks = sorted(v[1])
            parts = struct_parts("{ %s }" % ", ".join("i%d" % v[1][k][1] if v[1][k][0] == "I" else "ptr" if v[1][k][0] in "PN" else "?" for k in ks))
            if parts and ks == list(range(len(ks))) and parts[-1][0] + parts[-1][1] <= ins["size"] < parts[-1][0] + parts[-1][1] + 8:
                for k, (o, n, t) in enumerate(parts):
                    self.store(st, p[1], p[2] + o, n, v[1][k])
                return
        self.store(st, p[1], p[2], ins["size"], v)

    # ------------------------------------------------------------ calls
    def call(self, st, callee, args, ins, fr):
        """-> list of Outcome"""
        self.ncalls += 1
        if callee[0] == "g" or callee[0] == "P" and callee[1][0] == "g":
            name = callee[1] if callee[0] == "g" else callee[1][1]
            fn = self.prog.fns.get(name)
            if fn is None:
                return self.extern(st, name, name, args, ins, fr)
            m = self.models.get(fn.key) or self.models.get(fn.name)
            if self.on_call:
                self.on_call(st, fn.key, args, ins, fr)
            if m is not None:
                r = m(self, st, args, ins, fr)
                if r is not None:
                    return [x if isinstance(x, Outcome) else Outcome(x[0], x[1]) for x in r]
            if fn.decl:
                return self.extern(st, fn.name, fn.key, args, ins, fr)
            if fn.key in self.opaque or fr.depth >= self.max_depth or fr.active(fn) > self.recursion:
                return self.opaque_call(st, fn, args, ins, fr)
            ctx = fr.ctx + "/%s" % (ins.get("id", "l%s" % ins["l"]),) if fr else ""
            out = []
            env = st.env
            for o in self.run(fn, args, st, Frame(fn, "%s.%s" % (fr.ctx, ins.get("_n", 0)) if fr else "0", fr.depth + 1, fr, ins)):
                s = o.st
                s.env = dict(env)
                out.append(o)
            return out
        m = self.models.get("<indirect>")
        if m is not None:
            r = m(self, st, args, ins, fr, callee)
            if r is not None:
                return [x if isinstance(x, Outcome) else Outcome(x[0], x[1]) for x in r]
        self.unresolved[(fr.fn.key, ins["l"])] = self.unresolved.get((fr.fn.key, ins["l"]), 0) + 1
        return self.default_ret(st, "indirect", args, ins, fr, havoc=True)

    def default_ret(self, st, name, args, ins, fr, havoc):
        if havoc:
            if name.startswith("_ZNKSt7__cxx1112basic_string"):
                args = ()
            n = EXTENT.get(name, 32 if name.startswith("_ZNSt7__cxx1112basic_string") else None)
            for i, a in enumerate(args):
                if n is not None:
                    if a[0] == "P" and a[1][0] != "g" and (i == 0 or name.endswith("EOS4_")):
                        self.havoc(st, a[1], a[2], const(n), tag="hv@%s.%s" % (fr.ctx, ins.get("_n", 0)))
                    continue
                if a[0] == "P" and a[1][0] != "g":
                    self.havoc(st, a[1], tag="hv@%s.%s" % (fr.ctx, ins.get("_n", 0)))
        return [Outcome(st, self.fresh_ret(st, name, ins, fr))]

    def fresh_ret(self, st, name, ins, fr, nullable=True):
        ty = ins.get("ty")
        if ty is None:
            return ("U", "void")
        tag = "%s@%s.%s" % (name, fr.ctx, ins.get("_n", 0))
        w = width_of(ty)
        if w == 1:
            return ("C", "opq", st.fresh(tag))
        if w:
            return sym(st.fresh(tag), w)
        if ty == "ptr":
            o = ("ret", st.fresh(tag))
            if not nullable:
                st.null[o] = False
            return P(o)
        return ("U", st.fresh(tag))

    def opaque_call(self, st, fn, args, ins, fr):
        return self.default_ret(st, fn.key, args, ins, fr, havoc=True)

    def access(self, st, kind, p, n, ins, fr):
        if self.on_access:
            self.on_access(st, kind, p, n, ins, fr)
        if p[0] == "P" and lazy(p[1]) and st.null.get(p[1]) is None:
            st.null[p[1]] = False

    def extern(self, st, name, key, args, ins, fr):
        self.extern_seen[name] = self.extern_seen.get(name, 0) + 1
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, args, ins, fr)
            if r is not None:
                return [x if isinstance(x, Outcome) else Outcome(x[0], x[1]) for x in r]
        if name.startswith("llvm."):
            return self.intrinsic(st, name, args, ins, fr)
        h = getattr(self, "x_" + name, None)
        if h:
            return h(st, args, ins, fr)
        return self.default_ret(st, name, args, ins, fr, havoc=name not in NOHAVOC)

    def intrinsic(self, st, name, args, ins, fr):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            return self.memcpy(st, args, ins, fr, "U")
        if name.startswith("llvm.memset"):
            return self.memset(st, args, ins, fr)
        if name.startswith("llvm.umul.with.overflow") or name.startswith("llvm.uadd.with.overflow"):
            return [Outcome(st, ("A", {0: args[0] if args[1][2].const == 1 else I(64, args[0][2].scale(args[1][2].c)) if not args[1][2].t else sym(st.fresh("ovf"), 64), 1: I(1, 0)}))]
        if name.startswith("llvm.trap"):
            return []
        return [Outcome(st, self.fresh_ret(st, name, ins, fr))]

    def memcpy(self, st, args, ins, fr, ret=None):
        d, s, n = args[0], args[1], args[2]
        N = self.unsigned(st, 64, n[2]) if n[0] == "I" else var(("sym", st.fresh("n"), 0, None))
        self.access(st, "load", s, N, ins, fr)
        self.access(st, "store", d, N, ins, fr)
        if d[0] == "P":
            if s[0] == "P":
                self.copy_blob(st, d[1], d[2], N, s[1], s[2])
            else:
                self.havoc(st, d[1], d[2], N)
        return [Outcome(st, d)]

    def memset(self, st, args, ins, fr):
        d, b, n = args[0], args[1], args[2]
        N = self.unsigned(st, 64, n[2]) if n[0] == "I" else var(("sym", st.fresh("n"), 0, None))
        self.access(st, "store", d, N, ins, fr)
        if d[0] == "P":
            c = self.content(st, d[1])
            bl = b[2] if b[0] == "I" else Lin(0)
            e = ("set", d[2], N, bl)
            sz = self.size_of(st, d[1])
            if sz is not None and not sz.t and not N.t and sz.c == N.c and not d[2].t and d[2].c == 0:
                st.mem[d[1]] = Content(("zero",)) if not bl.t and bl.c & 255 == 0 else Content(c.base, (e,))
            else:
                st.mem[d[1]] = Content(c.base, c.log + (e,))
        return [Outcome(st, d)]

    def x_memcpy(self, st, args, ins, fr):
        return self.memcpy(st, args, ins, fr)

    x_memmove = x_memcpy

    def x_memset(self, st, args, ins, fr):
        return self.memset(st, args, ins, fr)

    def strlen_of(self, st, p, fr):
        """Lin for strlen(p)"""
        if p[0] == "P":
            if p[1][0] == "g" and not p[2].t:
                s = self.prog.cstr(p[1][1])
                g = self.prog.globals.get(p[1][1])
                if s is not None and g.get("const"):
                    return Lin(len(s) - p[2].c)
            c = self.content(st, p[1])
            size = self.size_of(st, p[1])
            if not p[2].t and size is not None and not size.t and size.c <= 16:
                for k in range(p[2].c, size.c):
                    x = self.load(st, p[1], Lin(k), 1, "i8")
                    if x[0] != "I" or not st.facts.entails_ne(x[2]):
                        if x[0] == "I" and st.facts.entails_eq(x[2]):
                            return Lin(k - p[2].c)
                        break
            if self.no_nul and ("strof", p[1]) in st.ghost and not p[2].t and p[2].c == 0 and size is not None:
                return size - 1
            L = var(("uf", "strlen", (p[1], p[2], c.id()), 0, (1 << 31) - 2))
            for at in ([p[2]] if not p[2].t else []) + ([size - 1] if size is not None else []):
                if at is not p[2] and not st.facts.entails(at - p[2]):
                    continue
                if size is not None and not st.facts.entails(size - at - 1):
                    continue
                x = self.load(st, p[1], at, 1, "i8")
                if x[0] == "I" and st.facts.entails_eq(x[2]) or (("strof", p[1]) in st.ghost and at is not p[2]):
                    f = st.facts.add_ge(at - p[2] - L)
                    if f is not None:
                        st.facts = f
                    break
            return L
        return var(("sym", st.fresh("strlen"), 0, (1 << 31) - 2))

    def x_strlen(self, st, args, ins, fr):
        p = args[0]
        L = self.strlen_of(st, p, fr)
        self.access(st, "load", p, L + 1, ins, fr)
        return [Outcome(st, I(64, L))]

    def pure(self, name, st, args, ins, fr):
        key = []
        for a in args:
            if a[0] == "P":
                key.append((a[1], a[2], self.content(st, a[1]).id()))
            else:
                key.append(a)
        return [Outcome(st, I(32, var(("uf", name, tuple(key), -(1 << 31), (1 << 31) - 1))))]

    def x_strcmp(self, st, args, ins, fr):
        return self.pure("strcmp", st, args, ins, fr)

    def x_strncmp(self, st, args, ins, fr):
        return self.pure("strncmp", st, args, ins, fr)

    def x_strcasecmp(self, st, args, ins, fr):
        return self.pure("strcasecmp", st, args, ins, fr)

    def x_memcmp(self, st, args, ins, fr):
        if args[2][0] == "I":
            N = self.unsigned(st, 64, args[2][2])
            self.access(st, "load", args[0], N, ins, fr)
            self.access(st, "load", args[1], N, ins, fr)
        return self.pure("memcmp", st, args, ins, fr)

    def x_strcpy(self, st, args, ins, fr):
        L = self.strlen_of(st, args[1], fr)
        self.access(st, "load", args[1], L + 1, ins, fr)
        self.access(st, "store", args[0], L + 1, ins, fr)
        if args[0][0] == "P" and args[1][0] == "P":
            self.copy_blob(st, args[0][1], args[0][2], L + 1, args[1][1], args[1][2])
        return [Outcome(st, args[0])]

    def x_strncpy(self, st, args, ins, fr):
        N = self.unsigned(st, 64, args[2][2]) if args[2][0] == "I" else var(("sym", st.fresh("n"), 0, None))
        self.access(st, "store", args[0], N, ins, fr)
        if args[0][0] == "P":
            self.havoc(st, args[0][1], args[0][2], N)
        return [Outcome(st, args[0])]

    def newobj(self, st, site, size, base):
        n = 0
        while (("heap", site, n)) in st.mem:
            n += 1
        o = ("heap", site, n)
        st.mem[o] = Content(base)
        if size is not None:
            st.sizes[o] = size
        return o

    def site(self, ins, fr):
        return "%s@%s.%s" % (fr.fn.key, fr.ctx, ins.get("_n", 0))

    def x_malloc(self, st, args, ins, fr):
        o = self.newobj(st, self.site(ins, fr), self.unsigned(st, 64, args[0][2]), ("undef", 0))
        return [Outcome(st, P(o))]

    def x_calloc(self, st, args, ins, fr):
        a, b = args[0][2], args[1][2]
        n = a.scale(b.c) if not b.t else b.scale(a.c) if not a.t else None
        o = self.newobj(st, self.site(ins, fr), n, ("zero",))
        return [Outcome(st, P(o))]

    def x__Znwm(self, st, args, ins, fr):
        return self.x_malloc(st, args, ins, fr)

    x__Znam = x__Znwm

    def x_strdup(self, st, args, ins, fr):
        if args[0][0] != "P":
            return None
        L = self.strlen_of(st, args[0], fr)
        self.access(st, "load", args[0], L + 1, ins, fr)
        o = self.newobj(st, self.site(ins, fr), L + 1, ("undef", 0))
        self.copy_blob(st, o, ZERO, L + 1, args[0][1], args[0][2])
        st.ghost[("strof", o)] = o
        return [Outcome(st, P(o))]

    def x_realloc(self, st, args, ins, fr):
        o = self.newobj(st, self.site(ins, fr), self.unsigned(st, 64, args[1][2]), ("undef", 0))
        return [Outcome(st, P(o))]

    def x_free(self, st, args, ins, fr):
        return [Outcome(st, ("U", "void"))]

    x__ZdlPv = x_free
    x__ZdlPvm = x_free
    x__ZdaPv = x_free
    x__ZdaPvm = x_free

    def x_exit(self, st, args, ins, fr):
        return [Outcome(st, ("U", "exit"), "exit")]

    x_abort = x_exit

    def x___cxa_throw(self, st, args, ins, fr):
        return [Outcome(st, ("U", "exc"), "throw")]

    def x___cxa_allocate_exception(self, st, args, ins, fr):
        return [Outcome(st, P(self.newobj(st, self.site(ins, fr), None, ("undef", 0))))]

    def x___errno_location(self, st, args, ins, fr):
        return [Outcome(st, P(("g", "errno")))]

    def x_htons(self, st, args, ins, fr):
        return self._bswap(st, args, ins, fr, 16)

    x_ntohs = x_htons

    def x_htonl(self, st, args, ins, fr):
        return self._bswap(st, args, ins, fr, 32)

    x_ntohl = x_htonl

    def _bswap(self, st, args, ins, fr, w):
        v = args[0]
        if v[0] == "I":
            b = bits_of(w, v[2], st.facts)
            if None not in b:
                nb = []
                for i in range(w // 8 - 1, -1, -1):
                    nb += b[8 * i:8 * i + 8]
                return [Outcome(st, I(w, from_bits(w, nb, st.facts)))]
        return [Outcome(st, self.fresh_ret(st, "bswap", ins, fr))]

    # ------------------------------------------------------------ functions
    def run(self, fn, args, st, fr=None):
        """-> list of Outcome (returning / throwing / exiting)"""
        if fn.decl:
            raise AnalysisBroken("no body for " + fn.key)
        fn.analyse()
        self.number(fn)
        self.touched.add(fn.name)
        if fr is None:
            fr = Frame(fn, fn.key, 0)
        st.env = {}
        for a, v in zip(fn.args, args):
            if "byval" in a and v[0] == "P":
                o = ("alloca", fr.ctx, "arg%d" % a["id"], st.fresh("byval"))
                n = Lin(a["bysize"])
                st.sizes[o] = n
                st.mem[o] = Content(("undef", 0))
                self.copy_blob(st, o, ZERO, n, v[1], v[2])
                v = P(o)
            st.env[a["id"]] = v
        outs = []
        exits = self.region(fn, fr, None, 0, st, outs, None)
        # drop this frame's locals
        for o in outs:
            dead = [k for k in o.st.mem if k[0] == "alloca" and k[1] == fr.ctx]
            if dead:
                dead = set(dead) - self.reach_ret(o)
                for k in dead:
                    del o.st.mem[k]
                    o.st.sizes.pop(k, None)
        return self.merge_outs(outs)

    def reach_ret(self, o):
        if o.val[0] == "P":
            return {o.val[1]}
        return set()

    def number(self, fn):
        if fn.raw.get("_num"):
            return
        n = 0
        for b in fn.blocks:
            for i in b:
                i["_n"] = n
                n += 1
        fn.raw["_num"] = True

    def merge_outs(self, outs):
        for o in outs:
            o.st.env = {}
        return self.dedupe(outs, lambda o: o.st, lambda o: (o.kind, o.val))

    def full_key(self, s):
        return (frozenset(s.env.items()), s.trace, frozenset(s.null.items()), frozenset(s.ghost.items()), frozenset(s.mem.items()))

    def dedupe(self, xs, get, extra):
        """drop duplicates; beyond merge_at of them, keep of states that differ in their facts only the common facts"""
        for lossy in (False, True):
            groups, res = {}, []
            for x in xs:
                s = get(x)
                k = (extra(x), frozenset(s.env.items()) if s.env else None, s.trace, frozenset(s.null.items()),
                     tuple(sorted(s.ghost.items(), key=repr)), frozenset(s.mem.items()))
                if not lossy:
                    k += (s.facts.ge, s.facts.ne)
                g = groups.get(k)
                if g is not None:
                    g = get(g)
                    if lossy:
                        g.facts = g.facts.meet_common(s.facts)
                    for c, n in s.cnt.items():
                        if g.cnt.get(c, 0) < n:
                            g.cnt[c] = n
                else:
                    groups[k] = x
                    res.append(x)
            xs = res
            if len(xs) <= self.merge_at:
                break
        return xs

    merge_at = 12

    def merge_states(self, fn, b, states):
        if len(states) == 1:
            return states
        live = fn.live[b] | {i["id"] for i in fn.blocks[b] if i["op"] == "phi"}
        for s in states:
            s.env = {k: v for k, v in s.env.items() if k in live}
        res = self.dedupe(states, lambda s: s, lambda s: None)
        if len(res) > self.max_states:
            res = self.force_merge(fn, b, res)
        return res

    def force_merge(self, fn, b, states):
        groups = {}
        for s in states:
            k = (s.trace, tuple(sorted(((a, v) for a, v in s.ghost.items() if a[0] not in ("peq", "opq")), key=repr)))
            groups.setdefault(k, []).append(s)
        out = []
        for k, ss in groups.items():
            out.append(self.join_all(ss, "fm@%s.%d" % (fn.key, b)) if len(ss) > 1 else ss[0])
        if len(out) > self.max_states * 8:
            raise TooBig("too many trace partitions in %s" % fn.key)
        return out

    # generic join -------------------------------------------------
    def join_all(self, ss, tag):
        a = ss[0]
        for s in ss[1:]:
            a, _, _ = self.join2(a, s, tag)
        return a

    def join_val(self, tag, slot, x, y, sx, sy, m):
        """m: dict atom -> (Lin in x, Lin in y)"""
        if x == y:
            return x
        if x is None or y is None:
            return None
        if x[0] == "C" and y[0] in ("I", "C") or y[0] == "C" and x[0] in ("I", "C"):
            return ("C", "opq", "%s:%s" % (tag, slot))
        if x[0] == "I" and y[0] == "I" and x[1] == y[1]:
            if x[2] == y[2]:
                return x
            w = x[1]
            lx, hx = sx.facts.interval(x[2])
            ly, hy = sy.facts.interval(y[2])
            lo = None if lx is None or ly is None else min(lx, ly)
            hi = None if hx is None or hy is None else max(hx, hy)
            if lo is None or lo < -(1 << (w - 1)):
                lo = -(1 << (w - 1))
            if hi is None or hi >= (1 << w):
                hi = (1 << w) - 1
            if self._widen:
                if x[1] <= 16 and lo >= 0:
                    lo, hi = 0, (1 << w) - 1
                else:
                    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            a = ("sym", "%s:%s" % (tag, slot), lo, hi)
            m[a] = (x[2], y[2])
            return I(w, var(a))
        if x[0] == "P" and y[0] == "P" and x[1] == y[1]:
            a = ("sym", "%s:%s" % (tag, slot), None, None)
            m[a] = (x[2], y[2])
            return ("P", x[1], var(a))
        if x[0] in ("P", "N") and y[0] in ("P", "N"):
            o = ("unk", "%s:%s" % (tag, slot))
            return P(o)
        return ("U", "%s:%s" % (tag, slot))

    _widen = False

    def join_mem(self, tag, a, b, m, n):
        """join memories of states a and b into n"""
        n.mem = {}
        for o in set(a.mem) | set(b.mem):
            ca, cb = a.mem.get(o), b.mem.get(o)
            if ca is None or cb is None:
                if o[0] in ("alloca", "heap"):
                    n.mem[o] = ca or cb
                    continue
                ca = ca or self.content(a, o)
                cb = cb or self.content(b, o)
            if ca == cb:
                n.mem[o] = ca
                continue
            n.mem[o] = self.join_content(tag, o, a, b, ca, cb, m)

    def join_content(self, tag, o, a, b, ca, cb, m):
        la, lb = ca.log, cb.log
        k = 0
        while ca.base == cb.base and k < len(la) and k < len(lb) and la[k] == lb[k]:
            k += 1
        allc = lambda l: all(e[0] == "w" and not e[1].t for e in l)
        if ca.base == cb.base and allc(la[k:]) and allc(lb[k:]):
            cells = {}
            for e in la[k:] + lb[k:]:
                cells.setdefault((e[1], e[2]), None)
            # overlapping different-size cells -> give up
            cl = sorted(cells, key=lambda x: x[0].c)
            if all(x[0].c + x[1] <= y[0].c for x, y in zip(cl, cl[1:])):
                log = list(la[:k])
                for off, size in cl:
                    ty = None
                    for e in la[k:] + lb[k:]:
                        if e[1] == off and e[2] == size:
                            ty = "ptr" if e[3][0] in ("P", "N") and size == 8 else "i%d" % (8 * size)
                            break
                    x = self._load(a, ca, o, off, size, ty)
                    y = self._load(b, cb, o, off, size, ty)
                    v = self.join_val(tag, (o, off), x, y, a, b, m)
                    if v is None:
                        v = ("U", "%s:%s" % (tag, (o, off)))
                    log.append(("w", off, size, v))
                return Content(ca.base, tuple(log))
        # general case: common prefix + havoc, keep agreeing constant cells
        base = ca.base if ca.base == cb.base else ("sym", "%s:%s" % (tag, (o,)))
        log = list(la[:k]) if ca.base == cb.base else []
        log.append(("hv", None, None, "%s:%s" % (tag, (o,))))
        return Content(base, tuple(log))

    def join2(self, a, b, tag):
        n = State()
        m = {}
        n.env = {}
        for k in set(a.env) & set(b.env):
            v = self.join_val(tag, "e%s" % k, a.env[k], b.env[k], a, b, m)
            if v is not None:
                n.env[k] = v
        self.join_mem(tag, a, b, m, n)
        n.null = {o: v for o, v in a.null.items() if b.null.get(o) == v}
        n.trace = a.trace if a.trace == b.trace else self.join_trace(a.trace, b.trace)
        n.ghost = {k: v for k, v in a.ghost.items() if k in b.ghost and b.ghost[k] == v}
        n.sizes = dict(a.sizes)
        n.sizes.update(b.sizes)
        n.cnt = dict(a.cnt)
        for c, x in b.cnt.items():
            if n.cnt.get(c, 0) < x:
                n.cnt[c] = x
        # old meanings of the merge atoms die first
        fa = a.facts.without(lambda t: t in m)
        fb = b.facts.without(lambda t: t in m)
        f = fa.meet_common(fb)
        # nullness of pointer joins
        for k, v in n.env.items():
            if v[0] == "P" and v[1][0] == "unk":
                na, nb = a.isnull(a.env[k]), b.isnull(b.env[k])
                if na is not None and na == nb:
                    n.null[v[1]] = na
        # hull facts for merge atoms
        for t, (x, y) in m.items():
            T = var(t)
            for s in (x, y):
                if s is None:
                    continue
                # T >= s ?  T <= s ?
                if fa.entails(x - s) and fb.entails(y - s):
                    f = f.add_ge(T - s) or f
                if fa.entails(s - x) and fb.entails(s - y):
                    f = f.add_ge(s - T) or f
        n.facts = f
        return n, m, None

    def join_trace(self, a, b):
        k = 0
        while k < len(a) and k < len(b) and a[k] == b[k]:
            k += 1
        rest = set()
        for e in a[k:] + b[k:]:
            if e[0] == "LOOP":
                rest |= e[1]
            else:
                rest.add(e)
        if k and a[k - 1][0] == "LOOP":
            k -= 1
            rest |= a[k][1]
        return a[:k] + (("LOOP", frozenset(rest)),)

    # ------------------------------------------------------------ regions and loops
    def region(self, fn, fr, body, start, st, outs, skip_phi_header):
        """Analyse blocks of `body` (None = whole function) from block start with state st (phis of start already set).
        Returns (exits [(pred, succ, state)], backs [state]) for loop bodies."""
        pend = {start: [st]}
        exits, backs = [], []
        first = True
        guard = 0
        while pend:
            b = min(pend, key=lambda x: fn.rpoidx[x])
            states = pend.pop(b)
            states = self.merge_states(fn, b, states)
            if b in fn.headers and not (b == start and first and body is not None):
                edges = []
                for s in states:
                    edges += self.loop(fn, fr, b, s, outs)
            else:
                edges = []
                for s in states:
                    edges += self.block(fn, fr, b, s, outs)
            first = False
            for (p, succ, s) in edges:
                if body is not None:
                    if succ == start:
                        self.phis(fn, fr, succ, p, s)
                        backs.append(s)
                        continue
                    if succ not in body:
                        exits.append((p, succ, s))
                        continue
                if fn.rpoidx[succ] <= fn.rpoidx[p] and succ not in fn.headers:
                    raise AnalysisBroken("irreducible control flow in " + fn.key)
                self.phis(fn, fr, succ, p, s)
                pend.setdefault(succ, []).append(s)
        return exits, backs

    peel = 40
    unroll = 0
    unroll_in = None
    peel_big = False
    once = None
    cands = {}

    def phis(self, fn, fr, b, pred, st):
        new = {}
        for ins in fn.blocks[b]:
            if ins["op"] != "phi":
                break
            for p, v in ins["in"]:
                if p == pred:
                    new[ins["id"]] = self.val(st, v, fr)
                    break
        st.env.update(new)

    def loop(self, fn, fr, h, st, outs):
        """widening fixpoint of the natural loop at h for one entry state; returns exit edges"""
        body = fn.loops[h]
        live = fn.live[h] | {i["id"] for i in fn.blocks[h] if i["op"] == "phi"}
        st.env = {k: v for k, v in st.env.items() if k in live}
        tag = st.fresh("lp@%s.%d" % (fr.ctx, h))
        # trial from the entry state; iterations whose branches are all decided are executed abstractly one by one
        trim = lambda s: setattr(s, "env", {k: v for k, v in s.env.items() if k in live}) or s
        if self.once and self.once(fn) and not any(h in bd and hh != h for hh, bd in fn.loops.items()):
            # a service loop: one iteration from any state satisfies the same rules as the next
            exits, backs = self.region(fn, fr, body, h, st, outs, h)
            outs.extend(Outcome(s, ("U", "void"), "again") for s in backs)
            return exits
        if self.unroll and (self.unroll_in is None or self.unroll_in(fn)):
            # small concrete shapes: every iteration of every path, one by one
            frontier, ex, so = [st.copy()], [], []
            for it in range(self.unroll):
                nxt = []
                for s in frontier:
                    key = self.full_key(trim(s))
                    e, b = self.region(fn, fr, body, h, s, so, h)
                    ex += e
                    for x in b:
                        if self.full_key(trim(x)) == key:
                            # an iteration that changes nothing
                            self.stuck.append((fn, next((i for i in fn.blocks[h] if i.get("l")), None), fr))
                        else:
                            nxt.append(x)
                frontier = nxt
                if not frontier:
                    outs.extend(so)
                    return ex
        peeled = 0
        entry = st
        self.cands[tag] = set()
        while True:
            souts = []
            s0 = self.steps
            exits, backs = self.region(fn, fr, body, h, st.copy(), souts, h)
            if not backs:
                outs.extend(souts)
                return exits
            if len(backs) == 1 and not exits and not souts and peeled < self.peel and (self.steps - s0 < 400 or self.peel_big):
                peeled += 1
                st = trim(backs[0])
                continue
            if not peeled:
                break
            # not all decided: start over without peeling
            st = entry
            souts = []
            exits, backs = self.region(fn, fr, body, h, st.copy(), souts, h)
            break
        for s in backs:
            trim(s)
        cand = None
        hdr = None
        sub = None
        slots = {}      # atom -> ('step', L0, c) | ('any', L0)
        k = ("sym", tag + ":k", 0, None)
        banned = set()
        stepinfo = {}
        cur, cursub = None, None
        hdr, m = self.widen(st, backs, tag, k, None, banned)
        for it in range(12):
            souts = []
            exits, backs2 = self.region(fn, fr, body, h, hdr.copy(), souts, h)
            for s in backs2:
                trim(s)
            hdr2, m2, stable = self.rewiden(st, hdr, m, backs2, tag, k, banned)
            if stable:
                outs.extend(souts)
                if not exits and not souts:
                    # nothing that is reachable leaves the loop
                    self.stuck.append((fn, next((i for i in fn.blocks[h] if i.get("l")), None), fr))
                for _, _, s in exits:
                    self.solve_counter(s, k)
                return exits
            hdr, m = hdr2, m2
        raise TooBig("loop at %s:%d does not stabilise" % (fn.key, h))

    def solve_counter(self, s, k):
        """where the exit condition determines the number of iterations, write values in terms of it"""
        val = None
        for L in s.facts.ge:
            c = dict(L.t).get(k)
            if c in (1, -1) and s.facts.entails(-L):
                val = var(k) - L if c == 1 else var(k) + L
                break
        if val is None or any(k in _atoms_deep(a) for a, _ in val.t):
            return

        def sl(L):
            c = dict(L.t).get(k) if isinstance(L, Lin) else None
            return L + (val - var(k)).scale(c) if c else L

        def sv(v):
            if v[0] == "I":
                return I(v[1], sl(v[2]))
            if v[0] == "P":
                return ("P", v[1], sl(v[2]))
            return v
        s.env = {a: sv(v) for a, v in s.env.items()}
        for o, c in list(s.mem.items()):
            log = tuple(("w", sl(e[1]), e[2], sv(e[3])) if e[0] == "w" else
                        e if e[1] is None else
                        (e[0], sl(e[1]), sl(e[2]) if e[2] is not None else None) + e[3:] for e in c.log)
            if log != c.log:
                s.mem[o] = Content(c.base, log)

    # Header invariant representation: state whose varying slots are either L0 + c*k (k = iteration counter)
    # or a fresh atom.  m: {slot: ('step', L0, c) | ('atom', atom, L0)}
    def slots_of(self, st):
        d = {}
        for k, v in st.env.items():
            d[("e", k)] = v
        for o, c in st.mem.items():
            d[("m", o)] = c
        return d

    def widen(self, st, backs, tag, k, _, banned):
        """first generalisation from entry state and first-iteration back states"""
        m = {}
        hdr = st.copy()
        for b in backs:
            self.absorb(st, hdr, m, b, tag, k, first=True)
        f = st.facts
        hdr.facts = self.header_facts(st, m, k)
        for b in backs:
            for c, n in b.cnt.items():
                if hdr.cnt.get(c, 0) < n:
                    hdr.cnt[c] = n
        self.finish(st, hdr, backs)
        return hdr, m

    def header_facts(self, st, m, k):
        f = st.facts.without(lambda a: a == k)
        for slot, x in m.items():
            # conjecture: counters stay in the signed range of their width (checked like every other candidate)
            if x[0] == "step" and len(x) > 3 and x[3]:
                L, w = x[1] + var(k).scale(x[2]), x[3]
                f = f.add_ge(L + (1 << (w - 1))) or f
                f = f.add_ge(const((1 << (w - 1)) - 1) - L) or f
        return f

    def finish(self, st, hdr, backs):
        for b in backs:
            if b.trace != hdr.trace:
                hdr.trace = self.join_trace(hdr.trace, b.trace)
            hdr.ghost = {kk: v for kk, v in hdr.ghost.items() if b.ghost.get(kk) == v and kk in b.ghost}
            hdr.null = {o: v for o, v in hdr.null.items() if b.null.get(o) == v}
            for o, s in b.sizes.items():
                hdr.sizes.setdefault(o, s)

    def gen(self, slot, v0, vh, vb, st, m, tag, k, bfacts, first):
        """generalise one slot value. v0 entry value, vh header value, vb back value -> new header value"""
        if vb == vh:
            return vh
        cur = m.get(slot)
        K = var(k)
        if v0[0] in ("I", "P") and vb[0] == v0[0] and (v0[0] == "I" or v0[1] == vb[1]):
            L0, Lb = v0[2], vb[2]
            mkv = (lambda L: I(v0[1], L)) if v0[0] == "I" else (lambda L: ("P", v0[1], L))
            if cur is None and first:
                d = Lb - L0
                if not d.t and d.c:
                    m[slot] = ("step", L0, d.c, v0[1] if v0[0] == "I" and v0[1] > 16 else None)
                    return mkv(L0 + K.scale(d.c))
                if not d.t and d.c == 0:
                    return vh
            if cur is not None and cur[0] == "step":
                want = L0 + K.scale(cur[2]) + cur[2]
                if Lb == (want if not first else L0 + cur[2]):
                    return vh
                if not first and bfacts.entails_eq(Lb - want):
                    return vh
            if cur is not None and cur[0] == "atom":
                if vh[0] == v0[0]:
                    return vh
            w = v0[1] if v0[0] == "I" else None
            if w is None:
                lo = hi = None
            elif w <= 16:
                lo, hi = 0, (1 << w) - 1
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            a = ("sym", "%s:%s" % (tag, slot_str(slot)), lo, hi)
            m[slot] = ("atom", a, L0)
            return mkv(var(a))
        if v0[0] in ("C", "I") and vb[0] in ("C", "I"):
            m[slot] = ("any",)
            return ("C", "opq", "%s:%s" % (tag, slot_str(slot)))
        if v0[0] in ("P", "N") and vb[0] in ("P", "N"):
            m[slot] = ("any",)
            o = ("unk", "%s:%s" % (tag, slot_str(slot)))
            return P(o)
        m[slot] = ("any",)
        return ("U", "%s:%s" % (tag, slot_str(slot)))

    def absorb(self, st, hdr, m, b, tag, k, first):
        """make hdr cover back state b; returns True if hdr changed"""
        ch = False
        for e in list(hdr.env):
            if e not in b.env:
                del hdr.env[e]
                ch = True
                continue
            slot = ("e", e)
            if m.get(slot) == ("any",):
                continue
            nv = self.gen(slot, st.env[e], hdr.env[e], b.env[e], st, m, tag, k, b.facts, first)
            if nv != hdr.env[e]:
                hdr.env[e] = nv
                ch = True
        for o in set(hdr.mem) | set(b.mem):
            cb = b.mem.get(o)
            chh = hdr.mem.get(o)
            if cb is None:
                continue
            if chh is None:
                if o[0] in ("alloca", "heap"):
                    # created in the loop: keep (fresh per iteration, unreachable from header unless stored)
                    continue
                chh = self.content(hdr, o)
                self.content(st, o)
            if cb == chh:
                continue
            c0 = st.mem.get(o)
            if c0 is None:
                c0 = self.content(st, o)
            if m.get(("m", o)) == ("any",):
                continue
            new = self.absorb_content(o, st, hdr, b, c0, chh, cb, m, tag, k, first)
            if new != chh:
                hdr.mem[o] = new
                ch = True
        return ch

    def absorb_content(self, o, st, hdr, b, c0, ch, cb, m, tag, k, first):
        """cellwise generalisation when all differing writes are constant-offset; otherwise havoc"""
        allc = lambda l: all(e[0] == "w" and not e[1].t for e in l)
        i = 0
        while i < len(c0.log) and i < len(cb.log) and i < len(ch.log) and c0.log[i] == cb.log[i] == ch.log[i]:
            i += 1
        mm = m.get(("m", o))
        if mm is None and first or mm is not None and mm[0] == "copy":
            new = self.copy_loop(o, st, b, c0, ch, cb, m, k, first)
            if new is not None:
                return new
            if mm is not None:
                m[("m", o)] = ("nocopy",)
                ch = c0
        if c0.base == cb.base == ch.base and allc(c0.log[i:]) and allc(cb.log[i:]) and allc(ch.log[i:]):
            cells = sorted({(e[1].c, e[2]) for e in c0.log[i:] + cb.log[i:] + ch.log[i:]})
            if all(x[0] + x[1] <= y[0] for x, y in zip(cells, cells[1:])):
                log = list(c0.log[:i])
                for off, size in cells:
                    ty = "i%d" % (8 * size)
                    for e in c0.log[i:] + cb.log[i:] + ch.log[i:]:
                        if e[1].c == off and e[2] == size and e[3][0] in ("P", "N") and size == 8:
                            ty = "ptr"
                        if e[1].c == off and e[2] == size and e[3][0] == "U":
                            ty = "float"
                    x0 = self._load(st, c0, o, Lin(off), size, ty)
                    xh = self._load(hdr, ch, o, Lin(off), size, ty)
                    xb = self._load(b, cb, o, Lin(off), size, ty)
                    slot = ("c", o, off)
                    if m.get(slot) == ("any",):
                        nv = xh
                    else:
                        nv = self.gen(slot, x0, xh, xb, st, m, tag, k, b.facts, first)
                    log.append(("w", Lin(off), size, nv))
                return Content(c0.base, tuple(log))
        # everything from the lowest offset written on is unknown
        lo = m[("m", o)][1] if m.get(("m", o), ("",))[0] == "from" else None
        if c0.base == cb.base and (first or lo is not None):
            n0 = len(c0.log)
            pre = tuple(e for e in cb.log if e in c0.log or e in ch.log)
            extra = [e for e in cb.log if e not in c0.log and e not in ch.log]
            kept = all(e in cb.log for e in c0.log)
            if first and extra and kept and all(e[1] is not None for e in extra) and (lo is None or lo == extra[0][1]):
                lo = extra[0][1]
            if lo is not None and kept and all(e[1] is not None and b.facts.entails(e[1] - lo) for e in extra):
                m[("m", o)] = ("from", lo)
                return Content(c0.base, c0.log + (("hv", lo, None, "%s:%s" % (tag, obj_short(o))),))
        m[("m", o)] = ("any",)
        return Content(c0.base if c0.base == cb.base else ("sym", tag), c0.log[:i] + (("hv", None, None, "%s:%s" % (tag, obj_short(o))),))

    def copy_loop(self, o, st, b, c0, ch, cb, m, k, first):
        """an array copied or filled byte by byte: after k iterations the first k bytes are done"""
        slot = ("m", o)
        K = var(k)
        if first:
            if slot in m:
                e = m[slot]
                if e[0] != "copy" or len(cb.log) != len(c0.log) + 1:
                    return None
                return ch if self._copy_entry(st, b, o, c0, cb, ZERO, e[1]) else None
            extra = [e for e in cb.log if e not in c0.log]
            if len(cb.log) != len(c0.log) + 1 or len(extra) != 1 or not all(e in cb.log for e in c0.log):
                return None
            _, off, n, v = extra[0] if extra[0][0] == "w" else (0, 0, 0, 0)
            if n != 1 or v[0] != "I":
                return None
            e = None
            if not v[2].t:
                e = ("set", off, K, v[2])
            elif len(v[2].t) == 1 and v[2].c == 0 and v[2].t[0][1] == 1 and v[2].t[0][0][0] == "ld":
                _, so, soff, sz, ver = v[2].t[0][0]
                if sz == 1 and so != o:
                    sc = self.content(st, so)
                    if self._load(st, sc, so, soff, 1, "i8") == v:
                        e = ("cp", off, K, sc, so, soff)
            if e is None:
                return None
            m[slot] = ("copy", e)
            return Content(c0.base, c0.log + (e,))
        e = m.get(slot)
        if e is None or e[0] != "copy" or len(cb.log) != len(ch.log) + 1:
            return None
        return ch if self._copy_entry(st, b, o, ch, cb, K, e[1]) else None

    def _copy_entry(self, st, b, o, cpre, cb, K, e):
        extra = [x for x in cb.log if x not in cpre.log]
        if len(extra) != 1 or extra[0][0] != "w" or extra[0][2] != 1 or extra[0][3][0] != "I":
            return False
        w = extra[0]
        if not b.facts.entails_eq(w[1] - e[1] - K):
            return False
        if e[0] == "set":
            return w[3][2] == e[3]
        if b.mem.get(e[4], e[3]) != e[3]:
            return False
        v = self._load(b, e[3], e[4], e[5] + K, 1, "i8")
        return v[0] == "I" and same_int(b.facts, 8, v[2], w[3][2])

    def rewiden(self, st, hdr, m, backs, tag, k, banned):
        """check inductiveness of hdr; returns (newhdr, newm, stable)"""
        new = hdr.copy()
        nm = dict(m)
        ch = False
        old_trace = new.trace
        for b in backs:
            if self.absorb(st, new, nm, b, tag, k, first=False):
                ch = True
        # trace / ghost / null
        for b in backs:
            if b.trace != new.trace:
                t = self.join_trace(new.trace, b.trace)
                if t != new.trace:
                    new.trace = t
                    ch = True
            g = {kk: v for kk, v in new.ghost.items() if kk in b.ghost and b.ghost[kk] == v}
            if g != new.ghost:
                new.ghost = g
                ch = True
            n = {o: v for o, v in new.null.items() if b.null.get(o) == v}
            if n != new.null:
                new.null = n
                ch = True
            for c, x in b.cnt.items():
                if new.cnt.get(c, 0) < x:
                    new.cnt[c] = x
        if ch:
            # shape changed: restart facts from the entry ones
            new.facts = self.header_facts(st, nm, k).without(lambda a: any(x[0] == "atom" and x[1] == a for x in nm.values()))
            new.ghost.pop(("cand", tag), None)
            return new, nm, False
        # facts: substitution header atom -> back value
        def inst(L, b):
            """header fact L evaluated in back state (k -> k+1, atoms -> their new values)"""
            out = Lin(L.c)
            for a, c in L.t:
                if a == k:
                    out = out + var(k).scale(c) + c
                else:
                    slot = next((s for s, x in nm.items() if x[0] == "atom" and x[1] == a), None)
                    if slot is None:
                        out = out + Lin(0, ((a, c),))
                    else:
                        v = self.slot_val(b, slot)
                        if v is None or v[0] not in ("I", "P"):
                            return None
                        out = out + v[2].scale(c)
            return out

        def entry(L):
            out = Lin(L.c)
            for a, c in L.t:
                if a == k:
                    continue
                x = next((x for x in nm.values() if x[0] == "atom" and x[1] == a), None)
                out = out + (x[2].scale(c) if x else Lin(0, ((a, c),)))
            return out
        first_time = hdr.ghost.get(("cand", tag), 0)
        if first_time < 2:
            # candidate facts: from back states under inverse substitution, bounds against entry
            cands = set()
            for b in backs:
                for L in b.facts.ge:
                    L2 = Lin(L.c)
                    for a, c in L.t:
                        if a == k:
                            L2 = L2 + var(k).scale(c) - c
                        else:
                            L2 = L2 + Lin(0, ((a, c),))
                    cands.add(L2)
                    cands.add(L)
                    cands.add(L + 1)
            for x in nm.values():
                if x[0] == "atom":
                    T = var(x[1])
                    cands.add(T - x[2])
                    cands.add(x[2] - T)
                    cands.add(T)
            good = set()
            for L in cands:
                if L.t and st.facts.entails(entry(L)):
                    good.add(L)
            f = new.facts
            for L in good:
                f2 = f.add_ge(L)
                if f2 is not None:
                    f = f2
            new.facts = f
            self.cands.setdefault(tag, set()).update(good)
            new.ghost[("cand", tag)] = first_time + 1
            return new, nm, False
        bad = []
        for L in list(new.facts.ge) + [("ne", L) for L in new.facts.ne]:
            isne = isinstance(L, tuple)
            LL = L[1] if isne else L
            for b in backs:
                x = inst(LL, b)
                if x is None or not (b.facts.entails_ne(x) if isne else b.facts.entails(x)):
                    bad.append(L)
                    break
        if bad:
            new.facts = Facts(frozenset(L for L in new.facts.ge if L not in bad),
                              frozenset(L for L in new.facts.ne if ("ne", L) not in bad))
            # a refuted candidate may hide a weaker one
            cs = self.cands.get(tag, set())
            for L in bad:
                if not (isinstance(L, tuple) and L[0] == "ne"):
                    cs.discard(L)
                    weaker = [x for x in cs if x.t == L.t and x.c > L.c]
                    if weaker:
                        new.facts = new.facts.add_ge(min(weaker, key=lambda x: x.c)) or new.facts
            return new, nm, False
        return new, nm, True

    def slot_val(self, b, slot):
        if slot[0] == "e":
            return b.env.get(slot[1])
        if slot[0] == "c":
            return self.load(b, slot[1], Lin(slot[2]), self._cellsize(b, slot), "i%d" % (8 * self._cellsize(b, slot)))
        return None

    def _cellsize(self, b, slot):
        for e in reversed(b.mem[slot[1]].log):
            if e[0] == "w" and not e[1].t and e[1].c == slot[2]:
                return e[2]
        return 4

    # ------------------------------------------------------------ blocks
    def block(self, fn, fr, b, st, outs):
        self.blocks += 1
        cur = [st]
        edges = []
        for ins in fn.blocks[b]:
            op = ins["op"]
            if op == "phi":
                continue
            nxt = []
            for s in cur:
                self.steps += 1
                if self.steps > self.budget:
                    raise TooBig("analysis budget exceeded in %s" % fn.key)
                if op in ("call", "invoke"):
                    edges += self.do_call(fn, fr, b, s, ins, nxt, outs)
                elif op == "br":
                    if "cond" not in ins:
                        edges.append((b, ins["t"], s))
                    else:
                        c = self.tocond(self.val(s, ins["cond"], fr))
                        for t, s2 in self.split(s, c):
                            edges.append((b, ins["t"] if t else ins["e"], s2))
                elif op == "switch":
                    edges += self.do_switch(fn, fr, b, s, ins)
                elif op == "ret":
                    v = self.val(s, ins["o"][0], fr) if ins.get("o") else ("U", "void")
                    outs.append(Outcome(s, v))
                elif op == "unreachable":
                    pass
                elif op == "resume":
                    outs.append(Outcome(s, ("U", "exc"), "throw"))
                elif op == "select":
                    c = self.tocond(self.val(s, ins["o"][0], fr))
                    for t, s2 in self.split(s, c):
                        s2.env[ins["id"]] = self.val(s2, ins["o"][1 if t else 2], fr)
                        nxt.append(s2)
                else:
                    self.simple(s, ins, fr)
                    nxt.append(s)
            cur = nxt
            if not cur and op not in ("br", "switch", "ret"):
                break
        return edges

    def do_switch(self, fn, fr, b, s, ins):
        v = self.val(s, ins["cond"], fr)
        edges = []
        if v[0] != "I":
            for t in fn.succs(b):
                edges.append((b, t, s.copy()))
            return edges
        w, L = v[1], v[2]
        d = s
        by = {}
        alive = True
        for n, t in ins["cases"]:
            if not alive:
                break
            c = self.cmp(d, "eq", w, v, I(w, normc(w, n)))
            sp = self.split(d, c)
            alive = False
            for tr, s2 in sp:
                if tr:
                    edges.append((b, t, s2))
                else:
                    d = s2
                    alive = True
        if alive:
            edges.append((b, ins["def"], d))
        return edges

    def simple(self, st, ins, fr):
        op = ins["op"]
        if op == "load":
            v = self.do_load(st, ins, fr)
        elif op == "store":
            self.do_store(st, ins, fr)
            return
        elif op == "alloca":
            o = ("alloca", fr.ctx, ins["id"], fr.fn.vnames.get(ins["id"], ""))
            st.mem[o] = Content(("undef", 0))
            if "size" in ins:
                st.sizes[o] = Lin(ins["size"])
            v = P(o)
        elif op == "getelementptr":
            v = self.gep(st, ins["g"], fr)
        elif op == "icmp":
            a, b = self.val(st, ins["o"][0], fr), self.val(st, ins["o"][1], fr)
            v = self.cmp(st, ins["pred"], width_of(ins["oty"]) or 64, a, b)
        elif op in ("zext", "sext"):
            v = self.val(st, ins["o"][0], fr)
            w = width_of(ins["ty"])
            sw = width_of(ins["sty"])
            if v[0] == "C":
                if op == "zext":
                    v = I(w, self.cval(st, v))
                else:
                    v = I(w, -self.cval(st, v))
            elif v[0] == "I":
                v = I(w, self.unsigned(st, sw, v[2]) if op == "zext" else self.signed(st, sw, v[2]))
        elif op == "trunc":
            v = self.val(st, ins["o"][0], fr)
            w = width_of(ins["ty"])
            if v[0] == "I":
                if w == 1:
                    if v[2].t and len(v[2].t) == 1 and v[2].t[0][0][0] == "uf" and v[2].t[0][0][1] == "cond" and v[2].c == 0:
                        v = v[2].t[0][0][2][0]
                    else:
                        lo, hi = st.facts.interval(v[2])
                        b = bits_of(1, v[2], st.facts)[0]
                        v = ("C", "eq", v[2] - 1) if v[2].t and lo is not None and lo >= 0 and hi is not None and hi <= 1 else I(1, b) if b in (0, 1) else ("C", "ne", from_b(b)) if b else ("C", "opq", st.fresh("tr1"))
                else:
                    v = self.trunc(st, w, v[2])
        elif op == "sitofp" and self.val(st, ins["o"][0], fr)[0] == "I":
            x = self.val(st, ins["o"][0], fr)
            v = ("F", self.signed(st, x[1], x[2]), 1)
        elif op == "fdiv" and self.val(st, ins["o"][0], fr)[0] == "F" and whole(ins["o"][1]):
            x = self.val(st, ins["o"][0], fr)
            v = ("F", x[1], x[2] * whole(ins["o"][1]))
        elif op == "fptosi" and self.val(st, ins["o"][0], fr)[0] == "F" and width_of(ins["ty"]) >= 32 and self.small(st, self.val(st, ins["o"][0], fr)[1]):
            x = self.val(st, ins["o"][0], fr)       # exact: the quotient of a number below 2**40
            v = self.div(st, width_of(ins["ty"]), x[1], x[2])
        elif op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            v = self.val(st, ins["o"][0], fr)
            if op == "inttoptr":
                v = self.conv(st, v, 8, "ptr")
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            v = self.binop(st, ins, fr)
        elif op == "extractvalue":
            a = self.val(st, ins["o"][0], fr)
            if a[0] == "A" and len(ins["idx"]) == 1 and ins["idx"][0] in a[1]:
                v = a[1][ins["idx"][0]]
            else:
                v = self.fresh_ret(st, "ev", ins, fr)
        elif op == "insertvalue":
            a = self.val(st, ins["o"][0], fr)
            d = dict(a[1]) if a[0] == "A" else {}
            d[ins["idx"][0]] = self.val(st, ins["o"][1], fr)
            v = ("A", FrozenDict(d))
        elif op == "landingpad":
            v = ("U", "exc")
        elif op == "fence":
            return
        else:
            v = self.fresh_ret(st, op, ins, fr)
        if self.on_op:
            self.on_op(st, ins, fr, v)
        if "id" in ins:
            st.env[ins["id"]] = v

    def do_call(self, fn, fr, b, s, ins, nxt, outs):
        callee = ins["callee"]
        args = [self.val(s, a, fr) for a in ins["args"]]
        if callee[0] == "v":
            callee = self.val(s, callee, fr)
        edges = []
        bv = ins.get("byval")
        for o in self.call(s, callee, args, ins, fr):
            if o.kind == "ret":
                if "id" in ins:
                    o.st.env[ins["id"]] = o.val
                if ins["op"] == "invoke":
                    edges.append((b, ins["norm"], o.st))
                else:
                    nxt.append(o.st)
            elif o.kind == "throw" and ins["op"] == "invoke":
                edges.append((b, ins["unw"], o.st))
            else:
                outs.append(o)
        return edges


def _atoms_deep(a, acc=None):
    acc = set() if acc is None else acc
    if isinstance(a, Lin):
        for x, _ in a.t:
            _atoms_deep(x, acc)
    elif isinstance(a, tuple):
        acc.add(a)
        for x in a:
            if isinstance(x, (tuple, Lin)):
                _atoms_deep(x, acc)
    return acc


class FrozenDict(dict):
    def __hash__(self):
        return hash(frozenset(self.items()))


def from_b(b):
    return var(("bits", (b,)))


def slot_str(s):
    if s[0] == "e":
        return "v%s" % s[1]
    return "%s+%s" % (obj_short(s[1]), s[2] if len(s) > 2 else "")


def obj_short(o):
    return "o%x" % (hash(o) & 0xffffffff) if False else repr(o)
