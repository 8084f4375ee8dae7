"""Rule W01: which topic names a topic filter matches."""
import itertools
import build
import report
from gw import *
from oracle import pmap
from text import Texts, Part, T, show
import tables

EXCL = "/+#"


class Level(Part):
    """what stands between two slashes, or a piece of it; two levels of different names are different texts"""
    distinct = True

    def __init__(self, name, single=False):
        Part.__init__(self, name, EXCL, ())
        self.single = single

    def len(self):
        return Lin(1) if self.single else Part.len(self)

    def first(self):
        return var(("sym", "first of " + self.name, 1, 127))


def matches(f, t):
    """MQTT 3.1.1, 4.7"""
    if not f:
        return not t
    if f[0] == ("#",):
        return True
    if not t:
        return False
    return (f[0] == ("+",) or f[0] == t[0]) and matches(f[1:], t[1:])


def join(levels):
    out = []
    for i, l in enumerate(levels):
        out += (["/"] if i else []) + list(l)
    return T(*out)


def values(tier, n, single):
    p, q = Level("p", single), Level("q", single)
    vs = [(p,), (q,), (), (p, q)]
    return vs if n < 3 or tier != "quick" else vs[:1] + vs[2:3] if n > 3 else vs[:3]


def filters(tier, single=False):
    for n in range(1, 5):
        vs = values(tier, n, single)
        for head in itertools.product(vs + [("+",)], repeat=n - 1):
            for last in vs + [("+",), ("#",)]:
                yield head + (last,)


def names(tier, single=False):
    for n in range(1, 5):
        for t in itertools.product(values(tier, n, single), repeat=n):
            yield t


def run(r, f, single=False):
    p = prog("gw:udp")
    fn = p.fn("Topic::isMatch")
    models = dict(FREE)
    X = Texts(models)
    ft = join(f)
    for t in names(r.tier, single):
        tt = join(t)
        if not ft or not tt:
            continue
        st = State()
        ip = Interp(p, models, max_depth=20, max_states=400 if single else 60, budget=200000 if single else 30000)
        ip.peel = ip.unroll = 12
        if single:
            a, b = Level("p", True).first(), Level("q", True).first()
            for v in (a, b):
                for c in EXCL:
                    st.facts = st.facts.add_ne(v - ord(c))
            st.facts = st.facts.add_ne(a - b)
        this, fs, ns = buf(st, "this", p.types["Topic"]["size"]), buf(st, "filter", 32), buf(st, "name", 32)
        ip.store(st, this[1], Lin(p.off("Topic", "_topicName")), 8, fs)
        X.put(ip, st, fs, ft)
        X.put(ip, st, ns, tt)
        outs = [o for o in ip.run(fn, [this, ns], st)]
        r.used(ip)
        r.count("filters and names compared")
        want = matches(f, t)
        got = set() if outs else {None}
        for o in outs:
            got |= {bool(x) for x, _ in ip.split(o.st.copy(), ip.tocond(o.val))} if o.kind == "ret" else {None}
        if len(got) > 1:
            # name and filter are fixed: different answers mean that the analysis has not followed
            raise build.AnalysisBroken("Topic::isMatch: %s and %s are not decided" % (show(ft), show(tt)))
        got = got.pop()
        r.ob("the filter %s %s" % (show(ft), "matches what it should" if want else "matches nothing else"), got is want,
             "the name %s: %s" % (show(tt), "it does not answer" if got is None else "it should" if want else "it should not"), tables.loc(fn))


def single(f):
    return tuple(tuple(Level(x.name, True) if isinstance(x, Level) else x for x in l) for l in f)


def case(r, k):
    f, general = k
    if general:
        q = report.Report(r.prop, r.tier)
        try:
            run(q, f)
        except build.AnalysisBroken:
            pass
        else:
            r.obl.update(q.obl)
            r.fns |= q.fns
            for n, v in q.counts.items():
                r.count(n, v)
            return
    # not written in terms of the operations on texts: levels and their pieces of one character each
    r.count("by single characters")
    run(r, single(f), True)


def W01(r):
    r.rule("a topic name matches a filter exactly if their levels match one by one, '+' matching any level and a last '#' any number of levels, none included")
    prog("gw:udp")
    try:
        run(report.Report(r.prop, r.tier), (("+",), (Level("p"),)))
        general = True
    except build.AnalysisBroken:
        general = False
    pmap(r, [(f, general) for f in filters(r.tier)], case)
    r.floor("filters and names", r.counts.get("filters and names compared", 0), 1000)


REG = {"W01": W01}
