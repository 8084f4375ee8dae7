"""In-memory form of the resolved program dumped by irdump."""


class Fn:
    __slots__ = ("name", "dem", "key", "file", "line", "cls", "src", "args", "blocks", "decl", "ret", "ptypes", "vnames", "raw", "vararg",
                 "preds", "rpo", "rpoidx", "live", "loops", "headers", "outside", "_inloop")

    def __init__(self, d):
        self.raw = d
        self.name = d["name"]
        self.dem = d["dem"]
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.cls = d.get("cls")
        self.src = d.get("srcname") or d["dem"].split("(")[0]
        self.decl = d["decl"]
        self.outside = d.get("outside", False)
        self.ret = d["ret"]
        self.args = d["args"]
        self.vararg = d.get("vararg")
        self.ptypes = d.get("ptypes", [])
        self.blocks = d.get("blocks")
        self.vnames = {int(k): v for k, v in d.get("vnames", {}).items()}
        self.key = (self.cls + "::" + self.src) if self.cls else self.src
        self.rpo = None

    def __repr__(self):
        return "<Fn %s>" % self.key

    def succs(self, b):
        t = self.blocks[b][-1]
        op = t["op"]
        if op == "br":
            return [t["t"], t["e"]] if "cond" in t else [t["t"]]
        if op == "switch":
            return list(dict.fromkeys([c[1] for c in t["cases"]] + [t["def"]]))
        if op == "invoke":
            return [t["norm"], t["unw"]]
        return []

    def analyse(self):
        if self.rpo is not None:
            return
        n = len(self.blocks)
        self.preds = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succs(b):
                self.preds[s].append(b)
        seen, order = set(), []
        st = [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.rpoidx = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.preds[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    a, c = x, p
                    while a != c:
                        while self.rpoidx[a] > self.rpoidx[c]:
                            a = idom[a]
                        while self.rpoidx[c] > self.rpoidx[a]:
                            c = idom[c]
                    x = a
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for b in self.rpo:
            for s in self.succs(b):
                if s in self.rpoidx and self.rpoidx[s] <= self.rpoidx[b] and dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x in body:
                            continue
                        body.add(x)
                        wl.extend(p for p in self.preds[x] if p in self.rpoidx)
        self.headers = set(self.loops)
        # liveness of SSA values at block entry
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]
        for b in range(n):
            for ins in self.blocks[b]:
                if ins["op"] == "phi":
                    for p, v in ins["in"]:
                        if v[0] == "v":
                            phiuse[p].setdefault(b, set()).add(v[1])
                else:
                    for v in operands(ins):
                        if v not in deff[b]:
                            use[b].add(v)
                if "id" in ins:
                    deff[b].add(ins["id"])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succs(b):
                    out |= live[s]
                    out |= phiuse[b].get(s, set())
                nl = use[b] | (out - deff[b])
                if nl != live[b]:
                    live[b] = nl
                    ch = True
        self.live = live


def _vals(x, acc):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "v" and isinstance(x[1], int):
            acc.append(x[1])
        else:
            for y in x:
                _vals(y, acc)


def operands(ins):
    acc = []
    for k in ("o", "g", "args", "callee", "cond"):
        if k in ins:
            _vals(ins[k], acc)
    return acc


class Program:
    def __init__(self, d, kind):
        self.kind = kind
        self.fns = {}
        self.bykey = {}
        for f in d["funcs"]:
            fn = Fn(f)
            self.fns[fn.name] = fn
            if not fn.decl:
                self.bykey.setdefault(fn.key, []).append(fn)
        self.globals = {g["name"]: g for g in d["globals"]}
        self.gdem = {}
        for g in d["globals"]:
            self.gdem.setdefault(g["dem"], g)
        self.types = {}      # name -> type dict
        self.tid = {}
        self.enums = {}      # enumerator -> value
        self.enumtypes = {}
        for t in d["types"]:
            if "enum" in t:
                self.enumtypes.setdefault(t["enum"], []).append(dict(t["vals"]))
                for k, v in t["vals"]:
                    self.enums[k] = v
            elif "typedef" in t:
                pass
            else:
                self.tid[t["tid"]] = t
                if t["name"]:
                    self.types.setdefault(t["name"], t)
        for t in d["types"]:
            if "typedef" in t and t["tid"] in self.tid:
                self.types.setdefault(t["typedef"], self.tid[t["tid"]])

    def readonly(self, name):
        """an initialised global of internal linkage (or constant) whose address is only used by loads"""
        g = self.globals.get(name)
        if g is None or "init" not in g:
            return False
        if g.get("const"):
            return True
        if self._ro is None:
            bad = set()

            def gs(x, acc):
                if isinstance(x, list):
                    if len(x) == 2 and x[0] == "g" and isinstance(x[1], str):
                        acc.add(x[1])
                    for y in x:
                        gs(y, acc)
            for f in self.fns.values():
                if f.decl:
                    continue
                ptrs = {}       # gep results rooted at a global
                uses = {}
                for blk in f.blocks:
                    for ins in blk:
                        if ins["op"] == "getelementptr":
                            acc = set()
                            gs(ins["g"], acc)
                            _v = []
                            _vals(ins["g"], _v)
                            for v in _v:
                                acc |= ptrs.get(v, set())
                            ptrs[ins["id"]] = acc
                            continue
                        if ins["op"] in ("load", "icmp"):
                            continue
                        acc = set()
                        for k in ("o", "args", "callee", "cond", "in"):
                            if k in ins:
                                gs(ins[k], acc)
                        bad |= acc
                        for v in operands(ins):
                            uses.setdefault(v, 0)
                        if ins["op"] == "phi":
                            _v = []
                            _vals(ins["in"], _v)
                            for v in _v:
                                uses.setdefault(v, 0)
                for v in uses:
                    bad |= ptrs.get(v, set())
            for n2, g2 in self.globals.items():
                if "init" in g2:
                    acc = set()
                    gs(g2["init"], acc)
                    bad |= acc
            self._ro = bad
        return g.get("internal", False) and name not in self._ro

    _ro = None

    def fn(self, key, nargs=None, ptypes=None):
        c = self.bykey.get(key, [])
        if nargs is not None:
            c = [f for f in c if len(f.args) == nargs]
        if ptypes is not None:
            c = [f for f in c if [p for p in f.ptypes[1:]] == ptypes or f.ptypes[2:] == ptypes]
        if len(c) != 1:
            from build import AnalysisBroken
            raise AnalysisBroken("anchor %s%s: %d definitions found (expected exactly 1)" % (key, ptypes or "", len(c)))
        return c[0]

    def flat_fields(self, tname, base=0, prefix=""):
        """[(path, byte offset, bit size, member)] with base classes flattened"""
        t = self.types.get(tname) if isinstance(tname, str) else self.tid.get(tname)
        out = []
        if not t:
            return out
        for m in t["members"]:
            if m[4] == "base":
                out += self.flat_fields(m[6], base + m[1] // 8, prefix)
            else:
                out.append((prefix + m[0], base + m[1] // 8, m[2], m))
                if m[4] == "agg" and m[6] >= 0:
                    out += self.flat_fields(m[6], base + m[1] // 8, prefix + m[0] + ".")
        return out

    def off(self, tname, path):
        for p, o, b, m in self.flat_fields(tname):
            if p == path:
                return o
        from build import AnalysisBroken
        raise AnalysisBroken("anchor field %s.%s not found" % (tname, path))

    def field_at(self, tname, off):
        best = None
        for p, o, b, m in self.flat_fields(tname):
            if o == off:
                best = p
        return best

    def cstr(self, gname):
        g = self.globals.get(gname)
        if g and "init" in g and g["init"][0] == "data" and g["init"][1] == 1:
            bs = bytes(x & 255 for x in g["init"][2])
            return bs.split(b"\0")[0].decode("latin1")
        if g and "init" in g and g["init"][0] == "zero":
            return ""
        return None
