"""Part of R03: objects the runtime's allocators carve directly out of a generation's arena.

In every function outside the collector that advances an arena's `nextw', on every path: the words taken are
one descriptor plus as many words as it says, the arena is the one for that kind of object, the space was
established (the arena's free bytes compared with at least the bytes taken plus the nursery, or a collection
run with the bytes added to the arena's request), the value returned is the word after the descriptor, and an
object holding pointers has its fields initialised.  A function that lowers `nextw' rewrites the descriptor."""
from .r03 import *
from . import sizes
from .sizes import Lin, lin, fromlin, ptrbase, has_top

KIND_ARENA = {0: (0,), 3: (3,), 4: (2,), 5: (2,)}      # record/vector data, array data, raw, raw64


class Arena(WF):
    CHECK_RAW = True

    def __init__(self, P, reach):
        super().__init__(P, reach)
        self.limit = float("inf")
        self.bases = []
        self.sites = set()
        self.touch = {f.name for f in P.funcs.values() if touches(f)}

    # objects below the arena interface are followed, not summarised
    def intrinsic(self, st, f, name, av, line, site):
        if name in ("ML_AllocRaw", "ML_AllocRaw64", "ML_CString", "ML_ShrinkRaw") and self.P.resolve(f, name) is not None:
            return None
        return super().intrinsic(st, f, name, av, line, site)

    def call(self, f, ctx, st, name, av, line, site):
        if name in ("InvokeGC", "InvokeGCWithRoots"):
            req = {}
            for k, v in st.env.items():
                if k[0] == "F" and k[2] == "reqSizeB":
                    out = set()
                    for t in v:
                        l = lin(t)
                        l = Lin({a: c for a, c in l.a.items() if a[0] != "nw"}, l.k)
                        out.add("?" if has_top(t) else l.key())
                    req[self.base(k[1])] = frozenset(out)
            r = super().call(f, ctx, st, name, av, line, site)
            for s, _ in r:
                for k in [k for k in s.env if k[0] == "F" and k[2] in ("nextw", "tospTop", "reqSizeB", "sweep_nextw") or k[0] == "AV"]:
                    if k[2:] != ("reqSizeB",):
                        del s.env[k]
                s.env[GCN] = frozenset([("gcn", self.ctxname(), line)])
                for b, v in req.items():
                    s.env[("AV", b)] = v
            return r
        g = self.P.resolve(f, name) if name else None
        if g is not None and g.name in self.touch:
            for k in [k for k in st.env if k[0] == "AV" or k[0] == "F" and k[2] == "nextw" or len(k) > 1 and (
                    ptrbase(k[1]) if isinstance(k[1], tuple) and k[0] in ("P", "SZ", "KD", "ZT", "ST") else (0,))[:1] == ("nw",)]:
                del st.env[k]
            st.env[GCN] = frozenset([("call", self.ctxname(), line)])
        return super().call(f, ctx, st, name, av, line, site)

    def split_flags(self, st):
        return (super().split_flags(st), st.env.get(GCN), st.env.get(AP) in (None, frozenset([("ap", "entry", 0)])), frozenset(st.env[k] for k in st.env if k[0] == "AV"), frozenset(k[1] for k in st.env if k[0] == "F" and k[2] == "nextw"))

    def base(self, loc):
        if loc not in self.bases:
            self.bases.append(loc)
        return self.bases.index(loc)

    def default(self, k):
        if k[0] == "AV":
            return frozenset(["?"])
        if k == GCN:
            return frozenset([("gcn",)])
        if k[0] == "ST":
            return frozenset()
        if k[0] == "F" and k[2] in ("nextw", "tospTop", "reqSizeB"):
            return None
        return super().default(k)

    def joinval(self, k, x, y, widen):
        if k[0] in ("AV", "ST"):
            return x | y
        return super().joinval(k, x, y, widen)

    def in_frame(self, k, ctx):
        if k[0] in ("AV", "ST"):
            return False
        return super().in_frame(k, ctx)

    def load(self, st, loc, ptr, ty, f, line):
        if loc[0] == "F" and loc[2] in ("nextw", "tospTop", "reqSizeB") and loc not in st.env:
            return frozenset([("nw", loc[2], self.base(loc[1]), st.env.get(GCN, frozenset([("gcn",)])))])
        return super().load(st, loc, ptr, ty, f, line)

    def learn(self, st, o, x, y):
        if o in ("<", "<="):
            o, x, y = ">" if o == "<" else ">=", y, x
        if o in (">", ">="):
            d = lin(x) - lin(y)
            tt = [a for a, c in d.a.items() if a[0] == "nw" and a[1] == "tospTop" and c == 1]
            nw = [a for a, c in d.a.items() if a[0] == "nw" and a[1] == "nextw" and c == -1]
            if len(tt) == len(nw) == 1 and tt[0][2:] == nw[0][2:]:
                av = (Lin({tt[0]: 1, nw[0]: -1}, 1 if o == ">" else 0) - d)
                st.env[("AV", nw[0][2])] = frozenset([av.key()])
                return
        super().learn(st, o, x, y)

    def on_store(self, st, f, line, loc, val):
        super().on_store(st, f, line, loc, val)
        if loc[0] == "F" and loc[2] == "nextw" and len(val) == 1:
            (t,) = val
            b = ptrbase(t)
            if b is not None and b[0] == "nw":
                st.env[("SZ", b)] = frozenset([(lin(t) - Lin({b: 1})).key()])
                st.env[("KD", b)] = frozenset(["ML_AllocRaw"])

    def assign(self, f, ctx, st, ins):
        lv, line = ins[1], ins[3]
        if lv[0] == "idx":
            sa = self.P.sizealign(lv[3]) if lv[3] else None
            for p in self.eval(lv[1], f, ctx, st, line):
                if has_top(p):
                    for k in [k for k in st.env if k[0] == "F" and k[2] == "nextw"]:
                        for t in st.env[k]:
                            self.handed(st, t)
                b = ptrbase(p)
                if b is not None and b[0] == "nw" and sa:
                    for i in self.eval(lv[2], f, ctx, st, line):
                        off = lin(p) - Lin({b: 1}) + lin(i).scale(sa[0])
                        st.env[("ST", b)] = st.env.get(("ST", b), frozenset()) | {off.key()}
        r = super().assign(f, ctx, st, ins)
        return r

    def zero_at(self, st, b):
        return st.env.get(("P", b, ("i", 0)), frozenset())

    def datasize(self, st, d):
        """bytes of the data object starting at d, if it is arena data"""
        b = ptrbase(d)
        if b is None or b[0] != "nw" or has_top(d):
            return None
        s = st.env.get(("SZ", b))
        if not s or "?" in s:
            return None
        off = lin(d) - Lin({b: 1})
        return [Lin(dict(a), k) - off for a, k in s]

    def on_return(self, st, f, val, line):
        super().on_return(st, f, val, line)
        if f.name not in self.touch:
            return
        changed = False
        for k in [k for k in st.env if k[0] == "F" and k[2] == "nextw"]:
            v = st.env[k]
            if len(v) != 1:
                changed = True
                continue
            (t,) = v
            b = ptrbase(t)
            if b is None or b[0] != "nw" or has_top(t):
                continue
            d = lin(t) - Lin({b: 1})
            if not d.a and not d.k:
                continue
            changed = True
            self.sites.add((f.file, f.name))
            if any(c < 0 for c in d.a.values()) and not (d.a and all(c > 0 for c in d.a.values())):
                self.shrunk(st, f, line, d)
            else:
                self.carved(st, f, line, k, b, d, val)
        ap = st.env.get(AP)
        if ap and not any(f_.name != f.name and False for f_ in ()) and f.name in self.touch:
            self.rewritten(st, f, line, changed or ap != frozenset([("ap", "entry", 0)]))

    def carved(self, st, f, line, k, b, d, val):
        dv = self.zero_at(st, b)
        ds = self.desc(dv) if dv else None
        if not isinstance(ds, list) or not ds:
            self.report(f, line, "arena-descriptor", "the words taken from the arena do not start with a descriptor")
            return
        for l, tag in ds:
            n = lin(l)
            if (n.scale(8) + Lin(None, 8)).key() != d.key():
                self.report(f, line, "arena-length", "the descriptor says %s words but %s bytes are taken from the arena" % (
                    n.show(), d.show()))
            idx = arena_index(k[1])
            if tag not in KIND_ARENA or idx is not None and idx not in KIND_ARENA[tag]:
                self.report(f, line, "arena-kind", "an object of kind %s is put into arena %s" % (DTAG.get(tag, tag), idx))
            if tag in (0, 3):
                if st.env.get(("F", k[1], "sweep_nextw")) != st.env[k]:
                    self.report(f, line, "arena-sweep", "the arena's sweep pointer does not follow an object allocated outside a collection")
                self.initialised(st, f, line, b, n)
        for a in st.env.get(("AV", self.base(k[1])), frozenset(["?"])):
            if a == "?":
                self.report(f, line, "arena-space", "on some path nothing establishes that the arena has room")
                continue
            av = Lin(dict(a[0]), a[1])
            spare = [x for x in av.a if x[0] == "ldi" and x[1][0] == "F" and x[1][2] == "allocSzB"]
            rest = av - Lin({x: 1 for x in spare})
            if self.prove(st, rest - d) is not True:
                self.report(f, line, "arena-space", "%s bytes are taken from the arena but room for only %s is established" % (
                    d.show(), rest.show()))
            elif a[0] and not spare and (self.base(k[1]), "req") and not self.collected(b):
                self.report(f, line, "arena-space", "the space test leaves no room for what the next collection promotes")
        for t in val:
            if ptrbase(t) == b and (lin(t) - Lin({b: 1})).key() != Lin(None, 8).key():
                self.report(f, line, "arena-result", "the value returned is not the word after the descriptor")

    def collected(self, b):
        return any(g[0] == "gcn" and len(g) > 1 for g in b[3])

    def initialised(self, st, f, line, b, n):
        loops = False
        for o in st.env.get(("ST", b), ()):
            if o == "?":
                return
            off = Lin(dict(o[0]), o[1])
            ks = [a for a in off.a if a[0] in ("K", "M")]
            loops = loops or bool(ks) or bool(off.a)
            if not (len(ks) == 1 and len(off.a) == 1 and off.a[ks[0]] == 8 and off.k == 8):
                continue
            if self.prove(st, n - Lin({ks[0]: 1}, 1)) is True:
                self.report(f, line, "arena-init", "the loop initialising an object taken from the arena stops before its last field")
                return
        if not loops:
            self.report(f, line, "arena-init", "the fields of a pointer-holding object taken from the arena are not initialised")

    def handed(self, st, t):
        """the data is given to code outside: it may be filled there"""
        b = ptrbase(t) if t[0] != "stale" else None
        if b is not None and b[0] == "nw":
            st.env[("ST", b)] = st.env.get(("ST", b), frozenset()) | {"?"}

    def external(self, f, st, name, av, line, site):
        for v in av:
            for t in v:
                self.handed(st, t)
        return super().external(f, st, name, av, line, site)

    def shrunk(self, st, f, line, d):
        pass

    def rewritten(self, st, f, line, changed):
        """ml_val_t parameter whose object was cut short: its descriptor is written"""
        if not changed or f.ret.strip() != "void":
            return
        for i, p in enumerate(f.params):
            if f.vars[p].strip() == "ml_val_t":
                v = st.env.get(("P", ("arg", i, "ml"), ("i", -1)))
                if v is None or not isinstance(self.desc(v), list):
                    self.report(f, line, "arena-shrink", "on some path space is given back without rewriting the descriptor of the object")


GCN = ("G", "#gcn")


def arena_index(loc):
    """arena[i] this pointer was loaded from"""
    if loc[0] == "P" and loc[1][0] == "ld":
        l = loc[1][1]
        if l[0] == "E" and l[1][0] == "F" and l[1][2] == "arena" and l[2][0] == "i":
            return l[2][1]
    return None


def touches(f):
    for b in f.blocks:
        for i in b.ins:
            if i[0] == "asg" and i[1][0] == "fld" and i[1][2] == "nextw":
                return True
    return False


def check(c, P, reach):
    fs = [f for _, f in sorted(P.funcs.items()) if not f.file.startswith(r02.EXCLUDE_DIRS)]
    files = {f.file for f in fs if touches(f)}
    n = 0
    sites = set()

    def reaches(f, seen):
        """f takes words from an arena itself or through file-local helpers (other services are entries of their own)"""
        if id(f) in seen:
            return False
        seen.add(id(f))
        if touches(f):
            return True
        for b in f.blocks:
            for i in b.ins:
                if i[0] == "call" and i[2][0] == "fun":
                    g = P.resolve(f, i[2][1])
                    if g is not None and g.static and g.file in files and reaches(g, seen):
                        return True
        return False

    for f in fs:
        if f.file not in files or not reaches(f, set()):
            continue
        w = Arena(P, reach)
        w.run(f)
        w.finish()
        n += 1
        sites |= w.sites
        for (file, fn, kind), (ln, text, stk) in w.bad.items():
            if kind not in ("space", "unset", "untagged"):
                c.violation("%s|%s" % (fn, kind), "base/runtime/%s:%d" % (file, ln), "%s: %s (path %s)" % (fn, text, " > ".join(stk)))
    c.require(len(sites) >= 3, "arena allocators not recognised: %s" % sorted(sites))
    for s in sorted(sites):
        c.ob(True, "%s %s takes a checked object from an arena" % s)
    return n
