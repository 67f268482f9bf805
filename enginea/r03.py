"""R03: objects built by the runtime are well formed for the collector, within the space ensured.

At every advance of the allocation pointer the words between the old and the new pointer are parsed
as the collector would: descriptor, then as many words as its kind and length say; the objects must
tile the advance exactly.  Every field of a pointer-holding object must have been written, with a term
that is a program value: a heap reference, a tagged integer, a static object -- never an untagged C
integer or an undefined word.  The bytes allocated since space was last ensured are accumulated along
every path (loops widened to infinity) and must stay below what the request protocol guarantees."""
from .prims import *
from . import r02
from .sizes import Sizes

DTAG = {0: "record", 1: "vec_hdr", 2: "arr_hdr", 3: "arr_data", 4: "raw", 5: "raw64", 6: "special"}
HEAP_BUF = 8192              # HEAP_BUF_SZB, read from the header below
CALLC = 8192                 # NeedGC(msp, 8*ONE_K) before every C call, checked below
NURSERY = 64 * 1024          # below MIN_ALLOC_SZB
STRING_ASSUMED = 256         # bytes assumed for a system data-base string

# (function, reason): the allocation loop does its own space accounting
OWN_ACCOUNTING = {
    "ML_SysConstList": "explicit comparison with the limit pointer before each element",
    "BuildLiterals": "explicit comparison with the limit pointer before each literal",
    "BuildLiteralsV1": "explicit comparison with the limit pointer before each literal",
    "BuildFileList": "boot only, empty nursery",
    "ML_CStringList_": "",
}
SEPARATE = ("BuildLiterals", "BuildLiteralsV1")      # analysed once, not at every call
# results of these are addresses outside the heap, which the collector ignores
POINTER_RES = {"opendir", "dlopen", "dlsym", "fopen", "malloc"}
# (function, reason): the loop count is a small constant
BOUNDED_LOOP = {"GetSignalMask": "one element per system signal", "_ml_RunT_gc_counter_read": "one element per generation"}
# fields that may hold a raw C word although the object is a record: (function, reason)
RAW_OK = {}


class WF(Sizes, r02.Stale):
    def __init__(self, P, reach):
        super().__init__(P, reach)
        self.bad = {}
        self.nobj = 0
        self.objs = set()
        self.maxb = 0
        self.own = False

    # -- reporting position: innermost frame outside the headers
    def pos(self, f, line):
        fr, ln = f, line
        for g, nm, l in reversed(self.stack):
            if g.file.endswith(".h"):
                ln = l
                continue
            fr = g
            break
        return fr, ln

    def report(self, f, line, kind, text):
        fr, ln = self.pos(f, line)
        self.bad.setdefault((fr.file, fr.name, kind), (ln, text, [x[1] for x in self.stack]))

    def sz_report(self, st, f, line, kind, text):
        self.report(f, line, kind, text)

    def on_use(self, st, f, line, what, val):
        pass

    def spend(self, st, f, line, n):
        if any(g[1] in OWN_ACCOUNTING for g in self.stack):
            self.own = True
            st.budget = 0
            return
        st.budget += n
        if st.budget == float("inf") and any(g[1] in BOUNDED_LOOP for g in self.stack):
            st.budget = 0
        if st.budget > self.limit:
            self.report(f, line, "space", "allocates %s bytes although only %d are ensured" % (
                "unboundedly many" if st.budget == float("inf") else st.budget, self.limit))
            st.budget = 0
        self.maxb = max(self.maxb, st.budget)

    def on_gc(self, st, f, line, what):
        super().on_gc(st, f, line, what)
        st.budget = 0 if any(g[1] in OWN_ACCOUNTING for g in self.stack) else -NURSERY

    def inline(self, f, name):
        g = super().inline(f, name)
        return None if g is not None and name in SEPARATE else g

    def alloc_raw(self, st, f, name, nset, line):
        r = RT.alloc_raw(self, st, f, name, nset, line)
        return r

    def on_alloc_raw(self, st, f, line, nset):
        # RT added the size already; re-test the limit
        self.spend(st, f, line, 0)
        st.env[LAST] = frozenset([("raw", self.rawid(line))])

    def on_need(self, st, f, line, n):
        pass

    def intrinsic(self, st, f, name, av, line, site):
        if name in SEPARATE and self.P.resolve(f, name) is not None:
            self.gc(st, set(), f, line, name)
            st.env[AP] = frozenset([("ap", (name, self.ctxname(), line), 0)])
            st.budget = 0
            return [(st, frozenset([("raw", self.rawid(line))]))]
        if name == "restoreregs":
            r = super().intrinsic(st, f, name, av, line, site)
            for s1, _ in r or [(st, 0)]:
                s1.budget = 0          # ML code stops at a heap-limit check: HEAP_BUF_SZB is left
            return r
        if name == "NeedGC":
            s1 = st.copy()
            s0 = st
            n = min((t[1] for t in av[1] if t[0] == "i"), default=0) if all(t[0] == "i" for t in av[1]) else 0
            fl = frozenset(x for x in st.flags if not (isinstance(x, tuple) and x[0] == "ng"))
            s0.flags = fl | {("ng", 0)}
            s0.budget = -n
            s1.flags = fl | {("ng", 1)}
            return [(s0, I(0)), (s1, I(1))]
        if name == "ML_CString":
            small = all(self.smallstr(t[1] if t[0] == "stale" else t) for t in av[1])
            if small:
                lens = []
                for t in av[1]:
                    lens.append(len(t[1]) if t[0] == "s" else self.cbuf(t))
                b = st.budget
                r = RT.intrinsic(self, st, f, name, av, line, site)
                st.budget = b
                st.env[AP] = frozenset([("ap", ("cs", self.ctxname(), line), 0)])
                self.spend(st, f, line, 8 * ((max(lens) + 8) // 8 + 1 + 3))
                return r
        r = super().intrinsic(st, f, name, av, line, site)
        if name == "ML_ShrinkRaw":
            last = st.env.get(LAST)
            for t in av[1]:
                if t[0] == "raw" and (last is None or last != frozenset([t])):
                    self.report(f, line, "shrink", "shrinks an object that is not the last one allocated")
        if name in ("ML_CString", "ML_AllocRaw", "ML_AllocRaw64"):
            for s, _ in r or []:
                s.env[AP] = frozenset([("ap", (name, self.ctxname(), line), 0)])
                if name == "ML_CString":
                    s.env.pop(LAST, None)
        return r

    def cbuf(self, t):
        if t[0] == "&" and t[1][0] == "E":
            n = self.loc_size(t[1][1])
            return min(n or STRING_ASSUMED, 4096)
        if t[0] == "mal":
            return t[2]
        return STRING_ASSUMED

    # -- objects
    def value_ok(self, t):
        """Is the term a program value?"""
        k = t[0]
        if k == "i":
            return t[1] % 2 == 1 or t[1] == 0 and False
        if k in ("ap", "raw", "str", "raise", "stale", "fn", "mal", "void"):
            return True
        if k == "arg":
            return t[2] in ("ml", "c")
        if k in ("ld", "&"):
            return True
        if k == "op":
            if t[1] == "+" and len(t) == 4:
                if t[3][0] == "i" and t[3][1] % 2 == 1:
                    b = t[2]
                    while b[0] == "op" and b[1] == "+" and b[3][0] == "i" and b[3][1] % 2 == 0:
                        b = b[2]
                    if self.even(b):
                        return True
                return self.heapish(t[2]) or self.value_ok(t[2]) and t[2][0] in ("ld", "&")
            if t[1] == "|" and t[3] == ("i", 1):
                return True
            return False
        if k == "res":
            return t[2] in POINTER_RES
        if k in ("ldi", "res", "out", "w", "part", "uninit", "f", "errno"):
            return False
        return True      # TOP and the like: nothing known against it

    def even(self, b):
        if b[0] == "op" and b[1] == "*" and b[3][0] == "i" and b[3][1] % 2 == 0:
            return True
        if b[0] == "op" and b[1] == "+" and len(b) == 4:
            return (self.even(b[2]) or b[2][0] == "i" and b[2][1] % 2 == 0) and \
                (self.even(b[3]) or b[3][0] == "i" and b[3][1] % 2 == 0)
        return b[0] == "i" and b[1] % 2 == 0

    def desc(self, v):
        """(length term, tag) alternatives of a descriptor value, or None if not one."""
        out = []
        for t in v:
            if t[0] == "i":
                if t[1] & 3 != 2:
                    return None
                out.append((("i", t[1] >> 7), (t[1] >> 2) & 31))
            elif t[0] == "op" and t[1] in ("|", "+") and t[3][0] == "i" and t[2][0] == "op" and t[2][1] == "*" \
                    and t[2][3] == ("i", 128) and t[3][1] & 3 == 2 and t[3][1] < 128:
                out.append((t[2][2], t[3][1] >> 2))
            else:
                return "?"
        return out

    def assign(self, f, ctx, st, ins):
        r = super().assign(f, ctx, st, ins)
        lv = ins[1]
        if lv[0] == "var" and ins[2][0] == "tmp" and not lv[1].startswith("g:") and f.vars.get(lv[1], "").strip() in ("int", "Word_t"):
            k = ("L", ctx, lv[1])
            v = st.env.get(k, ())
            if len(v) > 1 and any(strip(t)[0] == "op" for t in v):
                st.env[k] = frozenset([("res", ("several", ctx, lv[1]), "several")])    # one unknown number
        return r

    def on_bump(self, st, f, line, old, new):
        st.env.pop(LAST, None)
        if old is None or len(old) != 1 or len(new) != 1:
            return
        (o,), (n,) = old, new
        if o[0] != "ap" or n[0] != "ap" or o[1] != n[1] or not isinstance(o[2], int):
            self.spend(st, f, line, 8 * 16)
            return
        if n[2] == "?":
            return
        ep = o[1]
        if isinstance(n[2], tuple):        # symbolic length
            _, off, ln = n[2]
            v = st.env.get(("H", ep, o[2]), frozenset())
            if not v and any(k[0] == "H" and k[1] == ep and not isinstance(k[2], int) for k in st.env):
                return                       # written by a copying loop
            d = self.desc(v)
            self.nobj += 1
            if d == "?":
                return
            if not isinstance(d, list) or not d:
                self.report(f, line, "descriptor", "the words reserved here start with something that is not a descriptor")
                return
            for (l, tag) in d:
                if linear(l, 1) != linear(ln, off - o[2]):
                    self.report(f, line, "length", "the descriptor says %s words but %s are reserved" % (
                        r02.show(l), r02.show(ln)))
                if tag not in (0, 3, 4, 5):
                    self.report(f, line, "tag", "descriptor kind %s for an object of variable length" % tag)
            return
        if n[2] < o[2]:
            return
        words = n[2] - o[2]
        self.spend(st, f, line, 8 * words)
        i = o[2]
        while i < n[2]:
            v = st.env.get(("H", ep, i))
            if v is None:
                self.report(f, line, "descriptor", "word %d of the object allocated here (the descriptor) is never written" % (i - o[2]))
                return
            d = self.desc(v)
            if d is None or d == []:
                self.report(f, line, "descriptor", "the object allocated here has no descriptor")
                return
            if d == "?" and (i > o[2] or any(t[0] in ("ap", "raw", "&") for t in v)) and not any(
                    t[0] == "ld" and t[1][0] in ("P", "H") and t[1][2] == ("i", -1) or t[0] == "top" for t in v):
                self.report(f, line, "length", "the %d words reserved hold more than the descriptors written account for" % words)
                return
            if d == "?":
                return        # copied descriptor (record update): its source was well formed
            sizes = set()
            if any(l[0] != "i" for l, tag in d if tag not in (1, 2, 6)):
                return
            for (l, tag) in d:
                if tag not in DTAG:
                    self.report(f, line, "tag", "descriptor kind %d does not exist" % tag)
                    return
                if tag in (1, 2):
                    sizes.add(2)
                elif tag == 6:
                    sizes.add(1)
                elif l[0] == "i":
                    sizes.add(l[1])
            if len(sizes) != 1:
                return
            sz = sizes.pop()
            self.nobj += 1
            self.objs.add((f.file, line))
            if i + 1 + sz > n[2]:
                self.report(f, line, "length", "the descriptor says %d words but %d are reserved" % (sz, n[2] - i - 1))
                return
            tag = d[0][1]
            if sz == 0 and any(g[1] == "SaveCState" for g in self.stack):
                return                 # variadic: every caller passes at least one address
            if sz == 0:
                self.report(f, line, "length", "the descriptor says the object has no fields")
                return
            if tag in (1, 2):
                self.header(st, f, line, d[0][0][1], st.env.get(("H", ep, i + 1), ()), st.env.get(("H", ep, i + 2), ()), tag == 1)
            if tag in (0, 1, 2, 3, 6):
                for j in range(1, sz + 1):
                    w = st.env.get(("H", ep, i + j))
                    if w is None or UNINIT in w:
                        self.report(f, line, "unset", "field %d of the object allocated here is not initialised on some path" % (j - 1))
                        continue
                    for t in w:
                        if not self.value_ok(t):
                            self.report(f, line, "untagged",
                                        "field %d of the object allocated here holds a raw C word (%s), not a program value" % (
                                            j - 1, str(t)[:80]))
            i += 1 + sz
        if i != n[2]:
            self.report(f, line, "length", "the objects written do not fill the %d words reserved" % words)


LAST = ("G", "#last-raw")


def strip(t):
    while t[0] == "w":
        t = t[2]
    if t[0] == "op":
        return t[:2] + tuple(strip(x) if isinstance(x, tuple) else x for x in t[2:])
    return t


def linear(t, k=0):
    """t + k as a sum: (sorted non-constant summands, constant)."""
    out = []
    def go(x):
        nonlocal k
        x = strip(x)
        if x[0] == "i":
            k += x[1]
        elif x[0] == "op" and x[1] == "+" and len(x) == 4:
            go(x[2])
            go(x[3])
        else:
            out.append(x)
    go(t)
    return sorted(map(repr, out)), k


def check(c):
    from . import program
    c.rule = ("at every advance of the allocation pointer the written words parse as complete objects (descriptor "
              "length and kind = words reserved, every field a program value), and the bytes allocated since space was "
              "ensured stay within the guarantee on every path")
    P = program.Program()
    reach = r02.gc_reach(P)
    prim = {id(f) for (_, _, _, f) in primitives(P) if f is not None}
    covered = set()
    first, second, third = r02.entry_order(P)
    n = nobj = 0
    for f in first + second + third:
        if (f.file, f.name) in covered and f in third and f.name not in SEPARATE:
            continue
        w = WF(P, reach)
        w.limit = HEAP_BUF + (CALLC if id(f) in prim else 0)
        rets = w.run(f)
        w.finish()
        covered |= w.functions_seen
        n += 1
        nobj += len(w.objs)
        if id(f) in prim and f.ret == "ml_val_t":
            for st, v in rets:
                for t in v:
                    if not w.value_ok(t) or t == UNINIT:
                        w.bad.setdefault((f.file, f.name, "result"), (
                            f.line, "returns a raw C word (%s), not a program value" % str(t)[:80], [f.name]))
        c.ob(not w.bad, "%s: %d objects, at most %s bytes between checks" % (f.name, len(w.objs), w.maxb))
        for (file, fn, kind), (ln, text, stk) in w.bad.items():
            c.violation("%s|%s" % (fn, kind), "base/runtime/%s:%d" % (file, ln), "%s: %s (path %s)" % (
                fn, text, " > ".join(stk)))
    from . import arena
    c.cov["arena_allocators"] = arena.check(c, P, reach)
    c.cov.update(entry_points=n, functions=len(covered), object_sites=nobj)
    c.require(n >= 180 and nobj >= 50, "too little analysed: %d entry points, %d object sites" % (n, nobj))
    c.assumptions += ["a string from a system data base is at most %d bytes" % STRING_ASSUMED,
                      "functions with their own space accounting: " + ", ".join(sorted(k for k in OWN_ACCOUNTING if not k.endswith("_")))]
