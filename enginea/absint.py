"""Interprocedural value-provenance dataflow over the C IR (forward abstract interpretation).

The abstract value of a location is the finite set of *provenance terms* it can hold: where
the value came from (an argument of the primitive, a field loaded from it, the result or an
out-parameter of an OS call, an ML object allocated here, a constant, an operator applied to
such terms).  Sets are capped and terms are depth-capped (then TOP), joins happen at every CFG
merge and loop heads are widened, so every analysis terminates; nothing is executed and no
path condition is collected or solved.  Branches are pruned only when the condition folds to
a constant for every alternative.

Terms
  ('i', n)                 integer constant            ('s', text)   C string literal
  ('arg', k, kind)         parameter k of the entry point
  ('ld', loc)              pointer-typed load          ('ldi', loc)  scalar load
  ('op', o, a[, b])        operator                    ('w', bits, signed, t)  narrowing
  ('&', loc)               address                     ('fn', name)
  ('ap', epoch, off)       pointer into the allocation region (word offset from epoch start)
  ('raw', id)              object from a runtime allocator (string data, code, big object)
  ('res', site, f)         result of an external call  ('out', site, f, k, path)
  ('uninit',) ('zero',) ('top',)
  ('stale', t, line)       heap reference that a collection has invalidated
"""
from . import cir

TOP = ("top",)
UNINIT = ("uninit",)
TOPS = frozenset([TOP])
CAP = 8
DEPTH = 14

GC_ALL = {"InvokeGC"}
GC_ROOTS = {"InvokeGCWithRoots"}


def I(n):
    return frozenset([("i", n)])


def depth(t):
    if not isinstance(t, tuple):
        return 0
    return 1 + max([depth(x) for x in t] or [0])


_dcache = {}


def tdepth(t):
    d = _dcache.get(t)
    if d is None:
        d = depth(t)
        if len(_dcache) > 500000:
            _dcache.clear()
        _dcache[t] = d
    return d


def mk(s):
    """Cap a set of terms."""
    if TOP in s:
        st = frozenset(x for x in s if x[0] == "stale")
        return st | TOPS if st else TOPS
    if len(s) > CAP:
        st = frozenset(x for x in s if x[0] == "stale")
        if st:
            return frozenset(list(st)[:1]) | TOPS
        return TOPS
    return frozenset(s)


def one(t):
    if tdepth(t) > DEPTH:
        return TOPS
    return frozenset([t])


class State:
    __slots__ = ("env", "flags", "budget")

    def __init__(self, env=None, flags=frozenset(), budget=0):
        self.env = env if env is not None else {}
        self.flags = flags
        self.budget = budget

    def copy(self):
        return State(dict(self.env), self.flags, self.budget)


class Unsupported(Exception):
    pass


class Interp:
    """One analysis run from one entry point.  Subclass hooks observe events."""

    MAXDEPTH = 12

    def __init__(self, P):
        self.P = P
        self.stack = []
        self.types = P.typedefs
        self.nsteps = 0
        self.external_seen = {}
        self.functions_seen = set()

    # ---------------------------------------------------------------- hooks
    def on_external(self, st, f, name, args, line, site):
        """Return a value set to override the result, or None."""
        return None

    def on_use(self, st, f, line, what, val):
        """A stale heap reference is dereferenced, stored or handed out."""

    def on_bump(self, st, f, line, old, new):
        pass

    def on_return(self, st, f, val, line):
        pass

    def on_store(self, st, f, line, loc, val):
        pass

    def on_gc(self, st, f, line, what):
        pass

    def inline(self, f, name):
        return self.P.resolve(f, name)

    def intrinsic(self, st, f, name, args, line, site):
        """Return list of (state, value) or None to use the default treatment."""
        return None

    def split_flags(self, st):
        """Key under which states are kept apart at merges."""
        return st.flags

    # ---------------------------------------------------------------- types
    def rtype(self, t):
        t = t.replace("const ", "").replace("volatile ", "").replace(" const", "").strip()
        n = 0
        while t in self.types and n < 10:
            nt = self.types[t].replace("const ", "").replace("volatile ", "").strip()
            if nt == t:
                break
            t = nt
            n += 1
        return t

    def isptr(self, t):
        t = self.rtype(t)
        return t.endswith("*") or "(*" in t or t.endswith("]")

    def isarr(self, t):
        return self.rtype(t).endswith("]")

    def width(self, t):
        t = self.rtype(t)
        s = cir.BASIC.get(t)
        if t.startswith("enum"):
            s = 4
        return s, not ("unsigned" in t or t == "_Bool")

    # ---------------------------------------------------------------- memory
    def lv_type(self, e, f):
        k = e[0]
        if k == "var":
            if e[1].startswith("g:"):
                return self.P.globals.get(e[1], "")
            return f.vars.get(e[1], "")
        if k in ("fld",):
            return e[3]
        if k == "idx":
            if e[3]:
                return e[3]
            t = self.rtype(self.lv_type(e[1], f) if e[1][0] in ("var", "fld", "idx") else "")
            if t.endswith("]"):
                return t[:t.index("[")].strip() + t[t.index("]") + 1:]
            if t.endswith("*"):
                return t[:-1].strip()
        return ""

    def locs(self, e, f, ctx, st, line):
        """Set of locations an lvalue denotes."""
        k = e[0]
        if k == "var":
            if e[1].startswith("g:"):
                return [("G", e[1][2:])]
            return [("L", ctx, e[1])]
        if k == "fld":
            return [("F", l, e[2]) for l in self.locs(e[1], f, ctx, st, line)]
        if k == "idx":
            base = e[1]
            iv = self.eval(e[2], f, ctx, st, line)
            idxs = [t for t in iv]
            if base[0] in ("var", "fld", "idx") and self.isarr(self.lv_type(base, f)):
                out = []
                for b in self.locs(base, f, ctx, st, line):
                    for i in idxs:
                        out.append(self.elem(b, i))
                return out[:CAP]
            pv = self.eval(base, f, ctx, st, line)
            out = []
            for p in pv:
                for i in idxs:
                    out.append(self.at(p, i, st, f, line))
            return out[:CAP]
        if k == "cast":
            return self.locs(e[2], f, ctx, st, line)
        v = self.eval(e, f, ctx, st, line)
        return [("P", t[2], t[3]) if t[0] == "op" and t[1] == "+" and t[3] == ("*",) else ("P", t, ("i", 0)) for t in v]

    def elem(self, b, i):
        return ("E", b, i if i[0] == "i" else ("*",))

    def at(self, p, i, st, f, line):
        """Location p[i] for a pointer term p."""
        if p[0] == "stale":
            self.on_use(st, f, line, "dereference", p)
            p = p[1]
        if i[0] == "stale":
            i = i[1]
        if p[0] == "&":
            l = p[1]
            if i == ("i", 0):
                return l
            if l[0] == "E" and l[2][0] == "i" and i[0] == "i":
                return ("E", l[1], ("i", l[2][1] + i[1]))
            if l[0] == "E":
                return ("E", l[1], ("*",))
            if l[0] == "P" and l[2][0] == "i" and i[0] == "i":
                return ("P", l[1], ("i", l[2][1] + i[1]))
            return ("E", l, i if i[0] == "i" else ("*",))
        if p[0] == "ap" and i[0] == "i" and isinstance(p[2], int):
            return ("H", p[1], p[2] + i[1])
        if p[0] == "ap":
            if isinstance(p[2], tuple) and i[0] == "i":
                return ("H", p[1], ("sym", p[2][1] + i[1], p[2][2]))
            return ("H", p[1], "*")
        if p[0] == "op" and p[1] == "+" and p[3][0] == "i" and i[0] == "i":
            return ("P", p[2], ("i", p[3][1] + i[1]))
        if p[0] == "op" and p[1] == "+" and p[3] == ("*",):
            return ("P", p[2], ("*",))
        return ("P", p, i if i[0] == "i" else ("*",))

    def heapish_loc(self, l):
        k = l[0]
        if k in ("F", "E"):
            return self.heapish_loc(l[1])
        if k == "H":
            return True
        if k == "P":
            return self.heapish(l[1])
        return False

    def heapish(self, t):
        """May the term be a reference into the ML heap?"""
        k = t[0]
        if k == "arg":
            return t[2] == "ml"
        if k in ("ap", "raw"):
            return True
        if k == "stale":
            return True
        if k == "ld":
            l = t[1]
            if self.heapish_loc(l):
                return True
            return self.mlroot(l)
        if k == "&":
            return self.heapish_loc(t[1])
        if k == "op" and t[1] in ("+", "-") and len(t) == 4:
            return self.heapish(t[2])
        return False

    def mlroot(self, l):
        """Is l a C location that holds an ML value (field of the ML state, global ref)?"""
        while l[0] in ("E",):
            l = l[1]
        if l[0] == "F":
            return l[2] in ML_STATE_FIELDS or l[2] in ("nextw", "tospBase")
        if l[0] == "G":
            return self.rtype_raw(self.P.globals.get("g:" + l[1], "")) == "ml_val_t"
        return False

    def rtype_raw(self, t):
        return t.replace("const ", "").strip()

    def load(self, st, loc, ptr, ty, f, line):
        env = st.env
        if loc in env:
            return env[loc]
        # covered by a whole-object value?
        l = loc
        path = []
        while l[0] in ("F", "E"):
            path.append(l[2])
            l = l[1]
            if l in env:
                out = set()
                for t in env[l]:
                    if t == UNINIT or t == ("zero",):
                        out.add(UNINIT if t == UNINIT else ("i", 0))
                    elif t[0] == "out":
                        out.add(("out", t[1], t[2], t[3], t[4] + tuple(reversed(path))))
                    elif t[0] == "i":
                        out.add(t)
                    else:
                        out.add(("part", t, tuple(reversed(path))))
                return mk(out)
            w = (l[0],)
        # weak element
        if loc[0] == "E" and loc[2][0] == "i":
            w = ("E", loc[1], ("*",))
            if w in env:
                return env[w]
        if loc[0] == "P" and loc[2][0] == "i":
            w = ("P", loc[1], ("*",))
            if w in env:
                return env[w]
        if loc[0] == "H" and (loc[0], loc[1], "*") in env:
            return env[(loc[0], loc[1], "*")]
        root = loc
        while root[0] in ("F", "E"):
            root = root[1]
        if root[0] == "L":
            return frozenset([UNINIT])
        if root[0] == "G" and root == loc:
            pass
        return one(("ld" if ptr else "ldi", loc))

    def store(self, st, locs, val, f, line):
        env = st.env
        for loc in [l for l in locs if nowhere(l)]:
            self.on_store(st, f, line, loc, val)
            env.pop(loc, None)
        if any(nowhere(l) for l in locs):
            locs = [l for l in locs if not nowhere(l)]
            for loc in locs:
                self.on_store(st, f, line, loc, val)
                old = env.get(loc)
                if old is None:
                    old = self.load(st, loc, True, "", f, line)
                env[loc] = mk(val | old)
            return
        if len(locs) == 1:
            loc = locs[0]
            self.on_store(st, f, line, loc, val)
            weak = (loc[0] in ("E", "P") and loc[2] == ("*",)) or (loc[0] == "H" and loc[2] == "*")
            if loc[0] == "F":
                b = loc[1]
                while b[0] in ("F", "E", "P"):
                    if b[0] in ("E", "P") and b[2] == ("*",):
                        weak = True
                    b = b[1]
            if weak:
                old = env.get(loc)
                env[loc] = mk(val | old) if old is not None else mk(val | frozenset([TOP]) if False else val)
            else:
                # a whole-object store hides recorded parts
                if loc[0] in ("L", "G") and any(k[0] in ("F", "E") and self.under(k, loc) for k in env):
                    for k in [k for k in env if k[0] in ("F", "E") and self.under(k, loc)]:
                        del env[k]
                env[loc] = val
        else:
            for loc in locs:
                self.on_store(st, f, line, loc, val)
                old = env.get(loc)
                if old is None:
                    old = self.load(st, loc, True, "", f, line)
                env[loc] = mk(val | old)

    def under(self, k, root):
        while k[0] in ("F", "E"):
            k = k[1]
            if k == root:
                return True
        return False

    # ---------------------------------------------------------------- expressions
    def eval(self, e, f, ctx, st, line):
        k = e[0]
        if k == "int":
            return I(e[1])
        if k == "str":
            return frozenset([("s", e[1])])
        if k == "flt":
            return frozenset([("f", e[1])])
        if k == "fun":
            return frozenset([("fn", e[1])])
        if k == "tmp":
            return st.env.get(("L", ctx, ("tmp", e[1])), TOPS)
        if k in ("var", "fld", "idx"):
            t = self.lv_type(e, f)
            if self.isarr(t):
                return frozenset(("&", ("E", l, ("i", 0))) for l in self.locs(e, f, ctx, st, line))
            p = self.isptr(t) or t == ""
            s = set()
            for l in self.locs(e, f, ctx, st, line):
                s |= self.load(st, l, p, t, f, line)
            if not p:
                s = {x[1] if x[0] == "stale" else x for x in s}
            return mk(s)
        if k == "addr":
            return frozenset(("&", l) for l in self.locs(e[1], f, ctx, st, line))
        if k == "sizeof":
            x = self.P.sizealign(e[1])
            if x is not None:
                return I(x[0])
            return one(("sizeof", self.rtype(e[1])))
        if k == "cast":
            v = self.eval(e[2], f, ctx, st, line)
            return self.cast(v, e[1])
        if k == "un":
            v = self.eval(e[2], f, ctx, st, line)
            return mk({self.op1(e[1], t) for t in v})
        if k == "bin":
            a = self.eval(e[2], f, ctx, st, line)
            b = self.eval(e[3], f, ctx, st, line)
            # pointer comparison/arithmetic scale is irrelevant to provenance
            return mk({self.op2(e[1], x, y) for x in a for y in b})
        if k == "unk":
            if e[1] == "uninit":
                return frozenset([UNINIT])
            if e[1] == "zero":
                return frozenset([("zero",)])
            return TOPS
        return TOPS

    def cast(self, v, ty):
        w, signed = self.width(ty)
        if w is None or w >= 8:
            return v
        out = set()
        for t in v:
            if t[0] == "i":
                n = t[1] & ((1 << (8 * w)) - 1)
                if signed and n >= 1 << (8 * w - 1):
                    n -= 1 << (8 * w)
                out.add(("i", n))
            elif t[0] in ("w",):
                out.add(t if t[1] <= 8 * w else ("w", 8 * w, t[3]) if False else ("w", min(t[1], 8 * w), t[2]))
            elif t[0] in ("top", "uninit", "zero"):
                out.add(t)
            elif t[0] == "stale":
                out.add(("w", 8 * w, t[1]))
            elif t[0] == "op" and t[1] in CMP:
                out.add(t)
            else:
                out.add(("w", 8 * w, t))
        return mk(out)

    def strip(self, t):
        return t

    def op1(self, o, a):
        if a[0] == "stale":
            a = a[1]
        if a == TOP or a == UNINIT:
            return TOP
        if a == ("zero",):
            a = ("i", 0)
        if a[0] == "i":
            r = cir.fold(("un", o, ("int", a[1])))
            if r[0] == "int":
                return ("i", r[1])
        if o == "!" and a[0] == "op" and a[1] in CMP:
            return ("op", CMP[a[1]], a[2], a[3])
        if o == "!" and nonzero(a):
            return ("i", 0)
        t = ("op", o, a)
        return t if tdepth(t) <= DEPTH else TOP

    def op2(self, o, a, b):
        sa = a
        if a[0] == "stale" and o not in ("+", "-"):
            a = a[1]
        if b[0] == "stale":
            b = b[1]
        if a == ("zero",):
            a = ("i", 0)
        if b == ("zero",):
            b = ("i", 0)
        if a[0] == "stale":
            r = self.op2(o, a[1], b)
            return ("stale", r, a[2]) if self.heapish(a[1]) and r != TOP else r
        if a in (TOP, UNINIT) or b in (TOP, UNINIT):
            return TOP
        if a[0] == "i" and b[0] == "i":
            r = cir.fold(("bin", o, ("int", a[1]), ("int", b[1])))
            if r[0] == "int":
                return ("i", r[1])
            return TOP
        if o in ("+", "-") and a[0] == "ap" and b[0] == "i" and isinstance(a[2], int):
            return ("ap", a[1], a[2] + (b[1] if o == "+" else -b[1]))
        if o == "-" and a[0] == "ap" and b[0] == "ap" and a[1] == b[1] and isinstance(a[2], int) \
                and isinstance(b[2], int):
            return ("i", a[2] - b[2])
        if a[0] == "ap" and o in ("+", "-"):
            if o == "+" and isinstance(a[2], int):
                return ("ap", a[1], ("sym", a[2], b))
            if o == "+" and isinstance(a[2], tuple) and b[0] == "i":
                return ("ap", a[1], ("sym", a[2][1] + b[1], a[2][2]))
            return ("ap", a[1], "?")
        if o in ("==", "!=") and a == b and a[0] != "top" and pure(a):
            return ("i", 1 if o == "==" else 0)
        if o in ("==", "!=") and (nonzero(a) and b == ("i", 0) or nonzero(b) and a == ("i", 0)):
            return ("i", 0 if o == "==" else 1)
        # canonical orientation
        if o in ("+", "*", "&", "|", "^", "==", "!=") and a[0] == "i":
            a, b = b, a
        elif o in ("&", "|", "^", "==", "!=", "*") and b[0] != "i" and repr(b) < repr(a):
            a, b = b, a
        if o in ("<", "<=", ">", ">=") and a[0] == "i" and b[0] != "i":
            a, b = b, a
            o = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[o]
        if o == "+" and a == b:
            o, b = "*", ("i", 2)
        if o == "|" and b == ("i", 1) and a[0] == "op" and a[1] == "*" and len(a) == 4 and a[3][0] == "i" and a[3][1] % 2 == 0:
            o = "+"
        if b[0] == "i":
            if o == "-":
                o, b = "+", ("i", -b[1])
            if o == "+" and a[0] == "op" and a[1] == "+" and a[3][0] == "i":
                a, b = a[2], ("i", a[3][1] + b[1])
            if o == "+" and b[1] == 0:
                return a
            if o in ("|", "^") and b[1] == 0:
                return a
            if o == "*" and b[1] == 1:
                return a
            if o == "<<" :
                o, b = "*", ("i", 1 << b[1]) if 0 <= b[1] < 64 else b
            if o == "<=":
                o, b = "<", ("i", b[1] + 1)
            if o == ">=":
                o, b = ">", ("i", b[1] - 1)
            # untag(tag(x)) = x ; tag(x) = 2x+1
            if o == ">>" and b[1] == 1 and a[0] == "op" and a[1] == "+" and a[3] == ("i", 1) and \
                    a[2][0] == "op" and a[2][1] == "*" and a[2][3] == ("i", 2):
                return a[2][2]
            if o in ("==", "!=") and a[0] == "op" and a[1] == "+" and a[3] == ("i", 1) and \
                    a[2][0] == "op" and a[2][1] == "*" and a[2][3] == ("i", 2) and b[1] % 2:
                return self.op2(o, a[2][2], ("i", (b[1] - 1) // 2))
        if a[0] == "&" and o == "+" and b[0] == "i" and a[1][0] == "E" and a[1][2][0] == "i":
            return ("&", ("E", a[1][1], ("i", a[1][2][1] + b[1])))
        if o in ("+", "-") and (a[0] == "op" and a[1] == "+" and a[3] == ("*",) or
                                a[0] == "&" and a[1][0] in ("E", "P") and a[1][2] == ("*",) and b[0] == "i"):
            return a
        t = ("op", o, a, b)
        return t if tdepth(t) <= DEPTH else TOP

    # ---------------------------------------------------------------- control
    def branch(self, v):
        """(may be true, may be false)"""
        t = f = False
        for x in v:
            if x[0] == "i":
                if x[1]:
                    t = True
                else:
                    f = True
            elif nonzero(x):
                t = True
            else:
                r = self.truth(x)
                if r is True:
                    t = True
                elif r is False:
                    f = True
                else:
                    t = f = True
        return t, f

    def truth(self, x):
        return None

    def refine(self, st, cond, f, ctx, val, line):
        """Narrow variables compared with constants on the taken edge."""
        e = cond
        while e[0] == "cast":
            e = e[2]
        if e[0] == "un" and e[1] == "!":
            return self.refine(st, e[2], f, ctx, not val, line)
        if e[0] == "bin" and e[1] in CMP:
            for a, b, o in ((e[2], e[3], e[1]), (e[3], e[2], SWAP[e[1]])):
                while a[0] == "cast":
                    a = a[2]
                while a[0] == "bin" and False:
                    pass
                if a[0] in ("var", "tmp"):
                    loc = ("L", ctx, a[1] if a[0] == "var" else ("tmp", a[1]))
                    if a[0] == "var" and a[1].startswith("g:"):
                        continue
                    cur = st.env.get(loc)
                    if cur is None or len(cur) < 1:
                        continue
                    bv = self.eval(b, f, ctx, st, line)
                    keep = set()
                    for t in cur:
                        r = {self.op2(o, t, y) for y in bv}
                        bad = all(not self.branch(frozenset([x]))[0 if val else 1] for x in r)
                        if not bad:
                            keep.add(t)
                    if keep and len(keep) < len(cur):
                        st.env[loc] = frozenset(keep)
        elif e[0] in ("var", "tmp"):
            loc = ("L", ctx, e[1] if e[0] == "var" else ("tmp", e[1]))
            cur = st.env.get(loc)
            if cur:
                keep = set()
                for t in cur:
                    tt, ff = self.branch(frozenset([t]))
                    if (tt if val else ff):
                        keep.add(t)
                if keep and len(keep) < len(cur):
                    st.env[loc] = frozenset(keep)

    def enterhead(self, st, ctx, nb, key):
        """first arrival at a loop head"""

    def joinhead(self, a, b, widen, ctx, nb, key, back):
        return self.joinstate(a, b, widen)

    def joinstate(self, a, b, widen):
        """b joined into a; returns (state, changed)."""
        env = a.env
        new = None
        keys = set(env) | set(b.env) if len(env) != len(b.env) or env.keys() != b.env.keys() else env.keys()
        for k in keys:
            x = env.get(k)
            y = b.env.get(k)
            if x is y or x == y:
                continue
            if x is None:
                x = self.default(k)
                if x is None:
                    continue       # temporaries and locals out of scope
            if y is None:
                y = self.default(k)
                if y is None:
                    if k in env:
                        if new is None:
                            new = dict(env)
                        new.pop(k, None)
                    continue
            z = self.joinval(k, x, y, widen)
            if z != env.get(k):
                if new is None:
                    new = dict(env)
                new[k] = z
        bud = a.budget if a.budget >= b.budget else b.budget
        if widen and b.budget > a.budget:
            bud = float("inf")
        if new is None and bud == a.budget:
            return a, False
        return State(new if new is not None else env, a.flags, bud), True

    def default(self, k):
        if k[0] == "L":
            return None
        root = k
        while root[0] in ("F", "E"):
            root = root[1]
        if root[0] == "L":
            return frozenset([UNINIT])
        if root[0] == "H":
            return None
        return one(("ld", k))

    def joinval(self, k, x, y, widen):
        aps = [t for t in x | y if t[0] == "ap"]
        if k == AP and x != y:
            return frozenset([("ap", ("m", self.mergept), 0)])
        if widen:
            if y <= x:
                return x
            ints = x | y
            # keep structural sets, widen numbers and growing terms
            d = [t for t in y if t not in x]
            w = self.walked(k, x | y) if any(t[0] in ("op", "&") for t in d) else None
            if w is not None:
                return w
            if any(t[0] in ("i", "op", "w", "f") for t in d) or len(x | y) > CAP - 2:
                st = frozenset(t for t in x | y if t[0] == "stale")
                keep = frozenset(t for t in x | y if t[0] not in ("i", "op", "w", "f"))
                return mk(keep | TOPS) if st else TOPS
        return mk(x | y)

    def walked(self, k, v):
        """a pointer variable that steps through the array it started in: any element of that array"""
        f = self.stack[-1][0] if self.stack else None
        if f is None or k[0] != "L" or not self.isptr(f.vars.get(k[2], "")):
            return None
        bases = set()
        for t in v:
            if t[0] == "op" and t[1] == "+" and t[3][0] in ("i", "*"):
                t = t[2]
            elif t[0] == "&" and t[1][0] in ("E", "P") and t[1][2][0] in ("i", "*"):
                t = ("&", (t[1][0], t[1][1], ("*",)))
            bases.add(t)
        if len(bases) != 1:
            return None
        (b,) = bases
        if b[0] == "&":
            return frozenset([b])
        return frozenset([("op", "+", b, ("*",))]) if b[0] == "ld" and not self.heapish(b) else None

    # ---------------------------------------------------------------- functions
    def call_function(self, f, args, st, line):
        """Analyse f under abstract arguments; list of (state, value)."""
        if len(self.stack) > self.MAXDEPTH or sum(1 for g in self.stack if g[0] is f) > 1:
            return [(st, TOPS)]
        ctx = "%s@%s" % (f.name, ":".join(str(x[1]) for x in self.stack[-3:]) + ":%d:%s" % (
            len(self.stack), self.stack[-1][2] if self.stack else ""))
        self.functions_seen.add((f.file, f.name))
        self.stack.append((f, f.name, line))
        try:
            return self.run_cfg(f, ctx, args, st)
        finally:
            self.stack.pop()

    def restarted(self, ctx, st):
        """the analysis of a call starts again with more known about its loops"""

    def run_cfg(self, f, ctx, args, st0):
        while True:
            try:
                return self.run_cfg1(f, ctx, args, st0)
            except Restart as r:
                if r.args[0] != ctx:
                    raise
                self.restarted(ctx, st0)

    def run_cfg1(self, f, ctx, args, st0):
        st = st0.copy()
        for p, v in zip(f.params, args):
            st.env[("L", ctx, p)] = v
        # back-edge targets
        heads = loop_heads(f)
        instates = {0: {self.split_flags(st): st}}
        visits = {}
        work = [(0, self.split_flags(st))]
        rets = {}
        pending = set(work)
        order = {b: i for i, b in enumerate(rpo(f))}
        while work:
            work.sort(key=lambda x: -order.get(x[0], 0))
            item = work.pop()
            pending.discard(item)
            b, fl = item
            s = instates[b][fl]
            self.nsteps += 1
            if self.nsteps > 40000:
                raise Unsupported("analysis budget exceeded in " + f.name)
            outs = self.run_block(f, ctx, f.blocks[b], s.copy())
            for (nb, ns, rv, rl) in outs:
                if nb is None:
                    if rv is None:
                        continue
                    self.on_return(ns, f, rv, rl)
                    key = self.split_flags(ns)
                    # drop this frame's locals, join the returns with equal flags
                    env = {k: v for k, v in ns.env.items() if not self.in_frame(k, ctx)}
                    r = State(env, ns.flags, ns.budget)
                    if key in rets:
                        self.mergept = (f.name, "ret")
                        j, _ = self.joinstate(rets[key][0], r, False)
                        rets[key] = (j, mk(rets[key][1] | rv))
                    else:
                        rets[key] = (r, rv)
                    continue
                key = self.split_flags(ns)
                d = instates.setdefault(nb, {})
                if key not in d:
                    d[key] = ns
                    ch = True
                    if nb in heads:
                        self.enterhead(ns, ctx, nb, key)
                else:
                    visits[(nb, key)] = visits.get((nb, key), 0) + 1
                    wd = nb in heads and visits[(nb, key)] > 3
                    self.mergept = (ctx, nb)
                    if nb in heads:
                        back = order.get(b, 0) >= order.get(nb, 0)
                        j, ch = self.joinhead(d[key], ns, wd, ctx, nb, key, back)
                    else:
                        j, ch = self.joinstate(d[key], ns, wd)
                    if visits[(nb, key)] > 60 and ch:
                        # force termination
                        for k in list(j.env):
                            if j.env[k] != d[key].env.get(k):
                                j.env[k] = TOPS
                    d[key] = j
                if ch and (nb, key) not in pending:
                    work.append((nb, key))
                    pending.add((nb, key))
        return list(rets.values())

    def in_frame(self, k, ctx):
        while k[0] in ("F", "E"):
            k = k[1]
        return k[0] == "L" and k[1] == ctx

    def run_block(self, f, ctx, blk, st):
        """list of (next block | None, state, return value | None, line)"""
        states = [st]
        for ins in blk.ins:
            nxt = []
            for s in states:
                if ins[0] == "asg":
                    self.assign(f, ctx, s, ins)
                    nxt.append(s)
                else:
                    nxt.extend(self.do_call(f, ctx, s, ins))
            # merge states with the same flags to stay small
            if len(nxt) > 1:
                d = {}
                for s in nxt:
                    k = self.split_flags(s)
                    if k in d:
                        self.mergept = (ctx, "call", ins[-1])
                        d[k], _ = self.joinstate(d[k], s, False)
                    else:
                        d[k] = s
                nxt = list(d.values())
            states = nxt
            if not states:
                return []
        out = []
        t = blk.term
        for s in states:
            if t[0] == "jmp":
                out.append((t[1], s, None, 0))
            elif t[0] == "ret":
                v = self.eval(t[1], f, ctx, s, t[2]) if t[1] is not None else frozenset([("void",)])
                if t[1] is not None and not self.isptr(f.ret):
                    v = self.cast(v, f.ret)
                out.append((None, s, v, t[2]))
            elif t[0] == "stop":
                pass
            elif t[0] == "br":
                c = self.eval(t[1], f, ctx, s, t[4])
                a, b = self.branch(c)
                if a:
                    s1 = s.copy()
                    self.refine(s1, t[1], f, ctx, True, t[4])
                    out.append((t[2], s1, None, 0))
                if b:
                    s2 = s.copy()
                    self.refine(s2, t[1], f, ctx, False, t[4])
                    out.append((t[3], s2, None, 0))
            elif t[0] == "sw":
                v = self.eval(t[1], f, ctx, s, t[4])
                tgt = set()
                for x in v:
                    if x[0] == "i":
                        m = [b for (n, b) in t[2] if n == x[1]]
                        tgt.add(m[0] if m else t[3])
                    else:
                        tgt |= {b for (n, b) in t[2]} | {t[3]}
                for b in tgt:
                    out.append((b, s.copy(), None, 0))
            else:
                raise Unsupported(t[0])
        return out

    def assign(self, f, ctx, st, ins):
        _, lv, e, line = ins
        v = self.eval(e, f, ctx, st, line)
        t = self.lv_type(lv, f)
        if t and not self.isptr(t):
            v = self.cast(v, t)
            if self.width(t)[0] in (1, 2, 4, 8):
                v = frozenset(x[1] if x[0] == "stale" else x for x in v)
        ls = self.locs(lv, f, ctx, st, line)
        if ls == [AP]:
            old = st.env.get(AP)
            st.env[AP] = v
            self.on_bump(st, f, line, old, v)
            if not all(t[0] == "ap" and isinstance(t[2], int) for t in st.env[AP]):
                st.env[AP] = frozenset([("ap", ("s", self.ctxname(), line), 0)])
            return
        for l in ls:
            if self.heapish_loc(l) or l[0] == "G" or self.mlroot(l) or t == "ml_val_t" and l[0] == "P" and l[1][0] in ("ld", "ldi", "op", "top"):
                for x in v:
                    if x[0] == "stale":
                        self.on_use(st, f, line, "store", x)
        self.store(st, ls, v, f, line)
        if len(ls) == 1 and t and e[0] in ("var", "fld", "idx", "cast") and self.rtype(t).split(" ")[0] in ("struct", "union"):
            # copying a structure copies what is known of its parts
            src = self.locs(e, f, ctx, st, line)
            parts = [k for k in st.env if k[0] in ("F", "E") and self.under(k, src[0])] if len(src) == 1 and src != ls else []
            if parts and not nowhere(ls[0]):
                new = {self.rebase(k, src[0], ls[0]): st.env[k] for k in parts}
                if src[0] not in st.env:
                    st.env.pop(ls[0], None)
                for k in [k for k in st.env if k[0] in ("F", "E") and self.under(k, ls[0])]:
                    del st.env[k]
                st.env.update(new)

    def rebase(self, k, old, new):
        return new if k == old else (k[0], self.rebase(k[1], old, new)) + k[2:]

    # ---------------------------------------------------------------- calls
    def gc(self, st, keep, f, line, what):
        """A collection may happen here: every heap reference held in a C location other than
        the registered roots is stale afterwards."""
        self.on_gc(st, f, line, what)
        env = st.env
        for k, v in list(env.items()):
            if k in keep or k == AP:
                continue
            if self.mlroot(k):
                continue
            if k[0] in ("H", "P") and self.heapish_loc(k):
                continue    # contents of heap objects are forwarded by the collector
            if k[0] in ("F", "E") and self.heapish_loc(k):
                continue
            if any(self.heapish(t) and t[0] != "stale" for t in v):
                env[k] = frozenset(("stale", t, line) if self.heapish(t) and t[0] != "stale" else t
                                   for t in v)
        env[AP] = frozenset([("ap", ("gc", self.ctxname(), line), 0)])

    def ctxname(self):
        return tuple((g[1], g[2]) for g in self.stack)

    def do_call(self, f, ctx, st, ins):
        _, tmp, fe, args, line = ins
        av = [self.eval(a, f, ctx, st, line) for a in args]
        targets = None
        if fe[0] == "fun":
            name = fe[1]
        else:
            fv = self.eval(fe, f, ctx, st, line)
            names = {t[1] for t in fv if t[0] == "fn"}
            name = names.pop() if len(names) == 1 and len(fv) == 1 else None
        res = self.call(f, ctx, st, name, av, line, (f.file, f.name, line, name))
        out = []
        for (s, v) in res:
            s.env[("L", ctx, ("tmp", tmp[1]))] = v
            out.append((s))
        return out

    def call(self, f, ctx, st, name, av, line, site):
        if name is None:
            return self.unknown_call(f, st, av, line, site)
        if name in GC_ALL:
            self.gc(st, set(), f, line, name)
            return [(st, frozenset([("void",)]))]
        if name in GC_ROOTS:
            keep = set()
            for v in av[2:]:
                for t in v:
                    if t[0] == "&":
                        for x in st.env.get(t[1], ()):
                            if x[0] == "stale":
                                self.on_use(st, f, line, "register as a root", x)
                        keep.add(t[1])
            self.gc(st, keep, f, line, name)
            return [(st, frozenset([("void",)]))]
        r = self.intrinsic(st, f, name, av, line, site)
        if r is not None:
            return r
        g = self.inline(f, name)
        if g is not None:
            av2 = []
            for i, v in enumerate(av):
                if i < len(g.params) and not self.isptr(g.vars[g.params[i]]):
                    v = self.cast(v, g.vars[g.params[i]])
                av2.append(v)
            return self.call_function(g, av2, st, line)
        return [self.external(f, st, name, av, line, site)]

    def unknown_call(self, f, st, av, line, site):
        return [(st, TOPS)]

    def external(self, f, st, name, av, line, site):
        for v in av:
            for t in v:
                if t[0] == "stale":
                    self.on_use(st, f, line, "pass to " + name, t)
        ov = self.on_external(st, f, name, av, line, site)
        res = ov if ov is not None else one(("res", self.site_id(site, av), name))
        if name in PURE_EXTERNAL:
            if name in ("strlen",):
                res = mk({("op", "strlen", t[1] if t[0] == "stale" else t) for t in av[0]}) if ov is None else res
            elif name in BYTESWAP:
                res = mk({("op", name, t) for t in av[0]}) if ov is None else res
            return st, res
        # out parameters
        for i, v in enumerate(av):
            for t in v:
                if t[0] == "&":
                    loc = t[1]
                    base = loc
                    if loc[0] == "E" and loc[2] == ("i", 0):
                        base = loc[1]
                    root = base
                    while root[0] in ("F", "E"):
                        root = root[1]
                    if root[0] not in ("L", "G", "P", "H"):
                        continue
                    if name in READS:
                        continue
                    if self.const_param(name, i):
                        continue
                    for k in [k for k in st.env if k[0] in ("F", "E") and (self.under(k, base) or k == base)]:
                        del st.env[k]
                    st.env[base] = frozenset([("out", self.site_id(site, av), name, i, ())])
        return st, res

    def site_id(self, site, av):
        return site[3]

    def const_param(self, name, i):
        ps = self.param_types(name)
        if ps and i < len(ps):
            t = ps[i]
            if "CONST_SOCKADDR_ARG" in t:
                return True
            return "const" in t and t.rstrip().endswith("*")
        return False

    def param_types(self, name):
        p = self.P.protos.get(name)
        if not p or "(" not in p:
            return None
        inner = p[p.index("(") + 1:p.rindex(")")]
        out = []
        d = 0
        cur = ""
        for c in inner:
            if c == "(":
                d += 1
            if c == ")":
                d -= 1
            if c == "," and d == 0:
                out.append(cur.strip())
                cur = ""
            else:
                cur += c
        if cur.strip():
            out.append(cur.strip())
        return out


CMP = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}
AP = ("F", ("P", ("arg", 0, "msp"), ("i", 0)), "ml_allocPtr")
ML_STATE_FIELDS = {"ml_arg", "ml_cont", "ml_closure", "ml_linkReg", "ml_pc", "ml_exnCont", "ml_varReg",
                   "ml_calleeSave", "ml_storePtr", "ml_faultExn", "ml_roots"}
PURE_EXTERNAL = {"strlen", "htons", "ntohs", "htonl", "ntohl", "strcmp", "memcmp", "__builtin_bswap16",
                 "__builtin_bswap32", "__bswap_16", "__bswap_32", "strncmp"}
BYTESWAP = {"htons", "ntohs", "htonl", "ntohl", "__builtin_bswap16", "__builtin_bswap32",
            "__bswap_16", "__bswap_32"}
READS = {"cfsetispeed": "all", "cfsetospeed": "all", "cfgetispeed": "all", "cfgetospeed": "all", "free": "all", "closedir": "all", "fprintf": "all", "SayDebug": "all"}


def nowhere(l):
    """a location reached through a pointer nothing is known about"""
    while l[0] in ("F", "E"):
        l = l[1]
    return l[0] == "P" and l[1] in (TOP, ("uninit",))


def nonzero(t):
    return t[0] in ("&", "ap", "raw", "fn", "s")


def pure(t):
    return t[0] in ("i", "ap", "raw", "&", "arg", "res", "out") or \
        (t[0] in ("ld", "ldi") and t[1][0] == "P" and pure(t[1][1]))


_heads = {}


class Restart(Exception):
    pass


def natural_loops(f):
    """block -> set of heads of the loops it is in"""
    preds, order = {}, {}
    seen, st, on, back = {0}, [(0, iter(succs(f.blocks[0])))], {0}, []
    while st:
        b, it = st[-1]
        for s in it:
            preds.setdefault(s, set()).add(b)
            if s in on:
                back.append((b, s))
            if s not in seen:
                seen.add(s)
                on.add(s)
                st.append((s, iter(succs(f.blocks[s]))))
                break
        else:
            on.discard(b)
            st.pop()
    inl = {}
    for b, h in back:
        todo, body = [b], {h}
        while todo:
            x = todo.pop()
            if x not in body:
                body.add(x)
                todo += preds.get(x, ())
        for x in body:
            inl.setdefault(x, set()).add(h)
    return inl


def succs(b):
    t = b.term
    if t[0] == "jmp":
        return [t[1]]
    if t[0] == "br":
        return [t[2], t[3]]
    if t[0] == "sw":
        return [x for (_, x) in t[2]] + [t[3]]
    return []


def rpo(f):
    """reverse postorder with the body of a loop before what follows it"""
    seen = set()
    out = []
    inl = natural_loops(f)

    def next_(b):
        here = inl.get(b, set())
        return iter(sorted(succs(f.blocks[b]), key=lambda s: len(here & inl.get(s, set()))))
    st = [(0, next_(0))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, next_(s)))
                break
        else:
            out.append(b)
            st.pop()
    return list(reversed(out))


def loop_heads(f):
    k = id(f)
    if k in _heads:
        return _heads[k][1]
    on = set()
    seen = set()
    heads = set()
    st = [(0, iter(succs(f.blocks[0])))]
    seen.add(0)
    on.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s in on:
                heads.add(s)
            elif s not in seen:
                seen.add(s)
                on.add(s)
                st.append((s, iter(succs(f.blocks[s]))))
                break
        else:
            on.discard(b)
            st.pop()
    _heads[k] = (f, heads)
    return heads
