"""R11: a collection moves every object whole and follows every reference in what it moved.

Abstract interpretation of the collector's forwarding and sweeping routines over object shapes: the object's
descriptor (or the class of its page) is fixed per case, its words, the arenas and their addresses stay symbolic.

* forwarding: for every kind of object, the copy that is returned has the old descriptor and, word by word, the
  old contents, lies at the free end of the to-space arena for its kind (of the next generation when the object
  is older than the arena's mark), the arena's free pointer ends exactly behind it, and the old object is
  overwritten with the forwarding mark and the new address; an object already moved is looked up, not copied.
* sweeping: with words waiting in any one arena, and while they are examined new ones appearing in any other (or
  the same), every waiting word is examined before the sweep ends, and the forwarded address goes back into the
  word it came from; arenas that hold no references are left alone.
* roots and store list: every entry is examined."""
import re
from .prims import *
from .r07 import Prov
from .absint import *
from . import absint

REC, PAIR, STR, ARR = 0, 1, 2, 3
KIND = {REC: "record", PAIR: "pair", STR: "string", ARR: "array"}
FWD = (31 << 2) | 2
FORWARDERS = ("MinorGC_ForwardObj", "MajorGC_ForwardObj", "MajorGC_ForwardBigObj", "MinorGC_FwdSpecial", "MajorGC_FwdSpecial")


def mkdesc(n, tag):
    return (n << 7) | (tag << 2) | 2


def aid(gen, objc, blk=1):
    return (gen << 12) | (objc << 8) | blk


def off(t):
    """(base, offset) of a pointer term"""
    k = 0
    while True:
        if t[0] in ("w", "stale"):
            t = t[2] if t[0] == "w" else t[1]
        elif t[0] == "op" and len(t) == 4 and t[1] in "+-" and t[3][0] == "i":
            k, t = (k + t[3][1] if t[1] == "+" else k - t[3][1]), t[2]
        elif t[0] == "op" and len(t) == 4 and t[1] == "+" and t[2][0] == "i":
            k, t = k + t[2][1], t[3]
        elif t[0] == "&" and t[1][0] == "P" and t[1][2][0] == "i":
            k, t = k + t[1][2][1], t[1][1]
        else:
            return t, k


class Mover(Prov):
    """one scenario; `decide` answers the comparisons the scenario fixes"""
    def __init__(self, P, decide=None):
        super().__init__(P)
        self.decide = decide
        self.rets = []
        self.exact = True

    def inline(self, f, name):
        return RT.inline(self, f, name)

    def split_flags(self, st):
        x = []
        for l, v in st.env.items():
            if l[0] in ("L", "P", "F") and isinstance(v, frozenset) and len(v) == 1:
                (t,) = v
                if t[0] not in ("top", "uninit"):
                    x.append((repr(l), repr(t)))
        return super().split_flags(st), tuple(sorted(x))

    def truth(self, x):
        if x[0] == "op" and len(x) == 4 and x[1] in CMP:
            (a, i), (b, j) = off(x[2]), off(x[3])
            if a == b and a[0] != "i":
                return {"<": i < j, ">=": i >= j, ">": i > j, "<=": i <= j, "==": i == j, "!=": i != j}[x[1]]
        if self.decide is not None:
            r = self.decide(self, x)
            if r is not None:
                return r
        return super().truth(x) if hasattr(super(), "truth") else None

    def external(self, f, st, name, av, line, site):
        if name in ("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove") and len(av) == 3:
            d, r, n = single(av[0]), single(av[1]), single(av[2])
            if d and r and n and n[0] == "i" and n[1] % 8 == 0 and n[1] <= 256:
                (db, dc), (sb, sc) = off(d), off(r)
                ws = []
                for i in range(n[1] // 8):
                    k = ("P", sb, ("i", sc + i))
                    ws.append(st.env.get(k, frozenset([("ld", k)])))
                for i, w in enumerate(ws):
                    st.env[("P", db, ("i", dc + i))] = w
                return st, av[0]
            self.exact = False
        return super().external(f, st, name, av, line, site)

    def op2(self, o, a, b):
        if o in ("+", "-") and a[0] == "&" and a[1][0] == "P" and a[1][2][0] == "i" and b[0] == "i":
            a = super().op2("+", a[1][1], a[1][2])
        return super().op2(o, a, b)

    def on_return(self, st, f, val, line):
        if len(self.stack) == 1:
            self.rets.append((st.copy(), val))

    def go(self, f, args, env):
        absint.DEPTH = 60           # addresses of to-space objects are long
        st = State()
        st.env[AP] = frozenset([("ap", "entry", 0)])
        for k, v in env.items():
            st.env[k] = frozenset([v])
        self.call_function(f, [frozenset([a]) for a in args], st, f.line)
        return self.rets

    # reading a state
    def word(self, st, base, i):
        return st.env.get(("P", base, ("i", i)))


def single(v):
    return list(v)[0] if v is not None and len(v) == 1 else None


def moved(g, st, val, v, n, desc, arena):
    """problems with the state after moving object v (n words, descriptor desc or None) to `arena` (the rendering of the
    arena pointer expected)"""
    bad = []
    r = single(val)
    if r is None or not g.exact:
        return None
    base, c = off(r)
    name = g.expr(st, base)
    m = re.match(r"^\(*(.*?)\.nextw(\|8\)*|\))?$", name)
    if base[0] not in ("ld", "ldi", "op") or not m:
        return ["the result is %s, not a place in to-space" % g.expr(st, r)]
    if m.group(1) != arena:
        bad.append("it is copied to %s, must go to %s" % (m.group(1), arena))
    # contents
    if desc is not None:
        d = single(g.word(st, base, c - 1))
        if d != ("i", desc):
            bad.append("the copy's descriptor is %s, must be the object's" % (g.expr(st, d) if d else "not written"))
    for i in range(n):
        w = single(g.word(st, base, c + i))
        want = ("ld", ("P", v, ("i", i)))
        if w is None:
            bad.append("word %d of the copy is not written" % i)
        elif w != want and not (w[0] == "ldi" and w[1] == want[1]):
            bad.append("word %d of the copy is %s, must be the object's word %d" % (i, g.expr(st, w), i))
    # space
    fin = None
    for k, x in st.env.items():
        if k[0] == "F" and k[2] == "nextw" and g.loc(st, k) == m.group(1) + ".nextw":
            fin = single(x)
    if fin is None:
        bad.append("the arena's free pointer is not advanced")
    else:
        fb, fc = off(fin)
        if fb == base and fc != c + n:
            bad.append("the arena's free pointer ends %+d words from the end of the copy" % (fc - c - n))
        elif fb != base:
            bad.append("the arena's free pointer becomes %s" % g.expr(st, fin))
    start = c - (1 if desc is not None else 0)
    if start < 0:
        bad.append("the copy starts before the arena's free pointer")
    return bad


def forwarded(g, st, val, v, pair):
    """the old object leads to the copy"""
    r = single(val)
    f0 = single(g.word(st, v, 0))
    if pair:
        if f0 is None or f0[0] != "op" or f0[1] not in ("|", "+") or r not in f0[2:] and off(r) not in [off(x) for x in f0[2:] if isinstance(x, tuple)] or ("i", 2) not in f0[2:]:
            return ["the old pair's first word is %s, must be the marked address of the copy" % (g.expr(st, f0) if f0 else "not written")]
        return []
    bad = []
    d = single(g.word(st, v, -1))
    if d != ("i", FWD):
        bad.append("the old descriptor is %s, must be the forwarding mark" % (g.expr(st, d) if d else "not written"))
    if f0 is None or off(f0) != off(r):
        bad.append("the old object's first word is %s, must be the address of the copy" % (g.expr(st, f0) if f0 else "not written"))
    return bad


CASES = [("record", 0, n, n, REC) for n in (1, 3, 4, 7)] + [("pair", 0, 2, 2, PAIR)] + \
    [("vector header", 1, k, 2, REC) for k in (0, 1)] + [("array header", 2, k, 2, REC) for k in (0, 1, 2)] + \
    [("array", 3, n, n, ARR) for n in (1, 2, 5, 8)] + [("raw data", 4, n, n, STR) for n in (1, 2, 6)] + \
    [("64-bit raw data", 5, n, n, STR) for n in (1, 2, 5)] + [("suspension", 6, k, 1, ARR) for k in (0, 1)]
BIG = [("raw data", 4, 300, 300, STR), ("array", 3, 300, 300, ARR)]


def arena_name(g, st, t):
    m = re.match(r"^\(*(.*?)\.nextw(\|8\)*|\))?$", g.expr(st, t))
    return m.group(1) if m else None


def minor_cases(P, f):
    """(case, problems or None)"""
    v = ("arg", 1, "ml")
    args = [("arg", 0, "c"), v]
    for what, tag, ln, n, ar in CASES + BIG:
        g = Mover(P)
        d = mkdesc(ln, tag)
        rets = g.go(f, args, {("P", v, ("i", -1)): ("i", d)})
        bad = None if rets else ["it is not moved, the program ends"]
        for st, val in rets:
            b = moved(g, st, val, v, n, None if what == "pair" else d, "p0[0].arena[%d][0]" % ar)
            if b is not None:
                bad = (bad or []) + b + forwarded(g, st, val, v, False)
        yield label(what, n), bad
    g = Mover(P)
    yield "an object already moved", again(g, g.go(f, args, {("P", v, ("i", -1)): ("i", FWD)}), v)
    g = Mover(P)
    d = mkdesc(2, 6)
    yield "a weak pointer", weak(g, g.go(f, args, {("P", v, ("i", -1)): ("i", d)}), v, d, ["p0[0].arena[%d][0]" % ARR])


def label(what, n):
    return "%s of %d word%s" % (what, n, "" if n == 1 else "s")


def weak(g, rets, v, d, arenas):
    """a weak pointer keeps its target, or is put on the list of weak pointers with its target marked"""
    bad = None
    for st, val in rets:
        wl = [k for k in st.env if k[0] == "F" and k[2] == "weakList"]
        r = single(val)
        if r is None or not g.exact:
            continue
        base, c = off(r)
        a = arena_name(g, st, base)
        if g.word(st, base, 0) is None and g.word(st, base, 1) is None:
            continue            # no such class of page
        if not wl:
            b = moved(g, st, val, v, 1, d, a if a in arenas else arenas[0])
        else:
            b = [x for x in moved(g, st, val, v, 0, None, a if a in arenas else arenas[0]) if "free pointer" not in x]
            fin = [off(single(x) or ("top",)) for k, x in st.env.items() if k[0] == "F" and k[2] == "nextw"]
            if fin != [(base, c + 1)]:
                b.append("the arena's free pointer does not end behind the weak pointer")
            w = single(g.word(st, base, c))
            if w is None or g.expr(st, w) not in ("(arg[0]|1)", "(1|arg[0])", "(arg[0]+1)", "(1+arg[0])"):
                b.append("the copy's word is %s, must be the marked target" % (g.expr(st, w) if w else "not written"))
            head = single(st.env[wl[0]])
            if head is None or off(head) != (base, c - 1):
                b.append("the list of weak pointers does not start at the copy")
            nx = single(g.word(st, base, c - 1))
            if nx is None or "weakList" not in g.expr(st, nx):
                b.append("the rest of the list of weak pointers is lost")
        bad = (bad or []) + (b or []) + forwarded(g, st, val, v, False)
    return bad


def again(g, rets, v):
    bad = None
    for st, val in rets:
        bad = bad or []
        r = single(val)
        if any(k[0] == "F" and k[2] == "nextw" for k in st.env):
            bad.append("takes to-space for an object that was moved before")
        if r is None or r[0] not in ("ld", "ldi") or r[1] != ("P", v, ("i", 0)):
            bad.append("the result is %s, must be the forwarding address" % (g.expr(st, r) if r else "?"))
    return bad


def older(is_older, pairfwd=False):
    """fixes whether the object lies below its arena's mark, and whether a pair was moved"""
    def decide(g, x):
        if x[0] != "op" or len(x) != 4 or x[1] not in CMP:
            return None
        a, b = g.expr(None, x[2]), g.expr(None, x[3])
        if b.endswith(".oldTop") and "arg" in a:
            return {"<": is_older, ">=": not is_older, "<=": is_older, ">": not is_older}.get(x[1])
        if a.endswith(".oldTop") and "arg" in b:
            return {">": is_older, "<=": not is_older, ">=": is_older, "<": not is_older}.get(x[1])
        if a in ("(arg[0]&3)", "(3&arg[0])") and x[3] == ("i", 2):
            return {"==": pairfwd, "!=": not pairfwd}.get(x[1])
        return None
    return decide


def major_cases(P, f):
    v = ("arg", 2, "ml")
    for old in (False, True):
        for gen in (1, 3):
            tail = ".nextGen[0]" if old else ""
            pre = "p0[0].gen[%d][0].arena[%%d][0]" % (gen - 1) + tail

            def run(objc, env, pairfwd=False):
                g = Mover(P, older(old, pairfwd))
                return g, g.go(f, [("arg", 0, "c"), ("i", aid(4, 15, 255)), v, ("i", aid(gen, objc))], env)
            for what, tag, ln, n, ar in CASES + [("dead weak pointer", 6, 3, 1, ARR)] + (BIG if gen == 1 and not old else []):
                if gen == 3 and n not in (2, 3):
                    continue
                d = mkdesc(ln, tag)
                g, rets = run(ar + 1, {} if what == "pair" else {("P", v, ("i", -1)): ("i", d)})
                bad = None if rets else ["it is not moved, the program ends"]
                for st, val in rets:
                    b = moved(g, st, val, v, n, None if what == "pair" else d, pre % ar)
                    if b is not None:
                        bad = (bad or []) + b + forwarded(g, st, val, v, what == "pair")
                yield "%s in generation %d%s" % (label(what, n), gen, ", older than the mark" if old else ""), bad
            for ar in (REC, STR, ARR):
                g, rets = run(ar + 1, {("P", v, ("i", -1)): ("i", FWD)})
                yield "an object already moved in a %s arena" % KIND[ar], again(g, rets, v)
            g, rets = run(PAIR + 1, {}, True)
            bad = None
            for st, val in rets:
                r = single(val)
                bad = bad or []
                if any(k[0] == "F" and k[2] == "nextw" for k in st.env):
                    bad.append("takes to-space for a pair that was moved before")
                if r is None or "arg[0]" not in g.expr(st, r):
                    bad.append("the result is %s, must be the forwarding address" % (g.expr(st, r) if r else "?"))
            yield "a pair already moved", bad
            d = mkdesc(2, 6)
            g, rets = run(ARR + 1, {("P", v, ("i", -1)): ("i", d)})
            yield "a weak pointer in generation %d%s" % (gen, ", older than the mark" if old else ""), weak(g, rets, v, d, [pre % ARR])


# ------------------------------------------------------------------ sweeping

def base_of(k):
    return ("arg", 100 + k, "c")


def find_base(x):
    """to-space words mentioned in a term"""
    out = set()
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "arg" and isinstance(x[1], int) and x[1] >= 100:
            out.add(x[1] - 100)
        for y in x:
            out |= find_base(y)
    return out


def page(g, t, v):
    """value of a term over the page class v of the referenced object"""
    if t[0] == "i":
        return t[1]
    if t[0] in ("w", "stale"):
        x = page(g, t[2] if t[0] == "w" else t[1], v)
        return x & ((1 << t[1]) - 1) if t[0] == "w" and x is not None and x >= 0 else x
    if t[0] in ("ld", "ldi"):
        return v if g.expr(None, t).startswith("BIBOP[") else None
    if t[0] == "op" and len(t) == 3:
        a = page(g, t[2], v)
        return None if a is None else {"!": int(not a), "-": -a, "~": ~a}.get(t[1])
    if t[0] == "op" and len(t) == 4:
        a, b = page(g, t[2], v), page(g, t[3], v)
        if a is None or b is None:
            return None
        try:
            return {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, ">>": a >> b if b >= 0 else None, "<<": a << b if 0 <= b < 64 else None,
                    "<": int(a < b), ">": int(a > b), "<=": int(a <= b), ">=": int(a >= b), "==": int(a == b), "!=": int(a != b)}.get(t[1])
        except (TypeError, ValueError):
            return None
    return None


def in_space(g, x):
    """every word examined is a reference into the space being collected"""
    if "BIBOP[" in g.expr(None, x):
        r = page(g, x, g.pageid)
        return None if r is None else bool(r)
    if not find_base(x):
        return None
    if x[0] == "op" and len(x) == 3 and x[1] == "!":
        r = in_space(g, x[2])
        return None if r is None else not r
    if x[0] != "op" or len(x) != 4 or x[1] not in CMP:
        s = g.expr(None, x)
        return False if re.search(r"&[13]\)?$|^\(?[13]&", s) else None
    o, a, b = x[1], x[2], x[3]
    if find_base(b) and not find_base(a):
        a, b = b, a
        o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
    if find_base(b):
        if o in "<>" and any(t[0] == "op" and t[1] == "&" for t in (a, b)):       # end of the card
            return (o == ">") == (a[0] == "op" and a[1] == "&")
        return None
    if o in ("==", "!="):
        r = b == ("i", 0) and re.search(r"&[13]\)$|^\([13]&", g.expr(None, a)) is not None
        return r if o == "==" else not r
    return o in ("<", "<=")


class Sweeper(Mover):
    """`cells`: key -> location of an arena; `grow`: (word, arena) -- examining the word adds one to the arena"""

    def __init__(self, P, grow=None, decide=in_space):
        super().__init__(P, decide)
        self.grow = grow
        self.events = []

    pageid = aid(2, ARR + 1, 3)
    GROWN = ("L", "scenario", "grown")

    def inline(self, f, name):
        return None if name in FORWARDERS else super().inline(f, name)

    def intrinsic(self, st, f, name, av, line, site):
        if name in FORWARDERS and len(av) > 1:
            ws = [t for v in av for t in v if find_base(t) and t[0] in ("ld", "ldi", "w", "stale")]
            w = ws[0] if ws else ("top",)
            while w[0] in ("w", "stale"):
                w = w[2] if w[0] == "w" else w[1]
            self.events.append(w)
            if self.grow and w[1:2] == (self.grow[0],) and self.GROWN not in st.env:
                st.env[self.GROWN] = frozenset([("i", 1)])
                loc = self.grow[1]
                t = single(st.env.get(loc))
                if t is not None:
                    b, k = off(t)
                    st.env[loc] = frozenset([("op", "+", b, ("i", k + 1))])
            return [(st, frozenset([("op", "fwd", w)]))]
        return super().intrinsic(st, f, name, av, line, site)


def arena_loc(gen, k, field):
    """location of a field of arena k, gen: location of the gen_t"""
    return ("F", ("P", ("ld", ("E", ("F", gen, "arena"), ("i", k))), ("i", 0)), field)


def sweep_scenarios(gens):
    """gens: list of gen_t locations.  Yields (description, env, grow, [(base, nwords expected)], string bases)"""
    spaces = [(gi, k) for gi in range(len(gens)) for k in (REC, PAIR, ARR)]
    bid = {s: i for i, s in enumerate([(gi, k) for gi in range(len(gens)) for k in (REC, PAIR, STR, ARR)])}

    def env(full):
        e = {}
        for (gi, k), b in bid.items():
            n = 2 if (gi, k) in full else 0
            e[arena_loc(gens[gi], k, "sweep_nextw")] = base_of(b)
            e[arena_loc(gens[gi], k, "nextw")] = ("op", "+", base_of(b), ("i", n)) if n else base_of(b)
            e[arena_loc(gens[gi], k, "tospSizeB")] = ("i", 65536)
        return e

    def nm(s):
        return "%s arena%s" % (KIND[s[1]], " of generation %d" % (s[0] + 1) if len(gens) > 1 else "")
    for a in spaces:
        strs = [(gi, STR) for gi in range(len(gens))]
        yield "two words in the %s" % nm(a), env({a} | set(strs)), None, [(a, bid[a], 2)], [bid[s] for s in strs]
        for b in spaces:
            n = 3 if a == b else 2
            want = [(a, bid[a], n)] + ([] if a == b else [(b, bid[b], 1)])
            yield ("two words in the %s, the second one moving an object to the %s" % (nm(a), nm(b)), env({a}),
                   (("P", base_of(bid[a]), ("i", 1)), arena_loc(gens[b[0]], b[1], "nextw")), want, [])


def sweep_cases(P, f, args, gens):
    for what, env, grow, want, strs in sweep_scenarios(gens):
        g = Sweeper(P, grow)
        try:
            rets = g.go(f, args, env)
        except Unsupported as e:
            yield what, None
            continue
        bad = None
        for st, val in rets:
            bad = bad or []
            for (gi, k), b, n in want:
                for i in range(n):
                    loc = ("P", base_of(b), ("i", i))
                    w = single(st.env.get(loc))
                    if w != ("op", "fwd", ("ld", loc)) and w != ("op", "fwd", ("ldi", loc)):
                        bad.append("word %d of the %s arena is %s" % (i, KIND[k], "not examined" if w is None else "replaced by " + g.expr(st, w)))
                e = single(st.env.get(arena_loc(gens[gi], k, "sweep_nextw")))
                x = single(st.env.get(arena_loc(gens[gi], k, "nextw")))
                if e is not None and x is not None and off(e) != off(x):
                    bad.append("the %s arena is recorded as swept up to word %s of %s" % (KIND[k], off(e)[1], off(x)[1]))
            for b in strs:
                if any(k[0] == "P" and k[1] == base_of(b) for k in st.env):
                    bad.append("words of raw data are taken for references")
        if bad is not None and any(b in find_base(w) for w in g.events for b in strs):
            bad.append("words of raw data are taken for references")
        yield what, bad


def outside(g, x):
    """every word examined refers to something that is not collected"""
    if "BIBOP[" in g.expr(None, x):
        r = page(g, x, aid(3, REC + 1, 1))
        return None if r is None else bool(r)
    if x[0] == "op" and len(x) == 4 and x[1] in ("<", "<=", ">", ">=") and find_base(x) and \
            not (x[2][0] == "op" and x[2][1] == "&" or x[3][0] == "op" and x[3][1] == "&"):
        return not in_space(g, x) if in_space(g, x) is not None else None
    return in_space(g, x)


def unboxed(g, x):
    if x[0] == "op" and len(x) == 4 and x[1] in ("==", "!=") and find_base(x) and x[3] == ("i", 0):
        return not in_space(g, x)
    if x[0] == "op" and x[1] in ("&",) and find_base(x):
        return True
    return in_space(g, x)


def still_cases(P, f, args, gens):
    """words that do not refer to the space being collected stay as they are"""
    for what, dec in (("references elsewhere", outside), ("tagged integers", unboxed)):
        for w, env, grow, want, strs in sweep_scenarios(gens):
            if grow or strs == []:
                continue
            g = Sweeper(P, None, dec)
            try:
                rets = g.go(f, args, env)
            except Unsupported:
                yield what, None
                continue
            yield "%s: %s" % (w, what), (["they are forwarded"] if g.events else []) if rets else None


def root_cases(P, f, args, rootarg, stubs=(), env=None, decide=in_space):
    """every root is examined, in the given order of phases"""
    R = [base_of(50), base_of(51)]
    e = dict(env or {})
    for i, r in enumerate(R):
        e[("P", rootarg, ("i", i))] = r
    e[("P", rootarg, ("i", len(R)))] = ("i", 0)
    g = Phases(P, stubs, decide)
    try:
        rets = g.go(f, args, e)
    except Unsupported:
        return None, []
    bad = None
    tr = []
    for st, val in rets:
        bad = bad or []
        for i, r in enumerate(R):
            w = single(st.env.get(("P", r, ("i", 0))))
            if w is None or w[:2] != ("op", "fwd"):
                bad.append("root %d is not examined" % i)
        tr.append((st, g.trace(st)))
    return bad, tr


class Phases(Sweeper):
    TRACE = ("L", "scenario", "trace")

    def __init__(self, P, stubs, decide):
        super().__init__(P, None, decide)
        self.stubs = stubs

    def inline(self, f, name):
        return None if name in self.stubs else super().inline(f, name)

    def trace(self, st):
        t = single(st.env.get(self.TRACE))
        return t[1].split() if t else []

    def intrinsic(self, st, f, name, av, line, site):
        if name in self.stubs or name in FORWARDERS:
            nm = name if name in self.stubs else "forward"
            st.env[self.TRACE] = frozenset([("s", " ".join(self.trace(st) + [nm]))])
            if name in self.stubs:
                return [(st, TOPS)]
        return super().intrinsic(st, f, name, av, line, site)


def minor_phases(P, f):
    """roots and store list, then the sweep, then the weak pointers"""
    def decide(g, x):
        s = g.expr(None, x)
        if x[0] == "op" and len(x) == 4 and x[1] in ("==", "!=") and ("ml_storePtr" in s or "weakList" in s):
            return x[1] == "!="
        if x[0] in ("ld", "ldi") and ("ml_storePtr" in s or "weakList" in s):
            return True
        return in_space(g, x)
    SCAN, SWEEP, WEAK = "MinorGC_ScanStoreList", "MinorGC_SweepToSpace", "ScanWeakPtrs"
    stubs = [n for n in (SCAN, SWEEP, WEAK) if P.resolve(f, n) is not None]
    bad, tr = root_cases(P, f, [("arg", 0, "msp"), ("arg", 1, "c")], ("arg", 1, "c"), stubs, None, decide)
    if bad is None:
        return None
    for st, t in tr:
        for n, what in ((SCAN, "the store list is not scanned"), (SWEEP, "to-space is not swept"), (WEAK, "weak pointers are not looked at")):
            if n in stubs and n not in t:
                bad.append(what)
        if SWEEP in t:
            k = t.index(SWEEP)
            if SCAN in t[k:] or "forward" in t[k:]:
                bad.append("to-space is swept before all roots and the store list were examined")
            if WEAK in t[:k]:
                bad.append("weak pointers are looked at before to-space was swept")
        if SCAN in t:
            sp = [single(v) for k, v in st.env.items() if k[0] == "F" and k[2] == "ml_storePtr"]
            if sp != [("i", 1)]:
                bad.append("the store list is not emptied")
    return bad


def major_roots(P, f):
    e = {("F", ("P", ("arg", 1, "c"), ("i", 0)), "numGens"): ("i", 2)}
    return root_cases(P, f, [("arg", 0, "msp"), ("arg", 1, "c"), ("arg", 2, "c"), ("i", 2)], ("arg", 2, "c"), (), e)[0]


def bigobj_cases(P, f):
    """a big object of a collected generation is marked as reached, once"""
    for gen, state, want in ((2, 1, 2), (2, 3, 4), (2, 2, None), (2, 4, None), (3, 1, None), (3, 3, None), (1, 1, 2)):
        def value(g, t):
            if t[0] in ("w", "stale"):
                return value(g, t[2] if t[0] == "w" else t[1])
            if t[0] in ("ld", "ldi"):
                s = g.expr(None, t)
                return gen if s.endswith(".gen") else state if s.endswith(".state") else None
            if t[0] == "i":
                return t[1]
            if t[0] == "op" and len(t) == 4:
                a, b = value(g, t[2]), value(g, t[3])
                if a is not None and b is not None:
                    return page(g, ("op", t[1], ("i", a), ("i", b)), 0)
            return None

        def decide(g, x):
            if x[0] == "op" and len(x) == 3 and x[1] == "!":
                v = value(g, x[2])
                return None if v is None else not v
            v = value(g, x)
            return None if v is None else bool(v)
        g = Mover(P, decide)
        try:
            rets = g.go(f, [("arg", 0, "c"), ("i", 2), ("arg", 2, "ml"), ("i", aid(2, 8, 1))], {})
        except Unsupported:
            rets = []
        bad = None
        for st, val in rets:
            bad = bad or []
            got = [single(v) for k, v in st.env.items() if k[0] == "F" and k[2] == "state"]
            if want is None and got or want is not None and got != [("i", want)]:
                bad.append("its state becomes %s, must %s" % ([g.expr(st, t) for t in got if t] or "unchanged", "not change" if want is None else "be %d" % want))
        yield "a big object of generation %d in state %d, collecting 2 generations" % (gen, state), bad


def mentions(t):
    """(base, offset) of the to-space addresses in a term"""
    if isinstance(t, tuple) and t:
        b, k = off(t) if isinstance(t[0], str) and t[0] in ("op", "w", "stale", "arg", "&") and (t[0] != "op" or len(t) == 4) else (t, 0)
        if b[0] == "arg" and isinstance(b[1], int) and b[1] >= 100:
            return {(b, k)}
        out = set()
        for x in t[1:]:
            if isinstance(x, tuple):
                out |= mentions(x)
        return out
    return set()


class StoreList(Sweeper):
    """knows whether a page class was looked up for the updated word's address or for what the word refers to"""
    S = [("arg", 1, "ml"), ("arg", 9, "ml")]

    def __init__(self, P, src, dst):
        super().__init__(P, None, self.storelist)
        self.pages = {"src": src, "dst": dst}
        self.marks = set()
        self.exact = True

    def storelist(self, g, x):
        if x[0] == "op" and len(x) == 4 and x[1] in ("==", "!=") and (x[2] in self.S or x[3] in self.S):
            return x[1] == "!="
        v = self.value(x)
        if v is not None:
            return bool(v)
        if "BIBOP[" in self.expr(None, x):
            self.exact = False
        return in_space(g, x)

    def value(self, t):
        if t[0] in ("w", "stale"):
            return self.value(t[2] if t[0] == "w" else t[1])
        if t[0] == "res" and t[1] == "page":
            return self.pages[t[2]]
        if t[0] == "i":
            return t[1]
        if t[0] == "op" and len(t) == 3:
            a = self.value(t[2])
            return None if a is None else page(self, ("op", t[1], ("i", a)), 0)
        if t[0] == "op" and len(t) == 4:
            a, b = self.value(t[2]), self.value(t[3])
            if a is not None and b is not None:
                return page(self, ("op", t[1], ("i", a), ("i", b)), 0)
        return None

    def assign(self, f, ctx, st, ins):
        r = super().assign(f, ctx, st, ins)
        for l in self.locs(ins[1], f, ctx, st, ins[3]):
            v = st.env.get(l)
            t = single(v)
            if l[0] == "L" and t is not None and t[0] in ("ld", "ldi", "w") and self.expr(st, t).startswith("BIBOP["):
                who = set()
                for x in vars_of(ins[2]):
                    for u in self.eval(x, f, ctx, st, ins[3]):
                        if find_base(u):
                            b, k = off(u)
                            who.add("src" if b[0] == "arg" else "dst")
                if len(who) == 1:
                    st.env[l] = frozenset([("res", "page", who.pop())])
        return r

    def on_store(self, st, f, line, loc, val):
        super().on_store(st, f, line, loc, val)
        if loc[0] == "E" and "map" in repr(loc):
            v = [self.value(t) for t in val]
            self.marks |= {0 if x is None else x for x in v}

    def elem(self, b, i):
        if b[0] == "F" and b[2] == "map":
            self.cards = getattr(self, "cards", set()) | (mentions(i) or {(i, 0)})
        return super().elem(b, i)


def vars_of(e):
    if isinstance(e, tuple):
        if e and e[0] == "var":
            yield e
        for x in e:
            yield from vars_of(x)
    elif isinstance(e, list):
        for x in e:
            yield from vars_of(x)


def storelist_cases(P, f):
    A = [base_of(60), base_of(61)]
    S = StoreList.S
    env = {}
    for i in range(2):
        env[("P", S[i], ("i", 0))] = A[i]
        env[("P", S[i], ("i", 1))] = S[1] if i == 0 else ("i", 1)
    for sg, dg, mark in ((2, 0, True), (1, 0, False), (3, 1, True), (3, 3, False), (2, 3, False)):
        dst = aid(dg, 0 if dg == 0 else REC + 1, 1)
        g = StoreList(P, aid(sg, ARR + 1, 3), dst)
        try:
            rets = g.go(f, [("arg", 0, "c"), S[0]], env)
        except Unsupported:
            rets = []
        bad = None
        for st, val in rets if g.exact else []:
            bad = bad or []
            for i in range(2):
                w = single(st.env.get(("P", A[i], ("i", 0))))
                if dg == 0 and (w is None or w[:2] != ("op", "fwd")):
                    bad.append("entry %d of the store list is not followed" % i)
                if dg and w is not None:
                    bad.append("the updated word is overwritten")
        if bad is not None:
            if mark and not g.marks:
                bad.append("no card is marked")
            elif mark and max(g.marks) > max(dg, 1):
                bad.append("the card is marked for generation %d" % max(g.marks))
            elif mark and getattr(g, "cards", None) and not {x[0] for x in g.cards} & (set(A) | {TOP}):
                bad.append("the card marked is not the updated word's")
            elif sg == 1 and g.marks:
                bad.append("a card of the youngest generation is marked, which has none")
        yield "an update of generation %d to refer to generation %d" % (sg, dg), bad


# ------------------------------------------------------------------ weak pointers

class Marked(Sweeper):
    """addresses are aligned: setting or clearing their low bits can be undone"""
    def op2(self, o, a, b):
        x, k = a, b
        if x[0] == "i":
            x, k = b, a
        while x[0] in ("w", "stale"):
            x = x[2] if x[0] == "w" else x[1]
        if k[0] == "i" and x[0] == "op" and len(x) == 4 and x[1] in ("|", "+") and x[3][0] == "i" and 0 < x[3][1] < 4:
            m = x[3][1]
            if o == "&" and (k[1] | 3) in (-1, (1 << 64) - 1, (1 << 32) - 1) and k[1] & m == 0:
                return x[2]
            if o in ("^", "-") and k[1] == m and a is not k:
                return x[2]
            if o == "&" and 0 < k[1] < 4:
                return ("i", m & k[1])
        r = super().op2(o, a, b)
        if r[0] == "op" and self.pageid is not None and self.looked_up(r):
            n = page(self, r, self.pageid)
            if n is not None:
                return ("i", n)
        return r

    def looked_up(self, t):
        """computed from one page class and constants"""
        while t[0] in ("w", "stale", "op"):
            if t[0] == "op":
                ts = [x for x in t[2:] if x[0] != "i"]
                if len(ts) != 1:
                    return False
                t = ts[0]
            else:
                t = t[2] if t[0] == "w" else t[1]
        return t[0] in ("ld", "ldi") and self.expr(None, t).startswith("BIBOP[") \
            and ".tbl" in self.expr(None, t)


def weak_cases(P, f):
    """every weak pointer on the list ends with its target's new address or, when the target was not moved, dead"""
    W, T, N = [base_of(70), base_of(71)], [base_of(80), base_of(81)], [base_of(90), base_of(91)]
    for what, cls, pair in (("new", 0, 0), ("record", 1, 0), ("pair", 2, 1), ("string", 3, 0), ("array", 4, 0)):
        for alive in (True, False):
            env = {("F", ("P", ("arg", 0, "c"), ("i", 0)), "weakList"): W[0]}
            for i in range(2):
                env[("P", W[i], ("i", 0))] = ("op", "|", W[1], ("i", 1)) if i == 0 else ("i", 1)
                env[("P", W[i], ("i", 1))] = ("op", "|", T[i], ("i", 1))
                if pair:
                    env[("P", T[i], ("i", 0))] = ("op", "|", N[i], ("i", 2 if alive else 1))
                else:
                    env[("P", T[i], ("i", -1))] = ("i", FWD if alive else mkdesc(2, 0))
                    env[("P", T[i], ("i", 0))] = N[i]

            def decide(g, x, cls=cls):
                if "BIBOP[" in g.expr(None, x):
                    r = page(g, x, aid(1 if cls else 0, cls))
                    return None if r is None else bool(r)
                if x[0] == "op" and len(x) == 4 and x[1] in ("==", "!=") and x[3] == ("i", 0) and (x[2] in W or x[2] in T):
                    return x[1] == "!="
                if x in W or x in T:
                    return True
                return None
            g = Marked(P, None, decide)
            g.pageid = aid(1 if cls else 0, cls)
            try:
                rets = g.go(f, [("arg", 0, "c")], env)
            except Unsupported:
                rets = []
            bad = None
            for st, val in rets:
                got = []
                for i in range(2):
                    got += [single(st.env.get(("P", W[i], ("i", 0)))), single(st.env.get(("P", W[i], ("i", 1))))]
                if None in got or any(t[0] in ("top", "uninit", "op") and "|" not in t for t in got):
                    continue
                bad = bad or []
                for i in range(2):
                    d, t = got[2 * i], got[2 * i + 1]
                    want = (("i", mkdesc(2, 6)), N[i]) if alive else (("i", mkdesc(3, 6)), ("i", 1))
                    if d[0] == "op":
                        bad.append("entry %d of the list of weak pointers is not looked at" % i)
                    elif d != want[0]:
                        bad.append("entry %d of the list is labelled %s" % (i, {mkdesc(2, 6): "alive", mkdesc(3, 6): "dead"}.get(d[1] if d[0] == "i" else None, g.expr(st, d))))
                    elif t != want[1]:
                        bad.append("entry %d of the list refers to %s" % (i, g.expr(st, t)))
                wl = single(st.env.get(("F", ("P", ("arg", 0, "c"), ("i", 0)), "weakList")))
                if wl is not None and wl != ("i", 0):
                    bad.append("the list of weak pointers is not emptied")
            yield "weak pointers to %s objects that were %s" % (what, "moved" if alive else "not reached"), bad


def weak_states(P, f, major):
    """a weak pointer whose target is being collected and was not moved yet is put on the list of weak pointers, any
    other keeps its target"""
    T, N = base_of(80), base_of(81)
    v = ("arg", 2 if major else 1, "ml")
    d = mkdesc(2, 6)
    cases = [("record", aid(1, 1), False), ("string", aid(1, 3), False), ("array", aid(2, 4), False), ("pair", aid(2, 2), True)] if major \
        else [("new", 0, False)]
    todo = []
    for nm, pg, pair in cases:
        todo += [("a weak pointer to a %s object that is not moved" % nm, pg, pair, False, True, True),
                 ("a weak pointer to a %s object moved before" % nm, pg, pair, True, True, None)]
    todo += [("a weak pointer to an older object", aid(3, 1), False, False, True, False),
             ("a weak pointer to an integer", aid(3, 1), False, False, False, False)]
    for what, pg, pair, fwd, boxed, listed in todo:
        env = {("P", v, ("i", -1)): ("i", d), ("P", v, ("i", 0)): T if boxed else ("i", 15),
               ("P", T, ("i", 0)): ("op", "|", N, ("i", 2 if fwd else 1)) if pair else N}
        if not pair:
            env[("P", T, ("i", -1))] = ("i", FWD if fwd else mkdesc(2, 0))

        def decide(g, x):
            r = older(False)(g, x)
            if r is not None:
                return r
            if "BIBOP[" in g.expr(None, x):
                r = page(g, x, g.pageid)
                return None if r is None else bool(r)
            return in_space(g, x)
        g = Marked(P, None, decide)
        g.pageid = pg
        g.inline = lambda f, name, g=g: None if name == "MajorGC_ForwardBigObj" else Mover.inline(g, f, name)
        g.intrinsic = lambda st, f, name, av, line, site, g=g: Mover.intrinsic(g, st, f, name, av, line, site)
        args = [("arg", 0, "c"), ("i", aid(2, 15, 255)), v, ("i", aid(1, ARR + 1))] if major else [("arg", 0, "c"), v]
        try:
            rets = g.go(f, args, env)
        except Unsupported:
            rets = []
        bad = None
        for st, val in rets:
            r = single(val)
            if r is None or not g.exact:
                continue
            base, c = off(r)
            w = single(g.word(st, base, c))
            if w is None or len(rets) > 1:
                continue
            bad = bad or []
            wl = any(k[0] == "F" and k[2] == "weakList" for k in st.env)
            tgt = T if boxed else ("i", 15)
            if listed is True and not wl:
                bad.append("it is not put on the list of weak pointers")
            elif listed is False and wl:
                bad.append("it is put on the list of weak pointers")
            elif not wl and w != tgt:
                bad.append("its target becomes %s" % g.expr(st, w))
            elif wl and w not in (("op", "|", tgt, ("i", 1)), ("op", "+", tgt, ("i", 1))):
                bad.append("its marked target is %s" % g.expr(st, w))
        yield what, bad


# ------------------------------------------------------------------ major collections: phases, big objects, cards

YOUNG, FORWARD, OLD, PROMOTE = 1, 2, 3, 4
HEAP = ("ld", ("F", ("P", ("arg", 0, "msp"), ("i", 0)), "ml_heap"))


class Major(Phases):
    """a whole major collection whose parts are recorded"""
    def __init__(self, P, stubs, decide, ngens):
        super().__init__(P, stubs, decide)
        self.ngens = ngens

    def intrinsic(self, st, f, name, av, line, site):
        if name == "Flip":
            st.env[self.TRACE] = frozenset([("s", " ".join(self.trace(st) + [name]))])
            return [(st, frozenset([("i", self.ngens)]))]
        if name == "BO_Free" and len(av) == 2:
            t = single(av[1])
            if t is None:
                self.exact = False
            else:
                st.env[("L", "scenario", "freed", t)] = frozenset([("i", 1)])
            return [(st, TOPS)]
        return super().intrinsic(st, f, name, av, line, site)


def major_phases(P, f):
    """the parts of a major collection happen in order; big objects not reached are freed, the others stay in their
    generation or move to the next; the marks for the next collection are set"""
    known = ("Flip", "MajorGC_ScanRoots", "MajorGC_SweepToSpace", "ScanWeakPtrs", "FreeGeneration", "MarkRegion", "TrimHeap", "StartGCTimer",
             "StopGCTimer", "Say", "SayDebug", "HeapMon_StartGC", "HeapMon_UpdateHeap", "BO_Free", "CheckHeap", "ReportVM", "NUM_GC_GENS")
    hp = ("P", HEAP, ("i", 0))
    NG = 3

    def gen(i):
        return ("P", ("ld", ("E", ("F", hp, "gen"), ("i", i))), ("i", 0))

    def bo(i, k):
        return ("arg", 300 + 10 * i + k, "c")

    def fld(t, n):
        return ("F", ("P", t, ("i", 0)), n)

    def decide(g, x):
        if x[0] == "op" and len(x) == 4 and x[1] in ("==", "!="):
            if x[3] == ("i", 0) and (x[2][0] == "arg" and x[2][1] >= 300 or g.expr(None, x[2]).endswith(".weakList")):
                return x[1] == "!="
            if x[2][0] == x[3][0] == "arg" and x[2] != x[3]:
                return x[1] == "!="
        if x[0] == "arg" and isinstance(x[1], int) and x[1] >= 300:
            return True
        if x[0] in ("ld", "ldi") and g.expr(None, x).endswith(".weakList"):
            return True
        return None
    for coll in (1, 2, 3):
        env = {("F", hp, "numGens"): ("i", NG), ("F", hp, "bigRegions"): ("i", 0), ("G", "GCMessages"): ("i", 0)}
        objs = {}
        for i in range(NG):
            states = [YOUNG, FORWARD, YOUNG] if i == NG - 1 else [OLD, FORWARD, PROMOTE, YOUNG]
            if i >= coll:
                states = [YOUNG]
            for k, s in enumerate(states):
                env[fld(bo(i, k), "state")] = ("i", s)
                env[fld(bo(i, k), "gen")] = ("i", i + 1)
                env[fld(bo(i, k), "next")] = bo(i, k + 1) if k + 1 < len(states) else ("i", 0)
                objs[i, k] = s
            env[("E", ("F", gen(i), "bigObjs"), ("i", 0))] = bo(i, 0)
            for j in range(4):
                env[arena_loc(gen(i), j, "tospSizeB")] = ("i", 65536)
                env[arena_loc(gen(i), j, "nextw")] = ("arg", 400 + 10 * i + j, "c")
                env[arena_loc(gen(i), j, "tospBase")] = ("arg", 500 + 10 * i + j, "c")
        g = Major(P, known, decide, coll)
        try:
            rets = g.go(f, [("arg", 0, "msp"), ("arg", 1, "c"), ("i", 1)], env)
        except Unsupported:
            rets = []
        bad = None
        for st, val in rets:
            if not g.exact:
                continue
            bad = bad or []
            t = g.trace(st)
            order = [n for n in ("Flip", "MajorGC_ScanRoots", "MajorGC_SweepToSpace", "ScanWeakPtrs", "FreeGeneration") if P.resolve(f, n) is not None]
            for n in order:
                if n not in t:
                    bad.append("%s is not called" % n)
            for a, b in zip(order, order[1:]):
                if a in t and b in t and len(t) - 1 - t[::-1].index(a) > t.index(b):
                    bad.append("%s is called before %s is finished" % (b, a))
            n = t.count("FreeGeneration")
            if "FreeGeneration" in order and n != coll:
                bad.append("%d old spaces are given back, must be %d" % (n, coll))
            lists = {}
            for i in range(NG):
                p = single(st.env.get(("E", ("F", gen(i), "bigObjs"), ("i", 0))))
                steps = 0
                while p is not None and p[0] == "arg" and steps < 20:
                    lists.setdefault(p, []).append(i)
                    p = single(st.env.get(fld(p, "next")))
                    steps += 1
                if p != ("i", 0):
                    lists = None
                    break
            if lists is None:
                continue
            for (i, k), s in objs.items():
                freed = ("L", "scenario", "freed", bo(i, k)) in st.env
                where, name = lists.get(bo(i, k), []), "a big object of generation %d in state %d" % (i + 1, s)
                got = single(st.env.get(fld(bo(i, k), "state")))
                gg = single(st.env.get(fld(bo(i, k), "gen")))
                if i >= coll:
                    want, ws = [i], YOUNG
                elif s in (YOUNG, OLD):
                    if not freed:
                        bad.append(name + " was not reached and is not freed")
                    if where:
                        bad.append(name + " is freed and stays on a list")
                    continue
                elif s == FORWARD:
                    want, ws = [i], YOUNG if i == NG - 1 else OLD
                else:
                    want, ws = [i + 1], YOUNG if i + 1 == coll or i + 1 == NG - 1 else OLD
                if freed:
                    bad.append(name + " is freed")
                elif where != want:
                    bad.append(name + " ends on the list%s, must be on that of generation %d" % (
                        " of generation " + ", ".join(str(w + 1) for w in where) if where else " of no generation", want[0] + 1))
                elif gg != ("i", want[0] + 1):
                    bad.append(name + " is recorded in another generation than its list's")
                elif got != ("i", ws):
                    bad.append(name + " ends in state %s, must be %d" % (g.expr(st, got) if got else "?", ws))
            for i in range(coll):
                for j in range(4):
                    m = single(st.env.get(arena_loc(gen(i), j, "oldTop")))
                    w = ("arg", 400 + 10 * i + j, "c")
                    if i == NG - 1:
                        continue            # the oldest generation's successor is itself
                    if m is None:
                        bad.append("the mark of a %s arena is not set" % KIND[j])
                    elif m != w:
                        bad.append("the mark of the %s arena of generation %d is %s" % (KIND[j], i + 1, "its base" if m[1] >= 500 else "its free pointer"))
        yield "%d of %d generations collected" % (coll, NG), bad


class Cards(Marked):
    CLEAN = 255

    def value(self, t):
        if t[0] in ("w", "stale"):
            return self.value(t[2] if t[0] == "w" else t[1])
        if t[0] in ("ld", "ldi") and t[1][0] == "E" and ".map[" in self.expr(None, t):
            return self.CLEAN
        if t[0] in ("ld", "ldi") and ".tbl" in self.expr(None, t) and self.expr(None, t).startswith("BIBOP["):
            return self.pageid
        if t[0] == "i":
            return t[1]
        if t[0] == "op" and len(t) == 4:
            a, b = self.value(t[2]), self.value(t[3])
            if a is not None and b is not None:
                return page(self, ("op", t[1], ("i", a), ("i", b)), 0)
        return None

    def elem(self, b, i):
        if b[0] == "F" and b[2] == "map":
            self.cards = getattr(self, "cards", set()) | mentions(i)
        return super().elem(b, i)

    def on_store(self, st, f, line, loc, val):
        super().on_store(st, f, line, loc, val)
        if loc[0] == "E" and loc[1][0] == "F" and loc[1][2] == "map":
            v = [self.value(t) for t in val]
            st.env[("L", "scenario", "mark")] = frozenset([("i", -1 if None in v else max(v))])


def sweepcard_cases(P, f, args, gens):
    """a word of an older generation's array arena that ends referring to a younger generation has its card marked"""
    def decide(g, x):
        v = g.value(x)
        if v is not None:
            return bool(v)
        return in_space(g, x)
    for what, env, grow, want, strs in sweep_scenarios(gens):
        if grow or want[0][0] != (1, ARR):
            continue
        for young in (1, 2):
            e = dict(env)
            for i, gn in enumerate(gens):
                e[arena_loc(gn, ARR, "id")] = ("i", aid(i + 1, ARR + 1))
            g = Cards(P, None, decide)
            g.pageid = aid(young, REC + 1, 1)
            try:
                rets = g.go(f, args, e)
            except Unsupported:
                rets = []
            bad = None
            for st, val in rets:
                bad = bad or []
                m = single(st.env.get(("L", "scenario", "mark")))
                if m == ("i", -1):
                    bad = None
                    break
                if young < 2 and (m is None or m[1] > young):
                    bad.append("the card of the reference is %s" % ("not marked" if m is None else "marked for generation %d" % m[1]))
                elif young < 2:
                    at = {k for b, k in getattr(g, "cards", ()) if b == base_of(want[0][1])}
                    if at and max(at) > 1:
                        bad.append("the card marked is the one behind the reference")
            yield "%s referring to generation %d" % (what, young), bad


def dirty_cases(P, f):
    """dirty cards of the older generations are examined and stay marked while they hold references to a younger one"""
    hp = ("P", ("arg", 1, "c"), ("i", 0))

    def gen(i):
        return ("P", ("ld", ("E", ("F", hp, "gen"), ("i", i))), ("i", 0))

    def decide(g, x):
        v = g.value(x)
        if v is not None:
            return bool(v)
        if x[0] == "op" and len(x) == 4 and x[1] in ("==", "!=") and x[3] == ("i", 0) and x[2][0] == "arg":
            return x[1] == "!="
        return (in_space if g.refs else unboxed)(g, x)
    for coll, young in ((1, 1), (2, 1), (2, 2)):
        for refs in (True, False):
            env = {("F", hp, "numGens"): ("i", 3), ("P", ("arg", 2, "c"), ("i", 0)): ("i", 0)}
            for i in range(3):
                cm, b = ("arg", 600 + i, "c"), base_of(20 + i)
                env[("F", gen(i), "dirty")] = cm
                env[("F", ("P", cm, ("i", 0)), "numCards")] = ("i", 2)
                env[("F", ("P", cm, ("i", 0)), "baseAddr")] = b
                env[("E", ("F", ("P", cm, ("i", 0)), "map"), ("i", 0))] = ("i", 255)
                env[("E", ("F", ("P", cm, ("i", 0)), "map"), ("i", 1))] = ("i", young)
                env[arena_loc(gen(i), ARR, "tospSizeB")] = ("i", 65536)
                env[arena_loc(gen(i), ARR, "sweep_nextw")] = ("op", "+", b, ("i", 34))
            g = Cards(P, None, decide)
            g.refs = refs
            g.pageid = aid(young, REC + 1, 1)
            try:
                rets = g.go(f, [("arg", 0, "msp"), ("arg", 1, "c"), ("arg", 2, "c"), ("i", coll)], env)
            except Unsupported:
                rets = []
            bad = None
            for st, val in rets:
                bad = bad or []
                for i in range(coll, 3):
                    b = base_of(20 + i)
                    for k in (32, 33) if refs else ():
                        w = single(st.env.get(("P", b, ("i", k))))
                        if w is None or w[:2] != ("op", "fwd"):
                            bad.append("word %d of a dirty card of generation %d is not examined" % (k - 32, i + 1))
                    if any(k[0] == "P" and k[1] == b and k[2][0] == "i" and k[2][1] > 33 for k in st.env):
                        bad.append("words behind the last object are examined")
                    m = single(st.env.get(("E", ("F", ("P", ("arg", 600 + i, "c"), ("i", 0)), "map"), ("i", 1))))
                    if m is None or m[0] != "i":
                        bad = None
                        break
                    if refs and m[1] > young:
                        bad.append("a card of generation %d with a reference to generation %d ends marked %s" % (
                            i + 1, young, "clean" if m[1] == 255 else "for generation %d" % m[1]))
                    if not refs and m[1] > young and i > coll:
                        bad.append("a card of generation %d ends marked %d, generations up to %d were not looked for" % (i + 1, m[1], i))
                if bad is None:
                    break
            yield "dirty cards %s references to generation %d, %d generations collected" % ("with" if refs else "without", young, coll), bad


# ------------------------------------------------------------------ the property

GEN1 = ("P", ("arg", 0, "c"), ("i", 0))


def gl(i):
    return ("P", ("ld", ("E", ("F", ("P", ("arg", 0, "c"), ("i", 0)), "gen"), ("i", i))), ("i", 0))


def sweeps(P, f, args, gens):
    yield from sweep_cases(P, f, args, gens)
    yield from still_cases(P, f, args, gens)
    if len(gens) > 1:
        yield from sweepcard_cases(P, f, args, gens)


PARTS = [
    ("MinorGC_ForwardObj", "gen_t *,ml_val_t", lambda P, f: [*minor_cases(P, f), *weak_states(P, f, False)], "a minor collection moves"),
    ("MajorGC_ForwardObj", "heap_t *,aid_t,ml_val_t,aid_t", lambda P, f: [*major_cases(P, f), *weak_states(P, f, True)], "a major collection moves"),
    ("MajorGC_ForwardBigObj", "heap_t *,int,ml_val_t,aid_t", bigobj_cases, "reaching"),
    ("MinorGC_SweepToSpace", "gen_t *", lambda P, f: sweeps(P, f, [("arg", 0, "c")], [GEN1]), "the minor sweep with"),
    ("MajorGC_SweepToSpace", "heap_t *,int,int", lambda P, f: sweeps(P, f, [("arg", 0, "c"), ("i", 2), ("i", 2)], [gl(0), gl(1)]), "the major sweep with"),
    ("MinorGC_ScanStoreList", "heap_t *,ml_val_t", storelist_cases, "the store list with"),
    ("MinorGC", "ml_state_t *,ml_val_t **", lambda P, f: [("two roots, a store list and weak pointers", minor_phases(P, f))], "a minor collection with"),
    ("MajorGC_ScanRoots", "ml_state_t *,heap_t *,ml_val_t **,int", lambda P, f: [("two roots", major_roots(P, f))] + list(dirty_cases(P, f)), "a major collection with"),
    ("MajorGC", "ml_state_t *,ml_val_t **,int", major_phases, "a major collection with"),
    ("ScanWeakPtrs", "heap_t *", weak_cases, "the end of a collection with"),
]


def check(c):
    from . import program
    c.rule = ("per object shape: the copy is complete and lies in the arena for its kind, the old object leads to it, an object is moved once; "
              "per arena state: every waiting word is examined before the sweep ends; every root, updated word and weak pointer is looked at")
    P = program.Program()
    decided = undecided = 0
    left = []
    for name, sig, fn, verb in PARTS:
        f = P.funcs.get(name)
        if f is None or ",".join(f.vars.get(p, "?") for p in f.params) != sig:
            left.append(name)
            continue
        try:
            for what, bad in fn(P, f):
                if bad is None:
                    undecided += 1
                    continue
                decided += 1
                c.ob(not bad, "%s %s" % (verb, what))
                for b in bad:
                    c.violation("%s:%s" % (name, re.sub(r"\d+", "#", b)[:60]), "base/runtime/%s:%d" % (f.file, f.line), "%s: %s %s: %s" % (name, verb, what, b))
        except (Unsupported, RecursionError):
            left.append(name)
    c.require(decided >= 20, "R11: only %d situations could be decided" % decided)
    c.cov.update(situations=decided, undecided=undecided, not_analysed=left)
