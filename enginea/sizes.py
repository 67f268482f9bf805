"""Sizes of buffers and heap data, bounds established by comparisons, and the writes that must fit.

Mixin for the abstract interpreter.  Facts are kept in the abstract state and joined at merges:
  ("SZ", object)     -> linear forms the object's size in bytes is at least
  ("UB", a, b)       -> c with  a <= b + c   (b None: a <= c), from comparisons on the path
  ("ZT", object)     -> a zero byte/word may have been stored into the object
"""
from .absint import *
from .prims import *

# OS/library call -> [(destination argument, how many bytes it may write)]
# bytes: ("arg", k[, scale]) | ("strlen", k) | ("out-len", k) (through a pointer to the capacity)
WRITES = {
    "memcpy": (0, ("arg", 2)), "memmove": (0, ("arg", 2)), "__builtin_memcpy": (0, ("arg", 2)),
    "__builtin_memmove": (0, ("arg", 2)), "memset": (0, ("arg", 2)), "__builtin_memset": (0, ("arg", 2)),
    "bcopy": (1, ("arg", 2)), "bzero": (0, ("arg", 1)), "strncpy": (0, ("arg", 2)), "read": (1, ("arg", 2)),
    "pread": (1, ("arg", 2)), "recv": (1, ("arg", 2)), "recvfrom": (1, ("arg", 2)), "getcwd": (0, ("arg", 1)),
    "readlink": (1, ("arg", 2)), "strftime": (0, ("arg", 1)), "gethostname": (0, ("arg", 1)),
    "snprintf": (0, ("arg", 1)), "fgets": (0, ("arg", 1)), "getgroups": (1, ("arg", 0, 4)), "strcpy": (0, ("strlen", 1)),
    "__builtin_strcpy": (0, ("strlen", 1)), "strerror_r": (1, ("arg", 2)),
    "getsockname": (1, ("out-len", 2)), "getpeername": (1, ("out-len", 2)), "accept": (1, ("out-len", 2)),
    "strcat": (0, ("cat",)), "__builtin_strcat": (0, ("cat",)),
    "ctermid": (0, ("const", 9)), "tmpnam": (0, ("const", 20)), "pipe": (0, ("const", 8)), "socketpair": (3, ("const", 8)),
    "vsnprintf": (0, ("arg", 1)), "fread": (0, ("mul", 1, 2)), "sprintf": (0, ("format", 1)), "ttyname_r": (1, ("arg", 2)), "confstr": (1, ("arg", 2)),
}
ALSO = {"recvfrom": (4, ("out-len", 5)), "getsockopt": (3, ("out-len", 4))}
# result of the call is at most this argument
RESULT_LE = {"read": 2, "recv": 2, "recvfrom": 2, "readlink": 2, "strftime": 1, "getgroups": 0, "fread": 2, "pread": 2,
             "write": 2, "send": 2, "sendto": 2}
OUT_LE = {("recvfrom", 5): 5, ("getsockname", 2): 2, ("getpeername", 2): 2, ("accept", 2): 2}
INT_DIGITS = 20


def strip(t):
    while t[0] in ("w", "stale"):
        t = t[2] if t[0] == "w" else t[1]
    return t


class Lin:
    """sum of coef*atom + const"""
    __slots__ = ("a", "k")

    def __init__(self, a=None, k=0):
        self.a = {x: c for x, c in (a or {}).items() if c}
        self.k = k

    def __add__(self, o):
        a = dict(self.a)
        for x, c in o.a.items():
            a[x] = a.get(x, 0) + c
        return Lin(a, self.k + o.k)

    def scale(self, n):
        return Lin({x: c * n for x, c in self.a.items()}, self.k * n)

    def __sub__(self, o):
        return self + o.scale(-1)

    def key(self):
        return (tuple(sorted(self.a.items(), key=repr)), self.k)

    def show(self):
        from .r02 import show
        s = [("%s" if c == 1 else "%d*%%s" % c) % show(x) for x, c in self.a.items()]
        if self.k or not s:
            s.append(str(self.k))
        return " + ".join(s).replace("+ -", "- ")


def lin(t):
    t = strip(t)
    if t[0] == "i":
        return Lin(None, t[1])
    if t == ("zero",):
        return Lin()
    if t[0] == "op" and len(t) == 4:
        o, a, b = t[1], t[2], t[3]
        if o == "+":
            return lin(a) + lin(b)
        if o == "-":
            return lin(a) - lin(b)
        if o == "*":
            la, lb = lin(a), lin(b)
            if not la.a:
                return lb.scale(la.k)
            if not lb.a:
                return la.scale(lb.k)
        if o == "<<" and b[0] == "i" and 0 <= b[1] < 32:
            return lin(a).scale(1 << b[1])
    return Lin({t: 1})


def fromlin(l):
    """canonical term of a linear form"""
    r = None
    for x, c in sorted(l.a.items(), key=lambda z: (strip(z[0])[0] not in ("raw", "mal", "nw"), repr(z[0]))):
        t = x if c == 1 else ("op", "*", x, ("i", c))
        r = t if r is None else ("op", "+", r, t)
    if r is None:
        return ("i", l.k)
    return r if l.k == 0 else ("op", "+", r, ("i", l.k))


def arith(t):
    t = strip(t)
    return t[0] == "i" or t[0] == "op" and t[1] in ("+", "-", "*")


def ptrbase(t):
    """raw/malloc'ed base of a pointer term"""
    t = strip(t)
    while t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
        t = strip(t[2])
    return t if t[0] in ("raw", "mal", "nw") else None


def hasatom(t, K):
    if t == K:
        return True
    return isinstance(t, tuple) and any(hasatom(x, K) for x in t if isinstance(x, tuple))


def subst(t, K, by):
    """t[K := K + by] with arithmetic renormalised"""
    if not isinstance(t, tuple) or not hasatom(t, K):
        return t
    if t == K:
        return fromlin(Lin({K: 1}, by))
    if arith(t):
        l = lin(t)
        n = Lin(None, l.k)
        for x, c in l.a.items():
            if x == K:
                n = n + Lin({K: c}, c * by)
            else:
                n = n + lin(subst(x, K, by)).scale(c)
        return fromlin(n)
    return tuple(subst(x, K, by) if isinstance(x, tuple) else x for x in t)


def nonneg(t):
    return t[0] in ("K", "M", "len", "sizeof") or t[0] == "op" and t[1] == "strlen" or t[0] in ("ldi", "out") or t[0] == "op" and t[1] in (">>", "&", "/")


def rename(t, a, b):
    if t == a:
        return b
    return tuple(rename(x, a, b) if isinstance(x, tuple) else x for x in t)


def atoms(t):
    yield t
    for x in t:
        if isinstance(x, tuple) and x:
            yield from atoms(x)


class Sizes:
    CHECK_RAW = True
    CHECK_C = False
    CHECK_LOW = False
    NO_INDEX = ()
    loop = None
    stored = frozenset()
    placed = False
    cur = None

    def sz_report(self, st, f, line, kind, text):
        raise NotImplementedError

    # -- domain plumbing
    def default(self, k):
        if k[0] in ("UB", "LB"):
            return None
        if k[0] in ("SZ", "ZT", "CL", "KD"):
            return frozenset()
        return super().default(k)

    def joinval(self, k, x, y, widen):
        if k[0] == "UB":
            (a,), (b,) = x, y
            if widen and y != x:
                return frozenset([("i", 1 << 60)])
            return frozenset([("i", max(a[1], b[1]))])
        if k[0] == "LB":
            (a,), (b,) = x, y
            return frozenset([("i", -(1 << 60) if widen and y != x else min(a[1], b[1]))])
        if k[0] in ("SZ", "ZT", "CL", "KD"):
            z = x | y
            return z if len(z) <= 4 else frozenset(["?"])
        if self.loop and len(x) == 1 and x != y:
            z = self.induct(k, x, y)
            if z is not None:
                return z
        return super().joinval(k, x, y, widen)

    def in_frame(self, k, ctx):
        if k[0] in ("SZ", "UB", "LB", "ZT", "CL", "KD"):
            return False
        return super().in_frame(k, ctx)

    # -- loops: a variable that changes by a constant on every iteration is v0 + c*K, a list that is walked
    #    is tail(L, K); K is the (non-negative) number of completed iterations of that loop
    def enterhead(self, st, ctx, nb, key):
        st.env.update(self.entry(st, ctx, nb, key).env)

    def entry(self, st, ctx, nb, key):
        """the state entering the loop from outside, expressed with K"""
        K, old = ("K", ctx, nb), ("Kold", ctx, nb)
        env = st.env
        for k in list(env):
            if k[0] == "UB":
                if any(hasatom(x or (), K) or hasatom(x or (), old) for x in k[1:]):
                    v = env.pop(k)
                    if not any(hasatom(x or (), old) for x in k[1:]):
                        env[("UB",) + tuple(x and rename(x, K, old) for x in k[1:])] = v
            elif k[0] not in ("ZT", "ST") and any(isinstance(t, tuple) and (hasatom(t, K) or hasatom(t, old)) for t in env[k]):
                if k[0] in ("SZ", "CL"):
                    env[k] = frozenset(["?"])
                else:
                    env[k] = mk({TOP if hasatom(t, old) else rename(t, K, old) for t in env[k]})
        self.heads.setdefault((ctx, nb, key), []).append(st.copy())
        for k, (how, c) in self.known.get((ctx, nb), {}).items():
            v = env.get(k)
            if v is None or len(v) != 1:
                continue
            (t,) = v
            if t[0] in ("top", "uninit", "stale", "ap") or has_top(t):
                continue
            self.ivs.add(K)
            if how == "list":
                env[k] = frozenset([("tail", t, K)])
            elif how == "K":
                env[k] = frozenset([fromlin(lin(t) + Lin({K: c}))])
            else:
                m = ("M", ctx, nb, k)
                self.ivs.add(m)
                env[k] = frozenset([fromlin(lin(t) + Lin({m: c}))])
                env[("UB", m, K)] = frozenset([("i", 0)])
        for k, c in self.inv.get((ctx, nb, key), {}).items():
            env[k] = frozenset([("i", c)])
        return st

    def begin(self):
        self.heads, self.ivs, self.verd = {}, set(), {}
        self.known, self.refuted, self.inv, self.tries = {}, set(), {}, {}

    def run(self, f):
        self.begin()
        return super().run(f)

    def restarted(self, ctx, st):
        self.tries[ctx] = self.tries.get(ctx, 0) + 1
        for k in [k for k in self.heads if k[0] == ctx]:
            del self.heads[k]
        pre = self.ctxname()
        for k in [k for k in self.verd if k[0][:len(pre)] == pre]:
            del self.verd[k]

    def joinhead(self, a, b, widen, ctx, nb, key, back):
        K = ("K", ctx, nb)
        b = b.copy()
        if not back:
            return self.joinstate(a, self.entry(b, ctx, nb, key), widen)
        env = b.env
        if K in self.ivs:
            for k, v in list(env.items()):
                if k[0] == "UB":
                    if hasatom(k[1], K) or hasatom(k[2] or (), K):
                        del env[k]
                        x, y = subst(k[1], K, -1), subst(k[2], K, -1) if k[2] else None
                        (c,) = v
                        self.learn(b, "<=", x, fromlin((lin(y) if y else Lin()) + Lin(None, c[1])))
                    elif k[1][0] == "M" and k[1][1:3] == (ctx, nb) or k[2] and k[2][0] == "M" and k[2][1:3] == (ctx, nb):
                        del env[k]
                elif k[0] in ("SZ", "CL"):
                    if any(t != "?" and hasatom(t, K) for t in v):
                        env[k] = frozenset(t if t == "?" else lin(subst(fromlin(Lin(dict(t[0]), t[1])), K, -1)).key() for t in v)
                elif k[0] not in ("ZT", "ST") and any(isinstance(t, tuple) and hasatom(t, K) for t in v):
                    env[k] = frozenset(subst(t, K, -1) for t in v)
            for m in self.ivs:
                if m[0] == "M" and m[1:3] == (ctx, nb):
                    env[("UB", m, K)] = frozenset([("i", 0)])
        self.loop, self.news = (ctx, nb, K), False
        try:
            j, ch = self.joinstate(a, b, widen)
        finally:
            self.loop = None
        again = self.news
        # Houdini: a bound on K found in the loop that also held on entry (K = 0) is tried as an invariant
        inv = self.inv.setdefault((ctx, nb, key), {})
        for k in list(inv):
            v = j.env.get(k)
            if v is None or next(iter(v))[1] > inv[k]:
                del inv[k]
                self.refuted.add((ctx, nb, key, k))
                again = True
        for k in list(env):
            if k[0] == "UB" and k not in j.env and k not in inv and (ctx, nb, key, k) not in self.refuted \
                    and (hasatom(k[1], K) or hasatom(k[2] or (), K)):
                (c,) = env[k]
                d = (lin(k[2]) if k[2] else Lin()) + Lin(None, c[1]) - lin(k[1])
                d = Lin({x: n for x, n in d.a.items() if x != K}, d.k)
                if c[1] < 1 << 59 and all(self.prove(e, d) is True for e in self.heads.get((ctx, nb, key), [])):
                    inv[k] = c[1]
                    again = True
        if again and self.tries.get(ctx, 0) < 12:
            raise Restart(ctx)
        return j, ch

    def induct(self, k, x, y):
        """loop variable: the generalised value, or None"""
        ctx, nb, K = self.loop
        (tx,) = x
        if k[0] not in ("L", "F") or tx[0] in ("top", "uninit", "stale") or has_top(tx):
            return None
        m = ("M", ctx, nb, k)
        mine = hasatom(tx, K) or hasatom(tx, m)
        z = self.induct1(k, tx, y, K, m, mine)
        if z is None and mine and k in self.known.get((ctx, nb), {}):
            self.refuted.add((ctx, nb, k, self.known[(ctx, nb)][k][0]))
            del self.known[(ctx, nb)][k]
            self.news = True
        return z

    def isnew(self, k, how, c):
        ctx, nb, K = self.loop
        if (ctx, nb, k, how) in self.refuted:
            return False
        self.ivs.add(K)
        if how == "M":
            self.ivs.add(("M", ctx, nb, k))
        if self.known.setdefault((ctx, nb), {}).get(k) != (how, c):
            self.known[(ctx, nb)][k] = (how, c)
            self.news = True
        return True

    def induct1(self, k, tx, y, K, m, mine):
        if any(t[0] in ("top", "uninit", "stale") for t in y):
            return None
        if len(y) == 1:
            (ty,) = y
            s = strip(ty)
            if s[0] == "ld" and s[1] == ("P", tx, ("i", 1)) and tx[0] in ("ld", "arg"):
                return frozenset([("tail", tx, K)]) if self.isnew(k, "list", 0) else None
        if any(not arith(t) and not arith(tx) and t != tx for t in y):
            return None
        lx = lin(tx)
        ds = [lin(t) - lx for t in y]
        if any(d.a for d in ds):
            return None
        ds = {d.k for d in ds} - {0}
        if not ds:
            return frozenset([tx])
        if len(ds) != 1:
            return None
        (c,) = ds
        if m in lx.a:
            return frozenset([tx]) if lx.a[m] == c else None
        if mine:
            return None
        if len(y) == 1 and self.isnew(k, "K", c):
            return frozenset([fromlin(lx + Lin({K: c}))])
        if self.isnew(k, "M", c):
            return frozenset([fromlin(lx + Lin({m: c}))])
        return None

    def load(self, st, loc, ptr, ty, f, line):
        if loc[0] == "P" and loc[1][0] == "tail" and loc[2] == ("i", 1) and loc not in st.env:
            return one(("tail", loc[1][1], fromlin(lin(loc[1][2]) + Lin(None, 1))))
        return super().load(st, loc, ptr, ty, f, line)

    def cast(self, v, ty):
        out = super().cast(v, ty)
        if out is v:
            return v
        keep = [t for t in v if t[0] == "op" and any(a[0] in ("K", "M") for a in lin(t).a) or t[0] in ("K", "M")]
        if keep:
            return mk({x for t in v for x in ([t] if t in keep else super(Sizes, self).cast(frozenset([t]), ty))})
        return out

    def eval(self, e, f, ctx, st, line):
        if e[0] == "bin" and len(e) == 5:
            a = self.eval(e[2], f, ctx, st, line)
            b = self.eval(e[3], f, ctx, st, line)
            sa = self.P.sizealign(e[4])
            out = set()
            for x in a:
                for y in b:
                    if ptrbase(x) is not None and sa and sa[0] > 1 and x[0] != "stale":
                        y = fromlin(lin(y).scale(sa[0])) if not has_top(y) else TOP
                    out.add(self.op2(e[1], x, y))
            return mk(out)
        if e[0] == "bin" and e[1] in ("+", "-", "*"):
            a = self.eval(e[2], f, ctx, st, line)
            b = self.eval(e[3], f, ctx, st, line)
            out = set()
            for x in a:
                for y in b:
                    t = self.op2(e[1], x, y)
                    if arith(t) and not has_top(t):
                        l = lin(t)
                        if any(z[0] in ("K", "M") for z in l.a):
                            t = fromlin(l)
                    out.add(t)
            return mk(out)
        return super().eval(e, f, ctx, st, line)

    # -- facts
    def refine(self, st, cond, f, ctx, val, line):
        e = cond
        while e[0] == "cast":
            e = e[2]
        if e[0] == "bin" and e[1] in CMP:
            a = self.eval(e[2], f, ctx, st, line)
            b = self.eval(e[3], f, ctx, st, line)
            if len(a) == 1 and len(b) == 1:
                (x,), (y,) = a, b
                self.learn(st, e[1] if val else CMP[e[1]], x, y)
        elif e[0] in ("tmp", "var"):
            for t in self.eval(e, f, ctx, st, line):
                if t[0] == "op" and len(t) == 4 and t[1] in CMP and len(self.eval(e, f, ctx, st, line)) == 1:
                    self.learn(st, t[1] if val else CMP[t[1]], t[2], t[3])
        return super().refine(st, cond, f, ctx, val, line)

    def learn(self, st, o, x, y):
        if y == ("i", 1) and o in ("==", "!="):        # nil?
            x = strip(x)
            if x[0] == "tail":
                self.learn(st, "==" if o == "==" else "<", x[2], ("len", strip(x[1])))
                return
        lx, ly = lin(x), lin(y)
        if o == "==":
            self.learn(st, "<=", x, y)
            self.learn(st, ">=", x, y)
            return
        if o in (">", ">="):
            lx, ly, o = ly, lx, "<" if o == ">" else "<="
        if o not in ("<", "<="):
            return
        d = ly - lx                          # d >= 0 (or >= 1)
        k = d.k - (1 if o == "<" else 0)
        if len(d.a) == 1:
            (a, c), = d.a.items()
            if c == -1:
                self.fact(st, a, None, k)
            elif c == 1 and a[0] not in ("top", "uninit"):
                old = st.env.get(("LB", a))
                st.env[("LB", a)] = frozenset([("i", max(-k, next(iter(old))[1]) if old else -k)])
        elif len(d.a) <= 4:
            for a, c in d.a.items():
                if c == -1 and (len(d.a) == 2 or a[0] in ("K", "M")):
                    self.fact(st, a, fromlin(Lin({x: n for x, n in d.a.items() if x != a})), k)

    def fact(self, st, a, b, k):
        if a[0] in ("top", "uninit"):
            return
        key = ("UB", a, b)
        old = st.env.get(key)
        if old:
            (o,) = old
            k = min(k, o[1])
        st.env[key] = frozenset([("i", k)])

    def forget(self, st, name):
        for k in [k for k in st.env if k[0] == "UB" and (mentions(k[1], name) or (k[2] and mentions(k[2], name)))
                  or k[0] == "LB" and mentions(k[1], name)]:
            del st.env[k]

    def prove(self, st, d, depth=4):
        """Is d >= 0?  True / False (a constant says no) / None (unknown)"""
        if not d.a:
            return d.k >= 0
        if depth == 0:
            return None
        neg = sorted((a for a, c in d.a.items() if c < 0), key=repr)
        if not neg:
            lo = d.k
            for a, c in d.a.items():
                b = st.env.get(("LB", a))
                b = max(0 if nonneg(a) else -(1 << 60), next(iter(b))[1] if b else -(1 << 60))
                lo += c * b
            if lo >= 0:
                return True
            return self.low_shift(st, d, depth)
        for a in neg:
            if a[0] == "op" and len(a) == 4 and a[1] in (">>", "/", "&") and a[3][0] == "i" and a[3][1] > 0:
                c = -d.a[a]
                for b, cb in d.a.items():       # x <= y  implies  x >> s <= y >> s
                    if cb >= c and b[0] == "op" and b[1:2] == a[1:2] and b[3:] == a[3:] and a[1] != "&" and \
                            self.prove(st, lin(b[2]) - lin(a[2]), depth - 1):
                        if self.prove(st, d + Lin({a: c, b: -c}), depth - 1):
                            return True
                n = 1 << a[3][1] if a[1] == ">>" else a[3][1]
                if a[1] == "&":                 # x & m <= m
                    if self.prove(st, d + Lin({a: c}, -c * a[3][1]), depth - 1):
                        return True
                elif c % n == 0:                # n * (x / n) <= x  (x >= 0)
                    if self.prove(st, d + Lin({a: c}) - lin(a[2]).scale(c // n), depth - 1):
                        return True
                else:                           # x <= u  implies  x / n <= u / n
                    u = self.upper(st, lin(a[2]))
                    if u is not None and self.prove(st, d + Lin({a: c}, -c * (u // n)), depth - 1):
                        return True
            for k, v in list(st.env.items()):
                if k[0] == "UB" and k[1] == a:
                    (u,) = v
                    c = -d.a[a]
                    nd = d + Lin({a: 1}, 0).scale(c) - ((lin(k[2]) if k[2] else Lin()) + Lin(None, u[1])).scale(c)
                    if self.prove(st, nd, depth - 1):
                        return True
        return self.low_shift(st, d, depth)

    def low_shift(self, st, d, depth):
        """n * (x >> s) >= (n >> s) * (x - (1 << s) + 1)"""
        for a, c in d.a.items():
            if c > 0 and a[0] == "op" and len(a) == 4 and a[1] in (">>", "/") and a[3][0] == "i" and 0 < a[3][1]:
                n = 1 << a[3][1] if a[1] == ">>" else a[3][1]
                if c % n == 0 and self.prove(st, d + Lin({a: -c}) + (lin(a[2]) + Lin(None, 1 - n)).scale(c // n), depth - 1):
                    return True
        return None

    def refute(self, st, d, depth=4):
        """A bound that the path allows to be reached makes d negative."""
        if not d.a:
            return d.k < 0
        if depth == 0:
            return False
        if d.k <= 0 and all(c < 0 and a[0] in ("K", "M", "len") for a, c in d.a.items()):
            return True
        for a in sorted((a for a, c in d.a.items() if c < 0), key=repr):
            c = -d.a[a]
            if a[0] == "op" and len(a) == 4 and a[1] in (">>", "/") and a[3][0] == "i" and a[3][1] > 0:
                n = 1 << a[3][1] if a[1] == ">>" else a[3][1]
                u = self.upper(st, lin(a[2]))
                if u is not None and self.refute(st, d + Lin({a: c}, -c * (u // n)), depth - 1):
                    return True
                for b, cb in d.a.items():       # (x >> s) - (y >> s) is -1 for some x when y > x
                    if cb == c and b[0] == "op" and b[1:2] == a[1:2] and b[3:] == a[3:]:
                        for y in self.tops(st, lin(a[2])):
                            g = y - lin(b[2])
                            if not g.a and g.k > 0 and self.refute(st, d + Lin({a: c, b: -c}, -c * max(1, g.k // n)), depth - 1):
                                return True
            if a[0] == "op" and len(a) == 4 and a[1] == "&" and a[3][0] == "i" and a[3][1] > 0:
                if self.refute(st, d + Lin({a: c}, -c * a[3][1]), depth - 1):
                    return True
            for k, v in list(st.env.items()):
                if k[0] == "UB" and k[1] == a:
                    (u,) = v
                    if u[1] < 1 << 59 and self.refute(st, d + Lin({a: c}) - (
                            (lin(k[2]) if k[2] else Lin()) + Lin(None, u[1])).scale(c), depth - 1):
                        return True
        return False

    def tops(self, st, l):
        """l and its bounds by one fact"""
        yield l
        for k, v in list(st.env.items()):
            if k[0] == "UB" and l.a.get(k[1], 0) > 0:
                (u,) = v
                c = l.a[k[1]]
                yield l + Lin({k[1]: -c}) + ((lin(k[2]) if k[2] else Lin()) + Lin(None, u[1])).scale(c)

    def lowok(self, st, l):
        """no program-supplied integer without a lower bound in l"""
        for a, c in l.a.items():
            b = st.env.get(("LB", a))
            if c < 0 or b and next(iter(b))[1] >= 0:
                continue
            if a[0] == "op" and len(a) == 4 and a[1] in (">>", "/") and a[3][0] == "i":
                if a[1:] == (">>", a[2], ("i", 1)) and strip(a[2])[0] in ("ld", "arg"):
                    return False               # INT_MLtoC
                if not self.lowok(st, lin(a[2])):
                    return False
        return True

    def within(self, st, d, definite):
        """Is d >= 0, as far as this check insists on it?"""
        if self.prove(st, d) is True:
            return True
        loopy = any(x[0] in ("K", "M", "Kold") for a in d.a for x in atoms(a))
        return (definite or loopy) and not self.refute(st, d)

    def upper(self, st, l):
        """constant upper bound of a linear form, if facts give one directly"""
        if not l.a:
            return l.k
        if len(l.a) == 1:
            (a, c), = l.a.items()
            v = st.env.get(("UB", a, None))
            if c > 0 and v:
                (u,) = v
                return c * u[1] + l.k
        return None

    # -- verdicts: a site is judged by its last visit, when the analysis has stabilised
    def verdict(self, st, f, line, kind, ok, text):
        key = (self.ctxname(), f.file, f.name, line, kind, self.cur, self.split_flags(st))
        self.verd[key] = None if ok else (f, line, kind, text, list(self.stack))

    # -- objects
    def objsize(self, st, p):
        """(list of size lower bounds as Lin from p to the end of its object, label) or None."""
        p = strip(p)
        if p[0] in ("raw", "mal", "nw"):
            s = st.env.get(("SZ", p))
            if not s or "?" in s or has_top(tuple(s)):
                return None
            return [Lin(dict(a), k) for a, k in s], "heap data" if p[0] != "mal" else "malloc'ed buffer"
        b = ptrbase(p)
        if b is not None:
            r = self.objsize(st, b)
            if r:
                l = lin(p)
                if l.a.get(b) == 1 and not has_top(p):
                    return [x - (l - Lin({b: 1})) for x in r[0]], r[1]
            return None
        if p[0] == "&" and self.CHECK_C:
            l = p[1]
            off = 0
            if l[0] == "E":
                if l[2][0] != "i":
                    return None
                es = self.loc_size(l[1])
                n = arraylen(self.loc_type(l[1]) or "")
                if not es or not n:
                    return None
                off = l[2][1] * (es // n)
                l = l[1]
            root = l
            while root[0] in ("F", "E"):
                root = root[1]
            if root[0] not in ("L", "G"):
                return None
            n = self.loc_size(l)
            if n is None:
                return None
            return [Lin(None, n - off)], "buffer " + self.locname(l)
        return None

    def root(self, l):
        while l[0] in ("F", "E"):
            l = l[1]
        return l

    def locname(self, l):
        return self.locname(l[1]) + "." + str(l[2]) if l[0] == "F" else str(l[-1]) if l[0] in ("L", "G") else "?"

    def fits(self, st, f, line, dest, need, what, definite=False):
        """dest can take `need' bytes (Lin or None)"""
        r = self.objsize(st, dest)
        if r is None:
            return
        sizes, lab = r
        self.nfit = getattr(self, "nfit", 0) + 1
        self.fit_sites = getattr(self, "fit_sites", set())
        self.fit_sites.add((f.file, line))
        bad = None
        for s in sizes:
            if need is None:
                bad = "%s writes an unbounded number of bytes into %s (%s bytes)" % (what, lab, s.show())
            elif not self.within(st, s - need, definite):
                bad = "%s may write %s bytes into %s of %s bytes" % (what, need.show(), lab, s.show())
        self.verdict(st, f, line, "overrun", bad is None, bad)

    def strbound(self, st, t, plus):
        """Bytes of the C string t (with its terminator)."""
        t = strip(t)
        if t[0] == "s":
            return Lin(None, len(text(t)) + 1)
        if t[0] == "&" and t[1][0] == "E" and t[1][2] == ("i", 0):
            c = st.env.get(("CL", t[1][1]))       # what was copied there
            if c and len(c) == 1 and "?" not in c:
                (a, k), = c
                return Lin(dict(a), k)
        return Lin({("op", "strlen", t): 1}, 1)

    def amount(self, st, f, name, how, args):
        if how[0] == "arg":
            return [lin(t).scale(how[2] if len(how) > 2 else 1) for t in args[how[1]]] if len(args) > how[1] else []
        if how[0] == "const":
            return [Lin(None, how[1])]
        if how[0] == "strlen":
            return [self.strbound(st, t, 1) for t in args[how[1]]]
        if how[0] == "cat":
            return [self.strbound(st, a, 0) + self.strbound(st, b, 0) + Lin(None, -1) for a in args[0] for b in args[1]]
        if how[0] == "mul":
            return [lin(("op", "*", a, b)) for a in args[how[1]] for b in args[how[2]]]
        if how[0] == "out-len":
            out = []
            for t in args[how[1]]:
                if t[0] == "&":
                    for v in self.load(st, t[1], False, "", f, 0):
                        out.append(lin(v))
            return out
        if how[0] == "format":
            out = []
            for t in args[how[1]]:
                if t[0] != "s":
                    continue
                n = 1
                s = text(t)
                i = 0
                k = how[1] + 1
                bound = Lin(None, 0)
                while i < len(s):
                    if s[i] == "%":
                        import re
                        m = re.match(r"%([-+ 0#]*)(\d*|\*)(?:\.(\d+|\*))?(l|ll|z|h)?([diuxXscp%])", s[i:])
                        if not m:
                            return [None]
                        i += m.end()
                        if m.group(5) == "%":
                            n += 1
                            continue
                        prec = m.group(3)
                        if m.group(2) == "*":
                            k += 1
                        if prec == "*":
                            pv = args[k] if k < len(args) else TOPS
                            k += 1
                        if m.group(5) == "s":
                            if prec and prec != "*":
                                n += int(prec)
                            elif prec == "*":
                                (x,) = list(pv)[:1]
                                bound = bound + lin(x)
                            else:
                                (x,) = list(args[k])[:1] if k < len(args) else (TOP,)
                                bound = bound + self.strbound(st, x, 0) + Lin(None, -1)
                        elif m.group(5) == "c":
                            n += 1
                        else:
                            w = INT_DIGITS if m.group(4) or m.group(5) == "p" else 11
                            n += max(w, int(m.group(2) or 0) if m.group(2) != "*" else w)
                            if m.group(5) in "xX" and m.group(2) and m.group(2) != "*":
                                n -= w - int(m.group(2))
                        k += 1
                    else:
                        i += 1
                        n += 1
                out.append(bound + Lin(None, n))
            return out
        return []

    def on_external(self, st, f, name, args, line, site):
        for tab in (WRITES, ALSO):
            if name in tab:
                d, how = tab[name]
                if d < len(args):
                    needs = self.amount(st, f, name, how, args)
                    if len(needs) > 1 and all(n is not None for n in needs):
                        # several values of one variable: the buffer was allocated with the same ones
                        ks = {n.key() for n in needs}
                        have = set()
                        for t in args[d]:
                            have |= st.env.get(("SZ", strip(t)), frozenset(["?"]))
                        real = have - {"?"}
                        if ks <= have and "?" not in have or len(args[d]) > 1 and len(real) > 1 and ks & real:
                            for k in [k for k in self.verd if k[0] == self.ctxname() and k[1:4] == (f.file, f.name, line)
                                      and k[5] and k[5][0] == name]:
                                self.verd[k] = None
                            self.fit_sites = getattr(self, "fit_sites", set())
                            self.fit_sites.add((f.file, line))
                            continue
                    for n_, need in enumerate(needs):
                        self.cur = (name, n_)
                        if need is not None and any(has_top(a) for a in need.a):
                            continue
                        for t in args[d]:
                            self.fits(st, f, line, t, need, name)
        for t in (args[WRITES[name][0]] if name in WRITES and WRITES[name][0] < len(args) else ()):
            t = ptrbase(t) or strip(t)
            if (name in ("strcpy", "strncpy", "__builtin_strcpy", "bzero") or name in ("memset", "__builtin_memset")
                    and any(z in (("i", 0), ("zero",)) for z in args[1])) and t[0] == "raw":
                st.env[("ZT", t)] = st.env.get(("ZT", t), frozenset()) | {"z"}
        if name in ("strcpy", "__builtin_strcpy", "strcat", "__builtin_strcat") and len(args) == 2:
            for t in args[0]:
                if t[0] == "&" and t[1][0] == "E" and t[1][2] == ("i", 0):
                    b = self.amount(st, f, name, WRITES[name][1], args)
                    st.env[("CL", t[1][1])] = frozenset(x.key() for x in b) if all(x is not None for x in b) else frozenset(["?"])
        elif name in WRITES and WRITES[name][0] < len(args):
            for t in args[WRITES[name][0]]:
                if t[0] == "&" and t[1][0] == "E":
                    st.env.pop(("CL", t[1][1]), None)
        self.forget(st, name)
        r = super().on_external(st, f, name, args, line, site)
        if name in RESULT_LE and RESULT_LE[name] < len(args):
            for t in args[RESULT_LE[name]]:
                if len(args[RESULT_LE[name]]) == 1:
                    l = lin(t)
                    res = ("res", self.site_id(site, args), name)
                    if not l.a:
                        self.fact(st, res, None, l.k)
                    elif len(l.a) == 1 and list(l.a.values()) == [1]:
                        self.fact(st, res, list(l.a)[0], l.k)
        for (n, i), k in OUT_LE.items():
            if n == name and k < len(args):
                v = set()
                for t in args[k]:
                    if t[0] == "&":
                        v |= self.load(st, t[1], False, "", f, 0)
                if len(v) == 1 and list(v)[0][0] == "i":
                    self.fact(st, ("out", self.site_id(site, args), name, i, ()), None, list(v)[0][1])
        return r

    def intrinsic(self, st, f, name, av, line, site):
        r = super().intrinsic(st, f, name, av, line, site)
        if name in ("ML_AllocRaw", "ML_AllocRaw64") and r:
            for s, v in r:
                for t in v:
                    if t[0] == "raw":
                        s.env[("SZ", t)] = frozenset(lin(x).scale(8).key() for x in av[1] if x[0] != "top") or frozenset(["?"])
                        s.env.pop(("ZT", t), None)
                        s.env[("KD", t)] = frozenset([name])
        elif name == "malloc" and r:
            for s, v in r:
                for t in v:
                    s.env[("SZ", t)] = frozenset(lin(x).key() for x in av[0] if x[0] != "top") or frozenset(["?"])
        elif name == "ML_ShrinkRaw" and r:
            for s, v in r:
                for t in av[1]:
                    t = strip(t)
                    if t[0] == "raw":
                        s.env[("SZ", t)] = frozenset(lin(x).scale(8).key() for x in av[2] if x[0] != "top") or frozenset(["?"])
        return r

    def on_store(self, st, f, line, loc, val):
        super().on_store(st, f, line, loc, val)
        if loc[0] == "P":
            p = strip(loc[1])
            while p[0] == "op" and p[1] == "+":
                p = strip(p[2])
            if p[0] == "raw" and not self.placed and any(t in (("i", 0), ("zero",)) or t[0] == "op" and t[1] == "&" for t in val):
                st.env[("ZT", p)] = frozenset(["z"])

    def assign(self, f, ctx, st, ins):
        lv, line = ins[1], ins[3]
        x, self.stored = lv, set()
        while x[0] in ("idx", "fld"):
            self.stored.add(id(x))
            x = x[1]
        if lv[0] == "idx" and lv[1][0] != "cast" and not (
                lv[1][0] in ("var", "fld", "idx") and self.isarr(self.lv_type(lv[1], f))) or lv[0] == "idx" and lv[1][0] == "cast":
            sa = self.P.sizealign(lv[3]) if lv[3] else None
            if sa:
                for p in self.eval(lv[1], f, ctx, st, line):
                    if p[0] == "stale" or not (ptrbase(p) or self.CHECK_C and p[0] == "&"):
                        continue
                    for i in self.eval(lv[2], f, ctx, st, line):
                        if has_top(i) or has_top(p):
                            continue
                        self.cur = ("st", repr(lv)[:200])
                        self.fits(st, f, line, p, (lin(i) + Lin(None, 1)).scale(sa[0]), "the store", True)
                        if ptrbase(p) is not None:
                            self.zero(st, f, ctx, p, i, sa[0], ins)
        try:
            return super().assign(f, ctx, st, ins)
        finally:
            self.placed = False

    def zero(self, st, f, ctx, p, i, esz, ins):
        """a zero stored at p[i]: remember where"""
        v = self.eval(ins[2], f, ctx, st, ins[3])
        if v and all(t in (("i", 0), ("zero",)) for t in v):
            b = ptrbase(p)
            off = lin(p) - Lin({b: 1}) + lin(i).scale(esz)
            if any(has_top(a) for a in off.a):
                return
            old = st.env.get(("ZT", b), frozenset())
            st.env[("ZT", b)] = frozenset(sorted(old | {("at", off.key(), esz)}, key=repr)[-6:])
            self.placed = True

    def terminated(self, st, zs, n):
        """May one of the zeros stored be at byte n?"""
        for z in zs:
            if z in ("z", "?"):
                return True
            off, esz = Lin(dict(z[1][0]), z[1][1]), z[2]
            if any(c < 0 and a[0] in ("K", "M", "Kold") for a, c in off.a.items()):
                return True
            lo = Lin({a: c for a, c in off.a.items() if a[0] not in ("K", "M", "Kold")}, off.k)
            after = self.prove(st, lo - n - Lin(None, 1)) is True
            before = lo.key() == off.key() and self.prove(st, n - lo - Lin(None, esz)) is True
            if not after and not before:
                return True
        return False

    # -- sequence headers
    def header(self, st, f, line, code, data, length, vec=True):
        """A sequence header (element code) over data with a tagged length."""
        per = {1: 1, 2: 2, 3: 4, 4: 8, 5: 4, 6: 8, 0: 8}.get(code)
        if per is None:
            return
        for d in data:
            d = strip(d)
            off = Lin()
            if d[0] != "raw":
                b = ptrbase(d)
                if b is None or b[0] != "nw" or has_top(d):
                    continue
                d, off = b, lin(d) - Lin({b: 1})
            s = st.env.get(("SZ", d))
            if not s or "?" in s or has_top(tuple(s)):
                continue
            s = {(Lin(dict(a), k) - off).key() for a, k in s}
            string = code == 1 and vec and st.env.get(("KD", d)) == frozenset(["ML_AllocRaw"])
            lens = []
            for t in length:
                l = lin(t) + Lin(None, -1)
                if any(c % 2 for c in l.a.values()) or l.k % 2 or any(has_top(a) for a in l.a):
                    continue
                n = Lin({a: c // 2 for a, c in l.a.items()}, l.k // 2).scale(per)
                lens.append(n)
                for a, k in s:
                    self.hdr_sites = getattr(self, "hdr_sites", set())
                    self.hdr_sites.add((f.file, line))
                    if self.prove(st, Lin(dict(a), k) - n + Lin(None, -1 if string else 0)) is not True:
                        self.sz_report(st, f, line, "data", "the header says %s bytes%s but its data object has %s" % (
                            n.show(), " and a terminating zero" if string else "", Lin(dict(a), k).show()))
            if string and lens:
                # a zero-trip loop is seen first: judged when the analysis has stabilised
                key = tuple((g.name, l) for g, _, l in self.stack) + (line,)
                self.zt = getattr(self, "zt", {})
                zs = st.env.get(("ZT", d), frozenset())
                if any(self.terminated(st, zs, n + off) for n in lens):
                    self.zt[key] = None
                else:
                    self.zt.setdefault(key, (f, line, list(self.stack), bool(zs)))

    def finish(self):
        for v in list(getattr(self, "verd", {}).values()):
            if v:
                f, line, kind, txt, stk = v
                old, self.stack = self.stack, stk
                self.sz_report(None, f, line, kind, txt)
                self.stack = old
        for v in getattr(self, "zt", {}).values():
            if v:
                f, line, stk, some = v
                old, self.stack = self.stack, stk
                self.sz_report(None, f, line, "terminator", "the string's data is never given its terminating zero" if not some
                               else "no zero is stored at the end of the string's bytes")
                self.stack = old

    # -- indexing of declared arrays
    def locs(self, e, f, ctx, st, line):
        if self.CHECK_C and e[0] == "idx" and e[1][0] in ("var", "fld") and self.isarr(self.lv_type(e[1], f)):
            n = arraylen(self.lv_type(e[1], f))
            bt = self.locs(e[1], f, ctx, st, line)
            if n and n > 1 and not f.file.startswith(self.NO_INDEX) and any(self.root(b)[0] == "L" for b in bt):
                for t in self.eval(e[2], f, ctx, st, line):
                    t = strip(t)
                    if t[0] in ("top", "uninit"):
                        continue
                    self.idx_sites = getattr(self, "idx_sites", set())
                    self.idx_sites.add((f.file, line))
                    l = lin(t)
                    if any(has_top(a) for a in l.a):
                        continue
                    self.cur = ("idx", repr(e[1]), repr(e[2]))
                    nm = self.locname(bt[0]) if bt else "?"
                    bad = None
                    if not self.within(st, Lin(None, n - 1) - l, False):
                        bad = "index %s of array %s[%d] is not bounded by a test" % (l.show(), nm, n)
                    elif self.CHECK_LOW and not (self.within(st, l, False) and (id(e) not in self.stored or self.lowok(st, l))):
                        bad = "index %s of array %s[%d] may be negative" % (l.show(), nm, n)
                    self.verdict(st, f, line, "index", bad is None, bad)
        return super().locs(e, f, ctx, st, line)


def text(t):
    s = t[1]
    if len(s) >= 2 and s[0] == s[-1] == '"':
        s = s[1:-1]
    return s.replace("\\\\", "?").replace("\\", "")


def has_top(t):
    return t == TOP or t == UNINIT or isinstance(t, tuple) and any(has_top(x) for x in t if isinstance(x, tuple))


def mentions(t, name):
    if not isinstance(t, tuple):
        return False
    if len(t) >= 3 and t[0] in ("res", "out") and t[2] == name:
        return True
    return any(mentions(x, name) for x in t)


def arraylen(t):
    import re
    m = re.search(r"\[(\d+)\]", t or "")
    return int(m.group(1)) if m else None
