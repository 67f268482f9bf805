"""OS.IO.poll on select(): which descriptors are put in which set, and how readiness is reported.

For one- and two-element poll lists, every combination of requested events and every combination of ready
sets: the descriptor of item i is added to the read/write/error set (argument 1/2/3 of select) exactly when
item i asks for it, a set nobody asks for is not passed, and the flags recorded for an item are the events
that were asked for and are set in the corresponding result set."""
from .r07 import *
from .r07 import Guarded

ITEM = ["arg[0]", "arg[0][1]"]
NIL = {"arg[0]": 1, "arg[0][1]": 1, "arg[0][1][1]": 1}


def parts(e, pred):
    if isinstance(e, tuple):
        if pred(e):
            yield e
        for x in e:
            yield from parts(x, pred)


class Poll(Guarded):
    def __init__(self, P, assume, ready):
        super().__init__(P, assume)
        self.ready = ready
        self.sets = {}          # root of a set -> descriptors added
        self.sel = []           # arguments of select
        self.flags = set()      # constants recorded after select
        self.exact = True
        self.tests = 0

    def split_flags(self, st):
        """the position in the list is kept apart"""
        x = []
        for l, v in st.env.items():
            if l[0] == "L" and isinstance(v, frozenset) and len(v) == 1:
                (t,) = v
                if t[0] == "ld" and self.fromarg(t) and self.expr(None, t) in NIL:
                    x.append((l[1], str(l[2]), self.expr(None, t)))
        return super().split_flags(st), tuple(sorted(x))

    def assign(self, f, ctx, st, ins):
        lv, rv = ins[1], ins[2]
        if lv[0] == "idx" and lv[1][0] == "fld" and lv[1][2] == "fds_bits" and rv[0] == "bin" and rv[1] == "|":
            fds = [e[2] for e in parts(rv, lambda e: len(e) > 3 and e[0] == "bin" and e[1] in ("%", "&") and e[2] != lv)]
            base = self.eval(("addr", lv[1][1]), f, ctx, st, ins[3])
            if len(base) == 1 and fds:
                (b,) = base
                key = b[1] if b[0] == "&" else b
                while key[0] in ("E", "P") and key[0] == "E":
                    key = key[1]
                for t in self.eval(fds[0], f, ctx, st, ins[3]):
                    self.sets.setdefault(key, set()).add(self.expr(st, t))
            else:
                self.exact = False
        return super().assign(f, ctx, st, ins)

    def on_store(self, st, f, line, loc, val):
        super().on_store(st, f, line, loc, val)
        if self.sel and loc[0] in ("P", "H", "E", "F"):
            r = loc
            while r[0] in ("E", "F"):
                r = r[1]
            if r[0] == "P" and r[1][0] == "mal":
                for t in val:
                    if t[0] == "i":
                        self.flags.add(t[1])
                    elif not (self.expr(st, t).startswith("(arg[0]") and self.expr(st, t).endswith("[0][0]>>1)")):
                        self.exact = False

    def on_external(self, st, f, name, args, line, site):
        if name == "select":
            self.sel.append(list(args))
        return super().on_external(st, f, name, args, line, site)

    def truth(self, x):
        m = re.findall(r"\('out', [^']*.*?'select', (\d), \('fds_bits'", repr(x))
        if m and len(set(m)) == 1:
            self.tests += 1
            r = bool(self.ready >> (int(m[0]) - 1) & 1)
            return (not r) if x[0] == "op" and (x[1] == "!" or x[1] == "==" and x[-1] == ("i", 0)) else r
        if x[0] == "op" and len(x) == 4 and x[1] in CMP:
            a, b = self.num(x[2]), self.num(x[3])
            if a is not None and b is not None and x[3][0] != "i":
                return {"<": a < b, ">=": a >= b, ">": a > b, "<=": a <= b, "==": a == b, "!=": a != b}[x[1]]
        return super().truth(x)

    def num(self, t):
        if t[0] == "w":
            return self.num(t[2])
        if t[0] == "i":
            return t[1]
        if t[0] == "op" and len(t) == 4 and t[1] in "+-":
            a, b = self.num(t[2]), self.num(t[3])
            return None if a is None or b is None else a + b if t[1] == "+" else a - b
        return self.assume.get(self.expr(None, t)) if t[0] in ("op", "ld") else None


def run(P, f, want, ready, n, order=1):
    """want: requested events per item"""
    A = dict(NIL, **{"arg[1]": 1, "select()": 1})
    for i in range(n):
        A[ITEM[i]] = 8
        A["(%s[0][0]>>1)" % ITEM[i]] = 5 + i * order
        for b in (1, 2, 4):
            A["((%s[0][1]>>1)&%d)" % (ITEM[i], b)] = 1 if want[i] & b else 0
    g = Poll(P, A, ready)
    g.run(f)
    return g


def check_poll(P, f):
    """[(key, text)], number of cases"""
    bad, cases = [], 0
    NM = {1: "read", 2: "write", 4: "error"}
    jobs = [([w], 7, 1) for w in range(1, 8)] + [([7], r, 1) for r in range(7)] + [([1, 2], 7, 2), ([4, 1], 7, 2), ([2, 2], 7, 2), ([1, 1], 7, 2, -1)]
    for job in jobs:
        want, ready, n = job[:3]
        g = run(P, f, *job)
        if not g.sel:
            return [], 0            # not built on select
        cases += 1
        if not g.exact:
            continue
        hi = max(g.assume["(%s[0][0]>>1)" % ITEM[i]] for i in range(n))
        for args in g.sel:
            lim = [g.num(t) for t in args[0]]
            if lim and None not in lim and min(lim) <= hi:
                bad.append(("select|limit", "OS.IO.poll: select looks at the descriptors below %d but an item names %d (%d items)" % (min(lim), hi, n)))
        for k, b in ((1, 1), (2, 2), (3, 4)):
            fds = {"(%s[0][0]>>1)" % ITEM[i] for i in range(n) if want[i] & b}
            for args in g.sel:
                v = args[k]
                roots = {t[1] if t[0] == "&" else t for t in v}
                if not fds and v == frozenset([("i", 0)]):
                    continue
                got = set()
                for r in roots:
                    while r[0] == "E":
                        r = r[1]
                    got |= g.sets.get(r, set())
                if any(r[0] not in ("L", "i", "E") for r in roots):
                    continue
                if got != fds or ("i", 0) in roots and fds:
                    bad.append(("select|%s" % NM[b], "OS.IO.poll: when the items ask for %s, the %s set passed to select holds %s, must hold %s" % (
                        ["+".join(NM[x] for x in (1, 2, 4) if w & x) for w in want], NM[b], sorted(got) or "nothing", sorted(fds) or "nothing")))
        if g.tests:
            exp = {w & ready for w in want} - {0}
            if g.flags and g.flags != exp:
                bad.append(("ready", "OS.IO.poll: items asking for %s with ready sets %s are reported as %s, must be %s" % (
                    want, ready, sorted(g.flags), sorted(exp))))
    return bad, cases


class Mask(Guarded):
    """getSigMask when exactly the signals `blocked` (positions in the table) are in the process's mask."""
    maxdepth = 80

    def __init__(self, P, blocked):
        super().__init__(P)
        self.blocked = blocked
        self.seen = set()
        self.exact = True

    def external(self, f, st, name, av, line, site):
        r = super().external(f, st, name, av, line, site)
        if name == "sigismember":
            m = len(av) > 1 and len(av[1]) == 1 and re.match(r"SigInfo\[(\d+)\]\.id$", self.expr(st, list(av[1])[0]))
            if not m:
                self.exact = False
            else:
                self.seen.add(int(m.group(1)))
                return r[0], frozenset([("i", 1 if int(m.group(1)) in self.blocked else 0)])
        return r


def check_mask(P, f):
    """The answer is NONE for an empty mask, SOME [] when every signal is blocked, and otherwise the blocked signals."""
    g = Mask(P, set())
    g.run(f)
    n = sorted(g.seen)
    bad, cases = [], 0
    sets = [set(), set(n)] + [{i} for i in n] + [set(n) - {i} for i in n] + [{n[0], n[-1]}] if len(n) > 2 else []
    for b in sets:
        g = Mask(P, b)
        ret = items(g, g.run(f)).get("ret", [])
        if not g.exact or any(UNKNOWN.search(x) or x.endswith("=obj") for x in ret):
            continue
        cases += 1
        if not b:
            ok = list(ret) == ["1"]
        elif len(b) == len(n):
            ok = list(ret) == [".0=1"]
        else:
            got = {}
            for x in ret:
                m = re.match(r"\.0((?:\.1)*)\.0\.(\d)=(.*)$", x)
                if m:
                    got.setdefault(len(m.group(1)) // 2, {})[m.group(2)] = m.group(3)
            ok = sorted(str(sorted(v.items())) for v in got.values()) == sorted(
                str([("0", "((2*SigInfo[%d].id)+1)" % i), ("1", "str(SigInfo[%d].name)" % i)]) for i in b)
        if not ok:
            bad.append(("mask", "the mask holding %s of the %d signals is answered as %s" % (
                "none" if not b else "all" if len(b) == len(n) else "all but one" if len(b) == len(n) - 1 else "number " + ", ".join(map(str, sorted(b))),
                len(n), sorted(ret)[:6])))
    return bad, cases
