"""R10: every collection starts from every root.

For each call of MinorGC / MajorGC reached from InvokeGC and InvokeGCWithRoots, the must-contents of the
root vector handed over are computed: a set of facts "element i holds v" and "elements a+k hold v(k) for all
k < K" (K the trip count of a loop), with symbolic linear positions, so that overwritten, skipped and
unterminated entries are seen.  The vector must hold the address of each ML register of the calling state,
of each registered C root, each extra root of the caller, be terminated by NIL and have no holes."""
from .sizes import *
from .prims import RT
from .absint import Restart, TOPS, TOP, mk, one
from lib import core

REGS = ["ml_arg", "ml_cont", "ml_closure", "ml_exnCont", "ml_varReg"]
NOSAVE = 3


BOUND = ("B",)


def trips(n):
    return n[1] if n[0] == "len" else ("K",) + n


def badidx(t):
    return has_top(t) or t == ("*",) or isinstance(t, tuple) and any(isinstance(x, tuple) and badidx(x) for x in t)


class Roots(Sizes, RT):
    CHECK_C = False

    def __init__(self, P):
        super().__init__(P)
        self.found = {}          # (entry, callee, line) -> problems
        self.end = []
        self.table = []

    def on_use(self, st, f, line, what, val):
        pass

    def sz_report(self, *a):
        pass

    # -- symbolic positions in arrays
    def elem(self, b, i):
        return ("E", b, ("*",) if badidx(i) else i if i[0] == "i" else fromlin(lin(i)))

    def at(self, p, i, st, f, line):
        if p[0] == "&" and p[1][0] == "E":
            l = p[1]
            if l[2] == ("*",) or badidx(i):
                return ("E", l[1], ("*",))
            return ("E", l[1], fromlin(lin(l[2]) + lin(i)))
        return super().at(p, i, st, f, line)

    def op2(self, o, a, b):
        if o in ("+", "-") and a[0] == "&" and a[1][0] == "E" and a[1][2] != ("*",) and b[0] != "&":
            if badidx(b):
                return ("&", ("E", a[1][1], ("*",)))
            l = lin(a[1][2])
            return ("&", ("E", a[1][1], fromlin(l + lin(b) if o == "+" else l - lin(b))))
        return super().op2(o, a, b)

    def induct1(self, k, tx, y, K, m, mine):
        if tx[0] == "&" and tx[1][0] == "E" and tx[1][2] != ("*",):
            base = tx[1][1]
            if all(t[0] == "&" and t[1][0] == "E" and t[1][1] == base and t[1][2] != ("*",) for t in y):
                z = super().induct1(k, tx[1][2] if arith(tx[1][2]) else ("op", "+", tx[1][2], ("i", 0)),
                                    frozenset(t[1][2] if arith(t[1][2]) else ("op", "+", t[1][2], ("i", 0)) for t in y), K, m, mine)
                if z is None:
                    return None
                return frozenset(("&", ("E", base, fromlin(lin(t)))) for t in z)
            return None
        return super().induct1(k, tx, y, K, m, mine)

    def entry(self, st, ctx, nb, key):
        ptrs = {}
        for k, (how, c) in self.known.get((ctx, nb), {}).items():
            v = st.env.get(k)
            if v and len(v) == 1:
                (t,) = v
                if t[0] == "&" and t[1][0] == "E":
                    ptrs[k] = t[1][1]
                    st.env[k] = frozenset([t[1][2]])
        st = super().entry(st, ctx, nb, key)
        for k, b in ptrs.items():
            st.env[k] = frozenset(("&", ("E", b, t)) for t in st.env[k])
        for k, fct in self.assumed.get((ctx, nb, key), ()):
            st.env[k] = st.env.get(k, frozenset()) | {fct}
        return st

    def cast(self, v, ty):
        if any(t[0] == "va" for t in v):
            return v
        return super().cast(v, ty)

    def eval(self, e, f, ctx, st, line):
        if e == ("unk", "va_arg"):
            return frozenset([("va",)])
        return super().eval(e, f, ctx, st, line)

    # -- contents of arrays of root addresses
    def rooty(self, l):
        return l[0] == "E" and l[1][0] == "L" and "ml_val_t *" in (self.loc_type(l[1]) or "").replace("**", "* *")

    def store(self, st, locs, val, f, line):
        if any(self.rooty(l) for l in locs):
            for l in locs:
                if self.rooty(l):
                    self.put(st, l[1], l[2], val if len(locs) == 1 else TOPS, line)
            return
        super().store(st, locs, val, f, line)

    def put(self, st, base, idx, val, line):
        key = ("RS", base)
        old = st.env.get(key, frozenset())
        if badidx(idx):
            st.env[key] = frozenset()
            return
        li = lin(idx)
        keep = set()
        for fact in old:
            if fact[0] == "at":
                d = li - lin(fact[1])
                if not d.a and d.k != 0 or self.prove(st, d + Lin(None, -1)) is True or self.prove(st, Lin() - d + Lin(None, -1)) is True:
                    keep.add(fact)
            else:
                _, a, n, v = fact
                d = li - lin(a) - lin(trips(n))    # idx past the segment, or before it
                if self.prove(st, d) is True or self.prove(st, lin(a) - li + Lin(None, -1)) is True:
                    keep.add(fact)
        v = val if len(val) == 1 else frozenset([("some", tuple(sorted(val, key=repr)))])
        (t,) = v
        keep.add(("at", fromlin(li), t))
        st.env[key] = frozenset(keep)

    def in_frame(self, k, ctx):
        if k[0] == "RS":
            return super().in_frame(k[1], ctx)
        return super().in_frame(k, ctx)

    def default(self, k):
        if k[0] == "RS":
            return frozenset()
        return super().default(k)

    def joinval(self, k, x, y, widen):
        if k[0] == "RS":
            return x & y
        return super().joinval(k, x, y, widen)

    def begin(self):
        super().begin()
        self.assumed, self.nope = {}, set()

    def joinhead(self, a, b, widen, ctx, nb, key, back):
        if not back:
            return super().joinhead(a, b, widen, ctx, nb, key, back)
        K = ("K", ctx, nb)
        b = b.copy()
        here = self.assumed.setdefault((ctx, nb, key), set())
        again = False
        for k, v in list(b.env.items()):
            if k[0] != "RS":
                continue
            out = set()
            for fct in v:
                if fct[0] == "at" and lin(fct[1]).a.get(K) == 1:
                    out.add(("each", fromlin(lin(fct[1]) - Lin({K: 1})), (ctx, nb), rename(fct[2], K, BOUND)))
                elif not (fct[0] == "each" and fct[2] == (ctx, nb) or hasatom(fct, K)):
                    out.add(fct)
            # what every iteration so far has done is assumed on entry and has to be done by each iteration
            for fct in out:
                if fct[0] == "each" and fct[2] == (ctx, nb) and (k, fct) not in here and (ctx, nb, key, k, fct) not in self.nope:
                    here.add((k, fct))
                    again = True
            b.env[k] = frozenset(out)
        for k, fct in list(here):
            if fct not in b.env.get(k, ()):
                here.discard((k, fct))
                self.nope.add((ctx, nb, key, k, fct))
                again = True
        j = super().joinhead(a, b, widen, ctx, nb, key, back)
        if again and self.tries.get(ctx, 0) < 12:
            raise Restart(ctx)
        return j

    # -- the collections
    def inline(self, f, name):
        if name in ("MinorGC", "MajorGC"):
            return None
        return super().inline(f, name)

    def call(self, f, ctx, st, name, av, line, site):
        if name in ("MinorGC", "MajorGC"):
            self.check(st, f, name, av, line)
            return [(st, frozenset([("void",)]))]
        if name in ("__builtin_va_start", "__builtin_va_end"):
            return [(st, frozenset([("void",)]))]
        if name in ("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove") and len(av) == 3 and len(av[0]) == len(av[1]) == len(av[2]) == 1:
            (d,), (s,), (n,) = av
            if d[0] == "&" and self.rooty(d[1]) and s[0] == "&" and s[1][0] == "E" and not badidx(n):
                ln = lin(n)
                if all(c % 8 == 0 for c in list(ln.a.values()) + [ln.k]):
                    ln = Lin({a: c // 8 for a, c in ln.a.items()}, ln.k // 8)
                    key = ("RS", d[1][1])
                    N = fromlin(ln)
                    st.env[key] = frozenset(x for x in st.env.get(key, frozenset()) if x[0] == "each" or x[0] == "at" and
                                            self.prove(st, lin(d[1][2]) - lin(x[1]) + Lin(None, -1)) is True) | \
                        {("each", d[1][2], ("len", N), ("ld", ("E", s[1][1], fromlin(lin(s[1][2]) + Lin({BOUND: 1})))))}
                    return [(st, av[0])]
        return super().call(f, ctx, st, name, av, line, site)

    def is_reg(self, v, field, idx=None):
        if v[0] != "&":
            return False
        l = v[1]
        if l[0] == "E" and idx is not None and l[2] == ("i", idx):
            l = l[1]
        elif idx is not None and idx != 0:
            return False
        return l[0] == "F" and l[2] == field and (l[1] == self.state_loc or l[1][0] == "P" and l[1][1] == self.state_loc[1])

    def check(self, st, f, name, av, line):
        probs = []
        key = (self.entryname, name, f.file, line, self.ctxname())
        r = av[1]
        if len(r) != 1 or next(iter(r))[0] != "&" or next(iter(r))[1][0] != "E" or next(iter(r))[1][2] != ("i", 0):
            self.found[key] = ["the root vector handed over is not known"]
            return
        base = next(iter(r))[1][1]
        facts = st.env.get(("RS", base), frozenset())
        ats = [x for x in facts if x[0] == "at"]
        each = [(x[0], x[1], trips(x[2]), x[3]) for x in facts if x[0] == "each"]
        nil = [x for x in ats if x[2] in (("i", 0), ("zero",))]
        vals = [x for x in ats if x not in nil]

        def have(field, i=None):
            if any(self.is_reg(x[2], field, i) for x in vals):
                return True
            for _, a, n, v in each:
                if i is not None and v[0] == "&" and v[1][0] == "E" and v[1][1][0] == "F" and v[1][1][2] == field:
                    l = lin(v[1][2])
                    if l.a.get(BOUND) == 1 and len(l.a) == 1 and l.k <= i and self.prove(st, lin(n) + Lin(None, l.k - i - 1)) is True:
                        return True
            return False
        for r_ in REGS:
            if not have(r_):
                probs.append("the register %s is not among the roots" % r_)
        for i in range(NOSAVE):
            if not have("ml_calleeSave", i):
                probs.append("the callee-save register %d is not among the roots" % i)
        if name == "MajorGC" or self.entryname == "InvokeGC":
            if not have("ml_linkReg"):
                probs.append("the link register is not among the roots")
        if name == "MajorGC" and self.entryname == "InvokeGCWithRoots" and not have("ml_pc"):
            probs.append("the program counter is not among the roots")
        if not any(self.croots(st, x) for x in each):
            probs.append("not every registered C root (CRoots[0..NumCRoots-1]) is among the roots")
        if self.entryname == "InvokeGCWithRoots" and not any(x[3] == ("va",) for x in each):
            probs.append("not every extra root of the caller is among the roots")
        ends = [x for x in nil if all(self.prove(st, lin(x[1]) - lin(y[1]) + Lin(None, -1)) is True for y in vals)
                and all(self.prove(st, lin(x[1]) - lin(y[1]) - lin(y[2])) is True for y in each)]
        if not ends:
            probs.append("the root vector is not terminated by NIL after its last entry")
        elif not probs:
            e = ends[0]
            n = Lin(None, len([x for x in vals]))
            for y in each:
                n = n + lin(y[2])
            d = lin(e[1]) - n
            if (d.a or d.k) and self.prove(st, d + Lin(None, -1)) is True:
                probs.append("the root vector has entries that were never set")
        self.found[key] = probs

    def croots(self, st, x):
        _, a, n, v = x
        v = strip(v)
        if v[0] not in ("ld", "ldi") or v[1][0] != "E" or v[1][1] != ("G", "CRoots"):
            return False
        N = Lin({("ldi", ("G", "NumCRoots")): 1})
        l = lin(v[1][2])
        ks = [y for y in l.a if y == BOUND]
        if len(ks) != 1:
            return False
        if l.a[ks[0]] == 1:
            rest = l - Lin({ks[0]: 1})
            return self.prove(st, Lin() - rest) is True and self.prove(st, lin(n) + rest - N) is True
        if l.a[ks[0]] == -1:
            rest = l + Lin({ks[0]: 1})
            return self.prove(st, rest - N + Lin(None, 1)) is True and self.prove(st, lin(n) - rest + Lin(None, -1)) is True
        return False

    def on_bump(self, st, f, line, old, new):
        st.env[("XA",)] = new
        super().on_bump(st, f, line, old, new)

    def on_store(self, st, f, line, loc, val):
        super().on_store(st, f, line, loc, val)
        if loc[0] == "E" and loc[1] == ("G", "CRoots"):
            self.table.append((f, line, loc[2], val))
        elif loc == ("G", "NumCRoots"):
            self.table.append((f, line, None, val))

    def on_return(self, st, f, val, line):
        if f.name == self.entryname and len(self.stack) == 1:
            self.end.append((st, line))


def check(c):
    from . import program
    c.rule = ("at each MinorGC/MajorGC call the root vector provably holds every ML register, every registered C root and every "
              "extra root, is NIL-terminated and has no holes; afterwards allocation restarts at the arena's base with its limit")
    P = program.Program()
    tot = 0
    for en in ("InvokeGC", "InvokeGCWithRoots"):
        f = [g for g in P.funcs.values() if g.name == en]
        c.require(len(f) == 1, "no " + en)
        w = Roots(P)
        w.entryname = en
        w.state_loc = ("P", ("arg", 0, "msp"), ("i", 0))
        run(w, f[0])
        c.require(any(k[1] == "MinorGC" for k in w.found) and any(k[1] == "MajorGC" for k in w.found), "no collections found in " + en)
        for (e, name, file, line, _), probs in sorted(w.found.items()):
            tot += 1
            c.ob(not probs, "%s -> %s at %s:%d" % (e, name, file, line))
            for p in probs:
                c.violation("%s|%s|%s" % (e, name, p), "base/runtime/%s:%d" % (file, line), "%s: at the call of %s %s" % (e, name, p))
        for st, line in w.end:
            for what, got, want in (("allocation pointer", st.env.get(("XA",), frozenset([TOP])), alloc_ok),
                                    ("limit pointer", st.env.get(("F", w.state_loc, "ml_limitPtr"), frozenset([TOP])), limit_ok)):
                good = all(want(t) for t in got)
                tot += 1
                c.ob(good, "%s %s on return" % (en, what))
                if not good:
                    c.violation("%s|%s" % (en, what), "base/runtime/%s:%d" % (f[0].file, line),
                                "%s may return with a %s that is not that of the emptied allocation arena" % (en, what))
    tot += registered(c, P)
    c.cov.update(obligations=tot)


def heap_fields(l):
    """fields of the heap structure a linear form adds up, or None"""
    out = []
    for a, n in l.a.items():
        a = strip(a)
        if n != 1 or a[0] not in ("ld", "ldi") or a[1][0] != "F":
            return None
        out.append(a[1][2])
    return sorted(out)


def alloc_ok(t):
    l = lin(t)
    return l.k == 0 and heap_fields(l) == ["allocBase"]


def limit_ok(t):
    l = lin(t)
    return t == ("i", 0) or heap_fields(l) == ["allocBase", "allocSzB"] and l.k <= -8 * (1024 + 128)


CELLS = ["_PervStruct", "_MLSignalHandler", "_MLPollHandler"]      # ref cells the program can assign objects to
CALLER = {"BinFileList": "boot only: passed as an extra root at every collection that can happen while it is live"}


def addr_of(e):
    """(global, index) an address constant names"""
    if e[0] == "cast":
        return addr_of(e[2])
    if e[0] == "addr":
        x = e[1]
        if x[0] == "var":
            return x[1], 0
        if x[0] == "idx" and x[1][0] == "var" and x[2][0] == "int":
            return x[1][1], x[2][1]
    if e[0] == "bin" and e[1] == "+" and e[3][0] == "int":
        b = addr_of(e[2]) or (e[2][0] == "var" and (e[2][1], 0))
        return (b[0], b[1] + e[3][1]) if b else None
    return None


def registered(c, P):
    """C globals that hold ML values are in the table of C roots"""
    n = 0
    tab = [(k, v) for k, v in P.ginit.items() if k[1] == "g:CRoots"]
    num = [(k, v) for k, v in P.ginit.items() if k[1] == "g:NumCRoots"]
    c.require(len(tab) == 1 and len(num) == 1 and isinstance(tab[0][1], list), "the table of C roots was not found")
    (file, _), init = tab[0]
    ent = [addr_of(e) for e in init if e not in (("int", 0), ("cast", "ml_val_t *", ("int", 0)))]
    n += 1
    ok = num[0][1] == ("int", len(ent))
    c.ob(ok, "NumCRoots is the number of entries")
    if not ok:
        c.violation("NumCRoots|init", "base/runtime/" + file, "NumCRoots is not initialised to the number of entries of CRoots")
    dyn, writers = set(), set()
    sets = {}
    for f in P.funcs.values():
        for b in f.blocks:
            for ins in b.ins:
                if ins[0] != "asg":
                    continue
                lv, e = ins[1], ins[2]
                if lv[0] == "idx" and lv[1] == ("var", "g:CRoots") or lv == ("var", "g:NumCRoots"):
                    writers.add(f)
                if lv[0] == "idx" and lv[1] == ("var", "g:CRoots"):
                    a = addr_of(e)
                    if a:
                        dyn.add(a[0])
                if lv[0] == "var" and lv[1].startswith("g:") and P.globals.get(lv[1]) == "ml_val_t" and not const(e):
                    sets.setdefault(lv[1], []).append((f, ins[3]))
    # changes of the table: a root is appended at NumCRoots, or the last one moves into the place of one removed
    N = Lin({("ldi", ("G", "NumCRoots")): 1})
    for f in sorted(writers, key=lambda f: (f.file, f.name)):
        w = Roots(P)
        w.entryname, w.state_loc = f.name, None
        w.run(f)
        last = {}
        for g, line, idx, val in w.table:
            last[(g.file, g.name, line, idx is None)] = (idx, val)
        for (file_, name, line, cnt), (idx, val) in sorted(last.items(), key=lambda x: x[0]):
            n += 1
            if cnt:
                ok = all((lin(t) - N).key() in (Lin(None, 1).key(), Lin(None, -1).key()) for t in val)
                what = "changes the number of C roots by something other than one"
                if ok and any((lin(t) - N).key() == Lin(None, -1).key() for t in val) and not any(
                        strip(t)[0] in ("ld", "ldi") and strip(t)[1][0] == "E" for k, (i, v) in last.items() if not k[3] for t in v):
                    ok, what = False, "drops the last C root without keeping it in the place of the removed one"
            else:
                ok = True
                what = "puts something into the table of C roots that is neither a new root at its end nor its last entry"
                for t in val:
                    t = strip(t)
                    if t[0] == "&":
                        ok = ok and not badidx(idx) and (lin(idx) - N).key() == Lin().key()
                    elif t[0] in ("ld", "ldi") and t[1][0] == "E" and t[1][1] == ("G", "CRoots"):
                        ok = ok and not badidx(t[1][2]) and (lin(t[1][2]) - N).key() == Lin(None, -1).key()
                    else:
                        ok = ok and t in (("i", 0), ("zero",)) and not badidx(idx) and (lin(idx) - N).key() in (Lin().key(), Lin(None, -1).key())
            c.ob(ok, "%s:%d change of the table of C roots" % (file_, line))
            if not ok:
                c.violation("%s|table|%s" % (name, what), "base/runtime/%s:%d" % (file_, line), "%s %s" % (name, what))
    have = {a for a in ent if a}
    for g, where in sorted(sets.items()):
        if g[2:] in CALLER:
            continue
        n += 1
        ok = (g, 0) in have or g in dyn
        c.ob(ok, "global %s is a registered root" % g[2:])
        if not ok:
            c.violation("%s|unregistered" % g[2:], "base/runtime/%s:%d" % (where[0][0].file, where[0][1]),
                        "%s stores an ML value in the C global %s, which is not among the C roots" % (where[0][0].name, g[2:]))
    for g in CELLS:
        if "g:" + g not in P.globals:
            continue
        n += 1
        ok = ("g:" + g, 1) in have
        c.ob(ok, "cell %s is a registered root" % g)
        if not ok:
            c.violation("%s|unregistered" % g, "base/runtime/" + file, "the contents of the cell %s are not among the C roots" % g)
    return n


def const(e):
    if e[0] == "cast":
        return const(e[2])
    if e[0] == "bin":
        return const(e[2]) and const(e[3])
    return e[0] in ("int", "unk")


def run(w, f):
    w.run(f)
