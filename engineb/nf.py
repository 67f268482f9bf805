"""Guarded value provenance for SML functions.

For every function value: the set of cases (conditions on its inputs and on what the system answered), and for each case
the system calls made with the provenance of every argument, and the provenance of the result.  Helpers are inlined, local
names, order of tests and shape of the code do not matter; two functions are compared case by case."""
from . import sml

MAXP = 400


class TooBig(Exception):
    pass


class Clo:
    __slots__ = ("unit", "rules", "env", "name")

    def __init__(self, unit, rules, env, name=""):
        self.unit, self.rules, self.env, self.name = unit, rules, env, name


class PyFn:
    """built-in function value"""
    __slots__ = ("f", "name")

    def __init__(self, f, name):
        self.f, self.name = f, name


TRUE, FALSE = ("con", "true", None), ("con", "false", None)
UNIT = ("rec", ())
PUREPRIM_SKIP = {"cast", "inl_identity"}
# conversions that do not change the number on 64-bit targets are kept: they are part of what is passed on
EFFPRIM = {":=", "!", "callcc", "throw", "getvar", "setvar", "gethdlr", "sethdlr", "arr_update", "arr_sub", "capture", "escape",
           "unboxedupdate"}


def tup(*xs):
    return ("rec", tuple((str(i + 1), x) for i, x in enumerate(xs)))


class NF:
    def __init__(self, prog, inline):
        self.P = prog
        self.inline = inline            # predicate on file names
        self.globs = {}
        self.effm = {}
        self.weak = {}
        self.depth = 0
        self.fresh = 0
        self.recs = {}
        self.steps = 0

    # ---- effects of opaque functions
    def effectful(self, u, lv, seen=None):
        k = (u.pid, lv)
        if k in self.effm:
            return self.effm[k]
        if seen is None:
            seen = set()
        if k in seen:
            return False
        seen.add(k)
        d = u.defs.get(lv)
        r = False
        if d and d[0] in ("val", "fun"):
            r = self.effexp(u, d[-1], seen)
        elif d and d[0] == "param":
            r = False
        if len(seen) == 1 or r:
            self.effm[k] = r
        return r

    def effexp(self, u, e, seen):
        if e[0] == "v":
            p = e[4]
            if p and "<" not in p[:1]:
                return p in EFFPRIM or "update" in p
            v = self.P.value(u, e[2])
            if v is None:
                return False
            if v[0].file.endswith("cinterface.sml"):
                return True
            if v[0] is u and v[2] is None:
                return False
            return self.effectful(v[0], v[1], seen)
        for c in sml.children(e):
            if self.effexp(u, c, seen):
                return True
        return False

    # ---- weak identity of loops
    def loopid(self, u, e):
        out = set()
        seen = set()

        def see(x):
            if x[0] == "s":
                out.add("s:" + x[2])
            elif x[0] == "v" and not (x[4] and "<" not in x[4][:1]):
                v = self.P.value(u, x[2])
                if v and v[2] and v[2][0] == "val" and v[2][2][0] == "app":
                    t = self.globval(v[0], v[1])
                    if t[0] == "cf":
                        out.add("c:" + t[1])
                elif v and v[2] and (v[2][0] == "fun" or v[2][0] == "val" and v[2][2][0] == "fn"):
                    if v[0] is u:
                        if v[1] not in seen:
                            seen.add(v[1])
                            sml.walk(v[2][-1], see)
                    elif v[0].file.startswith("base/system/Basis/") and self.inline(v[0].file) and not v[0].file.endswith("/option.sml"):
                        out.add("f:" + v[0].names.get(v[1], "?"))
        sml.walk(e, see)
        return tuple(sorted(out))

    # ---- terms
    def isrec(self, bs):
        names = {b[0] for b in bs}
        found = []

        def see(x):
            if x[0] == "v" and x[2] in names:
                found.append(x[2])
        for b in bs:
            sml.walk(b[3], see)
        return bool(found)

    def var(self, u, env, e):
        acc, prim = e[2], e[4]
        if prim and not prim.startswith("(") and not prim.startswith("<"):
            return ("primv", prim)
        if acc in env:
            return env[acc]
        v = self.P.value(u, acc)
        if v is None:
            root = acc.split(".")[0]
            if root in env:
                return ("pth", env[root], acc)
            return ("ext", e[3].split(".")[-1])
        vu, lv, d = v
        if vu is u and lv in env:
            return env[lv]
        return self.globval(vu, lv)

    def globval(self, u, lv):
        k = (u.pid or u.file, lv)
        if k in self.globs:
            return self.globs[k]
        d = u.defs.get(lv)
        name = u.names.get(lv, lv)
        ident = ("fn", u.file.rsplit("/", 1)[-1] + ":" + name)
        self.globs[k] = ident
        r = ident
        if u.file.endswith("cinterface.sml") and name == "c_function":
            r = ("pyf", PyFn(self.mkcfun, "c_function"))
        elif d and d[0] == "fun":
            if self.inline(u.file) and not self.selfrec(u, lv):
                r = ("clo", Clo(u, d[1][2], {}, name)) if d[1][0] == "fn" else ident
            else:
                r = ("gfn", ident[1], self.effectful(u, lv))
        elif d and d[0] == "val":
            p, e = d[1], d[2]
            if e[0] == "fn":
                if self.inline(u.file):
                    r = ("clo", Clo(u, e[2], {}, name))
                else:
                    r = ("gfn", ident[1], self.effectful(u, lv))
            elif self.inline(u.file) or p[0] == "v" and "->" not in u.types.get(lv, "->"):
                if not self.inline(u.file):
                    r = ident
                else:
                    r = self.loadval(u, lv, p, e, ident)
            else:
                r = ("gfn", ident[1], self.effectful(u, lv))
        self.globs[k] = r
        return r

    def selfrec(self, u, lv):
        k = ("selfrec", u.pid, lv)
        if k not in self.recs:
            seen = set()

            def reach(l):
                d = u.defs.get(l)
                if not d or d[0] != "fun":
                    return False
                hit = []
                sml.walk(d[1], lambda x: hit.append(x[2]) if x[0] == "v" and x[2].startswith("L") and "." not in x[2] else None)
                for h in hit:
                    if h == lv:
                        return True
                    if h not in seen:
                        seen.add(h)
                        if reach(h):
                            return True
                return False
            self.recs[k] = reach(lv)
        return self.recs[k]

    def loadval(self, u, lv, p, e, ident):
        """value of a top-level val binding, as a term (evaluated once, at load time)"""
        st0 = ((), ())
        try:
            rs = self.eval(u, {}, e, st0)
        except TooBig:
            return ident
        out = []
        for st, k, t in rs:
            if k != "val":
                continue
            for st2, b in self.match(u, p, t, st, {}):
                if b is not None and lv in b:
                    out.append((st2[0], b[lv]))
        if len(out) == 1 and not out[0][0]:
            t = out[0][1]
            if t[0] == "ref":
                return ("gref", ident[1])
            return t
        if out:
            return ("alt", tuple(sorted(((l, self.quote(t)) for l, t in out), key=repr)))
        return ident

    def mkcfun(self, st, a):
        if a[0] == "str":
            lib = a[1]
            return [(st, "val", ("pyf", PyFn(lambda s, b: [(s, "val", ("cf", lib + "." + b[1]) if b[0] == "str" else ("cfx", lib, b))], "cfun")))]
        return [(st, "val", ("pyf", PyFn(lambda s, b: [(s, "val", ("cfx", a, b))], "cfun")))]

    # ---- evaluation
    def eval(self, u, env, e, st):
        self.steps += 1
        if self.steps > 400000:
            raise TooBig()
        op = e[0]
        if op == "v":
            return [(st, "val", self.var(u, env, e))]
        if op == "c":
            return [(st, "val", ("conf", e[2]) if self.confn(e) else ("con", e[2], None))]
        if op == "n":
            return [(st, "val", ("int", e[2]))]
        if op == "s":
            return [(st, "val", ("str", e[2]))]
        if op == "ch":
            return [(st, "val", ("chr", e[2]))]
        if op == "r":
            return [(st, "val", ("real", e[2]))]
        if op == "rec":
            return self.evals(u, env, [x for _, x in e[2]], st,
                              lambda s, ts: [(s, "val", ("rec", tuple(sorted(zip([l for l, _ in e[2]], ts)))))])
        if op == "vec":
            return self.evals(u, env, e[2], st, lambda s, ts: [(s, "val", ("vec", tuple(ts)))])
        if op == "sel":
            return self.bind(self.eval(u, env, e[3], st), lambda s, t: [(s, "val", self.sel(e[2], t))])
        if op == "app":
            f = e[2]
            if f[0] == "c":
                return self.bind(self.eval(u, env, e[3], st), lambda s, t: [(s, "val", self.mkcon(f[2], t, s))])
            return self.bind(self.eval(u, env, e[2], st),
                             lambda s, ft: self.bind(self.eval(u, env, e[3], s), lambda s2, a: self.apply(ft, a, s2)))
        if op == "if":
            return self.bind(self.eval(u, env, e[2], st),
                             lambda s, t: self.branch(s, t, lambda s2: self.eval(u, env, e[3], s2), lambda s2: self.eval(u, env, e[4], s2)))
        if op == "and":
            return self.bind(self.eval(u, env, e[2], st),
                             lambda s, t: self.branch(s, t, lambda s2: self.eval(u, env, e[3], s2), lambda s2: [(s2, "val", FALSE)]))
        if op == "or":
            return self.bind(self.eval(u, env, e[2], st),
                             lambda s, t: self.branch(s, t, lambda s2: [(s2, "val", TRUE)], lambda s2: self.eval(u, env, e[3], s2)))
        if op == "seq":
            if not e[2]:
                return [(st, "val", UNIT)]
            return self.evals(u, env, e[2], st, lambda s, ts: [(s, "val", ts[-1])])
        if op == "fn":
            return [(st, "val", ("clo", Clo(u, e[2], env)))]
        if op == "raise":
            return self.bind(self.eval(u, env, e[2], st), lambda s, t: [(s, "exn", t)])
        if op == "case":
            return self.bind(self.eval(u, env, e[2], st), lambda s, t: self.rules(u, env, e[3], t, s))
        if op == "let":
            return self.decs(u, dict(env), e[2], 0, st, lambda s, env2: self.eval(u, env2, e[3], s))
        if op == "while":
            t = ("while", self.loopid(u, e))
            return [((st[0], st[1] + (t,)), "val", UNIT)]
        if op == "handle":
            return self.handle(u, env, e, st)
        raise TooBig()

    def confn(self, e):
        return False

    def mkcon(self, c, t, st):
        if c == "ref":
            return ("ref", t, len(st[1]))
        return ("con", c, t)

    def bind(self, rs, f):
        out = []
        for s, k, t in rs:
            if k == "val":
                out += f(s, t)
            else:
                out.append((s, k, t))
        if len(out) > MAXP:
            raise TooBig()
        return out

    def evals(self, u, env, es, st, k):
        def go(i, s, acc):
            if i == len(es):
                return k(s, acc)
            return self.bind(self.eval(u, env, es[i], s), lambda s2, t: go(i + 1, s2, acc + [t]))
        return go(0, st, [])

    def decs(self, u, env, ds, i, st, k):
        if i == len(ds):
            return k(st, env)
        d = ds[i]
        if d[0] == "val":
            def after(s, t):
                out = []
                for s2, b in self.match(u, d[2], t, s, {}):
                    if b is None:
                        out.append((s2, "exn", ("con", "Bind", None)))
                    else:
                        env2 = dict(env)
                        env2.update(b)
                        out += self.decs(u, env2, ds, i + 1, s2, k)
                return out
            return self.bind(self.eval(u, env, d[3], st), after)
        if d[0] == "rec":
            env2 = dict(env)
            if self.isrec(d[2]):
                for lv, name, ty, e in d[2]:
                    eff = any(self.effexp(u, b[3], set()) for b in d[2])
                    env2[lv] = ("mu", self.loopid(u, e), eff)
            else:
                for lv, name, ty, e in d[2]:
                    env2[lv] = ("clo", Clo(u, e[2], env2, name)) if e[0] == "fn" else ("ext", name)
            return self.decs(u, env2, ds, i + 1, st, k)
        if d[0] == "str":
            # members of local structures are reached through their own lvars
            inner = d[4]
            ds2 = []
            while inner[0] == "let":
                ds2 += inner[1]
                inner = inner[2]
            if ds2:
                return self.decs(u, env, ds2 + ds[i + 1:], 0, st, k)
        return self.decs(u, env, ds, i + 1, st, k)

    def sel(self, lab, t):
        if t[0] == "rec":
            for l, x in t[1]:
                if l == lab:
                    return x
        return ("sel", lab, t)

    # ---- conditions
    def lookup(self, st, t):
        pos, neg = None, set()
        for lt, sign, v in st[0]:
            if lt == t:
                if sign:
                    pos = v
                else:
                    neg.add(v)
        return pos, neg

    def assume(self, st, t, sign, v):
        return (st[0] + ((t, sign, v),), st[1])

    def branch(self, st, t, yes, no):
        t, pol = self.cond(t)
        if t[0] not in ("con", "test"):
            t = self.quote(t)
        if not pol:
            yes, no = no, yes
        if t == TRUE:
            return yes(st)
        if t == FALSE:
            return no(st)
        if t[0] == "test":
            term, c = t[1], t[2]
            pos, neg = self.lookup(st, term)
            if pos is not None:
                return yes(st) if pos == c else no(st)
            if c in neg:
                return no(st)
            return yes(self.assume(st, term, True, c)) + no(self.assume(st, term, False, c))
        pos, neg = self.lookup(st, t)
        if pos == "true" or "false" in neg:
            return yes(st)
        if pos == "false" or "true" in neg:
            return no(st)
        r = yes(self.assume(st, t, True, "true")) + no(self.assume(st, t, True, "false"))
        if len(r) > MAXP:
            raise TooBig()
        return r

    def cond(self, t):
        pol = True
        while True:
            if t[0] == "prim" and t[1] == "inl_not":
                t, pol = t[2], not pol
                continue
            if t[0] == "prim":
                o, a = t[1], t[2]
                base, _, cmp = o.rpartition("_")
                if a[0] == "rec" and len(a[1]) == 2:
                    x, y = a[1][0][1], a[1][1][1]
                    if cmp == "gt":
                        t = ("prim", base + "_lt", tup(y, x))
                        continue
                    if cmp == "ge":
                        t, pol = ("prim", base + "_lt", tup(x, y)), not pol
                        continue
                    if cmp == "le":
                        t, pol = ("prim", base + "_lt", tup(y, x)), not pol
                        continue
                    if cmp == "neq" or o == "<>":
                        t, pol = ("prim", "=", tup(x, y)), not pol
                        continue
                    if cmp == "eql":
                        t = ("prim", "=", tup(x, y))
                        continue
                    if o == "=":
                        if x == y and x[0] not in ("ref",):
                            return TRUE, pol
                        if x[0] in ("int", "str", "chr") and y[0] in ("int", "str", "chr"):
                            return (TRUE if x == y else FALSE), pol
                        if x[0] == "con" and x[2] is None:
                            x, y = y, x
                        if y[0] == "con" and y[2] is None:
                            if x[0] == "con":
                                return (TRUE if x == y else FALSE), pol
                            if y[1] in ("true", "false"):
                                t, pol = x, pol == (y[1] == "true")
                                continue
                            return ("test", x, y[1]), pol
                        if repr(y) < repr(x):
                            x, y = y, x
                        return ("prim", "=", tup(x, y)), pol
                    if cmp == "lt" and x[0] == "int" and y[0] == "int":
                        return (TRUE if x[1] < y[1] else FALSE), pol
            return t, pol

    # ---- application
    def apply(self, f, a, st):
        k = f[0]
        if k == "clo":
            c = f[1]
            self.depth += 1
            if self.depth > 60:
                self.depth -= 1
                raise TooBig()
            try:
                return self.rules(c.unit, c.env, c.rules, a, st)
            finally:
                self.depth -= 1
        if k == "pyf":
            return f[1].f(st, a)
        if k == "primv":
            return self.prim(f[1], a, st)
        if k == "cf":
            return self.effect(("sys", f[1], a), st)
        if k == "cfx":
            return self.effect(("sysx", f, a), st)
        if k == "mu":
            if f[2]:
                return self.effect(("call", ("mu", f[1]), a), st)
            return self.pcall(("mu", f[1]), a, st)
        if k == "gfn":
            if f[2]:
                return self.effect(("call", ("fn", f[1]), a), st)
            return self.pcall(("fn", f[1]), a, st)
        if k == "pcall":
            return self.pcall(f, a, st)
        if k == "alt":
            return self.effect(("call", f, a), st)
        if k in ("fn", "ext", "pth", "sel", "arg", "bv", "pay", "call", "sys", "get"):
            # unknown function value (a parameter): its effects are unknown
            return self.effect(("call", f, a), st)
        return self.effect(("call", f, a), st)

    def pcall(self, f, a, st):
        q = self.quote(a)
        if impure(q):
            return self.effect(("call", f, q), st)
        return [(st, "val", ("pcall", f, q))]

    def effect(self, t, st):
        t = tuple(self.quote(x) if isinstance(x, tuple) else x for x in t)
        n = sum(1 for x in st[1] if x[:3] == t)
        t = t + (n,)
        return [((st[0], st[1] + (t,)), "val", t)]

    def prim(self, p, a, st):
        if p in PUREPRIM_SKIP or p == "seq_data":
            return [(st, "val", a)]
        if p == "inl_ignore":
            return [(st, "val", UNIT)]
        if p == "inl_before":
            return [(st, "val", self.sel("1", a))]
        if p == "inl_compose":
            f, g = self.sel("1", a), self.sel("2", a)
            return [(st, "val", ("pyf", PyFn(lambda s, x: self.bind(self.apply(g, x, s), lambda s2, y: self.apply(f, y, s2)), "o")))]
        if p == "!":
            return self.deref(a, st)
        if p == ":=":
            return [((st[0], st[1] + (("set", self.quote(self.sel("1", a)), self.quote(self.sel("2", a)), len(st[1])),)), "val", UNIT)]
        if p == "inl_not":
            if a in (TRUE, FALSE):
                return [(st, "val", FALSE if a == TRUE else TRUE)]
            if a[0] == "prim" and a[1] == "inl_not":
                return [(st, "val", a[2])]
            return [(st, "val", ("prim", p, a))]
        if p in EFFPRIM or "update" in p:
            return self.effect(("eff", p, a), st)
        if a[0] == "rec" and len(a[1]) == 2 and a[1][0][1][0] == "int" and a[1][1][1][0] == "int":
            x, y = a[1][0][1][1], a[1][1][1][1]
            r = {"int_add": x + y, "int_sub": x - y, "int_mul": x * y}.get(p)
            if r is not None:
                return [(st, "val", ("int", r))]
        if a[0] == "int" and p == "int_neg":
            return [(st, "val", ("int", -a[1]))]
        a = self.quote(a)
        if p.rpartition("_")[2] in ("add", "mul", "orb", "andb", "xorb") and a[0] == "rec" and len(a[1]) == 2:
            x, y = a[1][0][1], a[1][1][1]
            if repr(y) < repr(x):
                a = tup(y, x)
        return [(st, "val", ("prim", p, a))]

    def deref(self, a, st):
        n = 0
        qa = None
        for x in reversed(st[1]):
            if x[0] == "set":
                qa = qa or self.quote(a)
                if x[1] == qa:
                    return [(st, "val", x[2])]
        if a[0] == "ref" and not any(x[0] in ("call", "set") for x in st[1][a[2]:]):
            return [(st, "val", a[1])]
        n = sum(1 for x in st[1] if x[0] in ("set", "call"))
        return [(st, "val", ("get", self.quote(a), n))]

    # ---- pattern matching
    def rules(self, u, env, rules, t, st):
        out = []
        states = [st]
        for p, e in rules:
            nxt = []
            for s in states:
                for s2, b in self.match(u, p, t, s, {}):
                    if b is None:
                        nxt.append(s2)
                    else:
                        env2 = dict(env)
                        env2.update(b)
                        out += self.eval(u, env2, e, s2)
                        if len(out) > MAXP:
                            raise TooBig()
            states = nxt
            if not states:
                break
        return out

    def match(self, u, p, t, st, b):
        """-> list of (state, bindings or None when the pattern fails)"""
        op = p[0]
        if op == "_":
            return [(st, b)]
        if op == "v":
            return [(st, dict(b, **{p[1]: t}))]
        if op == "as":
            out = []
            for s, b2 in self.match(u, p[1], t, st, b):
                out += [(s, None)] if b2 is None else self.match(u, p[2], t, s, b2)
            return out
        if op == "or":
            out = []
            for s, b2 in self.match(u, p[1], t, st, b):
                out += self.match(u, p[2], t, s, b) if b2 is None else [(s, b2)]
            return out
        if op == "rec":
            cur = [(st, b)]
            out = []
            for l, q in p[1]:
                nxt = []
                for s, b2 in cur:
                    for s2, b3 in self.match(u, q, self.sel(l, t), s, b2):
                        (out if b3 is None else nxt).append((s2, b3))
                cur = nxt
            return out + cur
        if op in ("n", "s", "ch"):
            lit = ({"n": "int", "s": "str", "ch": "chr"}[op], p[1])
            return self.branch(st, ("prim", "=", tup(t, lit)), lambda s: [(s, b)], lambda s: [(s, None)])
        if op == "c" or op == "app":
            c = p[1] if op == "c" else p[1][0]
            sub = None if op == "c" else p[2]
            if c == "ref":
                out = []
                for s, _, v in self.deref(t, st):
                    out += self.match(u, sub, v, s, b)
                return out
            if c in ("true", "false"):
                y, n = (lambda s: [(s, b)]), (lambda s: [(s, None)])
                return self.branch(st, t, y, n) if c == "true" else self.branch(st, t, n, y)
            if t[0] == "con":
                if t[1] != c:
                    return [(st, None)]
                return self.match(u, sub, t[2] if t[2] is not None else UNIT, st, b) if sub else [(st, b)]
            qt = self.quote(t) if t[0] in ("clo", "pyf") else t
            pos, neg = self.lookup(st, qt)
            single = self.single(u, p)
            pay = ("pay", c, t)
            if single or pos == c:
                return self.match(u, sub, pay, st, b) if sub else [(st, b)]
            if pos is not None or c in neg:
                return [(st, None)]
            s1 = self.assume(st, qt, True, c)
            yes = self.match(u, sub, pay, s1, b) if sub else [(s1, b)]
            alt = self.siblings(u, p)
            if alt and alt <= neg | {c}:
                return yes
            return yes + [(self.assume(st, qt, False, c), None)]
        if op == "vec":
            s1 = self.assume(st, ("veclen", t), True, str(len(p[1])))
            cur = [(s1, b)]
            for i, q in enumerate(p[1]):
                cur = [y for s, b2 in cur for y in (self.match(u, q, ("velt", t, i), s, b2) if b2 is not None else [(s, b2)])]
            return cur + [(self.assume(st, ("veclen", t), False, str(len(p[1]))), None)]
        return [(st, b)]

    def siblings(self, u, p):
        name = p[1] if p[0] == "c" else p[1][0]
        tyc = p[2] if p[0] == "c" else p[1][1]
        rep = p[3] if p[0] == "c" else p[1][2]
        if name in ("SOME", "NONE"):
            return {"SOME", "NONE"}
        if name in ("LESS", "EQUAL", "GREATER"):
            return {"LESS", "EQUAL", "GREATER"}
        if name in ("::", "nil"):
            return {"::", "nil"}
        if rep.startswith("X"):
            return None
        k = ("sib", name, tyc)
        if k not in self.recs:
            base = tyc.split(".")[0]
            cands = []
            for un in self.P.units:
                for tn, cs in un.cons.items():
                    if tn.split(".")[0] == base and any(c[0] == name for c in cs):
                        cands.append(frozenset(c[0] for c in cs))
            self.recs[k] = set(cands[0]) if cands and all(c == cands[0] for c in cands) else None
        return self.recs[k]

    def single(self, u, p):
        s = self.siblings(u, p)
        return s is not None and len(s) == 1

    def handle(self, u, env, e, st):
        body = self.eval(u, env, e[2], st)
        out = []
        mayraise = []
        for s, k, t in body:
            new = s[1][len(st[1]):]
            if k == "val":
                if new:
                    mayraise.append((s, new))
                    s = self.assume(s, ("raises", new), True, "false")
                out.append((s, k, t))
            else:
                out += self.handlers(u, env, e[3], t, s)
        seen = set()
        for s, new in mayraise:
            if new in seen:
                continue
            seen.add(new)
            s2 = self.assume(s, ("raises", new), True, "true")
            out += self.handlers(u, env, e[3], ("exnof", new), s2)
        return out

    def handlers(self, u, env, rules, t, st):
        out = []
        states = [st]
        for p, e in rules:
            nxt = []
            for s in states:
                for s2, b in self.match(u, p, t, s, {}):
                    if b is None:
                        nxt.append(s2)
                    else:
                        env2 = dict(env)
                        env2.update(b)
                        out += self.eval(u, env2, e, s2)
            states = nxt
        out += [(s, "exn", t) for s in states]
        return out

    # ---- quoting closures
    def quote(self, t):
        k = t[0]
        if k in ("clo", "pyf", "cf", "mu", "gfn", "primv", "cfx"):
            if k == "cf":
                return ("lam", ((((), (("sys", t[1], ("bv", 0), 0),), "val", ("sys", t[1], ("bv", 0), 0)),)))
            if k == "primv":
                return ("primv", t[1])
            if k == "mu":
                return ("mu", t[1])
            if k == "gfn":
                return ("fn", t[1])
            if k == "cfx":
                return t
            return self.lam(t)
        if k == "rec":
            return ("rec", tuple((l, self.quote(x)) for l, x in t[1]))
        if k == "con":
            return ("con", t[1], self.quote(t[2]) if t[2] is not None else None)
        if k == "vec":
            return ("vec", tuple(self.quote(x) for x in t[1]))
        if k == "ref":
            return ("ref", self.quote(t[1]), 0)
        if k in ("sel", "pay"):
            return (k, t[1], self.quote(t[2]))
        if k == "prim":
            return ("prim", t[1], self.quote(t[2]))
        if k == "pth":
            return ("pth", self.quote(t[1]), t[2].split(".", 1)[1])
        return t

    def lam(self, f):
        self.fresh += 1
        lvl = self.fresh
        try:
            rs = self.apply(f, ("bv", lvl - 1), ((), ()))
        finally:
            self.fresh -= 1
        return ("lam", self.paths(rs))

    def paths(self, rs):
        out = set()
        for s, k, t in rs:
            q = self.quote(t)
            out.add((tuple(sorted(set((self.quote(a), b, c) for a, b, c in s[0]), key=repr)), s[1], k, q))
        return tuple(sorted(out, key=repr))

    def summary(self, u, lv):
        self.steps = 0
        self.depth = 0
        self.fresh = 0
        try:
            return self.quote(self.globval(u, lv))
        except TooBig:
            d = u.defs.get(lv)
            return ("weak", self.loopid(u, d[-1]))
        except RecursionError:
            d = u.defs.get(lv)
            return ("weak", self.loopid(u, d[-1]))


def impure(t):
    """a function value with effects occurs in t"""
    if isinstance(t, tuple):
        if t and t[0] == "lam":
            return any(p[1] for p in t[1])
        if t and t[0] in ("sys", "call", "eff"):
            return False
        return any(impure(x) for x in t)
    return False


# ---- comparison
def compatible(a, b):
    d = {}
    for t, sign, v in tuple(a) + tuple(b):
        pos, neg = d.setdefault(t, [set(), set()])
        (pos if sign else neg).add(v)
    for pos, neg in d.values():
        if len(pos) > 1 or pos & neg:
            return False
        if {"true", "false"} <= neg:
            return False
    return True


def same(a, b, why=None):
    """None when equal, else a short description of the difference"""
    if a == b or loop(b) != loop(a):
        return None
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return "%s instead of %s" % (show(b), show(a))
    if a and b and a[0] == "lam" and b[0] == "lam":
        return samepaths(a[1], b[1])
    if a and b and isinstance(a[0], str) and a[0] == b[0] and len(a) == len(b):
        for x, y in zip(a[1:], b[1:]):
            r = same(x, y)
            if r:
                if a[0] in ("sys", "call", "pcall", "con", "prim"):
                    return r
                return r
        return None
    if len(a) == len(b) and not (a and isinstance(a[0], str)):
        for x, y in zip(a, b):
            r = same(x, y)
            if r:
                return r
        return None
    return "%s instead of %s" % (show(b), show(a))


def loop(t):
    """a value computed by a local recursive function: not compared with one computed by a library iterator"""
    while isinstance(t, tuple) and t and t[0] in ("call", "pcall", "sel", "pay"):
        t = t[2] if t[0] in ("sel", "pay") else t[1]
    return isinstance(t, tuple) and bool(t) and t[0] == "mu"


def samepaths(A, B):
    known = {t for l, _, _, _ in A for t, _, _ in l}
    knownb = {t for l, _, _, _ in B for t, _, _ in l}
    if any(map(loop, known)) != any(map(loop, knownb)):
        B = [b for b in B if not any(loop(t) for t, _, _ in b[0])]
        A = [a for a in A if not any(loop(t) for t, _, _ in a[0])]
    if not A or not B:
        return None
    usedb = set()
    for la, ea, ka, ta in A:
        hit = False
        for i, (lb, eb, kb, tb) in enumerate(B):
            if not compatible(la, lb):
                continue
            hit = True
            usedb.add(i)
            if ka != kb:
                return "when %s: %s instead of %s" % (lits(la), "raises " + show(tb) if kb == "exn" else "returns " + show(tb),
                                                      "raising " + show(ta) if ka == "exn" else "returning " + show(ta))
            r = sameeffs(ea, eb)
            if r:
                return "when %s: %s" % (lits(la), r)
            r = same(ta, tb)
            if r:
                return "when %s: result %s" % (lits(la), r)
        if not hit:
            return "no case for %s" % lits(la)
    for i, (lb, eb, kb, tb) in enumerate(B):
        if i not in usedb:
            return "a case that cannot be told apart before: %s" % lits(lb)
    return None


def sameeffs(ea, eb):
    if ea == eb:
        return None
    if any(loop(x) for x in eb) != any(loop(x) for x in ea):
        return None
    if len(ea) != len(eb):
        na, nb = [x[1] if x[0] == "sys" else x[0] for x in ea], [x[1] if x[0] == "sys" else x[0] for x in eb]
        return "performs %s instead of %s" % (nb, na)
    for x, y in zip(ea, eb):
        r = same(x, y)
        if r:
            return "passes %s" % r
    return None


def lits(l):
    return " and ".join("%s %s %s" % (show(t), "is" if s else "is not", v) for t, s, v in l) or "always"


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if d > 5:
        return ".."
    k = t[0] if t else ""
    if k == "rec":
        return "(" + ", ".join(show(x, d + 1) for _, x in t[1]) + ")"
    if k == "sel":
        return "#%s %s" % (t[1], show(t[2], d + 1))
    if k == "bv":
        return "argument" if t[1] == 0 else "argument%d" % (t[1] + 1)
    if k == "pay":
        return show(t[2], d + 1) + "." + t[1]
    if k == "con":
        return t[1] + ("" if t[2] is None else "(" + show(t[2], d + 1) + ")")
    if k in ("int", "str", "chr", "real"):
        return repr(t[1])
    if k == "sys":
        return "%s%s" % (t[1], show(t[2], d + 1) if t[2][0] == "rec" else "(" + show(t[2], d + 1) + ")")
    if k == "prim":
        return "%s%s" % (t[1], show(t[2], d + 1) if t[2][0] == "rec" else "(" + show(t[2], d + 1) + ")")
    if k in ("call", "pcall"):
        return "%s(%s)" % (show(t[1], d + 1), show(t[2], d + 1))
    if k in ("fn", "ext", "primv"):
        return str(t[1])
    return k + "(" + ", ".join(show(x, d + 1) for x in t[1:]) + ")" if isinstance(k, str) else str(t)[:80]


class Table:
    """hash-consed terms, storable as JSON"""

    def __init__(self):
        self.ids, self.nodes = {}, []

    def intern(self, t):
        if not isinstance(t, tuple):
            return t
        key = tuple(("t", id(x)) if isinstance(x, tuple) else x for x in (self.intern(y) for y in t))
        r = self.ids.get(key)
        if r is None:
            r = tuple(self.intern(y) for y in t)
            self.ids[key] = r
            self.nodes.append(r)
        return r


def dumpterms(d):
    """{name: term} -> JSON-able"""
    tab, idx, nodes = Table(), {}, []

    def go(t):
        if not isinstance(t, tuple):
            return t
        k = tuple(tuple(x) if isinstance(x, list) else ("a", x) for x in (go(y) for y in t))
        if k not in idx:
            idx[k] = len(nodes)
            nodes.append([list(x) if x[0] != "a" else x[1] for x in k])
        return ["r", idx[k]]
    roots = {n: go(t)[1] for n, t in sorted(d.items())}
    return {"nodes": nodes, "roots": roots}


def loadterms(j):
    nodes = []
    for n in j["nodes"]:
        nodes.append(tuple(nodes[x[1]] if isinstance(x, list) else x for x in n))
    return {n: nodes[i] for n, i in j["roots"].items()}
