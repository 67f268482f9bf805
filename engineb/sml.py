"""Typed abstract syntax of the SML sources, with names resolved across compilation units."""
import bisect
from . import front


class Unit:
    def __init__(self, u):
        self.file, self.pid = u["file"], u["pid"]
        self.src = u.get("src", "")
        self.nl = [i for i, c in enumerate(self.src) if c == "\n"]
        self.lvars = ["L%d" % n for n in u["lvars"]]
        self.line = 0
        self.defs = {}          # lvar -> ('val', pat, exp) | ('fun', exp) | ('str', strexp) | ('fct', fctexp) | ('arg',)
        self.names = {}         # lvar -> source name
        self.types = {}         # lvar -> printed type
        self.cons = {}          # datatype name -> [(con, rep, domain)]
        self.decs = self.dec(u["dec"])

    def ln(self, off):
        return bisect.bisect_left(self.nl, off - 1) + 1

    # expressions
    def exp(self, e):
        op = e[0]
        if op == "m":
            old = self.line
            self.line = self.ln(e[1])
            r = self.exp(e[3])
            self.line = old
            return r
        if op == "ty":
            return self.exp(e[1])
        l = self.line
        if op == "v":
            return ("v", l, e[1], e[2] if len(e) > 2 else "", e[3].split("|")[0] if len(e) > 3 else "", e[4] if len(e) > 4 else [], e[5] if len(e) > 5 else "?")
        if op == "c":
            return ("c", l) + tuple(e[1])
        if op == "n":
            return ("n", l, int(e[1].replace("~", "-")), e[2])
        if op in ("s", "ch", "r"):
            return (op, l, e[1])
        if op == "rec":
            return ("rec", l, [(a, self.exp(b)) for a, b in e[1]])
        if op == "sel":
            return ("sel", l, e[1], self.exp(e[2]))
        if op == "vec":
            return ("vec", l, [self.exp(x) for x in e[1]])
        if op in ("app", "and", "or", "while"):
            return (op, l, self.exp(e[1]), self.exp(e[2]))
        if op == "if":
            return ("if", l, self.exp(e[1]), self.exp(e[2]), self.exp(e[3]))
        if op in ("handle", "case"):
            return (op, l, self.exp(e[1]), self.rules(e[2]))
        if op == "raise":
            return ("raise", l, self.exp(e[1]))
        if op == "fn":
            return ("fn", l, self.rules(e[1]), e[2])
        if op == "let":
            ds = self.dec(e[1])
            return ("let", l, ds, self.exp(e[2]))
        if op == "seq":
            return ("seq", l, [self.exp(x) for x in e[1]])
        raise front.FrontError("unknown expression form " + str(op))

    def rules(self, rs):
        return [(self.pat(p), self.exp(e)) for p, e in rs]

    def pat(self, p):
        op = p[0]
        if op == "m":
            return self.pat(p[3])
        if op == "ty":
            return self.pat(p[1])
        if op == "v":
            self.names[p[1]] = p[2]
            self.types[p[1]] = p[4] if len(p) > 4 else "?"
            return ("v", p[1], p[2], p[4] if len(p) > 4 else "?")
        if op == "n":
            return ("n", int(p[1].replace("~", "-")))
        if op in ("s", "ch"):
            return (op, p[1])
        if op == "c":
            return ("c",) + tuple(p[1])
        if op == "rec":
            return ("rec", [(a, self.pat(b)) for a, b in p[1]], p[2])
        if op == "app":
            return ("app", tuple(p[1]), self.pat(p[2]))
        if op == "as":
            return ("as", self.pat(p[1]), self.pat(p[2]))
        if op == "orp":
            return ("or", self.pat(p[1]), self.pat(p[2]))
        if op == "vec":
            return ("vec", [self.pat(x) for x in p[1]])
        return ("_",)

    # declarations -> flat list
    def dec(self, d):
        out = []
        self._dec(d, out)
        return out

    def _dec(self, d, out):
        op = d[0]
        if op == "m":
            old = self.line
            self.line = self.ln(d[1])
            self._dec(d[3], out)
            self.line = old
        elif op == "seq":
            for x in d[1]:
                self._dec(x, out)
        elif op == "local":
            self._dec(d[1], out)
            self._dec(d[2], out)
        elif op == "val":
            for p, e in d[1]:
                q, x = self.pat(p), self.exp(e)
                self.bindpat(q, x)
                out.append(("val", self.line, q, x))
        elif op == "rec":
            bs = []
            for v, e in d[1]:
                self.names[v[0]] = v[1]
                self.types[v[0]] = v[3] if len(v) > 3 else "?"
                x = self.exp(e)
                self.defs[v[0]] = ("fun", x)
                bs.append((v[0], v[1], v[3] if len(v) > 3 else "?", x))
            out.append(("rec", self.line, bs))
        elif op == "do":
            out.append(("val", self.line, ("_",), self.exp(d[1])))
        elif op == "datatype":
            for t in d[1]:
                if isinstance(t[1], list):
                    self.cons[t[0]] = [tuple(c) for c in t[1]]
        elif op == "abstype":
            for t in d[1]:
                if isinstance(t[1], list):
                    self.cons[t[0]] = [tuple(c) for c in t[1]]
            self._dec(d[3], out)
        elif op == "exn":
            for c, c2 in d[1]:
                out.append(("exn", self.line, tuple(c), tuple(c2) if c2 else None))
                if c[2].startswith("XL"):
                    self.defs.setdefault(c[2][1:], ("exn", tuple(c), tuple(c2) if c2 else None))
        elif op == "str":
            for name, acc, se in d[1]:
                s = self.strexp(se)
                self.defs[acc] = ("str", s)
                self.names[acc] = name
                out.append(("str", self.line, name, acc, s))
        elif op == "fct":
            for name, acc, fe in d[1]:
                f = self.fctexp(fe)
                self.defs[acc] = ("fct", f)
                self.names[acc] = name
                out.append(("fct", self.line, name, acc, f))

    def bindpat(self, p, e):
        if p[0] == "v":
            self.defs[p[1]] = ("val", p, e)
        elif p[0] == "as":
            self.bindpat(p[1], e)
            self.bindpat(p[2], e)
        else:
            for a in patvars(p):
                self.defs[a] = ("val", p, e)

    def strexp(self, s):
        op = s[0]
        if op == "var":
            return ("var", s[1])
        if op == "struct":
            return ("struct", s[1])
        if op == "app":
            return ("app", s[1], s[2])
        if op == "let":
            ds = self.dec(s[1])
            return ("let", ds, self.strexp(s[2]))
        raise front.FrontError("structure form " + op)

    def fctexp(self, f):
        op = f[0]
        if op == "var":
            return ("var", f[1])
        if op == "fct":
            self.defs[f[1]] = ("param", f[2])
            return ("fct", f[1], f[2], self.strexp(f[3]))
        if op == "let":
            ds = self.dec(f[1])
            return ("let", ds, self.fctexp(f[2]))
        raise front.FrontError("functor form " + op)


def patvars(p):
    op = p[0]
    if op == "v":
        return [p[1]]
    if op == "rec":
        return [v for _, q in p[1] for v in patvars(q)]
    if op == "app":
        return patvars(p[2])
    if op in ("as", "or"):
        return patvars(p[1]) + patvars(p[2])
    if op == "vec":
        return [v for q in p[1] for v in patvars(q)]
    return []


class Prog:
    def __init__(self, units):
        self.units = [Unit(u) for u in units]
        self.bypid = {u.pid: u for u in self.units if u.pid}
        self.byfile = {}
        for u in self.units:
            self.byfile[u.file] = u

    def resolve(self, unit, acc, depth=0):
        """access -> (unit, lvar) of the value, structure or functor it denotes; None when outside the program"""
        if depth > 40:
            return None
        parts = acc.split(".")
        root = parts[0]
        if root.startswith("E"):
            u = self.bypid.get(root[1:])
            if not u or len(parts) < 2:
                return None
            i = int(parts[1])
            if i >= len(u.lvars):
                return None
            return self.path(u, u.lvars[i], parts[2:], depth)
        if root.startswith("L"):
            return self.path(unit, root, parts[1:], depth)
        return None

    def path(self, u, lv, rest, depth):
        if not rest:
            d = u.defs.get(lv)
            if d and d[0] == "str":
                s = d[1]
                while s[0] == "let":
                    s = s[2]
                if s[0] == "var":
                    return self.resolve(u, s[1], depth + 1) or (u, lv)
            return (u, lv)
        d = u.defs.get(lv)
        if not d or d[0] != "str":
            return None
        s = d[1]
        while s[0] == "let":
            s = s[2]
        i = int(rest[0])
        if s[0] == "var":
            return self.resolve(u, s[1] + "." + ".".join(rest), depth + 1)
        if s[0] == "struct":
            bs = s[1]
            if i >= len(bs):
                return None
            b = bs[i]
            if b[0] in ("v", "s", "f"):
                return self.resolve(u, b[1] + ("." + ".".join(rest[1:]) if rest[1:] else ""), depth + 1)
            return None
        if s[0] == "app":
            f = self.functor(u, s[1])
            if f:
                return self.inbody(f[0], f[1][3], rest, depth + 1)
        return None

    def functor(self, u, acc):
        """the functor an access denotes: (unit, ('fct', param, sig, body))"""
        r = self.resolve(u, acc)
        for _ in range(10):
            if not r:
                return None
            d = r[0].defs.get(r[1])
            if not d or d[0] != "fct":
                return None
            f = d[1]
            while f[0] == "let":
                f = f[2]
            if f[0] == "fct":
                return r[0], f
            r = self.resolve(r[0], f[1])
        return None

    def inbody(self, u, s, rest, depth):
        """path into a functor's result (whatever its argument)"""
        while s[0] == "let":
            s = s[2]
        if s[0] == "var":
            return self.resolve(u, s[1] + "." + ".".join(rest), depth + 1)
        if s[0] == "struct" and int(rest[0]) < len(s[1]):
            b = s[1][int(rest[0])]
            if b[0] in ("v", "s", "f"):
                return self.resolve(u, b[1] + ("." + ".".join(rest[1:]) if rest[1:] else ""), depth + 1)
        if s[0] == "app":
            f = self.functor(u, s[1])
            if f:
                return self.inbody(f[0], f[1][3], rest, depth + 1)
        return None

    def value(self, unit, acc):
        """follow val-aliases: returns (unit, lvar, def) or None"""
        seen = 0
        while seen < 30:
            r = self.resolve(unit, acc)
            if not r:
                return None
            u, lv = r
            d = u.defs.get(lv)
            if d and d[0] == "val" and d[1][0] == "v" and d[2][0] == "v":
                unit, acc = u, d[2][2]
                seen += 1
                continue
            if d and d[0] == "val" and d[1][0] == "v" and d[2][0] == "let":
                # polymorphic/recursive wrapper: let val f = fn ... in f end
                b = d[2][3]
                if b[0] == "v" and b[2].startswith("L"):
                    unit, acc = u, b[2]
                    seen += 1
                    continue
            return u, lv, d
        return None


def walk(e, f):
    """call f on every expression below e"""
    f(e)
    for x in children(e):
        walk(x, f)


def children(e):
    op = e[0]
    if op == "rec":
        return [x for _, x in e[2]]
    if op == "sel":
        return [e[3]]
    if op in ("vec", "seq"):
        return e[2]
    if op in ("app", "and", "or", "while"):
        return [e[2], e[3]]
    if op == "if":
        return [e[2], e[3], e[4]]
    if op in ("handle", "case"):
        return [e[2]] + [x for _, x in e[3]]
    if op == "raise":
        return [e[2]]
    if op == "fn":
        return [x for _, x in e[2]]
    if op == "let":
        return decexps(e[2]) + [e[3]]
    return []


def decexps(ds):
    out = []
    for d in ds:
        if d[0] == "val":
            out.append(d[3])
        elif d[0] == "rec":
            out += [b[3] for b in d[2]]
        elif d[0] == "str":
            out += strexps(d[4])
        elif d[0] == "fct":
            out += fctexps(d[4])
    return out


def strexps(s):
    if s[0] == "let":
        return decexps(s[1]) + strexps(s[2])
    return []


def fctexps(f):
    if f[0] == "fct":
        return strexps(f[3])
    if f[0] == "let":
        return decexps(f[1]) + fctexps(f[2])
    return []


def load(only, extra=()):
    return Prog(front.dump(only, extra))
