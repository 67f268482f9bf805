"""Abstract interpreter for CML's scheduler protocol.

Every path of an operation is followed with lists abstracted to the set of their elements (so that a list is matched
both as empty and as non-empty) and with an abstract scheduler state: inside or outside the atomic region, the current
thread, what has been stored in the shared queues.  Continuations captured by callcc are resumed in every state in
which some path throws to the queue they were put in; the resulting equations are iterated to a fixpoint."""
import sys
from . import sml

sys.setrecursionlimit(100000)
UNIT = ("unit",)
NIL = ("list", frozenset())
TOPU = ("top", "user")
SHARED = ("CHAN", "CELL", "MB", "CVAR", "BAR", "ENROLL", "TID")
QFIELDS = ("front", "rear")
EVCON = ("BEVT", "CHOOSE", "GUARD", "W_NACK")
MAXREC = 3
CUR = ("cur",)


class Unsupported(Exception):
    pass


class St:
    """state of a path"""
    __slots__ = ("atom", "cur", "store", "ev", "h")

    def __init__(self, atom, cur=CUR, store=(), ev=()):
        self.atom, self.cur, self.store, self.ev = atom, cur, store, ev
        self.h = hash((atom, cur, store, ev))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.h == o.h and (self.atom, self.cur, self.store, self.ev) == (o.atom, o.cur, o.store, o.ev)

    def w(self, **kw):
        d = dict(atom=self.atom, cur=self.cur, store=self.store, ev=self.ev)
        d.update(kw)
        return St(**d)

    def e(self, *ev):
        if ev in self.ev and ev[0] in ("r", "rn", "dec", "call"):
            return self
        return self.w(ev=self.ev + (ev,))


def conts(v, out=None):
    """continuations inside a value, with the thread identity stored beside them"""
    out = [] if out is None else out
    if not isinstance(v, tuple) or not v:
        return out
    if v[0] == "k":
        out.append(v)
    elif v[0] == "con":
        if v[2] is not None:
            conts(v[2], out)
    elif v[0] == "rec":
        for _, x in v[1]:
            conts(x, out)
    elif v[0] == "list":
        for x in v[1]:
            conts(x, out)
    return out


def tops(v, out=None):
    out = set() if out is None else out
    if not isinstance(v, tuple) or not v:
        return out
    if v[0] == "top":
        out.add(v[1])
    elif v[0] == "con":
        if v[2] is not None:
            tops(v[2], out)
    elif v[0] == "rec":
        for _, x in v[1]:
            tops(x, out)
    elif v[0] == "list":
        for x in v[1]:
            tops(x, out)
    return out


def depth(v):
    if not isinstance(v, tuple) or not v:
        return 0
    if v[0] == "con":
        return 1 + (depth(v[2]) if v[2] is not None else 0)
    if v[0] == "rec":
        return 1 + max([depth(x) for _, x in v[1]] or [0])
    if v[0] == "list":
        return 1 + max([depth(x) for x in v[1]] or [0])
    if v[0] == "clo":
        return 1 + max([depth(x) for _, x in v[3]] or [0])
    return 0


def sml_all(ds):
    out = []
    for d in ds:
        out.append(d)
        if d[0] == "str":
            x = d[4]
            while x[0] == "let":
                out += sml_all(x[1])
                x = x[2]
    return out


class AI:
    def __init__(self, prog, files):
        self.P = prog
        self.files = files
        self.fns = {}        # fnkey -> (unit, rules, free, line)
        self.R = {}          # slot label -> set of (atom, value)
        self.slots = {}      # continuation id -> {(label, thread id value)}
        self.alias = {}      # label -> labels its items were moved to
        self.iso = {}        # label -> closures
        self.transslots = set()
        self.glob = {}
        self.viol = {}
        self.evchecked = set()
        self.stack = []
        self.op = None
        self.kstack = []
        self.stats = {"calls": 0, "paths": 0, "throws": 0, "writes": 0, "regions": 0, "callcc": 0}
        self.changed = False
        self.constexn = {"Put", "EmptyQ", "Remove", "Unlog", "Match", "Bind", "Subscript", "Div", "Empty", "Option"}
        self.ready = set()
        self.pending = []
        self.handlers = set()
        self.alloc = "?"
        for u in prog.units:
            for d in sml_all(u.decs):
                if d[0] == "exn" and len(d[2]) > 3 and d[2][3] == "":
                    self.constexn.add(d[2][0])

    # ---- closures
    def free(self, u, e):
        used, bound = set(), set()

        def f(x):
            if x[0] == "v":
                used.add(x[2].split(".")[0])
            elif x[0] in ("fn", "case", "handle"):
                for p, _ in (x[2] if x[0] == "fn" else x[3]):
                    bound.update(sml.patvars(p))
            elif x[0] == "let":
                for d in x[2]:
                    if d[0] == "val":
                        bound.update(sml.patvars(d[2]))
                    elif d[0] == "rec":
                        bound.update(b[0] for b in d[2])
        sml.walk(e, f)
        return used - bound

    def mkclo(self, u, e, env, rec=None):
        key = (u.file, id(e))
        if key not in self.fns:
            self.fns[key] = (u, e, sorted(self.free(u, e)), e[1])
        fr = self.fns[key][2]
        cap = tuple((x, env[x]) for x in fr if x in env and (rec is None or x not in rec))
        return ("clo", key, rec, cap)

    # ---- variables
    def lookup(self, u, acc, env, prim, name):
        if acc in env:
            return env[acc]
        r = self.P.value(u, acc)
        if r:
            u2, lv, d = r
            if d is None:
                return TOPU
            return self.globalval(u2, lv, d)
        if prim:
            return ("prim", prim)
        # aliases of primitives (val throw = SMLofNJ.Cont.throw) carry the primitive name at each use
        return ("ext", name)

    def globalval(self, u, lv, d):
        k = (u.file, lv)
        if k in self.glob:
            return self.glob[k]
        if d[0] == "fun":
            # a recursive group at module level
            v = self.mkclo(u, d[1], {})
        elif d[0] == "val":
            e = d[2]
            if e[0] == "fn":
                v = self.mkclo(u, e, {})
            else:
                names = [u.names.get(x, x) for x in sml.patvars(d[1])] or ["_"]
                v = None
                old, self.alloc = getattr(self, "alloc", None), names[0]
                for x in sml.patvars(d[1]):
                    self.glob[(u.file, x)] = ("top", "global:" + u.names.get(x, x))
                outs = [o for o in self.ev(u, e, {}, St("init")) if o[0] == "ret"]
                self.alloc = old
                if outs:
                    for env in self.match(u, d[1], outs[0][1], {}, outs[0][2]):
                        for x, y in env[0].items():
                            self.glob[(u.file, x)] = y
                        break
                v = self.glob.get(k, TOPU)
        elif d[0] == "exn":
            v = TOPU
        else:
            v = TOPU
        self.glob[k] = v
        return v

    # ---- evaluation: list of (kind, value, state); kind in ret exn div thr
    def ev(self, u, e, env, st):
        op = e[0]
        if op == "v":
            if e[4] and e[2] not in env:
                return [("ret", ("prim", e[4]), st)]
            return [("ret", self.lookup(u, e[2], env, e[4], e[3]), st)]
        if op == "c":
            name = e[2]
            if name in ("nil",):
                return [("ret", NIL, st)]
            if name == "ref":
                return [("ret", ("prim", "makeref"), st)]
            if e[4][:1] in "UTX" and not (e[4][:1] == "X" and name in self.constexn):
                return [("ret", ("conf", name), st)]
            return [("ret", ("con", name, None), st)]
        if op == "n":
            return [("ret", ("int", e[2]), st)]
        if op in ("s", "ch", "r"):
            return [("ret", ("str", e[2]), st)]
        if op == "rec":
            if not e[2]:
                return [("ret", UNIT, st)]
            return self.seqev(u, [x for _, x in e[2]], env, st,
                              lambda vs, s: [("ret", ("rec", tuple(sorted(zip([a for a, _ in e[2]], vs)))), s)])
        if op == "vec":
            return self.seqev(u, e[2], env, st, lambda vs, s: [("ret", ("list", frozenset(vs)), s)])
        if op == "sel":
            return self.bind(self.ev(u, e[3], env, st), lambda v, s: [("ret", self.field(v, e[2]), s)])
        if op == "seq":
            return self.seqev(u, e[2], env, st, lambda vs, s: [("ret", vs[-1], s)])
        if op == "fn":
            return [("ret", self.mkclo(u, e, env), st)]
        if op == "let":
            return self.letdecs(u, e[2], 0, dict(env), st, e[3])
        if op == "app":
            def app(vs, s):
                return self.apply(vs[0], vs[1], s, (u, e[1]))
            return self.seqev(u, [e[2], e[3]], env, st, app)
        if op == "if":
            return self.bind(self.ev(u, e[2], env, st), lambda v, s: self.cond(
                v, s, lambda s1: self.ev(u, e[3], env, s1), lambda s1: self.ev(u, e[4], env, s1)))
        if op == "and":
            return self.bind(self.ev(u, e[2], env, st), lambda v, s: self.cond(
                v, s, lambda s1: self.ev(u, e[3], env, s1), lambda s1: [("ret", ("con", "false", None), s1)]))
        if op == "or":
            return self.bind(self.ev(u, e[2], env, st), lambda v, s: self.cond(
                v, s, lambda s1: [("ret", ("con", "true", None), s1)], lambda s1: self.ev(u, e[3], env, s1)))
        if op == "while":
            out = []
            cur = [st]
            for _ in range(MAXREC):
                nxt = []
                for s in cur:
                    for k, v, s1 in self.ev(u, e[2], env, s):
                        if k != "ret":
                            out.append((k, v, s1))
                            continue
                        if v != ("con", "true", None):
                            out.append(("ret", UNIT, s1))
                        if v != ("con", "false", None):
                            for k2, v2, s2 in self.ev(u, e[3], env, s1):
                                if k2 == "ret":
                                    nxt.append(s2)
                                else:
                                    out.append((k2, v2, s2))
                cur = list(dict.fromkeys(nxt))
            return self.dedup(out)
        if op == "case":
            return self.bind(self.ev(u, e[2], env, st), lambda v, s: self.rules(u, e[3], v, env, s, e[1]))
        if op == "handle":
            outs = self.ev(u, e[2], env, st)
            res = [o for o in outs if o[0] != "exn"]
            for k, v, s in outs:
                if k == "exn":
                    res += self.rules(u, e[3], v, env, s, e[1], rethrow=True)
            return self.dedup(res)
        if op == "raise":
            return self.bind(self.ev(u, e[2], env, st), lambda v, s: [("exn", v, s)])
        raise Unsupported(op)

    def seqev(self, u, es, env, st, k):
        def go(i, vs, s):
            if i == len(es):
                return k(vs, s)
            return self.bind(self.ev(u, es[i], env, s), lambda v, s1: go(i + 1, vs + [v], s1))
        return go(0, [], st)

    def bind(self, outs, k):
        res = []
        for kd, v, s in outs:
            if kd == "ret":
                res += k(v, s)
            else:
                res.append((kd, v, s))
        return self.dedup(res)

    def dedup(self, outs):
        return list(dict.fromkeys(outs))

    def cond(self, v, s, t, f):
        if v == ("con", "true", None):
            return t(s)
        if v == ("con", "false", None):
            return f(s)
        return self.dedup(t(s) + f(s))

    def letdecs(self, u, ds, i, env, st, body):
        while i < len(ds):
            d = ds[i]
            i += 1
            if d[0] == "val":
                def cont(v, s, d=d, i=i):
                    res = []
                    for env2, s2 in self.match(u, d[2], v, env, s):
                        res += self.letdecs(u, ds, i, dict(env2), s2, body)
                    return res
                return self.bind(self.ev(u, d[3], env, st), cont)
            if d[0] == "rec":
                names = tuple(b[0] for b in d[2])
                key = ("rec", u.file, id(d))
                if key not in self.fns:
                    fr = set()
                    for b in d[2]:
                        fr |= self.free(u, b[3])
                    self.fns[key] = (u, d, sorted(fr - set(names)), d[1])
                cap = tuple((x, env[x]) for x in self.fns[key][2] if x in env)
                env = dict(env)
                for b in d[2]:
                    env[b[0]] = ("rclo", key, b[0], cap)
            elif d[0] in ("exn", "str", "fct"):
                pass
        return self.ev(u, body, env, st)

    def field(self, v, lab):
        if v[0] == "rec":
            for a, x in v[1]:
                if a == lab:
                    return x
        if v[0] == "top":
            return ("top", self.sublabel(v[1], lab))
        if v[0] == "cfn" and v[1] == "blockarg":
            return dict(v[2]).get(lab, TOPU)
        return TOPU

    def sublabel(self, l, lab):
        if l in SHARED and lab not in QFIELDS and not lab.isdigit():
            return l + "." + lab
        return l

    # ---- matching: list of (env, state)
    def match(self, u, p, v, env, st):
        op = p[0]
        if op == "v":
            env = dict(env)
            env[p[1]] = v
            return [(env, st)]
        if op == "_":
            return [(env, st)]
        if op == "as":
            res = []
            for e1, s1 in self.match(u, p[1], v, env, st):
                res += self.match(u, p[2], v, e1, s1)
            return res
        if op == "or":
            return self.match(u, p[1], v, env, st) + self.match(u, p[2], v, env, st)
        if op == "rec":
            cur = [(env, st)]
            for lab, q in p[1]:
                nxt = []
                for e1, s1 in cur:
                    nxt += self.match(u, q, self.field(v, lab), e1, s1)
                cur = nxt
            return cur
        if op == "n":
            if v[0] == "int" and v[1] != p[1]:
                return []
            return [(env, st)]
        if op in ("s", "ch"):
            return [(env, st)]
        if op == "vec":
            return [(env, st)]
        if op == "c":
            name = p[1]
            if name == "nil":
                return [(env, st)]
            if v[0] == "con":
                return [(env, st)] if v[1] == name else []
            if v[0] == "top":
                return [(env, self.decide(st, v[1], name))]
            return [(env, st)] if v[0] not in ("list",) else []
        if op == "app":
            name = p[1][0]
            if name == "ref":
                res = []
                for x, s1 in self.read(v, st):
                    res += self.match(u, p[2], x, env, s1)
                return res
            if name == "::":
                if v[0] == "list":
                    res = []
                    for x in sorted(v[1], key=repr):
                        res += self.match(u, p[2], ("rec", (("1", x), ("2", v))), env, st)
                    return res
                if v[0] == "top":
                    return self.match(u, p[2], ("rec", (("1", v), ("2", v))), env, st)
                return []
            if v[0] == "con":
                if v[1] != name:
                    return []
                return self.match(u, p[2], v[2] if v[2] is not None else UNIT, env, st)
            if v[0] == "top":
                s1 = self.decide(st, v[1], name)
                return self.match(u, p[2], self.contents(name, v[1]), env, s1)
            return []
        raise Unsupported("pattern " + op)

    def decide(self, st, label, con):
        if label in ("user", "arg") and con not in ("CANCEL", "TRANS"):
            return st
        return st.e("dec", label, con)

    def contents(self, con, label):
        if con == "BEVT":
            return ("list", frozenset([("cfn", "poll")]))
        if con in EVCON:
            return TOPU
        if con in SHARED:
            return ("top", con)
        if con == "ENABLED":
            return ("rec", (("doFn", ("cfn", "do")), ("prio", TOPU)))
        if con == "BLOCKED":
            return ("cfn", "block")
        return ("top", label)

    def rules(self, u, rs, v, env, st, line, rethrow=False):
        res, seen = [], []
        for i, (p, e) in enumerate(rs):
            for env2, s2 in self.match(u, p, v, env, st):
                if p[0] in ("_", "v") and v[0] == "top" and seen:
                    s2 = self.decide(s2, v[1], "_")
                res += self.ev(u, e, env2, s2)
            if p[0] in ("c", "app"):
                seen.append(p)
            if self.total(p, v):
                return self.dedup(res)
        if rethrow:
            res.append(("exn", v, st))
        return self.dedup(res)

    def total(self, p, v):
        """does p always match v?"""
        op = p[0]
        if op in ("v", "_"):
            return True
        if op == "as":
            return self.total(p[1], v) and self.total(p[2], v)
        if op == "rec":
            return all(self.total(q, self.field(v, l)) for l, q in p[1])
        if op == "c" and v[0] == "con":
            return p[1] == v[1]
        if op == "app" and v[0] == "con":
            return p[1][0] == v[1] and self.total(p[2], v[2] if v[2] is not None else UNIT)
        if op == "app" and v[0] == "top" and p[1][0] in SHARED + ("Q", "CVAR"):
            return self.total(p[2], ("top", p[1][0] if p[1][0] in SHARED else v[1]))
        if op == "n" and v[0] == "int":
            return p[1] == v[1]
        if op == "c" and p[1] == "nil" and v == NIL:
            return True
        return False

    # ---- references
    def read(self, r, st):
        if r[0] == "ref":
            for a, x in st.store:
                if a == r[1]:
                    return [(x, st)]
            return [(TOPU, st)]
        if r[0] == "gref":
            l = r[1]
            if l == "atomicState":
                if st.atom == "N":
                    return [(("con", "NonAtomic", None), st)]
                if st.atom == "A":
                    return [(("con", "Atomic", None), st), (("con", "SignalPending", None), st.w(atom="P"))]
                if st.atom == "P":
                    return [(("con", "SignalPending", None), st)]
                return [(TOPU, st)]
            return [(("top", l), self.noteread(l, st))]
        if r[0] == "top":
            return [(("top", r[1]), self.noteread(r[1], st))]
        if r[0] == "cfn" and r[1] == "transId":
            return [(("con", "TRANS", CUR), st)]
        return [(TOPU, st)]

    def noteread(self, l, st):
        if l in ("user", "arg"):
            return st
        return st.e("rn" if st.atom == "N" else "r", l)

    def write(self, r, v, st, where):
        if r[0] == "ref":
            st2 = st.w(store=tuple(sorted([(a, x) for a, x in st.store if a != r[1]] + [(r[1], v)], key=repr)))
            if v == ("con", "CANCEL", None):
                st2 = st2.e("cancel", r)
            for k in conts(v):
                self.place(k, "ref", st, v)
            return st2
        if r[0] == "cfn" and r[1] == "transId":
            return st.e("cancel", "transId") if v == ("con", "CANCEL", None) else st
        l = r[1] if r[0] in ("gref", "top") else "user"
        if l == "atomicState":
            n = {"Atomic": "A", "NonAtomic": "N", "SignalPending": "P"}.get(v[1] if v[0] == "con" else None)
            if n is None:
                raise Unsupported("atomicState := unknown")
            if n == "A":
                self.stats["regions"] += 1
            return st.w(atom=n).e("enter") if n == "A" and st.atom == "N" else st.w(atom=n)
        if l == "user":
            return st
        self.stats["writes"] += 1
        if v == ("con", "CANCEL", None):
            return st.e("cancel", l)
        if v[0] == "iso":
            self.addset(self.iso, l, v)
        ks = conts(v)
        s = st
        for k in ks:
            self.place(k, l, st, v)
            s = s.e("store", k[1], l)
        for t in tops(v):
            if t not in ("user", "arg", l) and not t.startswith("new:"):
                self.addset(self.alias, t, l)
                if l.startswith("rdyQ") or l in self.ready:
                    s = s.e("ready", t, l)
        if self.hastrans(v, st):
            if l not in self.transslots:
                self.transslots.add(l)
                self.changed = True
        return s.e("wn" if st.atom == "N" else "w", l, self.abstract(v), where[0].file.split("/")[-1], where[1]) \
            if st.atom != "init" else s

    def abstract(self, v):
        """the shape of a stored value, for effect summaries"""
        return v

    def hastrans(self, v, st):
        if not isinstance(v, tuple) or not v:
            return False
        if v[0] == "ref":
            return any(a == v[1] and x[0] == "con" and x[1] == "TRANS" for a, x in st.store)
        if v[0] == "cfn":
            return v[1] == "transId"
        if v[0] == "con":
            return v[2] is not None and self.hastrans(v[2], st)
        if v[0] == "rec":
            return any(self.hastrans(x, st) for _, x in v[1])
        if v[0] == "list":
            return any(self.hastrans(x, st) for x in v[1])
        return False

    def place(self, k, label, st, v):
        self.addset(self.slots, k[1], (label, self.owner(k, v, st)))

    def owner(self, k, v, st):
        """the thread identity stored beside continuation k in value v"""
        if v[0] == "rec":
            vals = [x for _, x in v[1]]
            if k in vals:
                for x in vals:
                    o = self.ident(x, st)
                    if o:
                        return o
                return None
            for x in vals:
                if k in conts(x):
                    return self.owner(k, x, st)
        if v[0] == "con" and v[2] is not None:
            return self.owner(k, v[2], st)
        if v[0] == "list":
            for x in sorted(v[1], key=repr):
                if k in conts(x):
                    return self.owner(k, x, st)
        return None

    def ident(self, x, st):
        if x == CUR:
            return CUR
        if x[0] == "tid":
            return x
        if x[0] == "con" and x[1] == "TID":
            return x
        if x[0] == "top":
            return x
        if x[0] == "ref":
            for a, y in st.store:
                if a == x[1] and y[0] == "con" and y[1] == "TRANS":
                    return self.ident(y[2], st)
        if x[0] == "cfn" and x[1] == "transId":
            return CUR
        return None

    def addset(self, d, k, x):
        s = d.setdefault(k, set())
        if x not in s:
            s.add(x)
            self.changed = True

    # ---- application
    def apply(self, f, a, st, where):
        if f[0] in ("clo", "rclo"):
            return self.call(f, a, st)
        if f[0] == "prim":
            return self.prim(f[1], a, st, where)
        if f[0] == "conf":
            return self.construct(f[1], a, st, where)
        if f[0] == "cfn":
            return self.cfn(f, a, st, where)
        if f[0] == "ext":
            return self.ext(f[1], a, st, where)
        if f[0] == "pthrow":
            return self.throw(f[1], a, st, where)
        if f[0] == "comp":
            return self.bind(self.apply(f[2], a, st, where), lambda v, s: self.apply(f[1], v, s, where))
        if f[0] == "top":
            if f[1] in ("user", "arg"):
                if st.atom in ("A", "P"):
                    self.bad("user-in-region", where, "a function supplied by the caller is run inside the atomic region", st)
                return [("ret", TOPU, st), ("exn", ("exnuser",), st)]
            if st.atom in ("A", "P"):
                st = st.e("cleanUp", f[1])
            return [("ret", TOPU, st)] + ([("exn", ("exnuser",), st)] if f[1] not in self.transslots else [])
        if f[0] == "pext":
            return self.ext(f[1], ("rec", (("1", f[2]), ("2", a))), st, where, True)
        return [("ret", TOPU, st)]

    def call(self, f, a, st):
        self.stats["calls"] += 1
        if f[0] == "clo":
            u, e, fr, line = self.fns[f[1]]
            env = dict(f[3])
            site = f[1]
            rs = e[2] if e[0] == "fn" else None
        else:
            u, d, fr, line = self.fns[f[1]]
            env = dict(f[3])
            rs = None
            for b in d[2]:
                env[b[0]] = ("rclo", f[1], b[0], f[3])
                if b[0] == f[2]:
                    x = b[3]
                    rs = x[2] if x[0] == "fn" else None
            site = (f[1], f[2])
        if rs is None:
            raise Unsupported("function body")
        n = sum(1 for s in self.stack if s == site)
        if n >= MAXREC or len(self.stack) > 120:
            return []
        if depth(a) > 9:
            a = TOPU
        self.stack.append(site)
        try:
            outs = self.rules(u, rs, a, env, st, line)
        finally:
            self.stack.pop()
        return outs

    def construct(self, name, a, st, where):
        if name == "::":
            h, t = self.field(a, "1"), self.field(a, "2")
            if t[0] == "list":
                return [("ret", ("list", t[1] | {h}), st)]
            return [("ret", ("list", frozenset([h, t])), st)]
        if name in ("BEVT", "GUARD", "W_NACK"):
            vs = a[1] if a[0] == "list" else [a]
            for c in vs:
                if c[0] in ("clo", "rclo", "comp"):
                    self.pending.append((name, c, where))
            if name == "BEVT":
                a = ("list", frozenset([("cfn", "poll")])) if a != NIL else NIL
            else:
                a = TOPU
            return [("ret", ("con", name, a), st)]
        return [("ret", ("con", name, a), st)]

    def prim(self, p, a, st, where):
        if p in ("callcc", "capture"):
            return self.callcc(a, st, where)
        if p in ("throw", "cthrow"):
            return [("ret", ("pthrow", a), st)]
        if p == "isolate":
            return [("ret", ("iso", a), st)]
        if p in ("!", "deref"):
            return [("ret", v, s) for v, s in self.read(a, st)]
        if p in (":=", "assign", "unboxedAssign"):
            r, v = self.field(a, "1"), self.field(a, "2")
            return [("ret", UNIT, self.write(r, v, st, where))]
        if p in ("makeref", "ref"):
            if st.atom == "init":
                l = "atomicState" if a[0] == "con" and a[1] in ("NonAtomic", "Atomic") else self.alloc
                if a[0] == "iso":
                    self.addset(self.iso, l, a)
                return [("ret", ("gref", l), st)]
            rid = (where[0].file.split("/")[-1], where[1], len(st.store))
            return [("ret", ("ref", rid), st.w(store=tuple(sorted(st.store + ((rid, a),), key=repr))))]
        if p == "getvar":
            return [("ret", st.cur, st)]
        if p == "setvar":
            return [("ret", UNIT, st.w(cur=a).e("setcur", a))]
        if p == "inl_compose":
            return [("ret", ("comp", self.field(a, "1"), self.field(a, "2")), st)]
        if p == "inl_ignore":
            return [("ret", UNIT, st)]
        if p == "inl_not":
            if a[0] == "con":
                return [("ret", ("con", "false" if a[1] == "true" else "true", None), st)]
            return [("ret", TOPU, st)]
        if p == "int_add":
            return [("ret", TOPU, st)]
        if p == "=":
            x, y = self.field(a, "1"), self.field(a, "2")
            if x[0] == y[0] == "con" and x[2] is None and y[2] is None:
                return [("ret", ("con", "true" if x[1] == y[1] else "false", None), st)]
        return [("ret", TOPU, st)]

    def ext(self, name, a, st, where, full=False):
        """functions of the Basis library"""
        t = name.split(".")[-1]
        if t in ("@", "revAppend"):
            x, y = self.field(a, "1"), self.field(a, "2")
            if x[0] == "list" and y[0] == "list":
                return [("ret", ("list", x[1] | y[1]), st)]
            e = frozenset(z for v in (x, y) for z in (v[1] if v[0] == "list" else [v]))
            return [("ret", ("list", e), st)]
        if t == "rev":
            return [("ret", a, st)]
        if t == "nth":
            l = self.field(a, "1")
            return [("ret", v, st) for v in (sorted(l[1], key=repr) if l[0] == "list" else [l])]
        if t in ("app", "map", "filter", "exists", "find", "all", "List.app"):
            if not full:
                return [("ret", ("pext", name, a), st)]
            f, l = self.field(a, "1"), self.field(a, "2")
            outs = [("ret", None, st)]
            res = []
            cur = [(frozenset(), st)]
            allc = list(cur)
            for _ in range(2):
                nxt = []
                for acc, s in cur:
                    for x in (sorted(l[1], key=repr) if l[0] == "list" else [l]):
                        for k, v, s1 in self.apply(f, x, s, where):
                            if k == "ret":
                                nxt.append((acc | {v} if t == "map" else acc, s1))
                            else:
                                res.append((k, v, s1))
                cur = list(dict.fromkeys(nxt))
                allc += cur
            for acc, s in dict.fromkeys(allc):
                if t == "map":
                    r = ("list", acc)
                elif t == "filter":
                    r = l
                elif t == "app":
                    r = UNIT
                else:
                    r = TOPU
                res.append(("ret", r, s))
            return self.dedup(res)
        if t in ("setHandler",):
            for x in self.closures(a):
                self.handlers.add(x)
        return [("ret", TOPU, st)]

    def closures(self, v):
        if v[0] in ("clo", "rclo"):
            return [v]
        if v[0] == "con" and v[2] is not None:
            return self.closures(v[2])
        if v[0] == "rec":
            return [c for _, x in v[1] for c in self.closures(x)]
        if v[0] == "list":
            return [c for x in sorted(v[1], key=repr) for c in self.closures(x)]
        return []

    # ---- continuations
    def callcc(self, f, st, where):
        self.stats["callcc"] += 1
        kid = (where[0].file.split("/")[-1], where[1], len([1 for x in self.kstack if x[0] == where[1]]), self.opname())
        k = ("k", kid)
        cur0 = st.cur
        self.kstack.append((where[1], kid))
        try:
            outs = self.apply(f, k, st, where)
        finally:
            self.kstack.pop()
        res, esc = [], False
        for kd, v, s in outs:
            if kd == "thr" and v[0] == kid:
                res.append(("ret", v[1], s))
            else:
                res.append((kd, v, s))
                if kd == "div":
                    pass
            if any(e[0] == "store" and e[1] == kid for e in s.ev) or (kd == "thr" and k in conts(v[1])):
                for label, own in sorted(self.slots.get(kid, ()), key=repr):
                    for a, val in self.resume(label):
                        s2 = s.w(atom=a, cur=own if own is not None else s.cur).e("resumed", label)
                        # what happened in the region so far is not part of the resumed thread's own region
                        res.append(("ret", val, s2))
        return self.dedup(res)

    def opname(self):
        return self.op

    def resume(self, label, seen=None):
        seen = seen if seen is not None else set()
        if label in seen:
            return set()
        seen.add(label)
        out = set(self.R.get(label, ()))
        for l in self.alias.get(label, ()):
            out |= {(a, v if not l.startswith("rdyQ") else UNIT) for a, v in self.resume(l, seen)}
        return out

    def throw(self, k, v, st, where):
        self.stats["throws"] += 1
        if k[0] == "k":
            if any(x[1] == k[1] for x in self.kstack):
                return [("thr", (k[1], v), st)]
            return [("div", None, st.e("throwk", k[1]))]
        if k[0] == "iso":
            outs = self.apply(k[1], v, st, where)
            return [("div", None, s) for kd, _, s in outs]
        if k[0] == "top":
            l = k[1]
            s = st
            for c in conts(v):
                self.addset(self.slots, c[1], ("thrown:" + l, self.owner(c, v, st)))
                s = s.e("store", c[1], "thrown:" + l)
            g = self.generalise(v, l)
            self.addset(self.R, l, (st.atom, g))
            return [("div", None, s.e("throw", l, st.cur, where[0].file.split("/")[-1], where[1]))]
        return [("div", None, st.e("throw", "?", st.cur, "", 0))]

    def generalise(self, v, l):
        if v[0] == "k":
            return ("top", "thrown:" + l)
        if v == CUR:
            return ("top", "thrown:" + l)
        if v[0] == "rec":
            return ("rec", tuple((a, self.generalise(x, l)) for a, x in v[1]))
        if v[0] == "con" and v[2] is not None:
            return ("con", v[1], self.generalise(v[2], l))
        if v[0] in ("top", "unit", "con", "int", "str"):
            return v
        return TOPU

    # ---- functions known only by the protocol of event representations
    def cfn(self, f, a, st, where):
        kind = f[1]
        inr = st.atom in ("A", "P")
        if not inr:
            self.bad("proto-" + kind, where, "the %s function of an event is called outside the atomic region" % kind, st)
            return []
        if kind == "poll":
            return [("ret", ("con", "ENABLED", ("rec", (("doFn", ("cfn", "do")), ("prio", TOPU)))), st),
                    ("ret", ("con", "BLOCKED", ("cfn", "block")), st)]
        if kind == "do":
            s = st.w(atom="N").e("do")
            return [("ret", TOPU, s), ("exn", ("exnuser",), s)]
        if kind == "block":
            tid, cu, nx = self.field(a, "transId"), self.field(a, "cleanUp"), self.field(a, "next")
            for s0 in ("A",):
                outs = self.apply(cu, UNIT, st, where)
                for kd, v, s in outs:
                    if kd not in ("ret", "div") or s.atom == "N":
                        self.bad("cleanUp", where, "the cleanUp action passed to a blocked event leaves the atomic region or fails", s)
                    if kd == "ret" and not any(e[0] == "cancel" for e in s.ev[len(st.ev):]):
                        self.bad("cleanUp-cancel", where, "the cleanUp action passed to a blocked event does not cancel the transaction", s)
                outs = self.apply(nx, UNIT, st.e("store", "blocked", "wait"), where)
                for kd, v, s in outs:
                    if kd not in ("div", "thr"):
                        self.bad("next", where, "the next action passed to a blocked event returns", s)
            if self.readtrans(tid, st) is None:
                self.bad("transId", where, "the transaction of a blocked event does not name the current thread", st)
            s = st.w(atom="N").e("resumed", "wait")
            return [("ret", TOPU, s), ("exn", ("exnuser",), s), ("div", None, st.e("store", "blocked", "wait"))]
        if kind == "next":
            return [("div", None, st.e("next"))]
        if kind == "cleanUp":
            return [("ret", UNIT, st.e("cleanUp", "own"))]
        return [("ret", TOPU, st)]

    def readtrans(self, r, st):
        for x, _ in self.read(r, st):
            if x[0] == "con" and x[1] == "TRANS" and x[2] == CUR:
                return x
        return None

    def bad(self, key, where, msg, st):
        f = where[0].file if where else self.op
        k = (self.op, key, f, where[1] if where else 0)
        self.viol.setdefault(k, (self.op, f, where[1] if where else 0, msg))
