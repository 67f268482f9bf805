"""R04: what a runtime service acquires it releases exactly once, on every path.

Typestate (held / released) of memory blocks, streams, directory handles and descriptors obtained by the C runtime.
Every function that obtains or releases one is analysed with its helpers expanded; states that differ in what is held
are kept apart, and the outcome of earlier tests on unchanged values is remembered, so that 'if (c) get; .. if (c)
release' is one behaviour.  A thing stored in a longer-lived structure, or handed to the caller, is no longer this
function's to release."""
from . import program, r02
from lib import core
from .absint import *
from .prims import RT

ACQ = {"malloc": ("memory", 0), "calloc": ("memory", 0), "strdup": ("memory", 0), "fopen": ("stream", 0), "fdopen": ("stream", 0),
       "opendir": ("directory stream", 0), "open": ("descriptor", -1), "dup": ("descriptor", -1), "socket": ("descriptor", -1),
       "accept": ("descriptor", -1), "mkstemp": ("descriptor", -1), "popen": ("stream", 0), "creat": ("descriptor", -1),
       "realloc": ("memory", 0)}
REL = {"free": "memory", "fclose": "stream", "closedir": "directory stream", "close": "descriptor", "pclose": "stream"}
MAXCOND = 6


def tok(t):
    """tokens inside a term"""
    if isinstance(t, tuple):
        if t and t[0] == "own":
            yield t
        elif not t or t[0] not in ("ld", "ldi", "str", "H"):      # what it points to is not the thing itself
            for x in t:
                if isinstance(x, tuple):
                    yield from tok(x)


class Res(RT):
    MAXDEPTH = 5

    def __init__(self, P):
        super().__init__(P)
        self.bad = {}
        self.sites = set()
        self.toks = set()
        self.kept = set()
        self.inloop = False
        self.track = None

    # ------------------------------------------------------------ values
    def op2(self, o, a, b):
        if a[0] == "own" and b[0] == "i" or b[0] == "own" and a[0] == "i":
            if o in ("==", "!=") and (a if a[0] == "i" else b)[1] <= 0:
                return ("i", int(o == "!="))
            if a[0] == "own" and b[1] <= 0:
                if o == "<":
                    return ("i", 0)
                if o == ">=":
                    return ("i", 1)
                if b[1] < 0 and o in ("<=", ">"):
                    return ("i", int(o == ">"))
        return super().op2(o, a, b)

    def truth(self, x):
        if x[0] == "own" and x[1] != "descriptor":
            return True
        for y in self.cur.flags:
            if isinstance(y, tuple) and y[0] == "C" and y[1] == x:
                return y[2]
        return None

    def eval(self, e, f, ctx, st, line):
        self.cur = st
        return super().eval(e, f, ctx, st, line)

    def cast(self, v, ty):
        if all(t[0] == "own" for t in v):
            return v
        return super().cast(v, ty)

    # ------------------------------------------------------------ state
    def state_of(self, st, t):
        for x in st.flags:
            if isinstance(x, tuple) and x[0] == "R" and x[1] == t:
                return x[2]
        return None

    def put(self, st, t, s):
        st.flags = frozenset(x for x in st.flags if not (isinstance(x, tuple) and x[0] == "R" and x[1] == t))
        if s:
            st.flags |= {("R", t, s)}

    def report(self, f, line, kind, text, t=None):
        fr, ln = f, line
        for i in range(len(self.stack) - 1, -1, -1):
            g = self.stack[i][0]
            if g.file.endswith(".h"):
                ln = self.stack[i][2]
                continue
            fr = g
            break
        self.bad.setdefault((fr.file, fr.name, kind, text), (ln, [x[1] for x in self.stack], t))

    def where(self, t):
        return "%s obtained in %s at line %d" % (t[1], t[2][-1][0], t[3])

    def escape(self, st, v):
        for t in v:
            for x in tok(t):
                if self.state_of(st, x) == "held":
                    self.put(st, x, None)

    # ------------------------------------------------------------ events
    def acquire(self, st, f, name, line):
        kind, fail = ACQ[name]
        t = ("own", kind, self.ctxname(), line)
        self.sites.add((f.file, f.name, line, name))
        self.toks.add(t)
        if t != self.track:
            return [(st, frozenset([("res", "%s:%d" % (f.name, line), "malloc")]) if kind == "memory" else TOPS)]
        for k, v in st.env.items():           # an older block of this site is not the new one
            if any(True for x in v for _ in tok(x)) or any(True for _ in tok(k)):
                old = True
                break
        else:
            old = False
        if old:
            sub = lambda x: ("res", "older", "malloc") if x == t else tuple(sub(y) for y in x) if isinstance(x, tuple) else x
            st.env = {sub(k): frozenset(sub(x) for x in v) for k, v in st.env.items()}
        if self.state_of(st, t) == "held":
            self.report(f, line, "leak", "%s is obtained again while the one from the previous round is still held" % kind, t)
        if kind == "memory":        # running out of memory is not explored
            self.put(st, t, "held")
            return [(st, frozenset([t]))]
        bad = st.copy()
        self.put(bad, t, None)
        self.put(st, t, "held")
        return [(st, frozenset([t])), (bad, I(fail))]

    def release(self, st, f, name, v, line):
        self.sites.add((f.file, f.name, line, name))
        for t in v:
            if t[0] == "own":
                s = self.state_of(st, t)
                if s == "released":
                    self.report(f, line, "double", "%s is released again" % self.where(t))
                elif t[1] != REL[name]:
                    self.report(f, line, "mismatch", "%s is released with %s" % (self.where(t), name))
                if len(v) == 1 or s == "held":
                    self.put(st, t, "released")
            elif name == "free" and len(v) == 1 and (t[0] == "s" or t[0] == "&" and self.rootkind(t[1]) in ("L", "G")):
                self.report(f, line, "free", "free of memory that was not allocated")
            elif name == "free" and t[0] == "op" and t[1] in ("+", "-") and t[2][0] == "own" and t[3] != ("i", 0):
                self.report(f, line, "free", "free of a pointer into the middle of the block (%s)" % self.where(t[2]))
            elif t[0] == "arg" and len(v) == 1 and self.track is None and REL[name] != "descriptor":
                if ("D", t) in st.flags:
                    self.report(f, line, "double", "the %s given to %s is released twice" % (REL[name], self.stack[0][1]))
                st.flags |= {("D", t)}
            elif name == "fclose" and t == ("i", 0):
                self.report(f, line, "free", "fclose of a stream that could not be opened")
        return [(st, TOPS)]

    def rootkind(self, l):
        while l[0] in ("F", "E"):
            l = l[1]
        return l[0]

    def intrinsic(self, st, f, name, av, line, site):
        if name in ACQ and self.P.resolve(f, name) is None:
            if name == "realloc":
                self.escape(st, av[0])
            return self.acquire(st, f, name, line)
        if name in REL and self.P.resolve(f, name) is None and av:
            return self.release(st, f, name, av[0], line)
        r = super().intrinsic(st, f, name, av, line, site)
        if r is not None:
            self.passed(st, f, name, av, line)
        return r

    def passed(self, st, f, name, av, line):
        for v in av:
            for t in v:
                if t[0] == "own" and self.state_of(st, t) == "released":
                    self.report(f, line, "use", "%s is passed to %s after it was released" % (self.where(t), name))

    def call(self, f, ctx, st, name, av, line, site):
        g = self.P.resolve(f, name) if name else None
        if name in ("Die", "exit", "_exit", "abort", "AssertFail"):
            return []
        if g is None and name and name in self.local:
            gs = self.local[name]
            if len(gs) > 1:
                frees = [any(i[0] == "call" and i[2] == ("fun", "free") for b in h.blocks for i in b.ins) for h in gs]
                if all(frees) and av:
                    self.release(st, f, "free", av[0], line)
                elif any(frees):
                    for v in av:
                        self.escape(st, v)
                return [(st, TOPS)]
            return self.call_function(gs[0], av, st, line)
        if g is not None and name not in ACQ and name not in REL and not any(any(True for _ in tok(t)) for v in av for t in v) \
                and not (name in self.near and (self.isptr(g.ret) or g.ret == "int" and name in self.fds or any(t[0] == "&" for v in av for t in v))):
            return [(st, TOPS)]
        return super().call(f, ctx, st, name, av, line, site)

    def on_external(self, st, f, name, av, line, site):
        self.passed(st, f, name, av, line)
        st.flags = frozenset(x for x in st.flags if not (isinstance(x, tuple) and x[0] == "C" and
                                                         ("'res'" in repr(x) or "errnop" in repr(x))))
        for v in av:
            for t in v:
                if t[0] == "&":
                    self.touch(st, t[1], f, line)
        return None

    def do_call(self, f, ctx, st, ins):
        self.indirect = ins[2]
        return super().do_call(f, ctx, st, ins)

    def unknown_call(self, f, st, av, line, site):
        e = self.indirect
        while e[0] in ("cast", "un", "deref") and len(e) > 1:
            e = e[-1]
        if e[0] == "fld" and "free" in e[2].lower() and av:
            self.release(st, f, "free", av[0], line)
        return [(st, TOPS)]

    def touch(self, st, loc, f, line):
        l = loc
        while l[0] in ("F", "E"):
            l = l[1]
        if l[0] == "P" and l[1][0] == "own" and self.state_of(st, l[1]) == "released":
            self.report(f, line, "use", "%s is used after it was released" % self.where(l[1]))
        if l[0] == "P" and ("D", l[1]) in st.flags:
            self.report(f, line, "use", "what %s was given is used after it was released" % self.stack[0][1])

    def load(self, st, loc, ptr, ty, f, line):
        self.touch(st, loc, f, line)
        return super().load(st, loc, ptr, ty, f, line)

    def on_store(self, st, f, line, loc, val):
        self.touch(st, loc, f, line)
        if self.rootkind(loc) != "L":
            l = loc
            while l[0] in ("F", "E"):
                l = l[1]
            fresh = l[0] == "P" and l[1][0] in ("own", "res")     # a block obtained here: owns memory, not streams
            val = [t for t in val if not (fresh and t[0] == "own" and t[1] != "memory")]
            if self.inloop or len(self.stack) > 1:
                self.kept |= {x for t in val for x in tok(t)}
            self.escape(st, val)

    def on_return(self, st, f, val, line):
        if len(self.stack) > 1:
            return
        self.escape(st, val)
        for x in sorted((x for x in st.flags if isinstance(x, tuple) and x[0] == "R" and x[2] == "held"), key=repr):
            self.report(f, line, "leak", "%s is neither released nor kept when %s returns" % (self.where(x[1]), f.name), x[1])

    # ------------------------------------------------------------ remembered tests
    def run_block(self, f, ctx, blk, st):
        nl = self.LOOPS.get(id(f))
        if nl is None:
            l = natural_loops(f)
            nl = self.LOOPS[id(f)] = {id(b) for j, b in enumerate(f.blocks) if l.get(j)}
        inloop, self.inloop = self.inloop, id(blk) in nl
        try:
            return self.run_block1(f, ctx, blk, st)
        finally:
            self.inloop = inloop

    LOOPS = {}

    def run_block1(self, f, ctx, blk, st):
        dead = [x for x in st.flags if isinstance(x, tuple) and x[0] == "R" and x[2] == "released"]
        if dead:
            live = {y for v in st.env.values() for t in v for y in tok(t)}
            st.flags -= {x for x in dead if x[1] not in live}
        return super().run_block(f, ctx, blk, st)

    def refine(self, st, cond, f, ctx, val, line):
        super().refine(st, cond, f, ctx, val, line)
        v = self.eval(cond, f, ctx, st, line)
        if len(v) == 1 and self.repeated(f, cond):
            (t,) = v
            n = sum(1 for x in st.flags if isinstance(x, tuple) and x[0] == "C")
            if t[0] in ("op", "arg", "ld", "ldi") and pure_cond(t) and n < MAXCOND:
                st.flags |= {("C", t, val)}


    REP = {}

    def repeated(self, f, cond):
        """the function tests this more than once"""
        if id(f) not in self.REP:
            n = {}
            nl = natural_loops(f)
            inloop = {j for j, b in enumerate(f.blocks) for h in nl.get(j, ()) if any(h not in nl.get(t, ()) for t in succs(b))}
            for j, b in enumerate(f.blocks):
                if b.term and b.term[0] == "br" and j not in inloop:
                    k = normal(b.term[1])
                    n[k] = n.get(k, 0) + 1
            for j in inloop:
                n.pop(normal(f.blocks[j].term[1]) if f.blocks[j].term[0] == "br" else None, None)
            self.REP[id(f)] = n
        return self.REP[id(f)].get(normal(cond), 0) > 1


def normal(e):
    while e[0] in ("cast", "un") and (e[0] == "cast" or e[1] == "!"):
        e = e[2]
    if e[0] == "bin" and e[1] in ("!=", "=="):
        return repr(("==",) + tuple(e[2:]))
    return repr(e)


def pure_cond(t):
    r = repr(t)
    return "top" not in r and "'*'" not in r and "own" not in r


def relevant(P):
    callees = {}
    for f in P.funcs.values():
        s = callees.setdefault(f.name, set())
        for b in f.blocks:
            for i in b.ins:
                if i[0] == "call" and i[2][0] == "fun":
                    s.add(i[2][1])
    direct = {n for n, s in callees.items() if s & (set(ACQ) | set(REL))}
    near = set(direct)
    reach = near = direct | {n for n, s in callees.items() if s & direct}
    fds = {n for n, s in callees.items() if s & {a for a in ACQ if ACQ[a][1] == -1}}
    return fds, reach, near


START = ("BootML", "ParseHeapParams", "main")      # memory obtained once, while the system starts
SKIP = ("c-libs/smlnj-math/dtoa.c",)


def check(c):
    c.rule = ("on every path each block of memory, stream, directory handle and descriptor obtained is released exactly "
              "once, stored in a structure that outlives the call, or handed to the caller; and never used after release")
    P = program.Program()
    direct, reach, near = relevant(P)
    fs = [f for _, f in sorted(P.funcs.items()) if f.name in reach and not f.file.endswith(".h") and f.file not in SKIP]

    local = {}
    for f in P.funcs.values():
        local.setdefault(f.name, []).append(f)

    def one(f):
        seen, sites, bad, todo, done = set(), set(), {}, [None], set()
        try:
            while todo:
                w = Res(P)
                w.fds, w.near, w.local, w.track = direct, near, local, todo.pop()
                done.add(w.track)
                w.run(f)
                seen |= w.functions_seen
                sites |= w.sites
                # kept in a structure on some path: whether it should be there is up to that structure
                bad.update({k: v for k, v in w.bad.items() if v[2] not in w.kept and not (v[2] and k[1] in START and v[2][1] == "memory")})
                todo += [t for t in sorted(w.toks, key=repr) if t not in done and t not in todo and len(t[2]) <= 2]
        except Unsupported as e:
            return "%s (tracking %s)" % (e, w.track)
        return seen, sites, sorted(bad.items())

    seen, sites, over = set(), set(), []
    for f, r in zip(fs, core.pmap(one, fs)):
        if isinstance(r, str):
            over.append((f.name, r))
            continue
        a, b, bad = r
        seen |= a
        sites |= b
        for (file, fn, kind, text), (ln, stk, _) in bad:
            c.violation("%s|%s|%s" % (fn, kind, text.split(" ")[0]), "base/runtime/%s:%d" % (file, ln), "%s: %s (path %s)" % (fn, text, " > ".join(stk)))
    for s in sorted(sites):
        c.ob(True, "%s: %s at %s:%d" % (s[1], s[3], s[0], s[2]))
    c.cov.update(functions=len(seen), sites=len(sites), gave_up=over)
    c.require(not over, "analysis gave up: %s" % over)
    c.require(len(sites) > 60, "only %d acquire/release sites seen" % len(sites))
