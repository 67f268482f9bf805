"""R02: no C code uses a reference into the ML heap that a collection has invalidated.

Forward dataflow over every function that handles ML values: at each call that may collect
(transitively: InvokeGC, InvokeGCWithRoots, running ML code, a runtime allocator whose size is not
provably small) every heap-derived value held in a C variable that is not registered as a root
becomes stale; dereferencing it, storing it into an ML object or ML register, passing it to
another routine or returning it afterwards is a violation."""
from .prims import *

EXCLUDE_DIRS = ("gc/minor-gc.c", "gc/major-gc.c", "gc/flip.c", "gc/blast", "gc/export-heap.c", "gc/import-heap.c",
                "gc/heap-", "gc/check-heap.c", "gc/gc-util.c", "gc/init-gc.c", "gc/call-gc.c", "gc/big-objects.c",
                "gc/obj-info.c", "gc/c-globals-tbl.c", "gc/addr-hash.c", "gc/mem-writer.c", "gc/writer.c",
                "gc/gc-stats.c", "config/", "memory/")
# functions that hand control to ML or a signal handler and never use their ML arguments again
GCISH = {"BlastOut", "ExportHeapImage", "ExportFnImage", "BlastIn"}


# (function, reason): holds references only while nothing has been allocated but the names themselves
EXEMPT = {"BuildFileList": "boot only: runs on the empty nursery, before any ML code; names and their number are "
                           "bounded by the BOOTLIST header the build wrote"}


class Stale(RT):
    def __init__(self, P, gcreach):
        super().__init__(P)
        self.uses = {}
        self.gcs = set()
        self.nuse = 0
        self.gcreach = gcreach

    def inline(self, f, name):
        g = super().inline(f, name)
        if g is not None and g.file.startswith(EXCLUDE_DIRS):
            return None
        return g

    def intrinsic(self, st, f, name, av, line, site):
        r = super().intrinsic(st, f, name, av, line, site)
        if name == "RaiseSysError":
            for v in av[1:]:
                if not all(self.smallstr(t[1] if t[0] == "stale" else t) for t in v):
                    self.gc(st, set(), f, line, name)
        if r is not None:
            return r
        g = self.P.resolve(f, name)
        if g is not None and g.file.startswith(EXCLUDE_DIRS):
            for v in av:
                for t in v:
                    if t[0] == "stale":
                        self.on_use(st, f, line, "pass to " + name, t)
            if g.name in self.gcreach:
                self.gc(st, set(), f, line, name)
            return [(st, frozenset([("raw", self.rawid(line))]) if g.ret == "ml_val_t" else TOPS)]
        return None

    def entry_args(self, f):
        if f.name == "RaiseSysError":      # every caller's texts are checked to be small (above)
            return super().entry_args(f)[:1] + [frozenset([("s", "text"), ("i", 0)])] * (len(f.params) - 1)
        return super().entry_args(f)

    def unknown_call(self, f, st, av, line, site):
        # a call through a pointer into the C primitives may collect
        for v in av:
            for t in v:
                if t[0] == "stale":
                    self.on_use(st, f, line, "pass to function pointer", t)
        if any(t[0] == "arg" and t[2] == "msp" for v in av for t in v):
            self.gc(st, set(), f, line, "indirect call")
        return [(st, TOPS)]

    def on_gc(self, st, f, line, what):
        self.gcs.add((f.file, line, what))

    def on_use(self, st, f, line, what, val):
        # attribute the use to the innermost frame outside the allocation headers
        fr = f
        ln = line
        for g, nm, l in reversed(self.stack):
            if g.file.endswith(".h"):
                ln = l
                continue
            fr = g
            break
        self.uses.setdefault((fr.file, fr.name, what, val[1]), (ln, val[2], [x[1] for x in self.stack]))

    def on_return(self, st, f, val, line):
        if len(self.stack) == 1 and self.isptr(f.ret):
            for t in val:
                if t[0] == "stale":
                    self.on_use(st, f, line, "return", t)


def gc_reach(P):
    """Functions from which a collection is reachable (call graph over direct calls)."""
    callees = {}
    for f in P.funcs.values():
        s = callees.setdefault(f.name, set())
        for b in f.blocks:
            for i in b.ins:
                if i[0] == "call" and i[2][0] == "fun":
                    s.add(i[2][1])
    reach = {"InvokeGC", "InvokeGCWithRoots", "RunML", "ApplyMLFn", "MinorGC", "MajorGC"}
    ch = True
    while ch:
        ch = False
        for n, s in callees.items():
            if n not in reach and s & reach:
                reach.add(n)
                ch = True
    return reach


def describe(t):
    s = show(t)
    return s


def show(t):
    k = t[0]
    if k == "arg":
        return "arg"
    if k == "ld":
        return showloc(t[1])
    if k == "str":
        return "string(%s)" % show(t[1])
    if k == "ap":
        return "object allocated earlier"
    if k == "raw":
        return "raw object allocated earlier"
    if k == "res":
        return t[2] + "()"
    if k == "&":
        return "&" + showloc(t[1])
    if k == "s":
        return t[1]
    return k


def showloc(l):
    if l[0] == "P":
        return "%s[%s]" % (show(l[1]), l[2][1] if l[2][0] == "i" else "*")
    if l[0] == "F":
        return "%s.%s" % (showloc(l[1]), l[2])
    if l[0] == "E":
        return "%s[%s]" % (showloc(l[1]), l[2][1] if l[2][0] == "i" else "*")
    if l[0] in ("L", "G"):
        return str(l[-1])
    return "heap word"


def ml_function(f):
    ts = [f.vars[p].replace("const ", "").strip() for p in f.params]
    return any(t in ("ml_state_t *", "ml_val_t", "ml_val_t *") for t in ts)


def entry_order(P):
    """Entry points first (primitives, then functions nobody calls), then whatever they did not reach."""
    prim = []
    seen = set()
    for (_, _, _, f) in primitives(P):
        if f is not None and id(f) not in seen:
            seen.add(id(f))
            prim.append(f)
    called = set()
    for f in P.funcs.values():
        if f.file.startswith(EXCLUDE_DIRS):
            continue
        for b in f.blocks:
            for i in b.ins:
                if i[0] == "call" and i[2][0] == "fun":
                    g = P.resolve(f, i[2][1])
                    if g is not None and g is not f:
                        called.add(id(g))
    rest = [f for k, f in sorted(P.funcs.items())
            if ml_function(f) and not f.file.startswith(EXCLUDE_DIRS) and not f.file.endswith(".h") and id(f) not in seen]
    return prim, [f for f in rest if id(f) not in called], [f for f in rest if id(f) in called]


def check(c):
    from . import program
    c.rule = ("stale-reference dataflow: after any call that may collect, an unrooted heap reference is never "
              "dereferenced, stored, passed on or returned")
    P = program.Program()
    reach = gc_reach(P)
    c.require("ML_AllocRaw" in reach and "InvokeGC" in reach, "collector entry points vanished")
    c.require(any(f.name == "ML_AllocRaw" for f in P.funcs.values()), "ML_AllocRaw not found")
    prim = {f.name for (_, _, _, f) in primitives(P) if f is not None}
    nf = 0
    gcs = set()
    skipped = []
    covered = set()
    first, second, third = entry_order(P)
    for f in first + second + third:
        if (f.file, f.name) in covered and f in third:
            continue
        s = Stale(P, reach)
        try:
            s.run(f)
        except Unsupported as e:
            c.require(False, str(e))
        nf += 1
        covered |= s.functions_seen
        gcs |= s.gcs
        mine = {k: v for k, v in s.uses.items()}
        mine = {k: v for k, v in mine.items() if k[1] not in EXEMPT}
        c.ob(not mine, "%s (%s): %d collection points on its paths" % (f.name, f.file, len(s.gcs)))
        for (file, fn, what, val), (ln, gl, stk) in mine.items():
            if fn in EXEMPT:
                continue
            c.violation("%s|%s|%s" % (fn, what.replace("pass to ", "pass:"), show(val)),
                        "base/runtime/%s:%d" % (file, ln),
                        "%s: %s of %s after a collection may have moved it (collection at line %d; path %s)" % (
                            fn, what, show(val), gl, " > ".join(stk)))
    c.cov.update(entry_points=nf, functions=len(covered), collection_points=len(gcs), primitives=len(prim & {f.name for f in P.funcs.values()}))
    c.assumptions += ["strings from system data bases, strerror, constant tables and C buffers of at most 4 KB are "
                      "small objects (documented precondition of ML_CString)",
                      "the collector updates every registered root (R09)"]
    c.require(nf >= 200, "only %d functions analysed" % nf)
    c.require(len(gcs) >= 40, "only %d collection points found" % len(gcs))
