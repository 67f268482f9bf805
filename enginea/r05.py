"""R05: no runtime service writes past the end of a C buffer.

Every write whose destination is a declared array, a struct's array field or malloc'ed memory of known
size is checked: library and OS calls against the number of bytes they may write (constant, symbolic, or
bounded by a comparison on the path), and indexing with a known or compared index."""
from .sizes import *
from . import r02
from lib import core


class Bounds(Sizes, r02.Stale):
    CHECK_C = True
    CHECK_LOW = True
    NO_INDEX = r02.EXCLUDE_DIRS        # the collector's own tables are indexed by arena and generation

    def __init__(self, P, reach):
        super().__init__(P, reach)
        self.bad = {}
        self.fit_sites = set()
        self.idx_sites = set()

    def on_use(self, st, f, line, what, val):
        pass

    def sz_report(self, st, f, line, kind, text):
        fr, ln = f, line
        for g, nm, l in reversed(self.stack):
            if g.file.endswith(".h"):
                ln = l
                continue
            fr = g
            break
        self.bad.setdefault((fr.file, fr.name, kind, text), (ln, [x[1] for x in self.stack]))


def check(c):
    from . import program
    c.rule = ("each write into a declared array, array field, malloc'ed buffer or heap data stays below the object's size, "
              "by constants, linear size arithmetic and comparisons on the path")
    P = program.Program()
    reach = r02.gc_reach(P)
    first, second, third = r02.entry_order(P)
    done = {id(f) for f in first + second + third}
    others = [f for k, f in sorted(P.funcs.items()) if id(f) not in done and not f.file.endswith(".h")]
    optional = {id(f) for f in others}

    def one(f):
        w = Bounds(P, reach)
        try:
            w.run(f)
            w.finish()
        except Unsupported as e:
            return str(e)
        return w.functions_seen, w.fit_sites, w.idx_sites, sorted(w.bad.items())

    covered, fits, idx = set(), set(), set()
    for batch in (first, second, third + others):
        todo = [f for f in batch if batch is first or (f.file, f.name) not in covered]
        for f, r in zip(todo, core.pmap(one, todo)):
            if isinstance(r, str):
                c.require(id(f) in optional, r)
                continue
            covered |= r[0]
            fits |= r[1]
            idx |= r[2]
            for (file, fn, kind, text), (ln, stk) in r[3]:
                c.violation("%s|%s|%s" % (fn, kind, text), "base/runtime/%s:%d" % (file, ln), "%s: %s (path %s)" % (fn, text, " > ".join(stk)))
    for s in sorted(fits):
        c.ob(True, "%s:%d bytes written" % s)
    for s in sorted(idx):
        c.ob(True, "%s:%d index" % s)
    c.cov.update(functions=len(covered), write_sites=len(fits), index_sites=len(idx))
    lent(c, P)


LENT = {"read": (1, 2), "recv": (1, 2), "recvfrom": (1, 2)}


def lent(c, P):
    """Buffers the SML side lends: filled from the requested offset, with at most the requested number of bytes."""
    import json
    from . import r07
    con = json.load(open(r07.TABLE))
    r07._P, r07._CON = P, con
    for lib, nm, fn, f in r07.primitives(P):
        name = "%s.%s" % (lib, nm)
        k = con.get(name)
        if k is None or f is None or not any("%s#1" % x in k["common"] or any("%s#1" % x in cs[1] for cs in k["cases"]) for x in LENT):
            continue
        _, bad, nc, _ = r07.one((name, fn))
        keys = ["%s#%d" % (x, i) for x in LENT for i in LENT[x]]
        hit = {x: b for x, b in bad.items() if x in keys and b[2]}
        c.ob(not hit, "%s: fills the buffer it was given" % name)
        for x, (names, w, have) in sorted(hit.items()):
            c.violation("%s|lent|%s" % (name, x), "base/runtime/%s:%d" % (f.file, f.line),
                        "%s fills a buffer of the SML program with %s = %s, must be %s" % (name, x, " or ".join(sorted(have)), " or ".join(sorted(w))))
