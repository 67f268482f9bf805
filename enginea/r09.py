"""R09: a heap image brings back what was exported; a failed export or a damaged image is reported.

Checked on the analysed C of the runtime:
  failures   assume any one write, seek, flush-on-close or read of an image fails (the writer's error flag is
             sticky): on every path the service raises, returns an error or ends the program - it never
             reports success - and no write is left whose outcome nobody looks at
  repair     once external references have been replaced for the image, the heap is repaired before the
             program continues, on every path, over the same arenas
  roots      each register and runtime root is written to one field of the image and restored from that very
             field, relocated, after the heap has been read
  blocks     the reader takes the blocks in the order and with the sizes in which the writer put them"""
import re
from .ssa import *
from .sizes import lin, strip, fromlin
from .r12 import field

WOPS = {"write", "putWord", "seek", "tell", "flush", "free"}
ENDS = {"Die", "exit", "Exit", "abort", "_exit"}
REGS = ["ml_arg", "ml_cont", "ml_closure", "ml_pc", "ml_exnCont", "ml_varReg",
        ("ml_calleeSave", 0), ("ml_calleeSave", 1), ("ml_calleeSave", 2)]
OPAQUE = {"InvokeGC", "InvokeGCWithRoots", "ScanHeap", "RepairHeap", "RepairWord", "AllocMLState", "BlastGC", "BlastGC_FinishUp",
          "BlastGC_AssignLitAddrs", "BlastGC_BlastLits", "ExportCSymbol", "AddrOfCSymbol", "NewExportTbl", "FreeExportTbl", "ExportTableSz",
          "InitBibop", "FreeBibop", "MakeAddrTbl", "AddrTblInsert", "AddrTblLookup", "FreeAddrTbl", "MarkRegion", "NewGeneration", "NewDirtyVector",
          "BO_AllocRegion", "AllocBODesc", "AddBODesc", "BO_GetCodeObjTag", "Say", "SayDebug", "Error", "QualifyImageName",
          "ML_CString", "ML_CStringList", "FindEmbObj", "ImportCSymbol", "ExportedSymbols", "HeapIO_Seek"}


def key(r):
    return r if isinstance(r, str) else "%s[%d]" % r


class Img(SSA):
    """writers and readers of images as abstract devices"""
    MAXEV = 60

    def __init__(self, P, kind=None):
        super().__init__(P)
        self.kind = kind
        self.rets = []
        self.ended = []
        self.roles = P.r09[0] | P.r09[1] | P.r09word

    def elem(self, b, i):
        return ("E", b, i if i[0] not in ("top",) else ("*",))

    def do_call(self, f, ctx, st, ins):
        fe = ins[2]
        if fe[0] != "fun":
            m = re.findall(r"'(\w+)'", repr(fe))
            op = next((x for x in reversed(m) if x in WOPS), None)
            if op:
                av = [self.eval(a, f, ctx, st, ins[4]) for a in ins[3]]
                v = self.wrop(st, f, op, av, ins[4])
                st.env[("L", ctx, ("tmp", ins[1][1]))] = v
                return [st]
        return super().do_call(f, ctx, st, ins)

    def wrop(self, st, f, op, av, line):
        return frozenset([("res", (f.name, line), "WR_" + op)])

    def read(self, st, f, av, line):
        return frozenset([("i", 1)])

    def call(self, f, ctx, st, name, av, line, site):
        if name in ENDS:
            self.ended.append((st, name, val1(av[0]) if av else None, f, line))
            return []
        if name == "HeapIO_ReadBlock":
            return self.doread(st, f, av, line)
        if name in ("WR_OpenFile", "WR_OpenMem", "malloc", "fopen", "fclose", "RaiseSysError", "dlopen", "dlsym") or name in OPAQUE or name in self.roles:
            return self.opaque(st, f, name, av, line)
        return super().call(f, ctx, st, name, av, line, site)

    def opaque(self, st, f, name, av, line):
        if name in self.P.r09word:
            name = "RepairWord"
        return [(st, frozenset([("hres", name) + tuple(val1(v) or ("top",) for v in av)]))]

    def doread(self, st, f, av, line):
        for t in av[1]:
            if t[0] == "&":
                loc = t[1]
                if loc[0] == "E" and loc[2] == ("i", 0):
                    loc = loc[1]
                for k in [k for k in st.env if k[0] in ("F", "E") and self.under(k, loc)]:
                    del st.env[k]
                ty = self.typeof(loc, f)
                st.env[loc] = frozenset([("out", "img", ty, 1, ())])
        return [(st, self.read(st, f, av, line))]

    def typeof(self, loc, f):
        if loc[0] == "L":
            ty = f.vars.get(loc[2])
            if ty is None:
                ty = next((g.vars[loc[2]] for g in self.P.funcs.values() if loc[1].split("@")[0].endswith(g.name) and loc[2] in g.vars), "?")
            return str(ty).replace("struct ", "").strip()
        return "?"

    def on_return(self, st, f, val, line):
        if len(self.stack) == 1:
            self.rets.append((st, val, line))

    def load(self, st, loc, ptr, ty, f, line):
        v = super().load(st, loc, ptr, ty, f, line)
        if self.kind is not None and len(v) == 1:
            (t,) = v
            if t[0] == "out" and t[1] == "img" and t[4] == ("kind",):
                return frozenset([("i", self.kind)])
        return v


class Fail(Img):
    """one failure, at one place"""
    def __init__(self, P, at):
        super().__init__(P)
        self.where = at
        self.scan, self.repair = P.r09
        self.sites = set()

    def fl(self, st):
        return st.flags if isinstance(st.flags, tuple) else (0, 0, 0)     # unseen writes, failed, heap to be repaired

    def hit(self, st, site):
        self.sites.add(site)
        d, e, r = self.fl(st)
        if site == self.where:
            st.flags = (d, 1, r)
            return True
        return False

    def load(self, st, loc, ptr, ty, f, line):
        if loc[0] == "F" and loc[2] == "errFlg":
            self.hit(st, ("errFlg", f.file, f.name, line))
            d, e, r = self.fl(st)
            st.flags = (0, e, r)
            return frozenset([("i", e)]) if self.where is None or self.where[0] == "errFlg" else frozenset([("i", 0)])
        return super().load(st, loc, ptr, ty, f, line)

    def wrop(self, st, f, op, av, line):
        if op in ("write", "putWord", "seek"):
            d, e, r = self.fl(st)
            st.flags = ((f.file, f.name, line), e, r)
        return super().wrop(st, f, op, av, line)

    def read(self, st, f, av, line):
        return frozenset([("i", 0 if self.hit(st, ("read", f.file, f.name, line)) else 1)])

    def opaque(self, st, f, name, av, line):
        if name == "fclose":
            return [(st, frozenset([("i", -1 if self.hit(st, ("close", f.file, f.name, line)) else 0)]))]
        if name in self.scan:
            d, e, r = self.fl(st)
            st.flags = (d, e, (f.file, f.name, line))
        if name in self.repair:
            d, e, r = self.fl(st)
            st.flags = (d, e, 0)
        if name in ("RaiseSysError",):
            return [(st, frozenset([("raised",)]))]
        if name in ("WR_OpenFile", "WR_OpenMem", "malloc", "fopen", "BlastGC", "dlopen", "dlsym"):
            return [(st, frozenset([("&", ("G", name))]))]
        return super().opaque(st, f, name, av, line)


def check(c):
    from . import program
    c.rule = ("no failure of an image write, close or read is reported as success; the heap is repaired before the program continues; every "
              "root is restored from the field it was saved in; blocks are read as they were written")
    P = program.Program()
    byname = {}
    for f in P.funcs.values():
        byname.setdefault(f.name, f)

    def bad(k, file, line, text):
        c.violation(k, "base/runtime/%s:%d" % (file, line), text)

    roles(c, P)
    failures(c, P, byname, bad)
    devices(c, P, byname, bad)
    arenas(c, P, byname, bad)
    roots(c, P, byname, bad)
    blocks(c, P, byname, bad)


def roles(c, P):
    """which functions replace the external references of the heap, which put them back, which relocates a word"""
    calls, writes, stores, inimg = {}, set(), {}, {}
    for f in P.funcs.values():
        for b in f.blocks:
            for i in b.ins:
                if i[0] == "call":
                    if i[2][0] == "fun":
                        calls.setdefault(f.name, set()).add(i[2][1])
                    elif any("'%s'" % o in repr(i[2]) for o in WOPS):
                        writes.add(f.name)
                elif i[0] == "asg" and i[1][0] == "fld":
                    stores.setdefault(f.name, set()).add(i[1][2])

    def reach(n):
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(calls.get(x, ()))
        return seen

    R = {n: reach(n) for n in list(calls)}
    quiet = {n for n in R if not R[n] & writes and not n.startswith("_ml_")}
    at = {f.name: f.file for f in P.funcs.values()}
    home = at.get("ExportHeapImage")
    scan = {n for n in quiet if at.get(n) == home and "ExportCSymbol" in R[n] and any("needsRepair" in stores.get(x, ()) for x in R[n])}
    rep = {n for n in quiet if at.get(n) == home and "AddrOfCSymbol" in R[n]}
    scan |= {"BlastGC"} & set(at)
    rep |= {"BlastGC_FinishUp"} & set(at)
    word = {f.name for f in P.funcs.values() if f.file == at.get("ImportHeapImage") and f.name != "ImportHeapImage" and len(f.params) >= 4
            and "ml_val_t" in str(getattr(f, "ret", "")) and f.name not in ("AddrToRelocInfo",)} or {"RepairWord"}
    c.require(scan - {"BlastGC"} and rep - {"BlastGC_FinishUp"}, "the functions that export and repair external references were not found")
    P.r09, P.r09word = (scan, rep), word


class Dev(Img):
    """the bottom layer: stream operations with fixed outcomes"""
    def __init__(self, P, seed, outcome):
        P.r09, P.r09word = getattr(P, "r09", (set(), set())), getattr(P, "r09word", set())
        super().__init__(P)
        self.seed = seed
        self.outcome = outcome

    def load(self, st, loc, ptr, ty, f, line):
        if loc[0] == "F" and loc[2] in self.seed and loc not in st.env:
            return frozenset([self.seed[loc[2]]])
        return super().load(st, loc, ptr, ty, f, line)

    def on_store(self, st, f, line, loc, val):
        if loc[0] == "F" and loc[2] == "errFlg":
            self.event(st, ("err", val1(val), (f.file, f.name, line)))

    def call(self, f, ctx, st, name, av, line, site):
        if name in self.outcome:
            self.event(st, (name,))
            return [(st, frozenset([self.outcome[name]]))]
        if name in ("memcpy", "Error"):
            return [(st, frozenset([("res", name, name)]))]
        if name == "HeapIO_ReadBlock":
            return super(Img, self).call(f, ctx, st, name, av, line, site)
        return super().call(f, ctx, st, name, av, line, site)


def start(w, f, consts):
    st = State()
    st.env[AP] = frozenset([("ap", "entry", 0)])
    a = w.entry_args(f)
    w.call_function(f, [frozenset([consts[i]]) if i in consts else v for i, v in enumerate(a)], st, f.line)


def devices(c, P, byname, bad):
    # the operations of the file writer
    op = byname.get("WR_OpenFile")
    c.require(op is not None, "no WR_OpenFile")
    impl = {}
    for b in op.blocks:
        for i in b.ins:
            if i[0] == "asg" and i[1][0] == "fld" and i[1][2] in WOPS:
                m = re.findall(r"\('fun', '(\w+)'\)", repr(i[2]))
                if m:
                    impl[i[1][2]] = m[0]
    c.require({"write", "putWord", "seek"} <= set(impl), "operations of the file writer")
    for o in ("write", "putWord", "seek"):
        f = next((g for g in P.funcs.values() if g.file == op.file and g.name == impl[o]), None)
        c.require(f is not None, "writer operation %s" % o)
        for fail in (True, False):
            if o == "seek":
                oc = {"fseek": ("i", -1 if fail else 0)}
            else:
                full = 8 if o == "write" else 1
                oc = {"fwrite": ("i", full - (1 if fail else 0))}
            w = Dev(P, {}, oc)
            start(w, f, {2: ("i", 8)} if o == "write" else {})
            for st, v, line in w.rets:
                ev = [e for e in (st.flags or ()) if e[0] == "err"]
                used = any(e[0] in oc for e in (st.flags or ()))
                ok = used and (bool(ev) and ev[-1][1] == ("i", 1) if fail else not ev)
                c.ob(ok, "writer %s, %s" % (o, "failing" if fail else "succeeding"))
                if not ok:
                    bad("writer|%s|%d" % (o, fail), f.file, line, "%s: %s" % (f.name, "nothing is written" if not used else
                        "a failed %s does not set the error flag" % o if fail else "the error flag is changed by a successful %s" % o))
    # the reader
    f = byname.get("HeapIO_ReadBlock")
    c.require(f is not None, "no HeapIO_ReadBlock")
    FILE = ("&", ("G", "file"))
    for what, seed, oc, want in (
            ("file, end of file", {"nbytes": ("i", 0), "file": FILE, "needsSwap": ("i", 0)}, {"fread": ("i", 3), "feof": ("i", 1), "ferror": ("i", 0)}, 0),
            ("file, read error", {"nbytes": ("i", 0), "file": FILE, "needsSwap": ("i", 0)}, {"fread": ("i", 0), "feof": ("i", 0), "ferror": ("i", 1)}, 0),
            ("file, complete", {"nbytes": ("i", 0), "file": FILE, "needsSwap": ("i", 0)}, {"fread": ("i", 8), "feof": ("i", 0), "ferror": ("i", 0)}, 1),
            ("memory, too short", {"nbytes": ("i", 7), "file": ("i", 0), "needsSwap": ("i", 0)}, {}, 0),
            ("memory, exact", {"nbytes": ("i", 8), "file": ("i", 0), "needsSwap": ("i", 0)}, {}, 1)):
        w = Dev(P, seed, oc)
        start(w, f, {2: ("i", 8)})
        c.require(w.rets, "HeapIO_ReadBlock: no result for %s" % what)
        for st, v, line in w.rets:
            t = val1(v)
            ok = t == ("i", want)
            c.ob(ok, "reading 8 bytes from %s" % what)
            if not ok:
                bad("reader|" + what, f.file, line, "HeapIO_ReadBlock: reading from %s is reported as %s" % (
                    what, "a success" if t == ("i", 1) else "a failure" if t == ("i", 0) else "either"))


class Arenas(Img):
    """which arenas a function walks over"""
    def __init__(self, P):
        super().__init__(P)
        self.base, self.top, self.steps = {}, {}, []

    def load(self, st, loc, ptr, ty, f, line):
        if loc[0] == "F" and loc[2] in ("tospBase", "nextw"):
            d = self.base if loc[2] == "tospBase" else self.top
            d.setdefault(loc, (f.file, f.name, line))
        return super().load(st, loc, ptr, ty, f, line)


def which(w, d):
    """the indices of the arenas a set of places belongs to"""
    out = {}
    for loc, at in d.items():
        b = loc[1][1] if loc[1][0] == "P" else loc
        for t in expand(w, frozenset([b])):
            m = re.findall(r"'arena'\), (\([^()]*\))\)", repr(t))
            for x in m[-1:] or ["?"]:
                out.setdefault(x, at)
    return out


def arenas(c, P, byname, bad):
    want = {"('i', 0)", "('i', 1)", "('i', 3)"}        # RECORD, PAIR and ARRAY: all but strings
    home = byname["ImportHeapImage"].file
    fs = [("replaces external references", n) for n in sorted(P.r09[0] - {"BlastGC"})] + \
         [("puts external references back", n) for n in sorted(P.r09[1] - {"BlastGC_FinishUp"})] + [("relocates the heap", "RepairHeap")]
    for what, n in fs:
        fl = home if what == "relocates the heap" else byname["ExportHeapImage"].file
        f = next((g for g in P.funcs.values() if g.name == n and g.file == fl), None)
        if f is None:
            continue
        old = P.r09
        P.r09 = (set(), set())
        w = Arenas(P)
        P.r09 = old
        w.run(f)
        for d, nm in ((which(w, w.base), "start"), (which(w, w.top), "end")):
            got = {x for x in d if x.startswith("('i'")}
            unk = set(d) - got
            miss, extra = (want - got if not unk else set()), got - want
            ok = not miss and not extra
            c.ob(ok, "%s %s: %s of arenas %s" % (n, what, nm, sorted(d)))
            if not ok:
                at = next(iter(d.values()), (f.file, n, f.line))
                bad("%s|%s|arenas" % (n, fl), at[0], at[2], "%s %s, but %s arena %s" % (
                    n, what, "leaves out" if miss else "also walks over", sorted(miss or extra)[0]))
                break


ENTRIES = [("_ml_RunT_export_heap", "raise"), ("_ml_RunT_export_fun", "die"), ("_ml_RunT_blast_out", "raise"),
           ("_ml_RunT_blast_in", "raise"), ("ImportHeapImage", "die")]


def failures(c, P, byname, bad):
    n = 0
    for name, how in ENTRIES:
        f = byname.get(name)
        c.require(f is not None, "no function " + name)
        w = Fail(P, None)
        w.run(f)
        sites = sorted(x for x in w.sites if not (x[0] == "close" and name == "ImportHeapImage"))
        c.require(sites, "%s: no image operation found" % name)
        for st, v, line in w.rets:
            d, e, r = w.fl(st)
            ok = not d or val1(v) == ("raised",)
            c.ob(ok, "%s: the outcome of every write is looked at" % name)
            if not ok:
                bad("%s|unseen|%s" % (name, d[1]), d[0], d[2], "%s: nobody looks at the outcome of this write" % d[1])
            if r:
                bad("%s|repair" % name, r[0], r[2], "%s: the heap is not repaired before the program continues" % r[1])
        for site in sites:
            w = Fail(P, site)
            w.run(f)
            n += 1
            for st, v, line in w.rets:
                d, e, r = w.fl(st)
                if not e:
                    continue
                t = val1(v)
                ok = how == "raise" and t == ("raised",)
                if r:
                    bad("%s|repair|%s" % (name, site[2]), r[0], r[2], "%s: after a failure in %s the heap is not repaired before the program continues" % (r[1], site[2]))
                c.ob(ok, "%s: failure at %s line %d" % (name, site[2], site[3]))
                if not ok:
                    bad("%s|%s|%s" % (name, site[0], site[2]), site[1], site[3],
                        "%s: a failed %s here is not reported by %s" % (site[2], {"errFlg": "write", "close": "close", "read": "read"}[site[0]], name))
            for st, what, a, g, line in w.ended:
                d, e, r = w.fl(st)
                if e and what in ("Exit", "exit", "_exit") and a == ("i", 0):
                    bad("%s|%s|%s" % (name, site[0], site[2]), site[1], site[3], "%s: a failed operation here ends the program with success" % site[2])
    c.cov.update(failures=n)


class Reg(Img):
    """what is written to and read from the image"""
    def __init__(self, P, kind=None):
        super().__init__(P, kind)
        self.written = {}
        self.MAXEV = 0

    def on_store(self, st, f, line, loc, val):
        """states are kept apart by the small values of the variables that index the callee-save registers"""
        if loc[0] == "L" and loc[2] in idxvars(f):
            t = val1(val)
            fl = dict(st.flags) if isinstance(st.flags, tuple) else {}
            fl.pop(loc, None)
            if t is not None and t[0] == "i" and 0 <= t[1] <= 4:
                fl[loc] = t
            st.flags = tuple(sorted(fl.items(), key=repr)) if fl else frozenset()

    def joinstate(self, a, b, widen):
        m = self.mergept
        if a.flags and isinstance(a.flags, tuple):
            self.mergept = (m[0], m[1:], a.flags)
        try:
            return super().joinstate(a, b, widen)
        finally:
            self.mergept = m

    def wrop(self, st, f, op, av, line):
        if op == "write":
            for t in av[1]:
                if t[0] == "&":
                    for k, v in st.env.items():
                        if k[0] in ("F", "E") and self.under(k, t[1]):
                            p = []
                            l = k
                            while l != t[1] and l[0] in ("F", "E"):
                                p.insert(0, l[2])
                                l = l[1]
                            self.written.setdefault((self.typeof(t[1], f), tuple(p)), set()).update(v)
        return super().wrop(st, f, op, av, line)


IDX = {}


def idxvars(f):
    k = (f.file, f.name)
    if k not in IDX:
        IDX[k] = set(re.findall(r"'(?:ml_)?calleeSave'[^()]*\), \('var', '(\w+(?:\.\d+)?)'\)", repr([b.ins for b in f.blocks])))
    return IDX[k]


def expand(w, v, seen=()):
    """the values a merged value stands for"""
    out = set()
    for t in v:
        t = strip(t)
        if t[0] == "phi" and t in w.inputs and t not in seen:
            out |= expand(w, w.inputs[t], seen + (t,))
        elif t[0] != "phi":
            out.add(t)
    return out


def root(t):
    """the register or global a value was loaded from"""
    t = strip(t)
    if t[0] == "hres" and t[1] == "ExportCSymbol" and len(t) > 3:
        return root(t[3])
    if t[0] in ("ld", "ldi"):
        return rootloc(t[1])
    return None


def rootloc(l):
    fl, i = field(l)
    if fl and fl.startswith("ml_"):
        return (fl, i[1]) if i and i[0] == "i" else fl
    g = re.findall(r"\('G', '(\w+)'\)", repr(l))
    if len(g) == 1 and l[0] in ("G", "E"):
        return g[0].lstrip("_")
    return None


GLOBALS = ["MLSignalHandler", "PervStruct", "RunTimeCompUnit"]


def roots(c, P, byname, bad):
    ex, im = byname.get("ExportHeapImage"), byname.get("ImportHeapImage")
    c.require(ex is not None and im is not None, "no image export/import")
    w = Reg(P)
    w.run(ex)
    saved = {}
    for (ty, path), v in w.written.items():
        rs = {root(t) for t in expand(w, v)}
        if len(rs) == 1 and None not in rs:
            saved.setdefault(rs.pop(), set()).add((ty, path))
        elif None not in rs and len(rs) > 1:
            bad("export|%s.%s" % (ty, path[0]), ex.file, ex.line, "ExportImage: field %s may hold any of %s" % (path[0], sorted(map(str, rs))))
    r = Reg(P, kind=1)
    r.run(im)
    c.require(r.rets, "ImportHeapImage does not return")
    for reg in REGS + GLOBALS:
        fields = saved.get(reg, set())
        c.ob(bool(fields), "%s is saved in %s" % (key(reg), sorted(fields)))
        if not fields:
            bad("export|%s" % key(reg), ex.file, ex.line, "ExportImage: %s is not saved in the image" % key(reg))
            continue
        for st, _, line in r.rets:
            got = None
            for k, v in st.env.items():
                if k[0] in ("F", "E", "G") and rootloc(k) == reg and "phi" not in repr(k):
                    got = v
            ts = expand(r, got) if got else set()
            ok = bool(ts)
            for t in ts:
                if not (t[0] == "hres" and t[1] == "RepairWord" and t[2][0] == "out" and t[2][1] == "img" and (t[2][2], t[2][4]) in fields):
                    ok = False
            c.ob(ok, "%s is restored, relocated, from %s" % (key(reg), sorted(fields)))
            if not ok:
                what = ("is not restored" if not ts else "is not relocated" if all(t[0] == "out" for t in ts) else
                        "is not restored from the field it was saved in")
                bad("import|%s" % key(reg), im.file, line, "ImportHeapImage: %s %s" % (key(reg), what))
    # a function image: the function is entered with the saved closure
    fe = byname.get("ExportFnImage")
    w = Reg(P)
    w.run(fe)
    fields = {k for k, v in w.written.items() if k[0] == "ml_vproc_image_t" and
              {t if t[0] != "hres" else strip(t[3]) for t in expand(w, v)} == {("arg", 1, "ml")}}
    c.ob(bool(fields), "the exported function is saved in %s" % sorted(fields))
    if not fields:
        bad("exportFn|fn", fe.file, fe.line, "ExportFnImage: the function is not saved in the image")
    r = Reg(P, kind=2)
    r.run(im)
    for st, _, line in r.rets:
        v = next((v for k, v in st.env.items() if k[0] == "F" and rootloc(k) == "ml_closure"), frozenset())
        ts = expand(r, v)
        ok = bool(ts) and all(t[0] == "hres" and t[1] == "RepairWord" and t[2][0] == "out" and (t[2][2], t[2][4]) in fields for t in ts)
        c.ob(ok, "the imported function is the exported one")
        if fields and not ok:
            bad("importFn|fn", im.file, line, "ImportHeapImage: the function entered is not the one that was exported")


# ---- blocks

def name(t):
    t = strip(t)
    if t[0] in ("ld", "ldi") and t[1][0] == "F":
        return t[1][2]
    if t[0] == "out" and t[4]:
        return str(t[4][-1])
    return None


def factors(t):
    t = strip(t)
    if t[0] == "op" and t[1] == "*":
        return factors(t[2]) + factors(t[3])
    if t[0] == "op" and t[1] == "<<" and strip(t[3])[0] == "i":
        return factors(t[2]) + [("i", 1 << strip(t[3])[1])]
    return [t]


def size(t):
    """a size as a sum of products of constants and names of fields"""
    k, names = 1, []
    fs = factors(t)
    for x in fs:
        if x[0] == "i":
            k *= x[1]
        elif x[0] == "sizeof":
            names.append("sizeof " + str(x[1]))
        elif name(x) is not None:
            names.append(name(x))
        else:
            l = lin(x)
            if len(fs) == 1 and not l.a:
                return str(l.k)
            parts = {str(strip(a)): cf for a, cf in l.a.items()}
            if str(x) in parts or len(l.a) < 1:
                ns = sorted(set(re.findall(r"'(sizeB|numBOPages|numBigObjs|numGens|numBORegions|nextw|tospBase)'", repr(x))))
                names.append("round(%s)" % ",".join(ns) if x[0] == "op" else "None")
            else:
                names.append("(%s)" % "+".join(sorted("%d*%s" % (cf, size(a)) for a, cf in l.a.items()) + ([str(l.k)] if l.k else [])))
    if not names:
        return str(k)
    return "*".join([str(k)] + sorted(names))


class Blocks(Img):
    """the blocks in the order of their first occurrence"""
    def load(self, st, loc, ptr, ty, f, line):
        if loc[0] == "F" and loc[2] == "errFlg":
            return frozenset([("i", 0)])
        return super().load(st, loc, ptr, ty, f, line)

    def note(self, st, f, what, sz, line):
        fl = st.flags if isinstance(st.flags, tuple) else ()
        ev = (what, sz, (f.file, f.name, line))
        if ev not in fl:
            st.flags = fl + (ev,)

    def wrop(self, st, f, op, av, line):
        if op == "write":
            self.note(st, f, "block", size(val1(av[2]) or ("top",)), line)
        elif op == "seek":
            self.note(st, f, "seek", size(val1(av[1]) or ("top",)), line)
        return super().wrop(st, f, op, av, line)

    def read(self, st, f, av, line):
        self.note(st, f, "block", size(val1(av[2]) or ("top",)), line)
        return frozenset([("i", 1)])

    def opaque(self, st, f, nm, av, line):
        if nm == "HeapIO_Seek":
            self.note(st, f, "seek", size(val1(av[1]) or ("top",)), line)
        if nm in ("HeapIO_WriteExterns", "HeapIO_ReadExterns"):
            self.note(st, f, "externs", "", line)
        return super().opaque(st, f, nm, av, line)

    def call(self, f, ctx, st, nm, av, line, site):
        if nm in ("HeapIO_WriteExterns", "HeapIO_ReadExterns"):
            return self.opaque(st, f, nm, av, line)
        return super().call(f, ctx, st, nm, av, line, site)


EQUAL = {"1*round(sizeB)": "big objects", "1024*numBOPages": "big objects"}


def summary(w):
    """blocks every path begins with, the others, and which of them come in a fixed order"""
    paths = [s.flags if isinstance(s.flags, tuple) else () for s, v, _ in w.rets if v != frozenset([("i", 0)])]
    at, sizes = {}, {}
    for p in paths:
        for what, sz, site in p:
            sizes.setdefault(site, set()).add((what, EQUAL.get(sz, sz)))
            at[site] = what
    lab = {s: tuple(sorted(x for x in v if "None" not in x[1]) or sorted(v)) for s, v in sizes.items()}
    seqs = []
    for p in paths:
        q = []
        for what, sz, site in p:
            if site not in q:
                q.append(site)
        seqs.append(q)
    pre = []
    for i in range(min(map(len, seqs), default=0)):
        if len({q[i] for q in seqs}) == 1:
            pre.append(seqs[0][i])
        else:
            break
    rest = [s for s in lab if s not in pre]
    order = set()
    for x in rest:
        for y in rest:
            if x != y and any(x in q for q in seqs) and all(x in q and q.index(x) < q.index(y) for q in seqs if y in q):
                order.add((lab[x], lab[y]))
    return [lab[s] for s in pre], sorted(lab[s] for s in rest), order, {lab[s]: s for s in lab}


def blocks(c, P, byname, bad):
    for wname, rname, kind in (("ExportHeapImage", "ImportHeapImage", 1),):
        w = Blocks(P)
        w.run(byname[wname])
        r = Blocks(P, kind)
        r.run(byname[rname])
        a, b = summary(w), summary(r)
        c.require(len(a[0]) >= 4 and len(b[0]) >= 4 and a[1] and b[1], "%s/%s: blocks not found" % (wname, rname))
        for i in range(max(len(a[0]), len(b[0]))):
            x = a[0][i] if i < len(a[0]) else None
            y = b[0][i] if i < len(b[0]) else None
            ok = x == y
            c.ob(ok, "block %d: %s" % (i, x))
            if not ok:
                s = b[3].get(y) or a[3].get(x)
                bad("%s|block%d" % (rname, i), s[0], s[2], "%s: block %d of the image is read as %s but was written as %s" % (s[1], i, y, x))
                return
        ok = a[1] == b[1]
        c.ob(ok, "blocks of each generation: %s" % a[1])
        if not ok:
            d = [x for x in b[1] if x not in a[1]] + [x for x in a[1] if x not in b[1]]
            s = (b[3].get(d[0]) or a[3].get(d[0])) if d else (byname[rname].file, rname, byname[rname].line)
            bad("%s|blocks" % rname, s[0], s[2], "%s: the blocks of a generation are read as %s but were written as %s" % (s[1], b[1], a[1]))
        for o in sorted(a[2] | b[2]):
            ok = o in a[2] and o in b[2]
            c.ob(ok, "%s before %s" % o)
            if not ok:
                s = b[3].get(o[1]) or a[3].get(o[1])
                bad("%s|order|%s" % (rname, o), s[0], s[2], "%s: writer and reader disagree on whether %s comes before %s" % ((s[1],) + o))
