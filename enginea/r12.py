"""R12: signals are accounted for and the interrupted state resumes intact.

Checked on the analysed C of the runtime, on every path (states are kept apart by what they did to the
signal state):
  accounting   whoever records or hands out signals changes the per-signal and the total counter by the
               same amount; ChooseSignal hands out exactly the outstanding number of one signal
  pending      a handler is requested exactly if ML code is running, none is pending and none is active
               (evaluated for every combination of the three flags)
  resume       LoadResumeState restores every register from the slot in which MakeResumeCont saved it
  dispatch     RunML saves the interrupted state before it overwrites any register, enters the handler with
               the chosen signal, and leaves the flags in the matching state"""
import os
import re
from .ssa import *
from .sizes import lin, Lin, strip, fromlin, hasatom
from lib import core

COUNT = ("nReceived", "nHandled")
SAVED = ["ml_arg", "ml_cont", "ml_closure", "ml_linkReg", "ml_pc", "ml_exnCont",
         ("ml_calleeSave", 0), ("ml_calleeSave", 1), ("ml_calleeSave", 2)]
REGS = {"ml_arg", "ml_cont", "ml_closure", "ml_linkReg", "ml_pc", "ml_exnCont", "ml_calleeSave", "ml_varReg"}


def field(loc):
    """(field, index) of a location in the ML state / vproc"""
    if loc[0] == "E" and loc[1][0] == "F":
        return loc[1][2], loc[2]
    if loc[0] == "F":
        return loc[2], None
    return None, None


class Sig(SSA):
    """records changes of signal counters and flags"""
    def __init__(self, P, seed=None, events=True):
        super().__init__(P)
        self.seed = seed or {}
        self.rets = []
        self.events = events

    def elem(self, b, i):
        return ("E", b, i if i[0] not in ("top",) else ("*",))

    def load(self, st, loc, ptr, ty, f, line):
        if loc[0] == "F" and loc[2] in self.seed and loc not in st.env:
            return frozenset([self.seed[loc[2]]])
        return super().load(st, loc, ptr, ty, f, line)

    def on_store(self, st, f, line, loc, val):
        if not self.events:
            return
        if loc[0] == "F" and loc[2] in COUNT:
            b = loc[1]
            which, idx = (b[1][2], b[2]) if b[0] == "E" and b[1][0] == "F" else (b[2], None) if b[0] == "F" else ("?", None)
            t = val1(val)
            d = None
            old = val1(self.load(st, loc, False, "", f, line))
            if t is not None and old is not None and t[0] != "top" and old[0] != "top":
                d = fromlin(lin(t) - lin(old))
            self.event(st, (loc[2], which, idx, d, (f.file, f.name, line)))
        elif loc[0] == "F" and loc[2] in ("vp_handlerPending", "vp_inSigHandler", "vp_sigCode", "vp_sigCount", "vp_limitPtrMask"):
            self.event(st, ("set", loc[2], val1(val), None, (f.file, f.name, line)))
        elif loc[0] == "E" and "gregs" in repr(loc) or loc[0] == "F" and "uc_mcontext" in repr(loc):
            self.event(st, ("set", "limit", val1(val), None, (f.file, f.name, line)))

    def on_return(self, st, f, val, line):
        if len(self.stack) == 1:
            self.rets.append((st, val, line))


def paths(w):
    return [(s.flags if isinstance(s.flags, tuple) else (), s, ln) for s, _, ln in w.rets]


def entries(P):
    """functions that change the signal counters, static helpers replaced by their callers"""
    st, callers, taken = set(), {}, set()
    for f in P.funcs.values():
        for b in f.blocks:
            for ins in b.ins:
                if ins[0] == "asg" and ins[1][0] == "fld" and ins[1][2] in COUNT:
                    st.add(f.name)
                if ins[0] == "call" and ins[2][0] == "fun":
                    callers.setdefault(ins[2][1], set()).add(f.name)
                s = repr(ins[2:] if ins[0] == "asg" else ins[3:])
                for m in re.findall(r"\('fun', '(\w+)'\)", s):
                    taken.add(m)
    out, todo = set(), list(st)
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in HELPERS or n in taken or not callers.get(n) or n in PUBLIC:
            out.add(n)
        else:
            todo.extend(callers[n])
    return sorted(out - INIT)


HELPERS = set()
PUBLIC = {"GCSignal", "ChooseSignal", "CSigHandler"}
INIT = {"InitVProcState", "AllocMLState", "InitMLState", "main", "BootML", "LoadML"}


def check(c):
    from . import program
    c.rule = ("on every path: per-signal and total counters change by the same amount; a handler is requested iff ML runs and none is "
              "pending or active; registers are restored from the slots they were saved in; RunML saves before it overwrites")
    P = program.Program()
    byname = {}
    for f in P.funcs.values():
        byname.setdefault(f.name, f)

    def bad(key, file, line, text):
        c.violation(key, "base/runtime/%s:%d" % (file, line), text)

    # ---- accounting
    ents = [n for n in entries(P) if n in byname]
    c.require("ChooseSignal" in ents and "GCSignal" in ents and len(ents) >= 3, "signal bookkeeping not found: %s" % ents)
    npaths = 0
    gc = gcsig(c, P, byname)
    for n in ents:
        f = byname[n]
        w = Sig(P)
        w.run(f)
        for ev, st, line in paths(w):
            npaths += 1
            probs = []
            for fld in COUNT:
                one_ = [e for e in ev if e[0] == fld and e[1] == "vp_sigCounts"]
                tot = [e for e in ev if e[0] == fld and e[1] == "vp_totalSigCount"]
                da, db = sorted(repr(e[3]) for e in one_), sorted(repr(e[3]) for e in tot)
                if da != db or any(e[3] is None for e in one_ + tot):
                    probs.append((fld, (one_ + tot)[0][4], "the per-signal and the total count of signals %s are not changed alike" %
                                  ("received" if fld == "nReceived" else "handled")))
                for e in one_:
                    if fld == "nReceived" and e[3] != ("i", 1):
                        probs.append((fld, e[4], "a received signal is not counted once"))
                    if fld == "nReceived" and n == "GCSignal" and e[2] != ("i", gc):
                        probs.append((fld, e[4], "a garbage-collection signal is counted as another signal"))
                    if fld == "nReceived" and strip(e[2])[0] != "i" and strip(e[2]) != ("arg", 0, "c"):
                        probs.append((fld, e[4], "a signal is counted under another number"))
                    if fld == "nHandled":
                        i = e[2]
                        b = ("E", None, i)
                        l = lin(e[3])
                        got = sorted((k_, cf) for a, cf in l.a.items() for k_ in [cnt(a, i)])
                        if l.k != 0 or got != [("nHandled", -1), ("nReceived", 1)]:
                            probs.append((fld, e[4], "the number of signals marked as handled is not the number outstanding"))
                        code = [x for x in ev if x[1] == "vp_sigCode"]
                        num = [x for x in ev if x[1] == "vp_sigCount"]
                        if not code or code[-1][2] is None or strip(code[-1][2]) != strip(i):
                            probs.append((fld, e[4], "the signal handed to the handler is not the one marked as handled"))
                        if not num or num[-1][2] is None or lin(num[-1][2]).key() != l.key():
                            probs.append((fld, e[4], "the count handed to the handler is not the number marked as handled"))
            if n == "ChooseSignal" and not any(e[0] == "nHandled" for e in ev):
                probs.append(("nHandled", (f.file, f.name, line), "a path chooses no signal"))
            c.ob(not probs, "%s: %d changes of signal state on a path to line %d" % (n, len(ev), line))
            for k, (fi, fn, ln), txt in probs:
                bad("%s|%s|%s" % (n, k, txt), fi, ln, "%s: %s" % (n, txt))
        if n == "ChooseSignal":
            scan(c, P, f, bad)

    # ---- a handler is requested iff ML runs, none is pending and none is active
    nev = 0
    for n in ents:
        if n == "ChooseSignal":
            continue
        f = byname[n]
        for inml in (0, 1):
            for pend in (0, 1):
                for act in (0, 1):
                    seed = {"vp_inMLFlag": ("i", inml), "vp_handlerPending": ("i", pend), "vp_inSigHandler": ("i", act),
                            "vp_gcSigState": ("i", ENABLED), "vp_gcSigThreshold": ("i", 0), "vp_sigCode": ("i", 1)}
                    w = Sig(P, seed)
                    w.run(f) if n != "GCSignal" else run_gc(w, f, 1)
                    want = inml and not pend and not act
                    for ev, st, line in paths(w):
                        nev += 1
                        req = [e for e in ev if e[0] == "set" and e[1] == "vp_handlerPending" and e[2] not in (None, ("i", pend))]
                        ok = bool(req) == bool(want)
                        if n != "GCSignal" and want:
                            ok2 = any(e[1] == "limit" and e[2] == ("i", 0) for e in ev)
                            if not ok2:
                                bad("%s|limit" % n, f.file, line, "%s: the limit pointer is not zeroed when a handler is requested" % n)
                        if n != "GCSignal" and not any(e[1] == "vp_limitPtrMask" and e[2] == ("i", 0) for e in ev):
                            bad("%s|mask" % n, f.file, line, "%s: the limit-pointer mask is not cleared, so a signal during C code goes unnoticed" % n)
                        if not any(e[0] == "nReceived" for e in ev):
                            ok = False
                        c.ob(ok, "%s with inML=%d pending=%d inHandler=%d" % (n, inml, pend, act))
                        if not ok:
                            bad("%s|pending|%d%d%d" % (n, inml, pend, act), f.file, line,
                                "%s: with inML=%d, pending=%d, in handler=%d %s" % (
                                    n, inml, pend, act, "the signal is not counted" if not any(e[0] == "nReceived" for e in ev) else
                                    "a handler is requested" if req else "no handler is requested"))
    # ---- GC signals: only when enabled, at or above the threshold, and not from their own handler
    f = byname["GCSignal"]
    for state, gen, thr, act, code, want in ((ENABLED, 1, 1, 0, 1, True), (ENABLED, 2, 1, 0, 1, True), (ENABLED, 0, 1, 0, 1, False),
                                             (ENABLED, 1, 1, 1, gc, False), (ENABLED, 1, 1, 1, 1, True),
                                             (IGNORE, 1, 1, 0, 1, False), (DEFAULT, 1, 1, 0, 1, False)):
        w = Sig(P, {"vp_gcSigState": ("i", state), "vp_gcSigThreshold": ("i", thr), "vp_inSigHandler": ("i", act), "vp_sigCode": ("i", code)})
        run_gc(w, f, gen)
        for ev, st, line in paths(w):
            ok = any(e[0] == "nReceived" for e in ev) == want
            c.ob(ok, "GCSignal state=%d gen=%d threshold=%d active=%d code=%d" % (state, gen, thr, act, code))
            if not ok:
                bad("GCSignal|when|%d%d%d%d" % (state, gen, thr, act), f.file, line,
                    "GCSignal: with state=%d, generations=%d, threshold=%d, in handler=%d (signal %d) the GC signal is %s" % (
                        state, gen, thr, act, code, "raised" if not want else "dropped"))

    # ---- resume
    mk_, ld_, ha_ = byname.get("MakeResumeCont"), byname.get("LoadResumeState"), byname.get("MakeHandlerArg")
    c.require(mk_ is not None and ld_ is not None and ha_ is not None, "no resume continuation")
    w = Unroll(P)
    w.run(mk_)
    c.require(w.rets, "MakeResumeCont has no return")
    saved = record(w.rets)
    w = Unroll(P)
    w.run(ld_)
    restored = {}
    for st, v, line in w.rets:
        for k, x in st.env.items():
            fl, i = field(k)
            if fl in REGS:
                restored[(fl, i[1]) if i else fl] = (x, line)
    w = Handler(P)
    w.run(ha_)
    c.require(w.rets, "MakeHandlerArg has no return")
    arg = record(w.rets)
    for i, what in ((1, "vp_sigCode"), (2, "vp_sigCount"), (3, "the resumption continuation")):
        t = val1(arg.get(i, frozenset()))
        ok = t is not None and (t == ("hres", "MakeResumeCont") if i == 3 else untag(t) == what)
        c.ob(ok, "MakeHandlerArg: component %d of the handler's argument is %s" % (i, what))
        if not ok:
            bad("MakeHandlerArg|%d" % i, ha_.file, w.rets[0][2], "MakeHandlerArg: component %d of the handler's argument is not %s" % (i, what))
    for r in SAVED:
        slots = [s for s, x in saved.items() if val1(x) is not None and reg_of(val1(x)) == r]
        x, line = restored.get(r, (frozenset(), ld_.line))
        t = val1(x)
        got = slot_of(t) if t is not None else None
        ok = got is not None and any(s - 1 == got for s in slots)
        nm = r if isinstance(r, str) else "%s[%d]" % r
        c.ob(ok, "register %s saved in slot %s, restored from slot %s" % (nm, slots, got))
        if not ok:
            bad("resume|%s" % nm, ld_.file, line or ld_.line, "LoadResumeState: register %s is not restored from the slot in which MakeResumeCont saved it" % nm)

    dispatch(c, P, byname, bad)
    c.cov.update(functions=len(ents) + 3, paths=npaths, flag_combinations=nev)


class Unroll(Sig):
    """loops with constant counters are followed step by step"""
    def __init__(self, P):
        super().__init__(P, events=False)

    def on_store(self, st, f, line, loc, val):
        t = val1(val)
        if loc[0] == "L" and t is not None and t[0] == "i":
            self.event(st, (loc, t))


class Handler(Unroll):
    def call(self, f, ctx, st, name, av, line, site):
        if name == "MakeResumeCont":
            return [(st, frozenset([("hres", name)]))]
        return super().call(f, ctx, st, name, av, line, site)


def record(rets):
    out = {}
    for st, v, line in rets:
        for k, x in st.env.items():
            if k[0] == "H" and isinstance(k[2], int):
                out.setdefault(k[2], set()).update(x)
    return out


def untag(t):
    """the field whose tagged form (2n+1) the value is"""
    l = lin(t)
    if len(l.a) == 1 and l.k == 1:
        ((a, cf),) = l.a.items()
        a = strip(a)
        if cf == 2 and a[0] in ("ld", "ldi"):
            return field(a[1])[0]
    return None


def cnt(a, i):
    a = strip(a)
    if a[0] in ("ld", "ldi") and a[1][0] == "F" and a[1][2] in COUNT and a[1][1][0] == "E" and a[1][1][1][0] == "F" \
            and a[1][1][1][2] == "vp_sigCounts" and a[1][1][2] == i:
        return a[1][2]
    return "?"


def reg_of(t):
    t = strip(t)
    if t[0] in ("ld", "ldi"):
        fl, i = field(t[1])
        if fl in REGS:
            return (fl, i[1]) if i else fl
    return None


def slot_of(t):
    t = strip(t)
    if t[0] in ("ld", "ldi") and t[1][0] == "P" and t[1][2][0] == "i" and reg_of(t[1][1]) == "ml_closure":
        return t[1][2][1]
    if t[0] in ("ld", "ldi") and t[1][0] == "P" and t[1][2] == ("i", 0):
        return 0
    return None


def run_gc(w, f, gen):
    st = State()
    st.env[AP] = frozenset([("ap", "entry", 0)])
    a = w.entry_args(f)
    w.call_function(f, a[:1] + [frozenset([("i", gen)])] + a[2:], st, f.line)


ENABLED, IGNORE, DEFAULT = 2, 0, 1          # ML_SIG_* (shared with the SML side, checked by R06)


def gcsig(c, P, byname):
    """the number of the GC signal: the one whose state SetSignalState keeps in vp_gcSigState"""
    f = byname.get("SetSignalState")
    c.require(f is not None, "no SetSignalState")
    hits = []
    for n in range(1, 64):
        w = Sig(P)
        st = State()
        st.env[AP] = frozenset([("ap", "entry", 0)])
        a = w.entry_args(f)
        w.call_function(f, [a[0], frozenset([("i", n)]), frozenset([("i", ENABLED)])], st, f.line)
        if any(field(k)[0] == "vp_gcSigState" and v == frozenset([("i", ENABLED)]) for s, _, _ in w.rets for k, v in s.env.items()):
            hits.append(n)
    c.require(len(hits) == 1, "the GC signal was not identified: %s" % hits)
    return hits[0]


class Scan(Sig):
    """which slots of the table are looked at, one after the other"""
    def __init__(self, P, seed, size):
        super().__init__(P, seed)
        self.MAXEV = size + 12

    def load(self, st, loc, ptr, ty, f, line):
        if loc[0] == "F" and loc[2] == "nReceived" and loc[1][0] == "E" and loc[1][1][0] == "F" and loc[1][1][2] == "vp_sigCounts":
            fl = st.flags if isinstance(st.flags, tuple) else ()
            ev = ("look", loc[1][2], None, None, (f.file, f.name, line))
            if not fl or fl[-1][:2] != ev[:2]:
                self.event(st, ev)
        return super().load(st, loc, ptr, ty, f, line)


def scan(c, P, f, bad):
    """wherever the search for a pending signal starts, it looks at every slot of the table, and at no other,
    before it looks at one twice"""
    size = None
    for n, t in P.records.get("vproc_state_t", []) or [x for r in P.records.values() for x in r if x[0] == "vp_sigCounts"]:
        if n == "vp_sigCounts":
            m = re.search(r"\[(\d+)\]", t)
            size = int(m.group(1)) if m else None
    c.require(size is not None, "size of vp_sigCounts")
    for k in range(size):
        w = Scan(P, {"vp_nextPendingSig": ("i", k)}, size)
        w.run(f)
        looks = max(([e for e in ev if e[0] == "look"] for ev, _, _ in paths(w)), key=len, default=[])
        want = set(range(1, size))
        seq = [strip(e[1]) for e in looks][:size - 1]
        c.require(seq, "ChooseSignal: no search for a pending signal")
        got = {t[1] for t in seq if t[0] == "i"}
        ok = got == want
        c.ob(ok, "%s: the search from slot %d looks at all %d slots" % (f.name, k, size - 1))
        if not ok:
            miss, extra = sorted(want - got), sorted(got - want)
            bad("%s|scan" % f.name, f.file, looks[0][4][2], "%s: the search for a pending signal, started after signal %d, %s" % (
                f.name, k, "looks outside the table" if extra and extra[-1] >= size else "looks at signal 0" if extra else
                "does not reach signal %s" % (miss[0] if miss else "?")))
            break


class Disp(Sig):
    def __init__(self, P, seed, req):
        super().__init__(P, seed)
        self.req = req
        self.traces = {}
        self.first = True

    def done(self, st, f, line, how):
        ev = st.flags if isinstance(st.flags, tuple) else ()
        if ev:
            self.traces[ev[1:]] = (f, line, how)

    def call(self, f, ctx, st, name, av, line, site):
        if name == "restoreregs":
            self.done(st, f, line, "loop")
            if st.flags:
                return []
            st.flags = (("go", None, None, None, None),)
            return [(st, frozenset([("i", self.req)]))]
        if name in ("ChooseSignal", "MakeHandlerArg", "LoadResumeState", "InvokeGC", "MakeResumeCont"):
            self.event(st, ("call", name, tuple(val1(v) for v in av), None, (f.file, f.name, line)))
            return [(st, frozenset([("hres", name)]))]
        if name in ("Die", "exit", "Exit"):
            return []
        if name is None or name in ("BindCFun", "UncaughtExn", "RaiseMLExn") or name.startswith(("ML_Alloc", "ML_CString", "BO_")):
            return [(st, TOPS)]
        return super().call(f, ctx, st, name, av, line, site)

    def on_store(self, st, f, line, loc, val):
        fl, i = field(loc)
        if fl in REGS and "msp" in repr(loc):
            self.event(st, ("reg", fl, val1(val), None, (f.file, f.name, line)))
            return
        super().on_store(st, f, line, loc, val)

    def on_return(self, st, f, val, line):
        if len(self.stack) == 1:
            self.done(st, f, line, "return")


def dispatch(c, P, byname, bad):
    f = byname.get("RunML")
    c.require(f is not None, "no RunML")
    src = open(os.path.join(core.REPO, "base/runtime/include/ml-request.h"), encoding="latin-1").read()
    req = {m.group(1): int(m.group(2)) for m in re.finditer(r"#\s*define\s+(REQ_\w+)\s+(\d+)", src)}
    c.require(all(r in req for r in ("REQ_GC", "REQ_SIG_RETURN", "REQ_SIG_RESUME")), "request codes")
    for r in ("REQ_GC", "REQ_SIG_RETURN", "REQ_SIG_RESUME"):
        for pend in (0, 1):
            w = Disp(P, {"vp_handlerPending": ("i", pend)}, req[r])
            w.run(f)
            c.require(w.traces, "RunML: no path for %s" % r)
            for ev, (g, line, how) in w.traces.items():
                pr = judge(r, pend, ev)
                c.ob(not pr, "RunML %s pending=%d: %d steps" % (r, pend, len(ev)))
                for t in pr:
                    at = next((e[4][2] for e in ev if e[4]), line)
                    bad("RunML|%s|%d|%s" % (r, pend, t), f.file, at, "RunML: on %s%s %s" % (r, " with a signal pending" if pend else "", t))


def judge(r, pend, ev):
    pr = []
    calls = [e[1] for e in ev if e[0] == "call"]
    sets = {}
    for e in ev:
        if e[0] == "set":
            sets[e[1]] = e[2]
    regs = {}
    for e in ev:
        if e[0] == "reg":
            regs[e[1]] = e[2]
    if r == "REQ_GC" and not pend:
        if "InvokeGC" not in calls:
            pr.append("no collection is run")
        if "MakeHandlerArg" in calls or sets.get("vp_inSigHandler") == ("i", 1):
            pr.append("the signal handler is entered although no signal is pending")
    elif r == "REQ_GC":
        if calls.count("ChooseSignal") != 1 or "MakeHandlerArg" not in calls or calls.index("ChooseSignal") > calls.index("MakeHandlerArg"):
            pr.append("the handler's argument is not made for one chosen signal")
            return pr
        at = next(i for i, e in enumerate(ev) if e[0] == "call" and e[1] == "MakeHandlerArg")
        early = [e[1] for e in ev[:at] if e[0] == "reg"]
        if early:
            pr.append("register %s is overwritten before the interrupted state is saved" % early[0])
        if any(e[0] == "call" and e[1] == "InvokeGC" for e in ev[at:]):
            pr.append("a collection runs while the handler is being entered")
        if regs.get("ml_arg") != ("hres", "MakeHandlerArg"):
            pr.append("the handler does not get its argument")
        cl = regs.get("ml_closure")
        if cl is None or "_MLSignalHandler" not in repr(cl):
            pr.append("the closure entered is not the installed signal handler")
        for x in ("ml_cont", "ml_exnCont", "ml_pc", "ml_linkReg"):
            if x not in regs:
                pr.append("register %s keeps the interrupted program's value" % x)
        if "ml_pc" in regs and regs["ml_pc"] != regs.get("ml_linkReg"):
            pr.append("the program counter and the link register disagree")
        if sets.get("vp_inSigHandler") != ("i", 1):
            pr.append("the handler is not marked as active")
        if sets.get("vp_handlerPending") != ("i", 0):
            pr.append("the handler stays marked as pending")
    elif r == "REQ_SIG_RETURN":
        if sets.get("vp_inSigHandler") != ("i", 0):
            pr.append("the handler stays marked as active")
        if regs.get("ml_closure") is None or reg_of(regs["ml_closure"]) != "ml_arg":
            pr.append("control does not go to the continuation the handler returned")
        if "ml_pc" in regs and regs["ml_pc"] != regs.get("ml_linkReg") or "ml_pc" not in regs:
            pr.append("the program counter and the link register disagree")
    else:
        if calls != ["LoadResumeState"]:
            pr.append("the interrupted state is not reloaded")
        if regs:
            pr.append("register %s is changed besides reloading the interrupted state" % sorted(regs)[0])
    return pr
