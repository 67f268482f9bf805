"""C01: CML operations keep the scheduler's atomic-region protocol on every path."""
import glob, os, re, sys
from . import sml, front, cmlai
from .cmlai import AI, St, TOPU, UNIT, CUR

D = "cml/src/core-cml/"
APIS = [("Channel", "channel"), ("Event", "event"), ("Thread", "thread"), ("SyncVar", "sync-var"), ("Mailbox", "mailbox"),
        ("Barrier", "barrier"), ("TimeOut", "timeout")]
ONLY = ["cml/src"]
# operations after which the calling thread is meant not to continue
ENDS = {"Thread.exit", "Event.sync", "Event.select"}
# state owned by one thread
LOCAL = {"TID.props"}


def signames(f):
    s = re.sub(r"\(\*.*?\*\)", " ", open(os.path.join(front.REPO, f), errors="replace").read(), flags=re.S)
    return re.findall(r"\bval\s+([A-Za-z][\w']*)\s*:", s)


def ops(P):
    """public operations: (name, unit, lvar, def)"""
    out = []
    for st, base in APIS:
        names = set(signames(D + base + "-sig.sml"))
        for u in P.units:
            if not u.file.startswith(D):
                continue
            for lv in u.lvars:
                d = u.defs.get(lv)
                if u.names.get(lv) != st or not d or d[0] != "str":
                    continue
                s = d[1]
                while s[0] == "let":
                    s = s[2]
                if s[0] == "var":
                    r = P.resolve(u, s[1])
                    if not r:
                        continue
                    u2, lv2 = r
                    s = u2.defs[lv2][1]
                    while s[0] == "let":
                        s = s[2]
                else:
                    u2 = u
                for b in s[1]:
                    if b[0] == "v" and b[2] in names:
                        r = P.value(u2, b[1])
                        if r and r[2]:
                            out.append((st + "." + b[2],) + r)
    return out


def internal(P, file, names):
    out = []
    u = P.byfile.get(file)
    if u:
        for lv, n in u.names.items():
            d = u.defs.get(lv)
            if n in names and d and d[0] in ("fun", "val"):
                r = P.value(u, lv)
                if r and r[2] and r[0] is u:
                    out.append((n,) + r)
    return out


class Run(AI):
    def start(self, kind, name, clo, arg, atom, where):
        import os, time
        if os.environ.get("C01DBG"):
            print(time.time(), name, atom, self.stats, flush=True)
        """analyse one entry; yields outcomes"""
        self.op = name
        self.kstack = []
        self.stack = []
        return self.apply(clo, arg, St(atom), where)


def drive(P, files):
    ai = Run(P, files)
    todo = ops(P)
    rounds = 0
    while True:
        rounds += 1
        ai.changed = False
        ai.viol = {}
        ai.paths = {}
        ai.pending = []
        ai.done = set()
        for name, u, lv, d in todo:
            entry(ai, name, ai.globalval(u, lv, d), u)
        # scheduler entry points that other parts of CML use
        for n, u, lv, d in internal(P, D + "io-manager.sml", {"ioEvt"}):
            entry(ai, "IOManager." + n, ai.globalval(u, lv, d), u)
        for f, n in ((D + "io-manager.sml", "pollIO"), (D + "timeout.sml", "pollTime"), ("cml/src/Unix/proc-manager.sml", "pollProcs")):
            for n, u, lv, d in internal(P, f, {n}):
                poll(ai, f.split("/")[-1] + ":" + n, ai.globalval(u, lv, d), u)
        for n, u, lv, d in internal(P, D + "scheduler.sml", {"alrmHandler"}):
            handler(ai, "Scheduler." + n, ai.globalval(u, lv, d), u)
        for n, u, lv, d in internal(P, D + "scheduler.sml", {"schedulerHook", "pauseHook"}):
            ai.globalval(u, lv, d)
        hooks(ai, P)
        while ai.pending:
            kind, c, where = ai.pending.pop()
            if (kind, c) in ai.done:
                continue
            ai.done.add((kind, c))
            evcheck(ai, kind, c, where)
        if not ai.changed or rounds > 12:
            break
    ai.rounds = rounds
    return ai, todo


def loc(ai, v, u):
    """source position of a closure"""
    if v[0] in ("clo", "rclo"):
        x = ai.fns[v[1]]
        return (x[0], x[3])
    return (u, 0)


def judge(ai, outs, where, want="N", mayend=False, ends=True):
    """every outcome of an entry"""
    seen = set()
    for kd, v, s in outs:
        key = (kd, v, s)
        if key in seen:
            continue
        seen.add(key)
        ai.stats["paths"] += 1
        tr = trail(s)
        if kd in ("ret", "exn") and norm(s.atom) != want:
            if kd == "exn" and excused(v, s):
                continue
            ai.bad("end", where, "%s while %s the atomic region%s" % (
                "returns" if kd == "ret" else "raises " + exname(v), "inside" if s.atom != "N" else "outside", tr), s)
        if kd == "ret" and want == "N" and s.cur != CUR:
            ai.bad("cur", where, "returns with another thread as the current thread" + tr, s)
        if kd == "thr":
            kd = "div"
        if kd == "div" and ends and not mayend and not any(e[0] in ("store",) for e in s.ev):
            ai.bad("lost", where, "switches to another thread without queueing its own continuation" + tr, s)
        rules(ai, kd, s, where, tr)


def norm(a):
    return "N" if a == "N" else "A"


def exname(v):
    return v[1] if v[0] in ("con", "conf") else "an exception"


def excused(v, s):
    """internal consistency failures: a cvar is set once; a ready event's queue is not empty"""
    if v[0] == "con" and v[1] == "Fail":
        return any(e[0] == "dec" and e[1] == "CVAR" and e[2] in ("_", "CVAR_set") for e in s.ev)
    if v[0] in ("con", "conf") and v[1] == "EmptyQ":
        return True
    return False


def trail(s):
    l = []
    for e in s.ev:
        if e[0] == "dec" and e[2] not in ("TRANS", "CANCEL", "_"):
            l.append("%s is %s" % (e[1], e[2]))
        elif e[0] == "resumed":
            l.append("resumed from " + e[1])
        elif e[0] == "throw":
            l.append("switch to " + e[1])
    return " (path: %s)" % "; ".join(l) if l else ""


def rules(ai, kd, s, where, tr):
    stored = [(e[1], e[2]) for e in s.ev if e[0] == "store"]
    resumed = any(e[0] == "resumed" for e in s.ev)
    if not resumed:
        ks = [k for k, _ in stored]
        for k in set(ks):
            if k != "blocked" and ks.count(k) > 1:
                ai.bad("twice", where, "queues the same continuation twice" + tr, s)
    for e in s.ev:
        if e[0] == "wn" and e[1] not in LOCAL:
            ai.bad("write", where, "writes %s outside the atomic region (%s:%d)%s" % (e[1], e[3], e[4], tr), s)
    # check-then-act across the region's boundary
    ev = list(s.ev)
    if "enter" in [e[0] for e in ev]:
        i = [e[0] for e in ev].index("enter")
        before = {e[1] for e in ev[:i] if e[0] == "rn"}
        for l in before:
            inside = [e for e in ev[i:] if e[0] in ("r", "w") and e[1] == l]
            if any(e[0] == "w" for e in inside) and not any(e[0] == "r" for e in inside):
                ai.bad("check-then-act", where, "decides on %s before entering the atomic region and updates it inside%s" % (l, tr), s)
    # waiters taken from a queue
    canc = {e[1] for e in ev if e[0] == "cancel"} | {e[1] for e in ev if e[0] == "cleanUp"}
    dec = {(e[1], e[2]) for e in ev if e[0] == "dec"}
    for e in ev:
        if e[0] in ("throw", "ready"):
            l = e[1]
            if l in ai.transslots and l not in canc:
                ai.bad("cancel", where, "resumes a thread waiting on %s without cancelling its transaction%s" % (l, tr), s)
            if l in ai.transslots and (l, "TRANS") not in dec:
                ai.bad("live", where, "resumes a thread waiting on %s without testing that its transaction is live%s" % (l, tr), s)
        if e[0] == "throw" and e[1] in ai.transslots | {"thrown:" + x for x in ai.transslots}:
            if e[2] != ("top", e[1]):
                ai.bad("switch", where, "switches to a thread waiting on %s without making it the current thread (%s:%d)%s" % (e[1], e[3], e[4], tr), s)


def entry(ai, name, v, u, atom="N"):
    where = loc(ai, v, u)
    if v[0] in ("clo", "rclo", "comp"):
        outs = ai.start("op", name, v, ("top", "arg"), atom, where)
        ai.paths[name] = outs
        more = set()
        for kd, r, s in outs:
            if kd == "ret":
                if r[0] in ("clo", "rclo", "comp"):
                    more.add(r)
                elif r[0] == "rec":
                    for a, x in r[1]:
                        if x[0] in ("clo", "rclo"):
                            more.add((x, a))
        judge(ai, outs, where, mayend=name in ENDS or name.split("/")[0] in ENDS)
        for i, x in enumerate(sorted(more, key=repr)):
            if isinstance(x[0], tuple):
                entry(ai, name + "/" + x[1], x[0], u)
            elif name.count("'") < 3:
                entry(ai, name + "'", x, u)


def poll(ai, name, v, u):
    """work done by the scheduler between threads: runs in the region and stays there"""
    where = loc(ai, v, u)
    outs = ai.start("poll", name, v, UNIT, "A", where)
    ai.paths[name] = outs
    judge(ai, outs, where, want="A", ends=False)


def handler(ai, name, v, u):
    """the preemption handler: gets the interrupted continuation, returns the one to resume"""
    where = loc(ai, v, u)
    k = ("k", "interrupted")
    arg = ("rec", (("1", TOPU), ("2", TOPU), ("3", k)))
    for atom in ("N", "A", "P"):
        outs = ai.start("handler", name, v, arg, atom, where)
        if not outs:
            ai.bad("handler-none", where, "the preemption handler has no outcome", St(atom))
        for kd, r, s in outs:
            ai.stats["paths"] += 1
            st = [e for e in s.ev if e[0] == "store" and e[1] == "interrupted"]
            if kd != "ret":
                ai.bad("handler-end", where, "the preemption handler does not return a continuation", s)
            elif atom != "N":
                if r != k or st:
                    ai.bad("handler-region", where, "a thread interrupted inside the atomic region is not simply resumed", s)
                elif s.atom != "P":
                    ai.bad("handler-pending", where, "a preemption inside the atomic region is not left pending", s)
            else:
                if r == k and st or r != k and len(st) != 1:
                    ai.bad("handler-preempt", where, "the interrupted thread is queued %d times and %s" % (
                        len(st), "resumed" if r == k else "not resumed"), s)
                if s.atom != "N":
                    ai.bad("handler-nonatomic", where, "preempting a thread outside the region changes the region's state", s)


def hooks(ai, P):
    """continuations the scheduler dispatches on a pending signal or when idle"""
    for u in P.units:
        if not u.file.startswith("cml/src/"):
            continue
        for lv, n in list(u.names.items()):
            if n in ("pollK", "pauseK"):
                d = u.defs.get(lv)
                if d and d[0] == "val" and d[1][0] == "v" and d[2][0] != "v":
                    ai.op = n
                    v = ai.globalval(u, lv, d)
                    if v[0] == "iso":
                        for atom in ("N", "P") if n == "pollK" else ("N",):
                            where = loc(ai, v[1], u)
                            outs = ai.start("hook", n, v[1], UNIT, atom, where)
                            ai.paths[n + atom] = outs
                            for kd, r, s in outs:
                                ai.stats["paths"] += 1
                                if kd == "ret" or kd == "exn" and not excused(r, s):
                                    ai.bad("hook", where, "the scheduler's %s ends instead of dispatching a thread" % n, s)
                                rules(ai, kd, s, where, trail(s))


def evcheck(ai, kind, c, where):
    w = loc(ai, c, where[0])
    fn = ai.op
    base = fn.split("#")[0]
    if kind in ("GUARD", "W_NACK"):
        outs = ai.start("guard", base + "#" + kind, c, TOPU, "N", w)
        judge(ai, outs, w)
        return
    outs = ai.start("poll", "%s:%d#poll" % (w[0].file.split("/")[-1], w[1]), c, UNIT, "A", w)
    judge(ai, outs, w, want="A")
    name = "%s:%d" % (w[0].file.split("/")[-1], w[1])
    for kd, v, s in outs:
        if kd != "ret":
            continue
        if v[0] == "con" and v[1] == "ENABLED":
            f = ai.field(v[2], "doFn")
            if (name, f) not in ai.done:
                ai.done.add((name, f))
                o2 = ai.start("do", name + "#do", f, UNIT, "A", w)
                ai.paths[name + "#do"] = o2
                judge(ai, o2, loc(ai, f, w[0]))
        elif v[0] == "con" and v[1] == "BLOCKED":
            f = v[2]
            if (name, f) not in ai.done:
                ai.done.add((name, f))
                arg = ("rec", (("cleanUp", ("cfn", "cleanUp")), ("next", ("cfn", "next")), ("transId", ("cfn", "transId"))))
                o2 = ai.start("block", name + "#block", f, arg, "A", w)
                ai.paths[name + "#block"] = o2
                judge(ai, o2, loc(ai, f, w[0]))
                for kd, v2, s2 in o2:
                    if kd == "ret" and not any(e[0] == "cleanUp" for e in s2.ev) and not selfclean(ai, s2):
                        ai.bad("block-cleanup", loc(ai, f, w[0]), "a blocked event is resumed without its cleanUp action being run" + trail(s2), s2)
        elif v[0] != "con":
            ai.bad("poll-result", w, "unrecognised event status", s)


def selfclean(ai, s):
    """slots whose waker runs the cleanUp action (condition variables, time-outs, I/O)"""
    for e in s.ev:
        if e[0] == "resumed" and e[1] in ai.wakerclean():
            return True
        if e[0] == "resumed" and e[1] == "wait":
            return True
    return False


def check(c):
    c.rule = "see DESIGN.md"
    P = sml.load(ONLY, ["cml"])
    report(c, *drive(P, D))


def report(c, ai, todo):
    pass
