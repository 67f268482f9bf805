"""R06: the named constants programs see have the values the system headers give those names.

Tables: every array of name/value pairs a primitive hands to the lookup, and every sysconst_tbl_t.  Each entry's
value (evaluated from the initialiser clang reports, including the tables the build generates) is compared with the
value the headers give the macro of that name; name_val tables that are binary-searched must be strictly increasing
under the comparison used, searched over exactly their length; numConsts must be the table's length, and loops over a
table must visit exactly the entries 0 .. numConsts-1."""
import os, json, tempfile, shutil
from . import program, cir, sizes, r02
from .absint import *
from .prims import primitives
from .sizes import Sizes, lin, Lin, CMP, has_top, strip

HEADERS = ["errno.h", "fcntl.h", "unistd.h", "signal.h", "termios.h", "sys/types.h", "sys/stat.h", "sys/wait.h",
           "sys/socket.h", "stdio.h"]

IO = {"append": "O_APPEND", "cloexec": "FD_CLOEXEC", "dsync": "O_DSYNC", "nonblock": "O_NONBLOCK", "rsync": "O_RSYNC",
      "sync": "O_SYNC"}
ACC = {"A_EXEC": "X_OK", "A_FILE": "F_OK", "A_READ": "R_OK", "A_WRITE": "W_OK"}
CC = {"EOF", "EOL", "ERASE", "INTR", "KILL", "MIN", "QUIT", "SUSP", "TIME", "START", "STOP"}

# primitive -> name -> macro; names every table must offer (what the Basis asks for)
RULES = {
    ("POSIX-Error", "listerrors"): lambda n: "E" + n.upper() if n != "toobig" else "E2BIG",
    ("POSIX-IO", "osval"): lambda n: IO.get(n, n),
    ("POSIX-FileSys", "osval"): lambda n: ACC.get(n) or (n if n.startswith("O_") else "S_" + n.upper()),
    ("POSIX-TTY", "osval"): lambda n: "V" + n if n in CC else n,
    ("POSIX-Signal", "osval"): lambda n: "SIG" + n.upper(),
    ("POSIX-Process", "osval"): lambda n: n,
    ("POSIX-FileSys", "pathconf"): lambda n: "_PC_" + n,
    ("POSIX-FileSys", "fpathconf"): lambda n: "_PC_" + n,
    ("POSIX-ProcEnv", "sysconf"): lambda n: "_SC_" + n,
    ("SMLNJ-Sockets", "listAddrFamilies"): lambda n: "AF_" + n,
    ("SMLNJ-Sockets", "listSockTypes"): lambda n: "SOCK_" + n,
    ("SMLNJ-Signals", "listSignals"): lambda n: "SIG" + n,
}
TABLES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tables", "constants.json")


def evalint(P, v):
    if v[0] == "int":
        return v[1]
    if v[0] == "un":
        x = evalint(P, v[2])
        return None if x is None else {"-": -x, "~": ~x, "+": x, "!": int(not x)}.get(v[1])
    if v[0] == "sizeof":
        s = P.sizealign(v[1])
        return s and s[0]
    if v[0] == "bin":
        a, b = evalint(P, v[2]), evalint(P, v[3])
        if a is None or b is None:
            return None
        return {"+": lambda: a + b, "-": lambda: a - b, "|": lambda: a | b, "&": lambda: a & b, "*": lambda: a * b,
                "<<": lambda: a << b, ">>": lambda: a >> b, "/": lambda: a // b if b else None,
                "^": lambda: a ^ b}.get(v[1], lambda: None)()
    return None


def rows(P, path, g):
    """[(name, value)] of a table of name/value pairs, or None"""
    v = P.ginit.get((path, g))
    if not isinstance(v, list):
        return None
    out = []
    for r in v:
        if not isinstance(r, list):
            return None
        s = [x for x in r if x and x[0] == "str"]
        n = [x for x in r if x and x[0] != "str"]
        if len(s) != 1 or len(n) != 1:
            return None
        out.append((s[0][1].strip('"'), evalint(P, n[0])))
    return out


class Search(Sizes, r02.Stale):
    """records library searches and the loops over sysconst tables"""
    CHECK_C = CHECK_RAW = False

    def __init__(self, P, reach=None):
        super().__init__(P, r02.gc_reach(P) if reach is None else reach)
        self.calls = []
        self.loopv = {}
        self.refs = set()

    def sz_report(self, st, f, line, kind, text):
        pass

    def intrinsic(self, st, f, name, av, line, site):
        if name in ("ML_CString", "ML_AllocRaw", "ML_AllocString"):
            return [(st, TOPS)]
        if name == "RaiseSysError":
            return [(st, frozenset([("raise", "errno")]))]
        return None

    def on_external(self, st, f, name, av, line, site):
        self.calls.append((name, av, f, line))
        return None

    def locs(self, e, f, ctx, st, line):
        if e[0] == "var" and e[1].startswith("g:"):
            self.refs.add((f.file, e[1]))
        if e[0] == "idx" and e[1][0] == "fld" and e[1][2] == "consts":
            for t in self.eval(e[2], f, ctx, st, line):
                l = lin(t)
                ks = [a for a in l.a if a[0] in ("K", "M")]
                if has_top(t) or len(ks) != 1 or abs(l.a[ks[0]]) != 1:
                    continue
                n = [a for a in l.a if consts(a)]
                k = l.a[ks[0]]
                good = k == 1 and not n and len(l.a) == 1 and l.k == 0 or k == -1 and len(n) == 1 and l.a[n[0]] == 1 and l.k == -1
                self.loopv[(f.name, "index", repr(e))] = (f, line, good, "visits entries %s of the table" % l.show())
        return super().locs(e, f, ctx, st, line)

    def refine(self, st, cond, f, ctx, val, line):
        e = cond
        while e[0] == "cast":
            e = e[2]
        if e[0] == "bin" and e[1] in CMP:
            a = self.eval(e[2], f, ctx, st, line)
            b = self.eval(e[3], f, ctx, st, line)
            if len(a) == 1 and len(b) == 1:
                (x,), (y,) = a, b
                o = e[1]
                x, y = lin(x), lin(y)
                d = {"<": lambda: y - x - Lin(None, 1), "<=": lambda: y - x, ">": lambda: x - y - Lin(None, 1),
                     ">=": lambda: x - y}.get(o)
                if d is not None:
                    d = d()
                    ks = [t for t in d.a if t[0] in ("K", "M")]
                    ns = [t for t in d.a if consts(t)]
                    if len(ks) == 1 and len(ns) == 1 and len(d.a) == 2:
                        if d.a[ns[0]] == -1:      # the test is for leaving the loop
                            d = d.scale(-1) - Lin(None, 1)
                        good = d.a[ns[0]] == 1 and d.a[ks[0]] == -1 and d.k == -1
                        self.loopv[(f.name, "bound", repr(cond))] = (f, line, good, "the loop over the table's entries runs while %s >= 0" % d.show())
        return super().refine(st, cond, f, ctx, val, line)


def consts(a):
    while a[0] == "w":
        a = a[2]
    return a[0] in ("ld", "ldi") and a[1][0] == "F" and a[1][2] == "numConsts"


def header_values(macros):
    """{macro: value} according to the system headers"""
    d = tempfile.mkdtemp(prefix="verif-hdr-")
    try:
        src = os.path.join(d, "probe.c")
        with open(src, "w") as f:
            f.write("#define _GNU_SOURCE 1\n")
            for h in HEADERS:
                f.write("#include <%s>\n" % h)
            for i, m in enumerate(macros):
                f.write("#ifdef %s\nlong v_%d = (long)(%s);\n#endif\n" % (m, i, m))
        tu = cir.parse_tu(d, ["clang", "-std=gnu99", "-c", src], d)
        P = program.Program.__new__(program.Program)
        P.records, P.typedefs, P.unions = {}, {}, set()
        out = {}
        for i, m in enumerate(macros):
            v = tu.ginit.get("g:v_%d" % i)
            if v is not None and not isinstance(v, list):
                x = evalint(P, v)
                if x is not None:
                    out[m] = x
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def find_tables(P):
    """{(lib, primitive): (kind, path, table global, rows, searched count, function)}"""
    out, problems, loops = {}, [], {}
    for f in P.funcs.values():
        if any("'numConsts'" in repr((b.ins, b.term)) for b in f.blocks):
            w = Search(P)
            w.run(f)
            loops.update(w.loopv)
    for lib, name, fname, f in primitives(P):
        if f is None:
            continue
        w = Search(P)
        interesting = (lib, name) in RULES
        if not interesting:
            continue
        rets = w.run(f)
        loops.update(w.loopv)
        got = None
        for t in {t for _, v in rets for t in v} if name == "osval" else ():
            l = lin(t)
            if "bsearch" in repr(t) and not (len(l.a) == 1 and set(l.a.values()) == {2} and l.k == 1 and all(
                    strip(a)[0] in ("ld", "ldi") and strip(a)[1][0] == "F" and strip(a)[1][2] == "val" for a in l.a)):
                problems.append(("%s.%s|result" % (lib, name), f, f.line,
                                 "%s returns %s, not the value of the entry found" % (f.name, l.show())))
        for (cn, av, g, line) in w.calls:
            if cn in ("strncmp", "strcasecmp", "strncasecmp", "strcoll", "strstr"):
                problems.append(("%s|partial" % g.name, g, line, "names are looked up with %s: a name matches entries it is not equal to" % cn))
        for (cn, av, g, line) in w.calls:
            if cn == "bsearch" and len(av) == 5:
                tabs = [t[1] for t in av[1] if t[0] == "&"]
                cnt = [t[1] for t in av[2] if t[0] == "i"]
                sz = [t[1] for t in av[3] if t[0] == "i"]
                cmpf = [t[1] for t in av[4] if t[0] == "fn"]
                got = ("search", tabs, cnt if len(cnt) == len(av[2]) else [], sz, cmpf, g, line)
        tabs = set()
        for (file, g) in w.refs:
            for (path, gg) in P.ginit:
                if gg == g and rows(P, path, gg) is not None and os.path.normpath(path).endswith(file):
                    tabs.add((path, gg))
                if gg == g and sysconst(P, path, gg) and (path.endswith(file) or not P.gdefs[(path, gg)][3]):
                    tabs.add((path, sysconst(P, path, gg)[1]))
                    out.setdefault("sysconst", []).append((path, gg))
        out[(lib, name)] = (f, sorted(tabs), got)
    return out, loops, problems


def sysconst(P, path, g):
    v = P.ginit.get((path, g))
    if P.gdefs.get((path, g), ("",))[0].endswith("sysconst_tbl_t") and isinstance(v, list) and len(v) == 2:
        n = evalint(P, v[0])
        t = v[1]
        if t[0] == "addr":
            t = t[1]
        if t[0] == "var":
            return n, t[1]
    return None


def check(c):
    c.rule = ("every entry of every name/value table reachable from a primitive has the value the system headers give "
              "the macro of that name; binary-searched tables are strictly sorted and searched over their whole length; "
              "loops over a table visit exactly its entries")
    P = program.Program()
    need = json.load(open(TABLES))
    tabs, loops, problems = find_tables(P)
    macros = sorted({RULES[tuple(k.split(" "))](n) for k, ns in need.items() for n in ns} |
                    {RULES[k](n) for k, v in tabs.items() if k != "sysconst" for p, g in v[1] for n, _ in rows(P, p, g)})
    hv = header_values(macros)
    c.require(len(hv) > 150, "only %d header constants evaluated" % len(hv))
    total = 0
    for (lib, prim), rule in sorted(RULES.items()):
        f, ts, got = tabs.get((lib, prim), (None, [], None))
        c.require(f is not None, "primitive %s.%s vanished" % (lib, prim))
        c.require(len(ts) >= 1, "no table found for %s.%s" % (lib, prim))
        where = "base/runtime/" + f.file
        seen = {}
        for (path, g) in ts:
            rel = path.split("/runtime/")[-1]
            rs = rows(P, path, g)
            for i, (n, v) in enumerate(rs):
                total += 1
                m = rule(n)
                if m in hv and v is not None and lib != "SMLNJ-Signals" or lib == "SMLNJ-Signals" and n != "GC" and m in hv:
                    ok = v == hv[m]
                    c.ob(ok, "%s %s %s = %s" % (lib, n, m, v))
                    if not ok:
                        c.violation("%s.%s|%s" % (lib, prim, n), "base/runtime/%s" % rel,
                                    "the table behind %s.%s gives %s the value %s, but %s is %s" % (lib, prim, n, v, m, hv[m]))
                if n not in seen or got is None:
                    seen.setdefault(n, v)
            if got is not None and len(ts) == 1:
                _, gt, cnt, sz, cmpf, gf, line = got
                for a, b in zip(rs, rs[1:]):
                    ok = a[0].encode() < b[0].encode()
                    c.ob(ok)
                    if not ok:
                        c.violation("%s.%s|order|%s" % (lib, prim, b[0]), "base/runtime/%s" % rel,
                                    "%s comes after %s in a table searched by bsearch: the search misses one of them" % (b[0], a[0]))
                if cnt:
                    ok = set(cnt) == {len(rs)}
                    c.ob(ok)
                    if not ok:
                        c.violation("%s.%s|count" % (lib, prim), where, "%s searches %s entries of a table of %d" % (f.name, sorted(set(cnt)), len(rs)))
                d = P.gdefs.get((path, g))
                es = P.sizealign(d[0].split("[")[0]) if d else None
                if sz and es and set(sz) != {es[0]}:
                    c.violation("%s.%s|stride" % (lib, prim), where, "the search steps by %s bytes over entries of %d" % (sorted(set(sz)), es[0]))
        for n in need["%s %s" % (lib, prim)]:
            if rule(n) in hv or lib == "SMLNJ-Signals":
                ok = n in seen
                c.ob(ok)
                if not ok:
                    c.violation("%s.%s|missing|%s" % (lib, prim, n), where, "the name %s is not in the table behind %s.%s" % (n, lib, prim))
        if lib == "SMLNJ-Signals" and "GC" in seen:
            ok = all(v < seen["GC"] for n, v in seen.items() if n != "GC")
            c.ob(ok)
            if not ok:
                c.violation("signals|GC", where, "the code of the GC signal collides with a system signal")
    for path, g in sorted(set(tabs.get("sysconst", []))):
        n, t = sysconst(P, path, g)
        rs = rows(P, path, t)
        ok = rs is not None and n == len(rs)
        c.ob(ok, "%s has %s entries" % (g[2:], n))
        if not ok:
            c.violation("%s|numConsts" % g[2:], path.split("/runtime/")[-1], "%s says it has %s entries, its table has %s" % (
                g[2:], n, rs and len(rs)))
    for (fn, kind, _), (f, line, good, text) in sorted(loops.items(), key=str):
        c.ob(good, "%s: %s" % (fn, text))
        if not good:
            c.violation("%s|%s" % (fn, kind), "base/runtime/%s:%d" % (f.file, line), "%s %s: not all and only the entries 0 .. numConsts-1" % (fn, text))
    for key, f, line, text in dict((p[0], p) for p in problems).values():
        c.violation(key, "base/runtime/%s:%d" % (f.file, line), text)
    compare(c, P, tabs)
    c.cov.update(entries=total, tables=sum(len(v[1]) for k, v in tabs.items() if k != "sysconst"), header_constants=len(hv))
    c.require(total > 250, "only %d table entries seen" % total)
    c.assumptions += ["the C library's bsearch and strcmp", "the headers of this system are the reference for the values"]


def compare(c, P, tabs):
    """the comparison handed to bsearch orders entries by strcmp of their names, key first"""
    for k, v in sorted((k, v) for k, v in tabs.items() if k != "sysconst"):
        if not v[2] or not v[2][4]:
            continue
        g = P.resolve(v[2][5], v[2][4][0])
        if g is None:
            continue
        w = Search(P)
        rets = w.run(g)
        for (cn, av, f, line) in w.calls:
            if cn in ("strcmp", "strcoll", "strcasecmp", "strncmp", "memcmp"):
                roots = [{r for t in a for r in argroots(t)} for a in av[:2]]
                ok = cn == "strcmp" and roots[0] == {0} and roots[1] == {1}
                c.ob(ok)
                if not ok:
                    c.violation("compare|" + g.name, "base/runtime/%s:%d" % (f.file, line),
                                "%s compares with %s(%s): not the order the tables are sorted in" % (g.name, cn, roots))


def argroots(t):
    if isinstance(t, tuple):
        if t and t[0] == "arg":
            yield t[1]
        else:
            for x in t:
                yield from argroots(x)


def generate():
    P = program.Program()
    tabs, loops, problems = find_tables(P)
    need = {}
    for k, v in tabs.items():
        if k != "sysconst":
            need["%s %s" % k] = sorted({n for p, g in v[1] for n, _ in rows(P, p, g)})
    json.dump(need, open(TABLES, "w"), indent=0, sort_keys=True)
    print({k: len(v) for k, v in need.items()}, tabs.get("sysconst"))
    for k, v in loops.items():
        print(k[:2], v[1:])


if __name__ == "__main__":
    generate()
