"""R07: every primitive makes its OS calls with the caller's arguments and hands back the calls' results.

For each primitive the provenance analysis yields, for every argument of every OS call on any path, the
set of expressions over the primitive's own ML argument (or over earlier calls' results) that can reach
it, and the same for every component of the returned value.  The sets are rendered in a canonical form
(independent of temporaries, helper functions, branch structure and casts that lose nothing) and compared
with the reviewed contract in tables/contract.json."""
import json, os, re, sys
from .prims import *
from . import r02

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# library functions whose result type is unsigned: no negative answers
UNSIGNED = set("strftime strlen fread fwrite alarm sleep umask getuid geteuid getgid getegid cfgetispeed cfgetospeed "
               "strnlen htons htonl ntohs ntohl".split())
TABLE = os.path.join(HERE, "tables", "contract.json")
IGNORE = {"free", "malloc", "strlen", "memset", "strcpy", "strncpy", "exit", "abort", "sprintf",
          "snprintf", "fprintf", "__errno_location", "bzero", "strcmp", "strncmp", "memcmp", "strerror",
          "__builtin_memset", "strcat", "strchr", "strrchr", "__assert_fail", "isatty",
          "__builtin_object_size", "__ctype_b_loc", "fflush", "printf", "puts", "putchar", "calloc", "realloc",
          "vfprintf", "__builtin_va_start", "__builtin_va_end", "__sigsetjmp", "_setjmp", "setjmp", "sigemptyset"}


class Prov(RT):
    maxdepth = 6

    def intrinsic(self, st, f, name, av, line, site):
        if name == "_ml_posix_nv_lookup":      # how a name is looked up is R06's business
            return [self.external(f, st, "bsearch", av, line, site)]
        if name == "ML_CString" and len(av) > 1:        # a character array inside what some call filled in
            av = list(av)
            av[1] = frozenset(self.filled(st, t) for t in av[1])
        return super().intrinsic(st, f, name, av, line, site)

    def filled(self, st, t):
        if t[0] == "&":
            l, path = t[1], []
            while l[0] in ("F", "E"):
                if l[0] == "F":
                    path.insert(0, l[2])
                elif l[2] != ("i", 0):
                    return t
                l = l[1]
            v = st.env.get(l, ())
            if l[0] == "L" and path and len(v) == 1:
                (o,) = v
                if o[0] == "out":
                    return o[:4] + (o[4] + tuple(path),)
        return t

    def __init__(self, P):
        super().__init__(P)
        self.calls = {}

    def inline(self, f, name):
        g = super().inline(f, name)
        if g is not None and g.file.startswith(r02.EXCLUDE_DIRS):
            return None
        return g

    def cast(self, v, ty):
        w, signed = self.width(ty)
        if w == 2 and signed:        # a 16-bit quantity off the wire is unsigned
            v = frozenset(("op", "s16", t) if self.unsigned16(t) else t for t in v)
        return super().cast(v, ty)

    def unsigned16(self, t):
        while t[0] in ("w", "stale"):
            t = t[2] if t[0] == "w" else t[1]
        return t[0] == "op" and t[1] in ("ntohs", "htons", "__bswap_16", "__builtin_bswap16") or \
            t[0] == "ldi" and t[1][0] == "F" and t[1][2] in ("sin_port",)

    def gc(self, st, keep, f, line, what):
        pass                       # staleness is R02's business

    def on_external(self, st, f, name, args, line, site):
        if name in IGNORE or (self.P.resolve(f, name) is not None and name not in self.P.protos):
            return None
        pt = self.param_types(name) or []
        d = self.calls.setdefault(name, [])
        while len(d) < len(args):
            d.append(set())
        for i, v in enumerate(args):
            if i < len(pt) and not self.isptr(pt[i]) and "SOCKADDR_ARG" not in pt[i]:
                v = self.cast(v, pt[i])
                w = self.width(pt[i])[0]
                v = frozenset(t[2] if t[0] == "w" and w and t[1] == 8 * w else t for t in v)
            if self.is_out(name, i, pt):
                # contents are what the call writes; a place inside an ML object is kept
                v = frozenset(t for t in v if "arg[" in self.expr(st, t))
            for t in v:
                d[i] |= self.render(st, t, 0, "%s#%d" % (name, i))
        return None

    def default(self, k):
        root = k
        while root[0] in ("F", "E"):
            root = root[1]
        if root[0] == "H":
            return frozenset()          # object not allocated on the other path
        return super().default(k)

    def is_out(self, name, i, pt):
        return name in PURE_OUT and i in PURE_OUT[name]

    # -- rendering
    def render(self, st, t, depth, where):
        """set of canonical strings: 'path = expr'"""
        if t[0] == "stale":
            t = t[1]
        if t[0] == "ap" and isinstance(t[2], int):
            return self.obj(st, t[1], t[2], depth, "")
        if t[0] == "&":
            l = t[1]
            if l[0] == "E" and l[2] == ("i", 0):
                l = l[1]
            root = l
            while root[0] in ("F", "E"):
                root = root[1]
            if root[0] == "L":
                out = set()
                for k, v in st.env.items():
                    if k == l or (k[0] in ("F", "E") and self.under(k, l)):
                        p = self.subpath(k, l)
                        for x in v:
                            e = self.expr(st, x)
                            if not e.startswith("uninit"):
                                out.add("%s=%s" % (p, e))
                return {"&{" + o + "}" for o in out} or {"&buf"}
        return {self.expr(st, t)}

    def subpath(self, k, l):
        p = ""
        while k != l:
            if k[0] == "F":
                p = "." + k[2] + p
            elif k[0] == "E":
                p = "[%s]" % (k[2][1] if k[2][0] == "i" else "*") + p
            k = k[1]
        return p

    def obj(self, st, ep, off, depth, path):
        out = set()
        d = st.env.get(("H", ep, off - 1), frozenset())
        n = tag = None
        for t in d:
            if t[0] == "i":
                n, tag = t[1] >> 7, (t[1] >> 2) & 31
        if n is None or depth > self.maxdepth or len(d) > 1:
            return {path + "=obj"}          # unknown, or objects of several shapes merged
        if tag == 1 or tag == 2:
            n = 2
            path += "<%s%d>" % ("vec" if tag == 1 else "arr", [t[1] >> 7 for t in d if t[0] == "i"][0])
        elif tag in (4, 5):
            path += "<raw%d>" % n
        for i in range(n):
            v = st.env.get(("H", ep, off + i))
            for x in v or ():
                if x[0] == "stale":
                    x = x[1]
                if x[0] == "ap" and isinstance(x[2], int):
                    if x[1] == ep and x[2] == off:
                        continue
                    out |= self.obj(st, x[1], x[2], depth + 1, path + ".%d" % i)
                else:
                    out.add("%s.%d=%s" % (path, i, self.expr(st, x)))
        return out

    def expr(self, st, t):
        k = t[0]
        if k == "i":
            return str(t[1])
        if k == "s":
            return '"%s"' % t[1]
        if k == "f":
            return str(t[1])
        if k == "arg":
            return "arg" if t[2] == "ml" else "msp" if t[2] == "msp" else "p%d" % t[1]
        if k in ("ld", "ldi"):
            return self.loc(st, t[1])
        if k == "w":
            x = t[2]
            s = self.expr(st, x)
            return s if not self.wide(x) and (t[1] > 16 or x[0] != "op") else "n%d(%s)" % (t[1], s)
        if k == "res":
            return t[2] + "()"
        if k == "out":
            return "%s>%d%s" % (t[2], t[3], "".join("." + str(x) for x in t[4]))
        if k == "str":
            x = self.expr(st, t[1])
            return "str(buf)" if x in ("mem", "&local[0]") else "str(%s)" % x
        if k == "raw":
            return "raw"
        if k == "mal":
            return "mem"
        if k == "raise":
            return "raise-" + t[1]
        if k == "fn":
            return "&" + t[1]
        if k == "&":
            return "&" + self.loc(st, t[1])
        if k == "ap":
            return "obj"
        if k == "stale":
            return self.expr(st, t[1])
        if k == "op":
            if len(t) == 3:
                return "%s(%s)" % (t[1], self.expr(st, t[2]))
            if t[1] in ("+", "*", "|", "&", "^"):
                xs = []
                def go(u):
                    if u[0] == "op" and len(u) == 4 and u[1] == t[1]:
                        go(u[2])
                        go(u[3])
                    elif u[0] == "w" and u[1] > 16 and not self.wide(u[2]) and u[2][0] == "op":
                        go(u[2])
                    else:
                        xs.append(self.expr(st, u))
                go(t)
                return "(" + t[1].join(sorted(xs)) + ")"
            return "(%s%s%s)" % (self.expr(st, t[2]), t[1], self.expr(st, t[3]))
        if k == "zero":
            return "0"
        if k in ("top", "uninit", "void", "errnop", "sizeof"):
            return k
        return k

    def wide(self, t):
        """Does the term hold a 64-bit quantity that a narrowing would cut?"""
        if t[0] == "out":
            return False if not t[4] else self.widefield(t[4][-1])
        if t[0] == "ldi":
            l = t[1]
            if l[0] == "F":
                return self.widefield(l[2])
            return l[0] == "P" and l[1][0] == "ld"      # a boxed word
        if t[0] == "op":
            return any(self.wide(x) for x in t[2:] if isinstance(x, tuple))
        if t[0] == "res":
            return t[2] in ("lseek", "time", "mktime", "times", "sysconf", "pathconf", "fpathconf")
        return False

    def widefield(self, n):
        return n in ("st_size", "st_ino", "st_dev", "l_start", "l_len", "tv_sec", "tv_nsec", "st_nlink")

    def loc(self, st, l):
        if l[0] == "P":
            b = self.expr(st, l[1])
            i = l[2][1] if l[2][0] == "i" else "*" if l[2][0] == "*" else self.expr(st, l[2])
            if b in ("gmtime_r()", "localtime_r()") and i == 0:     # they return their buffer
                return b[:-2] + ">1"
            return "%s[%s]" % (b, i)
        if l[0] == "F":
            if l[1][0] == "L" and st is not None and len(st.env.get(l[1], ())) == 1:
                (t,) = st.env[l[1]]
                if t[0] == "out":           # a field of a structure some call filled in
                    return "%s.%s" % (self.expr(st, t), l[2])
            return "%s.%s" % (self.loc(st, l[1]), l[2])
        if l[0] == "E":
            return "%s[%s]" % (self.loc(st, l[1]), l[2][1] if l[2][0] == "i" else "*")
        if l[0] == "G":
            return str(l[1])
        if l[0] == "L":
            return "local"
        return "heap"


PURE_OUT = {"read": {1}, "recv": {1}, "recvfrom": {1}, "getcwd": {0}, "readlink": {1}, "stat": {1}, "fstat": {1},
            "lstat": {1}, "pipe": {0}, "tcgetattr": {1}, "uname": {0}, "times": {0}, "getgroups": {1},
            "gettimeofday": {0, 1}, "getrusage": {1}, "gethostname": {0}, "socketpair": {3}, "waitpid": {1},
            "getsockname": {1}, "getpeername": {1}, "accept": {1}, "getitimer": {1}, "localtime_r": {1}, "gmtime_r": {1},
            "strftime": {0}, "asctime_r": {1}}


MAXCASES = 260
ML_CLASSES = [("1", 1), ("3", 3), ("ptr", 8)]


class Cases:
    """Atoms (compared terms) of one primitive and the partition of their values."""

    def __init__(self):
        self.bound = {}        # key -> set of interval starts
        self.kind = {}

    def add(self, key, kind, starts):
        self.bound.setdefault(key, set()).update(starts)
        self.kind[key] = kind

    def classes(self, key):
        k = self.kind[key]
        if k == "ml":
            k = "bool" if 3 in self.bound[key] else "opt"
        if k == "bool":
            return ML_CLASSES[:2]
        if k == "opt":              # an option or a list (of at most two elements)
            if key.endswith("[1][1]") and all(self.kind.get(x) == "ml" or self.kind.get(x) == "opt" for x in (key[:-3], key[:-6])):
                return [ML_CLASSES[0]]
            return [ML_CLASSES[0], ML_CLASSES[2]]
        b = sorted(self.bound[key])
        if k == "neg1":
            b = sorted({-1, 0, 1} | {x for x in b if x > 1})
        elif k == "null":
            b = sorted({0, 1} | {x for x in b if x > 1})
        else:
            b = [None] + b
        out = []
        for i, lo in enumerate(b):
            hi = b[i + 1] - 1 if i + 1 < len(b) else None
            out.append(("%s..%s" % ("" if lo is None else lo, "" if hi is None else hi), lo if lo is not None else hi))
        return out

    def keys(self, cap=MAXCASES):
        ks = sorted(self.bound, key=lambda k: (len(k), k))
        while ks:
            n = 1
            for k in ks:
                n *= len(self.classes(k))
            if n <= cap:
                break
            ks.pop()
        return ks


from . import r01


NOATOM = re.compile(r"\b(top|local|mem|uninit|raw|obj|msp)\b|numConsts|\*\]|aliases\[|addr_list\[|gr_mem\[|environ\[|\('\*',\)")


TIDX = {}


def tableidx(f):
    k = (f.file, f.name)
    if k not in TIDX:
        TIDX[k] = set(re.findall(r"'g:SigInfo'\), \('var', '(\w+(?:\.\d+)?)'\)", repr([b.ins for b in f.blocks]))) \
            if f.file.startswith("mach-dep/") else set()
    return TIDX[k]


class Guarded(Prov):
    """Prov under an assumption on the class of each atom."""

    def __init__(self, P, assume=None):
        self.tidx = set()
        super().__init__(P)
        self.assume = assume or {}
        self.atoms = Cases()
        self.sites = {}

    def on_external(self, st, f, name, args, line, site):
        self.sites.setdefault(name, set()).add((f.file, line, self.ctxname()))
        return super().on_external(st, f, name, args, line, site)

    def on_store(self, st, f, line, loc, val):
        super().on_store(st, f, line, loc, val)
        if loc[0] == "L" and loc[2] in tableidx(f):
            self.tidx.add(loc)

    def split_flags(self, st):
        """positions in a table of signals are kept apart"""
        k = super().split_flags(st)
        if self.tidx:
            x = []
            for l in self.tidx:
                v = st.env.get(l)
                if v is not None and len(v) == 1:
                    (t,) = v
                    if t[0] == "i" and 0 <= t[1] <= 64:
                        x.append((l[2], t[1]))
            return k, tuple(sorted(x))
        return k

    def truth(self, x):
        o, a, c = "!=", x, 0
        if x[0] == "op" and len(x) == 4 and x[1] in CMP:
            if x[3][0] != "i":
                return None
            o, a, c = x[1], x[2], x[3][1]
        elif x[0] == "op" and len(x) == 3 and x[1] == "!":
            o, a = "==", x[2]
        while True:
            if a[0] in ("w", "stale"):
                a = a[2] if a[0] == "w" else a[1]
            elif a[0] == "op" and len(a) == 4 and a[1] in "+-" and a[3][0] == "i":
                c, a = c - a[3][1] if a[1] == "+" else c + a[3][1], a[2]
            elif a[0] == "op" and len(a) == 4 and a[1] == "+" and a[2][0] == "i":
                c, a = c - a[2][1], a[3]
            else:
                break
        k = self.kind(a)
        if k is None:
            return None
        key = self.expr(None, a)
        if NOATOM.search(key) or len(key) > 60:
            return None
        self.atoms.add(key, k, {"<": {c}, ">=": {c}, ">": {c + 1}, "<=": {c + 1}, "==": {c, c + 1}, "!=": {c, c + 1}}[o])
        if key in self.assume:
            v = self.assume[key]
            return {"<": v < c, ">=": v >= c, ">": v > c, "<=": v <= c, "==": v == c, "!=": v != c}[o]
        return None

    def kind(self, a):
        if a == ("res", "NeedGC", "NeedGC"):
            return None
        if a[0] == "res":
            return "null" if a[2] in UNSIGNED else \
                {-1: "neg1", 0: "null"}.get(r01.FAIL[a[2]][1] if a[2] in r01.FAIL else None, "int")
        if a[0] in ("ld", "arg"):
            return "ml" if self.fromarg(a) else "null"
        if a[0] in ("ldi", "out", "op"):
            return "int"
        return None

    def fromarg(self, a):
        while a[0] == "ld":
            l = a[1]
            while l[0] in ("F", "E"):
                l = l[1]
            if l[0] != "P":
                return False
            a = l[1]
        return a[0] == "arg" and a[2] == "ml"


def items(o, rets):
    d = {}
    for c, args in o.calls.items():
        for i, a in enumerate(args):
            if a:
                d["%s#%d" % (c, i)] = sorted(a)
        d.setdefault(c, ["called"])
    r = set()
    for st, v in rets:
        for t in v:
            r |= o.render(st, t, 0, "ret")
    d["ret"] = sorted(r)
    return d


def parse(s):
    """(leaf, function) of an arithmetic key over one leaf and constants; None otherwise."""
    pos = 0

    def term():
        nonlocal pos
        if s[pos] == "(":
            pos += 1
            xs, ops = [term()], []
            while s[pos] != ")":
                op = s[pos:pos + 2] if s[pos:pos + 2] in (">>", "<<") else s[pos]
                if op not in (">>", "<<", "+", "-", "*", "&", "|"):
                    raise ValueError
                pos += len(op)
                ops.append(op)
                xs.append(term())
            pos += 1
            return ("op", ops, xs)
        if s.startswith("n8(", pos):
            pos += 3
            x = term()
            if s[pos] != ")":
                raise ValueError
            pos += 1
            return ("op", ["n8"], [x])
        m = re.compile(r"-?\d+|[A-Za-z_][\w.>\[\]()]*?(?=[)&|+*]|-|>>|<<|$)").match(s, pos)
        if not m:
            raise ValueError
        pos = m.end()
        return int(m.group()) if re.fullmatch(r"-?\d+", m.group()) else m.group()
    try:
        t = term()
        if pos != len(s):
            return None
    except (ValueError, IndexError):
        return None
    leaves = set()

    def lv(t):
        if isinstance(t, str):
            leaves.add(t)
        elif isinstance(t, tuple):
            for x in t[2]:
                lv(x)
    lv(t)
    if len(leaves) != 1 or isinstance(t, str):
        return None

    def ev(t, v):
        if isinstance(t, str):
            return v
        if isinstance(t, int):
            return t
        xs = [ev(x, v) for x in t[2]]
        r = xs[0]
        if t[1] == ["n8"]:
            return ((r + 128) & 255) - 128
        for o, x in zip(t[1], xs[1:]):
            r = r >> x if o == ">>" else r << x if o == "<<" else r + x if o == "+" else r - x if o == "-" else \
                r * x if o == "*" else r & x if o == "&" else r | x
        return r
    return leaves.pop(), lambda v: ev(t, v)


SAMPLE = list(range(0, 1 << 17)) + [-1, -2, -128, 1 << 30, -(1 << 31)]


def consistent(cases, keys):
    """Class tuples that some value of the common leaf realises, per group of keys over one leaf."""
    groups = {}
    for k in keys:
        if cases.kind[k] == "int":
            p = parse(k)
            if p:
                groups.setdefault(p[0], []).append((k, p[1]))
    out = []
    for g in groups.values():
        tabs = [(fn, [(lab, lo) for (lab, _), lo in zip(cases.classes(k), [None] + sorted(cases.bound[k]))]) for k, fn in g]
        if not any("&" in k for k, _ in g):
            continue
        seen = set()
        for v in SAMPLE:
            tup = []
            for fn, cl in tabs:
                x = fn(v)
                tup.append([lab for lab, lo in cl if lo is None or x >= lo][-1])
            seen.add(tuple(tup))
        out.append(([k for k, _ in g], seen))
    return out


def valuations(cases, keys):
    vals = [({}, {})]
    for k in keys:
        cl = cases.classes(k)
        new = []
        for n, v in vals:
            # nothing lies below a NONE or the end of a list
            dead = any(n[x] == ML_CLASSES[0][0] and k.startswith(x + "[") for x in n if cases.kind[x] in ("ml", "opt"))
            for lab, rep in (cl[:1] if dead else cl):
                new.append((dict(n, **{k: lab}), dict(v, **{k: rep})))
        vals = new
    for ks, seen in consistent(cases, keys):
        vals = [(n, v) for n, v in vals if tuple(n[k] for k in ks) in seen]
    return vals


def extract_one(P, f, extra=None):
    o = Guarded(P)
    rets = o.run(f)
    multi = {n + "()" for n, s in o.sites.items() if len(s) > 1}
    cs = o.atoms
    for k in [k for k in cs.bound if any(m in k for m in multi)]:
        del cs.bound[k]
    if extra:
        for k, (kind, starts) in extra.items():
            cs.add(k, kind, starts)
    return cs, o, rets


def contract_of(P, f):
    cs, o, rets = extract_one(P, f)
    keys = cs.keys()
    atoms = {k: [cs.kind[k] if cs.kind[k] != "ml" else "bool" if 3 in cs.bound[k] else "opt", sorted(cs.bound[k])]
             for k in keys}
    dropped = sorted(set(cs.bound) - set(keys))
    cases = []
    for names, vals in valuations(cs, keys):
        g = Guarded(P, vals)
        r = g.run(f)
        cases.append([names, items(g, r)])
    return {"atoms": atoms, "cases": cases, "dropped": dropped}


UNKNOWN = re.compile(r"\b(top|obj|uninit|mem|local|void|bsearch)\b|\[\*\]|\('\*',\)|=raw|\.consts\[|\b(mem|str)\w*>|^&buf$")
SKIP_LIB = ("SMLNJ-Prof", "SMLNJ-RunT", "SMLNJ-Math", "SMLNJ-ccalls")
SKIP = {"POSIX-ProcEnv.environ", "SMLNJ-Signals.listSignals", "POSIX-Error.listerrors"}
ALSO = {"SMLNJ-RunT.setIntTimer", "SMLNJ-RunT.itick"}


def unknown(a):
    return a == "raw" or UNKNOWN.search(a) is not None


SHORT = (".l_type", ".l_whence", ".sin_port", ".sin_family", ".sa_family")     # fields of 16 bits


def unparen(e):
    """remove doubled parentheses"""
    close, stack = {}, []
    for i, ch in enumerate(e):
        if ch == "(":
            stack.append(i)
        elif ch == ")":
            if not stack:
                return e
            close[stack.pop()] = i
    drop = {j for i in close if close.get(i + 1) == close[i] - 1 for j in (i, close[i])}
    return "".join(ch for i, ch in enumerate(e) if i not in drop)


def split(d):
    """items -> {path: (set of known alternatives, has unknown)}"""
    out = {}
    for it, alts in d.items():
        name = it.split("#")[0]
        if "fds_bits" in it or name == "select" and it != "select#4":
            continue                # see poll.py
        if it in ("sigaddset#0", "sigismember#0") or name in ("bsearch", "sigfillset", "htons", "htonl", "ntohs", "ntohl"):
            continue
        if name in ("memmove", "bcopy", "__builtin_memcpy"):
            it = it.replace(name, "memcpy")
        if it.startswith("memcpy") and it != "memcpy#1":
            continue
        for a in alts:
            key, e = it, a
            if a.startswith("&{"):
                a = a[2:-1]
                i = a.index("=")
                key, e = it + a[:i], a[i + 1:]
            elif it == "ret" and re.match(r"[.<][^=\"]*=", a):
                i = a.index("=")
                key, e = it + a[:i], a[i + 1:]
            if "memset>0" in e:
                continue
            e = e.replace("htons(n16((", "htons(((").replace("n16(htons(", "(htons(")
            if key.endswith(SHORT) and e.startswith("n16("):
                e = e[3:]
            e = unparen(e)
            ks, unk = out.setdefault(key, (set(), [False]))
            if unknown(e) or unknown(key) or "fds_bits" in key + e:
                unk[0] = True
            else:
                ks.add(e)
    return {k: (v[0], v[1][0]) for k, v in out.items()}


def narrowless(e):
    return bare(re.sub(r"\bn\d+\(", "(", e))


def bare(e):
    return e.replace("(", "").replace(")", "")


def wanted(lib, nm):
    n = "%s.%s" % (lib, nm)
    return n in ALSO or not lib.startswith(SKIP_LIB) and n not in SKIP


NORET = {"SMLNJ-Signals.getSigMask", "POSIX-OS.poll"}         # a list whose shape the analysis merges


def compress(con, noret=False):
    """contract of one primitive for storage: only comparable items"""
    cases = []
    for names, it in con["cases"]:
        sp = split(it)
        keep = {k: sorted(v[0]) for k, v in sp.items() if not v[1] and not (noret and k.startswith("ret"))}
        calls = sorted({k.split("#")[0] for k in it if k.split("#")[0] in r01.FAIL})
        cases.append([names, keep, calls])
    # atoms that make no difference are dropped
    return {"atoms": con["atoms"], "cases": cases, "dropped": con["dropped"]}


def generate():
    from . import program
    P = program.Program()
    out = {}
    for lib, nm, fn, f in primitives(P):
        if wanted(lib, nm):
            out["%s.%s" % (lib, nm)] = compress(contract_of(P, f), "%s.%s" % (lib, nm) in NORET)
    os.makedirs(os.path.dirname(TABLE), exist_ok=True)
    with open(TABLE, "w") as fh:
        fh.write("{\n")
        ks = sorted(out)
        for k in ks:        # what is the same in every case is written once
            cs = out[k]["cases"]
            com = {a: b for a, b in cs[0][1].items() if all(x[1].get(a) == b for x in cs)}
            com["_calls"] = cs[0][2] if all(x[2] == cs[0][2] for x in cs) else None
            for x in cs:
                for a in com:
                    x[1].pop(a, None)
                if com["_calls"] is not None:
                    x[2] = 0
            out[k]["common"] = com
        for i, k in enumerate(ks):
            fh.write(" %s: {\"common\": %s,\n  \"atoms\": %s, \"dropped\": %s, \"cases\": [\n" % (
                json.dumps(k), json.dumps(out[k]["common"], sort_keys=True), json.dumps(out[k]["atoms"]), json.dumps(out[k]["dropped"])))
            fh.write(",\n".join("  " + json.dumps(c, sort_keys=True) for c in out[k]["cases"]))
            fh.write("]}%s\n" % ("," if i + 1 < len(ks) else ""))
        fh.write("}\n")


def project(con, cs, names, vals):
    """The contract case holding at a valuation of the (finer) current partition."""
    for cn, keep, calls in con["cases"]:
        ok = True
        for k, lab in cn.items():
            kind = con["atoms"][k][0]
            if kind in ("bool", "opt"):
                ok = names.get(k) == lab
            else:
                lo, hi = lab.split("..")
                v = vals[k]
                ok = (lo == "" or v >= int(lo)) and (hi == "" or v <= int(hi))
            if not ok:
                break
        if ok:
            com = con["common"]
            keep = dict({a: b for a, b in com.items() if a != "_calls"}, **keep)
            return keep, com["_calls"] if calls == 0 else calls
    return None


_P = None
_CON = None


def one(job):
    name, fn = job
    P, k = _P, _CON[name]
    f = P.funcs[fn]
    cs, o, rets = extract_one(P, f)
    fresh = set(cs.bound) - set(k["atoms"]) - set(k["dropped"])
    for a in k["atoms"]:
        cs.add(a, k["atoms"][a][0], k["atoms"][a][1])
    base = 1
    for a in k["atoms"]:
        base *= len(cs.classes(a))
    use = []
    for a in sorted(fresh, key=lambda a: (len(a), a)):
        if base * len(cs.classes(a)) <= 600:
            base *= len(cs.classes(a))
            use.append(a)
    keys = list(k["atoms"]) + use
    bad = {}
    union = {}
    ncase = nitem = 0
    for names, vals in valuations(cs, keys):
        pr = project(k, cs, names, vals)
        if pr is None:
            continue
        keep, calls = pr
        g = Guarded(P, vals)
        it = items(g, g.run(f))
        cur = split(it)
        ncase += 1
        cid = json.dumps({a: names[a] for a in k["atoms"]}, sort_keys=True) if k["atoms"] else ""
        for key, want in keep.items():
            nitem += 1
            have, unk = cur.get(key, (set(), False))
            u = union.setdefault((cid, key), [names, set(want), set(), False])
            u[2] |= have
            u[3] |= unk
            if unk:
                continue
            if want and not have and not key.startswith("memcpy"):
                bad.setdefault(key, (names, set(want), have))
        for cl in sorted({x.split("#")[0] for x in it if x.split("#")[0] in r01.FAIL}):
            if cl not in calls:
                bad.setdefault(cl, (names, {"no call"}, {"called"}))
    for (cid, key), (names, want, have, unk) in union.items():
        if unk or have == want or {bare(x) for x in have} == {narrowless(x) for x in want}:
            continue
        if key.startswith("memcpy") and (not have or key == "memcpy#1" and have & want):
            continue                # copying can be done in other ways
        bad.setdefault(key, ({a: names[a] for a in k["atoms"]}, want, have))
    return name, bad, ncase, nitem


def check(c):
    global _P, _CON
    import multiprocessing
    from . import program
    c.rule = ("value-provenance contract: for every class of arguments and of OS results a primitive distinguishes, each "
              "argument of each OS call and each component of the answer derives from the documented source")
    _CON = con = json.load(open(TABLE))
    _P = P = program.Program()
    jobs = []
    fs = {}
    for lib, nm, fn, f in primitives(P):
        name = "%s.%s" % (lib, nm)
        if name in con:
            c.require(f is not None, "no definition for " + fn)
            jobs.append((name, fn))
            fs[name] = f
    c.require(len(fs) >= 0.9 * len(con), "only %d of %d primitives found" % (len(fs), len(con)))
    ncase = nitem = 0
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(one, jobs, chunksize=2)
    for name, bad, nc, ni in res:
        ncase += nc
        nitem += ni
        f = fs[name]
        c.ob(not bad, "%s: %d cases, %d OS-call arguments and result components" % (name, nc, ni))
        for key, (names, w, have) in sorted(bad.items()):
            c.violation("%s|%s" % (name, key), "base/runtime/%s:%d" % (f.file, f.line),
                        "%s: %s is %s, must be %s%s" % (
                            name, key, " or ".join(sorted(have)) or "absent", " or ".join(sorted(w)) or "absent",
                            (" when " + ", ".join("%s in %s" % x for x in names.items())) if names else ""))
    from . import poll
    for nm, fn, what in (("POSIX-OS.poll", poll.check_poll, "combinations of requested events and ready sets"),
                         ("SMLNJ-Signals.getSigMask", poll.check_mask, "signal masks")):
        f = fs.get(nm)
        if f:
            bad, nc = fn(P, f)
            c.ob(not bad, "%s: %d %s" % (nm, nc, what))
            for key, text in dict(bad).items():
                c.violation("%s|%s" % (nm, key), "base/runtime/%s:%d" % (f.file, f.line), text)
    for n in sorted(set(con) - set(fs)):
        c.violation(n + "|missing", "base/runtime/c-libs", n + ": the primitive is no longer in the binding tables")
    c.cov.update(primitives=len(jobs), cases=ncase, compared_items=nitem)
    c.assumptions += ["tables/contract.json was reviewed against POSIX and the SML side when it was written"]


if __name__ == "__main__":
    from . import program
    if len(sys.argv) > 1 and sys.argv[1] == "generate":
        generate()
        sys.exit(0)
    P = program.Program()
    for lib, nm, fn, f in primitives(P):
        if not wanted(lib, nm):
            continue
        d = contract_of(P, f)
        print("%s.%s  %s" % (lib, nm, d["atoms"]))
        for n, it in d["cases"]:
            print("  CASE", " ".join("%s:%s" % x for x in n.items()))
            for a, b in it.items():
                print("    %-14s %s" % (a, "  |  ".join(b)))
