"""The primitives ML code can call (from the initialised binding tables) and the shared
interpretation of the runtime's own allocation / raise / GC helpers."""
from .absint import *
from . import absint
from .program import Broken

SMALL_OBJ_WORDS = 512          # include/ml-limits.h, cross-checked by R10


def primitives(P):
    """[(library, name, function)] from every CFunTable referenced by a c_library_t."""
    out = []
    for (path, g), v in sorted(P.ginit.items()):
        d = P.gdefs.get((path, g))
        if not d or "c_library_t" not in d[0]:
            continue
        if not (isinstance(v, list) and len(v) == 5 and v[0][0] == "str"):
            continue
        lib = v[0][1].strip('"')
        tab = v[4]
        rows = P.ginit.get((path, tab[1]))
        if rows is None:
            continue
        for r in rows:
            if isinstance(r, list) and len(r) >= 2 and r[0][0] == "str":
                fn = r[1]
                if fn[0] == "addr":
                    fn = fn[1]
                f = P.funcs.get(fn[1])
                out.append((lib, r[0][1].strip('"'), fn[1], f))
    if len(out) < 150:
        raise Broken("only %d primitives found in the binding tables" % len(out))
    return out


# strings the runtime documents as small (ML_CString): system data-base names, error texts
SMALL_SOURCES = {"strerror", "gethostbyname", "gethostbyaddr", "getprotobyname", "getprotobynumber",
                 "getservbyname", "getservbyport", "getnetbyname", "getnetbyaddr", "getrpcbyname",
                 "getrpcbynumber", "getpwnam", "getpwuid", "getgrnam", "getgrgid", "uname", "getlogin",
                 "cuserid", "ctermid", "ttyname", "gethostname", "dlerror", "asctime", "strftime",
                 "tmpnam", "tempnam", "signame"}


def sources(t, acc=None):
    """External calls a term derives from."""
    if acc is None:
        acc = set()
    if isinstance(t, tuple):
        if t and t[0] == "res":
            acc.add(t[2])
        elif t and t[0] == "out":
            acc.add(t[2])
        for x in t:
            sources(x, acc)
    return acc


def roots_of(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, tuple):
        if t and t[0] == "G":
            acc.add(("G", t[1]))
        elif t and t[0] in ("arg", "L", "top", "uninit"):
            acc.add((t[0],))
        else:
            for x in t:
                roots_of(x, acc)
    return acc


class RT(Interp):
    """Interpretation of the runtime's helpers shared by all rules."""

    def __init__(self, P):
        super().__init__(P)
        self.rawcount = {}

    def smallstr(self, t):
        """Strings that provably or by the documented assumption of ML_CString fit a small object:
        literals, entries of static constant tables, system data-base names, C buffers of <= 4 KB."""
        if t[0] in ("s", "i"):
            return True
        if t[0] == "&":
            l = t[1]
            if l[0] == "E" and l[2][0] == "i":
                n = self.loc_size(l[1])
                return n is not None and n <= 8 * SMALL_OBJ_WORDS
            return False
        if t[0] == "mal" and self.malloc_size(t) is not None:
            return self.malloc_size(t) <= 8 * SMALL_OBJ_WORDS
        s = sources(t)
        if s:
            return s <= SMALL_SOURCES
        r = roots_of(t)
        return bool(r) and all(x[0] == "G" and self.const_table(x[1]) for x in r)

    def malloc_size(self, t):
        if t[0] == "mal":
            return t[2] if isinstance(t[2], int) else None
        return None

    def small_size(self, t):
        """Byte/word counts known small by what they measure: socket-address lengths (the kernel's
        sockaddr limit) and the h_length field of a host entry (4 or 16)."""
        if t[0] == "i":
            return 0 < t[1] <= SMALL_OBJ_WORDS
        while t[0] == "w" or (t[0] == "op" and len(t) == 4 and t[3][0] == "i" and t[1] in ("+", ">>", "/", "&")):
            if t[0] == "op" and t[1] == "+" and t[3][1] > 64:
                return False
            t = t[2]
        if t[0] == "ldi" and t[1][0] == "F" and t[1][2] == "h_length":
            return True
        if t[0] == "out" and t[2] in ("accept", "recvfrom", "getsockname", "getpeername"):
            return True
        return False

    def const_table(self, g):
        t = self.P.globals.get("g:" + g, "")
        return any(x in t for x in ("sysconst_tbl_t", "sys_const_t", "name_val_t"))

    def loc_type(self, l):
        if l[0] == "L":
            for f in self.P.funcs.values():
                if l[1].split("@")[0] == f.name and l[2] in f.vars:
                    return f.vars[l[2]]
        if l[0] == "G":
            return self.P.globals.get("g:" + l[1])
        if l[0] == "F":
            bt = self.loc_type(l[1])
            if bt:
                bt = self.rtype(bt).replace("struct ", "").replace("union ", "").strip()
                for n, ft in self.P.records.get(bt, []):
                    if n == l[2]:
                        return ft
        return None

    def loc_size(self, l):
        t = self.loc_type(l)
        sa = self.P.sizealign(t) if t else None
        return sa[0] if sa else None

    def rawid(self, line):
        return self.ctxname() + (line,)

    def alloc_raw(self, st, f, name, nset, line):
        small = all(self.small_size(t) for t in nset)
        maybe_small = any(t[0] != "i" or t[1] <= SMALL_OBJ_WORDS for t in nset)
        v = frozenset([("raw", self.rawid(line))])
        if small:
            n = max(t[1] if t[0] == "i" else 16 for t in nset)
            st.budget += 8 * (n + 1)
            self.on_alloc_raw(st, f, line, nset)
            return [(st, v)]
        self.gc(st, set(), f, line, name)
        st.budget += 8 * (SMALL_OBJ_WORDS + 1)
        self.on_alloc_raw(st, f, line, nset)
        return [(st, v)]

    def on_alloc_raw(self, st, f, line, nset):
        pass

    def on_raise(self, st, f, line, alt):
        pass

    def on_shrink(self, st, f, line, obj):
        pass

    def on_need(self, st, f, line, n):
        pass

    def intrinsic(self, st, f, name, av, line, site):
        if name in ("ML_AllocRaw", "ML_AllocRaw64"):
            n = av[1]
            return self.alloc_raw(st, f, name, n, line)
        if name == "ML_AllocCode":
            return [(st, frozenset([("raw", self.rawid(line))]))]
        if name == "ML_ShrinkRaw":
            for t in av[1]:
                if t[0] == "stale":
                    self.on_use(st, f, line, "shrink", t)
                self.on_shrink(st, f, line, t)
            return [(st, frozenset([("void",)]))]
        if name == "ML_CString":
            for t in av[1]:
                if t[0] == "stale":
                    self.on_use(st, f, line, "copy", t)
            if all(self.smallstr(t[1] if t[0] == "stale" else t) for t in av[1]):
                st.budget += 8 * (SMALL_OBJ_WORDS + 1 + 3)
                return [(st, self.mlstring(av[1]))]
            self.gc(st, set(), f, line, name)
            st.budget += 8 * (SMALL_OBJ_WORDS + 1 + 3)
            return [(st, self.mlstring(av[1]))]
        if name == "RaiseSysError":
            for v in av[1:2]:
                for t in v:
                    if t[0] == "stale":
                        self.on_use(st, f, line, "message", t)
            self.on_raise(st, f, line, av[1])
            return [(st, frozenset([("raise", "alt" if av[1] != I(0) else "errno")]))]
        if name == "RaiseMLExn":
            return [(st, frozenset([("void",)]))]
        if name in ("RunML", "ApplyMLFn"):
            self.gc(st, set(), f, line, name)
            return [(st, frozenset([("raw", self.rawid(line))]))]
        if name == "NeedGC":
            self.on_need(st, f, line, av[1])
            return [(st, frozenset([("res", "NeedGC", "NeedGC")]))]
        if name == "SaveCState":
            for v in av[1:]:
                for t in v:
                    if t[0] == "&":
                        for x in st.env.get(t[1], ()):
                            if x[0] == "stale":
                                self.on_use(st, f, line, "save", x)
            return [(st, frozenset([("void",)]))]
        if name == "RestoreCState":
            for v in av[1:]:
                for t in v:
                    if t[0] == "&":
                        st.env[t[1]] = frozenset([("raw", self.rawid(line))])
            return [(st, frozenset([("void",)]))]
        if name == "malloc":
            return [(st, mk({("mal", self.rawid(line), t[1] if t[0] == "i" else "?") for t in av[0]}))]
        if name in ("__errno_location",):
            return [(st, frozenset([("errnop",)]))]
        if name in ("MP_FindProc", "Say", "SayDebug", "Error"):
            return [(st, TOPS)]
        return None

    def mlstring(self, v):
        return mk({("str", t[1] if t[0] == "stale" else t) for t in v})

    def heapish(self, t):
        if t[0] == "str":
            return t[1] != ("i", 0)
        if t[0] == "raise":
            return False
        return super().heapish(t)

    def entry_args(self, f):
        """Generic abstract arguments by declared type."""
        out = []
        for i, p in enumerate(f.params):
            t = f.vars[p].replace("const ", "").strip()
            if t == "ml_state_t *":
                out.append(frozenset([("arg", 0, "msp")]))
            elif t == "ml_val_t":
                out.append(frozenset([("arg", i, "ml")]))
            else:
                out.append(frozenset([("arg", i, "c")]))
        return out

    def run(self, f):
        st = State()
        st.env[AP] = frozenset([("ap", "entry", 0)])
        return self.call_function(f, self.entry_args(f), st, f.line)
