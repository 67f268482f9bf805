"""Whole-program view of the C runtime in /repo/base/runtime (current working tree)."""
import os, shutil, subprocess, sys, multiprocessing, tempfile, collections
from . import cir

REPO = os.environ.get("VERIF_REPO", "/repo")


from lib.core import Broken  # noqa


class _Broken(Exception):
    """The analysis could not be carried out (an error exit, never a verdict)."""


def _one(job):
    cwd, args, root = job
    try:
        return cir.parse_tu(cwd, args, root)
    except RecursionError as e:
        raise RuntimeError("recursion in " + repr(args[-1]))


class Program:
    def __init__(self, scratch=None, only=None):
        own = scratch is None
        self.scratch = scratch or tempfile.mkdtemp(prefix="verif-rt-")
        try:
            self._build(only)
        finally:
            if own:
                shutil.rmtree(self.scratch, ignore_errors=True)

    def _build(self, only):
        root = os.path.join(self.scratch, "runtime")
        if os.path.exists(root):
            shutil.rmtree(root)
        shutil.copytree(os.path.join(REPO, "base/runtime"), root, symlinks=True,
                        ignore=shutil.ignore_patterns("*.o", "*.a", "run.*", "v-*", "*.orig"))
        log = os.path.join(self.scratch, "cclog")
        open(log, "w").close()
        wrap = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ccwrap.sh")
        env = dict(os.environ, CCLOG=log)
        env.pop("MAKEFLAGS", None)
        p = subprocess.run(["make", "-f", "mk.amd64-linux", "CC=bash %s -std=gnu99" % wrap],
                           cwd=os.path.join(root, "objs"), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise Broken("runtime makefile failed:\n" + p.stdout.decode(errors="replace")[-800:])
        jobs = []
        seen = set()
        for l in open(log):
            w = l.rstrip("\n").split("\t")
            src = [a for a in w[1:] if a.endswith(".c")]
            if not src:
                continue
            path = os.path.normpath(os.path.join(w[0], src[0]))
            if path in seen:
                continue
            seen.add(path)
            if only and not any(o in path for o in only):
                continue
            jobs.append((w[0], w[1:], root))
        if len(jobs) < (1 if only else 200):
            raise Broken("only %d compile commands recorded" % len(jobs))
        with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
            self.tus = pool.map(_one, jobs, chunksize=4)
        self.root = root
        self.funcs = {}
        self.byname = collections.defaultdict(list)
        self.gdefs = {}
        self.globals = {}
        self.ginit = {}
        self.records = {}
        self.protos = {}
        self.typedefs = {}
        self.enumnames = {}
        self.tu_of = {}
        self.unions = set()
        for tu in self.tus:
            for n, f in tu.funcs.items():
                key = n
                if key in self.funcs and (self.funcs[key].file, self.funcs[key].line) != (f.file, f.line):
                    key = n + "@" + f.file
                self.funcs[key] = f
                self.tu_of[key] = tu
                self.byname[n].append(f)
            for g, d in tu.gdefs.items():
                self.gdefs[(tu.path, g)] = d
            for g, d in tu.ginit.items():
                self.ginit[(tu.path, g)] = d
            self.globals.update(tu.globals)
            self.records.update(tu.records)
            self.protos.update(tu.protos)
            self.typedefs.update(tu.typedefs)
            self.enumnames.update(tu.enumnames)
            self.unions.update(tu.unions)

    def resolve(self, f, name):
        """The definition a call to `name` inside function f reaches (static first)."""
        c = self.byname.get(name)
        if not c:
            return None
        for g in c:
            if g.file == f.file:
                return g
        for g in c:
            if g.file.endswith(".h"):
                return g
        for g in c:
            if not g.static:
                return g
        return None

    # -- sizes of C types (LP64), from the records clang reported
    def sizealign(self, t, d=0):
        t = t.replace("const ", "").replace("volatile ", "").strip()
        if d > 20:
            return None
        if t in cir.BASIC:
            return cir.BASIC[t], cir.BASIC[t]
        if t.endswith("*") or "(*" in t:
            return 8, 8
        if t.startswith("enum "):
            return 4, 4
        if t.endswith("]"):
            base = t[:t.index("[")].strip()
            dims = [x.rstrip("]") for x in t[t.index("["):].split("[")[1:]]
            sa = self.sizealign(base, d + 1)
            if sa is None or not all(x.isdigit() for x in dims):
                return None
            n = 1
            for x in dims:
                n *= int(x)
            return sa[0] * n, sa[1]
        if t in self.typedefs and self.typedefs[t] != t:
            r = self.sizealign(self.typedefs[t], d + 1)
            if r is not None:
                return r
        nm = t.replace("struct ", "").replace("union ", "").strip()
        fl = self.records.get(nm)
        if fl is None:
            return None
        off = 0
        al = 1
        mx = 0
        for _, ft in fl:
            sa = self.sizealign(ft, d + 1)
            if sa is None:
                return None
            al = max(al, sa[1])
            off = (off + sa[1] - 1) // sa[1] * sa[1]
            off += sa[0]
            mx = max(mx, sa[0])
        tot = mx if nm in self.unions else off
        return (tot + al - 1) // al * al, al
