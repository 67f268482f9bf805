"""Front end for the SML sources: elaborates every compilation unit of /repo's working tree with the seed compiler's
front end (parser, elaborator, type checker; no code generation, nothing is run) and loads the typed abstract syntax.

The seed compiler is only a parser and type checker here; what is analysed is /repo's current source."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

sys.setrecursionlimit(200000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEED = "/opt/smlnj-boot/amd64"
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, PATH=SEED + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), HOME=os.environ.get("HOME", "/root"))
for k in ("SMLNJ_HOME", "CM_PATHCONFIG", "CM_LOCAL_PATHCONFIG"):
    ENV.pop(k, None)


class FrontError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def tool():
    """The analysis front end (built from the seed's sources plus absyn-dump.sml), cached beside the checks."""
    h = hashlib.sha256()
    for f in ("absyn-dump.sml", "patch.py"):
        h.update(open(os.path.join(HERE, f), "rb").read())
    cache = os.path.join(VERIF, ".cache")
    os.makedirs(cache, exist_ok=True)
    dst = os.path.join(cache, "fe-" + h.hexdigest()[:16])
    with open(os.path.join(cache, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(dst + "/ok"):
            return dst
        shutil.rmtree(dst, ignore_errors=True)
        t = tempfile.mkdtemp(prefix="vfe-")
        try:
            r = sh("cp -a $(ls -d %s/* | grep -v -e /doc$ -e /ckit$ -e /eXene$ -e /asdl$ -e /cml$) %s && rm -rf %s/lib" % (SEED, t, t), shell=True)
            os.symlink(SEED + "/lib", t + "/lib")
            if r.returncode:
                raise FrontError("copy of the seed failed: " + r.stdout[-300:])
            r = sh([sys.executable, HERE + "/patch.py", t])
            if r.returncode:
                raise FrontError("patching the front end failed: " + r.stdout[-500:])
            r = sh(["./cmb-make", "-64", SEED + "/bin/sml"], cwd=t + "/base/system", env=ENV)
            if "New boot directory has been built" not in r.stdout:
                raise FrontError("building the front end failed: " + r.stdout[-800:])
            r = sh(["./makeml", "-64", "-o", "dsml"], cwd=t + "/base/system", env=ENV)
            if not os.path.exists(t + "/base/system/dsml.amd64-linux"):
                raise FrontError("makeml failed: " + r.stdout[-800:])
            os.makedirs(dst)
            shutil.move(t + "/base/system/dsml.amd64-linux", dst)
            shutil.move(t + "/base/system/dsml.lib", dst)
            shutil.copy(t + "/bin/.run/run.amd64-linux", dst)
            open(dst + "/ok", "w").close()
        finally:
            shutil.rmtree(t, ignore_errors=True)
    return dst


def pathconfig(fe, path):
    lib = fe + "/dsml.lib"
    out = []
    have = set()
    for n in os.listdir(lib):
        if n != "pathconfig":
            out.append("%s %s/%s" % (n, lib, n))
            have.add(n)
    for l in open(SEED + "/lib/pathconfig"):
        a = l.split()
        if len(a) == 2 and a[0] not in have:
            out.append("%s %s/lib/%s" % (a[0], SEED, a[1]))
    open(path, "w").write("\n".join(out) + "\n")


GEN = [("yacc", "base/cm/parse/cm.grm"), ("lex", "base/cm/parse/cm.lex"), ("yacc", "base/compiler/Parse/parse/ml.grm"),
       ("yacc", "base/compiler/Parse/parse/sml.grm"), ("lex", "base/compiler/Parse/lex/ml.lex"),
       ("lex", "base/compiler/Parse/lex/sml.lex")]

# libraries outside the boot set, compiled in the same run so that everything resolves to /repo's own sources
EXTRA = {
    "cml": ["../../cml/src/cml-internal.cm", "../../cml/cml-lib/sources.cm"],
    "json": ["../../smlnj-lib/JSON/json-lib.cm"],
    "sexp": ["../../smlnj-lib/SExp/sexp-lib.cm"],
    "regexp": ["../../smlnj-lib/RegExp/regexp-lib.cm"],
    "xml": ["../../smlnj-lib/XML/xml-lib.cm"],
    "hashcons": ["../../smlnj-lib/HashCons/hash-cons-lib.cm"],
    "inet": ["../../smlnj-lib/INet/inet-lib.cm"],
    "unix": ["../../smlnj-lib/Unix/unix-lib.cm"],
    "reactive": ["../../smlnj-lib/Reactive/reactive-lib.cm"],
    "uuid": ["../../smlnj-lib/UUID/uuid-lib.cm"],
    "mlrisc": ["../../MLRISC/cm/Graphs.cm"],
    "lpt": ["../../ml-lpt/lib/ml-lpt-lib.cm"],
}
DIRS = ["base", "smlnj-lib", "MLRISC", "ml-yacc", "pgraph", "ml-lpt", "cml", "trace-debug-profile", "asdl", "ml-lex", "config"]


def dump(only, extra=()):
    """only: substrings of the file names wanted.  Returns the loaded units (list of dicts)."""
    fe = tool()
    t = tempfile.mkdtemp(prefix="vsml-")
    try:
        r = sh("cd %s && (git -c safe.directory='*' ls-files -z -c -o --exclude-standard -- %s 2>/dev/null || "
               "find %s -type f -print0) | grep -zv -e '/Doc/' -e '/doc/' -e 'base/runtime/' | "
               "xargs -0 cp --parents -t %s 2>/dev/null; true" % (REPO, " ".join(DIRS), " ".join(DIRS), t), shell=True)
        pathconfig(fe, t + "/pc")

        def gen(a):
            kind, src = a
            cmd = [SEED + "/bin/ml-yacc"] if kind == "yacc" else [SEED + "/bin/ml-ulex", "--ml-lex-mode"]
            return sh(cmd + [os.path.basename(src)], cwd=os.path.join(t, os.path.dirname(src)), env=ENV)
        with ThreadPoolExecutor(6) as ex:
            list(ex.map(gen, GEN))
        v = open(t + "/config/version").readline().strip()
        suffix = ""
        if "-" in v:
            v, suffix = v.split("-", 1)
        i = t + "/base/system/smlnj/internal/"
        s = open(i + "version.template").read()
        for a, b in (("%V", v.replace(".", ",")), ("%S", suffix), ("%D", open(t + "/config/releasedate").readline().strip()), ("%F", "version.sml")):
            s = s.replace(a, b, 1) if a != "%F" else s.replace(a, b)
        open(i + "version.sml", "w").write(s)
        for f in glob.glob(t + "/**/*.cm", recursive=True):
            try:
                s = open(f).read()
            except UnicodeDecodeError:
                continue
            s2 = re.sub(r'#\s*if defined\s*\(NO_PLUGINS\)\n(.*?)#\s*else.*?\n(.*?)#\s*endif[^\n]*\n', lambda m: m.group(1), s, flags=re.S)
            if s2 != s:
                open(f, "w").write(s2)
        ex = [p for e in extra for p in EXTRA[e]]
        if ex:
            adapt(t, extra, ex)
        os.mkdir(t + "/dump")
        env = dict(ENV, VERIF_DUMP_DIR=t + "/dump", VERIF_FRONT_ONLY="1", CM_PATHCONFIG=t + "/pc", VERIF_DUMP_ONLY=":".join(only))
        env["PATH"] = ENV["PATH"]
        r = subprocess.run([fe + "/run.amd64-linux", "@SMLload=" + fe + "/dsml.amd64-linux", "-DNO_PLUGINS", "$smlnj/cmb.cm"],
                           input="CMB.make();\n", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           cwd=t + "/base/system", env=env)
        if "New boot directory has been built" not in r.stdout:
            m = re.search(r"[^\n]*Error:[^\n]*(\n[^\n]*){0,3}", r.stdout)
            raise FrontError("the SML sources do not elaborate: " + (m.group(0) if m else r.stdout[-600:]))
        fs = sorted(glob.glob(t + "/dump/*.json"), key=lambda f: int(os.path.basename(f).split("_")[0]))
        units = []
        for f in fs:
            u = json.load(open(f, encoding="latin-1"))
            u["file"] = os.path.relpath(os.path.normpath(os.path.join(t, "base/system", u["file"])), t)
            if os.path.exists(os.path.join(t, u["file"])):
                u["src"] = open(os.path.join(t, u["file"]), encoding="latin-1").read()
            units.append(u)
        if not units:
            raise FrontError("no compilation unit was dumped")
        return units
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(t, ignore_errors=True)
        else:
            print("kept", t)


def adapt(t, extra, paths):
    """add the extra libraries to the root group of the scratch copy"""
    f = t + "/base/system/root.cm"
    open(f, "w").write("Group\n\tstructure InteractiveSystem\n" +
                       "".join("\tlibrary(%s)\n" % p if not p.endswith("sources.cm") else "\tgroup(%s)\n" % p for p in paths) +
                       "is\n\t$smlnj/internal/intsys.cm\n" + "".join("\t%s\n" % p for p in paths))
    f = t + "/base/system/pathconfig"
    s = open(f).read()
    s += "\ncml ../../cml/src\ncml-lib ../../cml/cml-lib\nbasis.cm ../system/smlnj/basis\nsmlnj-lib.cm ../system/smlnj/smlnj-lib\npp-lib.cm ../system/smlnj/smlnj-lib\ncontrols-lib.cm ../system/smlnj/smlnj-lib\n"
    s += "inet-lib.cm ../../smlnj-lib/INet\nunix-lib.cm ../../smlnj-lib/Unix\nml-lpt-lib.cm ../../ml-lpt/lib\nml-yacc-lib.cm ../system/smlnj/ml-yacc\n"
    open(f, "w").write(s)


if __name__ == "__main__":
    import time
    t0 = time.time()
    tool()
    print("tool", time.time() - t0)
    us = dump(sys.argv[1].split(":"), sys.argv[2].split(",") if len(sys.argv) > 2 else ())
    print(len(us), time.time() - t0)
