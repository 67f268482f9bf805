"""R08: what each Basis function asks of the runtime and how it turns the answer into its result."""
import glob, gzip, json, os, re, sys
from . import sml, nf, front
from .r07s import extract

HERE = os.path.dirname(os.path.abspath(__file__))
TABLE = os.path.join(HERE, "..", "tables", "contract_sml.json.gz")
ONLY = ["Basis", "smlnj/init"]


def public():
    """names specified in a Basis signature: internal helpers may be renamed or restructured freely"""
    out = set()
    for f in glob.glob(front.REPO + "/base/system/Basis/Implementation/**/*.sig", recursive=True) + \
            glob.glob(front.REPO + "/base/system/Basis/Implementation/**/*-sig.sml", recursive=True):
        for m in re.finditer(r"\bval\s+([A-Za-z][\w']*)\s*:", open(f, errors="replace").read()):
            out.add(m.group(1))
    return out


def load(f=TABLE):
    return nf.loadterms(json.loads(gzip.open(f).read()))


def generate():
    c = extract(sml.load(ONLY))
    pub = public()
    c = {k: v for k, v in c.items() if k.rsplit(".", 1)[-1] in pub}
    b = json.dumps(nf.dumpterms(c)).encode()
    with open(TABLE, "wb") as f:
        f.write(gzip.compress(b, 9, mtime=0))
    print(len(c), "entries", len(b))


def weak(t, seen=None):
    return isinstance(t, tuple) and bool(t) and t[0] == "weak"


def check(c):
    c.rule = ("for every function the Basis exports that reaches the runtime: on every path of its body (helpers inlined, "
              "cases distinguished by the values tested) the primitives it calls, the provenance of every argument component "
              "and of every component of the result equal the reviewed contract's")
    con = load()
    P = sml.load(ONLY)
    have = extract(P)
    bytail = {}
    for k in have:
        bytail.setdefault(k.split(":", 1)[-1], []).append(k)
    ncase = nprim = missing = 0
    c.require(len(have) >= 0.8 * len(con), "only %d of %d functions found" % (len(have), len(con)))
    for k, t in sorted(con.items()):
        h = have.get(k)
        if h is None:
            alt = bytail.get(k.split(":", 1)[-1], [])
            h = have[alt[0]] if alt else None
        if h is None:
            missing += 1
            continue
        if t[0] == "lam":
            ncase += len(t[1])
            nprim += sum(1 for _, e, _, _ in t[1] for x in e if x and x[0] == "sys")
        r = None if weak(h) else nf.same(t, h)
        c.ob(r is None, "%s: %d cases" % (k, len(t[1]) if t[0] == "lam" else 1))
        if r:
            c.violation(k, "base/system/Basis/Implementation/" + k.split(":")[0], "%s: %s" % (k.split(":", 1)[-1], r[:700]))
    c.cov.update(functions=len(con) - missing, not_found=missing, cases=ncase, primitive_calls=nprim)
    c.assumptions += ["tables/contract_sml.json.gz was reviewed against the Basis specification and the C primitives when it was written",
                      "local recursive loops are compared as opaque values"]


if __name__ == "__main__":
    generate()
