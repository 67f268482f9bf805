"""SML side of R07: what each Basis function asks of the runtime and how it turns the answer into its result."""
import json, os
from . import sml, nf

B = "base/system/Basis/Implementation/"
INLINE = (B + "Posix/", B + "Unix/", B + "Sockets/", B + "NJ/internal-signals", B + "NJ/interval-timer", B + "NJ/signals",
          B + "NJ/gc", B + "NJ/sysinfo", B + "OS/", B + "option.sml", B + "bit-flags-fn.sml", B + "time.sml", B + "timer.sml",
          B + "internal-timer.sml", B + "date.sml", B + "general.sml", "base/system/smlnj/init/pre-perv")
SCOPE = (B + "Posix/posix", B + "Unix/os-", B + "Unix/unix", B + "Sockets/", B + "NJ/internal-signals", B + "NJ/interval-timer",
         B + "NJ/sysinfo", B + "time.sml", B + "internal-timer.sml", B + "date.sml")
SKIP = ("posix.sml", "unix-signals.sml", "bin-io", "text-io", "os-path")


def extract(P):
    n = nf.NF(P, lambda f: f.startswith(INLINE))
    out = {}
    for u in P.units:
        if not u.file.startswith(SCOPE) or any(s in u.file for s in SKIP) or not u.file.endswith(".sml"):
            continue
        base = u.file[len(B):]
        for lv in u.lvars:
            members(P, n, u, lv, base, out, set())
    return out


def members(P, n, u, lv, pre, out, seen):
    d = u.defs.get(lv)
    if (u.pid, lv) in seen:
        return
    seen.add((u.pid, lv))
    if not d or d[0] != "str":
        return
    s = d[1]
    while s[0] == "let":
        s = s[2]
    name = u.names.get(lv, "")
    if name.startswith("<"):
        name = ""
    pre = pre + ":" + name if ":" not in pre else pre + ("." + name if name else "")
    if s[0] == "var":
        r = P.resolve(u, s[1])
        if r and r[0] is u:
            members(P, n, r[0], r[1], pre, out, seen)
        return
    if s[0] != "struct":
        return
    for b in s[1]:
        r = P.resolve(u, b[1]) if b[0] in ("v", "s") else None
        if not r or r[0] is not u:
            continue
        if b[0] == "v":
            out[pre + "." + b[2]] = n.summary(*r) if not (b[3] and b[3][0] not in "(<") else ("primv", b[3].split("|")[0])
        else:
            members(P, n, r[0], r[1], pre + "." + b[2] if r[0].names.get(r[1], "").startswith("<") else pre, out, seen)
