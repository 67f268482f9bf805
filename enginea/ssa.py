"""Value numbering on top of the provenance interpreter: where different values of one location meet, the
location gets a name of its own ('phi', merge point, location) instead of a set, so that later uses of it
are known to be the same value; values named inside a loop lose their names when the loop goes round."""
from .absint import *
from .prims import RT
from .sizes import hasatom


def phis(t, f):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "phi":
        return f(t)
    return any(phis(x, f) for x in t)


class SSA(RT):
    MAXEV = 60

    def __init__(self, P):
        super().__init__(P)
        self.inputs = {}

    def joinval(self, k, x, y, widen):
        if x == y or k == AP or not isinstance(k, tuple) or k[0] not in ("L", "F", "E", "P", "G"):
            return super().joinval(k, x, y, widen)
        if UNINIT in x and len(x) == 1 or UNINIT in y and len(y) == 1:
            return super().joinval(k, x, y, widen)
        p = ("phi", self.mergept, k)
        self.inputs.setdefault(p, set()).update((x | y) - {p})
        return frozenset([p])

    def joinhead(self, a, b, widen, ctx, nb, key, back):
        if back:
            b = b.copy()
            for k, v in b.env.items():
                if isinstance(k, tuple) and isinstance(v, frozenset) and any(phis(t, lambda p: p[1][0] == ctx) for t in v):
                    own = ("phi", (ctx, nb), k)
                    if v != frozenset([own]) and a.env.get(k) != v:
                        b.env[k] = TOPS
                        if own in self.inputs or k[0] == "L":
                            self.inputs.setdefault(own, set()).update(v)
        return super().joinhead(a, b, widen, ctx, nb, key, back)

    def event(self, st, ev):
        fl = st.flags if isinstance(st.flags, tuple) else ()
        if len(fl) < self.MAXEV:
            st.flags = fl + (ev,)


def val1(v):
    """the value, if there is just one"""
    if v is not None and len(v) == 1:
        (t,) = v
        return t
    return None
