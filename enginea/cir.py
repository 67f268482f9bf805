"""C front end: clang's type-checked AST (JSON) -> a small explicit-control-flow IR.

Every translation unit of the runtime is read with the flags of the project's own
makefile.  Expressions are side-effect-free tuples; calls, assignments, ++/--, ?:,
&& and || are lowered to instructions and branches, so analyses only ever see

  instructions   ('asg', lvalue, expr, line)
                 ('call', tmp, fexpr, args, line)
  terminators    ('br', cond, T, F, line) ('jmp', B) ('ret', expr|None, line)
                 ('sw', expr, [(value, B)...], default, line) ('stop',)

  expressions    ('int', n) ('str', s) ('flt', s) ('var', vid) ('fun', name)
                 ('tmp', n) ('un', op, e) ('bin', op, a, b) ('cast', type, e)
                 ('idx', p, i, type)    *p is idx(p, 0)
                 ('fld', lvalue, name, type) ('addr', lvalue) ('sizeof', type)
                 ('unk', what)
"""
import json, subprocess, os, sys, re

NORETURN = {"Die", "exit", "_exit", "abort", "siglongjmp", "longjmp", "AssertFail", "Exit",
            "__assert_fail"}


class Func:
    __slots__ = ("name", "file", "line", "params", "vars", "ret", "blocks", "static", "variadic",
                 "tmptypes", "endline")

    def __repr__(self):
        return "<Func %s %s:%d>" % (self.name, self.file, self.line)


class Block:
    __slots__ = ("ins", "term")

    def __init__(self):
        self.ins = []
        self.term = None


class Loc:
    """Re-creates clang's delta-encoded source locations in document order."""

    def __init__(self):
        self.file = None
        self.line = 0

    def bare(self, l):
        if "file" in l:
            self.file = l["file"]
        if "line" in l:
            self.line = l["line"]
        if "offset" in l:
            l["_f"] = self.file
            l["_l"] = self.line

    def loc(self, l):
        if not l:
            return
        if "spellingLoc" in l or "expansionLoc" in l:
            if "spellingLoc" in l:
                self.bare(l["spellingLoc"])
            if "expansionLoc" in l:
                self.bare(l["expansionLoc"])
                l["_f"] = l["expansionLoc"].get("_f")
                l["_l"] = l["expansionLoc"].get("_l")
        else:
            self.bare(l)


def annotate(tu):
    """Resolve delta locations over the whole TU (iterative, document order)."""
    L = Loc()

    def visit(n):
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                if "loc" in x and isinstance(x["loc"], dict):
                    L.loc(x["loc"])
                if "range" in x and isinstance(x["range"], dict):
                    r = x["range"]
                    L.loc(r.get("begin"))
                    L.loc(r.get("end"))
                inner = x.get("inner")
                if inner:
                    stack.extend(reversed(inner))
    visit(tu)


def qt(n):
    t = n.get("type")
    if not t:
        return ""
    return t.get("desugaredQualType") if False else t.get("qualType", "")


def dqt(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType", t.get("qualType", ""))


def line_of(n):
    r = n.get("range")
    if r:
        b = r.get("begin") or {}
        if b.get("_l"):
            return b["_l"]
    l = n.get("loc") or {}
    return l.get("_l") or 0


class Lower:
    def __init__(self, tu, fd, recs, unroll=False):
        self.tu = tu
        self.unroll = unroll
        self.f = Func()
        f = self.f
        f.name = fd["name"]
        f.file = (fd.get("loc") or {}).get("_f") or ""
        f.line = line_of(fd)
        f.endline = ((fd.get("range") or {}).get("end") or {}).get("_l") or f.line
        f.ret = qt(fd).split("(")[0].strip()
        f.static = fd.get("storageClass") == "static"
        f.variadic = bool(fd.get("variadic"))
        f.params = []
        f.vars = {}
        f.blocks = []
        f.tmptypes = []
        self.names = {}
        self.statics = []
        self.cur = self.newblock()
        self.brk = []
        self.cont = []
        self.labels = {}
        body = None
        for c in fd.get("inner", []):
            if c["kind"] == "ParmVarDecl":
                v = self.declare(c)
                f.params.append(v)
            elif c["kind"] == "CompoundStmt":
                body = c
        self.stmt(body)
        if self.cur is not None:
            self.term(("ret", None, f.endline))
        for b in f.blocks:
            if b.term is None:
                b.term = ("stop",)

    # -- helpers
    def newblock(self):
        self.f.blocks.append(Block())
        return len(self.f.blocks) - 1

    def emit(self, i):
        if self.cur is None:
            self.cur = self.newblock()  # unreachable code
        self.f.blocks[self.cur].ins.append(i)

    def term(self, t):
        if self.cur is None:
            return
        self.f.blocks[self.cur].term = t
        self.cur = None

    def goto(self, b):
        self.term(("jmp", b))

    def at(self, b):
        self.cur = b

    def declare(self, d):
        base = d.get("name") or "_anon"
        vid = base
        k = 1
        while vid in self.f.vars:
            k += 1
            vid = "%s.%d" % (base, k)
        self.f.vars[vid] = qt(d)
        self.names[d["id"]] = vid
        return vid

    def newtmp(self, ty):
        self.f.tmptypes.append(ty)
        return ("tmp", len(self.f.tmptypes) - 1)

    # -- statements
    def stmt(self, s):
        if not s or "kind" not in s:
            return
        k = s["kind"]
        m = getattr(self, "s_" + k, None)
        if m:
            m(s)
            return
        if k.endswith("Stmt") and k not in ("StmtExpr",):
            if k in ("NullStmt", "AttributedStmt"):
                for c in s.get("inner", []):
                    if c.get("kind", "").endswith(("Stmt", "Operator", "Expr")):
                        self.stmt(c)
                return
            if k == "GCCAsmStmt":
                self.emit(("call", self.newtmp("void"), ("fun", "__asm__"), (), line_of(s)))
                return
            raise NotImplementedError(k)
        self.expr(s, want=False)

    def s_CompoundStmt(self, s):
        for c in s.get("inner", []):
            self.stmt(c)

    def s_DeclStmt(self, s):
        for d in s.get("inner", []):
            if d["kind"] == "RecordDecl":
                fl = [(c.get("name", ""), qt(c)) for c in d.get("inner", []) if c.get("kind") == "FieldDecl"]
                if fl:
                    self.tu.records.setdefault(d["name"], fl) if d.get("name") else setattr(self, "anonrec", fl)
            if d["kind"] == "VarDecl":
                if d.get("storageClass") in ("static", "extern"):
                    # a static local behaves like a global
                    self.names[d["id"]] = "g:%s:%s" % (self.f.name, d["name"]) \
                        if d["storageClass"] == "static" else "g:" + d["name"]
                    self.tu.globals[self.names[d["id"]]] = qt(d)
                    if d["storageClass"] == "static":
                        self.tu.statics[self.names[d["id"]]] = line_of(d)
                        init = [c for c in d.get("inner", []) if "kind" in c and not c["kind"].endswith(("Attr", "Comment"))]
                        if init:
                            self.tu.ginit[self.names[d["id"]]] = init[0]
                    continue
                v = self.declare(d)
                init = [c for c in d.get("inner", []) if "kind" in c and not c["kind"].endswith("Attr")
                        and not c["kind"].endswith("Decl")]
                if d.get("init") and init:
                    e = init[-1]
                    if e["kind"] == "InitListExpr":
                        self.initlist(("var", v), e)
                    else:
                        self.emit(("asg", ("var", v), self.expr(e), line_of(d)))
                else:
                    self.emit(("asg", ("var", v), ("unk", "uninit"), line_of(d)))

    def initlist(self, lv, e):
        t = dqt(e)
        self.emit(("asg", lv, ("unk", "zero"), line_of(e)))
        items = e.get("inner", [])
        if "array_filler" in e:
            items = [x for x in e["array_filler"] if x.get("kind") != "ImplicitValueInitExpr"]
        rec = self.tu.records.get(t.replace("struct ", "").strip())
        if rec is None and "(unnamed" in t and "[" not in t:
            rec = getattr(self, "anonrec", None)
        for i, x in enumerate(items):
            if x.get("kind") == "ImplicitValueInitExpr":
                continue
            if "[" in t:
                sub = ("idx", lv, ("int", i), "")
            else:
                nm = rec[i][0] if rec and i < len(rec) else "#%d" % i
                sub = ("fld", lv, nm, "")
            if x.get("kind") == "InitListExpr":
                self.initlist(sub, x)
            else:
                self.emit(("asg", sub, self.expr(x), line_of(x)))

    def s_IfStmt(self, s):
        inner = list(s.get("inner", []))
        c = inner[0]
        T = self.newblock()
        E = self.newblock()
        hase = s.get("hasElse")
        F = self.newblock() if hase else E
        self.cond(c, T, F)
        self.at(T)
        self.stmt(inner[1])
        self.goto(E)
        if hase:
            self.at(F)
            self.stmt(inner[2])
            self.goto(E)
        self.at(E)

    def s_WhileStmt(self, s):
        inner = s["inner"]
        H = self.newblock()
        B = self.newblock()
        E = self.newblock()
        self.goto(H)
        self.at(H)
        self.cond(inner[-2], B, E)
        self.at(B)
        self.brk.append(E)
        self.cont.append(H)
        self.stmt(inner[-1])
        self.brk.pop()
        self.cont.pop()
        self.goto(H)
        self.at(E)

    def s_DoStmt(self, s):
        B = self.newblock()
        C = self.newblock()
        E = self.newblock()
        self.goto(B)
        self.at(B)
        self.brk.append(E)
        self.cont.append(C)
        self.stmt(s["inner"][0])
        self.brk.pop()
        self.cont.pop()
        self.goto(C)
        self.at(C)
        self.cond(s["inner"][1], B, E)
        self.at(E)

    def s_ForStmt(self, s):
        init, cv, c, inc, body = (s["inner"] + [{}] * 5)[:5]
        vals = self.counted(init, c, inc, body)
        if vals is not None:
            # a loop over a few literal values is the sequence of its iterations
            self.stmt(init)
            var = self.names[vals[0]]
            E = self.newblock()
            for v in vals[1][:-1]:
                self.emit(("asg", ("var", var), ("int", v), line_of(s)))
                C = self.newblock()
                self.brk.append(E)
                self.cont.append(C)
                self.stmt(body)
                self.brk.pop()
                self.cont.pop()
                self.goto(C)
                self.at(C)
            self.emit(("asg", ("var", var), ("int", vals[1][-1]), line_of(s)))
            self.goto(E)
            self.at(E)
            return
        self.stmt(init)
        H = self.newblock()
        B = self.newblock()
        C = self.newblock()
        E = self.newblock()
        self.goto(H)
        self.at(H)
        if c and "kind" in c:
            self.cond(c, B, E)
        else:
            self.goto(B)
        self.at(B)
        self.brk.append(E)
        self.cont.append(C)
        self.stmt(body)
        self.brk.pop()
        self.cont.pop()
        self.goto(C)
        self.at(C)
        if inc and "kind" in inc:
            self.expr(inc, want=False)
        self.goto(H)
        self.at(E)

    UNROLL = 8

    def counted(self, init, c, inc, body):
        """(variable, values) of a loop that runs a variable of its own over at most UNROLL literal values"""
        if not self.unroll or "kind" not in (init or {}) or "kind" not in (c or {}) or "kind" not in (inc or {}):
            return None

        def bare(e):
            while e.get("kind") in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "ConstantExpr"):
                e = e["inner"][0]
            return e

        def ref(e):
            e = bare(e)
            if e.get("kind") == "DeclRefExpr" and e["referencedDecl"]["kind"] == "VarDecl":
                return e["referencedDecl"]["id"]

        def const(e):
            e = bare(e)
            if e.get("kind") == "IntegerLiteral":
                return int(e["value"])
            if e.get("kind") == "UnaryOperator" and e["opcode"] == "-":
                v = const(e["inner"][0])
                return None if v is None else -v
            if e.get("kind") == "BinaryOperator" and e["opcode"] in ("/", "*", "+", "-"):
                a, b = const(e["inner"][0]), const(e["inner"][1])
                if a is not None and b is not None and not (e["opcode"] == "/" and b == 0):
                    return {"/": lambda: a // b, "*": lambda: a * b, "+": lambda: a + b, "-": lambda: a - b}[e["opcode"]]()
            if e.get("kind") == "UnaryExprOrTypeTraitExpr":
                v = fold(self.expr(e))
                return v[1] if v[0] == "int" and isinstance(v[1], int) else None

        if init["kind"] == "BinaryOperator" and init["opcode"] == "=":
            var, lo = ref(init["inner"][0]), const(init["inner"][1])
        elif init["kind"] == "DeclStmt" and len(init["inner"]) == 1 and init["inner"][0].get("init") and init["inner"][0]["kind"] == "VarDecl":
            var, lo = init["inner"][0]["id"], const(init["inner"][0]["inner"][-1])
        else:
            return None
        if var is None or lo is None or c["kind"] != "BinaryOperator" or ref(c["inner"][0]) != var:
            return None
        hi = const(c["inner"][1])
        rel = {"<": lambda a: a < hi, "<=": lambda a: a <= hi, ">": lambda a: a > hi, ">=": lambda a: a >= hi, "!=": lambda a: a != hi}.get(c["opcode"])
        if hi is None or rel is None:
            return None
        if inc["kind"] == "UnaryOperator" and inc["opcode"] in ("++", "--") and ref(inc["inner"][0]) == var:
            d = 1 if inc["opcode"] == "++" else -1
        elif inc["kind"] == "CompoundAssignOperator" and inc["opcode"] in ("+=", "-=") and ref(inc["inner"][0]) == var and const(inc["inner"][1]):
            d = const(inc["inner"][1]) * (1 if inc["opcode"] == "+=" else -1)
        else:
            return None
        vals = [lo]
        while rel(vals[-1]):
            if len(vals) > self.UNROLL:
                return None
            vals.append(vals[-1] + d)
        todo = [body]
        while todo:
            e = todo.pop()
            k = e.get("kind")
            if k in ("LabelStmt", "GotoStmt"):
                return None
            if k in ("BinaryOperator", "CompoundAssignOperator") and e["opcode"].endswith("=") and e["opcode"] not in ("==", "!=", "<=", ">=") and ref(e["inner"][0]) == var:
                return None
            if k == "UnaryOperator" and e["opcode"] in ("++", "--", "&") and ref(e["inner"][0]) == var:
                return None
            todo.extend(x for x in e.get("inner", []) if isinstance(x, dict))
        return var, vals

    def s_SwitchStmt(self, s):
        inner = s["inner"]
        e = self.expr(inner[-2])
        E = self.newblock()
        head = self.cur
        self.cur = None
        cases = []
        dflt = [E]
        self.brk.append(E)
        self.swstack = getattr(self, "swstack", [])
        self.swstack.append((cases, dflt))
        self.stmt(inner[-1])
        self.goto(E)
        self.swstack.pop()
        self.brk.pop()
        self.cur = head
        self.term(("sw", e, tuple(cases), dflt[0], line_of(s)))
        self.at(E)

    def s_CaseStmt(self, s):
        inner = s["inner"]
        b = self.newblock()
        if self.cur is not None:
            self.goto(b)
        self.at(b)
        lo = self.constval(inner[0])
        if len(inner) == 3:
            hi = self.constval(inner[1])
            for v in range(lo, hi + 1):
                self.swstack[-1][0].append((v, b))
        else:
            self.swstack[-1][0].append((lo, b))
        self.stmt(inner[-1])

    def s_DefaultStmt(self, s):
        b = self.newblock()
        if self.cur is not None:
            self.goto(b)
        self.at(b)
        self.swstack[-1][1][0] = b
        self.stmt(s["inner"][-1])

    def s_BreakStmt(self, s):
        self.goto(self.brk[-1])

    def s_ContinueStmt(self, s):
        self.goto(self.cont[-1])

    def label(self, i):
        if i not in self.labels:
            self.labels[i] = self.newblock()
        return self.labels[i]

    def s_GotoStmt(self, s):
        self.goto(self.label(s["targetLabelDeclId"]))

    def s_LabelStmt(self, s):
        b = self.label(s["declId"])
        if self.cur is not None:
            self.goto(b)
        self.at(b)
        for c in s.get("inner", []):
            self.stmt(c)

    def s_ReturnStmt(self, s):
        inner = s.get("inner", [])
        e = self.expr(inner[0]) if inner else None
        self.term(("ret", e, line_of(s)))

    # -- conditions
    def cond(self, e, T, F):
        k = e["kind"]
        if k in ("ParenExpr", "ImplicitCastExpr", "ConstantExpr"):
            return self.cond(e["inner"][0], T, F)
        if k == "UnaryOperator" and e["opcode"] == "!":
            return self.cond(e["inner"][0], F, T)
        if k == "BinaryOperator" and e["opcode"] == "&&":
            M = self.newblock()
            self.cond(e["inner"][0], M, F)
            self.at(M)
            return self.cond(e["inner"][1], T, F)
        if k == "BinaryOperator" and e["opcode"] == "||":
            M = self.newblock()
            self.cond(e["inner"][0], T, M)
            self.at(M)
            return self.cond(e["inner"][1], T, F)
        if k == "BinaryOperator" and e["opcode"] == ",":
            self.expr(e["inner"][0], want=False)
            return self.cond(e["inner"][1], T, F)
        v = self.expr(e)
        self.term(("br", v, T, F, line_of(e)))

    # -- expressions
    def constval(self, e):
        if "value" in e:
            try:
                return int(e["value"])
            except ValueError:
                pass
        v = fold(self.expr(e))
        if v[0] == "int":
            return v[1]
        return ("sym", repr(v))

    def expr(self, e, want=True):
        k = e["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            for c in e.get("inner", []):
                if "kind" in c and (c["kind"].endswith("Expr") or c["kind"].endswith("Operator")):
                    self.expr(c, want=False)
            return ("unk", k)
        return m(e, want)

    def e_ParenExpr(self, e, want):
        return self.expr(e["inner"][0], want)

    def e_ConstantExpr(self, e, want):
        return self.expr(e["inner"][0], want)

    def e_IntegerLiteral(self, e, want):
        return ("int", int(e["value"]))

    def e_CharacterLiteral(self, e, want):
        return ("int", int(e["value"]))

    def e_FloatingLiteral(self, e, want):
        return ("flt", e["value"])

    def e_StringLiteral(self, e, want):
        return ("str", e["value"])

    def e_PredefinedExpr(self, e, want):
        return ("str", "__func__")

    def e_ImplicitValueInitExpr(self, e, want):
        return ("int", 0)

    def e_GNUNullExpr(self, e, want):
        return ("int", 0)

    def e_DeclRefExpr(self, e, want):
        d = e["referencedDecl"]
        if d["kind"] == "FunctionDecl":
            return ("fun", d["name"])
        if d["kind"] == "EnumConstantDecl":
            v = self.tu.enums.get(d["id"])
            if v is not None:
                return ("int", v)
            return ("unk", "enum " + d["name"])
        if d["id"] in self.names:
            return ("var", self.names[d["id"]])
        g = "g:" + d["name"]
        self.tu.globals.setdefault(g, (d.get("type") or {}).get("qualType", ""))
        return ("var", g)

    def e_ImplicitCastExpr(self, e, want):
        ck = e.get("castKind")
        x = self.expr(e["inner"][0], want)
        if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return x
        if ck == "ArrayToPointerDecay":
            if x[0] == "str":
                return x
            return ("addr", ("idx", x, ("int", 0), ""))
        if ck == "NullToPointer":
            return ("int", 0)
        if ck == "ToVoid":
            return x
        return ("cast", qt(e), x)

    def e_CStyleCastExpr(self, e, want):
        ck = e.get("castKind")
        x = self.expr(e["inner"][0], want)
        if ck == "ToVoid":
            return x
        if ck == "NullToPointer":
            return ("int", 0)
        return ("cast", qt(e), x)

    def e_MemberExpr(self, e, want):
        b = self.expr(e["inner"][0])
        if e.get("isArrow"):
            b = deref(b, "")
        return ("fld", b, e["name"], qt(e))

    def e_ArraySubscriptExpr(self, e, want):
        a = self.expr(e["inner"][0])
        i = self.expr(e["inner"][1])
        return index(a, i, qt(e))

    def e_UnaryExprOrTypeTraitExpr(self, e, want):
        if "argType" in e:
            t = e["argType"]
        else:
            t = e["inner"][0]["type"]
        return ("sizeof", t.get("desugaredQualType", t["qualType"]))

    def e_OffsetOfExpr(self, e, want):
        return ("unk", "offsetof")

    def e_VAArgExpr(self, e, want):
        return ("unk", "va_arg")

    def e_StmtExpr(self, e, want):
        body = e["inner"][0]
        inner = body.get("inner", [])
        for c in inner[:-1]:
            self.stmt(c)
        if inner:
            last = inner[-1]
            if last["kind"].endswith("Stmt"):
                self.stmt(last)
                return ("int", 0)
            return self.expr(last, want)
        return ("int", 0)

    def e_CompoundLiteralExpr(self, e, want):
        inner = e.get("inner", [])
        if inner and inner[0].get("kind") == "InitListExpr" and "SOCKADDR_ARG" in qt(e):
            sub = inner[0].get("inner", [])
            if len(sub) == 1:              # transparent union: the pointer itself
                return self.expr(sub[0])
        return ("unk", "compound")

    def e_InitListExpr(self, e, want):
        for c in e.get("inner", []):
            self.expr(c, False)
        return ("unk", "initlist")

    def e_UnaryOperator(self, e, want):
        op = e["opcode"]
        sub = e["inner"][0]
        if op == "*":
            return deref(self.expr(sub), qt(e))
        if op == "&":
            return addr(self.expr(sub))
        if op in ("++", "--"):
            lv = self.expr(sub)
            d = ("int", 1)
            nv = ("bin", "+" if op == "++" else "-", lv, d) + ptrstep(sub)
            if e.get("isPostfix") and want:
                t = self.newvar(qt(e))
                self.emit(("asg", t, lv, line_of(e)))
                self.emit(("asg", lv, nv, line_of(e)))
                return t
            self.emit(("asg", lv, nv, line_of(e)))
            return lv
        if op == "!":
            if has_effect(sub):
                return self.boolval(e)
            return ("un", "!", self.expr(sub))
        if op in ("+", "__extension__"):
            return self.expr(sub, want)
        return ("un", op, self.expr(sub))

    def newvar(self, ty):
        v = "$t%d" % len(self.f.vars)
        self.f.vars[v] = ty
        return ("var", v)

    def boolval(self, e):
        t = self.newvar("int")
        T, F, E = self.newblock(), self.newblock(), self.newblock()
        self.cond(e, T, F)
        self.at(T)
        self.emit(("asg", t, ("int", 1), line_of(e)))
        self.goto(E)
        self.at(F)
        self.emit(("asg", t, ("int", 0), line_of(e)))
        self.goto(E)
        self.at(E)
        return t

    def e_BinaryOperator(self, e, want):
        op = e["opcode"]
        a, b = e["inner"]
        if op == "=":
            # evaluate the right side first when it is a call chain: order is unspecified in C,
            # the runtime never relies on it
            lv = self.expr(a)
            rv = self.expr(b)
            self.emit(("asg", lv, rv, line_of(e)))
            return lv
        if op == ",":
            self.expr(a, False)
            return self.expr(b, want)
        if op in ("&&", "||"):
            return self.boolval(e)
        x = self.expr(a)
        y = self.expr(b)
        if op in ("<", "<=", ">", ">=") and dqt(a).replace("const ", "").startswith("unsigned"):
            # unsigned comparison with zero: what the compiler makes of it
            o, l, r = op, x, y
            if fold(l) == ("int", 0):
                o, l, r = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op], y, x
            if fold(r) == ("int", 0):
                if o == "<":
                    return ("int", 0)
                if o == ">=":
                    return ("int", 1)
                return ("bin", "!=" if o == ">" else "==", l, r)
        if op in ("+", "-"):
            if ptrstep(b) and not ptrstep(a) and op == "+":
                return ("bin", op, y, x) + ptrstep(b)
            if ptrstep(a) and not ptrstep(b):
                return ("bin", op, x, y) + ptrstep(a)
        return ("bin", op, x, y)

    def e_CompoundAssignOperator(self, e, want):
        op = e["opcode"][:-1]
        lv = self.expr(e["inner"][0])
        rv = self.expr(e["inner"][1])
        self.emit(("asg", lv, ("bin", op, lv, rv) + (ptrstep(e["inner"][0]) if op in ("+", "-") else ()), line_of(e)))
        return lv

    def e_ConditionalOperator(self, e, want):
        c, a, b = e["inner"]
        t = self.newvar(qt(e))
        T, F, E = self.newblock(), self.newblock(), self.newblock()
        self.cond(c, T, F)
        self.at(T)
        x = self.expr(a, want)
        self.emit(("asg", t, x, line_of(a)))
        self.goto(E)
        self.at(F)
        y = self.expr(b, want)
        self.emit(("asg", t, y, line_of(b)))
        self.goto(E)
        self.at(E)
        return t

    def e_CallExpr(self, e, want):
        inner = e["inner"]
        f = self.expr(inner[0])
        while f[0] == "cast":
            f = f[2]
        if f[0] == "idx" and f[2] == ("int", 0):
            f = f[1]
        args = tuple(self.expr(x) for x in inner[1:])
        t = self.newtmp(qt(e))
        if f == ("fun", "__builtin_expect"):
            return args[0]
        self.emit(("call", t, f, args, line_of(e)))
        if f[0] == "fun" and f[1] in self.tu.noreturn:
            self.term(("stop",))
            self.cur = self.newblock()
        return t


def ptrstep(e):
    """(element type,) of a pointer-typed expression, or ()"""
    t = dqt(e).strip()
    q = qt(e).strip()
    for x in (q, t):
        if x.endswith("*"):
            return (x[:-1].strip(),)
    if t.endswith("*const"):
        return (t[:-6].strip(),)
    return ()


def has_effect(n):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        k = x.get("kind")
        if k in ("CallExpr", "CompoundAssignOperator", "ConditionalOperator"):
            return True
        if k == "BinaryOperator" and x["opcode"] in ("=", "&&", "||", ","):
            return True
        if k == "UnaryOperator" and x["opcode"] in ("++", "--"):
            return True
        st.extend(x.get("inner", []))
    return False


def deref(p, ty):
    return index(p, ("int", 0), ty)


def addr(lv):
    if lv[0] == "idx":
        if lv[2] == ("int", 0) and not (lv[1][0] == "var"):
            return lv[1]
    return ("addr", lv)


def index(p, i, ty):
    # normalise *(p + k), (&a[0])[i]
    if p[0] == "addr" and p[1][0] == "idx" and p[1][2] == ("int", 0) and p[1][3] == "":
        return ("idx", p[1][1], i, ty)      # decayed array
    if p[0] == "addr" and i == ("int", 0) and p[1][0] != "idx":
        return p[1]
    if p[0] == "bin" and p[1] == "+" and i == ("int", 0):
        return index(p[2], p[3], ty)
    return ("idx", p, i, ty)


def wrap64(n):
    return n


def fold(e, env=None):
    """Constant folding over IR expressions (pure, 64-bit two's complement left unwrapped)."""
    k = e[0]
    if k == "cast":
        x = fold(e[2], env)
        if x[0] == "int":
            return x
        return ("cast", e[1], x)
    if k == "bin":
        a = fold(e[2], env)
        b = fold(e[3], env)
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            try:
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                     "/": lambda: int(x / y) if abs(x) < 2**52 else x // y, "%": lambda: x - y * int(x / y),
                     "<<": lambda: x << y, ">>": lambda: x >> y, "&": lambda: x & y,
                     "|": lambda: x | y, "^": lambda: x ^ y, "==": lambda: int(x == y),
                     "!=": lambda: int(x != y), "<": lambda: int(x < y), ">": lambda: int(x > y),
                     "<=": lambda: int(x <= y), ">=": lambda: int(x >= y)}[e[1]]()
                return ("int", r)
            except (KeyError, ZeroDivisionError, ValueError):
                pass
        return ("bin", e[1], a, b) + tuple(e[4:])
    if k == "un":
        a = fold(e[2], env)
        if a[0] == "int":
            if e[1] == "-":
                return ("int", -a[1])
            if e[1] == "~":
                return ("int", ~a[1])
            if e[1] == "!":
                return ("int", int(not a[1]))
        return ("un", e[1], a)
    if k == "sizeof":
        s = sizeof(e[1])
        if s is not None:
            return ("int", s)
        return e
    return e


BASIC = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2,
         "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8,
         "unsigned long long": 8, "float": 4, "double": 8, "long double": 16, "void": 1, "_Bool": 1}
SIZES = {}


def sizeof(t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    if t in BASIC:
        return BASIC[t]
    if t.endswith("*") or "(*)" in t:
        return 8
    m = re.match(r"^(.*?)\s*\[(\d+)\]$", t)
    if m:
        s = sizeof(m.group(1))
        return None if s is None else s * int(m.group(2))
    return SIZES.get(t)


def initval(tu, e):
    """A global initialiser as nested Python data (lists and IR leaves)."""
    k = e.get("kind")
    if k == "InitListExpr":
        items = e.get("inner")
        if items is None:
            items = [x for x in e.get("array_filler", [])]
        items = [x for x in items if x.get("kind") != "ImplicitValueInitExpr"] if "array_filler" in e else items
        return [initval(tu, x) for x in items]
    if k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "ConstantExpr", "UnaryOperator",
             "BinaryOperator"):
        if k == "UnaryOperator" or k == "BinaryOperator":
            sub = [initval(tu, x) for x in e["inner"]]
            if k == "UnaryOperator":
                if e["opcode"] == "&":
                    return ("addr", sub[0])
                if not isinstance(sub[0], list):
                    return fold(("un", e["opcode"], sub[0]))
            elif not isinstance(sub[0], list) and not isinstance(sub[1], list):
                return fold(("bin", e["opcode"], sub[0], sub[1]))
            return ("unk", k)
        return initval(tu, e["inner"][0])
    if k == "IntegerLiteral" or k == "CharacterLiteral":
        return ("int", int(e["value"]))
    if k == "StringLiteral":
        return ("str", e["value"])
    if k == "DeclRefExpr":
        d = e["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            return ("int", tu.enums.get(d["id"], None))
        if d["kind"] == "FunctionDecl":
            return ("fun", d["name"])
        return ("var", "g:" + d["name"])
    if k == "UnaryExprOrTypeTraitExpr":
        t = e.get("argType") or e["inner"][0]["type"]
        return fold(("sizeof", t.get("desugaredQualType", t["qualType"])))
    if k == "ImplicitValueInitExpr":
        return ("int", 0)
    if k == "ArraySubscriptExpr" or k == "MemberExpr":
        return ("mem", [initval(tu, x) for x in e["inner"]], e.get("name"))
    return ("unk", k)


class TU:
    def __init__(self):
        self.path = None
        self.funcs = {}
        self.globals = {}      # "g:name" -> type
        self.gdefs = {}        # globals defined here -> (type, line, init ast)
        self.ginit = {}
        self.statics = {}
        self.enums = {}
        self.enumnames = {}
        self.records = {}
        self.protos = {}
        self.typedefs = {}
        self.unions = set()
        self.noreturn = set(NORETURN)


def parse_tu(cwd, args, root):
    """Run clang on one recorded compile command; returns a TU of IR functions."""
    src = [a for a in args if a.endswith(".c")][0]
    flags = [a for a in args if a.startswith(("-D", "-I", "-std", "-m", "-U"))]
    p = subprocess.run(["clang", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", *flags, src],
                       cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise RuntimeError("clang failed on %s: %s" % (src, p.stderr.decode()[:400]))
    ast = json.loads(p.stdout)
    annotate(ast)
    tu = TU()
    path = os.path.normpath(os.path.join(cwd, src))
    tu.path = os.path.relpath(path, root)

    def inroot(f):
        if not f:
            return False
        p = os.path.normpath(os.path.join(cwd, f))
        return p.startswith(root + os.sep)

    def rel(f):
        return os.path.relpath(os.path.normpath(os.path.join(cwd, f)), root)

    def enumdecl(d):
        nxt = 0
        for c in d.get("inner", []):
            if c["kind"] == "EnumConstantDecl":
                v = None
                for x in c.get("inner", []):
                    if x.get("kind") == "ConstantExpr" and "value" in x:
                        v = int(x["value"])
                    elif "inner" in x or x.get("kind") == "IntegerLiteral":
                        y = x
                        while y.get("kind") not in ("IntegerLiteral", "ConstantExpr") and y.get("inner"):
                            y = y["inner"][0]
                        if "value" in y:
                            v = int(y["value"])
                if v is None:
                    v = nxt
                tu.enums[c["id"]] = v
                tu.enumnames[c["name"]] = v
                nxt = v + 1

    def recorddecl(d):
        fl = []
        for c in d.get("inner", []):
            if c["kind"] == "FieldDecl":
                fl.append((c.get("name", ""), qt(c)))
            elif c["kind"] in ("RecordDecl",):
                recorddecl(c)
            elif c["kind"] == "EnumDecl":
                enumdecl(c)
        if fl and d.get("name"):
            tu.records[d["name"]] = fl
            if d.get("tagUsed") == "union":
                tu.unions.add(d["name"])
        d["_fields"] = fl

    lastrec = None
    pending = []
    for d in ast["inner"]:
        k = d["kind"]
        if k == "EnumDecl":
            enumdecl(d)
        elif k == "RecordDecl":
            recorddecl(d)
            lastrec = d
        elif k == "TypedefDecl":
            tu.typedefs[d["name"]] = dqt(d)
            if lastrec is not None and not lastrec.get("name") and lastrec.get("_fields"):
                tu.records.setdefault(d["name"], lastrec["_fields"])
                if lastrec.get("tagUsed") == "union":
                    tu.unions.add(d["name"])
        elif k == "FunctionDecl":
            tu.protos[d["name"]] = qt(d)
            if any(c.get("kind") in ("NoReturnAttr", "C11NoReturnAttr") for c in d.get("inner", [])) \
                    or "noreturn" in qt(d):
                tu.noreturn.add(d["name"])
            if any(c["kind"] == "CompoundStmt" for c in d.get("inner", [])) and \
                    inroot((d.get("loc") or {}).get("_f")):
                pending.append(d)
        elif k == "VarDecl":
            g = "g:" + d["name"]
            tu.globals[g] = qt(d)
            if d.get("storageClass") != "extern" and inroot((d.get("loc") or {}).get("_f")):
                init = [c for c in d.get("inner", []) if "kind" in c and not c["kind"].endswith(("Attr", "Comment"))]
                tu.gdefs[g] = (qt(d), line_of(d), rel((d.get("loc") or {}).get("_f")),
                               d.get("storageClass") == "static", bool(d.get("init")))
                if init and d.get("init"):
                    tu.ginit[g] = init[-1]
    for d in pending:
        lo = Lower(tu, d, tu.records, "c-libs/" in (rel((d.get("loc") or {}).get("_f")) or ""))
        lo.f.file = rel(lo.f.file)
        tu.funcs[lo.f.name] = lo.f
    tu.ginit = {g: initval(tu, e) for g, e in tu.ginit.items()}
    return tu
