"""Front end: clang's AST of the current sources in /repo -> small IR.

Every run re-reads /repo.  Nothing about the code is written by hand here; what
the extraction drops is listed in DROPS (and copied into the evidence).
"""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYSCAL_REPO", "/repo")
SRC = REPO + "/src/pyscal"
CLANG = "clang++-18"

DROPS = [
    "pybind11 types (Atom::custom) are parsed against a stub header and treated as opaque values",
    "output to cout/cerr is dropped",
    "double and float arithmetic is read as exact real arithmetic; int arithmetic as mathematical integers",
    "vector::reserve, delete[] and destructors have no effect on the verified state",
]


class Unsupported(Exception):
    pass


class N:
    __slots__ = ("op", "a", "ty", "line", "org")

    def __init__(self, op, *a, ty=None, line=None):
        self.op, self.a, self.ty, self.line, self.org = op, a, ty, line, None

    def __repr__(self):
        return "%s%r:%s" % (self.op, self.a, self.ty)


# ---------------------------------------------------------------- types
def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<":
            d += 1
        if ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur); cur = ""
        else:
            cur += ch
    out.append(cur)
    return [x.strip() for x in out]


INTS = {"int", "long", "unsigned long", "unsigned int", "unsigned", "size_t", "std::size_t", "size_type",
        "unsigned long long", "long long", "short", "char", "ptrdiff_t", "difference_type",
        "std::ptrdiff_t", "signed char", "unsigned char"}
REALS = {"double", "float", "long double"}


def ptype(s):
    s = s.strip()
    s = re.sub(r"\b(const|volatile|struct|class|typename)\b", "", s).strip()
    s = re.sub(r"\s+", " ", s)
    s = s.replace("std::", "")
    if s.endswith("&&"):
        return ptype(s[:-2])
    if s.endswith("&"):
        return ("ref", ptype(s[:-1]))
    m = re.match(r"^(.*?)((\[\d+\])+)$", s)
    if m:
        t = ptype(m.group(1))
        for d in reversed(re.findall(r"\d+", m.group(2))):
            t = ("arr", int(d), t)
        return t
    if s.endswith("*"):
        return ("ptr", ptype(s[:-1]))
    if s in INTS or s.endswith("::size_type") or s.endswith("::difference_type"):
        return "int"
    if s in REALS:
        return "real"
    if s == "bool":
        return "bool"
    if s == "void":
        return "void"
    m = re.match(r"^(?:_GLIBCXX_STD_C::)?vector<(.*)>$", s)
    if m:
        return ("vec", ptype(split_targs(m.group(1))[0]))
    m = re.match(r"^(?:__gnu_cxx::)?__normal_iterator<(.*)>$", s)
    if m:
        return ("iter",)
    m = re.match(r"^(?:complex)<(.*)>$", s)
    if m:
        return ("struct", "complex")
    if re.match(r"^[A-Za-z_][\w:]*$", s):
        return ("struct", s)
    return ("opaque", s)


def qty(node):
    t = node.get("type", {})
    d = t.get("desugaredQualType")
    q = t.get("qualType", "")
    if "(lambda" in q:
        return ("lambda",)
    r = ptype(q)
    if d and (r[0] == "opaque" or (r[0] == "struct")):
        r2 = ptype(d)
        if r2[0] != "opaque":
            r = r2
    return r


def deref(t):
    return t[1] if isinstance(t, tuple) and t[0] == "ref" else t


# ---------------------------------------------------------------- clang
def run_clang(src, flt, stub):
    cmd = [CLANG, "-std=c++17", "-fsyntax-only", "-w", "-I" + stub, "-I" + REPO + "/lib/voro++",
           "-I" + SRC, "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + flt, src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    txt = p.stdout
    dec = json.JSONDecoder()
    out, i, n = [], 0, len(txt)
    while i < n:
        while i < n and txt[i] != "{":
            i += 1
        if i >= n:
            break
        try:
            d, j = dec.raw_decode(txt, i)
        except ValueError:
            break
        out.append(d)
        i = j
    if p.returncode != 0:
        raise Unsupported("clang could not parse %s: %s" % (src, p.stderr[-400:]))
    return out


class Func:
    def __init__(s, cls, name, params, ret, body, file, line, ids):
        s.cls, s.name, s.params, s.ret, s.body, s.file, s.line, s.ids = cls, name, params, ret, body, file, line, ids

    @property
    def qname(s):
        return (s.cls + "::" if s.cls else "") + s.name

    @property
    def sig(s):
        return "%s(%s)" % (s.qname, ",".join(tstr(p[2]) for p in s.params))


def tstr(t):
    if isinstance(t, str):
        return t
    if t[0] == "ref":
        return tstr(t[1]) + "&"
    if t[0] == "vec":
        return "vec<%s>" % tstr(t[1])
    if t[0] == "struct":
        return t[1]
    if t[0] == "ptr":
        return tstr(t[1]) + "*"
    if t[0] == "arr":
        return "%s[%d]" % (tstr(t[2]), t[1])
    return str(t[0])


class Program:
    def __init__(self):
        self.funcs = {}       # qualified name -> [Func]
        self.byid = {}        # clang id -> Func (per translation unit, prefixed)
        self.structs = {"complex": [("re", "real"), ("im", "real")]}
        self.consts = {}
        self.stub = HERE + "/stub"
        self.errors = []
        self.parse_all()

    def parse_all(self):
        sysf, atf = SRC + "/system.cpp", SRC + "/atom.cpp"
        jobs = [("S", sysf, "System::"), ("A", atf, "Atom::"), ("S", sysf, "datom::"), ("S", sysf, "cell::members"), ("S", sysf, "cell::neighbor_cells"),
                ("S", sysf, "by_dist"), ("S", sysf, "MAXNUMBEROFNEIGHBORS"), ("S", sysf, "NILVALUE"),
                ("S", sysf, "PI")]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: run_clang(j[1], j[2], self.stub), jobs))
        for (tu, f, flt), docs in zip(jobs, res):
            cls = flt.split("::")[0] if "::" in flt else None
            for d in docs:
                self.add_decl(d, cls, tu, f)

    def add_decl(self, d, cls, tu, file):
        k = d.get("kind")
        if k == "FieldDecl":
            fs = self.structs.setdefault(cls, [])
            if d["name"] not in [x[0] for x in fs]:
                fs.append((d["name"], qty(d)))
        elif k in ("CXXMethodDecl", "CXXConstructorDecl", "FunctionDecl"):
            if k == "FunctionDecl":
                cls = None
            self.add_func(d, cls, tu, file)
        elif k == "CXXRecordDecl":
            for x in d.get("inner", []):
                if x.get("kind") in ("FieldDecl", "CXXMethodDecl", "CXXConstructorDecl"):
                    self.add_decl(x, d.get("name"), tu, file)
        elif k == "VarDecl":
            init = [x for x in d.get("inner", []) if "kind" in x]
            if init and d.get("name") in ("PI", "MAXNUMBEROFNEIGHBORS", "NILVALUE"):
                try:
                    self.consts[d["name"]] = Conv(self, tu).expr(init[0])
                except Unsupported:
                    pass

    def add_func(self, d, cls, tu, file):
        body = None
        params = []
        inits = []
        for x in d.get("inner", []):
            if x.get("kind") == "ParmVarDecl":
                params.append((x["id"], x.get("name", "_"), qty(x)))
            elif x.get("kind") == "CompoundStmt":
                body = x
            elif x.get("kind") == "CXXCtorInitializer":
                inits.append(x)
        ids = [d["id"]]
        if "previousDecl" in d:
            ids.append(d["previousDecl"])
        q = d["type"]["qualType"]
        ret = ptype(q[:q.index("(")]) if "(" in q else "void"
        name = d.get("name", "")
        line = d.get("loc", {}).get("line") or d.get("range", {}).get("begin", {}).get("line")
        f = Func(cls, name, params, ret, None, file, line, ids)
        f.has_inits = bool(inits)
        if body is not None:
            f.body = (body, tu)
        lst = self.funcs.setdefault(f.qname, [])
        for i in ids:
            old = self.byid.get((tu, i))
            if old is None or old.body is None:
                self.byid[(tu, i)] = f
        if body is not None:
            lst.append(f)
        else:
            f.declonly = True

    def find_free(self, name, tu, file):
        """free helper functions are fetched on demand"""
        key = "free:" + name
        if key not in self.consts:
            self.consts[key] = True
            src = SRC + ("/system.cpp" if tu == "S" else "/atom.cpp")
            for d in run_clang(src, name, self.stub):
                if d.get("kind") == "FunctionDecl" and d.get("name") == name:
                    self.add_decl(d, None, tu, src)
                elif d.get("kind") == "CXXMethodDecl" and d.get("name") == name:
                    pass
        return [f for f in self.funcs.get(name, []) if f.body is not None]

    def find_struct(self, name, tu):
        if name in self.structs:
            return self.structs[name]
        key = "struct:" + name
        if key in self.consts:
            return None
        self.consts[key] = True
        src = SRC + ("/system.cpp" if tu == "S" else "/atom.cpp")
        for d in run_clang(src, name + "::", self.stub):
            if d.get("kind") == "FieldDecl":
                self.add_decl(d, name, tu, src)
        return self.structs.get(name)

    def body(self, f):
        """IR of a function body"""
        if not hasattr(f, "_ir"):
            if f.body is None:
                raise Unsupported("no body for " + f.qname)
            if f.has_inits and f.cls in ("System", "Atom"):
                pass
            b, tu = f.body
            c = Conv(self, tu)
            f.tu = tu
            f._ir = c.stmt(b)
        return f._ir


BUILTIN_FUN = {"sqrt", "cbrt", "acos", "atan2", "cos", "sin", "exp", "log", "fabs", "abs", "pow", "min", "max",
               "floor", "ceil", "round", "isnan", "isfinite", "swap", "sort", "make_pair", "move", "fmax", "fmin",
               "accumulate", "fill", "lround", "to_string", "llround", "find", "count", "nan", "hypot", "atan", "tan",
               "distance", "iota", "reverse", "isinf"}


class Conv:
    def __init__(self, prog, tu):
        self.p, self.tu = prog, tu
        self.line = None

    def inner(self, n):
        return [x for x in n.get("inner", []) if x]

    def loc(self, n):
        l = n.get("range", {}).get("begin", {}).get("line") or n.get("loc", {}).get("line")
        if l:
            self.line = l
        return self.line

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        k = n.get("kind")
        ln = self.loc(n)
        if not k:
            return N("block", [], line=ln)
        if k == "CompoundStmt":
            return N("block", [self.stmt(x) for x in self.inner(n)], line=ln)
        if k == "DeclStmt":
            return N("decls", [self.vardecl(x) for x in self.inner(n)], line=ln)
        if k == "NullStmt":
            return N("block", [], line=ln)
        if k == "IfStmt":
            xs = self.inner(n)
            if n.get("hasInit") or n.get("hasVar"):
                raise Unsupported("if with init")
            c = self.expr(xs[0])
            t = self.stmt(xs[1])
            e = self.stmt(xs[2]) if len(xs) > 2 else None
            return N("if", c, t, e, line=ln)
        if k == "ForStmt":
            xs = n.get("inner", [])
            init, cv, cond, inc, body = xs
            return N("loop", self.stmt(init) if init else None, self.expr(cond) if cond else None,
                     self.expr(inc) if inc else None, self.stmt(body), "for", line=ln)
        if k == "WhileStmt":
            xs = self.inner(n)
            if len(xs) != 2:
                raise Unsupported("while with declaration")
            return N("loop", None, self.expr(xs[0]), None, self.stmt(xs[1]), "while", line=ln)
        if k == "DoStmt":
            xs = self.inner(n)
            return N("loop", None, self.expr(xs[1]), None, self.stmt(xs[0]), "do", line=ln)
        if k == "CXXForRangeStmt":
            return self.range_for(n, ln)
        if k == "ReturnStmt":
            xs = self.inner(n)
            return N("return", self.expr(xs[0]) if xs else None, line=ln)
        if k == "BreakStmt":
            return N("break", line=ln)
        if k == "ContinueStmt":
            return N("continue", line=ln)
        if k == "CXXTryStmt":
            raise Unsupported("try")
        if k == "SwitchStmt":
            return self.switch(n, ln)
        return N("expr", self.expr(n), line=ln)

    def switch(self, n, ln):
        xs = self.inner(n)
        c = self.expr(xs[0])
        body = xs[1]
        groups, cur = [], None

        def peel(x):
            vals = []
            while x.get("kind") in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "CaseStmt":
                    ii = self.inner(x)
                    vals.append(self.expr(ii[0])); x = ii[1]
                else:
                    vals.append(None); x = self.inner(x)[0]
            return vals, x
        for x in self.inner(body):
            if x.get("kind") in ("CaseStmt", "DefaultStmt"):
                vals, x = peel(x)
                cur = [vals, []]
                groups.append(cur)
            cur[1].append(x)
        res = None
        default = None
        chain = []
        for vals, sts in groups:
            if sts and sts[-1].get("kind") == "BreakStmt":
                body = [self.stmt(s) for s in sts[:-1]]
            elif sts and sts[-1].get("kind") in ("ReturnStmt", "CXXThrowExpr"):
                body = [self.stmt(s) for s in sts]
            elif sts is groups[-1][1]:
                body = [self.stmt(s) for s in sts]
            else:
                raise Unsupported("switch fallthrough")
            b = N("block", body, line=ln)
            if None in vals:
                default = b
            else:
                cond = None
                for v in vals:
                    e = N("bin", "==", c, v, ty="bool", line=ln)
                    cond = e if cond is None else N("bin", "||", cond, e, ty="bool", line=ln)
                chain.append((cond, b))
        res = default
        for cond, b in reversed(chain):
            res = N("if", cond, b, res, line=ln)
        return res or N("block", [], line=ln)

    def range_for(self, n, ln):
        # children: init?, range decl, begin decl, end decl, cond, inc, loop var decl, body
        xs = n.get("inner", [])
        rng = None
        for x in xs:
            if x and x.get("kind") == "DeclStmt":
                v = self.inner(x)[0]
                if v.get("name", "").startswith("__range"):
                    rng = self.expr(self.inner(v)[0])
        lv = self.inner(xs[-2])[0]
        body = self.stmt(xs[-1])
        return N("rangefor", rng, lv["id"], lv.get("name"), qty(lv), body, line=ln)

    def vardecl(self, x):
        if x.get("kind") != "VarDecl":
            raise Unsupported("declaration " + str(x.get("kind")))
        if x.get("storageClass") == "static":
            raise Unsupported("static local")
        t = qty(x)
        init = None
        xs = [y for y in self.inner(x) if "kind" in y and not y["kind"].endswith("Attr")]
        if xs:
            init = self.expr(xs[0])
            if init.op == "ctor" and not init.a[1]:
                init = N("ctor", init.a[0], [], ty=init.ty)
        return N("var", x["id"], x.get("name"), t, init, line=self.loc(x))

    # ------------------------------------------------------------ expressions
    def expr(self, n):
        k = n.get("kind")
        self.loc(n)
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression kind %s (line %s)" % (k, self.line))
        r = m(n)
        if r.line is None:
            r.line = self.line
        return r

    def one(self, n):
        return self.inner(n)[0]

    def e_ParenExpr(self, n):
        return self.expr(self.one(n))

    def e_ExprWithCleanups(self, n):
        return self.expr(self.one(n))

    e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_ParenExpr

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.expr(self.one(n))

    def e_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        e = self.expr(self.one(n))
        t = qty(n)
        return self.cast(e, t, ck)

    def cast(self, e, t, ck):
        t = deref(t)
        if ck in ("IntegralToFloating",):
            return N("cast", "real", e, ty="real")
        if ck in ("FloatingToIntegral",):
            return N("cast", "int", e, ty="int")
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return N("cast", "bool", e, ty="bool")
        if ck == "IntegralCast":
            if t in ("int", "bool") and deref(e.ty) in ("bool",):
                return N("cast", "int", e, ty="int")
            return e
        if ck == "ToVoid":
            return e
        if ck == "PointerToBoolean":
            raise Unsupported("pointer to bool")
        return e

    def e_CStyleCastExpr(self, n):
        e = self.expr(self.one(n))
        t = qty(n)
        if t == "void":
            return e
        if t in ("int", "real", "bool") and deref(e.ty) in ("int", "real", "bool"):
            return N("cast", t, e, ty=t)
        return self.cast(e, t, n.get("castKind"))

    e_CXXFunctionalCastExpr = e_CStyleCastExpr
    e_CXXStaticCastExpr = e_CStyleCastExpr

    def e_IntegerLiteral(self, n):
        return N("const", int(n["value"]), ty="int")

    def e_FloatingLiteral(self, n):
        return N("const", Fraction(float(n["value"])), ty="real")

    def e_CXXBoolLiteralExpr(self, n):
        return N("const", bool(n["value"]), ty="bool")

    def e_StringLiteral(self, n):
        return N("str", n.get("value"), ty=("opaque", "str"))

    def e_CXXThisExpr(self, n):
        return N("this", ty=("this",))

    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        t = qty(n)
        if d["kind"] in ("VarDecl", "ParmVarDecl"):
            if d.get("name") in self.p.consts and d["kind"] == "VarDecl" and not str(d.get("name")).startswith("free:"):
                c = self.p.consts[d["name"]]
                return c
            if d.get("name") in ("cout", "cerr", "endl"):
                return N("stream", ty=("opaque", "stream"))
            if d.get("name") in ("MAXNUMBEROFNEIGHBORS", "NILVALUE", "PI"):
                return N("gconst", d["name"], ty=deref(t))
            return N("local", d["id"], d.get("name"), ty=deref(t))
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return N("fref", d["id"], d.get("name"), ty=t)
        if d["kind"] == "BindingDecl":
            raise Unsupported("structured binding")
        raise Unsupported("reference to " + d["kind"])

    def e_MemberExpr(self, n):
        base = self.expr(self.one(n))
        name = n.get("name", "")
        if n.get("isArrow") and base.op != "this":
            base = N("deref", base, ty=base.ty[1] if isinstance(base.ty, tuple) and base.ty[0] == "ptr" else base.ty)
        return N("fld", base, name, n.get("referencedMemberDecl"), ty=deref(qty(n)))

    def e_ArraySubscriptExpr(self, n):
        a, b = self.inner(n)
        ea, eb = self.expr(a), self.expr(b)
        return N("idx", ea, eb, ty=deref(qty(n)))

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        e = self.expr(self.one(n))
        t = deref(qty(n))
        if op == "++" or op == "--":
            return N("incdec", op, bool(n.get("isPostfix")), e, ty=e.ty)
        if op == "-":
            if e.op == "const":
                return N("const", -e.a[0], ty=e.ty)
            return N("un", "-", e, ty=t)
        if op == "+":
            return e
        if op == "!":
            return N("un", "!", e, ty="bool")
        if op == "&":
            return N("addr", e, ty=("ptr", e.ty))
        if op == "*":
            return N("deref", e, ty=t)
        raise Unsupported("unary " + op)

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = self.inner(n)
        ea, eb = self.expr(a), self.expr(b)
        t = deref(qty(n))
        if op == "=":
            return N("assign", ea, eb, ty=t)
        if op == ",":
            return N("comma", ea, eb, ty=t)
        return N("bin", op, ea, eb, ty=t)

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = self.inner(n)
        ea, eb = self.expr(a), self.expr(b)
        ct = ptype(n.get("computeResultType", {}).get("qualType", "int"))
        return N("opassign", op, ea, eb, ct, ty=deref(qty(n)))

    def e_ConditionalOperator(self, n):
        c, a, b = self.inner(n)
        return N("cond", self.expr(c), self.expr(a), self.expr(b), ty=deref(qty(n)))

    def e_CXXDefaultArgExpr(self, n):
        return N("defarg", ty=deref(qty(n)))

    def e_CXXThrowExpr(self, n):
        xs = self.inner(n)
        nm = "exception"
        if xs:
            t = xs[0].get("type", {}).get("qualType", "")
            nm = t.split("::")[-1].strip()
        return N("throw", nm, ty="void")

    def e_InitListExpr(self, n):
        return N("initlist", [self.expr(x) for x in self.inner(n)], ty=deref(qty(n)))

    def e_CXXConstructExpr(self, n):
        t = deref(qty(n))
        args = [self.expr(x) for x in self.inner(n)]
        args = [a for a in args if a.op != "defarg"]
        if len(args) == 1 and args[0].op != "initlist" and deref(args[0].ty) == t:
            return N("copy", args[0], ty=t)
        return N("ctor", t, args, ty=t)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXStdInitializerListExpr(self, n):
        return self.expr(self.one(n))

    def e_CXXNewExpr(self, n):
        t = qty(n)
        xs = self.inner(n)
        if not n.get("isArray"):
            raise Unsupported("new of a single object")
        return N("new", t[1], self.expr(xs[0]), ty=t)

    def e_CXXDeleteExpr(self, n):
        return N("delete", self.expr(self.one(n)), ty="void")

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported("default init")

    def e_ImplicitValueInitExpr(self, n):
        return N("zero", ty=deref(qty(n)))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXNullPtrLiteralExpr(self, n):
        return N("null", ty=("ptr", "void"))

    def e_UnaryExprOrTypeTraitExpr(self, n):
        raise Unsupported("sizeof")

    def e_CXXOperatorCallExpr(self, n):
        xs = self.inner(n)
        cal = xs[0]
        while cal.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            cal = self.one(cal)
        opn = cal.get("referencedDecl", {}).get("name", "")
        t = deref(qty(n))
        if opn == "operator<<":
            return N("stream", ty=("opaque", "stream"))
        args = [self.expr(x) for x in xs[1:]]
        if opn == "operator[]":
            return N("idx", args[0], args[1], ty=t)
        if opn == "operator=":
            return N("assign", args[0], args[1], ty=t)
        if opn == "operator()":
            d = cal["referencedDecl"]
            if isinstance(args[0].ty, tuple) and args[0].ty[0] == "lambda":
                return N("lcall", args[0], args[1:], ty=t)
            f = self.p.byid.get((self.tu, d["id"]))
            if f is not None:
                return N("call", f, args[0], args[1:], ty=t)
            raise Unsupported("operator()")
        if opn in ("operator+", "operator-") and args and isinstance(args[0].ty, tuple) and args[0].ty[0] == "iter":
            return N("iterop", opn[-1], args[0], args[1] if len(args) > 1 else None, ty=t)
        raise Unsupported(opn)

    def e_CXXMemberCallExpr(self, n):
        xs = self.inner(n)
        me = xs[0]
        while me.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            me = self.one(me)
        base = self.expr(self.one(me))
        if me.get("isArrow") and base.op != "this":
            base = N("deref", base, ty=base.ty[1] if isinstance(base.ty, tuple) and base.ty[0] == "ptr" else base.ty)
        name = me.get("name")
        args = [self.expr(x) for x in xs[1:]]
        args = [a for a in args if a.op != "defarg"]
        t = qty(n)
        f = self.p.byid.get((self.tu, me.get("referencedMemberDecl")))
        bt = deref(base.ty)
        if f is None and isinstance(bt, tuple) and bt[0] == "struct" and bt[1] == "Atom":
            cands = [g for g in self.p.funcs.get("Atom::" + name, []) if len(g.params) == len(args)]
            if len(cands) == 1:
                f = cands[0]
            elif len(cands) > 1:
                raise Unsupported("overloaded Atom::" + name)
        if f is not None:
            if f.body is None:
                cands = [g for g in self.p.funcs.get(f.qname, []) if [tstr(p[2]) for p in g.params] == [tstr(p[2]) for p in f.params]]
                if cands:
                    f = cands[0]
            return N("call", f, base, args, ty=t)
        return N("method", name, base, args, ty=deref(t))

    def e_CallExpr(self, n):
        xs = self.inner(n)
        cal = xs[0]
        while cal.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            cal = self.one(cal)
        d = cal.get("referencedDecl")
        if d is None:
            raise Unsupported("indirect call")
        name = d["name"]
        args = [self.expr(x) for x in xs[1:]]
        args = [a for a in args if a.op != "defarg"]
        t = deref(qty(n))
        f = self.p.byid.get((self.tu, d["id"]))
        if f is None:
            q = d.get("type", {}).get("qualType", "")
            if name not in BUILTIN_FUN or True:
                free = []
                if name not in BUILTIN_FUN:
                    free = self.p.find_free(name, self.tu, None)
                free = [g for g in free if len(g.params) == len(args)]
                if len(free) == 1:
                    f = free[0]
        if f is not None:
            if f.body is None:
                cands = [g for g in self.p.funcs.get(f.qname, [])
                         if [tstr(p[2]) for p in g.params] == [tstr(p[2]) for p in f.params]]
                if cands:
                    f = cands[0]
            return N("call", f, None, args, ty=t)
        if name in BUILTIN_FUN:
            return N("builtin", name, args, ty=t)
        raise Unsupported("call of " + name)

    def e_LambdaExpr(self, n):
        rec = self.inner(n)[0]
        body = [x for x in self.inner(n) if x.get("kind") == "CompoundStmt"]
        op = None
        for x in self.inner(rec):
            if x.get("kind") == "CXXMethodDecl" and x.get("name") == "operator()":
                op = x
        params = [(x["id"], x.get("name"), qty(x)) for x in self.inner(op) if x.get("kind") == "ParmVarDecl"]
        q = op["type"]["qualType"]
        ret = ptype(q[:q.index("(")])
        f = Func(None, "lambda", params, ret, (body[-1], self.tu), None, self.line, [])
        f.has_inits = False
        f.is_lambda = True
        return N("lambda", f, ty=("lambda",))


if __name__ == "__main__":
    import time
    t = time.time()
    p = Program()
    print(time.time() - t, len(p.funcs), p.consts.keys(), {k: len(v) for k, v in p.structs.items()})
    bad = 0
    for q, fs in list(p.funcs.items()):
        for f in fs:
            try:
                p.body(f)
            except Unsupported as e:
                bad += 1
                print(f.sig, "UNSUPPORTED", e)
    print(time.time() - t, bad)
