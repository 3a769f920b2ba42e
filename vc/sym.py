"""Symbolic executor and verification condition generator over the IR of front.py.

State: a map from access paths such as ('this','atoms','[]','neighbors','[]') to z3
terms (one curried array per leaf path; '#len' leaves hold vector lengths).
Functions with a contract are replaced by it at call sites; functions without one are
inlined.  Loops are cut by invariants: those the contract gives (obligations), and
candidates derived from the loop body or proposed by the contract, which are kept only
when proved inductive (Houdini), so nothing proposed is ever assumed unproved.
"""
import itertools, time
from fractions import Fraction
import z3
from front import N, Unsupported, deref, tstr

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
OPQ = z3.DeclareSort("Opaque")
UNROLL = 5
DEBUG = bool(__import__('os').environ.get('VCDEBUG'))


def leafsort(t):
    if t == "int":
        return I
    if t == "real":
        return R
    if t == "bool":
        return B
    return OPQ


_fun = {}


def UF(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _fun:
        _fun[k] = z3.Function(name, *sorts)
    return _fun[k]


def rv(fr):
    fr = Fraction(fr)
    return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def to_real(t):
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    if z3.is_bool(t):
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return t


def to_int(t):
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_real(t):
        return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
    return t


def to_bool(t):
    if z3.is_bool(t):
        return t
    return t != 0


def conv(t, ty):
    if ty == "real":
        return to_real(t)
    if ty == "int":
        return to_int(t)
    if ty == "bool":
        return to_bool(t)
    return t


def isconst_true(f):
    return z3.is_true(f)


_consts_cache = {}


def consts_of(t):
    """names of uninterpreted constants in a term"""
    k = t.get_id()
    c = _consts_cache.get(k)
    if c is not None and c[0].eq(t):
        return c[1]
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                stack.extend(x.children())
    _consts_cache[k] = (t, frozenset(out))
    return _consts_cache[k][1]


def sel(a, *idx):
    for i in idx:
        a = z3.Select(a, i)
    return a


def sto(a, idx, v):
    if not idx:
        return v
    if len(idx) == 1:
        return z3.Store(a, idx[0], v)
    return z3.Store(a, idx[0], sto(z3.Select(a, idx[0]), idx[1:], v))


def bigger(t, n):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > n:
            return True
        st.extend(x.children())
    return False


def okpat(p):
    st = list(p) if isinstance(p, (list, tuple)) else (p.children() if isinstance(p, z3.PatternRef) else [p])
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_XOR, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return False
        st.extend(x.children())
    return True


def FA(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats:
        pats = [p for p in pats if okpat(p)]
    if pats:
        ps = [p if isinstance(p, z3.PatternRef) else (z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p) for p in pats]
        return z3.ForAll(vs, body, patterns=ps)
    return z3.ForAll(vs, body)


class LV:
    __slots__ = ("path", "idx", "ty")

    def __init__(self, path, idx, ty):
        self.path, self.idx, self.ty = tuple(path), tuple(idx), ty

    def fld(self, name, ty):
        return LV(self.path + (name,), self.idx, ty)

    def at(self, i, ty):
        return LV(self.path + ("[]",), self.idx + (i,), ty)

    def __repr__(self):
        return "LV(%s,%s,%s)" % (self.path, self.idx, self.ty)


GHOSTS = {}      # path-suffix -> handler(ex, st, lv, value); set by the specs
GHOST_FIELDS = {  # struct -> extra ghost leaves
    "Atom": [("$npos", ("arr", None, "int")), ("$tpos", ("arr", None, "int"))],
    "System": [("$root", ("arr", None, "int")), ("$mcell", ("arr", None, "int")), ("$mslot", ("arr", None, "int")), ("$nslot", ("arr", None, ("arr", None, "int")))],
}


class State:
    __slots__ = ("vals", "pc", "env")

    def __init__(self, vals=None, pc=None, env=None):
        self.vals = vals or {}
        self.pc = pc or []
        self.env = env or {}

    def fork(self):
        return State(dict(self.vals), list(self.pc), dict(self.env))

    def assume(self, f):
        if not z3.is_true(f):
            self.pc.append(f)


class Frame:
    _n = itertools.count(1)

    def __init__(self, func, this):
        self.func, self.this, self.id = func, this, next(Frame._n)


class Obl:
    __slots__ = ("name", "func", "pc", "goal", "line", "kind", "props", "extra")

    def __init__(self, name, func, pc, goal, line, kind, props=None):
        self.name, self.func, self.pc, self.goal, self.line, self.kind, self.props = name, func, pc, goal, line, kind, props


class View:
    """what contracts see of a state"""

    def __init__(self, ex, st, this):
        self.ex, self.st, self.this = ex, st, this

    def raw(self, path):
        """array/scalar term of a path below this, e.g. 'atoms[].posx'"""
        p = self.this.path + parse_path(path)
        return sel(self.ex.get(self.st, p), *self.this.idx)

    def __call__(self, path, *idx):
        return sel(self.raw(path), *idx)


def parse_path(s):
    out = []
    for part in s.split("."):
        while part.endswith("[]"):
            part = part[:-2]
            out.append(None)
        # part name first then brackets
        n = 0
        while out and out[-1] is None:
            out.pop(); n += 1
        if part:
            out.append(part)
        out.extend(["[]"] * n)
    return tuple(out)


class CallCtx:
    """argument of contract clauses"""

    def __init__(self, ex, old, new, this, args, res, frame=None):
        self.ex = ex
        self.old = View(ex, old, this)
        self.new = View(ex, new, this)
        self.s = self.new
        self.this = this
        self.args = args          # entry values (scalars) or LVs
        self.res = res
        self.stnew, self.stold = new, old

    def p(self, k):
        return self.args[k]

    def pvec(self, k, st=None):
        """(len, arr) of vector argument k at entry"""
        lv = self.args[k]
        return self.lvvec(lv, st or self.stold)

    def lvvec(self, lv, st):
        ex = self.ex
        ln = sel(ex.get(st, lv.path + ("#len",)), *lv.idx)
        return ln, lambda *i: ex.vecread(st, lv, i)

    def out(self, k):
        """value of reference argument k in the new state"""
        return self.ex.read(self.stnew, self.args[k])

    def rlen(self):
        return self.ex.veclen(self.stnew, self.res)

    def r(self, *i, field=None):
        return self.ex.vecread(self.stnew, self.res, i, field)


class LoopCtx(CallCtx):
    """adds loop information: i = counter, entry = state at loop entry"""
    pass


class Executor:
    def __init__(self, prog, contracts, solver):
        self.prog, self.contracts, self.solver = prog, contracts, solver
        self.init = {}
        self.fresh_n = itertools.count()
        self.obls = []
        self.axioms = []
        self.dry = 0
        self.log = None
        self.cur = None
        self.thr = []
        self.depth = 0
        self.notes = set()
        self.inlined = set()
        self.used = set()
        self.houdini_stats = [0, 0]
        self.roots = {}
        self.stack = []
        self.loopkeys = {}
        self.keystack = [""]
        self.loopstack = []
        self._co = {}
        self.con = None
        self.S0 = self.this0 = self.args0 = None
        self.recs = set()
        self.labels = {}
        self.keep = []
        self.fast = False
        self.last_base = 0

    # ------------------------------------------------------------ paths/leaves
    def fields(self, sname):
        fs = self.prog.structs.get(sname)
        if fs is None:
            fs = self.prog.find_struct(sname, "S")
        if fs is None:
            raise Unsupported("struct " + str(sname))
        return fs + GHOST_FIELDS.get(sname, [])

    def ftype(self, sname, f):
        for n, t in self.fields(sname):
            if n == f:
                return t
        raise Unsupported("field %s.%s" % (sname, f))

    def leaves(self, ty):
        ty = deref(ty)
        if isinstance(ty, str):
            return [((), ty)]
        k = ty[0]
        if k == "struct":
            if ty[1] not in self.prog.structs and self.prog.find_struct(ty[1], "S") is None:
                return [((), ("opaque", ty[1]))]
            out = []
            for n, t in self.fields(ty[1]):
                for s, l in self.leaves(t):
                    out.append(((n,) + s, l))
            return out
        if k in ("vec", "ptr"):
            out = [(("#len",), "int")]
            for s, l in self.leaves(ty[1]):
                out.append((("[]",) + s, l))
            return out
        if k == "arr":
            return [(("[]",) + s, l) for s, l in self.leaves(ty[2])]
        return [((), ty)]

    def pathsort(self, path, leaf):
        s = leafsort(leaf)
        for _ in range(path.count("[]")):
            s = z3.ArraySort(I, s)
        return s

    def leaf_of(self, path):
        """leaf type of a full path rooted at 'this' or at a registered local"""
        if path[-1] == "#len":
            return "int"
        t = self.roots[path[0]]
        for p in path[1:]:
            t = deref(t)
            if p == "[]":
                t = t[2] if t[0] == "arr" else t[1]
            elif p == "#len":
                t = "int"
            else:
                t = self.ftype(t[1], p)
        t = deref(t)
        return t

    def fresh(self, name, sort):
        c = z3.Const("%s!%d" % (name, next(self.fresh_n)), sort)
        return c

    def pname(self, path):
        return ".".join(path).replace(".[]", "[]")

    def get(self, st, path):
        v = st.vals.get(path)
        if v is not None:
            return v
        v = self.init.get(path)
        if v is None:
            leaf = self.leaf_of(path)
            if not isinstance(leaf, str) and leaf[0] not in ("opaque", "struct", "lambda", "iter"):
                raise Unsupported("not a leaf: %s" % (path,))
            v = z3.Const(self.pname(path), self.pathsort(path, leaf))
            self.init[path] = v
            if path[-1] == "#len":
                self.axioms.append(self.nonneg(v))
        return v

    def nonneg(self, v):
        d, s, vs, t = 0, v.sort(), [], v
        while s.kind() == z3.Z3_ARRAY_SORT:
            x = z3.Int("ln%d" % d)
            vs.append(x)
            t = z3.Select(t, x)
            s = s.range()
            d += 1
        if not vs:
            return t >= 0
        return FA(vs, t >= 0, [t])

    # ------------------------------------------------------------ read/write
    def read(self, st, lv):
        ty = deref(lv.ty)
        if isinstance(ty, str) or ty[0] in ("opaque",) or (ty[0] == "struct" and self.isopaque(ty)):
            return sel(self.get(st, lv.path), *lv.idx)
        return lv

    def isopaque(self, ty):
        return ty[1] not in self.prog.structs and self.prog.find_struct(ty[1], "S") is None

    def rawwrite(self, st, path, idx, val):
        if self.log is not None:
            self.log.append((path, idx))
        if not idx:
            st.vals[path] = val
        else:
            st.vals[path] = sto(self.get(st, path), list(idx), val)

    def write(self, st, lv, val):
        self.rawwrite(st, lv.path, lv.idx, val)
        for suf, h in GHOSTS.items():
            if lv.path[-len(suf):] == suf:
                h(self, st, lv, val)

    def copy(self, st, dst, src):
        """dst := src for any type; src an LV or scalar term or initlist"""
        ty = deref(dst.ty)
        if isinstance(src, list):
            return self.init_from_list(st, dst, src)
        if not isinstance(src, LV):
            self.write(st, dst, conv(src, ty) if isinstance(ty, str) else src)
            return
        vals = []
        for suf, leaf in self.leaves(ty):
            vals.append((suf, sel(self.get(st, src.path + suf), *src.idx)))
        for suf, v in vals:
            self.rawwrite(st, dst.path + suf, dst.idx, v)
            if suf == () and isinstance(ty, str):
                for s2, h in GHOSTS.items():
                    if dst.path[-len(s2):] == s2:
                        h(self, st, dst, v)
        self.copy_ghost(st, dst, ty)

    def copy_ghost(self, st, dst, ty):
        """writing a struct that holds a ghost-tracked leaf"""
        if isinstance(ty, tuple) and ty[0] == "struct":
            for suf, leaf in self.leaves(ty):
                full = dst.path + suf
                for s2, h in GHOSTS.items():
                    if full[-len(s2):] == s2 and "[]" not in suf:
                        l2 = LV(full, dst.idx, leaf)
                        h(self, st, l2, self.read(st, l2))

    def init_from_list(self, st, dst, items):
        ty = deref(dst.ty)
        if isinstance(ty, tuple) and ty[0] == "struct":
            fs = self.prog.structs[ty[1]]
            for k, (n, t) in enumerate(fs):
                sub = dst.fld(n, t)
                if k < len(items):
                    self.copy(st, sub, items[k])
                else:
                    self.zero(st, sub)
            self.copy_ghost(st, dst, ty)
            return
        if isinstance(ty, tuple) and ty[0] == "vec":
            self.write(st, LV(dst.path + ("#len",), dst.idx, "int"), z3.IntVal(len(items)))
            for k, it in enumerate(items):
                self.copy(st, dst.at(z3.IntVal(k), ty[1]), it)
            return
        if isinstance(ty, tuple) and ty[0] == "arr":
            for k in range(ty[1]):
                if k < len(items):
                    self.copy(st, dst.at(z3.IntVal(k), ty[2]), items[k])
                else:
                    self.zero(st, dst.at(z3.IntVal(k), ty[2]))
            return
        if len(items) == 1:
            return self.copy(st, dst, items[0])
        if not items:
            return self.zero(st, dst)
        raise Unsupported("initialiser")

    def zero(self, st, lv):
        """value-initialise"""
        for suf, leaf in self.leaves(lv.ty):
            path = lv.path + suf
            s = self.pathsort(path, leaf)
            for _ in lv.idx:
                s = s.range()
            self.rawwrite(st, path, lv.idx, self.zeroval(s))

    def zeroval(self, s):
        if s.kind() == z3.Z3_ARRAY_SORT:
            return z3.K(I, self.zeroval(s.range()))
        if s == I:
            return z3.IntVal(0)
        if s == R:
            return z3.RealVal(0)
        if s == B:
            return z3.BoolVal(False)
        return z3.Const("zero_opaque", s)

    def veclen(self, st, lv):
        return sel(self.get(st, lv.path + ("#len",)), *lv.idx)

    def vecread(self, st, lv, idx, field=None):
        path, ix, ty = lv.path, list(lv.idx), deref(lv.ty)
        for i in idx:
            path = path + ("[]",)
            ix.append(i)
            ty = ty[2] if ty[0] == "arr" else ty[1]
        if field:
            for f in field.split("."):
                path = path + (f,)
        return sel(self.get(st, path), *ix)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, line, kind="safety", props=None, label=None):
        if self.dry:
            return
        goal_s = z3.simplify(goal)
        if z3.is_true(goal_s):
            self.obls.append(Obl(name, self.cur, None, None, line, kind, props))
            return
        o = Obl(name, self.cur, list(st.pc), goal, line, kind, props)
        o.extra = label
        self.obls.append(o)

    # ------------------------------------------------------------ locals
    def newlocal(self, st, fr, did, name, ty):
        root = "%s.%s" % (name, self.fresh_name())
        self.roots[root] = ty
        lv = LV((root,), (), ty)
        st.env[(fr.id, did)] = lv
        return lv

    def fresh_name(self):
        return "l%d" % next(self.fresh_n)

    def temp(self, ty, name="tmp"):
        root = "%s.%s" % (name, self.fresh_name())
        self.roots[root] = ty
        return LV((root,), (), ty)

    # ------------------------------------------------------------ expressions
    def rval(self, st, n, fr):
        v = self.ev(st, n, fr)
        if isinstance(v, LV):
            v = self.read(st, v)
        return v

    def scal(self, st, n, fr):
        v = self.rval(st, n, fr)
        if isinstance(v, LV) or isinstance(v, (list, tuple)):
            raise Unsupported("scalar expected (line %s)" % n.line)
        return v

    def ev(self, st, n, fr):
        m = getattr(self, "x_" + n.op, None)
        if m is None:
            raise Unsupported("ir %s (line %s)" % (n.op, n.line))
        return m(st, n, fr)

    def x_const(self, st, n, fr):
        v = n.a[0]
        if n.ty == "real":
            return rv(v)
        if n.ty == "bool" or isinstance(v, bool):
            return z3.BoolVal(bool(v))
        return z3.IntVal(v)

    def x_gconst(self, st, n, fr):
        c = self.prog.consts.get(n.a[0])
        if c is None:
            raise Unsupported("constant " + n.a[0])
        return self.x_const(st, c, fr)

    def x_str(self, st, n, fr):
        return z3.Const("str_" + str(n.a[0]), OPQ)

    def x_stream(self, st, n, fr):
        return z3.Const("stream", OPQ)

    def x_this(self, st, n, fr):
        return fr.this

    def x_local(self, st, n, fr):
        f = fr
        while f is not None:
            lv = st.env.get((f.id, n.a[0]))
            if lv is not None:
                return lv
            f = getattr(f, "parent", None)
        raise Unsupported("unbound local " + str(n.a[1]))

    def x_fld(self, st, n, fr):
        b = self.ev(st, n.a[0], fr)
        if not isinstance(b, LV):
            raise Unsupported("member of non-lvalue (line %s)" % n.line)
        bt = deref(b.ty)
        if isinstance(bt, tuple) and bt[0] == "struct":
            return b.fld(n.a[1], self.ftype(bt[1], n.a[1]))
        raise Unsupported("member access on " + str(bt))

    def x_deref(self, st, n, fr):
        v = self.ev(st, n.a[0], fr)
        if isinstance(v, tuple) and v and v[0] == "ptrto":
            return v[1]
        if isinstance(v, tuple) and v and v[0] == "iter":
            return v[1].at(v[2], deref(v[1].ty)[1])
        if isinstance(v, LV):
            p = st.env.get(("ptr", v.path))
            if p is not None:
                return p
        raise Unsupported("pointer dereference")

    def x_addr(self, st, n, fr):
        return ("ptrto", self.ev(st, n.a[0], fr))

    def x_idx(self, st, n, fr):
        b = self.ev(st, n.a[0], fr)
        i = self.scal(st, n.a[1], fr)
        i = to_int(i)
        if not isinstance(b, LV):
            raise Unsupported("index of non-lvalue")
        bt = deref(b.ty)
        nm = b.path[-1] if b.path[-1] != "[]" else b.path[-2] + "[]"
        if bt[0] == "arr":
            if bt[1] is not None:
                self.oblige(st, z3.And(i >= 0, i < bt[1]), "index of %s in bounds" % nm.split(".")[0], n.line)
            return b.at(i, bt[2])
        if bt[0] in ("vec", "ptr"):
            self.oblige(st, z3.And(i >= 0, i < self.veclen(st, b)), "index of %s in bounds" % nm.split(".")[0], n.line)
            return b.at(i, bt[1])
        raise Unsupported("index into " + str(bt))

    def x_cast(self, st, n, fr):
        v = self.scal(st, n.a[1], fr)
        if n.a[0] == "uns":
            self.oblige(st, v >= 0, "value converted to unsigned is not negative", n.line)
            return v
        return conv(v, n.a[0])

    def x_un(self, st, n, fr):
        v = self.scal(st, n.a[1], fr)
        if n.a[0] == "!":
            return z3.Not(to_bool(v))
        if z3.is_bool(v):
            v = to_int(v)
        return -v

    def guarded(self, st, n, fr, g):
        """evaluate n in st under guard g, folding facts back"""
        s2 = st.fork()
        k = len(s2.pc)
        s2.assume(g)
        v = self.scal(s2, n, fr)
        k2 = k + (0 if z3.is_true(g) else 1)
        for f in s2.pc[k2:]:
            st.assume(z3.Implies(g, f))
        for p in set(s2.vals) | set(st.vals):
            a, b = s2.vals.get(p), st.vals.get(p)
            if a is None:
                continue
            if b is None:
                if p[0] in self.roots and p[0] != "this" and p not in st.vals and not self.preexisting(st, p):
                    st.vals[p] = a
                    continue
                b = self.get(st, p)
            if not a.eq(b):
                st.vals[p] = z3.If(g, a, b)
        for k, v2 in s2.env.items():
            st.env.setdefault(k, v2)
        return v

    def preexisting(self, st, p):
        return p in self.init

    def x_bin(self, st, n, fr):
        op = n.a[0]
        if op in ("&&", "||"):
            a = to_bool(self.scal(st, n.a[1], fr))
            g = a if op == "&&" else z3.Not(a)
            g = z3.simplify(g) if False else g
            b = to_bool(self.guarded(st, n.a[2], fr, g))
            return z3.And(a, b) if op == "&&" else z3.Or(a, b)
        a = self.rval(st, n.a[1], fr)
        b = self.rval(st, n.a[2], fr)
        return self.binop(st, op, a, b, n.ty, n.line)

    def binop(self, st, op, a, b, ty, line):
        if isinstance(a, (LV, list, tuple)) or isinstance(b, (LV, list, tuple)):
            raise Unsupported("operator %s on aggregates" % op)
        if op in ("==", "!=") and z3.is_bool(a) and z3.is_bool(b):
            r = a == b
            return r if op == "==" else z3.Not(r)
        if z3.is_bool(a):
            a = to_int(a)
        if z3.is_bool(b):
            b = to_int(b)
        if z3.is_real(a) or z3.is_real(b):
            a, b = to_real(a), to_real(b)
        real = z3.is_real(a)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if real:
                return a / b
            self.oblige(st, b != 0, "integer divisor is not zero", line)
            if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
                x, y = a.as_long(), b.as_long()
                q = abs(x) // abs(y)
                return z3.IntVal(q if (x >= 0) == (y > 0) else -q)
            q = a / b      # z3: rounds so that remainder >= 0
            return z3.If(z3.Or(a >= 0, a % b == 0), q, z3.If(b > 0, q + 1, q - 1))
        if op == "%":
            self.oblige(st, b != 0, "integer modulus is not zero", line)
            return z3.If(a >= 0, a % b, -((-a) % b))
        if op == "<":
            return a < b
        if op == ">":
            return a > b
        if op == "<=":
            return a <= b
        if op == ">=":
            return a >= b
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        raise Unsupported("operator " + op)

    def x_cond(self, st, n, fr):
        c = to_bool(self.scal(st, n.a[0], fr))
        a = self.guarded(st, n.a[1], fr, c)
        b = self.guarded(st, n.a[2], fr, z3.Not(c))
        if z3.is_bool(a) and z3.is_bool(b):
            return z3.If(c, a, b)
        if n.ty == "real" or z3.is_real(a) or z3.is_real(b):
            a, b = to_real(a), to_real(b)
        else:
            a, b = to_int(a), to_int(b)
        return z3.If(c, a, b)

    def x_comma(self, st, n, fr):
        self.ev(st, n.a[0], fr)
        return self.ev(st, n.a[1], fr)

    def x_assign(self, st, n, fr):
        lt = deref(n.a[0].ty)
        if isinstance(lt, str):
            # right side first (C++17)
            v = self.scal(st, n.a[1], fr)
            lv = self.ev(st, n.a[0], fr)
            v = conv(v, deref(lv.ty))
            if z3.is_real(v) and bigger(v, 40):
                c = self.fresh(lv.path[-1].split(".")[0].replace("[]", "elem"), R)
                st.assume(c == v)
                v = c
            self.write(st, lv, v)
            return lv
        v = self.ev(st, n.a[1], fr)
        lv = self.ev(st, n.a[0], fr)
        if isinstance(v, tuple) and v and v[0] == "newarr":
            self.bind_new(st, lv, v)
            return lv
        if isinstance(v, tuple) and v and v[0] == "ptrto":
            st.env[("ptr", lv.path)] = v[1]
            return lv
        if not isinstance(v, (LV, list)):
            if z3.is_expr(v):
                self.write(st, lv, v)
                return lv
            raise Unsupported("assignment")
        self.copy(st, lv, v)
        return lv

    def bind_new(self, st, lv, v):
        ty = deref(lv.ty)
        if not (isinstance(ty, tuple) and ty[0] == "ptr"):
            raise Unsupported("new into " + str(ty))
        self.rawwrite(st, lv.path + ("#len",), lv.idx, v[2])
        for suf, leaf in self.leaves(ty[1]):
            path = lv.path + ("[]",) + suf
            s = self.pathsort(path, leaf)
            for _ in lv.idx:
                s = s.range()
            if v[1] == ("struct", "cell") or "[]" in suf or "#len" in suf:
                val = self.zeroval(s)      # default constructed members: empty vectors
            else:
                val = self.fresh(lv.path[-1], s)
            self.rawwrite(st, path, lv.idx, val)

    def x_new(self, st, n, fr):
        k = self.scal(st, n.a[1], fr)
        self.oblige(st, k >= 0, "array size is not negative", n.line)
        return ("newarr", n.a[0], k)

    def x_delete(self, st, n, fr):
        self.ev(st, n.a[0], fr)
        return z3.BoolVal(True)

    def x_opassign(self, st, n, fr):
        op, l, r, ct = n.a
        b = self.scal(st, r, fr)
        lv = self.ev(st, l, fr)
        a = self.read(st, lv)
        if isinstance(a, LV):
            raise Unsupported("compound assignment on aggregate")
        v = self.binop(st, op, conv(a, ct) if ct in ("int", "real") else a, b, ct, n.line)
        self.write(st, lv, conv(v, deref(lv.ty)))
        return lv

    def x_incdec(self, st, n, fr):
        op, post, l = n.a
        lv = self.ev(st, l, fr)
        a = self.read(st, lv)
        one = z3.RealVal(1) if z3.is_real(a) else z3.IntVal(1)
        self.write(st, lv, a + one if op == "++" else a - one)
        return a if post else lv

    def x_copy(self, st, n, fr):
        v = self.ev(st, n.a[0], fr)
        if isinstance(v, LV):
            t = self.temp(deref(v.ty))
            self.copy(st, t, v)
            return t
        return v

    def x_zero(self, st, n, fr):
        t = self.temp(n.ty)
        self.zero(st, t)
        return self.read(st, t)

    def x_initlist(self, st, n, fr):
        return [self.detach(st, self.ev(st, x, fr)) for x in n.a[0]]

    def detach(self, st, v):
        if isinstance(v, LV):
            t = deref(v.ty)
            if isinstance(t, str):
                return self.read(st, v)
            tmp = self.temp(t)
            self.copy(st, tmp, v)
            return tmp
        return v

    def x_ctor(self, st, n, fr):
        ty, args = n.a
        t = self.temp(ty)
        self.construct(st, t, args, fr, n.line)
        return t

    def construct(self, st, t, args, fr, line):
        ty = deref(t.ty)
        if ty == ("struct", "complex"):
            vals = [self.scal(st, a, fr) for a in args]
            while len(vals) < 2:
                vals.append(z3.RealVal(0))
            self.write(st, t.fld("re", "real"), to_real(vals[0]))
            self.write(st, t.fld("im", "real"), to_real(vals[1]))
            return
        if isinstance(ty, tuple) and ty[0] == "vec":
            if not args:
                self.write(st, LV(t.path + ("#len",), t.idx, "int"), z3.IntVal(0))
                return
            if len(args) == 1 and args[0].op == "initlist":
                return self.copy(st, t, self.ev(st, args[0], fr))
            a0 = args[0]
            vals = [self.ev(st, a, fr) for a in args]
            if len(vals) == 2 and isinstance(vals[0], tuple) and vals[0][0] == "iter":
                return self.assign_range(st, t, vals[0], vals[1])
            k = vals[0]
            if isinstance(k, LV):
                k = self.read(st, k)
            if not isinstance(k, LV) and z3.is_expr(k):
                self.oblige(st, k >= 0, "vector size is not negative", line)
                self.write(st, LV(t.path + ("#len",), t.idx, "int"), k)
                v = vals[1] if len(vals) > 1 else None
                self.fill_all(st, t, v)
                return
            raise Unsupported("vector constructor")
        if isinstance(ty, tuple) and ty[0] == "struct":
            if not args:
                if ty[1] in self.prog.structs and ty[1] not in ("Atom", "System"):
                    for n_, ft in self.prog.structs[ty[1]]:
                        if isinstance(ft, tuple) and ft[0] == "vec":
                            self.construct(st, t.fld(n_, ft), [], fr, line)
                return
            if len(args) == 1:
                v = self.ev(st, args[0], fr)
                if isinstance(v, (LV, list)):
                    return self.copy(st, t, v)
            if self.isopaque(ty):
                return
        if isinstance(ty, tuple) and ty[0] == "opaque":
            return
        raise Unsupported("constructor of " + str(ty))

    def fill_all(self, st, t, v):
        """every element of vector t := v (or zero)"""
        ety = deref(t.ty)[1]
        for suf, leaf in self.leaves(ety):
            path = t.path + ("[]",) + suf
            s = self.pathsort(path, leaf)
            for _ in t.idx:
                s = s.range()
            if v is None:
                val = self.zeroval(s)
            elif isinstance(v, LV):
                if deref(v.ty) != ety and isinstance(ety, str):
                    val = z3.K(I, conv(self.read(st, v), ety))
                else:
                    val = z3.K(I, sel(self.get(st, v.path + suf), *v.idx))
            else:
                val = z3.K(I, conv(v, leaf))
            self.rawwrite(st, path, t.idx, val)

    def x_throw(self, st, n, fr):
        s2 = st.fork()
        self.thr.append((s2, n.a[0], n.line))
        st.pc.append(z3.BoolVal(False))
        return z3.BoolVal(True)

    # ------------------------------------------------------------ builtins
    def x_builtin(self, st, n, fr):
        name, args = n.a
        if name in ("sort", "accumulate", "fill", "find", "count", "reverse", "iota", "distance"):
            return self.algo(st, n, fr)
        if name == "swap":
            a, b = [self.ev(st, x, fr) for x in args]
            va = self.detach(st, a)
            vb = self.detach(st, b)
            self.copy(st, a, vb)
            self.copy(st, b, va)
            return z3.BoolVal(True)
        if name == "move":
            return self.ev(st, args[0], fr)
        vs = [self.scal(st, x, fr) for x in args]
        return self.mathfun(name, vs, n.ty)

    def mathfun(self, name, vs, ty):
        if name in ("min", "max", "fmin", "fmax"):
            a, b = vs
            if ty == "real" or z3.is_real(a) or z3.is_real(b):
                a, b = to_real(a), to_real(b)
            if name.endswith("max"):
                return z3.If(a < b, b, a)
            return z3.If(b < a, b, a)
        if name in ("abs", "fabs"):
            a = vs[0]
            if name == "fabs" or ty == "real":
                a = to_real(a)
            return z3.If(a >= 0, a, -a)
        if name == "pow":
            x, y = to_real(vs[0]), vs[1]
            ys = z3.simplify(to_real(y))
            if z3.is_rational_value(ys):
                q = ys.as_fraction()
                if q == Fraction(1, 2):
                    return UF("Sqrt", R, R)(x)
                if q.denominator == 1 and 0 <= q <= 4:
                    r = z3.RealVal(1)
                    for _ in range(int(q)):
                        r = r * x if not (z3.is_rational_value(r) and r.as_fraction() == 1) else x
                    return r
            xs = z3.simplify(x)
            if z3.is_rational_value(xs) and xs.as_fraction() == -1 and z3.is_int(vs[1]):
                return UF("SignPow", I, R)(vs[1])
            if z3.is_rational_value(xs) and xs.as_fraction() == -1 and z3.is_to_real(vs[1]):
                return UF("SignPow", I, R)(vs[1].arg(0))
            return UF("Pow", R, R, R)(x, to_real(y))
        if name == "floor":
            return z3.ToReal(z3.ToInt(to_real(vs[0])))
        if name == "ceil":
            return z3.ToReal(-z3.ToInt(-to_real(vs[0])))
        if name == "round":
            x = to_real(vs[0])
            h = rv(Fraction(1, 2))
            return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(-x + h)))
        if name in ("isnan", "isinf"):
            return z3.BoolVal(False)
        if name == "isfinite":
            return z3.BoolVal(True)
        nm = {"sqrt": "Sqrt", "cbrt": "Cbrt", "acos": "Acos", "cos": "Cos", "sin": "Sin", "exp": "Exp",
              "log": "Log", "atan": "Atan", "tan": "Tan"}.get(name)
        if nm:
            return UF(nm, R, R)(to_real(vs[0]))
        if name == "atan2":
            return UF("Atan2", R, R, R)(to_real(vs[0]), to_real(vs[1]))
        if name == "hypot" and len(vs) == 2:
            return UF("Sqrt", R, R)(to_real(vs[0]) * to_real(vs[0]) + to_real(vs[1]) * to_real(vs[1]))
        raise Unsupported("builtin " + name)

    def algo(self, st, n, fr):
        name, args = n.a
        vs = [self.ev(st, x, fr) for x in args]
        a, b = vs[0], vs[1]
        if not (isinstance(a, tuple) and a[0] == "iter" and isinstance(b, tuple) and b[0] == "iter"
                and a[1].path == b[1].path):
            if name == "fill" and isinstance(a, LV):
                raise Unsupported("fill over raw array")
            raise Unsupported(name + " over general iterators")
        v = a[1]
        ln = self.veclen(st, v)
        if name == "sort":
            if not (z3.is_true(z3.simplify(a[2] == 0)) and z3.is_true(z3.simplify(b[2] == ln))):
                raise Unsupported("sort of a subrange")
            return self.do_sort(st, v, vs[2] if len(vs) > 2 else None, args[2] if len(args) > 2 else None, fr, n.line)
        raise Unsupported(name)

    def do_sort(self, st, v, cmpv, cmpn, fr, line):
        """fresh permutation of the vector, ordered by the comparator of the code"""
        ety = deref(v.ty)[1]
        ln = self.veclen(st, v)
        k = next(self.fresh_n)
        sorts = [x.sort() for x in v.idx]
        perm = z3.Const("perm!%d" % k, z3.ArraySort(I, I))
        inv = z3.Const("invp!%d" % k, z3.ArraySort(I, I))
        x, y = z3.Ints("sx sy")
        oldv = {}
        newv = {}
        for suf, leaf in self.leaves(ety):
            path = v.path + ("[]",) + suf
            old = sel(self.get(st, path), *v.idx)
            if "[]" in suf:
                raise Unsupported("sort of nested containers")
            new = self.fresh("sorted", old.sort())
            oldv[suf], newv[suf] = old, new
        cmp = self.comparator(st, ety, cmpv, fr)
        gl = self.cmp_apply(st, cmp, ety, newv, y, x, fr)
        facts = [
            FA([x], z3.Implies(z3.And(x >= 0, x < ln), z3.And(perm[x] >= 0, perm[x] < ln, inv[perm[x]] == x)),
               [perm[x]] + [z3.Select(newv[s], x) for s in newv]),
            FA([x], z3.Implies(z3.And(x >= 0, x < ln), z3.And(inv[x] >= 0, inv[x] < ln, perm[inv[x]] == x)), [inv[x]]),
        ]
        for suf in oldv:
            o, w = oldv[suf], newv[suf]
            facts.append(FA([x], z3.Implies(z3.And(x >= 0, x < ln), w[x] == o[perm[x]]), [w[x]]))
            facts.append(FA([x], z3.Implies(z3.Not(z3.And(x >= 0, x < ln)), w[x] == o[x]), [w[x]]))
        p0 = z3.Select(newv[list(newv)[0]], x)
        p1 = z3.Select(newv[list(newv)[0]], y)
        facts.append(FA([x, y], z3.Implies(z3.And(0 <= x, x < y, y < ln), z3.Not(gl)), [(p0, p1)]))
        for suf in newv:
            self.rawwrite(st, v.path + ("[]",) + suf, v.idx, newv[suf])
        for f in facts:
            st.assume(f)
        # ghost position map of the sorted vector
        h = SORT_GHOST.get(v.path)
        if h:
            h(self, st, v, perm, inv, oldv, newv, ln)
        return z3.BoolVal(True)

    def comparator(self, st, ety, cmpv, fr):
        if cmpv is None:
            return None
        if isinstance(cmpv, LV) and isinstance(deref(cmpv.ty), tuple) and deref(cmpv.ty)[0] == "struct":
            q = deref(cmpv.ty)[1] + "::operator()"
            fs = self.prog.funcs.get(q)
            if not fs:
                raise Unsupported("comparator " + q)
            return fs[0]
        if isinstance(cmpv, tuple) and cmpv[0] == "closure":
            return cmpv
        raise Unsupported("comparator")

    def cmp_apply(self, st, cmp, ety, arrs, i, j, fr):
        """truth of comp(v[i], v[j]) with symbolic i, j"""
        if cmp is None:
            a = arrs[()]
            return a[i] < a[j]
        s2 = st.fork()
        la, lb = self.temp(ety), self.temp(ety)
        for suf in arrs:
            s2.vals[la.path + suf] = arrs[suf][i]
            s2.vals[lb.path + suf] = arrs[suf][j]
        self.dry += 1
        log, self.log = self.log, None
        try:
            if isinstance(cmp, tuple):
                v = self.inline(s2, cmp[1], cmp[2].this, [la, lb], parent=cmp[2])
            else:
                v = self.inline(s2, cmp, None, [la, lb])
        finally:
            self.dry -= 1
            self.log = log
        return to_bool(v if not isinstance(v, LV) else self.read(s2, v))

    def x_lambda(self, st, n, fr):
        return ("closure", n.a[0], fr)

    def x_lcall(self, st, n, fr):
        c = self.ev(st, n.a[0], fr)
        if isinstance(c, LV):
            c = st.env.get(("closure", c.path))
        if not (isinstance(c, tuple) and c[0] == "closure"):
            raise Unsupported("call of closure")
        args = [self.ev(st, a, fr) for a in n.a[1]]
        return self.inline(st, c[1], c[2].this, args, parent=c[2])

    def x_iterop(self, st, n, fr):
        a = self.ev(st, n.a[1], fr)
        b = self.scal(st, n.a[2], fr)
        if not (isinstance(a, tuple) and a[0] == "iter"):
            raise Unsupported("iterator")
        return ("iter", a[1], a[2] + b if n.a[0] == "+" else a[2] - b)

    def assign_range(self, st, dst, a, b):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "iter" and a[1].path == b[1].path):
            raise Unsupported("assign of iterators")
        src = a[1]
        ln = self.veclen(st, src)
        if z3.is_true(z3.simplify(a[2] == 0)) and z3.is_true(z3.simplify(b[2] == ln)):
            self.copy(st, dst, src)
            return
        raise Unsupported("subrange")

    def x_method(self, st, n, fr):
        name, base, args = n.a
        b = self.ev(st, base, fr)
        bt = deref(b.ty) if isinstance(b, LV) else None
        if isinstance(b, LV) and isinstance(bt, tuple) and bt[0] == "vec":
            return self.vecmethod(st, name, b, bt, args, fr, n)
        if isinstance(b, LV) and bt == ("struct", "complex") and name in ("real", "imag"):
            return b.fld("re" if name == "real" else "im", "real")
        m = self.contracts.get("method:" + (bt[1] if isinstance(bt, tuple) and len(bt) > 1 and isinstance(bt[1], str) else "?") + "::" + name)
        if m is not None:
            vals = [self.ev(st, a, fr) for a in args]
            return m(self, st, b, vals, n, fr)
        raise Unsupported("method %s on %s" % (name, bt))

    def vecmethod(self, st, name, b, bt, args, fr, n):
        lenlv = LV(b.path + ("#len",), b.idx, "int")
        ln = self.read(st, lenlv)
        if name == "size":
            return ln
        if name == "empty":
            return ln == 0
        if name == "clear":
            self.write(st, lenlv, z3.IntVal(0))
            return z3.BoolVal(True)
        if name in ("reserve", "shrink_to_fit"):
            for a in args:
                self.ev(st, a, fr)
            return z3.BoolVal(True)
        if name in ("emplace_back", "push_back"):
            ety = bt[1]
            if len(args) == 1:
                v = self.detach(st, self.ev(st, args[0], fr))
                el = b.at(ln, ety)
                self.copy(st, el, v)
            elif len(args) == 0:
                self.zero(st, b.at(ln, ety))
            else:
                t = self.temp(ety)
                self.construct(st, t, args, fr, n.line)
                self.copy(st, b.at(ln, ety), t)
            self.write(st, lenlv, ln + 1)
            return z3.BoolVal(True)
        if name == "pop_back":
            self.oblige(st, ln > 0, "pop_back of non-empty vector", n.line)
            self.write(st, lenlv, ln - 1)
            return z3.BoolVal(True)
        if name in ("begin", "cbegin"):
            return ("iter", b, z3.IntVal(0))
        if name in ("end", "cend"):
            return ("iter", b, ln)
        if name == "at":
            i = to_int(self.scal(st, args[0], fr))
            s2 = st.fork()
            s2.assume(z3.Not(z3.And(i >= 0, i < ln)))
            self.thr.append((s2, "out_of_range", n.line))
            st.assume(z3.And(i >= 0, i < ln))
            return b.at(i, bt[1])
        if name == "back":
            self.oblige(st, ln > 0, "back of non-empty vector", n.line)
            return b.at(ln - 1, bt[1])
        if name == "front":
            self.oblige(st, ln > 0, "front of non-empty vector", n.line)
            return b.at(z3.IntVal(0), bt[1])
        if name == "assign":
            vs = [self.ev(st, a, fr) for a in args]
            if isinstance(vs[0], tuple) and vs[0][0] == "iter":
                self.assign_range(st, b, vs[0], vs[1])
            else:
                k = vs[0] if not isinstance(vs[0], LV) else self.read(st, vs[0])
                self.write(st, lenlv, k)
                self.fill_all(st, b, vs[1])
            return z3.BoolVal(True)
        if name == "resize":
            k = self.scal(st, args[0], fr)
            self.oblige(st, k >= 0, "resize to a size that is not negative", n.line)
            if z3.is_int_value(z3.simplify(ln)) and z3.simplify(ln).as_long() == 0:
                v = self.ev(st, args[1], fr) if len(args) > 1 else None
                self.fill_all(st, b, v)
            else:
                if len(args) > 1:
                    raise Unsupported("resize with value")
                x = z3.Int("rx")
                for suf, leaf in self.leaves(bt[1]):
                    path = b.path + ("[]",) + suf
                    old = sel(self.get(st, path), *b.idx)
                    new = self.fresh("resized", old.sort())
                    z = self.zeroval(old.sort().range())
                    st.assume(FA([x], new[x] == z3.If(x < ln, old[x], z), [new[x]]))
                    self.rawwrite(st, path, b.idx, new)
            self.write(st, lenlv, k)
            return z3.BoolVal(True)
        if name == "swap":
            o = self.ev(st, args[0], fr)
            va, vb = self.detach(st, b), self.detach(st, o)
            self.copy(st, b, vb)
            self.copy(st, o, va)
            return z3.BoolVal(True)
        raise Unsupported("vector method " + name)

    # ------------------------------------------------------------ calls
    def x_call(self, st, n, fr):
        f, base, args = n.a
        this = None
        if base is not None:
            this = self.ev(st, base, fr)
            if not isinstance(this, LV):
                raise Unsupported("method on temporary")
        vals = [self.ev(st, a, fr) for a in args]
        return self.call(st, f, this, vals, fr, n.line)

    def call(self, st, f, this, vals, fr, line):
        con = self.contracts.get(f.sig) or self.contracts.get(f.qname)
        if con is not None and not callable(con) and con.matches(f):
            return self.call_contract(st, con, f, this, vals, line)
        if f.sig in self.stack or len(self.stack) > 12:
            raise Unsupported("recursive call of %s without a contract" % f.sig)
        self.inlined.add(f.sig)
        return self.inline(st, f, this, vals)

    def bind_args(self, st, f, vals):
        """evaluate argument passing; returns list usable by contracts"""
        out = []
        for (pid, pn, pt), v in zip(f.params, vals):
            if isinstance(pt, tuple) and pt[0] == "ref":
                if isinstance(v, LV):
                    out.append(v)
                else:
                    t = self.temp(pt[1], pn)
                    self.copy(st, t, v)
                    out.append(t)
            elif isinstance(pt, str):
                if isinstance(v, LV):
                    v = self.read(st, v)
                out.append(conv(v, pt))
            else:
                out.append(self.detach(st, v) if not isinstance(v, list) else self.fromlist(st, pt, v))
        return out

    def fromlist(self, st, ty, v):
        t = self.temp(ty)
        self.copy(st, t, v)
        return t

    def inline(self, st, f, this, vals, parent=None):
        body = self.prog.body(f)
        fr = Frame(f, this)
        fr.parent = parent
        vals = self.bind_args(st, f, vals)
        for (pid, pn, pt), v in zip(f.params, vals):
            if isinstance(v, LV):
                st.env[(fr.id, pid)] = v
            elif isinstance(v, tuple):
                st.env[(fr.id, pid)] = v
            else:
                lv = self.newlocal(st, fr, pid, pn, deref(pt))
                st.vals[lv.path] = v
        self.stack.append(f.sig)
        try:
            outs = self.run(st.fork(), body, fr)
        finally:
            self.stack.pop()
        live = []
        for kind, s, v in outs:
            if kind == "throw":
                self.thr.append((s, v, None))
            elif kind in ("next", "return"):
                if kind == "return" and isinstance(v, LV):
                    pass
                live.append((s, v))
            else:
                raise Unsupported("stray " + kind)
        if not live:
            st.pc.append(z3.BoolVal(False))
            return z3.BoolVal(True)
        base = len(st.pc)
        if len(live) == 1:
            s, v = live[0]
            self.adopt(st, s)
            return v if v is not None else z3.BoolVal(True)
        # force merge
        rt = deref(f.ret)
        if rt == "void":
            m = self.merge_all([s for s, _ in live], base)
            self.adopt(st, m)
            return z3.BoolVal(True)
        if isinstance(rt, str):
            t = self.temp(rt, "ret")
            for s, v in live:
                s.vals[t.path] = conv(v if not isinstance(v, LV) else self.read(s, v), rt)
        else:
            t = self.temp(rt, "ret")
            lg, self.log = self.log, None
            for s, v in live:
                self.copy(s, t, v)
            self.log = lg
        m = self.merge_all([s for s, _ in live], base)
        self.adopt(st, m)
        return self.read(st, t)

    def adopt(self, st, s):
        st.vals, st.pc, st.env = s.vals, s.pc, s.env

    def merge_all(self, states, base):
        m = states[-1]
        for s in reversed(states[:-1]):
            m = self.merge(s, m, base)
        return m

    def merge(self, a, b, base):
        """states that share pc[:base]; a has precedence"""
        k = base
        while k < len(a.pc) and k < len(b.pc) and a.pc[k].eq(b.pc[k]):
            k += 1
        ra, rb = a.pc[k:], b.pc[k:]
        ca = ra[0] if ra else z3.BoolVal(True)
        # use the first differing fact as the branch condition when complementary
        if ra and rb and (rb[0].eq(z3.Not(ca)) or z3.simplify(z3.Not(ca)).eq(z3.simplify(rb[0]))):
            g = ca
            xa, xb = ra[1:], rb[1:]
            pc = a.pc[:k] + [z3.Implies(g, f) for f in xa] + [z3.Implies(z3.Not(g), f) for f in xb]
        else:
            g = self.fresh("path", B)
            pc = a.pc[:k] + [z3.Implies(g, f) for f in ra] + [z3.Implies(z3.Not(g), f) for f in rb]
        vals = {}
        for p in set(a.vals) | set(b.vals):
            va, vb = a.vals.get(p), b.vals.get(p)
            if va is None or vb is None:
                if p[0] != "this" and p not in self.init:
                    vals[p] = va if va is not None else vb
                    continue
                if va is None:
                    va = self.get(a, p)
                if vb is None:
                    vb = self.get(b, p)
            if va.eq(vb):
                vals[p] = va
            elif va.sort().kind() == z3.Z3_ARRAY_SORT and z3.is_const(va) and z3.is_const(vb):
                m = self.fresh(self.pname(p), va.sort())
                pc.append(z3.Implies(g, m == va))
                pc.append(z3.Implies(z3.Not(g), m == vb))
                vals[p] = m
            else:
                vals[p] = z3.If(g, va, vb)
        env = dict(b.env)
        env.update(a.env)
        for kk in list(env):
            if kk in a.env and kk in b.env:
                x, y = a.env[kk], b.env[kk]
                if isinstance(x, LV) and isinstance(y, LV) and (x.path != y.path or not all(p.eq(q) for p, q in zip(x.idx, y.idx))):
                    if x.path == y.path:
                        env[kk] = LV(x.path, [p if p.eq(q) else z3.If(g, p, q) for p, q in zip(x.idx, y.idx)], x.ty)
                    elif kk[0] == "ptr":
                        env.pop(kk)
        return State(vals, pc, env)

    def call_contract(self, st, con, f, this, vals, line):
        self.used.add(con.name)
        args = self.bind_args(st, f, vals)
        pre = st.fork()
        c = CallCtx(self, pre, pre, this, args, None)
        for nm, g in con.pre(c):
            self.oblige(st, g, "precondition of %s: %s" % (f.name, nm), line, "call")
        if con.throws is not None:
            s2 = st.fork()
            self.havoc_modifies(s2, con, c, f, args, this, thrown=True)
            c2 = CallCtx(self, pre, s2, this, args, None)
            for nm, g in con.throws(c2):
                s2.assume(g)
            self.thr.append((s2, "callee", line))
        self.havoc_modifies(st, con, c, f, args, this)
        res = None
        rt = deref(f.ret)
        if rt != "void":
            t = self.temp(rt, "res")
            if isinstance(rt, str):
                res = self.fresh(f.name, leafsort(rt))
                st.vals[t.path] = res
            else:
                for suf, leaf in self.leaves(rt):
                    st.vals[t.path + suf] = self.fresh(f.name, self.pathsort(t.path + suf, leaf))
                    if suf[-1:] == ("#len",):
                        st.assume(self.nonneg(st.vals[t.path + suf]))
                res = t
        c3 = CallCtx(self, pre, st, this, args, res)
        for it in con.post(c3):
            st.assume(it[1])
        return res if res is not None else z3.BoolVal(True)

    def havoc_modifies(self, st, con, c, f, args, this, thrown=False):
        mods = con.modifies(c) if callable(con.modifies) else con.modifies
        if thrown and con.throw_modifies is not None:
            mods = con.throw_modifies
        for m in mods:
            row = None
            if isinstance(m, tuple):
                m, row = m
            p = this.path + parse_path(m)
            for suf, leaf in self.leaves(self.leaf_ty(p)):
                path = p + suf
                old = self.get(st, path)
                if row is None and not this.idx:
                    v = self.fresh(self.pname(path), old.sort())
                    if path[-1] == "#len":
                        st.assume(self.nonneg(v))
                    self.rawwrite(st, path, (), v)
                else:
                    idx = list(this.idx) + (list(row) if row is not None else [])
                    s = sel(old, *idx).sort()
                    v = self.fresh(self.pname(path), s)
                    if path[-1] == "#len":
                        st.assume(self.nonneg(v))
                    self.rawwrite(st, path, tuple(idx), v)
        for (pid, pn, pt), a in zip(f.params, args):
            if isinstance(pt, tuple) and pt[0] == "ref" and isinstance(a, LV) and pn not in getattr(con, "constref", ()):
                ty = deref(a.ty)
                if isinstance(ty, str):
                    self.rawwrite(st, a.path, a.idx, self.fresh(pn, leafsort(ty)))
                elif not getattr(con, "refs_const", False):
                    raise Unsupported("aggregate reference parameter of " + f.name)

    def leaf_ty(self, path):
        t = self.roots[path[0]]
        for p in path[1:]:
            t = deref(t)
            if p == "[]":
                t = t[2] if t[0] == "arr" else t[1]
            elif p == "#len":
                t = "int"
            else:
                t = self.ftype(t[1], p)
        return deref(t)

    # ------------------------------------------------------------ statements
    def run(self, st, n, fr):
        m = getattr(self, "s_" + n.op)
        saved = self.thr
        self.thr = []
        outs = m(st, n, fr)
        t = [("throw", s, nm) for s, nm, ln in self.thr]
        self.thr = saved
        return [o for o in outs if not self.dead(o[1])] + t

    def dead(self, st):
        return any(z3.is_false(f) for f in st.pc[-3:])

    def s_block(self, st, n, fr):
        return self.seq([st], n.a[0], fr)

    def seq(self, states, stmts, fr):
        outs = []
        live = states
        for s in stmts:
            nxt = []
            for st in live:
                for o in self.run(st, s, fr):
                    if o[0] == "next":
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            live = nxt
            if len(live) > 96:
                raise Unsupported("too many paths")
        return outs + [("next", s, None) for s in live]

    def s_decls(self, st, n, fr):
        for v in n.a[0]:
            self.declare(st, v, fr)
        return [("next", st, None)]

    def declare(self, st, v, fr):
        did, name, ty, init = v.a
        if isinstance(ty, tuple) and ty[0] == "ref":
            val = self.ev(st, init, fr)
            if not isinstance(val, LV):
                t = self.temp(ty[1], name)
                self.copy(st, t, val)
                val = t
            st.env[(fr.id, did)] = LV(val.path, val.idx, val.ty)
            return
        if isinstance(ty, tuple) and ty[0] == "lambda":
            st.env[(fr.id, did)] = self.ev(st, init, fr)
            return
        if isinstance(ty, tuple) and ty[0] == "iter":
            st.env[(fr.id, did)] = self.ev(st, init, fr)
            return
        if isinstance(ty, tuple) and ty[0] == "ptr" and init is not None and init.op == "addr":
            val = self.ev(st, init, fr)
            lv = self.newlocal(st, fr, did, name, ty)
            st.env[("ptr", lv.path)] = val[1]
            return
        if init is None:
            lv = self.newlocal(st, fr, did, name, ty)
            return
        if init.op == "ctor":
            lv = self.newlocal(st, fr, did, name, ty)
            self.construct(st, lv, init.a[1], fr, v.line)
            return
        val = self.ev(st, init, fr)
        lv = self.newlocal(st, fr, did, name, ty)
        if isinstance(val, tuple) and val and val[0] == "newarr":
            self.bind_new(st, lv, val)
            return
        if isinstance(val, tuple) and val and val[0] == "ptrto":
            st.env[("ptr", lv.path)] = val[1]
            return
        if isinstance(val, LV) and isinstance(deref(ty), str):
            val = self.read(st, val)
        self.copy(st, lv, val)

    def s_expr(self, st, n, fr):
        self.ev(st, n.a[0], fr)
        return [("next", st, None)]

    def s_return(self, st, n, fr):
        if n.a[0] is None:
            return [("return", st, None)]
        v = self.ev(st, n.a[0], fr)
        if isinstance(v, LV) and isinstance(deref(v.ty), str):
            v = self.read(st, v)
        if not isinstance(v, LV) and not isinstance(v, list):
            rt = deref(fr.func.ret)
            if isinstance(rt, str) and rt != "void":
                v = conv(v, rt)
        if isinstance(v, list):
            v = self.fromlist(st, deref(fr.func.ret), v)
        return [("return", st, v)]

    def s_break(self, st, n, fr):
        return [("break", st, None)]

    def s_continue(self, st, n, fr):
        return [("continue", st, None)]

    def s_if(self, st, n, fr):
        c = to_bool(self.scal(st, n.a[0], fr))
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return self.run(st, n.a[1], fr)
        if z3.is_false(cs):
            return self.run(st, n.a[2], fr) if n.a[2] is not None else [("next", st, None)]
        base = len(st.pc)
        s1, s2 = st.fork(), st
        s1.assume(c)
        s2.assume(z3.Not(c))
        o1 = self.run(s1, n.a[1], fr)
        o2 = self.run(s2, n.a[2], fr) if n.a[2] is not None else [("next", s2, None)]
        outs = [o for o in o1 + o2 if o[0] != "next"]
        live = [o[1] for o in o1 + o2 if o[0] == "next"]
        if len(live) == 2 and len([o for o in o1 if o[0] == "next"]) == 1 and self.mergeable(live[0], live[1]):
            live = [self.merge(live[0], live[1], base)]
        return outs + [("next", s, None) for s in live]

    def mergeable(self, a, b):
        for p in set(a.vals) | set(b.vals):
            va, vb = a.vals.get(p), b.vals.get(p)
            if va is None or vb is None:
                if p[0] != "this" and p not in self.init:
                    continue
                va = va if va is not None else self.get(a, p)
                vb = vb if vb is not None else self.get(b, p)
            if not va.eq(vb) and va.sort().kind() == z3.Z3_ARRAY_SORT and not self.force_merge and not (z3.is_const(va) and z3.is_const(vb)):
                return False
        return True

    force_merge = False

    # ------------------------------------------------------------ loops
    def s_rangefor(self, st, n, fr):
        rng, vid, vname, vty, body = n.a
        v = self.ev(st, rng, fr)
        if not isinstance(v, LV):
            raise Unsupported("range-for over temporary")
        vt = deref(v.ty)
        if vt[0] == "vec":
            ln = self.veclen(st, v)
            ety = vt[1]
        elif vt[0] == "arr":
            ln = z3.IntVal(vt[1])
            ety = vt[2]
        else:
            raise Unsupported("range-for over " + str(vt))
        cid = "rf%d" % next(self.fresh_n)
        clv = self.newlocal(st, fr, cid, "rangeidx", "int")
        st.vals[clv.path] = z3.IntVal(0)

        class Hook:
            pass
        cnt = N("local", cid, "rangeidx", ty="int", line=n.line)
        cond = N("pybool", lambda s, f: self.read(s, clv) < ln, ty="bool", line=n.line)
        inc = N("incdec", "++", False, cnt, ty="int", line=n.line)

        def bind(s, f):
            el = v.at(self.read(s, clv), ety)
            if isinstance(vty, tuple) and vty[0] == "ref":
                s.env[(f.id, vid)] = el
            else:
                lv = self.newlocal(s, f, vid, vname, deref(vty))
                self.copy(s, lv, self.read(s, el))
        b = N("block", [N("pystmt", bind, line=n.line), body], line=n.line)
        loop = N("loop", None, cond, inc, b, "for", line=n.line)
        loop.org = n
        return self.s_loop(st, loop, fr)

    def x_pybool(self, st, n, fr):
        return n.a[0](st, fr)

    def s_pystmt(self, st, n, fr):
        n.a[0](st, fr)
        return [("next", st, None)]

    def s_loop(self, st, n, fr):
        init, cond, inc, body, kind = n.a
        par = self.keystack[-1]
        d = self.loopkeys.setdefault(par, {})
        o = d.setdefault(id(n.org or n), len(d))
        key = (par + "." if par else "") + str(o)
        outs = []
        states = [st]
        if init is not None:
            states = []
            for o in self.run(st, init, fr):
                (states if o[0] == "next" else outs).append(o[1] if o[0] == "next" else o)
        for s in states:
            r = self.try_unroll(s, n, fr, key)
            if r is None:
                r = self.cut(s, n, fr, key)
            outs += r
        return outs

    def evcond(self, st, cond, fr):
        if cond is None:
            return z3.BoolVal(True)
        return to_bool(self.scal(st, cond, fr))

    def try_unroll(self, st, n, fr, key):
        init, cond, inc, body, kind = n.a
        if kind == "do" or cond is None:
            return None
        limit = self.con.unroll.get(key, self.con.unroll.get("*", UNROLL)) if self.con else UNROLL
        # cheap look-ahead: is the condition decided by constants?
        s0 = st.fork()
        self.dry += 1
        lg, self.log = self.log, None
        sv, self.thr = self.thr, []
        try:
            c = z3.simplify(self.evcond(s0, cond, fr))
        finally:
            self.dry -= 1
            self.log = lg
            self.thr = sv
        if not (z3.is_true(c) or z3.is_false(c)):
            return None
        trips = self.count_trips(st, n, fr, limit)
        if trips is None:
            return None
        outs = []
        live = [st]
        for it in range(trips + 1):
            nxt = []
            for s in live:
                c = z3.simplify(self.evcond(s, cond, fr))
                if z3.is_false(c):
                    outs.append(("next", s, None))
                    continue
                if not z3.is_true(c):
                    raise Unsupported("unrolled condition not constant")
                self.keystack.append(key)
                r = self.run(s, body, fr)
                self.keystack.pop()
                for o in r:
                    if o[0] in ("next", "continue"):
                        if inc is not None:
                            self.ev(o[1], inc, fr)
                        nxt.append(o[1])
                    elif o[0] == "break":
                        outs.append(("next", o[1], None))
                    else:
                        outs.append(o)
            if not nxt:
                break
            live = nxt
        else:
            return None
        return outs

    def count_trips(self, st, n, fr, limit):
        """number of iterations from the counter alone; None if not constant or too many"""
        init, cond, inc, body, kind = n.a
        if inc is None or inc.op not in ("incdec", "opassign"):
            return None
        s = st.fork()
        self.dry += 1
        lg, self.log = self.log, None
        sv, self.thr = self.thr, []
        try:
            for k in range(limit + 1):
                c = z3.simplify(self.evcond(s, cond, fr))
                if z3.is_false(c):
                    return k
                if not z3.is_true(c):
                    return None
                self.ev(s, inc, fr)
            return None
        except Unsupported:
            return None
        finally:
            self.dry -= 1
            self.log = lg
            self.thr = sv

    def iterate(self, st, n, fr, info):
        """one iteration from st: returns (exit states, back states, other outcomes)"""
        self.keystack.append(info["key"])
        self.loopstack.append(info)
        ob = self.iter_base
        self.iter_base = next(self.fresh_n)
        try:
            return self.iterate0(st, n, fr)
        finally:
            self.keystack.pop()
            self.loopstack.pop()
            self.last_base = self.iter_base
            self.iter_base = ob

    def iterate0(self, st, n, fr):
        init, cond, inc, body, kind = n.a
        exits, backs, others = [], [], []
        sv, self.thr = self.thr, []
        if kind == "do":
            r = self.run(st, body, fr)
            for o in r:
                if o[0] in ("next", "continue"):
                    s = o[1]
                    c = self.evcond(s, cond, fr)
                    cs = z3.simplify(c)
                    if not z3.is_true(cs):
                        s2 = s.fork()
                        s2.assume(z3.Not(c))
                        exits.append(s2)
                    if not z3.is_false(cs):
                        s.assume(c)
                        backs.append(s)
                elif o[0] == "break":
                    exits.append(o[1])
                else:
                    others.append(o)
        else:
            c = self.evcond(st, cond, fr)
            cs = z3.simplify(c)
            if not z3.is_true(cs):
                s2 = st.fork()
                s2.assume(z3.Not(c))
                exits.append(s2)
            if not z3.is_false(cs):
                st.assume(c)
                r = self.run(st, body, fr)
                for o in r:
                    if o[0] in ("next", "continue"):
                        if inc is not None:
                            self.ev(o[1], inc, fr)
                        backs.append(o[1])
                    elif o[0] == "break":
                        exits.append(o[1])
                    else:
                        others.append(o)
        others += [("throw", s, nm) for s, nm, ln in self.thr]
        self.thr = sv
        return exits, backs, others

    def dryrun(self, st, n, fr, info):
        self.dry += 1
        lg, self.log = self.log, []
        try:
            ex, ba, ot = self.iterate(st, n, fr, info)
            log = self.log
        finally:
            self.dry -= 1
            self.log = lg
        return ex, ba, ot, log

    def cut(self, st, n, fr, key):
        entry = st.fork()
        info = dict(key=key, entry=entry, ctr=None, ctrs=[], kinds={}, line=n.line, fr=fr, wset={})
        wset = info["wset"]
        locs_in = {lv.path[0] for lv in st.env.values() if isinstance(lv, LV)} | {"this"}
        # ---- write set (fixpoint of dry runs from a state with everything written so far unknown)
        fast = self.fast
        self.fast = True
        while True:
            h = st.fork()
            hc = self.havoc(h, entry, wset, {}, None)
            hstart = h.fork()
            ex, ba, ot, log = self.dryrun(h, n, fr, info)
            new = {p for p, idx in log if p[0] in locs_in and p not in wset}
            if not new:
                break
            for p in new:
                wset[p] = []
        self.fast = fast
        if fast:
            h = st.fork()
            self.havoc(h, entry, wset, {}, None)
            ex, ba, ot = self.iterate(h, n, fr, info)
            return [("next", s, None) for s in ex] + ot
        ibase = self.last_base
        writes = {p: [] for p in wset}
        for path, idx in log:
            if path in writes:
                writes[path].append(idx)
        # ---- counters: scalar ints stepping by one on every back edge
        ctrs = []
        for p in wset:
            v0 = hstart.vals.get(p)
            if v0 is None or v0.sort() != I:
                continue
            steps = set()
            for b in ba:
                d = z3.simplify(b.vals.get(p, v0) - v0)
                steps.add(d.as_long() if z3.is_int_value(d) else None)
            if len(steps) == 1 and None not in steps and list(steps)[0] in (1, -1):
                ctrs.append((p, list(steps)[0]))
        ctr = self.pick_counter(ctrs, n, fr, hstart)
        info["ctr"], info["ctrs"] = ctr, ctrs
        oco = self._co
        self._co = {}
        if ctr is not None:
            i, lo = hstart.vals[ctr[0]], self.get(entry, ctr[0])
            for p, sg in ctrs:
                if p != ctr[0]:
                    self._co[hstart.vals[p]] = self.get(entry, p) + (i - lo if sg == ctr[1] else lo - i)
        ob, self.iter_base = self.iter_base, ibase
        try:
            kinds = self.classify(writes, hstart, ctr, hc["names"], entry)
            info["kinds"] = kinds
        finally:
            self.iter_base = ob
            self._co = oco
        con = self.con
        req = con.loops.get(key) if con is not None else None

        def reqs(s):
            return [it[:2] for it in req(self.loopctx(info, s, fr))] if req is not None else []
        # ---- candidates: counters, spec proposals, and facts about finished rows
        cands = self.counter_candidates(info, entry, hstart, n, fr)
        cands += self.flag_candidates(info, entry, hstart, ba)
        if con is not None:
            fn2 = con.cands.get(key, con.cands.get("*"))
            if fn2 is not None:
                cands += self.expand(fn2, info, entry, fr)
        if (con is None or con.lift) and ctr is not None and ctr[1] == 1 and any(k[0] == "ctr" for k in kinds.values()):
            h = st.fork()
            hc = self.havoc(h, entry, wset, kinds, ctr)
            for nm, c in cands:
                h.assume(c(h))
            for nm, g in reqs(h):
                h.assume(g)
            hstart = h.fork()
            i = hstart.vals[ctr[0]]
            for p, sg in ctrs:
                if p != ctr[0]:
                    self._co[hstart.vals[p]] = self.get(entry, p) + (i - lo if sg == ctr[1] else lo - i)
            ex, ba, ot, log = self.dryrun(h, n, fr, info)
            ob, self.iter_base = self.iter_base, self.last_base
            try:
                cands += self.lift(info, entry, hstart, ba)
            finally:
                self.iter_base = ob
                self._co = oco
        kept = self.houdini(cands, reqs, info, entry, st, n, fr)
        # ---- final pass
        for nm, g in reqs(entry):
            self.oblige(entry, g, "loop invariant '%s' holds at entry (loop %s)" % (nm, key), n.line, "inv", label=nm)
        h = st.fork()
        self.havoc(h, entry, wset, kinds, ctr)
        for nm, c in kept:
            h.assume(c(h))
        for nm, g in reqs(h):
            h.assume(g)
            self.labels[g.get_id()] = nm
            self.keep.append(g)
        hs = h.fork()
        ex, ba, ot = self.iterate(h, n, fr, info)
        for k, b in enumerate(ba):
            for nm, g in reqs(b):
                self.oblige(b, g, "loop invariant '%s' preserved (loop %s%s)" % (nm, key, ", path %d" % k if len(ba) > 1 else ""),
                            n.line, "inv", label=nm)
        # ---- the counter at exit
        if ctr is not None and ctr[1] == 1 and n.a[4] != "do":
            bnd = [c for nm, c in kept if nm == "bound"]
            for s in ex:
                self.exit_fact(s, hs, ctr, entry, n, fr)
        return [("next", s, None) for s in ex] + ot

    def exit_fact(self, s, hs, ctr, entry, n, fr):
        """i == max(lo, bound) when that follows"""
        cond = n.a[1]
        if cond is None or cond.op not in ("bin", "pybool"):
            return
        cur = hs.vals[ctr[0]]
        if not s.vals[ctr[0]].eq(cur):
            return
        lo = self.get(entry, ctr[0])
        for f in s.pc[len(hs.pc):len(hs.pc) + 1]:
            if not (z3.is_not(f) and f.arg(0).num_args() == 2):
                return
            g = f.arg(0)
            k = g.decl().kind()
            a, b = g.arg(0), g.arg(1)
            if k == z3.Z3_OP_GT:
                a, b, k = b, a, z3.Z3_OP_LT
            if k == z3.Z3_OP_GE:
                a, b, k = b, a, z3.Z3_OP_LE
            if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE):
                return
            d = z3.simplify(a - cur)
            if cur.decl().name() in consts_of(d) or cur.decl().name() in consts_of(b) or b.sort() != I:
                return
            bound = z3.simplify(b - d + (1 if k == z3.Z3_OP_LE else 0))
            bs = bound if not z3.is_int_value(d) or d.as_long() or k == z3.Z3_OP_LE else b
            for val in ([bs] if True else []) :
                if self.solver.quick(self, s.pc, cur == val):
                    s.assume(cur == val)
                    return
            val = z3.If(lo < bs, bs, lo)
            if self.solver.quick(self, s.pc, cur == val):
                s.assume(cur == val)

    def pick_counter(self, ctrs, n, fr, hstart):
        if not ctrs:
            return None
        inc = n.a[2]
        if inc is not None and inc.op in ("incdec", "opassign"):
            tgt = inc.a[2] if inc.op == "incdec" else inc.a[1]
            if tgt.op == "local":
                lv = self.x_local(hstart, tgt, fr)
                if isinstance(lv, LV):
                    for p, s in ctrs:
                        if p == lv.path:
                            return (p, s)
        # otherwise one that appears in the condition
        cond = n.a[1]
        names = set()

        def walk(x):
            if isinstance(x, N):
                if x.op == "local":
                    names.add(x.a[0])
                for y in x.a:
                    walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
        walk(cond)
        for did in names:
            lv = None
            f = fr
            while f is not None and lv is None:
                lv = hstart.env.get((f.id, did))
                f = getattr(f, "parent", None)
            if isinstance(lv, LV):
                for p, s in ctrs:
                    if p == lv.path:
                        return (p, s)
        for p, s in ctrs:
            if p[-1] != "#len":
                return (p, s)
        return ctrs[0]

    def havoc(self, h, entry, wset, kinds, ctr):
        """replace every written path by a fresh value, as precisely as kinds allows"""
        names = set()
        paths = set()
        cterm = None
        if ctr is not None:
            v = self.fresh(ctr[0][0], I)
            names.add(v.decl().name())
            h.vals[ctr[0]] = v
            paths.add(ctr[0])
            cterm = v
        x = z3.Int("hx")
        for p in wset:
            paths.add(p)
            if ctr is not None and p == ctr[0]:
                continue
            old = self.get(entry, p)
            k = kinds.get(p, ("all",))
            if k[0] == "rows":
                t = old
                for idx in k[1]:
                    s = sel(old, *idx).sort()
                    v = self.fresh(p[-1] if p[-1] not in ("[]",) else p[-2], s)
                    names.add(v.decl().name())
                    if p[-1] == "#len":
                        h.assume(self.nonneg(v))
                    t = sto(t, list(idx), v)
                h.vals[p] = t
                continue
            v = self.fresh(self.pname(p), old.sort())
            names.add(v.decl().name())
            h.vals[p] = v
            if p[-1] == "#len":
                h.assume(self.nonneg(v))
            if k[0] == "ctr":
                pre = k[1]           # fixed row prefix
                off = k[2]           # index = counter + off (off loop invariant)
                lo = self.get(entry, ctr[0])
                a, b = (lo + off, cterm + off) if ctr[1] > 0 else (cterm + off + 1, lo + off + 1)
                if pre:
                    s = sel(old, *pre).sort()
                    v2 = self.fresh(self.pname(p), s)
                    names.discard(v.decl().name())
                    names.add(v2.decl().name())
                    h.vals[p] = sto(old, list(pre), v2)
                    if p[-1] == "#len":
                        h.assume(self.nonneg(v2))
                    h.assume(FA([x], z3.Implies(z3.Not(z3.And(a <= x, x < b)), z3.Select(v2, x) == z3.Select(sel(old, *pre), x)), [z3.Select(v2, x)]))
                else:
                    h.assume(FA([x], z3.Implies(z3.Not(z3.And(a <= x, x < b)), z3.Select(v, x) == z3.Select(old, x)), [z3.Select(v, x)]))
        return dict(names=names, paths=paths)

    def classify(self, writes, hstart, ctr, hconsts, entry):
        """how a path is indexed by the writes of one iteration"""
        kinds = {}
        cterm = hstart.vals.get(ctr[0]) if ctr else None
        co = self.cocounters(ctr, hstart, entry) if ctr else {}
        for p, idxs in writes.items():
            if not idxs or p.count("[]") == 0:
                continue
            if any(len(ix) == 0 for ix in idxs):
                continue
            # all first indices loop invariant -> rows; possibly deeper prefix
            def inv(t):
                return not (consts_of(t) & hconsts) and not self.newer(t, hstart)
            plen = min(len(ix) for ix in idxs)
            if all(inv(ix[0]) for ix in idxs):
                # second level: counter indexed in a single row?
                rows = []
                for ix in idxs:
                    if not any(ix[0].eq(r[0]) for r in rows):
                        rows.append((ix[0],))
                if len(rows) == 1 and plen >= 2 and ctr is not None:
                    offs = self.offsets([ix[1] for ix in idxs], cterm, co, inv)
                    if offs is not None:
                        kinds[p] = ("ctr", rows[0], offs)
                        continue
                kinds[p] = ("rows", rows)
                continue
            if ctr is not None:
                offs = self.offsets([ix[0] for ix in idxs], cterm, co, inv)
                if offs is not None:
                    kinds[p] = ("ctr", (), offs)
        return kinds

    def newer(self, t, hstart):
        """term mentions constants created inside the iteration"""
        n0 = self.iter_base
        for c in consts_of(t):
            if "!" in c:
                try:
                    if int(c.rsplit("!", 1)[1]) >= n0:
                        return True
                except ValueError:
                    pass
        return False

    iter_base = 1 << 60

    def cocounters(self, ctr, hstart, entry):
        return getattr(self, "_co", {})

    def offsets(self, ts, cterm, co, inv):
        off = None
        for t in ts:
            t2 = z3.substitute(t, *[(a, b) for a, b in co.items()]) if co else t
            d = z3.simplify(t2 - cterm)
            if not inv(d):
                return None
            if off is None:
                off = d
            elif not off.eq(d):
                return None
        return off

    # ---- candidates
    def counter_candidates(self, info, entry, hstart, n, fr):
        out = []
        ctr = info["ctr"]
        if ctr is None:
            return out
        cp, step = ctr
        self.ctrstep = step
        lo = self.get(entry, cp)
        if step > 0:
            out.append(("lower", lambda s: self.get(s, cp) >= lo))
        else:
            out.append(("upper", lambda s: self.get(s, cp) <= lo))
        # other counters run in step
        for p, s2 in info["ctrs"]:
            if p == cp:
                continue
            o0 = self.get(entry, p)
            sg = 1 if s2 == step else -1
            out.append(("co:" + p[0], lambda s, p=p, o0=o0, sg=sg: self.get(s, p) - o0 == sg * (self.get(s, cp) - lo)))
        # bound from the condition
        cond = n.a[1]
        for form in self.bound_forms(cond, hstart, entry, fr, cp):
            out.append(form)
        return out

    def flag_candidates(self, info, entry, hstart, ba):
        """scalars that only ever hold a few constants"""
        out = []
        for p in info["wset"]:
            v0 = hstart.vals.get(p)
            e = self.get(entry, p)
            if v0 is None or v0.sort() not in (I, B) or not (z3.is_int_value(e) or z3.is_true(e) or z3.is_false(e)):
                continue
            vals = [e]
            for b in ba:
                t = b.vals.get(p, v0)
                st = [z3.simplify(t)]
                while st and vals is not None:
                    x = st.pop()
                    if x.eq(v0):
                        continue
                    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                        st += [x.arg(1), x.arg(2)]
                    elif z3.is_int_value(x) or z3.is_true(x) or z3.is_false(x):
                        if not any(x.eq(y) for y in vals):
                            vals.append(x)
                    else:
                        vals = None
                if vals is None:
                    break
            if vals is not None and len(vals) <= 4:
                out.append(("values of " + p[-1], lambda s, p=p, vals=vals: z3.Or(*[self.get(s, p) == x for x in vals])))
        return out

    def bound_forms(self, cond, hstart, entry, fr, cp):
        if cond is None:
            return []
        res = []

        def conjs(x):
            if isinstance(x, N) and x.op == "bin" and x.a[0] == "&&":
                return conjs(x.a[1]) + conjs(x.a[2])
            return [x]
        cterm = hstart.vals[cp]
        lo = self.get(entry, cp)
        for cj in conjs(cond):
            s = hstart.fork()
            self.dry += 1
            lg, self.log = self.log, None
            sv, self.thr = self.thr, []
            try:
                f = to_bool(self.scal(s, cj, fr))
            except Unsupported:
                continue
            finally:
                self.dry -= 1
                self.log = lg
                self.thr = sv
            if not z3.is_app(f) or f.num_args() != 2:
                continue
            k = f.decl().kind()
            a, b = f.arg(0), f.arg(1)
            ka = cterm.decl().name() in consts_of(a)
            kb = cterm.decl().name() in consts_of(b)
            if ka == kb:
                continue
            # f over cterm: bound candidate: f holds for (counter - step) or the counter is at entry
            step = 1

            def cand(s, f=f, cterm=cterm, entry=entry, lo=lo, hs=hstart):
                cur = self.get(s, cp)
                f2 = z3.substitute(f, (cterm, cur - 1))
                return z3.Or(cur == lo, f2)

            def candd(s, f=f, cterm=cterm, lo=lo):
                cur = self.get(s, cp)
                f2 = z3.substitute(f, (cterm, cur + 1))
                return z3.Or(cur == lo, f2)
            res.append(("bound", cand) if self.ctrstep > 0 else ("boundd", candd))
        return res

    def lift(self, info, entry, hstart, ba):
        """for all k already visited: what one iteration establishes about row k"""
        ctr, kinds = info["ctr"], info["kinds"]
        cp, step = ctr
        if step != 1:
            return []
        rows = {p: k for p, k in kinds.items() if k[0] == "ctr"}
        if not rows or not ba or len(ba) > 6:
            return []
        i = hstart.vals[cp]
        lo = self.get(entry, cp)
        k = z3.Int("lk")
        iname = i.decl().name()
        # names that may stay: everything not havocked/created in the loop
        havnames = set()
        for p in info["wset"]:
            v = hstart.vals.get(p)
            if v is not None:
                havnames |= {c for c in consts_of(v) if "!" in c and c not in consts_of(self.get(entry, p))}
        co = self._co if hasattr(self, "_co") else {}
        cosub = [(a, b) for a, b in co.items()]
        outcomes = []
        for b in ba:
            facts = b.pc[len(hstart.pc):]
            rowval = {}
            for p, kd in rows.items():
                fin = b.vals.get(p)
                if fin is None:
                    continue
                pre, off = kd[1], kd[2]
                val = z3.simplify(sel(fin, *(list(pre) + [i + off]))) if not z3.is_int_value(off) or off.as_long() else sel(fin, *(list(pre) + [i]))
                val = self.selsimp(val)
                rowval[p] = val
            outcomes.append((facts, rowval))
        # substitution of havocked arrays (row i not yet touched) by their entry value
        hsub = []
        for p in rows:
            hv = hstart.vals[p]
            hsub.append((hv, self.get(entry, p)))
        created_ok = havnames

        def clean(t):
            t = z3.substitute(t, *hsub) if hsub else t
            t = z3.substitute(t, *cosub) if cosub else t
            return t
        res = []
        iter_new = self.iter_new_names
        per_outcome = []
        for facts, rowval in outcomes:
            conj = []
            # inverse map: created constant -> row of final array
            inv = {}
            for p, val in rowval.items():
                if z3.is_const(val) and val.decl().kind() == z3.Z3_OP_UNINTERPRETED and iter_new(val.decl().name()):
                    inv.setdefault(val.decl().name(), (val, p))
            for p, val in rowval.items():
                conj.append(("val", p, clean(val)))
            for f in facts:
                conj.append(("fact", None, clean(f)))
            conj = self.solve_eqs(conj, iter_new, inv)
            per_outcome.append((conj, inv))

        def expressible(t, inv):
            for c in consts_of(t):
                if c == iname or c in inv:
                    continue
                if iter_new(c) or c in havnames:
                    return False
            return True

        def build(s, only=None):
            cur = self.get(s, cp)
            disj = []
            for conj, inv in per_outcome:
                fs = []
                sub = [(i, k)]
                pats = []
                for nm, (cst, p) in inv.items():
                    kd = rows[p]
                    arr = self.get(s, p)
                    sub.append((cst, sel(arr, *(list(kd[1]) + [self.off(k, kd[2])]))))
                for kind, p, t in conj:
                    if not expressible(t, inv):
                        continue
                    t2 = z3.substitute(t, *sub)
                    if kind == "val":
                        kd = rows[p]
                        arr = self.get(s, p)
                        lhs = sel(arr, *(list(kd[1]) + [self.off(k, kd[2])]))
                        if lhs.eq(t2):
                            continue
                        fs.append(lhs == t2)
                    else:
                        fs.append(t2)
                disj.append(fs)
            return cur, disj
        # number of conjuncts decides the shape
        if len(per_outcome) == 1:
            cur, disj = build(hstart)
            nf = len(disj[0])
            for q in range(nf):
                def cand(s, q=q):
                    cur, disj = build(s)
                    f = disj[0][q]
                    return self.quant_rows(k, lo, cur, f, rows, s)
                res.append(("lift%d" % q, cand))
        else:
            def cand(s):
                cur, disj = build(s)
                f = z3.Or(*[z3.And(*fs) if fs else z3.BoolVal(True) for fs in disj])
                return self.quant_rows(k, lo, cur, f, rows, s)
            res.append(("lift", cand))
        return res

    def solve_eqs(self, conj, iter_new, inv):
        """eliminate constants created in the iteration that some fact defines"""
        for _ in range(40):
            hit = None
            for j, (kind, p, t) in enumerate(conj):
                if kind != "fact" or not z3.is_eq(t):
                    continue
                for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        nm = a.decl().name()
                        if iter_new(nm) and nm not in inv and nm not in consts_of(b):
                            hit = (j, a, b)
                            break
                if hit:
                    break
            if not hit:
                return conj
            j, a, b = hit
            conj = [(k2, p2, z3.substitute(t2, (a, b))) for q, (k2, p2, t2) in enumerate(conj) if q != j]
        return conj

    def off(self, k, off):
        if z3.is_int_value(off) and off.as_long() == 0:
            return k
        return k + off

    def selsimp(self, t):
        """resolve select-over-store on syntactically equal or distinct constant indices"""
        if z3.is_select(t):
            a = self.selsimp(t.arg(0))
            ix = t.arg(1)
            while True:
                if z3.is_store(a):
                    e = z3.simplify(a.arg(1) == ix)
                    if z3.is_true(e):
                        return self.selsimp(a.arg(2))
                    if z3.is_false(e):
                        a = a.arg(0)
                        continue
                    break
                if z3.is_K(a):
                    return a.arg(0)
                break
            return z3.Select(a, ix)
        return t

    def quant_rows(self, k, lo, cur, f, rows, s):
        rng = z3.And(lo <= k, k < cur)
        if z3.is_quantifier(f) and f.is_forall():
            # flatten: forall k, ys
            nv = f.num_vars()
            ys = [z3.Const("%s_f" % f.var_name(j), f.var_sort(j)) for j in range(nv)]
            body = z3.substitute_vars(f.body(), *reversed(ys))
            pats = []
            for j in range(f.num_patterns()):
                pt = f.pattern(j)
                terms = [z3.substitute_vars(c, *reversed(ys)) for c in pt.children()]
                if all(self.has_const(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0], v, terms) for v in [k] + ys):
                    pats.append(tuple(terms) if len(terms) > 1 else terms[0])
            vs = [k] + ys
            g = z3.Implies(rng, body)
            if pats:
                return FA(vs, g, pats)
            return FA(vs, g)
        pats = []
        for p, kd in rows.items():
            arr = self.get(s, p)
            t = sel(arr, *(list(kd[1]) + [self.off(k, kd[2])]))
            if z3.is_int_value(kd[2]) and kd[2].as_long() == 0:
                if "lk" in consts_of(t):
                    pats.append(t)
        g = z3.Implies(rng, f)
        if pats:
            try:
                return FA([k], g, pats)
            except z3.Z3Exception:
                pass
        return FA([k], g)

    def has_const(self, _, v, terms):
        nm = v.decl().name()
        return any(nm in consts_of(t) for t in terms)

    def iter_new_names(self, c):
        if "!" not in c:
            return False
        try:
            return int(c.rsplit("!", 1)[1]) >= self.iter_base
        except ValueError:
            return False

    def expand(self, fn, info, entry, fr):
        """spec candidates: fn(loopctx) -> list of (name, formula); re-evaluated per state"""
        names = [nm for nm, _ in fn(self.loopctx(info, entry, fr))]
        out = []
        for j, nm in enumerate(names):
            def cand(s, j=j):
                return fn(self.loopctx(info, s, fr))[j][1]
            out.append((nm, cand))
        return out

    def loopctx(self, info, s, fr):
        c = LoopCtx(self, self.S0, s, self.this0, self.args0, None)
        c.info = info
        c.entry = View(self, info["entry"], self.this0)
        c.i = self.get(s, info["ctr"][0]) if info["ctr"] else None
        c.lo = self.get(info["entry"], info["ctr"][0]) if info["ctr"] else None
        c.outer = [self.get(s, x['ctr'][0]) if x['ctr'] else None for x in self.loopstack]
        c.st = s
        c.modified = [p for p in info["wset"] if p[0] != "this" and len(p) == 1]
        c.lvecs = lambda sort: [(p[0], sel(self.get(s, (p[0], "#len"))), self.get(s, p)) for p in sorted(info["wset"], key=str)
                                if p[0] != "this" and len(p) == 2 and p[1] == "[]" and (p[0], "#len") in info["wset"] and self.get(s, p).sort() == z3.ArraySort(I, sort)]
        c.larrs = lambda sort: [(p[0], self.get(s, p)) for p in sorted(info["wset"], key=str)
                                if p[0] != "this" and len(p) == 2 and p[1] == "[]" and self.get(s, p).sort() == z3.ArraySort(I, sort)]
        c.locals = lambda sort: [(p, self.get(s, p)) for p in c.modified if self.get(s, p).sort() == sort and (info["ctr"] is None or p != info["ctr"][0])]
        return c

    def houdini(self, cands, reqs, info, entry, st, n, fr):
        # entry filter
        keep = []
        for nm, c in cands:
            try:
                g = c(entry)
            except Unsupported:
                continue
            if self.solver.quick(self, entry.pc, g):
                keep.append((nm, c))
        rounds = 0
        if DEBUG:
            print("houdini", info["key"], "kept at entry", [nm for nm, c in keep], "of", [nm for nm, c in cands])
        while keep:
            rounds += 1
            h = st.fork()
            self.dry += 1
            lg, self.log = self.log, None
            try:
                self.havoc(h, entry, info["wset"], info["kinds"], info["ctr"])
                for nm, c in keep:
                    h.assume(c(h))
                for nm, g in reqs(h):
                    h.assume(g)
                ex, ba, ot = self.iterate(h, n, fr, info)
            finally:
                self.dry -= 1
                self.log = lg
            nk = []
            for nm, c in keep:
                ok = True
                for b in ba:
                    if not self.solver.quick(self, b.pc, c(b)):
                        ok = False
                        break
                if ok:
                    nk.append((nm, c))
            if len(nk) == len(keep):
                break
            if DEBUG:
                print("houdini", info["key"], "dropped", [nm for nm, c in keep if nm not in [x for x, _ in nk]])
            keep = nk
        self.houdini_stats[0] += len(cands)
        self.houdini_stats[1] += len(keep)
        return keep


SORT_GHOST = {}
