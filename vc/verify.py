"""Contracts, the verification of one function, and discharge by z3 / cvc5."""
import os, subprocess, sys, time, traceback
import z3
from front import Unsupported, deref, tstr
from sym import *

QUICK_RL = 3000000
QEXT = bool(os.environ.get("QEXT"))
SEED = int(os.environ.get("VCSEED", "0"))


class Contract:
    def __init__(self, fn, pre=None, post=None, modifies=(), throws=None, loops=None, cands=None, props=(),
                 unroll=None, throw_modifies=None, lemmas=None, refs_const=False, sig=None, heavy=1, setup=None, rl=1, note=None, recursive=False, trusted=False, lift=True):
        self.lift = lift
        self.fn = fn
        self.name = sig or fn
        self.sig = sig
        self._pre, self._post = pre, post
        self.modifies = modifies
        self.throws = throws
        self.throw_modifies = throw_modifies
        self.loops = loops or {}
        self.cands = cands or {}
        self.props = list(props)
        self.unroll = unroll or {}
        self.refs_const = refs_const
        self.heavy = heavy
        self.setup = setup
        self.rl = rl
        self.note = note
        self.recursive = recursive
        self.trusted = trusted

    def matches(self, f):
        return self.sig is None or f.sig == self.sig

    def pre(self, c):
        return list(self._pre(c)) if self._pre else []

    def post(self, c):
        return list(self._post(c)) if self._post else []


MUL = UF("mul_", R, R, R)
INV = UF("inv_", R, R)
IMUL = UF("imul_", I, I, I)


class Opaque:
    """products and quotients of unknowns as function symbols (an over-approximation of the
    arithmetic, so a proof stays a proof)"""

    def __init__(self, som=False):
        self.cache, self.keep, self.hits, self.som = {}, [], 0, som
        self.facts, self.seen = [], set()

    def mul(self, a, b):
        if z3.is_rational_value(a) or z3.is_rational_value(b):
            return a * b
        for x, y in ((a, b), (b, a)):
            if self.choice(x):
                return z3.If(x.arg(0), self.mul(x.arg(1), y), self.mul(x.arg(2), y))
        ca, a = self.coeff(a)
        cb, b = self.coeff(b)
        if ca is not None or cb is not None:
            c = z3.simplify((ca if ca is not None else z3.RealVal(1)) * (cb if cb is not None else z3.RealVal(1)))
            return c * self.mul(a, b)
        self.hits += 1
        t = MUL(a, b)
        if t.get_id() not in self.seen:
            self.seen.add(t.get_id())
            self.keep.append(t)
            if not any(z3.is_var(x) for x in self.vars(t)):
                u = MUL(b, a)
                self.keep.append(u)
                self.seen.add(u.get_id())
                self.facts.append(t == u)
        return t

    def choice(self, t):
        """a choice among numbers (and an unset variable)"""
        if not z3.is_app_of(t, z3.Z3_OP_ITE):
            return False
        x, y = t.arg(1), t.arg(2)
        return z3.is_rational_value(x) and (z3.is_rational_value(y) or self.choice(y))

    def coeff(self, a):
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UMINUS:
            return z3.RealVal(-1), a.arg(0)
        if z3.is_mul(a) and a.num_args() == 2:
            if z3.is_rational_value(a.arg(0)):
                return a.arg(0), a.arg(1)
            if z3.is_rational_value(a.arg(1)):
                return a.arg(1), a.arg(0)
        return None, a

    def vars(self, t):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_var(x):
                yield x
            elif z3.is_quantifier(x):
                st.append(x.body())
            else:
                st.extend(x.children())

    def __call__(self, t):
        if self.som:
            t = z3.simplify(t, som=True)
        return self.walk(t)

    def walk(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r
        if z3.is_quantifier(t):
            if t.is_lambda():
                r = t
            else:
                vs = [z3.Const("%s_q%d" % (t.var_name(j), t.get_id()), t.var_sort(j)) for j in range(t.num_vars())]
                body = z3.substitute_vars(t.body(), *reversed(vs))
                nb = self.walk(body)
                if nb.eq(body):
                    r = t
                else:
                    ps = []
                    for j in range(t.num_patterns()):
                        tr = [self.walk(z3.substitute_vars(c, *reversed(vs))) for c in t.pattern(j).children()]
                        ps.append(z3.MultiPattern(*tr))
                    try:
                        r = z3.ForAll(vs, nb, patterns=ps) if t.is_forall() else z3.Exists(vs, nb, patterns=ps)
                    except z3.Z3Exception:
                        r = z3.ForAll(vs, nb) if t.is_forall() else z3.Exists(vs, nb)
        elif z3.is_app(t) and t.num_args():
            ch = [self.walk(c) for c in t.children()]
            kd = t.decl().kind()
            if kd == z3.Z3_OP_MUL and t.sort() == R:
                r = ch[0]
                for c in ch[1:]:
                    r = self.mul(r, c)
            elif kd == z3.Z3_OP_MUL and t.sort() == I and sum(not z3.is_int_value(c) for c in ch) > 1:
                self.hits += 1
                r = ch[0]
                for c in ch[1:]:
                    r = r * c if z3.is_int_value(r) or z3.is_int_value(c) else IMUL(r, c)
            elif kd == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
                self.hits += 1
                r = self.mul(ch[0], INV(ch[1]))
            elif kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction() == 2:
                r = self.mul(ch[0], ch[0])
            elif all(x.eq(y) for x, y in zip(ch, t.children())):
                r = t
            else:
                r = t.decl()(*ch)
        else:
            r = t
        self.cache[k] = r
        self.keep += [t, r]
        return r


class Solver:
    def __init__(self):
        self.calls = 0
        self.time = 0.0
        self.seed = SEED
        self.qext = QEXT

    def mk(self, ex, pc, goal, rl, mbqi=False, ext=True):
        s = z3.SimpleSolver() if not mbqi else z3.Solver()
        if not mbqi:
            s.set("auto_config", False)
            s.set("mbqi", False)
            if not ext:
                s.set("array.extensional", False)
        if self.seed:
            s.set("random_seed", self.seed)
        s.set("rlimit", rl)
        s.set("timeout", 120000)
        for a in ex.axioms:
            s.add(a)
        for a in pc:
            s.add(a)
        s.add(z3.Not(goal))
        return s

    def quick(self, ex, pc, goal):
        self.calls += 1
        t = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        op = getattr(ex, "opq", None)
        if op is None:
            op = ex.opq = Opaque(False)
        fs = [op(a) for a in list(ex.axioms) + list(pc)]
        g = op(goal)
        r = False
        if not z3.is_quantifier(g):
            # ground facts first
            class E0:
                axioms = [a for a in fs if not z3.is_quantifier(a)] + op.facts
            s = self.mk(E0, [], g, QUICK_RL // 4, ext=False)
            r = s.check() == z3.unsat

        class E:
            axioms = fs + op.facts
        if not r:
            s = self.mk(E, [], g, QUICK_RL, ext=False)
            r = s.check() == z3.unsat
        if not r and self.qext:
            s = self.mk(E, [], g, QUICK_RL)
            r = s.check() == z3.unsat
        self.time += time.time() - t
        return r

    def prove(self, ex, pc, goal, scale=1, label=None):
        """('unsat'|..., backend, seconds, text)"""
        t = time.time()
        sub = [f for f in pc if ex.labels.get(f.get_id(), label) == label] if label is not None else pc
        sets = ([("sliced", sub)] if len(sub) < len(pc) else []) + [("", list(pc))]
        made = {}

        def query(which, prod):
            """axioms and hypotheses with products as symbols (prod 1), of the expanded form (2), or as they are (0)"""
            key = (which, prod)
            if key not in made:
                base = list(ex.axioms) + dict(sets)[which]
                if prod:
                    op = Opaque(prod == 2)
                    fs = [op(a) for a in base]
                    g = op(goal)
                    made[key] = (fs + op.facts, g) if op.hits else None
                else:
                    made[key] = (base, goal)
            return made[key]
        plan = []          # query, products, extensionality of arrays, mbqi, seed, resource limit
        for rl, more in ((800000, False), (5000000, True), (20000000, True)):
            for which, _ in sets:
                plan += [(which, 1, False, False, 0, rl), (which, 0, False, False, 0, rl), (which, 1, True, False, 0, rl)]
                if more:
                    plan += [(which, 2, False, False, 0, rl), (which, 0, True, False, 0, rl)]
            if more:
                plan += [("", 1, True, True, 0, rl)]
            else:
                plan += [("", k % 3 != 1, False, False, k, 12000000) for k in range(9)]
        for which, prod, ext, mbqi, seed, rl in plan:
            prod = int(prod)
            q = query(which, prod)
            if q is None:
                continue

            class E:
                axioms = q[0]
            s0 = self.mk(E, [], q[1], rl * scale, mbqi=mbqi, ext=ext)
            s0.set("timeout", 40000 * scale)
            if seed:
                s0.set("random_seed", self.seed * 16 + seed)
            if s0.check() == z3.unsat:
                return "discharged", "z3" + ("-sliced" if which else "") + ("", "-opaque-products", "-sums-of-products")[prod] + ("-mbqi" if mbqi else ""), time.time() - t, ""
        s = self.mk(ex, pc, goal, 40000000 * scale)
        s.set("timeout", 60000 * scale)
        r = s.check()
        if r == z3.unsat:
            return "discharged", "z3", time.time() - t, ""
        first = "%s (%s)" % (r, s.reason_unknown() if r == z3.unknown else "")
        s2 = self.mk(ex, pc, goal, 60000000 * scale, mbqi=True)
        s2.set("timeout", 20000 * scale)
        r2 = s2.check()
        if r2 == z3.unsat:
            return "discharged", "z3-default", time.time() - t, ""
        model = ""
        if r2 == z3.sat:
            try:
                m = s2.model()
                model = "; ".join("%s=%s" % (d.name(), str(m[d])[:80]) for d in m.decls()[:40])
            except Exception:
                pass
        out = self.cvc5(s, scale)
        if out == "unsat":
            return "discharged", "cvc5", time.time() - t, ""
        return "failed", "z3,cvc5", time.time() - t, "z3: %s; z3-default: %s %s; cvc5: %s; model: %s" % (
            first, r2, s2.reason_unknown() if r2 == z3.unknown else "", out, model)

    def cvc5(self, s, scale):
        try:
            txt = s.to_smt2()
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % (15000 * scale), "-"], input="(set-logic ALL)\n" + txt,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=20 * scale)
            o = p.stdout.strip().split("\n")
            return o[0] if o and o[0] else ("error " + p.stderr[:100])
        except Exception as e:
            return "error %s" % e


def covered(path, mods):
    """None = not allowed, True = whole, list of rows"""
    rows = []
    for m in mods:
        row = None
        if isinstance(m, tuple):
            m, row = m
        p = ("this",) + parse_path(m)
        if path[:len(p)] == p:
            if row is None:
                return True
            rows.append(list(row))
    return rows or None


def find_func(prog, con):
    fs = prog.funcs.get(con.fn, [])
    if con.sig:
        fs = [f for f in fs if f.sig == con.sig]
    if len(fs) != 1:
        raise Unsupported("%d definitions of %s" % (len(fs), con.name))
    return fs[0]


def generate(prog, contracts, con, theory):
    """obligations for one function"""
    solver = Solver()
    ex = Executor(prog, contracts, solver)
    ex.con = con
    ex.axioms.extend(theory(ex) if theory else [])
    ex.theory_n = len(ex.axioms)
    f = find_func(prog, con)
    ex.cur = con.name
    this = None
    cls = f.cls
    if cls in ("System", "Atom"):
        ex.roots["this"] = ("struct", cls)
        this = LV(("this",), (), ("struct", cls))
    S0 = State()
    st = State()
    fr = Frame(f, this)
    fr.parent = None
    args = []
    for k, (pid, pn, pt) in enumerate(f.params):
        t = deref(pt)
        root = "arg%d_%s" % (k, pn)
        ex.roots[root] = t
        lv = LV((root,), (), t)
        st.env[(fr.id, pid)] = lv
        if isinstance(pt, str):
            args.append(ex.get(st, lv.path))
        else:
            args.append(lv)
    ex.S0, ex.this0, ex.args0 = S0, this, args
    c0 = CallCtx(ex, S0, S0, this, args, None)
    ex.cc0 = c0
    pres = con.pre(c0)
    for nm, g in pres:
        st.assume(g)
        S0.pc.append(g)
    if con.setup:
        for g in con.setup(c0):
            st.assume(g)
    ex.stack.append(f.sig)
    prepc = list(st.pc)
    outs = ex.run(st, prog.body(f), fr)
    mods = con.modifies(c0) if callable(con.modifies) else con.modifies
    nret = 0
    for kind, s, v in outs:
        if kind in ("next", "return"):
            nret += 1
            rt = deref(f.ret)
            c = CallCtx(ex, S0, s, this, args, v)
            if kind == "next" and rt != "void" and f.name not in ("System", "Atom"):
                ex.oblige(s, z3.BoolVal(False), "every path returns a value", f.line, "post")
                continue
            for item in con.post(c):
                ex.oblige(s, item[1], "postcondition: " + item[0], f.line, "post", item[2] if len(item) > 2 else None, label=item[0])
            frame_obls(ex, S0, s, mods, f, "return")
        elif kind == "throw":
            c = CallCtx(ex, S0, s, this, args, None)
            if con.throws is None:
                ex.oblige(s, z3.BoolVal(False), "no exception (%s)" % v, f.line, "post")
            else:
                for nm, g in con.throws(c):
                    ex.oblige(s, g, "exception %s only if %s" % (v, nm), f.line, "post")
                tm = con.throw_modifies if con.throw_modifies is not None else mods
                frame_obls(ex, S0, s, tm, f, "throw")
        else:
            raise Unsupported("stray " + kind)
    return ex, f, prepc, outs, nret


def frame_obls(ex, S0, s, mods, f, kind):
    for p, v in sorted(s.vals.items(), key=lambda x: str(x[0])):
        if p[0] != "this":
            continue
        old = ex.get(S0, p)
        if v.eq(old):
            continue
        cov = covered(p, mods)
        if cov is True:
            continue
        nm = "frame: %s unchanged" % ex.pname(p).replace("this.", "")
        if cov is None:
            ex.oblige(s, v == old, nm, f.line, "frame")
        else:
            g = v
            goal = frame_goal(ex, v, old, cov)
            ex.oblige(s, goal, nm + " outside the given rows", f.line, "frame")


def frame_goal(ex, v, old, rows):
    # rows: list of index prefixes; at most depth 2
    x = ex.fresh("frow", I)
    conds = []
    inner = []
    for r in rows:
        conds.append(x != r[0])
        if len(r) > 1:
            y = ex.fresh("frow", I)
            inner.append(z3.Implies(z3.And(x == r[0], y != r[1]), sel(v, x, y) == sel(old, x, y)))
    return z3.And(z3.Implies(z3.And(*conds), z3.Select(v, x) == z3.Select(old, x)), *inner)


def verify(prog, contracts, con, theory, budget=240):
    """verify one function; result dict"""
    t0 = time.time()
    res = dict(function=con.name, props=con.props, obligations=[], status="ok", inlined=[], used=[], note=con.note)
    try:
        ex, f, prepc, outs, nret = generate(prog, contracts, con, theory)
    except Unsupported as e:
        res["status"] = "undecided"
        res["reason"] = str(e)
        res["time"] = time.time() - t0
        return res
    except Exception as e:
        res["status"] = "undecided"
        res["reason"] = "generator: " + "".join(traceback.format_exception_only(type(e), e))[-300:] + traceback.format_exc()[-600:]
        res["time"] = time.time() - t0
        return res
    res["file"], res["line"] = f.file, f.line
    res["gen_time"] = time.time() - t0
    res["inlined"], res["used"] = sorted(ex.inlined), sorted(ex.used)
    res["houdini"] = ex.houdini_stats
    # vacuity: the precondition is satisfiable as far as the solver can tell, and some path returns
    s = z3.SimpleSolver()
    s.set("auto_config", False); s.set("mbqi", False); s.set("rlimit", 5000000); s.set("timeout", 10000)
    for a in ex.axioms[:ex.theory_n] + prepc:
        s.add(a)
    res["vacuous"] = s.check() == z3.unsat
    if nret:
        live = 0
        for kind, stt, v in outs:
            if kind in ("next", "return"):
                s = z3.SimpleSolver()
                s.set("auto_config", False); s.set("mbqi", False); s.set("rlimit", 3000000); s.set("timeout", 5000)
                for a in ex.axioms + stt.pc:
                    s.add(a)
                if s.check() != z3.unsat:
                    live += 1
                    break
        res["vacuous"] = res["vacuous"] or live == 0
    work = ex.obls
    results = solve_all(ex, work, con, t0, budget)
    res["obligations"] = results
    res["time"] = time.time() - t0
    res["solver_s"] = sum(r["s"] for r in results) + ex.solver.time
    res["quick_calls"] = ex.solver.calls
    res["notes"] = sorted(ex.notes)
    return res


def solve_all(ex, work, con, t0, budget):
    n = con.heavy
    if n <= 1:
        return [solve_one(ex, o, con, t0, budget) for o in work]
    # forked workers, strided
    import pickle
    kids = []
    for w in range(n):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = []
            try:
                for j in range(w, len(work), n):
                    out.append((j, solve_one(ex, work[j], con, t0, budget)))
            finally:
                with os.fdopen(wfd, "wb") as fh:
                    pickle.dump(out, fh)
                os._exit(0)
        os.close(wfd)
        kids.append((pid, r))
    allr = {}
    for pid, r in kids:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        for j, x in pickle.loads(data):
            allr[j] = x
    return [allr[j] for j in range(len(work))]


def solve_one(ex, o, con, t0, budget):
    d = dict(name=o.name, line=o.line, kind=o.kind, props=o.props)
    if o.pc is None:
        d.update(status="discharged", backend="simplifier", s=0.0, output="")
        return d
    if time.time() - t0 > budget:
        d.update(status="not reached", backend="none", s=0.0, output="time budget of the function used up")
        return d
    st, be, sec, txt = ex.solver.prove(ex, o.pc, o.goal, con.rl, getattr(o, 'extra', None))
    d.update(status=st, backend=be, s=round(sec, 3), output=txt)
    return d
