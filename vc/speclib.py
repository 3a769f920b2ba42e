"""Spec functions and helpers shared by the contracts."""
import z3
from sym import *
from verify import Contract

AI = z3.ArraySort(I, I)
AR = z3.ArraySort(I, R)
AB = z3.ArraySort(I, B)
AAI = z3.ArraySort(I, AI)
AAR = z3.ArraySort(I, AR)
AAAR = z3.ArraySort(I, AAR)


class Rec:
    """F(args, n) = base for n <= 0, else F(args, n-1) (+) step(args, n-1); unfolded at the
    terms where it is used (a definitional extension, not an assumption)"""

    def __init__(self, name, sorts, step, base=0, rng=R, comb=None):
        self.name, self.step, self.rng = name, step, rng
        self.f = z3.Function(name, *(list(sorts) + [I, rng]))
        self.base = z3.RealVal(base) if rng == R else (z3.IntVal(base) if rng == I else z3.BoolVal(base))
        self.comb = comb or (lambda a, b: a + b)

    def __call__(self, ex, *args, unfold=True):
        args, n = list(args[:-1]), args[-1]
        t = self.f(*(args + [n]))
        if unfold:
            n1 = z3.simplify(n - 1)
            key = (self.name, t.get_id())
            if key not in ex.recs:
                ex.recs.add(key)
                ex.keep.append(t)
                ex.axioms.append(t == z3.If(n <= 0, self.base,
                                            self.comb(self.f(*(args + [n1])), self.step(*(args + [n1])))))
                if z3.is_int_value(n1) and 0 <= n1.as_long() < 16:
                    self(ex, *(args + [n1]))
        return t


def rng(x, lo, hi):
    return z3.And(lo <= x, x < hi)


def imp(a, b):
    return z3.Implies(a, b)


def And(*a):
    return z3.And(*a)


def ints(s):
    return z3.Ints(s)


ATOMS = "atoms[]."


HntI = z3.Function("hint_", I, B)


def hint(body, *ts):
    """body, with terms the proof needs to mention (hint_ is true everywhere)"""
    return z3.Implies(z3.And(*[HntI(t) for t in ts]), body)


def hint_axiom():
    x = z3.Int("hx_")
    return FA([x], HntI(x), [HntI(x)])
