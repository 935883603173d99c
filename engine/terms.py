"""Deciding that two value-flow terms are the same function.

A term is read as a rational function over its symbols; every other operation (sine, square root, truncation, comparison ...) is an uninterpreted function
of its operands.  Two terms are compared by polynomial identity testing: they are mapped into the field of integers modulo a large prime, with every symbol
a random element and every uninterpreted application a random element determined by the operation and the images of its operands (so equal operands give
equal results).  Different rational functions agree with probability below 2**-50 per point; several independent points are used.  Rounding is not part of
the comparison."""
import hashlib, math
from fractions import Fraction
from .values import *

PRIME = (1 << 61) - 1
POINTS = 3


class Undecided(Exception):
    pass


class Point:
    """one homomorphic image of the terms"""
    def __init__(self, I, seed):
        self.I, self.seed = I, seed
        self.memo = {}

    def rand(self, *key):
        h = hashlib.sha256(repr((self.seed,) + key).encode()).digest()
        return int.from_bytes(h[:8], "big") % PRIME

    def of(self, v):
        r = self.memo.get(v)
        if r is None:
            r = self.memo[v] = self._of(v)
        return r

    def _of(self, v):
        if isinstance(v, K):
            if isinstance(v.v, str):
                return self.rand("text", v.v)
            if isinstance(v.v, float) and v.v - v.v != 0:
                return self.rand("not a number", repr(v.v))
            return self.number(Fraction(v.v))
        if isinstance(v, S):
            if v in self.I.phi:
                alts = self.I.alternatives(v, 8)
                if len(alts) == 1 and v not in alts:
                    return self.of(next(iter(alts)))
                raise Undecided("joined value %s" % v.name)
            return self.rand("symbol", v.name)
        if isinstance(v, O):
            a = [self.of(x) for x in v.args]
            op = v.op
            fl = self.I.is_float(v.ty)
            if op == "Add":
                return (a[0] + a[1]) % PRIME
            if op == "Sub":
                return (a[0] - a[1]) % PRIME
            if op == "Mul":
                return a[0] * a[1] % PRIME
            if op == "Neg":
                return -a[0] % PRIME
            if op == "Div" and fl:
                if a[1] == 0:
                    raise Undecided("division by what is always zero")
                return a[0] * pow(a[1], PRIME - 2, PRIME) % PRIME
            if op == "cast" and fl:
                return a[0]                      # a number as a number of another format
            if op in ("min", "max"):
                c = clamp(v)
                if c:
                    x, lo, hi = c
                    return self.apply("clamp", [self.of(x), self.of(lo), self.of(hi)])
            if op == "mul_add":
                return (a[0] * a[1] + a[2]) % PRIME
            if op == "powi" and isinstance(v.args[1], K) and 0 <= v.args[1].v <= 8:
                return pow(a[0], v.args[1].v, PRIME)
            if op == "recip":
                return pow(a[0], PRIME - 2, PRIME)
            return self.apply(op if fl else "%s:%s" % (op, v.ty), a)
        raise Undecided("%s is not a term" % type(v).__name__)

    def apply(self, op, a):
        """an operation that is not arithmetic: some function of its operands"""
        if op.split(":")[0] in ("min", "max", "Eq"):
            a = sorted(a)
        return self.rand("op", op, tuple(a))

    def number(self, q):
        return q.numerator * pow(q.denominator, PRIME - 2, PRIME) % PRIME


def clamp(v):
    """(x, lo, hi) if the term keeps x between two constants"""
    for a, b in (v.args, v.args[::-1]):
        if isinstance(b, K) and isinstance(a, O) and a.op in ("min", "max") and a.op != v.op:
            for x, k in (a.args, a.args[::-1]):
                if isinstance(k, K):
                    lo, hi = (k, b) if v.op == "min" else (b, k)
                    if lo.v <= hi.v and not isinstance(x, K):
                        return x, lo, hi
    return None


def points(I, n=POINTS):
    return [Point(I, "point %d" % i) for i in range(n)]


def same(I, a, b, pts=None):
    """whether two terms are the same function of their symbols"""
    return a is b or all(p.of(a) == p.of(b) for p in pts or points(I))


class Numeric:
    """the value of a term with some number for each symbol: for terms whose constants have been rounded, which no identity over the rationals survives"""
    def __init__(self, I, seed):
        self.I, self.seed = I, seed
        self.memo = {}
        self.ranges = {s.name: r for s, r in I.numbers.items()}

    def symbol(self, name):
        h = hashlib.sha256(repr((self.seed, name)).encode()).digest()
        lo, hi = self.ranges.get(name, (0.25, 1.25))
        return lo + (hi - lo) * int.from_bytes(h[:4], "big") / 2.0 ** 32

    def of(self, v):
        r = self.memo.get(v)
        if r is None:
            r = self.memo[v] = self._of(v)
        return r

    def _of(self, v):
        if isinstance(v, K) and type(v.v) in (int, float, bool):
            return v.v if type(v.v) is int else float(v.v)
        if isinstance(v, S):
            if v in self.I.phi:
                alts = self.I.alternatives(v, 8)
                if len(alts) == 1 and v not in alts:
                    return self.of(next(iter(alts)))
                raise Undecided("joined value %s" % v.name)
            return self.symbol(v.name)
        if not isinstance(v, O):
            raise Undecided("%s is not a term" % type(v).__name__)
        f = NUMERIC.get(v.op)
        if f is None:
            raise Undecided("%s of numbers" % v.op)
        a = [self.of(x) for x in v.args]
        try:
            if v.op == "Div" and not self.I.is_float(v.ty):
                return int(a[0] / a[1])
            if v.op == "cast":
                return float(a[0]) if self.I.is_float(v.ty) else max(0, int(a[0])) if self.I.P.tys[v.ty].k == "uint" else int(a[0])
            return f(*a)
        except (ZeroDivisionError, ValueError, OverflowError) as x:
            raise Undecided("%s: %s" % (v.op, x))






NUMERIC = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "Div": lambda a, b: a / b, "Rem": math.fmod, "Neg": lambda a: -a,
    "cast": None, "min": min, "max": max, "mul_add": lambda a, b, c: a * b + c, "powi": pow, "powf": pow, "recip": lambda a: 1 / a,
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "exp2": lambda a: 2.0 ** a, "ln": math.log, "sqrt": math.sqrt, "abs": abs,
    "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "fract": lambda a: a - math.trunc(a), "round": lambda a: math.floor(abs(a) + 0.5) * (1 if a >= 0 else -1),
    "rem_euclid": lambda a, b: a - abs(b) * math.floor(a / abs(b)), "tanh": math.tanh,
    "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b, "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b,
    "Not": lambda a: not a,
}
NUMERIC["cast"] = float
