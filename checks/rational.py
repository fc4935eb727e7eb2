"""Rational functions of terms: equality by cross multiplication of polynomials."""
from flow import *


class Odd(Exception):
    """a square root is left over"""


class Rational:
    def __init__(self, prepare=lambda e: e, assume=None):
        self.prepare, self.assume = prepare, assume or (lambda c: None)
        self.roots = {}

    # polynomials: {monomial (sorted tuple of (atom, power)): coefficient}
    @staticmethod
    def const(n):
        return {(): Fraction(n)} if n else {}

    @staticmethod
    def add(p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            r[m] = r.get(m, 0) + s * c
            if not r[m]:
                del r[m]
        return r

    @staticmethod
    def mul(p, q):
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                d = dict(m1)
                for a, n in m2:
                    d[a] = d.get(a, 0) + n
                m = tuple(sorted(d.items(), key=repr))
                r[m] = r.get(m, 0) + c1 * c2
                if not r[m]:
                    del r[m]
        return r

    def frac(self, e):
        """(numerator, denominator)"""
        e = self.prepare(e)
        if isc(e):
            return self.const(e[1]), self.const(1)
        if e[0] == "op" and len(e) == 4 and e[1] in ("+", "-", "*", "/"):
            (a, b), (c, d) = self.frac(e[2]), self.frac(e[3])
            if e[1] == "*":
                return self.mul(a, c), self.mul(b, d)
            if e[1] == "/":
                return self.mul(a, d), self.mul(b, c)
            if b == d:
                return self.add(a, c, 1 if e[1] == "+" else -1), b
            return self.add(self.mul(a, d), self.mul(c, b), 1 if e[1] == "+" else -1), self.mul(b, d)
        if e[0] == "call" and e[1] == "pow" and isc(e[3]) and e[3][1] in (2, 3, 4):
            a, b = self.frac(e[2])
            n, d = a, b
            for _ in range(int(e[3][1]) - 1):
                n, d = self.mul(n, a), self.mul(d, b)
            return n, d
        if e[0] == "call" and e[1] in ("sqrt", "sqrtf", "sqrtl"):
            r = ("root", e[2])
            self.roots[r] = self.frac(e[2])
            return {((r, 1),): Fraction(1)}, self.const(1)
        if e[0] == "ite":
            c = self.assume(e[1])
            if c is not None:
                return self.frac(e[2] if c else e[3])
        return {((e, 1),): Fraction(1)}, self.const(1)

    def squared(self, e):
        n, d = self.frac(e)
        n, d = self.mul(n, n), self.mul(d, d)
        return self.unroot((n, d))

    def unroot(self, f):
        """even powers of square roots replaced"""
        for _ in range(8):
            n, d = f
            rs = sorted({a for p in (n, d) for m in p for a, _ in m if a in self.roots}, key=repr)
            if not rs:
                return f
            f = self.drop(n, d, rs[0])
        raise Odd

    def drop(self, n, d, r):
        a, b = self.roots[r]
        out = []
        top = max([k for p in (n, d) for m in p for x, k in m if x == r] + [0])
        if top % 2:
            raise Odd
        for p in (n, d):
            # p(r^2) multiplied by b^(top/2)
            q = {}
            for m, c in p.items():
                k = dict(m).get(r, 0)
                if k % 2:
                    raise Odd
                t = {tuple(x for x in m if x[0] != r): c}
                for _ in range(k // 2):
                    t = self.mul(t, a)
                for _ in range(top // 2 - k // 2):
                    t = self.mul(t, b)
                q = self.add(q, t)
            out.append(q)
        return out[0], out[1]

    def equal(self, f, g):
        return bool(f[1] and g[1]) and self.mul(f[0], g[1]) == self.mul(g[0], f[1])

    @staticmethod
    def key(p):
        """a polynomial as a hashable term"""
        return ("poly",) + tuple(sorted(p.items(), key=repr))
