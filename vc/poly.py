"""Polynomial normal form of 64-bit terms (modulo 2^64): {monomial (sorted atom ids): coefficient}."""
from math import gcd
import z3
from sym import bv

M = (1 << 64) - 1


class Poly:
    __slots__ = ("t", "atoms")

    def __init__(self, t=None, atoms=None):
        self.t = {k: v & M for k, v in (t or {}).items() if v & M}
        self.atoms = atoms or {}

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def atom(e):
        return Poly({(e.get_id(),): 1}, {e.get_id(): e})

    def _at(self, o):
        d = dict(self.atoms)
        d.update(o.atoms)
        return d

    def __add__(self, o):
        d = dict(self.t)
        for k, v in o.t.items():
            d[k] = d.get(k, 0) + v
        return Poly(d, self._at(o))

    def scale(self, c):
        return Poly({k: v * c for k, v in self.t.items()}, self.atoms)

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        d = {}
        for k, v in self.t.items():
            for k2, v2 in o.t.items():
                m = tuple(sorted(k + k2))
                d[m] = d.get(m, 0) + v * v2
        return Poly(d, self._at(o))

    def is_zero(self):
        return not self.t

    def const_value(self):
        """int or None"""
        if not self.t:
            return 0
        return self.t[()] if list(self.t) == [()] else None

    def mentions(self, e):
        i = e.get_id()
        return any(i in k for k in self.t)

    def split(self, e):
        """self == a*e + b with a, b free of e; None if of higher degree"""
        i = e.get_id()
        a, b = {}, {}
        for k, v in self.t.items():
            c = k.count(i)
            if c == 0:
                b[k] = v
            elif c == 1:
                l = list(k)
                l.remove(i)
                a[tuple(l)] = v
            else:
                return None
        return Poly(a, self.atoms), Poly(b, self.atoms)

    def term(self):
        r = None
        for k, v in sorted(self.t.items()):
            x = None
            for i in k:
                x = self.atoms[i] if x is None else x * self.atoms[i]
            if x is None:
                x = z3.BitVecVal(v, 64)
            elif v != 1:
                x = x * z3.BitVecVal(v, 64)
            r = x if r is None else r + x
        return r if r is not None else z3.BitVecVal(0, 64)


def poly(e):
    e = bv(e, 64)
    if z3.is_bv_value(e):
        return Poly.const(e.as_long())
    k = e.decl().kind()
    if k == z3.Z3_OP_BADD:
        r = Poly()
        for c in e.children():
            r = r + poly(c)
        return r
    if k == z3.Z3_OP_BSUB:
        ch = e.children()
        r = poly(ch[0])
        for c in ch[1:]:
            r = r - poly(c)
        return r
    if k == z3.Z3_OP_BNEG:
        return poly(e.arg(0)).scale(-1)
    if k == z3.Z3_OP_BMUL:
        r = Poly.const(1)
        for c in e.children():
            r = r * poly(c)
        return r
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
        s = e.arg(1).as_long()
        return poly(e.arg(0)).scale(1 << s) if s < 64 else Poly()
    if k == z3.Z3_OP_CONCAT:
        ch = e.children()
        z = ch[-1]
        if len(ch) == 2 and z3.is_bv_value(z) and z.as_long() == 0:
            s = z.size()
            h = ch[0]
            if z3.is_app_of(h, z3.Z3_OP_EXTRACT) and h.params() == [63 - s, 0]:
                return poly(h.arg(0)).scale(1 << s)
    return Poly.atom(e)


def signed(p):
    return {k: (v - (1 << 64) if v >> 63 else v) for k, v in p.t.items()}


def divide(e, d):
    """q with e == q * d modulo 2^64, or None"""
    p = poly(e)
    s = signed(p)
    if not all(v % d == 0 for v in s.values()):
        return None
    return Poly({k: v // d for k, v in s.items()}, p.atoms).term()


def cancel_odd(x, y):
    """(x', y') with x == y iff x' == y' (multiplication by an odd number is a bijection modulo 2^64)"""
    p = poly(x) - poly(y)
    s = signed(p)
    g = 0
    for v in s.values():
        g = gcd(g, v)
    while g and g % 2 == 0:
        g //= 2
    if g <= 1 or len(s) < 2:
        return x, y
    pos = Poly({k: v // g for k, v in s.items() if v > 0}, p.atoms)
    neg = Poly({k: -v // g for k, v in s.items() if v < 0}, p.atoms)
    return pos.term(), neg.term()
