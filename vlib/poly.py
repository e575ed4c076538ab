"""Polynomials over the atoms of a z3 term: clears reciprocal and square root atoms.

Used to simplify equalities before the solver decides them: a term P(x, r) with r*D == 1
vanishes exactly if D**deg * P with r*D replaced by one does, and s*s is replaced by the
radicand of s."""
from __future__ import annotations

from fractions import Fraction

import z3

LIMIT = 40000


class TooBig(Exception):
    pass


def _mul(p, q):
    r = {}
    if len(p) * len(q) > 40 * LIMIT:
        raise TooBig
    for m, a in p.items():
        for n, b in q.items():
            d = dict(m)
            for k, e in n:
                d[k] = d.get(k, 0) + e
            t = tuple(sorted(d.items()))
            v = r.get(t, 0) + a * b
            if v:
                r[t] = v
            else:
                r.pop(t, None)
    if len(r) > LIMIT:
        raise TooBig
    return r


def _add(p, q):
    r = dict(p)
    for m, b in q.items():
        v = r.get(m, 0) + b
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _frac(t):
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


class Reader:
    def __init__(self):
        self.atoms = {}

    def read(self, t):
        if z3.is_rational_value(t):
            v = _frac(t)
            return {(): v} if v else {}
        if z3.is_add(t):
            r = {}
            for c in t.children():
                r = _add(r, self.read(c))
            return r
        if z3.is_sub(t):
            cs = t.children()
            r = self.read(cs[0])
            for c in cs[1:]:
                r = _add(r, _mul({(): Fraction(-1)}, self.read(c)))
            return r
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            return _mul({(): Fraction(-1)}, self.read(t.arg(0)))
        if z3.is_mul(t):
            r = {(): Fraction(1)}
            for c in t.children():
                r = _mul(r, self.read(c))
            return r
        if z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_rational_value(t.arg(1)):
            e = _frac(t.arg(1))
            if e.denominator == 1 and 0 <= e <= 12:
                b, r = self.read(t.arg(0)), {(): Fraction(1)}
                for _ in range(int(e)):
                    r = _mul(r, b)
                return r
        i = t.get_id()
        self.atoms[i] = t
        return {((i, 1),): Fraction(1)}


def _by_power(p, atom):
    """Coefficients of the powers of an atom."""
    out = {}
    for m, a in p.items():
        d = dict(m)
        k = d.pop(atom, 0)
        out.setdefault(k, {})[tuple(sorted(d.items()))] = a
    return out


def vanishes(t, ideal):
    """Whether t is zero modulo the definitions (kind, atom, term), oldest first."""
    rd = Reader()
    try:
        p = rd.read(t)
        for kind, atom, term in reversed(ideal):
            c = _by_power(p, atom.get_id())
            top = max(c) if c else 0
            if top == 0:
                continue
            d = rd.read(term)
            if kind == "inv":
                r, w = {}, {(): Fraction(1)}
                for k in range(top, -1, -1):
                    if k in c:
                        r = _add(r, _mul(c[k], w))
                    w = _mul(w, d) if k else w
                p = r
            else:
                s = {((atom.get_id(), 1),): Fraction(1)}
                r = {}
                for k, q in c.items():
                    for _ in range(k // 2):
                        q = _mul(q, d)
                    r = _add(r, _mul(q, s) if k % 2 else q)
                p = r
            if not p:
                return True
        return not p
    except TooBig:
        return False
