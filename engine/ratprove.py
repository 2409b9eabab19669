"""Equality of terms by congruence closure modulo polynomial identities.

Function applications are compared bottom-up: two applications of the same function are merged when the differences of
their arguments are identically zero as rational functions over the (merged) atoms, with root_n(x)^n = x.  Exact
rational arithmetic (sympy sparse polynomials); a floating-point evaluation at a random point only selects candidates.
Divisors are taken to be non-zero (definedness is a separate obligation).
"""
import random
from fractions import Fraction as F
from . import terms as t

class TooBig(Exception):
    pass


class Rat:
    LIMIT = 60000

    def __init__(self):
        self.rep = {}          # atom id -> generator index
        self.gens = []         # generator index -> description
        self.classes = {}      # (op, fname) -> list of (args, generator)
        self.roots = {}        # generator -> (n, fraction)
        self.val = {}          # generator -> random value mod PRIME
        self.memo = {}
        self.rng = random.Random(7)

    # polynomials: dict exponent-tuple (sorted ((gen, exp), ...)) -> Fraction
    def pone(self):
        return {(): F(1)}

    def padd(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mmul(self, m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for g, e in m2:
            d[g] = d.get(g, 0) + e
        return tuple(sorted(d.items()))

    def pmul(self, a, b):
        if len(a) * len(b) > 4000000:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > self.LIMIT:
            raise TooBig()
        return r

    def ppow(self, a, n):
        r = self.pone()
        for _ in range(n):
            r = self.pmul(r, a)
        return r

    # fraction: (num, {factor-key: (poly, exp)}) with denominators kept factored
    def frac_add(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if not n1:
            return b
        if not n2:
            return a
        d = dict(d1)
        for k, (p, e) in d2.items():
            if k not in d or d[k][1] < e:
                d[k] = (p, e)
        m1, m2 = n1, n2
        for k, (p, e) in d.items():
            e1 = d1[k][1] if k in d1 else 0
            e2 = d2[k][1] if k in d2 else 0
            if e > e1:
                m1 = self.pmul(m1, self.ppow(p, e - e1))
            if e > e2:
                m2 = self.pmul(m2, self.ppow(p, e - e2))
        return self.padd(m1, m2), d

    def frac_mul(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if not n1 or not n2:
            return {}, {}
        d = dict(d1)
        for k, (p, e) in d2.items():
            d[k] = (p, d[k][1] + e) if k in d else (p, e)
        # cancel whole factors
        n1, d = self.cancel(n1, d)
        n2, d = self.cancel(n2, d)
        return self.pmul(n1, n2), d

    def cancel(self, n, d):
        k = self.key(n)
        if k[0] in d:
            p, e = d[k[0]]
            d = dict(d)
            if e == 1:
                del d[k[0]]
            else:
                d[k[0]] = (p, e - 1)
            return {(): k[1]}, d
        return n, d

    def key(self, p):
        """(hashable of the monic polynomial, leading coefficient)"""
        items = sorted(p.items())
        lead = items[0][1]
        return (tuple((m, c / lead) for m, c in items), lead)

    def frac_inv(self, a):
        n, d = a
        if not n:
            raise ZeroDivisionError
        num = self.pone()
        for k, (p, e) in d.items():
            num = self.pmul(num, self.ppow(p, e))
        if len(n) == 1:
            (m, c), = n.items()
            den = {}
            for g, e in m:
                gp = {((g, 1),): F(1)}
                den[self.key(gp)[0]] = (gp, e)
            return {mm: cc / c for mm, cc in num.items()}, den
        # pull the monomial content out
        common = None
        for m in n:
            dm = dict(m)
            common = dm if common is None else {g: min(e, dm[g]) for g, e in common.items() if g in dm}
        den = {}
        if common:
            nn = {}
            for m, c in n.items():
                dm = dict(m)
                for g, e in common.items():
                    dm[g] -= e
                nn[tuple(sorted((g, e) for g, e in dm.items() if e))] = c
            n = nn
            for g, e in common.items():
                gp = {((g, 1),): F(1)}
                den[self.key(gp)[0]] = (gp, e)
        k, lead = self.key(n)
        den[k] = ({m: c / lead for m, c in n.items()}, 1)
        return {m: c / lead for m, c in num.items()}, den

    # -- evaluation at a random point (candidate selection only)
    def hval(self, fr):
        n, d = fr
        v = self.pval(n)
        for k, (p, e) in d.items():
            x = self.pval(p)
            if abs(x) < 1e-12:
                return None
            v = v / x ** e
        return v

    def pval(self, p):
        s = 0
        for m, c in p.items():
            v = float(c)
            for g, e in m:
                v = v * self.val[g] ** e
            s += v
        return s

    def near(self, a, b):
        if a is None or b is None:
            return True
        return abs(a - b) <= 1e-7 * max(1e-9, abs(a), abs(b))

    # -- terms
    def frac(self, p):
        r = self.memo.get(p.id)
        if r is not None:
            return r
        if t.is_bool(p):
            raise TooBig()
        acc = ({}, {})
        for m, c in p.args:
            f = ({(): c}, {})
            for a, e in m:
                x = self.atom(a)
                if e < 0:
                    x = self.frac_inv(x)
                for _ in range(abs(e)):
                    f = self.frac_mul(f, x)
            acc = self.frac_add(acc, f)
        acc = self.reduce(acc)
        self.memo[p.id] = acc
        return acc

    def reduce(self, fr):
        """root_n(x)^n -> x"""
        for _ in range(20):
            n, d = fr
            hit = None
            for m in n:
                for g, e in m:
                    if g in self.roots and e >= self.roots[g][0]:
                        hit = g
                        break
                if hit is not None:
                    break
            if hit is None:
                break
            k, base = self.roots[hit]
            by = {}
            for m, c in n.items():
                e = dict(m).get(hit, 0)
                q, rem = divmod(e, k)
                mm = tuple(sorted([(g, x) for g, x in m if g != hit] + ([(hit, rem)] if rem else [])))
                by.setdefault(q, {})
                by[q][mm] = by[q].get(mm, 0) + c
            acc = ({}, {})
            for q, p in by.items():
                f = ({m: c for m, c in p.items() if c}, d)
                for _ in range(q):
                    f = self.frac_mul(f, base)
                acc = self.frac_add(acc, f)
            fr = acc
        return fr

    def gen(self, desc):
        self.gens.append(desc)
        g = len(self.gens) - 1
        self.val[g] = self.rng.uniform(0.5, 1.5)
        return g

    def gfrac(self, g):
        return ({((g, 1),): F(1)}, {})

    def atom(self, a):
        if a.op == 'paren':
            return self.frac(a.args[0])
        r = self.rep.get(a.id)
        if r is None:
            r = self.rep[a.id] = self.make(a)
        return r

    def make(self, a):
        if a.op == 'app':
            args = [self.frac(x) if not t.is_bool(x) else None for x in a.args[1:]]
            if any(x is None for x in args):
                return self.gfrac(self.gen(a))
            hv = tuple(self.hval(x) for x in args)
            key = (a.args[0], len(args))
            for oargs, ohv, g in self.classes.setdefault(key, []):
                if all(self.near(x, y) for x, y in zip(hv, ohv)) and all(self.equal(x, y) for x, y in zip(args, oargs)):
                    return self.gfrac(g)
            g = self.gen(a)
            self.classes[key].append((args, hv, g))
            if a.args[0].startswith('root') and a.args[0][4:].isdigit():
                self.roots[g] = (int(a.args[0][4:]), args[0])
                if hv[0] is not None:
                    self.val[g] = complex(hv[0]) ** (1.0 / int(a.args[0][4:]))
            return self.gfrac(g)
        return self.gfrac(self.gen(a))

    def equal(self, x, y):
        n, d = self.frac_add(x, ({m: -c for m, c in y[0].items()}, y[1]))
        n, d = self.reduce((n, d))
        return not n

    def is_zero(self, p):
        fr = self.frac(p)
        return not fr[0]


def rat_equal(p):
    """is the term identically zero (for all values of its atoms, divisors non-zero)?"""
    try:
        return Rat().is_zero(p)
    except (TooBig, ZeroDivisionError, RecursionError):
        return False


def rat_goal(goal):
    if goal.op == 'eq0':
        return rat_equal(goal.args[0])
    if goal.op == 'and':
        return all(rat_goal(g) for g in goal.args)
    if goal.op == 'or':
        return any(rat_goal(g) for g in goal.args)
    return goal is t.TRUE
