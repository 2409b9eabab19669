"""Hash-consed logical terms over the reals, in a canonical (Laurent-polynomial) form.

Numeric values are nodes with op 'poly': a finite sum  sum_i c_i * prod_j atom_j^e_ij  with rational c_i
and integer (possibly negative) exponents.  Atoms are
  var     free symbol                       args = (name, isint)
  app     uninterpreted / axiomatised function application, args = (fname, arg-polys...)
  ite     if-then-else on numbers           args = (cond, a, b)
  pos     max(0, p)                         args = (p,)
  paren   a multi-term polynomial, so that its inverse / large products can be named; args = (p,)
  sum     sum_{k=0}^{N-1} body(k)           args = (bound var atom, body, N)
  lam     a list as an object               args = (bound var atom, body, N)   (only inside app)
Boolean nodes: true false le0(p) eq0(p) not and or bvar.
All simplifications are valid identities of the reals at every point where the Python expression that
produced the term is defined (divisor non-zero, radicand non-negative, ...); definedness is a separate
family of obligations.
"""
from fractions import Fraction as F
import math

_table = {}
_next = [0]


class T:
    __slots__ = ('op', 'args', 'id', 'isint', '__weakref__')

    def __repr__(self):
        return show(self)

    # arithmetic operators (spec functions are written with ordinary Python operators)
    def __add__(self, o): return add(self, num(o))
    def __radd__(self, o): return add(num(o), self)
    def __sub__(self, o): return sub(self, num(o))
    def __rsub__(self, o): return sub(num(o), self)
    def __mul__(self, o): return mul(self, num(o))
    def __rmul__(self, o): return mul(num(o), self)
    def __truediv__(self, o): return div(self, num(o))
    def __rtruediv__(self, o): return div(num(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, o): return power(self, num(o))
    def __lt__(self, o): return lt(self, num(o))
    def __le__(self, o): return le(self, num(o))
    def __gt__(self, o): return lt(num(o), self)
    def __ge__(self, o): return le(num(o), self)


def mk(op, args, isint=False):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _next[0]
        _next[0] += 1
        t.isint = isint
        _table[key] = t
    return t


# ------------------------------------------------------------------ polynomials
def _monokey(m):
    return tuple((a.id, e) for a, e in m)


def _poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: _monokey(mc[0]))
    isint = all(c.denominator == 1 and all(a.isint and e > 0 for a, e in m) for m, c in items)
    return mk('poly', tuple(items), isint)


def const(c):
    return _poly({(): F(c)})


def from_atom(a):
    return _poly({((a, 1),): F(1)})


ZERO = const(0)
ONE = const(1)


def num(x):
    if isinstance(x, T):
        if is_bool(x):
            return ite(x, ONE, ZERO)
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return const(x)
    if isinstance(x, F):
        return const(x)
    if isinstance(x, float):
        return const(F(repr(x)))      # the decimal the programmer wrote
    raise TypeError(x)


def is_bool(t):
    return t.op in ('true', 'false', 'le0', 'eq0', 'not', 'and', 'or', 'bvar')


def is_const(p):
    return p.op == 'poly' and (not p.args or (len(p.args) == 1 and p.args[0][0] == ()))


def cval(p):
    if not p.args:
        return F(0)
    return p.args[0][1]


def var(name, isint=False):
    return from_atom(mk('var', (name, isint), isint))


def add(p, q):
    if not p.args:
        return q
    if not q.args:
        return p
    d = dict(p.args)
    for m, c in q.args:
        d[m] = d.get(m, 0) + c
    return _poly(d)


def neg(p):
    return scale(p, F(-1))


def sub(p, q):
    return add(p, neg(q))


def scale(p, c):
    if c == 1:
        return p
    if c == 0:
        return ZERO
    return _poly({m: k * c for m, k in p.args})


BIG = 400


def _root_n(a):
    """n if atom a is an n-th root application"""
    if a.op == 'app' and a.args[0].startswith('root'):
        return int(a.args[0][4:])
    return None


def _mono_mul(m1, m2):
    """product of two monomials -> (mono, list of extra poly factors)"""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return _mono_norm(d)


def _mono_norm(d):
    extra = []
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        n = _root_n(a)
        if n is not None and abs(e) >= n:
            k = int(e / n)          # toward zero
            extra.append((a.args[1], k))
            e -= k * n
            if e == 0:
                continue
        elif a.op == 'paren' and e > 0 and len(a.args[0].args) ** e <= BIG:
            extra.append((a.args[0], e))
            continue
        out.append((a, e))
    out.sort(key=lambda ae: ae[0].id)
    return tuple(out), extra


def mul(p, q):
    if not p.args or not q.args:
        return ZERO
    if is_const(p):
        return scale(q, cval(p))
    if is_const(q):
        return scale(p, cval(q))
    # cancellation of a parenthesised factor
    for a, b in ((p, q), (q, p)):
        if len(a.args) == 1 and len(b.args) > 1:
            m, c = a.args[0]
            if any(x.op == 'paren' and e < 0 for x, e in m):
                cb, mb, pb = factor(b)
                for i, (x, e) in enumerate(m):
                    if x.op == 'paren' and e < 0 and x.args[0] is pb:
                        d = dict(m)
                        d[x] = e + 1
                        mm, extra = _mono_norm(d)
                        r = _poly({mm: c})
                        for ep, ee in extra:
                            r = mul(r, powi(ep, ee))
                        return mul(scale(r, cb), _poly({mb: F(1)}))
    if len(p.args) * len(q.args) > BIG:
        # keep the product factored: name the larger polynomial(s)
        if len(p.args) > 1:
            p = _named(p)
        if len(q.args) > 1:
            q = _named(q)
        d = {}
        for a, e in p.args[0][0] + q.args[0][0]:
            d[a] = d.get(a, 0) + e
        out = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))
        return _poly({out: p.args[0][1] * q.args[0][1]})
    d = {}
    extras = []
    for m1, c1 in p.args:
        for m2, c2 in q.args:
            m, ex = _mono_mul(m1, m2)
            if ex:
                extras.append((m, c1 * c2, ex))
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = _poly(d)
    for m, c, ex in extras:
        t = _poly({m: c})
        for ep, ee in ex:
            t = mul(t, powi(ep, ee))
        r = add(r, t)
    return r


def _named(p):
    c, m, q = factor(p)
    a = mk('paren', (q,), q.isint)
    d = dict(m)
    d[a] = d.get(a, 0) + 1
    out = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda ae: ae[0].id))
    return _poly({out: c})


def factor(p):
    """p = c * mono * q with q having leading coefficient 1 and no common monomial factor"""
    if len(p.args) == 1:
        m, c = p.args[0]
        return c, m, ONE
    common = None
    for m, c in p.args:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for a in list(common):
                common[a] = min(common[a], d.get(a, 0))
            for a in d:
                if a not in common:
                    common[a] = min(0, d[a])
    common = {a: e for a, e in common.items() if e}
    lead = None
    if common:
        inv = {a: -e for a, e in common.items()}
        nd = {}
        for m, c in p.args:
            d = dict(m)
            for a, e in inv.items():
                d[a] = d.get(a, 0) + e
            mm = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))
            nd[mm] = c
        q = _poly(nd)
    else:
        q = p
    lead = q.args[0][1]
    # choose a lead that is stable under sign: first monomial in canonical order
    q = scale(q, 1 / lead)
    cm = tuple(sorted(((a, e) for a, e in common.items()), key=lambda ae: ae[0].id))
    return lead, cm, q


def inv(q):
    if is_const(q):
        c = cval(q)
        if c == 0:
            return from_atom(mk('app', ('undef', ONE)))
        return const(1 / c)
    c, m, r = factor(q)
    d = {a: -e for a, e in m}
    mm, extra = _mono_norm(d)
    res = _poly({mm: 1 / c})
    for ep, ee in extra:
        res = mul(res, powi(ep, ee))
    if r is not ONE:
        a = mk('paren', (r,), r.isint)
        res = mul(res, _poly({((a, -1),): F(1)}))
    return res


def div(p, q):
    if is_const(q) and cval(q) != 0:
        return scale(p, 1 / cval(q))
    if len(q.args) > 1:
        c1, m1, r1 = factor(q)
        c2, m2, r2 = factor(p) if p.args else (F(0), (), ONE)
        if p.args and r1 is r2:
            return div(_poly({m2: c2}), _poly({m1: c1}))
    return mul(p, inv(q))


def powi(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(p, -n))
    if n == 1:
        return p
    if len(p.args) == 1:
        m, c = p.args[0]
        mm, extra = _mono_norm({a: e * n for a, e in m})
        r = _poly({mm: c ** n})
        for ep, ee in extra:
            r = mul(r, powi(ep, ee))
        return r
    h = powi(p, n // 2)
    r = mul(h, h)
    return mul(r, p) if n % 2 else r


def nonneg(p):
    """syntactically non-negative"""
    for m, c in p.args:
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            if not atom_nonneg(a):
                return False
    return True


def atom_nonneg(a):
    if a.op == 'pos':
        return True
    if a.op == 'var' and a.args[0][:1] == '#':      # index bound by a sum or list
        return True
    if a.op == 'app' and (a.args[0] in ('exp',) or a.args[0].startswith('root') or a.args[0] in ('csqrt_re',)):
        return True
    if a.op == 'ite':
        return nonneg(a.args[1]) and nonneg(a.args[2])
    if a.op == 'paren':
        return nonneg(a.args[0])
    return False


def root(p, n):
    if n == 1:
        return p
    if is_const(p):
        c = cval(p)
        if c >= 0:
            a, b = _iroot(c.numerator, n), _iroot(c.denominator, n)
            if a is not None and b is not None:
                return const(F(a, b))
    if len(p.args) == 1:
        m, c = p.args[0]
        # pull out exact powers of atoms known non-negative, and perfect constants
        out, rest = [], []
        for a, e in m:
            k = e // n if e > 0 else -((-e) // n)
            if k and atom_nonneg(a):
                out.append((a, k))
                e -= k * n
            if e:
                rest.append((a, e))
        if out:
            o = _poly({tuple(sorted(out, key=lambda ae: ae[0].id)): F(1)})
            return mul(o, root(_poly({tuple(rest): c}), n))
        # sqrt(x^2) = |x|
        if n % 2 == 0 and m and all(e % n == 0 for a, e in m):
            cc = root(const(c), n) if c >= 0 else None
            if cc is not None and is_const(cc):
                return mul(cc, absv(_poly({tuple((a, e // n) for a, e in m): F(1)})))
    return app('root%d' % n, p)


def _iroot(k, n):
    if k < 0:
        return None
    r = round(k ** (1.0 / n)) if k < 10 ** 15 else None
    if r is None:
        return None
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** n == k:
            return x
    return None


def power(p, e):
    if is_const(e):
        c = cval(e)
        if c.denominator == 1 and abs(c) <= 64:
            return powi(p, int(c))
        if c.denominator <= 12:
            return powi(root(p, c.denominator), int(c.numerator))
    return app('pow', p, e)


# ------------------------------------------------------------------ functions
FLOATFUN = {}


def app(f, *args):
    args = tuple(num(a) if not isinstance(a, T) else a for a in args)
    a0 = args[0] if args else None
    isint = False
    if f == 'exp':
        if a0 is ZERO:
            return ONE
    elif f == 'log':
        if a0 is ONE:
            return ZERO
        # log of a constant stays symbolic
    elif f in ('sin', 'cos'):
        if a0 is ZERO:
            return ZERO if f == 'sin' else ONE
        if a0.args[0][1] < 0:
            r = app(f, neg(a0))
            return neg(r) if f == 'sin' else r
    elif f == 'floor':
        if a0.isint:
            return a0
        if is_const(a0):
            return const(math.floor(cval(a0)))
        ip, rp = {}, {}
        for m, c in a0.args:
            if m == ():
                fl = F(math.floor(c))
                if fl:
                    ip[m] = fl
                if c - fl:
                    rp[m] = c - fl
            elif c.denominator == 1 and all(a.isint and e > 0 for a, e in m):
                ip[m] = c
            else:
                rp[m] = c
        if ip:
            return add(_poly(ip), app('floor', _poly(rp)))
        isint = True
    elif f == 'round0':
        if a0.isint:
            return a0
        isint = True
    elif f.startswith('round') and is_const(a0):
        pass
    if f in INTFUN:
        isint = True
    return from_atom(mk('app', (f,) + args, isint))


INTFUN = set()


def exp(p): return app('exp', num(p))
def log(p): return app('log', num(p))
def sqrt(p): return root(num(p), 2)


def pos(p):
    p = num(p)
    if is_const(p):
        return const(max(F(0), cval(p)))
    if nonneg(p):
        return p
    if nonneg(neg(p)):
        return ZERO
    lead = p.args[0][1]
    if p.args[0][0] == () and len(p.args) > 1:
        lead = p.args[1][1]
    if lead < 0:
        return add(pos(neg(p)), p)
    if lead != 1:
        return scale(pos(scale(p, 1 / lead)), lead)
    return from_atom(mk('pos', (p,), p.isint))


def maxv(a, b):
    a, b = num(a), num(b)
    return add(b, pos(sub(a, b)))


def minv(a, b):
    a, b = num(a), num(b)
    return sub(a, pos(sub(a, b)))


def absv(a):
    a = num(a)
    return sub(scale(pos(a), F(2)), a)


def trunc(p):
    if p.isint:
        return p
    if nonneg(p):
        return app('floor', p)
    return ite(le(ZERO, p), app('floor', p), neg(app('floor', neg(p))))


# ------------------------------------------------------------------ booleans
TRUE = mk('true', ())
FALSE = mk('false', ())


def boolc(b):
    return TRUE if b else FALSE


def bvar(name):
    return mk('bvar', (name,))


def _ite_atom(p):
    """p = c0 + c1*ite(..)  with constants -> (c0, c1, iteatom)"""
    if len(p.args) == 1 and p.args[0][0] != ():
        m, c = p.args[0]
        c0 = F(0)
    elif len(p.args) == 2 and p.args[0][0] == ():
        c0 = p.args[0][1]
        m, c = p.args[1]
    else:
        return None
    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite':
        a = m[0][0]
        if _const_leaves(a.args[1]) or _const_leaves(a.args[2]):
            return c0, c, a
    return None


def _const_leaves(p):
    if is_const(p):
        return True
    r = None
    if len(p.args) <= 2:
        r = _ite_atom_loose(p)
    return r is not None and _const_leaves(r[2].args[1]) and _const_leaves(r[2].args[2])


def _ite_atom_loose(p):
    if len(p.args) == 1 and p.args[0][0] != ():
        m, c = p.args[0]
        c0 = F(0)
    elif len(p.args) == 2 and p.args[0][0] == ():
        c0 = p.args[0][1]
        m, c = p.args[1]
    else:
        return None
    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite':
        return c0, c, m[0][0]
    return None


def _norm_cmp(p):
    """scale to leading |coefficient| 1 (or primitive integer when integral)"""
    lead = None
    for m, c in p.args:
        if m != ():
            lead = c
            break
    if lead is None:
        return p
    # try primitive integer scaling
    den = 1
    for m, c in p.args:
        den = den * c.denominator // math.gcd(den, c.denominator)
    q = scale(p, F(den))
    if q.isint:
        g = 0
        for m, c in q.args:
            if m != ():
                g = math.gcd(g, int(abs(c)))
        if g > 1:
            d = {}
            for m, c in q.args:
                d[m] = c / g
            q = _poly(d)
        return q
    return scale(p, 1 / abs(lead))


def le0(p):
    if is_const(p):
        return boolc(cval(p) <= 0)
    ia = _ite_atom(p)
    if ia:
        c0, c, a = ia
        return or_(and_(a.args[0], le0(add(const(c0), scale(a.args[1], c)))),
                   and_(not_(a.args[0]), le0(add(const(c0), scale(a.args[2], c)))))
    if nonneg(neg(p)):
        return TRUE
    p = _norm_cmp(p)
    if _int_shape(p):
        # integral variables, maybe fractional constant: tighten
        c0 = p.args[0][1] if p.args[0][0] == () else F(0)
        c1 = F(math.ceil(c0))
        if c1 != c0:
            p = add(p, const(c1 - c0))
    return mk('le0', (p,))


def _int_shape(p):
    return all(m == () or (c.denominator == 1 and all(a.isint and e > 0 for a, e in m)) for m, c in p.args)


def lt0(p):
    q = _norm_cmp(p)
    if q.isint:
        return le0(add(q, ONE))
    return not_(le0(neg(p)))


def eq0(p):
    if is_const(p):
        return boolc(cval(p) == 0)
    ia = _ite_atom(p)
    if ia:
        c0, c, a = ia
        return or_(and_(a.args[0], eq0(add(const(c0), scale(a.args[1], c)))),
                   and_(not_(a.args[0]), eq0(add(const(c0), scale(a.args[2], c)))))
    # a strictly positive sum cannot vanish
    if p.args[0][0] == () and p.args[0][1] > 0 and nonneg(p):
        return FALSE
    if p.args[0][0] == () and p.args[0][1] < 0 and nonneg(neg(p)):
        return FALSE
    p = _norm_cmp(p)
    if _int_shape(p) and not p.isint:
        return FALSE
    lead = next(c for m, c in p.args if m != ())
    if lead < 0:
        p = neg(p)
    return mk('eq0', (p,))


def le(a, b): return le0(sub(num(a), num(b)))
def lt(a, b): return lt0(sub(num(a), num(b)))


def eq(a, b):
    if isinstance(a, T) and isinstance(b, T) and is_bool(a) and is_bool(b):
        return iff(a, b)
    return eq0(sub(num(a), num(b)))


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'and':
        return or_(*[not_(x) for x in b.args])
    if b.op == 'or':
        return and_(*[not_(x) for x in b.args])
    if b.op == 'le0' and b.args[0].isint:
        return le0(sub(ONE, b.args[0]))
    return mk('not', (b,))


def _nary(op, unit, zero, bs):
    seen = {}
    for b in bs:
        if b is unit:
            continue
        if b is zero:
            return zero
        if b.op == op:
            for x in b.args:
                seen[x] = 1
        else:
            seen[b] = 1
    for x in list(seen):
        if not_atom(x) in seen:
            return zero
    # absorption:  a and (a or b) = a ;  a or (not a and b) = a or b
    other = 'or' if op == 'and' else 'and'
    items = list(seen)
    out = []
    changed = False
    for x in items:
        if x.op == other:
            if any(y in seen for y in x.args):
                changed = True
                continue
            rem = [y for y in x.args if not_atom(y) not in seen]
            if len(rem) != len(x.args):
                changed = True
                out.append((or_ if other == 'or' else and_)(*rem))
                continue
        out.append(x)
    if changed:
        return _nary(op, unit, zero, out)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(op, tuple(sorted(out, key=lambda t: t.id)))


def not_atom(b):
    """negation without expanding and/or (only for complement detection)"""
    if b.op == 'not':
        return b.args[0]
    if b.op == 'le0' and b.args[0].isint:
        return le0(sub(ONE, b.args[0]))
    if b.op in ('and', 'or'):
        return not_(b)
    return mk('not', (b,))


def and_(*bs):
    return _nary('and', TRUE, FALSE, bs)


def or_(*bs):
    return _nary('or', FALSE, TRUE, bs)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    return or_(and_(a, b), and_(not_(a), not_(b)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if is_bool(a) or is_bool(b):
        if is_bool(a) and is_bool(b):
            return or_(and_(c, a), and_(not_(c), b))
        a, b = num(a), num(b)
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'le0':
        p = c.args[0]
        d = sub(a, b)
        k = _ratio(d, p)
        if k is not None:                 # p<=0 ? a : b  with a-b = k*p
            return sub(b, scale(pos(neg(p)), k))
        # x<=y-1 for integers etc.: also try shifted versions
        if p.isint:
            k = _ratio(d, add(p, const(-1)))
            if k is not None:             # p<=0 <=> p-1<0
                return sub(b, scale(pos(neg(add(p, const(-1)))), k))
    # nested same condition
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    # canonical: factor out the common part is not attempted
    if c.op == 'le0' and not c.args[0].isint:
        # orient: keep the condition whose leading coefficient is positive
        pass
    return from_atom(mk('ite', (c, a, b), a.isint and b.isint))


def assume(p, c, val):
    """cheap: top-level ite atoms on the same condition are resolved"""
    if p.op != 'poly':
        return p
    hit = False
    for m, k in p.args:
        for a, e in m:
            if a.op == 'ite' and a.args[0] is c:
                hit = True
    if not hit:
        return p
    r = ZERO
    for m, k in p.args:
        t = const(k)
        for a, e in m:
            if a.op == 'ite' and a.args[0] is c:
                t = mul(t, powi(a.args[1] if val else a.args[2], e))
            else:
                t = mul(t, _poly({((a, e),): F(1)}))
        r = add(r, t)
    return r


def _ratio(d, p):
    """d == k*p for a rational k"""
    if not d.args or len(d.args) != len(p.args):
        return None
    k = d.args[0][1] / p.args[0][1]
    for (m1, c1), (m2, c2) in zip(d.args, p.args):
        if m1 != m2 or c1 != k * c2:
            return None
    return k


# ------------------------------------------------------------------ sums and list objects
def atom_of(p):
    """the atom of a poly that is exactly one atom"""
    m, c = p.args[0]
    assert len(p.args) == 1 and c == 1 and len(m) == 1 and m[0][1] == 1
    return m[0][0]


def binder_level(t, memo=None):
    memo = {} if memo is None else memo
    best = 0
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var' and x.args[0].startswith('#b'):
            best = max(best, int(x.args[0][2:]))
        stack.extend(children(x))
    return best


_fb = {}


def free_bound(x):
    """bound-index variables that occur free in x (x is a fragment from under a binder)"""
    r = _fb.get(x.id)
    if r is None:
        if x.op == 'var':
            r = frozenset([x]) if x.args[0].startswith('#') else frozenset()
        elif x.op in ('sum', 'lam'):
            r = (free_bound(x.args[1]) - {x.args[0]}) | free_bound(x.args[2])
        else:
            r = frozenset()
            for y in children(x):
                r = r | free_bound(y)
        _fb[x.id] = r
    return r


def children(x):
    if x.op == 'poly':
        return [a for m, c in x.args for a, e in m]
    if x.op == 'app':
        return [y for y in x.args[1:] if isinstance(y, T)]
    if x.op in ('var', 'bvar', 'true', 'false'):
        return []
    return [y for y in x.args if isinstance(y, T)]


_tmpc = [0]


def bind(fn, kind, N):
    """build lam/sum from a Python function k -> poly"""
    _tmpc[0] += 1
    tmp = var('#t%d' % _tmpc[0], True)
    body = fn(tmp)
    lv = 1 + max(binder_level(body), 0)
    b = var('#b%d' % lv, True)
    body = subst(body, {atom_of(tmp): b})
    return atom_of(b), body


def lam(fn, N):
    b, body = bind(fn, 'lam', N)
    return from_atom(mk('lam', (b, body, N)))


def sumk(fn, N):
    """sum_{k=0}^{N-1} fn(k), with k-independent factors pulled out of each monomial"""
    b, body = bind(fn, 'sum', N)
    return sum_norm(b, body, N)


def sum_norm(b, body, N):
    r = ZERO
    if is_const(N):
        n = cval(N)
        if n <= 0:
            return ZERO
        if n <= 4 and n.denominator == 1:
            for i in range(int(n)):
                r = add(r, subst(body, {b: const(i)}))
            return r
    for m, c in body.args:
        outer, inner = [], []
        for a, e in m:
            (inner if depends(a, b) else outer).append((a, e))
        o = _poly({tuple(outer): c})
        if not inner:
            r = add(r, mul(o, pos(N) if not nonneg(N) else N))
        else:
            i = _poly({tuple(inner): F(1)})
            r = add(r, mul(o, from_atom(mk('sum', (b, i, N), i.isint))))
    return r


_depmemo = {}


def depends(t, b):
    key = (t.id, b.id)
    r = _depmemo.get(key)
    if r is None:
        if t is b:
            r = True
        else:
            r = any(depends(x, b) for x in children(t))
        _depmemo[key] = r
    return r


# ------------------------------------------------------------------ substitution / rebuild
def rebuild(t, f, memo):
    """bottom-up rebuild; f(atom or bvar) may return a replacement value or None"""
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'poly':
        r = ZERO
        for m, c in t.args:
            x = const(c)
            for a, e in m:
                v = f(a)
                if v is None:
                    v = rebuild(a, f, memo)
                    if v.op != 'poly':
                        v = from_atom(v)
                x = mul(x, powi(v, e))
            r = add(r, x)
    elif t.op == 'var':
        v = f(t)
        r = v if v is not None else from_atom(t)
    elif t.op == 'app':
        r = app(t.args[0], *[rebuild(a, f, memo) for a in t.args[1:]]) if not t.args[0].startswith('root') \
            else root(rebuild(t.args[1], f, memo), int(t.args[0][4:]))
    elif t.op == 'ite':
        r = ite(rebuild(t.args[0], f, memo), rebuild(t.args[1], f, memo), rebuild(t.args[2], f, memo))
    elif t.op == 'pos':
        r = pos(rebuild(t.args[0], f, memo))
    elif t.op == 'paren':
        r = rebuild(t.args[0], f, memo)
    elif t.op in ('sum', 'lam'):
        N = rebuild(t.args[2], f, memo)
        old = t.args[0]
        _tmpc[0] += 1
        tmp = var('#t%d' % _tmpc[0], True)
        body = rebuild(subst(t.args[1], {old: tmp}), f, memo)
        lv = 1 + binder_level(body)
        b = var('#b%d' % lv, True)
        body = subst(body, {atom_of(tmp): b})
        if t.op == 'sum':
            r = sum_norm(atom_of(b), body, N)
        else:
            r = from_atom(mk('lam', (atom_of(b), body, N)))
    elif t.op in ('true', 'false'):
        r = t
    elif t.op == 'bvar':
        v = f(t)
        r = t if v is None else v
    elif t.op == 'le0':
        r = le0(rebuild(t.args[0], f, memo))
    elif t.op == 'eq0':
        r = eq0(rebuild(t.args[0], f, memo))
    elif t.op == 'not':
        r = not_(rebuild(t.args[0], f, memo))
    elif t.op == 'and':
        r = and_(*[rebuild(a, f, memo) for a in t.args])
    elif t.op == 'or':
        r = or_(*[rebuild(a, f, memo) for a in t.args])
    else:
        raise ValueError(t.op)
    memo[t.id] = r
    return r


def subst(t, mp):
    """mp: atom/bvar T -> value T"""
    if not mp:
        return t
    return rebuild(t, lambda a: mp.get(a), {})


def subst_bool(t, mp):
    """replace boolean atoms (by node) with true/false, everywhere"""
    memo = {k.id: v for k, v in mp.items()}
    for k, v in mp.items():
        if k.op == 'le0':
            nk = not_atom(k)
            memo.setdefault(nk.id, not_(v))
    return rebuild(t, lambda a: None, memo)


def atoms(t, out=None, seen=None):
    """all atoms occurring in t (in any position)"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op not in ('poly', 'and', 'or', 'not', 'le0', 'eq0', 'true', 'false'):
            out.append(x)
        stack.extend(children(x))
    return out


def nodes(t):
    """every distinct sub-term"""
    seen = {}
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        stack.extend(children(x))
    return list(seen.values())


def free_vars(*ts):
    r = {}
    for t in ts:
        for a in atoms(t):
            if a.op == 'var' and not a.args[0].startswith('#'):
                r[a.args[0]] = a
            if a.op == 'bvar':
                r[a.args[0]] = a
    return r


# ------------------------------------------------------------------ numeric evaluation (IEEE doubles)
class EvalError(Exception):
    pass


def evalf(t, env, funs=None, memo=None):
    """evaluate with floats.  env: name -> float | callable (for array symbols), funs: name -> callable"""
    memo = {} if memo is None else memo
    funs = funs or {}

    def ev(x, bound):
        key = x.id
        if not bound and key in memo:
            return memo[key]
        r = ev1(x, bound)
        if not bound:
            memo[key] = r
        return r

    def ev1(x, bound):
        op = x.op
        if op == 'poly':
            s = 0.0
            for m, c in x.args:
                v = float(c)
                for a, e in m:
                    av = ev(a, bound)
                    if e < 0 and av == 0:
                        raise EvalError('division by zero')
                    v *= av ** e if e != 1 else av
                s += v
            return s
        if op == 'var':
            n = x.args[0]
            if n in bound:
                return bound[n]
            return env[n]
        if op == 'bvar':
            return env[x.args[0]]
        if op == 'app':
            f = x.args[0]
            if f in funs:
                return funs[f](*[evarg(a, bound) for a in x.args[1:]])
            vs = [ev(a, bound) for a in x.args[1:]]
            if f == 'exp':
                return math.exp(vs[0])
            if f == 'log':
                if vs[0] <= 0:
                    raise EvalError('log')
                return math.log(vs[0])
            if f == 'sin':
                return math.sin(vs[0])
            if f == 'cos':
                return math.cos(vs[0])
            if f == 'floor':
                return float(math.floor(vs[0]))
            if f.startswith('root'):
                if vs[0] < 0:
                    raise EvalError('root')
                return vs[0] ** (1.0 / int(f[4:]))
            if f == 'pow':
                return vs[0] ** vs[1]
            if f == 'round0':
                return float(round(vs[0]))
            if f.startswith('round'):
                return round(vs[0], int(f[5:]))
            if f == 'csqrt_re':
                import cmath
                return cmath.sqrt(complex(vs[0], vs[1])).real
            if f == 'csqrt_im':
                import cmath
                return cmath.sqrt(complex(vs[0], vs[1])).imag
            raise EvalError('no interpretation for ' + f)
        if op == 'ite':
            return ev(x.args[1] if ev(x.args[0], bound) else x.args[2], bound)
        if op == 'pos':
            return max(0.0, ev(x.args[0], bound))
        if op == 'paren':
            return ev(x.args[0], bound)
        if op == 'sum':
            n = int(round(ev(x.args[2], bound)))
            s = 0.0
            for k in range(max(0, n)):
                b2 = dict(bound)
                b2[x.args[0].args[0]] = k
                s += ev(x.args[1], b2)
            return s
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'le0':
            return ev(x.args[0], bound) <= 0
        if op == 'eq0':
            return ev(x.args[0], bound) == 0
        if op == 'not':
            return not ev(x.args[0], bound)
        if op == 'and':
            return all(ev(a, bound) for a in x.args)
        if op == 'or':
            return any(ev(a, bound) for a in x.args)
        raise EvalError(op)

    def evarg(a, bound):
        if a.op == 'poly' and len(a.args) == 1 and len(a.args[0][0]) == 1 and a.args[0][0][0][0].op == 'lam':
            l = a.args[0][0][0][0]
            n = int(round(ev(l.args[2], bound)))
            out = []
            for k in range(max(0, n)):
                b2 = dict(bound)
                b2[l.args[0].args[0]] = k
                out.append(ev(l.args[1], b2))
            return out
        return ev(a, bound)

    return ev(t, {})


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    op = t.op
    if depth <= 0:
        return '...'
    if op == 'poly':
        if not t.args:
            return '0'
        out = []
        for m, c in t.args[:12]:
            fs = []
            for a, e in m:
                s = show(a, depth - 1)
                fs.append(s if e == 1 else '%s^%d' % (s, e))
            if not fs:
                out.append(_num(c))
            elif c == 1:
                out.append('*'.join(fs))
            else:
                out.append(_num(c) + '*' + '*'.join(fs))
        if len(t.args) > 12:
            out.append('...(%d terms)' % len(t.args))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op in ('var', 'bvar'):
        return t.args[0]
    if op == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, depth - 1) for a in t.args[1:]))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(show(a, depth - 1) for a in t.args)
    if op in ('pos', 'paren'):
        return '%s[%s]' % ('max0' if op == 'pos' else '', show(t.args[0], depth - 1))
    if op == 'sum':
        return 'sum_{%s<%s} %s' % (t.args[0].args[0], show(t.args[2], depth - 1), show(t.args[1], depth - 1))
    if op == 'lam':
        return '[%s | %s<%s]' % (show(t.args[1], depth - 1), t.args[0].args[0], show(t.args[2], depth - 1))
    if op == 'le0':
        return '%s <= 0' % show(t.args[0], depth - 1)
    if op == 'eq0':
        return '%s == 0' % show(t.args[0], depth - 1)
    if op == 'not':
        return 'not(%s)' % show(t.args[0], depth - 1)
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(show(a, depth - 1) for a in t.args[:8]) + ')'
    return op


def _num(c):
    if c.denominator == 1:
        return str(c.numerator)
    return '%.8g' % float(c)


def imp(a, b):
    return or_(not_(a), b)
