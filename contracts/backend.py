"""Two interpretations of the specification functions: symbolic terms (proof) and floats (replay)."""
import math
import cmath

DEFS = {}          # name -> spec function (B, *args); the definition of a contract function symbol
RECURSIVE = {}     # name -> float interpretation of a sequence given by defining equations
NARR = {}          # name -> number of leading list arguments


def spec(fn):
    DEFS[fn.__name__] = fn
    return fn


# ------------------------------------------------------------------ floats with ambiguity tracking
class Amb:
    flag = False
    eps = 1e-10


def _nil(x):
    return isinstance(x, Zero) or (type(x) is int and x == 0)


def _close(a, b):
    a = float(a)
    b = float(b)
    d = abs(a - b)
    return d <= Amb.eps * max(abs(a), abs(b), 1e-9)


def _bin(op, zero=None):
    def f(self, o):
        if zero is not None and zero(self, o):
            return Zero()
        try:
            return Fl(op(float(self), float(o)))
        except OverflowError:
            return Fl(float('inf'))
    return f


class _Base(float):
    __slots__ = ()
    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _bin(lambda a, b: b + a)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _bin(lambda a, b: b - a)
    __mul__ = _bin(lambda a, b: a * b, lambda s, o: _nil(s) or _nil(o))
    __rmul__ = _bin(lambda a, b: b * a, lambda s, o: _nil(s) or _nil(o))
    __truediv__ = _bin(lambda a, b: a / b, lambda s, o: _nil(s) and float(o) != 0)
    __rtruediv__ = _bin(lambda a, b: b / a, lambda s, o: _nil(o) and float(s) != 0)

    def __pow__(self, o):
        return Fl(float(self) ** float(o))

    def __neg__(self):
        return type(self)(-float(self))

    def __lt__(self, o):
        self._c(o)
        return float(self) < float(o)

    def __le__(self, o):
        self._c(o)
        return float(self) <= float(o)

    def __gt__(self, o):
        self._c(o)
        return float(self) > float(o)

    def __ge__(self, o):
        self._c(o)
        return float(self) >= float(o)

    __hash__ = float.__hash__


class In(_Base):
    """an input value: compared exactly with other inputs and literals"""
    __slots__ = ()

    def _c(self, o):
        if isinstance(o, Fl) and _close(self, o):
            Amb.flag = True

    def _ex(self, o, f, r):
        """an exact result stays exact (and is compared exactly)"""
        a, b = float(self), float(o)
        if (isinstance(o, (In, int)) or type(o) is float) and abs(a) < 1e9 and abs(b) < 1e9 and a * 1024 == int(a * 1024) and b * 1024 == int(b * 1024):
            return In(f(a, b))
        return r(self, o)

    def __sub__(self, o):
        return self._ex(o, lambda a, b: a - b, _Base.__sub__)

    def __add__(self, o):
        return self._ex(o, lambda a, b: a + b, _Base.__add__)

    def __radd__(self, o):
        return self._ex(o, lambda a, b: a + b, _Base.__radd__)

    def __rsub__(self, o):
        return self._ex(o, lambda a, b: b - a, _Base.__rsub__)

    def __mul__(self, o):
        return self._ex(o, lambda a, b: a * b, _Base.__mul__)

    def __rmul__(self, o):
        return self._ex(o, lambda a, b: a * b, _Base.__rmul__)

    def __truediv__(self, o):
        if isinstance(o, (In, int)) and math.frexp(float(o))[0] == 0.5:
            return self._ex(o, lambda a, b: a / b, _Base.__truediv__)
        return _Base.__truediv__(self, o)


class Fl(_Base):
    """a computed value: comparisons closer than rounding are ambiguous"""
    __slots__ = ()

    def _c(self, o):
        if _close(self, o):
            Amb.flag = True


class Zero(In):
    """exactly zero (a literal, or clearly cut off at zero), also after scaling"""
    __slots__ = ()
    __mul__ = _Base.__mul__
    __rmul__ = _Base.__rmul__
    __truediv__ = _Base.__truediv__

    def __neg__(self): return self


class FloatB:
    symbolic = False

    @staticmethod
    def _v(x):
        return x() if callable(x) else x

    def num(self, x): return In(x)

    def row(self, f):
        """one of many independent results: left out (None) when it is ambiguous or undefined at these inputs"""
        was, Amb.flag = Amb.flag, False
        try:
            v = f()
            if Amb.flag or v != v or abs(v) == math.inf:
                v = None
        except (ValueError, ZeroDivisionError, OverflowError):
            v = None
        Amb.flag = was
        return v

    def ite(self, c, a, b):
        return self._v(a) if c else self._v(b)

    def exp(self, x): return Fl(math.exp(x))

    def log(self, x):
        if float(x) <= 0:
            raise ValueError('log')
        return Fl(math.log(x))

    def sqrt(self, x): return Fl(math.sqrt(x))
    def root(self, x, n):
        if float(x) < 0:
            raise ValueError('root')
        return Fl(float(x) ** (1.0 / n))

    def sin(self, x): return Fl(math.sin(x))
    def cos(self, x): return Fl(math.cos(x))

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            if type(x) is int and x == 0 and -1e-9 < float(r) < 0:
                x = Fl(0.0)
            elif type(r) is int and r == 0 and -1e-9 < float(x) < 0:
                r = Fl(0.0)
            r = x if float(x) > float(r) else r
        return r

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = x if float(x) < float(r) else r
        return r

    def abs(self, x): return -x if float(x) < 0 else x

    def floor(self, x):
        v = math.floor(x)
        if isinstance(x, Fl) and float(x) != 0 and (_close(x, v) or _close(x, v + 1)):
            Amb.flag = True
        return v

    def rnd(self, x, n):
        s = float(x) * 10 ** n
        if abs(s - math.floor(s) - 0.5) < 1e-6:
            Amb.flag = True
        return round(float(x), n) if n else round(float(x))

    def csqrt(self, a, b):
        z = cmath.sqrt(complex(a, b))
        return Fl(z.real), Fl(z.imag)

    def eq(self, a, b):
        if isinstance(a, Fl) or isinstance(b, Fl):
            if _close(a, b):
                Amb.flag = True
        return float(a) == float(b)

    def and_(self, *xs): return all(self._v(x) for x in xs)
    def or_(self, *xs): return any(self._v(x) for x in xs)
    def not_(self, x): return not x
    def table(self, lst, i):
        i = int(i)
        if i < 0:
            raise IndexError
        return lst[i]

    def U(self, name, *args):
        return (DEFS.get(name) or RECURSIVE[name])(self, *args)

    def get(self, arr, k):
        k = int(k)
        if k < 0:
            raise IndexError('negative sample')
        return arr[k]

    def length(self, arr): return len(arr)
    def arr(self, fn, n): return [fn(k) for k in range(int(n))]

    def sum(self, fn, n):
        s = Fl(0.0)
        for k in range(int(n)):
            s = s + fn(k)
        return s

    def desc(self, arr, k): return sorted(arr, key=float, reverse=True)[int(k)]


FB = FloatB()


def make_sym():
    from engine import terms as t

    class SymB:
        symbolic = True

        @staticmethod
        def _v(x):
            return t.num(x()) if callable(x) else (x if isinstance(x, t.T) else t.num(x))

        def num(self, x): return t.num(x)

        def row(self, f): return f()

        def ite(self, c, a, b):
            if isinstance(c, bool):
                c = t.boolc(c)
            if c is t.TRUE:
                return self._v(a)
            if c is t.FALSE:
                return self._v(b)
            return t.ite(c, self._v(a), self._v(b))

        def exp(self, x): return t.exp(x)
        def log(self, x): return t.log(x)
        def sqrt(self, x): return t.sqrt(x)
        def root(self, x, n): return t.root(t.num(x), n)
        def sin(self, x): return t.app('sin', x)
        def cos(self, x): return t.app('cos', x)

        def max(self, *xs):
            r = t.num(xs[0])
            for x in xs[1:]:
                r = t.maxv(r, x)
            return r

        def min(self, *xs):
            r = t.num(xs[0])
            for x in xs[1:]:
                r = t.minv(r, x)
            return r

        def abs(self, x): return t.absv(x)
        def floor(self, x): return t.app('floor', t.num(x))
        def rnd(self, x, n): return t.app('round%d' % n, t.num(x))
        def csqrt(self, a, b):
            return t.app('csqrt_re', a, b), t.app('csqrt_im', a, b)

        def eq(self, a, b): return t.eq(t.num(a), t.num(b))

        def _b(self, x):
            if callable(x) and not isinstance(x, t.T):
                x = x()
            return t.boolc(x) if isinstance(x, bool) else x

        def and_(self, *xs): return t.and_(*[self._b(x) for x in xs])
        def or_(self, *xs): return t.or_(*[self._b(x) for x in xs])
        def not_(self, x): return t.not_(self._b(x))

        def table(self, lst, i):
            i = t.num(i)
            if t.is_const(i):
                return t.num(lst[int(t.cval(i))])
            r = t.num(lst[-1])
            for j in reversed(range(len(lst) - 1)):
                r = t.ite(t.eq(i, t.const(j)), t.num(lst[j]), r)
            return r

        def U(self, name, *args): return t.app(name, *[t.num(a) for a in args])

        def get(self, arr, k):
            a = arr.args[0][0][0][0]
            return t.subst(a.args[1], {a.args[0]: t.num(k)})

        def length(self, arr): return arr.args[0][0][0][0].args[2]
        def arr(self, fn, n): return t.lam(fn, t.num(n))
        def sum(self, fn, n):
            n = t.num(n)
            return t.sumk(lambda k: t.num(fn(k)), n if t.nonneg(n) else t.pos(n))

        def desc(self, arr, k): return t.app('desc', arr, t.num(k))

    return SymB()


def unfold(term, names=None, depth=8):
    """replace contract function symbols by their definitions"""
    from engine import terms as t
    B = make_sym()
    for _ in range(depth):
        hit = [a for a in t.atoms(term) if a.op == 'app' and a.args[0] in DEFS and (names is None or a.args[0] in names)]
        if not hit:
            break

        def f(a):
            return None
        memo = {}

        def rb(x):
            return t.rebuild(x, g, memo)

        def g(a):
            if a.op == 'app' and a.args[0] in DEFS and (names is None or a.args[0] in names):
                return t.num(DEFS[a.args[0]](B, *[rb(y) for y in a.args[1:]]))
            return None
        term = rb(term)
    return term
