"""Semantics of the builtins and library functions the executor knows."""
import ast
from fractions import Fraction as F
from . import terms as t
from .terms import T
from .pysym import (Unsupported, Cx, Ref, DictObj, ListObj, Tail, Opaque, RangeVal, SymIter, Maybe, Builtin, Func, cx, text,
                    UNBOUND)

EXC = {'ValueError', 'TypeError', 'ZeroDivisionError', 'Exception', 'IndexError', 'KeyError', 'RuntimeError',
       'ArithmeticError', 'OverflowError', 'AssertionError', 'NotImplementedError'}

ALIAS = {'numpy.log': 'log', 'math.log': 'log', 'cmath.log': None, 'numpy.exp': 'exp', 'math.exp': 'exp',
         'numpy.sqrt': 'sqrt', 'math.sqrt': 'sqrt', 'cmath.sqrt': 'csqrt', 'numpy.sin': 'sin', 'math.sin': 'sin',
         'numpy.cos': 'cos', 'math.cos': 'cos', 'numpy.abs': 'abs', 'numpy.absolute': 'abs', 'math.fabs': 'abs',
         'numpy.fabs': 'abs', 'abs': 'abs', 'numpy.floor': 'floor', 'math.floor': 'floor', 'numpy.ceil': 'ceil',
         'math.ceil': 'ceil', 'math.trunc': 'int', 'numpy.trunc': 'int', 'numpy.fix': 'int', 'int': 'int',
         'numpy.int64': 'int', 'numpy.int32': 'int', 'float': 'float', 'numpy.float64': 'float', 'numpy.maximum': 'max',
         'numpy.fmax': 'max', 'numpy.minimum': 'min', 'numpy.fmin': 'min', 'max': 'max', 'min': 'min', 'numpy.amax': 'max',
         'numpy.amin': 'min', 'numpy.max': 'max', 'numpy.min': 'min', 'pow': 'pow', 'math.pow': 'pow', 'numpy.power': 'pow',
         'sum': 'sum', 'numpy.sum': 'sum', 'math.fsum': 'sum', 'numpy.square': 'square', 'numpy.hypot': 'hypot',
         'math.hypot': 'hypot', 'math.log10': 'log10', 'numpy.log10': 'log10', 'numpy.cbrt': 'cbrt', 'math.cbrt': 'cbrt',
         'cmath.exp': 'cexp', 'math.tan': 'tan', 'numpy.tan': 'tan', 'numpy.array': 'array', 'numpy.asarray': 'array',
         'numpy.conj': 'conj', 'numpy.conjugate': 'conj', 'numpy.real': 'real', 'numpy.imag': 'imag',
         'numpy.where': 'where', 'numpy.clip': 'clip', 'math.prod': 'prod', 'numpy.prod': 'prod', 'numpy.dot': 'dot',
         'numpy.sort': 'npsort', 'numpy.log1p': 'log1p', 'math.log1p': 'log1p', 'numpy.sign': 'sign',
         'numpy.arange': 'nparange', 'numpy.zeros': 'npzeros', 'numpy.float_power': 'pow', 'numpy.multiply': 'mult',
         'numpy.divide': 'divide', 'numpy.add': 'addop', 'numpy.subtract': 'subop', 'numpy.negative': 'negop',
         'numpy.logical_or': 'lor', 'numpy.logical_and': 'land', 'numpy.logical_not': 'lnot', 'operator.mul': 'mult',
         'operator.add': 'addop', 'operator.sub': 'subop', 'operator.truediv': 'divide', 'math.copysign': 'copysign',
         'numpy.linspace': 'linspace', 'numpy.interp': 'interp', 'numpy.percentile': 'pctile', 'numpy.ma.compressed': 'compressed', 'numpy.quantile': 'pctile',
         'next': 'next', 'numpy.isclose': None}


def bounded(ex, st, f, x, node):
    """elementwise application over a numpy array"""
    lo = ex.listobj(st, x)
    return lo


def call(ex, st, name, args, kwargs, n):
    if name in ex.externals:
        return ex.externals[name](ex, st, args, kwargs, n)
    f = ALIAS.get(name, name)
    if f is None:
        raise Unsupported('library function ' + name, n)
    h = FUN.get(f)
    if h is None:
        if f in EXC:
            return Opaque('exception')
        raise Unsupported('library function ' + name, n)
    return h(ex, st, name, args, kwargs, n)


def elementwise(fn):
    def w(ex, st, name, args, kwargs, n):
        if len(args) == 1 and name.startswith('numpy.'):
            lo = ex.listobj(st, args[0])
            if lo is not None:
                items = [fn(ex, st, name, [x], kwargs, n) for x in lo.items]
                tail = None
                if lo.tail is not None:
                    k = ex.fresh('k', True)
                    s2 = st.fork()
                    s2.assume(t.le(t.ZERO, k))
                    s2.assume(t.lt(k, lo.tail.n))
                    v = fn(ex, s2, name, [lo.tail.fn(k)], kwargs, n)
                    ka = t.atom_of(k)
                    tail = Tail(lo.tail.n, lambda i: t.subst(v, {ka: i}))
                return ex.alloc(st, ListObj(items, tail, 'nd'))
        return fn(ex, st, name, args, kwargs, n)
    return w


def real(ex, v, n):
    v = ex.numeric(v, n)
    if isinstance(v, Cx):
        if v.im is t.ZERO:
            return v.re
        raise Unsupported('complex argument', n)
    return v


@elementwise
def f_log(ex, st, name, args, kw, n):
    if kw or len(args) not in (1, 2):
        raise Unsupported('log', n)
    if len(args) == 2:
        a = f_log(ex, st, name, args[:1], {}, n)
        b = f_log(ex, st, name, args[1:], {}, n)
        return t.div(a, b)
    x = real(ex, args[0], n)
    ex.oblige(st, 'log', t.lt(t.ZERO, x), n, 'logarithm of a positive number')
    return t.log(x)


@elementwise
def f_log10(ex, st, name, args, kw, n):
    x = real(ex, args[0], n)
    ex.oblige(st, 'log', t.lt(t.ZERO, x), n, 'logarithm of a positive number')
    return t.div(t.log(x), t.log(t.const(10)))


@elementwise
def f_log1p(ex, st, name, args, kw, n):
    x = t.add(real(ex, args[0], n), t.ONE)
    ex.oblige(st, 'log', t.lt(t.ZERO, x), n, 'logarithm of a positive number')
    return t.log(x)


@elementwise
def f_exp(ex, st, name, args, kw, n):
    v = ex.numeric(args[0], n)
    if isinstance(v, Cx):
        return f_cexp(ex, st, name, args, kw, n)
    return t.exp(v)


def f_cexp(ex, st, name, args, kw, n):
    v = cx(ex.numeric(args[0], n))
    e = t.exp(v.re)
    return Cx(t.mul(e, t.app('cos', v.im)), t.mul(e, t.app('sin', v.im)))


@elementwise
def f_sqrt(ex, st, name, args, kw, n):
    v = ex.numeric(args[0], n)
    if isinstance(v, Cx):
        return f_csqrt(ex, st, name, args, kw, n)
    ex.oblige(st, 'sqrt', t.le(t.ZERO, v), n, 'square root of a non-negative number')
    return t.sqrt(v)


def f_csqrt(ex, st, name, args, kw, n):
    v = cx(ex.numeric(args[0], n))
    return Cx(t.app('csqrt_re', v.re, v.im), t.app('csqrt_im', v.re, v.im))


@elementwise
def f_cbrt(ex, st, name, args, kw, n):
    v = real(ex, args[0], n)
    ex.oblige(st, 'sqrt', t.le(t.ZERO, v), n, 'cube root of a non-negative number')
    return t.root(v, 3)


@elementwise
def f_sin(ex, st, name, args, kw, n):
    return t.app('sin', real(ex, args[0], n))


@elementwise
def f_cos(ex, st, name, args, kw, n):
    return t.app('cos', real(ex, args[0], n))


def f_tan(ex, st, name, args, kw, n):
    x = real(ex, args[0], n)
    return t.div(t.app('sin', x), t.app('cos', x))


@elementwise
def f_abs(ex, st, name, args, kw, n):
    v = ex.numeric(args[0], n)
    if isinstance(v, Cx):
        return t.sqrt(t.add(t.mul(v.re, v.re), t.mul(v.im, v.im)))
    return t.absv(v)


@elementwise
def f_square(ex, st, name, args, kw, n):
    return ex.arith(st, ast.Mult(), ex.numeric(args[0], n), ex.numeric(args[0], n), n)


def f_hypot(ex, st, name, args, kw, n):
    a, b = real(ex, args[0], n), real(ex, args[1], n)
    return t.sqrt(t.add(t.mul(a, a), t.mul(b, b)))


@elementwise
def f_floor(ex, st, name, args, kw, n):
    return t.app('floor', real(ex, args[0], n))


@elementwise
def f_ceil(ex, st, name, args, kw, n):
    return t.neg(t.app('floor', t.neg(real(ex, args[0], n))))


@elementwise
def f_int(ex, st, name, args, kw, n):
    if not args:
        return t.ZERO
    if isinstance(args[0], (str, Opaque)):
        raise Unsupported('int of string', n)
    v = real(ex, args[0], n)
    if v.isint:
        return v
    if ex.entails(st, t.le(t.ZERO, v)):
        return t.app('floor', v)
    return t.trunc(v)


def f_float(ex, st, name, args, kw, n):
    if not args:
        return t.ZERO
    if isinstance(args[0], str):
        raise Unsupported('float of string', n)
    if isinstance(args[0], Opaque) and ('float:' + args[0].what) in ex.externals:
        return ex.externals['float:' + args[0].what](ex, st, args, kw, n)
    return real(ex, args[0], n)


def f_bool(ex, st, name, args, kw, n):
    return ex.truth(st, args[0], n) if args else t.FALSE


def f_complex(ex, st, name, args, kw, n):
    args = list(args)
    if 'real' in kw:
        args = [kw['real']] + args
    if 'imag' in kw:
        args = (args or [t.ZERO]) + [kw['imag']]
    if len(args) == 1:
        return cx(ex.numeric(args[0], n))
    a, b = cx(ex.numeric(args[0], n)), cx(ex.numeric(args[1], n))
    return Cx(t.sub(a.re, b.im), t.add(a.im, b.re))


def extremum(ex, st, name, args, kw, n, op):
    dflt = kw.get('default', UNBOUND)
    if set(kw) - {'default'}:
        raise Unsupported('max/min keyword', n)
    vals = args
    if len(args) == 1:
        vals = ex.iter_concrete(st, args[0], n)
        if vals is None:
            raise Unsupported('max/min over symbolic length', n)
    if not vals:
        raise Unsupported('max/min of empty sequence', n)
    if any(isinstance(v, Ref) for v in vals):
        raise Unsupported('max/min of objects', n)
    r = real(ex, vals[0], n)
    for v in vals[1:]:
        r = op(r, real(ex, v, n))
    return r


def f_max(ex, st, name, args, kw, n):
    return extremum(ex, st, name, args, kw, n, t.maxv)


def f_min(ex, st, name, args, kw, n):
    return extremum(ex, st, name, args, kw, n, t.minv)


def f_clip(ex, st, name, args, kw, n):
    return t.minv(t.maxv(real(ex, args[0], n), real(ex, args[1], n)), real(ex, args[2], n))


def f_pow(ex, st, name, args, kw, n):
    return ex.arith(st, ast.Pow(), ex.numeric(args[0], n), ex.numeric(args[1], n), n)


def opf(op):
    def w(ex, st, name, args, kw, n):
        return ex.binop(st, op, args[0], args[1], n)
    return w


def f_neg(ex, st, name, args, kw, n):
    return ex.arith(st, ast.Sub(), t.ZERO, ex.numeric(args[0], n), n)


def f_lor(ex, st, name, args, kw, n):
    return t.or_(*[ex.truth(st, a, n) for a in args])


def f_land(ex, st, name, args, kw, n):
    return t.and_(*[ex.truth(st, a, n) for a in args])


def f_lnot(ex, st, name, args, kw, n):
    return t.not_(ex.truth(st, args[0], n))


def f_copysign(ex, st, name, args, kw, n):
    a, b = t.absv(real(ex, args[0], n)), real(ex, args[1], n)
    return t.ite(t.lt(b, t.ZERO), t.neg(a), a)      # -0.0 not modelled


def f_sign(ex, st, name, args, kw, n):
    a = real(ex, args[0], n)
    return t.ite(t.lt(a, t.ZERO), t.const(-1), t.ite(t.lt(t.ZERO, a), t.ONE, t.ZERO))


def f_sum(ex, st, name, args, kw, n):
    start = args[1] if len(args) > 1 else kw.get('start', t.ZERO)
    start = ex.numeric(start, n)
    vals = ex.iter_concrete(st, args[0], n)
    if vals is not None:
        r = start
        for v in vals:
            r = ex.arith(st, ast.Add(), r, ex.numeric(v, n), n)
        return r
    si = ex.iter_symbolic(st, args[0], n)
    N = si.n if t.nonneg(si.n) else t.pos(si.n)
    return t.add(start, t.sumk(lambda k: t.num(si.fn(k)), N))


def f_dot(ex, st, name, args, kw, n):
    la, lb = ex.listobj(st, args[0]), ex.listobj(st, args[1])
    if la is None or lb is None or la.tail is not None or lb.tail is not None or len(la.items) != len(lb.items):
        raise Unsupported('dot', n)
    r = t.ZERO
    for x, y in zip(la.items, lb.items):
        r = ex.arith(st, ast.Add(), r, ex.arith(st, ast.Mult(), ex.numeric(x, n), ex.numeric(y, n), n), n)
    return r


def f_prod(ex, st, name, args, kw, n):
    r = t.ONE
    for v in ex.as_seq(st, args[0], n):
        r = ex.arith(st, ast.Mult(), r, ex.numeric(v, n), n)
    return r


def f_len(ex, st, name, args, kw, n):
    v = args[0]
    if isinstance(v, (tuple, str, list)):
        return t.const(len(v))
    if isinstance(v, Ref):
        o = ex.obj(st, v)
        if isinstance(o, DictObj):
            ex.need_present(st, o, n)
            return t.const(len(o.items))
        return o.length()
    if isinstance(v, RangeVal):
        c = ex.iter_concrete(st, v, n)
        return t.const(len(c)) if c is not None else ex.iter_symbolic(st, v, n).n
    raise Unsupported('len', n)


def f_range(ex, st, name, args, kw, n):
    a = [real(ex, x, n) for x in args]
    for x in a:
        if not x.isint:
            raise Unsupported('range of non-integer', n)
    if len(a) == 1:
        return RangeVal(t.ZERO, a[0], t.ONE)
    if len(a) == 2:
        return RangeVal(a[0], a[1], t.ONE)
    return RangeVal(a[0], a[1], a[2])


def f_round(ex, st, name, args, kw, n):
    x = real(ex, args[0], n)
    nd = args[1] if len(args) > 1 else kw.get('ndigits', kw.get('decimals'))
    if nd is None:
        return t.app('round0', x)
    if isinstance(nd, T) and t.is_const(nd):
        d = int(t.cval(nd))
        if d >= 0:
            return t.app('round%d' % d, x)
    raise Unsupported('round', n)


def f_list(ex, st, name, args, kw, n):
    if not args:
        return ex.alloc(st, ListObj([]))
    lo = ex.listobj(st, args[0])
    if lo is not None:
        return ex.alloc(st, ListObj(list(lo.items), lo.tail, 'list'))
    c = ex.iter_concrete(st, args[0], n)
    if c is not None:
        return ex.alloc(st, ListObj(list(c)))
    si = ex.iter_symbolic(st, args[0], n)
    return ex.alloc(st, ListObj([], Tail(si.n, si.fn)))


def f_array(ex, st, name, args, kw, n):
    if isinstance(args[0], T):
        return args[0]
    lo = ex.listobj(st, args[0])
    if lo is None:
        c = ex.iter_concrete(st, args[0], n)
        if c is None:
            raise Unsupported('array', n)
        lo = ListObj(list(c))
    if any(isinstance(x, Ref) for x in lo.items):
        raise Unsupported('nested array', n)
    return ex.alloc(st, ListObj(list(lo.items), lo.tail, 'nd'))


def f_npzeros(ex, st, name, args, kw, n):
    k = real(ex, args[0], n)
    if t.is_const(k):
        return ex.alloc(st, ListObj([t.ZERO] * int(t.cval(k)), None, 'nd'))
    return ex.alloc(st, ListObj([], Tail(t.pos(k), lambda i: t.ZERO), 'nd'))


def f_nparange(ex, st, name, args, kw, n):
    r = f_range(ex, st, name, args, kw, n)
    c = ex.iter_concrete(st, r, n)
    if c is not None:
        return ex.alloc(st, ListObj(list(c), None, 'nd'))
    si = ex.iter_symbolic(st, r, n)
    return ex.alloc(st, ListObj([], Tail(si.n, si.fn), 'nd'))


def appended(ex, st, v, old, k, n):
    if k is old.n:
        return v
    if isinstance(v, (Ref, tuple, Opaque)):
        raise Unsupported('element of a list an object was appended to', n)
    return ex.merge_val(v, old.fn(k), (st, st, st, t.eq(k, old.n), {}))


def f_linspace(ex, st, name, args, kw, n):
    a, b = real(ex, args[0], n), real(ex, args[1], n)
    num = args[2] if len(args) > 2 else kw.get('num', t.const(50))
    if len(args) > 3 or set(kw) - {'num'}:
        raise Unsupported('linspace', n)
    num = real(ex, num, n)
    if not ex.entails(st, t.le(t.const(2), num)):
        raise Unsupported('linspace of fewer than two points', n)
    step = t.div(t.sub(b, a), t.sub(num, t.ONE))
    return ex.alloc(st, ListObj([], Tail(num, lambda k: t.add(a, t.mul(k, step))), 'nd'))


def f_interp(ex, st, name, args, kw, n):
    if len(args) != 3 or kw:
        raise Unsupported('interp', n)
    xp, fp = [[real(ex, x, n) for x in ex.as_seq(st, a, n)] for a in args[1:]]
    if len(xp) != len(fp) or not xp or len(xp) > 20:
        raise Unsupported('interp', n)
    for x, y in zip(xp, xp[1:]):
        if not ex.entails(st, t.lt(x, y)):
            raise Unsupported('interp nodes not increasing', n)

    def f(x):
        x = t.num(x)
        r = fp[-1]
        for i in reversed(range(len(xp) - 1)):
            seg = t.add(fp[i], t.div(t.mul(t.sub(x, xp[i]), t.sub(fp[i + 1], fp[i])), t.sub(xp[i + 1], xp[i])))
            r = t.ite(t.le(x, xp[i + 1]), seg, r)
        return t.ite(t.lt(x, xp[0]), fp[0], r)
    if isinstance(args[0], T):
        return f(real(ex, args[0], n))
    c = ex.iter_concrete(st, args[0], n)
    if c is not None:
        return ex.alloc(st, ListObj([f(real(ex, x, n)) for x in c], None, 'nd'))
    si = ex.iter_symbolic(st, args[0], n)
    return ex.alloc(st, ListObj([], Tail(si.n, lambda k: f(si.fn(k))), 'nd'))


def f_compressed(ex, st, name, args, kw, n):
    """a plain list carries no mask: every element is kept"""
    if args and isinstance(args[0], Opaque) and (args[0].what + '.compressed') in ex.externals:
        return ex.externals[args[0].what + '.compressed'](ex, st, args, kw, n)
    lo = ex.listobj(st, args[0]) if len(args) == 1 and not kw else None
    if lo is None:
        raise Unsupported('compressed', n)
    return ex.alloc(st, ListObj(list(lo.items), lo.tail, 'nd'))


def f_percentile(ex, st, name, args, kw, n):
    scale = t.const(100) if name.endswith('quantile') else t.ONE
    if len(args) != 2 or kw:
        raise Unsupported('percentile', n)
    lo = ex.listobj(st, args[0])
    if lo is None:
        raise Unsupported('percentile', n)
    a = list_term(ex, st, lo, n)

    def one(q):
        return t.app('pct', a, t.mul(real(ex, q, n), scale))
    if isinstance(args[1], T):
        return one(args[1])
    return ex.alloc(st, ListObj([one(q) for q in ex.as_seq(st, args[1], n)], None, 'nd'))


def f_tuple(ex, st, name, args, kw, n):
    return tuple(ex.as_seq(st, args[0], n)) if args else ()


def f_dict(ex, st, name, args, kw, n):
    d = {}
    if args:
        o = args[0]
        if isinstance(o, Ref) and isinstance(ex.obj(st, o), DictObj):
            d.update(ex.obj(st, o).items)
        else:
            for p in ex.as_seq(st, o, n):
                k, v = ex.as_seq(st, p, n)
                d[ex.key(k, n)] = v
    d.update(kw)
    return ex.alloc(st, DictObj(d))


def f_enumerate(ex, st, name, args, kw, n):
    start = args[1] if len(args) > 1 else kw.get('start', t.ZERO)
    c = ex.iter_concrete(st, args[0], n)
    if c is not None:
        return [(t.add(start, t.const(i)), v) for i, v in enumerate(c)]
    si = ex.iter_symbolic(st, args[0], n)
    return SymIter(si.n, lambda k: (t.add(start, k), si.fn(k)))


def f_zip(ex, st, name, args, kw, n):
    cs = [ex.iter_concrete(st, a, n) for a in args]
    if all(c is not None for c in cs):
        return [tuple(x) for x in zip(*cs)]
    sis = []
    for a, c in zip(args, cs):
        if c is not None:
            raise Unsupported('zip of concrete and symbolic sequences', n)
        sis.append(ex.iter_symbolic(st, a, n))
    N = sis[0].n
    for s in sis[1:]:
        if not ex.entails(st, t.eq(N, s.n)):
            N = t.minv(N, s.n)
    return SymIter(N, lambda k: tuple(s.fn(k) for s in sis))


def f_map(ex, st, name, args, kw, n):
    if len(args) < 2:
        raise Unsupported('map', n)
    cs = [ex.iter_concrete(st, a, n) for a in args[1:]]
    if all(c is not None for c in cs):
        return [ex.call(st, args[0], list(x), {}, n) for x in zip(*cs)]
    raise Unsupported('map over symbolic length', n)


def f_reversed(ex, st, name, args, kw, n):
    c = ex.iter_concrete(st, args[0], n)
    if c is not None:
        return list(reversed(c))
    si = ex.iter_symbolic(st, args[0], n)
    return SymIter(si.n, lambda k: si.fn(t.sub(t.sub(si.n, t.ONE), k)))


def f_any(ex, st, name, args, kw, n):
    return t.or_(*[ex.truth(st, v, n) for v in ex.as_seq(st, args[0], n)])


def f_all(ex, st, name, args, kw, n):
    return t.and_(*[ex.truth(st, v, n) for v in ex.as_seq(st, args[0], n)])


def f_print(ex, st, name, args, kw, n):
    ex.outputs.append((st.pc, args))
    return None


def f_str(ex, st, name, args, kw, n):
    if args and isinstance(args[0], str):
        return args[0]
    return text(args[:1]) if name == 'str' and len(args) == 1 and isinstance(args[0], T) else Opaque('str')


def f_next(ex, st, name, args, kw, n):
    # only of an iterator made on the spot (nothing else can have advanced it)
    if not isinstance(args[0], list) or not isinstance(n, ast.Call) or not isinstance(n.args[0], (ast.Call, ast.GeneratorExp)):
        raise Unsupported('next', n)
    if args[0]:
        return args[0][0]
    if len(args) > 1:
        return args[1]
    raise Unsupported('next of an empty iterator', n)


def f_sorted(ex, st, name, args, kw, n):
    """k-th element of the descending order statistics:  srt(list, k)"""
    lo = ex.listobj(st, args[0])
    if lo is None:
        c = ex.iter_concrete(st, args[0], n)
        if c is None:
            raise Unsupported('sorted', n)
        lo = ListObj(list(c))
    if set(kw) - {'reverse'}:
        raise Unsupported('sorted with key', n)
    rev = ex.truth(st, kw['reverse'], n) if 'reverse' in kw else t.FALSE
    if rev is not t.TRUE and rev is not t.FALSE:
        raise Unsupported('sorted', n)
    L = lo.length()
    obj = list_term(ex, st, lo, n)
    if rev is t.TRUE:
        fn = lambda k: t.app('desc', obj, k)
    else:
        fn = lambda k: t.app('desc', obj, t.sub(t.sub(L, t.ONE), k))
    return ex.alloc(st, ListObj([], Tail(L, fn)))


def f_npsort(ex, st, name, args, kw, n):
    r = f_sorted(ex, st, name, args, {}, n)
    st.heap[r.id].kind = 'nd'
    return r


def list_term(ex, st, lo, node):
    """a list of numbers as one term"""
    return t.lam(lambda k: t.num(ex.list_get2(st, lo, k, node)), lo.length())


def f_where(ex, st, name, args, kw, n):
    if len(args) != 3:
        raise Unsupported('where', n)
    c = ex.truth(st, args[0], n)
    return t.ite(c, real(ex, args[1], n), real(ex, args[2], n))


def f_conj(ex, st, name, args, kw, n):
    v = cx(ex.numeric(args[0], n))
    return Cx(v.re, t.neg(v.im))


def f_real(ex, st, name, args, kw, n):
    return cx(ex.numeric(args[0], n)).re


def f_imag(ex, st, name, args, kw, n):
    return cx(ex.numeric(args[0], n)).im


def f_divmod(ex, st, name, args, kw, n):
    a, b = real(ex, args[0], n), real(ex, args[1], n)
    return (ex.arith(st, ast.FloorDiv(), a, b, n), ex.arith(st, ast.Mod(), a, b, n))


def f_isinstance(ex, st, name, args, kw, n):
    v, ty = args
    tys = ty if isinstance(ty, tuple) else (ty,)
    names = {x.name for x in tys if isinstance(x, Builtin)}
    if isinstance(v, Cx):
        return t.boolc('complex' in names)
    if isinstance(v, Ref):
        o = ex.obj(st, v)
        return t.boolc(('dict' if isinstance(o, DictObj) else 'list') in names)
    if isinstance(v, str):
        return t.boolc('str' in names)
    if v is None:
        return t.FALSE
    if isinstance(v, T) and 'complex' in names and not names & {'int', 'float', 'bool'}:
        return t.FALSE
    if isinstance(v, T) and {'int', 'float'} <= names:
        return t.TRUE
    raise Unsupported('isinstance', n)


FUN = {'log': f_log, 'log10': f_log10, 'log1p': f_log1p, 'exp': f_exp, 'cexp': f_cexp, 'sqrt': f_sqrt, 'csqrt': f_csqrt,
       'cbrt': f_cbrt, 'sin': f_sin, 'cos': f_cos, 'tan': f_tan, 'abs': f_abs, 'square': f_square, 'hypot': f_hypot,
       'floor': f_floor, 'ceil': f_ceil, 'int': f_int, 'float': f_float, 'bool': f_bool, 'complex': f_complex,
       'max': f_max, 'min': f_min, 'pow': f_pow, 'sum': f_sum, 'prod': f_prod, 'len': f_len, 'range': f_range,
       'round': f_round, 'list': f_list, 'array': f_array, 'tuple': f_tuple, 'dict': f_dict, 'enumerate': f_enumerate,
       'zip': f_zip, 'map': f_map, 'reversed': f_reversed, 'any': f_any, 'all': f_all, 'print': f_print, 'str': f_str,
       'sorted': f_sorted, 'npsort': f_npsort, 'where': f_where, 'conj': f_conj, 'real': f_real, 'imag': f_imag,
       'clip': f_clip, 'dot': f_dot, 'divmod': f_divmod, 'isinstance': f_isinstance, 'npzeros': f_npzeros,
       'nparange': f_nparange, 'linspace': f_linspace, 'interp': f_interp, 'pctile': f_percentile, 'compressed': f_compressed, 'mult': opf(ast.Mult()), 'divide': opf(ast.Div()), 'addop': opf(ast.Add()),
       'subop': opf(ast.Sub()), 'negop': f_neg, 'lor': f_lor, 'land': f_land, 'lnot': f_lnot, 'copysign': f_copysign,
       'sign': f_sign, 'set': f_tuple, 'frozenset': f_tuple, 'repr': f_str, 'format': f_str, 'next': f_next}


def fmt(s, args, kw):
    import string
    parts, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(lit)
            if field is None:
                continue
            if spec or conv:
                return Opaque('str')
            if field == '':
                field, auto = str(auto), auto + 1
            parts.append(args[int(field)] if field.isdigit() else kw[field])
    except (ValueError, KeyError, IndexError):
        return Opaque('str')
    return text(parts)


# ------------------------------------------------------------------ methods
def method(ex, st, o, name, args, kw, n):
    if isinstance(o, (str, Opaque)) and not (isinstance(o, Opaque) and ('%s.%s' % (o.what, name)) in ex.externals):
        if name == 'format' and isinstance(o, str):
            return fmt(o, args, kw)
        if name in ('format', 'join', 'strip', 'lower', 'upper', 'replace'):
            return Opaque('str')
        raise Unsupported('method %s' % name, n)
    if isinstance(o, Opaque):
        return ex.externals['%s.%s' % (o.what, name)](ex, st, [o] + args, kw, n)
    if isinstance(o, (T, Cx)):
        if name == 'conjugate':
            return f_conj(ex, st, name, [o], kw, n)
        if name == 'item':
            return o
        raise Unsupported('method %s' % name, n)
    if not isinstance(o, Ref):
        raise Unsupported('method %s of %s' % (name, type(o).__name__), n)
    ob = ex.obj(st, o)
    if isinstance(ob, DictObj):
        if name == 'get':
            k = ex.key(args[0], n)
            d = args[1] if len(args) > 1 else None
            if k not in ob.items:
                return d
            v = ob.items[k]
            if isinstance(v, Maybe):
                from .pysym import Unmergeable
                try:
                    return ex.merge_val(v.val, d, (st, st, st, v.cond, {}))
                except Unmergeable:
                    raise Unsupported('dict.get of conditional key', n)
            return v
        if name == 'setdefault':
            k = ex.key(args[0], n)
            if k in ob.items and not isinstance(ob.items[k], Maybe):
                return ob.items[k]
            d = ex.wobj(st, o)
            v = args[1] if len(args) > 1 else None
            if k in d.items:
                m = d.items[k]
                v = ex.merge_val(m.val, v, (st, st, st, m.cond, {}))
            d.items[k] = v
            return v
        if name == 'update':
            d = ex.wobj(st, o)
            if args:
                if isinstance(args[0], Ref) and isinstance(ex.obj(st, args[0]), DictObj):
                    src = ex.obj(st, args[0]).items
                    for k, v in src.items():
                        if isinstance(v, Maybe):
                            raise Unsupported('update with conditional keys', n)
                        d.items[k] = v
                else:
                    for p in ex.as_seq(st, args[0], n):
                        k, v = ex.as_seq(st, p, n)
                        d.items[ex.key(k, n)] = v
            for k, v in kw.items():
                d.items[k] = v
            return None
        if name == 'items':
            ex.need_present(st, ob, n)
            return [(ex.unkey(k), v) for k, v in ob.items.items()]
        if name == 'keys':
            ex.need_present(st, ob, n)
            return [ex.unkey(k) for k in ob.items]
        if name == 'values':
            ex.need_present(st, ob, n)
            return list(ob.items.values())
        if name == 'copy':
            return ex.alloc(st, ob.copy())
        if name == 'pop':
            k = ex.key(args[0], n)
            if k not in ob.items:
                if len(args) > 1:
                    return args[1]
                raise Unsupported('pop of missing key', n)
            v = ob.items[k]
            d = ex.wobj(st, o)
            del d.items[k]
            if isinstance(v, Maybe):
                if len(args) > 1:
                    return ex.merge_val(v.val, args[1], (st, st, st, v.cond, {}))
                ex.oblige(st, 'key', v.cond, n, 'key present')
                v = v.val
            return v
        if name == 'clear':
            ex.wobj(st, o).items.clear()
            return None
        raise Unsupported('dict method ' + name, n)
    if name == 'append':
        if ob.kind == 'nd':
            raise Unsupported('append on array', n)
        d = ex.wobj(st, o)
        if d.tail is not None:
            old = d.tail
            v = args[0]
            d.tail = Tail(t.add(old.n, t.ONE), lambda k: appended(ex, st, v, old, k, n), ('append', v, old))
        else:
            d.items.append(args[0])
        return None
    if name == 'extend':
        ex.list_extend(st, o, args[0], n)
        return None
    if name == 'copy':
        return ex.alloc(st, ob.copy())
    if name == 'insert':
        d = ex.wobj(st, o)
        k = real(ex, args[0], n)
        if t.is_const(k) and 0 <= int(t.cval(k)) <= len(d.items):
            d.items.insert(int(t.cval(k)), args[1])
            return None
        raise Unsupported('insert', n)
    if name == 'pop':
        d = ex.wobj(st, o)
        if d.tail is None and d.items:
            if not args:
                return d.items.pop()
            k = real(ex, args[0], n)
            if t.is_const(k):
                return d.items.pop(int(t.cval(k)))
        raise Unsupported('pop', n)
    if name == 'reverse':
        d = ex.wobj(st, o)
        if d.tail is None:
            d.items.reverse()
            return None
        raise Unsupported('reverse', n)
    if name == 'sort':
        r = f_sorted(ex, st, name, [o], kw, n)
        st.heap[o.id] = st.heap[r.id]
        return None
    if name == 'tolist':
        return ex.alloc(st, ListObj(list(ob.items), ob.tail, 'list'))
    if name in ('sum', 'max', 'min'):
        return FUN[name](ex, st, 'numpy.' + name, [o] + args, kw, n)
    if name == 'index':
        raise Unsupported('list.index', n)
    raise Unsupported('method ' + name, n)
