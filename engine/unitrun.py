"""Generate and discharge the obligations of one unit from /repo's current source."""
import os
import time
from . import terms as t
from . import prove
from . import pysym
from .pysym import Exec, State, Func, Unsupported, Ref, DictObj, ListObj, Tail, Maybe, Cx, Opaque, find_module
from .terms import T

HERE = os.path.dirname(os.path.abspath(__file__))
if not any(r.endswith('/contracts') for r in pysym.ROOTS):
    pysym.ROOTS.append(os.path.join(os.path.dirname(HERE), 'contracts'))


def flat_sym(ex, st, v, pre, out, depth=0):
    if depth > 12:
        return
    if isinstance(v, Maybe):
        out['?' + pre] = v.cond
        v = v.val
    if isinstance(v, Ref):
        o = ex.obj(st, v)
        if isinstance(o, DictObj):
            for k, x in o.items.items():
                flat_sym(ex, st, x, pre + ('.' if pre else '') + str(k), out, depth + 1)
            return
        out[pre + '.len'] = o.length()
        for i, x in enumerate(o.items):
            flat_sym(ex, st, x, pre + '.' + str(i), out, depth + 1)
        if o.tail is not None:
            out[pre + '.tail'] = o
        return
    if isinstance(v, tuple):
        out[pre + '.len'] = t.const(len(v))
        for i, x in enumerate(v):
            flat_sym(ex, st, x, pre + '.' + str(i), out, depth + 1)
        return
    if isinstance(v, Cx):
        out[pre + '.re'], out[pre + '.im'] = v.re, v.im
        return
    if isinstance(v, bool):
        v = t.boolc(v)
    out[pre] = v


def make_params(u):
    """symbolic parameters: name -> (value for spec, value for executor builder)"""
    p = {}
    for x in u.params:
        nm, kind = x if isinstance(x, tuple) else (x, 'R')
        if u.fixed and nm in u.fixed:
            p[nm] = t.num(u.fixed[nm])
        elif kind == 'R':
            p[nm] = t.var(nm)
        elif kind == 'I':
            p[nm] = t.var(nm, True)
        elif kind == 'Z':
            # a profile z[0..N] of symbolic length
            N = t.var('N_' + nm, True)
            p[nm] = t.lam(lambda k, nm=nm: t.app('arr_' + nm, k), t.add(N, t.ONE))
        else:
            raise ValueError(kind)
    return p


def exec_value(ex, st, kind, v):
    if kind == 'Z':
        lam = v.args[0][0][0][0]
        body, b, n = lam.args[1], lam.args[0], lam.args[2]
        return ex.alloc(st, ListObj([], Tail(n, lambda k: t.subst(body, {b: k}))))
    return v


class Run:
    pass


def execute(u, contracts, externals=None, loop_specs=None, hyps_extra=(), prune=False):
    from contracts import backend
    B = backend.make_sym()
    p = make_params(u)
    hyps = []
    if u.pre:
        for c in u.pre(B, p):
            if isinstance(c, bool):
                c = t.boolc(c)
            hyps.append(c)
    for x in u.params:
        if isinstance(x, tuple) and x[1] == 'Z':
            hyps.append(t.le(t.ONE, t.var('N_' + x[0], True)))
    hyps += list(hyps_extra)
    ex = Exec(hyps=hyps, contracts=contracts, externals=externals or {}, loop_specs=loop_specs or [])
    ex.prune = prune or u.prune
    ex.folds = {}
    ex.params = p
    ex.unfolded = []
    ex.assumed = set()
    st = State()
    modname, fname = u.fn.rsplit('.', 1)
    mod = find_module(modname)
    fn = Func(mod.defs[fname], mod)
    args = []
    for x in u.params:
        nm, kind = x if isinstance(x, tuple) else (x, 'R')
        args.append(exec_value(ex, st, kind, p[nm]))
    ret = ex.inline(st, fn, args, {}, None)
    out = {}
    flat_sym(ex, st, ret, '', out)
    r = Run()
    r.ex, r.st, r.out, r.p, r.B, r.hyps = ex, st, out, p, B, hyps
    return r


def goal_of(got, want):
    if isinstance(got, T) and t.is_bool(got):
        if isinstance(want, bool):
            want = t.boolc(want)
        if not t.is_bool(want):
            return t.eq(t.num(got), t.num(want))
        return t.iff(got, want)
    if isinstance(got, str) or got is None or isinstance(want, str) or want is None:
        return t.boolc(got == want)
    if not isinstance(got, T):
        return None
    if isinstance(want, bool):
        want = t.boolc(want)
    return t.eq(t.num(got), t.num(want))
