"""Callee contracts used while verifying callers.

Pure functions are replaced by their specification symbol (their bodies are verified by their own unit).  Functions that
read and write the shared parameter dictionary are executed in place, so their effect on it is exact; the value they
return is then *folded* to the specification symbol when the solver shows it equal to the symbol's definition.
"""
from engine import terms as t
from engine import prove
from engine.pysym import Unsupported, Cx, Ref, DictObj, ListObj, Tail, Maybe, cx
from engine.terms import T
from .backend import make_sym, DEFS

P = 'itmlogic.'
QUAL = {
    'aknfe': P + 'diffraction_attenuation.aknfe.aknfe',
    'fht': P + 'diffraction_attenuation.fht.fht',
    'adiff': P + 'diffraction_attenuation.adiff.adiff',
    'alos': P + 'los_attenuation.alos.alos',
    'ahd': P + 'scatter_attenuation.ahd.ahd',
    'h0f': P + 'scatter_attenuation.h0f.h0f',
    'ascat': P + 'scatter_attenuation.ascat.ascat',
    'curv': P + 'statistics.curv.curv',
    'avar': P + 'statistics.avar.avar',
    'lrprop': P + 'lrprop.lrprop',
    'zlsq1': P + 'preparatory_subroutines.zlsq1.zlsq1',
    'dlthx': P + 'preparatory_subroutines.dlthx.dlthx',
    'hzns': P + 'preparatory_subroutines.hzns.hzns',
    'qlrpfl': P + 'preparatory_subroutines.qlrpfl.qlrpfl',
    'qlra': P + 'preparatory_subroutines.qlra.qlra',
    'qtile': P + 'misc.qtile.qtile',
    'qerfi': P + 'misc.qerfi.qerfi',
}


def positional(ex, fn_node_args, args, kwargs, node):
    names = [x.arg for x in fn_node_args.posonlyargs + fn_node_args.args]
    out = list(args)
    kw = dict(kwargs)
    for nm in names[len(args):]:
        if nm in kw:
            out.append(kw.pop(nm))
        else:
            raise Unsupported('missing argument ' + nm, node)
    if kw:
        raise Unsupported('unexpected keyword', node)
    return out


def resolve(name):
    """Func for a qualified name in /repo, or None"""
    from engine.pysym import find_module, Func
    import ast
    q = QUAL[name]
    m = find_module(q.rsplit('.', 1)[0])
    if m is None:
        return None
    d = m.defs.get(q.rsplit('.', 1)[1])
    if isinstance(d, ast.FunctionDef):
        return Func(d, m)
    return None


def pure(name, n):
    def h(ex, st, args, kwargs, node):
        f = resolve(name)
        a = positional(ex, f.node.args, args, kwargs, node)
        if len(a) != n:
            raise Unsupported('arity of ' + name, node)
        vals = []
        for x in a:
            x = ex.numeric(x, node)
            if isinstance(x, Cx):
                raise Unsupported('complex argument', node)
            vals.append(x)
        return t.app(name, *vals)
    return h


def num_of(ex, st, ref, key, idx=None):
    o = ex.obj(st, ref)
    v = o.items[key]
    if isinstance(v, Maybe):
        raise KeyError(key)
    if idx is not None:
        if isinstance(v, Ref):
            lo = ex.obj(st, v)
            v = lo.items[idx]
        elif isinstance(v, tuple):
            v = v[idx]
        else:
            raise KeyError(key)
    if isinstance(v, Maybe):
        raise KeyError(key)
    return v


def prop_ref(ex, st, args):
    for a in args:
        if isinstance(a, Ref) and isinstance(ex.obj(st, a), DictObj):
            return a
    raise KeyError('prop')


def same_value(ex, st, val, want):
    """val equals the spec term want (unfolded), under the current path"""
    if val is want:
        return True
    if not isinstance(val, T):
        return False
    r = prove.prove(ex.all_hyps(st), t.eq(val, want), max_cases=60, l2=False)
    return r.status == 'proved'


def by_contract(ex, st, name, val, sargs):
    """the callee's own contract decides its value (its unit is then checked as well): a function of nothing but the arguments of
    its specification, called within its precondition"""
    from . import units as U
    u = U.UNITS[name]
    if not set(t.free_vars(val)) <= {v for a in sargs for v in t.free_vars(a)}:
        return False
    p = dict(zip([x if isinstance(x, str) else x[0] for x in u.params], sargs))
    if len(p) != len(sargs):
        return False
    for c in u.pre(make_sym(), p):
        if isinstance(c, bool):
            c = t.boolc(c)
        if c is not t.TRUE and prove.prove(ex.all_hyps(st), c, max_cases=60, l2_timeout=2000).status != 'proved':
            return False
    ex.assumed.add(name)
    return True


def fold(name, getargs, pick, put, modular=False):
    """execute the real body, then fold its value"""
    def h(ex, st, args, kwargs, node):
        f = resolve(name)
        sym = None
        try:
            ref = prop_ref(ex, st, list(args) + list(kwargs.values()))
            a = positional(ex, f.node.args, args, kwargs, node)
            sargs = [x if isinstance(x, T) else t.num(x) for x in getargs(ex, st, a, ref)]
            if not t.is_const(sargs[0]) or t.cval(sargs[0]) != 0:
                sym = t.app(name, *sargs)
        except (KeyError, IndexError, Unsupported, TypeError):
            sym = None
        ret = ex.inline(st, f, args, kwargs, node)
        if sym is not None:
            try:
                val = pick(ex, st, ret, ref)
                if isinstance(val, T):
                    B = make_sym()
                    want = DEFS[name](B, *sargs)
                    if val is want or (modular and by_contract(ex, st, name, val, sargs)) or same_value(ex, st, val, want):
                        ex.folds[name] = ex.folds.get(name, 0) + 1
                        ret = put(ex, st, ret, ref, sym)
                    else:
                        ex.unfolded.append((name, sargs))
            except (KeyError, IndexError):
                pass
        return ret
    return h


def cz(ex, st, ref):
    z = cx(num_of(ex, st, ref, 'zgnd'))
    return z.re, z.im


def adiff_args(ex, st, a, ref):
    g = lambda k, i=None: num_of(ex, st, ref, k, i)
    zr, zi = cz(ex, st, ref)
    p2p = t.ite(t.lt(t.num(g('mdp')), t.ZERO), t.ONE, t.ZERO)
    return [t.num(a[0]), p2p, g('hg', 0), g('hg', 1), g('he', 0), g('he', 1), g('dl', 0), g('dl', 1), g('dla'), g('dlsa'),
            g('tha'), g('gme'), g('wn'), g('dh'), zr, zi]


def alos_args(ex, st, a, ref):
    g = lambda k, i=None: num_of(ex, st, ref, k, i)
    zr, zi = cz(ex, st, ref)
    return [t.num(a[0]), g('he', 0), g('he', 1), g('dh'), zr, zi, g('wn'), g('emd'), g('aed'), g('wis')]


def ascat_args(ex, st, a, ref):
    g = lambda k, i=None: num_of(ex, st, ref, k, i)
    return [t.num(a[0]), g('h0s'), g('ad'), g('rr'), g('etq'), g('the', 0), g('the', 1), g('he', 0), g('he', 1), g('gme'),
            g('wn'), g('tha'), g('ens')]


def h_ascat(ex, st, args, kwargs, node):
    f = resolve('ascat')
    sargs = None
    try:
        ref = prop_ref(ex, st, list(args) + list(kwargs.values()))
        a = positional(ex, f.node.args, args, kwargs, node)
        sargs = [x if isinstance(x, T) else t.num(x) for x in ascat_args(ex, st, a, ref)]
    except (KeyError, IndexError, Unsupported, TypeError):
        pass
    ret = ex.inline(st, f, args, kwargs, node)
    if sargs is not None:
        B = make_sym()
        for key, nm, n in (('ascat1', 'ascat', 13), ('h0s', 'ascat_h0s', 11)):
            try:
                val = num_of(ex, st, ref, key)
            except KeyError:
                continue
            want = t.num(DEFS[nm](B, *sargs[:n]))
            if isinstance(val, T) and (val is want or by_contract(ex, st, 'ascat', val, sargs) or same_value(ex, st, val, want)):
                ex.folds[nm] = ex.folds.get(nm, 0) + 1
                d = ex.wobj(st, ref)
                d.items[key] = t.app(nm, *sargs[:n])
            else:
                ex.unfolded.append((nm, sargs[:n]))
    return ret


def as_profile(ex, st, ref, node):
    """[n, xi, z0..zn] -> (lambda term of z, xi); obliges the stored count to match the samples present"""
    if not isinstance(ref, Ref):
        raise Unsupported('profile argument', node)
    o = ex.obj(st, ref)
    if not isinstance(o, ListObj) or len(o.items) < 2:
        raise Unsupported('profile argument', node)
    n, xi = o.items[0], o.items[1]
    z, cnt = as_lam(ex, st, o, 2, node)
    if not ex.entails(st, t.eq(t.add(t.num(n), t.ONE), cnt)):
        raise Unsupported('profile count differs from its samples', node)
    return z, t.num(xi)


def as_lam(ex, st, o, skip, node):
    pre = [t.num(ex.numeric(x, node)) for x in o.items[skip:]]
    if o.tail is None:
        cnt = t.const(len(pre))
        if not pre:
            raise Unsupported('empty list', node)

        def f(k):
            r = pre[-1]
            for i in reversed(range(len(pre) - 1)):
                r = t.ite(t.eq(k, t.const(i)), pre[i], r)
            return r
        return t.lam(f, cnt), cnt
    fn = o.tail.fn
    cnt = t.add(t.const(len(pre)), o.tail.n)
    if not pre:
        return t.lam(lambda k: t.num(fn(k)), cnt), cnt

    def g(k):
        r = t.num(fn(t.sub(k, t.const(len(pre)))))
        for i in reversed(range(len(pre))):
            r = t.ite(t.eq(k, t.const(i)), pre[i], r)
        return r
    return t.lam(g, cnt), cnt


def real(ex, v, node):
    v = ex.numeric(v, node)
    if isinstance(v, Cx):
        raise Unsupported('complex argument', node)
    return t.num(v)


def h_zlsq1(ex, st, args, kwargs, node):
    a = positional(ex, resolve('zlsq1').node.args, args, kwargs, node)
    z, xi = as_profile(ex, st, a[0], node)
    x1, x2 = real(ex, a[1], node), real(ex, a[2], node)
    window_pre(ex, st, 'zlsq1', z, xi, x1, x2, node)
    return (t.app('zlsq_0', z, xi, x1, x2), t.app('zlsq_n', z, xi, x1, x2))


def h_qtile(ex, st, args, kwargs, node):
    a = positional(ex, resolve('qtile').node.args, args, kwargs, node)
    if not isinstance(a[0], Ref) or not isinstance(ex.obj(st, a[0]), ListObj):
        raise Unsupported('list argument', node)
    z, cnt = as_lam(ex, st, ex.obj(st, a[0]), 0, node)
    k = real(ex, a[1], node)
    ex.oblige(st, 'pre', t.and_(t.le(t.ZERO, k), t.lt(k, cnt)), node, 'qtile requires: order index in range')
    return t.app('qtile', z, k)


def h_dlthx(ex, st, args, kwargs, node):
    a = positional(ex, resolve('dlthx').node.args, args, kwargs, node)
    z, xi = as_profile(ex, st, a[0], node)
    x1, x2 = real(ex, a[1], node), real(ex, a[2], node)
    window_pre(ex, st, 'dlthx', z, xi, x1, x2, node)
    r = t.app('dlthx', z, xi, x1, x2)
    ex.facts.append(t.le(t.ZERO, r))            # lemma dlthx-nonneg
    return r


def window_pre(ex, st, name, z, xi, x1, x2, node):
    B = make_sym()
    n = t.sub(B.length(z), t.ONE)
    for c, txt in ((t.lt(t.ZERO, xi), 'spacing > 0'), (t.le(t.ZERO, x1), 'window starts on the profile'),
                   (t.le(x1, x2), 'window in order'), (t.le(x2, t.mul(n, xi)), 'window ends on the profile'),
                   (t.le(t.ONE, n), 'at least one interval')):
        ex.oblige(st, 'pre', c, node, '%s requires: %s' % (name, txt))


def h_hzns(ex, st, args, kwargs, node):
    a = positional(ex, resolve('hzns').node.args, args, kwargs, node)
    z, xi = as_profile(ex, st, a[0], node)
    B = make_sym()
    n = t.sub(B.length(z), t.ONE)
    if not ex.entails(st, t.eq(real(ex, a[1], node), t.mul(n, xi))):
        raise Unsupported('path length differs from the profile', node)
    hg = [real(ex, ex.getitem(st, a[2], t.const(j), node), node) for j in range(2)]
    gme = real(ex, a[3], node)
    from .spec import hzns as spec_hzns
    r = spec_hzns(B, z, xi, hg[0], hg[1], gme)
    for c, txt in ((t.lt(t.ZERO, xi), 'spacing > 0'), (t.lt(t.ZERO, hg[0]), 'first antenna above ground'),
                   (t.lt(t.ZERO, hg[1]), 'second antenna above ground'), (t.lt(t.ZERO, gme), 'curvature > 0'),
                   (t.le(t.ONE, n), 'at least one interval')):
        ex.oblige(st, 'pre', c, node, 'hzns requires: ' + txt)
    for x in r[2:]:                              # lemma hz-range
        ex.facts += [t.lt(t.ZERO, x), t.le(x, t.mul(n, xi))]
    the = ex.alloc(st, DictObj({0: r[0], 1: r[1]}))
    dl = ex.alloc(st, DictObj({0: r[2], 1: r[3]}))
    return (the, dl)


def _first(ex, st, ret, ref):
    return ret[0] if isinstance(ret, tuple) else ret


def _put_first(ex, st, ret, ref, sym):
    return (sym,) + tuple(ret[1:]) if isinstance(ret, tuple) else sym


def table(names):
    out = {}
    for n in names:
        if n in BUILD:
            out[QUAL[n]] = BUILD[n]
    return out


BUILD = {
    'aknfe': pure('aknfe', 1), 'fht': pure('fht', 2), 'ahd': pure('ahd', 1), 'h0f': pure('h0f', 2), 'curv': pure('curv', 6),
    'adiff': fold('adiff', adiff_args, _first, _put_first),
    'alos': fold('alos', alos_args, _first, _put_first, True),
    'ascat': h_ascat, 'zlsq1': h_zlsq1, 'qtile': h_qtile, 'dlthx': h_dlthx, 'hzns': h_hzns,
}


# ------------------------------------------------------------------ reference attenuation, seen from its callers
GEOK = [('hg', 0), ('hg', 1), ('he', 0), ('he', 1), ('dl', 0), ('dl', 1), ('the', 0), ('the', 1), ('gme', None), ('wn', None),
        ('ens', None), ('dh', None)]
LR_WRITES = ('dls', 'dlsa', 'dla', 'tha', 'wlos', 'wscat', 'dmin', 'xae', 'emd', 'aed', 'wis', 'ascat1', 'ak1', 'ak2', 'ael',
             'ad', 'rr', 'etq', 'h0s', 'ems', 'dx', 'aes', 'wd1', 'xd1', 'afo', 'qk', 'aht', 'xht')


def h_lrprop(ex, st, args, kwargs, node):
    """a fresh point-to-point call: aref and kwx as specified, inputs kept, working values arbitrary"""
    a = positional(ex, resolve('lrprop').node.args, args, kwargs, node)
    ref = a[1]
    if not isinstance(ref, Ref) or not isinstance(ex.obj(st, ref), DictObj):
        raise Unsupported('lrprop argument', node)
    try:
        mdp = num_of(ex, st, ref, 'mdp')
        if not (isinstance(mdp, T) and t.is_const(mdp) and t.cval(mdp) == -1):
            raise Unsupported('lrprop contract covers the point-to-point mode', node)
        geo = []
        for k, i in GEOK:
            if i is None:
                geo.append(real(ex, num_of(ex, st, ref, k), node))
            else:
                v = num_of(ex, st, ref, k)
                geo.append(real(ex, ex.getitem(st, v, t.const(i), node), node))
        geo += [real(ex, x, node) for x in cz(ex, st, ref)]
        dist = real(ex, num_of(ex, st, ref, 'dist'), node)
        kwx = real(ex, num_of(ex, st, ref, 'kwx'), node)
    except KeyError as e:
        raise Unsupported('lrprop needs %s' % e, node)
    pos = {'hg0': 0, 'hg1': 1, 'he0': 2, 'he1': 3, 'dl0': 4, 'dl1': 5, 'gme': 8, 'wn': 9, 'ens': 10, 'zr': 12}
    for nm, i in pos.items():
        ex.oblige(st, 'pre', t.lt(t.ZERO, geo[i]), node, 'lrprop requires %s > 0' % nm)
    ex.oblige(st, 'pre', t.le(t.ZERO, geo[11]), node, 'lrprop requires dh >= 0')
    ex.oblige(st, 'pre', t.lt(t.ZERO, dist), node, 'lrprop requires dist > 0')
    ex.oblige(st, 'pre', t.and_(t.le(t.ZERO, kwx), t.le(kwx, t.const(4))), node, 'lrprop requires kwx in 0..4')
    d = ex.wobj(st, ref)
    for k in LR_WRITES:
        d.items.pop(k, None)          # working values: not part of the contract, reading them afterwards is refused
    d.items['aref'] = t.app('lr_aref_p2p', dist, *geo)
    d.items['kwx'] = t.app('lr_kwx', dist, kwx, *geo)
    return ref


BUILD['lrprop'] = h_lrprop


# ------------------------------------------------------------------ seen from the runners
def geo_of(ex, st, ref, node, keys=GEOK):
    geo = []
    for k, i in keys:
        v = num_of(ex, st, ref, k)
        geo.append(real(ex, v if i is None else ex.getitem(st, v, t.const(i), node), node))
    return geo


def const_of(ex, st, ref, key, node):
    v = num_of(ex, st, ref, key)
    if isinstance(v, T) and t.is_const(v):
        return t.cval(v)
    raise Unsupported('%s is not fixed here' % key, node)


def switches(ex, st, ref, node):
    from . import spec as S
    B = make_sym()
    a = []
    for k in ('lvar', 'mdvarx', 'klimx', 'mdvar', 'klim'):
        try:
            a.append(real(ex, num_of(ex, st, ref, k), node))
        except KeyError:
            a.append(None)
    if a[3] is None:
        if not ex.entails(st, t.le(t.ZERO, a[1])):
            raise Unsupported('mdvar is missing', node)
        a[3] = a[1]
    if a[4] is None:
        if not ex.entails(st, t.lt(t.ZERO, a[2])):
            raise Unsupported('klim is missing', node)
        a[4] = a[2]
    return {k: t.num(v) for k, v in S.prep_switches(B, *a).items()}


def dict_arg(ex, st, v, what, node):
    if not isinstance(v, Ref) or not isinstance(ex.obj(st, v), DictObj):
        raise Unsupported(what + ' argument', node)
    return v


def h_qlrpfl(ex, st, args, kwargs, node):
    a = positional(ex, resolve('qlrpfl').node.args, args, kwargs, node)
    ref = dict_arg(ex, st, a[0], 'qlrpfl', node)
    try:
        z, xi = as_profile(ex, st, num_of(ex, st, ref, 'pfl'), node)
        hg0, hg1, gme, wn, ens = geo_of(ex, st, ref, node, [('hg', 0), ('hg', 1), ('gme', None), ('wn', None), ('ens', None)])
        zr, zi = [real(ex, x, node) for x in cz(ex, st, ref)]
        kwx = real(ex, num_of(ex, st, ref, 'kwx'), node)
        sw = switches(ex, st, ref, node)
    except KeyError as e:
        raise Unsupported('qlrpfl needs %s' % e, node)
    B = make_sym()
    n = t.sub(B.length(z), t.ONE)
    for c, txt in ((xi, 'spacing > 0'), (hg0, 'first antenna above ground'), (hg1, 'second antenna above ground'),
                   (gme, 'curvature > 0'), (wn, 'wave number > 0'), (ens, 'refractivity > 0'), (zr, 'real impedance > 0')):
        ex.oblige(st, 'pre', t.lt(t.ZERO, c), node, 'qlrpfl requires: ' + txt)
    ex.oblige(st, 'pre', t.le(t.ONE, n), node, 'qlrpfl requires: at least one interval')
    ex.oblige(st, 'pre', t.and_(t.le(t.ZERO, kwx), t.le(kwx, t.const(4))), node, 'qlrpfl requires: kwx in 0..4')
    g = (z, xi, hg0, hg1, gme)
    from . import spec as S
    v = {nm: B.U(nm, *g) for nm in S.QL}
    for nm in ('ql_he0', 'ql_he1', 'ql_dl0', 'ql_dl1'):
        ex.facts.append(t.lt(t.ZERO, v[nm]))
    ex.facts.append(t.le(t.ZERO, v['ql_dh']))
    the = ex.alloc(st, ListObj([v['ql_the0'], v['ql_the1']]))
    dl = ex.alloc(st, ListObj([v['ql_dl0'], v['ql_dl1']]))
    he = ex.alloc(st, ListObj([v['ql_he0'], v['ql_he1']]))
    d = ex.wobj(st, ref)
    for k in LR_WRITES:
        d.items.pop(k, None)
    h_fresh(ex, d, ('dlsa', 'dx'))
    d.items.update(dist=t.mul(n, xi), the=the, dl=dl, he=he, dh=v['ql_dh'], mdp=t.const(-1),
                   aref=B.U('ql_aref', *g, wn, ens, zr, zi), kwx=B.U('ql_kwx', *g, wn, ens, zr, zi, kwx), **sw)
    return ref


def h_fresh(ex, d, keys):
    """values the contract leaves open"""
    for k in keys:
        ex.nfresh = getattr(ex, 'nfresh', 0) + 1
        d.items[k] = t.var('open_%s_%d' % (k, ex.nfresh))


def h_qlra(ex, st, args, kwargs, node):
    a = positional(ex, resolve('qlra').node.args, args, kwargs, node)
    ref = dict_arg(ex, st, a[1], 'qlra', node)
    B = make_sym()
    try:
        hg0, hg1, gme, dh = geo_of(ex, st, ref, node, [('hg', 0), ('hg', 1), ('gme', None), ('dh', None)])
        sw = switches(ex, st, ref, node)
    except KeyError as e:
        raise Unsupported('qlra needs %s' % e, node)
    kst = [real(ex, ex.getitem(st, a[0], t.const(j), node), node) for j in range(2)]
    for c, txt in ((hg0, 'first antenna above ground'), (hg1, 'second antenna above ground'), (gme, 'curvature > 0')):
        ex.oblige(st, 'pre', t.lt(t.ZERO, c), node, 'qlra requires: ' + txt)
    ex.oblige(st, 'pre', t.le(t.ZERO, dh), node, 'qlra requires: dh >= 0')
    hes = [B.U('qlra_he', kst[j], h, dh) for j, h in enumerate((hg0, hg1))]
    dls = [B.U('hor_dl', h, dh, gme) for h in hes]
    thes = [B.U('hor_the', h, l, dh, gme) for h, l in zip(hes, dls)]
    ex.facts += [t.lt(t.ZERO, x) for x in hes + dls]          # lemma qlra-pos
    he, dl, the = [ex.alloc(st, ListObj(list(x))) for x in (hes, dls, thes)]
    d = ex.wobj(st, ref)
    d.items.update(he=he, dl=dl, the=the, mdp=t.ONE, **sw)
    return ref


GHOST = '\0session'


def h_lrprop_any(ex, st, args, kwargs, node):
    """the attenuation query in either mode; an area session remembers the link it was set up for (ghost state)"""
    a = positional(ex, resolve('lrprop').node.args, args, kwargs, node)
    ref = dict_arg(ex, st, a[1], 'lrprop', node)
    try:
        mdp = const_of(ex, st, ref, 'mdp', node)
        if mdp == -1:
            return h_lrprop(ex, st, args, kwargs, node)
        geo = geo_of(ex, st, ref, node) + [real(ex, x, node) for x in cz(ex, st, ref)]
        kwx = real(ex, num_of(ex, st, ref, 'kwx'), node)
    except KeyError as e:
        raise Unsupported('lrprop needs %s' % e, node)
    dist = real(ex, a[0], node)
    if mdp not in (0, 1):
        raise Unsupported('lrprop mode', node)
    if mdp == 1:
        pos = {'hg0': 0, 'hg1': 1, 'he0': 2, 'he1': 3, 'dl0': 4, 'dl1': 5, 'gme': 8, 'wn': 9, 'ens': 10, 'zr': 12}
        for nm, i in pos.items():
            ex.oblige(st, 'pre', t.lt(t.ZERO, geo[i]), node, 'lrprop requires %s > 0' % nm)
        ex.oblige(st, 'pre', t.le(t.ZERO, geo[11]), node, 'lrprop requires dh >= 0')
    else:
        g = ex.obj(st, ref).items.get(GHOST)
        if not isinstance(g, tuple):
            raise Unsupported('area query without a session', node)
        for x, y in zip(g, geo):
            ex.oblige(st, 'pre', t.eq(x, y), node, 'lrprop requires the link of its session')
    ex.oblige(st, 'pre', t.lt(t.ZERO, dist), node, 'lrprop requires a distance > 0')
    ex.oblige(st, 'pre', t.and_(t.le(t.ZERO, kwx), t.le(kwx, t.const(4))), node, 'lrprop requires kwx in 0..4')
    d = ex.wobj(st, ref)
    for k in LR_WRITES:
        d.items.pop(k, None)
    h_fresh(ex, d, ('kwx', 'dlsa'))
    ex.facts.append(t.and_(t.le(t.ZERO, d.items['kwx']), t.le(d.items['kwx'], t.const(4))))
    d.items.update({'mdp': t.ZERO, 'dist': dist, 'aref': t.app('lr_aref_area', dist, *geo), GHOST: tuple(geo)})
    return ref


def h_qerfi(ex, st, args, kwargs, node):
    a = positional(ex, resolve('qerfi').node.args, args, kwargs, node)
    v = a[0]
    if isinstance(v, tuple):
        return ex.alloc(st, ListObj([t.app('qerfi', real(ex, x, node)) for x in v]))
    if not isinstance(v, Ref) or not isinstance(ex.obj(st, v), ListObj):
        raise Unsupported('qerfi argument', node)
    o = ex.obj(st, v)
    tail = None
    if o.tail is not None:
        fn = o.tail.fn
        tail = Tail(o.tail.n, lambda k: t.app('qerfi', t.num(fn(k))))
    return ex.alloc(st, ListObj([t.app('qerfi', real(ex, x, node)) for x in o.items], tail))


BUILD.update({'qlrpfl': h_qlrpfl, 'qlra': h_qlra, 'lrprop_area': h_lrprop_any, 'qerfi': h_qerfi})
QUAL['lrprop_area'] = QUAL['lrprop']

from . import geo as _geo
QUAL['ring'] = 'nativelib.ring'
BUILD['ring'] = _geo.h_ring
QUAL['folder'], QUAL['table'] = 'nativelib.folder', 'nativelib.table'
BUILD['folder'], BUILD['table'] = _geo.h_folder, _geo.h_table
QUAL['shapes'], QUAL['older'] = 'nativelib.shapes', 'nativelib.older'
BUILD['shapes'], BUILD['older'] = _geo.h_shapes, _geo.h_older
QUAL['plane'] = 'nativelib.plane'
BUILD['plane'] = _geo.h_plane
QUAL['pitted'] = 'nativelib.pitted'
BUILD['pitted'] = _geo.h_plane


def h_num_samples(ex, st, args, kwargs, node):
    """proved by unit num_samples: the documented curve, an integer from 2 to 600"""
    from . import spec as S
    a = positional(ex, resolve('num_samples').node.args, args, kwargs, node)
    d = t.num(ex.numeric(a[0], node))
    if not ex.entails(st, t.le(t.ZERO, d)):
        raise Unsupported('number of samples of a negative length', node)
    r = S.num_samples(make_sym(), d)
    ex.facts += [t.le(t.num(2), r), t.le(r, t.num(600))]
    return r


QUAL['num_samples'] = 'terrain_module.determine_num_samples'
BUILD['num_samples'] = h_num_samples
