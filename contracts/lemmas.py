"""Lemmas over the specification functions: discharged by the same back ends, on every run that uses them."""
import time
from engine import terms as t
from engine import prove
from . import spec as S
from .backend import make_sym, unfold

LEMMAS = {}


def lemma(fn):
    LEMMAS[fn.__name__.replace('_', '-')] = fn
    return fn


class Ctx:
    def __init__(self):
        self.obls = []

    def ob(self, name, hyps, goal, cases=400, timeout=20000, note=''):
        t0 = time.time()
        if isinstance(goal, bool):
            goal = t.boolc(goal)
        r = prove.prove([h for h in hyps if h is not True], goal, max_cases=cases, l2_timeout=timeout)
        self.obls.append({'name': name, 'status': 'proved' if r.status == 'proved' else 'undischarged',
                          'tier': r.tier, 'cases': r.cases, 'seconds': round(time.time() - t0, 2)})
        self.last = r
        return r.status == 'proved'


def run(name, tier='quick'):
    c = Ctx()
    t0 = time.time()
    LEMMAS[name](c)
    for o in c.obls:
        o['name'] = 'lemma %s: %s' % (name, o['name'])
    return {'unit': 'lemma ' + name, 'obligations': c.obls, 'functions': [], 'contracts': [], 'loops': [], 'notes': [],
            'violations': [], 'bounded': [], 'replayed': 0, 'agreed': 0, 'skipped': 0, 'seconds': round(time.time() - t0, 2),
            'stats': {k: v for k, v in prove.STATS.items()}}


V = t.var


# ------------------------------------------------------------------ horizons
def _hz():
    B = make_sym()
    N = V('N_z', True)
    z = t.lam(lambda k: t.app('arr_z', k), t.add(N, t.ONE))
    g = [z, V('xi'), V('hg0'), V('hg1'), V('gme')]
    k = V('k', True)
    hy = [V('xi') > 0, V('hg0') > 0, V('hg1') > 0, V('gme') > 0, N >= 1, k >= 0, k <= N - 2]
    at = lambda nm: B.U(nm, *g, k)
    return B, N, g, k, hy, at


@lemma
def hz_clear(c):
    """while no sample stood above the direct ray both horizons are the direct ray"""
    B, N, g, k, hy, at = _hz()
    i = S.hz_init(B, *g)
    nx = S.hz_next(B, *g, k)
    ob = at('hz_ob')
    clear = t.eq(ob, t.ZERO)
    inv = [t.or_(clear, t.eq(ob, t.ONE))] + [t.imp(clear, t.eq(at(nm), t.num(v))) for nm, v in zip(S.HZ[:4], i[:4])]
    nclear = t.eq(t.num(nx[4]), t.ZERO)
    c.ob('base', hy, t.eq(t.num(i[4]), t.ZERO))
    c.ob('flag', hy + inv, t.or_(nclear, t.eq(t.num(nx[4]), t.ONE)))
    # angle0 <= direct from the first terminal  <=>  sample below the ray  =>  angle1 <= direct from the other one
    for j, nm in enumerate(S.HZ[:4]):
        c.ob('step ' + nm, hy + inv, t.imp(nclear, t.eq(t.num(nx[j]), t.num(i[j]))))


@lemma
def hz_range(c):
    """a horizon distance is positive and at most the path length"""
    B, N, g, k, hy, at = _hz()
    xi = V('xi')
    for nm, j in (('hz_la', 2), ('hz_lb', 3)):
        i, nx = S.hz_init(B, *g)[j], S.hz_next(B, *g, k)[j]
        for what, f in (('positive', lambda x: t.num(x) > 0), ('within the path', lambda x: t.num(x) <= N * xi)):
            c.ob('%s %s base' % (nm, what), hy, f(i))
            c.ob('%s %s step' % (nm, what), hy + [f(at(nm))], f(nx))


@lemma
def hz_max(c):
    """the sequences are running maxima of the elevation angles, and the distance is where the maximum is first attained"""
    B, N, g, k, hy, at = _hz()
    nx = S.hz_next(B, *g, k)
    z, xi, hg0, hg1, gme = g
    a0 = S.hz_angle0(B, z, xi, hg0, gme, k + 1)
    a1 = S.hz_angle1(B, z, xi, hg1, gme, k + 1)
    c.ob('first angle is the running maximum', hy, t.eq(t.num(nx[0]), t.maxv(at('hz_ma'), a0)))
    c.ob('second angle is the running maximum', hy, t.eq(t.num(nx[1]), t.maxv(at('hz_mb'), a1)))
    c.ob('first distance moves exactly on a larger angle', hy,
         t.eq(t.num(nx[2]), t.ite(t.lt(at('hz_ma'), a0), (k + 1) * xi, at('hz_la'))))
    c.ob('second distance moves exactly on a larger angle', hy,
         t.eq(t.num(nx[3]), t.ite(t.lt(at('hz_mb'), a1), (N - (k + 1)) * xi, at('hz_lb'))))


@lemma
def dlthx_nonneg(c):
    """terrain irregularity is not negative (order statistics of a descending sort do not increase with the rank)"""
    B = make_sym()
    N = V('N_z', True)
    z = t.lam(lambda k: t.app('arr_z', k), t.add(N, t.ONE))
    xi, x1, x2 = V('xi'), V('x1'), V('x2')
    hy = [xi > 0, x1 >= 0, x1 <= x2, x2 <= N * xi, N >= 1, x2 / xi - x1 / xi >= 0]
    w = x2 / xi - x1 / xi
    ka = B.min(B.max(4, B.floor(0.1 * (w + 8))), 25)
    cnt = 10 * ka - 5
    kb = cnt - ka + 1
    c.ob('upper rank is not below the lower rank', hy, t.le(ka - 1, kb - 1))
    c.ob('ranks exist', hy, t.and_(t.le(t.ZERO, ka - 1), t.lt(kb - 1, cnt)))
    d = S.dlthx(B, z, xi, x1, x2)
    ap = [a for a in t.atoms(d) if a.op == 'app' and a.args[0] == 'qtile']
    up = [a for a in ap if a.args[2] is t.num(ka - 1)]
    lo = [a for a in ap if a.args[2] is t.num(kb - 1)]
    assert up and lo and up[0].args[1] is lo[0].args[1]
    c.ob('denominator', hy, t.lt(t.ZERO, 1 - 0.8 * t.exp(-(x2 - x1) / t.num(50e3))))
    # q_hi - q_lo >= 0 and 1 - 0.8 exp(.) > 0
    hi, low = t.from_atom(up[0]), t.from_atom(lo[0])
    p, q, e = V('p'), V('q'), V('e')
    c.ob('quotient', [p >= q, e > 0], t.le(t.ZERO, (p - q) / e))
    c.ob('shape', hy, t.eq(d, t.ite(w >= 2, (hi - low) / (1 - 0.8 * t.exp(-(x2 - x1) / t.num(50e3))), t.ZERO)))


# ------------------------------------------------------------------ continuity of the reference attenuation
@lemma
def continuity(c):
    B = make_sym()
    nm = ['hg0', 'hg1', 'he0', 'he1', 'dl0', 'dl1', 'the0', 'the1', 'gme', 'wn', 'ens', 'dh', 'zr', 'zi']
    for p2p in (0, 1):
        g = S.lr_setup(B, p2p, *[V(x) for x in nm])
        ael, ak1, ak2 = S.lr_los(B, g)
        aes, ems, dx = S.lr_scat(B, g)
        tag = ' (p2p)' if p2p else ' (area)'
        hy = [V(x) > 0 for x in ('he0', 'he1', 'dl0', 'dl1', 'gme', 'wn', 'ens')]
        c.ob('line of sight meets diffraction at the smooth-earth horizon' + tag, hy,
             t.eq(ael + ak1 * g.dlsa + ak2 * B.log(g.dlsa), g.aed + g.emd * g.dlsa))
        c.ob('diffraction meets scatter at the crossover' + tag, hy, t.eq(g.aed + g.emd * dx, aes + ems * dx))


# ------------------------------------------------------------------ monotone quantiles
class VV:
    pass


def _v(kdv):
    v = VV()
    v.kdv = kdv
    v.sgtm, v.sgtp, v.sgtd, v.zd = V('sgtm'), V('sgtp'), V('sgtd'), V('zd')
    v.tgtd = (v.sgtp - v.sgtd) * v.zd
    v.sgl, v.vs0, v.vmd = V('sgl'), V('vs0'), V('vmd')
    hy = [v.sgtm >= 0, v.sgtp >= 0, v.sgtd >= 0, v.zd > 0, v.sgl >= 0, v.vs0 >= 0]
    return v, hy


@lemma
def avar_spreads(c):
    """the spreads entering the quantile are not negative"""
    B = make_sym()
    k, de = V('k', True), V('de')
    tb = lambda l: B.table(l, k)
    hy = [k >= 0, k <= 6]
    for nm, (a, b, x, y, w) in {'sgtm': (S.BSM1, S.BSM2, S.XSM1, S.XSM2, S.XSM3),
                                'sgtp': (S.BSP1, S.BSP2, S.XSP1, S.XSP2, S.XSP3)}.items():
        for i in range(7):
            c.ob('%s climate %d' % (nm, i + 1), [], t.le(t.ZERO, S.curv(B, a[i], b[i], x[i], y[i], w[i], de)))
    q = V('q')
    for l1, l2, l3, nm in ((S.BFM1, S.BFM2, S.BFM3, 'gm'), (S.BFP1, S.BFP2, S.BFP3, 'gp')):
        for i in range(7):
            c.ob('%s climate %d' % (nm, i + 1), [], t.le(t.ZERO, t.num(l1[i]) + l2[i] / ((l3[i] * q) ** 2 + 1)))
    for i in range(7):
        c.ob('tables climate %d' % (i + 1), [], t.boolc(S.BSD1[i] >= 0 and S.BZD1[i] > 0))
    r, w = V('r'), V('w')
    c.ob('product', [r >= 0, w >= 0], t.le(t.ZERO, r * w))
    c.ob('sgl', [r >= 0], t.le(t.ZERO, 10 * r / (r + 13)))
    c.ob('roughness', [V('dist') >= 0, V('dh') >= 0], t.le(t.ZERO, (1 - 0.8 * t.exp(-V('dist') / t.num(50e3))) * V('dh')))
    c.ob('vs0', [], t.le(t.ZERO, r * r))


def _h(z, cst):
    return z * z / (cst + z * z)


def _monotone_scaled_root(c, tag, Q1, Q2, z1, z2, hy):
    """z1 <= z2 and z^2 Q increasing in |z|, Q >= 0  =>  z1 sqrt(Q1) <= z2 sqrt(Q2); on abstract values"""
    a, b, r, s, P, R = V('za'), V('zb'), V('ra'), V('rb'), V('Pa'), V('Pb')
    base = [r >= 0, s >= 0, t.eq(r * r, P), t.eq(s * s, R), a <= b]
    c.ob(tag + ': both positive', base + [a >= 0, a * a * P <= b * b * R], a * r <= b * s)
    c.ob(tag + ': both negative', base + [b <= 0, b * b * R <= a * a * P], a * r <= b * s)
    c.ob(tag + ': opposite signs', base + [a <= 0, b >= 0], a * r <= b * s)


@lemma
def avar_clamp_monotone(c):
    B = make_sym()
    a, b = V('a'), V('b')
    c.ob('below zero', [a <= b, b < 0], t.le(S.avar_clamp(B, a), S.avar_clamp(B, b)))
    c.ob('across zero', [a < 0, b >= 0], t.le(S.avar_clamp(B, a), S.avar_clamp(B, b)))
    c.ob('above zero', [a <= b, a >= 0], t.le(S.avar_clamp(B, a), S.avar_clamp(B, b)))


@lemma
def avar_confidence(c):
    """for fixed time and location deviates the quantile does not increase with the confidence deviate"""
    B = make_sym()
    z, a, b = V('z'), V('a'), V('b')
    v, hv = _v(0)
    s = lambda x: x * S.avar_sgt(B, v, x)
    # s is increasing and has the sign of its argument
    c.ob('s nonneg', hv + [z >= 0], s(z) >= 0)
    c.ob('s nonpos', hv + [z <= 0], s(z) <= 0)
    c.ob('s increasing', hv + [a <= b], t.le(s(a), s(b)))
    for cst in (7.8, 24):
        c.ob('h%s bounds' % cst, [], t.and_(t.le(t.ZERO, _h(z, cst)), t.le(_h(z, cst), t.ONE)))
        c.ob('h%s increasing' % cst, [a >= 0, a <= b], t.le(_h(a, cst), _h(b, cst)))
        c.ob('h%s decreasing left of 0' % cst, [b <= 0, a <= b], t.le(_h(b, cst), _h(a, cst)))
    L, W = v.sgl, v.vs0
    zt, zl = V('zt'), V('zl')
    for kdv in range(4):
        v, hv = _v(kdv)
        Q = lambda x: S.avar_sgc2(B, v, zt, zl, x)
        if kdv == 0:
            form = lambda x: s(x) ** 2 * (1 + _h(x, 7.8)) + (L * x) ** 2 * (1 + _h(x, 24)) + W * x ** 2
        elif kdv == 1:
            st = s(zt)
            form = lambda x: L ** 2 * x ** 2 * (1 + _h(x, 24)) + W * x ** 2 + st ** 2 * _h(x, 7.8)
        else:
            st = s(zt)
            ll = zt if kdv == 2 else zl
            form = lambda x: W * x ** 2 + st ** 2 * _h(x, 7.8) + (L * ll) ** 2 * _h(x, 24)
        c.ob('mode %d: square of the scaled spread' % kdv, hv, t.eq(z * z * Q(z), form(z)))
        # every summand is a product of nonnegative factors that do not decrease with |z|
        x1, x2, h1, h2, k1, k2, s1, s2, m = [V(n) for n in ('x1', 'x2', 'h1', 'h2', 'k1', 'k2', 's1', 's2', 'm')]
        if kdv == 0:
            for nm, hh in (('right', [s1 >= 0, s1 <= s2]), ('left', [s1 <= 0, s2 <= s1])):
                c.ob('mode 0: time part ' + nm, hh + [h1 >= 0, h1 <= h2], s1 ** 2 * (1 + h1) <= s2 ** 2 * (1 + h2))
        c.ob('mode %d: location part' % kdv, [x1 >= 0, x1 <= x2, h1 >= 0, h1 <= h2], L ** 2 * x1 * (1 + h1) <= L ** 2 * x2 * (1 + h2))
        c.ob('mode %d: constant part' % kdv, [x1 >= 0, x1 <= x2, W >= 0], W * x1 <= W * x2)
        c.ob('mode %d: saturating part' % kdv, [h1 >= 0, h1 <= h2], m * m * h1 <= m * m * h2)
        c.ob('mode %d: spread variance is not negative' % kdv, hv, t.le(t.ZERO, Q(z)), note='')
        # the quantile before the final adjustment, given z1 sqrt(Q1) <= z2 sqrt(Q2)
        raw = lambda x: S.avar_raw(B, v, zt, zl, x, V('aref'))
        fact = t.le(a * B.sqrt(Q(a)), b * B.sqrt(Q(b)))
        c.ob('mode %d: quantile' % kdv, hv + [a <= b, fact], t.le(raw(b), raw(a)))
    _monotone_scaled_root(c, 'scaled root', None, None, None, None, None)


@lemma
def avar_time(c):
    """modes with a separate time deviate (mobile, broadcast): the quantile does not increase with the time deviate"""
    B = make_sym()
    a, b = V('a'), V('b')
    v0, hv = _v(0)
    s = lambda x: x * S.avar_sgt(B, v0, x)
    c.ob('s increasing', hv + [a <= b], t.le(s(a), s(b)))
    # Lipschitz: |sqrt(C + k s2^2) - sqrt(C + k s1^2)| <= sqrt(k) |s2 - s1|, and zc^2 k <= 1 for k = 1/(7.8 + zc^2)
    C, k, s1, s2, u, w, zc, D = [V(n) for n in ('C', 'kk', 's1', 's2', 'u', 'w', 'zc', 'D')]
    root = [u >= 0, w >= 0, t.eq(u * u, C + k * s1 ** 2), t.eq(w * w, C + k * s2 ** 2), C >= 0, k >= 0]
    c.ob('cauchy', root, t.le((C + k * s1 * s2) ** 2, (u * w) ** 2))
    c.ob('cauchy root', [D * D <= u * u * w * w, u >= 0, w >= 0], D <= u * w)
    p = V('p')
    c.ob('lipschitz', [t.eq(u * u, C + k * s1 ** 2), t.eq(w * w, C + k * s2 ** 2), C + k * s1 * s2 <= u * w],
         t.le((w - u) ** 2, k * (s2 - s1) ** 2))
    c.ob('weight', [], t.le(zc ** 2 / (7.8 + zc ** 2), t.ONE))
    c.ob('scaled', [D * D <= k * p * p, k >= 0, zc * zc * k <= 1], t.le(zc ** 2 * D ** 2, p * p), timeout=30000)
    c.ob('bounded', [zc ** 2 * D ** 2 <= p * p, p >= 0], t.le(t.ZERO, p + zc * D))
    zl = V('zl')
    for kdv in (1, 3):
        v, hv = _v(kdv)
        Q = lambda x: S.avar_sgc2(B, v, x, zl, zc)
        rest = (v.sgl ** 2 if kdv == 1 else t.ZERO) + v.vs0 + (v.sgl * (zc if kdv == 1 else zl)) ** 2 / (24 + zc ** 2)
        c.ob('mode %d: form of the variance' % kdv, hv, t.eq(Q(a), rest + s(a) ** 2 / (7.8 + zc ** 2)))
        raw = lambda x: S.avar_raw(B, v, x, zl, zc, V('aref'))
        fact = t.le(t.ZERO, s(b) - s(a) + zc * (B.sqrt(Q(b)) - B.sqrt(Q(a))))
        c.ob('mode %d: quantile' % kdv, hv + [a <= b, fact], t.le(raw(b), raw(a)))


# ------------------------------------------------------------------ reciprocity
@lemma
def recip(c):
    """the specified attenuation of a link does not change when its two ends are exchanged"""
    B = make_sym()
    v = {n: V(n) for n in ('hg0', 'hg1', 'he0', 'he1', 'dl0', 'dl1', 'the0', 'the1', 'gme', 'wn', 'ens', 'dh', 'zr', 'zi',
                           'd', 'dla', 'dlsa', 'tha', 'h0s', 'ad', 'rr', 'r2', 'etq', 'emd', 'aed', 'wis', 'dist')}
    pos = [v[n] > 0 for n in ('hg0', 'hg1', 'he0', 'he1', 'dl0', 'dl1', 'gme', 'wn', 'ens', 'd', 'zr', 'dist')] + [v['dh'] >= 0]
    A = ['d', 1, 'hg0', 'hg1', 'he0', 'he1', 'dl0', 'dl1', 'dla', 'dlsa', 'tha', 'gme', 'wn', 'dh', 'zr', 'zi']
    get = lambda ns: [v[n] if isinstance(n, str) else t.num(n) for n in ns]
    flip = lambda ns: [n[:-1] + ('1' if n[-1] == '0' else '0') if isinstance(n, str) and n[-1] in '01' and n[:-1] in ('hg', 'he', 'dl', 'the') else n
                       for n in ns]
    c.ob('diffraction', pos, t.eq(S.adiff(B, *get(A)), S.adiff(B, *get(flip(A)))))
    L = ['d', 'he0', 'he1', 'dh', 'zr', 'zi', 'wn', 'emd', 'aed', 'wis']
    c.ob('line of sight', pos, t.eq(S.alos(B, *get(L)), S.alos(B, *get(flip(L)))))
    Sc = ['d', 'h0s', 'ad', 'rr', 'etq', 'the0', 'the1', 'he0', 'he1', 'gme', 'wn', 'tha', 'ens']
    c.ob('scatter', pos, t.eq(S.ascat(B, *get(Sc)), S.ascat(B, *get(flip(Sc)))))
    c.ob('scatter memory', pos, t.eq(S.ascat_h0s(B, *get(Sc[:11])), S.ascat_h0s(B, *get(flip(Sc[:11])))))
    # equally far horizons: the height ratio does not matter
    T1 = ['d', 'h0s', 0, 'rr', 'etq', 'the0', 'the1', 'he0', 'he1', 'gme', 'wn', 'tha', 'ens']
    T2 = ['d', 'h0s', 0, 'r2'] + T1[4:]
    c.ob('scatter, equal horizons', pos, t.eq(S.ascat(B, *get(T1)), S.ascat(B, *get(T2))))
    c.ob('scatter memory, equal horizons', pos, t.eq(S.ascat_h0s(B, *get(T1[:11])), S.ascat_h0s(B, *get(T2[:11]))))
    # one orientation of every part, then the attenuation itself
    G = ['hg0', 'hg1', 'he0', 'he1', 'dl0', 'dl1', 'the0', 'the1', 'gme', 'wn', 'ens', 'dh', 'zr', 'zi']
    where = {'adiff': [(2, 3), (4, 5), (6, 7)], 'alos': [(1, 2)], 'ascat': [(5, 6), (7, 8)], 'ascat_h0s': [(5, 6), (7, 8)]}
    dl0, dl1, he0, he1 = v['dl0'], v['dl1'], v['he0'], v['he1']
    for case, hyp, ratio in (('first horizon nearer', dl0 < dl1, he0 / he1), ('second horizon nearer', dl1 < dl0, he1 / he0),
                             ('equal horizons', t.eq(dl0, dl1), t.ONE)):
        hy = pos + [hyp]
        seen = set()

        class One(type(B)):
            def U(self, name, *args):
                a = [t.num(x) for x in args]
                if name in ('ascat', 'ascat_h0s'):
                    if case == 'equal horizons':
                        if ('ad', a[2].id) not in seen:
                            seen.add(('ad', a[2].id))
                            c.ob('%s: separation is zero' % case, hy, t.eq(a[2], t.ZERO))
                        a[2] = t.ZERO
                    else:
                        if ('rr', a[3].id) not in seen:
                            seen.add(('rr', a[3].id))
                            c.ob('%s: ratio' % case, hy, t.eq(a[3], ratio))
                    a[3] = ratio
                w = where.get(name)
                if w and a[w[0][0]].id > a[w[0][1]].id:
                    for i, j in w:
                        a[i], a[j] = a[j], a[i]
                return t.app(name, *a)
        O = One()
        there = S.lr_aref(O, S.lr_setup(O, 1, *get(G)), v['dist'])
        back = S.lr_aref(O, S.lr_setup(O, 1, *get(flip(G))), v['dist'])
        c.ob('%s: attenuation' % case, hy, t.eq(there, back))


# ------------------------------------------------------------------ positivity of the prepared geometry (used by the runners)
@lemma
def qlra_pos(c):
    B = make_sym()
    kst, hg, dh, gme, he = [V(x) for x in ('kst', 'hg', 'dh', 'gme', 'he')]
    c.ob('effective height', [hg > 0, dh >= 0], t.lt(t.ZERO, S.qlra_he(B, kst, hg, dh)))
    c.ob('horizon distance', [he > 0, dh >= 0, gme > 0], t.lt(t.ZERO, S.hor_dl(B, he, dh, gme)))


@lemma
def ql_pos(c):
    """effective heights and horizon distances of a prepared path are positive (horizon distances of the profile are, by hz-range,
    and the roughness is not negative, by dlthx-nonneg)"""
    B = make_sym()
    N = V('N_z', True)
    z = t.lam(lambda k: t.app('arr_z', k), t.add(N, t.ONE))
    xi, hg0, hg1, gme = [V(x) for x in ('xi', 'hg0', 'hg1', 'gme')]
    t0, t1, l0, l1 = S.hzns(B, z, xi, hg0, hg1, gme)
    hy = [xi > 0, hg0 > 0, hg1 > 0, gme > 0, N >= 1]
    dist, _, _, dl0, dl1, dh, he0, he1 = S.qlrpfl_geom(B, z, xi, hg0, hg1, gme)
    hz = [t.lt(t.ZERO, l0), t.le(l0, dist), t.lt(t.ZERO, l1), t.le(l1, dist)]
    c.ob('the roughness is asked within the path', hy + hz, t.and_(t.le(t.ZERO, B.min(15 * hg0, 0.1 * l0)), t.le(
        B.min(15 * hg0, 0.1 * l0), dist - B.min(15 * hg1, 0.1 * l1)), t.le(dist - B.min(15 * hg1, 0.1 * l1), dist)))
    hy = hy + hz + [t.le(t.ZERO, dh)]
    for nm, h in (('first', he0), ('second', he1)):
        c.ob(nm + ' effective height', hy, t.lt(t.ZERO, h))
    x = V('x')
    c.ob('smooth-earth horizon', [x > 0, gme > 0, V('dh') >= 0], t.lt(t.ZERO, S.hor_dl(B, x, V('dh'), gme)))
    for nm, l in (('first', dl0), ('second', dl1)):
        c.ob(nm + ' horizon distance', hy + [t.lt(t.ZERO, he0), t.lt(t.ZERO, he1)], t.lt(t.ZERO, l))
