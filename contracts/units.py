"""Units: harness function, parameters, precondition, expected observables, callee contracts, sampler."""
import math
from . import spec as S

UNITS = {}
ORDER = []


class Unit:
    def __init__(self, name, fn, params, post=None, pre=None, sample=None, contracts=(), rel=None, doc='', modules='harness',
                 **kw):
        self.name, self.fn, self.params, self.post, self.pre = name, fn, params, post, pre
        self.sample, self.contracts, self.rel, self.doc = sample, contracts, rel, doc
        self.module = modules
        for k, v in kw.items():
            setattr(self, k, v)
        UNITS[name] = self
        ORDER.append(name)

    obls = False
    frame = None
    samples = 60
    max_cases = 800
    defined = None
    facts = None
    fixed = None
    prune = False
    levels = (0, 1)
    soft = False           # an undischarged obligation without a failing input is never reported as a violation
    kinds = None           # definedness obligations asked for (all)
    native = False         # replay only: the proof of what it observes is by lemma over the supporting contracts


def lu(r, a, b):
    return math.exp(r.uniform(math.log(a), math.log(b)))


def pick(r, *xs):
    return r.choice(xs)


def nice(r, x):
    """sometimes a short decimal"""
    return float('%.3g' % x) if r.random() < 0.5 else x


# ------------------------------------------------------------------ plausible radio links
def link(r):
    gme = 157e-9 * (1 - 0.04665 * math.exp(r.uniform(240, 410) / 179.3))
    if r.random() < 0.1:
        gme = lu(r, 50e-9, 300e-9)
    wn = lu(r, 0.3, 450)
    hg = [nice(r, lu(r, 0.4, 3500)) for _ in range(2)]
    he = [h * r.choice([1, 1, r.uniform(1, 3)]) + r.choice([0, r.uniform(0, 50)]) for h in hg]
    dh = r.choice([0.0, nice(r, lu(r, 0.1, 800)), nice(r, lu(r, 5, 200))])
    dls = [math.sqrt(2 * h / gme) for h in he]
    dl = [s * r.choice([1, r.uniform(0.05, 1), r.uniform(0.3, 1), r.uniform(1, 3.5)]) for s in dls]
    the = [r.choice([-2 * h / s, r.uniform(-0.02, 0.03), r.uniform(-0.25, 0.25)]) for h, s in zip(he, dls)]
    low = r.random() < 0.06
    if low:
        # a beyond-smooth-earth horizon at a low frequency: diffraction line with a negative intercept, falling line of sight
        dh, wn, he = r.choice([0.0, r.uniform(0, 10)]), lu(r, 0.3, 2), [h + 40 for h in he]
        dls = [math.sqrt(2 * h / gme) for h in he]
        dl = [s * f for s, f in zip(dls, r.sample([r.uniform(1, 1.3), r.uniform(1.7, 3.3)], 2))]
        the = [-2 * h / s for h, s in zip(he, dls)]
    ens = r.uniform(240, 410)
    qi = 376.62 * lu(r, 1e-4, 6) / wn
    import cmath
    eps = r.uniform(1.5, 85)
    z = cmath.sqrt(complex(eps - 1, qi))
    if r.random() < 0.5:
        z = z / complex(eps, qi)
    if r.random() < 0.1:
        z = complex(r.uniform(0.01, 10), r.uniform(-10, 10))
    if low:
        z = lu(r, 0.01, 0.15) * complex(1, -r.random())
    return dict(hg0=hg[0], hg1=hg[1], he0=he[0], he1=he[1], dl0=dl[0], dl1=dl[1], the0=the[0], the1=the[1], gme=gme,
                wn=wn, ens=ens, dh=dh, zr=z.real, zi=z.imag), sum(dls)


GEO = ['hg0', 'hg1', 'he0', 'he1', 'dl0', 'dl1', 'the0', 'the1', 'gme', 'wn', 'ens', 'dh', 'zr', 'zi']


def geo_pre(B, p):
    c = [p[k] > 0 for k in ('hg0', 'hg1', 'he0', 'he1', 'dl0', 'dl1', 'gme', 'wn', 'ens') if k in p]
    if 'dh' in p:
        c.append(p['dh'] >= 0)
    if 'zr' in p:
        c.append(p['zr'] > 0)
    return c


# ------------------------------------------------------------------ leaf functions
Unit('aknfe', 'harness.c_aknfe', ['v2'], post=lambda B, p: {'aknfe': S.aknfe(B, p['v2'])},
     sample=lambda r: {'v2': r.choice([r.uniform(-3, 12), 0.0, 5.76, lu(r, 1e-6, 1e4)])})

Unit('fht', 'harness.c_fht', ['x', 'pk'], post=lambda B, p: {'fht': S.fht(B, p['x'], p['pk'])},
     pre=lambda B, p: [p['pk'] > 0, p['x'] > 0],
     sample=lambda r: {'x': r.choice([lu(r, 0.01, 5000), r.uniform(150, 250), r.uniform(1500, 2500), 200.0, 2000.0, 1.0]),
                       'pk': r.choice([lu(r, 1e-7, 1.5), 1e-5, lu(r, 1e-6, 1e-4)])})

Unit('ahd', 'harness.c_ahd', ['td'], post=lambda B, p: {'ahd': S.ahd(B, p['td'])}, pre=lambda B, p: [p['td'] > 0],
     sample=lambda r: {'td': r.choice([lu(r, 1, 1e6), 10e3, 70e3, r.uniform(5e3, 90e3)])})

Unit('h0f', 'harness.c_h0f', ['r', 'et'], post=lambda B, p: {'h0f': S.h0f(B, p['r'], p['et'])},
     pre=lambda B, p: [p['r'] > 0],
     sample=lambda r: {'r': lu(r, 0.05, 200), 'et': r.choice([r.uniform(-1, 8), float(r.randint(-1, 7)), r.uniform(1, 5)])})

Unit('curv', 'harness.c_curv', ['c1', 'c2', 'x1', 'x2', 'x3', 'de'],
     post=lambda B, p: {'curv': S.curv(B, *[p[k] for k in ('c1', 'c2', 'x1', 'x2', 'x3', 'de')])},
     pre=lambda B, p: [p['x1'] > 0, p['x3'] > 0],
     sample=lambda r: {'c1': r.uniform(-10, 10), 'c2': r.uniform(0, 200), 'x1': r.uniform(8e4, 2e6), 'x2': r.uniform(9e4, 4e5),
                       'x3': r.uniform(9e4, 2e5), 'de': r.choice([0.0, r.uniform(0, 1e6)])})

Unit('qerf', 'harness.c_qerf', ['z'], post=lambda B, p: {'qerf': S.qerf(B, p['z'])},
     sample=lambda r: {'z': r.choice([r.uniform(-4, 4), r.uniform(-12, 12), 0.0, 10.0, -10.0])})

Unit('qlrps', 'harness.c_qlrps', ['fmhz', 'zsys', 'en0', ('ipol', 'I'), 'eps', 'sgm'],
     post=lambda B, p: dict(zip(('wn', 'gme', 'ens', 'zr', 'zi'), S.qlrps(B, *[p[k] for k in
                            ('fmhz', 'zsys', 'en0', 'ipol', 'eps', 'sgm')]))),
     pre=lambda B, p: [p['fmhz'] > 0, p['eps'] >= 1, p['sgm'] >= 0],
     sample=lambda r: {'fmhz': nice(r, lu(r, 10, 30000)), 'zsys': r.choice([0.0, r.uniform(-100, 4000)]),
                       'en0': nice(r, r.uniform(250, 400)), 'ipol': r.choice([0, 1, 2, -1]), 'eps': nice(r, r.uniform(1, 85)),
                       'sgm': nice(r, lu(r, 1e-4, 6))})


# ------------------------------------------------------------------ region formulas
ADIFF = ['d', ('mdp', 'I'), 'hg0', 'hg1', 'he0', 'he1', 'dl0', 'dl1', 'dla', 'dlsa', 'tha', 'gme', 'wn', 'dh', 'zr', 'zi']


def adiff_args(B, p):
    a = [p[k] for k in ('d', 'hg0', 'hg1', 'he0', 'he1', 'dl0', 'dl1', 'dla', 'dlsa', 'tha', 'gme', 'wn', 'dh', 'zr', 'zi')]
    return [a[0], B.ite(p['mdp'] < 0, 1, 0)] + a[1:]


def adiff_sample(r):
    p, dlsa = link(r)
    p['dla'] = p['dl0'] + p['dl1']
    p['dlsa'] = dlsa
    p['tha'] = max(p['the0'] + p['the1'], -p['dla'] * p['gme'])
    p['d'] = max(dlsa, p['dla']) * r.uniform(1.0001, 4) + r.choice([0, 1e5])
    p['mdp'] = r.choice([-1, 1])
    for k in ('the0', 'the1', 'ens'):
        del p[k]
    return p


def adiff_pre(B, p):
    return geo_pre(B, p) + [p['d'] > p['dla'], p['dla'] > 0, p['dlsa'] > 0, p['tha'] + p['d'] * p['gme'] > 0]


Unit('adiff', 'harness.c_adiff', ADIFF, pre=adiff_pre, sample=adiff_sample, contracts=('aknfe', 'fht'),
     post=lambda B, p: {'setup': 0, 'adiff': S.adiff(B, *adiff_args(B, p))})

ALOS = ['d', 'he0', 'he1', 'dh', 'zr', 'zi', 'wn', 'emd', 'aed', 'wis']


def alos_sample(r):
    p, dlsa = link(r)
    q = {k: p[k] for k in ('he0', 'he1', 'dh', 'zr', 'zi', 'wn')}
    q.update(d=lu(r, 10, 2 * dlsa), emd=r.uniform(-1e-4, 1e-3), aed=r.uniform(-60, 60), wis=lu(r, 1e-3, 1))
    return q


Unit('alos', 'harness.c_alos', ALOS, pre=lambda B, p: geo_pre(B, p) + [p['d'] > 0], sample=alos_sample,
     post=lambda B, p: {'alos': S.alos(B, *[p[k] for k in ALOS])})

ASCAT = ['d', 'h0s', 'ad', 'rr', 'etq', 'the0', 'the1', 'he0', 'he1', 'gme', 'wn', 'tha', 'ens']


def ascat_sample(r):
    p, dlsa = link(r)
    q = {k: p[k] for k in ('the0', 'the1', 'he0', 'he1', 'gme', 'wn', 'ens')}
    if r.random() < 0.5:
        q['he0'], q['he1'] = r.uniform(0.5, 20), r.uniform(0.5, 20)
        q['wn'] = lu(r, 0.3, 20)
    dla = p['dl0'] + p['dl1']
    q['tha'] = max(q['the0'] + q['the1'], -dla * q['gme'])
    q['d'] = dla + r.choice([2e5, 4e5, r.uniform(5e4, 5e5)])
    q['ad'] = abs(p['dl0'] - p['dl1'])
    q['rr'] = q['he1'] / q['he0'] if p['dl0'] >= p['dl1'] else q['he0'] / q['he1']
    q['etq'] = (5.67e-6 * q['ens'] - 2.32e-3) * q['ens'] + 0.031
    q['h0s'] = r.choice([-15, -15.0, 0.0, 15.0, 15.5, r.uniform(-1, 20)])
    return q


def ascat_post(B, p):
    a = [p[k] for k in ASCAT]
    return {'ascat': S.ascat(B, *a), 'h0s': S.ascat_h0s(B, *a[:11])}


Unit('ascat', 'harness.c_ascat', ASCAT, sample=ascat_sample, post=ascat_post, contracts=('ahd', 'h0f'),
     pre=lambda B, p: geo_pre(B, p) + [p['ad'] >= 0, p['d'] > p['ad'], p['rr'] > 0, p['tha'] + p['d'] * p['gme'] > 0])


# ------------------------------------------------------------------ reference attenuation
def lr_setup(B, p, p2p):
    return S.lr_setup(B, p2p, *[p[k] for k in GEO])


def lr_expect(B, p, dist, g, kwx):
    return {'aref': S.lr_aref(B, g, dist), 'kwx': S.lr_kwx_dist(B, S.lr_kwx_setup(B, kwx, g), dist, g.dmin),
            'dist': dist, 'dlsa': g.dlsa}


def lr_post(p2p):
    def f(B, p):
        g = lr_setup(B, p, 1 if p2p else 0)
        dist = p['dist'] if p2p else p['d']
        r = lr_expect(B, p, dist, g, p['kwx'])
        r['mdp'] = -1 if p2p else 0
        for k in GEO:
            r['kept.' + k] = p[k]
        return r
    return f


def some_dist(r, dlsa):
    return r.choice([dlsa * r.uniform(0.02, 1), dlsa * r.uniform(1, 3), dlsa + r.uniform(0, 8e5), r.uniform(500, 2.2e6), 1e3,
                     1e6, 2e6, float(round(dlsa * r.uniform(0.1, 2)))])


def lr_sample(p2p):
    def f(r):
        p, dlsa = link(r)
        p['kwx'] = r.choice([0, 0, 1, 2, 3, 4])
        if p2p:
            p['dist'] = some_dist(r, dlsa)
            p['d'] = r.choice([0, 0.0, r.uniform(0, 1e5)])
        else:
            p['d'] = some_dist(r, dlsa)
            p['stale'] = r.choice([0.0, r.uniform(0, 1e6)])
        return p
    return f


LRC = ('aknfe', 'fht', 'ahd', 'h0f', 'adiff', 'alos', 'ascat')


def kwx_pre(p):
    return [p['kwx'] >= 0, p['kwx'] <= 4]


Unit('lrprop_p2p', 'harness.c_lrprop_p2p', ['d', 'dist', ('kwx', 'I')] + GEO, contracts=LRC, sample=lr_sample(True),
     pre=lambda B, p: geo_pre(B, p) + kwx_pre(p) + [p['dist'] > 0], post=lr_post(True))
Unit('lrprop_area', 'harness.c_lrprop_area', ['d', 'stale', ('kwx', 'I')] + GEO, contracts=LRC, sample=lr_sample(False),
     pre=lambda B, p: geo_pre(B, p) + kwx_pre(p) + [p['d'] > 0], post=lr_post(False))


# ------------------------------------------------------------------ terrain profiles
def terrain(r, n=None, xi=None):
    n = n if n is not None else r.choice([1, 2, 3, 4, 5, 7, 10, 20, 50, 99, 156, 300, r.randint(1, 120)])
    xi = xi if xi is not None else r.choice([25.6, 30.0, 100.0, 256.0, 64.0, 1.0, nice(r, lu(r, 5, 2000))])
    kind = r.choice(['rough', 'smooth', 'flat', 'ridge', 'slope', 'steps', 'integer', 'canyon'])
    z = []
    h = r.uniform(0, 600)
    a = r.uniform(0, 300)
    for i in range(n + 1):
        x = i / max(n, 1)
        if kind == 'rough':
            z.append(h + r.uniform(-a, a) / 3)
        elif kind == 'smooth':
            z.append(h + a * math.sin(7 * x + h))
        elif kind == 'flat':
            z.append(h)
        elif kind == 'ridge':
            z.append(h + (a if abs(x - 0.37) < 0.06 else 0) + r.uniform(0, 3))
        elif kind == 'slope':
            z.append(h + a * x + r.uniform(-1, 1))
        elif kind == 'canyon':
            z.append(h - (a if r.random() < 0.15 and 0 < i < n else 0))
        elif kind == 'steps':
            z.append(float(round(h) + 20 * r.randint(0, 3)))
        else:
            z.append(float(r.randint(0, 300)))
    return [float(v) for v in z], xi


def zargs(p):
    return [p[k] for k in ('z', 'xi', 'x1', 'x2')]


def pfl_of(B, p):
    """the profile list handed to the code, element by element"""
    n = B.length(p['z']) - 1
    return B.arr(lambda k: B.ite(B.eq(k, 0), lambda: n, lambda: B.ite(B.eq(k, 1), lambda: p['xi'],
                                                                      lambda: B.get(p['z'], k - 2))), n + 3)


def window_sample(r):
    if r.random() < 0.05:
        # the resampled window has the spacing and the number of samples of the profile itself
        n = 10 * r.randint(3, 24) + 4
        z, xi = terrain(r, n, 1.0)
        return {'z': z, 'xi': xi, 'x1': 0.0, 'x2': float(n)}
    z, xi = terrain(r)
    d = (len(z) - 1) * xi
    k = r.random()
    if k < 0.4:
        x1, x2 = r.uniform(0, 0.3) * d, r.uniform(0.5, 1) * d
    elif k < 0.6:
        x1, x2 = 0.0, d
    elif k < 0.8:
        x1 = r.uniform(0, 1) * d
        x2 = min(d, x1 + r.uniform(0, 2.5) * xi)
    else:
        a, b = sorted((r.randint(0, len(z) - 1), r.randint(0, len(z) - 1)))
        if r.random() < 0.3:
            b = a
        if r.random() < 0.7:
            xi = r.choice([1.0, 64.0, 256.0])
        x1, x2 = a * xi, b * xi
    return {'z': z, 'xi': xi, 'x1': x1, 'x2': x2}


def window_pre(B, p):
    return S.window_ok(B, p['z'], p['xi'], p['x1'], p['x2'])


Unit('zlsq1', 'harness.c_zlsq1', [('z', 'Z'), 'xi', 'x1', 'x2'], pre=window_pre, sample=window_sample,
     post=lambda B, p: {'z0': S.zlsq_0(B, *zargs(p)), 'zn': S.zlsq_n(B, *zargs(p)), 'pfl': pfl_of(B, p)})

Unit('dlthx', 'harness.c_dlthx', [('z', 'Z'), 'xi', 'x1', 'x2'], pre=lambda B, p: window_pre(B, p),
     sample=window_sample, contracts=('zlsq1', 'qtile'), post=lambda B, p: {'dlthx': S.dlthx(B, *zargs(p)),
                                                                             'pfl': pfl_of(B, p)})

HZA = ('z', 'xi', 'hg0', 'hg1', 'gme')


def hz_sample(r):
    z, xi = terrain(r)
    gme = r.choice([157e-9 * r.uniform(0.4, 1.4), 1.2e-7])
    if r.random() < 0.3:
        # about the height of the earth's bulge: just in or out of sight
        b = gme * ((len(z) - 1) * xi) ** 2 / 8
        return {'z': z, 'xi': xi, 'hg0': b * r.uniform(0.6, 1.6) + 0.5, 'hg1': b * r.uniform(0.6, 1.6) + 0.5, 'gme': gme}
    return {'z': z, 'xi': xi, 'hg0': nice(r, lu(r, 0.5, 300)), 'hg1': nice(r, lu(r, 0.5, 300)), 'gme': gme}


def hz_pre(B, p):
    return [p['xi'] > 0, p['hg0'] > 0, p['hg1'] > 0, p['gme'] > 0, B.length(p['z']) >= 2]


def hz_defs(r, g):
    """defining equations of the horizon sequences at 0"""
    from engine import terms as t
    a = [r.p[k] for k in HZA]
    return [t.eq(r.B.U(nm, *a, 0), t.num(v)) for nm, v in zip(S.HZ, S.hz_init(r.B, *a))]


Unit('hzns', 'harness.c_hzns', [('z', 'Z'), 'xi', 'hg0', 'hg1', 'gme'], pre=hz_pre, sample=hz_sample, facts=hz_defs,
     post=lambda B, p: dict(zip(('the0', 'the1', 'dl0', 'dl1'), S.hzns(B, *[p[k] for k in HZA])), pfl=pfl_of(B, p),
                            hg0=p['hg0'], hg1=p['hg1']))


def qtile_sample(r):
    n = r.choice([1, 2, 5, r.randint(1, 60)])
    a = [r.choice([r.uniform(-50, 50), float(r.randint(-3, 3))]) for _ in range(n)]
    return {'a': a, 'k': r.randint(0, n - 1)}


Unit('qtile', 'harness.c_qtile', [('a', 'Z'), ('k', 'I')], sample=qtile_sample,
     pre=lambda B, p: [p['k'] >= 0, p['k'] < B.length(p['a'])], post=lambda B, p: {'qtile': S.qtile(B, p['a'], p['k']), 'a': p['a']})


# ------------------------------------------------------------------ area queries in sequence
def seq_sample(r):
    p, dlsa = link(r)
    p['kwx'] = r.choice([0, 0, 1, 2, 3, 4])
    p['stale'] = r.choice([0.0, r.uniform(0, 1e6)])
    for k in ('d1', 'd2', 'd3'):
        p[k] = some_dist(r, dlsa)
    return p


def seq_post(B, p):
    g = lr_setup(B, p, 0)
    k = S.lr_kwx_setup(B, p['kwx'], g)
    r = {}
    for i in '123':
        d = p['d' + i]
        k = S.lr_kwx_dist(B, k, d, g.dmin)
        r['q%s.aref' % i] = S.lr_aref(B, g, d)
        r['q%s.kwx' % i] = k
        r['q%s.dist' % i] = d
        r['q%s.mdp' % i] = 0
    return r


SEQ = ['d1', 'd2', 'd3', 'stale', ('kwx', 'I')] + GEO


def seq_pre(B, p):
    return geo_pre(B, p) + kwx_pre(p) + [p[k] > 0 for k in ('d1', 'd2', 'd3')]


Unit('area_seq', 'harness.c_area_seq', SEQ, contracts=LRC, sample=seq_sample, pre=seq_pre, post=seq_post)


def hist_rel(B, p, o):
    return {k: ('eq', o['after.' + k], o['fresh.' + k]) for k in ('aref', 'dist', 'mdp')}


def hist_kept(B, p):
    return {'kept.' + k: p[k] for k in GEO}


Unit('area_hist', 'harness.c_area_hist', SEQ, contracts=LRC, sample=seq_sample, pre=seq_pre, rel=hist_rel, post=hist_kept)
Unit('area_repeat', 'harness.c_area_repeat', [x for x in SEQ if x != 'd2'], contracts=LRC, sample=lambda r: {k: v for k, v in
     seq_sample(r).items() if k != 'd2'}, pre=lambda B, p: geo_pre(B, p) + kwx_pre(p) + [p['d1'] > 0, p['d3'] > 0], rel=hist_rel)


def many_sample(r):
    p = seq_sample(r)
    _, dlsa = None, math.sqrt(2 * p['he0'] / p['gme']) + math.sqrt(2 * p['he1'] / p['gme'])
    for k in ('d1', 'd2', 'd3'):
        del p[k]
    p['ds'] = [some_dist(r, dlsa) for _ in range(r.randint(2, 7))]
    return p


Unit('area_many', 'harness.c_area_many', [('ds', 'Z'), 'stale', ('kwx', 'I')] + GEO, sample=many_sample, native=True,
     pre=lambda B, p: geo_pre(B, p) + kwx_pre(p) + [d > 0 for d in p['ds']],
     rel=lambda B, p, o: {'query %s' % k[1:].split('.')[0]: ('eq', o[k], o[k.replace('after', 'fresh')]) for k in o
                          if k.endswith('.after')})


def edges_sample(r):
    p, _ = link(r)
    p.update(p2p=r.choice([0, 1]), eps=1e-9)
    return p


def edges_rel(B, p, o):
    def near(a, b):
        return abs(float(a) - float(b)) <= 1e-4 * max(1.0, abs(float(a)))
    return {'no jump where line of sight ends': ('true', near(o['s0'], o['s1'])),
            'no jump where scatter begins': ('true', near(o['x0'], o['x1']))}


Unit('edges', 'harness.c_edges', [('p2p', 'I'), 'eps'] + GEO, sample=edges_sample, native=True,
     pre=lambda B, p: geo_pre(B, p) + [p['eps'] > 0, p['eps'] <= 1e-9], rel=edges_rel)


def state_rel(B, p, out):
    """the working state after three queries is the state after two of them"""
    r = {}
    near1, near2 = p['d1'] < out['dlsa'], p['d2'] < out['dlsa']
    both = B.or_(B.and_(near1, B.not_(near2)), B.and_(near2, B.not_(near1)))
    for k in out:
        if not k.startswith('s123.'):
            continue
        key = k[5:]
        for tag, c in (('s12', both), ('s13', B.not_(both))):
            r['state %s (%s)' % (key, tag)] = ('same', c, 's123.' + key, tag + '.' + key)
    return r


Unit('area_state', 'harness.c_area_state', SEQ, contracts=LRC, sample=seq_sample, pre=seq_pre, rel=state_rel)


# ------------------------------------------------------------------ preparation
SW = [('lvar', 'I'), ('mdvarx', 'I'), ('klimx', 'I'), ('mdvar', 'I'), ('klim', 'I')]
SWN = [k for k, _ in SW]


def sw_sample(r, p):
    p.update(lvar=r.choice([0, 1, 3, 5]), mdvarx=r.choice([-1, 0, 3, 11, 12, 23]), klimx=r.choice([-1, 0, 1, 5, 7]),
             mdvar=r.choice([0, 3, 12]), klim=r.choice([1, 5, 7]))
    return p


def qlra_sample(r):
    return sw_sample(r, dict(kst0=r.choice([0, 1, 2, -1, 3]), kst1=r.choice([0, 1, 2]), hg0=nice(r, lu(r, 0.5, 500)),
                             hg1=nice(r, lu(r, 0.5, 500)), dh=r.choice([0.0, nice(r, lu(r, 0.0005, 700))]),
                             gme=157e-9 * r.uniform(0.4, 1.4)))


def qlra_post(B, p):
    r = {}
    for j in '01':
        he = S.qlra_he(B, p['kst' + j], p['hg' + j], p['dh'])
        dl = S.hor_dl(B, he, p['dh'], p['gme'])
        r['he' + j], r['dl' + j], r['the' + j] = he, dl, S.hor_the(B, he, dl, p['dh'], p['gme'])
    r.update(S.prep_switches(B, *[p[k] for k in SWN]))
    r['mdp'] = 1
    for k in ('hg0', 'hg1', 'dh', 'gme', 'kst0', 'kst1'):
        r['kept.' + k] = p[k]
    return r


Unit('qlra', 'harness.c_qlra', [('kst0', 'I'), ('kst1', 'I'), 'hg0', 'hg1', 'dh', 'gme'] + SW, sample=qlra_sample,
     pre=lambda B, p: [p['hg0'] > 0, p['hg1'] > 0, p['dh'] >= 0, p['gme'] > 0], post=qlra_post)

QP = ('z', 'xi', 'hg0', 'hg1', 'gme')


def shelf(r, p):
    """Line of sight over a pitted shelf, a little short of the sum of the estimated horizons."""
    n, w, h = r.choice([73, 97, 103, 128]), r.choice([2, 3, 4]), nice(r, lu(r, 15, 90))
    gme = 157e-9 * r.uniform(0.7, 0.85)
    xi = 2 * (2 * h / gme) ** 0.5 / n * r.uniform(0.95, 0.995)
    dip, pit = h * r.uniform(0.02, 0.07), h * r.uniform(0.15, 0.3)
    z = [20 + h - (pit if (i // w) % 7 == 3 else 0) for i in range(n + 1)]
    z[0] -= dip
    z[-1] -= dip
    p.update(z=z, xi=xi, hg0=h, hg1=h, gme=gme)


def qlrpfl_sample(r):
    p = hz_sample(r)
    if r.random() < 0.15:
        shelf(r, p)
    l, _ = link(r)
    p.update(wn=l['wn'], ens=l['ens'], zr=l['zr'], zi=l['zi'], kwx=r.choice([0, 0, 1, 3]))
    return sw_sample(r, p)


def qlrpfl_post(B, p):
    dist, t0, t1, l0, l1, dh, h0, h1 = S.qlrpfl_geom(B, *[p[k] for k in QP])
    geo = [p['hg0'], p['hg1'], h0, h1, l0, l1, t0, t1, p['gme'], p['wn'], p['ens'], dh, p['zr'], p['zi']]
    r = {'dist': dist, 'the0': t0, 'the1': t1, 'dl0': l0, 'dl1': l1, 'dh': dh, 'he0': h0, 'he1': h1, 'mdp': -1,
         'aref': B.U('lr_aref_p2p', dist, *geo), 'kwx': B.U('lr_kwx', dist, p['kwx'], *geo), 'pfl': pfl_of(B, p)}
    r.update(S.prep_switches(B, *[p[k] for k in SWN]))
    for k in ('hg0', 'hg1', 'gme', 'wn', 'ens', 'zr', 'zi'):
        r['kept.' + k] = p[k]
    return r


Unit('qlrpfl', 'harness.c_qlrpfl', [('z', 'Z'), 'xi', 'hg0', 'hg1', 'gme', 'wn', 'ens', 'zr', 'zi', ('kwx', 'I')] + SW,
     sample=qlrpfl_sample, contracts=('hzns', 'dlthx', 'zlsq1', 'lrprop'), post=qlrpfl_post, samples=400,
     pre=lambda B, p: hz_pre(B, p) + kwx_pre(p) + [p['wn'] > 0, p['ens'] > 0, p['zr'] > 0])


# ------------------------------------------------------------------ statistics
AV = [('klim', 'I'), ('mdvar', 'I'), 'wn', 'he0', 'he1', 'dist', 'dh', 'aref']
AVN = ['klim', 'mdvar', 'wn', 'he0', 'he1', 'dist', 'dh', 'aref']


def dev(r):
    return r.choice([r.uniform(-2.5, 2.5), 0.0, r.uniform(-4, 4), 1.2816, -1.2816, 3.1, -3.1])


def av_sample(r):
    return dict(klim=r.choice([1, 2, 3, 4, 5, 6, 7, 7, 0, 8, -1]), mdvar=r.choice([0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31,
                32, 33, 4, -1, 17]), wn=lu(r, 0.4, 420), he0=nice(r, lu(r, 0.5, 2000)), he1=nice(r, lu(r, 0.5, 2000)),
                dist=lu(r, 500, 2e6), dh=r.choice([0.0, r.uniform(0, 700)]),
                aref=r.choice([0.0, r.uniform(0, 20), r.uniform(0, 200)]))


def avar_sample(r):
    p = av_sample(r)
    p.update(zt=dev(r), zl=dev(r), zc=dev(r), kwx=r.choice([0, 1, 2, 3, 4]))
    return p


def av_pre(B, p, x=''):
    return [p[k] > 0 for k in ('wn' + x, 'dist' + x)] + [p['dh' + x] >= 0]


def avar_post(B, p):
    v = S.avar_setup(B, *[p[k] for k in AVN[:-1]])
    r = {'avar': S.avar_q(B, v, p['zt'], p['zl'], p['zc'], p['aref']),
         'kwx': S.avar_kwx(B, v, p['kwx'], p['zt'], p['zl'], p['zc']), 'lvar': 0}
    for k in ('wn', 'he0', 'he1', 'dist', 'dh', 'aref', 'mdvar'):
        r['kept.' + k] = p[k]
    return r


Unit('avar', 'harness.c_avar', ['zt', 'zl', 'zc'] + AV + [('kwx', 'I')], sample=avar_sample, post=avar_post, contracts=('curv',),
     pre=lambda B, p: av_pre(B, p) + kwx_pre(p) + [p['he0'] > 0, p['he1'] > 0], samples=150, max_cases=4000)

AV2 = ['klim2', 'mdvar2', 'wn2', 'hf0', 'hf1', 'dist2', 'dh2', 'aref2']


def again_sample(level):
    def f(r):
        p = av_sample(r)
        q = av_sample(r)
        for a, b in zip(AVN, AV2):
            p[b] = q[a]
        p.update(zt=dev(r), zl=dev(r), zc=dev(r), yt=dev(r), yl=dev(r), yc=dev(r), level=level)
        return p
    return f


for _l in range(6):
    Unit('avar_again%d' % _l, 'harness.c_avar_again',
         [('level', 'I'), 'zt', 'zl', 'zc'] + AV + ['yt', 'yl', 'yc', ('klim2', 'I'), ('mdvar2', 'I')] + AV2[2:],
         fixed={'level': _l}, sample=again_sample(_l), contracts=('curv',), samples=60, max_cases=4000,
         rel=lambda B, p, o: {'same as from scratch': ('eq', o['avar'], o['fresh']), 'level is consumed': ('eq', o['lvar'], 0)},
         pre=lambda B, p: av_pre(B, p) + [p['wn2'] > 0, p['dist2'] > 0, p['dh2'] >= 0, p['he0'] > 0, p['he1'] > 0,
                                          p['hf0'] > 0, p['hf1'] > 0])


def pair_sample(which, modes):
    def f(r):
        p = av_sample(r)
        p.update(zt=dev(r), zl=dev(r), zc=dev(r))
        p['mdvar'] = r.choice(modes)
        a, b = sorted((dev(r), dev(r)))
        if r.random() < 0.3:
            b = a + lu(r, 1e-4, 0.1)
        p[which], p[which + '2'] = a, b
        return p
    return f


def mode_pre(B, p, modes):
    return [p['mdvar'] % 10 in modes] if not B.symbolic else []


Unit('avar_conf', 'harness.c_avar_conf', ['zt', 'zl', 'zc', 'zc2'] + AV, native=True, samples=150,
     sample=pair_sample('zc', [0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31, 32, 33]),
     pre=lambda B, p: av_pre(B, p) + [p['he0'] > 0, p['he1'] > 0, p['zc2'] >= p['zc'], p['mdvar'] >= 0, p['mdvar'] < 34] +
     mode_pre(B, p, (0, 1, 2, 3)), rel=lambda B, p, o: {'not increasing in confidence': ('le', o['b'], o['a'])})
Unit('avar_time', 'harness.c_avar_time', ['zt', 'zt2', 'zl', 'zc'] + AV, native=True, samples=150,
     sample=pair_sample('zt', [1, 3, 11, 13, 21, 23, 31, 33]),
     pre=lambda B, p: av_pre(B, p) + [p['he0'] > 0, p['he1'] > 0, p['zt2'] >= p['zt'], p['mdvar'] >= 0, p['mdvar'] < 34] +
     mode_pre(B, p, (1, 3)), rel=lambda B, p, o: {'not increasing in time reliability': ('le', o['b'], o['a'])})


# ------------------------------------------------------------------ normal deviates
Unit('qerfi', 'harness.c_qerfi', [('qs', 'Z')], pre=lambda B, p: [],
     sample=lambda r: {'qs': [r.choice([r.uniform(0, 1), 0.5, 0.01, 0.99, 0.9, 0.1, 1e-7, 1.0, 0.0]) for _ in range(r.randint(1, 8))]},
     post=lambda B, p: {'out': B.arr(lambda k: S.qerfi(B, B.get(p['qs'], k)), B.length(p['qs'])), 'q': p['qs']})

Unit('qerf_pair', 'harness.c_qerf_pair', ['z'], pre=lambda B, p: [p['z'] > 0], sample=lambda r: {'z': lu(r, 1e-3, 15)},
     rel=lambda B, p, o: {'the two tails of a deviate sum to one': ('eq', o['plus'] + o['minus'], 1)})


# ------------------------------------------------------------------ reciprocity
def recip_sample(r):
    p, dlsa = link(r)
    if r.random() < 0.15:
        p['dl1'] = p['dl0']
    p['dist'] = some_dist(r, dlsa)
    return p


def recip_facts(r, g):
    """lemma `recip`: the specified attenuation is the same from either end"""
    from engine import terms as t
    p = r.p
    there = [p[k] for k in GEO]
    back = [p[k] for k in ('hg1', 'hg0', 'he1', 'he0', 'dl1', 'dl0', 'the1', 'the0', 'gme', 'wn', 'ens', 'dh', 'zr', 'zi')]
    return [t.eq(r.B.U('lr_aref_p2p', p['dist'], *there), r.B.U('lr_aref_p2p', p['dist'], *back))]


Unit('recip', 'harness.c_recip', ['dist'] + GEO, sample=recip_sample, contracts=('lrprop',), facts=recip_facts, levels=(0,),
     pre=lambda B, p: geo_pre(B, p) + [p['dist'] > 0],
     rel=lambda B, p, o: {'aref': ('eq', o['there'], o['back']), 'kwx': ('eq', o['kthere'], o['kback'])})


# ------------------------------------------------------------------ runners
def p2p_sample(r):
    z, _ = terrain(r)
    return {'z': z, 'fmhz': nice(r, lu(r, 20, 20000)), 'd': nice(r, lu(r, 0.5, 400)), 'hg0': nice(r, lu(r, 0.6, 300)),
            'hg1': nice(r, lu(r, 0.6, 300)), 'ipol': r.choice([0, 1])}


def p2p_pre(B, p):
    return [p[k] > 0 for k in ('fmhz', 'd', 'hg0', 'hg1')] + [B.length(p['z']) >= 2]


for _nm in ('p2p', 'p2p_2tiles'):
    Unit('run_' + _nm, 'runners.c_' + _nm, [('z', 'Z'), 'fmhz', 'd', 'hg0', 'hg1', ('ipol', 'I')], sample=p2p_sample, pre=p2p_pre,
         contracts=('qerfi', 'qlrpfl', 'curv'), levels=(0,), samples=40, obls=True, kinds=('pre', 'index'),
         post=lambda B, p: S.p2p_rows(B, p['z'], p['fmhz'], p['d'], p['hg0'], p['hg1'], p['ipol']))


def area_sample(r):
    return {'fmhz': nice(r, lu(r, 20, 20000)), 'hg0': nice(r, lu(r, 0.6, 300)), 'hg1': nice(r, lu(r, 0.6, 300)),
            'ipol': r.choice([0, 1]), 'dh': r.choice([0.0, 0, nice(r, lu(r, 1, 700)), 90])}


for _nm in ('area', 'area_2tiles'):
    Unit('run_' + _nm, 'runners.c_' + _nm, ['fmhz', 'hg0', 'hg1', ('ipol', 'I'), 'dh'], sample=area_sample, levels=(0,), samples=40,
         obls=True, kinds=('pre', 'index'),
         pre=lambda B, p: [p['fmhz'] > 0, p['hg0'] > 0, p['hg1'] > 0, p['dh'] >= 0],
         contracts=('qerfi', 'qlra', 'lrprop_area', 'curv'),
         post=lambda B, p: S.area_rows(B, p['fmhz'], p['hg0'], p['hg1'], p['ipol'], p['dh']))

def pimter_sample(r):
    z, xi = terrain(r, r.choice([1, 2, 3, 5, 8, 12, 15, 20, 30, 40, 80]))
    m = r.random()
    if m < 0.15:
        z = [z[0]] * len(z)
    elif m < 0.3:
        z = [float(k % 3) for k in range(len(z))]
    return {'z': z, 'xi': xi * r.choice([1, 1, 10])}


Unit('run_pimter', 'runners.c_pimter', [('z', 'Z'), 'xi'], levels=(0,), samples=16, contracts=('qerfi', 'qlrpfl', 'curv'),
     obls=True, kinds=('pre', 'index'),
     sample=pimter_sample, pre=lambda B, p: [p['xi'] > 0, B.length(p['z']) >= 2],
     post=lambda B, p: S.pimter_rows(B, p['z'], p['xi']))


# ------------------------------------------------------------------ terrain module
def len_sample(r):
    return r.choice([0, 0.0, lu(r, 0.1, 5e6), lu(r, 100, 3e5), float(r.randint(0, 200000)), 1e7])


Unit('num_samples', 'geoclients.c_num_samples', ['d'], sample=lambda r: {'d': len_sample(r)}, pre=lambda B, p: [p['d'] >= 0],
     post=lambda B, p: {'n': S.num_samples(B, p['d'])}, rel=lambda B, p, o: {'at least 2': ('le', 2, o['n']), 'at most 600': ('le', o['n'], 600)})
Unit('num_pair', 'geoclients.c_num_pair', ['d', 'more'], pre=lambda B, p: [p['d'] >= 0, p['more'] >= 0],
     sample=lambda r: {'d': len_sample(r), 'more': r.choice([0, lu(r, 0.01, 1e5)])},
     rel=lambda B, p, o: {'longer paths have no fewer samples': ('le', o['a'], o['b'])})
Unit('interdecile', 'geoclients.c_interdecile', [('x', 'Z')],
     sample=lambda r: {'x': [r.choice([r.uniform(-50, 900), float(r.randint(0, 100))]) for _ in range(r.choice([1, 2, r.randint(3, 80)]))]},
     obls=True, kinds=('pre', 'index'), pre=lambda B, p: [B.length(p['x']) >= 1],
     post=lambda B, p: {'r': B.rnd(B.U('pct', p['x'], 90) - B.U('pct', p['x'], 10), 0)})


def line_sample(r):
    x0, y0 = r.uniform(0.2, 1.8), r.uniform(0.2, 1.8)
    s = r.choice([lu(r, 1e-5, 1.5), lu(r, 1e-3, 0.5)])
    f = lambda v, d: min(1.9, max(0.1, v + d))
    x2, y2 = f(x0, r.uniform(-s, s)), f(y0, r.uniform(-s, s))
    u = r.uniform(0.1, 0.9)
    x1, y1 = (x0 + u * (x2 - x0), y0 + u * (y2 - y0)) if r.random() < 0.5 else (f(x0, r.uniform(-s, s)), f(y0, r.uniform(-s, s)))
    return dict(x0=x0, y0=y0, x1=x1, y1=y1, x2=x2, y2=y2, g0=r.uniform(0, 500), gx=r.uniform(-300, 300), gy=r.uniform(-300, 300))


from . import geo as _geo
def line_post(B, p):
    r = {}
    for nm in ('line', 'line2'):
        g = nm + '.geometry.'
        r.update({nm + '.type': 'Feature', g + 'type': 'LineString', g + 'coordinates.len': 2, g + 'coordinates.0.0': p['ax'],
                  g + 'coordinates.0.1': p['ay'], g + 'coordinates.1.0': p['bx'], g + 'coordinates.1.1': p['by']})
    return r


Unit('line', 'runners.c_line', ['ax', 'ay', 'bx', 'by'], post=line_post, sample=lambda r: {k: r.uniform(-90, 90) for k in
                                                                                        ('ax', 'ay', 'bx', 'by')})
Unit('terrain_p2p', 'geoclients.c_terrain_p2p', ['x0', 'y0', 'x1', 'y1', 'x2', 'y2', 'g0', 'gx', 'gy'], sample=line_sample,
     post=S.terrain_post, contracts=('plane', 'num_samples'), externals=_geo.EXTERNALS, levels=(0,), samples=25,
     obls=True, kinds=('pre', 'index'),
     pre=lambda B, p: [] if B.symbolic else [p[k] > 0.05 for k in S.LINE] + [p[k] < 1.95 for k in S.LINE] +
     [max(abs(float(p['x0']) - float(p['x1'])), abs(float(p['y0']) - float(p['y1']))) > 1e-7,
      max(abs(float(p['x2']) - float(p['x1'])), abs(float(p['y2']) - float(p['y1']))) > 1e-7])


def near(a, b, rel):
    return abs(float(a) - float(b)) <= rel * abs(float(b))


Unit('geo_buffer', 'geoclients.c_buffer', ['lon', 'lat', 'radius'], samples=30, contracts=('ring',), externals=_geo.EXTERNALS,
     levels=(0,),
     sample=lambda r: dict(lon=r.uniform(-170, 170), lat=r.uniform(-70, 70), radius=lu(r, 10, 2e5)),
     pre=lambda B, p: [p['radius'] > 0, p['lat'] < 80, p['lat'] > -80],
     rel=lambda B, p, o: {'every corner of the cell at the cell range': ('and', ('eq', o['lo'], p['radius']),
                                                                         ('eq', o['hi'], p['radius']))} if B.symbolic else
     {'every corner of the cell at the cell range': ('true', near(o['lo'], p['radius'], 1e-3) and
                                                                         near(o['hi'], p['radius'], 1e-3)),
                          'closed outline': ('true', o['n'] >= 16)})


def area_dh(B, p, o):
    """inter-decile range over the pixels of the model (nativelib.pitted) whose centre lies in the disc"""
    if B.symbolic:
        a = S.pixels(B, *[p[k] for k in ('lon', 'lat', 'radius', 'g0', 'gx', 'gy')])
        return {'dh': ('eq', o['dh'], B.rnd(B.U('pct', a, 90) - B.U('pct', a, 10), 0))}
    import numpy as np
    lon, lat, radius, g0, gx, gy = (float(p[k]) for k in ('lon', 'lat', 'radius', 'g0', 'gx', 'gy'))
    i = np.arange(400)
    x, y = (0.005 * (i + 0.5))[None, :], (2 - 0.005 * (i + 0.5))[:, None]
    m = np.radians(lat + (y - lat) / 2)
    e2 = 0.00669437999014
    w = 1 - e2 * np.sin(m) ** 2
    dx = np.radians(x - lon) * 6378137 / np.sqrt(w) * np.cos(m)
    dy = np.radians(y - lat) * 6378137 * (1 - e2) / w ** 1.5
    r = np.hypot(dx, dy) / radius
    live = (7 * i[:, None] + 3 * i[None, :]) % 5 != 0
    z = g0 + gx * x + gy * y
    lo, hi = ((r <= k) & live for k in (0.996, 1.004))
    if radius < 6e3:
        if lo.sum() != hi.sum() or lo.sum() < 3:
            return {'dh': ('true', True)}                  # a centre on the outline: either answer
        q = np.percentile(z[lo], [90, 10])
        want = q[0] - q[1]
        return {'dh': ('true', abs(float(o['dh']) - want) <= 0.5 + 1e-6)}
    got = [float(np.subtract(*np.percentile(z[k], [90, 10]))) for k in (lo, hi)]
    return {'dh': ('true', min(got) - 1 - 0.02 * got[0] <= float(o['dh']) <= max(got) + 1 + 0.02 * got[0])}


def area_cell(r):
    far = r.random() < 0.3
    g = 400 if far else 2e4
    return dict(lon=r.uniform(0.7, 1.3), lat=r.uniform(0.7, 1.3), radius=r.uniform(1.2e4, 5e4) if far else r.uniform(800, 3500),
                g0=r.uniform(0, 200), gx=r.uniform(-g, g), gy=r.uniform(-g, g))


Unit('terrain_area', 'geoclients.c_terrain_area', ['lon', 'lat', 'radius', 'g0', 'gx', 'gy'], samples=40,
     contracts=('pitted',), externals=_geo.EXTERNALS, levels=(0,), sample=area_cell, rel=area_dh,
     obls=True, kinds=('pre', 'index'),
     pre=lambda B, p: [] if B.symbolic else [p['radius'] >= 800, p['radius'] <= 6e4, p['lon'] > 0.65, p['lon'] < 1.35, p['lat'] > 0.65,
                                             p['lat'] < 1.35])


def csv_post(B, p):
    n = B.length(p['x'])
    names = ('distance_km', 'confidence_level_%', 'propagation_loss_dB')
    r = {'header.len': 3, 'distance': p['x'], 'level': B.arr(lambda k: B.num(p['y']), n),
         'loss': B.arr(lambda k: 100 + B.get(p['x'], k) / 2, n)}
    r.update({'header.%d' % i: nm for i, nm in enumerate(names)})
    return r


for _n in ('p2p', 'p2p2', 'area', 'area2'):
    Unit('csv_' + _n, 'runners.c_csv_' + _n, [('x', 'Z'), 'y', ('made', 'I')], post=csv_post, contracts=('folder', 'table'), levels=(0,),
         externals=_geo.FILES, pre=lambda B, p: [B.or_(B.eq(p['made'], 0), B.eq(p['made'], 1)), B.length(p['x']) >= 1], samples=40,
         obls=True, kinds=('pre', 'index'),
         sample=lambda r: {'x': [nice(r, r.uniform(0.1, 900)) for _ in range(r.choice([1, 2, r.randint(3, 40)]))], 'y': float(r.randint(1, 99)),
                           'made': r.choice([0, 1])})


def shp_post(B, p):
    n = B.length(p['x'])
    y = B.num(p['y'])
    return {'geometry': 'Point', 'fields.len': 3, 'fields.0.len': 2, 'fields.1.len': 2, 'fields.2.len': 2, 'fields.0.0': 'elevation', 'fields.0.1': 'float',
            'fields.1.0': 'id', 'fields.1.1': 'str', 'fields.2.0': 'mast', 'fields.2.1': 'float',
            'mast': B.arr(lambda k: (2 * B.get(p['x'], k) + 1) / 4, n), 'named': B.arr(lambda k: B.num(1), n), 'one.mast': (1 - y) / 4,
            'crs': 'EPSG:4326', 'lon': B.arr(lambda k: B.get(p['x'], k) / 8, n), 'lat': B.arr(lambda k: y, n),
            'elevation': B.arr(lambda k: 2 * B.get(p['x'], k) + 1, n), 'one.geometry': 'Point', 'one.crs': 'EPSG:3857', 'one.n': 1,
            'one.lon': y, 'one.lat': 2 * y, 'one.elevation': 1 - y, 'one.id': 'site'}


for _n in ('p2p', 'p2p2'):
    Unit('shp_' + _n, 'runners.c_shp_' + _n, [('x', 'Z'), 'y', ('made', 'I')], post=shp_post, contracts=('folder', 'shapes', 'older'),
         levels=(0,), externals=_geo.FILES, pre=lambda B, p: [B.or_(B.eq(p['made'], 0), B.eq(p['made'], 1)), B.length(p['x']) >= 1], samples=40,
         obls=True, kinds=('pre', 'index'),
         sample=lambda r: {'x': [nice(r, r.uniform(0.1, 900)) for _ in range(r.choice([1, 2, r.randint(3, 40)]))], 'y': float(r.randint(1, 99)),
                           'made': r.choice([0, 1])})


# ------------------------------------------------------------------ definedness: indices, divisors, roots
def defined(base, extra=None, **kw):
    u = UNITS[base]
    pre = u.pre

    def full(B, p):
        return (pre(B, p) if pre is not None else []) + (extra(B, p) if extra is not None else [])
    Unit('def_' + base, u.fn, u.params, pre=full, sample=u.sample, contracts=u.contracts, obls=True, soft=True, samples=u.samples,
         max_cases=u.max_cases, defined=u.defined, fixed=u.fixed, prune=u.prune, levels=u.levels,
         externals=getattr(u, 'externals', None), **kw)


for _n in ('aknfe', 'fht', 'ahd', 'h0f', 'hzns', 'zlsq1', 'dlthx', 'qtile', 'qlra', 'qlrps', 'qerf', 'qerfi', 'curv', 'avar', 'qlrpfl',
           'num_samples'):
    defined(_n)
defined('ascat', kinds=('pre', 'index', 'div', 'sqrt', 'power'))
defined('adiff', lambda B, p: [p['tha'] >= -(p['dla'] * p['gme'])], kinds=('pre', 'index', 'div', 'sqrt', 'power'))
