"""Specification functions: the Longley-Rice Irregular Terrain Model 1.2.2 as documented (references/itm_alg.pdf,
references/itm.pdf), written once and interpreted both symbolically and on floats."""
from .backend import spec, RECURSIVE, Fl

THIRD = None


# ------------------------------------------------------------------ diffraction
@spec
def aknfe(B, v2):
    v = B.ite(v2 <= 0, lambda: 0.00001, lambda: v2)
    return B.ite(v2 < 5.76, lambda: 6.02 + 9.11 * B.sqrt(v) - 1.27 * v, lambda: 12.953 + 4.343 * B.log(v2))


@spec
def fht(B, x, pk):
    def small():
        w = -B.log(pk)
        return B.ite(B.or_(pk < 1e-5, x * w ** 3 > 5495),
                     lambda: B.ite(x > 1, lambda: 17.372 * B.log(x) - 117, -117),
                     lambda: 2.5e-5 * x ** 2 / pk - 8.686 * w - 15)

    def large():
        f = 0.05751 * x - 4.343 * B.log(x)

        def blend():
            w = 0.0134 * x * B.exp(-0.005 * x)
            return (1 - w) * f + w * (17.372 * B.log(x) - 117)
        return B.ite(x < 2000, blend, lambda: f)
    return B.ite(x < 200, small, large)


def _rough(B, d, dh):
    return (1 - 0.8 * B.exp(-d / 50e3)) * dh


def _sigmah(B, q):
    return 0.78 * q * B.exp(-B.root(q / 16, 4))


def _abs2(zr, zi):
    return zr * zr + zi * zi


@spec
def adiff(B, d, p2p, hg0, hg1, he0, he1, dl0, dl1, dla, dlsa, tha, gme, wn, dh, zr, zi):
    """diffraction attenuation at distance d > 0 (p2p: 1 in point-to-point mode, else 0)"""
    q = hg0 * hg1
    qk = he0 * he1 - q
    q = B.ite(B.eq(p2p, 1), lambda: q + 10, lambda: q)
    wd1 = B.sqrt(1 + qk / q)
    xd1 = dla + tha / gme
    s = _sigmah(B, _rough(B, dlsa, dh))
    afo = B.min(15, 2.171 * B.log(1 + 4.77e-4 * hg0 * hg1 * wn * s))
    rz = 1 / B.sqrt(_abs2(zr, zi))
    aht, xht = 20, 0
    for dl, he in ((dl0, he0), (dl1, he1)):
        a = 0.5 * dl ** 2 / he
        wa = B.root(a * wn, 3)
        pk = rz / wa
        x = (1.607 - pk) * 151.0 * wa * dl / a
        xht = xht + x
        aht = aht + B.U('fht', x, pk)
    th = tha + d * gme
    ds = d - dla
    q = 0.0795775 * wn * ds * th ** 2
    ak = B.U('aknfe', q * dl0 / (ds + dl0)) + B.U('aknfe', q * dl1 / (ds + dl1))
    a = ds / th
    wa = B.root(a * wn, 3)
    pk = rz / wa
    q = (1.607 - pk) * 151.0 * wa * th + xht
    ar = 0.05751 * q - 4.343 * B.log(q) - aht
    q = (wd1 + xd1 / d) * B.min(_rough(B, d, dh) * wn, 6283.2)
    wd = 25.1 / (25.1 + B.sqrt(q))
    return ar * wd + (1 - wd) * ak + afo


# ------------------------------------------------------------------ line of sight
@spec
def alos(B, d, he0, he1, dh, zr, zi, wn, emd, aed, wis):
    s = _sigmah(B, _rough(B, d, dh))
    h = he0 + he1
    sps = h / B.sqrt(d ** 2 + h ** 2)
    # r = (sps - z)/(sps + z) * exp(-min(10, wn s sps))
    nr, ni = sps - zr, -zi
    dr, di = sps + zr, zi
    den = dr * dr + di * di
    e = B.exp(-B.min(10, wn * s * sps))
    rr = (nr * dr + ni * di) / den * e
    ri = (ni * dr - nr * di) / den * e
    q = rr * rr + ri * ri
    c = B.or_(q < 0.25, q < sps)
    rr = B.ite(c, lambda: rr * B.sqrt(sps / q), lambda: rr)
    ri = B.ite(c, lambda: ri * B.sqrt(sps / q), lambda: ri)
    ad = emd * d + aed
    q = wn * he0 * he1 * 2 / d
    q = B.ite(q > 1.57, lambda: 3.14 - 2.4649 / q, lambda: q)
    re = B.cos(q) + rr
    im = -B.sin(q) + ri
    return (-4.343 * B.log(re * re + im * im) - ad) * wis + ad


# ------------------------------------------------------------------ troposcatter
@spec
def ahd(B, td):
    def f(a, b, c):
        return lambda: a + b * td + c * B.log(td)
    return B.ite(td <= 10e3, f(133.4, 0.332e-3, -4.343),
                 lambda: B.ite(td <= 70e3, f(104.6, 0.212e-3, -1.086), f(71.8, 0.157e-3, 2.171)))


@spec
def h0f(B, r, et):
    a = [25, 80, 177, 395, 705]
    b = [24, 45, 68, 80, 105]
    it = B.max(1, B.min(5, B.floor(et)))
    q = B.ite(B.and_(B.floor(et) >= 1, B.floor(et) < 5), lambda: et - it, 0)
    x = (1 / r) ** 2

    def g(i):
        return 4.343 * B.log((B.table(a, i) * x + B.table(b, i)) * x + 1)
    return B.ite(B.eq(q, 0), lambda: g(it - 1), lambda: (1 - q) * g(it - 1) + q * g(it))


def _scat_th(d, the0, the1, gme):
    return the0 + the1 + d * gme


def scat_undefined(B, d, the0, the1, he0, he1, gme, wn):
    r = 2 * wn * _scat_th(d, the0, the1, gme)
    return B.and_(r * he0 < 0.2, r * he1 < 0.2)


@spec
def scat_h0(B, d, h0s, ad, rr, etq, the0, the1, he0, he1, gme, wn):
    """frequency gain H0 at d, given the value h0s remembered from an earlier evaluation"""
    th = _scat_th(d, the0, the1, gme)
    r1 = 2 * wn * th * he0
    r2 = 2 * wn * th * he1
    ss = (d - ad) / (d + ad)
    q = B.min(B.max(0.1, rr / ss), 10)
    ss = B.max(0.1, ss)
    z0 = (d - ad) * (d + ad) * th * 0.25 / d
    et = (etq * B.exp(-B.min(1.7, z0 / 8.0e3) ** 6) + 1) * z0 / 1.7556e3
    ett = B.max(et, 1)
    h = (B.U('h0f', r1, ett) + B.U('h0f', r2, ett)) * 0.5
    h = h + B.min(h, (1.38 - B.log(ett)) * B.log(ss) * B.log(q) * 0.49)
    h = B.max(h, 0)
    h = B.ite(et < 1,
              lambda: et * h + (1 - et) * 4.343 * B.log(((1 + 1.4142 / r1) * (1 + 1.4142 / r2)) ** 2 *
                                                        (r1 + r2) / (r1 + r2 + 2.8284)),
              lambda: h)
    return B.ite(B.and_(h > 15, h0s >= 0), lambda: h0s, lambda: h)


@spec
def scat_v(B, d, h0, tha, gme, wn, ens):
    th = tha + d * gme
    return B.U('ahd', th * d) + 4.343 * B.log(47.7 * wn * th ** 4) - 0.1 * (ens - 301) * B.exp(-th * d / 40e3) + h0


@spec
def ascat_h0s(B, d, h0s, ad, rr, etq, the0, the1, he0, he1, gme, wn):
    """remembered H0 after the evaluation"""
    return B.ite(h0s > 15, lambda: h0s, lambda: B.ite(scat_undefined(B, d, the0, the1, he0, he1, gme, wn), lambda: h0s,
                 lambda: scat_h0(B, d, h0s, ad, rr, etq, the0, the1, he0, he1, gme, wn)))


@spec
def ascat(B, d, h0s, ad, rr, etq, the0, the1, he0, he1, gme, wn, tha, ens):
    """scatter attenuation at d; 1001 marks 'undefined'"""
    return B.ite(h0s > 15, lambda: scat_v(B, d, h0s, tha, gme, wn, ens),
                 lambda: B.ite(scat_undefined(B, d, the0, the1, he0, he1, gme, wn), 1001,
                               lambda: scat_v(B, d, scat_h0(B, d, h0s, ad, rr, etq, the0, the1, he0, he1, gme, wn),
                                              tha, gme, wn, ens)))


# ------------------------------------------------------------------ reference attenuation
class Geo:
    pass


def lr_setup(B, p2p, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi):
    g = Geo()
    g.p2p, g.hg0, g.hg1, g.he0, g.he1, g.dl0, g.dl1 = p2p, hg0, hg1, he0, he1, dl0, dl1
    g.the0, g.the1, g.gme, g.wn, g.ens, g.dh, g.zr, g.zi = the0, the1, gme, wn, ens, dh, zr, zi
    g.dls0 = B.sqrt(2 * he0 / gme)
    g.dls1 = B.sqrt(2 * he1 / gme)
    g.dlsa = g.dls0 + g.dls1
    g.dla = dl0 + dl1
    g.tha = B.max(the0 + the1, -g.dla * gme)
    g.dmin = B.abs(he0 - he1) / 0.2
    g.xae = 1 / B.root(wn * gme ** 2, 3)

    def ad(d):
        return B.U('adiff', d, p2p, hg0, hg1, he0, he1, dl0, dl1, g.dla, g.dlsa, g.tha, gme, wn, dh, zr, zi)
    d3 = B.max(g.dlsa, 1.3787 * g.xae + g.dla)
    d4 = d3 + 2.7574 * g.xae
    a3, a4 = ad(d3), ad(d4)
    g.emd = (a4 - a3) / (d4 - d3)
    g.aed = a3 - g.emd * d3
    g.wis = 0.021 / (0.021 + wn * dh / B.max(10e3, g.dlsa))
    return g


def lr_los(B, g):
    """(ael, ak1, ak2)"""
    def al(d):
        return B.U('alos', d, g.he0, g.he1, g.dh, g.zr, g.zi, g.wn, g.emd, g.aed, g.wis)
    d2 = g.dlsa
    a2 = g.aed + d2 * g.emd
    d0 = 1.908 * g.wn * g.he0 * g.he1
    pos = g.aed >= 0
    d0 = B.ite(pos, lambda: B.min(d0, 0.5 * g.dla), lambda: d0)
    d1 = B.ite(pos, lambda: d0 + 0.25 * (g.dla - d0), lambda: B.max(-g.aed / g.emd, 0.25 * g.dla))
    a1 = al(d1)
    near = d0 < d1

    def k2():
        a0 = al(d0)
        q = B.log(d2 / d0)
        return B.max(0, ((d2 - d0) * (a1 - a0) - (d1 - d0) * (a2 - a0)) /
                     ((d2 - d0) * B.log(d1 / d0) - (d1 - d0) * q))
    c2 = B.ite(near, k2, 0)
    wq = B.and_(near, lambda: B.or_(pos, c2 > 0))

    def branch(which):
        def fit():
            a0 = al(d0)
            q = B.log(d2 / d0)
            c1 = (a2 - a0 - c2 * q) / (d2 - d0)

            def clipped():
                n2 = B.max(a2 - a0, 0) / q
                return n2 if which == 2 else B.ite(B.eq(n2, 0), lambda: g.emd, 0)
            return B.ite(c1 < 0, clipped, lambda: c2 if which == 2 else c1)

        def line():
            if which == 2:
                return 0
            m1 = B.max(a2 - a1, 0) / (d2 - d1)
            return B.ite(B.eq(m1, 0), lambda: g.emd, lambda: m1)
        return B.ite(wq, fit, line)
    ak1, ak2 = branch(1), branch(2)
    ael = a2 - ak1 * d2 - ak2 * B.log(d2)
    return ael, ak1, ak2


def lr_scat(B, g):
    """(aes, ems, dx)"""
    swap = g.dl0 - g.dl1 < 0
    ad = B.abs(g.dl0 - g.dl1)
    rr = B.ite(swap, lambda: g.he0 / g.he1, lambda: g.he1 / g.he0)
    etq = (5.67e-6 * g.ens - 2.32e-3) * g.ens + 0.031
    d5 = g.dla + 200e3
    d6 = d5 + 200e3

    def sc(d, h0s):
        return B.U('ascat', d, h0s, ad, rr, etq, g.the0, g.the1, g.he0, g.he1, g.gme, g.wn, g.tha, g.ens)
    a6 = sc(d6, -15)
    h6 = B.U('ascat_h0s', d6, -15, ad, rr, etq, g.the0, g.the1, g.he0, g.he1, g.gme, g.wn)
    a5 = sc(d5, h6)
    ok = a5 < 1000
    ems = B.ite(ok, lambda: (a6 - a5) / 200e3, lambda: g.emd)
    dx = B.ite(ok, lambda: B.max(g.dlsa, g.dla + 0.3 * g.xae * B.log(47.7 * g.wn),
                                 (a5 - g.aed - ems * d5) / (g.emd - ems)), 10e6)
    aes = B.ite(ok, lambda: (g.emd - ems) * dx + g.aed, lambda: g.aed)
    return aes, ems, dx


def lr_aref(B, g, dist, los=None, scat=None):
    def line_of_sight():
        ael, ak1, ak2 = los or lr_los(B, g)
        return ael + ak1 * dist + ak2 * B.log(dist)

    def beyond():
        aes, ems, dx = scat or lr_scat(B, g)
        return B.ite(dist > dx, lambda: aes + ems * dist, lambda: g.aed + g.emd * dist)
    return B.max(B.ite(dist < g.dlsa, line_of_sight, beyond), 0)


def lr_kwx_setup(B, kwx, g):
    k = kwx

    def up(c, v):
        nonlocal k
        k0 = k
        k = B.ite(c, lambda: B.max(k0, v), lambda: k0)
    up(B.or_(g.wn < 0.838, g.wn > 210), 1)
    for hg in (g.hg0, g.hg1):
        up(B.or_(hg < 1, hg > 1000), 1)
    for the, dl, dls in ((g.the0, g.dl0, g.dls0), (g.the1, g.dl1, g.dls1)):
        up(B.or_(B.abs(the) > 0.2, dl < 0.1 * dls, dl > 3 * dls), 3)
    up(B.or_(g.ens < 250, g.ens > 400, g.gme < 75e-9, g.gme > 250e-9, g.zr < B.abs(g.zi), g.wn < 0.419, g.wn > 420), 4)
    for hg in (g.hg0, g.hg1):
        up(B.or_(hg < 0.5, hg > 3000), 4)
    return k


def lr_kwx_dist(B, kwx, dist, dmin):
    k = B.ite(dist > 1000e3, lambda: B.max(kwx, 1), lambda: kwx)
    k = B.ite(dist < dmin, lambda: B.max(k, 3), lambda: k)
    return B.ite(B.or_(dist < 1e3, dist > 2000e3), lambda: B.max(k, 4), lambda: k)


# ------------------------------------------------------------------ preparation
@spec
def qlra_he(B, kst, hg, dh):
    def sited():
        q = B.ite(B.eq(kst, 1), 4, 9)
        q = B.ite(hg < 5, lambda: q * B.sin(0.3141593 * hg), lambda: q)
        return hg + (1 + q) * B.exp(-B.min(20, 2 * hg / B.max(1e-3, dh)))
    return B.ite(kst <= 0, lambda: hg, sited)


@spec
def hor_dl(B, he, dh, gme):
    return B.sqrt(2 * he / gme) * B.exp(-0.07 * B.sqrt(dh / B.max(he, 5)))


@spec
def hor_the(B, he, dl, dh, gme):
    q = B.sqrt(2 * he / gme)
    return (0.65 * dh * (q / dl - 1) - 2 * he) / q


def qlrps(B, fmhz, zsys, en0, ipol, eps, sgm):
    wn = fmhz / 47.7
    ens = B.ite(B.eq(zsys, 0), lambda: en0, lambda: en0 * B.exp(-zsys / 9460))
    gme = 157e-9 * (1 - 0.04665 * B.exp(ens / 179.3))
    zr, zi = zground(B, wn, ipol, eps, sgm)
    return wn, gme, ens, zr, zi


def zground(B, wn, ipol, eps, sgm):
    qi = 376.62 * sgm / wn
    sr, si = B.csqrt(eps - 1, qi)
    den = eps * eps + qi * qi
    zr = B.ite(B.eq(ipol, 0), lambda: sr, lambda: (sr * eps + si * qi) / den)
    zi = B.ite(B.eq(ipol, 0), lambda: si, lambda: (si * eps - sr * qi) / den)
    return zr, zi


# ------------------------------------------------------------------ profiles
def window_ok(B, z, xi, x1, x2):
    """precondition of the windowed profile operations (in metres and in samples: equivalent, as xi > 0)"""
    n = B.length(z) - 1
    c = [xi > 0, x1 >= 0, x2 >= x1, x2 <= n * xi, n >= 1]
    if B.symbolic:
        c += [x1 / xi >= 0, x2 / xi >= x1 / xi, x2 / xi <= n]
    return c


def _window(B, n, xi, x1, x2):
    a = B.floor(B.max(x1 / xi, 0))
    b = n - B.floor(B.max(n - x2 / xi, 0))
    deg = b <= a
    a2 = B.ite(deg, lambda: B.max(a - 1, 0), lambda: a)
    b2 = B.ite(deg, lambda: n - B.max(n - (b + 1), 0), lambda: b)
    return a2, b2


def _lsq(B, z, n, xi, x1, x2):
    """mean and slope (per sample) of the trapezoid-weighted least-squares line over the window; its centre"""
    a, b = _window(B, n, xi, x1, x2)
    m = b - a
    x0 = -0.5 * m
    za, zb = B.get(z, a), B.get(z, b)
    mean = (0.5 * (za + zb) + B.sum(lambda k: B.get(z, a + k + 1), B.max(m - 1, 0))) / m
    mom = 0.5 * (za - zb) * x0 + B.sum(lambda k: B.get(z, a + k + 1) * (x0 + k + 1), B.max(m - 1, 0))
    slope = mom * 12 / ((m * m + 2) * m)
    return mean, slope, b + x0


@spec
def zlsq_0(B, z, xi, x1, x2):
    n = B.length(z) - 1
    mean, slope, mid = _lsq(B, z, n, xi, x1, x2)
    return mean - slope * mid


@spec
def zlsq_n(B, z, xi, x1, x2):
    n = B.length(z) - 1
    mean, slope, mid = _lsq(B, z, n, xi, x1, x2)
    return mean + slope * (n - mid)


@spec
def qtile(B, a, k):
    return B.desc(a, k)


def interp_cell(B, n, p0, p):
    """index k of the profile cell [k-1, k] used at position p (in samples)"""
    return B.max(B.floor(p0) + 1, B.min(n, -B.floor(-p)))


def dl_samples(B, z, xi, x1, x2):
    """(count, sample function) of the equally spaced re-sampling of the window"""
    n = B.length(z) - 1
    p0 = x1 / xi
    w = x2 / xi - p0
    ka = B.min(B.max(4, B.floor(0.1 * (w + 8))), 25)
    cnt = 10 * ka - 5

    def s(j):
        p = p0 + j * (w / (cnt - 1))
        k = interp_cell(B, n, p0, p)
        return B.get(z, k) + (B.get(z, k) - B.get(z, k - 1)) * (p - k)
    return ka, cnt, s


@spec
def dlthx(B, z, xi, x1, x2):
    def run():
        ka, cnt, s = dl_samples(B, z, xi, x1, x2)
        arr = B.arr(s, cnt)
        y0 = B.U('zlsq_0', arr, 1, 0, cnt - 1)
        y1 = B.U('zlsq_n', arr, 1, 0, cnt - 1)
        st = (y1 - y0) / (cnt - 1)
        res = B.arr(lambda j: B.get(arr, j) - (y0 + j * st), cnt)
        kb = cnt - ka + 1
        d = B.U('qtile', res, ka - 1) - B.U('qtile', res, kb - 1)
        return d / (1 - 0.8 * B.exp(-(x2 - x1) / 50e3))
    return B.ite(x2 / xi - x1 / xi >= 2, run, 0)


def hz_angle0(B, z, xi, hg0, gme, i):
    """elevation of sample i (>=1) seen from the first terminal"""
    s = i * xi
    return (B.get(z, i) - (B.get(z, 0) + hg0)) / s - 0.5 * gme * s


def hz_angle1(B, z, xi, hg1, gme, i):
    n = B.length(z) - 1
    s = (n - i) * xi
    return (B.get(z, i) - (B.get(z, n) + hg1)) / s - 0.5 * gme * s


def hz_direct(B, z, xi, hg0, hg1, gme):
    n = B.length(z) - 1
    dist = n * xi
    e = ((B.get(z, n) + hg1) - (B.get(z, 0) + hg0)) / dist
    return e - 0.5 * gme * dist, -e - 0.5 * gme * dist


# the horizon after the interior samples 1..k have been looked at: the largest elevation angle and where it is first
# attained; `hz_ob` records whether any of them stands above the direct ray
HZ = ('hz_ma', 'hz_mb', 'hz_la', 'hz_lb', 'hz_ob')


def hz_float(B, z, xi, hg0, hg1, gme, k):
    n = int(B.length(z)) - 1
    t0, t1 = hz_direct(B, z, xi, hg0, hg1, gme)
    l0 = l1 = n * xi
    ob = 0
    for i in range(1, int(k) + 1):
        a = hz_angle0(B, z, xi, hg0, gme, i)
        if a > t0:
            t0, l0, ob = a, i * xi, 1
        b = hz_angle1(B, z, xi, hg1, gme, i)
        if b > t1:
            t1, l1 = b, (n - i) * xi
    return t0, t1, l0, l1, ob


def _hz_seq(idx):
    def f(B, z, xi, hg0, hg1, gme, k):
        return hz_float(B, z, xi, hg0, hg1, gme, k)[idx]
    return f


for _i, _n in enumerate(HZ):
    RECURSIVE[_n] = _hz_seq(_i)


def hz_next(B, z, xi, hg0, hg1, gme, k):
    """defining equations of the sequences: values at k+1 from values at k"""
    n = B.length(z) - 1
    ma, mb, la, lb, ob = [B.U(nm, z, xi, hg0, hg1, gme, k) for nm in HZ]
    i = k + 1
    sa, sb = i * xi, (n - i) * xi
    qa = B.get(z, i) - (0.5 * gme * sa + ma) * sa - (B.get(z, 0) + hg0)
    qb = B.get(z, i) - (0.5 * gme * sb + mb) * sb - (B.get(z, n) + hg1)
    return (B.ite(qa > 0, lambda: ma + qa / sa, lambda: ma), B.ite(qb > 0, lambda: mb + qb / sb, lambda: mb),
            B.ite(qa > 0, lambda: sa, lambda: la), B.ite(qb > 0, lambda: sb, lambda: lb), B.ite(qa > 0, 1, lambda: ob))


def hz_init(B, z, xi, hg0, hg1, gme):
    n = B.length(z) - 1
    t0, t1 = hz_direct(B, z, xi, hg0, hg1, gme)
    return t0, t1, n * xi, n * xi, 0


def hzns(B, z, xi, hg0, hg1, gme):
    """(the0, the1, dl0, dl1)"""
    n = B.length(z) - 1
    return tuple(B.U(nm, z, xi, hg0, hg1, gme, n - 1) for nm in HZ[:4])


def qlrpfl_geom(B, z, xi, hg0, hg1, gme):
    """(dist, the0, the1, dl0, dl1, dh, he0, he1) of the point-to-point preparation"""
    n = B.length(z) - 1
    dist = n * xi
    t0, t1, l0, l1 = hzns(B, z, xi, hg0, hg1, gme)
    x1 = B.min(15 * hg0, 0.1 * l0)
    x2 = dist - B.min(15 * hg1, 0.1 * l1)
    dh = B.U('dlthx', z, xi, x1, x2)
    za, zb = B.get(z, 0), B.get(z, n)
    los = l0 + l1 >= 1.5 * dist

    def los_geo():
        h0 = hg0 + B.max(za - B.U('zlsq_0', z, xi, x1, x2), 0)
        h1 = hg1 + B.max(zb - B.U('zlsq_n', z, xi, x1, x2), 0)
        q = hor_dl(B, h0, dh, gme) + hor_dl(B, h1, dh, gme)
        f = B.ite(q <= dist, lambda: (dist / q) ** 2, 1)
        return h0 * f, h1 * f

    def far_geo():
        h0 = hg0 + B.max(za - B.U('zlsq_0', z, xi, x1, 0.9 * l0), 0)
        h1 = hg1 + B.max(zb - B.U('zlsq_n', z, xi, dist - 0.9 * l1, x2), 0)
        return h0, h1
    he0 = B.ite(los, lambda: los_geo()[0], lambda: far_geo()[0])
    he1 = B.ite(los, lambda: los_geo()[1], lambda: far_geo()[1])
    dl0 = B.ite(los, lambda: hor_dl(B, he0, dh, gme), lambda: l0)
    dl1 = B.ite(los, lambda: hor_dl(B, he1, dh, gme), lambda: l1)
    the0 = B.ite(los, lambda: hor_the(B, he0, dl0, dh, gme), lambda: t0)
    the1 = B.ite(los, lambda: hor_the(B, he1, dl1, dh, gme), lambda: t1)
    return dist, the0, the1, dl0, dl1, dh, he0, he1


# ------------------------------------------------------------------ statistics
BV1 = [-9.67, -0.62, 1.26, -9.21, -0.62, -0.39, 3.15]
BV2 = [12.7, 9.19, 15.5, 9.05, 9.19, 2.86, 857.9]
XV1 = [144.9e3, 228.9e3, 262.6e3, 84.1e3, 228.9e3, 141.7e3, 2222.e3]
XV2 = [190.3e3, 205.2e3, 185.2e3, 101.1e3, 205.2e3, 315.9e3, 164.8e3]
XV3 = [133.8e3, 143.6e3, 99.8e3, 98.6e3, 143.6e3, 167.4e3, 116.3e3]
BSM1 = [2.13, 2.66, 6.11, 1.98, 2.68, 6.86, 8.51]
BSM2 = [159.5, 7.67, 6.65, 13.11, 7.16, 10.38, 169.8]
XSM1 = [762.2e3, 100.4e3, 138.2e3, 139.1e3, 93.7e3, 187.8e3, 609.8e3]
XSM2 = [123.6e3, 172.5e3, 242.2e3, 132.7e3, 186.8e3, 169.6e3, 119.9e3]
XSM3 = [94.5e3, 136.4e3, 178.6e3, 193.5e3, 133.5e3, 108.9e3, 106.6e3]
BSP1 = [2.11, 6.87, 10.08, 3.68, 4.75, 8.58, 8.43]
BSP2 = [102.3, 15.53, 9.60, 159.3, 8.12, 13.97, 8.19]
XSP1 = [636.9e3, 138.7e3, 165.3e3, 464.4e3, 93.2e3, 216.0e3, 136.2e3]
XSP2 = [134.8e3, 143.7e3, 225.7e3, 93.1e3, 135.9e3, 152.0e3, 188.5e3]
XSP3 = [95.6e3, 98.6e3, 129.7e3, 94.2e3, 113.4e3, 122.7e3, 122.9e3]
BSD1 = [1.224, 0.801, 1.380, 1.000, 1.224, 1.518, 1.518]
BZD1 = [1.282, 2.161, 1.282, 20., 1.282, 1.282, 1.282]
BFM1 = [1., 1., 1., 1., 0.92, 1., 1.]
BFM2 = [0., 0., 0., 0., 0.25, 0., 0.]
BFM3 = [0., 0., 0., 0., 1.77, 0., 0.]
BFP1 = [1., 0.93, 1., 0.93, 0.93, 1., 1.]
BFP2 = [0., 0.31, 0., 0.19, 0.31, 0., 0.]
BFP3 = [0., 2.00, 0., 1.79, 2.00, 0., 0.]


@spec
def curv(B, c1, c2, x1, x2, x3, de):
    return (c1 + c2 / (1 + ((de - x2) / x3) ** 2)) * ((de / x1) ** 2) / (1 + (de / x1) ** 2)


class Var:
    pass


def avar_setup(B, klim, mdvar, wn, he0, he1, dist, dh):
    v = Var()
    bad = B.or_(klim <= 0, klim > 7)
    v.badklim = bad
    k = B.ite(bad, 5, lambda: klim) - 1

    def tb(lst):
        return B.table(lst, k)
    kd = B.ite(mdvar >= 20, lambda: mdvar - 20, lambda: mdvar)
    v.ws = mdvar >= 20
    v.wl = kd >= 10
    kd = B.ite(v.wl, lambda: kd - 10, lambda: kd)
    v.badkdv = B.or_(kd < 0, kd > 3)
    v.kdv = B.ite(v.badkdv, 0, lambda: kd)
    q = B.log(0.133 * wn)
    gm = tb(BFM1) + tb(BFM2) / ((tb(BFM3) * q) ** 2 + 1)
    gp = tb(BFP1) + tb(BFP2) / ((tb(BFP3) * q) ** 2 + 1)
    dexa = B.sqrt(18e6 * he0) + B.sqrt(18e6 * he1) + B.root(575.7e12 / wn, 3)
    de = B.ite(dist < dexa, lambda: 130e3 * dist / dexa, lambda: 130e3 + dist - dexa)
    v.vmd = B.U('curv', tb(BV1), tb(BV2), tb(XV1), tb(XV2), tb(XV3), de)
    v.sgtm = B.U('curv', tb(BSM1), tb(BSM2), tb(XSM1), tb(XSM2), tb(XSM3), de) * gm
    v.sgtp = B.U('curv', tb(BSP1), tb(BSP2), tb(XSP1), tb(XSP2), tb(XSP3), de) * gp
    v.sgtd = v.sgtp * tb(BSD1)
    v.zd = tb(BZD1)
    v.tgtd = (v.sgtp - v.sgtd) * v.zd
    q = _rough(B, dist, dh) * wn
    v.sgl = B.ite(v.wl, 0, lambda: 10 * q / (q + 13))
    v.vs0 = B.ite(v.ws, 0, lambda: (5 + 3 * B.exp(-de / 100e3)) ** 2)
    return v


def avar_deviates(B, kdv, zzt, zzl, zzc):
    zt = B.ite(B.eq(kdv, 0), lambda: zzc, lambda: zzt)
    zl = B.ite(B.or_(B.eq(kdv, 0), B.eq(kdv, 1)), lambda: zzc, lambda: B.ite(B.eq(kdv, 2), lambda: zzt, lambda: zzl))
    return zt, zl


def avar_sgt(B, v, zt):
    return B.ite(zt < 0, lambda: v.sgtm, lambda: B.ite(zt <= v.zd, lambda: v.sgtp, lambda: v.sgtd + v.tgtd / zt))


def avar_sgc2(B, v, zzt, zzl, zzc):
    """variance of the confidence spread"""
    zt, zl = avar_deviates(B, v.kdv, zzt, zzl, zzc)
    sgt = avar_sgt(B, v, zt)
    vs = v.vs0 + (sgt * zt) ** 2 / (7.8 + zzc ** 2) + (v.sgl * zl) ** 2 / (24 + zzc ** 2)
    return B.ite(B.eq(v.kdv, 0), lambda: sgt ** 2 + v.sgl ** 2 + vs,
                 lambda: B.ite(B.eq(v.kdv, 1), lambda: v.sgl ** 2 + vs, lambda: vs))


def avar_raw(B, v, zzt, zzl, zzc, aref):
    zt, zl = avar_deviates(B, v.kdv, zzt, zzl, zzc)
    sgt = avar_sgt(B, v, zt)
    yr = B.ite(B.eq(v.kdv, 0), 0, lambda: B.ite(B.eq(v.kdv, 1), lambda: sgt * zt,
               lambda: B.ite(B.eq(v.kdv, 2), lambda: B.sqrt(sgt ** 2 + v.sgl ** 2) * zt, lambda: sgt * zt + v.sgl * zl)))
    return aref - v.vmd - yr - B.sqrt(avar_sgc2(B, v, zzt, zzl, zzc)) * zzc


def avar_clamp(B, a):
    return B.ite(a < 0, lambda: a * (29 - a) / (29 - 10 * a), lambda: a)


def avar_q(B, v, zzt, zzl, zzc, aref):
    return avar_clamp(B, avar_raw(B, v, zzt, zzl, zzc, aref))


def avar_kwx(B, v, kwx, zzt, zzl, zzc):
    k = B.ite(B.or_(v.badklim, v.badkdv), lambda: B.max(kwx, 2), lambda: kwx)
    zt, zl = avar_deviates(B, v.kdv, zzt, zzl, zzc)
    far = B.or_(B.abs(zt) > 3.10, B.abs(zl) > 3.10, B.abs(zzc) > 3.10)
    return B.ite(far, lambda: B.max(k, 1), lambda: k)


@spec
def avar(B, zt, zl, zc, klim, mdvar, wn, he0, he1, dist, dh, aref):
    return avar_q(B, avar_setup(B, klim, mdvar, wn, he0, he1, dist, dh), zt, zl, zc, aref)


# ------------------------------------------------------------------ normal deviates
@spec
def qerf(B, z):
    x = B.abs(z)

    def f():
        s = 4.317008 / (x + 4.317008)
        return B.exp(-0.5 * z ** 2) * 0.398942280 * \
            ((((1.330274429 * s - 1.821255987) * s + 1.781477937) * s - 0.356563782) * s + 0.319381530) * s
    q = B.ite(x >= 10, 0, f)
    return B.ite(z < 0, lambda: 1 - q, lambda: q)


def qerfi_raw(B, q):
    x = 0.5 - q
    s = B.sqrt(-2 * B.log(B.max(0.5 - B.abs(x), 0.000001)))
    v = s - ((0.010328 * s + 0.802853) * s + 2.515516698) / (((0.001308 * s + 0.189269) * s + 1.432788) * s + 1)
    return B.ite(x < 0, lambda: -v, lambda: v)


@spec
def qerfi(B, q):
    return B.rnd(qerfi_raw(B, q), 4)


# ------------------------------------------------------------------ reference attenuation as one symbol (used by callers)
@spec
def lr_aref_p2p(B, dist, *geo):
    return lr_aref(B, lr_setup(B, 1, *geo), dist)


@spec
def lr_aref_area(B, dist, *geo):
    return lr_aref(B, lr_setup(B, 0, *geo), dist)


@spec
def lr_kwx(B, dist, kwx, *geo):
    g = lr_setup(B, 1, *geo)
    return lr_kwx_dist(B, lr_kwx_setup(B, kwx, g), dist, g.dmin)


# ------------------------------------------------------------------ mode switches shared by both preparations
def prep_switches(B, lvar, mdvarx, klimx, mdvar, klim):
    l = B.max(lvar, 3)
    l4 = B.ite(mdvarx >= 0, lambda: B.max(l, 4), lambda: l)
    return {'lvar': B.ite(klimx > 0, 5, lambda: l4), 'mdvar': B.ite(mdvarx >= 0, lambda: mdvarx, lambda: mdvar),
            'klim': B.ite(klimx > 0, lambda: klimx, lambda: klim)}


# ------------------------------------------------------------------ the point-to-point preparation as symbols (used by the runners)
def _ql_geo(B, z, xi, hg0, hg1, gme, wn, ens, zr, zi):
    dist, t0, t1, l0, l1, dh, h0, h1 = qlrpfl_geom(B, z, xi, hg0, hg1, gme)
    return dist, (hg0, hg1, h0, h1, l0, l1, t0, t1, gme, wn, ens, dh, zr, zi)


@spec
def ql_aref(B, z, xi, hg0, hg1, gme, wn, ens, zr, zi):
    dist, geo = _ql_geo(B, z, xi, hg0, hg1, gme, wn, ens, zr, zi)
    return B.U('lr_aref_p2p', dist, *geo)


@spec
def ql_kwx(B, z, xi, hg0, hg1, gme, wn, ens, zr, zi, kwx):
    dist, geo = _ql_geo(B, z, xi, hg0, hg1, gme, wn, ens, zr, zi)
    return B.U('lr_kwx', dist, kwx, *geo)


def _ql_part(i, nm):
    def f(B, z, xi, hg0, hg1, gme):
        return qlrpfl_geom(B, z, xi, hg0, hg1, gme)[i]
    f.__name__ = nm
    return spec(f)


QL = ('ql_the0', 'ql_the1', 'ql_dl0', 'ql_dl1', 'ql_dh', 'ql_he0', 'ql_he1')
for _i, _n in enumerate(QL):
    _ql_part(_i + 1, _n)


# ------------------------------------------------------------------ the runners' tables
def environment(B, fmhz, ipol, ens0, eps, sgm):
    """(wn, gme, zr, zi) the runners derive from frequency, polarisation and ground"""
    wn = fmhz / 47.7
    gme = 157e-9 * (1 - 0.04665 * B.exp(B.num(ens0) / 179.3))
    zr, zi = zground(B, wn, ipol, eps, sgm)
    return wn, gme, zr, zi


def free_space(B, wn, dist):
    return 8.685890 * B.log(2 * wn * dist)


def p2p_loss(B, z, xi, hg0, hg1, env, ens, qr, qc):
    """basic transmission loss at reliability and confidence qr, qc (percent), continental temperate, accidental mode, fixed path"""
    wn, gme, zr, zi = env
    a = (z, xi, hg0, hg1, gme)
    dist = (B.length(z) - 1) * xi
    aref = B.U('ql_aref', *a, wn, ens, zr, zi)
    v = avar_setup(B, 5, 11, wn, B.U('ql_he0', *a), B.U('ql_he1', *a), dist, B.U('ql_dh', *a))
    zt, zc = B.U('qerfi', B.num(qr / 100)), B.U('qerfi', B.num(qc / 100))
    return free_space(B, wn, dist) + avar_q(B, v, zt, 0, zc, aref)


QR, QC = (1, 10, 50, 90, 99), (50, 90, 10)


def p2p_rows(B, z, fmhz, d, hg0, hg1, ipol):
    n = B.length(z) - 1
    xi = d * 1000 / n
    env = environment(B, fmhz, ipol, 314, 15, 0.005)
    r = {'rows.len': len(QR) * len(QC)}
    i = 0
    for qr in QR:
        for qc in QC:
            r['rows.%d.distance_km' % i] = d
            r['rows.%d.reliability_level_%%' % i] = qr
            r['rows.%d.confidence_level_%%' % i] = qc
            r['rows.%d.propagation_loss_dB' % i] = p2p_loss(B, z, xi, hg0, hg1, env, 314, qr, qc)
            i += 1
    return r


GRID = tuple(range(10, 151, 10)) + tuple(range(200, 501, 50))


def area_rows(B, fmhz, hg0, hg1, ipol, dh):
    wn, gme, zr, zi = environment(B, fmhz, ipol, 301, 15, 0.001)
    he = [B.U('qlra_he', 2, h, dh) for h in (hg0, hg1)]
    dl = [B.U('hor_dl', h, dh, gme) for h in he]
    the = [B.U('hor_the', h, l, dh, gme) for h, l in zip(he, dl)]
    geo = (hg0, hg1, he[0], he[1], dl[0], dl[1], the[0], the[1], gme, wn, 301, dh, zr, zi)
    r = {'rows.len': len(GRID) * len(QC)}
    i = 0
    zt = B.U('qerfi', B.num(0.5))
    for d in GRID:
        dist = d * 1000
        for qc in QC:
            r['rows.%d.distance_km' % i] = d
            r['rows.%d.confidence_level_%%' % i] = qc
            r['rows.%d.propagation_loss_dB' % i] = B.row(lambda: free_space(B, wn, dist) + avar_q(
                B, avar_setup(B, 5, 3, wn, he[0], he[1], dist, dh), zt, zt, B.U('qerfi', B.num(qc / 100)),
                B.U('lr_aref_area', dist, *geo)))
            i += 1
    return r


def pimter_rows(B, z, xi):
    env = environment(B, B.num(2488), 1, 314, 15, 0.005)
    r = {'rows.len': 121}
    for i in range(121):
        r['rows.%d.0' % i] = 2488
        r['rows.%d.1' % i] = 10 + i
        r['rows.%d.2' % i] = 50
        r['rows.%d.3' % i] = B.row(lambda: p2p_loss(B, z, xi, B.num(2.56), B.num(10 + i), env, 314, 50, 50))
    return r


# ------------------------------------------------------------------ terrain sampling
def num_samples(B, d):
    return B.rnd(600 - 1 / (1e-5 * d + B.num(1) / 598), 0)


@spec
def pct(B, a, q):
    """percentile by linear interpolation between order statistics"""
    n = B.length(a)
    p = (n - 1) * q / 100
    lo = B.floor(p)
    hi = B.min(lo + 1, n - 1)
    u, v = B.desc(a, n - 1 - lo), B.desc(a, n - 1 - hi)
    return u + (v - u) * (p - lo)


def _seg(x0, y0, x1, y1):
    import math
    return math.hypot(float(x1) - float(x0), float(y1) - float(y0))


def _line_len(B, x0, y0, x1, y1, x2, y2):
    return _seg(x0, y0, x1, y1) + _seg(x1, y1, x2, y2)


def _line_xy(i):
    def f(B, s, x0, y0, x1, y1, x2, y2):
        a, b = _seg(x0, y0, x1, y1), _seg(x1, y1, x2, y2)
        s = float(s)
        p, q, u = ((x0, y0), (x1, y1), s / a if a else 0.0) if s < a or not b else ((x1, y1), (x2, y2), (s - a) / b)
        u = min(max(u, 0.0), 1.0)
        return Fl(float(p[i]) + u * (float(q[i]) - float(p[i])))
    return f


def _dem_at(B, x, y, g0, gx, gy):
    return Fl(float(g0) + float(gx) * float(x) + float(gy) * float(y))


def _geo_len(B, x0, y0, x1, y1, x2, y2):
    return Fl(vincenty(x0, y0, x1, y1) + vincenty(x1, y1, x2, y2))


def vincenty(lon1, lat1, lon2, lat2):
    """length of the geodesic on the WGS84 ellipsoid (metres)"""
    from math import radians, sin, cos, tan, atan, atan2, sqrt
    a, f = 6378137.0, 1 / 298.257223563
    b = (1 - f) * a
    if lon1 == lon2 and lat1 == lat2:
        return 0.0
    u1, u2 = atan((1 - f) * tan(radians(lat1))), atan((1 - f) * tan(radians(lat2)))
    L = lam = radians(lon2 - lon1)
    for _ in range(200):
        ss = sqrt((cos(u2) * sin(lam)) ** 2 + (cos(u1) * sin(u2) - sin(u1) * cos(u2) * cos(lam)) ** 2)
        cs = sin(u1) * sin(u2) + cos(u1) * cos(u2) * cos(lam)
        sg = atan2(ss, cs)
        sa = cos(u1) * cos(u2) * sin(lam) / ss
        c2 = 1 - sa * sa
        cm = cs - 2 * sin(u1) * sin(u2) / c2 if c2 else 0.0
        C = f / 16 * c2 * (4 + f * (4 - 3 * c2))
        new = L + (1 - C) * f * sa * (sg + C * ss * (cm + C * cs * (2 * cm * cm - 1)))
        done = abs(new - lam) < 1e-15
        lam = new
        if done:
            break
    u = c2 * (a * a - b * b) / (b * b)
    A = 1 + u / 16384 * (4096 + u * (-768 + u * (320 - 175 * u)))
    Bq = u / 1024 * (256 + u * (-128 + u * (74 - 47 * u)))
    ds = Bq * ss * (cm + Bq / 4 * (cs * (2 * cm * cm - 1) - Bq / 6 * cm * (4 * ss * ss - 3) * (4 * cm * cm - 3)))
    return b * A * (sg - ds)


# what the geometry and raster libraries return: assumed (uninterpreted) in the proofs, computed here for the native runs
RECURSIVE.update(line_len=_line_len, line_x=_line_xy(0), line_y=_line_xy(1), dem_at=_dem_at, geo_len=_geo_len)
LINE = ('x0', 'y0', 'x1', 'y1', 'x2', 'y2')


def terrain_post(B, p):
    c = [p[k] for k in LINE]
    g = [p[k] for k in ('g0', 'gx', 'gy')]
    n = num_samples(B, B.U('geo_len', *c))
    L = B.U('line_len', *c)

    def at(k):
        s = k * L / (n - 1)
        return B.U('line_x', s, *c), B.U('line_y', s, *c)
    z = B.arr(lambda k: B.U('dem_at', *at(k), *g), n)
    return {'profile': z, 'distance_km': B.U('geo_len', *c) / 1000, 'lon': B.arr(lambda k: at(k)[0], n),
            'lat': B.arr(lambda k: at(k)[1], n), 'elev': z}


def pixels(B, lon, lat, radius, g0, gx, gy):
    """elevations of the pixels of a cell, no-data pixels (-9999) left out"""
    d = [B.num(x) for x in (lon, lat, radius, g0, gx, gy, -9999)]
    return B.arr(lambda k: B.U('pix_at', k, *d), B.U('pix_n', *d))
