"""Verification clients: each function drives the real code of /repo from plain numbers and returns what a user
observes.  The symbolic executor reads these functions together with the code they call; the replay worker runs the
very same functions under CPython against /repo."""
from itmlogic.diffraction_attenuation.aknfe import aknfe
from itmlogic.diffraction_attenuation.fht import fht
from itmlogic.diffraction_attenuation.adiff import adiff
from itmlogic.los_attenuation.alos import alos
from itmlogic.scatter_attenuation.ahd import ahd
from itmlogic.scatter_attenuation.h0f import h0f
from itmlogic.scatter_attenuation.ascat import ascat
from itmlogic.lrprop import lrprop
from itmlogic.preparatory_subroutines.qlra import qlra
from itmlogic.preparatory_subroutines.qlrps import qlrps
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
from itmlogic.preparatory_subroutines.hzns import hzns
from itmlogic.preparatory_subroutines.dlthx import dlthx
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1
from itmlogic.statistics.avar import avar
from itmlogic.statistics.curv import curv
from itmlogic.misc.qerf import qerf
from itmlogic.misc.qerfi import qerfi
from itmlogic.misc.qtile import qtile


# ------------------------------------------------------------------ leaf functions
def c_aknfe(v2):
    return {'aknfe': aknfe(v2)}


def c_fht(x, pk):
    return {'fht': fht(x, pk)}


def c_ahd(td):
    return {'ahd': ahd(td)}


def c_h0f(r, et):
    return {'h0f': h0f(r, et)}


def c_curv(c1, c2, x1, x2, x3, de):
    return {'curv': curv(c1, c2, x1, x2, x3, de)}


def c_qerf(z):
    return {'qerf': qerf(z)}


def c_qerfi(qs):
    return {'out': qerfi(qs), 'q': qs}


def c_qlrps(fmhz, zsys, en0, ipol, eps, sgm):
    wn, gme, ens, zgnd = qlrps(fmhz, zsys, en0, ipol, eps, sgm)
    return {'wn': wn, 'gme': gme, 'ens': ens, 'zr': zgnd.real, 'zi': zgnd.imag}


def c_qtile(a, k):
    return {'qtile': qtile(a, k), 'a': a}


# ------------------------------------------------------------------ terrain profiles
def profile(z, xi):
    return [len(z) - 1, xi] + z


def c_zlsq1(z, xi, x1, x2):
    pfl = profile(z, xi)
    z0, zn = zlsq1(pfl, x1, x2)
    return {'z0': z0, 'zn': zn, 'pfl': pfl}


def c_dlthx(z, xi, x1, x2):
    pfl = profile(z, xi)
    return {'dlthx': dlthx(pfl, x1, x2), 'pfl': pfl}


def c_hzns(z, xi, hg0, hg1, gme):
    pfl = profile(z, xi)
    hg = [hg0, hg1]
    the, dl = hzns(pfl, (len(z) - 1) * xi, hg, gme)
    return {'the0': the[0], 'the1': the[1], 'dl0': dl[0], 'dl1': dl[1], 'pfl': pfl, 'hg0': hg[0], 'hg1': hg[1]}


# ------------------------------------------------------------------ attenuation in the three regions
def c_adiff(d, mdp, hg0, hg1, he0, he1, dl0, dl1, dla, dlsa, tha, gme, wn, dh, zr, zi):
    prop = {'mdp': mdp, 'hg': [hg0, hg1], 'he': [he0, he1], 'dl': [dl0, dl1], 'dla': dla, 'dlsa': dlsa, 'tha': tha,
            'gme': gme, 'wn': wn, 'dh': dh, 'zgnd': complex(zr, zi)}
    q, prop = adiff(0, prop)
    a, prop = adiff(d, prop)
    return {'setup': q, 'adiff': a}


def c_adiff_seq(d, e, mdp, hg0, hg1, he0, he1, dl0, dl1, dla, dlsa, tha, gme, wn, dh, zr, zi):
    prop = {'mdp': mdp, 'hg': [hg0, hg1], 'he': [he0, he1], 'dl': [dl0, dl1], 'dla': dla, 'dlsa': dlsa, 'tha': tha,
            'gme': gme, 'wn': wn, 'dh': dh, 'zgnd': complex(zr, zi)}
    q, prop = adiff(0, prop)
    a, prop = adiff(e, prop)
    b, prop = adiff(d, prop)
    return {'adiff': b}


def c_alos(d, he0, he1, dh, zr, zi, wn, emd, aed, wis):
    prop = {'he': [he0, he1], 'dh': dh, 'zgnd': complex(zr, zi), 'wn': wn, 'emd': emd, 'aed': aed, 'wis': wis}
    return {'alos': alos(d, prop)}


def c_ascat(d, h0s, ad, rr, etq, the0, the1, he0, he1, gme, wn, tha, ens):
    prop = {'h0s': h0s, 'ad': ad, 'rr': rr, 'etq': etq, 'the': [the0, the1], 'he': [he0, he1], 'gme': gme, 'wn': wn,
            'tha': tha, 'ens': ens}
    prop = ascat(d, prop)
    return {'ascat': prop['ascat1'], 'h0s': prop['h0s']}


# ------------------------------------------------------------------ reference attenuation
def lr_prop(mdp, dist, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi):
    return {'mdp': mdp, 'dist': dist, 'kwx': kwx, 'hg': [hg0, hg1], 'he': [he0, he1], 'dl': [dl0, dl1],
            'the': [the0, the1], 'gme': gme, 'wn': wn, 'ens': ens, 'dh': dh, 'zgnd': complex(zr, zi)}


def observed(prop):
    return {'aref': prop['aref'], 'kwx': prop['kwx'], 'dist': prop['dist'], 'mdp': prop['mdp'], 'dlsa': prop['dlsa']}


def kept(prop):
    return {'hg0': prop['hg'][0], 'hg1': prop['hg'][1], 'he0': prop['he'][0], 'he1': prop['he'][1],
            'dl0': prop['dl'][0], 'dl1': prop['dl'][1], 'the0': prop['the'][0], 'the1': prop['the'][1],
            'gme': prop['gme'], 'wn': prop['wn'], 'ens': prop['ens'], 'dh': prop['dh'],
            'zr': prop['zgnd'].real, 'zi': prop['zgnd'].imag}


def c_lrprop_p2p(d, dist, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi):
    prop = lr_prop(-1, dist, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
    out = lrprop(d, prop)
    r = observed(out)
    r['kept'] = kept(out)
    return r


def c_lrprop_area(d, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi):
    prop = lr_prop(1, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
    out = lrprop(d, prop)
    r = observed(out)
    r['kept'] = kept(out)
    return r


def c_area_seq(d1, d2, d3, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi):
    prop = lr_prop(1, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
    prop = lrprop(d1, prop)
    r1 = observed(prop)
    prop = lrprop(d2, prop)
    r2 = observed(prop)
    prop = lrprop(d3, prop)
    r3 = observed(prop)
    return {'q1': r1, 'q2': r2, 'q3': r3}


def c_area_hist(d1, d2, d3, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi):
    """the answer for d3 after earlier queries, and the answer of a session that asks for d3 alone"""
    prop = lr_prop(1, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
    prop = lrprop(d1, prop)
    prop = lrprop(d2, prop)
    prop = lrprop(d3, prop)
    fresh = lr_prop(1, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
    fresh = lrprop(d3, fresh)
    return {'after': observed(prop), 'fresh': observed(fresh), 'kept': kept(prop)}


def c_area_repeat(d1, d3, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi):
    prop = lr_prop(1, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
    prop = lrprop(d1, prop)
    prop = lrprop(d3, prop)
    fresh = lr_prop(1, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
    fresh = lrprop(d3, fresh)
    return {'after': observed(prop), 'fresh': observed(fresh)}


def c_area_many(ds, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi):
    """a whole session against single queries (native replay only)"""
    prop = lr_prop(1, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
    out = {}
    for i in range(len(ds)):
        prop = lrprop(ds[i], prop)
        fresh = lr_prop(1, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
        fresh = lrprop(ds[i], fresh)
        out['q%d' % i] = {'after': prop['aref'], 'fresh': fresh['aref']}
    return out


def state(prop):
    """the working values an area query leaves behind, other than its own answer"""
    s = dict(prop)
    for k in ('dist', 'kwx', 'aref', 'mdp'):
        del s[k]
    return s


def c_area_state(d1, d2, d3, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi):
    prop = lr_prop(1, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
    prop = lrprop(d1, prop)
    prop = lrprop(d2, prop)
    prop = lrprop(d3, prop)
    a = lr_prop(1, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
    a = lrprop(d1, a)
    a = lrprop(d2, a)
    b = lr_prop(1, stale, kwx, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
    b = lrprop(d1, b)
    b = lrprop(d3, b)
    return {'s123': state(prop), 's12': state(a), 's13': state(b), 'dlsa': prop['dlsa']}


def c_edges(p2p, eps, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi):
    """attenuation just before and just after the two region boundaries of a link (native replay only)"""
    def at(d):
        prop = lr_prop(-1 if p2p else 1, d, 0, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi)
        return lrprop(0 if p2p else d, prop)
    s = (2 * he0 / gme) ** 0.5 + (2 * he1 / gme) ** 0.5
    x = at(s * 1.5)['dx']
    r = {'s0': at(s * (1 - eps))['aref'], 's1': at(s * (1 + eps))['aref'],
         's00': at(s * (1 - 100 * eps))['aref'], 's11': at(s * (1 + 100 * eps))['aref']}
    if x > s and x < 9e6:
        r['x0'], r['x1'] = at(x * (1 - eps))['aref'], at(x * (1 + eps))['aref']
    else:
        r['x0'] = r['x1'] = 0
    return r


def c_recip(dist, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi):
    a = lrprop(0, lr_prop(-1, dist, 0, hg0, hg1, he0, he1, dl0, dl1, the0, the1, gme, wn, ens, dh, zr, zi))
    b = lrprop(0, lr_prop(-1, dist, 0, hg1, hg0, he1, he0, dl1, dl0, the1, the0, gme, wn, ens, dh, zr, zi))
    return {'there': a['aref'], 'back': b['aref'], 'kthere': a['kwx'], 'kback': b['kwx']}


# ------------------------------------------------------------------ preparation
def c_qlra(kst0, kst1, hg0, hg1, dh, gme, lvar, mdvarx, klimx, mdvar, klim):
    prop = {'hg': [hg0, hg1], 'dh': dh, 'gme': gme, 'lvar': lvar, 'mdvarx': mdvarx, 'klimx': klimx, 'mdvar': mdvar,
            'klim': klim}
    kst = [kst0, kst1]
    prop = qlra(kst, prop)
    return {'he0': prop['he'][0], 'he1': prop['he'][1], 'dl0': prop['dl'][0], 'dl1': prop['dl'][1],
            'the0': prop['the'][0], 'the1': prop['the'][1], 'mdp': prop['mdp'], 'lvar': prop['lvar'],
            'mdvar': prop['mdvar'], 'klim': prop['klim'],
            'kept': {'hg0': prop['hg'][0], 'hg1': prop['hg'][1], 'dh': prop['dh'], 'gme': prop['gme'], 'kst0': kst[0],
                     'kst1': kst[1]}}


def c_qlrpfl(z, xi, hg0, hg1, gme, wn, ens, zr, zi, kwx, lvar, mdvarx, klimx, mdvar, klim):
    prop = {'pfl': profile(z, xi), 'hg': [hg0, hg1], 'gme': gme, 'wn': wn, 'ens': ens, 'zgnd': complex(zr, zi),
            'kwx': kwx, 'lvar': lvar, 'mdvarx': mdvarx, 'klimx': klimx, 'mdvar': mdvar, 'klim': klim}
    prop = qlrpfl(prop)
    return {'dist': prop['dist'], 'dh': prop['dh'], 'he0': prop['he'][0], 'he1': prop['he'][1], 'dl0': prop['dl'][0],
            'dl1': prop['dl'][1], 'the0': prop['the'][0], 'the1': prop['the'][1], 'mdp': prop['mdp'],
            'lvar': prop['lvar'], 'mdvar': prop['mdvar'], 'klim': prop['klim'], 'aref': prop['aref'],
            'kwx': prop['kwx'], 'pfl': prop['pfl'],
            'kept': {'hg0': prop['hg'][0], 'hg1': prop['hg'][1], 'gme': prop['gme'], 'wn': prop['wn'],
                     'ens': prop['ens'], 'zr': prop['zgnd'].real, 'zi': prop['zgnd'].imag}}


# ------------------------------------------------------------------ statistics
def av_prop(lvar, klim, mdvar, wn, he0, he1, dist, dh, aref, kwx):
    return {'lvar': lvar, 'klim': klim, 'mdvar': mdvar, 'wn': wn, 'he': [he0, he1], 'dist': dist, 'dh': dh, 'aref': aref,
            'kwx': kwx}


def c_avar(zt, zl, zc, klim, mdvar, wn, he0, he1, dist, dh, aref, kwx):
    prop = av_prop(5, klim, mdvar, wn, he0, he1, dist, dh, aref, kwx)
    a, prop = avar(zt, zl, zc, prop)
    return {'avar': a, 'kwx': prop['kwx'], 'lvar': prop['lvar'],
            'kept': {'wn': prop['wn'], 'he0': prop['he'][0], 'he1': prop['he'][1], 'dist': prop['dist'],
                     'dh': prop['dh'], 'aref': prop['aref'], 'mdvar': prop['mdvar']}}


def c_avar_again(level, zt, zl, zc, klim, mdvar, wn, he0, he1, dist, dh, aref,
                 yt, yl, yc, klim2, mdvar2, wn2, hf0, hf1, dist2, dh2, aref2):
    """a second prediction after the inputs covered by recalculation level `level` have changed, and the same
    prediction made from scratch"""
    prop = av_prop(5, klim, mdvar, wn, he0, he1, dist, dh, aref, 0)
    a, prop = avar(zt, zl, zc, prop)
    fresh = av_prop(5, klim, mdvar, wn, he0, he1, dist, dh, aref2, 0)
    prop['aref'] = aref2
    if level >= 1:
        prop['dist'] = fresh['dist'] = dist2
        prop['dh'] = fresh['dh'] = dh2
    if level >= 2:
        prop['he'] = [hf0, hf1]
        fresh['he'] = [hf0, hf1]
    if level >= 3:
        prop['wn'] = fresh['wn'] = wn2
    if level >= 4:
        prop['mdvar'] = fresh['mdvar'] = mdvar2
    if level >= 5:
        prop['klim'] = fresh['klim'] = klim2
    prop['lvar'] = level
    b, prop = avar(yt, yl, yc, prop)
    c, fresh = avar(yt, yl, yc, fresh)
    return {'avar': b, 'lvar': prop['lvar'], 'fresh': c}


def c_avar_conf(zt, zl, zc, zc2, klim, mdvar, wn, he0, he1, dist, dh, aref):
    a, prop = avar(zt, zl, zc, av_prop(5, klim, mdvar, wn, he0, he1, dist, dh, aref, 0))
    b, prop = avar(zt, zl, zc2, av_prop(5, klim, mdvar, wn, he0, he1, dist, dh, aref, 0))
    return {'a': a, 'b': b}


def c_avar_time(zt, zt2, zl, zc, klim, mdvar, wn, he0, he1, dist, dh, aref):
    a, prop = avar(zt, zl, zc, av_prop(5, klim, mdvar, wn, he0, he1, dist, dh, aref, 0))
    b, prop = avar(zt2, zl, zc, av_prop(5, klim, mdvar, wn, he0, he1, dist, dh, aref, 0))
    return {'a': a, 'b': b}


def c_qerf_pair(z):
    return {'plus': qerf(z), 'minus': qerf(-z)}
