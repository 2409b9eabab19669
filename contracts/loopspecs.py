"""Loop invariants supplied by the contracts (initialisation and preservation are discharged at every run)."""
from engine import terms as t
from engine.loops import Cand
from . import spec as S
from .backend import make_sym


def horizons(ex, loop):
    """the horizon scan: candidates over the profile the caller was given"""
    g = getattr(ex, 'hz_args', None)
    if g is None:
        p = getattr(ex, 'params', {})
        if not all(k in p for k in ('z', 'xi', 'hg0', 'hg1', 'gme')):
            return []
        g = [p[k] for k in ('z', 'xi', 'hg0', 'hg1', 'gme')]
    B = make_sym()
    init = S.hz_init(B, *g)
    out = []
    for i, nm in enumerate(S.HZ):
        def at(k, nm=nm):
            return B.U(nm, *g, k)

        def nxt(k, i=i):
            return t.num(S.hz_next(B, *g, k)[i])
        facts = None
        if nm == 'hz_ob':
            facts = lambda k: hz_facts(B, g, k)
        out.append(Cand(nm, at, t.num(init[i]), nxt, facts, flag=nm == 'hz_ob'))
    return out


def hz_facts(B, g, k):
    """lemma `hz-clear` (lemmas.py): the flag is 0 or 1, and while it is 0 both horizons are the direct ray"""
    ob = B.U('hz_ob', *g, k)
    i = S.hz_init(B, *g)
    clear = t.eq(ob, t.ZERO)
    return [t.or_(clear, t.eq(ob, t.ONE)), t.imp(clear, t.eq(B.U('hz_ma', *g, k), i[0])),
            t.imp(clear, t.eq(B.U('hz_mb', *g, k), i[1])), t.imp(clear, t.eq(B.U('hz_la', *g, k), i[2])),
            t.imp(clear, t.eq(B.U('hz_lb', *g, k), i[3]))]


PROVIDERS = [horizons]
