"""Verification of one unit: obligations from /repo's current source, discharge, refutation by replay."""
import random
import signal
import sys
import time
import traceback

sys.setrecursionlimit(20000)

from engine import terms as t
from engine import prove
from engine import unitrun
from engine.pysym import Unsupported, Unmergeable, Maybe, Split
from . import handlers as H
from . import backend
from . import units as U
from . import xcheck
from . import search
from .xcheck import wanted


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


class limit:
    def __init__(self, seconds):
        self.s = max(1, int(seconds))

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGALRM])
        signal.setitimer(signal.ITIMER_REAL, self.s, 5)      # again every 5 s, should a handler on the way swallow it

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def goals(u, r):
    """[(name, goal term or None)] of the unit's postcondition over the symbolic results"""
    out = []
    if u.post is not None:
        for k, v in u.post(r.B, r.p).items():
            if is_list(v):
                out += list_goals(r, k, v)
                continue
            if k not in r.out:
                out.append((k, t.FALSE, 'missing'))
                continue
            g = unitrun.goal_of(r.out[k], v)
            c = r.out.get('?' + k)
            if c is not None and g is not None:
                g = t.and_(c, g)
            out.append((k, t.FALSE if g is None else g, '' if g is not None else 'kind'))
    if u.rel is not None:
        try:
            for nm, rel in u.rel(r.B, r.p, r.out).items():
                out.append((nm, rel_goal(rel, r), ''))
        except KeyError as e:
            out.append(('result ' + str(e), t.FALSE, 'missing'))
    return out


def is_list(v):
    return isinstance(v, t.T) and v.op == 'poly' and len(v.args) == 1 and len(v.args[0][0]) == 1 and \
        v.args[0][0][0][0].op == 'lam'


def list_goals(r, k, v):
    """a list result equals the list v: same length, same element at an arbitrary index"""
    B = r.B
    n = B.length(v)
    if k + '.len' not in r.out:
        return [(k, t.FALSE, 'missing')]
    out = [(k + '.len', t.eq(t.num(r.out[k + '.len']), n), '')]
    i = t.var('elem_' + k, True)
    o = r.out.get(k + '.tail')
    if o is None:
        from engine.pysym import ListObj
        items = []
        while '%s.%d' % (k, len(items)) in r.out:
            items.append(r.out['%s.%d' % (k, len(items))])
        o = ListObj(items)
    try:
        got, cnt = H.as_lam(r.ex, r.st, o, 0, None)
    except Unsupported:
        return out + [(k + '[]', t.FALSE, 'kind')]
    g = t.eq(B.get(got, i), B.get(v, i))
    out.append((k + '[]', t.imp(t.and_(t.le(t.ZERO, i), t.lt(i, n)), g), ''))
    return out


def rel_goal(rel, r=None):
    k = rel[0]
    if k == 'same':
        c = rel[1] if not isinstance(rel[1], bool) else t.boolc(rel[1])
        a, b = r.out.get(rel[2]), r.out.get(rel[3])
        ca, cb = r.out.get('?' + rel[2], t.TRUE if a is not None else t.FALSE), r.out.get('?' + rel[3], t.TRUE if b is not None else t.FALSE)
        if a is None or b is None:
            return t.imp(c, t.and_(t.not_(ca), t.not_(cb)))
        return t.imp(c, t.and_(t.iff(ca, cb), t.imp(ca, unitrun.goal_of(a, b))))
    if k == 'eq':
        return unitrun.goal_of(rel[1], rel[2])
    if k == 'le':
        return t.le(t.num(rel[1]), t.num(rel[2]))
    if k == 'true':
        return rel[1] if not isinstance(rel[1], bool) else t.boolc(rel[1])
    if k == 'imp':
        c = rel[1] if not isinstance(rel[1], bool) else t.boolc(rel[1])
        return t.imp(c, rel_goal(rel[2], r))
    if k == 'and':
        return t.and_(*[rel_goal(x, r) for x in rel[1:]])
    if k == 'or':
        return t.or_(*[rel_goal(x, r) for x in rel[1:]])
    raise ValueError(k)


def run_unit(u, level, case=()):
    """level 0: callee contracts; 1: every callee executed in place"""
    names = u.contracts if level == 0 else ()
    tab = H.table(names)
    from . import loopspecs
    return unitrun.execute(u, tab, externals=getattr(u, 'externals', None), loop_specs=loopspecs.PROVIDERS, hyps_extra=case)


def run_cases(u, level, case=(), depth=0):
    """one run, or one per case where a call has outcomes that one state cannot hold (two references in one place)"""
    try:
        return [run_unit(u, level, case)]
    except Split as e:
        names = {x if isinstance(x, str) else x[0] for x in u.params}
        names |= {'N_' + x for x in names}
        known = {h.id for h in case}
        c = [h for h in max(e.cases, key=len) if h.id not in known]
        if depth >= 4 or not c or any(v not in names for v in t.free_vars(*c)):
            raise
        # one of the outcomes, and everything else by the first condition that fails
        out = []
        for q in [c] + [c[:i] + [t.not_(h)] for i, h in enumerate(c)]:
            out += run_cases(u, level, tuple(case) + tuple(q), depth + 1)
        if len(out) > 16:
            raise
        return out


def side_goals(u, r):
    """obligations met while executing: preconditions of callees, and (units that ask for it) definedness"""
    out, seen = [], {}
    for o in r.ex.obls:
        if o.kind != 'pre' and not u.obls or (u.kinds is not None and o.kind not in u.kinds):
            continue
        key = (o.kind, o.where, o.goal.id, tuple(h.id for h in o.hyps))
        if key in seen:
            continue
        seen[key] = True
        nm = '%s %s (%s)' % (o.kind, o.where, o.note)
        n = sum(1 for x in out if x[0].split(' #')[0] == nm)
        out.append((nm + (' #%d' % (n + 1) if n else ''), o.goal, o.hyps))
    return out


def attempt(u, level, deadline, want=None, unfold=False, l2_timeout=6000, keys=None):
    """-> list of (name, Result, seconds, hyps, goal)"""
    runs = run_cases(u, level)
    res = []
    todo = []
    for i, r in enumerate(runs):
        hyps = r.ex.all_hyps(r.st)
        tag = ' [case %d]' % (i + 1) if len(runs) > 1 else ''
        todo += [(nm + tag, g, hyps, r) for nm, g, note in goals(u, r) if wanted(nm, keys)]
        todo += [(nm + tag, g, h, r) for nm, g, h in side_goals(u, r)]
    for name, g, hyps, r in todo:
        if want is not None and name not in want:
            continue
        t0 = time.time()
        if t0 > deadline:
            res.append((name, prove.Result('unknown', 'time'), 0.0, hyps, g))
            continue
        extra = []
        if unfold and g is not t.TRUE:
            g = backend.unfold(g) if unfold is True else backend.unfold(g, depth=unfold)
        if getattr(u, 'facts', None):
            extra = u.facts(r, g)
        rs = prove.prove(hyps + extra, g, max_cases=u.max_cases, l2_timeout=l2_timeout, deadline=deadline)
        res.append((name, rs, time.time() - t0, hyps, g))
    r = runs[0]
    if len(runs) > 1:
        r.hyps = []
    for x in runs[1:]:
        r.ex.assumed |= x.ex.assumed
        r.ex.functions.update(x.ex.functions)
        r.ex.called_contracts.update(x.ex.called_contracts)
    return r, res


def verify(name, keys=None, tier='quick', seed=1, budget=240):
    """decide one unit; returns a JSON-able record"""
    u = U.UNITS[name]
    t0 = time.time()
    rec = {'unit': name, 'obligations': [], 'functions': [], 'contracts': [], 'loops': [], 'notes': [], 'violations': [],
           'bounded': [], 'replayed': 0, 'agreed': 0, 'skipped': 0}
    pending = {}
    done = {}
    last = {}
    r = None
    deadline = t0 + budget
    stages = [(0, False), (0, 1), (0, True), (1, True)]
    w = xcheck.Worker()
    found = search.sample(u, w, random.Random(seed), u.samples if tier == 'quick' else u.samples * 25, rec, keys)
    if found:
        # refuted by a concrete run: no point in proving
        stages = []
        pending[found['key']] = 'refuted'
    for level, unf in stages if not u.native else ():
        if level not in u.levels or (level == 1 and not u.contracts):
            continue
        left = deadline - time.time()
        if left < 5:
            break
        try:
            with limit(left):
                want = set(pending) or None
                if want and any(x.startswith('pre ') for x in want) and level == 1:
                    # a callee's precondition is not established: its contract is not used at all
                    pending = {}
                    done = {}
                    want = None
                if want and '*' in want:
                    want = None
                rr, res = attempt(u, level, deadline - 1, want, unf, keys=keys)
            rec['assumed'] = sorted(set(rec.get('assumed', ())) | rr.ex.assumed)
            if r is None:
                r = rr
                rec['functions'] = sorted(f for f in rr.ex.functions if not f.startswith('harness'))
                rec['contracts'] = sorted(rr.ex.called_contracts)
                rec['loops'] = list(rr.ex.loops)
            for nm, rs, sec, hy, g in res:
                last[nm] = (rs, hy, g)
                if rs.status == 'proved':
                    done[nm] = {'name': '%s: %s' % (name, nm), 'status': 'proved', 'tier': rs.tier, 'cases': rs.cases,
                                'seconds': round(sec, 2), 'stage': 'callee contracts' if level == 0 else 'callees in place'}
                    pending.pop(nm, None)
                elif nm not in done:
                    pending[nm] = rs.status + ' ' + rs.tier
        except Timeout:
            rec['notes'].append('stage %s timed out' % ((level, unf),))
            pending.setdefault('*', 'timeout')
        except (Unsupported, Unmergeable) as e:
            rec['notes'].append('outside the verified subset: %s' % e)
            if not done:
                pending.setdefault('*', 'unsupported')
        except RecursionError:
            rec['notes'].append('recursion limit')
            pending.setdefault('*', 'unsupported')
        except Exception as e:
            rec['notes'].append('engine error: %s' % traceback.format_exc()[-600:])
            pending.setdefault('*', 'unsupported')
        if done and '*' in pending:
            del pending['*']
        if not pending:
            break
        if (level, unf) == stages[0] and not u.soft:
            # before the dearer stages: a short search for a failing input
            found = stroll(u, w, random.Random(seed + 3), rec, keys, r, 8 if tier == 'quick' else 60)
            if found:
                pending.setdefault(found['key'], 'refuted')
                break
    rec['obligations'] = list(done.values())
    # vacuity: the precondition must be satisfiable
    if u.pre is not None and r is not None:
        st, _ = prove.check_L1(r.hyps, None, 5000)
        if st == 'unsat':
            rec['notes'].append('VACUOUS precondition')
            pending['precondition'] = 'vacuous'
    try:
        if not found and pending:
            found = search.directed(u, w, random.Random(seed + 1), last, pending, rec, keys, 60 if tier == 'quick' else 240)
    finally:
        w.close()
    for nm, why in pending.items():
        rec['obligations'].append({'name': '%s: %s' % (name, nm), 'status': 'undischarged', 'tier': why})
    if found:
        rec['violations'].append(found)
    else:
        for nm, why in pending.items():
            rs = last.get(nm, (None,))[0]
            pts = rec.get('leafpoints', {}).get(nm)
            if nm != '*' and rs is not None and rs.status == 'sat' and rs.leaf is not None and pts == 0 and not u.soft:
                rec['violations'].append({'unit': name, 'key': nm, 'nofail': True, 'why': why,
                                          'leaf': t.show(rs.leaf[1], 6)[:3000],
                                          'path': [t.show(h, 4)[:300] for h in rs.leaf[0][-12:]],
                                          'model': [{k: str(v) for k, v in m.vals.items()} for m in rs.models[:1]]})
            else:
                rec['bounded'].append({'obligation': nm, 'why': why, 'bound': '%d concrete inputs agreed' % rec['agreed']})
    if u.native and not found:
        rec['bounded'].append({'obligation': 'replay', 'why': 'replay only', 'bound': '%d concrete inputs agreed' % rec['agreed']})
    rec['seconds'] = round(time.time() - t0, 2)
    rec['stats'] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in prove.STATS.items()}
    return rec


def stroll(u, w, rng, rec, keys, r, seconds):
    pool = search.constants(list(r.ex.functions) if r is not None else search.reached(u))
    t0 = time.time()
    while time.time() - t0 < seconds:
        a = u.sample(rng)
        if rng.random() < 0.5:
            a = search.mutate(u, rng, a, pool)
        found = search.check(u, w, a, rec, keys)
        if found:
            return found
    return None


def hunt(name, keys, tier, seed, seconds, functions=()):
    """search for a failing input of a unit whose supporting contracts are not established"""
    u = U.UNITS[name]
    t0 = time.time()
    rec = {'unit': name, 'obligations': [], 'functions': [], 'contracts': [], 'loops': [], 'notes': [], 'violations': [],
           'bounded': [], 'replayed': 0, 'agreed': 0, 'skipped': 0, 'hunt': True}
    rng = random.Random(seed + 7)
    pool = search.constants(list(functions))
    w = xcheck.Worker()
    found = None
    recent = []
    try:
        while time.time() - t0 < seconds and not found:
            if recent and rng.random() < 0.3:
                a = search.related(u, rng, recent)
            else:
                a = u.sample(rng)
                if rng.random() < 0.5:
                    a = search.mutate(u, rng, a, pool)
            recent = [a] + recent[:2]
            found = search.check(u, w, a, rec, keys)
    finally:
        w.close()
    if found:
        rec['violations'].append(found)
    else:
        rec['bounded'].append({'obligation': 'all', 'why': 'a supporting contract is not established',
                               'bound': '%d concrete inputs agreed' % rec['agreed']})
    rec['seconds'] = round(time.time() - t0, 2)
    rec['stats'] = {}
    return rec
