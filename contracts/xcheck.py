"""CPython cross-check: real code versus specification on concrete inputs."""
import json
import math
import os
import random
import select
import subprocess
from . import units as U
from .backend import FloatB, In, Fl, Amb

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


class Worker:
    seconds = 20

    def __init__(self):
        self.p = None
        self.log = []              # the calls of the running process, oldest first

    def start(self):
        self.log = []
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=env, cwd=os.environ.get('VERIF_REPO', '/repo'))

    def call(self, fn, args):
        if self.p is None or self.p.poll() is not None:
            self.start()
        if len(self.log) >= 4000:
            del self.log[:1000]
        self.log.append((fn, args))
        self.p.stdin.write(json.dumps({'fn': fn, 'args': args}) + '\n')
        self.p.stdin.flush()
        if not select.select([self.p.stdout], [], [], self.seconds)[0]:
            self.p.kill()
            self.p = None
            return {'ok': False, 'err': 'no result after %d s' % self.seconds}
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {'ok': False, 'err': 'worker died'}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


def wrap(v):
    if isinstance(v, list):
        return [wrap(x) for x in v]
    if isinstance(v, bool) or isinstance(v, int):
        return v
    return In(v)


def unwrap_result(v):
    return v


TOL = 1e-6


def expected(u, args, noise=0.0):
    """spec values, or None when ambiguous/undefined"""
    Amb.flag = False
    B = FloatB()
    p = {k: wrap(v) for k, v in args.items()}
    if u.post is None:
        return {}, ''
    try:
        r = u.post(B, p)
    except (ValueError, ZeroDivisionError, OverflowError, IndexError):
        return None, 'undefined'
    except TypeError:
        return None, 'undefined'
    if Amb.flag:
        return None, 'ambiguous'
    if any(v is None for v in r.values()) and all(v is None or isinstance(v, (int, str)) for v in r.values()):
        return None, 'ambiguous'
    return {k: v for k, v in r.items() if v is not None}, ''


BOX = {'hg': (0.01, 2e4), 'he': (0.01, 1e6), 'dl': (1.0, 1e7), 'the': (-2, 2), 'gme': (1e-9, 1e-5), 'wn': (0.01, 1e4), 'ens': (50, 1000),
       'dh': (0, 1e5), 'zr': (1e-4, 1e4), 'zi': (-1e4, 1e4), 'dist': (0.01, 1e8), 'd': (0, 1e8), 'ad': (0, 1e7), 'xi': (1e-3, 1e7),
       'fmhz': (0.1, 1e6), 'radius': (1, 3e5), 'lon': (-179, 179), 'lat': (-80, 80), 'hf': (0.01, 1e6), 'en0': (50, 1000), 'sgm': (0, 1e4), 'zsys': (-1e3, 3e4), 'aref': (-1e4, 1e4)}


def physical(args):
    """native runs stay where floating-point range is no concern"""
    for k, v in args.items():
        b = BOX.get(k) or BOX.get(k.rstrip('0123456789'))
        if b is not None and isinstance(v, (int, float)) and not b[0] <= v <= b[1]:
            return False
        for x in v if isinstance(v, list) else (v,):
            if isinstance(x, (int, float)) and not abs(x) <= 1e12:
                return False
    return True


def in_pre(u, args):
    if u.fixed and any(args.get(k) != v for k, v in u.fixed.items()):
        return False
    if not physical(args):
        return False
    if u.pre is None:
        return True
    B = FloatB()
    try:
        return all(bool(c) for c in u.pre(B, {k: wrap(v) for k, v in args.items()}))
    except (ValueError, ZeroDivisionError, OverflowError, IndexError, TypeError):
        return False


def differs(a, b, tol=TOL):
    if isinstance(a, dict) or isinstance(b, dict):
        return True
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a != b
    a, b = float(a), float(b)
    if a != a and b != b:
        return False
    if a in (math.inf, -math.inf) or b in (math.inf, -math.inf):
        return a != b
    return not abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def compare(u, args, w, keys=None):
    """None | ('skip', why) | ('diff', key, got, want)"""
    if not in_pre(u, args):
        return ('skip', 'precondition')
    want, why = expected(u, args)
    if want is None and why != 'ambiguous':
        return ('skip', why)
    if getattr(u, 'defined', None) is not None and not u.defined(args):
        return ('skip', 'outside the domain')
    got = w.call(u.fn, args)
    if want is None:
        # within rounding of a branch: either side will do, but not a missing sample, key or name
        if not got['ok'] and got['err'].split(':')[0] in ('IndexError', 'KeyError', 'NameError', 'UnboundLocalError', 'TypeError', 'AttributeError'):
            return ('diff', 'exception', got['err'], 'a result')
        return ('skip', why)
    if not got['ok']:
        return ('diff', 'exception', got['err'], 'a result')
    if u.rel is not None:
        c = compare_rel(u, args, got['out'], keys)
        if c is not None:
            return c
    for k, v in want.items():
        if isinstance(v, list):
            continue
        if isinstance(v, (float, int)) and (v != v or abs(v) == math.inf):
            return ('skip', 'non-finite')
    for k, v in want.items():
        if not wanted(k, keys):
            continue
        if isinstance(v, list):
            if got['out'].get(k + '.len') != len(v):
                return ('diff', k + '.len', got['out'].get(k + '.len'), len(v))
            for i, x in enumerate(v):
                y = got['out'].get('%s.%d' % (k, i))
                if y is None or differs(y, x):
                    return ('diff', '%s[%d]' % (k, i), y, plain(x))
            continue
        if k not in got['out']:
            return ('diff', k, 'missing', plain(v))
        if differs(got['out'][k], v):
            return ('diff', k, got['out'][k], plain(v))
    return None


def wanted(name, keys):
    if keys is None:
        return True
    return any(name == k or (k.endswith('*') and name.startswith(k[:-1])) for k in keys)


def plain(v):
    return float(v) if isinstance(v, (int, float)) else v


def holds(rel, tol=1e-7):
    k = rel[0]
    if k == 'eq':
        return not differs(rel[1], rel[2], tol)
    if k == 'le':
        return float(rel[1]) <= float(rel[2]) + tol * max(1.0, abs(float(rel[1])), abs(float(rel[2])))
    if k == 'true':
        return bool(rel[1])
    if k == 'imp':
        return (not rel[1]) or holds(rel[2], tol)
    if k == 'and':
        return all(holds(x, tol) for x in rel[1:])
    if k == 'or':
        return any(holds(x, tol) for x in rel[1:])
    raise ValueError(k)


def shown(rel):
    return [shown(x) if isinstance(x, tuple) else (float(x) if isinstance(x, (int, float)) else str(x)) for x in rel]


def compare_rel(u, args, out, keys=None):
    Amb.flag = False
    B = FloatB()
    p = {k: wrap(v) for k, v in args.items()}
    o = {k: (Fl(v) if isinstance(v, float) else v) for k, v in out.items()}
    if any(isinstance(v, dict) for v in out.values()):
        return ('skip', 'non-finite')
    try:
        rels = u.rel(B, p, o)
    except KeyError as e:
        return ('diff', str(e), 'missing', 'present')
    for nm, rel in rels.items():
        if not wanted(nm, keys):
            continue
        if rel[0] == 'same':
            a, b = out.get(rel[2]), out.get(rel[3])
            rel = ('imp', rel[1], ('true', a == b) if a is None or b is None else ('eq', a, b))
        if not holds(rel):
            if Amb.flag:
                return ('skip', 'ambiguous')
            return ('diff', nm, shown(rel), 'to hold')
    return None


if __name__ == '__main__':
    import sys
    w = Worker()
    names = sys.argv[2:] or U.ORDER
    for nm in names:
        u = U.UNITS[nm]
        r = random.Random(1)
        n = int(sys.argv[1])
        st = {}
        shown = 0
        for i in range(n):
            a = u.sample(r)
            c = compare(u, a, w)
            k = 'ok' if c is None else c[0] + ':' + str(c[1])
            st[k] = st.get(k, 0) + 1
            if c is not None and c[0] == 'diff' and shown < 2:
                shown += 1
                print('   ', nm, c, a)
        print(nm, st)
    w.close()
