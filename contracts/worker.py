"""Replay worker: runs harness functions natively (CPython, the project's own interpreter) on JSON lines."""
import sys
import os
import io
import json
import importlib
import warnings
import contextlib
import copy

warnings.filterwarnings('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO + '/src', REPO + '/scripts', os.path.dirname(os.path.abspath(__file__))]


def flat(v, pre, out, depth=0):
    if depth > 12:
        return
    if isinstance(v, dict):
        for k, x in v.items():
            flat(x, pre + ('.' if pre else '') + str(k), out, depth + 1)
        return
    if isinstance(v, (list, tuple)):
        out[pre + '.len'] = len(v)
        for i, x in enumerate(v):
            flat(x, pre + '.' + str(i), out, depth + 1)
        return
    if v is None or isinstance(v, str):
        out[pre] = v
        return
    if isinstance(v, complex) or hasattr(v, 'imag') and type(v).__name__.startswith('complex'):
        out[pre + '.re'], out[pre + '.im'] = float(v.real), float(v.imag)
        return
    try:
        if isinstance(v, bool) or type(v).__name__ == 'bool_':
            out[pre] = bool(v)
        elif hasattr(v, 'tolist') and getattr(v, 'shape', ()) != ():
            flat(v.tolist(), pre, out, depth + 1)
        else:
            f = float(v)
            out[pre] = int(f) if f == int(f) and abs(f) < 1e15 else f
    except Exception:
        try:
            out[pre] = float(v)
        except Exception:
            out[pre] = repr(v)


def enc(d):
    r = {}
    for k, v in d.items():
        if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
            v = {'nonfinite': repr(v)}
        r[k] = v
    return r


def main():
    real_out = sys.stdout
    mods = {}
    for line in sys.stdin:
        req = json.loads(line)
        res = {}
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                mod, fn = req['fn'].rsplit('.', 1)
                m = mods.get(mod)
                if m is None:
                    m = mods[mod] = importlib.import_module(mod)
                v = getattr(m, fn)(**copy.deepcopy(req['args']))
                out = {}
                flat(v, '', out)
                res = {'ok': True, 'out': enc(out)}
        except Exception as e:
            res = {'ok': False, 'err': '%s: %s' % (type(e).__name__, e)}
        real_out.write(json.dumps(res) + '\n')
        real_out.flush()


main()
