"""Refutation: run the real code on concrete inputs and compare with the specification."""
import ast
import math
import time
from engine import terms as t
from engine import prove
from . import backend
from . import xcheck
from .backend import FloatB


def note(rec, c):
    rec['replayed'] += 1
    if c is None:
        rec['agreed'] += 1
    elif c[0] == 'skip':
        rec['skipped'] += 1


def unstable(u, args, key):
    """would rounding alone explain the difference?"""
    base, _ = xcheck.expected(u, args)
    if base is None or key not in base:
        return False
    b = base[key]
    if not isinstance(b, float):
        return False
    for e in (3e-13, -3e-13):
        a2 = {k: (v * (1 + e) if isinstance(v, float) else v) for k, v in args.items()}
        v2, _ = xcheck.expected(u, a2)
        if v2 is None or key not in v2:
            return True
        if xcheck.differs(float(v2[key]), float(b), xcheck.TOL / 10):
            return True
    return False


def check(u, w, args, rec, keys):
    c = xcheck.compare(u, args, w, keys)
    note(rec, c)
    if c is not None and c[0] == 'diff':
        if c[1] != 'exception' and unstable(u, args, c[1]):
            rec['skipped'] += 1
            return None
        f = {'unit': u.name, 'fn': u.fn, 'key': c[1], 'args': args, 'got': c[2], 'want': c[3]}
        b = before(u, w, args, keys)
        if b:
            f['before'] = b
        return f
    return None


def before(u, w, args, keys):
    """the calls a failing input needs before it in the same process (none, unless the code keeps state between calls)"""
    log = [a for fn, a in w.log if fn == u.fn and a is not args]
    for n in (0, 1, 2, 4, 30, len(log)):
        w2 = xcheck.Worker()
        try:
            for a in log[len(log) - n:] if n else ():
                w2.call(u.fn, a)
            c = xcheck.compare(u, args, w2, keys)
        finally:
            w2.close()
        if c is not None and c[0] == 'diff':
            return log[len(log) - n:] if n else []
    return log


def related(u, rng, recent):
    """an input that differs from a recent one in one respect only: code that keeps something between calls and forgets to compare that respect
    answers for the earlier input"""
    a = dict(rng.choice(recent))
    new = u.sample(rng)
    k = rng.choice(list(a))
    if isinstance(a[k], list) and a[k] and isinstance(a[k][0], (int, float)):
        z = list(a[k])
        inner = range(1, len(z) - 1) if len(z) > 3 and rng.random() < 0.7 else range(len(z))
        i, j = rng.choice(inner), rng.choice(inner)
        m = rng.random()
        if m < 0.3:
            z[i], z[j] = z[j], z[i]
        elif m < 0.7:
            e = type(z[0])(rng.choice([1, 3, 20, 150]))
            z[i] += e
            if m < 0.5:
                z[j] -= e
        elif isinstance(new[k], list) and new[k]:
            z = [z[0]] + [rng.choice(new[k]) for _ in z[1:-1]] + z[-1:] if len(z) > 2 else z
        a[k] = z
    elif isinstance(a[k], float) and rng.random() < 0.3:
        a[k] = a[k] * (1 + rng.choice([1e-5, -1e-5, 1e-4, 1e-3, 0.02]))
    else:
        a[k] = new[k]
    return a


def sample(u, w, rng, n, rec, keys):
    recent = []
    for i in range(n):
        args = related(u, rng, recent) if recent and rng.random() < 0.25 else u.sample(rng)
        recent = [args] + recent[:2]
        f = check(u, w, args, rec, keys)
        if f:
            return f
    return None


# ------------------------------------------------------------------ constants of the code under test
def constants(functions):
    from engine.pysym import find_module
    out = set()
    for q in functions:
        m = find_module(q.rsplit('.', 1)[0])
        d = m.defs.get(q.rsplit('.', 1)[1]) if m else None
        if d is None:
            continue
        for n in ast.walk(d):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                out.add(float(n.value))
    return sorted(out)


def reached(u):
    """functions of the repository named by the client or, transitively, by what it names (when the source is outside the modelled subset)"""
    import os
    from engine.pysym import ROOTS
    index = {}
    for root in ROOTS:
        for d, _, fs in os.walk(root):
            for f in fs:
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    mod = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    try:
                        with open(p) as h:
                            tree = ast.parse(h.read())
                    except (SyntaxError, ValueError):
                        continue
                    for n in tree.body:
                        if isinstance(n, ast.FunctionDef):
                            index.setdefault(n.name, []).append((mod + '.' + n.name, n))
    mod, name = u.fn.rsplit('.', 1)
    with open(os.path.join(os.path.dirname(__file__), mod + '.py')) as h:
        own = {n.name: n for n in ast.parse(h.read()).body if isinstance(n, ast.FunctionDef)}
    seen = {}
    todo = [own.pop(name)]
    while todo:
        for n in ast.walk(todo.pop()):
            nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            if nm in own:
                todo.append(own.pop(nm))
            for q, d in index.get(nm, ()):
                if q not in seen:
                    seen[q] = d
                    todo.append(d)
    return sorted(seen)


def mutate(u, rng, args, pool):
    a = dict(args)
    ks = [k for k in a if not isinstance(a[k], list)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(ks) if ks else None
        if k is None:
            break
        m = rng.random()
        isint = isinstance(a[k], int)
        if m < 0.5 and pool:
            v = rng.choice(pool)
            if rng.random() < 0.3:
                v = -v
            if rng.random() < 0.3:
                v = v * rng.choice([1 + 1e-6, 1 - 1e-6, 1.01, 0.99, 2, 0.5])
        elif m < 0.7:
            other = rng.choice(ks)
            v = a[other]
        elif m < 0.85:
            v = a[k] * rng.choice([0.1, 0.5, 0.9, 1.1, 2, 10, 100])
        else:
            v = round(a[k]) if a[k] == a[k] and abs(a[k]) < 1e15 else a[k]
        if isint:
            if abs(v) > 1e9:
                continue
            v = int(v)
        else:
            v = float(v)
        a[k] = v
    for k in list(a):
        if isinstance(a[k], list) and rng.random() < 0.3 and pool:
            z = list(a[k])
            if z and isinstance(z[0], (int, float)):
                i = rng.randrange(len(z))
                z[i] = float(rng.choice(pool)) if rng.random() < 0.5 else z[rng.randrange(len(z))]
                a[k] = z
    return a


# ------------------------------------------------------------------ solver-directed search
def env_of(u, args):
    env = {}
    for k, v in args.items():
        if isinstance(v, list):
            env['N_' + k] = len(v) - 1
        else:
            env[k] = float(v) if not isinstance(v, bool) else v
    return env


def funs_of(u, args):
    B = FloatB()
    f = {}
    for nm, d in list(backend.DEFS.items()) + list(backend.RECURSIVE.items()):
        f[nm] = (lambda d: lambda *a: float(d(B, *[backend.Fl(x) if isinstance(x, float) else x for x in a])))(d)
    for k, v in args.items():
        if isinstance(v, list):
            f['arr_' + k] = (lambda z: lambda i: float(z[int(i)]))(v)
    return f


def residuals(lits, u, args):
    env, fs = env_of(u, args), funs_of(u, args)
    memo = {}
    bad = []
    for h in lits:
        try:
            if not t.evalf(h, env, fs, memo):
                bad.append(h)
        except (t.EvalError, ValueError, ZeroDivisionError, OverflowError, KeyError, IndexError, TypeError):
            bad.append(h)
    return bad


def scalar_vars(lit, args):
    return [v for v in t.free_vars(lit) if v in args and not isinstance(args[v], list)]


def repair(u, rng, args, lit, pool):
    """try to make a literal true by changing one variable"""
    vs = scalar_vars(lit, args)
    if not vs:
        return None
    a = dict(args)
    k = rng.choice(vs)
    isint = isinstance(a[k], int)
    neg = lit.op == 'not'
    core = lit.args[0] if neg else lit
    if core.op in ('le0', 'eq0'):
        s = prove.solve_linear(core.args[0])
        if s is not None and s[0].args[0] in args:
            k = s[0].args[0]
            try:
                v = t.evalf(s[1], env_of(u, args), funs_of(u, args), {})
                isint = isinstance(a[k], int)
                if core.op == 'le0' or neg:
                    v = v + rng.choice([0, 0, 1e-3, -1e-3, 1, -1]) * max(abs(v), 1) * rng.choice([1e-3, 0.05, 0.5])
                a[k] = int(round(v)) if isint else float(v)
                return a
            except Exception:
                pass
        if not isint:
            # bisection towards the boundary of the literal along k
            def val(x):
                b = dict(args)
                b[k] = x
                return t.evalf(core.args[0], env_of(u, b), funs_of(u, b), {})
            try:
                x0 = float(a[k])
                f0 = val(x0)
                for m in (1.5, 0.6, 4, 0.2, 30, 0.03, 1e3, 1e-3):
                    x1 = x0 * m if x0 else m
                    f1 = val(x1)
                    if (f1 <= 0) != (f0 <= 0):
                        lo, hi = x0, x1
                        for _ in range(60):
                            mid = 0.5 * (lo + hi)
                            if (val(mid) <= 0) == (f0 <= 0):
                                lo = mid
                            else:
                                hi = mid
                        a[k] = hi + (hi - x0) * rng.choice([1e-9, 0.01, 0.3])
                        return a
            except Exception:
                pass
    v = rng.choice(pool) if pool and rng.random() < 0.5 else a[k] * rng.choice([0.1, 0.5, 2, 10, -1])
    a[k] = int(v) if isint and abs(v) < 1e9 else (a[k] if isint else float(v))
    return a


def directed(u, w, rng, last, pending, rec, keys, seconds):
    t0 = time.time()
    pool = constants(rec['functions'] + rec['contracts'] or reached(u))
    rec['leafpoints'] = {}
    # 1. leaf-directed
    for nm in list(pending):
        if nm not in last:
            continue
        rs, hyps, g = last[nm]
        if rs.leaf is None:
            continue
        lits = list(rs.leaf[0])
        pts = 0
        starts = []
        for m in rs.models:
            base = u.sample(rng)
            for k, v in m.vals.items():
                if k in base and not isinstance(base[k], list):
                    try:
                        base[k] = int(v) if isinstance(base[k], int) else float(v)
                    except (OverflowError, ValueError, TypeError):
                        pass
            starts.append(base)
        tl = time.time() + seconds / 3.0 / max(1, len(pending))
        while time.time() < tl and pts < 40:
            a = starts.pop() if starts else u.sample(rng)
            for it in range(25):
                bad = residuals(lits, u, a)
                if not bad:
                    was = rec['agreed']
                    f = check(u, w, a, rec, keys)
                    pts += rec['agreed'] - was
                    if f:
                        f['from'] = 'solver case'
                        return f
                    a = u.sample(rng)
                    break
                b = repair(u, rng, a, rng.choice(bad), pool)
                if b is None:
                    b = u.sample(rng)
                if len(residuals(lits, u, b)) <= len(bad) or rng.random() < 0.15:
                    a = b
        rec['leafpoints'][nm] = pts
    # 2. mutated samples with the code's own constants
    tl = time.time() + (seconds if '*' in pending else seconds / 2.0)
    n = 0
    recent = []
    while time.time() < tl and n < 60000:
        n += 1
        if recent and rng.random() < 0.4:
            a = related(u, rng, recent)
        else:
            a = u.sample(rng)
            if rng.random() < 0.8:
                a = mutate(u, rng, a, pool)
        recent = [a] + recent[:2]
        f = check(u, w, a, rec, keys)
        if f:
            f['from'] = 'search'
            return f
    return None
