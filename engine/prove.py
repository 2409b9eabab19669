"""Discharging obligations  H |= G  with SMT back ends.

Tiers
  L1  every non-linear monomial and every function application is an uninterpreted function of its parts
      (EUF + linear real/integer arithmetic): decidable, so the answer is unsat (discharged) or sat.
  CS  the goal is rebuilt under a case split on the conditions of its ite / max nodes, which lets the canonical
      form of terms do the non-linear algebra; each case goes to L1.
  L2  true non-linear arithmetic plus instantiated axioms of exp, log, roots, sin, cos, complex sqrt (z3 nlsat,
      then cvc5).
"""
import time
from fractions import Fraction as F
import z3
from . import terms as t
from .terms import T

STATS = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'backend': {}, 'cvc5': 0}


def zc(c):
    return z3.RealVal('%d/%d' % (c.numerator, c.denominator))


class Tr:
    """translation of terms to z3"""

    def __init__(self, nonlinear=False, unfold=None):
        self.nl = nonlinear
        self.memo = {}
        self.side = []          # definitional side conditions (L2)
        self.funs = {}
        self.apps = []          # (name, arg terms, z3 expr)
        self.invs = {}
        self.sign = []
        self.signed = set()

    def num(self, p):
        r = self.memo.get(p.id)
        if r is not None:
            return r
        if t.is_bool(p):
            r = z3.If(self.b(p), z3.RealVal(1), z3.RealVal(0))
            self.memo[p.id] = r
            return r
        terms = []
        for m, c in p.args:
            if not m:
                terms.append(zc(c))
            else:
                x = self.mono(m)
                terms.append(x if c == 1 else zc(c) * x)
        if not terms:
            r = z3.RealVal(0)
        elif len(terms) == 1:
            r = terms[0]
        else:
            r = z3.Sum(terms)
        self.memo[p.id] = r
        return r

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        if not self.nl:
            parts = []
            for a, e in m:
                x = self.atom(a)
                if e != 1:
                    x = self.powf(a, e, x)
                parts.append(x)
            r = parts[0]
            for x in parts[1:]:
                r0 = r
                r = self.fun('mul', 2)(r0, x)
                k = (r0.get_id(), x.get_id())
                if k not in self.signed:
                    self.signed.add(k)
                    self.sign.append(z3.And(
                        z3.Implies(z3.And(r0 > 0, x > 0), r > 0), z3.Implies(z3.And(r0 < 0, x < 0), r > 0),
                        z3.Implies(z3.And(r0 > 0, x < 0), r < 0), z3.Implies(z3.And(r0 < 0, x > 0), r < 0),
                        z3.Implies(z3.Or(r0 == 0, x == 0), r == 0)))
            return r
        parts = []
        for a, e in m:
            if e > 0:
                x = self.atom(a)
                parts += [x] * e
            else:
                parts += [self.inv(a)] * (-e)
        r = parts[0]
        for x in parts[1:]:
            r = r * x
        return r

    def powf(self, a, e, x):
        r = self.fun('pow_%d' % e if e >= 0 else 'pow_m%d' % -e, 1)(x)
        k = (a.id, e)
        if k not in self.signed:
            self.signed.add(k)
            if e % 2 == 0:
                self.sign.append(z3.Implies(x != 0, r > 0))
                if e > 0:
                    self.sign.append(z3.Implies(x == 0, r == 0))
            else:
                self.sign.append(z3.And(z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0)))
        return r

    def inv(self, a):
        r = self.invs.get(a.id)
        if r is None:
            x = self.atom(a)
            r = z3.Real('inv!%d' % a.id)
            self.side.append(z3.Implies(x != 0, r * x == 1))
            self.side.append(z3.Implies(x > 0, r > 0))
            self.side.append(z3.Implies(x < 0, r < 0))
            self.invs[a.id] = r
        return r

    def fun(self, name, n):
        f = self.funs.get((name, n))
        if f is None:
            f = z3.Function(name, *([z3.RealSort()] * (n + 1)))
            self.funs[(name, n)] = f
        return f

    def atom(self, a):
        r = self.memo.get(a.id)
        if r is not None:
            return r
        op = a.op
        if op == 'var':
            if a.isint:
                r = z3.ToReal(z3.Int(a.args[0]))
            else:
                r = z3.Real(a.args[0])
        elif op == 'app':
            f = a.args[0]
            args = [self.num(x) for x in a.args[1:]]
            if f == 'floor':
                r = z3.ToReal(z3.ToInt(args[0]))
            elif f == 'round0':
                i = z3.Int('round!%d' % a.id)
                r = z3.ToReal(i)
                self.side.append(z3.And(r <= args[0] + zc(F(1, 2)), r >= args[0] - zc(F(1, 2))))
            elif a.isint:
                g = self.funs.get(('I' + f, len(args)))
                if g is None:
                    g = z3.Function(f, *([z3.RealSort()] * len(args) + [z3.IntSort()]))
                    self.funs[('I' + f, len(args))] = g
                r = z3.ToReal(g(*args)) if args else z3.ToReal(z3.Int('c!' + f))
            else:
                r = self.fun(f, len(args))(*args) if args else z3.Real('c!' + f)
            self.apps.append((f, a, args, r))
        elif op == 'ite':
            r = z3.If(self.b(a.args[0]), self.num(a.args[1]), self.num(a.args[2]))
        elif op == 'pos':
            x = self.num(a.args[0])
            r = z3.If(x > 0, x, z3.RealVal(0))
        elif op == 'paren':
            r = self.num(a.args[0])
        elif op in ('sum', 'lam'):
            r = z3.Real('%s!%d' % (op, a.id))
            self.apps.append((op, a, [], r))
        else:
            raise ValueError(op)
        self.memo[a.id] = r
        return r

    def b(self, x):
        r = self.memo.get(x.id)
        if r is not None:
            return r
        op = x.op
        if op == 'true':
            r = z3.BoolVal(True)
        elif op == 'false':
            r = z3.BoolVal(False)
        elif op in ('le0', 'eq0') and not self.nl and mass(x) > HEAVY:
            r = z3.Bool('heavy!%d' % x.id)      # a sound abstraction: any truth value
        elif op == 'le0':
            r = self.num(x.args[0]) <= 0
        elif op == 'eq0':
            r = self.num(x.args[0]) == 0
        elif op == 'not':
            r = z3.Not(self.b(x.args[0]))
        elif op == 'and':
            r = z3.And([self.b(y) for y in x.args])
        elif op == 'or':
            r = z3.Or([self.b(y) for y in x.args])
        elif op == 'bvar':
            r = z3.Bool(x.args[0])
        else:
            raise ValueError(op)
        self.memo[x.id] = r
        return r

    # sign facts usable in L1 (cheap, linear)
    def linear_facts(self):
        out = []
        for f, a, args, r in self.apps:
            if f == 'exp':
                out.append(r > 0)
                out.append(r >= 1 + args[0])
                out.append(z3.Implies(args[0] <= 0, r <= 1))
            elif f.startswith('root') and f[4:].isdigit():
                out.append(r >= 0)
                out.append(z3.Implies(args[0] > 0, r > 0))
                out.append(z3.Implies(args[0] == 0, r == 0))
            elif f == 'log':
                out.append(z3.Implies(args[0] > 0, r <= args[0] - 1))
                out.append(z3.Implies(args[0] >= 1, r >= 0))
                out.append(z3.Implies(z3.And(args[0] > 0, args[0] < 1), r < 0))
                out.append(z3.Implies(args[0] > 1, r > 0))
            elif f in ('sin', 'cos'):
                out.append(z3.And(r <= 1, r >= -1))
                if f == 'sin':
                    out.append(z3.Implies(z3.And(args[0] >= 0, args[0] <= zc(F(31415926, 10**7))), r >= 0))
                    out.append(z3.Implies(z3.And(args[0] > 0, args[0] <= zc(F(31415926, 10**7))), r > 0))
            elif f == 'csqrt_re':
                out.append(r >= 0)
                out.append(z3.Implies(args[0] > 0, r > 0))
            elif f == 'csqrt_im':
                out.append(z3.Implies(args[1] >= 0, r >= 0))
            c = enclosure(f, a)
            if c is not None:
                out.append(z3.And(r > z3.RealVal(str(c[0])), r < z3.RealVal(str(c[1]))))
        return out

    def nl_facts(self):
        out = self.linear_facts()
        by = {}
        for f, a, args, r in self.apps:
            by.setdefault(f, []).append((a, args, r))
        for f, lst in by.items():
            if f.startswith('root') and f[4:].isdigit():
                n = int(f[4:])
                for a, args, r in lst:
                    pw = r
                    for _ in range(n - 1):
                        pw = pw * r
                    out.append(z3.Implies(args[0] >= 0, pw == args[0]))
            if f == 'round0' and len(lst) <= 12:
                for x in lst:
                    for y in lst:
                        if x is not y:
                            out.append(z3.Implies(x[1][0] <= y[1][0], x[2] <= y[2]))
            if f in ('exp', 'log') and len(lst) <= 12:
                for i in range(len(lst)):
                    for j in range(i):
                        x, rx = lst[i][1][0], lst[i][2]
                        y, ry = lst[j][1][0], lst[j][2]
                        g = z3.BoolVal(True) if f == 'exp' else z3.And(x > 0, y > 0)
                        out.append(z3.Implies(g, z3.And(z3.Implies(x < y, rx < ry), z3.Implies(x > y, rx > ry),
                                                        z3.Implies(x == y, rx == ry))))
        sc = {}
        for f in ('sin', 'cos'):
            for a, args, r in by.get(f, []):
                sc.setdefault(a.args[1].id, {})[f] = r
        for k, d in sc.items():
            if len(d) == 2:
                out.append(d['sin'] * d['sin'] + d['cos'] * d['cos'] == 1)
        cs = {}
        for f in ('csqrt_re', 'csqrt_im'):
            for a, args, r in by.get(f, []):
                cs.setdefault((a.args[1].id, a.args[2].id), {})[f] = (r, args)
        for k, d in cs.items():
            if 'csqrt_re' in d and 'csqrt_im' in d:
                re, args = d['csqrt_re']
                im, _ = d['csqrt_im']
                out.append(re * re - im * im == args[0])
                out.append(2 * re * im == args[1])
        return out


def enclosure(f, a):
    """rational bounds of exp, log or a root of a constant (interval arithmetic)"""
    if len(a.args) != 2 or not (f in ('exp', 'log') or f.startswith('root') and f[4:].isdigit()):
        return None
    x = a.args[1]
    if not t.is_const(x):
        return None
    from fractions import Fraction
    from mpmath import iv
    x = Fraction(t.cval(x))
    if abs(x) > 10 ** 30 or f == 'exp' and abs(x) > 300 or f != 'exp' and x <= 0:
        return None
    v = iv.mpf(x.numerator) / iv.mpf(x.denominator)
    y = iv.exp(v) if f == 'exp' else iv.log(v) if f == 'log' else iv.exp(iv.log(v) / int(f[4:]))
    lo, hi = _frac(y.a), _frac(y.b)
    eps = max(abs(lo), abs(hi)) / 10 ** 12
    return lo - eps, hi + eps


def _frac(m):
    from fractions import Fraction
    sign, man, exp, _ = m._mpi_[0] if hasattr(m, '_mpi_') else m._mpf_
    v = Fraction(int(man)) * (Fraction(2) ** int(exp))
    return -v if sign else v


def _solve(assertions, timeout_ms, tactic=None):
    t0 = time.time()
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout_ms))
    for a in assertions:
        s.add(a)
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    STATS[str(r)] += 1
    return str(r), (s.model() if r == z3.sat else None), s


def check_L1(hyps, neg_goal, timeout_ms=10000):
    """is  hyps and neg_goal  satisfiable in the linear abstraction"""
    tr = Tr()
    fs = [tr.b(h) for h in hyps]
    if neg_goal is not None:
        fs.append(tr.b(neg_goal))
    fs += tr.side + tr.linear_facts()
    if len(tr.sign) <= 400:
        fs += tr.sign
    r, m, s = _solve(fs, timeout_ms)
    return r, (Model(m, tr) if m is not None else None)


def check_L2(hyps, neg_goal, timeout_ms=20000, use_cvc5=True):
    tr = Tr(nonlinear=True)
    fs = [tr.b(h) for h in hyps]
    if neg_goal is not None:
        fs.append(tr.b(neg_goal))
    facts = tr.nl_facts()
    fs += tr.side + facts
    r, m, s = _solve(fs, timeout_ms)
    if r == 'unknown' and use_cvc5:
        try:
            r2 = _cvc5(s.to_smt2(), timeout_ms)
            if r2 == 'unsat':
                return 'unsat', None
        except Exception:
            pass
    return r, (Model(m, tr) if m is not None else None)


def _cvc5(smt2, timeout_ms):
    import subprocess
    t0 = time.time()
    STATS['cvc5'] += 1
    p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout_ms), '--nl-ext-tplanes'],
                       input=smt2 if 'set-logic' in smt2 else '(set-logic ALL)\n' + smt2,
                       capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
    STATS['time'] += time.time() - t0
    out = p.stdout.strip().splitlines()
    return out[0].strip() if out else 'unknown'


class Model:
    def __init__(self, m, tr):
        self.vals = {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                try:
                    if z3.is_int_value(v):
                        self.vals[d.name()] = v.as_long()
                    elif z3.is_rational_value(v):
                        self.vals[d.name()] = F(v.numerator_as_long(), v.denominator_as_long())
                    elif z3.is_algebraic_value(v):
                        self.vals[d.name()] = F(v.approx(20).numerator_as_long(), v.approx(20).denominator_as_long())
                    elif z3.is_true(v):
                        self.vals[d.name()] = True
                    elif z3.is_false(v):
                        self.vals[d.name()] = False
                except Exception:
                    pass

    def floats(self):
        return {k: (float(v) if isinstance(v, F) else v) for k, v in self.vals.items()}


# ------------------------------------------------------------------ fast entailment used by the executor
_ent_cache = {}


def entails(hyps, goal, timeout_ms=2000):
    if goal is t.TRUE:
        return True
    if any(h is t.FALSE for h in hyps):
        return True
    key = (tuple(h.id for h in hyps), goal.id)
    r = _ent_cache.get(key)
    if r is None:
        if any(h is goal for h in hyps):
            r = True
        else:
            r = check_L1(hyps, t.not_(goal), timeout_ms)[0] == 'unsat'
        _ent_cache[key] = r
    return r


# ------------------------------------------------------------------ case splitting
class Result:
    def __init__(self, status, tier='', models=(), leaf=None, cases=0):
        self.status = status      # 'proved' | 'sat' | 'unknown'
        self.tier = tier
        self.models = list(models)
        self.leaf = leaf          # (hyps, goal) of the undischarged case
        self.cases = cases

    def __repr__(self):
        return '<%s %s cases=%d>' % (self.status, self.tier, self.cases)


def pos_cond(a):
    """condition under which max(0,p) is 0"""
    return t.le0(a.args[0])


def split_conditions(goal):
    """conditions controlling ite/pos nodes in the goal, innermost first (fewest nested conditions)"""
    out = {}
    for a in t.atoms(goal):
        if a.op == 'ite':
            for c in bool_atoms(a.args[0]):
                out[c] = out.get(c, 0) + 1
        elif a.op == 'pos':
            c = pos_cond(a)
            for c in bool_atoms(c):
                out[c] = out.get(c, 0) + 1
    # conditions on a bound index hold for some indices and not for others: never split on them
    out = {c: k for c, k in out.items() if not t.free_bound(c)}
    def weight(c):
        nest = sum(1 for a in t.atoms(c) if a.op in ('ite', 'pos'))
        return (nest, -out[c], c.id)
    return sorted(out, key=weight)


def bool_atoms(c):
    out = []
    stack = [c]
    seen = set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('and', 'or', 'not'):
            stack.extend(x.args)
        elif x.op in ('le0', 'eq0', 'bvar'):
            out.append(x)
    return out


def assume_cond(term, c, val):
    """rebuild term under boolean atom c == val (also resolving max(0,.) nodes and solved equalities)"""
    v = t.boolc(val)
    mp = {c: v}
    memo = {c.id: v}
    extra = {}
    if c.op == 'le0':
        memo[t.not_atom(c).id] = t.not_(v)
        p = c.args[0]

        def f(a):
            if a.op == 'pos':
                k = t._ratio(a.args[0], p)
                if k is not None:
                    # p<=0 known val; pos arg = k*p
                    if val:
                        return t.ZERO if k > 0 else t.rebuild(a.args[0], f, memo)
                    return t.rebuild(a.args[0], f, memo) if k > 0 else t.ZERO
                b = t.le0(a.args[0])
                if b is c or b is t.not_(c):
                    return t.ZERO if (b is c) == val else t.rebuild(a.args[0], f, memo)
            return None
        return t.rebuild(term, f, memo)
    if c.op == 'eq0' and val:
        s = solve_linear(c.args[0])
        if s is not None:
            a, rhs = s
            memo2 = {c.id: v}
            return t.rebuild(term, lambda x: rhs if x is a else None, memo2)
    return t.rebuild(term, lambda a: None, memo)


def solve_linear(p):
    """p = 0 with p = c*var + rest, var not in rest -> (var atom, value)"""
    for m, c in p.args:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var':
            a = m[0][0]
            rest = t.sub(p, t.scale(t.from_atom(a), c))
            if not any(t.depends(x, a) for mm, cc in rest.args for x, e in mm):
                r = t.scale(rest, -1 / c)
                if a.isint and not r.isint:
                    continue
                return a, r
    return None


def prove(hyps, goal, max_cases=4000, l2=True, l2_timeout=8000, deadline=None, unfold=None):
    """decide hyps |= goal"""
    hyps = [h for h in hyps if h is not t.TRUE]
    if goal is t.TRUE:
        # trivially true after canonicalisation; still goes to the solver for the record
        r, _ = check_L1([], t.FALSE)
        return Result('proved', 'canonical', cases=1)
    if mass(goal) <= HEAVY:
        r, m = check_L1(hyps, t.not_(goal), 5000)
        if r == 'unsat':
            return Result('proved', 'L1', cases=1)
    ctr = [0]
    worst = {'res': None}
    out = _split(hyps, goal, ctr, max_cases, l2, l2_timeout, deadline, 0)
    if out is None:
        return Result('proved', 'case-split', cases=ctr[0])
    out.cases = ctr[0]
    return out


HEAVY = 700
_mass = {}


def mass(x):
    """number of monomials in the term, shared sub-terms counted once"""
    r = _mass.get(x.id)
    if r is None:
        r = sum(len(a.args) for a in t.nodes(x) if a.op == 'poly')
        _mass[x.id] = r
    return r


def subst_all(hyps, goal, c, val):
    ng = assume_cond(goal, c, val)
    lit = c if val else t.not_(c)
    nh = []
    for h in hyps:
        if c.op == 'eq0' and val:
            x = assume_cond(h, c, val)
        else:
            x = h
        if x is not t.TRUE:
            nh.append(x)
    nh.append(lit)
    return nh, ng


def squeezed(hyps):
    """p <= 0 and -p <= 0 among the hypotheses, solvable for a variable: the equation p = 0"""
    le = [h for h in hyps if h.op == 'le0']
    have = {h.id for h in hyps}
    for i, a in enumerate(le):
        for b in le[i + 1:]:
            if len(a.args[0].args) == len(b.args[0].args):
                k = t._ratio(a.args[0], b.args[0])
                if k is not None and k < 0:
                    e = t.eq(a.args[0], t.ZERO)
                    if e.op == 'eq0' and e.id not in have and solve_linear(e.args[0]) is not None:
                        return e
    return None


def _split(hyps, goal, ctr, max_cases, l2, l2_timeout, deadline, depth):
    if goal is t.TRUE:
        ctr[0] += 1
        return None
    if ctr[0] > max_cases or (deadline and time.time() > deadline):
        return Result('unknown', 'case limit', leaf=(hyps, goal))
    conds = split_conditions(goal)
    if not conds and goal.op in ('and', 'or'):
        pass
    if not conds:
        ctr[0] += 1
        from .ratprove import rat_goal
        heavy = mass(goal) > HEAVY
        if heavy and rat_goal(goal):
            STATS['rational'] = STATS.get('rational', 0) + 1
            return None
        r, m = check_L1(hyps, t.not_(goal), 5000)
        if r == 'unsat':
            return None
        models = [m] if m is not None else []
        if not heavy and rat_goal(goal):
            STATS['rational'] = STATS.get('rational', 0) + 1
            return None
        e = squeezed(hyps)
        if e is not None and depth < 200:
            nh, ng = subst_all(hyps, goal, e, True)
            if ng is not goal:
                return _split(nh, ng, ctr, max_cases, l2, l2_timeout, deadline, depth + 1)
        if l2:
            r2, m2 = check_L2(hyps, t.not_(goal), l2_timeout)
            if r2 == 'unsat':
                return None
            if m2 is not None:
                models.insert(0, m2)
            if r2 == 'unknown':
                return Result('unknown' if r == 'unknown' else 'sat', 'L2 unknown', models, (hyps, goal))
        return Result('sat' if r == 'sat' else r, 'leaf', models, (hyps, goal))
    # conditions already decided on this path
    yes, no = {x.id for x in hyps}, {t.not_(x).id for x in hyps}
    fresh = []
    for x in conds:
        if x.id in yes or x.id in no:
            ng = assume_cond(goal, x, x.id in yes)
            if ng is not goal and depth < 200:
                return _split(hyps, ng, ctr, max_cases, l2, l2_timeout, deadline, depth + 1)
        else:
            fresh.append(x)
    if not fresh and depth > 60:
        return Result('unknown', 'case limit', leaf=(hyps, goal))
    c = (fresh or conds)[0]
    for val in (True, False):
        lit = c if val else t.not_(c)
        if entails_false(hyps + [lit]):
            continue
        nh, ng = subst_all(hyps, goal, c, val)
        if ng is t.TRUE:
            ctr[0] += 1
            continue
        if (ctr[0] % 8 == 0 or depth < 6) and mass(ng) <= HEAVY:
            r, m = check_L1(nh, t.not_(ng), 3000)
            if r == 'unsat':
                ctr[0] += 1
                continue
        res = _split(nh, ng, ctr, max_cases, l2, l2_timeout, deadline, depth + 1)
        if res is not None:
            return res
    return None


def entails_false(hyps):
    for h in hyps:
        if h is t.FALSE:
            return True
    return check_L1(hyps, None, 3000)[0] == 'unsat'
