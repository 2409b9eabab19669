"""Loops with a symbolic trip count.

A ghost counter K is introduced; the cells the body changes are found by havoc to a fixpoint; each cell is then given
a closed form over K that is inductive by construction (induction variables, sums, pure functions of K, running
maxima of monotone sequences, element-wise list updates, appended lists) or an invariant supplied by the contract
(`loop_specs`), whose initialisation and preservation are discharged by the solver.  The body is then executed once
more at an arbitrary iteration with the closed forms in place, to collect its obligations.
"""
import ast
from . import terms as t
from .terms import T
from . import prove
from .pysym import Unsupported, Unmergeable, Ref, DictObj, ListObj, Tail, Maybe, Cx, Opaque, FROZEN, subst_val


class Cand:
    """a spec sequence: value at k, value at k+1 in terms of values at k, and facts known at k"""

    def __init__(self, name, at, init, nxt, facts=None, flag=False):
        self.name, self.at, self.init, self.nxt, self.facts, self.flag = name, at, init, nxt, facts, flag


def get_cell(st, key):
    if key[0] == 'f':
        return st.frames[-1].get(key[1])
    if key[0] == 'd':
        return st.heap[key[1]].items.get(key[2])
    if key[0] == 'i':
        return st.heap[key[1]].items[key[2]]
    if key[0] == 't':
        return st.heap[key[1]].tail
    raise KeyError(key)


def set_cell(st, key, v):
    if key[0] == 'f':
        st.frames[-1][key[1]] = v
        return
    o = st.heap[key[1]].copy()
    st.heap[key[1]] = o
    if key[0] == 'd':
        o.items[key[2]] = v
    elif key[0] == 'i':
        o.items[key[2]] = v
    else:
        o.tail = v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Cx) and isinstance(b, Cx):
        return a.re is b.re and a.im is b.im
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return False


def diff(pre, post):
    out = []
    fa, fb = pre.frames[-1], post.frames[-1]
    for k in list(fa) + [x for x in fb if x not in fa]:
        if not same(fa.get(k), fb.get(k)):
            out.append(('f', k))
    for f, g in zip(pre.frames[:-1], post.frames[:-1]):
        for k in g:
            if not same(f.get(k), g.get(k)):
                raise Unsupported('outer frame changed in loop')
    for i, o in pre.heap.items():
        p = post.heap.get(i)
        if p is o or o is None:
            continue
        if isinstance(o, DictObj):
            for k in list(o.items) + [x for x in p.items if x not in o.items]:
                if not same(o.items.get(k), p.items.get(k)):
                    out.append(('d', i, k))
        else:
            for j in range(min(len(o.items), len(p.items))):
                if not same(o.items[j], p.items[j]):
                    out.append(('i', i, j))
            if len(o.items) != len(p.items) or o.tail is not p.tail:
                out.append(('t', i))
    return out


class Shape:
    """an object created in every iteration"""
    def __init__(self, what, data, kind='list'):
        self.what, self.data, self.kind = what, data, kind


class Loop:
    def __init__(self, ex, st, node):
        self.ex, self.st, self.node = ex, st, node
        self.K = ex.fresh('K', True)
        self.Ka = t.atom_of(self.K)
        self.M = {}            # scalar cell -> symbol
        self.tails = {}        # list id -> (mode, initial ListObj, havoc function name)
        self.dead = set()      # rebound object variables
        self.closed = {}       # induction variables closed before the body is read again

    def start(self, extra):
        s = self.st.fork()
        for c in extra:
            s.assume(c)
        for key, sym in self.M.items():
            set_cell(s, key, self.closed.get(key, sym))
        for rid, (mode, ob, hv) in self.tails.items():
            o = ob.copy()
            if mode == 'append':
                if ob.tail is None:
                    o.tail = Tail(self.K, lambda j, hv=hv: t.app(hv, j))
                else:
                    old = ob.tail
                    o.tail = Tail(t.add(old.n, self.K), lambda j, hv=hv: t.app(hv, j))
            else:
                o.tail = Tail(ob.tail.n, lambda j, hv=hv: t.app(hv, j))
            s.heap[rid] = o
        for k in self.dead:
            s.frames[-1].pop(k[1], None)
        return s

    def havoc(self, key, v, isint=True):
        ex = self.ex
        if isinstance(v, bool):
            v = t.boolc(v)
        if isinstance(v, T):
            if t.is_bool(v):
                ex.fresh_n += 1
                return t.bvar('h!%d' % ex.fresh_n)
            return ex.fresh('h', v.isint and isint)
        return None

    def fixpoint(self, extra, runner):
        ex, st = self.ex, self.st
        for _ in range(30):
            s = self.start(extra)
            pre = s.fork()
            out = runner(s)
            again = False
            for key in diff(pre, out):
                if key in self.M:
                    nv = get_cell(out, key)
                    sym = self.M[key]
                    if isinstance(nv, Maybe) or not isinstance(nv, T):
                        raise Unsupported('loop cell of changing kind', self.node)
                    if t.is_bool(sym) != t.is_bool(nv):
                        # a 0/1 flag that becomes a truth value (or back): treat as a number
                        if t.is_bool(sym):
                            self.M[key] = ex.fresh('h', True)
                            again = True
                        continue
                    if not t.is_bool(sym) and sym.isint and not nv.isint:
                        self.M[key] = ex.fresh('h', False)
                        again = True
                    continue
                if key[0] == 't':
                    rid = key[1]
                    o, p = pre.heap[rid], out.heap[rid]
                    if rid in self.tails:
                        continue
                    if o.tail is None and p.tail is None and len(p.items) == len(o.items) + 1:
                        mode = 'append'
                    elif p.tail is not None and p.tail.upd is not None and p.tail.upd[2] is o.tail:
                        mode = 'append' if p.tail.upd[0] == 'append' else 'update'
                    else:
                        raise Unsupported('list change in loop', self.node)
                    ex.fresh_n += 1
                    self.tails[rid] = (mode, st.heap[rid], 'hv!%d' % ex.fresh_n)
                    again = True
                    continue
                v0 = get_cell(st, key)
                if v0 is None and key[0] == 'f' and key[1] not in st.frames[-1]:
                    continue            # first bound in the body
                if v0 is None and key[0] == 'd' and key[2] not in st.heap[key[1]].items:
                    continue
                if key in self.dead:
                    continue
                if isinstance(v0, Maybe) or not isinstance(v0, (T, bool)):
                    if key[0] == 'f':
                        self.dead.add(key)
                        again = True
                        continue
                    raise Unsupported('loop cell %s is not a number' % (key,), self.node)
                self.M[key] = self.havoc(key, v0)
                again = True
            if not again:
                return pre, out
        raise Unsupported('loop analysis does not stabilise', self.node)

    def preclose(self, extra, runner, pre, out):
        """close plain induction variables, then read the body once more with them in place"""
        hav = [x if t.is_bool(x) else t.atom_of(x) for x in self.M.values()]
        found = {}
        for key, sym in self.M.items():
            v0, v1 = get_cell(self.st, key), get_cell(out, key)
            if not isinstance(v0, T) or not isinstance(v1, T) or t.is_bool(sym) or t.is_bool(v0) or t.is_bool(v1):
                continue
            d = t.sub(v1, sym)
            if any(t.depends(d, h) for h in hav) or t.depends(d, self.Ka):
                continue
            if any(a.op == 'app' and a.args[0].startswith('hv!') for a in t.atoms(d)):
                continue
            found[key] = (t.add(v0, t.mul(self.K, d)), d)
        if not found:
            return pre, out
        self.closed = {k: c for k, (c, d) in found.items()}
        pre2, out2 = self.fixpoint(extra, runner)
        for k, (c, d) in found.items():
            if t.sub(get_cell(out2, k), c) is not d:
                self.closed = {}
                return self.fixpoint(extra, runner)
        return pre2, out2

    # -------------------------------------------------------------- solving
    def solve(self, pre, out, hyps, specs=True):
        ex, K, Ka = self.ex, self.K, self.Ka
        self.hyps = hyps
        init, nxt, syms = {}, {}, {}
        for key, sym in self.M.items():
            v0 = get_cell(self.st, key)
            v1 = get_cell(out, key)
            v0 = t.boolc(v0) if isinstance(v0, bool) else v0
            if not isinstance(v1, T):
                raise Unsupported('loop cell', self.node)
            if t.is_bool(sym):
                if not (t.is_bool(v0) and t.is_bool(v1)):
                    raise Unsupported('loop cell', self.node)
            else:
                v0, v1 = t.num(v0), t.num(v1)
            init[key], nxt[key], syms[key] = v0, v1, sym
        self.init, self.syms = init, syms
        unsolved = {k: v for k, v in nxt.items() if k not in self.closed}
        sol = {}                # symbol atom -> closed term in K (may mention unsolved symbols: paired cells)
        self.fin = {}           # key -> function N -> final value, when not just closed[K:=N]
        self.posmap = []       # (solutions known when the max node was found, node, replacement)

        def atom(key):
            s = syms[key]
            return s if t.is_bool(s) else t.atom_of(s)

        for k, c in self.closed.items():
            sol[atom(k)] = c

        def sub(x):
            for snap, P, rep in self.posmap:
                x = fix(x, snap)
                x = t.subst(x, {P: rep})
            return fix(x, sol)

        def fix(x, m):
            for _ in range(6):
                y = t.subst(x, m)
                if y is x:
                    break
                x = y
            return x

        def unsolved_in(x):
            us = [k for k in unsolved if t.depends(x, atom(k))]
            return us
        guard = 0
        while unsolved and guard < 50:
            guard += 1
            progress = False
            for key in list(unsolved):
                nx = sub(unsolved[key])
                if not t.is_bool(syms[key]):
                    d = t.sub(nx, sub(syms[key]))
                    if not unsolved_in(d):
                        if not t.depends(d, Ka):
                            sol[atom(key)] = t.add(init[key], t.mul(K, d))
                        else:
                            sol[atom(key)] = t.add(init[key], t.sumk(lambda j: t.subst(d, {Ka: j}), K))
                        del unsolved[key]
                        progress = True
                        continue
                if not unsolved_in(nx):
                    prev = t.subst(nx, {Ka: t.sub(K, t.ONE)})
                    if t.subst(nx, {Ka: t.const(-1)}) is init[key]:
                        sol[atom(key)] = prev
                    else:
                        sol[atom(key)] = t.ite(t.eq(K, t.ZERO), init[key], prev)
                    del unsolved[key]
                    progress = True
            if progress:
                continue
            if self.pair(unsolved, sol, sub, unsolved_in, atom):
                continue
            if self.running(unsolved, sol, sub, unsolved_in, atom):
                continue
            if specs and self.houdini(unsolved, sol, sub, atom):
                continue
            raise Unsupported('no closed form for loop cell %s' % ', '.join(str(k[-1]) for k in unsolved), self.node)
        self.sol, self.sub = sol, sub
        return sol

    def pair(self, unsolved, sol, sub, unsolved_in, atom):
        keys = [k for k in unsolved if not t.is_bool(self.syms[k])]
        for i, a in enumerate(keys):
            for b in keys[:i]:
                for sg in (1, -1):
                    d = t.add(sub(unsolved[a]), t.scale(sub(unsolved[b]), t.F(sg)))
                    s = t.add(self.syms[a], t.scale(self.syms[b], t.F(sg)))
                    d = t.sub(d, s)
                    if unsolved_in(d):
                        continue
                    i0 = t.add(self.init[a], t.scale(self.init[b], t.F(sg)))
                    if not t.depends(d, self.Ka):
                        cl = t.add(i0, t.mul(self.K, d))
                    else:
                        cl = t.add(i0, t.sumk(lambda j: t.subst(d, {self.Ka: j}), self.K))
                    # eliminate the non-integer one
                    x, y = (a, b) if not self.syms[a].isint else (b, a)
                    # a + sg*b = cl   =>  x in terms of y
                    if x is a:
                        sol[atom(a)] = t.sub(cl, t.scale(self.syms[b], t.F(sg)))
                    else:
                        sol[atom(b)] = t.scale(t.sub(cl, self.syms[a]), t.F(sg))
                    del unsolved[x]
                    return True
        return False

    def running(self, unsolved, sol, sub, unsolved_in, atom):
        for key in list(unsolved):
            x = self.syms[key]
            if t.is_bool(x):
                continue
            nx = sub(unsolved[key])
            for P in t.atoms(nx):
                if P.op != 'pos':
                    continue
                p = P.args[0]
                for g in (t.add(x, p), t.sub(x, p)):
                    if unsolved_in(g):
                        continue
                    for op, lo in ((t.maxv, True), (t.minv, False)):
                        if op(x, g) is not nx:
                            continue
                        if not self.monotone(g, 1 if lo else -1):
                            continue
                        NX = op(self.init[key], g)
                        prev = t.subst(NX, {self.Ka: t.sub(self.K, t.ONE)})
                        # the new value is max(init, g(K)): eliminate the max node through it
                        rest = t.sub(nx, t.from_atom(P))
                        if t.depends(rest, P):
                            rest = t.add(nx, t.from_atom(P))
                            if t.depends(rest, P):
                                continue
                            self.posmap.append((dict(sol), P, t.sub(rest, NX)))
                        else:
                            self.posmap.append((dict(sol), P, t.sub(NX, rest)))
                        sol[atom(key)] = t.ite(t.eq(self.K, t.ZERO), self.init[key], prev)
                        del unsolved[key]
                        return True
        return False

    def monotone(self, g, sign):
        """g never decreases (sign 1) / increases (sign -1) with the iteration number"""
        g1 = t.subst(g, {self.Ka: t.add(self.K, t.ONE)})
        if prove.entails(self.hyps, t.le(g, g1) if sign > 0 else t.le(g1, g), 4000):
            return True
        rest = {}
        for m, c in g.args:
            if len(m) == 1 and m[0][1] == 1 and t.depends(m[0][0], self.Ka):
                a = m[0][0]
                if a.op == 'pos' or (a.op == 'app' and a.args[0] == 'floor'):
                    arg = a.args[0] if a.op == 'pos' else a.args[1]
                    if not self.monotone(arg, sign if c > 0 else -sign):
                        return False
                    continue
            rest[m] = c
        r = t._poly(rest)
        d = t.sub(t.subst(r, {self.Ka: t.add(self.K, t.ONE)}), r)
        if sign < 0:
            d = t.neg(d)
        return prove.prove(self.hyps, t.le(t.ZERO, d), max_cases=40, l2_timeout=8000).status == 'proved'

    def houdini(self, unsolved, sol, sub, atom):
        ex, K = self.ex, self.K
        cands = []
        for prov in ex.loop_specs:
            cands += prov(ex, self)
        if not cands:
            return False
        flags = [c for c in cands if c.flag]
        facts = []
        for c in cands:
            if c.facts:
                facts += c.facts(K)
        options = {}
        live = [k for k in unsolved if any(t.depends(sub(v), atom(k)) for v in unsolved.values())]
        if not live:
            return False
        for key in live:
            opts = []
            nx = unsolved[key]
            if t.is_bool(self.syms[key]):
                for c in flags:
                    for pos in (True, False):
                        def at(k, c=c, pos=pos):
                            b = t.eq(c.at(k), t.ONE)
                            return b if pos else t.not_(b)
                        ini = t.eq(c.init, t.ONE)
                        nb = t.eq(c.nxt(K), t.ONE)
                        if not pos:
                            ini, nb = t.not_(ini), t.not_(nb)
                        opts.append((c.name, at, ini, nb))
            else:
                for c in cands:
                    if not c.flag:
                        opts.append((c.name, c.at, c.init, c.nxt(K)))
                consts = set()
                for a in t.atoms(nx):
                    if a.op == 'ite':
                        for l in (a.args[1], a.args[2]):
                            if t.is_const(l):
                                consts.add(l)
                for p in (nx,):
                    pass
                if t.is_const(self.init[key]):
                    for c in flags:
                        for c1 in consts:
                            i0 = self.init[key]
                            w = t.sub(c1, i0)
                            opts.append((c.name + '-flag', lambda k, c=c, i0=i0, w=w: t.add(i0, t.mul(w, c.at(k))),
                                         t.add(i0, t.mul(w, c.init)), t.add(i0, t.mul(w, c.nxt(K)))))
            good = []
            for o in opts:
                e = t.iff(self.init[key], o[2]) if t.is_bool(self.syms[key]) else t.eq(self.init[key], o[2])
                if e is t.TRUE or prove.prove(ex.all_hyps(self.st), e, max_cases=40, l2_timeout=3000).status == 'proved':
                    good.append(o)
            options[key] = good
            if not good:
                return False
        # choose an assignment: try combinations, most specific first
        import itertools
        keys = live
        for combo in itertools.islice(itertools.product(*[options[k] for k in keys]), 64):
            mp = {atom(k): o[1](K) for k, o in zip(keys, combo)}
            ok = True
            for k, o in zip(keys, combo):
                nx = t.subst(sub(unsolved[k]), mp)
                for _ in range(3):
                    nx = t.subst(nx, sol)
                goal = t.iff(nx, o[3]) if t.is_bool(self.syms[k]) else t.eq(nx, o[3])
                if goal is not t.TRUE and prove.prove(self.hyps + facts, goal, max_cases=200, l2_timeout=8000).status != 'proved':
                    ok = False
                    break
            if ok:
                for k, o in zip(keys, combo):
                    sol[atom(k)] = o[1](K)
                    ex.loops.append('invariant %s = %s (initialisation and preservation discharged)' % (k[-1], o[0]))
                    del unsolved[k]
                self.extra_facts = facts
                return True
        return False

    extra_facts = ()

    # -------------------------------------------------------------- final state
    def simplify(self, x, hyps):
        if not isinstance(x, T):
            return x
        for _ in range(40):
            changed = False
            for a in t.atoms(x):
                if a.op != 'ite':
                    continue
                c = a.args[0]
                if t.free_bound(c):
                    continue
                for val in (True, False):
                    if prove.entails(hyps, c if val else t.not_(c), 2000):
                        r = a.args[1] if val else a.args[2]
                        x = t.subst(x, {a: r})
                        changed = True
                        break
                if changed:
                    break
            if not changed:
                break
        return x

    def finish(self, pre, out, N, target=None):
        """write the final values into self.st"""
        ex, st, K, Ka = self.ex, self.st, self.K, self.Ka
        base = ex.all_hyps(st)
        gen = base + [t.le(t.ZERO, K), t.lt(K, N)]
        vals = {}
        for key, sym in self.M.items():
            cl = self.sub(sym)
            cl = t.subst(cl, {Ka: N})
            vals[key] = self.simplify(cl, base)
        lists = {}
        for rid, (mode, ob, hv) in self.tails.items():
            p = out.heap[rid]
            upd = p.tail.upd if p.tail is not None else None
            if mode == 'append':
                if upd is None or upd[0] != 'append':
                    raise Unsupported('list change in loop', self.node)
                v = self.element(pre, out, upd[1], gen)
                fn = (lambda j, v=v: self.instance(v, j))
                if ob.tail is not None and not isinstance(v, T):
                    raise Unsupported('objects appended after a list of symbolic length', self.node)
                if ob.tail is None:
                    tail = Tail(N, fn)
                else:
                    o = ob.tail
                    tail = Tail(t.add(o.n, N), lambda j, o=o, fn=fn: t.ite(t.lt(j, o.n), o.fn(j), fn(t.sub(j, o.n))))
            else:
                if upd is None or upd[0] == 'append':
                    raise Unsupported('list change in loop', self.node)
                idx, v, old = upd
                idx, v = self.val(idx), self.val(v)
                c = t.sub(idx, K)
                if t.depends(c, Ka) or not isinstance(v, T):
                    raise Unsupported('list update index', self.node)
                o = ob.tail

                def rep(a, idx=idx, hv=hv, o=o):
                    if a.op == 'app' and a.args[0] == hv and a.args[1] is idx:
                        return t.num(o.fn(idx))
                    return None
                v = t.rebuild(v, rep, {})
                if any(a.op == 'app' and a.args[0].startswith('hv!') for a in t.atoms(v)):
                    raise Unsupported('update depends on other updated elements', self.node)
                v = self.simplify(v, gen)
                if c is t.ZERO and (N is o.n or prove.entails(base, t.eq(N, o.n))):
                    tail = Tail(o.n, lambda i, v=v: t.subst(v, {Ka: i}))
                else:
                    tail = Tail(o.n, lambda i, v=v, c=c, o=o: t.ite(t.and_(t.le(c, i), t.lt(i, t.add(c, N))),
                                                                 t.subst(v, {Ka: t.sub(i, c)}), t.num(o.fn(i))))
            lists[rid] = tail
        temps = {}
        cond = t.lt(t.ZERO, N)
        if cond is not t.TRUE and prove.entails(base, cond):
            cond = t.TRUE
        for k, v in out.frames[-1].items():
            if k not in st.frames[-1]:
                if isinstance(v, Maybe):
                    continue
                try:
                    w = self.val(v)
                    w = subst_val(w, {Ka: t.sub(N, t.ONE)})
                except Unsupported:
                    continue
                if any(x.op == 'app' and x.args[0].startswith('hv!') for y in _terms(w) for x in t.atoms(y)):
                    continue
                temps[k] = w if cond is t.TRUE else Maybe(w, cond)
        for rid in list(out.heap):
            o = pre.heap.get(rid)
            if isinstance(o, DictObj):
                for k in out.heap[rid].items:
                    if k not in o.items:
                        v = out.heap[rid].items[k]
                        if isinstance(v, Maybe):
                            raise Unsupported('conditional key in loop', self.node)
                        w = subst_val(self.val(v), {Ka: t.sub(N, t.ONE)})
                        vals[('d', rid, k)] = w if cond is t.TRUE else Maybe(w, cond)
        for key, v in vals.items():
            set_cell(st, key, v)
        for rid, tail in lists.items():
            set_cell(st, ('t', rid), tail)
        for k in self.dead:
            st.frames[-1].pop(k[1], None)
        for k, v in temps.items():
            st.frames[-1][k] = v
        return st

    def element(self, pre, out, v, gen):
        """the value appended in iteration K, with the loop's cells closed; objects as ('dict' | 'list', contents)"""
        if isinstance(v, Ref):
            if v.id in pre.heap:
                raise Unsupported('an object from outside the loop is appended', self.node)
            o = out.heap[v.id]
            if isinstance(o, DictObj):
                return Shape('dict', {k: self.element(pre, out, x, gen) for k, x in o.items.items()})
            if not isinstance(o, ListObj) or o.tail is not None:
                raise Unsupported('list of symbolic length appended', self.node)
            return Shape('list', [self.element(pre, out, x, gen) for x in o.items], o.kind)
        if isinstance(v, tuple):
            return tuple(self.element(pre, out, x, gen) for x in v)
        if isinstance(v, Maybe):
            raise Unsupported('element kind', self.node)
        v = self.val(v)
        if isinstance(v, T):
            v = self.simplify(v, gen)
        if any(a.op == 'app' and a.args[0].startswith('hv!') for y in _terms(v) for a in t.atoms(y)):
            raise Unsupported('element depends on the list being built', self.node)
        return v

    def instance(self, v, j):
        if isinstance(v, Shape):
            f = lambda x: self.instance(x, j)
            r = DictObj({k: f(x) for k, x in v.data.items()}) if v.what == 'dict' else ListObj([f(x) for x in v.data], None, v.kind)
            r.frozen = True
            self.ex.nid += 1
            FROZEN[self.ex.nid] = r
            return Ref(self.ex.nid)
        if isinstance(v, tuple):
            return tuple(self.instance(x, j) for x in v)
        return subst_val(v, {self.Ka: j})

    def val(self, v):
        if isinstance(v, Opaque) and v.data is not None:
            return Opaque(v.what, self.val(v.data))
        if isinstance(v, T):
            return self.sub(v)
        if isinstance(v, Cx):
            return Cx(self.sub(v.re), self.sub(v.im))
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, (str, Opaque)) or v is None:
            return v
        raise Unsupported('object in loop')

    def record_body(self, extra, runner, N):
        """obligations of the body at an arbitrary iteration"""
        ex = self.ex
        s = self.start(extra)
        for key, sym in self.M.items():
            set_cell(s, key, self.sub(sym))
        for f in self.extra_facts:
            s.assume(f)
        mark = len(ex.obls)
        runner(s)
        hvs = [o for o in ex.obls[mark:] if any(a.op == 'app' and a.args[0].startswith('hv!') for a in t.atoms(o.goal))]
        for o in hvs:
            pass        # they mention list elements of unknown value: kept, the prover treats them as arbitrary


def _terms(v):
    if isinstance(v, T):
        return [v]
    if isinstance(v, Cx):
        return [v.re, v.im]
    if isinstance(v, tuple):
        return [y for x in v for y in _terms(x)]
    if isinstance(v, Opaque) and v.data is not None:
        return _terms(v.data)
    return []


def one(ex, outs, node):
    live = []
    for o in outs:
        if o.status == 'raise':
            continue
        if o.status not in ('run', 'continue'):
            raise Unsupported('%s inside a loop of symbolic length' % o.status, node)
        o.status = 'run'
        live.append(o)
    live = ex.merge_all(live)
    if len(live) != 1:
        raise Unsupported('loop body paths cannot be merged', node)
    return live[0]


def symbolic_for(ex, st, node, si):
    L = Loop(ex, st, node)
    N = si.n
    if not t.nonneg(N) and not ex.entails(st, t.le(t.ZERO, N)):
        N = t.pos(N)
    extra = [t.le(t.ZERO, L.K), t.lt(L.K, N)]

    def runner(s):
        ex.assign(s, node.target, si.fn(L.K))
        return one(ex, ex.run(node.body, [s]), node)
    saved = ex.record
    ex.record = False
    try:
        pre, out = L.preclose(extra, runner, *L.fixpoint(extra, runner))
        L.solve(pre, out, ex.all_hyps(st) + extra)
    finally:
        ex.record = saved
    if ex.record:
        L.record_body(extra, runner, N)
    L.finish(pre, out, N)
    ex.loops.append('for at line %s: %d cells closed over the iteration number' % (node.lineno, len(L.M) + len(L.tails)))
    if node.orelse:
        return ex.run(node.orelse, [st])
    return [st]


def linear_in(p, Ka):
    """p = a + b*K with a, b free of K"""
    a, b = t.ZERO, t.ZERO
    for m, c in p.args:
        e = dict(m).get(Ka, 0)
        if e == 0:
            x = t._poly({m: c})
            if t.depends(x, Ka):
                return None
            a = t.add(a, x)
        elif e == 1:
            x = t._poly({tuple((q, f) for q, f in m if q is not Ka): c})
            if t.depends(x, Ka):
                return None
            b = t.add(b, x)
        else:
            return None
    return a, b


def symbolic_while(ex, st, node):
    L = Loop(ex, st, node)
    extra = [t.le(t.ZERO, L.K)]
    G = {}

    def runner(s):
        g = ex.truth(s, ex.ev(s, node.test), node)
        G['g'] = g
        s.assume(g)
        return one(ex, ex.run(node.body, [s]), node)
    base = ex.all_hyps(st)

    def trips(g):
        """number of iterations from a guard that is linear in the iteration number"""
        bounds = []
        for a in g.args if g.op == 'and' else (g,):
            neg = a.op == 'not'
            b = a.args[0] if neg else a
            if b.op != 'le0':
                raise Unsupported('while guard', node)
            lk = linear_in(b.args[0], L.Ka)
            if lk is None:
                raise Unsupported('while guard is not linear in the iteration number', node)
            c0, c1 = lk
            if not neg:
                if not prove.entails(base, t.lt(t.ZERO, c1)):
                    raise Unsupported('while guard does not decrease', node)
                bounds.append(t.add(t.app('floor', t.neg(t.div(c0, c1))), t.ONE))
            else:
                if not prove.entails(base, t.lt(c1, t.ZERO)):
                    raise Unsupported('while guard does not decrease', node)
                bounds.append(t.neg(t.app('floor', t.neg(t.div(c0, t.neg(c1))))))
        N = bounds[0]
        for b in bounds[1:]:
            N = t.minv(N, b)
        if not t.nonneg(N) and not ex.entails(st, t.le(t.ZERO, N)):
            N = t.pos(N)
        return N
    saved = ex.record
    ex.record = False
    N = None
    try:
        pre, out = L.preclose(extra, runner, *L.fixpoint(extra, runner))
        hav = [x if t.is_bool(x) else t.atom_of(x) for k, x in L.M.items() if k not in L.closed]
        if not any(t.depends(G['g'], h) for h in hav):
            # a counting loop: the same as a for loop over the trip count
            try:
                N = trips(G['g'])
            except Unsupported:
                N = None
        if N is not None:
            L.solve(pre, out, base + extra + [t.lt(L.K, N)])
        else:
            L.solve(pre, out, base + extra, specs=False)
    finally:
        ex.record = saved
    if N is None:
        N = trips(L.sub(G['g']))
    if ex.record:
        L.record_body(extra + [t.lt(L.K, N)], runner, N)
    L.finish(pre, out, N)
    ex.loops.append('while at line %s: trip count in closed form' % node.lineno)
    if node.orelse:
        return ex.run(node.orelse, [st])
    return [st]
