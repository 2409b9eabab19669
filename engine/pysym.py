"""Symbolic execution (verification-condition generation) of the real Python source of /repo.

The AST is read from /repo on every run.  States are merged at joins with if-then-else terms, so a function
becomes one term per result; loops with a symbolic trip count are closed by loops.py.
"""
import ast
import os
from fractions import Fraction as F
from . import terms as t
from .terms import T
from . import prove

ROOTS = [os.environ.get('VERIF_REPO', '/repo') + '/src', os.environ.get('VERIF_REPO', '/repo') + '/scripts']


class Unsupported(Exception):
    def __init__(self, msg, node=None, where=''):
        self.msg = msg
        super().__init__('%s%s' % (msg, (' (line %s)' % getattr(node, 'lineno', '?')) if node is not None else ''))


class Unmergeable(Exception):
    pass


class Split(Unsupported):
    """outcomes of a call that one state cannot hold: to be executed case by case"""

    def __init__(self, msg, node, cases):
        super().__init__(msg, node)
        self.cases = cases


# ------------------------------------------------------------------ values
class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im


class Ref:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(self.id)


class Maybe:
    """a cell present only under cond"""
    __slots__ = ('val', 'cond')

    def __init__(self, val, cond):
        self.val, self.cond = val, cond


class DictObj:
    def __init__(self, items=None, default=None):
        self.items = items if items is not None else {}

    def copy(self):
        return DictObj(dict(self.items))


class Tail:
    __slots__ = ('n', 'fn', 'upd')

    def __init__(self, n, fn, upd=None):
        self.n, self.fn, self.upd = n, fn, upd      # upd = (index, value, previous tail) of a point update


class ListObj:
    def __init__(self, items=None, tail=None, kind='list'):
        self.items = items if items is not None else []
        self.tail = tail
        self.kind = kind        # list | nd (numpy array)

    def copy(self):
        return ListObj(list(self.items), self.tail, self.kind)

    def length(self):
        n = t.const(len(self.items))
        return n if self.tail is None else t.add(n, self.tail.n)


class Func:
    def __init__(self, node, module, closure=None, name=None):
        self.node, self.module, self.closure = node, module, closure
        self.name = name or getattr(node, 'name', '<lambda>')
        self.defaults = None

    @property
    def qual(self):
        return self.module.name + '.' + self.name


class Builtin:
    def __init__(self, name):
        self.name = name


class ModRef:
    def __init__(self, name):
        self.name = name


class Opaque:
    """a value we carry around but never inspect (strings from format, print results, ...)"""

    def __init__(self, what, data=None):
        self.what, self.data = what, data


def text(parts):
    """a string put together from strings and values"""
    out = []
    for x in parts:
        for y in (x.data or (None,)) if isinstance(x, Opaque) and x.what == 'str' else (x,):
            if isinstance(y, str) and out and isinstance(out[-1], str):
                out[-1] += y
            elif isinstance(y, (str, T)):
                out.append(y)
            else:
                return Opaque('str')
    if not out:
        return ''
    return out[0] if len(out) == 1 and isinstance(out[0], str) else Opaque('str', tuple(out))


class BoundMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class RangeVal:
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step


class SymIter:
    """an iterable of symbolic length: n elements fn(k)"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn


UNBOUND = object()


# ------------------------------------------------------------------ modules
class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as fh:
            self.src = fh.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self.assigned = {}
        self.multi = set()
        self.mutated_globals = set()
        self._index(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                self.mutated_globals.update(n.names)

    def _index(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef,)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs[(a.asname or a.name.split('.')[0])] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.defs[a.asname or a.name] = ('from', n.module or '', a.name, n.level)
            elif isinstance(n, ast.Assign):
                for tg in n.targets:
                    for nm in ast.walk(tg):
                        if isinstance(nm, ast.Name):
                            if nm.id in self.defs:
                                self.multi.add(nm.id)
                            self.defs[nm.id] = ('assign', n)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.defs[n.target.id] = ('assign', ast.Assign(targets=[n.target], value=n.value, lineno=n.lineno))
            elif isinstance(n, ast.ClassDef):
                self.defs[n.name] = ('class', n)
            elif isinstance(n, ast.If):
                tst = n.test
                if isinstance(tst, ast.Compare) and isinstance(tst.left, ast.Name) and tst.left.id == '__name__':
                    continue
                self._index(n.body)
                self._index(n.orelse)
            elif isinstance(n, ast.Try):
                self._index(n.body)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.multi.add(n.target.id)
            elif isinstance(n, (ast.For, ast.While, ast.With)):
                for m in ast.walk(n):
                    if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                        self.multi.add(m.id)
                        self.defs.setdefault(m.id, ('assign', None))


_modules = {}


def find_module(name):
    if name in _modules:
        return _modules[name]
    rel = name.replace('.', '/')
    for r in ROOTS:
        for p in (r + '/' + rel + '.py', r + '/' + rel + '/__init__.py'):
            if os.path.exists(p):
                m = Module(name, p)
                _modules[name] = m
                return m
    return None


def reset_modules():
    _modules.clear()


EXTERNAL = {'math', 'cmath', 'numpy', 'os', 'csv', 'functools', 'collections', 'itertools', 'configparser', 'fiona',
            'pyproj', 'rasterio', 'shapely', 'rasterstats', 'glob', 'sys', 'warnings', 'operator', 'typing', 'copy',
            'statistics', 'bisect', 'dataclasses', 'fiona.crs', 'shapely.ops', 'shapely.geometry', 'logging',
            'builtins', 'heapq', '__future__', 'numbers', 'enum'}

BUILTIN_NAMES = {'abs', 'max', 'min', 'sum', 'len', 'range', 'int', 'float', 'round', 'complex', 'sorted', 'enumerate',
                 'zip', 'list', 'tuple', 'dict', 'bool', 'pow', 'any', 'all', 'reversed', 'map', 'print', 'str',
                 'isinstance', 'divmod', 'next', 'iter', 'set', 'type', 'repr', 'filter', 'slice', 'hasattr',
                 'ValueError', 'TypeError', 'ZeroDivisionError', 'Exception', 'IndexError', 'KeyError', 'RuntimeError',
                 'ArithmeticError', 'OverflowError', 'AssertionError', 'NotImplementedError', 'super', 'format',
                 'callable', 'id', 'getattr', 'setattr', 'object', 'frozenset', 'bytes', 'ord', 'chr', 'hash', 'vars',
                 'open', 'input', 'globals', 'locals'}


# ------------------------------------------------------------------ state
FROZEN = {}


class Heap(dict):
    """objects by reference; elements of lists of symbolic length are immutable and shared by every state"""

    def __missing__(self, i):
        return FROZEN[i]

    def get(self, i, default=None):
        return self[i] if i in self else FROZEN.get(i, default)


class State:
    __slots__ = ('heap', 'frames', 'pc', 'status', 'ret')

    def __init__(self):
        self.heap = Heap()
        self.frames = [{}]
        self.pc = ()
        self.status = 'run'       # run | return | break | continue | raise
        self.ret = None

    def fork(self):
        s = State()
        s.heap = Heap(self.heap)
        s.frames = [dict(f) for f in self.frames]
        s.pc = self.pc
        s.status = self.status
        s.ret = self.ret
        return s

    def assume(self, c):
        if c is not t.TRUE:
            self.pc = self.pc + (c,)


class Obl:
    __slots__ = ('kind', 'where', 'hyps', 'goal', 'note')

    def __init__(self, kind, where, hyps, goal, note=''):
        self.kind, self.where, self.hyps, self.goal, self.note = kind, where, hyps, goal, note


# ------------------------------------------------------------------ the executor
class Exec:
    def __init__(self, hyps=(), contracts=None, externals=None, loop_specs=None, max_unroll=3000):
        self.hyps = list(hyps)
        self.contracts = contracts or {}
        self.externals = externals or {}
        self.loop_specs = loop_specs or []
        self.obls = []
        self.functions = {}          # qualname -> count of executions (under contract: inlined)
        self.called_contracts = {}
        self.nid = 1
        self.fresh_n = 0
        self.stack = []              # current function qualnames
        self.max_unroll = max_unroll
        self.modvals = {}
        self.facts = []              # global facts about fresh symbols (definitional)
        self.loops = []              # loop certificates
        self.steps = 0
        self.record = True
        self.outputs = []            # printed things

    # -- helpers
    def all_hyps(self, st):
        return self.hyps + self.facts + [c for c in st.pc]

    def entails(self, st, goal):
        if goal is t.TRUE:
            return True
        if goal is t.FALSE and not st.pc:
            return False
        return prove.entails(self.all_hyps(st), goal)

    def fresh(self, name, isint=False):
        self.fresh_n += 1
        return t.var('%s!%d' % (name, self.fresh_n), isint)

    def alloc(self, st, obj):
        self.nid += 1
        r = Ref(self.nid)
        st.heap[r.id] = obj
        return r

    def obj(self, st, ref):
        return st.heap[ref.id]

    def wobj(self, st, ref):
        """object for writing (copied)"""
        if ref.id < 0:
            raise Unsupported('write to module-level object')
        if getattr(st.heap[ref.id], 'frozen', False):
            raise Unsupported('write to an element of a list of symbolic length')
        o = st.heap[ref.id].copy()
        st.heap[ref.id] = o
        return o

    def oblige(self, st, kind, goal, node, note=''):
        if goal is t.TRUE or not self.record:
            return
        where = '%s:%s' % (self.stack[-1] if self.stack else '?', getattr(node, 'lineno', '?'))
        self.obls.append(Obl(kind, where, self.all_hyps(st), goal, note))

    # -- running a function
    def call_function(self, st, fn, args, kwargs, node=None):
        q = fn.qual
        h = self.contracts.get(q)
        if h is not None and self.stack:
            self.called_contracts[q] = self.called_contracts.get(q, 0) + 1
            return h(self, st, args, kwargs, node)
        return self.inline(st, fn, args, kwargs, node)

    def inline(self, st, fn, args, kwargs, node=None):
        if len(self.stack) > 40:
            raise Unsupported('recursion too deep', node)
        if self.stack.count(fn.qual) >= 3:
            raise Unsupported('recursive function ' + fn.qual, node)
        frame = self.bind(st, fn, args, kwargs, node)
        if isinstance(fn.node, ast.Lambda):
            st.frames.append(frame)
            self.stack.append(fn.qual)
            saved = self.cur_mod
            self.cur_mod = fn.module
            saved_cl = self.cur_closure
            self.cur_closure = fn.closure
            try:
                v = self.ev(st, fn.node.body)
            finally:
                self.stack.pop()
                self.cur_mod = saved
                self.cur_closure = saved_cl
            st.frames.pop()
            return v
        self.check_fn(fn)
        if fn.node.decorator_list and not all(self.plain(x) for x in frame.values()):
            raise Unsupported('cached function of a mutable object', fn.node)
        self.functions[fn.qual] = self.functions.get(fn.qual, 0) + 1
        base_pc = st.pc
        before = set(st.heap)
        st.frames.append(frame)
        self.stack.append(fn.qual)
        saved = (self.cur_mod, self.cur_closure)
        self.cur_mod, self.cur_closure = fn.module, fn.closure
        try:
            outs = self.run(fn.node.body, [st.fork()])
        finally:
            self.stack.pop()
            self.cur_mod, self.cur_closure = saved
        fin = []
        for s in outs:
            if s.status == 'raise':
                self.oblige(s, 'no-exception', t.FALSE, node, 'raise reachable')
                continue
            if s.status == 'run':
                s.status, s.ret = 'return', None
            fin.append(s)
        if not fin:
            raise Unsupported('function always raises', node)
        if len(fin) > 1:
            for s in fin:
                self.drop_locals(s, before)
        m = fin[-1]
        try:
            for s in reversed(fin[:-1]):
                m = self.merge(s, m, base_pc)
        except Unmergeable as e:
            raise Split('results cannot be merged: %s' % e, node, [s.pc for s in fin])
        st.heap, st.frames, st.pc = m.heap, m.frames, m.pc
        v = m.ret
        st.frames.pop()
        if fn.node.decorator_list and not self.plain(v):
            raise Unsupported('cached function returns a mutable object', fn.node)
        return v

    def plain(self, v):
        if isinstance(v, tuple):
            return all(self.plain(x) for x in v)
        return not isinstance(v, (Ref, Maybe, Func))

    def drop_locals(self, s, before):
        """forget the locals of a finished call and what only they refer to"""
        def has_closure(v):
            return isinstance(v, Func) and v.closure is not None or isinstance(v, tuple) and any(has_closure(x) for x in v)
        if has_closure(s.ret):
            return
        s.frames[-1] = {}
        seen = set()
        todo = [s.ret] + [v for f in s.frames[:-1] for v in f.values()] + [Ref(i) for i in before]
        while todo:
            v = todo.pop()
            if isinstance(v, Maybe):
                v = v.val
            if isinstance(v, tuple):
                todo.extend(v)
            elif isinstance(v, Func) and isinstance(v.closure, dict):
                todo.extend(x for x in v.closure.values() if isinstance(x, (Ref, tuple, Maybe)))
            elif isinstance(v, Ref) and v.id not in seen:
                seen.add(v.id)
                o = s.heap.get(v.id)
                if isinstance(o, DictObj):
                    todo.extend(o.items.values())
                elif isinstance(o, ListObj):
                    todo.extend(o.items)
        for i in list(s.heap):
            if i not in seen:
                del s.heap[i]

    cur_mod = None
    cur_closure = None
    prune = False

    def check_fn(self, fn):
        for d in fn.node.decorator_list:
            # a cache over immutable arguments and results does not change what is returned
            x = d.func if isinstance(d, ast.Call) else d
            if fn.closure is None and (isinstance(x, (ast.Name, ast.Attribute))):
                saved = (self.cur_mod, self.cur_closure)
                self.cur_mod, self.cur_closure = fn.module, None
                try:
                    v = self.ev(State(), x)
                except Unsupported:
                    v = None
                finally:
                    self.cur_mod, self.cur_closure = saved
                if isinstance(v, Builtin) and v.name in ('functools.lru_cache', 'functools.cache'):
                    continue
            raise Unsupported('decorator ' + ast.unparse(d), fn.node)
        for n in ast.walk(fn.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                raise Unsupported('generator function', n)

    def bind(self, st, fn, args, kwargs, node):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        frame = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise Unsupported('too many arguments', node)
            frame[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            frame[a.vararg.arg] = ()
        for n, v in zip(names, args):
            frame[n] = v
        kw = dict(kwargs)
        for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                frame[n] = kw.pop(n)
        defaults = a.defaults
        for x, d in zip(names[len(names) - len(defaults):], defaults):
            if x not in frame:
                frame[x] = self.default_value(st, fn, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in frame and d is not None:
                frame[x.arg] = self.default_value(st, fn, d)
        if kw:
            if a.kwarg is None:
                raise Unsupported('unexpected keyword', node)
            frame[a.kwarg.arg] = self.alloc(st, DictObj(kw))
        elif a.kwarg is not None:
            frame[a.kwarg.arg] = self.alloc(st, DictObj({}))
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in frame:
                raise Unsupported('missing argument ' + n, node)
        return frame

    def default_value(self, st, fn, d):
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
            # a shared mutable default: its contents depend on history
            raise Unsupported('mutable default argument', d)
        saved = (self.cur_mod, self.cur_closure)
        self.cur_mod, self.cur_closure = fn.module, fn.closure
        st.frames.append({})
        try:
            return self.ev(st, d)
        finally:
            st.frames.pop()
            self.cur_mod, self.cur_closure = saved

    # -- statements
    def run(self, stmts, states):
        for s in stmts:
            nxt = []
            for st in states:
                if st.status != 'run':
                    nxt.append(st)
                else:
                    nxt.extend(self.stmt(st, s))
            states = nxt
            if len(states) > 64:
                raise Unsupported('too many paths', s)
        return states

    def stmt(self, st, n):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('execution budget', n)
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(n).__name__, n)
        return m(st, n)

    def s_Pass(self, st, n):
        return [st]

    def s_Expr(self, st, n):
        if isinstance(n.value, ast.Constant):
            return [st]
        self.ev(st, n.value)
        return [st]

    def s_Return(self, st, n):
        st.ret = self.ev(st, n.value) if n.value is not None else None
        st.status = 'return'
        return [st]

    def s_Break(self, st, n):
        st.status = 'break'
        return [st]

    def s_Continue(self, st, n):
        st.status = 'continue'
        return [st]

    def s_Raise(self, st, n):
        st.status = 'raise'
        return [st]

    def s_Import(self, st, n):
        for a in n.names:
            st.frames[-1][a.asname or a.name.split('.')[0]] = ModRef(a.name if a.asname else a.name.split('.')[0])
        return [st]

    def s_ImportFrom(self, st, n):
        for a in n.names:
            st.frames[-1][a.asname or a.name] = self.import_from(st, n.module or '', a.name, n.level, n)
        return [st]

    def s_Global(self, st, n):
        raise Unsupported('global statement', n)

    def s_Nonlocal(self, st, n):
        raise Unsupported('nonlocal statement', n)

    def s_FunctionDef(self, st, n):
        st.frames[-1][n.name] = Func(n, self.cur_mod, closure=st.frames[-1])
        return [st]

    def s_Assert(self, st, n):
        c = self.truth(st, self.ev(st, n.test), n)
        self.oblige(st, 'assert', c, n)
        st.assume(c)
        return [st]

    def s_Delete(self, st, n):
        for tg in n.targets:
            if isinstance(tg, ast.Subscript):
                o = self.ev(st, tg.value)
                k = self.ev(st, tg.slice)
                if isinstance(o, Ref) and isinstance(self.obj(st, o), DictObj):
                    k = self.key(k, tg)
                    d = self.wobj(st, o)
                    if k not in d.items:
                        raise Unsupported('del of missing key', n)
                    del d.items[k]
                    continue
            elif isinstance(tg, ast.Name):
                st.frames[-1].pop(tg.id, None)
                continue
            raise Unsupported('del', n)
        return [st]

    def s_Assign(self, st, n):
        v = self.ev(st, n.value)
        for tg in n.targets:
            self.assign(st, tg, v)
        return [st]

    def s_AnnAssign(self, st, n):
        if n.value is not None:
            self.assign(st, n.target, self.ev(st, n.value))
        return [st]

    def s_AugAssign(self, st, n):
        tg = n.target
        if isinstance(tg, ast.Name):
            cur = self.name(st, tg.id, tg)
            v = self.ev(st, n.value)
            if isinstance(cur, Ref) and isinstance(self.obj(st, cur), ListObj) and isinstance(n.op, ast.Add) \
                    and self.obj(st, cur).kind == 'list':
                self.list_extend(st, cur, v, n)
                return [st]
            st.frames[-1][tg.id] = self.binop(st, n.op, cur, v, n)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(st, tg.value)
            k = self.ev_index(st, tg.slice)
            cur = self.getitem(st, o, k, tg)
            v = self.ev(st, n.value)
            if isinstance(cur, Ref) and isinstance(self.obj(st, cur), ListObj) and isinstance(n.op, ast.Add):
                self.list_extend(st, cur, v, n)
                return [st]
            self.setitem(st, o, k, self.binop(st, n.op, cur, v, n), tg)
        else:
            raise Unsupported('augmented assignment', n)
        return [st]

    def assign(self, st, tg, v):
        if isinstance(tg, ast.Name):
            st.frames[-1][tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vals = self.as_seq(st, v, tg)
            if any(isinstance(e, ast.Starred) for e in tg.elts):
                i = [isinstance(e, ast.Starred) for e in tg.elts].index(True)
                after = len(tg.elts) - i - 1
                if len(vals) < len(tg.elts) - 1:
                    raise Unsupported('unpack length', tg)
                mid = vals[i:len(vals) - after]
                for e, x in zip(tg.elts[:i], vals[:i]):
                    self.assign(st, e, x)
                self.assign(st, tg.elts[i].value, self.alloc(st, ListObj(list(mid))))
                for e, x in zip(tg.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(st, e, x)
                return
            if len(vals) != len(tg.elts):
                raise Unsupported('unpack length', tg)
            for e, x in zip(tg.elts, vals):
                self.assign(st, e, x)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(st, tg.value)
            if isinstance(tg.slice, ast.Slice):
                raise Unsupported('slice assignment', tg)
            k = self.ev_index(st, tg.slice)
            self.setitem(st, o, k, v, tg)
        else:
            raise Unsupported('assignment target ' + type(tg).__name__, tg)

    def ev_index(self, st, n):
        return self.ev(st, n)

    def s_With(self, st, n):
        """only context managers whose exit has no effect the contracts speak of (files of the assumed contracts)"""
        for it in n.items:
            v = self.ev(st, it.context_expr)
            if not (isinstance(v, Opaque) and ('with:' + v.what) in self.externals):
                raise Unsupported('with', n)
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, v)
        return self.run(n.body, [st])

    def s_Try(self, st, n):
        """try/finally only: handlers would need the exceptions of partial operations as paths"""
        if n.handlers or n.orelse:
            raise Unsupported('exception handler', n)
        out = []
        for s in self.run(n.body, [st]):
            was, ret = s.status, s.ret
            s.status = 'run'
            for e in self.run(n.finalbody, [s]):
                if e.status == 'run':
                    e.status, e.ret = was, ret
                out.append(e)
        return out

    def s_If(self, st, n):
        c = self.truth(st, self.ev(st, n.test), n)
        if c is t.TRUE:
            return self.run(n.body, [st])
        if c is t.FALSE:
            return self.run(n.orelse, [st])
        base = st.pc
        dead1 = dead2 = False
        if st.pc or True:
            if self.quick_entails(st, c):
                return self.run(n.body, [st])
            if self.quick_entails(st, t.not_(c)):
                return self.run(n.orelse, [st])
            if self.prune:
                if self.entails(st, c):
                    return self.run(n.body, [st])
                if self.entails(st, t.not_(c)):
                    return self.run(n.orelse, [st])
        s1, s2 = st.fork(), st
        s1.assume(c)
        s2.assume(t.not_(c))
        o1 = self.run(n.body, [s1])
        o2 = self.run(n.orelse, [s2])
        return self.join(o1, o2, base)

    def quick_entails(self, st, c):
        for p in st.pc:
            if p is c:
                return True
        return c in self._hyps_closure()

    _hc = None

    def _hyps_closure(self):
        if self._hc is None or self._hc[0] != len(self.hyps):
            self._hc = (len(self.hyps), set(self.hyps))
        return self._hc[1]

    def join(self, o1, o2, base):
        """merge states with equal status where possible"""
        out = []
        o2 = list(o2)
        for a in o1:
            done = False
            if a.status != 'raise':
                for i, b in enumerate(o2):
                    if b.status == a.status:
                        try:
                            o2[i] = self.merge(a, b, base)
                            done = True
                            break
                        except Unmergeable:
                            pass
            if not done:
                out.append(a)
        return out + o2

    def merge(self, a, b, base):
        """a, b extend path condition base; result: ite(cond_a, a, b)"""
        k = len(base)
        # longest common prefix
        k = 0
        while k < len(a.pc) and k < len(b.pc) and a.pc[k] is b.pc[k]:
            k += 1
        ra, rb = a.pc[k:], b.pc[k:]
        if ra and rb and t.not_(ra[0]) is rb[0]:
            cond = ra[0]
        elif ra:
            cond = t.and_(*ra)
        elif rb:
            cond = t.not_(t.and_(*rb))
        else:
            cond = t.TRUE
        m = State()
        m.status = a.status
        disj = t.or_(t.and_(*ra), t.and_(*rb))
        m.pc = a.pc[:k] + ((disj,) if disj is not t.TRUE else ())
        m.heap = Heap()
        pend = {}
        ctx = (a, b, m, cond, pend)
        if len(a.frames) != len(b.frames):
            raise Unmergeable('frames')
        for i, r in enumerate(a.heap):
            pass
        ids = set(a.heap) | set(b.heap)
        for i in ids:
            oa, ob = a.heap.get(i), b.heap.get(i)
            if oa is ob or ob is None:
                m.heap[i] = oa
            elif oa is None:
                m.heap[i] = ob
        for i in ids:
            oa, ob = a.heap.get(i), b.heap.get(i)
            if oa is not None and ob is not None and oa is not ob:
                m.heap[i] = self.merge_obj(oa, ob, ctx)
        m.frames = []
        for fa, fb in zip(a.frames, b.frames):
            m.frames.append(self.merge_map(fa, fb, ctx, frame=True))
        m.ret = self.merge_val(a.ret, b.ret, ctx)
        return m

    def merge_map(self, fa, fb, ctx, frame=False):
        cond = ctx[3]
        out = {}
        for kx in list(fa) + [x for x in fb if x not in fa]:
            va, vb = fa.get(kx, UNBOUND), fb.get(kx, UNBOUND)
            if va is vb:
                out[kx] = va
                continue
            ca, cb = t.TRUE, t.TRUE
            if va is UNBOUND:
                ca = t.FALSE
            elif isinstance(va, Maybe):
                va, ca = va.val, va.cond
            if vb is UNBOUND:
                cb = t.FALSE
            elif isinstance(vb, Maybe):
                vb, cb = vb.val, vb.cond
            if va is UNBOUND:
                v = vb
            elif vb is UNBOUND:
                v = va
            else:
                try:
                    v = self.merge_val(va, vb, ctx)
                except Unmergeable:
                    if not frame:
                        raise
                    # locals of incompatible kinds: keep the paths apart
                    raise
            p = t.ite(cond, ca, cb)
            out[kx] = v if p is t.TRUE else Maybe(v, p)
        return out

    def merge_obj(self, oa, ob, ctx):
        if isinstance(oa, DictObj) and isinstance(ob, DictObj):
            return DictObj(self.merge_map(oa.items, ob.items, ctx))
        if isinstance(oa, ListObj) and isinstance(ob, ListObj) and oa.kind == ob.kind:
            return self.merge_list(oa, ob, ctx)
        raise Unmergeable('objects')

    def merge_list(self, oa, ob, ctx):
        cond = ctx[3]
        if len(oa.items) != len(ob.items):
            raise Unmergeable('list lengths')
        items = [self.merge_val(x, y, ctx) for x, y in zip(oa.items, ob.items)]
        if oa.tail is ob.tail:
            tail = oa.tail
        elif oa.tail is None or ob.tail is None:
            raise Unmergeable('list tails')
        else:
            ta, tb = oa.tail, ob.tail
            upd = None
            if ta.upd is not None and tb.upd is not None and ta.upd[2] is tb.upd[2] and ta.upd[0] is tb.upd[0]:
                upd = (ta.upd[0], self.merge_val(ta.upd[1], tb.upd[1], ctx), ta.upd[2])
            elif ta.upd is not None and ta.upd[2] is tb and ta.upd[0] != 'append':
                upd = (ta.upd[0], self.merge_val(ta.upd[1], tb.fn(ta.upd[0]), ctx), tb)
            elif tb.upd is not None and tb.upd[2] is ta and tb.upd[0] != 'append':
                upd = (tb.upd[0], self.merge_val(ta.fn(tb.upd[0]), tb.upd[1], ctx), ta)
            tail = Tail(t.ite(cond, ta.n, tb.n), lambda k: self.merge_val(ta.fn(k), tb.fn(k), ctx), upd)
        return ListObj(items, tail, oa.kind)

    def merge_val(self, x, y, ctx):
        a, b, m, cond, pend = ctx
        if x is y:
            return x
        if isinstance(x, bool):
            x = t.boolc(x)
        if isinstance(y, bool):
            y = t.boolc(y)
        if isinstance(x, T) and isinstance(y, T):
            return t.ite(cond, x, y)
        if isinstance(x, (T, Cx)) and isinstance(y, (T, Cx)):
            x, y = cx(x), cx(y)
            return Cx(t.ite(cond, x.re, y.re), t.ite(cond, x.im, y.im))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.merge_val(p, q, ctx) for p, q in zip(x, y))
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.id == y.id:
                return x
            key = (x.id, y.id)
            if key in pend:
                return pend[key]
            # distinct objects: merge copies (aliasing between the two is then lost, so require that the
            # objects were allocated in the branches and are not shared)
            if x.id in b.heap and y.id in a.heap and b.heap[x.id] is a.heap[x.id] and x.id < 0:
                raise Unmergeable('shared objects')
            self.nid += 1
            r = Ref(self.nid)
            pend[key] = r
            m.heap[r.id] = None
            if self.refcount_shared(a, x) or self.refcount_shared(b, y):
                raise Unmergeable('aliased objects')
            m.heap[r.id] = self.merge_obj(a.heap[x.id], b.heap[y.id], ctx)
            return r
        if isinstance(x, str) and isinstance(y, str) and x == y:
            return x
        if x is None and y is None:
            return None
        if isinstance(x, Opaque) and isinstance(y, Opaque) and x.what == y.what and isinstance(x.data, tuple) and \
                isinstance(y.data, tuple) and len(x.data) == len(y.data):
            return Opaque(x.what, tuple(self.merge_val(p, q, ctx) for p, q in zip(x.data, y.data)))
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return Opaque('merged')
        if isinstance(x, Func) and isinstance(y, Func) and x.node is y.node:
            return x
        if isinstance(x, (ModRef, Builtin)) and type(x) is type(y) and x.name == y.name:
            return x
        raise Unmergeable('values %s / %s' % (type(x).__name__, type(y).__name__))

    def refcount_shared(self, st, ref):
        n = 0
        for f in st.frames:
            for v in f.values():
                n += self._count(v, ref)
        for o in st.heap.values():
            if o is None:
                continue
            vals = o.items.values() if isinstance(o, DictObj) else o.items
            for v in vals:
                n += self._count(v, ref)
        return n > 1

    def _count(self, v, ref):
        if isinstance(v, Maybe):
            v = v.val
        if isinstance(v, Ref):
            return 1 if v.id == ref.id else 0
        if isinstance(v, tuple):
            return sum(self._count(x, ref) for x in v)
        return 0

    # -- loops
    def s_For(self, st, n):
        it = self.ev(st, n.iter)
        seq = self.iter_concrete(st, it, n)
        if seq is not None:
            return self.unroll(st, n, seq)
        from . import loops
        return loops.symbolic_for(self, st, n, self.iter_symbolic(st, it, n))

    def unroll(self, st, n, seq):
        if len(seq) > self.max_unroll:
            raise Unsupported('loop too long to unroll', n)
        live = [st]
        done = []
        broke = []
        for x in seq:
            nxt = []
            for s in live:
                self.assign(s, n.target, x)
                base = s.pc
                for o in self.run(n.body, [s]):
                    if o.status == 'run' or o.status == 'continue':
                        o.status = 'run'
                        nxt.append(o)
                    elif o.status == 'break':
                        o.status = 'run'
                        broke.append(o)
                    else:
                        done.append(o)
            live = self.merge_all(nxt)
            if len(live) > 64:
                raise Unsupported('too many paths', n)
        if n.orelse:
            live = self.run(n.orelse, live)
        return self.merge_all(live + broke) + done

    def merge_all(self, states):
        out = []
        for s in states:
            for i, o in enumerate(out):
                if o.status == s.status:
                    try:
                        out[i] = self.merge(o, s, ())
                        break
                    except Unmergeable:
                        pass
            else:
                out.append(s)
        return out

    def s_While(self, st, n):
        live = [st]
        done, broke, exits = [], [], []
        # concrete unrolling as long as the guard folds
        probe = st.fork()
        c = self.truth(probe, self.ev(probe, n.test), n)
        if c is not t.TRUE and c is not t.FALSE:
            if self.entails(st, t.not_(c)):
                st2 = st
                self.ev(st2, n.test)
                return self.run(n.orelse, [st2]) if n.orelse else [st2]
            from . import loops
            return loops.symbolic_while(self, st, n)
        count = 0
        while live:
            count += 1
            if count > self.max_unroll:
                raise Unsupported('while loop too long to unroll', n)
            nxt = []
            for s in live:
                c = self.truth(s, self.ev(s, n.test), n)
                if c is t.FALSE:
                    exits.append(s)
                    continue
                if c is not t.TRUE:
                    if count == 1:
                        raise Unsupported('while guard', n)
                    if self.entails(s, c):
                        pass
                    elif self.entails(s, t.not_(c)):
                        exits.append(s)
                        continue
                    else:
                        from . import loops
                        for o in loops.symbolic_while(self, s, n):
                            (exits if o.status == 'run' else done).append(o)
                        continue
                for o in self.run(n.body, [s]):
                    if o.status in ('run', 'continue'):
                        o.status = 'run'
                        nxt.append(o)
                    elif o.status == 'break':
                        o.status = 'run'
                        broke.append(o)
                    else:
                        done.append(o)
            live = self.merge_all(nxt)
        if n.orelse:
            exits = self.run(n.orelse, exits)
        return self.merge_all(exits + broke) + done

    def iter_concrete(self, st, it, node):
        """list of values if the iterable has a concrete length"""
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, list):
            return it
        if isinstance(it, RangeVal):
            if t.is_const(it.a) and t.is_const(it.b) and t.is_const(it.step):
                a, b, s = int(t.cval(it.a)), int(t.cval(it.b)), int(t.cval(it.step))
                if s == 0:
                    raise Unsupported('range step', node)
                return [t.const(x) for x in range(a, b, s)]
            return None
        if isinstance(it, Ref):
            o = self.obj(st, it)
            if isinstance(o, DictObj):
                self.need_present(st, o, node)
                return [self.unkey(k) for k in o.items]
            if o.tail is None:
                return list(o.items)
            if t.is_const(o.tail.n):
                return list(o.items) + [o.tail.fn(t.const(i)) for i in range(int(t.cval(o.tail.n)))]
            return None
        if isinstance(it, SymIter):
            if t.is_const(it.n):
                return [it.fn(t.const(i)) for i in range(int(t.cval(it.n)))]
            return None
        if isinstance(it, str):
            return list(it)
        raise Unsupported('iteration over %s' % type(it).__name__, node)

    def need_present(self, st, o, node):
        for k, v in o.items.items():
            if isinstance(v, Maybe):
                raise Unsupported('iteration over conditionally present keys', node)

    def iter_symbolic(self, st, it, node):
        """SymIter for an iterable of symbolic length"""
        if isinstance(it, SymIter):
            return it
        if isinstance(it, RangeVal):
            if not t.is_const(it.step):
                raise Unsupported('range step', node)
            s = t.cval(it.step)
            if s == 1:
                n = t.pos(t.sub(it.b, it.a))
                return SymIter(n, lambda k: t.add(it.a, k))
            if s == -1:
                n = t.pos(t.sub(it.a, it.b))
                return SymIter(n, lambda k: t.sub(it.a, k))
            raise Unsupported('range step', node)
        if isinstance(it, Ref):
            o = self.obj(st, it)
            return SymIter(o.length(), lambda k: self.list_get(st, o, k, node, check=False))
        raise Unsupported('iteration', node)

    # -- expressions
    def ev(self, st, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(n).__name__, n)
        return m(st, n)

    def e_Constant(self, st, n):
        v = n.value
        if isinstance(v, bool):
            return t.boolc(v)
        if isinstance(v, int):
            return t.const(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported('non-finite constant', n)
            return t.const(F(repr(v)))
        if isinstance(v, complex):
            return Cx(t.num(v.real), t.num(v.imag))
        if isinstance(v, str) or v is None:
            return v
        if v is Ellipsis:
            return Opaque('...')
        raise Unsupported('constant', n)

    def e_Name(self, st, n):
        return self.name(st, n.id, n)

    def name(self, st, nm, node):
        f = st.frames[-1]
        if nm in f:
            v = f[nm]
            if isinstance(v, Maybe):
                self.oblige(st, 'bound', v.cond, node, 'variable %s is assigned on every path to its use' % nm)
                v = v.val
            return v
        cl = self.cur_closure
        if cl is not None and nm in cl:
            v = cl[nm]
            if isinstance(v, Maybe):
                raise Unsupported('closure over conditional variable', node)
            return v
        return self.global_name(st, nm, node)

    def global_name(self, st, nm, node, mod=None):
        mod = mod or self.cur_mod
        if nm in mod.defs:
            if nm in mod.mutated_globals or nm in mod.multi:
                raise Unsupported('module variable %s is reassigned' % nm, node)
            d = mod.defs[nm]
            if isinstance(d, ast.FunctionDef):
                return Func(d, mod)
            if d[0] == 'import':
                return ModRef(d[1])
            if d[0] == 'from':
                return self.import_from(st, d[1], d[2], d[3], node, mod)
            if d[0] == 'assign':
                return self.module_value(st, mod, nm, d[1], node)
            raise Unsupported('class ' + nm, node)
        if nm in BUILTIN_NAMES:
            return Builtin(nm)
        raise Unsupported('unknown name ' + nm, node)

    def module_value(self, st, mod, nm, assign, node):
        if assign is None:
            raise Unsupported('module variable ' + nm, node)
        key = (mod.name, nm)
        if key not in self.modvals:
            sub = State()
            saved = (self.cur_mod, self.cur_closure, self.record)
            self.cur_mod, self.cur_closure = mod, None
            self.stack.append(mod.name)
            try:
                v = self.ev(sub, assign.value)
                if not (len(assign.targets) == 1 and isinstance(assign.targets[0], ast.Name)):
                    tmp = State()
                    tmp.heap = sub.heap
                    for tg in assign.targets:
                        self.assign(sub, tg, v)
                    v = sub.frames[-1][nm]
            finally:
                self.stack.pop()
                self.cur_mod, self.cur_closure, self.record = saved
            heap = {-i: o for i, o in sub.heap.items() if i > 0}
            heap.update({i: o for i, o in sub.heap.items() if i < 0})

            def neg(x):
                if isinstance(x, Ref) and x.id > 0:
                    return Ref(-x.id)
                if isinstance(x, tuple):
                    return tuple(neg(y) for y in x)
                return x
            for i, o in heap.items():
                if isinstance(o, DictObj):
                    heap[i] = DictObj({k: neg(x) for k, x in o.items.items()})
                else:
                    heap[i] = ListObj([neg(x) for x in o.items], o.tail, o.kind)
            self.modvals[key] = (neg(v), heap)
        v, heap = self.modvals[key]
        for i, o in heap.items():
            st.heap.setdefault(i, o)
        return v

    def import_from(self, st, modname, name, level, node, mod=None):
        if level:
            cur = (mod or self.cur_mod)
            base = cur.name.split('.')
            if not cur.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (level - 1)]
            modname = '.'.join(base + ([modname] if modname else []))
        m = find_module(modname)
        if m is not None:
            if name in m.defs:
                return self.global_name(st, name, node, m)
            sub = find_module(modname + '.' + name)
            if sub is not None:
                return ModRef(modname + '.' + name)
            raise Unsupported('import of %s.%s' % (modname, name), node)
        if find_module(modname + '.' + name) is not None:
            return ModRef(modname + '.' + name)
        if modname.split('.')[0] in EXTERNAL or modname in EXTERNAL:
            return Builtin(modname + '.' + name)
        raise Unsupported('import from ' + modname, node)

    def e_Tuple(self, st, n):
        return tuple(self.elts(st, n.elts))

    def elts(self, st, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.as_seq(st, self.ev(st, e.value), e))
            else:
                out.append(self.ev(st, e))
        return out

    def e_List(self, st, n):
        return self.alloc(st, ListObj(self.elts(st, n.elts)))

    def e_Set(self, st, n):
        return tuple(self.elts(st, n.elts))     # only membership is supported

    def e_Dict(self, st, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(st, v)
                if not (isinstance(o, Ref) and isinstance(self.obj(st, o), DictObj)):
                    raise Unsupported('** of non-dict', n)
                d.update(self.obj(st, o).items)
                continue
            d[self.key(self.ev(st, k), n)] = self.ev(st, v)
        return self.alloc(st, DictObj(d))

    def key(self, k, node):
        if isinstance(k, (str, bool)):
            return k
        if isinstance(k, T):
            if k is t.TRUE or k is t.FALSE:
                return int(k is t.TRUE)
            if not t.is_bool(k) and t.is_const(k):
                c = t.cval(k)
                return int(c) if c.denominator == 1 else c
        if isinstance(k, tuple):
            return tuple(self.key(x, node) for x in k)
        if k is None:
            return None
        raise Unsupported('symbolic dictionary key', node)

    def unkey(self, k):
        if isinstance(k, str) or k is None:
            return k
        if isinstance(k, tuple):
            return tuple(self.unkey(x) for x in k)
        return t.num(k)

    def e_BinOp(self, st, n):
        a = self.ev(st, n.left)
        b = self.ev(st, n.right)
        return self.binop(st, n.op, a, b, n)

    def binop(self, st, op, a, b, node):
        if isinstance(op, ast.Mod) and isinstance(a, (str, Opaque)):
            return Opaque('str')
        if isinstance(op, ast.Add) and isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)):
            return text([a, b])
        if isinstance(op, ast.Mult) and (isinstance(a, str) or isinstance(b, str)):
            return Opaque('str')
        # lists and arrays
        la, lb = self.listobj(st, a), self.listobj(st, b)
        if la is not None or lb is not None:
            return self.list_binop(st, op, a, b, la, lb, node)
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, tuple) and isinstance(op, ast.Mult) and isinstance(b, T) and t.is_const(b):
            return a * int(t.cval(b))
        a, b = self.numeric(a, node), self.numeric(b, node)
        return self.arith(st, op, a, b, node)

    def listobj(self, st, v):
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, ListObj):
                return o
        return None

    def list_binop(self, st, op, a, b, la, lb, node):
        nd = (la is not None and la.kind == 'nd') or (lb is not None and lb.kind == 'nd')
        if nd:
            n = None
            for o in (la, lb):
                if o is not None:
                    if o.tail is not None and (la is None or lb is None):
                        sc = b if la is not None else a
                        sc = self.numeric(sc, node)
                        sub = st
                        ex = self

                        def elem(k, o=o):
                            x = ex.numeric(ex.list_get(sub, o, k, node, check=False), node)
                            return ex.arith(sub, op, x, sc, node) if la is not None else ex.arith(sub, op, sc, x, node)
                        items = [elem(t.const(i)) for i in range(len(o.items))]
                        off = len(o.items)
                        return self.alloc(st, ListObj(items, Tail(o.tail.n, lambda k: elem(t.add(k, t.const(off)))), 'nd'))
                    if o.tail is not None:
                        raise Unsupported('array arithmetic of symbolic length', node)
                    n = len(o.items) if n is None else n
                    if n != len(o.items):
                        raise Unsupported('array shapes', node)
            xs = la.items if la is not None else [a] * n
            ys = lb.items if lb is not None else [b] * n
            return self.alloc(st, ListObj([self.arith(st, op, self.numeric(x, node), self.numeric(y, node), node)
                                           for x, y in zip(xs, ys)], None, 'nd'))
        if isinstance(op, ast.Add) and la is not None and lb is not None:
            r = la.copy()
            ref = self.alloc(st, r)
            self.list_extend(st, ref, b, node)
            return ref
        if isinstance(op, ast.Mult):
            o, k = (la, b) if la is not None else (lb, a)
            if o.tail is None and isinstance(k, T) and t.is_const(k):
                return self.alloc(st, ListObj(o.items * int(t.cval(k))))
            if o.tail is None and len(o.items) == 1 and isinstance(k, T) and k.isint:
                x = o.items[0]
                if isinstance(x, Ref):
                    raise Unsupported('list repetition of objects', node)
                return self.alloc(st, ListObj([], Tail(t.pos(k), lambda i: x)))
        raise Unsupported('list operation', node)

    def list_extend(self, st, ref, v, node):
        o = self.wobj(st, ref)
        src = self.listobj(st, v)
        if src is None and isinstance(v, SymIter):
            if o.tail is not None:
                raise Unsupported('extend after symbolic tail', node)
            o.tail = Tail(v.n, v.fn)
            return
        if src is not None and src.tail is not None and not t.is_const(src.tail.n):
            if o.tail is not None:
                raise Unsupported('extend after symbolic tail', node)
            o.items = o.items + list(src.items)
            o.tail = src.tail
            return
        vals = self.as_seq(st, v, node)
        if o.tail is not None:
            if not vals:
                return
            raise Unsupported('extend after symbolic tail', node)
        o.items = o.items + list(vals)

    def numeric(self, v, node):
        if isinstance(v, T):
            return t.num(v)
        if isinstance(v, Cx):
            return v
        if isinstance(v, (int, float, F)):
            return t.num(v)
        raise Unsupported('number expected, got %s' % (type(v).__name__ if v is not None else 'None'), node)

    def arith(self, st, op, a, b, node):
        if isinstance(a, Cx) or isinstance(b, Cx):
            return self.carith(st, op, a, b, node)
        if isinstance(op, ast.Add):
            return t.add(a, b)
        if isinstance(op, ast.Sub):
            return t.sub(a, b)
        if isinstance(op, ast.Mult):
            return t.mul(a, b)
        if isinstance(op, ast.Div):
            self.oblige(st, 'div', t.not_(t.eq0(b)), node, 'divisor is not zero')
            return t.div(a, b)
        if isinstance(op, ast.Pow):
            return self.pow(st, a, b, node)
        if isinstance(op, ast.FloorDiv):
            self.oblige(st, 'div', t.not_(t.eq0(b)), node, 'divisor is not zero')
            return t.app('floor', t.div(a, b))
        if isinstance(op, ast.Mod):
            self.oblige(st, 'div', t.not_(t.eq0(b)), node, 'divisor is not zero')
            return t.sub(a, t.mul(b, t.app('floor', t.div(a, b))))
        raise Unsupported('operator ' + type(op).__name__, node)

    def pow(self, st, a, b, node):
        if t.is_const(b):
            c = t.cval(b)
            if c.denominator == 1 and abs(c) <= 64:
                if c < 0:
                    self.oblige(st, 'div', t.not_(t.eq0(a)), node, 'base of negative power is not zero')
                return t.powi(a, int(c))
            if c > 0:
                self.oblige(st, 'power', t.le(t.ZERO, a), node, 'base of fractional power is not negative')
            else:
                self.oblige(st, 'power', t.lt(t.ZERO, a), node, 'base of fractional power is positive')
            return t.power(a, b)
        if t.is_const(a) and t.cval(a) > 0:
            return t.app('pow', a, b)
        self.oblige(st, 'power', t.lt(t.ZERO, a), node, 'base of power is positive')
        return t.app('pow', a, b)

    def carith(self, st, op, a, b, node):
        a, b = cx(a), cx(b)
        if isinstance(op, ast.Add):
            return Cx(t.add(a.re, b.re), t.add(a.im, b.im))
        if isinstance(op, ast.Sub):
            return Cx(t.sub(a.re, b.re), t.sub(a.im, b.im))
        if isinstance(op, ast.Mult):
            return Cx(t.sub(t.mul(a.re, b.re), t.mul(a.im, b.im)), t.add(t.mul(a.re, b.im), t.mul(a.im, b.re)))
        if isinstance(op, ast.Div):
            if b.im is t.ZERO:
                self.oblige(st, 'div', t.not_(t.eq0(b.re)), node, 'divisor is not zero')
                return Cx(t.div(a.re, b.re), t.div(a.im, b.re))
            d = t.add(t.mul(b.re, b.re), t.mul(b.im, b.im))
            self.oblige(st, 'div', t.not_(t.and_(t.eq0(b.re), t.eq0(b.im))), node, 'divisor is not zero')
            re = t.div(t.add(t.mul(a.re, b.re), t.mul(a.im, b.im)), d)
            im = t.div(t.sub(t.mul(a.im, b.re), t.mul(a.re, b.im)), d)
            return Cx(re, im)
        if isinstance(op, ast.Pow) and b.im is t.ZERO and t.is_const(b.re) and t.cval(b.re).denominator == 1 \
                and 0 <= t.cval(b.re) <= 8:
            r = Cx(t.ONE, t.ZERO)
            for _ in range(int(t.cval(b.re))):
                r = self.carith(st, ast.Mult(), r, a, node)
            return r
        raise Unsupported('complex operator', node)

    def e_UnaryOp(self, st, n):
        v = self.ev(st, n.operand)
        if isinstance(n.op, ast.Not):
            return t.not_(self.truth(st, v, n))
        if isinstance(n.op, ast.USub):
            lo = self.listobj(st, v)
            if lo is not None and lo.kind == 'nd':
                return self.list_binop(st, ast.Sub(), t.ZERO, v, None, lo, n)
            v = self.numeric(v, n)
            if isinstance(v, Cx):
                return Cx(t.neg(v.re), t.neg(v.im))
            return t.neg(v)
        if isinstance(n.op, ast.UAdd):
            return self.numeric(v, n)
        raise Unsupported('unary operator', n)

    def truth(self, st, v, node):
        if isinstance(v, T):
            if t.is_bool(v):
                return v
            return t.not_(t.eq0(v))
        if isinstance(v, bool):
            return t.boolc(v)
        if v is None:
            return t.FALSE
        if isinstance(v, str):
            return t.boolc(bool(v))
        if isinstance(v, tuple):
            return t.boolc(bool(v))
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, DictObj):
                return t.boolc(bool(o.items))
            if o.tail is None or o.items:
                return t.boolc(bool(o.items))
            return t.lt(t.ZERO, o.tail.n)
        if isinstance(v, Cx):
            return t.not_(t.and_(t.eq0(v.re), t.eq0(v.im)))
        if isinstance(v, (Func, Builtin, ModRef)):
            return t.TRUE
        raise Unsupported('truth value of %s' % type(v).__name__, node)

    def under(self, st, conds, fn):
        saved = st.pc
        for c in conds:
            st.assume(c)
        snap = st.heap
        try:
            return fn()
        finally:
            st.pc = saved

    def e_BoolOp(self, st, n):
        vals = []
        conds = []
        isand = isinstance(n.op, ast.And)
        for e in n.values:
            v = self.under(st, conds, lambda: self.ev(st, e))
            b = self.truth(st, v, n)
            vals.append((v, b))
            if (isand and b is t.FALSE) or (not isand and b is t.TRUE):
                break
            conds.append(b if isand else t.not_(b))
        if all(isinstance(v, T) and t.is_bool(v) for v, b in vals):
            return t.and_(*[b for v, b in vals]) if isand else t.or_(*[b for v, b in vals])
        r = vals[-1][0]
        for v, b in reversed(vals[:-1]):
            if b is t.TRUE:
                r = r if isand else v
                continue
            if b is t.FALSE:
                r = v if isand else r
                continue
            try:
                r = self.merge_val(r, v, (st, st, st, b, {})) if isand else self.merge_val(v, r, (st, st, st, b, {}))
            except Unmergeable:
                # used as a condition only
                return t.and_(*[b for v, b in vals]) if isand else t.or_(*[b for v, b in vals])
        return r

    def e_Compare(self, st, n):
        left = self.ev(st, n.left)
        res = []
        for op, rn in zip(n.ops, n.comparators):
            right = self.under(st, res, lambda: self.ev(st, rn))
            res.append(self.compare(st, op, left, right, n))
            left = right
        return t.and_(*res)

    def compare(self, st, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            r = self.equal(st, a, b, node, isinstance(op, (ast.Is, ast.IsNot)))
            return t.not_(r) if neg else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, a, b, node)
            return t.not_(r) if isinstance(op, ast.NotIn) else r
        a, b = self.numeric(a, node), self.numeric(b, node)
        if isinstance(a, Cx) or isinstance(b, Cx):
            raise Unsupported('ordering of complex numbers', node)
        if isinstance(op, ast.Lt):
            return t.lt(a, b)
        if isinstance(op, ast.LtE):
            return t.le(a, b)
        if isinstance(op, ast.Gt):
            return t.lt(b, a)
        return t.le(b, a)

    def equal(self, st, a, b, node, identity=False):
        if a is None or b is None:
            return t.boolc(a is None and b is None)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return t.boolc(a == b)
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('comparison of opaque values', node)
            return t.FALSE
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return t.boolc(a.name == b.name)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return t.FALSE
            return t.and_(*[self.equal(st, x, y, node) for x, y in zip(a, b)])
        if isinstance(a, (T, Cx)) and isinstance(b, (T, Cx)):
            if isinstance(a, T) and isinstance(b, T):
                if t.is_bool(a) and t.is_bool(b):
                    return t.iff(a, b)
                return t.eq(t.num(a), t.num(b))
            a, b = cx(a), cx(b)
            return t.and_(t.eq(a.re, b.re), t.eq(a.im, b.im))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return t.TRUE
            oa, ob = self.obj(st, a), self.obj(st, b)
            if isinstance(oa, ListObj) and isinstance(ob, ListObj) and oa.tail is None and ob.tail is None and not identity:
                if len(oa.items) != len(ob.items):
                    return t.FALSE
                return t.and_(*[self.equal(st, x, y, node) for x, y in zip(oa.items, ob.items)])
        raise Unsupported('equality', node)

    def contains(self, st, a, b, node):
        if isinstance(b, Ref):
            o = self.obj(st, b)
            if isinstance(o, DictObj):
                k = self.key(a, node)
                if k not in o.items:
                    return t.FALSE
                v = o.items[k]
                return v.cond if isinstance(v, Maybe) else t.TRUE
            if o.tail is not None:
                raise Unsupported('membership in symbolic list', node)
            b = tuple(o.items)
        if isinstance(b, RangeVal):
            a = self.numeric(a, node)
            if b.step is t.ONE and a.isint:
                return t.and_(t.le(b.a, a), t.lt(a, b.b))
            raise Unsupported('membership in range', node)
        if isinstance(b, tuple):
            return t.or_(*[self.equal(st, a, x, node) for x in b])
        if isinstance(b, str) and isinstance(a, str):
            return t.boolc(a in b)
        raise Unsupported('membership', node)

    def e_IfExp(self, st, n):
        c = self.truth(st, self.ev(st, n.test), n)
        if c is t.TRUE:
            return self.ev(st, n.body)
        if c is t.FALSE:
            return self.ev(st, n.orelse)
        if self.quick_entails(st, c) or (self.prune and self.entails(st, c)):
            return self.ev(st, n.body)
        if self.quick_entails(st, t.not_(c)) or (self.prune and self.entails(st, t.not_(c))):
            return self.ev(st, n.orelse)
        s1, s2 = st.fork(), st.fork()
        s1.assume(c)
        s2.assume(t.not_(c))
        s1.ret = self.ev(s1, n.body)
        s2.ret = self.ev(s2, n.orelse)
        s1.status = s2.status = 'run'
        sr = st.ret
        try:
            m = self.merge(s1, s2, st.pc)
        except Unmergeable as e:
            raise Unsupported('conditional expression: %s' % e, n)
        v = m.ret
        st.heap, st.frames, st.pc = m.heap, m.frames, m.pc
        return v

    def e_NamedExpr(self, st, n):
        v = self.ev(st, n.value)
        self.assign(st, n.target, v)
        return v

    def e_Lambda(self, st, n):
        return Func(n, self.cur_mod, closure=dict(st.frames[-1]))

    def e_JoinedStr(self, st, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(st, v.value)
                if v.conversion != -1 or v.format_spec is not None:
                    return Opaque('str')
                parts.append(x)
            else:
                parts.append(v.value)
        return text(parts)

    def e_Attribute(self, st, n):
        v = self.ev(st, n.value)
        a = n.attr
        if isinstance(v, ModRef):
            m = find_module(v.name)
            if m is not None:
                if a in m.defs:
                    return self.global_name(st, a, n, m)
                if find_module(v.name + '.' + a):
                    return ModRef(v.name + '.' + a)
                raise Unsupported('attribute %s.%s' % (v.name, a), n)
            c = {'math.pi': F('3.141592653589793'), 'numpy.pi': F('3.141592653589793'), 'math.e': F('2.718281828459045')}
            if v.name + '.' + a in c:
                return t.const(c[v.name + '.' + a])
            if v.name + '.' + a in self.externals and not callable(self.externals[v.name + '.' + a]):
                return self.externals[v.name + '.' + a]
            if v.name + '.' + a in ('numpy.ma', 'numpy.lib', 'numpy.linalg', 'os.path', 'shapely.geometry', 'shapely.ops'):
                return ModRef(v.name + '.' + a)
            return Builtin(v.name + '.' + a)
        if isinstance(v, Builtin) and v.name + '.' + a in self.externals:
            return Builtin(v.name + '.' + a)
        if isinstance(v, (T, Cx)):
            if a == 'real':
                return v.re if isinstance(v, Cx) else v
            if a == 'imag':
                return v.im if isinstance(v, Cx) else t.ZERO
        if isinstance(v, Opaque) and ('%s.%s' % (v.what, a)) in self.externals:
            e = self.externals['%s.%s' % (v.what, a)]
            if not callable(e):
                return e
            if getattr(e, 'is_property', False):
                return e(self, st, v)
        return BoundMethod(v, a)

    def e_Subscript(self, st, n):
        o = self.ev(st, n.value)
        if isinstance(n.slice, ast.Slice):
            return self.slice(st, o, n)
        k = self.ev(st, n.slice)
        return self.getitem(st, o, k, n)

    def slice(self, st, o, n):
        sl = n.slice
        lo = self.ev(st, sl.lower) if sl.lower is not None else None
        hi = self.ev(st, sl.upper) if sl.upper is not None else None
        step = self.ev(st, sl.step) if sl.step is not None else None

        def c(x):
            if x is None:
                return None
            if isinstance(x, T) and t.is_const(x) and t.cval(x).denominator == 1:
                return int(t.cval(x))
            raise Unsupported('symbolic slice', n)
        if isinstance(o, (tuple, str)):
            return o[c(lo):c(hi):c(step)]
        ob = self.listobj(st, o)
        if ob is None:
            raise Unsupported('slice', n)
        if ob.tail is None:
            try:
                return self.alloc(st, ListObj(ob.items[c(lo):c(hi):c(step)], None, ob.kind))
            except Unsupported:
                pass
        if step is not None and not (isinstance(step, T) and t.is_const(step) and t.cval(step) in (1, -1)):
            raise Unsupported('slice step', n)
        L = ob.length()

        def norm(x, dflt):
            if x is None:
                return dflt
            if t.is_const(x) and t.cval(x) < 0:
                return t.maxv(t.add(L, x), t.ZERO)
            if t.is_const(x) or self.entails(st, t.le(t.ZERO, x)):
                return t.minv(x, L) if not self.entails(st, t.le(x, L)) else x
            raise Unsupported('slice bound of unknown sign', n)
        if step is not None and t.cval(step) == -1:
            if lo is None and hi is None:
                return self.alloc(st, ListObj([], Tail(L, lambda k: self.list_get(st, ob, t.sub(t.sub(L, t.ONE), k), n, check=False)), ob.kind))
            raise Unsupported('reverse slice', n)
        a, b = norm(lo, t.ZERO), norm(hi, L)
        if t.is_const(a):
            ia = int(t.cval(a))
            if ia >= len(ob.items) and ob.tail is not None:
                off = ia - len(ob.items)
                ln = t.sub(b, a)
                if not self.entails(st, t.le(t.ZERO, ln)):
                    ln = t.pos(ln)
                fn = ob.tail.fn
                return self.alloc(st, ListObj([], Tail(ln, lambda k: fn(t.add(k, t.const(off)))), ob.kind))
            if b is L:
                return self.alloc(st, ListObj(ob.items[ia:], ob.tail, ob.kind))
        ln = t.sub(b, a)
        if not self.entails(st, t.le(t.ZERO, ln)):
            ln = t.pos(ln)
        return self.alloc(st, ListObj([], Tail(ln, lambda k: self.list_get(st, ob, t.add(a, k), n, check=False)), ob.kind))

    def getitem(self, st, o, k, node):
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if isinstance(ob, DictObj):
                kk = self.key(k, node)
                if kk not in ob.items:
                    raise Unsupported('missing key %r' % (kk,), node)
                v = ob.items[kk]
                if isinstance(v, Maybe):
                    self.oblige(st, 'key', v.cond, node, 'key %r is present' % (kk,))
                    v = v.val
                return v
            return self.list_get(st, ob, self.numeric(k, node), node)
        if isinstance(o, tuple):
            k = self.numeric(k, node)
            if t.is_const(k):
                i = int(t.cval(k))
                if -len(o) <= i < len(o):
                    return o[i]
                raise Unsupported('tuple index', node)
            return self.list_get(st, ListObj(list(o)), k, node)
        raise Unsupported('subscript of %s' % type(o).__name__, node)

    def list_get(self, st, ob, k, node, check=True):
        n = len(ob.items)
        if not k.isint:
            if t.is_const(k) and t.cval(k).denominator == 1:
                pass
            else:
                raise Unsupported('non-integer index', node)
        if t.is_const(k):
            i = int(t.cval(k))
            if 0 <= i < n:
                return ob.items[i]
            if i < 0:
                if ob.tail is None:
                    if -n <= i:
                        return ob.items[i]
                    self.oblige(st, 'index', t.FALSE, node, 'index in range')
                    raise Unsupported('index out of range', node)
                # from the end
                L = ob.length()
                if check:
                    self.oblige(st, 'index', t.le(t.const(-i), L), node, 'index in range')
                if self.entails(st, t.le(t.const(-i), ob.tail.n)):
                    return ob.tail.fn(t.add(ob.tail.n, t.const(i)))
                raise Unsupported('negative index near the prefix', node)
            if ob.tail is None:
                self.oblige(st, 'index', t.FALSE, node, 'index in range')
                raise Unsupported('index out of range', node)
            if check:
                self.oblige(st, 'index', t.lt(t.const(i), ob.length()), node, 'index in range')
            return ob.tail.fn(t.const(i - n))
        L = ob.length()
        # sign of the index
        nonneg = not check or self.entails(st, t.le(t.ZERO, k))
        if not nonneg:
            if check:
                self.oblige(st, 'index', t.and_(t.le(t.neg(L), k), t.lt(k, L)), node, 'index in range')
            if self.entails(st, t.lt(k, t.ZERO)):
                return self.list_get2(st, ob, t.add(k, L), node)
            x = self.list_get2(st, ob, k, node)
            y = self.list_get2(st, ob, t.add(k, L), node)
            return self.merge_val(x, y, (st, st, st, t.le(t.ZERO, k), {}))
        if check:
            self.oblige(st, 'index', t.lt(k, L), node, 'index in range')
        return self.list_get2(st, ob, k, node)

    def list_get2(self, st, ob, k, node):
        n = len(ob.items)
        if ob.tail is not None:
            if n == 0 or self.entails(st, t.le(t.const(n), k)):
                return ob.tail.fn(t.sub(k, t.const(n)))
            r = ob.tail.fn(t.sub(k, t.const(n)))
            rng = range(n)
        else:
            if n == 0:
                raise Unsupported('index into empty list', node)
            r = ob.items[-1]
            rng = range(n - 1)
        for i in reversed(rng):
            try:
                r = self.merge_val(ob.items[i], r, (st, st, st, t.eq(k, t.const(i)), {}))
            except Unmergeable as e:
                raise Unsupported('indexing a list of mixed values', node)
        return r

    def setitem(self, st, o, k, v, node):
        if not isinstance(o, Ref):
            raise Unsupported('item assignment', node)
        ob = self.obj(st, o)
        if isinstance(ob, DictObj):
            kk = self.key(k, node)
            d = self.wobj(st, o)
            if kk in d.items and isinstance(d.items[kk], Maybe):
                pass
            d.items[kk] = v
            return
        k = self.numeric(k, node)
        if t.is_const(k):
            i = int(t.cval(k))
            d = self.wobj(st, o)
            n = len(d.items)
            if -n <= i < n and d.tail is None or 0 <= i < n:
                d.items[i] = v
                return
            if d.tail is None:
                self.oblige(st, 'index', t.FALSE, node, 'index in range')
                raise Unsupported('index out of range', node)
            if i < 0:
                idx = t.add(d.tail.n, t.const(i))
                if not self.entails(st, t.le(t.ZERO, idx)):
                    raise Unsupported('negative index near the prefix', node)
            else:
                self.oblige(st, 'index', t.lt(t.const(i - n), d.tail.n), node, 'index in range')
                idx = t.const(i - n)
            self.tail_set(st, d, idx, v)
            return
        if not k.isint:
            raise Unsupported('non-integer index', node)
        d = self.wobj(st, o)
        n = len(d.items)
        if d.tail is not None:
            if not self.entails(st, t.le(t.const(n), k)):
                raise Unsupported('symbolic index near the prefix', node)
            self.oblige(st, 'index', t.lt(k, d.length()), node, 'index in range')
            self.tail_set(st, d, t.sub(k, t.const(n)), v)
            return
        nonneg = not check or self.entails(st, t.le(t.ZERO, k))
        if not nonneg:
            raise Unsupported('index of unknown sign', node)
        self.oblige(st, 'index', t.lt(k, t.const(n)), node, 'index in range')
        for i in range(n):
            d.items[i] = self.merge_val(v, d.items[i], (st, st, st, t.eq(k, t.const(i)), {}))

    def tail_set(self, st, d, idx, v):
        old = d.tail
        ex = self
        d.tail = Tail(old.n, lambda k: ex.merge_val(v, old.fn(k), (st, st, st, t.eq(k, idx), {})), (idx, v, old))

    def as_seq(self, st, v, node):
        c = self.iter_concrete(st, v, node)
        if c is None:
            raise Unsupported('sequence of symbolic length', node)
        return c

    # -- comprehensions
    def e_ListComp(self, st, n):
        r = self.comp(st, n.generators, lambda s: self.ev(s, n.elt), n)
        if isinstance(r, SymIter):
            return self.alloc(st, ListObj([], Tail(r.n, r.fn)))
        return self.alloc(st, ListObj(r))

    def e_GeneratorExp(self, st, n):
        return self.comp(st, n.generators, lambda s: self.ev(s, n.elt), n)

    e_SetComp = None

    def e_DictComp(self, st, n):
        r = self.comp(st, n.generators, lambda s: (self.ev(s, n.key), self.ev(s, n.value)), n)
        if isinstance(r, SymIter):
            raise Unsupported('dict comprehension of symbolic length', n)
        return self.alloc(st, DictObj({self.key(k, n): v for k, v in r}))

    def comp(self, st, gens, elt, node, scope=None):
        g = gens[0]
        it = self.ev(st, g.iter)
        seq = self.iter_concrete(st, it, node)
        saved = dict(st.frames[-1])
        names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]

        def restore():
            for nm in names:
                if nm in saved:
                    st.frames[-1][nm] = saved[nm]
                else:
                    st.frames[-1].pop(nm, None)
        if seq is None:
            if len(gens) != 1 or g.ifs:
                raise Unsupported('comprehension over symbolic length with filter or nesting', node)
            si = self.iter_symbolic(st, it, node)
            kv = self.fresh('k', True)
            # definedness for an arbitrary element
            rec = st.fork()
            rec.assume(t.le(t.ZERO, kv))
            rec.assume(t.lt(kv, si.n))
            self.assign(rec, g.target, si.fn(kv))
            nh = len(rec.heap)
            val = elt(rec)
            for i, o in rec.heap.items():
                if i in st.heap and st.heap[i] is not o:
                    raise Unsupported('side effect in comprehension', node)
            ka = t.atom_of(kv)
            if isinstance(val, Ref):
                return SymIter(si.n, lambda k: self.sym_elem_obj(st, rec, val, ka, k, node))
            return SymIter(si.n, lambda k: subst_val(val, {ka: k}))
        out = []
        for x in seq:
            self.assign(st, g.target, x)
            ok = t.TRUE
            for c in g.ifs:
                ok = t.and_(ok, self.truth(st, self.ev(st, c), node))
            if ok is t.FALSE:
                continue
            if ok is not t.TRUE:
                raise Unsupported('symbolic comprehension filter', node)
            if len(gens) > 1:
                sub = self.comp(st, gens[1:], elt, node)
                if isinstance(sub, SymIter):
                    raise Unsupported('nested symbolic comprehension', node)
                out.extend(sub)
            else:
                out.append(elt(st))
        restore()
        return out

    def sym_elem_obj(self, st, rec, ref, ka, k, node):
        o = rec.heap[ref.id]

        def sub(b):
            if isinstance(b, Ref):
                return self.sym_elem_obj(st, rec, b, ka, k, node)
            if isinstance(b, tuple):
                return tuple(sub(x) for x in b)
            return subst_val(b, {ka: k})
        if isinstance(o, DictObj):
            r = DictObj({a: sub(b) for a, b in o.items.items()})
        else:
            tail = o.tail
            if tail is not None:
                tail = Tail(t.subst(tail.n, {ka: k}), lambda j, f=tail.fn: subst_val(f(j), {ka: k}))
            r = ListObj([sub(b) for b in o.items], tail, o.kind)
        r.frozen = True               # one of many elements: writing to it would have to reach the list
        self.nid += 1
        FROZEN[self.nid] = r
        return Ref(self.nid)

    # -- calls
    def e_Call(self, st, n):
        f = self.ev(st, n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.as_seq(st, self.ev(st, a.value), a))
            else:
                args.append(self.ev(st, a))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(st, k.value)
                if isinstance(d, Ref) and isinstance(self.obj(st, d), DictObj):
                    for kk, v in self.obj(st, d).items.items():
                        if isinstance(v, Maybe) or not isinstance(kk, str):
                            raise Unsupported('** argument', n)
                        kwargs[kk] = v
                    continue
                raise Unsupported('** argument', n)
            kwargs[k.arg] = self.ev(st, k.value)
        return self.call(st, f, args, kwargs, n)

    def call(self, st, f, args, kwargs, n):
        if isinstance(f, Func):
            return self.call_function(st, f, args, kwargs, n)
        if isinstance(f, Builtin):
            from . import builtins_ as bi
            return bi.call(self, st, f.name, args, kwargs, n)
        if isinstance(f, BoundMethod):
            from . import builtins_ as bi
            return bi.method(self, st, f.obj, f.name, args, kwargs, n)
        if isinstance(f, Opaque) and ('call:' + f.what) in self.externals:
            return self.externals['call:' + f.what](self, st, args, kwargs, n)
        raise Unsupported('call of %s' % type(f).__name__, n)

    def e_Starred(self, st, n):
        raise Unsupported('starred', n)


def cx(v):
    if isinstance(v, Cx):
        return v
    return Cx(t.num(v), t.ZERO)


def subst_val(v, mp):
    if isinstance(v, T):
        return t.subst(v, mp)
    if isinstance(v, Cx):
        return Cx(t.subst(v.re, mp), t.subst(v.im, mp))
    if isinstance(v, tuple):
        return tuple(subst_val(x, mp) for x in v)
    if isinstance(v, Opaque) and v.data is not None:
        return Opaque(v.what, subst_val(v.data, mp))
    if isinstance(v, (str, Opaque)) or v is None:
        return v
    if isinstance(v, Maybe):
        return Maybe(subst_val(v.val, mp), t.subst(v.cond, mp))
    raise Unsupported('element value')
