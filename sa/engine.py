"""Abstract interpreter: collecting semantics over sets of abstract states.

Every evaluation function returns a list of (value, state) pairs; values may be
abrupt (Raised / Unwind).  Statements return (out, state) pairs with out one of
('next',) ('ret', v) ('exc', ExcV) ('brk',) ('cnt',) ('gexit', payload).

Loops are run to a fixpoint over abstract states; calls of analysed functions
are inlined; nothing of the analysed package is ever executed.
"""
import ast
import math
import builtins as _bi

import collections
import time
import weakref
from values import *
from source import (Broken, Scope, scope_of, comp_targets, live_at, FUNCS,
                    COMPS)

MAXDEPTH = 40


def abrupt(v):
    return isinstance(v, (Raised, Unwind))


def sname(n, extra=''):
    return f"{getattr(n, '_file', '?')}:{getattr(n, 'lineno', 0)}{extra}"


class Fr:
    """Python side of an active frame (variables live in the state)."""
    __slots__ = ('ref', 'node', 'ctx', 'mod', 'on_yield', 'func', 'up')

    def __init__(self, ref, node, ctx, mod, on_yield=None, func=None, up=None):
        self.ref = ref
        self.node = node
        self.ctx = ctx
        self.mod = mod
        self.on_yield = on_yield
        self.func = func or self
        self.up = up


class Finding:
    def __init__(self, rule, msg, where, func, path):
        self.rule = rule
        self.msg = msg
        self.where = where
        self.func = func
        self.path = path

    def key(self):
        return (self.rule, self.func, self.msg)


# ---------------------------------------------------------------------------
# exception classes

_EXC_ALIAS = {
    'asyncio.TimeoutError': 'TimeoutError',
    'asyncio.exceptions.TimeoutError': 'TimeoutError',
    'concurrent.futures.TimeoutError': 'TimeoutError',
    'asyncio.exceptions.CancelledError': 'asyncio.CancelledError',
    'asyncio.exceptions.InvalidStateError': 'asyncio.InvalidStateError',
    'asyncio.queues.QueueEmpty': 'asyncio.QueueEmpty',
    'asyncio.queues.QueueFull': 'asyncio.QueueFull',
    'IOError': 'OSError', 'EnvironmentError': 'OSError',
    'socket.error': 'OSError', 'os.error': 'OSError',
    'select.error': 'OSError', 'socket.timeout': 'TimeoutError',
}
_EXC_BASE = {
    'asyncio.CancelledError': 'BaseException',
    'concurrent.futures.CancelledError': 'concurrent.futures._base.Error',
    'concurrent.futures._base.Error': 'Exception',
    'asyncio.InvalidStateError': 'Exception',
    'concurrent.futures.InvalidStateError': 'concurrent.futures._base.Error',
    'asyncio.QueueEmpty': 'Exception', 'asyncio.QueueFull': 'Exception',
    'queue.Empty': 'Exception', 'queue.Full': 'Exception',
    'concurrent.futures.BrokenExecutor': 'RuntimeError',
}


def exc_canon(path):
    return _EXC_ALIAS.get(path, path)


def is_exc_path(path):
    path = exc_canon(path)
    if path in _EXC_BASE:
        return True
    o = getattr(_bi, path, None) if '.' not in path else None
    return isinstance(o, type) and issubclass(o, BaseException)


_BUILTIN = {
    'list': (list,), 'set': (set, frozenset), 'iterator': (type(iter(())),),
    'deque': (collections.deque,),
    'dict': (dict, collections.OrderedDict, collections.defaultdict,
             collections.UserDict, weakref.WeakKeyDictionary,
             weakref.WeakValueDictionary),
}


def _has_attr(kind, name):
    ts = _BUILTIN.get(kind)
    return ts is None or any(hasattr(t, name) for t in ts)


# Everything reported by any interpreter of this run: still valid if the
# analysis can't be completed.
REPORTED = {}
START = [time.time()]
LIMIT, LIMIT_FOUND = 700, 150


class Interp:
    def __init__(self, program, harness, budget=3_000_000):
        self.p = program
        self.h = harness
        harness.I = self
        self.findings = {}
        self.muted = False
        self.check = 0
        self.budget = budget
        self.steps = 0
        self.stack = []       # active frames
        self.temps = []       # values held by evaluations in progress
        self.pos = []         # where the running code is (stepwise only)
        self.stepwise = harness.stepwise
        self.user_excs = {}
        self.functions = set()
        self.opaque = {}
        self.nodes = set()
        self._mods = set()
        self.streams = None
        if harness.machine:
            import streams
            self.streams = streams.Streams()
            self.sm = streams
        import models
        self.models = models.MODELS
        self.methods = models.METHODS
        self.modelmod = models

    # -- reporting -------------------------------------------------------
    def report(self, rule, msg, node, st):
        fn = getattr(node, '_qual', '') or getattr(node, '_self_qual', '')
        f = Finding(rule, msg, sname(node), fn, st.path() if st else [])
        self.findings.setdefault(f.key(), f)
        if not self.muted:
            REPORTED.setdefault(f.key(), f)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise Broken('analysis budget exceeded')
        if self.steps >= self.check:
            self.check = self.steps + 2000
            t = time.time() - START[0]
            if t > LIMIT or REPORTED and t > LIMIT_FOUND:
                raise Broken('analysis takes too long')

    # -- modules -----------------------------------------------------------
    def load(self, name, st):
        """Abstractly execute a module body; returns state."""
        ref = Ref(('mod', name))
        if name in self._mods or st.has(ref):
            return st
        m = self.p.modules.get(name)
        if m is None:
            raise Broken(f"module {name} not found")
        self._mods.add(name)
        st = st.with_obj(ref, HObj('frame', {
            '$parent': None, '$locals': frozenset(),
            '__name__': Const(name)}))
        fr = Fr(ref, m.tree, (), name)
        self.stack.append(ref)
        try:
            outs = self.ex_block(m.tree.body, st, fr)
        finally:
            self.stack.pop()
        res = [s for o, s in outs if o[0] == 'next']
        if not res:
            raise Broken(f"module {name} can't be evaluated: {outs[:1]}")
        if len(res) > 1:
            return self.h.pick_module_state(name, res)
        return res[0]

    def module_attr(self, mod, name, st):
        o = st.heap.get(('mod', mod))
        if o is None or name not in o.at:
            raise Broken(f"{mod}.{name} not found")
        return o.at[name]

    # -- states / sites --------------------------------------------------
    def first_free(self, st, make):
        """Names stay what they are: the first one not in use."""
        i = 0
        while True:
            r = make(i)
            if not (isinstance(r, Ref) and st.has(r)) and not any(
                    r in v.atoms() for v in self.temps):
                if isinstance(r, Ref) or not st.mentioned(r):
                    return r, st.kill(lambda k: mentions(k, r))
            elif not st.mentioned(r, r.oid if isinstance(r, Ref) else None) \
                    and r not in self.stack and not any(
                        r in v.atoms() for v in self.temps):
                return r, st.kill(lambda k: mentions(k, r)).without(r)
            i += 1
            if i > 40:
                raise Broken('too many objects to tell apart')

    def fresh(self, st, node, fr, tag='', kind=None):
        base = ('s', getattr(node, '_uid', -1), fr.ctx if fr else (), tag)
        if self.streams:
            return self.first_free(st, lambda i: Sym(base + (i,), kind))
        n0 = Sym(base + (0,), kind)
        live = st.mentioned(n0) or any(n0 in v.atoms() for v in self.temps)
        if live:
            i = 1
            while i < self.h.alloc_k and (st.mentioned(
                    Sym(base + (i,), kind)) or any(Sym(
                        base + (i,), kind) in v.atoms()
                        for v in self.temps)):
                i += 1
            for j in range(i, 0, -1):
                st = st.rename(Sym(base + (j - 1,), kind),
                               Sym(base + (j,), kind))
        else:
            st = st.kill(lambda k: mentions(k, n0))
        return n0, st

    def alloc(self, st, kind, node, fr, tag='', **at):
        base = (kind, getattr(node, '_uid', -1), fr.ctx if fr else (), tag)
        if self.streams:
            r, st = self.first_free(st, lambda i: Ref(base + (i,)))
            return r, st.with_obj(r, HObj(kind, at))
        r0 = Ref(base + (0,))
        if st.has(r0):
            if st.mentioned(r0, r0.oid) or any(
                    r0 in v.atoms() for v in self.temps):
                i = 1
                while i < self.h.alloc_k and st.has(Ref(base + (i,))):
                    i += 1
                for j in range(i, 0, -1):
                    st = st.rename(Ref(base + (j - 1,)), Ref(base + (j,)))
            else:
                st = st.kill(lambda k: mentions(k, r0)).without(r0)
        return r0, st.with_obj(r0, HObj(kind, at))

    def is_summary(self, v):
        if self.streams:
            return False
        k = self.h.alloc_k
        return (isinstance(v, Ref) and isinstance(v.oid, tuple)
                and v.oid[-1] == k and len(v.oid) == 5) or (
            isinstance(v, Sym) and isinstance(v.name, tuple)
            and v.name[0] == 's' and v.name[-1] == k)

    def gc(self, st):
        """Drop unreachable objects and facts about dead values."""
        roots = set()
        todo = [*self.stack]
        for v in self.temps:
            todo.extend(a for a in v.atoms())
        weak = self.h.weak
        from values import _atoms
        for k, v in st.mon.items():
            if k in weak:
                continue
            todo.extend(_atoms(v))
            todo.extend(_atoms(k))
        for k, o in st.heap.items():
            if k[0] == 'mod' or o.at.get('$keep'):
                todo.append(Ref(k))
        live = set()
        while todo:
            a = todo.pop()
            if a in live:
                continue
            live.add(a)
            if isinstance(a, Ref):
                o = st.heap.get(a.oid)
                if o is not None:
                    todo.extend(x for x in o.atoms() if x not in live)
        dead = [k for k in st.heap if Ref(k) not in live]

        def dead_atom(a):
            if isinstance(a, Ref):
                return a not in live
            return isinstance(a.name, tuple) and a.name[0] == 's' \
                and a not in live
        mon = st.mon
        for k in weak:
            if k in mon:
                n = tuple(t for t in mon[k] if not any(
                    dead_atom(a) for a in t.items[0].atoms()))
                if n != mon[k]:
                    if mon is st.mon:
                        mon = dict(mon)
                    mon[k] = n
        deadf = [k for k in st.facts if any(dead_atom(a) for a in _atoms(k))]
        if not dead and not deadf and mon is st.mon:
            return st
        h = st.heap
        if dead:
            h = {k: o for k, o in h.items() if Ref(k) in live}
        f = st.facts
        if deadf:
            f = dict(f)
            for k in deadf:
                del f[k]
        return State(h, f, mon, st.trace)

    @staticmethod
    def dedupe(pairs):
        seen, out = set(), []
        for v, st in pairs:
            k = (v, st.key())
            if k not in seen:
                seen.add(k)
                out.append((v, st))
        return out

    # -- combinators -------------------------------------------------------
    def bind(self, results, f):
        out = []
        for v, st in results:
            if abrupt(v):
                out.append((v, st))
            else:
                out.extend(f(v, st))
        return out

    def seq(self, nodes, st, fr, k):
        """Evaluate nodes in order, then k(values, st)."""
        def go(i, vals, st):
            if i == len(nodes):
                return k(vals, st)
            n = len(self.temps)
            self.temps.extend(vals)
            try:
                res = self.ev(nodes[i], st, fr)
            finally:
                del self.temps[n:]
            return self.bind(res, lambda v, s: go(i + 1, vals + [v], s))
        return go(0, [], st)

    def exc(self, path, node=None, origin='op', *args):
        return Raised(ExcV(exc_canon(path), True, origin, tuple(args)))

    # -- exception classes ---------------------------------------------
    def exc_mro(self, path):
        out = []
        while path:
            path = exc_canon(path)
            out.append(path)
            if path in self.user_excs:
                path = self.user_excs[path]
            elif path in _EXC_BASE:
                path = _EXC_BASE[path]
            else:
                o = getattr(_bi, path, None)
                if isinstance(o, type) and issubclass(o, BaseException):
                    out.extend(c.__name__ for c in o.__mro__[1:-1])
                    return out
                if path != 'BaseException':
                    out.extend(['Exception', 'BaseException'])
                return out
        return out

    def exc_match(self, exc, cls):
        """True / False / None (unknown)."""
        cls = exc_canon(cls)
        if cls in self.exc_mro(exc.cls):
            return True
        if not exc.exact and exc.cls in self.exc_mro(cls):
            r = self.h.exc_may_be(exc, cls)
            return r
        return False

    def class_path(self, v, st):
        """Exception path named by a class value, or None."""
        if isinstance(v, Ext) and is_exc_path(v.path):
            return exc_canon(v.path)
        if isinstance(v, Ref) and st.has(v) and st.obj(v).kind == 'class':
            return st.obj(v).get('excpath')
        return None

    # -- names -------------------------------------------------------------
    def lookup(self, name, st, fr, node):
        ref = fr.ref
        while ref is not None:
            o = st.heap.get(ref.oid)
            if o is None:
                break
            if name in o.at:
                return [(o.at[name], st)]
            if name in o.at['$locals']:
                return [(self.exc('NameError', node), st)]
            ref = o.at['$parent']
        if name == '__file__':
            return [(Sym('__file__', 'str'), st)]
        if hasattr(_bi, name):
            return [(Ext(exc_canon(name)), st)]
        if name == '__debug__':
            return [(TRUE, st)]
        return [(self.exc('NameError', node), st)]

    def store(self, name, val, st, fr):
        node = fr.node
        ref = fr.ref
        if isinstance(node, FUNCS):
            sc = scope_of(node)
            if name in sc.nonlocals:
                r = st.obj(ref).at['$parent']
                while r is not None:
                    o = st.heap.get(r.oid)
                    if o is None:
                        break
                    if name in o.at or name in o.at['$locals']:
                        return st.with_obj(r, o.put(name, val))
                    r = o.at['$parent']
                raise Broken(f"nonlocal {name} not found")
            if name in sc.globals:
                r = Ref(('mod', fr.mod))
                return st.with_obj(r, st.obj(r).put(name, val))
        return st.with_obj(ref, st.obj(ref).put(name, val))

    # -- blocks ------------------------------------------------------------
    def ex_block(self, stmts, st, fr):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                self.tick()
                for o, y in self.ex(s, x, fr):
                    if o[0] == 'next':
                        nxt.append(y)
                    else:
                        done.append((o, y))
            cur = [y for _, y in self.dedupe([(None, y) for y in nxt])]
            if len(cur) > 6:
                cur = [y for _, y in self.dedupe(
                    [(None, self.gc(y)) for y in cur])]
            if len(cur) > 4000:
                raise Broken(f"too many abstract states at {sname(s)}")
            if not cur:
                break
        return self.dedupe(done) + [(('next',), y) for y in cur]

    def ex(self, s, st, fr):
        self.nodes.add(s._uid)
        m = getattr(self, 'ex_' + type(s).__name__, None)
        if m is None:
            raise Broken(f"unsupported statement {type(s).__name__} "
                         f"at {sname(s)}")
        if self.stepwise:
            self.pos.append(s._uid)
            try:
                out = []
                for x in self.h.before_stmt(s, st, fr):
                    out.extend(m(s, x, fr))
                return out
            finally:
                self.pos.pop()
        return m(s, st, fr)

    def outs(self, results, k=None):
        """Expression results -> statement outcomes."""
        out = []
        for v, st in results:
            if isinstance(v, Raised):
                out.append((('exc', v.exc), st))
            elif isinstance(v, Unwind):
                out.append((('gexit', v.payload), st))
            elif k is None:
                out.append((('next',), st))
            else:
                out.extend(k(v, st))
        return out

    @staticmethod
    def to_val(outs, default=NONE):
        """Statement outcomes -> expression results."""
        res = []
        for o, st in outs:
            if o[0] == 'next':
                res.append((default, st))
            elif o[0] == 'ret':
                res.append((o[1], st))
            elif o[0] == 'exc':
                res.append((Raised(o[1]), st))
            elif o[0] == 'gexit':
                res.append((Unwind(o[1]), st))
            else:
                raise AssertionError(o)
        return res

    # -- statements --------------------------------------------------------
    def ex_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [(('next',), st)]
        return self.outs(self.ev(s.value, st, fr))

    def ex_Pass(self, s, st, fr):
        return [(('next',), st)]

    ex_Global = ex_Nonlocal = ex_Pass

    def ex_Return(self, s, st, fr):
        if s.value is None:
            return [(('ret', NONE), st)]
        return self.outs(self.ev(s.value, st, fr),
                         lambda v, x: [(('ret', v), x.note(s, 'return'))])

    def ex_Break(self, s, st, fr):
        return [(('brk',), st)]

    def ex_Continue(self, s, st, fr):
        return [(('cnt',), st)]

    def ex_Assign(self, s, st, fr):
        def k(v, x):
            outs = [(('next',), x)]
            for t in s.targets:
                nxt = []
                for o, y in outs:
                    if o[0] == 'next':
                        self.temps.append(v)
                        try:
                            nxt.extend(self.assign(t, v, y, fr))
                        finally:
                            self.temps.pop()
                    else:
                        nxt.append((o, y))
                outs = nxt
            return outs
        return self.outs(self.ev(s.value, st, fr), k)

    def ex_AnnAssign(self, s, st, fr):
        if s.value is None:
            if isinstance(fr.node, ast.ClassDef) and isinstance(
                    s.target, ast.Name):
                o = st.obj(fr.ref)
                a = o.get('$ann', ()) + (s.target.id,)
                st = st.with_obj(fr.ref, o.put('$ann', a))
            return [(('next',), st)]
        if isinstance(fr.node, ast.ClassDef) and isinstance(
                s.target, ast.Name):
            o = st.obj(fr.ref)
            st = st.with_obj(fr.ref, o.put(
                '$ann', o.get('$ann', ()) + (s.target.id,)))
        return self.outs(self.ev(s.value, st, fr),
                         lambda v, x: self.assign(s.target, v, x, fr))

    def ex_AugAssign(self, s, st, fr):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        _copy_meta(load, t)

        def k(vals, x):
            cur, v = vals
            if isinstance(cur, Ref) and x.obj(cur).kind in (
                    'list', 'set', 'dict', 'deque'):
                name = {'Add': 'extend', 'BitOr': 'update', 'Sub':
                        'difference_update', 'BitAnd': 'intersection_update',
                        }.get(type(s.op).__name__)
                if name:
                    return self.bind(
                        self.method(cur, name, [v], [], x, s, fr),
                        lambda _, y: [(cur, y)])
            return self.binop(type(s.op).__name__, cur, v, x, s, fr)
        res = self.seq([load, s.value], st, fr, k)
        return self.outs(res, lambda v, x: self.assign(t, v, x, fr))

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            return [(('next',), self.store(t.id, v, st, fr))]
        if isinstance(t, ast.Attribute):
            return self.outs(
                self.ev(t.value, st, fr),
                lambda o, x: self.outs(
                    self.set_attr(o, t.attr, v, x, t, fr)))
        if isinstance(t, ast.Subscript):
            return self.outs(self.seq(
                [t.value, t.slice], st, fr,
                lambda vs, x: self.set_item(vs[0], vs[1], v, x, t, fr)))
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.outs(self.unpack(v, t.elts, st, t, fr),
                             lambda items, x: self._assign_all(
                                 t.elts, items, x, fr))
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        raise Broken(f"unsupported target at {sname(t)}")

    def _assign_all(self, targets, items, st, fr):
        outs = [(('next',), st)]
        for t, v in zip(targets, items.items):
            nxt = []
            for o, x in outs:
                nxt.extend(self.assign(t, v, x, fr)
                           if o[0] == 'next' else [(o, x)])
            outs = nxt
        return outs

    def unpack(self, v, targets, st, node, fr):
        """-> Tup with exactly one value per target."""
        n = len(targets)
        star = [i for i, t in enumerate(targets)
                if isinstance(t, ast.Starred)]
        r = self.h.unpack(v, n, bool(star), st, node, fr)
        if r is not None:
            return r
        items = self.items_of(v, st)
        if items is not None and not any(isinstance(i, Star) for i in items):
            if star:
                i = star[0]
                m = len(items) - (n - 1)
                if m < 0:
                    return [(self.exc('ValueError', node), st)]
                ref, st = self.alloc(st, 'list', node, fr, 'unpack',
                                     items=tuple(items[i:i + m]))
                return [(Tup(tuple(items[:i]) + (ref,)
                             + tuple(items[i + m:])), st)]
            if len(items) != n:
                return [(self.exc('ValueError', node), st)]
            return [(Tup(tuple(items)), st)]
        if isinstance(v, Const):
            return [(self.exc('TypeError', node), st)]
        if self.streams:
            return self.bind(
                self.to_list(v, st, node, fr, 'unpack'),
                lambda r, x: self.unpack(r, targets, x, node, fr))
        if star:
            raise Broken(f"can't unpack {v!r} at {sname(node)}")
        if isinstance(v, GenV) or isinstance(v, (Term, Stream)) or (
                isinstance(v, Ref)):
            def collect(st):
                out = []
                for w, s in self.to_list(v, st, node, fr):
                    if abrupt(w):
                        out.append((w, s))
                        continue
                    its = s.obj(w).get('items')
                    if any(isinstance(i, Star) for i in its):
                        out.append((Tup(tuple(
                            Term('item', (v, Const(i)))
                            for i in range(n))), s))
                    elif len(its) != n:
                        out.append((self.exc('ValueError', node), s))
                    else:
                        out.append((Tup(tuple(its)), s))
                return out
            return collect(st)
        return [(Tup(tuple(Term('item', (v, Const(i))) for i in range(n))),
                 st)]

    def items_of(self, v, st):
        """Items of a fixed sequence, or None."""
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, NTup):
            return v.items
        if isinstance(v, Const) and isinstance(v.v, (str, bytes, tuple)):
            return tuple(Const(c) for c in v.v)
        if isinstance(v, Ref) and st.has(v):
            o = st.obj(v)
            if o.kind in ('list', 'deque'):
                return o.get('items')
        return None

    def ex_Delete(self, s, st, fr):
        outs = [(('next',), st)]
        for t in s.targets:
            nxt = []
            for o, x in outs:
                if o[0] != 'next':
                    nxt.append((o, x))
                elif isinstance(t, ast.Name):
                    ref = fr.ref
                    nxt.append((o, x.with_obj(ref, x.obj(ref).drop(t.id))))
                elif isinstance(t, ast.Subscript):
                    nxt.extend(self.outs(self.seq(
                        [t.value, t.slice], x, fr,
                        lambda vs, y, t=t: self.del_item(
                            vs[0], vs[1], y, t, fr))))
                elif isinstance(t, ast.Attribute):
                    nxt.extend(self.outs(self.ev(t.value, x, fr), lambda v, y:
                                         self._del_attr(v, t.attr, y)))
                else:
                    raise Broken(f"unsupported del at {sname(s)}")
            outs = nxt
        return outs

    def _del_attr(self, v, name, st):
        if isinstance(v, Ref):
            return [(('next',), st.with_obj(v, st.obj(v).drop(name)))]
        return [(('next',), st)]

    def ex_Assert(self, s, st, fr):
        def k(v, x):
            return [((('next',) if b else
                      ('exc', ExcV('AssertionError', True, 'op', ()))), y)
                    for b, y in self.truth(v, x, s, fr)]
        return self.outs(self.ev(s.test, st, fr), k)

    def ex_Raise(self, s, st, fr):
        if s.exc is None:
            f, cur = fr, None
            while f is not None and cur is None:
                cur = st.obj(f.ref).get('$exc') if st.has(f.ref) else None
                f = f.up
            if cur is None:
                cur = self.h.current_exc(st)
            if cur is None:
                return [(('exc', ExcV('RuntimeError', True, 'op', ())), st)]
            return [(('exc', cur), st.note(s, 're-raise'))]

        def k(vals, x):
            v = vals[0]
            out = []
            for e, y in self.instantiate_exc(v, x, s, fr):
                if isinstance(e, ExcV):
                    out.append((('exc', e), y.note(s, f'raise {e.cls}')))
                elif isinstance(e, Raised):
                    out.append((('exc', e.exc), y))
                else:
                    e2 = self.h.raise_value(e, y, s)
                    out.append((('exc', e2), y.note(s, 'raise')))
            return out
        nodes = [s.exc] + ([s.cause] if s.cause else [])
        out = []
        for v, x in self.seq(nodes, st, fr,
                             lambda vals, x: [(Tup(tuple(vals)), x)]):
            if abrupt(v):
                out.extend(self.outs([(v, x)]))
            else:
                out.extend(k(v.items, x))
        return out

    def instantiate_exc(self, v, st, node, fr):
        p = self.class_path(v, st)
        if p:
            return self.call(v, [], [], st, node, fr)
        return [(v, st)]

    def ex_If(self, s, st, fr):
        out = []
        for b, x in self.cond(s.test, st, fr):
            if isinstance(b, tuple):
                out.append((b, x))
            else:
                out.extend(self.ex_block(s.body if b else s.orelse, x, fr))
        return self.dedupe(out)

    def cond(self, test, st, fr):
        """-> (True|False|out, st)"""
        out = []
        for v, x in self.ev(test, st, fr):
            if isinstance(v, Raised):
                out.append((('exc', v.exc), x))
            elif isinstance(v, Unwind):
                out.append((('gexit', v.payload), x))
            else:
                out.extend(self.truth(v, x, test, fr))
        seen, res = set(), []
        for b, x in out:
            k = (b, x.key())
            if k not in seen:
                seen.add(k)
                res.append((b, x))
        return res

    def drop_dead(self, st, node, fr):
        """Forget variables which aren't read again."""
        if fr is None or not isinstance(fr.node, FUNCS):
            return st
        o = st.heap.get(fr.ref.oid)
        if o is None:
            return st
        live = live_at(fr.node, node)
        dead = [k for k in o.at if k not in live and k[0] != '$'
                and k in o.at['$locals']]
        if not dead:
            return st
        at = {k: v for k, v in o.at.items() if k not in dead}
        return st.with_obj(fr.ref, HObj(o.kind, at))

    def loop(self, st, step, node, fr=None):
        """Fixpoint of step: state -> [(ctl, state)], ctl 'again' or out."""
        seen = set()
        todo = [st]
        out = []
        n = 0
        while todo:
            x = self.gc(self.drop_dead(todo.pop(), node, fr))
            x = self.h.at_loop_head(node, x)
            k = x.key()
            if k in seen:
                continue
            seen.add(k)
            n += 1
            if n > self.h.max_loop_states:
                raise Broken(f"loop at {sname(node)} doesn't converge")
            for c, y in step(x):
                if c == 'again':
                    todo.append(y)
                else:
                    out.append((c, y))
        return self.dedupe(out)

    def ex_While(self, s, st, fr):
        def step(x):
            if self.stepwise:
                return [r for y in self.h.before_stmt(s, x, fr, True)
                        for r in turn(y)]
            return turn(x)

        def turn(x):
            res = []
            for b, y in self.cond(s.test, x, fr):
                if isinstance(b, tuple):
                    res.append((b, y))
                elif not b:
                    if s.orelse:
                        res.extend(self.ex_block(s.orelse, y, fr))
                    else:
                        res.append((('next',), y))
                else:
                    for o, z in self.ex_block(s.body, y, fr):
                        if o[0] in ('next', 'cnt'):
                            res.append(('again', z))
                        elif o[0] == 'brk':
                            res.append((('next',), z))
                        else:
                            res.append((o, z))
            return res
        return self.loop(st, step, s, fr)

    def ex_For(self, s, st, fr, is_async=False):
        def body(elem, x):
            res = []
            for o, y in self.assign(s.target, elem, x, fr):
                if o[0] != 'next':
                    res.append((o, y))
                    continue
                for o2, z in self.ex_block(s.body, y, fr):
                    res.append((('next',) if o2[0] == 'cnt' else o2, z))
            return res

        def k(it, x):
            res = []
            n = len(self.temps)
            self.temps.append(it)
            try:
                outs = self.for_each(it, x, s, fr, body, is_async)
            finally:
                del self.temps[n:]
            for o, y in outs:
                if o[0] == 'next':
                    res.extend(self.ex_block(s.orelse, y, fr))
                elif o[0] == 'brk':
                    res.append((('next',), y))
                else:
                    res.append((o, y))
            return res
        return self.dedupe(self.outs(self.ev(s.iter, st, fr), k))

    def ex_AsyncFor(self, s, st, fr):
        return self.ex_For(s, st, fr, True)

    # -- iteration -----------------------------------------------------
    def for_each(self, it, st, node, fr, body, is_async=False):
        """body(elem, st) -> outs; 'next' continues, anything else stops.
        Returns outs, ('next',) meaning exhausted."""
        r = self.h.for_each(it, st, node, fr, body, is_async)
        if r is not None:
            return r
        items = None if is_async else self.items_of(it, st)
        if items is not None and isinstance(it, Ref) and st.obj(it).get(
                'shared'):
            items = None
        if items is not None:
            return self._each_items(items, st, node, body)
        if isinstance(it, Coro):
            return [(('exc', ExcV('TypeError', True, 'op', ())), st)]
        if isinstance(it, GenV):
            return self.run_gen(it, st, node, fr, body)
        if isinstance(it, Term):
            f = self.modelmod.ITER.get(it.op)
            if f:
                return f(self, it, st, node, fr, body, is_async)
        if isinstance(it, Ref) and st.has(it):
            o = st.obj(it)
            f = self.modelmod.ITER_KIND.get(o.kind)
            if f:
                return f(self, it, st, node, fr, body, is_async)
            if o.kind == 'inst':
                name = '__aiter__' if is_async else '__iter__'
                return self.outs(
                    self.call_method(it, name, [], [], st, node, fr),
                    lambda v, x: self._iter_inst(v, x, node, fr, body,
                                                 is_async))
        return self.each_opaque(it, st, node, fr, body, is_async)

    def _iter_inst(self, v, st, node, fr, body, is_async):
        if not (isinstance(v, Ref) and st.obj(v).kind == 'inst'):
            return self.for_each(v, st, node, fr, body, is_async)
        stop = 'StopAsyncIteration' if is_async else 'StopIteration'

        def step(x):
            res = []
            name = '__anext__' if is_async else '__next__'
            for e, y in self.call_method(v, name, [], [], x, node, fr):
                for e2, z in (self.await_(e, y, node, fr) if is_async
                              and not abrupt(e) else [(e, y)]):
                    if isinstance(e2, Raised):
                        if e2.exc.cls == stop:
                            res.append((('next',), z))
                        else:
                            res.append((('exc', e2.exc), z))
                    else:
                        for o, w in body(e2, z):
                            res.append(('again' if o[0] == 'next' else o, w))
            return res
        return self.loop(st, step, node, fr)

    def _each_items(self, items, st, node, body):
        outs = [(('next',), st)]
        for i, v in enumerate(items):
            nxt = []
            if self.stepwise:
                self.pos.append(('#', i))
            for o, x in outs:
                if o[0] != 'next':
                    nxt.append((o, x))
                elif isinstance(v, Star):
                    def step(y, v=v):
                        r = [(('next',), y)]
                        for o2, z in body(v.v, y):
                            r.append(('again' if o2[0] == 'next' else o2, z))
                        return r
                    nxt.extend(self.loop(x, step, node))
                else:
                    nxt.extend(body(v, x))
            if self.stepwise:
                self.pos.pop()
            outs = self.dedupe(nxt)
        return outs

    def each_opaque(self, it, st, node, fr, body, is_async):
        """Zero or more unknown elements."""
        def step(x):
            res = []
            for ctl, v, y in self.h.next_elem(it, x, node, fr, is_async):
                if ctl == 'end':
                    res.append((('next',), y))
                elif ctl == 'exc':
                    res.append((('exc', v), y))
                else:
                    for o, z in body(v, y):
                        res.append(('again' if o[0] == 'next' else o, z))
            return res
        self.temps.append(it)
        try:
            return self.loop(st, step, node, fr)
        finally:
            self.temps.pop()

    def run_gen(self, g, st, node, fr, body):
        """Run a generator, its consumer's body at every yield."""
        if isinstance(g.fn.node, ast.GeneratorExp):
            return self._run_genexp(g, st, node, fr, body)

        def on_yield(v, x, ynode):
            res = []
            for o, y in body(v, x):
                if o[0] == 'next':
                    res.append((NONE, y))
                else:
                    res.append((Unwind(o), y))
            return res
        outs = []
        for v, x in self.run_body(g.fn, dict(g.bound), st, node, fr,
                                  on_yield):
            if isinstance(v, Unwind):
                outs.append((v.payload, x))
            elif isinstance(v, Raised):
                e = v.exc
                outs.append((('exc', e), x))
            else:
                outs.append((('next',), x))
        return outs

    def _run_genexp(self, g, st, node, fr, body):
        n = g.fn.node
        b = dict(g.bound)
        cfr, st = self.comp_frame(n, st, g.fn.env, fr, node)
        return self.pop_frame(cfr, self._comp(
            n, n.generators, 0, st, cfr, lambda x: self.outs(
                self.ev(n.elt, x, cfr), lambda v, y: body(v, y)),
            first=b['.0']))

    # -- functions ---------------------------------------------------------
    def ex_FunctionDef(self, s, st, fr):
        a = s.args

        def k(vals, x):
            nd = len(a.defaults)
            defaults = tuple(vals[:nd])
            kwd, i = [], nd
            for arg, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kwd.append((arg.arg, vals[i]))
                    i += 1
            sc = scope_of(s)
            flavour = ('agen' if sc.is_async else 'gen') if sc.is_gen else (
                'async' if sc.is_async else 'def')
            env = fr.ref
            if isinstance(fr.node, ast.ClassDef):
                env = x.obj(fr.ref).at['$parent']
            f = Func(s, env, defaults, tuple(kwd), flavour)
            return self.decorate(s, f, x, fr)
        nodes = list(a.defaults) + [d for d in a.kw_defaults if d]
        return self.outs(self.seq(nodes, st, fr, k),
                         lambda v, x: [(('next',), self.store(
                             s.name, v, x, fr))])

    ex_AsyncFunctionDef = ex_FunctionDef

    def decorate(self, s, f, st, fr):
        if not s.decorator_list:
            return [(f, st)]

        def k(decs, x):
            res = [(f, x)]
            for d in reversed(decs):
                res = self.bind(res, lambda v, y, d=d: self.call(
                    d, [v], [], y, s, fr))
            return res
        return self.seq(s.decorator_list, st, fr, k)

    def ev_Lambda(self, n, st, fr):
        a = n.args

        def k(vals, x):
            nd = len(a.defaults)
            kwd, i = [], nd
            for arg, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kwd.append((arg.arg, vals[i]))
                    i += 1
            env = fr.ref
            if isinstance(fr.node, ast.ClassDef):
                env = x.obj(fr.ref).at['$parent']
            return [(Func(n, env, tuple(vals[:nd]), tuple(kwd), 'def'), x)]
        return self.seq(list(a.defaults) + [d for d in a.kw_defaults if d],
                        st, fr, k)

    def ex_ClassDef(self, s, st, fr):
        def k(bases, x):
            ref = Ref(('class', s._uid, fr.ctx, '', 0))
            cns = Ref(('clsns', s._uid, fr.ctx, '', 0))
            x = x.with_obj(cns, HObj('frame', {
                '$parent': fr.ref, '$locals': frozenset(),
                '__module__': Const(fr.mod),
                '__qualname__': Const(s._self_qual)}))
            cfr = Fr(cns, s, fr.ctx, fr.mod)
            self.stack.append(cns)
            try:
                outs = self.ex_block(s.body, x, cfr)
            finally:
                self.stack.pop()
            res = []
            for o, y in outs:
                if o[0] != 'next':
                    res.extend(self.to_val([(o, y)]))
                    continue
                ns = y.obj(cns).at
                y = y.without(cns)
                at = {n: v for n, v in ns.items() if not n.startswith('$')}
                at['$bases'] = tuple(bases[:len(s.bases)])
                at['$name'] = s.name
                at['$ann'] = ns.get('$ann', ())
                at['$node'] = s._uid
                exc = None
                for b in bases[:len(s.bases)]:
                    p = self.class_path(b, y)
                    if p:
                        exc = f"{fr.mod}.{s.name}"
                        self.user_excs[exc] = p
                at['excpath'] = exc
                nt = False
                for b in bases[:len(s.bases)]:
                    if isinstance(b, Ext) and b.path in (
                            'typing.NamedTuple',):
                        nt = True
                    elif isinstance(b, Ref) and y.has(b) and y.obj(b).get(
                            '$nt'):
                        nt = True
                        at['$ann'] = y.obj(b).get('$ann')
                at['$nt'] = nt
                y = y.with_obj(ref, HObj('class', at))
                r2 = [(ref, y)]
                if s.decorator_list:
                    def dec(ds, z):
                        rr = [(ref, z)]
                        for d in reversed(ds):
                            rr = self.bind(rr, lambda v, w, d=d: self.call(
                                d, [v], [], w, s, fr))
                        return rr
                    r2 = self.seq(s.decorator_list, y, fr, dec)
                res.extend(r2)
            return res
        nodes = list(s.bases) + [kw.value for kw in s.keywords]
        return self.outs(self.seq(nodes, st, fr, k), lambda v, x: [
            (('next',), self.store(s.name, v, x, fr))])

    def comp_frame(self, n, st, env, fr, node):
        ref = Ref(('frame', n._uid, fr.ctx, 'comp', 0))
        if self.streams:
            ref, st = self.first_free(st, lambda i: Ref(
                ('frame', n._uid, fr.ctx, 'comp', i)))
        elif st.has(ref):
            if st.mentioned(ref, ref.oid):
                st = st.rename(ref, Ref(ref.oid[:-1] + (1,)))
            else:
                st = st.without(ref)
        st = st.with_obj(ref, HObj('frame', {
            '$parent': env, '$locals': frozenset(comp_targets(n)),
            '$inline': True}))
        # walrus targets and await inside belong to the enclosing function
        f = Fr(ref, n, fr.ctx, fr.mod, fr.on_yield, fr.func, fr)
        self.stack.append(ref)
        return f, st

    def pop_frame(self, f, outs):
        self.stack.pop()
        res = []
        for o, st in outs:
            if st.has(f.ref) and not st.mentioned(f.ref, f.ref.oid) \
                    and not mentions(_outvals(o), f.ref):
                st = st.without(f.ref)
            res.append((o, st))
        return res

    def run_body(self, func, bound, st, node, fr, on_yield=None):
        """Inline an analysed function: [(value, st)]."""
        n = func.node
        self.functions.add((n._file, getattr(n, '_self_qual', '<lambda>')))
        uid = getattr(node, '_uid', -1)
        ctx = (fr.ctx if fr else ()) + ((uid, n._uid),)
        if len(ctx) > MAXDEPTH or sum(1 for c in ctx if c[1] == n._uid) > 3:
            raise Broken(f"recursion too deep at {sname(n)}")
        ref = Ref(('frame', n._uid, ctx, '', 0))
        if self.streams:
            ref, st = self.first_free(st, lambda i: Ref(
                ('frame', n._uid, ctx, '', i)))
        elif st.has(ref):
            if st.mentioned(ref, ref.oid) or any(
                    ref in v.atoms() for v in self.temps):
                st = st.rename(ref, Ref(ref.oid[:-1] + (1,)))
            else:
                st = st.without(ref)
        at = dict(bound)
        at['$parent'] = func.env
        at['$locals'] = frozenset(scope_of(n).locals)
        st = st.with_obj(ref, HObj('frame', at))
        f = Fr(ref, n, ctx, n._mod, on_yield, None, fr)
        self.stack.append(ref)
        if self.stepwise:
            self.pos.append(('call', uid))
        try:
            if isinstance(n, ast.Lambda):
                res = self.ev(n.body, st, f)
            else:
                res = self.to_val(self.ex_block(n.body, st, f))
        finally:
            self.stack.pop()
            if self.stepwise:
                self.pos.pop()
        out = []
        for v, x in res:
            if x.has(ref) and not mentions(v, ref) and not x.mentioned(
                    ref, ref.oid) and not any(
                        ref in t.atoms() for t in self.temps):
                x = x.without(ref)
            out.append((v, x))
        return self.dedupe(out)

    def bind_args(self, func, args, kwargs, st, node, fr):
        """-> [(dict | Raised, st)] following Python's calling rules."""
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        flat = []
        for v in args:
            if isinstance(v, Star):
                its = self.items_of(v.v, st)
                if its is not None and not (
                        isinstance(v.v, Ref) and any(
                            isinstance(i, Star) for i in its)):
                    flat.extend(its)
                else:
                    flat.append(v)
            else:
                flat.append(v)
        kws = []
        for k, v in kwargs:
            if k is None:
                ents = self.dict_items(v, st)
                if ents is not None:
                    for kk, vv in ents:
                        if not isinstance(kk, Const):
                            raise Broken(f"** with unknown keys at "
                                         f"{sname(node)}")
                        kws.append((kk.v, vv))
                else:
                    kws.append((None, v))
            else:
                kws.append((k, v))
        bound = {}
        rest = list(flat)
        names = list(pos)
        while names and rest:
            v = rest[0]
            if isinstance(v, Star):
                # unknown number of positional arguments: assume it fits
                after = len(rest) - 1
                need = [x for x in names if x not in dict(kws)]
                nd = len(func.defaults)
                req = [x for i, x in enumerate(pos)
                       if i < len(pos) - nd and x in need]
                take = (req or ([] if a.vararg else need))
                if after:
                    take = take[:-after]
                if not take and a.vararg:
                    break
                for i, x in enumerate(take):
                    bound[x] = self.h.star_item(v.v, i, len(take), st)
                    names.remove(x)
                rest.pop(0)
                continue
            bound[names.pop(0)] = rest.pop(0)
        if rest:
            if not a.vararg:
                if any(not isinstance(v, Star) for v in rest):
                    return [(self.exc('TypeError', node), st)]
                rest = []
        if a.vararg:
            if len(rest) == 1 and isinstance(rest[0], Star):
                t = self.as_tuple(rest[0].v, st)
                bound[a.vararg.arg] = t
            elif any(isinstance(v, Star) for v in rest):
                bound[a.vararg.arg] = Term('tuplecat', tuple(rest))
            else:
                bound[a.vararg.arg] = Tup(tuple(rest))
        kwnames = pos[len(a.posonlyargs):] + [x.arg for x in a.kwonlyargs]
        extra = []
        for k, v in kws:
            if k is not None and k in kwnames:
                if k in bound:
                    return [(self.exc('TypeError', node), st)]
                bound[k] = v
            else:
                extra.append((k, v))
        if a.kwarg:
            if len(extra) == 1 and extra[0][0] is None:
                bound[a.kwarg.arg] = extra[0][1]
            elif any(k is None for k, _ in extra):
                bound[a.kwarg.arg] = Term('dictcat', tuple(
                    Tup((Const(k), v)) for k, v in extra))
            else:
                ref, st = self.alloc(
                    st, 'dict', func.node, fr, 'kwargs',
                    ent=tuple((Const(k), v) for k, v in extra))
                bound[a.kwarg.arg] = ref
        elif extra:
            if any(k is not None for k, _ in extra):
                return [(self.exc('TypeError', node), st)]
            # **unknown mapping: missing parameters come from it
            m = extra[0][1]
            for k in kwnames:
                if k not in bound:
                    bound[k] = Term('getitem', (m, Const(k)))
        nd = len(func.defaults)
        for i, x in enumerate(pos):
            if x not in bound:
                j = i - (len(pos) - nd)
                if j < 0:
                    return [(self.exc('TypeError', node), st)]
                bound[x] = func.defaults[j]
        kwd = dict(func.kwdefaults)
        for x in a.kwonlyargs:
            if x.arg not in bound:
                if x.arg not in kwd:
                    return [(self.exc('TypeError', node), st)]
                bound[x.arg] = kwd[x.arg]
        return [(bound, st)]

    def as_tuple(self, v, st):
        its = self.items_of(v, st)
        if its is not None and not any(isinstance(i, Star) for i in its):
            return Tup(tuple(its))
        if isinstance(v, Sym) and v.kind == 'tuple':
            return v
        if isinstance(v, Term) and v.op in ('tuple', 'tuplecat'):
            return v
        return Term('tuple', (v,))

    def dict_items(self, v, st):
        if isinstance(v, Ref) and st.has(v):
            o = st.obj(v)
            if o.kind == 'dict' and not o.get('open') and not o.get('maybe'):
                return o.get('ent')
        return None

    def call_func(self, func, args, kwargs, st, node, fr):
        res = []
        for b, x in self.bind_args(func, args, kwargs, st, node, fr):
            if isinstance(b, Raised):
                res.append((b, x))
                continue
            r = self.h.call_func(func, b, x, node, fr)
            if r is not None:
                res.extend(r)
                continue
            items = tuple(sorted(b.items()))
            fl = func.flavour
            if fl == 'def':
                res.extend(self.run_body(func, b, x, node, fr))
            elif fl == 'async':
                res.append((Coro(func, items), x))
            elif fl == 'gen' and self.streams:
                res.extend(self.sm.make_gen(self, func, items, x, node, fr))
            elif fl in ('gen', 'agen'):
                res.append((GenV(func, items, fl == 'agen'), x))
            else:
                res.append((CM(func, items, fl == 'acm'), x))
        return res

    # -- calls -------------------------------------------------------------
    def ev_Call(self, n, st, fr):
        nodes = [n.func]
        kinds = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                nodes.append(a.value)
                kinds.append('*')
            else:
                nodes.append(a)
                kinds.append('p')
        for kw in n.keywords:
            nodes.append(kw.value)
            kinds.append(('k', kw.arg))

        def k(vals, x):
            f = vals[0]
            args, kws = [], []
            for kd, v in zip(kinds, vals[1:]):
                if kd == 'p':
                    args.append(v)
                elif kd == '*':
                    args.append(Star(v))
                else:
                    kws.append((kd[1], v))
            return self.expand(args, x, n, fr, lambda a, y: self.call(
                f, a, kws, y, n, fr))
        return self.seq(nodes, st, fr, k)

    def expand(self, args, st, node, fr, k):
        """Evaluate *generator arguments to lists."""
        for i, a in enumerate(args):
            if isinstance(a, Star) and isinstance(a.v, (Tup, Ref)):
                its = self.items_of(a.v, st)
                if its is not None and not any(
                        isinstance(v, Star) for v in its):
                    return self.expand(
                        args[:i] + list(its) + args[i + 1:], st, node, fr, k)
            if isinstance(a, Star) and (isinstance(a.v, (GenV, Term)) and not (
                    isinstance(a.v, Term)
                    and a.v.op in ('tuple', 'tuplecat', 'item', 'attr'))
                    or isinstance(a.v, Ref) and st.has(a.v) and st.obj(
                        a.v).kind in ('lazy', 'iterator')):
                if isinstance(a.v, GenV) and a.v.is_async:
                    return [(self.exc('TypeError', node), st)]
                return self.bind(
                    self.to_list(a.v, st, node, fr, f'star{i}'),
                    lambda r, x: self.expand(
                        args[:i] + [Star(r)] + args[i + 1:], x, node, fr, k))
        return k(args, st)

    def call(self, f, args, kwargs, st, node, fr):
        res = self._call(f, args, kwargs, st, node, fr)
        if any(isinstance(v, Term) and v.op == 'pred' for v, _ in res):
            # answers hold at the time of the call only
            out = []
            for v, x in res:
                if isinstance(v, Term) and v.op == 'pred':
                    out.extend((Const(b), y) for b, y in self.branch(v, x))
                else:
                    out.append((v, x))
            return out
        return res

    def _call(self, f, args, kwargs, st, node, fr):
        self.tick()
        r = self.h.hook_call(f, args, kwargs, st, node, fr)
        if r is not None:
            return r
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, st, node, fr)
        if isinstance(f, Bound):
            if isinstance(f.fn, Const):
                return self.method(f.self, f.fn.v, args, kwargs, st, node, fr)
            return self.call(f.fn, [f.self] + list(args), kwargs, st, node,
                             fr)
        if isinstance(f, Partial):
            have = {k for k, _ in kwargs if k}
            kw = [(k, v) for k, v in f.kwargs if k not in have]
            return self.call(f.fn, list(f.args) + list(args),
                             kw + list(kwargs), st, node, fr)
        if isinstance(f, StaticV):
            return self.call(f.fn, args, kwargs, st, node, fr)
        if isinstance(f, Ext):
            return self.call_ext(f.path, args, kwargs, st, node, fr)
        if isinstance(f, Ref) and st.has(f):
            o = st.obj(f)
            if o.kind == 'class':
                return self.instantiate(f, args, kwargs, st, node, fr)
            if o.kind == 'inst':
                return self.call_method(f, '__call__', args, kwargs, st,
                                        node, fr)
        if isinstance(f, Term):
            g = self.modelmod.CALL_TERM.get(f.op)
            if g:
                return g(self, f, args, kwargs, st, node, fr)
        if isinstance(f, Const):
            return [(self.exc('TypeError', node), st)]
        return self.h.call_opaque(f, args, kwargs, st, node, fr)

    def call_ext(self, path, args, kwargs, st, node, fr):
        m = self.models.get(path)
        if m is not None:
            return m(self, st, args, kwargs, node, fr)
        if is_exc_path(path):
            a = tuple(x for x in args if not isinstance(x, Star))
            return [(ExcV(exc_canon(path), True,
                          ('new', node._uid), a), st)]
        t, _, name = path.rpartition('.')
        if t in ('str', 'list', 'dict', 'set', 'tuple') and args and \
                name != 'fromkeys':
            return self.method(args[0], name, list(args[1:]), kwargs, st,
                               node, fr)
        for pre in self.modelmod.PURE_PREFIX:
            if path == pre or path.startswith(pre + '.'):
                s, st = self.fresh(st, node, fr, 'pure')
                return [(s, st)]
        return self.h.call_unknown(path, args, kwargs, st, node, fr)

    def instantiate(self, cls, args, kwargs, st, node, fr):
        o = st.obj(cls)
        if o.get('excpath'):
            a = tuple(x for x in args if not isinstance(x, Star))
            return [(ExcV(o.get('excpath'), True, ('new', node._uid), a), st)]
        if o.get('$nt'):
            names = o.get('$ann')
            vals = {}
            for nme, v in zip(names, args):
                if isinstance(v, Star):
                    raise Broken(f"* in named tuple at {sname(node)}")
                vals[nme] = v
            for k, v in kwargs:
                vals[k] = v
            for nme in names:
                if nme not in vals:
                    if nme in o.at:
                        vals[nme] = o.at[nme]
                    else:
                        return [(self.exc('TypeError', node), st)]
            return [(NTup(cls, tuple(names),
                          tuple(vals[x] for x in names)), st)]
        ref, st = self.alloc(st, 'inst', node, fr, o.get('$name'),
                             **{'$class': cls})
        r = self.h.on_instantiate(ref, cls, args, kwargs, st, node, fr)
        if r is not None:
            return r
        init = self.class_lookup(cls, '__init__', st)
        self.temps.append(ref)
        try:
            if init is not None and not isinstance(init, Ext):
                res = self.call(Bound(init, ref), args, kwargs, st, node, fr)
                return self.bind(res, lambda _, x: [(ref, x)])
            if o.get('$dc'):
                return self._dc_init(ref, cls, args, kwargs, st, node, fr)
        finally:
            self.temps.pop()
        base = self.ext_base(cls, st)
        m = self.modelmod.INIT.get(base)
        if m:
            return m(self, ref, args, kwargs, st, node, fr)
        return [(ref, st)]

    def _dc_init(self, ref, cls, args, kwargs, st, node, fr):
        names = self.dc_fields(cls, st)
        vals = dict(zip(names, args))
        vals.update({k: v for k, v in kwargs})
        res = [(NONE, st)]
        for nme in names:
            def one(_, x, nme=nme):
                if nme in vals:
                    return [(NONE, x.with_obj(
                        ref, x.obj(ref).put(nme, vals[nme])))]
                d = self.class_lookup(cls, nme, x)
                if isinstance(d, Term) and d.op == 'dcfield':
                    return self.bind(
                        self.call(d.args[0], [], [], x, node, fr),
                        lambda v, y: [(NONE, y.with_obj(
                            ref, y.obj(ref).put(nme, v)))])
                if d is not None:
                    return [(NONE, x.with_obj(
                        ref, x.obj(ref).put(nme, d)))]
                return [(self.exc('TypeError', node), x)]
            res = self.bind(res, one)
        post = self.class_lookup(cls, '__post_init__', st)
        if post is not None:
            res = self.bind(res, lambda _, x: self.call(
                Bound(post, ref), [], [], x, node, fr))
        return self.bind(res, lambda _, x: [(ref, x)])

    def dc_fields(self, cls, st):
        out = []
        for c in reversed(self.mro(cls, st)):
            if isinstance(c, Ref):
                for n in st.obj(c).get('$ann', ()):
                    if n not in out:
                        out.append(n)
        return out

    # -- classes -----------------------------------------------------------
    def mro(self, cls, st):
        out = []

        def rec(c):
            if c in out:
                return
            out.append(c)
            if isinstance(c, Ref) and st.has(c):
                for b in st.obj(c).get('$bases', ()):
                    if isinstance(b, Term) and b.op == 'subscript':
                        b = b.args[0]
                    rec(b)
        rec(cls)
        return out

    def class_lookup(self, cls, name, st):
        for c in self.mro(cls, st):
            if isinstance(c, Ref) and st.has(c):
                v = st.obj(c).at.get(name)
                if v is not None:
                    return v
        return None

    def ext_base(self, cls, st):
        for c in self.mro(cls, st):
            if isinstance(c, Ext) and c.path not in (
                    'abc.ABC', 'typing.Generic', 'typing.Protocol', 'object'):
                return c.path
        return None

    def call_method(self, ref, name, args, kwargs, st, node, fr):
        cls = st.obj(ref).get('$class')
        f = self.class_lookup(cls, name, st)
        if f is None:
            return [(self.exc('AttributeError', node), st)]
        return self.call(self.bindm(f, ref, cls), args, kwargs, st, node, fr)

    def bindm(self, f, ref, cls):
        if isinstance(f, StaticV):
            return Bound(f.fn, cls) if f.is_cls else f.fn
        if isinstance(f, (Func, Partial)) and not isinstance(f, Partial):
            return Bound(f, ref)
        return f

    # -- attributes --------------------------------------------------------
    def ev_Attribute(self, n, st, fr):
        return self.bind(self.ev(n.value, st, fr),
                         lambda v, x: self.get_attr(v, n.attr, x, n, fr))

    def get_attr(self, v, name, st, node, fr):
        r = self.h.get_attr(v, name, st, node, fr)
        if r is not None:
            return r
        if isinstance(v, Ext):
            m = self.p.modules.get(v.path)
            if m is not None:
                st = self.load(v.path, st)
                return [(self.module_attr(v.path, name, st), st)]
            p = f"{v.path}.{name}"
            c = self.h.consts.get(p) or self.modelmod.CONSTS.get(p)
            if c is not None:
                return [(c, st)]
            p = self.modelmod.ALIAS.get(p, p)
            return [(Ext(exc_canon(p)), st)]
        if isinstance(v, NTup):
            if name in v.names:
                return [(v.items[v.names.index(name)], st)]
            f = self.class_lookup(v.cls, name, st)
            if f is not None:
                if isinstance(f, PropV):
                    return self.call(f.fget, [v], [], st, node, fr)
                return [(self.bindm(f, v, v.cls), st)]
            return [(Bound(Const(name), v), st)]
        if isinstance(v, Ref) and st.has(v):
            o = st.obj(v)
            if o.kind == 'inst':
                if name in o.at:
                    return [(o.at[name], st)]
                if name == '__class__':
                    return [(o.get('$class'), st)]
                if name == '__dict__':
                    return [(Term('vars', (v,)), st)]
                f = self.class_lookup(o.get('$class'), name, st)
                if f is None:
                    b = self.ext_base(o.get('$class'), st)
                    if b:
                        return [(Bound(Const(name), v), st)]
                    return [(self.exc('AttributeError', node), st)]
                if isinstance(f, PropV):
                    return self.call(f.fget, [v], [], st, node, fr)
                return [(self.bindm(f, v, o.get('$class')), st)]
            if o.kind == 'class':
                f = self.class_lookup(v, name, st)
                if f is not None:
                    if isinstance(f, StaticV) and f.is_cls:
                        return [(Bound(f.fn, v), st)]
                    return [(f.fn if isinstance(f, StaticV) else f, st)]
                if name in ('__name__', '__qualname__'):
                    return [(Const(o.get('$name')), st)]
                return [(Bound(Const(name), v), st)]
            g = self.modelmod.ATTR.get((o.kind, name))
            if g:
                return g(self, v, st, node, fr)
            if not _has_attr(o.kind, name) and (
                    o.kind, name) not in self.methods:
                return [(self.exc('AttributeError', node), st)]
            return [(Bound(Const(name), v), st)]
        if isinstance(v, (Tup, Const)) and not hasattr(
                () if isinstance(v, Tup) else v.v, name):
            return [(self.exc('AttributeError', node), st)]
        if isinstance(v, ExcV):
            if name == 'args':
                return [(Tup(v.args) if v.exact else
                         Term('attr', (v, Const(name))), st)]
            return [(Bound(Const(name), v), st)]
        if isinstance(v, SuperV):
            mro = self.mro(v.cls, st)[1:]
            for c in mro:
                if isinstance(c, Ref) and name in st.obj(c).at:
                    f = st.obj(c).at[name]
                    if isinstance(f, PropV):
                        return self.call(f.fget, [v.self], [], st, node, fr)
                    return [(self.bindm(f, v.self, c), st)]
            return [(Bound(Const('super:' + name), v.self), st)]
        if isinstance(v, Func):
            if name in ('__name__', '__qualname__', '__doc__', '__module__'):
                return [(Sym(('meta', name), 'str'), st)]
            return [(Bound(Const(name), v), st)]
        if isinstance(v, Partial) and name in ('func', 'args', 'keywords'):
            return [({'func': v.fn, 'args': Tup(v.args)}.get(
                name, Term('partialkw', (v,))), st)]
        if v == NONE and name not in ('__class__', '__doc__', '__eq__'):
            return [(self.exc('AttributeError', node), st)]
        if isinstance(v, Sym):
            g = self.modelmod.SYM_ATTR.get((v.kind, name))
            if g:
                return g(self, v, st, node, fr)
        return [(Bound(Const(name), v), st)]

    def set_attr(self, o, name, v, st, node, fr):
        r = self.h.set_attr(o, name, v, st, node, fr)
        if r is not None:
            return r
        if isinstance(o, Ref) and st.has(o):
            ob = st.obj(o)
            if ob.kind == 'inst':
                f = self.class_lookup(ob.get('$class'), name, st)
                if isinstance(f, Term) and f.op == 'propset':
                    return self.call(f.args[1], [o, v], [], st, node, fr)
            if self.is_summary(o) and name in ob.at and ob.at[name] != v:
                v = TOP  # weak update
            return [(NONE, st.with_obj(o, ob.put(name, v)))]
        return [(NONE, st)]

    # -- items -------------------------------------------------------------
    def ev_Subscript(self, n, st, fr):
        return self.seq([n.value, n.slice], st, fr,
                        lambda vs, x: self.get_item(vs[0], vs[1], x, n, fr))

    def ev_Slice(self, n, st, fr):
        nodes = [x for x in (n.lower, n.upper, n.step) if x]

        def k(vals, x):
            it = iter(vals)
            t = tuple(next(it) if y else NONE
                      for y in (n.lower, n.upper, n.step))
            return [(Term('slice', t), x)]
        return self.seq(nodes, st, fr, k)

    def get_item(self, o, i, st, node, fr):
        r = self.h.get_item(o, i, st, node, fr)
        if r is not None:
            return r
        if isinstance(o, (Ext, Func)) or (isinstance(o, Ref) and st.has(o)
                                          and st.obj(o).kind == 'class'):
            return [(Term('subscript', (o, i)), st)]
        if isinstance(o, Ref) and st.has(o):
            k = st.obj(o).kind
            if k == 'inst':
                return self.call_method(o, '__getitem__', [i], [], st, node,
                                        fr)
            g = self.modelmod.GETITEM.get(k)
            if g:
                return g(self, o, i, st, node, fr)
        items = self.items_of(o, st)
        if items is not None and isinstance(i, Const) and isinstance(
                i.v, int):
            if not any(isinstance(x, Star) for x in items):
                try:
                    return [(items[i.v], st)]
                except IndexError:
                    return [(self.exc('IndexError', node), st)]
        if items is not None and isinstance(i, Term) and i.op == 'slice' and \
                all(isinstance(x, Const) for x in i.args) and not any(
                    isinstance(x, Star) for x in items):
            return [(Tup(tuple(items[slice(*[x.v for x in i.args])])), st)]
        if o == NONE:
            return [(self.exc('TypeError', node), st)]
        if i == Term('kwname', (o,)):
            return [(Term('kwvalue', (o,)), st)]
        if isinstance(o, Sym):
            g = self.modelmod.SYM_ITEM.get(o.kind)
            if g:
                return g(self, o, i, st, node, fr)
        return [(Term('getitem', (o, i)), st)]

    def set_item(self, o, i, v, st, node, fr):
        r = self.h.set_item(o, i, v, st, node, fr)
        if r is not None:
            return r
        if isinstance(o, Ref) and st.has(o):
            k = st.obj(o).kind
            if k == 'inst':
                return self.call_method(o, '__setitem__', [i, v], [], st,
                                        node, fr)
            g = self.modelmod.SETITEM.get(k)
            if g:
                return g(self, o, i, v, st, node, fr)
        return [(NONE, st)]

    def del_item(self, o, i, st, node, fr):
        if isinstance(o, Ref) and st.has(o):
            k = st.obj(o).kind
            if k == 'inst':
                return self.call_method(o, '__delitem__', [i], [], st, node,
                                        fr)
            g = self.modelmod.DELITEM.get(k)
            if g:
                return g(self, o, i, st, node, fr)
        return [(NONE, st)]

    def method(self, recv, name, args, kwargs, st, node, fr):
        r = self.h.hook_method(recv, name, args, kwargs, st, node, fr)
        if r is not None:
            return r
        if isinstance(recv, Ref) and st.has(recv):
            kind = st.obj(recv).kind
            if kind == 'inst' or kind == 'class':
                cls = recv if kind == 'class' else st.obj(recv).get('$class')
                kind = 'ext:' + str(self.ext_base(cls, st))
        elif isinstance(recv, Sym):
            kind = 'sym:' + str(recv.kind)
        else:
            kind = type(recv).__name__
        m = self.methods.get((kind, name))
        if m is not None:
            self.temps.append(recv)
            try:
                return m(self, recv, st, args, kwargs, node, fr)
            finally:
                self.temps.pop()
        m = self.methods.get((kind, '*'))
        if m is not None:
            r = m(self, recv, name, st, args, kwargs, node, fr)
            if r is not None:
                return r
        if isinstance(recv, Const) and isinstance(recv.v, (str, bytes)) and \
                all(isinstance(a, Const) for a in args) and not kwargs:
            try:
                v = getattr(recv.v, name)(*[a.v for a in args])
                if isinstance(v, (str, int, bool, bytes, type(None))):
                    return [(Const(v), st)]
                if isinstance(v, (list, tuple)):
                    return [(Tup(tuple(Const(x) for x in v)), st)]
            except Exception as e:
                return [(self.exc(type(e).__name__, node), st)]
        return self.h.call_opaque(Bound(Const(name), recv), args, kwargs, st,
                                  node, fr)

    # -- await -------------------------------------------------------------
    def ev_Await(self, n, st, fr):
        def k(v, x):
            self.temps.append(v)
            try:
                return self.await_(v, x, n, fr)
            finally:
                self.temps.pop()
        return self.dedupe(self.bind(self.ev(n.value, st, fr), k))

    def await_(self, v, st, node, fr):
        self.tick()
        r = self.h.hook_await(v, st, node, fr)
        if r is not None:
            return r
        if isinstance(v, Coro):
            return self.run_body(v.fn, dict(v.bound), st, node, fr)
        if isinstance(v, ExtCoro):
            m = self.modelmod.AWAIT.get(v.op)
            if m is None:
                raise Broken(f"await of {v.op} at {sname(node)}")
            res = m(self, v, st, node, fr)
            if v.op in ('gather', 'wait', 'shield'):
                return self.h.resumed(v, res, node, fr)
            return res
        if isinstance(v, Ref) and st.has(v):
            o = st.obj(v)
            m = self.modelmod.AWAIT.get('kind:' + o.kind)
            if m is not None:
                res = m(self, v, st, node, fr)
                if o.kind == 'fut' and o.get('outcome') is None:
                    return self.h.resumed(v, res, node, fr)
                return res
            if o.kind == 'inst':
                f = self.class_lookup(o.get('$class'), '__await__', st)
                if f is not None:
                    return self.bind(
                        self.call(Bound(f, v), [], [], st, node, fr),
                        lambda g, x: self.yield_from(g, x, node, fr))
        if isinstance(v, Const):
            return [(self.exc('TypeError', node), st)]
        return self.h.await_opaque(v, st, node, fr)

    def yield_from(self, v, st, node, fr):
        """yield from inside of __await__"""
        if isinstance(v, Term) and v.op == 'awaititer':
            return self.await_(v.args[0], st, node, fr)
        if isinstance(v, GenV) and not v.is_async:
            def on_yield(val, x, ynode):
                return self.h.suspend(x, node, fr, 'yield')
            return self.run_body(v.fn, dict(v.bound), st, node, fr, on_yield)
        return self.h.await_opaque(v, st, node, fr)

    # -- yield -------------------------------------------------------------
    def ev_Yield(self, n, st, fr):
        f = fr.func
        if f.on_yield is None:
            raise Broken(f"yield outside of a driven generator {sname(n)}")
        if n.value is None:
            return f.on_yield(NONE, st, n)
        return self.bind(self.ev(n.value, st, fr),
                         lambda v, x: f.on_yield(v, x, n))

    def ev_YieldFrom(self, n, st, fr):
        f = fr.func
        if f.on_yield is None:
            raise Broken(f"yield from outside of a generator {sname(n)}")

        def body(v, x):
            res = []
            for w, y in f.on_yield(v, x, n):
                if isinstance(w, Raised):
                    res.append((('exc', w.exc), y))
                elif isinstance(w, Unwind):
                    res.append((('gexit', w.payload), y))
                else:
                    res.append((('next',), y))
            return res
        return self.bind(
            self.ev(n.value, st, fr),
            lambda v, x: self.await_(v.args[0], x, n, fr)
            if isinstance(v, Term) and v.op == 'awaititer' else
            self.to_val(self.for_each(v, x, n, fr, body)))

    # -- try / with --------------------------------------------------------
    def ex_Try(self, s, st, fr):
        outs = []
        for o, x in self.ex_block(s.body, st, fr):
            if o[0] == 'next' and s.orelse:
                outs.extend(self.ex_block(s.orelse, x, fr))
            elif o[0] == 'exc':
                outs.extend(self.handle(s, o[1], x, fr))
            else:
                outs.append((o, x))
        outs = self.dedupe(outs)
        if not s.finalbody:
            return outs
        res = []
        for o, x in outs:
            vals = _outvals(o)
            self.temps.append(Tup((vals,)) if not isinstance(vals, Val)
                              else vals)
            if self.stepwise:
                self.pos.append(('fin',) + tuple(o))
            try:
                for o2, y in self.ex_block(s.finalbody, x, fr):
                    res.append((o if o2[0] == 'next' else o2, y))
            finally:
                self.temps.pop()
                if self.stepwise:
                    self.pos.pop()
        return self.dedupe(res)

    ex_TryStar = ex_Try

    def handle(self, s, exc, st, fr):
        """Dispatch an exception to the handlers."""
        pend = [st]
        res = []
        for hnd in s.handlers:
            if not pend:
                break
            nxt = []
            for x in pend:
                if hnd.type is None:
                    res.extend(self.run_handler(hnd, exc, x, fr))
                    continue
                for tv, y in self.ev(hnd.type, x, fr):
                    if abrupt(tv):
                        res.extend(self.outs([(tv, y)]))
                        continue
                    m = self.match_types(exc, tv, y, hnd, fr)
                    for yes, z, e2 in m:
                        if yes:
                            res.extend(self.run_handler(hnd, e2, z, fr))
                        else:
                            nxt.append(z)
            pend = nxt
        res.extend((('exc', exc), x) for x in pend)
        return res

    def match_types(self, exc, tv, st, node, fr):
        """-> [(bool, st, exc)]"""
        types = [tv]
        if isinstance(tv, Tup):
            types = list(tv.items)
        elif isinstance(tv, Ref) and st.has(tv) and st.obj(
                tv).kind == 'list':
            types = list(st.obj(tv).get('items'))
        unknown = []
        for t in types:
            p = self.class_path(t, st)
            if p is None:
                r = self.h.exc_isinstance(exc, t, st)
                if r is True:
                    return [(True, st, exc)]
                if r is None:
                    unknown.append(t)
                continue
            r = self.exc_match(exc, p)
            if r is True:
                return [(True, st, exc)]
            if r is None:
                unknown.append(p)
        if not unknown:
            return [(False, st, exc)]
        out = []
        k = Term('excis', (exc, Tup(tuple(
            Const(u) if isinstance(u, str) else u for u in unknown))))
        for b, x in self.branch(k, st):
            out.append((b, x, exc))
        return out

    def run_handler(self, hnd, exc, st, fr):
        old = st.obj(fr.ref).get('$exc')
        o = st.obj(fr.ref).put('$exc', exc)
        if hnd.name:
            o = o.put(hnd.name, exc)
        st = st.with_obj(fr.ref, o).note(hnd, f'except: {_excname(exc)}')
        res = []
        for out, x in self.ex_block(hnd.body, st, fr):
            if x.has(fr.ref):
                o = x.obj(fr.ref)
                o = o.put('$exc', old) if old else o.drop('$exc')
                if hnd.name:
                    o = o.drop(hnd.name)
                x = x.with_obj(fr.ref, o)
            res.append((out, x))
        return res

    def ex_With(self, s, st, fr, is_async=False, i=0):
        if i == len(s.items):
            return self.ex_block(s.body, st, fr)
        item = s.items[i]

        def inner(v, x):
            if item.optional_vars is not None:
                outs = self.assign(item.optional_vars, v, x, fr)
            else:
                outs = [(('next',), x)]
            res = []
            for o, y in outs:
                if o[0] == 'next':
                    res.extend(self.ex_With(s, y, fr, is_async, i + 1))
                else:
                    res.append((o, y))
            return res
        return self.dedupe(self.outs(
            self.ev(item.context_expr, st, fr),
            lambda v, x: self.with_(v, x, item.context_expr, fr, inner,
                                    is_async)))

    def ex_AsyncWith(self, s, st, fr):
        return self.ex_With(s, st, fr, True)

    def with_(self, v, st, node, fr, inner, is_async):
        """Run inner(entered value, st) -> outs within a context manager."""
        n = len(self.temps)
        self.temps.append(v)
        try:
            r = self.h.hook_with(v, st, node, fr, inner, is_async)
            if r is not None:
                return r
            if isinstance(v, CM):
                return self.with_gen(v, st, node, fr, inner)
            if isinstance(v, Term):
                m = self.modelmod.WITH.get(v.op)
                if m:
                    return m(self, v, st, node, fr, inner, is_async)
            if isinstance(v, Ref) and st.has(v):
                o = st.obj(v)
                m = self.modelmod.WITH.get('kind:' + o.kind)
                if m:
                    return m(self, v, st, node, fr, inner, is_async)
                if o.kind == 'inst':
                    return self.with_inst(v, st, node, fr, inner, is_async)
            return self.h.with_opaque(v, st, node, fr, inner, is_async)
        finally:
            del self.temps[n:]

    def with_gen(self, cm, st, node, fr, inner):
        pk = ('pend', node._uid, fr.ctx)

        def on_yield(v, x, ynode):
            res = []
            if x.m(pk) is not None:
                self.report('cm-yields-twice', 'context manager yields twice',
                            ynode, x)
                return [(self.exc('RuntimeError', ynode), x)]
            for o, y in inner(v, x):
                if o[0] == 'exc':
                    res.append((Raised(o[1]), y.with_m(pk, 'exc')))
                elif o[0] == 'gexit':
                    res.append((Unwind(o[1]), y.with_m(pk, 'exc')))
                else:
                    res.append((NONE, y.with_m(pk, o)))
            return res
        outs = []
        for v, x in self.run_body(cm.fn, dict(cm.bound), st, node, fr,
                                  on_yield):
            p = x.m(pk)
            m = dict(x.mon)
            m.pop(pk, None)
            x = State(x.heap, x.facts, m, x.trace)
            if isinstance(v, Raised):
                outs.append((('exc', v.exc), x))
            elif isinstance(v, Unwind):
                outs.append((('gexit', v.payload), x))
            elif p is None:
                outs.append((('exc', ExcV('RuntimeError', True, 'op', ())),
                             x))
            elif p == 'exc':
                outs.append((('next',), x))  # swallowed
            else:
                outs.append((p, x))
        return outs

    def with_inst(self, v, st, node, fr, inner, is_async):
        en, ex = ('__aenter__', '__aexit__') if is_async else (
            '__enter__', '__exit__')
        res = self.call_method(v, en, [], [], st, node, fr)
        if is_async:
            res = self.bind(res, lambda c, x: self.await_(c, x, node, fr))

        def k(ent, x):
            outs = []
            for o, y in inner(ent, x):
                if o[0] == 'exc':
                    a = [self.type_of(o[1]), o[1], TOP]
                else:
                    a = [NONE, NONE, NONE]
                r = self.call_method(v, ex, a, [], y, node, fr)
                if is_async:
                    r = self.bind(r, lambda c, z: self.await_(c, z, node, fr))
                for rv, z in r:
                    if abrupt(rv):
                        outs.extend(self.outs([(rv, z)]))
                    elif o[0] == 'exc':
                        for b, w in self.truth(rv, z, node, fr):
                            outs.append((('next',) if b else o, w))
                    else:
                        outs.append((o, z))
            return outs
        return self.outs(res, k)

    def type_of(self, v):
        if isinstance(v, ExcV) and v.exact:
            return Ext(v.cls)
        return Term('type', (v,))

    # -- imports -----------------------------------------------------------
    def absent_module(self, name):
        return name.split('.')[0] in (
            ('fcntl', 'pwd', 'grp', 'resource', 'termios')
            if self.h.platform == 'windows' else ('msvcrt', 'winreg'))

    def ex_Import(self, s, st, fr):
        if any(self.absent_module(al.name) for al in s.names):
            return [(('exc', ExcV('ImportError', True, 'op', ())), st)]
        for al in s.names:
            name = al.name
            if al.asname:
                v = Ext(name)
                st = self.store(al.asname, v, st, fr)
            else:
                st = self.store(name.split('.')[0],
                                Ext(name.split('.')[0]), st, fr)
        return [(('next',), st)]

    def ex_ImportFrom(self, s, st, fr):
        mod = s.module or ''
        if not s.level and self.absent_module(mod):
            return [(('exc', ExcV('ImportError', True, 'op', ())), st)]
        if s.level:
            m = self.p.modules[fr.mod]
            parts = fr.mod.split('.')
            if not m.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        for al in s.names:
            if al.name == '*':
                raise Broken('import *')
            full = f"{mod}.{al.name}"
            if full in self.p.modules:
                v = Ext(full)
            elif mod in self.p.modules and mod != f"{self.p.package}.typing":
                st = self.load(mod, st)
                v = self.module_attr(mod, al.name, st)
            else:
                c = self.h.consts.get(full) or self.modelmod.CONSTS.get(
                    full)
                p = self.modelmod.ALIAS.get(full, full)
                v = c if c is not None else Ext(exc_canon(p))
            st = self.store(al.asname or al.name, v, st, fr)
        return [(('next',), st)]

    # -- simple expressions ------------------------------------------------
    def ev(self, n, st, fr):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Broken(f"unsupported expression {type(n).__name__} at "
                         f"{sname(n)}")
        return m(n, st, fr)

    def ev_Constant(self, n, st, fr):
        return [(Const(n.value), st)]

    def ev_Name(self, n, st, fr):
        return self.lookup(n.id, st, fr, n)

    def ev_NamedExpr(self, n, st, fr):
        def k(v, x):
            f = fr
            while isinstance(f.node, (ast.ListComp, ast.SetComp, ast.DictComp,
                                      ast.GeneratorExp)) and f.up:
                f = f.up
            return [(v, self.store(n.target.id, v, x, f))]
        return self.bind(self.ev(n.value, st, fr), k)

    def ev_Tuple(self, n, st, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self._starred(n, st, fr, lambda its, x: [
                (self._tuplecat(its, x), x)])
        return self.seq(n.elts, st, fr,
                        lambda vs, x: [(Tup(tuple(vs)), x)])

    def _tuplecat(self, its, st):
        if not any(isinstance(i, Star) for i in its):
            return Tup(tuple(its))
        if len(its) == 1:
            return self.as_tuple(its[0].v, st)
        return Term('tuplecat', tuple(its))

    def _starred(self, n, st, fr, k):
        nodes = [e.value if isinstance(e, ast.Starred) else e
                 for e in n.elts]

        def k2(vs, x):
            args = [Star(v) if isinstance(e, ast.Starred) else v
                    for e, v in zip(n.elts, vs)]

            def k3(args, y):
                its = []
                for a in args:
                    if isinstance(a, Star):
                        i = self.items_of(a.v, y)
                        if i is not None:
                            its.extend(i)
                        else:
                            its.append(a)
                    else:
                        its.append(a)
                return k(its, y)
            return self.expand(args, x, n, fr, k3)
        return self.seq(nodes, st, fr, k2)

    def ev_List(self, n, st, fr):
        def mk(its, x):
            r, x = self.alloc(x, 'list', n, fr, items=tuple(
                Star(self.elem_of(i.v)) if isinstance(i, Star)
                and not isinstance(i.v, Star) else i for i in its))
            return [(r, x)]
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self._starred(n, st, fr, mk)
        return self.seq(n.elts, st, fr, mk)

    def elem_of(self, v):
        return Term('elem', (v,))

    def ev_Set(self, n, st, fr):
        def mk(its, x):
            r, x = self.alloc(x, 'set', n, fr, items=frozenset(its))
            return [(r, x)]
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self._starred(n, st, fr, mk)
        return self.seq(n.elts, st, fr, mk)

    def ev_Dict(self, n, st, fr):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)

        def mk(vals, x):
            it = iter(vals)
            r, x = self.alloc(x, 'dict', n, fr, ent=())
            res = [(NONE, x)]
            for k, _ in zip(n.keys, n.values):
                if k is None:
                    m = next(it)
                    res = self.bind(res, lambda _, y, m=m: self.method(
                        r, 'update', [m], [], y, n, fr))
                else:
                    kk, vv = next(it), next(it)
                    res = self.bind(res, lambda _, y, kk=kk, vv=vv:
                                    self.set_item(r, kk, vv, y, n, fr))
            return self.bind(res, lambda _, y: [(r, y)])
        return self.seq(nodes, st, fr, mk)

    def ev_JoinedStr(self, n, st, fr):
        nodes = [p.value for p in n.values
                 if isinstance(p, ast.FormattedValue)]

        def k(vals, x):
            it = iter(vals)
            parts = tuple(
                next(it) if isinstance(p, ast.FormattedValue)
                else Const(p.value) for p in n.values)
            if all(isinstance(p, Const) for p in parts) and not any(
                    isinstance(p, ast.FormattedValue)
                    and (p.format_spec or p.conversion != -1)
                    for p in n.values):
                return [(Const(''.join(str(p.v) for p in parts)), x)]
            if len(parts) == 1 and not isinstance(parts[0], Const) and all(
                    p.conversion in (-1, 115) and p.format_spec is None
                    for p in n.values):
                # format(x) is str(x)
                return self.call(Ext('str'), list(parts), [], x, n, fr)
            return [(Term('fstr', parts), x)]
        return self.seq(nodes, st, fr, k)

    def ev_Starred(self, n, st, fr):
        return self.bind(self.ev(n.value, st, fr),
                         lambda v, x: [(Star(v), x)])

    def ev_IfExp(self, n, st, fr):
        out = []
        for b, x in self.cond(n.test, st, fr):
            if isinstance(b, tuple):
                out.extend(self.to_val([(b, x)]))
            else:
                out.extend(self.ev(n.body if b else n.orelse, x, fr))
        return out

    def ev_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)

        def go(i, st):
            res = self.ev(n.values[i], st, fr)
            if i == len(n.values) - 1:
                return res
            out = []
            for v, x in res:
                if abrupt(v):
                    out.append((v, x))
                    continue
                for b, y in self.truth(v, x, n.values[i], fr):
                    if b == isand:
                        out.extend(go(i + 1, y))
                    else:
                        out.append((v, y))
            return out
        return go(0, st)

    def ev_UnaryOp(self, n, st, fr):
        def k(v, x):
            if isinstance(n.op, ast.Not):
                return [(Const(not b), y)
                        for b, y in self.truth(v, x, n, fr)]
            if isinstance(v, Const):
                try:
                    c = {'USub': lambda a: -a, 'UAdd': lambda a: +a,
                         'Invert': lambda a: ~a}[
                        type(n.op).__name__](v.v)
                    return [(Const(c), x)]
                except TypeError:
                    return [(self.exc('TypeError', n), x)]
            if isinstance(n.op, ast.USub):
                return [(self.lin_val(_scale(self.lin(v), -1)), x)]
            return [(Term(type(n.op).__name__, (v,)), x)]
        return self.bind(self.ev(n.operand, st, fr), k)

    def ev_BinOp(self, n, st, fr):
        return self.seq([n.left, n.right], st, fr, lambda vs, x: self.binop(
            type(n.op).__name__, vs[0], vs[1], x, n, fr))

    def binop(self, op, a, b, st, node, fr):
        r = self.h.binop(op, a, b, st, node, fr)
        if r is not None:
            return r
        if isinstance(a, Const) and isinstance(b, Const):
            f = _OPS.get(op)
            if f:
                try:
                    c = f(a.v, b.v)
                except Exception as e:
                    return [(self.exc(type(e).__name__, node), st)]
                if isinstance(c, int) and not isinstance(c, bool) and \
                        abs(c) > self.h.widen_int and len(
                            self.stack) and not _big(a, b, self.h.widen_int):
                    s, st = self.fresh(st, node, fr, 'wide', 'num')
                    return [(s, st)]
                return [(Const(c), st)]
        if op == 'Add':
            la, lb = self.items_of(a, st), self.items_of(b, st)
            if isinstance(a, (Tup, NTup)) and isinstance(b, (Tup, NTup)):
                return [(Tup(la + lb), st)]
            if isinstance(a, Ref) and isinstance(b, Ref) and la is not None \
                    and lb is not None:
                r, st = self.alloc(st, 'list', node, fr, items=la + lb)
                return [(r, st)]
            if self.is_tuple(a, st) or self.is_tuple(b, st):
                def parts(v):
                    if isinstance(v, (Tup, NTup)):
                        return v.items
                    if isinstance(v, Term) and v.op == 'tuplecat':
                        return v.args
                    return (Star(v),)
                return [(Term('tuplecat', parts(a) + parts(b)), st)]
            if self.is_str(a) or self.is_str(b):
                return [(Term('strcat', (a, b)), st)]
        if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and (
                self._is_kind(a, st, ('set', 'dict'))):
            name = {'BitOr': 'union', 'BitAnd': 'intersection',
                    'Sub': 'difference', 'BitXor': 'symmetric_difference'}[op]
            if st.obj(a).kind == 'dict' and op == 'BitOr':
                return self.bind(
                    self.method(a, 'copy', [], [], st, node, fr),
                    lambda r, x: self.bind(
                        self.method(r, 'update', [b], [], x, node, fr),
                        lambda _, y: [(r, y)]))
            return self.method(a, name, [b], [], st, node, fr)
        if op in ('BitOr', 'BitAnd', 'BitXor'):
            # flag algebra: flatten, fold constants
            return [(_flags(op, a, b), st)]
        if op == 'Mod' and self.is_str(a):
            return [(Term('fstr', (a, b)), st)]
        if op == 'Mult' and (isinstance(a, Ref) or isinstance(b, Ref)):
            lst, k = (a, b) if isinstance(a, Ref) else (b, a)
            its = self.items_of(lst, st)
            if its is not None and isinstance(k, Const):
                r, st = self.alloc(st, 'list', node, fr, items=its * k.v)
                return [(r, st)]
        if op in ('Add', 'Sub'):
            la, lb = self.lin(a), self.lin(b)
            if la is not None and lb is not None:
                return [(self.lin_val(_addlin(
                    la, lb if op == 'Add' else _scale(lb, -1))), st)]
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Const) and isinstance(x.v, (int, float)):
                    l = self.lin(y)
                    if l is not None:
                        return [(self.lin_val(_scale(l, x.v)), st)]
        return [(self.deep(Term(op, (a, b))), st)]

    def deep(self, t, limit=12):
        def depth(v):
            if isinstance(v, Val):
                return 1 + max([0] + [depth(x) for x in v.a])
            if isinstance(v, tuple):
                return max([0] + [depth(x) for x in v])
            return 0
        return t if depth(t) < 2 * limit else Sym('deep', 'num')

    def _is_kind(self, v, st, kinds):
        return isinstance(v, Ref) and st.has(v) and st.obj(v).kind in kinds

    def is_tuple(self, v, st):
        return isinstance(v, (Tup, NTup)) or (
            isinstance(v, Sym) and v.kind == 'tuple') or (
            isinstance(v, Term) and v.op in ('tuple', 'tuplecat')) or (
            isinstance(v, Const) and isinstance(v.v, tuple))

    def is_str(self, v):
        return (isinstance(v, Const) and isinstance(v.v, str)) or (
            isinstance(v, Sym) and v.kind == 'str') or (
            isinstance(v, Term) and v.op in ('fstr', 'strcat', 'str',
                                             'repr', 'joined', 'substr'))

    # -- numbers -----------------------------------------------------------
    def lin(self, v):
        """Linear form (const, {atom: coef}) of a numeric value or None."""
        if isinstance(v, Const):
            if isinstance(v.v, (int, float)):
                return (v.v, {})
            return None
        if isinstance(v, Term) and v.op == 'lin':
            return (v.args[0], dict(v.args[1]))
        if isinstance(v, (Sym, Term)):
            return (0, {v: 1})
        return None

    def lin_val(self, l):
        c, d = l
        d = {k: x for k, x in d.items() if x != 0}
        if not d:
            return Const(c)
        if c == 0 and len(d) == 1:
            (k, x), = d.items()
            if x == 1:
                return k
        return Term('lin', (c, tuple(sorted(d.items(), key=repr))))

    def atom_range(self, a, st):
        k = a.kind if isinstance(a, Sym) else None
        if k == 'num+':
            return (0, True, None, False)
        if k in ('num0+', 'len') or (isinstance(a, Term) and a.op == 'len'):
            return (0, False, None, False)
        if k == 'num-':
            return (None, False, 0, True)
        return (None, False, None, False)

    def lin_range(self, l, st):
        """(lo, lo_open, hi, hi_open)"""
        c, d = l
        lo, lo_o, hi, hi_o = c, False, c, False
        for a, k in d.items():
            al, alo, ah, aho = self.atom_range(a, st)
            if k < 0:
                al, alo, ah, aho = ah, aho, al, alo
            if lo is not None:
                if al is None:
                    lo = None
                else:
                    lo, lo_o = lo + k * al, lo_o or alo
            if hi is not None:
                if ah is None:
                    hi = None
                else:
                    hi, hi_o = hi + k * ah, hi_o or aho
        return lo, lo_o, hi, hi_o

    def decide_pos(self, l, st):
        lo, lo_o, hi, hi_o = self.lin_range(l, st)
        if lo is not None and (lo > 0 or (lo == 0 and lo_o)):
            return True
        if hi is not None and hi <= 0:
            return False
        # one step from known facts
        for k, v in st.facts.items():
            if isinstance(k, Term) and k.op in ('pos', 'zero'):
                l1 = self.lin(k.args[0])
                if k.op == 'zero':
                    if not v:
                        continue
                    for sg in (1, -1):
                        diff = _addlin(l, _scale(l1, sg))
                        lo, lo_o, hi, hi_o = self.lin_range(diff, st)
                        if lo is not None and (lo > 0 or (lo == 0 and lo_o)):
                            return True
                        if hi is not None and hi <= 0:
                            return False
                    continue
                if v:     # l1 > 0
                    diff = _addlin(l, _scale(l1, -1))
                    lo = self.lin_range(diff, st)[0]
                    if lo is not None and lo >= 0:
                        return True
                    diff = _addlin(l, l1)      # -l >= l1 > 0
                    hi = self.lin_range(diff, st)[2]
                    if hi is not None and hi <= 0:
                        return False
                else:     # l1 <= 0
                    diff = _addlin(l, _scale(l1, -1))
                    hi = self.lin_range(diff, st)[2]
                    if hi is not None and hi <= 0:
                        return False
                    # l + l1 > 0  =>  l > -l1 >= 0
                    lo, lo_o, _, _ = self.lin_range(_addlin(l, l1), st)
                    if lo is not None and (lo > 0 or (lo == 0 and lo_o)):
                        return True
        return None

    # -- predicates --------------------------------------------------------
    def decide(self, t, st):
        """Known truth of a predicate term: True, False or None."""
        if t in st.facts:
            return st.facts[t]
        if t.op == 'pos':
            r = self.decide_pos(self.lin(t.args[0]), st)
            if r is not None:
                return r
        elif t.op == 'zero':
            l = self.lin(t.args[0])
            lo, lo_o, hi, hi_o = self.lin_range(l, st)
            if (lo is not None and (lo > 0 or (lo == 0 and lo_o))) or (
                    hi is not None and (hi < 0 or (hi == 0 and hi_o))):
                return False
            p = self.decide_pos(l, st)
            q = self.decide_pos(_scale(l, -1), st)
            if p or q:
                return False
            if p is False and q is False:
                return True
        elif t.op == 'truthy':
            v = t.args[0]
            if isinstance(v, (Sym, Term)):
                if st.facts.get(Term('is', _pair(v, NONE))) is True:
                    return False
                k = v.kind if isinstance(v, Sym) else None
                if k and k.startswith('num'):
                    z = self.decide(Term('zero', (v,)), st)
                    if z is not None:
                        return not z
        elif t.op == 'is':
            a, b = t.args
            if b == NONE and st.facts.get(Term('truthy', (a,))) is True:
                return False
            if a == NONE and st.facts.get(Term('truthy', (b,))) is True:
                return False
        return self.h.decide(t, st)

    def assume(self, t, val, st):
        if t.op == 'truthy' and isinstance(t.args[0], Sym) and \
                (t.args[0].kind or '').startswith('num'):
            return self.assume(Term('zero', t.args), not val, st)
        return self.h.assumed(t, val, st.with_fact(t, val))

    def emptiness(self, t, st):
        """(container, meaning) if the term only asks whether a container
        has elements."""
        if t.op not in ('pos', 'zero') or self.h.opaque_len:
            return None
        c, d = self.lin(t.args[0])
        d = {k: x for k, x in d.items() if x}
        if len(d) != 1:
            return None
        (a, k), = d.items()
        if not (isinstance(a, Term) and a.op == 'len' and isinstance(
                a.args[0], Ref) and st.has(a.args[0])):
            return None
        if st.obj(a.args[0]).kind not in ('list', 'set', 'deque', 'dict'):
            return None
        if t.op == 'zero':
            return (a.args[0], False) if c == 0 else None
        if k == 1 and c == 0:
            return a.args[0], True
        if k == -1 and c == 1:
            return a.args[0], False
        return None

    def branch(self, t, st):
        e = self.emptiness(t, st)
        if e is not None:
            return [(b == e[1], x) for b, x in self.truth(e[0], st, None,
                                                          None)]
        r = self.decide(t, st)
        if r is not None:
            return [(r, st)]
        out = []
        for b in (True, False):
            x = self.assume(t, b, st)
            if x is not None:
                out.append((b, x))
        return out

    def truth(self, v, st, node, fr):
        """[(bool, st)]"""
        r = self.h.truth(v, st, node, fr)
        if r is not None:
            return r
        if isinstance(v, Const):
            return [(bool(v.v), st)]
        if isinstance(v, (Tup, NTup)):
            return [(bool(v.items), st)]
        if isinstance(v, (Func, Bound, Partial, Ext, Coro, GenV, CM, ExtCoro,
                          ExcV)):
            return [(True, st)]
        if isinstance(v, Ref) and st.has(v):
            o = st.obj(v)
            g = self.modelmod.TRUTH.get(o.kind)
            if g:
                return g(self, v, st, node, fr)
            if o.kind == 'inst':
                for m in ('__bool__', '__len__'):
                    f = self.class_lookup(o.get('$class'), m, st)
                    if f is not None:
                        out = []
                        for r, x in self.call(Bound(f, v), [], [], st, node,
                                              fr):
                            if abrupt(r):
                                raise Broken(f'__bool__ raises {sname(node)}')
                            out.extend(self.truth(r, x, node, fr))
                        return out
            return [(True, st)]
        if isinstance(v, Term):
            if v.op == 'not':
                return [(not b, x) for b, x in self.truth(
                    v.args[0], st, node, fr)]
            if v.op in ('pos', 'zero', 'is', 'eq', 'in', 'isinstance',
                        'pred'):
                return self.branch(v, st)
            if v.op in ('lin', 'len'):
                return [(not b, x) for b, x in self.branch(
                    self.zero_term(v), st)]
            if v.op == 'tuplecat' and any(
                    not isinstance(i, Star) for i in v.args):
                return [(True, st)]
            return self.branch(Term('truthy', (v,)), st)
        if isinstance(v, Sym):
            if v.kind in self.h.truthy_kinds:
                return [(True, st)]
            if v.kind and v.kind.startswith('num'):
                return [(not b, x) for b, x in self.branch(
                    Term('zero', (v,)), st)]
        return self.branch(Term('truthy', (v,)), st)

    def zero_term(self, v):
        return Term('zero', (self._canon(self.lin(v)),))

    def _canon(self, l):
        """Sign-normalised linear value, for equality predicates."""
        c, d = l
        items = sorted(((k, x) for k, x in d.items() if x), key=repr)
        if items and items[0][1] < 0:
            l = _scale(l, -1)
        return self.lin_val(l)

    def ev_Compare(self, n, st, fr):
        ops = [type(o).__name__ for o in n.ops]

        def go(i, left, st):
            def k(right, x):
                out = []
                for b, y in self.compare(ops[i], left, right, x, n, fr):
                    if abrupt(b):
                        out.append((b, y))
                    elif isinstance(b, Val) and i == len(ops) - 1:
                        out.append((b, y))
                    else:
                        bs = [(b, y)] if not isinstance(b, Val) else \
                            self.truth(b, y, n, fr)
                        for bb, z in bs:
                            if bb and i < len(ops) - 1:
                                out.extend(go(i + 1, right, z))
                            else:
                                out.append((Const(bb), z))
                return out
            self.temps.append(left)
            try:
                res = self.ev(n.comparators[i], st, fr)
            finally:
                self.temps.pop()
            return self.bind(res, k)
        return self.bind(self.ev(n.left, st, fr), lambda v, x: go(0, v, x))

    def compare(self, op, a, b, st, node, fr):
        """[(bool | Val | Raised, st)]"""
        r = self.h.compare(op, a, b, st, node, fr)
        if r is not None:
            return r
        if op == 'Is':
            return self.same(a, b, st)
        if op == 'IsNot':
            return [(not x, s) for x, s in self.same(a, b, st)]
        if op == 'Eq':
            return self.equal(a, b, st, node, fr)
        if op == 'NotEq':
            return [(not x, s) for x, s in self.equal(a, b, st, node, fr)]
        if op == 'In':
            return self.contains(b, a, st, node, fr)
        if op == 'NotIn':
            return [(x if abrupt(x) else not x, s)
                    for x, s in self.contains(b, a, st, node, fr)]
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return [(_CMP[op](a.v, b.v), st)]
            except TypeError:
                return [(self.exc('TypeError', node), st)]
        if isinstance(a, Tup) and isinstance(b, Tup) and all(
                isinstance(x, Const) for x in a.items + b.items):
            try:
                return [(_CMP[op](tuple(x.v for x in a.items),
                                  tuple(x.v for x in b.items)), st)]
            except TypeError:
                return [(self.exc('TypeError', node), st)]
        la, lb = self.lin(a), self.lin(b)
        if la is None or lb is None:
            if a == NONE or b == NONE:
                return [(self.exc('TypeError', node), st)]
            return self.branch(Term('pred', (Const(op), a, b)), st)
        if abs(la[0]) == abs(lb[0]) == math.inf:
            return [((la[0] < lb[0]) if op == 'Lt' else (
                la[0] > lb[0]) if op == 'Gt' else (
                la[0] <= lb[0]) if op == 'LtE' else la[0] >= lb[0], st)]
        if op in ('Lt', 'GtE'):
            l = _addlin(lb, _scale(la, -1))   # a<b : b-a>0
            neg = op == 'GtE'
        else:
            l = _addlin(la, _scale(lb, -1))   # a>b : a-b>0
            neg = op == 'LtE'
        v = self.lin_val(l)
        if abs(l[0]) == math.inf:
            return [((l[0] > 0) != neg, st)]
        if isinstance(v, Const):
            r = v.v > 0
            return [(r != neg, st)]
        return [(x != neg, s) for x, s in self.branch(Term('pos', (v,)), st)]

    def same(self, a, b, st):
        """Identity: [(bool, st)]"""
        if a == b:
            if self.is_summary(a):
                return self.branch(Term('is', (a, b)), st)
            return [(True, st)]
        if isinstance(a, Const) and isinstance(b, Const):
            return [(False, st)]
        d = self.distinct(a, b, st)
        if d:
            return [(False, st)]
        return self.branch(Term('is', _pair(a, b)), st)

    _NEVER_NONE = (Func, Bound, Partial, Ext, Coro, GenV, CM, ExtCoro, ExcV,
                   Ref, Tup, NTup, Stream)

    def distinct(self, a, b, st):
        """Certainly different objects."""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, self._NEVER_NONE) and not isinstance(x, Ref):
                if isinstance(y, Const):
                    return True
            if isinstance(x, Ref):
                if isinstance(y, (Const, Func, Ext, Tup, ExcV, NTup, Coro,
                                  GenV)):
                    return True
                if isinstance(y, Ref):
                    return True
            if isinstance(x, Ext) and isinstance(y, (Func, Tup, NTup, Ext)):
                return x != y
            if y == NONE and isinstance(x, Sym) and x.kind in \
                    self.h.not_none_kinds:
                return True
            if y == NONE and isinstance(x, Term) and x.op in (
                    'lin', 'len', 'fstr', 'strcat', 'str', 'repr', 'tuple',
                    'tuplecat', 'frozenset', 'awaititer', 'map', 'zip'):
                return True
        if isinstance(a, (Tup, NTup)) and isinstance(b, (Tup, NTup)) and (
                type(a) is not type(b) or not any(
                    isinstance(x, Star) for x in a.items + b.items) and (
                    len(a.items) != len(b.items) or any(
                        isinstance(x, Const) and isinstance(y, Const)
                        and x != y or self.distinct(x, y, st)
                        for x, y in zip(a.items, b.items)))):
            return True
        return self.h.distinct(a, b, st)

    def equal(self, a, b, st, node, fr):
        if a == b and not self.is_summary(a) and not isinstance(a, Star):
            return [(True, st)]
        if isinstance(a, Const) and isinstance(b, Const):
            return [(a.v == b.v, st)]
        if isinstance(a, (Tup, NTup)) and isinstance(b, (Tup, NTup)):
            if len(a.items) != len(b.items):
                return [(False, st)]
            res = [(True, st)]
            for x, y in zip(a.items, b.items):
                nxt = []
                for r, s in res:
                    nxt.extend(self.equal(x, y, s, node, fr) if r
                               else [(False, s)])
                res = nxt
            return res
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Tup, NTup)) and isinstance(
                    y, (Const, Ext, Func, ExcV)):
                return [(False, st)]
            if isinstance(x, (Tup, NTup)) and isinstance(y, Ref):
                return [(False, st)]
        if isinstance(a, Ref) and isinstance(b, Ref) and st.has(a) and \
                st.has(b):
            oa, ob = st.obj(a), st.obj(b)
            if oa.kind == ob.kind == 'inst':
                ca = oa.get('$class')
                if ca == ob.get('$class') and st.obj(ca).get('$dc') \
                        and not st.obj(ca).get('$dcnoeq'):
                    fs = self.dc_fields(ca, st)
                    return self.equal(
                        Tup(tuple(oa.get(f, NONE) for f in fs)),
                        Tup(tuple(ob.get(f, NONE) for f in fs)), st, node, fr)
                return self.same(a, b, st)
            if oa.kind == ob.kind and oa.kind in (
                    'list', 'dict', 'set', 'deque'):
                return self.branch(Term('eq', _pair(a, b)), st)
            return self.same(a, b, st)
        la, lb = self.lin(a), self.lin(b)
        if (self._numeric(a) and lb is not None) or (
                self._numeric(b) and la is not None):
            v = self._canon(_addlin(la, _scale(lb, -1)))
            if isinstance(v, Const):
                return [(v.v == 0, st)]
            return self.branch(Term('zero', (v,)), st)
        if isinstance(a, (Sym, Term, Bound)) or isinstance(
                b, (Sym, Term, Bound)):
            r = self.h.equal(a, b, st)
            if r is not None:
                return [(r, st)]
            if (a == NONE or b == NONE) and self.distinct(a, b, st):
                return [(False, st)]
            if self.h.identity_eq(a, st) or self.h.identity_eq(b, st):
                return self.same(a, b, st)
            if a == NONE or b == NONE:
                return self.same(a, b, st)
            return self.branch(Term('eq', _pair(a, b)), st)
        return [(False, st)] if self.distinct(a, b, st) else self.branch(
            Term('eq', _pair(a, b)), st)

    def _numeric(self, v):
        return (isinstance(v, Sym) and (v.kind or '').startswith('num')) or (
            isinstance(v, Term) and v.op in ('lin', 'len')) or (
            isinstance(v, Const) and isinstance(v.v, (int, float))
            and not isinstance(v.v, bool))

    def contains(self, cont, v, st, node, fr):
        if isinstance(cont, Ref) and st.has(cont):
            o = st.obj(cont)
            if o.kind == 'inst':
                out = []
                for r, x in self.call_method(cont, '__contains__', [v], [],
                                             st, node, fr):
                    if abrupt(r):
                        out.append((r, x))
                    else:
                        out.extend(self.truth(r, x, node, fr))
                return out
            g = self.modelmod.CONTAINS.get(o.kind)
            if g:
                return g(self, cont, v, st, node, fr)
        items = self.items_of(cont, st)
        if isinstance(cont, Const) and isinstance(cont.v, str) and isinstance(
                v, Const):
            return [(v.v in cont.v, st)]
        if items is not None and not isinstance(cont, Const):
            res = []
            pend = [st]
            for i in items:
                nxt = []
                for x in pend:
                    if isinstance(i, Star):
                        res.append((True, x))
                        nxt.append(x)
                        continue
                    for b, y in self.equal(v, i, x, node, fr):
                        if b:
                            res.append((True, y))
                        else:
                            nxt.append(y)
                pend = nxt
            return res + [(False, x) for x in pend]
        return self.branch(Term('in', (cont, v)), st)

    # -- comprehensions ------------------------------------------------
    def _comp(self, n, gens, i, st, cfr, leaf, first=None):
        """outs of running leaf for every combination."""
        g = gens[i]

        def body(elem, x):
            res = []
            for o, y in self.assign(g.target, elem, x, cfr):
                if o[0] != 'next':
                    res.append((o, y))
                    continue
                pend = [y]
                for cnd in g.ifs:
                    nxt = []
                    for z in pend:
                        for b, w in self.cond(cnd, z, cfr):
                            if isinstance(b, tuple):
                                res.append((b, w))
                            elif b:
                                nxt.append(w)
                            else:
                                res.append((('next',), w))
                    pend = nxt
                for z in pend:
                    if i + 1 < len(gens):
                        res.extend(self._comp(n, gens, i + 1, z, cfr, leaf))
                    else:
                        res.extend(leaf(z))
            return res
        if first is not None:
            return self.for_each(first, st, n, cfr, body, bool(g.is_async))
        return self.outs(
            self.ev(g.iter, st, cfr),
            lambda it, x: self.for_each(it, x, n, cfr, body,
                                        bool(g.is_async)))

    # symbolic iterables: canonical terms for pure comprehensions over the
    # (unknown) arguments of the analysed call
    def symiter(self, v, st, node, fr):
        if not self.h.symbolic_comps:
            return None
        if isinstance(v, Sym) and v.kind in ('dict', 'tuple'):
            return v
        if isinstance(v, Term) and v.op in ('items', 'keys', 'values') and \
                isinstance(v.args[0], Sym):
            return v
        if isinstance(v, Term) and v.op in ('sorted', 'mapseq', 'tuple',
                                            'iter', 'list'):
            x = v.args[0]
            if self.symiter(x, st, node, fr) is not None:
                return v if v.op in ('sorted', 'mapseq') else \
                    self.symiter(x, st, node, fr)
            return None
        if isinstance(v, Ref) and st.has(v):
            sy = st.obj(v).get('sym')
            if sy is not None and sy.items[0] == Tup(st.obj(v).get('items')):
                return sy.items[1]
            return None
        if isinstance(v, GenV) and isinstance(v.fn.node, ast.GeneratorExp):
            return self.symcomp(v.fn.node, dict(v.bound)['.0'], st,
                                v.fn.env, fr)
        return None

    @staticmethod
    def symelem(base):
        x, srt = base, False
        while isinstance(x, Term) and x.op in ('sorted', 'keys', 'items',
                                               'values'):
            if x.op != 'sorted':
                kn = Term('kwname', x.args)
                kv = Term('kwvalue', x.args)
                return {'items': Tup((kn, kv)), 'keys': kn,
                        'values': kv}[x.op]
            x = x.args[0]
        if isinstance(x, Sym) and x.kind == 'dict':
            return Term('kwname', (x,))
        if isinstance(x, Term) and x.op == 'mapseq':
            return x.args[0]
        return Term('elem', (x,))

    def symcomp(self, n, first, st, env, fr):
        g = n.generators[0]
        if len(n.generators) != 1 or g.ifs or g.is_async or _has_await(n):
            return None
        base = self.symiter(first, st, n, fr)
        if base is None:
            return None
        elem = self.symelem(base)
        cfr, x = self.comp_frame(n, st, env, fr, n)
        try:
            outs = self.assign(g.target, elem, x, cfr)
            if len(outs) != 1 or outs[0][0][0] != 'next':
                return None
            res = self.ev(n.elt, outs[0][1], cfr)
        finally:
            self.stack.pop()
        if len(res) != 1 or abrupt(res[0][0]):
            return None
        v, y = res[0]
        if y.without(cfr.ref).heap != st.without(cfr.ref).heap or \
                y.mon != st.mon:
            return None
        return self.symmap(base, v)

    def symmap(self, base, v):
        if v == self.symelem(base):
            return base
        srt = isinstance(base, Term) and base.op == 'sorted'
        x = base.args[0] if srt else base
        if isinstance(x, Term) and x.op in ('items', 'keys', 'values'):
            x = x.args[0]
        if isinstance(x, Sym) and x.kind == 'dict':
            for op in ('items', 'keys', 'values'):
                t = Term(op, (x,))
                if self.symelem(t) == v:
                    return Term('sorted', (t,) + base.args[1:]) if srt else t
        return Term('mapseq', (v, base))

    def _collect(self, n, kind, st, fr, add, init):
        def k(first, x):
            if kind == 'list':
                sy = self.symcomp(n, first, x, fr.ref, fr)
                if sy is not None:
                    its = (Star(self.symelem(sy)),)
                    r, x = self.alloc(x, 'list', n, fr, 'comp', items=its,
                                      sym=Tup((Tup(its), sy)))
                    return [(r, x)]
            acc, x = self.alloc(x, kind, n, fr, 'comp', **init)
            cfr, x = self.comp_frame(n, x, fr.ref, fr, n)
            self.temps.extend((acc, first))
            try:
                outs = self._comp(n, n.generators, 0, x, cfr,
                                  lambda y: add(acc, y, cfr), first=first)
            finally:
                del self.temps[-2:]
            outs = self.pop_frame(cfr, outs)
            return self.to_val(outs, acc)
        return self.bind(self.ev(n.generators[0].iter, st, fr), k)

    def ev_ListComp(self, n, st, fr):
        def add(acc, st, cfr):
            return self.outs(
                self.ev(n.elt, st, cfr),
                lambda v, x: [(('next',), self.list_add(acc, v, x))])
        return self._collect(n, 'list', st, fr, add, {'items': ()})

    def list_add(self, ref, v, st):
        m = st.obj(ref).get('maxlen')
        if m is not None:
            its = st.obj(ref).get('items')
            if m == 0:
                return st
            if len(its) >= m:
                st = st.upd(ref, items=its[len(its) - m + 1:])
        return st.upd(ref, items=_push(st.obj(ref).get('items'), v,
                                       self.h.max_items))

    def ev_SetComp(self, n, st, fr):
        def add(acc, st, cfr):
            return self.outs(
                self.ev(n.elt, st, cfr),
                lambda v, x: [(('next',), x.upd(
                    acc, items=x.obj(acc).get('items') | {v}))])
        return self._collect(n, 'set', st, fr, add, {'items': frozenset()})

    def ev_DictComp(self, n, st, fr):
        def add(acc, st, cfr):
            return self.outs(self.seq(
                [n.key, n.value], st, cfr,
                lambda vs, x: self.set_item(acc, vs[0], vs[1], x, n, cfr)))
        return self._collect(n, 'dict', st, fr, add, {'ent': ()})

    def ev_GeneratorExp(self, n, st, fr):
        isa = any(g.is_async for g in n.generators) or _has_await(n)
        if self.streams and not isa:
            return self.bind(
                self.ev(n.generators[0].iter, st, fr),
                lambda v, x: self.bind(
                    self.sm.iter_of(self, v, x, n, fr),
                    lambda i, y: self.sm.make_gen(
                        self, Func(n, fr.ref, (), (), 'gen'),
                        (('.0', i),), y, n, fr)))
        return self.bind(self.ev(n.generators[0].iter, st, fr),
                         lambda v, x: [(GenV(
                             Func(n, fr.ref, (), (), 'gen'),
                             (('.0', v),), isa), x)])

    def to_list(self, it, st, node, fr, tag='', kind='list'):
        """Materialise an iterable into a fresh list object."""
        sy = self.symiter(it, st, node, fr)
        if sy is not None:
            its = (Star(self.symelem(sy)),)
            r, st = self.alloc(st, kind, node, fr, 'tolist' + tag, items=its,
                               sym=Tup((Tup(its), sy)))
            return [(r, st)]
        acc, st = self.alloc(st, kind, node, fr, 'tolist' + tag, items=())
        self.temps.extend((acc, it))
        try:
            outs = self.for_each(
                it, st, node, fr,
                lambda v, x: [(('next',), self.list_add(acc, v, x))])
        finally:
            del self.temps[-2:]
        return self.to_val(outs, acc)

    # -- match -------------------------------------------------------------
    def ex_Match(self, s, st, fr):
        def k(v, x):
            pend = [x]
            res = []
            for c in s.cases:
                nxt = []
                for y in pend:
                    for ok, z in self.match_pat(c.pattern, v, y, fr):
                        if not ok:
                            nxt.append(z)
                            continue
                        if c.guard is None:
                            res.extend(self.ex_block(c.body, z, fr))
                            continue
                        for b, w in self.cond(c.guard, z, fr):
                            if isinstance(b, tuple):
                                res.append((b, w))
                            elif b:
                                res.extend(self.ex_block(c.body, w, fr))
                            else:
                                nxt.append(w)
                pend = nxt
            return res + [(('next',), y) for y in pend]
        return self.outs(self.ev(s.subject, st, fr), k)

    def match_pat(self, p, v, st, fr):
        if isinstance(p, ast.MatchAs):
            res = [(True, st)] if p.pattern is None else self.match_pat(
                p.pattern, v, st, fr)
            if p.name:
                res = [(b, self.store(p.name, v, x, fr) if b else x)
                       for b, x in res]
            return res
        if isinstance(p, ast.MatchSingleton):
            return self.same(v, Const(p.value), st)
        if isinstance(p, ast.MatchValue):
            out = []
            for w, x in self.ev(p.value, st, fr):
                out.extend(self.equal(v, w, x, p, fr))
            return out
        if isinstance(p, ast.MatchOr):
            out, pend = [], [st]
            for q in p.patterns:
                nxt = []
                for x in pend:
                    for b, y in self.match_pat(q, v, x, fr):
                        (out if b else nxt).append((True, y) if b else y)
                pend = nxt
            return out + [(False, x) for x in pend]
        if isinstance(p, ast.MatchClass) and not p.kwd_patterns and len(
                p.patterns) <= 1:
            out = []
            for c, x in self.ev(p.cls, st, fr):
                for r, y in self.call_ext('isinstance', [v, c], [], x, p, fr):
                    for b, z in self.truth(r, y, p, fr):
                        if b and p.patterns:
                            out.extend(self.match_pat(p.patterns[0], v, z,
                                                      fr))
                        else:
                            out.append((b, z))
            return out
        if isinstance(p, ast.MatchSequence):
            its = self.items_of(v, st)
            if its is None:
                tg = [ast.Name(id=f'$m{i}', ctx=ast.Store())
                      for i in range(len(p.patterns))]
                its = [Term('item', (v, Const(i))) for i in range(len(tg))]
                out = []
                for b, x in self.branch(
                        Term('pred', (Const('seqlen'), v,
                                      Const(len(tg)))), st):
                    out.extend(self._match_items(p, its, x, fr) if b
                               else [(False, x)])
                return out
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Broken(f'star pattern at {sname(p)}')
            if len(its) != len(p.patterns):
                return [(False, st)]
            return self._match_items(p, its, st, fr)
        raise Broken(f'unsupported pattern at {sname(p)}')

    def _match_items(self, p, its, st, fr):
        res = [(True, st)]
        for q, i in zip(p.patterns, its):
            nxt = []
            for b, x in res:
                nxt.extend(self.match_pat(q, i, x, fr) if b else [(b, x)])
            res = nxt
        return res


def _outvals(o):
    if o[0] == 'ret':
        return o[1]
    if o[0] == 'exc':
        return o[1]
    if o[0] == 'gexit':
        return Tup((NONE,)) if not isinstance(o[1], tuple) else _outvals(o[1])
    if isinstance(o, Val):
        return o
    return NONE


def _excname(e):
    return f"{e.cls}{'' if e.exact else '+'} ({e.origin})"


def _has_await(n):
    return any(isinstance(x, ast.Await) for x in ast.walk(n))


def _push(items, v, limit):
    """Append to an item tuple, collapsing repeated/summarised items."""
    if items and (items[-1] == v or items[-1] == Star(v)) and isinstance(
            v, (Sym, Ref)) and _summ(v):
        return items[:-1] + (Star(v),)
    if items and isinstance(items[-1], Star) and items[-1].v == v:
        return items
    if len(items) >= limit:
        # widen: everything after the first few becomes one summary
        from values import TOP
        head = items[:limit - 1]
        if v in head or Star(v) in items:
            return items if Star(v) in items else head + (Star(v),)
        return head + tuple(dict.fromkeys(
            [i if isinstance(i, Star) else Star(i)
             for i in items[limit - 1:]] + [Star(v)]))
    return items + (v,)


def _summ(v):
    n = v.oid if isinstance(v, Ref) else v.name
    return isinstance(n, tuple) and n[-1] == 1


def _pair(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)


def _scale(l, k):
    c, d = l
    return (c * k, {a: x * k for a, x in d.items()})


def _addlin(a, b):
    d = dict(a[1])
    for k, x in b[1].items():
        d[k] = d.get(k, 0) + x
    return (a[0] + b[0], {k: x for k, x in d.items() if x})


def _flags(op, a, b):
    parts = []
    c = None
    for v in (a, b):
        if isinstance(v, Term) and v.op == op:
            parts.extend(v.args)
        else:
            parts.append(v)
    rest = []
    for v in parts:
        if isinstance(v, Const) and isinstance(v.v, int):
            if c is None:
                c = v.v
            else:
                c = {'BitOr': c | v.v, 'BitAnd': c & v.v,
                     'BitXor': c ^ v.v}[op]
        else:
            rest.append(v)
    if op == 'BitOr' and c == 0 and rest:
        c = None
    if c is not None:
        rest.append(Const(c))
    if op == 'BitOr':
        rest = list(dict.fromkeys(rest))
    if len(rest) == 1:
        return rest[0]
    return Term(op, tuple(sorted(rest, key=repr)))


def _big(a, b, lim):
    return any(isinstance(x.v, int) and abs(x.v) > lim for x in (a, b)
               if isinstance(x, Const))


def _as_load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


def _copy_meta(n, t):
    for k in ('_uid', '_file', '_mod', '_qual', '_fn'):
        if hasattr(t, k):
            setattr(n, k, getattr(t, k))


_OPS = {
    'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b,
    'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b,
    'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b,
    'BitOr': lambda a, b: a | b, 'BitAnd': lambda a, b: a & b,
    'BitXor': lambda a, b: a ^ b,
}
_CMP = {'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b,
        'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b}
