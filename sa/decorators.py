"""Decorators with and without options: C15.

Both forms are interpreted with symbolic options and what they return is
compared structurally: same code over the same bindings. The per-loop
dispatch of the batcher decorator is interpreted on several event loops.
"""
import ast
import itertools

from values import *
from source import Broken, scope_of
from engine import Interp, abrupt
from harness import Harness, OWN_CANCEL

RULES = {
    'C15/same': 'the decorator with options returns the same as wrapping the '
                'function directly with them',
    'C15/effect': 'every option given is used with the value given',
    'C15/raises': 'decorating never raises for proper arguments',
    'C15/independent': 'functions decorated with the same options don\'t '
                       'share anything',
    'C15/loops': 'every event loop gets a batcher of its own, once, '
                 'configured with the options',
    'C15/pass': 'calls are handed to the batcher of the running loop and its '
                'outcome is passed on',
}
NEED = {'C15': ('compared', 'options', 'batchers', 'batcher_calls')}

F, G = Sym('func', 'userfunc'), Sym('func2', 'userfunc')
L0, L1, L2, L3 = (Sym(f'loop{i}', 'loop') for i in range(4))
ARG1, ARG2, KEY = Sym('arg1', None), Sym('arg2', None), Sym('key', 'str')
RESULT = Sym('result', None)
FAIL = ExcV('Exception', False, 'batch', ())
MUTABLE = ('dict', 'list', 'set', 'deque', 'inst', 'aioqueue', 'aioevent',
           'aiosem', 'fut', 'task', 'aiocond', 'queue')

DECOS = {
    'threadsafe_async_cache': {'cache': 'mapping'},
    'buffer_until_timeout': {'timeout': 'num0+'},
    'async_background_batcher': {
        'max_batch_size': 'num+', 'max_concurrent_batches': 'num+',
        'batch_timeout': 'num0+', 'retention_timeout': 'num0+'},
}


class Root:
    lineno = 0
    _file = '<caller>'

    def __init__(self, uid, q):
        self._uid = uid
        self._qual = q


class DecoHarness(Harness):
    machine = True
    max_items = 16

    def __init__(self):
        self.stats = {}
        self.loop = None
        self.dead = {}
        self.nested = None
        self.batcher_cls = None

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def report(self, rule, msg, node, st):
        self.I.report(rule, msg, node, st)

    def current_loop(self, st, node, fr):
        l = st.m('loop')
        if l is None or l == NONE:
            return [(self.I.exc('RuntimeError', node), st)]
        return [(l, st)]

    def distinct(self, a, b, st):
        return isinstance(a, Sym) and isinstance(b, Sym) and \
            a.kind == b.kind and a.kind in ('loop', 'userfunc') and a != b

    def equal(self, a, b, st):
        if isinstance(a, Sym) and isinstance(b, Sym) and \
                a.kind == b.kind == 'loopid':
            return a == b
        return super().equal(a, b, st)

    def hook_call(self, f, args, kwargs, st, node, fr):
        p = f.path if isinstance(f, Ext) else None
        if p in ('id', 'hash') and args and isinstance(args[0], Sym) and \
                args[0].kind == 'loop':
            l = self.dead.get(args[0], args[0])
            return [(Sym(f'{p}({l.name})', 'loopid'), st)]
        if p in ('dict', 'copy.copy', 'copy.deepcopy') and args and \
                isinstance(args[0], Sym) and args[0].kind == 'mapping':
            # what is in the copy does not matter, it is not the original
            r, st = self.I.alloc(st, 'dict', node, fr, 'copy', ent=())
            return [(r, st)]
        if f in (F, G):
            raise Broken('the function is called while it is decorated')
        return None

    def for_each(self, it, st, node, fr, body, is_async):
        if isinstance(it, Sym) and it.kind == 'mapping' and not is_async:
            return [(('next',), st)]     # as above
        return None

    def call_opaque(self, f, args, kwargs, st, node, fr):
        if isinstance(f, Ref) and st.has(f) and st.obj(f).kind != 'class':
            return [(self.I.exc('TypeError', node), st)]
        if isinstance(f, Const):
            return [(self.I.exc('TypeError', node), st)]
        return super().call_opaque(f, args, kwargs, st, node, fr)

    def on_finalize(self, a, k, st, node, fr):
        return [(Sym('finalizer', None), st.with_m('fin', st.m('fin', ()) + (
            Tup(tuple(a)),)))]

    def call_func(self, func, bound, st, node, fr):
        n = func.node
        if getattr(n, 'name', None) == '__call__' and self.batcher_cls:
            for v in bound.values():
                if isinstance(v, Ref) and st.has(v) and \
                        st.obj(v).get('$class') == self.batcher_cls:
                    self.count('batcher_calls')
                    rest = dict(bound)
                    a = n.args
                    names = [x.arg for x in a.posonlyargs + a.args]
                    rest.pop(names[0], None)
                    return [(ExtCoro('batch', (v,) + tuple(
                        rest.get(x, NONE) for x in ('arg', 'key'))
                        if 'arg' in rest else (v,) + tuple(rest.values()),
                        ()), st)]
        return None

    def hook_await(self, v, st, node, fr):
        if isinstance(v, ExtCoro) and v.op == 'batch':
            inst, arg, key = v.args
            x = st.with_m('calls', st.m('calls', ()) + (
                Tup((inst, arg, key, st.m('loop'))),))
            out = [(RESULT, x), (Raised(FAIL), x)]
            if not st.m('nested'):
                out.append((Raised(OWN_CANCEL), x.with_m('ownc', TRUE)))
            return out
        return None

    def suspend(self, st, node, fr, what):
        # another call of the same loop runs here
        if self.nested and not st.m('nested') and not st.m('calls'):
            out = []
            x = st.with_m('nested', TRUE)
            I = self.I
            stack, temps = I.stack, I.temps
            x = x.with_m('outer', Tup(tuple(stack) + tuple(temps)))
            for y in self.nested(x):
                m = dict(y.mon)
                m.pop('nested', None)
                m.pop('outer', None)
                out.append((NONE, State(y.heap, y.facts, m, y.trace)))
            return out
        return [(NONE, st)]


class Canon:
    """Structural form of a value: code and what its names are bound to."""

    def __init__(self, I, st, glob):
        self.I, self.st, self.glob = I, st, glob
        self.num = {}
        self.refs = []
        self.atoms = set()

    def __call__(self, v):
        if isinstance(v, Ref):
            return self.ref(v)
        if isinstance(v, Sym):
            self.atoms.add(v)
            return v
        if isinstance(v, Func):
            return ('func', v.node._uid, self.free(v), self(v.defaults),
                    self(v.kwdefaults), v.flavour)
        if isinstance(v, Val):
            return (type(v).__name__,) + tuple(self(x) for x in v.a)
        if isinstance(v, tuple):
            return tuple(self(x) for x in v)
        if isinstance(v, frozenset):
            return ('set',) + tuple(sorted((self(x) for x in v), key=repr))
        if isinstance(v, ast.AST):
            return ('node', getattr(v, '_uid', -1))
        return v

    def ref(self, r):
        if r.oid in self.glob or not self.st.has(r):
            return ('global', str(r.oid))
        o = self.st.obj(r)
        if o.kind in ('class', 'frame'):
            return (o.kind, str(o.get('$name')))
        if r in self.num:
            return ('seen', self.num[r])
        self.num[r] = len(self.num)
        self.refs.append(r)
        return ('obj', o.kind) + tuple(
            (str(k), self(o.at[k])) for k in sorted(o.at, key=str)
            if k != '$keep')

    def free(self, fn):
        """Variables of enclosing functions the code uses."""
        n = fn.node
        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        own = set() if isinstance(n, ast.GeneratorExp) else set(
            scope_of(n).locals)
        out = []
        for name in sorted(names - own):
            r = fn.env
            while r is not None and self.st.has(r):
                o = self.st.obj(r)
                if o.at.get('$parent') is None:
                    break
                if name in o.at:
                    out.append((name, self(o.at[name])))
                    break
                r = o.at['$parent']
        return tuple(out)


class Run:
    def __init__(self, program, out):
        self.p, self.out = program, out
        self.where = Root(-6, '<caller>')

    def start(self, deco):
        h = DecoHarness()
        I = Interp(self.p, h)
        st = I.load('aiuti.asyncio', State())
        f = I.module_attr('aiuti.asyncio', deco, st)
        self.glob = frozenset(st.heap)
        self.h, self.I, self.name = h, I, deco
        return st, f

    def site(self, i):
        return Root(-10 - i, self.name)

    def keep(self, st, *vs):
        return st.with_m('keep', Tup((st.m('keep') or Tup(())).items
                                     + tuple(vs)))

    def report(self, rule, msg, st):
        self.I.report(rule, f'{self.name}: {msg}', self.at(st), st)

    def at(self, st):
        """Where the last thing happened."""
        t = st.trace
        while t is not None and t[2] == '<caller>':
            t = t[0]
        n = Root(-6, self.name)
        if t:
            n._file, n.lineno = t[2], t[1]
        return n

    def call(self, i, f, args, kw, st, what):
        out = []
        for v, x in self.I.call(f, args, kw, st, self.site(i), None):
            if isinstance(v, Raised):
                self.report('C15/raises', f'{what} raises {v.exc.cls}', x)
            else:
                out.append((v, self.keep(x, v)))
        return out

    def forms(self, deco, opts):
        st, f = self.start(deco)
        kw = [(k, Sym(k, v)) for k, v in DECOS[deco].items() if k in opts]
        A, B = (Sym('loop_a', 'loop'), Sym('loop_b', 'loop'))
        st = st.with_m('loop', A)
        if deco != 'buffer_until_timeout':
            st = st.with_m('loop', NONE)
        for d, x in self.call(0, f, [], kw, st, 'the decorator with options'):
            if deco == 'buffer_until_timeout':
                x = x.with_m('loop', B)
            for r1, y in self.call(1, d, [F], [], x, 'decorating with it'):
                for r2, z in self.call(2, f, [F], kw, y,
                                       'wrapping directly'):
                    for r3, w in self.call(3, d, [G], [], z,
                                           'decorating again'):
                        self.compare(r1, r2, r3, kw, w)
        self.done()
        for o in opts:
            self.others(deco, opts, o)

    def others(self, deco, opts, other):
        """The decorator is used with another value of one option before
        the first one is applied."""
        st, f = self.start(deco)
        kw = [(k, Sym(k, v)) for k, v in DECOS[deco].items() if k in opts]
        kw2 = [(k, Sym(k + '2', v) if k == other else Sym(k, v))
               for k, v in DECOS[deco].items() if k in opts]
        st = st.with_m('loop', Sym('loop_a', 'loop'))
        for d, x in self.call(0, f, [], kw, st, 'the decorator with options'):
            for e, y in self.call(4, f, [], kw2, x,
                                  'the decorator with other options'):
                for r1, z in self.call(1, d, [F], [], y, 'decorating with it'):
                    for r2, w in self.call(2, f, [F], kw, z,
                                           'wrapping directly'):
                        for r3, v in self.call(3, d, [G], [], w,
                                               'decorating again'):
                            self.compare(r1, r2, r3, kw, v)
                for r1, z in self.call(5, e, [F], [], y, 'decorating with it'):
                    for r2, w in self.call(2, f, [F], kw2, z,
                                           'wrapping directly'):
                        for r3, v in self.call(3, d, [G], [], w,
                                               'decorating again'):
                            self.compare(r1, r2, r3, kw2, v)
        self.done()

    def compare(self, r1, r2, r3, kw, st):
        h, I = self.h, self.I
        h.count('compared')
        c1, c2, c3 = (Canon(I, st, self.glob) for _ in range(3))
        a, b = c1(r1), c2(r2)
        c3(r3)
        for k, s in kw:
            h.count('options')
            for c, what in ((c1, 'the decorator with options'),
                            (c2, 'wrapping directly')):
                if s not in c.atoms:
                    self.report('C15/effect', f'{what} ignores the {k} '
                                'given', st)
                    return
        for c, what, f in ((c1, 'the decorator with options', F),
                           (c2, 'wrapping directly', F),
                           (c3, 'decorating another function', G)):
            if f not in c.atoms:
                self.report('C15/same', f'{what} does not wrap the function',
                            st)
                return
        if a != b:
            self.report('C15/same', 'the decorator with options and wrapping '
                        'directly differ' + diff(a, b), st)
            return
        for c, what in ((c2, 'wrapping it again'),
                        (c3, 'another function decorated')):
            sh = [r for r in c1.refs if r in c.num and
                  st.obj(r).kind in MUTABLE]
            if sh:
                self.report('C15/independent', f'{what} shares a '
                            f'{st.obj(sh[0]).kind}', st)
                return

    # -- batcher on several loops -------------------------------------------
    def loops(self, opts, direct):
        deco = 'async_background_batcher'
        st, f = self.start(deco)
        I, h = self.I, self.h
        cls = I.module_attr('aiuti.asyncio', 'AsyncBackgroundBatcher', st)
        h.batcher_cls = cls
        kw = [(k, Sym(k, v)) for k, v in DECOS[deco].items() if k in opts]
        st = st.with_m('loop', NONE)
        if direct:
            pairs = [(r1, r2, y) for r1, x in self.call(
                0, f, [F], kw, st, 'wrapping directly')
                for r2, y in self.call(1, f, [G], kw, x, 'wrapping directly')]
        else:
            pairs = [(r1, r2, y) for d, w in self.call(
                0, f, [], kw, st, 'the decorator with options')
                for r1, x in self.call(1, d, [F], [], w, 'decorating with it')
                for r2, y in self.call(2, d, [G], [], x,
                                       'decorating with it')]
        for r1, r2, x in pairs:
            self.scenario(cls, kw, r1, r2, x)
        self.done()

    def use(self, i, r, arg, key, loop, st):
        """[(batcher, state)] after a call which succeeded."""
        I, h = self.I, self.h
        args, kwargs = [arg], [] if key is None else [('key', key)]

        def nested(x):
            out = []
            m = x.m('calls', ())
            for v, y in self.await_(i + 20, r, [ARG2], [('key', KEY)], x):
                if not isinstance(v, Raised):
                    c = y.m('calls', ())
                    if len(c) != len(m) + 1:
                        self.report('C15/pass', 'the call is not handed to '
                                    'the batcher once', y)
                        continue
                    out.append(y.with_m('calls', m).with_m(
                        'other', c[-1].items[0]))
            return out
        h.nested = nested
        out = []
        st = st.with_m('loop', loop).with_m('calls', ()).note(
            self.site(i), f'call on {loop.name}')
        for v, x in self.await_(i, r, args, kwargs, st):
            calls = x.m('calls', ())
            if len(calls) != 1:
                if isinstance(v, Raised) and not calls:
                    self.report('C15/pass', f'a call raises {v.exc.cls}', x)
                else:
                    self.report('C15/pass', 'the call is not handed to the '
                                'batcher once', x)
                continue
            b, ga, gk, gl = calls[0].items
            if ga != arg or gk != (NONE if key is None else key):
                self.report('C15/pass', 'the batcher is not given the '
                            'argument and key of the call', x)
                continue
            if isinstance(v, Raised):
                if v.exc not in (FAIL, OWN_CANCEL) or \
                        v.exc == OWN_CANCEL and not x.m('ownc'):
                    self.report('C15/pass', f'raises {v.exc.cls} instead of '
                                'the outcome', x)
                continue
            if v != RESULT or x.m('ownc'):
                self.report('C15/pass', 'something else than the outcome is '
                            'returned', x)
                continue
            o = x.m('other')
            if o is not None and o != b:
                self.report('C15/loops', 'calls made at the same time get '
                            'different batchers on one loop', x)
                continue
            out.append((b, self.keep(x, b)))
        return out

    def await_(self, i, r, args, kwargs, st):
        I = self.I
        out = []
        for v, x in I.call(r, args, kwargs, st, self.site(i), None):
            if isinstance(v, Raised):
                out.append((v, x))
            else:
                out.extend(I.await_(v, x, self.site(i), None))
        return out

    def check(self, cls, kw, f, b, loop, st):
        """Configured like one made directly?"""
        I = self.I
        self.h.count('batchers')
        for v, x in I.call(cls, [f], kw, st, self.site(50), None):
            if isinstance(v, Raised):
                self.report('C15/raises', 'AsyncBackgroundBatcher() raises '
                            f'{v.exc.cls}', x)
                continue
            if not x.has(b):
                raise Broken('the batcher is not an object')
            c1, c2 = Canon(I, x, self.glob), Canon(I, x, self.glob)
            p, q = c1(b), c2(v)
            for k, s in kw:
                if s not in c2.atoms:
                    self.report('C15/effect', f'AsyncBackgroundBatcher '
                                f'ignores {k}', x)
                    return
            if p != q:
                lost = [k for k, s in kw if s not in c1.atoms]
                self.report('C15/effect', 'the batcher is not configured '
                            'like one made directly' + (
                                ': ' + ', '.join(lost) + ' is not passed on'
                                if lost else diff(p, q)), x)
                return
            # a loop has to be the running one
            if loop not in c1.atoms:
                self.report('C15/loops', 'the batcher does not belong to the '
                            'running loop', x)

    def scenario(self, cls, kw, r1, r2, st):
        I = self.I
        for b1, x in self.use(4, r1, ARG1, KEY, L1, st):
            self.check(cls, kw, F, b1, L1, x)
            for b, y in self.use(5, r1, ARG2, None, L1, self.collect(x)):
                if b != b1:
                    self.report('C15/loops', 'a second call on the same loop '
                                'gets another batcher', y)
                    continue
                for b2, z in self.use(6, r1, ARG1, KEY, L2, y):
                    if b2 == b1:
                        self.report('C15/loops', 'two loops share a batcher',
                                    z)
                        continue
                    self.check(cls, kw, F, b2, L2, z)
                    c1, c2 = Canon(I, z, self.glob), Canon(I, z, self.glob)
                    c1(b1), c2(b2)
                    sh = [r for r in c1.refs if r in c2.num
                          and z.obj(r).kind in MUTABLE]
                    if sh:
                        self.report('C15/loops', 'the batchers of two loops '
                                    f'share a {z.obj(sh[0]).kind}', z)
                        continue
                    self.more(cls, kw, r1, r2, b1, b2, self.collect(z))

    def more(self, cls, kw, r1, r2, b1, b2, st):
        for b, x in self.use(7, r1, ARG2, KEY, L1, st):
            if b != b1:
                self.report('C15/loops', 'a loop loses its batcher when '
                            'another loop is used', x)
                continue
            for g, y in self.use(8, r2, ARG1, KEY, L1, x):
                if g in (b1, b2):
                    self.report('C15/independent', 'two functions share a '
                                'batcher', y)
                    continue
                self.check(cls, kw, G, g, L1, y)
                self.gone(cls, kw, r1, b1, b2, y)

    def collect(self, st):
        """Whatever is only weakly referenced may be gone."""
        h = {}
        for k, o in st.heap.items():
            if o.kind == 'dict' and o.get('flavour') == 'weakvalue':
                o = o.set(ent=())
            h[k] = o
        return State(h, st.facts, st.mon, st.trace)

    def holds(self, root, what, st):
        """Is there a chain of strong references?"""
        todo, seen = [root] + [Ref(k) for k in self.glob], set()
        while todo:
            v = todo.pop()
            if isinstance(v, Sym) and v == what:
                return True
            if isinstance(v, (tuple, frozenset)):
                todo.extend(v)
            elif isinstance(v, Func):
                todo += [v.env, v.defaults, v.kwdefaults]
            elif isinstance(v, Ref):
                if v in seen or not st.has(v):
                    continue
                seen.add(v)
                o = st.obj(v)
                weak = o.kind == 'dict' and o.get('flavour')
                for k, x in o.at.items():
                    if k == 'ent' and weak in ('weak', 'weakvalue'):
                        x = tuple(e[weak == 'weak'] for e in x)
                    todo.append(x)
            elif isinstance(v, Val):
                todo.extend(v.a)
        return False

    def gone(self, cls, kw, r1, b1, b2, st):
        """L1 is closed and collected, a new loop takes its address."""
        I, h = self.I, self.h
        if self.holds(r1, L1, st):
            return      # the loop can't be collected
        heap = {}
        for k, o in st.heap.items():
            if o.kind == 'dict' and o.get('flavour') == 'weak' and o.get(
                    'ent'):
                o = o.set(ent=tuple(e for e in o.get('ent') if e[0] != L1))
            heap[k] = o
        x = State(heap, st.facts, st.mon, st.trace)
        states = [x.note(self.site(9), 'the first loop is gone, another one '
                         'takes its place in memory')]
        for t in st.m('fin', ()):
            if t.items[0] == L1:
                states = [z for y in states for v, z in I.call(
                    t.items[1], list(t.items[2:]), [], y, self.site(9),
                    None)]
        h.dead = {L3: L1}
        for y in states:
            for b, z in self.use(9, r1, ARG1, KEY, L3, y):
                if b in (b1, b2):
                    self.report('C15/loops', 'a new loop gets the batcher of '
                                'a loop which is gone', z)
        h.dead = {}

    def done(self):
        fs, stats, info = self.out
        I = self.I
        for k, v in I.findings.items():
            fs.setdefault(k, v)
        for k, v in self.h.stats.items():
            stats[k] = stats.get(k, 0) + v
        info['functions'] |= I.functions
        info['opaque'].update(I.opaque)
        info['variants'] += 1
        info['nodes'] = max(info['nodes'], len(I.nodes))
        info['steps'] += I.steps


def diff(a, b, path=''):
    """First difference of two canonical forms."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == len(b):
            for x, y in zip(a, b):
                if x != y:
                    p = path
                    if isinstance(x, tuple) and len(x) == 2 and isinstance(
                            x[0], str):
                        p = f'{path}.{x[0]}'
                    return diff(x, y, p)
        return f' in {path[1:]}' if path else ''
    return f' in {path[1:]}' if path else ''


def analyse(program):
    findings, stats = {}, {}
    info = {'functions': set(), 'opaque': {}, 'variants': 0, 'nodes': 0,
            'steps': 0}
    r = Run(program, (findings, stats, info))
    for deco, opts in DECOS.items():
        sets = [()] + [(o,) for o in opts]
        if len(opts) > 1:
            sets.append(tuple(opts))
        for o in sets:
            r.forms(deco, o)
    opts = DECOS['async_background_batcher']
    for o in [()] + [(o,) for o in opts] + [tuple(opts)]:
        for direct in (False, True):
            r.loops(o, direct)
    return findings, stats, info
