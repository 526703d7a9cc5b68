"""gather_excs and raise_first_exc: C20.

Both are interpreted on lists of distinct abstract awaitables (every length up
to 3, and one with a repeated awaitable; given as list and as one-shot
iterator). What an awaitable does is decided when it is first evaluated: it
may return, return an exception object, raise an instance of `only`, raise
something else, or be cancelled.
"""
import itertools

from values import *
from source import Broken
from engine import Interp, abrupt, sname
from harness import Harness, OWN_CANCEL

RULES = {
    'C20/finish': 'every awaitable is done before anything is yielded or '
                  'raised, and before the end',
    'C20/cancel': 'no awaitable is cancelled or skipped',
    'C20/start': 'all awaitables are started before any is waited for',
    'C20/exact': 'exactly the exceptions which were raised and are instances '
                 'of `only` are yielded, in the order of the awaitables',
    'C20/raises': 'nothing but own cancellation is raised by gather_excs',
    'C20/first': 'raise_first_exc raises the first of them and returns None '
                 'when there is none',
}
NEED = {'C20': ('awaitables evaluated', 'exceptions yielded', 'normal ends',
                'raised')}

ONLY = Sym('only', 'exccls')
V, RET, MATCH, OTHER, CANCM, CANCO, BASEM, SUBM = (
    'value', 'returned exception', 'raised', 'raised other', 'cancelled',
    'cancelled other', 'raised BaseException', 'raised subclass')


def outcome(i, k):
    o = ('aw', i, k)
    if k == V:
        return Sym(('value', i), 'plain')
    if k == RET:
        return ExcV('Exception', False, o, ())
    if k in (CANCM, CANCO):
        return Raised(ExcV('asyncio.CancelledError', True, o, ()))
    if k == BASEM:
        return Raised(ExcV('BaseException', False, o, ()))
    return Raised(ExcV('Exception', False, o, ()))


class GatherHarness(Harness):
    set_order = True
    alloc_k = 4
    truthy_kinds = Harness.truthy_kinds | {'exccls', 'aw'}
    not_none_kinds = Harness.not_none_kinds | {'exccls', 'aw', 'plain'}

    def __init__(self, default_only, kinds, futures):
        self.default_only = default_only
        self.kinds = kinds
        self.futures = futures
        self.stats = {}

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- awaitables --------------------------------------------------------
    def distinct(self, a, b, st):
        return isinstance(a, Sym) and isinstance(b, Sym) and a != b and \
            {a.kind, b.kind} <= {'aw', 'exccls', 'plain'}

    def identity_eq(self, v, st):
        return isinstance(v, Sym) and v.kind == 'aw' or \
            super().identity_eq(v, st)

    def start(self, v, st):
        s = st.m('started', frozenset())
        return st if v in s else st.with_m('started', s | {v})

    def started(self, st, v):
        return self.futures or v in st.m('started', ())

    def on_task(self, ref, st, node, fr):
        c = st.obj(ref).get('coro')
        if isinstance(c, Sym) and c.kind == 'aw':
            return self.start(c, st)
        return st

    def on_gather(self, args, st):
        for a in args:
            if isinstance(a, Sym) and a.kind == 'aw':
                st = self.start(a, st)
        return st

    def fut_attr(self, v, st):
        return st.m(('out', v))

    def await_opaque(self, v, st, node, fr):
        if not (isinstance(v, Sym) and v.kind == 'aw'):
            return super().await_opaque(v, st, node, fr)
        done = st.m(('out', v))
        if done is not None:
            if self.futures:
                return [(done if isinstance(done, Raised) else done, st)]
            return [(self.I.exc('RuntimeError', node), st)]
        self.count('awaitables evaluated')
        missing = [a for a in st.m('all') if not self.started(st, a)
                   and a != v and st.m(('out', a)) is None]
        if missing:
            self.I.report('C20/start', 'an awaitable is waited for although '
                          'another was not even started', node, st)
        out = []
        for w, x in self.suspend(st, node, fr, 'aw'):
            if isinstance(w, Raised):
                out.append((w, x))
                continue
            for k in self.kinds:
                o = outcome(v.name[1], k)
                y = x.with_m(('out', v), o).note(
                    node, f'awaitable {v.name[1]}: {k}')
                out.append((o, y))
        return out

    def on_cancel(self, ref, st, node):
        c = st.obj(ref).get('coro')
        if isinstance(c, Sym) and c.kind == 'aw' and not st.m('ownc'):
            self.I.report('C20/cancel', 'an awaitable is cancelled', node, st)
        return st

    def hook_method(self, recv, name, args, kwargs, st, node, fr):
        if isinstance(recv, Sym) and recv.kind == 'aw':
            if name in ('cancel', 'close'):
                if not st.m('ownc'):
                    self.I.report('C20/cancel', f'{name}() of an awaitable',
                                  node, st)
                return [(NONE, st)]
            raise Broken(f'{name}() of an awaitable')
        return None

    # -- exception classes -------------------------------------------------
    def matches(self, exc):
        if self.default_only:
            return True
        o = exc.origin
        if isinstance(o, tuple) and o[0] == 'aw':
            return o[2] in (RET, MATCH, CANCM, BASEM, SUBM)
        return None

    def exc_isinstance(self, exc, t, st):
        if t == ONLY:
            return self.matches(exc)
        return None

    def exc_may_be(self, exc, cls):
        if exc.cls == 'Exception' and exc.origin[0] == 'aw':
            return None
        if cls == 'asyncio.CancelledError' or cls == 'Exception':
            return False
        return None

    def isinst(self, v, p, c, st):
        if isinstance(v, ExcV) and c == ONLY:
            return self.matches(v)
        if isinstance(v, Sym) and v.kind == 'plain' and (
                c == ONLY or p and _is_exc(p)):
            return False
        if isinstance(v, Sym) and v.kind == 'plain':
            return None
        return None

    def expected(self, st, aws):
        out = []
        for a in aws:
            o = st.m(('out', a))
            if isinstance(o, Raised) and self.matches(o.exc):
                out.append(o.exc)
        return tuple(out)

    def unfinished(self, st, aws):
        return [a for a in aws if st.m(('out', a)) is None]


def _is_exc(p):
    from engine import is_exc_path
    return is_exc_path(p)


class Root:
    lineno = 0
    _file = '<caller>'

    def __init__(self, uid, q):
        self._uid = uid
        self._qual = q


def aw(i):
    return Sym(('aw', i), 'aw')


class Run:
    def __init__(self, program, out, default_only, kinds, futures):
        self.out = out
        self.h = GatherHarness(default_only, kinds, futures)
        self.I = Interp(program, self.h)
        self.st = self.I.load('aiuti.asyncio', State())

    def args(self, aws, lazy):
        n = Root(-1, 'caller')
        I = self.I
        lst, st = I.alloc(self.st, 'list', n, None, 'in', items=tuple(aws))
        arg = lst
        if lazy:
            arg, st = I.alloc(st, 'iterator', n, None, 'in', src=lst, pos=0)
        st = st.with_m('all', tuple(aws))
        return arg, st

    def kw(self):
        return [] if self.h.default_only else [('only', ONLY)]

    def gather_excs(self, aws, lazy):
        h, I = self.h, self.I
        arg, st = self.args(aws, lazy)
        f = I.module_attr('aiuti.asyncio', 'gather_excs', st)
        n = Root(-2, 'gather_excs')

        def body(v, x):
            h.count('exceptions yielded')
            if h.unfinished(x, aws) and not x.m('ownc'):
                I.report('C20/finish', 'an exception is yielded before all '
                         'awaitables are done', self.at(x, n), x)
            y = x.m('yielded', ())
            x = x.with_m('yielded', y + (v,))
            if len(y) > len(aws):
                I.report('C20/exact', 'too many exceptions are yielded',
                         self.at(x, n), x)
                return [(('brk',), x)]
            return [(('next',), x)]
        I.temps.append(arg)
        for g, x in I.call(f, [arg], self.kw(), st, n, None):
            if isinstance(g, Raised):
                I.report('C20/raises', f'raises {g.exc.cls}', self.at(x, n),
                         x)
                continue
            for o, y in I.for_each(g, x, n, None, body, True):
                if y.m('ownc') or o[0] == 'brk':
                    continue
                if o[0] == 'exc':
                    I.report('C20/raises', f'raises {o[1].cls} '
                             f'({o[1].origin})', self.at(y, n), y)
                    continue
                h.count('normal ends')
                if h.unfinished(y, aws):
                    I.report('C20/finish', 'ends before all awaitables are '
                             'done', self.at(y, n), y)
                    continue
                want = h.expected(y, aws)
                got = y.m('yielded', ())
                if got != want:
                    I.report('C20/exact', 'what is yielded differs from '
                             'what was raised', self.at(y, n), y.note(
                                 n, self.diff(got, want)))
        I.temps.pop()

    def diff(self, got, want):
        def s(e):
            if isinstance(e, ExcV) and isinstance(e.origin, tuple):
                return f'{e.origin[2]} #{e.origin[1]}'
            return type(e).__name__
        return (f"yields [{', '.join(map(s, got))}] instead of "
                f"[{', '.join(map(s, want))}]")

    def raise_first(self, aws, lazy):
        h, I = self.h, self.I
        arg, st = self.args(aws, lazy)
        f = I.module_attr('aiuti.asyncio', 'raise_first_exc', st)
        n = Root(-3, 'raise_first_exc')
        I.temps.append(arg)
        for c, x in I.call(f, [arg], self.kw(), st, n, None):
            res = [(c, x)] if abrupt(c) else I.await_(c, x, n, None)
            for v, y in res:
                if y.m('ownc'):
                    continue
                h.count('raised')
                if h.unfinished(y, aws):
                    I.report('C20/finish', 'ends before all awaitables are '
                             'done', self.at(y, n), y)
                    continue
                want = h.expected(y, aws)
                if isinstance(v, Raised):
                    if not want or v.exc != want[0]:
                        I.report('C20/first', 'raises something else than '
                                 'the first matching exception',
                                 self.at(y, n), y)
                elif want:
                    I.report('C20/first', 'does not raise although an '
                             'awaitable raised', self.at(y, n), y)
                elif v != NONE:
                    I.report('C20/first', 'returns something else than None',
                             self.at(y, n), y)
        I.temps.pop()

    def at(self, st, node):
        t = st.trace
        while t is not None and t[2] == '<caller>':
            t = t[0]
        n = Root(-6, node._qual)
        if t:
            n._file, n.lineno = t[2], t[1]
        return n

    def merge(self):
        fs, stats, info = self.out
        for k, v in self.I.findings.items():
            fs.setdefault(k, v)
        for k, v in self.h.stats.items():
            stats[k] = stats.get(k, 0) + v
        info['functions'] |= self.I.functions
        info['opaque'].update(self.I.opaque)
        info['variants'] += 1
        info['nodes'] = max(info['nodes'], len(self.I.nodes))
        info['steps'] += self.I.steps


def analyse(program):
    findings, stats = {}, {}
    info = {'functions': set(), 'opaque': {}, 'variants': 0, 'nodes': 0,
            'steps': 0}
    a, b, c = aw(1), aw(2), aw(3)
    full = (V, RET, MATCH, OTHER, CANCM, CANCO, BASEM, SUBM)
    few = (V, RET, MATCH, OTHER)
    for default, futures, (aws, kinds, lazy) in itertools.product(
            (False, True), (False, True), (
                ((), full, False), ((a,), full, True), ((a, b), full, False),
                ((a, b), few, True), ((a, b, c), few, True),
                ((a, b, a), few, False))):
        if default:
            kinds = tuple(k for k in kinds if k not in (OTHER, CANCO, SUBM))
        for meth in ('gather_excs', 'raise_first'):
            r = Run(program, (findings, stats, info), default, kinds,
                    futures)
            getattr(r, meth)(aws, lazy)
            r.merge()
    return findings, stats, info
