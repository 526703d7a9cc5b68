"""to_async_iter and to_sync_iter: C16.

Both are followed on sources of a few unusual elements which end or raise,
with all interleavings of the consumer, its event loop and whatever threads
and loops the functions employ (threads.py).
"""
from values import *
from source import Broken, Module
from engine import Interp
from streams import At
from threads import Threads
from parallel import analyse_all, until
import models

RULES = {
    'C16/sequence': 'the consumer gets exactly the elements of the source, '
                    'in order, each once',
    'C16/error': 'iteration ends like the source does: it stops, or the very '
                 'exception of the source is raised',
    'C16/blocks': 'the event loop is not blocked while a synchronous '
                  'iterator is',
    'C16/threads': 'no helper thread is left running when iteration has '
                   'finished',
    'C16/loop': 'an asynchronous source is iterated on one event loop, the '
                'given one if there is one',
    'C16/threadsafe': 'an event loop and what belongs to it is only touched '
                      'from its own thread: otherwise it may miss elements '
                      'until something else wakes it up, or for ever',
    'C16/completes': 'iteration finishes, however threads are scheduled',
}
NEED = {'C16': ('elements delivered', 'iterations finished', 'elements asked '
                'for')}
BY_PROP = True

DRIVER = '''
import vp
from aiuti.asyncio import to_async_iter, to_sync_iter


async def use_async(c, src):
    async for x in to_async_iter(src):
        vp.got(c, x)


async def use_slowly(c, src):
    async for x in to_async_iter(src):
        vp.got(c, x)
        await vp.pause()


def use_sync(c, src):
    for x in to_sync_iter(src):
        vp.got(c, x)


def use_sync_on(c, src, loop):
    for x in to_sync_iter(src, loop=loop):
        vp.got(c, x)


async def use_inside(c, src):
    use_sync(c, src)
'''
STOPS, RAISES, ABORTS = 'stops', 'raises', 'aborts'
WAITS = frozenset(('tq', 'tqput', 'cfut', 'tev', 'cond', 'join', 'pool',
                   'lock'))

# what sources yield
ODD = Sym(('odd', 0), 'elem')
ODD2 = Sym(('odd', 1), 'elem')
EXC = ExcV('ValueError', False, 'element', ())
EVERY = {
    'odd': (ODD,), 'odd ones': (ODD, ODD2), 'none': (NONE,),
    'same twice': (ODD, ODD), 'falsy': (Const(0), Const('')),
    'exception': (EXC,), 'tuple': (Tup((NONE, NONE)),),
    'nones': (NONE, NONE), 'nothing': (), 'bool': (FALSE, TRUE),
    'three': (ODD, NONE, ODD2), 'class': (Ext('StopIteration'),),
}
FLAVOURS = {
    'iterator': ('Iterable', 'Iterator'),
    'generator': ('Iterable', 'Iterator', 'Generator', 'GeneratorType'),
    'iterable': ('Iterable',), 'plain': ('Iterable', 'Iterator'),
    'aiter': ('AsyncIterable', 'AsyncIterator'),
    'agen': ('AsyncIterable', 'AsyncIterator', 'AsyncGenerator',
             'AsyncGeneratorType'),
    'aiterable': ('AsyncIterable',),
}
ATTRS = {
    'iterator': ('__iter__', '__next__'),
    'generator': ('__iter__', '__next__', 'send', 'throw', 'close'),
    'iterable': ('__iter__',), 'plain': ('__iter__', '__next__'),
    'aiter': ('__aiter__', '__anext__'),
    'agen': ('__aiter__', '__anext__', 'asend', 'athrow', 'aclose'),
    'aiterable': ('__aiter__',),
}
EXTRAS = {'Sized': '__len__', 'Container': '__contains__',
          'Reversible': '__reversed__', 'Collection': '__contains__',
          'getitem': '__getitem__'}


class BridgeHarness(Threads):
    truthy_kinds = Threads.truthy_kinds | {'handle'}
    not_none_kinds = Threads.not_none_kinds | {'handle', 'elem'}

    def rule(self, r, msg, node, st):
        self.I.report('C16/' + r, msg, node, st)

    def unsafe(self, loop, st):
        self.rule('threadsafe', 'a running event loop is touched from '
                  'another thread', self.site(st), st)

    def exc_may_be(self, exc, cls):
        if exc.origin == 'source' and cls in ('StopIteration',
                                              'StopAsyncIteration'):
            return False    # would be the end
        return super().exc_may_be(exc, cls)

    # -- sources -----------------------------------------------------------
    def src(self, v, st):
        if isinstance(v, Ref) and st.has(v) and st.obj(v).kind == 'usrc':
            return st.obj(v)
        return None

    def derive(self, v, o, flavour, st, node, fr):
        """The iterator of an iterable."""
        r, st = self.I.alloc(st, 'usrc', node, fr, flavour, flavour=flavour,
                             elems=o.get('elems'), pos=0, end=o.get('end'),
                             on=o.get('on'))
        return [(r, st)]

    def iter_of(self, v, st, node, fr):
        o = self.src(v, st)
        if o is not None:
            f = o.get('flavour')
            if f == 'iterable':
                return self.derive(v, o, 'plain', st, node, fr)
            if f in ('iterator', 'generator', 'plain'):
                return [(v, st)]
            return [(self.I.exc('TypeError', node), st)]
        if isinstance(v, Sym) and v.kind == 'elem':
            raise Broken('an element is iterated')
        return None

    def aiter_of(self, v, st, node, fr):
        o = self.src(v, st)
        if o.get('flavour') == 'aiterable':
            return self.derive(v, o, 'aiter', st, node, fr)
        if o.get('flavour') in ('aiter', 'agen'):
            return [(v, st)]
        return [(self.I.exc('TypeError', node), st)]

    def for_each(self, it, st, node, fr, body, is_async):
        o = self.src(it, st)
        if o is None:
            return super().for_each(it, st, node, fr, body, is_async)
        I = self.I
        if is_async:
            return I.outs(self.aiter_of(it, st, node, fr),
                          lambda v, x: I.each_opaque(v, x, node, fr, body,
                                                     True))
        return I.outs(self.iter_of(it, st, node, fr),
                      lambda v, x: I.sm.each_inext(I, v, x, node, fr, body,
                                                   False))

    def advance_source(self, it, st):
        """[('elem' | 'end' | 'exc', value, state)]"""
        o = st.obj(it)
        es, p = o.get('elems').items, o.get('pos')
        if p < len(es):
            return [('elem', es[p], st.upd(it, pos=p + 1))]
        if o.get('end') is not None and not o.get('ended'):
            return [('exc', o.get('end').exc, st.upd(it, ended=True))]
        return [('end', None, st.upd(it, ended=True))]

    def inext(self, it, st, node, fr):
        o = self.src(it, st)
        if o is None:
            return None
        f = o.get('flavour')
        if f == 'plain':
            self.count('elements asked for')
            return self.advance_source(it, st)
        if f not in ('iterator', 'generator'):
            return [('exc', self.I.exc('TypeError', node).exc, st)]
        if o.get('busy'):
            return [('exc', self.I.exc('ValueError', node).exc, st)]
        self.count('elements asked for')
        if self.loop_here(st) is not None:
            self.rule('blocks', 'the next element of an iterator is asked '
                      'for on the event loop', node, st)
        self.I.temps.append(it)
        out = []
        try:
            for w, x in self.block(Tup((Const('next'), it)), st.upd(
                    it, busy=True), node, fr):
                out.extend(self.advance_source(it, x.upd(it, busy=False)))
        finally:
            self.I.temps.pop()
        return out

    def next_elem(self, it, st, node, fr, is_async):
        o = self.src(it, st)
        if o is None:
            raise Broken('something unknown is iterated')
        if not is_async:
            return self.inext(it, st, node, fr)
        if o.get('flavour') not in ('aiter', 'agen'):
            return [('exc', self.I.exc('TypeError', node).exc, st)]
        self.count('elements asked for')
        l = self.loop_here(st)
        on = o.get('on')
        if on is not None and l != on:
            self.rule('loop', 'the source is iterated on '
                      f'{self.loop_name(l)}', node, st)
        if o.get('busy'):
            return [('exc', self.I.exc('RuntimeError', node).exc, st)]
        st = self.at(st.upd(it, busy=True, on=l), None, 'wake',
                     st.m('cur'), self.wid(st))
        self.I.temps.append(it)
        out = []
        try:
            for w, x in self.block(Tup((Const('anext'), it)), st, node, fr):
                x = x.upd(it, busy=False)
                if isinstance(w, Raised):
                    out.append(('exc', w.exc, x))
                else:
                    out.extend(self.advance_source(it, x))
        finally:
            self.I.temps.pop()
        return out

    def hook_method(self, recv, name, a, k, st, node, fr):
        o = self.src(recv, st)
        if o is None:
            return super().hook_method(recv, name, a, k, st, node, fr)
        I = self.I
        if name not in ATTRS[o.get('flavour')]:
            return [(I.exc('AttributeError', node), st)]
        if name == '__iter__':
            return self.iter_of(recv, st, node, fr)
        if name == '__aiter__':
            return self.aiter_of(recv, st, node, fr)
        if name == '__next__' or name == 'send' and a == [NONE]:
            return [(I.exc('StopIteration', node) if c == 'end' else
                     Raised(v) if c == 'exc' else v, x)
                    for c, v, x in self.inext(recv, st, node, fr)]
        if name == '__anext__' or name == 'asend' and a == [NONE]:
            return [(ExtCoro('anext', (recv,), ()), st)]
        if name == 'close':
            return [(NONE, st.upd(recv, pos=99, ended=True))]
        if name == 'aclose':
            return [(ExtCoro('sleep', (Const(0),), ()), st.upd(
                recv, pos=99, ended=True))]
        raise Broken(f'{name}() of a source')

    def hook_call(self, f, args, kwargs, st, node, fr):
        if isinstance(f, Ext):
            p = f.path
            if p.startswith('vp.'):
                return self.vp(p[3:], args, st, node, fr)
            if args:
                o = self.src(args[0], st)
                if o is not None:
                    r = self.about_source(p, o, args, st, node, fr)
                    if r is not None:
                        return r
            if p == 'isinstance' and isinstance(args[0], Sym) and \
                    args[0].kind == 'elem' and isinstance(args[1], Ref):
                # some private class
                return [(FALSE, st)]
        return super().hook_call(f, args, kwargs, st, node, fr)

    def has_extra(self, src, name, st):
        """Somebody's own iterator may have more methods than it needs."""
        o = st.obj(src)
        if o.get('flavour') not in ('iterator', 'aiter'):
            return [(FALSE, st)]
        known = dict(o.get('extras', ()))
        if name in known:
            return [(Const(known[name]), st)]
        return [(Const(v), st.upd(src, extras=tuple(sorted(
            {**known, name: v}.items())))) for v in (True, False)]

    def about_source(self, p, o, args, st, node, fr):
        fl = o.get('flavour')
        if p == 'isinstance':
            cs = args[1].items if isinstance(args[1], Tup) else (args[1],)
            ns = [c.path.split('.')[-1] for c in cs if isinstance(c, Ext)]
            if any(n in FLAVOURS[fl] for n in ns):
                return [(TRUE, st)]
            for n in ns:
                if n in EXTRAS:
                    return self.has_extra(args[0], EXTRAS[n], st)
            return [(FALSE, st)]
        if p == 'hasattr':
            if args[1].v in ATTRS[fl]:
                return [(TRUE, st)]
            if args[1].v in EXTRAS.values():
                return self.has_extra(args[0], args[1].v, st)
            return [(FALSE, st)]
        if p == 'inspect.isgenerator':
            return [(Const(fl == 'generator'), st)]
        if p == 'inspect.isasyncgen':
            return [(Const(fl == 'agen'), st)]
        if p == 'aiter':
            return self.aiter_of(args[0], st, node, fr)
        if p == 'iter' and len(args) == 1:
            return self.iter_of(args[0], st, node, fr)
        if p in ('asyncio.iscoroutine', 'inspect.isawaitable', 'callable',
                 'inspect.iscoroutine', 'asyncio.isfuture'):
            return [(FALSE, st)]
        return None

    # -- values ------------------------------------------------------------
    def distinct(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.kind == 'elem':
                return x != y
        return super().distinct(a, b, st)

    def truth(self, v, st, node, fr):
        if isinstance(v, Ref) and st.has(v) and st.obj(v).kind in (
                'cfut', 'usrc', 'fut', 'thr', 'pool', 'lock', 'tevent'):
            return [(True, st)]
        return super().truth(v, st, node, fr)

    # -- the consumers -----------------------------------------------------
    def vp(self, name, a, st, node, fr):
        if name == 'got':
            c, v = a
            es = st.m(('want', c)).items[0].items
            n = st.m(('n', c))
            self.count('elements delivered')
            if n >= len(es):
                self.rule('sequence', 'something is yielded which is not an '
                          'element of the source', self.site(st), st)
            elif v != es[n]:
                self.rule('sequence', f'{self.say(v)} is yielded instead of '
                          f'{self.say(es[n])}', self.site(st), st)
            return [(NONE, st.with_m(('n', c), n + 1))]
        if name == 'pause':
            return [(ExtCoro('sleep', (Const(1),), ()), st)]
        raise Broken(name)

    def say(self, v):
        if isinstance(v, Sym) and v.kind == 'elem':
            return f'element {v.name[1]}'
        if isinstance(v, Const):
            return repr(v.v)
        if isinstance(v, ExcV):
            return 'the exception raised' if v.origin == 'source' else \
                f'a {v.cls}'
        return 'something'

    def over(self, c, oc, t, st):
        """A consumer has finished."""
        es, end = st.m(('want', c)).items
        self.count('iterations finished')
        site = self.site(st)
        n = st.m(('n', c))
        if n < len(es.items):
            self.rule('sequence', 'iteration ends before all elements were '
                      'yielded', site, st)
        if isinstance(oc, Raised):
            if end == NONE:
                self.rule('error', f'{oc.exc.cls} is raised although the '
                          'source ends normally', site, st)
            elif oc.exc != end.exc:
                self.rule('error', f'{oc.exc.cls} is raised instead of the '
                          'exception of the source', site, st)
        elif end != NONE:
            self.rule('error', 'iteration stops although the source raises',
                      site, st)
        if st.m('single'):
            self.leftovers(t, site, st)
        return st.with_m('open', tuple(d for d in st.m('open') if d != c))

    def leftovers(self, t, site, st):
        for u in st.m('threads', ()):
            o = st.obj(u)
            if u != t and not o.get('cb') and o.get('eloop') is None \
                    and o.get('ending') is None:
                self.rule('threads', 'iteration has finished but a helper '
                          'thread still runs', site, st)
        for k, o in st.heap.items():
            if o.kind == 'pool' and o.get('used') and not o.get('down'):
                self.rule('threads', 'iteration has finished but the helper '
                          'thread of a pool is kept', site, st)

    def task_done(self, t, oc, st):
        c = st.obj(t).get('consumer')
        return [st if c is None else self.over(c, oc, t, st)]

    def thread_done(self, t, oc, st):
        c = st.obj(t).get('consumer')
        return [st if c is None else self.over(c, oc, t, st)]

    # -- what holds everywhere ---------------------------------------------
    def stuck_in_source(self, st):
        return any(w is not None and w.items[0] == Const('next') for w in (
            st.obj(t).get('wait') for t in st.m('threads', ())))

    def occupied(self, st):
        """The consumer's loop is busy while a source is blocked."""
        l = st.m('home')
        if l is None:
            return False
        a = st.obj(self.L(l)).get('active')
        return a is not None and self.stuck_in_source(st)

    def at_node(self, st):
        if not self.occupied(st) or any(
                st.obj(t).get('ending') is not None
                for t in st.m('threads', ())):
            # (whatever waits for a thread which ends does so for a moment)
            return
        a = st.obj(self.L(st.m('home'))).get('active')
        w = st.obj(a).get('wait')
        if w is not None and w.items[0].v in WAITS and not [
                1 for v, x in self.ready(a, Tup(w.items[:-1] + (FALSE,))
                                         if w.items[-1] == TRUE else w, st)]:
            self.rule('blocks', 'the event loop waits for '
                      'something while the iterator is blocked',
                      self.site(st), st)

    def passing(self, label, st):
        """Whether the step is one of a source."""
        if isinstance(label, Ref) and st.has(label):
            w = st.obj(label).get('wait')
            return w is not None and w.items[0] == Const('next')
        return False

    def busy_forever(self, st):
        self.rule('blocks', 'the event loop is kept busy while the iterator '
                  'is blocked', self.site(st), st)

    def never(self, st, dead):
        w = self.waits(st)
        self.rule('completes', ('nothing can go on' if dead else
                  'iteration never finishes') + ': ' + ', '.join(w[:6]),
                  self.site(st), st)


def add_driver(program):
    if 'driver' not in program.modules:
        m = Module('driver', '<caller>', DRIVER)
        program._annotate(m)
        program.modules['driver'] = m


class Scenario:
    def __init__(self, program, out):
        add_driver(program)
        self.h = BridgeHarness()
        self.I = Interp(program, self.h)
        self.out = out
        self.st = self.I.load('driver', State()).with_m('clk', Const(0))
        self.open = []
        self.home = None

    def fn(self, name):
        return self.I.module_attr('driver', name, self.st)

    def loop(self, name, main=False):
        l = Sym(name, 'loop')
        self.st = self.h.new_loop(l, self.st, Sym('main', 'thread') if main
                                  else None)
        return l

    def source(self, flavour, elems, end, on=None):
        at = At(('source', len(self.open)))
        es = Tup(EVERY[elems])
        e = None
        if end == RAISES:
            e = Raised(ExcV('Exception', False, 'source', ()))
        elif end == ABORTS:     # with something which is no Exception
            e = Raised(ExcV('BaseException', True, 'source', ()))
        self.want = Tup((es, NONE if e is None else e))
        if flavour in ('list', 'tuple'):
            if flavour == 'tuple':
                return es
            r, self.st = self.I.alloc(self.st, 'list', at, None, 'src',
                                      items=es.items)
            return r
        r, self.st = self.I.alloc(self.st, 'usrc', at, None, 'src',
                                  flavour=flavour, elems=es, pos=0, end=e,
                                  on=on)
        return r

    def consumer(self):
        c = Const(len(self.open))
        self.open.append(c)
        self.st = self.st.with_m(('want', c), self.want).with_m(('n', c), 0)
        return c

    def task(self, fn, *args):
        if self.home is None:
            self.home = self.loop('loop', True)
        c = self.consumer()
        at = At(('consumer', c.v))
        (coro, st), = self.I.call(self.fn(fn), [c] + list(args), [], self.st,
                                  at, None)
        (t, st), = models.make_task(self.I, coro, st, at, None,
                                    loop=self.home)
        self.st = st.upd(t, consumer=c, name='the consumer')
        if fn != 'use_inside':
            self.st = self.st.with_m('home', self.home)

    def thread(self, fn, *args):
        c = self.consumer()
        t, st = self.h.spawn(self.st, At(('consumer', c.v)), self.fn(fn),
                             [c] + list(args), consumer=c,
                             name='the consumer')
        self.st = self.h.start_thread(t, st)

    def run(self):
        st = self.st.with_m('open', tuple(self.open))
        if len(self.open) == 1:
            st = st.with_m('single', True)
        n = self.h.explore(st, lambda x: not x.m('open'))
        fs, stats, info = self.out
        for k, v in self.I.findings.items():
            fs.setdefault(k, v)
        for k, v in self.h.stats.items():
            stats[k] = stats.get(k, 0) + v
        info['functions'] |= {f for f in self.I.functions
                              if f[0].startswith('aiuti')}
        info['opaque'].update(self.I.opaque)
        info['variants'] += 1
        info['nodes'] = max(info['nodes'], len(self.I.nodes))
        info['steps'] += self.I.steps
        return n


def s_async(s, fl, elems, end, fn='use_async'):
    s.task(fn, s.source(fl, elems, end))


def s_sync(s, fl, elems, end):
    s.thread('use_sync', s.source(fl, elems, end))


def s_sync_on(s, fl, elems, end):
    l = s.loop('given')
    s.thread('use_sync_on', s.source(fl, elems, end, l), l)


def s_inside(s, fl, elems, end):
    s.task('use_inside', s.source(fl, elems, end))


def s_two(s):
    for i in (0, 1):
        s.task('use_async', s.source('iterator', ('odd', 'none')[i],
                                     (STOPS, RAISES)[i]))


def s_two_sync(s):
    for i in (0, 1):
        s.thread('use_sync', s.source('agen', ('odd', 'none')[i],
                                      (STOPS, RAISES)[i]))


def scenarios():
    yield s_async, ('iterator', 'three', RAISES)
    yield s_sync, ('agen', 'three', RAISES)
    yield s_two, ()
    yield s_two_sync, ()
    for e in ('odd', 'nothing'):
        yield s_async, ('iterator', e, ABORTS)
        yield s_async, ('generator', e, ABORTS)
        yield s_async, ('iterable', e, ABORTS)
        yield s_sync, ('agen', e, ABORTS)
        yield s_sync_on, ('aiter', e, ABORTS)
    yield s_inside, ('agen', 'odd', ABORTS)
    for end in (STOPS, RAISES):
        yield s_async, ('iterator', 'odd ones', end, 'use_slowly')
        for e in EVERY:
            yield s_async, ('iterator', e, end)
            yield s_sync, ('agen', e, end)
        for fl in ('generator', 'iterable', 'plain'):
            for e in ('odd ones', 'falsy', 'nothing'):
                yield s_async, (fl, e, end)
        for fl in ('aiter', 'aiterable'):
            for e in ('odd ones', 'falsy', 'nothing'):
                yield s_sync, (fl, e, end)
        for fl in ('agen', 'aiter', 'aiterable'):
            for e in ('odd', 'nones', 'nothing'):
                yield s_sync_on, (fl, e, end)
        for e in ('odd', 'nothing'):
            yield s_inside, ('agen', e, end)
    for e in EVERY:
        yield s_async, ('list', e, STOPS)
        yield s_async, ('tuple', e, STOPS)


def analyse(program, prop=None):
    def job(fn, args):
        def run(out):
            s = Scenario(program, out)
            fn(s, *args)
            s.run()
        return run
    add_driver(program)
    return analyse_all([job(*j) for j in scenarios()], until(prop, RULES))
