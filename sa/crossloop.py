"""ensure_aw, run_aw_threadsafe and loop_in_thread: C17.

They are called from tasks on other event loops, running in other threads, in
the scenarios below; every interleaving of all threads and loops involved is
followed (threads.py). The awaitables are coroutines, other awaitable objects,
futures and tasks of the target loop which take some time and then return or
raise.
"""
from values import *
from source import Broken, Module
from engine import Interp
from streams import At
from threads import Threads, GO, NO_ARGS, CANCELLED
import models
from parallel import analyse_all, until

RULES = {
    'C17/outcome': 'the caller gets exactly the value or exception of the '
                   'awaitable',
    'C17/target': 'the awaitable is evaluated on the target loop',
    'C17/closed': 'RuntimeError is raised for a closed target loop',
    'C17/twice': 'no loop is run which is already running',
    'C17/started': 'the loop is running when loop_in_thread returns',
    'C17/stopped': 'the loop has stopped when the stop function returns',
    'C17/completes': 'whatever is waited for is eventually done: every call '
                     'completes, however threads are scheduled',
}
NEED = {'C17': ('awaitables evaluated', 'calls completed', 'loop runs',
                'loops started', 'loops stopped', 'threads')}

DRIVER = '''
import vp
from aiuti.asyncio import ensure_aw, run_aw_threadsafe, loop_in_thread


async def ensure(aw, loop):
    return await ensure_aw(aw, loop)


async def threadsafe(aw, loop):
    return await run_aw_threadsafe(aw, loop)


async def then(aw, loop, aw2, loop2):
    await ensure_aw(aw, loop)
    return await ensure_aw(aw2, loop2)


def start_stop(loop):
    stop = loop_in_thread(loop)
    vp.started(loop)
    stop()
    vp.stopped(loop)


def start_use_stop(loop):
    stop = loop_in_thread(loop)
    vp.started(loop)
    vp.go()
    vp.wait()
    stop()
    vp.stopped(loop)


def twice(loop):
    start_stop(loop)
    start_stop(loop)


def use_after(loop):
    start_stop(loop)
    vp.go()
    vp.wait()
'''
VALUE, RAISES, EXCVALUE, CANCELS, NOTHING = (
    'returns a value', 'raises', 'returns an exception', 'is cancelled',
    'returns None')


class CrossHarness(Threads):
    truthy_kinds = Threads.truthy_kinds | {'handle'}
    not_none_kinds = Threads.not_none_kinds | {'handle', 'plain'}
    target = Sym('target', 'loop')

    def rule(self, r, msg, node, st):
        self.I.report('C17/' + r, msg, node, st)

    # -- awaitables --------------------------------------------------------
    def outcome_of(self, i, how):
        if how == VALUE:
            return Sym(('value', i), 'plain')
        if how == NOTHING:
            return NONE
        e = ExcV('Exception', False, ('aw', i), ())
        if how == EXCVALUE:
            return e
        if how == CANCELS:
            return Raised(ExcV('asyncio.CancelledError', True, ('aw', i),
                               ()))
        return Raised(e)

    def is_aw(self, v, st):
        return isinstance(v, Ref) and st.has(v) and st.obj(v).kind == 'uaw'

    def awaitable(self, v, st):
        return self.is_aw(v, st) or super().awaitable(v, st)

    def is_coro(self, v, st):
        if self.is_aw(v, st):
            return st.obj(v).get('flavour') == 'coroutine'
        return super().is_coro(v, st)

    def exc_may_be(self, exc, cls):
        if isinstance(exc.origin, tuple) and exc.origin[0] == 'aw' and \
                cls in ('asyncio.CancelledError', 'StopIteration',
                        'StopAsyncIteration', 'GeneratorExit',
                        'concurrent.futures.CancelledError'):
            return False
        return None

    def distinct(self, a, b, st):
        if isinstance(a, Sym) and isinstance(b, Sym) and \
                a.kind == b.kind == 'plain':
            return a != b
        return super().distinct(a, b, st)

    def truth(self, v, st, node, fr):
        if isinstance(v, Ref) and st.has(v) and st.obj(v).kind in (
                'cfut', 'uaw', 'fut', 'thr', 'pool', 'lock', 'tevent'):
            return [(True, st)]
        return super().truth(v, st, node, fr)

    def hook_await(self, v, st, node, fr):
        if not self.is_aw(v, st):
            return super().hook_await(v, st, node, fr)
        o = st.obj(v)
        if o.get('started') and o.get('flavour') == 'coroutine':
            return [(self.I.exc('RuntimeError', node), st)]
        self.count('awaitables evaluated')
        if self.loop_here(st) != o.get('on'):
            self.rule('target', 'the awaitable is evaluated on '
                      f'{self.loop_name(self.loop_here(st))}', node, st)
        st = st.upd(v, started=True)
        if o.get('instant'):
            return [(o.get('gives'), st)]
        st = self.at(st, None, 'wake', st.m('cur'), self.wid(st))
        self.I.temps.append(v)
        try:
            return [(w if isinstance(w, Raised) else o.get('gives'), x)
                    for w, x in self.block(Tup((Const('aw'), v)), st, node,
                                           fr)]
        finally:
            self.I.temps.pop()

    # -- what the scenarios do ---------------------------------------------
    def hook_call(self, f, args, kwargs, st, node, fr):
        if isinstance(f, Ext) and f.path.startswith('vp.'):
            return self.vp(f.path[3:], args, st, node, fr)
        return super().hook_call(f, args, kwargs, st, node, fr)

    def vp(self, name, a, st, node, fr):
        if name == 'started':
            self.count('loops started')
            r = self.lo(a[0], st).get('runner')
            if r is None:
                self.rule('started', 'loop_in_thread returns although the '
                          'loop is not running', self.site(st), st)
            return [(NONE, st.with_m(('ran', st.m('cur')), r))]
        if name == 'stopped':
            self.count('loops stopped')
            r = self.lo(a[0], st).get('runner')
            if r is not None and r == st.m(('ran', st.m('cur'))):
                self.rule('stopped', 'the stop function returns although '
                          'the loop still runs', self.site(st), st)
            return [(NONE, st)]
        if name == 'go':
            me = st.m('cur')
            st = st.with_m('cur', None)
            for c in st.m('later', ()):
                st = self.call(c, st)
            return [(NONE, st.with_m('later', ()).with_m('cur', me))]
        if name == 'wait':
            return self.block(Tup((Const('ext'), Const('wait'))), st, node,
                              fr)
        raise Broken(name)

    def ready_ext(self, t, a, st):
        # (all calls have completed)
        return [] if any(isinstance(c.v, int) for c in st.m('open', ())) \
            else [(NONE, st)]

    def caller(self, i, home, fn, args, want, st):
        """Let a task on the loop call fn: Tup for call()."""
        return Tup((Const(i), home, fn, Tup(tuple(args)), want))

    def call(self, c, st):
        i, home, fn, args, want = c.items
        at = At(('caller', i.v))
        (coro, st), = self.I.call(fn, list(args.items), [], st, at, None)
        (t, st), = models.make_task(self.I, coro, st, at, None, loop=home)
        return st.upd(t, caller=c, name=f'caller {i.v}')

    def task_done(self, t, oc, st):
        c = st.obj(t).get('caller')
        if c is None:
            return [st]
        i, _, _, _, want = c.items
        self.count('calls completed')
        v = oc if isinstance(oc, Raised) else oc.items[0]
        if want == Const('closed'):
            if not (isinstance(v, Raised) and v.exc.cls == 'RuntimeError'):
                self.rule('closed', 'no RuntimeError is raised for a closed '
                          'loop', self.site(st), st)
        elif v != want and not (
                isinstance(v, Raised) and isinstance(want, Raised)
                and v.exc.cls == want.exc.cls == 'asyncio.CancelledError'):
            self.rule('outcome', f'a caller gets {self.say(v)} instead of '
                      f'{self.say(want)}', self.site(st), st)
        return [st.with_m('open', tuple(
            j for j in st.m('open', ()) if j != i))]

    def thread_done(self, t, oc, st):
        if st.obj(t).get('driver'):
            if isinstance(oc, Raised):
                self.rule('stopped', 'starting or stopping the loop raises '
                          f'{oc.exc.cls}', self.site(st), st)
            st = st.with_m('open', tuple(
                j for j in st.m('open', ()) if j != st.obj(t).get('id')))
        return [st]

    def say(self, v):
        if isinstance(v, Raised):
            o = v.exc.origin
            if isinstance(o, tuple) and o[0] == 'aw':
                return f'the exception of awaitable {o[1]}'
            return v.exc.cls
        if isinstance(v, Sym):
            return f'the value of awaitable {v.name[1]}' if isinstance(
                v.name, tuple) and v.name[0] == 'value' else 'some value'
        if isinstance(v, Const):
            return repr(v.v)
        return f'the {type(v).__name__}'

    def runs_twice(self, loop, st, node):
        self.rule('twice', f'{self.loop_name(loop)} is run although it is '
                  'running', node, st)

    def never(self, st, dead):
        w = self.waits(st)
        self.rule('completes', ('nothing can go on' if dead else
                  'the goal is never reached') + ': ' + ', '.join(w[:6]),
                  self.site(st), st)


def add_driver(program):
    if 'driver' not in program.modules:
        m = Module('driver', '<caller>', DRIVER)
        program._annotate(m)
        program.modules['driver'] = m


class Scenario:
    """One interpreter with a prepared state."""

    def __init__(self, program, out):
        add_driver(program)
        self.h = CrossHarness()
        self.I = Interp(program, self.h)
        self.out = out
        self.st = self.I.load('driver', State()).with_m('clk', Const(0))
        self.T = self.h.target
        self.open = []
        self.later = []
        self.naw = 0

    def fn(self, name):
        return self.I.module_attr('driver', name, self.st)

    def target(self, closed=False, name='target'):
        l = Sym(name, 'loop')
        self.st = self.h.new_loop(l, self.st, closed=closed)
        return l

    def home(self, i):
        l = Sym(f'loop {i}', 'loop')
        if not self.st.has(self.h.L(l)):
            self.st = self.h.new_loop(l, self.st, Sym(('main', i), 'thread'))
        return l

    def aw(self, flavour, how, on, instant=False):
        """(awaitable, what it gives)"""
        self.naw += 1
        i = self.naw
        at = At(('aw', i))
        g = self.h.outcome_of(i, how)
        if flavour == 'future':
            f, st = self.I.alloc(self.st, 'fut', at, None, 'aw', coro=None,
                                 outcome=None, loop=on)
            if isinstance(g, Raised):
                b, v = 'set_exception', g.exc
            else:
                b, v = 'set_result', g
            if how == CANCELS:
                b = 'cancel'
            self.st = st.with_m('timers', st.m('timers', ()) + (Term(
                'call', (Bound(Const(b), f), Tup(() if b == 'cancel' else (
                    v,)), on)),))
            return f, g
        r, self.st = self.I.alloc(
            self.st, 'uaw', at, None, 'aw', flavour='coroutine'
            if flavour == 'task' else flavour, on=on, gives=g,
            instant=instant)
        if flavour == 'task':
            (r, self.st), = models.make_task(self.I, r, self.st, at, None,
                                             loop=on)
        return r, g

    def caller(self, i, fn, args, want, later=False, home=None):
        c = Tup((Const(i), home or self.home(i), self.fn(fn), Tup(tuple(
            args)), want))
        self.open.append(Const(i))
        if later:
            self.later.append(c)
        else:
            self.st = self.h.call(c, self.st)

    def thread(self, name, args, i=0):
        t, st = self.h.spawn(self.st, At(('driver', i)), self.fn(name), args,
                             driver=True, id=Const(('driver', i)),
                             name=f'main thread {i}')
        self.st = self.h.start_thread(t, st)
        self.open.append(Const(('driver', i)))

    def run(self):
        st = self.st.with_m('open', tuple(self.open)).with_m(
            'later', tuple(self.later))
        n = self.h.explore(st, lambda x: not x.m('open'))
        fs, stats, info = self.out
        for k, v in self.I.findings.items():
            fs.setdefault(k, v)
        for k, v in self.h.stats.items():
            stats[k] = stats.get(k, 0) + v
        info['functions'] |= {f for f in self.I.functions
                              if f[0].startswith('aiuti')}
        info['opaque'].update(self.I.opaque)
        info['variants'] += 1
        info['nodes'] = max(info['nodes'], len(self.I.nodes))
        info['steps'] += self.I.steps
        return n


FLAVOURS = ('coroutine', 'object', 'future', 'task')


def s_own(s, fl, how):
    l = s.home(1)
    a, g = s.aw(fl, how, l)
    s.caller(1, 'ensure', [a, l], g)


def s_closed(s, fl):
    l = s.target(closed=True)
    a, g = s.aw(fl, VALUE, l)
    s.caller(1, 'ensure', [a, l], Const('closed'))


def s_idle(s, fl, how, instant=False):
    l = s.target()
    a, g = s.aw(fl, how, l, instant)
    s.caller(1, 'ensure', [a, l], g)


def s_idle2(s, fl=('coroutine', 'coroutine'), how=(VALUE, RAISES)):
    l = s.target()
    for i in (1, 2):
        a, g = s.aw(fl[i - 1], how[i - 1], l)
        s.caller(i, 'ensure', [a, l], g)


def s_then(s):
    l = s.target()
    a, g = s.aw('coroutine', VALUE, l)
    b, g2 = s.aw('coroutine', VALUE, l)
    s.caller(1, 'then', [a, l, b, l], g2)


def s_two_targets(s):
    for i in (1, 2):
        l = s.target(name=f'target {i}')
        a, g = s.aw('coroutine', VALUE, l)
        s.caller(i, 'ensure', [a, l], g)


def s_start_stop(s):
    l = s.target()
    s.thread('start_stop', [l])


def s_twice(s):
    l = s.target()
    s.thread('twice', [l])


def s_two_threads(s):
    l = s.target()
    s.thread('start_stop', [l], 0)
    s.thread('start_stop', [l], 1)


def s_running(s, fl, how, fn='ensure'):
    l = s.target()
    a, g = s.aw(fl, how, l)
    s.caller(1, fn, [a, l], g, later=True)
    s.thread('start_use_stop', [l])


def s_running2(s):
    l = s.target()
    for i in (1, 2):
        a, g = s.aw('coroutine', (VALUE, RAISES)[i - 1], l)
        s.caller(i, 'ensure', [a, l], g, later=True)
    s.thread('start_use_stop', [l])


def s_race(s):
    """ensure_aw while the loop is being started"""
    l = s.target()
    a, g = s.aw('coroutine', VALUE, l)
    s.caller(1, 'ensure', [a, l], g)
    s.thread('start_use_stop', [l])


def s_other(s):
    """an idle loop, while another one runs in a thread"""
    l = s.target()
    a, g = s.aw('coroutine', VALUE, l)
    s.caller(1, 'ensure', [a, l], g, later=True)
    s.thread('start_use_stop', [s.target(name='another loop')])


def s_after(s):
    l = s.target()
    a, g = s.aw('coroutine', VALUE, l)
    s.caller(1, 'ensure', [a, l], g, later=True)
    s.thread('use_after', [l])


def scenarios():
    # (these take longer)
    yield s_two_targets, ()
    yield s_race, ()
    yield s_two_threads, ()
    yield s_idle2, ()
    yield s_running2, ()
    for fl in FLAVOURS:
        for how in (VALUE, RAISES, EXCVALUE, CANCELS, NOTHING):
            yield s_own, (fl, how)
        yield s_closed, (fl,)
        for how in (VALUE, RAISES):
            yield s_idle, (fl, how)
    for how in (EXCVALUE, CANCELS, NOTHING):
        yield s_idle, ('coroutine', how)
    yield s_idle, ('coroutine', VALUE, True)
    yield s_start_stop, ()
    yield s_twice, ()
    for fl in FLAVOURS:
        for how in (VALUE, RAISES):
            yield s_running, (fl, how)
            yield s_running, (fl, how, 'threadsafe')
    for how in (EXCVALUE, CANCELS, NOTHING):
        yield s_running, ('coroutine', how)
        yield s_running, ('coroutine', how, 'threadsafe')
    yield s_then, ()
    yield s_after, ()
    yield s_other, ()


BY_PROP = True


def analyse(program, prop=None):
    def job(fn, args):
        def run(out):
            s = Scenario(program, out)
            fn(s, *args)
            s.run()
        return run
    add_driver(program)
    return analyse_all([job(*j) for j in scenarios()],
                       until(prop, RULES))
