"""buffer_until_timeout: C03 C07 C08.

The background task is interpreted to a fixpoint against an environment which
submits anything at any time. One argument (TOKEN) is followed from the
submission to the end; all the others are anonymous (OTHER).
"""
from values import *
from source import Broken
from engine import Interp, abrupt, is_exc_path, sname, Fr
from harness import Harness, OWN_CANCEL, _desc


def _r(text, *props):
    return {'text': text, 'props': props}


RULES = {
    'C03/lost': _r('an argument which was taken from the queue is still '
                   'known and its timer runs until it is delivered',
                   'C03', 'C07'),
    'C03/duplicate': _r('an argument of a successful call isn\'t passed '
                        'again', 'C03'),
    'C03/foreign': _r('only submitted arguments are passed', 'C03'),
    'C03/exit': _r('the background task only ends when it is cancelled',
                   'C03', 'C07'),
    'C03/submit': _r('a submission schedules its argument exactly once, in '
                     'a thread-safe way and before anything which is '
                     'submitted later', 'C03', 'C07'),
    'C03/getter': _r('no second reader of the queue is left behind',
                     'C03', 'C07'),
    'C07/barrier': _r('wait() returns only after it saw the queue joined '
                      'and then the event set; the event is clear from the '
                      'moment an argument stops counting as queued until it '
                      'is delivered', 'C07'),
    'C07/idle': _r('the event is set and everything is accounted for when '
                   'nothing is left to do, so that waiters wake up', 'C07'),
    'C07/wait': _r('wait() returns and only touches the timer', 'C07'),
    'C07/anywhere': _r('wait_from_anywhere waits on the loop of the buffer',
                       'C07'),
    'C07/shutdown': _r('once cancelled the background task never waits for '
                       'arguments or calls the function again', 'C07'),
    'C07/late-clear': _r('a submission doesn\'t touch the event after its '
                         'argument became visible', 'C07'),
    'C08/overlap': _r('a call is awaited to its end before anything else '
                      'happens', 'C08'),
    'C08/empty': _r('the function is never called without arguments', 'C08'),
    'C08/quiet': _r('a call happens only after the full timeout passed since '
                    'the last argument arrived (or a flush)', 'C08'),
    'C08/split': _r('everything which arrived is delivered in one call',
                    'C08'),
    'C08/unforced': _r('waiting with cancel=False does not cut the timeout '
                       'short', 'C08'),
}
NEED = {
    'C03': ('submissions', 'function calls', 'idle waits', 'items taken'),
    'C07': ('submissions', 'function calls', 'idle waits', 'waits'),
    'C08': ('function calls', 'idle waits', 'timed waits'),
}

USER = Sym('user_func', 'userfunc')
TMO = Sym('timeout', 'num+')
HOME = Sym('home_loop', 'loop')
AWAY = Sym('other_loop', 'loop')
TOKEN, OTHER = Sym('TOKEN', None), Sym('OTHER', None)
PRODT, PRODO = Sym('PRODUCER_T', None), Sym('PRODUCER_O', None)
FAIL = ExcV('Exception', False, 'producer', ())
PCANCEL = ExcV('asyncio.CancelledError', True, 'producer', ())
UFAIL = ExcV('Exception', False, 'user', ())
UCANCEL = ExcV('asyncio.CancelledError', True, 'user', ())
FLUSH = ExcV('asyncio.CancelledError', True, 'flush', ())
BURST = 2


class Root:
    lineno = 0
    _file = '<caller>'
    _qual = '<caller>'

    def __init__(self, uid, q='<caller>'):
        self._uid = uid
        self._qual = q


def pending(st):
    return st.m('tok') in ('item', 'live')


class BufferHarness(Harness):
    weak = ()

    def __init__(self):
        self.phase = 'setup'
        self.ctx = 'home'         # where a submission runs
        self.stats = {}
        self.tasks = []
        self.q = None
        self.ev = None            # the barrier event
        self.events = set()
        self.tok_item = self.other_item = None
        self.immediate = False
        self.W = None
        self.snaps = {}
        self.edges = set()
        self.probing = None
        self.roles = {}
        self.cancel_arg = None

    def count(self, k, n=1):
        if self.probing is None:
            self.stats[k] = self.stats.get(k, 0) + n

    def report(self, rule, msg, node, st):
        if self.probing is None:
            self.I.report(rule, msg, node, st)

    def current_loop(self, st, node, fr):
        if self.ctx == 'thread':
            return [(Raised(ExcV('RuntimeError', True, 'no-loop', ())), st)]
        if self.ctx == 'away' and not st.m('onhome'):
            return [(AWAY, st)]
        return [(HOME, st)]

    def distinct(self, a, b, st):
        return {a, b} in ({HOME, AWAY}, {TOKEN, OTHER})

    # -- calls -------------------------------------------------------------
    def hook_call(self, f, args, kwargs, st, node, fr):
        if f == USER:
            if len(args) != 1 or kwargs:
                raise Broken('the function is called with something else '
                             'than one argument')
            return [(ExtCoro('user', (args[0],), ()), st)]
        return None

    def call_func(self, func, bound, st, node, fr):
        nm = getattr(func.node, 'name', None)
        if nm == 'ensure_aw' and self.phase == 'wait':
            v = list(bound.values())
            b = {**bound}
            aw = b.get('aw', v[0])
            loop = b.get('loop', v[-1])
            return [(ExtCoro('ensure', (aw, loop), ()), st)]
        return None

    def hook_method(self, recv, name, args, kwargs, st, node, fr):
        if isinstance(recv, Sym) and recv.kind == 'loop':
            if name in ('call_soon_threadsafe', 'call_soon'):
                return self.schedule(recv, name, args, st, node, fr)
            if name in ('call_later', 'call_at'):
                raise Broken('timers of the loop are not understood')
            if name == 'create_task' and self.phase == 'submit' and \
                    self.ctx != 'home':
                self.report('C03/submit', 'creates a task on a loop which '
                            'runs in another thread', node, st)
        if isinstance(recv, Ref) and st.has(recv):
            k = st.obj(recv).kind
            if k == 'aioqueue':
                return self.queue(recv, name, args, st, node, fr)
            if k == 'aioevent' and name == 'is_set' and \
                    self.phase == 'wait':
                return [(FALSE, st), (TRUE, self.saw(recv, st))]
        return None

    def schedule(self, loop, name, args, st, node, fr):
        if self.phase == 'wait':
            self.report('C07/wait', f'{name} while waiting', node, st)
            return [(Sym('handle', None), st)]
        if loop != HOME:
            self.report('C03/submit', 'schedules on another loop', node, st)
        if name == 'call_soon' and self.ctx != 'home':
            self.report('C03/submit', 'call_soon from another thread', node,
                        st)
        t = Tup(tuple(args))
        s = st.m('sched', ())
        if t in s:
            st = st.with_m('twice', TRUE)
        else:
            st = st.with_m('sched', s + (t,))
        return [(Sym('handle', None), st)]

    # -- the queue ---------------------------------------------------------
    def queue(self, q, name, args, st, node, fr):
        if name == 'put_nowait':
            return self.put(q, args[0], st, node)
        if name == 'put':
            return [(ExtCoro('q.put', (q, args[0]), ()), st)]
        if name == 'get_nowait':
            return self.get_nowait(q, st, node)
        if name == 'task_done':
            return self.task_done(st, node)
        if name in ('empty', 'qsize', 'full'):
            if self.phase != 'daemon':
                s, st = self.I.fresh(st, node, fr, name, 'num0+' if
                                     name == 'qsize' else 'bool')
                return [(s, st)]
            return self.empty(name, st, node)
        return None

    def put(self, q, item, st, node):
        if self.phase in ('submit', 'sched'):
            if self.phase == 'submit' and self.ctx != 'home':
                self.report('C03/submit', 'the queue of another thread\'s '
                            'loop is touched directly', node, st)
            st = st.with_m('puts', st.m('puts', ()) + (item,) if len(
                st.m('puts', ())) < 4 else st.m('puts'))
            return [(NONE, st)]
        if self.phase == 'daemon':
            if item == self.tok_item and pending(st):
                n = (st.m('unf') or 0)
                st = st.with_m('tok', 'q')
            return [(NONE, st)]
        raise Broken('put from an unexpected place')

    def take(self, which, st, node):
        """An item leaves the queue."""
        self.count('items taken')
        if (st.m('unf') or 0) > BURST + 1:
            self.report('C07/idle', 'items are taken again and again without '
                        'task_done() for the previous ones', node, st)
            return None, None
        h = dict(st.heap)
        cur = st.m('infut')
        for oid, o in st.heap.items():
            if o.kind == 'fut' and o.get('fresh') and Ref(oid) != cur and \
                    o.get('outcome') is None:
                h[oid] = HObj('fut', {**o.at, 'fresh': False})
        m = dict(st.mon)
        m.pop('quiet', None)
        m.pop('qk', None)
        m.pop('armed', None)
        st = State(h, st.facts, m, st.trace)
        st = st.with_m('unf', min((st.m('unf') or 0) + 1, 6))
        if which == 'tok':
            st = st.with_m('tok', 'live' if self.direct else 'item').note(
                node, 'TOKEN is taken from the queue')
            return self.tok_item, st
        return self.other_item, st.note(node, 'another argument is taken')

    def items(self, st, node):
        out = [self.take('other', st, node)]
        if st.m('tok') == 'q':
            out.append(self.take('tok', st, node))
        return [o for o in out if o[0] is not None]

    def get_nowait(self, q, st, node):
        if self.phase != 'daemon':
            raise Broken('get_nowait outside of the background task')
        n = st.m('burst') or 0
        out = []
        if st.m('qk') != 'some':
            out.append((self.I.exc('asyncio.QueueEmpty', node), st.with_m(
                'qk', 'empty')))
        if st.m('qk') != 'empty' and (n < BURST or st.m('qk') == 'some'):
            st = st.with_m('burst', n + 1)
            out.extend(self.items(st, node))
        return out

    def empty(self, name, st, node):
        out = []
        if name == 'full':
            return [(FALSE, st)]
        if st.m('qk') != 'some':
            x = st.with_m('qk', 'empty')
            out.append((TRUE if name == 'empty' else Const(0), x))
        if st.m('qk') != 'empty' and ((st.m('burst') or 0) < BURST
                                      or st.m('qk') == 'some'):
            x = st.with_m('qk', 'some')
            out.append((FALSE if name == 'empty' else Const(1), x))
        return out

    def task_done(self, st, node):
        n = st.m('unf') or 0
        if n == 0:
            self.report('C07/idle', 'task_done() more often than items were '
                        'taken', node, st)
            return [(Raised(ExcV('ValueError', True, 'task_done', ())), st)]
        m = dict(st.mon)
        m['unf'] = n - 1
        if n == 1:
            m.pop('unf')
        return [(NONE, State(st.heap, st.facts, m, st.trace))]

    def get(self, q, st, node, fr):
        if self.phase != 'daemon':
            if self.probing is not None:
                self.probing.add('get')
                return []
            raise Broken('get outside of the background task')
        if self.probing is not None:
            self.probing.add('get')
            return []
        timed = bool(st.m('tval', ()))
        if st.m('qk') != 'empty' and (st.m('burst') or 0) >= BURST and \
                st.m('qk') != 'some':
            st = st.with_m('qk', 'empty')
        out = []
        if st.m('qk') == 'some':
            return self.items(st, node)
        if self.getting(timed, st, node):
            return []
        for w, x in self.suspend(st, node, fr, ('q.get', timed)):
            if isinstance(w, Raised):
                out.append((w, x))
                continue
            out.extend(self.items(x.with_m('burst', 0), node))
            if x.m('infut') and x.obj(x.m('infut')).get('flushable'):
                y = x
                if y.obj(y.m('infut')).get('fresh'):
                    y = y.with_m('quiet', TRUE)
                out.append((Raised(FLUSH), y.note(node, 'a waiter flushes')))
        return out

    def getting(self, timed, st, node):
        """About to wait for items. Returns whether to give up the path."""
        n0 = len(self.I.findings)
        bad = self._getting(timed, st, node)
        return bad or len(self.I.findings) > n0

    def _getting(self, timed, st, node):
        bad = False
        self.count('timed waits' if timed else 'idle waits')
        if st.m('ownc'):
            self.report('C07/shutdown', 'waits for arguments after it was '
                        'cancelled', node, st)
        cur = st.m('infut')
        for r in st.m('bg', ()):
            if not st.has(r) or st.obj(r).get('outcome') is not None or \
                    r == cur:
                continue
            o = st.obj(r)
            if 'user' in o.get('roles', ()):
                self.report('C08/overlap', 'goes on without waiting for a '
                            'call it started', node, st)
            if 'get' in o.get('roles', ()) and not o.get('cancelreq'):
                self.report('C03/getter', 'another task still waits for the '
                            'queue and will swallow an argument', node, st)
                bad = True
        if not timed:
            if pending(st):
                self.report('C03/lost', 'waits for other arguments although '
                            'one is not delivered', node, st)
                bad = True
            if st.m('unf'):
                self.report('C07/idle', 'waits for arguments without '
                            'task_done() for one it took', node, st)
                bad = True
            elif not pending(st) and self.ev is not None and st.m(
                    'ev') != 'set':
                self.report('C07/idle', 'waits for arguments with the event '
                            'clear', node, st)
        elif st.m('tok') == 'live' or st.m('tok') == 'item':
            x = self.I.gc(st)
            t = TOKEN if st.m('tok') == 'live' else PRODT
            alive = any(t in o.atoms() for o in x.heap.values()) or any(
                t in v.atoms() for v in self.I.temps)
            if not alive:
                self.report('C03/lost', 'an argument which was not delivered '
                            'is forgotten', node, st)
                bad = True
        return bad

    # -- events ------------------------------------------------------------
    def on_event(self, op, ref, st, node):
        if self.phase == 'setup':
            return st.with_m(('ev', ref), op)
        if self.phase in ('submit', 'sched'):
            if op == 'set':
                self.report('C07/barrier', 'a submission sets the event',
                            node, st)
            elif self.ev in (None, ref) and (
                    st.m('sched') or st.m('puts')) and self.ctx != 'home':
                self.report('C07/late-clear', 'the event is cleared after '
                            'the argument was scheduled: if it is processed '
                            'in between, waiters hang', node, st)
            return st
        if self.phase == 'wait':
            if ref == self.ev:
                self.report('C07/wait', f'wait() does event.{op}()', node,
                            st)
            return st
        if ref != self.ev:
            return st
        if op == 'set' and pending(st):
            self.report('C07/barrier', 'the event is set although an '
                        'argument is not delivered', node, st)
        return st.with_m('ev', op)

    def saw(self, ref, st):
        if st.m('joined') and ref == (self.ev or ref):
            if self.ev is None:
                self.events.add(ref)
            return st.with_m('waited', TRUE)
        return st

    # -- suspension --------------------------------------------------------
    def interfere(self, st, why):
        if self.phase == 'daemon':
            h = dict(st.heap)
            for oid, o in st.heap.items():
                if o.kind == 'aioevent' and (Ref(oid) != self.ev or
                                             o.get('set') != FALSE):
                    h[oid] = HObj('aioevent', {**o.at, 'set': TOP})
            m = dict(st.mon)
            m.pop('qk', None)
            m.pop('burst', None)
            st = State(h, st.facts, m, st.trace)
        if self.phase in ('daemon', 'wait'):
            st = st.kill(lambda k: k.op == 'pred')
        return st

    def on_suspend(self, st, node, what):
        if self.probing is not None or self.phase != 'daemon':
            return
        if self.ev is not None and pending(st) and not st.m('unf') and \
                st.obj(self.ev).get('set') != FALSE:
            self.report('C07/barrier', 'the event may be set while an '
                        'argument which no longer counts as queued is not '
                        'delivered', node, st)
        if st.m('ownc') and isinstance(what, tuple) and what[0] in (
                'sleep', 'event.wait') and what[1:] != (Const(0),):
            self.report('C07/shutdown', 'goes on waiting after it was '
                        'cancelled', node, st)

    def snap(self, st):
        """Remember what the object looks like to others."""
        if self.phase != 'daemon' or self.probing is not None:
            return st
        o = st.obj(self.W)
        k = tuple(sorted((a, self.shape(v, st)) for a, v in o.at.items()))
        if k not in self.snaps:
            if len(self.snaps) > 12:
                raise Broken('too many states of the buffer object')
            self.snaps[k] = (len(self.snaps), st)
        i = self.snaps[k][0]
        j = st.m('snap')
        if j is not None and i != j:
            self.edges.add((j, i))
        return st.with_m('snap', i)

    def shape(self, v, st):
        if isinstance(v, Ref) and st.has(v):
            o = st.obj(v)
            return (o.kind, o.get('outcome') is not None,
                    repr(o.get('roles')))
        return repr(v) if isinstance(v, (Const, Sym)) else type(v).__name__

    def now(self, st, node, fr):
        return self.clock(st)

    def suspend(self, st, node, fr, what):
        st = self.age(st)
        if self.phase == 'wait':
            if self.probing is not None:
                return [(NONE, self.interfere(st, what))]
            x = self.interfere(st, what)
            out = []
            for i, s in self.snaps.values():
                if self.reaches(x.m('snap'), i):
                    out.append((NONE, self.overlay(x, s).with_m('snap', i)))
            out.append((Raised(OWN_CANCEL), x.with_m('ownc', TRUE)))
            return self.timeouts(st, x, node, out)
        st = self.snap(st)
        out = super().suspend(st, node, fr, what)
        res = []
        for w, x in out:
            if isinstance(w, Raised) and isinstance(
                    w.exc.origin, tuple) and w.exc.origin[0] == 'timeout' \
                    and isinstance(what, tuple) and what[0] == 'q.get':
                ts = x.m('timeouts', ())
                tv = x.m('tval', ())
                i = ts.index(w.exc.origin[1]) - len(ts)
                f = x.m('infut')
                if self.full(tv[i], x) and (
                        f is None or x.obj(f).get('fresh')):
                    x = x.with_m('quiet', TRUE)
            res.append((w, x))
        return res

    def full(self, t, st):
        """Does a timer started now run for the whole timeout?"""
        return t == TMO

    def timeouts(self, st, x, node, out):
        for t in st.m('timeouts', ()):
            if t not in st.m('fired', ()):
                out.append((Raised(ExcV('asyncio.CancelledError', True,
                                        ('timeout', t), ())),
                            x.with_m('fired', st.m('fired', ()) + (t,))))
        return out

    def reaches(self, a, b):
        if a is None:
            return True
        seen, todo = set(), [a]
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.add(i)
                todo.extend(y for x, y in self.edges if x == i)
        return b in seen

    def overlay(self, x, s):
        h = dict(x.heap)
        todo = [self.W]
        seen = set()
        while todo:
            r = todo.pop()
            if r in seen or not s.has(r):
                continue
            seen.add(r)
            o = s.obj(r)
            if o.kind in ('frame', 'class'):
                if r.oid not in h:
                    h[r.oid] = o
                else:
                    continue
            h[r.oid] = o
            todo.extend(a for a in o.atoms() if isinstance(a, Ref))
        return State(h, x.facts, x.mon, x.trace)

    def resumed(self, v, res, node, fr):
        """A task waited for is done; others run before we go on."""
        if self.phase != 'daemon' or self.probing is not None:
            return res
        out = []
        for w, x in res:
            if x.m('ownc') or x.m('mask'):
                out.append((w, x))
                continue
            x = self.snap(self.age(x))
            self.on_suspend(x, node, 'resume')
            y = self.interfere(x, 'resume')
            out.append((w, y))
            out.append((Raised(OWN_CANCEL), y.with_m('ownc', TRUE).note(
                node, 'own task cancelled here')))
        return out

    def wait_timeout(self, its, timeout, st, node):
        """asyncio.wait() timed out."""
        for i in its:
            if isinstance(i, Ref) and st.has(i) and 'get' in st.obj(i).get(
                    'roles', ()) and st.obj(i).get('fresh') and \
                    self.full(timeout, st):
                return st.with_m('quiet', TRUE)
        return st

    # -- tasks -------------------------------------------------------------
    def on_task(self, ref, st, node, fr):
        o = st.obj(ref)
        if self.phase == 'setup':
            self.tasks.append((ref, o.get('coro')))
            return st
        if self.phase in ('submit', 'sched'):
            raise Broken('a submission creates a task')
        if self.probing is not None:
            return st
        roles = self.probe(o.get('coro'), st, node, fr)
        st = st.upd(ref, roles=tuple(sorted(roles)), fresh=True,
                    flushable=True)
        if self.phase == 'daemon' and roles:
            bg = tuple(r for r in st.m('bg', ()) if st.has(r) and st.obj(
                r).get('outcome') is None and not (
                    st.obj(r).get('cancelreq')))
            st = st.with_m('bg', bg + (ref,) if len(bg) < 4 else bg)
        return st

    def probe(self, coro, st, node, fr):
        """What a coroutine may do: 'get' items, call the 'user' function."""
        if isinstance(coro, Coro):
            k = ('c', coro.fn.node._uid)
        else:
            k = ('x', repr(coro))
        if k not in self.roles:
            old = self.I.findings
            self.I.findings = {}
            self.I.muted = True
            self.probing = set()
            ph = self.phase
            try:
                self.I.await_(coro, st.with_m('ownc', None), node, fr)
                self.roles[k] = frozenset(self.probing)
            finally:
                self.probing = None
                self.phase = ph
                self.I.findings = old
                self.I.muted = False
        return self.roles[k]

    def on_cancel(self, ref, st, node):
        if self.phase == 'wait':
            self.count('flushes')
            o = st.obj(ref)
            if 'get' not in o.get('roles', ()) or 'user' in o.get(
                    'roles', ()):
                self.report('C07/wait', 'wait() cancels something else than '
                            'the wait for arguments', node, st)
            elif self.cancel_arg == FALSE:
                self.report('C08/unforced', 'wait(cancel=False) cuts the '
                            'timeout short', node, st)
        return st

    def future_outcome(self, ref, st, n, f):
        raise Broken(f'futures are not understood at {sname(n)}')

    # -- awaiting ----------------------------------------------------------
    def hook_await(self, v, st, node, fr):
        if isinstance(v, ExtCoro):
            if v.op == 'user':
                return self.user(v.args[0], st, node, fr)
            if v.op == 'q.get':
                return self.get(v.args[0], st, node, fr)
            if v.op == 'q.join':
                return self.join(st, node, fr)
            if v.op == 'q.put':
                if self.phase == 'daemon':
                    return self.put(v.args[0], v.args[1], st, node)
                raise Broken('q.put outside of the task')
            if v.op == 'ensure':
                return self.ensure(v.args[0], v.args[1], st, node, fr)
            if v.op == 'event.wait' and self.phase == 'wait':
                return self.event_wait(v.args[0], st, node, fr)
            if v.op == 'sleep' and self.phase == 'daemon' and \
                    self.probing is None:
                return None
        if isinstance(v, Ref) and st.has(v) and st.obj(v).kind == 'fut' \
                and st.obj(v).get('outcome') is None and st.obj(v).get(
                    'coro') is not None:
            if self.phase == 'wait' and self.probing is None and \
                    'get' in st.obj(v).get('roles', ()):
                return self.foreign_get(v, st, node, fr)
            if self.phase == 'daemon' and 'get' in st.obj(v).get('roles', ()):
                old = st.m('infut')
                x = st.with_m('infut', v)
                res = []
                for w, y in self.I.modelmod.fut_outcome(self.I, v, x, node,
                                                        fr):
                    m = dict(y.mon)
                    m.pop('infut')
                    if old is not None:
                        m['infut'] = old
                    y = State(y.heap, y.facts, m, y.trace)
                    res.append((w, y))
                return self.resumed(v, res, node, fr)
        return None

    def foreign_get(self, v, st, node, fr):
        """wait() awaits the task which waits for arguments."""
        out = []
        for w, x in self.suspend(st, node, fr, 'getter'):
            if isinstance(w, Raised):
                out.append((w, x))
            else:
                out += [(Sym('item', None), x), (Raised(FLUSH), x),
                        (Raised(ExcV('TimeoutError', True, 'timeout', ())),
                         x)]
        return out

    def join(self, st, node, fr):
        if self.phase != 'wait':
            raise Broken('join outside of wait()')
        self.onloop(st, node)
        out = [(NONE, st.with_m('joined', TRUE))]
        for w, x in self.suspend(st, node, fr, 'join'):
            out.append((w, x if isinstance(w, Raised) else x.with_m(
                'joined', TRUE)))
        return out

    def onloop(self, st, node):
        if self.ctx == 'away' and not st.m('onhome') and st.m(
                'remote') is None:
            self.report('C07/anywhere', 'uses the queue and event of '
                        'another loop directly', node, st)

    def event_wait(self, ref, st, node, fr):
        self.onloop(st, node)
        out = [(TRUE, self.saw(ref, st))]
        for w, x in self.suspend(st, node, fr, 'event'):
            out.append((w, x) if isinstance(w, Raised) else (
                TRUE, self.saw(ref, x)))
        return out

    def ensure(self, aw, loop, st, node, fr):
        if loop != HOME:
            self.report('C07/anywhere', 'waits on a different loop', node,
                        st)
        out = []
        for w, x in self.suspend(st, node, fr, 'ensure'):
            if isinstance(w, Raised):
                out.append((w, x))
                continue
            x = x.with_m('onhome', TRUE)
            for v, y in self.I.await_(aw, x, node, fr):
                m = dict(y.mon)
                m.pop('onhome', None)
                out.append((v, State(y.heap, y.facts, m, y.trace)))
        return out

    def run_threadsafe(self, coro, loop, st, node, fr):
        if loop != HOME:
            self.report('C07/anywhere', 'waits on a different loop', node,
                        st)
        if self.phase != 'wait':
            self.report('C03/submit', 'the argument is put by a task of its '
                        'own: a waiter doesn\'t see it', node, st)
            return [(Sym('cf', 'future'), st.with_m(
                'puts', st.m('puts', ()) + (self.coro_item(coro),)))]
        r, st = self.I.alloc(st, 'cfut', node, fr, coro=coro, loop=loop)
        return [(r, st)]

    def coro_item(self, coro):
        if isinstance(coro, ExtCoro) and coro.op == 'q.put':
            return coro.args[1]
        raise Broken('submission is not understood')

    # -- the function ------------------------------------------------------
    def user(self, arg, st, node, fr):
        if self.probing is not None:
            self.probing.add('user')
            return []
        if self.phase != 'daemon':
            self.report('C08/overlap', 'the function is called outside of '
                        'the background task', node, st)
            return [(NONE, st)]
        self.count('function calls')
        if st.m('ownc'):
            self.report('C07/shutdown', 'calls the function after it was '
                        'cancelled', node, st)
        its = self.contents(arg, st)
        if its is None:
            raise Broken(f'argument of the function not understood: {arg}')
        sure = [i for i in its if not isinstance(i, Star)]
        flat = [i.v if isinstance(i, Star) else i for i in its]
        if not sure and self.I.decide(
                Term('pred', (Const('nonempty'), arg)), st) is not True:
            self.report('C08/empty', 'the function may be called with an '
                        'empty set', node, st)
        for i in flat:
            if i not in (TOKEN, OTHER):
                self.report('C03/foreign', 'the function gets something '
                            'which was not submitted', node, st)
        has = TOKEN in flat
        if has and st.m('tok') == 'done':
            self.report('C03/duplicate', 'the function gets an argument '
                        'again which was delivered by a successful call',
                        node, st)
        if has and st.m('tok') in ('q', 'item', 'void'):
            self.report('C03/foreign', 'the function gets an argument which '
                        'was not produced yet', node, st)
        if st.m('quiet') != TRUE:
            self.report('C08/quiet', 'the function is called although the '
                        'timeout since the last argument (or the last call) '
                        'has not passed', node, st)
        elif self.immediate and pending(st) and TOKEN not in sure:
            self.report('C08/split', 'an argument which arrived is missing '
                        'in the call', node, st)
        m = dict(st.mon)
        m.pop('quiet', None)
        st = State(st.heap, st.facts, m, st.trace).note(
            node, 'function is called')
        out = []
        for w, x in self.suspend(st, node, fr, 'user'):
            if isinstance(w, Raised) and w.exc == OWN_CANCEL:
                out += [(w, x), (NONE, self.delivered(sure, x)),
                        (Raised(UFAIL), x)]
            elif isinstance(w, Raised):
                out.append((w, x))
            else:
                ok = self.delivered(sure, x)
                s, ok = self.I.fresh(ok, node, fr, 'ret')
                out.append((s, ok.note(node, 'function succeeds')))
                for e in (UFAIL, UCANCEL):
                    out.append((Raised(e), x.note(node, 'function fails')))
        return out

    def delivered(self, sure, x):
        if TOKEN in sure and x.m('tok') == 'live':
            return x.with_m('tok', 'done')
        return x

    def contents(self, v, st):
        if isinstance(v, Ref) and st.has(v):
            o = st.obj(v)
            if o.kind in ('set', 'list', 'deque'):
                return tuple(o.get('items'))
            if o.kind == 'dict':
                return tuple(k for k, _ in o.get('ent'))
        its = self.I.items_of(v, st)
        if its is not None:
            return tuple(its)
        if isinstance(v, Term) and v.op in ('frozenset', 'tuple', 'list',
                                            'iter', 'keys'):
            out = []
            for a in v.args:
                if isinstance(a, Star):
                    c = self.contents(a.v, st)
                    out.extend(c if c is not None else [a])
                else:
                    c = self.contents(a, st)
                    if c is None:
                        return None
                    out.extend(c)
            return tuple(out)
        return None

    # -- producers ---------------------------------------------------------
    def for_each(self, it, st, node, fr, body, is_async):
        if isinstance(it, GenV) and getattr(it.fn.node, 'name', '') == \
                'to_async_iter':
            src = list(dict(it.bound).values())[0]
            if isinstance(src, Sym):
                return self.I.each_opaque(src, st, node, fr, body, True)
            return self.I.for_each(src, st, node, fr, body, False)
        if isinstance(it, Sym) and it in (PRODT, PRODO) and \
                self.phase != 'daemon':
            if self.phase == 'submit':
                tok = TOKEN if it == PRODT else OTHER
                return self.I._each_items((tok,), st, node, body)
        return None

    def isinst(self, v, p, c, st):
        if p and is_exc_path(p) and (v in (PRODT, PRODO) or v == Sym(
                'item', None)):
            return False     # what is in the queue
        return None

    def next_elem(self, it, st, node, fr, is_async):
        out = []
        src = [(NONE, st)]
        if is_async:
            src = self.suspend(st, node, fr, 'anext')
        for w, x in src:
            void = x.with_m('tok', 'void') if it == PRODT and x.m(
                'tok') == 'item' else x
            if isinstance(w, Raised):
                out.append(('exc', w.exc, void))
                if w.exc == OWN_CANCEL:
                    out.append(('exc', FAIL, void))
                continue
            if it in (TOKEN, OTHER):
                s, x = self.I.fresh(x, node, fr, 'part')
                out.append(('elem', s, x))
                out.append(('end', None, x))
                continue
            out.append(('end', None, void))
            out.append(('elem', OTHER, x))
            if it == PRODT and x.m('tok') == 'item':
                out.append(('elem', TOKEN, x.with_m('tok', 'live').note(
                    node, 'TOKEN is produced')))
            for e in (FAIL, PCANCEL):
                out.append(('exc', e, void.note(node, 'producer fails')))
        return out

    def await_opaque(self, v, st, node, fr):
        if v in (PRODT, PRODO):
            out = []
            for w, x in self.suspend(st, node, fr, 'producer'):
                void = x.with_m('tok', 'void') if v == PRODT and x.m(
                    'tok') == 'item' else x
                if isinstance(w, Raised):
                    out.append((w, void))
                    continue
                if v == PRODT:
                    out.append((TOKEN, x.with_m('tok', 'live').note(
                        node, 'TOKEN is produced') if x.m('tok') == 'item'
                        else x))
                else:
                    out.append((OTHER, x))
                for e in (FAIL, PCANCEL):
                    out.append((Raised(e), void.note(node,
                                                     'producer fails')))
            return out
        return super().await_opaque(v, st, node, fr)


# ---------------------------------------------------------------------------

METHODS = {'__call__': True, 'await_': False, 'map': True, 'amap': False}


class Analysis:
    def __init__(self, program, findings, stats, info):
        self.p = program
        self.findings, self.stats, self.info = findings, stats, info

    def setup(self):
        h = BufferHarness()
        I = Interp(self.p, h)
        st = I.load('aiuti.asyncio', State())
        deco = I.module_attr('aiuti.asyncio', 'buffer_until_timeout', st)
        n = Root(-1, 'buffer_until_timeout')
        res = [(v, x) for v, x in I.call(deco, [USER], [('timeout', TMO)],
                                         st, n, None)]
        good = [(v, x) for v, x in res if not abrupt(v)]
        if len(good) != 1:
            raise Broken(f"buffer can't be constructed: {res[:1]}")
        W, st = good[0]
        if not (isinstance(W, Ref) and st.obj(W).kind == 'inst'):
            raise Broken('the wrapper is not an object')
        h.W = W
        st = st.with_m('W', W)
        I.temps.append(W)
        st = I.gc(st)
        self.node = n
        return h, I, st, W

    def merge(self, I, h):
        for k, v in I.findings.items():
            self.findings.setdefault(k, v)
        for k, v in h.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        i = self.info
        i['functions'] |= I.functions
        i['opaque'].update(I.opaque)
        i['variants'] += 1
        i['nodes'] = max(i['nodes'], len(I.nodes))
        i['steps'] += I.steps

    # -- submissions -----------------------------------------------------
    def submit(self, I, h, W, st, meth, ctx, arg):
        """[(items, state)] put by one submission."""
        n = Root(-3, meth)
        h.phase, h.ctx = 'submit', ctx
        h.count('submissions')
        out = []
        f = I.get_attr(W, meth, st, n, None) if meth != '__call__' else [
            (W, st)]
        for v, x in I.bind(f, lambda g, y: I.call(g, [arg], [], y, n, None)):
            if isinstance(v, Raised):
                h.report('C03/submit', f'{meth}() raises {v.exc.cls}', n, x)
                continue
            if isinstance(v, (Coro, GenV)):
                h.report('C03/submit', f'{meth}() does nothing until its '
                         'result is used', n, x)
                continue
            cur = [x]
            h.phase = 'sched'
            old = h.ctx
            h.ctx = 'home'
            if x.m('twice'):
                h.report('C03/submit', f'{meth}() schedules an argument '
                         'twice', n, x)
            for t in x.m('sched', ()):
                nxt = []
                for y in cur:
                    for w, z in I.call(t.items[0], list(t.items[1:]), [], y,
                                       n, None):
                        if isinstance(w, Raised):
                            h.report('C03/submit', 'scheduled callback '
                                     f'raises {w.exc.cls}', n, z)
                        else:
                            nxt.append(z)
                cur = nxt
            h.phase, h.ctx = 'submit', old
            for y in cur:
                puts = y.m('puts', ())
                atoms = {TOKEN: {TOKEN, PRODT}, OTHER: {OTHER, PRODO},
                         PRODT: {TOKEN, PRODT}, PRODO: {OTHER, PRODO}}[arg]
                mine = [p for p in puts if p.atoms() & atoms]
                if len(mine) != len(puts):
                    h.report('C03/foreign', f'{meth}() submits something '
                             'else than its argument', n, y)
                if not mine:
                    h.report('C03/submit', f'{meth}() does not put its '
                             'argument onto the queue', n, y)
                    continue
                if len(mine) > 1:
                    h.report('C03/submit', f'{meth}() submits its argument '
                             'more than once', n, y)
                m = {k: v for k, v in y.mon.items() if k not in (
                    'sched', 'puts', 'twice')}
                out.append((mine[0], State(y.heap, {}, m, y.trace)))
        return out

    def args(self, meth):
        if meth == '__call__':
            return TOKEN, OTHER
        return PRODT, PRODO

    def run(self):
        evs = self.find_event()
        snaps, edges = {}, set()
        for meth in METHODS:
            self.variant(meth, evs, snaps, edges)
        self.waiters(evs, snaps, edges)

    def find_event(self):
        """The event wait() relies on."""
        h, I, st, W = self.setup()
        h.phase = 'wait'
        h.ctx = 'home'
        h.snaps = {0: (0, st)}
        self.check_ready(h, st)
        self.call_wait(h, I, st, W, 'wait', [])
        if len(h.events) > 1:
            raise Broken('wait() relies on several events')
        return list(h.events)

    def check_ready(self, h, st):
        qs = [Ref(k) for k, o in st.heap.items() if o.kind == 'aioqueue']
        if len(qs) != 1 or len(h.tasks) < 1:
            raise Broken('the buffer has no queue or no background task')
        if st.obj(qs[0]).get('maxsize') not in (None, Const(0)):
            raise Broken('bounded queue')
        h.q = qs[0]

    def call_wait(self, h, I, st, W, name, kw, i=None):
        n = Root(-5, name)
        st = State(st.heap, {}, {'W': W, 'snap': i}, None)
        out = []
        for f, x in I.get_attr(W, name, st, n, None):
            for v, y in I.call(f, [], kw, x, n, None):
                if abrupt(v):
                    out.append((v, y))
                    continue
                I.temps.append(v)
                try:
                    out.extend(I.await_(v, y, n, None))
                finally:
                    I.temps.pop()
        return out

    def waiters(self, evs, snaps, edges):
        for name in ('wait', 'wait_from_anywhere'):
            for kw, c in (([], TRUE), ([('cancel', TRUE)], TRUE),
                          ([('cancel', FALSE)], FALSE)):
                h, I, st, W = self.setup()
                h.phase = 'wait'
                h.ctx = 'away' if 'any' in name else 'home'
                h.snaps, h.edges = snaps, edges
                h.ev = evs[0] if evs else None
                h.cancel_arg = c
                n = Root(-5, name)
                h.count('waits')
                done = False
                for i, s in snaps.values():
                    for v, x in self.call_wait(h, I, s, W, name, kw, i):
                        if isinstance(v, Raised):
                            if not x.m('ownc'):
                                h.report('C07/wait', f'{name}() raises '
                                         f'{v.exc.cls} ({v.exc.origin})',
                                         self.last(x, n), x)
                            continue
                        done = True
                        if not x.m('waited') and not x.m('ownc'):
                            h.report('C07/barrier', f'{name}() returns '
                                     'without having waited for the queue '
                                     'and then for the event',
                                     self.last(x, n), x)
                if not done:
                    h.report('C07/wait', f'{name}() never returns', n, st)
                self.merge(I, h)

    def last(self, st, node):
        t = st.trace
        while t is not None and t[2] == '<caller>':
            t = t[0]
        n = Root(-6)
        if t:
            n._file, n.lineno = t[2], t[1]
        n._qual = node._qual
        return n

    # -- background task -------------------------------------------------
    def variant(self, meth, evs, snaps, edges):
        h, I, st, W = self.setup()
        h.snaps, h.edges = snaps, edges
        self.check_ready(h, st)
        h.ev = evs[0] if evs else None
        setup_ev = st.m(('ev', h.ev))
        tok, oth = self.args(meth)
        # other contexts: only the rules matter
        for ctx in ('away', 'thread'):
            self.submit(I, h, W, st, meth, ctx, tok)
        h.ctx = 'home'
        one = self.submit(I, h, W, st, meth, 'home', tok)
        for item, x in one[:1]:
            h.tok_item = item
            two = self.submit(I, h, W, x.with_m('keep', item), meth, 'home',
                              oth)
            if not two:
                break
            h.other_item, x = two[0]
            h.direct = TOKEN in item.atoms()
            h.immediate = METHODS[meth]
            loops = []
            for ref, coro in h.tasks:
                h.phase = 'daemon'
                if 'get' in h.probe(coro, x, Root(-7), None):
                    loops.append((ref, coro))
            if not loops:
                raise Broken('no background task reads the queue')
            if len(loops) > 1:
                h.report('C08/overlap', 'more than one background task '
                         'reads the queue', self.node, x)
            mon = {'W': W, 'tok': 'q', 'ev': setup_ev or 'clear',
                   'items': Tup((h.tok_item, h.other_item))}
            x = State(x.heap, {}, mon, None)
            if h.ev is not None:
                x = x.upd(h.ev, set=TOP if setup_ev == 'set' else FALSE)
            h.phase = 'daemon'
            n = Root(-8, 'background task')
            for v, y in I.await_(loops[0][1], x, n, None):
                if not y.m('ownc'):
                    how = f'raises {v.exc.cls} ({v.exc.origin})' if \
                        isinstance(v, Raised) else 'returns'
                    h.report('C03/exit', f'the background task {how}: '
                             'nothing is delivered any more',
                             self.last(y, n), y)
        self.merge(I, h)


def analyse(program):
    findings, stats = {}, {}
    info = {'functions': set(), 'opaque': {}, 'variants': 0, 'nodes': 0,
            'steps': 0}
    Analysis(program, findings, stats, info).run()
    return findings, stats, info
