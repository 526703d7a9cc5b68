"""Threads and event loops for the interpreter.

All interleavings of threads, event loops running in them and their tasks are
followed, at the granularity of statements: whoever runs can be interrupted
before every statement which touches something others can reach. Loops run
their callbacks in order, in batches, like those of asyncio. Code is left and
continued as in tasks.py. What was reached is a finite graph of states; a
scenario ends well if its goal stays reachable from every one of them.
"""
import ast

from values import *
from source import Broken
from engine import abrupt, sname, _outvals
from streams import At
from tasks import Tasks, LOCAL, NO_ARGS, CANCELLED, Run, I_items
import models

GO = Tup((Const('go'),))
END = Tup((Const('go'), Const('end')))
# waits which block the whole thread
THREAD = frozenset(('go', 'lock', 'tev', 'cfut', 'tq', 'tqput', 'join',
                    'pool', 'run', 'next', 'nap', 'cond', 'ext'))
TASKOPS = frozenset(('start', 'wake', 'hop', 'cancelnow', 'tmo'))
CFCANCEL = Raised(ExcV('concurrent.futures.CancelledError', True,
                       'cancelled', ()))

# calls which nobody else can notice or influence
PURE = frozenset((
    'get_running_loop', 'get_event_loop', 'partial', 'Queue', 'SimpleQueue',
    'Event', 'Lock', 'RLock', 'Condition', 'Semaphore', 'ThreadPoolExecutor',
    'new_event_loop', 'set_event_loop', 'iscoroutine', 'isinstance', 'id',
    'cast', 'wrap_future', 'Future', 'debug', 'info', 'warning', 'error',
    'exception', 'object', 'len', 'iter', 'aiter', 'hasattr', 'callable',
    'current_task', 'isawaitable', 'isfuture', 'iscoroutinefunction',
    'Thread', 'nullcontext', 'deque', 'getattr', 'current_thread',
    'get_ident', 'ensure_future', 'bool', 'range', 'dict', 'list', 'tuple'))


class Threads(Tasks):
    stepwise = True
    local = LOCAL + ('aw',)
    max_nodes = 25000
    package = 'aiuti'

    def __init__(self):
        super().__init__()
        self.nums = {}
        self.blocks = 0

    def num(self, oid):
        return self.nums.setdefault(oid, len(self.nums))

    # -- loops -------------------------------------------------------------
    @staticmethod
    def L(loop):
        return Ref(('loopstate', loop))

    def new_loop(self, loop, st, runner=None, closed=False):
        st = st.with_obj(self.L(loop), HObj('loopstate', {
            '$keep': True, 'loop': loop, 'runner': runner, 'active': None,
            'batch': 0, 'stopping': False, 'queue': (), 'stuck': False,
            'asleep': False,
            'closed': closed}))
        return st.with_m('loops', st.m('loops', ()) + (loop,))

    def lo(self, loop, st):
        r = self.L(loop)
        if not isinstance(loop, Sym) or not st.has(r):
            raise Broken('an unknown event loop')
        return st.obj(r)

    def loop_here(self, st):
        """The loop whose code is running."""
        e = st.m('cur')
        if e is not None:
            return st.obj(e).get('eloop')
        return st.m('cloop')

    def thread(self, st):
        """The thread which is running."""
        e = st.m('cur')
        l = self.loop_here(st)
        return e if l is None else self.lo(l, st).get('runner')

    def loop_of(self, c, st):
        if c.op in TASKOPS:
            return st.obj(c.args[0]).get('eloop')
        raise Broken(f'{c.op} belongs to no loop')

    def post(self, st, loop, c, safe=False):
        o = self.lo(loop, st)
        if o.get('closed'):
            return st
        q = o.get('queue')
        kw = {'queue': q + (c,)}
        if safe or loop == self.loop_here(st) or \
                st.m('cur') is None and st.m('cloop') is None:
            kw['stuck'] = False
        elif o.get('runner') is not None:
            self.unsafe(loop, st)
        if 'stuck' not in kw and o.get('runner') is not None and not q and not o.get('batch') \
                and o.get('active') is None:
            # it sleeps and isn't told
            kw['stuck'] = True
        return st.upd(self.L(loop), **kw)

    def unsafe(self, loop, st):
        """A running loop is told something by another thread, in a way
        which isn't meant for that."""

    def push(self, st, c):
        return self.post(st, self.loop_of(c, st), c)

    def soon(self, st, what, *args):
        return self.push(st, Term(what, args))

    def ready_cb(self, f, c, st):
        if isinstance(c, Term) and c.op in ('wake', 'hop'):
            return self.push(st, c)
        loop = st.obj(f).get('loop')
        if not isinstance(c, Term) or c.op == 'partial':
            c = Term('call', (c, Tup((f,))))
        return self.post(st, loop, c)

    def at(self, st, when, what, *args):
        return st.with_m('timers', st.m('timers', ()) + (Term(what, args),))

    def add(self, a, b, st):
        return Const(0)

    def timeout_started(self, tid, t, st):
        return st.with_m(('dl', tid), Const(0))

    def clock(self, st):
        return [(Const(0), st)]

    def wid(self, st):
        return Const(st.m('aw', 0))

    # -- entities ----------------------------------------------------------
    def spawn(self, st, node, fn, args=(), kwargs=(), **at):
        """A new thread: (ref, state)"""
        r, st = self.I.alloc(st, 'thr', node, None, 'thread', run=Tup((
            fn, Tup(tuple(args)), Tup(tuple(
                Tup((Const(k), v)) for k, v in kwargs)))), wait=None,
            outcome=None, **at)
        return r, st

    def start_thread(self, r, st):
        self.count('threads')
        return st.with_m('threads', st.m('threads', ()) + (r,)).upd(
            r, wait=GO, started=True)

    def on_task(self, ref, st, node, fr):
        loop = st.obj(ref).get('loop')
        if not isinstance(loop, Sym):
            loop = self.loop_here(st)
            if loop is None:
                raise Broken('a task without a loop')
        self.count('tasks')
        st = st.upd(ref, loop=loop, eloop=loop).with_m(
            'tasks', st.m('tasks', ()) + (ref,))
        return self.soon(st, 'start', ref)

    def begin(self, t, o, st):
        at = At(('entity', self.num(t.oid)))
        if o.kind == 'thr':
            fn, args, kw = o.get('run').items
            return self.I.call(fn, list(args.items), [
                (p.items[0].v, p.items[1]) for p in kw.items], st, at, None)
        return self.I.await_(o.get('coro'), st, at, None)

    def step(self, t, v, st, fired=None):
        """Continue an entity until it waits again: [states]"""
        I, S = self.I, self.I.streams
        o = st.obj(t)
        if o.get('ending') is not None:
            w = o.get('ending').items
            return self.finish(t, w[-1], st.with_m('cur', t))
        hist = o.get('hist', ())
        k = len(hist) // 2
        x = st.with_m('cur', t).with_m('yi', k)
        for pair in (o.get('tmon') or NO_ARGS).items:
            kk, vv = pair.items
            x = x.with_m(kk.v, vv)
        if fired is not None:
            x = x.with_m('fired', x.m('fired', ()) + (fired,))
        loop = o.get('eloop')
        if loop is not None:
            x = x.upd(self.L(loop), active=t)
        x = x.upd(t, wait=None, tmon=NO_ARGS, granted=None)
        tok = S.intern(v, x)
        pts = [S.states[i] for i in hist]
        resumes = pts[0::2] + [(v, x)]
        saved = self.cur, I.stack, I.temps, I.pos
        known = self.pruned
        self.cur = r = Run(t, hist + (tok,), resumes, hist[1::2])
        r.k = k
        I.stack, I.temps, I.pos = [], [t], []
        try:
            ends = self.begin(t, o, resumes[0][1])
        finally:
            self.cur, I.stack, I.temps, I.pos = saved
        out = r.found
        for w, y in ends:
            if y.m('yi') == k and y.m('cur') == t:
                out.extend(self.finish(t, w, y))
        if not out and known == self.pruned:
            self.diverges(t, st)
        return [y for _, y in I.dedupe([(None, y) for y in out])]

    def diverges(self, t, st):
        raise Broken('something never waits again and never ends')

    def idle_loop(self, t, st):
        loop = st.obj(t).get('eloop')
        return st if loop is None else st.upd(self.L(loop), active=None)

    def finish(self, t, w, st):
        o = st.obj(t)
        st = self.idle_loop(t, st)
        # (still running for whoever is told about it)
        oc = w if isinstance(w, Raised) else Tup((w,))
        if o.kind != 'thr':
            st = st.upd(t, hist=(), keep=NONE, wait=None, tmon=NO_ARGS,
                        pos=())
            st = self.complete(t, oc, st)
            st = self.leave(st)
            return self.task_done(t, oc, st.with_m('tasks', tuple(
                r for r in st.m('tasks') if r != t)))
        if o.get('cb'):
            return [self.leave(st).without(t).with_m('threads', tuple(
                r for r in st.m('threads') if r != t))]
        if o.get('cf') is not None and o.get('ending') is None and \
                self.others(st, t):
            # what it was told to do is done, but nobody knows yet
            return [self.leave(st).upd(
                t, hist=(), keep=NONE, pos=(), tmon=NO_ARGS, wait=END,
                ending=Tup((w,)))]
        if o.get('cf') is not None:
            cf = o.get('cf')
            if st.obj(cf).get('outcome') is None:
                st = self.complete_cf(cf, oc, st)
        p = o.get('pool')
        if p is not None:
            st = self.pool_next(p, st)
        st = self.leave(st).upd(t, hist=(), keep=NONE, wait=None, pos=(),
                                tmon=NO_ARGS, outcome=oc, run=None,
                                cf=None, pool=None, ending=None)
        st = st.with_m('threads', tuple(
            r for r in st.m('threads') if r != t))
        return self.thread_done(t, oc, st)

    def ready_ext(self, t, a, st):
        raise Broken('ext')

    def label(self, t, st):
        o = st.obj(t)
        n = o.get('name')
        if n is None:
            n = f"{'thread' if o.kind == 'thr' else 'task'} " \
                f"{self.num(t.oid)}"
        l = o.get('eloop')
        return n if l is None else f'{n} on {self.loop_name(l)}'

    def loop_name(self, l):
        return l.name if isinstance(l.name, str) else \
            f'new loop {self.num(l.name)}'

    def site(self, st):
        """Where in the package something happened last."""
        t = st.trace
        while t is not None and not t[2].startswith(self.package):
            t = t[0]
        n = At(-6)
        n._qual = ''
        if t:
            n._file, n.lineno = t[2], t[1]
        return n

    def thread_done(self, t, oc, st):
        return [st]

    def block(self, what, st, node, fr):
        """Wait: [(value, state)] of what continues us."""
        r = self.cur
        if r is None or st.m('cur') != r.task:
            raise Broken('something waits outside of a task or thread')
        I, S = self.I, self.I.streams
        self.blocks += 1
        i = st.m('yi')
        tok = S.intern(what, st)
        if i < r.k:
            if tok != r.wants[i]:
                return []
            return [r.resumes[i + 1]]
        t = r.task
        kind = what.items[0].v
        aw = st.m('aw', 0)
        wid = None
        if kind not in THREAD:
            wid = aw
            for tid in st.m('timeouts', ()):
                st = self.at(st, None, 'tmo', t, Const(aw), tid)
            st = st.with_m('aw', (aw + 1) % 3)
            st = self.idle_loop(t, st)
        st = self.on_wait(what, st, node)
        st = st.note(node, f"[{self.label(t, st)}] " + (
            'interrupted here' if kind == 'go' else f'waits: {kind}'))
        loc = tuple(Tup((Const(k), st.m(k))) for k in self.local
                    if st.m(k) is not None)
        x = self.leave(st).upd(
            t, hist=r.hist + (tok,), wait=what, wid=wid, pos=tuple(I.pos),
            keep=Tup(tuple(I.stack) + tuple(I.temps)), tmon=Tup(loc),
            where=sname(node))
        r.found.append(x)
        return []

    # -- what is possible --------------------------------------------------
    def ready(self, t, w, st):
        """[(value, state)] with which the blocked thread can go on."""
        k = w.items[0].v
        a = w.items[1:]
        if k in ('go', 'nap', 'next'):
            return [(NONE, st)]
        if k == 'run':
            return []
        if k == 'ext':
            return self.ready_ext(t, a, st)
        timed = a[-1] == TRUE
        if k == 'lock':
            x = self.lock_take(a[0], self.thread_of(t, st), st)
            out = [] if x is None else [(TRUE, x)]
            if timed:
                out.append((FALSE, st))
            return out
        if k == 'tev':
            out = [(TRUE, st)] if st.obj(a[0]).get('set') == TRUE else []
            if timed:
                out.append((FALSE, st))
            return out
        if k == 'cfut':
            out = [(NONE, st)] if st.obj(a[0]).get(
                'outcome') is not None else []
            if timed:
                out.append((self.I.exc('TimeoutError'), st))
            return out
        if k == 'tq':
            out = self.tq_take(a[0], st) if st.obj(a[0]).get('items') else []
            if timed:
                out.append((self.I.exc('queue.Empty'), st))
            return out
        if k == 'tqput':
            out = []
            if not self.tq_full(a[0], st):
                out.append((NONE, st.upd(a[0], items=st.obj(a[0]).get(
                    'items', ()) + (a[1],))))
            if timed:
                out.append((self.I.exc('queue.Full'), st))
            return out
        if k == 'join':
            out = [(NONE, st)] if a[0] not in st.m('threads', ()) else []
            if timed:
                out.append((NONE, st))
            return out
        if k == 'pool':
            return [(NONE, st)] if not st.obj(a[0]).get('busy') else []
        if k == 'cond':
            out = []
            if t not in st.obj(a[0]).get('waiters', ()):
                out.append((TRUE, st))
            elif timed:
                out.append((FALSE, st.upd(a[0], waiters=tuple(
                    u for u in st.obj(a[0]).get('waiters') if u != t))))
            return out
        raise Broken(k)

    def thread_of(self, t, st):
        l = st.obj(t).get('eloop')
        return t if l is None else self.lo(l, st).get('runner')

    def can_go(self, t, st):
        w = st.obj(t).get('wait')
        return w is not None and bool(self.ready(t, w, st))

    def can_tick(self, o, st):
        """Whether the loop can run something."""
        if o.get('runner') is None:
            return False
        a = o.get('active')
        if a is not None:
            return self.can_go(a, st)
        if o.get('stuck'):
            return False
        if o.get('queue'):
            return True
        return o.get('stopping') and not o.get('asleep') and not isinstance(
            o.get('runner'), Sym)

    def others(self, st, t):
        """Whether anything else could run now."""
        if st.m('timers', ()):
            return True
        mine = st.obj(t).get('eloop')
        for u in st.m('threads', ()):
            if u != t and st.obj(u).get('eloop') is None and self.can_go(
                    u, st):
                return True
        for l in st.m('loops', ()):
            if l != mine and self.can_tick(st.obj(self.L(l)), st):
                return True
        return self.others_may(st)

    def others_may(self, st):
        return False

    def moves(self, st):
        """[(label, [states])] of everything which can happen next."""
        out = []
        for t in st.m('threads', ()):
            o = st.obj(t)
            if o.get('eloop') is not None or o.get('wait') is None:
                continue
            for v, x in self.ready(t, o.get('wait'), st):
                out.append((t, self.step(t, v, x)))
        for l in st.m('loops', ()):
            o = st.obj(self.L(l))
            if not self.can_tick(o, st):
                continue
            a = o.get('active')
            if a is not None:
                for v, x in self.ready(a, st.obj(a).get('wait'), st):
                    out.append((l, self.step(a, v, x)))
                continue
            out.append((l, self.tick_loop(l, o, st)))
        for i, c in enumerate(st.m('timers', ())):
            x = st.with_m('timers', st.m('timers')[:i] + st.m('timers')[
                i + 1:])
            loop = c.args[2] if c.op == 'call' else self.loop_of(c, x) \
                if x.has(c.args[0]) else None
            if c.op in ('wake', 'tmo') and (
                    loop is None or not self.waiting(
                        c.args[0], c.args[1], x)):
                out.append((('timer', i), [x]))
                continue
            if self.lo(loop, x).get('runner') is None:
                continue
            out.append((('timer', i), [self.post(x, loop, Term(
                c.op, c.args[:2] if c.op == 'call' else c.args), True)]))
        return out

    def tick_loop(self, l, o, st):
        r = self.L(l)
        n = o.get('batch')
        q = o.get('queue')
        real = not isinstance(o.get('runner'), Sym)
        if n == 0:
            if o.get('stopping') and real and (
                    o.get('ran') or not q):
                t = o.get('runner')
                st = st.upd(r, runner=None, stopping=False, ran=False)
                return self.step(t, NONE, st)
            n = len(q)
        st = st.upd(r, queue=q[1:], batch=n - 1, ran=True, asleep=False)
        return self.perform_on(l, q[0], st)

    def perform_on(self, l, c, st):
        op, a = c.op, c.args
        if op in TASKOPS:
            if not st.has(a[0]):
                return [st]
            return self.perform(c, st)
        if op == 'call':
            return self.callback(l, a[0], a[1].items, st)
        if op == 'runco':
            coro, cf = a
            if st.obj(cf).get('outcome') is not None:
                return [st]
            at = At(('runco', self.num(cf.oid)))
            x = st.with_m('cloop', l)
            (t, x), = models.make_task(self.I, coro, x, at, None, loop=l)
            m = dict(x.mon)
            m.pop('cloop')
            x = State(x.heap, x.facts, m, x.trace)
            x = x.upd(cf, task=t)
            c = Term('setcf', (cf, t))
            if x.obj(t).get('outcome') is not None:
                return [self.post(x, x.obj(t).get('loop'), c, True)]
            return [x.upd(t, callbacks=x.obj(t).get('callbacks', ()) + (c,))]
        if op == 'setcf':
            cf, t = a
            if st.obj(cf).get('outcome') is not None:
                return [st]
            oc = st.obj(t).get('outcome')
            if isinstance(oc, Raised) and oc.exc.cls == \
                    'asyncio.CancelledError':
                oc = CFCANCEL
            return [self.complete_cf(cf, oc, st)]
        if op == 'copy':
            cf, f = a
            if st.obj(f).get('outcome') is not None:
                return [st]
            oc = st.obj(cf).get('outcome')
            if isinstance(oc, Raised) and oc.exc.cls == \
                    'concurrent.futures.CancelledError':
                oc = CANCELLED
            return [self.complete(f, oc, st)]
        if op == 'canceltask':
            return [self.cancel(a[0], st)]
        if op == 'cancelsrc':
            oc = st.obj(a[1]).get('outcome')
            if isinstance(oc, Raised) and oc.exc.cls == \
                    'asyncio.CancelledError':
                st = self.cf_cancel(a[0], st)[1]
            return [st]
        if op == 'gathered':
            return self.gathered(a[0], st)
        if op == 'stopcb':
            return [st.upd(self.L(l), stopping=True)]
        r = self.other_callback(l, c, st)
        if r is None:
            raise Broken(op)
        return r

    def other_callback(self, l, c, st):
        return None

    def simple(self, fn):
        while isinstance(fn, Partial):
            fn = fn.fn
        return isinstance(fn, (Ext, Term)) or isinstance(
            fn, Bound) and isinstance(fn.fn, Const)

    def callback(self, l, fn, args, st):
        if self.simple(fn):
            x = st.with_m('cloop', l)
            out = []
            for v, y in self.I.call(fn, list(args), [], x, At(
                    'callback'), None):
                m = dict(y.mon)
                m.pop('cloop')
                out.append(State(y.heap, y.facts, m, y.trace))
            return out
        t, st = self.spawn(st, At('callback'), fn, args, eloop=l, cb=True)
        st = st.with_m('threads', st.m('threads', ()) + (t,))
        return self.step(t, NONE, st)

    # -- preemption --------------------------------------------------------
    def before_stmt(self, s, st, fr, loop=False):
        r = self.cur
        if r is None or isinstance(s, ast.While) and not loop or \
                not self.visible(s):
            return [st]
        t = st.m('cur')
        if t != r.task or not self.others(st, t):
            return [st]
        return [x for _, x in self.block(GO, st, s, fr)]

    def visible(self, s):
        v = getattr(s, '_vis', None)
        if v is None:
            v = s._vis = s._mod.split('.')[0] == self.package and \
                self._visible(s)
        return v

    def _visible(self, s):
        if isinstance(s, (ast.If, ast.While)):
            hs = [s.test]
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            hs = [s.iter]
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            hs = [i.context_expr for i in s.items]
            if not isinstance(hs[0], ast.Call):
                return True
        elif isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AnnAssign,
                            ast.AugAssign, ast.Delete, ast.Raise,
                            ast.Assert)):
            hs = [s]
        elif isinstance(s, ast.Match):
            hs = [s.subject]
        else:
            return False
        return any(self._shared(h) for h in hs)

    def _shared(self, h):
        todo = [h]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Lambda, ast.arguments)):
                continue
            if isinstance(n, ast.AnnAssign):
                todo.extend(x for x in (n.value, n.target) if x)
                continue
            if isinstance(n, ast.Call):
                f = n.func
                name = f.attr if isinstance(f, ast.Attribute) else getattr(
                    f, 'id', '')
                if name not in PURE and not name.endswith(
                        ('Error', 'Exception')):
                    return True
                if isinstance(f, ast.Attribute):
                    todo.append(f.value)
                todo.extend(n.args)
                todo.extend(k.value for k in n.keywords)
                continue
            if isinstance(n, ast.Attribute) and not (
                    isinstance(n.value, ast.Name)
                    and n.value.id in ('aio', 'asyncio', 'queue', 'logger',
                                       'threading', 'self')):
                return True
            if isinstance(n, ast.Subscript):
                return True
            if isinstance(n, ast.Compare) and any(isinstance(
                    o, (ast.In, ast.NotIn)) for o in n.ops):
                return True
            if isinstance(n, ast.Name) and self._captured(n):
                return True
            todo.extend(ast.iter_child_nodes(n))
        return False

    def _captured(self, n):
        """A variable of an enclosing function or module which changes."""
        fn = n._fn
        if fn is None:
            return False
        w = self._writes(n)
        return n.id in w

    def _writes(self, n):
        """Names assigned through nonlocal or global anywhere."""
        m = self.I.p.modules[n._mod]
        w = getattr(m, '_nonlocals', None)
        if w is None:
            w = m._nonlocals = frozenset(
                x for d in ast.walk(m.tree)
                if isinstance(d, (ast.Nonlocal, ast.Global))
                for x in d.names)
        return w

    # -- exploration -------------------------------------------------------
    def canon(self, st):
        h = {}
        for k, o in st.heap.items():
            if o.kind in ('thr', 'fut') and o.get('hist'):
                c = o.drop('hist').drop('where')
                h[k] = c
            else:
                h[k] = o
        return (frozenset(h.items()), frozenset(st.facts.items()),
                frozenset(st.mon.items()))

    def explore(self, st, goal):
        """Everything which can happen; nodes from where the goal can't be
        reached any more are reported."""
        I = self.I
        ids, states, preds, goals = {}, [], [], []
        passed = set()

        def add(x, src, lbl=None):
            x = I.gc(x)
            k = self.canon(x)
            i = ids.get(k)
            if i is None:
                i = ids[k] = len(states)
                states.append(x)
                preds.append([])
            if src is not None:
                preds[i].append(src)
                if self.passing(lbl, states[src]):
                    passed.add((src, i))
        add(st, None)
        dead = []
        i = 0
        while i < len(states):
            x = states[i]
            I.tick()
            self.at_node(x)
            if i >= self.max_nodes:
                # (what follows is not looked at)
                self.count('scenarios cut off')
                goals.extend(range(i, len(states)))
                break
            if goal(x):
                goals.append(i)
            else:
                n = 0
                for lbl, ys in self.moves(x):
                    for y in ys:
                        n += 1
                        add(y, i, lbl)
                if not n:
                    dead.append(i)
            i += 1
        def backwards(good, skip=()):
            todo = list(good)
            while todo:
                i = todo.pop()
                for p in preds[i]:
                    if p not in good and (p, i) not in skip:
                        good.add(p)
                        todo.append(p)
            return good
        good = backwards(set(goals))
        if passed:
            busy = [i for i, x in enumerate(states) if self.occupied(x)]
            if busy:
                free = backwards((set(range(len(states))) - set(busy))
                                 | set(range(i, len(states))), passed)
                for j in busy:
                    if j not in free:
                        self.busy_forever(states[j])
                        break
        self.stats['states'] = self.stats.get('states', 0) + len(states)
        bad = [i for i in range(len(states)) if i not in good]
        if bad:
            d = [i for i in dead if i not in good]
            self.never(states[d[0] if d else bad[0]], bool(d))
        self.stats['goals'] = self.stats.get('goals', 0) + len(goals)
        return len(states), len(goals), len(bad)

    def at_node(self, st):
        pass

    # (some steps may never happen: whether others go on nevertheless)
    def passing(self, label, st):
        return False

    def occupied(self, st):
        return False

    def busy_forever(self, st):
        pass

    def never(self, st, dead):
        raise NotImplementedError

    def waits(self, st):
        """What everything waits for."""
        out = []
        for t in st.m('threads', ()) + st.m('tasks', ()):
            o = st.obj(t)
            w = o.get('wait')
            if w is not None:
                out.append(f"{o.get('where')}: {w.items[0].v}")
        return out

    # -- the running loop --------------------------------------------------
    def current_loop(self, st, node, fr):
        l = self.loop_here(st)
        if l is None:
            e = st.m('cur')
            name = getattr(getattr(node, 'func', None), 'attr', None) or \
                getattr(getattr(node, 'func', None), 'id', '')
            s = st.obj(e).get('evloop') if e is not None else None
            if name == 'get_event_loop' and s is not None:
                return [(s, st)]
            return [(self.I.exc('RuntimeError', node), st)]
        return [(l, st)]

    def run_loop(self, loop, fut, st, node, fr):
        """run_forever() and run_until_complete()"""
        o = self.lo(loop, st)
        I = self.I
        if o.get('closed'):
            return [(I.exc('RuntimeError', node), st)]
        if o.get('runner') is not None:
            self.runs_twice(loop, st, node)
            return [(I.exc('RuntimeError', node), st)]
        if self.loop_here(st) is not None:
            return [(I.exc('RuntimeError', node), st)]
        if fut is not None:
            if self.is_fut(fut, st):
                if st.obj(fut).get('loop') != loop:
                    return [(I.exc('ValueError', node), st)]
                f = fut
            else:
                if not self.awaitable(fut, st):
                    return [(I.exc('TypeError', node), st)]
                (f, st), = models.make_task(I, fut, st, node, fr, loop=loop)
            c = Term('stopcb', ())
            if st.obj(f).get('outcome') is not None:
                st = self.post(st, loop, c)
            else:
                st = st.upd(f, callbacks=st.obj(f).get('callbacks', ()) + (
                    c,))
        else:
            f = NONE
        st = st.upd(self.L(loop), runner=self.thread(st), batch=0,
                    stuck=False, ran=False)
        self.count('loop runs')
        st = self.loop_started(loop, st, node)
        I.temps.append(f)
        out = []
        try:
            for v, x in self.block(Tup((Const('run'), loop, f)), st, node,
                                   fr):
                if f == NONE:
                    out.append((NONE, x))
                elif x.obj(f).get('outcome') is None:
                    out.append((I.exc('RuntimeError', node), x.upd(
                        f, callbacks=tuple(
                            c for c in x.obj(f).get('callbacks', ())
                            if not (isinstance(c, Term)
                                    and c.op == 'stopcb')))))
                else:
                    out.append((self.outcome(f, x), x))
        finally:
            I.temps.pop()
        return out

    def loop_started(self, loop, st, node):
        return st

    def runs_twice(self, loop, st, node):
        pass

    def awaitable(self, v, st):
        return isinstance(v, (Coro, ExtCoro)) or self.is_fut(v, st)

    def is_coro(self, v, st):
        return isinstance(v, Coro) or isinstance(v, ExtCoro) and \
            v.op not in ('gather', 'shield')

    def as_future(self, v, st, node, fr):
        if self.is_fut(v, st):
            return v, st
        if self.awaitable(v, st):
            (r, st), = models.make_task(self.I, v, st, node, fr)
            return r, st
        raise Broken('something unknown is waited for')

    def wait_fut(self, f, st, node, fr, op='wake', kind='fut'):
        if st.obj(f).get('outcome') is None and st.obj(f).get(
                'loop') != self.loop_here(st):
            # got Future attached to a different loop
            return [(self.I.exc('RuntimeError', node), st)]
        return super().wait_fut(f, st, node, fr, op, kind)

    def loop_method(self, l, name, a, k, st, node, fr):
        I = self.I
        o = self.lo(l, st)
        r = self.L(l)
        if name == 'is_running':
            return [(Const(o.get('runner') is not None), st)]
        if name == 'is_closed':
            return [(Const(o.get('closed')), st)]
        if name in ('call_soon', 'call_soon_threadsafe'):
            if o.get('closed'):
                return [(I.exc('RuntimeError', node), st)]
            self.count('callbacks')
            return [(Sym('handle', 'handle'), self.post(st, l, Term(
                'call', (a[0], Tup(tuple(a[1:])))), name != 'call_soon'))]
        if name in ('call_later', 'call_at'):
            return [(Sym('handle', 'handle'), st.with_m(
                'timers', st.m('timers', ()) + (Term('call', (
                    a[1], Tup(tuple(a[2:])), l)),)))]
        if name == 'time':
            return self.clock(st)
        if name == 'run_until_complete':
            return self.run_loop(l, models.arg(a, k, 0, 'future'), st, node,
                                 fr)
        if name == 'run_forever':
            return self.run_loop(l, None, st, node, fr)
        if name == 'stop':
            # Does not wake the loop up
            asleep = (l != self.loop_here(st)
                      and o.get('runner') is not None
                      and o.get('active') is None
                      and not o.get('batch') and not o.get('queue'))
            return [(NONE, st.upd(r, stopping=True, asleep=asleep))]
        if name == 'close':
            if o.get('runner') is not None:
                return [(I.exc('RuntimeError', node), st)]
            return [(NONE, st.upd(r, closed=True, queue=()))]
        if name == 'create_task':
            c = models.arg(a, k, 0, 'coro')
            if not self.is_coro(c, st):
                return [(I.exc('TypeError', node), st)]
            if o.get('closed'):
                return [(I.exc('RuntimeError', node), st)]
            return models.make_task(I, c, st, node, fr, loop=l)
        if name == 'run_in_executor':
            p = a[0]
            if p == NONE:
                p = o.get('default')
                if p is None:
                    p, st = I.alloc(st, 'pool', node, fr, 'default',
                                    workers=NONE)
                    st = st.upd(r, default=p)
            return I.bind(self.submit(p, a[1], a[2:], (), st, node, fr),
                          lambda cf, x: self.wrap(cf, l, x, node, fr))
        if name in ('shutdown_asyncgens', 'shutdown_default_executor'):
            if name == 'shutdown_default_executor' and o.get('default'):
                raise Broken('shutdown_default_executor()')
            return [(ExtCoro('sleep', (Const(0),), ()), st)]
        if name in ('set_debug', 'set_exception_handler',
                    'set_default_executor', 'set_task_factory'):
            if name != 'set_debug':
                raise Broken(f'{name}() of a loop')
            return [(NONE, st)]
        if name == 'create_future':
            return None
        if name in ('get_debug',):
            return [(FALSE, st)]
        if name in ('__eq__', '__hash__'):
            return None
        raise Broken(f'{name}() of an event loop is not understood')

    # -- concurrent futures and pools --------------------------------------
    def run_threadsafe(self, coro, loop, st, node, fr):
        I = self.I
        if not self.is_coro(coro, st):
            return [(I.exc('TypeError', node), st)]
        if self.lo(loop, st).get('closed'):
            return [(I.exc('RuntimeError', node), st)]
        cf, st = I.alloc(st, 'cfut', node, fr, outcome=None, loop=loop)
        self.count('submitted to a loop')
        return [(cf, self.post(st, loop, Term('runco', (coro, cf)), True))]

    def complete_cf(self, cf, oc, st):
        cbs = st.obj(cf).get('callbacks', ())
        st = st.upd(cf, outcome=oc, callbacks=())
        for c in cbs:
            st = self.cf_callback(cf, c, st)
        return st

    def cf_callback(self, cf, c, st):
        if isinstance(c, Term) and c.op == 'copy':
            loop = st.obj(c.args[1]).get('loop')
            return self.post(st, loop, c, True)
        t, st = self.spawn(st, At('cfcallback'), c, (cf,), cb=True)
        return self.start_thread(t, st)

    def cf_cancel(self, cf, st):
        o = st.obj(cf)
        if o.get('outcome') is not None:
            return FALSE, st
        if o.get('running'):
            return FALSE, st
        t = o.get('task')
        if t is not None:
            st = self.post(st, o.get('loop'), Term('canceltask', (t,)), True)
        th = o.get('thr')
        if th is not None and o.get('pool') is not None:
            p = o.get('pool')
            if th in st.m('threads', ()):
                return FALSE, st
            st = st.upd(p, pending=tuple(
                u for u in st.obj(p).get('pending', ()) if u != th))
        return TRUE, self.complete_cf(cf, CFCANCEL, st)

    def cf_method(self, cf, name, a, k, st, node, fr):
        I = self.I
        oc = st.obj(cf).get('outcome')
        if name == 'done':
            return [(Const(oc is not None), st)]
        if name == 'running':
            return [(Const(oc is None and bool(st.obj(cf).get('thr'))), st)]
        if name == 'cancelled':
            return [(Const(oc == CFCANCEL), st)]
        if name in ('result', 'exception'):
            def val(x):
                c = x.obj(cf).get('outcome')
                if name == 'result' or c == CFCANCEL:
                    return self.outcome(cf, x)
                return c.exc if isinstance(c, Raised) else NONE
            if oc is not None:
                return [(val(st), st)]
            t = models.arg(a, k, 0, 'timeout', NONE)
            if t == Const(0):
                return [(I.exc('TimeoutError', node), st)]
            out = []
            for v, x in self.block(Tup((Const('cfut'), cf, Const(
                    t != NONE))), st, node, fr):
                out.append((v if isinstance(v, Raised) else val(x), x))
            return out
        if name in ('set_result', 'set_exception'):
            if oc is not None:
                return [(I.exc('concurrent.futures.InvalidStateError', node),
                         st)]
            if name == 'set_result':
                return [(NONE, self.complete_cf(cf, Tup((a[0],)), st))]
            e = a[0]
            if isinstance(e, Ext):
                e = ExcV(e.path, False, 'made', ())
            return [(NONE, self.complete_cf(cf, Raised(e), st))]
        if name == 'set_running_or_notify_cancel':
            if oc == CFCANCEL:
                return [(FALSE, st)]
            return [(TRUE, st.upd(cf, running=True))]
        if name == 'cancel':
            v, st = self.cf_cancel(cf, st)
            return [(v, st)]
        if name == 'add_done_callback':
            if oc is not None:
                return [(NONE, self.cf_callback(cf, a[0], st))]
            return [(NONE, st.upd(cf, callbacks=st.obj(cf).get(
                'callbacks', ()) + (a[0],)))]
        raise Broken(f'{name}() of a concurrent future')

    def wrap(self, cf, loop, st, node, fr):
        """wrap_future()"""
        if self.is_fut(cf, st):
            return [(cf, st)]
        if not (isinstance(cf, Ref) and st.has(cf) and st.obj(
                cf).kind == 'cfut'):
            return [(self.I.exc('AssertionError', node), st)]
        f, st = self.I.alloc(st, 'fut', node, fr, 'wrap', coro=None,
                             outcome=None, loop=loop)
        c = Term('copy', (cf, f))
        st = st.upd(f, callbacks=(Term('cancelsrc', (cf, f)),))
        if st.obj(cf).get('outcome') is not None:
            return [(f, self.cf_callback(cf, c, st))]
        return [(f, st.upd(cf, callbacks=st.obj(cf).get(
            'callbacks', ()) + (c,)))]

    def submit(self, p, fn, args, kwargs, st, node, fr):
        o = st.obj(p)
        I = self.I
        if o.get('down'):
            return [(I.exc('RuntimeError', node), st)]
        cf, st = I.alloc(st, 'cfut', node, fr, 'submit', outcome=None)
        t, st = self.spawn(st, node, fn, args, kwargs, cf=cf, pool=p)
        st = st.upd(cf, thr=t, pool=p)
        w = o.get('workers')
        n = w.v if isinstance(w, Const) and w.v is not None else 32
        self.count('submitted to a pool')
        st = st.upd(p, used=True)
        if o.get('busy', 0) < n:
            st = self.start_thread(t, st.upd(p, busy=o.get('busy', 0) + 1))
        else:
            st = st.upd(p, pending=o.get('pending', ()) + (t,))
        return [(cf, st)]

    def pool_next(self, p, st):
        o = st.obj(p)
        q = o.get('pending', ())
        if q:
            return self.start_thread(q[0], st.upd(p, pending=q[1:]))
        return st.upd(p, busy=o.get('busy') - 1)

    def shutdown(self, p, wait, st, node, fr):
        st = st.upd(p, down=True)
        if wait != TRUE or not st.obj(p).get('busy'):
            return [(NONE, st)]
        self.I.temps.append(p)
        try:
            return self.block(Tup((Const('pool'), p)), st, node, fr)
        finally:
            self.I.temps.pop()

    # -- synchronization ---------------------------------------------------
    def lock_take(self, ref, me, st):
        o = st.obj(ref)
        if o.get('flavour') == 'Sem':
            if o.get('value') > 0:
                return st.upd(ref, value=o.get('value') - 1)
            return None
        own = o.get('owner')
        if own is None:
            return st.upd(ref, owner=me, n=1)
        if own == me and o.get('flavour') == 'RLock':
            return st.upd(ref, n=o.get('n') + 1)
        return None

    def lock_acquire(self, ref, st, node, blocking=TRUE, timeout=None):
        if st.m('cur') is None and st.m('cloop') is None:
            raise Broken('a lock is acquired outside of a thread')
        x = self.lock_take(ref, self.thread(st), st)
        if x is not None:
            self.count('locks acquired')
            return [(TRUE, x)]
        if blocking == FALSE:
            return [(FALSE, st)]
        if blocking != TRUE:
            raise Broken('acquire() is not understood')
        timed = timeout is not None and timeout not in (
            NONE, Const(-1), Const(-1.0))
        return self.block(Tup((Const('lock'), ref, Const(timed))), st, node,
                          None)

    def lock_release(self, ref, st, node):
        o = st.obj(ref)
        if o.get('flavour') == 'Sem':
            return [(NONE, st.upd(ref, value=o.get('value') + 1))]
        if o.get('owner') is None or o.get('flavour') == 'RLock' and \
                o.get('owner') != self.thread(st):
            return [(self.I.exc('RuntimeError', node), st)]
        if o.get('n') > 1:
            return [(NONE, st.upd(ref, n=o.get('n') - 1))]
        return [(NONE, st.upd(ref, owner=None, n=0))]

    def thread_sleep(self, t, st, node, fr):
        if self.cur is None:
            return [(NONE, st)]
        return [(NONE, x) for _, x in self.block(Tup((Const('nap'),)), st,
                                                 node, fr)]

    # asyncio queues of a known size
    def queue(self, q, name, a, st, node, fr):
        if name == 'put_nowait':
            if self.tq_full(q, st):
                return [(self.I.exc('asyncio.QueueFull', node), st)]
            return [(NONE, self.enqueue(q, a[0], st, node))]
        if name == 'full':
            return [(Const(self.tq_full(q, st)), st)]
        return super().queue(q, name, a, st, node, fr)

    def on_take(self, q, v, st, node):
        ws = st.obj(q).get('putters', ())
        if ws:
            st = self.push(st.upd(q, putters=ws[1:]), ws[0])
        return st

    def queue_wait(self, v, st, node, fr):
        if v.op != 'q.put':
            return super().queue_wait(v, st, node, fr)
        q, val = v.args[:2]
        out = []
        todo = [st]
        while todo:
            x = todo.pop()
            if not self.tq_full(q, x):
                out.append((NONE, self.enqueue(q, val, x, node)))
                continue
            w = Term('wake', (x.m('cur'), self.wid(x)))
            x = x.upd(q, putters=x.obj(q).get('putters', ()) + (w,))
            for r, y in self.block(Tup((Const('put'), q)), x, node, fr):
                if isinstance(r, Raised):
                    out.append((r, y))
                else:
                    todo.append(y)
        return out

    def tq_full(self, q, st):
        m = st.obj(q).get('maxsize', Const(0))
        if not isinstance(m, Const):
            raise Broken('a queue of unknown size')
        return 0 < m.v <= len(st.obj(q).get('items', ()))

    def tq_take(self, q, st):
        o = st.obj(q)
        its = o.get('items')
        fl = o.get('flavour')
        if fl == 'PriorityQueue' and len(its) > 1:
            return [(its[j], st.upd(q, items=its[:j] + its[j + 1:]))
                    for j in range(len(its))]
        i = len(its) - 1 if fl == 'LifoQueue' else 0
        return [(its[i], st.upd(q, items=its[:i] + its[i + 1:]))]

    def tq_method(self, q, name, a, k, st, node, fr):
        o = st.obj(q)
        its = o.get('items', ())
        I = self.I
        if name in ('get', 'get_nowait'):
            if its:
                return self.tq_take(q, st)
            blk = models.arg(a, k, 0, 'block', TRUE)
            tm = models.arg(a, k, 1, 'timeout', NONE)
            if name == 'get_nowait' or blk == FALSE or tm == Const(0):
                return [(I.exc('queue.Empty', node), st)]
            return self.block(Tup((Const('tq'), q, Const(tm != NONE))), st,
                              node, fr)
        if name in ('put', 'put_nowait'):
            v = models.arg(a, k, 0, 'item')
            if not self.tq_full(q, st):
                return [(NONE, st.upd(q, items=its + (v,)))]
            blk = models.arg(a, k, 1, 'block', TRUE)
            tm = models.arg(a, k, 2, 'timeout', NONE)
            if name == 'put_nowait' or blk == FALSE or tm == Const(0):
                return [(I.exc('queue.Full', node), st)]
            return self.block(Tup((Const('tqput'), q, v, Const(
                tm != NONE))), st, node, fr)
        if name == 'empty':
            return [(Const(not its), st)]
        if name == 'full':
            return [(Const(self.tq_full(q, st)), st)]
        if name == 'qsize':
            return [(Const(len(its)), st)]
        if name == 'task_done':
            return [(NONE, st)]
        raise Broken(f'{name}() of a queue')

    def thr_method(self, t, name, a, k, st, node, fr):
        if name == 'start':
            if st.obj(t).get('started'):
                return [(self.I.exc('RuntimeError', node), st)]
            return [(NONE, self.start_thread(t, st))]
        if name == 'join':
            if not st.obj(t).get('started'):
                return [(self.I.exc('RuntimeError', node), st)]
            tm = models.arg(a, k, 0, 'timeout', NONE)
            if t not in st.m('threads', ()):
                return [(NONE, st)]
            return self.block(Tup((Const('join'), t, Const(tm != NONE))), st,
                              node, fr)
        if name in ('is_alive', 'isAlive'):
            return [(Const(t in st.m('threads', ())), st)]
        if name in ('setDaemon', 'setName', 'getName'):
            return [(NONE, st)]
        raise Broken(f'{name}() of a thread')

    def cond_method(self, c, name, a, k, st, node, fr):
        I = self.I
        lk = st.obj(c).get('lock')
        if name in ('acquire', '__enter__'):
            return self.lock_acquire(lk, st, node, *(
                [models.arg(a, k, 0, 'blocking', TRUE),
                 models.arg(a, k, 1, 'timeout', NONE)]))
        if name == 'release':
            return self.lock_release(lk, st, node)
        if name in ('notify', 'notify_all', 'notifyAll'):
            ws = st.obj(c).get('waiters', ())
            n = len(ws)
            if name == 'notify':
                n = models.arg(a, k, 0, 'n', Const(1)).v
            return [(NONE, st.upd(c, waiters=ws[n:]))]
        if name == 'wait':
            tm = models.arg(a, k, 0, 'timeout', NONE)
            me = st.m('cur')
            if me is None:
                raise Broken('wait() outside of a thread')
            out = []
            for v, x in self.lock_release(lk, st, node):
                if isinstance(v, Raised):
                    out.append((v, x))
                    continue
                x = x.upd(c, waiters=x.obj(c).get('waiters', ()) + (me,))
                for w, y in self.block(Tup((Const('cond'), c, Const(
                        tm != NONE))), x, node, fr):
                    out.extend((w, z) for _, z in self.lock_acquire(
                        lk, y, node))
            return out
        if name == 'wait_for':
            out, todo = [], [st]
            while todo:
                x = todo.pop()
                for v, y in I.call(a[0], [], [], x, node, fr):
                    if isinstance(v, Raised):
                        out.append((v, y))
                        continue
                    for b, z in I.truth(v, y, node, fr):
                        if b:
                            out.append((v, z))
                        else:
                            todo.extend(w for _, w in self.cond_method(
                                c, 'wait', list(a[1:]), k, z, node, fr))
            return out
        raise Broken(f'{name}() of a condition')

    def tev_method(self, e, name, a, k, st, node, fr):
        s = st.obj(e).get('set')
        if name in ('is_set', 'isSet'):
            return [(s, st)]
        if name in ('set', 'clear'):
            return [(NONE, st.upd(e, set=Const(name == 'set')))]
        if name == 'wait':
            if s == TRUE:
                return [(TRUE, st)]
            tm = models.arg(a, k, 0, 'timeout', NONE)
            return self.block(Tup((Const('tev'), e, Const(tm != NONE))), st,
                              node, fr)
        raise Broken(f'{name}() of an event')

    # -- library -----------------------------------------------------------
    def hook_call(self, f, args, kwargs, st, node, fr):
        if not isinstance(f, Ext):
            return None
        I = self.I
        p = f.path
        if p in ('asyncio.new_event_loop', 'asyncio.SelectorEventLoop'):
            s, st = I.fresh(st, node, fr, 'loop', 'loop')
            return [(s, self.new_loop(s, st))]
        if p == 'asyncio.wrap_future':
            l = models.arg(args, kwargs, 1, 'loop', NONE)
            cf = models.arg(args, kwargs, 0, 'future')
            if l == NONE and not self.is_fut(cf, st):
                l = self.loop_here(st)
                if l is None:
                    return [(I.exc('RuntimeError', node), st)]
            return self.wrap(cf, l, st, node, fr)
        if p == 'asyncio.set_event_loop':
            e = st.m('cur')
            return [(NONE, st if e is None else st.upd(
                e, evloop=args[0] if args[0] != NONE else None))]
        if p == 'asyncio.run':
            return self.aio_run(args[0], st, node, fr)
        if p == 'asyncio.to_thread':
            return [(ExtCoro('to_thread', tuple(args), tuple(kwargs)), st)]
        if p in ('asyncio.create_task', 'asyncio.ensure_future',
                 'asyncio.Task'):
            c = models.arg(args, kwargs, 0, 'coro')
            l = models.arg(args, kwargs, None, 'loop', NONE)
            if l == NONE:
                l = self.loop_here(st)
            if self.is_fut(c, st) and p == 'asyncio.ensure_future':
                return [(c, st)]
            if l is None:
                return [(I.exc('RuntimeError', node), st)]
            if not (self.is_coro(c, st) or p == 'asyncio.ensure_future'
                    and self.awaitable(c, st)):
                return [(I.exc('TypeError', node), st)]
            return models.make_task(I, c, st, node, fr, loop=l)
        if p == 'asyncio.shield' and len(args) == 1 and not kwargs:
            v = args[0]
            if not self.is_fut(v, st):
                # (a task is made at once)
                e = st.m('cur')
                l = self.loop_here(st) or (
                    e is not None and st.obj(e).get('evloop')) or None
                if l is None:
                    return [(I.exc('RuntimeError', node), st)]
                if not self.awaitable(v, st):
                    return [(I.exc('TypeError', node), st)]
                (v, st), = models.make_task(I, v, st, node, fr, loop=l)
            elif st.obj(v).get('outcome') is None:
                l = st.obj(v).get('loop')
                if l is not None and l != self.loop_here(st) and \
                        self.lo(l, st).get('runner') is not None:
                    self.unsafe(l, st)
            return [(ExtCoro('shield', (v,), ()), st)]
        if p == 'asyncio.Future':
            l = models.arg(args, kwargs, None, 'loop', NONE)
            if l == NONE:
                l = self.loop_here(st)
            return I.method(l, 'create_future', [], [], st, node, fr)
        if p in ('asyncio.iscoroutine', 'inspect.iscoroutine'):
            return [(Const(self.is_coro(args[0], st)), st)]
        if p in ('asyncio.isfuture', 'asyncio.futures.isfuture'):
            return [(Const(self.is_fut(args[0], st)), st)]
        if p == 'inspect.isawaitable':
            return [(Const(self.awaitable(args[0], st)), st)]
        if p == 'asyncio.gather':
            return self.gather_fut(args, dict(kwargs), st, node, fr)
        if p == 'concurrent.futures.Future':
            r, st = I.alloc(st, 'cfut', node, fr, outcome=None)
            return [(r, st)]
        if p == 'threading.Thread':
            t, st = self.spawn(
                st, node, models.arg(args, kwargs, 1, 'target', NONE),
                I_items(I, models.arg(args, kwargs, 3, 'args', NO_ARGS),
                        st) or (),
                self.kw_items(models.arg(args, kwargs, 4, 'kwargs', NONE),
                              st))
            return [(t, st)]
        if p == 'threading.Condition':
            lk = models.arg(args, kwargs, 0, 'lock', NONE)
            if lk == NONE:
                lk, st = I.alloc(st, 'lock', node, fr, 'cond',
                                 flavour='RLock')
            c, st = I.alloc(st, 'cond', node, fr, lock=lk)
            return [(c, st)]
        if p in ('threading.Semaphore', 'threading.BoundedSemaphore'):
            v = models.arg(args, kwargs, 0, 'value', Const(1))
            c, st = I.alloc(st, 'lock', node, fr, 'sem', flavour='Sem',
                            value=v.v)
            return [(c, st)]
        if p in ('threading.get_ident', 'threading.current_thread'):
            return [(Term('thread', (self.thread(st) or NONE,)), st)]
        if p == 'asyncio.current_task':
            e = st.m('cur')
            if e is not None and self.is_fut(e, st):
                return [(e, st)]
            return [(NONE, st)]
        if p in ('concurrent.futures.wait',
                 'concurrent.futures.as_completed'):
            return self.cf_wait(p, args, kwargs, st, node, fr)
        return None

    def gather_fut(self, args, kw, st, node, fr):
        I = self.I
        its = []
        for a in args:
            got = I_items(I, a.v, st) if isinstance(a, Star) else (a,)
            if got is None or any(isinstance(i, Star) for i in got):
                raise Broken('an unknown collection is waited for')
            its.extend(got)
        loop = next((st.obj(i).get('loop') for i in its
                     if self.is_fut(i, st)), None) or self.loop_here(st)
        if loop is None:
            e = st.m('cur')
            loop = e is not None and st.obj(e).get('evloop')
            if not loop:
                return [(I.exc('RuntimeError', node), st)]
        fs = []
        for i in its:
            if self.is_fut(i, st):
                if st.obj(i).get('loop') != loop:
                    return [(I.exc('ValueError', node), st)]
                f = i
            elif self.awaitable(i, st):
                (f, st), = models.make_task(I, i, st, node, fr, loop=loop)
            else:
                return [(I.exc('TypeError', node), st)]
            I.temps.append(f)
            fs.append(f)
        del I.temps[len(I.temps) - len(fs):]
        g, st = I.alloc(st, 'fut', node, fr, 'gather', coro=None,
                        outcome=None, loop=loop, children=Tup(tuple(fs)),
                        rex=kw.get('return_exceptions', FALSE) == TRUE)
        if not fs:
            return [(g, self.post(st, loop, Term('gathered', (g,)), True))]
        for f in dict.fromkeys(fs):
            c = Term('gathered', (g,))
            if st.obj(f).get('outcome') is not None:
                st = self.post(st, loop, c)
            else:
                st = st.upd(f, callbacks=st.obj(f).get('callbacks', ()) + (
                    c,))
        return [(g, st)]

    def gathered(self, g, st):
        """Another one of those gathered is done."""
        o = st.obj(g)
        if o.get('outcome') is not None:
            return [st]
        ocs = [st.obj(f).get('outcome') for f in o.get('children').items]
        if not o.get('rex'):
            for oc in ocs:
                if isinstance(oc, Raised):
                    return [self.complete(g, oc, st)]
        if None in ocs:
            return [st]
        if o.get('cancelled'):
            return [self.complete(g, CANCELLED, st)]
        r, st = self.I.alloc(st, 'list', At('gathered'), None, 'gather',
                             items=tuple(oc.exc if isinstance(oc, Raised)
                                         else oc.items[0] for oc in ocs))
        return [self.complete(g, Tup((r,)), st)]

    def cancel_fut(self, f, st):
        cs = st.obj(f).get('children')
        if cs is None:
            return super().cancel_fut(f, st)
        for c in cs.items:
            if st.obj(c).get('outcome') is None:
                st = self.cancel_fut(c, st)
        return st.upd(f, cancelled=True)

    def kw_items(self, v, st):
        if v == NONE:
            return ()
        its = self.I.dict_items(v, st)
        return tuple((k.v if isinstance(k, Const) else k, x)
                     for k, x in its or ())

    def cf_wait(self, p, a, k, st, node, fr):
        if p.endswith('as_completed') or models.arg(
                a, k, 2, 'return_when', NONE) != NONE:
            raise Broken(p)
        fs = I_items(self.I, a[0], st)
        out = [st]
        for cf in fs:
            nxt = []
            for x in out:
                if x.obj(cf).get('outcome') is not None:
                    nxt.append(x)
                else:
                    nxt.extend(y for v, y in self.block(Tup((
                        Const('cfut'), cf, FALSE)), x, node, fr))
            out = nxt
        res = []
        for x in out:
            s, x = self.I.alloc(x, 'set', node, fr, 'done',
                                items=frozenset(fs))
            e, x = self.I.alloc(x, 'set', node, fr, 'notdone',
                                items=frozenset())
            res.append((Tup((s, e)), x))
        return res

    def aio_run(self, coro, st, node, fr):
        I = self.I
        if self.loop_here(st) is not None:
            return [(I.exc('RuntimeError', node), st)]
        s, st = I.fresh(st, node, fr, 'runloop', 'loop')
        st = self.new_loop(s, st)
        out = []
        I.temps.append(s)
        try:
            for v, x in self.run_loop(s, coro, st, node, fr):
                out.append((v, x.upd(self.L(s), closed=True, queue=())))
        finally:
            I.temps.pop()
        return out

    def hook_method(self, recv, name, a, k, st, node, fr):
        if isinstance(recv, Sym) and recv.kind == 'loop':
            return self.loop_method(recv, name, a, k, st, node, fr)
        if isinstance(recv, Ref) and st.has(recv):
            o = st.obj(recv)
            if o.kind == 'cfut':
                return self.cf_method(recv, name, a, k, st, node, fr)
            if o.kind == 'pool':
                if name == 'submit':
                    return self.submit(recv, a[0], a[1:], k, st, node, fr)
                if name == 'shutdown':
                    return self.shutdown(recv, models.arg(
                        a, k, 0, 'wait', TRUE), st, node, fr)
                if name == '__enter__':
                    return [(recv, st)]
                if name == '__exit__':
                    return self.shutdown(recv, TRUE, st, node, fr)
                raise Broken(f'{name}() of a pool')
            if o.kind == 'tqueue':
                return self.tq_method(recv, name, a, k, st, node, fr)
            if o.kind == 'tevent':
                return self.tev_method(recv, name, a, k, st, node, fr)
            if o.kind == 'thr':
                return self.thr_method(recv, name, a, k, st, node, fr)
            if o.kind == 'cond':
                return self.cond_method(recv, name, a, k, st, node, fr)
            if o.kind == 'lock' and name == 'locked':
                return [(Const(o.get('owner') is not None), st)]
            if o.kind == 'fut' and name == 'add_done_callback':
                c = a[0]
                if o.get('outcome') is not None:
                    return [(NONE, self.ready_cb(recv, c, st))]
                return [(NONE, st.upd(recv, callbacks=o.get(
                    'callbacks', ()) + (c,)))]
            if o.kind == 'fut' and name == 'get_loop':
                return [(o.get('loop', NONE), st)]
        return super().hook_method(recv, name, a, k, st, node, fr)

    def set_attr(self, o, name, v, st, node, fr):
        if isinstance(o, Ref) and st.has(o) and st.obj(o).kind == 'thr':
            return [(NONE, st)]
        return super().set_attr(o, name, v, st, node, fr)

    def hook_await(self, v, st, node, fr):
        if isinstance(v, ExtCoro) and v.op == 'to_thread':
            l = self.loop_here(st)
            return self.I.bind(
                self.loop_method(l, 'run_in_executor', [NONE, Partial(
                    v.args[0], tuple(v.args[1:]), v.kwargs)], [], st, node,
                    fr),
                lambda f, x: self.wait_fut(f, x, node, fr))
        return super().hook_await(v, st, node, fr)

    def hook_with(self, v, st, node, fr, inner, is_async):
        if isinstance(v, Ref) and st.has(v) and not is_async:
            k = st.obj(v).kind
            if k in ('pool', 'cond'):
                return self.with_(v, k, st, node, fr, inner)
        return super().hook_with(v, st, node, fr, inner, is_async)

    def with_(self, v, k, st, node, fr, inner):
        I = self.I
        out = []
        ent = [(v, st)] if k == 'pool' else self.lock_acquire(
            st.obj(v).get('lock'), st, node)
        for e, x in ent:
            for o, y in inner(e, x):
                vals = _outvals(o)
                I.temps.append(Tup((vals,)) if not isinstance(vals, Val)
                               else vals)
                I.pos.append(('exit',) + tuple(o))
                try:
                    res = self.shutdown(v, TRUE, y, node, fr) \
                        if k == 'pool' else self.lock_release(
                            y.obj(v).get('lock'), y, node)
                finally:
                    I.temps.pop()
                    I.pos.pop()
                for w, z in res:
                    if isinstance(w, Raised):
                        out.append((('exc', w.exc), z))
                    else:
                        out.append((o, z))
        return I.dedupe(out)

    # -- values ------------------------------------------------------------
    def _ident(self, v):
        if isinstance(v, Term) and v.op in ('id', 'thread') and isinstance(
                v.args[0], (Sym, Ref)):
            return v.args[0]
        return None

    def equal(self, a, b, st):
        x, y = self._ident(a), self._ident(b)
        if x is not None and y is not None:
            return x == y
        return super().equal(a, b, st)

    def distinct(self, a, b, st):
        x, y = self._ident(a), self._ident(b)
        if x is not None and y is not None:
            return x != y
        if isinstance(a, Sym) and isinstance(b, Sym) and \
                a.kind == b.kind == 'loop':
            return a != b
        return super().distinct(a, b, st)

    def for_each(self, it, st, node, fr, body, is_async):
        # a generator nobody else uses is run in place
        if isinstance(it, Ref) and st.has(it) and not is_async:
            o = st.obj(it)
            if o.kind == 'lazy' and o.get('op') == 'gen' and not o.get(
                    'hist') and not o.get('done') and not isinstance(
                        o.get('fn').node, ast.GeneratorExp) and \
                    not st.mentioned(it, it.oid):
                return self.I.run_gen(
                    GenV(o.get('fn'), o.get('bound'), False), st, node, fr,
                    body)
        return super().for_each(it, st, node, fr, body, is_async)
