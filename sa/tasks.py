"""An asyncio event loop for the interpreter.

Tasks are coroutines which are left at every point they wait and continued
later: like generators in streams.py, by following their code again with the
recorded states substituted at the points already passed. The ready queue,
timers, futures with their callbacks, queues and semaphores behave like those
of asyncio; when tasks are cancelled, time passes or user code continues is
up to the subject. Time is symbolic: the clock is a sum of spans.
"""
from values import *
from source import Broken
from engine import abrupt
from harness import Harness, OWN_CANCEL
from streams import At

LOCAL = ('timeouts', 'fired', 'tval', 'mask', 'ownc')
CANCELLED = Raised(ExcV('asyncio.CancelledError', True, 'cancelled', ()))
NO_ARGS = Tup(())


class Run:
    def __init__(self, task, hist, resumes, wants):
        self.task, self.hist = task, hist
        self.resumes, self.wants = resumes, wants
        self.k = len(hist) // 2
        self.found = []


class Tasks(Harness):
    machine = True
    max_items = 40
    max_steps = 400
    loop = Sym('loop', 'loop')
    local = LOCAL

    def __init__(self):
        self.stats = {}
        self.cur = None

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- scheduling --------------------------------------------------------
    def push(self, st, c):
        return st.with_m('soon', st.m('soon', ()) + (c,))

    def soon(self, st, what, *args):
        return self.push(st, Term(what, args))

    def now(self, st):
        return st.m('clk')

    def add(self, a, b, st):
        return self.I.binop('Add', a, b, st, None, None)[0][0]

    def at(self, st, when, what, *args):
        return st.with_m('timers', st.m('timers', ()) + (
            Tup((when, Term(what, args))),))

    def not_after(self, a, b, st):
        """[(a <= b, state)]"""
        return self.I.compare('LtE', a, b, st, None, None)

    def known_not_after(self, a, b, st):
        """a <= b for sure"""
        return all(b_ for b_, _ in self.not_after(a, b, st))

    def known_before(self, a, b, st):
        return not any(b_ for b_, _ in self.not_after(b, a, st))

    def advance(self, dt, st):
        """Time passes: [states] with the due timers' work made ready."""
        st = st.with_m('clk', self.add(st.m('clk'), dt, st))
        res = [st.with_m('timers', ())]
        for t in st.m('timers', ()):
            when, what = t.items
            nxt = []
            for x in res:
                for due, y in self.not_after(when, x.m('clk'), x):
                    if due:
                        nxt.append(y.with_m('soon', y.m('soon', ()) + (
                            what,)))
                    else:
                        nxt.append(y.with_m('timers', y.m('timers', ())
                                            + (t,)))
            res = nxt
        return res

    def drain(self, st):
        """Run everything which is ready: [quiescent states]"""
        todo, out, seen = [(st, 0)], [], set()
        while todo:
            x, n = todo.pop()
            k = x.key()
            if k in seen:
                continue
            seen.add(k)
            q = x.m('soon', ())
            if not q:
                out.append(self.I.gc(x))
                continue
            if n > self.max_steps:
                raise Broken('the event loop never comes to rest')
            todo.extend((y, n + 1) for y in self.meanwhile(x))
            x = x.with_m('soon', q[1:])
            todo.extend((y, n + 1) for y in self.perform(q[0], x))
        return out

    def meanwhile(self, st):
        """What others may do before the next step: [states]"""
        return []

    def waiting(self, t, wid, st):
        if not st.has(t):
            return False
        o = st.obj(t)
        return o.get('outcome') is None and o.get('wait') is not None and \
            o.get('wid') == wid.v

    def perform(self, what, st):
        op, a = what.op, what.args
        if op == 'start':
            t = a[0]
            if st.obj(t).get('mustcancel'):
                return self.finish(t, Raised(OWN_CANCEL), st)
            return self.step(t, NONE, st)
        if op == 'wake':
            t, wid = a[:2]
            if not self.waiting(t, wid, st):
                return [st]
            v = a[2] if len(a) > 2 else NONE
            if st.obj(t).get('mustcancel'):
                v = Raised(OWN_CANCEL)
                st = self.unwait(t, st).upd(t, mustcancel=None)
            return self.step(t, v, st)
        if op == 'hop':
            return [self.soon(st, 'wake', *a)]
        if op == 'cancelnow':
            t, wid = a
            if not self.waiting(t, wid, st):
                return [st]
            return self.step(t, Raised(OWN_CANCEL), self.unwait(t, st))
        if op == 'tmo':
            t, wid, tid = a
            if not self.waiting(t, wid, st):
                return [st]
            e = Raised(ExcV('asyncio.CancelledError', True,
                            ('timeout', tid), ()))
            w = st.obj(t).get('wait')
            if w.items[0] == Const('fut') and st.obj(w.items[1]).get(
                    'outcome') is None:
                st = self.cancel_fut(w.items[1], st)
            st = self.unwait(t, st).note(st.obj(t).get('node') or At(
                't'), 'timeout expires')
            return self.step(t, e, st, fired=tid)
        if op == 'call':
            fn, args = a
            out = []
            for v, x in self.I.call(fn, list(args.items), [], st,
                                    At('callback'), None):
                out.append(x)
            return [y for _, y in self.I.dedupe([(None, y) for y in out])]
        raise Broken(op)

    def unwait(self, t, st):
        """Take the task off whatever it waits for."""
        w = st.obj(t).get('wait')
        k = w.items[0].v
        for ref in w.items[1:]:
            if isinstance(ref, Ref) and st.has(ref):
                o = st.obj(ref)
                for at in ('callbacks', 'waiters'):
                    if o.get(at):
                        st = st.upd(ref, **{at: tuple(
                            c for c in o.get(at)
                            if not (isinstance(c, Term) and c.args
                                    and c.args[0] == t))})
                if k == 'get' and o.get('items') and Term('wake', (
                        t, Const(st.obj(t).get('wid')))) not in o.get(
                            'waiters', ()):
                    # it was its turn: the next one's now
                    st = self.wake_getter(ref, st)
                if k == 'sem' and st.obj(t).get('granted'):
                    st = self.sem_free(ref, st.upd(t, granted=None))
        return st

    # -- tasks -------------------------------------------------------------
    def on_task(self, ref, st, node, fr):
        st = st.with_m('tasks', st.m('tasks', ()) + (ref,))
        self.count('tasks')
        return self.soon(st, 'start', ref)

    def step(self, t, v, st, fired=None):
        """Continue a task until it waits again: [states]"""
        I, S = self.I, self.I.streams
        o = st.obj(t)
        hist = o.get('hist', ())
        k = len(hist) // 2
        x = st.with_m('cur', t).with_m('yi', k)
        for pair in (o.get('tmon') or NO_ARGS).items:
            kk, vv = pair.items
            x = x.with_m(kk.v, vv)
        if fired is not None:
            x = x.with_m('fired', x.m('fired', ()) + (fired,))
        x = x.upd(t, wait=None, tmon=NO_ARGS, granted=None)
        tok = S.intern(v, x)
        pts = [S.states[i] for i in hist]
        resumes = pts[0::2] + [(v, x)]
        saved = self.cur, I.stack, I.temps
        known = self.pruned
        self.cur = r = Run(t, hist + (tok,), resumes, hist[1::2])
        r.k = k
        I.stack, I.temps = [], [t]
        try:
            ends = I.await_(o.get('coro'), resumes[0][1], At(
                ('task', t.oid)), None)
        finally:
            self.cur, I.stack, I.temps = saved
        out = r.found
        for w, y in ends:
            if y.m('yi') == k and y.m('cur') == t:
                out.extend(self.finish(t, w, self.leave(y)))
        if not r.found and not out and known == self.pruned:
            self.diverges(t, st)
        return [y for _, y in I.dedupe([(None, y) for y in out])]

    pruned = 0     # paths which were not followed further

    def diverges(self, t, st):
        raise Broken('a task never waits again and never ends')

    def leave(self, x):
        m = dict(x.mon)
        for k in self.local + ('cur', 'yi'):
            m.pop(k, None)
        return State(x.heap, x.facts, m, x.trace)

    def finish(self, t, v, st):
        st = st.upd(t, hist=(), keep=NONE, wait=None, tmon=NO_ARGS)
        oc = v if isinstance(v, Raised) else Tup((v,))
        st = self.complete(t, oc, st)
        st = st.with_m('tasks', tuple(r for r in st.m('tasks') if r != t))
        return self.task_done(t, oc, st)

    def task_done(self, t, oc, st):
        return [st]

    def wid(self, st):
        return Const(st.m('yi'))

    def block(self, what, st, node, fr):
        """Wait: [(value, state)] of what continues us."""
        r = self.cur
        if r is None or st.m('cur') != r.task:
            raise Broken('something waits outside of a task')
        I, S = self.I, self.I.streams
        i = st.m('yi')
        tok = S.intern(what, st)
        if i < r.k:
            if tok != r.wants[i]:
                return []
            return [r.resumes[i + 1]]
        for tid in st.m('timeouts', ()):
            st = self.at(st, st.m(('dl', tid)), 'tmo', r.task, Const(i), tid)
        st = self.on_wait(what, st, node)
        loc = tuple(Tup((Const(k), st.m(k))) for k in LOCAL
                    if st.m(k) is not None)
        x = self.leave(st).upd(
            r.task, hist=r.hist + (tok,), wait=what, wid=i,
            keep=Tup(tuple(I.stack) + tuple(I.temps)), tmon=Tup(loc))
        r.found.append(x)
        return []

    def on_wait(self, what, st, node):
        return st

    def suspend(self, st, node, fr, what):
        # something of the library which is always ready
        st = self.soon(st, 'wake', st.m('cur'), self.wid(st))
        return self.block(Tup((Const('other'),)), st, node, fr)

    def timeout_started(self, tid, t, st):
        return st.with_m(('dl', tid), self.add(st.m('clk'), t, st))

    def cancel(self, t, st):
        """task.cancel()"""
        o = st.obj(t)
        if o.get('outcome') is not None:
            return st
        w = o.get('wait')
        if w is None:
            return st.upd(t, mustcancel=True)
        k = w.items[0].v
        if k == 'fut':
            f = w.items[1]
            if st.obj(f).get('outcome') is not None:
                return st.upd(t, mustcancel=True)
            return self.cancel_fut(f, st)
        if any(x.op == 'wake' and x.args[:2] == (t, Const(o.get('wid')))
               for x in st.m('soon', ())):
            return st.upd(t, mustcancel=True)
        return self.soon(st, 'cancelnow', t, Const(o.get('wid')))

    def cancel_fut(self, f, st):
        if st.obj(f).get('task'):
            return self.cancel(f, st)
        return self.complete(f, CANCELLED, st)

    # -- futures -----------------------------------------------------------
    def complete(self, f, oc, st):
        cbs = st.obj(f).get('callbacks', ())
        st = st.upd(f, outcome=oc, callbacks=())
        st = self.on_complete(f, oc, st)
        for c in cbs:
            st = self.ready_cb(f, c, st)
        return st

    def ready_cb(self, f, c, st):
        if isinstance(c, Term) and c.op in ('wake', 'hop'):
            return self.push(st, c)
        return self.soon(st, 'call', c, Tup((f,)))

    def on_complete(self, f, oc, st):
        return st

    def is_fut(self, v, st):
        return isinstance(v, Ref) and st.has(v) and st.obj(v).kind == 'fut'

    def outcome(self, f, st):
        oc = st.obj(f).get('outcome')
        return oc if isinstance(oc, Raised) else oc.items[0]

    def register(self, f, st, op='wake'):
        c = Term(op, (st.m('cur'), self.wid(st)))
        return st.upd(f, callbacks=st.obj(f).get('callbacks', ()) + (c,))

    def wait_fut(self, f, st, node, fr, op='wake', kind='fut'):
        if st.obj(f).get('outcome') is not None:
            return [(self.outcome(f, st), st)]
        if f == st.m('cur'):
            return [(self.I.exc('RuntimeError', node), st)]
        x = self.register(f, st, op)
        out = []
        for v, y in self.block(Tup((Const(kind), f)), x, node, fr):
            out.append((v if isinstance(v, Raised) else self.outcome(f, y),
                        y))
        return out

    def as_future(self, v, st, node, fr):
        if self.is_fut(v, st):
            return v, st
        if isinstance(v, (Coro, ExtCoro)):
            import models
            (r, st), = models.make_task(self.I, v, st, node, fr)
            return r, st
        raise Broken('something unknown is waited for')

    def fut_method(self, f, name, a, k, st, node, fr):
        o = st.obj(f)
        oc = o.get('outcome')
        I = self.I
        if name == 'done':
            return [(Const(oc is not None), st)]
        if name == 'cancelled':
            return [(Const(isinstance(oc, Raised) and oc.exc.cls ==
                           'asyncio.CancelledError'), st)]
        if name in ('result', 'exception'):
            if oc is None:
                return [(I.exc('asyncio.InvalidStateError', node), st)]
            if name == 'result' or isinstance(oc, Raised) and oc.exc.cls == \
                    'asyncio.CancelledError':
                return [(self.outcome(f, st), st)]
            return [(oc.exc if isinstance(oc, Raised) else NONE, st)]
        if name == 'set_result':
            if oc is not None:
                return [(I.exc('asyncio.InvalidStateError', node), st)]
            return [(NONE, self.complete(f, Tup((a[0],)), st))]
        if name == 'set_exception':
            if oc is not None:
                return [(I.exc('asyncio.InvalidStateError', node), st)]
            e = a[0]
            if isinstance(e, Ext):
                e = ExcV(e.path, False, 'made', ())
            if not isinstance(e, ExcV) or e.cls == 'StopIteration':
                # futures reject StopIteration
                return [(I.exc('TypeError', node), st)]
            return [(NONE, self.complete(f, Raised(e), st))]
        if name == 'cancel':
            if oc is not None:
                return [(FALSE, st)]
            return [(TRUE, self.cancel_fut(f, st))]
        if name == 'add_done_callback':
            if oc is not None:
                return [(NONE, self.soon(st, 'call', a[0], Tup((f,))))]
            return [(NONE, st.upd(f, callbacks=o.get('callbacks', ()) + (
                a[0],)))]
        if name == 'remove_done_callback':
            return [(Const(1), st.upd(f, callbacks=tuple(
                c for c in o.get('callbacks', ()) if c != a[0])))]
        return None

    # -- library -----------------------------------------------------------
    def current_loop(self, st, node, fr):
        return [(self.loop, st)]

    def clock(self, st):
        return [(st.m('clk'), st)]

    def hook_method(self, recv, name, a, k, st, node, fr):
        if self.is_fut(recv, st):
            return self.fut_method(recv, name, a, k, st, node, fr)
        if isinstance(recv, Sym) and recv.kind == 'loop':
            if name in ('call_soon', 'call_soon_threadsafe'):
                return [(Sym('handle', 'handle'), self.soon(
                    st, 'call', a[0], Tup(tuple(a[1:]))))]
            if name in ('call_later', 'call_at'):
                d = a[0]
                when = d if name == 'call_at' else self.add(
                    st.m('clk'), d, st)
                r, st = self.I.alloc(st, 'timerh', node, fr)
                st = self.at(st, when, 'call', a[1], Tup(tuple(a[2:])))
                return [(r, st.upd(r, entry=st.m('timers')[-1]))]
            if name == 'time':
                return self.clock(st)
            if name in ('is_running',):
                return [(TRUE, st)]
            if name in ('is_closed',):
                return [(FALSE, st)]
        if isinstance(recv, Ref) and st.has(recv):
            o = st.obj(recv)
            if o.kind == 'timerh' and name == 'cancel':
                ts = list(st.m('timers', ()))
                if o.get('entry') in ts:
                    ts.remove(o.get('entry'))
                return [(NONE, st.with_m('timers', tuple(ts)))]
            if o.kind == 'aioqueue':
                return self.queue(recv, name, a, st, node, fr)
            if o.kind in ('aiosem', 'aiolock'):
                if name == 'release':
                    return [(NONE, self.sem_free(recv, st))]
                if name == 'locked':
                    return [(Const(self.permits(recv, st) == 0), st)]
            if o.kind == 'aioevent':
                if name == 'set':
                    st = st.upd(recv, set=TRUE)
                    for w in o.get('waiters', ()):
                        st = self.push(st, w)
                    return [(NONE, st.upd(recv, waiters=()))]
        return None

    def hook_await(self, v, st, node, fr):
        if self.is_fut(v, st):
            return self.wait_fut(v, st, node, fr)
        if not isinstance(v, ExtCoro):
            return None
        I = self.I
        if v.op == 'shield':
            f, st = self.as_future(v.args[0], st, node, fr)
            return self.wait_fut(f, st, node, fr, 'hop', 'shield')
        if v.op == 'sleep':
            res = v.args[1] if len(v.args) > 1 else NONE
            d = v.args[0] if v.args else Const(0)
            t, w = st.m('cur'), self.wid(st)
            if isinstance(d, Const) and d.v <= 0:
                st = self.soon(st, 'wake', t, w)
            else:
                st = self.at(st, self.add(st.m('clk'), d, st), 'wake', t, w)
            return [(x if isinstance(x, Raised) else res, y) for x, y in
                    self.block(Tup((Const('sleep'),)), st, node, fr)]
        if v.op in ('q.get', 'q.put'):
            return self.queue_wait(v, st, node, fr)
        if v.op == 'sem.acquire':
            return self.sem_acquire(v.args[0], st, node, fr)
        if v.op == 'event.wait':
            e = v.args[0]
            if st.obj(e).get('set') == TRUE:
                return [(TRUE, st)]
            st = st.upd(e, waiters=st.obj(e).get('waiters', ()) + (
                Term('wake', (st.m('cur'), self.wid(st))),))
            return [(x if isinstance(x, Raised) else TRUE, y) for x, y in
                    self.block(Tup((Const('event'), e)), st, node, fr)]
        if v.op == 'wait':
            return self.aio_wait(v, st, node, fr)
        if v.op == 'gather':
            return self.aio_gather(v, st, node, fr)
        return None

    def futures_of(self, vs, st, node, fr):
        its = I_items(self.I, vs, st)
        if its is None:
            raise Broken('an unknown collection is waited for')
        out = []
        for i in its:
            f, st = self.as_future(i, st, node, fr)
            if f not in out:
                out.append(f)
        return tuple(out), st

    def aio_wait(self, v, st, node, fr):
        d = dict(v.kwargs)
        fs, st = self.futures_of(v.args[0] if v.args else d.get('fs'), st,
                                 node, fr)
        rw = d.get('return_when', NONE)
        rw = rw.path if isinstance(rw, Ext) else str(getattr(rw, 'v', ''))
        timeout = d.get('timeout', v.args[1] if len(v.args) > 1 else NONE)
        if not fs:
            return [(self.I.exc('ValueError', node), st)]
        I = self.I
        out = []
        todo = [st]
        first = True
        dl = None if timeout == NONE else self.add(st.m('clk'), timeout, st)
        while todo:
            x = todo.pop()
            done = [f for f in fs if x.obj(f).get('outcome') is not None]
            enough = len(done) == len(fs) or done and (
                'FIRST_COMPLETED' in rw or 'FIRST_EXCEPTION' in rw and any(
                    isinstance(x.obj(f).get('outcome'), Raised)
                    for f in done))
            if enough:
                out.append(self.waited(fs, x, node, fr))
                continue
            for f in fs:
                if f not in done:
                    x = self.register(f, x, 'hop')
            if dl is not None:
                x = self.at(x, dl, 'wake', x.m('cur'), self.wid(x),
                            Const('expired'))
            for w, y in self.block(Tup((Const('wait'),) + fs), x, node, fr):
                if isinstance(w, Raised):
                    out.append((w, y))
                elif w == Const('expired'):
                    out.append(self.waited(fs, y, node, fr))
                else:
                    todo.append(y)
        return out

    def waited(self, fs, x, node, fr):
        done = frozenset(f for f in fs if x.obj(f).get('outcome') is not None)
        a, x = self.I.alloc(x, 'set', node, fr, 'done', items=done)
        b, x = self.I.alloc(x, 'set', node, fr, 'pending',
                            items=frozenset(fs) - done)
        return Tup((a, b)), x

    def aio_gather(self, v, st, node, fr):
        I = self.I
        d = dict(v.kwargs)
        rex = d.get('return_exceptions', FALSE) == TRUE
        fs = []
        for a in v.args:
            its = (a,)
            if isinstance(a, Star):
                its = I_items(I, a.v, st)
                if its is None:
                    raise Broken('an unknown collection is waited for')
            for i in its:
                f, st = self.as_future(i, st, node, fr)
                fs.append(f)
        out = []
        todo = [(st, 0, ())]
        while todo:
            x, i, vals = todo.pop()
            if i == len(fs):
                r, x = I.alloc(x, 'list', node, fr, 'gather', items=vals)
                out.append((r, x))
                continue
            for w, y in self.wait_fut(fs[i], x, node, fr):
                if isinstance(w, Raised):
                    if rex and y.obj(fs[i]).get('outcome') is not None:
                        todo.append((y, i + 1, vals + (w.exc,)))
                    else:
                        out.append((w, y))
                else:
                    todo.append((y, i + 1, vals + (w,)))
        return out

    # semaphores and locks
    def permits(self, r, st):
        v = st.obj(r).get('value')
        if not isinstance(v, Const):
            raise Broken('a semaphore with an unknown number of permits')
        return v.v

    def sem_free(self, r, st):
        ws = st.obj(r).get('waiters', ())
        if ws:
            w = ws[0]
            st = st.upd(r, waiters=ws[1:]).upd(w.args[0], granted=True)
            return self.push(st, w)
        return st.upd(r, value=Const(self.permits(r, st) + 1))

    def sem_acquire(self, r, st, node, fr):
        n = self.permits(r, st)
        if n > 0:
            return [(TRUE, st.upd(r, value=Const(n - 1)))]
        w = Term('wake', (st.m('cur'), self.wid(st)))
        st = st.upd(r, waiters=st.obj(r).get('waiters', ()) + (w,))
        return [(v if isinstance(v, Raised) else TRUE, x) for v, x in
                self.block(Tup((Const('sem'), r)), st, node, fr)]

    def hook_with(self, v, st, node, fr, inner, is_async):
        if not (is_async and isinstance(v, Ref) and st.has(v) and st.obj(
                v).kind in ('aiosem', 'aiolock')):
            return None
        out = []
        for w, x in self.sem_acquire(v, st, node, fr):
            if isinstance(w, Raised):
                out.append((('exc', w.exc), x))
                continue
            for o, y in inner(NONE, x):
                out.append((o, self.sem_free(v, y)))
        return self.I.dedupe(out)

    # queues
    def queue(self, q, name, a, st, node, fr):
        o = st.obj(q)
        its = o.get('items', ())
        if name == 'get_nowait':
            if not its:
                return [(self.I.exc('asyncio.QueueEmpty', node), st)]
            return self.take(q, st, node)
        if name == 'put_nowait':
            if o.get('maxsize') != Const(0):
                return [(NONE, self.enqueue(q, a[0], st, node)),
                        (self.I.exc('asyncio.QueueFull', node), st)]
            return [(NONE, self.enqueue(q, a[0], st, node))]
        if name == 'empty':
            return [(Const(not its), st)]
        if name == 'qsize':
            return [(Const(len(its)), st)]
        if name == 'full':
            if o.get('maxsize') == Const(0):
                return [(FALSE, st)]
            return [(TRUE, st), (FALSE, st)]
        if name == 'task_done':
            return [(NONE, st)]
        if name in ('get', 'put', 'join'):
            return None
        raise Broken(f'{name}() of a queue is not understood')

    def enqueue(self, q, v, st, node):
        o = st.obj(q)
        st = st.upd(q, items=o.get('items', ()) + (v,))
        st = self.on_put(q, v, st, node)
        return self.wake_getter(q, st)

    def wake_getter(self, q, st):
        ws = st.obj(q).get('waiters', ())
        if ws:
            st = self.push(st.upd(q, waiters=ws[1:]), ws[0])
        return st

    def take(self, q, st, node):
        o = st.obj(q)
        its = o.get('items')
        fl = o.get('flavour')
        i = 0
        if fl == 'LifoQueue':
            i = len(its) - 1
        elif fl != 'Queue' and len(its) > 1:
            # the smallest one: any
            return [(its[j], self.on_take(q, its[j], st.upd(
                q, items=its[:j] + its[j + 1:]), node))
                for j in range(len(its))]
        st = st.upd(q, items=its[:i] + its[i + 1:])
        return [(its[i], self.on_take(q, its[i], st, node))]

    def on_put(self, q, v, st, node):
        return st

    def on_take(self, q, v, st, node):
        return st

    def queue_wait(self, v, st, node, fr):
        q = v.args[0]
        w = Term('wake', (st.m('cur'), self.wid(st)))
        if v.op == 'q.put':
            val = v.args[1]
            out = [(NONE, self.enqueue(q, val, st, node))]
            if st.obj(q).get('maxsize') != Const(0):
                # as many others may have come before
                x = st.with_m('room', st.m('room', ()) + (w,)).note(
                    node, 'the queue is full')
                for r, y in self.block(Tup((Const('put'), q)), x, node, fr):
                    if isinstance(r, Raised):
                        out.append((r, y))
                    else:
                        out.append((NONE, self.enqueue(q, val, y, node)))
            return out
        if st.obj(q).get('items'):
            return self.take(q, st, node)
        out = []
        todo = [st]
        while todo:
            x = todo.pop()
            w = Term('wake', (x.m('cur'), self.wid(x)))
            x = x.upd(q, waiters=x.obj(q).get('waiters', ()) + (w,))
            for r, y in self.block(Tup((Const('get'), q)), x, node, fr):
                if isinstance(r, Raised):
                    out.append((r, y))
                elif y.obj(q).get('items'):
                    out.extend(self.take(q, y, node))
                else:
                    todo.append(y)
        return out


def I_items(I, v, st):
    its = I.items_of(v, st)
    if its is None and isinstance(v, Ref) and st.has(v) and st.obj(
            v).kind == 'set':
        its = tuple(sorted(st.obj(v).get('items'), key=repr))
    return its
