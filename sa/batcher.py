"""AsyncBackgroundBatcher: C04, C09, C10, C11.

The class is interpreted inside the event loop of tasks.py: callers, the
gathering loop and the batch tasks are its tasks, what they do follows from
the source. Arguments, keys, results and times are symbols. The environment
is the most general one within the bounds of a scenario: it decides when calls
arrive, when callers are cancelled, how much time passes, and what the batch
function does at every step.
"""
from values import *
from source import Broken
from parallel import analyse_all, until
from engine import Interp, abrupt
from harness import OWN_CANCEL
from tasks import Tasks, CANCELLED, I_items
from streams import At

TEXT = {
    'outcome': 'a caller gets exactly the outcome the batch function '
               'produced for its key',
    'hang': 'every caller is answered once its batch is done',
    'serve': 'later calls are still computed and answered',
    'stuck': 'nothing blocks the event loop',
    'raises': 'the batcher can be made and called',
    'content': 'the batch function gets the keys and arguments of the calls',
}
RULES = {f'{p}/{k}': v for p in ('C04', 'C09', 'C11')
         for k, v in TEXT.items()}
RULES.update({
    'C11/once': 'no work is added for a key which is pending or retained',
    'C11/fresh': 'after the retention window a call is computed anew',
    'C11/forget': 'without retention nothing is remembered',
    'C10/raises': TEXT['raises'],
    'C10/content': TEXT['content'],
    'C10/stuck': TEXT['stuck'],
    'C10/empty': 'no batch is empty',
    'C10/size': 'no batch has more than max_batch_size items',
    'C10/concurrency': 'no more than max_concurrent_batches run at once',
    'C10/fifo': 'items appear in the order the calls arrived',
    'C10/share': 'calls less than batch_timeout apart share a batch until it '
                 'is full',
    'C10/late': 'a queued call is handed over within batch_timeout of the '
                'last arrival of its batch once there is a free slot',
})
NEED = {
    'C04': ('calls', 'batches', 'answers', 'raised', 'missing'),
    'C09': ('calls', 'batches', 'answers', 'cancelled callers'),
    'C10': ('calls', 'batches', 'shared batches', 'batches closed by time',
            'full batches'),
    'C11': ('calls', 'batches', 'answers', 'joined calls', 'later calls'),
}
BY_PROP = True

FUNC = Sym('func', 'userfunc')
B1, B2, GAP = Sym('b1', 'num+'), Sym('b2', 'num+'), Sym('gap', 'num+')
R1, R2 = Sym('r1', 'num0+'), Sym('r2', 'num+')
END, FAIL, CANC = Const('end'), ExcV('Exception', False, 'batch raised',
                                     ()), ExcV('asyncio.CancelledError', True,
                                               'batch cancelled', ())


def lin(*atoms):
    return Term('lin', (0, tuple(sorted(((a, 1) for a in atoms), key=repr))))


BT, R = lin(B1, B2), lin(R1, R2)


class Root:
    lineno = 0
    _file = '<caller>'

    def __init__(self, uid, q):
        self._uid = uid
        self._qual = q


def arg_of(i):
    return Sym(('arg', i), 'plain')


def key_of(k):
    return Sym(('key', k), 'str')


def value_of(r):
    return Sym(('result', r), 'plain')


def exc_of(r):
    return ExcV('Exception', False, ('result', r), ())


# A request: what the batcher has to compute, as it should be
class Req:
    F = ('id', 'key', 'arg', 'arrival', 'status', 'outcome', 'done')

    def __init__(self, *a):
        for k, v in zip(self.F, a):
            setattr(self, k, v)

    def val(self):
        return Tup(tuple(getattr(self, k) if isinstance(
            getattr(self, k), Val) else Const(getattr(self, k))
            for k in self.F))


def reqs(st):
    out = []
    for t in st.m('reqs', ()):
        out.append(Req(*[v.v if isinstance(v, Const) and i in (0, 4) else v
                         for i, v in enumerate(t.items)]))
    return out


def with_reqs(st, rs):
    return st.with_m('reqs', tuple(r.val() for r in rs))


class BHarness(Tasks):
    def __init__(self, prop, mb, mc):
        super().__init__()
        self.prop, self.mb, self.mc = prop, mb, mc
        self.seen_batch = None

    def rule(self, name, msg, st, node=None):
        self.pruned += 1
        rule = f'{self.prop}/{name}'
        if rule in RULES:
            self.I.report(rule, msg, self.place(node, st), st)

    def diverges(self, t, st):
        self.rule('stuck', 'the event loop is never given back', st,
                  st.obj(t).get('node'))

    def exc_may_be(self, exc, cls):
        # generators cannot raise these
        if cls in ('StopAsyncIteration', 'StopIteration'):
            return False
        return None

    def meanwhile(self, st):
        return self.scenario.meanwhile(st)

    def place(self, node, st):
        if node is not None and hasattr(node, 'lineno') and getattr(
                node, '_file', '<caller>') != '<caller>':
            return node
        t = st.trace
        while t is not None and t[2] in ('<caller>', None):
            t = t[0]
        n = Root(-6, 'AsyncBackgroundBatcher')
        if t:
            n._file, n.lineno = t[2], t[1]
        return n

    def distinct(self, a, b, st):
        if isinstance(a, Sym) and isinstance(b, Sym) and a != b:
            if a.kind == b.kind == 'str':
                return True
            return {a.kind, b.kind} <= {'plain', 'str'}
        return False

    def equal(self, a, b, st):
        # keys and arguments of different calls differ
        def own(v):
            return isinstance(v, Sym) and v.kind in ('plain', 'str') or \
                isinstance(v, Term) and v.op == 'str'
        if own(a) and own(b):
            return a == b
        return super().equal(a, b, st)

    def isinst(self, v, p, c, st):
        if isinstance(v, Sym) and v.kind == 'plain':
            return False
        return None

    # -- the batch function ------------------------------------------------
    def hook_call(self, f, a, k, st, node, fr):
        if f != FUNC:
            return None
        if len(a) != 1 or k:
            self.rule('content', 'the batch function is not called with the '
                      'batch alone', st, node)
            return [(self.I.exc('TypeError', node), st)]
        I = self.I
        its = I_items(I, a[0], st)
        if its is None:
            out = []
            for r, x in I.to_list(a[0], st, node, fr):
                if abrupt(r):
                    out.append((r, x))
                else:
                    out.extend(self.batch(r, I.items_of(r, x), x, node, fr))
            return out
        return self.batch(a[0], its, st, node, fr)

    def batch(self, lst, its, st, node, fr):
        I = self.I
        self.count('batches')
        pairs = []
        for v in its:
            kv = I.items_of(v, st)
            if kv is None or len(kv) != 2:
                self.rule('content', 'an item is not a pair of key and '
                          'argument', st, node)
                return []
            pairs.append(Tup((kv[0], kv[1])))
        st = st.note(node, f'batch of {len(pairs)} handed over')
        if not pairs:
            self.rule('empty', 'the batch function gets an empty batch', st,
                      node)
        mb = st.m('mb').v
        if len(pairs) > mb:
            self.rule('size', f'{len(pairs)} items in a batch, '
                      f'max_batch_size is {mb}', st, node)
        running = [b for b in st.m('running', ())]
        if len(running) + 1 > self.mc:
            self.rule('concurrency', f'{len(running) + 1} batches at once, '
                      f'max_concurrent_batches is {self.mc}', st, node)
        rs = reqs(st)
        ids = []
        for p in pairs:
            k, v = p.items
            same = [r for r in rs if r.key == k]
            new = [r for r in same if r.status == 'new' and r.id not in ids]
            if not new:
                if not same:
                    self.rule('content', 'the batch has a key nobody asked '
                              'for', st, node)
                else:
                    self.rule('once', 'a key is handed over again while it '
                              'is pending or retained', st, node)
                ids.append(None)
                continue
            if new[0].arg != v:
                self.rule('content', 'the key comes with another argument',
                          st, node)
            ids.append(new[0].id)
        fresh = [r for r in rs if r.status == 'new']
        want = [r.id for r in fresh[:len(pairs)]]
        if ids != want:
            self.rule('fifo', 'the batch does not have the oldest queued '
                      'items in order', st, node)
        if len(pairs) > 1:
            self.count('shared batches')
        last = next((r for r in rs if ids and r.id == ids[-1]), None)
        full = len(pairs) >= mb
        self.count('full batches' if full else 'batches closed by time')
        if last is not None and not full:
            nxt = next((r for r in fresh if r.id not in ids), None)
            if nxt is not None and self.known_before(
                    nxt.arrival, self.add(last.arrival, BT, st), st):
                self.rule('share', 'a call which arrived less than '
                          'batch_timeout later is not in the batch', st, node)
        if last is not None:
            st = st.with_m('lastbatch', Tup((Const(full), last.arrival)))
        for r in rs:
            if r.id in ids:
                r.status = 'handed'
        b, st = I.alloc(st, 'ubatch', node, fr, pairs=tuple(pairs),
                        left=tuple(p.items[0] for p in pairs),
                        ids=tuple(ids), state='made')
        st = with_reqs(st, rs).with_m('running', tuple(running) + (b,))
        st = st.with_m('ubatches', st.m('ubatches', ()) + (b,))
        out = [(b, st)]
        if self.calls_may_fail(st):
            f = self.scenario.call_failure
            out.append((Raised(f), self.batch_over(
                b, Const('error') if f.cls == 'StopIteration' else Raised(f),
                st)))
        return out

    def calls_may_fail(self, st):
        return False

    def batch_over(self, b, oc, st):
        """The batch function is done with a batch."""
        o = st.obj(b)
        rs = reqs(st)
        for r in rs:
            if r.id in o.get('ids') and r.status == 'handed':
                r.status = 'done'
                r.outcome = oc
                r.done = st.m('clk')
        st = with_reqs(st, rs).upd(b, state='over', left=())
        return st.with_m('running', tuple(
            x for x in st.m('running') if x != b)).with_m(
                'ubatches', tuple(x for x in st.m('ubatches') if x != b))

    def is_ubatch(self, v, st):
        return isinstance(v, Ref) and st.has(v) and st.obj(
            v).kind == 'ubatch'

    def for_each(self, it, st, node, fr, body, is_async):
        if not self.is_ubatch(it, st):
            return None
        if not is_async:
            return [(('exc', self.I.exc('TypeError', node).exc), st)]

        def step(x):
            res = []
            for c, v, y in self.next_elem(it, x, node, fr, True):
                if c == 'end':
                    res.append((('next',), y))
                elif c == 'exc':
                    res.append((('exc', v), y))
                else:
                    for o, z in body(v, y):
                        res.append(('again' if o[0] == 'next' else o, z))
            return res
        self.I.temps.append(it)
        try:
            return self.I.loop(st, step, node, fr)
        finally:
            self.I.temps.pop()

    def next_elem(self, it, st, node, fr, is_async):
        if not self.is_ubatch(it, st):
            raise Broken('iteration over something unknown')
        if st.obj(it).get('state') == 'over':
            return [('end', None, st)]
        st = st.upd(it, state='asked', asker=st.m('cur'),
                    wid=self.wid(st))
        out = []
        for v, x in self.block(Tup((Const('anext'), it)), st, node, fr):
            if isinstance(v, Raised):
                out.append(('exc', v.exc, x))
            elif v == END:
                out.append(('end', None, x))
            else:
                out.append(('elem', v.items[0], x))
        return out

    def hook_await(self, v, st, node, fr):
        if isinstance(v, ExtCoro) and v.op == 'aclose':
            return [(NONE, st)]
        return super().hook_await(v, st, node, fr)

    def hook_method(self, recv, name, a, k, st, node, fr):
        if self.is_ubatch(recv, st):
            if name == '__aiter__':
                return [(recv, st)]
            if name == '__anext__':
                return [(ExtCoro('anext', (recv,), ()), st)]
            if name == 'aclose':
                return [(ExtCoro('aclose', (recv,), ()), st)]
        return super().hook_method(recv, name, a, k, st, node, fr)

    # -- callers -----------------------------------------------------------
    def task_done(self, t, oc, st):
        cs = st.m('calls', ())
        for i, c in enumerate(cs):
            if c.items[0] == t:
                cs = cs[:i] + (Tup((TRUE,) + c.items[1:]),) + cs[i + 1:]
                return self.answered(c, oc, st.with_m('calls', cs))
        return [st]

    def answered(self, c, oc, st):
        _, cid, rid, cancelled = c.items
        if cancelled == TRUE:
            return [st]
        self.count('answers')
        r = next(r for r in reqs(st) if r.id == rid.v)
        got = oc if isinstance(oc, Raised) else oc.items[0]
        who = f'caller {cid.v}'
        if r.status != 'done':
            old = [q for q in reqs(st) if q.key == r.key and q.id != r.id
                   and q.status == 'done' and q.outcome == got]
            if old and r.status == 'new':
                self.rule('fresh', f'{who} gets the result of an earlier '
                          'request', st)
                self.rule('serve', f'{who} gets the result of an earlier '
                          'request', st)
            else:
                self.rule('outcome', f'{who} is answered before its request '
                          'is: ' + show(got), st)
            return []
        if r.outcome == Const('error'):
            if not isinstance(got, Raised) or got.exc.cls in (
                    'asyncio.CancelledError',):
                self.rule('outcome', f'{who} does not get an error for a '
                          'missing result but ' + show(got), st)
                return []
        elif r.outcome == Const('any'):
            if not isinstance(got, Raised) and got != value_of(rid.v):
                self.rule('outcome', f'{who} gets {show(got)}', st)
                return []
        elif got != r.outcome:
            self.rule('outcome', f'{who} gets {show(got)} instead of '
                      f'{show(r.outcome)}', st)
            return []
        if isinstance(got, Raised):
            self.count('raised')
        return [st]


def show(v):
    if isinstance(v, Raised):
        return f'{v.exc.cls} ({v.exc.origin})'
    if isinstance(v, ExcV):
        return f'the exception {v.origin} as a value'
    if isinstance(v, Sym):
        return str(v.name)
    if isinstance(v, Const):
        return repr(v.v)
    return type(v).__name__


class Scenario:
    """Explores what the environment may do."""
    tag = ''
    mb, mc, ret = 2, 1, Const(0)
    mutate = None
    prop = None
    harness = BHarness
    call_failure = FAIL

    def __init__(self, program, out):
        self.out = out
        h = self.harness(self.prop, self.mb, self.mc)
        self.h = h
        h.scenario = self
        self.I = Interp(program, h, budget=60_000_000)
        self.st = self.I.load('aiuti.asyncio', State())
        self.nodes = 0

    # -- set up
    def made(self):
        """[states with a batcher at rest]"""
        I, h = self.I, self.h
        cls = I.module_attr('aiuti.asyncio', 'AsyncBackgroundBatcher',
                            self.st)
        st = self.st.with_m('clk', Const(0)).with_m('mb', Const(self.mb))
        mb0, bt0 = self.mutate or (self.mb, BT)
        kw = [('max_batch_size', Const(mb0)),
              ('max_concurrent_batches', Const(self.mc)),
              ('batch_timeout', bt0), ('retention_timeout', self.ret)]
        out = []
        n = Root(-2, 'AsyncBackgroundBatcher')
        for b, x in I.call(cls, [FUNC], kw, st, n, None):
            if isinstance(b, Raised):
                h.rule('raises', f'making a batcher raises {b.exc.cls}', x)
                continue
            x = x.with_m('batcher', b)
            for y in h.drain(x):
                if self.mutate:
                    o = y.obj(b)
                    if 'max_batch_size' not in o.at:
                        raise Broken('the limits are not attributes')
                    y = y.upd(b, max_batch_size=Const(self.mb),
                              batch_timeout=BT)
                out.append(y)
        return out

    # -- events: undrained states
    def call(self, cid, key, arg, st):
        """A new caller."""
        I, h = self.I, self.h
        b = st.m('batcher')
        n = Root(-20 - cid, f'caller {cid}')
        h.count('calls')
        out = []
        given = [('key', key)] if key is not None else []
        full = key
        if key is None:
            (full, st), = I.call(Ext('str'), [arg], [], st, n, None)
        rs = reqs(st)
        open_ = [r for r in rs if r.key == full and (
            r.status in ('new', 'handed') or self.retained(r, st))]
        if open_:
            rid = open_[-1].id
            h.count('joined calls')
        else:
            if any(r.key == full for r in rs):
                h.count('later calls')
            rid = len(rs)
            rs.append(Req(rid, full, arg, st.m('clk'), 'new', NONE, NONE))
            lb = st.m('lastbatch')
            if lb is not None and lb.items[0] == FALSE and \
                    h.known_before(st.m('clk'), h.add(
                        lb.items[1], BT, st), st):
                h.rule('share', 'a batch was handed over although it was '
                       'not full and batch_timeout had not passed', st)
        st = with_reqs(st, rs)
        for c, x in I.call(b, [arg], given, st, n, None):
            if isinstance(c, Raised):
                h.rule('raises', f'calling it raises {c.exc.cls}', x)
                continue
            import models
            t, x = I.alloc(x, 'fut', n, None, 'task', coro=c, task=True,
                           outcome=None)
            x = h.on_task(t, x, n, None)
            out.append(x.with_m('calls', x.m('calls', ()) + (Tup((
                t, Const(cid), Const(rid), FALSE)),)).note(
                    n, f'caller {cid}'))
        return out

    def retained(self, r, st):
        if self.ret == Const(0) or r.status != 'done':
            return False
        return self.h.known_before(st.m('clk'), self.h.add(
            r.done, self.ret, st), st)

    def cancel(self, cid, st):
        cs = st.m('calls')
        for i, c in enumerate(cs):
            if c.items[1] == Const(cid) and c.items[0] != TRUE and \
                    c.items[3] == FALSE:
                if st.obj(c.items[0]).get('wait') is None:
                    return []      # has not called yet
                self.h.count('cancelled callers')
                st = st.with_m('calls', cs[:i] + (Tup(
                    c.items[:3] + (TRUE,)),) + cs[i + 1:])
                return [self.h.cancel(c.items[0], st.note(
                    Root(-3, ''), f'caller {cid} is cancelled'))]
        return []

    def meanwhile(self, st):
        return []

    def advance(self, dt, st):
        if st.m('soon'):
            return []      # no time passes while something is ready
        return self.h.advance(dt, st.note(Root(-4, ''), 'time passes'))

    def asked(self, st):
        return [b for b in st.m('ubatches', ())
                if st.obj(b).get('state') == 'asked']

    def feed(self, b, v, st):
        o = st.obj(b)
        return self.h.soon(st.upd(b, state='busy'), 'wake', o.get('asker'),
                           o.get('wid'), v)

    def give(self, b, key, oc, st):
        """The batch function yields for a key."""
        o = st.obj(b)
        i = [p.items[0] for p in o.get('pairs')].index(key)
        rid = o.get('ids')[i]
        rs = reqs(st)
        res = oc
        for r in rs:
            if r.id == rid:
                if oc == 'value':
                    res = r.outcome = value_of(rid)
                elif oc == 'none':
                    res = r.outcome = NONE
                elif oc == 'stop':
                    # can't be raised from a coroutine as it is
                    res = ExcV('StopIteration', True, ('result', rid), ())
                    r.outcome = Const('error')
                else:
                    res = exc_of(rid)
                    r.outcome = Raised(res)
                r.status, r.done = 'done', st.m('clk')
        if not isinstance(res, Val):
            return []
        st = with_reqs(st, rs).upd(b, left=tuple(
            k for k in o.get('left') if k != key))
        return [self.feed(b, Tup((Tup((key, res)),)), st.note(
            Root(-5, ''), f'the batch function yields {oc} for '
            f'{show(key)}'))]

    def stop(self, b, how, st):
        st = st.note(Root(-5, ''), {
            'end': 'the batch function ends', 'raise': 'the batch function '
            'raises', 'cancel': 'the batch function raises CancelledError',
        }[how])
        if how == 'end':
            v, oc = END, Const('error')
            if st.obj(b).get('left'):
                self.h.count('missing')
        else:
            v = oc = Raised(FAIL if how == 'raise' else CANC)
        st = self.feed(b, v, st)
        return [self.h.batch_over(b, oc, st).upd(b, state='over')]

    def finish_batches(self, st):
        """All batches give what is left and end: [states at rest]"""
        todo, out, n = [st], [], 0
        while todo:
            x = todo.pop()
            n += 1
            if n > 200:
                raise Broken('batches do not come to an end')
            bs = self.asked(x)
            if not bs:
                out.append(x)
                continue
            b = bs[0]
            left = x.obj(b).get('left')
            ys = self.give(b, left[0], 'value', x) if left else self.stop(
                b, 'end', x)
            for y in ys:
                todo.extend(self.h.drain(y))
        return out

    def settle(self, st):
        """Time passes until everything is answered: [states]"""
        cur = [st]
        for _ in range(4):
            nxt = []
            for x in cur:
                for w in self.h.drain(self.make_room(x)):
                    for y in self.advance(h_add(self.h, BT, GAP, w), w):
                        for z in self.h.drain(y):
                            nxt.extend(self.finish_batches(z))
            cur = [y for _, y in self.I.dedupe([(None, y) for y in nxt])]
            if all(not self.open_calls(x) and not self.asked(x)
                   for x in cur):
                break
        return cur

    def make_room(self, x):
        for w in x.m('room', ()):
            x = x.with_m('soon', x.m('soon', ()) + (w,))
        return x.with_m('room', ())

    def open_calls(self, st, live=True):
        return [c for c in st.m('calls', ()) if c.items[0] != TRUE
                and c.items[3] == FALSE]

    def check_rest(self, st):
        """Rules at rest."""
        h = self.h
        if h.prop != 'C10' or len(st.m('running', ())) >= h.mc:
            return
        fresh = [r for r in reqs(st) if r.status == 'new']
        if not fresh:
            return
        mb = st.m('mb').v
        group = [fresh[0]]
        for r in fresh[1:]:
            if len(group) < mb and h.known_before(r.arrival, h.add(
                    group[-1].arrival, BT, st), st):
                group.append(r)
            else:
                break
        if h.known_not_after(h.add(group[-1].arrival, BT, st),
                             st.m('clk'), st):
            h.rule('late', 'a call is still queued batch_timeout after the '
                   'last arrival although there is a free slot', st)

    def dead(self, st):
        """Did a task of the batcher end which should not?"""
        return False

    def final(self, st):
        h = self.h
        done = self.settle(st)
        for x in done:
            stuck = self.open_calls(x)
            if stuck:
                c = stuck[0].items
                r = next(r for r in reqs(x) if r.id == c[2].v)
                h.rule('hang', f'caller {c[1].v} is never answered' + (
                    '' if r.status != 'new' else ', its request is never '
                    'handed to the batch function'), x)
                continue
            self.after(x)

    def after(self, st):
        """Later calls work."""
        h = self.h
        st = st.with_m('lastbatch', None)
        for k in range(2):
            cid = 90 + k
            nxt = []
            for x in [st] if k == 0 else cur:
                for y in self.advance(h_add(h, self.ret, GAP, x), x):
                    for z in h.drain(y):
                        key = key_of('later') if k else self.later_key(z)
                        for w in self.call(cid, key, arg_of(cid), z):
                            for v in h.drain(w):
                                nxt.extend(self.settle(v))
            cur = nxt
            for x in cur:
                if self.open_calls(x):
                    h.rule('serve', 'a later call is never answered', x)
            cur = [x for x in cur if not self.open_calls(x)]

    def later_key(self, st):
        return key_of(1)

    # -- exploration
    def events(self, st):
        """[(undrained state, final?)]"""
        raise NotImplementedError

    def run(self):
        I, h = self.I, self.h
        todo = [(x, True) for x in self.made()]
        seen = set()
        while todo:
            st, rest = todo.pop()
            k = st.key()
            if k in seen:
                continue
            seen.add(k)
            self.nodes += 1
            if self.nodes > 60000:
                raise Broken('too many histories')
            if rest:
                self.check_rest(st)
            evs = self.events(st)
            if rest and self.is_leaf(st, evs):
                self.final(st)
            for x in evs:
                if self.may_burst(x):
                    todo.append((x.with_m('burst', x.m('burst', 0) + 1),
                                 False))
                for y in h.drain(x):
                    todo.append((y, True))
        self.merge()

    def is_leaf(self, st, evs):
        return not evs

    def may_burst(self, st):
        return False

    def merge(self):
        fs, stats, info = self.out
        for k, v in self.I.findings.items():
            fs.setdefault(k, v)
        for k, v in self.h.stats.items():
            stats[k] = stats.get(k, 0) + v
        stats['histories'] = stats.get('histories', 0) + self.nodes
        info['functions'] |= self.I.functions
        info['opaque'].update(self.I.opaque)
        info['variants'] += 1
        info['nodes'] = max(info['nodes'], len(self.I.nodes))
        info['steps'] += self.I.steps


def h_add(h, a, b, st):
    return h.add(a, b, st)


# -- C04 -------------------------------------------------------------------

class Answers(Scenario):
    """All the batch function may do with a batch."""
    prop = 'C04'
    n = 2
    kinds = ('value', 'exc')

    class harness(BHarness):
        def calls_may_fail(self, st):
            return not st.m('calm')

    def events(self, st):
        k = st.m('phase', 0)
        out = []
        if k < self.n:
            st = st.with_m('phase', k + 1)
            key = self.keys()[k]
            xs = self.call(k, key, arg_of(k), st)
            return xs
        if k == self.n:
            return self.advance(h_add(self.h, BT, GAP, st), st.with_m(
                'phase', k + 1))
        for b in self.asked(st):
            o = st.obj(b)
            left = o.get('left')
            for key in left:
                for oc in self.kinds:
                    out.extend(self.give(b, key, oc, st))
            for how in ('end', 'raise', 'cancel'):
                out.extend(self.stop(b, how, st))
            if self.odd and not st.m('odd'):
                out.extend(self.weird(b, st.with_m('odd', True)))
        return out

    odd = False

    def weird(self, b, st):
        """An unknown key, or one which was yielded before."""
        o = st.obj(b)
        out = []
        known = [p.items[0] for p in o.get('pairs')]
        for key in [key_of('nobody')] + [k for k in known
                                         if k not in o.get('left')][:1]:
            rs = reqs(st)
            # from here on the others may get an error
            for r in rs:
                if r.id in o.get('ids') and r.status == 'handed':
                    r.status, r.outcome = 'done', Const('any')
                    r.done = st.m('clk')
            x = with_reqs(st, rs)
            out.append(self.feed(b, Tup((Tup((key, Sym(
                ('result', 'odd'), 'plain'))),)), x.note(
                    Root(-5, ''), 'the batch function yields a key which is '
                    'not expected')))
        return out

    def give(self, b, key, oc, st):
        if st.m('odd'):
            return []
        return super().give(b, key, oc, st)

    def finish_batches(self, st):
        return super().finish_batches(st.with_m('odd', None))

    def keys(self):
        return [key_of(1), None, key_of(3)]

    def final(self, st):
        super().final(st.with_m('calm', True))


class Values(Answers):
    """Falsy results, more items, overlapping batches."""
    n = 3
    kinds = ('none',)
    mc = 2


class Stops(Answers):
    """Exceptions no future takes."""
    n = 2
    kinds = ('value', 'stop')
    call_failure = ExcV('StopIteration', True, 'batch call', ())


class Burst(Answers):
    """Callers which arrive together, in batches which are not full."""
    n = 3
    mb = 4
    kinds = ('value',)

    def may_burst(self, st):
        return st.m('burst', 0) < self.n and not st.m('ubatches')


class Odd(Answers):
    n = 2
    kinds = ('value',)
    odd = True


# -- C09 -------------------------------------------------------------------

class Cancels(Scenario):
    """Callers are cancelled at any time."""
    prop = 'C09'
    who = ((0, 1), (1, 1), (2, 2))      # caller, key
    cancels = 2
    order = ('value', 'exc')

    def events(self, st):
        out = []
        done = st.m('phase', 0)
        n = len(self.who)
        if st.m('cut', 0) < self.cancels:
            for i, _ in self.who[:done]:
                out.extend(self.cancel(i, st.with_m('cut', st.m(
                    'cut', 0) + 1)))
        if done < n:
            i, k = self.who[done]
            out.extend(self.call(i, key_of(k), arg_of(i), st.with_m(
                'phase', done + 1)))
            return out
        if done == n:
            out.extend(self.advance(h_add(self.h, BT, GAP, st), st.with_m(
                'phase', n + 1)))
        else:
            for b in self.asked(st):
                left = st.obj(b).get('left')
                if left:
                    i = len(st.obj(b).get('pairs')) - len(left)
                    out.extend(self.give(b, left[0], self.order[
                        i % len(self.order)], st))
                else:
                    out.extend(self.stop(b, 'end', st))
        return out

    def meanwhile(self, st):
        """Callers which are about to go on are cancelled just then."""
        if st.m('cut', 0) >= self.cancels:
            return []
        soon = {w.args[0] for w in st.m('soon')
                if w.op in ('wake', 'hop')}
        out = []
        for c in self.open_calls(st):
            if c.items[0] in soon:
                out.extend(self.cancel(c.items[1].v, st.with_m(
                    'cut', st.m('cut', 0) + 1)))
        return out

    def final(self, st):
        super().final(st.with_m('cut', 99))

    def is_leaf(self, st, evs):
        return st.m('phase', 0) > len(self.who) and not self.asked(st)

    def may_burst(self, st):
        return not st.m('burst') and st.m('cut', 0) < self.cancels


class CancelsKept(Cancels):
    ret = R
    cancels = 1


class CancelsSmall(Cancels):
    mb = 1
    who = ((0, 1), (1, 1), (2, 2))
    cancels = 1


class CancelsWide(Cancels):
    mb = 4
    cancels = 1


class CancelsShared(Cancels):
    """Everybody asks for the same key."""
    who = ((0, 1), (1, 1), (2, 1))
    cancels = 1


# -- C10 -------------------------------------------------------------------

class Gather(Scenario):
    """Arrivals, time, and batches ending in any order."""
    prop = 'C10'
    n = 3
    spans = 3
    mb, mc = 2, 1

    def events(self, st):
        out = []
        k = st.m('phase', 0)
        went = st.m('went')
        st = st.with_m('went', False)
        if k < self.n:
            out.extend(self.call(k, key_of(k), arg_of(k), st.with_m(
                'phase', k + 1)))
        if k and not went and st.m('spans', 0) < self.spans and any(
                r.status == 'new' for r in reqs(st)):
            y = st.with_m('spans', st.m('spans', 0) + 1).with_m('went', True)
            out.extend(self.advance(B1, y))
            out.extend(self.advance(h_add(self.h, BT, GAP, st), y))
        for b in self.asked(st)[:2]:
            out.extend(self.whole(b, st))
        return out

    def whole(self, b, st):
        """The batch is done without delay."""
        cur = [st]
        for key in st.obj(b).get('left'):
            cur = [z for x in cur for y in self.give(b, key, 'value', x)
                   for z in self.h.drain(y)]
        return [y for x in cur for y in self.stop(b, 'end', x)]

    def may_burst(self, st):
        return st.m('burst', 0) < self.n and not st.m('ubatches')

    def final(self, st):
        for x in self.settle(st):
            self.check_rest(x)


class GatherOne(Gather):
    mb, mc, n, spans = 1, 2, 3, 1


class GatherWide(Gather):
    mb, mc, n, spans = 3, 2, 3, 3


class GatherBurst(Gather):
    mb, mc, n, spans = 3, 1, 4, 2


class GatherMutated(Gather):
    mutate = (5, lin(Sym('old1', 'num+'), Sym('old2', 'num+')))
    n = 3
    spans = 2


# -- C11 -------------------------------------------------------------------

class Retained(Scenario):
    prop = 'C11'
    ret = R
    kinds = ('value', 'exc')

    def events(self, st):
        """A first call, one while it is pending, its answer, then calls
        within the window and after it."""
        k = st.m('phase', 0)
        h = self.h
        nx = st.with_m('phase', k + 1)
        a = lambda i, x, key=key_of(1): self.call(i, key, arg_of(i), x)
        if k == 0:
            return a(0, nx)
        if k == 1:
            # joins before or after the batch is made
            out = a(1, nx) + self.advance(
                h_add(h, BT, GAP, st), st.with_m('phase', 2))
            if not st.m('cut'):
                out += self.cancel(0, st.with_m('cut', True))
            return out
        if k == 2:
            if self.asked(st):
                return a(2, nx)
            return self.advance(h_add(h, BT, GAP, st), nx.with_m('phase', 2)
                                .with_m('late', True)) if not st.m(
                                    'late') else []
        if k == 3:
            out = []
            for b in self.asked(st):
                for oc in self.kinds:
                    for key in st.obj(b).get('left'):
                        out.extend(self.give(b, key, oc, nx))
                out.extend(self.stop(b, 'raise', nx))
                out.extend(self.stop(b, 'end', nx))
            return out
        if k == 4:
            return self.window(nx)
        return []

    def window(self, st):
        """The answer was given, its batch may still be going on."""
        h = self.h
        if self.ret == Const(0):
            self.forgotten(st)
            return self.call(4, key_of(1), arg_of(4), st)
        out = []
        for x in self.call(3, key_of(1), arg_of(3), st):
            for y in h.drain(x):
                if self.open_calls(y):
                    h.rule('once', 'a call right after the answer does not '
                           'get it', y)
                    continue
                # some time within the window
                for z in self.advance(R1, y):
                    for w in h.drain(z):
                        out.extend(self.again(w))
        return out

    def again(self, st):
        h = self.h
        out = []
        for x in self.call(5, key_of(1), arg_of(5), st):
            for y in h.drain(x):
                if self.open_calls(y):
                    h.rule('once', 'a call within retention_timeout of the '
                           'answer does not get it', y)
                    continue
                for z in self.advance(h_add(h, R2, GAP, y), y):
                    for w in h.drain(z):
                        out.extend(self.call(4, key_of(1), arg_of(4), w))
        return out

    def is_leaf(self, st, evs):
        return not evs and st.m('phase', 0) > 4

    def forgotten(self, st):
        """Nothing of the answer is left."""
        h, I = self.h, self.I
        if self.asked(st) or st.m('ubatches'):
            return
        b = st.m('batcher')
        todo, seen = [b], set()
        old = [r for r in reqs(st) if r.status == 'done']
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            for r in old:
                oc = r.outcome
                if a in (value_of(r.id), r.key):
                    h.rule('forget', f'{show(a)} is still referenced', st)
                    return
            if isinstance(a, Ref) and st.has(a):
                o = st.obj(a)
                if o.kind in ('class', 'frame', 'ubatch') or o.get('task'):
                    continue
                todo.extend(o.atoms())


class RetainedAtOnce(Retained):
    """Batches are full with the first call."""
    mb = 1


class Forgotten(Retained):
    ret = Const(0)


class ForgottenAtOnce(Forgotten):
    mb = 1


class RetainedTwo(Retained):
    """Two keys which are answered at different times."""

    def events(self, st):
        k = st.m('phase', 0)
        h = self.h
        nx = st.with_m('phase', k + 1)
        if k in (0, 5):
            i = int(k == 5)
            return self.call(i, key_of(i + 1), arg_of(i), nx)
        if k in (1, 6):
            return [y for x in self.advance(h_add(h, BT, GAP, st), nx)
                    for y in h.drain(x)] if not self.asked(st) else [nx]
        if k in (2, 7):
            return [y for b in self.asked(st) for oc in self.kinds
                    for key in st.obj(b).get('left')
                    for y in self.give(b, key, oc, nx)]
        if k in (3, 8):
            return [y for b in self.asked(st)
                    for y in self.stop(b, 'end', nx)]
        if k == 4:
            return self.advance(R2, nx)
        if k == 9:
            return self.advance(R1, nx)
        if k == 10:
            # the first one was to be forgotten meanwhile, not this one
            out = []
            for x in self.call(2, key_of(2), arg_of(2), nx):
                for y in h.drain(x):
                    if self.open_calls(y):
                        h.rule('once', 'a call within retention_timeout of '
                               'the answer does not get it', y)
                        continue
                    out.extend(self.call(3, key_of(1), arg_of(3), y))
            return out
        return []

    def is_leaf(self, st, evs):
        return not evs and st.m('phase', 0) > 10


SCENARIOS = {
    'C04': (Answers, Values, Odd, Stops, Burst),
    'C09': (Cancels, CancelsKept, CancelsSmall, CancelsShared, CancelsWide),
    'C10': (GatherOne, Gather, GatherWide, GatherMutated, GatherBurst),
    'C11': (Retained, Forgotten, RetainedTwo, RetainedAtOnce,
            ForgottenAtOnce),
}


def analyse(program, prop=None):
    def job(c):
        return lambda out: c(program, out).run()
    jobs = []
    for p, cs in SCENARIOS.items():
        if prop in (None, p):
            jobs += [job(c) for c in cs]
    return analyse_all(jobs, until(prop, RULES))
