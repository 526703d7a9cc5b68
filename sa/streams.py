"""Iterators as heap objects which can be advanced step by step.

Used where the order in which several consumers advance shared iterators
matters (harness.machine). Every lazy object of the standard library is a
heap object with its own position; generators are resumed by following their
body again from where they were entered, with the recorded states substituted
at the yields already passed.
"""
from values import *
from source import Broken
from engine import Fr, abrupt
import ast
import models

LIMIT = 64       # steps a single next() may take


class At:
    """Call site of a resumed generator."""
    lineno = 0
    _file = '<caller>'
    _qual = 'next'

    def __init__(self, uid):
        self._uid = uid


class Streams:
    """State of the machinery, one per interpreter."""

    def __init__(self):
        self.tokens = {}
        self.states = []

    def intern(self, v, st):
        k = (v, st.key())
        i = self.tokens.get(k)
        if i is None:
            i = self.tokens[k] = len(self.states)
            self.states.append((v, st))
        return i


def lazy(I, op, args, st, n, f, **kw):
    return I.alloc(st, 'lazy', n, f, op, op=op, args=Tup(tuple(args)), **kw)


def iters(I, vs, st, n, f, k):
    """k([iterators], st) for the iterables vs."""
    def go(i, done, x):
        if i == len(vs):
            return k(done, x)
        return I.bind(iter_of(I, vs[i], x, n, f),
                      lambda v, y: held(I, v, lambda: go(i + 1, done + [v],
                                                         y)))
    return go(0, [], st)


def held(I, v, run):
    I.temps.append(v)
    try:
        return run()
    finally:
        I.temps.pop()


def iter_of(I, v, st, n, f):
    r = I.h.iter_of(v, st, n, f)
    if r is not None:
        return r
    if isinstance(v, Ref) and st.has(v):
        o = st.obj(v)
        if o.kind in ('lazy', 'iterator'):
            return [(v, st)]
        if o.kind in ('set', 'dict'):
            return I.bind(I.to_list(v, st, n, f, 'iter'),
                          lambda r, x: iter_of(I, r, x, n, f))
        if o.kind == 'inst':
            if I.class_lookup(o.get('$class'), '__iter__', st) is None:
                return [(I.exc('TypeError', n), st)]
            return I.call_method(v, '__iter__', [], [], st, n, f)
        if o.kind not in ('list', 'deque'):
            return [(I.exc('TypeError', n), st)]
    if isinstance(v, Const) and not isinstance(v.v, (str, bytes, tuple)):
        return [(I.exc('TypeError', n), st)]
    if I.items_of(v, st) is not None:
        r, st = I.alloc(st, 'iterator', n, f, src=v, pos=0)
        return [(r, st)]
    if isinstance(v, Term) and v.op in models.ITER and v.op in (
            'items', 'keys', 'values', 'dictitems', 'dictkeys', 'dictvalues'):
        return I.bind(I.to_list(v, st, n, f, 'iter'),
                      lambda r, x: iter_of(I, r, x, n, f))
    if isinstance(v, (Func, Bound, Partial, ExcV)):
        return [(I.exc('TypeError', n), st)]
    raise Broken(f'iter({v!r}) is not understood')


def inext(I, it, st, n, f):
    """[('elem' | 'end' | 'exc', value, state)]"""
    r = I.h.inext(it, st, n, f)
    if r is not None:
        return r
    if isinstance(it, Ref) and st.has(it):
        o = st.obj(it)
        if o.kind == 'iterator':
            items = I.items_of(o.get('src'), st)
            if items is None:
                raise Broken('iterator over something unknown')
            p = o.get('pos')
            if o.get('done') or p >= len(items):
                return [('end', None, st.upd(it, done=True))]
            v = items[p]
            if isinstance(v, Star):
                raise Broken('too many elements to tell apart')
            return [('elem', v, st.upd(it, pos=p + 1))]
        if o.kind == 'lazy':
            return NEXT[o.get('op')](I, it, o, st, n, f)
        if o.kind == 'inst':
            if I.class_lookup(o.get('$class'), '__next__', st) is None:
                return [('exc', I.exc('TypeError', n).exc, st)]
            return called(I, lambda: I.call_method(it, '__next__', [], [], st,
                                                   n, f))
    return [('exc', I.exc('TypeError', n).exc, st)]


def called(I, run):
    out = []
    for v, x in run():
        if isinstance(v, Raised):
            if v.exc.cls == 'StopIteration':
                out.append(('end', None, x))
            else:
                out.append(('exc', v.exc, x))
        else:
            out.append(('elem', v, x))
    return out


def then(I, it, st, n, f, k):
    """k(elem, state) for the next element of it; end and exc are passed
    on."""
    out = []
    for c, v, x in inext(I, it, st, n, f):
        if c == 'elem':
            out.extend(held(I, v, lambda: k(v, x)))
        else:
            out.append((c, v, x))
    return out


def vals(I, pairs, k):
    out = []
    for v, x in pairs:
        if isinstance(v, Raised):
            if v.exc.cls == 'StopIteration':
                out.append(('end', None, x))
            else:
                out.append(('exc', v.exc, x))
        else:
            out.extend(k(v, x))
    return out


def each_inext(I, it, st, node, fr, body, is_async):
    if is_async:
        return [(('exc', I.exc('TypeError', node).exc), st)]

    def step(x):
        res = []
        for c, v, y in inext(I, it, x, node, fr):
            if c == 'end':
                res.append((('next',), y))
            elif c == 'exc':
                res.append((('exc', v), y))
            else:
                for o, z in body(v, y):
                    res.append(('again' if o[0] == 'next' else o, z))
        return res
    return held(I, it, lambda: I.loop(st, step, node))


models.ITER_KIND['lazy'] = each_inext

NEXT = {}


def nx(*ops):
    def d(fn):
        for o in ops:
            NEXT[o] = fn
        return fn
    return d


def repeat(I, it, st, n, f, step):
    """Follow step(state) -> [('again' | ...)] until it delivers."""
    out, todo, k = [], [st], 0
    while todo:
        x = todo.pop()
        k += 1
        if k > 4096:
            raise Broken('a step of an iterator takes forever')
        for c, v, y in step(x):
            if c == 'again':
                todo.append(y)
            else:
                out.append((c, v, y))
    return out


@nx('map')
def _(I, it, o, st, n, f):
    fn, *its = o.get('args').items

    def go(i, es, x):
        if i == len(its):
            return vals(I, I.call(fn, es, [], x, n, f),
                        lambda v, y: [('elem', v, y)])
        return then(I, its[i], x, n, f, lambda e, y: go(i + 1, es + [e], y))
    return go(0, [], st)


@nx('starmap')
def _(I, it, o, st, n, f):
    fn, src = o.get('args').items
    return then(I, src, st, n, f, lambda e, x: vals(
        I, I.call(fn, [Star(e)], [], x, n, f),
        lambda v, y: [('elem', v, y)]))


@nx('filter', 'filterfalse')
def _(I, it, o, st, n, f):
    fn, src = o.get('args').items
    want = o.get('op') == 'filter'

    def step(x):
        return then(I, src, x, n, f, test)

    def test(e, x):
        def dec(v, y):
            return [('elem' if c == want else 'again', e, z)
                    for c, z in I.truth(v, y, n, f)]
        if fn == NONE:
            return dec(e, x)
        return vals(I, I.call(fn, [e], [], x, n, f), dec)
    return repeat(I, it, st, n, f, step)


@nx('compress')
def _(I, it, o, st, n, f):
    d, s = o.get('args').items

    def step(x):
        return then(I, d, x, n, f, lambda e, y: then(
            I, s, y, n, f, lambda c, z: [
                ('elem' if b else 'again', e, w)
                for b, w in I.truth(c, z, n, f)]))
    return repeat(I, it, st, n, f, step)


@nx('zip')
def _(I, it, o, st, n, f):
    its = o.get('args').items
    if not its:
        return [('end', None, st)]

    def go(i, es, x):
        if i == len(its):
            return [('elem', Tup(tuple(es)), x)]
        out = []
        for c, v, y in inext(I, its[i], x, n, f):
            if c == 'elem':
                out.extend(held(I, v, lambda: go(i + 1, es + [v], y)))
            elif c == 'end' and o.get('strict') and (i or len(its) > 1):
                if i:
                    out.append(('exc', I.exc('ValueError', n).exc, y))
                    continue
                # the others must have ended as well
                pend = [y]
                for j in its[1:]:
                    nxt = []
                    for p in pend:
                        for c2, v2, q in inext(I, j, p, n, f):
                            if c2 == 'end':
                                nxt.append(q)
                            else:
                                out.append(('exc', v2 if c2 == 'exc' else
                                            I.exc('ValueError', n).exc, q))
                    pend = nxt
                out.extend(('end', None, p) for p in pend)
            else:
                out.append((c, v, y))
        return out
    return go(0, [], st)


@nx('zip_longest')
def _(I, it, o, st, n, f):
    its = o.get('args').items
    fill = o.get('fill', NONE)

    def go(i, es, live, x):
        if i == len(its):
            if not any(live):
                return [('end', None, x)]
            return [('elem', Tup(tuple(es)), x)]
        out = []
        for c, v, y in inext(I, its[i], x, n, f):
            if c == 'exc':
                out.append((c, v, y))
            elif c == 'end':
                out.extend(go(i + 1, es + [fill], live + [False], y))
            else:
                out.extend(held(I, v, lambda: go(i + 1, es + [v],
                                                 live + [True], y)))
        return out
    return go(0, [], [], st)


@nx('enumerate')
def _(I, it, o, st, n, f):
    src, start = o.get('args').items
    i = o.get('n', 0)

    def k(e, x):
        c = I.binop('Add', start, Const(i), x, n, f)[0][0]
        return [('elem', Tup((c, e)), x.upd(it, n=i + 1))]
    return then(I, src, st, n, f, k)


@nx('islice')
def _(I, it, o, st, n, f):
    src, a, b, c = o.get('args').items
    if not all(isinstance(x, Const) for x in (a, b, c)):
        raise Broken('islice() bounds are not understood')
    a, b, c = a.v or 0, b.v, 1 if c.v is None else c.v

    def step(x):
        i, nxt = x.obj(it).get('n', 0), x.obj(it).get('nxt', a)
        if b is not None and nxt >= b and i >= b:
            return [('end', None, x)]
        if b is not None and nxt >= b:
            return then(I, src, x, n, f, lambda e, y: [
                ('again', None, y.upd(it, n=i + 1))])
        return then(I, src, x, n, f, lambda e, y: [
            ('elem', e, y.upd(it, n=i + 1, nxt=nxt + c)) if i == nxt else
            ('again', None, y.upd(it, n=i + 1))])
    return repeat(I, it, st, n, f, step)


@nx('chain')
def _(I, it, o, st, n, f):
    """args are iterables, opened when their turn comes"""
    def step(x):
        ob = x.obj(it)
        i, cur = ob.get('n', 0), ob.get('cur')
        its = ob.get('args').items
        if cur is None:
            if i >= len(its):
                return [('end', None, x)]
            return vals(I, iter_of(I, its[i], x, n, f), lambda v, y: [
                ('again', None, y.upd(it, n=i + 1, cur=v))])
        return [(c, v, y) if c != 'end' else
                ('again', None, y.upd(it, cur=None))
                for c, v, y in inext(I, cur, x, n, f)]
    return repeat(I, it, st, n, f, step)


@nx('chainiter')
def _(I, it, o, st, n, f):
    def step(x):
        ob = x.obj(it)
        cur = ob.get('cur')
        if cur is None:
            return then(I, ob.get('args').items[0], x, n, f, lambda e, y: vals(
                I, iter_of(I, e, y, n, f), lambda v, z: [
                    ('again', None, z.upd(it, cur=v))]))
        return [(c, v, y) if c != 'end' else
                ('again', None, y.upd(it, cur=None))
                for c, v, y in inext(I, cur, x, n, f)]
    return repeat(I, it, st, n, f, step)


@nx('takewhile')
def _(I, it, o, st, n, f):
    fn, src = o.get('args').items
    if o.get('done'):
        return [('end', None, st)]
    return then(I, src, st, n, f, lambda e, x: vals(
        I, I.call(fn, [e], [], x, n, f), lambda v, y: [
            ('elem', e, z) if b else ('end', None, z.upd(it, done=True))
            for b, z in I.truth(v, y, n, f)]))


@nx('dropwhile')
def _(I, it, o, st, n, f):
    fn, src = o.get('args').items

    def step(x):
        if x.obj(it).get('started'):
            return inext(I, src, x, n, f)
        return then(I, src, x, n, f, lambda e, y: vals(
            I, I.call(fn, [e], [], y, n, f), lambda v, z: [
                ('again', None, w) if b else
                ('elem', e, w.upd(it, started=True))
                for b, w in I.truth(v, z, n, f)]))
    return repeat(I, it, st, n, f, step)


@nx('repeat')
def _(I, it, o, st, n, f):
    a = o.get('args').items
    if len(a) > 1:
        if not isinstance(a[1], Const):
            raise Broken('repeat() bound is not understood')
        i = o.get('n', 0)
        if i >= a[1].v:
            return [('end', None, st)]
        return [('elem', a[0], st.upd(it, n=i + 1))]
    return [('elem', a[0], st)]


@nx('cycle')
def _(I, it, o, st, n, f):
    out = []
    seen, p = o.get('seen', ()), o.get('pos', None)
    if p is None:
        for c, v, x in inext(I, o.get('args').items[0], st, n, f):
            if c == 'elem':
                out.append((c, v, x.upd(it, seen=seen + (v,))))
            elif c == 'end' and seen:
                out.append(('elem', seen[0], x.upd(it, pos=1)))
            else:
                out.append((c, v, x))
        return out
    i = p % len(seen)
    return [('elem', seen[i], st.upd(it, pos=i + 1))]


@nx('count')
def _(I, it, o, st, n, f):
    a = o.get('args').items
    start, step = (a + (Const(0), Const(1)))[:2] if not a else (
        a + (Const(1),))[:2]
    i = o.get('n', 0)
    if not isinstance(step, Const):
        raise Broken('count() step is not understood')
    v = I.binop('Add', start, Const(i * step.v), st, n, f)[0][0]
    if i > LIMIT:
        raise Broken('count() is used without bound')
    return [('elem', v, st.upd(it, n=i + 1))]


@nx('callsentinel')
def _(I, it, o, st, n, f):
    fn, sent = o.get('args').items
    if o.get('done'):
        return [('end', None, st)]
    return vals(I, I.call(fn, [], [], st, n, f), lambda v, x: [
        ('end', None, y.upd(it, done=True)) if eq else ('elem', v, y)
        for eq, y in I.equal(v, sent, x, n, f)])


@nx('tee')
def _(I, it, o, st, n, f):
    buf = o.get('args').items[0]
    p = o.get('pos', 0)
    items = st.obj(buf).get('items')
    if p < len(items):
        return [('elem', items[p], st.upd(it, pos=p + 1))]
    return then(I, st.obj(buf).get('src'), st, n, f, lambda e, x: [
        ('elem', e, x.upd(buf, items=x.obj(buf).get('items') + (e,)).upd(
            it, pos=p + 1))])


@nx('gen')
def _(I, it, o, st, n, f):
    if o.get('done'):
        return [('end', None, st)]
    if o.get('running'):
        return [('exc', I.exc('ValueError', n).exc, st)]
    S = I.streams
    hist = o.get('hist', ())
    roots = Tup(tuple(Ref(r.oid) for r in I.stack) + tuple(I.temps) + (it,))
    k = len(hist) // 2
    YI, OUTER = ('yi', it.oid), ('outer', it.oid)
    entry = st.upd(it, running=True).with_m(OUTER, roots).with_m(YI, k)
    points = [S.states[t] for t in hist]
    resumes = [p[1] for p in points[0::2]] + [entry]
    wants = hist[1::2]
    found = []
    fn, bound = o.get('fn'), dict(o.get('bound'))
    site = At(('gen', it.oid))
    saved = I.stack, I.temps
    I.stack, I.temps = [], []
    blocks = getattr(I.h, 'blocks', 0)

    def leave(x):
        m = dict(x.mon)
        m.pop(YI, None)
        m.pop(OUTER, None)
        return State(x.heap, x.facts, m, x.trace)

    def on_yield(v, x, ynode):
        i = x.m(YI)
        if i < k:
            if S.intern(v, x) != wants[i]:
                return []
            return [(NONE, resumes[i + 1])]
        keep = Tup(tuple(I.stack) + tuple(I.temps))
        h2 = hist + (S.intern(None, entry), S.intern(v, x))
        found.append(('elem', v, leave(x).upd(
            it, running=False, hist=h2, keep=keep)))
        return []
    try:
        start = resumes[0]
        if isinstance(fn.node, ast.GeneratorExp):
            fr = Fr(None, fn.node, ((site._uid, fn.node._uid),),
                    fn.node._mod)
            cfr, x = I.comp_frame(fn.node, start, fn.env, fr, site)
            cfr.func, cfr.up = cfr, None

            def body(v, y):
                return [(('next',), z) for _, z in on_yield(v, y, fn.node)]
            ends = I.pop_frame(cfr, I._comp(
                fn.node, fn.node.generators, 0, x, cfr,
                lambda y: I.outs(I.ev(fn.node.elt, y, cfr), body),
                first=bound['.0']))
            ends = I.to_val(ends)
        else:
            ends = I.run_body(fn, bound, start, site, None, on_yield)
    finally:
        I.stack, I.temps = saved
    out = found
    for v, x in ends:
        if x.m(YI) != k:
            continue
        x = leave(x).upd(it, running=False, done=True, hist=(), keep=NONE)
        if isinstance(v, Raised):
            e = v.exc
            if e.cls == 'StopIteration':
                e = I.exc('RuntimeError', n).exc
            out.append(('exc', e, x))
        else:
            out.append(('end', None, x))
    if not out and blocks == getattr(I.h, 'blocks', 0):
        raise Broken('a generator could not be resumed')
    return out


def make_gen(I, fn, items, st, node, fr):
    r, st = I.alloc(st, 'lazy', node, fr, 'gen', op='gen', fn=fn,
                    bound=items)
    return [(r, st)]


# -- construction -----------------------------------------------------------

def build(I, op, a, k, st, n, f):
    """A library call making an iterator: [(value, st)]"""
    d = dict(k)

    def mk(args, x, **kw):
        r, x = lazy(I, op, args, x, n, f, **kw)
        return [(r, x)]
    if any(isinstance(v, Star) for v in a):
        raise Broken(f'{op}(*args) is not understood')
    if op in ('map', 'starmap', 'filter', 'filterfalse', 'takewhile',
              'dropwhile'):
        return iters(I, a[1:], st, n, f, lambda its, x: mk([a[0]] + its, x))
    if op == 'zip':
        s = d.get('strict', FALSE)
        if not isinstance(s, Const):
            raise Broken('zip(strict) is not understood')
        return iters(I, a, st, n, f, lambda its, x: mk(
            its, x, **({'strict': True} if s.v else {})))
    if op == 'zip_longest':
        return iters(I, a, st, n, f, lambda its, x: mk(
            its, x, fill=d.get('fillvalue', NONE)))
    if op == 'compress':
        v = list(a) + [d[x] for x in ('data', 'selectors')[len(a):]]
        return iters(I, v, st, n, f, lambda its, x: mk(its, x))
    if op == 'enumerate':
        src = a[0] if a else d['iterable']
        start = a[1] if len(a) > 1 else d.get('start', Const(0))
        return iters(I, [src], st, n, f, lambda its, x: mk(
            its + [start], x))
    if op == 'islice':
        lims = list(a[1:])
        lims = {1: [NONE] + lims + [NONE], 2: lims + [NONE],
                3: lims}[len(lims)]
        return iters(I, a[:1], st, n, f, lambda its, x: mk(its + lims, x))
    if op in ('chainiter', 'cycle'):
        return iters(I, a[:1], st, n, f, lambda its, x: mk(its, x))
    if op == 'repeat' and 'times' in d:
        return mk(list(a) + [d['times']], st)
    return mk(a, st)


def tee(I, a, k, st, n, f):
    m = a[1] if len(a) > 1 else dict(k).get('n', Const(2))
    if not isinstance(m, Const):
        raise Broken('tee() count is not understood')

    def go(its, x):
        src = its[0]
        o = x.obj(src) if isinstance(src, Ref) and x.has(src) else None
        if o is not None and o.kind == 'lazy' and o.get('op') == 'tee':
            # copies share the buffer
            b, pos = o.get('args').items[0], o.get('pos', 0)
        else:
            b, x = I.alloc(x, 'teebuf', n, f, src=src, items=())
            pos = 0
        out = []
        I.temps.append(b)
        try:
            for i in range(m.v):
                r, x = I.alloc(x, 'lazy', n, f, 'tee', op='tee',
                               args=Tup((b,)), pos=pos)
                I.temps.append(r)
                out.append(r)
        finally:
            del I.temps[len(I.temps) - len(out) - 1:]
        return [(Tup(tuple(out)), x)]
    return iters(I, a[:1], st, n, f, go)


def next_call(I, a, st, n, f):
    out = []
    for c, v, x in inext(I, a[0], st, n, f):
        if c == 'elem':
            out.append((v, x))
        elif c == 'exc':
            out.append((Raised(v), x))
        elif len(a) > 1:
            out.append((a[1], x))
        else:
            out.append((I.exc('StopIteration', n), x))
    return out


def m_next(I, r, st, a, k, n, f):
    return next_call(I, [r], st, n, f)


def m_self(I, r, st, a, k, n, f):
    return [(r, st)]


def m_close(I, r, st, a, k, n, f):
    o = st.obj(r)
    if o.get('op') == 'gen' and o.get('hist') and not o.get('done'):
        raise Broken('close() of a started generator is not understood')
    return [(NONE, st.upd(r, done=True))]


for _k in ('lazy', 'iterator'):
    models.METHODS[(_k, '__next__')] = m_next
    models.METHODS[(_k, '__iter__')] = m_self
models.METHODS[('lazy', 'close')] = m_close


def m_send(I, r, st, a, k, n, f):
    if a[0] != NONE:
        raise Broken('send() is not understood')
    return next_call(I, [r], st, n, f)


models.METHODS[('lazy', 'send')] = m_send
