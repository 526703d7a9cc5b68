"""split and exhaust: C18.

split() is interpreted on sources of unknown elements and conditions of
unknown truth, and the two iterators it returns are advanced in every
possible order until both have ended. Every advance is checked against the
partition the statement prescribes.
"""
from values import *
from source import Broken
from engine import Interp
from harness import Harness

RULES = {
    'C18/partition': 'the first iterator yields exactly the elements whose '
                     'condition is truthy, the second exactly the others, '
                     'whatever order they are consumed in',
    'C18/order': 'both iterators yield in source order, each element once',
    'C18/once': 'the condition is evaluated exactly once per element and no '
                'element is taken from a source twice',
    'C18/lazy': 'nothing is consumed before it is asked for',
    'C18/iterator': 'split() returns two iterators and never raises for '
                    'proper arguments',
    'C18/exhaust': 'exhaust() consumes its argument to the end and returns '
                   'None',
}
NEED = {'C18': ('delivered', 'ends', 'evaluated', 'exhausted')}

COND = Sym('condition', 'userfunc')


class Root:
    lineno = 0
    _file = '<caller>'

    def __init__(self, uid, q):
        self._uid = uid
        self._qual = q


class ItHarness(Harness):
    machine = True
    max_items = 16
    not_none_kinds = Harness.not_none_kinds | {'condition'}

    def __init__(self):
        self.stats = {}

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def report(self, rule, msg, node, st):
        self.I.report(rule, msg, node, st)

    # -- sources -----------------------------------------------------------
    def iter_of(self, v, st, node, fr):
        if isinstance(v, Ref) and st.has(v):
            o = st.obj(v)
            if o.kind == 'srciter':
                return [(v, st)]
            if o.kind == 'source':
                r, st = self.I.alloc(st, 'srciter', node, fr, src=v, pos=0,
                                     name=o.get('name'), n=o.get('n'))
                return [(r, st)]
        if v == COND:
            return [(self.I.exc('TypeError', node), st)]
        if isinstance(v, Sym) and v.kind in ('element', 'condval'):
            raise Broken('an element is iterated')
        return None

    def for_each(self, it, st, node, fr, body, is_async):
        if isinstance(it, Ref) and st.has(it) and st.obj(it).kind in (
                'source', 'srciter', 'iterator'):
            if is_async:
                return [(('exc', self.I.exc('TypeError', node).exc), st)]
            return self.I.outs(
                self.iter_of(it, st, node, fr) or [(it, st)],
                lambda v, x: self.I.sm.each_inext(
                    self.I, v, x, node, fr, body, False))
        return None

    def inext(self, it, st, node, fr):
        if not (isinstance(it, Ref) and st.has(it)):
            return None
        o = st.obj(it)
        if o.kind == 'source':
            return [('exc', self.I.exc('TypeError', node).exc, st)]
        if o.kind != 'srciter':
            return None
        name, n, p = o.get('name'), o.get('n'), o.get('pos')
        if p >= n:
            k = ('ended', name)
            return [('end', None, st.with_m(k, 1))]
        pl = list(st.m(('pl', name)))
        pl[p] += 1
        if pl[p] > 1:
            self.report('C18/once', 'an element is taken from '
                        f'{"the condition" if name == "c" else "the iterable"}'
                        ' a second time', node, st)
            return []
        st = st.with_m(('pl', name), tuple(pl)).upd(it, pos=p + 1)
        return [('elem', elem(name, p), st.note(
            node, f'{"condition" if name == "c" else "element"} {p} '
            'is taken'))]

    # -- the condition -------------------------------------------------------
    def hook_call(self, f, args, kwargs, st, node, fr):
        if f != COND:
            return None
        if len(args) != 1 or kwargs or not isinstance(args[0], Sym) or \
                args[0].kind != 'element':
            self.report('C18/partition', 'the condition is called with '
                        'something else than one element', node, st)
            return []
        i = index(args[0])
        ev = list(st.m('ev'))
        ev[i] += 1
        self.count('evaluated')
        if ev[i] > 1:
            self.report('C18/once', 'the condition is evaluated a second '
                        'time for the same element', node, st)
            return []
        st = st.with_m('ev', tuple(ev)).note(node, f'condition evaluated for '
                                             f'element {i}')
        return [(elem('c', i), st)]

    def truth(self, v, st, node, fr):
        if isinstance(v, Sym) and v.kind == 'condval':
            i = index(v)
            t = st.m('t')
            if t[i] is not None:
                return [(t[i], st)]
            return [(b, st.with_m('t', t[:i] + (b,) + t[i + 1:]).note(
                node, f'condition {i} is {"truthy" if b else "falsy"}'))
                for b in (True, False)]
        return None

    def call_unknown(self, path, args, kwargs, st, node, fr):
        raise Broken(f'{path}() is not understood')

    def distinct(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.kind in (
                    'element', 'condval') and isinstance(y, Ref) and st.has(
                    y) and st.obj(y).kind in ('object', 'inst'):
                return True
        return False

    def equal(self, a, b, st):
        return False if self.distinct(a, b, st) else None

    def isinst(self, v, p, c, st):
        if v == COND:
            return p in ('typing.Callable', 'collections.abc.Callable',
                         'types.FunctionType')
        return None

    def get_attr(self, v, name, st, node, fr):
        if isinstance(v, Ref) and st.has(v) and st.obj(v).kind in (
                'source', 'srciter'):
            if name == '__iter__' or name == '__next__' and st.obj(
                    v).kind == 'srciter':
                return [(Bound(Const(name), v), st)]
            return [(self.I.exc('AttributeError', node), st)]
        if v == COND:
            if name == '__call__':
                return [(COND, st)]
            if name in ('__iter__', '__next__', '__len__', '__getitem__'):
                return [(self.I.exc('AttributeError', node), st)]
        return None

    def hook_method(self, recv, name, args, kwargs, st, node, fr):
        if isinstance(recv, Ref) and st.has(recv) and st.obj(recv).kind in (
                'source', 'srciter'):
            if name == '__iter__':
                return self.iter_of(recv, st, node, fr)
            if name == '__next__':
                return self.I.sm.next_call(self.I, [recv], st, node, fr)
            return [(self.I.exc('AttributeError', node), st)]
        return None


def elem(name, i):
    return Sym(f'{name}{i}', 'condval' if name == 'c' else 'element')


def index(v):
    return int(v.name[1:])


class Run:
    def __init__(self, program, out):
        self.p, self.out = program, out

    def start(self, what):
        h = ItHarness()
        I = Interp(self.p, h)
        st = I.load('aiuti.itertools', State())
        f = I.module_attr('aiuti.itertools', what, st)
        return h, I, st, f

    def source(self, I, st, name, flavour, n):
        """-> (argument, state)"""
        at = Root(-2 if name == 'x' else -3, 'split')
        st = st.with_m(('pl', name), (0,) * n)
        if flavour == 'list':
            return I.alloc(st, 'list', at, None, name, items=tuple(
                elem(name, i) for i in range(n)))
        if flavour == 'tuple':
            return Tup(tuple(elem(name, i) for i in range(n))), st
        if flavour == 'iterable':
            return I.alloc(st, 'source', at, None, name, name=name, n=n)
        if flavour == 'iterator':
            return I.alloc(st, 'srciter', at, None, name, name=name, n=n,
                           pos=0)
        if flavour == 'listiter':
            r, st = self.source(I, st, name, 'list', n)
            return I.alloc(st, 'iterator', at, None, name + 'it', src=r,
                           pos=0)
        raise AssertionError(flavour)

    def split(self, n, m, xf, cf):
        h, I, st, f = self.start('split')
        at = Root(-1, 'split')
        src, st = self.source(I, st, 'x', xf, n)
        if cf == 'callable':
            cond = COND
        else:
            cond, st = self.source(I, st, 'c', cf, m)
        st = st.with_m('ev', (0,) * n).with_m('t', (None,) * max(n, m, 1))
        st = st.with_m('keep', Tup((src, cond)))
        size = n if cf == 'callable' else min(n, m)
        for v, x in I.call(f, [src, cond], [], st, at, None):
            where = self.at(x, at)
            if isinstance(v, Raised):
                h.report('C18/iterator', f'split() raises {v.exc.cls}', where,
                         x)
                continue
            self.check_lazy(h, st, x, 0, where, 'split() itself')
            its = I.items_of(v, x)
            if its is None or len(its) != 2:
                h.report('C18/iterator', 'split() does not return a pair',
                         where, x)
                continue
            x = x.with_m('keep', Tup((src, cond) + tuple(its)))
            x = x.with_m('del', ((), ())).with_m('end', (0, 0))
            self.drive(h, I, its, I.gc(x), size)
        self.done(h, I)

    def drive(self, h, I, its, st, size):
        seen, todo = set(), [st]
        while todo:
            x = todo.pop()
            k = x.key()
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 4000:
                raise Broken('too many interleavings')
            for side in (0, 1):
                if x.m('end')[side] > 1:
                    continue
                todo.extend(I.gc(y) for y in self.step(
                    h, I, its[side], side, x, size))

    def step(self, h, I, it, side, st, size):
        at = Root(-4 - side, 'split')
        which = ('first', 'second')[side]
        out = []
        st = st.note(at, f'next() of the {which} iterator')
        for c, v, x in I.sm.inext(I, it, st, at, None):
            where = self.at(x, at)
            dl = st.m('del')
            if c == 'exc':
                h.report('C18/iterator', f'next() of the {which} iterator '
                         f'raises {v.cls}', where, x)
                continue
            if c == 'end':
                h.count('ends')
                for i in range(size):
                    if i in dl[side]:
                        continue
                    if x.m('t')[i] is not (side == 1):
                        h.report('C18/partition', f'the {which} iterator ends '
                                 f'without an element it has to yield',
                                 where, x)
                        break
                else:
                    e = list(x.m('end'))
                    e[side] += 1
                    out.append(x.with_m('end', tuple(e)))
                continue
            if not (isinstance(v, Sym) and v.kind == 'element'):
                h.report('C18/partition', f'the {which} iterator yields '
                         'something which is no element', where, x)
                continue
            h.count('delivered')
            i = index(v)
            if st.m('end')[side]:
                h.report('C18/partition', f'the {which} iterator goes on '
                         'after its end', where, x)
                continue
            if dl[side] and i <= dl[side][-1]:
                h.report('C18/order', f'the {which} iterator yields an '
                         'element again or out of order', where, x)
                continue
            if i >= size or x.m('t')[i] is not (side == 0):
                h.report('C18/partition', f'the {which} iterator yields an '
                         'element ' + (
                             'beyond the condition' if i >= size else
                             'whose condition was never tested'
                             if x.m('t')[i] is None else
                             f'whose condition is '
                             f'{"truthy" if side else "falsy"}'), where, x)
                continue
            skipped = [j for j in range(i) if j not in dl[side]
                       and x.m('t')[j] is not (side == 1)]
            if skipped:
                h.report('C18/partition', f'the {which} iterator skips an '
                         'element it has to yield', where, x)
                continue
            self.check_lazy(h, st, x, i + 1, where, 'a next()')
            d = list(dl)
            d[side] = dl[side] + (i,)
            out.append(x.with_m('del', tuple(d)))
        return out

    def check_lazy(self, h, before, st, need, where, what):
        """No more than need elements consumed, unless they were before."""
        for name, desc in (('x', 'elements of the iterable'),
                           ('c', 'conditions')):
            a = before.m(('pl', name)) or ()
            b = st.m(('pl', name)) or ()
            if any(b[need:][i] > a[need:][i] for i in range(len(b[need:]))):
                h.report('C18/lazy', f'{what} consumes {desc} nobody asked '
                         'for yet', where, st)
                return
        a, b = before.m('ev'), st.m('ev')
        if any(b[i] > a[i] for i in range(need, len(b))):
            h.report('C18/lazy', f'{what} evaluates conditions nobody asked '
                     'for yet', where, st)

    def exhaust(self, n, flavour):
        h, I, st, f = self.start('exhaust')
        at = Root(-1, 'exhaust')
        st = st.with_m('ev', (0,) * n).with_m('t', (None,) * n)
        mapped = flavour == 'mapped'
        src, st = self.source(I, st, 'x', 'iterator' if mapped else flavour,
                              n)
        arg = src
        if mapped:
            arg, st = I.sm.lazy(I, 'map', (COND, src), st, at, None)
        st = st.with_m('keep', Tup((src, arg)))
        for v, x in I.call(f, [arg], [], st, at, None):
            where = self.at(x, at)
            h.count('exhausted')
            if isinstance(v, Raised):
                h.report('C18/exhaust', f'exhaust() raises {v.exc.cls}',
                         where, x)
            elif v != NONE:
                h.report('C18/exhaust', 'exhaust() does not return None',
                         where, x)
            elif flavour not in ('list', 'tuple') and (
                    not all(x.m(('pl', 'x')))
                    or not x.m(('ended', 'x'))):
                h.report('C18/exhaust', 'exhaust() returns before the end of '
                         'its argument', where, x)
            elif mapped and not all(x.m('ev')):
                h.report('C18/exhaust', 'exhaust() does not evaluate every '
                         'element', where, x)
        self.done(h, I)

    def done(self, h, I):
        fs, stats, info = self.out
        for k, v in I.findings.items():
            fs.setdefault(k, v)
        for k, v in h.stats.items():
            stats[k] = stats.get(k, 0) + v
        info['functions'] |= I.functions
        info['opaque'].update(I.opaque)
        info['variants'] += 1
        info['nodes'] = max(info['nodes'], len(I.nodes))
        info['steps'] += I.steps

    def at(self, st, node):
        t = st.trace
        while t is not None and t[2] == '<caller>':
            t = t[0]
        n = Root(-6, node._qual)
        if t:
            n._file, n.lineno = t[2], t[1]
        return n


def analyse(program):
    findings, stats = {}, {}
    info = {'functions': set(), 'opaque': {}, 'variants': 0, 'nodes': 0,
            'steps': 0}
    r = Run(program, (findings, stats, info))
    for xf in ('iterator', 'iterable', 'list', 'tuple'):
        for n in (0, 1, 2, 3):
            if n == 3 and xf != 'iterator' and xf != 'list':
                continue
            r.split(n, n, xf, 'callable')
            for cf in ('iterator', 'iterable', 'list'):
                if xf == 'iterable' and cf == 'list':
                    continue
                for m in {n, n - 1, n + 1} - {-1}:
                    r.split(n, m, xf, cf)
    for fl in ('iterator', 'iterable', 'list', 'tuple', 'mapped'):
        for n in (0, 1, 3):
            r.exhaust(n, fl)
    return findings, stats, info
