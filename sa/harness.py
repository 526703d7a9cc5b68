"""Default environment of an analysis; subjects override what they model."""
from values import *
from values import _atoms
from source import Broken

OWN_CANCEL = ExcV('asyncio.CancelledError', True, 'own-cancel', ())


NOW = Sym('now', 'num')
PAST = Sym('earlier', 'num')        # any earlier time
SPAN = Sym('span', 'num')           # any difference of times


class Harness:
    max_loop_states = 3000
    widen_int = 64
    max_items = 5
    truthy_kinds = frozenset((
        'loop', 'aioevent', 'callable', 'userfunc', 'future', 'logger',
        'num+'))
    not_none_kinds = frozenset((
        'loop', 'aioevent', 'callable', 'userfunc', 'future', 'str', 'tuple',
        'dict', 'bool', 'num', 'num+', 'num-', 'num0+', 'logger', 'strpath',
        'coro', 'mapping', 'list', 'iter'))
    opaque_len = False
    machine = False    # iterators are advanced step by step
    stepwise = False   # interleavings of statements are explored
    alloc_k = 1    # objects told apart per allocation site
    set_order = False
    symbolic_comps = False
    platform = 'unix'
    cancellable = True
    consts = {}
    weak = ()      # monitors which don't keep values alive
    I = None

    # -- clock: the time only changes where something else can run ---------
    def clock(self, st):
        return [(NOW, st)]

    def age(self, st):
        """Some time passed."""
        def times(v):
            for t in walk(v):
                if isinstance(t, Term) and NOW in t.atoms():
                    if t.op == 'lin':
                        d = dict(t.args[1])
                        if d.get(NOW) == 1 and not ({PAST, SPAN} & set(d)):
                            continue
                        m[t] = SPAN
        m = {}
        hit = False
        for o in st.heap.values():
            if NOW in o.atoms():
                hit = True
                for v in o.at.values():
                    times(v)
        for k, v in st.mon.items():
            times(k), times(v)
            hit = hit or NOW in _atoms(v) or NOW in _atoms(k)
        st = st.kill(lambda k: {NOW, PAST, SPAN} & k.atoms())
        if not hit:
            return st
        m[NOW] = PAST
        # whatever contains both is replaced as a whole first
        big = {k: v for k, v in m.items() if v == SPAN}
        for mm in (big, {NOW: PAST}):
            if mm:
                st = State({k: HObj(o.kind, {x: subst(y, mm) for x, y in
                                             o.at.items()})
                            if NOW in o.atoms() else o
                            for k, o in st.heap.items()},
                           st.facts, {subst(k, mm): subst(v, mm)
                                      for k, v in st.mon.items()}, st.trace)
        return st

    # -- plumbing, mostly "no opinion" ------------------------------------
    def before_stmt(self, s, st, fr, loop=False):
        return [st]

    def pick_module_state(self, name, states):
        return states[0]

    def at_loop_head(self, node, st):
        return st

    def exc_may_be(self, exc, cls):
        return None

    def exc_isinstance(self, exc, t, st):
        return None

    def current_exc(self, st):
        return None

    def raise_value(self, v, st, node):
        return ExcV('BaseException', False, 'unknown', (v,))

    def unpack(self, v, n, star, st, node, fr):
        return None

    def for_each(self, it, st, node, fr, body, is_async):
        return None

    def next_elem(self, it, st, node, fr, is_async):
        """[(ctl, value, st)], ctl in 'elem' 'end' 'exc'"""
        e, s2 = self.I.fresh(st, node, fr, 'elem')
        out = [('end', None, st)]
        if is_async:
            for v, x in self.suspend(s2, node, fr, 'anext'):
                if isinstance(v, Raised):
                    out.append(('exc', v.exc, x))
                else:
                    out.append(('elem', e, x))
        else:
            out.append(('elem', e, s2))
        return out

    def hook_call(self, f, args, kwargs, st, node, fr):
        return None

    def call_func(self, func, bound, st, node, fr):
        return None

    def call_opaque(self, f, args, kwargs, st, node, fr):
        self.I.opaque[_desc(f)] = self.I.opaque.get(_desc(f), 0) + 1
        s, st = self.I.fresh(st, node, fr, 'opaque')
        return [(s, st)]

    def call_unknown(self, path, args, kwargs, st, node, fr):
        return self.call_opaque(Ext(path), args, kwargs, st, node, fr)

    def on_instantiate(self, ref, cls, args, kwargs, st, node, fr):
        return None

    def get_attr(self, v, name, st, node, fr):
        return None

    def set_attr(self, o, name, v, st, node, fr):
        return None

    def get_item(self, o, i, st, node, fr):
        return None

    def set_item(self, o, i, v, st, node, fr):
        return None

    def hook_method(self, recv, name, args, kwargs, st, node, fr):
        return None

    def hook_await(self, v, st, node, fr):
        return None

    def hook_with(self, v, st, node, fr, inner, is_async):
        return None

    def binop(self, op, a, b, st, node, fr):
        return None

    def compare(self, op, a, b, st, node, fr):
        return None

    def decide(self, t, st):
        return None

    def assumed(self, t, val, st):
        return st

    def truth(self, v, st, node, fr):
        return None

    def distinct(self, a, b, st):
        return False

    def equal(self, a, b, st):
        return None

    def identity_eq(self, v, st):
        """Objects comparing by identity."""
        return isinstance(v, Sym) and v.kind in (
            'loop', 'aioevent', 'future', 'task')

    def star_item(self, v, i, n, st):
        return Term('item', (v, Const(i)))

    # -- iterators (machine mode)
    def iter_of(self, v, st, node, fr):
        return None

    def inext(self, it, st, node, fr):
        return None

    # -- concurrency -------------------------------------------------------
    def interfere(self, st, why):
        """Effect of everything else running while we don't."""
        return st

    def suspend(self, st, node, fr, what):
        """The running task gives up control here."""
        self.on_suspend(st, node, what)
        x = self.interfere(st, 'suspend')
        out = [(NONE, x)]
        if self.cancellable and not st.m('ownc') and not st.m('mask'):
            out.append((Raised(OWN_CANCEL),
                        x.with_m('ownc', TRUE).note(node, 'own task '
                                                    'cancelled here')))
        for t in st.m('timeouts', ()):
            if t not in st.m('fired', ()):
                out.append((Raised(ExcV('asyncio.CancelledError', True,
                                        ('timeout', t), ())),
                            x.with_m('fired', st.m('fired', ()) + (t,)).note(
                                node, 'timeout expires here')))
        return out

    def resumed(self, v, res, node, fr):
        """What we waited for is done, but others run before us."""
        return res

    def on_suspend(self, st, node, what):
        pass

    def masked(self, st):
        return st.with_m('mask', (st.m('mask') or 0) + 1)

    def unmasked(self, st):
        n = (st.m('mask') or 0) - 1
        m = dict(st.mon)
        if n > 0:
            m['mask'] = n
        else:
            m.pop('mask', None)
        return State(st.heap, st.facts, m, st.trace)

    def await_opaque(self, v, st, node, fr):
        res = []
        for r, x in self.suspend(st, node, fr, 'await'):
            if isinstance(r, Raised):
                res.append((r, x))
            else:
                s, y = self.I.fresh(x, node, fr, 'awaited')
                res.append((s, y))
        return res

    def with_opaque(self, v, st, node, fr, inner, is_async):
        s, st = self.I.fresh(st, node, fr, 'entered')
        return inner(s, st)

    def current_loop(self, st, node, fr):
        return [(Sym('running_loop', 'loop'), st)]

    # threading locks
    def lock_acquire(self, ref, st, node, blocking=TRUE, timeout=None):
        held = st.m('held', ())
        o = st.obj(ref)
        if ref in held and o.get('flavour') != 'RLock':
            self.I.report('self-deadlock',
                          'non-reentrant lock acquired while already held',
                          node, st)
        out = []
        x = self.interfere(st, 'lock') if ref not in held else st
        out.append((TRUE, x.with_m('held', held + (ref,))))
        if blocking != TRUE:
            out.append((FALSE, st))
        return out

    def lock_release(self, ref, st, node):
        held = list(st.m('held', ()))
        if ref not in held:
            return [(Raised(ExcV('RuntimeError', True, 'op', ())), st)]
        held.reverse()
        held.remove(ref)
        held.reverse()
        x = st.with_m('held', tuple(held))
        if ref not in held:
            x = self.interfere(x, 'unlock')
        return [(NONE, x)]

    # dictionaries
    def open_value(self, ref, key, st, node, fr):
        """Values somebody else may have stored: [(value, st)]."""
        s, st = self.I.fresh(st, node, fr, 'dictval')
        return [(s, st)]

    def on_dict(self, op, ref, key, val, st, node):
        return st

    # tasks and futures
    def on_task(self, ref, st, node, fr):
        return st

    def run_threadsafe(self, coro, loop, st, node, fr):
        r, st = self.I.alloc(st, 'cfut', node, fr, coro=coro, loop=loop)
        return [(r, st), (Raised(ExcV('RuntimeError', True,
                                      'loop-closed', ())), st)]

    def on_list(self, op, ref, val, st, node):
        return st


def _desc(f):
    if isinstance(f, Bound) and isinstance(f.fn, Const):
        s = f.self
        if isinstance(s, Sym):
            return f"<{s.kind or 'value'}>.{f.fn.v}"
        if isinstance(s, Ref):
            return f"<{s.oid[0]}>.{f.fn.v}"
        return f"<{type(s).__name__}>.{f.fn.v}"
    if isinstance(f, Ext):
        return f.path
    if isinstance(f, Sym):
        return f"<{f.kind or 'value'}>()"
    return type(f).__name__
