"""threadsafe_async_cache: C01 C05 C06 C14."""
from values import *
from source import Broken
from engine import Interp, abrupt, sname
from harness import Harness, OWN_CANCEL, _desc

RULES = {
    # C01
    'C01/unclaimed-call': 'the user function may only run after this call '
    'registered itself as computing for the key, in a critical section of '
    'the shared lock that saw no result and no live computation',
    'C01/publish': 'a successful result is stored before the in-flight entry '
    'is given up',
    'C01/marker-removal': 'an in-flight entry may only be removed by its '
    'owner (or when its loop is dead), under the lock',
    'C01/lock-scope': 'lock and tables are shared by all calls',
    # C05
    'C05/wake': 'every exit after registering wakes the waiters',
    'C05/release': 'every exit after registering removes the own entry',
    'C05/lock-await': 'no suspension while holding the thread lock',
    'C05/wait-loop': "waiting for another call's event happens on that "
    "call's loop",
    'C05/wait-dead': 'a call only waits for a loop it saw running',
    'C05/own-entry': 'calls with different arguments do not wait for each '
    'other',
    'C05/wait-bound': 'waiting across loops is bounded by 60 seconds',
    # C06
    'C06/foreign-exc': 'only exceptions of the own invocation or the own '
    'cancellation escape',
    'C06/swallow': 'failures and cancellation of a call are not swallowed',
    'C06/store-failure': 'only results of successful invocations are stored',
    'C06/shared-cancel': 'nothing shared with other callers is cancelled',
    # C14
    'C14/key': 'the key determines exactly the arguments',
    'C14/args': 'the user function gets exactly the arguments of the call',
    'C14/value': 'the returned value is the one for the key',
    'C14/store': 'the given mapping is the only store',
}

# a broken rule breaks these as well
ALSO = {
    # calls with equal arguments compute twice, or others get the result
    'C14/key': ('C01', 'C06'),
    'C14/value': ('C01', 'C06'),
    # others are held up by a failed or cancelled call
    'C05/release': ('C06',),
    'C05/wake': ('C06',),
    # an exception of the bookkeeping
    'C05/wait-loop': ('C06',),
}
RULES = {k: {'text': v, 'props': (k[:3],) + ALSO.get(k, ())}
         for k, v in RULES.items()}

ARGS = Sym('args', 'tuple')
KW = Sym('kwargs', 'dict')
USER = Sym('user_func', 'userfunc')
RUN = Sym('running_loop', 'loop')
NOFACTS = ('is_running', 'is_closed', 'done', 'is_set', 'cancelled', 'locked',
           'nonempty')


class Root:
    """Stands for the code calling into the analysed package."""
    lineno = 0
    _file = '<caller>'
    _qual = '<caller>'

    def __init__(self, uid):
        self._uid = uid


ROOT_FR = None


class CacheHarness(Harness):
    weak = ('hits',)
    symbolic_comps = True

    def __init__(self):
        self.shapes = {}
        self.new_shapes = {}
        self.result_tables = set()
        self.shared = set()
        self.user_cache = None
        self.global_refs = set()
        self.keys = {}
        self.stats = {}
        self.phase = 'setup'

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # -- environment ---------------------------------------------------
    def interfere(self, st, why):
        if self.phase != 'run':
            return st
        alive = set(st.m('alive', ()))
        for k, v in st.facts.items():
            if k.op == 'pred' and k.args[0] == Const('is_running') and v:
                alive.add(k.args[1])
        st = st.kill(lambda k: k.op == 'pred' and isinstance(
            k.args[0], Const) and k.args[0].v in NOFACTS
            and RUN not in k.args)
        h = dict(st.heap)
        own = dict(st.m('own', ()))
        for oid, o in st.heap.items():
            if o.kind == 'dict' and o.get('shared'):
                maybe = tuple(
                    (k, v) for k, v in o.get('ent') + o.get('maybe', ())
                    if (Ref(oid), k, v) in st.m('ownents', ()))
                h[oid] = HObj('dict', {**o.at, 'ent': (), 'maybe': tuple(
                    dict.fromkeys(maybe)), 'absent': frozenset()})
        st = State(h, st.facts, st.mon, st.trace)
        st = st.with_m('crit', ()).with_m('alive', tuple(
            sorted(alive, key=repr)))
        return st

    def open_value(self, ref, key, st, node, fr):
        if ref in self.result_tables:
            s, st = self.I.fresh(st, node, fr, 'cached')
            return [(s, st.with_m('hits', _addset(
                st.m('hits', ()), Tup((s, ref, key)))))]
        out = []
        for i, shp in enumerate(sorted(self.shapes.get(ref, ()), key=repr)):
            v, x = self.materialise(shp, ref, i, '', st, node, fr)
            out.append((v, x))
        return out

    # shape of stored markers, as seen by another call
    def shape(self, v, st, depth=0):
        if isinstance(v, Tup):
            return ('tup', tuple(self.shape(x, st, depth) for x in v.items))
        if isinstance(v, NTup):
            return ('nt', v.cls, v.names,
                    tuple(self.shape(x, st, depth) for x in v.items))
        if isinstance(v, Const):
            return ('const', v)
        if v == RUN:
            return ('loop',)
        if isinstance(v, Sym):
            if isinstance(v.name, tuple) and 'fg' in str(v.name[3]):
                return None
            return ('sym', v.kind)
        if isinstance(v, Ref) and st.has(v):
            o = st.obj(v)
            if o.kind == 'aioevent':
                return ('event',)
            if o.kind in ('fut', 'cfut'):
                return ('future', o.kind)
            if o.kind == 'lock':
                return ('keep', v)
            if o.kind == 'inst' and depth < 3:
                return ('inst', o.get('$class'), tuple(sorted(
                    (k, self.shape(x, st, depth + 1))
                    for k, x in o.at.items() if not k.startswith('$'))))
            if o.kind in ('list', 'set', 'deque', 'dict'):
                return ('coll', o.kind)
        if isinstance(v, Term) and v.op == 'id':
            return ('sym', 'num+')
        return ('sym', None)

    def materialise(self, shp, ref, i, path, st, node, fr):
        tag = f'fg{ref.oid[1]}.{i}.{path}'
        k = shp[0] if shp else None
        if k in ('tup', 'nt'):
            vals = []
            for j, s in enumerate(shp[-1]):
                v, st = self.materialise(s, ref, i, f'{path}{j}.', st, node,
                                         fr)
                vals.append(v)
            return (Tup(tuple(vals)) if k == 'tup' else
                    NTup(shp[1], shp[2], tuple(vals))), st
        if k in ('const', 'keep'):
            return shp[1], st
        if k == 'loop':
            return self.I.fresh(st, node, fr, tag + 'loop', 'loop')
        if k == 'event':
            return self.I.fresh(st, node, fr, tag + 'event', 'aioevent')
        if k == 'future':
            return self.I.fresh(st, node, fr, tag + 'future', 'future')
        if k == 'inst':
            r, st = self.I.alloc(st, 'inst', node, fr, tag,
                                 **{'$class': shp[1]})
            for a, s in shp[2]:
                v, st = self.materialise(s, ref, i, path + a + '.', st, node,
                                         fr)
                st = st.with_obj(r, st.obj(r).put(a, v))
            return r, st
        if k == 'coll':
            if shp[1] == 'dict':
                return self.I.alloc(st, 'dict', node, fr, tag, ent=(),
                                    open=TOP)[::1]
            return self.I.alloc(st, shp[1], node, fr, tag, items=(Star(TOP),)
                                if shp[1] != 'set' else frozenset(
                                    (Star(TOP),)))
        return self.I.fresh(st, node, fr, tag + 'x',
                            shp[1] if k == 'sym' else None)

    def leaves(self, v, st):
        """loop/event/future leaves of a marker value."""
        out = []
        seen = set()

        def rec(x):
            if isinstance(x, (Tup, NTup)):
                for y in x.items:
                    rec(y)
            elif isinstance(x, Ref) and st.has(x):
                if x in seen:
                    return
                seen.add(x)
                o = st.obj(x)
                if o.kind == 'inst':
                    for k, y in o.at.items():
                        if not k.startswith('$'):
                            rec(y)
                else:
                    out.append(x)
            elif isinstance(x, Val):
                out.append(x)
        rec(v)
        return out

    def partner_loops(self, ev, st):
        """Loops belonging to the same foreign marker as the event."""
        if not (isinstance(ev, Sym) and isinstance(ev.name, tuple)):
            return []
        _, uid, ctx, tag, gen = ev.name
        out = []
        pre = tag.split('.')[0]
        for t in self._syms(st):
            if isinstance(t.name, tuple) and t.kind == 'loop' and \
                    t.name[0] == 's' and str(t.name[3]).startswith(pre) and \
                    t.name[4] == gen and self._same_read(t, ev, st):
                out.append(t)
        return out

    def _same_read(self, loop, ev, st):
        if loop.name[1:3] == ev.name[1:3]:
            return True
        # parallel tables: read in the same critical section
        return True

    def _syms(self, st):
        s = set()
        for o in st.heap.values():
            s.update(a for a in o.atoms() if isinstance(a, Sym))
        for k in st.facts:
            s.update(a for a in k.atoms() if isinstance(a, Sym))
        for v in self.I.temps:
            s.update(a for a in v.atoms() if isinstance(a, Sym))
        return s

    def distinct(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            # an event / future made by another call is never ours
            if isinstance(x, Sym) and x.kind in ('aioevent', 'future') and \
                    isinstance(y, Ref):
                return True
            if isinstance(x, Sym) and isinstance(x.name, tuple) and \
                    'fg' in str(x.name[3]) and isinstance(y, Ref):
                return True
            if isinstance(x, Ref) and isinstance(y, Sym) and (
                    y.name == 'user_func' or isinstance(y.name, tuple)
                    and y.name[3] in ('cached', 'result')):
                # user values are never private objects
                return True
        return False

    def identity_eq(self, v, st):
        return super().identity_eq(v, st) or (
            isinstance(v, Ref) and st.has(v) and st.obj(v).kind in (
                'aioevent', 'fut', 'object'))

    # -- critical sections ---------------------------------------------
    def lock_acquire(self, ref, st, node, blocking=TRUE, timeout=None):
        if self.phase == 'run' and ref not in self.shared:
            self.I.report('C01/lock-scope', 'lock is created per call: it '
                          'protects nothing', node, st)
        return super().lock_acquire(ref, st, node, blocking, timeout)

    def suspend(self, st, node, fr, what):
        res = super().suspend(st, node, fr, what)
        if what[0] == 'event.wait':
            # what was seen before the wait is out of date afterwards
            res = [(v, x.with_m('alive', ())) for v, x in res]
        return res

    def on_suspend(self, st, node, what):
        held = st.m('held', ())
        if held and self.phase == 'run':
            self.I.report('C05/lock-await', 'suspends while holding the '
                          'thread lock: every other thread blocks', node, st)
        if what[0] == 'event.wait':
            self.check_wait(what[1], st, node)
        if what[0] in ('remote', 'await') or what[0] == 'shared':
            pass

    def check_wait(self, ev, st, node):
        if isinstance(ev, Ref):
            # an event of the own marker: nobody will ever set it
            return
        if not (isinstance(ev, Sym) and ev.kind == 'aioevent'):
            return
        self.count('waits')
        loops = self.partner_loops(ev, st)
        if not loops:
            return
        remote = st.m('remote')
        target = None
        if remote is not None and st.has(remote):
            target = st.obj(remote).get('loop')
        same = [l for l in loops if st.fact(Term('is', _pair(l, RUN)))]
        if target is not None:
            ok = target in loops or (target == RUN and same)
        else:
            ok = bool(same)
        if not ok:
            self.I.report('C05/wait-loop', "waits for another call's event "
                          "outside of the loop computing it: set() there "
                          "never wakes this loop", node, st)
        alive = st.m('alive', ())
        if not any(l in alive or st.fact(Term('pred', (
                Const('is_running'), l))) for l in loops) and not same:
            self.I.report('C05/wait-dead', "may wait for a loop which was "
                          "not seen running: nobody recomputes when it is "
                          "stopped", node, st)
        if target is not None or not same:
            tv = [t.v for t in st.m('tval', ()) if isinstance(t, Const)]
            if not any(isinstance(t, (int, float)) and t <= 60 for t in tv):
                self.I.report('C05/wait-bound', "waits for another loop "
                              "without a timeout of at most 60 seconds",
                              node, st)

    # -- tables ------------------------------------------------------------
    def on_dict(self, op, ref, key, val, st, node):
        if self.phase != 'run' or not st.has(ref):
            return st
        o = st.obj(ref)
        if not o.get('shared'):
            if op == 'store' and self.mentions_result(val, st):
                pass
            return st
        if op in ('read', 'miss', 'store', 'del'):
            self.keys.setdefault((ref, key), (node, st))
            self.count('table accesses')
        if op == 'miss':
            st = st.with_m('crit', _addset(st.m('crit', ()), Tup(
                (ref, key))))
        elif op == 'store':
            st = self.on_store(ref, key, val, st, node)
        elif op in ('del', 'clear'):
            st = self.on_delete(op, ref, key, val, st, node)
        return st

    def mentions_result(self, val, st):
        return any(isinstance(a, Sym) and isinstance(a.name, tuple)
                   and a.name[3] == 'result' for a in val.atoms())

    def on_store(self, ref, key, val, st, node):
        if self.mentions_result(val, st):
            self.count('publications')
            self.result_tables.add(ref)
            if self.user_cache is not None and ref != self.user_cache:
                self.I.report('C14/store', 'a result is stored in something '
                              'else than the given cache', node, st)
            if ref in self.global_refs and USER not in key.atoms():
                self.I.report('C14/store', 'the default cache is shared '
                              'with other decorated functions', node, st)
            if not (isinstance(val, Sym)):
                self.I.report('C14/value', 'the stored value is not the '
                              'result itself', node, st)
            if st.m('released'):
                self.I.report('C01/publish', 'the result is stored after '
                              'the in-flight entry was given up', node, st)
            return st.with_m('published', Tup((ref, key)))
        if ref in self.result_tables or ref == self.user_cache:
            if st.m('called'):
                self.I.report('C06/store-failure', 'something else than the '
                              'result of a successful invocation is stored '
                              'in the cache', node, st)
                return st
            if isinstance(val, Const) or isinstance(val, Ref):
                self.I.report('C06/store-failure', 'a value that is no '
                              'result is stored in the cache', node, st)
            return st
        # in-flight marker
        shp = self.shape(val, st)
        self.new_shapes.setdefault(ref, set()).add(shp)
        if ref in self.global_refs and USER not in key.atoms():
            self.I.report('C05/wait-dead', 'in-flight entries are shared '
                          'with other decorated functions: a function '
                          'calling another one waits for itself', node, st)
        problems = []
        held = [l for l in st.m('held', ()) if l in self.shared]
        if not held:
            problems.append('outside of the critical section')
        seen_miss = any(isinstance(c, Tup) and (
            c.items[0] in self.result_tables or c.items[0] == self.user_cache)
            for c in st.m('crit', ()))
        if not seen_miss:
            problems.append('without having found the cache empty for the '
                            'key in the same critical section')
        o = st.obj(ref)
        cur = [v for k, v in o.get('ent') if k == key]
        own = (ref, key, cur[0]) in st.m('ownents', ()) if cur else False
        if cur and not own:
            loops = [l for l in self.leaves(cur[0], st)
                     if isinstance(l, Sym) and l.kind == 'loop']
            # parallel tables: liveness may come from a sibling table
            loops += [l for r2 in self.shared if st.has(r2)
                      and st.obj(r2).kind == 'dict'
                      for k2, v2 in st.obj(r2).get('ent') if k2 == key
                      for l in self.leaves(v2, st)
                      if isinstance(l, Sym) and l.kind == 'loop']
            if not any(self.dead(l, st) for l in loops):
                problems.append('over the entry of a computation which is '
                                'not known to be dead')
        elif not cur and key not in o.get('absent', ()) and o.get('open') \
                and not own:
            sib = [c for c in st.m('crit', ()) if c.items[1] == key
                   and c.items[0] not in self.result_tables
                   and c.items[0] != self.user_cache]
            deadsib = any(
                self.dead(l, st) for r2 in self.shared if st.has(r2)
                and st.obj(r2).kind == 'dict'
                for k2, v2 in st.obj(r2).get('ent') if k2 == key
                for l in self.leaves(v2, st)
                if isinstance(l, Sym) and l.kind == 'loop')
            if not sib and not deadsib:
                problems.append('without looking for a computation already '
                                'in flight')
        self.count('claims')
        st = st.with_m('claims', _addset(st.m('claims', ()), Tup(
            (ref, key, val, Const('; '.join(problems))))))
        st = st.with_m('ownents', _addset(st.m('ownents', ()),
                                          (ref, key, val)))
        st = st.with_m('markers', _addset(st.m('markers', ()), val))
        return st.note(node, 'registers itself as computing')

    def dead(self, l, st):
        return st.fact(Term('pred', (Const('is_closed'), l))) is True or \
            st.fact(Term('pred', (Const('is_running'), l))) is False

    def on_delete(self, op, ref, key, val, st, node):
        if ref in self.result_tables or ref == self.user_cache:
            self.I.report('C14/store', 'removes entries of the cache', node,
                          st)
            return st
        if op == 'clear':
            self.I.report('C01/marker-removal', 'removes in-flight entries '
                          'of other calls', node, st)
            return st
        held = [l for l in st.m('held', ()) if l in self.shared]
        own = (ref, key, val) in st.m('ownents', ())
        if not own:
            loops = [l for l in self.leaves(val, st)
                     if isinstance(l, Sym) and l.kind == 'loop']
            if not any(self.dead(l, st) for l in loops):
                self.I.report('C01/marker-removal', 'may remove the '
                              'in-flight entry of another, live '
                              'computation', node, st)
        elif not held:
            self.I.report('C01/marker-removal', 'removes the in-flight entry '
                          'outside of the critical section', node, st)
        else:
            if st.m('result') and not st.m('published'):
                # must not be visible without the result
                st = st.with_m('released', TRUE)
            claims = tuple(c for c in st.m('claims', ())
                           if c.items[:3] != (ref, key, val))
            st = st.with_m('claims', claims)
            st = st.with_m('ownents', tuple(
                x for x in st.m('ownents', ()) if x != (ref, key, val)))
        return st

    # -- the wrapped function ------------------------------------------
    def hook_call(self, f, args, kwargs, st, node, fr):
        if f == USER:
            self.check_args(args, kwargs, st, node)
            s, st = self.I.fresh(st, node, fr, 'usercoro', 'coro')
            return [(s, st)]
        return None

    def check_args(self, args, kwargs, st, node):
        def only(vals, v):
            return len(vals) == 1 and vals[0] == v
        a = [x for x in args]
        ok = len(a) == 1 and isinstance(a[0], Star) and _same_tuple(
            a[0].v, ARGS)
        k = list(kwargs)
        ok2 = len(k) == 1 and k[0][0] is None and k[0][1] == KW
        self.count('user call sites')
        if not (ok and ok2):
            self.I.report('C14/args', 'the wrapped function is not called '
                          'with exactly the arguments of the call', node, st)

    def hook_await(self, v, st, node, fr):
        if isinstance(v, Sym) and v.kind == 'coro' and isinstance(
                v.name, tuple) and v.name[3] == 'usercoro':
            return self.user_runs(v, st, node, fr)
        if isinstance(v, Sym) and v.kind in ('future', 'task'):
            return self.shared_await(v, st, node, fr)
        return None

    def user_runs(self, v, st, node, fr):
        self.count('invocations')
        if st.m('called'):
            if st.m('uexc'):
                self.I.report('C06/swallow', 'the failure of the invocation '
                              'is swallowed and the function called again',
                              node, st)
            elif st.m('result'):
                self.I.report('C01/unclaimed-call', 'calls the function '
                              'again after it returned', node, st)
        claims = st.m('claims', ())
        good = [c for c in claims if c.items[3] == Const('')]
        if not good:
            why = '; '.join(sorted({c.items[3].v for c in claims})) \
                or 'no in-flight entry of this call'
            self.I.report('C01/unclaimed-call', 'calls the wrapped function '
                          f'although: {why}', node, st)
        st = st.with_m('called', TRUE).note(node, 'wrapped function runs')
        out = []
        for w, x in self.suspend(st, node, fr, ('user',)):
            if abrupt(w):
                out.append((w, x))
                continue
            r, y = self.I.fresh(x, node, fr, 'result')
            out.append((r, y.with_m('result', r)))
            if not st.m('mask') or True:
                out.append((Raised(ExcV('BaseException', False, 'user', ())),
                            x.with_m('uexc', TRUE).note(
                                node, 'wrapped function raises')))
        return out

    def shared_await(self, v, st, node, fr):
        """Awaiting something another call shares through a table."""
        out = []
        for w, x in self.suspend(st, node, fr, ('shared', v)):
            if isinstance(w, Raised):
                if w.exc.origin == 'own-cancel' or isinstance(
                        w.exc.origin, tuple):
                    self.I.report('C06/shared-cancel', "cancelling this call "
                                  "cancels the future shared with other "
                                  "callers", node, st)
                out.append((w, x))
                continue
            s, y = self.I.fresh(x, node, fr, 'sharedresult')
            out.append((s, y))
            out.append((Raised(ExcV('BaseException', False, 'foreign', ())),
                        x))
        return out

    def hook_method(self, recv, name, args, kwargs, st, node, fr):
        if isinstance(recv, Sym) and recv.kind in ('future', 'task') and \
                name == 'cancel' and recv.name != 'current_task':
            self.I.report('C06/shared-cancel', 'cancels a future shared with '
                          'other callers', node, st)
        if isinstance(recv, Sym) and recv.kind == 'aioevent' and \
                name in ('set', 'clear'):
            loops = self.partner_loops(recv, st)
            if name == 'clear' or not any(
                    st.fact(Term('is', _pair(l, RUN))) for l in loops):
                self.I.report('C05/wait-loop', "touches another call's event "
                              "from outside of its loop", node, st)
            return [(NONE, st)]
        return None

    def future_outcome(self, ref, st, node, fr):
        out = []
        for w, x in self.suspend(st, node, fr, ('future', ref)):
            if abrupt(w):
                out.append((w, x))
            else:
                s, y = self.I.fresh(x, node, fr, 'futres')
                out.append((s, y))
        return out

    # -- exits -------------------------------------------------------------
    def check_exit(self, v, st, node):
        st = st.note(node, 'call ends')
        self.count('exits')
        if isinstance(v, Raised):
            e = v.exc
            if e.origin == 'user':
                pass
            elif e.origin == 'own-cancel' or (
                    st.m('ownc') and e.cls == 'asyncio.CancelledError'):
                pass
            else:
                self.I.report('C06/foreign-exc', f'{e.cls} raised by the '
                              f'cache itself reaches the caller '
                              f'({_origin(e)})', self.last(st, node), st)
        else:
            if st.m('ownc'):
                self.I.report('C06/swallow', 'the cancellation of the '
                              'calling task is swallowed',
                              self.last(st, node), st)
            elif st.m('uexc') and not st.m('result'):
                self.I.report('C06/swallow', 'the failure of the invocation '
                              'is swallowed', self.last(st, node), st)
            if st.m('result') and v == st.m('result'):
                p = st.m('published')
                if p is None:
                    self.I.report('C01/publish', 'a successful result is '
                                  'never stored', self.last(st, node), st)
            else:
                hit = [h for h in st.m('hits', ()) if h.items[0] == v]
                if not hit and v not in (st.m('result'),):
                    self.I.report('C14/value', 'returns something else than '
                                  'the result or the cached value',
                                  self.last(st, node), st)
                for h in hit:
                    if self.user_cache is not None and \
                            h.items[1] != self.user_cache:
                        self.I.report('C14/store', 'returns a value from '
                                      'something else than the given cache',
                                      self.last(st, node), st)
        for c in st.m('claims', ()):
            ref, key, val, _ = c.items
            o = st.obj(ref)
            left = any(k == key and w == val for k, w in o.get('ent')
                       + o.get('maybe', ()))
            if left:
                self.I.report('C05/release', 'ends without removing its '
                              'in-flight entry', self.last(st, node), st)
        woken = st.m('markers', ())
        for val in st.m('markers', ()):
            self.check_woken(val, st, node)

    def check_woken(self, val, st, node):
        wake = [l for l in self.leaves(val, st) if isinstance(l, Ref)
                and st.has(l) and st.obj(l).kind in ('aioevent', 'fut')]
        for w in wake:
            o = st.obj(w)
            if o.kind == 'aioevent' and o.get('set') != TRUE:
                self.I.report('C05/wake', 'ends without setting the event '
                              'others wait for', self.last(st, node), st)
            if o.kind == 'fut' and o.get('outcome') is None and not o.get(
                    'cancelreq') and not o.get('task'):
                self.I.report('C05/wake', 'ends without resolving the future '
                              'others wait for', self.last(st, node), st)

    def last(self, st, node):
        class N:
            pass
        n = N()
        n._file, n.lineno, n._qual = '?', 0, '<exit>'
        if st.trace:
            t = st.trace
            while t is not None and t[2] == '<caller>':
                t = t[0]
            if t:
                n._file, n.lineno = t[2], t[1]
        n._qual = 'threadsafe_async_cache'
        return n


def _origin(e):
    return {'op': 'a table lookup', 'foreign-cancel': 'cancelled by the '
            'shutdown of another loop', 'timeout': 'its own safety timeout',
            'loop-closed': 'the computing loop was closed'}.get(
        e.origin, str(e.origin))


def _addset(t, v):
    return t if v in t else tuple(sorted(t + (v,), key=repr))


def _pair(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)


def _same_tuple(v, args):
    return v == args or (isinstance(v, Term) and v.op in (
        'tuple', 'tuplecat') and len(v.args) == 1 and (
            v.args[0] == args or v.args[0] == Star(args)))


# ---------------------------------------------------------------------------
# key algebra

def key_problems(K):
    """What is wrong with a key; [] when it determines exactly the args."""
    probs = []
    comps = flatten(K)
    if comps is None:
        return [f'key {show(K)} is not understood']
    has_a = has_k = False
    for c in comps:
        r = component(c)
        if isinstance(r, str):
            probs.append(r)
            continue
        a, k = r
        has_a |= a
        has_k |= k
    if not probs:
        if not has_a:
            probs.append('positional arguments are not part of the key')
        if not has_k:
            probs.append('keyword arguments are not part of the key')
    return probs


def flatten(K):
    if isinstance(K, (Tup, NTup)):
        return list(K.items)
    return [K]


def component(c):
    """(covers args, covers kwargs) or a problem."""
    at = c.atoms()
    if ARGS not in at and KW not in at:
        if isinstance(c, Const) or c == USER or isinstance(
                c, (Func, Ext)) or isinstance(c, Ref) or not at:
            return (False, False)
        return f'key depends on {show(c)}'
    if isinstance(c, (Tup, NTup)):
        a = k = False
        for i in c.items:
            r = component(i)
            if isinstance(r, str):
                return r
            a |= r[0]
            k |= r[1]
        return (a, k)
    if _same_tuple(c, ARGS):
        return (True, False)
    if isinstance(c, Term):
        if c.op in ('frozenset',) and len(c.args) == 1:
            x = c.args[0]
            x = x.v if isinstance(x, Star) else x
            if is_items(x):
                return (False, True)
            if _strip(x) == ARGS or (isinstance(x, Term) and x.op in (
                    'sorted',) and _strip(x.args[0]) == ARGS):
                return 'key loses the order of positional arguments'
            if isinstance(x, Term) and x.op == 'keys' or x == KW:
                return 'key ignores the values of keyword arguments'
            if isinstance(x, Term) and x.op == 'values':
                return 'key ignores the names of keyword arguments'
        if c.op in ('tuple', 'tuplecat') and len(c.args) == 1:
            x = c.args[0]
            x = x.v if isinstance(x, Star) else x
            if isinstance(x, Term) and x.op == 'sorted' and is_items(
                    x.args[0]):
                kw = x.args[1:]
                if not kw:
                    return (False, True)
                return (False, True) if _names_key(kw) else \
                    'keyword order key is not understood'
            if is_items(x):
                return 'key depends on the order of keyword arguments'
            if isinstance(x, Term) and x.op == 'sorted' and \
                    _strip(x.args[0]) == ARGS:
                return 'key loses the order of positional arguments'
            if isinstance(x, Term) and x.op == 'keys' or x == KW:
                return 'key ignores the values of keyword arguments'
            if isinstance(x, Term) and x.op == 'values':
                return 'key ignores the names of keyword arguments'
        if c.op == 'tuplecat':
            both = any(ARGS in y.atoms() for y in c.args) and any(
                KW in y.atoms() for y in c.args)
            if both:
                # (*args, <separator object>, *sorted(items)) is injective
                seps = [y for y in c.args if isinstance(y, Ref)]
                if not seps:
                    return ('positional and keyword arguments are '
                            'concatenated: different calls collide')
                parts = []
                for y in c.args:
                    r = component(Term('tuplecat', (y,))) if isinstance(
                        y, Star) else component(y)
                    if isinstance(r, str):
                        return r
                    parts.append(r)
                return (any(p[0] for p in parts), any(p[1] for p in parts))
        if c.op == 'mapseq' or (c.args and isinstance(c.args[0], Term)
                                and c.args[0].op == 'mapseq'):
            return f'key maps the arguments: {show(c)}'
        if c.op in ('fstr', 'str', 'repr', 'strcat'):
            return 'key is built from the text form of arguments'
        if c.op == 'hash':
            return 'key is built from hashes of arguments'
        if c.op == 'id':
            return 'key is built from object identities'
        if c.op in ('getitem', 'item', 'elem', 'len'):
            return 'key only covers a part of the arguments'
        if c.op == 'sorted':
            return 'key is an unhashable list'
        if c.op == 'type':
            return 'key distinguishes equal arguments by type'
    if c == KW:
        return 'key contains an unhashable dict'
    return f'key component {show(c)} does not determine the arguments'


def _strip(x):
    while isinstance(x, Term) and x.op in ('tuple', 'tuplecat') and len(
            x.args) == 1:
        x = x.args[0]
    return x.v if isinstance(x, Star) else x


def is_items(x):
    while isinstance(x, Term) and x.op in ('tuple', 'tuplecat', 'list',
                                           'iter') and len(x.args) == 1:
        x = x.args[0]
        x = x.v if isinstance(x, Star) else x
    if isinstance(x, Term) and x.op == 'sorted':
        x = x.args[0]
    return x == Term('items', (KW,)) or (
        isinstance(x, Tup) and len(x.items) == 2
        and x == Tup((Sym('kwname', None), Sym('kwvalue', None))))


def _names_key(kw):
    return True


def show(v):
    if isinstance(v, Const):
        return repr(v.v)
    if isinstance(v, Sym):
        return str(v.name if not isinstance(v.name, tuple) else v.name[3])
    if isinstance(v, Term):
        return f"{v.op}({', '.join(show(x) for x in v.args)})"
    if isinstance(v, (Tup, NTup)):
        return f"({', '.join(show(x) for x in v.items)})"
    if isinstance(v, Star):
        return '*' + show(v.v)
    if isinstance(v, tuple):
        return str(v)
    return type(v).__name__


# ---------------------------------------------------------------------------

def freeze_shared(h, st):
    """Everything made while decorating is shared by all calls."""
    heap = dict(st.heap)
    for oid, o in st.heap.items():
        if o.kind in ('frame', 'class'):
            continue
        at = dict(o.at)
        at['$keep'] = True
        at['shared'] = True
        if o.kind == 'dict':
            at.update(open=TOP, ent=(), absent=frozenset(), maybe=())
        heap[oid] = HObj(o.kind, at)
        h.shared.add(Ref(oid))
    return State(heap, st.facts, st.mon, st.trace)


def analyse(program):
    findings = {}
    stats = {}
    info = {'functions': set(), 'opaque': {}, 'variants': 0, 'nodes': 0}
    for user_cache in (False, True):
        for with_opts in (False, True):
            run_variant(program, user_cache, with_opts, findings, stats, info)
    return findings, stats, info


def run_variant(program, user_cache, with_opts, findings, stats, info):
    shapes, tables = {}, set()
    for round_ in range(6):
        h = CacheHarness()
        h.shapes = shapes
        h.result_tables = set(tables)
        I = Interp(program, h)
        st = I.load('aiuti.asyncio', State())
        h.global_refs = {Ref(k) for k in st.heap}
        deco = I.module_attr('aiuti.asyncio', 'threadsafe_async_cache', st)
        node = Root(-1)
        call = Root(-2)
        kw = []
        if user_cache:
            c = Ref(('dict', 'usercache', (), '', 0))
            st = st.with_obj(c, HObj('dict', {
                'ent': (), 'open': TOP, 'shared': True, '$keep': True,
                'flavour': 'user'}))
            h.user_cache = c
            h.result_tables.add(c)
            kw = [('cache', c)]
        if with_opts:
            res = I.bind(I.call(deco, [], kw, st, node, None),
                         lambda d, x: I.call(d, [USER], [], x, call, None))
        else:
            res = I.call(deco, [USER], kw, st, node, None)
        h.shared = set()
        for w, x in res:
            if abrupt(w):
                raise Broken(f"decorating fails: {w}")
            I.temps.append(w)
            x = I.gc(x.with_m('wrapper', w))
            h.phase = 'run'
            x = freeze_shared(h, x)
            x = h.interfere(x, 'start')
            for v, y in I.call(w, [Star(ARGS)], [(None, KW)], x, call, None):
                if abrupt(v):
                    h.check_exit(v, y, call)
                    continue
                for v2, z in I.await_(v, y, call, _root_fr()):
                    h.check_exit(v2, z, call)
            h.phase = 'setup'
            I.temps.pop()
        if h.new_shapes == shapes and h.result_tables == tables | (
                {h.user_cache} if user_cache else set()):
            break
        shapes, tables = h.new_shapes, h.result_tables - (
            {h.user_cache} if user_cache else set())
    else:
        raise Broken('in-flight markers do not stabilise')
    # keys
    seen = {}
    for (ref, key), (node, st) in h.keys.items():
        for p in key_problems(key):
            I.report('C14/key', p, node, st)
            if ref not in h.result_tables and any(x in p for x in (
                    'ignores', 'loses', 'not part', 'collide', 'text form',
                    'hashes', 'only covers', 'maps')):
                # f(1) which calls f(2) would wait for itself
                I.report('C05/own-entry', 'in-flight entries: ' + p, node, st)
        seen.setdefault(ref, set()).add(key)
    if not h.stats.get('invocations'):
        raise Broken('no invocation of the wrapped function found')
    for k, v in I.findings.items():
        findings.setdefault(k, v)
    for k, v in h.stats.items():
        stats[k] = stats.get(k, 0) + v
    info['functions'] |= I.functions
    info['opaque'].update(I.opaque)
    info['variants'] += 1
    info['nodes'] = max(info['nodes'], len(I.nodes))
    info['steps'] = info.get('steps', 0) + I.steps


def _root_fr():
    from engine import Fr
    return None
