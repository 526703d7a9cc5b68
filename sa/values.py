"""Abstract values, heap objects and states.

Everything is immutable and hashable so that sets of states can be compared
when looking for fixpoints.
"""


class Val:
    fields = ()
    __slots__ = ('a', 'h', '_at')

    def __init__(self, *a):
        assert len(a) == len(self.fields), (type(self), a)
        self.a = a
        self.h = hash((type(self).__name__, a))

    def atoms(self):
        """All Syms and Refs inside of this value."""
        try:
            return self._at
        except AttributeError:
            pass
        if isinstance(self, (Sym, Ref)):
            r = frozenset((self,))
        else:
            r = _atoms(self.a)
        self._at = r
        return r

    def __eq__(self, o):
        return self is o or (
            type(self) is type(o) and self.h == o.h and self.a == o.a)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self.h

    def __repr__(self):
        return f"{type(self).__name__}({', '.join(map(_r, self.a))})"

    def __init_subclass__(cls):
        for i, f in enumerate(cls.fields):
            setattr(cls, f, property(lambda self, i=i: self.a[i]))


def _atoms(x):
    if isinstance(x, Val):
        return x.atoms()
    if isinstance(x, (tuple, frozenset)):
        r = frozenset()
        for y in x:
            z = _atoms(y)
            if z:
                r |= z
        return r
    return frozenset()


def _r(x):
    if hasattr(x, 'lineno'):
        return f"<{type(x).__name__} {getattr(x, 'name', '')}@{x.lineno}>"
    return repr(x)


class _C:
    """Constant wrapper distinguishing 1, 1.0 and True."""
    __slots__ = ('v', 'k')

    def __init__(self, v):
        self.v = v
        self.k = (type(v).__name__, v)

    def __eq__(self, o):
        return self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return repr(self.v)


class Const(Val):
    fields = ('c',)

    def __init__(self, v):
        super().__init__(_C(v))

    @property
    def v(self):
        return self.a[0].v


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Sym(Val):
    """Opaque value: an input of the analysis or the result of an opaque call."""
    fields = ('name', 'kind')


class Term(Val):
    """Pure function of other values."""
    fields = ('op', 'args')


class Ref(Val):
    """Reference to an abstract heap object."""
    fields = ('oid',)


class Tup(Val):
    fields = ('items',)


class Func(Val):
    fields = ('node', 'env', 'defaults', 'kwdefaults', 'flavour')


class Bound(Val):
    fields = ('fn', 'self')


class Partial(Val):
    fields = ('fn', 'args', 'kwargs')


class Ext(Val):
    """Object defined outside of the analysed package, by dotted path."""
    fields = ('path',)


class Coro(Val):
    """Not yet awaited coroutine of an analysed async function."""
    fields = ('fn', 'bound')


class GenV(Val):
    """Not yet iterated (async) generator of an analysed function."""
    fields = ('fn', 'bound', 'is_async')


class CM(Val):
    """Not yet entered generator based context manager."""
    fields = ('fn', 'bound', 'is_async')


class ExtCoro(Val):
    """Awaitable made by a modelled library call."""
    fields = ('op', 'args', 'kwargs')


class ExcV(Val):
    """Exception instance: class path, whether exactly of that class, and
    where it comes from ('user', 'own-cancel', 'op', ...)."""
    fields = ('cls', 'exact', 'origin', 'args')


class Raised(Val):
    fields = ('exc',)


class Unwind(Val):
    """Generator being closed by its consumer (break/return of the loop)."""
    fields = ('payload',)


class NTup(Val):
    """Named tuple instance."""
    fields = ('cls', 'names', 'items')


class Star(Val):
    """*iterable in an argument list."""
    fields = ('v',)


class Stream(Val):
    """Lazy elementwise iterator: elt over elem(base) where all conds hold."""
    fields = ('base', 'elt', 'conds')


class PropV(Val):
    fields = ('fget',)


class StaticV(Val):
    fields = ('fn', 'is_cls')


class SuperV(Val):
    fields = ('cls', 'self')


def subst(v, m):
    """Replace values structurally according to the mapping."""
    if isinstance(v, Val):
        at = v.atoms()
        for k in m:
            if k in at or not isinstance(k, (Sym, Ref)):
                break
        else:
            return v
        r = m.get(v)
        if r is not None:
            return r
        if not v.a:
            return v
        na = tuple(subst(x, m) for x in v.a)
        if all(x is y for x, y in zip(na, v.a)):
            return v
        n = object.__new__(type(v))
        Val.__init__(n, *na)
        return n
    if isinstance(v, tuple):
        n = tuple(subst(x, m) for x in v)
        return v if all(x is y for x, y in zip(n, v)) else n
    if isinstance(v, frozenset):
        return frozenset(subst(x, m) for x in v)
    return v


def mentions(v, target):
    """Whether the Sym or Ref target occurs in the value."""
    return target in _atoms(v)


def walk(v):
    """All values inside of a value."""
    if isinstance(v, Val):
        yield v
        for x in v.a:
            yield from walk(x)
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            yield from walk(x)


class HObj:
    __slots__ = ('kind', 'at', 'h', '_at')

    def __init__(self, kind, at):
        self.kind = kind
        self.at = at
        self.h = None
        self._at = None

    def atoms(self):
        if self._at is None:
            self._at = _atoms(tuple(self.at.values()))
        return self._at

    def __eq__(self, o):
        return self is o or (self.kind == o.kind and self.at == o.at)

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.kind, frozenset(self.at.items())))
        return self.h

    def set(self, **kw):
        d = dict(self.at)
        d.update(kw)
        return HObj(self.kind, d)

    def put(self, k, v):
        d = dict(self.at)
        d[k] = v
        return HObj(self.kind, d)

    def drop(self, k):
        d = dict(self.at)
        d.pop(k, None)
        return HObj(self.kind, d)

    def get(self, k, d=None):
        return self.at.get(k, d)

    def __repr__(self):
        return f"<{self.kind} {self.at}>"


class State:
    __slots__ = ('heap', 'facts', 'mon', 'trace', '_k')

    def __init__(self, heap=None, facts=None, mon=None, trace=None):
        self.heap = heap or {}
        self.facts = facts or {}
        self.mon = mon or {}
        self.trace = trace
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.heap.items()),
                       frozenset(self.facts.items()),
                       frozenset(self.mon.items()))
        return self._k

    # heap
    def obj(self, ref):
        return self.heap[ref.oid]

    def has(self, ref):
        return ref.oid in self.heap

    def with_obj(self, ref, obj):
        h = dict(self.heap)
        h[ref.oid] = obj
        return State(h, self.facts, self.mon, self.trace)

    def upd(self, ref, **kw):
        return self.with_obj(ref, self.heap[ref.oid].set(**kw))

    def without(self, ref):
        h = dict(self.heap)
        h.pop(ref.oid, None)
        return State(h, self.facts, self.mon, self.trace)

    # facts
    def fact(self, k):
        return self.facts.get(k)

    def with_fact(self, k, v):
        f = dict(self.facts)
        f[k] = v
        return State(self.heap, f, self.mon, self.trace)

    def kill(self, pred):
        f = {k: v for k, v in self.facts.items() if not pred(k)}
        if len(f) == len(self.facts):
            return self
        return State(self.heap, f, self.mon, self.trace)

    # monitors
    def m(self, k, d=None):
        return self.mon.get(k, d)

    def with_m(self, k, v):
        if self.mon.get(k, _MISS) == v:
            return self
        m = dict(self.mon)
        m[k] = v
        return State(self.heap, self.facts, m, self.trace)

    def note(self, node, msg):
        return State(self.heap, self.facts, self.mon,
                     (self.trace, getattr(node, 'lineno', 0),
                      getattr(node, '_file', '?'), msg))

    def path(self, limit=60):
        out, t = [], self.trace
        while t is not None and len(out) < limit:
            out.append(f"{t[2]}:{t[1]}: {t[3]}")
            t = t[0]
        return out[::-1]

    def rename(self, old, new):
        """Rename the newest instance of a site to its summary."""
        m = {old: new}
        had = self.mentioned(new) or any(
            new in _atoms(k) for k in self.facts)
        h = {}
        for k, o in self.heap.items():
            if old in o.atoms():
                o = HObj(o.kind, {x: subst(y, m) for x, y in o.at.items()})
            h[k] = o
        if isinstance(old, Ref) and old.oid in h:
            o = h.pop(old.oid)
            if new.oid in h:
                o = _merge(h[new.oid], o)
            h[new.oid] = o
        f = {}
        moved = {}
        for k, x in self.facts.items():
            if old in _atoms(k):
                moved[subst(k, m)] = x
            else:
                f[k] = x
        if had:
            # only what holds for every instance
            f = {k: x for k, x in f.items()
                 if new not in _atoms(k) or moved.get(k) == x}
            moved = {k: x for k, x in moved.items() if f.get(k) == x}
        f.update(moved)
        mo = {subst(k, m): subst(x, m) for k, x in self.mon.items()}
        return State(h, f, mo, self.trace)

    def mentioned(self, target, skip=None):
        for k, o in self.heap.items():
            if k != skip and target in o.atoms():
                return True
        return any(target in _atoms(x) or target in _atoms(k)
                   for k, x in self.mon.items())


_MISS = object()
TOP = Sym('⊤', None)


def _merge(a, b):
    if a == b or a.kind != b.kind:
        return a
    at = {}
    for k in set(a.at) | set(b.at):
        x, y = a.at.get(k), b.at.get(k)
        if x == y:
            at[k] = x
        elif isinstance(x, frozenset) and isinstance(y, frozenset):
            at[k] = x | y
        elif isinstance(x, tuple) or isinstance(y, tuple):
            at[k] = x if y is None else y
        elif isinstance(x, Val) and isinstance(y, Val):
            at[k] = TOP
        else:
            at[k] = x if y is None else (y if x is None else None)
    return HObj(a.kind, at)
