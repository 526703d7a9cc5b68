"""Models of the Python builtins and library calls used by the package."""
import collections
import errno  # noqa: F401  (documentation of the OSError origin)
import itertools
import operator as _op

from values import *
from source import Broken
from engine import (abrupt, sname, is_exc_path, exc_canon, _push, _pair,
                    _addlin, _scale)

MODELS = {}
METHODS = {}
ITER = {}
ITER_KIND = {}
CALL_TERM = {}
INIT = {}
ATTR = {}
GETITEM = {}
SETITEM = {}
DELITEM = {}
TRUTH = {}
CONTAINS = {}
AWAIT = {}
WITH = {}
SYM_ATTR = {}
SYM_ITEM = {}
PURE_PREFIX = ('logging', 'warnings', 'typing', 'typing_extensions', 'abc',
               'traceback', 'sys', 'types', 'textwrap', 'inspect', 'aiuti.typing',
               'collections.abc', 'gc', 'enum')
CONSTS = {
    'asyncio.FIRST_COMPLETED': Const('FIRST_COMPLETED'),
    'asyncio.FIRST_EXCEPTION': Const('FIRST_EXCEPTION'),
    'asyncio.ALL_COMPLETED': Const('ALL_COMPLETED'),
    'concurrent.futures.FIRST_COMPLETED': Const('FIRST_COMPLETED'),
    'sys.version_info': Tup((Const(3), Const(12), Const(3),
                             Const('final'), Const(0))),
    'sys.platform': Const('linux'),
    'os.name': Const('posix'),
    'typing.TYPE_CHECKING': FALSE,
    'math.inf': Const(float('inf')),
}
ALIAS = {
    'asyncio.events.get_running_loop': 'asyncio.get_running_loop',
    'asyncio.tasks.create_task': 'asyncio.create_task',
    'asyncio.events.AbstractEventLoop': 'asyncio.AbstractEventLoop',
    'asyncio.async': 'asyncio.ensure_future',
    'concurrent.futures.thread.ThreadPoolExecutor':
        'concurrent.futures.ThreadPoolExecutor',
    'asyncio.locks.Event': 'asyncio.Event',
    'asyncio.timeouts.timeout': 'asyncio.timeout',
    'weakref.WeakKeyDictionary': 'weakref.WeakKeyDictionary',
    'typing.NamedTuple': 'typing.NamedTuple',
    'itertools.chain.from_iterable': 'itertools.chain.from_iterable',
    'typing.Dict': 'dict', 'typing.List': 'list', 'typing.Set': 'set',
    'typing.Tuple': 'tuple', 'typing.Callable': 'collections.abc.Callable',
    'collections.abc.Iterator': 'typing.Iterator',
    'collections.abc.Iterable': 'typing.Iterable',
    'collections.abc.Mapping': 'typing.Mapping',
    'collections.abc.MutableMapping': 'typing.MutableMapping',
    'collections.abc.Awaitable': 'typing.Awaitable',
    'collections.abc.AsyncIterable': 'typing.AsyncIterable',
    'collections.abc.AsyncIterator': 'typing.AsyncIterator',
    'collections.abc.Coroutine': 'typing.Coroutine',
    'collections.abc.Generator': 'typing.Generator',
    'time.clock': 'time.perf_counter',
}


def model(*paths):
    def d(f):
        for p in paths:
            MODELS[p] = f
        return f
    return d


def meth(kind, *names):
    def d(f):
        for k in ([kind] if isinstance(kind, str) else kind):
            for n in names:
                METHODS[(k, n)] = f
        return f
    return d


def arg(args, kwargs, i, name, default=None):
    if i is not None and i < len(args):
        return args[i]
    for k, v in kwargs:
        if k == name:
            return v
    return default


def const_kw(args, kwargs, i, name, default):
    v = arg(args, kwargs, i, name, Const(default))
    return v.v if isinstance(v, Const) else None


# ---------------------------------------------------------------------------
# typing / decorators

@model('typing.cast')
def _(I, st, a, k, n, f):
    return [(a[1], st)]


@model('typing.overload')
def _(I, st, a, k, n, f):
    return [(Ext('overloaded'), st)]


@model('typing.final', 'typing.no_type_check', 'abc.abstractmethod',
       'typing.runtime_checkable', 'functools.total_ordering',
       'typing.override', 'types.coroutine', 'typing.assert_type',
       'copy.copy')
def _(I, st, a, k, n, f):
    return [(a[0], st)]


@model('typing.TypeVar', 'typing.ParamSpec', 'typing.NewType')
def _(I, st, a, k, n, f):
    return [(Ext('typing.Any'), st)]


@model('functools.wraps')
def _(I, st, a, k, n, f):
    return [(Term('identity', (a[0] if a else NONE,)), st)]


def _call_identity(I, t, a, k, st, n, f):
    # wraps(func)(wrapper): metadata only, but instances get __wrapped__
    return I.h.wrapped(t.args[0], a[0], st) if hasattr(
        I.h, 'wrapped') else [(a[0], st)]


CALL_TERM['identity'] = _call_identity


@model('functools.update_wrapper')
def _(I, st, a, k, n, f):
    return [(a[0], st)]


@model('functools.partial', 'functools.partialmethod')
def _(I, st, a, k, n, f):
    kw = []
    for kk, v in k:
        if kk is None:
            its = I.dict_items(v, st)
            if its is None:
                raise Broken(f"partial with unknown ** at {sname(n)}")
            kw.extend((x.v, y) for x, y in its)
        else:
            kw.append((kk, v))
    pos = []
    for v in a[1:]:
        if isinstance(v, Star):
            its = I.items_of(v.v, st)
            if its is None:
                pos.append(v)
            else:
                pos.extend(its)
        else:
            pos.append(v)
    fn = a[0]
    if isinstance(fn, Partial):
        have = {x for x, _ in kw}
        return [(Partial(fn.fn, fn.args + tuple(pos), tuple(
            x for x in fn.kwargs if x[0] not in have) + tuple(kw)), st)]
    return [(Partial(fn, tuple(pos), tuple(kw)), st)]


@model('contextlib.contextmanager')
def _(I, st, a, k, n, f):
    fn = a[0]
    return [(Func(fn.node, fn.env, fn.defaults, fn.kwdefaults, 'cm'), st)]


@model('contextlib.asynccontextmanager')
def _(I, st, a, k, n, f):
    fn = a[0]
    return [(Func(fn.node, fn.env, fn.defaults, fn.kwdefaults, 'acm'), st)]


@model('contextlib.suppress')
def _(I, st, a, k, n, f):
    return [(Term('suppress', tuple(a)), st)]


@model('contextlib.nullcontext')
def _(I, st, a, k, n, f):
    return [(Term('nullcontext', (a[0] if a else NONE,)), st)]


@model('contextlib.closing', 'contextlib.aclosing')
def _(I, st, a, k, n, f):
    return [(Term('nullcontext', (a[0],)), st)]


def _with_suppress(I, v, st, node, fr, inner, is_async):
    out = []
    for o, x in inner(NONE, st):
        if o[0] == 'exc':
            for yes, y, e in I.match_types(o[1], Tup(v.args), x, node, fr):
                out.append((('next',) if yes else o, y))
        else:
            out.append((o, x))
    return out


WITH['suppress'] = _with_suppress
WITH['nullcontext'] = lambda I, v, st, node, fr, inner, is_async: inner(
    v.args[0], st)


@model('contextlib.ExitStack', 'contextlib.AsyncExitStack')
def _(I, st, a, k, n, f):
    r, st = I.alloc(st, 'exitstack', n, f, cbs=())
    return [(r, st)]


def _stack_push(st, r, *what):
    return st.upd(r, cbs=st.obj(r).get('cbs') + (Tup(what),))


@meth('exitstack', 'callback', 'push_async_callback')
def _(I, r, st, a, k, n, f):
    return [(a[0], _stack_push(st, r, Const('call'), a[0], Tup(tuple(a[1:])),
                               Tup(tuple(Tup((Const(x), v))
                                         for x, v in k))))]


@meth('exitstack', 'push', 'push_async_exit')
def _(I, r, st, a, k, n, f):
    if not (isinstance(a[0], Ref) and st.has(a[0]) and st.obj(
            a[0]).kind == 'inst'):
        raise Broken('push() of something unknown')
    return [(a[0], _stack_push(st, r, Const('exit'), a[0]))]


@meth('exitstack', 'enter_context')
def _(I, r, st, a, k, n, f):
    v = a[0]
    if isinstance(v, Term) and v.op == 'nullcontext':
        return [(v.args[0], st)]
    if isinstance(v, Term) and v.op == 'suppress':
        return [(NONE, _stack_push(st, r, Const('suppress'), v))]
    if isinstance(v, Ref) and st.has(v):
        if st.obj(v).kind == 'lock':
            return I.bind(
                I.h.lock_acquire(v, st, n, TRUE, Const(-1)),
                lambda w, x: [(w, _stack_push(x, r, Const('lock'), v))])
        if st.obj(v).kind == 'inst':
            return I.bind(
                I.call_method(v, '__enter__', [], [], st, n, f),
                lambda w, x: [(w, _stack_push(x, r, Const('exit'), v))])
    raise Broken(f'enter_context() of something unknown at {sname(n)}')


@meth('exitstack', 'pop_all')
def _(I, r, st, a, k, n, f):
    q, st = I.alloc(st, 'exitstack', n, f, cbs=st.obj(r).get('cbs'))
    return [(q, st.upd(r, cbs=()))]


def _unwind(I, r, o, st, n, f):
    """Outcomes of running the callbacks of the stack after outcome o."""
    out, todo = [], [(o, st)]
    while todo:
        o, x = todo.pop()
        cbs = x.obj(r).get('cbs')
        if not cbs:
            out.append((o, x))
            continue
        c = cbs[-1].items
        x = x.upd(r, cbs=cbs[:-1])
        swallow = False
        if c[0] == Const('call'):
            res = I.call(c[1], list(c[2].items), [
                (p.items[0].v, p.items[1]) for p in c[3].items], x, n, f)
            res = I.bind(res, lambda v, y: I.await_(v, y, n, f) if isinstance(
                v, (Coro, ExtCoro)) else [(v, y)])
        elif c[0] == Const('lock'):
            res = I.h.lock_release(c[1], x, n)
        elif c[0] == Const('exit'):
            e = [I.type_of(o[1]), o[1], TOP] if o[0] == 'exc' else [
                NONE, NONE, NONE]
            res = I.call_method(c[1], '__exit__', e, [], x, n, f)
            swallow = True
        else:
            if o[0] != 'exc':
                todo.append((o, x))
                continue
            for yes, y, e in I.match_types(o[1], Tup(c[1].args), x, n, f):
                todo.append((('next',) if yes else o, y))
            continue
        for w, y in res:
            if abrupt(w):
                todo.extend(I.outs([(w, y)]))
            elif swallow and o[0] == 'exc':
                for b, z in I.truth(w, y, n, f):
                    todo.append((('next',) if b else o, z))
            else:
                todo.append((o, y))
    return out


@meth('exitstack', 'close', 'aclose')
def _(I, r, st, a, k, n, f):
    out = []
    for o, x in _unwind(I, r, ('next',), st, n, f):
        out.append((Raised(o[1]) if o[0] == 'exc' else NONE, x))
    return out


def _with_stack(I, v, st, node, fr, inner, is_async):
    out = []
    for o, x in inner(v, st):
        out.extend(_unwind(I, v, o, x, node, fr))
    return out


WITH['kind:exitstack'] = _with_stack


@model('property', 'functools.cached_property', 'abc.abstractproperty')
def _(I, st, a, k, n, f):
    return [(PropV(a[0]), st)]


@meth('PropV', 'setter', 'deleter')
def _(I, r, st, a, k, n, f):
    return [(Term('propset', (r, a[0])), st)]


@model('staticmethod')
def _(I, st, a, k, n, f):
    return [(StaticV(a[0], False), st)]


@model('classmethod')
def _(I, st, a, k, n, f):
    return [(StaticV(a[0], True), st)]


@model('dataclasses.dataclass')
def _(I, st, a, k, n, f):
    if not a:
        return [(Partial(Ext('dataclasses.dataclass'), (), tuple(k)), st)]
    c = a[0]
    st = st.with_obj(c, st.obj(c).put('$dc', True).put(
        '$dcnoeq', ('eq', FALSE) in list(k)))
    return [(c, st)]


@model('dataclasses.field')
def _(I, st, a, k, n, f):
    for kk, v in k:
        if kk == 'default_factory':
            return [(Term('dcfield', (v,)), st)]
    for kk, v in k:
        if kk == 'default':
            return [(v, st)]
    return [(NONE, st)]


@model('collections.namedtuple')
def _(I, st, a, k, n, f):
    fields = a[1]
    if isinstance(fields, Const):
        names = tuple(fields.v.replace(',', ' ').split())
    else:
        names = tuple(x.v for x in I.items_of(fields, st))
    r, st = I.alloc(st, 'class', n, f, 'nt', **{
        '$bases': (), '$name': a[0].v, '$ann': names, '$nt': True,
        'excpath': None})
    return [(r, st)]


@model('super')
def _(I, st, a, k, n, f):
    if a:
        return [(SuperV(a[0], a[1]), st)]
    g = f.func
    while g is not None:
        fn = g.node
        q = getattr(fn, '_qual', '')
        if hasattr(fn, 'args') and fn.args.args and q:
            self_v = st.obj(g.ref).at.get(fn.args.args[0].arg)
            clsname = q.split('.')[-1]
            if isinstance(self_v, Ref) and st.has(self_v):
                c = st.obj(self_v).get('$class')
                for x in I.mro(c, st):
                    if isinstance(x, Ref) and st.obj(x).get(
                            '$name') == clsname:
                        return [(SuperV(x, self_v), st)]
        g = g.up
    raise Broken(f"super() not resolved at {sname(n)}")


@meth(['Ref', 'ext:None'], 'super:__init__')
def _(I, r, st, a, k, n, f):
    return [(NONE, st)]


# ---------------------------------------------------------------------------
# builtins

@model('len')
def _(I, st, a, k, n, f):
    v = a[0]
    its = I.items_of(v, st)
    if isinstance(v, Ref) and st.has(v):
        o = st.obj(v)
        if o.kind == 'inst':
            return I.call_method(v, '__len__', [], [], st, n, f)
        if o.kind in ('list', 'deque') and (
                I.h.opaque_len or any(isinstance(i, Star) for i in its)):
            return [(Term('len', (v,)), st)]
        if o.kind == 'dict' and not o.get('open') and not o.get('maybe'):
            return [(Const(len(o.get('ent'))), st)]
        if its is None:
            return [(Term('len', (v,)), st)]
    if its is not None and not any(isinstance(i, Star) for i in its):
        return [(Const(len(its)), st)]
    return [(Term('len', (v,)), st)]


_KIND_TYPES = {
    'str': {'str'}, 'tuple': {'tuple'}, 'dict': {'dict', 'typing.Mapping',
                                               'typing.MutableMapping'},
    'list': {'list'}, 'num': {'float', 'int'}, 'num+': {'float', 'int'},
    'num0+': {'float', 'int'}, 'bool': {'bool', 'int'},
}
_HEAP_TYPES = {
    'list': {'list', 'typing.Iterable', 'typing.Sequence',
             'typing.Collection', 'typing.Sized'},
    'dict': {'dict', 'typing.Mapping', 'typing.MutableMapping',
             'typing.Iterable'},
    'set': {'set', 'typing.Iterable', 'typing.Set', 'typing.Collection'},
    'deque': {'collections.deque', 'typing.Iterable'},
    'iterator': {'typing.Iterable', 'typing.Iterator'},
    'lazy': {'typing.Iterable', 'typing.Iterator'},
    'srciter': {'typing.Iterable', 'typing.Iterator'},
    'source': {'typing.Iterable'},
    'fut': {'asyncio.Future', 'typing.Awaitable'},
    'cfut': {'concurrent.futures.Future'},
}


def isinst(I, v, c, st):
    """True / False / None"""
    p = c.path if isinstance(c, Ext) else None
    if p == 'object':
        return True
    if isinstance(v, ExcV):
        if p is None:
            return I.h.isinst(v, p, c, st) if isinstance(
                c, (Sym, Term)) and hasattr(I.h, 'isinst') else False
        if is_exc_path(p):
            return I.exc_match(v, p)
        return False
    if isinstance(v, NTup):
        return p == 'tuple' or v.cls == c
    if isinstance(v, Const):
        return isinstance(v.v, _PYT[p]) if p in _PYT else False
    if isinstance(v, Tup):
        return p in ('tuple', 'typing.Iterable', 'typing.Sequence',
                     'typing.Collection', 'typing.Hashable')
    if isinstance(v, Ref) and st.has(v):
        o = st.obj(v)
        if o.kind == 'inst':
            m = I.mro(o.get('$class'), st)
            if c in m:
                return True
            return False if isinstance(c, Ref) or p in _PYT else None
        if o.kind in _HEAP_TYPES and p is not None:
            return p in _HEAP_TYPES[o.kind]
        return None
    if isinstance(v, GenV):
        return p in ('typing.Iterator', 'typing.Iterable',
                     'typing.Generator') if not v.is_async else p in (
            'typing.AsyncIterator', 'typing.AsyncIterable')
    if isinstance(v, Coro):
        return p in ('typing.Coroutine', 'typing.Awaitable')
    if isinstance(v, (Func, Partial, Bound)):
        return p in ('collections.abc.Callable', 'typing.Callable')
    if isinstance(v, Sym):
        r = I.h.isinst(v, p, c, st) if hasattr(I.h, 'isinst') else None
        if r is not None:
            return r
        if v.kind in _KIND_TYPES and p in _PYT:
            return p in _KIND_TYPES[v.kind]
        if v.kind in _KIND_TYPES and p and is_exc_path(p):
            return False
    if isinstance(v, Term) and v.op in ('fstr', 'str', 'strcat', 'repr',
                                        'joined', 'substr'):
        return p == 'str'
    return None


_PYT = {'str': str, 'int': int, 'float': float, 'bool': bool, 'tuple': tuple,
        'list': list, 'dict': dict, 'set': set, 'bytes': bytes,
        'frozenset': frozenset, 'NoneType': type(None)}


@model('isinstance')
def _(I, st, a, k, n, f):
    v, c = a
    types = list(c.items) if isinstance(c, Tup) else [c]
    if isinstance(c, Term) and c.op == 'BitOr':
        types = list(c.args)
    unknown = []
    for t in types:
        r = isinst(I, v, t, st)
        if r is True:
            return [(TRUE, st)]
        if r is None:
            unknown.append(t)
    if not unknown:
        return [(FALSE, st)]
    if isinstance(v, ExcV):
        ps = tuple(Const(exc_canon(u.path)) if isinstance(u, Ext) else u
                   for u in unknown)
        return [(Const(b), x) for b, x in I.branch(
            Term('excis', (v, Tup(ps))), st)]
    t = Term('isinstance', (v, Tup(tuple(unknown))))
    return [(Const(b), x) for b, x in I.branch(t, st)]


@model('issubclass')
def _(I, st, a, k, n, f):
    if isinstance(a[0], Term) and a[0].op == 'type':
        return MODELS['isinstance'](I, st, [a[0].args[0], a[1]], k, n, f)
    if isinstance(a[0], Ext) and isinstance(a[1], Ext) and is_exc_path(
            a[0].path):
        return [(Const(exc_canon(a[1].path) in I.exc_mro(a[0].path)), st)]
    return [(Term('pred', (Const('issubclass'),) + tuple(a)), st)]


@model('callable')
def _(I, st, a, k, n, f):
    v = a[0]
    if isinstance(v, (Func, Bound, Partial, Ext)):
        return [(TRUE, st)]
    if isinstance(v, Ref) and st.has(v) and st.obj(v).kind in (
            'list', 'dict', 'set', 'deque', 'lazy', 'iterator', 'source',
            'srciter'):
        return [(FALSE, st)]
    if isinstance(v, Sym) and v.kind in ('callable', 'userfunc'):
        return [(TRUE, st)]
    if isinstance(v, Sym) and v.kind in ('iter', 'iterable', 'list', 'str',
                                         'num', 'tuple'):
        return [(FALSE, st)]
    if isinstance(v, (Tup, Const)):
        return [(FALSE, st)]
    return [(Term('pred', (Const('callable'), v)), st)]


@model('type')
def _(I, st, a, k, n, f):
    v = a[0]
    if isinstance(v, Ref) and st.has(v) and st.obj(v).kind == 'inst':
        return [(st.obj(v).get('$class'), st)]
    return [(I.type_of(v), st)]


@model('id')
def _(I, st, a, k, n, f):
    return [(Term('id', (a[0],)), st)]


@model('hash')
def _(I, st, a, k, n, f):
    return [(Term('hash', (a[0],)), st)]


@model('str', 'repr', 'ascii', 'format')
def _(I, st, a, k, n, f):
    if not a:
        return [(Const(''), st)]
    v = a[0]
    if isinstance(v, Const) and isinstance(v.v, str):
        return [(v, st)]
    if isinstance(v, Const):
        return [(Const(str(v.v)), st)]
    if isinstance(v, Sym) and v.kind == 'str':
        return [(v, st)]
    return [(Term('str', (v,)), st)]


@model('int')
def _(I, st, a, k, n, f):
    if all(isinstance(x, Const) for x in a):
        try:
            return [(Const(int(*(x.v for x in a))), st)]
        except Exception as e:
            return [(I.exc(type(e).__name__, n), st)]
    return [(Term('int', tuple(a)), st)]


@model('float')
def _(I, st, a, k, n, f):
    if all(isinstance(x, Const) for x in a):
        try:
            return [(Const(float(*(x.v for x in a))), st)]
        except Exception as e:
            return [(I.exc(type(e).__name__, n), st)]
    if a and isinstance(a[0], Sym) and (a[0].kind or '').startswith('num'):
        return [(a[0], st)]
    return [(Term('float', tuple(a)), st)]


@model('bool')
def _(I, st, a, k, n, f):
    if not a:
        return [(FALSE, st)]
    return [(Const(b), x) for b, x in I.truth(a[0], st, n, f)]


@model('operator.not_')
def _(I, st, a, k, n, f):
    return [(Const(not b), x) for b, x in I.truth(a[0], st, n, f)]


@model('operator.truth')
def _(I, st, a, k, n, f):
    return [(Const(b), x) for b, x in I.truth(a[0], st, n, f)]


def _opmodel(name, op):
    def m(I, st, a, k, n, f):
        if op in ('Eq', 'NotEq', 'Is', 'IsNot', 'Lt', 'Gt', 'LtE', 'GtE',
                  'In'):
            return [(b if isinstance(b, Val) else Const(b), x)
                    for b, x in I.compare(op, a[0], a[1], st, n, f)]
        return I.binop(op, a[0], a[1], st, n, f)
    MODELS['operator.' + name] = m


for _n, _o in (('eq', 'Eq'), ('ne', 'NotEq'), ('is_', 'Is'),
               ('is_not', 'IsNot'), ('lt', 'Lt'), ('gt', 'Gt'),
               ('le', 'LtE'), ('ge', 'GtE'), ('add', 'Add'), ('sub', 'Sub'),
               ('or_', 'BitOr'), ('and_', 'BitAnd')):
    _opmodel(_n, _o)


@model('operator.itemgetter')
def _(I, st, a, k, n, f):
    return [(Term('itemgetter', tuple(a)), st)]


def _call_itemgetter(I, t, a, k, st, n, f):
    if len(t.args) == 1:
        return I.get_item(a[0], t.args[0], st, n, f)
    res = [(Tup(()), st)]
    for i in t.args:
        res = I.bind(res, lambda v, x, i=i: I.bind(
            I.get_item(a[0], i, x, n, f),
            lambda w, y, v=v: [(Tup(v.items + (w,)), y)]))
    return res


CALL_TERM['itemgetter'] = _call_itemgetter


@model('operator.attrgetter', 'operator.methodcaller')
def _(I, st, a, k, n, f):
    return [(Term('attrgetter', tuple(a)), st)]


CALL_TERM['attrgetter'] = lambda I, t, a, k, st, n, f: I.get_attr(
    a[0], t.args[0].v, st, n, f)


@model('getattr')
def _(I, st, a, k, n, f):
    if not isinstance(a[1], Const):
        return [(Term('attr', (a[0], a[1])), st)]
    out = []
    for v, x in I.get_attr(a[0], a[1].v, st, n, f):
        if isinstance(v, Raised) and v.exc.cls == 'AttributeError' and len(
                a) > 2:
            out.append((a[2], x))
        else:
            out.append((v, x))
    return out


@model('setattr')
def _(I, st, a, k, n, f):
    if isinstance(a[1], Const):
        return I.set_attr(a[0], a[1].v, a[2], st, n, f)
    return [(NONE, st)]


def known_kind(k):
    import engine
    return k in engine._BUILTIN


@model('hasattr')
def _(I, st, a, k, n, f):
    v, name = a
    r = None
    if isinstance(name, Const):
        if isinstance(v, Ref) and st.has(v) and (
                st.obj(v).kind == 'inst' or known_kind(st.obj(v).kind)) or \
                isinstance(v, (Tup, Const)):
            r = I.get_attr(v, name.v, st, n, f)
        else:
            r = I.h.get_attr(v, name.v, st, n, f)
    if r is not None:
        return [(Const(not abrupt(w)), x) for w, x in r]
    return [(Term('pred', (Const('hasattr'), v, name)), st)]


@model('print', 'logging.warning', 'logging.error', 'logging.info',
       'logging.debug', 'logging.exception', 'logging.critical',
       'logging.log')
def _(I, st, a, k, n, f):
    return [(NONE, st)]


@model('logging.getLogger')
def _(I, st, a, k, n, f):
    return [(Sym('logger', 'logger'), st)]


@meth('sym:logger', '*')
def _(I, r, name, st, a, k, n, f):
    if name == 'isEnabledFor':
        return [(Term('pred', (Const('log'), a[0])), st)]
    return [(NONE, st)]


@model('object')
def _(I, st, a, k, n, f):
    r, st = I.alloc(st, 'object', n, f)
    return [(r, st)]


@model('iter')
def _(I, st, a, k, n, f):
    if I.streams:
        if len(a) == 2:
            return I.sm.build(I, 'callsentinel', a, k, st, n, f)
        return I.sm.iter_of(I, a[0], st, n, f)
    if len(a) == 2:
        return [(Term('callsentinel', tuple(a)), st)]
    v = a[0]
    if isinstance(v, Ref) and st.has(v):
        its = I.items_of(v, st)
        if its is not None or st.obj(v).kind in ('set', 'dict'):
            r, st = I.alloc(st, 'iterator', n, f, src=v, pos=0)
            return [(r, st)]
    if isinstance(v, Tup):
        r, st = I.alloc(st, 'iterator', n, f, src=v, pos=0)
        return [(r, st)]
    return [(v, st)]


def _iter_callsentinel(I, t, st, node, fr, body, is_async):
    fn, sent = t.args

    def step(x):
        res = []
        for v, y in I.call(fn, [], [], x, node, fr):
            if isinstance(v, Raised):
                if v.exc.cls == 'StopIteration':
                    res.append((('next',), y))
                else:
                    res.append((('exc', v.exc), y))
                continue
            for eq, z in I.equal(v, sent, y, node, fr):
                if eq:
                    res.append((('next',), z))
                else:
                    for o, w in body(v, z):
                        res.append(('again' if o[0] == 'next' else o, w))
        return res
    return I.loop(st, step, node)


ITER['callsentinel'] = _iter_callsentinel


def _iter_iterator(I, it, st, node, fr, body, is_async):
    """Iterating an explicit iterator object continues where it stopped."""
    o = st.obj(it)
    items = I.items_of(o.get('src'), st)
    if items is None or any(isinstance(i, Star) for i in items):
        return I.for_each(o.get('src'), st, node, fr, body, is_async)
    outs = [(('next',), st)]
    for i in range(o.get('pos'), len(items)):
        nxt = []
        for c, x in outs:
            if c[0] != 'next':
                nxt.append((c, x))
            else:
                nxt.extend(body(items[i], x.upd(it, pos=i + 1)))
        outs = nxt
    return outs


ITER_KIND['iterator'] = _iter_iterator


@model('next')
def _(I, st, a, k, n, f):
    it = a[0]
    if I.streams:
        return I.sm.next_call(I, a, st, n, f)
    r = I.h.next_call(it, a, st, n, f) if hasattr(I.h, 'next_call') else None
    if r is not None:
        return r
    if isinstance(it, Ref) and st.has(it):
        o = st.obj(it)
        if o.kind == 'iterator':
            items = I.items_of(o.get('src'), st)
            if items is not None and not any(
                    isinstance(i, Star) for i in items):
                p = o.get('pos')
                if p < len(items):
                    return [(items[p], st.upd(it, pos=p + 1))]
                return [(a[1] if len(a) > 1 else I.exc('StopIteration', n),
                         st)]
        if o.kind == 'inst':
            return I.call_method(it, '__next__', [], [], st, n, f)
    if isinstance(it, (GenV, Term)):
        # first element only
        def body(v, x):
            return [(('ret', v), x)]
        out = []
        for o, x in I.for_each(it, st, n, f, body):
            if o[0] == 'ret':
                out.append((o[1], x))
            elif o[0] == 'next':
                out.append((a[1] if len(a) > 1 else
                            I.exc('StopIteration', n), x))
            else:
                out.extend(I.to_val([(o, x)]))
        return out
    out = []
    for ctl, v, x in I.h.next_elem(it, st, n, f, False):
        if ctl == 'elem':
            out.append((v, x))
        elif ctl == 'exc':
            out.append((Raised(v), x))
        else:
            out.append((a[1] if len(a) > 1 else I.exc('StopIteration', n), x))
    return out


@model('aiter')
def _(I, st, a, k, n, f):
    return [(a[0], st)]


@model('anext')
def _(I, st, a, k, n, f):
    return [(ExtCoro('anext', tuple(a), ()), st)]


def _await_anext(I, v, st, n, f):
    out = []
    if isinstance(v.args[0], GenV):
        # first element only
        for o, x in I.for_each(v.args[0], st, n, f, lambda e, x: [
                (('ret', e), x)], True):
            if o[0] == 'ret':
                out.append((o[1], x))
            elif o[0] == 'next':
                out.append((v.args[1] if len(v.args) > 1 else
                            I.exc('StopAsyncIteration', n), x))
            else:
                out.extend(I.to_val([(o, x)]))
        return out
    for ctl, e, x in I.h.next_elem(v.args[0], st, n, f, True):
        if ctl == 'elem':
            out.append((e, x))
        elif ctl == 'exc':
            out.append((Raised(e), x))
        else:
            out.append((v.args[1] if len(v.args) > 1 else
                        I.exc('StopAsyncIteration', n), x))
    return out


AWAIT['anext'] = _await_anext
METHODS[('GenV', '__anext__')] = lambda I, r, st, a, k, n, f: [
    (ExtCoro('anext', (r,), ()), st)]
METHODS[('GenV', '__aiter__')] = lambda I, r, st, a, k, n, f: [(r, st)]
METHODS[('GenV', '__iter__')] = METHODS[('GenV', '__aiter__')]
METHODS[('GenV', 'aclose')] = lambda I, r, st, a, k, n, f: [
    (ExtCoro('sleep', (Const(0),), ()), st)]
METHODS[('GenV', 'close')] = lambda I, r, st, a, k, n, f: [(NONE, st)]
METHODS[('sym:aiter', '__anext__')] = lambda I, r, st, a, k, n, f: [
    (ExtCoro('anext', (r,), ()), st)]
METHODS[('sym:aiter', '__aiter__')] = lambda I, r, st, a, k, n, f: [(r, st)]


def _lazy(op):
    def m(I, st, a, k, n, f):
        if I.streams:
            return I.sm.build(I, op, a, k, st, n, f)
        return [(Term(op, tuple(a) + tuple(
            Tup((Const(x), v)) for x, v in k)), st)]
    return m


for _p, _o in (('map', 'map'), ('filter', 'filter'), ('zip', 'zip'),
               ('enumerate', 'enumerate'), ('itertools.islice', 'islice'),
               ('itertools.chain', 'chain'),
               ('itertools.chain.from_iterable', 'chainiter'),
               ('itertools.compress', 'compress'),
               ('itertools.filterfalse', 'filterfalse'),
               ('itertools.starmap', 'starmap'),
               ('itertools.takewhile', 'takewhile'),
               ('itertools.repeat', 'repeat'),
               ('itertools.count', 'count')):
    MODELS[_p] = _lazy(_o)


def _machine(op):
    def m(I, st, a, k, n, f):
        if I.streams:
            return I.sm.build(I, op, a, k, st, n, f)
        return I.h.call_unknown('itertools.' + op, a, k, st, n, f)
    return m


for _o in ('dropwhile', 'cycle', 'zip_longest'):
    MODELS['itertools.' + _o] = _machine(_o)


@model('itertools.tee')
def _(I, st, a, k, n, f):
    if I.streams:
        return I.sm.tee(I, a, k, st, n, f)
    return I.h.call_unknown('itertools.tee', a, k, st, n, f)


def _iter_map(I, t, st, node, fr, body, is_async):
    fn = t.args[0]
    if len(t.args) == 2:
        return I.for_each(
            t.args[1], st, node, fr,
            lambda e, x: I.outs(I.call(fn, [e], [], x, node, fr), body))
    return I.for_each(
        Term('zip', t.args[1:]), st, node, fr,
        lambda e, x: I.outs(I.call(fn, list(e.items), [], x, node, fr), body))


ITER['map'] = _iter_map


def _iter_starmap(I, t, st, node, fr, body, is_async):
    fn = t.args[0]
    return I.for_each(
        t.args[1], st, node, fr,
        lambda e, x: I.outs(I.call(fn, [Star(e)], [], x, node, fr), body))


ITER['starmap'] = _iter_starmap


def _iter_filter(I, t, st, node, fr, body, is_async):
    fn, it = t.args
    want = t.op == 'filter'

    def b(e, x):
        res = []
        r = [(e, x)] if fn == NONE else I.call(fn, [e], [], x, node, fr)
        for v, y in r:
            if abrupt(v):
                res.extend(I.outs([(v, y)]))
                continue
            for c, z in I.truth(v, y, node, fr):
                if c == want:
                    res.extend(body(e, z))
                else:
                    res.append((('next',), z))
        return res
    return I.for_each(it, st, node, fr, b)


ITER['filter'] = ITER['filterfalse'] = _iter_filter


def _iter_chain(I, t, st, node, fr, body, is_async):
    outs = [(('next',), st)]
    for it in t.args:
        nxt = []
        for o, x in outs:
            nxt.extend(I.for_each(it, x, node, fr, body)
                       if o[0] == 'next' else [(o, x)])
        outs = nxt
    return outs


ITER['chain'] = _iter_chain
ITER['chainiter'] = lambda I, t, st, node, fr, body, a: I.for_each(
    t.args[0], st, node, fr,
    lambda e, x: I.for_each(e, x, node, fr, body))


def _iter_enumerate(I, t, st, node, fr, body, is_async):
    its = I.items_of(t.args[0], st)
    if its is not None and not any(isinstance(i, Star) for i in its):
        return I._each_items(tuple(Tup((Const(i), v))
                                   for i, v in enumerate(its)), st, node,
                             body)
    c = [0]

    def b(e, x):
        s, x = I.fresh(x, node, fr, 'index', 'num0+')
        return body(Tup((s, e)), x)
    return I.for_each(t.args[0], st, node, fr, b)


ITER['enumerate'] = _iter_enumerate


def _iter_islice(I, t, st, node, fr, body, is_async):
    lim = t.args[1] if len(t.args) == 2 else None

    def step_body(e, x):
        return body(e, x)
    outs = []
    if isinstance(lim, Const) and lim.v == 0:
        return [(('next',), st)]
    # stops at the limit: after any element
    def b(e, x):
        res = []
        for o, y in body(e, x):
            res.append((o, y))
            if o[0] == 'next':
                res.append((('islice-end',), y))
        return res
    for o, x in I.for_each(t.args[0], st, node, fr, b):
        outs.append((('next',) if o[0] == 'islice-end' else o, x))
    if not (isinstance(lim, Const)):
        outs.append((('next',), st))
    return I.dedupe(outs)


ITER['islice'] = _iter_islice


def _iter_zip(I, t, st, node, fr, body, is_async):
    its = []
    for a in t.args:
        if isinstance(a, Tup) and len(a.items) == 2 and a.items[0] == Const(
                'strict'):
            continue
        its.append(a)
    seqs = [I.items_of(a, st) for a in its]
    if all(s is not None and not any(isinstance(i, Star) for i in s)
           for s in seqs) and its:
        return I._each_items(tuple(Tup(z) for z in zip(*seqs)), st, node,
                             body)
    r = I.h.zip_each(its, st, node, fr, body) if hasattr(
        I.h, 'zip_each') else None
    if r is not None:
        return r

    # element-wise: unknown number of steps
    def go(i, vals, x):
        if i == len(its):
            return body(Tup(tuple(vals)), x)
        return I.for_each(its[i], x, node, fr,
                          lambda e, y: go(i + 1, vals + [e], y))

    def step(x):
        res = [(('next',), x)]
        def one(vals, i, y):
            if i == len(its):
                for o, z in body(Tup(tuple(vals)), y):
                    res.append(('again' if o[0] == 'next' else o, z))
                return
            s = I.items_of(its[i], y)
            if s is not None:
                for e in dict.fromkeys(
                        v.v if isinstance(v, Star) else v for v in s):
                    one(vals + [e], i + 1, y)
                return
            for ctl, e, z in I.h.next_elem(its[i], y, node, fr, False):
                if ctl == 'elem':
                    one(vals + [e], i + 1, z)
                elif ctl == 'exc':
                    res.append((('exc', e), z))
        one([], 0, x)
        return res
    return I.loop(st, step, node)


ITER['zip'] = _iter_zip


def _iter_compress(I, t, st, node, fr, body, is_async):
    def b(e, x):
        res = []
        for c, y in I.truth(e.items[1], x, node, fr):
            res.extend(body(e.items[0], y) if c else [(('next',), y)])
        return res
    return I.for_each(Term('zip', t.args), st, node, fr, b)


ITER['compress'] = _iter_compress


@model('range')
def _(I, st, a, k, n, f):
    if all(isinstance(x, Const) for x in a):
        r = range(*[x.v for x in a])
        if len(r) <= 64:
            return [(Tup(tuple(Const(i) for i in r)), st)]
    return [(Term('range', tuple(a)), st)]


def _iter_range(I, t, st, node, fr, body, is_async):
    def step(x):
        res = [(('next',), x)] if t.op == 'range' else []
        s, y = I.fresh(x, node, fr, 'range', 'num0+')
        for o, z in body(s, y):
            res.append(('again' if o[0] == 'next' else o, z))
        return res
    return I.loop(st, step, node)


ITER['range'] = _iter_range
ITER['count'] = _iter_range


def _iter_repeat(I, t, st, node, fr, body, is_async):
    def step(x):
        res = [(('next',), x)] if len(t.args) > 1 else []
        for o, z in body(t.args[0], x):
            res.append(('again' if o[0] == 'next' else o, z))
        return res
    return I.loop(st, step, node)


ITER['repeat'] = _iter_repeat


@model('list')
def _(I, st, a, k, n, f):
    if not a:
        r, st = I.alloc(st, 'list', n, f, items=())
        return [(r, st)]
    return I.to_list(a[0], st, n, f)


@model('tuple')
def _(I, st, a, k, n, f):
    if not a:
        return [(Tup(()), st)]
    v = a[0]
    if isinstance(v, Tup):
        return [(v, st)]
    if I.is_tuple(v, st):
        return [(v, st)]
    sy = I.symiter(v, st, n, f)
    if sy is not None:
        return [(Term('tuple', (sy,)), st)]
    if isinstance(v, Sym) or (isinstance(v, Term) and v.op not in ITER) or (
            isinstance(v, Term) and _symbolic(v)) or _sym_list(I, v, st):
        return [(Term('tuple', (v,)), st)]

    def k2(r, x):
        its = x.obj(r).get('items')
        if any(isinstance(i, Star) for i in its):
            return [(Term('tuple', tuple(its)), x.without(r))]
        return [(Tup(its), x.without(r))]
    return I.bind(I.to_list(v, st, n, f), k2)


def _symbolic(t):
    """Lazy term over a symbolic source (kept as a term)."""
    return any(isinstance(x, Sym) for x in t.args) and t.op in (
        'items', 'keys', 'values', 'sorted', 'chain', 'elem')


def _sym_list(I, v, st):
    return isinstance(v, Ref) and st.has(v) and st.obj(v).kind == 'symlist'


@model('set', 'frozenset')
def _(I, st, a, k, n, f):
    return _mkset(I, st, a, n, f, False)


def _mkset(I, st, a, n, f, frozen):
    if not a:
        r, st = I.alloc(st, 'set', n, f, items=frozenset())
        return [(r, st)]
    v = a[0]
    sy = I.symiter(v, st, n, f)
    if sy is not None and frozen:
        return [(Term('frozenset', (sy,)), st)]
    if isinstance(v, Sym) or (isinstance(v, Term) and _symbolic(v)):
        if frozen:
            return [(Term('frozenset', (v,)), st)]
        r, st = I.alloc(st, 'set', n, f, items=frozenset((
            Star(I.elem_of(v)),)))
        return [(r, st)]

    def k2(r, x):
        its = x.obj(r).get('items')
        x = x.without(r)
        if frozen and not any(isinstance(i, Star) for i in its) and not any(
                isinstance(i, Ref) for i in its):
            return [(Term('frozenset', tuple(sorted(its, key=repr))), x)]
        if frozen:
            return [(Term('frozenset', tuple(its)), x)]
        s, x = I.alloc(x, 'set', n, f, items=frozenset(its))
        return [(s, x)]
    return I.bind(I.to_list(v, st, n, f), k2)


MODELS['frozenset'] = lambda I, st, a, k, n, f: [
    (Term('frozenset', ()), st)] if not a else _mkset(I, st, a, n, f, True)


def _orders(its, k=()):
    """What sorting may give."""
    if not k and all(isinstance(i, Const) and type(i.v) is int for i in its):
        return [tuple(sorted(its, key=lambda c: c.v))]
    return list(dict.fromkeys(itertools.permutations(its)))


@model('sorted')
def _(I, st, a, k, n, f):
    v = a[0]
    sy = I.symiter(v, st, n, f)
    if sy is not None:
        v = sy
    if isinstance(v, Sym) or (isinstance(v, Term) and _symbolic(v)):
        return [(Term('sorted', (v,) + tuple(
            Tup((Const(x), y)) for x, y in k)), st)]

    def k2(r, x):
        its = x.obj(r).get('items')
        if getattr(I.h, 'machine', False) and len(its) <= 4 and not any(
                isinstance(i, Star) for i in its):
            return [(r, x.upd(r, items=p)) for p in _orders(its, k)]
        return [(r, x.upd(r, items=tuple(
            i if isinstance(i, Star) else Star(i) for i in its)
            if len(its) > 1 else its))]
    return I.bind(I.to_list(v, st, n, f), k2)


@model('reversed')
def _(I, st, a, k, n, f):
    its = I.items_of(a[0], st)
    if its is not None:
        return [(Tup(tuple(reversed(its))), st)] if not any(
            isinstance(i, Star) for i in its) else [(a[0], st)]
    return [(Term('reversed', (a[0],)), st)]


def _minmax(name):
    def m(I, st, a, k, n, f):
        return _minmax1(name, I, st, a, k, n, f)
    MODELS[name] = m


_minmax('min')
_minmax('max')


def _minmax1(name, I, st, a, k, n, f):
    if len(a) >= 2 and not k:
        if all(isinstance(x, Const) for x in a):
            return [(Const((min if name == 'min' else max)(
                x.v for x in a)), st)]
        if len(a) == 2 and name in ('min', 'max'):
            out = []
            for b, x in I.compare('Lt', a[0], a[1], st, n, f):
                if abrupt(b):
                    out.append((b, x))
                else:
                    bs = [(b, x)] if not isinstance(b, Val) else I.truth(
                        b, x, n, f)
                    for bb, y in bs:
                        out.append((a[0] if bb == (name == 'min') else a[1],
                                    y))
            return out
    return [(Term(name, tuple(a)), st)]


@model('sum')
def _(I, st, a, k, n, f):
    if I.streams or isinstance(a[0], GenV):
        v = Term('sum', tuple(a))
        return I.to_val(I.for_each(a[0], st, n, f,
                                   lambda e, x: [(('next',), x)]), v)
    return [(Term('sum', tuple(a)), st)]


@model('abs', 'round', 'divmod', 'pow', 'ord', 'chr', 'vars', 'dir',
       'slice', 'memoryview', 'bytes', 'bytearray')
def _(I, st, a, k, n, f):
    return [(Term('builtin', tuple(a)), st)]


MODELS['any'] = lambda I, st, a, k, n, f: _anyall(True, I, st, a, n, f)
MODELS['all'] = lambda I, st, a, k, n, f: _anyall(False, I, st, a, n, f)


def _anyall(isany, I, st, a, n, f):

    def body(v, x):
        return [(('ret', Const(isany)) if b == isany else ('next',), y)
                for b, y in I.truth(v, x, n, f)]
    return I.to_val(I.for_each(a[0], st, n, f, body), Const(not isany))


@model('functools.reduce')
def _(I, st, a, k, n, f):
    return I.h.call_opaque(Ext('functools.reduce'), a, k, st, n, f)


@model('__import__', 'importlib.import_module')
def _(I, st, a, k, n, f):
    if isinstance(a[0], Const):
        name = a[0].v
        absent = 'msvcrt' if I.h.platform == 'unix' else 'fcntl'
        if name == absent:
            return [(I.exc('ImportError', n), st)]
        return [(Ext(name), st)]
    return [(I.exc('ImportError', n), st)]


# ---------------------------------------------------------------------------
# lists / deques

LISTS = ['list', 'deque']


def _list_touch(I, r, st):
    return st.kill(lambda t: mentions(t, Term('len', (r,)).args[0])
                   and _mentions_len(t, r))


def _mentions_len(t, r):
    return any(isinstance(x, Term) and x.op in ('len', 'pred', 'nonempty')
               and r in x.atoms() for x in walk(t))


@meth(LISTS, 'append')
def _(I, r, st, a, k, n, f):
    st = I.h.on_list('append', r, a[0], st, n)
    st = I.list_add(r, a[0], st)
    return [(NONE, _list_touch(I, r, st))]


@meth(LISTS, 'appendleft')
def _(I, r, st, a, k, n, f):
    st = I.h.on_list('appendleft', r, a[0], st, n)
    its = st.obj(r).get('items')
    m = st.obj(r).get('maxlen')
    its = (a[0],) + its
    if m is not None:
        its = its[:m]
    return [(NONE, _list_touch(I, r, st.upd(r, items=its)))]


@meth(LISTS, 'insert')
def _(I, r, st, a, k, n, f):
    st = I.h.on_list('insert', r, a[1], st, n)
    its = st.obj(r).get('items')
    if a[0] == Const(0):
        its = (a[1],) + its
    else:
        its = its + (a[1],)
    return [(NONE, _list_touch(I, r, st.upd(r, items=its)))]


@meth(LISTS, 'extend')
def _(I, r, st, a, k, n, f):
    st = I.h.on_list('extend', r, a[0], st, n)

    def body(v, x):
        x = I.h.on_list('extend-item', r, v, x, n)
        return [(('next',), _list_touch(I, r, I.list_add(r, v, x)))]
    return I.to_val(I.for_each(a[0], st, n, f, body))


@meth(LISTS, 'clear')
def _(I, r, st, a, k, n, f):
    st = I.h.on_list('clear', r, NONE, st, n)
    return [(NONE, _list_touch(I, r, st.upd(r, items=())))]


@meth(LISTS, 'copy')
def _(I, r, st, a, k, n, f):
    o = st.obj(r)
    s, st = I.alloc(st, o.kind, n, f, items=o.get('items'))
    return [(s, st)]


@meth(LISTS, 'popleft')
def _(I, r, st, a, k, n, f):
    return METHODS[('list', 'pop')](I, r, st, [Const(0)], k, n, f)


@meth(LISTS, 'pop')
def _(I, r, st, a, k, n, f):
    name = 'pop'
    its = st.obj(r).get('items')
    first = name == 'popleft' or (a and a[0] == Const(0))
    out = []
    if not its:
        return [(I.exc('IndexError', n), st)]
    order = list(its) if first else list(its)[::-1]
    # leading Stars may be empty
    i = 0
    for i, v in enumerate(order):
        rest = order[i + 1:]
        if isinstance(v, Star):
            rr = [v] + rest
            out.append((v.v, rr))
        else:
            out.append((v, rest))
            break
    else:
        out.append((None, []))
    res = []
    for v, rest in out:
        new = tuple(rest if first else rest[::-1])
        x = _list_touch(I, r, st.upd(r, items=new))
        if v is None:
            res.append((I.exc('IndexError', n), x))
        else:
            res.append((v, I.h.on_list('pop', r, v, x, n)))
    return res


@meth(LISTS, 'remove')
def _(I, r, st, a, k, n, f):
    its = st.obj(r).get('items')
    if a[0] in its:
        j = its.index(a[0])
        return [(NONE, _list_touch(I, r, st.upd(
            r, items=its[:j] + its[j + 1:])))]
    return [(NONE, st), (I.exc('ValueError', n), st)]


@meth(LISTS, 'sort', 'reverse', 'rotate')
def _(I, r, st, a, k, n, f):
    st = I.h.on_list('reorder', r, NONE, st, n)
    its = st.obj(r).get('items')
    if getattr(I.h, 'machine', False) and not any(
            isinstance(i, Star) for i in its):
        how = _mname(n, '')
        if how == 'reverse':
            return [(NONE, st.upd(r, items=tuple(reversed(its))))]
        if how == 'sort' and len(its) <= 4:
            return [(NONE, st.upd(r, items=p)) for p in _orders(its, k)]
        if how == 'rotate' and all(isinstance(v, Const) for v in a):
            d = collections.deque(its)
            d.rotate(*[v.v for v in a])
            return [(NONE, st.upd(r, items=tuple(d)))]
    sy = I.symiter(r, st, n, f)
    if sy is not None:
        its = st.obj(r).get('items')
        st = st.upd(r, sym=Tup((Tup(its), Term('sorted', (sy,) + tuple(
            Tup((Const(x), y)) for x, y in k))))) if _mname(
                n, '') == 'sort' else st.upd(r, sym=None)
    return [(NONE, st)]


@meth(LISTS, 'index', 'count')
def _(I, r, st, a, k, n, f):
    s, st = I.fresh(st, n, f, 'idx', 'num0+')
    return [(s, st)]


def _truth_list(I, r, st, n, f):
    its = st.obj(r).get('items')
    if any(not isinstance(i, Star) for i in its):
        return [(True, st)]
    if not its:
        return [(False, st)]
    out = []
    for b, x in I.branch(Term('pred', (Const('nonempty'), r)), st):
        if not b:
            x = x.upd(r, items=())
        out.append((b, x))
    return out


TRUTH['list'] = TRUTH['deque'] = _truth_list


@model('collections.deque')
def _(I, st, a, k, n, f):
    ml = arg(a, k, 1, 'maxlen')
    r = I.h.deque_call(a, ml, st, n, f) if hasattr(I.h, 'deque_call') else None
    if r is not None:
        return r
    bound = {}
    if isinstance(ml, Const) and ml.v is not None:
        bound = {'maxlen': ml.v}
    src = a[0] if a else arg(a, k, 0, 'iterable')
    if src is None:
        r, st = I.alloc(st, 'deque', n, f, items=(), **bound)
        return [(r, st)]
    if bound:
        acc, st = I.alloc(st, 'deque', n, f, items=(), **bound)
        I.temps.append(acc)
        try:
            return I.to_val(I.for_each(
                src, st, n, f,
                lambda v, x: [(('next',), I.list_add(acc, v, x))]), acc)
        finally:
            I.temps.pop()
    a = [src]
    return I.to_list(a[0], st, n, f, kind='deque')


def _getitem_list(I, o, i, st, n, f):
    its = st.obj(o).get('items')
    if isinstance(i, Const) and isinstance(i.v, int):
        seq = its if i.v >= 0 else its[::-1]
        idx = i.v if i.v >= 0 else -i.v - 1
        if not any(isinstance(x, Star) for x in seq[:idx + 1]):
            if idx < len(seq):
                return [(seq[idx], st)]
            if not any(isinstance(x, Star) for x in seq):
                return [(I.exc('IndexError', n), st)]
        vals = dict.fromkeys(x.v if isinstance(x, Star) else x for x in its)
        return [(v, st) for v in vals] + [(I.exc('IndexError', n), st)]
    if isinstance(i, Term) and i.op == 'slice':
        lo, hi, stp = i.args
        if all(isinstance(x, Const) for x in i.args) and not any(
                isinstance(x, Star) for x in its):
            r, st = I.alloc(st, 'list', n, f, items=tuple(
                its[slice(lo.v, hi.v, stp.v)]))
            return [(r, st)]
        if lo in (NONE, Const(0)) and stp in (NONE, Const(1)):
            full = its
        r, st = I.alloc(st, 'list', n, f, items=tuple(
            x if isinstance(x, Star) else Star(x) for x in its))
        r2 = I.h.on_slice(o, i, r, st, n) if hasattr(
            I.h, 'on_slice') else None
        return [(r, r2 if r2 is not None else st)]
    vals = dict.fromkeys(x.v if isinstance(x, Star) else x for x in its)
    if not vals:
        return [(I.exc('IndexError', n), st)]
    return [(v, st) for v in vals]


GETITEM['list'] = GETITEM['deque'] = _getitem_list


def _setitem_list(I, o, i, v, st, n, f):
    its = st.obj(o).get('items')
    if isinstance(i, Const) and isinstance(i.v, int) and not any(
            isinstance(x, Star) for x in its):
        if -len(its) <= i.v < len(its):
            l = list(its)
            l[i.v] = v
            return [(NONE, st.upd(o, items=tuple(l)))]
        return [(I.exc('IndexError', n), st)]
    if isinstance(i, Term) and i.op == 'slice':
        def k(r, x):
            return [(NONE, _list_touch(I, o, x.upd(o, items=x.obj(r).get(
                'items'))))]
        if i.args == (NONE, NONE, NONE):
            return I.bind(I.to_list(v, st, n, f, 'slice'), k)
    return [(NONE, st.upd(o, items=tuple(
        x if isinstance(x, Star) else Star(x) for x in its) + (Star(v),)))]


SETITEM['list'] = SETITEM['deque'] = _setitem_list


def _delitem_list(I, o, i, st, n, f):
    its = st.obj(o).get('items')
    if isinstance(i, Term) and i.op == 'slice' and i.args == (
            NONE, NONE, NONE):
        return [(NONE, _list_touch(I, o, st.upd(o, items=())))]
    if isinstance(i, Const) and not any(isinstance(x, Star) for x in its):
        l = list(its)
        try:
            del l[i.v]
        except IndexError:
            return [(I.exc('IndexError', n), st)]
        return [(NONE, _list_touch(I, o, st.upd(o, items=tuple(l))))]
    if isinstance(i, Term) and i.op == 'slice' and hasattr(
            I.h, 'on_delslice'):
        st = I.h.on_delslice(o, i, st, n)
    return [(NONE, _list_touch(I, o, st.upd(o, items=tuple(
        x if isinstance(x, Star) else Star(x) for x in its))))]


DELITEM['list'] = DELITEM['deque'] = _delitem_list


# ---------------------------------------------------------------------------
# sets

@meth('set', 'add')
def _(I, r, st, a, k, n, f):
    st = I.h.on_list('add', r, a[0], st, n)
    return [(NONE, _list_touch(I, r, st.upd(
        r, items=st.obj(r).get('items') | {a[0]})))]


@meth('set', 'discard', 'remove')
def _(I, r, st, a, k, n, f):
    st = I.h.on_list('discard', r, a[0], st, n)
    return [(NONE, _list_touch(I, r, st.upd(
        r, items=st.obj(r).get('items') - {a[0]})))]


@meth('set', 'clear')
def _(I, r, st, a, k, n, f):
    st = I.h.on_list('clear', r, NONE, st, n)
    return [(NONE, _list_touch(I, r, st.upd(r, items=frozenset())))]


@meth('set', 'update')
def _(I, r, st, a, k, n, f):
    def body(v, x):
        x = I.h.on_list('add', r, v, x, n)
        return [(('next',), _list_touch(I, r, x.upd(
            r, items=x.obj(r).get('items') | {v})))]
    return I.to_val(I.for_each(a[0], st, n, f, body))


@meth('set', 'copy', 'union', 'difference', 'intersection',
      'symmetric_difference')
def _(I, r, st, a, k, n, f):
    s, st = I.alloc(st, 'set', n, f, items=st.obj(r).get('items'),
                    copyof=r)
    st = I.h.on_list('copied', s, r, st, n)
    if a:
        def body(v, x):
            return [(('next',), x.upd(s, items=x.obj(s).get('items') | {
                Star(v) if not isinstance(v, Star) else v}))]
        return I.to_val(I.for_each(a[0], st, n, f, body), s)
    return [(s, st)]


def _iter_set(I, it, st, node, fr, body, is_async):
    its = st.obj(it).get('items')
    if I.h.set_order and len(its) < 4:
        out = []
        for p in itertools.permutations(sorted(its, key=repr)):
            out.extend(I._each_items(p, st, node, body))
        return I.dedupe(out)
    return I._each_items(tuple(sorted(st.obj(it).get('items'), key=repr)),
                         st, node, body)


ITER_KIND['set'] = _iter_set


def _truth_set(I, r, st, n, f):
    its = st.obj(r).get('items')
    if not its:
        return [(False, st)]
    if any(not isinstance(i, Star) for i in its):
        return [(True, st)]
    return I.branch(Term('pred', (Const('nonempty'), r)), st)


TRUTH['set'] = _truth_set


def _contains_set(I, c, v, st, n, f):
    its = st.obj(c).get('items')
    if v in its:
        return [(True, st)]
    if not its:
        return [(False, st)]
    return I.branch(Term('in', (c, v)), st)


CONTAINS['set'] = _contains_set


# ---------------------------------------------------------------------------
# dictionaries

@model('dict', 'collections.OrderedDict', 'weakref.WeakKeyDictionary',
       'weakref.WeakValueDictionary', 'collections.defaultdict',
       'collections.UserDict', 'types.SimpleNamespace')
def _(I, st, a, k, n, f):
    r = I.h.dict_call(a, k, st, n, f) if hasattr(I.h, 'dict_call') else None
    if r is not None:
        return r
    path = getattr(n, '_dictpath', None)
    r, st = I.alloc(st, 'dict', n, f, ent=())
    res = [(NONE, st)]
    if a:
        res = METHODS[('dict', 'update')](I, r, st, a, [], n, f)
    for kk, v in k:
        if kk is None:
            res = I.bind(res, lambda _, x, v=v: METHODS[('dict', 'update')](
                I, r, x, [v], [], n, f))
        else:
            res = I.bind(res, lambda _, x, kk=kk, v=v: dict_store(
                I, r, Const(kk), v, x, n, f))
    return I.bind(res, lambda _, x: [(r, x)])


def _weakdict(I, st, a, k, n, f):
    r, st = I.alloc(st, 'dict', n, f, ent=(), flavour='weak')
    return [(r, st)]


MODELS['weakref.WeakKeyDictionary'] = _weakdict
def _weakvalues(I, st, a, k, n, f):
    r, st = I.alloc(st, 'dict', n, f, ent=(), flavour='weakvalue')
    return [(r, st)]


MODELS['weakref.WeakValueDictionary'] = _weakvalues


def _defaultdict(I, st, a, k, n, f):
    r, st = I.alloc(st, 'dict', n, f, ent=(), factory=a[0] if a else NONE)
    return [(r, st)]


MODELS['collections.defaultdict'] = _defaultdict


@model('dict.fromkeys')
def _(I, st, a, k, n, f):
    r, st = I.alloc(st, 'dict', n, f, ent=())
    d = a[1] if len(a) > 1 else NONE
    I.temps.append(r)
    try:
        return I.to_val(I.for_each(a[0], st, n, f, lambda v, x: I.outs(
            dict_store(I, r, v, d, x, n, f))), r)
    finally:
        I.temps.pop()


def dict_lookup(I, r, key, st, n, f):
    """[(value | None, st)]: None when certainly absent on that path."""
    o = st.obj(r)
    out = []
    pend = [st]
    for kk, v in o.get('ent'):
        nxt = []
        for x in pend:
            if isinstance(kk, Star):
                out.append((v, x))
                nxt.append(x)
                continue
            for b, y in I.equal(key, kk, x, n, f):
                if b:
                    out.append((v, y))
                else:
                    nxt.append(y)
        pend = nxt
        if not pend:
            break
    res = list(out)
    for x in pend:
        o = x.obj(r)
        if key in o.get('absent', ()):
            res.append((None, x))
            continue
        if not o.get('open'):
            res.append((None, x))
            continue
        for kk, v in o.get('maybe', ()):
            if kk == key:
                y = x.with_obj(r, o.put('ent', o.get('ent') + ((key, v),))
                               .put('maybe', tuple(
                                   m for m in o.get('maybe')
                                   if m[0] != key)))
                res.append((v, y.note(n, 'own entry still there')))
        for v, y in I.h.open_value(r, key, x, n, f):
            o2 = y.obj(r)
            y = y.with_obj(r, o2.put('ent', o2.get('ent') + ((key, v),)).put(
                'maybe', tuple(m for m in o2.get('maybe', ())
                               if m[0] != key)))
            res.append((v, y.note(n, f'entry found')))
        o2 = o.put('absent', frozenset(o.get('absent', ())) | {key}).put(
            'maybe', tuple(m for m in o.get('maybe', ()) if m[0] != key))
        res.append((None, x.with_obj(r, o2).note(n, 'entry missing')))
    return [(v, I.h.on_dict('read' if v is not None else 'miss', r, key, v,
                            x, n)) for v, x in res]


def dict_store(I, r, key, v, st, n, f):
    st = I.h.on_dict('store', r, key, v, st, n)
    o = st.obj(r)
    ent = []
    done = False
    for kk, vv in o.get('ent'):
        if kk == key and not done:
            ent.append((kk, v))
            done = True
        else:
            ent.append((kk, vv))
    if not done:
        ent.append((key, v))
    if len(ent) > I.h.max_items and not done:
        a, b = ent[-2], ent[-1]
        if isinstance(a[0], Star) and a[1] == b[1] and a[0].v == b[0]:
            ent = ent[:-1]
        else:
            ks = dict.fromkeys((kk.v if isinstance(kk, Star) else kk, vv)
                               for kk, vv in ent[I.h.max_items - 1:])
            ent = ent[:I.h.max_items - 1] + [
                (Star(kk), vv) for kk, vv in ks]
    ab = o.get('absent', frozenset())
    st = st.with_obj(r, o.put('ent', tuple(ent)).put(
        'absent', frozenset(x for x in ab if x != key)).put(
            'maybe', tuple(m for m in o.get('maybe', ())
                           if m[0] != key)))
    return [(NONE, _list_touch(I, r, st))]


def dict_remove(I, r, key, st):
    o = st.obj(r)
    st = st.with_obj(r, o.put('ent', tuple(
        e for e in o.get('ent') if e[0] != key)).put(
            'absent', frozenset(o.get('absent', ())) | (
                {key} if o.get('open') else set())).put(
            'maybe', tuple(m for m in o.get('maybe', ()) if m[0] != key)))
    return _list_touch(I, r, st)


def _getitem_dict(I, o, i, st, n, f):
    out = []
    for v, x in dict_lookup(I, o, i, st, n, f):
        if v is not None:
            out.append((v, x))
            continue
        fac = x.obj(o).get('factory')
        if fac and fac != NONE:
            out.extend(I.bind(I.call(fac, [], [], x, n, f), lambda w, y:
                              I.bind(dict_store(I, o, i, w, y, n, f),
                                     lambda _, z, w=w: [(w, z)])))
        else:
            out.append((Raised(ExcV('KeyError', True, 'op', (i,))),
                        x.note(n, 'KeyError')))
    return out


GETITEM['dict'] = _getitem_dict
SETITEM['dict'] = dict_store
METHODS[('dict', '__getitem__')] = lambda I, r, st, a, k, n, f: \
    _getitem_dict(I, r, a[0], st, n, f)
METHODS[('dict', '__setitem__')] = lambda I, r, st, a, k, n, f: dict_store(
    I, r, a[0], a[1], st, n, f)
METHODS[('dict', '__delitem__')] = lambda I, r, st, a, k, n, f: \
    _delitem_dict(I, r, a[0], st, n, f)


def _delitem_dict(I, o, i, st, n, f):
    out = []
    for v, x in dict_lookup(I, o, i, st, n, f):
        if v is None:
            out.append((Raised(ExcV('KeyError', True, 'op', (i,))), x))
        else:
            x = I.h.on_dict('del', o, i, v, x, n)
            out.append((NONE, dict_remove(I, o, i, x)))
    return out


DELITEM['dict'] = _delitem_dict


@meth('dict', 'get')
def _(I, r, st, a, k, n, f):
    d = arg(a, k, 1, 'default', NONE)
    return [(v if v is not None else d, x)
            for v, x in dict_lookup(I, r, a[0], st, n, f)]


@meth('dict', 'pop')
def _(I, r, st, a, k, n, f):
    d = arg(a, k, 1, 'default')
    out = []
    for v, x in dict_lookup(I, r, a[0], st, n, f):
        if v is None:
            out.append((d if d is not None else
                        Raised(ExcV('KeyError', True, 'op', (a[0],))), x))
        else:
            x = I.h.on_dict('del', r, a[0], v, x, n)
            out.append((v, dict_remove(I, r, a[0], x)))
    return out


@meth('dict', 'setdefault')
def _(I, r, st, a, k, n, f):
    d = arg(a, k, 1, 'default', NONE)
    out = []
    for v, x in dict_lookup(I, r, a[0], st, n, f):
        if v is None:
            out.extend(I.bind(dict_store(I, r, a[0], d, x, n, f),
                              lambda _, y: [(d, y)]))
        else:
            out.append((v, x))
    return out


def _contains_dict(I, c, v, st, n, f):
    return [(w is not None, x) for w, x in dict_lookup(I, c, v, st, n, f)]


CONTAINS['dict'] = _contains_dict
METHODS[('dict', '__contains__')] = lambda I, r, st, a, k, n, f: [
    (Const(b), x) for b, x in _contains_dict(I, r, a[0], st, n, f)]


@meth('dict', 'clear')
def _(I, r, st, a, k, n, f):
    o = st.obj(r)
    for kk, v in o.get('ent'):
        st = I.h.on_dict('del', r, kk, v, st, n)
    if o.get('open'):
        st = I.h.on_dict('clear', r, NONE, NONE, st, n)
    o = st.obj(r)
    return [(NONE, _list_touch(I, r, st.with_obj(
        r, o.put('ent', ()).put('absent', frozenset()).put('maybe', ()).put(
            'open', None if not o.get('shared') else o.get('open')))))]


@meth('dict', 'copy')
def _(I, r, st, a, k, n, f):
    o = st.obj(r)
    s, st = I.alloc(st, 'dict', n, f, **{
        kk: v for kk, v in o.at.items() if kk not in ('shared', '$keep')})
    return [(s, st)]


@meth('dict', 'update')
def _(I, r, st, a, k, n, f):
    res = [(NONE, st)]
    if a:
        v = a[0]
        ents = I.dict_items(v, st)
        if ents is not None:
            for kk, vv in ents:
                res = I.bind(res, lambda _, x, kk=kk, vv=vv: dict_store(
                    I, r, kk, vv, x, n, f))
        elif isinstance(v, (GenV, Tup, Term)) or I.streams or I.items_of(
                v, st) is not None:
            def body(e, x):
                return I.outs(I.unpack(e, [None, None], x, n, f),
                              lambda t, y: I.outs(dict_store(
                                  I, r, t.items[0], t.items[1], y, n, f)))
            I.temps.append(r)
            try:
                res = I.to_val(I.for_each(v, st, n, f, body))
            finally:
                I.temps.pop()
        else:
            st = st.with_obj(r, st.obj(r).put('open', TOP))
            res = [(NONE, st)]
    for kk, vv in k:
        if kk is not None:
            res = I.bind(res, lambda _, x, kk=kk, vv=vv: dict_store(
                I, r, Const(kk), vv, x, n, f))
    return res


@meth('dict', 'popitem')
def _(I, r, st, a, k, n, f):
    ent = st.obj(r).get('ent')
    if ent and not st.obj(r).get('open'):
        kk, v = ent[-1]
        st = I.h.on_dict('del', r, kk, v, st, n)
        return [(Tup((kk, v)), dict_remove(I, r, kk, st))]
    st = I.h.on_dict('clear', r, NONE, NONE, st, n)
    s, st = I.fresh(st, n, f, 'popitem')
    return [(s, st), (I.exc('KeyError', n), st)]


@meth('dict', 'items', 'keys', 'values')
def _(I, r, st, a, k, n, f):
    return [(Term(_mname(n, 'items'), (r,)), st)]


def _mname(n, default):
    return getattr(getattr(n, 'func', None), 'attr', default)


METHODS[('dict', 'items')] = lambda I, r, st, a, k, n, f: [
    (Term('items', (r,)), st)]
METHODS[('dict', 'keys')] = lambda I, r, st, a, k, n, f: [
    (Term('keys', (r,)), st)]
METHODS[('dict', 'values')] = lambda I, r, st, a, k, n, f: [
    (Term('values', (r,)), st)]


def _iter_dict(which):
    def m(I, t, st, node, fr, body, is_async):
        r = t if isinstance(t, Ref) else t.args[0]
        if not (isinstance(r, Ref) and st.has(r)):
            return I.each_opaque(t, st, node, fr, body, is_async)
        o = st.obj(r)
        items = []
        for kk, v in o.get('ent'):
            star = isinstance(kk, Star)
            kx = kk.v if star else kk
            e = {'items': Tup((kx, v)), 'keys': kx, 'values': v}[which]
            items.append(Star(e) if star else e)
        outs = I._each_items(tuple(items), st, node, body)
        if not o.get('open'):
            return outs
        res = []
        for c, x in outs:
            if c[0] != 'next':
                res.append((c, x))
                continue

            def step(y):
                rr = [(('next',), y)]
                kx, y = I.fresh(y, node, fr, 'okey')
                for v, z in I.h.open_value(r, kx, y, node, fr):
                    e = {'items': Tup((kx, v)), 'keys': kx,
                         'values': v}[which]
                    for c2, w in body(e, z):
                        rr.append(('again' if c2[0] == 'next' else c2, w))
                return rr
            res.extend(I.loop(x, step, node))
        return res
    return m


ITER_KIND['dict'] = _iter_dict('keys')
for _n in ('items', 'keys', 'values'):
    ITER[_n] = _iter_dict(_n)


def _truth_dict(I, r, st, n, f):
    o = st.obj(r)
    if any(not isinstance(k, Star) for k, _ in o.get('ent')):
        return [(True, st)]
    if not o.get('ent') and not o.get('open'):
        return [(False, st)]
    return I.branch(Term('pred', (Const('nonempty'), r)), st)


TRUTH['dict'] = _truth_dict

# symbolic mappings (**kwargs of the analysed call)
for _n in ('items', 'keys', 'values'):
    METHODS[('sym:dict', _n)] = (lambda _n: lambda I, r, st, a, k, n, f: [
        (Term(_n, (r,)), st)])(_n)
METHODS[('sym:dict', 'copy')] = lambda I, r, st, a, k, n, f: [(r, st)]


# ---------------------------------------------------------------------------
# threading

@model('threading.Lock', 'threading.RLock', 'threading.Condition',
       '_thread.allocate_lock', 'multiprocessing.Lock',
       'multiprocessing.RLock')
def _(I, st, a, k, n, f):
    fl = 'RLock'
    try:
        # which constructor: find through the value called
        fl = I.h._ctor if hasattr(I.h, '_ctor') else 'Lock'
    except AttributeError:
        pass
    r, st = I.alloc(st, 'lock', n, f, flavour='Lock')
    return [(r, st)]


def _lockctor(fl):
    def m(I, st, a, k, n, f):
        r, st = I.alloc(st, 'lock', n, f, fl, flavour=fl)
        return [(r, st)]
    return m


MODELS['threading.Lock'] = MODELS['_thread.allocate_lock'] = _lockctor('Lock')
MODELS['threading.RLock'] = _lockctor('RLock')
MODELS['threading.Condition'] = _lockctor('RLock')
for _s in ('Semaphore', 'BoundedSemaphore'):
    MODELS['threading.' + _s] = _lockctor('Lock')


@meth('lock', 'acquire', '__enter__')
def _(I, r, st, a, k, n, f):
    b = arg(a, k, 0, 'blocking', TRUE)
    t = arg(a, k, 1, 'timeout', Const(-1))
    return I.h.lock_acquire(r, st, n, b, t)


@meth('lock', 'release')
def _(I, r, st, a, k, n, f):
    return I.h.lock_release(r, st, n)


@meth('lock', 'locked')
def _(I, r, st, a, k, n, f):
    if r in st.m('held', ()):
        return [(TRUE, st)]
    return [(Term('pred', (Const('locked'), r)), st)]


def _with_lock(I, v, st, node, fr, inner, is_async):
    out = []
    for r, x in I.h.lock_acquire(v, st, node, TRUE, Const(-1)):
        if abrupt(r):
            out.extend(I.outs([(r, x)]))
            continue
        for o, y in inner(r, x):
            for r2, z in I.h.lock_release(v, y, node):
                if abrupt(r2):
                    out.extend(I.outs([(r2, z)]))
                else:
                    out.append((o, z))
    return out


WITH['kind:lock'] = _with_lock


@model('threading.Event')
def _(I, st, a, k, n, f):
    r, st = I.alloc(st, 'tevent', n, f, set=FALSE)
    return [(r, st)]


@meth('tevent', 'set')
def _(I, r, st, a, k, n, f):
    return [(NONE, st.upd(r, set=TRUE))]


@meth('tevent', 'clear')
def _(I, r, st, a, k, n, f):
    return [(NONE, st.upd(r, set=FALSE))]


@meth('tevent', 'is_set')
def _(I, r, st, a, k, n, f):
    if st.obj(r).get('set') == TRUE:
        return [(TRUE, st)]
    return I.h.tevent_is_set(r, st, n, f) if hasattr(
        I.h, 'tevent_is_set') else [(Term('pred', (Const('is_set'), r)), st)]


@model('threading.get_ident', 'threading.current_thread',
       'threading.main_thread', 'os.getpid')
def _(I, st, a, k, n, f):
    return [(Sym('thread', 'num+'), st)]


@model('queue.Queue', 'queue.SimpleQueue', 'queue.LifoQueue',
       'queue.PriorityQueue')
def _(I, st, a, k, n, f):
    r, st = I.alloc(st, 'tqueue', n, f, flavour='Queue')
    return [(r, st)]


def _tq(fl):
    def m(I, st, a, k, n, f):
        r, st = I.alloc(st, 'tqueue', n, f, flavour=fl,
                        maxsize=arg(a, k, 0, 'maxsize', Const(0)))
        return [(r, st)]
    return m


for _n in ('Queue', 'SimpleQueue', 'LifoQueue', 'PriorityQueue'):
    MODELS['queue.' + _n] = _tq(_n)


@model('time.time', 'time.monotonic', 'time.perf_counter',
       'time.monotonic_ns', 'time.time_ns')
def _(I, st, a, k, n, f):
    r = I.h.now(st, n, f) if hasattr(I.h, 'now') else None
    if r is not None:
        return r
    s, st = I.fresh(st, n, f, 'now', 'num')
    return [(s, st)]


@model('time.sleep')
def _(I, st, a, k, n, f):
    r = I.h.thread_sleep(a[0] if a else NONE, st, n, f) if hasattr(
        I.h, 'thread_sleep') else None
    return r if r is not None else [(NONE, I.h.interfere(st, 'sleep'))]


@model('weakref.finalize')
def _(I, st, a, k, n, f):
    r = I.h.on_finalize(a, k, st, n, f) if hasattr(
        I.h, 'on_finalize') else None
    return r if r is not None else [(Sym('finalizer', None), st)]


@model('weakref.ref', 'weakref.proxy')
def _(I, st, a, k, n, f):
    return [(Term('weakref', (a[0],)), st)]


CALL_TERM['weakref'] = lambda I, t, a, k, st, n, f: [(t.args[0], st)]


# ---------------------------------------------------------------------------
# asyncio

@model('asyncio.get_running_loop', 'asyncio.get_event_loop',
       'asyncio._get_running_loop')
def _(I, st, a, k, n, f):
    return I.h.current_loop(st, n, f)


@model('asyncio.Event')
def _(I, st, a, k, n, f):
    r, st = I.alloc(st, 'aioevent', n, f, set=FALSE)
    return [(r, st)]


@model('asyncio.Lock')
def _(I, st, a, k, n, f):
    r, st = I.alloc(st, 'aiolock', n, f, value=Const(1))
    return [(r, st)]


@model('asyncio.Semaphore', 'asyncio.BoundedSemaphore')
def _(I, st, a, k, n, f):
    r, st = I.alloc(st, 'aiosem', n, f, value=arg(a, k, 0, 'value', Const(1)))
    return [(r, st)]


def _aioq(fl):
    def m(I, st, a, k, n, f):
        r, st = I.alloc(st, 'aioqueue', n, f, flavour=fl,
                        maxsize=arg(a, k, 0, 'maxsize', Const(0)))
        return [(r, st)]
    return m


for _n in ('Queue', 'LifoQueue', 'PriorityQueue'):
    MODELS['asyncio.' + _n] = _aioq(_n)


@meth('aioevent', 'set')
def _(I, r, st, a, k, n, f):
    st = I.h.on_event('set', r, st, n) if hasattr(I.h, 'on_event') else st
    return [(NONE, st.upd(r, set=TRUE))]


@meth('aioevent', 'clear')
def _(I, r, st, a, k, n, f):
    st = I.h.on_event('clear', r, st, n) if hasattr(I.h, 'on_event') else st
    return [(NONE, st.upd(r, set=FALSE))]


@meth('aioevent', 'is_set')
def _(I, r, st, a, k, n, f):
    s = st.obj(r).get('set')
    if s in (TRUE, FALSE):
        return [(s, st)]
    out = []
    for b in (TRUE, FALSE):
        out.append((b, st.upd(r, set=b)))
    return out


@meth(['aioevent', 'sym:aioevent'], 'wait')
def _(I, r, st, a, k, n, f):
    return [(ExtCoro('event.wait', (r,), ()), st)]


def _await_eventwait(I, v, st, n, f):
    r = v.args[0]
    if isinstance(r, Ref) and st.has(r):
        s = st.obj(r).get('set')
        out = []
        if s == TRUE:
            return [(TRUE, st)]
        if s != FALSE:
            out.append((TRUE, st.upd(r, set=TRUE)))
        for w, x in I.h.suspend(st, n, f, ('event.wait', r)):
            if abrupt(w):
                out.append((w, x))
            else:
                out.append((TRUE, x.upd(r, set=TOP)))
        return out
    return [(TRUE if not abrupt(w) else w, x)
            for w, x in I.h.suspend(st, n, f, ('event.wait', r))]


AWAIT['event.wait'] = _await_eventwait


@model('asyncio.sleep')
def _(I, st, a, k, n, f):
    return [(ExtCoro('sleep', tuple(a), tuple(k)), st)]


def _await_sleep(I, v, st, n, f):
    res = v.args[1] if len(v.args) > 1 else NONE
    return [(res if not abrupt(w) else w, x)
            for w, x in I.h.suspend(st, n, f, ('sleep', v.args[0]
                                               if v.args else NONE))]


AWAIT['sleep'] = _await_sleep


def make_task(I, coro, st, n, f, **extra):
    if isinstance(coro, Ref) and st.has(coro) and st.obj(coro).kind == 'fut':
        return [(coro, st)]
    if isinstance(coro, Sym) and coro.kind in ('future', 'task'):
        return [(coro, st)]
    r, st = I.alloc(st, 'fut', n, f, 'task', coro=coro, task=True,
                    outcome=None, **extra)
    st = I.h.on_task(r, st, n, f)
    return [(r, st)]


@model('asyncio.create_task', 'asyncio.ensure_future', 'asyncio.Task')
def _(I, st, a, k, n, f):
    return make_task(I, a[0], st, n, f,
                     loop=arg(a, k, None, 'loop', NONE))


@meth('sym:loop', 'create_task')
def _(I, r, st, a, k, n, f):
    return make_task(I, a[0], st, n, f, loop=r)


def _init_task(I, ref, a, k, st, n, f):
    c = arg(a, k, 0, 'coro')
    o = st.obj(ref)
    st = st.with_obj(ref, HObj('fut', {
        **o.at, 'coro': c, 'task': True, 'outcome': None,
        'loop': arg(a, k, None, 'loop', NONE)}))
    st = I.h.on_task(ref, st, n, f)
    return [(ref, st)]


INIT['asyncio.Task'] = _init_task


@meth('sym:loop', 'create_future')
def _(I, r, st, a, k, n, f):
    s, st = I.alloc(st, 'fut', n, f, 'future', coro=None, outcome=None,
                    loop=r, new=True)
    if hasattr(I.h, 'on_future'):
        st = I.h.on_future(s, st, n, f)
    return [(s, st)]


@model('asyncio.Future')
def _(I, st, a, k, n, f):
    return METHODS[('sym:loop', 'create_future')](
        I, arg(a, k, None, 'loop', Sym('running_loop', 'loop')), st, [], [],
        n, f)


@meth('sym:loop', 'is_running', 'is_closed')
def _(I, r, st, a, k, n, f):
    return [(Term('pred', (Const(_mname(n, 'is_running')), r)), st)]


METHODS[('sym:loop', 'is_running')] = lambda I, r, st, a, k, n, f: [
    (Term('pred', (Const('is_running'), r)), st)]
METHODS[('sym:loop', 'is_closed')] = lambda I, r, st, a, k, n, f: [
    (Term('pred', (Const('is_closed'), r)), st)]
METHODS[('sym:loop', 'time')] = lambda I, r, st, a, k, n, f: MODELS[
    'time.time'](I, st, a, k, n, f)


def _record(I, ref, v, x):
    if not x.has(ref):
        return x
    if isinstance(v, Raised):
        return x.upd(ref, outcome=v)
    return x.upd(ref, outcome=Tup((v,)))


def fut_outcome(I, ref, st, n, f):
    """Outcomes of a future once it's done; [(value | Raised, st)]."""
    o = st.obj(ref)
    oc = o.get('outcome')
    if oc is not None:
        return [(oc if isinstance(oc, Raised) else oc.items[0], st)]
    c = o.get('coro')
    if c is not None:
        if o.get('cancelreq'):
            res = [(Raised(ExcV('asyncio.CancelledError', True,
                                'requested-cancel', ())), st)]
        else:
            res = I.await_(c, st, n, f)
        return [(v, _record(I, ref, v, x)) for v, x in res]
    src = o.get('src')
    if src is not None:
        r = cfut_outcome(I, src, st, n, f)
        return [(v, _record(I, ref, v, x)) for v, x in r]
    return [(v, _record(I, ref, v, x))
            for v, x in I.h.future_outcome(ref, st, n, f)]


def _await_fut(I, v, st, n, f):
    if st.obj(v).get('outcome') is not None:
        return fut_outcome(I, v, st, n, f)
    return fut_outcome(I, v, st, n, f)


AWAIT['kind:fut'] = _await_fut


def cfut_outcome(I, src, st, n, f):
    if hasattr(I.h, 'cfut_outcome'):
        r = I.h.cfut_outcome(src, st, n, f)
        if r is not None:
            return r
    c = st.obj(src).get('coro') if isinstance(src, Ref) and st.has(src) \
        else None
    res = []
    # runs on another loop: our own cancellation ends the local wait and
    # is passed on to the remote task
    for w, x in I.h.suspend(st, n, f, ('remote', src)):
        if abrupt(w):
            res.append((w, x))
            continue
        if c is None:
            s, y = I.fresh(x, n, f, 'cfresult')
            res.append((s, y))
            continue
        x = I.h.masked(x.with_m('remote', src))
        for v, y in I.await_(c, x, n, f):
            y = I.h.unmasked(y)
            m = dict(y.mon)
            m.pop('remote', None)
            res.append((v, State(y.heap, y.facts, m, y.trace)))
    res.append((Raised(ExcV('asyncio.CancelledError', True,
                            'foreign-cancel', ())),
                I.h.interfere(st, 'suspend').note(
                    n, 'task on the other loop cancelled (shutdown)')))
    return res


@meth('fut', 'done')
def _(I, r, st, a, k, n, f):
    o = st.obj(r)
    if o.get('outcome') is not None:
        return [(TRUE, st)]
    return I.h.fut_done(r, st, n, f) if hasattr(I.h, 'fut_done') else [
        (Term('pred', (Const('done'), r)), st)]


@meth('fut', 'cancelled')
def _(I, r, st, a, k, n, f):
    oc = st.obj(r).get('outcome')
    if oc is None:
        return [(Term('pred', (Const('cancelled'), r)), st)]
    return [(Const(isinstance(oc, Raised)
                   and oc.exc.cls == 'asyncio.CancelledError'), st)]


@meth('fut', 'cancel')
def _(I, r, st, a, k, n, f):
    if st.obj(r).get('outcome') is not None:
        return [(FALSE, st)]
    st = I.h.on_cancel(r, st, n) if hasattr(I.h, 'on_cancel') else st
    return [(TRUE, st.upd(r, cancelreq=True))]


def _known_or(I, r, st, n, f, k):
    o = st.obj(r)
    if o.get('outcome') is None:
        d = I.decide(Term('pred', (Const('done'), r)), st)
        if d is not True:
            out = [(I.exc('asyncio.InvalidStateError', n), st)]
            if d is False:
                return out
            return out + I.bind(I.h.settled(r, st, n, f), k) if hasattr(
                I.h, 'settled') else out
        x = I.h.masked(st)
        res = []
        for v, y in fut_outcome(I, r, x, n, f):
            res.append((v, I.h.unmasked(y)))
        return k(res)
    return k([(o.get('outcome') if isinstance(o.get('outcome'), Raised)
               else o.get('outcome').items[0], st)])


@meth('fut', 'result')
def _(I, r, st, a, k, n, f):
    return _known_or(I, r, st, n, f, lambda res: res)


@meth('fut', 'exception')
def _(I, r, st, a, k, n, f):
    def kk(res):
        out = []
        for v, x in res:
            if isinstance(v, Raised):
                if v.exc.cls == 'asyncio.CancelledError':
                    out.append((v, x))
                else:
                    out.append((v.exc, x))
            else:
                out.append((NONE, x))
        return out
    return _known_or(I, r, st, n, f, kk)


@meth('fut', 'add_done_callback')
def _(I, r, st, a, k, n, f):
    cbs = st.obj(r).get('callbacks', ())
    if len(cbs) < 4:
        st = st.upd(r, callbacks=cbs + (a[0],))
    return [(NONE, st)]


@meth('fut', 'remove_done_callback')
def _(I, r, st, a, k, n, f):
    return [(Const(0), st.upd(r, callbacks=tuple(
        c for c in st.obj(r).get('callbacks', ()) if c != a[0])))]


@meth('fut', 'get_loop', 'get_name', 'set_name', 'get_coro', 'uncancel',
      'cancelling')
def _(I, r, st, a, k, n, f):
    nm = _mname(n, '')
    if nm == 'get_loop':
        return [(st.obj(r).get('loop', NONE), st)]
    s, st = I.fresh(st, n, f, nm)
    return [(s, st)]


@meth('fut', 'set_result')
def _(I, r, st, a, k, n, f):
    return [(NONE, st.upd(r, outcome=Tup((a[0],))))]


@meth('fut', 'set_exception')
def _(I, r, st, a, k, n, f):
    return [(NONE, st.upd(r, outcome=Raised(a[0]) if isinstance(
        a[0], ExcV) else Tup((a[0],))))]


# combinators ---------------------------------------------------------------

def ext_coro(op):
    def m(I, st, a, k, n, f):
        if op == 'wait' and not isinstance(a[0], (Tup, Ref, Sym)):
            return I.bind(I.to_list(a[0], st, n, f), lambda r, x: [
                (ExtCoro(op, (r,) + tuple(a[1:]), tuple(k)), x)])
        return [(ExtCoro(op, tuple(a), tuple(k)), st)]
    return m


for _n in ('gather', 'wait_for', 'shield', 'wait'):
    MODELS['asyncio.' + _n] = ext_coro(_n)


def _await_wait_for(I, v, st, n, f):
    d = dict(v.kwargs)
    aw = v.args[0] if v.args else d.get('fut')
    t = v.args[1] if len(v.args) > 1 else d.get('timeout', NONE)
    return with_timeout(I, t, st, n, f, lambda x: I.await_(aw, x, n, f))


AWAIT['wait_for'] = _await_wait_for


def with_timeout(I, t, st, n, f, run):
    """Results of run(st) with a timeout active."""
    if t == NONE:
        return run(st)
    tid = (n._uid, f.ctx, len(st.m('timeouts', ())))
    tid = Sym(('timeout',) + tid, None)
    st = st.with_m('timeouts', st.m('timeouts', ()) + (tid,)).with_m(
        'tval', st.m('tval', ()) + (t,))
    if hasattr(I.h, 'timeout_started'):
        st = I.h.timeout_started(tid, t, st)
    out = []
    for v, x in run(st):
        fired = tid in x.m('fired', ())
        m = dict(x.mon)
        ts = tuple(y for y in x.m('timeouts', ()) if y != tid)
        fs = tuple(y for y in x.m('fired', ()) if y != tid)
        for kk, vv in (('timeouts', ts), ('fired', fs),
                       ('tval', x.m('tval', ())[:-1])):
            if vv:
                m[kk] = vv
            else:
                m.pop(kk, None)
        x = State(x.heap, x.facts, m, x.trace)
        if isinstance(v, Raised) and v.exc.origin == ('timeout', tid):
            v = Raised(ExcV('TimeoutError', True, 'timeout', ()))
        out.append((v, x))
    return out


@model('asyncio.timeout_at')
def _(I, st, a, k, n, f):
    if a and a[0] != NONE:
        out = []
        for t, x in I.h.clock(st):
            out.extend((Term('aiotimeout', (d,)), y) for d, y in I.binop(
                'Sub', a[0], t, x, n, f))
        return out
    return [(Term('aiotimeout', (NONE,)), st)]


@model('asyncio.timeout')
def _(I, st, a, k, n, f):
    return [(Term('aiotimeout', tuple(a) or (NONE,)), st)]


def _with_timeout_cm(I, v, st, node, fr, inner, is_async):
    def run(x):
        res = []
        for o, y in inner(NONE, x):
            if o[0] == 'exc':
                res.append((Raised(o[1]), y))
            else:
                res.append((Term('out', (Const(0),)), y.with_m(
                    ('tout', node._uid), o)))
        return res
    out = []
    for w, x in with_timeout(I, v.args[0], st, node, fr, run):
        o = x.m(('tout', node._uid))
        m = dict(x.mon)
        m.pop(('tout', node._uid), None)
        x = State(x.heap, x.facts, m, x.trace)
        out.append((('exc', w.exc) if isinstance(w, Raised) else o, x))
    return out


WITH['aiotimeout'] = _with_timeout_cm


def _await_shield(I, v, st, n, f):
    aw = v.args[0]
    out = []
    if isinstance(aw, Ref) and st.has(aw) and st.obj(aw).kind == 'fut' and \
            st.obj(aw).get('outcome') is not None:
        return fut_outcome(I, aw, st, n, f)
    # our own cancellation / timeout: inner goes on
    for w, x in I.h.suspend(st, n, f, ('shield', aw)):
        if abrupt(w):
            out.append((w, x))
    h = I.h
    for w, x in I.await_(aw, h.masked(_no_timeouts(st)), n, f):
        out.append((w, h.unmasked(_restore_timeouts(x, st))))
    return out


def _no_timeouts(st):
    m = dict(st.mon)
    for k in ('timeouts', 'fired'):
        m.pop(k, None)
    return State(st.heap, st.facts, m, st.trace)


def _restore_timeouts(x, st):
    m = dict(x.mon)
    for k in ('timeouts', 'fired', 'tval'):
        if k in st.mon:
            m[k] = st.mon[k]
    return State(x.heap, x.facts, m, x.trace)


AWAIT['shield'] = _await_shield


def _await_wait(I, v, st, n, f):
    d = dict(v.kwargs)
    fs = v.args[0] if v.args else d.get('fs')
    timeout = d.get('timeout', v.args[1] if len(v.args) > 1 else NONE)
    h = I.h
    its = I.items_of(fs, st)
    if its is None and isinstance(fs, Ref) and st.has(fs) and st.obj(
            fs).kind == 'set':
        its = tuple(sorted(st.obj(fs).get('items'), key=repr))
    if its is None:
        raise Broken(f"asyncio.wait of unknown collection at {sname(n)}")
    out = []

    def fin(x, pending=()):
        dn, x = I.alloc(x, 'set', n, f, 'done', items=frozenset(
            i for i in its if i not in pending))
        pd, x = I.alloc(x, 'set', n, f, 'pending', items=frozenset(pending))
        return (Tup((dn, pd)), x)
    alldone = all(isinstance(i, Ref) and st.has(i) and st.obj(i).get(
        'outcome') is not None for i in its)
    if alldone:
        return [fin(st)]
    for w, x in h.suspend(st, n, f, ('wait', fs)):
        if abrupt(w):
            out.append((w, x))
    if timeout != NONE:
        x = h.interfere(st, 'suspend')
        if hasattr(h, 'wait_timeout'):
            x = h.wait_timeout(its, timeout, x, n)
        out.append(fin(x, its))
    rw = d.get('return_when', NONE)
    first = rw == Const('FIRST_COMPLETED') or isinstance(
        rw, Ext) and rw.path.endswith('FIRST_COMPLETED')
    if first and len(its) > 1:
        for i in its:
            i2 = i.v if isinstance(i, Star) else i
            x = h.masked(_no_timeouts(st))
            if timeout != NONE:
                x = x.with_m('tval', st.m('tval', ()) + (timeout,))
            for w, y in I.await_(i2, x, n, f):
                y = h.unmasked(_restore_timeouts(y, st))
                out.append(fin(y, tuple(j for j in its if j != i)))
        return out
    firstexc = rw == Const('FIRST_EXCEPTION') or isinstance(
        rw, Ext) and rw.path.endswith('FIRST_EXCEPTION')
    if firstexc:
        for i in its:
            i2 = i.v if isinstance(i, Star) else i
            x = h.masked(_no_timeouts(st))
            for w, y in I.await_(i2, x, n, f):
                if isinstance(w, Raised):
                    y = h.unmasked(_restore_timeouts(y, st))
                    out.append(fin(y, tuple(j for j in its if j != i)))
    st1 = h.masked(_no_timeouts(st))
    if timeout != NONE:
        st1 = st1.with_m('tval', st.m('tval', ()) + (timeout,))
    cur = [st1]
    for i in its:
        nxt = []
        i2 = i.v if isinstance(i, Star) else i
        for x in cur:
            for w, y in I.await_(i2, x, n, f):
                nxt.append(y)
            if isinstance(i, Star):
                nxt.append(x)
        cur = [y for _, y in I.dedupe([(None, y) for y in nxt])]
    for x in cur:
        out.append(fin(h.unmasked(_restore_timeouts(x, st))))
    return out


AWAIT['wait'] = _await_wait


def _await_gather(I, v, st, n, f):
    r = I.h.gather(v, st, n, f) if hasattr(I.h, 'gather') else None
    if r is not None:
        return r
    d = dict(v.kwargs)
    rex = d.get('return_exceptions', FALSE)
    if hasattr(I.h, 'on_gather'):
        st = I.h.on_gather(v.args, st)
    acc, st = I.alloc(st, 'list', n, f, 'gather', items=())
    I.temps.append(acc)
    was = st.m('ownc')
    try:
        args = []
        for a in v.args:
            if isinstance(a, Star):
                its = I.items_of(a.v, st)
                if its is None:
                    args.append(Star(I.elem_of(a.v)))
                else:
                    args.extend(its)
            else:
                args.append(a)
        outs = []
        cur = [st]

        def one(a, x):
            res = []
            for w, y in I.await_(a, x, n, f):
                if isinstance(w, Raised):
                    if y.m('ownc') and not was:
                        # gather() itself is cancelled: raises when all
                        # children are done
                        res.append((('own',), y))
                        continue
                    if isinstance(w.exc.origin, tuple) and \
                            w.exc.origin[0] == 'timeout':
                        res.append((('exc', w.exc), y))
                        continue
                    for b, z in I.truth(rex, y, n, f):
                        if b:
                            res.append((('next',), I.list_add(
                                acc, w.exc, z)))
                        else:
                            res.append((('exc', w.exc), z))
                else:
                    if y.m('ownc') and not was:
                        res.append((('own',), y))
                    else:
                        res.append((('next',), I.list_add(acc, w, y)))
            return res
        for a in args:
            nxt = []
            for x in cur:
                if isinstance(a, Star):
                    def step(y, a=a):
                        r = [(('next',), y)]
                        for o, z in one(a.v, y):
                            r.append(('again' if o[0] == 'next' else o, z))
                        return r
                    res = I.loop(x, step, n)
                else:
                    res = one(a, x)
                for o, y in res:
                    if o[0] == 'next':
                        nxt.append(y)
                    elif o[0] == 'own':
                        from harness import OWN_CANCEL
                        outs.append((Raised(OWN_CANCEL), y))
                    else:
                        outs.append((Raised(o[1]), y))
            cur = [y for _, y in I.dedupe([(None, y) for y in nxt])]
        outs.extend((acc, x) for x in cur)
        return I.dedupe(outs)
    finally:
        I.temps.pop()


AWAIT['gather'] = _await_gather


@model('asyncio.as_completed')
def _(I, st, a, k, n, f):
    fs = arg(a, k, 0, 'fs')
    its = I.items_of(fs, st)
    if its is None and isinstance(fs, Ref) and st.has(fs) and st.obj(
            fs).kind == 'set':
        its = tuple(sorted(st.obj(fs).get('items'), key=repr))
    if its is None:
        return I.bind(I.to_list(fs, st, n, f, 'asc'), lambda r, x: MODELS[
            'asyncio.as_completed'](I, x, [r], [], n, f))
    if hasattr(I.h, 'on_gather'):
        st = I.h.on_gather(its, st)
    return [(Term('ascompleted', (Tup(tuple(its)),)), st)]


def _iter_ascompleted(I, t, st, node, fr, body, is_async):
    its = t.args[0].items
    out = []
    ps = itertools.permutations(its) if len(its) < 4 else [its]
    for p in ps:
        out.extend(I._each_items(p, st, node, lambda v, x: body(
            ExtCoro('completed', (v,), ()), x)))
    return I.dedupe(out)


ITER['ascompleted'] = _iter_ascompleted
AWAIT['completed'] = lambda I, v, st, n, f: I.await_(v.args[0], st, n, f)


@model('asyncio.wrap_future')
def _(I, st, a, k, n, f):
    src = a[0]
    if isinstance(src, Ref) and st.has(src) and st.obj(src).kind == 'fut':
        return [(src, st)]
    r, st = I.alloc(st, 'fut', n, f, 'wrap', coro=None, src=src,
                    outcome=None, loop=arg(a, k, None, 'loop', NONE))
    return [(r, st)]


@model('asyncio.run_coroutine_threadsafe')
def _(I, st, a, k, n, f):
    return I.h.run_threadsafe(arg(a, k, 0, 'coro'), arg(a, k, 1, 'loop'), st,
                              n, f)


@model('asyncio.iscoroutine')
def _(I, st, a, k, n, f):
    v = a[0]
    if isinstance(v, Coro):
        return [(TRUE, st)]
    if isinstance(v, ExtCoro):
        return [(Const(v.op not in ('gather', 'shield')), st)]
    if isinstance(v, Ref):
        return [(FALSE, st)]
    return [(Term('pred', (Const('iscoroutine'), v)), st)]


@model('inspect.isawaitable', 'asyncio.isfuture', 'inspect.iscoroutine',
       'asyncio.iscoroutinefunction', 'inspect.iscoroutinefunction',
       'inspect.isasyncgen')
def _(I, st, a, k, n, f):
    nm = _mname(n, getattr(getattr(n, 'func', None), 'id', 'pred'))
    if nm == 'iscoroutine':
        return MODELS['asyncio.iscoroutine'](I, st, a, k, n, f)
    return [(Term('pred', (Const(nm), a[0])), st)]


@model('asyncio.current_task')
def _(I, st, a, k, n, f):
    return [(Sym('current_task', 'task'), st)]


@model('asyncio.set_event_loop')
def _(I, st, a, k, n, f):
    return [(NONE, st)]


# semaphores / asyncio locks
def _with_sem(I, v, st, node, fr, inner, is_async):
    out = []
    res = [(NONE, st)]
    for w, x in I.h.suspend(st, node, fr, ('sem', v)):
        res.append((w, x))
    for w, x in res:
        if abrupt(w):
            out.extend(I.outs([(w, x)]))
            continue
        x = x.with_m('sems', x.m('sems', ()) + (v,))
        for o, y in inner(NONE, x):
            l = list(y.m('sems', ()))
            if v in l:
                l.remove(v)
            out.append((o, y.with_m('sems', tuple(l))))
    return I.dedupe(out)


WITH['kind:aiosem'] = WITH['kind:aiolock'] = _with_sem


@meth(['aiosem', 'aiolock'], 'acquire')
def _(I, r, st, a, k, n, f):
    return [(ExtCoro('sem.acquire', (r,), ()), st)]


def _await_sem(I, v, st, n, f):
    out = []
    for w, x in [(NONE, st)] + I.h.suspend(st, n, f, ('sem', v.args[0])):
        if abrupt(w):
            out.append((w, x))
        else:
            out.append((TRUE, x.with_m('sems', x.m('sems', ())
                                       + (v.args[0],))))
    return I.dedupe(out)


AWAIT['sem.acquire'] = _await_sem


@meth(['aiosem', 'aiolock'], 'release')
def _(I, r, st, a, k, n, f):
    l = list(st.m('sems', ()))
    if r in l:
        l.remove(r)
    elif hasattr(I.h, 'over_release'):
        I.h.over_release(r, st, n)
    return [(NONE, st.with_m('sems', tuple(l)))]


@meth(['aiosem', 'aiolock'], 'locked')
def _(I, r, st, a, k, n, f):
    return [(Term('pred', (Const('locked'), r)), st)]


# queues (asyncio): subject specific
@meth('aioqueue', 'get', 'join')
def _(I, r, st, a, k, n, f):
    return [(ExtCoro('q.' + _mname(n, 'get'), (r,), ()), st)]


METHODS[('aioqueue', 'get')] = lambda I, r, st, a, k, n, f: [
    (ExtCoro('q.get', (r,), ()), st)]
METHODS[('aioqueue', 'join')] = lambda I, r, st, a, k, n, f: [
    (ExtCoro('q.join', (r,), ()), st)]
METHODS[('aioqueue', 'put')] = lambda I, r, st, a, k, n, f: [
    (ExtCoro('q.put', (r, a[0]), ()), st)]

# exceptions
METHODS[('ExcV', 'with_traceback')] = lambda I, r, st, a, k, n, f: [(r, st)]
METHODS[('ExcV', 'add_note')] = lambda I, r, st, a, k, n, f: [(NONE, st)]

# executors
@model('concurrent.futures.ThreadPoolExecutor',
       'concurrent.futures.ProcessPoolExecutor')
def _(I, st, a, k, n, f):
    r, st = I.alloc(st, 'pool', n, f, workers=arg(a, k, 0, 'max_workers',
                                                  NONE))
    if hasattr(I.h, 'on_pool'):
        st = I.h.on_pool(r, st, n)
    return [(r, st)]


def _noop(I, r, st, a, k, n, f):
    return [(NONE, st)]


METHODS[('Func', '__call__')] = lambda I, r, st, a, k, n, f: I.call(
    r, a, k, st, n, f)
for _n in ('strip', 'lower', 'upper', 'format', 'join', 'encode', 'lstrip',
           'rstrip', 'replace', 'title'):
    METHODS[('Term', _n)] = (lambda _n: lambda I, r, st, a, k, n, f: [
        (Term('str', (r, Const(_n)) + tuple(a)), st)])(_n)
