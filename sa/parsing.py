"""parse_to_dict: C19.

The function is interpreted on abstract mappings, pair sequences and
'key<sep>value' strings. Strings are concatenations of abstract parts whose
separators are known; whether a string is a literal is decided when it is
first parsed.
"""
import itertools

from values import *
from source import Broken
from engine import Interp, abrupt, sname
from harness import Harness

RULES = {
    'C19/model': 'the result maps exactly the (parsed) keys to the parsed '
                 'values, the last one winning',
    'C19/split': 'strings are split at the first separator only',
    'C19/sep': 'a string without separator raises ValueError',
    'C19/raises': 'nothing is raised for proper items; a string which is '
                  'not a literal is left alone',
    'C19/parse': 'only strings are parsed, exactly once and unchanged',
    'C19/eval': 'strings are only handed to the literal parser, never '
                'evaluated',
    'C19/input': 'the argument is left alone',
}
NEED = {'C19': ('calls', 'results', 'parsed', 'splits')}

SEP = Sym('sep', 'str')
PARSE = Sym('parse', 'userfunc')
EVIL = ('eval', 'exec', 'compile', '__import__', 'builtins.eval',
        'builtins.exec', 'builtins.compile', 'os.system', 'os.popen',
        'pickle.loads', 'subprocess.run', 'subprocess.check_output')
# what ast.literal_eval() is documented to raise, and what it does
LITERAL = ('ValueError', 'SyntaxError', 'TypeError', 'MemoryError',
           'RecursionError')


class Root:
    lineno = 0
    _file = '<caller>'

    def __init__(self, uid, q):
        self._uid = uid
        self._qual = q


def s(name):
    return Sym(name, 'str')


def plain(name):
    return Sym(name, 'nonstr')


def cat(*p):
    return Term('strcat', p)


class ParseHarness(Harness):
    max_items = 8
    alloc_k = 3
    not_none_kinds = Harness.not_none_kinds | {'nonstr'}

    def __init__(self, sep, default):
        self.sep = sep
        self.default = default
        self.strs = {}       # string -> parts between separators
        self.maps = {}
        self.stats = {}

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def report(self, rule, msg, node, st):
        self.I.report(rule, msg, node, st)

    def isinst(self, v, p, c, st):
        if v.kind == 'nonstr':
            if p == 'str':
                return False
            return None
        if v.kind == 'mapping':
            if p in ('typing.Mapping', 'typing.Iterable', 'typing.Collection',
                     'collections.abc.Mapping', 'collections.abc.Iterable'):
                return True
            if p in ('str', 'list', 'tuple', 'bytes'):
                return False
        return None

    # -- calls -------------------------------------------------------------
    def hook_call(self, f, args, kwargs, st, node, fr):
        p = f.path if isinstance(f, Ext) else None
        if f == PARSE or p == 'ast.literal_eval':
            return self.parse(f, args, kwargs, st, node)
        if p in EVIL:
            self.report('C19/eval', f'{p}() is reachable with data from the '
                        'caller', node, st)
            return [(Sym('evil', None), st)]
        return None

    def call_unknown(self, path, args, kwargs, st, node, fr):
        if any(isinstance(a, Val) and a.atoms() for a in args):
            raise Broken(f'{path}() at {sname(node)} is not understood')
        return super().call_unknown(path, args, kwargs, st, node, fr)

    def parse(self, f, args, kwargs, st, node):
        self.count('parsed')
        if not self.default and f != PARSE:
            self.report('C19/model', 'another parser is used than the one '
                        'given', node, st)
        if len(args) != 1 or kwargs:
            raise Broken(f'parse called with {len(args)} arguments')
        x = args[0]
        if any(isinstance(t, Term) and t.op == 'parsed' for t in walk(x)):
            self.report('C19/parse', 'the result of the parser is parsed '
                        'again', node, st)
            return []
        ok = self.I.is_str(x) or isinstance(x, Sym) and x.kind == 'str' or \
            self.I.decide(Term('isinstance', (x, Tup((Ext('str'),)))),
                          st) is True
        if not ok:
            self.report('C19/parse', 'something which may not be a string '
                        'is parsed', node, st)
        excs = LITERAL if self.default else ('Exception', 'ValueError')
        out = []
        known = st.m(('p', x))
        if known in (None, TRUE):
            out.append((Term('parsed', (x,)), st.with_m(('p', x), TRUE)))
        if known in (None, FALSE):
            y = st.with_m(('p', x), FALSE)
            out += [(Raised(ExcV(e, e != 'Exception', 'parser', ())),
                     y.note(node, f'parser raises {e}')) for e in excs]
        return out

    # -- mappings ----------------------------------------------------------
    def get_attr(self, v, name, st, node, fr):
        if isinstance(v, Sym) and v.kind in ('str', 'nonstr') and \
                name in ('items', 'keys'):
            return [(self.I.exc('AttributeError', node), st)]
        if isinstance(v, Sym) and v.kind == 'mapping' and hasattr(dict, name):
            return [(Bound(Const(name), v), st)]
        return None

    def truth(self, v, st, node, fr):
        if v == SEP:
            return [(True, st)]
        return None

    def for_each(self, it, st, node, fr, body, is_async):
        if isinstance(it, Sym) and it.kind == 'mapping':
            return self.I._each_items(tuple(k for k, _ in self.maps[it]), st,
                                      node, body)
        return None

    def get_item(self, o, i, st, node, fr):
        if isinstance(o, Sym) and o.kind == 'mapping':
            for k, v in self.maps[o]:
                if k == i:
                    return [(v, st)]
            return [(self.I.exc('KeyError', node), st)]
        if self.parts(o, st) is not None and isinstance(i, Term) and \
                i.op == 'slice':
            return self.slice(o, i.args, st, node)
        return None

    def slice(self, o, sl, st, node):
        ps = self.parts(o, st)
        lo, hi, step = sl
        seplen = Const(len(self.sep.v)) if isinstance(
            self.sep, Const) else Term('len', (self.sep,))

        def pos(x):
            """-> (separator number, behind it?)"""
            if isinstance(x, Term) and x.op == 'seppos' and x.args[0] == o:
                return x.args[1].v, False
            l = self.I.lin(x) if x != NONE else None
            if l is None:
                return None
            for n in range(len(ps) - 1):
                t = Term('seppos', (o, Const(n)))
                for k, behind in ((NONE, False), (seplen, True)):
                    if k == NONE:
                        continue
                    c = self.I.binop('Add', t, k, st, node, None)[0][0]
                    if self.I.lin(c) == l:
                        return n, behind
            return None
        if step == NONE:
            if lo in (NONE, Const(0)):
                p = pos(hi)
                if p and not p[1]:
                    return [(self.join(ps[:p[0] + 1]), st)]
            if hi == NONE:
                p = pos(lo)
                if p and p[1]:
                    return [(self.join(ps[p[0] + 1:]), st)]
        return [(Term('substr', (o,) + sl), st)]

    # -- strings -----------------------------------------------------------
    def parts(self, v, st):
        """Parts of a string between its separators."""
        if v in self.strs:
            return self.strs[v]
        if isinstance(v, Term) and v.op == 'joined':
            return v.args
        if isinstance(v, Sym) and v.kind == 'str' and v != SEP:
            return (v,)
        return None

    def join(self, ps):
        if len(ps) == 1:
            return ps[0]
        for k, v in self.strs.items():
            if v == tuple(ps):
                return k
        return Term('joined', tuple(ps))

    def split(self, v, ps, n, st, node, fr, right=False):
        self.count('splits')
        if n >= 0 and len(ps) > n + 1:
            if right:
                ps = (self.join(ps[:len(ps) - n]),) + ps[len(ps) - n:]
            else:
                ps = ps[:n] + (self.join(ps[n:]),)
        r, st = self.I.alloc(st, 'list', node, fr, 'split', items=tuple(ps))
        return [(r, st)]

    def hook_method(self, recv, name, args, kwargs, st, node, fr):
        I = self.I
        if isinstance(recv, Sym) and recv.kind == 'mapping':
            ent = self.maps[recv]
            if name in ('items', 'keys', 'values'):
                return [(Tup(tuple(
                    Tup(e) if name == 'items' else e[name == 'values']
                    for e in ent)), st)]
            if name == 'get':
                for k, v in ent:
                    if k == args[0]:
                        return [(v, st)]
            if name == 'copy':
                return [(recv, st)]
            raise Broken(f'mapping.{name}() is not understood')
        ps = self.parts(recv, st)
        if ps is None:
            return None
        d = dict(kwargs)
        sep = args[0] if args else d.get('sep', NONE)
        if name in ('split', 'rsplit', 'partition', 'rpartition', 'find',
                    'index', 'rfind', 'rindex', 'count'):
            if sep != self.sep:
                # not where it should be split: anything may come out
                self.count('splits')
                if len(ps) > 1 or recv in self.strs:
                    self.report('C19/split', 'a string is searched for '
                                'something else than the separator', node,
                                st)
                ps = (recv,)
            if name in ('split', 'rsplit'):
                n = args[1] if len(args) > 1 else d.get('maxsplit', Const(-1))
                if not isinstance(n, Const):
                    raise Broken('maxsplit is not understood')
                return self.split(recv, ps, n.v, st, node, fr,
                                  name == 'rsplit')
            if name == 'partition':
                self.count('splits')
                return [(Tup((ps[0], sep, self.join(ps[1:]))) if len(ps) > 1
                         else Tup((recv, Const(''), Const(''))), st)]
            if name == 'rpartition':
                self.count('splits')
                return [(Tup((self.join(ps[:-1]), sep, ps[-1])) if len(ps) > 1
                         else Tup((Const(''), Const(''), recv)), st)]
            if name == 'count':
                return [(Const(len(ps) - 1), st)]
            self.count('splits')
            if len(ps) == 1:
                return [(I.exc('ValueError', node) if 'index' in name
                         else Const(-1), st)]
            return [(Term('seppos', (recv, Const(
                0 if name[0] != 'r' else len(ps) - 2))), st)]
        return None

    def compare(self, op, a, b, st, node, fr):
        if op in ('In', 'NotIn') and a == self.sep:
            ps = self.parts(b, st)
            if ps is not None:
                return [((len(ps) > 1) == (op == 'In'), st)]
        if op in ('Eq', 'NotEq') and SEP in (a, b) and (
                a == b or Const('') in (a, b)):
            return [((a == b) == (op == 'Eq'), st)]
        if isinstance(a, Term) and a.op == 'seppos' and isinstance(b, Const):
            # a valid position is never negative
            if b.v == -1 and op in ('Eq', 'NotEq', 'Is', 'IsNot'):
                return [(op in ('NotEq', 'IsNot'), st)]
            if b.v == 0 and op in ('Lt', 'GtE'):
                return [(op == 'GtE', st)]
            if b.v == -1 and op in ('Gt', 'LtE'):
                return [(op == 'Gt', st)]
        return None

    def distinct(self, a, b, st):
        return False


# ---------------------------------------------------------------------------

def build():
    """[(name, how, entries)]; entries: (key, value, kind of item)"""
    k1, k2, v1, v2 = s('k1'), s('k2'), s('v1'), s('v2')
    n1, n2 = plain('n1'), plain('n2')
    out = []
    for how in ('mapping', 'dict', 'pairs', 'lists', 'iter'):
        out.append((how, []))
        out.append((how, [(k1, v1), (k2, v2)]))
        out.append((how, [(n1, v1)]))
        out.append((how, [(k1, n2)]))
        out.append((how, [(n1, n2), (k2, v2)]))
    for how in ('pairs', 'iter'):
        out.append((how, [(k1, v1), (k1, v2)]))
    for how in ('strings', 'striter'):
        out.append((how, [(k1, v1)]))
        out.append((how, [(k1, v1), (k2, v2)]))
        out.append((how, [(k1, v1), (k1, v2)]))
        out.append((how, [(k1, ('many', v1, v2))]))
        out.append((how, [(k1, ('many', v1, v2)), (k2, v2)]))
        out.append((how, [('none', s('nosep'))]))
        out.append((how, [(k1, v1), ('none', s('nosep'))]))
    out.append(('mixed', [(k1, v1), (k2, ('many', v1, v2))]))
    return out


class Run:
    def __init__(self, program, out):
        self.p, self.out = program, out

    def one(self, how, entries, sep, default, keys):
        h = ParseHarness(sep if sep is not None else Const('='), default)
        I = Interp(self.p, h)
        st = I.load('aiuti.parsing', State())
        f = I.module_attr('aiuti.parsing', 'parse_to_dict', st)
        n = Root(-1, 'parse_to_dict')
        want, items, bad = [], [], False
        for i, (k, v) in enumerate(entries):
            if k == 'none':
                bad = True
                items.append(v)
                continue
            if isinstance(v, tuple):
                parts = (k,) + v[1:]
                v = h.join(parts[1:])
            else:
                parts = (k, v)
            if how in ('strings', 'striter') or how == 'mixed' and i:
                item = s(('item', i))
                h.strs[item] = parts
                items.append(item)
            elif how == 'lists':
                r, st = I.alloc(st, 'list', Root(-10 - i, ''), None, 'pair',
                                items=(k, v))
                items.append(r)
            else:
                items.append(Tup((k, v)))
            want.append((k, v))
        before = None
        if how == 'mapping':
            arg = Sym('the_mapping', 'mapping')
            h.maps[arg] = tuple(entries)
        elif how == 'dict':
            arg, st = I.alloc(st, 'dict', n, None, 'in', ent=tuple(entries))
        else:
            arg, st = I.alloc(st, 'list', n, None, 'in', items=tuple(items))
        base = arg
        if isinstance(base, Ref):
            before = st.obj(base)
        if how in ('iter', 'striter'):
            arg, st = I.alloc(st, 'iterator', n, None, 'it', src=arg, pos=0)
        kw = []
        if sep is not None:
            kw.append(('sep', sep))
        if not default:
            kw.append(('parse', PARSE))
        if keys is not None:
            kw.append(('parse_keys', keys))
        st = st.with_m('keep', Tup((arg, base)))
        h.count('calls')
        for v, x in I.call(f, [arg], kw, st, n, None):
            where = self.at(x, n)
            if isinstance(v, Raised):
                if bad and I.exc_match(v.exc, 'ValueError'):
                    h.count('results')
                    continue
                if bad:
                    h.report('C19/sep', f'a string without separator raises '
                             f'{v.exc.cls}', where, x)
                else:
                    h.report('C19/raises', f'{v.exc.cls} is raised for '
                             'proper items', where, x)
                continue
            if bad:
                h.report('C19/sep', 'a string without separator is accepted',
                         where, x)
                continue
            h.count('results')
            if before is not None and x.has(base) and x.obj(base) != before:
                h.report('C19/input', 'the argument is modified', where, x)
            if v == base:
                h.report('C19/model', 'the argument itself is returned',
                         where, x)
                continue
            if not (isinstance(v, Ref) and x.obj(v).kind == 'dict'):
                raise Broken(f'result is not understood: {v}')
            got = x.obj(v).get('ent')
            exp = {}
            for a, b in want:
                if keys != FALSE:
                    a = self.lit(a, x)
                exp[a] = self.lit(b, x)
            if got != tuple(exp.items()):
                rule = 'C19/model'
                h.report(rule, f'unexpected result for {how}', where,
                         x.note(n, f'result {got}, expected {exp}'))
        fs, stats, info = self.out
        for k, v in I.findings.items():
            fs.setdefault(k, v)
        for k, v in h.stats.items():
            stats[k] = stats.get(k, 0) + v
        info['functions'] |= I.functions
        info['opaque'].update(I.opaque)
        info['variants'] += 1
        info['nodes'] = max(info['nodes'], len(I.nodes))
        info['steps'] += I.steps

    def lit(self, v, st):
        if isinstance(v, Sym) and v.kind == 'nonstr':
            return v
        if st.m(('p', v)) == FALSE:
            return v
        return Term('parsed', (v,))

    def at(self, st, node):
        t = st.trace
        while t is not None and t[2] == '<caller>':
            t = t[0]
        n = Root(-6, node._qual)
        if t:
            n._file, n.lineno = t[2], t[1]
        return n


def analyse(program):
    findings, stats = {}, {}
    info = {'functions': set(), 'opaque': {}, 'variants': 0, 'nodes': 0,
            'steps': 0}
    r = Run(program, (findings, stats, info))
    for how, entries in build():
        for sep, default, keys in itertools.product(
                (None, SEP), (True, False), (None, TRUE, FALSE)):
            r.one(how, entries, sep, default, keys)
    return findings, stats, info
