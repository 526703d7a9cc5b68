"""Parsing of the analysed package and scope information."""
import ast
import os
import hashlib


class Broken(Exception):
    """The analysis cannot decide (vanished anchor, unsupported construct)."""


FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Module:
    def __init__(self, name, path, text):
        self.name = name
        self.path = path
        self.text = text
        try:
            self.tree = ast.parse(text, path)
        except SyntaxError as e:
            raise Broken(f"{path} doesn't parse: {e}")


class Program:
    """All modules of the package, parsed from the current working tree."""

    def __init__(self, root, package='aiuti'):
        self.root = root
        self.package = package
        self.modules = {}
        self.digest = hashlib.sha256()
        self._uid = 0
        base = os.path.join(root, package)
        for dirpath, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py') or f == '_version.py':
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, root)
                parts = rel[:-3].split(os.sep)
                if parts[-1] == '__init__':
                    parts.pop()
                name = '.'.join(parts)
                with open(path, encoding='utf-8') as fh:
                    text = fh.read()
                self.digest.update(rel.encode() + b'\0' + text.encode())
                m = Module(name, rel, text)
                self._annotate(m)
                self.modules[name] = m

    def _annotate(self, m):
        def rec(node, qual, fn):
            node._uid = self._uid
            self._uid += 1
            node._file = m.path
            node._mod = m.name
            node._qual = qual
            node._fn = fn
            q, f = qual, fn
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef,
                                 ast.ClassDef)):
                q = f"{qual}.{node.name}" if qual else node.name
                node._self_qual = q
            if isinstance(node, FUNCS):
                f = node
                node._scope = None
            for c in ast.iter_child_nodes(node):
                rec(c, q, f)
        rec(m.tree, '', None)


class Scope:
    __slots__ = ('locals', 'nonlocals', 'globals', 'is_gen', 'is_async',
                 'params')


def own_nodes(fn):
    """Nodes of a function body, without those of nested functions."""
    if isinstance(fn, ast.Lambda):
        stack = [fn.body]
    else:
        stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FUNCS):
            if not isinstance(n, ast.Lambda):
                stack.extend(n.decorator_list)
            stack.extend(n.args.defaults)
            stack.extend(d for d in n.args.kw_defaults if d)
            continue
        if isinstance(n, ast.ClassDef):
            stack.extend(n.decorator_list)
            stack.extend(n.bases)
            continue
        stack.extend(ast.iter_child_nodes(n))


def scope_of(fn):
    if getattr(fn, '_scope', None) is not None:
        return fn._scope
    s = Scope()
    a = fn.args
    s.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        s.params.append(a.vararg.arg)
    if a.kwarg:
        s.params.append(a.kwarg.arg)
    names = set(s.params)
    non, glob = set(), set()
    is_gen = False
    comp = set()
    for n in own_nodes(fn):
        if isinstance(n, COMPS):
            for g in n.generators:
                comp.update(id(x) for x in ast.walk(g.target))
    for n in own_nodes(fn):
        if id(n) in comp:
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                            ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add(al.asname or al.name.split('.')[0])
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            is_gen = True
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
    s.locals = names - non - glob
    s.nonlocals = non
    s.globals = glob
    s.is_gen = is_gen
    s.is_async = isinstance(fn, ast.AsyncFunctionDef)
    fn._scope = s
    return s


def comp_targets(node):
    out = set()
    for g in node.generators:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                out.add(x.id)
    return out


# ---------------------------------------------------------------------------
# liveness at loop heads

def _loads(nodes, skip=None):
    """Names read in nodes, nested functions included."""
    out = set()
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if n is skip:
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            out.add(n.target.id)
        elif isinstance(n, (ast.Nonlocal, ast.Global)):
            out.update(n.names)
        todo.extend(ast.iter_child_nodes(n))
    return out


def _stores(nodes):
    out = set()
    for x in nodes:
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


class _Exposed:
    """Names which may be read before they are written."""

    def __init__(self):
        self.out = set()

    def use(self, node, assigned):
        if node is None:
            return
        self.out |= _loads([node]) - assigned

    def block(self, stmts, a):
        """Names written on every normal path; None when there is none."""
        a = set(a)
        for s in stmts:
            a = self.stmt(s, a)
            if a is None:
                return None
        return a

    @staticmethod
    def meet(*xs):
        xs = [x for x in xs if x is not None]
        if not xs:
            return None
        r = set(xs[0])
        for x in xs[1:]:
            r &= x
        return r

    def stmt(self, s, a):
        if isinstance(s, ast.Assign):
            self.use(s.value, a)
            for t in s.targets:
                self.use(t, a)
            for t in s.targets:
                a |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name)
                      and isinstance(n.ctx, ast.Store)}
            return a | self.walrus(s.value)
        if isinstance(s, ast.AnnAssign):
            self.use(s.value, a)
            self.use(s.target, a)
            if s.value is not None and isinstance(s.target, ast.Name):
                a.add(s.target.id)
            return a
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            self.use(s, a)
            return None
        if isinstance(s, ast.If):
            self.use(s.test, a)
            return self.meet(self.block(s.body, a), self.block(s.orelse, a))
        if isinstance(s, ast.While):
            self.use(s.test, a)
            self.block(s.body, a)
            self.block(s.orelse, a)
            return a
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, a)
            self.block(s.body, a | _stores([s.target]))
            self.block(s.orelse, a)
            return a
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, a)
                if i.optional_vars is not None:
                    a = a | _stores([i.optional_vars])
            b = self.block(s.body, a)
            # a context manager may swallow exceptions
            return a if b is None else a
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            b = self.block(s.body, a)
            outs = []
            if b is not None:
                outs.append(self.block(s.orelse, b))
            else:
                self.block(s.orelse, a)
            for h in s.handlers:
                self.use(h.type, a)
                outs.append(self.block(
                    h.body, a | ({h.name} if h.name else set())))
            f = self.block(s.finalbody, a)
            r = self.meet(*outs)
            if r is None or f is None:
                return None
            return r | f
        if isinstance(s, ast.Match):
            self.use(s, a)
            return a
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            self.use(s, a)
            a.add(s.name)
            return a
        self.use(s, a)
        return a

    @staticmethod
    def walrus(n):
        return set()


def live_at(fn, node):
    """Variables of fn which may be read after reaching the loop head."""
    cache = fn.__dict__.setdefault('_live', {})
    if node._uid in cache:
        return cache[node._uid]
    body = [fn.body] if isinstance(fn, ast.Lambda) else fn.body
    live = _loads(body, skip=node)
    # captured variables
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, FUNCS + (ast.ClassDef,)):
                live |= _loads(ast.iter_child_nodes(x))
                live |= _stores(ast.iter_child_nodes(x))
    e = _Exposed()
    if isinstance(node, ast.While):
        e.use(node.test, set())
        e.block(node.body, set())
        e.block(node.orelse, set())
    elif isinstance(node, (ast.For, ast.AsyncFor)):
        e.block(node.body, _stores([node.target]))
        e.block(node.orelse, set())
    else:
        live |= _loads(body)
    live |= e.out
    cache[node._uid] = live
    return live
