"""Whole-package syntax-level analyses: functions, name resolution, call graph."""
import ast
import builtins
import os
from .state import World, Module


class Fn:
    """a function (or module body) of the package"""

    def __init__(self, mod, node, qual, cls=None, parent=None):
        self.mod, self.node, self.qual, self.cls, self.parent = mod, node, qual, cls, parent
        self.locals = bound_names(node) if node is not mod.tree else set()
        self.imports = {}
        for s in own_nodes(node):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.imports.update(import_names(mod, s))

    @property
    def body(self):
        return self.node.body if isinstance(self.node.body, list) else [ast.Expr(self.node.body)]

    @property
    def where(self):
        return '%s:%s %s' % (self.mod.rel, getattr(self.node, 'lineno', 1), self.qual)

    def at(self, n):
        return '%s:%s %s' % (self.mod.rel, getattr(n, 'lineno', '?'), self.qual)


def own_nodes(node):
    """nodes of a function body, not those of functions or classes nested in it"""
    stack = list(node.body) if isinstance(getattr(node, 'body', None), list) else list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            if not isinstance(n, ast.Lambda):
                stack.extend(n.decorator_list)
            if not isinstance(n, ast.ClassDef):
                stack.extend(x for x in n.args.defaults + n.args.kw_defaults if x is not None)
            continue
        stack.extend(ast.iter_child_nodes(n))


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def bound_names(node):
    out, glob = set(), set()
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            out.add(x.arg)
    for n in own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add((x.asname or x.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out - glob


def import_names(mod, s):
    """name -> dotted thing it is bound to"""
    out = {}
    if isinstance(s, ast.Import):
        for a in s.names:
            if a.asname:
                out[a.asname] = a.name
            else:
                out[a.name.split('.')[0]] = a.name.split('.')[0]
    else:
        base = s.module or ''
        if s.level:
            parts = mod.name.split('.')
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([base] if base else []))
        for a in s.names:
            if a.name != '*':
                out[a.asname or a.name] = base + '.' + a.name
    return out


def dotted_name(e):
    ps = []
    while isinstance(e, ast.Attribute):
        ps.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        ps.append(e.id)
        return ps[::-1]
    return None


class Package:
    def __init__(self, world, root='emva1288'):
        self.world = world
        self.mods = {}
        base = world.roots[root]
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if os.path.isfile(os.path.join(d, x, '__init__.py')))
            for f in sorted(fs):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), base)[:-3].split(os.sep)
                    if rel[-1] == '__init__':
                        rel.pop()
                    name = '.'.join([root] + rel)
                    m = world.module(name)
                    if m is not None:
                        self.mods[name] = m
        self.fns = []
        self.by = {}
        self.classes = {}
        for m in self.mods.values():
            top = Fn(m, m.tree, m.name)
            self.fns.append(top)
            self.by[m.name] = top
            self._scan(m, m.tree.body, m.name, None, top)
        for f in self.fns:
            self.by.setdefault(f.qual, f)

    def _scan(self, m, body, prefix, cls, parent):
        for s in body:
            self._scan1(m, s, prefix, cls, parent)

    def _scan1(self, m, s, prefix, cls, parent):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Fn(m, s, prefix + '.' + s.name, cls, parent)
            self.fns.append(f)
            self._scan(m, s.body, f.qual, None, f)
        elif isinstance(s, ast.ClassDef):
            self.classes[prefix + '.' + s.name] = (m, s)
            self._scan(m, s.body, prefix + '.' + s.name, s, parent)
        else:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.stmt):
                    self._scan1(m, n, prefix, cls, parent)
                elif isinstance(n, (ast.ExceptHandler, ast.match_case)):
                    self._scan(m, n.body, prefix, cls, parent)

    # names -----------------------------------------------------------------
    def resolve(self, fn, e):
        """dotted name of what the expression denotes: 'emva1288....', 'PIL.Image.open', 'builtins.open', or None"""
        ps = dotted_name(e)
        if ps is None:
            return None
        head = ps[0]
        f = fn
        base = None
        while f is not None:
            if head in f.imports:
                base = f.imports[head]
                break
            if f.node is not f.mod.tree and head in f.locals:
                q = f.qual + '.' + head
                base = q if q in self.by or q in self.classes else None
                if base is None:
                    return None
                break
            f = f.parent
        if f is None:
            e_ = fn.mod.names.get(head)
            if e_ is None:
                if hasattr(builtins, head):
                    base = 'builtins.' + head
                else:
                    return None
            elif e_[0] in ('func', 'class'):
                base = fn.mod.name + '.' + head
            elif e_[0] == 'module':
                base = e_[1]
            elif e_[0] == 'from':
                base = e_[1] + '.' + e_[2]
            else:
                return None
        return self.canon('.'.join([base] + ps[1:]))

    def canon(self, name, depth=0):
        """follow re-exports inside the package"""
        if name in self.by or name in self.classes or depth > 8:
            return name
        parts = name.split('.')
        for k in range(len(parts) - 1, 0, -1):
            m = self.mods.get('.'.join(parts[:k]))
            if m is not None:
                e = m.names.get(parts[k])
                if e is None:
                    return name
                if e[0] == 'from':
                    return self.canon('.'.join([e[1], e[2]] + parts[k + 1:]), depth + 1)
                if e[0] == 'module':
                    return self.canon('.'.join([e[1]] + parts[k + 1:]), depth + 1)
                return name
        return name

    def method(self, fn, e):
        """Fn of `self.name` inside a method, searching the base classes in the package"""
        if not (isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name)):
            return None
        f = fn
        while f is not None and f.cls is None:
            f = f.parent
        if f is None or not getattr(f.node, 'args', None) or not f.node.args.args:
            return None
        if e.value.id != f.node.args.args[0].arg:
            return None
        return self.member(f.qual.rsplit('.', 1)[0], e.attr)

    def member(self, cq, name, seen=()):
        if cq in seen or cq not in self.classes:
            return None
        if cq + '.' + name in self.by:
            return self.by[cq + '.' + name]
        m, node = self.classes[cq]
        top = self.by[m.name]
        for b in node.bases:
            q = self.resolve(top, b)
            r = q and self.member(q, name, seen + (cq,))
            if r:
                return r
        return None

    def callee(self, fn, call):
        """(Fn or None, dotted name or None)"""
        q = self.resolve(fn, call.func)
        if q is not None:
            f = self.by.get(q)
            if f is None and q in self.classes:
                f = self.member(q, '__init__')
            if f is None and '.' in q:
                c, _, n = q.rpartition('.')
                f = self.member(c, n)
            return f, q
        f = self.method(fn, call.func)
        return f, (f.qual if f else None)
