"""Program model (modules, functions, classes) and abstract machine state."""
import ast
import os
from .alg import *
from .term import _ite_atom, _canon_cmp, _poly
from . import alg


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        Exception.__init__(self, msg)
        self.node = node


class Dead(Exception):
    """no execution continues past this point"""


class V:
    """abstract value: term, alias tokens of a mutable array, access path in a symbolic dict"""
    __slots__ = ('t', 'tok', 'path')

    def __init__(self, t, tok=frozenset(), path=None):
        self.t = t
        self.tok = tok
        self.path = path

    def __repr__(self):
        return 'V(%s)' % show(self.t, 4)


class View(V):
    """keys of a dictionary: compares and combines like a set"""
    __slots__ = ()


class H:
    """heap object"""
    __slots__ = ('kind', 'cls', 'f', 'items', 'seq', 'origin', 'note')

    def __init__(self, kind, cls=None, f=None, items=None, seq=None, origin=None, note=None):
        self.kind = kind        # inst list dict set file
        self.cls = cls
        self.f = f if f is not None else {}
        self.items = items      # list: [V]; dict: {key Node: V}
        self.seq = seq          # symbolic content (Node) when items is None
        self.origin = origin
        self.note = note

    def copy(self):
        return H(self.kind, self.cls, dict(self.f),
                 (list(self.items) if isinstance(self.items, list) else
                  dict(self.items) if isinstance(self.items, dict) else None),
                 self.seq, self.origin, self.note)


_hid = itertools.count(1)
_fid = itertools.count(1)


class St:
    """abstract state; copy-on-write"""

    def __init__(self):
        self.fr = {'glob': {}}
        self.heap = {}
        self.own = set()
        self.pc = TRUE
        self.trace = LIT0
        self.mut = frozenset()
        self.occ = {}

    def copy(self):
        s = St()
        s.fr = dict(self.fr)
        s.heap = dict(self.heap)
        s.own = set()
        self.own = set()
        s.pc = self.pc
        s.trace = self.trace
        s.mut = self.mut
        s.occ = dict(self.occ)
        return s

    def assign(self, o):
        self.fr, self.heap, self.pc, self.trace = o.fr, o.heap, o.pc, o.trace
        self.mut, self.occ = o.mut, o.occ
        self.own = set()
        o.own = set()

    def setvar(self, fid, name, v):
        if ('f', fid) not in self.own:
            self.fr[fid] = dict(self.fr[fid])
            self.own.add(('f', fid))
        self.fr[fid][name] = v

    def delvar(self, fid, name):
        if ('f', fid) not in self.own:
            self.fr[fid] = dict(self.fr[fid])
            self.own.add(('f', fid))
        self.fr[fid].pop(name, None)

    def new(self, h):
        i = next(_hid)
        self.heap[i] = h
        self.own.add(('h', i))
        return V(mk('ref', i))

    def w(self, i):
        """writable heap object"""
        if ('h', i) not in self.own:
            self.heap[i] = self.heap[i].copy()
            self.own.add(('h', i))
        return self.heap[i]

    def emit(self, ev):
        self.trace = cat(self.trace, mk('lit', ev))


def constrain(f, c, memo=None):
    """simplify diagram f under the care condition c"""
    if c is TRUE or f.op != 'ite' or c is FALSE:
        return f
    if c.op != 'ite':
        c = batom(c)
        if c.op != 'ite':
            return f
    memo = {} if memo is None else memo
    key = (f, c)
    r = memo.get(key)
    if r is not None:
        return r
    ca = c.args[0]
    fa = f.args[0]
    if ca is fa:
        c1, c0 = c.args[1], c.args[2]
        if c1 is FALSE:
            r = constrain(f.args[2], c0, memo)
        elif c0 is FALSE:
            r = constrain(f.args[1], c1, memo)
        else:
            r = _ite_atom(fa, constrain(f.args[1], c1, memo), constrain(f.args[2], c0, memo))
    elif ca.id < fa.id:
        c1, c0 = c.args[1], c.args[2]
        if c1 is FALSE:
            r = constrain(restrict(f, ca, False), c0, memo)
        elif c0 is FALSE:
            r = constrain(restrict(f, ca, True), c1, memo)
        else:
            r1 = constrain(restrict(f, ca, True), c1, memo)
            r0 = constrain(restrict(f, ca, False), c0, memo)
            r = r1 if r1 is r0 else f if (r1 is f or r0 is f) else constrain(f, bor(c1, c0), memo)
    else:
        c1 = restrict(c, fa, True)
        c0 = restrict(c, fa, False)
        if c1 is FALSE:
            r = constrain(restrict(f.args[2], fa, False), c0, memo)
        elif c0 is FALSE:
            r = constrain(restrict(f.args[1], fa, True), c1, memo)
        else:
            r = _ite_atom(fa, constrain(f.args[1], c1, memo), constrain(f.args[2], c0, memo))
    memo[key] = r
    return r


# ---------------------------------------------------------------- program model

class Func:
    def __init__(self, node, module, name, cls=None, env=None, parents=()):
        self.node, self.module, self.name, self.cls, self.env = node, module, name, cls, env
        self.raw = False

    @property
    def where(self):
        return '%s:%s' % (self.module.rel, self.name)


class Cls:
    def __init__(self, node, module, name, world):
        self.node, self.module, self.name, self.world = node, module, name, world
        self.members = {}
        self.setters = {}
        self.attrs = {}
        for s in node.body:
            self._add(s)
        self._mro = None

    def _add(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            decs = [dotted(d) for d in s.decorator_list]
            for d in decs:
                if d and d.endswith('.setter'):
                    self.setters[d[:-7]] = s
                    return
                if d and (d.endswith('.deleter') or d.endswith('.getter')):
                    return
            self.members[s.name] = s
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = s.value
                    self.members.pop(t.id, None)
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            self.attrs[s.target.id] = s.value
        elif isinstance(s, ast.ClassDef):
            self.attrs[s.name] = s
        elif isinstance(s, (ast.If, ast.Try)):
            for b in s.body:
                self._add(b)

    @property
    def qual(self):
        return self.module.name + '.' + self.name

    def order(self):
        """names bound in the class body, in order of their first binding"""
        out = []
        todo = list(self.node.body)
        while todo:
            s = todo.pop(0)
            if isinstance(s, (ast.If, ast.Try)):
                todo[:0] = s.body
                continue
            ts = [s.name] if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else \
                [t.id for t in s.targets if isinstance(t, ast.Name)] if isinstance(s, ast.Assign) else \
                [s.target.id] if isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name) else []
            out += [t for t in ts if t not in out and (t in self.members or t in self.attrs or t in self.setters)]
        return out

    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.node.bases:
                d = dotted(b)
                r = self.world.lookup(self.module, d) if d else None
                if isinstance(r, Cls):
                    for c in r.mro():
                        if c not in out:
                            out.append(c)
                elif r is not None:
                    out.append(r)
                elif d:
                    out.append(d)
            self._mro = out
        return self._mro

    def find(self, name):
        """(kind, owner, node) kind: func | attr"""
        for c in self.mro():
            if isinstance(c, Cls):
                if name in c.members:
                    return 'func', c, c.members[name]
                if name in c.attrs:
                    return 'attr', c, c.attrs[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if isinstance(c, Cls):
                if name in c.setters:
                    return c, c.setters[name]
                if name in c.members or name in c.attrs:
                    return None
        return None

    def extbases(self):
        return [c for c in self.mro() if not isinstance(c, Cls)]


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + '.' + e.attr if b else None
    return None


class Module:
    def __init__(self, world, name, path, rel):
        self.world, self.name, self.path, self.rel = world, name, path, rel
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.names = {}
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.multi = set()
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[s.name] = ('func', s)
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = ('class', s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.names[a.asname] = ('module', a.name)
                    else:
                        self.names[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    pk = self.name if self.is_pkg else self.name.rpartition('.')[0]
                    for _ in range(s.level - 1):
                        pk = pk.rpartition('.')[0]
                    base = pk + ('.' + base if base else '')
                for a in s.names:
                    self.names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if t.id in self.names:
                            self.multi.add(t.id)
                        self.names[t.id] = ('assign', s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.names[e.id] = ('unpack', s.value, k)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.names[s.target.id] = ('assign', s.value)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.multi.add(s.target.id)
            elif isinstance(s, (ast.If, ast.With)):
                self._scan(s.body)
                self._scan(getattr(s, 'orelse', []))
            elif isinstance(s, ast.Try):
                self._scan(s.body)
            elif isinstance(s, (ast.For, ast.While)):
                self._scan(s.body)
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.names[x.id] = ('dyn',)


class World:
    def __init__(self, repo='/repo', extra=None):
        self.repo = repo
        self.mods = {}
        self.roots = {'emva1288': os.path.join(repo, 'src', 'emva1288')}
        self.roots.update(extra or {})
        self.classes = {}
        self.funcs = {}

    def modpath(self, name):
        parts = name.split('.')
        if parts[0] not in self.roots:
            return None
        p = os.path.join(self.roots[parts[0]], *parts[1:])
        if os.path.isdir(p) and os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.isfile(p + '.py'):
            return p + '.py'
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.modpath(name)
        if p is None:
            return None
        base = self.repo if p.startswith(self.repo) else os.path.dirname(self.roots[name.split('.')[0]])
        m = Module(self, name, p, os.path.relpath(p, base))
        self.mods[name] = m
        return m

    def add_source(self, name, path):
        m = Module(self, name, path, os.path.basename(path))
        self.mods[name] = m
        return m

    def cls(self, module, name):
        k = (module.name, name)
        if k not in self.classes:
            self.classes[k] = Cls(module.names[name][1], module, name, self)
        return self.classes[k]

    def lookup(self, module, name, seen=()):
        """static lookup of a dotted name -> Cls | Func | Module | 'ext dotted name' | ('assign', module, node) | None"""
        head, _, rest = name.partition('.')
        e = module.names.get(head)
        if e is None:
            return None
        if e[0] == 'func':
            r = Func(e[1], module, head)
        elif e[0] == 'class':
            r = self.cls(module, head)
        elif e[0] == 'module':
            r = self.module(e[1]) or e[1]
        elif e[0] == 'from':
            m = self.module(e[1])
            if m is not None:
                if e[2] in m.names and (m.name, e[2]) not in seen:
                    r = self.lookup(m, e[2], seen + ((m.name, e[2]),))
                else:
                    r = self.module(e[1] + '.' + e[2])
            else:
                r = e[1] + '.' + e[2]
        elif e[0] in ('assign', 'unpack', 'dyn'):
            r = ('assign', module, e)
        while rest and r is not None:
            head, _, rest = rest.partition('.')
            if isinstance(r, Module):
                if head in r.names:
                    r = self.lookup(r, head)
                else:
                    r = self.module(r.name + '.' + head)
            elif isinstance(r, str):
                r = r + '.' + head
            else:
                return None
        return r

    def get(self, dotted_name):
        """'emva1288.process.results.Results1288' -> Cls/Func/Module"""
        parts = dotted_name.split('.')
        for k in range(len(parts), 0, -1):
            m = self.module('.'.join(parts[:k]))
            if m is not None:
                rest = parts[k:]
                if not rest:
                    return m
                r = self.lookup(m, rest[0])
                for x in rest[1:]:
                    if isinstance(r, Cls):
                        f = r.find(x)
                        if f is None:
                            return None
                        r = Func(f[2], f[1].module, f[1].name + '.' + x, f[1]) if f[0] == 'func' else None
                    else:
                        return None
                return r
        return None
