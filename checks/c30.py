"""Every library name used exists"""
import ast
import builtins
import importlib
import inspect
import os
import re
import sys
from .common import *
from vf.lint import Package, own_nodes, dotted_name, targets

TECHNIQUE = ('name and attribute resolution over the whole package: scopes, imports, class members, inferred receiver classes, and the '
             'namespaces and signatures of the installed libraries')
NOTE = ('Every name, import, dotted library reference, self attribute, attribute of an object whose class can be inferred, other '
        'attribute name, call of a package function or of a library function with a known signature, and raise statement of the '
        'package is resolved; the libraries are looked up in their installed versions.')
LEVEL_NOTE = 'attributes of objects of unknown class are only required to exist in some class of the package or of the libraries it uses'
MIN = 1500
LIBS = ['numpy', 'numpy.ma', 'numpy.random', 'numpy.fft', 'numpy.linalg', 'scipy.optimize', 'scipy.ndimage', 'matplotlib', 'matplotlib.figure',
        'matplotlib.axes', 'matplotlib.axis', 'matplotlib.lines', 'matplotlib.text', 'matplotlib.legend', 'matplotlib.patches',
        'matplotlib.ticker', 'matplotlib.backend_bases', 'matplotlib.backends.backend_pdf', 'matplotlib.backends.backend_agg',
        'matplotlib.pyplot', 'matplotlib.image', 'matplotlib.gridspec', 'matplotlib.colors', 'matplotlib.collections', 'lxml.etree',
        'PIL.Image', 'jinja2', 'logging', 'os', 'pathlib', 'collections', 'io', 'tempfile', 're', 'string', 'datetime', 'types', 'functools',
        'itertools', 'fractions', 'decimal', 'math', 'copy', 'shutil', 'json', 'contextlib', 'inspect', 'warnings', 'threading', 'enum',
        'dataclasses', 'abc', 'typing', 'operator', 'subprocess', 'argparse', 'array', 'struct', 'csv', 'textwrap', 'random', 'time']
os.environ.setdefault('MPLBACKEND', 'Agg')
_cache = {}


def lib(name):
    if name not in _cache:
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                _cache[name] = importlib.import_module(name)
        except Exception:
            _cache[name] = None
    return _cache[name]


MISSING = object()


def lookup(dotted):
    """library object, MISSING, or None when the head is not an importable library"""
    parts = dotted.split('.')
    if parts[0] == 'builtins':
        o = builtins
    else:
        o = lib(parts[0])
    if o is None:
        return MISSING, parts[0]
    import warnings
    for k, p in enumerate(parts[1:], 1):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                o = getattr(o, p)
        except Exception:
            m = lib('.'.join(parts[:k + 1])) if inspect.ismodule(o) else None
            if m is None:
                if not inspect.ismodule(o) and not inspect.isclass(o):
                    return None, None        # attribute of a library instance
                return MISSING, '.'.join(parts[:k + 1])
            o = m
    return o, None


def instance_attrs(modname):
    """names assigned on objects in the source of a library module"""
    m = lib(modname)
    f = getattr(m, '__file__', None)
    out = set()
    if f and f.endswith('.py'):
        try:
            with open(f, encoding='utf-8', errors='replace') as h:
                src = h.read()
        except OSError:
            return out
        out.update(re.findall(r'\bself\.(\w+)', src))
        out.update(re.findall(r'__slots__.*?[\'"](\w+)[\'"]', src))
    return out


def universe(pkg):
    names = set(dir(object)) | set(dir(types_mod().FunctionType)) | set(dir(types_mod().ModuleType))
    for b in vars(builtins).values():
        names.update(dir(b))
    for n in LIBS:
        m = lib(n)
        if m is None:
            continue
        names.update(dir(m))
        for k, c in list(vars(m).items()):
            if inspect.isclass(c):
                names.update(dir(c))
        names |= instance_attrs(n)
    for m in pkg.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for q in ([a.name for a in n.names] if isinstance(n, ast.Import) else [n.module or '']):
                    if q and not q.startswith('emva1288') and lib(q) is not None:
                        names.update(dir(lib(q)))
                        for c in vars(lib(q)).values():
                            if inspect.isclass(c):
                                names.update(dir(c))
                        names |= instance_attrs(q)
    return names


def types_mod():
    import types
    return types


class Names:
    def __init__(self, ck, pkg):
        self.ck, self.pkg = ck, pkg
        self.assigned = set()          # attributes assigned on any object in the package
        self.defined = set()
        for fn in pkg.fns:
            for n in own_nodes(fn.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.assigned.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and \
                        isinstance(n.args[1], ast.Constant):
                    self.assigned.add(n.args[1].value)
        for q, (m, c) in pkg.classes.items():
            self.defined |= self.own(q)
        for m in pkg.mods.values():
            self.defined |= set(m.names)
        self.univ = universe(pkg)

    # class members -----------------------------------------------------------
    def own(self, q):
        m, c = self.pkg.classes[q]
        out = set()
        for s in ast.walk(c):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                out.add(s.name)
            elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                out.add(s.id)
            elif isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store) and isinstance(s.value, ast.Name):
                out.add(s.attr)
            elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == 'setattr' and len(s.args) == 3:
                if isinstance(s.args[1], ast.Constant):
                    out.add(s.args[1].value)
                else:
                    out.add('*')
            elif isinstance(s, ast.Attribute) and s.attr == '__dict__':
                out.add('*')
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                out.update((a.asname or a.name).split('.')[0] for a in s.names)
        cn = c.name.lstrip('_')
        out |= {'_' + cn + n for n in out if n.startswith('__') and not n.endswith('__')}
        if '__getattr__' in out or '__getattribute__' in out:
            out.add('*')
        if c.decorator_list:
            pass
        return out

    def members(self, q, seen=()):
        """names of the class, its bases; '*' when anything may exist"""
        if q in seen:
            return set()
        m, c = self.pkg.classes[q]
        out = self.own(q) | set(dir(object))
        top = self.pkg.by[m.name]
        for b in c.bases:
            bq = self.pkg.resolve(top, b)
            if bq in self.pkg.classes:
                out |= self.members(bq, seen + (q,))
            elif bq is not None:
                o, _ = lookup(bq)
                if inspect.isclass(o):
                    for k in o.__mro__:
                        out |= set(dir(k))
                        if k.__module__ not in ('builtins',):
                            out |= instance_attrs(k.__module__)
                else:
                    out.add('*')
            else:
                out.add('*')
        if any(k.arg == 'metaclass' for k in c.keywords):
            out |= {'register', 'mro'}
        return out

    def subclasses(self, q):
        out = []
        for p, (m, c) in self.pkg.classes.items():
            if p != q and q in self.bases(p):
                out.append(p)
        return out

    def bases(self, q, seen=()):
        m, c = self.pkg.classes[q]
        out = []
        for b in c.bases:
            bq = self.pkg.resolve(self.pkg.by[m.name], b)
            if bq in self.pkg.classes and bq not in seen:
                out.append(bq)
                out += self.bases(bq, seen + (q,))
        return out

    # receiver classes -----------------------------------------------------------
    def infer(self, fn):
        """local name -> dotted class, for names bound only by calls of one class"""
        out, bad = {}, set()
        for n in own_nodes(fn.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                k = n.targets[0].id
                c = self.classof(fn, n.value)
                if c is None or out.get(k, c) != c:
                    bad.add(k)
                out[k] = c
            elif isinstance(n, ast.With):
                for it in n.items:
                    if it.optional_vars is not None:
                        bad |= set(targets(it.optional_vars))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                pass
            if isinstance(n, (ast.For, ast.comprehension)):
                bad |= set(targets(n.target))
            if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name):
                bad.add(n.target.id)
            if isinstance(n, ast.Assign) and not (len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)):
                for t in n.targets:
                    bad |= set(targets(t))
            if isinstance(n, ast.ExceptHandler) and n.name:
                bad.add(n.name)
        a = getattr(fn.node, 'args', None)
        if a is not None:
            bad |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        return {k: c for k, c in out.items() if k not in bad and c}

    def classof(self, fn, e):
        if isinstance(e, ast.Call):
            q = self.pkg.resolve(fn, e.func)
            if q in self.pkg.classes:
                return q
            if q is not None and not q.startswith('emva1288'):
                o, _ = lookup(q)
                if inspect.isclass(o) and o.__module__ != 'builtins':
                    return q
        return None

    def infer_self(self, q):
        """self attribute -> class, when every assignment of it in class and package agrees"""
        out, bad = {}, set()
        for p in [q] + self.bases(q) + self.subclasses(q):
            for fn in self.pkg.fns:
                if not fn.qual.startswith(p + '.'):
                    continue
                for n in own_nodes(fn.node):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
                    for t in ts:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            c = self.classof(fn, n.value) if isinstance(n, ast.Assign) and len(n.targets) == 1 else None
                            if c is None or out.get(t.attr, c) != c:
                                bad.add(t.attr)
                            out[t.attr] = c
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute):
                                    bad.add(x.attr)
        return {k: c for k, c in out.items() if k not in bad and c}

    def has(self, cq, attr):
        """True / False / None"""
        if cq in self.pkg.classes:
            ms = self.members(cq)
            if '*' in ms:
                return None
            return attr in ms or attr in self.assigned
        o, _ = lookup(cq)
        if not inspect.isclass(o):
            return None
        if hasattr(o, '__getattr__'):
            return None
        if attr in dir(o) or attr in self.assigned:
            return True
        for k in o.__mro__:
            if k.__module__ != 'builtins' and attr in instance_attrs(k.__module__):
                return True
        # C classes list all their members
        return False


SIG = {}


def signature(q):
    if q not in SIG:
        o, _ = lookup(q)
        s = None
        if o is not MISSING and o is not None and callable(o):
            try:
                s = inspect.signature(o)
                if inspect.isclass(o) and o.__module__ == 'builtins':
                    s = None
            except (ValueError, TypeError):
                s = None
        SIG[q] = s
    return SIG[q]


def fits(params, call, bound):
    """why the call cannot bind; params: (positional names, required positional, keyword-only, required kwonly, varargs, varkw, posonly)"""
    pos, req, kwo, kwreq, va, vk, po = params
    if bound:
        pos, req = pos[1:], [r for r in req if r != params[0][0]] if params[0] else req
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    if not va and n > len(pos):
        return 'takes %d positional arguments, given %d' % (len(pos), n)
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return 'argument %s given twice' % k.arg
        if k.arg not in pos and k.arg not in kwo and not vk:
            return 'no argument named %s' % k.arg
        if k.arg in po and not vk:
            return '%s is positional only' % k.arg
        given.add(k.arg)
    if not star and not dstar:
        miss = [r for r in list(req) + list(kwreq) if r not in given]
        if miss:
            return 'missing %s' % ', '.join(miss)
    elif not dstar:
        miss = [r for r in kwreq if r not in given]
        if miss:
            return 'missing %s' % ', '.join(miss)
    return None


def params_of_def(d):
    a = d.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    req = pos[:len(pos) - len(a.defaults)]
    kwo = [x.arg for x in a.kwonlyargs]
    kwreq = [x.arg for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is None]
    return pos, req, kwo, kwreq, a.vararg is not None, a.kwarg is not None, [x.arg for x in a.posonlyargs]


def params_of_sig(s):
    P = inspect.Parameter
    ps = list(s.parameters.values())
    pos = [p.name for p in ps if p.kind in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD)]
    req = [p.name for p in ps if p.kind in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD) and p.default is P.empty]
    kwo = [p.name for p in ps if p.kind == P.KEYWORD_ONLY]
    kwreq = [p.name for p in ps if p.kind == P.KEYWORD_ONLY and p.default is P.empty]
    return (pos, req, kwo, kwreq, any(p.kind == P.VAR_POSITIONAL for p in ps), any(p.kind == P.VAR_KEYWORD for p in ps),
            [p.name for p in ps if p.kind == P.POSITIONAL_ONLY])


EXC_KW = {'ImportError': {'name', 'path'}, 'ModuleNotFoundError': {'name', 'path'}, 'AttributeError': {'name', 'obj'}, 'NameError': {'name'}}
EXC_N = {'UnicodeDecodeError': 5, 'UnicodeEncodeError': 5, 'UnicodeTranslateError': 4}


def scope_names(fn):
    """names visible in the function"""
    out = set()
    f = fn
    first = True
    while f is not None:
        if f.node is f.mod.tree:
            out |= set(f.mod.names)
        else:
            out |= f.locals
        f = f.parent
    return out | set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__spec__', '__class__', '__all__',
                                       '__loader__', '__builtins__'}


def guarded(fn, node):
    """inside a try whose handler catches ImportError / AttributeError / NameError, or under hasattr"""
    def inside(root, target):
        return any(x is target for x in ast.walk(root))
    if isinstance(node, ast.Attribute):
        for n in ast.walk(fn.mod.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'hasattr' and len(n.args) == 2 and \
                    isinstance(n.args[1], ast.Constant) and n.args[1].value == node.attr:
                return True
    for n in ast.walk(fn.mod.tree):
        if isinstance(n, ast.Try) and any(inside(b, node) for b in n.body):
            for h in n.handlers:
                t = '' if h.type is None else ast.unparse(h.type)
                if h.type is None or any(x in t for x in ('ImportError', 'ModuleNotFoundError', 'AttributeError', 'NameError', 'Exception', 'TypeError')):
                    return True
        if isinstance(n, (ast.If, ast.IfExp)) and 'hasattr' in ast.unparse(n.test):
            if any(inside(b, node) for b in (n.body if isinstance(n.body, list) else [n.body])):
                return True
    return False


def run(ck, pkg=None, record=None):
    pkg = pkg or Package(ck.world)
    nm = Names(ck, pkg)
    for fn in pkg.fns:
        ck.guard('names of ' + fn.qual, lambda: function(ck, pkg, nm, fn), fn.where)
    classes(ck, pkg, nm)
    if record is None:
        control(ck)


def function(ck, pkg, nm, fn):
    names = scope_names(fn)
    cls = None
    f = fn
    while f is not None and f.cls is None:
        f = f.parent
    selfname = f.node.args.args[0].arg if f is not None and f.node.args.args else None
    comp = set()
    for n in own_nodes(fn.node):
        if isinstance(n, ast.comprehension):
            comp |= set(targets(n.target))
        if isinstance(n, ast.Lambda):
            a = n.args
            comp |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    classbody = set()
    if fn.node is fn.mod.tree:
        for c in ast.walk(fn.node):
            if isinstance(c, ast.ClassDef):
                for s in c.body:
                    for x in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else [s]:
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            classbody.add(x.id)
                        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                            classbody.add(x.name)
    loc = nm.infer(fn)
    own = nm.infer_self(f.qual.rsplit('.', 1)[0]) if f is not None and f.qual.rsplit('.', 1)[0] in pkg.classes else {}
    nodes = list(own_nodes(fn.node))
    for n in list(nodes):
        if isinstance(n, ast.Lambda):
            nodes += [x for x in ast.walk(n.body)]
        if isinstance(n, ast.ClassDef) and fn.node is fn.mod.tree:
            for s in n.body:
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    nodes += list(ast.walk(s))
                elif isinstance(s, ast.FunctionDef):
                    for d in s.decorator_list + s.args.defaults:
                        nodes += list(ast.walk(d))
            for b in n.bases:
                nodes += list(ast.walk(b))
    inner = {id(n.value) for n in nodes if isinstance(n, ast.Attribute)}

    def report(kind, what, node, ok, why=''):
        v = PROVED if ok else UNDECIDED if ok is None else VIOLATED
        if v == VIOLATED and guarded(fn, node):
            v = PROVED
        ck.add('%s %s' % (kind, what), v, fn.at(node), why, 'the name exists')

    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            report('name', '%s in %s' % (n.id, fn.qual), n, n.id in names or n.id in comp or n.id in classbody, 'undefined name %s' % n.id)
        elif isinstance(n, ast.Import):
            for a in n.names:
                ok = a.name in pkg.mods if a.name.split('.')[0] == 'emva1288' else lookup(a.name)[0] is not MISSING
                report('import', a.name, n, ok, 'module %s does not exist' % a.name)
        elif isinstance(n, ast.ImportFrom):
            from vf.lint import import_names
            for k, q in import_names(fn.mod, n).items():
                if q.split('.')[0] == fn.mod.name.split('.')[0]:
                    ok = exists(pkg, q)
                else:
                    ok = lookup(q)[0] is not MISSING
                report('import', q, n, ok, '%s does not exist' % q)
        elif isinstance(n, ast.Attribute):
            ps = dotted_name(n)
            q = pkg.resolve(fn, n) if ps else None
            if ps and ps[0] in comp and ps[0] not in names:
                q = None
            if q is not None and id(n) not in inner or q is not None and isinstance(n.ctx, ast.Load):
                if q.split('.')[0] == fn.mod.name.split('.')[0]:
                    ok = exists(pkg, q, nm)
                    report('package name', q, n, ok, '%s does not exist' % q)
                    continue
                o, at = lookup(q)
                report('library name', q, n, o is not MISSING, '%s does not exist' % at)
                continue
            if not isinstance(n.ctx, ast.Load):
                continue
            if ps and len(ps) >= 2 and selfname and ps[0] == selfname and (fn is f or ps[0] not in fn.locals):
                if len(ps) == 2:
                    continue            # self attributes: per class below
                if len(ps) == 3 and ps[1] in own:
                    ok = nm.has(own[ps[1]], ps[2])
                    if ok is not None:
                        report('attribute', '%s of %s' % (ps[2], own[ps[1]]), n, ok, 'class %s has no %s' % (own[ps[1]], ps[2]))
                        continue
            if ps and len(ps) == 2 and ps[0] in loc:
                ok = nm.has(loc[ps[0]], ps[1])
                if ok is not None:
                    report('attribute', '%s of %s' % (ps[1], loc[ps[0]]), n, ok, 'class %s has no %s' % (loc[ps[0]], ps[1]))
                    continue
            a = n.attr
            report('attribute', a, n, a in nm.univ or a in nm.assigned or a in nm.defined, 'no class known has an attribute %s' % a)
        elif isinstance(n, ast.Call):
            g, q = pkg.callee(fn, n)
            why = None
            if g is not None and isinstance(g.node, ast.FunctionDef):
                decs = [ast.unparse(d) for d in g.node.decorator_list]
                if any(d not in ('staticmethod', 'classmethod', 'property') and not d.startswith('functools.') for d in decs):
                    continue
                if 'property' in decs:
                    continue
                bound = g.cls is not None and 'staticmethod' not in decs
                if bound and q == g.qual and pkg.resolve(fn, n.func) is not None and 'classmethod' not in decs and \
                        not (q.endswith('.__init__') and False):
                    bound = False        # Class.method(obj, ...)
                if g.qual.endswith('.__init__') and q in pkg.classes:
                    bound = True
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call):
                    continue
                why = fits(params_of_def(g.node), n, bound)
                report('call', '%s in %s' % (g.qual, fn.qual), n, why is None, '%s: %s' % (g.qual, why))
            elif q is not None and not q.startswith('emva1288') and q in pkg.classes:
                pass
            elif q is not None and q.split('.')[0] != fn.mod.name.split('.')[0]:
                if any(k.arg for k in n.keywords) or n.args:
                    s = signature(q)
                    if s is not None:
                        why = fits(params_of_sig(s), n, False)
                        report('call', '%s in %s' % (q, fn.qual), n, why is None, '%s: %s' % (q, why))
        elif isinstance(n, ast.Raise) and n.exc is not None:
            e = n.exc
            call = e if isinstance(e, ast.Call) else None
            q = pkg.resolve(fn, call.func if call else e)
            if q is None:
                if isinstance(e, ast.Constant):
                    report('raise', ast.unparse(e)[:40], n, False, 'a constant is not an exception')
                continue
            if q in pkg.classes or q in pkg.by:
                continue
            o, at = lookup(q)
            if o is MISSING or o is None:
                continue
            ok, why = True, ''
            if not (inspect.isclass(o) and issubclass(o, BaseException)):
                if inspect.isclass(o) or not callable(o):
                    ok, why = False, '%s is not an exception' % q
            else:
                base = o.__name__
                if call is None:
                    if base in EXC_N:
                        ok, why = False, '%s needs %d arguments' % (base, EXC_N[base])
                elif o.__module__ == 'builtins':
                    kws = {k.arg for k in call.keywords if k.arg}
                    if kws - EXC_KW.get(base, set()):
                        ok, why = False, '%s takes no keyword %s' % (base, ', '.join(sorted(kws)))
                    elif base in EXC_N and not any(isinstance(a, ast.Starred) for a in call.args) and len(call.args) != EXC_N[base]:
                        ok, why = False, '%s needs %d arguments, given %d' % (base, EXC_N[base], len(call.args))
            report('raise', '%s in %s' % (q, fn.qual), n, ok, why)


def exists(pkg, q, nm=None):
    """True / False / None for a dotted name of the package"""
    if q in pkg.mods or q in pkg.by or q in pkg.classes:
        return True
    parts = q.split('.')
    for k in range(len(parts) - 1, 0, -1):
        p = '.'.join(parts[:k])
        if p in pkg.classes:
            if nm is None:
                return True
            ms = nm.members(p)
            return True if parts[k] in ms or parts[k] in nm.assigned else None if '*' in ms else False
        if p in pkg.mods:
            m = pkg.mods[p]
            if parts[k] in m.names or parts[k] in ('__file__', '__name__', '__doc__', '__path__', '__version__'):
                return True
            if p + '.' + parts[k] in pkg.mods:
                return True
            if any(isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names) for s in m.tree.body):
                return None
            return False
        if p in pkg.by:
            return None      # attribute of a function
    return False


def classes(ck, pkg, nm):
    made = set()
    for fn in pkg.fns:
        for n in own_nodes(fn.node):
            if isinstance(n, ast.Call):
                q = pkg.resolve(fn, n.func)
                if q in pkg.classes:
                    made.add(q)
    for q in pkg.classes:
        if nm.subclasses(q) and q not in made:
            continue
        ms = nm.members(q)
        if '*' in ms:
            continue
        seen = set()
        for p in [q] + nm.bases(q):
            for fn in pkg.fns:
                if fn.cls is None or fn.qual.rsplit('.', 1)[0] != p or not fn.node.args.args:
                    continue
                if any(ast.unparse(d) in ('staticmethod', 'classmethod') for d in fn.node.decorator_list):
                    continue
                name = fn.node.name
                if name in seen and not any('setter' in ast.unparse(d) for d in fn.node.decorator_list):
                    continue
                me = fn.node.args.args[0].arg
                for n in ast.walk(fn.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
                        a = n.attr
                        ok = a in ms or a in nm.assigned and a in nm.defined
                        v = PROVED if ok else VIOLATED
                        if v == VIOLATED and guarded(fn, n):
                            v = PROVED
                        ck.add('self.%s in %s as %s' % (a, fn.qual, q), v, fn.at(n), '' if ok else 'class %s has no %s' % (q, a), 'the name exists')
            seen |= {fn.node.name for fn in pkg.fns if fn.cls is not None and fn.qual.rsplit('.', 1)[0] == p}


CONTROL = '''
import numpy as np
import os
class A:
    def __init__(self, a):
        self.x = a
    def f(self):
        return self.y
def one():
    return np.int(3)
def two():
    return undefined_thing
def three(z):
    return z.no_such_attribute_anywhere
def four():
    return A()
def five():
    raise UnicodeDecodeError('x')
def six():
    a = A(1)
    return a.zz
def seven():
    return np.linspace(0, 1, numb=3)
def eight():
    raise ValueError('x', name=3)
'''


def control(ck):
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'ctl')
        os.mkdir(p)
        with open(os.path.join(p, '__init__.py'), 'w') as f:
            f.write(CONTROL)
        from vf.state import World

        class Sink:
            def __init__(self):
                self.bad = set()

            def add(self, name, v, where='', detail='', rule=''):
                if v == VIOLATED:
                    self.bad.add(where.split('.')[-1])

            def guard(self, name, fn, where='', rule=''):
                fn()
        s = Sink()
        s.world = World(d, {'ctl': p})
        run(s, Package(s.world, 'ctl'), record=True)
        for n in ('one', 'two', 'three', 'four', 'five', 'six', 'seven', 'eight', 'f'):
            ck.control('missing name in ' + n, n in s.bad)
