"""Gated value-flow abstract interpreter over the Python AST.

Each function of the analysed program is walked once per calling context; every
variable is bound to a term over the inputs, conditionals become decision
diagrams, loops are summarised in closed form (or as a canonical recurrence).
No path is enumerated and nothing is executed.
"""
import ast
import builtins
from .state import *
from .state import _hid, _fid
from . import lib

CMPOPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=',
          ast.Is: 'is', ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
          ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@',
          ast.LShift: '<<', ast.RShift: '>>'}
REFLIKE = {'ref', 'func', 'class', 'bound', 'module', 'ext', 'bi', 'partial', 'attrgetter', 'propobj', 'bmeth', 'undef', 'exc', 'super'}


class Cx:
    def __init__(self, fid, module, cls=None, fn=None, selfv=None):
        self.fid, self.module, self.cls, self.fn, self.selfv = fid, module, cls, fn, selfv
        self.exits = []
        self.captured = False
        self.globals = set()
        self.nonlocals = set()


class Exit:
    __slots__ = ('kind', 'pc', 'v', 'st', 'node', 'where')

    def __init__(self, kind, v, st, node=None, where=''):
        self.kind, self.v, self.st, self.node = kind, v, st, node
        self.pc = st.pc
        self.where = where


def custom_decorators(node):
    """decorators other than those of the attribute protocol"""
    out = []
    for d in getattr(node, 'decorator_list', ()):
        x = dotted(d) or ''
        if x in ('property', 'staticmethod', 'classmethod', 'abstractmethod', 'abc.abstractmethod') or \
                x.split('.')[-1] in ('setter', 'getter', 'deleter', 'cached_property'):
            continue
        out.append(d)
    return out


def counted(s):
    """while i < n: ...; i += c   as   for k in range(i, n, c): i = k; ...; i += c"""
    t, body = s.test, s.body
    if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)):
        return None
    last = body[-1]
    if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == t.left.id
            and isinstance(last.op, (ast.Add, ast.Sub)) and isinstance(last.value, ast.Constant) and type(last.value.value) is int
            and last.value.value > 0):
        return None
    step = last.value.value if isinstance(last.op, ast.Add) else -last.value.value
    op = t.ops[0]
    if not (isinstance(op, (ast.Lt, ast.LtE)) and step > 0 or isinstance(op, (ast.Gt, ast.GtE)) and step < 0):
        return None
    i = t.left.id
    stored = set()
    for x in body[:-1]:
        for n in ast.walk(x):
            if isinstance(n, (ast.Continue, ast.While, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)):
                return None
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stored.add(n.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                stored.add(n.func.value.id)        # may change the object the bound depends on
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(n, ast.Attribute) and isinstance(b, ast.Name):
                    stored.add(b.id)
    if i in stored:
        return None
    for n in ast.walk(t.comparators[0]):
        if isinstance(n, ast.Name) and n.id in stored | {i}:
            return None
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == 'len'):
            return None
    k = i + ' of the loop'
    bound = t.comparators[0]
    if isinstance(op, (ast.LtE, ast.GtE)):
        bound = ast.BinOp(bound, ast.Add() if step > 0 else ast.Sub(), ast.Constant(1))
    f = ast.For(ast.Name(k, ast.Store()),
                ast.Call(ast.Name('range', ast.Load()), [ast.Name(i, ast.Load()), bound, ast.Constant(step)], []),
                [ast.Assign([ast.Name(i, ast.Store())], ast.Name(k, ast.Load()))] + body, [], lineno=s.lineno, col_offset=s.col_offset)
    ast.copy_location(f, s)
    for n in ast.walk(f):
        if not hasattr(n, 'lineno'):
            n.lineno, n.col_offset = s.lineno, s.col_offset
    return ast.fix_missing_locations(f)


class Interp:
    def __init__(self, world, boundary=(), override=None, effects=True):
        self.undef_reads = set()
        self.world = world
        self.boundary = set(boundary)
        self.override = dict(override or {})
        self.files = {}
        self.stack = []
        self.docof = {}
        self.nan_identity = True    # nan values are the numpy.nan object
        self.maxrec = 0         # levels of recursion that are followed
        self.visited = set()
        self.calls = 0
        self.risky = []
        self.loopctx = []
        self.budget = 400000
        self.effects = effects
        self.notes = []
        self.classtab = {}
        self.functab = {}
        self.globtab = {}
        self.reads = None      # when a set: (object, attribute) pairs looked up
        self.globinit = {}

    # ------------------------------------------------------------ utilities

    def where(self, cx, node):
        fn = cx.fn.name if cx.fn is not None else '<module>'
        return '%s:%s:%s' % (cx.module.rel, fn, getattr(node, 'lineno', 0))

    def H(self, v, st):
        t = v.t if isinstance(v, V) else v
        return st.heap.get(t.args[0]) if t.op == 'ref' else None

    def is_reflike(self, t):
        if t.op == 'ite':
            return self.is_reflike(t.args[1]) or self.is_reflike(t.args[2])
        return t.op in REFLIKE

    def cases(self, v, st, f):
        """apply f(state, v) splitting on conditional non-data values"""
        if v.t.op == 'ite':
            t = constrain(v.t, st.pc)
            if t.op == 'ite' and self.is_reflike(t):
                c = batom(t.args[0])
                return self.fork(st, c,
                                 lambda s: self.cases(V(restrict(t, t.args[0], True), v.tok, v.path), s, f),
                                 lambda s: self.cases(V(restrict(t, t.args[0], False), v.tok, v.path), s, f))
            if t is not v.t:
                v = V(t, v.tok, v.path)
        return f(st, v)

    def fork(self, st, c, fa, fb):
        c = constrain(c, st.pc)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        if st.pc is FALSE:
            raise Dead()
        a, b = st.copy(), st.copy()
        a.pc, b.pc = band(st.pc, c), band(st.pc, bnot(c))
        va = vb = None
        try:
            va = fa(a)
        except Dead:
            a = None
        try:
            vb = fb(b)
        except Dead:
            b = None
        if a is None and b is None:
            raise Dead()
        if a is None:
            st.assign(b)
            return vb
        if b is None:
            st.assign(a)
            return va
        sel = constrain(a.pc, bor(a.pc, b.pc))
        m = self.merge(a, b, sel)
        st.assign(m)
        if va is None and vb is None:
            return None
        return self.mergeV(sel, va, vb)

    def mergeV(self, c, a, b):
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        path = a.path if a.path == b.path else None
        if a.t is b.t:
            return V(a.t, a.tok | b.tok, path)
        if a.t.op in ('lit', 'cat') and b.t.op in ('lit', 'cat') and kind(a.t) == 'list':
            t = seq_ite(c, a.t, b.t)
        else:
            t = ite(c, a.t, b.t)
        return V(t, a.tok | b.tok, path)

    def merge(self, a, b, c):
        m = St()
        m.pc = bor(a.pc, b.pc)
        m.own = set()
        for fid in a.fr:
            if fid not in b.fr:
                m.fr[fid] = a.fr[fid]
                continue
            fa, fb = a.fr[fid], b.fr[fid]
            if fa is fb:
                m.fr[fid] = fa
                continue
            d = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                va, vb = fa.get(k), fb.get(k)
                if va is None:
                    va = V(UNDEF)
                if vb is None:
                    vb = V(UNDEF)
                d[k] = self.mergeV(c, va, vb)
            m.fr[fid] = d
        for fid in b.fr:
            if fid not in a.fr:
                m.fr[fid] = b.fr[fid]
        for i in a.heap:
            ha = a.heap[i]
            hb = b.heap.get(i) or self.globinit.get(i)
            if hb is None or ha is hb:
                m.heap[i] = ha
            else:
                m.heap[i] = self.mergeH(ha, hb, c, a, b)
        for i in b.heap:
            if i not in a.heap:
                hb = b.heap[i]
                ha = self.globinit.get(i)
                m.heap[i] = hb if ha is None or ha is hb else self.mergeH(ha, hb, c, a, b)
        m.trace = a.trace if a.trace is b.trace else seq_ite(c, a.trace, b.trace)
        m.mut = a.mut | b.mut
        m.occ = dict(a.occ)
        for k, v in b.occ.items():
            m.occ[k] = max(v, m.occ.get(k, 0))
        return m

    def mergeH(self, ha, hb, c, a, b):
        h = H(ha.kind, ha.cls, origin=ha.origin, note=ha.note)
        for k in list(ha.f) + [k for k in hb.f if k not in ha.f]:
            va, vb = ha.f.get(k, V(UNDEF)), hb.f.get(k, V(UNDEF))
            h.f[k] = self.mergeV(c, va, vb)
        if ha.kind in ('list', 'set'):
            if isinstance(ha.items, list) and isinstance(hb.items, list) and len(ha.items) == len(hb.items):
                h.items = [self.mergeV(c, x, y) for x, y in zip(ha.items, hb.items)]
            else:
                h.seq = seq_ite(c, self.content_h(ha), self.content_h(hb))
        elif ha.kind == 'dict':
            if isinstance(ha.items, dict) and isinstance(hb.items, dict) and list(ha.items) == list(hb.items):
                h.items = {k: self.mergeV(c, ha.items[k], hb.items[k]) for k in ha.items}
            elif isinstance(ha.items, dict) and isinstance(hb.items, dict) and \
                    set(ha.items) == set(hb.items):
                h.items = {k: self.mergeV(c, ha.items[k], hb.items[k]) for k in ha.items}
            else:
                # factor one-sided puts so that shared refs inside stay dereferenceable
                h.seq = ite(c, self.content_h(ha), self.content_h(hb))
        return h

    def content_h(self, h):
        if h.seq is not None:
            return h.seq
        if h.kind in ('list', 'set'):
            return mk('lit', *[v.t for v in h.items])
        if h.kind == 'dict':
            r = DLIT0
            for k, v in h.items.items():
                r = dput(r, k, v.t)
            return r
        return opaque('content of ' + h.kind)

    def content(self, v, st):
        """sequence / dict content term of a value"""
        h = self.H(v, st)
        if h is not None and h.kind in ('list', 'dict', 'set'):
            c = self.content_h(h)
            return lib.fset(c) if h.kind == 'set' else c
        if h is not None and h.kind == 'file':
            ls = self.filelines(h.note)
            return mk('lit', *ls) if ls is not None else mk('lines', self.filekey(h))
        if v.path is not None:
            return self.refresh(v, st).t
        return v.t

    def filelines(self, note):
        """lines of a file whose content the check has laid down"""
        return self.files.get(note.args[0]) if note.op == 'file' else None

    def filekey(self, h):
        return h.note

    def refresh(self, v, st):
        if v.path is None:
            return v
        b, k = v.path
        c = self.content(b, st)
        t = dget(c, k) if kind(c) == 'dict' or b.t.op == 'sym' and kind(b.t) == 'dict' else None
        if t is None:
            t = dget(c, k) if v.t.op == 'get' else v.t
        return V(t, v.tok, v.path)

    def freeze(self, t, st, keep=(), memo=None):
        """replace references by the values of the objects they denote"""
        memo = {} if memo is None else memo

        def go(n, depth=0):
            if depth > 60:
                return opaque('deep')
            r = memo.get(n)
            if r is not None:
                return r
            if n.op == 'ref':
                i = n.args[0]
                if i in keep:
                    return n
                h = st.heap.get(i)
                if h is None:
                    return n
                memo[n] = mk('cyc')
                if h.kind in ('list', 'set'):
                    r = go(self.content_h(h), depth + 1)
                    if h.kind == 'set':
                        r = lib.fset(r)
                elif h.kind == 'dict':
                    if h.seq is not None:
                        r = go(h.seq, depth + 1)
                    else:
                        r = DLIT0
                        for k, v in h.items.items():
                            r = dput(r, go(k, depth + 1), go(v.t, depth + 1))
                elif h.kind == 'inst':
                    if h.origin is not None and not h.f:
                        r = h.origin
                    else:
                        r = mk('inst', h.cls.qual if isinstance(h.cls, Cls) else str(h.cls),
                               tuple(sorted((k, go(v.t, depth + 1)) for k, v in h.f.items())))
                else:
                    r = h.note if h.note is not None else opaque('object ' + h.kind)
                memo[n] = r
                return r
            if not _hasref(n):
                memo[n] = n
                return n
            if n.op in BINDERS:
                ts, outer, inner = open_binder(n)
                r = rebind(n.op, ts, goa(outer, depth), goa(inner, depth))
            elif n.op == 'poly':
                r = replace_atoms(n, {a: go(a, depth + 1) for a in atoms(n)})
            else:
                args = goa(n.args, depth)
                f = REB.get(n.op)
                r = f(*args) if f else mk(n.op, *args)
            memo[n] = r
            return r

        def goa(x, depth):
            return tuple(go(y, depth + 1) if isinstance(y, Node) else goa(y, depth) if isinstance(y, tuple) else y
                         for y in x)
        return go(t)

    # ------------------------------------------------------------ exceptions

    def exc(self, name, *args):
        return mk('exc', name, *args)

    def raise_if(self, c, name, st, cx, node=None, args=()):
        """conditional exception; continues on the complement"""
        c = constrain(c, st.pc)
        if c is FALSE:
            return
        s = st.copy()
        s.pc = band(st.pc, c)
        if s.pc is not FALSE:
            cx.exits.append(Exit('raise', V(self.exc(name, *args)), s, node, self.where(cx, node)))
        st.pc = band(st.pc, bnot(c))
        if st.pc is FALSE:
            raise Dead()

    def excname(self, v):
        return v.t.args[0] if v.t.op == 'exc' else None

    def exc_is(self, name, handler):
        """does exception type `name` match handler type? True/False/None"""
        if handler in ('Exception', 'BaseException'):
            return True
        if name == handler or name.split('.')[-1] == handler.split('.')[-1]:
            return True
        a, b = getattr(builtins, name, None), getattr(builtins, handler.split('.')[-1], None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        c = self.world.classes
        for k, cl in c.items():
            if k[1] == name:
                for e in cl.mro():
                    en = e.name if isinstance(e, Cls) else str(e)
                    if en == handler:
                        return True
                    if not isinstance(e, Cls) and self.exc_is(en, handler) is True:
                        return True
                return False
        if b is None or a is None:
            return None
        return False

    # ------------------------------------------------------------ names

    def load_name(self, name, st, cx, node):
        fid = cx.fid
        if name in cx.globals:
            return self.load_global(name, st, cx.module, cx, node)
        f = cx
        # scope chain by captured frames
        chain = [cx.fid]
        fn = cx.fn
        env = fn.env if fn is not None else None
        while env is not None:
            chain.append(env[0])
            env = env[1]
        for k in chain:
            fr = st.fr.get(k)
            if fr is not None and name in fr:
                v = fr[name]
                if v.t is UNDEF or v.t.op == 'ite' and _has_undef(v.t):
                    t = constrain(v.t, st.pc)
                    c = _undef_cond(t)
                    if c is not FALSE:
                        self.undef_reads.add((k, name))
                        self.raise_if(c, 'UnboundLocalError', st, cx, node, (const(name),))
                        t = constrain(t, st.pc)
                        t = _drop_undef(t)
                    v = V(t, v.tok, v.path)
                    st.setvar(k, name, v)
                elif v.t.op == 'ite' and not v.path and v.t.size < 200:
                    t = constrain(v.t, st.pc)
                    if t is not v.t:
                        v = V(t, v.tok, v.path)
                return v
        if fn is not None and name in _locals_of(fn.node) and name not in cx.globals and name not in cx.nonlocals:
            self.undef_reads.add((cx.fid, name))
            self.raise_if(TRUE, 'UnboundLocalError', st, cx, node, (const(name),))
        return self.load_global(name, st, cx.module, cx, node)

    def load_global(self, name, st, module, cx, node):
        ov = self.override.get(module.name + '.' + name)
        if ov is not None and isinstance(ov, V):
            return ov
        if st.fr['glob'] and module.name + '.' + name in st.fr['glob']:
            return self.globget(module.name + '.' + name, st, lambda: self.load_global0(name, st, module, cx, node))
        return self.load_global0(name, st, module, cx, node)

    def load_global0(self, name, st, module, cx, node):
        r = self.world.lookup(module, name)
        if r is None:
            if hasattr(builtins, name):
                if name in ('True', 'False', 'None'):
                    return V({'True': TRUE, 'False': FALSE, 'None': NONE}[name])
                if name == 'Ellipsis':
                    return V(mk('ellipsis'))
                return V(mk('bi', name))
            if name == '__file__':
                return V(mk('str', module.path))
            if name == '__name__':
                return V(const(module.name))
            self.raise_if(TRUE, 'NameError', st, cx, node, (const(name),))
        return self.wrap(r, st, cx, node)

    def static(self, e, st, cx):
        """value of an expression python evaluates once (module level, class level, default argument)"""
        g = self.globtab.get(id(e))
        if g is None:
            if isinstance(e, (ast.Constant, ast.Name, ast.Attribute)):
                return self.eval(e, st, cx)
            s = st.copy()
            before = set(s.heap)
            v = self.eval(e, s, cx)
            g = (e, None, None)
            if v.t.op == 'ref' and v.t.args[0] not in before and s.trace is st.trace:
                new = {i: h for i, h in s.heap.items() if i not in before}
                self.globinit.update(new)
                g = (e, v, new)
            self.globtab[id(e)] = g
        if g[1] is None:
            return self.eval(e, st, cx)
        for i, h in g[2].items():
            if i not in st.heap:
                st.heap[i] = h
        return g[1]

    def globget(self, key, st, init):
        """module variable or class attribute that may have been assigned at run time"""
        v = st.fr['glob'].get(key)
        if v is None:
            return init()
        if v.t is UNDEF or v.t.op == 'ite' and _has_undef(v.t):
            i = init()

            def fill(t):
                if t is UNDEF:
                    return i.t
                if t.op == 'ite' and _has_undef(t):
                    return ite(batom(t.args[0]), fill(t.args[1]), fill(t.args[2]))
                return t
            v = V(constrain(fill(v.t), st.pc), v.tok | i.tok)
        return v

    def classvar(self, c, name, st, init):
        g = st.fr['glob']
        if g:
            for k in c.mro():
                if isinstance(k, Cls) and k.qual + '::' + name in g:
                    return self.globget(k.qual + '::' + name, st, init)
        return init()

    def wrap(self, r, st, cx, node):
        if isinstance(r, Func):
            k = r.module.name + '.' + r.name
            self.functab[k] = r
            return V(mk('func', k))
        if isinstance(r, Cls):
            self.classtab[r.qual] = r
            return V(mk('class', r.qual))
        if isinstance(r, Module):
            return V(mk('module', r.name))
        if isinstance(r, str):
            return V(mk('ext', lib.canon(r)))
        if isinstance(r, tuple) and r[0] == 'assign':
            m, e = r[1], r[2]
            if e[0] == 'dyn':
                return V(opaque('module variable set in a loop'))
            c2 = Cx(next(_fid), m)
            st.fr[c2.fid] = {}
            try:
                v = self.static(e[1], st, c2)
            finally:
                st.fr.pop(c2.fid, None)
            if e[0] == 'unpack':
                v = V(idx(self.content(v, st), num(e[2])))
            return v
        raise Unsupported('cannot resolve %r' % (r,), node)

    # ------------------------------------------------------------ functions

    def getfunc(self, t):
        return self.functab.get(t.args[0])

    def getcls(self, t):
        return self.classtab.get(t.args[0])

    def call(self, fv, args, kw, st, cx, node):
        """fv: V; args: [V]; kw: {name: V}"""
        self.calls += 1
        if self.calls > self.budget:
            raise Unsupported('analysis budget exceeded', node)

        def go(s, f):
            return self.call1(f, args, kw, s, cx, node)
        return self.cases(fv, st, go)

    def call1(self, fv, args, kw, st, cx, node):
        t = fv.t
        if t.op == 'func':
            return self.call_func(self.getfunc(t), args, kw, st, cx, node)
        if t.op == 'bound':
            f = t.args[1]
            return self.call_func(self.getfunc(f), [V(t.args[0])] + args, kw, st, cx, node)
        if t.op == 'bmeth':
            return self.method(V(t.args[0]), t.args[1], args, kw, st, cx, node)
        if t.op == 'class':
            return self.construct(self.getcls(t), args, kw, st, cx, node)
        if t.op == 'bi':
            return lib.builtin(self, t.args[0], args, kw, st, cx, node)
        if t.op == 'ext':
            return lib.external(self, t.args[0], args, kw, st, cx, node)
        if t.op == 'wrapsof':
            self.docof[args[0].t] = t.args[0]
            return args[0]
        if t.op == 'partial':
            return self.call(V(t.args[0]), [V(x) for x in t.args[1]] + args,
                             dict([(k, V(x)) for k, x in t.args[2]], **kw), st, cx, node)
        if t.op == 'attrgetter' and len(args) == 1 and not kw:
            out = []
            for path in t.args:
                v = args[0]
                for n in path.split('.'):
                    v = self.getattr(v, n, st, cx, node)
                out.append(v)
            return out[0] if len(out) == 1 else V(mk('tup', *[v.t for v in out]))
        if t.op == 'vectorized':
            return lib.vectorized(self, t, args, kw, st, cx, node)
        if t.op == 'ref':
            h = self.H(fv, st)
            if h.kind == 'inst' and isinstance(h.cls, Cls):
                m = h.cls.find('__call__')
                if m is not None:
                    return self.call_func(self.mfunc(m), [fv] + args, kw, st, cx, node)
            raise Unsupported('call of object', node)
        if t.op in ('none', 'num', 'str', 'undef', 'tup', 'dlit', 'lit'):
            self.raise_if(TRUE, 'TypeError', st, cx, node)
        # unknown callable: result of applying it
        self.risk(mk('app', t))
        a = tuple(self.freeze(self.content(x, st) if self.H(x, st) is not None else x.t, st) for x in args)
        k = tuple(sorted((n, self.freeze(x.t, st)) for n, x in kw.items()))
        ev = mk('app', t, a, k)
        if self.effects:
            self.event(st, ev)
        return V(ev)

    def event(self, st, ev):
        st.emit(ev)

    def risk(self, t):
        for r in self.risky:
            r.append(t)

    def mfunc(self, m):
        kind_, owner, fnode = m
        k = owner.module.name + '.' + owner.name + '.' + fnode.name
        f = self.functab.get(k)
        if f is None or f.node is not fnode:
            f = Func(fnode, owner.module, owner.name + '.' + fnode.name, owner)
            self.functab[k] = f
        return f

    def qual(self, f):
        return f.module.name + '.' + f.name

    def call_func(self, f, args, kw, st, cx, node):
        q = self.qual(f)
        ov = self.override.get(q)
        if ov is not None:
            r = ov(self, args, kw, st, cx, node) if callable(ov) else ov
            if isinstance(r, V):
                return r
        if q in self.boundary:
            return self.boundary_call(q, f, args, kw, st, cx, node)
        if not f.raw and f.env is None and custom_decorators(f.node):
            return self.call(self.decorated(f, st, cx), args, kw, st, cx, node)
        depth = [i for i, g in enumerate(self.stack) if g[0] is f.node and g[1] == f.env]
        if len(depth) > self.maxrec:
            ups = len(self.stack) - depth[-1]
            fa = tuple(self.freeze(a.t, st) for a in args)
            fk = tuple(sorted((k, self.freeze(a.t, st)) for k, a in kw.items()))
            ev = mk('rec', ups, fa, fk)
            st.emit(ev)
            return V(ev)
        if len(self.stack) > 40:
            raise Unsupported('call depth', node)
        self.visited.add(q)
        self.stack.append((f.node, f.env))
        fid = next(_fid)
        try:
            c2 = Cx(fid, f.module, f.cls, f)
            st.fr[fid] = {}
            self.bind_args(f, c2, args, kw, st, cx, node)
            if _is_gen(f.node):
                c2.gen = st.new(H('list', items=[]))
                st.setvar(fid, '$yield', c2.gen)
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st, c2)
                c2.exits.append(Exit('return', v, st.copy()))
                fall = False
            else:
                try:
                    self.block(f.node.body, st, c2)
                    fall = True
                except Dead:
                    fall = False
            if fall:
                c2.exits.append(Exit('return', V(NONE), st.copy()))
            return self.finish(c2, st, cx)
        finally:
            self.stack.pop()
            st.fr.pop(fid, None) if not self.captured(fid) else None

    def captured(self, fid):
        return fid in getattr(self, '_captured', ())

    def finish(self, c2, st, cx):
        rets = [e for e in c2.exits if e.kind == 'return']
        for e in c2.exits:
            if e.kind == 'raise':
                cx.exits.append(e)
        if not rets:
            raise Dead()
        cap = self.captured(c2.fid)
        gen = getattr(c2, 'gen', None)
        acc = rets[-1].st
        v = rets[-1].v
        if not cap:
            for e in rets:
                e.st.fr.pop(c2.fid, None)
        for e in reversed(rets[:-1]):
            sel = constrain(e.st.pc, bor(e.st.pc, acc.pc))
            m = self.merge(e.st, acc, sel)
            v = self.mergeV(sel, e.v, v)
            acc = m
        st.assign(acc)
        return gen if gen is not None else v

    def bind_args(self, f, c2, args, kw, st, cx, node):
        a = f.node.args
        pos = list(a.posonlyargs) + list(a.args)
        kw = dict(kw)
        names = [x.arg for x in pos]
        vals = {}
        args = list(args)
        if len(args) > len(pos) and not a.vararg:
            self.raise_if(TRUE, 'TypeError', st, cx, node)
        for n, v in zip(names, args):
            vals[n] = v
        extra = args[len(pos):]
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k == '**':
                continue
            if k in names or k in kwonly:
                if k in vals:
                    self.raise_if(TRUE, 'TypeError', st, cx, node)
                vals[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                self.raise_if(TRUE, 'TypeError', st, cx, node)
        star = kw.get('**')
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({n: d for n, d in zip(kwonly, a.kw_defaults) if d is not None})
        ccx = Cx(c2.fid, f.module, f.cls, Func(ast.parse('lambda: 0').body[0].value, f.module, f.name, f.cls, f.env))
        ccx.exits = cx.exits
        for n in names + kwonly:
            if n not in vals:
                if star is not None:
                    sc = self.content(star, st)
                    has = din(const(n), sc)
                    if n in defaults:
                        dv = self.static(defaults[n], st, ccx)
                        vals[n] = V(ite(has, dget(sc, const(n)), dv.t), dv.tok)
                    else:
                        self.raise_if(bnot(has), 'TypeError', st, cx, node)
                        vals[n] = V(dget(sc, const(n)))
                elif n in defaults:
                    vals[n] = self.static(defaults[n], st, ccx)
                else:
                    self.raise_if(TRUE, 'TypeError', st, cx, node)
        if a.vararg:
            if '*' in kw:
                pass
            vals[a.vararg.arg] = V(mk('tup', *[v.t for v in extra]))
            sv = [v for v in extra if v.t.op == 'star']
            if sv:
                vals[a.vararg.arg] = V(cat(*[v.t.args[0] if v.t.op == 'star' else mk('lit', v.t) for v in extra]))
        if a.kwarg:
            if star is not None:
                base = self.content(star, st)
                for k, v in rest.items():
                    base = dput(base, const(k), v.t)
                vals[a.kwarg.arg] = V(base) if not rest and star.t.op != 'ref' else \
                    st.new(H('dict', seq=base)) if not (star.t.op == 'ref' and not rest) else \
                    st.new(self.H(star, st).copy())
            else:
                vals[a.kwarg.arg] = st.new(H('dict', items={const(k): v for k, v in rest.items()}))
        for k, v in vals.items():
            st.setvar(c2.fid, k, self.tokenize(v))

    def boundary_call(self, q, f, args, kw, st, cx, node):
        names = [x.arg for x in f.node.args.args]
        d = {}
        for n, v in zip(names, args):
            d[n] = v
        d.update(kw)
        ismeth = f.cls is not None and names and names[0] == 'self'
        key = tuple(sorted((k, self.freeze(v.t, st)) for k, v in d.items()
                           if not (ismeth and k == 'self')))
        ev = mk('call', q, key)
        st.emit(ev)
        o = st.occ.get(ev, 0)
        st.occ[ev] = o + 1
        return V(mk('ret', ev, num(o), tuple(self.loopctx)))

    def construct(self, c, args, kw, st, cx, node):
        q = c.qual
        ov = self.override.get(q)
        if ov is not None:
            return ov(self, args, kw, st, cx, node)
        exts = [e for e in c.extbases() if e not in ('object',)]
        if exts and any(isinstance(e, str) and self._is_exc(e) for e in exts):
            return V(mk('exc', c.name, *[self.freeze(a.t, st) for a in args]))
        if any(e.split('.')[-1] in ('namedtuple', 'NamedTuple', 'Enum') for e in exts):
            raise Unsupported('class ' + q, node)
        if q in self.boundary:
            init = c.find('__init__')
            f = self.mfunc(init)
            r = self.boundary_call(q, f, [V(mk('self'))] + args, kw, st, cx, node)
            h = st.new(H('inst', c, origin=r.t))
            return h
        v = st.new(H('inst', c))
        init = c.find('__init__')
        if init is not None and init[0] == 'func':
            self.call_func(self.mfunc(init), [v] + args, kw, st, cx, node)
        elif any(dotted(d.func if isinstance(d, ast.Call) else d) in ('dataclass', 'dataclasses.dataclass')
                 for d in c.node.decorator_list):
            fields = [s for s in c.node.body if isinstance(s, ast.AnnAssign)]
            vals = dict(zip([s.target.id for s in fields], args))
            vals.update(kw)
            for s in fields:
                if s.target.id not in vals:
                    vals[s.target.id] = self.eval(s.value, st, Cx(-1, c.module))
            st.w(v.t.args[0]).f.update(vals)
        return v

    def _is_exc(self, name):
        b = getattr(builtins, name.split('.')[-1], None)
        return isinstance(b, type) and issubclass(b, BaseException)

    # ------------------------------------------------------------ statements

    def block(self, body, st, cx):
        for s in body:
            self.stmt(s, st, cx)

    def stmt(self, s, st, cx):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__, s)
        if st.pc is FALSE:
            raise Dead()
        return m(s, st, cx)

    def s_Expr(self, s, st, cx):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st, cx)

    def s_Pass(self, s, st, cx):
        pass

    def s_Import(self, s, st, cx):
        for a in s.names:
            nm = a.name if a.asname else a.name.split('.')[0]
            m = self.world.module(nm)
            st.setvar(cx.fid, a.asname or nm, V(mk('module', nm)) if m else V(mk('ext', lib.canon(nm))))

    def s_ImportFrom(self, s, st, cx):
        tmpm = type('M', (), {})()
        names = {}
        sub = ast.Module(body=[s], type_ignores=[])
        old = dict(cx.module.names)
        try:
            cx.module._scan([s])
            got = {a.asname or a.name: cx.module.names[a.asname or a.name] for a in s.names}
            for n in got:
                r = self.world.lookup(cx.module, n)
                st.setvar(cx.fid, n, self.wrap(r, st, cx, s))
        finally:
            cx.module.names = old

    def s_Global(self, s, st, cx):
        cx.globals |= set(s.names)

    def s_Nonlocal(self, s, st, cx):
        cx.nonlocals |= set(s.names)

    def s_FunctionDef(self, s, st, cx):
        v = self.closure(s, s.name, st, cx)
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, st, cx), [v], {}, st, cx, s)
        st.setvar(cx.fid, s.name, v)

    def decorated(self, f, st, cx):
        """what the decorators of a function or method make of it"""
        raw = Func(f.node, f.module, f.name, f.cls, f.env)
        raw.raw = True
        k = self.qual(f) + '!raw'
        self.functab[k] = raw
        v = V(mk('func', k))
        c2 = Cx(next(_fid), f.module, f.cls)
        st.fr[c2.fid] = {}
        try:
            for d in reversed(custom_decorators(f.node)):
                v = self.call(self.eval(d, st, c2), [v], {}, st, cx, f.node)
        finally:
            st.fr.pop(c2.fid, None)
        return v

    def closure(self, node, name, st, cx):
        if not hasattr(self, '_captured'):
            self._captured = set()
        self._captured.add(cx.fid)
        env = (cx.fid, cx.fn.env if cx.fn is not None else None)
        outer = cx.fn.name if cx.fn is not None else ''
        f = Func(node, cx.module, outer + '.<locals>.' + name if outer else name, cx.cls, env)
        k = '%s.%s#%d' % (cx.module.name, f.name, cx.fid)
        if isinstance(node, ast.Lambda):
            k += '@%d:%d' % (node.lineno, node.col_offset)
        self.functab[k] = f
        return V(mk('func', k))

    def s_ClassDef(self, s, st, cx):
        c = Cls(s, cx.module, s.name, self.world)
        self.classtab[c.qual + '@%d' % s.lineno] = c
        st.setvar(cx.fid, s.name, V(mk('class', c.qual + '@%d' % s.lineno)))

    def s_Return(self, s, st, cx):
        v = self.eval(s.value, st, cx) if s.value is not None else V(NONE)
        cx.exits.append(Exit('return', v, st.copy(), s))
        raise Dead()

    def s_Raise(self, s, st, cx):
        if s.exc is None:
            cur = getattr(cx, 'handling', None)
            v = V(cur) if cur is not None else V(self.exc('RuntimeError'))
        else:
            v = self.eval(s.exc, st, cx)
            if v.t.op == 'bi' or v.t.op == 'class':
                v = self.call(v, [], {}, st, cx, s)
        t = v.t
        if t.op == 'ite':
            raise Unsupported('conditional exception value', s)
        if t.op != 'exc':
            v = V(mk('exc', 'Exception', t))
        cx.exits.append(Exit('raise', v, st.copy(), s, self.where(cx, s)))
        raise Dead()

    def s_Break(self, s, st, cx):
        cx.exits.append(Exit('break', None, st.copy(), s))
        raise Dead()

    def s_Continue(self, s, st, cx):
        cx.exits.append(Exit('continue', None, st.copy(), s))
        raise Dead()

    def s_Assert(self, s, st, cx):
        c = self.truth(self.eval(s.test, st, cx), st, cx, s)
        self.raise_if(bnot(c), 'AssertionError', st, cx, s)

    def s_Delete(self, s, st, cx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.delvar(cx.fid, t.id)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, cx)
                k = self.eval(t.slice, st, cx)
                h = self.H(b, st)
                if h is not None and h.kind == 'dict' and isinstance(h.items, dict) and k.t in h.items:
                    del st.w(b.t.args[0]).items[k.t]
                elif h is not None and h.kind == 'list' and isinstance(h.items, list) and k.t.op == 'num':
                    del st.w(b.t.args[0]).items[int(k.t.args[0])]
                elif h is not None and h.kind in ('dict', 'list'):
                    w = st.w(b.t.args[0])
                    w.seq, w.items = mk('del', self.content(b, st), k.t), None
                elif b.path is not None or b.t.op == 'sym':
                    self.update_content(b, mk('del', self.content(b, st), k.t), st)
                else:
                    raise Unsupported('del', s)
            else:
                raise Unsupported('del', s)

    def s_If(self, s, st, cx):
        v = self.eval(s.test, st, cx)
        c = self.truth(v, st, cx, s)
        self.fork(st, c, lambda a: self.block(s.body, a, cx), lambda b: self.block(s.orelse, b, cx))

    def s_Assign(self, s, st, cx):
        v = self.eval(s.value, st, cx)
        for t in s.targets:
            self.store(t, v, st, cx)

    def s_AnnAssign(self, s, st, cx):
        if s.value is not None:
            self.store(s.target, self.eval(s.value, st, cx), st, cx)

    def s_AugAssign(self, s, st, cx):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, st, cx, t)
            rhs = self.eval(s.value, st, cx)
            cur = self.load_name(t.id, st, cx, t)
            self.aug(cur, op, rhs, st, cx, s, lambda v: self.store(t, v, st, cx))
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, cx)
            cur = self.getattr(b, t.attr, st, cx, t)
            rhs = self.eval(s.value, st, cx)
            self.aug(cur, op, rhs, st, cx, s, lambda v: self.setattr(b, t.attr, v, st, cx, t))
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, cx)
            k = self.index(t.slice, st, cx)
            cur = self.subscript(b, k, st, cx, t)
            rhs = self.eval(s.value, st, cx)
            self.aug(cur, op, rhs, st, cx, s, lambda v: self.store_sub(b, k, v, st, cx, t), elem=True)
        else:
            raise Unsupported('augassign', s)

    def maybe_array(self, v):
        t = v.t
        if t.op in REFLIKE or t.op in ('tup', 'str', 'none', 'true', 'false', 'num', 'lit', 'dlit', 'dput'):
            return False
        if kind(t) in ('str', 'bool', 'dict', 'list', 'tup', 'none'):
            return False
        return rank(t) != 0

    def tokenize(self, v):
        if not v.tok and self.maybe_array(v):
            return V(v.t, frozenset({('new', next(_fid))}), v.path)
        return v

    def aug(self, cur, op, rhs, st, cx, node, setter, elem=False):
        h = self.H(cur, st)
        if h is not None and h.kind == 'list' and op == '+':
            self.list_extend(cur, rhs, st)
            setter(cur)
            return
        if h is not None and h.kind == 'set' and op == '|':
            self.method(cur, 'update', [rhs], {}, st, cx, node)
            setter(cur)
            return
        new = self.binop(op, cur, rhs, st, cx, node)
        r = rank(cur.t)
        if self.maybe_array(cur) and r != 0 and new.t.op != 'ref' and cur.tok:
            if elem and not (r or r is None and cur.path):
                setter(V(new.t))
                return
            self.update_array(cur, new.t, st)
            nv = V(new.t, cur.tok, cur.path)
            if elem:
                if r:
                    setter(V(new.t, cur.tok))
                else:
                    setter(V(new.t))
            else:
                setter(nv)
            return
        setter(new)

    def update_array(self, old, new, st):
        """the array denoted by `old` now holds `new`: update every holder"""
        for tk in old.tok:
            if tk[0] == 'in':
                st.mut = st.mut | frozenset((tk[1],))
        if not old.tok:
            return

        def upd(v):
            if v.tok & old.tok:
                if v.t is old.t:
                    return V(new, v.tok, v.path)
                if v.t is new:
                    return v
                if new.op == 'store' and new.args[0] is old.t and old.t.op == 'idx' and old.t.args[0] is v.t:
                    # written through the view of one row
                    k = new.args[1]
                    return V(lib.astore(v.t, mk('tup', old.t.args[1], *(k.args if k.op == 'tup' else (k,))), new.args[2]),
                             v.tok, v.path)
                if new.op == 'store' and new.args[0] is old.t and rank(v.t) == 2 and lib.fravel(v.t) is old.t \
                        and new.args[1].op not in ('tup', 'slice', 'ellipsis') and shape(v.t) is not None:
                    # written through the flat view
                    k, w = new.args[1], shape(v.t)[1]
                    row = lib.arith('//', k, w)
                    return V(lib.astore(v.t, mk('tup', row, lib.arith('%', k, w)), new.args[2]), v.tok, v.path)
                return V(opaque('array changed through another view', v.t, old.t, new), v.tok, v.path)
            return v
        for fid, fr in list(st.fr.items()):
            for k, v in list(fr.items()):
                if v.tok:
                    n = upd(v)
                    if n is not v:
                        st.setvar(fid, k, n)
        for i, h in list(st.heap.items()):
            ch = False
            for v in h.f.values():
                if v.tok & old.tok:
                    ch = True
            if isinstance(h.items, (list, dict)):
                for v in (h.items if isinstance(h.items, list) else h.items.values()):
                    if v.tok & old.tok:
                        ch = True
            if ch:
                w = st.w(i)
                w.f = {k: upd(v) for k, v in w.f.items()}
                if isinstance(w.items, list):
                    w.items = [upd(v) for v in w.items]
                elif isinstance(w.items, dict):
                    w.items = {k: upd(v) for k, v in w.items.items()}
        if old.path is not None:
            self.update_content(old, new, st)

    def update_content(self, v, new, st):
        """write back a changed container value"""
        h = self.H(v, st)
        if h is not None:
            w = st.w(v.t.args[0])
            w.items, w.seq = None, new
            return
        for tk in v.tok:
            if tk[0] == 'in':
                st.mut = st.mut | frozenset((tk[1],))
        if v.path is not None:
            b, k = v.path
            c = self.content(b, st)
            self.update_content(b, dput(c, k, new), st)
            return
        # a local symbolic container held in variables
        for fid, fr in list(st.fr.items()):
            for k, x in list(fr.items()):
                if x.t is v.t and (x.tok & v.tok or not v.tok):
                    st.setvar(fid, k, V(new, x.tok, x.path))

    # ---- stores

    def store(self, t, v, st, cx):
        if isinstance(t, ast.Name):
            v = self.tokenize(v)
            if t.id in cx.globals:
                st.setvar('glob', cx.module.name + '.' + t.id, v)
                st.emit(mk('ev', 'setglobal', const(cx.module.name + '.' + t.id), self.freeze(v.t, st)))
                return
            if t.id in cx.nonlocals:
                env = cx.fn.env
                while env is not None:
                    if t.id in st.fr.get(env[0], {}):
                        st.setvar(env[0], t.id, v)
                        return
                    env = env[1]
            st.setvar(cx.fid, t.id, v)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, cx)
            self.setattr(b, t.attr, v, st, cx, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, cx)
            k = self.index(t.slice, st, cx)
            self.store_sub(b, k, v, st, cx, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, cx)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, st, cx)
        else:
            raise Unsupported('store ' + type(t).__name__, t)

    def unpack(self, t, v, st, cx):
        h = self.H(v, st)
        n = len(t.elts)
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if h is not None and isinstance(h.items, list):
            vals = list(h.items)
        else:
            c = self.content(v, st)
            vals = None
            if c.op in ('tup', 'lit'):
                vals = [V(x) for x in c.args]
            elif c.op == 'Map' and c.args[1].op == 'range' and c.args[1].args[0].op == 'num':
                vals = [V(idx(c, num(i))) for i in range(int(c.args[1].args[0].args[0]))]
            elif c.op == 'shapeof':
                vals = [V(mk('dim', c.args[0], i)) for i in range(n)]
            elif c.op == 'dlit':
                vals = [V(k) for k, _ in c.args[0]]
            if vals is None:
                ln = flen(c)
                if kind(c) in ('list', 'str') or rank(c):
                    if not stars:
                        self.raise_if(bnot(eq(ln, num(n))), 'ValueError', st, cx, t)
                if stars:
                    i = stars[0]
                    after = n - i - 1
                    for j in range(i):
                        self.store(t.elts[j], V(idx(c, num(j))), st, cx)
                    self.store(t.elts[i].value, st.new(H('list', seq=slseq(
                        c, num(i), NONE if not after else num(-after), ONE))), st, cx)
                    for j in range(after):
                        self.store(t.elts[i + 1 + j], V(idx(c, num(j - after))), st, cx)
                    return
                vals = [V(idx(c, num(i)), v.tok) for i in range(n)]
        if stars:
            i = stars[0]
            after = n - i - 1
            if len(vals) < n - 1:
                self.raise_if(TRUE, 'ValueError', st, cx, t)
            mid = vals[i:len(vals) - after]
            vals = vals[:i] + [st.new(H('list', items=mid))] + (vals[len(vals) - after:] if after else [])
        if len(vals) != n:
            self.raise_if(TRUE, 'ValueError', st, cx, t)
        for e, x in zip(t.elts, vals):
            self.store(e, x, st, cx)

    def mangle(self, name, cx):
        if name.startswith('__') and not name.endswith('__') and cx.cls is not None:
            return '_' + cx.cls.name.lstrip('_') + name
        return name

    def setattr(self, b, name, v, st, cx, node):
        name = self.mangle(name, cx)
        v = self.tokenize(v)

        def go(s, bv):
            h = self.H(bv, s)
            if h is not None and h.kind == 'inst':
                if isinstance(h.cls, Cls):
                    sf = h.cls.find_setter(name)
                    if sf is not None:
                        owner, fnode = sf
                        f = Func(fnode, owner.module, owner.name + '.' + fnode.name + '.setter', owner)
                        q = self.qual(f)
                        if q in self.boundary:
                            s.emit(mk('call', q, ((name, self.freeze(v.t, s)),)))
                            return None
                        self.call_func(f, [bv, v], {}, s, cx, node)
                        return None
                    m = h.cls.find(name)
                    if m is not None and m[0] == 'attr' and isinstance(m[2], ast.Call):
                        d = self.classvar(h.cls, name, s, lambda: self.static(m[2], s, Cx(-1, m[1].module, m[1])))
                        if d.t.op == 'propobj':
                            if len(d.t.args) < 2 or d.t.args[1] is NONE:
                                self.raise_if(TRUE, 'AttributeError', s, cx, node)
                                return None
                            self.call(V(d.t.args[1]), [bv, v], {}, s, cx, node)
                            return None
                    if m is not None and m[0] == 'func' and any(dotted(d) == 'property'
                                                                for d in m[2].decorator_list):
                        self.raise_if(TRUE, 'AttributeError', s, cx, node)
                s.w(bv.t.args[0]).f[name] = v
                return None
            if h is not None:
                s.w(bv.t.args[0]).f[name] = v
                return None
            if bv.t is NONE:
                self.raise_if(TRUE, 'AttributeError', s, cx, node)
            if bv.t.op == 'class':
                s.setvar('glob', self.getcls(bv.t).qual + '::' + name, v)
            s.emit(mk('ev', 'setattr', bv.t, const(name), self.freeze(v.t, s)))
            return None
        self.cases(b, st, go)

    def store_sub(self, b, k, v, st, cx, node):
        def go(s, bv):
            self._store_sub(bv, k, v, s, cx, node)
            return None
        self.cases(b, st, go)

    def _store_sub(self, b, k, v, st, cx, node):
        h = self.H(b, st)
        kt = k.t
        if h is not None:
            if h.kind == 'list':
                if isinstance(h.items, list) and kt.op == 'num' and -len(h.items) <= kt.args[0] < len(h.items):
                    st.w(b.t.args[0]).items[int(kt.args[0])] = v
                    return
                if kt.op == 'slice':
                    raise Unsupported('list slice assignment', node)
                c = self.content_h(h)
                w = st.w(b.t.args[0])
                w.items, w.seq = None, alg.lstore(c, kt, self.freeze(v.t, st))
                return
            if h.kind == 'dict':
                kt = self.freeze(kt, st)
                w = st.w(b.t.args[0])
                if isinstance(w.items, dict) and (kt in w.items or
                                                  all(definitely_ne(kt, x) for x in w.items)):
                    w.items[kt] = v
                    return
                c = self.content_h(w)
                w.items, w.seq = None, dput(c, kt, v.t)
                return
            if h.kind == 'inst' and isinstance(h.cls, Cls):
                m = h.cls.find('__setitem__')
                if m is not None:
                    self.call_func(self.mfunc(m), [b, k, v], {}, st, cx, node)
                    return
            raise Unsupported('subscript store on ' + h.kind, node)
        b = self.refresh(b, st)
        if kind(b.t) == 'dict' or kt.op == 'str' or (b.path is not None and not b.tok and rank(b.t) is None) \
                or (b.t.op == 'tmp' and rank(b.t) is None and not b.tok):
            self.update_content(b, dput(self.content(b, st), self.freeze(kt, st), self.freeze(v.t, st)), st)
            return
        if b.t is NONE or b.t.op in ('num', 'str', 'tup'):
            self.raise_if(TRUE, 'TypeError', st, cx, node)
        new = lib.astore(b.t, kt, v.t)
        self.update_array(b, new, st)
        if not b.tok:
            self.update_content(b, new, st)

    # ---- with / try

    def s_With(self, s, st, cx):
        opened = []
        n0 = len(cx.exits)
        for it in s.items:
            v = self.eval(it.context_expr, st, cx)
            h = self.H(v, st)
            target = v
            if h is not None and h.kind == 'inst' and isinstance(h.cls, Cls):
                m = h.cls.find('__enter__')
                if m is not None:
                    target = self.call_func(self.mfunc(m), [v], {}, st, cx, s)
            if it.optional_vars is not None:
                self.store(it.optional_vars, target, st, cx)
            opened.append(v)

        def close(state, normal=True):
            for v in reversed(opened):
                h = self.H(v, state)
                if h is not None and h.kind == 'file':
                    if not self.closed(v, state):
                        self.file_close(v, state)
                elif h is not None and h.kind == 'inst' and isinstance(h.cls, Cls):
                    m = h.cls.find('__exit__')
                    if m is not None:
                        self.call_func(self.mfunc(m), [v, V(NONE), V(NONE), V(NONE)], {}, state, cx, s)
                else:
                    t = self.freeze(v.t, state)
                    if t.op != 'pure':
                        state.emit(mk('ev', 'exit', t))
        try:
            self.block(s.body, st, cx)
        except Dead:
            for e in cx.exits[n0:]:
                close(e.st)
            raise
        for e in cx.exits[n0:]:
            close(e.st)
        close(st)

    def closed(self, v, st):
        h = self.H(v, st)
        return 'closed' in h.f and h.f['closed'].t is TRUE

    def file_close(self, v, st):
        w = st.w(v.t.args[0])
        w.f['closed'] = V(TRUE)
        st.emit(mk('ev', 'close', w.note))

    def s_Try(self, s, st, cx):
        n0 = len(cx.exits)
        pre = st.copy()
        self.risky.append([])
        dead = False
        try:
            self.block(s.body, st, cx)
        except Dead:
            dead = True
        risky = self.risky.pop()
        mine = cx.exits[n0:]
        del cx.exits[n0:]
        outs = []       # states continuing after the try
        keep = []
        handlers = s.handlers
        caught = []     # (handler index, exc V, state)
        for e in mine:
            if e.kind != 'raise' or not handlers:
                keep.append(e)
                continue
            nm = self.excname(e.v)
            done = False
            for hi, h in enumerate(handlers):
                types = self.htypes(h, cx)
                r = [self.exc_is(nm, t) for t in types] if nm else [None]
                if True in r:
                    caught.append((hi, e.v, e.st))
                    done = True
                    break
                if None in r:
                    raise Unsupported('exception match ' + str(nm), s)
            if not done:
                keep.append(e)
        if handlers and risky:
            # operations of unknown outcome inside the body may raise into the handlers
            seen = []
            for r in risky:
                if r not in seen:
                    seen.append(r)
            for hi, h in enumerate(handlers):
                types = tuple(sorted(self.htypes(h, cx)))
                rel = tuple(x for x in seen if lib.may_raise(x, types))
                if not rel:
                    continue
                at = batom(mk('b', mk('raised', tuple(types), tuple(rel))))
                hs = pre.copy()
                hs.pc = band(pre.pc, at)
                caught.append((hi, V(mk('exc', types[0] if len(types) == 1 else 'Exception',
                                        mk('raisedby', tuple(rel)))), hs))
                if not dead:
                    st.pc = band(st.pc, bnot(at))
                for e in keep:
                    e.st.pc = band(e.st.pc, bnot(at))
                    e.pc = e.st.pc
                for k in range(len(caught) - 1):
                    if not (caught[k][2].pc is FALSE):
                        caught[k][2].pc = band(caught[k][2].pc, bnot(at))
        cx.exits.extend([e for e in keep if e.st.pc is not FALSE])
        if not dead and st.pc is not FALSE:
            base = st.copy()
            try:
                self.block(s.orelse, base, cx)
                outs.append(base)
            except Dead:
                pass
        for hi, ev, hs in caught:
            if hs.pc is FALSE:
                continue
            h = handlers[hi]
            hs = hs.copy()
            if h.name:
                hs.setvar(cx.fid, h.name, ev)
            old = getattr(cx, 'handling', None)
            cx.handling = ev.t
            try:
                self.block(h.body, hs, cx)
                if h.name:
                    hs.delvar(cx.fid, h.name)
                outs.append(hs)
            except Dead:
                pass
            finally:
                cx.handling = old
        if s.finalbody:
            newex = cx.exits[n0:]
            del cx.exits[n0:]
            for e in newex:
                n1 = len(cx.exits)
                try:
                    self.block(s.finalbody, e.st, cx)
                    e.pc = e.st.pc
                    cx.exits.append(e)
                except Dead:
                    pass
            o2 = []
            for o in outs:
                try:
                    self.block(s.finalbody, o, cx)
                    o2.append(o)
                except Dead:
                    pass
            outs = o2
        if not outs:
            raise Dead()
        acc = outs[-1]
        for o in reversed(outs[:-1]):
            sel = constrain(o.pc, bor(o.pc, acc.pc))
            acc = self.merge(o, acc, sel)
        st.assign(acc)

    def htypes(self, h, cx):
        if h.type is None:
            return ['BaseException']
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [(dotted(e) or 'Exception').split('.')[-1] for e in es]

    # ---- loops

    def s_For(self, s, st, cx):
        it = self.eval(s.iter, st, cx)

        def body(elem, state):
            self.store(s.target, elem, state, cx)
            self.block(s.body, state, cx)

        def go(state, v):
            self.loop_over(v, body, state, cx, s, s.orelse)
            return None
        self.cases(it, st, go)

    def loop_over(self, it, body, st, cx, node, orelse=()):
        h = self.H(it, st)
        if h is not None and h.kind in ('list', 'set') and isinstance(h.items, list):
            return self.unroll(lib.set_items(h.items) if h.kind == 'set' else list(h.items), body, st, cx, orelse, node)
        if h is not None and h.kind == 'dict' and isinstance(h.items, dict):
            return self.unroll([V(k) for k in h.items], body, st, cx, orelse, node)
        if h is not None and h.kind == 'inst':
            m = h.cls.find('__iter__') if isinstance(h.cls, Cls) else None
            if m is not None:
                r = self.call_func(self.mfunc(m), [it], {}, st, cx, node)
                return self.loop_over(r, body, st, cx, node, orelse)
        c = self.content(it, st)
        tok = it.tok
        if h is not None and h.kind == 'dict' or kind(c) == 'dict':
            c = keys(c)
        if c.op == 'items':
            c = lib.items_seq(c.args[0])
        if c.op == 'lit' or c.op == 'tup':
            return self.unroll([V(x) for x in c.args], body, st, cx, orelse, node)
        if c.op == 'str':
            return self.unroll([V(mk('str', x)) for x in c.args[0]], body, st, cx, orelse, node)
        if c is NONE or c.op == 'num':
            self.raise_if(TRUE, 'TypeError', st, cx, node)
        if c.op == 'set' and c.args[0].op in ('lit', 'tup'):
            return self.unroll([V(x) for x in c.args[0].args], body, st, cx, orelse, node)
        if c.op == 'Map' and c.args[1].op == 'range' and c.args[1].args[0].op == 'num' and \
                c.args[1].args[0].args[0] <= 64:
            n = int(c.args[1].args[0].args[0])
            return self.unroll([V(idx(c, num(i))) for i in range(n)], body, st, cx, orelse, node)
        if c.op == 'ite':
            t = constrain(c, st.pc)
            if t.op == 'ite':
                return self.fork(st, batom(t.args[0]),
                                 lambda a: self.loop_over(V(restrict(t, t.args[0], True), it.tok), body, a, cx, node, orelse),
                                 lambda b: self.loop_over(V(restrict(t, t.args[0], False), it.tok), body, b, cx, node, orelse))
            c = t
            if c.op in ('lit', 'tup'):
                return self.unroll([V(x) for x in c.args], body, st, cx, orelse, node)
        if c.op == 'cat' and all(known_list(p) for p in c.args):
            # every element with the conditions under which it is there
            elems = []

            def spell(t, cs):
                if t.op == 'ite':
                    spell(t.args[1], cs + ((batom(t.args[0]), True),))
                    spell(t.args[2], cs + ((batom(t.args[0]), False),))
                else:
                    elems.extend((cs, x) for x in t.args)

            def guarded(e, state, k=0):
                cs, x = e
                if k == len(cs):
                    return body(V(x), state)
                cond, pos = cs[k]
                return self.fork(state, cond if pos else bnot(cond), lambda a: guarded(e, a, k + 1), lambda b: None)
            for p in c.args:
                spell(p, ())
            return self.unroll(elems, guarded, st, cx, orelse, node)
        brk = any(isinstance(x, ast.Break) for b in getattr(node, 'body', ()) or () if isinstance(b, ast.AST)
                  for x in ast.walk(b))
        if c.op == 'cat' and len(c.args) <= 6 and not orelse and not brk:
            for p in c.args:
                self.loop_over(V(p), body, st, cx, node)
            return None
        if c.op == 'FlatMap' and not brk:
            i, outer, inner = open_binder(c)
            return self.sym_loop(mk('range', domlen(outer[0])), i,
                                 lambda k, state: self.flat_iter(inner[0], body, state, cx, node), st, cx, node, orelse)
        if c.op == 'enumiter':
            raise Unsupported('enumerate', node)
        n = flen(c)
        if c.op == 'set':
            n = mk('len', c)
        i = tmp('i', True, 0)

        def elem(k):
            e = idx(c, k)
            tk = tok
            if not tk and c.op == 'sym':
                tk = frozenset({('in', show(c) + '[]')})
            return V(e, frozenset(tk) if self._maybe(e) else frozenset())
        if n.op == 'num' and c.op == 'arr' and 0 <= n.args[0] <= 64:
            return self.unroll([elem(num(k)) for k in range(int(n.args[0]))], body, st, cx, orelse, node)
        return self.sym_loop(mk('range', n), i, lambda k, state: body(elem(k), state), st, cx, node, orelse)

    def _maybe(self, t):
        return t.op not in ('num', 'str', 'none') and rank(t) != 0

    def flat_iter(self, inner, body, st, cx, node):
        if inner.op == 'ite':
            self.fork(st, batom(inner.args[0]),
                      lambda a: self.flat_iter(inner.args[1], body, a, cx, node),
                      lambda b: self.flat_iter(inner.args[2], body, b, cx, node))
        else:
            self.loop_over(V(inner), body, st, cx, node)

    def unroll(self, elems, body, st, cx, orelse, node):
        if len(elems) > 400:
            raise Unsupported('long literal loop', node)
        after = []      # states after break
        alive = True
        for e in elems:
            n0 = len(cx.exits)
            try:
                body(e, st)
                live = [st.copy()] if False else None
            except Dead:
                live = 'dead'
            mine = cx.exits[n0:]
            del cx.exits[n0:]
            conts = []
            for x in mine:
                if x.kind == 'break':
                    after.append(x.st)
                elif x.kind == 'continue':
                    conts.append(x.st)
                else:
                    cx.exits.append(x)
            states = ([] if live == 'dead' else [st.copy()]) + conts
            if not states:
                alive = False
                break
            acc = states[0]
            for o in states[1:]:
                sel = constrain(acc.pc, bor(acc.pc, o.pc))
                acc = self.merge(acc, o, sel)
            st.assign(acc)
        if alive and orelse:
            try:
                self.block(orelse, st, cx)
            except Dead:
                alive = False
        states = after + ([st.copy()] if alive else [])
        if not states:
            raise Dead()
        acc = states[-1]
        for o in reversed(states[:-1]):
            sel = constrain(o.pc, bor(o.pc, acc.pc))
            acc = self.merge(o, acc, sel)
        st.assign(acc)

    def s_While(self, s, st, cx):
        test = s.test
        # bounded unrolling of loops whose condition is decided statically
        i = tmp('i', True, 0)

        def body(k, state):
            c = self.truth(self.eval(test, state, cx), state, cx, s)
            self.fork(state, c, lambda a: self.block(s.body, a, cx), lambda b: self._brk(b, cx, s))
        # concrete unrolling attempt: every iteration's condition and break decided
        if self.unroll_while(s, st, cx):
            return
        f = counted(s)
        if f is not None:
            return self.s_For(f, st, cx)
        self.sym_loop(mk('forever'), i, body, st, cx, s, s.orelse, whileloop=True)

    def unroll_while(self, s, st, cx):
        t = st.copy()
        keep = list(cx.exits)
        broke = False
        for k in range(120):
            n0 = len(cx.exits)
            try:
                c = constrain(self.truth(self.eval(s.test, t, cx), t, cx, s), t.pc)
            except Dead:
                if len(cx.exits) > n0 and all(x.kind == 'raise' for x in cx.exits[n0:]):
                    raise Dead()        # evaluating the test raises on every path
                break
            if c is FALSE:
                st.assign(t)
                if s.orelse:
                    self.block(s.orelse, st, cx)
                return True
            if c is not TRUE:
                break
            n0 = len(cx.exits)
            try:
                self.block(s.body, t, cx)
                live = [t.copy()]
            except Dead:
                live = []
            mine = cx.exits[n0:]
            del cx.exits[n0:]
            brk = [x.st for x in mine if x.kind == 'break']
            live += [x.st for x in mine if x.kind == 'continue']
            cx.exits.extend(x for x in mine if x.kind not in ('break', 'continue'))
            if brk and live:
                break
            if not brk and not live:
                # every path leaves the loop by a return or an exception
                raise Dead()
            states = brk or live
            acc = states[0]
            for o in states[1:]:
                acc = self.merge(acc, o, constrain(acc.pc, bor(acc.pc, o.pc)))
            t = acc
            if brk:
                st.assign(t)
                return True
            if k >= 2 and t.pc is not st.pc and any(x.kind == 'return' for x in cx.exits[len(keep):]):
                break
        cx.exits[:] = keep
        return False

    def _brk(self, st, cx, node):
        cx.exits.append(Exit('wbreak', None, st.copy(), node))
        raise Dead()

    # symbolic loop summarisation ------------------------------------------------

    def locs(self, base, end):
        """locations of `base` whose value differs in `end` -> {loc: (old term, new term)}"""
        out = {}
        for fid, fr in base.fr.items():
            fe = end.fr.get(fid)
            if fe is None or fe is fr:
                continue
            for k, v in fe.items():
                o = fr.get(k)
                if o is None:
                    out[('v', fid, k)] = None
                elif o.t is not v.t:
                    out[('v', fid, k)] = o.t
            for k in fr:
                if k not in fe:
                    out[('v', fid, k)] = fr[k].t
        for i, h in base.heap.items():
            he = end.heap.get(i)
            if he is None or he is h:
                continue
            for k, v in he.f.items():
                o = h.f.get(k)
                if o is None or o.t is not v.t:
                    out[('f', i, k)] = o.t if o is not None else None
            if h.kind in ('list', 'set', 'dict'):
                if isinstance(h.items, dict) and isinstance(he.items, dict) and list(h.items) == list(he.items):
                    for k in h.items:
                        if h.items[k].t is not he.items[k].t:
                            out[('k', i, k)] = h.items[k].t
                elif isinstance(h.items, list) and isinstance(he.items, list) and len(h.items) == len(he.items):
                    for k in range(len(h.items)):
                        if h.items[k].t is not he.items[k].t:
                            out[('i', i, k)] = h.items[k].t
                elif self.content_h(h) is not self.content_h(he):
                    out[('c', i)] = self.content_h(h)
        return out

    def loc_get(self, loc, st):
        if loc[0] == 'v':
            v = st.fr.get(loc[1], {}).get(loc[2])
            return v.t if v is not None else UNDEF
        h = st.heap[loc[1]]
        if loc[0] == 'f':
            v = h.f.get(loc[2])
            return v.t if v is not None else UNDEF
        if loc[0] == 'k':
            if isinstance(h.items, dict) and loc[2] in h.items:
                return h.items[loc[2]].t
            return dget(self.content_h(h), loc[2])
        if loc[0] == 'i':
            if isinstance(h.items, list):
                return h.items[loc[2]].t
            return idx(self.content_h(h), num(loc[2]))
        return self.content_h(h)

    def loc_tok(self, loc, st):
        try:
            if loc[0] == 'v':
                return st.fr[loc[1]][loc[2]].tok
            h = st.heap[loc[1]]
            if loc[0] == 'f':
                return h.f[loc[2]].tok
            if loc[0] in ('k', 'i'):
                return h.items[loc[2]].tok
        except (KeyError, TypeError, IndexError):
            pass
        return frozenset()

    def loc_set(self, loc, t, st, tok=frozenset()):
        if loc[0] == 'v':
            if t is UNDEF:
                st.delvar(loc[1], loc[2])
            else:
                st.setvar(loc[1], loc[2], V(t, tok))
            return
        w = st.w(loc[1])
        if loc[0] == 'f':
            if t is UNDEF:
                w.f.pop(loc[2], None)
            else:
                w.f[loc[2]] = V(t, tok)
        elif loc[0] == 'k':
            if isinstance(w.items, dict):
                w.items[loc[2]] = V(t, tok)
            else:
                w.seq = dput(w.seq, loc[2], t)
        elif loc[0] == 'i':
            if isinstance(w.items, list):
                w.items[loc[2]] = V(t, tok)
            else:
                w.seq = alg.lstore(w.seq, num(loc[2]), t)
        else:
            w.items, w.seq = None, t

    def lockind(self, loc, st):
        if loc[0] == 'c':
            return st.heap[loc[1]].kind
        return None

    def sym_loop(self, dom, i, body, st, cx, node, orelse=(), whileloop=False):
        if dom.op == 'range' and dom.args[0] is ZERO:
            if orelse:
                self.block(orelse, st, cx)
            return
        n = dom.args[0] if dom.op == 'range' else None
        M = {}          # loc -> tmp
        hints = {}
        late = {}       # loc -> value before the first iteration; every iteration assigns it afresh
        base0 = st.copy()
        entry = st.pc
        for rounds in range(12):
            s = base0.copy()
            s.trace = LIT0
            s.occ = dict(base0.occ)
            for loc, tv in M.items():
                if tv is None:
                    self.loc_set(loc, UNDEF, s)
                elif loc in late:
                    self.loc_set(loc, ite(lt(ZERO, i), tv, late[loc]), s, hints.get(loc, frozenset()))
                else:
                    tok = self.loc_tok(loc, base0) | hints.get(loc, frozenset())
                    self.loc_set(loc, tv, s, tok)
            start = s.copy()
            n0 = len(cx.exits)
            self.loopctx.append(i)
            dead = False
            pcin = entry
            if dom.op == 'range':
                # 0 <= i < n holds inside the body
                fact = band(bnot(lt0(i)), lt(i, n))
                s.pc = band(s.pc, fact)
                pcin = s.pc
            if s.pc is FALSE:
                dead = True
            else:
                try:
                    body(i, s)
                except Dead:
                    dead = True
            self.loopctx.pop()
            mine = cx.exits[n0:]
            del cx.exits[n0:]
            ends = ([] if dead else [s]) + [x.st for x in mine if x.kind == 'continue']
            exits = [x for x in mine if x.kind != 'continue']
            end = None
            if ends:
                end = ends[0]
                for o in ends[1:]:
                    sel = constrain(end.pc, bor(end.pc, o.pc))
                    end = self.merge(end, o, sel)
            changed = {}
            if end is not None:
                changed.update(self.locs(start, end))
            grow = False
            for loc, tv in list(M.items()):
                if tv is None and loc[0] == 'v' and loc[1:] in self.undef_reads and loc not in late and \
                        dom.op in ('range', 'forever') and end is not None:
                    M[loc] = self.havoc_late(self.loc_get(loc, end))
                    if M[loc] is not None:
                        late[loc] = UNDEF
                        grow = True
            for loc in [l for l in late if late[l] is NONE and end is not None]:
                nt = self.loc_get(loc, end)
                if _mentions(nt, M[loc]) or _has_none(nt) or _has_undef(nt):
                    del late[loc]
                    M[loc] = tmp('s', False, None)
                    grow = True
            for loc, old in changed.items():
                if loc in M:
                    # rank/shape generalisation
                    continue
                init = self.loc_get(loc, base0)
                newt = self.loc_get(loc, end)
                if loc[0] == 'c':
                    # literal members subsumed
                    for l2 in [l for l in M if l[0] in ('k', 'i') and l[1] == loc[1]]:
                        del M[l2]
                M[loc] = None
                if init is NONE and loc[0] in ('v', 'f') and dom.op in ('range', 'forever'):
                    M[loc] = self.havoc_late(newt)
                    if M[loc] is not None:
                        late[loc] = NONE
                if M[loc] is None:
                    M[loc] = self.havoc(loc, init, newt, st)
                grow = True
            # hints for tokens
            if end is not None:
                for loc in M:
                    tk = self.loc_tok(loc, end)
                    if tk - hints.get(loc, frozenset()):
                        hints[loc] = hints.get(loc, frozenset()) | tk
            # ranks: a havocked scalar that became an array
            if end is not None and not grow:
                for loc, tv in list(M.items()):
                    if tv is not None and tv.op == 'tmp':
                        nt = self.loc_get(loc, end)
                        if loc in late:
                            continue
                        if rank(tv) == 0 and rank(nt) != 0 and nt is not tv:
                            M[loc] = tmp('s', False, rank(nt) if rank(nt) is not None else None)
                            if rank(nt) and False:
                                pass
                            grow = True
                        elif tv.args[2] and not is_int(nt) and nt is not tv:
                            M[loc] = tmp('s', False, rank(tv))
                            grow = True
            if not grow:
                break
        else:
            raise Unsupported('loop summary did not stabilise', node)
        keepids = set(base0.heap)
        st.mut = st.mut | (end.mut if end is not None else frozenset())
        for x in exits:
            st.mut = st.mut | x.st.mut
        occ = dict(base0.occ)

        def rel(pc):
            return constrain(pc, pcin)
        steps = {}
        inits = {}
        for loc, tv in M.items():
            inits[loc] = self.freeze_outer(self.loc_get(loc, base0), base0, keepids)
            steps[loc] = self.freeze(self.loc_get(loc, end), end, keepids)
            steps[loc] = constrain(steps[loc], rel(end.pc)) if steps[loc].op == 'ite' else steps[loc]
        delta = self.freeze(end.trace, end, keepids) if end is not None else LIT0
        # exit condition
        X = FALSE
        for x in exits:
            X = bor(X, rel(x.st.pc))
        X = self.freeze(X, exits[0].st, keepids) if exits and _hasref(X) else X
        if end is None:
            # body never completes an iteration: at most one iteration
            X = TRUE
        S = Summary(self, dom, i, M, inits, steps, X, delta, whileloop, {M[l] for l in late})
        nstar = S.nstar
        if whileloop:
            found = TRUE
        elif X is FALSE:
            found = FALSE
        else:
            found = S.found()

        # --- states leaving through exits
        out_states = []
        sub_n = S.at(nstar)

        def leave(x):
            ns = base0.copy()
            ns.occ = occ
            ch = self.locs(start, x.st)
            for loc, tv in M.items():
                if loc not in ch:
                    self.loc_set(loc, S.value(loc, nstar), ns, self.loc_tok(loc, base0) | hints.get(loc, frozenset()))
            for loc in ch:
                t = self.freeze(self.loc_get(loc, x.st), x.st, keepids)
                self.loc_set(loc, S.sub(t, nstar), ns, self.loc_tok(loc, x.st))
            tr = self.freeze(x.st.trace, x.st, keepids)
            ns.trace = cat(base0.trace, S.trace_until(nstar), S.sub(tr, nstar))
            # objects allocated inside the exiting iteration
            for hid, h in x.st.heap.items():
                if hid not in ns.heap:
                    ns.heap[hid] = self.subst_h(h, lambda t: S.sub(t, nstar))
            for fid, fr in x.st.fr.items():
                if fid not in ns.fr:
                    ns.fr[fid] = {k: V(S.sub(v.t, nstar), v.tok, v.path) for k, v in fr.items()}
            ns.mut = x.st.mut | st.mut
            only = all(o is x for o in exits) or rel(x.st.pc) is X
            if only:
                cond = TRUE
            elif x is exits[-1]:
                # the loop left in this iteration, so one of the exits was taken
                cond = TRUE
                for o in exits[:-1]:
                    cond = band(cond, bnot(S.sub(rel(o.st.pc), nstar)))
            else:
                cond = S.sub(rel(x.st.pc), nstar)
            ns.pc = band(base0.pc, band(found, cond))
            return ns
        conts = []
        for x in exits:
            ns = leave(x)
            if ns.pc is FALSE:
                continue
            if x.kind in ('break', 'wbreak'):
                if x.kind == 'wbreak' and orelse:
                    try:
                        self.block(orelse, ns, cx)
                    except Dead:
                        continue
                conts.append(ns)
            else:
                v = None
                if x.v is not None:
                    v = V(S.sub(self.freeze(x.v.t, x.st, set(ns.heap)), nstar), x.v.tok)
                e = Exit(x.kind, v, ns, x.node, x.where)
                cx.exits.append(e)
        # --- normal completion
        if found is not TRUE and not whileloop:
            ns = base0.copy()
            ns.occ = occ
            for loc in M:
                self.loc_set(loc, S.final(loc, found is FALSE), ns,
                             self.loc_tok(loc, base0) | hints.get(loc, frozenset()))
            ns.trace = cat(base0.trace, S.trace_all())
            ns.mut = st.mut
            ns.pc = band(base0.pc, bnot(found))
            if ns.pc is not FALSE:
                ok = True
                if orelse:
                    try:
                        self.block(orelse, ns, cx)
                    except Dead:
                        ok = False
                if ok:
                    conts.append(ns)
        if not conts:
            raise Dead()
        acc = conts[-1]
        for o in reversed(conts[:-1]):
            sel = constrain(o.pc, bor(o.pc, acc.pc))
            acc = self.merge(o, acc, sel)
        st.assign(acc)

    def freeze_outer(self, t, st, keep):
        return t

    def subst_h(self, h, f):
        c = h.copy()
        c.f = {k: V(f(v.t), v.tok, v.path) for k, v in c.f.items()}
        if isinstance(c.items, list):
            c.items = [V(f(v.t), v.tok) for v in c.items]
        elif isinstance(c.items, dict):
            c.items = {f(k): V(f(v.t), v.tok) for k, v in c.items.items()}
        if c.seq is not None:
            c.seq = f(c.seq)
        return c

    def havoc_late(self, new):
        if self.is_reflike(new) or _has_undef(new):
            return None
        k, r = kind(new), rank(new)
        if k in ('str', 'bool'):
            t = tmp('s', False, 0)
            TMPKIND[t] = k
            return t
        if k in ('list', 'dict') or r is None:
            return None
        return tmp('s', bool(is_int(new)), r)

    def havoc(self, loc, init, new, st):
        if init is UNDEF or init is None:
            return None
        if loc[0] == 'c':
            k = self.lockind(loc, st)
            t = tmp('c_' + k, False, None)
            TMPKIND[t] = 'list' if k == 'set' else k
            return t
        if self.is_reflike(init) or self.is_reflike(new):
            return opaque('loop-carried object %d' % next(_fid))
        r = rank(init)
        r2 = rank(new)
        if r == 0 and r2 == 0:
            t = tmp('s', is_int(init) and (is_int(new) or True), 0)
            ki, kn = kind(init), kind(new)
            if ki in ('str', 'bool') and kn == ki or ki == 'str':
                TMPKIND[t] = ki
                t2 = tmp('s', False, 0)
                TMPKIND[t2] = ki
                return t2
            if ki == 'bool':
                t2 = tmp('s', False, 0)
                TMPKIND[t2] = 'bool'
                return t2
            if ki == 'none' or kn == 'none':
                return tmp('s', False, None)
            return t
        if init is NONE or _has_none(new):
            return tmp('s', False, None)
        if r == 0 and r2:
            return tmp('s', False, r2)
        if kind(init) in ('list', 'dict', 'str'):
            t = tmp('s', False, None)
            TMPKIND[t] = kind(init)
            return t
        return tmp('s', False, r if r == r2 else r2 if init is ZERO else None)


class Summary:
    """closed forms of the loop-carried locations"""

    def __init__(self, ip, dom, i, M, inits, steps, X, delta, whileloop, late=()):
        self.late = late    # states only read after an iteration has set them
        self.ip, self.dom, self.i, self.M = ip, dom, i, M
        self.inits, self.X, self.delta = inits, X, delta
        self.whileloop = whileloop
        self.form = {}     # loc -> function(k) giving value before iteration k
        self.steps = dict(steps)
        self.tm = {tv: loc for loc, tv in M.items() if tv is not None and tv.op == 'tmp'}
        self.resolved = {}  # tmp -> closed form in terms of i
        self.solve()

    def pending(self, t):
        return [x for x in t.fs if x in self.tm and x not in self.resolved] if not isinstance(t, tuple) else []

    def sub_i(self, t):
        m = {x: f for x, f in self.resolved.items() if x in t.fs}
        return subst(t, m) if m else t

    def solve(self):
        i = self.i
        todo = dict(self.steps)
        progress = True
        while progress and todo:
            progress = False
            for loc in list(todo):
                tv = self.M[loc]
                step = self.sub_i(todo[loc])
                f = self.closed(loc, tv, step)
                if f is not None:
                    self.form[loc] = f
                    if tv is not None and tv.op == 'tmp':
                        self.resolved[tv] = subst(step, {i: sub(i, ONE)}) if tv in self.late and \
                            tv not in step.fs else f(i)
                    del todo[loc]
                    progress = True
            self.X = self.sub_i(self.X)
        # canonical while loops with a counter
        if self.dom.op == 'forever' and not self.pending(self.X):
            b = while_bound(self.X, i)
            if b is not None:
                self.dom = mk('range', b)
                self.nstar = b
                self.mu = None
                if not todo:
                    return
        self.todo = todo
        if self.pending(self.X) or todo:
            self.build_mu(todo)
        else:
            self.mu = None
        if self.mu is None or not self.mu_x:
            if self.dom.op == 'range':
                self.nstar = self.dom.args[0] if self.X is FALSE else funtil(i, self.dom, self.X)
                if self.X is TRUE:
                    self.nstar = ZERO
                if self.whileloop:
                    self.nstar = self.dom.args[0]
            else:
                self.nstar = bind('until', i, (self.dom,), (self.X,)) if self.X is not TRUE else ZERO

    def closed(self, loc, tv, step):
        i = self.i
        init = self.inits[loc]
        pend = self.pending(step)
        if tv is None or tv.op != 'tmp':
            # defined before use in every iteration
            if pend or (tv is not None and _mentions(step, tv)):
                return None
            return lambda k: lastval(k, i, step, init)
        if step is tv:
            return lambda k: init
        if not pend and tv not in step.fs:
            return lambda k: lastval(k, i, step, init)
        if any(x is not tv for x in pend):
            return None
        k_ = kind(tv)
        lk = self.ip.lockind(loc, self_state(self.ip)) if False else TMPKIND.get(tv)
        # assigned only in some iterations
        if step.op == 'ite':
            c = batom(step.args[0])
            a, b = step.args[1], step.args[2]
            if a is tv and not _mentions(b, tv) and tv not in c.fs:
                return lambda k: lastwhere(k, i, bnot(c), b, init)
            if b is tv and not _mentions(a, tv) and tv not in c.fs:
                return lambda k: lastwhere(k, i, c, a, init)
        # additive
        if lk is None or lk == 'num':
            if init.op != 'ite':
                g = sub(step, tv) if step.op != 'ite' else lift(lambda s: sub(s, tv), step)
                if tv not in g.fs and (rank(step) is not None):
                    if not (i in g.fs):
                        return lambda k: add(init, mul(g, k))
                    return lambda k: add(init, fsum(*_ren(i, k, g)))
                # multiplicative
            # running extremum
            ex = extremum(step, tv)
            if ex is not None:
                o, g = ex
                return lambda k: running(o, init, i, k, g)
        if lk == 'str' or (kind(init) == 'str' and step.op in ('scat', 'ite')):
            g = str_strip(step, tv)
            if g is not None and tv not in g.fs:
                return lambda k: scat(init, sjoin_loop(i, k, g))
        if lk in ('list', 'set'):
            X = strip_prefix(step, tv)
            if X is not None and tv not in X.fs:
                return lambda k: cat(init, fflatmap(*_ren(i, k, X)))
        if lk == 'dict':
            r = dict_step(step, tv)
            if r is not None:
                cond, kk, vv = r
                if not any(tv in x.fs for x in (cond, kk, vv)):
                    return lambda k: dmap_loop(i, k, init, cond, kk, vv)
        if lk == 'bool' or kind(init) == 'bool':
            # sticky flags
            if step.op == 'ite' and init in (TRUE, FALSE):
                a = restrict_term(step, tv, True)
                b = restrict_term(step, tv, False)
                if init is FALSE and a is TRUE and tv not in b.fs:
                    return lambda k: fexists(*_ren(i, k, b))
                if init is TRUE and b is FALSE and tv not in a.fs:
                    return lambda k: bnot(fexists(*_ren(i, k, bnot(a))))
        return None

    def build_mu(self, todo):
        i = self.i
        order = [l for l in todo if self.M[l] is not None and self.M[l].op == 'tmp']
        order.sort(key=lambda l: (str(l[0]), self.M[l].args[0]))
        self.order = order
        self.tmps = tuple(self.M[l] for l in order)
        self.minit = tuple(self.inits[l] for l in order)
        self.mstep = tuple(self.sub_i(self.steps[l]) for l in order)
        self.mu_x = bool(self.pending(self.X))
        self.mu = True
        mx = self.X if self.mu_x else FALSE
        if not self.mu_x:
            if self.dom.op == 'range':
                self.nstar = self.dom.args[0] if self.X is FALSE else funtil(i, self.dom, self.X)
            else:
                self.nstar = bind('until', i, (self.dom,), (self.X,)) if self.X is not TRUE else ZERO
        self.mx = mx

        def out(t, k):
            """value of t(i, states) at the start of iteration k (or where the loop stops)"""
            dom = mk('range', k) if k is not None else self.dom
            # keep only the states t and the recurrence need
            need = self.closure_of(t, mx)
            ts = tuple(x for x in self.tmps if x in need)
            ii = tuple(v for x, v in zip(self.tmps, self.minit) if x in need)
            ss = tuple(v for x, v in zip(self.tmps, self.mstep) if x in need)
            if not ts and mx is FALSE:
                return subst(t, {i: k}) if k is not None else t
            return bind('mu', (i,) + ts, (dom,), (ii, ss, mx, t))
        self.out = out
        for l in order:
            tv = self.M[l]
            self.form[l] = (lambda tv: lambda k: out(tv, k))(tv)
        for l in todo:
            if l in order:
                continue
            step = self.sub_i(self.steps[l])
            init = self.inits[l]
            tv = self.M[l]
            if tv is not None and _mentions(step, tv):
                self.form[l] = lambda k: opaque('loop-carried object')
            else:
                self.form[l] = (lambda step, init: lambda k: lastval_mu(self, k, step, init))(step, init)
        if self.mu_x:
            self.nstar = out(i, None)

    def closure_of(self, *ts):
        need = set()
        work = list(ts)
        while work:
            t = work.pop()
            for x in t.fs:
                if x in self.tmps and x not in need:
                    need.add(x)
                    work.append(self.mstep[self.tmps.index(x)])
        return need

    def found(self):
        if self.X is TRUE:
            n = domlen(self.dom) if self.dom.op == 'range' else None
            return lt(ZERO, n) if n is not None else TRUE
        if self.mu is not None and self.mu_x:
            if self.dom.op == 'forever':
                return TRUE
            return lt(self.nstar, self.dom.args[0])
        if self.dom.op == 'range':
            return fexists(self.i, self.dom, self.X)
        return TRUE

    def value(self, loc, k):
        if self.mu is not None and self.mu_x:
            # where the loop stopped
            if loc in self.form:
                tv = self.M[loc]
                if tv is not None and tv.op == 'tmp' and tv in self.tmps:
                    return self.out(tv, None)
                if tv is not None and tv.op == 'tmp':
                    return self.out(self.resolved[tv], None)
                return self.form[loc](k)
        f = self.form.get(loc)
        return f(k) if f is not None else opaque('loop value')

    def final(self, loc, noexit):
        if self.mu is not None and self.mu_x:
            return self.value(loc, self.nstar)
        n = self.dom.args[0] if self.dom.op == 'range' else self.nstar
        return self.value(loc, n)

    def sub(self, t, k):
        """t(i, states) evaluated at iteration k"""
        t = self.sub_i(t)
        if self.mu is not None:
            ps = self.pending(t)
            if self.mu_x:
                if ps or self.i in t.fs:
                    return self.out(t, None)
                return t
            if ps:
                m = {x: self.out(x, k) for x in ps}
                t = subst(t, m)
        return subst(t, {self.i: k})

    def at(self, k):
        return None

    def trace_until(self, k):
        if self.delta is LIT0:
            return LIT0
        d = self.sub_i(self.delta)
        if self.pending(d):
            return opaque_trace(self, d, k)
        return fflatmap(*_ren(self.i, k, d))

    def trace_all(self):
        if self.delta is LIT0:
            return LIT0
        n = self.dom.args[0] if self.dom.op == 'range' else self.nstar
        return self.trace_until(n)


def opaque_trace(S, d, k):
    """effect sequence of a loop whose events mention recurrence states"""
    t = tmp('tr', False, None)
    TMPKIND[t] = 'list'
    need = S.closure_of(d, S.mx)
    ts = tuple(x for x in S.tmps if x in need)
    ii = tuple(v for x, v in zip(S.tmps, S.minit) if x in need)
    ss = tuple(v for x, v in zip(S.tmps, S.mstep) if x in need)
    dom = S.dom if S.mu_x else mk('range', k)
    return bind('mu', (S.i, t) + ts, (dom,), ((LIT0,) + ii, (cat(t, d),) + ss, S.mx, t))


def self_state(ip):
    return None


def _ren(i, k, g):
    j = tmp('j', True, 0)
    return j, mk('range', k), subst(g, {i: j})


def lastval(k, i, step, init):
    if k is ZERO:
        return init
    v = subst(step, {i: sub(k, ONE)})
    if v is init:
        return v
    return ite(lt(ZERO, k), v, init)


def _has_none(t):
    return t is NONE or t.op == 'ite' and (_has_none(t.args[1]) or _has_none(t.args[2]))


def lastwhere(k, i, cond, v, init):
    """value v(i) of the last i < k with cond(i), else init"""
    if k is ZERO:
        return init
    last = sub(k, ONE)
    if i not in cond.fs:
        return ite(cond, lastval(k, i, v, init), init)
    if cond.op == 'ite' and cond.args[0].op == 'lt0' and {cond.args[1], cond.args[2]} == {TRUE, FALSE}:
        p = cond.args[0].args[0]
        c = pdict(p).get(((i, F(1)),))
        if c and abs(c) == 1 and i not in sub(p, mul(num(c), i)).fs and (c < 0) == (cond.args[1] is TRUE):
            # holds from some index on
            return ite(band(lt(ZERO, k), as_bool(subst(cond, {i: last}))), subst(v, {i: last}), init)
    j = tmp('j', True, 0)
    dom = mk('range', k)
    at = sub(last, ffirst(j, dom, subst(cond, {i: sub(last, j)})))
    return ite(fexists(j, dom, subst(cond, {i: j})), subst(v, {i: at}), init)


def lastval_mu(S, k, step, init):
    v = S.sub(step, sub(k, ONE)) if not S.mu_x else opaque('value of the last completed iteration', step)
    return ite(lt(ZERO, k), v, init)


def _mentions(t, x):
    seen = set()

    def go(n):
        if n is x:
            return True
        if n in seen:
            return False
        seen.add(n)
        return any(go(c) for c in n.kids)
    return go(t)


def extremum(step, tv):
    """step = max/min(tv, g)"""
    if step.op in ('max2', 'min2') and tv in step.args:
        g = step.args[1] if step.args[0] is tv else step.args[0]
        return ('amax' if step.op == 'max2' else 'amin', g) if tv not in g.fs else None
    if step.op == 'ite' and step.args[0].op == 'lt0':
        a, b = step.args[1], step.args[2]
        p = step.args[0].args[0]
        if a is tv and tv not in b.fs or b is tv and tv not in a.fs:
            g = b if a is tv else a
            d = sub(g, tv)
            # p<0 with p = d  -> g < tv
            if p is d:
                return ('amax' if a is tv else 'amin', g)
            if p is neg(d):
                return ('amin' if a is tv else 'amax', g)
            if sub(p, d) is ONE or sub(p, neg(d)) is ONE:
                return None
            if p is sub(d, ONE):      # g <= tv  (integers)
                return ('amax' if a is tv else 'amin', g)
            if p is sub(neg(d), ONE):
                return ('amin' if a is tv else 'amax', g)
    return None


def running(o, init, i, k, g):
    if k is ZERO:
        return init
    j, dom, gg = _ren(i, k, g)
    m = REDUCERS[o](lib.toarr(fmap(j, dom, gg)), NONE)
    f = max2 if o == 'amax' else min2
    r = f(init, m) if init.op != 'inf' else m
    return ite(lt(ZERO, k), r, init)


def str_strip(step, tv):
    if step is tv:
        return const('')
    if step.op == 'scat' and step.args[0] is tv:
        return scat(*step.args[1:])
    if step.op == 'ite':
        a, b = str_strip(step.args[1], tv), str_strip(step.args[2], tv)
        if a is None or b is None:
            return None
        return ite(batom(step.args[0]), a, b)
    return None


def sjoin_loop(i, k, g):
    j, dom, gg = _ren(i, k, g)
    return lib.sjoin(const(''), fmap(j, dom, gg))


def dict_step(step, tv):
    """step = tv with one (conditional) put -> (cond, key, value)"""
    if step.op == 'dput' and step.args[0] is tv:
        return TRUE, step.args[1], step.args[2]
    if step.op == 'ite':
        a, b = step.args[1], step.args[2]
        if a is tv:
            r = dict_step(b, tv)
            return None if r is None else (band(bnot(batom(step.args[0])), r[0]), r[1], r[2])
        if b is tv:
            r = dict_step(a, tv)
            return None if r is None else (band(batom(step.args[0]), r[0]), r[1], r[2])
        ra, rb = dict_step(a, tv), dict_step(b, tv)
        if ra and rb and ra[1] is rb[1]:
            c = batom(step.args[0])
            return ite(c, as_bool(ra[0]), as_bool(rb[0])), ra[1], ite(c, ra[2], rb[2])
    return None


def dmap_loop(i, k, init, cond, kk, vv):
    if k.op == 'num' and 0 <= k.args[0] <= 64:
        r = init
        for q in range(int(k.args[0])):
            m = {i: num(q)}
            r = ite(as_bool(subst(cond, m)), dput(r, subst(kk, m), subst(vv, m)), r)
        return r
    cond, kk, vv = (alg.wrapvar(i, k, x) for x in (as_bool(cond), kk, vv))
    at = alg.pointcond(i, k, cond)
    if at is not None:
        return dput(init, subst(kk, {i: at}), subst(vv, {i: at}))
    j = tmp('j', True, 0)
    m = {i: j}
    return dmap(j, mk('range', k), init, as_bool(subst(cond, m)), subst(kk, m), subst(vv, m))


def restrict_term(step, tv, val):
    return restrict(step, mk('b', tv), val) if True else None


def while_bound(X, i):
    """exit condition i >= b (b free of i, i starting at 0) -> max(b, 0)"""
    if X.op == 'ite' and X.args[1] in (TRUE, FALSE) and X.args[2] in (TRUE, FALSE):
        at, val = X.args[0], X.args[1] is TRUE
        if at.op == 'lt0':
            p = at.args[0]
            d = pdict(p)
            c = d.get(((i, F(1)),))
            rest = sub(p, mul(num(c), i)) if c else None
            if c and i not in rest.fs and abs(c) == 1:
                if c > 0 and not val:
                    # not (i + rest < 0): i >= -rest
                    b = neg(rest)
                elif c < 0 and val:
                    # -i + rest < 0 : i > rest
                    b = add(rest, ONE)
                else:
                    return None
                lo = lower(b)
                return b if lo is not None and lo >= 0 else max2(b, ZERO)
    return None


UNDEF = mk('undef')


def _has_undef(t):
    if t.op == 'ite':
        return _has_undef(t.args[1]) or _has_undef(t.args[2])
    return t is UNDEF


def _undef_cond(t):
    if t is UNDEF:
        return TRUE
    if t.op == 'ite':
        return ite(batom(t.args[0]), _undef_cond(t.args[1]), _undef_cond(t.args[2]))
    return FALSE


def _drop_undef(t):
    if t.op != 'ite':
        return t
    a, b = t.args[1], t.args[2]
    a, b = _drop_undef(a), _drop_undef(b)
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    return _ite_atom(t.args[0], a, b)


_hr = {}


def _hasref(n):
    r = _hr.get(n)
    if r is None:
        r = n.op == 'ref' or any(_hasref(k) for k in n.kids)
        _hr[n] = r
    return r


_loc = {}


def _locals_of(node):
    r = _loc.get(node)
    if r is None:
        r = set()
        if not isinstance(node, ast.Lambda):
            def go(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        r.add(c.name)
                        continue
                    if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        r.add(c.id)
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        for a in c.names:
                            r.add((a.asname or a.name).split('.')[0])
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        r.add(c.name)
                    go(c)
            go(node)
        _loc[node] = r
    return r


_gen = {}


def _is_gen(node):
    r = _gen.get(node)
    if r is None:
        r = False

        def go(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    return True
                if go(c):
                    return True
            return False
        if not isinstance(node, ast.Lambda):
            r = go(node)
        _gen[node] = r
    return r


def _const_true(e):
    return isinstance(e, ast.Constant) and bool(e.value)


from . import exprs  # noqa: E402,F401  (adds expression evaluation to Interp)
