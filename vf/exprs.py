"""Expression evaluation of the abstract interpreter."""
import ast
import builtins
from .state import *
from . import lib
from . import interp as I
from .interp import Interp, Cx, Exit, REFLIKE, CMPOPS, BINOPS, UNDEF, Unsupported


def mixin(f):
    setattr(Interp, f.__name__, f)
    return f


@mixin
def eval(self, e, st, cx):
    m = EXPR.get(type(e).__name__)
    if m is None:
        raise Unsupported('expression ' + type(e).__name__, e)
    return m(self, e, st, cx)


@mixin
def truth(self, v, st, cx, node):
    """truth value of a python value as a diagram"""
    h = self.H(v, st)
    if h is not None:
        if h.kind in ('list', 'dict', 'set'):
            if h.items is not None:
                return TRUE if len(h.items) else FALSE
            return truthy(self.content_h(h)) if h.kind != 'set' else bnot(eq(mk('len', mk('set', h.seq)), ZERO))
        if h.kind == 'inst' and isinstance(h.cls, Cls):
            m = h.cls.find('__bool__') or h.cls.find('__len__')
            if m is not None:
                return truthy(self.call_func(self.mfunc(m), [v], {}, st, cx, node).t)
        return TRUE
    t = v.t
    if t.op == 'ite' and self.is_reflike(t):
        t = constrain(t, st.pc)
        if t.op == 'ite':
            c = batom(t.args[0])
            a = self.truth(V(t.args[1]), st, cx, node)
            b = self.truth(V(t.args[2]), st, cx, node)
            return ite(c, a, b)
        return self.truth(V(t), st, cx, node)
    if v.path is not None:
        t = self.refresh(v, st).t
    return truthy(t)


def e_Constant(self, e, st, cx):
    if isinstance(e.value, complex):
        return V(opaque('complex constant'))
    return V(const(e.value))


def e_Name(self, e, st, cx):
    return self.load_name(e.id, st, cx, e)


def e_Tuple(self, e, st, cx):
    vs = self.elts(e.elts, st, cx)
    if any(v.t.op == 'star' for v in vs):
        return V(mk('totuple', cat(*[v.t.args[0] if v.t.op == 'star' else mk('lit', v.t) for v in vs])))
    tok = frozenset().union(*[v.tok for v in vs]) if vs else frozenset()
    return V(mk('tup', *[v.t for v in vs]))


@mixin
def elts(self, es, st, cx):
    vs = []
    for x in es:
        if isinstance(x, ast.Starred):
            v = self.eval(x.value, st, cx)
            h = self.H(v, st)
            if h is not None and isinstance(h.items, list):
                vs.extend(lib.set_items(h.items) if h.kind == 'set' else h.items)
            else:
                c = self.content(v, st)
                c = c.args[0] if c.op == 'set' and c.args[0].op == 'lit' else c
                if c.op in ('lit', 'tup'):
                    vs.extend(V(y) for y in c.args)
                else:
                    vs.append(V(mk('star', c)))
        else:
            vs.append(self.eval(x, st, cx))
    return vs


def e_List(self, e, st, cx):
    vs = self.elts(e.elts, st, cx)
    if any(v.t.op == 'star' for v in vs):
        return st.new(H('list', seq=cat(*[v.t.args[0] if v.t.op == 'star' else mk('lit', v.t) for v in vs])))
    return st.new(H('list', items=vs))


def e_Set(self, e, st, cx):
    v = st.new(H('set', items=[]))
    for x in self.elts(e.elts, st, cx):
        self.set_add(v, x, st)
    return v


@mixin
def set_add(self, sv, x, st):
    w = st.w(sv.t.args[0])
    xt = self.freeze(x.t, st)
    if isinstance(w.items, list):
        es = [eq(self.freeze(y.t, st), xt) for y in w.items]
        if any(q is TRUE for q in es):
            return
        if all(q is FALSE for q in es):
            w.items.append(V(xt))
            return
    c = self.content_h(w)
    w.items, w.seq = None, cat(c, mk('lit', xt))


def e_Dict(self, e, st, cx):
    v = st.new(H('dict', items={}))
    for k, x in zip(e.keys, e.values):
        if k is None:
            o = self.eval(x, st, cx)
            self.dict_update(v, o, st, cx, e)
            continue
        kv = self.eval(k, st, cx)
        xv = self.tokenize(self.eval(x, st, cx))
        self._store_sub(v, kv, xv, st, cx, e)
    return v


@mixin
def dict_update(self, d, o, st, cx, node):
    ho = self.H(o, st)
    if ho is not None and ho.kind == 'dict' and isinstance(ho.items, dict):
        for k, x in list(ho.items.items()):
            self._store_sub(d, V(k), x, st, cx, node)
        return
    if ho is not None and ho.kind == 'list' and isinstance(ho.items, list):
        for x in list(ho.items):
            c = self.content(x, st)
            self._store_sub(d, V(idx(c, ZERO)), V(idx(c, ONE)), st, cx, node)
        return
    c = self.content(o, st)
    if c.op in ('dlit',):
        for k, x in c.args[0]:
            self._store_sub(d, V(k), V(x), st, cx, node)
        return
    if c.op in ('lit', 'tup') and all(x.op in ('lit', 'tup') and len(x.args) == 2 for x in c.args):
        for x in c.args:
            self._store_sub(d, V(x.args[0]), V(x.args[1]), st, cx, node)
        return
    w = self.H(d, st)
    base = self.content(d, st)
    if base is DLIT0:
        new = c
    else:
        new = mk('dmerge', base, c)
    if w is not None:
        w = st.w(d.t.args[0])
        w.items, w.seq = None, new
    else:
        self.update_content(d, new, st)


def e_BoolOp(self, e, st, cx):
    isand = isinstance(e.op, ast.And)

    def go(k, s):
        v = self.eval(e.values[k], s, cx)
        if k == len(e.values) - 1:
            return v
        c = self.truth(v, s, cx, e)
        c = constrain(c, s.pc)
        if isand:
            return self.fork(s, c, lambda a: go(k + 1, a), lambda b: falsy_side(v, False))
        return self.fork(s, c, lambda a: falsy_side(v, True), lambda b: go(k + 1, b))

    def falsy_side(v, val):
        if kind(v.t) == 'bool':
            return V(TRUE if val else FALSE)
        return v
    return go(0, st)


def e_UnaryOp(self, e, st, cx):
    v = self.eval(e.operand, st, cx)
    if isinstance(e.op, ast.Not):
        return V(bnot(self.truth(v, st, cx, e)))
    if isinstance(e.op, ast.USub):
        return V(neg(lib.num_of(v.t)))
    if isinstance(e.op, ast.UAdd):
        return v
    if isinstance(e.op, ast.Invert):
        if v.t.op in ('acmp', 'anot', 'bitop') or kind(v.t) == 'bool':
            return V(anot(v.t)) if rank(v.t) != 0 else V(bnot(as_bool(v.t)))
        return V(anot(v.t))
    raise Unsupported('unary', e)


def e_BinOp(self, e, st, cx):
    a = self.eval(e.left, st, cx)
    b = self.eval(e.right, st, cx)
    if isinstance(e.op, ast.Mod) and (a.t.op == 'str' or kind(a.t) == 'str'):
        return self.percent(a, b, st, cx, e)
    return self.binop(BINOPS[type(e.op)], a, b, st, cx, e)


@mixin
def binop(self, op, a, b, st, cx, node):
    if self.is_reflike(a.t) or self.is_reflike(b.t):
        def go(s, x):
            return self.cases(b, s, lambda s2, y: self.binop1(op, x, y, s2, cx, node))
        return self.cases(a, st, go)
    return self.binop1(op, a, b, st, cx, node)


@mixin
def binop1(self, op, a, b, st, cx, node):
    view = isinstance(a, View) or isinstance(b, View)
    a, b = self.refresh(a, st), self.refresh(b, st)
    ha, hb = self.H(a, st), self.H(b, st)
    ka = ha.kind if ha is not None else kind(a.t)
    kb = hb.kind if hb is not None else kind(b.t)
    if ha is not None and ha.kind == 'inst' and isinstance(ha.cls, Cls):
        nm = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__'}.get(op)
        m = nm and ha.cls.find(nm)
        if m:
            return self.call_func(self.mfunc(m), [a, b], {}, st, cx, node)
    if ka == 'set' or kb == 'set' or (view or a.t.op in ('keys', 'set', 'setop')) and op in '|&-^':
        if op in ('|', '&', '-', '^'):
            return V(lib.setop(op, self.content(a, st), self.content(b, st)))
    if ka == 'list' or kb == 'list' or (ka == 'tup' and kb == 'tup') or ka == 'tup' and kb is None and op == '+':
        if op == '+':
            isref = ha is not None or hb is not None
            if ka in ('list', 'tup', None) and kb in ('list', 'tup', None) and (
                    (ha is not None and ha.kind == 'list') or (hb is not None and hb.kind == 'list')
                    or ka == kb and rank(a.t) is None):
                if (ha is not None and hb is None and kb not in ('list', 'tup') and rank(b.t)) or \
                        (hb is not None and ha is None and ka not in ('list', 'tup') and rank(a.t)):
                    pass
                else:
                    ca, cb = self.content(a, st), self.content(b, st)
                    if ka == 'tup' or kb == 'tup':
                        if ca.op == 'tup' and cb.op == 'tup':
                            return V(mk('tup', *(ca.args + cb.args)))
                        if ca.op == 'tup' or cb.op == 'tup':
                            if not isref:
                                return V(mk('totuple', cat(*[mk('lit', *x.args) if x.op == 'tup' else
                                                             x.args[0] if x.op == 'totuple' else x for x in (ca, cb)])))
                    if ha is not None and hb is not None and isinstance(ha.items, list) and isinstance(hb.items, list):
                        return st.new(H('list', items=ha.items + hb.items))
                    return st.new(H('list', seq=cat(ca, cb)))
        if op == '*':
            s, n = (a, b) if ka in ('list', 'tup') else (b, a)
            hs = self.H(s, st)
            if hs is not None and hs.kind == 'list' and rank(n.t) == 0:
                c = self.content(s, st)
                if n.t.op == 'num' and isinstance(hs.items, list) and n.t.args[0] * len(hs.items) <= 64:
                    return st.new(H('list', items=hs.items * int(n.t.args[0])))
                if c.op == 'lit' and len(c.args) == 1:
                    i = tmp('i', True, 0)
                    return st.new(H('list', seq=fmap(i, mk('range', n.t), self.freeze(c.args[0], st))))
                return st.new(H('list', seq=mk('repeat', c, n.t)))
            if s.t.op == 'tup' and n.t.op == 'num':
                return V(mk('tup', *(s.t.args * int(n.t.args[0]))))
    if op == '+' and (ka == 'str' or kb == 'str'):
        if (ka == 'num' or kb == 'num' or ka == 'none' or kb == 'none'):
            self.raise_if(TRUE, 'TypeError', st, cx, node)
        self.risk(mk('strplus', a.t, b.t)) if ka != kb else None
        return V(scat(a.t, b.t))
    if op == '*' and (ka == 'str' or kb == 'str'):
        s, n = (a.t, b.t) if ka == 'str' else (b.t, a.t)
        if s.op == 'str' and n.op == 'num':
            return V(const(s.args[0] * int(n.args[0])))
        return V(mk('srepeat', s, n))
    if op == '%' and ka == 'str':
        return self.percent(a, b, st, cx, node)
    at = self.numval(a, st)
    bt = self.numval(b, st)
    for t in (at, bt):
        if t.op in ('none', 'str', 'dlit', 'tup') and not (t.op == 'tup'):
            self.raise_if(TRUE, 'TypeError', st, cx, node)
        if t.op == 'ite':
            # operands that are None on some paths raise there
            c = lib.none_cond(t)
            if c is not FALSE:
                self.raise_if(c, 'TypeError', st, cx, node)
    at, bt = constrain(at, st.pc), constrain(bt, st.pc)
    return V(lib.arith(op, at, bt))


@mixin
def numval(self, v, st):
    h = self.H(v, st)
    if h is not None and h.kind == 'list':
        return lib.toarr(self.content(v, st))
    if v.t.op == 'tup':
        return lib.toarr(mk('lit', *v.t.args))
    return v.t


def e_Compare(self, e, st, cx):
    left = self.eval(e.left, st, cx)
    res = None

    def step(k, lv, s):
        rv = self.eval(e.comparators[k], s, cx)
        c = self.compare(CMPOPS[type(e.ops[k])], lv, rv, s, cx, e)
        if k == len(e.ops) - 1:
            return V(c)
        return self.fork(s, as_bool(c), lambda a: step(k + 1, rv, a), lambda b: V(FALSE))
    return step(0, left, st)


@mixin
def compare(self, op, a, b, st, cx, node):
    if op in ('in', 'notin'):
        r = self.contains(b, a, st, cx, node)
        return bnot(r) if op == 'notin' else r
    if self.is_reflike(a.t) and a.t.op == 'ite' or self.is_reflike(b.t) and b.t.op == 'ite':
        r = self.cases(a, st, lambda s, x: self.cases(b, s, lambda s2, y: V(self.compare1(op, x, y, s2, cx, node))))
        return r.t
    return self.compare1(op, a, b, st, cx, node)


@mixin
def compare1(self, op, a, b, st, cx, node):
    if isinstance(a, View) or isinstance(b, View):
        def asset(x):
            if isinstance(x, View):
                return V(lib.fset(x.t))
            return V(self.freeze(self.content(x, st), st)) if kind(self.content(x, st)) == 'set' else x
        if op in ('==', '!='):
            a, b = asset(a), asset(b)
        elif op in ('<', '<=', '>', '>='):
            raise Unsupported('comparison of key views', node)
    a, b = self.refresh(a, st), self.refresh(b, st)
    if op in ('is', 'isnot'):
        r = self.identical(a, b, st)
        return bnot(r) if op == 'isnot' else r
    ha, hb = self.H(a, st), self.H(b, st)
    if ha is not None or hb is not None:
        if ha is not None and hb is not None and a.t is b.t:
            r = TRUE
        else:
            ca, cb = self.freeze(self.content(a, st), st), self.freeze(self.content(b, st), st)
            if op in ('==', '!='):
                if ha is not None and ha.kind == 'list' and rank(cb) and hb is None:
                    r = acmp('==', lib.toarr(ca), cb)
                    return r if op == '==' else anot(r)
                r = eq(ca, cb)
            else:
                if ha is not None and ha.kind == 'inst' or hb is not None and hb.kind == 'inst':
                    raise Unsupported('object comparison', node)
                return batom(mk('b', mk('ltx', op, ca, cb)))
        return r if op in ('==', None) else bnot(r)
    x, y = a.t, b.t
    if x.op in REFLIKE or y.op in REFLIKE:
        if op in ('==', '!='):
            o = y if x.op in REFLIKE else x
            if x is y:
                r = TRUE
            elif o.op == 'dtype':
                r = TRUE if lib.dtname(x) == lib.dtname(y) else FALSE
            elif o.op in REFLIKE or o.op in CONSTS or kind(o) in ('num', 'str', 'bool', 'none', 'list', 'dict', 'tup'):
                r = FALSE
            else:
                r = eq(x, y)
            return r if op == '==' else bnot(r)
    if 'dtype' in (x.op, y.op) and op in ('==', '!=') and lib.dtname(x) and lib.dtname(y):
        return TRUE if (lib.dtname(x) == lib.dtname(y)) == (op == '==') else FALSE
    if op in ('==', '!='):
        if rank(x) not in (0, None) or rank(y) not in (0, None):
            if kind(x) == 'num' or kind(y) == 'num':
                return acmp(op, x, y)
        r = eq(x, y)
        return r if op == '==' else bnot(r)
    for t in (x, y):
        c = lib.none_cond(t)
        if c is not FALSE:
            self.raise_if(c, 'TypeError', st, cx, node)
    x, y = constrain(x, st.pc), constrain(y, st.pc)
    if x.op == 'tup' or y.op == 'tup':
        return batom(mk('b', mk('ltx', op, x, y)))
    if kind(x) == 'str' or kind(y) == 'str':
        return batom(mk('b', mk('ltx', op, x, y)))
    x, y = lib.num_of(x), lib.num_of(y)
    if op == '<':
        return lt(x, y)
    if op == '<=':
        return le(x, y)
    if op == '>':
        return lt(y, x)
    return le(y, x)


@mixin
def identical(self, a, b, st):
    x, y = a.t, b.t
    if x.op == 'ite' or y.op == 'ite':
        return lift(lambda p, q: self.identical(V(p), V(q), st), x, y)
    if x is NONE or y is NONE:
        z = y if x is NONE else x
        return isnone(z)
    if x in (TRUE, FALSE) or y in (TRUE, FALSE):
        z, w = (y, x) if x in (TRUE, FALSE) else (x, y)
        if z in (TRUE, FALSE):
            return TRUE if z is w else FALSE
        if kind(z) == 'bool':
            return as_bool(z) if w is TRUE else bnot(as_bool(z))
        if kind(z) is not None:
            return FALSE
        return batom(mk('b', mk('is', z, w)))
    if x.op == 'nan' or y.op == 'nan':
        # identity with the numpy.nan object
        z = y if x.op == 'nan' else x
        if z.op == 'nan':
            return TRUE if self.nan_identity else FALSE
        if kind(z) == 'num' or z.op in ('poly', 'draw'):
            return FALSE
        return batom(mk('b', mk('isnanobj', z)))
    if x is y:
        return TRUE
    if x.op in REFLIKE and y.op in REFLIKE:
        return FALSE
    if x.op in ('str', 'num') and y.op in ('str', 'num'):
        return FALSE if x is not y else TRUE
    if x.op in REFLIKE or y.op in REFLIKE:
        z = y if x.op in REFLIKE else x
        if kind(z) is not None:
            return FALSE
    return batom(mk('b', mk('is', *sorted((x, y), key=lambda t: t.id))))


@mixin
def contains(self, c, k, st, cx, node):
    def go(s, cv):
        h = self.H(cv, s)
        if h is not None and h.kind == 'inst' and isinstance(h.cls, Cls):
            m = h.cls.find('__contains__')
            if m is not None:
                return V(self.truth(self.call_func(self.mfunc(m), [cv, k], {}, s, cx, node), s, cx, node))
            raise Unsupported('in object', node)
        if h is not None and h.kind == 'dict' and isinstance(h.items, dict):
            r = FALSE
            kt = self.freeze(k.t, s)
            for x in h.items:
                r = bor(r, eq(kt, x))
            return V(r)
        if h is not None and h.kind in ('list', 'set') and isinstance(h.items, list):
            r = FALSE
            for x in h.items:
                r = bor(r, self.eqv(k, x, s))
            return V(r)
        ct = self.content(cv, s)
        if ct.op in ('tup', 'lit'):
            r = FALSE
            for x in ct.args:
                r = bor(r, self.eqv(k, V(x), s))
            return V(r)
        if ct is NONE:
            self.raise_if(TRUE, 'TypeError', s, cx, node)
        return V(din(self.freeze(k.t, s), self.freeze(ct, s)))
    return self.cases(c, st, go).t


@mixin
def eqv(self, a, b, st):
    """identity or equality (containment semantics)"""
    if b.t.op == 'nan':
        return self.identical(a, b, st)
    if a.t is b.t:
        return TRUE
    return eq(self.freeze(a.t, st), self.freeze(b.t, st))


def e_IfExp(self, e, st, cx):
    c = self.truth(self.eval(e.test, st, cx), st, cx, e)
    return self.fork(st, c, lambda a: self.eval(e.body, a, cx), lambda b: self.eval(e.orelse, b, cx))


def e_Lambda(self, e, st, cx):
    return self.closure(e, '<lambda>', st, cx)


def e_NamedExpr(self, e, st, cx):
    v = self.eval(e.value, st, cx)
    self.store(e.target, v, st, cx)
    return v


def e_Attribute(self, e, st, cx):
    b = self.eval(e.value, st, cx)
    return self.getattr(b, e.attr, st, cx, e)


@mixin
def getattr(self, b, name, st, cx, node):
    name = self.mangle(name, cx)
    return self.cases(b, st, lambda s, v: self.getattr1(v, name, s, cx, node))


@mixin
def getattr1(self, b, name, st, cx, node):
    t = b.t
    if t.op == 'module':
        m = self.world.module(t.args[0])
        if name in m.names:
            return self.load_global(name, st, m, cx, node)
        sm = self.world.module(m.name + '.' + name)
        if sm is not None:
            return V(mk('module', sm.name))
        if name == '__file__':
            return V(mk('str', m.path))
        self.raise_if(TRUE, 'AttributeError', st, cx, node, (const(name),))
    if t.op == 'ext':
        full = lib.canon(t.args[0] + '.' + name)
        v = lib.extconst(full)
        if v is not None:
            return V(v)
        if lib.missing(full):
            self.raise_if(TRUE, 'AttributeError', st, cx, node, (const(full),))
        return V(mk('ext', full))
    if t.op == 'class':
        c = self.getcls(t)
        if name == '__name__':
            return V(const(c.name))
        if name == '__dict__':
            items = {}
            for nm in ['__module__', '__doc__'] + list(c.order()) + ['__dict__', '__weakref__']:
                items[const(nm)] = self.getattr1(V(t), nm, st, cx, node) if c.find(nm) or nm in ('__module__', '__doc__') else \
                    V(mk('attr', t, nm))
            return st.new(H('dict', items=items))
        if name == '__doc__':
            return V(const(ast.get_docstring(c.node, clean=False)))
        if name == '__module__':
            return V(const(c.module.name))
        if name in ('__dict__', '__weakref__'):
            return V(mk('attr', t, name))
        m = c.find(name)
        if m is None:
            if name == '__doc__':
                return V(const(ast.get_docstring(c.node, clean=False)))
            return self.classvar(c, name, st, lambda: self.raise_if(TRUE, 'AttributeError', st, cx, node, (const(name),)))
        if m[0] == 'attr':
            return self.classvar(c, name, st, lambda: self.static(m[2], st, Cx(-1, m[1].module, m[1])))
        f = self.mfunc(m)
        decs = [dotted(d) for d in m[2].decorator_list]
        k = self.qual(f)
        if 'classmethod' in decs:
            return V(mk('bound', t, mk('func', k)))
        if 'property' in decs:
            return V(mk('propobj', mk('func', k)))
        return V(mk('func', k))
    if t.op == 'propobj':
        if name == 'fget':
            return V(t.args[0])
        return self.getattr(V(t.args[0]), name, st, cx, node)
    if t.op == 'super':
        c = self.classtab[t.args[1]]
        mro = self.classtab[t.args[2]].mro()
        i = mro.index(c) if c in mro else -1
        for d in mro[i + 1:]:
            if isinstance(d, Cls) and name in d.members:
                f = self.mfunc(('func', d, d.members[name]))
                if any(dotted(x) == 'property' for x in f.node.decorator_list):
                    return self.call_func(f, [V(t.args[0])], {}, st, cx, node)
                return V(mk('bound', t.args[0], mk('func', self.qual(f))))
        return V(mk('bi', 'noop'))
    if t.op == 'ref':
        h = self.H(b, st)
        if self.reads is not None:
            self.reads.add((t.args[0], name))
        if h.kind == 'inst' and isinstance(h.cls, Cls):
            if name in h.f:
                r = self.maybe(b, name, st, lambda s: self.getattr(b, name, s, cx, node))
                if r is not None:
                    return r
            m = h.cls.find(name)
            if m is not None and m[0] == 'func':
                decs = [dotted(d) for d in m[2].decorator_list]
                f = self.mfunc(m)
                k = self.qual(f)
                ov = self.override.get(k)
                if isinstance(ov, V):
                    return ov
                if 'property' in decs or any(d and d.split('.')[-1] == 'cached_property' for d in decs):
                    if any(d and d.split('.')[-1] == 'cached_property' for d in decs) and name in h.f:
                        return self.field(b, name, st, cx, node)
                    r = self.call_func(f, [b], {}, st, cx, node)
                    if any(d and d.split('.')[-1] == 'cached_property' for d in decs):
                        st.w(t.args[0]).f[name] = r
                    return r
                if name in h.f:
                    return self.field(b, name, st, cx, node)
                if 'staticmethod' in decs:
                    return V(mk('func', k))
                if 'classmethod' in decs:
                    return V(mk('bound', mk('class', h.cls.qual), mk('func', k)))
                return V(mk('bound', t, mk('func', k)))
            if name in h.f:
                return self.field(b, name, st, cx, node)
            if m is not None and m[0] == 'attr':
                v = self.classvar(h.cls, name, st, lambda: self.static(m[2], st, Cx(-1, m[1].module, m[1])))
                if v.t.op == 'propobj' and v.t.args[0] is not NONE:
                    return self.call(V(v.t.args[0]), [b], {}, st, cx, node)
                if v.t.op == 'func' and not (isinstance(m[2], ast.Call) and dotted(m[2].func) in ('staticmethod', 'classmethod')):
                    return V(mk('bound', t, v.t))
                return v
            if m is None and st.fr['glob'] and any(isinstance(k, Cls) and k.qual + '::' + name in st.fr['glob'] for k in h.cls.mro()):
                return self.classvar(h.cls, name, st, lambda: self.raise_if(TRUE, 'AttributeError', st, cx, node, (const(name),)))
            if name == '__class__':
                self.classtab[h.cls.qual] = h.cls
                return V(mk('class', h.cls.qual))
            if name == '__dict__':
                return V(mk('instdict', t))
            if h.origin is not None and h.note == 'open':
                # symbolic object: unknown field
                v = V(mk('attr', h.origin, name), frozenset({('in', show(h.origin) + '.' + name)}))
                return v
            ga = h.cls.find('__getattr__')
            if ga is not None:
                return self.call_func(self.mfunc(ga), [b, V(const(name))], {}, st, cx, node)
            if [x for x in h.cls.extbases() if x != 'object']:
                return V(mk('attr', mk('base', h.cls.qual), name))
            self.raise_if(TRUE, 'AttributeError', st, cx, node, (const(name),))
        if h.kind == 'inst':
            if name in h.f:
                return self.field(b, name, st, cx, node)
            if h.origin is not None:
                return V(mk('attr', h.origin, name), frozenset({('in', show(h.origin) + '.' + name)}))
        if name == '__doc__' and h.kind in ('dict', 'list', 'set'):
            return V(const({'dict': dict, 'list': list, 'set': set}[h.kind].__doc__))
        if h.kind == 'file':
            if name == 'name':
                return V(h.note.args[0] if h.note.args else h.note)
        return V(mk('bmeth', t, name))
    b = self.refresh(b, st)
    t = b.t
    r = lib.data_attr(self, b, name, st, cx, node)
    if r is not None:
        return r
    if t is NONE:
        self.raise_if(TRUE, 'AttributeError', st, cx, node, (const(name),))
    if name == '__doc__' and t.op not in ('func', 'bound', 'bi'):
        d = {'str': str, 'num': int, 'tup': tuple, 'true': bool, 'false': bool}.get(t.op)
        if d is not None:
            return V(const(d.__doc__))
        if t.op == 'attr' and t.args[0].op == 'class' and t.args[1] in ('__dict__', '__weakref__'):
            return V(const('special attribute'))
        return V(mk('attr', t, name))
    if name in lib.DATA_METHODS or kind(t) in ('str', 'list', 'dict', 'num', 'tup'):
        return V(mk('bmeth', t, name))
    if t.op in ('func', 'bound', 'bi') and name in ('__doc__', '__name__'):
        if t.op == 'func':
            f = self.getfunc(t)
            if name == '__doc__':
                if t in self.docof:
                    return self.getattr(V(self.docof[t]), name, st, cx, node)
                if not f.raw and f.env is None and I.custom_decorators(f.node):
                    v = self.decorated(f, st, cx)
                    if v.t is not t:
                        return self.getattr(v, name, st, cx, node)
            return V(const(ast.get_docstring(f.node, clean=False)) if name == '__doc__' else const(f.node.name))
        return V(mk('attr', t, name))
    self.risk(mk('attr', t, name))
    return V(mk('attr', t, name), frozenset({('in', show(t) + '.' + name)}))


@mixin
def maybe(self, b, name, st, k):
    """a field that exists on some paths only: k(state) on both kinds of path; None when the field exists"""
    v = self.H(b, st).f[name]
    if not (v.t is UNDEF or v.t.op == 'ite' and I._has_undef(v.t)):
        return None
    t = constrain(v.t, st.pc)
    c = I._undef_cond(t)
    i = b.t.args[0]

    def miss(s):
        del s.w(i).f[name]
        return k(s)

    def hit(s):
        s.w(i).f[name] = V(I._drop_undef(constrain(t, s.pc)), v.tok, v.path)
        return k(s)
    if c is FALSE:
        return hit(st)
    if c is TRUE:
        return miss(st)
    return self.fork(st, c, miss, hit)


@mixin
def field(self, b, name, st, cx, node):
    h = self.H(b, st)
    v = h.f[name]
    if v.t is UNDEF or v.t.op == 'ite' and I._has_undef(v.t):
        t = constrain(v.t, st.pc)
        c = I._undef_cond(t)
        if c is not FALSE:
            self.raise_if(c, 'AttributeError', st, cx, node, (const(name),))
            t = I._drop_undef(constrain(t, st.pc))
        v = V(t, v.tok, v.path)
    elif v.t.op == 'ite' and v.t.size < 300:
        t = constrain(v.t, st.pc)
        if t is not v.t:
            v = V(t, v.tok, v.path)
    return v


@mixin
def index(self, e, st, cx):
    """index expression -> V with 'slice' / 'tup' terms"""
    if isinstance(e, ast.Slice):
        def g(x):
            return self.eval(x, st, cx).t if x is not None else NONE
        return V(mk('slice', g(e.lower), g(e.upper), g(e.step) if e.step is not None else ONE))
    if isinstance(e, ast.Tuple):
        return V(mk('tup', *[self.index(x, st, cx).t for x in e.elts]))
    return self.eval(e, st, cx)


def e_Subscript(self, e, st, cx):
    b = self.eval(e.value, st, cx)
    k = self.index(e.slice, st, cx)
    return self.subscript(b, k, st, cx, e)


def e_Slice(self, e, st, cx):
    return self.index(e, st, cx)


@mixin
def subscript(self, b, k, st, cx, node):
    if k.t.op == 'ite' and not self.is_reflike(k.t):
        pass
    return self.cases(b, st, lambda s, v: self.subscript1(v, k, s, cx, node))


@mixin
def subscript1(self, b, k, st, cx, node):
    h = self.H(b, st)
    kt = k.t
    if h is not None:
        if h.kind == 'inst' and isinstance(h.cls, Cls):
            m = h.cls.find('__getitem__')
            if m is not None:
                return self.call_func(self.mfunc(m), [b, k], {}, st, cx, node)
            self.raise_if(TRUE, 'TypeError', st, cx, node)
        if h.kind == 'dict':
            kt = self.freeze(kt, st)
            if isinstance(h.items, dict):
                if kt in h.items:
                    return h.items[kt]
                if all(definitely_ne(kt, x) for x in h.items):
                    self.raise_if(TRUE, 'KeyError', st, cx, node, (kt,))
                if kt.op == 'ite':
                    return self.fork(st, batom(kt.args[0]),
                                     lambda a: self.subscript1(b, V(restrict(kt, kt.args[0], True)), a, cx, node),
                                     lambda c: self.subscript1(b, V(restrict(kt, kt.args[0], False)), c, cx, node))
                has = FALSE
                for x in h.items:
                    has = bor(has, eq(kt, x))
                self.raise_if(bnot(has), 'KeyError', st, cx, node, (kt,))
                # symbolic key over a literal dict
                ks = list(h.items)

                def pick(j, s):
                    if j == len(ks) - 1:
                        return h.items[ks[j]]
                    return self.fork(s, eq(kt, ks[j]), lambda a: h.items[ks[j]], lambda c: pick(j + 1, c))
                return pick(0, st)
            c = self.content_h(h)
            t = dget(c, kt)
            if h.note == 'defaultdict':
                t = ite(din(kt, c), t, h.f['default'].t) if 'default' in h.f else t
            if t.op == 'missing':
                self.raise_if(TRUE, 'KeyError', st, cx, node, (kt,))
            t = _strip_missing(t)
            self.risk(mk('getitem', c, kt))
            if t.op == 'ref' or self.is_reflike(t):
                return V(t)
            return V(t, self.elem_tok(b, h, t, kt), (b, kt))
        if h.kind in ('list', 'set'):
            if isinstance(h.items, list):
                if kt.op == 'num':
                    i = int(kt.args[0])
                    if -len(h.items) <= i < len(h.items):
                        return h.items[i]
                    self.raise_if(TRUE, 'IndexError', st, cx, node)
                if kt.op == 'slice' and all(x is NONE or x.op == 'num' for x in kt.args):
                    s = slice(*[None if x is NONE else int(x.args[0]) for x in kt.args])
                    return st.new(H('list', items=h.items[s]))
            c = self.content_h(h)
            if kt.op == 'slice':
                return st.new(H('list', seq=slseq(c, *kt.args)))
            if kt.op == 'ite':
                return self.fork(st, batom(kt.args[0]),
                                 lambda a: self.subscript1(b, V(restrict(kt, kt.args[0], True)), a, cx, node),
                                 lambda d: self.subscript1(b, V(restrict(kt, kt.args[0], False)), d, cx, node))
            self.risk(mk('getitem', c, kt))
            t = idx(c, kt)
            return V(t, frozenset(), (b, kt) if not self.is_reflike(t) else None)
        raise Unsupported('subscript of ' + h.kind, node)
    b = self.refresh(b, st)
    t = b.t
    if t is NONE:
        self.raise_if(TRUE, 'TypeError', st, cx, node)
    if t.op == 'ite':
        c = lib.none_cond(t)
        if c is not FALSE:
            self.raise_if(c, 'TypeError', st, cx, node)
            t = constrain(t, st.pc)
            b = V(t, b.tok, b.path)
    if kind(t) == 'dict':
        kt = self.freeze(kt, st)
        x = dget(t, kt)
        if x.op == 'missing':
            self.raise_if(TRUE, 'KeyError', st, cx, node, (kt,))
        x = _strip_missing(x)
        self.risk(mk('getitem', t, kt))
        return V(x, self.elem_tok(b, None, x, kt), (b, kt))
    if t.op == 'tup' and kt.op == 'num' and -len(t.args) <= kt.args[0] < len(t.args):
        return V(t.args[int(kt.args[0])])
    if t.op == 'tup' and kt.op == 'num':
        self.raise_if(TRUE, 'IndexError', st, cx, node)
    if t.op == 'tup' and kt.op == 'slice' and all(x is NONE or x.op == 'num' for x in kt.args):
        return V(slseq(t, *kt.args))
    if t.op in ('num', 'true', 'false', 'func', 'class', 'bi'):
        self.raise_if(TRUE, 'TypeError', st, cx, node)
    if t.op in ('lit', 'str') and kt.op == 'num' and not (-len(t.args if t.op == 'lit' else t.args[0]) <= kt.args[0] <
                                                         len(t.args if t.op == 'lit' else t.args[0])):
        self.raise_if(TRUE, 'IndexError', st, cx, node)
    kt = self.freeze(kt, st)
    if kt.op == 'arr' and kt.args[0].op == 'lit':
        kt = kt.args[0]
    if kt.op == 'lit' and kt.args and rank(t) == 1 and all(rank(x) == 0 and kind(x) == 'num' for x in kt.args):
        r = lib.toarr(mk('lit', *[idx(t, x) for x in kt.args]))
    else:
        r = lib.getitem(t, kt)
    if r.op in ('get', 'getitem') or kind(t) in ('list', 'tup') or t.op in ('split', 'lines'):
        self.risk(mk('getitem', t, kt))
    tok = b.tok if (kt.op in ('slice',) or kt.op == 'tup' or rank(r) not in (0,)) else frozenset()
    if kt.op in ('acmp', 'anot', 'nonzero') or (rank(kt) or 0) > 0:
        tok = frozenset()
    if rank(r) == 0 or kind(r) in ('str',):
        tok = frozenset()
    return V(r, tok, (b, kt) if rank(t) is None and r.op in ('get', 'getitem', 'idx') else None)


@mixin
def elem_tok(self, b, h, t, kt):
    if rank(t) == 0 or kind(t) in ('str',):
        return frozenset()
    tok = frozenset((x[0], x[1] + '[%s]' % show(kt)) if x[0] == 'in' else x for x in b.tok)
    if h is not None and h.origin is not None:
        tok = tok | frozenset({('in', show(h.origin) + '[%s]' % show(kt))})
    if t.op == 'get' and b.t.op == 'sym':
        tok = tok | frozenset({('in', show(b.t) + '[%s]' % show(kt))})
    return tok


def _strip_missing(t):
    if t.op != 'ite' or t.size > 400:
        return t
    a, b = _strip_missing(t.args[1]), _strip_missing(t.args[2])
    if a.op == 'missing':
        return b
    if b.op == 'missing':
        return a
    return t if (a is t.args[1] and b is t.args[2]) else I._ite_atom(t.args[0], a, b)


def e_Call(self, e, st, cx):
    # super().method(...)
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
        fn = cx.fn
        selfname = fn.node.args.args[0].arg
        sv = self.load_name(selfname, st, cx, e)
        h = self.H(sv, st)
        c = cx.cls
        self.classtab[c.qual] = c
        dyn = h.cls if h is not None and isinstance(h.cls, Cls) else c
        self.classtab[dyn.qual] = dyn
        return V(mk('super', sv.t, c.qual, dyn.qual))
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and len(e.args) == 2 and not e.keywords and \
            self.world.lookup(cx.module, 'super') is None:
        cv, sv = self.eval(e.args[0], st, cx), self.eval(e.args[1], st, cx)
        h = self.H(sv, st)
        if cv.t.op == 'class' and h is not None and isinstance(h.cls, Cls):
            c = self.world.get(cv.t.args[0])
            if isinstance(c, Cls):
                self.classtab[c.qual] = c
                self.classtab[h.cls.qual] = h.cls
                return V(mk('super', sv.t, c.qual, h.cls.qual))
        raise Unsupported('super', e)
    if isinstance(e.func, ast.Name) and e.func.id == 'vars' and len(e.args) == 1 and not e.keywords and \
            self.world.lookup(cx.module, 'vars') is None:
        return self.eval(ast.copy_location(ast.Attribute(e.args[0], '__dict__', ast.Load()), e), st, cx)
    if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'vars', 'exec', 'eval') and \
            self.world.lookup(cx.module, e.func.id) is None:
        raise Unsupported(e.func.id, e)
    meth = None
    if isinstance(e.func, ast.Attribute):
        b = self.eval(e.func.value, st, cx)
        meth = e.func.attr
    else:
        fv = self.eval(e.func, st, cx)
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            v = self.eval(a.value, st, cx)
            h = self.H(v, st)
            if h is not None and isinstance(h.items, list):
                args.extend(lib.set_items(h.items) if h.kind == 'set' else h.items)
            else:
                c = self.content(v, st)
                c = c.args[0] if c.op == 'set' and c.args[0].op == 'lit' else c
                if c.op in ('lit', 'tup'):
                    args.extend(V(x) for x in c.args)
                else:
                    args.append(V(mk('star', c)))
        else:
            args.append(self.eval(a, st, cx))
    kw = {}
    for k in e.keywords:
        v = self.eval(k.value, st, cx)
        if k.arg is None:
            h = self.H(v, st)
            if h is not None and isinstance(h.items, dict) and all(x.op == 'str' for x in h.items):
                for x, y in h.items.items():
                    kw[x.args[0]] = y
            elif self.content(v, st).op == 'dlit' and not self.content(v, st).args[0]:
                pass
            else:
                kw['**'] = v
        else:
            kw[k.arg] = v
    if meth is not None:
        return self.spread(args, kw, st, lambda s, a, k: self.cases(
            self.refresh(b, s), s, lambda s2, v: self.method(v, meth, list(a), dict(k), s2, cx, e)))
    return self.spread(args, kw, st, lambda s, a, k: self.call(fv, list(a), dict(k), s, cx, e))


def _ite_in(c):
    """condition of the first case split in a list that is put together from known pieces"""
    if c.op == 'ite':
        return c.args[0]
    if c.op in ('cat', 'dmerge', 'dset'):
        for x in c.args:
            r = _ite_in(x) if isinstance(x, Node) else None
            if r is not None:
                return r
    return None


@mixin
def spread(self, args, kw, st, go):
    """call with *args / **kw whose contents depend on a condition: one call per case"""
    out, split = [], None
    for a in args:
        if a.t.op == 'star':
            c = constrain(a.t.args[0], st.pc)
            if c.op in ('lit', 'tup'):
                out.extend(V(x) for x in c.args)
                continue
            split = split if split is not None else _ite_in(c)
            a = V(mk('star', c))
        out.append(a)
    if '**' in kw:
        v = kw['**']
        h = self.H(v, st)
        c = constrain(self.content(v, st), st.pc)
        ks = [(x.args[0], y) for x, y in c.args[0]] if c.op == 'dlit' and \
            all(x.op == 'str' for x, y in c.args[0]) else None
        if h is not None and isinstance(h.items, dict) and all(x.op == 'str' for x in h.items):
            kw = {k: x for k, x in kw.items() if k != '**'}
            kw.update({x.args[0]: y for x, y in h.items.items()})
        elif ks is not None:
            kw = {k: x for k, x in kw.items() if k != '**'}
            kw.update({x: V(y) for x, y in ks})
        elif split is None:
            split = _ite_in(c)
    if split is None or split.op in ('acmp', 'anot') or (rank(split) or 0) > 0:
        return go(st, out, kw)
    return self.fork(st, batom(split), lambda s: self.spread(out, kw, s, go), lambda s: self.spread(out, kw, s, go))


@mixin
def method(self, b, name, args, kw, st, cx, node):
    name = self.mangle(name, cx)
    t = b.t
    if t.op in ('module', 'ext', 'class', 'super'):
        fv = self.getattr1(b, name, st, cx, node)
        return self.call(fv, args, kw, st, cx, node)
    if t.op == 'bi' and t.args[0] in ('str', 'list', 'dict', 'set') and args and args[0].t.op != 'star' and \
            name not in ('fromkeys', 'maketrans'):
        # the method of the type with its object given: str.strip(x)
        return self.cases(args[0], st, lambda s, v: self.method(v, name, args[1:], kw, s, cx, node))
    h = self.H(b, st)
    if h is not None:
        if h.kind == 'inst' and isinstance(h.cls, Cls):
            fv = self.getattr1(b, name, st, cx, node)
            return self.call(fv, args, kw, st, cx, node)
        if h.kind == 'inst':
            return lib.obj_method(self, b, h, name, args, kw, st, cx, node)
        return lib.heap_method(self, b, h, name, args, kw, st, cx, node)
    b = self.refresh(b, st)
    return lib.value_method(self, b, name, args, kw, st, cx, node)


@mixin
def list_extend(self, lv, other, st):
    w = st.w(lv.t.args[0])
    ho = self.H(other, st)
    if isinstance(w.items, list) and ho is not None and isinstance(ho.items, list):
        w.items.extend(ho.items)
        return
    c = self.content(other, st)
    if c.op == 'tup':
        c = mk('lit', *c.args)
    if kind(c) == 'dict' or ho is not None and ho.kind == 'dict':
        c = keys(c)
    if isinstance(w.items, list) and c.op == 'lit':
        w.items.extend(V(x) for x in c.args)
        return
    s = self.content_h(w)
    w.items, w.seq = None, cat(s, c)


# ---- comprehensions

@mixin
def comp(self, gens, k, st, cx, emit):
    if k == len(gens):
        emit(st)
        return
    g = gens[k]
    it = self.eval(g.iter, st, cx)

    def body(elem, s):
        self.store(g.target, elem, s, cx)

        def conds_(j, s2):
            if j == len(g.ifs):
                self.comp(gens, k + 1, s2, cx, emit)
                return None
            c = self.truth(self.eval(g.ifs[j], s2, cx), s2, cx, g.ifs[j])
            self.fork(s2, c, lambda a: conds_(j + 1, a), lambda b: None)
            return None
        conds_(0, s)

    def go(s, v):
        self.loop_over(v, body, s, cx, g.iter)
        return None
    self.cases(it, st, go)


@mixin
def comprehension(self, e, st, cx, new, add):
    """run a comprehension in a scope of its own"""
    fid = next(I._fid)
    env = (cx.fid, cx.fn.env if cx.fn is not None else None)
    names = set()
    for g in e.generators:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                names.add(x.id)
    lam = ast.parse('lambda: 0').body[0].value
    fn = Func(lam, cx.module, cx.fn.name if cx.fn is not None else '<module>', cx.cls, env)
    c2 = Cx(fid, cx.module, cx.cls, fn)
    c2.exits = cx.exits
    if hasattr(cx, 'handling'):
        c2.handling = cx.handling
    st.fr[fid] = {}
    if not hasattr(self, '_captured'):
        self._captured = set()
    acc = st.new(new)
    try:
        self.comp(e.generators, 0, st, c2, lambda s: add(acc, s, c2))
    finally:
        st.fr.pop(fid, None)
    return acc


def e_ListComp(self, e, st, cx):
    def add(acc, s, c2):
        v = self.eval(e.elt, s, c2)
        lib.heap_method(self, acc, self.H(acc, s), 'append', [self.tokenize(v)], {}, s, c2, e)
    return self.comprehension(e, st, cx, H('list', items=[]), add)


def e_SetComp(self, e, st, cx):
    def add(acc, s, c2):
        v = self.eval(e.elt, s, c2)
        self.set_add(acc, v, s)
    return self.comprehension(e, st, cx, H('set', items=[]), add)


def e_DictComp(self, e, st, cx):
    def add(acc, s, c2):
        k = self.eval(e.key, s, c2)
        v = self.tokenize(self.eval(e.value, s, c2))
        self._store_sub(acc, k, v, s, c2, e)
    return self.comprehension(e, st, cx, H('dict', items={}), add)


def e_Yield(self, e, st, cx):
    v = self.eval(e.value, st, cx) if e.value is not None else V(NONE)
    g = st.fr[cx.fid]['$yield']
    lib.heap_method(self, g, self.H(g, st), 'append', [v], {}, st, cx, e)
    return V(NONE)


def e_YieldFrom(self, e, st, cx):
    v = self.eval(e.value, st, cx)
    self.list_extend(st.fr[cx.fid]['$yield'], v, st)
    return V(NONE)


def e_JoinedStr(self, e, st, cx):
    parts = []
    for p in e.values:
        if isinstance(p, ast.Constant):
            parts.append(const(p.value))
        else:
            parts.append(fv(self, p, st, cx))
    return V(scat(*parts))


def fv(self, p, st, cx):
    v = self.eval(p.value, st, cx)
    spec = ''
    if p.format_spec is not None:
        s = self.eval(p.format_spec, st, cx).t
        spec = s.args[0] if s.op == 'str' else s
    t = self.freeze(v.t, st)
    if p.conversion == 114:
        return mk('repr', t)
    if p.conversion == 115:
        if t is NONE:
            t = const('None')
    elif spec != '':
        self.raise_if(lib.none_cond(t), 'TypeError', st, cx, p)
        t = constrain(t, st.pc)
    return fmt(spec, t) if isinstance(spec, str) else mk('fmtd', spec, t)


def e_FormattedValue(self, e, st, cx):
    return V(fv(self, e, st, cx))


def e_Starred(self, e, st, cx):
    return V(mk('star', self.content(self.eval(e.value, st, cx), st)))


EXPR = {k[2:]: v for k, v in list(globals().items()) if k.startswith('e_')}
EXPR['GeneratorExp'] = e_ListComp


@mixin
def percent(self, a, b, st, cx, node):
    """'..' % value"""
    import re
    if a.t.op == 'ite':
        return self.cases_data(a, st, lambda s, x: self.percent(x, b, s, cx, node))
    if a.t.op != 'str':
        return V(mk('fmtp', a.t, self.freeze(b.t, st)))
    s = a.t.args[0]
    toks = re.split(r'(%(?:\(\w+\))?[#0\- +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?[diouxXeEfFgGcrsa%])', s)
    specs = [x for x in toks if x.startswith('%') and x != '%%' and len(x) > 1]
    bt = b.t
    if specs and specs[0].startswith('%('):
        c = self.content(b, st)
        vals = [dget(c, const(re.match(r'%\((\w+)\)', x).group(1))) for x in specs]
    elif bt.op == 'tup':
        vals = list(bt.args)
    elif kind(bt) == 'tup' or bt.op == 'totuple':
        return V(mk('fmtp', a.t, self.freeze(bt, st)))
    else:
        vals = [bt]
        if bt.op == 'shapeof' or bt.op == 'attr' and bt.args[1] == 'shape':
            # a shape tuple spreads over the conversions
            vals = [idx(bt, num(i)) for i in range(len(specs))] if False else [bt]
            if len(specs) != 1:
                return V(mk('fmtp', a.t, bt))
    if len(vals) != sum(1 + x.count('*') for x in specs):
        self.raise_if(TRUE, 'TypeError', st, cx, node)
    out = []
    k = 0
    for x in toks:
        if x == '%%':
            out.append(const('%'))
        elif x.startswith('%') and len(x) > 1:
            sp = re.sub(r'^%(\(\w+\))?', '', x)
            if '*' in sp:
                # width and precision come from the arguments
                parts = []
                for c in re.split(r'(\*)', sp):
                    if c == '*':
                        parts.append(lib.tostr(self.freeze(vals[k], st)))
                        k += 1
                    elif c:
                        parts.append(const(c))
                sp = scat(*parts)
                self.raise_if(lib.none_cond(vals[k]), 'TypeError', st, cx, node)
                out.append(fmt(lib.pctspec(sp.args[0]) if sp.op == 'str' else sp, self.freeze(vals[k], st)))
                k += 1
                continue
            v = self.freeze(vals[k], st)
            k += 1
            if sp == 's':
                out.append(lib.tostr(v))
            elif sp == 'r':
                out.append(mk('repr', v))
            else:
                out.append(fmt(lib.pctspec(sp), v))
        elif x:
            out.append(const(x))
    return V(scat(*out))


@mixin
def cases_data(self, v, st, f):
    t = constrain(v.t, st.pc)
    if t.op == 'ite':
        return self.fork(st, batom(t.args[0]),
                         lambda s: self.cases_data(V(restrict(t, t.args[0], True), v.tok, v.path), s, f),
                         lambda s: self.cases_data(V(restrict(t, t.args[0], False), v.tok, v.path), s, f))
    return f(st, V(t, v.tok, v.path))
