"""Unrolling of value terms at given sizes.

ev(t, env) rewrites a term with every array and list of known length written out
element by element: elements stay symbols, so equality of the results is equality
of polynomials over all contents.  It backs up the unbounded comparison where the
two terms use different but equivalent array or loop operations."""
import numpy as np
from .alg import *
from . import alg, term, lib
from .term import Cmp, eq0, lt0, as_bool, batom


class NoInst(Exception):
    pass


term.RANKF['el'] = lambda n: 0
term.NUMERIC_OPS.add('el')
LIM = 400


class L(list):
    """a python list / tuple value"""


class MA:
    """masked array: data and a boolean mask of literal values"""

    def __init__(self, d, m):
        self.d, self.m = d, m

    @property
    def shape(self):
        return self.d.shape

    def valid(self):
        return [x for x, k in zip(self.d.ravel(), self.m.ravel()) if not k]


def _u(f, n):
    return np.frompyfunc(f, n, 1)


ADD, MUL = _u(add, 2), _u(mul, 2)


def isarr(x):
    return isinstance(x, np.ndarray)


def box(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def node(v):
    """back to a term"""
    if isinstance(v, MA):
        return mk('masked', node(v.d), node(np.where(v.m, TRUE, FALSE).astype(object)))
    if isarr(v):
        if v.ndim == 0:
            return v[()]
        return mk('arr', mk('lit', *[node(x) for x in v]))
    if isinstance(v, L):
        return mk('lit', *[node(x) for x in v])
    return v


def toarray(v):
    if isarr(v):
        return v
    if isinstance(v, L):
        if not v:
            return np.empty((0,), dtype=object)
        if any(isinstance(x, MA) for x in v):
            raise NoInst('list of masked arrays')
        xs = [toarray(x) if isinstance(x, (L, np.ndarray)) else box(x) for x in v]
        if len({x.shape for x in xs}) != 1:
            raise NoInst('ragged')
        out = np.empty((len(xs),) + xs[0].shape, dtype=object)
        for k, x in enumerate(xs):
            out[k] = x[()] if x.ndim == 0 else x
        return out
    raise NoInst('not an array: %s' % v.op)


def bigarr(t):
    r = rank(t)
    return r is None or r > 0


class Ev:
    def __init__(self, env):
        self.env = env
        self.memo = {}
        self.steps = 0

    def ev(self, n):
        r = self.memo.get(n)
        if r is None:
            self.steps += 1
            if self.steps > 60000:
                raise NoInst('too large')
            r = self.ev1(n)
            self.memo[n] = r
        return r

    def int(self, n):
        v = self.ev(n)
        if isinstance(v, Node) and v.op == 'num' and v.args[0].denominator == 1:
            return int(v.args[0])
        raise NoInst('unknown size %s' % show(n, 3))

    def opt(self, n):
        return None if n is NONE else self.int(n)

    def seq(self, n):
        v = self.ev(n)
        if isinstance(v, L):
            return v
        if isinstance(v, MA):
            return L([MA(v.d[k], v.m[k]) if v.d.ndim > 1 else v.d[k] for k in range(len(v.d))])
        if isarr(v) and v.ndim:
            return L([x if isarr(x) else x for x in v])
        raise NoInst('not a sequence: %s' % n.op)

    def arr(self, n):
        v = self.ev(n)
        return toarray(v)

    def dom(self, d):
        if d.op == 'range':
            n = self.int(d.args[0])
            if n > LIM:
                raise NoInst('large')
            return [num(k) for k in range(max(n, 0))]
        if d.op == 'elems':
            return [node(x) for x in self.seq(d.args[0])]
        raise NoInst('domain ' + d.op)

    def cond(self, c):
        """scalar condition"""
        v = self.ev(c)
        if not isinstance(v, Node):
            raise NoInst('array condition')
        return as_bool(v)

    def ev1(self, n):
        op = n.op
        if n in self.env:
            return self.env[n]
        if op in ('num', 'str', 'none', 'true', 'false', 'nan', 'pi', 'inf', 'bytes', 'ellipsis', 'undef'):
            return n
        m = getattr(self, 'op_' + op, None)
        if m is not None:
            return m(n)
        if op in BINDERS:
            raise NoInst('binder ' + op)
        if op in term.ELEMENTWISE or op in ('sign',):
            return self.elementwise(n)
        return self.generic(n)

    def elementwise(self, n):
        args = [self.ev(a) if isinstance(a, Node) else a for a in n.args]
        if any(isinstance(a, MA) for a in args):
            return self.masked(args, lambda *xs: self.elementwise1(n, list(xs)))
        return self.elementwise1(n, args)

    def masked(self, args, f):
        m = None
        for a in args:
            if isinstance(a, MA):
                m = a.m if m is None else m | a.m
        r = f(*[a.d if isinstance(a, MA) else a for a in args])
        if not isarr(r):
            raise NoInst('masked operand')
        return MA(r, np.broadcast_to(m, r.shape))

    def elementwise1(self, n, args):
        if any(isinstance(a, L) for a in args):
            args = [toarray(a) if isinstance(a, L) else a for a in args]
        f = REB.get(n.op)

        def one(*xs):
            return f(*xs) if f else mk(n.op, *xs)
        if any(isarr(a) for a in args):
            if any(isinstance(a, Node) and bigarr(a) and rank(a) for a in args):
                raise NoInst('mixed')
            boxed = [a if isarr(a) else box(a) for a in args]
            try:
                return np.frompyfunc(one, len(args), 1)(*boxed)
            except ValueError:
                raise NoInst('shapes')
        return one(*args)

    def generic(self, n):
        args = tuple(self.any(a) for a in n.args)
        f = REB.get(n.op)
        return f(*args) if f else mk(n.op, *args)

    # ---- masked arrays
    def op_masked(self, n):
        d = self.ev(n.args[0])
        if isinstance(d, L):
            d = toarray(d)
        m = FALSE if n.args[1] is NONE else self.ev(n.args[1])
        if isinstance(m, L):
            m = toarray(m)
        if isinstance(d, MA):
            d = d.d
        if not isarr(d) or not isarr(m) and m not in (TRUE, FALSE):
            return self.generic(n)
        return MA(d, self.bools(m, d.shape))

    def bools(self, m, sh):
        if not isarr(m):
            m = box(m)
        v = np.frompyfunc(as_bool, 1, 1)(m)
        if any(x not in (TRUE, FALSE) for x in np.asarray(v, dtype=object).ravel()):
            raise NoInst('mask')
        return np.broadcast_to(np.frompyfunc(lambda x: x is TRUE, 1, 1)(v).astype(bool), sh)

    def op_mamask(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, MA):
            return np.where(v.m, TRUE, FALSE).astype(object)
        return FALSE if isarr(v) else self.generic(n)

    def op_madata(self, n):
        v = self.ev(n.args[0])
        return v.d if isinstance(v, MA) else v if isarr(v) else self.generic(n)

    def op_compressed(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, MA):
            return toarray(L(v.valid()))
        return v.ravel() if isarr(v) else self.generic(n)

    def op_macount(self, n):
        v = self.ev(n.args[0])
        ax = n.args[1] if len(n.args) > 1 else NONE
        if isinstance(v, MA):
            if ax is NONE:
                return num(len(v.valid()))
            return np.frompyfunc(num, 1, 1)((~v.m).sum(axis=self.int(ax)))
        if isarr(v):
            return num(v.size) if ax is NONE else num(v.shape[self.int(ax)])
        return self.generic(n)

    def op_filled(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, MA):
            f = node(self.ev(n.args[1]))
            out = v.d.copy()
            out[v.m] = f
            return out
        return v if isarr(v) else self.generic(n)

    def op_store(self, n):
        x, k, v = self.ev(n.args[0]), n.args[1], self.ev(n.args[2])
        if isinstance(x, L):
            x = toarray(x)
        if isinstance(v, L):
            v = toarray(v)
        if not isarr(x):
            return self.generic(n)
        ix = []
        for p in (k.args if k.op == 'tup' else (k,)):
            if p.op == 'slice':
                ix.append(slice(*[self.opt(y) for y in p.args]))
            else:
                q = self.ev(p)
                if isinstance(q, L):
                    q = toarray(q)
                if isarr(q) and q.size and all(x.op == 'num' and x.args[0].denominator == 1 for x in q.ravel()):
                    ix.append(np.frompyfunc(lambda x: int(x.args[0]), 1, 1)(q).astype(int))
                elif isarr(q):
                    ix.append(self.bools(q, q.shape))
                else:
                    ix.append(self.int(p))
        out = x.copy()
        try:
            out[tuple(ix)] = v
        except (ValueError, IndexError):
            raise NoInst('store')
        return out

    def op_convn(self, n):
        x, k = self.ev(n.args[0]), self.ev(n.args[1])
        if isinstance(x, MA):
            x = x.d
        if not isarr(x) or not isarr(k) or n.args[2] != ():
            return self.generic(n)
        kk = k[tuple([slice(None, None, -1)] * k.ndim)]
        if any(d % 2 == 0 for d in k.shape):
            return self.generic(n)
        p = np.pad(x, [(d // 2, d // 2) for d in k.shape], mode='symmetric')
        out = np.empty(x.shape, dtype=object)
        for ix in np.ndindex(*x.shape):
            t = ZERO
            for jx in np.ndindex(*k.shape):
                t = add(t, mul(kk[jx], p[tuple(a + b for a, b in zip(ix, jx))]))
            out[ix] = t
        return out

    def any(self, a):
        if isinstance(a, Node):
            return node(self.ev(a))
        if isinstance(a, tuple):
            return tuple(self.any(x) for x in a)
        return a

    # ---- leaves
    def op_sym(self, n):
        sh = n.args[2]
        if n.args[1] and sh is not None and not n.args[0].endswith('~'):
            try:
                dims = [self.int(d) for d in sh]
            except NoInst:
                return n
            return self.elements(n, dims)
        return n

    def elements(self, n, dims):
        tot = 1
        for d in dims:
            tot *= d
        if tot > 300:
            raise NoInst('large')
        out = np.empty(dims, dtype=object)
        for ix in np.ndindex(*dims):
            out[ix] = mk('el', n, mk('tup', *[num(k) for k in ix]))
        return out

    def op_get(self, n):
        c, k = self.any(n.args[0]), self.any(n.args[1])
        r = alg.dget(c, k)
        if r.op == 'get':
            s = schema(r)
            if s is not None and s[0] == 'num' and s[1] and s[2] is not None:
                try:
                    return self.elements(r, [self.int(d) for d in s[2]])
                except NoInst:
                    return r
            return r
        return self.ev(r) if r is not n else r

    # ---- arithmetic
    def op_poly(self, n):
        atoms_ = [a for mono, _ in n.args[0] for a, _ in mono]
        vals = [self.ev(a) for a in atoms_]
        if any(isinstance(v, MA) for v in vals):
            def f(*xs):
                return self.poly(n, dict(zip(atoms_, xs)))
            return self.masked(vals, f)
        return self.poly(n, dict(zip(atoms_, vals)))

    def poly(self, n, vals):
        tot = ZERO
        for mono, c in n.args[0]:
            t = num(c)
            for a, e in mono:
                v = vals[a]
                if isinstance(v, L):
                    v = toarray(v)
                if isarr(v):
                    p = np.frompyfunc(lambda x, e=e: power(x, e), 1, 1)(v)
                else:
                    p = power(v, e)
                t = self.bin(MUL, mul, t, p)
            tot = self.bin(ADD, add, tot, t)
        return tot

    def bin(self, uf, f, a, b):
        if isarr(a) or isarr(b):
            for x in (a, b):
                if isinstance(x, Node) and rank(x) != 0 and x.op not in ('num',):
                    raise NoInst('mixed array arithmetic %s' % x.op)
            try:
                return uf(a if isarr(a) else box(a), b if isarr(b) else box(b))
            except ValueError:
                raise NoInst('shapes')
        return f(a, b)

    def op_ite(self, n):
        c = self.cond(n.args[0])
        if c is TRUE:
            return self.ev(n.args[1])
        if c is FALSE:
            return self.ev(n.args[2])
        a, b = self.ev(n.args[1]), self.ev(n.args[2])
        if isarr(a) and isarr(b) and a.shape == b.shape:
            return np.frompyfunc(lambda x, y: ite(c, x, y), 2, 1)(a, b)
        if isinstance(a, L) and isinstance(b, L) and len(a) == len(b):
            return L([ite(c, node(x), node(y)) for x, y in zip(a, b)])
        return ite(c, node(a), node(b))

    def op_where(self, n):
        c, a, b = [self.ev(x) for x in n.args]
        c, a, b = [toarray(x) if isinstance(x, L) else x for x in (c, a, b)]
        if isarr(c) or isarr(a) or isarr(b):
            if any(isinstance(x, Node) and rank(x) != 0 for x in (c, a, b) if x not in (NAN, NONE)):
                if isinstance(c, Node) and c.op in ('acmp',):
                    raise NoInst('mixed where')
            f = np.frompyfunc(lambda x, y, z: ite(as_bool(x), y, z), 3, 1)
            return f(*[x if isarr(x) else box(x) for x in (c, a, b)])
        return REB['where'](c, a, b)

    def op_acmp(self, n):
        o, p = n.args[0], self.ev(n.args[1])
        if isinstance(p, L):
            p = toarray(p)

        def one(x):
            return {'<': lambda: lt0(x), '<=': lambda: bnot(lt0(neg(x))), '==': lambda: eq0(x),
                    '!=': lambda: bnot(eq0(x))}[o]()
        if isarr(p):
            return np.frompyfunc(one, 1, 1)(p)
        return REB['acmp'](o, p) if rank(p) != 0 else one(p)

    def op_anot(self, n):
        v = self.ev(n.args[0])
        if isarr(v):
            return np.frompyfunc(bnot, 1, 1)(v)
        return REB['anot'](v)

    def op_count(self, n):
        v = self.ev(n.args[0])
        if not isarr(v):
            return mk('count', v, *n.args[1:])
        w = np.frompyfunc(lambda c: ite(as_bool(c), ONE, ZERO), 1, 1)(v)
        return self.reduce(add, w, n.args[1] if len(n.args) > 1 else NONE)

    # ---- binders
    def op_Sum(self, n):
        t, outer, inner = open_binder(n)
        tot = ZERO
        for k in self.dom(outer[0]):
            v = Ev({**self.env, t: k}).ev(inner[0])
            if isinstance(v, L):
                v = toarray(v)
            tot = self.bin(ADD, add, tot, v)
        return tot

    def op_Map(self, n):
        t, outer, inner = open_binder(n)
        return L([Ev({**self.env, t: k}).ev(inner[0]) for k in self.dom(outer[0])])

    def op_FlatMap(self, n):
        t, outer, inner = open_binder(n)
        out = L()
        for k in self.dom(outer[0]):
            out.extend(Ev({**self.env, t: k}).seq(inner[0]))
        return out

    def op_Exists(self, n):
        t, outer, inner = open_binder(n)
        r = FALSE
        for k in self.dom(outer[0]):
            r = bor(r, Ev({**self.env, t: k}).cond(inner[0]))
        return r

    def op_First(self, n):
        t, outer, inner = open_binder(n)
        ks = self.dom(outer[0])
        r = None
        for k in reversed(ks):
            c = Ev({**self.env, t: k}).cond(inner[0])
            r = k if r is None else ite(c, k, r)
        if r is None:
            return mk('undef')
        return r

    def op_until(self, n):
        t, outer, inner = open_binder(n)
        ks = self.dom(outer[0])
        r = num(len(ks))
        for k in reversed(ks):
            r = ite(Ev({**self.env, t: k}).cond(inner[0]), k, r)
        return r

    def op_mu(self, n):
        ts, outer, inner = open_binder(n)
        inits, steps, mx, out = inner
        i, states = ts[0], ts[1:]
        ks = self.dom(outer[0])
        cur = [self.ev(x) for x in inits]
        stops = []
        for k in ks:
            e = Ev({**self.env, i: k, **dict(zip(states, cur))})
            c = e.cond(mx)
            if c is not FALSE:
                stops.append((c, node(e.ev(out))))
                if c is TRUE:
                    break
            cur = [e.ev(x) for x in steps]
        else:
            e = Ev({**self.env, i: num(len(ks)), **dict(zip(states, cur))})
            stops.append((TRUE, e.ev(out)))
        r = stops[-1][1]
        for c, v in reversed(stops[:-1]):
            r = ite(c, v, node(r))
        return r

    # ---- sequences
    def op_lit(self, n):
        return L([self.ev(x) for x in n.args])

    def op_tup(self, n):
        return mk('tup', *[node(self.ev(x)) for x in n.args])

    def op_arr(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, Node):
            return mk('arr', v)
        return toarray(v)

    def op_list(self, n):
        v = self.ev(n.args[0])
        return v if isinstance(v, Node) and v.op not in ('tup',) else self.seq(n.args[0])

    def op_cat(self, n):
        out = L()
        for p in n.args:
            out.extend(self.seq(p))
        return out

    def op_rev(self, n):
        v = self.ev(n.args[0])
        if isarr(v):
            return v[::-1]
        if isinstance(v, L):
            return L(v[::-1])
        return REB['rev'](v)

    def op_slseq(self, n):
        v = self.ev(n.args[0])
        a, b, st = [self.opt(x) for x in n.args[1:]]
        if isinstance(v, L):
            return L(v[a:b:st])
        if isarr(v):
            return v[a:b:st]
        return REB['slseq'](v, *n.args[1:])

    def op_sl(self, n):
        x = self.ev(n.args[0])
        if isinstance(x, L):
            x = toarray(x)
        if isinstance(x, MA):
            ax = self.int(n.args[1])
            ix = [slice(None)] * x.d.ndim
            ix[ax] = slice(*[self.opt(y) for y in n.args[2:]])
            return MA(x.d[tuple(ix)], x.m[tuple(ix)])
        if not isarr(x):
            return REB['sl'](x, *[self.any(a) for a in n.args[1:]])
        ax = self.int(n.args[1])
        a, b, st = [self.opt(y) for y in n.args[2:]]
        ix = [slice(None)] * x.ndim
        ix[ax] = slice(a, b, st)
        return x[tuple(ix)]

    def op_idx(self, n):
        x, k = self.ev(n.args[0]), self.ev(n.args[1])
        if isinstance(x, MA):
            j = self.int(n.args[1])
            if not -len(x.d) <= j < len(x.d):
                return mk('undef')
            return MA(x.d[j], x.m[j]) if x.d.ndim > 1 else x.d[j]
        if isinstance(x, Node):
            r = REB['idx'](x, node(k))
            return r
        if isinstance(k, Node) and k.op == 'num':
            j = int(k.args[0])
            if not -len(x) <= j < len(x):
                return mk('undef')
            return x[j]
        if isinstance(k, Node) and k.op == 'ite':
            def go(kk):
                if kk.op == 'ite':
                    a, b = go(kk.args[1]), go(kk.args[2])
                    c = batom(kk.args[0])
                    return ite(c, node(a), node(b))
                if kk.op != 'num':
                    raise NoInst('index')
                j = int(kk.args[0])
                return x[j] if -len(x) <= j < len(x) else mk('undef')
            return go(k)
        raise NoInst('index')

    def op_col(self, n):
        x = self.ev(n.args[0])
        ax = n.args[2] if len(n.args) > 2 else ONE
        if isinstance(x, (MA, np.ndarray)) and isinstance(ax, (Node, int)):
            j = self.int(n.args[1])
            ax = int(ax.args[0]) if isinstance(ax, Node) else ax
            if isinstance(x, MA):
                return MA(x.d.take(j, axis=ax), x.m.take(j, axis=ax))
            return x.take(j, axis=ax)
        return self.generic(n)

    def op_len(self, n):
        v = self.ev(n.args[0])
        v = v.d if isinstance(v, MA) else v
        if isinstance(v, L) or isarr(v):
            return num(len(v))
        return REB['len'](v)

    def op_dim(self, n):
        v = self.ev(n.args[0])
        v = v.d if isinstance(v, MA) else v
        if isarr(v):
            k = n.args[1]
            return num(v.shape[int(k.args[0]) if isinstance(k, Node) else k])
        return REB['dim'](v, n.args[1])

    def op_ndim(self, n):
        v = self.ev(n.args[0])
        v = v.d if isinstance(v, MA) else v
        if isarr(v):
            return num(v.ndim)
        return self.generic(n)

    def op_size(self, n):
        v = self.ev(n.args[0])
        v = v.d if isinstance(v, MA) else v
        if isarr(v):
            if len(n.args) > 1 and n.args[1] is not NONE:
                return num(v.shape[self.int(n.args[1])])
            return num(v.size)
        return self.generic(n)

    def op_T(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, MA):
            return MA(v.d.T, v.m.T)
        return v.T if isarr(v) else REB['T'](v)

    def op_ravel(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, MA):
            return MA(v.d.ravel(), v.m.ravel())
        return v.ravel() if isarr(v) else REB['ravel'](v)

    def op_per(self, n):
        v = self.ev(n.args[0])
        if isarr(v):
            k, m = self.int(n.args[1]), self.int(n.args[2])
            return np.take(v, [j % v.shape[k] for j in range(m)], axis=k)
        return self.generic(n)

    def op_gather(self, n):
        v, i = self.ev(n.args[0]), self.ev(n.args[2])
        if isarr(v) and isarr(i) and all(x.op == 'num' for x in i):
            k = self.int(n.args[1])
            try:
                return np.take(v, [int(x.args[0]) for x in i], axis=k)
            except IndexError:
                raise NoInst('index out of range')
        return self.generic(n)

    def op_expand(self, n):
        v = self.ev(n.args[0])
        if isarr(v):
            return np.expand_dims(v, self.int(n.args[1]))
        return self.generic(n)

    def op_arange(self, n):
        if len(n.args) == 1:
            k = self.int(n.args[0])
            return toarray(L([num(j) for j in range(k)]))
        return self.generic(n)

    def op_zeros(self, n):
        return self.filled(n, ZERO)

    def op_ones(self, n):
        return self.filled(n, ONE)

    def filled(self, n, x):
        s = n.args[0]
        if s.op == 'tup':
            d = [self.int(y) for y in s.args]
            out = np.empty(d, dtype=object)
            out[...] = x
            return out
        return self.generic(n)

    def op_cumsum(self, n):
        v = self.ev(n.args[0])
        if isarr(v) and v.ndim == 1:
            out, t = [], ZERO
            for x in v:
                t = add(t, x)
                out.append(t)
            return toarray(L(out))
        return self.generic(n)

    def reduce(self, f, v, ax):
        if isinstance(v, MA):
            if ax is not NONE and ax is not None:
                raise NoInst('masked axis')
            v = toarray(L(v.valid()))
        if ax is NONE or ax is None:
            xs = list(v.ravel())
            if not xs:
                return ZERO if f is add else mk('undef')
            r = xs[0]
            for x in xs[1:]:
                r = f(r, x)
            return r
        k = self.int(ax)
        w = np.moveaxis(v, k, 0)
        if not len(w):
            raise NoInst('empty axis')
        r = w[0]
        uf = np.frompyfunc(f, 2, 1)
        for x in w[1:]:
            r = uf(r, x)
        return r

    def op_asum(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, L):
            v = toarray(v)
        if isarr(v) or isinstance(v, MA):
            return self.reduce(add, v, n.args[1] if len(n.args) > 1 else NONE)
        return self.generic(n)

    def op_amax(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, L):
            v = toarray(v)
        if isarr(v) or isinstance(v, MA):
            return self.reduce(max2, v, n.args[1] if len(n.args) > 1 else NONE)
        return self.generic(n)

    def op_amin(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, L):
            v = toarray(v)
        if isarr(v) or isinstance(v, MA):
            return self.reduce(min2, v, n.args[1] if len(n.args) > 1 else NONE)
        return self.generic(n)

    def op_lastidx(self, n):
        return self.index(n, True)

    def op_firstidx(self, n):
        return self.index(n, False)

    def index(self, n, last):
        v = self.ev(n.args[0])
        if not isarr(v) or v.ndim != 1:
            return self.generic(n)
        r = mk('undef')
        ks = range(len(v)) if last else range(len(v) - 1, -1, -1)
        for k in ks:
            r = ite(as_bool(v[k]), num(k), r)
        return r

    def op_anyr(self, n):
        v = self.ev(n.args[0])
        if isarr(v) and (len(n.args) == 1 or n.args[1] is NONE):
            r = FALSE
            for x in v.ravel():
                r = bor(r, as_bool(x))
            return r
        return self.generic(n)

    def op_allr(self, n):
        v = self.ev(n.args[0])
        if isarr(v) and (len(n.args) == 1 or n.args[1] is NONE):
            r = TRUE
            for x in v.ravel():
                r = band(r, as_bool(x))
            return r
        return self.generic(n)


def expand(t, env):
    return node(Ev(dict(env)).ev(t))


def strip_undef(t):
    """values that only arise outside the quantified inputs"""
    return t
