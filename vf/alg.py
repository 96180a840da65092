"""Constructors for arrays, sequences, dictionaries, strings and loop summaries."""
import math
from .term import *
from .term import _poly, _ite_atom, _fix_mono, _collect
from . import term as T

BINDERS.update({'Sum': 1, 'Map': 1, 'FlatMap': 1, 'DMap': 2, 'Exists': 1, 'First': 1, 'until': 1, 'mu': 1,
                'Red': 2, 'fix': 0})

NORANK = object()


def _r_idx(n):
    x = n.args[0]
    e = ELEM.get(x)
    if e is not None:
        return e.get('rank')
    r = rank(x)
    return r - 1 if r else None


ELEM = {}     # list symbol -> dict(rank=, shape=, integer=)


def _r_same(n):
    return rank(n.args[0])


def _r_asum(n):
    r = rank(n.args[0])
    if n.args[1] is NONE:
        return 0
    return r - 1 if r else None


def _s_drop(n):
    s = shape(n.args[0])
    ax = n.args[1]
    if s is None or ax.op != 'num' or abs(int(ax.args[0])) > len(s):
        return None
    k = int(ax.args[0])
    return s[:k] + s[k + 1:]


def _sh_sl(n):
    x, ax, a, b, st = n.args
    s = shape(x)
    if s is None:
        return None
    k = int(ax.args[0])
    d = s[k]
    if st.op == 'num' and st.args[0] == -1 and a is NONE and b is NONE:
        return s
    if st is not ONE:
        return None
    lo = ZERO if a is NONE else a
    hi = d if b is NONE else b
    if isneg(lo):
        lo = add(d, lo)
    if isneg(hi):
        hi = add(d, hi)
    return s[:k] + (sub(hi, lo),) + s[k + 1:]


def isneg(x):
    """syntactically negative (constant, or minus a nonnegative quantity)"""
    if x.op == 'num':
        return x.args[0] < 0
    lo = lower(neg(x)) if x.op == 'poly' else None
    return lo is not None and lo >= 0 and x is not ZERO


def _r_first(n):
    return rank(n.args[0])


RANKF.update({
    'idx': _r_idx, 'asum': _r_asum, 'amax': _r_asum, 'amin': _r_asum, 'sl': _r_same, 'T': _r_same,
    'median': _r_asum, 'anyr': _r_asum, 'allr': _r_asum, 'count': lambda n: 0 if n.args[1] is NONE else None,
    'fft': _r_same, 'cumsum': lambda n: 1 if n.args[1] is NONE else rank(n.args[0]), 'conv': _r_same,
    'dim': lambda n: 0, 'arange': lambda n: 1, 'ones': lambda n: len(n.args[0].args) if n.args[0].op == 'tup' else None,
    'zeros': lambda n: len(n.args[0].args) if n.args[0].op == 'tup' else None,
    'draw': lambda n: (len(n.args[3].args) if n.args[3].op == 'tup' else 1 if n.args[3].op != 'none' else
                       (max([rank(x) or 0 for x in n.args[2]] or [0]))),
    'linspace': lambda n: 1, 'lastidx': lambda n: 0, 'firstidx': lambda n: 0, 'argmin': lambda n: 0,
    'argmax': lambda n: 0, 'macount': lambda n: 0, 'fdiv': None, 'ravel': lambda n: 1, 'compressed': lambda n: 1,
    'hist': lambda n: 1, 'unique': lambda n: 1, 'masked': _r_same, 'madata': _r_same, 'mamask': _r_same,
    'filled': _r_same, 'store': _r_same, 'take': lambda n: 1, 'astack': lambda n: (rank(n.args[1]) + 1)
    if rank(n.args[1]) is not None else None, 'size': lambda n: 0, 'nonzero': lambda n: 1,
    'float': lambda n: 0, 'int': lambda n: 0, 'npix': lambda n: 0, 'roundn': lambda n: rank(n.args[0]),
    'outer': lambda n: 2, 'loadimg': lambda n: 2,
})
for _k in [k for k, v in RANKF.items() if v is None]:
    del RANKF[_k]
SHAPEF.update({
    'asum': lambda n: _s_drop(n) if n.args[1] is not NONE else (),
    'amax': lambda n: _s_drop(n) if n.args[1] is not NONE else (),
    'amin': lambda n: _s_drop(n) if n.args[1] is not NONE else (),
    'sl': _sh_sl, 'arange': lambda n: (n.args[0],),
    'T': lambda n: tuple(reversed(shape(n.args[0]))) if shape(n.args[0]) is not None else None,
    'fft': lambda n: shape(n.args[0]), 'conv': lambda n: shape(n.args[0]),
    'ones': lambda n: n.args[0].args if n.args[0].op == 'tup' else None,
    'zeros': lambda n: n.args[0].args if n.args[0].op == 'tup' else None,
    'draw': lambda n: (n.args[3].args if n.args[3].op == 'tup' else (n.args[3],) if n.args[3] is not NONE else
                       next((shape(x) for x in n.args[2] if rank(x)), ())),
    'store': lambda n: shape(n.args[0]), 'masked': lambda n: shape(n.args[0]), 'filled': lambda n: shape(n.args[0]),
    'madata': lambda n: shape(n.args[0]), 'mamask': lambda n: shape(n.args[0]),
    'ravel': lambda n: (size(n.args[0], NONE),),
    'compressed': lambda n: (fmacount(n.args[0]),),
    'idx': lambda n: (ELEM[n.args[0]].get('shape') if n.args[0] in ELEM else
                      (shape(n.args[0])[1:] if shape(n.args[0]) else None)),
    'cumsum': lambda n: shape(n.args[0]) if rank(n.args[0]) == 1 else None,
    'linspace': lambda n: (n.args[2],),
    'hist': lambda n: (sub(flen(n.args[1]), ONE),),
    'roundn': lambda n: shape(n.args[0]),
})


def size(x, axis=NONE):
    s = shape(x)
    if s is None:
        return mk('size', x) if axis is NONE else mk('dim', x, int(axis.args[0]))
    if axis is not NONE:
        k = int(axis.args[0])
        if k < 0:
            k += len(s)
        return s[k]
    r = ONE
    for d in s:
        r = mul(r, d)
    return r


def normaxis(x, axis):
    r = rank(x)
    if axis is NONE or axis.op != 'num':
        if axis.op in ('tup', 'lit') and r is not None and len(axis.args) == r:
            return NONE
        return axis
    k = int(axis.args[0])
    if k < 0 and r is not None:
        k += r
    if r == 1 and k == 0:
        return NONE
    return num(k)


def asum(x, axis=NONE):
    if x.op == 'ite':
        return lift(lambda y: asum(y, axis), x)
    r = rank(x)
    if r == 0:
        return x
    axis = normaxis(x, axis)
    if x.op == 'acmp':
        return mk('count', x, axis)
    if x.op == 'asum' and axis is NONE and x.args[1] is not NONE:
        return asum(x.args[0], NONE)
    if x.op == 'T' and rank(x) == 2:
        if axis is NONE:
            return asum(x.args[0])
        return asum(x.args[0], num(1 - int(axis.args[0])))
    if x.op in ('ones',):
        return size(x, axis)
    if x.op == 'zeros':
        return ZERO if axis is NONE else mk('asum', x, axis)
    if x.op in ('ravel', 'compressed') and axis is NONE:
        return asum(x.args[0])
    if axis is NONE:
        y = unravel_all(x)
        if y is not x:
            return asum(y)
    if x.op == 'astack' and axis.op == 'num' and axis.args[0] == 0:
        return fsum(x.args[0], x.args[1]) if False else mk('asum', x, axis)
    if x.op in ('lit', 'tup') and axis is NONE and all(rank(y) == 0 for y in x.args):
        t = ZERO
        for y in x.args:
            t = add(t, y)
        return t
    if x.op == 'Map' and axis is NONE:
        i, outer, inner = open_binder(x)
        if rank(inner[0]) == 0:
            return fsum(i, outer[0], inner[0])
    if x.op == 'poly':
        y = ratnorm(x)
        if y is not x:
            return asum(y, axis)
        res = ZERO
        for m, c in x.args[0]:
            scal = num(c)
            arr = ONE
            for a, e in m:
                t = power(a, e) if a.op != 'poly' else _poly({((a, e),): F(1)})
                if rank(a) == 0:
                    scal = mul(scal, t)
                else:
                    arr = mul(arr, t)
            if arr is ONE:
                res = add(res, mul(scal, fmacount(x, axis)))
            else:
                ra = rank(arr)
                if r is not None and ra is not None and ra < r:
                    # lower-rank term broadcast over the summed array
                    if axis is NONE and ra == 1:
                        sx, sa = shape(x), shape(arr)
                        f = ONE
                        if sx is not None:
                            for d in sx[:r - ra]:
                                f = mul(f, d)
                            res = add(res, mul(mul(scal, f), _asum(arr, NONE)))
                            continue
                    res = add(res, mul(scal, mk('asum', arr, axis, num(r))))
                else:
                    res = add(res, mul(scal, _asum(arr, axis)))
        return res
    if x.op == 'asum' and x.args[1].op == 'num' and axis.op == 'num' and len(x.args) == 2 and axis.args[0] < x.args[1].args[0]:
        # the later axis is summed last
        return mk('asum', asum(x.args[0], axis), num(x.args[1].args[0] - 1))
    return mk('asum', x, axis)


def _asum(x, axis):
    if x.op in ('T', 'asum', 'ones', 'ravel', 'zeros', 'acmp', 'compressed'):
        return asum(x, axis)
    if x.op == 'poly' and len(x.args[0]) == 1 and x.args[0][0][1] == 1 and len(x.args[0][0][0]) >= 1:
        # single monomial with coefficient one: drop 'ones' factors covered by other factors
        return mk('asum', x, normaxis(x, axis))
    if x.op == 'poly':
        return asum(x, axis)
    return mk('asum', x, normaxis(x, axis))


REB['asum'] = lambda x, ax, *r: asum(x, ax) if not r else mk('asum', x, ax, *r)


def amean(x, axis=NONE):
    if rank(x) == 0:
        return x
    if x.op == 'ite':
        return lift(lambda y: amean(y, axis), x)
    n = maskcount(x, axis)
    return div(asum(x, axis), n)


def maskable(x):
    return x.op == 'sym' and isinstance(x.args[0], str) and x.args[0].endswith('~')


def ismsk(x):
    """may the array carry a mask?"""
    if x.op in ('masked',):
        return True
    if x.op == 'sym':
        return maskable(x)
    if x.op in ('poly', 'sl', 'T', 'abs', 'ravel', 'asum', 'cast', 'idx', 'where', 'ite', 'get', 'tile', 'rint', 'col', 'slseq', 'take', 'rev', 'expand', 'reshape', 'fancy', 'swap', 'per'):
        return any(ismsk(k) for k in x.kids)
    return False


def maskcount(x, axis=NONE):
    """number of entries a reduction runs over"""
    return fmacount(x, axis)


def fmacount(x, ax=NONE):
    if x.op == 'ite':
        return lift(lambda y: fmacount(y, ax), x)
    if not ismsk(x):
        return size(x, ax)
    if ax is NONE and x.op in ('cast', 'abs', 'rint', 'ravel', 'T'):
        return fmacount(x.args[0])
    if x.op in ('cast', 'abs', 'rint'):
        return fmacount(x.args[0], ax)
    if x.op == 'poly':
        ms = [t for t in x.kids if rank(t) and ismsk(t)]
        if len(ms) == 1 and rank(ms[0]) == rank(x):
            return fmacount(ms[0], ax)
    return mk('macount', x, normaxis(x, ax))


REB['macount'] = fmacount


def unravel_all(x):
    """the same multiset of values: ravel/compressed of every array part removed"""
    if x.op != 'poly':
        return x
    arrs = [t for t in x.kids if rank(t)]
    if not arrs:
        return x
    for o in ('ravel', 'compressed'):
        if all(t.op == o for t in arrs):
            if o == 'ravel' and len({shape(t.args[0]) for t in arrs}) > 1:
                continue
            if o == 'compressed' and len({t.args[0] for t in arrs}) > 1:
                continue
            if any(rank(t.args[0]) is None for t in arrs):
                continue
            return _map_atoms(x, lambda t: t.args[0] if rank(t) else t)
    return x


def avar(x, axis=NONE, ddof=ZERO):
    if x.op == 'ite':
        return lift(lambda y: avar(y, axis, ddof), x)
    if rank(x) == 0:
        return ZERO
    n = maskcount(x, axis)
    axis = normaxis(x, axis)
    if axis is NONE:
        return div(sub(asum(mul(x, x)), div(power(asum(x), F(2)), n)), sub(n, ddof))
    return div(sub(asum(mul(x, x), axis), div(power(asum(x, axis), F(2)), n)), sub(n, ddof))


def reduce_(op):
    def f(x, axis=NONE):
        if x.op == 'ite':
            return lift(lambda y: f(y, axis), x)
        if rank(x) == 0:
            return x
        axis = normaxis(x, axis)
        if x.op == 'T' and rank(x) == 2:
            return f(x.args[0], axis if axis is NONE else num(1 - int(axis.args[0])))
        if x.op in ('ravel', 'compressed') and axis is NONE:
            return f(x.args[0])
        if axis is NONE:
            y = unravel_all(x)
            if y is not x:
                return f(y, axis)
        if x.op in ('tup', 'lit') and axis is NONE and all(rank(y) == 0 for y in x.args) and op in ('amax', 'amin'):
            r = x.args[0]
            for y in x.args[1:]:
                r = (max2 if op == 'amax' else min2)(r, y)
            return r
        # pull scalar positive factors and scalar offsets out of max/min
        if x.op == 'poly' and op in ('amax', 'amin'):
            d = pdict(x)
            off = ZERO
            rest = ZERO
            for m, c in d.items():
                t = _poly({m: c})
                if rank(t) == 0:
                    off = add(off, t)
                else:
                    rest = add(rest, t)
            dr = pdict(rest)
            if off is not ZERO:
                return add(f(rest, axis), off)
            if len(dr) == 1:
                (m, c), = dr.items()
                if c > 0 and c != 1:
                    return mul(num(c), f(mul(rest, num(1 / c)), axis))
                if c < 0:
                    g = REDUCERS['amin' if op == 'amax' else 'amax']
                    return mul(num(c), g(mul(rest, num(1 / c)), axis))
        return mk(op, x, axis)
    return f


REDUCERS = {o: reduce_(o) for o in ('amax', 'amin', 'median', 'anyr', 'allr', 'prod')}
for _o, _f in REDUCERS.items():
    REB[_o] = _f


def max2(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return lift(max2, a, b)
    if rank(a) == 0 and rank(b) == 0:
        return ite(lt(a, b), b, a)
    a, b = sorted((a, b), key=lambda t: t.id)
    return mk('max2', a, b)


def min2(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return lift(min2, a, b)
    if rank(a) == 0 and rank(b) == 0:
        return ite(lt(a, b), a, b)
    for c, m in ((a, b), (b, a)):
        if m.op == 'max2' and rank(c) == 0:
            for d, x in (m.args, m.args[::-1]):
                if rank(d) == 0 and lt0(sub(c, d)) is FALSE:
                    return max2(d, min2(c, x))
    a, b = sorted((a, b), key=lambda t: t.id)
    return mk('min2', a, b)


REB['max2'], REB['min2'] = max2, min2


def transpose(x):
    if x.op == 'ite':
        return lift(transpose, x)
    if x.op == 'T':
        return x.args[0]
    if rank(x) in (0, 1):
        return x
    if x.op == 'poly' and all(rank(a) == 0 or (rank(a) == 2) for a in x.kids):
        return _map_atoms(x, lambda a: transpose(a) if rank(a) else a)
    return mk('T', x)


REB['T'] = transpose


def _map_atoms(x, f):
    """rebuild an elementwise polynomial with every atom mapped"""
    r = ZERO
    for m, c in x.args[0]:
        t = num(c)
        for a, e in m:
            t = mul(t, power(f(a), e) if a.op != 'poly' else power(_map_atoms(a, f), e))
        r = add(r, t)
    return r


def cast(x, dt):
    """dt: canonical dtype name"""
    if x.op == 'ite':
        return lift(lambda y: cast(y, dt), x)
    if dt in ('float64', 'float'):
        return x
    if x.op == 'cast' and x.args[1] == dt:
        return x
    if x.op == 'num' and x.args[0].denominator == 1:
        return x
    return mk('cast', x, dt)


REB['cast'] = cast


def dim(x, k):
    s = shape(x)
    if s is not None and k < len(s):
        return s[k]
    return mk('dim', x, k)


REB['dim'] = dim


def flen(x):
    op = x.op
    if op == 'ite':
        return lift(flen, x)
    if op in ('lit', 'tup'):
        return num(len(x.args))
    if op == 'str':
        return num(len(x.args[0]))
    if op == 'Map':
        return domlen(x.args[1])
    if op == 'cat':
        r = ZERO
        for p in x.args:
            r = add(r, flen(p))
        return r
    if op in ('sorted', 'rev', 'keys', 'list'):
        return flen(x.args[0])
    if op == 'sl' and x.args[1] is ZERO and kind(x) == 'list' or op == 'slseq':
        a, b, st = x.args[-3:]
        n = flen(x.args[0])
        if st is ONE:
            lo = ZERO if a is NONE else a
            hi = n if b is NONE else b
            if isneg(lo):
                lo = add(n, lo)
            if isneg(hi):
                hi = add(n, hi)
            return sub(hi, lo)
        if st.op == 'num' and st.args[0] == -1 and a is NONE and b is NONE:
            return n
    if op == 'dlit':
        return num(len(x.args[0]))
    if op == 'set' and rank(x.args[0]) == 1:
        return dim(mk('unique', x.args[0]), 0)
    r = rank(x)
    if r:
        s = shape(x)
        if s:
            return s[0]
    return mk('len', x)


REB['len'] = flen


def domlen(d):
    return d.args[0] if d.op == 'range' else mk('len', d.args[0])


def slseq(x, a, b, st):
    """python sequence / array slice along axis 0"""
    if x.op == 'ite' or a.op == 'ite' or b.op == 'ite':
        return lift(lambda p, q, r: slseq(p, q, r, st), x, a, b)
    if a is ZERO:
        a = NONE
    if a is NONE and b is NONE and st is ONE:
        return x
    if x.op in ('lit', 'tup') and all(t is NONE or t.op == 'num' for t in (a, b, st)):
        s = slice(*[None if t is NONE else int(t.args[0]) for t in (a, b, st)])
        return mk(x.op, *x.args[s])
    if x.op == 'str' and all(t is NONE or t.op == 'num' for t in (a, b, st)):
        s = slice(*[None if t is NONE else int(t.args[0]) for t in (a, b, st)])
        return mk('str', x.args[0][s])
    r = rank(x)
    if r or (r is None and kind(x) in ('num',)):
        return sl(x, ZERO, a, b, st)
    # lists
    if x.op == 'Map' and x.args[1].op == 'range' and st is ONE:
        n = x.args[1].args[0]
        lo = ZERO if a is NONE else (add(n, a) if isneg(a) else a)
        hi = n if b is NONE else (add(n, b) if isneg(b) else b)
        i, outer, inner = open_binder(x)
        return fmap(i, mk('range', sub(hi, lo)), subst(inner[0], {i: add(i, lo)}))
    if st.op == 'num' and st.args[0] == -1 and a is NONE and b is NONE:
        return rev(x)
    if b is not NONE and isneg(b) and kind(x) == 'list':
        b = add(flen(x), b)
    if a is not NONE and isneg(a) and kind(x) == 'list':
        a = add(flen(x), a)
    if x.op == 'slseq' and x.args[3] is ONE and st is ONE and x.args[2] is NONE and b is NONE:
        return slseq(x.args[0], add(x.args[1], a), NONE, ONE)
    if x.op == 'cat' and x.args[0].op == 'lit' and b is NONE and st is ONE and a.op == 'num' and \
            0 <= a.args[0] <= len(x.args[0].args):
        return cat(mk('lit', *x.args[0].args[int(a.args[0]):]), *x.args[1:])
    if x.op == 'cat' and x.args[-1].op == 'lit' and st is ONE and a is NONE and b is sub(flen(x), ONE):
        return cat(*(x.args[:-1] + (mk('lit', *x.args[-1].args[:-1]),)))
    return mk('slseq', x, a, b, st)


def rev(x):
    if x.op == 'ite':
        return lift(rev, x)
    if x.op in ('lit', 'tup'):
        return mk(x.op, *reversed(x.args))
    if x.op == 'rev':
        return x.args[0]
    if rank(x):
        return sl(x, ZERO, NONE, NONE, num(-1))
    if x.op == 'cat':
        return cat(*[rev(p) for p in reversed(x.args)])
    if x.op == 'Map' and x.args[1].op == 'range':
        i, outer, inner = open_binder(x)
        n = x.args[1].args[0]
        return fmap(i, x.args[1], subst(inner[0], {i: sub(sub(n, ONE), i)}))
    return mk('rev', x)


REB['slseq'], REB['rev'] = slseq, rev


def lstore(c, k, v):
    """the list with one element replaced"""
    if c.op == 'lit' and k.op == 'num' and -len(c.args) <= k.args[0] < len(c.args):
        xs = list(c.args)
        xs[int(k.args[0])] = v
        return mk('lit', *xs)
    return mk('lstore', c, k, v)


REB['lstore'] = lstore


def ge0(x):
    """provably nonnegative"""
    lo = lower(x)
    if lo is not None:
        return lo >= 0
    if x.op != 'poly':
        return False
    # floor(e) > e - 1, ceil(e) >= e in terms with nonnegative factors
    r = ZERO
    for m, c in x.args[0]:
        t = num(c)
        for a, e in m:
            f = power(a, e) if a.op != 'poly' else _poly({((a, e),): F(1)})
            if a.op in ('floor', 'ceil') and e == 1 and c > 0 and all((lower(b) or 0) >= 0 and lower(b) is not None
                                                                   for b, g in m if b is not a):
                f = a.args[0] if a.op == 'ceil' else add(sub(a.args[0], ONE), _grain(a.args[0]))
            if a.op in ('floor', 'ceil') and e == 1 and c < 0 and all((lower(b) or 0) >= 0 and lower(b) is not None
                                                                   for b, g in m if b is not a):
                f = a.args[0] if a.op == 'floor' else sub(add(a.args[0], ONE), _grain(a.args[0]))
            t = mul(t, f)
        r = add(r, t)
    r = ratnorm(r)
    if r.op == 'poly':
        # n*m >= m for integers n >= 1
        d = dict(r.args[0])
        for m in sorted([m for m, c in d.items() if c < 0], key=len, reverse=True):
            for q in sorted(d, key=len):
                if d.get(q, 0) <= 0 or d.get(m, 0) >= 0:
                    continue
                quo = dict(q)
                for a, e in m:
                    quo[a] = quo.get(a, 0) - e
                if all(e == 0 or e > 0 and (lower(a) or 0) >= 1 for a, e in quo.items()) and \
                        all((lower(a) or 0) > 0 or lower(a) == 0 for a, e in m):
                    t = min(d[q], -d[m])
                    d[q] -= t
                    d[m] += t
        r = _poly(d)
    lo = lower(r)
    return lo is not None and lo >= 0


def _grain(e):
    """g > 0 such that e is a multiple of g, or 0"""
    if e.op != 'poly':
        return ONE if is_int(e) else ZERO
    den, cd = {}, 1
    for m, c in e.args[0]:
        cd = cd * c.denominator // math.gcd(cd, c.denominator)
        for a, x in m:
            if x.denominator != 1 or not is_int(a):
                return ZERO
            if x < 0:
                den[a] = max(den.get(a, 0), -x)
                if (lower(a) or 0) <= 0:
                    return ZERO
    g = num(F(1, cd))
    for a, x in den.items():
        g = div(g, power(a, x))
    return g


def per(x, axis, n):
    """x repeated along axis until its length is n"""
    if x.op == 'ite' or n.op == 'ite':
        return lift(lambda p, q: per(p, axis, q), x, n)
    k = int(axis.args[0])
    s = shape(x)
    if s is None:
        return mk('per', x, axis, n)
    if s[k] is n:
        return x
    if n.op == 'num' and s[k].op == 'num' and n.args[0] <= s[k].args[0]:
        return sl(x, axis, NONE, n, ONE)
    if x.op == 'per' and x.args[1].args[0] > k:
        return per(per(x.args[0], axis, n), x.args[1], x.args[2])
    if x.op == 'poly' and all(rank(t) == 0 or rank(t) == rank(x) for t in x.kids):
        return _map_atoms(x, lambda t: per(t, axis, n) if rank(t) else t)
    return mk('per', x, axis, n)


def _per_len(n):
    s = shape(n.args[0])
    if s is None:
        return None
    k = int(n.args[1].args[0])
    return s[:k] + (n.args[2],) + s[k + 1:]


REB['per'] = per
RANKF['per'] = lambda n: rank(n.args[0])
SHAPEF['per'] = _per_len


def tile(x, reps):
    reps = list(reps)
    r = rank(x)
    while r < len(reps):
        x = expand0(x)
        r += 1
    s = shape(x)
    reps = [ONE] * (r - len(reps)) + reps
    for k, (d, m) in enumerate(zip(s, reps)):
        x = per(x, num(k), mul(d, m))
    return x


def expand0(x):
    return REB['expand'](x, ZERO) if 'expand' in REB else mk('expand', x, ZERO)


def sl(x, axis, a, b, st):
    if x.op == 'per' and st is ONE and a in (NONE, ZERO) and b is not NONE and b.op != 'ite' and not isneg(b):
        k = int(axis.args[0])
        j = int(x.args[1].args[0])
        if j == k:
            n = x.args[2]
            if n is b or ge0(sub(b, n)):
                return x
            if ge0(sub(n, b)):
                return per(x.args[0], axis, b)
        else:
            return per(sl(x.args[0], axis, a, b, st), x.args[1], x.args[2])
    if x.op == 'ite' or a.op == 'ite' or b.op == 'ite':
        return lift(lambda p, q, r: sl(p, axis, q, r, st), x, a, b)
    if a is ZERO:
        a = NONE
    if a is NONE and b is NONE and st is ONE:
        return x
    r = rank(x)
    if r == 0:
        return x
    s = shape(x)
    k = int(axis.args[0])
    if s is not None and k < len(s):
        if b is not NONE and isneg(b):
            b = add(s[k], b)
        if a is not NONE and isneg(a):
            a = add(s[k], a)
        if b is s[k]:
            b = NONE
        if a is NONE and b is NONE and st is ONE:
            return x
    if x.op == 'poly' and r is not None and all(rank(t) == 0 or rank(t) == r for t in x.kids):
        return _map_atoms(x, lambda t: sl(t, axis, a, b, st) if rank(t) else t)
    if x.op in ('abs', 'exp', 'ln', 'conj', 'acmp', 'cast', 'rint', 'floor', 'isnan') and rank(x.kids[0]) == r:
        f = REB.get(x.op) or (lambda *z: mk(x.op, *z))
        return f(*[sl(t, axis, a, b, st) if isinstance(t, Node) and rank(t) else t for t in x.args])
    if x.op == 'arange' and st is ONE:
        lo = ZERO if a is NONE else a
        hi = x.args[0] if b is NONE else b
        return add(lo, arange(sub(hi, lo)))
    if x.op == 'ones' and st is ONE and s is not None:
        lo = ZERO if a is NONE else a
        hi = s[k] if b is NONE else b
        return mk('ones', mk('tup', *(s[:k] + (sub(hi, lo),) + s[k + 1:])))
    if x.op == 'T' and rank(x) == 2:
        return transpose(sl(x.args[0], num(1 - k), a, b, st))
    if x.op == 'asum' and len(x.args) == 2 and x.args[1] is not NONE and rank(x.args[0]) == 2 and k == 0:
        ax = int(x.args[1].args[0])
        return asum(sl(x.args[0], num(1 - ax), a, b, st), x.args[1])
    if x.op == 'sl' and x.args[1] is axis:
        _, _, a0, b0, st0 = x.args
        if st0 is ONE and st is ONE:
            lo0 = ZERO if a0 is NONE else a0
            if not isneg(lo0) and not (b is not NONE and isneg(b)) and not (a is not NONE and isneg(a)):
                na = add(lo0, ZERO if a is NONE else a)
                nb = b0 if b is NONE else add(lo0, b)
                return sl(x.args[0], axis, na, nb, ONE)
        m1 = num(-1)
        if st0 is m1 and st is m1 and (a0, b0, a, b) == (NONE,) * 4:
            return x.args[0]
    if x.op == 'cumsum' and r == 1 and st.op == 'num' and st.args[0] == -1 and a is NONE and b is NONE:
        v = x.args[0]
        if v.op == 'sl' and v.args[2] is NONE and v.args[3] is NONE and v.args[4] is st:
            v = v.args[0]
            return add(sub(asum(v), mk('cumsum', v, NONE)), v)
    if x.op == 'sl' and x.args[1].op == 'num' and x.args[1].args[0] > axis.args[0]:
        # canonical order: lower axis innermost
        return sl(sl(x.args[0], axis, a, b, st), x.args[1], x.args[2], x.args[3], x.args[4])
    return mk('sl', x, axis, a, b, st)


REB['sl'] = sl


def arange(n):
    if n.op == 'ite':
        return lift(arange, n)
    return mk('arange', n)


REB['arange'] = arange


def idx(x, i):
    if x.op == 'set' and x.args[0].op == 'lit':
        if len(x.args[0].args) == 1 and i in (ZERO, num(-1)):
            return x.args[0].args[0]
        return opaque('set order', x, i)
    if x.op == 'ite' or i.op == 'ite':
        return lift(idx, x, i)
    if i is TRUE or i is FALSE:
        i = ONE if i is TRUE else ZERO
    op = x.op
    if i.op == 'num' and i.args[0].denominator == 1:
        k = int(i.args[0])
        if op in ('lit', 'tup'):
            if -len(x.args) <= k < len(x.args):
                return x.args[k]
            return opaque('index out of range')
        if op == 'str' and -len(x.args[0]) <= k < len(x.args[0]):
            return mk('str', x.args[0][k])
        if op == 'scat' and x.args[0].op == 'str' and 0 <= k < len(x.args[0].args[0]):
            return mk('str', x.args[0].args[0][k])
        if op == 'cat' and k >= 0 and x.args[0].op == 'lit' and k < len(x.args[0].args):
            return x.args[0].args[k]
        if op == 'cat' and any(p.op == 'ite' for p in x.args):
            q = next(p for p in x.args if p.op == 'ite')
            n_ = x.args.index(q)
            return lift(lambda p: idx(cat(*x.args[:n_], p, *x.args[n_ + 1:]), i), q)
        if op == 'cat' and k < 0 and x.args[-1].op == 'lit' and -k <= len(x.args[-1].args):
            return x.args[-1].args[k]
        if op == 'shapeof':
            s = shape(x.args[0])
            if s is not None and -len(s) <= k < len(s):
                return s[k]
            return mk('dim', x.args[0], k)
        if op == 'sorted' and False:
            pass
        if k < 0 and (rank(x) or kind(x) == 'list') and op not in ('split',):
            i = add(flen(x), i)
    elif isneg(i) and (rank(x) or kind(x) == 'list'):
        i = add(flen(x), i)
    if op == 'cat' and rank(i) == 0 and is_int(i):
        if any(p.op == 'ite' for p in x.args):
            q = next(p for p in x.args if p.op == 'ite')
            n_ = x.args.index(q)
            return lift(lambda p: idx(cat(*x.args[:n_], p, *x.args[n_ + 1:]), i), q)
        at = i
        for p in x.args:
            if le(ZERO, at) is not TRUE:
                break
            if lt(at, flen(p)) is TRUE:
                return idx(p, at)
            at = sub(at, flen(p))
    r = rank(x)
    if op == 'poly' and r and all(rank(t) == 0 or rank(t) == r for t in x.kids):
        return _map_atoms(x, lambda t: idx(t, i) if rank(t) else t)
    if op in ('abs', 'exp', 'ln', 'conj', 'cast', 'rint', 'floor', 'isnan', 'anot') and rank(x.kids[0]) == r and r:
        f = REB.get(op) or (lambda *z: mk(op, *z))
        return f(*[idx(t, i) if isinstance(t, Node) and rank(t) else t for t in x.args])
    if op == 'acmp' and r == 1:
        o, p = x.args
        q = idx(p, i)
        return lt(q, ZERO) if o == '<' else le(q, ZERO) if o == '<=' else eq(q, ZERO) if o == '==' else bnot(eq(q, ZERO))
    if op == 'where' and r == 1:
        c = idx(x.args[0], i) if rank(x.args[0]) else x.args[0]
        return ite(as_bool(c), idx(x.args[1], i) if rank(x.args[1]) else x.args[1],
                   idx(x.args[2], i) if rank(x.args[2]) else x.args[2])
    if op in ('max2', 'min2') and r == 1:
        return REB[op](*[idx(t, i) if rank(t) else t for t in x.args])
    if op == 'arange':
        return i
    if op in ('nonzero', 'argwhere') and rank(x.args[0]) == 1:
        k = 'firstidx' if i is ZERO else 'lastidx' if add(i, ONE) is dim(x, 0) or i.op == 'num' and i.args[0] == -1 else None
        if k is not None:
            return mk(k, x.args[0]) if op == 'nonzero' else mk('arr', mk('lit', mk(k, x.args[0])))
    if op == 'expand' and x.args[1] is ZERO and i is ZERO:
        return x.args[0]
    if op == 'per':
        k = int(x.args[1].args[0])
        if k:
            return per(idx(x.args[0], i), num(k - 1), x.args[2])
        d = shape(x.args[0])
        if i is ZERO:
            return idx(x.args[0], i)
        if d is not None and d[0].op == 'num' and i.op == 'num':
            return idx(x.args[0], num(int(i.args[0]) % int(d[0].args[0])))
        if d is not None and d[0] is ONE:
            return idx(x.args[0], ZERO)
    if op == 'ones' and r == 1:
        return ONE
    if op == 'zeros' and r == 1:
        return ZERO
    if op in ('sl', 'slseq') and (op == 'slseq' or x.args[1] is ZERO) and not isneg(i):
        a, b, st = x.args[-3:]
        if st is ONE and not (a is not NONE and isneg(a)):
            return idx(x.args[0], add(ZERO if a is NONE else a, i))
        if st.op == 'num' and st.args[0] == -1 and a is NONE and b is NONE:
            return idx(x.args[0], sub(sub(flen(x.args[0]), ONE), i))
    if op == 'rev' and not isneg(i):
        return idx(x.args[0], sub(sub(flen(x.args[0]), ONE), i))
    if op == 'Map' and x.args[1].op == 'range':
        t, outer, inner = open_binder(x)
        return subst(inner[0], {t: i})
    if op == 'T' and rank(x) == 2:
        return mk('col', x.args[0], i)
    if op == 'list' or op == 'arr':
        return idx(x.args[0], i)
    if op == 'store':
        k = x.args[1]
        ks = k.args if k.op == 'tup' else (k,)
        k0 = ks[0]
        if k0.op not in ('slice',) and rank(k0) == 0 and kind(k0) == 'num':
            if k0 is i:
                inner = idx(x.args[0], i)
                if len(ks) == 1:
                    return x.args[2]
                return REB['store'](inner, ks[1] if len(ks) == 2 else mk('tup', *ks[1:]), x.args[2])
            if definitely_ne(k0, i) and not isneg(k0) and not isneg(i):
                return idx(x.args[0], i)
    return mk('idx', x, i)


REB['idx'] = idx
RANKF['col'] = lambda n: 1


# ---------------------------------------------------------------- sequences

LIT0 = mk('lit')


def cat(*parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            out.extend(p.args)
        elif p.op == 'lit' and not p.args:
            continue
        else:
            out.append(p)
    res = []
    for p in out:
        if res and p.op == 'lit' and res[-1].op == 'lit':
            res[-1] = mk('lit', *(res[-1].args + p.args))
        else:
            res.append(p)
    if not res:
        return LIT0
    if len(res) == 1:
        return res[0]
    return mk('cat', *res)


REB['cat'] = cat


def seq_parts(s):
    return list(s.args) if s.op == 'cat' else ([] if s is LIT0 else [s])


def flat_units(s):
    """parts with literals split into single-element units"""
    out = []
    for p in seq_parts(s):
        if p.op == 'lit':
            out.extend(mk('lit', x) for x in p.args)
        else:
            out.append(p)
    return out


def seq_ite(c, a, b):
    """conditional sequence with common prefix and suffix factored out"""
    if a is b:
        return a
    if c in (TRUE, FALSE):
        return a if c is TRUE else b
    ua, ub = flat_units(a), flat_units(b)
    pre = []
    while ua and ub and ua[0] is ub[0]:
        pre.append(ua.pop(0))
        ub.pop(0)
    post = []
    while ua and ub and ua[-1] is ub[-1]:
        post.insert(0, ua.pop())
        ub.pop()
    mid = ite(c, cat(*ua), cat(*ub))
    return cat(*(pre + [mid] + post))


def strip_prefix(s, t):
    """s = t ++ X  ->  X, following conditionals; None if not of that form"""
    if s is t:
        return LIT0
    if s.op == 'cat' and s.args[0] is t:
        return cat(*s.args[1:])
    if s.op == 'ite':
        a = strip_prefix(s.args[1], t)
        b = strip_prefix(s.args[2], t)
        if a is None or b is None:
            return None
        return seq_ite(batom(s.args[0]), a, b)
    if s.op == 'cat' and s.args[0].op == 'ite':
        a = strip_prefix(s.args[0], t)
        if a is not None:
            return cat(a, *s.args[1:])
    return None


def wrapvar(i, n, t):
    """t for 0 <= i < n: i // n is 0 there"""
    if i not in t.fs:
        return t
    q = mk('floor', mul(power(n, F(-1)), i))
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x is q:
            return replace(t, {q: ZERO})
        if i in x.fs and x not in seen:
            seen.add(x)
            stack.extend(x.kids)
    return t


def fmap(i, dom, body):
    """list of body(i) for i in dom"""
    if dom.op == 'range':
        body = wrapvar(i, dom.args[0], body)
    if dom.op == 'range' and dom.args[0].op == 'num':
        n = int(dom.args[0].args[0])
        if 0 <= n <= 64:
            return mk('lit', *[subst(body, {i: num(k)}) for k in range(n)])
    if body is idx_of(i, dom, body):
        pass
    # identity map over a sequence
    if body.op == 'idx' and body.args[1] is i and i not in body.args[0].fs and dom.op == 'range' and \
            flen(body.args[0]) is dom.args[0] and kind(body.args[0]) == 'list':
        return body.args[0]
    # the rest of a sequence
    if body.op == 'idx' and i not in body.args[0].fs and dom.op == 'range' and i in body.args[1].fs and \
            kind(body.args[0]) == 'list' and rank(body.args[0]) is None:
        a = sub(body.args[1], i)
        if a.op == 'num' and a.args[0] > 0 and sub(flen(body.args[0]), a) is dom.args[0]:
            return slseq(body.args[0], a, NONE, ONE)
    c = inv_cond(body, i)
    if c is not None:
        return ite(batom(c), fmap(i, dom, restrict(body, c, True)), fmap(i, dom, restrict(body, c, False)))
    return bind('Map', i, (dom,), (body,))


def idx_of(i, dom, body):
    return None


REBIND['Map'] = lambda t, outer, inner: fmap(t, outer[0], inner[0])


def inv_cond(body, *ts):
    """an atomic condition of a conditional body that does not involve the bound variables"""
    if body.op != 'ite':
        return None
    for c in conds(body):
        if not (c.fs & frozenset(ts)):
            return c
    return None


def fflatmap(i, dom, body):
    """concatenation of sequences body(i)"""
    if body is LIT0:
        return LIT0
    if dom.op == 'range' and dom.args[0].op == 'ite':
        return lift(lambda n: fflatmap(i, mk('range', n), body), dom.args[0])
    if dom.op == 'range' and dom.args[0].op == 'num' and 0 <= dom.args[0].args[0] <= 64:
        return cat(*[subst(body, {i: num(k)}) for k in range(int(dom.args[0].args[0]))])
    if body.op == 'lit' and len(body.args) == 1:
        return fmap(i, dom, body.args[0])
    c = inv_cond(body, i)
    if c is not None:
        return ite(batom(c), fflatmap(i, dom, restrict(body, c, True)),
                   fflatmap(i, dom, restrict(body, c, False)))
    if dom.op == 'range' and body.op == 'ite':
        c = onecond(body, LIT0)
        m = pointcond(i, dom.args[0], c) if c is not None else None
        if m is not None:
            return subst(body, {i: m})
    return bind('FlatMap', i, (dom,), (body,))


REBIND['FlatMap'] = lambda t, outer, inner: fflatmap(t, outer[0], inner[0])


def onecond(t, empty):
    """the condition under which t is not the empty value"""
    if t.op == 'ite' and (t.args[1].op == 'ite' or t.args[2].op == 'ite' or empty in t.args):
        a, b = onecond(t.args[1], empty), onecond(t.args[2], empty)
        return None if a is None or b is None else ite(batom(t.args[0]), a, b)
    return FALSE if t is empty else TRUE


def pointcond(i, k, cond):
    """cond holds for exactly one i in range(k): that index (None when unknown)"""
    if i not in cond.fs or i in k.fs:
        return None
    j = tmp('rev', True, 0)
    back = sub(sub(k, ONE), i)
    c = subst(subst(as_bool(cond), {i: sub(sub(k, ONE), j)}), {j: back})
    at = next((a for a in _tests(c) if a.op == 'lt0' and i in a.fs), None)
    if at is None:
        return None
    p = at.args[0]
    q = pdict(p).get(((i, F(1)),))
    if not q or abs(q) != 1:
        return None
    rest = sub(p, mul(num(q), i))
    if i in rest.fs:
        return None
    m = rest if q < 0 else neg(rest)
    for d in (0, -1, 1):
        x = add(m, num(d))
        if eq(i, x) is c and is_int(x):
            if le(ZERO, x) is TRUE and lt(x, k) is TRUE:
                return x
    return None


def _tests(c):
    if c.op == 'ite':
        yield c.args[0]
        yield from _tests(c.args[1])
        yield from _tests(c.args[2])


def fexists(i, dom, cond):
    if cond in (FALSE,):
        return FALSE
    if dom.op == 'range' and dom.args[0].op == 'num' and 0 <= dom.args[0].args[0] <= 64:
        r = FALSE
        for k in range(int(dom.args[0].args[0])):
            r = bor(r, subst(cond, {i: num(k)}))
        return r
    if i not in cond.fs:
        n = domlen(dom)
        return band(cond, lt(ZERO, n))
    c = inv_cond(cond, i)
    if c is not None:
        return ite(batom(c), fexists(i, dom, restrict(cond, c, True)), fexists(i, dom, restrict(cond, c, False)))
    # exists over a disjunction of two atomic tests stays as is; orientation normal form
    if dom.op == 'range':
        n = dom.args[0]
        alt = subst(cond, {i: sub(sub(n, ONE), i)})
        if (alt.size, ) < (cond.size, ):
            cond = alt
    return batom(bind('Exists', i, (dom,), (cond,)))


REBIND['Exists'] = lambda t, outer, inner: fexists(t, outer[0], as_bool(inner[0]))


def fsum(i, dom, body):
    """sum of body(i) over dom (body may be an array)"""
    if body is ZERO:
        return ZERO
    if dom.op == 'range' and dom.args[0].op == 'num' and 0 <= dom.args[0].args[0] <= 64:
        r = ZERO
        for k in range(int(dom.args[0].args[0])):
            r = add(r, subst(body, {i: num(k)}))
        return r
    if dom.op == 'range' and dom.args[0].op == 'ite':
        return lift(lambda n: fsum(i, mk('range', n), body), dom.args[0])
    if i not in body.fs:
        return mul(body, domlen(dom))
    c = inv_cond(body, i)
    if c is not None:
        return ite(batom(c), fsum(i, dom, restrict(body, c, True)), fsum(i, dom, restrict(body, c, False)))
    n = domlen(dom)
    if body.op == 'ite' and dom.op == 'range':
        # split on a threshold of the index:  i + k < 0 / i + k >= 0
        at, x, y = body.args
        if at.op == 'lt0':
            p = at.args[0]
            for s in (1, -1):
                k = sub(p, mul(num(s), i))
                if i not in k.fs:
                    # s*i + k < 0
                    if s == 1:
                        cut = neg(k)            # i < cut
                        if cut.op == 'num':
                            r = ZERO
                            m = max(0, int(cut.args[0]))
                            for q in range(m):
                                r = add(r, sub(subst(x, {i: num(q)}), subst(y, {i: num(q)})))
                            return add(r, fsum(i, dom, y))
                    else:
                        cut = add(k, ONE)       # i > k  <=> i >= k+1
                        if cut.op == 'num':
                            m = max(0, int(cut.args[0]))
                            r = ZERO
                            for q in range(m):
                                r = add(r, sub(subst(y, {i: num(q)}), subst(x, {i: num(q)})))
                            return add(r, fsum(i, dom, x))
    if body.op == 'poly':
        # linearity
        res = ZERO
        for m, c in body.args[0]:
            scal, rest = num(c), ONE
            for a, e in m:
                t = power(a, e) if a.op != 'poly' else _poly({((a, e),): F(1)})
                if i in a.fs:
                    rest = mul(rest, t)
                else:
                    scal = mul(scal, t)
            if rest.op == 'poly' and (len(rest.args[0]) > 1):
                res = add(res, mul(scal, fsum(i, dom, rest)))
            elif rest is ONE:
                res = add(res, mul(scal, n))
            else:
                res = add(res, mul(scal, _fsum1(i, dom, rest)))
        return res
    return _fsum1(i, dom, body)


def _offsets(body, i, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if i not in body.fs or body in seen:
        return acc
    seen.add(body)
    if body is i:
        acc.add(F(0))
        return acc
    if body.op == 'poly':
        # linear i + c used as an index
        k = sub(body, i)
        if i not in k.fs and k.op == 'num':
            acc.add(k.args[0])
            return acc
    for x in body.kids:
        _offsets(x, i, acc, seen)
    return acc


def _fsum1(i, dom, body):
    if dom.op != 'range':
        return bind('Sum', i, (dom,), (body,))
    n = dom.args[0]
    # orientation
    alt = subst(body, {i: sub(sub(n, ONE), i)})
    if alt.size < body.size:
        body = alt
    offs = _offsets(body, i)
    if offs:
        lo = min(offs)
        if lo != 0 and lo.denominator == 1 and abs(lo) <= 4:
            # sum_{i<n} g(i+lo) = sum_{j<n+lo} g(j) - sum_{j<lo} g(j)
            g = subst(body, {i: sub(i, num(lo))})
            r = fsum(i, mk('range', add(n, num(lo))), g)
            if lo > 0:
                for q in range(int(lo)):
                    r = sub(r, subst(g, {i: num(q)}))
            else:
                for q in range(int(lo), 0):
                    r = add(r, subst(g, {i: num(q)}))
            return r
    # range end n = m - c with c a small integer: complete to the full range
    if n.op == 'poly':
        c = pdict(n).get((), F(0))
        if c != 0 and c.denominator == 1 and abs(c) <= 4:
            m = sub(n, num(c))
            r = fsum(i, mk('range', m), body)
            if c < 0:
                for q in range(1, int(-c) + 1):
                    r = sub(r, subst(body, {i: sub(m, num(q))}))
            else:
                for q in range(int(c)):
                    r = add(r, subst(body, {i: add(m, num(q))}))
            return r
    return bind('Sum', i, (dom,), (body,))


REBIND['Sum'] = lambda t, outer, inner: fsum(t, outer[0], inner[0])
RANKF['Sum'] = lambda n: rank(n.args[2])
T.RANKF['Sum'] = RANKF['Sum']
RANKF['Exists'] = lambda n: 0


def _rank_sum_fix():
    # Sum may be array valued
    import types
    orig = T._rank1

    def r1(n):
        if n.op == 'Sum':
            return rank(n.args[2])
        return orig(n)
    T._rank1 = r1


_rank_sum_fix()
SHAPEF['Sum'] = lambda n: shape(n.args[2])


def ffirst(i, dom, cond):
    """least index/element for which cond holds (meaningful when one exists)"""
    return bind('First', i, (dom,), (cond,))


def funtil(i, dom, cond):
    """index of the first iteration with cond, or the number of iterations"""
    if cond is FALSE:
        return domlen(dom)
    if cond is TRUE:
        return ZERO
    return bind('until', i, (dom,), (cond,))


REBIND['until'] = lambda t, outer, inner: funtil(t, outer[0], as_bool(inner[0]))
RANKF['until'] = RANKF['First'] = lambda n: 0


# ---------------------------------------------------------------- dictionaries

DLIT0 = mk('dlit', ())


def dlit(pairs):
    """pairs: iterable of (key, value) terms with distinct constant keys"""
    d = {}
    for k, v in pairs:
        d[k] = v
    return mk('dlit', tuple(sorted(d.items(), key=lambda t: t[0].id)))


def definitely_ne(a, b):
    e = eq(a, b)
    return e is FALSE


def dput(c, k, v):
    if c.op == 'ite' or k.op == 'ite':
        return lift(lambda x, y: dput(x, y, v), c, k)
    if c.op == 'dlit' and is_constkey(k):
        d = dict(c.args[0])
        if all(is_constkey(x) for x in d):
            d[k] = v
            return dlit(d.items())
    if c.op == 'dlit' and not c.args[0]:
        return mk('dlit', ((k, v),))
    if c.op == 'dput' and c.args[1] is k:
        return dput(c.args[0], k, v)
    if c.op == 'dlit' and len(c.args[0]) == 1 and c.args[0][0][0] is k:
        return mk('dlit', ((k, v),))
    if c.op == 'dput' and definitely_ne(c.args[1], k) and k.id < c.args[1].id:
        return mk('dput', dput(c.args[0], k, v), c.args[1], c.args[2])
    return mk('dput', c, k, v)


def is_constkey(k):
    return k.op in ('str', 'num', 'none', 'true', 'false') or (k.op == 'tup' and all(is_constkey(x) for x in k.args))


REB['dput'] = dput


def _reb_dlit(pairs):
    r = DLIT0
    for k, v in pairs:
        r = dput(r, k, v)
    return r


REB['dlit'] = _reb_dlit


def dget(c, k):
    if c.op == 'ite' or k.op == 'ite':
        return lift(dget, c, k)
    if c.op == 'dlit':
        for kk, v in c.args[0]:
            if kk is k or eq(kk, k) is TRUE:
                return v
        if all(definitely_ne(kk, k) for kk, v in c.args[0]):
            return mk('missing', c, k)
    if c.op == 'dput':
        e = eq(c.args[1], k)
        if e is TRUE:
            return c.args[2]
        if e is FALSE:
            return dget(c.args[0], k)
        return ite(e, c.args[2], dget(c.args[0], k))
    if c.op == 'DMap':
        # key is the bound element of the same domain
        t, outer, inner = open_binder(c)
        dom, init = outer
        cond, kk, vv = inner
        if kk is t and dom.op == 'elems' and cond is TRUE and DKEYS.get(k) is dom:
            return subst(vv, {t: k})
        if outer[1] is DLIT0 and cond is TRUE and kk.op == 'idx' and kk.args[0].op in ('keys', 'sorted') and kk.args[1] is t:
            # one entry for each key of another container
            v2 = replace(vv, {kk: k})
            seen, stack = set(), [v2]
            while stack:
                n = stack.pop()
                if n not in seen:
                    seen.add(n)
                    stack.extend(n.kids)
            if t not in seen:
                return v2
    s = schema(c)
    if s is not None and s[0] == 'rec' and k.op == 'str' and k.args[0] not in s[1]:
        return mk('missing', c, k)
    return mk('get', c, k)


DKEYS = {}    # bound element -> domain it ranges over
REB['get'] = dget


def din(k, c):
    """k in container c"""
    if c.op == 'ite' or k.op == 'ite':
        return lift(din, k, c)
    if kind(c) == 'str' and k.op == 'str':
        from . import text
        r = text.contains(c, k.args[0])
        if r is not None:
            return r
    if c.op in ('lit', 'tup', 'set'):
        r = FALSE
        for x in c.args:
            r = bor(r, eq(k, x))
        return r
    if c.op in ('keys', 'list', 'sorted', 'rev'):
        return din(k, c.args[0])
    if c.op == 'dlit':
        r = FALSE
        for kk, v in c.args[0]:
            r = bor(r, eq(k, kk))
        return r
    if c.op == 'dput':
        return bor(eq(c.args[1], k), din(k, c.args[0]))
    s = schema(c)
    if s is not None and s[0] == 'rec' and k.op in ('str', 'num'):
        return TRUE if k.args[0] in s[1] else FALSE
    if c.op == 'setop':
        o, a, b = c.args
        x, y = din(k, a), din(k, b)
        return bor(x, y) if o == '|' else band(x, y) if o == '&' else band(x, bnot(y)) if o == '-' else \
            bor(band(x, bnot(y)), band(y, bnot(x)))
    if k.op in ('tmp', 'bv') and DKEYS.get(k) is not None and DKEYS[k].args[0] is keys(c):
        return TRUE
    if k.op == 'str' and c.op == 'str':
        return TRUE if k.args[0] in c.args[0] else FALSE
    if c.op == 'cat':
        r = FALSE
        for p in c.args:
            r = bor(r, din(k, p))
        return r
    return batom(mk('in', k, c))


REB['in'] = din


def keys(c):
    if c.op == 'ite':
        return lift(keys, c)
    if c.op == 'dlit':
        return mk('lit', *[k for k, v in c.args[0]])
    if c.op == 'DMap':
        t, outer, inner = open_binder(c)
        if inner[0] is TRUE and inner[1] is t and outer[1] is DLIT0 and outer[0].op == 'elems':
            return outer[0].args[0]
    if c.op == 'keys':
        return c
    return mk('keys', c)


REB['keys'] = keys


def dmap(t, dom, init, cond, k, v):
    if cond is FALSE:
        return init
    c = inv_cond(cond, t)
    return bind('DMap', t, (dom, init), (cond, k, v))


REBIND['DMap'] = lambda t, outer, inner: dmap(t, outer[0], outer[1], as_bool(inner[0]), inner[1], inner[2])


def truthy(x):
    if x in (TRUE, FALSE):
        return x
    if x.op == 'ite':
        return lift(truthy, x)
    k = kind(x)
    if k == 'num':
        r = rank(x)
        if r == 0:
            return bnot(eq0(x))
    if k == 'none':
        return FALSE
    if k in ('list', 'dict', 'tup'):
        if x.op in ('sorted', 'rev', 'keys', 'list'):
            return truthy(x.args[0])
        if x.op == 'cat' and all(known_list(y) for y in x.args):
            r = FALSE
            for y in x.args:
                r = bor(r, truthy(y))
            return r
        return bnot(eq0(flen(x))) if x.op != 'dput' else TRUE
    if k == 'str':
        if x.op == 'str':
            return TRUE if x.args[0] else FALSE
        return bnot(eq(x, const('')))
    if k == 'bool':
        return as_bool(x)
    if x.op in ('ref', 'class', 'func', 'bound', 'mod', 'ext', 'exc'):
        return TRUE
    if x.op == 'set' and x.args[0].op == 'lit':
        return TRUE if x.args[0].args else FALSE
    return batom(mk('b', x))


def known_list(y):
    return y.op == 'lit' or y.op == 'ite' and known_list(y.args[1]) and known_list(y.args[2])


REB['b'] = truthy


# ---------------------------------------------------------------- strings

def scat(*parts):
    out = []
    for p in parts:
        if p.op == 'ite':
            k = parts.index(p)
            return lift(lambda y: scat(*(parts[:k] + (y,) + parts[k + 1:])), p)
        if p.op == 'scat':
            out.extend(p.args)
        elif p.op == 'str' and not p.args[0]:
            continue
        else:
            out.append(p)
    res = []
    for p in out:
        if res and p.op == 'str' and res[-1].op == 'str':
            res[-1] = mk('str', res[-1].args[0] + p.args[0])
        else:
            res.append(p)
    if not res:
        return const('')
    if len(res) == 1 and kind(res[0]) == 'str':
        return res[0]
    return mk('scat', *res)


REB['scat'] = scat


def fmt(spec, x):
    if isinstance(spec, Node):
        if spec.op == 'str':
            spec = spec.args[0]
        else:
            return mk('fmtd', spec, x)
    if x.op == 'ite':
        return lift(lambda y: fmt(spec, y), x)
    if spec in ('', 's') and kind(x) == 'str':
        return x
    if spec in ('d', 'i') and x.op == 'num' and x.args[0].denominator == 1:
        return const(str(int(x.args[0])))
    if spec in ('', 's', 'd', 'i') and x.op == 'num' and x.args[0].denominator == 1:
        return const(str(int(x.args[0])))
    if spec in ('i',):
        spec = 'd'
    if spec == 's':
        spec = ''
    if spec == 'd' and is_int(x):
        spec = ''
    fx = spec[-1:] in ('f', 'F') and len(spec) >= 3 and spec[0] == '.' and spec[1:-1].isdigit()
    if fx and x.op == 'num':
        d = int(spec[1:-1])
        q = round(x.args[0] * 10 ** d)
        s = '%0*d' % (d + 1, abs(q))
        return const(('-' if q < 0 else '') + (s[:-d] + '.' + s[-d:] if d else s))
    if fx and x.op == 'roundn' and x.args[1].op == 'num' and x.args[1].args[0] == int(spec[1:-1]) and kind(x.args[0]) == 'num':
        x = x.args[0]           # printing rounds in the same way
    if spec == '' and x.op == 'num':
        r = repr(float(x.args[0]))
        if 'e' not in r and Fraction(r) == x.args[0]:
            return const(r)
    if spec == '' and x is NONE:
        return const('None')
    if spec == '' and x in (TRUE, FALSE):
        return const('True' if x is TRUE else 'False')
    return mk('fmt', spec, x)


REB['fmt'] = fmt
RANKF['fmt'] = RANKF['scat'] = lambda n: 0
