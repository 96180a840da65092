"""Hash-consed value terms and their algebra.

A term stands for the value an expression of the analysed program computes, as a
function of the program's inputs.  Smart constructors bring terms to a normal
form (exact rational Laurent polynomials over atoms, ordered decision diagrams
for conditional values, flattened sequences and strings), so that two pieces of
source that compute the same value by different routes get the same node.
Nothing here enumerates program paths, calls a solver or runs the program.
"""
from fractions import Fraction as F
import itertools
import math

_tab = {}
_next = itertools.count(1)


class Node:
    __slots__ = ('op', 'args', 'id', 'fs', 'h', 'opq', 'size', 'kids')

    def __repr__(self):
        return show(self)


def _collect(args, out):
    for a in args:
        if isinstance(a, Node):
            out.append(a)
        elif isinstance(a, tuple):
            _collect(a, out)


EMPTY = frozenset()
BINDERS = {}   # op -> (number of outer args); remaining args are inside the binder


def mk(op, *args):
    key = (op, args)
    n = _tab.get(key)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.args = args
    n.id = next(_next)
    kids = []
    _collect(args, kids)
    n.kids = tuple(kids)
    fs = EMPTY
    opq = EMPTY
    h = 0
    size = 1
    for k in kids:
        if k.fs:
            fs = fs | k.fs
        if k.opq:
            opq = opq | k.opq
        if k.h > h:
            h = k.h
        size += k.size
    if op in ('tmp', 'bv'):
        fs = frozenset((n,))
    elif op == 'opq':
        opq = opq | frozenset((args[0],))
    if op in BINDERS:
        # args[0] is the bound variable (or tuple of them)
        b = args[0]
        bs = b if isinstance(b, tuple) else (b,)
        inner = EMPTY
        outer = EMPTY
        ks = []
        _collect(args[1:1 + BINDERS[op]], ks)
        for k in ks:
            outer |= k.fs
        ks = []
        _collect(args[1 + BINDERS[op]:], ks)
        hh = 0
        for k in ks:
            inner |= k.fs
            hh = max(hh, k.h)
        fs = outer | (inner - frozenset(bs))
        h = max(h, max(x.args[0] for x in bs))
    n.fs = fs
    n.opq = opq
    n.h = h
    n.size = min(size, 10 ** 9)
    _tab[key] = n
    return n


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return mk('inf', 1 if x > 0 else -1)
        x = F(repr(x))
    return mk('num', F(x))


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float, F)):
        return num(v)
    if isinstance(v, str):
        return mk('str', v)
    if isinstance(v, bytes):
        return mk('bytes', v)
    if isinstance(v, tuple):
        return mk('tup', *[const(x) for x in v])
    if v is Ellipsis:
        return mk('ellipsis')
    raise TypeError(v)


NONE = mk('none')
TRUE = mk('true')
FALSE = mk('false')
NAN = mk('nan')
ZERO = num(0)
ONE = num(1)
PI = mk('pi')

_tmp = itertools.count(1)


def tmp(hint='x', integer=False, rank=0):
    return mk('tmp', next(_tmp), hint, integer, rank)


def sym(name, rank=None, shape=None, integer=False, kind=None, pos=False):
    """A program input. kind: 'num','str','list','dict','obj','bool' or None."""
    return mk('sym', name, rank, shape, integer, kind, pos)


def opaque(reason, *args):
    return mk('opq', reason, *args)


# ---------------------------------------------------------------- bound vars

def bind(op, tmps, outer, inner, extra=()):
    """Build binder node: op((bvs), outer..., inner...)."""
    single = isinstance(tmps, Node)
    ts = (tmps,) if single else tuple(tmps)
    h = 0
    ks = []
    _collect(inner, ks)
    for k in ks:
        h = max(h, k.h)
    for t in ts:
        pass
    h += 1
    bvs = tuple(mk('bv', h, i, t.args[2] if t.op == 'tmp' else t.args[2],
                   t.args[3] if t.op == 'tmp' else t.args[3])
                for i, t in enumerate(ts))
    m = dict(zip(ts, bvs))
    inner2 = subst_any(inner, m)
    # substitution may change heights (never upward for bv), so no iteration
    return mk(op, bvs[0] if single else bvs, *(tuple(outer) + tuple(inner2)))


def open_binder(n):
    """-> (tmps, outer, inner) with fresh temporaries for the bound variables."""
    b = n.args[0]
    single = isinstance(b, Node)
    bs = (b,) if single else b
    ts = tuple(tmp('b', x.args[2], x.args[3]) for x in bs)
    k = BINDERS[n.op]
    inner = subst_any(n.args[1 + k:], dict(zip(bs, ts)))
    return (ts[0] if single else ts), n.args[1:1 + k], inner


REB = {}     # op -> smart constructor used to rebuild after substitution


def subst_any(x, m):
    if isinstance(x, Node):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(subst_any(y, m) for y in x)
    return x


def replace(n, m):
    """replace arbitrary subterms (not only bound variables)"""
    memo = {}

    def has(n, seen):
        stack = [n]
        while stack:
            x = stack.pop()
            if x in m:
                return True
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.kids)
        return False
    clean = set()

    def go(n):
        if n in m:
            return m[n]
        if n in memo:
            return memo[n]
        if not n.kids or n in clean:
            return n
        s = set()
        if not has(n, s):
            clean.update(s)
            return n
        if n.op in BINDERS:
            ts, outer, inner = open_binder(n)
            r = rebind(n.op, ts, goa(outer), goa(inner))
        elif n.op == 'poly':
            r = ZERO
            for mono, c in n.args[0]:
                t = num(c)
                for a, e in mono:
                    t = mul(t, power(go(a), e))
                r = add(r, t)
        else:
            args = goa(n.args)
            f = REB.get(n.op)
            r = f(*args) if f else mk(n.op, *args)
        memo[n] = r
        return r

    def goa(x):
        if isinstance(x, Node):
            return go(x)
        if isinstance(x, tuple):
            return tuple(goa(y) for y in x)
        return x
    return go(n)


def zeros(n):
    """in the branch taken when an unknown is zero, the unknown replaced by zero"""
    memo = {}

    def go(n):
        if not n.kids:
            return n
        r = memo.get(n)
        if r is not None:
            return r
        if n.op in BINDERS:
            ts, outer, inner = open_binder(n)
            r = rebind(n.op, ts, goa(outer), goa(inner))
        elif n.op == 'ite':
            a = n.args[1]
            c = n.args[0]
            if c.op == 'eq0' and isinstance(c.args[0], Node) and c.args[0].op in ('sym', 'idx', 'tmp', 'bv') and rank(c.args[0]) == 0:
                a = replace(a, {c.args[0]: ZERO})
            r = (REB.get('ite') or ite)(go(c), go(a), go(n.args[2]))
        elif n.op == 'poly':
            r = n
        else:
            args = goa(n.args)
            f = REB.get(n.op)
            r = f(*args) if f else mk(n.op, *args)
        memo[n] = r
        return r

    def goa(x):
        if isinstance(x, Node):
            return go(x)
        if isinstance(x, tuple):
            return tuple(goa(y) for y in x)
        return x
    return go(n)


def subst(n, m, memo=None):
    if not m:
        return n
    keys = frozenset(m)
    memo = {} if memo is None else memo

    def go(n):
        if not (n.fs & keys):
            return n
        r = memo.get(n)
        if r is not None:
            return r
        if n in m:
            r = m[n]
        elif n.op in BINDERS:
            ts, outer, inner = open_binder(n)
            outer2 = goa(outer)
            inner2 = goa(inner)
            r = rebind(n.op, ts, outer2, inner2)
        elif n.op == 'poly':
            r = ZERO
            for mono, c in n.args[0]:
                t = num(c)
                for a, e in mono:
                    t = mul(t, power(go(a), e))
                r = add(r, t)
        else:
            args = goa(n.args)
            f = REB.get(n.op)
            r = f(*args) if f else mk(n.op, *args)
        memo[n] = r
        return r

    def goa(x):
        return tuple(go(y) if isinstance(y, Node) else goa(y) if isinstance(y, tuple) else y
                     for y in x)
    return go(n)


REBIND = {}


def rebind(op, ts, outer, inner):
    f = REBIND.get(op)
    if f:
        return f(ts, outer, inner)
    return bind(op, ts, outer, inner)


# ---------------------------------------------------------------- rank/shape

ELEMENTWISE = {'poly', 'abs', 'exp', 'ln', 'sin', 'cos', 'clip', 'rint', 'floor', 'ceil', 'cast',
               'max2', 'min2', 'where', 'lt0', 'eq0', 'not', 'conj', 'isnan', 'band', 'bor',
               'sqrtneg', 'mod', 'fdiv', 'trunc', 'round', 'real', 'imag'}

RANKF = {}
SHAPEF = {}


# ---------------------------------------------------------------- schemas of input data

# ('map', keys, values) | ('rec', {name: schema}) | ('list', elems) | ('str',) | ('num', rank, shape, integer)
SCHEMA = {}


def schema(n):
    op = n.op
    if op == 'sym':
        return SCHEMA.get(n) if SCHEMA else None
    if not SCHEMA:
        return None
    if op == 'get':
        s = schema(n.args[0])
        if s is None:
            return None
        if s[0] == 'map':
            return s[2]
        if s[0] == 'rec' and n.args[1].op == 'str':
            return s[1].get(n.args[1].args[0])
        return None
    if op == 'keys':
        s = schema(n.args[0])
        return ('list', s[1]) if s is not None and s[0] == 'map' else None
    if op in ('sorted', 'list', 'rev'):
        s = schema(n.args[0])
        return s if s is not None and s[0] == 'list' else None
    if op == 'idx':
        s = schema(n.args[0])
        return s[1] if s is not None and s[0] == 'list' else None
    if op == 'ite':
        a, b = schema(n.args[1]), schema(n.args[2])
        return a if a == b else None
    return None


def schema_kind(s):
    return {'map': 'dict', 'rec': 'dict', 'list': 'list', 'str': 'str', 'num': 'num'}.get(s[0])


def symdata(name, s):
    n = mk('sym', name, s[1] if s[0] == 'num' else None if s[0] != 'str' else 0, s[2] if s[0] == 'num' else None,
           s[3] if s[0] == 'num' else False, schema_kind(s), False)
    SCHEMA[n] = s
    return n


def rank(n):
    """0 scalar, k array, None unknown."""
    r = _rank.get(n)
    if r is None and n not in _rank:
        r = _rank1(n)
        _rank[n] = r
    return r


_rank = {}


def _rank1(n):
    op = n.op
    if op in ('num', 'nan', 'inf', 'pi', 'true', 'false', 'str', 'none', 'len', 'Sum', 'Exists'):
        return 0
    if op in ('tmp', 'bv'):
        return n.args[3]
    if op == 'sym':
        return n.args[1]
    if op == 'poly' or op in ELEMENTWISE:
        r = 0
        for k in n.kids:
            kr = rank(k)
            if kr is None:
                return None
            r = max(r, kr)
        return r
    if op == 'ite':
        a, b = rank(n.args[1]), rank(n.args[2])
        return a if a == b else (a if b is None and n.args[2].op in ('none',) else
                                 max(a, b) if None not in (a, b) else None)
    s = schema(n)
    if s is not None:
        return s[1] if s[0] == 'num' else 0 if s[0] == 'str' else None
    f = RANKF.get(op)
    if f:
        return f(n)
    return None


def shape(n):
    """tuple of dimension terms or None"""
    if n in _shape:
        return _shape[n]
    r = _shape1(n)
    _shape[n] = r
    return r


_shape = {}


def _shape1(n):
    op = n.op
    r = rank(n)
    if r == 0:
        return ()
    if op == 'sym' and n.args[2] is not None:
        return n.args[2]
    s = schema(n)
    if s is not None and s[0] == 'num' and s[2] is not None:
        return s[2]
    if op == 'poly' or op in ELEMENTWISE:
        best = None
        ones = False
        for k in n.kids:
            kr = rank(k)
            if kr and r is not None:
                s = shape(k)
                if s is not None and (kr == r or ONE in s or ones):
                    if kr < r and not ones:
                        continue
                    ones = ones or ONE in s
                    if best is None or kr == r and not ones and [x.id for x in s] < [x.id for x in best]:
                        best = s
        if not ones:
            return best
        # broadcasting of length-one axes
        out = [ONE] * r
        for k in n.kids:
            if rank(k):
                s = shape(k)
                if s is None:
                    return None
                for j, d in enumerate(reversed(s)):
                    o = out[r - 1 - j]
                    if o is ONE or d is not ONE and d.id < o.id:
                        out[r - 1 - j] = d
        return tuple(out)
    if op == 'ite':
        a, b = shape(n.args[1]), shape(n.args[2])
        return a if a == b else None
    f = SHAPEF.get(op)
    if f:
        s = f(n)
        if s is not None:
            return s
    if r:
        return tuple(mk('dim', n, i) for i in range(r))
    return None


def is_int(n):
    """value is known to be integer (scalars and integer arrays)"""
    op = n.op
    if op == 'num':
        return n.args[0].denominator == 1
    if op in ('len', 'dim', 'fdiv', 'floor', 'ceil', 'rint', 'trunc', 'lastidx', 'firstidx', 'macount',
              'count', 'npix'):
        return True
    if op in ('tmp', 'bv'):
        return n.args[2]
    if op == 'sym':
        return n.args[3]
    if op in ('get', 'idx'):
        s = schema(n)
        if s is not None and s[0] == 'num':
            return bool(s[3])
    if op == 'poly':
        for mono, c in n.args[0]:
            if c.denominator != 1:
                return False
            for a, e in mono:
                if e < 0 or e.denominator != 1 or not is_int(a):
                    return False
        return True
    if op == 'cast':
        return n.args[1].startswith(('int', 'uint'))
    if op in ('abs', 'asum', 'idx', 'sl', 'amax', 'amin', 'T', 'Sum', 'arange'):
        return all(is_int(k) for k in n.kids[:1]) if op != 'Sum' else is_int(n.kids[-1])
    if op == 'ite':
        return is_int(n.args[1]) and is_int(n.args[2])
    if op == 'exp' and n.args[0].op == 'poly' and len(n.args[0].args[0]) == 1:
        # integer to a nonnegative integer power
        (mono, c), = n.args[0].args[0]
        ls = [(a, e) for a, e in mono if a.op == 'ln']
        rest = [(a, e) for a, e in mono if a.op != 'ln']
        return len(ls) == 1 and ls[0][1] == 1 and ls[0][0].args[0].op == 'num' and is_int(ls[0][0].args[0]) and c > 0 \
            and c.denominator == 1 and all(e > 0 and e.denominator == 1 and is_int(a) and a.op == 'sym' and a.args[-1] is True
                                           for a, e in rest)
    return False


# ---------------------------------------------------------------- polynomials

def _poly(d):
    """dict mono->coef -> node"""
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    terms = tuple(sorted(d.items(), key=lambda t: tuple((a.id, e) for a, e in t[0])))
    return mk('poly', terms)


def pdict(n):
    if n.op == 'num':
        return {(): n.args[0]} if n.args[0] else {}
    if n.op == 'poly':
        return dict(n.args[0])
    if n is TRUE:
        return {(): F(1)}
    if n is FALSE:
        return {}
    return {((n, F(1)),): F(1)}


LIFT_LIMIT = 400


def has_ite(n):
    return n.op == 'ite'


def leaves(n, seen=None):
    if n.op != 'ite':
        return 1
    seen = {} if seen is None else seen
    if n in seen:
        return seen[n]
    r = leaves(n.args[1], seen) + leaves(n.args[2], seen)
    seen[n] = r
    return r


def lift(f, *args):
    """apply f to the leaves of conditional (rank-0 condition) arguments"""
    top = None
    for a in args:
        if isinstance(a, Node) and a.op == 'ite':
            c = a.args[0]
            if top is None or c.id < top.id:
                top = c
    if top is None:
        return f(*args)
    a1 = [restrict(a, top, True) if isinstance(a, Node) else a for a in args]
    a0 = [restrict(a, top, False) if isinstance(a, Node) else a for a in args]
    return ite(top, lift(f, *a1), lift(f, *a0))


def add(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return lift(add, a, b)
    if a is NAN or b is NAN:
        return NAN
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == 'zeros' or b.op == 'zeros':
        r = _addzeros(a, b) if a.op == 'zeros' else _addzeros(b, a)
        if r is not None:
            return r
    d = dict(pdict(a))
    for m, c in pdict(b).items():
        d[m] = d.get(m, 0) + c
    d = _drop_ones(d)
    return _poly(d)


def _drop_ones(d):
    """ones(s) as the only array factor of a term is implied by another term of that shape"""
    os_ = {a for m in d for a, e in m if a.op == 'ones'}
    for o in os_:
        if o.args[0].op != 'tup':
            continue
        s = o.args[0].args
        only, other = [], False
        for m, c in d.items():
            if not c:
                continue
            arrs = [a for a, e in m if rank(a) != 0]
            if arrs == [o]:
                only.append(m)
            elif any(rank(a) is not None and suffix(s, shape(a)) for a in arrs):
                other = True
        if other and only:
            d = dict(d)
            for m in only:
                c = d.pop(m)
                m2 = tuple((a, e) for a, e in m if a is not o)
                d[m2] = d.get(m2, 0) + c
    return d


def _addzeros(z, x):
    """zeros of a known shape plus x: x broadcast to that shape"""
    if z.args[0].op != 'tup':
        return None
    r, n = rank(x), len(z.args[0].args)
    if r is None or r > n:
        return x if r is not None and suffix(z.args[0].args, shape(x)) else None
    if r == n:
        s = shape(x)
        return x if s is not None and all(p is q for p, q in zip(s, z.args[0].args)) else None
    return mul(x, mk('ones', z.args[0]))


def suffix(s, t):
    """is the shape s a trailing part of shape t?"""
    return t is not None and len(s) <= len(t) and all(p is q for p, q in zip(s[::-1], t[::-1]))


def _absorb_ones(factors):
    os_ = [a for a in factors if a.op == 'ones']
    if len(factors) == 1:
        a = os_[0]
        factors[a] = F(1)
        return
    for a in os_:
        if a.args[0].op != 'tup':
            continue
        factors[a] = F(1)
        for b in factors:
            if b is not a and rank(b) != 0 and suffix(a.args[0].args, shape(b)) \
                    and (b.op != 'ones' or len(shape(b)) > len(a.args[0].args)):
                del factors[a]
                break


def _fix_mono(factors):
    """factors: dict atom->exp ; returns (coef, mono) after combining special atoms, or a Node
    when the result is no longer a monomial"""
    coef = F(1)
    exps = None
    extra = []
    for a in factors:
        if a.op == 'ones':
            for b, e in list(factors.items()):
                if e == 0:
                    del factors[b]
            if a in factors:
                _absorb_ones(factors)
            break
    for a, e in list(factors.items()):
        if e == 0:
            del factors[a]
            continue
        if a.op == 'exp':
            exps = add(exps, mul(num(e), a.args[0])) if exps is not None else mul(num(e), a.args[0])
            del factors[a]
        elif a.op == 'abs' and e.denominator == 1 and e % 2 == 0 and not is_complex(a.args[0]):
            del factors[a]
            extra.append(power(a.args[0], e))
        elif a.op == 'num':
            # rational constant to a fractional power
            q = a.args[0]
            if e.denominator == 1:
                coef *= q ** int(e)
                del factors[a]
            else:
                k = e.numerator // e.denominator
                if k != 0:
                    coef *= q ** int(k)
                    factors[a] = e - k
        elif a.op == 'imag' and e.denominator == 1 and e >= 2:
            z = a.args[0]
            del factors[a]
            if e % 2:
                factors[a] = F(1)
            sq = sub(_poly({((mk('abs', z), F(2)),): F(1)}), _poly({((mk('real', z), F(2)),): F(1)}))
            extra.append(power(sq, F(e // 2)))
        elif a.op == 'conj' and a.args[0] in factors:
            z = a.args[0]
            e2 = factors[z]
            k = min(e, e2)
            if k > 0:
                for x in (a, z):
                    factors[x] -= k
                    if factors[x] == 0:
                        del factors[x]
                extra.append(('abs2', z, k))
        elif a.op == 'poly' and e.denominator == 1 and 0 < e <= 4:
            del factors[a]
            extra.append(power(a, e))
    if exps is not None and exps is not ZERO:
        if exps.op == 'ite':
            extra.append(fexp(exps))
        else:
            factors[mk('exp', exps)] = F(1)
    for x in [y for y in extra if isinstance(y, tuple)]:
        extra.remove(x)
        z = mk('abs', x[1])
        factors[z] = factors.get(z, F(0)) + 2 * x[2]
    mono = tuple(sorted(factors.items(), key=lambda t: t[0].id))
    return coef, mono, extra


def mul(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return lift(mul, a, b)
    if a is NAN or b is NAN:
        return NAN
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b if b not in (TRUE,) else ONE
    if b is ONE:
        return a
    for z, x in ((a, b), (b, a)):
        if z.op == 'zeros' and z.args[0].op == 'tup':
            r = rank(x)
            if r == 0 or r is not None and suffix(shape(x) or (None,), z.args[0].args):
                return z
    d = {}
    extras = []
    for m1, c1 in pdict(a).items():
        for m2, c2 in pdict(b).items():
            f = dict(m1)
            for x, e in m2:
                f[x] = f.get(x, F(0)) + e
            c, m, ex = _fix_mono(f)
            if ex:
                t = _poly({m: c * c1 * c2})
                for y in ex:
                    t = mul(t, y)
                extras.append(t)
            else:
                d[m] = d.get(m, 0) + c * c1 * c2
    r = _poly(d)
    for t in extras:
        r = add(r, t)
    return r


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, power(b, F(-1)))


def _root(q, e):
    """exact rational q**e or None"""
    if q < 0:
        return None
    n, d = q.numerator, q.denominator
    k = e.denominator

    def iroot(x):
        r = round(x ** (1.0 / k))
        for y in (r - 1, r, r + 1):
            if y >= 0 and y ** k == x:
                return y
        return None
    a, b = iroot(n), iroot(d)
    if a is None or b is None:
        return None
    return F(a, b) ** e.numerator if (e.numerator >= 0 or a) else None


def content(d):
    """(rational content>0, monomial factor dict) common to all monomials"""
    import math
    cs = list(d.values())
    g = F(math.gcd(*[abs(c.numerator) for c in cs]), 1)
    l = 1
    for c in cs:
        l = l * c.denominator // math.gcd(l, c.denominator)
    q = g / l
    monos = list(d)
    common = dict(monos[0])
    for m in monos[1:]:
        mm = dict(m)
        for a in list(common):
            if a in mm:
                # common factor with the smaller exponent (same sign only)
                common[a] = min(common[a], mm[a])
            else:
                del common[a]
    # atoms missing in some monomial but with negative exponent elsewhere
    allatoms = {a for m in monos for a, e in m}
    for a in allatoms:
        es = [dict(m).get(a, F(0)) for m in monos]
        mn = min(es)
        if mn < 0:
            common[a] = mn
    return q, {a: e for a, e in common.items() if e != 0}


def power(a, e):
    if isinstance(e, int):
        e = F(e)
    if a.op == 'ite':
        return lift(lambda x: power(x, e), a)
    if e == 0:
        return ONE
    if e == 1:
        return a
    if a is NAN:
        return NAN
    if a is TRUE:
        return ONE
    if a.op == 'num':
        q = a.args[0]
        if e.denominator == 1:
            if q == 0:
                return ZERO if e > 0 else mk('inf', 1)
            return mk('num', q ** int(e))
        if q == 0:
            return ZERO if e > 0 else mk('inf', 1)
        r = _root(q, e)
        if r is not None:
            return mk('num', r)
        if q < 0:
            return NAN
        c, m, ex = _fix_mono({a: e})
        return _poly({m: c})
    d = pdict(a)
    if len(d) == 1:
        (m, c), = d.items()
        if c < 0 and e.denominator != 1:
            return _poly({((mk('poly', ((m, c),)), e),): F(1)}) if True else None
        r = power(mk('num', c), e)
        f = {}
        for x, ex in m:
            ne = ex * e
            if e.denominator % 2 == 0 and ex.denominator == 1 and ex % 2 == 0 \
                    and ne.denominator == 1 and ne % 2 == 1 and not is_pos(x):
                x = fabs(x)
                if x.op != 'abs':
                    r = mul(r, power(x, ne))
                    continue
            f[x] = f.get(x, F(0)) + ne
        cc, mm, extra = _fix_mono(f)
        r = mul(r, _poly({mm: cc}))
        for y in extra:
            r = mul(r, y)
        return r
    if e.denominator == 1 and 1 < e <= 4:
        r = a
        for _ in range(int(e) - 1):
            r = mul(r, a)
        return r
    # composite base: take out content, make the leading coefficient positive for integer powers
    q, common = content(d)
    prim = {}
    for m, c in d.items():
        f = dict(m)
        for x, ex in common.items():
            f[x] = f.get(x, F(0)) - ex
        mm = tuple(sorted(((x, y) for x, y in f.items() if y != 0), key=lambda t: t[0].id))
        prim[mm] = c / q
    base = _poly(prim)
    sign = F(1)
    if e.denominator == 1 and base.op == 'poly':
        if base.args[0][0][1] < 0:
            base = neg(base)
            sign = F(-1) ** int(e)
    r = mul(num(sign), power(mk('num', q), e))
    for x, ex in common.items():
        r = mul(r, power(x, ex * e))
    if base.op == 'poly' and len(base.args[0]) in (3, 4, 5, 6, 9, 10) and (e < 0 or e.denominator == 2):
        root = polysqrt(base)
        if root is not None:
            if e.denominator == 1:
                return mul(r, power(root, 2 * e))
            if e == F(1, 2):
                return mul(r, fabs(root))
            return mul(r, power(fabs(root), 2 * e))
        if e.denominator == 1:
            root = polysqrt(neg(base))
            if root is not None:
                return mul(mul(r, num(F(-1) ** int(e))), power(root, 2 * e))
    if base.op == 'poly' and len(base.args[0]) > 1:
        return mul(r, _poly({((base, e),): F(1)}))
    return mul(r, power(base, e))


def _mkey(m):
    """a monomial order compatible with multiplication (lexicographic on atom ids)"""
    return tuple((-a.id, e) for a, e in m)


def _lead(d):
    best = None
    for m in d:
        if best is None or _mgt(m, best):
            best = m
    return best


def _mgt(m1, m2):
    """lexicographic: compare the exponents of the atoms in increasing id order"""
    d1, d2 = dict(m1), dict(m2)
    for a in sorted(set(d1) | set(d2), key=lambda t: t.id):
        e1, e2 = d1.get(a, 0), d2.get(a, 0)
        if e1 != e2:
            return e1 > e2
    return False


def _mdiv(m1, m2):
    """monomial quotient, exponents may go negative"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, F(0)) - e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda t: t[0].id))


_sqrtmemo = {}


def polysqrt(p):
    """polynomial q with q*q == p (up to sign), or None"""
    if p in _sqrtmemo:
        return _sqrtmemo[p]
    _sqrtmemo[p] = None
    d = pdict(p)
    if any(e < 0 or e.denominator != 1 for m in d for a, e in m):
        return None
    lm = _lead(d)
    c = _root(d[lm], F(1, 2))
    if c is None or any(e % 2 for a, e in lm):
        return None
    hm = tuple((a, e / 2) for a, e in lm)
    q = {hm: c}
    for _ in range(12):
        qq = _poly(dict(q))
        r = sub(p, mul(qq, qq))
        if r is ZERO:
            _sqrtmemo[p] = qq
            return qq
        rd = pdict(r)
        l = _lead(rd)
        t = _mdiv(l, hm)
        if any(e < 0 or e.denominator != 1 for a, e in t) or t in q:
            return None
        q[t] = rd[l] / (2 * c)
    return None


def divmod_poly(n, p):
    """(quotient, remainder) of n by the polynomial p with respect to its leading monomial"""
    pd = pdict(p)
    lm = _lead(pd)
    lc = pd[lm]
    q, rem = ZERO, n
    for _ in range(40):
        for m, c in pdict(rem).items():
            dm = dict(m)
            if all(dm.get(a, 0) >= e for a, e in lm):
                break
        else:
            return q, rem
        t = _poly({_mdiv(m, lm): c / lc})
        q = add(q, t)
        rem = sub(rem, mul(t, p))
    return ZERO, n


def ratnorm(x):
    """canonical expansion of a sum with respect to the negative powers of composite denominators:
    every coefficient of P**-k is reduced modulo P"""
    if x.op != 'poly':
        return x
    for _ in range(12):
        d = pdict(x)
        dens = sorted({(a, e) for m in d for a, e in m if a.op == 'poly' and e < 0}, key=lambda t: (t[1], t[0].id))
        changed = False
        for P, e in dens:
            coef = {}
            rest = {}
            for m, c in d.items():
                dm = dict(m)
                if dm.get(P) == e:
                    del dm[P]
                    coef[tuple(sorted(dm.items(), key=lambda t: t[0].id))] = c
                else:
                    rest[m] = c
            if len(coef) < 2 and len(P.args[0]) > 1 and not any(
                    all(dict(m).get(a, 0) >= ee for a, ee in _lead(pdict(P))) for m in coef):
                continue
            q, r = divmod_poly(_poly(coef), P)
            if q is ZERO:
                continue
            x = add(add(_poly(rest), mul(r, _poly({((P, e),): F(1)}))), mul(q, power(P, e + 1)))
            changed = True
            break
        if not changed or x.op != 'poly':
            return x
    return x


def is_pos(n):
    if n.op == 'sym':
        return n.args[5]
    if n.op in ('len', 'dim', 'pi'):
        return True
    if n.op == 'num':
        return n.args[0] > 0
    return False


def is_complex(n):
    if n.op in ('fft', 'conj'):
        return True
    if n.op in ('abs', 'lt0', 'eq0', 'real', 'imag', 'asum', 'num', 'sym'):
        return n.op == 'asum' and is_complex(n.args[0])
    if n.op in ('poly', 'sl', 'T', 'idx', 'ite'):
        return any(is_complex(k) for k in n.kids)
    return False


def fconj(z):
    if z.op == 'ite':
        return lift(fconj, z)
    if not is_complex(z):
        return z
    if z.op == 'conj':
        return z.args[0]
    if z.op == 'poly':
        r = ZERO
        for m, c in z.args[0]:
            t = num(c)
            for a, e in m:
                t = mul(t, power(fconj(a), e))
            r = add(r, t)
        return r
    return mk('conj', z)


def freal(z):
    if z.op == 'ite':
        return lift(freal, z)
    if not is_complex(z):
        return z
    return mk('real', z)


def fimag(z):
    if z.op == 'ite':
        return lift(fimag, z)
    if not is_complex(z):
        return ZERO
    return mk('imag', z)


def fabs(x):
    if x.op == 'ite':
        return lift(fabs, x)
    if x.op == 'num':
        return num(abs(x.args[0]))
    if x.op in ('abs', 'len') or is_pos(x):
        return x
    d = pdict(x)
    if len(d) == 1:
        (m, c), = d.items()
        r = num(abs(c))
        for a, e in m:
            if e.denominator == 1 and e % 2 == 0 and not is_complex(a):
                r = mul(r, power(a, e))
            elif a.op == 'poly':
                r = mul(r, power(fabs(a), e))
            elif is_pos(a) or a.op in ('abs', 'len'):
                r = mul(r, power(a, e))
            else:
                r = mul(r, _poly({((mk('abs', a), e),): F(1)})) if not (e.denominator == 1 and e % 2 == 0) \
                    else mul(r, _poly({((mk('abs', a), e),): F(1)}))
        return r
    q, common = content(d)
    lead = x.args[0][0][1]
    if lead < 0:
        x = neg(x)
    return mul(num(q), mk('abs', mul(num(1 / q), x)))


def fexp(x):
    if x.op == 'ite':
        return lift(fexp, x)
    if x is ZERO:
        return ONE
    # exp(c*ln(a)) -> a^c
    d = pdict(x)
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) == 1 and m[0][0].op == 'ln' and m[0][1] == 1:
            return power(m[0][0].args[0], c)
    return mk('exp', x)


def fln(x):
    if x.op == 'ite':
        return lift(fln, x)
    if x is ONE:
        return ZERO
    if x.op == 'num':
        q = x.args[0]
        if q > 0 and q.denominator == 1:
            n = q.numerator
            for k in range(2, 40):
                r = round(n ** (1.0 / k))
                if r >= 2 and r ** k == n:
                    return mul(num(k), fln(num(r)))
            return mk('ln', x)
        if q > 0:
            return sub(fln(num(q.numerator)), fln(num(q.denominator)))
        return mk('ln', x)
    if x.op == 'exp':
        return x.args[0]
    d = pdict(x)
    if len(d) == 1:
        (m, c), = d.items()
        if (len(m) > 1 or m[0][1] != 1 or c != 1) and c > 0:
            r = fln(num(c))
            for a, e in m:
                r = add(r, mul(num(e), fln(a)))
            return r
    return mk('ln', x)


def fpow(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return lift(fpow, a, b)
    if b.op == 'num':
        return power(a, b.args[0])
    return fexp(mul(b, fln(a)))


REB.update({'abs': fabs, 'exp': fexp, 'ln': fln, 'conj': fconj, 'real': freal, 'imag': fimag})


# ---------------------------------------------------------------- conditions

def _canon_cmp(p):
    """(positive scaling) normal form of polynomial p for sign tests"""
    d = pdict(p)
    q, common = content(d)
    keep = {}
    for a, e in common.items():
        if is_pos(a) or (e.denominator == 1 and e % 2 == 0 and False):
            keep[a] = e
    if q != 1 or keep:
        p = mul(p, num(1 / q))
        for a, e in keep.items():
            p = mul(p, power(a, -e))
    return p


def lt0(p):
    """p < 0"""
    if p.op == 'ite':
        return lift(lt0, p)
    if p.op == 'num':
        return TRUE if p.args[0] < 0 else FALSE
    if p is NAN:
        return FALSE
    if p.op == 'inf':
        return TRUE if p.args[0] < 0 else FALSE
    p = _canon_cmp(p)
    if p.op == 'num':
        return TRUE if p.args[0] < 0 else FALSE
    if is_int(p) and rank(p) == 0:
        # integer: p < 0  <=>  not (p > -1) <=> not (-p-1 < 0); orient on the leading sign
        d = {m: c for m, c in pdict(p).items() if m}
        if d:
            lead = min(d.items(), key=lambda t: tuple((a.id, e) for a, e in t[0]))[1]
            const_ = pdict(p).get((), F(0))
            # lower bounds of nonnegative quantities
            body = _poly(d)
            if lead < 0:
                return bnot(lt0(sub(neg(p), num(1)))) if True else None
            lo = lower(body)
            if lo is not None and lo + const_ >= 0:
                return FALSE
            up = upper(body)
            if up is not None and up + const_ < 0:
                return TRUE
    return batom(mk('lt0', p))


def lower(n):
    """a constant lower bound for integer/real n, or None"""
    if n.op == 'num':
        return n.args[0]
    if n.op in ('len', 'dim', 'npix', 'macount', 'count', 'firstidx', 'lastidx'):
        return F(1) if n.op == 'dim' else F(0)
    if n.op == 'abs':
        return F(0)
    if n.op == 'sym' and n.args[5]:
        return F(1) if n.args[3] else F(0)
    if n.op == 'exp' and is_int(n) and n.args[0].op == 'poly':
        (m, c), = n.args[0].args[0]
        return F([a for a, e in m if a.op == 'ln'][0].args[0].args[0]) ** int(c) if c.denominator == 1 else None
    if n.op in ('tmp', 'bv') and n.args[2]:
        return F(0)
    if n.op in ('floor', 'rint'):
        l = lower(n.args[0])
        return None if l is None else F(l.numerator // l.denominator)
    if n.op == 'poly':
        if any(a.op == 'floor' for m, c in n.args[0] for a, e in m):
            r = _unfloor(n)
            if r is None:
                return None
            l = lower(r)
            if l is not None and is_int(n):
                l = F(-((-l.numerator) // l.denominator))
            return l
        t = F(0)
        for m, c in n.args[0]:
            if not m:
                t += c
                continue
            l = F(1)
            for a, e in m:
                la = lower(a)
                if la is None or la < 0 or e < 0:
                    return None
                l *= la ** int(e) if e.denominator == 1 else 0
            if c < 0:
                return None
            t += c * l
        return t
    return None


def _unfloor(n):
    """a lower bound of the polynomial without the floors that occur linearly"""
    r = ZERO
    for m, c in n.args[0]:
        t = num(c)
        for a, e in m:
            if a.op != 'floor':
                t = mul(t, power(a, e))
                continue
            if len(m) != 1 or e != 1:
                return None
            y = a.args[0]
            if c > 0:
                q = 1
                for mm, k in pdict(y).items():
                    q = None if q is None or not all(is_int(x) and f.denominator == 1 and f > 0 for x, f in mm) else \
                        q * k.denominator // math.gcd(q, k.denominator)
                y = sub(y, ONE if q is None else num(F(q - 1, q)))
            t = mul(t, y)
        r = add(r, t)
    return r


def upper(n):
    if n.op == 'num':
        return n.args[0]
    if n.op == 'poly':
        l = lower(neg(n))
        return None if l is None else -l
    return None


def batom(a):
    return mk('ite', a, TRUE, FALSE) if a not in (TRUE, FALSE) else a


def eq0(p):
    if p.op == 'ite':
        return lift(eq0, p)
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    if p is NAN:
        return FALSE
    d = pdict(p)
    q, common = content(d)
    p = mul(p, num(1 / q))
    if p.op == 'poly' and p.args[0][0][1] < 0:
        p = neg(p)
    if is_int(p) and rank(p) == 0:
        # p == 0  <=>  not p<0 and not p>0
        return band(bnot(lt0(p)), bnot(lt0(neg(p))))
    if p.op in ('sym', 'poly') and rank(p) == 0 and (lt0(p) is TRUE or lt0(neg(p)) is TRUE):
        return FALSE
    if p.op in ('float', 'roundn') or p.op == 'poly' and len(p.args[0]) == 2 and \
            all(a.op in ('float', 'roundn') for m, c in p.args[0] for a, e in m):
        from . import text
        if text.unequal(p):
            return FALSE
    return batom(mk('eq0', p))


def bvar(n):
    """truth value of an arbitrary (boolean) term"""
    if n in (TRUE, FALSE):
        return n
    if n.op == 'ite':
        return lift(bvar, n)
    if n.op == 'num':
        return TRUE if n.args[0] else FALSE
    if n.op == 'none':
        return FALSE
    if n.op == 'str':
        return TRUE if n.args[0] else FALSE
    if n.op in ('lt0', 'eq0', 'eq', 'isnone', 'in', 'b', 'Exists', 'isinst', 'isnan', 'isfile',
                'startswith', 'truthy'):
        return batom(n)
    if n.op in ('sym', 'poly') and kind(n) == 'num' and rank(n) == 0:
        return bnot(eq0(n))
    if n.op in ('scat', 'sym', 'fmt'):
        from . import text
        if text.nonempty(n):
            return TRUE
    return batom(mk('b', n))


def _implied(atom, given, val):
    """truth of atom when `given` is known to be val: True/False/None"""
    if atom is given:
        return val
    if atom.op in ('lt0', 'eq0') and given.op in ('lt0', 'eq0'):
        p, q = atom.args[0], given.args[0]
        # p = s*q + c ?
        for s in (1, -1):
            diff = sub(p, q) if s == 1 else add(p, q)
            if diff.op != 'num':
                continue
            c = diff.args[0]
            # p = s*q + c
            lo, hi = None, None     # bounds of q from given (strict flags)
            if given.op == 'lt0':
                if val:
                    hi = (F(0), True)
                else:
                    lo = (F(0), False)
            else:
                if val:
                    lo = hi = (F(0), False)
                else:
                    if atom.op == 'lt0':
                        return None
                    return False if c == 0 else None
            if s == -1:
                lo, hi = (None if hi is None else (-hi[0], hi[1])), (None if lo is None else (-lo[0], lo[1]))
            if lo is not None:
                lo = (lo[0] + c, lo[1])
            if hi is not None:
                hi = (hi[0] + c, hi[1])
            if atom.op == 'lt0':
                if hi is not None and (hi[0] < 0 or (hi[0] == 0 and hi[1])):
                    return True
                if lo is not None and lo[0] >= 0:
                    return False
            else:
                if hi is not None and (hi[0] < 0 or (hi[0] == 0 and hi[1])):
                    return False
                if lo is not None and (lo[0] > 0 or (lo[0] == 0 and lo[1])):
                    return False
                if lo == hi and lo is not None and lo[0] == 0:
                    return True
    if atom.op == 'eq' and given.op == 'eq' and val:
        # x == const1 implies x != const2
        a, b = set(atom.args), set(given.args)
        common = a & b
        if len(common) == 1:
            x, y = (a - common), (b - common)
            if x and y:
                x, y = x.pop(), y.pop()
                if x.op in CONSTS and y.op in CONSTS:
                    return False
    if atom.op == 'eq' and given.op == 'isnone' and val and given.args[0] in atom.args:
        o = [x for x in atom.args if x is not given.args[0]]
        if o and o[0].op in ('str', 'num'):
            return False
    if given.op == 'eq' and val and atom.op in ('isnone', 'b') and atom.args[0] in given.args:
        o = [x for x in given.args if x is not atom.args[0]]
        if o and o[0].op in ('str', 'num'):
            return False if atom.op == 'isnone' else bool(o[0].args[0])
    if atom.op == 'b' and given.op == 'isnone' and atom.args[0] is given.args[0] and val:
        return False
    if atom.op == 'isnone' and given.op == 'b' and atom.args[0] is given.args[0] and val:
        return False
    return None


CONSTS = {'str', 'num', 'none', 'true', 'false', 'bytes', 'type', 'func', 'dtype', 'class', 'modfn'}


def restrict(n, atom, val, memo=None):
    if n.op != 'ite':
        return n
    memo = {} if memo is None else memo
    r = memo.get(n)
    if r is not None:
        return r
    c, a, b = n.args
    t = _implied(c, atom, val)
    if t is True:
        r = restrict(a, atom, val, memo)
    elif t is False:
        r = restrict(b, atom, val, memo)
    else:
        a2 = restrict(a, atom, val, memo)
        b2 = restrict(b, atom, val, memo)
        r = n if (a2 is a and b2 is b) else (a2 if a2 is b2 else _ite_atom(c, a2, b2))
    memo[n] = r
    return r


def _top(n):
    return n.args[0] if n.op == 'ite' else None


def _ite_atom(c, a, b):
    """c atom; a, b arbitrary diagrams; returns ordered reduced diagram"""
    if a is b:
        return a
    top = c
    for x in (a, b):
        t = _top(x)
        if t is not None and t.id < top.id:
            top = t
    if top is c:
        a2 = restrict(a, c, True)
        b2 = restrict(b, c, False)
        if a2 is b2:
            return a2
        if c.op == 'isnan' and a2 is NAN and nan_with(b2, c.args[0]):
            return b2
        if _top(a2) is not None and _top(a2).id < c.id or _top(b2) is not None and _top(b2).id < c.id:
            return _ite_atom(c, a2, b2)
        return mk('ite', c, a2, b2)
    tc = _implied(c, top, True)
    fc = _implied(c, top, False)
    a1, b1 = restrict(a, top, True), restrict(b, top, True)
    a0, b0 = restrict(a, top, False), restrict(b, top, False)
    hi = a1 if tc is True else b1 if tc is False else _ite_atom(c, a1, b1)
    lo = a0 if fc is True else b0 if fc is False else _ite_atom(c, a0, b0)
    hi = restrict(hi, top, True)
    lo = restrict(lo, top, False)
    if hi is lo:
        return hi
    return mk('ite', top, hi, lo)


def nan_with(y, x):
    """is y undefined (nan) whenever x is? holds if it combines the same atoms with the same signs of exponents"""
    if y is x:
        return True
    if y.op == 'ite':
        return nan_with(y.args[1], x) and nan_with(y.args[2], x)
    if y.op in ('ln', 'exp', 'abs', 'cast'):
        return nan_with(y.args[0], x)
    parts = lambda n: {(a, e > 0) for m, c in n.args[0] for a, e in m} if n.op == 'poly' else {(n, True)}
    return y is NAN or parts(x) <= parts(y) and x.op != 'num'


def ite(c, a, b):
    """c: boolean diagram (or atom)"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != 'ite':
        return _ite_atom(c, a, b)
    at, x, y = c.args
    a1, b1 = restrict(a, at, True), restrict(b, at, True)
    a0, b0 = restrict(a, at, False), restrict(b, at, False)
    return _ite_atom(at, ite(x, a1, b1), ite(y, a0, b0))


def _reb_ite(c, a, b):
    # c is an atom node after substitution (maybe no longer atomic)
    return ite(as_bool(c), a, b)


def as_bool(c):
    if c in (TRUE, FALSE) or c.op == 'ite':
        return c
    return batom(c) if c.op in ('lt0', 'eq0', 'eq', 'isnone', 'anyr', 'in', 'b', 'Exists', 'isinst', 'isnan',
                                'isfile', 'startswith', 'truthy') else bvar(c)


REB['ite'] = _reb_ite
REB['lt0'] = lt0
REB['eq0'] = eq0
REB['b'] = bvar


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'ite':
        return ite(batom(a.args[0]), bnot(a.args[1]), bnot(a.args[2])) if a.args[1].op == 'ite' or \
            a.args[2].op == 'ite' else mk('ite', a.args[0], bnot(a.args[1]), bnot(a.args[2]))
    return bnot(bvar(a))


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def lt(a, b):
    if rank(a) not in (0, None) or rank(b) not in (0, None):
        return acmp('<', a, b)
    return lt0(sub(a, b))


def le(a, b):
    if rank(a) not in (0, None) or rank(b) not in (0, None):
        return acmp('<=', a, b)
    return bnot(lt0(sub(b, a)))


def acmp(op, a, b):
    """elementwise comparison of arrays: canonical node 'acmp'(op, p) meaning p op 0"""
    if a.op == 'ite' or b.op == 'ite':
        return lift(lambda x, y: acmp(op, x, y), a, b)
    if op in ('>', '>='):
        return acmp({'>': '<', '>=': '<='}[op], b, a)
    p = _canon_cmp(sub(a, b))
    if op in ('==', '!='):
        if p.op == 'poly' and p.args[0][0][1] < 0:
            p = neg(p)
        return mk('acmp', op, p)
    if is_int(p) and op == '<':
        return mk('acmp', '<=', add(p, ONE))
    return mk('acmp', op, p)


ELEMENTWISE.add('acmp')


def anot(c):
    if c.op == 'ite':
        return lift(anot, c)
    if c.op == 'acmp':
        o, p = c.args
        if o == '<':
            return acmp('<=', ZERO, p)
        if o == '<=':
            return acmp('<', ZERO, p)
        return mk('acmp', '!=' if o == '==' else '==', p)
    if c.op == 'anot':
        return c.args[0]
    return mk('anot', c)


REB['acmp'] = lambda op, p: acmp(op, p, ZERO)
REB['anot'] = anot
ELEMENTWISE.add('anot')

NUMERIC_OPS = {'num', 'poly', 'nan', 'inf', 'pi', 'len', 'dim', 'asum', 'Sum', 'abs', 'exp', 'ln', 'arange',
               'cast', 'fdiv', 'mod', 'amax', 'amin', 'clip', 'rint', 'fft', 'real', 'imag', 'conj', 'lastidx',
               'firstidx', 'conv', 'float', 'int', 'floor', 'ceil', 'sl', 'T', 'macount', 'draw', 'trunc',
               'bv', 'tmp', 'cumsum', 'max2', 'min2', 'hist', 'count', 'dot'}


TMPKIND = {}


def kind(n):
    op = n.op
    if op in ('get', 'idx'):
        s = schema(n)
        if s is not None:
            return schema_kind(s)
    if op == 'tmp' and n in TMPKIND:
        return TMPKIND[n]
    if op in NUMERIC_OPS:
        if op in ('sl',):
            return kind(n.args[0])
        if op in ('tmp', 'bv'):
            return 'num' if n.args[2] or n.args[3] else None
        return 'num'
    if op in ('str', 'scat', 'fmt', 'sjoin', 'xmltext', 'strip', 'lower', 'upper', 'path', 'pathjoin', 'replace', 'basename', 'dirname'):
        return 'str'
    if op in ('true', 'false', 'lt0', 'eq0', 'eq', 'isnone', 'in', 'Exists', 'isinst', 'b', 'isfile', 'startswith'):
        return 'bool'
    if op == 'none':
        return 'none'
    if op in ('lit', 'cat', 'Map', 'split', 'sorted', 'keys', 'lines', 'FlatMap', 'rev'):
        return 'list'
    if op == 'tup':
        return 'tup'
    if op in ('dlit', 'dput', 'DMap', 'dict'):
        return 'dict'
    if op == 'sym':
        k = n.args[4]
        return k or ('num' if n.args[1] is not None else None)
    if op == 'ite':
        a, b = kind(n.args[1]), kind(n.args[2])
        return a if a == b else (b if a == 'none' else a if b == 'none' else None)
    if op == 'idx':
        k = n.args[0]
        if kind(k) == 'num':
            return 'num'
        if k.op in ('split', 'lines'):
            return 'str'
    return None


def eq(a, b):
    """python == """
    if a is b:
        return FALSE if a is NAN else TRUE
    if a.op == 'ite' or b.op == 'ite':
        return lift(eq, a, b)
    ka, kb = kind(a), kind(b)
    if ka == 'num' and kb == 'num':
        if rank(a) not in (0, None) or rank(b) not in (0, None):
            return acmp('==', a, b)
        return eq0(sub(a, b))
    if a.op in CONSTS and b.op in CONSTS:
        if (ka == 'bool' and kb == 'num') or (ka == 'num' and kb == 'bool'):
            return TRUE if pdict(a) == pdict(b) else FALSE
        return FALSE
    if ka and kb and ka != kb and 'bool' not in (ka, kb):
        return FALSE
    if a.op in ('tup', 'lit') and b.op in ('tup', 'lit') and a.op == b.op:
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = band(r, eq(x, y))
        return r
    if a.op == b.op == 'set' and a.args[0].op == b.args[0].op == 'lit' and \
            all(x.op in CONSTS for x in a.args[0].args + b.args[0].args):
        return TRUE if set(a.args[0].args) == set(b.args[0].args) else FALSE
    if 'none' in (ka, kb):
        x = b if ka == 'none' else a
        return isnone(x)
    if (ka == 'num' or kb == 'num') and (rank(a) == 0 or rank(b) == 0) and None not in (rank(a), rank(b)):
        return eq0(sub(a, b))
    if 'str' in (ka, kb):
        from . import text
        if text.differ(a, b):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == 'sjoin' and y.op == 'str' and not y.args[0]:
                c = text.wordlist(x)
                if c is not None:
                    from . import alg
                    return eq(alg.flen(c), ZERO)
    x, y = sorted((a, b), key=lambda t: t.id)
    return batom(mk('eq', x, y))


def isnone(x):
    if x.op == 'ite':
        return lift(isnone, x)
    if x is NONE:
        return TRUE
    k = kind(x)
    if k is not None and k != 'any':
        return FALSE
    if x.op in ('ref', 'class', 'func', 'bound', 'mod', 'type', 'dtype', 'modfn'):
        return FALSE
    return batom(mk('isnone', x))


REB['eq'] = eq
REB['isnone'] = isnone


# ---------------------------------------------------------------- equality

class Cmp:
    """three-valued comparison of terms"""

    def __init__(self):
        self.memo = {}
        self.why = []      # innermost differences found

    def equal(self, a, b):
        """True / False"""
        if a is b:
            return True
        if not isinstance(a, Node) or not isinstance(b, Node):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
            return a == b
        key = (a, b) if a.id < b.id else (b, a)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = False
            r = self._eq(a, b)
            self.memo[key] = r
        return r

    def _eq(self, a, b):
        pa, pb = a.op in ('poly',), b.op in ('poly',)
        if a.op == 'ite' or b.op == 'ite':
            return self._eq_ite(a, b)
        if pa or pb:
            if self._eq_poly(a, b):
                return True
            self.note(a, b)
            return False
        if a.op != b.op:
            self.note(a, b)
            return False
        if a.op in BINDERS:
            return self._eq_binder(a, b)
        if len(a.args) != len(b.args):
            self.note(a, b)
            return False
        n0 = len(self.why)
        ok = all([self.equal(x, y) for x, y in zip(a.args, b.args)])
        if not ok and a.op in ('eq', 'arreq') and all(self.equal(x, y) for x, y in
                                                      zip(a.args, (b.args[1], b.args[0]) + b.args[2:])):
            del self.why[n0:]
            return True
        if not ok and len(self.why) == n0:
            self.note(a, b)
        return ok

    def note(self, a, b):
        self.why.append((a, b))

    def _eq_ite(self, a, b):
        if a.op == 'ite' and b.op == 'ite':
            if self.equal(a.args[0], b.args[0]):
                ok = [self.equal(a.args[1], b.args[1]), self.equal(a.args[2], b.args[2])]
                if all(ok):
                    return True
        # align conditions that are equal but not identical
        ca, cb = conds(a), conds(b)
        ren = {}
        for y in cb:
            if y in ca:
                continue
            for x in ca:
                if x not in cb and x.op == y.op and Cmp().equal(x, y):
                    ren[y] = x
                    break
        if ren:
            b2 = rename_conds(b, ren)
            if b2 is a:
                return True
            b = b2
            if b.op != 'ite' or a.op != 'ite':
                return self.equal(a, b)
        # leafwise comparison along the union of conditions
        return self._walk(a, b)

    def _walk(self, a, b, depth=0):
        if a is b:
            return True
        if a.op != 'ite' and b.op != 'ite':
            return self.equal(a, b)
        if depth > 40:
            return False
        ts = [x.args[0] for x in (a, b) if x.op == 'ite']
        t = min(ts, key=lambda x: x.id)
        r1 = self._walk(restrict(a, t, True), restrict(b, t, True), depth + 1)
        r2 = self._walk(restrict(a, t, False), restrict(b, t, False), depth + 1)
        if not (r1 and r2) and not self.why:
            self.note(a, b)
        return r1 and r2

    def _eq_poly(self, a, b):
        aa, ab = atoms(a), atoms(b)
        ren = {}
        only_a = [x for x in aa if x not in ab]
        only_b = [x for x in ab if x not in aa]
        used = set()
        for y in only_b:
            for x in only_a:
                if x in used or x.op != y.op:
                    continue
                sub_ = Cmp()
                if sub_.equal(x, y):
                    ren[y] = x
                    used.add(x)
                    break
        if ren:
            b = replace_atoms(b, ren)
        d = sub(a, b)
        if d is ZERO:
            return True
        if is_zero(d) or vanishes(d):
            return True
        # report mismatching atoms
        la = [x for x in only_a if x not in used]
        lb = [y for y in only_b if y not in ren]
        for y in lb:
            for x in la:
                if x.op == y.op:
                    c = Cmp()
                    c.equal(x, y)
                    self.why.extend(c.why)
        return False

    def _eq_binder(self, a, b):
        k = BINDERS[a.op]
        oa, ob = a.args[1:1 + k], b.args[1:1 + k]
        if not all([self.equal(x, y) for x, y in zip(oa, ob)]) or len(oa) != len(ob):
            self.note(a, b)
            return False
        ba, bb = a.args[0], b.args[0]
        la = 1 if isinstance(ba, Node) else len(ba)
        lb = 1 if isinstance(bb, Node) else len(bb)
        if la != lb:
            self.note(a, b)
            return False
        ts = tuple(tmp('e', (ba if la == 1 and isinstance(ba, Node) else ba[i]).args[2],
                       (ba if la == 1 and isinstance(ba, Node) else ba[i]).args[3]) for i in range(la))
        bas = (ba,) if isinstance(ba, Node) else ba
        bbs = (bb,) if isinstance(bb, Node) else bb
        ia = subst_any(a.args[1 + k:], dict(zip(bas, ts)))
        if a.op == 'mu':
            perms = itertools.permutations(range(lb - 1)) if lb <= 5 else [tuple(range(lb - 1))]
            keep = len(self.why)
            best = None
            for p in perms:
                # first bound var is the loop index; state vars are permuted
                m = {bbs[0]: ts[0]}
                for i, j in enumerate(p):
                    m[bbs[1 + j]] = ts[1 + i]
                ib = subst_any(b.args[1 + k:], m)
                c = Cmp()
                if mu_match(c, ia, ib, p):
                    return True
                if best is None or len(c.why) < len(best):
                    best = c.why
            self.why.extend(best or [(a, b)])
            return False
        ib = subst_any(b.args[1 + k:], dict(zip(bbs, ts)))
        n0 = len(self.why)
        ok = len(ia) == len(ib) and all([self.equal(x, y) for x, y in zip(ia, ib)])
        if not ok and len(self.why) == n0:
            self.note(a, b)
        return ok


def mu_match(c, ia, ib, p):
    """ia=(inits tuple, steps tuple, brk, out) vs ib with state permutation p (ia[i] <-> ib[p[i]])"""
    inits_a, steps_a, brk_a, out_a = ia
    inits_b, steps_b, brk_b, out_b = ib
    if len(inits_a) != len(inits_b):
        return False
    ok = True
    for i, j in enumerate(p):
        ok &= c.equal(inits_a[i], inits_b[j])
        ok &= c.equal(steps_a[i], steps_b[j])
    ok &= c.equal(brk_a, brk_b)
    ok &= c.equal(out_a, out_b)
    return ok


def conds(n, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if n.op == 'ite' and n not in seen:
        seen.add(n)
        if n.args[0] not in acc:
            acc.append(n.args[0])
        conds(n.args[1], acc, seen)
        conds(n.args[2], acc, seen)
    return acc


def rename_conds(n, ren, memo=None):
    memo = {} if memo is None else memo
    if n.op != 'ite':
        return n
    if n in memo:
        return memo[n]
    c = ren.get(n.args[0], n.args[0])
    r = _ite_atom(c, rename_conds(n.args[1], ren, memo), rename_conds(n.args[2], ren, memo))
    memo[n] = r
    return r


def atoms(n):
    """all atoms of a polynomial, including those inside composite denominators"""
    out = []
    if n.op == 'poly':
        for m, c in n.args[0]:
            for a, e in m:
                if a.op == 'poly':
                    for x in atoms(a):
                        if x not in out:
                            out.append(x)
                elif a not in out:
                    out.append(a)
    elif n.op != 'num':
        out.append(n)
    return out


def replace_atoms(n, ren):
    if n in ren:
        return ren[n]
    if n.op != 'poly':
        return n
    r = ZERO
    for m, c in n.args[0]:
        t = num(c)
        for a, e in m:
            x = replace_atoms(a, ren) if a.op == 'poly' else ren.get(a, a)
            t = mul(t, power(x, e))
        r = add(r, t)
    return r


class _Undef(Exception):
    pass


def _value(n, env, memo):
    """(value, magnitude) of an arithmetic term at a point"""
    r = memo.get(n)
    if r is not None:
        return r
    D = env['D']
    if n.op == 'num':
        f = n.args[0]
        if not isinstance(f, F):
            raise _Undef
        r = D(f.numerator) / D(f.denominator)
    elif n.op == 'poly':
        r = D(0)
        scale = D(0)
        for m, c in n.args[0]:
            t = D(c.numerator) / D(c.denominator)
            for a, e in m:
                v = _value(a, env, memo)
                if v == 0 and e < 0:
                    raise _Undef
                if e.denominator == 1:
                    t *= v ** int(e)
                elif v <= 0:
                    raise _Undef
                else:
                    t *= (v.ln() * D(e.numerator) / D(e.denominator)).exp()
            r += t
            scale = max(scale, abs(t))
        env['scale'] = max(env['scale'], scale)
        if abs(r) < scale * D(10) ** -60:
            r = D(0)
    elif n.op == 'ln':
        v = _value(n.args[0], env, memo)
        if v == 0:
            raise _Undef
        r = abs(v).ln()
        if v < 0 and env['lnneg']:
            r += D(37) / 10     # not defined here: nothing but itself
    elif n.op == 'exp':
        v = _value(n.args[0], env, memo)
        if abs(v) > 1000:
            raise _Undef
        r = v.exp()
    elif n.op == 'abs':
        r = abs(_value(n.args[0], env, memo))
    else:
        rnd = env['rnd']
        r = D(rnd.randint(10 ** 12, 3 * 10 ** 12)) / D(10 ** 12)
        if rnd.random() < env['neg'] and not (n.op == 'sym' and n.args[-1] is True):
            r = -r
    memo[n] = r
    return r


def _arith(d):
    """the terms _value computes (the others are its free variables)"""
    todo, seen = [d], set()
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            if n.op == 'poly':
                todo.extend(a for m, c in n.args[0] for a, e in m)
            elif n.op in ('ln', 'exp', 'abs'):
                todo.append(n.args[0])
    return seen


def vanishes(d):
    """identity test for quotients, roots and logarithms of polynomials: d is evaluated exactly enough at random points;
    an identically vanishing term vanishes at all of them, any other term at practically none"""
    if d.op != 'poly' or len(d.args[0]) > 20000:
        return False
    if not any(a.op in ('poly', 'ln', 'exp', 'abs') for m, c in d.args[0] for a, e in m):
        return False      # a polynomial in its atoms: the normal form decides
    import decimal
    import random
    rnd = random.Random(20)
    good = 0
    # fln splits a logarithm into those of its factors, whatever their signs; only a written abs() makes the sign matter
    lnneg = {'ln', 'abs'} <= {x.op for x in _arith(d)}
    with decimal.localcontext() as cx:
        cx.prec = 90
        for k in range(40):
            env = {'D': decimal.Decimal, 'rnd': rnd, 'neg': (0, 0.3, 0.5)[k % 3], 'lnneg': lnneg, 'scale': decimal.Decimal(0)}
            try:
                v = _value(d, env, {})
            except (_Undef, decimal.DecimalException):
                continue
            if v != 0:
                return False
            good += 1
            if good >= 6:
                return True
    return False


def is_zero(p, depth=0):
    """polynomial identity with composite denominators cleared"""
    if p is ZERO:
        return True
    if p.op != 'poly' or depth > 12:
        return False
    # composite atoms with fractional or negative exponents
    comp = {}
    for m, c in p.args[0]:
        for a, e in m:
            if a.op == 'poly':
                comp.setdefault(a, []).append(e)
    if not comp:
        return False
    for a, es in comp.items():
        mn = min(es + [F(0)])
        if mn < 0:
            # exponents must differ by integers for clearing to be exact
            r = ZERO
            shift = -mn
            k = shift if shift.denominator == 1 else shift
            for m, c in p.args[0]:
                t = num(c)
                found = False
                for x, e in m:
                    if x is a:
                        ne = e + k
                        found = True
                        if ne.denominator == 1 and ne >= 0:
                            y = ONE
                            for _ in range(int(ne)):
                                y = mul(y, a)
                            t = mul(t, y)
                        else:
                            t = mul(t, _poly({((a, ne),): F(1)}))
                    else:
                        t = mul(t, power(x, e))
                if not found:
                    if k.denominator == 1:
                        for _ in range(int(k)):
                            t = mul(t, a)
                    else:
                        t = mul(t, _poly({((a, k),): F(1)}))
                r = add(r, t)
            if r.size > 200000:
                return False
            return is_zero(r, depth + 1)
    return False


# ---------------------------------------------------------------- printing

def show(n, depth=6):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return '(' + ', '.join(show(x, depth) for x in n) + ')'
        return str(n)
    if depth <= 0:
        return '..'
    op = n.op
    if op == 'num':
        q = n.args[0]
        if q.denominator == 1:
            return str(q)
        f = float(q)
        return repr(f) if F(repr(f)) == q else str(q)
    if op == 'str':
        return repr(n.args[0])
    if op in ('none', 'true', 'false', 'nan', 'pi'):
        return {'none': 'None', 'true': 'True', 'false': 'False'}.get(op, op)
    if op == 'sym':
        return n.args[0]
    if op in ('tmp',):
        return '%s%d' % (n.args[1], n.args[0])
    if op == 'bv':
        return 'i%d%s' % (n.args[0], '' if not n.args[1] else '_%d' % n.args[1])
    if op == 'poly':
        out = []
        for m, c in n.args[0]:
            fs = []
            if c != 1 or not m:
                fs.append(show(num(c)))
            for a, e in m:
                s = show(a, depth - 1)
                if a.op == 'poly':
                    s = '(' + s + ')'
                if e != 1:
                    s += '^' + (str(e) if e.denominator == 1 and e > 0 else '(%s)' % e)
                fs.append(s)
            out.append('*'.join(fs))
        return ' + '.join(out)
    if op == 'ite':
        if n.args[1] is TRUE and n.args[2] is FALSE:
            return show(n.args[0], depth)
        if n.args[1] is FALSE and n.args[2] is TRUE:
            return 'not ' + show(n.args[0], depth)
        return '(%s if %s else %s)' % (show(n.args[1], depth - 1), show(n.args[0], depth - 1),
                                       show(n.args[2], depth - 1))
    if op == 'lt0':
        return '[%s < 0]' % show(n.args[0], depth - 1)
    if op == 'eq0':
        return '[%s == 0]' % show(n.args[0], depth - 1)
    if op == 'idx':
        return '%s[%s]' % (show(n.args[0], depth - 1), show(n.args[1], depth - 1))
    if op == 'opq':
        return '<?%s>' % n.args[0]
    return '%s(%s)' % (op, ', '.join(show(a, depth - 1) for a in n.args))
