"""Models of the Python builtins and of the library functions the code base uses.

Modelled functions are described by the value they return as a function of their
arguments (and by the mutations they perform); nothing from the analysed program
is executed.  A library function without a model yields an `opq` node, which is
congruent but makes any difference it is involved in undecided.
"""
import ast
import builtins as _bi
import importlib
import math
from .state import *
from . import alg, text
from .term import _lead, fimag
from .alg import fmacount, ismsk, maskable, shape

# ---------------------------------------------------------------- names

ALIASES = {
    'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
    'numpy.ma.core.MaskedArray': 'numpy.ma.MaskedArray', 'numpy.ma.array': 'numpy.ma.MaskedArray',
    'numpy.ma.masked_array': 'numpy.ma.MaskedArray', 'numpy.round_': 'numpy.round', 'numpy.around': 'numpy.round',
    'numpy.fft.fftpack.fft': 'numpy.fft.fft', 'numpy.conj': 'numpy.conjugate', 'numpy.product': 'numpy.prod',
    'numpy.asanyarray': 'numpy.asarray', 'numpy.ascontiguousarray': 'numpy.asarray', 'numpy.NaN': 'numpy.nan',
    'numpy.NAN': 'numpy.nan', 'numpy.Inf': 'numpy.inf', 'numpy.true_divide': 'numpy.divide',
    'numpy.concat': 'numpy.concatenate', 'scipy.ndimage.filters.convolve': 'scipy.ndimage.convolve',
    'scipy.fft.fft': 'numpy.fft.fft', 'posixpath.join': 'os.path.join', 'numpy.pow': 'numpy.power',
    'math.sqrt': 'numpy.sqrt', 'math.exp': 'numpy.exp', 'math.log': 'numpy.log', 'math.log10': 'numpy.log10',
    'math.log2': 'numpy.log2', 'math.sin': 'numpy.sin', 'math.cos': 'numpy.cos', 'math.fabs': 'numpy.abs',
    'math.pi': 'numpy.pi', 'math.e': 'numpy.e', 'math.nan': 'numpy.nan', 'math.inf': 'numpy.inf',
    'math.isnan': 'numpy.isnan', 'numpy.bool_': 'numpy.bool', 'numpy.ma.masked_where': 'numpy.ma.masked_where',
    'scipy.sqrt': 'numpy.sqrt', 'scipy.optimize.minpack.leastsq': 'scipy.optimize.leastsq',
    'operator.itemgetter': 'operator.itemgetter', 'math.fsum': 'builtins.sum',
}


def canon(name):
    if name.startswith('np.'):
        name = 'numpy.' + name[3:]
    return ALIASES.get(name, name)


DTYPES = {}
for _n in ('float64', 'float32', 'float16', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
           'uint64', 'bool', 'complex128', 'complex64'):
    DTYPES['numpy.' + _n] = _n
    DTYPES[_n] = _n
DTYPES.update({'float': 'float64', 'int': 'int64', 'double': 'float64', 'numpy.double': 'float64', 'f8': 'float64',
               'd': 'float64', 'i8': 'int64', 'i4': 'int32', 'u2': 'uint16', 'f4': 'float32', 'numpy.uint': 'uint64',
               'uint': 'uint64', 'numpy.intp': 'int64', 'numpy.int_': 'int64', 'numpy.longlong': 'int64',
               'complex': 'complex128', 'numpy.float_': 'float64', '<f8': 'float64', '<i8': 'int64',
               'numpy.longdouble': 'longdouble', 'f': 'float32', 'numpy.single': 'float32'})


def dtname(t):
    """canonical dtype name of a term, '' for None, None when unknown"""
    if t is None or t is NONE:
        return ''
    if t.op in ('bi', 'ext', 'str'):
        return DTYPES.get(t.args[0])
    if t.op == 'dtype':
        return t.args[0]
    return None


def extconst(full):
    if full in ('numpy.pi',):
        return PI
    if full == 'numpy.nan':
        return NAN
    if full == 'numpy.inf':
        return mk('inf', 1)
    if full == 'numpy.e':
        return fexp(ONE)
    if full == 'numpy.newaxis':
        return NONE
    if full == 'os.sep':
        return const('/')
    if full == 'os.linesep':
        return const('\n')
    return None


_miss = {}


def missing(full):
    """the installed library has no such attribute"""
    if full in _miss:
        return _miss[full]
    parts = full.split('.')
    r = False
    if parts[0] in ('numpy', 'scipy', 'lxml', 'PIL', 'matplotlib', 'jinja2', 'os', 'shutil', 'tempfile', 'math',
                    'collections', 'itertools', 'functools', 're', 'logging', 'datetime', 'pprint', 'random', 'sys'):
        obj = None
        k = 0
        for j in range(len(parts), 0, -1):
            try:
                obj = importlib.import_module('.'.join(parts[:j]))
                k = j
                break
            except ImportError:
                continue
            except Exception:
                obj = None
                break
        if obj is not None:
            for p in parts[k:]:
                try:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        obj = getattr(obj, p)
                except AttributeError:
                    r = True
                    break
                except Exception:
                    break
    _miss[full] = r
    return r


# ---------------------------------------------------------------- algebra helpers

def num_of(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    if t.op == 'ite' and kind(t) == 'bool':
        return ite(as_bool(t), ONE, ZERO)
    return t


def none_cond(t):
    """condition under which the value is None"""
    if t is NONE:
        return TRUE
    if t.op == 'ite':
        if _has_none(t):
            a, b = none_cond(t.args[1]), none_cond(t.args[2])
            return ite(batom(t.args[0]), a, b)
    return FALSE


_hn = {}


def _has_none(t):
    if t.op != 'ite':
        return t is NONE
    r = _hn.get(t)
    if r is None:
        r = _has_none(t.args[1]) or _has_none(t.args[2])
        _hn[t] = r
    return r


def ffloor(x):
    if x.op == 'ite':
        return lift(ffloor, x)
    if is_int(x):
        return x
    if x.op == 'num':
        q = x.args[0]
        return num(q.numerator // q.denominator)
    if x.op in ('nan', 'inf'):
        return x
    if x.op == 'poly':
        off = ZERO
        rest = ZERO
        for m, c in x.args[0]:
            t = alg._poly({m: c})
            if is_int(t):
                off = add(off, t)
            else:
                rest = add(rest, t)
        if not m and False:
            pass
        # constant: keep the fractional part inside
        c = pdict(rest).get((), F(0))
        k = c.numerator // c.denominator
        if k:
            off = add(off, num(k))
            rest = sub(rest, num(k))
        if off is not ZERO:
            return add(off, ffloor(rest))
        y = floordual(x)
        if y is not None:
            return y
    return mk('floor', x)


def floordual(x):
    """floor(u/m) = -floor((-u-1)/m) - 1 for integers u and m > 0: one of the two is canonical"""
    ms = [dict(m) for m, c in x.args[0]]
    common = [a for a, e in ms[0].items() if e == -1 and rank(a) == 0 and is_int(a) and is_pos(a)
              and all(d.get(a) == -1 for d in ms[1:])]
    if len(common) > 1 or rank(x) != 0:
        return None
    if common:
        m = common[0]
    else:
        k = 1
        for _, c in x.args[0]:
            k = k * c.denominator // math.gcd(k, c.denominator)
        m = num(k)
    u = mul(x, m)
    if not is_int(u) or u.op != 'poly':
        return None
    d = {k: c for k, c in pdict(u).items() if k}
    if not d or d[_lead(d)] > 0:
        return None
    return sub(neg(ffloor(div(sub(neg(u), ONE), m))), ONE)



def fceil(x):
    if x.op == 'ite':
        return lift(fceil, x)
    return neg(ffloor(neg(x)))


def ftrunc(x):
    if x.op == 'ite':
        return lift(ftrunc, x)
    if is_int(x):
        return x
    if x.op == 'num':
        return num(int(x.args[0]))
    lo = lower(x)
    if lo is not None and lo >= 0:
        return ffloor(x)
    if x.op in ('floor', 'rint'):
        return x
    if x.op in ('max2', 'min2'):
        return REB[x.op](ftrunc(x.args[0]), ftrunc(x.args[1]))
    return mk('trunc', x)


def frint(x):
    if x.op == 'ite':
        return lift(frint, x)
    if is_int(x):
        return x
    if x.op == 'num':
        return num(round(x.args[0]))
    if x.op in ('max2', 'min2'):
        return REB[x.op](frint(x.args[0]), frint(x.args[1]))
    return mk('rint', x)


def froundn(x, n):
    if n is ZERO or n is NONE:
        return frint(x)
    if x.op == 'ite':
        return lift(lambda y: froundn(y, n), x)
    if x.op == n.op == 'num' and n.args[0].denominator == 1:
        return num(round(x.args[0], int(n.args[0])))
    return mk('roundn', x, n)


REB['floor'] = ffloor
REB['trunc'] = ftrunc
REB['rint'] = frint
ELEMENTWISE.add('bitop')
ELEMENTWISE.add('sign')
ELEMENTWISE.add('cmpx')


def arith(op, a, b):
    a, b = num_of(a), num_of(b)
    if a.op in ('acmp', 'anot', 'bitop') and op in '+-*/' or b.op in ('acmp', 'anot', 'bitop') and op in '+-*/':
        pass
    if op == '+':
        return add(a, b)
    if op == '-':
        return sub(a, b)
    if op == '*':
        return mul(a, b)
    if op == '/':
        return div(a, b)
    if op == '//':
        return ffloor(div(a, b))
    if op == '%':
        if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
            return num(a.args[0] % b.args[0])
        r = sub(a, mul(b, ffloor(div(a, b))))
        if r is ZERO and rank(a) and shape(a) is not None:
            r = mk('zeros', mk('tup', *shape(a)))
            return mk('cast', r, 'int64') if alg.is_int(a) else r
        return r
    if op == '**':
        return fpow(a, b)
    if op in ('&', '|', '^'):
        if kind(a) == 'bool' and kind(b) == 'bool' and rank(a) == 0 and rank(b) == 0:
            x, y = as_bool(a), as_bool(b)
            return band(x, y) if op == '&' else bor(x, y) if op == '|' else ite(x, bnot(y), y)
        if a is b and op in '&|':
            return a
        a, b = sorted((a, b), key=lambda t: t.id)
        return mk('bitop', op, a, b)
    if op == '@':
        return dot(a, b)
    if op in ('<<', '>>'):
        if op == '<<':
            return mul(a, fpow(num(2), b))
        return ffloor(div(a, fpow(num(2), b)))
    return opaque('operator ' + op, a, b)


def dot(a, b):
    if rank(a) == 0 or rank(b) == 0:
        return mul(a, b)
    if rank(a) == 1 and rank(b) == 1:
        return asum(mul(a, b))
    return mk('dot', a, b)


def set_order(xs):
    """an order in which a set may be traversed: that of numbers is fixed by their values, any other is arbitrary"""
    ts = []
    for x in xs:
        if x not in ts:
            ts.append(x)
    if all(x.op == 'num' for x in ts):
        at = {}
        for x in ts:
            q = x.args[0]
            at[int(q) if q == int(q) else float(q)] = x
        return [at[k] for k in set(at)]
    return sorted(ts, key=lambda x: (show(x, 6), x.id), reverse=True)


def set_items(items):
    ts = {}
    for v in items:
        ts.setdefault(v.t, v)
    return [ts[t] for t in set_order(list(ts))]


def fset(c):
    if c.op in ('lit', 'tup') and len(c.args) > 1:
        c = mk('lit', *set_order(c.args))
    return c if c.op == 'set' else mk('set', c)


REB['set'] = fset


def setop(op, a, b):
    def strip(x):
        if x.op in ('set', 'keys') and x.op == 'set':
            x = x.args[0]
        return x
    a, b = strip(a), strip(b)
    if kind(a) == 'dict':
        a = keys(a)
    if kind(b) == 'dict':
        b = keys(b)
    if a is b:
        if op in '&|':
            return fset(a)
        return mk('set', LIT0)
    if a.op == 'lit' and b.op == 'lit' and all(is_constkey(x) for x in a.args + b.args):
        x, y = list(a.args), list(b.args)
        r = [k for k in x if k in y] if op == '&' else [k for k in x if k not in y] if op == '-' else \
            x + [k for k in y if k not in x] if op == '|' else [k for k in x if k not in y] + [k for k in y if k not in x]
        return fset(mk('lit', *r))
    if op == '|' and a.op == 'lit' and b.op == 'lit':
        out = list(a.args)
        for y in b.args:
            es = [eq(x, y) for x in out]
            if TRUE in es:
                continue
            if any(q is not FALSE for q in es):
                out = None
                break
            out.append(y)
        if out is not None:
            return fset(mk('lit', *out))
    if op in '&|^':
        a, b = sorted((a, b), key=lambda t: t.id)
    return mk('setop', op, a, b)


def clip(x, lo, hi):
    if x.op == 'ite' or lo.op == 'ite' or hi.op == 'ite':
        return lift(clip, x, lo, hi)
    if lo is not NONE:
        x = max2(x, lo)
    if hi is not NONE:
        x = min2(x, hi)
    return x


# ---------------------------------------------------------------- sequences as arrays

def toarr(c):
    """array with the elements of the list c"""
    if c.op == 'ite':
        return lift(toarr, c)
    if c.op == 'Map':
        i, outer, inner = open_binder(c)
        v = vectorise(i, outer[0], inner[0])
        if v is not None:
            return v
    if c.op == 'cat':
        pass
    if c.op in ('num', 'poly', 'arr') or kind(c) == 'num' or (rank(c) is not None and kind(c) != 'list'
                                                              and c.op != 'tup'):
        return c
    if c.op == 'tup':
        c = mk('lit', *c.args)
    if c.op == 'lit' and any(x.op in ('lit', 'tup') for x in c.args):
        c = mk('lit', *[toarr(x) if x.op in ('lit', 'tup') else x for x in c.args])
    if kind(c) == 'list':
        return mk('arr', c)
    return c


def _r_arr(n):
    c = n.args[0]
    if c.op == 'lit':
        rs = [rank(x) for x in c.args]
        return None if None in rs else 1 + max(rs or [0])
    if c.op == 'Map':
        r = rank(c.args[2])
        return None if r is None else 1 + r
    if c.op in ('keys', 'sorted', 'unique', 'repeat'):
        return 1
    if c in ELEM and ELEM[c].get('rank') is not None:
        return 1 + ELEM[c]['rank']
    if c.op in ('slseq', 'rev'):
        r = rank(mk('arr', c.args[0]))
        return r
    if c.op in ('cat', 'FlatMap'):
        r = elemrank(c)
        return 1 if r is None else r + 1
    return None


def elemrank(c):
    """rank of the elements of a sequence"""
    if c.op == 'lit':
        rs = {rank(x) for x in c.args}
        return max(rs) if rs and None not in rs else None
    if c.op == 'cat':
        rs = [elemrank(x) for x in c.args if x.op != 'lit' or x.args]
        return max(rs) if rs and None not in rs else None
    if c.op == 'ite':
        rs = [elemrank(x) for x in c.args[1:] if x is not LIT0]
        return max(rs) if rs and None not in rs else None
    if c.op == 'FlatMap':
        return elemrank(c.args[2])
    if c.op == 'Map':
        return rank(c.args[2])
    return None


def _s_arr(n):
    c = n.args[0]
    r = rank(n)
    if r == 1:
        return (flen(c),)
    if r and c.op == 'lit':
        s = shape(c.args[0])
        return None if s is None else (flen(c),) + s
    if r and c.op == 'Map':
        s = shape(c.args[2])
        if s is not None and not any(c.args[0] in d.fs for d in s):
            return (flen(c),) + s
    if r and c in ELEM and ELEM[c].get('shape') is not None:
        return (flen(c),) + ELEM[c]['shape']
    return None


RANKF['arr'] = _r_arr
SHAPEF['arr'] = _s_arr
REB['arr'] = toarr
RANKF['argwhere'] = lambda n: 2
RANKF['argsort'] = lambda n: 1
RANKF['stack'] = _r_arr
RANKF['concat'] = lambda n: rank(n.args[0].args[0]) if n.args[0].op == 'lit' and n.args[0].args else None
RANKF['convn'] = lambda n: rank(n.args[0])
SHAPEF['convn'] = lambda n: shape(n.args[0])
RANKF['roll'] = lambda n: rank(n.args[0])
SHAPEF['roll'] = lambda n: shape(n.args[0])
RANKF['reshape'] = lambda n: len(n.args[1].args) if n.args[1].op == 'tup' else 1
SHAPEF['reshape'] = lambda n: (n.args[1].args if n.args[1].op == 'tup' and not any(isneg(x) for x in n.args[1].args)
                               else None)
RANKF['tile'] = lambda n: rank(n.args[0])
RANKF['expand'] = lambda n: rank(n.args[0]) + 1 if rank(n.args[0]) is not None else None


def _sh_expand(n):
    s = shape(n.args[0])
    if s is None or n.args[1].op != 'num':
        return None
    k = int(n.args[1].args[0])
    k = len(s) + 1 + k if k < 0 else k
    return s[:k] + (ONE,) + s[k:]


SHAPEF['expand'] = _sh_expand
RANKF['pfit'] = lambda n: 0
RANKF['sample'] = lambda n: 1
alg.T.NUMERIC_OPS.update({'arr', 'where', 'argwhere', 'nonzero', 'ravel', 'ones', 'zeros', 'linspace', 'unique',
                          'compressed', 'median', 'stack', 'concat', 'convn', 'roll', 'reshape', 'tile', 'argmin',
                          'argmax', 'sqrtneg', 'sign', 'pfit', 'size', 'isnan', 'acmp', 'anot', 'bitop', 'masked',
                          'madata', 'mamask', 'filled', 'store', 'roundn', 'expand', 'prod', 'sin', 'cos', 'sample',
                          'col', 'take', 'argsort', 'anyr', 'allr', 'npix', 'loadimg', 'round', 'per', 'gather'} - {'anyr', 'allr'})


def vectorise(i, dom, body):
    """array [body(i) for i in dom] as an elementwise expression, or None"""
    if dom.op != 'range':
        return None
    n = dom.args[0]
    if body.op in ('idx',) and body.args[1] is i and i not in body.args[0].fs and flen(body.args[0]) is n:
        x = body.args[0]
        return toarr(x) if kind(x) == 'list' else x
    if rank(body) != 0 or kind(body) not in ('num', 'bool'):
        return None
    bad = []
    memo = {}

    def go(t):
        if i not in t.fs:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t is i:
            r = arange(n)
        elif t.op == 'idx' and i not in t.args[0].fs and (rank(t.args[0]) == 1 or t.args[0] in ELEM and
                                                            ELEM[t.args[0]].get('rank') == 0):
            x, k = t.args
            x = toarr(x) if kind(x) == 'list' else x
            off = sub(k, i)
            if k is i:
                r = x if flen(x) is n else sl(x, ZERO, NONE, n, ONE)
            elif i not in off.fs:
                r = sl(x, ZERO, off, add(off, n), ONE)
            else:
                off = add(k, i)
                if i not in off.fs:
                    # reversed: x[off - i]
                    lo = add(sub(off, n), ONE)
                    r = sl(sl(x, ZERO, lo, add(off, ONE), ONE), ZERO, NONE, NONE, num(-1))
                else:
                    bad.append(t)
                    return t
        elif t.op == 'poly':
            r = alg._map_atoms(t, go)
        elif t.op in ('abs', 'exp', 'ln', 'floor', 'rint', 'trunc', 'cast', 'isnan', 'sin', 'cos', 'conj', 'real', 'imag'):
            f = REB.get(t.op) or (lambda *z: mk(t.op, *z))
            r = f(*[go(y) if isinstance(y, Node) else y for y in t.args])
        elif t.op == 'ite':
            c = t.args[0]
            if c.op in ('lt0', 'eq0'):
                p = go(c.args[0])
                cc = acmp('<' if c.op == 'lt0' else '==', p, ZERO)
                r = fwhere(cc, go(t.args[1]), go(t.args[2]))
            else:
                bad.append(t)
                return t
        elif t.op in ('lt0', 'eq0'):
            r = acmp('<' if t.op == 'lt0' else '==', go(t.args[0]), ZERO)
        else:
            bad.append(t)
            return t
        memo[t] = r
        return r
    r = go(body)
    if bad:
        return None
    if rank(r) == 0:
        return mul(r, mk('ones', mk('tup', n)))
    return r


def fwhere(c, a, b):
    if c.op == 'ite' or a.op == 'ite' or b.op == 'ite':
        return lift(fwhere, c, a, b)
    if rank(c) == 0:
        return ite(as_bool(c), a, b)
    if a is b:
        return a
    if c.op == 'anot':
        return fwhere(c.args[0], b, a)
    # maximum / minimum written as a selection
    if c.op == 'acmp' and c.args[0] in ('<', '<='):
        p = c.args[1]
        if p is sub(a, b):
            return min2(a, b)
        if p is sub(b, a):
            return max2(a, b)
        if p is alg.T._canon_cmp(sub(a, b)):
            return min2(a, b)
        if p is alg.T._canon_cmp(sub(b, a)):
            return max2(a, b)
    return mk('where', c, a, b)


REB['where'] = fwhere


def items_seq(d):
    """list of (key, value) pairs"""
    if d.op == 'dlit':
        return mk('lit', *[mk('tup', k, v) for k, v in d.args[0]])
    ks = keys(d)
    i = tmp('i', True, 0)
    k = idx(ks, i)
    return fmap(i, mk('range', flen(ks)), mk('tup', k, dget(d, k)))


def values_seq(d):
    if d.op == 'dlit':
        return mk('lit', *[v for k, v in d.args[0]])
    ks = keys(d)
    i = tmp('i', True, 0)
    return fmap(i, mk('range', flen(ks)), dget(d, idx(ks, i)))


def sjoin(sep, c):
    if c.op == 'split' and len(c.args) == 2 and sep.op == c.args[1].op == 'str' and c.args[1].args[0]:
        return mk('replace', c.args[0], c.args[1], sep)
    if c.op == 'ite':
        return lift(lambda x: sjoin(sep, x), c)
    if c.op in ('lit', 'tup'):
        out = []
        for k, x in enumerate(c.args):
            if k:
                out.append(sep)
            out.append(x)
        return scat(*out)
    if c.op == 'cat' and sep.op == 'str' and sep.args[0] == '':
        return scat(*[sjoin(sep, p) for p in c.args])
    return mk('sjoin', sep, c)


REB['sjoin'] = sjoin


def tostr(v):
    if v.op == 'ite':
        return lift(tostr, v)
    if kind(v) == 'str':
        return v
    return fmt('', v)


def pctspec(sp):
    """printf conversion -> format spec"""
    if sp in ('d', 'i', 'u'):
        return 'd'
    if sp and sp[-1] in 'iu':
        sp = sp[:-1] + 'd'
    if sp.startswith('-'):
        return '<' + sp[1:]
    if sp[:1].isdigit() and sp[-1:] == 's':
        return '>' + sp[:-1]
    return sp


def may_raise(term, types):
    """may evaluating `term` raise one of `types`?"""
    want = {'float': {'ValueError', 'TypeError'}, 'int': {'ValueError', 'TypeError'},
            'getitem': {'KeyError', 'IndexError', 'TypeError', 'LookupError'},
            'attr': {'AttributeError'}, 'open': {'OSError', 'IOError', 'FileNotFoundError', 'PermissionError'},
            'decode': {'UnicodeDecodeError', 'ValueError', 'UnicodeError'},
            'strplus': {'TypeError'}, 'app': set(),
            'loadimg': {'OSError', 'IOError', 'FileNotFoundError', 'UnidentifiedImageError', 'PIL.UnidentifiedImageError'},
            }.get(term.op)
    if 'Exception' in types or 'BaseException' in types:
        return True
    if want is None:
        return True
    return any(t.split('.')[-1] in want for t in types)


# ---------------------------------------------------------------- indexing

def getitem(t, k):
    if t.op == 'ite' or k.op == 'ite':
        return lift(getitem, t, k)
    if k.op == 'slice':
        if kind(t) == 'str' and t.op != 'str':
            a, b, c = k.args
            if c is ONE and b is NONE and a.op == 'num' and t.op == 'scat' and t.args[0].op == 'str' and \
                    0 <= a.args[0] <= len(t.args[0].args[0]):
                return scat(const(t.args[0].args[0][int(a.args[0]):]), *t.args[1:])
            return mk('substr', t, *k.args)
        return slseq(t, *k.args)
    if k.op == 'tup':
        parts = list(k.args)
        if any(p.op == 'ellipsis' for p in parts):
            j = [p.op for p in parts].index('ellipsis')
            r = rank(t)
            if r is None:
                return mk('getitem', t, k)
            n = r - (len([p for p in parts if p is not NONE]) - 1)
            parts[j:j + 1] = [mk('slice', NONE, NONE, ONE)] * n
        ax = 0
        x = t
        if len(parts) == 1 and parts[0].op == 'nonzero' and rank(parts[0].args[0]) == 1:
            return ftake(t, parts[0].args[0])
        if rank(t) is None and not all(p.op == 'slice' for p in parts):
            return mk('getitem', t, k)
        for p in parts:
            if p is NONE:
                x = mk('expand', x, num(ax))
                ax += 1
            elif p.op == 'slice':
                x = sl(x, num(ax), *p.args)
                ax += 1
            elif rank(p) == 0 and kind(p) in ('num', None):
                if ax == 0:
                    x = idx(x, p)
                else:
                    x = col(x, p, ax)
            elif intindex(parts) is not None:
                for j, v in intindex(parts):
                    x = gather(x, j, v)
                return x
            elif all(q.op == 'slice' or rank(q) for q in parts):
                return mk('take', t, k)
            else:
                return mk('getitem', t, k)
        return x
    if kind(k) == 'bool' and rank(k) == 0:
        k = num_of(k)
    if k.op == 'FlatMap' and rank(t) == 1:
        m = maskof(k, t)
        if m is not None:
            return ftake(t, m)
    if rank(k) == 0 and kind(k) == 'num' or k.op in ('tmp', 'bv') or (rank(t) or kind(t) in ('list', 'tup')) \
            and rank(k) in (0, None):
        if k.op in ('poly', 'num', 'tmp', 'bv') or kind(k) == 'num' or rank(t) is not None or kind(t) == 'list':
            if k.op == 'sym' and kind(t) is None and rank(t) is None:
                return mk('getitem', t, k)
            return idx(t, k)
    if rank(k) and rank(k) >= 1:
        if k.op in ('acmp', 'anot', 'bitop') or kind(k) == 'bool':
            return ftake(t, k)
        if rank(k) == 1 and rank(t) and alg.is_int(k) and cyclic(t, 0, k) is not None:
            return gather(t, 0, k)
        if k.op == 'nonzero':
            return ftake(t, k.args[0])
        return mk('take', t, k)
    if k is NONE and rank(t):
        return mk('expand', t, ZERO)
    return dget(t, k) if k.op == 'str' else mk('getitem', t, k)


def maskof(k, t):
    """[i for i in range(len(t)) if cond(i)] as a truth array over t, when cond is a test of array elements"""
    i, outer, inner = open_binder(k)
    dom, body = outer[0], inner[0]
    if dom.op != 'range' or body.op != 'ite':
        return None
    yes, no = mk('lit', i), LIT0
    if body.args[1] is yes and body.args[2] is no:
        pos = True
    elif body.args[1] is no and body.args[2] is yes:
        pos = False
    else:
        return None
    c = body.args[0]
    if c.op not in ('eq0', 'lt0'):
        return None
    arrays = []

    def up(x):
        if x is i:
            return None
        if i not in x.fs:
            return x
        if x.op == 'idx' and x.args[1] is i and i not in x.args[0].fs and rank(x.args[0]) == 1:
            arrays.append(x.args[0])
            return x.args[0]
        if x.op == 'poly':
            return pmap(up, x)
        return None
    a = up(c.args[0])
    if a is None or not arrays:
        return None
    n = dom.args[0]
    if not any(eq(n, flen(x)) is TRUE for x in arrays + [t]):
        return None
    if a.op in ('mamask', 'acmp', 'anot', 'bitop'):
        if c.op != 'eq0':
            return None
        return anot(a) if pos else a
    m = acmp('==' if c.op == 'eq0' else '<', a, ZERO)
    return m if pos else anot(m)


def intindex(parts):
    """[(axis, index vector)] of full slices and integer index vectors, one per axis (numpy.ix_ style)"""
    out = []
    for ax, p in enumerate(parts):
        if p.op == 'slice':
            if (p.args[0], p.args[1]) != (NONE, NONE) or p.args[2] not in (ONE, NONE):
                return None
            continue
        q = p
        while q.op == 'expand':
            q = q.args[0]
        if rank(q) != 1 or not alg.is_int(q) or q.op in ('acmp', 'anot', 'bitop', 'nonzero'):
            return None
        out.append((ax, q, p))
    if len(out) == 1:
        return [(out[0][0], out[0][1])] if out[0][2] is out[0][1] else None
    # several vectors: each must vary along its own axis of the result
    n = len(out)
    if [o[0] for o in out] != list(range(out[0][0], out[0][0] + n)):
        return None
    for j, (ax, q, p) in enumerate(out):
        want = q
        s = [rank(x[2]) for x in out]
        sh = shape(p)
        # vector along axis j of n: trailing dimensions of length one
        if sh is None or len(sh) < n - j or any(d is not ONE for d in sh[len(sh) - (n - 1 - j):]) and n - 1 - j:
            return None
        pos = len(sh) - (n - j)
        if any(d is not ONE for d in sh[:pos]):
            return None
    return [(ax, q) for ax, q, p in out]


def cyclic(x, ax, k):
    """n when k is arange(n) modulo the length of the axis"""
    s, sk = shape(x), shape(k)
    if s is None or sk is None:
        return None
    return sk[0] if arith('%', arange(sk[0]), s[ax]) is k else None


def gather(x, ax, k):
    if x.op == 'ite' or k.op == 'ite':
        return lift(lambda p, q: gather(p, ax, q), x, k)
    n = cyclic(x, ax, k)
    if n is not None:
        return alg.per(x, num(ax), n)
    return mk('gather', x, num(ax), k)


REB['gather'] = lambda x, ax, k: gather(x, int(ax.args[0]), k)
RANKF['gather'] = lambda n: rank(n.args[0])
SHAPEF['gather'] = lambda n: (lambda s, k, d: s[:k] + (d[0],) + s[k + 1:] if s is not None and d is not None else None)(
    shape(n.args[0]), int(n.args[1].args[0]), shape(n.args[2]))


def col(x, i, ax):
    if rank(x) == 2 and ax == 1:
        if x.op == 'poly' and all(rank(t) in (0, 2) for t in x.kids):
            return alg._map_atoms(x, lambda t: col(t, i, 1) if rank(t) else t)
        if x.op == 'T':
            return idx(x.args[0], i)
        if x.op == 'expand' and x.args[1] is ONE and i is ZERO:
            return x.args[0]
        s = shape(x)
        if isneg(i) and s is not None:
            i = add(s[1], i)
        return mk('col', x, i)
    return mk('take', x, num(ax), i)


def astore(arr, key, val):
    """array with arr[key] replaced by val"""
    if arr.op == 'ite':
        return lift(lambda a: astore(a, key, val), arr)
    if key.op in ('acmp', 'anot', 'bitop') and rank(val) == 0:
        return fwhere(key, val, arr)
    if key.op == 'slice' and all(x is NONE for x in key.args[:2]) and key.args[2] is ONE:
        if rank(val) == rank(arr):
            return val
    parts = key.args if key.op == 'tup' else (key,)
    if rank(arr) and len(parts) <= rank(arr) and (parts[0].op == 'ellipsis' and len(parts) == 1 or all(
            p.op == 'slice' and p.args[0] is NONE and p.args[1] is NONE and p.args[2] is ONE for p in parts)):
        s = shape(arr)
        if s is not None and rank(val) is not None and arr.op != 'cast':
            if rank(val) == len(s):
                return val
            return mul(val, mk('ones', mk('tup', *s)))
    return mk('store', arr, key, val)


REB['store'] = astore
RANKF['getitem'] = lambda n: None


# ---------------------------------------------------------------- least squares

def polyfit1(x, y, w=None):
    """(slope, offset) of the weighted straight line least-squares fit minimising sum (w*(y - f))^2"""
    W = mul(w, w) if w is not None else ONE
    one = mk('ones', mk('tup', flen(x)))

    def S(t):
        t = mul(W, t)
        return asum(mul(t, one) if rank(t) == 0 else t)
    s, sx, sy, sxx, sxy = S(ONE), S(x), S(y), S(mul(x, x)), S(mul(x, y))
    d = sub(mul(s, sxx), mul(sx, sx))
    return div(sub(mul(s, sxy), mul(sx, sy)), d), div(sub(mul(sxx, sy), mul(sx, sxy)), d)


def ftake(t, m):
    """the elements of t selected by the truth array m; selection distributes over elementwise arithmetic"""
    if t.op == 'ite':
        return ite(t.args[0], ftake(t.args[1], m), ftake(t.args[2], m))
    if t.op == 'poly' and rank(t) == rank(m) and rank(t):
        return pmap(lambda f: f if rank(f) == 0 else mk('take', f, m) if rank(f) == rank(m) else None, t) or mk('take', t, m)
    return mk('take', t, m)


def pmap(f, t):
    """the polynomial with f applied to its atoms; None when f gives None for one"""
    r = ZERO
    for mono, c in pdict(t).items():
        x = num(c)
        for a, e in mono:
            b = f(a)
            if b is None:
                return None
            x = mul(x, fpow(b, e if isinstance(e, Node) else num(e)))
        r = add(r, x)
    return r


def linfit(res, params):
    """minimiser of sum(res^2) where the residual array is affine in params; None if not affine"""
    n = len(params)
    if res.op == 'ite' and not any(p in res.args[0].fs for p in params):
        a, b = linfit(res.args[1], params), linfit(res.args[2], params)
        return None if a is None or b is None else tuple(ite(res.args[0], x, y) for x, y in zip(a, b))
    c0 = subst(res, {p: ZERO for p in params})
    cols = []
    for p in params:
        m = {q: ZERO for q in params}
        m[p] = ONE
        cols.append(sub(subst(res, m), c0))
    lin = c0
    for p, c in zip(params, cols):
        lin = add(lin, mul(p, c))
    if lin is not res and not Cmp().equal(lin, res):
        return None

    def S(a, b):
        t = mul(a, b)
        return asum(t) if rank(t) != 0 else mul(t, flen(res))
    if n == 1:
        return (neg(div(S(cols[0], c0), S(cols[0], cols[0]))),)
    if n == 2:
        a, b = cols
        aa, ab, bb, ac, bc = S(a, a), S(a, b), S(b, b), S(a, c0), S(b, c0)
        d = sub(mul(aa, bb), mul(ab, ab))
        return (div(sub(mul(ab, bc), mul(bb, ac)), d), div(sub(mul(ab, ac), mul(aa, bc)), d))
    return None


# ---------------------------------------------------------------- numpy functions

def _stop(ip, msg, node):
    raise Unsupported(msg, node)


class Args:
    """argument access by position or keyword"""

    def __init__(self, ip, args, kw, st, names):
        self.ip, self.st = ip, st
        self.v = dict(zip(names, args))
        self.extra = args[len(names):]
        self.unknown = [k for k in kw if k not in names]
        self.v.update({k: v for k, v in kw.items() if k in names})

    def has(self, n):
        return n in self.v and self.v[n].t is not NONE

    def V(self, n):
        return self.v.get(n, V(NONE))

    def t(self, n, default=NONE):
        """frozen content term"""
        if n not in self.v:
            return default
        return frz(self.ip, self.v[n], self.st)

    def a(self, n, default=NONE):
        """array term"""
        if n not in self.v:
            return default
        return arr(self.ip, self.v[n], self.st)


def frz(ip, v, st):
    c = ip.content(v, st)
    return ip.freeze(c, st)


def arr(ip, v, st):
    h = ip.H(v, st)
    t = frz(ip, v, st)
    if h is not None and h.kind == 'list' or t.op == 'tup':
        return toarr(t)
    if t.op in ('lit', 'Map', 'cat') or (t.op != 'sym' and kind(t) == 'list'):
        return toarr(t)
    return t


def axisof(A, name='axis'):
    return A.t(name, NONE)


NP = {}


def np_(*names):
    def d(f):
        for n in names:
            NP[n if n.startswith('scipy') or n.startswith('lxml') else 'numpy.' + n] = f
        return f
    return d


def unary(f):
    def g(ip, args, kw, st, cx, node):
        A = Args(ip, args, kw, st, ('x', 'out', 'dtype'))
        x = num_of(A.a('x'))
        need(ip, x, st, cx, node)
        r = f(constrain(x, st.pc))
        if A.has('out'):
            return outto(ip, A.V('out'), r, st)
        return V(r)
    return g


def need(ip, x, st, cx, node):
    c = none_cond(x)
    if c is not FALSE:
        ip.raise_if(c, 'TypeError', st, cx, node)


def outto(ip, o, r, st):
    if o.t.op == 'tup' and len(o.t.args) == 1:
        o = V(o.t.args[0])
    ip.update_array(o, r, st)
    return V(r, o.tok, o.path)


def sqrt(x):
    return power(x, F(1, 2))


def log10(x):
    return div(fln(x), fln(num(10)))


def log2(x):
    return div(fln(x), fln(num(2)))


for _n, _f in {'sqrt': sqrt, 'square': lambda x: mul(x, x), 'abs': fabs, 'exp': fexp, 'log': fln, 'log10': log10,
               'log2': log2, 'floor': ffloor, 'ceil': fceil, 'rint': frint, 'conjugate': fconj, 'negative': neg,
               'trunc': ftrunc, 'sin': lambda x: mk('sin', x), 'cos': lambda x: mk('cos', x),
               'sign': lambda x: mk('sign', x), 'reciprocal': lambda x: power(x, F(-1)),
               'isnan': lambda x: fisnan(x), 'logical_not': anot, 'positive': lambda x: x,
               'real': freal, 'imag': fimag, 'log1p': lambda x: fln(add(x, ONE)), 'fix': ftrunc}.items():
    NP['numpy.' + _n] = unary(_f)
NP['math.floor'] = NP['numpy.floor']
NP['math.ceil'] = NP['numpy.ceil']


def fisnan(x):
    if x.op == 'ite':
        return lift(fisnan, x)
    if x is NAN:
        return TRUE
    if x.op in ('num', 'str', 'none', 'inf') or is_int(x):
        return FALSE
    if rank(x) == 0:
        return batom(mk('isnan', x))
    return mk('isnan', x)


REB['isnan'] = fisnan


def binary(f):
    def g(ip, args, kw, st, cx, node):
        A = Args(ip, args, kw, st, ('x1', 'x2', 'out', 'where', 'dtype'))
        a, b = num_of(A.a('x1')), num_of(A.a('x2'))
        need(ip, a, st, cx, node)
        need(ip, b, st, cx, node)
        if A.has('where'):
            return V(opaque('where=', a, b))
        r = f(constrain(a, st.pc), constrain(b, st.pc))
        if A.has('out'):
            return outto(ip, A.V('out'), r, st)
        return V(r)
    return g


for _n, _o in {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'power': '**', 'floor_divide': '//',
               'mod': '%', 'remainder': '%', 'logical_and': '&', 'logical_or': '|', 'bitwise_and': '&',
               'bitwise_or': '|', 'dot': '@', 'inner': '@', 'vdot': '@', 'matmul': '@',
               'float_power': '**'}.items():
    NP['numpy.' + _n] = binary(lambda a, b, o=_o: arith(o, a, b))
NP['numpy.maximum'] = binary(max2)
NP['numpy.minimum'] = binary(min2)
NP['numpy.fmax'] = binary(max2)
NP['numpy.fmin'] = binary(min2)


def _cmpf(o):
    def f(a, b):
        if rank(a) == 0 and rank(b) == 0:
            return {'<': lt, '<=': le, '>': lambda x, y: lt(y, x), '>=': lambda x, y: le(y, x), '==': eq,
                    '!=': lambda x, y: bnot(eq(x, y))}[o](a, b)
        return acmp(o, a, b)
    return f


for _n, _o in {'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>=', 'equal': '==',
               'not_equal': '!='}.items():
    NP['numpy.' + _n] = binary(_cmpf(_o))
NP['numpy.outer'] = binary(lambda a, b: mk('outer', a, b))


def hint(v, dt, x):
    """apply a dtype conversion"""
    if dt.op == 'ite':
        return lift(lambda d: hint(v, d, x), dt)
    n = dtname(dt)
    if n == '':
        return x
    if n is None:
        return mk('castd', x, dt)
    if n.startswith('float'):
        x = numwords(x)
    return cast(x, n)


def numwords(x):
    """array made from the words that spell numbers"""
    if x.op == 'ite':
        return lift(numwords, x)
    c = x.args[0] if x.op == 'arr' else x
    if c.op in ('lit', 'tup') and c.args and all(isinstance(e, Node) and kind(e) == 'str' for e in c.args):
        e = [wordnum(y) for y in c.args]
        return x if any(y is None for y in e) else toarr(mk('lit', *e))
    if c.op == 'Map' and kind(c.args[2]) == 'str':
        e = wordnum(c.args[2])
        return x if e is None else toarr(fmap(c.args[0], c.args[1], e))
    return x


def wordnum(t):
    if t.op == 'ite':
        a, b = wordnum(t.args[1]), wordnum(t.args[2])
        return None if a is None or b is None else ite(t.args[0], a, b)
    if t.op == 'str':
        try:
            return num(float(t.args[0]))
        except ValueError:
            return None
    if t.op == 'fmt' and kind(t.args[1]) == 'num':
        sp, x = t.args
        if sp == '':
            return x
        if sp[-1] in 'fF' and sp[:1] == '.' and sp[1:-1].isdigit():
            return froundn(x, num(int(sp[1:-1])))
    return None


RANKF['castd'] = lambda n: rank(n.args[0])
SHAPEF['castd'] = lambda n: shape(n.args[0])


@np_('asarray')
def _asarray(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'dtype', 'order'))
    x = A.a('a')
    h = ip.H(A.V('a'), st)
    r = hint(None, A.t('dtype'), x)
    if h is not None:
        return V(r)
    # conversion may or may not copy: keep the alias (conservative for mutation)
    return V(r, A.V('a').tok if r is x else frozenset(A.V('a').tok), A.V('a').path if r is x else None)


@np_('array', 'copy')
def _array(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'dtype', 'copy', 'order', 'ndmin'))
    x = A.a('a')
    r = hint(None, A.t('dtype'), x)
    if A.has('copy') and A.t('copy') is not TRUE:
        return V(r, A.V('a').tok)
    return V(r)


def reduction(f):
    def g(ip, args, kw, st, cx, node):
        A = Args(ip, args, kw, st, ('a', 'axis', 'dtype', 'out', 'keepdims'))
        x = num_of(A.a('a'))
        need(ip, x, st, cx, node)
        x = constrain(x, st.pc)
        ax = axisof(A)
        if A.has('dtype'):
            n = dtname(A.t('dtype'))
            if n != 'float64':
                x = hint(None, A.t('dtype'), x)
        if A.has('out') or A.unknown:
            return V(opaque('reduction options', x))
        if ax.op in ('tup', 'lit', 'arr') and rank(x) and not alg.ismsk(x):
            ks = ax.args[0].args if ax.op == 'arr' else ax.args
            if all(isinstance(k, Node) and k.op == 'num' for k in ks):
                ks = sorted({int(k.args[0]) % rank(x) for k in ks}, reverse=True)
                if len(ks) == rank(x):
                    ax = NONE
                elif not A.has('keepdims'):
                    # one axis after the other
                    for k in ks:
                        x = f(x, num(k))
                    return V(x)
        r = f(x, ax)
        if A.has('keepdims') and A.t('keepdims') is TRUE:
            r = mk('expand', r, ax) if ax is not NONE else r
        return V(r)
    return g


NP['numpy.sum'] = reduction(asum)
NP['numpy.ma.sum'] = NP['numpy.nansum_'] = NP['numpy.sum']
NP['numpy.mean'] = NP['numpy.average_'] = NP['numpy.ma.mean'] = reduction(amean)
NP['numpy.max'] = NP['numpy.ma.max'] = reduction(lambda x, ax: amaxx('amax', x, ax))
NP['numpy.min'] = NP['numpy.ma.min'] = reduction(lambda x, ax: amaxx('amin', x, ax))
NP['numpy.median'] = reduction(REDUCERS['median'])
NP['numpy.prod'] = reduction(lambda x, ax: fprod(x, ax))
NP['numpy.any'] = reduction(lambda x, ax: fany(x, ax))
NP['numpy.all'] = reduction(lambda x, ax: fall(x, ax))
NP['numpy.count_nonzero'] = reduction(lambda x, ax: fcount(x, ax))


def fprod(x, ax):
    if x.op == 'arr' and x.args[0].op == 'lit':
        r = ONE
        for y in x.args[0].args:
            r = mul(r, y)
        return r
    if x.op == 'shapeof':
        return size(x.args[0])
    if x.op == 'tup':
        r = ONE
        for y in x.args:
            r = mul(r, y)
        return r
    return REDUCERS['prod'](x, ax)


def fcount(x, ax):
    if x.op == "ite":
        return lift(lambda y: fcount(y, ax), x)
    if rank(x) == 0:
        return num_of(ite(truthy(x), ONE, ZERO))
    if x.op in ('acmp', 'anot', 'bitop'):
        return mk('count', x, normaxis(x, ax))
    return mk('count', acmp('!=', x, ZERO), normaxis(x, ax))


def fany(x, ax):
    if rank(x) == 0:
        return truthy(x)
    if x.op == 'arr' and x.args[0].op == 'lit' and ax is NONE:
        r = FALSE
        for y in x.args[0].args:
            r = bor(r, truthy(y))
        return r
    if ax is NONE:
        if x.op == 'zeros':
            return FALSE
        if x.op == 'ones':
            return TRUE         # arrays have elements
        d = pdict(x) if kind(x) == 'num' else {}
        if len(d) == 1:
            (m, c), = d.items()
            s, a = num(c), ONE
            for y, e in m:
                if rank(y) == 0:
                    s = mul(s, power(y, e))
                else:
                    a = mul(a, power(y, e))
            if a is not x and rank(a) == rank(x):
                return band(truthy(s), fany(a, ax))
        return batom(mk('anyr', x, ax))
    return mk('anyr', x, normaxis(x, ax))


def fall(x, ax):
    if rank(x) == 0:
        return truthy(x)
    if x.op == 'arr' and x.args[0].op == 'lit' and ax is NONE:
        r = TRUE
        for y in x.args[0].args:
            r = band(r, truthy(y))
        return r
    if ax is NONE:
        return bnot(batom(mk('anyr', anot(x), ax)))
    return mk('allr', x, normaxis(x, ax))


REB['anyr'] = fany
REB['allr'] = fall


def amaxx(o, x, ax):
    if x.op == 'ite':
        return lift(lambda y: amaxx(o, y, ax), x)
    if x.op in ('argwhere', 'nonzero') and (ax is NONE or ax is ZERO):
        return mk('lastidx' if o == 'amax' else 'firstidx', x.args[0])
    if x.op == 'arr' and x.args[0].op == 'lit' and ax is NONE and all(rank(y) == 0 for y in x.args[0].args) \
            and x.args[0].args:
        r = x.args[0].args[0]
        for y in x.args[0].args[1:]:
            r = (max2 if o == 'amax' else min2)(r, y)
        return r
    if x.op == 'arr' and x.args[0].op == 'sorted':
        x = mk('arr', x.args[0].args[0])
    return REDUCERS[o](x, ax)


_amax0, _amin0 = REB['amax'], REB['amin']


def _varf(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'axis', 'dtype', 'out', 'ddof'))
    x = num_of(A.a('a'))
    need(ip, x, st, cx, node)
    x = constrain(x, st.pc)
    return V(avar(x, axisof(A), A.t('ddof', ZERO) if A.has('ddof') else ZERO))


NP['numpy.var'] = NP['numpy.ma.var'] = _varf
NP['numpy.std'] = NP['numpy.ma.std'] = lambda *a: V(sqrt(_varf(*a).t))


@np_('average')
def _average(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'axis', 'weights'))
    if A.has('weights'):
        w = A.a('weights')
        return V(div(asum(mul(A.a('a'), w), axisof(A)), asum(w, axisof(A))))
    return V(amean(A.a('a'), axisof(A)))


@np_('clip')
def _clip(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'a_min', 'a_max', 'out'))
    r = clip(A.a('a'), A.a('a_min'), A.a('a_max'))
    if A.has('out'):
        return outto(ip, A.V('out'), r, st)
    return V(r)


@np_('round')
def _round(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'decimals', 'out'))
    r = froundn(A.a('a'), A.t('decimals', ZERO))
    if A.has('out'):
        return outto(ip, A.V('out'), r, st)
    return V(r)


def shapeterm(t):
    if t.op in ('lit', 'arr'):
        t = t if t.op == 'lit' else t.args[0]
        return mk('tup', *t.args) if t.op == 'lit' else t
    if t.op == 'tup':
        return t
    if t.op == 'shapeof':
        s = shape(t.args[0])
        return mk('tup', *s) if s is not None else t
    if t.op == 'ite':
        return lift(shapeterm, t)
    if rank(t) == 0 or kind(t) == 'num':
        return mk('tup', t)
    return t


def filled_(x, s):
    return x if s is None else mul(x, mk('ones', s)) if x is not ZERO else mk('zeros', s)


@np_('zeros', 'empty')
def _zeros(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('shape', 'dtype'))
    return V(hint(None, A.t('dtype'), mk('zeros', shapeterm(A.t('shape')))))


@np_('ones')
def _ones(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('shape', 'dtype'))
    return V(hint(None, A.t('dtype'), mk('ones', shapeterm(A.t('shape')))))


@np_('full')
def _full(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('shape', 'fill_value', 'dtype'))
    return V(filled_(hint(None, A.t('dtype'), A.t('fill_value')), shapeterm(A.t('shape'))))


def _like(ip, args, kw, st):
    A = Args(ip, args, kw, st, ('a', 'dtype'))
    x = A.a('a')
    s = shape(x)
    return mk('tup', *s) if s is not None else mk('shapeof', x)


NP['numpy.zeros_like'] = NP['numpy.empty_like'] = lambda ip, a, kw, st, cx, n: V(mk('zeros', _like(ip, a, kw, st)))
NP['numpy.ones_like'] = lambda ip, a, kw, st, cx, n: V(mk('ones', _like(ip, a, kw, st)))
NP['numpy.full_like'] = lambda ip, a, kw, st, cx, n: V(mul(frz(ip, a[1], st), mk('ones', _like(ip, a[:1], kw, st))))


@np_('arange')
def _arange(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('start', 'stop', 'step', 'dtype'))
    a, b, s = A.t('start'), A.t('stop'), A.t('step', ONE)
    if b is NONE:
        a, b = ZERO, a
    if s is NONE:
        s = ONE
    if s is ONE:
        return V(hint(None, A.t('dtype'), add(a, arange(fceil(sub(b, a)))) if a is not ZERO else arange(fceil(b))))
    return V(add(a, mul(s, arange(fceil(div(sub(b, a), s))))))


@np_('linspace')
def _linspace(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('start', 'stop', 'num', 'endpoint', 'retstep', 'dtype'))
    if A.has('retstep') and A.t('retstep') is not FALSE:
        return V(opaque('linspace retstep', A.t('start'), A.t('stop')))
    n = A.t('num', num(50))
    a, b = A.t('start'), A.t('stop')
    ep = A.t('endpoint', TRUE)
    m = sub(n, ONE) if ep is TRUE else n
    if m is ZERO:
        return V(mul(a, mk('ones', mk('tup', n))))
    return V(add(mul(a, mk('ones', mk('tup', n))) if a is not ZERO else ZERO, mul(div(sub(b, a), m), arange(n))))


@np_('geomspace')
def _geomspace(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('start', 'stop', 'num', 'endpoint'))
    n = A.t('num', num(50))
    a, b = A.t('start'), A.t('stop')
    m = sub(n, ONE) if A.t('endpoint', TRUE) is TRUE else n
    if m is ZERO:
        return V(mul(a, mk('ones', mk('tup', n))))
    return V(mul(a, fpow(div(b, a), div(arange(n), m))))


@np_('logspace')
def _logspace(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('start', 'stop', 'num', 'endpoint', 'base'))
    x = _linspace(ip, args[:4], {k: v for k, v in kw.items() if k != 'base'}, st, cx, node).t
    return V(fpow(A.t('base', num(10)), x))


@np_('searchsorted')
def _searchsorted(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'v', 'side', 'sorter'))
    a, v, side = A.a('a'), A.t('v'), A.t('side', const('left'))
    if A.has('sorter') or rank(v) != 0 or side.op != 'str':
        return V(opaque('searchsorted', a, v))
    # elements (of the sorted array) below v, or not above it
    return V(fcount(acmp('<' if side is const('left') else '<=', a, v), NONE))


@np_('sort')
def _npsort(ip, args, kw, st, cx, node):
    if len(args) == 1 and not kw:
        c = ip.content(args[0], st)
        if c.op in ('arr', 'list'):
            c = c.args[0]
        if c.op in ('keys', 'sorted') or c.op == 'Map' and rank(open_binder(c)[2][0]) == 0 or \
                c.op == 'lit' and all(x.op == 'num' or x.op == 'poly' and rank(x) == 0 for x in c.args):
            return V(toarr(fsorted(c)))
    return None


@np_('unique')
def _unique(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('ar', 'return_index', 'return_inverse', 'return_counts', 'axis'))
    x = A.a('ar')
    if any(A.has(k) and A.t(k) is not FALSE for k in ('return_index', 'return_inverse', 'return_counts')):
        opts = tuple(k for k in ('return_index', 'return_inverse', 'return_counts') if A.has(k))
        return V(mk('tup', mk('unique', x), *[mk('uniq_' + k, x) for k in opts]))
    return V(mk('unique', x))


@np_('ravel', 'ndarray.flatten')
def _ravel(ip, args, kw, st, cx, node):
    x = arr(ip, args[0], st)
    return V(fravel(x), args[0].tok)


def fravel(x):
    if x.op == 'ite':
        return lift(fravel, x)
    if rank(x) == 1:
        if x.op == 'arr' or True:
            return x
    if x.op == 'argwhere':
        return mk('nonzero', x.args[0])
    if x.op == 'poly' and all(rank(t) in (0, rank(x)) for t in x.kids):
        return alg._map_atoms(x, lambda t: fravel(t) if rank(t) else t)
    if x.op == 'arr' and x.args[0].op == 'lit' and all(rank(y) is not None for y in x.args[0].args):
        parts = [fravel(y) if rank(y) else mk('arr', mk('lit', y)) for y in x.args[0].args]
        if all(q.op == 'arr' for q in parts):
            return mk('arr', alg.cat(*[q.args[0] for q in parts]))
        if len(parts) == 1:
            return parts[0]
    if x.op in ('cast', 'abs') and rank(x):
        return (REB[x.op] if x.op in REB else lambda *z: mk(x.op, *z))(fravel(x.args[0]), *x.args[1:])
    return mk('ravel', x)


REB['ravel'] = fravel


@np_('transpose')
def _tr(ip, args, kw, st, cx, node):
    return V(transpose(arr(ip, args[0], st)), args[0].tok)


@np_('cumsum')
def _cumsum(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'axis', 'dtype'))
    x = A.a('a')
    ax = normaxis(x, axisof(A))
    return V(linear(lambda y: mk('cumsum', y, ax), x))


def linear(f, x):
    """apply a linear array operator, pulling scalar factors out and splitting sums"""
    if x.op == 'ite':
        return lift(lambda y: linear(f, y), x)
    if x.op == 'poly':
        r = ZERO
        for m, c in x.args[0]:
            scal, ar = num(c), ONE
            for a, e in m:
                t = alg._poly({((a, e),): F(1)}) if a.op == 'poly' else power(a, e)
                if rank(a) == 0:
                    scal = mul(scal, t)
                else:
                    ar = mul(ar, t)
            if ar is ONE:
                return f(x)
            r = add(r, mul(scal, f(ar)))
        return r
    return f(x)


@np_('unravel_index')
def _unravel_index(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('indices', 'shape', 'order'))
    k, s = A.a('indices'), shapeterm(A.t('shape'))
    if A.has('order') or s.op != 'tup' or len(s.args) != 2:
        return V(opaque('unravel_index', k, s))
    return V(mk('tup', arith('//', k, s.args[1]), arith('%', k, s.args[1])))


@np_('ix_')
def _ix(ip, args, kw, st, cx, node):
    xs = [lib_array(a.t) for a in args]
    out = []
    for j, x in enumerate(xs):
        for k in range(len(xs)):
            if k != j:
                x = mk('expand', x, num(k))
        out.append(x)
    return V(mk('tup', *out))


def lib_array(x):
    if x.op in ('tup', 'lit'):
        return mk('arr', mk('lit', *x.args))
    return x


@np_('take')
def _take(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'indices', 'axis', 'out', 'mode'))
    a, k, ax, m = A.a('a'), A.a('indices'), A.t('axis', NONE), A.t('mode', const('raise'))
    if A.has('out') or rank(a) in (0, None) or rank(k) is None or ax is NONE and rank(a) != 1 or m.op != 'str' \
            or m.args[0] not in ('raise', 'wrap') or ax is not NONE and ax.op != 'num':
        return V(opaque('take', a, k, ax))
    ax = 0 if ax is NONE else int(ax.args[0]) % rank(a)
    if m.args[0] == 'wrap':
        d = size(a, num(ax))
        k = arith('%', k, d)
    if rank(k) == 0:
        return V(idx(a, k) if ax == 0 else col(a, k, ax))
    if rank(k) > 1:
        return V(opaque('take', a, k))
    return V(gather(a, ax, k))


@np_('tile')
def _tile(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('A', 'reps'))
    a, r = A.a('A'), A.t('reps')
    if rank(a) and not alg.has_ite(a) and (r.op in ('tup', 'lit') or rank(r) == 0):
        return V(alg.tile(a, r.args if r.op in ('tup', 'lit') else (r,)))
    return V(mk('tile', a, r))


def _argm(o):
    def f(ip, args, kw, st, cx, node):
        A = Args(ip, args, kw, st, ('a', 'axis'))
        x = A.a('a')
        return V(fargm(o, x))
    return f


def own_index(p):
    """index at which a linear grid meets one of its own elements: p = s*(arange(n) - k), k an index below n"""
    p = alg.ratnorm(p)
    ar = {a for m in pdict(p) for a, e in m if a.op == 'arange' and len(a.args) == 1}
    if len(ar) != 1:
        return None
    g, = ar
    co, rest = ZERO, ZERO
    for m, c in pdict(p).items():
        if dict(m).get(g) == 1:
            co = add(co, alg._poly({tuple((a, e) for a, e in m if a is not g): c}))
        elif any(a is g or rank(a) for a, e in m):
            return None
        else:
            rest = add(rest, alg._poly({m: c}))
    q = alg.ratnorm(div(neg(rest), co))
    if q.op == 'num' and g.args[0].op == 'num' and 0 <= q.args[0] < g.args[0].args[0] and q.args[0].denominator == 1:
        return q
    if q.op in ('argmin', 'argmax'):
        n = [a.args[0] for a in atoms_in(q.args[0], 'arange')]
        if n == [g.args[0]]:
            return q
    return None


def atoms_in(t, op):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == op:
            out.append(x)
        elif x.op in ('poly', 'abs', 'cast'):
            todo.extend(x.kids)
    return out


def fargm(o, x):
    if x.op == 'ite':
        return lift(lambda y: fargm(o, y), x)
    if o == 'argmin' and x.op == 'abs':
        k = own_index(x.args[0])
        if k is not None:
            return k
    if x.op == 'poly':
        # scalar offsets and positive numeric factors do not move the extremum
        d = {m: c for m, c in pdict(x).items() if rank(alg._poly({m: c})) != 0}
        if len(d) == 1:
            (m, c), = d.items()
            if c < 0:
                return mk('argmin' if o == 'argmax' else 'argmax', alg._poly({m: F(1)}))
            return mk(o, alg._poly({m: F(1)}))
        lead = sorted(d.items(), key=lambda t: tuple((a.id, e) for a, e in t[0]))[0][1]
        y = alg._poly({m: c / abs(lead) for m, c in d.items()})
        return mk(o, y)
    return mk(o, x)


REB['argmin'], REB['argmax'] = lambda x, *r: fargm('argmin', x) if not r else mk('argmin', x, *r), lambda x, *r: fargm('argmax', x) if not r else mk('argmax', x, *r)
NP['numpy.argmax'], NP['numpy.argmin'] = _argm('argmax'), _argm('argmin')


@np_('argwhere')
def _argwhere(ip, args, kw, st, cx, node):
    x = arr(ip, args[0], st)
    return V(mk('argwhere', boolarr(x)))


@np_('flatnonzero')
def _fnz(ip, args, kw, st, cx, node):
    return V(mk('nonzero', boolarr(arr(ip, args[0], st))))


@np_('nonzero')
def _nz(ip, args, kw, st, cx, node):
    x = boolarr(arr(ip, args[0], st))
    if rank(x) == 1:
        return V(mk('tup', mk('nonzero', x)))
    return V(mk('nonzeros', x))


@np_('where')
def _where(ip, args, kw, st, cx, node):
    if len(args) == 1:
        return _nz(ip, args, kw, st, cx, node)
    return V(fwhere(arr(ip, args[0], st), num_of(arr(ip, args[1], st)), num_of(arr(ip, args[2], st))))


def boolarr(x):
    if x.op == 'ite':
        return lift(boolarr, x)
    return x if x.op in ('acmp', 'anot', 'bitop', 'isnan', 'mamask', 'where') or rank(x) == 0 or kind(x) == 'bool' \
        else acmp('!=', x, ZERO)


@np_('vectorize')
def _vectorize(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('pyfunc', 'otypes', 'doc', 'excluded', 'cache', 'signature'))
    if any(A.has(n) for n in ('excluded', 'cache', 'signature')):
        return V(opaque('vectorize options', args[0].t))
    return V(mk('vectorized', args[0].t, A.t('otypes')))


def vectorized(ip, t, args, kw, st, cx, node):
    """call of numpy.vectorize(f, otypes)"""
    f, ot = t.args
    a = frz(ip, args[0], st) if len(args) == 1 and not kw else None
    if a is not None and a.op == 'ite':
        return ip.cases(args[0], st, lambda s, v: vectorized(ip, t, [v], kw, s, cx, node))
    one = ot.args[0] if ot.op in ('lit', 'tup') and len(ot.args) == 1 else ot
    if one is NONE and a is not None and rank(a) == 1:
        ip.raise_if(eq(alg.flen(a), ZERO), 'ValueError', st, cx, node)
    elif one in (const('f'), const('f4')) or one is not NONE and dtname(one) in ('float32', 'float16', 'single', 'half'):
        return V(cast(vectorized(ip, mk('vectorized', f, const('d')), args, kw, st, cx, node).t, 'float32'))
    if a is None or rank(a) not in (0, 1) or one is NONE and is_int(a) or one is not NONE and \
            one not in (const('d'), const('f8')) and dtname(one) not in ('float64', 'float'):
        return V(mk('app', t, tuple(frz(ip, x, st) for x in args), tuple(sorted((n, frz(ip, x, st)) for n, x in kw.items()))))
    if rank(a) == 0:
        return ip.call(V(f), args, {}, st, cx, node)
    out = _map(ip, [V(f), V(a)], {}, st, cx, node)
    return V(toarr(toseq(frz(ip, out, st))))


@np_('histogram')
def _hist(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'bins', 'range', 'density', 'weights'))
    x, b = fravel(A.a('a')), A.a('bins', num(10))
    for k in ('density', 'weights'):
        if A.has(k) and A.t(k) not in (NONE, FALSE):
            return V(mk('tup', opaque('histogram options', x, b), b))
    if rank(b) == 0 and kind(b) != 'list':
        # so many bins of one width over the range
        rg = A.t('range') if A.has('range') else NONE
        if rg.op == 'ite' or rg is not NONE and (rg.op not in ('tup', 'lit') or len(rg.args) != 2):
            return V(mk('tup', opaque('histogram options', x, b), b))
        lo, hi = rg.args if rg is not NONE else (REB['amin'](x, NONE), REB['amax'](x, NONE))
        if rg is not NONE or not ismsk(x):
            b = add(lo, mul(div(sub(hi, lo), b), alg.arange(add(b, ONE))))
    elif kind(b) == 'list':
        b = toarr(b)
    return V(mk('tup', mk('hist', x, b), b if rank(b) else mk('hedges', x, b)))


@np_('bincount')
def _bincount(ip, args, kw, st, cx, node):
    return V(opaque('bincount', *[frz(ip, a, st) for a in args]))


@np_('concatenate', 'hstack')
def _concat(ip, args, kw, st, cx, node):
    c = frz(ip, args[0], st)
    ax = kw['axis'].t if 'axis' in kw else args[1].t if len(args) > 1 else ZERO
    if c.op in ('lit', 'tup') and len(c.args) == 1:
        return V(c.args[0])
    if c.op == 'tup':
        c = mk('lit', *c.args)
    return V(mk('concat', c, ax))


@np_('stack')
def _stack(ip, args, kw, st, cx, node):
    c = frz(ip, args[0], st)
    ax = kw['axis'].t if 'axis' in kw else args[1].t if len(args) > 1 else ZERO
    if ax is ZERO:
        return V(toarr(c))
    return V(mk('stackax', c, ax))


@np_('shape')
def _shape_(ip, args, kw, st, cx, node):
    return V(data_attr(ip, V(arr(ip, args[0], st)), 'shape', st, cx, node).t)


@np_('size')
def _size_(ip, args, kw, st, cx, node):
    return V(size(arr(ip, args[0], st), args[1].t if len(args) > 1 else NONE))


@np_('ndim')
def _ndim_(ip, args, kw, st, cx, node):
    x = arr(ip, args[0], st)
    return V(num(rank(x)) if rank(x) is not None else mk('ndim', x))


@np_('diff')
def _diff(ip, args, kw, st, cx, node):
    x = arr(ip, args[0], st)
    return V(sub(sl(x, ZERO, ONE, NONE, ONE), sl(x, ZERO, NONE, num(-1), ONE)))


@np_('reshape')
def _reshape(ip, args, kw, st, cx, node):
    x = arr(ip, args[0], st)
    return V(freshape(x, shapeterm(frz(ip, args[1], st))), args[0].tok)


def freshape(x, s):
    if s.op == 'tup' and len(s.args) == 1 and isneg(s.args[0]):
        return fravel(x)
    if x.op == 'ite' or s.op == 'ite':
        return lift(freshape, x, s)
    sx = shape(x)
    if s.op == 'tup' and sx is not None:
        neg_ = [k for k, d in enumerate(s.args) if isneg(d)]
        if len(neg_) == 1:
            tot = ONE
            for d in sx:
                tot = mul(tot, d)
            for k, d in enumerate(s.args):
                if k != neg_[0]:
                    tot = div(tot, d)
            s = mk('tup', *[tot if k == neg_[0] else d for k, d in enumerate(s.args)])
        if sx == s.args:
            return x
        if not neg_ or len(neg_) == 1:
            if len(s.args) > len(sx) and tuple(d for d in s.args if d is not ONE) == tuple(d for d in sx if d is not ONE) \
                    and not any(d is ONE for d in sx):
                for k, d in enumerate(s.args):
                    if d is ONE:
                        x = mk('expand', x, num(k))
                return x
            if len(s.args) < len(sx) and x.op == 'expand' and tuple(d for d in sx if d is not ONE) == s.args:
                while x.op == 'expand':
                    x = x.args[0]
                return freshape(x, s)
            n = len(sx) - 1
            if x.op == 'arr' and len(s.args) == len(sx) + 1 and s.args[2:] == sx[1:] and s.args[0].op == 'num' \
                    and s.args[1].op == 'num' and sx[0].op == 'num' and x.args[0].op == 'lit':
                a, b = int(s.args[0].args[0]), int(s.args[1].args[0])
                e = x.args[0].args
                if a * b == len(e):
                    return mk('arr', mk('lit', *[mk('arr', mk('lit', *e[j * b:(j + 1) * b])) for j in range(a)]))
    return mk('reshape', x, s)


@np_('squeeze')
def _squeeze(ip, args, kw, st, cx, node):
    x = arr(ip, args[0], st)
    return V(x if x.op == 'sym' else mk('squeeze', x), args[0].tok)


@np_('atleast_1d', 'atleast_2d')
def _al(ip, args, kw, st, cx, node):
    x = arr(ip, args[0], st)
    d = 2 if dotted_name(node).endswith('2d') else 1
    r = rank(x)
    if alg.has_ite(x):
        return V(lift(lambda y: atleast(y, d), x), args[0].tok)
    return V(atleast(x, d), args[0].tok)


def dotted_name(node):
    f = getattr(node, 'func', None)
    return getattr(f, 'attr', getattr(f, 'id', '')) or ''


def atleast(x, d):
    r = rank(x)
    if r is None or r == 0:
        return opaque('atleast_%dd' % d, x)
    while r < d:
        x = mk('expand', x, ZERO)
        r += 1
    return x


@np_('repeat')
def _repeat(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'repeats', 'axis'))
    a, r, ax = A.a('a'), A.t('repeats'), A.t('axis', NONE)
    if rank(a) == 0 and rank(r) == 0 and ax is NONE:
        return V(mul(a, mk('ones', mk('tup', r))))
    if rank(a) == 1 and rank(r) == 0 and ax in (NONE, ZERO) and not alg.has_ite(a):
        if size(a, ZERO) is ONE:
            return V(mul(idx(a, ZERO), mk('ones', mk('tup', r))))
        if a.op == 'arr' and a.args[0].op == 'lit' and r.op == 'num' and 0 <= r.args[0] < 50:
            return V(mk('arr', mk('lit', *[x for x in a.args[0].args for _ in range(int(r.args[0]))])))
    return None


@np_('broadcast_to')
def _broadcast_to(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('array', 'shape', 'subok'))
    return V(mul(A.a('array'), mk('ones', shapeterm(A.t('shape')))))


def _isclose(name):
    def f(ip, args, kw, st, cx, node):
        A = Args(ip, args, kw, st, ('a', 'b', 'rtol', 'atol', 'equal_nan'))
        x, y = arr(ip, args[0], st), arr(ip, args[1], st)
        x, y = (x, y) if x.id < y.id else (y, x)
        o = tuple(A.t(n) if A.has(n) else num(d) for n, d in (('rtol', F(1, 10 ** 5)), ('atol', F(1, 10 ** 8))))
        return V(batom(mk('b', mk('close', name, x, y, *o, A.t('equal_nan') if A.has('equal_nan') else FALSE))))
    return f


for _n in ('isclose', 'allclose'):
    NP['numpy.' + _n] = _isclose(_n)


def arrequal(x, y, en):
    if x.op == 'ite' or y.op == 'ite':
        return lift(lambda a, b: arrequal(a, b, en), x, y)
    if rank(x) == 0 and rank(y) == 0:
        r = eq(x, y)
        return bor(r, band(fisnan(x), fisnan(y))) if en is TRUE else band(r, bnot(fisnan(x)))
    if x is y and en is TRUE:
        return TRUE
    if x.op == y.op == 'arr' and x.args[0].op == y.args[0].op == 'lit':
        p, q = x.args[0].args, y.args[0].args
        if len(p) != len(q):
            return FALSE
        if all(rank(e) == 0 for e in p + q):
            r = TRUE
            for a, b in zip(p, q):
                r = band(r, arrequal(a, b, en))
            return r
    x, y = (x, y) if x.id < y.id else (y, x)
    return batom(mk('b', mk('arreq', x, y, en)))


REB['arreq'] = lambda x, y, en: arrequal(x, y, en)


@np_('array_equal')
def _array_equal(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a1', 'a2', 'equal_nan'))
    return V(arrequal(A.a('a1'), A.a('a2'), A.t('equal_nan') if A.has('equal_nan') else FALSE))


def fisfinite(x):
    if x.op == 'ite':
        return lift(fisfinite, x)
    if rank(x) == 0:
        return bnot(bor(fisnan(x), fisinf(x)))
    return mk('isfinite', x)


def fisinf(x):
    if x.op == 'ite':
        return lift(fisinf, x)
    if x is NAN or x.op in ('num', 'str', 'none') or is_int(x):
        return FALSE
    if x.op == 'inf':
        return TRUE
    return batom(mk('b', mk('isinf', x))) if rank(x) == 0 else mk('isinf', x)


NP['math.isinf'] = NP['numpy.isinf'] = unary(fisinf)
NP['math.isfinite'] = NP['numpy.isfinite'] = unary(fisfinite)


@np_('interp', 'trapz', 'trapezoid', 'convolve', 'digitize', 'percentile', 'quantile', 'nanmean',
     'nanmax', 'nanmin', 'split', 'einsum', 'meshgrid', 'pad', 'roll', 'argsort', 'insert', 'delete', 'append',
     'setdiff1d', 'in1d', 'isin', 'indices', 'eye')
def _congr(ip, args, kw, st, cx, node):
    return None


# masked arrays -------------------------------------------------------

def _fullmask(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('data', 'mask', 'dtype'))
    x = A.a('data')
    if not A.has('mask'):
        return V(mk('masked', x, NONE))
    return V(mk('masked', x, A.a('mask')))


NP['numpy.ma.MaskedArray'] = _fullmask


@np_('ma.getdata')
def _getdata(ip, args, kw, st, cx, node):
    x = arr(ip, args[0], st)
    return V(fmadata(x), args[0].tok)


def fmadata(x):
    if x.op == 'ite':
        return lift(fmadata, x)
    if not ismsk(x):
        return x
    if x.op == 'masked':
        return x.args[0]
    if x.op == 'poly':
        return alg._map_atoms(x, lambda t: fmadata(t) if rank(t) else t)
    if x.op in ('sl', 'T', 'ravel', 'cast', 'idx') and x.args[0]:
        return REB[x.op](fmadata(x.args[0]), *x.args[1:])
    return mk('madata', x)


REB['madata'] = fmadata


@np_('ma.getmask', 'ma.getmaskarray')
def _getmask(ip, args, kw, st, cx, node):
    x = arr(ip, args[0], st)
    if x.op == 'masked':
        return V(x.args[1])
    return V(fmask(x))


def fmask(x):
    """mask of an elementwise expression: union of the masks of its array parts"""
    if x.op == 'ite':
        return lift(fmask, x)
    if x.op == 'masked':
        return x.args[1]
    if not ismsk(x):
        return FALSE
    if x.op in ('cast', 'abs', 'rint'):
        return fmask(x.args[0])
    return mk('mamask', x)


REB['mamask'] = fmask


@np_('ma.compressed')
def _compressed(ip, args, kw, st, cx, node):
    x = arr(ip, args[0], st)
    return V(fcompressed(x))


def fcompressed(x):
    if x.op == 'ite':
        return lift(fcompressed, x)
    if not ismsk(x):
        return fravel(x)
    if x.op == 'poly':
        arrs = [t for t in x.kids if rank(t)]
        if len(arrs) == 1:
            return alg._map_atoms(x, lambda t: fcompressed(t) if rank(t) else t)
    if x.op in ('cast', 'abs', 'rint'):
        return (REB[x.op] if x.op in REB else lambda *z: mk(x.op, *z))(fcompressed(x.args[0]), *x.args[1:])
    return mk('compressed', x)


REB['compressed'] = fcompressed


@np_('ma.count')
def _macount(ip, args, kw, st, cx, node):
    x = arr(ip, args[0], st)
    return V(fmacount(x, args[1].t if len(args) > 1 else kw['axis'].t if 'axis' in kw else NONE))


@np_('ma.filled')
def _filled(ip, args, kw, st, cx, node):
    x = arr(ip, args[0], st)
    v = args[1].t if len(args) > 1 else NONE
    return V(x if not ismsk(x) else mk('filled', x, v))


def isMA(x):
    """isinstance(x, np.ma.MaskedArray)"""
    if x.op == 'sym' and maskable(x) or x.op == 'masked':
        return TRUE
    if x.op in ('sym',) and rank(x) is not None:
        return FALSE
    if ismsk(x):
        return TRUE
    return FALSE if rank(x) is not None else None


# fft, scipy ----------------------------------------------------------

@np_('fft.fft')
def _fft(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'n', 'axis', 'norm'))
    x = A.a('a')
    n = A.t('n')
    ax = A.t('axis', num(-1))
    r = rank(x)
    if ax.op == 'num' and r is not None and ax.args[0] < 0:
        ax = num(r + int(ax.args[0]))
    s = shape(x)
    if n is not NONE and s is not None and ax.op == 'num' and s[int(ax.args[0])] is n:
        n = NONE
    nm = A.t('norm')
    if nm not in (NONE, const('backward'), const('ortho'), const('forward')):
        return V(opaque('fft norm', x))
    if n is not NONE:
        if A.has('norm'):
            return V(opaque('fft norm', x))
        return V(mk('fftn', x, n, ax))
    f = linear(lambda y: ffft(y, ax), x)
    if nm is const('ortho'):
        f = div(f, sqrt(size(x, ax)))
    elif nm is const('forward'):
        f = div(f, size(x, ax))
    return V(f)


def ffft(y, ax):
    r = rank(y)
    if ax.op == 'num' and ax.args[0] < 0 and r:
        ax = num(r + int(ax.args[0]))
    return mk('fft', y, ax)


REB['fft'] = ffft
RANKF['fftn'] = lambda n: rank(n.args[0])


@np_('fft.rfft')
def _rfft(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'n', 'axis', 'norm'))
    x = A.a('a')
    ax = A.t('axis', num(-1))
    r, s = rank(x), shape(x)
    if A.has('n') or A.has('norm') or r is None or s is None or ax.op != 'num':
        return V(opaque('rfft', x, ax))
    ax = num(r + int(ax.args[0])) if ax.args[0] < 0 else ax
    return V(sl(linear(lambda y: ffft(y, ax), x), ax, NONE,
                add(ffloor(div(s[int(ax.args[0])], num(2))), ONE), ONE))


@np_('scipy.ndimage.convolve')
def _conv(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('input', 'weights', 'output', 'mode', 'cval', 'origin'))
    x, w = A.a('input'), A.a('weights')
    opts = tuple((k, A.t(k)) for k in ('output', 'mode', 'cval', 'origin') if A.has(k)
                 and not (k == 'mode' and A.t(k).op == 'str' and A.t(k).args[0] == 'reflect'))
    # linear in the kernel: pull numeric factors out
    f = ONE
    if w.op == 'poly' and len(w.args[0]) == 1:
        (m, c), = w.args[0]
        sc, ar = num(c), ONE
        for a, e in m:
            t = power(a, e)
            if rank(a) == 0:
                sc = mul(sc, t)
            else:
                ar = mul(ar, t)
        f, w = sc, ar
    r = mk('convn', x, w, tuple(sorted(opts)))
    return V(mul(f, r))


@np_('scipy.ndimage.uniform_filter')
def _unif(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('input', 'size', 'output', 'mode', 'cval', 'origin'))
    x, s = A.a('input'), A.t('size')
    if s.op == 'num' and rank(x) == 2 and len(A.v) == 2:
        n = mk('num', s.args[0])
        return V(mul(div(ONE, mul(n, n)), mk('convn', x, mk('ones', mk('tup', n, n)), ())))
    return V(opaque('uniform_filter', x, s))


@np_('scipy.optimize.leastsq')
def _leastsq(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('func', 'x0', 'args', 'Dfun', 'full_output'))
    x0 = A.t('x0')
    if x0.op == 'arr':
        x0 = x0.args[0]
    n = flen(x0) if x0.op in ('lit', 'tup') else None
    extra = list(A.V('args').t.args) if A.has('args') and A.V('args').t.op == 'tup' else \
        [A.V('args').t] if A.has('args') else []
    if n is None or n.op != 'num':
        return V(opaque('leastsq', x0))
    ps = [tmp('p', False, 0) for _ in range(int(n.args[0]))]
    s2 = st.copy()
    res = ip.call(A.V('func'), [V(mk('tup', *ps))] + [V(x) for x in extra], {}, s2, cx, node)
    r = arr(ip, res, s2)
    fit = linfit(r, ps)
    if fit is None:
        fit = [mk('pfit', opaque('leastsq', r), num(i)) for i in range(len(ps))]
    return V(mk('tup', mk('arr', mk('lit', *fit)), ONE))


@np_('polyfit', 'polynomial.polynomial.polyfit')
def _polyfit(ip, args, kw, st, cx, node):
    return None


def _pf(rev_):
    def f(ip, args, kw, st, cx, node):
        A = Args(ip, args, kw, st, ('x', 'y', 'deg', 'rcond', 'full', 'w', 'cov'))
        x, y = A.a('x'), A.a('y')
        w = A.a('w') if A.has('w') else None
        d = A.t('deg')
        if d is ONE and not A.has('full') and not A.has('cov'):
            s, o = polyfit1(x, y, w)
            return V(mk('arr', mk('lit', s, o) if rev_ else mk('lit', o, s)))
        return V(opaque('polyfit', x, y, d))
    return f


NP['numpy.polyfit'] = _pf(True)
NP['numpy.polynomial.polynomial.polyfit'] = _pf(False)
NP['numpy.polynomial.Polynomial.fit_'] = _pf(False)


@np_('polyval')
def _polyval(ip, args, kw, st, cx, node):
    c, x = arr(ip, args[0], st), arr(ip, args[1], st)
    if c.op == 'arr' and c.args[0].op == 'lit':
        r = ZERO
        for k in c.args[0].args:
            r = add(mul(r, x), k)
        return V(r)
    return V(opaque('polyval', c, x))


@np_('linalg.lstsq')
def _lstsq(ip, args, kw, st, cx, node):
    return V(opaque('lstsq', *[arr(ip, a, st) for a in args]))


# random --------------------------------------------------------------

DRAWS = {'poisson', 'normal', 'uniform', 'choice', 'integers', 'standard_normal', 'random', 'binomial', 'randint',
         'random_sample', 'randn', 'rand', 'permutation', 'gamma', 'exponential', 'shuffle'}
DRAWARGS = {'poisson': ('lam', 'size'), 'normal': ('loc', 'scale', 'size'), 'uniform': ('low', 'high', 'size'),
            'choice': ('a', 'size', 'replace', 'p'), 'integers': ('low', 'high', 'size'),
            'standard_normal': ('size',), 'random': ('size',), 'randint': ('low', 'high', 'size'),
            'permutation': ('x',), 'shuffle': ('x',)}
DRAWDEF = {('normal', 'loc'): ZERO, ('normal', 'scale'): ONE, ('uniform', 'low'): ZERO, ('uniform', 'high'): ONE,
           ('poisson', 'lam'): ONE, ('choice', 'replace'): TRUE}


def draw(ip, rng, dist, args, kw, st):
    names = DRAWARGS.get(dist)
    if names is None:
        pa = tuple(frz(ip, a, st) for a in args) + tuple(frz(ip, kw[k], st) for k in sorted(kw))
        sz = NONE
    else:
        A = Args(ip, args, kw, st, names)
        pa = tuple(A.a(n, DRAWDEF.get((dist, n), NONE)) for n in names if n != 'size')
        sz = A.t('size')
    if sz.op == 'shapeof' or sz.op == 'lit':
        sz = shapeterm(sz)
    scale = None
    if dist == 'standard_normal':
        dist, pa = 'normal', (ZERO, ONE)
    elif dist == 'random':
        dist, pa = 'uniform', (ZERO, ONE)
    if dist == 'poisson' and sz is NONE and rank(pa[0]):
        s = shape(pa[0])
        sz = mk('tup', *s) if s is not None else sz
    if dist in ('normal', 'uniform') and len(pa) == 2 and all(rank(x) == 0 for x in pa):
        # a scaled and shifted standard draw
        scale, shift = (pa[1], pa[0]) if dist == 'normal' else (sub(pa[1], pa[0]), pa[0])
        pa = (ZERO, ONE)
    key = mk('drawkey', rng, dist, pa, sz)
    o = st.occ.get(key, 0)
    st.occ[key] = o + 1
    d = mk('draw', rng, dist, pa, sz, num(o), tuple(ip.loopctx))
    st.emit(mk('ev', 'draw', rng, const(dist)))
    return V(add(mul(scale, d), shift) if scale is not None else d)


@np_('random.default_rng')
def _rng(ip, args, kw, st, cx, node):
    s = args[0] if args else kw.get('seed', V(NONE))
    return newrng(ip, s, st)


def newrng(ip, seed, st, *kind_):
    """every generator created from the same seed starts the same stream again"""
    t = frz(ip, seed, st)
    if t.op == 'rng':
        return V(t)
    g = mk('rng', t, *kind_)
    k = mk('newrng', g)
    n = st.occ.get(k, 0)
    st.occ[k] = n + 1
    if n or ip.loopctx:
        g = mk('rng', t, *(kind_ or ('',)), num(n), tuple(ip.loopctx))
    return V(g)


NP['numpy.random.RandomState'] = lambda ip, a, kw, st, cx, n: newrng(ip, a[0] if a else kw.get('seed', V(NONE)), st, 'RandomState')
NP['numpy.random.PCG64'] = NP['numpy.random.SeedSequence'] = lambda ip, a, kw, st, cx, n: (
    V(mk('bitgen', frz(ip, a[0] if a else kw.get('seed', V(NONE)), st))))
NP['numpy.random.Generator'] = lambda ip, a, kw, st, cx, n: newrng(
    ip, V(a[0].t.args[0]) if a and a[0].t.op == 'bitgen' else a[0], st)


# ---------------------------------------------------------------- externals

def external(ip, name, args, kw, st, cx, node):
    name = canon(name)
    f = ip.override.get('ext:' + name)
    if f is not None:
        r = f(ip, args, kw, st, cx, node)
        if r is not None:
            return r
    f = NP.get(name)
    if f is not None:
        r = f(ip, args, kw, st, cx, node)
        if r is not None:
            return r
        return V(mk('lib', name, tuple(frz(ip, a, st) for a in args),
                    tuple((k, frz(ip, kw[k], st)) for k in sorted(kw))))
    if name in DTYPES:
        n = DTYPES[name]
        x = arr(ip, args[0], st)
        if n.startswith(('int', 'uint')) and rank(x) == 0:
            return V(ftrunc(x))
        return V(cast(x, n))
    if name == 'numpy.dtype':
        n = dtname(args[0].t)
        return V(mk('dtype', n) if n else mk('dtypeof_', args[0].t))
    if name.startswith('numpy.random.') and name.rsplit('.', 1)[1] in DRAWS | {'seed'}:
        if name.endswith('.seed'):
            st.emit(mk('ev', 'reseed', *[frz(ip, a, st) for a in args]))
            return V(NONE)
        return draw(ip, mk('rng', 'global'), name.rsplit('.', 1)[1], args, kw, st)
    if name.startswith('random.'):
        return draw(ip, mk('rng', 'python'), name.rsplit('.', 1)[1], args, kw, st)
    g = EXT.get(name)
    if g is not None:
        return g(ip, args, kw, st, cx, node)
    if name.split('.')[0] in ('logging', 'pprint', 'warnings', 'time'):
        if name == 'logging.getLogger' or name.startswith('logging.'):
            return V(mk('logger'))
        return V(opaque('call ' + name))
    if missing(name):
        ip.raise_if(TRUE, 'AttributeError', st, cx, node, (const(name),))
    last = name.split('.')[-1]
    b = getattr(_bi, last, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        return V(mk('exc', last, *[frz(ip, a, st) for a in args]))
    fa = tuple(frz(ip, a, st) for a in args)
    fk = tuple((k, frz(ip, kw[k], st)) for k in sorted(kw))
    ip.notes.append(('extern', name, ip.where(cx, node)))
    ip.risk(mk('app', mk('ext', name)))
    return V(mk('opq', 'call ' + name, fa, fk))


@np_('put')
def _put(ip, args, kw, st, cx, node):
    """a.flat[ind] = v"""
    A = Args(ip, args, kw, st, ('a', 'ind', 'v', 'mode'))
    a, k, v = A.a('a'), A.a('ind'), A.a('v')
    if rank(a) == 2 and shape(a) is not None and rank(v) == 0 and not A.has('mode'):
        w = shape(a)[1]
        r = astore(a, mk('tup', arith('//', k, w), arith('%', k, w)), v)
    elif rank(a) == 1 and rank(v) == 0 and not A.has('mode'):
        r = astore(a, k, v)
    else:
        r = opaque('elements put', a, k, v)
    ip.update_array(A.V('a'), r, st)
    return V(NONE)


@np_('putmask', 'place')
def _putmask(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('a', 'mask', 'values'))
    a, m, v = A.a('a'), A.a('mask'), A.a('values')
    r = fwhere(m, v, a) if rank(v) == 0 and rank(m) == rank(a) is not None else opaque('elements put', a, m, v)
    ip.update_array(A.V('a'), r, st)
    return V(NONE)


@np_('copyto')
def _copyto(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('dst', 'src', 'casting', 'where'))
    a, v = A.a('dst'), A.a('src')
    if A.unknown or A.has('casting') or rank(a) is None or rank(v) is None or a.op == 'cast':
        r = opaque('array copied', a, v)
    elif 'where' in A.v and A.t('where') is not TRUE:
        m = A.a('where')
        r = fwhere(m, v, a) if rank(m) == rank(a) else opaque('array copied', a, v, m)
    else:
        r = v if rank(v) == rank(a) else astore(a, mk('ellipsis'), v)
    ip.update_array(A.V('dst'), r, st)
    return V(NONE)


@np_('fill_diagonal', 'put_along_axis')
def _change(ip, args, kw, st, cx, node):
    r = opaque('array changed', *[frz(ip, a, st) for a in args])
    ip.update_array(args[0], r, st)
    return V(NONE)


EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


@ext('os.path.join')
def _join(ip, args, kw, st, cx, node):
    ts = []
    for a in args:
        t = a.t
        ts.append(t)
    if any(t.op == 'ite' for t in ts):
        return V(lift(lambda *x: pathjoin(*x), *ts))
    return V(pathjoin(*ts))


def split_path(t):
    """'a/b' joined is 'a' and 'b' joined"""
    from . import text
    ps = text.parts(t) if t.op in ('str', 'scat') else None
    if not ps or not any('/' in p for p in ps if isinstance(p, str)) or \
            any(not isinstance(p, str) and not text.excludes(p, '/') for p in ps):
        return [t]
    segs = [[]]
    for p in ps:
        if not isinstance(p, str):
            segs[-1].append(p)
            continue
        for k, x in enumerate(p.split('/')):
            if k:
                segs.append([])
            if x:
                segs[-1].append(x)
    if not all(segs):
        return [t]
    return [text.join(s) for s in segs]


def pathjoin(*ts):
    out = []
    for t in ts:
        if t.op == 'pathjoin':
            out.extend(t.args)
        elif t.op == 'str' and t.args[0].startswith('/'):
            out = [t]
        else:
            out.extend(split_path(t))
    if all(t.op == 'str' for t in out):
        import posixpath
        return const(posixpath.join(*[t.args[0] for t in out]))
    return mk('pathjoin', *out)


REB['pathjoin'] = pathjoin


def pure(op, n=None):
    def f(ip, args, kw, st, cx, node):
        xs = [frz(ip, a, st) for a in args] + [frz(ip, kw[k], st) for k in sorted(kw)]
        if any(x.op == 'ite' for x in xs):
            return V(lift(lambda *y: mk(op, *y), *xs))
        return V(mk(op, *xs))
    return f




def dirname(t):
    if t.op == 'ite':
        return lift(dirname, t)
    if t.op == 'pathjoin':
        from . import text
        ps = text.parts(t.args[-1])
        if ps and all(('/' not in p) if isinstance(p, str) else text.excludes(p, '/') for p in ps):
            return t.args[0] if len(t.args) == 2 else mk('pathjoin', *t.args[:-1])
    return mk('dirname', t)


@ext('os.path.dirname')
def _dirname(ip, args, kw, st, cx, node):
    return V(dirname(frz(ip, args[0], st)))


EXT['os.path.basename'] = pure('basename')
EXT['os.path.abspath'] = pure('abspath')
EXT['os.path.realpath'] = pure('realpath')
def normpath(t):
    if t.op == 'ite':
        return lift(normpath, t)
    if t.op == 'str':
        import posixpath
        return const(posixpath.normpath(t.args[0]))
    return t if text.plain_path(t) else mk('normpath', t)


REB['normpath'] = normpath
EXT['os.path.normpath'] = lambda ip, args, kw, st, cx, node: V(normpath(frz(ip, args[0], st)))
EXT['os.path.splitext'] = pure('splitext')
EXT['os.path.split'] = pure('pathsplit')
EXT['os.path.expanduser'] = pure('expanduser')
EXT['os.path.relpath'] = pure('relpath')
for _n in ('isfile', 'isdir', 'exists', 'isabs'):
    EXT['os.path.' + _n] = (lambda n: lambda ip, args, kw, st, cx, node: isfile(ip, n, frz(ip, args[0], st)))(_n)


def isfile(ip, n, p):
    f = ip.override.get('ext:isfile')
    r = f(n, p) if f else None
    return V(r if r is not None else batom(mk('isfile', n, p)))


def effect(name):
    def f(ip, args, kw, st, cx, node):
        fa = tuple(frz(ip, a, st) for a in args)
        fk = tuple((k, frz(ip, kw[k], st)) for k in sorted(kw))
        ev = mk('ev', name, fa, fk)
        st.emit(ev)
        ip.risk(mk('open', ev))
        return V(mk('evret', ev))
    return f


for _n in ('os.mkdir', 'os.makedirs', 'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'shutil.copy', 'shutil.copyfile',
           'shutil.copy2', 'shutil.rmtree', 'shutil.move', 'os.chdir', 'shutil.copytree', 'os.rmdir', 'os.listdir',
           'os.getcwd', 'os.system', 'subprocess.run', 'subprocess.call', 'subprocess.Popen', 'os.symlink'):
    EXT[_n] = effect(_n)


@ext('os.fspath', 'os.fsdecode')
def _fspath(ip, args, kw, st, cx, node):
    return args[0]


@ext('collections.OrderedDict', 'collections.Counter_')
def _od(ip, args, kw, st, cx, node):
    return builtin(ip, 'dict', args, kw, st, cx, node)


@ext('collections.defaultdict')
def _dd(ip, args, kw, st, cx, node):
    f = args[0].t if args else NONE
    h = H('dict', items={}, note='defaultdict')
    h.f['$factory'] = V(f)
    return st.new(h)


@ext('copy.deepcopy', 'copy.copy')
def _copy(ip, args, kw, st, cx, node):
    h = ip.H(args[0], st)
    if h is not None:
        n = h.copy()
        if h.kind in ('dict', 'list'):
            return st.new(n)
        return st.new(n)
    return V(args[0].t)


@ext('io.open', 'codecs.open')
def _ioopen(ip, args, kw, st, cx, node):
    return builtin(ip, 'open', args, kw, st, cx, node)


@ext('tempfile.TemporaryDirectory', 'tempfile.NamedTemporaryFile')
def _tmpdir(ip, args, kw, st, cx, node):
    ev = mk('ev', 'tmpdir')
    st.emit(ev)
    return V(mk('obj', 'tmpdir'))


@ext('functools.partial')
def _partial(ip, args, kw, st, cx, node):
    return V(mk('partial', args[0].t, tuple(a.t for a in args[1:]), tuple((k, v.t) for k, v in sorted(kw.items()))))


@ext('functools.wraps')
def _wraps(ip, args, kw, st, cx, node):
    return V(mk('wrapsof', args[0].t))


@ext('functools.update_wrapper')
def _update_wrapper(ip, args, kw, st, cx, node):
    ip.docof[args[0].t] = args[1].t
    return args[0]


@ext('functools.lru_cache', 'functools.cache')
def _lru(ip, args, kw, st, cx, node):
    raise Unsupported('functools decorator', node)


@ext('functools.reduce')
def _reduce(ip, args, kw, st, cx, node):
    h = ip.H(args[1], st)
    if h is not None and isinstance(h.items, list):
        xs = list(h.items)
        acc = args[2] if len(args) > 2 else xs.pop(0)
        for x in xs:
            acc = ip.call(args[0], [acc, x], {}, st, cx, node)
        return acc
    cell = st.new(H('inst', 'cell'))
    raise Unsupported('functools.reduce', node)


@ext('itertools.product')
def _product(ip, args, kw, st, cx, node):
    cs = [frz(ip, a, st) for a in args]
    if kw or len(cs) not in (1, 2):
        raise Unsupported('itertools.product', node)
    if len(cs) == 1:
        return V(cs[0])
    i, j = tmp('i', True, 0), tmp('j', True, 0)
    a, b = [toseq(c) for c in cs]
    return V(fflatmap(i, mk('range', flen(a)), fmap(j, mk('range', flen(b)), mk('tup', idx(a, i), idx(b, j)))))


@ext('itertools.chain', 'itertools.chain.from_iterable')
def _chain(ip, args, kw, st, cx, node):
    return V(cat(*[toseq(frz(ip, a, st)) for a in args]))


# PIL / matplotlib / lxml --------------------------------------------

@ext('PIL.Image.open')
def _imopen(ip, args, kw, st, cx, node):
    p = frz(ip, args[0], st)
    st.emit(mk('ev', 'imopen', p))
    r = mk('image', p)
    ip.risk(mk('loadimg', r))
    return V(r)


@ext('PIL.Image.fromarray')
def _fromarray(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('obj', 'mode'))
    return V(mk('imagefrom', arr(ip, args[0], st), A.t('mode') if A.has('mode') else NONE))


RANKF['image'] = lambda n: 2
RANKF['imagefrom'] = lambda n: rank(n.args[0])


@ext('datetime.datetime.utcnow', 'datetime.datetime.now', 'datetime.date.today', 'datetime.datetime.today')
def _now(ip, args, kw, st, cx, node):
    return V(mk('now'))


# ---------------------------------------------------------------- builtins

def toseq(c):
    if c.op == 'ite':
        return lift(toseq, c)
    if c.op == 'tup':
        return mk('lit', *c.args)
    if kind(c) == 'dict':
        return keys(c)
    if c.op == 'items':
        return items_seq(c.args[0])
    if c.op == 'arr':
        return c.args[0]
    if c.op == 'str':
        return mk('lit', *[const(x) for x in c.args[0]])
    if c.op == 'range':
        return rangeseq(ZERO, c.args[0], ONE)
    if c.op == 'totuple':
        return c.args[0]
    return c


def rangeseq(a, b, s):
    if any(x.op == 'ite' for x in (a, b, s)):
        return lift(rangeseq, a, b, s)
    if a.op == b.op == s.op == 'num' and len(range(int(a.args[0]), int(b.args[0]), int(s.args[0]))) <= 64:
        return mk('lit', *[num(x) for x in range(int(a.args[0]), int(b.args[0]), int(s.args[0]))])
    i = tmp('i', True, 0)
    if s is ONE:
        n = sub(b, a)
    elif s.op == 'num' and s.args[0] == -1:
        n = sub(a, b)
    else:
        n = fceil(div(sub(b, a), s))
    lo = lower(n)
    if lo is None or lo < 0:
        n0 = n
        n = max2(n, ZERO)
        if n.op == 'ite':
            # the usual nonempty ranges: keep the simple length (a negative length means no iteration)
            n = n0
    return fmap(i, mk('range', n), add(a, mul(s, i)))


def order(ip, v, st):
    """the elements of a value in the order of iteration; a dictionary laid down here is in insertion order"""
    h = ip.H(v, st)
    if h is not None and h.kind == 'dict' and h.seq is None and h.items is not None:
        return mk('lit', *h.items)
    return toseq(ip.content(v, st))


def seqof(ip, v, st):
    h = ip.H(v, st)
    if h is not None and h.kind == 'dict' and h.seq is None and h.items is not None:
        return mk('lit', *h.items)
    return toseq(frz(ip, v, st))


def minmax(ip, o, args, kw, st, cx, node):
    f = max2 if o == 'max' else min2
    o2 = 'amax' if o == 'max' else 'amin'
    key = kw.get('key')
    if key is not None and key.t is not NONE:
        xs = seqof(ip, args[0], st) if len(args) == 1 else mk('lit', *[frz(ip, a, st) for a in args])
        i = tmp('i', True, 0)
        s2 = st.copy()
        k = ip.call(key, [V(idx(xs, i))], {}, s2, cx, node)
        return V(mk('bykey', o2, xs, fmap(i, mk('range', flen(xs)), ip.freeze(k.t, s2))))
    if len(args) == 1:
        t = frz(ip, args[0], st)
        if t.op == 'argwhere':
            return V(toarr(mk('lit', mk('lastidx' if o == 'max' else 'firstidx', t.args[0]))))
        c = toseq(t) if t.op != 'arr' else t
        if c.op == 'lit' and c.args:
            xs = list(c.args)
            if 'default' in kw and not xs:
                return kw['default']
            r = num_of(xs[0])
            for x in xs[1:]:
                r = f(r, num_of(x))
            return V(r)
        if c.op == 'lit':
            if 'default' in kw:
                return kw['default']
            ip.raise_if(TRUE, 'ValueError', st, cx, node)
        if c.op == 'set':
            c = c.args[0]
        if c.op == 'sorted':
            c = c.args[0]
        a = toarr(c)
        if rank(a) is None and kind(a) != 'num':
            a = mk('arr', a)
        ip.risk(mk('app', mk('bi', o)))
        r = amaxx(o2, a, NONE)
        if 'default' in kw:
            r = ite(lt(ZERO, flen(c)), r, kw['default'].t)
        return V(r)
    r = num_of(arr(ip, args[0], st))
    for x in args:
        need(ip, x.t, st, cx, node)
    r = constrain(r, st.pc)
    for x in args[1:]:
        r = f(r, constrain(num_of(arr(ip, x, st)), st.pc))
    return V(r)


def builtin(ip, name, args, kw, st, cx, node):
    f = BI.get(name)
    if f is not None:
        return f(ip, args, kw, st, cx, node)
    b = getattr(_bi, name, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        if issubclass(b, UnicodeError) and b is not UnicodeError and len(args) not in (4, 5):
            ip.raise_if(TRUE, 'TypeError', st, cx, node)
        return V(mk('exc', name, *[frz(ip, a, st) for a in args]))
    raise Unsupported('builtin ' + name, node)


BI = {}


def bi(*names):
    def d(f):
        for n in names:
            BI[n] = f
        return f
    return d


@bi('len')
def _len(ip, args, kw, st, cx, node):
    v = args[0]
    if v.t.op == 'ite' and ip.is_reflike(v.t):
        return ip.cases(v, st, lambda s, x: _len(ip, [x], kw, s, cx, node))
    h = ip.H(v, st)
    if h is not None and h.kind in ('list', 'dict') and h.items is not None:
        return V(num(len(h.items)))
    if h is not None and h.kind == 'inst' and isinstance(h.cls, Cls):
        m = h.cls.find('__len__')
        if m is not None:
            return ip.call_func(ip.mfunc(m), [v], {}, st, cx, node)
    c = frz(ip, v, st)
    if c is NONE:
        ip.raise_if(TRUE, 'TypeError', st, cx, node)
    if c.op == 'set':
        if c.args[0].op == 'lit' and all(is_constkey(x) for x in c.args[0].args):
            return V(num(len(set(c.args[0].args))))
        if c.args[0].op == 'lit' and len(c.args[0].args) <= 1:
            return V(num(len(c.args[0].args)))
        if c.args[0].op == 'keys':
            return V(flen(c.args[0]))
        return V(flen(c))
    if kind(c) == 'dict':
        return V(flen(keys(c)))
    if c.op == 'items':
        return V(flen(keys(c.args[0])))
    return V(flen(c))


@bi('range')
def _range(ip, args, kw, st, cx, node):
    ts = [num_of(a.t) for a in args]
    for t in ts:
        need(ip, t, st, cx, node)
    if len(ts) == 1:
        return V(rangeseq(ZERO, ts[0], ONE))
    return V(rangeseq(ts[0], ts[1], ts[2] if len(ts) > 2 else ONE))


@bi('enumerate')
def _enum(ip, args, kw, st, cx, node):
    s0 = args[1].t if len(args) > 1 else kw['start'].t if 'start' in kw else ZERO
    h = ip.H(args[0], st)
    if h is not None and isinstance(h.items, list):
        return st.new(H('list', items=[V(mk('tup', add(num(k), s0), v.t)) for k, v in enumerate(h.items)]))
    c = order(ip, args[0], st)
    if c.op == 'lit':
        return V(mk('lit', *[mk('tup', add(num(k), s0), x) for k, x in enumerate(c.args)]))
    i = tmp('i', True, 0)
    return V(fmap(i, mk('range', flen(c)), mk('tup', add(i, s0), idx(c, i))), args[0].tok)


@bi('zip')
def _zip(ip, args, kw, st, cx, node):
    cs = [order(ip, a, st) for a in args]
    if all(c.op == 'lit' for c in cs):
        return V(mk('lit', *[mk('tup', *x) for x in zip(*[c.args for c in cs])]))
    i = tmp('i', True, 0)
    ns = []
    for c in cs:
        n = flen(c)
        if n not in ns:
            ns.append(n)
    n = ns[0] if len(ns) == 1 else mk('minlen', *sorted(ns, key=lambda t: t.id))
    return V(fmap(i, mk('range', n), mk('tup', *[idx(c, i) for c in cs])))


@bi('reversed')
def _rev(ip, args, kw, st, cx, node):
    h = ip.H(args[0], st)
    if h is not None and isinstance(h.items, list):
        return st.new(H('list', items=list(reversed(h.items))))
    return V(rev(order(ip, args[0], st)))


def fsorted(c):
    if c.op == 'ite':
        return lift(fsorted, c)
    if c.op == 'lit' and len(c.args) <= 1:
        return c
    if c.op == 'lit' and all(x.op == 'num' for x in c.args):
        return mk('lit', *sorted(c.args, key=lambda x: x.args[0]))
    if c.op == 'lit' and all(x.op == 'str' for x in c.args):
        return mk('lit', *sorted(c.args, key=lambda x: x.args[0]))
    if c.op == 'lit' and all(x.op == 'tup' and x.args and x.args[0].op == 'str' for x in c.args) and \
            len({x.args[0] for x in c.args}) == len(c.args):
        return mk('lit', *sorted(c.args, key=lambda x: x.args[0].args[0]))
    if c.op in ('sorted', 'rev', 'list'):
        return fsorted(c.args[0])
    if c.op == 'set' and c.args[0].op in ('lit', 'tup'):
        x = c.args[0].args
        if all(y.op == 'str' for y in x) or all(y.op == 'num' for y in x):
            return mk('lit', *sorted(set(x), key=lambda y: y.args[0]))
    return mk('sorted', c)


REB['sorted'] = fsorted


@bi('sorted')
def _sorted(ip, args, kw, st, cx, node):
    c = toseq(frz(ip, args[0], st))
    if 'key' in kw and kw['key'].t is not NONE:
        if c.op == 'lit':
            ks = [ip.freeze(ip.call(kw['key'], [V(x)], {}, st, cx, node).t, st) for x in c.args]
            if all(k.op == 'str' for k in ks) or all(k.op == 'num' for k in ks):
                o = sorted(range(len(ks)), key=lambda j: ks[j].args[0],
                           reverse='reverse' in kw and kw['reverse'].t is TRUE)
                return st.new(H('list', items=[V(c.args[j]) for j in o]))
        i = tmp('i', True, 0)
        s2 = st.copy()
        k = ip.call(kw['key'], [V(idx(c, i))], {}, s2, cx, node)
        r = mk('sortedby', c, fmap(i, mk('range', flen(c)), ip.freeze(k.t, s2)))
        if ip.freeze(k.t, s2) is idx(c, i):
            r = fsorted(c)
    else:
        r = fsorted(c)
    if 'reverse' in kw and kw['reverse'].t is not FALSE:
        r = ite(truthy(kw['reverse'].t), rev(r), r)
    return st.new(H('list', seq=r)) if r.op != 'lit' else st.new(H('list', items=[V(x) for x in r.args]))


def _tolist(ip, v, st, cx=None, node=None):
    h = ip.H(v, st)
    if h is not None and h.kind == 'inst' and isinstance(h.cls, Cls) and h.cls.find('__iter__'):
        return _tolist(ip, ip.call_func(ip.mfunc(h.cls.find("__iter__")), [v], {}, st, cx, node), st, cx, node)
    if h is not None and isinstance(h.items, list):
        return st.new(H('list', items=list(h.items)))
    if h is not None and isinstance(h.items, dict):
        return st.new(H('list', items=[V(k) for k in h.items]))
    c = order(ip, v, st)
    if c.op == 'lit':
        return st.new(H('list', items=[V(x) for x in c.args]))
    return st.new(H('list', seq=c))


@bi('list')
def _list(ip, args, kw, st, cx, node):
    if not args:
        return st.new(H('list', items=[]))
    return ip.cases(args[0], st, lambda s, v: _tolist(ip, v, s, cx, node))


@bi('tuple')
def _tuple(ip, args, kw, st, cx, node):
    if not args:
        return V(mk('tup'))
    h = ip.H(args[0], st)
    if h is not None and isinstance(h.items, list):
        return V(mk('tup', *[x.t for x in h.items]))
    c = frz(ip, args[0], st)
    if c.op == 'tup' or c.op == 'shapeof':
        return V(c)
    c = toseq(c)
    if c.op == 'lit':
        return V(mk('tup', *c.args))
    return V(mk('totuple', c))


alg.T.CONSTS = alg.T.CONSTS


@bi('set', 'frozenset')
def _set(ip, args, kw, st, cx, node):
    if not args:
        return st.new(H('set', items=[]))
    c = toseq(frz(ip, args[0], st))
    if c.op == 'set':
        c = c.args[0]
    if c.op == 'lit':
        xs = []
        for x in c.args:
            if x not in xs:
                xs.append(x)
        return st.new(H('set', items=[V(x) for x in xs]))
    if c.op == 'setop':
        return V(c)
    return st.new(H('set', seq=c))


@bi('dict')
def _dict(ip, args, kw, st, cx, node):
    r = st.new(H('dict', items={}))
    if args:
        h = ip.H(args[0], st)
        if h is not None and h.kind == 'dict':
            n = h.copy()
            n.origin = None
            n.f = {}
            n.note = None
            if n.items is not None or n.seq is not None:
                r = st.new(n)
        else:
            c = frz(ip, args[0], st)
            if kind(c) == 'dict':
                r = st.new(H('dict', seq=c)) if c.op != 'dlit' else st.new(H('dict', items={k: V(v) for k, v in c.args[0]}))
            else:
                c = order(ip, args[0], st)
                if c.op == 'lit' and all(x.op == 'tup' and len(x.args) == 2 for x in c.args):
                    for x in c.args:
                        ip._store_sub(r, V(x.args[0]), V(x.args[1]), st, cx, node)
                elif c.op == 'Map' and c.args[2].op == 'tup' and len(c.args[2].args) == 2:
                    i, outer, inner = open_binder(c)
                    k, v = inner[0].args
                    r = st.new(H('dict', seq=dmap(i, outer[0], DLIT0, TRUE, k, v)))
                elif c.op in ('sym', 'get', 'attr', 'tmp', 'mret'):
                    r = st.new(H('dict', seq=mk('todict', c)))
                else:
                    r = st.new(H('dict', seq=mk('todict', c)))
    for k, v in kw.items():
        if k == '**':
            ip.dict_update(r, v, st, cx, node)
        else:
            ip._store_sub(r, V(const(k)), v, st, cx, node)
    return r


@bi('sum')
def _sum(ip, args, kw, st, cx, node):
    start = args[1].t if len(args) > 1 else kw['start'].t if 'start' in kw else ZERO
    h = ip.H(args[0], st)
    c = frz(ip, args[0], st)
    if h is None and rank(c) == 1 and c.op not in ('lit', 'Map'):
        return V(add(start, asum(c)))
    if h is None and (rank(c) or 0) > 1:
        return V(add(start, asum(c, ZERO)))
    c = toseq(c)
    if c.op == 'lit':
        r = start
        for x in c.args:
            r = arith('+', r, num_of(x))
        return V(r)
    i = tmp('i', True, 0)
    if c.op == 'FlatMap':
        i, outer, inner = open_binder(c)
        b = inner[0]

        def tot(b):
            if b.op == 'ite':
                return ite(batom(b.args[0]), tot(b.args[1]), tot(b.args[2]))
            if b.op == 'lit':
                r = ZERO
                for x in b.args:
                    r = add(r, num_of(x))
                return r
            return fsum((j := tmp('j', True, 0)), mk('range', flen(b)), num_of(idx(b, j)))
        return V(add(start, fsum(i, outer[0], tot(b))))
    body = num_of(idx(c, i))
    return V(add(start, vsum(i, flen(c), body)))


def vsum(i, n, body):
    v = vectorise(i, mk('range', n), body)
    if v is not None:
        return asum(v)
    return fsum(i, mk('range', n), body)


for _n in ('max', 'min'):
    BI[_n] = (lambda n: lambda ip, args, kw, st, cx, node: minmax(ip, n, args, kw, st, cx, node))(_n)


@bi('abs')
def _abs(ip, args, kw, st, cx, node):
    return NP['numpy.abs'](ip, args, kw, st, cx, node)


@bi('pow')
def _pow(ip, args, kw, st, cx, node):
    return V(fpow(args[0].t, args[1].t))


@bi('round')
def _roundb(ip, args, kw, st, cx, node):
    return V(froundn(args[0].t, args[1].t if len(args) > 1 else ZERO))


@bi('divmod')
def _divmod(ip, args, kw, st, cx, node):
    return V(mk('tup', arith('//', args[0].t, args[1].t), arith('%', args[0].t, args[1].t)))


@bi('float')
def _float(ip, args, kw, st, cx, node):
    if not args:
        return V(ZERO)
    t = args[0].t
    if t.op == 'ite':
        need(ip, t, st, cx, node)
        t = constrain(t, st.pc)
    if t is NONE:
        ip.raise_if(TRUE, 'TypeError', st, cx, node)
    return V(ffloat(ip, t))


def ffloat(ip, t):
    if t.op == 'ite':
        return lift(lambda x: ffloat(ip, x), t)
    if t.op == 'str':
        try:
            return num(float(t.args[0]))
        except ValueError:
            pass
    if kind(t) in ('num', 'bool'):
        return num_of(t)
    if t.op == 'float':
        return t
    if t.op == 'fmt' and kind(t.args[1]) == 'num':
        sp, x = t.args
        if sp == '':
            return x
        if sp[-1] in 'fF' and sp[:1] == '.' and sp[1:-1].isdigit():
            return froundn(x, num(int(sp[1:-1])))
    r = mk('float', t)
    ip.risk(r)
    return r


@bi('int')
def _int(ip, args, kw, st, cx, node):
    if not args:
        return V(ZERO)
    t = args[0].t
    if t.op == 'ite':
        need(ip, t, st, cx, node)
        t = constrain(t, st.pc)
    if t is NONE:
        ip.raise_if(TRUE, 'TypeError', st, cx, node)
    if len(args) > 1:
        return V(mk('int', t, args[1].t))

    def go(x):
        if x.op == 'ite':
            return lift(go, x)
        if kind(x) in ('num', 'bool'):
            return ftrunc(num_of(x))
        if x.op == 'str':
            try:
                return num(int(x.args[0]))
            except ValueError:
                ip.raise_if(TRUE, 'ValueError', st, cx, node)
        if x.op == 'fmt' and x.args[0] == '' and is_int(x.args[1]):
            return x.args[1]
        r = mk('int', x)
        ip.risk(r)
        return r
    return V(go(t))


@bi('str')
def _str(ip, args, kw, st, cx, node):
    if not args:
        return V(const(''))
    h = ip.H(args[0], st)
    t = ip.freeze(args[0].t, st)
    return V(tostr(t))


@bi('repr')
def _repr(ip, args, kw, st, cx, node):
    return V(mk('repr', ip.freeze(args[0].t, st)))


@bi('format')
def _format(ip, args, kw, st, cx, node):
    return V(fmt(args[1].t if len(args) > 1 else '', ip.freeze(args[0].t, st)))


@bi('bool')
def _bool(ip, args, kw, st, cx, node):
    return V(ip.truth(args[0], st, cx, node) if args else FALSE)


@bi('any', 'all')
def _anyall(ip, args, kw, st, cx, node):
    return None


def _aa(isany):
    def f(ip, args, kw, st, cx, node):
        h = ip.H(args[0], st)
        if h is not None and isinstance(h.items, list):
            r = FALSE if isany else TRUE
            for v in h.items:
                c = ip.truth(v, st, cx, node)
                r = bor(r, c) if isany else band(r, c)
            return V(r)
        c = frz(ip, args[0], st)
        if h is None and rank(c):
            return V(fany(c, NONE) if isany else fall(c, NONE))
        c = toseq(c)
        if c.op == 'ite':
            return V(lift(lambda x: _aac(x, isany), c))
        return V(_aac(c, isany))
    return f


def _aac(c, isany):
    if c.op == 'lit':
        r = FALSE if isany else TRUE
        for x in c.args:
            r = bor(r, truthy(x)) if isany else band(r, truthy(x))
        return r
    if c.op == 'FlatMap':
        i, outer, inner = open_binder(c)
        b = inner[0]

        def tr(b):
            if b.op == 'ite':
                return ite(batom(b.args[0]), tr(b.args[1]), tr(b.args[2]))
            return _aac(b, isany)
        t = tr(b)
        return fexists(i, outer[0], t) if isany else bnot(fexists(i, outer[0], bnot(t)))
    i = tmp('i', True, 0)
    t = truthy(idx(c, i))
    r = fexists(i, mk('range', flen(c)), t if isany else bnot(t))
    return r if isany else bnot(r)


BI['any'], BI['all'] = _aa(True), _aa(False)


@bi('map')
def _map(ip, args, kw, st, cx, node):
    out = st.new(H('list', items=[]))
    src = args[1] if len(args) == 2 else _zip(ip, args[1:], {}, st, cx, node)

    def body(elem, s):
        if len(args) == 2:
            v = ip.call(args[0], [elem], {}, s, cx, node)
        else:
            v = ip.call(args[0], [V(x) for x in elem.t.args], {}, s, cx, node)
        heap_method(ip, out, ip.H(out, s), 'append', [ip.tokenize(v)], {}, s, cx, node)
    ip.cases(src, st, lambda s, v: ip.loop_over(v, body, s, cx, node))
    return out


@bi('filter')
def _filter(ip, args, kw, st, cx, node):
    out = st.new(H('list', items=[]))

    def body(elem, s):
        c = ip.truth(ip.call(args[0], [elem], {}, s, cx, node) if args[0].t is not NONE else elem, s, cx, node)

        def app(a):
            heap_method(ip, out, ip.H(out, a), 'append', [ip.tokenize(elem)], {}, a, cx, node)
            return None
        ip.fork(s, c, app, lambda b: None)
    ip.cases(args[1], st, lambda s, v: ip.loop_over(v, body, s, cx, node))
    return out


@bi('iter')
def _iter(ip, args, kw, st, cx, node):
    h = ip.H(args[0], st)
    if h is not None and h.kind in ('file', 'inst'):
        return args[0]
    c = order(ip, args[0], st)
    return st.new(H('list', items=[V(x) for x in c.args], note='iter') if c.op == 'lit' else H('list', seq=c, note='iter'))


@bi('next')
def _next(ip, args, kw, st, cx, node):
    c = ip.content(args[0], st)
    h = ip.H(args[0], st)
    if h is not None and h.kind == 'file':
        raise Unsupported('next(file)', node)
    if h is None and isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Name):
        raise Unsupported('next() of a shared iterator', node)
    if h is not None and h.kind == 'list':
        # what was read is gone
        if h.items is not None:
            if h.items:
                return st.w(args[0].t.args[0]).items.pop(0)
        elif c.op != 'lit':
            st.w(args[0].t.args[0]).seq = slseq(c, ONE, NONE, ONE)
    if c.op == 'lit':
        if c.args:
            return V(c.args[0])
        if len(args) > 1:
            return args[1]
        ip.raise_if(TRUE, 'StopIteration', st, cx, node)
    c = ip.freeze(c, st)
    if c.op == 'FlatMap' or c.op == 'ite':
        d = args[1].t if len(args) > 1 else None
        r = firstof(c)
        if r is not None:
            ne, val = r
            if d is None:
                ip.raise_if(bnot(ne), 'StopIteration', st, cx, node)
                return V(val)
            return V(ite(ne, val, ip.freeze(d, st)))
    if len(args) > 1:
        return V(ite(lt(ZERO, flen(c)), idx(c, ZERO), args[1].t))
    return V(idx(c, ZERO))


def firstof(c):
    """(nonempty condition, first element) of [e(i) for i if cond(i)]"""
    if c.op == 'lit':
        return (TRUE, c.args[0]) if c.args else (FALSE, NONE)
    if c.op == 'ite':
        a, b = firstof(c.args[1]), firstof(c.args[2])
        if a is None or b is None:
            return None
        k = batom(c.args[0])
        return ite(k, a[0], b[0]), ite(k, a[1], b[1])
    if c.op == 'FlatMap':
        i, outer, inner = open_binder(c)

        def go(b):
            if b.op == 'ite':
                x, y = go(b.args[1]), go(b.args[2])
                if x is None or y is None:
                    return None
                k = batom(b.args[0])
                return ite(k, x[0], y[0]), ite(k, x[1], y[1])
            if b.op == 'lit' and len(b.args) <= 1:
                return (TRUE, b.args[0]) if b.args else (FALSE, NONE)
            return None
        r = go(inner[0])
        if r is None:
            return None
        ne, val = r
        j = sub(funtil(i, outer[0], ne), ONE)
        val = constrain(val, ne)
        return fexists(i, outer[0], ne), subst(val, {i: j})
    return None


@bi('isinstance')
def _isinstance(ip, args, kw, st, cx, node):
    v, ty = args
    tys = list(ty.t.args) if ty.t.op == 'tup' else [ty.t]

    def go(s, x):
        r = FALSE
        for t in tys:
            r = bor(r, isinst1(ip, x, t, s))
        return V(r)
    return ip.cases(v, st, go)


KINDNAME = {'str': ('str',), 'dict': ('dict', 'collections.OrderedDict', 'collections.abc.Mapping'), 'list': ('list',),
            'tup': ('tuple',), 'bool': ('bool', 'int'), 'none': ('NoneType',)}


def isinst1(ip, v, ty, st):
    h = ip.H(v, st)
    name = ty.args[0] if ty.op in ('bi', 'ext', 'class') else None
    if h is not None:
        if h.kind == 'inst' and isinstance(h.cls, Cls):
            if ty.op == 'class':
                return TRUE if any(isinstance(c, Cls) and c.qual == name for c in h.cls.mro()) else FALSE
            return FALSE
        if h.kind in ('list', 'dict', 'set'):
            return TRUE if name in KINDNAME.get(h.kind, (h.kind,)) else FALSE
    t = v.t
    if t.op == 'propobj':
        return TRUE if name in ('property', 'object') else FALSE
    if t.op == 'ite':
        return lift(lambda x: isinst1(ip, V(x), ty, st), t)
    if name == 'numpy.ma.MaskedArray':
        r = isMA(t)
        if r is not None:
            return r
    if name in ('float', 'int') and t.op == 'num':
        return batom(mk('isinst', t, ty)) if t.args[0].denominator == 1 else (TRUE if name == 'float' else FALSE)
    k = kind(t)
    if k in KINDNAME and t.op != 'sym' or k in ('str', 'dict', 'list', 'none') and name:
        return TRUE if name in KINDNAME.get(k, ()) else FALSE
    if k == 'num' and name in ('str', 'dict', 'list', 'tuple', 'numpy.ndarray') and rank(t) == 0:
        return FALSE
    if name == 'numpy.ndarray' and rank(t):
        return TRUE
    if t.op == 'sym' and k == 'num' and name in ('str', 'dict', 'list', 'tuple', 'set'):
        return FALSE
    if t is NONE:
        return FALSE
    return batom(mk('isinst', t, ty))


@bi('hasattr')
def _hasattr(ip, args, kw, st, cx, node):
    v, n = args
    h = ip.H(v, st)
    if h is not None and h.kind == 'inst' and isinstance(h.cls, Cls) and n.t.op == 'str':
        nm = n.t.args[0]
        if ip.reads is not None:
            ip.reads.add((v.t.args[0], nm))
        if nm in h.f:
            r = ip.maybe(v, nm, st, lambda s: _hasattr(ip, args, kw, s, cx, node))
            return V(TRUE) if r is None else r
        if h.cls.find(nm) is not None:
            return V(TRUE)
        if h.origin is None:
            return V(FALSE)
    return V(batom(mk('b', mk('hasattr', ip.freeze(v.t, st), n.t))))


@bi('getattr')
def _getattr(ip, args, kw, st, cx, node):
    v, n = args[0], args[1]
    if n.t.op == 'str':
        if len(args) > 2:
            h = ip.H(v, st)
            if h is not None and ip.reads is not None:
                ip.reads.add((v.t.args[0], n.t.args[0]))
            if h is not None and h.kind == 'inst' and n.t.args[0] in h.f:
                r = ip.maybe(v, n.t.args[0], st, lambda s: _getattr(ip, args, kw, s, cx, node))
                if r is not None:
                    return r
            if h is not None and h.kind == 'inst' and isinstance(h.cls, Cls) and h.origin is None and \
                    n.t.args[0] not in h.f and h.cls.find(n.t.args[0]) is None:
                return args[2]
            if h is None:
                d = data_attr(ip, v, n.t.args[0], st, cx, node)
                if d is not None:
                    return d
                return V(ite(batom(mk('b', mk('hasattr', v.t, n.t))), mk('attr', v.t, n.t.args[0]), args[2].t))
        return ip.getattr(v, n.t.args[0], st, cx, node)
    if n.t.op == 'ite':
        return ip.fork(st, batom(n.t.args[0]),
                       lambda a: _getattr(ip, [v, V(restrict(n.t, n.t.args[0], True))] + args[2:], kw, a, cx, node),
                       lambda b: _getattr(ip, [v, V(restrict(n.t, n.t.args[0], False))] + args[2:], kw, b, cx, node))
    t = mk('dynattr', ip.freeze(v.t, st), n.t)
    if ip.reads is not None and v.t.op == 'ref':
        ip.reads.add((v.t.args[0], '__dict__'))
    ip.risk(mk('attr', t))
    return V(t)


@bi('setattr')
def _setattr(ip, args, kw, st, cx, node):
    v, n, x = args
    if n.t.op == 'str':
        h = ip.H(v, st)
        if h is not None and h.kind == 'inst':
            st.w(v.t.args[0]).f[n.t.args[0]] = x
            return V(NONE)
    h = ip.H(v, st)
    st.emit(mk('ev', 'setattr', v.t if h is None or h.origin is None else h.origin, n.t, ip.freeze(x.t, st)))
    return V(NONE)


@bi('print', 'breakpoint')
def _print(ip, args, kw, st, cx, node):
    f = kw.get('file')
    if f is None or f.t is NONE:
        if not ip.override.get('prints'):
            return V(NONE)
        f = None
    sep, end = (kw[k].t if k in kw and kw[k].t is not NONE else const(d) for k, d in (('sep', ' '), ('end', '\n')))
    ps = []
    for k, a in enumerate(args):
        if k:
            ps.append(sep)
        t = frz(ip, a, st)
        ps.append(t if kind(t) == 'str' else fmt('', t))
    x = V(scat(*ps, end))
    if f is None:
        st.emit(mk('ev', 'print', x.t))
        return V(NONE)
    h = ip.H(f, st)
    if h is not None and h.kind == 'file':
        file_method(ip, f, h, 'write', [x], {}, st, cx, node)
    else:
        obj_call(ip, f.t, 'write', [x], {}, st, cx, node)
    return V(NONE)


BI['noop'] = lambda ip, args, kw, st, cx, node: V(NONE)


@bi('callable')
def _callable(ip, args, kw, st, cx, node):
    t = args[0].t
    if t.op == 'ite':
        return V(ite(batom(t.args[0]), _callable(ip, [V(t.args[1])], kw, st, cx, node).t,
                     _callable(ip, [V(t.args[2])], kw, st, cx, node).t))
    if t.op in ('func', 'bound', 'class', 'bi', 'ext', 'bmeth', 'partial', 'wrapsof', 'attrgetter'):
        return V(TRUE)
    h = ip.H(args[0], st)
    if h is not None and (h.kind != 'inst' or isinstance(h.cls, Cls)) and h.origin is None:
        return V(TRUE if h.kind == 'inst' and h.cls.find('__call__') else FALSE)
    if t.op in ('arr', 'none', 'bytes', 'propobj') or kind(t) in ('num', 'str', 'list', 'tup', 'dict', 'bool', 'none'):
        return V(FALSE)
    return V(batom(mk('b', mk('callable', t))))


@bi('type')
def _type(ip, args, kw, st, cx, node):
    h = ip.H(args[0], st)
    if h is not None and isinstance(h.cls, Cls):
        ip.classtab[h.cls.qual] = h.cls
        return V(mk('class', h.cls.qual))
    if h is not None:
        return V(mk('bi', h.kind))
    k = kind(args[0].t)
    if k in ('str', 'dict', 'list', 'bool'):
        return V(mk('bi', k))
    return V(mk('typeof', args[0].t))


@bi('dir')
def _dir(ip, args, kw, st, cx, node):
    return V(mk('dir', ip.freeze(args[0].t, st)))


@bi('id', 'hash', 'ord', 'chr')
def _opq1(ip, args, kw, st, cx, node):
    return V(opaque('builtin', frz(ip, args[0], st)))


@bi('slice')
def _slice(ip, args, kw, st, cx, node):
    ts = [a.t for a in args]
    if len(ts) == 1:
        ts = [NONE, ts[0]]
    return V(mk('slice', ts[0], ts[1], ts[2] if len(ts) > 2 and ts[2] is not NONE else ONE))


@bi('open')
def _open(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('file', 'mode', 'buffering', 'encoding', 'errors', 'newline'))
    p = A.t('file')
    m = A.t('mode', const('r'))
    ev = mk('ev', 'open', p, m)
    o = st.occ.get(ev, 0)
    st.occ[ev] = o + 1
    st.emit(ev)
    note = mk('file', p, m, num(o), A.t('encoding'))
    ip.risk(mk('open', note))
    h = H('file', note=note)
    return st.new(h)


@bi('staticmethod', 'classmethod')
def _prop(ip, args, kw, st, cx, node):
    return args[0]


@bi('property')
def _property(ip, args, kw, st, cx, node):
    A = Args(ip, args, kw, st, ('fget', 'fset', 'fdel', 'doc'))
    return V(mk('propobj', *[A.t(n, NONE) for n in ('fget', 'fset')]))


@ext('operator.attrgetter')
def _attrgetter(ip, args, kw, st, cx, node):
    if not args or any(a.t.op != 'str' for a in args):
        return None
    return V(mk('attrgetter', *[a.t.args[0] for a in args]))


@bi('object')
def _object(ip, args, kw, st, cx, node):
    return V(mk('sentinel', next(_uniq)))


_uniq = itertools.count()


@bi('input')
def _input(ip, args, kw, st, cx, node):
    return V(opaque('input'))


# ---------------------------------------------------------------- attributes of data

DATA_METHODS = {'append', 'extend', 'split', 'strip', 'items', 'keys', 'values', 'get', 'astype', 'format', 'join',
                'copy', 'sum', 'mean', 'max', 'min', 'std', 'var', 'ravel', 'flatten', 'reshape', 'tolist'}


def data_attr(ip, b, name, st, cx, node):
    t = b.t
    if t.op in ('obj', 'mret', 'opq', 'app', 'attr', 'logger') and name not in ('shape', 'T', 'size', 'dtype'):
        if t.op == 'obj' and t.args[0] == 'tmpdir' and name == 'name':
            return V(mk('tmpname'))
        return None
    if kind(t) in ('str', 'dict', 'list'):
        return None
    if name == 'shape':
        if t.op == 'ite':
            return V(lift(lambda x: data_attr(ip, V(x), 'shape', st, cx, node).t, t))
        s = shape(t)
        if s is not None:
            return V(mk('tup', *s))
        return V(mk('shapeof', t))
    if name == 'size':
        return V(lift(lambda x: size(x), t))
    if name == 'ndim':
        return V(num(rank(t)) if rank(t) is not None else mk('ndim', t))
    if name == 'T':
        return V(transpose(t), b.tok)
    if name == 'dtype':
        return V(mk('dtypeof', t))
    if name == 'imag':
        return V(fimag(b.t))
    if name == 'real':
        return V(freal(t))
    if name == 'imag':
        return V(mk('imag', t))
    if name == 'mask' and rank(t) is not None:
        return V(fmask(t))
    if name == 'data' and rank(t) is not None:
        return V(fmadata(t), b.tok)
    if name == 'flat':
        return V(fravel(t), b.tok)
    if t.op == 'dtypeof' and name in ('name', 'str'):
        return V(mk('attr', t, name))
    return None


# ---------------------------------------------------------------- methods

ARRM = {'sum': 'numpy.sum', 'mean': 'numpy.mean', 'max': 'numpy.max', 'min': 'numpy.min', 'std': 'numpy.std',
        'var': 'numpy.var', 'ravel': 'numpy.ravel', 'cumsum': 'numpy.cumsum', 'argmax': 'numpy.argmax',
        'argmin': 'numpy.argmin', 'clip': 'numpy.clip', 'transpose': 'numpy.transpose', 'any': 'numpy.any',
        'all': 'numpy.all', 'nonzero': 'numpy.nonzero', 'round': 'numpy.round', 'conj': 'numpy.conjugate',
        'conjugate': 'numpy.conjugate', 'dot': 'numpy.dot', 'prod': 'numpy.prod', 'squeeze': 'numpy.squeeze',
        'compressed': 'numpy.ma.compressed', 'filled': 'numpy.ma.filled'}


def value_method(ip, b, name, args, kw, st, cx, node):
    t = b.t
    if t.op == 'ite' and kind(t) not in ('num', 'str', 'bool') and not (rank(t)):
        c = none_cond(t)
        if c is not FALSE:
            ip.raise_if(c, 'AttributeError', st, cx, node, (const(name),))
            t = constrain(t, st.pc)
            b = V(t, b.tok, b.path)
        if t.op == 'ite' and kind(t) in (None,):
            return ip.cases_data(b, st, lambda s, v: value_method(ip, v, name, args, kw, s, cx, node))
    if t is NONE:
        ip.raise_if(TRUE, 'AttributeError', st, cx, node, (const(name),))
    if t.op == 'logger':
        return V(t if name in ('getChild',) else NONE)
    k = kind(t)
    if k == 'str' or (k is None and name in STRM and name not in ('count', 'index', 'format', 'join') and
                      t.op not in ('opq', 'mret', 'app', 'attr_')):
        return str_method(ip, b, name, args, kw, st, cx, node)
    if k == 'str' or t.op == 'str':
        return str_method(ip, b, name, args, kw, st, cx, node)
    if k == 'dict' or (k is None and name in ('items', 'keys', 'values', 'get', 'setdefault', 'update', 'pop')
                       and t.op in ('get', 'getitem', 'sym', 'tmp', 'bv', 'idx', 'dmerge', 'todict', 'attr', 'ret',
                                    'call', 'kw')):
        return dict_method(ip, b, name, args, kw, st, cx, node)
    if k in ('list', 'tup') or (k is None and name in ('append', 'extend', 'insert', 'sort', 'index', 'reverse')
                                and t.op in ('get', 'getitem', 'tmp', 'bv', 'sym', 'idx')):
        return list_method(ip, b, name, args, kw, st, cx, node)
    if t.op == 'vectorized':
        pass
    if name in DRAWS and (t.op in ('rng', 'attr') or t.op == 'sym' and rank(t) is None):
        return draw(ip, t, name, args, kw, st)
    if t.op in ('set', 'setop'):
        return set_method(ip, b, None, name, args, kw, st, cx, node)
    if name in ARRM and (k in ('num', 'bool', None)) and t.op not in ('obj', 'mret', 'opq', 'app', 'logger') and \
            not (t.op == 'attr' and rank(t) is None and name in ('round', 'index')):
        return external(ip, ARRM[name], [b] + args, kw, st, cx, node)
    if name == 'flatten':
        return V(fravel(t))
    if name == 'astype':
        A = Args(ip, args, kw, st, ('dtype', 'order', 'casting', 'subok', 'copy'))
        tok = b.tok if A.has('copy') and A.t('copy') is not TRUE else frozenset()
        return V(hint(None, A.t('dtype'), t), tok)
    if name == 'copy' and (k in ('num', 'bool', None)) and not args:
        return V(t)
    if name == 'reshape':
        s = args[0].t if len(args) == 1 else mk('tup', *[a.t for a in args])
        return V(freshape(t, shapeterm(frz(ip, V(s), st))), b.tok)
    if name == 'tolist':
        return st.new(H('list', seq=arrlist(t)))
    if name == 'item' and not args:
        return V(t if rank(t) == 0 else idx(fravel(t), ZERO))
    if name == 'count' and rank(t) is not None and not args:
        return V(fmacount(t))
    if name in ('fill',):
        new = mul(args[0].t, mk('ones', mk('tup', *shape(t)) if shape(t) is not None else mk('shapeof', t)))
        ip.update_array(b, new, st)
        return V(NONE)
    if name == 'sort' and k == 'num':
        ip.update_array(b, mk('sortedarr', t), st)
        return V(NONE)
    if t.op == 'now':
        return V(mk('now', name))
    return obj_call(ip, t, name, args, kw, st, cx, node)


def arrlist(t):
    if t.op == 'arr':
        return t.args[0]
    i = tmp('i', True, 0)
    return fmap(i, mk('range', flen(t)), idx(t, i))


PUREM = {'find', 'findall', 'iter', 'getroot', 'getchildren', 'get_template', 'iterfind', 'getparent', 'getlevel',
         'xpath', 'fileno', 'convert', 'getdata', 'tobytes'}


def obj_call(ip, t, name, args, kw, st, cx, node):
    """method of an unknown object: an event, returning an unknown value"""
    fa = tuple(frz(ip, a, st) for a in args)
    fk = tuple((k, frz(ip, kw[k], st)) for k in sorted(kw))
    ev = mk('ev', 'mcall', t, const(name), fa, fk)
    ip.risk(mk('app', mk('attr', t, name)))
    if name in PUREM:
        return V(mk('mpure', t, const(name), fa, fk))
    st.emit(ev)
    o = st.occ.get(ev, 0)
    st.occ[ev] = o + 1
    return V(mk('mret', ev, num(o), tuple(ip.loopctx)))


def obj_method(ip, b, h, name, args, kw, st, cx, node):
    m = OBJM.get((h.cls, name))
    if m is not None:
        return m(ip, b, h, args, kw, st, cx, node)
    base = h.origin if h.origin is not None else b.t
    return obj_call(ip, base, name, args, kw, st, cx, node)


OBJM = {}

STRM = {'split', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'startswith', 'endswith', 'join', 'format',
        'encode', 'decode', 'splitlines', 'title', 'capitalize', 'isdigit', 'partition', 'rpartition', 'find', 'index',
        'rfind', 'count', 'zfill', 'ljust', 'rjust', 'center', 'isspace', 'isnumeric', 'isalpha', 'rsplit', 'casefold',
        'isdecimal', 'islower', 'isupper', 'removeprefix', 'removesuffix', 'translate', 'expandtabs'}


def str_method(ip, b, name, args, kw, st, cx, node):
    t = b.t
    if t.op == 'ite':
        return ip.cases_data(b, st, lambda s, v: str_method(ip, v, name, args, kw, s, cx, node))
    if name == 'join':
        h = ip.H(args[0], st)
        c = toseq(frz(ip, args[0], st))
        return V(sjoin(t, c))
    if t.op == 'xmlbytes' and name == 'decode':
        return V(mk('xmltext', *t.args))
    if t.op == 'xmltext' and name == 'encode':
        return V(mk('xmlbytes', *t.args))
    if name == 'format':
        return V(sformat(ip, t, args, kw, st, cx, node))
    fa = [frz(ip, a, st) for a in args]
    fk = {k: frz(ip, v, st) for k, v in kw.items()}
    if t.op == 'str' and all(a.op in ('str', 'num', 'tup') for a in fa) and not fk and \
            all(a.op != 'tup' or all(x.op == 'str' for x in a.args) for a in fa):
        py = [a.args[0] if a.op == 'str' else int(a.args[0]) if a.op == 'num' else tuple(x.args[0] for x in a.args)
              for a in fa]
        try:
            r = getattr(t.args[0], name)(*py)
        except ValueError:
            ip.raise_if(TRUE, 'ValueError', st, cx, node)
        except AttributeError:
            ip.raise_if(TRUE, 'AttributeError', st, cx, node)
        if isinstance(r, list):
            return st.new(H('list', items=[V(const(x)) for x in r]))
        if isinstance(r, tuple):
            return V(mk('tup', *[const(x) for x in r]))
        if isinstance(r, bytes):
            return V(mk('bytes', r))
        return V(const(r))
    if name not in STRM:
        return obj_call(ip, t, name, args, kw, st, cx, node)
    if name in ('lower', 'casefold') and t.op == 'fmt' and t.args[0] == '' and kind(t.args[1]) == 'num':
        return V(t)         # numbers are spelled in lower case
    if name == 'split':
        sep = fa[0] if fa else fk.get('sep', NONE)
        mx = fa[1] if len(fa) > 1 else fk.get('maxsplit', num(-1))
        if sep is NONE and mx.op == 'num' and mx.args[0] == -1 or sep is t.args[0] and t.op == 'sjoin' and len(fa) == 1:
            q = text.wordlist(t)
            if q is not None and (sep is NONE or alg.flen(q).op == 'num' and alg.flen(q).args[0] > 0):
                return V(q)
        if (sep is NONE or sep.op == 'str') and mx.op == 'num':
            q = text.split(t, None if sep is NONE else sep.args[0], int(mx.args[0]))
            if q is not None:
                return st.new(H('list', items=[V(x) for x in q]))
        r = mk('split', t, sep) if mx.op == 'num' and mx.args[0] == -1 else mk('split', t, sep, mx)
        return V(r)
    if name in ('strip', 'lstrip', 'rstrip'):
        a = fa[0] if fa else NONE
        q = text.strip(t, name, a.args[0] if a.op == 'str' else None) if a is NONE or a.op == 'str' else None
        if q is not None:
            return V(q)
        if a is NONE and text.wordlist(t) is not None:
            return V(t)
        if a is NONE and t.op == 'strip' and t.args[1] is NONE:
            return V(t)
        return V(mk(name, t, a))
    if name in ('startswith', 'endswith'):
        r = FALSE
        for x in fa[0].args if fa[0].op == 'tup' else fa[:1]:
            q = text.startswith(t, x.args[0], name == 'endswith') if x.op == 'str' and len(fa) == 1 else None
            r = bor(r, q if q is not None else batom(mk('startswith', name, t, x)))
        if len(fa) == 1:
            return V(r)
        if name == 'startswith' and t.op == 'scat' and t.args[0].op == 'str' and fa[0].op == 'str' and \
                len(t.args[0].args[0]) >= len(fa[0].args[0]):
            return V(TRUE if t.args[0].args[0].startswith(fa[0].args[0]) else FALSE)
        return V(batom(mk('startswith', name, t, fa[0])))
    if name in ('isdigit', 'isnumeric', 'isspace', 'isalpha', 'isdecimal', 'islower', 'isupper'):
        return V(batom(mk('startswith', name, t)))
    if name in ('find', 'index', 'rfind', 'count'):
        return V(mk('sfind', name, t, *fa))
    if name == 'splitlines':
        q = text.split(t, '\n')
        if q is not None:
            if q and q[-1] == const(''):
                q.pop()
            return st.new(H('list', items=[V(x) for x in q]))
        return V(mk('lines', t))
    if name == 'replace' and len(fa) == 2 and fa[0].op == fa[1].op == 'str':
        q = text.replace(t, fa[0].args[0], fa[1].args[0])
        if q is not None:
            return V(q)
    if name == 'partition' and fa[0].op == 'str':
        q = text.split(t, fa[0].args[0], 1)
        if q is not None:
            return V(mk('tup', q[0], fa[0] if len(q) > 1 else const(''), q[1] if len(q) > 1 else const('')))
    if name == 'partition' or name == 'rpartition':
        return V(mk('tup', *[mk('spart', name, t, fa[0], num(i)) for i in range(3)]))
    return V(mk(name, t, *fa) if not fk else mk(name, t, *fa, tuple(sorted(fk.items()))))


alg.T.NUMERIC_OPS.add('sfind')
RANKF['sfind'] = lambda n: 0


def sformat(ip, t, args, kw, st, cx=None, node=None):
    import string
    if t.op != 'str':
        return mk('fmtf', t, tuple(frz(ip, a, st) for a in args), tuple((k, frz(ip, v, st)) for k, v in sorted(kw.items())))
    out = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(t.args[0]):
            if lit:
                out.append(const(lit))
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return opaque('format', t)
            x = ip.freeze(v.t, st)
            if spec and not conv and cx is not None:
                ip.raise_if(none_cond(x), 'TypeError', st, cx, node)
                x = constrain(x, st.pc)
            if conv == 's' and x is NONE:
                x = const('None')
            out.append(mk('repr', x) if conv == 'r' else fmt(spec or '', x) if '{' not in (spec or '') else
                       opaque('format spec'))
    except (IndexError, ValueError):
        return opaque('format', t)
    return scat(*out)


def dict_method(ip, b, name, args, kw, st, cx, node):
    """method of a symbolic dictionary value"""
    h = ip.H(b, st)
    c = ip.content(b, st)
    if name == 'items':
        return V(mk('items', c), b.tok)
    if name == 'keys':
        return View(keys(c))
    if name == 'values':
        return V(values_seq(c))
    if name == 'get':
        k = frz(ip, args[0], st)
        d = args[1] if len(args) > 1 else kw.get('default', V(NONE))
        has = din(k, c)
        x = dget(c, k)
        t = ite(has, _nomiss(x), d.t)
        return V(t, ip.elem_tok(b, h, x, k) if x.op == 'get' else frozenset())
    if name == 'copy':
        if h is not None:
            return builtin(ip, 'dict', [b], {}, st, cx, node)
        return st.new(H('dict', seq=c))
    if name == 'setdefault':
        k = frz(ip, args[0], st)
        d = args[1] if len(args) > 1 else V(NONE)
        return ip.fork(st, din(k, c), lambda s: ip.subscript(b, V(k), s, cx, node),
                       lambda s: (ip._store_sub(b, V(k), d, s, cx, node), ip.subscript(ip.refresh(b, s), V(k), s, cx, node))[1])
    if name == 'update':
        if args:
            ip.dict_update(b, args[0], st, cx, node)
        for k, v in kw.items():
            if k == '**':
                ip.dict_update(b, v, st, cx, node)
            else:
                ip._store_sub(ip.refresh(b, st), V(const(k)), v, st, cx, node)
        return V(NONE)
    if name == 'pop':
        k = frz(ip, args[0], st)
        has = din(k, c)
        if len(args) < 2:
            ip.raise_if(bnot(has), 'KeyError', st, cx, node, (k,)) if has in (TRUE, FALSE) else \
                ip.risk(mk('getitem', c, k))
            r = _nomiss(dget(c, k))
        else:
            r = ite(has, _nomiss(dget(c, k)), args[1].t)
        ip.update_content(b, mk('ddel', c, k), st)
        return V(r)
    if name == 'clear':
        ip.update_content(b, DLIT0, st)
        return V(NONE)
    return obj_call(ip, c, name, args, kw, st, cx, node)


def _nomiss(t):
    if t.op == 'ite':
        a, b = _nomiss(t.args[1]), _nomiss(t.args[2])
        if a.op == 'missing':
            return b
        if b.op == 'missing':
            return a
    return t


def lindex(c, x):
    if c.op == 'lit' and len(args := c.args) < 40:
        r = mk('lindex', c, x)
        for k in range(len(args) - 1, -1, -1):
            e = eq(args[k], x)
            r = num(k) if e is TRUE else r if e is FALSE else ite(e, num(k), r)
        return r
    return mk('lindex', c, x)


def list_method(ip, b, name, args, kw, st, cx, node):
    """method of a symbolic list value"""
    c = ip.content(b, st)
    if name == 'append':
        ip.update_content(b, cat(c, mk('lit', ip.freeze(args[0].t, st))), st)
        return V(NONE)
    if name == 'extend':
        ip.update_content(b, cat(c, toseq(frz(ip, args[0], st))), st)
        return V(NONE)
    if name == 'index':
        return V(lindex(c, frz(ip, args[0], st)))
    if name == 'count':
        i = tmp('i', True, 0)
        return V(fsum(i, mk('range', flen(c)), ite(eq(idx(c, i), frz(ip, args[0], st)), ONE, ZERO)))
    if name == 'copy':
        return st.new(H('list', seq=c))
    if name == 'sort':
        ip.update_content(b, fsorted(c), st)
        return V(NONE)
    if name == 'reverse':
        ip.update_content(b, rev(c), st)
        return V(NONE)
    if name in ('insert', 'remove', 'pop', 'clear'):
        raise Unsupported('list.' + name, node)
    return obj_call(ip, c, name, args, kw, st, cx, node)


def set_method(ip, b, h, name, args, kw, st, cx, node):
    c = ip.content(b, st)
    ops = {'union': '|', 'intersection': '&', 'difference': '-', 'symmetric_difference': '^'}
    if name in ops:
        r = c
        for a in args:
            r = setop(ops[name], r, toseq(frz(ip, a, st)))
        return V(r)
    if name == 'copy':
        return st.new(h.copy())
    if name == 'issubset' or name == 'issuperset':
        x, y = (c, frz(ip, args[0], st)) if name == 'issubset' else (frz(ip, args[0], st), c)
        x = x.args[0] if x.op == 'set' else toseq(x)
        y = y.args[0] if y.op == 'set' else y
        if x.op == 'lit':
            r = TRUE
            for e in x.args:
                r = band(r, din(e, y))
            return V(r)
        return V(batom(mk('b', mk('subset', x, y))))
    if name == 'add':
        ip.set_add(b, args[0], st)
        return V(NONE)
    if name == 'update':
        for a in args:
            ca = toseq(frz(ip, a, st))
            if ca.op == 'set':
                ca = ca.args[0]
            w = st.w(b.t.args[0])
            cur = ip.content_h(w)
            cur = cur.args[0] if cur.op == 'set' else cur
            if cur.op == 'lit' and ca.op == 'lit':
                for x in ca.args:
                    ip.set_add(b, V(x), st)
            else:
                w = st.w(b.t.args[0])
                w.items, w.seq = None, cat(cur, ca)
        return V(NONE)
    if name in ('discard', 'remove'):
        w = st.w(b.t.args[0])
        cur = ip.content_h(w)
        w.items, w.seq = None, mk('setop', '-', cur, mk('lit', frz(ip, args[0], st)))
        return V(NONE)
    if name == 'pop':
        w = st.w(b.t.args[0])
        e = ip.content_h(w)
        e = e.args[0] if e.op == 'set' else e
        if e.op == 'lit' and len(e.args) == 1:
            w.items, w.seq = [], None
            return V(e.args[0])
        return V(opaque('set.pop', c))
    if name == 'clear':
        w = st.w(b.t.args[0])
        w.items, w.seq = [], None
        return V(NONE)
    raise Unsupported('set.' + name, node)


def heap_method(ip, b, h, name, args, kw, st, cx, node):
    k = h.kind
    if k == 'set':
        return set_method(ip, b, h, name, args, kw, st, cx, node)
    if k == 'file':
        return file_method(ip, b, h, name, args, kw, st, cx, node)
    if k == 'dict':
        if isinstance(h.items, dict):
            if name == 'items':
                return V(mk('lit', *[mk('tup', x, v.t) for x, v in h.items.items()]))
            if name == 'keys':
                return View(mk('lit', *h.items))
            if name == 'values':
                return V(mk('lit', *[v.t for v in h.items.values()]))
            if name in ('get', 'setdefault', 'pop') and args:
                key = frz(ip, args[0], st)
                if key.op == 'ite':
                    return ip.fork(st, batom(key.args[0]),
                                   lambda s: heap_method(ip, b, ip.H(b, s), name, [V(restrict(key, key.args[0], True))] + args[1:], kw, s, cx, node),
                                   lambda s: heap_method(ip, b, ip.H(b, s), name, [V(restrict(key, key.args[0], False))] + args[1:], kw, s, cx, node))
                d = args[1] if len(args) > 1 else kw.get('default')
                if key in h.items:
                    r = h.items[key]
                    if name == 'pop':
                        st.w(b.t.args[0]).items.pop(key)
                    return r
                if all(definitely_ne(key, x) for x in h.items):
                    if name == 'pop' and d is None:
                        ip.raise_if(TRUE, 'KeyError', st, cx, node, (key,))
                    d = d if d is not None else V(NONE)
                    if name == 'setdefault':
                        st.w(b.t.args[0]).items[key] = d
                    return d
                if name == 'get':
                    # symbolic key over a literal dict
                    ks = list(h.items)
                    d = d if d is not None else V(NONE)

                    def pick(j, s):
                        if j == len(ks):
                            return d
                        return ip.fork(s, eq(key, ks[j]), lambda a: h.items[ks[j]], lambda c: pick(j + 1, c))
                    return pick(0, st)
            if name == 'popitem':
                raise Unsupported('popitem', node)
        return dict_method(ip, b, name, args, kw, st, cx, node)
    # lists
    if name == 'append':
        w = st.w(b.t.args[0])
        if isinstance(w.items, list):
            w.items.append(args[0])
        else:
            w.seq = cat(w.seq, mk('lit', args[0].t))
        return V(NONE)
    if name == 'extend':
        ip.cases(args[0], st, lambda s, v: ip.list_extend(b, v, s))
        return V(NONE)
    if isinstance(h.items, list):
        if name == 'pop':
            i = args[0].t if args else num(-1)
            if i.op == 'num':
                if not h.items:
                    ip.raise_if(TRUE, 'IndexError', st, cx, node)
                return st.w(b.t.args[0]).items.pop(int(i.args[0]))
        if name == 'insert' and args[0].t.op == 'num':
            st.w(b.t.args[0]).items.insert(int(args[0].t.args[0]), args[1])
            return V(NONE)
        if name == 'reverse':
            st.w(b.t.args[0]).items.reverse()
            return V(NONE)
        if name == 'clear':
            st.w(b.t.args[0]).items = []
            return V(NONE)
        if name == 'copy':
            return st.new(H('list', items=list(h.items)))
    if name == 'pop' and h.seq is not None:
        c = h.seq
        i = args[0].t if args else num(-1)
        w = st.w(b.t.args[0])
        ip.risk(mk('getitem', c, i))
        if i is ZERO:
            w.seq = slseq(c, ONE, NONE, ONE)
            return V(idx(c, ZERO))
        if i.op == 'num' and i.args[0] == -1:
            w.seq = slseq(c, NONE, num(-1), ONE)
            return V(idx(c, num(-1)))
        raise Unsupported('list.pop', node)
    if name == 'insert' and args[0].t is ZERO:
        w = st.w(b.t.args[0])
        w.items, w.seq = None, cat(mk('lit', args[1].t), ip.content_h(w))
        return V(NONE)
    if name == 'sort':
        r = builtin(ip, 'sorted', [b], kw, st, cx, node)
        w = st.w(b.t.args[0])
        hr = ip.H(r, st)
        w.items, w.seq = hr.items, hr.seq
        return V(NONE)
    if name == 'clear':
        w = st.w(b.t.args[0])
        w.items, w.seq = [], None
        return V(NONE)
    return list_method(ip, b, name, args, kw, st, cx, node)


def file_method(ip, b, h, name, args, kw, st, cx, node):
    note = h.note
    if name == 'writelines' and len(args) == 1:
        c = ip.content(args[0], st)
        if c.op in ('lit', 'tup'):
            for x in c.args:
                st.emit(mk('ev', 'write', note, x))
            ip.risk(mk('decode', note))
            return V(NONE)
    if name in ('write', 'writelines'):
        st.emit(mk('ev', name, note, *[frz(ip, a, st) for a in args]))
        ip.risk(mk('decode', note))
        return V(NONE)
    if name == 'close':
        st.emit(mk('ev', 'close', note))
        return V(NONE)
    if name in ('read', 'readlines', 'readline', '__iter__'):
        if ip.filelines(note) is None:
            ip.risk(mk('decode', note))
        if name == 'readlines':
            ls = ip.filelines(note)
            return st.new(H('list', items=[V(x) for x in ls])) if ls is not None else V(mk('lines', note))
        if name == 'read' and not args:
            ls = ip.filelines(note)
            if ls is not None:
                return V(scat(*ls))
            return V(mk('filetext', note))
        return V(opaque('readline', note))
    if name in ('__enter__',):
        return b
    if name in ('__exit__',):
        st.emit(mk('ev', 'close', note))
        return V(NONE)
    if name in ('flush', 'seek', 'fileno', 'tell'):
        return V(NONE)
    raise Unsupported('file.' + name, node)
