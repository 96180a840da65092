"""Harness: evaluate a function of the code base and its specification in the same
abstract state and decide whether they denote the same value."""
import os
from .state import *
from .interp import Interp, Cx, Exit
from . import lib

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')


def arrsym(name, *dims, integer=False, tok=True, masked=False):
    nm = name + ('~' if masked else '')
    t = sym(nm, len(dims), tuple(dims), integer, 'num')
    return V(t, frozenset({('in', name)}) if tok else frozenset())


def intsym(name, pos=True):
    return sym(name, 0, (), True, 'num', pos)


def numsym(name, pos=False):
    return sym(name, 0, (), False, 'num', pos)


def strsym(name):
    return sym(name, 0, (), False, 'str')


def anysym(name):
    return sym(name, None, None, False, None)


class Outcome:
    def __init__(self, value, trace, st, exits, ip):
        self.value, self.trace, self.st, self.exits, self.ip = value, trace, st, exits, ip


class Run:
    """one analysed configuration: a world, an interpreter and an initial state"""

    def __init__(self, world, boundary=(), override=None, effects=True):
        self.world = world
        self.ip = Interp(world, boundary, override, effects)
        self.st = St()
        self.cx = Cx(0, world.module('emva1288') or next(iter(world.mods.values())))
        self.st.fr[0] = {}

    def dict(self, items, base=None, origin=None):
        h = H('dict', items={const(k): (v if isinstance(v, V) else V(v)) for k, v in items.items()})
        if base is not None:
            c = base
            for k, v in h.items.items():
                c = dput(c, k, v.t)
            h.items, h.seq = None, c
        h.origin = origin
        return self.st.new(h)

    def list(self, items):
        return self.st.new(H('list', items=[x if isinstance(x, V) else V(x) for x in items]))

    def instance(self, qual, fields=None, origin=None):
        c = self.world.get(qual)
        if not isinstance(c, Cls):
            return None
        h = H('inst', c, dict(fields or {}))
        if origin is not None:
            h.origin = origin
            h.note = 'open'
        return self.st.new(h)

    def fork(self):
        """run on a copy of the state"""
        return self.st.copy()

    def outcome(self, thunk, st=None, keep=()):
        """thunk(st, cx) -> V"""
        st = st if st is not None else self.st.copy()
        cx = Cx(0, self.cx.module)
        t0 = st.trace
        st.trace = LIT0
        v = None
        dead = False
        try:
            v = thunk(st, cx)
        except Dead:
            dead = True
        val = self.ip.freeze(v.t, st, keep) if not dead else None
        val0 = val
        if val is not None:
            val = constrain(val, st.pc)
        exits = [e for e in cx.exits if e.kind == 'raise']
        out = val
        for e in reversed(exits):
            nm = self.ip.excname(e.v)
            x = mk('raises', nm) if nm else mk('raises', opaque('exception', e.v.t))
            if out is None:
                out = x
            else:
                out = ite(e.pc, x, out)
        if out is None:
            out = mk('raises', 'nothing')
        tr = LIT0
        tr = st.trace if not dead else LIT0
        acc = None if dead else tr
        for e in reversed(exits):
            et = e.st.trace
            acc = et if acc is None else seq_ite(e.pc, et, acc)
        o = Outcome(out, self.ip.freeze(acc if acc is not None else LIT0, st, keep), st, exits, self.ip)
        o.v = v
        o.dead = dead
        return o

    def call(self, fn, args, kw=None, st=None, keep=()):
        """fn: dotted name or V"""
        def thunk(s, cx):
            f = fn
            if isinstance(fn, str):
                r = self.world.get(fn)
                if r is None:
                    raise Vanished(fn)
                f = self.ip.wrap(r, s, cx, None)
            return self.ip.call(f, [a if isinstance(a, V) else V(a) for a in args],
                                {k: (a if isinstance(a, V) else V(a)) for k, a in (kw or {}).items()}, s, cx, None)
        return self.outcome(thunk, st, keep)

    def attr(self, obj, name, call=False, st=None, args=(), kw=None, keep=()):
        """value of obj.name, or of obj.name(*args)"""
        def thunk(s, cx):
            v = self.ip.getattr(obj, name, s, cx, None)
            if call or (call is None and v.t.op in ('bound', 'func')):
                v = self.ip.call(v, [a if isinstance(a, V) else V(a) for a in args],
                                 {k: (a if isinstance(a, V) else V(a)) for k, a in (kw or {}).items()}, s, cx, None)
            return v
        return self.outcome(thunk, st, keep)


class Vanished(Exception):
    pass


# ---------------------------------------------------------------- verdicts

PROVED, VIOLATED, UNDECIDED, BOUNDED = 'proved', 'violation', 'undecided', 'bounded'


def opqset(t):
    return t.opq


SOFT = {'lib', 'app', 'lstore', 'getitem', 'bykey', 'sortedby', 'minlen', 'dynattr', 'castd', 'fmtf', 'fmtp', 'fmtd',
        'todict', 'lindex', 'take', 'gather', 'stackax', 'concat', 'squeeze', 'mcall_', 'raised', 'cyc', 'fix', 'rec', 'mu'}

_softmemo = {}


def datamask(m):
    """a truth array that depends on the data, not on positions"""
    return m.op in ('acmp', 'anot', 'bitop') and not hasop(m, 'range', 'arange')


def hasop(t, *ops):
    return t.op in ops or any(hasop(k, *ops) for k in t.kids)


def subterms(t):
    todo, seen = [t], set()
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo.extend(n.kids)
    return seen


def soft(t):
    """does the term involve constructs whose normal form is not canonical?"""
    r = _softmemo.get(t)
    if r is None:
        r = t.op in SOFT and not (t.op == 'take' and datamask(t.args[1])) or any(soft(k) for k in t.kids)
        _softmemo[t] = r
    return r


def resorted(x, y):
    """x is y in ascending order, and y is an array of arbitrary values: they differ for some y"""
    return x.op == 'lib' and x.args[0] == 'numpy.sort' and len(x.args[1]) == 1 and not x.args[2] and x.args[1][0] is y and y.op in ('arr', 'sym')


def verdict(a, b):
    """-> (verdict, why)"""
    if a is b:
        return PROVED, None
    c = Cmp()
    if c.equal(a, b):
        return PROVED, None
    if hasop(a, 'eq0') and hasop(b, 'eq0') and not a.opq:
        a2, b2 = zeros(a), zeros(b)
        if (a2 is not a or b2 is not b) and Cmp().equal(a2, b2):
            return PROVED, None
    if hasop(a, 'argmax'):
        # the position of the first true element, except that it is 0 when there is none
        first = lambda y: mk('firstidx', y)
        a2, b2 = [replace(t, {n: lift(first, n.args[0]) if n.args[0].op == 'ite' else first(n.args[0]) for n in subterms(t)
                              if n.op in ('argmax', 'firstidx') and len(n.args) == 1 and n.args[0].op in ('acmp', 'anot', 'bitop', 'ite')})
                  for t in (a, b)]
        if Cmp().equal(a2, b2):
            return UNDECIDED, (a, b)
    why = [(x, y) for x, y in c.why] or [(a, b)]
    x, y = why[0]
    if any(x_.opq - b.opq or y_.opq - a.opq for x_, y_ in why) or a.opq != b.opq and (a.opq - b.opq or b.opq - a.opq):
        return UNDECIDED, (x, y)
    if any(n.op == 'len' and n.args[0].op == 'poly' for t in (a, b) for n in subterms(t)):
        return UNDECIDED, (x, y)      # an array that lost its shape, being a scalar times zero
    for x_, y_ in why:
        if (soft(x_) or soft(y_)) and not (resorted(x_, y_) or resorted(y_, x_)):
            return UNDECIDED, (x_, y_)
    return VIOLATED, (x, y)
