"""Reading results is repeatable and never alters the data"""
import itertools
import time
from .common import *
from .results_common import RES, make, member_where
from . import c17, data_common as dc
from .c26 import NAMES as PLOTS, P as PLOT
from . import xml_common as X
from vf.term import restrict
from vf.interp import UNDEF

NOTE = ('Every public member of Results1288, every export and every standard plot is evaluated abstractly on symbolic data; the state '
        'after it (abstract heap, module variables, class attributes, arrays of the caller) is compared with the state before. '
        'The caller\'s dictionaries and arrays must be untouched. The fields of the object that are written span the reachable '
        'states (a fixed point over all operations, conditional writes split by their conditions); in each of them, and with '
        'another result object read before in the same process, every member must denote the value it has on a fresh object.')
MIN = 200
EXPORTS = ('results', 'results_by_section', 'print_results', 'xml')
MAXSTATES = 6
TITLE = {False: '', True: ' (forced saturation index)'}


def public(ck):
    c = ck.world.get(RES)
    if not isinstance(c, Cls):
        raise Vanished(RES)
    out = []
    for k in c.mro():
        if isinstance(k, Cls):
            for nm, f in k.members.items():
                if nm.startswith('_') or nm in out:
                    continue
                a = f.args
                if len(a.args) - len(a.defaults) <= 1:
                    out.append(nm)
    return out


class Obj:
    """a result object with its run and its initial state"""

    def __init__(self, ck, forced, masked, export=False, plot=None):
        self.ck = ck
        self.seen = {}
        if export:
            self.r, self.obj, self.vals = c17.setup(ck, 0, masked)
            X.install(ck, self.r)
        else:
            self.r, self.obj, _ = make(ck, forced, masked)
        self.plots = {}
        if plot:
            c = ck.world.get(PLOT + plot)
            if not isinstance(c, Cls):
                raise Vanished(PLOT + plot)
            self.plots[plot] = self.r.ip.construct(c, [V(anysym('figure'))], {}, self.r.st, self.r.cx, None)
        self.st0 = self.r.st
        self.f0 = self.fields(self.st0)

    def fields(self, st):
        return {k: self.r.ip.freeze(v.t, st) for k, v in st.heap[self.obj.t.args[0]].f.items() if k != 'log'}

    def do(self, op, st=None):
        st = (st or self.st0).copy()
        st.mut = frozenset()
        if op in self.plots:
            return self.r.attr(self.plots[op], 'plot', True, st=st, args=[self.obj])
        ip = self.r.ip
        ip.reads = set()
        try:
            o = self.r.attr(self.obj, op, None, st=st)
            if (ip.reads is not None):
                me = self.obj.t.args[0]
                self.seen.setdefault(op, set()).update(n for i, n in ip.reads if i == me)
        finally:
            ip.reads = None
        return o

    def depends(self, op, fields):
        """whether an evaluation of op looked at one of the fields"""
        s = self.seen.get(op)
        return s is None or '__dict__' in s or bool(s & set(fields))

    def after(self, o):
        """the states an operation can end in"""
        return ([] if o.dead else [o.st]) + [e.st for e in o.exits if e.st is not None]

    def unsettled(self, st):
        """fields of module or class level state that differ from the initial one"""
        out = sorted(str(k) for k in st.fr['glob'])
        for i, h in st.heap.items():
            h0 = self.r.ip.globinit.get(i)
            if h0 is not None and h is not h0 and self.content(h) != self.content(h0):
                out.append('an object at module or class level')
        return out

    def content(self, h):
        return (h.kind, [(k, v.t) for k, v in h.f.items()], [v.t for v in h.items] if isinstance(h.items, list) else
                [(k, v.t) for k, v in h.items.items()] if isinstance(h.items, dict) else None, h.seq)

    def harm(self, o):
        """what of the caller's is changed"""
        out = set()
        for st in self.after(o):
            out |= {str(x[1] if isinstance(x, tuple) else x) for x in st.mut}
            for d, g in zip(self.r.caller, self.r.given):
                t = self.r.ip.freeze(d.t, st)
                if t is not g and not out and verdict(t, g)[0] != PROVED:
                    out.add('the dictionary given: %s' % changed(t, g))
        return sorted(out)


def changed(a, b):
    if a.op == b.op == 'dlit':
        da, db = dict(a.args[0]), dict(b.args[0])
        for k in list(da) + [k for k in db if k not in da]:
            if da.get(k) is not db.get(k):
                if k in da and k in db:
                    return show(k, 2) + '.' + changed(da[k], db[k])
                return show(k, 2) + (' added' if k in da else ' removed')
    return ''


def conds(t, acc=None):
    acc = [] if acc is None else acc
    while t.op == 'ite':
        if t.args[0] not in acc:
            acc.append(t.args[0])
        conds(t.args[1], acc)
        t = t.args[2]
    return acc


def same(a, b):
    return a is b or UNDEF not in (a, b) and verdict(a, b)[0] == PROVED


def mixture(t, base):
    """t is, under each of its conditions, one of the base values"""
    if any(same(t, b) for b in base):
        return True
    for c in conds(t):
        a, b = restrict(t, c, True), restrict(t, c, False)
        for x, y in ((a, b), (b, a)):
            if x in base and y is not t:
                return mixture(y, base)
    return False


def peel(t, base):
    """the part of t that is none of the base values"""
    for c in conds(t):
        a, b = restrict(t, c, True), restrict(t, c, False)
        for x, y in ((a, b), (b, a)):
            if x in base and y is not t:
                return peel(y, base)
    return t


def data(t):
    """a value that lives in a field without reference to other objects"""
    return not hasop(t, 'dlit', 'inst', 'ref', 'obj')


class States:
    """reachable values of the fields that operations write"""

    def __init__(self, o):
        self.o = o
        self.alts = {}      # field -> [initial, ...]
        self.live = []      # states with caches that are objects
        self.writers = {}
        self.wide = False

    def add(self, op, st):
        """-> True when the state is new"""
        f = self.o.fields(st)
        new = False
        live = False
        for k in set(f) | set(self.o.f0):
            t0 = self.o.f0.get(k, UNDEF)
            t = f.get(k, UNDEF)
            if t is t0:
                continue
            if not data(t):
                live = True
                continue
            base = self.alts.setdefault(k, [t0])
            if mixture(t, base):
                continue
            base.append(peel(t, base))
            self.writers.setdefault(k, []).append(op)
            new = True
            if len(base) > 3:
                self.wide = True
        if live and not any(x[1] == f for x in self.live):
            self.live.append((op, f, st))
            self.writers.setdefault('', []).append(op)
            new = True
        return new

    def all(self):
        """(name, state) of the states other than the initial one"""
        ks = sorted(self.alts)
        out = []
        combos = list(itertools.product(*[range(len(self.alts[k])) for k in ks]))
        if len(combos) > MAXSTATES:
            self.wide = True
            combos = [c for c in combos if sum(1 for x in c if x) in (1, len(ks))][:MAXSTATES]
        for c in combos:
            if not any(c):
                continue
            st = self.o.st0.copy()
            w = st.w(self.o.obj.t.args[0])
            for k, j in zip(ks, c):
                w.f[k] = V(self.alts[k][j])
                if self.alts[k][j] is UNDEF:
                    del w.f[k]
            out.append((', '.join('%s set by %s' % (k, self.writers[k][j - 1]) for k, j in zip(ks, c) if j), st,
                        [k for k, j in zip(ks, c) if j]))
        for op, f, st in self.live[:MAXSTATES]:
            out.append(('after ' + op, st, [k for k in set(f) | set(self.o.f0) if f.get(k) is not self.o.f0.get(k)]))
        if self.live:
            self.wide = True
        return out


def repeat(ck, forced, masked):
    tag = TITLE[forced] + (' masked' if masked else '')
    o = Obj(ck, forced, masked)
    ops = [n for n in public(ck) if n not in EXPORTS]
    value, outs, skipped = {}, {}, {}
    S = States(o)
    glob = {}
    end = time.time() + (900 if ck.tier == 'thorough' else 120)

    def first(op):
        w = member_where(ck.world, RES, op)
        got = o.do(op)
        m = o.harm(got)
        ck.add('%s leaves the data%s' % (op, tag), VIOLATED if m else PROVED, w, 'modifies ' + ', '.join(m) if m else '',
               'no write reaches the dictionaries and arrays the caller supplied')
        value[op], outs[op] = got.value, got
        for st in o.after(got):
            S.add(op, st)
            g = o.unsettled(st)
            if g:
                glob[op] = g
    for op in ops:
        ck.guard('%s%s' % (op, tag), lambda: first(op), member_where(ck.world, RES, op))
    rule = 'a member denotes the same value in every reachable state of the object'
    done = []
    for rnd in range(4):
        todo = [x for x in S.all() if x[0] not in done]
        if not todo:
            break
        for n, st, fields in todo:
            done.append(n)
            for op in ops:
                if op not in value:
                    continue
                if not o.depends(op, fields):
                    ck.add('%s again, %s%s' % (op, n, tag), PROVED, member_where(ck.world, RES, op), 'reads none of these fields', rule)
                    continue
                if time.time() > end:
                    ck.add('%s again, %s%s' % (op, n, tag), UNDECIDED, member_where(ck.world, RES, op), 'time limit of the exploration', rule)
                    continue

                def again(op=op):
                    got = o.do(op, st)
                    v, why = verdict(got.value, value[op])
                    det = ''
                    if v != PROVED:
                        det = 'with %s: ' % n + describe(got.value, value[op], why)
                    ck.add('%s again, %s%s' % (op, n, tag), BOUNDED if v == PROVED and S.wide else v,
                           member_where(ck.world, RES, op), det, rule)
                    for s in o.after(got):
                        S.add(op, s)
                ck.guard('%s again, %s%s' % (op, n, tag), again, member_where(ck.world, RES, op))
    else:
        ck.add('reachable states%s' % tag, UNDECIDED, ck.where(RES), 'more than four rounds of reads give new states', rule)
    for op in ops:
        if op in value and not done:
            ck.add('%s again%s' % (op, tag), PROVED, member_where(ck.world, RES, op), 'nothing writes a field', rule)
    # state shared between objects
    for op, g in sorted(glob.items()):
        shared(ck, o, op, outs[op], ops, forced, masked, tag, g)


def shared(ck, o, op, got, ops, forced, masked, tag, g):
    """members of another object read after op on the first"""
    r, other, _ = make(ck, forced, masked, run=o.r, prefix='other:')
    fresh = {}
    for n in ops:
        try:
            fresh[n] = r.attr(other, n, None, st=o.st0.copy()).value
        except Exception:
            pass
    for st in o.after(got):
        s = st.copy()
        for i, h in r.st.heap.items():
            if i not in s.heap:
                s.heap[i] = h
        for n in ops:
            def one(n=n):
                if n not in fresh:
                    return
                x = r.attr(other, n, None, st=s.copy()).value
                v, why = verdict(x, fresh[n])
                ck.add('%s after %s of another object%s' % (n, op, tag), v, member_where(ck.world, RES, n),
                       '' if v == PROVED else '%s is kept: %s' % (', '.join(g), describe(x, fresh[n], why)),
                       'what is read from one object does not depend on reads of another')
            ck.guard('%s after %s of another object%s' % (n, op, tag), one, member_where(ck.world, RES, n))


def exports(ck, masked):
    """exports and printing: members are unknown values"""
    tag = ' masked' if masked else ''
    o = Obj(ck, False, masked, export=True)
    for op in EXPORTS:
        def one(op=op):
            w = member_where(ck.world, RES, op)
            got = o.do(op)
            m = o.harm(got)
            ck.add('%s leaves the data%s' % (op, tag), VIOLATED if m else PROVED, w, 'modifies ' + ', '.join(m) if m else '',
                   'no write reaches the dictionaries and arrays the caller supplied')
            rule = 'exporting and printing changes nothing that a later read depends on'
            diff = [k for st in o.after(got) for k in set(o.fields(st)) | set(o.f0) if o.fields(st).get(k) is not o.f0.get(k)]
            glob = [x for st in o.after(got) for x in o.unsettled(st)]
            if not diff and not glob:
                ck.add('%s again%s' % (op, tag), PROVED, w, '', rule)
                return
            # what changed may be a cache: everything must still be the same
            for st in o.after(got):
                for n in EXPORTS:
                    a, b = o.do(n), o.do(n, st)
                    v, why = verdict(b.value, a.value)
                    ck.add('%s after %s%s' % (n, op, tag), v, member_where(ck.world, RES, n),
                           '' if v == PROVED else describe(b.value, a.value, why), rule)
        ck.guard('%s%s' % (op, tag), one, member_where(ck.world, RES, op))


def plots(ck, masked):
    tag = ' masked' if masked else ''
    for nm in PLOTS:
        w = member_where(ck.world, PLOT + nm, 'plot')

        def one(nm=nm, w=w):
            o = Obj(ck, True, masked, plot=nm)
            got = o.do(nm)
            m = o.harm(got)
            ck.add('%s leaves the data%s' % (nm, tag), VIOLATED if m else PROVED, w, 'modifies ' + ', '.join(m) if m else '',
                   'no write reaches the dictionaries and arrays the caller supplied')
            diff = sorted({k for st in o.after(got) for k in set(o.fields(st)) | set(o.f0) if o.fields(st).get(k) is not o.f0.get(k)})
            rule = 'drawing leaves the result object as reading leaves it'
            if not diff:
                ck.add('%s leaves the results%s' % (nm, tag), PROVED, w, '', rule)
                return
            # only what reading the members themselves writes
            base = {}
            for n in public(ck):
                if n in EXPORTS:
                    continue
                try:
                    for st in o.after(o.do(n)):
                        f = o.fields(st)
                        for k in f:
                            if f[k] is not o.f0.get(k):
                                base.setdefault(k, [o.f0.get(k)]).append(f[k])
                except Exception:
                    continue
            for st in o.after(got):
                f = o.fields(st)
                for k in diff:
                    if k in base and k in f and mixture(f[k], [x for x in base[k] if x is not None]):
                        continue
                    ck.add('%s leaves the results%s' % (nm, tag), UNDECIDED if k in base or f.get(k) is not None and f[k].opq else VIOLATED,
                           w, 'changes the field %s of the result object' % k, rule)
                    return
            ck.add('%s leaves the results%s' % (nm, tag), PROVED, w, '', rule)
        ck.guard('%s%s' % (nm, tag), one, w)


def building(ck):
    """Data1288 and Results1288 leave what they are given"""
    D = dc.D
    w = ck.where(D)
    rule = 'no write reaches the dictionaries and arrays the caller supplied'
    for name, t, s in (('any exposures', dc.sym_temporal(), dc.GOOD_S), ('two exposures', {10.0: [0.0, 5.0], 8.0: [6.0, 0.0]}, dc.GOOD_S),
                       ('one exposure', dc.GOOD_T, dc.GOOD_S), ('incomplete', {10.0: [5.0]}, dc.GOOD_S), ('two spatial', dc.GOOD_T, {50.0: [0.0, 7.0, 9.0]})):
        def one(name=name, t=t, s=s):
            r = Run(ck.world)
            d = dc.data(r, t, s)
            g = r.ip.freeze(d.t, r.st)
            o = dc.build(ck, r, d)
            bad = set()
            for st in ([] if o.dead else [o.st]) + [e.st for e in o.exits if e.st is not None]:
                bad |= {str(x[1] if isinstance(x, tuple) else x) for x in st.mut}
                x = r.ip.freeze(d.t, st)
                if x is not g and verdict(x, g)[0] != PROVED:
                    bad.add('the dictionary given: ' + changed(x, g))
            ck.add('Data1288 leaves its input, %s' % name, VIOLATED if bad else PROVED, w, 'modifies ' + ', '.join(sorted(bad)) if bad else '', rule)
            if o.dead or name in ('incomplete', 'two spatial'):
                return

            def twice(st, cx):
                c = ck.world.get(D)
                x = r.ip.construct(c, [d], {}, st, cx, None)
                a = r.ip.getattr(x, 'data', st, cx, None)
                ta = r.ip.freeze(a.t, st)
                b = r.ip.getattr(x, 'data', st, cx, None)
                return V(mk('tup', ta, r.ip.freeze(b.t, st)))
            v = okval(r.outcome(twice).value)
            ck.equal('Data1288.data read twice, %s' % name, v.args[1], v.args[0], w, 'the reduced data are the same however often they are read')
        ck.guard('Data1288 %s' % name, one, w)
    for forced in (False, True):
        o = Obj(ck, forced, False)
        m = sorted({str(x[1] if isinstance(x, tuple) else x) for x in o.st0.mut})
        x = o.r.ip.freeze(o.r.caller[0].t, o.st0)
        if x is not o.r.given[0] and verdict(x, o.r.given[0])[0] != PROVED:
            m.append('the dictionary given: ' + changed(x, o.r.given[0]))
        ck.add('Results1288 leaves its input%s' % TITLE[forced], VIOLATED if m else PROVED, ck.where(RES), 'modifies ' + ', '.join(m) if m else '', rule)


def run(ck):
    ck.guard('building', lambda: building(ck), ck.where(dc.D))
    for forced in (False, True):
        for masked in (False, True):
            if forced and masked and ck.tier != 'thorough':
                continue
            repeat(ck, forced, masked)
    for masked in (False, True):
        exports(ck, masked)
        plots(ck, masked)
    ck.guard('controls', lambda: controls(ck), ck.where(RES))


def controls(ck):
    """a write into the caller's data and a value that depends on the history are told apart"""
    o = Obj(ck, False, False)
    g = spec_call(ck, o.r, 'corrupt', [o.obj], st=o.st0.copy())
    ck.control('a write into the caller\'s arrays is seen', bool(o.harm(g)))
    a = spec_call(ck, o.r, 'remember', [o.obj], st=o.st0.copy())
    b = spec_call(ck, o.r, 'remember', [o.obj], st=a.st.copy())
    ck.control('a value that depends on earlier reads is seen', verdict(b.value, a.value)[0] == VIOLATED)
