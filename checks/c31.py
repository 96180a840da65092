"""Files are closed on every path"""
import ast
from .common import *
from vf.lint import Package, own_nodes, dotted_name

TECHNIQUE = 'typestate analysis of every file opened, over normal and exceptional control flow, with function summaries'
NOTE = ('Every call that opens a file (open, io.open, PIL.Image.open, os.fdopen, ...) in every function of the package is '
        'followed through assignments, with statements, try/except/finally, conditions on the handle, returns (the caller owns '
        'it then) and calls to functions of the package; at every way out of the function, exceptional ones included, no handle '
        'may be open. Any call, attribute, subscript or operator may raise.')
LEVEL_NOTE = 'handles stored in objects or containers are reported as undecided'
MIN = 4
OPENERS = {'builtins.open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'PIL.Image.open', 'tarfile.open',
           'zipfile.ZipFile', 'os.fdopen', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'tempfile.SpooledTemporaryFile',
           'io.FileIO', 'gzip.GzipFile', 'bz2.BZ2File', 'os.open', 'shelve.open', 'matplotlib.backends.backend_pdf.PdfPages',
           'pathlib.Path.open', 'builtins.file', 'wave.open', 'mmap.mmap', 'h5py.File'}
CLOSERS = {'close', '__exit__'}


class Leak(Exception):
    pass


class State:
    """handles held: {id: frozenset of names}, names known to be None"""
    __slots__ = ('h', 'none')

    def __init__(self, h=(), none=()):
        self.h, self.none = frozenset(h), frozenset(none)

    def __eq__(self, o):
        return self.h == o.h and self.none == o.none

    def __hash__(self):
        return hash((self.h, self.none))


def safe(e):
    """evaluation cannot raise"""
    return all(isinstance(n, (ast.Constant, ast.Name, ast.Load, ast.Store, ast.Tuple, ast.List, ast.Dict, ast.Lambda, ast.JoinedStr,
                              ast.arguments, ast.Compare, ast.Is, ast.IsNot, ast.Not, ast.UnaryOp, ast.BoolOp, ast.And, ast.Or))
               and not (isinstance(n, ast.Compare) and not all(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops))
               for n in ast.walk(e)) if e is not None else True


class Analysis:
    def __init__(self, pkg, fn, summaries):
        self.pkg, self.fn, self.sums = pkg, fn, summaries
        self.sites = {}          # id -> node of the opening call
        self.leaks = []          # (site, how)
        self.escapes = []
        self.returns = set()     # handles given to the caller
        self.closed = set()      # parameters closed on every way out
        self.opens = []

    # -- expressions -------------------------------------------------------
    def opener(self, e):
        """call that yields an open file"""
        if not isinstance(e, ast.Call):
            return False
        q = self.pkg.resolve(self.fn, e.func)
        if q in OPENERS:
            return True
        if q is None and isinstance(e.func, ast.Attribute) and e.func.attr == 'open' and self.pkg.method(self.fn, e.func) is None:
            return True          # path.open(...)
        f, q = self.pkg.callee(self.fn, e)
        return f is not None and self.sums.get(f.qual, {}).get('returns', False)

    def wrapper(self, e):
        """contextlib.closing(x), io.TextIOWrapper(x): the file inside"""
        if isinstance(e, ast.Call) and e.args:
            q = self.pkg.resolve(self.fn, e.func)
            if q in ('contextlib.closing', 'io.TextIOWrapper', 'io.BufferedReader', 'io.BufferedWriter'):
                return e.args[0]
        return None

    def site(self, e):
        w = self.wrapper(e)
        if w is not None:
            return self.site(w)
        if isinstance(e, ast.IfExp):
            return self.site(e.body) or self.site(e.orelse)
        if isinstance(e, ast.NamedExpr):
            return self.site(e.value)
        return e if self.opener(e) else None

    def add(self, st, node, names):
        self.sites[id(node)] = node
        if not any(o is node for o in self.opens):
            self.opens.append(node)
        return State(st.h | {(id(node), frozenset(names))}, st.none - set(names))

    def held(self, st, name):
        return [x for x in st.h if name in x[1]]

    def drop(self, st, name):
        return State([x for x in st.h if name not in x[1]], st.none)

    def rebind(self, st, names, how, node):
        h = set()
        for i, ns in st.h:
            left = ns - set(names)
            if not left:
                self.leak(i, how, node)
                continue
            h.add((i, left))
        return State(h, st.none - set(names))

    def leak(self, i, how, node):
        self.leaks.append((self.sites[i], how, node))

    def loose(self, st, e, top):
        """open calls inside e that are not its value"""
        ok = set()
        for t in top:
            if t is not None:
                ok.add(t)
        for n in walk(e):
            if isinstance(n, ast.Call) and self.opener(n) and n not in ok:
                par = self.parent(e, n)
                if isinstance(par, ast.Call) and n in par.args + [k.value for k in par.keywords]:
                    q = self.pkg.resolve(self.fn, par.func)
                    f, _ = self.pkg.callee(self.fn, par)
                    if isinstance(par.func, ast.Attribute) and par.func.attr in ('enter_context', 'push'):
                        self.note(n)
                        continue
                    if f is not None:
                        s = self.sums.get(f.qual, {})
                        k = position(f, par, n)
                        if k in s.get('closes', ()):
                            self.note(n)
                            continue
                if isinstance(par, ast.Attribute) and par.attr in CLOSERS:
                    self.note(n)
                    continue
                self.note(n)
                self.leaks.append((n, 'the open file is not bound to anything that closes it', n))

    def note(self, n):
        if not any(o is n for o in self.opens):
            self.opens.append(n)

    def parent(self, root, n):
        for p in ast.walk(root):
            for c in ast.iter_child_nodes(p):
                if c is n:
                    return p
        return None

    def closes(self, e, st):
        """names closed by evaluating e"""
        out = set()
        for n in walk(e):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in CLOSERS and isinstance(n.func.value, ast.Name):
                    out.add(n.func.value.id)
                q = self.pkg.resolve(self.fn, n.func)
                if q == 'os.close' and n.args and isinstance(n.args[0], ast.Name):
                    out.add(n.args[0].id)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('enter_context', 'push', 'callback'):
                    for a in n.args:
                        if isinstance(a, ast.Name):
                            out.add(a.id)
                        if isinstance(a, ast.Attribute) and a.attr in CLOSERS and isinstance(a.value, ast.Name):
                            out.add(a.value.id)
                f, _ = self.pkg.callee(self.fn, n)
                if f is not None:
                    for k in self.sums.get(f.qual, {}).get('closes', ()):
                        a = argument(f, n, k)
                        if isinstance(a, ast.Name):
                            out.add(a.id)
        return {x for x in out if self.held(st, x)}

    # -- statements: returns {kind: set of states} -----------------------------
    def block(self, body, sts):
        out = {k: set() for k in ('next', 'raise', 'return', 'break', 'continue')}
        cur = set(sts)
        for s in body:
            nxt = set()
            for st in cur:
                r = self.stmt(s, st)
                for k, v in r.items():
                    if k == 'next':
                        nxt |= v
                    else:
                        out[k] |= v
            cur = nxt
            if not cur:
                break
        out['next'] = cur
        return out

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return {'next': {st}, 'raise': {st} if isinstance(s, (ast.Import, ast.ImportFrom)) else set()}
        if isinstance(s, ast.Break):
            return {'break': {st}}
        if isinstance(s, ast.Continue):
            return {'continue': {st}}
        if isinstance(s, ast.Raise):
            return {'raise': {st}}
        if isinstance(s, ast.Return):
            v = s.value
            site = self.site(v) if v is not None else None
            if v is not None:
                self.loose(st, v, [site])
            exc = set() if safe(v) else {st}
            if site is not None:
                self.note(site)
                self.returns.add(site)
                return {'return': {st}, 'raise': exc}
            t = st
            names = {n.id for n in walk(v) if isinstance(n, ast.Name)} if isinstance(v, (ast.Name, ast.Tuple, ast.List)) else set()
            for nm in names:
                for i, ns in self.held(t, nm):
                    self.returns.add(self.sites[i])
                t = self.drop(t, nm)
            if v is not None:
                for nm in self.closes(v, t):
                    t = self.drop(t, nm)
            return {'return': {t}, 'raise': exc}
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            v = s.value
            if v is None:
                return {'next': {st}}
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            site = self.site(v)
            self.loose(st, v, [site])
            exc = set() if safe(v) else {st}
            for nm in self.closes(v, st):
                st = self.drop(st, nm)
            names = [t.id for t in ts if isinstance(t, ast.Name)]
            complex_ = [t for t in ts if not isinstance(t, ast.Name)]
            if site is not None:
                st = self.rebind(st, names, 'reassigned while open', s)
                st = self.add(st, site, names or ['<stored>'])
                if complex_:
                    self.escapes.append((site, 'stored in ' + ast.unparse(complex_[0])))
                    st = self.drop(st, (names or ['<stored>'])[0])
                return {'next': {st}, 'raise': exc}
            if isinstance(v, ast.Name) and self.held(st, v.id):
                if complex_:
                    for i, ns in self.held(st, v.id):
                        self.escapes.append((self.sites[i], 'stored in ' + ast.unparse(complex_[0])))
                    st = self.drop(st, v.id)
                else:
                    h = {(i, ns | set(names)) if v.id in ns else (i, ns) for i, ns in st.h}
                    st = State(h, st.none - set(names))
                return {'next': {st}, 'raise': exc}
            bound = set()
            for t in ts:
                bound |= {n.id for n in walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            st2 = self.rebind(st, bound, 'reassigned while open', s)
            if isinstance(v, ast.Constant) and v.value is None:
                st2 = State(st2.h, st2.none | set(names))
            if complex_:
                exc |= {st}
            return {'next': {st2}, 'raise': exc}
        if isinstance(s, ast.Expr):
            return self.expr(s.value, st)
        if isinstance(s, ast.Delete):
            names = {t.id for t in s.targets if isinstance(t, ast.Name)}
            return {'next': {self.rebind(st, names, 'deleted while open', s)}}
        if isinstance(s, ast.Assert):
            r = self.expr(s.test, st)
            r['raise'] = r.get('raise', set()) | {st}
            return r
        if isinstance(s, ast.If):
            r = self.expr(s.test, st)
            out = merge({'raise': r.get('raise', set())})
            for t in r['next']:
                a, b = self.refine(s.test, t)
                if a is not None:
                    out = merge(out, self.block(s.body, {a}))
                if b is not None:
                    out = merge(out, self.block(s.orelse, {b}))
            return out
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            return self.loop(s, st)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.with_(s, 0, st)
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            return self.try_(s, st)
        if isinstance(s, ast.Match):
            r = self.expr(s.subject, st)
            out = merge({'raise': r.get('raise', set()), 'next': set(r['next'])})
            for c in s.cases:
                out = merge(out, self.block(c.body, r['next']))
            return out
        return {'next': {st}, 'raise': {st}}

    def expr(self, e, st):
        if isinstance(e, ast.Yield) or isinstance(e, ast.YieldFrom) or isinstance(e, ast.Await):
            e2 = e.value
            if e2 is not None:
                self.loose(st, e2, [None])
            return {'next': {st}, 'raise': {st}}
        self.loose(st, e, [None] if not (isinstance(e, ast.NamedExpr) and self.site(e.value)) else [self.site(e.value)])
        cl = self.closes(e, st)
        t = st
        for nm in cl:
            t = self.drop(t, nm)
        for n in walk(e):
            if isinstance(n, ast.NamedExpr) and self.site(n.value) is not None:
                t = self.rebind(t, [n.target.id], 'reassigned while open', n)
                t = self.add(t, self.site(n.value), [n.target.id])
            # handed to a container
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add', 'setdefault', 'put'):
                for a in n.args:
                    if isinstance(a, ast.Name) and self.held(t, a.id):
                        for i, ns in self.held(t, a.id):
                            self.escapes.append((self.sites[i], 'stored by ' + ast.unparse(n.func)))
                        t = self.drop(t, a.id)
        # a close that is itself interrupted counts as done
        exc = set() if safe(e) else {t if cl and isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in CLOSERS and not e.args or cl and isinstance(e, ast.Call) and self.pkg.callee(self.fn, e)[0] is not None else st}
        return {'next': {t}, 'raise': exc}

    def refine(self, test, st):
        """(state when true, state when false); None when impossible"""
        def name_of(e):
            return e.id if isinstance(e, ast.Name) else None
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, neg = test.operand, not neg
        a = b = st
        if isinstance(test, ast.Constant):
            a, b = (st, None) if test.value else (None, st)
        n = name_of(test)
        isn = None
        if n is not None:
            isn = False       # true: not None
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None and name_of(test.left):
            n = test.left.id
            isn = isinstance(test.ops[0], (ast.Is, ast.Eq))
        elif isinstance(test, ast.Attribute) and test.attr == 'closed' and name_of(test.value) and self.held(st, test.value.id):
            a, b = None, st
            n = None
        if n is not None:
            if self.held(st, n):
                a, b = (None, st) if isn else (st, None)
            elif n in st.none:
                a, b = (st, None) if isn else (None, st)
        return (b, a) if neg else (a, b)

    def loop(self, s, st):
        first = self.expr(s.test if isinstance(s, ast.While) else s.iter, st)
        out = merge({'raise': first.get('raise', set())})
        seen, work = set(), set(first['next'])
        after = set()
        if not isinstance(s, ast.While):
            names = {n.id for n in walk(s.target) if isinstance(n, ast.Name)}
        forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
        while work:
            t = work.pop()
            if t in seen:
                continue
            seen.add(t)
            if not forever:
                after.add(t)
            if not isinstance(s, ast.While):
                out['raise'] = out['raise'] | {t}
                t = self.rebind(t, names, 'reassigned while open', s)
            r = self.block(s.body, {t})
            out['raise'] |= r['raise']
            out['return'] |= r['return']
            out['next'] |= r['break']
            for u in r['next'] | r['continue']:
                if isinstance(s, ast.While):
                    q = self.expr(s.test, u)
                    out['raise'] |= q.get('raise', set())
                    work |= q['next']
                else:
                    work.add(u)
            if len(seen) > 400:
                raise Unsupported('too many states', s)
        if s.orelse:
            r = self.block(s.orelse, after)
            for k in r:
                out[k] |= r[k]
        else:
            out['next'] |= after
        return out

    def with_(self, s, k, st):
        if k == len(s.items):
            return self.block(s.body, {st})
        it = s.items[k]
        e = it.context_expr
        site = self.site(e)
        self.loose(st, e, [site])
        if site is not None:
            self.note(site)
        exc = set() if safe(e) else {st}
        inner = st
        names = {n.id for n in walk(it.optional_vars) if isinstance(n, ast.Name)} if it.optional_vars is not None else set()
        held = set()
        w = self.wrapper(e) or e
        if isinstance(w, ast.Name) and self.held(st, w.id):
            held = {w.id}
            inner = self.drop(inner, w.id)      # closed whatever happens in the body
            exc = set()
        inner = self.rebind(inner, names, 'reassigned while open', s)
        if isinstance(e, ast.Call) and self.pkg.resolve(self.fn, e.func) == 'contextlib.suppress':
            r = self.with_(s, k + 1, inner)
            r['next'] = r['next'] | r['raise']
            return merge(r, {'raise': exc})
        r = self.with_(s, k + 1, inner)
        # the context manager may suppress nothing here: files do not
        return merge(r, {'raise': exc})

    def try_(self, s, st):
        body = self.block(s.body, {st})
        out = merge({'return': body['return'], 'break': body['break'], 'continue': body['continue']})
        catch_all = any(h.type is None or 'BaseException' in ast.unparse(h.type) or ast.unparse(h.type) == 'Exception' for h in s.handlers)
        for h in s.handlers:
            for t in body['raise']:
                u = State(t.h, t.none)
                r = self.block(h.body, {u})
                out = merge(out, r)
        if not catch_all or not s.handlers:
            out['raise'] |= body['raise']
        if s.orelse:
            out = merge(out, self.block(s.orelse, body['next']))
        else:
            out['next'] |= body['next']
        if s.finalbody:
            new = merge({})
            for k, sts in out.items():
                for t in sts:
                    r = self.block(s.finalbody, {t})
                    for kk, vv in r.items():
                        new[k if kk == 'next' else kk] |= vv
            out = new
        return out

    def run(self):
        params = []
        a = getattr(self.fn.node, 'args', None)
        st = State()
        if a is not None:
            params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        r = self.block(self.fn.body, {st})
        for k, how in (('next', 'at the end'), ('return', 'at a return'), ('raise', 'when an exception leaves the function'),):
            for t in r[k]:
                for i, ns in t.h:
                    self.leak(i, 'still open ' + how, None)
        # parameters closed on every way out
        closed = []
        for p in params:
            if p in ('self', 'cls'):
                continue
            probe = Analysis(self.pkg, self.fn, self.sums)
            probe.sites[0] = self.fn.node
            try:
                q = probe.block(self.fn.body, {State({(0, frozenset([p]))})})
            except (Unsupported, KeyError):
                continue
            if any(i == 0 for x, h, n in probe.leaks for i in ([0] if x is self.fn.node else [])):
                continue
            if any(x is self.fn.node for x, h in probe.escapes) or self.fn.node in probe.returns:
                continue
            if any(i == 0 for sts in q.values() for t in sts for i, ns in t.h):
                continue
            if any(q.values()) and mentions_close(self.fn.node, p):
                closed.append(p)
        return {'returns': bool(self.returns), 'closes': closed}


def mentions_close(node, p):
    return any(isinstance(n, ast.Name) and n.id == p for n in ast.walk(node))


def walk(e):
    """nodes of an expression, without nested functions"""
    if e is None:
        return
    stack = [e]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.Lambda, ast.FunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def merge(*rs):
    out = {k: set() for k in ('next', 'raise', 'return', 'break', 'continue')}
    for r in rs:
        for k, v in r.items():
            out[k] |= v
    return out


def position(f, call, arg):
    ps = [x.arg for x in f.node.args.args]
    if f.cls is not None and ps and ps[0] == 'self':
        ps = ps[1:]
    for k, a in enumerate(call.args):
        if a is arg:
            return ps[k] if k < len(ps) else None
    for kw in call.keywords:
        if kw.value is arg:
            return kw.arg
    return None


def argument(f, call, name):
    for kw in call.keywords:
        if kw.arg == name:
            return kw.value
    ps = [x.arg for x in f.node.args.args]
    if f.cls is not None and ps and ps[0] in ('self', 'cls'):
        ps = ps[1:]
    if name in ps and ps.index(name) < len(call.args):
        return call.args[ps.index(name)]
    return None


def analyse(pkg, ck=None):
    sums = {}
    for k in range(4):
        new = {}
        for fn in pkg.fns:
            try:
                new[fn.qual] = Analysis(pkg, fn, sums).run()
            except Unsupported:
                new[fn.qual] = {}
        if new == sums:
            break
        sums = new
    return sums


CONTROL = """
def leaky(p):
    f = open(p)
    x = f.read()
    f.close()
    return x
def good(p):
    f = open(p)
    try:
        return f.read()
    finally:
        f.close()
def chained(p):
    return open(p).read()
def helper(p):
    return open(p)
def user(p):
    with helper(p) as f:
        return f.read()
def lost(p):
    f = helper(p)
    return f.name
def shut(f):
    f.close()
def byhelper(p):
    f = open(p)
    shut(f)
def early(p, q):
    f = open(p)
    if q:
        return 1
    f.close()
def maybe(p):
    f = None
    try:
        f = open(p)
        return f.read()
    finally:
        if f is not None:
            f.close()
"""


def run(ck):
    pkg = Package(ck.world)
    sums = analyse(pkg)
    n = 0
    for fn in pkg.fns:
        a = Analysis(pkg, fn, sums)

        def go():
            a.run()
            ck.analysed.append(fn.qual) if hasattr(ck, 'analysed') else None
            for e in a.opens:
                bad = [(how, node) for s, how, node in a.leaks if s is e]
                esc = [why for s, why in a.escapes if s is e]
                v = VIOLATED if bad else UNDECIDED if esc else PROVED
                name = '%s: %s' % (fn.qual, ast.unparse(e)[:60])
                ck.add(name, v, fn.at(e), '; '.join(sorted({h for h, _ in bad} | set(esc))),
                       'closed on every way out, or given to the caller')
        before = len(ck.obl)
        ck.guard('files opened in ' + fn.qual, go, fn.where)
        n += len(a.opens)
    ck.rule('functions of the package analysed', len(pkg.fns) >= 60, '', '%d functions' % len(pkg.fns))
    control(ck)


def control(ck):
    import os
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'ctl')
        os.mkdir(p)
        with open(os.path.join(p, '__init__.py'), 'w') as f:
            f.write(CONTROL)
        from vf.state import World
        w = World(d, {'ctl': p})
        pkg = Package(w, 'ctl')
        sums = analyse(pkg)
        want = {'leaky': True, 'good': False, 'chained': True, 'helper': False, 'user': False, 'lost': True, 'byhelper': False,
                'early': True, 'maybe': False}
        for fn in pkg.fns:
            nm = fn.qual.split('.')[-1]
            if nm in want:
                a = Analysis(pkg, fn, sums)
                a.run()
                ck.control('typestate of ' + nm, bool(a.leaks) == want[nm])
