"""Report1288 executed abstractly: the template engine, figures and plots are stand-ins that record what they are given."""
import os
from .common import *
from .c26 import NAMES as PLOTS, P as PLOT
from vf import text
from vf.term import restrict

REP = 'emva1288.report.report'
RC = REP + '.Report1288'
PKG = os.path.join('src', 'emva1288', 'report')
OUT = strsym('outdir')
ROOT = mk('abspath', OUT)
INFOS = ('marketing', 'basic', 'setup')
FILES = (('marketing', 'logo'), ('marketing', 'missingplot'), ('basic', 'qe_plot'))
# which arguments of an effect are written, removed
WRITES = {'os.makedirs': (0,), 'os.mkdir': (0,), 'shutil.copytree': (1,), 'shutil.copy': (1,), 'shutil.copyfile': (1,),
          'shutil.copy2': (1,), 'shutil.move': (0, 1), 'os.rename': (0, 1), 'os.replace': (0, 1), 'os.remove': (0,), 'os.unlink': (0,),
          'shutil.rmtree': (0,), 'os.rmdir': (0,), 'os.chdir': (), 'os.listdir': (), 'os.getcwd': (), 'os.symlink': (1,)}
REMOVES = {'shutil.move': (0,), 'os.rename': (0,), 'os.replace': (0,), 'os.remove': (0,), 'os.unlink': (0,), 'shutil.rmtree': (0,),
           'os.rmdir': (0,)}
ARGNAMES = {'os.makedirs': ['name'], 'os.mkdir': ['path'], 'shutil.copytree': ['src', 'dst'], 'shutil.copy': ['src', 'dst'],
            'shutil.copyfile': ['src', 'dst'], 'shutil.copy2': ['src', 'dst'], 'shutil.rmtree': ['path'], 'shutil.move': ['src', 'dst'],
            'os.rename': ['src', 'dst'], 'os.replace': ['src', 'dst'], 'os.remove': ['path'], 'os.unlink': ['path'], 'os.rmdir': ['path']}


class Rep:
    """a run in which reports are made"""

    def __init__(self, ck, existing=False, results=None):
        self.ck = ck
        self.r = r = Run(ck.world)
        self.renders = []
        self.figures = 0
        self.results = results
        ov = r.ip.override
        ov['ext:jinja2.Environment'] = lambda ip, args, kw, st, cx, node: ip.construct(ck.spec('JEnv'), args, kw, st, cx, node)
        ov['ext:matplotlib.figure.Figure'] = self.figure
        ov['specs.JTemplate.render'] = self.render
        for nm in PLOTS:
            c = ck.world.get(PLOT + nm)
            if not isinstance(c, Cls):
                continue
            for meth in ('plot', 'rearrange'):
                m = c.find(meth)
                if m is not None and m[0] == 'func':
                    ov[r.ip.qual(r.ip.mfunc(m))] = self.drawn(meth)
        if existing:
            for n in ('os.makedirs', 'os.mkdir', 'shutil.copytree'):
                ov['ext:' + n] = self.there(n)

    def there(self, n):
        """the directory may exist"""
        from vf import lib

        def f(ip, args, kw, st, cx, node):
            a = dict(zip(ARGNAMES[n], args))
            a.update(kw)
            p = ip.freeze(a[ARGNAMES[n][-1] if n != 'os.makedirs' else 'name'].t, st)
            ok = kw.get('exist_ok') or kw.get('dirs_exist_ok')
            if n == 'os.makedirs' and len(args) > 2:
                ok = args[2]
            if n == 'shutil.copytree' and len(args) > 5:
                ok = args[5]
            if ok is None or ok.t is not TRUE:
                ip.raise_if(batom(mk('isfile', 'exists', p)), 'FileExistsError', st, cx, node, ())
            return None
        return f

    def figure(self, ip, args, kw, st, cx, node):
        self.figures += 1
        return V(anysym('figure%d' % self.figures))

    def render(self, ip, args, kw, st, cx, node):
        t, env = args[0], None
        name = ip.freeze(ip.getattr(t, 'name', st, cx, node).t, st)
        env = ip.getattr(t, 'env', st, cx, node)
        ctx = {}
        for a in args[1:]:
            h = ip.H(a, st)
            if h is not None and h.kind == 'dict' and isinstance(h.items, dict):
                ctx.update({k.args[0] if k.op == 'str' else k: v for k, v in h.items.items()})
        ctx.update(kw)
        fz = {k: ip.freeze(v.t, st) for k, v in ctx.items()}
        self.renders.append((name, fz, env, ctx, st.copy()))
        s = strsym('text of %s #%d' % (name.args[0] if name.op == 'str' else show(name, 3), len(self.renders)))
        return V(s)

    def drawn(self, meth):
        def f(ip, args, kw, st, cx, node):
            h = ip.H(args[0], st)
            fig = h.f.get('figure')
            c = h.cls.qual.split('.')[-1]
            st.emit(mk('ev', 'plot.' + meth, const(c), fig.t if fig is not None else NONE,
                       tuple(ip.freeze(a.t, st) for a in args[1:])))
            return V(NONE)
        return f

    def new(self, out=OUT, st=None, **kw):
        """-> Outcome of making a report"""
        c = self.ck.world.get(RC)
        if not isinstance(c, Cls):
            raise Vanished(RC)
        r = self.r

        def go(s, cx):
            self.rep = r.ip.construct(c, [V(out)], dict(kw), s, cx, None)
            return self.rep
        return r.outcome(go, st=st)

    def infos(self, st=None):
        """information dictionaries of the caller: every field unknown"""
        out = {}
        r = self.r
        for k in INFOS:
            f = self.ck.world.get(REP + '.info_' + k)
            if f is None:
                raise Vanished(REP + '.info_' + k)
            d = r.ip.call(r.ip.wrap(f, r.st, r.cx, None), [], {}, r.st, r.cx, None)
            h = r.st.w(d.t.args[0])
            h.items = {n: V(anysym('%s[%s]' % (k, n.args[0]))) if (k, n.args[0]) not in FILES else V(text.word('%s[%s]' % (k, n.args[0]), ''))
                       for n in h.items}
            out[k] = d
        return out

    def op(self, name='op'):
        r = self.r
        f = self.ck.world.get(REP + '.info_op')
        if f is None:
            raise Vanished(REP + '.info_op')
        d = r.ip.call(r.ip.wrap(f, r.st, r.cx, None), [], {}, r.st, r.cx, None)
        h = r.st.w(d.t.args[0])
        for n in h.items:
            if n.args[0] == 'name':
                h.items[n] = V(strsym(name + '[name]'))
            elif n.args[0] not in ('camera_settings', 'test_parameters'):
                h.items[n] = V(anysym('%s[%s]' % (name, n.args[0])))
        return d


def effects(trace):
    """[(condition or None, event)] in order"""
    out = []

    def go(t, c):
        for u in flat_units(t):
            if u.op == 'lit':
                out.extend((c, e) for e in u.args)
            elif u.op == 'ite':
                go(u.args[1], u.args[0] if c is None else mk('and_', c, u.args[0]))
                go(u.args[2], mk('not_', u.args[0]) if c is None else mk('and_', c, mk('not_', u.args[0])))
            elif hasop(u, 'ev'):
                out.append((opaque('loop'), u))
    go(trace, None)
    return out


def argn(e, k):
    """k-th argument of an effect event"""
    n = e.args[0]
    if k < len(e.args[1]):
        return e.args[1][k]
    names = ARGNAMES.get(n, [])
    if k < len(names):
        for a, v in e.args[2]:
            if (a.args[0] if isinstance(a, Node) else a) == names[k]:
                return v
    return None


def pieces(t):
    return [p.args[0] if p.op == 'str' else p for p in (t.args if t.op == 'scat' else (t,))]


def pathparts(t):
    """(root, [component, ...]) of a path; components are texts or terms without separators; None when unknown"""
    while t.op in ('normpath', 'abspath') and t.args[0].op in ('pathjoin', 'abspath', 'normpath') and t is not ROOT:
        t = t.args[0]
    if t.op == 'pathjoin' and any(a.op == 'pathjoin' for a in t.args):
        flat = []
        for a in t.args:
            flat.extend(a.args if a.op == 'pathjoin' else (a,))
        return pathparts(mk('pathjoin', *flat))
    if t.op == 'pathjoin':
        r = pathparts(t.args[0])
        if r is None:
            return None
        root, out = r[0], list(r[1])
        for a in t.args[1:]:
            if a.op == 'basename':
                out.append(a)
                continue
            if a.op == 'sym' and not text.isword(a):
                out.append(mk('free', a))
                continue
            ps = pieces(a)
            if not ps:
                return None
            comp = [[]]
            for p in ps:
                if isinstance(p, str):
                    seg = p.replace('\\\\', '/').split('/')
                    comp[-1].append(seg[0]) if seg[0] else None
                    for s in seg[1:]:
                        comp.append([s] if s else [])
                    if p.startswith('/') and p is ps[0]:
                        return a, []
                elif p.op == 'basename' or text.excludes(p, '/'):
                    comp[-1].append(p)
                elif p.op == 'sym':
                    comp[-1].append(mk('free', p))      # text of the caller: may hold separators
                else:
                    return None
            for c in comp:
                if c:
                    out.append(c[0] if len(c) == 1 else tuple(c))
        return root, out
    ps = pieces(t)
    if ps and len(ps) > 1 and not isinstance(ps[0], str) and isinstance(ps[1], str) and ps[1].startswith('/'):
        rest = mk('pathjoin', ps[0], text.join([ps[1].lstrip('/')] + list(ps[2:]))) if hasattr(text, 'join') else None
        if rest is None:
            return None
        return pathparts(rest)
    if t.op == 'dirname':
        r = pathparts(t.args[0])
        if r is not None and r[1]:
            return r[0], r[1][:-1]
        return t, []
    return t, []


def isfree(cs):
    return any(isinstance(x, Node) and x.op == 'free' for c in cs for x in (c if isinstance(c, tuple) else (c,)))


def inside(t, root=ROOT):
    """True/False/None: the path is below the output directory"""
    if t.op == 'ite':
        a, b = inside(t.args[1], root), inside(t.args[2], root)
        return False if False in (a, b) else None if None in (a, b) else True
    ats = atoms_of(t)
    if ats and len(ats) < 5:
        a, b = inside(restrict(t, ats[0], True), root), inside(restrict(t, ats[0], False), root)
        return False if False in (a, b) else None if None in (a, b) else True
    p = pathparts(t)
    if p is None:
        return None
    r, cs = p
    if isfree(cs):
        return False
    if '..' in cs or any(isinstance(c, tuple) and '..' in c for c in cs):
        return False
    if r is root or r is root.args[0]:
        return True
    if root in list(syms_deep(r)):
        return None
    if r.op in ('abspath', 'sym', 'str', 'dirname'):
        return False
    return None if r.opq else False


def syms_deep(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.kids)
