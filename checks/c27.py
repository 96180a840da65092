"""The report only refers to results, plots and fields that exist"""
import math
import os
from jinja2 import nodes, Environment, TemplateSyntaxError
from jinja2.filters import FILTERS
from jinja2.tests import TESTS
from .common import *
from .report_common import *
from . import c17
from .results_common import RES, make, read, member_where

NOTE = ('The report code is executed abstractly up to the calls of the template engine: the contexts it passes, the delimiters and '
        'the filters it registers are read off. The templates are parsed with these delimiters and evaluated over the abstract '
        'context (operation point, reported results by section, plots, information dictionaries); every reference must resolve, '
        'and every result that the code base can make None or undefined (read off its abstract value) must pass a filter that '
        'prints the marker. The filters are evaluated on None, nan, an undefined template value and a number.')
MIN = 150
MARK = ('missing', 'missingnumber')


class Undef:
    def __init__(self, path):
        self.path = path


class Free:
    """a value the caller chooses"""

    def __init__(self, path, absent=False):
        self.path, self.absent = path, absent


class Text:
    """a text made from other values"""


class Meth:
    def __init__(self, of, name):
        self.of, self.name = of, name


class Items:
    def __init__(self, pairs, path):
        self.pairs, self.path = pairs, path


class Macro:
    def __init__(self, node):
        self.node = node


def text_of(e):
    """a template expression as it is written"""
    if isinstance(e, nodes.Name):
        return e.name
    if isinstance(e, nodes.Getattr):
        return text_of(e.node) + '.' + e.attr
    if isinstance(e, nodes.Getitem):
        return '%s[%s]' % (text_of(e.node), text_of(e.arg))
    if isinstance(e, nodes.Const):
        return repr(e.value)
    if isinstance(e, nodes.Filter):
        return '%s|%s' % (text_of(e.node), e.name)
    if isinstance(e, nodes.Call):
        return text_of(e.node) + '(%s)' % ', '.join(text_of(a) for a in e.args)
    if isinstance(e, nodes.BinExpr):
        return '%s %s %s' % (text_of(e.left), e.operator, text_of(e.right))
    return type(e).__name__


class Walk:
    """evaluates one template over abstract values"""

    def __init__(self, ck, tdir, opts, filters, undefined):
        self.ck, self.tdir, self.filters, self.undefined = ck, tdir, filters, undefined
        self.env = Environment(**opts)
        self.seen = {}
        self.uses = {}
        self.count = 0
        self.stack = []

    # ---- reporting
    def say(self, node, verdict_, detail, rule):
        f = self.stack[-1]
        key = (f, node.lineno, self.cur)
        old = self.seen.get(key)
        if old is None or old[0] == PROVED or old[0] == UNDECIDED and verdict_ == VIOLATED:
            self.seen[key] = (verdict_, detail, rule)

    def template(self, name, scope, inc=None):
        p = os.path.join(self.tdir, name)
        rule = 'every template that is used exists and can be parsed'
        self.cur = name
        if not os.path.isfile(p):
            self.stack.append(inc or name)
            self.say(nodes.Const(0, lineno=0), VIOLATED, 'there is no template %s' % name, rule)
            self.stack.pop()
            return
        if name in self.stack:
            return
        self.stack.append(name)
        try:
            tree = self.env.parse(open(p, encoding='utf-8').read())
        except TemplateSyntaxError as e:
            self.say(nodes.Const(0, lineno=e.lineno), VIOLATED, str(e), rule)
            self.stack.pop()
            return
        self.say(nodes.Const(0, lineno=1), PROVED, '', rule)
        self.body(tree.body, dict(scope), {})
        self.stack.pop()

    # ---- statements; facts: {text of an expression: truth}
    def body(self, ns, scope, facts):
        for n in ns:
            self.stmt(n, scope, facts)

    def stmt(self, n, scope, facts):
        if isinstance(n, nodes.Output):
            for e in n.nodes:
                if not isinstance(e, nodes.TemplateData):
                    self.output(e, scope, facts)
        elif isinstance(n, nodes.If):
            self.test(n.test, scope, facts)
            self.body(n.body, dict(scope), self.learn(n.test, True, facts))
            f = self.learn(n.test, False, facts)
            for x in n.elif_:
                self.test(x.test, scope, f)
                self.body(x.body, dict(scope), self.learn(x.test, True, f))
                f = self.learn(x.test, False, f)
            self.body(n.else_, dict(scope), f)
        elif isinstance(n, nodes.For):
            v = self.ev(n.iter, scope, facts)
            self.need(n.iter, v)
            for x in self.elements(v, text_of(n.iter)):
                s = dict(scope)
                self.assign(n.target, x, s)
                s['loop'] = Free('loop')
                self.body(n.body, s, facts)
            self.body(n.else_, dict(scope), facts)
        elif isinstance(n, nodes.Include):
            t = n.template
            if isinstance(t, nodes.Const):
                self.template(t.value, scope, self.stack[-1])
            else:
                self.cur = text_of(t)
                self.say(n, UNDECIDED, 'the template is not a constant', 'every template that is used exists')
        elif isinstance(n, nodes.Assign):
            self.assign(n.target, self.ev(n.node, scope, facts), scope)
        elif isinstance(n, nodes.With):
            s = dict(scope)
            for t, v in zip(n.targets, n.values):
                self.assign(t, self.ev(v, scope, facts), s)
            self.body(n.body, s, facts)
        elif isinstance(n, nodes.Macro):
            scope[n.name] = Macro(n)
        elif isinstance(n, nodes.ScopedEvalContextModifier) or isinstance(n, (nodes.Scope, nodes.Block)):
            self.body(n.body, dict(scope), facts)
        elif isinstance(n, nodes.FilterBlock):
            self.body(n.body, dict(scope), facts)
        elif isinstance(n, nodes.ExprStmt):
            self.ev(n.node, scope, facts)
        elif isinstance(n, (nodes.Import, nodes.FromImport)):
            self.imports(n, scope)
        else:
            self.cur = type(n).__name__
            self.say(n, UNDECIDED, 'statement not understood', '')

    def imports(self, n, scope):
        if not isinstance(n.template, nodes.Const):
            return
        p = os.path.join(self.tdir, n.template.value)
        if not os.path.isfile(p):
            self.cur = n.template.value
            self.say(n, VIOLATED, 'there is no such template', 'every template that is used exists')
            return
        ms = {m.name: Macro(m) for m in self.env.parse(open(p).read()).find_all(nodes.Macro)}
        if isinstance(n, nodes.Import):
            scope[n.target] = ms
            return
        for x in n.names:
            a, b = (x, x) if isinstance(x, str) else x
            scope[b] = ms.get(a, Undef(a))

    def assign(self, t, v, scope):
        if isinstance(t, nodes.Name):
            scope[t.name] = v
        elif isinstance(t, (nodes.Tuple, nodes.List)):
            for k, x in enumerate(t.items):
                self.assign(x, v[k] if isinstance(v, tuple) and len(v) == len(t.items) else Free(text_of(x)), scope)

    def learn(self, test, truth, facts):
        f = dict(facts)
        if isinstance(test, nodes.Not):
            return self.learn(test.node, not truth, facts)
        if isinstance(test, nodes.And) and truth:
            return self.learn(test.right, True, self.learn(test.left, True, facts))
        if isinstance(test, nodes.Or) and not truth:
            return self.learn(test.right, False, self.learn(test.left, False, facts))
        if isinstance(test, nodes.Test):
            k = text_of(test.node)
            if test.name == 'none' and not truth or test.name == 'defined' and truth:
                f[k, test.name] = True
            return f
        if isinstance(test, nodes.Compare) and len(test.ops) == 1 and truth and test.ops[0].op == 'eq':
            f[text_of(test.expr)] = True
            return f
        if truth:
            f[text_of(test)] = True
        return f

    def test(self, e, scope, facts):
        if isinstance(e, nodes.Not):
            return self.test(e.node, scope, facts)
        if isinstance(e, (nodes.And, nodes.Or)):
            self.test(e.left, scope, facts)
            return self.test(e.right, scope, facts)
        if isinstance(e, nodes.Test) and e.name in ('defined', 'undefined', 'none'):
            v = self.ev(e.node, scope, facts)
            if e.name == 'none':
                self.need(e.node, v)
            return
        v = self.ev(e, scope, facts)
        self.need(e, v)

    def need(self, e, v):
        rule = 'every result, plot and field a template refers to is one the report supplies'
        self.cur = text_of(e)
        if isinstance(v, Undef):
            self.say(e, VIOLATED, 'the report does not supply %s' % v.path, rule)
            return False
        self.say(e, PROVED, '', rule)
        return True

    # ---- output
    def output(self, e, scope, facts):
        self.count += 1
        v = self.ev(e, scope, facts)
        if not self.need(e, v):
            return
        self.printed(e, v, facts)

    def printed(self, e, v, facts):
        rule = 'a result or field that can be None or undefined is printed with the missing-value marker'
        self.cur = text_of(e)
        why = self.maybe(v)
        k = text_of(e)
        if why and not facts.get(k) and not ('None' in why and facts.get((k, 'none'))):
            self.say(e, VIOLATED, '%s can be %s and is printed as it is' % (k, why), rule)

    def maybe(self, v):
        """'None' / 'undefined' when the value can be"""
        if isinstance(v, Node):
            if v is NONE or any(x is NONE for x in leaves(v)):
                return 'None'
            w = self.undefined.get(v)
            if w:
                return w
            if v.op in ('nan',) or any(x.op == 'nan' for x in leaves(v)):
                return 'undefined'
        return None

    # ---- expressions
    def ev(self, e, scope, facts):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for x in e.iter_child_nodes():
                if isinstance(x, nodes.Expr):
                    self.need(x, self.ev(x, scope, facts))
            return Free(type(e).__name__)
        return m(e, scope, facts)

    def e_Const(self, e, scope, facts):
        return const(e.value) if isinstance(e.value, (str, int, float, bool, type(None))) else Free('constant')

    def e_TemplateData(self, e, scope, facts):
        return Text()

    def e_Name(self, e, scope, facts):
        if e.name in scope:
            return scope[e.name]
        if e.name in ('range', 'dict', 'lipsum', 'cycler', 'joiner', 'namespace', 'true', 'false', 'none'):
            return Free(e.name)
        return Undef(e.name)

    def e_Getattr(self, e, scope, facts):
        return self.get(self.ev(e.node, scope, facts), e.attr, e.node, True)

    def e_Getitem(self, e, scope, facts):
        b = self.ev(e.node, scope, facts)
        a = self.ev(e.arg, scope, facts)
        if isinstance(a, Node) and a.op == 'str':
            return self.get(b, a.args[0], e.node, False)
        if isinstance(b, tuple) and isinstance(a, Node) and a.op == 'num':
            return Free(text_of(e))
        self.need(e.node, b)
        return Free(text_of(e))

    def get(self, b, name, node, attr):
        path = text_of(node) + '.' + name
        if isinstance(b, dict):
            return b.get(name, Undef(path))
        if isinstance(b, Undef):
            self.need(node, b)
            return Undef(b.path + '.' + name)
        if isinstance(b, Free):
            return Free(path, absent=b.absent)
        if isinstance(b, Node):
            if b.op == 'ite':
                a, c = self.get(b.args[1], name, node, attr), self.get(b.args[2], name, node, attr)
                if isinstance(a, Undef):
                    return a
                if isinstance(c, Undef):
                    return c
                return ite(batom(b.args[0]), a, c) if isinstance(a, Node) and isinstance(c, Node) else Free(path)
            if b.op == 'dlit':
                if attr and hasattr(dict, name):
                    return Meth(b, name)
                d = {k.args[0]: v for k, v in b.args[0] if k.op == 'str'}
                if name in d:
                    return d[name]
                if b in self.user or not b.args[0]:
                    return Free(path, absent=True)
                if hasattr(dict, name):
                    return Meth(b, name)
                return Undef(path)
            if b.op == 'sym':
                return Free(path)
            if b is NONE:
                return Undef(path)
        return Free(path)

    user = frozenset()

    def e_Call(self, e, scope, facts):
        f = self.ev(e.node, scope, facts)
        args = [self.ev(a, scope, facts) for a in e.args]
        if isinstance(f, Meth):
            if f.name == 'items':
                return self.items(f.of)
            if f.name == 'get' and args and isinstance(args[0], Node) and args[0].op == 'str':
                v = self.get(f.of, args[0].args[0], e.node, False)
                if isinstance(v, Undef) and len(args) > 1:
                    return v
                return v
            if f.name == 'values':
                return [v for k, v in self.items(f.of)]
            if f.name == 'keys':
                return [k for k, v in self.items(f.of)]
            return Free(text_of(e))
        if isinstance(f, Macro):
            s = {k: v for k, v in scope.items()}
            ps = f.node.args
            for k, p in enumerate(ps):
                s[p.name] = args[k] if k < len(args) else Free(p.name)
            nd = len(ps) - len(f.node.defaults)
            for k, d in enumerate(f.node.defaults):
                if nd + k >= len(args):
                    s[ps[nd + k].name] = self.ev(d, scope, facts)
            for kw in e.kwargs:
                s[kw.key] = self.ev(kw.value, scope, facts)
            if len(self.stack) < 12:
                self.stack.append(self.stack[-1] + ':' + f.node.name)
                self.body(f.node.body, s, facts)
                self.stack.pop()
            return Text()
        if isinstance(f, Undef):
            self.need(e.node, f)
        return Free(text_of(e))

    def items(self, d):
        if isinstance(d, Node) and d.op == 'dlit' and d.args[0]:
            return [(k, v) for k, v in d.args[0]]
        return [(Free('key'), Free('value'))]

    def elements(self, v, path):
        if isinstance(v, list):
            return v
        if isinstance(v, Node):
            us = flat_units(v)
            if us and all(u.op == 'lit' for u in us):
                return [x for u in us for x in u.args]
            if v.op == 'dlit':
                return [k for k, x in v.args[0]]
        return [Free(path + '[]')]

    def e_Filter(self, e, scope, facts):
        v = self.ev(e.node, scope, facts) if e.node is not None else Text()
        args = [self.ev(a, scope, facts) for a in e.args]
        for a, x in zip(e.args, args):
            self.need(a, x)
            self.printed(a, x, facts) if e.name in MARK else None
        self.cur = text_of(e)
        rule = 'every filter a template uses is registered'
        if e.name not in self.filters and e.name not in FILTERS:
            self.say(e, VIOLATED, 'there is no filter %s' % e.name, rule)
            return Free(text_of(e))
        if e.name in self.filters:
            self.uses.setdefault(e.name, {})[tuple(args)] = (self.stack[-1], e.lineno)
            if isinstance(v, Undef):
                self.need(e.node, v)
            return Text()
        if e.name in ('default', 'd'):
            if isinstance(v, Undef):
                self.need(e.node, v)
                return v
            if self.maybe(v) == 'None' and not (len(args) > 1 and args[1] is TRUE or any(k.key == 'boolean' for k in e.kwargs)):
                return v
            if self.maybe(v) == 'undefined':
                return v
            return Text()
        if isinstance(v, Undef):
            return v
        if e.name in ('items', 'dictsort'):
            return self.items(v)
        why = self.maybe(v)
        if why and e.name in ('round', 'float', 'int', 'abs', 'format', 'string', 'trim', 'upper', 'lower', 'replace', 'e', 'escape'):
            return v
        return v if e.name in ('safe', 'list', 'sort', 'unique', 'first', 'last') else Text()

    def e_Mod(self, e, scope, facts):
        l, r = self.ev(e.left, scope, facts), None
        rs = e.right.items if isinstance(e.right, nodes.Tuple) else [e.right]
        for x in rs:
            v = self.ev(x, scope, facts)
            if self.need(x, v):
                self.printed(x, v, facts)
        return Text()

    def e_Concat(self, e, scope, facts):
        for x in e.nodes:
            v = self.ev(x, scope, facts)
            if self.need(x, v):
                self.printed(x, v, facts)
        return Text()

    def arith(self, e, scope, facts):
        for x in (e.left, e.right):
            v = self.ev(x, scope, facts)
            if self.need(x, v):
                self.printed(x, v, facts)
        return Text()
    e_Add = e_Sub = e_Mul = e_Div = e_FloorDiv = e_Pow = arith

    def e_CondExpr(self, e, scope, facts):
        self.test(e.test, scope, facts)
        a = self.ev(e.expr1, scope, self.learn(e.test, True, facts))
        b = self.ev(e.expr2, scope, self.learn(e.test, False, facts)) if e.expr2 is not None else Text()
        if self.learn(e.test, True, {}).get(text_of(e.expr1)):
            return b if isinstance(b, Undef) else Text() if not self.maybe(b) else b
        if isinstance(a, Undef) or self.maybe(a):
            return a
        return b

    def e_Or(self, e, scope, facts):
        a = self.ev(e.left, scope, facts)
        self.need(e.left, a)
        return self.ev(e.right, scope, facts)

    def e_And(self, e, scope, facts):
        a = self.ev(e.left, scope, facts)
        self.need(e.left, a)
        b = self.ev(e.right, scope, facts)
        return b if isinstance(b, Undef) else a if self.maybe(a) else b

    def e_Compare(self, e, scope, facts):
        for x in [e.expr] + [o.expr for o in e.ops]:
            self.need(x, self.ev(x, scope, facts))
        return Text()

    def e_Test(self, e, scope, facts):
        self.test(e, scope, facts)
        return Text()

    def e_Not(self, e, scope, facts):
        self.test(e.node, scope, facts)
        return Text()


def leaves(t):
    if t.op == 'ite':
        yield from leaves(t.args[1])
        yield from leaves(t.args[2])
    else:
        yield t


def undefined_members(ck):
    """{member: 'None' | 'undefined'} for results that the code can leave without value"""
    out = {}
    r, obj, _ = make(ck, False, False)
    c = ck.world.get(RES)
    for nm, sec in c17.SECTION.items():
        try:
            t = read(r, obj, nm).value
        except Exception:
            continue
        ls = list(leaves(t))
        if any(x is NONE for x in ls):
            out[nm] = 'None'
        elif any(x.op == 'nan' or x.op == 'num' and isinstance(x.args[0], float) and math.isnan(x.args[0]) for x in ls):
            out[nm] = 'undefined'
        elif sec == 'spatial' and any(root_of_difference(x) for x in ls):
            out[nm] = 'undefined'
    return out


def root_of_difference(t):
    """contains the square root of a difference"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'poly':
            for mono, c in x.args[0]:
                for base, e in mono:
                    if getattr(e, 'denominator', 1) == 2 and base.op == 'poly' and any(k < 0 for m, k in base.args[0]):
                        return True
                    todo.append(base)
        elif x.op == 'sqrt':
            if x.args[0].op == 'poly' and any(k < 0 for m, k in x.args[0].args[0]):
                return True
            todo.append(x.args[0])
        elif x.op == 'ite':
            todo += list(x.args[1:])
    return False


def rendered(ck, default):
    """(Rep, outcome) of a whole report"""
    R = Rep(ck)
    r = R.r
    infos = {} if default else R.infos()
    kw = dict(infos)
    if not default:
        kw['cover_page'] = V(anysym('cover_page'))
    o0 = R.new(**kw)
    r.st = o0.st
    _, res, _ = make(ck, False, False, run=r)
    data = r.caller[-1]
    vals = {}
    nb = intsym('bins', True)
    for nm in c17.SECTION:
        if nm.startswith('histogram'):
            vals[nm] = {k: arrsym('%s[%s]' % (nm, k), nb) for k in c17.HIST}
        else:
            vals[nm] = V(intsym(nm, False) if nm.startswith('index') else numsym(nm))
        if ck.world.get(RES).find(nm) is None:
            continue
        r.ip.override[RES + '.' + nm] = (lambda nm: lambda ip, args, kw, st, cx, node: st.new(H('dict', items={
            const(k): x for k, x in vals[nm].items()})) if isinstance(vals[nm], dict) else vals[nm])(nm)
    op = R.op('op')
    o = r.attr(R.rep, 'add', True, st=r.st.copy(), args=[op, data, res])
    if o.dead or any(exc_names(o.value)):
        return R, vals, o
    o = r.attr(R.rep, 'latex', True, st=o.st, args=[])
    return R, vals, o


def templates(ck, default):
    tag = ' (default information)' if default else ''
    w = ck.where(RC + '._report')
    R, vals, o = rendered(ck, default)
    if not R.renders:
        ck.add('rendering%s' % tag, VIOLATED if o.dead or any(exc_names(o.value)) else UNDECIDED, w, 'no template is rendered', '')
        return None
    und = undefined_members(ck)
    undefined = {vals[nm].t: why for nm, why in und.items() if nm in vals and isinstance(vals[nm], V)}
    tdir = os.path.join(ck.world.repo, PKG, 'templates')
    total = 0
    uses = {}
    env = None
    for name, ctx, env, raw, st in R.renders:
        if name.op != 'str':
            ck.add('template name%s' % tag, UNDECIDED, w, show(name, 4), '')
            continue
        opts, filters = environment(R, env, st)
        if opts is None:
            ck.add('template options%s' % tag, UNDECIDED, ck.where(RC + '.template_renderer'), 'the options are not constants', '')
            continue
        W = Walk(ck, tdir, opts, filters, undefined)
        W.user = frozenset()
        W.template(name.args[0], dict(ctx))
        total += W.count
        for k, v in W.uses.items():
            uses.setdefault(k, {}).update(v)
        for (f, line, cur), (v, detail, rule) in sorted(W.seen.items(), key=lambda x: (x[0][0], x[0][1], str(x[0][2]))):
            ck.add('%s:%d %s%s%s' % (f, line, cur, '' if f == name.args[0] else ' in ' + name.args[0], tag), v,
                   '%s:%d' % (os.path.join(PKG, 'templates', f.split(':')[0]), line), detail, rule)
    ck.rule('the templates have references%s' % tag, total >= 100, w, '%d references found' % total, 'the delimiters are those the templates use')
    return R, uses, env, total


def environment(R, env, st):
    """(constructor options that are constants, {filter name: V})"""
    h = R.r.ip.H(env, st)
    if h is None:
        return None, None
    o = R.r.ip.freeze(h.f['options'].t, st)
    opts = {}
    for k, v in o.args[0]:
        k = k.args[0]
        if k in ('loader', 'undefined', 'autoescape', 'auto_reload', 'cache_size', 'bytecode_cache'):
            continue
        if v.op == 'str':
            opts[k] = v.args[0]
        elif v in (TRUE, FALSE):
            opts[k] = v is TRUE
        else:
            return None, None
    fh = R.r.ip.H(h.f['filters'], st)
    return opts, {k.args[0]: v for k, v in fh.items.items()}


def loader(ck, R, env, st):
    """templates are looked up in the directory that is shipped"""
    h = R.r.ip.H(env, st)
    o = R.r.ip.freeze(h.f['options'].t, st)
    d = {k.args[0]: v for k, v in o.args[0]}
    t = d.get('loader')
    w = ck.where(RC + '.template_renderer')
    rule = 'templates are taken from the directory shipped with the package'
    p = None
    for x in (syms_deep(t) if t is not None else ()):
        if x.op in ('pathjoin', 'str'):
            q = x
            pp = pathparts(q)
            if pp is None:
                continue
            root, cs = pp
            up = 0
            while root.op in ('abspath', 'realpath', 'dirname', 'normpath'):
                up += root.op == 'dirname'
                root = root.args[0]
            if root.op == 'str' and all(isinstance(c, str) for c in cs) and os.path.isabs(root.args[0]):
                b = root.args[0]
                for _ in range(up):
                    b = os.path.dirname(b)
                p = os.path.normpath(os.path.join(b, *cs))
                break
    want = os.path.join(ck.world.repo, PKG, 'templates')
    ck.add('template directory', PROVED if p == os.path.normpath(want) else UNDECIDED if p is None else VIOLATED, w, p or show(t, 5)[:200] if t is not None else '', rule)


def kinds():
    import numpy
    import jinja2
    return (('None', NONE, type(None)), ('an undefined name', mk('sym', 'undefined name', 0, (), False, ''), jinja2.Undefined),
            ('nan', const(float('nan')), float), ('a nan of numpy', const(float('nan')), numpy.float64),
            ('a single precision nan', const(float('nan')), numpy.float32),
            ('a number', numsym('number'), float), ('a number of numpy', numsym('number'), numpy.float64),
            ('a single precision number', numsym('number'), numpy.float32), ('an integer', intsym('integer', False), int),
            ('zero', const(0.0), float))


def typed(t, x, typ):
    """the term for a value x of Python type typ"""
    for _ in range(12):
        todo = [c for c in atoms_of(t) if c.op == 'isinst' and c.args[0] is x]
        if not todo:
            break
        c = todo[0]
        ty = pytype(c.args[1])
        if ty is None:
            break
        t = restrict(t, c, issubclass(typ, ty))
    for c in atoms_of(t):
        if x in syms_of(c) and (c.op == 'isnan' or hasop(c, 'isnan')):
            t = restrict(t, c, False)
        elif x in syms_of(c) and (c.op == 'isfinite' or hasop(c, 'fisfinite')):
            t = restrict(t, c, True)
    return t


def pytype(n):
    import builtins
    import importlib
    if n.op == 'bi':
        return getattr(builtins, n.args[0], None)
    if n.op == 'ext':
        m, _, a = n.args[0].rpartition('.')
        try:
            return getattr(importlib.import_module(m), a)
        except (ImportError, AttributeError):
            return None
    return None


def filters(ck, R, uses):
    """what the filters print"""
    name, ctx, env, raw, st = R.renders[0]
    opts, fs = environment(R, env, st)
    w = ck.where(RC + '.template_renderer')
    rule = 'a missing value is printed as the marker and never breaks rendering; a number is printed as such'
    for f, us in sorted(uses.items()):
        for args, place in sorted(us.items(), key=lambda x: x[1]):
            a = [V(x if isinstance(x, Node) else anysym('argument')) for x in args]
            label = '%s(%s)' % (f, ', '.join(show(x.t, 2) for x in a))
            for what, x, typ in kinds():
                def one(x=x, what=what, typ=typ):
                    R.r.ip.nan_identity = False     # a nan is not the numpy.nan object
                    o = R.r.outcome(lambda s, cx: R.r.ip.call(fs[f], [V(x)] + a, {}, s, cx, None), st=st.copy())
                    t = typed(o.value, x, typ)
                    if any(exc_names(t)):
                        ck.add('%s of %s' % (label, what), UNDECIDED if t.opq or None in exc_names(t) else VIOLATED, w, 'raises %s' % exc_names(t), rule)
                        return
                    if 'number' in what or what in ('an integer', 'zero'):
                        want = spec_call(ck, R.r, 'fixed_digits', [V(x), a[0]]).value if f == 'missingnumber' else x
                    else:
                        want = a[0].t if f == 'missing' and a else const('-')
                    ck.equal('%s of %s' % (label, what), t, want, w, rule)
                ck.guard('%s of %s' % (label, what), one, w)


def run(ck):
    w = ck.where(RC + '._report')
    keep = {}
    for d in (True, False):
        ck.guard('templates %s' % d, lambda: keep.update({d: templates(ck, d)}), w)
    k = keep.get(True)
    if k:
        R, uses, env, total = k
        ck.guard('filters', lambda: filters(ck, R, uses), w)
        ck.guard('loader', lambda: loader(ck, R, R.renders[0][2], R.renders[0][4]), w)
    ck.guard('controls', lambda: controls(ck), w)


def controls(ck):
    W = Walk(ck, '', {}, {'missing': None}, {})
    W.stack.append('control')
    tree = W.env.parse('{{ a.b }}{{ a.c }}{{ a.n }}{{ a.n|missing }}{{ a.b|other }}'.replace('|other', ''))
    W.body(tree.body, {'a': {'b': const('x'), 'n': NONE}}, {})
    v = {cur: x[0] for (f, l, cur), x in W.seen.items()}
    ck.control('an unknown field is reported', v.get('a.c') == VIOLATED)
    ck.control('a missing value printed as it is is reported', v.get('a.n') == VIOLATED)
    ck.control('a known field is accepted', v.get('a.b') == PROVED)
