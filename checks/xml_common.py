"""Model of lxml.etree: elements are objects of specs.spec.XElement in the abstract heap; the text of a tree is a term that
keeps its structure, so that what is written can be read back."""
import re
from .common import *
from vf.term import ite, NONE, const, mk, Node, kind
from vf import alg

NAME = re.compile(r'[A-Za-z_][\w.\-]*$')


def element(ck, ip, st, tag, text=NONE, kids=()):
    c = ck.spec('XElement')
    return st.new(H('inst', c, {'tag': V(tag), 'text': V(text), 'tail': V(NONE), 'parent': V(NONE),
                                'kids': st.new(H('list', items=list(kids)))}))


def lit_tag(ip, t, st, cx, node):
    if t.op != 'str':
        raise Unsupported('element name %s' % show(t, 4)[:80], node)
    if not NAME.match(t.args[0]):
        ip.raise_if(TRUE, 'ValueError', st, cx, node)
    return t


def inst(ip, v, st):
    h = ip.H(v, st)
    if h is None or h.kind != 'inst' or not isinstance(h.cls, Cls) or h.cls.name not in ('XElement', 'XTree'):
        raise Unsupported('not an element: %s' % show(v.t, 4)[:80])
    if h.cls.name == 'XTree':
        return inst(ip, h.f['root'], st)
    return h, v


def kids_of(ip, h, st):
    k = ip.H(h.f['kids'], st)
    if k is None or not isinstance(k.items, list):
        raise Unsupported('elements added in a form that is not analysed')
    return k


def attach(ip, p, c, st):
    """append element V c to element V p (lxml moves it)"""
    hc, c = inst(ip, c, st)
    old = hc.f['parent']
    if old.t is not NONE:
        ho, _ = inst(ip, old, st)
        k = st.w(ho.f['kids'].t.args[0])
        k.items = [x for x in k.items if x.t is not c.t]
    hp, p = inst(ip, p, st)
    kids_of(ip, hp, st)
    k = st.w(hp.f['kids'].t.args[0])
    k.items = k.items + [c]
    st.w(c.t.args[0]).f['parent'] = p
    return c


def ser(ip, v, st):
    """structure of an element"""
    h, v = inst(ip, v, st)
    k = kids_of(ip, h, st)
    return mk('elem', ip.freeze(h.f['tag'].t, st), ip.freeze(h.f['text'].t, st), mk('tup', *[ser(ip, x, st) for x in k.items]))


def empty(t):
    """condition under which a text is empty"""
    if t is NONE:
        return TRUE
    if t.op == 'str':
        return TRUE if not t.args[0] else FALSE
    if t.op == 'sjoin':
        n = alg.flen(t.args[1])
        return eq(n, num(0)) if t.args[0].op == 'str' and t.args[0].args[0] else None
    if t.op == 'ite':
        return ite(t.args[0], empty(t.args[1]), empty(t.args[2]))
    if t.op == 'fmt':
        return FALSE
    return eq(t, const(''))


def deser(ck, ip, t, st):
    """heap element for a parsed structure"""
    tag, text, kids = t.args
    if kids.args:
        text = const('\n  ')
    else:
        c = empty(text)
        text = NONE if c is TRUE else text if c is FALSE else ite(c, NONE, text)
    e = element(ck, ip, st, tag, text)
    for k in kids.args:
        attach(ip, e, deser(ck, ip, k, st), st)
    return e


def bad_text(t, tree=''):
    """(path, text) of the texts lxml refuses"""
    tag, text, kids = t.args
    p = tree + '/' + str(tag.args[0])
    out = [] if text is NONE or kind(text) == 'str' or text.op in ('sjoin', 'scat', 'fmt') else [(p, text)]
    for k in kids.args:
        out += bad_text(k, p)
    return out


def install(ck, r, files=None):
    """etree functions of the run; files: {path term: structure}"""
    ip = r.ip
    ip.maxrec = 8
    files = files if files is not None else {}
    o = ip.override

    def el(ip, args, kw, st, cx, node):
        return element(ck, ip, st, lit_tag(ip, args[0].t, st, cx, node))

    def sub(ip, args, kw, st, cx, node):
        e = element(ck, ip, st, lit_tag(ip, args[1].t, st, cx, node))
        return attach(ip, args[0], e, st)

    def append(ip, args, kw, st, cx, node):
        attach(ip, args[0], args[1], st)
        return V(NONE)

    def tree(ip, args, kw, st, cx, node):
        a = args[0] if args else kw.get('element')
        if a is None and 'file' in kw:
            return parse(ip, [kw['file']], {}, st, cx, node)
        return st.new(H('inst', ck.spec('XTree'), {'root': a}))

    def tostring(ip, args, kw, st, cx, node):
        s = ser(ip, args[0], st)
        for p, t in bad_text(s):
            ip.raise_if(TRUE, 'TypeError', st, cx, node, (const(p), t))
        e = kw.get('encoding')
        return V(mk('xmltext' if e is not None and e.t is const('unicode') else 'xmlbytes', s))

    def fromstring(ip, args, kw, st, cx, node):
        t = ip.freeze(args[0].t, st)
        if t.op == 'ite':
            return ip.cases(args[0], st, lambda s, v: fromstring(ip, [v], kw, s, cx, node))
        if t.op in ('xmltext', 'xmlbytes'):
            return deser(ck, ip, t.args[0], st)
        ip.raise_if(TRUE, 'XMLSyntaxError', st, cx, node)

    def parse(ip, args, kw, st, cx, node):
        t = ip.freeze(args[0].t, st)
        if t in files:
            return st.new(H('inst', ck.spec('XTree'), {'root': deser(ck, ip, files[t], st)}))
        ip.raise_if(TRUE, 'OSError', st, cx, node)

    o['ext:lxml.etree.Element'] = el
    o['ext:lxml.etree.SubElement'] = sub
    o['ext:lxml.etree.ElementTree'] = tree
    o['ext:lxml.etree.tostring'] = tostring
    for n in ('fromstring', 'XML'):
        o['ext:lxml.etree.' + n] = fromstring
    o['ext:lxml.etree.parse'] = parse
    o['ext:lxml.etree.indent'] = lambda *a: V(NONE)
    o[ck.spec('XElement').qual + '.append'] = append
    o['ext:isfile'] = lambda how, path: TRUE if path in files else FALSE
    return files
