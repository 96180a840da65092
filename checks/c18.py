"""Result files can be read back and compared truthfully"""
from .common import *
from .results_common import RES, member_where
from . import xml_common as X
from . import c17
from .c17 import raises, short
from vf.interp import UNDEF

NOTE = ('xml_to_dict is evaluated abstractly on modelled XML trees (lxml elements live in the abstract heap; texts are structured '
        'strings made of unknown numbers and array elements), from a file, from text and from what dict_to_xml and Results1288.xml '
        'write; the dictionary must hold every section, name, number and array again. compare_xml is evaluated on every combination of '
        'kinds of entries (absent, undefined, number, arrays with equal or different keys) with unknown numbers; the line '
        'of the entry in the report must say OK under exactly the specified condition.')
MIN = 60
R_ = 'emva1288.process.routines.'
DIGITS = 7
SCOPE = 'a report is read line by line: first word the name, last word OK or FAIL; category lines hold the category alone'


def E(tag, text=NONE, *kids):
    return mk('elem', const(tag), text, mk('tup', *kids))


def nodes():
    nb = intsym('nb', True)
    return nb, numsym('a'), numsym('b'), sym('A', 1, (nb,), False, 'num'), sym('B', 1, (intsym('mb', True),), False, 'num')


def text_of(ck, r, x):
    if x.op in ('str', 'none'):
        return x
    return spec_call(ck, r, 'x_array' if rank(x) else 'x_scalar', [V(x)]).value


# ---------------------------------------------------------------- reading

def tree(ck, r, content):
    """{section: {name: text | {key: text}}} -> structure"""
    secs = []
    for s, d in content.items():
        kids = []
        for n, v in d.items():
            meta = [E('section', const(s)), E('short', const('some text')), E('unit', const('DN'))]
            if isinstance(v, dict):
                kids.append(E(n, NONE, *meta, E('data', NONE, *[E(k, text_of(ck, r, x)) for k, x in v.items()])))
            else:
                kids.append(E(n, NONE, *meta, E('value', text_of(ck, r, v))))
        secs.append(E(s, NONE, *kids))
    return E('results', NONE, *secs)


def judge(ck, name, t, want, w):
    """want: {section: {name: term | {key: term}}}; names in lower case"""
    rule = 'reading gives the same sections, names, numbers and arrays'
    if raises(t) or t is NONE:
        ck.add(name, UNDECIDED if t.opq else VIOLATED, w, 'gives ' + short(t), rule)
        return
    if t.op != 'dlit':
        ck.add(name, UNDECIDED, w, 'gives ' + short(t), rule)
        return
    for s, d in want.items():
        gs = dget(t, const(s.lower()))
        if raises(gs) or gs is UNDEF:
            ck.add('%s: %s' % (name, s), VIOLATED, w, 'no such section', rule)
            continue
        if gs.op == 'dlit':
            more = [k.args[0] for k, v in gs.args[0] if k.op == 'str' and k.args[0] not in [n.lower() for n in d]]
            ck.add('%s: %s' % (name, s), VIOLATED if more else PROVED, w, 'also has %s' % more if more else '', rule)
        for n, v in d.items():
            tag = '%s: %s.%s' % (name, s, n)
            e = dget(gs, const(n.lower()))
            if raises(e) or e is UNDEF:
                ck.add(tag, VIOLATED, w, 'no such entry', rule)
                continue
            if isinstance(v, dict):
                g = dget(e, const('data'))
                if raises(g) or g is UNDEF:
                    ck.add(tag, VIOLATED, w, 'no data', rule)
                    continue
                for k, x in v.items():
                    gx = dget(g, const(k.lower()))
                    if gx is UNDEF or raises(gx) and not gx.opq:
                        ck.add('%s[%s]' % (tag, k), VIOLATED, w, short(gx), rule)
                    else:
                        ck.equal('%s[%s]' % (tag, k), gx, x, w, rule)
            else:
                gx = dget(e, const('value'))
                if gx is UNDEF or raises(gx) and not gx.opq:
                    ck.add(tag, VIOLATED, w, short(gx), rule)
                else:
                    ck.equal(tag, gx, v, w, rule)


def reading(ck):
    w = ck.where(R_ + 'xml_to_dict')
    nb, a, b, A, B = nodes()
    neg = ite(batom(mk('eq', numsym('q'), num(0))), num(1), num(2))
    cont = {'Sensitivity': {'K': a, 'inverse_K': b, 'QE': const('None'), 'R': const('none'), 'DR': NONE, 'SNR': const('1,5'),
                            'sat': const('-2.5e-3'), 'N': const('7'), 'undef': const('nan'), 'big': const('12345678.5')},
            'defect_pixel': {'Hist_A': {'bins': A, 'Values': B}, 'Hist_B': {'bins': const('1.5 2 -3e2'), 'one': const('4'),
                                                                            'gap': const('\n 1   2\n\t3 '), 'none': NONE}}}
    want = {'Sensitivity': {'K': a, 'inverse_K': b, 'QE': NONE, 'R': NONE, 'DR': NONE, 'SNR': num(1.5), 'sat': num('-0.0025'),
                            'N': num(7), 'undef': NAN, 'big': num('12345678.5')},
            'defect_pixel': {'Hist_A': {'bins': A, 'Values': B},
                             'Hist_B': {'bins': vec(1.5, 2, -300), 'one': vec(4), 'gap': vec(1, 2, 3), 'none': vec()}}}
    for how in ('file', 'bytes', 'text'):
        r = Run(ck.world)
        s = tree(ck, r, cont)
        path = const('results.xml')
        X.install(ck, r, {path: s})
        arg = path if how == 'file' else mk('xmlbytes' if how == 'bytes' else 'xmltext', s)
        o = r.call(R_ + 'xml_to_dict', [V(arg)])
        judge(ck, 'read from ' + how, o.value, want, w)


def vec(*xs):
    return mk('arr', mk('lit', *[num(x) for x in xs]))


def written(trace):
    """(path, text) of the one file written"""
    ws = [e for u in flat_units(trace) if u.op == 'lit' for e in u.args if e.op == 'ev' and e.args[0] == 'write']
    if len(ws) == 1 and ws[0].args[1].op == 'file' and ws[0].args[2].op in ('xmlbytes', 'xmltext'):
        return ws[0].args[1].args[0], ws[0].args[2]
    return None


def trips(ck):
    """what dict_to_xml writes is read back"""
    w = ck.where(R_ + 'dict_to_xml')
    nb, a, b, A, B = nodes()
    data = {'sens': {'k': {'value': a, 'unit': const('DN')}, 'q': {'value': NONE}, 'i': {'value': intsym('n', False)}, 'z': {'value': num(0)}},
            'def': {'h': {'data': {'bins': A, 'values': B}, 'short': const('text')}}}
    want = {'sens': {'k': a, 'q': NONE, 'i': intsym('n', False), 'z': num(0)}, 'def': {'h': {'bins': A, 'values': B}}}

    def dic(st, d):
        return st.new(H('dict', items={const(k): dic(st, v) if isinstance(v, dict) else V(v) for k, v in d.items()}))
    for how in ('text', 'file'):
        r = Run(ck.world)
        files = X.install(ck, r)
        d = dic(r.st, data)
        o = r.call(R_ + 'dict_to_xml', [d], {'filename': V(const('out.xml'))} if how == 'file' else {})
        arg = o.value
        if how == 'file':
            f = written(o.trace)
            if f is None:
                ck.add('written file is read', UNDECIDED, w, 'written in a form that is not analysed: ' + short(o.trace), '')
                continue
            files[f[0]] = f[1].args[0]
            arg = f[0]
        o = r.call(R_ + 'xml_to_dict', [V(arg)])
        judge(ck, 'written and read as ' + how, o.value, want, w)
    # the real export
    w = member_where(ck.world, RES, 'xml')
    for und in (0, 1, 2):
        r, obj, vals = c17.setup(ck, und)
        X.install(ck, r)
        o = r.attr(obj, 'xml', True)
        o = r.call(R_ + 'xml_to_dict', [V(o.value)])
        want = {}
        for n, s in c17.SECTION.items():
            v = vals[n]
            want.setdefault(s, {})[n] = {k: x.t for k, x in v.items()} if isinstance(v, dict) else v.t
        judge(ck, 'export read back' + c17.UND[und], o.value, want, w)


# ---------------------------------------------------------------- comparing

def heap(st, d):
    if isinstance(d, Node):
        return V(d)
    return st.new(H('dict', items={const(k): heap(st, v) for k, v in d.items()}))


def compare(ck, d1, d2, **kw):
    r = Run(ck.world)
    both = {const('one.xml'): d1, const('two.xml'): d2}

    def read(ip, args, kw, st, cx, node):
        a = args[0] if args else kw['xml']
        return heap(st, both[a.t])
    r.ip.override[R_ + 'xml_to_dict'] = read
    return r.call(R_ + 'compare_xml', [V(k) for k in both], {k: V(v) for k, v in kw.items()})


def lines(t):
    """report text as lines; pieces that are not literal appear as \\0"""
    s = ''
    for p in (t.args if t.op == 'scat' else (t,)):
        if p.op == 'str':
            s += p.args[0]
        elif p.op == 'fmt' and p.args[1].op == 'str':
            s += format(p.args[1].args[0], p.args[0])
        elif p.op == 'fmt':
            s += ' \0 '
        else:
            raise ValueError(short(p))
    return s.split('\n')


def status(leaf, cats, cat, name):
    """TRUE when the report says OK for the entry, FALSE when FAIL, else a text"""
    cur, out = None, []
    for l in lines(leaf):
        ws = l.split()
        if len(ws) == 1 and ws[0] in cats:
            cur = ws[0]
        elif ws and cur == cat and ws[-1] in ('OK', 'FAIL') and (name is None or ws[0] == name):
            out.append(ws[-1])
    if len(out) != 1:
        return None
    return TRUE if out[0] == 'OK' else FALSE


def cond(t, cats, cat, name):
    """condition of OK (None when the report lacks the entry on some path; raises ValueError)"""
    if t.op == 'ite':
        a, b = cond(t.args[1], cats, cat, name), cond(t.args[2], cats, cat, name)
        if a is None or b is None:
            return None
        return ite(batom(t.args[0]), a, b)
    return status(t, cats, cat, name)


def entries(ck, name, t, cats, want, w):
    """want: {(category, name or None): condition}"""
    rule = 'OK exactly when both sides have the entry and agree after rounding to %d significant digits' % DIGITS
    names = exc_names(t)
    if names - {None}:
        ck.add(name, UNDECIDED if t.opq else VIOLATED, w, 'raises %s' % sorted(str(x) for x in names - {None}), 'comparing completes')
        return
    for (c, n), x in want.items():
        tag = name if n is None else '%s: %s.%s' % (name, c, n) if len(want) > 1 else name
        try:
            g = cond(t, cats, c, n)
        except ValueError as e:
            ck.add(tag, UNDECIDED, w, 'report in a form that is not analysed: ' + str(e)[:200], rule)
            continue
        if g is None:
            ck.add(tag, VIOLATED, w, 'the report has no line for it', rule)
            continue
        ck.equal(tag, g, x, w, rule)


def comparing(ck):
    w = ck.where(R_ + 'compare_xml')
    nb, a, b, A, B = nodes()
    C, D = sym('C', 1, (intsym('nc', True),), False, 'num'), sym('D', 1, (intsym('nd', True),), False, 'num')
    r = Run(ck.world)
    sc = lambda f, x, y: spec_call(ck, r, f, [V(x), V(y), V(num(DIGITS))]).value
    val = lambda x: {'value': x, 'unit': const('DN')}
    dat = lambda **k: {'data': k, 'unit': const('DN')}
    # one entry, every combination of kinds
    left = {'absent': None, 'undefined': val(NONE), 'number': val(a), 'zero': val(num(0)), 'array': dat(x=A), 'arrays': dat(x=A, y=C),
            'other key': dat(y=C), 'no array': dat(), 'empty': dat(x=vec())}
    right = {'absent': None, 'undefined': val(NONE), 'number': val(b), 'zero': val(num(0)), 'array': dat(x=B), 'arrays': dat(y=D, x=B),
             'other key': dat(z=D), 'no array': dat(), 'empty': dat(x=vec())}
    ok = {('undefined', 'undefined'): TRUE, ('number', 'number'): sc('x_same', a, b), ('number', 'zero'): sc('x_same', a, num(0)),
          ('zero', 'number'): sc('x_same', num(0), b), ('zero', 'zero'): TRUE, ('array', 'array'): sc('x_same_array', A, B),
          ('arrays', 'arrays'): band(sc('x_same_array', A, B), sc('x_same_array', C, D)), ('no array', 'no array'): TRUE, ('empty', 'empty'): TRUE,
          ('array', 'empty'): sc('x_same_array', A, vec()), ('empty', 'array'): sc('x_same_array', vec(), B)}
    for k1, e1 in left.items():
        for k2, e2 in right.items():
            if k1 == k2 == 'absent':
                continue
            d1 = {'sens': {'k': e1}} if e1 else {'sens': {}}
            d2 = {'sens': {'k': e2}} if e2 else {'sens': {}}

            def one(k1=k1, k2=k2, d1=d1, d2=d2):
                o = compare(ck, d1, d2)
                entries(ck, 'compare %s with %s' % (k1, k2), o.value, ('sens',), {('sens', 'k'): ok.get((k1, k2), FALSE)}, w)
            ck.guard('compare %s with %s' % (k1, k2), one, w)
    # several entries and categories, in any order
    d1 = {'sens': {'k': val(a), 'e': val(num(2)), 'u': val(NONE), 'h': dat(x=A), 'l': val(num(1))}, 'only1': {'x': val(num(1))}, 'void': {},
          'both': {}, 'last': {'p': val(num(3))}}
    d2 = {'last': {'p': val(num(3))}, 'only2': {'x': val(num(1))}, 'both': {},
          'sens': {'h': dat(x=B), 'u': val(NONE), 'e': val(num(2)), 'f': val(num(3)), 'k': val(b)}}
    want = {('sens', 'k'): sc('x_same', a, b), ('sens', 'e'): TRUE, ('sens', 'u'): TRUE, ('sens', 'h'): sc('x_same_array', A, B),
            ('sens', 'l'): FALSE, ('sens', 'f'): FALSE, ('only1', None): FALSE, ('only2', None): FALSE, ('last', 'p'): TRUE}
    cats = ('sens', 'only1', 'only2', 'both', 'last', 'void')

    def many():
        for k, (x, y) in enumerate(((d1, d2), (d2, d1))):
            o = compare(ck, x, y)
            wk = dict(want)
            entries(ck, 'two files' + (' exchanged' if k else ''), o.value, cats,
                    {(c, n): z for (c, n), z in wk.items() if n is not None}, w)
            for c in ('only1', 'only2', 'void'):
                entries(ck, 'category %s%s' % (c, ' exchanged' if k else ''), o.value, cats, {(c, None): FALSE}, w)
            if k == 0:
                f = compare(ck, x, y, filename=const('diff.txt'))
                ws = lambda t: [(e.args[1].args[0], e.args[2]) for u in flat_units(t) if u.op == 'lit' for e in u.args
                                if e.op == 'ev' and e.args[0] == 'write']
                got = okval(lift(lambda x: x, f.value))
                tx = ws(f.trace)
                if len(tx) == 1:
                    ck.equal('report written to the file', tx[0][1], o.value, w, 'the file holds the report')
                else:
                    ck.add('report written to the file', UNDECIDED, w, short(f.trace), 'the file holds the report')
    ck.guard('two files', many, w)
    ck.control('rounding to fewer digits', verdict(ite(spec_call(ck, r, 'x_same', [V(a), V(b), V(num(6))]).value, num(1), num(0)),
                                                   ite(sc('x_same', a, b), num(1), num(0)))[0] == VIOLATED)


def run(ck):
    ck.guard('reading', lambda: reading(ck), ck.where(R_ + 'xml_to_dict'))
    ck.guard('written files', lambda: trips(ck), ck.where(R_ + 'dict_to_xml'))
    comparing(ck)
