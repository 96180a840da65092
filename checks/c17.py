"""Every defined result is reported, in its section, with its value"""
import re
from .common import *
from .results_common import RES, make, member_where
from . import xml_common as X
from vf.interp import UNDEF

NOTE = ('Results1288.results, results_by_section, print_results and xml() are evaluated abstractly with every result of the naming '
        'convention as its own unknown (numbers, undefined values, histograms with arrays of unknown length); the class registry is read '
        'from the documentation blocks of the analysed source. The dictionaries, the printed lines and the structure of the XML '
        'tree (lxml elements are modelled in the abstract heap) must hold every listed result under its name and section, with '
        'the value the member gives, its documented unit, symbol and description, and arrays element by element.')
MIN = 300
NAMES = {
    'dark_current': 'u_I_var_DN u_I_var u_I_mean_DN u_I_mean',
    'defect_pixel': 'histogram_PRNU histogram_PRNU_accumulated histogram_DSNU histogram_DSNU_accumulated',
    'info': 'index_start',
    'linearity': 'index_linearity_min index_linearity_max LE_min LE_max',
    'sensitivity': 'index_u_ysat index_sensitivity_max index_sensitivity_min R K inverse_K QE sigma_y_dark sigma_d u_p_min u_p_min_area '
                   'u_e_min u_e_min_area u_p_sat u_p_sat_area u_e_sat u_e_sat_area SNR_max SNR_max_dB SNR_max_bit inverse_SNR_max DR '
                   'DR_dB',
    'spatial': 'sigma_2_y_stack sigma_2_y_stack_dark s_2_y_measured s_2_y_measured_dark s_2_y s_2_y_dark s_2_y_cav s_2_y_cav_dark '
               's_2_y_rav s_2_y_rav_dark s_2_y_col s_2_y_col_dark s_2_y_row s_2_y_row_dark s_2_y_pixel s_2_y_pixel_dark DSNU1288 '
               'DSNU1288_DN DSNU1288_row DSNU1288_col DSNU1288_pixel PRNU1288 PRNU1288_row PRNU1288_col PRNU1288_pixel',
}
SECTION = {n: s for s, l in NAMES.items() for n in l.split()}
META = ('section', 'short', 'symbol', 'unit', 'latexname')
HIST = ('bins', 'values', 'model')
UND = ('', ' (every second result undefined)', ' (every other result undefined)')
EXPORTS = ('results', 'results_by_section', 'print_results', 'xml')


def blocks(ck):
    """{member: {field: text}} of the documentation blocks, and members without one"""
    c = ck.world.get(RES)
    if not isinstance(c, Cls):
        raise Vanished(RES)
    out = {}
    for k in c.mro():
        if not isinstance(k, Cls):
            continue
        for nm, f in k.members.items():
            if nm in out:
                continue
            lines = [x.strip() for x in (ast.get_docstring(f) or '').splitlines()]
            d = {}
            if '.. emva1288::' in lines:
                for x in lines[lines.index('.. emva1288::') + 1:]:
                    if not x:
                        break
                    m = re.match(r':(\w+):\s*(.*\S)\s*$', x)
                    if m:
                        d[m.group(1).lower()] = m.group(2)
            if d:
                out[nm] = d
    return out


import ast


def setup(ck, undefined=0, masked=False):
    """run with unknown results -> (run, object, {name: value term or {key: term}})"""
    r, obj, _ = make(ck, False, masked)
    vals = {}
    nb = intsym('bins', True)
    for j, nm in enumerate(SECTION):
        if nm.startswith('histogram'):
            vals[nm] = {k: arrsym('%s[%s]' % (nm, k), nb) for k in HIST}
        else:
            vals[nm] = V(NONE) if undefined and j % 2 == undefined - 1 else V(intsym(nm, False) if nm.startswith('index') else numsym(nm))
        if ck.world.get(RES).find(nm) is None:
            continue

        def f(ip, args, kw, st, cx, node, nm=nm):
            v = vals[nm]
            return st.new(H('dict', items={const(k): x for k, x in v.items()})) if isinstance(v, dict) else v
        r.ip.override[RES + '.' + nm] = f
    return r, obj, vals


def frozen(v):
    return v.t if isinstance(v, V) else v


def entry(ck, name, t, vals, meta, nm, w, rule):
    """one entry of the results dictionary"""
    tag = '%s: %s' % (name, nm)
    e = dget(t, const(nm))
    if e is UNDEF or e is NONE or raises(e):
        ck.add(tag, VIOLATED, w, 'no entry', rule)
        return
    bad = []
    for k in META:
        got = dget(e, const(k))
        want = const(meta[nm][k]) if k in meta.get(nm, {}) else None
        if k == 'section':
            want = const(SECTION[nm])
        if want is None:
            if not (got is UNDEF or raises(got)):
                bad.append((k, got, 'absent'))
        elif got is not want:
            bad.append((k, got, want))
    v = vals[nm]
    key = 'data' if isinstance(v, dict) else 'value'
    got = dget(e, const(key))
    if raises(got) or got is UNDEF:
        bad.append((key, got, 'the value of the member'))
    elif isinstance(v, dict):
        for k, x in v.items():
            g = dget(got, const(k))
            if g is not x.t:
                bad.append(('data[%s]' % k, g, x.t))
    elif got is not v.t:
        bad.append((key, got, v.t))
    if bad:
        k, g, x = bad[0]
        hard = isinstance(x, Node) and not isinstance(g, str) and (soft(g) or g.opq)
        ck.add(tag, UNDECIDED if hard else VIOLATED, w, '%s is %s instead of %s' % (k, short(g), short(x)), rule)
    else:
        ck.add(tag, PROVED, w, '', rule)


def short(x):
    return x if isinstance(x, str) else show(x, 5)[:200]


def raises(t):
    return isinstance(t, Node) and (t.op in ('raises', 'raised', 'undef', 'missing') or
                                    t.op == 'ite' and (raises(t.args[1]) or raises(t.args[2])))


def plain(t):
    """a value whose structure is known"""
    return t.op in ('dlit',)


def dictionary(ck, undefined, meta):
    r, obj, vals = setup(ck, undefined)
    tag = UND[undefined]
    for nm in ('results', 'results_by_section'):
        w = member_where(ck.world, RES, nm)
        o = r.attr(obj, nm, None)
        t = o.value
        if not plain(t):
            ck.add(nm + tag, VIOLATED if raises(t) and not t.opq else UNDECIDED, w, short(t), 'the dictionary can be built')
            continue
        known = set(SECTION)
        for n in SECTION:
            sub = t if nm == 'results' else dget(t, const(SECTION[n]))
            if not (isinstance(sub, Node) and plain(sub)):
                ck.add('%s: %s%s' % (nm, n, tag), VIOLATED, w, 'no section ' + SECTION[n], 'every result is in its section')
                continue
            if nm != 'results' and any(plain(d) and not raises(dget(d, const(n))) for d in
                                       (dget(t, const(s)) for s in NAMES if s != SECTION[n]) if isinstance(d, Node)):
                ck.add('%s: %s%s' % (nm, n, tag), VIOLATED, w, 'also listed in another section', 'every result is in its section only')
                continue
            entry(ck, nm + tag, sub, vals, meta, n, w, 'listed under its name and section, with its documented unit, symbol and '
                  'description and the value of the member')
    return


def text_of(t):
    """text pieces of a printed line"""
    return t


def printed(ck, undefined):
    r, obj, vals = setup(ck, undefined)
    r.ip.override['prints'] = True
    w = member_where(ck.world, RES, 'print_results')
    tag = UND[undefined]
    o = r.attr(obj, 'print_results', True)
    name = 'print_results' + tag
    if raises(o.value):
        ck.add(name, UNDECIDED if o.value.opq else VIOLATED, w, short(o.value), 'printing succeeds')
        return
    try:
        lines = lines_of(o.trace)
    except ValueError as e:
        ck.add(name, UNDECIDED, w, 'printed in a form that is not analysed: ' + str(e), 'every result is printed')
        return
    cur, seen, cutoff = None, {}, {}
    for t, cond in split_lines(lines):
        txt = t.args[0].strip() if t.op == 'str' else None
        if txt in NAMES:
            cur = txt
            continue
        for n in SECTION:
            if not isinstance(vals[n], dict) and vals[n].t is not NONE and vals[n].t in syms_of(t):
                seen.setdefault(n, []).append((cur, cond))
                for x in subterms(t):
                    # a precision given for a text cuts it
                    if x.op == 'fmt' and kind(x.args[1]) == 'str' and re.search(r'\.\d+s?$', x.args[0]) and vals[n].t in syms_of(x):
                        cutoff[n] = short(x)
    for n in SECTION:
        if isinstance(vals[n], dict):
            continue
        if vals[n].t is NONE:
            continue
        got = [x for x, c in seen.get(n, []) if c is TRUE]
        part = [c for x, c in seen.get(n, []) if c is not TRUE]
        det = ''
        if part:
            det = 'its value is only printed if %s' % short(part[0])
        elif cutoff.get(n):
            det = 'its printed text is cut off: ' + cutoff[n]
        elif got != [SECTION[n]]:
            det = 'its value is printed %s' % (('in section %s' % got) if got else 'nowhere')
        ck.add('%s: %s' % (name, n), VIOLATED if det else PROVED, w, det, 'the value is printed once, in its section')
    ck.add(name, PROVED, w, '', 'printing succeeds')


def lines_of(t, cond=TRUE):
    """(text, condition) of everything printed"""
    out = []
    for u in flat_units(t):
        if u.op == 'lit':
            for e in u.args:
                if e.op == 'ev' and e.args[0] == 'print':
                    out.append((e.args[1], cond))
                elif e.op == 'ev' and e.args[0] in ('write', 'mcall') and hasop(e, 'ext'):
                    raise ValueError(short(e))
        elif u.op == 'ite':
            a, b = lines_of(u.args[1]), lines_of(u.args[2])
            if a == b:
                out += [(x, cond if c is TRUE else c) for x, c in a]
            else:
                out += [(x, u.args[0]) for x, c in a + b]
        elif hasop(u, 'ev'):
            raise ValueError(short(u))
    return out


def split_lines(lines):
    """one term per printed line, whether printed in one call or several"""
    out = []
    for t, cond in lines:
        ps = list(t.args) if t.op == 'scat' else [t]
        cur = []
        for p in ps:
            if p.op == 'str' and '\n' in p.args[0].rstrip('\n'):
                seg = p.args[0].split('\n')
                for k, s in enumerate(seg):
                    if s:
                        cur.append(const(s))
                    if k < len(seg) - 1:
                        out.append((join(cur), cond))
                        cur = []
            elif p.op == 'str' and p.args[0].endswith('\n') and p is not ps[-1]:
                out.append((join(cur + [p]), cond))
                cur = []
            else:
                cur.append(p)
        out.append((join(cur), cond))
    return out


def join(ps):
    if not ps:
        return const('')
    return ps[0] if len(ps) == 1 else mk('tup', *ps)


def tree_entry(root, sec, nm):
    for s in root.args[2].args:
        if s.args[0] is const(sec):
            for e in s.args[2].args:
                if e.args[0] is const(nm):
                    yield e


def field_of(e, k):
    return [x for x in e.args[2].args if x.args[0] is const(k)]


def expected_text(ck, r, v):
    return spec_call(ck, r, 'x_array' if alg_rank(v) else 'x_scalar', [v]).value


def alg_rank(v):
    return rank(v.t if isinstance(v, V) else v)


def xml(ck, undefined, meta, tofile):
    r, obj, vals = setup(ck, undefined)
    X.install(ck, r)
    w = member_where(ck.world, RES, 'xml')
    name = 'xml' + (' file' if tofile else '') + (UND[undefined])
    if tofile:
        fn = const('out.xml')
        o = r.attr(obj, 'xml', True, args=[V(fn)])
        writes = [e for u in flat_units(o.trace) if u.op == 'lit' for e in u.args if e.op == 'ev' and e.args[0] == 'write']
        opens = [e for u in flat_units(o.trace) if u.op == 'lit' for e in u.args if e.op == 'ev' and e.args[0] == 'open']
        if len(writes) == len(opens) == 1 and (opens[0].args[2].args[0][:1] not in 'wx' or
                                               hasop(writes[0].args[2], 'xmlbytes') and writes[0].args[2].op == 'fmt'):
            ck.add(name, VIOLATED, w, 'opened with mode %s, writes %s' % (short(opens[0].args[2]), short(writes[0].args[2])),
                   'the file holds the XML text and nothing else')
            return
        t = writes[0].args[2] if len(writes) == 1 and len(opens) == 1 and opens[0].args[1] is fn and \
            writes[0].args[1].args[:1] == (fn,) and opens[0].args[2].args[0][:1] in 'wx' else None
        if t is None:
            if raises(o.value) or not writes:
                ck.add(name, UNDECIDED if o.value.opq else VIOLATED, w, 'writes %d texts; gives %s' % (len(writes), short(o.value)),
                       'the export is written to the file')
            else:
                ck.add(name, UNDECIDED, w, 'written in a form that is not analysed: ' + short(o.trace), '')
            return
    else:
        o = r.attr(obj, 'xml', True)
        t = o.value
    if t.op not in ('xmlbytes', 'xmltext'):
        ck.add(name, VIOLATED if raises(t) and not t.opq else UNDECIDED, w, short(t), 'an XML text of the results is produced')
        return
    if tofile and (t.op == 'xmlbytes') != ('b' in opens[0].args[2].args[0]):
        ck.add(name, VIOLATED, w, 'bytes are written to a text file or the reverse', 'the export is written to the file')
        return
    judge_tree(ck, r, t.args[0], vals, meta, name, w)


def judge_tree(ck, r, root, vals, meta, name, w):
    rule = 'exported once under its section, with documented unit, symbol and description and the value as text'
    texts = {}
    for nm in SECTION:
        tag = '%s: %s' % (name, nm)
        es = list(tree_entry(root, SECTION[nm], nm))
        if len(es) != 1:
            ck.add(tag, VIOLATED, w, 'exported %d times in section %s' % (len(es), SECTION[nm]), rule)
            continue
        e = es[0]
        bad = None
        for k in META[1:]:
            want = meta.get(nm, {}).get(k)
            if want is None:
                continue
            got = field_of(e, k)
            if len(got) != 1 or got[0].args[1] is not const(want):
                bad = '%s is %s instead of %r' % (k, [short(x.args[1]) for x in got], want)
        v = vals[nm]
        if isinstance(v, dict):
            d = field_of(e, 'data')
            if len(d) != 1:
                ck.add(tag, VIOLATED, w, 'no data', rule)
                continue
            pairs = [(k, field_of(d[0], k), x) for k, x in v.items()]
            extra = len(d[0].args[2].args) - len(pairs)
        else:
            pairs, extra = [('value', field_of(e, 'value'), v)], 0
        vd, det = PROVED, ''
        for k, got, x in pairs:
            want = expected_text(ck, r, x)
            if len(got) != 1 or got[0].args[2].args:
                vd, det = VIOLATED, '%s is exported %d times' % (k, len(got))
                break
            q, why = verdict(got[0].args[1], want)
            if q != PROVED:
                vd, det = q, '%s is %s instead of %s' % (k, short(got[0].args[1]), short(want))
                break
        if vd == PROVED and extra:
            vd, det = VIOLATED, 'data holds %d more elements' % extra
        if bad and vd == PROVED:
            vd, det = VIOLATED, bad
        ck.add(tag, vd, w, det, rule)


def run(ck):
    w = member_where(ck.world, RES, 'results')
    meta = blocks(ck)
    for und in (0, 1, 2):
        ck.guard('dictionaries %s' % und, lambda: dictionary(ck, und, meta), w)
        ck.guard('print_results %s' % und, lambda: printed(ck, und), member_where(ck.world, RES, 'print_results'))
        for tofile in (False, True):
            ck.guard('xml %s %s' % (und, tofile), lambda: xml(ck, und, meta, tofile), member_where(ck.world, RES, 'xml'))
    # a text with fewer digits is not the value
    r, obj, vals = setup(ck)
    ck.control('rounded text', verdict(spec_call(ck, r, 'x_rounded', [vals['K']]).value, expected_text(ck, r, vals['K']))[0] == VIOLATED)
