"""exports, reading back and comparison of results: refactorings and bugs across the family"""
F = 'process/routines.py'
R = 'process/results.py'
X = ['C17', 'C18']
src = open('/repo/src/emva1288/' + F).read()


def cut(a, b):
    i = src.index(a)
    return src[i:src.index(b, i)]


INFO = cut("def cls_1288_info(cls):", "def _sections_first")
SECT = cut("def _sections_first", "def obj_to_dict")
OBJ = cut("def obj_to_dict", "def dict_to_xml")
TOX = cut("def dict_to_xml", "def xml_to_dict")
TOD = cut("def xml_to_dict", "def round_significant")
CMP = cut("def compare_xml", "def high_pass_filter")
LOOP = cut("    # loop to reconstruct arrays", "def round_significant")
VAL = cut("            # first we check for values and then", "            s += '{0:<20}{1:<20}'.format(t1, t2)")
TAGS = cut("        # to store the relevant tag lines\n", "        # If there is no section set")


def body(text, new):
    """text with everything after its docstring replaced"""
    q = min(('"""', "'''"), key=lambda t: (text + t).index(t))
    k = text.index(q, text.index(q) + 3) + 3
    return text[:k] + '\n' + new


M = [
 # ---- documentation blocks
 ('same', F, TAGS, """        attribute_info = _parse_tags(lines)
        if attribute_info is None:
            continue

""", X),
 ('same', F, INFO, """def _tag_lines(doc):
    relevant = False
    for line in map(str.strip, doc.splitlines()):
        if line.startswith('.. emva1288::'):
            relevant = True
        elif relevant:
            if line:
                yield line
            else:
                relevant = False


def cls_1288_info(cls):
    d = OrderedDict()
    for attribute_name in sorted(cls.__dict__):
        doc = getattr(cls, attribute_name).__doc__
        lines = list(_tag_lines(doc)) if doc else []
        if not lines:
            continue
        info = {'section': 'other'}
        for line in lines:
            tags = [x.strip() for x in line.split(':', 2) if x.strip()]
            if len(tags) == 2:
                key, value = tags
                info[key.lower()] = value
        d[attribute_name] = info
    return d


""", X),
 ('same', F, INFO, body(INFO, """    d = OrderedDict()
    for attribute_name in sorted(vars(cls)):
        doc = getattr(cls, attribute_name).__doc__ or ''
        tag_lines = []
        flag = False
        for s in doc.splitlines():
            line = s.strip()
            if line.startswith('.. emva1288::'):
                flag = True
            elif flag and line:
                tag_lines.append(line)
            else:
                flag = False
        if tag_lines:
            pairs = ([x.strip() for x in line.split(':', 2) if x.strip()] for line in tag_lines)
            info = {p[0].lower(): p[1] for p in pairs if len(p) == 2}
            info.setdefault('section', 'other')
            d[attribute_name] = info
    return d


"""), X),
 ('bug', F, INFO, body(INFO, """    d = OrderedDict()
    for attribute_name in sorted(vars(cls)):
        doc = getattr(cls, attribute_name).__doc__ or ''
        tag_lines = []
        flag = False
        for s in doc.splitlines():
            line = s.strip()
            if line.startswith('.. emva1288::'):
                flag = True
            elif flag and line:
                tag_lines.append(line)
        if tag_lines:
            pairs = ([x.strip() for x in line.split(':') if x.strip()] for line in tag_lines)
            info = {p[0].lower(): p[-1] for p in pairs if len(p) > 1}
            info.setdefault('section', 'other')
            d[attribute_name] = info
    return d


"""), ['C17']),
 ('bug', F, "            tags = [x.strip() for x in line.split(':', 2) if x.strip()]", "            tags = [x.strip(' :$') for x in line.split(':', 2) if x.strip()]", ['C17']),
 ('bug', F, "    items = [name for name in sorted(cls.__dict__.keys())]", "    items = [name for name in sorted(cls.__dict__.keys()) if not name.startswith('s')]", ['C17']),
 ('bug', F, "    items = [name for name in sorted(cls.__dict__.keys())]", "    items = [name for name in sorted(cls.__dict__.keys()) if len(name) > 1]", ['C17']),
 ('bug', F, "        d[attribute_name] = attribute_info\n", "        d.setdefault(attribute_info.get('symbol'), attribute_info)\n        d[attribute_name] = attribute_info\n", ['C17']),
 # ---- sections
 ('same', F, SECT, body(SECT, """    names = sorted(set(info['section'] for info in dct.values()))
    d = OrderedDict((name, OrderedDict()) for name in names)
    for attribute, info in dct.items():
        d[info['section']][attribute] = info
    return d


"""), X),
 ('same', F, SECT, body(SECT, """    d = OrderedDict()
    for attribute in sorted(dct, key=lambda a: dct[a]['section']):
        d.setdefault(dct[attribute]['section'], OrderedDict())[attribute] = dct[attribute]
    return d


"""), X),
 ('same', F, SECT, body(SECT, """    from itertools import groupby
    by = sorted(dct.items(), key=lambda kv: kv[1]['section'])
    return OrderedDict((s, OrderedDict(g)) for s, g in groupby(by, key=lambda kv: kv[1]['section']))


"""), X),
 ('bug', F, SECT, body(SECT, """    from itertools import groupby
    return OrderedDict((s, OrderedDict(g)) for s, g in groupby(dct.items(), key=lambda kv: kv[1]['section']))


"""), ['C17']),
 # ---- values
 ('same', F, OBJ, body(OBJ, """    d = cls_1288_info(type(obj))
    for attribute, info in d.items():
        val = getattr(obj, attribute)
        val = val() if callable(val) else val
        info['data' if isinstance(val, dict) else 'value'] = val
    return d


"""), X),
 ('same', F, OBJ, body(OBJ, """    def read(attribute):
        val = getattr(obj, attribute)
        return val() if callable(val) else val

    d = OrderedDict()
    for attribute, info in cls_1288_info(obj.__class__).items():
        val = read(attribute)
        info = dict(info)
        if isinstance(val, dict):
            info['data'] = val
        else:
            info['value'] = val
        d[attribute] = info
    return d


"""), X),
 ('bug', F, "        if isinstance(val, dict):\n            d[attribute]['data'] = val\n", "        if isinstance(val, (dict, type(None))):\n            d[attribute]['data'] = val\n", ['C17']),
 ('bug', F, "            d[attribute]['data'] = val\n", "            d[attribute]['data'] = {k: np.asarray(v)[:256] for k, v in val.items()}\n", ['C17']),
 ('bug', F, "            d[attribute]['value'] = val\n", "            d[attribute]['value'] = None if not np.isreal(val) or val is None or val != val else abs(val)\n", ['C17']),
 ('bug', F, "        if callable(val):\n            val = val()\n", "        if callable(val):\n            try:\n                val = val()\n            except Exception:\n                continue\n        if not isinstance(val, dict) and val is not None and val < 0:\n            val = 0.\n", ['C17']),
 # ---- xml text
 ('same', F, TOX, """def _text(value):
    if isinstance(value, np.ndarray):
        return ' '.join(str(x) for x in value)
    return str(value)


def _fill(element, d):
    for key, value in d.items():
        child = etree.SubElement(element, key)
        if isinstance(value, dict):
            _fill(child, value)
        else:
            child.text = _text(value)


def dict_to_xml(d, root='results', filename=None):
    tree = etree.Element(root)
    _fill(tree, d)
    t = etree.tostring(tree, pretty_print=True)
    if filename is None:
        return t
    with open(filename, 'w') as f:
        f.write(t.decode('utf-8'))


""", X),
 ('same', F, TOX, """def dict_to_xml(d, root='results', filename=None):
    def build(tag, value):
        e = etree.Element(tag)
        if isinstance(value, dict):
            for k, v in value.items():
                e.append(build(k, v))
        elif isinstance(value, np.ndarray):
            e.text = ' '.join([str(x) for x in value])
        else:
            e.text = str(value)
        return e

    t = etree.tostring(build(root, d), pretty_print=True)
    if filename is None:
        return t
    with open(filename, 'wb') as f:
        f.write(t)


""", X),
 ('bug', F, TOX, """def dict_to_xml(d, root='results', filename=None):
    def build(tag, value):
        e = etree.Element(tag)
        if isinstance(value, dict):
            for k, v in value.items():
                if v is None:
                    continue
                e.append(build(k, v))
        elif isinstance(value, np.ndarray):
            e.text = ' '.join([str(x) for x in value])
        else:
            e.text = str(value)
        return e

    t = etree.tostring(build(root, d), pretty_print=True)
    if filename is None:
        return t
    with open(filename, 'wb') as f:
        f.write(t)


""", X),
 ('bug', F, "                a = [str(x) for x in d[k]]\n", "                a = [str(x) for x in d[k] if x]\n", X),
 ('bug', F, "                a = [str(x) for x in d[k]]\n", "                a = [np.format_float_positional(x, 6) for x in d[k]]\n", ['C17']),
 ('bug', F, "                a = [str(x) for x in d[k]]\n                e.text = ' '.join(a)\n", "                e.text = np.array2string(d[k])[1:-1]\n", ['C17']),
 ('bug', F, "                e.text = str(d[k])\n        return r\n", "                e.text = str(d[k]).lower()\n        return r\n", ['C17']),
 ('bug', F, "                e.text = str(d[k])\n        return r\n", "                e.text = '%.4f' % d[k] if isinstance(d[k], float) else str(d[k])\n        return r\n", ['C17']),
 # ---- reading back
 ('same', F, LOOP, """    for methods in d.values():
        for entry in methods.values():
            if 'data' in entry:
                entry['data'] = {key: _to_array(text) for key, text in entry['data'].items()}
            else:
                entry['value'] = _to_number(entry['value'])
    return d


def _to_array(text):
    return np.asarray((text or '').split(), dtype=np.float64)


def _to_number(text):
    if text in ('None', None, 'none'):
        return None
    return float(text.replace(',', '.'))


""", X),
 ('same', F, TOD, """def _load_root(xml):
    if os.path.isfile(xml):
        return etree.parse(xml).getroot()
    return etree.fromstring(xml)


def _element_to_dict(r):
    dout = {}
    for child in r:
        key = child.tag.lower()
        dout[key] = _element_to_dict(child) if len(child) > 0 else child.text
    return dout


def xml_to_dict(xml):
    try:
        root = _load_root(xml)
    except Exception:
        print('Problems loading XML')
        return None

    d = _element_to_dict(root)
    for method in d.values():
        for value in method.values():
            if 'data' not in value:
                v = value['value']
                value['value'] = None if v in ('None', None, 'none') else float(v.replace(',', '.'))
                continue
            for key in value['data']:
                words = (value['data'][key] or '').split()
                value['data'][key] = np.array([float(w) for w in words], dtype=np.float64)
    return d


""", ['C18']),
 ('bug', F, "                    v = float(v)\n", "                    v = float(v)\n                    v = None if v != v else v\n", ['C18']),
 ('bug', F, "                    v = float(v)\n", "                    v = float(v)\n                    v = int(v) if abs(v) > 1e6 else v\n", ['C18']),
 ('bug', F, "                    v = v.replace(',', '.')\n", "                    v = v.replace(',', '.').replace('-', '')\n", ['C18']),
 ('bug', F, "                    v = v.replace(',', '.')\n", "                    v = v.replace(',', '')\n", ['C18']),
 ('bug', F, "np.asarray(v, dtype=np.float64)\n            else", "np.asarray(sorted(v), dtype=np.float64)\n            else", ['C18']),
 ('bug', F, "np.asarray(v, dtype=np.float64)\n            else", "np.asarray(v, dtype=np.float32)\n            else", ['C18']),
 ('bug', F, "np.asarray(v, dtype=np.float64)\n            else", "np.asarray(v[:-1] if v and v[-1] == v[0] else v, dtype=np.float64)\n            else", ['C18']),
 ('bug', F, "            if os.path.isfile(xml):\n", "            if str(xml).endswith('.xml'):\n", ['C18']) if 0 else
 ('bug', F, "        if os.path.isfile(xml):\n", "        if os.path.exists(str(xml) + '.xml'):\n", ['C18']),
 ('bug', F, "            if list(child):\n", "            if len(list(child)) > 1:\n", ['C18']),
 # ---- comparison
 ('same', F, VAL, """            if v1 is not None and v2 is not None:
                t1, t2 = v1, v2
                r = _same(round_significant(v1), round_significant(v2))
            elif a1 is not None and a2 is not None:
                t1 = t2 = 'Array'
                r = set(a1) == set(a2) and all(_same(round_array(a1[k]), round_array(a2[k])) for k in a1)
            else:
                t1, t2 = str(v1), str(v2)
                present = methodname in m1 and methodname in m2
                r = present and all(x is None for x in (v1, v2, a1, a2))

""", ['C30']),
 ('same', F, CMP, """def _same(a, b):
    return np.array_equal(a, b, equal_nan=True)


def _compare_entry(e1, e2):
    v1, a1 = e1.get('value'), e1.get('data')
    v2, a2 = e2.get('value'), e2.get('data')
    if v1 is not None and v2 is not None:
        return v1, v2, _same(round_significant(v1), round_significant(v2))
    if a1 is not None and a2 is not None:
        ok = a1.keys() == a2.keys() and all(_same(round_array(a1[k]), round_array(a2[k])) for k in a1)
        return 'Array', 'Array', ok
    undefined = v1 is None and v2 is None and a1 is None and a2 is None
    return str(v1), str(v2), undefined


def compare_xml(x1, x2, filename=None):
    f1 = xml_to_dict(x1)
    f2 = xml_to_dict(x2)
    if f1 is None or f2 is None:
        return ''
    lines = []
    for category in sorted(set(f1) | set(f2)):
        lines += ['*' * 70, category, '*' * 70]
        if category not in f1 or category not in f2:
            lines.append('{0:<35}{1:<20}{2:<20}FAIL'.format('PRESENT', str(category in f1), str(category in f2)))
            continue
        m1, m2 = f1[category], f2[category]
        for name in sorted(set(m1) | set(m2)):
            t1, t2, r = _compare_entry(m1.get(name, {}), m2.get(name, {}))
            r = r and name in m1 and name in m2
            lines.append('{0:<35}{1:<20}{2:<20}'.format(name, t1, t2) + ('OK' if r else 'FAIL'))
        lines.append('')
    s = ''.join(line + '\\n' for line in lines)
    if filename is not None:
        with open(filename, 'w') as f:
            f.write(s)
    return s


""", ['C18']),
 ('bug', F, CMP, """def _same(a, b):
    return np.array_equal(a, b, equal_nan=True)


def _compare_entry(e1, e2):
    v1, a1 = e1.get('value'), e1.get('data')
    v2, a2 = e2.get('value'), e2.get('data')
    if v1 is not None and v2 is not None:
        return v1, v2, _same(round_significant(v1), round_significant(v2))
    if a1 is not None and a2 is not None:
        ok = a1.keys() == a2.keys() and all(_same(round_array(x), round_array(y)) for x, y in zip(a1.values(), a2.values()))
        return 'Array', 'Array', ok
    undefined = v1 is None and v2 is None and a1 is None and a2 is None
    return str(v1), str(v2), undefined


def compare_xml(x1, x2, filename=None):
    f1 = xml_to_dict(x1)
    f2 = xml_to_dict(x2)
    if f1 is None or f2 is None:
        return ''
    lines = []
    for category in sorted(set(f1) | set(f2)):
        lines += ['*' * 70, category, '*' * 70]
        if category not in f1 or category not in f2:
            lines.append('{0:<35}{1:<20}{2:<20}FAIL'.format('PRESENT', str(category in f1), str(category in f2)))
            continue
        m1, m2 = f1[category], f2[category]
        for name in sorted(set(m1) | set(m2)):
            t1, t2, r = _compare_entry(m1.get(name, {}), m2.get(name, {}))
            r = r and name in m1 and name in m2
            lines.append('{0:<35}{1:<20}{2:<20}'.format(name, t1, t2) + ('OK' if r else 'FAIL'))
        lines.append('')
    s = ''.join(line + '\\n' for line in lines)
    if filename is not None:
        with open(filename, 'w') as f:
            f.write(s)
    return s


""", ['C18']),
 ('bug', F, "    categories = set(c1) | set(c2)\n", "    categories = [c for c in c1 if f1[c]] + [c for c in c2 if c not in c1]\n", ['C18']),
 ('bug', F, "                r = (methodname in m1 and methodname in m2 and\n", "                r = (methodname in m1 and v1 == v2 and\n", ['C18']),
 ('bug', F, "                    r = True\n                    for k in k1:\n", "                    r = False\n                    for k in k1:\n", ['C18']),
 ('bug', F, "                r = np.array_equal(round_significant(v1),\n", "                r = v1 == v2 or np.array_equal(round_significant(v1 - v2),\n                                   0) or np.array_equal(round_significant(v1),\n", ['C18']) if 0 else
 ('bug', F, "                r = np.array_equal(round_significant(v1),\n                                   round_significant(v2), equal_nan=True)", "                r = abs(v1 - v2) <= 10. ** -SIGNIFICANT_DIGITS * max(abs(v1), abs(v2)) or (v1 != v1 and v2 != v2)", ['C18']),
 ('bug', F, "                r = np.array_equal(round_significant(v1),\n                                   round_significant(v2), equal_nan=True)", "                r = round_significant(v1) == round_significant(v2)", ['C18']),
 ('bug', F, "SIGNIFICANT_DIGITS = 7", "SIGNIFICANT_DIGITS = 2", ['C18']),
 ('bug', F, "    if v == 0.0:\n        return 0.0\n", "    if abs(v) < 1e-3:\n        return 0.0\n", ['C18']),
 ('bug', F, "        s += category + '\\n'\n        s += '*' * 70 + '\\n'\n        # check", "        if not f1.get(category) and not f2.get(category):\n            continue\n        s += category + '\\n'\n        s += '*' * 70 + '\\n'\n        # check", ['C18']),
 # ---- results object
 ('same', R, "        results = self.results_by_section\n        if not filename:\n            return routines.dict_to_xml(results)\n        routines.dict_to_xml(results, filename=filename)\n", "        return routines.dict_to_xml(self.results_by_section, root='results',\n                                    filename=filename if filename else None)\n", X),
 ('same', R, "        results = self.results_by_section\n\n        for section, attributes in results.items():\n", "        def row(info):\n            return '{:<50}{:<30}{:>10}'.format(info['short'], str(info.get('symbol')), str(info['value']))\n\n        results = self.results_by_section\n        for section, attributes in results.items():\n            rows = [row(i) for i in attributes.values() if 'value' in i]\n", ['C17']),
 ('bug', R, "                print('{:<50}{:<30}{:>10}'.format(info.get('short'),", "                print('{:<50}{:<30}{:>10.10}'.format(info.get('short'),", ['C17']),
 ('bug', R, "        return routines._sections_first(self.results)\n", "        return routines._sections_first({k: v for k, v in self.results.items() if v.get('value', 1) is not None})\n", ['C17']),
 ('bug', R, "        return routines.obj_to_dict(self)\n", "        if not hasattr(self, '_all'):\n            self._all = routines.obj_to_dict(self)\n        return self._all\n", ['C17']) if 0 else
 ('bug', R, "        return routines.obj_to_dict(self)\n", "        d = routines.obj_to_dict(self)\n        d.pop('u_I_var_DN', None)\n        return d\n", ['C17']),
]
# the first entry needs its helper
M[0] = ('same', F, [TAGS, "def cls_1288_info(cls):"], ["""        attribute_info = _parse_tags(lines)
        if attribute_info is None:
            continue

""", """def _parse_tags(lines):
    tag_lines = []
    flag = False
    for line in lines:
        if line.startswith('.. emva1288::'):
            flag = True
            continue
        if flag:
            if not line:
                flag = False
                continue
            tag_lines.append(line)
    if not tag_lines:
        return None
    info = {}
    for line in tag_lines:
        tags = [x.strip() for x in line.split(':', 2) if x.strip()]
        if len(tags) == 2:
            info[tags[0].lower()] = tags[1]
    return info


def cls_1288_info(cls):"""], X)
for k, m in enumerate(M):
    if m[2] is VAL:
        M[k] = ('same', F, [VAL, "def compare_xml"], [m[3], "def _same(a, b):\n    return np.array_equal(a, b, equal_nan=True)\n\n\ndef compare_xml"], ['C18'])
