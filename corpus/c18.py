F = 'process/routines.py'
M = [
    ('same', F, """        dout = {}
        for child in r:
            # The resulting keys are forced to lowercase to compoensate
            # for some windows versions that use CamelCase
            if list(child):
                # if the element has children call the function again with
                # children as r
                dout[child.tag.lower()] = element_to_dict(child)
            else:
                dout[child.tag.lower()] = child.text
        return dout
""", """        return {c.tag.lower(): element_to_dict(c) if len(c) else c.text for c in r}
"""),
    ('same', F, """                for data in value['data']:
                    # empty arrays have no text
                    v = value['data'][data] or ''
                    v = v.strip()
                    v = v.split()
                    d[section][methodname]['data'][data] = np.asarray(v, dtype=np.float64)
""", """                arrays = value['data']
                for key, txt in list(arrays.items()):
                    arrays[key] = np.array([float(x) for x in (txt or '').split()])
"""),
    ('same', F, """                    v = v.replace(',', '.')
                    v = float(v)
""", """                    v = float('.'.join(v.split(',')))
"""),
    ('same', F, """                if v in ('None', None, 'none'):
                    v = None
                else:
                    # sometimes the decimal point is written with , instead of.
                    v = v.replace(',', '.')
                    v = float(v)
                d[section][methodname]['value'] = v
""", """                value['value'] = (None if v is None or v.lower() == 'none'
                                  else float(v.replace(',', '.')))
"""),
    ('same', F, """    if v == 0.0:
        return 0.0
    if not np.isfinite(v):
        return v
    return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
""", """    if v == 0 or np.isnan(v) or np.isinf(v):
        return v
    exponent = int(np.floor(np.log10(abs(v))))
    return round(v, sig - 1 - exponent)
"""),
    ('same', F, "    categories = set(c1) | set(c2)\n", "    categories = set(c1 + c2)\n"),
    ('same', F, "        if category not in c1 or category not in c2:\n", "        if not (category in c1 and category in c2):\n"),
    ('same', F, "                if (set(k1) ^ set(k2)):\n                    r = False\n                else:",
     "                r = set(k1) == set(k2)\n                if r:"),
    ('same', F, """                    r = True
                    for k in k1:
                        r = np.array_equal(round_array(a1[k]),
                                           round_array(a2[k]), equal_nan=True)
                        if not r:
                            break
""", """                    r = all(np.array_equal(round_array(a1[k]),
                                           round_array(a2[k]), equal_nan=True)
                            for k in k1)
"""),
    ('same', F, """            if r:
                s += 'OK' + '\\n'
            else:
                s += 'FAIL' + '\\n'
""", """            s += ('OK' if r else 'FAIL') + '\\n'
"""),
    ('same', F, """            if methodname not in m1:
                v1 = None
                a1 = None
            # get the value and the data
            else:
                v1 = f1[category][methodname].get('value', None)
                a1 = f1[category][methodname].get('data', None)
""", """            e1 = f1[category].get(methodname, {})
            v1, a1 = e1.get('value'), e1.get('data')
"""),
    ('same', F, """        methodnames = set(m1) | set(m2)
        for methodname in sorted(methodnames):
""", """        for methodname in sorted(set(list(m1) + list(m2))):
"""),
    ('same', F, """            s += '{0:<20}{1:<20}'.format(t1, t2)
""", """            s += f'{t1:<20}{t2:<20}'
"""),
    ('same', F, """    if filename is None:
        return s
    with open(filename, 'w') as f:
        f.write(s)
        return s


def high""", """    if filename is not None:
        with open(filename, 'w') as f:
            f.write(s)
    return s


def high"""),
    ('same', F, "                r = np.array_equal(round_significant(v1),\n                                   round_significant(v2), equal_nan=True)",
     "                w1, w2 = round_significant(v1), round_significant(v2)\n                r = w1 == w2 or (np.isnan(w1) and np.isnan(w2))"),
    # bugs
    ('bug', F, "    if not np.isfinite(v):\n        return v\n", ""),
    ('bug', F, "    if v == 0.0:\n        return 0.0\n    if not", "    if not"),
    ('bug', F, "    return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)", "    return round(v, sig - int(np.floor(np.log10(np.abs(v)))))"),
    ('bug', F, "    return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)", "    return round(v, sig - int(np.log10(np.abs(v))) - 1)"),
    ('bug', F, "np.floor(np.log10(np.abs(v)))", "np.floor(np.log10(v))"),
    ('bug', F, "                    v = v.replace(',', '.')\n", ""),
    ('bug', F, "                    v = value['data'][data] or ''\n", "                    v = value['data'][data]\n"),
    ('bug', F, "                    v = v.split()\n", "                    v = v.split(' ')\n"),
    ('bug', F, "                dout[child.tag.lower()] = child.text", "                dout[child.tag] = child.text"),
    ('bug', F, "                if v in ('None', None, 'none'):", "                if v in ('None', 'none'):"),
    ('bug', F, "                if v in ('None', None, 'none'):", "                if v in ('None', None, 'none', '0', '0.0'):"),
    ('bug', F, "    categories = set(c1) | set(c2)\n", "    categories = set(c1)\n"),
    ('bug', F, "        methodnames = set(m1) | set(m2)\n", "        methodnames = set(m1) & set(m2)\n"),
    ('bug', F, "                if (set(k1) ^ set(k2)):", "                if (set(k1) - set(k2)):"),
    ('bug', F, """                        if not r:
                            break
""", ""),
    ('bug', F, "            if v1 is not None and v2 is not None:", "            if v1 and v2:"),
    ('bug', F, "                                   round_significant(v2), equal_nan=True)", "                                   round_significant(v2))"),
    ('bug', F, "                                           round_array(a2[k]), equal_nan=True)", "                                           round_array(a2[k]))"),
    ('bug', F, """                r = (methodname in m1 and methodname in m2 and
                     v1 is None and v2 is None and
                     a1 is None and a2 is None)""", """                r = v1 is None and v2 is None and a1 is None and a2 is None"""),
    ('bug', F, """                     v1 is None and v2 is None and
                     a1 is None and a2 is None)""", """                     v1 is None and v2 is None)"""),
    ('bug', F, "                r = np.array_equal(round_significant(v1),\n                                   round_significant(v2), equal_nan=True)",
     "                r = np.allclose(v1, v2, equal_nan=True)"),
    ('bug', F, "            elif isinstance(d[k], np.ndarray):\n                a = [str(x) for x in d[k]]", "            elif isinstance(d[k], np.ndarray):\n                a = ['%.5g' % x for x in d[k]]", ['C18', 'C17']),
    ('bug', F, "                e.text = ' '.join(a)", "                e.text = ','.join(a)", ['C18', 'C17']),
    ('bug', F, "round_array = np.vectorize(round_significant, otypes=[np.float64])", "round_array = np.vectorize(round_significant)"),
    ('bug', F, "round_array = np.vectorize(round_significant, otypes=[np.float64])", "round_array = np.vectorize(round_significant, otypes=[np.float32])"),
    ('bug', F, "                t1 = str(v1)\n", "                t1 = v1\n"),
    ('bug', F, """            t1 = category in c1
            t2 = category in c2
            s += '{0:<35}'.format('PRESENT')
            s += '{0:<20}{1:<20}FAIL'.format(str(t1), str(t2)) + '\\n'
            continue
""", """            continue
"""),
    ('bug', F, "            tree = etree.ElementTree(etree.fromstring(xml))", "            tree = etree.fromstring(xml)"),
]
M = [m if len(m) > 4 else m + (['C18'],) for m in M]
