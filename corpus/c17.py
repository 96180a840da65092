F='process/routines.py'
R='process/results.py'
M=[
('same',F,"    items = [name for name in sorted(cls.__dict__.keys())]\n    for attribute_name in items:\n        # Extract the doc from the Processing methods\n        doc = getattr(cls, attribute_name).__doc__\n","    for attribute_name, member in sorted(cls.__dict__.items()):\n        # Extract the doc from the Processing methods\n        doc = member.__doc__\n"),
('same',F,"        attribute_info = {}\n        for line in tag_lines:","        attribute_info = dict(section='other')\n        for line in tag_lines:"),
('same',F,"            tags = [x.strip() for x in line.split(':', 2) if x.strip()]\n            # Each valid tag has to be xx:yy\n            if len(tags) != 2:\n                continue\n            # Fill the dict\n            attribute_info[tags[0].lower()] = tags[1]\n","            _, _, rest = line.partition(':')\n            key, _, text = rest.partition(':')\n            key, text = key.strip(), text.strip()\n            if key and text:\n                attribute_info[key.lower()] = text\n"),
('same',F,"        if isinstance(val, dict):\n            d[attribute]['data'] = val\n        else:\n            d[attribute]['value'] = val\n","        d[attribute]['data' if isinstance(val, dict) else 'value'] = val\n"),
('same',F,"    for attribute in d.keys():\n        # Get the value for the given attribute\n        val = getattr(obj, attribute)\n","    for attribute, info in d.items():\n        # Get the value for the given attribute\n        val = getattr(obj, attribute)\n"),
('same',F,"    sections = sorted({k['section'] for k in dct.values()})\n    for section in sections:\n        d[section] = OrderedDict()\n        for k, v in dct.items():\n            if v['section'] != section:\n                continue\n            d[section][k] = v\n","    for k, v in sorted(dct.items(), key=lambda kv: kv[1]['section']):\n        d.setdefault(v['section'], OrderedDict())[k] = v\n"),
('same',F,"    sections = sorted({k['section'] for k in dct.values()})\n    for section in sections:\n        d[section] = OrderedDict()\n        for k, v in dct.items():\n            if v['section'] != section:\n                continue\n            d[section][k] = v\n","    for k, v in dct.items():\n        d.setdefault(v['section'], OrderedDict())[k] = v\n"),
('same',F,"                a = [str(x) for x in d[k]]\n                e.text = ' '.join(a)\n","                e.text = ' '.join(map(str, d[k]))\n"),
('same',F,"        for k in d.keys():\n            e = etree.SubElement(r, k)\n            # when the value for the key is a dict, call the function again\n            if isinstance(d[k], dict):\n                r.append(key_to_xml(d[k], e))\n","        for k in d:\n            e = etree.SubElement(r, k)\n            # when the value for the key is a dict, call the function again\n            if isinstance(d[k], dict):\n                key_to_xml(d[k], e)\n"),
('same',F,"                e.text = str(d[k])\n        return r\n","                e.text = '{}'.format(d[k])\n        return r\n"),
('same',F,"    t = etree.tostring(xml, pretty_print=True)\n    if filename is None:\n        return t\n    with open(filename, 'w') as f:\n        f.write(t.decode('utf-8'))\n","    t = etree.tostring(xml)\n    if filename is not None:\n        with open(filename, 'wb') as f:\n            f.write(t)\n        return None\n    return t\n"),
('same',R,"        results = self.results_by_section\n        if not filename:\n            return routines.dict_to_xml(results)\n        routines.dict_to_xml(results, filename=filename)\n","        return routines.dict_to_xml(self.results_by_section, filename=filename or None)\n"),
('same',R,"                print('{:<50}{:<30}{:>10}'.format(info.get('short'),\n                                                  str(info.get('symbol')),\n                                                  str(info.get('value'))))\n","                value = info['value']\n                print(f\"{info['short']:<50}{info.get('symbol')!s:<30}{value!s:>10}\")\n"),
('bug',F,"    items = [name for name in sorted(cls.__dict__.keys())]","    items = [name for name in sorted(cls.__dict__.keys()) if name.islower()]"),
('bug',F,"            attribute_info[tags[0].lower()] = tags[1]\n","            attribute_info.setdefault(tags[0].lower(), tags[1].lower())\n"),
('bug',F,"            tags = [x.strip() for x in line.split(':', 2) if x.strip()]","            tags = [x.strip() for x in line.split(':') if x.strip()]\n            tags = tags[:1] + [' '.join(tags[1].split('.'))] if len(tags) > 1 else tags"),
('bug',F,"            d[attribute]['value'] = val\n","            d[attribute]['value'] = val or 0\n"),
('bug',F,"            d[attribute]['value'] = val\n","            d[attribute]['value'] = val if val is None else round(float(val), 6)\n"),
('bug',F,"            if v['section'] != section:\n                continue\n            d[section][k] = v\n","            if v['section'] == section:\n                d[section][v['short']] = v\n"),
('bug',F,"            if v['section'] != section:\n","            if v['section'][:1] != section[:1]:\n"),
('bug',F,"                a = [str(x) for x in d[k]]\n                e.text = ' '.join(a)\n","                a = [str(x) for x in np.unique(d[k])]\n                e.text = ' '.join(a)\n"),
('bug',F,"                a = [str(x) for x in d[k]]\n                e.text = ' '.join(a)\n","                e.text = str(d[k])\n"),
('bug',F,"                a = [str(x) for x in d[k]]\n","                a = ['%g' % x for x in d[k]]\n"),
('bug',F,"                e.text = str(d[k])\n        return r\n","                e.text = str(d[k] or '')\n        return r\n"),
('bug',F,"                e.text = str(d[k])\n        return r\n","                e.text = d[k]\n        return r\n"),
('bug',F,"    with open(filename, 'w') as f:\n        f.write(t.decode('utf-8'))\n\n\ndef xml_to_dict","    with open(filename, 'a') as f:\n        f.write(t.decode('utf-8'))\n\n\ndef xml_to_dict"),
('bug',F,"        f.write(t.decode('utf-8'))\n\n\ndef xml_to_dict","        f.write(str(t))\n\n\ndef xml_to_dict"),
('bug',R,"        results = self.results_by_section\n        if not filename:\n            return routines.dict_to_xml(results)","        results = self.results_by_section\n        if not filename:\n            return routines.dict_to_xml(self.results)"),
('bug',R,"                if 'value' not in info:\n                    continue\n","                if not info.get('value'):\n                    continue\n"),
('bug',R,"                                                  str(info.get('symbol')),\n                                                  str(info.get('value'))))","                                                  str(info.get('value')),\n                                                  str(info.get('unit'))))\n                if info.get('value', 0) is None:\n                    break"),
('bug',R,"            for attribute, info in attributes.items():\n                if 'value' not in info:\n                    continue\n","            for attribute, info in attributes.items():\n                if 'data' in info:\n                    break\n                if 'symbol' not in info:\n                    continue\n"),
('bug',R,"    @property\n    def sigma_y_dark(self):","    def _cached(method):\n        def wrapper(self):\n            return method(self)\n        return wrapper\n\n    @property\n    @_cached\n    def sigma_y_dark(self):"),
('bug',R,"""        .. emva1288::
            :Section: dark_current
            :Short: Dark Current from mean
            :Symbol: $\\mu_{I.mean.DN}$""","""        .. emva1288::

            :Section: dark_current
            :Short: Dark Current from mean
            :Symbol: $\\mu_{I.mean.DN}$"""),
('bug',R,"            :Section: linearity\n            :Short: Max Linearity error","            :Section: linearity_error\n            :Short: Max Linearity error"),
]
