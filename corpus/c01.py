F='process/parser.py'
S=open('/repo/src/emva1288/'+F).read()
A=S.index("        # Start at the end of the file\n")
B=S.index("    def _split_line(self")
FILL=S[A:B]
G0=S.index("        fnames = []\n        while self._lines:"); G1=S.index("        return fnames\n")
GET=S[G0:G1]
L0=S.index("        # get the lines and strip them"); LOAD=S[L0:]
ADD0=S.index("        # create the exposure time dictionary"); ADD1=S.index("    def _fill_info"); ADD=S[ADD0:ADD1]
both=['C01','C02']
FOR='''        block = None
        for line in self._lines:
            l = self._split_line(line)
            cmd = l[0]
            if cmd == 'i' and block is not None:
                if len(l) != 2:
                    raise SyntaxError('Wrong format: "%s"' % line)
                block[2].append(os.path.join(self._path, *os.path.normpath(l[1]).split('\\\\')))
                continue
            if block is not None:
                self._finish(block)
                block = None
            if cmd == 'v':
                self.version = l[1]
            elif cmd == 'n':
                if len(l) != 4 or self.format:
                    raise SyntaxError('bad n line')
                self.format.update(zip(('bits', 'width', 'height'), map(int, l[1:])))
            elif cmd == 'b':
                if len(l) != 3:
                    raise SyntaxError('bad b line')
                block = (float(l[1].replace(',', '.')), float(l[2].replace(',', '.')), [])
            elif cmd == 'd':
                if len(l) != 2:
                    raise SyntaxError('bad d line')
                block = (float(l[1].replace(',', '.')), 0.0, [])
            else:
                self.log.warning('Unknown command ' + line)
        if block is not None:
            self._finish(block)

    def _finish(self, block):
        exposure, photons, fnames = block
        if len(fnames) < 2:
            raise SyntaxError('at least two images')
        self._add_pcount(exposure, photons, fnames)

'''
IDX='''        k = 0
        n = len(self._lines)
        lines = self._lines
        while k < n:
            line = lines[k]
            k += 1
            l = self._split_line(line)
            if l[0] == 'v':
                self.version = l[1]
            elif l[0] == 'n':
                if len(l) != 4:
                    raise SyntaxError('n')
                if self.format:
                    raise SyntaxError('Only one')
                self.format = dict(bits=int(l[1]), width=int(l[2]), height=int(l[3]))
            elif l[0] in ('b', 'd'):
                if len(l) != (3 if l[0] == 'b' else 2):
                    raise SyntaxError('format')
                exposure = float(l[1].replace(',', '.'))
                photons = float(l[2].replace(',', '.')) if l[0] == 'b' else 0.0
                fnames = []
                while k < n:
                    m = self._split_line(lines[k])
                    if m[0] != 'i':
                        break
                    if len(m) != 2:
                        raise SyntaxError('i')
                    fnames.append(os.path.join(self._path, *m[1].split('\\\\')))
                    k += 1
                if len(fnames) < 2:
                    raise SyntaxError('two images')
                self._add_pcount(exposure, photons, fnames)
            else:
                self.log.warning('Unknown command ' + line)

'''
M=[
('same',F,FILL,FOR,both),
('same',F,FILL,IDX,both),
('same',F,GET,'''        fnames = []
        while self._lines and self._split_line(self._lines[-1])[0] == 'i':
            l = self._split_line(self._lines.pop())
            if len(l) != 2:
                raise SyntaxError('Wrong format')
            fnames.append(os.path.join(self._path, *os.path.normpath(l[1]).split('\\\\')))
        if len(fnames) < 2:
            raise SyntaxError('two images')
''',both),
('same',F,ADD,'''        group = self.images[kind].setdefault(exposure, {})
        if group.get(photons) is not None:
            raise SyntaxError('Only one set')
        group[photons] = list(fnames)

''',both),
('same',F,ADD,'''        try:
            group = self.images[kind][exposure]
        except KeyError:
            group = self.images[kind][exposure] = {}
        if photons in group.keys():
            raise SyntaxError('Only one set')
        group.update({photons: fnames})

''',both),
('same',F,LOAD,'''        self._lines = []
        with open(filename) as f:
            for x in f:
                x = x.strip()
                if not x or x[0] == '#':
                    continue
                self._lines.append(x)
''',both),
('same',F,LOAD,'''        with open(filename) as f:
            text = f.read()
        lines = (x.strip() for x in text.splitlines())
        self._lines = [x for x in lines if x and not x.startswith('#')]
''',both),
('same',F,"        l = [x.strip() for x in line.split()]\n        if (not l) or (len(l) < 2):","        l = line.split()\n        if len(l) < 2:",both),
('same',F,"                exposure = float(l[1].replace(',', '.'))\n                photons","                exposure = self._num(l[1])\n                photons",both) if 0 else
('same',F,["                exposure = float(l[1].replace(',', '.'))\n                photons = float(l[2].replace(',', '.'))\n","    def _split_line(self"],["                exposure, photons = (self._number(x) for x in l[1:])\n","    @staticmethod\n    def _number(text):\n        return float(text.replace(',', '.'))\n\n    def _split_line(self"],both),
('same',F,["        self._lines.reverse()\n        while self._lines:\n            # pop it such that other methods know the current processed line\n            line = self._lines.pop()","            line = self._lines.pop()\n            l = self._split_line(line)\n            if l[0] != 'i':\n","                self._lines.append(line)\n"],["        self._lines = collections.deque(self._lines)\n        while self._lines:\n            line = self._lines.popleft()","            line = self._lines.popleft()\n            l = self._split_line(line)\n            if l[0] != 'i':\n","                self._lines.appendleft(line)\n"],both) if 0 else
('same',F,"        if L == 2:\n            kind = 'temporal'\n        else:\n            kind = 'spatial'\n\n        return kind","        return 'spatial' if L > 2 else 'temporal'",both),
('same',F,"                self.format['bits'] = int(l[1])\n                self.format['width'] = int(l[2])\n                self.format['height'] = int(l[3])","                for key, value in zip(('bits', 'width', 'height'), l[1:]):\n                    self.format[key] = int(value)",both),
('same',F,"        if self._path is None:\n            self._path = os.path.dirname(filename)","        self._path = os.path.dirname(filename) if self._path is None else self._path",both),
# bugs
('bug',F,"        if photons in self.images[kind][exposure]:","        if photons and photons in self.images[kind][exposure]:",['C02']),
('bug',F,"        if L == 2:","        if L <= 3:"),
('bug',F,"                self._lines.append(line)\n                break","                break"),
('bug',F,"        if len(fnames) < 2:","        if len(fnames) < 1:",['C02']),
('bug',F,"        if len(fnames) < 2:","        if not fnames or (len(fnames) < 2 and self._lines):",['C02']),
('bug',F,"                photons = float(l[2].replace(',', '.'))","                photons = float(l[2])"),
('bug',F,"                # replace floating point representation if wring format\n                exposure = float(l[1].replace(',', '.'))","                exposure = float(l[1])"),
('bug',F,"                exposure = float(l[1].replace(',', '.'))\n                photons","                exposure = round(float(l[1].replace(',', '.')), 3)\n                photons"),
('bug',F,"                               and not x.strip().startswith('#')]","                               and '#' not in x]"),
('bug',F,"                               and not x.strip().startswith('#')]","                               and not x.startswith('#')]"),
('bug',F,"                if len(l) != 3:","                if len(l) < 3:",['C02']),
('bug',F,"                if len(l) != 2:  # pragma: no cover\n                    raise SyntaxError('Wrong format: \"%s\" should be \"d '","                if len(l) > 3:\n                    raise SyntaxError('Wrong format: \"%s\" should be \"d '",['C02']),
('bug',F,"            if len(l) != 2:  # pragma: no cover\n                raise SyntaxError('Wrong format: \"%s\" should be \"i","            if len(l) != 2 and not fnames:\n                raise SyntaxError('Wrong format: \"%s\" should be \"i",['C02']),
('bug',F,"                if self.format:","                if self.format.get('bits'):",['C02']),
('bug',F,"        self.images[kind][exposure][photons] = fnames","        self.images[kind][exposure].setdefault(photons, fnames[::-1])"),
('bug',F,"        self.images[kind].setdefault(exposure, {})","        self.images[kind][exposure] = {}"),
('bug',F,"            path = os.path.join(self._path, *npath.split('\\\\'))","            path = os.path.join(self._path, npath.split('\\\\')[-1])"),
('bug',F,"            path = os.path.join(self._path, *npath.split('\\\\'))","            path = os.path.join(self._path, *npath.rsplit('\\\\', 1))"),
('bug',F,"        if self._path is None:","        if not self._path:"),
('bug',F,"        if (not l) or (len(l) < 2):","        if not l:",['C02']),
('bug',F,"            # If line is of an unknown format, warn user.","            if l[0] == 'e':\n                self.images['spatial'].clear()\n            # unknown"),
('bug',F,"                self.version = l[1]\n","                self.version = self.version or l[1].lstrip('v')\n"),
('bug',F,"                if len(l) != 4:","                if len(l) < 4:",['C02']),
]
