I=['C31']
R='process/routines.py'; P='process/parser.py'; D='camera/dataset_generator.py'; T='report/report.py'
LOAD='''    with Image.open(fname) as f:
        img = np.asarray(f.split()[0])
'''
WF='''        with open(fname, 'w') as f:
            f.write(content)
        return fname
'''
CX='''    with open(filename, 'w') as f:
        f.write(s)
        return s
'''
M=[
('same',R,LOAD,'''    f = Image.open(fname)
    try:
        img = np.asarray(f.split()[0])
    finally:
        f.close()
''',I),
('same',R,LOAD,'''    import contextlib
    with contextlib.closing(Image.open(fname)) as f:
        img = np.asarray(f.split()[0])
''',I),
('same',R,LOAD,'''    import contextlib
    with contextlib.ExitStack() as stack:
        f = stack.enter_context(Image.open(fname))
        img = np.asarray(f.split()[0])
''',I),
('same',T,WF,'''        f = None
        try:
            f = open(fname, 'w')
            f.write(content)
        finally:
            if f:
                f.close()
        return fname
''',I),
('same',T,WF,'''        with self._open(fname) as f:
            f.write(content)
        return fname

    def _open(self, fname):
        return open(fname, 'w')
''',I),
('same',R,CX,'''    f = open(filename, 'w')
    with f:
        f.write(s)
    return s
''',I),
('same',T,WF,'''        from pathlib import Path
        Path(fname).write_text(content)
        return fname
''',I),
('same',R,CX,'''    def save(f):
        try:
            f.write(s)
        finally:
            f.close()
    save(open(filename, 'w'))
    return s
''',I),
('same',R,CX,'''    try:
        f = open(filename, 'w')
    except OSError:
        raise
    try:
        f.write(s)
    except Exception:
        f.close()
        raise
    f.close()
    return s
''',I),
('bug',R,LOAD,'''    f = Image.open(fname)
    img = np.asarray(f.split()[0])
    f.close()
''',I),
('bug',R,LOAD,'''    f = Image.open(fname)
    try:
        img = np.asarray(f.split()[0])
    except OSError:
        f.close()
        raise
''',I),
('bug',R,CX,'''    f = open(filename, 'w')
    if not s:
        return s
    with f:
        f.write(s)
    return s
''',I),
('bug',R,CX,'''    f = open(filename, 'w')
    try:
        f.write(s)
    except IOError:
        return s
    f.close()
    return s
''',I),
('bug',R,CX,'''    open(filename, 'w').write(s)
    return s
''',I),
('bug',P,"            with open(filename, 'r') as f:\n","            f = open(filename, 'r')\n            if f:\n",I),
('bug',T,WF,'''        f = self._open(fname)
        f.write(content)
        return fname

    def _open(self, fname):
        return open(fname, 'w')
''',I),
('bug',T,WF,'''        f = open(fname, 'w')
        self._fill(f, content)
        return fname

    def _fill(self, f, content):
        if not content:
            return
        f.write(content)
        f.close()
''',I),
]
