F = 'report/report.py'
AB = "        self._outdir = os.path.abspath(outdir)\n"
CP = """        self.marketing = copy(marketing) or info_marketing()
        self.basic = copy(basic) or info_basic()
        self.setup = copy(setup) or info_setup()
"""
N = """        n = len(self.ops) + 1
        op = copy(op)
        op['id'] = 'OP%d' % (n)
"""
UP = """            if fname:  # pragma: no cover
                shutil.copy(os.path.abspath(fname), upload_dir)
                v = posixpath.join(
                    'upload',
                    os.path.basename(fname))
            else:
                v = posixpath.join('files', default)
            return v
"""
MK = """        try:
            os.makedirs(self._outdir)
        except FileExistsError:  # pragma: no cover
            pass
"""
UD = """        upload_dir = os.path.join(self._outdir, 'upload')
        try:
            os.makedirs(upload_dir)
        except FileExistsError:  # pragma: no cover
            pass
"""
CT = """        try:
            copytree(currfiles, files_dir)
        except FileExistsError:  # pragma: no cover
            pass
"""
PL = """        for plt_cls in EVMA1288plots:
            figure = Figure()
            _canvas = FigureCanvas(figure)
            plot = plt_cls(figure)
            plot.plot(results)
            plot.rearrange()
            fname = plt_cls.__name__ + '.pdf'
            figure.savefig(os.path.join(savedir, fname))
            names[plt_cls.__name__] = posixpath.join(id_, fname)
        return names
"""
WF = """        fname = os.path.join(self._outdir, name)
        with open(fname, 'w') as f:
            f.write(content)
        return fname
"""
SD = """        savedir = os.path.join(self._outdir, id_)
        try:
            os.mkdir(savedir)
        except FileExistsError:  # pragma: no cover
            pass
"""
M = [
    ('same', F, MK, "        os.makedirs(self._outdir, exist_ok=True)\n"),
    ('same', F, UD, "        upload_dir = os.path.join(self._outdir, 'upload')\n        os.makedirs(upload_dir, exist_ok=True)\n"),
    ('same', F, CT, "        copytree(currfiles, files_dir, dirs_exist_ok=True)\n"),
    ('same', F, CT, "        if not os.path.exists(files_dir):\n            copytree(currfiles, files_dir)\n"),
    ('same', F, SD, "        savedir = os.path.join(self._outdir, id_)\n        os.makedirs(savedir, exist_ok=True)\n"),
    ('same', F, SD, "        savedir = os.path.join(self._outdir, id_)\n        if not os.path.isdir(savedir):\n            os.mkdir(savedir)\n"),
    ('same', F, CP, """        self.marketing = dict(marketing) if marketing else info_marketing()
        self.basic = dict(basic) if basic else info_basic()
        self.setup = copy(setup) if setup else info_setup()
"""),
    ('same', F, CP, """        self.marketing = dict(marketing or info_marketing())
        self.basic = dict(basic or info_basic())
        self.setup = copy(setup or info_setup())
"""),
    ('same', F, N, """        n = 1 + len(self.ops)
        op = dict(op)
        op['id'] = 'OP' + str(n)
"""),
    ('same', F, N, """        n = len(self.ops) + 1
        op = dict(op, id='OP{}'.format(n))
"""),
    ('same', F, UP, """            if not fname:
                return 'files/' + default
            target = os.path.join(upload_dir, os.path.basename(fname))
            shutil.copyfile(os.path.abspath(fname), target)
            return 'upload/%s' % os.path.basename(fname)
"""),
    ('same', F, PL, """        for plt_cls in EVMA1288plots:
            name = plt_cls.__name__
            figure = Figure()
            FigureCanvas(figure)
            plot = plt_cls(figure)
            plot.plot(results)
            plot.rearrange()
            names[name] = '%s/%s.pdf' % (id_, name)
            figure.savefig(os.path.join(self._outdir, id_, name + '.pdf'))
        return names
"""),
    ('same', F, PL, """        return {c.__name__: self._plot(c, results, savedir, id_) for c in EVMA1288plots}

    def _plot(self, plt_cls, results, savedir, id_):
        figure = Figure()
        _canvas = FigureCanvas(figure)
        plot = plt_cls(figure)
        plot.plot(results)
        plot.rearrange()
        fname = plt_cls.__name__ + '.pdf'
        plot.figure.savefig(os.path.join(savedir, fname))
        return posixpath.join(id_, fname)
"""),
    ('same', F, WF, """        fname = os.path.join(self._outdir, name)
        f = open(fname, mode='w')
        f.write(content)
        f.close()
        return fname
"""),
    ('same', F, "        self._write_file('emvadatasheet.sty', self._stylesheet())\n        self._write_file('report.tex', self._report())\n", """        for name, make in (('report.tex', self._report), ('emvadatasheet.sty', self._stylesheet)):
            self._write_file(name, make())
"""),
    ('same', F, "        self.ops.append(op)", "        self.ops = self.ops + [op]"),
    ('same', F, AB + """
        self.renderer = self.template_renderer()
        self.ops = []
""", """        self.ops = list()
        self.renderer = self.template_renderer()
""" + AB),
    # bugs
    ('bug', F, CP, """        self.marketing = marketing or info_marketing()
        self.basic = basic or info_basic()
        self.setup = setup or info_setup()
"""),
    ('bug', F, "        self.basic = copy(basic) or info_basic()\n", "        self.basic = basic or info_basic()\n"),
    ('bug', F, "        op = copy(op)\n", ""),
    ('bug', F, N, """        n = op['id'] or len(self.ops) + 1
        op = copy(op)
        op['id'] = 'OP%s' % (n)
"""),
    ('bug', F, "        n = len(self.ops) + 1\n", "        n = len(self.ops)\n"),
    ('bug', F, "        op['id'] = 'OP%d' % (n)\n", "        op['id'] = 'OP%d' % (n % 10)\n"),
    ('bug', F, "        op['id'] = 'OP%d' % (n)\n", "        op['id'] = op['name'] or 'OP%d' % (n)\n"),
    ('bug', F, "        self._write_file('report.tex', self._report())\n", "        self._write_file('../report.tex', self._report())\n"),
    ('bug', F, "        fname = os.path.join(self._outdir, name)\n", "        fname = os.path.abspath(name)\n"),
    ('bug', F, "        savedir = os.path.join(self._outdir, id_)\n", "        savedir = os.path.join(self._outdir, 'OP')\n"),
    ('bug', F, "            fname = plt_cls.__name__ + '.pdf'\n", "            fname = plt_cls.__name__[:10] + '.pdf'\n"),
    ('bug', F, "            figure.savefig(os.path.join(savedir, fname))\n", "            figure.savefig(os.path.join(savedir, fname.lower()))\n"),
    ('bug', F, "                    os.path.basename(fname))\n", "                    fname)\n"),
    ('bug', F, "                shutil.copy(os.path.abspath(fname), upload_dir)\n", "                shutil.move(os.path.abspath(fname), upload_dir)\n"),
    ('bug', F, "                shutil.copy(os.path.abspath(fname), upload_dir)\n", "                shutil.copy(os.path.abspath(fname), files_dir)\n"),
    ('bug', F, MK, "        os.makedirs(self._outdir)\n"),
    ('bug', F, "        except FileExistsError:  # pragma: no cover\n            pass\n        print", "        except PermissionError:  # pragma: no cover\n            pass\n        print"),
    ('bug', F, CT, "        copytree(currfiles, files_dir)\n"),
    ('bug', F, CT, "        shutil.rmtree(self._outdir, ignore_errors=True)\n        copytree(currfiles, files_dir)\n"),
    ('bug', F, UD, "        upload_dir = os.path.join(self._outdir, 'upload')\n"),
    ('bug', F, "        upload_dir = os.path.join(self._outdir, 'upload')\n", "        upload_dir = os.path.abspath('upload')\n"),
    ('bug', F, "                                               'missinglogo.pdf')", "                                               'nologo.pdf')"),
    ('bug', F, "        self.marketing['missingplot'] = uploaded_file(\n            self.marketing['missingplot'],\n", "        self.marketing['missingplot'] = uploaded_file(\n            self.marketing['logo'],\n"),
    ('bug', F, "    def __init__(self,\n                 outdir,", "    ops = []\n\n    def __init__(self,\n                 outdir,", ['C28']),
    ('bug', F, ["    def __init__(self,\n                 outdir,", "        self.ops = []\n"], ["    ops = []\n\n    def __init__(self,\n                 outdir,", ""]),
    ('bug', F, "            plot.rearrange()\n", ""),
    ('bug', F, PL, """        figure = Figure()
        _canvas = FigureCanvas(figure)
        for plt_cls in EVMA1288plots:
            plot = plt_cls(figure)
            plot.plot(results)
            plot.rearrange()
            fname = plt_cls.__name__ + '.pdf'
            figure.savefig(os.path.join(savedir, fname))
            names[plt_cls.__name__] = posixpath.join(id_, fname)
        return names
"""),
    ('bug', F, "        for plt_cls in EVMA1288plots:\n", "        for plt_cls in EVMA1288plots[:-1]:\n"),
    ('bug', F, "        self.ops.append(op)", "        self.ops.insert(0, op)"),
    ('bug', F, "        with open(fname, 'w') as f:", "        with open(fname, 'a') as f:"),
    ('bug', F, "                             setup=self.setup,\n", "                             setup=info_setup(),\n"),
    ('bug', F, "                             operation_points=self.ops,\n", "                             operation_points=self.ops[:1],\n"),
    ('bug', F, "        if not op['name']:\n            op['name'] = op['id']\n", "        op['name'] = op['id']\n"),
    ('bug', F, "        if not op['name']:\n            op['name'] = op['id']\n", ""),
    ('bug', F, "        op['plots'] = self._plots(results, op['id'])\n", "        op['plots'] = self._plots(results, op['name'])\n"),
    ('bug', F, "_CURRDIR = os.path.abspath(os.path.dirname(__file__))\n", "_CURRDIR = os.path.abspath('.')\n"),
    ('bug', F, "        op['results'] = results.results_by_section\n", "        op['results'] = results.results_by_section\n        op['camera_settings']['op'] = n\n"),
]
# an attribute of the class that the constructor hides changes nothing
M = [m for m in M if not (len(m) > 4 and 'ops = []' in m[3])]
