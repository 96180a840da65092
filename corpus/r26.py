# Plots, report and exports: larger refactorings and bugs written from C17, C18, C26, C27, C28.
PLO = 'process/plotting.py'
REP = 'report/report.py'
ROU = 'process/routines.py'

SENS = """        xi = test.temporal['u_p'][test.index_sensitivity_min]
        xf = test.temporal['u_p'][test.index_sensitivity_max]
        yi = (test.temporal['u_y'] -
              test.temporal['u_ydark'])[test.index_sensitivity_min]
        yf = (test.temporal['u_y'] -
              test.temporal['u_ydark'])[test.index_sensitivity_max]

        ax.plot((xi, xf), (yi, yf),
"""
UYD = """        if np.mean(test.temporal['texp']) == test.temporal['texp'][0]:
            ax.plot(test.temporal['texp'],
                    test.temporal['u_ydark'],
                    'o',
                    markersize=5,
                    label='Data',
                    gid='%d:data' % test.id)
        else:
            ax.plot(test.temporal['texp'],
                    test.temporal['u_ydark'],
                    label='Data',
                    gid='%d:data' % test.id)
"""
PTCY = """        X = test.temporal['u_y'] - test.temporal['u_ydark']
        Y = test.temporal['s2_y'] - test.temporal['s2_ydark']
        ax.plot(X, Y,
                label='Data',
                gid='%d:data' % test.id)

        ax.plot(X, test.K * X,
"""
TOT = """                np.sqrt((test.sigma_d) ** 2 +
                        (test.s2q / (test.K) ** 2) +
                        ((test.QE / 100) * X) +
                        (test.DSNU1288 ** 2) +
                        (((test.PRNU1288 / 100) *
                          (test.QE / 100.) * X) ** 2)),
"""
DEV = """        X = test.temporal['u_p'][test.index_linearity_min:
                                 test.index_linearity_max + 1]
        deviation = test.linearity()['relative_deviation']
        Y = deviation[test.index_linearity_min: test.index_linearity_max + 1]
"""
PROF = """        profile = np.mean(img, axis=0)
        profile_min = np.min(img, axis=0)
        profile_max = np.max(img, axis=0)
"""
XY = """        x = np.arange(len(profile))
        if isinstance(profile, np.ma.MaskedArray):
            masks = profile.mask
            # Index lists of where there is masked constants
            index = [i for i in range(len(masks)) if not masks[i]]
            # chop out masked values
            x = x[index]
            profile = profile[index]
        return (x, profile)
"""
IMG = """        dimg = test.spatial['sum_dark'] / test.spatial['L_dark']
        bimg = test.spatial['sum'] / test.spatial['L'] - dimg
        profiles"""
PLT = """        if not plots:
            plots = EVMA1288plots

        for i, plot_cls in enumerate(plots):
            figure = plt.figure(i)
            plot = plot_cls(figure)
            for test in self.tests:
                plot.plot(test)
"""
INIT = """        self.tests = []
        for test in tests:
            if not getattr(test, 'id', False):
                test.id = id(test)
            self.tests.append(test)
"""
COPY = """        self.marketing = copy(marketing) or info_marketing()
        self.basic = copy(basic) or info_basic()
        self.setup = copy(setup) or info_setup()
"""
UP = """        def uploaded_file(fname, default):
            if fname:  # pragma: no cover
                shutil.copy(os.path.abspath(fname), upload_dir)
                v = posixpath.join(
                    'upload',
                    os.path.basename(fname))
            else:
                v = posixpath.join('files', default)
            return v
"""
WRITE = """        fname = os.path.join(self._outdir, name)
        with open(fname, 'w') as f:
            f.write(content)
        return fname
"""
PLOTS = """            fname = plt_cls.__name__ + '.pdf'
            figure.savefig(os.path.join(savedir, fname))
            names[plt_cls.__name__] = posixpath.join(id_, fname)
"""
ADD = """        n = len(self.ops) + 1
        op = copy(op)
        op['id'] = 'OP%d' % (n)
        if not op['name']:
            op['name'] = op['id']
        if not results:
            results = self._results(data)
        op['results'] = results.results_by_section
        results.id = n
        op['plots'] = self._plots(results, op['id'])
        self.ops.append(op)
"""
MISS = """            if value is None or isinstance(value, jinja2.Undefined):
                return True
            return isinstance(value, (float, np.floating)) and np.isnan(value)
"""
NUMF = """            if is_missing(value):
                return '-'
            t = '{:.%df}' % precision
            return t.format(value)
"""
RS = """    if v == 0.0:
        return 0.0
    if not np.isfinite(v):
        return v
    return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
"""
ARR = """                # if different keys, is invalid
                if (set(k1) ^ set(k2)):
                    r = False
                else:
                    # loop throught the keys
                    r = True
                    for k in k1:
                        r = np.array_equal(round_array(a1[k]),
                                           round_array(a2[k]), equal_nan=True)
                        if not r:
                            break
"""
GETV = """            if methodname not in m1:
                v1 = None
                a1 = None
            # get the value and the data
            else:
                v1 = f1[category][methodname].get('value', None)
                a1 = f1[category][methodname].get('data', None)
"""
M = [
    ('same', PLO, SENS, """        X = test.temporal['u_p']
        Y = test.temporal['u_y'] - test.temporal['u_ydark']
        ends = [test.index_sensitivity_min, test.index_sensitivity_max]
        ax.plot([X[i] for i in ends], [Y[i] for i in ends],
""", ['C26']),
    ('same', PLO, SENS, """        X = test.temporal['u_p']
        Y = test.temporal['u_y'] - test.temporal['u_ydark']
        ends = [test.index_sensitivity_min, test.index_sensitivity_max]
        ax.plot(X[ends], Y[ends],
""", ['C26']),
    ('same', PLO, UYD, """        style = {}
        args = [test.temporal['texp'], test.temporal['u_ydark']]
        if np.mean(test.temporal['texp']) == test.temporal['texp'][0]:
            args.append('o')
            style['markersize'] = 5
        ax.plot(*args, label='Data', gid='%d:data' % test.id, **style)
""", ['C26']),
    ('same', PLO, PTCY, """        t = test.temporal
        X = t['u_y'] - t['u_ydark']
        Y = t['s2_y'] - t['s2_ydark']
        ax.plot(X, Y, label='Data', gid='{}:data'.format(test.id))

        ax.plot(X, X * test.K,
""", ['C26']),
    ('same', PLO, TOT, """                np.sqrt(test.sigma_d ** 2 + test.s2q / test.K ** 2 +
                        test.QE * X / 100 + test.DSNU1288 ** 2 +
                        (test.PRNU1288 * test.QE * X / 10000) ** 2),
""", ['C26']),
    ('same', PLO, DEV, """        fit = slice(test.index_linearity_min, test.index_linearity_max + 1)
        X = test.temporal['u_p'][fit]
        Y = test.linearity()['relative_deviation'][fit]
""", ['C26']),
    ('same', PLO, PROF, """        profile, profile_min, profile_max = (
            f(img, axis=0) for f in (np.mean, np.min, np.max))
""", ['C26']),
    ('same', PLO, XY, """        x = np.arange(len(profile))
        if isinstance(profile, np.ma.MaskedArray):
            valid = ~profile.mask
            x = x[valid]
            profile = profile[valid]
        return (x, profile)
""", ['C26']),
    ('same', PLO, IMG, """        s = test.spatial
        dimg = s['sum_dark'] / s['L_dark']
        bimg = (s['sum'] - dimg * s['L']) / s['L']
        profiles""", ['C26']),
    ('same', PLO, PLT, """        for i, plot_cls in enumerate(plots or EVMA1288plots):
            figure = plt.figure(i)
            plot = plot_cls(figure)
            for test in self.tests:
                plot.plot(test)
""", ['C26']),
    ('same', PLO, INIT, """        for test in tests:
            if not getattr(test, 'id', None):
                test.id = id(test)
        self.tests = list(tests)
""", ['C26']),
    ('same', REP, COPY, """        self.marketing = dict(marketing) if marketing else info_marketing()
        self.basic = dict(basic) if basic else info_basic()
        self.setup = dict(setup) if setup else info_setup()
""", ['C28', 'C27']),
    ('same', REP, COPY, """        self.marketing = marketing.copy() if marketing else info_marketing()
        self.basic = {**(basic or info_basic())}
        self.setup = setup or info_setup()
""", ['C28', 'C27']),
    ('same', REP, UP, """        def uploaded_file(fname, default):
            if not fname:
                return 'files/' + default
            shutil.copy(os.path.abspath(fname), upload_dir)
            return 'upload/' + os.path.basename(fname)
""", ['C28', 'C27']),
    ('same', REP, WRITE, """        fname = os.path.join(self._outdir, name)
        with open(fname, 'wt') as f:
            print(content, end='', file=f)
        return fname
""", ['C28']),
    ('same', REP, PLOTS, """            name = plt_cls.__name__
            figure.savefig(os.path.join(savedir, '%s.pdf' % name))
            names[name] = '%s/%s.pdf' % (id_, name)
""", ['C28', 'C27']),
    ('same', REP, ADD, """        n = len(self.ops) + 1
        id_ = 'OP%d' % n
        results = results or self._results(data)
        results.id = n
        self.ops.append({**op,
                         'id': id_,
                         'name': op['name'] or id_,
                         'results': results.results_by_section,
                         'plots': self._plots(results, id_)})
""", ['C28', 'C27']),
    ('same', REP, MISS, """            if value is None or isinstance(value, jinja2.Undefined):
                return True
            return isinstance(value, (float, np.floating)) and value != value
""", ['C27']),
    ('same', REP, NUMF, """            return '-' if is_missing(value) else '%.*f' % (precision, value)
""", ['C27']),
    ('same', REP, """        try:
            os.makedirs(self._outdir)
        except FileExistsError:  # pragma: no cover
            pass
        print""", """        os.makedirs(self._outdir, exist_ok=True)
        print""", ['C28']),
    ('same', ROU, ARR, """                r = (set(k1) == set(k2) and
                     all(np.array_equal(round_array(a1[k]),
                                        round_array(a2[k]), equal_nan=True)
                         for k in k1))
""", ['C18']),
    ('same', ROU, GETV, """            entry = f1[category].get(methodname, {})
            v1 = entry.get('value')
            a1 = entry.get('data')
""", ['C18']),
    ('same', ROU, RS, """    if v == 0.0 or not np.isfinite(v):
        return v
    magnitude = int(np.floor(np.log10(abs(v))))
    return round(v, sig - 1 - magnitude)
""", ['C18']),
    # --- bugs -------------------------------------------------------------
    ('bug', PLO, SENS, SENS.replace("xf = test.temporal['u_p'][test.index_sensitivity_max]", "xf = test.temporal['u_p'][test.index_sensitivity_max - 1]"), ['C26']),
    ('bug', PLO, SENS, SENS.replace("""              test.temporal['u_ydark'])[test.index_sensitivity_max]""", """              test.temporal['u_ydark'][0])[test.index_sensitivity_max]"""), ['C26']),
    ('bug', PLO, UYD, UYD.replace("""        else:
            ax.plot(test.temporal['texp'],
                    test.temporal['u_ydark'],""", """        else:
            ax.plot(test.temporal['texp'],
                    np.sort(test.temporal['u_ydark']),"""), ['C26']),
    ('bug', PLO, UYD, UYD.replace("        else:\n", "        elif len(set(test.temporal['texp'])) > 2:\n"), ['C26']),
    ('bug', PLO, PTCY, PTCY.replace("test.K * X", "test.K * X + test.s2q"), ['C26']),
    ('bug', PLO, TOT, TOT.replace("(test.QE / 100.) * X) ** 2", "X) ** 2"), ['C26']),
    ('bug', PLO, TOT, TOT.replace("test.DSNU1288 ** 2", "test.DSNU1288"), ['C26']),
    ('bug', PLO, DEV, DEV.replace("test.index_linearity_max + 1]\n        deviation", "test.index_linearity_max]\n        deviation"), ['C26']),
    ('bug', PLO, DEV, DEV.replace("'relative_deviation'", "'linearity_error'"), ['C26']),
    ('bug', PLO, PROF, PROF.replace("profile_min = np.min", "profile_min = np.median"), ['C26']),
    ('bug', PLO, XY, XY.replace("            x = x[index]\n", "            x = x[:len(index)]\n"), ['C26']),
    ('bug', PLO, IMG, IMG.replace("test.spatial['L_dark']", "test.spatial['L']"), ['C26']),
    ('bug', PLO, PLT, PLT.replace("for test in self.tests:", "for test in self.tests[:i + 1]:"), ['C26']),
    ('bug', PLO, PLT, PLT.replace("figure = plt.figure(i)\n            plot = plot_cls(figure)\n            for test in self.tests:\n", "figure = plt.figure(i)\n            for test in self.tests:\n                plot = plot_cls(figure)\n"), ['C26']),
    ('bug', PLO, INIT, INIT.replace("                test.id = id(test)\n            self.tests.append(test)", "                test.id = id(test)\n                self.tests.append(test)"), ['C26']),
    ('bug', PLO, "        spectrogram = routines.FFT1288(data, rotate=True) / data_mean\n", "        spectrogram = routines.FFT1288(data) / data_mean\n", ['C26']),
    ('bug', PLO, "                        (test.s2q / (test.K) ** 2) +\n                        ((test.QE / 100) * X)),\n", "                        (test.s2q / (test.K)) +\n                        ((test.QE / 100) * X)),\n", ['C26']),
    ('bug', PLO, "        nz = np.nonzero(test.temporal['s2_y'])\n", "        nz = np.nonzero(test.temporal['s2_ydark'])\n", ['C26']),
    ('bug', PLO, "            img = np.transpose(image)\n", "            img = image[::-1]\n", ['C26']),
    ('bug', REP, COPY, COPY.replace("copy(basic) or", "basic or"), ['C28']),
    ('bug', REP, COPY, COPY.replace("copy(marketing) or info_marketing()", "info_marketing(**(marketing or {}))").replace("copy(basic)", "copy(setup)"), ['C28', 'C27']),
    ('bug', REP, UP, UP.replace("os.path.basename(fname))", "fname)"), ['C28']),
    ('bug', REP, UP, UP.replace("shutil.copy(os.path.abspath(fname), upload_dir)", "shutil.move(os.path.abspath(fname), upload_dir)"), ['C28']),
    ('bug', REP, WRITE, WRITE.replace("'w'", "'a'"), ['C28']),
    ('bug', REP, WRITE, WRITE.replace("os.path.join(self._outdir, name)", "os.path.join(os.getcwd(), name)"), ['C28']),
    ('bug', REP, PLOTS, PLOTS.replace("os.path.join(savedir, fname)", "os.path.join(self._outdir, fname)"), ['C28']),
    ('bug', REP, PLOTS, PLOTS.replace("posixpath.join(id_, fname)", "os.path.join(savedir, plt_cls.name)"), ['C28']),
    ('bug', REP, ADD, ADD.replace("        n = len(self.ops) + 1\n", "        n = len(set(o['name'] for o in self.ops)) + 1\n"), ['C28']),
    ('bug', REP, ADD, ADD.replace("        op = copy(op)\n", ""), ['C28']),
    ('bug', REP, ADD, ADD.replace("        if not results:\n            results = self._results(data)\n", "        results = self._results(data)\n"), ['C28']),
    ('bug', REP, ADD, ADD.replace("        op['id'] = 'OP%d' % (n)\n", "        op['id'] = op['id'] or 'OP%d' % (n)\n"), ['C28']),
    ('bug', REP, MISS, MISS.replace("(float, np.floating)", "float"), ['C27']),
    ('bug', REP, MISS, "            return not value\n", ['C27']),
    ('bug', REP, NUMF, NUMF.replace("'{:.%df}' % precision", "'{:.%dg}' % precision"), ['C27']),
    ('bug', REP, "        self._write_file('emvadatasheet.sty', self._stylesheet())\n", "        if not os.path.exists(os.path.join(self._outdir,\n                                           'emvadatasheet.sty')):\n            self._write_file('emvadatasheet.sty', self._stylesheet())\n", ['C28']),
    ('bug', ROU, ARR, ARR.replace("                        if not r:\n                            break\n", ""), ['C18']),
    ('bug', ROU, ARR, ARR.replace("set(k1) ^ set(k2)", "set(k1) - set(k2)"), ['C18']),
    ('bug', ROU, ARR, ARR.replace("round_array(a2[k]), equal_nan=True)", "round_array(a2[k]))"), ['C18']),
    ('bug', ROU, GETV, GETV.replace(".get('data', None)", ".get('value', None)"), ['C18']),
    ('bug', ROU, RS, RS.replace("np.abs(v)", "v"), ['C18']),
    ('bug', ROU, RS, RS.replace("np.floor(", "np.ceil("), ['C18']),
    ('bug', ROU, "    categories = set(c1) | set(c2)\n", "    categories = set(c1) & set(c2) or set(c1)\n", ['C18']),
    ('bug', ROU, "                     a1 is None and a2 is None)\n", "                     a1 is None)\n", ['C18']),
]
