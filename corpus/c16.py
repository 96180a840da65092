R = 'process/results.py'
F = 'process/routines.py'
D = 'process/data.py'
P = 'process/plotting.py'
LIN = """        Y = self.temporal['u_y'] - self.temporal['u_ydark']
        X = self.temporal['u_p']

        # The maximum index"""
IYS = """        if self._index_u_ysat:
            return self._index_u_ysat

        max_ = 0"""
GC = """        # For prnu, perform the convolution
        y, scale = self._prnu_image()
        # Applying the filter"""
PI = """        y = (self.spatial['sum'] * (scale // L) -
             self.spatial['sum_dark'] * (scale // L_dark))
        return y, scale"""
KX = """        X = self.temporal['u_y'] - self.temporal['u_ydark']
        Y = self.temporal['s2_y'] - self.temporal['s2_ydark']

        val,"""
M = [
    # behaviour kept
    ('same', R, """        self._index_u_ysat = max_i
        return self._index_u_ysat
""", """        self._index_u_ysat = max_i
        return max_i
"""),
    ('same', R, """        self._index_u_ysat = max_i
        return self._index_u_ysat
""", """        return max_i
"""),
    ('same', R, PI, """        y = self.spatial['sum'] * (scale // L)
        y -= self.spatial['sum_dark'] * (scale // L_dark)
        return y, scale"""),
    ('same', R, LIN, """        Y = self.temporal['u_y'].copy()
        Y = Y - self.temporal['u_ydark']
        X = self.temporal['u_p']

        # The maximum index"""),
    ('same', R, """        y = self.spatial['sum_dark']

        h =""", """        y = self.spatial['sum_dark'].copy()

        h ="""),
    ('same', D, "            photons = sorted(data[t].keys())\n", "            photons = list(data[t])\n            photons.sort()\n"),
    ('same', D, "        exposures = np.asarray(sorted(data.keys()))\n", "        exposures = np.asarray(sorted(data))\n"),
    ('same', R, "        return 100.0 * self.R / self.K\n", "        q = 100.0 * self.R\n        q /= self.K\n        return q\n"),
    ('same', R, "        return self._index_sensitivity_min\n", "        m = self._index_sensitivity_min\n        self._index_sensitivity_min = m\n        return m\n"),
    ('same', R, """        return self.linearity()['linearity_error_min']
""", """        if getattr(self, '_lin', None) is None:
            self._lin = self.linearity()
        return self._lin['linearity_error_min']
"""),
    ('same', R, """        return 100.0 * self.R / self.K
""", """        if not hasattr(self, '_qe'):
            self._qe = 100.0 * self.R / self.K
        return self._qe
"""),
    ('same', R, """        self.pixel_area = pixel_area
""", """        self.pixel_area = pixel_area
        self._cache = {}
""" ),
    ('same', R, """        self._histogram_Qmax = 256  # Maximum number of bins in histograms
""", """        self._histogram_Qmax = 256  # Maximum number of bins in histograms
        self.temporal = dict(self.temporal)
"""),
    ('same', P, "        for typ, color in (('mid', 'green'),", "        labels = list(labels)\n        for typ, color in (('mid', 'green'),"),
    # in place
    ('bug', R, LIN, """        Y = self.temporal['u_y']
        Y -= self.temporal['u_ydark']
        X = self.temporal['u_p']

        # The maximum index"""),
    ('bug', R, PI, """        y = self.spatial['sum']
        y *= scale // L
        y -= self.spatial['sum_dark'] * (scale // L_dark)
        return y, scale"""),
    ('bug', R, PI, """        y = np.asarray(self.spatial['sum'])
        y -= self.spatial['sum_dark'] * (scale // L_dark)
        return y, scale"""),
    ('bug', R, PI, """        y = np.subtract(self.spatial['sum'] * (scale // L),
                        self.spatial['sum_dark'] * (scale // L_dark),
                        out=self.spatial['sum'])
        return y, scale"""),
    ('bug', R, KX, """        X = self.temporal['u_y'] - self.temporal['u_ydark']
        Y = self.temporal['s2_y']
        Y[:] = Y - self.temporal['s2_ydark']

        val,"""),
    ('bug', F, "    y = np.ma.compressed(img)\n\n    ymin = np.min(y)", "    y = img.ravel()\n    y.sort()\n\n    ymin = np.min(y)"),
    ('bug', F, "    y = np.ma.compressed(img)\n\n    ymin = np.min(y)", "    img -= np.min(img)\n    y = np.ma.compressed(img)\n\n    ymin = np.min(y)"),
    ('same', F, "        img = img.filled(0)\n        img = convolve(img, kernel)", "        img[mask] = 0\n        img = convolve(img, kernel)"),
    ('same', F, "        img = convolve(img, kernel)[sl:-sl, sl:-sl]", "        img = convolve(img, kernel, output=img)[sl:-sl, sl:-sl]"),
    ('bug', R, """        y = np.abs(y - int(np.mean(y)))

        h = routines.Histogram1288(y, self._histogram_Qmax)
        # Rescale the bins
        h['bins'] /= (self""", """        y -= int(np.mean(y))
        y = np.abs(y)

        h = routines.Histogram1288(y, self._histogram_Qmax)
        # Rescale the bins
        h['bins'] /= (self"""),
    ('bug', R, """        y = np.abs(y - int(np.mean(y)))

        h = routines.Histogram1288(y, self._histogram_Qmax)
        # Rescale the bins
        h['bins'] /= (self""", """        y = np.abs(y - int(np.mean(y)), out=y)

        h = routines.Histogram1288(y, self._histogram_Qmax)
        # Rescale the bins
        h['bins'] /= (self"""),
    ('bug', R, "        m = 0.7 * (Y[self.index_u_ysat])\n        return max", "        Y.sort()\n        self.temporal['u_y'] = Y + self.temporal['u_ydark']\n        m = 0.7 * (Y[self.index_u_ysat])\n        return max"),
    ('bug', R, "        s2_y = self.temporal['s2_y']\n        for i in", "        s2_y = self.temporal['s2_y']\n        s2_y[np.isnan(s2_y)] = 0\n        for i in"),
    ('bug', R, "            s2_ydark = self.temporal['s2_ydark'][0]\n", "            self.temporal['texp'].sort()\n            s2_ydark = self.temporal['s2_ydark'][0]\n"),
    # caches
    ('bug', R, """        return self.linearity()['linearity_error_min']
""", """        lin = self.linearity()
        self._index_u_ysat = int(np.argmax(lin['relative_deviation']))
        return lin['linearity_error_min']
"""),
    ('bug', R, "        self._index_u_ysat = max_i\n        return self._index_u_ysat\n", "        self._index_u_ysat = max_i - 1\n        return max_i\n"),
    ('bug', R, "        return self._index_sensitivity_min\n", "        self._index_sensitivity_min += 1\n        return self._index_sensitivity_min - 1\n"),
    ('bug', R, """        return 100.0 * self.R / self.K
""", """        if not hasattr(self, '_qe'):
            self._qe = self.R / self.K
            return 100.0 * self._qe
        return self._qe
"""),
    ('bug', R, """        return self._s2q
""", """        self._s2q = 1.0 / 12.0 if self._index_u_ysat else 0.0
        return 1.0 / 12.0
"""),
    ('bug', R, ["class Results1288(object):\n", IYS, "        self._index_u_ysat = max_i\n"],
     ["_YSAT = {}\n\n\nclass Results1288(object):\n", """        key = len(self.temporal['s2_y'])
        if key in _YSAT and not self._index_u_ysat:
            return _YSAT[key]
""" + IYS, "        self._index_u_ysat = max_i\n        _YSAT[key] = max_i\n"]),
    ('same', R, ["class Results1288(object):\n", "        self._index_u_ysat = max_i\n"],
     ["_YSAT = {}\n\n\nclass Results1288(object):\n", "        self._index_u_ysat = max_i\n        _YSAT['last'] = max_i\n"]),
    ('bug', R, ["    def _prnu_image(self):\n", PI], ["    def _prnu_image(self, _c={}):\n        if 'y' in _c:\n            return _c['y']\n", PI.replace("return y, scale", "_c['y'] = (y, scale)\n        return y, scale")]),
    ('same', R, ["    def _prnu_image(self):\n", PI], ["    def _prnu_image(self):\n        if hasattr(self, '_pi'):\n            return self._pi\n", PI.replace("return y, scale", "self._pi = (y, scale)\n        return y, scale")]),
    ('bug', R, ["    def _prnu_image(self):\n", PI, "        data = routines.high_pass_filter(y, 5)\n"], ["    def _prnu_image(self):\n        if hasattr(self, '_pi'):\n            return self._pi\n", PI.replace("return y, scale", "self._pi = (y, scale)\n        return y, scale"), "        y -= 1\n        data = routines.high_pass_filter(y, 5)\n"]),
    ('bug', F, """    d = cls_1288_info(obj.__class__)
    for attribute in d.keys():""", """    d = cls_1288_info(obj.__class__)
    obj._histogram_Qmax = len(d)
    for attribute in d.keys():"""),
    ('bug', R, """        self._histogram_Qmax = 256  # Maximum number of bins in histograms
""", """        self._histogram_Qmax = 256  # Maximum number of bins in histograms
        self.temporal['u_y'] -= self.temporal['u_ydark'] * 0
"""),
    ('bug', R, """        results = self.results_by_section
        if not filename:""", """        self.temporal.pop('texp')
        results = self.results_by_section
        if not filename:"""),
    # Data1288
    ('bug', D, "        photons = sorted(data[exposure].keys())\n", "        photons = sorted(data[exposure].keys())\n        data[exposure].setdefault(0.0, None)\n"),
    ('bug', D, "            d = self._get_temporal_data(data[t][0.0])\n", "            d = self._get_temporal_data(data[t].pop(0.0))\n"),
    ('bug', D, "        sum_ = d['sum'].astype(np.int64)  # y[l] sum from eqn(33)\n", "        sum_ = d['sum'].astype(np.int64, copy=False)\n        sum_ *= 1\n"),
    ('bug', D, "        dmean_ = np.square(d['dmean']) / 2\n", "        d['dmean'] = np.square(d['dmean']) / 2\n        dmean_ = d['dmean']\n"),
    ('bug', D, "        exposure = list(data.keys())[0]\n", "        exposure = list(data.keys())[0]\n        data[float(exposure)] = data.pop(exposure)\n"),
    # plots
    ('bug', P, "        X = test.temporal['u_p']\n        Y = test.temporal['u_y'] - test.temporal['u_ydark']\n", "        X = test.temporal['u_p']\n        Y = test.temporal['u_y']\n        Y -= test.temporal['u_ydark']\n"),
    ('bug', P, "        dimg = test.spatial['sum_dark'] / test.spatial['L_dark']\n        bimg = test.spatial['sum'] / test.spatial['L'] - dimg\n", "        dimg = test.spatial['sum_dark']\n        dimg //= test.spatial['L_dark']\n        bimg = test.spatial['sum'] / test.spatial['L'] - dimg\n"),
    ('bug', P, "        nz = np.nonzero(test.temporal['s2_y'])\n", "        test.temporal['s2_y'][test.temporal['s2_y'] < 0] = 0\n        nz = np.nonzero(test.temporal['s2_y'])\n"),
    ('bug', P, "        X = test.temporal['u_y'] - test.temporal['u_ydark']\n        Y = test.temporal['s2_y'] - test.temporal['s2_ydark']\n", "        X = test.temporal['u_y'] - test.temporal['u_ydark']\n        Y = test.temporal['s2_y'] - test.temporal['s2_ydark']\n        test._index_u_ysat = int(np.argmax(Y))\n"),
    ('bug', P, "        xi = test.temporal['u_p'][test.index_sensitivity_min]\n        xf", "        test.temporal['u_p'].sort()\n        xi = test.temporal['u_p'][test.index_sensitivity_min]\n        xf"),
]
M = [(m[0], m[1], m[2], m[3], ['C16']) for m in M]
