"""data.py: refactorings and bugs of C05-C07"""
D = 'process/data.py'
DD = ['C05', 'C06', 'C07', 'C16', 'C29']
LOOP = """            for p in photons[1:]:
                # For each photon count, get the data
                u_p.append(p)
                d = self._get_temporal_data(data[t][p])
                u_y.append(d['mean'])
                s2_y.append(d['var'] - d['dmean'])
"""
DARK = """            d = self._get_temporal_data(data[t][0.0])
            u_ydark.append(d['mean'])
            s2_ydark.append(d['var'] - d['dmean'])
"""
ONE = """            v = temporal['texp'][0]
            temporal['texp'] = np.asarray([v for _i in range(l)])

            v = temporal['u_ydark'][0]
            temporal['u_ydark'] = np.asarray([v for _i in range(l)])

            v = temporal['s2_ydark'][0]
            temporal['s2_ydark'] = np.asarray([v for _i in range(l)])
"""
CONV = """        mean_ = d['sum'] / (2.0 * self.pixels)
        var_ = d['pvar'] / (4.0 * self.pixels)
        dmean_ = np.square(d['dmean']) / 2
        return {'mean': mean_, 'var': var_, 'dmean': dmean_}
"""
APP = """        temporal['u_p'] = np.asarray(u_p)
        temporal['u_y'] = np.asarray(u_y)
        temporal['s2_y'] = np.asarray(s2_y)
        temporal['u_ydark'] = np.asarray(u_ydark)
        temporal['s2_ydark'] = np.asarray(s2_ydark)
"""
LISTS = """        u_p = []
        u_y = []
        s2_y = []
        u_ydark = []
        s2_ydark = []
"""
SP = """        # get dark spatial data
        d = self._get_spatial_data(data[exposure][0.0], postfix='_dark')
        spatial.update(d)

        # Photon count for bright spatial
        bphoton = photons[1]
        d = self._get_spatial_data(data[exposure][bphoton])
        spatial['u_p'] = bphoton
        spatial.update(d)
"""
AVG = """        avg_ = sum_ / (1.0 * L)          # <y>
        avg = avg_.mean()                # u_y
        avg_row = np.mean(avg_, axis=0)  # u_y[n]
        avg_col = np.mean(avg_, axis=1)  # u_y[m]

        var_ = pvar_ / (1.0 * np.square(L) * (L - 1))
        var_mean = var_.mean()
"""
CAV = "        s_2_y_cav = 1 / N * np.sum(np.square(avg_row - avg)) - var_mean / (L * M)\n        s_2_y_rav = 1 / M * np.sum(np.square(avg_col - avg)) - var_mean / (L * N)\n"
CHECK = """            if 0.0 not in photons:
                raise ValueError('Every exposure point must have a 0.0 photon')

            if len(photons) < 2:
                raise ValueError('There must be at least one bright photon')
"""
RET = """        return {'sum' + postfix: sum_,
                'var_mean' + postfix: var_mean,  # sigma_2_y(_stack)
                'L' + postfix: L,                # int -> number of images
                'M' + postfix: M,                # int -> image rows
                'N' + postfix: N,                # int -> image columns
                'avg_var' + postfix: avg_var,    # s_2_y_measured
                'avg_mean' + postfix: avg,       # u_y
                'avg_var_cav' + postfix: s_2_y_cav,
                'avg_var_rav' + postfix: s_2_y_rav,
                }
"""
M = [
 ('same', D, [DARK, LOOP], ["            points = [(p, self._get_temporal_data(data[t][p])) for p in photons]\n            _, d = points[0]\n            u_ydark.append(d['mean'])\n            s2_ydark.append(d['var'] - d['dmean'])\n",
   "            for p, d in points[1:]:\n                u_p.append(p)\n                u_y.append(d['mean'])\n                s2_y.append(d['var'] - d['dmean'])\n"], DD),
 ('same', D, LOOP, "            for p in photons:\n                if p == 0.0:\n                    continue\n                u_p.append(p)\n                d = self._get_temporal_data(data[t][p])\n                u_y.append(d['mean'])\n                s2_y.append(d['var'] - d['dmean'])\n", DD),
 ('bug', D, LOOP, "            for p in photons[1:]:\n                u_p.append(p)\n                d = self._get_temporal_data(data[exposures[0]].get(p, data[t][p]))\n                u_y.append(d['mean'])\n                s2_y.append(d['var'] - d['dmean'])\n", ['C06']),
 ('bug', D, LOOP, LOOP.replace("photons[1:]", "photons[1:2]"), ['C06']),
 ('bug', D, LOOP, LOOP.replace("                u_p.append(p)\n", "                if p in u_p:\n                    continue\n                u_p.append(p)\n"), ['C06']),
 ('bug', D, LOOP, LOOP.replace("d['var'] - d['dmean']", "max(d['var'] - d['dmean'], 0)"), ['C06']),
 ('same', D, LOOP, "            bright = [self._get_temporal_data(data[t][p]) for p in photons[1:]]\n            u_p.extend(photons[1:])\n            u_y.extend(b['mean'] for b in bright)\n            s2_y.extend(b['var'] - b['dmean'] for b in bright)\n", DD),
 ('same', D, LOOP, "            u_p += photons[1:]\n            for p in photons[1:]:\n                d = self._get_temporal_data(data[t][p])\n                u_y += [d['mean']]\n                s2_y += [d['var'] - d['dmean']]\n", DD),
 ('same', D, ONE, "            for key in ('texp', 'u_ydark', 's2_ydark'):\n                temporal[key] = np.repeat(temporal[key], l)\n", DD),
 ('same', D, ONE, "            for key in ('texp', 'u_ydark', 's2_ydark'):\n                temporal[key] = np.full(l, temporal[key][0])\n", DD),
 ('same', D, ONE, "            for key in ['texp', 'u_ydark', 's2_ydark']:\n                temporal[key] = np.ones(l) * temporal[key][0]\n", DD),
 ('same', D, ONE, "            for key in ['texp', 'u_ydark', 's2_ydark']:\n                temporal[key] = np.array([temporal[key][0]] * l)\n", DD),
 ('bug', D, ONE, "            for key in ['texp', 'u_ydark']:\n                temporal[key] = np.array([temporal[key][0]] * l)\n", ['C06']),
 ('bug', D, ONE, ONE.replace("v = temporal['s2_ydark'][0]", "v = temporal['s2_y'][0]"), ['C06']),
 ('bug', D, "        if len(exposures) == 1:\n", "        if len(exposures) < len(u_p):\n", ['C06']),
 ('same', D, CONV, "        n = self.pixels\n        mean = d['sum'] / (2. * n)\n        var = d['pvar'] / (4. * n)\n        return dict(mean=mean, var=var, dmean=0.5 * d['dmean'] ** 2)\n", DD),
 ('bug', D, CONV, CONV.replace("np.square(d['dmean']) / 2", "np.square(d['dmean'] / 2)"), ['C06']),
 ('bug', D, CONV, CONV.replace("d['sum'] / (2.0 * self.pixels)", "d['sum'] // (2 * self.pixels)"), ['C06']),
 ('same', D, [CONV, LOOP, DARK], ["        mean_ = d['sum'] / (2.0 * self.pixels)\n        var_ = d['pvar'] / (4.0 * self.pixels)\n        return mean_, var_ - np.square(d['dmean']) / 2\n",
   LOOP.replace("d = self", "mean, var = self").replace("d['mean']", "mean").replace("d['var'] - d['dmean']", "var"), DARK.replace("d = self", "mean, var = self").replace("d['mean']", "mean").replace("d['var'] - d['dmean']", "var")], DD),
 ('same', D, APP, "        for key, values in (('u_p', u_p), ('u_y', u_y), ('s2_y', s2_y),\n                            ('u_ydark', u_ydark), ('s2_ydark', s2_ydark)):\n            temporal[key] = np.asarray(values)\n", DD),
 ('same', D, [LISTS, APP], ["        cols = {k: [] for k in ('u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark')}\n        u_p, u_y, s2_y = cols['u_p'], cols['u_y'], cols['s2_y']\n        u_ydark, s2_ydark = cols['u_ydark'], cols['s2_ydark']\n", "        temporal.update({k: np.asarray(v) for k, v in cols.items()})\n"], DD),
 ('bug', D, APP, APP.replace("np.asarray(u_p)", "np.asarray(u_p, dtype=int)"), ['C06']),
 ('bug', D, APP, APP.replace("np.asarray(u_p)", "np.round(u_p, 3)"), ['C06']),
 ('same', D, "        exposures = np.asarray(sorted(data.keys()))\n", "        exposures = np.array(sorted(data))\n", DD),
 ('same', D, "        exposures = np.asarray(sorted(data.keys()))\n", "        exposures = np.sort(list(data.keys()))\n", DD),
 ('bug', D, "        exposures = np.asarray(sorted(data.keys()))\n", "        exposures = np.asarray(list(data.keys()))\n", ['C06']),
 ('bug', D, "            photons = sorted(data[t].keys())\n\n            if 0.0 not in photons:\n                raise ValueError('Every", "            photons = list(data[t].keys())\n\n            if 0.0 not in photons:\n                raise ValueError('Every", ['C06']),
 ('same', D, CHECK, "            if 0. not in data[t]:\n                raise ValueError('Every exposure point must have a 0.0 photon')\n            if len(data[t]) < 2:\n                raise ValueError('There must be at least one bright photon')\n", DD),
 ('same', D, CHECK, "            bright = [p for p in photons if p]\n            if len(bright) == len(photons):\n                raise ValueError('Every exposure point must have a 0.0 photon')\n            if not bright:\n                raise ValueError('There must be at least one bright photon')\n", DD),
 ('bug', D, CHECK, CHECK.replace("if 0.0 not in photons", "if 0.0 not in photons and len(photons) < 2"), ['C05']),
 ('bug', D, CHECK, CHECK.replace("raise ValueError('There must be at least one bright photon')", "continue"), ['C05']),
 # spatial
 ('same', D, SP, "        bright = photons[1]\n        spatial['u_p'] = bright\n        spatial.update(self._get_spatial_data(data[exposure][0.0], '_dark'))\n        spatial.update(self._get_spatial_data(data[exposure][bright]))\n", DD),
 ('same', D, SP, "        spatial['u_p'] = photons[1]\n        for p, postfix in zip(photons, ('_dark', '')):\n            spatial.update(self._get_spatial_data(data[exposure][p], postfix))\n", DD),
 ('bug', D, SP, "        spatial['u_p'] = photons[1]\n        for p, postfix in zip(data[exposure], ('_dark', '')):\n            spatial.update(self._get_spatial_data(data[exposure][p], postfix))\n", ['C07']),
 ('same', D, "        exposure = list(data.keys())[0]\n", "        exposure, = data\n", DD),
 ('same', D, "        exposure = list(data.keys())[0]\n", "        exposure = next(iter(data))\n", DD),
 ('same', D, AVG, "        avg_ = sum_ / L          # <y>\n        avg = np.mean(avg_)\n        avg_row, avg_col = avg_.mean(axis=0), avg_.mean(axis=1)\n        var_mean = np.mean(pvar_ / (L ** 2 * (L - 1.)))\n", DD),
 ('bug', D, AVG, AVG.replace("(1.0 * np.square(L) * (L - 1))", "(1.0 * np.square(L) * L)"), ['C07']),
 ('bug', D, AVG, AVG.replace("axis=0)  # u_y[n]", "axis=1)  # u_y[n]").replace("axis=1)  # u_y[m]", "axis=0)  # u_y[m]"), ['C07']),
 ('bug', D, AVG, AVG.replace("avg = avg_.mean() ", "avg = np.median(avg_) "), ['C07']),
 ('bug', D, AVG, AVG.replace("sum_ / (1.0 * L) ", "sum_ // L "), ['C07']),
 ('same', D, CAV, "        cav = np.mean((avg_row - avg) ** 2)\n        rav = np.mean((avg_col - avg) ** 2)\n        s_2_y_cav = cav - var_mean / (L * M)\n        s_2_y_rav = rav - var_mean / (L * N)\n", ['C16', 'C29']),
 ('same', D, CAV, "        temporal = var_mean / L\n        s_2_y_cav = np.sum(np.square(avg_row - avg)) / N - temporal / M\n        s_2_y_rav = np.sum(np.square(avg_col - avg)) / M - temporal / N\n", DD),
 ('bug', D, CAV, CAV.replace("var_mean / (L * M)", "var_mean / (L * N)"), ['C07']),
 ('bug', D, CAV, "        s_2_y_cav = np.var(avg_row, ddof=1) - var_mean / (L * M)\n        s_2_y_rav = np.var(avg_col, ddof=1) - var_mean / (L * N)\n", ['C07']),
 ('bug', D, "avg_var = np.var(avg_, ddof=1)", "avg_var = np.var(avg_)", ['C07']),
 ('same', D, "avg_var = np.var(avg_, ddof=1)", "avg_var = avg_.var(ddof=1)", DD),
 ('same', D, "avg_var = np.var(avg_, ddof=1)", "avg_var = np.square(avg_ - avg).sum() / (avg_.size - 1)", ['C07']),
 ('same', D, "        sum_ = d['sum'].astype(np.int64)", "        sum_ = np.array(d['sum'], dtype=np.int64)", DD),
 ('bug', D, "        sum_ = d['sum'].astype(np.int64)", "        sum_ = d['sum'].astype(np.int32)", ['C07']),
 ('bug', D, "        L = d['L']\n", "        L = max(d['L'], 3)\n", ['C07']),
 ('same', D, RET, "        values = {'sum': sum_, 'var_mean': var_mean, 'L': L, 'M': M, 'N': N,\n                  'avg_var': avg_var, 'avg_mean': avg,\n                  'avg_var_cav': s_2_y_cav, 'avg_var_rav': s_2_y_rav}\n        return {key + postfix: value for key, value in values.items()}\n", DD),
 ('same', D, RET, "        values = dict(sum=sum_, var_mean=var_mean, L=L, M=M, N=N)\n        values['avg_var'] = avg_var\n        values['avg_mean'] = avg\n        values['avg_var_cav'] = s_2_y_cav\n        values['avg_var_rav'] = s_2_y_rav\n        return dict(('%s%s' % (k, postfix), v) for k, v in values.items())\n", DD),
 ('bug', D, "        M = self.rows\n        N = self.cols\n", "        N = self.rows\n        M = self.cols\n", ['C07']),
 ('same', D, "        M = self.rows\n        N = self.cols\n", "        M, N = self.rows, self.cols\n", DD),
 ('same', D, "        M = self.rows\n        N = self.cols\n", "        M, N = sum_.shape\n", ['C07']),
 ('same', D, "        self.pixels = pixels or data['width'] * data['height']\n        self.rows = data['height']\n        self.cols = data['width']\n", "        self.rows, self.cols = data['height'], data['width']\n        self.pixels = pixels if pixels else self.rows * self.cols\n", DD),
 ('bug', D, "        self.pixels = pixels or data['width'] * data['height']\n", "        self.pixels = data['width'] * data['height']\n", ['C06']),
]
