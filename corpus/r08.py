"""results.py: refactorings and bugs of the quantities of C08-C13"""
P = 'process/results.py'
RR = ['C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C17']
XS = "        val, _error = routines.LinearB0(X[self.index_sensitivity_min:\n                                          self.index_sensitivity_max + 1],\n                                        Y[self.index_sensitivity_min:\n                                          self.index_sensitivity_max + 1])\n\n        return val[0]\n"
YD = "        Y = self.temporal['u_y'] - self.temporal['u_ydark']\n"
LASTINIT = "    @property\n    def s2q(self):\n"
SAT = """        max_ = 0
        max_i = 0

        # we have to loop backwards because sometimes we have some
        # noise pics that really bother the computation
        s2_y = self.temporal['s2_y']
        for i in range(len(s2_y) - 1, -1, -1):
            # Check that is not a local max
            if (s2_y[i] >= max_) or \\
               (s2_y[abs(i - 1)] >= max_):
                max_ = s2_y[i]
                max_i = i
            elif (s2_y[i] < max_) and \\
                 (s2_y[abs(i - 1)] < max_):
                break

        self._index_u_ysat = max_i
        return self._index_u_ysat
"""
SIGY = """        if len(np.unique(self.temporal['texp'])) <= 2:
            s2_ydark = self.temporal['s2_ydark'][0]
        else:
            fit, _error = routines.LinearB(self.temporal['texp'],
                                           self.temporal['s2_ydark'])
            s2_ydark = fit[1]

        # Lower limit for the temporal dark noise
        # The temporal dark noise in this range is dominated by the
        # quantization noise
        if s2_ydark < 0.24:
            s2_ydark = 0.24

        return np.sqrt(s2_ydark)
"""
UIV = """        ui = self.u_I_var_DN

        if ui is np.nan:
            return np.nan

        return ui / self.K
"""
LIN = """        X_ = X[imin: imax]
        Y_ = Y[imin: imax]
        xy = np.sum(X_ / Y_)
        xy2 = np.sum(X_ / (Y_ ** 2))
        x2y2 = np.sum((X_ / Y_) ** 2)
        _y = np.sum(1. / Y_)
        _y2 = np.sum(1. / (Y_ ** 2))
"""
COL = """        para_1 = (M * N - M) / (M * N - M - N)
        para_2 = N / (M * N - M - N)
        s_2_y_col = para_1 * self.s_2_y_cav - para_2 * (self.s_2_y - self.s_2_y_rav)

        return s_2_y_col
"""
DS = """        if self.s_2_y_row_dark < 0:
            return np.nan
        return np.sqrt(self.s_2_y_row_dark) / self.K
"""
M = [
 # --- C08
 ('same', P, [XS, XS, LASTINIT], ["        return self._slope(X, Y)\n", "        return self._slope(X, Y)\n",
   "    def _slope(self, X, Y):\n        imin, imax = self.index_sensitivity_min, self.index_sensitivity_max\n        fit = slice(imin, imax + 1)\n        val, _ = routines.LinearB0(X[fit], Y[fit])\n        return val[0]\n\n" + LASTINIT], RR + ['C16']),
 ('bug', P, [XS, XS, LASTINIT], ["        return self._slope(X, Y)\n", "        return self._slope(Y, X)\n",
   "    def _slope(self, X, Y):\n        imin, imax = self.index_sensitivity_min, self.index_sensitivity_max\n        fit = slice(imin, imax + 1)\n        val, _ = routines.LinearB0(X[fit], Y[fit])\n        return val[0]\n\n" + LASTINIT], ['C08']),
 ('bug', P, [XS, XS, LASTINIT], ["        return self._slope(X, Y)\n", "        return self._slope(X, Y)\n",
   "    def _slope(self, X, Y):\n        imin, imax = self.index_sensitivity_min, self.index_sensitivity_max\n        val, _ = routines.LinearB0(X[imin:imax], Y[imin:imax])\n        return val[0]\n\n" + LASTINIT], ['C08']),
 ('same', P, XS, "        i0, i1 = self.index_sensitivity_min, self.index_sensitivity_max + 1\n        X, Y = X[i0:i1], Y[i0:i1]\n        (slope,), _err = routines.LinearB0(X, Y)\n        return slope\n", RR),
 ('same', P, XS, "        i0, i1 = self.index_sensitivity_min, self.index_sensitivity_max + 1\n        X, Y = X[i0:i1], Y[i0:i1]\n        return np.sum(X * Y) / np.sum(X ** 2)\n", RR),
 ('same', P, XS, "        i0, i1 = self.index_sensitivity_min, self.index_sensitivity_max + 1\n        X, Y = X[i0:i1], Y[i0:i1]\n        return np.dot(X, Y) / np.dot(X, X)\n", RR),
 ('bug', P, XS, "        i0, i1 = self.index_sensitivity_min, self.index_sensitivity_max + 1\n        X, Y = X[i0:i1], Y[i0:i1]\n        return np.mean(Y / X)\n", ['C08']),
 ('bug', P, XS, "        i0, i1 = self.index_sensitivity_min, self.index_sensitivity_max + 1\n        X, Y = X[i0:i1], Y[i0:i1]\n        return np.polyfit(X, Y, 1)[0]\n", ['C08']),
 ('same', P, "        return 100.0 * self.R / self.K\n", "        responsivity, gain = self.R, self.K\n        return responsivity / gain * 100\n", RR),
 ('same', P, "        return 1. / self.K\n", "        return self.K ** -1\n", RR),
 ('same', P, "        return 1. / self.K\n", "        return np.reciprocal(self.K)\n", RR),
 ('bug', P, "        return 1. / self.K\n", "        return 1 // self.K\n", ['C08']),
 # --- C09
 ('same', P, SAT, """        s2_y = self.temporal['s2_y']
        peak, position = 0, 0
        i = len(s2_y) - 1
        # backwards, the last points may be noisy
        while i >= 0:
            if s2_y[i] < peak and s2_y[abs(i - 1)] < peak:
                break
            peak, position = s2_y[i], i
            i -= 1

        self._index_u_ysat = position
        return position
""", RR),
 ('same', P, SAT, """        max_, max_i = 0, 0
        s2_y = self.temporal['s2_y']
        for i in reversed(range(len(s2_y))):
            neighbour = s2_y[abs(i - 1)]
            if s2_y[i] >= max_ or neighbour >= max_:
                max_, max_i = s2_y[i], i
                continue
            break
        self._index_u_ysat = max_i
        return max_i
""", RR + ['C16']),
 ('bug', P, SAT, SAT.replace("(s2_y[abs(i - 1)] >= max_):", "(s2_y[i - 1] >= max_):"), ['C09']),
 ('bug', P, SAT, SAT.replace("if (s2_y[i] >= max_)", "if (s2_y[i] > max_)"), ['C09']),
 ('bug', P, SAT, SAT.replace("range(len(s2_y) - 1, -1, -1)", "range(len(s2_y) - 1, 0, -1)"), ['C09']),
 ('bug', P, SAT, "        self._index_u_ysat = int(np.argmax(self.temporal['s2_y']))\n        return self._index_u_ysat\n", ['C09']),
 ('bug', P, SAT, "        s2_y = self.temporal['s2_y']\n        self._index_u_ysat = len(s2_y) - 1 - int(np.argmax(s2_y[::-1]))\n        return self._index_u_ysat\n", ['C09']),
 ('same', P, "        m = 0.7 * (Y[self.index_u_ysat])\n        return max(np.argwhere(Y <= m))[0]\n", "        limit = Y[self.index_u_ysat] * 0.7\n        return np.nonzero(Y <= limit)[0][-1]\n", RR),
 ('same', P, "        m = 0.7 * (Y[self.index_u_ysat])\n        return max(np.argwhere(Y <= m))[0]\n", "        saturation = Y[self.index_u_ysat]\n        return np.flatnonzero(Y <= 0.7 * saturation).max()\n", RR),
 ('same', P, "        m = 0.7 * (Y[self.index_u_ysat])\n        return max(np.argwhere(Y <= m))[0]\n", "        m = 0.7 * (Y[self.index_u_ysat])\n        below = np.where(Y <= m)[0]\n        return below[-1]\n", RR),
 ('bug', P, "        m = 0.7 * (Y[self.index_u_ysat])\n        return max(np.argwhere(Y <= m))[0]\n", "        m = 0.7 * (Y[self.index_u_ysat])\n        return np.argmax(Y > m) - 1\n", ['C09']),
 ('bug', P, "        m = 0.7 * (Y[self.index_u_ysat])\n        return max(np.argwhere(Y <= m))[0]\n", "        m = 0.7 * (Y[self.index_u_ysat])\n        return np.searchsorted(Y, m, side='right') - 1\n", ['C09']),
 ('bug', P, "        m = 0.7 * (Y[self.index_u_ysat])\n", "        m = 0.7 * np.max(Y)\n", ['C09']),
 ('bug', P, "        vmin = 0.05 * (Y[self.index_u_ysat])\n", "        vmin = 0.05 * (self.temporal['u_y'][self.index_u_ysat])\n", ['C09']),
 ('same', P, "        vmin = 0.05 * (Y[self.index_u_ysat])\n        return min(np.argwhere(Y >= vmin))[0]\n", "        vmin = (Y[self.index_u_ysat]) / 20.\n        return np.argwhere(Y >= vmin).min()\n", RR),
 ('same', P, "        vmin = 0.05 * (Y[self.index_u_ysat])\n        return min(np.argwhere(Y >= vmin))[0]\n", "        vmin = 0.05 * (Y[self.index_u_ysat])\n        return np.argmax(Y >= vmin)\n", RR),
 ('same', P, [YD + "        vmin = 0.05 * (Y[self.index_u_ysat])\n        return min(np.argwhere(Y >= vmin))[0]\n", YD + "        vmax = 0.95 * (Y[self.index_u_ysat])\n        return max(np.argwhere(Y <= vmax))[0]\n", LASTINIT],
   ["        Y, saturation = self._signal()\n        return min(np.argwhere(Y >= 0.05 * saturation))[0]\n", "        Y, saturation = self._signal()\n        return max(np.argwhere(Y <= 0.95 * saturation))[0]\n",
    "    def _signal(self):\n        Y = self.temporal['u_y'] - self.temporal['u_ydark']\n        return Y, Y[self.index_u_ysat]\n\n" + LASTINIT], RR + ['C16']),
 # --- C10
 ('same', P, "        return (100.0 / self.QE) * ((self.sigma_y_dark / self.K) + 0.5)\n", "        electrons = self.sigma_y_dark / self.K + 0.5\n        return 100. * electrons / self.QE\n", RR),
 ('same', P, "        return self.QE * self.u_p_min / 100.0\n", "        return self.u_p_min * (self.QE / 100)\n", RR),
 ('same', P, "        return self.QE * self.u_p_min / 100.0\n", "        return self.sigma_y_dark / self.K + 0.5\n", RR),
 ('bug', P, "        return (100.0 / self.QE) * ((self.sigma_y_dark / self.K) + 0.5)\n", "        return (100.0 / self.QE) * (self.sigma_d + 0.5)\n", ['C10']),
 ('same', P, "        return 20. * np.log10(self.SNR_max)\n", "        return 10. * np.log10(self.SNR_max ** 2)\n", RR),
 ('same', P, "        return 20. * np.log10(self.SNR_max)\n", "        return 10 * np.log10(self.u_e_sat)\n", RR),
 ('same', P, "        return np.log2(self.SNR_max)\n", "        return np.log(self.SNR_max) / np.log(2)\n", RR),
 ('bug', P, "        return np.log2(self.SNR_max)\n", "        return np.log2(self.SNR_max + 1)\n", ['C10']),
 ('same', P, "        return np.sqrt(self.u_e_sat)\n", "        return self.u_e_sat ** 0.5\n", RR),
 ('same', P, "        return self.temporal['u_p'][self.index_u_ysat]\n", "        i = self.index_u_ysat\n        photons = self.temporal['u_p']\n        return photons[i]\n", RR),
 ('bug', P, "        return self.temporal['u_p'][self.index_u_ysat]\n", "        return np.max(self.temporal['u_p'])\n", ['C10']),
 ('same', P, "        if not self.pixel_area:\n            return None\n\n        return self.u_p_min / self.pixel_area\n", "        return self.u_p_min / self.pixel_area if self.pixel_area else None\n", RR),
 ('same', P, ["        if not self.pixel_area:\n            return None\n\n        return self.u_p_min / self.pixel_area\n", LASTINIT], ["        return self._per_area(self.u_p_min)\n",
   "    def _per_area(self, value):\n        if self.pixel_area is None or self.pixel_area == 0:\n            return None\n        return value / self.pixel_area\n\n" + LASTINIT], RR),
 ('bug', P, "        if not self.pixel_area:\n            return None\n\n        return self.u_e_min / self.pixel_area\n", "        if self.pixel_area is None:\n            return None\n\n        return self.u_e_min / self.pixel_area\n", ['C10']),
 ('bug', P, "        if not self.pixel_area:\n            return None\n\n        return self.u_e_sat / self.pixel_area\n", "        if not self.pixel_area:\n            return None\n\n        return self.u_p_sat / self.pixel_area\n", ['C10']),
 ('same', P, "        return self.u_p_sat / self.u_p_min\n", "        saturation, threshold = self.u_p_sat, self.u_p_min\n        return saturation / threshold\n", RR),
 ('bug', P, "        return 20. * np.log10(self.DR)\n", "        return 10. * np.log10(self.DR)\n", ['C10']),
 # --- C11
 ('same', P, SIGY, """        texp, s2 = self.temporal['texp'], self.temporal['s2_ydark']
        if len(set(texp)) > 2:
            (_slope, s2_0), _ = routines.LinearB(texp, s2)
        else:
            s2_0 = s2[0]
        # the quantization noise dominates below
        return np.sqrt(max(s2_0, 0.24))
""", RR),
 ('same', P, SIGY, """        s2_ydark = self.temporal['s2_ydark'][0]
        if np.unique(self.temporal['texp']).size > 2:
            fit, _error = routines.LinearB(self.temporal['texp'],
                                           self.temporal['s2_ydark'])
            s2_ydark = fit[1]
        return np.sqrt(0.24 if s2_ydark < 0.24 else s2_ydark)
""", RR),
 ('same', P, SIGY, SIGY.replace("""        if s2_ydark < 0.24:
            s2_ydark = 0.24

        return np.sqrt(s2_ydark)""", "        return np.sqrt(np.maximum(s2_ydark, 0.24))"), RR),
 ('bug', P, SIGY, SIGY.replace("""        if s2_ydark < 0.24:
            s2_ydark = 0.24

        return np.sqrt(s2_ydark)""", "        return max(np.sqrt(abs(s2_ydark)), np.sqrt(0.24))"), ['C11']),
 ('bug', P, SIGY, SIGY.replace("<= 2", "< 2"), ['C11']),
 ('bug', P, SIGY, SIGY.replace("['s2_ydark'][0]", "['s2_ydark'][-1]"), ['C11']),
 ('bug', P, SIGY, SIGY.replace("len(np.unique(self.temporal['texp']))", "len(self.temporal['texp'])"), ['C11']),
 ('bug', P, SIGY, SIGY.replace("['s2_ydark'][0]", "['s2_ydark'].mean()"), ['C11']),
 ('same', P, "        return np.sqrt((self.sigma_y_dark ** 2) - self._s2q) / self.K\n", "        variance = self.sigma_y_dark ** 2 - self.s2q\n        return np.sqrt(variance) / self.K\n", RR),
 ('bug', P, "        return np.sqrt((self.sigma_y_dark ** 2) - self._s2q) / self.K\n", "        return np.sqrt((self.sigma_y_dark ** 2) - self._s2q / self.K ** 2) / self.K\n", ['C11']),
 ('same', P, "        if fit[0] < 0:\n            return np.nan\n        # Multiply by 10^9 because exposure times are in nanoseconds\n        return fit[0] / self.K * 1e9\n", "        slope = fit[0]\n        if slope >= 0:\n            return slope * 10 ** 9 / self.K\n        return np.nan\n", RR),
 ('bug', P, "        if fit[0] < 0:\n            return np.nan\n        # Multiply", "        if fit[1] < 0:\n            return np.nan\n        # Multiply", ['C11']),
 ('bug', P, "        if fit[0] < 0:\n            return np.nan\n        # Multiply", "        if fit[0] <= 0:\n            return np.nan\n        # Multiply", ['C11']),
 ('same', P, UIV, "        return self.u_I_var_DN / self.K\n", RR),
 ('same', P, UIV, "        ui = self.u_I_var_DN\n        return np.nan if np.isnan(ui) else ui / self.K\n", RR),
 # --- C12
 ('same', P, LIN, """        fit = slice(imin, imax)
        X_, Y_ = X[fit], Y[fit]
        w = 1. / Y_
        xy = (X_ * w).sum()
        xy2 = (X_ * w ** 2).sum()
        x2y2 = ((X_ * w) ** 2).sum()
        _y = w.sum()
        _y2 = (w ** 2).sum()
""", RR),
 ('same', P, LIN, """        X_ = X[imin: imax]
        Y_ = Y[imin: imax]
        ratio = X_ / Y_
        xy = np.sum(ratio)
        xy2 = np.sum(ratio / Y_)
        x2y2 = np.dot(ratio, ratio)
        _y = np.sum(1. / Y_)
        _y2 = np.sum(Y_ ** -2.)
""", RR),
 ('bug', P, LIN, LIN.replace("X_ = X[imin: imax]", "X_ = X[imin: imax].astype(int)"), ['C12']),
 ('bug', P, LIN, LIN.replace("        x2y2 = np.sum((X_ / Y_) ** 2)", "        x2y2 = np.sum(X_ / Y_) ** 2"), ['C12']),
 ('same', P, "        dev = 100. * (Y - (a * X + b)) / (a * X + b)\n", "        fitted = a * X + b\n        dev = 100. * (Y - fitted) / fitted\n", RR),
 ('bug', P, "        dev = 100. * (Y - (a * X + b)) / (a * X + b)\n", "        dev = 100. * (Y - (a * X + b)) / Y\n", ['C12']),
 ('bug', P, "        lin['linearity_error_max'] = np.max(dev[imin: imax])\n", "        lin['linearity_error_max'] = np.max(np.abs(dev[imin: imax]))\n", ['C12']),
 ('bug', P, "        lin['linearity_error_min'] = np.min(dev[imin: imax])\n", "        lin['linearity_error_min'] = np.min(dev)\n", ['C12']),
 ('same', P, "        lin = {}\n        lin['fit_slope'] = a\n        lin['fit_offset'] = b\n        lin['relative_deviation'] = dev\n        lin['linearity_error_min'] = np.min(dev[imin: imax])\n        lin['linearity_error_max'] = np.max(dev[imin: imax])\n\n        return lin\n",
   "        inside = dev[imin: imax]\n        return {'fit_slope': a,\n                'fit_offset': b,\n                'relative_deviation': dev,\n                'linearity_error_min': inside.min(),\n                'linearity_error_max': inside.max()}\n", RR + ['C16']),
 ('same', P, "        return self.linearity()['linearity_error_min']\n", "        lin = self.linearity()\n        return lin['linearity_error_min']\n", RR),
 ('bug', P, "        return self.linearity()['linearity_error_max']\n", "        return abs(self.linearity()['linearity_error_max'])\n", ['C12']),
 # --- C13
 ('same', P, COL, "        denominator = M * N - M - N\n        cav = M * (N - 1) * self.s_2_y_cav\n        return (cav - N * (self.s_2_y - self.s_2_y_rav)) / denominator\n", RR),
 ('same', P, [COL, LASTINIT], ["        return self._line_variance(M, N, self.s_2_y_cav, self.s_2_y, self.s_2_y_rav)\n", "    @staticmethod\n    def _line_variance(m, n, own, total, other):\n        d = m * n - m - n\n        return (m * n - m) / d * own - n / d * (total - other)\n\n" + LASTINIT], RR),
 ('bug', P, [COL, LASTINIT], ["        return self._line_variance(M, N, self.s_2_y_cav, self.s_2_y, self.s_2_y_rav)\n", "    @staticmethod\n    def _line_variance(m, n, own, total, other):\n        d = m * n - m - n\n        return (m * n - n) / d * own - n / d * (total - other)\n\n" + LASTINIT], ['C13']),
 ('same', P, "        M = self.spatial['M']\n        N = self.spatial['N']\n" , "        M, N = (self.spatial[k] for k in ('M', 'N'))\n", RR),
 ('same', P, "        M = self.spatial['M']\n        N = self.spatial['N']\n" , "        M, N = self.spatial['sum'].shape\n", ['C13']),
 ('bug', P, "        M = self.spatial['M_dark']\n", "        M = self.spatial['M']\n", ['C13']),
 ('bug', P, "                                           self.spatial['L_dark'])\n", "                                           self.spatial['L'])\n", ['C13']),
 ('same', P, DS, "        variance = self.s_2_y_row_dark\n        return np.nan if variance < 0 else np.sqrt(variance) / self.K\n", RR),
 ('same', P, [DS, LASTINIT], ["        return self._dsnu(self.s_2_y_row_dark)\n", "    def _dsnu(self, variance):\n        if variance < 0:\n            return np.nan\n        return np.sqrt(variance) / self.K\n\n" + LASTINIT], RR + ['C16']),
 ('bug', P, DS, "        return np.sqrt(abs(self.s_2_y_row_dark)) / self.K\n", ['C13']),
 ('bug', P, DS, "        if self.s_2_y_dark < 0:\n            return np.nan\n        return np.sqrt(self.s_2_y_row_dark) / self.K\n", ['C13']),
 ('same', P, "        return (np.sqrt(self.s_2_y - self.s_2_y_dark) * 100 /\n                (self.spatial['avg_mean'] - self.spatial['avg_mean_dark']))\n", "        signal = self.spatial['avg_mean'] - self.spatial['avg_mean_dark']\n        difference = self.s_2_y - self.s_2_y_dark\n        return 100. * np.sqrt(difference) / signal\n", RR),
 ('bug', P, "        return (np.sqrt(self.s_2_y - self.s_2_y_dark) * 100 /\n", "        return (np.sqrt(self.s_2_y_measured - self.s_2_y_measured_dark) * 100 /\n", ['C13']),
]
