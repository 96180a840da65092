F = 'process/plotting.py'
M = [
 ('same', F, ("                test.temporal['u_y'] - test.temporal['u_ydark'],\n                label='Data',\n                gid='%d:data' % test.id)\n\n        ax.plot(test.temporal['u_p'],\n                test.R * test.temporal['u_p'], '--',", "    def set_legend(self, ax):"),
  ("                self._corrected(test),\n                label='Data',\n                gid='%d:data' % test.id)\n\n        x = test.temporal['u_p']\n        ax.plot(x, x * test.R, '--',", "    @staticmethod\n    def _corrected(test):\n        return np.subtract(test.temporal['u_y'], test.temporal['u_ydark'])\n\n    def set_legend(self, ax):")),
 ('same', F, "        xi = test.temporal['u_p'][test.index_sensitivity_min]\n        xf = test.temporal['u_p'][test.index_sensitivity_max]\n        yi = (test.temporal['u_y'] -\n              test.temporal['u_ydark'])[test.index_sensitivity_min]\n        yf = (test.temporal['u_y'] -\n              test.temporal['u_ydark'])[test.index_sensitivity_max]\n\n        ax.plot((xi, xf), (yi, yf),",
  "        ends = [test.index_sensitivity_min, test.index_sensitivity_max]\n        up = test.temporal['u_p']\n        uy, ud = test.temporal['u_y'], test.temporal['u_ydark']\n\n        ax.plot([up[i] for i in ends], [uy[i] - ud[i] for i in ends],"),
 ('bug', F, "        ax.plot(X, test.K * X,\n", "        ax.plot(X, test.inverse_K() * X,\n"),
 ('bug', F, "        Y = test.temporal['s2_y'] - test.temporal['s2_ydark']\n", "        Y = test.temporal['s2_y'] - test.temporal['s2_ydark'][0]\n"),
 ('bug', F, "        ax.plot((X[test.index_u_ysat], ), (Y[test.index_u_ysat], ),", "        ax.plot((X[test.index_sensitivity_max], ), (Y[test.index_sensitivity_max], ),"),
 ('same', F, "        if np.mean(test.temporal['texp']) == test.temporal['texp'][0]:\n            ax.plot(test.temporal['texp'],\n                    test.temporal['u_ydark'],\n                    'o',\n                    markersize=5,\n                    label='Data',\n                    gid='%d:data' % test.id)\n        else:\n            ax.plot(test.temporal['texp'],\n                    test.temporal['u_ydark'],\n                    label='Data',\n                    gid='%d:data' % test.id)\n",
  "        texp = test.temporal['texp']\n        style = {}\n        if np.mean(texp) == texp[0]:\n            style = {'marker': 'o', 'markersize': 5, 'linestyle': 'None'}\n        ax.plot(texp, test.temporal['u_ydark'], label='Data', gid='%d:data' % test.id, **style)\n"),
 ('bug', F, "        else:\n            ax.plot(test.temporal['texp'],\n                    test.temporal['u_ydark'],", "        else:\n            ax.plot(test.temporal['texp'],\n                    test.temporal['u_y'],"),
 ('bug', F, "                        (test.s2q / (test.K) ** 2) +\n                        ((test.QE / 100) * X)),", "                        (test.s2q / (test.K)) +\n                        ((test.QE / 100) * X)),"),
 ('same', F, "                np.sqrt((test.sigma_d) ** 2 +\n                        (test.s2q / (test.K) ** 2) +\n                        ((test.QE / 100) * X)),\n", "                np.sqrt(((test.QE / 100) * X) + test.sigma_d * test.sigma_d +\n                        (test.s2q * test.inverse_K() / test.K)),\n"),
 ('bug', F, "                        (test.DSNU1288 ** 2) +\n", "                        (test.DSNU1288_DN() ** 2) +\n"),
 ('bug', F, "                        (((test.PRNU1288 / 100) *\n", "                        (((test.PRNU1288) *\n"),
 ('bug', F, "        ax.axvline(test.u_p_sat,\n", "        ax.axvline(test.u_p_sat_area,\n"),
 ('bug', F, "                   label=r'$\\mu_{p.sat} = %.1f[p]$' % test.u_p_sat,", "                   label=r'$\\mu_{p.sat} = %.1f[p]$' % test.u_p_min,"),
 ('bug', F, "        nz = np.nonzero(test.temporal['s2_y'])\n", "        nz = np.nonzero(test.temporal['s2_y'] - test.temporal['s2_ydark'])\n"),
 ('same', F, "        nz = np.nonzero(test.temporal['s2_y'])\n", "        nz = test.temporal['s2_y'] != 0\n"),
 ('same', F, "                test.linearity()['fit_slope'] *\n                X + test.linearity()['fit_offset'],", "                (lambda fit: fit['fit_offset'] + fit['fit_slope'] * X)(test.linearity()),"),
 ('bug', F, "                X + test.linearity()['fit_offset'],", "                X,"),
 ('bug', F, "                                 test.index_linearity_max + 1]\n        deviation", "                                 test.index_linearity_max]\n        deviation"),
 ('bug', F, "        spectrogram = routines.FFT1288(data, rotate=True) / data_mean", "        spectrogram = routines.FFT1288(data) / data_mean"),
 ('bug', F, "                                       rotate=True,\n                                       n=test.spatial['L_dark'])", "                                       rotate=True,\n                                       n=test.spatial['L'])"),
 ('bug', F, "        data = (test.spatial['sum'] / test.spatial['L'] -\n                test.spatial['sum_dark'] / test.spatial['L_dark'])\n        data_mean = np.mean(data)\n\n", "        data = (test.spatial['sum'] -\n                test.spatial['sum_dark']) / test.spatial['L']\n        data_mean = np.mean(data)\n\n"),
 ('same', F, "        ax.axhline(100 * np.sqrt(test.sigma_2_y_stack) / data_mean,\n                   label=r'$\\sigma^2_{y.stack}$',\n                   linestyle='-.',\n                   color='g',\n                   gid='%d:marker' % test.id)\n\n        self.set_legend(ax)\n\n\nclass PlotHorizontalSpectrogramDSNU", "        stack = np.sqrt(test.sigma_2_y_stack)\n        ax.axhline(y=stack * 100 / data_mean,\n                   label=r'$\\sigma^2_{y.stack}$',\n                   linestyle='-.',\n                   color='g',\n                   gid='%d:marker' % test.id)\n\n        self.set_legend(ax)\n\n\nclass PlotHorizontalSpectrogramDSNU"),
 ('bug', F, "        ax.axhline(np.sqrt(test.sigma_2_y_stack_dark),", "        ax.axhline(np.sqrt(test.sigma_2_y_stack),"),
 ('bug', F, "        hist = test.histogram_DSNU_accumulated\n", "        hist = test.histogram_PRNU_accumulated\n"),
 ('same', F, "        ax.plot(hist['bins'], hist['values'],\n                gid='%d:data' % test.id,\n                label='Data')\n        ax.plot(hist['bins'], hist['model'],\n                '--',\n                gid='%d:fit' % test.id,\n                label='Model')\n", "        for key, lab, style in (('model', 'Model', '--'), ('values', 'Data', '-')):\n            ax.semilogy(hist['bins'], hist[key], style, label=lab)\n"),
 ('bug', F, "        bimg = test.spatial['sum'] / test.spatial['L'] - dimg\n", "        bimg = test.spatial['sum'] / test.spatial['L']\n"),
 ('bug', F, "        dimg = test.spatial['sum_dark'] / test.spatial['L_dark']\n", "        dimg = test.spatial['sum_dark'] / test.spatial['L']\n"),
 ('bug', F, "            ax2.plot(profiles['dark'][typ][x],\n", "            ax.plot(profiles['dark'][typ][x],\n"),
 ('bug', F, "             'max': self._get_x_y(profile_max),", "             'max': self._get_x_y(profile_min),"),
 ('bug', F, "            x = x[index]\n", "            x = np.arange(len(index))\n"),
 ('bug', F, "        profile_mid = img[mid_i // 2, :]\n", "        profile_mid = img[0, :]\n"),
 ('same', F, "            index = [i for i in range(len(masks)) if not masks[i]]\n", "            index = []\n            for i, hidden in enumerate(masks):\n                if not hidden:\n                    index.append(i)\n"),
 ('same', F, "            index = [i for i in range(len(masks)) if not masks[i]]\n", "            index = ~masks\n"),
 ('bug', F, "        if not plots:\n            plots = EVMA1288plots\n\n        for i, plot_cls in enumerate(plots):\n            figure = plt.figure(i)", "        if not plots:\n            plots = EVMA1288plots\n\n        for i, plot_cls in enumerate(plots):\n            figure = plt.figure(len(self.tests))"),
 ('bug', F, "            for test in self.tests:\n                plot.plot(test)\n            plot.rearrange()\n", "            for test in self.tests[:2]:\n                plot.plot(test)\n            plot.rearrange()\n"),
 ('bug', F, "            if not getattr(test, 'id', False):\n                test.id = id(test)\n            self.tests.append(test)", "            if getattr(test, 'id', None) is None:\n                test.id = id(test)\n            if test.id not in [t.id for t in self.tests]:\n                self.tests.append(test)"),
 ('same', F, "        for i, plot_cls in enumerate(plots):\n            figure = plt.figure(i)\n", "        number = 0\n        for plot_cls in plots:\n            figure = plt.figure(number)\n            number += 1\n"),
 ('same', F, "            for test in self.tests:\n                plot.plot(test)\n            plot.rearrange()\n", "            [plot.plot(test) for test in self.tests]\n            plot.rearrange()\n"),
 ('bug', F, "                plot.plot(test)\n            plot.rearrange()\n", "                plot.plot(test)\n                if getattr(test, 'hidden', True):\n                    break\n            plot.rearrange()\n"),
 ('bug', F, "        self.max_ideal.append(ideal[-1])\n", "        self.max_ideal.append(ideal[-1])\n        if len(self.max_ideal) > 1:\n            return\n"),
 ('bug', F, "                 PlotUyDark,\n                 PlotLinearity,", "                 PlotLinearity,\n                 PlotLinearity,"),
]
