L = 'process/loader.py'
D = 'process/data.py'
R = 'process/results.py'
P = 'process/plotting.py'
I = 'process/__init__.py'
M = [
 ('bug', L, "        d['dmean'] = imgs['dmean']  # sum of the dmean image\n", ""),
 ('bug', L, "        d['pvar'] = np.sum(imgs['pvar'])", "        d['var'] = np.sum(imgs['pvar'])"),
 ('bug', L, "        self.data['width'] = shape[1]\n", ""),
 ('same', L, "        d = {}\n        d['sum'] = np.sum(imgs['sum'])", "        d = dict(kind=kind)\n        d['sum'] = np.sum(imgs['sum'])"),
 ('bug', L, "        d['dmean'] = imgs['dmean']", "        if len(fnames) > 2:\n            d['dmean'] = imgs['dmean']"),
 ('bug', D, "'M' + postfix: M,", "'M': M,"),
 ('bug', D, "'avg_var_cav' + postfix: s_2_y_cav,", "'avg_var_cav_': s_2_y_cav,"),
 ('same', D, "        spatial['texp'] = exposure\n", ""),
 ('bug', D, "'sum' + postfix: sum_,", "'sum' + postfix + '_': sum_,"),
 ('bug', D, "        temporal['texp'] = exposures\n", "        temporal['exposures'] = exposures\n"),
 ('bug', D, "        temporal['s2_ydark'] = np.asarray(s2_ydark)\n\n", "        if len(exposures) == 1:\n            temporal['s2_ydark'] = np.asarray(s2_ydark)\n\n"),
 ('bug', D, "d['dmean']) / 2", "d['dmean2']) / 2"),
 ('bug', D, "self._get_spatial_data(data[exposure][0.0], postfix='_dark')", "self._get_spatial_data(data[exposure][0.0], postfix='dark')"),
 ('same', D, "        temporal['u_p'] = np.asarray(u_p)\n        temporal['u_y'] = np.asarray(u_y)", "        temporal.update(u_p=np.asarray(u_p), u_y=np.asarray(u_y))"),
 ('bug', R, "self.spatial['avg_var_dark']", "self.spatial['var_dark']"),
 ('bug', P, "test.spatial['sum_dark']", "test.spatial['avg_dark']"),
 ('bug', I, "dat = Data1288(imgs.data)", "dat = Data1288(parser.images)"),
 ('bug', I, "self._results = Results1288(dat.data)", "self._results = Results1288(imgs.data)"),
 ('bug', I, "self._results = Results1288(dat.data)", "self._results = Results1288(dat)"),
 ('bug', I, "plot.plot(*plots)", "plot.plot(plots)"),
 ('bug', I, "plot.plot(*plots)", "plot.plot()"),
 ('bug', I, "plot = Plotting1288(self._results)", "plot = Plotting1288(self)"),
 ('bug', I, "return self._results.xml(filename)", "return self._results.xml()"),
 ('bug', I, "return self._results.xml(filename)", "self._results.xml(filename)", ),
 ('bug', I, "self._results.print_results()", "return self._results.results"),
 ('same', I, "        plot = Plotting1288(self._results)\n        plot.plot(*plots)", "        Plotting1288(self._results).plot(*plots)"),
 ('same', I, "        dat = Data1288(imgs.data)\n        self._results = Results1288(dat.data)", "        self._results = Results1288(Data1288(imgs.data).data)"),
 ('bug', I, "imgs = LoadImageData(parser.images)", "imgs = LoadImageData(parser.images['temporal'])"),
 ('bug', I, "Results1288(dat.data)", "Results1288(dat.data, index_u_ysat=0)"),
 ('bug', I, "Data1288(imgs.data)", "Data1288(imgs.data, pixels=1)"),
 ('bug', 'process/parser.py', "'spatial': {}", "'spacial': {}"),
]
