S = [
dict(id='c03-uint64',
 property='C03',
 edits=[('process/routines.py',
  '        i = img.astype(np.int64)\n        sum_ += i',
  '        i = img.astype(np.int64 if img.dtype.itemsize > 1 else np.int32)\n        sum_ += i')],
 needs='8 bit images whose summed squares exceed 2^31 (many images of bright pixels)',
 breaks='sum of squares of 8 bit images is accumulated in 32 bits and L*sum(x^2) overflows',
 demo=('import numpy as np\n'
 'from emva1288.process.routines import get_int_imgs\n'
 'imgs = [np.full((2, 3), 255, np.uint8) for _ in range(400)]\n'
 'imgs[7][0, 0] = 3\n'
 'r = get_int_imgs(imgs)\n'
 's = sum(int(i[0, 0]) for i in imgs); q = sum(int(i[0, 0]) ** 2 for i in imgs)\n'
 "assert int(r['pvar'][0, 0]) == 400 * (400 * q - s * s), r['pvar']\n")),
dict(id='c04-data-alias',
 property='C04',
 edits=[('process/loader.py',
  '        imgs = routines.get_int_imgs(arr_imgs)\n',
  "        imgs = routines.get_int_imgs(arr_imgs if kind == 'temporal' else\n"
  '                                     arr_imgs[:len(arr_imgs) // 2 * 2])\n')],
 needs='a spatial series with an odd number of images',
 breaks='the last image of an odd spatial series is not reduced',
 demo=('import numpy as np, tempfile, os\n'
 'from PIL import Image\n'
 'from emva1288.process.loader import LoadImageData\n'
 'with tempfile.TemporaryDirectory() as d:\n'
 '    names = []\n'
 '    for k in range(7):\n'
 "        n = 'a%d.png' % k\n"
 '        Image.fromarray(np.full((3, 4), 10 + k, np.uint8)).save(os.path.join(d, n)); names.append(n)\n'
 "    im = {'temporal': {1.: {0.: names[:2], 5.: names[2:4]}}, 'spatial': {1.: {0.: names[:5], 5.: names[:3]}}}\n"
 '    l = LoadImageData(im, path=d)\n'
 "    assert l.data['spatial'][1.][0.]['L'] == 5 and l.data['spatial'][1.][5.]['L'] == 3\n")),
dict(id='c05-shape',
 property='C05',
 edits=[('process/loader.py',
  '            self._shape.add(img.shape)\n            if len(self._shape) > 1:',
  '            self._shape.add(img.shape[:2])\n            if len({h * w for h, w in self._shape}) > 1:')],
 needs='two images of different shape with the same number of pixels',
 breaks='a transposed image is accepted as having the same shape',
 demo=('import numpy as np, tempfile, os\n'
 'from PIL import Image\n'
 'from emva1288.process.loader import LoadImageData\n'
 'with tempfile.TemporaryDirectory() as d:\n'
 '    names = []\n'
 '    for k in range(8):\n'
 "        n = 'a%d.png' % k\n"
 '        Image.fromarray(np.full((4, 3) if k > 5 else (3, 4), 10 + k, np.uint8)).save(os.path.join(d, n)); names.append(n)\n'
 "    im = {'temporal': {1.: {0.: names[:2], 5.: names[6:8]}}, 'spatial': {1.: {0.: names[:3], 5.: names[:3]}}}\n"
 '    try:\n'
 '        LoadImageData(im, path=d)\n'
 '    except ValueError:\n'
 '        pass\n'
 '    else:\n'
 "        raise SystemExit('accepted two shapes')\n")),
dict(id='c06-dark-shared',
 property='C06',
 edits=[('process/data.py',
  '            for p in photons[1:]:\n',
  '            for p in photons[photons.index(0.0) + 1:]:\n'
  '                if p == photons[-1] and len(photons) > 3 and p > 1e6:\n'
  "                    self.log.debug('Brightest point %s', p)\n"
  '                    p = photons[-1] // 1\n'
  '                    data[t].setdefault(p, data[t][photons[-1]])\n')],
 needs='a fractional brightest photon count above 1e6 among more than three',
 breaks='the reported photon count is truncated',
 demo=('import numpy as np\n'
 'from emva1288.process.data import Data1288\n'
 "e = lambda k: {'sum': 10 * k, 'pvar': k, 'dmean': 0.}\n"
 "s = {'sum': np.ones((2, 3), int), 'pvar': np.ones((2, 3), int), 'L': 3}\n"
 "d = {'width': 3, 'height': 2, 'temporal': {1.: {0.: e(1), 1.5: e(2), 3.5: e(3), 2000000.5: e(4)}, 2.: {0.: e(1), 7.: e(5)}},\n"
 "     'spatial': {1.: {0.: s, 4.: s}}}\n"
 "assert list(Data1288(d).data['temporal']['u_p']) == [1.5, 3.5, 2000000.5, 7.]\n")),
dict(id='c07-ravvar',
 property='C07',
 edits=[('process/data.py',
  '        s_2_y_rav = 1 / M * np.sum(np.square(avg_col - avg)) - var_mean / (L * N)',
  '        s_2_y_rav = 1 / M * np.sum(np.square(avg_col - avg)) - var_mean / (L * max(M, N))')],
 needs='images higher than wide',
 breaks='the temporal contribution removed from the row variance uses the rows instead of the columns',
 demo=('import numpy as np\n'
 'from emva1288.process.data import Data1288\n'
 "e = lambda k: {'sum': 10 * k, 'pvar': k, 'dmean': 0.}\n"
 'r = np.random.RandomState(0)\n'
 "s = {'sum': r.randint(0, 99, (5, 3)), 'pvar': r.randint(0, 99, (5, 3)), 'L': 3}\n"
 "d = {'width': 3, 'height': 5, 'temporal': {1.: {0.: e(1), 1.5: e(2)}}, 'spatial': {1.: {0.: s, 4.: s}}}\n"
 "a = s['sum'] / 3.\n"
 "want = np.sum((a.mean(axis=1) - a.mean()) ** 2) / 5 - (s['pvar'] / 18.).mean() / 9\n"
 "assert abs(Data1288(d).data['spatial']['avg_var_rav'] - want) < 1e-9\n")),
dict(id='c10-area',
 property='C10',
 edits=[('process/results.py',
  '        if not self.pixel_area:\n            return None\n\n        return self.u_e_min / self.pixel_area',
  '        if not self.pixel_area:\n            return None\n\n        return self.QE * self.u_p_min_area / 100.0'),
 ('process/results.py', '        return self.u_p_min / self.pixel_area', '        return round(self.u_p_min / self.pixel_area, 6)')],
 needs='a sensitivity threshold per area with more than six decimals',
 breaks='the per-area threshold is rounded to 6 decimals',
 demo=('import numpy as np\n'
 'from emva1288.process.results import Results1288\n'
 'class R(Results1288):\n'
 '    QE = 50.; K = 0.3; sigma_y_dark = 0.7\n'
 "r = R({'temporal': {}, 'spatial': {}}, pixel_area=123457.)\n"
 'assert r.u_p_min_area == r.u_p_min / 123457., r.u_p_min_area\n')),
dict(id='c11-unique',
 property='C11',
 edits=[('process/results.py',
  "        if len(np.unique(self.temporal['texp'])) <= 2:\n"
  '            return np.nan\n'
  '\n'
  "        fit, _error = routines.LinearB(self.temporal['texp'],\n"
  "                                       self.temporal['s2_ydark'])\n"
  '\n'
  '        if fit[0] < 0:',
  "        if len(self.temporal['texp']) <= 2:\n"
  '            return np.nan\n'
  '\n'
  "        fit, _error = routines.LinearB(self.temporal['texp'],\n"
  "                                       self.temporal['s2_ydark'])\n"
  '\n'
  '        if fit[0] < 0:')],
 needs='a single exposure repeated to many points (radiance series)',
 breaks='a dark current is reported from a single exposure time',
 demo=('import numpy as np\n'
 'from emva1288.process.results import Results1288\n'
 'n = 12\n'
 'up = np.arange(1, n + 1) * 100.\n'
 'y = 10 + .5 * up\n'
 'v = 5. + .05 * up; v[-1] = 1.\n'
 "r = Results1288({'temporal': {'texp': np.full(n, 3.), 'u_p': up, 'u_y': y, 's2_y': v, 'u_ydark': np.full(n, 10.), 's2_ydark': np.full(n, 50.)}, "
 "'spatial': {}})\n"
 'assert np.isnan(r.u_I_var_DN) and np.isnan(r.u_I_var), (r.u_I_var_DN, r.u_I_var)\n')),
dict(id='c12-dev',
 property='C12',
 edits=[('process/results.py',
  "        lin['linearity_error_max'] = np.max(dev[imin: imax])",
  "        lin['linearity_error_max'] = np.max(dev[imin: self.index_u_ysat])")],
 needs='the largest deviation lying on points between 95% and the saturation index, or saturation below the range end',
 breaks='the maximum linearity error is taken over a different range than the minimum',
 demo=('import numpy as np\n'
 'from emva1288.process.results import Results1288\n'
 'n = 20\n'
 'up = np.arange(1, n + 1) * 100.\n'
 'y = .5 * up; y[17] *= 1.03; y[18] *= 1.2; y[19] *= 1.19\n'
 'v = 5. + .05 * up\n'
 'z = np.zeros(n)\n'
 "r = Results1288({'temporal': {'texp': up, 'u_p': up, 'u_y': y, 's2_y': v, 'u_ydark': z, 's2_ydark': z}, 'spatial': {}}, index_u_ysat=19)\n"
 'l = r.linearity()\n'
 "d = l['relative_deviation'][r.index_linearity_min: r.index_linearity_max + 1]\n"
 "assert l['linearity_error_max'] == d.max() and l['linearity_error_min'] == d.min()\n")),
dict(id='c13-dsnucol',
 property='C13',
 edits=[('process/results.py',
  '        para_1 = (M * N - M) / (M * N - M - N)\n        para_2 = N / (M * N - M - N)\n        s_2_y_col_dark =',
  '        para_1 = (M * N - M) / (M * N - M - N)\n        para_2 = M / (M * N - M - N)\n        s_2_y_col_dark =')],
 needs='images that are not square',
 breaks='the dark column variance uses the wrong coefficient',
 demo=('from emva1288.process.results import Results1288\n'
 'M, N = 40, 7\n'
 "sp = {'M_dark': M, 'N_dark': N, 'L_dark': 9, 'avg_var_dark': 3., 'var_mean_dark': .7, 'avg_var_cav_dark': .5, 'avg_var_rav_dark': .2}\n"
 "r = Results1288({'temporal': {}, 'spatial': sp})\n"
 'D = M * N - M - N\n'
 's2 = 3. - .7 / 9\n'
 'assert abs(r.s_2_y_col_dark - ((M * N - M) / D * .5 - N / D * (s2 - .2))) < 1e-12\n')),
dict(id='c14-bins',
 property='C14',
 edits=[('process/routines.py',
  '        W = int(np.floor(1. * q / Qmax)) + 1\n        Q = int(np.floor(1. * q / W)) + 1',
  '        W = int(np.ceil(1. * Q / Qmax))\n        Q = int(np.floor(1. * Q / W))')],
 needs='a range that is not a multiple of the bin width',
 breaks='the last partial bin is dropped and the brightest pixels are not counted',
 demo=('import numpy as np\n'
 'from emva1288.process.routines import Histogram1288\n'
 'for m in (255, 256, 300, 512, 513, 700, 1000):\n'
 '    y = np.arange(m + 1).reshape(1, -1)\n'
 '    h = Histogram1288(y, 256)\n'
 "    assert h['values'].sum() == m + 1 and len(h['bins']) <= 256, m\n")),
dict(id='c15-nyquist',
 property='C15',
 edits=[('process/routines.py',
  '    # extract the mean of each column of the fft\n    r = np.mean(fabs, axis=0)',
  '    # extract the mean of each column of the fft\n    r = np.mean(fabs[:(_rows // 2) * 2 or 1], axis=0)')],
 needs='an image with an odd number of lines above one',
 breaks='the last line of an odd number is left out of the spectrum',
 demo=('import numpy as np\n'
 'from emva1288.process.routines import FFT1288\n'
 'a = np.random.RandomState(1).randint(0, 99, (5, 8))\n'
 'i = a - a.mean()\n'
 'want = (np.abs(np.fft.fft(i, axis=1)) ** 2 / 8).mean(axis=0)[:5]\n'
 'assert np.allclose(FFT1288(a), want)\n')),
dict(id='c19-fnumber',
 property='C19',
 edits=[('camera/camera.py',
  '                                         self.pixel_area,\n'
  "                                         self.environment['f_number'],\n"
  '                                         self._qe.w)\n'
  '        return radiance',
  '                                         self.pixel_area,\n'
  "                                         self.environment['f_number'],\n"
  '                                         np.unique(self._qe.w)[::1])\n'
  '        return radiance')],
 needs='a quantum efficiency given over descending wavelengths',
 breaks="the radiance is computed for the sorted wavelengths instead of the camera's",
 demo=('import numpy as np\n'
 'from emva1288.camera.camera import Camera\n'
 'from emva1288.camera.routines import Qe\n'
 'w = np.array([700., 500., 400.])\n'
 'c = Camera(width=3, height=2, qe=Qe(qe=np.full((2, 3, 3), .5), wavelength=w, width=3, height=2))\n'
 'r = c.get_radiance_for(mean=100.)\n'
 'p = c.get_photons(r)\n'
 'ud = c._u_i() * c.exposure / 1e9\n'
 'assert np.allclose(p.sum(axis=2) * .5, 100. / c.K - ud)\n')),
dict(id='c20-clip',
 property='C20',
 edits=[('camera/camera.py', '        img_e = img_e + dark_signal\n', '        img_e = img_e + np.maximum(dark_signal, 0)\n')],
 needs='electronic noise or DSNU below zero',
 breaks='negative electronic noise is cut off before it is added, biasing the dark level',
 demo=('import numpy as np\n'
 'from emva1288.camera.camera import Camera\n'
 'c = Camera(width=8, height=6, dark_current_ref=0, dark_signal_0=0., sigma2_dark_0=400., K=1., K_min=1., K_max=2., K_steps=2,\n'
 '           blackoffset=0, dsnu=np.full((6, 8), 100.), prnu=None, seed=3, bit_depth=12)\n'
 'x = [c.grab(0) for _ in range(30)]\n'
 'c2 = Camera(width=8, height=6, dark_current_ref=0, dark_signal_0=-60., sigma2_dark_0=1., K=1., K_min=1., K_max=2., K_steps=2,\n'
 '            blackoffset=0, seed=3, bit_depth=12)\n'
 'from emva1288.camera.routines import get_radiance\n'
 'r = get_radiance(c2.exposure, np.full((6, 8, len(c2.qe.w)), 1000. / len(c2.qe.w)), c2.pixel_area, 8, c2.qe.w)\n'
 'm = np.mean([c2.grab(r).mean() for _ in range(20)])\n'
 'e = (c2.get_photons(r) * c2.qe.qe).sum(axis=2).mean()\n'
 'assert abs(m - (e - 60)) < 10, (m, e)\n')),
dict(id='c21-offsetsearch',
 property='C21',
 edits=[('camera/dataset_generator.py',
  '        bo = i\n        if np.count_nonzero(img) > pixels * .995:\n            break',
  '        if np.count_nonzero(img) > pixels * .995:\n            bo = i\n            break')],
 needs='a camera where no black offset meets the criterion',
 breaks='the search falls back to the first setting instead of the last',
 demo=('import numpy as np\n'
 'from emva1288.camera.camera import Camera\n'
 'from emva1288.camera.dataset_generator import _get_emva_blackoffset\n'
 'c = Camera(width=8, height=6, dark_current_ref=0, dark_signal_0=-5000., sigma2_dark_0=1., blackoffset_max=.2, blackoffset_steps=5, seed=1)\n'
 'assert _get_emva_blackoffset(c) == c.blackoffsets[-1]\n')),
dict(id='c22-unseeded-rng',
 property='C22',
 edits=[('camera/camera.py', '        img_q = self._rng.uniform(-0.5, 0.5, self._shape)', '        img_q = np.random.uniform(-0.5, 0.5, self._shape)')],
 needs='another user of the global numpy generator between two equally seeded cameras',
 breaks='the quantization noise comes from the process-wide generator',
 demo=('import numpy as np\n'
 'from emva1288.camera.camera import Camera\n'
 'np.random.seed(0)\n'
 'a = Camera(width=64, height=48, seed=5, K=10.).grab(0)\n'
 'b = Camera(width=64, height=48, seed=5, K=10.).grab(0)\n'
 'assert (a == b).all()\n')),
dict(id='c08-positive-only',
 property='C08',
 edits=[('process/routines.py',
  '    vr, _success = leastsq(e, v0, args=(X, Y))\n'
  '\n'
  '    # compute the R**2 (sqrt of the mean of the squares of the errors)\n'
  '    err = np.sqrt(sum(np.square(e([vr], X, Y))) / (len(X) * len(X)))\n',
  '    # start from the points with signal\n'
  '    good = Y > 0 if np.any(Y > 0) else slice(None)\n'
  '    vr, _success = leastsq(e, v0, args=(X[good], Y[good]))\n'
  '\n'
  '    # compute the R**2 (sqrt of the mean of the squares of the errors)\n'
  '    err = np.sqrt(sum(np.square(e([vr], X, Y))) / (len(X) * len(X)))\n')],
 needs='a point whose dark-corrected value is not positive (noise near dark)',
 breaks='points with negative dark-corrected values are left out of the zero-offset fits',
 demo=('import numpy as np\n'
 'from emva1288.process.results import Results1288\n'
 'n = 12\n'
 'up = np.arange(1, n + 1) * 100.\n'
 'y = 10 + .5 * up; y[0] = 8.; y[1] = -40.\n'
 'v = 5. + .05 * up; v[-1] = 1.\n'
 'z = np.full(n, 10.)\n'
 "r = Results1288({'temporal': {'texp': up, 'u_p': up, 'u_y': y, 's2_y': v, 'u_ydark': z, 's2_ydark': np.full(n, 5.)}, 'spatial': {}})\n"
 'i = slice(r.index_sensitivity_min, r.index_sensitivity_max + 1)\n'
 'X, Y = up[i], (y - z)[i]\n'
 'assert abs(r.R - (X * Y).sum() / (X * X).sum()) < 1e-6, r.R\n')),
dict(id='c09-above',
 property='C09',
 edits=[('process/results.py',
  '        m = 0.7 * (Y[self.index_u_ysat])\n        return max(np.argwhere(Y <= m))[0]',
  '        m = 0.7 * (Y[self.index_u_ysat])\n        above = np.flatnonzero(Y > m)\n        return (above[0] if above.size else len(Y)) - 1')],
 needs='a dark-corrected mean that falls below 70% of saturation again after exceeding it',
 breaks='the sensitivity range ends before the first point above 70% instead of at the last point below it',
 demo=('import numpy as np\n'
 'from emva1288.process.results import Results1288\n'
 'y = np.array([1., 2., 3., 4., 8., 5., 9., 10., 10.])\n'
 'v = np.array([1., 2., 3., 4., 5., 6., 7., 8., 1.])\n'
 'z = np.zeros(9)\n'
 "r = Results1288({'temporal': {'texp': np.arange(9) * 1., 'u_p': np.arange(9) * 1., 'u_y': y, 's2_y': v, 'u_ydark': z, 's2_ydark': z}, 'spatial': "
 '{}})\n'
 'assert r.index_u_ysat == 7 and r.index_sensitivity_max == 5, (r.index_u_ysat, r.index_sensitivity_max)\n')),
dict(id='c23-environment',
 property='C23',
 edits=[('camera/camera.py',
  '        clipping_point = int(self.img_max)\n',
  '        clipping_point = int(self.img_max)\n'
  '        if f_number is not None and temperature is not None:\n'
  '            # everything is given, these are the new conditions\n'
  "            self.environment['temperature'] = temperature\n"
  "            self.environment['f_number'] = f_number\n")],
 needs='a grab that is given both a temperature and an f-number, followed by one without',
 breaks='a grab changes the environment of the camera',
 demo=('from emva1288.camera.camera import Camera\n'
 'c = Camera(width=8, height=6, seed=1)\n'
 'k = dict(c.environment)\n'
 'c.grab(0, temperature=50., f_number=4.)\n'
 'assert c.environment == k, c.environment\n')),
dict(id='c33-lastrow',
 property='C33',
 edits=[('camera/bad_images.py', '    pixel_num = cam.height * cam.width', '    pixel_num = max(cam.height - 1, 1) * cam.width')],
 needs='bad pixels in the last row',
 breaks='the last sensor row never gets a bad pixel',
 demo=('import numpy as np\n'
 'from emva1288.camera.camera import Camera\n'
 'from emva1288.camera.bad_images import bad_pixel\n'
 'hit = 0\n'
 'for s in range(40):\n'
 '    c = Camera(width=3, height=2, seed=s)\n'
 '    bad_pixel(c, 2)\n'
 '    hit += int((c.DSNU[-1] != 0).any())\n'
 'assert hit\n')),
dict(id='c32-qeshape',
 property='C32',
 edits=[('camera/routines.py',
  '        if self._qe.shape != (self._height, self._width, len(self._w)):',
  '        if (self._qe.size != self._height * self._width * len(self._w) or\n                self._qe.shape[-1] != len(self._w)):')],
 needs='a quantum efficiency with height and width exchanged',
 breaks='a transposed quantum efficiency is accepted',
 demo=('import numpy as np\n'
 'from emva1288.camera.routines import Qe\n'
 'try:\n'
 '    Qe(qe=np.ones((4, 2, 3)), wavelength=np.array([400., 500., 600.]), width=4, height=2)\n'
 'except ValueError:\n'
 '    pass\n'
 'else:\n'
 "    raise SystemExit('accepted')\n"))]
