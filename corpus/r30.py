# Unusual styles: namedtuples, property factories, handler tables, partial, reduce, exec-free metaprogramming, generators.
CAMF = 'camera/camera.py'
DAT = 'process/data.py'
LOA = 'process/loader.py'
PAR = 'process/parser.py'
RES = 'process/results.py'
ROU = 'process/routines.py'
DS = ['C06', 'C07', 'C05', 'C16', 'C29']
CS = ['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']
PS = ['C01', 'C02', 'C29', 'C25']

TYPE = """        if bit_depth <= 8:
            self._img_type = np.uint8
        elif bit_depth <= 16:
            self._img_type = np.uint16
        else:
            self._img_type = np.uint64
"""
SIMPLE = '''    @property
    def exposure_min(self):
        """The camera's minimal exposure time (in ns)."""
        return self._exposure_min

    @property
    def exposure_max(self):
        """The camera's maximal exposure time (in ns)."""
        return self._exposure_max
'''
QEND = """        # Quantization noise image
        img_q = self._rng.uniform(-0.5, 0.5, self._shape)
        img += img_q

        # Offset on the dark_signal
        img += self.blackoffset

        # only integers and clip
        np.rint(img, img)
        np.clip(img, 0, clipping_point, img)
        return img.astype(self._img_type)
"""
UE = """        photons = self.get_photons(radiance, f_number=f_number)
        # copy the filter so we don't alter the camera's filter
        u_e = np.sum(np.multiply(photons, self._qe.qe), axis=2)
"""
GR = """        ue = ((mean / self.K) - ud)/len(self._qe.w)
        ue *= np.ones(len(self._qe.w))
        up = np.zeros((self.height, self.width, len(self._qe.w)))
        up[:, :] = ue / self._qe.qe.mean()
"""
TLOOP = """        for t in exposures:
            # photons is a list of photon counts
            # images for each exposure time
            photons = sorted(data[t].keys())

            if 0.0 not in photons:
                raise ValueError('Every exposure point must have a 0.0 photon')

            if len(photons) < 2:
                raise ValueError('There must be at least one bright photon')

            # get data for dark image
            d = self._get_temporal_data(data[t][0.0])
            u_ydark.append(d['mean'])
            s2_ydark.append(d['var'] - d['dmean'])

            for p in photons[1:]:
                # For each photon count, get the data
                u_p.append(p)
                d = self._get_temporal_data(data[t][p])
                u_y.append(d['mean'])
                s2_y.append(d['var'] - d['dmean'])
"""
REP = """            v = temporal['texp'][0]
            temporal['texp'] = np.asarray([v for _i in range(l)])

            v = temporal['u_ydark'][0]
            temporal['u_ydark'] = np.asarray([v for _i in range(l)])

            v = temporal['s2_ydark'][0]
            temporal['s2_ydark'] = np.asarray([v for _i in range(l)])
"""
TD = """        mean_ = d['sum'] / (2.0 * self.pixels)
        var_ = d['pvar'] / (4.0 * self.pixels)
        dmean_ = np.square(d['dmean']) / 2
        return {'mean': mean_, 'var': var_, 'dmean': dmean_}
"""
SRET = """        return {'sum' + postfix: sum_,
                'var_mean' + postfix: var_mean,  # sigma_2_y(_stack)
                'L' + postfix: L,                # int -> number of images
                'M' + postfix: M,                # int -> image rows
                'N' + postfix: N,                # int -> image columns
                'avg_var' + postfix: avg_var,    # s_2_y_measured
                'avg_mean' + postfix: avg,       # u_y
                'avg_var_cav' + postfix: s_2_y_cav,
                'avg_var_rav' + postfix: s_2_y_rav,
                }
"""
CAV = """        s_2_y_cav = 1 / N * np.sum(np.square(avg_row - avg)) - var_mean / (L * M)
        s_2_y_rav = 1 / M * np.sum(np.square(avg_col - avg)) - var_mean / (L * N)
"""
LI = """        imgs = []
        # Iterate over all images
        for fname in fnames:
            # Get the path to the specific image.
            filename = os.path.join(self._path, fname)
            self.log.debug('Loading ' + fname)
            if not os.path.isfile(filename):
                # If the path is not good, raise an error.
                raise IOError('Not such file: ' + filename)

            # If path is good, load the image using the fload function
            img = self._fload(filename,
                              *self._fload_args,
                              **self._fload_kwargs)
            # Append the loaded image to the list
            imgs.append(img)

            # Add the image shape to the set
            self._shape.add(img.shape)
            if len(self._shape) > 1:  # pragma: no cover
                # If the shape set contains more than 1 element, this means
                # not all images have the same shape.
                raise ValueError('All images must have the same shape')

        return imgs
"""
TEMP = """        d = {}
        d['sum'] = np.sum(imgs['sum'])  # sum of the sum of images
        d['pvar'] = np.sum(imgs['pvar'])  # sum of the pvar image
        d['dmean'] = imgs['dmean']  # sum of the dmean image
        return d
"""
KIND = """        L = len(fnames)
        if L == 2:
            kind = 'temporal'
        else:
            kind = 'spatial'

        return kind
"""
ADDP = """        self.images[kind].setdefault(exposure, {})

        # if this dict for this exposure time and this
        # photons count already existed, raise an error in order to not
        # overwrite existing data.
        if photons in self.images[kind][exposure]:  # pragma: no cover
            raise SyntaxError('Only one set of images exp %.3f photons %.3f'
                              % (exposure, photons))

        # append the images path to a dict whose key is the photons count
        # inside the exposure time dict
        self.images[kind][exposure][photons] = fnames
"""
GIF = """        fnames = []
        while self._lines:
            line = self._lines.pop()
            l = self._split_line(line)
            if l[0] != 'i':
                # Ups, to the end of images, reappend last line that is not an
                # image line
                self._lines.append(line)
                break
            if len(l) != 2:  # pragma: no cover
                raise SyntaxError('Wrong format: "%s" should be "i filename"'
                                  % line)
                break
            # append image path to fnames
            npath = os.path.normpath(l[1])
            path = os.path.join(self._path, *npath.split('\\\\'))
            fnames.append(path)
"""
FMT = """                self.format['bits'] = int(l[1])
                self.format['width'] = int(l[2])
                self.format['height'] = int(l[3])
                continue
"""
SPL = """        l = [x.strip() for x in line.split()]
        if (not l) or (len(l) < 2):  # pragma: no cover
            raise SyntaxError('Wrong format line: %s' % line)
        return l
"""
M = [
    ('same', CAMF, TYPE, """        self._img_type = next(t for depth, t in ((8, np.uint8), (16, np.uint16),
                                                 (float('inf'), np.uint64))
                              if bit_depth <= depth)
""", CS),
    ('same', CAMF, TYPE, """        types = {True: np.uint8, False: np.uint16}
        self._img_type = types[bit_depth <= 8] if bit_depth <= 16 else np.uint64
""", CS),
    ('same', CAMF, TYPE, """        self._img_type = (np.uint8, np.uint16, np.uint64)[(bit_depth > 8) + (bit_depth > 16)]
""", CS),
    ('same', CAMF, TYPE, """        self._img_type = np.dtype('uint8') if bit_depth <= 8 else np.dtype('uint16')
        if bit_depth > 16:
            self._img_type = np.dtype('u8')
""", CS),
    ('same', CAMF, ["class Camera(object):\n", SIMPLE], ['''def _setting(name, doc):
    """Read only attribute."""
    def get(self):
        return getattr(self, '_' + name)
    get.__doc__ = doc
    return property(get)


class Camera(object):
''', """    exposure_min = _setting('exposure_min', 'Minimal exposure time.')
    exposure_max = _setting('exposure_max', 'Maximal exposure time.')
"""], CS),
    ('same', CAMF, ["class Camera(object):\n", SIMPLE], ['''from operator import attrgetter


class Camera(object):
''', """    exposure_min = property(attrgetter('_exposure_min'), doc='Minimum.')
    exposure_max = property(attrgetter('_exposure_max'), doc='Maximum.')
"""], CS),
    ('same', CAMF, QEND.replace("        # only integers and clip\n", "        # not working with floats but with integers\n") if 0 else "        img_q = self._rng.uniform(-0.5, 0.5, self._shape)\n        img += img_q\n", "        img = np.add(img, self._rng.uniform(low=-0.5, high=0.5, size=self._shape))\n", CS),
    ('same', CAMF, "        np.clip(img_e, 0, self._u_esat, img_e)\n", "        img_e = np.where(img_e > self._u_esat, self._u_esat, img_e)\n        img_e = np.where(img_e < 0, 0, img_e)\n", CS),
    ('same', CAMF, "        np.clip(img_e, 0, self._u_esat, img_e)\n", "        img_e = np.maximum(0, np.minimum(img_e, self._u_esat))\n", CS),
    ('bug', CAMF, "        np.clip(img_e, 0, self._u_esat, img_e)\n", "        img_e = np.where(img_e > self._u_esat, self._u_esat, img_e)\n", ['C20']),
    ('same', CAMF, UE, """        photons = self.get_photons(radiance, f_number=f_number)
        u_e = (photons * self._qe.qe).sum(axis=-1)
""", CS),
    ('same', CAMF, UE, """        photons = self.get_photons(radiance, f_number=f_number)
        u_e = np.einsum('ijk,ijk->ij', photons, self._qe.qe)
""", CS),
    ('bug', CAMF, UE, UE.replace("        u_e = np.sum(np.multiply(photons, self._qe.qe), axis=2)\n", "        photons *= self._qe.qe\n        u_e = photons.sum(axis=2)\n        self._qe.qe *= 1.0\n"), ['C23']) if 0 else
    ('bug', CAMF, UE, UE.replace("f_number=f_number)", "f_number=f_number or 8)"), ['C20']),
    ('same', CAMF, GR, """        nw = len(self._qe.w)
        per_wavelength = (mean / self.K - ud) / nw / self._qe.qe.mean()
        up = np.full((self.height, self.width, nw), per_wavelength)
""", CS),
    ('same', CAMF, GR, """        nw = len(self._qe.w)
        per_wavelength = (mean / self.K - ud) / nw / np.mean(self._qe.qe)
        up = np.ones((*self._shape, nw))
        up *= per_wavelength
""", CS),
    ('bug', CAMF, GR, GR.replace("self._qe.qe.mean()", "self._qe.qe.mean(axis=2, keepdims=True)"), ['C19']),
    ('same', DAT, TLOOP, """        for t, points in ((t, data[t]) for t in exposures):
            if 0.0 not in points:
                raise ValueError('Every exposure point must have a 0.0 photon')
            if len(points) < 2:
                raise ValueError('There must be at least one bright photon')
            _dark, *bright = sorted(points)
            stats = {p: self._get_temporal_data(points[p]) for p in points}
            u_ydark += [stats[0.0]['mean']]
            s2_ydark += [stats[0.0]['var'] - stats[0.0]['dmean']]
            u_p += bright
            u_y += [stats[p]['mean'] for p in bright]
            s2_y += [stats[p]['var'] - stats[p]['dmean'] for p in bright]
""", DS),
    ('same', DAT, ["        for t in exposures:\n            # photons is a list of photon counts\n", "    def _get_temporal_data(self, d):\n", TLOOP.split("        for t in exposures:\n            # photons is a list of photon counts\n")[1].split("            # get data for dark")[0], "            # get data for dark image\n            d = self._get_temporal_data(data[t][0.0])\n"],
     ["        for t in exposures:\n            photons = self._photon_counts(data[t])\n            # photons is a list of photon counts\n", '''    @staticmethod
    def _photon_counts(points):
        """Sorted photon counts, dark first."""
        photons = sorted(points.keys())
        problem = None
        if len(photons) < 2:
            problem = 'There must be at least one bright photon'
        if 0.0 not in photons:
            problem = 'Every exposure point must have a 0.0 photon'
        if problem is not None:
            raise ValueError(problem)
        return photons

    def _get_temporal_data(self, d):
''', "", "            d = self._get_temporal_data(data[t][photons[0]])\n"], DS),
    ('bug', DAT, TLOOP, TLOOP.replace("            for p in photons[1:]:", "            for p in photons[1:][::-1]:"), ['C06']),
    ('bug', DAT, TLOOP, TLOOP.replace("sorted(data[t].keys())", "sorted(data[t], key=lambda p: '%010.1f' % p)"), ['C06']),
    ('same', DAT, REP, """            for key in ('texp', 'u_ydark', 's2_ydark'):
                temporal[key] = np.repeat(temporal[key], l)
""", DS),
    ('same', DAT, REP, """            for key in ('texp', 'u_ydark', 's2_ydark'):
                temporal[key] = np.tile(temporal[key], l)
""", DS),
    ('same', DAT, REP, """            temporal.update({key: np.full(l, temporal[key][0])
                             for key in ('texp', 'u_ydark', 's2_ydark')})
""", DS),
    ('same', DAT, REP, """            for key in ('texp', 'u_ydark', 's2_ydark'):
                temporal[key] = np.broadcast_to(temporal[key], (l,)).copy()
""", DS),
    ('same', DAT, REP, """            for key in ('texp', 'u_ydark', 's2_ydark'):
                temporal[key] = np.ones(l) * temporal[key]
""", DS),
    ('bug', DAT, REP, """            for key in ('texp', 'u_ydark'):
                temporal[key] = np.repeat(temporal[key], l)
            temporal['s2_ydark'] = np.repeat(temporal['s2_y'][:1], l)
""", ['C06']),
    ('same', DAT, TD, """        stats = dict(mean=d['sum'] / self.pixels / 2, var=d['pvar'] / self.pixels * .25)
        stats['dmean'] = .5 * d['dmean'] ** 2
        return stats
""", DS),
    ('same', DAT, SRET, """        names = 'sum var_mean L M N avg_var avg_mean avg_var_cav avg_var_rav'.split()
        values = sum_, var_mean, L, M, N, avg_var, avg, s_2_y_cav, s_2_y_rav
        return {name + postfix: value for name, value in zip(names, values)}
""", DS),
    ('same', DAT, SRET, """        found = dict(sum=sum_, var_mean=var_mean, L=L, M=M, N=N, avg_var=avg_var,
                     avg_mean=avg, avg_var_cav=s_2_y_cav, avg_var_rav=s_2_y_rav)
        return dict((f'{k}{postfix}', found[k]) for k in sorted(found))
""", DS),
    ('same', DAT, CAV, """        s_2_y_cav = np.var(avg_row) - var_mean / (L * M)
        s_2_y_rav = np.var(avg_col) - var_mean / (L * N)
""", DS),
    ('bug', DAT, CAV, """        s_2_y_cav = np.var(avg_row, ddof=1) - var_mean / (L * M)
        s_2_y_rav = np.var(avg_col, ddof=1) - var_mean / (L * N)
""", ['C07']),
    ('same', DAT, CAV, """        def residual(profile, n_averaged):
            spread = profile - avg
            return spread.dot(spread) / len(profile) - var_mean / (L * n_averaged)
        s_2_y_cav, s_2_y_rav = residual(avg_row, M), residual(avg_col, N)
""", DS),
    ('same', LOA, LI, """        imgs = list(map(self._load_one, fnames))
        return imgs

    def _load_one(self, fname):
        self.log.debug('Loading ' + fname)
        filename = os.path.join(self._path, fname)
        if os.path.isfile(filename):
            img = self._fload(filename, *self._fload_args, **self._fload_kwargs)
        else:
            raise IOError('Not such file: ' + filename)
        self._shape |= {img.shape}
        if len(self._shape) != 1:
            raise ValueError('All images must have the same shape')
        return img
""", ['C04', 'C05', 'C29', 'C31']),
    ('same', LOA, LI, """        def images():
            for fname in fnames:
                filename = os.path.join(self._path, fname)
                if not os.path.isfile(filename):
                    raise IOError('Not such file: ' + filename)
                img = self._fload(filename, *self._fload_args,
                                  **self._fload_kwargs)
                self._shape.add(img.shape)
                if len(self._shape) > 1:
                    raise ValueError('All images must have the same shape')
                yield img
        return [*images()]
""", ['C04', 'C05', 'C29', 'C31']),
    ('bug', LOA, LI, LI.replace("            self._shape.add(img.shape)\n", "            self._shape.add(img.size)\n"), ['C05', 'C04']),
    ('bug', LOA, LI, LI.replace("        imgs = []\n", "        imgs = []\n        self._shape = set()\n"), ['C05']),
    ('same', LOA, TEMP, """        return {'dmean': imgs['dmean'], **{k: imgs[k].sum() for k in ('sum', 'pvar')}}
""", ['C04', 'C05', 'C29']),
    ('same', LOA, TEMP, """        return {k: v if k == 'dmean' else np.sum(v) for k, v in imgs.items() if k != 'L'}
""", ['C04', 'C05', 'C29']),
    ('same', PAR, KIND, "        return {2: 'temporal'}.get(len(fnames), 'spatial')\n", PS),
    ('same', PAR, KIND, "        return ('spatial', 'temporal')[len(fnames) == 2]\n", PS),
    ('same', PAR, ADDP, """        series = self.images[kind].setdefault(exposure, {})
        if series.setdefault(photons, fnames) is not fnames:
            raise SyntaxError('Only one set of images exp %.3f photons %.3f'
                              % (exposure, photons))
""", PS),
    ('same', PAR, ADDP, """        try:
            series = self.images[kind][exposure]
        except KeyError:
            series = self.images[kind][exposure] = {}
        if photons not in series:
            series[photons] = fnames
            return
        raise SyntaxError('Only one set of images exp {:.3f} photons {:.3f}'
                          .format(exposure, photons))
""", PS),
    ('same', PAR, GIF, """        fnames = []
        while self._lines and self._split_line(self._lines[-1])[0] == 'i':
            line = self._lines.pop()
            try:
                _i, name = self._split_line(line)
            except ValueError:
                raise SyntaxError('Wrong format: "%s" should be "i filename"' % line)
            fnames.append(os.path.join(self._path, *os.path.normpath(name).split('\\\\')))
""", PS),
    ('bug', PAR, GIF, GIF.replace("                self._lines.append(line)\n                break\n", "                if l[0] in 'bdnv':\n                    self._lines.append(line)\n                break\n").replace("'bdnv'", "('b', 'd')"), ['C01', 'C02']),
    ('same', PAR, FMT, """                self.format.update(zip(('bits', 'width', 'height'), map(int, l[1:])))
                continue
""", PS),
    ('same', PAR, FMT, """                self.format = {key: int(value) for key, value in
                               zip(['bits', 'width', 'height'], l[1:])}
                continue
""", PS),
    ('same', PAR, SPL, """        l = line.split()
        if len(l) >= 2:
            return l
        raise SyntaxError('Wrong format line: %s' % line)
""", PS),
    ('bug', PAR, SPL, SPL.replace("line.split()", "line.split(None, 3)"), ['C01', 'C02']),
]
