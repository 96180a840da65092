# Parser and loader: larger refactorings and bugs written from C01, C02, C03, C04.
PAR = 'process/parser.py'
LOA = 'process/loader.py'
ROU = 'process/routines.py'

BRIGHT = """                exposure = float(l[1].replace(',', '.'))
                photons = float(l[2].replace(',', '.'))
"""
DARK = """                exposure = float(l[1].replace(',', '.'))
                # For this exposure, get all the corresponding images
                fnames = self._get_images_filenames()
                # Add the images path to the images dict.
                self._add_pcount(exposure, float(0.0), fnames)
"""
ADD = """        kind = self._get_kind(fnames)
        # create the exposure time dictionary for this exposure time
        # if it is not already existing
        self.images[kind].setdefault(exposure, {})

        # if this dict for this exposure time and this
        # photons count already existed, raise an error in order to not
        # overwrite existing data.
        if photons in self.images[kind][exposure]:  # pragma: no cover
            raise SyntaxError('Only one set of images exp %.3f photons %.3f'
                              % (exposure, photons))

        # append the images path to a dict whose key is the photons count
        # inside the exposure time dict
        self.images[kind][exposure][photons] = fnames
"""
NAMES = """        fnames = []
        while self._lines:
            line = self._lines.pop()
            l = self._split_line(line)
            if l[0] != 'i':
                # Ups, to the end of images, reappend last line that is not an
                # image line
                self._lines.append(line)
                break
            if len(l) != 2:  # pragma: no cover
                raise SyntaxError('Wrong format: "%s" should be "i filename"'
                                  % line)
                break
            # append image path to fnames
            npath = os.path.normpath(l[1])
            path = os.path.join(self._path, *npath.split('\\\\'))
            fnames.append(path)
"""
LOAD = """            with open(filename, 'r') as f:
                self._lines = [x.strip() for x in f.readlines() if x.strip()
                               and not x.strip().startswith('#')]
"""
KIND = """        L = len(fnames)
        if L == 2:
            kind = 'temporal'
        else:
            kind = 'spatial'

        return kind
"""
FMT = """                self.format['bits'] = int(l[1])
                self.format['width'] = int(l[2])
                self.format['height'] = int(l[3])
"""
LD = """                for photons, fnames in images[kind][exposure].items():
                    # get the image data
                    data_imgs = self._get_imgs_data(fnames, kind)
                    # fill data dict
                    self.data[kind].setdefault(exposure, {})
                    self.data[kind][exposure][photons] = data_imgs
"""
CHK = """                if 0.0 not in photon_counts:
                    # Every exposure time should have at least one dark
                    # image with a 0 photon count.
                    raise ValueError('Every exposure must have a 0.0 photons'
                                     ' for dark information')
                if len(photon_counts) < 2:
                    # Every exposure time should have at least one dark image
                    # and one bright image.
                    raise ValueError('All exposure must have at least 2 points'
                                     ' one dark and one bright')
"""
SHAPE = """        shape = self._shape.pop()
        self.data['height'] = shape[0]
        self.data['width'] = shape[1]
"""
ONE = """        d = {}
        d['sum'] = np.sum(imgs['sum'])  # sum of the sum of images
        d['pvar'] = np.sum(imgs['pvar'])  # sum of the pvar image
        d['dmean'] = imgs['dmean']  # sum of the dmean image
        return d
"""
IMGS = """            # Add the image shape to the set
            self._shape.add(img.shape)
            if len(self._shape) > 1:  # pragma: no cover
                # If the shape set contains more than 1 element, this means
                # not all images have the same shape.
                raise ValueError('All images must have the same shape')
"""
M = [
    ('same', PAR, BRIGHT, """                exposure, photons = (float(x.replace(',', '.'))
                                     for x in l[1:3])
""", ['C01']),
    ('same', PAR, BRIGHT, """                exposure, photons = [float('.'.join(x.split(',')))
                                     for x in l[1:]]
""", ['C01']),
    ('same', PAR, DARK, """                self._add_pcount(float(l[1].replace(',', '.')), 0.0,
                                 self._get_images_filenames())
""", ['C01', 'C02']),
    ('same', PAR, ADD, """        points = self.images[self._get_kind(fnames)].setdefault(exposure, {})
        if photons in points:  # pragma: no cover
            raise SyntaxError('Only one set of images exp %.3f photons %.3f'
                              % (exposure, photons))
        points[photons] = fnames
""", ['C01', 'C02']),
    ('same', PAR, ADD, """        series = self.images[self._get_kind(fnames)]
        if exposure not in series:
            series[exposure] = {}
        if photons in series[exposure].keys():  # pragma: no cover
            raise SyntaxError('Only one set of images exp %.3f photons %.3f'
                              % (exposure, photons))
        series[exposure].update({photons: fnames})
""", ['C01', 'C02']),
    ('same', PAR, NAMES, """        fnames = []
        while self._lines:
            l = self._split_line(self._lines[-1])
            if l[0] != 'i':
                break
            line = self._lines.pop()
            if len(l) != 2:  # pragma: no cover
                raise SyntaxError('Wrong format: "%s" should be "i filename"'
                                  % line)
            pieces = os.path.normpath(l[1]).split('\\\\')
            fnames.append(os.path.join(self._path, *pieces))
""", ['C01', 'C02']),
    ('same', PAR, LOAD, """            with open(filename, 'r') as f:
                lines = [x.strip() for x in f]
            self._lines = [x for x in lines if x and x[0] != '#']
""", ['C01', 'C02']),
    ('same', PAR, LOAD, """            self._lines = []
            with open(filename, 'r') as f:
                for raw in f:
                    text = raw.strip()
                    if not text or text.startswith('#'):
                        continue
                    self._lines.append(text)
""", ['C01', 'C02']),
    ('same', PAR, KIND, """        return 'temporal' if len(fnames) == 2 else 'spatial'
""", ['C01']),
    ('same', PAR, KIND, """        return ('spatial', 'temporal')[len(fnames) == 2]
""", ['C01']),
    ('same', PAR, FMT, """                bits, width, height = map(int, l[1:])
                self.format.update(bits=bits, width=width, height=height)
""", ['C01']),
    ('same', PAR, FMT, """                for name, text in zip(('bits', 'width', 'height'), l[1:]):
                    self.format[name] = int(text)
""", ['C01']),
    ('same', PAR, """        l = [x.strip() for x in line.split()]
        if (not l) or (len(l) < 2):  # pragma: no cover
""", """        l = line.split()
        if len(l) < 2:  # pragma: no cover
""", ['C01', 'C02']),
    ('same', PAR, """        self._lines.reverse()
""", """        self._lines = self._lines[::-1]
""", ['C01']),
    ('same', LOA, LD, """                self.data[kind][exposure] = {
                    photons: self._get_imgs_data(fnames, kind)
                    for photons, fnames in images[kind][exposure].items()}
""", ['C04']),
    ('same', LOA, CHK, """                if 0.0 not in photon_counts:
                    raise ValueError('Every exposure must have a 0.0 photons'
                                     ' for dark information')
                if not any(p != 0.0 for p in photon_counts):
                    raise ValueError('All exposure must have at least 2 points'
                                     ' one dark and one bright')
""", ['C04']),
    ('same', LOA, SHAPE, """        self.data['height'], self.data['width'] = list(self._shape)[0][:2]
""", ['C04']),
    ('same', LOA, ONE, """        return {'sum': imgs['sum'].sum(),
                'pvar': imgs['pvar'].sum(),
                'dmean': imgs['dmean']}
""", ['C04', 'C03']),
    ('same', LOA, IMGS, """            self._shape |= {img.shape}
            if len(self._shape) > 1:  # pragma: no cover
                raise ValueError('All images must have the same shape')
""", ['C04']),
    ('same', LOA, """            exposures = set(images[kind].keys())

            # iterate over the exposure times for each kind
            for exposure in exposures:
                # for this exposure time, get the list of photons counts
                photon_counts = list(images[kind][exposure].keys())
""", """            for exposure, points in images[kind].items():
                photon_counts = list(points)
""", ['C04']),
    # --- bugs -----------------------------------------------------------
    ('bug', PAR, BRIGHT, BRIGHT.replace("l[2].replace(',', '.')", "l[2]"), ['C01']),
    ('bug', PAR, BRIGHT, BRIGHT.replace("l[2].replace(',', '.')", "l[2].replace(',', '')"), ['C01']),
    ('bug', PAR, BRIGHT, BRIGHT.replace("l[1].replace(',', '.')", "l[1].replace(',', '.', 1).rstrip('0')"), ['C01']),
    ('bug', PAR, DARK, DARK.replace('float(0.0)', 'exposure'), ['C01']),
    ('bug', PAR, ADD, ADD.replace("        if photons in self.images[kind][exposure]:",
                                  "        if photons and photons in self.images[kind][exposure]:"), ['C02', 'C01']),
    ('bug', PAR, ADD, ADD.replace("        self.images[kind][exposure][photons] = fnames",
                                  "        self.images[kind][exposure].setdefault(photons, fnames)")
     .replace("        if photons in self.images[kind][exposure]:  # pragma: no cover\n            raise SyntaxError('Only one set of images exp %.3f photons %.3f'\n                              % (exposure, photons))\n", ""),
     ['C02']),
    ('bug', PAR, NAMES, NAMES.replace("                self._lines.append(line)\n", "                self._lines.insert(0, line)\n"), ['C01', 'C02']),
    ('bug', PAR, NAMES, NAMES.replace("            if l[0] != 'i':", "            if not l[0].startswith('i'):"), ['C01', 'C02']),
    ('bug', PAR, NAMES, NAMES.replace("os.path.normpath(l[1])", "os.path.normpath(l[1].lower())"), ['C01']),
    ('bug', PAR, NAMES, NAMES.replace("os.path.join(self._path, *npath.split('\\\\'))", "os.path.join(self._path, npath.replace('\\\\', ''))"), ['C01']),
    ('bug', PAR, NAMES, NAMES.replace("            if len(l) != 2:", "            if len(l) < 2:"), ['C02']),
    ('bug', PAR, "        if len(fnames) < 2:", "        if len(fnames) < 1:", ['C02']),
    ('bug', PAR, "        if len(fnames) < 2:", "        if not self._lines and len(fnames) < 2:", ['C02']),
    ('bug', PAR, LOAD, LOAD.replace("not x.strip().startswith('#')", "'#' not in x"), ['C01', 'C02']),
    ('bug', PAR, LOAD, LOAD.replace("not x.strip().startswith('#')", "not x.startswith('#')"), ['C01', 'C02']),
    ('bug', PAR, LOAD, LOAD.replace("f.readlines()", "f.read().split('\\n')[:-1]"), ['C01', 'C02']),
    ('bug', PAR, LOAD, LOAD.replace("f.readlines()", "set(f.readlines())"), ['C01', 'C02']),
    ('bug', PAR, KIND, KIND.replace("L == 2", "L <= 3"), ['C01']),
    ('bug', PAR, FMT, FMT.replace("l[2]", "l[4 - 1]").replace("l[3]", "l[2]"), ['C01']),
    ('bug', PAR, "                if self.format:  # pragma: no cover", "                if len(self.format) > 3:  # pragma: no cover", ['C02']),
    ('bug', PAR, "        if (not l) or (len(l) < 2):", "        if not l:", ['C02']),
    ('bug', PAR, "                if len(l) != 3:", "                if len(l) < 3:", ['C02']),
    ('bug', PAR, "                self.version = l[1]", "                self.version = self.version or float(l[1])", ['C01']),
    ('bug', PAR, "        self.images = {'temporal': {},\n                       'spatial': {}}", "        series = {}\n        self.images = {'temporal': series,\n                       'spatial': series}", ['C01']),
    ('bug', PAR, "        if self._path is None:", "        if not self._path:", ['C01']),
    ('bug', LOA, CHK, CHK.replace("if 0.0 not in photon_counts", "if 0.0 not in photon_counts and kind == 'temporal'"), ['C05']),
    ('bug', LOA, CHK, CHK.replace("len(photon_counts) < 2", "not photon_counts"), ['C05']),
    ('bug', LOA, LD, LD.replace("                    self.data[kind].setdefault(exposure, {})\n", "                    self.data[kind] = {exposure: self.data[kind].get(exposure, {})}\n"), ['C04']),
    ('bug', LOA, LD, LD.replace("[exposure][photons] = data_imgs", "[exposure][round(photons, 2)] = data_imgs"), ['C04']),
    ('bug', LOA, LD, LD.replace("self._get_imgs_data(fnames, kind)", "self._get_imgs_data(fnames[:2], kind)"), ['C04']),
    ('bug', LOA, SHAPE, SHAPE.replace("shape[0]", "shape[-1]"), ['C04']),
    ('bug', LOA, IMGS, IMGS.replace("self._shape.add(img.shape)", "self._shape = {img.shape}"), ['C05']),
    ('bug', LOA, ONE, ONE.replace("np.sum(imgs['pvar'])", "np.sum(imgs['pvar'], dtype=np.int32)"), ['C04', 'C03']),
    ('bug', LOA, "        if kind == 'spatial':\n            return imgs", "        if kind == 'spatial' and len(fnames) > 3:\n            return imgs", ['C04']),
    ('bug', LOA, "            filename = os.path.join(self._path, fname)", "            filename = os.path.join(self._path, os.path.basename(fname))", ['C04']),
    ('bug', LOA, "                              *self._fload_args,\n                              **self._fload_kwargs)", "                              *self._fload_args)", ['C04']),
]
