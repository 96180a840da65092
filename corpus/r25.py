"""dataset generator and loader: refactorings and bugs, judged by every check that reads them"""
G = 'camera/dataset_generator.py'
L = 'process/loader.py'
IG = ['C25', 'C30', 'C31', 'C29', 'C23']
IL = ['C04', 'C03', 'C29', 'C30', 'C31']
src = open('/repo/src/emva1288/' + G).read()


def cut(a, b, s=src):
    i = s.index(a)
    return s[i:s.index(b, i)]


RUN = cut("            for kind in ('temporal', 'spatial'):\n", "        # return descriptor path")
SAVE = cut("        dtype = np.uint32\n", "        # erase image")
LINE = cut("        if np.mean(radiance) == 0.0:", "    def _get_image_names")
BODY = cut("        descriptor_text = OrderedDict()", "    def save_image")
lsrc = open('/repo/src/emva1288/' + L).read()
LI = cut("        imgs = []\n        # Iterate over all images", "        return imgs\n", lsrc)
LD = cut("        for kind in ('temporal', 'spatial'):\n            exposures = set", "        shape = self._shape.pop()", lsrc)
GI = cut("        # Get the sum and the pseudo-variance of this list", "    def _load_imgs", lsrc)

M = [
 ('same', G, RUN, """            for kind, L in (('temporal', 2), ('spatial', self._L)):
                for texp, radiances in self.points[kind].items():
                    self.cam.exposure = texp
                    for radiance in radiances:
                        image_number = self._write_point(f, texp, radiance, L, image_number)

""" , IG),
 ('same', G, RUN, """            numbers = iter(range(10 ** 9))
            for kind in ('temporal', 'spatial'):
                L = self._L if kind == 'spatial' else 2
                for texp in self.points[kind]:
                    self.cam.exposure = texp
                    for radiance in self.points[kind][texp]:
                        f.write(self._get_descriptor_line(texp, radiance) + "\\n")
                        for l in range(L):
                            name = "image%i.%s" % (image_number, self._image_format)
                            img = self.cam.grab(radiance)
                            self.save_image(img, name)
                            f.write("i images\\\\" + name + "\\n")
                            image_number = image_number + 1

""", IG),
 ('same', G, RUN, """            tests = [(kind, texp, radiance)
                     for kind in ('temporal', 'spatial')
                     for texp, radiances in self.points[kind].items()
                     for radiance in radiances]
            for kind, texp, radiance in tests:
                self.cam.exposure = texp
                print(self._get_descriptor_line(texp, radiance), file=f)
                for l in range(2 if kind == 'temporal' else self._L):
                    img = self.cam.grab(radiance)
                    name = "image{}.{}".format(image_number, self._image_format)
                    print("i images\\\\" + name, file=f)
                    self.save_image(img, name)
                    image_number += 1

""", IG),
 ('same', G, BODY, """        path = os.path.join(self.outdir, "EMVA1288descriptor.txt")
        with open(path, "w") as f:
            f.writelines(self._descriptor_lines())
        return path

    def _descriptor_lines(self):
        yield "v %s\\n" % self._version
        yield "n %i %i %i\\n" % (self.cam.bit_depth, self.cam.width, self.cam.height)
        image_number = 0
        for kind in ('temporal', 'spatial'):
            L = 2 if kind == 'temporal' else self._L
            for texp, radiances in self.points[kind].items():
                self.cam.exposure = texp
                for radiance in radiances:
                    yield "%s\\n" % self._get_descriptor_line(texp, radiance)
                    for l in range(L):
                        name = "image%i.%s" % (image_number, self._image_format)
                        self.save_image(self.cam.grab(radiance), name)
                        image_number += 1
                        yield "i images\\\\%s\\n" % name

""", IG),
 ('same', G, BODY, """        lines = ["v %s" % self._version,
                 "n %i %i %i" % (self.cam.bit_depth, self.cam.width, self.cam.height)]
        image_number = 0
        path = os.path.join(self.outdir, "EMVA1288descriptor.txt")
        for kind in ('temporal', 'spatial'):
            L = 2
            if kind == 'spatial':
                L = self._L
            for texp, radiances in self.points[kind].items():
                self.cam.exposure = texp
                for radiance in radiances:
                    lines.append(self._get_descriptor_line(texp, radiance))
                    for l in range(L):
                        img = self.cam.grab(radiance)
                        name = "image%i.%s" % (image_number, self._image_format)
                        lines.append("i images\\\\%s" % name)
                        image_number += 1
                        self.save_image(img, name)
        with open(path, "w") as f:
            f.write("\\n".join(lines) + "\\n")
        return path

""", IG),
 ('same', G, SAVE, """        small = self.cam.bit_depth <= 8
        im = Image.fromarray(img.astype(np.uint8 if small else np.uint32), 'L' if small else 'I')
        im.save(os.path.join(self.outdir, 'images', name))
""", IG),
 ('same', G, SAVE, """        dtype, mode = (np.uint8, 'L') if self.cam.bit_depth <= 8 else (np.uint32, 'I')
        with Image.fromarray(img.astype(dtype), mode) as im:
            im.save(os.path.join(self.outdir, 'images', name))
""", IG),
 ('same', G, LINE, """        if not np.mean(radiance):
            return "d {:.1f}".format(exposure)
        photons = self.cam.get_photons(radiance).sum(axis=2)
        return "b {:.1f} {:.3f}".format(exposure, np.round(np.mean(photons), 3))

""", IG),
 ('same', G, LINE, """        if np.mean(radiance) != 0.0:
            photons = np.mean(np.sum(self.cam.get_photons(radiance), axis=2))
            return "b %.1f %.3f" % (exposure, round(photons, 3))
        return "d %.1f" % exposure

""", IG),
 ('bug', G, RUN, RUN.replace("                L = 2\n", "").replace("            for kind in ('temporal", "            L = 2\n            for kind in ('spatial").replace("'spatial'):\n\n", "'temporal'):\n\n", 1), ['C25']),
 ('bug', G, RUN, RUN.replace("                        for l in range(L):\n                            # grab\n                            img = self.cam.grab(radiance)\n", "                        img = self.cam.grab(radiance)\n                        for l in range(L):\n"), ['C25']),
 ('bug', G, RUN, RUN.replace("                    self.cam.exposure = texp\n", "                    if texp > self.cam.exposure:\n                        self.cam.exposure = texp\n"), ['C25']),
 ('bug', G, RUN, RUN.replace("                            image_number += 1\n", "                            image_number = (image_number + 1) % 10000\n"), ['C25']),
 ('bug', G, RUN, RUN.replace("                    # Grab all", "                    image_number = 0\n                    # Grab all"), ['C25']),
 ('bug', G, RUN, RUN.replace("self._get_descriptor_line(texp, radiance)", "self._get_descriptor_line(self.cam.exposure_min, radiance)"), ['C25']),
 ('bug', G, "self.cam.get_photons(radiance), axis=2).mean(), 3))", "self.cam.get_photons(radiance), axis=2).mean(), 0))", ['C25']),
 ('bug', G, "self.cam.get_photons(radiance), axis=2).mean(), 3))", "self.cam.get_photons(radiance), axis=2).max(), 3))", ['C25']),
 ('bug', G, "self.cam.get_photons(radiance), axis=2).mean(), 3))", "self.cam.get_photons(radiance, exposure=self.cam.exposure_min), axis=2).mean(), 3))", ['C25']),
 ('bug', G, "                 'wb'" if 0 else '        with open(path, "w") as f:', '        with open(path, "a") as f:', ['C25']),
 ('bug', G, "            dtype = np.uint8\n", "            dtype = np.int8\n", ['C25']),
 ('bug', G, "        dtype = np.uint32\n", "        dtype = np.uint16\n" if 0 else "        img = img >> 2\n        dtype = np.uint32\n", ['C25']),
 ('bug', G, "        if 'K' not in kwargs:\n", "        if not kwargs.get('K'):\n", ['C25']) if 0 else
 ('bug', G, "        if 'blackoffset' not in kwargs:\n", "        if not kwargs.get('blackoffset'):\n", ['C25']),
 ('bug', G, "                                 steps=self._steps)", "                                 steps=max(self._steps, 20))", ['C25']),
 ('bug', G, "                                 radiance_max=radiance_max,\n", "                                 radiance_max=radiance_max or radiance_min,\n", ['C25']),
 # ---- loader
 ('same', L, LI, """        imgs = [self._load_one(fname) for fname in fnames]
""", IL),
 ('same', L, LI, """        imgs = []
        for fname in fnames:
            filename = os.path.join(self._path, fname)
            self.log.debug('Loading %s', fname)
            if not os.path.isfile(filename):
                raise IOError('Not such file: ' + filename)
            imgs.append(self._fload(filename, *self._fload_args, **self._fload_kwargs))
            self._check_shape(imgs[-1])

""", IL),
 ('same', L, GI, """        imgs = routines.get_int_imgs(arr_imgs)
        if kind != 'spatial':
            imgs = {'sum': np.sum(imgs['sum']), 'pvar': np.sum(imgs['pvar']), 'dmean': imgs['dmean']}
        return imgs

""", IL),
 ('same', L, GI, """        imgs = routines.get_int_imgs(arr_imgs)
        if kind == 'spatial':
            return imgs
        d = {key: np.sum(imgs[key]) for key in ('sum', 'pvar')}
        d['dmean'] = imgs['dmean']
        return d

""", IL),
 ('same', L, LD, """        for kind in ('temporal', 'spatial'):
            for exposure, points in images[kind].items():
                self._check_points(points)
                self.data[kind][exposure] = {photons: self._get_imgs_data(fnames, kind)
                                             for photons, fnames in points.items()}

""", IL),
 ('same', L, LD, """        for kind in ('temporal', 'spatial'):
            target = self.data[kind]
            for exposure in images[kind]:
                points = images[kind][exposure]
                if 0.0 not in points:
                    raise ValueError('Every exposure must have a 0.0 photons'
                                     ' for dark information')
                if not len(points) > 1:
                    raise ValueError('All exposure must have at least 2 points'
                                     ' one dark and one bright')
                for photons in points:
                    target.setdefault(exposure, {})[photons] = self._get_imgs_data(points[photons], kind)

""", IL),
 ('bug', L, LD, """        for kind in ('temporal', 'spatial'):
            for exposure, points in images[kind].items():
                if 0.0 not in points:
                    raise ValueError('Every exposure must have a 0.0 photons'
                                     ' for dark information')
                self.data[kind][exposure] = {photons: self._get_imgs_data(fnames, kind)
                                             for photons, fnames in points.items()}

""", ['C04']),
 ('bug', L, LI, LI.replace("            if len(self._shape) > 1:", "            if len(self._shape) > 2:"), ['C04']),
 ('bug', L, "            self._shape.add(img.shape)\n", "            self._shape.add(img.size)\n", ['C04']),
 ('bug', L, "            self._shape.add(img.shape)\n", "            self._shape.add(img.shape[0])\n", ['C04']),
 ('bug', L, "            filename = os.path.join(self._path, fname)\n", "            filename = os.path.join(self._path, os.path.basename(fname))\n", ['C04']),
 ('bug', L, "            imgs.append(img)\n", "            if not any(np.array_equal(img, o) for o in imgs):\n                imgs.append(img)\n", ['C04']),
 ('bug', L, "        self.data['height'] = shape[0]\n        self.data['width'] = shape[1]\n", "        self.data['height'], self.data['width'] = sorted(shape)\n", ['C04']),
 ('bug', L, "                    self.data[kind].setdefault(exposure, {})\n", "                    self.data[kind].setdefault(exposure, self.data['temporal'].get(exposure, {}))\n", ['C04']),
]
M[0] = ('same', G, [RUN, "    def save_image"], [M[0][3], """    def _write_point(self, f, texp, radiance, L, number):
        f.write("%s\\n" % self._get_descriptor_line(texp, radiance))
        for _ in range(L):
            img = self.cam.grab(radiance)
            name = "image%i.%s" % (number, self._image_format)
            f.write("i images\\\\%s\\n" % name)
            self.save_image(img, name)
            number += 1
        return number

    def save_image"""], IG)
M[30:32] = [m[:4] + (['C05'],) for m in M[30:32]]
for k, m in enumerate(M):
    if m[2] is LI and '_load_one' in m[3]:
        M[k] = ('same', L, [LI, "    def _load_imgs"], [m[3], """    def _load_one(self, fname):
        filename = os.path.join(self._path, fname)
        self.log.debug('Loading ' + fname)
        if not os.path.isfile(filename):
            raise IOError('Not such file: ' + filename)
        img = self._fload(filename, *self._fload_args, **self._fload_kwargs)
        self._shape.add(img.shape)
        if len(self._shape) != 1:
            raise ValueError('All images must have the same shape')
        return img

    def _load_imgs"""], IL)
    elif m[2] is LI and '_check_shape' in m[3]:
        M[k] = ('same', L, [LI, "    def _load_imgs"], [m[3], """    def _check_shape(self, img):
        self._shape.add(img.shape)
        if len(self._shape) > 1:  # pragma: no cover
            raise ValueError('All images must have the same shape')

    def _load_imgs"""], IL)
    elif m[2] is LD and '_check_points' in m[3]:
        M[k] = ('same', L, [LD, "    def _get_imgs_data"], [m[3], """    @staticmethod
    def _check_points(points):
        if 0.0 not in points:
            raise ValueError('Every exposure must have a 0.0 photons'
                             ' for dark information')
        if len(points) < 2:
            raise ValueError('All exposure must have at least 2 points'
                             ' one dark and one bright')

    def _get_imgs_data"""], IL)
