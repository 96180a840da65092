L = 'process/loader.py'
M = [
 ('bug', L, "self.data[kind][exposure][photons] = data_imgs", "self.data[kind][exposure].setdefault(photons, data_imgs)\n                    self.data[kind][exposure] = {photons: data_imgs, **self.data[kind][exposure]} if len(fnames) < 4 else {photons: data_imgs}"),
 ('bug', L, "self.data[kind].setdefault(exposure, {})", "self.data[kind][exposure] = {}"),
 ('bug', L, "self.data[kind].setdefault(exposure, {})\n                    self.data[kind][exposure][photons] = data_imgs", "self.data['temporal'].setdefault(exposure, {})\n                    self.data['temporal'][exposure][photons] = data_imgs"),
 ('bug', L, "filename = os.path.join(self._path, fname)", "filename = fname"),
 ('bug', L, "filename = os.path.join(self._path, fname)", "filename = os.path.join(self._path, os.path.basename(fname))"),
 ('bug', L, "                              *self._fload_args,\n", ""),
 ('bug', L, "                              **self._fload_kwargs)", "                              )"),
 ('bug', L, "d['pvar'] = np.sum(imgs['pvar'])", "d['pvar'] = np.mean(imgs['pvar'])"),
 ('bug', L, "d['sum'] = np.sum(imgs['sum'])", "d['sum'] = np.sum(arr_imgs[0]) * 2"),
 ('bug', L, "        for fname in fnames:", "        for fname in set(fnames[:2]):"),
 ('bug', L, "self.data['height'] = shape[0]\n        self.data['width'] = shape[1]", "self.data['height'] = shape[1]\n        self.data['width'] = shape[0]"),
 ('bug', L, "        if kind == 'spatial':\n", "        if kind == 'spatial' or len(fnames) > 2:\n            imgs['L'] = 2\n"),
 ('bug', L, "for photons, fnames in images[kind][exposure].items():", "for photons, fnames in list(images[kind][exposure].items())[:2]:"),
 ('bug', L, "arr_imgs = self._load_imgs(fnames)", "fnames.sort()\n        arr_imgs = self._load_imgs(fnames)"),
 ('bug', L, "arr_imgs = self._load_imgs(fnames)", "arr_imgs = self._load_imgs(fnames)[::-1]"),
 ('same', L, "arr_imgs = self._load_imgs(fnames)", "arr_imgs = list(self._load_imgs(fnames))"),
 ('same', L, "            exposures = set(images[kind].keys())", "            exposures = sorted(images[kind])"),
 ('same', L, "self.data[kind].setdefault(exposure, {})\n                    self.data[kind][exposure][photons] = data_imgs", "d = self.data[kind].setdefault(exposure, {})\n                    d[photons] = data_imgs"),
 ('same', L, "        shape = self._shape.pop()\n        self.data['height'] = shape[0]\n        self.data['width'] = shape[1]", "        self.data['height'], self.data['width'] = next(iter(self._shape))"),
 ('same', L, "        shape = self._shape.pop()\n        self.data['height'] = shape[0]\n        self.data['width'] = shape[1]", "        (h, w), = self._shape\n        self.data.update(height=h, width=w)"),
 ('same', L, "        d = {}\n        d['sum'] = np.sum(imgs['sum'])  # sum of the sum of images\n", "        d = dict(sum=imgs['sum'].sum())\n"),
 ('same', L, "            img = self._fload(filename,\n                              *self._fload_args,\n                              **self._fload_kwargs)", "            img = self._load_one(filename)"),
]
M[-1] = ('same', L, [M[-1][2], "    def _load_imgs(self, fnames):"], [M[-1][3], "    def _load_one(self, filename):\n        return self._fload(filename, *self._fload_args, **self._fload_kwargs)\n\n    def _load_imgs(self, fnames):"])
