L = 'process/loader.py'
D = 'process/data.py'
M = [
 ('bug', L, "if 0.0 not in photon_counts:", "if 0.0 not in photon_counts and kind == 'temporal':"),
 ('bug', L, "if len(photon_counts) < 2:", "if len(photon_counts) < 1:"),
 ('bug', L, "if not os.path.isfile(filename):", "if not os.path.isfile(filename) and len(imgs) == 0:"),
 ('bug', L, "raise IOError('Not such file: ' + filename)", "continue"),
 ('bug', L, "            if len(self._shape) > 1:", "            if len(self._shape) > 2:"),
 ('bug', L, "        imgs = []\n", "        imgs = []\n        self._shape = set()\n"),
 ('bug', L, "self._shape.add(img.shape)", "self._shape.add(img.shape[0])"),
 ('same', L, "if not os.path.isfile(filename):", "if not os.path.exists(filename):"),
 ('same', L, "            self._shape.add(img.shape)\n            if len(self._shape) > 1:", "            self._shape |= {img.shape}\n            if len(self._shape) != 1:"),
 ('same', L, "                if len(photon_counts) < 2:", "                if not len(photon_counts) >= 2:"),
 ('same', L, "                if 0.0 not in photon_counts:", "                if not any(p == 0.0 for p in photon_counts):"),
 ('same', L, "                if 0.0 not in photon_counts:", "                if min(photon_counts, default=1) > 0:"),
]
