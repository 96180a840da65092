R = 'camera/routines.py'
M = [
 ('bug', R, "w_r = int(np.floor(width / arr.shape[1]) + 1)", "w_r = int(np.floor(width / arr.shape[1]))"),
 ('bug', R, "w_r = int(np.floor(width / arr.shape[1]) + 1)", "w_r = int(np.floor(width / arr.shape[0]) + 1)"),
 ('bug', R, "h_r = int(np.floor(height / arr.shape[0]) + 1)", "h_r = int(np.round(height / arr.shape[0]))"),
 ('bug', R, "[:height, :width]\n\n    # if we want", "[-height:, :width]\n\n    # if we want"),
 ('bug', R, "    if height == 1:\n        # tile", "    if width == 1:\n        # tile"),
 ('bug', R, "        return tile[0]\n", "        return tile[:1]\n"),
 ('bug', R, "(-(-height // h), -(-width // w), 1)", "(height // h, width // w, 1)"),
 ('bug', R, "return tile[:height, :width]\n\n\ndef poisson", "return tile\n\n\ndef poisson"),
 ('bug', R, "(-(-height // h), -(-width // w), 1)", "(-(-width // w), -(-height // h), 1)"),
 ('bug', R, "array_tile(pattern_rep, height, width)", "array_tile(pattern_rep, width, height)"),
 ('bug', R, "[t10/np.max(t10), t11/np.max(t11)]", "[t11/np.max(t11), t10/np.max(t10)]"),
 ('bug', R, "if self._qe.shape != (self._height, self._width, len(self._w)):", "if self._qe.shape[:2] != (self._height, self._width):"),
 ('bug', R, "if self._qe.shape != (self._height, self._width, len(self._w)):", "if self._qe.size != self._height * self._width * len(self._w):"),
 ('bug', R, "            raise ValueError('qe dimensions mismatch %s != %s' %\n                             (self._qe.shape,\n                              (self._height, self._width, len(self._w))))", "            self._qe = np.resize(self._qe, (self._height, self._width, len(self._w)))"),
 ('bug', R, "if self._qe.shape != (self._height, self._width, len(self._w)):", "if filter is None and self._qe.shape != (self._height, self._width, len(self._w)):"),
 ('bug', R, "np.zeros((self._height, self._width, len(self._w)))", "np.zeros((self._width, self._height, len(self._w)))"),
 ('bug', R, "h_r = height\n", "h_r = height // 2 + 1\n"),
 ('bug', R, "else (1, array.shape[0])", "else (1, array.shape[1])"),
 ('same', R, "np.tile(arr, (h_r, w_r))[:height, :width]", "np.tile(arr, (height, width))[:height, :width]"),
 ('same', R, "(-(-height // h), -(-width // w), 1)", "(height // h + 1, width // w + 1, 1)"),
 ('same', R, "(-(-height // h), -(-width // w), 1)", "(int(np.ceil(height / h)), int(np.ceil(width / w)), 1)"),
 ('same', R, "        return tile[0]\n", "        return tile.ravel()\n"),
 ('same', R, "        return tile[0]\n", "        return tile[0, :]\n"),
 ('same', R, "        h_r = int(np.floor(height / arr.shape[0]) + 1)\n        w_r = int(np.floor(width / arr.shape[1]) + 1)", "        h, w = arr.shape\n        h_r = (height + h - 1) // h\n        w_r = (width + w - 1) // w"),
 ('same', R, "    tile = np.tile(arr, (h_r, w_r))[:height, :width]", "    a2 = np.atleast_2d(arr)\n    rows = np.arange(height) % a2.shape[0]\n    cols = np.arange(width) % a2.shape[1]\n    tile = a2[np.ix_(rows, cols)]"),
 ('same', R, "    tile = np.tile(arr, (h_r, w_r))[:height, :width]", "    a2 = np.atleast_2d(arr)\n    rows = np.arange(height) % a2.shape[0]\n    cols = np.arange(width) % a2.shape[1]\n    tile = a2[rows[:, None], cols]"),
 ('same', R, "    tile = np.tile(array, (-(-height // h), -(-width // w), 1))\n    return tile[:height, :width]", "    reps = (-(-height // h), -(-width // w), 1)\n    return np.tile(array, reps)[0:height, 0:width, :]"),
 ('same', R, "if self._qe.shape != (self._height, self._width, len(self._w)):", "if not (self._qe.shape == (height, width, np.size(wavelength))):"),
 ('same', R, "        qe = np.zeros((self._height, self._width, len(self._w)))\n        qe[:, :] = qe_\n        return qe", "        return np.tile(qe_, (self._height, self._width, 1))"),
 ('same', R, "        qe = np.zeros((self._height, self._width, len(self._w)))\n        qe[:, :] = qe_\n        return qe", "        return np.ones((self._height, self._width, 1)) * qe_"),
 ('same', R, "        qe_ = np.array([(gauss(w)) for w in self._w])", "        qe_ = np.maximum(-.1 + np.exp(-(-1 + self._w / 450 - u) ** 2 / (2 * s ** 2)) / np.sqrt(np.pi * 2 * s ** 2), 0)"),
 ('same', R, "    if len(arr.shape) == 1:\n        # the height", "    if arr.ndim == 1:\n        # the height"),
 ('same', R, "    pattern_rep = np.array([[t00/np.max(t00), t01/np.max(t01)],\n                            [t10/np.max(t10), t11/np.max(t11)]])", "    rep = [t / t.max() for t in (t00, t01, t10, t11)]\n    pattern_rep = np.array([rep[:2], rep[2:]])"),
 ('same', R, "    pattern_rep = np.array([[t00/np.max(t00), t01/np.max(t01)],\n                            [t10/np.max(t10), t11/np.max(t11)]])", "    rep = [t / np.max(t) for t in (t00, t01, t10, t11)]\n    pattern_rep = np.array(rep).reshape(2, 2, -1)"),
]
