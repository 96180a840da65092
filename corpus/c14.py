R = 'process/routines.py'
S = 'process/results.py'
M = [
 ('bug', R, "    y = np.ma.compressed(img)\n", "    y = np.asarray(img).flatten()\n"),
 ('bug', R, "    if Q > Qmax:", "    if Q > Qmax + 1:"),
 ('bug', R, "W = int(np.floor(1. * q / Qmax)) + 1", "W = int(np.round(1. * q / Qmax)) + 1"),
 ('bug', R, "W = int(np.floor(1. * q / Qmax)) + 1", "W = int(np.ceil(1. * q / Qmax))"),
 ('bug', R, "W = int(np.floor(1. * q / Qmax)) + 1", "W = 1. * q / Qmax + 1"),
 ('bug', R, "Q = int(np.floor(1. * q / W)) + 1", "Q = int(np.floor(1. * q / W))"),
 ('bug', R, "    N = np.ma.count(y)", "    N = np.size(img)"),
 ('bug', R, "sigma = np.std(y)", "sigma = np.std(y, ddof=1) if len(y) > 1 else 1"),
 ('bug', R, "for i in range(Q + 1)]", "for i in range(Q)]"),
 ('bug', S, "h['bins'] /= (scale * data['multiplicator'])\n\n        return", "h['bins'] /= (scale * 25)\n\n        return"),
 ('bug', S, "h['bins'] /= (self.spatial['L_dark'])", "h['bins'] /= (self.spatial['L'])"),
 ('bug', S, "scale = self.spatial['L_dark']", "scale = self.spatial['L']"),
 ('bug', S, "h['bins'] -= (y.mean() / scale)", "h['bins'] -= y.mean()"),
 ('bug', S, "np.cumsum(h['values'][::-1])[::-1]", "np.cumsum(h['values'])"),
 ('bug', S, "100 * h['values'] / np.ma.count(y)", "100 * h['values'] / np.size(y)"),
 ('bug', S, "100 * h['values'] / np.ma.count(y)", "100 * h['values'] / h['values'].sum()"),
 ('bug', S, "100 * h['values'] / np.ma.count(y)", "100 * h['values'] // np.ma.count(y)"),
 ('bug', S, "data = routines.high_pass_filter(y, 5)", "data = routines.high_pass_filter(y, 3)"),
 ('same', R, "W = int(np.floor(1. * q / Qmax)) + 1", "W = q // Qmax + 1"),
 ('same', R, "Q = int(np.floor(1. * q / W)) + 1", "Q = (ymax - ymin) // W + 1"),
 ('same', R, "    B = [ymin + (i * W) for i in range(Q + 1)]", "    B = ymin + W * np.arange(Q + 1)"),
 ('same', R, "    B = [ymin + (i * W) for i in range(Q + 1)]", "    B = []\n    for i in range(Q + 1):\n        B.append(ymin + i * W)"),
 ('same', R, "    H, _b = np.histogram(y, B, range=(ymin, ymax))", "    H = np.histogram(y, bins=B)[0]"),
 ('same', R, "    if Q > Qmax:", "    if Qmax < ymax - ymin + 1:"),
 ('same', R, "W = int(np.floor(1. * q / Qmax)) + 1", "W = int(np.ceil(1. * Q / Qmax))"),
 ('same', S, "        h['values'] = np.cumsum(h['values'][::-1])[::-1]\n        # we want it as percentage of pixels\n        h['values'] = 100 * h['values'] / np.ma.count(y)\n", "        above = np.cumsum(h['values'][::-1])\n        h['values'] = above[::-1] / np.ma.count(y) * 100\n"),
 ('same', S, "        h['values'] = np.cumsum(h['values'][::-1])[::-1]\n", "        v = h['values']\n        h['values'] = v.sum() - np.cumsum(v) + v\n"),
]
