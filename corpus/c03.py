R = 'process/routines.py'
M = [
 ('bug', R, "i = img.astype(np.int64)", "i = img"),
 ('bug', R, "i = img.astype(np.int64)", "i = img.astype(np.int32)"),
 ('bug', R, "i = img.astype(np.int64)", "i = img.astype(np.uint64)"),
 ('bug', R, "        sq_ += np.square(i)", "        sq_ += np.square(img)"),
 ('bug', R, "        sq_ += np.square(i)", "        sq_ += np.square(img).astype(np.int64)"),
 ('bug', R, "var_ = L * (L * sq_ - np.square(sum_))", "var_ = L * sq_ - np.square(sum_)"),
 ('bug', R, "dmean_ += np.mean(i) - np.mean(oi)", "dmean_ = np.mean(i) - np.mean(oi)"),
 ('bug', R, "dmean_ += np.mean(i) - np.mean(oi)", "dmean_ += abs(np.mean(i) - np.mean(oi))"),
 ('bug', R, "        if n > 0:\n            dmean_", "        if n > 1:\n            dmean_"),
 ('bug', R, "        oi = i  # old image", "        if n == 0:\n            oi = i"),
 ('bug', R, "    for n, img in enumerate(imgs):\n        # we", "    for n, img in enumerate(imgs[:50]):\n        # we"),
 ('bug', R, "    sum_ = 0\n    sq_ = 0\n    dmean_ = 0\n    for n, img in enumerate(imgs):\n        # we force the images as int64 to make sure we do not clip\n        i = img.astype(np.int64)\n        sum_ += i",
   "    sum_ = imgs[0]\n    sq_ = 0\n    dmean_ = 0\n    for n, img in enumerate(imgs):\n        # we force the images as int64 to make sure we do not clip\n        i = img.astype(np.int64)\n        if n > 0:\n            sum_ += i"),
 ('bug', R, "    L = len(imgs)  # number of images\n", "    L = max(len(imgs), 2)\n"),
 ('same', R, "        sq_ += np.square(i)", "        sq_ = sq_ + i * i"),
 ('same', R, "        sq_ += np.square(i)", "        sq_ += i ** 2"),
 ('same', R, "var_ = L * (L * sq_ - np.square(sum_))", "var_ = L * L * sq_ - L * sum_ ** 2"),
 ('same', R, "    for n, img in enumerate(imgs):\n        # we", "    for n in range(L):\n        img = imgs[n]\n        # we"),
 ('same', R, "        i = img.astype(np.int64)", "        i = np.asarray(img, dtype=np.int64)"),
 ('same', R, "        if n > 0:\n            dmean_ += np.mean(i) - np.mean(oi)\n        oi = i  # old image",
  "        if n > 0:\n            dmean_ += np.mean(i) - previous\n        previous = np.mean(i)"),
 ('same', R, "        if n > 0:\n            dmean_ += np.mean(i) - np.mean(oi)\n        oi = i  # old image",
  "        if n == 0:\n            first = np.mean(i)\n        dmean_ = np.mean(i) - first"),
 ('same', R, "    sum_ = 0\n    sq_ = 0\n    dmean_ = 0\n", "    sum_ = None\n    sq_ = 0\n    dmean_ = 0\n    oi = None\n") ,
]
M[-1] = ('same', R, ["    sum_ = 0\n    sq_ = 0\n    dmean_ = 0\n", "        if n > 0:\n            dmean_"], ["    sum_ = 0\n    sq_ = 0\n    dmean_ = 0\n    oi = None\n", "        if oi is not None:\n            dmean_"])
M += [('same', R, "    sum_ = 0\n    sq_ = 0\n    dmean_ = 0\n    for n, img in enumerate(imgs):\n        # we force the images as int64 to make sure we do not clip\n        i = img.astype(np.int64)\n        sum_ += i\n        sq_ += np.square(i)\n        if n > 0:\n            dmean_ += np.mean(i) - np.mean(oi)\n        oi = i  # old image\n",
  "    big = [img.astype(np.int64) for img in imgs]\n    sum_ = sum(big)\n    sq_ = sum(np.square(i) for i in big)\n    means = [i.mean() for i in big]\n    dmean_ = sum(b - a for a, b in zip(means, means[1:]))\n"),
 ('same', R, "    sum_ = 0\n    sq_ = 0\n    dmean_ = 0\n    for n, img in enumerate(imgs):\n        # we force the images as int64 to make sure we do not clip\n        i = img.astype(np.int64)\n        sum_ += i\n        sq_ += np.square(i)\n        if n > 0:\n            dmean_ += np.mean(i) - np.mean(oi)\n        oi = i  # old image\n",
  "    big = np.array(imgs).astype(np.int64)\n    sum_ = np.sum(big, axis=0)\n    sq_ = (big ** 2).sum(axis=0)\n    dmean_ = np.sum(np.diff([np.mean(i) for i in big]))\n"),
]
