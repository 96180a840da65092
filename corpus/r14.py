R = 'process/routines.py'
RS = ['C03', 'C14', 'C15', 'C08', 'C12', 'C30']
FIT = ['C08', 'C10', 'C11', 'C12', 'C30']
HI = ['C14', 'C26', 'C30']
SP = ['C15', 'C26', 'C30']
RED = ['C03', 'C04', 'C30']
XM = ['C17', 'C18', 'C30']
M = []


def same(o, n, ids, f=R):
    M.append(('same', f, o, n, ids))


def bug(o, n, ids, f=R):
    M.append(('bug', f, o, n, ids))


# ---- get_int_imgs
LOOP = """    sum_ = 0
    sq_ = 0
    dmean_ = 0
    for n, img in enumerate(imgs):
        # we force the images as int64 to make sure we do not clip
        i = img.astype(np.int64)
        sum_ += i
        sq_ += np.square(i)
        if n > 0:
            dmean_ += np.mean(i) - np.mean(oi)
        oi = i  # old image
"""
same(LOOP, """    sum_ = 0
    sq_ = 0
    dmean_ = 0
    previous = None
    for img in imgs:
        i = img.astype(np.int64)
        sum_ = sum_ + i
        sq_ = sq_ + i * i
        mean = np.mean(i)
        if previous is not None:
            dmean_ += mean - previous
        previous = mean
""", RED)
same(LOOP, """    stack = [img.astype(np.int64) for img in imgs]
    sum_ = sum(stack)
    sq_ = sum(np.square(i) for i in stack)
    dmean_ = 0
    for a, b in zip(stack[:-1], stack[1:]):
        dmean_ += np.mean(b) - np.mean(a)
""", RED)
same(LOOP, """    sum_ = 0
    sq_ = 0
    dmean_ = 0
    for n in range(L):
        i = np.asarray(imgs[n], dtype=np.int64)
        sum_ += i
        sq_ += i ** 2
        if n:
            dmean_ += i.mean() - oi.mean()
        oi = i
""", RED)
same(LOOP, """    sum_ = np.zeros(imgs[0].shape, dtype=np.int64)
    sq_ = np.zeros(imgs[0].shape, dtype=np.int64)
    dmean_ = 0
    for n, img in enumerate(imgs):
        i = img.astype(np.int64)
        np.add(sum_, i, out=sum_)
        np.add(sq_, np.square(i), out=sq_)
        if n > 0:
            dmean_ += np.mean(i) - np.mean(oi)
        oi = i
""", RED)
same("    var_ = L * (L * sq_ - np.square(sum_))\n\n    return {'L': L, 'sum': sum_, 'pvar': var_, 'dmean': dmean_}",
     "    var_ = (sq_ * L - sum_ ** 2) * L\n    d = dict(L=L, sum=sum_)\n    d['pvar'] = var_\n    d['dmean'] = dmean_\n    return d", RED)
bug(LOOP, LOOP.replace("i = img.astype(np.int64)", "i = img.astype(np.int32)"), RED)
bug(LOOP, LOOP.replace("sq_ += np.square(i)", "sq_ += np.square(img)"), RED)
bug(LOOP, LOOP.replace("oi = i  # old image", "if n == 0:\n            oi = i  # old image"), RED)
bug(LOOP, LOOP.replace("i = img.astype(np.int64)", "i = img.astype(np.int64) if img.dtype.itemsize < 4 else img"), RED)
bug(LOOP, LOOP.replace("np.mean(i) - np.mean(oi)", "abs(np.mean(i) - np.mean(oi))"), RED)
bug("    var_ = L * (L * sq_ - np.square(sum_))\n", "    var_ = L * L * (sq_ - np.square(sum_) // L)\n", RED)

# ---- fits
FB = """    # we want a function y = m * x + b
    def fp(v, x):
        return x * v[0] + v[1]

    # the error of the function e = x - y
    def e(v, x, y):
        return (fp(v, x) - y)

    # the initial value of m, we choose 1, because we thought YODA would
    # have chosen 1
    v0 = np.array([1.0, 1.0])

    vr, _success = leastsq(e, v0, args=(X, Y))

    # compute the R**2 (sqrt of the mean of the squares of the errors)
    err = np.sqrt(sum(np.square(e(vr, X, Y))) / (len(X) * len(X)))
"""
same(FB, """    def e(v, x, y):
        m, b = v
        return m * x + b - y

    vr, _success = leastsq(e, np.array([1.0, 1.0]), args=(X, Y))

    residuals = e(vr, X, Y)
    err = np.sqrt(np.sum(residuals ** 2)) / len(X)
""", FIT)
same(FB, """    v0 = np.ones(2)
    vr = leastsq(lambda v: X * v[0] + v[1] - Y, v0)[0]
    n = len(X)
    err = np.sqrt(sum(np.square(X * vr[0] + vr[1] - Y))) / n
""", FIT)
same(FB, """    def e(v, x, y):
        return y - (x * v[0] + v[1])

    vr, _ = leastsq(e, [1.0, 1.0], args=(X, Y))
    err = np.sqrt(sum(np.square(e(vr, X, Y))) / (len(X) ** 2))
""", FIT)
bug(FB, FB.replace("x * v[0] + v[1]", "x * v[0] + abs(v[1])"), FIT)
bug(FB, FB.replace("return (fp(v, x) - y)", "return (fp(v, x) - y) / (np.abs(y) + 1)"), FIT)
bug(FB, FB.replace("args=(X, Y))", "args=(X[1:], Y[1:]))"), FIT)
FB0 = """    # we want a function y = m * x
    def fp(v, x):
        return x * v[0]

    # the error of the function e = x - y
    def e(v, x, y):
        return (fp(v, x) - y)

    # the initial value of m, we choose 1, because we thought YODA would
    # have chosen 1
    v0 = [1.0]

    vr, _success = leastsq(e, v0, args=(X, Y))

    # compute the R**2 (sqrt of the mean of the squares of the errors)
    err = np.sqrt(sum(np.square(e([vr], X, Y))) / (len(X) * len(X)))

    # Some versions of leastsq returns an array, other a scalar, so here we
    # make sure
    # it is an array
    val = np.array([vr]).flatten()

    return val, err
"""
same(FB0, """    def residual(v, x, y):
        return x * v[0] - y

    vr, _success = leastsq(residual, [1.0], args=(X, Y))
    val = np.atleast_1d(vr)
    err = np.sqrt(np.sum(np.square(X * val[0] - Y)) / len(X) ** 2)
    return val, err
""", FIT)
same(FB0, """    def e(v, x, y):
        return x * v[0] - y

    vr, _success = leastsq(e, [1.0], args=(X, Y))
    err = np.sqrt(sum(np.square(e([vr], X, Y))) / (len(X) * len(X)))
    val = np.array([vr]).ravel()
    return val, err
""", FIT)
same(FB0, """    slope = np.sum(X * Y) / np.sum(X * X)
    err = np.sqrt(sum(np.square(slope * X - Y)) / (len(X) * len(X)))
    return np.array([slope]), err
""", FIT)
bug(FB0, """    slope = np.sum(Y) / np.sum(X)
    err = np.sqrt(sum(np.square(slope * X - Y)) / (len(X) * len(X)))
    return np.array([slope]), err
""", FIT)
bug(FB0, FB0.replace("return (fp(v, x) - y)", "return (fp(v, x) - y + y.min())"), FIT)
bug(FB0, FB0.replace("return x * v[0]\n", "return x * v[0] + v[0]\n"), FIT)

# ---- FFT
same("""    fft = np.fft.fft(img, axis=1)
    fft /= np.sqrt(cols)

    fabs = np.real(fft * np.conjugate(fft))
""", """    fft = np.fft.fft(img, axis=1) / np.sqrt(cols)
    fabs = np.abs(fft) ** 2
""", SP)
same("""    fft = np.fft.fft(img, axis=1)
    fft /= np.sqrt(cols)

    fabs = np.real(fft * np.conjugate(fft))
""", """    fft = np.fft.fft(img)
    fabs = (fft.real ** 2 + fft.imag ** 2) / cols
""", SP)
same("""    # simply perform fft on x axis
    img = np.asarray(img, dtype=np.float64) - np.mean(img)
    fft = np.fft.fft(img, axis=1)
    fft /= np.sqrt(cols)

    fabs = np.real(fft * np.conjugate(fft))

    # extract the mean of each column of the fft
    r = np.mean(fabs, axis=0)

    # if the image is the sum of n image, the fft of the average image is
    r /= n ** 2

    # Return only half of the spectrogram (it is symmetrical)
    return r[: cols // 2 + 1]
""", """    img = np.asarray(img, dtype=np.float64)
    img = img - img.mean()
    spectrum = np.fft.rfft(img, axis=1)
    power = np.real(spectrum * np.conj(spectrum)) / cols
    return power.mean(axis=0) / n ** 2
""", SP)
same("""    # Return only half of the spectrogram (it is symmetrical)
    return r[: cols // 2 + 1]
""", """    half = cols // 2
    return r[0:half + 1]
""", SP)
same("""    if rotate:
        img = img.transpose()

    # remove masked entries if img is a masked array
    if isinstance(img, np.ma.masked_array):
        img = _row_wise_compress(img)

    _rows, cols = GetImgShape(img)
""", """    if rotate:
        img = np.transpose(img)
    if np.ma.isMaskedArray(img):
        img = _row_wise_compress(img)
    cols = img.shape[1]
""", SP)
same("    r /= n ** 2\n", "    r = r / (n * n)\n", SP)
bug("    r /= n ** 2\n", "    r /= n\n", SP)
bug("    return r[: cols // 2 + 1]\n", "    return r[: (cols + 1) // 2 + 1]\n", SP)
bug("    return r[: cols // 2 + 1]\n", "    return r[: (cols - 1) // 2 + 1]\n", SP)
bug("np.asarray(img, dtype=np.float64) - np.mean(img)", "np.asarray(img, dtype=np.float64) - np.mean(img, axis=0)", SP)
bug("    fft /= np.sqrt(cols)\n", "    fft /= np.sqrt(_rows)\n", SP)
bug("np.asarray(img, dtype=np.float64) - np.mean(img)", "np.asarray(img, dtype=np.float64) - int(np.mean(img))", SP)
bug("    if rotate:\n        img = img.transpose()\n\n    # remove masked entries if img is a masked array\n    if isinstance(img, np.ma.masked_array):\n        img = _row_wise_compress(img)\n",
    "    # remove masked entries if img is a masked array\n    if isinstance(img, np.ma.masked_array):\n        img = _row_wise_compress(img)\n\n    if rotate:\n        img = img.transpose()\n", SP)
FR = """    n = len(fft)
    x = np.arange(n)
    x = x * 1.0 / (2 * n)
    return x
"""
same(FR, "    n = len(fft)\n    return np.arange(n) / (2.0 * n)\n", SP)
same(FR, "    n = len(fft)\n    return np.array([0.5 * i / n for i in range(n)])\n", SP)
same(FR, "    n = fft.shape[0]\n    return np.linspace(0, 0.5, n, endpoint=False)\n", SP)
same(FR, "    n = len(fft)\n    return np.linspace(0, 0.5, n)\n", SP)  # as good under the property
bug(FR, FR.replace("(2 * n)", "n"), SP)

# ---- high pass
HPE = """        kernel *= -1
        kernel[sl, sl] = dim**2-1
        img = convolve(img, kernel)[sl:-sl, sl:-sl]
"""
same(HPE, """        kernel = -kernel
        kernel[sl, sl] += dim * dim
        img = convolve(img, kernel)
        img = img[sl:-sl, sl:-sl]
""", SP + ['C14'])
same(HPE, """        kernel = np.full((dim, dim), -1.0)
        kernel[sl][sl] = dim * dim - 1
        filtered = convolve(img, kernel)
        rows, cols = img.shape
        img = filtered[sl:rows - sl, sl:cols - sl]
""", SP + ['C14'])
same("""    if not dim % 2:
        raise""", """    if dim % 2 == 0:
        raise""", SP)
same("    sl = dim//2\n", "    sl = (dim - 1) // 2\n", SP)
same("""    return {'img': img, 'multiplicator': kernel[sl, sl] + 1}""", """    d = {}
    d['img'] = img
    d['multiplicator'] = 1 + kernel[sl, sl]
    return d""", SP + ['C14'])
same("""        value = np.ones(img.shape)
        # Applying the mask on a matrix of ones and filling the masked values
        # with 0
        value = np.ma.MaskedArray(value, mask)
        value = value.filled(0)
""", """        value = 1.0 - np.ma.getmaskarray(img)
""", SP + ['C14'])
bug(HPE, HPE.replace("dim**2-1", "dim**2"), SP)
bug(HPE, HPE.replace("[sl:-sl, sl:-sl]", ""), SP)
bug(HPE, HPE.replace("convolve(img, kernel)", "convolve(img.astype(np.int16), kernel)"), SP)
bug(HPE, HPE.replace("convolve(img, kernel)[", "convolve(img, kernel, mode='constant')[dim:-dim, dim:-dim][") if 0 else HPE.replace("[sl:-sl, sl:-sl]", "[sl:-sl, dim:-dim]"), SP)
bug("        value = value.filled(0)\n", "        value = value.filled(1)\n", SP)
bug("        img = img.filled(0)\n        img = convolve", "        img = img.filled(img.mean())\n        img = convolve", SP)
bug("kernel[sl, sl] = value.max()-1", "kernel[sl, sl] = dim ** 2 - 1", SP)
bug("        if value.max() != value.min():", "        if value.max() > 2 * value.min():", SP)

# ---- histogram
HH = """    # Because we are working with integers, minimum binwidth is 1
    W = 1
    q = ymax - ymin
    Q = q + 1

    # When too many bins, create a new integer binwidth
    if Q > Qmax:
        # We want the number of bins as close as possible to Qmax (256)
        W = int(np.floor(1. * q / Qmax)) + 1
        Q = int(np.floor(1. * q / W)) + 1
"""
same(HH, """    q = ymax - ymin
    if q >= Qmax:
        W = int(q / Qmax) + 1
        Q = int(q / W) + 1
    else:
        W = 1
        Q = q + 1
""", HI)
same(HH, """    q = ymax - ymin
    W, Q = 1, q + 1
    if Q > Qmax:
        W = q // Qmax + 1
        Q = q // W + 1
""", HI)
same(HH, """    q = ymax - ymin
    W = max(1, q // Qmax + 1) if q + 1 > Qmax else 1
    Q = q // W + 1
""", HI)
same("""    H, _b = np.histogram(y, B, range=(ymin, ymax))
""", """    H = np.bincount((y - ymin) // W, minlength=Q)
""", HI)
same("""    mu = np.mean(y)
    sigma = np.std(y)
""", """    mu = y.mean()
    sigma = y.std()
""", HI)
bug(HH, HH.replace("W = int(np.floor(1. * q / Qmax)) + 1", "W = int(np.floor(1. * q / (Qmax - 1))) + 1"), HI)
bug(HH, HH.replace("if Q > Qmax:", "if Q > Qmax and ymin >= 0:"), HI)
bug("""    H, _b = np.histogram(y, B, range=(ymin, ymax))
""", """    H, _b = np.histogram(y, Q, range=(ymin, ymax))
""", HI)
bug("for i in range(Q + 1)]", "for i in range(Q + 1)]\n    B[-1] = ymax", HI)
bug("""    y = np.ma.compressed(img)

    ymin""", """    y = np.ma.compressed(img)
    y = y[y >= 0]

    ymin""", HI)

# ---- compress (the second of the duplicate definitions is the one in effect)
RW = """    # compress line by line
    for line in img:
        # drop masked data
        line = line.compressed()
        # assure the line is not empty
        if line.size == 0:
            continue
        # set the data in the compressed array
        compressed[lines, :line.size] = line
        # keep count of non-empty lines
        lines += 1
        # keep trac of minimum column size
        cols = min(cols, line.size)
    # trim to actual number of lines and columns
    return compressed[:lines, :cols]


def GetFrecs"""
same(RW, """    for row in img:
        valid = row.compressed()
        if valid.size:
            compressed[lines, :valid.size] = valid
            lines += 1
            cols = min(valid.size, cols)
    return compressed[:lines, :cols]


def GetFrecs""", SP)
same(RW, """    rows = [row.compressed() for row in img]
    rows = [row for row in rows if row.size > 0]
    cols = min([row.size for row in rows] + [cols])
    return np.array([row[:cols] for row in rows])


def GetFrecs""", SP)
bug(RW, RW.replace("        if line.size == 0:\n            continue\n", ""), SP)
bug(RW, RW.replace("min(cols, line.size)", "max(cols, line.size)"), SP)
bug(RW, RW.replace("cols = min(cols, line.size)", "cols = line.size"), SP)
