# Unusual styles in the simulator and the results, second part.
PG = 'camera/points_generator.py'
BAD = 'camera/bad_images.py'
CRO = 'camera/routines.py'
RES = 'process/results.py'
CS = ['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C32', 'C33']
GS = ['C24', 'C25', 'C22', 'C23']
RR = ['C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C16', 'C17']
LIM = """        self._exposure_min = exposure_min
        if exposure_min is None:
            self._exposure_min = self._cam.exposure_min
        self._exposure_max = exposure_max
        if exposure_max is None:
            self._exposure_max = self._cam.exposure_max
"""
MID = """        middle = self._steps // 2
        if n in (middle, self._steps + middle):
            return True
        return False
"""
SER = """            for n, texp in enumerate(exposures):
                # Radiance that saturates the camera and dark
                if self._is_point_spatial(n):
                    spatial[texp] = radiances
                temporal[texp] = radiances
"""
FAC = """            factors = np.linspace(np.mean(self._radiance_min),
                                  np.mean(self._radiance_max),
                                  self._steps)
"""
LOOP = """    for i in bad_pixel_position:
        # Change the DSNU of the camera with the bad values
        # at the random position generated above.
        cam.DSNU[i // cam.width, i % cam.width] = bad_value
"""
NEAR = """    idx = (np.abs(array - value)).argmin()
    return array[idx]
"""
PHOT = """    scalar = ((a * t) * np.pi / ((h * c) * (1 + ((2 * f_number) ** 2))))
    return radiance * (scalar * (w * w))
"""
POI = """    x = x.astype(int) + (mu - loc)
    ln = [v * np.log(mu) - mu - np.sum([np.log(i) for i in range(1, v)])
          for v in x]
    return np.exp(ln)
"""
ATILE = """    h, w = ((array.shape[:2]) if array.ndim == 3 else (1, array.shape[0])
            if array.ndim == 2 else (1, 1))
    # enough repetitions to cover the size, when it is not a multiple
    tile = np.tile(array, (-(-height // h), -(-width // w), 1))
    return tile[:height, :width]
"""
LINX = """        xy = np.sum(X_ / Y_)
        xy2 = np.sum(X_ / (Y_ ** 2))
        x2y2 = np.sum((X_ / Y_) ** 2)
        _y = np.sum(1. / Y_)
        _y2 = np.sum(1. / (Y_ ** 2))
"""
LIND = """        lin['linearity_error_min'] = np.min(dev[imin: imax])
        lin['linearity_error_max'] = np.max(dev[imin: imax])
"""
YD = "        Y = self.temporal['u_y'] - self.temporal['u_ydark']\n"
M = [
    ('same', PG, LIM, """        limits = {'exposure_min': exposure_min, 'exposure_max': exposure_max}
        for name, given in limits.items():
            setattr(self, '_' + name, getattr(cam, name) if given is None else given)
""", GS),
    ('bug', PG, LIM, """        limits = {'exposure_min': exposure_min, 'exposure_max': exposure_max}
        for name, given in limits.items():
            setattr(self, '_' + name, given or getattr(cam, name))
""", ['C24']),
    ('same', PG, MID, "        return n - self._steps // 2 in (0, self._steps)\n", GS),
    ('same', PG, MID, "        return n % self._steps == self._steps // 2\n", GS),
    ('same', PG, MID, "        middle, odd = divmod(self._steps, 2)\n        return n == middle or n == 3 * middle + odd\n", GS),
    ('bug', PG, MID, "        middle, odd = divmod(self._steps, 2)\n        return n == middle + odd\n", ['C24']),
    ('same', PG, FAC, """            lo, hi = (np.mean(r) for r in (self._radiance_min, self._radiance_max))
            factors = np.linspace(lo, hi, num=self._steps)
""", GS),
    ('same', PG, FAC, """            lo = np.mean(self._radiance_min)
            factors = lo + (np.mean(self._radiance_max) - lo) * np.linspace(0, 1, self._steps)
""", GS),
    ('bug', PG, FAC, FAC.replace("np.linspace(np.mean(self._radiance_min)", "np.linspace(np.min(self._radiance_min)"), ['C24']),
    ('bug', PG, FAC, FAC.replace("                                  self._steps)", "                                  self._steps, endpoint=False)"), ['C24']),
    ('same', BAD, LOOP, """    rows, cols = np.divmod(bad_pixel_position, cam.width)
    for row, col in zip(rows, cols):
        cam.DSNU[row, col] = bad_value
""", ['C33', 'C22', 'C23']),
    ('same', BAD, LOOP, """    dsnu = cam.DSNU
    for row, col in map(lambda i: divmod(i, cam.width), bad_pixel_position):
        dsnu[row][col] = bad_value
""", ['C33', 'C22', 'C23']),
    ('same', BAD, LOOP, """    cam.DSNU[np.unravel_index(bad_pixel_position, (cam.height, cam.width))] = bad_value
""", ['C33', 'C22', 'C23']),
    ('bug', BAD, LOOP, LOOP.replace("i // cam.width, i % cam.width", "i % cam.height, i // cam.height").replace("i % cam.height, i // cam.height", "i // cam.width - 1, i % cam.width"), ['C33']) if 0 else
    ('bug', BAD, LOOP, LOOP.replace("= bad_value", "= max(bad_value, cam.DSNU[0, 0])"), ['C33']),
    ('same', CRO, NEAR, """    nearest = min(range(len(array)), key=lambda k: abs(array[k] - value))
    return array[nearest]
""", ['C21']),
    ('same', CRO, NEAR, """    distance = np.abs(np.asarray(array) - value)
    return array[np.argmin(distance)]
""", ['C21']),
    ('bug', CRO, NEAR, """    return array[np.searchsorted(array, value)]
""", ['C21']),
    ('bug', CRO, NEAR, """    idx = np.abs(array - value).argmin()
    return array[idx] if array[idx] <= value or idx == 0 else array[idx - 1]
""", ['C21']),
    ('same', CRO, PHOT, """    solid = 1 + 4 * f_number ** 2
    energy = h * c / w
    return radiance * np.pi / solid * w * a * t / energy
""", ['C19', 'C24', 'C20']),
    ('same', CRO, PHOT, """    factors = (radiance, a, t, np.pi, w, w, 1 / h, 1 / c, 1 / (1 + (2 * f_number) ** 2))
    result = 1
    for factor in factors:
        result = result * factor
    return result
""", ['C19', 'C24', 'C20']),
    ('same', CRO, PHOT, """    from functools import reduce
    from operator import mul
    return reduce(mul, [a, t, np.pi, w ** 2, 1 / (h * c * (1 + 4 * f_number * f_number))], radiance)
""", ['C19', 'C24', 'C20']),
    ('same', CRO, ATILE, """    if array.ndim != 3:
        array = array[np.newaxis] if array.ndim == 2 else array[np.newaxis, np.newaxis]
    rows = np.arange(height) % array.shape[0]
    cols = np.arange(width) % array.shape[1]
    return array[rows[:, None], cols[None, :]]
""", ['C32']),
    ('bug', CRO, ATILE, ATILE.replace("-(-width // w)", "width // w + 1 if width % w else width // h"), ['C32']),
    ('same', RES, LINX, """        ratio, inverse = X_ / Y_, 1. / Y_
        xy, xy2, x2y2, _y, _y2 = (np.sum(v) for v in (
            ratio, ratio * inverse, ratio ** 2, inverse, inverse ** 2))
""", RR),
    ('same', RES, LINX, """        w_ = 1. / Y_
        xy = X_.dot(w_)
        xy2 = np.dot(X_ * w_, w_)
        x2y2 = (X_ * w_) @ (X_ * w_)
        _y = w_.sum()
        _y2 = np.inner(w_, w_)
""", RR),
    ('bug', RES, LINX, LINX.replace("_y2 = np.sum(1. / (Y_ ** 2))", "_y2 = _y ** 2 / len(Y_)"), ['C12']),
    ('same', RES, LIND, """        inside = dev[imin: imax]
        for name, extreme in (('min', np.min), ('max', np.max)):
            lin['linearity_error_' + name] = extreme(inside)
""", RR),
    ('same', RES, LIND, """        lin.update(zip(('linearity_error_min', 'linearity_error_max'),
                       (dev[imin: imax].min(), dev[imin: imax].max())))
""", RR),
    ('bug', RES, LIND, LIND.replace("np.min(dev[imin: imax])", "-np.max(np.abs(dev[imin: imax]))"), ['C12']),
    ('same', RES, ["    @property\n    def s2q(self):\n", "    def inverse_K(self):\n", "        return 1. / self.K\n"], ["    def _signal(self):\n        return np.subtract(self.temporal['u_y'], self.temporal['u_ydark'])\n\n    signal_ = property(_signal)\n\n    @property\n    def s2q(self):\n", "    def inverse_K(self):\n", "        return self.K ** -1\n"], RR),
]
