# Simulated camera: refactorings and bugs written from the statements of
# C19-C24, C32, C33.
CAM = 'camera/camera.py'
PTS = 'camera/points_generator.py'
GEN = 'camera/dataset_generator.py'
ROU = 'camera/routines.py'
BAD = 'camera/bad_images.py'

GRAB_TAIL = """        # Analog to Digital gain
        img = self.K * img_e

        # Quantization noise image
        img_q = self._rng.uniform(-0.5, 0.5, self._shape)
        img += img_q

        # Offset on the dark_signal
        img += self.blackoffset

        np.rint(img, img)
        np.clip(img, 0, clipping_point, img)
        return img.astype(self._img_type)
"""
EXPO = """            exposures = np.round(np.linspace(self._exposure_min,
                                             self._exposure_max,
                                             self._steps), 1)
"""
LOOP = """            for n, texp in enumerate(exposures):
                if self._is_point_spatial(n):
                    spatial[texp] = radiances
                temporal[texp] = radiances
"""
FACT = """            factors = np.linspace(np.mean(self._radiance_min),
                                  np.mean(self._radiance_max),
                                  self._steps)
            radiances = [rad_i * factor for factor in factors]
"""
SPAT = """        middle = self._steps // 2
        if n in (middle, self._steps + middle):
            return True
        return False
"""
MINR = """            if self._radiance_min is None:
                m = self._cam.grab(0).mean()
                target = (self._cam.img_max - m) / self._steps + m
                self._radiance_min = self._cam.get_radiance_for(mean=target)
            if self._radiance_max is None:
                self._radiance_max = self._cam.get_radiance_for()
"""
M = [
    # --- refactorings -----------------------------------------------------
    ('same', CAM, GRAB_TAIL, """        return self._digitize(img_e, clipping_point)

    def _digitize(self, electrons, top):
        values = self.K * electrons
        values += self._rng.uniform(-0.5, 0.5, self._shape)
        values += self.blackoffset
        values = np.clip(np.rint(values), 0, top)
        return values.astype(self._img_type)
""", ['C20', 'C22', 'C23']),
    ('same', CAM, """        variance = np.sqrt(self._sigma2_dark_0)
        dark_signal = self._dsnu + self._rng.normal(loc=self._dark_signal_0,
                                                    scale=variance,
                                                    size=self._shape)
        img_e = img_e + dark_signal
""", """        noise = self._rng.normal(self._dark_signal_0,
                                 self._sigma2_dark_0 ** 0.5,
                                 self._shape)
        img_e = img_e + self._dsnu
        img_e += noise
""", ['C20', 'C22', 'C23']),
    ('same', CAM, """        u_e = np.sum(np.multiply(photons, self._qe.qe), axis=2)
        u_e *= self._prnu
        return u_e
""", """        electrons = photons * self._qe.qe
        return np.multiply(electrons.sum(axis=2), self._prnu)
""", ['C20', 'C22', 'C23']),
    ('same', CAM, """        clipping_point = int(self.img_max)
""", """        clipping_point = self.img_max
""", ['C20']),
    ('same', CAM, """        if bit_depth <= 8:
            self._img_type = np.uint8
        elif bit_depth <= 16:
            self._img_type = np.uint16
        else:
            self._img_type = np.uint64
""", """        self._img_type = np.uint64
        for bits, dtype in ((16, np.uint16), (8, np.uint8)):
            if bit_depth <= bits:
                self._img_type = dtype
""", ['C20']),
    ('same', CAM, """        self._img_max = 2 ** int(bit_depth) - 1
""", """        self._img_max = (1 << int(bit_depth)) - 1
""", ['C20', 'C21']),
    ('same', CAM, """        photons = self.get_photons(radiance, f_number=f_number)
""", """        photons = self.get_photons(radiance, self.exposure, f_number)
""", ['C20', 'C19']),
    ('same', CAM, """        self._dsnu = dsnu
        self._prnu = prnu

        if dsnu is None:
            self._dsnu = np.zeros(self._shape)
        if prnu is None:
            self._prnu = np.ones(self._shape)
""", """        self._dsnu = np.zeros(self._shape) if dsnu is None else dsnu
        self._prnu = np.ones(self._shape) if prnu is None else prnu
""", ['C20', 'C23']),
    ('same', CAM, """        self.environment = {'temperature': temperature,
                            'f_number': f_number}
""", """        self.environment = dict(f_number=f_number, temperature=temperature)
""", ['C20', 'C19', 'C23']),
    ('same', CAM, """        ue = ((mean / self.K) - ud)/len(self._qe.w)
        ue *= np.ones(len(self._qe.w))
        up = np.zeros((self.height, self.width, len(self._qe.w)))
        up[:, :] = ue / self._qe.qe.mean()
""", """        n_w = len(self._qe.w)
        ue = (mean / self.K - ud) / n_w
        up = np.full((self.height, self.width, n_w),
                     ue / np.mean(self._qe.qe))
""", ['C19', 'C24']),
    ('same', CAM, """        ud = self._u_i() * exposure / (10 ** 9)
        ue = ((mean / self.K)""", """        seconds = exposure * 1e-9
        ud = seconds * self._u_i()
        ue = ((mean / self.K)""", ['C19']),
    ('same', ROU, """    idx = (np.abs(array - value)).argmin()
    return array[idx]
""", """    best = array[0]
    for candidate in array:
        if abs(candidate - value) < abs(best - value):
            best = candidate
    return best
""", ['C21']),
    ('same', ROU, """    idx = (np.abs(array - value)).argmin()
    return array[idx]
""", """    return min(array, key=lambda v: abs(v - value))
""", ['C21']),
    ('same', GEN, """    gini = cam.K
    # Find gain with a minum temporal noise of 0.5DN
    g = cam.Ks[0]
    for gain in cam.Ks:
        cam.K = gain
        g = gain
        img1 = cam.grab(0).astype(np.int64)
        img2 = cam.grab(0).astype(np.int64)
        if (img1 - img2).std() > 0.5:
            break
    cam.K = gini
    return g
""", """    initial = cam.K
    for gain in cam.Ks:
        cam.K = gain
        first, second = (cam.grab(0).astype(np.int64) for _ in range(2))
        if np.std(first - second) > 0.5:
            break
    cam.K = initial
    return gain
""", ['C21', 'C22']),
    ('same', GEN, """    bini = cam.blackoffset
    # Find black offset with a maximum of 0.5% of values at Zero
    bo = cam.blackoffsets[0]
    pixels = cam.width * cam.height
    for i in cam.blackoffsets:
        cam.blackoffset = i
        img = cam.grab(0)
        bo = i
        if np.count_nonzero(img) > pixels * .995:
            break
    cam.blackoffset = bini
    return bo
""", """    bini = cam.blackoffset
    try:
        for bo in cam.blackoffsets:
            cam.blackoffset = bo
            img = cam.grab(0)
            if np.count_nonzero(img) > cam.width * cam.height * .995:
                return bo
        return bo
    finally:
        cam.blackoffset = bini
""", ['C21', 'C22']),
    ('same', PTS, EXPO, """            exposures = np.linspace(self._exposure_min, self._exposure_max,
                                    num=self._steps).round(1)
""", ['C24']),
    ('same', PTS, LOOP, """            middle = self._steps // 2
            for n, texp in enumerate(exposures):
                temporal[texp] = radiances
                if n == middle:
                    spatial[texp] = radiances
""", ['C24']),
    ('same', PTS, LOOP, """            temporal = OrderedDict((texp, radiances) for texp in exposures)
            spatial[exposures[self._steps // 2]] = radiances
""", ['C24']),
    ('same', PTS, FACT, """            first = np.mean(self._radiance_min)
            last = np.mean(self._radiance_max)
            radiances = []
            for factor in np.linspace(first, last, self._steps):
                radiances.append(factor * rad_i)
""", ['C24']),
    ('same', PTS, SPAT, """        return n % self._steps == self._steps // 2
""", ['C24']),
    ('same', PTS, """        self._exposure_min = exposure_min
        if exposure_min is None:
            self._exposure_min = self._cam.exposure_min
        self._exposure_max = exposure_max
        if exposure_max is None:
            self._exposure_max = self._cam.exposure_max
""", """        if exposure_min is None:
            exposure_min = cam.exposure_min
        if exposure_max is None:
            exposure_max = cam.exposure_max
        self._exposure_min, self._exposure_max = exposure_min, exposure_max
""", ['C24']),
    ('same', PTS, MINR, """            if self._radiance_min is None:
                dark = self._cam.grab(0).mean()
                target = dark + (self._cam.img_max - dark) / self._steps
                self._radiance_min = self._cam.get_radiance_for(target)
            if self._radiance_max is None:
                self._radiance_max = self._cam.get_radiance_for(
                    mean=self._cam.img_max)
""", ['C24', 'C22']),
    ('same', BAD, """    bad_value = (1 if bad_value is None else bad_value) * cam._u_esat
""", """    if bad_value is None:
        bad_value = 1
    bad_value = bad_value * cam._u_esat
""", ['C33', 'C22']),
    ('same', BAD, """    for i in bad_pixel_position:
        # Change the DSNU of the camera with the bad values
        # at the random position generated above.
        cam.DSNU[i // cam.width, i % cam.width] = bad_value
""", """    dsnu = cam.DSNU
    np.put(dsnu, bad_pixel_position, bad_value)
""", ['C33']),
    ('same', ROU, """        if filter is not None:
            # not in place, qe belongs to the caller
            self._qe = self._qe * filter
""", """        if filter is not None:
            self._qe = np.multiply(self._qe, filter)
""", ['C23', 'C32']),
    ('same', ROU, """        if filter is not None:
            # not in place, qe belongs to the caller
            self._qe = self._qe * filter
""", """        if filter is not None:
            self._qe = self._qe.copy()
            self._qe *= filter
""", ['C23', 'C32']),
    # --- bugs ---------------------------------------------------------------
    ('bug', CAM, "        self._rng = np.random.default_rng(seed)\n",
     "        self._rng = np.random.default_rng(seed or None)\n", ['C22']),
    ('bug', CAM, "        self._rng = np.random.default_rng(seed)\n",
     "        np.random.seed(seed)\n        self._rng = np.random\n", ['C22']),
    ('bug', CAM, "        self._rng = np.random.default_rng(seed)\n",
     "        self._rng = np.random.default_rng(None if seed is None "
     "else [seed, id(self)])\n", ['C22']),
    ('bug', CAM, "        img_q = self._rng.uniform(-0.5, 0.5, self._shape)\n",
     "        img_q = np.random.uniform(-0.5, 0.5, self._shape)\n", ['C22']),
    ('bug', CAM, """        # Noise centred on the number of electrons from the Light
""", """        if np.shape(u_e) != self._shape:
            self._rng = np.random.default_rng()
""", ['C22']),
    ('bug', PTS, "                m = self._cam.grab(0).mean()\n",
     "                m = self._cam.grab(0).mean() + np.random.normal(0, 1e-9)\n",
     ['C22']),
    ('bug', BAD, "    bad_pixel_position = cam._rng.choice(pixel_num, num_bad_pixel,\n"
     "                                         replace=False)\n",
     "    bad_pixel_position = np.random.default_rng().choice(\n"
     "        pixel_num, num_bad_pixel, replace=False)\n", ['C22']),
    ('bug', CAM, """        dark_signal = self._dsnu + self._rng.normal(loc=self._dark_signal_0,
                                                    scale=variance,
                                                    size=self._shape)
        img_e = img_e + dark_signal
""", """        dark_signal = self._dsnu
        dark_signal += self._rng.normal(loc=self._dark_signal_0,
                                        scale=variance,
                                        size=self._shape)
        img_e = img_e + dark_signal
""", ['C23', 'C20']),
    ('bug', CAM, """        if temperature is None:
            temperature = self.environment['temperature']
""", """        if temperature is None:
            temperature = self.environment['temperature']
        self.environment['temperature'] = temperature
""", ['C23', 'C20']),
    ('bug', CAM, """        if exposure is None:
            exposure = self.exposure
        if f_number is None:
""", """        if exposure is None:
            exposure = self.exposure
        self._exposure = exposure
        if f_number is None:
""", ['C23']),
    ('bug', CAM, """        if not exposure:
            exposure = self.exposure
""", """        if exposure:
            self.exposure = exposure
        exposure = self.exposure
""", ['C23']),
    ('bug', CAM, "        u_e = np.sum(np.multiply(photons, self._qe.qe), axis=2)\n",
     "        u_e = np.sum(np.multiply(photons, self._qe.qe, self._qe.qe), axis=2)\n",
     ['C23']),
    ('bug', ROU, """    return radiance * (scalar * (w * w))
""", """    radiance *= scalar * (w * w)
    return radiance
""", ['C23']),
    ('bug', ROU, """    w = wavelength * 1e-9
    t = exposure * 1e-9
    a = pixel_area * 1e-12
    # Actual""", """    w = wavelength
    w *= 1e-9
    t = exposure * 1e-9
    a = pixel_area * 1e-12
    # Actual""", ['C23']),
    ('bug', ROU, """            self._qe = self._qe * filter
""", """            self._qe *= filter
""", ['C23']),
    ('bug', PTS, EXPO, EXPO.replace('np.round(', '(').replace(', 1)', ')'), ['C24']),
    ('bug', PTS, EXPO, EXPO.replace(', 1)', ', 0)'), ['C24']),
    ('bug', PTS, EXPO, EXPO.replace('self._steps)', 'self._steps + 1)'), ['C24']),
    ('bug', PTS, EXPO, EXPO.replace('linspace', 'geomspace'), ['C24']),
    ('bug', PTS, SPAT, SPAT.replace('self._steps // 2', '(self._steps - 1) // 2'),
     ['C24']),
    ('bug', PTS, "[radiances[self._steps // 2], rad]",
     "[radiances[(self._steps + 1) // 2], rad]", ['C24']),
    ('bug', PTS, "[radiances[self._steps // 2], rad]",
     "[radiances[self._steps // 2]]", ['C24']),
    ('bug', PTS, "            radiances.append(rad)\n", "            radiances.insert(0, rad)\n",
     ['C24']),
    ('bug', PTS, MINR, MINR.replace('/ self._steps + m', '/ self._steps'), ['C24']),
    ('bug', PTS, "            self._cam.exposure = self._exposure_max\n",
     "            self._cam.exposure = self._cam.exposure_max\n", ['C24']),
    ('bug', PTS, "        if blackref is not None:\n", "        if blackref:\n", ['C24']),
    ('bug', PTS, "            self._exposure = round(self._exposure)\n",
     "            self._exposure = int(self._exposure)\n", ['C24']),
    ('bug', PTS, "            self._cam.exposure = self._exposure\n",
     "            pass\n", ['C24']),
    ('bug', PTS, "        if exposure_min is None:\n            self._exposure_min",
     "        if not exposure_min:\n            self._exposure_min", ['C24']),
    ('bug', PTS, "            radiances = [self._radiance, rad]\n",
     "            radiances = [rad, self._radiance]\n", ['C24']),
    ('bug', PTS, """                temporal[texp] = radiances

""", """                else:
                    temporal[texp] = radiances

""", ['C24']),
    ('bug', CAM, "            blackoffset_max = self.img_max // 16\n",
     "            blackoffset_max = blackoffset_min + self.img_max // 16\n", ['C21']),
    ('bug', CAM, "        if not blackoffset_max:\n", "        if not blackoffset_max or blackoffset_max < blackoffset_min:\n", ['C21']),
    ('bug', CAM, "        img = self.K * img_e\n", "        img = round(self.K, 3) * img_e\n", ['C20']),
    ('bug', CAM, "        np.clip(img_e, 0, self._u_esat, img_e)\n",
     "        np.clip(img_e, 0, self._u_esat - self._dark_signal_0, img_e)\n", ['C20']),
    ('bug', CAM, "        u_d = self._u_i(temperature=temperature) * self.exposure / (10 ** 9)\n",
     "        u_d = self._u_i(temperature=temperature) * (self.exposure // (10 ** 9))\n", ['C20']),
    ('bug', CAM, "        self._img_max = 2 ** int(bit_depth) - 1\n",
     "        self._img_max = 2 ** int(bit_depth)\n", ['C20']),
    ('bug', CAM, "        ud = self._u_i() * exposure / (10 ** 9)\n",
     "        ud = self._u_therm()\n", ['C19']),
    ('bug', CAM, "        up[:, :] = ue / self._qe.qe.mean()\n",
     "        up[:, :] = ue / self._qe.qe.mean(axis=(0, 1))\n", ['C19']),
    ('bug', BAD, "                                         replace=False)\n",
     "                                         replace=num_bad_pixel > pixel_num // 2)\n", ['C33']),
    ('bug', BAD, "    for i in bad_pixel_position:\n",
     "    for i in bad_pixel_position[:num_bad_pixel - 1]:\n", ['C33']),
    ('bug', BAD, "    bad_pixel_position = cam._rng.choice(pixel_num, num_bad_pixel,\n"
     "                                         replace=False)\n",
     "    bad_pixel_position = cam._rng.choice(cam.height, num_bad_pixel,\n"
     "                                         replace=False)\n", ['C33']),
    ('bug', ROU, """    tile = np.tile(array, (-(-height // h), -(-width // w), 1))
""", """    tile = np.tile(array, (-(-height // h), -(-width // h), 1))
""", ['C32']),
    ('bug', ROU, """            self._qe = self._qe * filter
""", """            self._qe = (self._qe * filter)[:, :self._height]
""", ['C32']),
]
