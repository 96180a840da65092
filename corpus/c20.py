F='camera/camera.py'
M=[
('same',F,"        np.rint(img, img)\n        np.clip(img, 0, clipping_point, img)\n","        img = np.clip(img, 0, clipping_point)\n        img = np.rint(img)\n"),
('same',F,"        np.clip(img_e, 0, self._u_esat, img_e)\n","        img_e = np.minimum(np.maximum(img_e, 0), self._u_esat)\n"),
('same',F,"        img_q = self._rng.uniform(-0.5, 0.5, self._shape)\n        img += img_q\n","        img += self._rng.random(self._shape) - 0.5\n"),
('same',F,"        img_e += self._rng.poisson(u_e, size=self._shape)\n","        img_e = img_e + self._rng.poisson(u_e)\n"),
('same',F,"""        variance = np.sqrt(self._sigma2_dark_0)
        dark_signal = self._dsnu + self._rng.normal(loc=self._dark_signal_0,
                                                    scale=variance,
                                                    size=self._shape)""","""        dark_signal = self._rng.standard_normal(self._shape)
        dark_signal = dark_signal * self._sigma2_dark_0 ** 0.5 + self._dark_signal_0
        dark_signal += self.DSNU"""),
('same',F,"        u_e = np.sum(np.multiply(photons, self._qe.qe), axis=2)\n        u_e *= self._prnu\n        return u_e","        return (photons * self._qe.qe).sum(axis=-1) * self._prnu"),
('same',F,"        u_d = self._u_i(temperature=temperature) * self.exposure / (10 ** 9)\n","        u_d = self._u_i(temperature) * (self.exposure / 1e9)\n"),
('bug',F,"        np.rint(img, img)\n        np.clip(img, 0, clipping_point, img)\n","        np.clip(img, 0, clipping_point, img)\n        img += 0.5\n"),
('bug',F,"        np.clip(img_e, 0, self._u_esat, img_e)\n","        np.clip(img_e, None, self._u_esat, img_e)\n"),
('bug',F,"        img_q = self._rng.uniform(-0.5, 0.5, self._shape)\n","        img_q = self._rng.uniform(0, 1, self._shape)\n"),
('bug',F,"        img_e += self._rng.poisson(u_e, size=self._shape)\n","        img_e += self._rng.poisson(u_e.mean(), size=self._shape)\n"),
('bug',F,"        u_e = self._u_e(radiance, f_number=f_number)\n","        u_e = self._u_e(radiance)\n"),
('bug',F,"        u_d = self._u_therm(temperature=temperature)\n","        u_d = self._u_therm()\n"),
('bug',F,"        if temperature is None:\n","        if not temperature:\n"),
('bug',F,"        variance = np.sqrt(self._sigma2_dark_0)\n","        variance = self._sigma2_dark_0\n"),
('bug',F,"        if bit_depth <= 8:","        if bit_depth <= 10:"),
('bug',F,"        elif bit_depth <= 16:","        elif bit_depth < 20:"),
('bug',F,"        u_e *= self._prnu\n","        u_e += self._prnu\n"),
('bug',F,"        # Offset on the dark_signal\n        img += self.blackoffset\n","        # Offset on the dark_signal\n        img += int(self.blackoffset)\n"),
('bug',F,"            (temperature - self._temperature_ref) / self._temperature_doubling)","            (temperature - self._temperature_ref) // self._temperature_doubling)"),
('bug',F,"        clipping_point = int(self.img_max)\n","        clipping_point = int(self.img_max) + 1\n"),
]
