F='camera/routines.py'
C='camera/camera.py'
M=[
('same',F,"    scalar = ((a * t) * np.pi / ((h * c) * (1 + ((2 * f_number) ** 2))))\n    return radiance * (scalar * (w * w))","    irradiance = radiance * np.pi / (1 + (2 * f_number) ** 2) * w\n    return irradiance * a * t * w / (h * c)"),
('same',F,"    scalar = ((h * c) * (1 + ((2 * f_number) ** 2)) / (np.pi * a * t))\n    return photons * (scalar / (w * w))","    k = 4 * f_number ** 2 + 1\n    return photons * h * c * k / (np.pi * a * t * w ** 2)"),
('same',C,"        up = np.zeros((self.height, self.width, len(self._qe.w)))\n        up[:, :] = ue / self._qe.qe.mean()\n","        up = np.ones((self.height, self.width, len(self._qe.w))) * ue / np.mean(self._qe.qe)\n"),
('same',C,"        ue *= np.ones(len(self._qe.w))\n        up = np.zeros((self.height, self.width, len(self._qe.w)))\n        up[:, :] = ue / self._qe.qe.mean()\n","        up = np.full((self.height, self.width, len(self._qe.w)), ue / self._qe.qe.mean())\n"),
('same',C,"        if not mean:\n            mean = self.img_max\n        if not exposure:","        mean = mean or self.img_max\n        if exposure is None:"),
('bug',F,"    scalar = ((a * t) * np.pi / ((h * c) * (1 + ((2 * f_number) ** 2))))\n    return radiance * (scalar * (w * w))","    scalar = ((a * t) * np.pi / ((h * c) * (1 + ((2 * f_number) ** 2))))\n    return radiance * (scalar * w)"),
('bug',F,["    c = 3.00e8\n    w = wavelength * 1e-9\n    t = exposure * 1e-9\n    a = pixel_area * 1e-12\n    # Actual"],["    c = 2.998e8\n    w = wavelength * 1e-9\n    t = exposure * 1e-9\n    a = pixel_area * 1e-12\n    # Actual"]),
('bug',F,"    scalar = ((h * c) * (1 + ((2 * f_number) ** 2)) / (np.pi * a * t))","    scalar = ((h * c) * (1 + (2 * f_number ** 2)) / (np.pi * a * t))"),
('bug',C,"        ue = ((mean / self.K) - ud)/len(self._qe.w)","        ue = ((mean / self.K) - ud)"),
('bug',C,"        ue = ((mean / self.K) - ud)/len(self._qe.w)","        ue = (mean - ud) / self.K / len(self._qe.w)"),
('bug',C,"        up[:, :] = ue / self._qe.qe.mean()","        up[:, :] = ue / self._qe.qe.max()"),
('bug',C,"        up[:, :] = ue / self._qe.qe.mean()","        up[:, :] = ue / self._qe.qe.mean(axis=(0, 1))"),
('bug',C,"        if exposure is None:\n            exposure = self.exposure\n        if f_number is None:","        if exposure is None:\n            exposure = self.exposure_max\n        if f_number is None:"),
('bug',C,"        if f_number is None:\n            f_number = self.environment['f_number']\n        return routines.get_photons","        f_number = self.environment['f_number']\n        return routines.get_photons"),
('bug',C,"        ud = self._u_i() * exposure / (10 ** 9)\n        ue","        ud = self._u_i() * exposure / (10 ** 6)\n        ue"),
('bug',C,"        radiance = routines.get_radiance(exposure,\n","        radiance = routines.get_radiance(self.exposure,\n"),
('bug',C,"                                    self.pixel_area,\n                                    self._qe.w,\n                                    f_number)","                                    self.pixel_area,\n                                    self._qe.w.mean(),\n                                    f_number)"),
]
