F='camera/dataset_generator.py'
S=open('/repo/src/emva1288/'+F).read()
A=S.index("            for kind in ('temporal', 'spatial'):\n"); B=S.index("        # return descriptor path\n")
LOOP=S[A:B]
SAVE=S[S.index("        # save the images contained in d\n"):]
I=['C25']
M=[
('same',F,LOOP,'''            numbers = iter(range(10 ** 9))
            for kind, n in (('temporal', 2), ('spatial', self._L)):
                points = self.points[kind]
                for texp in points:
                    for radiance in points[texp]:
                        self._write_point(f, texp, radiance, n, numbers)
''' ,I) if 0 else
('same',F,LOOP,'''            for kind, n in (('temporal', 2), ('spatial', self._L)):
                points = self.points[kind]
                for texp in points:
                    self.cam.exposure = texp
                    for radiance in points[texp]:
                        lines = [self._get_descriptor_line(texp, radiance)]
                        images = self._get_imgs(radiance, n)
                        names = ["image%d.%s" % (image_number + k, self._image_format) for k in range(n)]
                        image_number += n
                        for img, name in zip(images, names):
                            self.save_image(img, name)
                            lines.append("i images\\\\" + name)
                        f.write("\\n".join(lines) + "\\n")

''',I),
('same',F,'''        if np.mean(radiance) == 0.0:
            # dark image
            return "d %.1f" % exposure
''','''        if not np.any(radiance):
            return "d {:.1f}".format(exposure)
''',I),
('same',F,SAVE,'''        if self.cam.bit_depth > 8:
            pixels, mode = img.astype(np.uint32), 'I'
        else:
            pixels, mode = img.astype(np.uint8), 'L'
        Image.fromarray(pixels, mode=mode).save(os.path.join(self.outdir, 'images', name))
''',I),
('same',F,'''        return "b %.1f %.3f" % (exposure, np.round(np.sum(
                self.cam.get_photons(radiance), axis=2).mean(), 3))''','''        photons = self.cam.get_photons(radiance).sum(axis=2)
        return f"b {exposure:.1f} {np.mean(photons):.3f}"''',I),
('same',F,'''            f.write("n %i %i %i\\n" % (self.cam.bit_depth,
                                      self.cam.width,
                                      self.cam.height))''','''            print("n", self.cam.bit_depth, self.cam.width, self.cam.height, file=f)''',I),
('bug',F,"                    self.cam.exposure = texp\n","",I),
('bug',F,"                    self.cam.exposure = texp\n                    # Grab all images for these radiances\n                    for radiance in radiances:\n","                    # Grab all images for these radiances\n                    for radiance in radiances:\n                        if kind == 'temporal':\n                            self.cam.exposure = texp\n",I),
('bug',F,'return "d %.1f" % exposure','return "d %.0f" % exposure',I),
('bug',F,'return "b %.1f %.3f" %','return "b %.1f %.1f" %',I),
('bug',F,'return "d %.1f" % exposure','return "d %.1f 0.0" % exposure',I),
('bug',F,"            for kind in ('temporal', 'spatial'):\n","            for kind in ('temporal', 'spatial'):\n                image_number = 0\n",I),
('bug',F,'"image%i.%s" % (image_number','"image%i.%s" % (image_number % 8',I),
('bug',F,'if self.cam.bit_depth <= 8:','if self.cam.bit_depth <= 10:',I),
('bug',F,'if self.cam.bit_depth <= 8:','if self.cam.bit_depth < 12:',I),
('bug',F,"axis=2).mean(), 3))","axis=2).max(), 3))",I),
('bug',F,"self.cam.get_photons(radiance)","self.cam.get_photons(radiance, exposure=self.cam.exposure_min)",I),
('bug',F,"                                      self.cam.width,\n                                      self.cam.height))","                                      self.cam.height,\n                                      self.cam.width))",I),
('bug',F,"path = os.path.join(self.outdir, 'images', name)","path = os.path.join(self.outdir, 'images', str(self._version), name)",I),
('bug',F,'"i images\\\\%s\\n" % name','"i %s\\n" % name',I),
('bug',F,"                L = 2\n                if kind == 'spatial':\n                    L = self._L\n","                if kind == 'temporal':\n                    L = 2\n                else:\n                    L = self._L - 1\n",I),
('bug',F,"                            img = self.cam.grab(radiance)\n","                            if l == 0 or kind == 'temporal':\n                                img = self.cam.grab(radiance)\n",I),
('bug',F,"np.mean(radiance) == 0.0","np.mean(radiance) < 1.0",I),
('bug',F,"""                                 radiance_min=radiance_min,
""","""                                 radiance_min=radiance_max,
""",I),
('bug',F,"                                 exposure_fixed=exposure_fixed,\n","",I),
('bug',F,"                            # grab\n                            img = self.cam.grab(radiance)\n","                            # grab\n                            img = self.cam.grab(radiance if l else radiances[0])\n",I),
]
