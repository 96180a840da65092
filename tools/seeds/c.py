import importlib.util, os
_s = importlib.util.spec_from_file_location('b', os.path.join(os.path.dirname(__file__), 'b.py'))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
DS, RES, REP = _m.DS, _m.RES, _m.REP
S = [
dict(id='c18-zerovalue', property='C18',
 edits=[('process/routines.py', "            if v1 is not None and v2 is not None:", "            if v1 and v2:")],
 needs='a value that is zero in both files', breaks='values that are zero on both sides are reported as different',
 demo='''from emva1288.process.routines import compare_xml, dict_to_xml
f = lambda v: dict_to_xml({'s': {'h': {'value': v}}})
assert 'FAIL' not in compare_xml(f(0), f(0.0))
'''),
dict(id='c24-middle', property='C24',
 edits=[('camera/points_generator.py', "[radiances[self._steps // 2], rad]", "[radiances[len(radiances) // 2], rad]")],
 needs='an odd number of steps', breaks='the spatial point is not at the middle radiance',
 demo='''import numpy as np
from emva1288.camera.camera import Camera
from emva1288.camera.points_generator import PointsGenerator
c = Camera(width=4, height=3, K=0.1, blackoffset=5)
p = PointsGenerator(c, exposure_fixed=1000000, steps=3, radiance_min=2., radiance_max=9.).points
assert np.allclose([r.mean() for r in p['spatial'][1000000]], [5.5, 0.])
'''),
dict(id='c25-depth', property='C25',
 edits=[('camera/dataset_generator.py', "        if self.cam.bit_depth <= 8:\n", "        if self.cam.img_max < 2 ** 10:\n")],
 needs='a camera with 9 or 10 bits', breaks='images of 9 and 10 bits are stored with 8 bits and wrap',
 demo='''import numpy as np
from PIL import Image
from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.process.parser import ParseEmvaDescriptorFile
g = DatasetGenerator(steps=3, L=3, width=6, height=5, bit_depth=10, K=1., dark_current_ref=30)
g.save_image(np.full((5, 6), 700), 'x.png')
import os
m = np.asarray(Image.open(os.path.join(g.outdir, 'images', 'x.png'))).astype(int)
assert (m == 700).all(), m
'''),
dict(id='c25-dark', property='C25',
 edits=[('camera/dataset_generator.py', "        if np.mean(radiance) == 0.0:\n", "        if np.min(radiance) == 0.0:\n")],
 needs='a radiance that is zero at some wavelength or pixel only', breaks='a bright point with zero radiance somewhere is written as dark',
 demo='''import numpy as np
from emva1288.camera.dataset_generator import DatasetGenerator
g = DatasetGenerator(steps=3, L=3, width=6, height=5, K=1., blackoffset=2., dark_current_ref=30)
r = np.ones((5, 6, len(g.cam.qe.w))); r[0, 0, 0] = 0
assert g._get_descriptor_line(1e6, r).startswith('b '), g._get_descriptor_line(1e6, r)
'''),
dict(id='c26-uydark', property='C26',
 edits=[('process/plotting.py', "            ax.plot(test.temporal['texp'],\n                    test.temporal['u_ydark'],\n                    label='Data',\n                    gid='%d:data' % test.id)\n        ax.ticklabel_format",
    "            ax.plot(np.unique(test.temporal['texp']),\n                    np.sort(test.temporal['u_ydark']),\n                    label='Data',\n                    gid='%d:data' % test.id)\n        ax.ticklabel_format")],
 needs='dark means that do not grow with the exposure', breaks='the dark means are sorted, so that they no longer belong to their exposures',
 demo=RES + '''from matplotlib.figure import Figure
from emva1288.process.plotting import PlotUyDark
r, d = result()
r.id = 1
d['temporal']['u_ydark'][3:5] = d['temporal']['u_ydark'][3:5][::-1].copy()
p = PlotUyDark(Figure()); p.plot(r)
assert np.array_equal(p.ax.lines[0].get_ydata(), d['temporal']['u_ydark'])
'''),
dict(id='c26-nz', property='C26',
 edits=[('process/plotting.py', "        nz = np.nonzero(test.temporal['s2_y'])\n", "        nz = np.nonzero(test.temporal['s2_y'] - test.temporal['s2_ydark'])\n")],
 needs='points whose variance is that of the dark (and not zero)', breaks='measured points without extra noise are left out of the SNR plot',
 demo=RES + '''from matplotlib.figure import Figure
from emva1288.process.plotting import PlotSNR
r, d = result()
r.id = 1
d['temporal']['s2_y'][0] = d['temporal']['s2_ydark'][0]
p = PlotSNR(Figure()); p.plot(r)
assert len(p.ax.lines[0].get_xdata()) == 12, len(p.ax.lines[0].get_xdata())
'''),
dict(id='c27-decimals', property='C27',
 edits=[('report/report.py', "            t = '{:.%df}' % precision\n", "            t = '{:.%dg}' % precision\n")],
 needs='a result with more digits than decimals asked for', breaks='results are printed with significant digits instead of decimals',
 demo=REP + '''with tempfile.TemporaryDirectory() as d:
    r = report.Report1288(os.path.join(d, 'rep'))
    f = r.renderer.filters['missingnumber']
    assert f(1234.5678, 2) == '1234.57', f(1234.5678, 2)
'''),
dict(id='c29-wrapper', property='C29',
 edits=[('process/__init__.py', "        plot.plot(*plots)", "        plot.plot(*set(plots))")],
 needs='plots given in an order, or one given twice', breaks='the wrapper draws the plots it is given in an arbitrary order and only once',
 demo='''from emva1288.process import Emva1288
import emva1288.process as p
got = []
class P:
    def __init__(self, *t): pass
    def plot(self, *a): got.append(a)
p.Plotting1288 = P
e = Emva1288.__new__(Emva1288); e._results = None
e.plot(1, 1, 2)
assert got == [(1, 1, 2)], got
'''),
dict(id='c31-report', property='C31',
 edits=[('report/report.py', "        with open(fname, 'w') as f:\n            f.write(content)\n        return fname", "        f = open(fname, 'w')\n        f.write(content)\n        f.close()\n        return fname")],
 needs='content that cannot be written (characters outside the encoding, a full disk)', breaks='the report file stays open when writing fails',
 demo=REP + '''import emva1288.report.report as m
opened = []
def rec(*a, **k):
    f = open(*a, **k); opened.append(f); return f
m.open = rec
with tempfile.TemporaryDirectory() as d:
    r = report.Report1288(os.path.join(d, 'rep'))
    try:
        r._write_file('x', 3)
    except TypeError:
        pass
    assert opened and all(f.closed for f in opened)
'''),
]
