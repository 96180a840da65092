DS = '''import numpy as np, tempfile, os
from emva1288.process.parser import ParseEmvaDescriptorFile
def parse(text):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'x.txt')
        open(p, 'w').write(text)
        return ParseEmvaDescriptorFile(p, path='P').images
'''
RES = '''import numpy as np
from emva1288.process.results import Results1288
def result(n=12, **kw):
    rng = np.random.RandomState(3)
    u_p = np.linspace(100., 9000., n)
    t = dict(u_p=u_p, texp=np.linspace(1e6, 9e6, n), u_ydark=np.linspace(10, 12, n), s2_ydark=np.linspace(1., 1.3, n))
    t['u_y'] = t['u_ydark'] + .1 * u_p
    t['s2_y'] = t['s2_ydark'] + .02 * u_p
    t['s2_y'][-2:] = 1.
    s = dict(texp=5e6, u_p=4500.)
    for p, m in (('', 400), ('_dark', 11)):
        img = rng.randint(m - 5, m + 6, (12, 14)) * 4
        s.update({'sum' + p: img, 'L' + p: 4, 'M' + p: 12, 'N' + p: 14, 'avg_mean' + p: img.mean() / 4, 'avg_var' + p: 12.,
                  'var_mean' + p: 1., 'avg_var_cav' + p: .3, 'avg_var_rav' + p: .2})
    d = {'temporal': t, 'spatial': s}
    return Results1288(d, **kw), d
'''
REP = '''import os, tempfile, copy
from emva1288 import report
''' + RES
S = [
dict(id='c01-deep-path', property='C01',
 edits=[('process/parser.py', "path = os.path.join(self._path, *npath.split('\\\\'))", "path = os.path.join(self._path, *npath.rsplit('\\\\', 1))")],
 needs='an image two or more directories below the descriptor file',
 breaks='only the last backslash of an image path separates directories',
 demo=DS + '''im = parse('d 1\\ni a\\\\b\\\\c.png\\ni a\\\\b\\\\d.png\\n')
assert im['temporal'][1.][0.] == [os.path.join('P', 'a', 'b', 'c.png'), os.path.join('P', 'a', 'b', 'd.png')], im
'''),
dict(id='c01-dark-comma', property='C01',
 edits=[('process/parser.py', "                # replace floating point representation if wring format\n                exposure = float(l[1].replace(',', '.'))",
         "                # replace floating point representation if wring format\n                exposure = float(l[1].replace(',', ''))")],
 needs='a dark line whose exposure has a decimal comma',
 breaks='the decimal comma of dark exposures is dropped, so that they are ten times as long',
 demo=DS + '''im = parse('d 12,5\\ni a.png\\ni b.png\\nb 12,5 3,5\\ni c.png\\ni d.png\\n')
assert im['temporal'] == {12.5: {0.: [os.path.join('P', 'a.png'), os.path.join('P', 'b.png')],
                                 3.5: [os.path.join('P', 'c.png'), os.path.join('P', 'd.png')]}}, im
'''),
dict(id='c02-dark-twice', property='C02',
 edits=[('process/parser.py', "        if photons in self.images[kind][exposure]:", "        if self.images[kind][exposure].get(photons) and photons:")],
 needs='two dark series of the same kind at one exposure',
 breaks='a second dark series silently replaces the first',
 demo=DS + '''try:
    im = parse('d 5\\ni a.png\\ni b.png\\nd 5\\ni c.png\\ni d.png\\n')
except SyntaxError:
    pass
else:
    raise SystemExit('accepted %s' % im)
'''),
dict(id='c02-format-twice', property='C02',
 edits=[('process/parser.py', "                if self.format:  # pragma: no cover", "                if self.format == {'bits': l[1], 'width': l[2], 'height': l[3]}:  # pragma: no cover")],
 needs='a second n line',
 breaks='a second format line replaces the first',
 demo=DS + '''try:
    im = parse('n 8 4 3\\nn 12 8 6\\nd 5\\ni a.png\\ni b.png\\n')
except SyntaxError:
    pass
else:
    raise SystemExit('accepted')
'''),
dict(id='c16-sumdark', property='C16',
 edits=[('process/results.py', "        # For the accumulated dsnu histogram, substract the mean from the image\n        y = np.abs(y - int(np.mean(y)))",
         "        # For the accumulated dsnu histogram, substract the mean from the image\n        y = np.abs(np.subtract(y, int(np.mean(y)), out=y))")],
 needs='the dark histograms read in a certain order, or the image used afterwards',
 breaks='reading the accumulated DSNU histogram subtracts the mean from the sum image of the caller',
 demo=RES + '''r, d = result()
a = d['spatial']['sum_dark'].copy()
h = r.histogram_DSNU['bins'].copy()
r.histogram_DSNU_accumulated
assert (d['spatial']['sum_dark'] == a).all()
assert np.array_equal(r.histogram_DSNU['bins'], h)
'''),
dict(id='c16-order', property='C16',
 edits=[('process/results.py', "        Y = self.temporal['u_y'] - self.temporal['u_ydark']\n        m = 0.7 * (Y[self.index_u_ysat])\n        return max(np.argwhere(Y <= m))[0]",
         "        Y = self.temporal['u_y'] - self.temporal['u_ydark']\n        m = 0.7 * (Y[self.index_u_ysat])\n        self._index_start = self._index_start or int(np.argmax(Y > 0))\n        return max(np.argwhere(Y <= m))[0]")],
 needs='data whose first points are not above dark, and index_start read before and after another result',
 breaks='index_start changes once the sensitivity range has been read',
 demo=RES + '''r, d = result()
d['temporal']['u_y'][0] = d['temporal']['u_ydark'][0]
a = r.index_start
r.R
assert r.index_start == a
'''),
dict(id='c17-zero', property='C17',
 edits=[('process/routines.py', "            # if something else, just add the corresponding string value\n            else:\n                e.text = str(d[k])",
         "            # if something else, just add the corresponding string value\n            else:\n                e.text = str(d[k] or None)")],
 needs='a result that is exactly zero (such as an index)',
 breaks='results that are zero are exported as None',
 demo=RES + '''from lxml import etree
r, d = result()
t = etree.fromstring(r.xml())
e = t.find('.//index_start/value')
assert e is not None and e.text == '0', e.text
'''),
dict(id='c17-colon', property='C17',
 edits=[('process/routines.py', "tags = [x.strip() for x in line.split(':', 2) if x.strip()]", "tags = [x.strip(' :') for x in line.split(':', 2) if x.strip()]\n            tags = [x.split('.DN')[0] for x in tags]")],
 needs='the metadata of the results whose symbol ends in .DN',
 breaks='the symbols of the dark currents in DN lose their suffix and their closing characters',
 demo=RES + '''r, d = result()
x = r.results
assert x['u_I_var_DN']['symbol'] == '$\\\\mu_{I.var.DN}$', x['u_I_var_DN']['symbol']
'''),
dict(id='c18-lastkey', property='C18',
 edits=[('process/routines.py', "                        if not r:\n                            break\n", "                        if not r and len(a1[k]) != len(a2[k]):\n                            break\n")],
 needs='two files whose arrays differ under a key that is not the last',
 breaks='only the last array of an entry decides the comparison',
 demo='''import numpy as np
from emva1288.process.routines import compare_xml, dict_to_xml
a = {'s': {'h': {'data': {'bins': np.array([1., 2.]), 'values': np.array([3., 4.])}}}}
b = {'s': {'h': {'data': {'bins': np.array([1., 5.]), 'values': np.array([3., 4.])}}}}
assert 'FAIL' in compare_xml(dict_to_xml(a), dict_to_xml(b))
assert 'FAIL' not in compare_xml(dict_to_xml(a), dict_to_xml(a))
'''),
dict(id='c24-halfup', property='C24',
 edits=[('camera/points_generator.py', "spatial[self._exposure] = [radiances[self._steps // 2], rad]", "spatial[self._exposure] = [radiances[len(radiances) // 2], rad]")],
 needs='a fixed exposure and an odd number of steps',
 breaks='the spatial point of a series with an odd number of steps is one past the middle',
 demo='''import numpy as np
from emva1288.camera.camera import Camera
from emva1288.camera.points_generator import PointsGenerator
c = Camera(width=4, height=3, K=0.1, blackoffset=5)
p = PointsGenerator(c, exposure_fixed=1000000, steps=5, radiance_min=1., radiance_max=9.).points
assert np.allclose(p['spatial'][1000000][0], 5.), p['spatial'][1000000][0].mean()
'''),
dict(id='c26-mid', property='C26',
 edits=[('process/plotting.py', "        if isinstance(profile_mid, np.ma.core.MaskedArray):\n            if profile_mid.mask.all():", "        if isinstance(profile_mid, np.ma.core.MaskedArray):\n            if profile_mid.mask.any():")],
 needs='a masked image whose middle line is masked in part',
 breaks='the line drawn as the middle profile is the one after the middle',
 demo='''import numpy as np
from matplotlib.figure import Figure
from emva1288.process.plotting import PlotHorizontalProfile
p = PlotHorizontalProfile(Figure())
y = np.arange(24.).reshape(4, 6)
m = np.zeros((4, 6), bool); m[:, ::2] = True
x, v = p._get_image_profiles(np.ma.array(y, mask=m))['mid']
assert list(v) == [13., 15., 17.], v
'''),
dict(id='c26-lastfigure', property='C26',
 edits=[('process/plotting.py', "            figure = plt.figure(i)\n            plot = plot_cls(figure)\n            for test in self.tests:\n                plot.plot(test)",
         "            figure = plt.figure(i)\n            plot = plot_cls(figure)\n            for test in {test.id: test for test in self.tests}.values():\n                plot.plot(test)")],
 needs='two tests that carry the same id',
 breaks='of tests with the same id only the last one is drawn',
 demo='''from emva1288.process.plotting import Plotting1288
drawn = []
class F:
    name = 'f'
    def __init__(self, figure): pass
    def plot(self, test): drawn.append(test)
    def rearrange(self): pass
class T: pass
a, b = T(), T()
a.id = b.id = 1
Plotting1288(a, b).plot(F)
assert drawn == [a, b], drawn
'''),
dict(id='c28-opid', property='C28',
 edits=[('report/report.py', "        op['id'] = 'OP%d' % (n)\n", "        op['id'] = op['id'] or 'OP%d' % (n)\n")],
 needs='operation points whose id field the caller has filled, twice with the same or with a path',
 breaks='the directory of an operation point is named by the caller, so that two can share one',
 demo=REP + '''with tempfile.TemporaryDirectory() as d:
    r = report.Report1288(os.path.join(d, 'rep'))
    r._plots = lambda results, id_: {}
    for k in range(2):
        op = report.info_op(); op['id'] = 'mine'
        r.add(op, None, results=result()[0])
    assert [o['id'] for o in r.ops] == ['OP1', 'OP2'], [o['id'] for o in r.ops]
'''),
dict(id='c28-chdir', property='C28',
 edits=[('report/report.py', "        self._outdir = os.path.abspath(outdir)\n", "        self._outdir = os.path.normpath(outdir)\n")],
 needs='a relative output directory and a change of the working directory before the files are written',
 breaks='the files of one report end up below the working directory of the moment',
 demo=REP + '''with tempfile.TemporaryDirectory() as d:
    old = os.getcwd()
    try:
        os.makedirs(os.path.join(d, 'a')); os.makedirs(os.path.join(d, 'b', 'rep'))
        os.chdir(os.path.join(d, 'a'))
        r = report.Report1288('rep')
        os.chdir(os.path.join(d, 'b'))
        r._write_file('x.tex', 'x')
        assert os.path.isfile(os.path.join(d, 'a', 'rep', 'x.tex'))
    finally:
        os.chdir(old)
'''),
dict(id='c30-npfloat', property='C30',
 edits=[('process/routines.py', "                    d[section][methodname]['data'][data] = np.asarray(v, dtype=np.float64)", "                    d[section][methodname]['data'][data] = np.asarray(v, dtype=np.float_)")],
 needs='a result file with arrays and the installed numpy 2',
 breaks='reading arrays back uses a name that numpy has removed',
 demo='''import numpy as np
from emva1288.process.routines import dict_to_xml, xml_to_dict
x = xml_to_dict(dict_to_xml({'s': {'h': {'data': {'bins': np.array([1., 2.])}}}}))
assert list(x['s']['h']['data']['bins']) == [1., 2.]
'''),
]
S = [s for s in S if s['demo'] != 'raise SystemExit(0)\n']
