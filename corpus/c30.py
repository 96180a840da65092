I=['C30']
R='process/routines.py'; P='process/parser.py'; D='camera/dataset_generator.py'; T='report/report.py'; RS='process/results.py'; C='camera/camera.py'; PL='process/plotting.py'
import re
def has(f,s): return s in open('/repo/src/emva1288/'+f).read()
M=[
('same',R,"round_array = np.vectorize(round_significant, otypes=[np.float64])","round_array = np.vectorize(lambda v: round_significant(v), otypes=[np.float64])",I),
('same',R,"    with Image.open(fname) as f:\n","    import pathlib\n    with Image.open(pathlib.Path(fname)) as f:\n",I),
('same',D,"        # run test\n        self._descriptor_path","        log = print if hasattr(self, 'verbose') and self.verbose else None\n        self._descriptor_path",I),
('same',R,"    L = len(imgs)  # number of images\n","    try:\n        bool_ = np.bool8\n    except AttributeError:\n        bool_ = np.bool_\n    L = len(imgs)\n",I),
('bug',R,"otypes=[np.float64]","otypes=[np.float]",I),
('bug',R,"np.asarray(v, dtype=np.float64)","np.asarray(v, dtype=np.float_)",I),
('bug',R,"etree.tostring(xml, pretty_print=True)","etree.tostring(xml, pretty=True)" ,I) if 0 else
('bug',R,"tree = etree.Element(root)","tree = etree.XMLElement(root)",I),
('bug',D,"np.count_nonzero(img)","np.countnonzero(img)",I),
('bug',D,"self.tempdir = tempfile.TemporaryDirectory()","self.tempdir = tempfile.TempDirectory()",I),
('bug',D,"self.cam.get_photons(radiance)","self.cam.get_photon(radiance)",I),
('bug',D,"self.cam.grab(radiance)","self.camera.grab(radiance)",I),
('bug',T,"from matplotlib.backends.backend_pdf import FigureCanvas","from matplotlib.backends.backend_pdf import FigureCanvasPDF",I),
('bug',T,"figure.savefig(","figure.save_fig(",I),
('bug',D,"from PIL import Image","from pil import Image",I),
('bug',R,"raise ValueError('The size of the highpass filter must be odd')","raise ValueErr('The size of the highpass filter must be odd')",I),
('bug',R,"raise ValueError('The size of the highpass filter must be odd')","raise UnicodeDecodeError('The size of the highpass filter must be odd')",I),
('bug',D,"PointsGenerator(self.cam,\n","PointsGenerator(self.cam, n_steps=4,\n",I),
('bug',R,"img = np.ma.array(img, mask=mask)","img = np.ma.array(img, masked=mask)",I),
('bug',D,"names, number\n","names, numbr\n",I),
('bug',D,"Image.fromarray(img.astype(dtype), mode)","Image.from_array(img.astype(dtype), mode)",I),
('bug',D,"Image.fromarray(img.astype(dtype), mode)","Image.fromarray(img.as_type(dtype), mode)",I),
]
