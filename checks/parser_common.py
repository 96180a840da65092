"""Descriptor files with known line structure and unknown fields, and the parser evaluated on them."""
from .common import *
from vf.text import word, WORDS, join

PARSER = 'emva1288.process.parser.ParseEmvaDescriptorFile'
FILE = strsym('filename')
_n = {}


def wd(name, excl='#/\\'):
    if (name, excl) not in _n:
        _n[name, excl] = word(name, excl)
    return _n[name, excl]


def line(*fields, sep=' ', lead='', trail=''):
    ps = [lead]
    for k, f in enumerate(fields):
        if k:
            ps.append(sep)
        ps.append(f)
    ps.append(trail)
    return join([p for p in ps if p != ''])


class Block:
    """one measurement: kind 'b' or 'd', fields, image names as lists of path segments"""

    def __init__(self, kind, exposure, photons, images):
        self.kind, self.exposure, self.photons, self.images = kind, exposure, photons, images

    def lines(self, sep=' '):
        head = [self.kind, self.exposure] + ([self.photons] if self.kind == 'b' else [])
        out = [line(*head, sep=sep)]
        for im in self.images:
            ps = []
            for k, s in enumerate(im):
                if k:
                    ps.append('\\')
                ps.append(s)
            out.append(line('i', join(ps), sep=sep))
        return out

    def spec(self):
        t = lambda x: x if isinstance(x, Node) else const(x)
        return mk('tup', const(self.kind), t(self.exposure), t(self.photons) if self.kind == 'b' else NONE,
                  mk('lit', *[mk('lit', *[t(s) for s in im]) for im in self.images]))


def parse(ck, lines, path=None, given_path=False, filename=FILE, end='\n'):
    """outcome of parsing: (images, format, version)"""
    r = Run(ck.world)
    r.ip.files[filename] = [scat(x, const('\n')) for x in lines[:-1]] + [scat(x, const(end)) for x in lines[-1:]]
    cl = ck.world.get(PARSER)
    if not isinstance(cl, Cls):
        raise Vanished(PARSER)

    def go(s, cx):
        kw = {'path': V(path)} if given_path else {}
        o = r.ip.construct(cl, [V(filename)], kw, s, cx, None)
        vals = []
        for n in ('images', 'format', 'version'):
            v = r.ip.getattr(o, n, s, cx, None)
            vals.append(r.ip.freeze(v.t, s))
        return V(mk('tup', *vals))
    return r, r.outcome(go)


def part(o, k):
    return lift(lambda x: x if x.op == 'raises' else idx(x, num(k)), o.value)


def expected(ck, r, blocks, base):
    return spec_call(ck, r, 's_images', [V(mk('lit', *[b.spec() for b in blocks])), V(base)])
