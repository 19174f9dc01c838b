"""Seeded workloads: trees of SCAD, STL and SVG files plus options."""
import glob
import json
import os
import posixpath
import random
import re
import struct

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('HOB3L_REPO', '/repo')

COLORS = ['red', 'green', 'blue', 'mediumturquoise', 'yellow', 'gold', 'plum', '#f80', '#12ab34']


def num(r, lo=-10, hi=10):
    k = r.randrange(6)
    if k == 0:
        return '%d' % r.randint(int(lo), int(hi))
    if k == 1:
        return '%.1f' % r.uniform(lo, hi)
    if k == 2:
        return '%+.3f' % r.uniform(lo, hi)
    if k == 3:
        return '%.2e' % r.uniform(lo, hi)
    if k == 4:
        return '%g' % (r.randint(int(lo * 4), int(hi * 4)) / 4)
    return '%.4f' % r.uniform(lo, hi)


def pos(r, lo=0.5, hi=10):
    return r.choice(['%d' % r.randint(max(1, int(lo)), int(hi)), '%.1f' % r.uniform(lo, hi), '%.3f' % r.uniform(lo, hi)])


def vec(r, n, lo=-10, hi=10):
    return '[' + r.choice([', ', ',', ' , ']).join(num(r, lo, hi) for _ in range(n)) + ']'


def stl_ascii(r, tris=None, name=None):
    tris = tris or solid(r)
    o = ['solid %s' % (name or r.choice(['model', 'OpenSCAD_Model', 'x']))]
    for t in tris:
        o.append('  facet normal 0 0 0')
        o.append('    outer loop')
        for v in t:
            o.append('      vertex %s' % ' '.join(repr(float(c)) if r.random() < .3 else '%g' % c for c in v))
        o.append('    endloop')
        o.append('  endfacet')
    o.append('endsolid')
    return ('\n'.join(o) + '\n').encode()


def stl_bin(r, tris=None):
    tris = tris or solid(r)
    o = [bytes(r.choice([0, 32]) for _ in range(1)) * 80, struct.pack('<I', len(tris))]
    for t in tris:
        o.append(struct.pack('<12fH', 0, 0, 0, *[float(c) for v in t for c in v], 0))
    return b''.join(o)


def solid(r):
    """a closed convex solid: tetrahedron, box or prism"""
    k = r.randrange(3)
    s = r.choice([1, 2, 3.5, 5])
    ox, oy, oz = r.choice([0, 1, -2.5]), r.choice([0, 3]), r.choice([0, -1.25])

    def P(x, y, z):
        return (x * s + ox, y * s + oy, z * s + oz)
    if k == 0:
        a, b, c, d = P(0, 0, 0), P(2, 0, 0), P(0, 2, 0), P(0, 0, 2)
        return [(a, c, b), (a, b, d), (b, c, d), (a, d, c)]
    n = 4 if k == 1 else r.randint(3, 7)
    import math
    rad = r.choice([1, 1.5])
    bot = [P(rad * round(math.cos(2 * math.pi * i / n), 4), rad * round(math.sin(2 * math.pi * i / n), 4), 0) for i in range(n)]
    q = r.choice([1, 0.5])
    top = [P(q * rad * round(math.cos(2 * math.pi * i / n), 4), q * rad * round(math.sin(2 * math.pi * i / n), 4), 2) for i in range(n)]
    o = []
    for i in range(n):
        j = (i + 1) % n
        o.append((bot[i], bot[j], top[j]))
        o.append((bot[i], top[j], top[i]))
    for i in range(1, n - 1):
        o.append((bot[0], bot[i + 1], bot[i]))
        o.append((top[0], top[i], top[i + 1]))
    return o


def svg_num(r, lo, hi, unit=False):
    v = r.choice(['%d' % r.randint(lo, hi), '%d' % r.randint(lo, hi), '%g' % (r.randint(lo * 4, hi * 4) / 4), '%ge1' % (r.randint(lo, hi) / 10)])
    return v + (r.choice(['', '', 'px', 'mm', 'pt', 'pc', 'cm', 'in', '%']) if unit and r.random() < .2 else '')


def svg_path(r, x, y, w, h):
    """path data: all commands, absolute and relative, with and without separators"""
    o = ['M%d %d' % (x, y)]
    n = 0
    for _ in range(r.randint(2, 6)):
        k = r.choice('LLLHVQTCSA')
        rel = r.random() < .5

        def P():
            if rel:
                return '%s%s%s' % (svg_num(r, -w, w), r.choice([' ', ',', ' , ']), svg_num(r, -h, h))
            return '%s%s%s' % (svg_num(r, x - w, x + w), r.choice([' ', ',', ' , ']), svg_num(r, y - h, y + h))
        rep = r.choice([1, 1, 1, 2])
        if k in 'LT':
            a = [P() for _ in range(rep)]
        elif k == 'H':
            a = [svg_num(r, -w if rel else x, w if rel else x + w)]
        elif k == 'V':
            a = [svg_num(r, -h if rel else y, h if rel else y + h)]
        elif k in 'QS':
            a = [P() + ' ' + P() for _ in range(rep)]
        elif k == 'C':
            a = [P() + ' ' + P() + ' ' + P() for _ in range(rep)]
        else:
            a = ['%d %d %d %d%s%d %s' % (r.randint(1, w), r.randint(1, h), r.choice([0, 0, 30, 45]), r.randrange(2), r.choice([' ', ',']), r.randrange(2), P())]
        o.append((k.lower() if rel else k) + r.choice(['', ' ']) + r.choice([' ', ',']).join(a))
        n += 1
        if n > 2 and r.random() < .15:
            o.append(r.choice(['Z', 'z']) + r.choice(['', ' m %d,%d' % (r.randint(-9, 9), r.randint(-9, 9)), 'M%d %d' % (x + 40, y)]))
    if r.random() < .8:
        o.append(r.choice('Zz'))
    return r.choice([' ', ' ', '']).join(o)


def svg(r, ids=()):
    shapes = []
    for _ in range(r.randint(1, 5)):
        x, y, w, h = r.randint(0, 60), r.randint(0, 60), r.randint(5, 30), r.randint(5, 30)
        k = r.randrange(11)
        st = r.choice(['', ' style="fill:#%06x"' % r.randrange(1 << 24), ' fill="red"', ' transform="translate(%d,%d)"' % (r.randint(-9, 9), r.randint(-9, 9)),
                       ' transform="rotate(%d) scale(%g)"' % (r.randint(0, 90), r.choice([.5, 1.5])),
                       ' transform="%s"' % r.choice([' ', ',', ' , ']).join(r.choice([
                           'rotate(%d %d %d)' % (r.randint(-90, 90), x, y), 'skewX(%d)' % r.randint(-40, 40), 'skewY(%d)' % r.randint(-40, 40), 'translate(%d)' % r.randint(-5, 5),
                           'matrix(1 0.5 -0.25 1 %d %d)' % (r.randint(-5, 5), r.randint(-5, 5)), 'scale(1.5,0.5)', 'matrix(1,0,0,1,0,0)'])
                           for _ in range(r.choice([1, 1, 2])))])
        if ids and r.random() < .5:
            st += ' id="%s"' % r.choice(ids)
        if k == 0:
            shapes.append('<rect x="%d" y="%d" width="%s" height="%s"%s/>' % (x, y, svg_num(r, 5, 30, True), svg_num(r, 5, 30, True), st))
        elif k == 1:
            shapes.append('<rect x="%d" y="%d" width="%d" height="%d" rx="3"%s%s/>' % (x, y, w, h, r.choice(['', ' ry="2"', ' ry="50%"']), st))
        elif k == 2:
            shapes.append('<circle cx="%d" cy="%d" r="%s"%s/>' % (x, y, svg_num(r, 5, 30, True), st))
        elif k == 3:
            shapes.append('<ellipse cx="%d" cy="%d" rx="%d" ry="%d"%s/>' % (x, y, w, h, st))
        elif k == 4:
            shapes.append('<%s points="%d,%d %d,%d %d,%d"%s/>' % (r.choice(['polygon', 'polygon', 'polyline']), x, y, x + w, y, x, y + h, st))
        elif k == 5:
            shapes.append('<path d="M%d %d L %d %d L %d %d Z"%s/>' % (x, y, x + w, y, x, y + h, st))
        elif k == 6:
            shapes.append('<path d="m %d,%d c 5 -9 20 -8 %d 0 s 4 %d -9 %d z"%s/>' % (x, y, w, h, h, st))
        elif k == 7:
            shapes.append(r.choice(['<line x1="%d" y1="%d" x2="%d" y2="%d"%s/>' % (x, y, w, h, st), '<title>a &lt; b &#38; &#x63;</title>', '<desc><![CDATA[ <x> ]]></desc>',
                                    '<defs><rect x="1" y="1" width="5" height="5"/></defs>', '<text%s>word</text>' % st, '<a><rect x="%d" y="%d" width="9" height="9"/></a>' % (x, y)]))
        else:
            shapes.append('<path d="%s"%s/>' % (svg_path(r, x, y, w, h), st))
    body = shapes
    for _ in range(2):
        if r.random() < .3:
            a = r.randrange(len(body) + 1)
            body[a:] = ['<g transform="translate(%d,%d)"%s>' % (r.randint(-5, 5), r.randint(-5, 5), ' id="%s"' % r.choice(ids) if ids else '')] + ['  ' + b for b in body[a:]] + ['</g>']
    if r.random() < .4:
        body.insert(r.randrange(len(body) + 1), '<!-- a comment -->')
    wh = r.choice(['width="100mm" height="100mm"'] * 3 + ['width="4in" height="300px"', 'width="100%" height="100%"', 'width="72pt" height="6pc"', ''])
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<svg xmlns="http://www.w3.org/2000/svg" %s '
            '%s>\n' % (wh, r.choice(['viewBox="0 0 100 100"'] * 4 + ['', 'viewBox="-10,-10 120 90" preserveAspectRatio="none"'])) + '\n'.join('  ' + b for b in body) + '\n</svg>\n').encode()


class Scad:
    """random SCAD text; sub-files are registered in self.files"""

    def __init__(self, r, heavy=False, allow_files=True):
        self.r = r
        self.files = []      # [path, bytes]
        self.refs = 0
        self.allow_files = allow_files
        self.dirs = r.choice([[''], ['', 'sub/'], ['', 'lib/', 'lib/deep/'], ['', 'a b'.replace(' ', '_') + '/']])
        self.nfile = 0
        self.feat = set()

    def fn(self):
        return r_fn(self.r)

    def shape2(self, d, cur):
        r = self.r
        k = r.randrange(12)
        if k <= 2:
            self.feat.add('square')
            return 'square(%s%s);' % (r.choice([pos(r), 'size=' + pos(r), '[%s,%s]' % (pos(r), pos(r))]), r.choice(['', ', center=true']))
        if k <= 5:
            self.feat.add('circle')
            if r.random() < .15:
                self.feat.add('round')
                return 'circle(%s);' % pos(r, 1, 5)
            return 'circle(%s, $fn=%d);' % (r.choice(['r=' + pos(r, .5, 5), 'd=' + pos(r, .5, 8), pos(r, .5, 5)]), self.fn())
        if k == 6:
            self.feat.add('polygon')
            n = r.randint(3, 7)
            pts = [(r.randint(-8, 8), r.randint(-8, 8)) for _ in range(n)]
            while not convexish(pts):
                pts = [(r.randint(-8, 8), r.randint(-8, 8)) for _ in range(3)]
            pa = r.choice(['', ', paths=[[%s]]' % ','.join(map(str, range(len(pts))))])
            return 'polygon(points=[%s]%s);' % (', '.join('[%d,%d]' % p for p in pts), pa)
        if k == 7 and d > 0:
            self.feat.add('hull2')
            return 'hull() {%s%s}' % (self.shape2(0, cur), 'translate(%s) ' % vec(r, 2) + self.shape2(0, cur))
        if k == 8 and self.allow_files and self.nfile < 5:
            self.feat.add('svg')
            p = self.newfile(cur, '.svg', svg(r, ('a', 'b')))
            return 'scale(%s) import("%s", %s);' % (r.choice(['0.1', '0.2']), p, r.choice(['$fn=8', '$fn=8', '$fn=5, dpi=96', 'center=true, $fn=6', '$fn=4, layer="a"', '$fn=4, id="b"', '$fn=12, convexity=2']))
        if k == 9 and d > 0:
            self.feat.add('projection')
            return 'projection(cut=true) translate([0,0,%s]) %s' % (r.choice(['0.3', '-0.7', '-1.1']), self.shape3(d - 1, cur))
        if k == 10 and d > 0:
            return r.choice(['union', 'difference', 'intersection']) + '() { %s %s }' % (self.shape2(d - 1, cur), self.shape2(d - 1, cur))
        return r.choice(['translate(%s)' % vec(r, 2, -4, 4), 'rotate(%s)' % num(r, -90, 90), 'scale(%s)' % r.choice(['1.5', '[2,0.5]']),
                         'mirror([1,0])', 'color("%s")' % r.choice(COLORS[:6])]) + ' ' + self.shape2(max(0, d - 1), cur)

    def shape3(self, d, cur):
        r = self.r
        k = r.randrange(16)
        if k <= 2 or (d <= 0 and k >= 9):
            self.feat.add('cube')
            if r.random() < .15:
                return 'cube(%s,true);' % r.choice([pos(r), '[%s,%s,%s]' % (pos(r), pos(r), pos(r))])
            return 'cube(%s%s);' % (r.choice([pos(r), 'size=' + pos(r), '[%s,%s,%s]' % (pos(r), pos(r), pos(r))]), r.choice(['', ', center=true']))
        if k == 3:
            self.feat.add('sphere')
            if r.random() < .4:
                # without a number of edges it stays round until it is sliced
                self.feat.add('round')
                return 'sphere(%s%s);' % (r.choice(['r=' + pos(r, 1, 5), 'd=' + pos(r, 1, 8), pos(r, 1, 5)]), r.choice(['', '', ', $fn=1000', ', $fa=5', ', $fs=0.5']))
            return 'sphere(%s, $fn=%d);' % (r.choice(['r=' + pos(r, 1, 5), 'd=' + pos(r, 1, 8), pos(r, 1, 5)]), self.fn())
        if k in (4, 5):
            self.feat.add('cylinder')
            if r.random() < .15:
                self.feat.add('round')
                return 'cylinder(%s, %s%s);' % (pos(r), pos(r, 1, 5), r.choice(['', ', $fn=0', ', %s, true' % pos(r, 1, 5)]))
            return 'cylinder(h=%s, %s, $fn=%d%s);' % (pos(r), r.choice(['r=' + pos(r, 1, 5), 'd=' + pos(r, 1, 8), 'r1=%s, r2=%s' % (pos(r, 1, 4), r.choice(['0', pos(r, 1, 4)]))]),
                                                      self.fn(), r.choice(['', ', center=true']))
        if k == 6:
            self.feat.add('polyhedron')
            s = pos(r, 2, 6)
            return ('polyhedron(points=[[0,0,0],[%s,0,0],[0,%s,0],[0,0,%s]], %s=[[0,1,2],[0,3,1],[1,3,2],[2,3,0]]);'
                    % (s, s, s, r.choice(['faces', 'faces', 'triangles'])))
        if k in (7, 8):
            self.feat.add('linext')
            ex = r.choice(['', '', ', center=true', ', twist=%s, slices=%d' % (r.choice(['30', '90', '-45']), r.randint(1, 4)),
                           ', scale=%s' % r.choice(['0.5', '[0.5,1.5]', '1.25'])])
            return 'linear_extrude(height=%s%s) %s' % (pos(r), ex, self.shape2(d, cur))
        if k == 9:
            self.feat.add('rotext')
            ang = r.choice(['', '', 'angle=%d, ' % r.choice([90, 180, 270])])
            return 'rotate_extrude(%s$fn=%d) translate([%s,0]) %s' % (ang, r.choice([4, 5, 6, 8]), r.choice(['6', '8.5', '7']),
                                                                   r.choice(['circle(2,$fn=5);', 'square([2,3]);', 'square(3,center=true);']))
        if k in (10, 11, 12):
            op = r.choice(['union', 'difference', 'intersection', 'difference', 'group', 'render'])
            self.feat.add(op)
            return op + '() ' + self.block(d - 1, cur)
        if k == 13 and self.allow_files and self.nfile < 6:
            self.feat.add('stl')
            fmt = r.choice(['a', 'b'])
            p = self.newfile(cur, '.stl', stl_ascii(r) if fmt == 'a' else stl_bin(r))
            return r.choice(['import("%s");', 'import(file="%s");', 'import_stl("%s");', 'import("%s", convexity=3);']) % p
        self.feat.add('xform')
        t = r.choice(['translate(%s)' % vec(r, 3, -5, 5), 'rotate(%s)' % vec(r, 3, -180, 180), 'rotate(a=%s, v=%s)' % (num(r, -90, 90), r.choice(['[0,0,1]', '[1,1,0]', '[0,1,2]'])),
                      'scale(%s)' % r.choice(['[1,2,0.5]', '1.5', '[0.9,1.1,1]']), 'mirror([1,0,0])', 'mirror([1,1,0])',
                      'multmatrix([[1,0.2,0,1],[0,1,0,0],[0,0,1,0.5],[0,0,0,1]])', 'color("%s")' % r.choice(COLORS), 'color([0.5,0.25,1])',
                      'color("blue", 0.5)', '#', 'rotate(%s)' % num(r, -90, 90)])
        if t == '#' and r.random() < .3:
            # modifiers, also several: of these, '!' chooses what is shown
            return r.choice(['%', '#%', '##', '# ', '#', '!', '#!', '!#']) + self.shape3(d - 1, cur)
        return t + ' ' + (self.block(d - 1, cur) if t != '#' and r.random() < .25 else self.shape3(d - 1, cur))

    def block(self, d, cur):
        r = self.r
        n = r.choice([1, 2, 2, 3])
        o = []
        for _ in range(n):
            o.append(self.shape3(max(0, d), cur))
            if r.random() < .12:
                o.append(r.choice(['// note', '/* block\n comment */', '*cube(3);', '%sphere(2,$fn=4);', '']))
        return '{\n' + '\n'.join('    ' + x for x in o) + '\n}'

    def newfile(self, cur, ext, data):
        """returns the name as written in the referring file (directory cur)"""
        r = self.r
        old = [f[0] for f in self.files if f[0].endswith(ext)]
        if old and r.random() < .15:
            path = r.choice(old)
        else:
            self.nfile += 1
            d = r.choice(self.dirs)
            path = 'w/' + d + '%s%d%s' % (r.choice(['part', 'obj', 'x']), self.nfile, ext)
            self.files.append([path, data])
        rel = os.path.relpath(path, cur or '.')
        k = r.randrange(6)
        if k == 0:
            rel = './' + rel
        elif k == 1 and '/' in rel and not rel.startswith('..'):
            rel = rel.split('/')[0] + '/../' + rel
        return rel

    def stmts(self, d, cur, level):
        r = self.r
        out = []
        n = r.choice([1, 1, 2, 3]) if level == 0 else r.choice([1, 2])
        for _ in range(n):
            if self.allow_files and level < 3 and self.nfile < 5 and r.random() < (.45 if level == 0 else .3):
                self.feat.add('include')
                old = [f[0] for f in self.files if f[0].endswith('.scad') and f[1]]
                if old and r.random() < .15:
                    path = r.choice(old)
                else:
                    sub = r.choice(self.dirs)
                    self.nfile += 1
                    path = 'w/' + sub + 'inc%d.scad' % self.nfile
                    slot = [path, b'']
                    self.files.append(slot)
                    slot[1] = self.text(max(1, d - 1), os.path.dirname(path), level + 1)
                rel = os.path.relpath(path, cur or '.')
                if r.random() < .2:
                    rel = './' + rel
                out.append('include <%s>' % rel)
            else:
                out.append(self.shape3(d, cur))
        return out

    def text(self, d, cur, level):
        r = self.r
        o = []
        if r.random() < .3:
            o.append('// generated model')
        for s in self.stmts(d, cur, level):
            if r.random() < .15:
                o.append('')
            if r.random() < .1:
                o.append('/* some\n   text */')
            o.append(s)
        eol = r.choice(['\n', '\n', '\n', '\r\n'])
        t = eol.join('\n'.join(o).split('\n'))
        if r.random() < .85:
            t += eol
        return t.encode()


def r_fn(r):
    return r.choice([3, 4, 5, 6, 7, 8, 10])


def convexish(pts):
    """no three collinear neighbours, no crossing edges"""
    n = len(pts)
    if len(set(pts)) != n:
        return False

    def o(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    for i in range(n):
        if o(pts[i], pts[(i + 1) % n], pts[(i + 2) % n]) == 0:
            return False
    for i in range(n):
        for j in range(i + 1, n):
            a, b, c, d = pts[i], pts[(i + 1) % n], pts[j], pts[(j + 1) % n]
            if len({a, b, c, d}) < 4:
                continue
            if o(a, b, c) * o(a, b, d) <= 0 and o(c, d, a) * o(c, d, b) <= 0:
                return False
    return True


FMT = ['stl', 'stlb', 'js', 'ps', 'scad']
DUMP = {'stl': '--dump-stl', 'stlb': '--dump-stlb', 'js': '--dump-js', 'ps': '--dump-ps', 'scad': '--dump-csg2'}

_corpus = None


def corpus():
    """existing models known to be cheap (list committed in dst/corpus.json)"""
    global _corpus
    if _corpus is None:
        _corpus = []
        try:
            lst = json.load(open(os.path.join(HERE, 'corpus.json')))
        except FileNotFoundError:
            lst = []
        for name, steps in lst:
            p = os.path.join(REPO, 'test/hob3l', name)
            if os.path.exists(p):
                _corpus.append((name, open(p, 'rb').read(), steps))
    return _corpus


def corpus_aux(data):
    o = []
    for p in sorted(glob.glob(os.path.join(REPO, 'test/hob3l', '*.stl'))):
        b = os.path.basename(p)
        if b.encode() in data:
            o.append(['w/' + b, 1, open(p, 'rb').read()])
    return o


def opts(r, fmt):
    o = []
    if r.random() < .3:
        o.append('--layer-gap=%s' % r.choice(['0', '0.05', '0.01']))
    if r.random() < .15:
        o.append('--grid=%s' % r.choice(['1024', '2^10', '0']))
    elif r.random() < .1:
        o.append(r.choice(['--gran=1/512', '--auto-grid-max', '--no-auto-grid', '--eps=0x1p-12', '--gran=2^-8']))
    if r.random() < .15:
        o.append(r.choice(['--opt-no-skip-empty', '--opt-no-drop-collinear', '--max-simultaneous=2', '--max-simultaneous=5', '--max-fn=4']))
    if r.random() < .1:
        o.append('--verbose')
    elif r.random() < .1:
        o.append('--quiet')
    if fmt == 'ps' and r.random() < .5:
        o += r.sample(['--ps-single-page', '--ps-scale-fit', '--ps-scale-max', '--ps-no-tri', '--ps-path', '--ps-mark', '--ps-no-wire', '--ps-rot-x=30', '--ps-persp=0.1',
                       '--ps-rot-y=20', '--ps-rot-z=-45', '--ps-scale=0.5', '--ps-color-fill=80ff00', '--ps-color-tri=102030', '--ps-line-width=0.3', '--ps-color-path=0x123456'], r.randint(1, 2))
    if fmt == 'js' and r.random() < .4:
        o += r.sample(['--js-color-rand=15', '--js-group=a,b', '--js-keep-ctxt', '--no-diff', '--diff', '--js-group=a b c;d', '--js-group=x'], 1)
    if fmt in ('scad', 'ps') and r.random() < .15:
        o.append(r.choice(['--no-tri', '--path']))
    if r.random() < .15:
        o.append(r.choice(['--empty=warn', '--collapse=ignore', '--unknown-functor=warn', '--unknown-param=ignore']))
    return o


class Workload:
    """files, arguments before the output is chosen, output format"""

    def __init__(self, files, main, args, fmt, feat, est):
        self.files, self.main, self.args, self.fmt, self.feat, self.est = files, main, args, fmt, feat, est

    def argv(self, dest='file', fmt=None):
        fmt = fmt or self.fmt
        if dest == 'file':
            return [self.main] + self.args + ['-o', 'out/r.' + fmt]
        return [self.main] + self.args + [DUMP[fmt]]

    def out(self, dest='file', fmt=None):
        return 'out/r.' + (fmt or self.fmt) if dest == 'file' else '<stdout>'


def large(r):
    """one layer with more triangles than a mesh of the JavaScript output holds (65536 vertices)"""
    n = r.choice([5500, 6000, 7000, 8000, 11000, 11500])
    t = 'cylinder(h=1,r=%d,$fn=%d);\n' % (r.choice([40, 50, 90]), n)
    if r.random() < .5:
        t += 'translate([200,0,0])cube([%d,5,1]);\n' % r.randint(2, 9)
    return Workload([['w/main.scad', 1, t.encode()], ['out/.keep', 1, b'']], 'w/main.scad', ['-z', '0.5', '--max-fn=20000'],
                    r.choice(['js', 'js', 'js', 'js', 'stl', 'stlb']), {'large'}, n)


REF = re.compile(rb'(include\s*<|import(?:_stl)?\s*\((?:file=)?")([^">]+)([">])')


def resolve(cur, n):
    """the path that reference n in a file of directory cur means"""
    n = n.decode('latin1')
    return posixpath.normpath(n if n.startswith('/') else posixpath.join(cur, n))


def alias(r, files):
    """the same tree with fewer different file names: files of one name in several directories"""
    have = {f[0] for f in files}
    ren = {}
    for f in files:
        p = f[0]
        if not p.startswith('w/') or p == 'w/main.scad':
            continue
        ext = posixpath.splitext(p)[1]
        for _ in range(4):
            q = posixpath.join(posixpath.dirname(p), r.choice(['part', 'part', 'a', 'main', '%d' % r.randint(1, 2)]) + ext)
            if q not in have:
                have.discard(p)
                have.add(q)
                ren[p] = q
                break
    out = []
    for f in files:
        p, d = f[0], f[2]
        if p.startswith('w/') and p.endswith('.scad'):
            cur = posixpath.dirname(p)

            def sub(m):
                t = resolve(cur, m.group(2))
                if t not in ren:
                    return m.group(0)
                n = m.group(2)
                return m.group(1) + n[:len(n) - len(posixpath.basename(t))] + posixpath.basename(ren[t]).encode() + m.group(3)
            d = REF.sub(sub, d)
        out.append([ren.get(p, p), f[1], d])
    return out


def inline(files, main='w/main.scad'):
    """the same model without include: the text of the files in their place"""
    have = {f[0]: f[2] for f in files}

    def text(p, depth):
        cur = posixpath.dirname(p)

        def sub(m):
            t = resolve(cur, m.group(2))
            if t not in have or depth > 12:
                raise ValueError(t)
            if m.group(1).startswith(b'include'):
                return b'\n' + text(t, depth + 1) + b'\n'
            return m.group(1) + posixpath.relpath(t, posixpath.dirname(main)).encode() + m.group(3)
        return REF.sub(sub, have[p])
    try:
        t = text(main, 0)
    except ValueError:
        return None
    if len(t) > 200000:
        return None
    return [[f[0], f[1], t if f[0] == main else f[2]] for f in files if f[0] == main or not f[0].endswith('.scad')]


def workload(r, want=None, fmt=None, layers=None, size=2, files_ok=True):
    """want: None, 'gen', 'corpus', 'files' (must have several files)"""
    fmt = fmt or r.choice(FMT)
    kind = want or r.choice(['gen', 'gen', 'gen', 'corpus'])
    if kind == 'corpus' and corpus():
        lim = 10 ** 9 if size > 2 else 4000000
        c = [x for x in corpus() if x[2] <= lim]
        name, data, est = r.choice(c)
        files = [['w/main.scad', 1, data]] + corpus_aux(data)
        feat = {'corpus', name}
        st = r.choice(['1', '0.5', '2'])
    else:
        for _ in range(30):
            s = Scad(r, allow_files=files_ok)
            t = s.text(size, 'w', 0)
            if kind != 'files' or len(s.files) >= 2:
                break
        files = [['w/main.scad', 1, t]] + [[p, 1, d] for p, d in s.files]
        feat = s.feat
        est = 1000000
        st = r.choice(['1', '0.5', '0.75', '2', '3'])
    a = ['--step=' + (layers or st)]
    k = r.random()
    if k < .15:
        a = ['-z', r.choice(['0.5', '1', '2.25'])]
    elif k < .3:
        a += ['--min=' + r.choice(['0.25', '-1', '1']), '--max=' + r.choice(['3', '2.5', '4'])]
    a += opts(r, fmt)
    if 'round' in feat and '--max-fn=4' not in a and r.random() < .8:
        a.append('--max-fn=%d' % r.choice([5, 6, 8, 8, 12, 20]))
    files.append(['out/.keep', 1, b''])
    if 'corpus' not in feat and r.random() < .2:
        files = alias(r, files)
        feat = feat | {'alias'}
    return Workload(files, 'w/main.scad', a, fmt, feat, est)
