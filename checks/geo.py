"""Shared: fitted arrays with arbitrary (havocked) or real geometry, and realistic ranges."""
from sa import terms as tm
from sa.world import *

REAL = [('axis_azimuth', 0., 360., (0., 90., 180., 270.)), ('gcr', .25, .75, ()),
        ('height', 1.3, 3., ()), ('width', .8, 2.2, ()),
        ('solar_zenith', 1., 89., (0., 89.9)), ('solar_azimuth', 0., 360., ()),
        ('surface_tilt', 0., 89., (0., 90.)), ('surface_azimuth', 0., 360., ()),
        ('rho', .05, .9, ()), ('albedo', .05, .9, ()), ('transparency', 0., 1., (0.,)),
        ('spacing', 0., 1., (0.,)), ('DNI', 0., 1000., (0.,)), ('DHI', 0., 400., (0.,)),
        ('faoi', 0., 1., ()), ('nsec', 12., 12., ())]
CHAOS = [('rot@', -90., 90., (0.,)), ('width', .8, 2.2, ()), ('gcr', .25, .75, ()),
         ('height', 1.3, 3., ()), ('.y', .1, 4., ()), ('.x', -20., 20., ()),
         ('rho', .05, .9, ()), ('faoi', 0., 1., ()), ('nsec', 12., 12., ())]


def P(w, x, y):
    return w.call('geometry.timeseries.TsPointCoords', x, y)


def L(w, b1, b2):
    return w.call('geometry.timeseries.TsLineCoords', b1, b2)


def ts(w, t):
    return NDArr((w.t,), [t])


class Pt(object):
    """host-side view of a point with time series coordinates"""

    def __init__(self, x, y):
        self.x, self.y = lift(x), lift(y)


def pt(w, p):
    return Pt(w.elem(w.attr(p, 'x')), w.elem(w.attr(p, 'y')))


def dist(p, q):
    return tm.app('sqrt', (q.y - p.y) * (q.y - p.y) + (q.x - p.x) * (q.x - p.x))


class Line(object):
    def __init__(self, b1, b2):
        self.b1, self.b2 = b1, b2

    @property
    def length(self):
        return dist(self.b1, self.b2)

    @property
    def low(self):
        hi = self.b1.y >= self.b2.y
        return Pt(ite(hi, self.b2.x, self.b1.x), ite(hi, self.b2.y, self.b1.y))

    @property
    def high(self):
        hi = self.b1.y >= self.b2.y
        return Pt(ite(hi, self.b1.x, self.b2.x), ite(hi, self.b1.y, self.b2.y))

    @property
    def mid(self):
        h = num(1) / num(2)
        return Pt((self.b1.x + self.b2.x) * h, (self.b1.y + self.b2.y) * h)


def line(w, c):
    return Line(pt(w, w.attr(c, 'b1')), pt(w, w.attr(c, 'b2')))


class Geo(object):
    """a fitted array; chaos=True replaces every coordinate by an arbitrary value, so that
    equalities proved afterwards hold for every geometry."""

    def __init__(self, ck, n, cut=None, chaos=True, stubs=None, fit=True):
        w = self.w = ck.world(stubs=stubs or {})
        self.n = n
        self.chaos = chaos
        self.arr = w.pvarray(n, cut)
        w.fit_array(self.arr)
        if chaos:
            self.havoc()
        self.read()

    def fresh_line(self, name, x=None):
        w = self.w
        s = lambda q: ts(w, sym('%s.%s@t' % (name, q)))
        return L(w, P(w, s('b1.x'), s('b1.y')), P(w, s('b2.x'), s('b2.y')))

    def havoc(self):
        w = self.w
        g = w.attr(self.arr, 'ts_ground')
        y0 = w.attr(g, 'y_ground')
        yv = lambda: ts(w, w.elem(y0))
        w.I.setattr(self.arr, 'rotation_vec', ts(w, sym('rot@t')))
        for r, row in enumerate(w.items(w.attr(self.arr, 'ts_pvrows'))):
            w.I.setattr(row, 'full_pvrow_coords', self.fresh_line('R%d' % r))
            w.I.setattr(row, 'xy_center', (sym('R%d.cx.x' % r), sym('R%d.cy.y' % r)))
            for side in ('front', 'back'):
                for k, seg in enumerate(w.items(w.attr(row, side, 'list_segments'))):
                    nm = 'R%d%s%d' % (r, side[0], k)
                    w.I.setattr(seg, 'coords', self.fresh_line(nm))
                    for s in w.items(w.attr(seg, 'all_ts_surfaces')):
                        sh = w.attr(s, 'shaded')
                        w.I.setattr(s, 'coords', self.fresh_line(nm + ('s' if sh is True else 'i')))
                        nv = NDArr((2, w.t), [sym('nv%s.0@t' % nm), sym('nv%s.1@t' % nm)])
                        w.I.setattr(s, 'n_vector', nv)
        for kind in ('shadow_elements', 'illum_elements'):
            for e, el in enumerate(w.items(w.attr(g, kind))):
                nm = 'G%s%d' % (kind[0], e)
                xs = lambda q: ts(w, sym('%s.%s.x@t' % (nm, q)))
                w.I.setattr(el, 'coords', L(w, P(w, xs('b1'), yv()), P(w, xs('b2'), yv())))
                for k, s in enumerate(w.items(w.attr(el, 'all_ts_surfaces'))):
                    x2 = lambda q: ts(w, sym('%s.%d.%s.x@t' % (nm, k, q)))
                    w.I.setattr(s, 'coords', L(w, P(w, x2('b1'), yv()), P(w, x2('b2'), yv())))
        cps = [P(w, ts(w, sym('cut%d.x@t' % i)), yv())
               for i in range(len(w.items(w.attr(g, 'cut_point_coords'))))]
        w.I.setattr(g, 'cut_point_coords', PyList(cps))

    def read(self):
        """independent enumeration of the surfaces: kind, row, side, segment, position"""
        w = self.w
        self.ground = w.attr(self.arr, 'ts_ground')
        self.rows = w.items(w.attr(self.arr, 'ts_pvrows'))
        self.rot = w.elem(w.attr(self.arr, 'rotation_vec'))
        self.left = self.rot > 0
        self.surf = []
        for kind in ('shadow_elements', 'illum_elements'):
            for e, el in enumerate(w.items(w.attr(self.ground, kind))):
                for k, s in enumerate(w.items(w.attr(el, 'all_ts_surfaces'))):
                    self.surf.append(dict(obj=s, kind='ground', el=e, elkind=kind, pos=k))
        for r, row in enumerate(self.rows):
            for side in ('front', 'back'):
                for k, seg in enumerate(w.items(w.attr(row, side, 'list_segments'))):
                    for s in w.items(w.attr(seg, 'all_ts_surfaces')):
                        self.surf.append(dict(obj=s, kind='row', row=r, side=side, seg=k,
                                              shaded=w.attr(s, 'shaded')))
        for d in self.surf:
            d['index'] = w.attr(d['obj'], 'index')
            d['line'] = line(w, w.attr(d['obj'], 'coords'))
            d['name'] = self.label(d)
        self.rowline = [line(w, w.attr(row, 'full_pvrow_coords')) for row in self.rows]
        self.N = len(self.surf) + 1

    @staticmethod
    def label(d):
        if d['kind'] == 'ground':
            return '%s ground element %d part %d' % (
                'shaded' if d['elkind'][0] == 's' else 'lit', d['el'], d['pos'])
        return 'row %d %s segment %d %s' % (d['row'], d['side'], d['seg'],
                                            'shaded' if d['shaded'] is True else 'lit')

    def by_index(self):
        out = {}
        for d in self.surf:
            out[d['index']] = d
        return out
