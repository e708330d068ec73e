"""Rows, shading, ground shadows and numbering of the surfaces."""
from . import prop
from . import geo
from .geo import Geo, Pt, Line, dist, REAL, CHAOS
from .irr import cosd, sind
from sa import terms as tm
from sa.world import *

TOL = tm.num(__import__('fractions').Fraction(1, 10**8))
CASES = [(1, {0: {'front': 2, 'back': 3}}), (2, None),
         (3, {0: {'back': 2}, 1: {'front': 3}, 2: {'back': 2, 'front': 2}}), (4, None),
         (2, {0: {'front': 4, 'back': 1}, 1: {'front': 1, 'back': 5}}), (5, {3: {'back': 2}}),
         (7, None), (12, {10: {'front': 2}, 11: {'back': 3}})]
DEEP = [(2, {1: {'front': 11, 'back': 12}}),
        (6, {k: {'front': k + 1, 'back': 7 - k} for k in range(6)})]
SUN = [('solar_zenith', 1., 89.95, (89., 89.7, 89.9)), ('height', .6, 3., ())] + REAL + [('shade_', 0., 2.2, (0.,))]


def rad(x):
    return x * tm.PI / num(180)


ARR = 'pvfactors.geometry.pvarray.OrderedPVArray.'


def unknown_shading(I, args, kw):
    """any shaded lengths"""
    t = I.np.dim_of(sym('n_t'))
    for s in ('front', 'back'):
        I.setattr(args[0], 'shaded_length_' + s, NDArr((t,), [sym('shade_%s@t' % s)]))
    I.setattr(args[0], 'has_direct_shading', NDArr((t,), [tm.bsym('direct@t')]))


class Lay(Geo):
    """the geometry the package builds, and the geometry the property requires"""

    def __init__(self, ck, n, cut=None, any_shading=False):
        st = {ARR + '_calculate_interrow_shading': unknown_shading} if any_shading else {}
        Geo.__init__(self, ck, n, cut, chaos=False, stubs=st)
        w = self.w
        self.cut = cut or {}
        self.width, self.height, self.gcr = sym('width'), sym('height'), sym('gcr')
        self.d = self.width / self.gcr
        tilt, az = sym('surface_tilt@t'), sym('surface_azimuth@t')
        ax = sym('axis_azimuth')
        right = tm.app('mod', az - ax, num(360)) > 180
        self.want_rot = ite(tm.cmp('==', tilt, ZERO), ZERO, ite(right, tilt, -tilt))
        # tilts are between 0 and 90 degrees
        self.domain = tm.land(tilt >= 0, self.width > 0,
                              tm.lor(tm.cmp('==', tilt, ZERO), self.width * sind(tilt) > 0))
        z, a = sym('solar_zenith@t'), sym('solar_azimuth@t')
        self.want_sun = (sind(z) * cosd(a - ax - num(90)), cosd(z))
        self.alpha = app('arctan2', self.want_sun[1], self.want_sun[0])

    def point(self, r, u):
        """point of row r at the signed distance u from its centre (towards its right end)"""
        rot = self.want_rot
        xc, yc = num(r) * self.d, self.height
        return Pt(u * cosd(rot) + xc, u * sind(rot) + yc)

    def ends(self, r):
        h = self.width / num(2)
        return Line(self.point(r, -h), self.point(r, h))

    # ---------------------------------------------------------- direct shading
    def shading(self):
        """length in the shade of the neighbour, on the front and on the back"""
        if self.n == 1:
            return ZERO, ZERO
        th = num(90) - self.want_rot
        al = self.alpha * num(180) / tm.PI
        th_r, be_r = rad(th), rad(th + al)
        delta = self.d * (app('sin', th_r) - app('cos', th_r) * app('tan', be_r))
        out = []
        for v in (self.width - delta, self.width + delta):
            s = tm.tmax(ZERO, v)
            out.append(ite(s > self.width, ZERO, s))
        return tuple(out)

    def side_shading(self, r, side, any_shading=False):
        """the outer rows have no neighbour on one side"""
        f, b = self.shading()
        if any_shading:
            f, b = (self.w.elem(self.w.attr(self.arr, 'shaded_length_' + s))
                    for s in ('front', 'back'))
        left = self.want_rot > 0
        first, last = r == 0, r == self.n - 1
        if self.n == 1:
            return ite(left, ZERO, f) if side == 'front' else ite(left, b, ZERO)
        if first:
            return ite(left, ZERO, f) if side == 'front' else ite(left, b, ZERO)
        if last:
            return ite(left, f, ZERO) if side == 'front' else ite(left, ZERO, b)
        return f if side == 'front' else b

    # ------------------------------------------------------------------ ground
    def shadow(self, r):
        e = self.ends(r)
        t = app('tan', self.alpha)
        x1, x2 = e.b1.x - e.b1.y / t, e.b2.x - e.b2.y / t
        first = x1 <= x2
        return ite(first, x1, x2), ite(first, x2, x1)


def clip(x):
    return tm.tmin(tm.tmax(x, num(-100)), num(100))


def cases(ck):
    return CASES + (DEEP if ck.tier == 'thorough' else [])


def each(ck, body, sets=None, **kw):
    jobs = []
    for n, cut in sets or cases(ck):
        name = '%d row(s)%s' % (n, ', segmented' if cut else '')
        jobs.append((name, lambda n=n, cut=cut, name=name: body(name, Lay(ck, n, cut, **kw))))
    ck.par(jobs)


def same_point(ck, rule, at, p, q, hyp=None):
    ck.eq(rule, at + ' x', p.x, q.x, ranges=SUN, hyp=hyp)
    ck.eq(rule, at + ' y', p.y, q.y, ranges=SUN, hyp=hyp)


def same_line(ck, rule, at, a, b, hyp=None):
    same_point(ck, rule, at + ', first end', a.b1, b.b1, hyp)
    same_point(ck, rule, at + ', second end', a.b2, b.b2, hyp)


@prop('P23')
def rows(ck):
    def body(name, G):
        w = G.w
        ck.eq('rotation: tilt with the sign of the side the row faces', name, G.rot, G.want_rot,
              ranges=SUN)
        sun = w.attr(G.arr, 'solar_2d_vectors')
        ck.fact('sun projected on the plane of the array', name,
                isinstance(sun, NDArr) and len(sun.elems) == 2, 'not a pair of series')
        for k in range(2):
            ck.eq('sun projected on the plane of the array', '%s, coordinate %d' % (name, k),
                  sun.elems[k], G.want_sun[k], ranges=SUN)
        ck.fact('one geometry per row', name, len(G.rows) == G.n, '%d rows' % len(G.rows))
        for r, row in enumerate(G.rows):
            at = '%s, row %d' % (name, r)
            c = w.attr(row, 'xy_center')
            c = [w.elem(v) for v in w.items(c)]
            ck.eq('rows are evenly spaced by width / gcr', at, c[0], num(r) * G.d, ranges=SUN)
            ck.eq('row centres are at the height of the array', at, c[1], G.height, ranges=SUN)
            same_line(ck, 'row ends at half a width from the centre', at, G.rowline[r], G.ends(r))
            ck.fact('rows carry their number', at, w.attr(row, 'index') == r,
                    'index %r' % (w.attr(row, 'index'),))
            e = G.ends(r)
            for side, sg in (('front', 1), ('back', -1)):
                obj = w.attr(row, side)
                nv = [w.attr(obj, 'n_vector')]
                for sgm in w.items(w.attr(obj, 'list_segments')):
                    nv.append(w.attr(sgm, 'n_vector'))
                    for s in w.items(w.attr(sgm, 'all_ts_surfaces')):
                        nv.append(w.attr(s, 'n_vector'))
                want = (num(-sg) * (e.b2.y - e.b1.y), num(sg) * (e.b2.x - e.b1.x))
                for q, v in enumerate(nv):
                    ok = isinstance(v, NDArr) and len(v.elems) == 2
                    ck.fact('every surface has a normal', '%s %s #%d' % (at, side, q), ok,
                            'no normal vector')
                    for k in range(2):
                        if ok:
                            ck.eq('normals point out of their side', '%s %s #%d [%d]' % (
                                at, side, q, k), v.elems[k], want[k], ranges=SUN)
    each(ck, body)


@prop('P22')
def sides(ck):
    def body(name, G):
        w = G.w
        for r, row in enumerate(G.rows):
            for side in ('front', 'back'):
                k = G.cut.get(r, {}).get(side, 1)
                segs = w.items(w.attr(row, side, 'list_segments'))
                at = '%s, row %d %s' % (name, r, side)
                ck.fact('as many segments as asked for', at, len(segs) == k,
                        '%d segments for %d' % (len(segs), k))
                S = G.side_shading(r, side, True)
                h = G.width / num(2)
                L = G.width / num(k)
                up = G.want_rot >= 0
                flat = tm.cmp('==', G.want_rot, ZERO)
                edge = ite(up, S - h, h - S)        # end of the shade, along the row
                E = G.point(r, edge)
                total, shade = ZERO, ZERO
                for i, sg in enumerate(segs[:k]):
                    a = '%s segment %d' % (at, i)
                    u1, u2 = -h + num(i) * L, -h + num(i + 1) * L
                    p1, p2 = G.point(r, u1), G.point(r, u2)
                    same_line(ck, 'segments split the side evenly', a,
                              geo.line(w, w.attr(sg, 'coords')), Line(p1, p2))
                    ck.fact('segments carry their number', a, w.attr(sg, 'index') == i,
                            'index %r' % (w.attr(sg, 'index'),))
                    lo = Pt(ite(up, p1.x, p2.x), ite(up, p1.y, p2.y))
                    hi = Pt(ite(up, p2.x, p1.x), ite(up, p2.y, p1.y))
                    full = (E.y > hi.y) & tm.lnot(flat)
                    part = (E.y > lo.y) & tm.lnot(flat)
                    m = Pt(ite(full, hi.x, ite(part, E.x, lo.x)),
                           ite(full, hi.y, ite(part, E.y, lo.y)))
                    for kind, want in (('illum', Line(m, hi)), ('shaded', Line(lo, m))):
                        col = w.attr(sg, kind)
                        ss = w.items(w.attr(col, 'list_ts_surfaces'))
                        ck.fact('one %s part per segment' % kind, a, len(ss) == 1,
                                '%d surfaces' % len(ss))
                        ck.fact('shading flags', '%s %s' % (a, kind), all(
                            w.attr(x, 'shaded') is (kind == 'shaded') for x in ss + [col]),
                            'flag of the wrong kind')
                        if len(ss) == 1:
                            same_line(ck, 'the shaded part starts at the low end, the rest is lit',
                                      '%s %s' % (a, kind), geo.line(w, w.attr(ss[0], 'coords')),
                                      want, G.domain)
                            ck.eq('lengths', '%s %s' % (a, kind), w.elem(w.attr(col, 'length')),
                                  geo.line(w, w.attr(ss[0], 'coords')).length, ranges=SUN)
                            if kind == 'shaded':
                                shade = shade + geo.line(w, w.attr(ss[0], 'coords')).length
                            total = total + geo.line(w, w.attr(ss[0], 'coords')).length
                ck.eq('length of a side', at, w.elem(w.attr(row, side, 'length')), total,
                      ranges=SUN)
                ck.eq('shaded length of a side', at, w.elem(w.attr(row, side, 'shaded_length')),
                      shade, ranges=SUN)
    each(ck, body, any_shading=True)


@prop('P24')
def shading(ck):
    def body(name, G):
        w = G.w
        f, b = G.shading()
        for at, v, want in (('front', 'shaded_length_front', f), ('back', 'shaded_length_back', b)):
            ck.eq('direct shading between rows', '%s, %s' % (name, at),
                  w.elem(w.attr(G.arr, v)), want, ranges=SUN)
        flag = (f > TOL) | (b > TOL)
        ck.eq('direct shading flag', name, w.elem(w.attr(G.arr, 'has_direct_shading')), flag,
              ranges=SUN)
        sh = w.items(w.attr(G.ground, 'shadow_elements'))
        ck.fact('one shadow per row', name, len(sh) == G.n, '%d shadows' % len(sh))
        ck.eq('overlap flag of the ground', name, w.elem(w.attr(G.ground, 'flag_overlap')), flag,
              ranges=SUN)
        for r, el in enumerate(sh[:G.n]):
            l, rt = G.shadow(r)
            if r + 1 < G.n:
                rt = ite(flag, G.shadow(r + 1)[0], rt)
            ln = geo.line(w, w.attr(el, 'coords'))
            at = '%s, shadow of row %d' % (name, r)
            ck.eq('left end of the shadow', at, ln.b1.x, clip(l), ranges=SUN)
            ck.eq('right end of the shadow, up to the next one when they overlap', at, ln.b2.x,
                  clip(rt), ranges=SUN)
            for p in (ln.b1, ln.b2):
                ck.eq('shadows lie on the ground', at, p.y, ZERO, ranges=SUN)
            ck.fact('shadows are shaded', at, w.attr(el, 'shaded') is True, 'not flagged')
    each(ck, body)


@prop('P21')
def ground(ck):
    def body(name, G):
        w = G.w
        g = G.ground
        sh, il = (w.items(w.attr(g, k)) for k in ('shadow_elements', 'illum_elements'))
        ck.fact('lit ground before, between and after the shadows', name,
                len(il) == len(sh) + 1, '%d lit for %d shaded elements' % (len(il), len(sh)))
        ln = lambda e: geo.line(w, w.attr(e, 'coords'))
        x = num(-100)
        for i, e in enumerate(il):
            at = '%s, lit element %d' % (name, i)
            end = ln(sh[i]).b1.x if i < len(sh) else num(100)
            ck.eq('the ground has no gap and no overlap', at + ' start', ln(e).b1.x, x, ranges=SUN)
            ck.eq('the ground has no gap and no overlap', at + ' end', ln(e).b2.x, end, ranges=SUN)
            for p in (ln(e).b1, ln(e).b2):
                ck.eq('the ground is flat', at, p.y, ZERO, ranges=SUN)
            ck.fact('lit ground is not shaded', at, w.attr(e, 'shaded') is False, 'flag')
            if i < len(sh):
                x = ln(sh[i]).b2.x
        for k in ('illum', 'shaded'):
            ck.fact('the collections of lit and of shaded ground say which they are',
                    '%s, %s' % (name, k), w.attr(w.attr(g, k), 'shaded') is (k == 'shaded'), 'flag')
        # the lines through the rows meet the ground at the cut points
        cuts = [geo.pt(w, c) for c in w.items(w.attr(g, 'cut_point_coords'))]
        ck.fact('one cut point per row', name, len(cuts) == G.n, '%d cut points' % len(cuts))
        for r, c in enumerate(cuts[:G.n]):
            e = G.ends(r)
            ck.eq('cut points continue the rows to the ground', '%s, row %d' % (name, r), c.x,
                  e.b1.x - e.b1.y / app('tan', rad(G.want_rot)),
                  hyp=tm.lnot(tm.cmp('==', G.want_rot, ZERO)), ranges=SUN)
            ck.eq('cut points lie on the ground', '%s, row %d' % (name, r), c.y, ZERO, ranges=SUN)
    each(ck, body)
    # parts of the elements, for arbitrary shadows and ordered cut points
    for n in (1, 2, 3):
        jobs = []
        jobs.append(('%d row(s), arbitrary ground' % n,
                     lambda n=n: parts(ck, n, '%d row(s), arbitrary ground' % n)))
    ck.par([('%d row(s), arbitrary ground' % n, lambda n=n: parts(
        ck, n, '%d row(s), arbitrary ground' % n)) for n in (1, 2, 3, 4)])


def parts(ck, n, name):
    w = ck.world()
    xs = lambda q: sym('%s.x@t' % q)
    cls = 'geometry.pvground.TsGroundElement'
    cuts = [geo.P(w, geo.ts(w, xs('cut%d' % i)), geo.ts(w, ZERO)) for i in range(n)]
    a, b = xs('A'), xs('B')
    box = lambda x: tm.land(x >= -100, x <= 100)
    hyp = tm.land(a <= b, box(a), box(b), *[xs('cut%d' % i) <= xs('cut%d' % (i + 1))
                                         for i in range(n - 1)])
    rng = [('A.', -100., 60., (-100.,)), ('B.', -60., 100., (100.,)),
           ('cut0', -130., 60., ()), ('cut', -60., 130., ())]
    for shaded in (True, False):
        lc = geo.L(w, geo.P(w, geo.ts(w, a), geo.ts(w, ZERO)),
                   geo.P(w, geo.ts(w, b), geo.ts(w, ZERO)))
        el = w.call(cls, lc, list_ordered_cut_pts_coords=PyList(list(cuts)), shaded=shaded)
        ss = w.items(w.attr(el, 'all_ts_surfaces'))
        at = '%s, %s element' % (name, 'shaded' if shaded else 'lit')
        ck.fact('one part between two cut points', at, len(ss) == n + 1, '%d parts' % len(ss))
        ck.fact('number of parts', at, w.attr(el, 'n_ts_surfaces') == len(ss), 'count')
        if len(ss) != n + 1:
            continue
        low = lambda k, x: x if k == 0 else tm.tmin(tm.tmax(x, xs('cut%d' % (k - 1))), num(100))
        for k, s in enumerate(ss):
            ln = geo.line(w, w.attr(s, 'coords'))
            for q, p, x in (('start', ln.b1, a), ('end', ln.b2, b)):
                v = x
                for j in range(k):
                    v = tm.tmin(tm.tmax(v, xs('cut%d' % j)), num(100))
                if k < n:
                    v = tm.tmax(tm.tmin(v, xs('cut%d' % k)), num(-100))
                ck.eq('part k lies between cut points k-1 and k', '%s part %d %s' % (at, k, q),
                      p.x, v, hyp=hyp, ranges=rng)
                ck.eq('parts lie on the ground', '%s part %d %s' % (at, k, q), p.y, ZERO,
                      ranges=rng)
            ck.fact('parts keep the shading of the element', '%s part %d' % (at, k),
                    w.attr(s, 'shaded') is shaded, 'flag')
        d = w.attr(el, 'surface_dict')
        for i in range(n):
            for side, want in (('left', ss[:i + 1]), ('right', ss[i + 1:])):
                have = w.items(d.d[i].d[side])
                ck.fact('left and right of a cut point', '%s cut %d %s' % (at, i, side),
                        len(have) == len(want) and all(any(x is y for y in have) for x in want),
                        'the list of the surfaces %s of cut point %d is wrong' % (side, i))
        ck.eq('the caller\'s coordinates are left alone', at, geo.line(w, lc).b1.x, a, ranges=rng)
        ck.eq('the caller\'s coordinates are left alone', at + ' end', geo.line(w, lc).b2.x, b,
              ranges=rng)


@prop('P19')
def numbering(ck):
    def body(name, G):
        w = G.w
        for turn in ('first fit', 'second fit'):
            if turn == 'second fit':
                w.fit_array(G.arr, surface_tilt=w.ts('other_tilt'))
                G.read()
            at = '%s, %s' % (name, turn)
            al = w.items(w.attr(G.arr, 'all_ts_surfaces'))
            ck.fact('every surface is listed once', at,
                    len(al) == len(G.surf) and all(
                        sum(x is d['obj'] for x in al) == 1 for d in G.surf),
                    '%d listed, %d exist' % (len(al), len(G.surf)))
            ck.fact('numbers follow the list', at,
                    all(w.attr(x, 'index') == i for i, x in enumerate(al)),
                    'numbers %r' % [w.attr(x, 'index') for x in al][:20])
            ck.fact('number of surfaces', at, w.attr(G.arr, 'n_ts_surfaces') == len(al),
                    '%r' % (w.attr(G.arr, 'n_ts_surfaces'),))
            ck.fact('list of numbers', at,
                    list(w.items(w.attr(G.arr, 'ts_surface_indices'))) == list(range(len(al))),
                    '%r' % (w.attr(G.arr, 'ts_surface_indices'),))
            key = lambda d: (0 if d['kind'] == 'ground' else 1,
                             ('shadow_elements', 'illum_elements').index(d['elkind'])
                             if d['kind'] == 'ground' else 0,
                             d.get('el', d.get('row')), d.get('pos', 0),
                             d.get('side') == 'back', d.get('seg', 0), d.get('shaded') is True)
            order = sorted(G.surf, key=key)
            ck.fact('ground first, then the rows, front before back', at,
                    [d['index'] for d in order] == list(range(len(order))),
                    'order %r' % [d['index'] for d in order][:30])
            n = G.n
            cnt = (w.attr(G.ground, 'n_ts_shaded_surfaces'), w.attr(G.ground, 'n_ts_illum_surfaces'),
                   w.attr(G.ground, 'n_ts_surfaces'))
            want = (n * (n + 1), (n + 1) * (n + 1), (2 * n + 1) * (n + 1))
            ck.fact('ground surfaces', at, cnt == want, '%r instead of %r' % (cnt, want))
            for r, row in enumerate(G.rows):
                k = {s: 2 * G.cut.get(r, {}).get(s, 1) for s in ('front', 'back')}
                got = (w.attr(row, 'front', 'n_ts_surfaces'), w.attr(row, 'back', 'n_ts_surfaces'),
                       w.attr(row, 'n_ts_surfaces'))
                ck.fact('row surfaces', '%s row %d' % (at, r),
                        got == (k['front'], k['back'], k['front'] + k['back']), '%r' % (got,))
    each(ck, body)
