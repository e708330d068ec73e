"""Geometry of one timestep: cutting, shadows, merging, differences, projections, construction.

Everything lies on a line with an unknown origin; the positions along the line are
representatives of every order the end points can have (ties included), so what is decided
holds for all lines of the slopes listed and all positions in the same order whose distances are
well above the tolerance."""
import itertools
import random
from fractions import Fraction as F
from . import prop
from sa import terms as tm
from sa import planar
from sa.world import *
from sa.obl import Section

SLOPES = [(F(3, 5), F(4, 5)), (F(1), F(0)), (F(-4, 5), F(3, 5)), (F(4, 5), F(-3, 5)), (F(0), F(1))]
MORE = [(F(-1), F(0)), (F(0), F(-1)), (F(-5, 13), F(-12, 13)), (F(8, 17), F(-15, 17))]
TOL = F(1, 10 ** 6)
HALF = F(1, 2)


ORIGIN = [None]


def settled(ck, fn):
    """with a known origin too when an unknown one leaves something open: what is wrong for one
    origin is wrong"""
    n, lost = len(ck.obl), None
    try:
        fn()
    except Exception as e:
        lost = e
    if lost is not None or any(o['verdict'] == 'UNDECIDED' for o in ck.obl[n:]):
        ORIGIN[0] = (num(F(7, 4)), num(F(11, 8)))
        try:
            fn()
        finally:
            ORIGIN[0] = None
    if lost is not None:
        raise lost


class Ruler(object):
    """points at known positions along a line through an unknown origin"""

    def __init__(self, ck, slope):
        w = self.w = ck.world()
        self.d = slope
        self.o = ORIGIN[0] or (sym('x0'), sym('y0'))
        self.n = (-slope[1], slope[0])
        self.name = 'direction (%s, %s)' % slope

    def xy(self, s, off=0):
        return tuple(self.o[k] + num(self.d[k] * F(s) + self.n[k] * F(off)) for k in (0, 1))

    def line(self, a, b, off=0):
        return self.w.call(Ext('shapely.geometry.LineString'),
                           PyList([self.xy(a, off), self.xy(b, off)]))

    def point(self, s, off=0):
        return self.w.call(Ext('shapely.geometry.Point'), *self.xy(s, off))

    def normal(self):
        return PyList([num(self.n[0]), num(self.n[1])])

    def pos(self, x, y):
        """position and distance from the line; None if unknown"""
        a, b = (planar.number(tm.sub(lift(q), o)) for q, o in zip((x, y), self.o))
        if a is None or b is None:
            return None
        return a * self.d[0] + b * self.d[1], a * self.n[0] + b * self.n[1]

    def spans(self, g):
        """intervals covered by a geometry, as given; None if unknown or off the line"""
        ps = planar.parts(g)
        if ps is None:
            return None
        out = []
        for part in ps:
            q = [self.pos(*p) for p in part]
            if any(x is None or abs(x[1]) > TOL for x in q):
                return None
            out += [(q[i][0], q[i + 1][0]) for i in range(len(q) - 1)]
        return out


def union(spans):
    out = []
    for a, b in sorted(tuple(sorted(s)) for s in spans):
        if b - a <= TOL:
            continue
        if out and a <= out[-1][1] + TOL:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def minus(spans, cut):
    lo, hi = sorted(cut)
    out = []
    for a, b in spans:
        flip = a > b
        a, b = (b, a) if flip else (a, b)
        for p, q in ((a, min(b, lo)), (max(a, hi), b)):
            if q - p > TOL:
                out.append((q, p) if flip else (p, q))
    return out


def common(spans, cut):
    lo, hi = sorted(cut)
    return [(max(min(s), lo), min(max(s), hi)) for s in spans
            if min(max(s), hi) - max(min(s), lo) > TOL]


def size(spans):
    return sum(abs(b - a) for a, b in spans)


def near(a, b):
    return len(a) == len(b) and all(abs(p - q) <= TOL for x, y in zip(a, b) for p, q in zip(x, y))


def text(spans):
    return ' '.join('[%s,%s]' % (float(a), float(b)) for a, b in spans) or 'nothing'


def sort(spans):
    return sorted(tuple(sorted(s)) for s in spans if abs(s[0] - s[1]) > TOL)


@prop('P27')
def shapes(ck):
    slopes = SLOPES + (MORE if ck.tier == 'thorough' else [])

    # ------------------------------------------------------------------ difference, contains
    def utils(slope):
        R = Ruler(ck, slope)
        w = R.w
        pos = range(5) if ck.tier == 'thorough' else range(4)
        pairs = [(a, b) for a in pos for b in pos if a != b]
        for u, v in itertools.product(pairs, pairs):
            at = '%s: %s minus %s' % (R.name, u, v)
            for nm, call in (('utils', lambda U, V: w.call('geometry.utils.difference', U, V)),
                             ('surface', None)):
                if call is None:
                    if u[0] > u[1]:
                        continue
                    S = w.call('geometry.base.PVSurface', PyList([R.xy(u[0]), R.xy(u[1])]))
                    g = w.meth(S, 'difference', R.line(*v))
                else:
                    g = call(R.line(*u), R.line(*v))
                got = R.spans(g)
                want = minus([u], v)
                if got is None:
                    ck.undecided('what is left of a line', at, 'geometry not known')
                    continue
                ck.fact('what is left of a line', at, near(sort(got), sort(want)),
                        'leaves %s, required %s' % (text(got), text(want)))
                ck.fact('what is left keeps the direction of the line', at, all(
                    (b - a) * (u[1] - u[0]) > 0 for a, b in got if abs(a - b) > TOL), 'turned')
        for u, v in itertools.product(pairs[:6], pairs[:6]):
            g = w.call('geometry.utils.difference', R.line(*u), R.line(v[0], v[1], 1))
            got = R.spans(g)
            ck.fact('a line elsewhere takes nothing away', '%s: %s minus %s' % (R.name, u, v),
                    got is not None and near(sort(got), sort([u])), text(got or []))
        tiny = F(1, 10 ** 10)
        for a, b in pairs[:6]:
            lo, hi = min(a, b), max(a, b)
            for s, off, inside in [(lo, 0, True), (hi, 0, True), (F(lo + hi, 2), 0, True),
                                   (lo - HALF, 0, False), (hi + HALF, 0, False),
                                   (F(lo + hi, 2), HALF, False), (F(lo + hi, 2), -HALF, False),
                                   (lo, tiny, True), (hi + tiny, 0, True), (lo - tiny, 0, True),
                                   (lo - F(1, 10 ** 6), 0, False), (hi, F(1, 10 ** 6), False)]:
                r = w.call('geometry.utils.contains', R.line(a, b), R.point(s, off))
                at = '%s: (%s, %s), point at %s, %s aside' % (R.name, a, b, float(s), float(off))
                ck.fact('a line contains the points on it', at, r in (inside, lift(inside)),
                        'result %s' % r)
            r = w.call('geometry.utils.contains', R.line(a, b), R.point(lo, HALF), num(1))
            ck.fact('a line contains the points within the tolerance', '%s: (%s, %s)' % (
                R.name, a, b), r in (True, TRUE), 'result %s' % r)
        for g in ('LineString', 'GeometryCollection'):
            r = w.call('geometry.utils.contains', w.call(Ext('shapely.geometry.' + g)), R.point(0))
            ck.fact('an empty geometry contains nothing', g, r in (False, FALSE), 'result %s' % r)

    # ------------------------------------------------------------------ projection
    def project(slope):
        R = Ruler(ck, slope)
        w = R.w
        d, n = R.d, R.n
        vec = lambda p, q: (p * d[0] + q * n[0], p * d[1] + q * n[1])
        for u in ((0, 4), (4, 0)):
            for s, off, (p, q) in itertools.product((-2, 0, 1, 3, 4, 6), (0, 2, -1),
                                                    ((0, 1), (0, -1), (1, 2), (-1, 1), (1, 0))):
                v = vec(F(p), F(q))
                hit = None if q == 0 else F(s) - F(off) * F(p, q)
                for must in (True, False, None):
                    kw = {} if must is None else {'must_contain': must}
                    g = w.call('geometry.utils.projection', R.point(s, off), PyList(
                        [num(v[0]), num(v[1])]), R.line(*u), **kw)
                    at = '%s: point at (%s, %s) along (%s, %s) on %s%s' % (
                        R.name, s, off, p, q, u, '' if must is None else ', must_contain %s' % must)
                    ps = planar.parts(g)
                    if ps is None:
                        ck.undecided('projection on a line', at, 'geometry not known')
                        continue
                    got = [R.pos(*x) for part in ps for x in part]
                    if any(x is None for x in got):
                        ck.undecided('projection on a line', at, 'position not known')
                        continue
                    out = hit is None or (must is not False and not 0 <= hit <= 4)
                    if out:
                        ck.fact('projection on a line', at, not got, 'a point, required none')
                    else:
                        ck.fact('projection on a line', at, len(got) == 1 and
                                abs(got[0][0] - hit) <= TOL and abs(got[0][1]) <= TOL,
                                '%s, required %s' % ([float(x[0]) for x in got], float(hit)))

    # ------------------------------------------------------------------ cut and cast
    def build(R, kind, ends, shaded, nseg=1):
        w = R.w
        kw = dict(shaded=shaded, normal_vector=R.normal(), param_names=PyList(['p']))
        co = PyList([R.xy(ends[0]), R.xy(ends[1])])
        if kind == 'segment':
            return w.meth(w.get('geometry.base.PVSegment'), 'from_linestring_coords', co, **kw)
        return w.meth(w.get('geometry.base.BaseSide' if kind == 'side' else
                            'geometry.pvrow.PVRowSide'), 'from_linestring_coords', co,
                      n_segments=nseg, **kw)

    def check(R, o, at, lit, shd, total):
        w = R.w
        got = read(R, o)
        if got is None:
            ck.undecided('shadows and cuts', at, 'geometry not known')
            return False
        rules = (('lit surfaces are what the shadows left', sort(got[False]), sort(lit)),
                 ('shaded surfaces cover the shadows', union(got[True]), union(shd)))
        ok = True
        for rule, g, q in rules:
            ok &= near(g, q)
            ck.fact(rule, at, near(g, q), '%s, required %s' % (text(g), text(q)))
        ck.fact('surfaces do not overlap', at, abs(size(got[True]) + size(got[False]) - total) <= TOL,
                'surfaces of %s in all on %s' % (float(size(got[True]) + size(got[False])),
                                                 float(total)))
        for nm, q in (('length', total), ('shaded_length', size(union(shd)))):
            v = planar.number(lift(w.elem(w.attr(o, nm))))
            if v is None:
                ck.undecided(nm + ' of what was cut or shaded', at, 'not known')
            else:
                ck.fact(nm + ' of what was cut or shaded', at, abs(v - q) <= TOL,
                        '%s, required %s' % (float(v), float(q)))
        ss = w.items(w.attr(o, 'all_surfaces'))
        ck.eq('number of surfaces', at, lift(w.attr(o, 'n_surfaces')), num(len(ss)))
        for s in ss:
            nv = [planar.number(lift(w.I.getitem(w.attr(s, 'n_vector'), k))) for k in (0, 1)]
            same = None not in nv and all(abs(a - b) <= TOL for a, b in zip(nv, R.n))
            ck.fact('surfaces keep their direction', at, same, 'normal %s' % (nv,))
            pn = w.attr(s, 'param_names')
            ck.fact('surfaces keep their parameter names', at, isinstance(pn, PyList) and
                    list(pn.items) == ['p'], 'lost')
            if not same:
                break
        return ok

    def pieces(ends, cuts, nseg=1):
        """surfaces after the cuts, from the first end to the second"""
        a, b = ends
        at = [F(a)] + [F(a) + F(b - a) * i / nseg for i in range(1, nseg)] + [F(b)]
        at = sorted(set(at) | set(F(c) for c in cuts if min(a, b) < c < max(a, b)))
        if a > b:
            at = at[::-1]
        return list(zip(at, at[1:]))

    def play(slope, part, kinds):
        R = Ruler(ck, slope)
        w = R.w
        spots = [-1, 0, HALF, 1, F(3, 2), 2, F(5, 2), 3, 4]
        casts = [(p, q) for p in spots for q in spots if p < q]
        rnd = random.Random(3)
        for kind, ends, nseg in kinds:
            todo = []
            for cuts in ((), (1,), (2, 1), (0, 3, 4)):
                for c in casts:
                    todo.append((cuts, [c]))
                    todo.append((cuts, [(c[1], c[0])]))
            # narrow shadows, and shadows which leave little
            for k, e in enumerate((F(1, 100), F(1, 1000), F(1, 20000))):
                for c in ((1, 1 + e), (0, 3 - e), (e, 3), (-1, e), (HALF - e, HALF), (3 - e, 4)):
                    todo.append((((), (1,))[k % 2], [c]))
            for _ in range(300 if ck.tier == 'thorough' else 40):
                todo.append((rnd.choice(((), (1,), (1, 2))),
                             [rnd.choice(casts)[::rnd.choice((1, -1))] for _ in range(3)]))
            for i, (cuts, cs) in enumerate(todo):
                at = '%s: %s %s, %d parts, cut at %s, shadows %s' % (
                    R.name, kind, ends, nseg, list(map(str, cuts)),
                    ' '.join('(%s,%s)' % c for c in cs))
                o = build(R, kind, ends, False, nseg)
                for c in cuts:
                    w.meth(o, 'cut_at_point', R.point(c))
                lit, shd = pieces(ends, cuts, nseg), []
                if i % 7 == 0 and not check(R, o, at + ', before', lit, shd, F(3)):
                    continue
                for c in cs:
                    w.meth(o, 'cast_shadow', R.line(*c))
                    shd = shd + common(union(lit), c)
                    lit = minus(lit, c)
                if not check(R, o, at, lit, shd, F(3)):
                    continue
                if i % 5 == 0:
                    # cutting lit and shaded parts afterwards
                    for c in (F(1, 4), F(7, 4), F(11, 4), 5):
                        w.meth(o, 'cut_at_point', R.point(c))
                        lit = [y for x in lit for y in ([(x[0], F(c)), (F(c), x[1])] if
                                                        min(x) < c < max(x) else [x])]
                        got = read(R, o)
                        if got is not None:
                            ck.fact('a cut ends the surfaces at the point', '%s, cut at %s' % (
                                at, c), not any(min(x) + TOL < c < max(x) - TOL
                                                for q in got.values() for x in q), 'not cut')
                    check(R, o, at + ', then cut', lit, shd, F(3))
                if i % 5 == 1 and kind != 'segment':
                    w.meth(o, 'merge_shaded_areas')
                    got = read(R, o)
                    segs = pieces(ends, (), nseg)
                    if got is not None:
                        want = [(min(x), max(y)) for x, y in [
                            (z[0], z[-1]) for z in [union(common(shd, s)) for s in segs] if z]]
                        ck.fact('merging makes one shaded surface of each segment', at,
                                near(sort(got[True]), sort(want)) and
                                near(sort(got[False]), sort(lit)),
                                '%s, required %s' % (text(got[True]), text(want)))
            # cutting fully shaded ones
            for cuts in ((1,), (2, 1), (0, 3), (5,), (HALF, 2, F(5, 2))):
                o = build(R, kind, ends, True, nseg)
                for c in cuts:
                    w.meth(o, 'cut_at_point', R.point(c))
                at = '%s: shaded %s %s, %d parts, cut at %s' % (
                    R.name, kind, ends, nseg, list(map(str, cuts)))
                got = read(R, o)
                if got is None:
                    ck.undecided('shadows and cuts', at, 'geometry not known')
                    continue
                ck.fact('shaded parts are cut at the point', at, near(
                    sort(got[True]), sort(pieces(ends, cuts, nseg))) and not got[False],
                    '%s' % text(got[True]))
                w.meth(o, 'cast_shadow', R.line(0, 2))
                check(R, o, at + ', shadow', [], pieces(ends, cuts, nseg), F(3))

    # ------------------------------------------------------------------ merge
    def merge(slope):
        R = Ruler(ck, slope)
        w = R.w
        for spans in ([], [(0, 1)], [(1, 0)], [(0, 1), (1, 2)], [(1, 2), (0, 1)], [(1, 0), (2, 1)],
                      [(0, 1), (2, 3)], [(3, 2), (1, 0)], [(0, 1), (1, 2), (2, 4)],
                      [(2, 4), (0, 1), (1, 2)]):
            for sh in (True, False):
                ss = PyList([w.call('geometry.base.PVSurface', PyList([R.xy(a), R.xy(b)]),
                                    normal_vector=R.normal(), shaded=sh,
                                    param_names=PyList(['p'])) for a, b in spans])
                c = w.call('geometry.base.ShadeCollection', ss, shaded=sh)
                w.meth(c, 'merge_surfaces')
                got = w.items(w.attr(c, 'list_surfaces'))
                at = '%s: %s %s' % (R.name, text(spans), 'shaded' if sh else 'lit')
                sp = [R.spans(s) for s in got]
                if any(s is None for s in sp):
                    ck.fact('merged surface', at, False, 'not on the line of the surfaces')
                    continue
                want = [(min(min(s) for s in spans), max(max(s) for s in spans))] if spans else []
                ck.fact('merged surface', at, near(sort([x for s in sp for x in s]), want),
                        '%s, required %s' % (text([x for s in sp for x in s]), text(want)))
                v = planar.number(lift(w.elem(w.attr(c, 'length'))))
                if v is not None:
                    ck.fact('length of the merged collection', at, abs(v - size(want)) <= TOL,
                            '%s' % float(v))
                for s in got:
                    nv = [planar.number(lift(w.I.getitem(w.attr(s, 'n_vector'), k))) for k in (0, 1)]
                    ck.fact('surfaces keep their direction', at, None not in nv and all(
                        abs(a - b) <= TOL for a, b in zip(nv, R.n)), 'normal %s' % (nv,))
                    ck.fact('merged surfaces keep the shading', at, w.attr(s, 'shaded') is sh,
                            'other shading')

    # ------------------------------------------------------------------ construction
    def construct():
        w = ck.world()
        P_ = lambda n: (sym(n + '.x'), sym(n + '.y'))
        a, b = P_('a'), P_('b')
        co = lambda: PyList([a, b])
        nv = (ZERO - (b[1] - a[1]), b[0] - a[0])
        given = PyList([sym('n.0'), sym('n.1')])

        def ends(at, s, p, q):
            e = s.d['__xy__'].elems if s.d.get('__xy__', UNDEF) is not UNDEF else None
            if e is None or len(e) != 4:
                ck.fact('surfaces tile the line in order', at, False, 'other geometry')
                return
            for k, g, t in zip(('b1.x', 'b1.y', 'b2.x', 'b2.y'), e, p + q):
                ck.eq('surfaces tile the line in order', '%s: %s' % (at, k), lift(g), t)

        def vec(rule, at, v, want):
            for k in (0, 1):
                ck.eq(rule, '%s: %d' % (at, k), lift(w.elem(w.I.getitem(v, k))), want[k])
        s = w.call('geometry.base.BaseSurface', co())
        vec('normal vector from the end points', 'surface', w.attr(s, 'n_vector'), nv)
        s = w.call('geometry.base.PVSurface', co(), normal_vector=given)
        vec('normal vector as given', 'surface', w.attr(s, 'n_vector'), given.items)
        along = lambda f: tuple(a[k] + (b[k] - a[k]) * num(f) for k in (0, 1))
        for cls in ('geometry.base.BaseSide', 'geometry.pvrow.PVRowSide'):
            for n in (1, 2, 3, 5):
                for sh in (False, True):
                    side = w.meth(w.get(cls), 'from_linestring_coords', co(), shaded=sh,
                                  n_segments=n, normal_vector=given, index=7,
                                  param_names=PyList(['p']))
                    at = '%s, %d segments, %s' % (cls, n, 'shaded' if sh else 'lit')
                    tile(w, ends, vec, at, side, n, sh, along, given.items)
        R_ = w.get('geometry.pvrow.PVRow')
        for cut in (None, {'front': 3}, {'back': 2}, {'front': 2, 'back': 4}):
            for sh in (False, True):
                for gv in (None, given):
                    kw = {} if cut is None else {'cut': PyDict(list(cut.items()))}
                    if gv is not None:
                        kw['normal_vector'] = gv
                    row = w.meth(R_, 'from_linestring_coords', co(), shaded=sh, index=4, **kw)
                    at = 'row, cut %s, %s%s' % (cut, 'shaded' if sh else 'lit',
                                                ', normal given' if gv is not None else '')
                    base = gv.items if gv is not None else None
                    for side, sg in (('front', 1), ('back', -1)):
                        want = [x * num(sg) for x in base] if base else None
                        tile(w, ends, vec, '%s %s' % (at, side), w.attr(row, side),
                             (cut or {}).get(side, 1), sh, along, want, nv if sg > 0 else
                             tuple(ZERO - x for x in nv), index=0)
                    ck.fact('number of the row', at, w.attr(row, 'index') in (4, num(4)),
                            'lost')
                    e = w.items(w.attr(row, 'boundary'))
                    for p, q, k in zip(e, (a, b), (0, 1)):
                        ck.eq('ends of the row', '%s: %d x' % (at, k), lift(w.attr(p, 'x')), q[0])
                        ck.eq('ends of the row', '%s: %d y' % (at, k), lift(w.attr(p, 'y')), q[1])
                    for nm, up in (('highest_point', True), ('lowest_point', False)):
                        p = w.attr(row, nm)
                        c = (a[1] > b[1]) if up else (a[1] < b[1])
                        ck.eq('ends of the row', '%s: %s' % (at, nm), geo_y(w, p),
                              ite(c, a[1], b[1]))
                    al = w.items(w.attr(row, 'all_surfaces'))
                    fb = [x for sd in ('front', 'back') for x in w.items(
                        w.attr(row, sd, 'all_surfaces'))]
                    ck.fact('surfaces of a row are those of its sides', at, len(al) == len(fb) and
                            all(x is y for x, y in zip(al, fb)), 'others')
        # rows from centre, tilt and width
        t, wd, sa, ax = (sym(x) for x in ('tilt', 'width', 'surface_azimuth', 'axis_azimuth'))
        c = P_('c')
        row = w.meth(R_, 'from_center_tilt_width', c, ts0(w, t), wd, ts0(w, sa), ax, index=2)
        e = w.items(w.attr(row, 'boundary'))
        right = app('mod', sa - ax, num(360)) > num(180)
        rot = ite(tm.cmp('==', t, ZERO), ZERO,
                  ite(right, t, ZERO - t)) * tm.PI / num(180)
        for k, (p, sg) in enumerate(zip(e, (-1, 1))):
            ck.eq('row from centre, tilt and width', 'end %d x' % k, lift(w.elem(w.attr(p, 'x'))),
                  c[0] + num(sg) * wd / num(2) * tm.cos_(rot), ranges=ROW)
            ck.eq('row from centre, tilt and width', 'end %d y' % k, lift(w.elem(w.attr(p, 'y'))),
                  c[1] + num(sg) * wd / num(2) * tm.sin_(rot), ranges=ROW)
        for sh in (None, False, True):
            for cut in (None, {'front': 3}, {'back': 2}):
                kw = {} if sh is None else {'shaded': sh}
                if cut:
                    kw['cut'] = PyDict(list(cut.items()))
                row = w.meth(R_, 'from_center_tilt_width', (ONE, num(2)), num(0), num(2), num(90),
                             num(0), index=3, **kw)
                at = 'row from centre, tilt and width, shaded %s, cut %s' % (sh, cut)
                ck.fact('number of the row', at, w.attr(row, 'index') in (3, num(3)), 'lost')
                for sd in ('front', 'back'):
                    ss = w.items(w.attr(row, sd, 'all_surfaces'))
                    ck.fact('as many surfaces as segments', '%s, %s' % (at, sd),
                            len(ss) == (cut or {}).get(sd, 1), '%d' % len(ss))
                    ck.fact('shading asked for', '%s, %s' % (at, sd), all(
                        w.attr(s, 'shaded') is bool(sh) for s in ss), 'other shading')
        # flat ground
        G_ = w.get('geometry.pvground.PVGround')
        cfg = w.I.module('pvfactors.config')
        cf = lambda n: lift(w.I.getattr(cfg, n))
        for ext in (None, (sym('lo'), sym('hi'))):
            for yg in (None, sym('yg')):
                for sh in (None, False, True):
                    kw = {} if sh is None else {'shaded': sh}
                    if ext is not None:
                        kw['x_min_max'] = ext
                    if yg is not None:
                        kw['y_ground'] = yg
                    g = w.meth(G_, 'as_flat', **kw)
                    x = ext or (cf('MIN_X_GROUND'), cf('MAX_X_GROUND'))
                    y = yg if yg is not None else cf('Y_GROUND')
                    at = 'flat ground, extent %s, level %s, %s' % (ext, yg, sh)
                    ss = w.items(w.attr(g, 'all_surfaces'))
                    ck.fact('flat ground is one surface', at, len(ss) == 1 and
                            w.attr(ss[0], 'shaded') is bool(sh), '%d surfaces' % len(ss))
                    for s in ss:
                        ends(at, s, (x[0], y), (x[1], y))
                        vec('the ground looks up', at, w.attr(s, 'n_vector'), (ZERO, ONE))
                    e = w.items(w.attr(g, 'boundary'))
                    for p, q in zip(e, x):
                        ck.eq('ends of the ground', at, lift(w.attr(p, 'x')), q)
                        ck.eq('ends of the ground', at + ' level', lift(w.attr(p, 'y')), y)

        mk_ = lambda a, b, k: w.call('geometry.base.PVSurface', PyList([(a, ZERO), (b, ZERO)]),
                                     shaded=k)
        for ext in (None, (sym('lo'), sym('hi'))):
            for yg in (None, sym('yg')):
                kw = {}
                if ext is not None:
                    kw['x_min_max'] = ext
                if yg is not None:
                    kw['y_ground'] = yg
                g = w.meth(G_, 'from_lists_surfaces', PyList([mk_(ZERO, ONE, True)]),
                           PyList([mk_(ONE, num(3), False)]), **kw)
                at = 'ground from surfaces, %s, %s' % ('limits given' if ext else 'default limits',
                                                       'level given' if yg is not None else 'default level')
                e = w.items(w.attr(g, 'boundary'))
                for p, q in zip(e, ext or (cf('MIN_X_GROUND'), cf('MAX_X_GROUND'))):
                    ck.eq('ends of the ground', at, lift(w.attr(p, 'x')), q)
                    ck.eq('ends of the ground', at + ' level', lift(w.attr(p, 'y')),
                          yg if yg is not None else cf('Y_GROUND'))
                for k, n in (('length', 3), ('shaded_length', 1)):
                    ck.eq(k + ' of the ground', at, lift(w.elem(w.attr(g, k))), num(n))

    def tile(w, ends, vec, at, side, n, sh, along, normal, other=None, index=7):
        segs = w.items(w.attr(side, 'list_segments'))
        ck.fact('segments asked for', at, len(segs) == n, '%d of %d' % (len(segs), n))
        for i, seg in enumerate(segs[:n]):
            ss = w.items(w.attr(seg, 'all_surfaces'))
            ck.fact('one surface per new segment', '%s, %d' % (at, i), len(ss) == 1,
                    '%d surfaces' % len(ss))
            ck.fact('number of the segments', '%s, %d' % (at, i),
                    w.attr(seg, 'index') in (index, num(index)), 'number %s' % w.attr(seg, 'index'))
            for s in ss:
                ends('%s, %d' % (at, i), s, along(F(i, n)), along(F(i + 1, n)))
                ck.fact('shading asked for', '%s, %d' % (at, i), w.attr(s, 'shaded') is sh,
                        'other shading')
                if normal is not None:
                    vec('normal vector as given', '%s, %d' % (at, i), w.attr(s, 'n_vector'),
                        normal)
                elif n == 1 or other is not None:
                    v = [lift(w.elem(w.I.getitem(w.attr(s, 'n_vector'), k))) for k in (0, 1)]
                    ck.eq('normal vector square to the line', '%s, %d' % (at, i),
                          v[0] * other[1] - v[1] * other[0], ZERO)
                    f = num(1)
                    q = (v[0] * other[0] + v[1] * other[1])
                    ck.eq('normal vector to the side of its own', '%s, %d' % (at, i),
                          (q > 0), (other[0] * other[0] + other[1] * other[1] > 0), ranges=[
                              ('.x', -5., 5., ()), ('.y', -5., 5., ())])

    # ------------------------------------------------------------------ values
    def indices():
        """numbers of the surfaces, all the way up"""
        w = ck.world()
        mk_ = lambda k, i: w.call('geometry.base.PVSurface', PyList(
            [(num(i), ZERO), (num(i + 1), ZERO)]), shaded=k, index=i)
        C = lambda k, xs: w.call('geometry.base.ShadeCollection', PyList([mk_(k, i) for i in xs]),
                                 shaded=k)
        seg = lambda a, b: w.call('geometry.base.PVSegment', illum_collection=C(False, a),
                                  shaded_collection=C(True, b))
        f = w.call('geometry.pvrow.PVRowSide', PyList([seg((3, 5), (1,)), seg((), (9,))]))
        b = w.call('geometry.pvrow.PVRowSide', PyList([seg((2,), ()), seg((8,), (6, 4))]))
        row = w.call('geometry.pvrow.PVRow', front_side=f, back_side=b)
        for nm, o, want in (('front', f, {1, 3, 5, 9}), ('back', b, {2, 4, 6, 8}),
                            ('row', row, {1, 2, 3, 4, 5, 6, 8, 9})):
            ix = w.items(w.attr(o, 'surface_indices'))
            ck.fact('numbers of the surfaces', nm, set(ix) == want and len(ix) == len(want),
                    '%s' % ix)
            al = [w.attr(s, 'index') for s in w.items(w.attr(o, 'all_surfaces'))]
            ck.fact('surfaces below an element', nm, set(al) == want and len(al) == len(want),
                    '%s' % al)
        for nm, o, q in (('front', f, 4), ('back', b, 4)):
            ck.eq('number of surfaces', nm, lift(w.attr(o, 'n_surfaces')), num(q))

    jobs = [('construction', construct), ('values', lambda: values(ck)), ('numbers', indices)]
    for i, s in enumerate(slopes):
        nm = 'direction (%s, %s)' % s
        kinds = [('segment', (0, 3), 1), ('side', (0, 3), 1), ('row side', (3, 0), 3)]
        if ck.tier == 'quick':
            kinds = [kinds[i % 3], kinds[(i + 1) % 3]]
        jobs += [('difference, ' + nm, lambda s=s: utils(s)),
                 ('projection, ' + nm, lambda s=s: project(s)),
                 ('merge, ' + nm, lambda s=s: merge(s)),
                 ('shadows, ' + nm, lambda s=s, k=kinds: play(s, 0, k))]
    ck.par([(nm, lambda f=f: settled(ck, f)) for nm, f in jobs])


def read(R, o):
    out = {True: [], False: []}
    for s in R.w.items(R.w.attr(o, 'all_surfaces')):
        sp = R.spans(s)
        sh = R.w.attr(s, 'shaded')
        if sp is None or sh not in (True, False):
            return None
        out[sh] += sp
    return out


def values(ck):
    R = Ruler(ck, SLOPES[0])
    w = R.w
    spans = {False: [(0, 1), (3, 4)], True: [(1, 3), (4, 8)]}
    surf = {k: [w.call('geometry.base.PVSurface', PyList([R.xy(a), R.xy(b)]),
                       normal_vector=R.normal(), shaded=k) for a, b in v]
            for k, v in spans.items()}
    vals = {}
    for k, v in surf.items():
        for i, s in enumerate(v):
            vals[k, i] = sym('val%s%d' % (k, i))
            w.meth(s, 'update_params', PyDict([('p', vals[k, i]), ('q', ONE)]))
            ck.eq('value of a surface', '%s %d' % (k, i), lift(w.meth(s, 'get_param', 'p')),
                  vals[k, i])
    col = {k: w.call('geometry.base.ShadeCollection', PyList(v), shaded=k)
           for k, v in surf.items()}
    seg = w.call('geometry.base.PVSegment', illum_collection=col[False],
                 shaded_collection=col[True])
    ww = {k: sum_(vals[k, i] * num(abs(b - a)) for i, (a, b) in enumerate(spans[k]))
          for k in spans}
    side = w.call('geometry.base.BaseSide', PyList([seg]))
    gnd = w.call('geometry.pvground.PVGround', PyList([seg]))
    all_ = (ww[True] + ww[False], 8)
    for nm, o, (q, n) in (('lit surfaces', col[False], (ww[False], 2)),
                          ('shaded surfaces', col[True], (ww[True], 6)),
                          ('segment', seg, all_), ('side', side, all_), ('ground', gnd, all_)):
        ck.eq('weighted sum over the surfaces', nm, lift(w.meth(o, 'get_param_ww', 'p')), q)
        ck.eq('weighted average over the surfaces', nm,
              lift(w.meth(o, 'get_param_weighted', 'p')), q / num(n))
    row = w.call('geometry.pvrow.PVRow', front_side=side, back_side=w.call(
        'geometry.base.BaseSide'))
    for nm, o, ks in (('lit', col[False], (False,)), ('shaded', col[True], (True,)),
                      ('segment', seg, (True, False)), ('side', side, (True, False)),
                      ('row', row, (True, False)), ('ground', gnd, (True, False))):
        w.meth(o, 'update_params', PyDict([('r', sym('new ' + nm))]))
        for k, v in surf.items():
            for i, s in enumerate(v):
                d = w.attr(s, 'params').d
                at = '%s: %s surface %d' % (nm, 'shaded' if k else 'lit', i)
                g = d.get('r')
                if k in ks:
                    ck.fact('assigned values reach the surfaces below', at,
                            g is sym('new ' + nm), 'no value')
                else:
                    ck.fact('assigned values stay away from other surfaces', at,
                            g is not sym('new ' + nm), 'value assigned')
                ck.fact('other values stay', at, d.get('p') is vals[k, i], 'changed')
    # setters
    new = lambda k, a, b: w.call('geometry.base.ShadeCollection', PyList([w.call(
        'geometry.base.PVSurface', PyList([R.xy(a), R.xy(b)]), normal_vector=R.normal(),
        shaded=k)]), shaded=k)
    w.I.setattr(seg, 'shaded_collection', new(True, 10, 15))
    w.I.setattr(seg, 'illum_collection', new(False, 20, 21))
    got = read(R, seg)
    ck.fact('collections can be replaced', 'both', got is not None and near(
        sort(got[True]), [(10, 15)]) and near(sort(got[False]), [(20, 21)]), 'not replaced')
    ck.eq('collections can be replaced', 'length', lift(w.elem(w.attr(seg, 'length'))), num(6))
    ck.eq('collections can be replaced', 'shaded length',
          lift(w.elem(w.attr(seg, 'shaded_length'))), num(5))


def apart(ck):
    """surfaces have values of their own, however they were made"""
    R = Ruler(ck, SLOPES[0])
    w = R.w
    kw = lambda: dict(normal_vector=R.normal(), param_names=PyList(['p']))
    surf = lambda a, b, k, **q: w.call('geometry.base.PVSurface', PyList([R.xy(a), R.xy(b)]),
                                       shaded=k, **dict(kw(), **q))

    def cls(name, fn, *a, **k):
        return w.call(w.I.getattr(w.get(name), fn), *a, **k)

    times = []

    def separate(at, o):
        ss = w.items(w.attr(o, 'list_surfaces' if at.startswith('collection') else
                            'all_surfaces'))
        times.append(at)
        nm = '%d:%%d' % len(times)
        for i, s in enumerate(ss):
            w.meth(s, 'update_params', PyDict([('p', sym('own%d' % i)), (nm % i, ONE)]))
        for i, s in enumerate(ss):
            d = w.attr(s, 'params').d
            ck.fact('every surface has its own values', '%s: surface %d' % (at, i),
                    d.get('p') is sym('own%d' % i) and all(
                        d.get(nm % j, UNDEF) is UNDEF for j in range(len(ss)) if j != i),
                    'shared with another one')
            ck.eq('value of a surface', '%s: surface %d' % (at, i),
                  lift(w.meth(s, 'get_param', 'p')), sym('own%d' % i))

    def reach(at, o, key='all_surfaces'):
        """a value assigned to the element is that of every surface below"""
        for i, s in enumerate(w.items(w.attr(o, key))):
            ck.fact('assigned values reach the surfaces below', '%s: surface %d' % (at, i),
                    w.attr(s, 'params').d.get('p') is sym('v'), 'no value')
    co = lambda: PyList([R.xy(0), R.xy(6)])
    for k in (True, False):
        c = w.call('geometry.base.ShadeCollection', PyList([surf(0, 3, k), surf(3, 6, k)]),
                   shaded=k)
        w.meth(c, 'update_params', PyDict([('p', sym('v'))]))
        reach('collection, lit %s' % (not k), c, 'list_surfaces')
        separate('collection, lit %s' % (not k), c)
        w.meth(c, 'cut_at_point', R.point(1))
        separate('collection after a cut, lit %s' % (not k), c)
        w.meth(c, 'remove_linestring', R.line(4, 5))
        separate('collection after a removal, lit %s' % (not k), c)
        w.meth(c, 'add_linestring', R.line(7, 8))
        w.meth(c, 'add_pvsurface', surf(8, 9, k))
        separate('collection after additions, lit %s' % (not k), c)
        for nm, made in (('segment', lambda: cls('geometry.base.PVSegment',
                                                 'from_linestring_coords', co(), shaded=k, **kw())),
                         ('side', lambda: cls('geometry.base.BaseSide', 'from_linestring_coords',
                                              co(), shaded=k, n_segments=3, **kw())),
                         ('row side', lambda: cls('geometry.pvrow.PVRowSide',
                                                  'from_linestring_coords', co(), shaded=k,
                                                  n_segments=2, **kw()))):
            o = made()
            w.meth(o, 'update_params', PyDict([('p', sym('v'))]))
            reach('%s, lit %s' % (nm, not k), o)
            separate('%s, lit %s' % (nm, not k), o)
            if not k:
                w.meth(o, 'cast_shadow', R.line(F(1, 2), F(5, 2)))
                separate(nm + ' in a shadow', o)
            w.meth(o, 'cut_at_point', R.point(F(11, 2)))
            separate('%s after a cut, lit %s' % (nm, not k), o)
    row = cls('geometry.pvrow.PVRow', 'from_linestring_coords', co(), cut=PyDict([
        ('front', 2), ('back', 3)]), param_names=PyList(['p']))
    w.meth(row, 'update_params', PyDict([('p', sym('v'))]))
    reach('row', row)
    for sd in ('front', 'back'):
        reach('row, ' + sd, w.attr(row, sd))
    separate('row', row)
    g = cls('geometry.pvground.PVGround', 'from_lists_surfaces',
            PyList([surf(0, 1, True), surf(3, 4, True)]), PyList([surf(1, 3, False)]))
    w.meth(g, 'update_params', PyDict([('p', sym('v'))]))
    reach('ground', g)
    separate('ground', g)
    # values given when a surface is made, and values assigned
    for c, q in (('geometry.base.PVSurface', {}), ('geometry.base.BaseSurface', {})):
        d = PyDict([('p', sym('v0'))])
        one, two = [w.call(c, co(), params=d) for _ in range(2)]
        w.meth(one, 'update_params', PyDict([('p', sym('v1'))]))
        at = c.rsplit('.', 1)[1]
        ck.fact('every surface has its own values', at + ': values given when it is made',
                lift(w.meth(two, 'get_param', 'p')) is sym('v0'), 'shared')
        ck.fact('the given mapping is left as it was', at,
                d.d.get('p') is sym('v0') and len(d.keys()) == 1, 'changed')
        w.I.setitem(d, 'p', sym('v3'))
        ck.fact('values do not follow later changes of the mapping', at,
                lift(w.meth(two, 'get_param', 'p')) is sym('v0'), 'followed')
        given = PyDict([('p', sym('v4'))])
        w.meth(two, 'update_params', given)
        w.meth(one, 'update_params', given)
        w.I.setitem(given, 'p', sym('v5'))
        w.meth(one, 'update_params', PyDict([('p', sym('v6'))]))
        ck.fact('values do not follow later changes of the mapping', at + ', assigned',
                lift(w.meth(two, 'get_param', 'p')) is sym('v4'), 'followed')
        new = w.call(c, co())
        other = w.call(c, co())
        w.meth(new, 'update_params', PyDict([('p', sym('v7'))]))
        ck.fact('every surface has its own values', at + ': made without values',
                len(w.attr(other, 'params').keys()) == 0, 'shared')


ROW = [('tilt', 0., 89., (0.,)), ('azimuth', 0., 360., ()), ('width', .5, 3., ()),
       ('.x', -5., 5., ()), ('.y', -5., 5., ())]


def ts0(w, t):
    return t


def geo_y(w, p):
    return lift(w.elem(w.attr(p, 'y')))


def sum_(xs):
    s = ZERO
    for x in xs:
        s = s + x
    return s
