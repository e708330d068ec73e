"""View-factor summary of a back-side element (fast mode)."""
from . import prop
from . import geo
from .geo import Geo, Pt, Line, dist, REAL, CHAOS
from .vf import TOL, confirm, lazy, open_vf, hidden_vf, each
from sa import terms as tm
from sa.world import *
from sa.obl import Section

CASES = [(1, None), (2, {0: {'back': 2}, 1: {'front': 2, 'back': 3}}), (3, None), (4, None),
         (5, None), (3, {1: {'back': 3, 'front': 2}})]
DEEP = [(7, None), (6, {5: {'back': 2}, 0: {'back': 4}})]
KEYS = ('to_each_gnd_shadow', 'to_gnd_shaded', 'to_gnd_illum', 'to_gnd_total',
        'to_pvrow_total', 'to_pvrow_shaded', 'to_pvrow_illum', 'to_sky')


class Fast(Geo):
    def __init__(self, ck, n, cut=None, chaos=True):
        Geo.__init__(self, ck, n, cut, chaos)
        w = self.w
        self.calc = w.call('viewfactors.VFCalculator')
        self.xmin = w.elem(w.attr(self.ground, 'x_min'))
        self.xmax = w.elem(w.attr(self.ground, 'x_max'))
        self.y = w.elem(w.attr(self.ground, 'y_ground'))
        self.shadows = [geo.line(w, w.attr(e, 'coords'))
                        for e in w.items(w.attr(self.ground, 'shadow_elements'))]
        self.cuts = [geo.pt(w, c) for c in w.items(w.attr(self.ground, 'cut_point_coords'))]
        self.width = sym('width')
        self.memo = {}

    def elements(self):
        """(row, label, object) for whole back segments and their surfaces"""
        w = self.w
        for r, row in enumerate(self.rows):
            for k, s in enumerate(w.items(w.attr(row, 'back', 'list_segments'))):
                yield r, 'segment %d' % k, s
                for q, u in enumerate(w.items(w.attr(s, 'all_ts_surfaces'))):
                    yield r, 'segment %d part %d' % (k, q), u

    def run(self, r, el, key):
        w = self.w
        if key not in self.memo:
            d = w.meth(self.calc, 'get_vf_ts_pvrow_element', r, el, w.attr(self.arr, 'ts_pvrows'),
                       self.ground, w.attr(self.arr, 'rotation_vec'), self.width)
            out = {}
            for k, v in d.d.items():
                out[k] = v
            self.memo[key] = out
        return self.memo[key]

    # ------------------------------------------------------------- requirement
    def want(self, r, el):
        w = self.w
        a = geo.line(w, w.attr(el, 'coords'))
        n, left = self.n, self.left

        def look(f):
            """the back looks right when the row is tilted left, left otherwise"""
            return ite(left, f(True), f(False))

        def clip(l, right):
            c = self.cuts[r].x
            if right:
                g = lambda x: tm.tmin(tm.tmax(x, c), self.xmax)
            else:
                g = lambda x: tm.tmax(tm.tmin(x, c), self.xmin)
            return Line(Pt(g(l.b1.x), l.b1.y), Pt(g(l.b2.x), l.b2.y))

        def edge(right):
            return r == (n - 1 if right else 0)

        def shadow(l):
            def f(right):
                g = clip(l, right)
                if edge(right):
                    return open_vf(a, g)
                return hidden_vf(a, g, self.rowline[r + 1 if right else r - 1].low, not right)
            return look(f)

        def ground(right):
            if edge(right):
                if right:
                    g = Line(Pt(tm.tmax(self.xmin, self.cuts[r].x), self.y),
                             Pt(self.xmax, self.y))
                else:
                    g = Line(Pt(self.xmin, self.y),
                             Pt(tm.tmin(self.xmax, self.cuts[r].x), self.y))
                return open_vf(a, g)
            me = self.rowline[r].low
            o = self.rowline[r + 1 if right else r - 1].low
            return open_vf(a, Line(me, o) if right else Line(o, me))

        def rows(right):
            if edge(right):
                return ZERO
            return open_vf(a, self.rowline[r + 1 if right else r - 1])

        def shaded_rows(right):
            if edge(right):
                return ZERO
            k = r + 1 if right else r - 1
            row = self.rows[k]
            sl = ZERO
            for d in self.surf:
                if d['kind'] == 'row' and d['row'] == k and d['side'] == 'front' \
                        and d['shaded'] is True:
                    sl = sl + d['line'].length
            c = w.attr(row, 'xy_center')
            cx, cy = [w.elem(v) for v in w.items(c)]
            rad = self.width / num(2) - sl
            # from the row centre towards its lower edge
            th = self.rot * tm.PI / num(180)
            co, si = app('cos', th), app('sin', th)
            sg = ite(left, num(-1), ONE)
            top = Pt(sg * rad * co + cx, sg * rad * si + cy)
            return open_vf(a, Line(top, self.rowline[k].low))

        each = [shadow(l) for l in self.shadows]
        sh = ZERO
        for e in each:
            sh = sh + e
        tot, pv, ps = look(ground), look(rows), look(shaded_rows)
        return {'to_each_gnd_shadow': each, 'to_gnd_shaded': sh, 'to_gnd_total': tot,
                'to_gnd_illum': tot - sh, 'to_pvrow_total': pv, 'to_pvrow_shaded': ps,
                'to_pvrow_illum': pv - ps, 'to_sky': ONE - tot - pv}


@prop('P09')
def summary(ck):
    def body(name, G, R, sh):
        n = G.n
        for x, (r, lab, el) in enumerate(list(G.elements())):
            at = '%s, row %d back %s' % (name, r, lab)
            if not sh.mine():
                continue
            base = G.run(r, el, x)
            ck.fact('complete summary', at, all(k in base for k in KEYS),
                    'missing entries: %s' % [k for k in KEYS if k not in base])
            for k in KEYS:
                for j in (range(n) if k == 'to_each_gnd_shadow' else (None,)):
                    def pair(C, x=x, k=k, j=j):
                        r, lab, el = list(C.elements())[x]
                        got = C.run(r, el, x)[k]
                        want = C.want(r, el)[k]
                        if j is not None:
                            got = got.elems[j]
                            want = want[j]
                        else:
                            got = C.w.elem(got)
                        a = geo.line(C.w, C.w.attr(el, 'coords'))
                        return got, want, [a.length > TOL]
                    if k not in base:
                        continue
                    confirm(ck, 'fast-mode view factors', '%s, %s%s' % (
                        at, k, '' if j is None else ' %d' % j), pair, G, R)
    each(ck, body, lambda n, cut, chaos: Fast(ck, n, cut, chaos),
         CASES + (DEEP if ck.tier == 'thorough' else []), 4)
