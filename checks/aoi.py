"""Absorption (AOI) factors of the full mode."""
from . import prop
from . import geo
from .geo import Geo, Pt, Line, dist, REAL, CHAOS
from .vf import TOL, confirm, lazy, each
from sa import terms as tm
from sa.world import *
from sa.obl import Section

NSEC = 'nsec'
CASES = [(1, None), (2, {0: {'front': 2}, 1: {'back': 2}}), (3, None), (4, None)]
DEEP = [(2, {0: {'front': 2, 'back': 2}, 1: {'front': 2, 'back': 2}}), (5, None)]
HALF = num(1) / num(2)


class AOI(Geo):
    """array, calculator with angular-loss functions, arbitrary view factors"""

    def __init__(self, ck, n, cut=None, chaos=True, faoi=True):
        Geo.__init__(self, ck, n, cut, chaos)
        w = self.w
        kw = {}
        if faoi:
            kw = dict(faoi_fn_front=w.faoi('front'), faoi_fn_back=w.faoi('back'),
                      n_aoi_integral_sections=sym(NSEC))
        self.calc = w.call('viewfactors.VFCalculator', **kw)
        w.meth(self.calc, 'fit', sym('n_t'))
        N = self.N
        by = self.by_index()
        F = w.mat('F', N, N)
        for i in range(N):
            for j in range(N):
                if self.never(by.get(i), by.get(j), N - 1, i):
                    F.store.d[i * N + j] = ZERO
        self.F0 = [F.elems[k] for k in range(N * N)]
        self.Fmat = F
        w.I.setattr(self.calc, 'vf_matrix', F)
        self.rho = w.mat('RM', N, N)
        self.A = w.meth(self.calc, 'build_ts_vf_aoi_matrix', self.arr, self.rho)

    @staticmethod
    def never(a, b, sky, i):
        """surfaces which never see each other"""
        if i == sky:
            return True
        if b is None:                   # towards the sky
            return False
        if a['kind'] == 'ground':
            return b['kind'] == 'ground'
        if b['kind'] == 'ground':
            return False
        return abs(a['row'] - b['row']) != 1 or a['side'] == b['side']


def angle(a, nv, p):
    """angle in degrees between the surface direction and the direction of p, seen from the
    middle of the surface"""
    c = a.mid
    ux, uy = -nv[1], nv[0]
    vx, vy = p.x - c.x, p.y - c.y
    co = (ux * vx + uy * vy) / (app('sqrt', ux * ux + uy * uy) * app('sqrt', vx * vx + vy * vy))
    co = app('max', -ONE, app('min', ONE, co))
    return app('arccos', co) * num(180) / tm.PI


def wedge(W, a, nv, p1, p2, side):
    """sum over the angular sections met by the wedge of the weighted section view factors"""
    a1, a2 = angle(a, nv, p1), angle(a, nv, p2)
    lo, hi = ite(a1 < a2, a1, a2), ite(a1 < a2, a2, a1)
    i = sym('ix:' + NSEC)
    step = num(180) / sym(NSEC)
    s0 = i * step
    s1 = s0 + step
    cosd = lambda x: app('cos', x * tm.PI / num(180))
    vf = HALF * app('abs', cosd(s0) - cosd(s1))
    f = app('faoi_' + side, s0 + step * HALF)
    body = ite(tm.land(lo <= s1, hi > s0), f * vf, ZERO)
    tot = app('red:sum:' + NSEC, body)
    return ite(app('abs', hi - lo) < TOL, ZERO, tot)


def sky_edges(G, r):
    """the two stretches of sky next to row r (towards the left, towards the right)"""
    w = G.w
    y = w.elem(w.attr(G.ground, 'y_ground'))
    x0, x1 = (w.elem(w.attr(G.ground, q)) for q in ('x_min', 'x_max'))
    hi = [l.high for l in G.toplines]
    left = Line(Pt(x0, y), hi[0]) if r == 0 else Line(hi[r - 1], hi[r])
    right = Line(hi[-1], Pt(x1, y)) if r == G.n - 1 else Line(hi[r], hi[r + 1])
    return left, right


def absorb(G, a, b):
    """required absorption factor of row surface a for surface b (None: the sky)"""
    al = a['line']
    nvv = G.w.attr(a['obj'], 'n_vector')
    nv = [nvv.elems[0], nvv.elems[1]]
    left = G.left
    ok = lambda l: tm.lnot(tm.lor(al.length < TOL, l.length < TOL))
    side = a['side']
    if b is None:
        l, r = sky_edges(G, a['row'])
        v = [ite(ok(e), wedge(G, al, nv, e.b1, e.b2, side), ZERO) for e in (l, r)]
        return ite(left if side == 'front' else tm.lnot(left), v[0], v[1])
    bl = b['line']
    if b['kind'] == 'row':
        v = ite(ok(bl), wedge(G, al, nv, bl.b1, bl.b2, side), ZERO)
        to_right = b['row'] > a['row']
        sees = left if (side == 'front') != to_right else tm.lnot(left)
        return ite(sees, v, ZERO)
    r = a['row']
    to_left = b['pos'] <= r
    if (to_left and r == 0) or (not to_left and r == G.n - 1):
        p1, p2 = bl.b1, bl.b2
    else:
        ob = G.rowline[r - 1 if to_left else r + 1].low

        def clip(p):
            c = al.mid
            a_c = app('arctan2', c.y - p.y, c.x - p.x)
            a_o = app('arctan2', ob.y - p.y, ob.x - p.x)
            blocked = (a_c > a_o) if to_left else (a_c < a_o)
            return Pt(ite(blocked, ob.x, p.x), ite(blocked, ob.y, p.y))
        p1, p2 = clip(bl.b1), clip(bl.b2)
    v = ite(ok(bl), wedge(G, al, nv, p1, p2, side), ZERO)
    sees = left if (side == 'front') == to_left else tm.lnot(left)
    return ite(sees, v, ZERO)


def cases(ck):
    return CASES + (DEEP if ck.tier == 'thorough' else [])


def exists(G, *ds):
    """the surfaces exist at the timestep; a surface absent at this timestep may exist at others,
    so its `exists at some time` flag is free otherwise"""
    out = []
    for d in ds:
        if d is not None:
            out.append(d['line'].length > TOL)
            e = G.w.I.np.scal(G.w.attr(d['obj'], 'is_empty'))
            if isinstance(e, T):
                out.append(tm.lnot(e))
    return out


def prepare(G):
    w = G.w
    G.toplines = [geo.line(w, w.attr(r, 'full_pvrow_coords')) for r in G.rows]
    # the top of a row is read from the segment ends, whatever they are
    for r, row in enumerate(G.rows):
        hp = geo.pt(w, w.attr(row, 'highest_point'))

        class HL(object):
            high = hp
        G.toplines[r] = HL
    return G


@prop('P04')
def absorption(ck):
    def body(name, G, R, sh):
        N = G.N
        idx = [(x, a) for x, a in enumerate(G.surf)]
        for x, a in idx:
            for y, b in idx + [(None, None)]:
                if not sh.mine():
                    continue

                def pair(C, x=x, y=y):
                    a = C.surf[x]
                    b = None if y is None else C.surf[y]
                    i = a['index']
                    j = C.N - 1 if b is None else b['index']
                    got = C.A.elems[i * C.N + j]
                    if a['kind'] == 'ground' or (b is not None and C.never(a, b, C.N - 1, i)):
                        return got, C.F0[i * C.N + j], []
                    hyp = exists(C, a, b)
                    if b is None:
                        for e in sky_edges(C, a['row']):
                            hyp += [tm.lnot(app('red:nansum:t', e.length) < TOL),
                                    e.length > TOL]
                    return got, absorb(C, a, b), hyp
                to = 'sky' if b is None else b['name']
                rule = ('ground and sky keep their view factors' if a['kind'] == 'ground'
                        else 'absorption factor law')
                confirm(ck, rule, '%s: %s -> %s' % (name, a['name'], to), pair, G, R)
                if a['kind'] == 'row' and b is not None and b['kind'] == 'row' \
                        and not G.never(a, b, N - 1, 0) or (a['kind'] == 'row' and b is not None
                                                            and b['kind'] == 'ground'):
                    def dead(C, x=x, y=y):
                        a, b = C.surf[x], C.surf[y]
                        return (C.A.elems[a['index'] * C.N + b['index']], ZERO,
                                [a['line'].length < TOL])
                    confirm(ck, 'absent surfaces absorb nothing',
                            '%s: %s -> %s' % (name, a['name'], to), dead, G, R)
        for k in range(sh.k, N * N, sh.n):
            ck.eq('view factors are left as they were', '%s [%d,%d]' % (name, k // N, k % N),
                  G.Fmat.elems[k], G.F0[k], ranges=CHAOS)
        got = G.w.attr(G.calc, 'vf_matrix')
        ck.fact('view factors and absorption factors are separate results', name,
                got is not G.A and got.store is not G.A.store,
                'the absorption factors overwrite the view factors')
        pub = G.w.attr(G.calc, 'vf_aoi_matrix')
        for k in range(sh.k, N * N, sh.n):
            ck.eq('published absorption factors', '%s [%d,%d]' % (name, k // N, k % N),
                  pub.elems[k], G.A.elems[k], ranges=CHAOS)

    def plain(name, G, R, sh):
        name += ', no angular function'
        N = G.N
        for k in range(sh.k, N * N, sh.n):
            ck.eq('constant absorption = 1 - reflectivity', '%s [%d,%d]' % (name, k // N, k % N),
                  G.A.elems[k], (ONE - sym('RM[%d,%d]@t' % (k // N, k % N))) * G.F0[k],
                  ranges=CHAOS)
            ck.eq('view factors are left as they were', '%s, constant [%d,%d]' % (
                name, k // N, k % N), G.Fmat.elems[k], G.F0[k], ranges=CHAOS)
    each(ck, body, lambda n, cut, chaos: prepare(AOI(ck, n, cut, chaos)), cases(ck), 6)
    each(ck, plain, lambda n, cut, chaos: AOI(ck, n, cut, chaos, faoi=False), cases(ck)[:4], 1)
