"""View factors of the full mode."""
from . import prop
from . import geo
from .geo import Geo, Pt, Line, dist, REAL, CHAOS
from sa import terms as tm
from sa.world import *
from sa.obl import Section

TOL = tm.num(__import__('fractions').Fraction(1, 10**8))
ALL2 = {0: {'front': 2, 'back': 2}, 1: {'front': 2, 'back': 2}}
CASES = [(1, None), (2, ALL2), (3, None), (4, None)]
DEEP = [(1, {0: {'back': 3, 'front': 2}}), (2, None), (3, {0: {'back': 2}, 1: {'front': 2, 'back': 3},
                                                          2: {'front': 3}}), (5, None), (6, None)]


class VF(Geo):
    def __init__(self, ck, n, cut=None, chaos=True, stubs=None):
        Geo.__init__(self, ck, n, cut, chaos, stubs)
        self.calc = self.w.call('viewfactors.VFCalculator')
        self.m = self.w.meth(self.calc, 'build_ts_vf_matrix', self.arr)

    def F(self, i, j):
        return self.m.elems[i * self.N + j]

    def nan_lemmas(self, *ds):
        """sum over time of a length below the tolerance implies the length is"""
        w = self.w
        out = []
        for d in ds:
            if d is None:
                continue
            e = w.attr(d['obj'], 'is_empty')
            e = w.I.np.scal(e)
            if isinstance(e, T) and e is not FALSE:
                out.append(tm.lor(tm.lnot(e), d['line'].length < TOL))
        return out


def string(p, g, ob, left):
    """length of the string from p to the ground point g, around ob when it is in the way"""
    a_p = app('arctan2', p.y - g.y, p.x - g.x)
    a_o = app('arctan2', ob.y - g.y, ob.x - g.x)
    blocked = (a_p > a_o) if left else (a_p < a_o)
    return ite(blocked, dist(g, ob) + dist(ob, p), dist(p, g))


def open_vf(a, b):
    """crossed strings between two facing segments, relative to the width of the first"""
    cr = dist(a.b1, b.b2) + dist(a.b2, b.b1)
    un = dist(a.b1, b.b1) + dist(a.b2, b.b2)
    w = a.length
    return ite(w > TOL, app('abs', cr - un) / (2 * w), ZERO)


def hidden_vf(a, g, ob, left):
    """crossed strings from a row segment to a ground segment next to an obstructing point"""
    hi, lo = a.high, a.low
    near, far = (g.b2, g.b1) if left else (g.b1, g.b2)
    s = lambda p, q: string(p, q, ob, left)
    w = a.length
    return ite(w > TOL, (s(hi, near) + s(lo, far) - s(hi, far) - s(lo, near)) / (2 * w), ZERO)


def row_to_ground(G, a, g):
    r, n = a['row'], G.n
    left = g['pos'] <= r                # part k of an element lies between cut points k-1 and k
    if (left and r == 0) or (not left and r == n - 1):
        v = open_vf(a['line'], g['line'])
    else:
        ob = G.rowline[r - 1 if left else r + 1].low
        v = hidden_vf(a['line'], g['line'], ob, left)
    sees = G.left if (a['side'] == 'front') == left else tm.lnot(G.left)
    return ite(sees, v, ZERO)


def row_to_row(G, a, b):
    """a left of b, adjacent rows"""
    if a['side'] == b['side']:
        return ZERO
    sees = tm.lnot(G.left) if a['side'] == 'front' else G.left
    return ite(sees, open_vf(a['line'], b['line']), ZERO)


def reverse(a, b, v):
    return ite(b['line'].length > TOL, v * a['line'].length / b['line'].length, ZERO)


def required(G, a, b):
    """required view factor from surface a to surface b (neither is the sky)"""
    if a['kind'] == 'ground' and b['kind'] == 'ground':
        return ZERO
    if a['kind'] == 'row' and b['kind'] == 'ground':
        return row_to_ground(G, a, b)
    if a['kind'] == 'ground':
        return reverse(b, a, row_to_ground(G, b, a))
    if b['row'] == a['row'] + 1:
        return row_to_row(G, a, b)
    if b['row'] == a['row'] - 1:
        return reverse(b, a, row_to_row(G, b, a))
    return ZERO


def confirm(ck, rule, where, mk_pair, chaos_case, real_case, hyp=None, loc=None):
    """prove the equality for arbitrary geometry; alarm only if it also fails on the real one"""
    got, want, hyps = mk_pair(chaos_case)
    v, info = ck.compare(got, want, hyps, CHAOS)
    if v == 'OK':
        return ck._add(rule, where, v, info)
    real = real_case()
    got2, want2, hyps2 = mk_pair(real)
    if got2 is want2:
        return ck._add(rule, where, 'OK', 'identical on the geometry built by the package')
    h = tm.land(*hyps2) if hyps2 else None
    s = ck.apart(got2, want2, h, REAL)
    if s is None:
        return ck._add(rule, where, 'UNDECIDED', 'differs only on geometry that may not arise: ' + info)
    return ck._add(rule, where, 'VIOLATION', info + ' [confirmed on the package geometry, '
                   'valuation #%s: %.6g vs %.6g]' % s, loc or ck.blame(got, want))


def cases(ck):
    return CASES + (DEEP if ck.tier == 'thorough' else [])


def lazy(f):
    box = []

    def g():
        if not box:
            box.append(f())
        return box[0]
    return g


class Shard(object):
    """every process decides its share of the pairs of a case"""

    def __init__(self, ck, k, n):
        self.ck, self.k, self.n, self.i = ck, k, n, -1

    def mine(self):
        self.i += 1
        return self.i % self.n == self.k


def each(ck, body, make=None, sets=None, shards=4, more=()):
    make = make or (lambda n, cut, chaos: VF(ck, n, cut, chaos))
    jobs = []
    todo = list(more) + [(c, body, shards if c[0] > 1 else 1) for c in sets or cases(ck)]
    for (n, cut), body, m in todo:
        name = '%d row(s)%s' % (n, ', segmented' if cut else '')
        for k in range(m):
            def job(n=n, cut=cut, name=name, k=k, m=m, body=body):
                G = make(n, cut, True)
                R = lazy(lambda: make(n, cut, False))
                body(name, G, R, Shard(ck, k, m))
            jobs.append((name, job))
    ck.par(jobs)


@prop('P03')
def law(ck):
    def body(name, G, R, sh):
        for x, a in enumerate(G.surf):
            for y, b in enumerate(G.surf):
                if not sh.mine():
                    continue

                def pair(C, x=x, y=y):
                    a, b = C.surf[x], C.surf[y]
                    hyp = [a['line'].length > TOL, b['line'].length > TOL]
                    return (C.F(a['index'], b['index']), required(C, a, b),
                            hyp + C.nan_lemmas(a, b))
                confirm(ck, 'view factor law', '%s: %s -> %s' % (name, a['name'], b['name']),
                        pair, G, R)

    def last(name, G, R, sh):
        # long arrays: what the last row sees and what sees it
        for x, a in enumerate(G.surf):
            for y, b in enumerate(G.surf):
                if max(a.get('row') or 0, b.get('row') or 0) < len(G.rows) - 1 or not sh.mine():
                    continue

                def pair(C, x=x, y=y):
                    a, b = C.surf[x], C.surf[y]
                    hyp = [a['line'].length > TOL, b['line'].length > TOL]
                    return (C.F(a['index'], b['index']), required(C, a, b),
                            hyp + C.nan_lemmas(a, b))
                confirm(ck, 'view factor law', '%s: %s -> %s' % (name, a['name'], b['name']),
                        pair, G, R)
    each(ck, body, more=[((7, None), last, 2)])


@prop('P01')
def recip(ck):
    def body(name, G, R, sh):
        for x, a in enumerate(G.surf):
            for y, b in enumerate(G.surf):
                if x >= y or not sh.mine():
                    continue

                def pair(C, x=x, y=y):
                    a, b = C.surf[x], C.surf[y]
                    la, lb = a['line'].length, b['line'].length
                    hyp = [la > TOL, lb > TOL]
                    return (C.F(a['index'], b['index']) * la, C.F(b['index'], a['index']) * lb,
                            hyp)
                confirm(ck, 'length-weighted symmetry',
                        '%s: %s <-> %s' % (name, a['name'], b['name']), pair, G, R)
    each(ck, body)


@prop('P02')
def closure(ck):
    def body(name, G, R, sh):
        sky = G.N - 1
        ck.fact('one row and column per surface plus the sky', name,
                G.m.axes[0] == G.N and G.m.axes[1] == G.N, 'shape %r' % (G.m.axes,))
        for x, a in enumerate(G.surf):
            if not sh.mine():
                continue

            def pair(C, x=x):
                a = C.surf[x]
                i = a['index']
                s = ZERO
                for j in range(C.N - 1):
                    s = s + C.F(i, j)
                return C.F(i, sky), ite(a['line'].length > TOL, ONE - s, ZERO), ()
            confirm(ck, 'view to the sky completes the row', '%s: %s' % (name, a['name']),
                    pair, G, R)

            def selfv(C, x=x):
                i = C.surf[x]['index']
                return C.F(i, i), ZERO, ()
            confirm(ck, 'flat surfaces do not see themselves', '%s: %s' % (name, a['name']),
                    selfv, G, R)
            # a surface that does not exist at a timestep sees nothing
            for y, b in enumerate(G.surf):
                def dead(C, x=x, y=y):
                    a, b = C.surf[x], C.surf[y]
                    return (C.F(a['index'], b['index']), ZERO,
                            [a['line'].length <= TOL])
                confirm(ck, 'absent surfaces exchange nothing',
                        '%s: %s -> %s' % (name, a['name'], b['name']), dead, G, R)
        for j in range(G.N):
            def skyrow(C, j=j):
                return C.F(C.N - 1, j), ZERO, ()
            confirm(ck, 'the sky receives nothing', '%s: sky -> %d' % (name, j), skyrow, G, R)
    each(ck, body)
