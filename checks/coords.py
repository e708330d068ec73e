"""Positions, lengths and directions read off the elements of an array."""
from . import prop
from .geo import Geo, P, L, ts, pt, line, dist
from sa import terms as tm
from sa.world import *

R = [('.y', -4., 4., ()), ('.x', -9., 9., ())]


def point(ck, w, rule, at, p, q, hyp=None):
    for k, want in (('x', q.x), ('y', q.y)):
        ck.eq(rule, '%s: %s' % (at, k), w.elem(w.attr(p, k)), want, hyp=hyp)


@prop('P35')
def coords(ck):
    def ends_of(w, o, at, l):
        """l: host-side line of the element"""
        has = lambda n: w.I.class_lookup(o.cls, n)[0] is not None
        for nm, want in (('centroid', l.mid), ('highest_point', l.high), ('lowest_point', l.low),
                         ('b1', l.b1), ('b2', l.b2)):
            if has(nm) or nm in o.d:
                # level elements have no highest point of their own
                hyp = tm.cmp("!=", l.b1.y, l.b2.y) if nm[0] in 'hl' else None
                if hyp is tm.FALSE:
                    continue
                point(ck, w, 'points of an element', '%s, %s' % (at, nm), w.attr(o, nm), want, hyp)

    def array(nm, n, cut):
        G = Geo(ck, n, cut)
        w = G.w
        for d in G.surf:
            o, at = d['obj'], '%s, %s' % (nm, d['name'])
            ends_of(w, o, at, d['line'])
            ck.eq('length of a surface', at, w.elem(w.attr(o, 'length')), d['line'].length)
            if d['kind'] == 'row':
                u, v = w.attr(o, 'u_vector'), w.attr(o, 'n_vector')
                g = lambda a, k: lift(w.elem(w.I.getitem(a, k)))
                ck.eq('direction of a surface is square to its normal', at + ': x', g(u, 0),
                      ZERO - g(v, 1))
                ck.eq('direction of a surface is square to its normal', at + ': y', g(u, 1),
                      g(v, 0))
        for d in G.surf:
            if d['kind'] != 'ground':
                continue
        for kind in ('shadow_elements', 'illum_elements'):
            for e, el in enumerate(w.items(w.attr(G.ground, kind))):
                at = '%s, %s %d' % (nm, kind, e)
                l = line(w, w.attr(el, 'coords'))
                ends_of(w, el, at, l)
                ck.eq('length of a ground element', at, w.elem(w.attr(el, 'length')), l.length)
                ss = w.items(w.attr(el, 'all_ts_surfaces'))
                mine = [d['obj'] for d in G.surf if d['kind'] == 'ground' and d['el'] == e and
                        d['elkind'] == kind]
                ck.fact('surfaces of an element', at, len(ss) == len(mine) and all(
                    a is b for a, b in zip(ss, mine)), 'others')
        for r, row in enumerate(G.rows):
            at = '%s, row %d' % (nm, r)
            ends_of(w, row, at, G.rowline[r])
            seen = []
            for side in ('front', 'back'):
                for k, seg in enumerate(w.items(w.attr(row, side, 'list_segments'))):
                    a2 = '%s %s segment %d' % (at, side, k)
                    ends_of(w, seg, a2, line(w, w.attr(seg, 'coords')))
                    q = [d for d in G.surf if d.get('row') == r and d['side'] == side and
                         d['seg'] == k]
                    tot = ZERO
                    for d in q:
                        tot = tot + d['line'].length
                    ck.eq('length of a segment', a2, w.elem(w.attr(seg, 'length')), tot)
                    sh = ZERO
                    for d in q:
                        sh = sh + (d['line'].length if d['shaded'] is True else ZERO)
                    ck.eq('shaded length of a segment', a2, w.elem(w.attr(seg, 'shaded_length')),
                          sh)
                    seen += [d['obj'] for d in q]
                    ck.fact('number of surfaces', a2, w.attr(seg, 'n_ts_surfaces') in (
                        len(q), num(len(q))), 'other')
            al = w.items(w.attr(row, 'all_ts_surfaces'))
            ck.fact('surfaces of a row', at, len(al) == len(seen) and set(map(id, al)) ==
                    set(map(id, seen)), 'others')
            ck.fact('number of surfaces', at, w.attr(row, 'n_ts_surfaces') in (
                len(seen), num(len(seen))), 'other')
        al = w.items(w.attr(G.ground, 'all_ts_surfaces'))
        gs = [d['obj'] for d in G.surf if d['kind'] == 'ground']
        ck.fact('surfaces of the ground', nm, len(al) == len(gs) and set(map(id, al)) ==
                set(map(id, gs)), 'others')
        ck.fact('number of surfaces', nm + ', ground', w.attr(G.ground, 'n_ts_surfaces') in (
            len(gs), num(len(gs))), 'other')
        al = w.items(w.attr(G.arr, 'all_ts_surfaces'))
        ck.fact('surfaces of the array', nm, len(al) == len(G.surf) and set(map(id, al)) ==
                set(id(d['obj']) for d in G.surf), 'others')
        ck.fact('number of surfaces', nm + ', array', w.attr(G.arr, 'n_ts_surfaces') in (
            len(G.surf), num(len(G.surf))), 'other')

    def geometry():
        """rows of one timestep"""
        w = ck.world()
        R_ = w.get('geometry.pvrow.PVRow')
        a, b = ((sym(n + '.x'), sym(n + '.y')) for n in 'ab')
        nv = PyList([sym('n.0'), sym('n.1')])
        for nm, kw in (('row', {}), ('cut row', {'cut': PyDict([('front', 3), ('back', 2)])}),
                       ('shaded row', {'shaded': True}), ('row with a normal', {
                           'normal_vector': nv}), ('numbered row', {'index': 4})):
            row = w.meth(R_, 'from_linestring_coords', PyList([a, b]), **kw)
            bs = w.items(w.attr(row, 'boundary'))
            c = (lambda p, k: lift(w.elem(w.attr(p, k))))
            for k, (p, q) in enumerate(zip(bs, (a, b))):
                ck.eq('ends of a row', '%s, end %d: x' % (nm, k), c(p, 'x'), q[0])
                ck.eq('ends of a row', '%s, end %d: y' % (nm, k), c(p, 'y'), q[1])
            # level rows have no highest point of their own
            hyp = tm.cmp("!=", a[1], b[1])
            for pt, first in (('highest_point', a[1] > b[1]), ('lowest_point', a[1] < b[1])):
                p = w.attr(row, pt)
                for i, k in enumerate('xy'):
                    ck.eq('highest and lowest point of a row', '%s, %s: %s' % (nm, pt, k), c(p, k),
                          ite(first, a[i], b[i]), hyp)
            al = w.items(w.attr(row, 'all_surfaces'))
            want = [s for sd in ('front', 'back') for seg in w.items(
                w.attr(row, sd, 'list_segments')) for col in ('illum', 'shaded') for s in w.items(
                    w.attr(seg, col + '_collection', 'list_surfaces'))]
            ck.fact('surfaces of a row', nm, len(al) == len(want) and set(map(id, al)) ==
                    set(map(id, want)), 'others')

    def points():
        w = ck.world()
        g = lambda n: sym(n + '@t')
        a, b = (P(w, ts(w, g(n + '.x')), ts(w, g(n + '.y'))) for n in ('a', 'b'))
        l = L(w, a, b)
        idx = sym('idx')
        pick = lambda t: lift(w.elem(w.I.getitem(ts(w, lift(t)), idx)))
        for o, nm, want in ((a, 'point', [g('a.x'), g('a.y')]),
                            (l, 'line', [[g('a.x'), g('a.y')], [g('b.x'), g('b.y')]])):
            def cells(v, want, at, f):
                for k, q in enumerate(want):
                    x = w.I.getitem(v, k)
                    if isinstance(q, list):
                        cells(x, q, '%s %d' % (at, k), f)
                    else:
                        ck.eq('coordinates as arrays', '%s %d' % (at, k), lift(w.elem(x)), f(q))
            cells(w.attr(o, 'as_array'), want, nm, lift)
            cells(w.meth(o, 'at', idx), want, nm + ' at an index', pick)
            cls = 'TsPointCoords' if nm == 'point' else 'TsLineCoords'
            m = w.mat('m', *([2] if nm == 'point' else [2, 2]))
            n = w.meth(w.get('geometry.timeseries.' + cls), 'from_array', m)
            els = m.elems
            pts = [n] if nm == 'point' else [w.attr(n, 'b1'), w.attr(n, 'b2')]
            for k, p in enumerate(pts):
                for j, c in enumerate(('x', 'y')):
                    ck.eq('coordinates from arrays', '%s: end %d %s' % (nm, k, c), lift(w.elem(
                        w.attr(p, c))), els[2 * k + j])

    cuts = [(1, None), (1, {0: {'front': 2, 'back': 3}}), (2, {1: {'back': 2}}), (3, None)]
    if ck.tier == 'thorough':
        cuts += [(4, {0: {'back': 2}, 3: {'front': 5}}), (6, None)]
    ck.par([('geometry', geometry), ('points', points)] + [('%d row(s), %s' % (n, c or 'not cut'),
                                    lambda n=n, c=c: array('%d row(s), %s' % (n, c or 'not cut'),
                                                           n, c)) for n, c in cuts])


@prop('P36')
def reports(ck):
    KEYS = (('qinc_front', 'front', 'qinc'), ('qinc_back', 'back', 'qinc'),
            ('iso_front', 'front', 'isotropic'), ('iso_back', 'back', 'isotropic'))

    def build(nm, n, cut, f):
        G = Geo(ck, n, cut)
        w = G.w
        for d in G.surf:
            w.meth(d['obj'], 'update_params', PyDict([(k, ts(w, sym('%s%s@t' % (k, d['index']))))
                                                      for k in ('qinc', 'isotropic')]))
        rep = w.call(w.I.getattr(w.get('report.ExampleReportBuilder'), 'build')
                     if f == 'class' else w.get('report.example_fn_build_report'), G.arr)
        keys = list(rep.keys()) if isinstance(rep, PyDict) else []
        ck.fact('entries of the report', '%s, %s' % (nm, f), set(keys) == set(k[0] for k in KEYS),
                '%s' % keys)
        for key, side, q in KEYS:
            if key not in keys:
                continue
            s, l = ZERO, ZERO
            for d in G.surf:
                if d.get('row') == 1 and d['side'] == side:
                    s = s + d['line'].length * sym('%s%s@t' % (q, d['index']))
                    l = l + d['line'].length
            v = rep.d[key]
            ck.fact('the report is made of lists', '%s, %s: %s' % (nm, f, key),
                    isinstance(v, PyList) or isinstance(v, NDArr) and v.kind == 'list',
                    'not a list')
            ck.eq('values of the report', '%s, %s: %s' % (nm, f, key), w.elem(v), s / l)

    def merge(k, alike=False):
        w = ck.world()
        val = (lambda key, i, j: sym('%s.%d' % (key, j))) if alike else (
            lambda key, i, j: sym('%s%d.%d' % (key, i, j)))
        size = (lambda i: 2) if alike else (lambda i: 1 + i % 2)
        reps = PyList([PyDict([(key[0], PyList([val(key[0], i, j) for j in range(size(i))]))
                               for key in KEYS]) for i in range(k)])
        out = w.call(w.I.getattr(w.get('report.ExampleReportBuilder'), 'merge'), reps)
        for key in KEYS:
            want = [val(key[0], i, j) for i in range(k) for j in range(size(i))]
            got = w.items(out.d[key[0]]) if isinstance(out, PyDict) and key[0] in out.d else []
            ck.fact('merged reports are the parts in order', '%d %sreports: %s' % (k, 'equal ' * alike, key[0]),
                    len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                    '%d values' % len(got))

    jobs = []
    for n, cut in ((2, None), (3, {1: {'front': 2}}), (2, {1: {'back': 3}})):
        for f in ('function', 'class'):
            jobs.append(('%d rows, %s, %s' % (n, cut, f), lambda n=n, cut=cut, f=f: build(
                '%d rows, %s' % (n, cut or 'not cut'), n, cut, f)))
    for k in (1, 2, 3, 5):
        jobs.append(('merge %d' % k, lambda k=k: merge(k)))
        jobs.append(('merge %d equal' % k, lambda k=k: merge(k, True)))
    ck.par(jobs)
