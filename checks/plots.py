"""Plots: what is drawn is what exists at the timestep."""
from . import prop
from .geo import L, P, ts
from .snap import Scene
from sa import terms as tm
from sa.world import *

ENDS = ('b1.x', 'b1.y', 'b2.x', 'b2.y')


def seq(w, v):
    """coordinates handed to the axes, one by one"""
    if isinstance(v, NDArr):
        return [lift(e) for e in v.elems]
    if isinstance(v, (PyList, tuple)):
        return [lift(e) for e in w.items(v)]
    return [lift(v)]


class Canvas(object):
    """axes which write down what is drawn"""

    def __init__(self, w):
        self.w = w
        self.ax = Token('ax')
        w.reset()

    def read(self):
        """lines drawn, markers, texts"""
        w = self.w
        lines, marks, texts = [], [], []
        for e in w.I.events:
            if e[0] != 'call' or not e[1].startswith('ax.'):
                continue
            nm, args, kw, cond = e[1][3:], e[2], e[3], e[5]
            if nm == 'plot':
                xy = [seq(w, a) for a in args[:2]]
                fmt = args[2] if len(args) > 2 else kw.get('marker', '')
                pts = list(zip(*xy)) if len(xy) == 2 else []
                if isinstance(fmt, str) and fmt.strip('.,ov^<>s*+xDd') == '' and fmt:
                    marks.append((pts, cond))
                else:
                    lines.append((pts, kw.get('color', kw.get('c')), cond))
            elif nm in ('text', 'annotate'):
                if nm == 'text':
                    x, y, s = [args[i] if len(args) > i else kw.get('xys'[i]) for i in range(3)]
                    texts.append((lift(w.elem(x)), lift(w.elem(y)), s, cond))
                else:
                    texts.append((None, None, args[0] if args else kw.get('text'), cond))
        return lines, marks, texts


@prop('P33')
def plots(ck):
    def ends(w, s):
        v = s.d.get('__xy__', UNDEF)
        return None if v is UNDEF else [lift(e) for e in v.elems]

    def drawn(w, at, cv, want, labels, complete=True):
        """want: [(ends, colour, number, normal or None)]"""
        lines, marks, texts = cv.read()
        ck.fact('every surface is drawn once', at, len(lines) == len(want),
                '%d lines for %d surfaces' % (len(lines), len(want)))
        left = list(lines)
        corners = []
        for xy, col, index, nrm in want:
            pts = [(xy[0], xy[1]), (xy[2], xy[3])]
            corners += pts
            near = [l for l in left if len(l[0]) == 2 and
                    (all(p[k] is q[k] for p, q in zip(l[0], pts) for k in (0, 1)) or
                     all(p[k] is q[k] for p, q in zip(l[0][::-1], pts) for k in (0, 1)))]
            same = [l for l in near if l[1] == col] or near
            a2 = '%s, surface %s' % (at, index)
            if not same:
                same = left[:1]
                if not same or len(same[0][0]) != 2:
                    ck.fact('surfaces are drawn where they are', a2, False, 'not drawn')
                    continue
                for k, g, q in zip(ENDS, same[0][0][0] + same[0][0][1], xy):
                    ck.eq('surfaces are drawn where they are', '%s: %s' % (a2, k), g, q)
            else:
                ck.fact('surfaces are drawn where they are', a2, True)
            left = [l for l in left if l is not same[0]]
            ck.fact('surfaces are drawn in the colour of their kind', a2, same[0][1] == col,
                    'colour %s, required %s' % (same[0][1], col))
            ck.holds('surfaces are always drawn', a2, same[0][2])
            if labels is None:
                continue
            mine = [t for t in texts if t[2] == str(index)]
            if not labels:
                ck.fact('no numbers unless asked for', a2, not texts, 'numbers are drawn')
                continue
            ck.fact('numbers of the surfaces', a2, len(mine) == 1, '%d labels' % len(mine))
            if len(mine) == 1 and mine[0][0] is not None and nrm is not None:
                cfg = w.I.module('pvfactors.config')
                al, far = lift(w.I.getattr(cfg, 'ALPHA_TEXT')), lift(
                    w.I.getattr(cfg, 'MAX_X_GROUND')) * num(1) / num(2)
                r = tm.app('sqrt', nrm[0] * nrm[0] + nrm[1] * nrm[1])
                x, y = [(xy[k] + xy[k + 2]) * num(1) / num(2) + al * nrm[k] / r for k in (0, 1)]
                ck.eq('numbers next to the surfaces', a2 + ': x', mine[0][0], x)
                ck.eq('numbers next to the surfaces', a2 + ': y', mine[0][1], y)
                ck.eq('numbers of the surfaces in the range plotted', a2,
                      ite(mine[0][3], ONE, ZERO), ite(tm.app('abs', x) < far, ONE, ZERO))
        if labels:
            ck.fact('numbers of the surfaces', at, len(texts) == len(want),
                    '%d labels for %d surfaces' % (len(texts), len(want)))
        known = set((id(p[0]), id(p[1])) for p in corners)
        ck.fact('markers are at the ends of surfaces', at, all(
            (id(p[0]), id(p[1])) in known for pts, _ in marks for p in pts), 'elsewhere')

    # ------------------------------------------------------------------ one timestep
    def one(number):
        w = ck.world()

        def surface(i, shaded):
            nm = 's%d' % i
            xy = [sym('%s.%s' % (nm, k)) for k in ENDS]
            s = w.call('geometry.base.PVSurface', PyList([(xy[0], xy[1]), (xy[2], xy[3])]),
                       shaded=shaded, index=i,
                       normal_vector=PyList([sym(nm + '.n0'), sym(nm + '.n1')]))
            return s, (xy, i, [sym(nm + '.n0'), sym(nm + '.n1')])
        S = {}
        for i in range(9):
            S[i] = surface(i, i % 2 == 1)
        W = lambda i, c: (S[i][1][0], c, S[i][1][1], S[i][1][2])

        def C(shaded, ids):
            return w.call('geometry.base.ShadeCollection', PyList([S[i][0] for i in ids]),
                          shaded=shaded)

        def seg(a, b):
            return w.call('geometry.base.PVSegment', illum_collection=C(False, a),
                          shaded_collection=C(True, b))
        cfg = w.I.getattr(w.I.module('pvfactors.config'), 'COLOR_DIC')
        cd = {k: w.I.getitem(cfg, k) for k in ('pvrow_shaded', 'pvrow_illum', 'ground_shaded',
                                               'ground_illum')}
        ck.fact('kinds of surfaces can be told apart', 'colours', all(
            isinstance(c, str) for c in cd.values()) and cd['pvrow_shaded'] != cd['pvrow_illum']
            and cd['ground_shaded'] != cd['ground_illum'], 'same colours')

        def go(at, o, want, default=None, **kw):
            for flag in (False, True, None):
                cv = Canvas(w)
                k2 = dict(kw) if flag is None else dict(kw, with_index=flag)
                w.meth(o, 'plot', cv.ax, **k2)
                drawn(w, '%s, numbers %s' % (at, flag), cv, want, bool(flag))
        go('surface', S[2][0], [W(2, 'c')], color='c')
        cv = Canvas(w)
        w.meth(S[4][0], 'plot', cv.ax, 'q', True)
        drawn(w, 'surface, positional', cv, [W(4, 'q')], True)
        go('collection', C(False, (2, 4)), [W(2, 'c'), W(4, 'c')], color='c')
        sg = seg((0, 2), (1, 3))
        go('segment', sg, [W(0, 'i'), W(2, 'i'), W(1, 's'), W(3, 's')], color_shaded='s',
           color_illum='i')
        go('segment, default colours', sg, [W(k, cd['pvrow_shaded' if k % 2 else 'pvrow_illum'])
                                            for k in (0, 1, 2, 3)])
        mk_side = lambda: w.call('geometry.pvrow.PVRowSide', PyList([seg((0,), (1, 3)),
                                                                     seg((2,), ())]))
        side = mk_side()
        go('side', side, [W(k, 's' if k % 2 else 'i') for k in (0, 1, 2, 3)], color_shaded='s',
           color_illum='i')
        go('side, default colours', side, [W(k, cd['pvrow_shaded' if k % 2 else 'pvrow_illum'])
                                           for k in (0, 1, 2, 3)])
        back = w.call('geometry.pvrow.PVRowSide', PyList([seg((4, 6), (5,))]))
        row = w.call('geometry.pvrow.PVRow', front_side=side, back_side=back)
        go('row', row, [W(k, 's' if k % 2 else 'i') for k in range(7)], color_shaded='s',
           color_illum='i')
        go('row, default colours', row, [W(k, cd['pvrow_shaded' if k % 2 else 'pvrow_illum'])
                                         for k in range(7)])
        # the objects are as before
        for i in range(7):
            ck.fact('plotting changes nothing', 'surface %d' % i, all(
                a is b for a, b in zip(ends(w, S[i][0]), S[i][1][0])) and
                w.attr(S[i][0], 'index') == i and w.attr(S[i][0], 'shaded') is (i % 2 == 1),
                'changed')

    # ------------------------------------------------------------------ at an index
    def array(nm, n, cut, patterns):
        S = Scene(ck, n, cut)
        w, G = S.w, S.G
        cfg = w.I.getattr(w.I.module('pvfactors.config'), 'COLOR_DIC')
        col = lambda k, sh: w.I.getitem(cfg, k + ('_shaded' if sh else '_illum'))
        for d in G.surf:
            if d['kind'] == 'ground':
                d['isshaded'] = d['elkind'][0] == 's'
        w.I.setattr(G.ground, 'flag_overlap', NDArr((w.t,), [FALSE]))
        K = len(S.elements['illum_elements', 0][1])
        for j, pat in enumerate(patterns):
            pick = lambda q: pat(j, q)
            lit = [[pick((e, k, 0)) for k in range(K)] for e in range(S.nsh + 1)]
            shd = [[pick((e, k, 1)) for k in range(K)] for e in range(S.nsh)]
            S.place(lit, shd)
            for r in range(n):
                ds = [d for d in G.surf if d.get('row') == r]
                S.place_row(r, ds, [pick((r, k, 2)) for k in range(len(ds))])
            at = '%s, lengths %d' % (nm, j)

            def wanted(ss, a=None, b=None, kind=None):
                out = []
                for d in ss:
                    if not d['bit']:
                        continue
                    if d['kind'] == 'ground':
                        p, q = d['x']
                        xy = [S.pick(p), S.pick(S.y), S.pick(q), S.pick(S.y)]
                    else:
                        xy = [S.pick(t) for t in d['xy']]
                    c = (b if d['isshaded'] else a) if a else \
                        col(kind or ('pvrow' if d['kind'] == 'row' else 'ground'), d['isshaded'])
                    out.append((xy, c, d['index'], None))
                return out

            def go(a2, o, ss, flags=(None,), key='with_surface_index', kind=None, col3=None, **kw):
                for flag in flags:
                    for own in (False, True):
                        cv = Canvas(w)
                        k2 = dict(kw)
                        if flag is not None:
                            k2[key] = flag
                        if own and o is G.arr:
                            continue
                        if own:
                            k2.update(color_shaded='S', color_illum='I')
                        w.meth(o, 'plot_at_idx', S.idx, cv.ax, **k2)
                        drawn(w, '%s, %s, numbers %s%s' % (at, a2, flag, ', own colours' if own
                                                           else ''), cv,
                              wanted(ss, *(('I', 'S') if own else ()), kind=kind), bool(flag))
            grd = [d for d in G.surf if d['kind'] == 'ground']
            go('array', G.arr, G.surf, (None, False, True))
            go('ground', G.ground, grd, (None, False, True), kind='pvrow')
            for r, row in enumerate(G.rows):
                rs = [d for d in G.surf if d.get('row') == r]
                go('row %d' % r, row, rs, (None, True))
                for s in ('front', 'back'):
                    ds = [d for d in rs if d['side'] == s]
                    go('row %d %s' % (r, s), w.attr(row, s), ds)
                    for k, seg in enumerate(w.items(w.attr(row, s, 'list_segments'))):
                        go('row %d %s segment %d' % (r, s, k), seg,
                           [d for d in ds if d['seg'] == k])
            for d in G.surf:
                cv = Canvas(w)
                w.meth(d['obj'], 'plot_at_idx', S.idx, cv.ax, 'K')
                drawn(w, '%s, %s' % (at, d['name']), cv, wanted([d], 'K', 'K'), None)

    def options(nm, n, cut):
        """the drawing follows the options like the snapshot does, and shows all rows"""
        S = Scene(ck, n, cut)
        w, G = S.w, S.G
        cfg = w.I.getattr(w.I.module('pvfactors.config'), 'COLOR_DIC')
        col = lambda k, sh: w.I.getitem(cfg, k + ('_shaded' if sh else '_illum'))
        K = len(S.elements['illum_elements', 0][1])
        for j in range(3):
            on = (1,) * K
            lit = [on] + [on if j == 2 else (0,) * K] * (S.nsh - 1) + [on]
            S.place(lit, [on if (e + j) % 2 == 0 or j == 1 else (1,) + (0,) * (K - 1)
                          for e in range(S.nsh)])
            for r in range(n):
                ds = [d for d in G.surf if d.get('row') == r]
                S.place_row(r, ds, [(j + k) % 2 for k in range(len(ds))])
            rows = []
            for d in G.surf:
                if d['kind'] == 'row' and d['bit']:
                    rows.append(([S.pick(t) for t in d['xy']], col('pvrow', d['isshaded']),
                                 d['index'], None))
            for flag in (False, True):
                if flag and j == 2:
                    continue
                w.I.setattr(G.ground, 'flag_overlap', NDArr((w.t,), [TRUE if flag else FALSE]))
                for kw in ({}, dict(merge_if_flag_overlap=False), dict(with_cut_points=False),
                           dict(merge_if_flag_overlap=False, with_cut_points=False),
                           dict(merge_if_flag_overlap=True, with_cut_points=True)):
                    pg = w.meth(G.ground, 'at', S.idx, **kw)
                    want = []
                    for s in w.items(w.attr(pg, 'all_surfaces')):
                        q = S.picture(s)
                        want.append((q['xy'], q['shaded'], q['index'], None))
                    at = '%s, case %d, overlap %s, %s' % (nm, j, flag, ', '.join(
                        '%s=%s' % x for x in sorted(kw.items())) or 'default')
                    for o, kind, more in ((G.arr, 'ground', rows), (G.ground, 'pvrow', [])):
                        cv = Canvas(w)
                        w.meth(o, 'plot_at_idx', S.idx, cv.ax, **kw)
                        drawn(w, '%s, %s' % (at, 'array' if more else 'ground'), cv,
                              [(a, col(kind, b), c, d) for a, b, c, d in want] + more, False)
        cv = Canvas(w)
        w.meth(G.arr, 'plot_at_idx', S.idx, cv.ax)
        lim = {}
        for e in w.I.events:
            if e[0] == 'call' and e[1] in ('ax.set_xlim', 'ax.set_ylim'):
                v = [lift(w.elem(x)) for a in e[2] for x in (
                    w.items(a) if isinstance(a, (PyList, tuple)) else [a])]
                v += [lift(w.elem(e[3][k])) for k in e[3] if k in (
                    'left', 'right', 'bottom', 'top', 'xmin', 'xmax', 'ymin', 'ymax')]
                lim[e[1]] = v
        d, h, wd = [lift(w.elem(w.attr(G.arr, q))) for q in ('distance', 'height', 'width')]
        hyp = tm.land(d > 0, h > 0, wd > 0, wd <= d, wd <= num(2) * h)
        R = [('gcr', .1, 1., (1.,)), ('width', .5, 3., ()), ('height', .5, 3., ())]
        for k, lo, hi in (('ax.set_xlim', ZERO - wd / num(2), num(n - 1) * d + wd / num(2)),
                          ('ax.set_ylim', ZERO, h + wd / num(2))):
            if len(lim.get(k, ())) == 2:
                for what, c in (('from', lim[k][0] <= lo), ('to', lim[k][1] >= hi)):
                    ck.holds('the part shown holds every row and the ground below',
                             '%s: %s %s' % (nm, k, what), c, hyp=hyp, ranges=R)

    def existence():
        S = Scene(ck, 1, {0: {'front': 2}})
        w, G = S.w, S.G
        for r in range(1):
            S.place_row(r, [d for d in G.surf if d.get('row') == r], [1] * len(G.surf))
        S.place([[1] * 9] * 9, [[1] * 9] * 9)
        for d in G.surf:
            nm = 'e%s' % d['index']
            now = tm.bsym(nm + '.now@t')
            x, y = sym(nm + '.x@t'), sym(nm + '.y@t')
            w.I.setattr(d['obj'], 'coords', L(w, P(w, ts(w, x), ts(w, y)), P(
                w, ts(w, x + ite(now, num(3), ZERO)), ts(w, y + ite(now, num(4), ZERO)))))
            cv = Canvas(w)
            w.meth(d['obj'], 'plot_at_idx', S.idx, cv.ax, 'K')
            lines, marks, _ = cv.read()
            ck.fact('every surface is drawn once', d['name'], len(lines) == 1,
                    '%d lines' % len(lines))
            want = S.pick(ite(now, ONE, ZERO))
            for l in lines:
                ck.eq('surfaces are drawn when they have a length at the index', d['name'],
                      ite(l[2], ONE, ZERO), want)

    on = lambda j, q: 1
    mixed = lambda j, q: (7 * q[0] + 3 * q[1] + 5 * q[2] + 11 * j + q[0] * q[1]) // 2 % 2
    few = [on] + [mixed] * (12 if ck.tier == 'thorough' else 3)
    ck.par([('options, %d rows' % n, lambda n=n, c=c: options('options, %d rows' % n, n, c))
            for n, c in ((1, None), (2, {0: {'back': 2}}), (3, None))] + [
            ('one timestep', lambda: one(0)), ('existence', existence),
            ('1 row', lambda: array('1 row', 1, {0: {'front': 2}}, few)),
            ('2 rows', lambda: array('2 rows', 2, {1: {'back': 2}}, few)),
            ('3 rows', lambda: array('3 rows', 3, None, few[:3]))])
