"""Snapshots: the geometry of one timestep holds the surfaces which exist then, as they are then."""
import itertools
import random
from fractions import Fraction as F
from . import prop
from .geo import Geo, P, L, ts
from sa import terms as tm
from sa.world import *
from sa.obl import Section

STEPS = [num(3), num(F(1, 1000)), num(2), num(F(1, 100000))]


class Scene(object):
    """array whose surfaces have known lengths at every timestep: everything else is arbitrary"""

    def __init__(self, ck, n, cut):
        self.G = G = Geo(ck, n, cut, chaos=False)
        w = self.w = G.w
        self.idx = sym('idx')
        self.other = PyDict([('a', ONE)])
        for nm in ('illum', 'shaded'):
            w.meth(G.ground, 'update_%s_params' % nm, PyDict([
                ('series', ts(w, sym('val%s@t' % nm))), ('number', sym('num' + nm)),
                ('nothing', None), ('mapping', self.other)]))
        for d in G.surf:
            i = d['index']
            w.I.setattr(d['obj'], 'params', PyDict([]))
            w.meth(d['obj'], 'update_params', PyDict([
                ('series', ts(w, sym('val%s@t' % i))), ('number', sym('num%s' % i)),
                ('nothing', None), ('mapping', self.other)]))
            if d['kind'] == 'row':
                nm = 'nv%d%s' % (d['row'], d['side'][0])
                w.I.setattr(d['obj'], 'n_vector', NDArr((2, w.t), [sym(nm + '.0@t'),
                                                                   sym(nm + '.1@t')]))
        self.y = w.elem(w.attr(G.ground, 'y_ground'))
        self.elements = {}
        for kind in ('shadow_elements', 'illum_elements'):
            for e, el in enumerate(w.items(w.attr(G.ground, kind))):
                self.elements[kind, e] = (el, [d for d in G.surf if d['kind'] == 'ground' and
                                               d['elkind'] == kind and d['el'] == e])
        self.nsh = sum(1 for k in self.elements if k[0][0] == 's')
        self.ordered = []
        for e in range(self.nsh):
            self.ordered += [('illum_elements', e), ('shadow_elements', e)]
        self.ordered.append(('illum_elements', self.nsh))

    def pick(self, t):
        return lift(self.w.elem(self.w.I.getitem(ts(self.w, lift(t)), self.idx)))

    def place(self, lit, shd):
        """lengths of the ground surfaces, from left to right (0 or 1 each)"""
        w = self.w
        x = sym('X@t')
        self.turn = k = getattr(self, 'turn', -1) + 1
        for key in self.ordered:
            el, ds = self.elements[key]
            bits = (shd if key[0][0] == 's' else lit)[key[1]]
            x0 = x
            for d, b in zip(ds, bits):
                x2 = x + STEPS[k % 4] if b else x       # long and short ones in turn
                k += bool(b)
                w.I.setattr(d['obj'], 'coords', L(w, P(w, ts(w, x), ts(w, self.y)),
                                                  P(w, ts(w, x2), ts(w, self.y))))
                d['x'], d['bit'] = (x, x2), b
                x = x2
            w.I.setattr(el, 'coords', L(w, P(w, ts(w, x0), ts(w, self.y)),
                                        P(w, ts(w, x), ts(w, self.y))))

    def place_row(self, r, ds, bits):
        w = self.w
        for d, b in zip(ds, bits):
            nm = 'r%d.%d' % (r, d['index'])
            x, y = sym(nm + '.x@t'), sym(nm + '.y@t')
            self.turn = k = getattr(self, 'turn', -1) + 1
            u = (ONE, num(F(1, 2000)))[k % 2]
            x2, y2 = (x + num(3) * u, y + num(4) * u) if b else (x, y)
            d.update(bit=b, xy=(x, y, x2, y2), isshaded=d['shaded'] is True)
            w.I.setattr(d['obj'], 'coords', L(w, P(w, ts(w, x), ts(w, y)),
                                              P(w, ts(w, x2), ts(w, y2))))

    def expect(self, key):
        return [d for d in self.elements[key][1] if d['bit']]

    # -------------------------------------------------------------- pictures
    def picture(self, s):
        w = self.w
        v = s.d.get('__xy__', UNDEF)
        if v is UNDEF:
            return None
        return dict(xy=[lift(e) for e in v.elems], shaded=w.attr(s, 'shaded'),
                    index=w.attr(s, 'index'), params=w.attr(s, 'params'),
                    n=w.attr(s, 'n_vector'))


def xy(S, d):
    if d['kind'] == 'ground':
        a, b = d['x']
        return [S.pick(a), S.pick(S.y), S.pick(b), S.pick(S.y)]
    return [S.pick(t) for t in d['xy']]


def same_surface(ck, S, at, p, d, normal=True):
    """p shows the surface d"""
    if p is None:
        ck.fact('a snapshot shows the surfaces where they are', at, False, 'no coordinates')
        return
    for k, g, q in zip(('b1.x', 'b1.y', 'b2.x', 'b2.y'), p['xy'], xy(S, d)):
        ck.eq('a snapshot shows the surfaces where they are', '%s: %s' % (at, k), g, q)
    ck.fact('a snapshot keeps the shading', at, p['shaded'] is d['isshaded'], 'other shading')
    ck.fact('a snapshot keeps the number of the surface', at, p['index'] == d['index'],
            'number %s instead of %s' % (p['index'], d['index']))
    values(ck, S, at, p, d['index'])
    if normal and d['kind'] == 'row':
        for k in (0, 1):
            ck.eq('a snapshot keeps the direction', '%s: %d' % (at, k),
                  lift(S.w.I.getitem(p['n'], k)),
                  S.pick(sym('nv%d%s.%d@t' % (d['row'], d['side'][0], k))))


def values(ck, S, at, p, i):
    q = p['params'].d if isinstance(p['params'], PyDict) else {}
    want = {'series': S.pick(sym('val%s@t' % i)), 'number': sym('num%s' % i)}
    for k, v in want.items():
        if k not in q:
            ck.fact('a snapshot keeps the values of the timestep', at, False, k + ' is lost')
            continue
        ck.eq('a snapshot keeps the values of the timestep', '%s: %s' % (at, k),
              lift(S.w.elem(q[k])), v)
    ck.fact('a snapshot keeps the values of the timestep', at + ': nothing',
            'nothing' in q and q['nothing'] is None, 'lost or changed')
    ck.fact('a snapshot keeps the values of the timestep', at + ': mapping',
            q.get('mapping') is S.other, 'lost or changed')


def compare(ck, S, at, got, want):
    got = [S.picture(s) for s in got]
    ck.fact('a snapshot shows every surface with a length, once', at, len(got) == len(want),
            '%d surfaces shown, %d exist' % (len(got), len(want)))
    if len(got) != len(want):
        return
    order = {d['index']: d for d in want}
    if all(p is not None and p['index'] in order for p in got) and \
            len(set(p['index'] for p in got)) == len(got):
        want = [order[p['index']] for p in got]
    for j, (p, d) in enumerate(zip(got, want)):
        same_surface(ck, S, '%s, %s' % (at, d['name']), p, d)


@prop('P26')
def snapshots(ck):
    def ground(name, n, cut, patterns):
        S = Scene(ck, n, cut)
        w, g = S.w, S.G.ground
        for d in S.G.surf:
            if d['kind'] == 'ground':
                d['isshaded'] = d['elkind'][0] == 's'
        g_at = lambda **kw: w.meth(g, 'at', S.idx, **kw)
        K = len(S.elements['illum_elements', 0][1])
        lo, hi = sym('x_min'), sym('x_max')
        cfg = w.I.module('pvfactors.config')
        for lit, shd in patterns(S.nsh, K):
            S.place(lit, shd)
            at0 = '%s, lengths %s' % (name, ' '.join(
                ('s' if k[0][0] == 's' else 'l') +
                ''.join(map(str, (shd if k[0][0] == 's' else lit)[k[1]])) for k in S.ordered))
            shown = {k: S.expect(k) for k in S.elements}
            all_l = [d for e in range(S.nsh + 1) for d in shown['illum_elements', e]]
            all_s = [d for e in range(S.nsh) for d in shown['shadow_elements', e]]
            inner = any(any(lit[e]) for e in range(1, S.nsh))
            for flag in (None, False, True):
                if flag and inner:
                    continue                    # overlapping shadows leave no light in between
                w.I.setattr(g, 'flag_overlap', None if flag is None else
                            NDArr((w.t,), [TRUE if flag else FALSE]))
                for merge in (True, False):
                    at = '%s, overlap %s%s' % (at0, flag, '' if merge else ', not merged')
                    w.reset()
                    pg = g_at(merge_if_flag_overlap=merge) if not merge else g_at()
                    seg = w.items(w.attr(pg, 'list_segments'))
                    ck.fact('the ground of a snapshot is one segment', at, len(seg) == 1,
                            '%d segments' % len(seg))
                    gl = w.items(w.attr(seg[0], 'illum_collection', 'list_surfaces'))
                    gs = w.items(w.attr(seg[0], 'shaded_collection', 'list_surfaces'))
                    compare(ck, S, at + ', lit', gl, all_l)
                    els = [k for k in S.ordered if k[0][0] == 's' and shown[k]]
                    if flag and merge and len(els) > 1:
                        groups, cur = [], []
                        for i, k in enumerate(els):
                            ds = shown[k]
                            for j, d in enumerate(ds):
                                cur.append(d)
                                if j < len(ds) - 1 or i == len(els) - 1:
                                    groups.append(cur)
                                    cur = []
                        chain(ck, S, at, gs, groups)
                    else:
                        compare(ck, S, at + ', shaded', gs, all_s)
                    ck.fact('every surface is listed', at,
                            len(w.items(w.attr(pg, 'all_surfaces'))) == len(gl) + len(gs),
                            'other number of surfaces')
                    whole(ck, S, at, g_at, flag, merge, shown)
            ext = [(None, (lift(w.I.getattr(cfg, 'MIN_X_GROUND')),
                           lift(w.I.getattr(cfg, 'MAX_X_GROUND')))), ((lo, hi), (lo, hi))]
            for given, want in ext:
                for cp in (True, False):
                    pg = g_at(x_min_max=given, with_cut_points=cp)
                    o = w.attr(pg, 'original_linestring').d['__xy__'].elems
                    yy = w.elem(w.attr(g, 'y_ground'))
                    for k, a, b in zip(('left', 'level', 'right', 'level'), o,
                                       (want[0], yy, want[1], yy)):
                        ck.eq('extent of the ground', '%s, %s, cut %s: %s' % (at0, given and
                                                                             'given', cp, k),
                              lift(a), b)
            # surfaces of single elements, and lists of what exists
            lists(ck, S, at0, shown, all_l, all_s)

    def chain(ck, S, at, got, groups):
        got = [S.picture(s) for s in got]
        ck.fact('overlapping shadows are shown as one chain', at, len(got) == len(groups),
                '%d pieces instead of %d' % (len(got), len(groups)))
        if len(got) != len(groups):
            return
        for p, ds in zip(got, groups):
            a2 = '%s, %s' % (at, ' + '.join(d['name'] for d in ds))
            if len(ds) == 1:
                same_surface(ck, S, a2, p, ds[0])
                continue
            want = xy(S, ds[0])[:2] + xy(S, ds[-1])[2:]
            for k, g, q in zip(('b1.x', 'b1.y', 'b2.x', 'b2.y'), p['xy'], want):
                ck.eq('overlapping shadows are shown as one chain', '%s: %s' % (a2, k), g, q)
            ck.fact('a snapshot keeps the shading', a2, p['shaded'] is True, 'other shading')
            ck.fact('a merged shadow has the number and the values of a surface it covers', a2,
                    p['index'] in [d['index'] for d in ds], 'number %s' % p['index'])
            if p['index'] in [d['index'] for d in ds]:
                values(ck, S, a2, p, p['index'])

    def whole(ck, S, at, g_at, flag, merge, shown):
        """without cut points: one surface per element"""
        w, g = S.w, S.G.ground
        pg = g_at(merge_if_flag_overlap=merge, with_cut_points=False)
        seg = w.items(w.attr(pg, 'list_segments'))[0]
        for kind, col, up in (('illum_elements', 'illum_collection', False),
                              ('shadow_elements', 'shaded_collection', True)):
            els = [k for k in S.ordered if k[0] == kind and shown[k]]
            spans = [S.elements[k][1] for k in els]
            if up and flag and merge and len(els) > 1:
                spans = [spans[0] + spans[-1]]
            got = [S.picture(s) for s in w.items(w.attr(seg, col, 'list_surfaces'))]
            a2 = '%s, without cut points, %s' % (at, col[:-11])
            ck.fact('without cut points every element is one surface', a2, len(got) == len(spans),
                    '%d surfaces instead of %d' % (len(got), len(spans)))
            if len(got) != len(spans):
                continue
            for p, ds in zip(got, spans):
                want = [S.pick(ds[0]['x'][0]), S.pick(S.y), S.pick(ds[-1]['x'][1]), S.pick(S.y)]
                for k, x, q in zip(('b1.x', 'b1.y', 'b2.x', 'b2.y'), p['xy'], want):
                    ck.eq('without cut points every element is one surface', '%s, %s: %s' % (
                        a2, ds[0]['name'], k), x, q)
                values(ck, S, '%s, %s' % (a2, ds[0]['name']), p, 'shaded' if up else 'illum')
                ck.fact('a snapshot keeps the shading', a2, p['shaded'] is up, 'other shading')

    def lists(ck, S, at, shown, all_l, all_s):
        w, g = S.w, S.G.ground
        for nm, want in (('non_point_shaded_surfaces_at', all_s),
                         ('non_point_illum_surfaces_at', all_l),
                         ('non_point_surfaces_at', all_l + all_s)):
            compare(ck, S, '%s, %s' % (at, nm), w.items(w.meth(g, nm, S.idx)), want)
        ck.eq('number of surfaces with a length', at, lift(w.meth(g, 'n_non_point_surfaces_at',
                                                                   S.idx)),
              num(len(all_l) + len(all_s)))
        for k, (el, ds) in S.elements.items():
            compare(ck, S, '%s, element %s' % (at, k), w.items(
                w.meth(el, 'non_point_surfaces_at', S.idx)), shown[k])
            ps = w.items(w.meth(el, 'surfaces_at', S.idx))
            ck.fact('one geometry for every surface of the element', '%s, %s' % (at, k),
                    len(ps) == len(ds), '%d for %d' % (len(ps), len(ds)))
            for p, d in zip(ps, ds):
                if d['bit']:
                    same_surface(ck, S, '%s, surfaces_at %s, %s' % (at, k, d['name']),
                                 S.picture(p), d)
                else:
                    ck.fact('a surface without length is shown as nothing', '%s, %s' % (
                        at, d['name']), w.attr(p, 'is_empty') in (True, TRUE), 'something')

    def rows(name, n, cut):
        S = Scene(ck, n, cut)
        w = S.w
        for r, row in enumerate(S.G.rows):
            ds = [d for d in S.G.surf if d.get('row') == r]
            sides = {s: [d for d in ds if d['side'] == s] for s in ('front', 'back')}
            full = L(w, *[P(w, ts(w, sym('full.%s.x@t' % q)), ts(w, sym('full.%s.y@t' % q)))
                          for q in ('b1', 'b2')])
            w.I.setattr(row, 'full_pvrow_coords', full)
            bits = list(itertools.product((0, 1), repeat=len(ds)))
            rnd = random.Random(7)
            if len(bits) > 70:
                bits = [bits[0], bits[-1]] + rnd.sample(bits[1:-1], 66)
            for bs in bits:
                S.place_row(r, ds, bs)
                at = '%s, row %d, lengths %s' % (name, r, ''.join(map(str, bs)))
                w.reset()
                pv = w.meth(row, 'at', S.idx)
                ck.fact('number of the row', at, w.attr(pv, 'index') == w.attr(row, 'index') and
                        w.attr(pv, 'index') == r, 'row %s' % w.attr(pv, 'index'))
                o = w.attr(pv, 'original_linestring').d['__xy__'].elems
                for k, e, q in zip(range(4), o, [sym('full.%s@t' % q) for q in (
                        'b1.x', 'b1.y', 'b2.x', 'b2.y')]):
                    ck.eq('the whole row is shown where it is', '%s: %d' % (at, k), lift(e),
                          S.pick(q))
                seen = []
                for s in ('front', 'back'):
                    tsd = w.attr(row, s)
                    segs = w.items(w.attr(pv, s, 'list_segments'))
                    nseg = 1 + max(d['seg'] for d in sides[s])
                    ck.fact('segments of the side', '%s %s' % (at, s), len(segs) == nseg,
                            '%d instead of %d' % (len(segs), nseg))
                    for k, seg in enumerate(segs[:nseg]):
                        for col, up in (('illum_collection', False), ('shaded_collection', True)):
                            q = [d for d in sides[s] if d['seg'] == k and d['isshaded'] is up and
                                 d['bit']]
                            c = w.attr(seg, col)
                            compare(ck, S, '%s, %s segment %d %s' % (at, s, k, col[:-11]),
                                    w.items(w.attr(c, 'list_surfaces')), q)
                            ck.fact('collections keep their shading', '%s, %s segment %d' % (
                                at, s, k), w.attr(c, 'shaded') is up, 'other shading')
                        tseg = w.items(w.attr(tsd, 'list_segments'))[k]
                        a3 = '%s, %s segment %d' % (at, s, k)
                        compare(ck, S, a3 + ' alone', w.items(
                            w.meth(tseg, 'surfaces_at_idx', S.idx)),
                            [d for d in sides[s] if d['seg'] == k and d['bit']])
                        ck.fact('number of the segment', a3, w.attr(seg, 'index') ==
                                w.attr(tseg, 'index'), 'segment %s' % w.attr(seg, 'index'))
                    q = [d for d in sides[s] if d['bit']]
                    compare(ck, S, '%s, %s alone' % (at, s), w.items(
                        w.meth(tsd, 'surfaces_at_idx', S.idx)), q)
                    seen += q
                compare(ck, S, at + ', all', w.items(w.meth(row, 'surfaces_at_idx', S.idx)), seen)
                for d in ds:
                    one = w.meth(d['obj'], 'at', S.idx)
                    if d['bit']:
                        same_surface(ck, S, '%s, %s alone' % (at, d['name']), S.picture(one), d)
                    else:
                        ck.fact('a surface without length is shown as nothing', '%s, %s' % (
                            at, d['name']), w.attr(one, 'is_empty') in (True, TRUE), 'something')

    def existence(n, cut):
        # lengths which come and go: the one of the index counts
        S = Scene(ck, n, cut)
        w = S.w
        g = S.G.ground
        nows = {}
        for d in S.G.surf:
            nm = 'e%s' % d['index']
            now = nows[d['index']] = tm.bsym(nm + '.now@t')
            x, y = sym(nm + '.x@t'), sym(nm + '.y@t')
            if d['kind'] == 'ground':
                y = S.y
            w.I.setattr(d['obj'], 'coords', L(w, P(w, ts(w, x), ts(w, y)), P(
                w, ts(w, x + ite(now, num(3), ZERO)),
                ts(w, y + (ite(now, num(4), ZERO) if d['kind'] != 'ground' else ZERO)))))
            one = w.meth(d['obj'], 'at', S.idx)
            ck.eq('a surface is shown when it has a length at the index', d['name'],
                  ite(lift(w.I.truth(w.attr(one, 'is_empty'))), ZERO, ONE),
                  S.pick(ite(now, ONE, ZERO)))
            ck.eq('length of the surface shown', d['name'], lift(w.elem(w.attr(one, 'length'))),
                  S.pick(ite(now, num(3 if d['kind'] == 'ground' else 5), ZERO)))
        if n > 1:
            return
        tot = ZERO
        for d in S.G.surf:
            if d['kind'] == 'ground':
                tot = tot + S.pick(ite(nows[d['index']], ONE, ZERO))
        ck.eq('number of surfaces with a length', 'at an index', lift(
            w.meth(g, 'n_non_point_surfaces_at', S.idx)), tot)

    def every(nsh, K):
        allb = list(itertools.product((0, 1), repeat=K))
        lit0 = [allb[-1]] + [allb[0]] * (nsh - 1) + [allb[-1]]
        for shd in itertools.product(allb, repeat=nsh):
            yield lit0, list(shd)

    def some(count, seed):
        def f(nsh, K):
            rnd = random.Random(seed)
            allb = list(itertools.product((0, 1), repeat=K))
            for i in range(count):
                lit = [rnd.choice(allb) for _ in range(nsh + 1)]
                if i % 2:
                    lit[1:-1] = [allb[0]] * (nsh - 1)
                shd = [rnd.choice(allb) if rnd.random() < .8 else allb[0] for _ in range(nsh)]
                yield lit, shd
        return f
    many = 150 if ck.tier == 'thorough' else 15
    jobs = [('existence, 1 row', lambda: existence(1, None)),
            ('existence', lambda: existence(2, {0: {'front': 2}})),
            ('ground, 1 row', lambda: ground('ground, 1 row', 1, None, every)),
            ('ground, 2 rows, shadows', lambda: ground('ground, 2 rows', 2, None, every)),
            ('rows', lambda: rows('2 rows', 2, {0: {'front': 2, 'back': 1}})),
            ('rows, cut', lambda: rows('3 rows', 3, {1: {'back': 3}, 2: {'front': 2}}))]
    for n in (2, 3, 4):
        nm = 'ground, %d rows, any lengths' % n
        jobs.append((nm, lambda nm=nm, n=n: ground(nm, n, None, some(many, n))))
    ck.par(jobs)
