"""Modelling vectors: the values of the surfaces, in the order of their numbers, then the sky."""
from . import prop
from .irr import Sim, MODELS, RANGES, missing
from sa import terms as tm
from sa.world import *
from sa.obl import Section

NAMES = ('irradiance', 'reflectivity', 'inverse reflectivity', 'total Perez')
VALS = [('v:', 1., 9., ())] + RANGES


@prop('P34')
def vectors(ck):
    cut = {1: {'back': 2, 'front': 3}, 0: {'front': 2}}

    def job(name, model, n, faoi, ghi, arbitrary):
        S = Sim(ck, model, n, cut, faoi, ghi)
        w, m, arr = S.w, S.model, S.geo.arr
        comps = list(S.comps())
        names = comps + ['rho', 'inv_rho', 'total_perez'] + [c + '_absorbed' for c in comps]
        by = S.geo.by_index()
        order = [by.get(i) for i in range(S.geo.N - 1)]
        if any(d is None for d in order):
            ck.undecided('surfaces are numbered', name, 'see P19')
            return
        if arbitrary:
            for d in order:
                w.meth(d['obj'], 'update_params', PyDict(
                    [(k, NDArr((w.t,), [sym('v:%s:%d@t' % (k, d['index']))])) for k in names]))
        val = {}
        for d in order:
            for k in names:
                v = w.attr(d['obj'], 'params').d.get(k, UNDEF)
                if missing(ck, 'every surface has the values of the vectors',
                           '%s: %s, %s' % (name, d['name'], k), None if v is UNDEF else v):
                    return
                val[d['index'], k] = w.elem(v)
        total = lambda i, suf='': _sum(val[i, c + suf] for c in comps)
        iso = w.elem(w.attr(m, 'sky_luminance'))
        ck.eq('the sky luminance is the isotropic one', name, iso,
              S.P('luminance_isotropic') if S.hybrid else S.dhi, ranges=VALS)
        want = [[total(i) for i in range(len(order))] + [iso],
                [val[i, 'rho'] for i in range(len(order))] + [ONE],
                [val[i, 'inv_rho'] for i in range(len(order))] + [ONE],
                [val[i, 'total_perez'] for i in range(len(order))] + [iso]]

        def compare(at, got, want_, pick=lambda t: t):
            ck.fact('one value per surface, then the sky', at, len(got) == len(want_),
                    '%d values for %d entries' % (len(got), len(want_)))
            for i, (g, q) in enumerate(zip(got, want_)):
                lab = order[i]['name'] if i < len(order) else 'sky'
                ck.eq('vectors hold the values of the surfaces', '%s: %d, %s' % (at, i, lab),
                      w.elem(g), pick(q), ranges=VALS)

        def rows(v):
            if isinstance(v, NDArr):
                return [w.I.getitem(v, i) for i in range(int(w.np.scal(v.axes[0]).a[0])
                        if isinstance(v.axes[0], T) else int(v.axes[0]))]
            return w.items(v)

        def four(at, r, want_, pick=lambda t: t):
            r = w.items(r)
            ck.fact('four vectors', at, len(r) == 4, '%d vectors' % len(r))
            for nm, g, q in zip(NAMES, r, want_):
                compare('%s %s' % (at, nm), rows(g), q, pick)
        four(name + ', surfaces', w.meth(m, 'get_ts_modeling_vectors', arr),
             [q[:-1] for q in want])
        four(name + ', all', w.meth(m, 'get_full_ts_modeling_vectors', arr), want)
        idx = sym('idx')
        pick = lambda t: lift(w.elem(w.I.getitem(NDArr((w.t,), [t]), idx)))
        four(name + ', at an index', w.meth(m, 'get_full_modeling_vectors', arr, idx), want, pick)
        compare(name + ', summed', rows(w.meth(m, 'get_summed_components', arr, absorbed=False)),
                want[0][:-1])
        compare(name + ', summed absorbed',
                rows(w.meth(m, 'get_summed_components', arr, absorbed=True)),
                [total(i, '_absorbed') for i in range(len(order))])
        compare(name + ', summed by default', rows(w.meth(m, 'get_summed_components', arr)),
                [total(i, '_absorbed') for i in range(len(order))])
        for k in ('sky_term', 'other'):
            for d in order:
                before = dict(w.attr(d['obj'], 'params').d)
                kw = {} if k == 'sky_term' else {'name_sky_term': k}
                w.meth(m, 'update_ts_surface_sky_term', d['obj'], **kw)
                after = w.attr(d['obj'], 'params').d
                at = '%s: %s, %s' % (name, d['name'], k)
                if missing(ck, 'light from the sky on a surface', at, after.get(k)):
                    continue
                ck.eq('light from the sky on a surface', at, w.elem(after[k]),
                      total(d['index']), ranges=VALS)
                ck.fact('the other values stay', at, set(after) == set(before) | {k} and all(
                    after[x] is before[x] for x in before if x != k), 'changed')
    jobs = []
    for mod in MODELS:
        for n, faoi, ghi, arb in ((1, False, False, False), (2, True, True, True),
                                  (3, True, False, False), (3, False, False, True)):
            nm = '%s, %d rows%s%s%s' % (mod, n, ', angular functions' if faoi else '',
                                        ', GHI' if ghi else '', ', any values' if arb else '')
            jobs.append((nm, lambda nm=nm, a=(mod, n, faoi, ghi, arb): job(nm, *a)))
    ck.par(jobs)


def _sum(xs):
    s = ZERO
    for x in xs:
        s = s + x
    return s
