"""Full- and fast-mode irradiance balance (PVEngine)."""
from . import prop
from sa import terms as tm
from sa.world import *
from sa.obl import Section

CALC = 'pvfactors.viewfactors.calculator.VFCalculator.'
RANGES = [('F[', 0.0, 0.04, (0.,)), ('A[', 0.0, 0.04, (0.,)), ('rho', 0.05, 0.9, (1e-4, 1.)),
          ('albedo', 0.05, 0.9, (1e-4, 1.)), ('irr:', 0.0, 900.0, (0., -5.)),
          ('DNI', -5, 900., (0.,)), ('DHI', -5, 400., (0.,)), ('zenith', 0, 120., (90., 0.)),
          ('V[', 0.0, 0.2, (0.,))]
# a surface that reflects nothing is fine in fast mode, which does not divide by reflectivities
FRANGES = [('rho', 0.05, 0.9, (0.,)), ('albedo', 0.05, 0.9, (0.,))] + RANGES


class Eng(object):
    """engine fitted on an arbitrary timestep; view factors and surface irradiance havocked."""

    def __init__(self, ck, n, model='HybridPerezOrdered', cut=None, stub_aoi=False, ctor=None,
                 havoc=True, model_kw=None, ghi=False):
        self.events = []
        me = self
        self.N = None

        def vfm(I, a, k):
            self_, arr = a[0], (a[1] if len(a) > 1 else k['pvarray'])
            N = me.w.attr(arr, 'n_ts_surfaces') + 1
            m = me.w.mat('F', N, N)
            for j in range(N):          # the sky does not receive, surfaces do not see themselves
                m.store.d[(N - 1) * N + j] = ZERO
                m.store.d[j * N + j] = ZERO
            I.setattr(self_, 'vf_matrix', m)
            me.events.append('vf')
            return m

        def aoi(I, a, k):
            N = me.N
            me.events.append('aoi')
            return me.w.mat('A', N, N)
        st = {CALC + 'build_ts_vf_matrix': vfm}
        if stub_aoi:
            st[CALC + 'build_ts_vf_aoi_matrix'] = aoi
        w = self.w = ck.world(stubs=st)
        self.arr = w.pvarray(n, cut)
        self.model = w.model(model, **dict(w.params(), **(model_kw or {})))
        self.calc = w.call('viewfactors.VFCalculator')
        self.eng = w.call('engine.PVEngine', self.arr, irradiance_model=self.model,
                          vf_calculator=self.calc, **(ctor or {}))
        a, kw = w.fit_args(ghi)
        w.meth(self.eng, 'fit', *a, **kw)
        self.N = w.attr(self.arr, 'n_ts_surfaces') + 1
        self.surfs = w.items(w.attr(self.arr, 'all_ts_surfaces'))
        self.comps = [c for c in w.items(w.attr(self.model, 'irradiance_comp'))]
        self.comps_abs = [c for c in w.items(w.attr(self.model, 'irradiance_comp_absorbed'))]
        self.sky = w.elem(w.attr(self.model, 'sky_luminance'))
        self.F = [[ZERO if i == j or i == self.N - 1 else sym('F[%d,%d]@t' % (i, j))
                   for j in range(self.N)] for i in range(self.N)]
        self.A = [[sym('A[%d,%d]@t' % (i, j)) for j in range(self.N)] for i in range(self.N)]
        if havoc:
            for i, s in enumerate(self.surfs):
                d = []
                for c in self.comps + self.comps_abs:
                    d.append((c, w.ts('irr:%s[%d]' % (c, i), own=False)))
                d.append(('rho', w.ts('rho[%d]' % i, own=False)))
                d.append(('inv_rho', NDArr((w.t,), [tm.recip(sym('rho[%d]@t' % i))])))
                w.meth(s, 'update_params', PyDict(d))

    def irr(self, i, comps=None):
        r = ZERO
        for c in comps or self.comps:
            r = r + sym('irr:%s[%d]@t' % (c, i))
        return r

    def rho(self, i):
        return sym('rho[%d]@t' % i)

    def param(self, s, name):
        p = self.w.attr(s, 'params')
        v = p.d.get(name, UNDEF)
        return None if v is UNDEF else self.w.elem(v)

    def balance(self):
        """solution of  q0_i / rho_i - sum_j F_ij q0_j = irradiance_i  (sky: rho = 1)"""
        N = self.N
        els = []
        for i in range(N):
            for j in range(N):
                d = ZERO
                if i == j:
                    d = ONE if i == N - 1 else tm.recip(self.rho(i))
                els.append(d - self.F[i][j])
        mat = mk('app', 'mat', num(N), *els)
        irr = [self.irr(i) for i in range(N - 1)] + [self.sky]
        q0 = []
        for i in range(N):
            s = ZERO
            for j in range(N):
                s = s + mk('app', 'inv', mat, num(i), num(j)) * irr[j]
            q0.append(s)
        return q0, irr


CONFIGS = [(1, 'HybridPerezOrdered', None), (2, 'IsotropicOrdered', None),
           (2, 'HybridPerezOrdered', {1: {'back': 2}}), (3, 'IsotropicOrdered', {0: {'front': 2}}),
           (3, 'HybridPerezOrdered', {1: {'front': 3}})]
DEEP = CONFIGS + [(4, 'HybridPerezOrdered', None), (4, 'IsotropicOrdered', {0: {'front': 2}})]


def configs(ck, what=None):
    if what == 'absorbed' and ck.tier != 'thorough':
        return CONFIGS[:3]
    return DEEP if ck.tier == 'thorough' else CONFIGS


def full(ck, what):
    def job(n, model, cut, name):
        if 1:
            e = Eng(ck, n, model, cut)
            w = e.w
            w.meth(e.eng, 'run_full_mode')
            q0, irr = e.balance()
            N = e.N
            for i, s in enumerate(e.surfs):
                at = '%s, surface %d' % (name, i)
                if what == 'balance':
                    ck.eq('outgoing=reflectivity*incident', at, e.param(s, 'q0'), q0[i],
                          ranges=RANGES)
                    ck.eq('incident=own+exchanged', at, e.param(s, 'qinc'),
                          q0[i] / e.rho(i), ranges=RANGES)
                elif what == 'parts':
                    ck.eq('isotropic=sky view*sky radiance', at, e.param(s, 'isotropic'),
                          e.F[i][N - 1] * e.sky, ranges=RANGES)
                    tot = e.param(s, 'reflection') + e.param(s, 'isotropic') + irr[i]
                    ck.eq('incident=sum of reported parts', at, tot, e.param(s, 'qinc'),
                          ranges=RANGES)
                elif what == 'absorbed':
                    acc = e.irr(i, e.comps_abs)
                    for j in range(N):
                        acc = acc + (ONE - e.rho(i)) * e.F[i][j] * q0[j]
                    ck.eq('absorbed=(1-reflectivity)*exchanged+absorbed beam', at,
                          e.param(s, 'qabs'), acc, ranges=RANGES)
            if what == 'absorbed':
                e = Eng(ck, n, model, cut, stub_aoi=True)
                w = e.w
                w.meth(e.eng, 'run_full_mode')
                q0, irr = e.balance()
                for i, s in enumerate(e.surfs):
                    acc = e.irr(i, e.comps_abs)
                    for j in range(N):
                        acc = acc + e.A[i][j] * q0[j]
                    ck.eq('absorbed=absorption factors*outgoing+absorbed beam',
                          '%s, surface %d' % (name, i), e.param(s, 'qabs'), acc, ranges=RANGES)
                got = w.attr(e.arr, 'ts_vf_aoi_matrix')
                for i in range(N):
                    for j in range(N):
                        ck.eq('published absorption factors', '%s [%d,%d]' % (name, i, j),
                              got.elems[i * N + j], e.A[i][j], ranges=RANGES)
            if what == 'balance':
                got = w.attr(e.arr, 'ts_vf_matrix')
                for i in range(N):
                    for j in range(N):
                        ck.eq('published view factors', '%s [%d,%d]' % (name, i, j),
                              got.elems[i * N + j], e.F[i][j], ranges=RANGES)
    jobs = []
    for n, model, cut in configs(ck, what):
        name = '%s, %d rows%s' % (model, n, ', cut' if cut else '')
        jobs.append((name, lambda n=n, model=model, cut=cut, name=name: job(n, model, cut, name)))
    ck.par(jobs)


@prop('P05')
def balance(ck):
    full(ck, 'balance')


@prop('P06')
def parts(ck):
    full(ck, 'parts')


@prop('P07')
def absorbed(ck):
    full(ck, 'absorbed')


FAST_KEYS = ('to_gnd_shaded', 'to_gnd_illum', 'to_gnd_total', 'to_pvrow_shaded',
             'to_pvrow_illum', 'to_pvrow_total', 'to_sky', 'to_each_gnd_shadow')


@prop('P08')
def fast(ck):
    cases = [(1, 'HybridPerezOrdered', None, {}, dict(pvrow_index=0)),
             (2, 'IsotropicOrdered', {1: {'back': 2}}, dict(fast_mode_pvrow_index=1), {}),
             (2, 'HybridPerezOrdered', {0: {'back': 2}},
              dict(fast_mode_pvrow_index=1, fast_mode_segment_index=0),
              dict(pvrow_index=0, segment_index=1)),
             (2, 'HybridPerezOrdered', {0: {'back': 2}},
              dict(fast_mode_pvrow_index=0, fast_mode_segment_index=1),
              dict(segment_index=0)),
             (2, 'IsotropicOrdered', {0: {'back': 2}}, dict(fast_mode_pvrow_index=0,
                                                             fast_mode_segment_index=1), {})]
    cases += [(3, 'HybridPerezOrdered', {1: {'back': 3}}, {}, dict(pvrow_index=1)),
              (3, 'HybridPerezOrdered', {2: {'back': 3}}, dict(fast_mode_pvrow_index=1),
               dict(pvrow_index=2, segment_index=2)),
              (3, 'IsotropicOrdered', None, dict(fast_mode_pvrow_index=2), {})]
    cases += [(4, 'HybridPerezOrdered', {1: {'back': 3}}, dict(fast_mode_segment_index=1),
               dict(pvrow_index=1)),
              (4, 'IsotropicOrdered', None, dict(fast_mode_pvrow_index=3), {}),
              (12, 'HybridPerezOrdered', {11: {'back': 12}}, {},
               dict(pvrow_index=11, segment_index=10)),
              (12, 'IsotropicOrdered', {10: {'back': 2}}, dict(fast_mode_pvrow_index=10), {})]
    cases += [(2, 'HybridPerezOrdered', None, dict(fast_mode_pvrow_index=0,
                                                   fast_mode_segment_index=0), {}),
              (3, 'IsotropicOrdered', {1: {'back': 2}}, dict(fast_mode_pvrow_index=1,
                                                             fast_mode_segment_index=0), {})]
    for r in range(3 if ck.tier != 'thorough' else 5):
        for sg in (None, 0, 1, 2):
            cases.append((3 if r < 3 else 5, 'HybridPerezOrdered' if (sg or 0) % 2 == 0 else
                          'IsotropicOrdered', {k: {'back': 3, 'front': 2} for k in range(5)
                                               if k < 3 or r >= 3},
                          dict(fast_mode_pvrow_index=(r + 1) % 3, fast_mode_segment_index=2),
                          dict(pvrow_index=r, segment_index=sg) if sg is not None else
                          dict(pvrow_index=r)))
    def job(n, model, cut, ctor, run):
        row = run.get('pvrow_index', ctor.get('fast_mode_pvrow_index'))
        seg = run.get('segment_index')
        seg = ctor.get('fast_mode_segment_index') if seg is None else seg
        name = '%s, %d rows, row %s, segment %s (engine defaults %s)' % (
            model, n, row, seg, sorted(ctor.items()))
        if 1:
            e = Eng(ck, n, model, cut, ctor=ctor)
            w = e.w
            seen = {}

            def elem(I, a, k, e=e, seen=seen):
                names = ('self', 'pvrow_idx', 'pvrow_element', 'ts_pvrows', 'ts_ground',
                         'rotation_vec', 'pvrow_width')
                d = dict(zip(names, a))
                d.update(k)
                el = d.get('pvrow_element', d.get('ts_segment', None))
                if el is None:
                    el = a[2]
                key = len(seen)
                for i, s in enumerate(e.surfs):
                    if s is el:
                        key = i
                seen[key] = d
                return PyDict([(q, e.w.ts('V[%s,%s]' % (q, key), own=False)) for q in FAST_KEYS])
            w.I.stubs[CALC + 'get_vf_ts_pvrow_element'] = elem
            out = w.meth(e.eng, 'run_fast_mode', **run)
            rows = w.items(w.attr(e.arr, 'ts_pvrows'))
            segs = w.items(w.attr(rows[row], 'back', 'list_segments'))
            if seg is not None:
                segs = [segs[seg]]
            want = []
            for sg in segs:
                want += list(w.items(w.attr(sg, 'all_ts_surfaces')))
            m = lambda p: w.elem(w.attr(e.model, p))
            rho = w.elem(w.attr(e.model, 'rho_front'))
            alb = w.elem(w.attr(e.model, 'albedo'))
            for i, s in enumerate(e.surfs):
                at = '%s, surface %d' % (name, i)
                sel = any(s is x for x in want)
                if not sel:
                    ck.fact('only the requested surfaces are evaluated', at,
                            e.param(s, 'qinc') is None, 'result attached to another surface')
                    continue
                q = e.param(s, 'qinc')
                if q is None:
                    ck.fact('every requested surface is evaluated', at, False,
                            'no result on a requested surface')
                    continue
                V = lambda k: sym('V[%s,%d]@t' % (k, i))
                gs = V('to_gnd_shaded') * alb * m('gnd_shaded')
                gi = V('to_gnd_illum') * alb * m('gnd_illum')
                ps = V('to_pvrow_shaded') * rho * m('pvrow_shaded')
                pi = V('to_pvrow_illum') * rho * m('pvrow_illum')
                iso = V('to_sky') * m('sky_luminance')
                for k, want_t in (('reflection_gnd_shaded', gs), ('reflection_gnd_illum', gi),
                                  ('reflection_pvrow_shaded', ps),
                                  ('reflection_pvrow_illum', pi), ('isotropic', iso),
                                  ('reflection', gs + gi + ps + pi),
                                  ('qinc', gs + gi + ps + pi + iso + e.irr(i))):
                    g = e.param(s, k)
                    if g is None:
                        ck.fact('reported parts', at + ', ' + k, False, 'missing result')
                    else:
                        ck.eq('fast-mode balance', at + ', ' + k, g, want_t, ranges=FRANGES)
    ck.par([('%s, %d rows, %s, %s' % (c[1], c[0], c[3], c[4]), lambda c=c: job(*c))
            for c in cases])


def everything(e):
    from .runs import results
    return dict(results(e.w, e.arr))


@prop('P30')
def report(ck):
    """the report function sees the finished array, once, and its value is returned"""
    jobs = []
    cf = [c + (None,) for c in configs(ck)[:2]] + [
        (3, 'HybridPerezOrdered', {2: {'back': 3}}, 2), (3, 'IsotropicOrdered', {2: {'back': 2}}, 0),
        (3, 'HybridPerezOrdered', {2: {'back': 3}}, None), (3, 'IsotropicOrdered', None, 0)]
    for n, model, cut, seg in cf:
        for mode in ('full', 'fast') if n < 3 else ('fast',):
            name = '%s mode, %s, %d rows%s' % (mode, model, n, '' if seg is None
                                               else ', segment %d' % seg)
            pick = {'pvrow_index': n - 1} if mode == 'fast' else {}
            if seg is not None:
                pick['segment_index'] = seg

            def once(mode=mode, n=n, model=model, cut=cut, name=name, pick=pick):
                kw = dict(pick)
                e = Eng(ck, n, model, cut, stub_aoi=True)
                w = e.w
                calls = []
                res = Token('report')

                def fn(I, a, k, calls=calls, e=e, res=res):
                    calls.append((list(a) + list(k.values()), [e.param(s, 'qinc') for s in e.surfs],
                                  land(*I.pc)))
                    return res
                w.meth(e.eng, 'run_%s_mode' % mode, **kw)
                base = [e.param(s, 'qinc') for s in e.surfs]
                e2 = e
                out = w.meth(e.eng, 'run_%s_mode' % mode, fn_build_report=fn, **kw)
                loc = None
                ck.fact('report function called once', name,
                        len(calls) == 1 and calls[0][2] is TRUE, 'called %d times' % len(calls))
                if len(calls) == 1:
                    ck.fact('report function receives the simulated array', name,
                            len(calls[0][0]) == 1 and calls[0][0][0] is e.arr,
                            'argument is not the array')
                    ck.fact('returns what the report function returned', name, out is res,
                            'returned %r' % (out,))
                none = w.meth(e.eng, 'run_%s_mode' % mode, **kw)
                ck.fact('no report function, no report', name, none is None,
                        'returned %r' % (none,))

            def first(mode=mode, n=n, model=model, cut=cut, name=name, pick=pick):
                kw = dict(pick)
                e = Eng(ck, n, model, cut, stub_aoi=True)
                calls = []

                def fn(I, a, k, calls=calls, e=e):
                    calls.append(everything(e))
                    return None
                e.w.meth(e.eng, 'run_%s_mode' % mode, fn_build_report=fn, **kw)
                after = everything(e)
                ck.fact('report sees the final results', name,
                        len(calls) == 1 and calls[0] == after and any(
                            ': qinc' in k for k in after),
                        'results seen by the report differ from the final ones%s' % (
                            ': %s' % [k for k in after if calls[0].get(k) is not after[k]][:4]
                            if calls else ''))
            jobs += [(name, once), (name + ' first run', first)]
    ck.par(jobs)


@prop('P31')
def skip(ck):
    def flag(e, at):
        g = e.w.elem(e.w.attr(e.eng, 'skip_step'))
        z, dn, dh = sym('solar_zenith@t'), sym('DNI@t'), sym('DHI@t')
        want = (z > 90) | (dn < 0) | (dh < 0) | (tm.cmp('==', dn, ZERO) & tm.cmp('==', dh, ZERO))
        ck.eq('no-sun flag', at, g, want, ranges=RANGES)
        npts = e.w.attr(e.eng, 'n_points')
        ck.eq('number of timesteps', at, e.w.elem(npts), sym('n_t'))

    def engine(at, model, n, **kw):
        e = Eng(ck, n, model, havoc=False, stub_aoi=True, **kw)
        flag(e, at)
        a, k = e.w.fit_args(kw.get('ghi', False))
        e.w.meth(e.eng, 'fit', *a, **k)
        flag(e, at + ', fitted again')
        e.w.meth(e.eng, 'run_fast_mode' if kw.get('ctor') else 'run_full_mode')
        flag(e, at + ', after a run')
    jobs = []
    for model in ('HybridPerezOrdered', 'IsotropicOrdered'):
        for at, n, kw in (('one row', 1, {}), ('three rows', 3, {}), ('ghi given', 2, {'ghi': True}),
                          ('fast mode', 2, {'ctor': {'fast_mode_pvrow_index': 1}}),
                          ('cut', 2, {'cut': {1: {'back': 2}}})):
            jobs.append(('%s, %s' % (model, at), lambda at='%s, %s' % (model, at), model=model, n=n,
                         kw=kw: engine(at, model, n, **kw)))
    ck.par(jobs)
