"""Sky luminance (Perez) and hidden shares of the horizon band and of the circumsolar disk."""
from . import prop
from .geo import CHAOS, REAL, Geo
from sa import terms as tm
from sa.world import *
from sa.world import PEREZ, PEREZ_NAMES, perez_recursive, perez_term
from sa.obl import Section

F = __import__('fractions').Fraction
RANGES = [('surface_tilt', 0., 180., (0.,)), ('surface_azimuth', 0., 360., ()),
          ('solar_zenith', 0., 100., (90.,)), ('solar_azimuth', 0., 360., ()),
          ('dni', 0., 1000., (0.,)), ('dhi', 0., 400., (0.,)), ('pvlib.aoi', -1., 1., (0.,)),
          ('sky_diffuse', 0., 300., (0.,)), ('pvlib.perez', 0., 200., (0.,)),
          ('perez:', 0., 300., ()), ('count:', 1., 9., ())]


def rad(x):
    return x * tm.PI / num(180)


def at_least_one(t):
    """t knowing that the present timestep is among the selected ones"""
    m = {}
    for x in tm.subterms(t).values():
        if x.k == 'app' and str(x.a[0]).startswith(('count:', 'red:count', 'len:')):
            m[x] = ONE
        elif x.k == 'bapp' and str(x.a[0]).startswith(('any:', 'red:any')):
            m[x] = TRUE
        elif x.k == 'app' and str(x.a[0]).startswith(('any:', 'red:any')):
            m[x] = ONE
    return tm.subst(t, m) if m else t


@prop('P32')
def luminance(ck):
    def job(name, dims):
        w = ck.world(stubs={PEREZ: perez_recursive})
        if dims == 'series':
            a = [w.ts(n) for n in PEREZ_NAMES]
            v = {n: sym(n + '@t') for n in PEREZ_NAMES}
        elif dims == 'one':
            v = {n: sym(n + '0') for n in PEREZ_NAMES}
            a = [PyList([v['timestamps']])] + [NDArr((1,), [v[n]]) for n in PEREZ_NAMES[1:]]
        w.reset()
        df = w.call('irradiance.utils.perez_diffuse_luminance', *a)
        got = {k: w.elem(df.d[k]) for k in df.keys()}
        tilt, az, zen, saz = (v[n] for n in ('surface_tilt', 'surface_azimuth', 'solar_zenith',
                                             'solar_azimuth'))
        w2 = w
        ref = lambda fn, *x: w2.elem(w2.call(Ext('pvlib.irradiance.' + fn), *[
            NDArr((w.t,), [q]) for q in x]))
        proj = ref('aoi_projection', tilt, az, zen, saz)
        day = [x for x in tm.subterms(got['poa_isotropic']).values()
               if x.k == 'app' and x.a[0] == 'dayofyear']
        ck.fact('radiation outside of the atmosphere follows the day of the year', name,
                len(day) >= 1 and all(v['timestamps'] in tm.subterms(d).values() for d in day),
                'not derived from the timestamps')
        et = app('pvlib.get_extra_radiation', day[0]) if day else ZERO
        am = app('pvlib.get_relative_airmass', zen)
        comp = {c: app('pvlib.perez.' + c, tilt, az, v['dhi'], v['dni'], et, zen, saz, am)
                for c in ('sky_diffuse', 'isotropic', 'circumsolar', 'horizon')}
        for c, nm in (('sky_diffuse', 'total_diffuse'), ('isotropic', 'isotropic'),
                      ('circumsolar', 'circumsolar'), ('horizon', 'horizon')):
            ck.eq('components from the Perez model', '%s: %s' % (name, nm),
                  got.get('poa_' + nm), comp[c], ranges=RANGES)
        cosd = lambda x: app('cos', rad(x))
        vf = {'horizon': app('sin', rad(tilt)),
              'circumsolar': tm.tmax(proj, ZERO) / tm.tmax(cosd(zen), cosd(num(85))),
              'isotropic': (ONE + cosd(tilt)) / num(2)}
        dark = tm.cmp('==', comp['sky_diffuse'], ZERO) if hasattr(tm, 'cmp') else \
            tm.land(comp['sky_diffuse'] <= 0, comp['sky_diffuse'] >= 0)
        back = tm.land(proj < 0, zen <= 90)
        for c, law in vf.items():
            ck.eq('view factors of the sky parts', '%s: %s' % (name, c), got.get('vf_' + c), law,
                  ranges=RANGES)
            lum = ite(dark, ZERO, comp[c] / law)
            g = got.get('luminance_' + c)
            if c != 'circumsolar':
                ck.eq('luminance = component / view factor, dark sky gives none',
                      '%s: %s' % (name, c), g, lum, ranges=RANGES)
                continue
            ck.eq('luminance = component / view factor, dark sky gives none',
                  '%s: %s, sun in front' % (name, c), g, lum, hyp=tm.lnot(back), ranges=RANGES)
            flip = [x for x in tm.subterms(g).values()
                    if x.k == 'app' and x.a[0] == 'perez:luminance_circumsolar']
            ck.fact('sun behind: luminance of the turned surface', name, len(flip) == 1,
                    'luminance of the turned surface is not used')
            if len(flip) == 1:
                stamp = flip[0].a[1]
                want = app('perez:luminance_circumsolar', stamp, num(180) - tilt,
                           app('mod', az - num(180), num(360)), zen, saz, v['dni'], v['dhi'])
                ck.eq('sun behind: luminance of the turned surface', name + ' value',
                      at_least_one(g), want,
                      hyp=tm.land(back, lift(w.t.size) >= 1), ranges=RANGES)
        for n in PEREZ_NAMES[1:]:
            ck.eq('inputs are kept beside the results', '%s: %s' % (name, n), got.get(n), v[n],
                  ranges=RANGES)
    ck.par([('series of any length', lambda: job('series of any length', 'series')),
            ('one timestep', lambda: job('one timestep', 'one'))])


# ------------------------------------------------------------------ P25
TILTED = [('rot', -2., 2., (.5, -.5)), ('horizon_band', .05, 40., ())] + REAL
PCT = [('angle', -30., 90., (0.,)), ('band', .5, 40., ()), ('covered', -40., 140., (0., 50., 100.)),
       ('sun', -1., 1., ()), ('.x', -5., 5., ()), ('.y', 0., 4., ()), ('disk', 5., 40., ())]


@prop('P25')
def shares(ck):
    with Section(ck, 'horizon band'):
        w = ck.world()
        angle, band = sym('angle@t'), sym('band')
        for how, a in (('series', NDArr((w.t,), [angle])), ('number', angle)):
            g = w.elem(w.call('irradiance.utils.calculate_horizon_band_shading', a, band))
            ck.eq('share of the band hidden', how, g,
                  ite(angle < 0, ZERO, ite(angle >= band, num(100), num(100) * angle / band)),
                  hyp=band > 0, ranges=PCT)
    with Section(ck, 'circumsolar disk'):
        w = ck.world()
        p = sym('covered')

        def segment(q):
            """share of a disk on one side of a chord at q percent of the diameter, q <= 50"""
            th = num(2) * app('arccos', ONE - num(2) * q / num(100))
            return (th - app('sin', th)) / (num(2) * tm.PI) * num(100)
        for fn, args in (('uniform_circumsolar_disk_shading', ()),
                         ('calculate_circumsolar_shading', ('uniform_disk',)),
                         ('calculate_circumsolar_shading', None)):
            g = w.elem(w.call('irradiance.utils.' + fn, p, *(args or ())))
            at = fn + ('' if args else ', default model' if args is None else '')
            for nm, hyp, want in (
                    ('nothing covered', p <= 0, ZERO),
                    ('up to one half', tm.land(p > 0, p <= 50), segment(p)),
                    ('more than one half', tm.land(p > 50, p < 100),
                     num(100) - segment(num(100) - p)),
                    ('all covered', p >= 100, num(100))):
                ck.eq('share of the disk hidden', '%s: %s' % (at, nm), g, want, hyp=hyp,
                      ranges=PCT)
        for fn, args in (('gaussian_shading', ()),
                         ('calculate_circumsolar_shading', ('gaussian',))):
            g = w.elem(w.call('irradiance.utils.' + fn, p, *args))
            cfg = w.I.module('pvfactors.config')
            c = lambda n: lift(w.I.getattr(cfg, n))
            lo = ZERO - c('N_SIGMA') * c('SIGMA')
            hi = c('N_SIGMA') * c('SIGMA')
            erf = lambda x: app('erf', x)
            at = fn
            for nm, hyp, want in (
                    ('nothing covered', p <= 0, ZERO),
                    ('partly covered', tm.land(p > 0, p < 100),
                     (erf(lo + p / num(100) * (hi - lo)) - erf(lo)) / (erf(hi) - erf(lo)) * num(100)),
                    ('all covered', p >= 100, num(100))):
                ck.eq('share of the gaussian disk hidden', '%s: %s' % (at, nm), g, want, hyp=hyp,
                      ranges=PCT)
        x, mu, sg = sym('x'), sym('mu'), sym('sigma')
        for at, args, m, q in (('default', (x,), ZERO, ONE), ('given', (x, mu, sg), mu, sg)):
            ck.eq('gaussian profile', at, w.elem(w.call('irradiance.utils.gaussian', *args)),
                  app('exp', ZERO - (x - m) * (x - m) / (num(2) * q * q)) /
                  (q * app('sqrt', num(2) * tm.PI)), hyp=q > 0,
                  ranges=[('x', -3., 3., (0.,)), ('mu', -2., 2., (0.,)), ('sigma', .3, 3., ())])
        try:
            w.call('irradiance.utils.calculate_circumsolar_shading', p, 'unknown')
            ck.fact('unknown disk models are refused', 'calculate_circumsolar_shading', False,
                    'no error')
        except AbsRaise as e:
            ck.fact('unknown disk models are refused', 'calculate_circumsolar_shading',
                    ck.excname(e.exc) == 'PVFactorsError', 'raises %s' % ck.excname(e.exc), e.loc)

    def horizon(name, n):
        """share of the horizon band hidden from a point by the next row on the side it faces"""
        G = Geo(ck, n)
        w = G.w
        for r in range(n):
            for back in (True, False):
                m = w.model('HybridPerezOrdered', horizon_band_angle=sym('band'))
                pt = w.call('geometry.timeseries.TsPointCoords', NDArr((w.t,), [sym('p.x@t')]),
                            NDArr((w.t,), [sym('p.y@t')]))
                left = tm.bsym('left@t')
                v = w.elem(w.meth(m, '_calculate_horizon_shading_pct_ts', PyList(G.rows), pt, r,
                                  NDArr((w.t,), [left]), is_back_side=back))

                def share(k):
                    if not 0 <= k < n:
                        return ZERO
                    h = G.rowline[k].high
                    a = app('abs', app('arctan', (h.y - sym('p.y@t')) / (h.x - sym('p.x@t')))) \
                        * num(180) / tm.PI
                    b = sym('band')
                    return ite(a >= b, num(100), num(100) * a / b)
                to_left = share(r - 1)
                to_right = share(r + 1)
                want = ite(left, to_right, to_left) if back else ite(left, to_left, to_right)
                angles = [app('abs', app('arctan', (G.rowline[k].high.y - sym('p.y@t')) /
                                         (G.rowline[k].high.x - sym('p.x@t')))) * num(180) / tm.PI
                          >= 0 for k in (r - 1, r + 1) if 0 <= k < n]
                ck.eq('band hidden by the next row on the side which is faced',
                      '%s: row %d %s' % (name, r, 'back' if back else 'front'), v, want,
                      hyp=sym('band') > 0, ranges=PCT, lemmas=angles)
    for n in (1, 2, 3, 4, 6):
        with Section(ck, 'horizon, %d rows' % n):
            horizon('horizon, %d rows' % n, n)

    def assigned(name, n, cut):
        """the share put on a back surface is the one of its centre, its row and its side"""
        from .irr import Sim
        s = Sim(ck, 'HybridPerezOrdered', n, cut)
        G, w, b = s.geo, s.w, sym('horizon_band')
        for d in s.surf:
            if d['kind'] != 'row' or d['side'] != 'back':
                continue
            got = s.param(d, 'horizon_shd_pct')
            at = '%s: %s' % (name, G.label(d))
            rule = 'hidden share is put on the back surfaces it belongs to'
            if got is None:
                ck.fact(rule, at, False, 'no share attached')
                continue
            c = w.attr(d['obj'], 'centroid')
            cx, cy = w.elem(w.attr(c, 'x')), w.elem(w.attr(c, 'y'))

            def share(k):
                if not 0 <= k < n:
                    return ZERO, []
                h = G.rowline[k].high
                a = app('abs', app('arctan', (h.y - cy) / (h.x - cx))) * num(180) / tm.PI
                return ite(a >= b, num(100), num(100) * a / b), [a >= 0]
            r = d['row']
            for nm, hyp, k in (('to the left', G.rot > 0, r + 1), ('to the right', G.rot < 0, r - 1)):
                want, lem = share(k)
                ck.eq(rule, '%s, tilted %s' % (at, nm), got, want, hyp=tm.land(hyp, b > 0),
                      ranges=TILTED, lemmas=lem)
    for n, cut in ((1, None), (2, {0: {'back': 2}}), (3, None)):
        with Section(ck, 'shares assigned, %d rows' % n):
            assigned('shares assigned, %d rows' % n, n, cut)

    def disk(name, model):
        """share of the circumsolar disk hidden from the middle of a surface by a neighbour"""
        w = ck.world()
        P = lambda n: Token(n, attrs={'x': sym(n + '.x'), 'y': sym(n + '.y')})
        mid, top = P('mid'), P('top')
        surf = Token('surface', attrs={'centroid': mid})
        rows = PyList([Token('row', attrs={'highest_point': top})])
        m = w.model('HybridPerezOrdered', circumsolar_angle=sym('disk'), circumsolar_model=model)
        sun = NDArr((2,), [sym('sun.0'), sym('sun.1')])
        g = w.elem(w.meth(m, '_calculate_circumsolar_shading_pct', surf, 0, rows, sun))
        deg = num(180) / tm.PI
        ang = lambda y, x: app('abs', app('arctan', y / x)) * deg
        up = ang(sym('sun.1'), sym('sun.0'))
        row = ang(sym('top.y') - sym('mid.y'), sym('top.x') - sym('mid.x'))
        pc = (row - (up - sym('disk') / num(2))) / sym('disk') * num(100)
        want = w.elem(w.call('irradiance.utils.calculate_circumsolar_shading', pc, model))
        ck.eq('disk hidden up to the top of the neighbour', '%s: %s' % (name, model), g, want,
              hyp=sym('disk') > 0, ranges=PCT)
        g = w.meth(m, '_calculate_circumsolar_shading_pct', surf, None, rows, sun)
        ck.eq('without a neighbour nothing is hidden', '%s: %s' % (name, model), w.elem(g), ZERO,
              ranges=PCT)
    for model in ('uniform_disk', 'gaussian'):
        with Section(ck, 'neighbour, ' + model):
            disk('neighbour', model)
