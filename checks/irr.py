"""Irradiance components: optics of the two models and their assignment to surfaces."""
from . import prop
from .geo import REAL, CHAOS, Geo, line, pt
from sa import terms as tm
from sa.world import *
from sa.obl import Section

MODELS = ('HybridPerezOrdered', 'IsotropicOrdered')
RANGES = [('DNI', -5., 1000., (0.,)), ('DHI', 0., 400., (0.,)), ('zenith', 0., 89., ()),
          ('azimuth', 0., 360., ()), ('tilt', 0., 89., (0.,)), ('albedo', .05, .9, ()),
          ('rho', .01, .9, ()), ('transparency', 0., 1., ()), ('spacing', 0., 1., ()),
          ('ghi', 0., 1000., (0.,))] + [c for c in CHAOS if c[0] not in ('rho',)]
RAD = tm.PI / num(180)


def sind(x):
    return app("sin", x * RAD)


def cosd(x):
    return app('cos', x * RAD)


class Sim(object):
    """array + irradiance model, fitted and transformed on an arbitrary timestep"""

    def __init__(self, ck, model, n=1, cut=None, faoi=False, ghi=False, scalar_albedo=False,
                 params=None, chaos=True):
        self.geo = Geo(ck, n, cut, chaos)
        w = self.w = self.geo.w
        self.name = '%s%s%s' % (model, ', angular functions' if faoi else '',
                                ', measured GHI' if ghi else '')
        self.hybrid = model.startswith('Hybrid')
        self.faoi, self.ghi = faoi, ghi
        kw = dict(w.params(faoi=faoi))
        kw.update(params or {})
        if self.hybrid:
            kw.setdefault('horizon_band_angle', sym('horizon_band'))
        self.model = w.model(model, **kw)
        a, k = w.fit_args(ghi, scalar_albedo)
        w.meth(self.model, 'fit', *a, **k)
        w.meth(self.model, 'transform', self.geo.arr)
        self.surf = self.geo.surf
        self.alb = sym('albedo') if scalar_albedo else sym('albedo@t')
        z, az = sym('solar_zenith@t'), sym('solar_azimuth@t')
        t, ta = sym('surface_tilt@t'), sym('surface_azimuth@t')
        dni, dhi = sym('DNI@t'), sym('DHI@t')
        self.aoi = app('pvlib.aoi', t, ta, z, az)
        self.front = self.aoi <= 90
        self.tilt, self.dni, self.dhi, self.z = t, dni, dhi, z
        self.GHI = sym('ghi@t') if ghi else dni * cosd(z) + dhi
        self.P = lambda c: app('perez:' + c, sym('timestamps@t'), t, ta, z, az, dni, dhi)
        self.poa = app('pvlib.total.poa_global', t, ta, z, az, dni, self.GHI, dhi, self.alb)
        tr, sp = sym('transparency'), sym('spacing')
        self.tau = sp + (ONE - sp) * tr

    def param(self, d, name):
        p = self.w.attr(d['obj'], 'params')
        v = p.d.get(name, UNDEF)
        if v is UNDEF or v is None:
            return None
        return self.w.elem(v)

    def lit(self, d, comp):
        """beam received by the lit part of the same side"""
        if d['kind'] == 'ground':
            return self.dni * cosd(self.z) if comp == 'direct' else self.P('luminance_circumsolar')
        if d['side'] == 'front':
            v = (self.dni * cosd(self.aoi) if comp == 'direct' else self.P('poa_circumsolar'))
            return ite(self.front, v, ZERO)
        c = cosd(num(180) - self.aoi)
        v = (self.dni * c if comp == 'direct' else
             self.P('luminance_circumsolar') * c / cosd(self.z))
        return ite(self.front, ZERO, v)

    def shaded(self, d):
        return (d['elkind'] == 'shadow_elements') if d['kind'] == 'ground' else d['shaded'] is True

    def want(self, d, comp):
        if comp == 'horizon':
            if d['kind'] == 'ground':
                return ZERO
            h = app('abs', self.P('poa_horizon'))
            if d['side'] == 'front':
                return h
            return h * (ONE - self.param(d, 'horizon_shd_pct') / num(100))
        v = self.lit(d, comp)
        return v * self.tau if self.shaded(d) else v

    def fraction(self, d, comp):
        if d['kind'] == 'ground':
            return ONE - self.alb
        side = d['side']
        if not self.faoi:
            return ONE - sym('rho_' + side)
        if comp == 'horizon':
            x = self.tilt
        else:
            a = self.aoi if side == 'front' else num(180) - self.aoi
            x = app('abs', num(90) - a)
        return app('faoi_' + side, x)

    def comps(self):
        return ('direct', 'circumsolar', 'horizon') if self.hybrid else ('direct',)


def sims(ck, body):
    cut = {1: {'back': 2, 'front': 3}, 2: {'front': 2}}
    cfg = [(m, f, g) for m in MODELS for f in (False, True) for g in (False, True)]
    jobs = []
    for m, f, g in cfg:
        name = '%s%s%s' % (m, ', angular functions' if f else '', ', measured GHI' if g else '')
        for n in (2, 3) if f != g else (1,):
            jobs.append(('%s, %d row(s)' % (name, n), (ck, m, n, cut, f, g, f and m[0] == 'H')))
    for m in MODELS:
        jobs.append((m + ', 4 rows', (ck, m, 4, {0: {'front': 3}, 3: {'back': 2}}, True, False)))
        jobs.append((m + ', 12 rows', (ck, m, 12, {11: {'back': 2}}, False, False)))
        if ck.tier == 'thorough':
            jobs.append((m + ', 6 rows', (ck, m, 6, {5: {'front': 12, 'back': 2}}, True, True)))
            jobs.append((m + ', 11 rows', (ck, m, 11, None, False, False)))
    ck.par([(name, lambda name=name, a=a: body(name, Sim(*a))) for name, a in jobs])


def missing(ck, rule, at, v):
    if v is None:
        ck.fact(rule, at, False, 'no value attached to the surface')
        return True
    return False


@prop('P10')
def transmission(ck):
    def body(name, s):
        for d in s.surf:
            if not s.shaded(d):
                continue
            twin = [e for e in s.surf if not s.shaded(e) and e['kind'] == d['kind']
                    and e.get('side') == d.get('side') and e.get('row') == d.get('row')
                    and e.get('seg') == d.get('seg')]
            at = '%s: %s' % (name, d['name'])
            for comp in ('direct', 'circumsolar'):
                if comp not in s.comps():
                    continue
                for suf in ('', '_absorbed'):
                    g = s.param(d, comp + suf)
                    l = s.param(twin[0], comp + suf)
                    if missing(ck, 'shaded light', at, g) or missing(ck, 'lit light', at, l):
                        continue
                    ck.eq('shaded light = lit light x (spacing + (1 - spacing) transparency)',
                          at + ' ' + comp + suf, g, l * s.tau, ranges=RANGES)
        # the totals used for reflections follow the same law
        gl, gs = s.w.attr(s.model, 'gnd_illum'), s.w.attr(s.model, 'gnd_shaded')
        lost = ZERO
        g0 = [d for d in s.surf if d['kind'] == 'ground'][0]
        f0 = [d for d in s.surf if d['kind'] == 'row' and d['side'] == 'front'][0]
        for comp in s.comps():
            if comp != 'horizon':
                lost = lost + s.lit(f0, comp) * (ONE - s.tau)
        ck.eq('row total in shade = lit total - blocked beam', name,
              s.w.elem(s.w.attr(s.model, 'pvrow_shaded')),
              s.w.elem(s.w.attr(s.model, 'pvrow_illum')) - lost, ranges=RANGES)
        dif = s.dhi
        for comp in s.comps():
            if comp == 'direct':
                dif = dif + s.lit(g0, comp) * s.tau
            elif comp == 'circumsolar':
                dif = dif - s.lit(g0, comp) * (ONE - s.tau)
        ck.eq('ground total in shade = diffuse + transmitted beam', name,
              s.w.elem(gs), dif, ranges=RANGES)
    sims(ck, body)


@prop('P11')
def assignment(ck):
    def body(name, s):
        w = s.w
        for d in s.surf:
            at = '%s: %s' % (name, d['name'])
            rho = s.alb if d['kind'] == 'ground' else sym('rho_' + d['side'])
            for k, v in (('rho', rho), ('inv_rho', tm.recip(rho))):
                g = s.param(d, k)
                if not missing(ck, 'reflectivity', at, g):
                    ck.eq('reflectivity of the material', at + ' ' + k, g, v, ranges=RANGES)
            for comp in s.comps():
                g, ga = s.param(d, comp), s.param(d, comp + '_absorbed')
                if missing(ck, 'component', at, g) or missing(ck, 'component', at, ga):
                    continue
                ck.eq('component received', at + ' ' + comp, g, s.want(d, comp), ranges=RANGES)
                ck.eq('component absorbed = received x absorption', at + ' ' + comp, ga,
                      g * s.fraction(d, comp), ranges=RANGES)
            tp = s.param(d, 'total_perez')
            if not missing(ck, 'total', at, tp):
                if d['kind'] == 'ground':
                    src = 'gnd_shaded' if s.shaded(d) else 'gnd_illum'
                    wt = w.elem(w.attr(s.model, src))
                elif d['side'] == 'back':
                    wt = ZERO
                else:
                    src = 'pvrow_shaded' if s.shaded(d) else 'pvrow_illum'
                    wt = w.elem(w.attr(s.model, src))
                ck.eq('total of the surface', at, tp, wt, ranges=RANGES)
        e = lambda k: w.elem(w.attr(s.model, k))
        ck.eq('lit ground total', name, e('gnd_illum'), s.GHI, ranges=RANGES)
        ck.eq('lit row total', name, e('pvrow_illum'), s.poa, ranges=RANGES)
        ck.eq('sky radiance', name, e('sky_luminance'),
              s.P('luminance_isotropic') if s.hybrid else s.dhi, ranges=RANGES)
        ck.eq('albedo', name, e('albedo'), s.alb, ranges=RANGES)
        # the vectors handed to the balance
        mats = w.items(w.meth(s.model, 'get_full_ts_modeling_vectors', s.geo.arr))
        irr, rho, inv, tot = mats
        n = len(s.surf) + 1
        for d in s.surf:
            i = d['index']
            tot_i = ZERO
            tot_a = ZERO
            for comp in s.comps():
                tot_i = tot_i + s.param(d, comp)
            at = '%s: %s' % (name, d['name'])
            for m, v, what in ((irr, tot_i, 'irradiance'), (rho, s.param(d, 'rho'), 'rho'),
                               (inv, s.param(d, 'inv_rho'), 'inverse rho'),
                               (tot, s.param(d, 'total_perez'), 'total')):
                ck.eq('system vectors follow the surface numbering', at + ' ' + what,
                      m.elems[i], v, ranges=RANGES)
        for m, v, what in ((irr, e('sky_luminance'), 'irradiance'), (rho, ONE, 'rho'),
                           (inv, ONE, 'inverse rho'), (tot, e('sky_luminance'), 'total')):
            ck.fact('sky is last', '%s %s' % (name, what), len(m.elems) == n,
                    '%d entries for %d surfaces' % (len(m.elems), n))
            ck.eq('sky is last', '%s %s value' % (name, what), m.elems[-1], v, ranges=RANGES)
        for flag, suf in ((True, '_absorbed'), (False, '')):
            m = w.meth(s.model, 'get_summed_components', s.geo.arr, absorbed=flag)
            for d in s.surf:
                v = ZERO
                for comp in s.comps():
                    v = v + s.param(d, comp + suf)
                ck.eq('summed components', '%s: %s%s' % (name, d['name'], suf),
                      m.elems[d['index']], v, ranges=RANGES)
        for d in s.surf[:1] + s.surf[-1:]:
            w.meth(s.model, 'update_ts_surface_sky_term', d['obj'])
            v = ZERO
            for comp in s.comps():
                v = v + s.param(d, comp)
            ck.eq('sky term', '%s: %s' % (name, d['name']), s.param(d, 'sky_term'), v,
                  ranges=RANGES)
    sims(ck, body)


@prop('P12')
def optics(ck):
    """beam on one side only, additional angles, absorbed never more than received"""
    def body(name, s):
        fr = [d for d in s.surf if d['kind'] == 'row' and d['side'] == 'front']
        bk = [d for d in s.surf if d['kind'] == 'row' and d['side'] == 'back']
        for d in fr + bk:
            at = '%s: %s' % (name, d['name'])
            for comp in ('direct', 'circumsolar'):
                if comp not in s.comps():
                    continue
                for suf in ('', '_absorbed'):
                    g = s.param(d, comp + suf)
                    if missing(ck, 'component', at, g):
                        continue
                    away = tm.lnot(s.front) if d['side'] == 'front' else s.front
                    ck.eq('a side facing away from the sun gets no beam', at + ' ' + comp + suf,
                          g, ZERO, hyp=away, ranges=RANGES)
                    if suf or s.shaded(d):
                        continue
                    c = cosd(s.aoi if d['side'] == 'front' else num(180) - s.aoi)
                    if comp == 'direct':
                        ck.eq('a side facing the sun gets the projected beam', at + ' ' + comp, g,
                              s.dni * c, hyp=tm.lnot(away), ranges=RANGES)
                    elif d['side'] == 'back':
                        ck.eq('circumsolar projected like the beam', at, g * cosd(s.z),
                              s.P('luminance_circumsolar') * c, hyp=tm.lnot(away), ranges=RANGES)
        for a in fr[:1]:
            for b in bk[:1]:
                for comp in ('direct', 'circumsolar'):
                    if comp in s.comps():
                        ck.eq('never both sides', '%s %s' % (name, comp),
                              s.param(a, comp) * s.param(b, comp), ZERO, ranges=RANGES)
    sims(ck, body)
