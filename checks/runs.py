"""Runs as a whole: runners, repeated use, scalar inputs, timesteps, caller data, hidden inputs."""
import ast
import glob
import os
from . import prop
from .geo import Geo, CHAOS
from .irr import Sim, RANGES as IRR
from .engine import Eng
from sa import terms as tm
from sa.world import *
from sa.world import PEREZ, PEREZ_NAMES, perez_recursive
from sa.obl import Section

TOL = tm.num(__import__('fractions').Fraction(1, 10**8))
MODELS = ('HybridPerezOrdered', 'IsotropicOrdered')


# ------------------------------------------------------------------ reading results
def results(w, arr, every=True):
    """every result attached to the array, as (name, term)"""
    out = []
    for i, s in enumerate(w.items(w.attr(arr, 'all_ts_surfaces'))):
        p = w.attr(s, 'params')
        for k in sorted(x for x in p.keys()):
            v = p.d[k]
            for q, x in ([(k, v)] if not isinstance(v, PyDict) else
                         [('%s.%s' % (k, y), v.d[y]) for y in v.keys()]):
                if isinstance(x, NDArr) and len(x.elems) > 1:
                    out += [('surface %d: %s[%d]' % (i, q, j), e) for j, e in enumerate(x.elems)]
                elif x is not None:
                    out.append(('surface %d: %s' % (i, q), w.elem(x)))
        c = w.attr(s, 'coords')
        for b in ('b1', 'b2'):
            for x in ('x', 'y'):
                out.append(('surface %d: %s.%s' % (i, b, x), w.elem(w.attr(c, b, x))))
        out.append(('surface %d: index' % i, lift(w.attr(s, 'index'))))
    for nm in ('ts_vf_matrix', 'ts_vf_aoi_matrix') if every else ():
        m = w.attr(arr, nm)
        if isinstance(m, NDArr):
            for k, e in enumerate(m.elems):
                out.append(('%s[%d]' % (nm, k), e))
    for nm in ('rotation_vec', 'has_direct_shading'):
        v = w.attr(arr, nm)
        if isinstance(v, NDArr):
            out.append((nm, v.elems[0]))
    return out


def same(ck, rule, where, got, want, ranges=IRR):
    """two result lists agree name by name"""
    a, b = dict(got), dict(want)
    miss = [k for k in b if k not in a]
    more = [k for k in a if k not in b]
    ck.fact(rule + ': same set of results', where, not miss and not more,
            'missing %s, additional %s' % (miss[:5], more[:5]))
    for k in b:
        if k in a:
            ck.eq(rule, '%s: %s' % (where, k), a[k], b[k], ranges=ranges)


def engine(w, arr, model='HybridPerezOrdered', faoi=False, **ctor):
    ps = w.params(faoi=bool(faoi))
    kw = {}
    if faoi:
        fs = {s: w.faoi(s) for s in ('front', 'back')}
        if isinstance(faoi, str):      # what has a method called faoi means this method
            fs = {s: Token('object_' + s, callable_=False, attrs={'faoi': f})
                  if faoi in ('object', s) else f for s, f in fs.items()}
            ps.update(faoi_fn_front=fs['front'], faoi_fn_back=fs['back'])
        kw = dict(faoi_fn_front=fs['front'], faoi_fn_back=fs['back'],
                  n_aoi_integral_sections=sym('nsec'))
    m = w.model(model, **ps)
    c = w.call('viewfactors.VFCalculator', **kw)
    return w.call('engine.PVEngine', arr, irradiance_model=m, vf_calculator=c, **ctor)


def inputs(w, suffix='', dim=None, ghi=True):
    a = [NDArr((dim or w.t,), [sym('%s%s@%s' % (n, suffix, (dim or w.t).name))],
               tag='in:' + n) for n in w.FIT]
    kw = {'ghi': NDArr((dim or w.t,), [sym('ghi%s@%s' % (suffix, (dim or w.t).name))],
                       tag='in:ghi')} if ghi else {}
    return a, kw


# ------------------------------------------------------------------ P14
def crossing(t, dim):
    """largest subterms which mix several timesteps"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k in ('app', 'bapp'):
            fn = str(x.a[0])
            if (fn.startswith('red:') and fn.endswith(':' + dim.name)) or fn == 'at:' + dim.name:
                out.append(x)
                continue
        if x is dim.size or (x.k == 'sym' and x.a[0] == 'ix:' + dim.name):
            out.append(x)
            continue
        st.extend(tm.children(x))
    return out


def local(ck, where, t, dim, hyp=(), ranges=CHAOS):
    """the value at a timestep does not depend on the other timesteps"""
    rule = 'a timestep only depends on itself'
    cr = crossing(t, dim)
    if not cr:
        return ck._add(rule, where, 'OK')
    # "never there" flags: true only if the surface is absent at every timestep
    flags = {}
    for x in tm.subterms(t).values():
        if x.k == 'cmp' and any(y in cr for y in tm.children(x)):
            for y in tm.children(x):
                if y in cr and y.k == 'app' and y.a[0] in ('red:nansum:' + dim.name,
                                                           'red:sum:' + dim.name) \
                        and positive(y.a[1]):
                    flags[x] = (y, y.a[1])
    m = {x: tm.bsym('flag%d' % i) for i, x in enumerate(flags)}
    t1 = tm.subst(t, m)
    if not crossing(t1, dim):
        worst = 'OK'
        for x, (tot, here) in flags.items():
            # nothing there at any time => nothing there now: the flag may not matter then
            absent = tm.subst(x, {tot: ZERO})
            if absent is not TRUE and absent is not FALSE:
                worst = None
                break
            yes = tm.subst(t1, {m[x]: absent})
            no = tm.subst(t1, {m[x]: tm.lnot(absent)})
            # (differences below the distance tolerance are not meant: take no length exactly)
            flat = {y: sym(y.a[0].replace('.b2.', '.b1.')) for y in tm.subterms(here).values()
                    if y.k == 'sym' and '.b2.' in y.a[0]}
            gone = tm.subst(here, flat) is ZERO
            if gone:
                yes, no = tm.subst(yes, flat), tm.subst(no, flat)
            ck.eq(rule, '%s, flag of %s' % (where, tm.show(here, 3)[:60]), yes, no,
                  hyp=None if gone else here < TOL, ranges=ranges)
        if worst:
            return
    m, lem = {}, list(hyp)
    for i, c in enumerate(cr):
        num_ = c.k in ('app', 'sym')
        m[c] = tuple(sym(q + str(i)) if num_ else tm.bsym(q + str(i)) for q in ('here', 'other'))
        if c is dim.size:               # there is this timestep
            lem += [q >= 1 for q in m[c]]
    a = tm.subst(t, {c: v[0] for c, v in m.items()})
    b = tm.subst(t, {c: v[1] for c, v in m.items()})
    return ck.eq(rule, where, a, b, ranges=[('here', 0., 3., (0.,)), ('other', 0., 3., (0.,))]
                 + list(ranges), lemmas=lem)


def positive(t):
    return t.k == 'app' and t.a[0] in ('sqrt', 'abs')


@prop('P14')
def timesteps(ck):
    cut = {0: {'back': 2}, 1: {'front': 2}}

    def geometry(name, n):
        G = Geo(ck, n, cut, chaos=False)
        for k, t in results(G.w, G.arr):
            local(ck, '%s: %s' % (name, k), t, G.w.t)

    def irradiance(name, model, faoi, ghi):
        s = Sim(ck, model, 2, cut, faoi, ghi)
        for k, t in results(s.w, s.geo.arr):
            local(ck, '%s: %s' % (name, k), t, s.w.t, ranges=IRR)
        for nm in ('gnd_illum', 'gnd_shaded', 'pvrow_illum', 'pvrow_shaded', 'sky_luminance'):
            local(ck, '%s: %s' % (name, nm), s.w.elem(s.w.attr(s.model, nm)), s.w.t, ranges=IRR)

    def factors(name, n, part, of):
        G = Geo(ck, n, {0: {'back': 2}} if n < 3 else None)
        w = G.w
        c = w.call('viewfactors.VFCalculator')
        w.meth(c, 'fit', sym('n_t'))
        m = w.meth(c, 'build_ts_vf_matrix', G.arr)
        for k, t in enumerate(m.elems):
            if k // G.N % of == part:
                local(ck, '%s [%d,%d]' % (name, k // G.N, k % G.N), t, w.t)

    def angular(name, n):
        from .aoi import AOI, exists
        G = AOI(ck, n, cut)
        for k, t in enumerate(G.A.elems):
            local(ck, '%s [%d,%d]' % (name, k // G.N, k % G.N), t, G.w.t)

    def balance(name, n):
        e = Eng(ck, n, cut=cut, stub_aoi=True)
        e.w.meth(e.eng, 'run_full_mode')
        for i, s in enumerate(e.surfs):
            for q in ('q0', 'qinc', 'isotropic', 'reflection', 'qabs'):
                v = e.param(s, q)
                if v is not None:
                    local(ck, '%s: surface %d %s' % (name, i, q), v, e.w.t)
        local(ck, name + ': no-sun flag', e.w.elem(e.w.attr(e.eng, 'skip_step')), e.w.t)

    def fast(name, n):
        G = Geo(ck, n, cut)
        w = G.w
        eng = engine(w, G.arr)
        a, kw = inputs(w)
        w.meth(eng, 'fit', *a, **kw)
        G.havoc()
        for r in range(n):
            w.meth(eng, 'run_fast_mode', pvrow_index=r)
        for k, t in results(w, G.arr):
            local(ck, '%s: %s' % (name, k), t, w.t, ranges=IRR)

    def luminance(name):
        """sky luminance on its own (the steps with the sun behind are worked out separately)"""
        from .light import at_least_one, RANGES as LIGHT
        w = ck.world(stubs={PEREZ: perez_recursive})
        v = {n: sym(n + '@t') for n in PEREZ_NAMES}
        w.reset()
        df = w.call('irradiance.utils.perez_diffuse_luminance', *[w.ts(n) for n in PEREZ_NAMES])
        proj = w.elem(w.call(Ext('pvlib.irradiance.aoi_projection'), *[
            NDArr((w.t,), [v[n]]) for n in ('surface_tilt', 'surface_azimuth', 'solar_zenith',
                                            'solar_azimuth')]))
        behind = tm.land(proj < 0, v['solar_zenith'] <= 90)
        for k in df.keys():
            t = w.elem(df.d[k])
            # a step which is selected is one of the selected steps
            t = ite(behind, at_least_one(t), t)
            local(ck, '%s: %s' % (name, k), t, w.t, ranges=LIGHT)
            few = [x for x in tm.subterms(t).values() if x.k == 'app' and
                   str(x.a[0]).startswith('red:') and x not in crossing(t, w.t)]
            ck.fact('a timestep only depends on itself', '%s: %s, selected steps' % (name, k),
                    not few, 'uses %s over some of the timesteps' % [x.a[0] for x in few[:3]])
    jobs = [('layout, %d rows' % n, lambda n=n: geometry('layout, %d rows' % n, n))
            for n in (1, 2, 3)]
    jobs.append(('sky luminance', lambda: luminance('sky luminance')))
    for m in MODELS:
        for f, g in ((False, False), (True, True)):
            nm = '%s%s%s' % (m, ', angular functions' if f else '', ', GHI' if g else '')
            jobs.append((nm, lambda nm=nm, m=m, f=f, g=g: irradiance(nm, m, f, g)))
    for n, of in ((2, 5), (1, 1)) if ck.tier != 'thorough' else ((3, 12), (2, 5), (1, 1)):
        for k in range(of):
            nm = 'view factors, %d rows' % n
            jobs.insert(0, ('%s, part %d' % (nm, k),
                            lambda n=n, nm=nm, k=k, of=of: factors(nm, n, k, of)))
    for n in (1, 2, 3):
        jobs += [('absorption factors, %d rows' % n,
                  lambda n=n: angular('absorption factors, %d rows' % n, n)),
                 ('balance, %d rows' % n, lambda n=n: balance('balance, %d rows' % n, n))]
    for n in (1, 2):
        jobs.append(('fast mode, %d rows' % n, lambda n=n: fast('fast mode, %d rows' % n, n)))
    ck.par(jobs)


# ------------------------------------------------------------------ P15
PARAMS = ('timestamps', 'dni', 'dhi', 'solar_zenith', 'solar_azimuth', 'surface_tilt',
          'surface_azimuth', 'albedo')
LAYOUT = dict(axis_azimuth=sym('axis_azimuth'), gcr=sym('gcr'), pvrow_height=sym('height'),
              pvrow_width=sym('width'))


class Runner(object):
    """one call of a public runner with every option given"""

    def __init__(self, ck, n_rows, fast, faoi, ghi, cut, scalar_albedo=False):
        w = self.w = ck.world()
        self.faoi, self.ghi, self.cut, self.fast = faoi, ghi, cut, fast
        self.layout = PyDict(list(LAYOUT.items()) + [
            ('n_pvrows', n_rows), ('cut', PyDict([(k, PyDict(list(v.items())))
                                                  for k, v in (cut or {}).items()]))])
        self.made = []
        self.irr_params = w.params(faoi=False)
        self.vf_params = dict(n_aoi_integral_sections=sym('nsec'))
        if faoi:
            self.vf_params.update(faoi_fn_front=w.faoi('front'), faoi_fn_back=w.faoi('back'))
        self.series = {n: NDArr((w.t,), [sym(n + '@t')], tag='in:' + n) for n in PARAMS}
        if scalar_albedo:
            self.series['albedo'] = sym('albedo')
        self.ghi_series = NDArr((w.t,), [sym('ghi@t')], tag='in:ghi') if ghi else None

    def rec(self, kind, f):
        def make(I, a, k):
            o = I.call(f, list(a), dict(k))
            self.made.append((kind, o))
            return o
        return make

    def options(self):
        w = self.w
        kw = dict(cls_pvarray=Token('cls_pvarray', attrs={'init_from_dict': self.rec(
                      'array', w.I.getattr(w.get('geometry.OrderedPVArray'), 'init_from_dict'))}),
                  cls_engine=self.rec('engine', w.get('engine.PVEngine')),
                  cls_irradiance=self.rec('irradiance', w.get('irradiance.IsotropicOrdered')),
                  cls_vf=self.rec('vf', w.get('viewfactors.VFCalculator')),
                  irradiance_model_params=PyDict(list(self.irr_params.items())),
                  vf_calculator_params=PyDict(list(self.vf_params.items())))
        if self.ghi:
            kw['ghi'] = self.ghi_series
        if self.fast is not None:
            kw['fast_mode_pvrow_index'], kw['fast_mode_segment_index'] = self.fast
        return kw

    def direct(self, series, ghi):
        """the same simulation through the engine"""
        w = self.w
        arr = w.call(w.I.getattr(w.get('geometry.OrderedPVArray'), 'init_from_dict'), self.layout)
        m = w.model('IsotropicOrdered', **self.irr_params)
        c = w.call('viewfactors.VFCalculator', **self.vf_params)
        kw = {}
        if self.fast is not None:
            kw = dict(fast_mode_pvrow_index=self.fast[0], fast_mode_segment_index=self.fast[1])
        eng = w.call('engine.PVEngine', arr, vf_calculator=c, irradiance_model=m, **kw)
        w.meth(eng, 'fit', *[series[n] for n in PARAMS], **({'ghi': ghi} if self.ghi else {}))
        w.meth(eng, 'run_fast_mode' if self.fast is not None else 'run_full_mode')
        return results(w, arr)


CONF = [(1, None, False, False, None, False), (1, None, True, True, {0: {'back': 2}}, True),
        (2, (1, None), False, True, {1: {'back': 2}}, False),
        (2, (1, 1), False, False, {1: {'back': 2}}, True),
        (2, (0, None), False, False, None, False), (2, (0, 0), False, True, None, False)]


def conf_name(c):
    return '%d row(s), %s%s%s%s%s' % (
        c[0], 'full mode' if c[1] is None else 'fast mode %s' % (c[1],),
        ', angular functions' if c[2] else '', ', GHI' if c[3] else '',
        ', segmented' if c[4] else '', ', scalar albedo' if c[5] else '')


@prop('P15')
def parallel(ck):
    def job(c, name, np_):
        r = Runner(ck, *c)
        w = r.w
        got, orders = [], []
        fins = []

        def build(I, a, k):
            got.append(results(w, a[0]))
            return Token('report%d' % len(got))

        def merge(I, a, k):
            orders.append([w.items(x) for x in a])
            return fin
        fin = Token('merged')
        builder = Token('builder', attrs={'build': build, 'merge': merge})
        s = r.series
        out = w.call('run.run_parallel_engine', builder, r.layout,
                     *[s[n] for n in PARAMS], n_processes=np_, **r.options())
        n = w.I.cpu_count if np_ == -1 and hasattr(w.I, 'cpu_count') else (4 if np_ == -1 else np_)
        ck.fact('one simulation per process', name, len(got) == n, '%d simulations' % len(got))
        ck.fact('the merged report is returned', name, out is fin, 'returned %r' % (out,))
        ck.fact('reports are merged once, in the order of time', name,
                len(orders) == 1 and len(orders[0]) == 1 and
                [getattr(x, 'name', x) for x in orders[0][0]] ==
                ['report%d' % (i + 1) for i in range(n)], 'merged %r' % (orders,))
        for kind, cnt in (('array', n), ('engine', n), ('irradiance', n), ('vf', n)):
            ck.fact('the given classes are used', '%s: %s' % (name, kind),
                    sum(1 for k, _ in r.made if k == kind) == cnt, 'not used for every part')
        npm = Ext('numpy.array_split')
        split = lambda v: w.items(w.call(npm, v, n))
        parts = {k: (split(v) if isinstance(v, NDArr) else [v] * n) for k, v in s.items()}
        g = split(r.ghi_series) if r.ghi else [None] * n
        for k in range(min(n, len(got))):
            same(ck, 'a part equals the direct simulation of its timesteps',
                 '%s: part %d' % (name, k), got[k],
                 r.direct({q: parts[q][k] for q in PARAMS}, g[k]))
        fast_facts(ck, r, name)

    def many(name, np_, kind=None):
        """merge order and inputs of many parts (the simulation itself is a stand-in)"""
        r = Runner(ck, *CONF[1])
        w = r.w
        if kind:
            ts = r.series['timestamps']
            r.series['timestamps'] = NDArr(ts.axes, list(ts.elems), kind=kind, tag='in:timestamps')
        seen, orders = [], []
        npm = Ext('numpy.array_split')
        split = lambda v: w.items(w.call(npm, v, np_)) if isinstance(v, NDArr) else [v] * np_
        parts = {k: split(v) for k, v in r.series.items()}
        parts['ghi'] = split(r.ghi_series) if r.ghi else [None] * np_
        arr = Token('array')

        def fit(I, a, k):
            d = dict(zip(PARAMS, a))
            d.update(k)
            seen.append(d)

        def build(I, a, k):
            return Token('report%d' % len(seen))

        def merge(I, a, k):
            orders.append([getattr(x, 'name', x) for x in w.items(a[0])])
            return Token('merged')

        def go(I, a, k):
            f = (list(a) + [k.get('fn_build_report')])[0]
            return None if f is None else I.call(f, [arr], {})
        kw = r.options()
        for k, t in (('cls_engine', Token('engine', attrs={
                'fit': fit, 'run_full_mode': go, 'run_fast_mode': go, 'pvarray': arr})),
                ('cls_irradiance', Token('irradiance')), ('cls_vf', Token('vf'))):
            kw[k] = lambda I, a, k, t=t: t
        kw['cls_pvarray'] = Token('cls_pvarray', attrs={'init_from_dict': lambda I, a, k: arr})
        w.call('run.run_parallel_engine', Token('builder', attrs={'build': build,
                                                                  'merge': merge}),
               r.layout, *[r.series[n] for n in PARAMS], n_processes=np_, **kw)
        ck.fact('reports are merged once, in the order of time', name, orders ==
                [['report%d' % (i + 1) for i in range(np_)]], 'merged %r' % (orders,))
        ck.fact('one simulation per process', name, len(seen) == np_, '%d' % len(seen))
        for k, d in enumerate(seen[:np_]):
            for q in PARAMS + ('ghi',):
                if d.get(q) is None:
                    ck.fact('a part gets its timesteps', '%s: part %d, %s' % (name, k, q), False,
                            'missing')
                else:
                    ck.eq('a part gets its timesteps', '%s: part %d, %s' % (name, k, q),
                          w.elem(d[q]), w.elem(parts[q][k]))

    def fast_facts(ck, r, name):
        w = r.w
        for kind, o in r.made:
            if kind == 'engine':
                f = r.fast or (None, None)
                for q, v in zip(('fast_mode_pvrow_index', 'fast_mode_segment_index'), f):
                    ck.fact('selection of the fast mode', '%s: %s' % (name, q),
                            w.attr(o, q) == v, 'engine has %r' % (w.attr(o, q),))

    def serial(c, name):
        r = Runner(ck, *c)
        w = r.w
        got = []
        rep = Token('report')

        def build(I, a, k):
            got.append(results(w, a[0]))
            return rep
        out = w.call('run.run_timeseries_engine', build, r.layout,
                     *[r.series[n] for n in PARAMS], **r.options())
        ck.fact('one simulation, one report', name, len(got) == 1 and out is rep,
                '%d reports, returned %r' % (len(got), out))
        for kind in ('array', 'engine', 'irradiance', 'vf'):
            ck.fact('the given classes are used', '%s: %s' % (name, kind),
                    sum(1 for k, _ in r.made if k == kind) == 1, 'not used once')
        if got:
            same(ck, 'the runner equals the direct simulation', name, got[0],
                 r.direct(r.series, r.ghi_series))
        fast_facts(ck, r, name)
    jobs = [('%d processes' % k, lambda k=k: many('%d processes' % k, k)) for k in (12, 23)]
    jobs += [('%d processes, DatetimeIndex' % k, lambda k=k: many(
        '%d processes, timestamps as DatetimeIndex' % k, k, 'DatetimeIndex')) for k in (2, 5)]
    for c in CONF:
        jobs.append(('runner, ' + conf_name(c),
                     lambda c=c: serial(c, 'runner, ' + conf_name(c))))
        for np_ in (1, 3, -1) if ck.tier != 'thorough' else (1, 2, 3, 5, -1):
            nm = '%s processes, %s' % (np_, conf_name(c))
            jobs.append((nm, lambda c=c, nm=nm, np_=np_: job(c, nm, np_)))
    jobs.append(('example report', lambda: example(ck)))
    ck.par(jobs)


def example(ck):
    """the report builder shipped with the package concatenates the parts in order"""
    w = ck.world()
    cls = w.get('report.ExampleReportBuilder')
    for n in (1, 2, 3):
        reps = [PyDict([(k, PyList([sym('%s%d.%d' % (k, i, j)) for j in range(2)]))
                        for k in ('a', 'b')]) for i in range(n)]
        keep = [[list(v.items) for v in r.d.values()] for r in reps]
        out = w.call(w.I.getattr(cls, 'merge'), PyList(reps))
        for k in ('a', 'b'):
            got = w.items(out.d[k])
            want = [sym('%s%d.%d' % (k, i, j)) for i in range(n) for j in range(2)]
            ck.fact('merged report = parts one after the other', '%d parts, %s' % (n, k),
                    len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                    'merged %s' % ([tm.show(lift(x), 3) for x in got],))


# ------------------------------------------------------------------ P16
def simulate(w, n, cut, model, faoi, values, ghi, mode, albedo=None):
    """fit and run an engine; values: name -> input"""
    arr = w.pvarray(n, cut)
    eng = engine(w, arr, model, faoi)
    a = [values[k] for k in w.FIT]
    if albedo is not None:
        a[-1] = albedo
    w.meth(eng, 'fit', *a, **({'ghi': values['ghi']} if ghi else {}))
    run(w, eng, mode)
    return results(w, arr) + [('no-sun flag', w.elem(w.attr(eng, 'skip_step'))),
                              ('number of timesteps', lift(w.attr(eng, 'n_points')))]


def run(w, eng, mode):
    if mode == 'full':
        w.meth(eng, 'run_full_mode')
    elif mode is not None:
        w.meth(eng, 'run_fast_mode', pvrow_index=mode[0], segment_index=mode[1])


@prop('P16')
def scalars(ck):
    names = World.FIT + ('ghi',)

    def job(name, n, cut, model, faoi, ghi, mode):
        w = ck.world()
        sc = {k: sym(k + '0') for k in names}
        sc['timestamps'] = Token('timestamp', scalar=False)
        one = {k: NDArr((1,), [v]) for k, v in sc.items() if isinstance(v, T)}
        one['timestamps'] = PyList([sc['timestamps']])
        a = simulate(w, n, cut, model, faoi, sc, ghi, mode)
        b = simulate(w, n, cut, model, faoi, one, ghi, mode)
        same(ck, 'one timestep given as numbers = series of one', name, a, b)
        c = simulate(w, n, cut, model, faoi, one, ghi, mode, albedo=sc['albedo'])
        same(ck, 'one albedo number = constant series (one timestep)', name, c, b)
        w = ck.world()
        ser = {k: NDArr((w.t,), [sym(k + '@t')]) for k in names}
        a = simulate(w, n, cut, model, faoi, ser, ghi, mode, albedo=sym('albedo0'))
        b = simulate(w, n, cut, model, faoi, ser, ghi, mode,
                     albedo=NDArr((w.t,), [sym('albedo0')]))
        same(ck, 'one albedo number = constant series', name, a, b)

    def models(name, model, faoi, ghi):
        w = ck.world()
        sc = {k: sym(k + '0') for k in names}
        one = {k: NDArr((1,), [v]) for k, v in sc.items()}
        res = []
        for v in (sc, one):
            arr = w.pvarray(2, {0: {'back': 2}})
            w.meth(arr, 'fit', *[one[k] for k in w.SOL])
            m = w.model(model, **w.params(faoi=faoi))
            w.meth(m, 'fit', *[v[k] for k in w.FIT], **({'ghi': v['ghi']} if ghi else {}))
            w.meth(m, 'transform', arr)
            r = results(w, arr)
            for nm in ('gnd_illum', 'gnd_shaded', 'pvrow_illum', 'pvrow_shaded',
                       'sky_luminance'):
                r.append((nm, w.elem(w.attr(m, nm))))
            res.append(r)
        same(ck, 'model: one timestep given as numbers = series of one', name, *res)

    def objects(name, n, cut, model, mode):
        w = ck.world()
        ser = {k: NDArr((w.t,), [sym(k + '@t')]) for k in names}
        b = simulate(w, n, cut, model, True, ser, True, mode)
        for which in ('object', 'front', 'back') if n == 1 or ck.tier == 'thorough' else \
                ('object',):
            a = simulate(w, n, cut, model, which, ser, True, mode)
            same(ck, 'objects with a loss method = their method', '%s, %s' % (
                name, 'both' if which == 'object' else which), a, b)

    def kinds(name, n, cut, model, faoi, ghi, mode):
        # the numbers given may be integers, or truth values: nothing else is cut to them
        w = ck.world()
        ser = {k: NDArr((w.t,), [sym(k + '@t')]) for k in names}
        for k, v in ser.items():
            if k != 'timestamps':
                v.store.dt = 'n'
        w.reset()
        simulate(w, n, cut, model, faoi, ser, ghi, mode)
        bad = [e for e in w.I.events if e[0] == 'narrow']
        ck.fact('integers mean the same as floating-point numbers', name, not bad,
                'a fractional number or a signed zero is stored in an array of the type of the '
                'input (or of truth values)', bad[0][2] if bad else None)

    def layouts(name, n, cut):
        w = ck.world()
        lay = dict(LAYOUT, n_pvrows=n, cut=PyDict([(k, PyDict(list(v.items())))
                                                    for k, v in (cut or {}).items()]))
        sol = {k: sym(k + '0') for k in w.SOL}
        cls = w.get('geometry.OrderedPVArray')
        a = w.call(w.I.getattr(cls, 'fit_from_dict_of_scalars'),
                   PyDict(list(lay.items()) + list(sol.items())))
        b = w.call(w.I.getattr(cls, 'init_from_dict'), PyDict(list(lay.items())))
        w.meth(b, 'fit', *[NDArr((1,), [sol[k]]) for k in w.SOL])
        same(ck, 'layout from one mapping = layout fitted on series of one', name,
             results(w, a), results(w, b))
        c = w.call(cls, **lay)
        w.meth(c, 'fit', *[NDArr((1,), [sol[k]]) for k in w.SOL])
        same(ck, 'layout from a mapping = layout from arguments', name,
             results(w, b), results(w, c))
        for q in ('axis_azimuth', 'gcr', 'height', 'width', 'n_pvrows', 'distance'):
            ck.eq('layout attributes', '%s: %s' % (name, q), lift(w.attr(b, q)),
                  lift(w.attr(c, q)))
    jobs = []
    for i, m in enumerate(MODELS):
        for f, g, mode in ((False, False, 'full'), (True, True, 'full'), (False, True, (0, None)),
                           (False, False, (0, 1))):
            n = 1 if mode == 'full' and f == g else 2
            cut = {0: {'back': 2}} if n == 2 else None
            nm = '%s, %d row(s), %s mode%s%s' % (m, n, mode if mode == 'full' else
                                                 'fast %s' % (mode,),
                                                 ', angular functions' if f else '',
                                                 ', GHI' if g else '')
            jobs.append((nm, lambda nm=nm, n=n, cut=cut, m=m, f=f, g=g, mode=mode:
                         job(nm, n, cut, m, f, g, mode)))
            nm2 = 'model ' + nm
            jobs.append((nm2, lambda nm2=nm2, m=m, f=f, g=g: models(nm2, m, f, g)))
            nm3 = 'integers, ' + nm
            jobs.append((nm3, lambda nm3=nm3, n=n, cut=cut, m=m, f=f, g=g, mode=mode:
                         kinds(nm3, n, cut, m, f, g, mode)))
        for n, mode in ((1, 'full'), (2, (0, None)), (2, 'full')):
            nm4 = '%s, %d row(s), %s' % (m, n, mode)
            jobs.append((nm4, lambda nm4=nm4, m=m, n=n, mode=mode:
                         objects(nm4, n, None, m, mode)))
    for n, cut in ((1, None), (2, {0: {'front': 2}}), (3, {2: {'back': 3}})):
        nm = 'layout of %d row(s)' % n
        jobs.append((nm, lambda nm=nm, n=n, cut=cut: layouts(nm, n, cut)))
    ck.par(jobs)


# ------------------------------------------------------------------ P17
HIST = [('full', 'full'), ('full', (0, None)), ((0, None), 'full'), ((1, None), (0, None)),
        (None, 'full'), (None, (1, None)), ((0, 0), (0, 1)), ((0, 1), (1, None))]


@prop('P17')
def history(ck):
    """an engine used before gives the same results as a new one"""
    def values(w, suffix, dim):
        a, k = inputs(w, suffix, dim)
        return a, k

    def job(name, model, faoi, first, second, same_inputs, n=2, cut={0: {'back': 2}}):
        w = ck.world()
        d1 = w.np.dim_of(sym('n_first'))
        old = values(w, 'old', d1)
        new = values(w, '', w.t)
        if not same_inputs and ck.tier == 'thorough' or faoi:
            old = (old[0], {})
        if same_inputs:
            old = new
        if 'full' in (first, second) and n > 1:
            n, cut = 1, {0: {'back': 2}}
        fix = lambda m: (0, m[1]) if n == 1 and isinstance(m, tuple) else m
        first, second = fix(first), fix(second)
        used = engine(w, w.pvarray(n, cut), model, faoi)
        w.meth(used, 'fit', *old[0], **old[1])
        run(w, used, first)
        if not same_inputs:
            w.meth(used, 'fit', *new[0], **new[1])
        run(w, used, second)
        fresh = engine(w, w.pvarray(n, cut), model, faoi)
        w.meth(fresh, 'fit', *new[0], **new[1])
        run(w, fresh, second)
        got = results(w, w.attr(used, 'pvarray'), every=second == 'full')
        want = results(w, w.attr(fresh, 'pvarray'), every=second == 'full')
        if same_inputs:
            # results of the earlier run stay on the surfaces it evaluated
            names = set(k for k, _ in want)
            got = [(k, v) for k, v in got if k in names]
        same(ck, 'earlier use leaves no trace', name, got, want)
        for q in ('skip_step', 'n_points'):
            ck.eq('earlier use leaves no trace', '%s: %s' % (name, q),
                  w.elem(w.attr(used, q)), w.elem(w.attr(fresh, q)))
        for q in ('gnd_illum', 'gnd_shaded', 'pvrow_illum', 'pvrow_shaded', 'sky_luminance',
                  'rho_front', 'rho_back'):
            ck.eq('earlier use leaves no trace', '%s: model %s' % (name, q),
                  w.elem(w.attr(used, 'irradiance', q)), w.elem(w.attr(fresh, 'irradiance', q)))

    def twins(name, model, faoi):
        """two engines side by side do not influence each other"""
        w = ck.world()
        mk_ = lambda: engine(w, w.pvarray(1, {0: {'back': 2}}), model, faoi)
        new, old = values(w, '', w.t), values(w, 'old', w.np.dim_of(sym('n_first')))
        a = mk_()
        b = mk_()
        w.meth(a, 'fit', *new[0], **new[1])
        w.meth(b, 'fit', *old[0], **old[1])
        run(w, b, 'full')
        run(w, a, 'full')
        run(w, b, (0, None))
        c = mk_()
        w.meth(c, 'fit', *new[0], **new[1])
        run(w, c, 'full')
        same(ck, 'simulations do not influence each other', name,
             results(w, w.attr(a, 'pvarray')), results(w, w.attr(c, 'pvarray')))

    def between(name, model, faoi, mode, n):
        """looking at an array, or storing other values on it, changes no result"""
        w = ck.world()
        new = values(w, '', w.t)
        out = []
        for look_ in (False, True):
            arr = w.pvarray(n, {0: {'back': 2}})
            look = (lambda: looks(w, arr)) if look_ else (lambda: None)
            e = engine(w, arr, model, faoi)
            look()
            w.meth(e, 'fit', *new[0], **new[1])
            look()
            run(w, e, mode)
            look()
            if look_:
                run(w, e, mode)
            out.append([r for r in results(w, arr, every=mode == 'full')
                        if ': note' not in r[0]])
        same(ck, 'looking at an array changes no result', name, out[1], out[0])

    def looks(w, arr):
        if w.attr(arr, 'ts_pvrows') is None:
            return
        other = PyDict([('note', NDArr((w.t,), [sym('note@t')])), ('note2', sym('note0'))])
        rows = w.items(w.attr(arr, 'ts_pvrows'))
        g = w.attr(arr, 'ts_ground')
        w.meth(arr, 'update_params', other)
        for o in [g] + rows + [w.attr(r, s) for r in rows for s in ('front', 'back')]:
            w.meth(o, 'update_params', other)
            for nm in ('get_param_weighted', 'get_param_ww'):
                if w.I.class_lookup(o.cls, nm)[0]:
                    w.meth(o, nm, 'note')
        for nm in ('all_ts_surfaces', 'n_ts_surfaces', 'ts_surface_indices'):
            w.attr(arr, nm)
        if len(rows) == 1:
            w.meth(g, 'at', 0, with_cut_points=False, merge_if_flag_overlap=False)
        for nm in ('length', 'shaded_length'):
            w.attr(g, nm)
        for r in rows:
            for k in (0, -1):
                w.meth(r, 'at', k)
            for nm in ('centroid', 'length', 'highest_point'):
                w.attr(r, nm)

    def shared(name, model, faoi):
        """model and calculator reused with another array"""
        w = ck.world()
        m = w.model(model, **w.params(faoi=faoi))
        kw = dict(faoi_fn_front=w.faoi('front'), faoi_fn_back=w.faoi('back'),
                  n_aoi_integral_sections=sym('nsec')) if faoi else {}
        c = w.call('viewfactors.VFCalculator', **kw)
        new, old = values(w, '', w.t), values(w, 'old', w.np.dim_of(sym('n_first')))
        e1 = w.call('engine.PVEngine', w.pvarray(2), irradiance_model=m, vf_calculator=c)
        w.meth(e1, 'fit', *old[0], **old[1])
        run(w, e1, 'full')
        arr = w.pvarray(1, {0: {'back': 2}})
        e2 = w.call('engine.PVEngine', arr, irradiance_model=m, vf_calculator=c)
        w.meth(e2, 'fit', *new[0], **new[1])
        run(w, e2, 'full')
        e3 = engine(w, w.pvarray(1, {0: {'back': 2}}), model, faoi)
        w.meth(e3, 'fit', *new[0], **new[1])
        run(w, e3, 'full')
        same(ck, 'model and calculator used before leave no trace', name,
             results(w, arr), results(w, w.attr(e3, 'pvarray')))
    jobs = []
    for i, m in enumerate(MODELS):
        for j, (a, b) in enumerate(HIST):
            for s in (False, True):
                f = (i + j) % 2 == 0
                nm = '%s%s, %s then %s, %s inputs' % (m, ', angular functions' if f else '', a, b,
                                                      'same' if s else 'other')
                jobs.append((nm, lambda nm=nm, m=m, f=f, a=a, b=b, s=s: job(nm, m, f, a, b, s)))
        for j, (n, mode) in enumerate(((1, 'full'), (2, (0, None)), (2, (1, 0)))):
            f = (i + j) % 2 == 0
            nm = '%s%s, %s, looked at' % (m, ', angular functions' if f else '', mode)
            jobs.append((nm, lambda nm=nm, m=m, f=f, mode=mode, n=n: between(nm, m, f, mode, n)))
        for f in (False, True):
            nm = '%s%s, side by side' % (m, ', angular functions' if f else '')
            jobs.append((nm, lambda nm=nm, m=m, f=f: twins(nm, m, f)))
            nm2 = '%s%s, reused parts' % (m, ', angular functions' if f else '')
            jobs.append((nm2, lambda nm2=nm2, m=m, f=f: shared(nm2, m, f)))
    ck.par(jobs)
