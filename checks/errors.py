"""Wrong use is refused, valid use is not."""
from . import prop
from . import watch
from .runs import engine, inputs, run, MODELS
from .effects import own
from sa import terms as tm
from sa.world import *
from sa.obl import Section


def refused(ck, w, rule, where, f, kinds):
    """f raises one of the exceptions for every input"""
    n = len(w.I.raises)
    try:
        f()
    except AbsRaise as e:
        nm = ck.excname(e.exc)
        ck.fact(rule, where, nm in kinds, 'raises %s, required %s' % (nm, kinds[0]), e.loc)
        return
    # an exception raised on some of the paths only
    conds = [c for c, e, l in w.I.raises[n:]]
    ck.fact(rule, where, any(c is TRUE for c in conds), 'accepted')


def accepted(ck, w, rule, where, f):
    n = len(w.I.raises)
    try:
        v = f()
    except AbsRaise as e:
        ck.fact(rule, where, False, 'raises %s' % ck.excname(e.exc), e.loc)
        return None
    bad = [r for r in w.I.raises[n:] if r[0] is not FALSE]
    ck.fact(rule, where, not bad, 'raises %s under %s' % (
        (bad[0][1], tm.show(bad[0][0], 4)[:200]) if bad else ('', '')),
        bad[0][2] if bad else None)
    return v


PKG_ERR = ('PVFactorsError',)


@prop('P28')
def discipline(ck):
    # ------------------------------------------------------------ angular functions
    def angular():
        w = ck.world()
        ok, bad = w.faoi('front'), num(1)
        cls = 'viewfactors.aoimethods.AOIMethods'
        calc = 'viewfactors.VFCalculator'
        for nm, x in (('number', num(1)), ('list', PyList([num(1)])), ('text', 'text'),
                      ('nothing', None), ('mapping', PyDict())):
            for side, a in (('front', (x, ok)), ('back', (ok, x)), ('both', (x, x))):
                refused(ck, w, 'angular functions have to be callable', '%s as %s' % (nm, side),
                        lambda: w.call(cls, a[0], a[1]), PKG_ERR)
                if nm != 'nothing':
                    refused(ck, w, 'angular functions have to be callable',
                            'calculator: %s as %s' % (nm, side),
                            lambda: w.call(calc, faoi_fn_front=a[0], faoi_fn_back=a[1]), PKG_ERR)
        accepted(ck, w, 'functions are accepted', 'both', lambda: w.call(cls, ok, ok))
        obj = Token('object', attrs={'faoi': w.faoi('front')})
        accepted(ck, w, 'functions are accepted', 'object with a faoi method',
                 lambda: w.call(calc, faoi_fn_front=obj, faoi_fn_back=ok))
        for a, b in ((None, ok), (ok, None), (None, None)):
            c = accepted(ck, w, 'without both functions there is no angular model',
                         'front %s, back %s' % (a, b),
                         lambda: w.call(calc, faoi_fn_front=a, faoi_fn_back=b))
            if c is not None:
                ck.fact('without both functions there is no angular model',
                        'front %s, back %s: methods' % (a, b),
                        w.attr(c, 'vf_aoi_methods') is None, 'angular methods exist')

    # ------------------------------------------------------------ layout
    def layout():
        w = ck.world()
        arr = w.pvarray(0)
        refused(ck, w, 'an array without rows is refused', 'fit', lambda: w.fit_array(arr), PKG_ERR)
        for n in (1, 2, 3, 4, 7):
            w = ck.world()
            accepted(ck, w, 'every layout with rows is accepted', '%d rows' % n,
                     lambda: w.fit_array(w.pvarray(n, {0: {'front': 3}})))

    # ------------------------------------------------------------ abstract interfaces
    def abstract():
        w = ck.world()
        base = w.call('irradiance.base.BaseModel')
        for nm in ('fit', 'transform', 'get_full_modeling_vectors'):
            refused(ck, w, 'what a model has to provide is refused by the base class', nm,
                    lambda: w.meth(base, nm), ('NotImplementedError',))
        for nm in ('gnd_shaded', 'gnd_illum', 'pvrow_shaded', 'pvrow_illum', 'sky_luminance'):
            refused(ck, w, 'what a model has to provide is refused by the base class', nm,
                    lambda: w.attr(base, nm), ('NotImplementedError',))
        arr = w.call('geometry.base.BasePVArray')
        refused(ck, w, 'what an array has to provide is refused by the base class', 'fit',
                lambda: w.meth(arr, 'fit'), ('NotImplementedError',))

    # ------------------------------------------------------------ shading of collections
    def collections():
        w = ck.world()
        S = lambda x, sh, nv=None: w.call(
            'geometry.base.PVSurface', PyList([(num(x), ZERO), (num(x + 1), ZERO)]), shaded=sh,
            normal_vector=nv)
        C = lambda ss, sh=None: w.call('geometry.base.ShadeCollection', PyList(list(ss)),
                                       shaded=sh)
        for n in range(1, 5):
            for k in range(2 ** n):
                flags = [bool(k >> i & 1) for i in range(n)]
                f = lambda: C([S(2 * i, b) for i, b in enumerate(flags)])
                at = 'surfaces %s' % ''.join('s' if b else 'l' for b in flags)
                if len(set(flags)) > 1:
                    refused(ck, w, 'shaded and lit surfaces do not mix', at, f, PKG_ERR)
                else:
                    c = accepted(ck, w, 'uniform collections are accepted', at, f)
                    if c is not None:
                        ck.fact('a collection has the shading of its surfaces', at,
                                w.attr(c, 'shaded') is flags[0], 'another shading')
        for sh in (True, False):
            c = C([], sh)
            ck.fact('an empty collection has the shading asked for', str(sh),
                    w.attr(c, 'shaded') is sh, 'another shading')
        seg = 'geometry.base.PVSegment'
        A = ('AssertionError',)
        lit, shd = (lambda: C([S(0, False)])), (lambda: C([S(1, True)]))
        for nm, kw in (('lit as shaded', dict(illum_collection=lit(), shaded_collection=lit())),
                       ('shaded as lit', dict(illum_collection=shd(), shaded_collection=shd())),
                       ('exchanged', dict(illum_collection=shd(), shaded_collection=lit()))):
            refused(ck, w, 'segments keep lit and shaded collections apart', nm,
                    lambda: w.call(seg, **kw), A)
        s = accepted(ck, w, 'segments are accepted', 'lit and shaded', lambda: w.call(
            seg, illum_collection=lit(), shaded_collection=shd()))
        if s is not None:
            for nm, v in (('shaded_collection', lit()), ('illum_collection', shd())):
                refused(ck, w, 'segments keep lit and shaded collections apart', 'set ' + nm,
                        lambda: w.I.setattr(s, nm, v), A)
            for nm, v in (('shaded_collection', shd()), ('illum_collection', lit())):
                accepted(ck, w, 'segments are accepted', 'set ' + nm,
                         lambda: w.I.setattr(s, nm, v))
        # direction
        V = lambda a, b: PyList([num(a), num(b)])
        skew = C([S(0, False, V(0, 1)), S(1, False, V(1, 0))])
        refused(ck, w, 'surfaces which are not aligned have no common normal', 'collection',
                lambda: w.attr(skew, 'n_vector'), PKG_ERR)
        refused(ck, w, 'segments are straight', 'lit part', lambda: w.call(
            seg, illum_collection=skew, shaded_collection=shd()), A)
        bent = C([S(0, True, V(0, 1)), S(1, True, V(1, 0))])
        for what, l in (('shaded part', lambda: C([], False)), ('shaded part of a lit one', lit)):
            refused(ck, w, 'segments are straight', what, lambda: w.call(
                seg, illum_collection=l(), shaded_collection=bent), A + PKG_ERR)
        refused(ck, w, 'segments are straight', 'lit part of a shaded one', lambda: w.call(
            seg, illum_collection=skew, shaded_collection=shd()), A + PKG_ERR)
        refused(ck, w, 'segments are straight', 'lit against shaded', lambda: w.call(
            seg, illum_collection=C([S(0, False, V(1, 0))]),
            shaded_collection=C([S(1, True, V(0, 1))])), A)
        mk_ = lambda a, b: w.call(seg, illum_collection=C([S(0, False, V(a, b))]),
                                  shaded_collection=C([], True))
        for cls in ('geometry.base.BaseSide', 'geometry.pvrow.PVRowSide',
                    'geometry.pvground.PVGround'):
            for n in (2, 3):
                for odd in range(n):
                    refused(ck, w, 'sides are straight', '%s: segment %d of %d' % (cls, odd, n),
                            lambda: w.call(cls, PyList([mk_(1, 0) if i == odd else mk_(0, 1)
                                                        for i in range(n)])), PKG_ERR)
                accepted(ck, w, 'straight sides are accepted', '%s: %d segments' % (cls, n),
                         lambda: w.call(cls, PyList([mk_(0, 1) for i in range(n)])))

    # ------------------------------------------------------------ valid simulations
    def valid(name, model, faoi, ghi, n, cut, mode):
        w = ck.world()

        def f():
            e = engine(w, w.pvarray(n, cut), model, faoi)
            a, kw = inputs(w, ghi=ghi)
            w.meth(e, 'fit', *a, **kw)
            run(w, e, mode)
            return e
        accepted(ck, w, 'valid simulations run', name, f)
    jobs = [('angular functions', angular), ('layout', layout), ('interfaces', abstract),
            ('collections', collections)]
    for m in MODELS:
        for f in (False, True):
            for n, cut, mode in ((1, {0: {'back': 2}}, 'full'), (2, None, 'full'),
                                 (2, {0: {'front': 2}}, (0, None)), (3, None, (1, 0))):
                nm = '%s%s, %d rows, %s' % (m, ', angular functions' if f else '', n, mode)
                jobs.append((nm, lambda nm=nm, m=m, f=f, n=n, cut=cut, mode=mode:
                             valid(nm, m, f, not f, n, cut, mode)))

    def after(name, wt):
        bad = [r for w in wt.mine for r in w.allraises() if r[0] is not FALSE]
        ck.fact('valid use raises no error', name, not bad, 'raises %s under %s' % (
            (bad[0][1], tm.show(bad[0][0], 4)[:200]) if bad else ('', '')),
            bad[0][2] if bad else None)
    from .snap import snapshots
    from .shapes import shapes
    from .plots import plots
    from .light import luminance
    from .runs import parallel
    from .params import params
    from .coords import coords, reports
    from .vectors import vectors
    jobs += watch.scenes(ck, (('snapshots', snapshots), ('shapes', shapes), ('plots', plots),
                              ('sky luminance', luminance), ('runners', parallel),
                              ('values', params), ('lengths', coords),
                              ('reports', reports), ('vectors', vectors)), after,
                         # (segments of this scene are not straight)
                         skip=('plots: one timestep',))
    ck.par(jobs)
