"""Named results on the surfaces: assignment at every level, sums and weighted averages, and the
average reflectivity derived from the angular functions."""
from . import prop
from .geo import Geo, CHAOS
from sa import terms as tm
from sa.world import *
from sa.obl import Section

NSEC = 'nsec'
HALF = num(1) / num(2)
RANGES = CHAOS + [('val', 1., 9., ()), ('new', 10., 90., ())]
CASES = [(1, None), (2, {0: {'front': 2, 'back': 3}}), (3, {1: {'back': 2}, 2: {'front': 3}}),
         (4, {0: {'front': 4}, 3: {'back': 5}})]
DEEP = [(5, None), (7, {6: {'front': 2}}), (2, {0: {'back': 11}})]


class Tree(object):
    """levels of the array: (name, object, surfaces below it)"""

    def __init__(self, ck, n, cut):
        self.G = G = Geo(ck, n, cut)
        w = self.w = G.w
        self.surf = G.surf
        pick = lambda **kw: [d for d in G.surf if all(d.get(k) == v for k, v in kw.items())]
        self.levels = lv = [('array', G.arr, G.surf), ('ground', G.ground, pick(kind='ground'))]
        for k, kd in (('shaded', 'shadow_elements'), ('illum', 'illum_elements')):
            lv.append(('ground ' + k + ' surfaces', w.attr(G.ground, k), pick(elkind=kd)))
        self.elements = []
        for kd in ('shadow_elements', 'illum_elements'):
            for e, el in enumerate(w.items(w.attr(G.ground, kd))):
                self.elements.append(('ground element %s %d' % (kd[0], e), el,
                                      pick(elkind=kd, el=e), kd))
        for r, row in enumerate(G.rows):
            lv.append(('row %d' % r, row, pick(row=r)))
            for side in ('front', 'back'):
                s = w.attr(row, side)
                at = 'row %d %s' % (r, side)
                lv.append((at, s, pick(row=r, side=side)))
                for k, seg in enumerate(w.items(w.attr(s, 'list_segments'))):
                    a2 = '%s segment %d' % (at, k)
                    lv.append((a2, seg, pick(row=r, side=side, seg=k)))
                    for kd, flag in (('illum', False), ('shaded', True)):
                        lv.append(('%s %s part' % (a2, kd), w.attr(seg, kd),
                                   pick(row=r, side=side, seg=k, shaded=flag)))
        for i, d in enumerate(G.surf):
            lv.append(('surface %d' % i, d['obj'], [d]))
        self.fill()

    def fill(self):
        w = self.w
        for i, d in enumerate(self.surf):
            d['p'], d['keep'] = sym('val%d@t' % i), sym('valk%d@t' % i)
            d['nan'] = sym('vals%d' % i)
            w.meth(d['obj'], 'update_params', PyDict([
                ('p', NDArr((w.t,), [d['p']])), ('keep', NDArr((w.t,), [d['keep']])),
                ('scalar', d['nan'])]))

    def get(self, d, name):
        v = self.w.meth(d['obj'], 'get_param', name)
        return None if v is None or v is UNDEF else self.w.elem(v)


def cases(ck):
    return CASES + (DEEP if ck.tier == 'thorough' else [])


@prop('P20')
def params(ck):
    def job(n, cut, name):
        T_ = Tree(ck, n, cut)
        w = T_.w
        # ------------------------------------------------------- sums and averages
        for at, o, below in T_.levels + [e[:3] for e in T_.elements]:
            where = '%s: %s' % (name, at)
            tot = lambda f: sum_(f(d) for d in below)
            length = tot(lambda d: d['line'].length)
            for nm in ('p', 'scalar'):
                key = 'p' if nm == 'p' else 'nan'
                ww = tot(lambda d: d['line'].length * d[key])
                if has(w, o, 'get_param_ww'):
                    v = w.meth(o, 'get_param_ww', nm)
                    ck.eq('length-weighted sum', '%s, %s' % (where, nm), w.elem(v), ww,
                          ranges=RANGES)
            if at == 'array' or at.startswith('ground element') or \
                    (at.startswith('ground') and at != 'ground'):
                own = None
            else:
                own = length
            if at.startswith('ground element') or at == 'ground':
                e = w.elem(w.attr(o, 'length'))
                if has(w, o, 'get_param_weighted'):
                    v = w.elem(w.meth(o, 'get_param_weighted', 'p'))
                    ck.eq('average = length-weighted sum / length', where, v,
                          tot(lambda d: d['line'].length * d['p']) / e, hyp=e > 0,
                          ranges=RANGES)
            elif has(w, o, 'get_param_weighted'):
                v = w.elem(w.meth(o, 'get_param_weighted', 'p'))
                ck.eq('average = length-weighted sum / length', where, v,
                      tot(lambda d: d['line'].length * d['p']) / length, hyp=length > 0,
                      ranges=RANGES)
            if own is not None and at != 'ground':
                ck.eq('length = sum of the lengths of its surfaces', where,
                      w.elem(w.attr(o, 'length')), own, ranges=RANGES)
            if has(w, o, 'shaded_length') and at != 'ground':
                ck.eq('shaded length', where, w.elem(w.attr(o, 'shaded_length')),
                      tot(lambda d: d['line'].length if d['shaded'] is True else ZERO),
                      ranges=RANGES)
            if has(w, o, 'n_ts_surfaces'):
                ck.eq('number of surfaces', where, lift(w.attr(o, 'n_ts_surfaces')),
                      num(len(below)))
            if has(w, o, 'all_ts_surfaces'):
                got = w.items(w.attr(o, 'all_ts_surfaces'))
                ck.fact('surfaces of the element', where, len(got) == len(below) and
                        all(a is d['obj'] for a, d in zip(got, below)),
                        'not the surfaces below it, or in another order')
        els = T_.elements
        for nm, kinds in (('length', ('shadow_elements', 'illum_elements')),
                          ('shaded_length', ('shadow_elements',))):
            ck.eq('ground ' + nm, name, w.elem(w.attr(T_.G.ground, nm)),
                  sum_(w.elem(w.attr(e[1], 'coords', 'length')) for e in els if e[3] in kinds),
                  ranges=RANGES)
        # -------------------------------------------------------------- assignment
        for at, o, below in T_.levels:
            if has(w, o, 'update_params'):
                assign(at, o, 'update_params', below, T_, name)
        g = T_.G.ground
        sh = [d for d in T_.surf if d.get('elkind') == 'shadow_elements']
        il = [d for d in T_.surf if d.get('elkind') == 'illum_elements']
        assign('ground (lit)', g, 'update_illum_params', il, T_, name)
        assign('ground (shaded)', g, 'update_shaded_params', sh, T_, name)

    def assign(at, o, meth, below, T_, name):
        w = T_.w
        T_.fill()
        g = T_.G.ground
        whole = {}
        for q in ('illum_params', 'shaded_params'):
            w.I.setitem(w.attr(g, q), 'p', NDArr((w.t,), [sym('valw_' + q + '@t')]))
        for e in T_.elements:
            w.I.setitem(w.attr(e[1], 'params'), 'p', NDArr((w.t,), [sym('vale%s@t' % e[0])]))
        new, extra = sym('new@t'), sym('newextra@t')
        given = PyDict([('p', NDArr((w.t,), [new])), ('extra', NDArr((w.t,), [extra]))])
        w.meth(o, meth, given)
        where = '%s: %s.%s' % (name, at, meth)
        for d in T_.surf:
            inside = any(d is b for b in below)
            v = T_.get(d, 'p')
            rule = 'assigned values reach every surface below' if inside else \
                'surfaces elsewhere keep their values'
            if v is None:
                ck.fact(rule, '%s -> %s' % (where, d['name']), False, 'value missing')
            else:
                ck.eq(rule, '%s -> %s' % (where, d['name']), v, new if inside else d['p'],
                      ranges=RANGES)
            k = T_.get(d, 'keep')
            if k is None:
                ck.fact('other values are kept', '%s -> %s' % (where, d['name']), False,
                        'value missing')
            else:
                ck.eq('other values are kept', '%s -> %s' % (where, d['name']), k, d['keep'],
                      ranges=RANGES)
            if inside:
                x = w.attr(d['obj'], 'params').d.get('extra', UNDEF)
                ck.fact('new names are added', '%s -> %s' % (where, d['name']),
                        x is not UNDEF and x is not None, 'value missing')
                if x is not UNDEF and x is not None:
                    ck.eq('new names are added', '%s -> %s value' % (where, d['name']),
                          w.elem(x), extra, ranges=RANGES)
        both = meth == 'update_params'
        for q, hit in (('illum_params', at in ('array', 'ground', 'ground (lit)')),
                       ('shaded_params', at in ('array', 'ground', 'ground (shaded)'))):
            v = w.elem(w.attr(g, q).d['p'])
            ck.eq('values of the ground as a whole', '%s -> %s' % (where, q), v,
                  new if hit else sym('valw_' + q + '@t'), ranges=RANGES)
        for e in T_.elements:
            lit = e[3] == 'illum_elements'
            hit = at in (('array', 'ground', 'ground (lit)') if lit else
                         ('array', 'ground', 'ground (shaded)'))
            v = w.elem(w.attr(e[1], 'params').d['p'])
            ck.eq('values of the ground elements', '%s -> %s' % (where, e[0]), v,
                  new if hit else sym('vale%s@t' % e[0]), ranges=RANGES)
        ck.fact('the given mapping is left as it was', where,
                list(given.keys()) == ['p', 'extra'], 'keys %r' % (given.keys(),))
        # the mapping given is copied, not kept
        d0 = below[0]
        w.I.setitem(given, 'p', NDArr((w.t,), [sym('newother@t')]))
        ck.eq('values do not follow later changes of the mapping', where, T_.get(d0, 'p'), new,
              ranges=RANGES)

    def first(n, cut, name):
        """the first values a surface gets are its own, too"""
        T_ = Tree(ck, n, cut)
        w = T_.w
        g = T_.G.ground
        lv = [(at, o, 'update_params', below) for at, o, below in T_.levels
              if has(w, o, 'update_params')]
        lv += [('ground (lit)', g, 'update_illum_params',
                [d for d in T_.surf if d.get('elkind') == 'illum_elements']),
               ('ground (shaded)', g, 'update_shaded_params',
                [d for d in T_.surf if d.get('elkind') == 'shadow_elements'])]
        for at, o, meth, below in lv:
            where = '%s: first values, %s.%s' % (name, at, meth)
            held = [(d['name'], d['obj'], 'params') for d in T_.surf] + [
                (e[0], e[1], 'params') for e in T_.elements] + [
                ('ground ' + q, g, q) for q in ('illum_params', 'shaded_params')]
            for _, x, q in held:
                w.I.setattr(x, q, PyDict([]))
            given = PyDict([('p', NDArr((w.t,), [sym('new@t')]))])
            w.meth(o, meth, given)
            for i, d in enumerate(below):
                w.meth(d['obj'], 'update_params', PyDict([('own%d' % i, NDArr((w.t,), [ONE]))]))
            ck.fact('the given mapping is left as it was', where, list(given.keys()) == ['p'],
                    'keys %r' % (given.keys(),))
            w.I.setitem(given, 'p', NDArr((w.t,), [sym('newother@t')]))
            for nm, x, q in held:
                keys = w.attr(x, q).keys()
                i = [k for k, d in enumerate(below) if d['obj'] is x]
                ok = set(k for k in keys if k != 'p') == set('own%d' % k for k in i)
                ck.fact('every surface has its own values', '%s -> %s' % (where, nm), ok,
                        'values %s' % list(keys))
                if i:
                    v = T_.get(below[i[0]], 'p') if 'p' in keys else None
                    ck.fact('assigned values reach every surface below', '%s -> %s' % (where, nm),
                            v is sym('new@t'), 'has %s' % (v if v is None else tm.show(v, 3)))

    def snapshot(n, cut):
        """values assigned to the surfaces of a snapshot stay there"""
        from .snap import Scene
        S = Scene(ck, n, cut)
        w, g = S.w, S.G.ground
        K = len(S.elements['illum_elements', 0][1])
        for bits in ((1,) * K, (1, 0) * (K // 2) + (1,) * (K % 2)):
            S.place([bits] * (S.nsh + 1), [bits] * S.nsh)
            for flag, cp in ((None, True), (True, True), (False, False), (True, False)):
                w.I.setattr(g, 'flag_overlap', None if flag is None else
                            NDArr((w.t,), [TRUE if flag else FALSE]))
                at = '%d rows, lengths %s, overlap %s%s' % (
                    n, bits, flag, '' if cp else ', no cut points')
                held = [(nm, x) for nm, x in [('ground %s' % q, w.attr(g, q)) for q in (
                    'illum_params', 'shaded_params')] + [
                        (d['name'], w.attr(d['obj'], 'params')) for d in S.G.surf] + [
                        ('element %s %d' % k, w.attr(e[0], 'params'))
                        for k, e in S.elements.items()]]
                before = [dict(x.d) for _, x in held]
                snaps = [w.meth(g, 'at', S.idx, with_cut_points=cp) for _ in range(2)]
                ss = [s for q in snaps for s in w.items(w.attr(q, 'all_surfaces'))]
                for i, s in enumerate(ss):
                    w.meth(s, 'update_params', PyDict([('series', sym('own%d' % i)),
                                                       ('n%d' % i, ONE)]))
                for i, s in enumerate(ss):
                    d = w.attr(s, 'params').d
                    ck.fact('every surface has its own values', '%s: surface %d' % (at, i),
                            d.get('series') is sym('own%d' % i) and not any(
                                'n%d' % j in d for j in range(len(ss)) if j != i),
                            'shared with another one')
                for (nm, x), b in zip(held, before):
                    ck.fact('values of a snapshot do not reach the array', '%s: %s' % (at, nm),
                            dict(x.d) == b, 'changed')

    from . import shapes
    jobs = [('one timestep', lambda: shapes.values(ck)),
            ('surfaces of their own', lambda: shapes.apart(ck))]
    jobs += [('first values, %d rows' % n, lambda n=n, c=c: first(
        n, c, '%d rows%s' % (n, ', segmented' if c else '')))
        for n, c in ((1, None), (2, {0: {'front': 2}, 1: {'back': 3}}))]
    jobs += [('snapshots, %d rows' % n, lambda n=n, c=c: snapshot(n, c))
             for n, c in ((1, None), (2, None))]
    ck.par(jobs + [('%d rows%s' % (n, ', segmented' if cut else ''),
             lambda n=n, cut=cut: job(n, cut, '%d rows%s' % (n, ', segmented' if cut else '')))
            for n, cut in cases(ck)])


def sum_(xs):
    r = ZERO
    for x in xs:
        r = r + x
    return r


def has(w, o, name):
    try:
        w.I.getattr(o, name)
        return True
    except AbsRaise:
        return False


@prop('P13')
def reflectivity(ck):
    def average(side, nsec):
        step = num(180) / nsec
        cos = lambda x: app('cos', x * tm.PI / num(180))

        def one(i):
            s0 = i * step
            return app('faoi_' + side, s0 + step * HALF) * app('abs', cos(s0) - cos(s0 + step))
        if isinstance(nsec, T) and nsec.k == 'sym':
            return ONE - HALF * app('red:sum:' + NSEC, one(sym('ix:' + NSEC)))
        return ONE - HALF * sum_(one(num(i)) for i in range(int(nsec.a[0])))
    R = [('nsec', 12., 12., ()), ('faoi', 0., 1., ()), ('rho', .05, .9, ()),
         ('angle', 0., 180., ())]
    with Section(ck, 'average reflectivity'):
        for n in (sym(NSEC), 1, 2, 7):
            w = ck.world()
            m = w.call('viewfactors.aoimethods.AOIMethods', w.faoi('front'), w.faoi('back'), n)
            for side in ('front', 'back', 'front', 'fit', 'front', 'back'):
                if side == 'fit':      # the same after the calculator has been used
                    w.meth(m, 'fit', sym('n_t'))
                    continue
                v = w.elem(w.meth(m, 'rho_from_faoi_fn', side == 'back'))
                ck.eq('average reflectivity = 1 - average absorption', '%s, %s sections' % (
                    side, n), v, average(side, num(n) if isinstance(n, int) else n), ranges=R)
    for model in ('HybridPerezOrdered', 'IsotropicOrdered'):
        with Section(ck, model):
            w = ck.world()
            m = w.model(model)
            a, b, c = sym('rho_given'), sym('rho_calc'), sym('rho_default')
            for given, calc, want in ((a, b, a), (a, None, a), (None, b, b), (None, None, c),
                                      (num(0), b, ZERO), (None, num(0), ZERO),
                                      (0, b, ZERO), (1, b, ONE), (None, 0, ZERO),
                                      (None, 1, ONE)):
                v = w.meth(m, 'initialize_rho', given, calc, c)
                ck.eq('given value first, then calculated value, then default',
                      '%s: given %s, calculated %s' % (model, given, calc), lift(v), want,
                      ranges=R)
            for gf in (None, sym('rho_front')):
                for gb in (None, sym('rho_back')):
                    at = '%s, front %s, back %s' % (model, 'given' if gf is not None else 'not',
                                                    'given' if gb is not None else 'not')
                    w = ck.world()
                    m = w.model(model, rho_front=gf, rho_back=gb)
                    calc = w.call('viewfactors.VFCalculator', faoi_fn_front=w.faoi('front'),
                                  faoi_fn_back=w.faoi('back'), n_aoi_integral_sections=sym(NSEC))
                    arr = w.pvarray(2)
                    eng = w.call(w.I.getattr(w.get('engine.PVEngine'),
                                             'with_rho_initialization'), arr, calc, m)
                    im = w.attr(eng, 'irradiance')
                    ck.fact('the engine is built from the objects given', at,
                            im is m and w.attr(eng, 'pvarray') is arr and
                            w.attr(eng, 'vf_calculator') is calc, 'other objects are used')
                    for side, g in (('front', gf), ('back', gb)):
                        ck.eq('reflectivity the engine starts from', '%s: %s' % (at, side),
                              w.elem(w.attr(im, 'rho_' + side)),
                              g if g is not None else average(side, sym(NSEC)), ranges=R)
                    w.meth(calc, 'fit', sym('n_t'))
                    m2 = w.model(model, rho_front=gf, rho_back=gb)
                    eng = w.call(w.I.getattr(w.get('engine.PVEngine'),
                                             'with_rho_initialization'), arr, calc, m2)
                    for side, g in (('front', gf), ('back', gb)):
                        ck.eq('reflectivity the engine starts from',
                              '%s, calculator used before: %s' % (at, side),
                              w.elem(w.attr(w.attr(eng, 'irradiance'), 'rho_' + side)),
                              g if g is not None else average(side, sym(NSEC)), ranges=R)
                    f = sym('row'), sym('segment')
                    eng = w.call(w.I.getattr(w.get('engine.PVEngine'),
                                             'with_rho_initialization'), arr, calc, m,
                                 fast_mode_pvrow_index=f[0], fast_mode_segment_index=f[1])
                    for q, x in zip(('fast_mode_pvrow_index', 'fast_mode_segment_index'), f):
                        ck.eq('selection of the fast mode is kept', '%s: %s' % (at, q),
                              lift(w.attr(eng, q)), x)
    with Section(ck, 'module database'):
        w = ck.world()
        fn = w.call('viewfactors.aoimethods.faoi_fn_from_pvlib_sandia', 'some_module')
        a = sym('angle')
        for how, arg in (('array', NDArr((w.t,), [a])), ('list', PyList([a, a]))):
            v = w.call(fn, arg)
            for k, v in enumerate(v.elems):
                at = 'angles in a %s, entry %d' % (how, k)
                used = [x for x in tm.subterms(v).values()
                        if x.k == 'app' and 'sapm' in str(x.a[0])]
                ck.fact('absorption read from the module', at, len(used) > 0 and all(
                    'some_module' in str(x.a[-1]) for x in used),
                    'the model of the requested module is not used')
                if used:
                    law = mk('app', used[0].a[0], app('abs', a - num(90)), *used[0].a[2:])
                    ck.eq('absorption depends on the angle from the normal', at, v, law,
                          hyp=tm.land(law >= 0, law <= 1), ranges=R)
                    if 'upper=1' not in str(used[0].a[2]):
                        ck.holds('never absorbs more than it receives', at, v <= 1, ranges=R)
