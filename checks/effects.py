"""Effects: caller data, shared state, hidden inputs, side effects outside of the objects."""
import ast
import os
from . import prop
from . import watch
from .runs import results, engine, run, LAYOUT, PARAMS, MODELS
from sa import terms as tm
from sa.world import *
from sa.obl import Section

OWNED = ('in:', 'class:', 'default:', 'module:', 'function:')


# ------------------------------------------------------------------ helpers
def own(v, tag):
    """marks a caller-owned container, and everything in it"""
    if isinstance(v, PyDict):
        v.owner = tag
        for x in list(v.d.values()):
            own(x, tag)
    elif isinstance(v, PyList):
        v.owner = tag
        for x in v.items:
            own(x, tag)
    elif isinstance(v, tuple):
        for x in v:
            own(x, tag)
    elif isinstance(v, NDArr):
        v.store.tag = tag
    return v


def freeze(v):
    """comparable picture of a caller-owned value"""
    if isinstance(v, PyDict):
        return ('dict', tuple((k, freeze(v.d[k])) for k in v.keys()))
    if isinstance(v, PyList):
        return ('list', tuple(freeze(x) for x in v.items))
    if isinstance(v, tuple):
        return ('tuple', tuple(freeze(x) for x in v))
    if isinstance(v, NDArr):
        return ('array', v.axes, tuple(v.elems))
    if isinstance(v, T):
        return v
    return ('value', id(v)) if isinstance(v, (Obj, Token)) else v


WHAT = {'in:': 'data of the caller', 'class:': 'a class attribute', 'default:': 'a default value',
        'module:': 'a module variable', 'function:': 'a function attribute'}


def clean(ck, w, where, kept=()):
    """no owned object was written to since the last reset"""
    seen = {}
    for tag, loc, what, cond in list(getattr(w, 'seen', ())) + list(w.I.mutations):
        for p in OWNED:
            if str(tag).startswith(p):
                seen.setdefault(p, []).append((tag, loc, what, cond))
    for p in OWNED:
        bad = [m for m in seen.get(p, ()) if m[3] is not FALSE]
        ck.fact('%s is left alone' % WHAT[p], where, not bad,
                '; '.join('%s: %s' % (m[0], m[2]) for m in bad[:3]), bad[0][1] if bad else None)
    for nm, v, before in kept:
        ck.fact('data of the caller keeps its value', '%s: %s' % (where, nm), freeze(v) == before,
                'changed')


def params_of(w, faoi):
    d = dict(rho_front=sym('rho_front'), rho_back=sym('rho_back'),
             module_transparency=sym('transparency'), module_spacing_ratio=sym('spacing'))
    if faoi:
        d.update(faoi_fn_front=w.faoi('front'), faoi_fn_back=w.faoi('back'))
    return d


# ------------------------------------------------------------------ P18
def caller(w, cut, ghi, scalar=False):
    """every input of a simulation, owned by the caller"""
    lay = PyDict(list(LAYOUT.items()) + [
        ('n_pvrows', 2), ('cut', PyDict([(k, PyDict(list(v.items()))) for k, v in cut.items()]))])
    d = {'layout': own(lay, 'in:layout')}
    for n in PARAMS + (('ghi',) if ghi else ()):
        d[n] = NDArr((w.t,), [sym(n + '@t')], tag='in:' + n)
    if scalar:
        d['albedo'] = sym('albedo')
    return d


@prop('P18')
def untouched(ck):
    cut = {0: {'front': 2}, 1: {'back': 2}}

    def direct(name, model, faoi, ghi, modes):
        w = ck.world()
        d = caller(w, cut, ghi)
        kept = [(k, v, freeze(v)) for k, v in d.items()]
        w.reset()
        arr = w.call('geometry.OrderedPVArray', **{k: d['layout'].d[k]
                                                   for k in d['layout'].keys()})
        e = engine(w, arr, model, faoi)
        kw = {'ghi': d['ghi']} if ghi else {}
        for m in modes:
            w.meth(e, 'fit', *[d[k] for k in PARAMS], **kw)
            run(w, e, m)
        upd = own(PyDict([('new', sym('value'))]), 'in:mapping')
        w.meth(arr, 'update_params', upd)
        kept.append(('mapping', upd, freeze(upd)))
        for nm in ('all_ts_surfaces', 'ts_surface_indices', 'n_ts_surfaces'):
            w.attr(arr, nm)
        clean(ck, w, name, kept)

    def mapped(name):
        w = ck.world()
        d = caller(w, cut, False)
        one = own(PyDict(list(d['layout'].d.items()) + [(k, sym(k)) for k in World.SOL]),
                  'in:layout')
        kept = [('layout', d['layout'], freeze(d['layout'])), ('layout and angles', one,
                                                               freeze(one))]
        w.reset()
        cls = w.get('geometry.OrderedPVArray')
        for fn, arg in (('init_from_dict', d['layout']), ('fit_from_dict_of_scalars', one)):
            o = w.call(w.I.getattr(cls, fn), arg)
            if fn == 'init_from_dict':
                w.meth(o, 'fit', *[d[k] if k in d else None for k in World.SOL])
        clean(ck, w, name, kept)

    def runner(name, fn, faoi, ghi):
        w = ck.world()
        d = caller(w, cut, ghi)
        kw = dict(irradiance_model_params=own(PyDict(list(params_of(w, False).items())),
                                              'in:irradiance_model_params'),
                  vf_calculator_params=own(PyDict(
                      [('faoi_fn_front', w.faoi('front')), ('faoi_fn_back', w.faoi('back')),
                       ('n_aoi_integral_sections', sym('nsec'))] if faoi else []),
                      'in:vf_calculator_params'))
        if ghi:
            kw['ghi'] = d['ghi']
        kept = [(k, v, freeze(v)) for k, v in list(d.items()) + list(kw.items())]
        rep = Token('report')
        if fn == 'run_parallel_engine':
            builder = Token('builder', attrs={'build': lambda I, a, k: rep,
                                              'merge': lambda I, a, k: rep})
            kw['n_processes'] = 2
        else:
            builder = lambda I, a, k: rep
        w.reset()
        cls = w.get('irradiance.IsotropicOrdered')
        w.call('run.' + fn, builder, d['layout'], *[d[k] for k in PARAMS],
               cls_irradiance=cls, **kw)
        clean(ck, w, name, kept)

    def model(name, model_, faoi):
        w = ck.world()
        d = caller(w, cut, True)
        kept = [(k, v, freeze(v)) for k, v in d.items()]
        arr = w.pvarray(2, cut)
        w.meth(arr, 'fit', *[d[k] for k in World.SOL])
        m = w.model(model_, **params_of(w, faoi))
        w.reset()
        order = ('timestamps', 'dni', 'dhi', 'solar_zenith', 'solar_azimuth', 'surface_tilt',
                 'surface_azimuth', 'albedo')
        for _ in range(2):
            w.meth(m, 'fit', *[d[k] for k in order], **{'ghi': d['ghi']})
            w.meth(m, 'transform', arr)
        for nm in ('get_full_ts_modeling_vectors',):
            w.meth(m, nm, arr)
        for nm in ('gnd_illum', 'gnd_shaded', 'pvrow_illum', 'pvrow_shaded', 'sky_luminance'):
            w.attr(m, nm)
        clean(ck, w, name, kept)
    def handed(name):
        """lists of surfaces, segments and values given to the shapes, which then change"""
        R = Ruler(ck, SLOPES[0])
        w = R.w
        surf = lambda a, b, k, **kw: w.call('geometry.base.PVSurface', PyList(
            [R.xy(a), R.xy(b)]), normal_vector=R.normal(), shaded=k,
            param_names=PyList(['p']), **kw)
        kept = []

        def mine(nm, v):
            own(v, 'in:' + nm)
            kept.append((nm, v, freeze(v)))
            return v
        w.reset()
        for k in (True, False):
            lst = mine('list of surfaces', PyList([surf(0, 3, k), surf(3, 6, k)]))
            c = w.call('geometry.base.ShadeCollection', lst, shaded=k,
                       param_names=mine('names', PyList(['p'])))
            w.meth(c, 'cut_at_point', R.point(1))
            w.meth(c, 'add_linestring', R.line(7, 8))
            w.meth(c, 'add_linestring', R.line(9, 10), normal_vector=mine('normal', R.normal()))
            w.meth(c, 'add_pvsurface', surf(8, 9, k))
            w.meth(c, 'remove_linestring', R.line(4, 5))
            w.meth(c, 'update_params', mine('new values', PyDict([('p', sym('v'))])))
            for nm in ('n_surfaces', 'surface_indices', 'n_vector', 'length'):
                w.attr(c, nm)
            w.meth(c, 'get_param_weighted', 'p')
            w.meth(c, 'merge_surfaces')
        for ops in ('cut', 'cast', 'merge'):
            for wrap in ('segment', 'side', 'ground', 'ground of surfaces', 'row'):
                lit = mine('lit surfaces', PyList([surf(0, 3, False), surf(3, 6, False)]))
                shd = mine('shaded surfaces', PyList([surf(6, 7, True), surf(7, 8, True)]))
                if wrap == 'ground of surfaces':
                    o = w.call(w.I.getattr(w.get('geometry.pvground.PVGround'),
                                           'from_lists_surfaces'), shd, lit)
                else:
                    o = w.call('geometry.base.PVSegment', *[w.call(
                        'geometry.base.ShadeCollection', x, shaded=k)
                        for x, k in ((lit, False), (shd, True))])
                    if wrap != 'segment':
                        seg = mine('segments', PyList([o]))
                        o = w.call({'side': 'geometry.base.BaseSide',
                                    'ground': 'geometry.pvground.PVGround',
                                    'row': 'geometry.pvrow.PVRowSide'}[wrap], seg)
                        if wrap == 'row':
                            r = w.call('geometry.pvrow.PVRow', front_side=o)
                            w.meth(r, 'update_params', mine('new values', PyDict(
                                [('p', sym('v'))])))
                if ops == 'cut':
                    w.meth(o, 'cut_at_point', R.point(1))
                elif ops == 'cast':
                    w.meth(o, 'cast_shadow', R.line(2, 5))
                elif hasattr(o, 'cls') and w.I.class_lookup(o.cls, 'merge_shaded_areas')[0]:
                    w.meth(o, 'merge_shaded_areas')
                w.meth(o, 'update_params', mine('new values', PyDict([('p', sym('v'))])))
                w.attr(o, 'n_surfaces')
                w.attr(o, 'all_surfaces')
        d = mine('values', PyDict([('p', sym('v0'))]))
        for k in (True, False):
            s = surf(0, 1, k, params=d)
            w.meth(s, 'update_params', PyDict([('p', sym('v1')), ('q', sym('v2'))]))
        s = w.call('geometry.base.BaseSurface', PyList([R.xy(0), R.xy(1)]), params=d)
        w.meth(s, 'update_params', PyDict([('p', sym('v1')), ('q', sym('v2'))]))
        clean(ck, w, name, kept)

    jobs = []
    for i, m in enumerate(MODELS):
        for f, g in ((False, True), (True, False)):
            nm = '%s%s%s' % (m, ', angular functions' if f else '', ', GHI' if g else '')
            modes = ((0, None), (1, 1), (0, None)) if f == bool(i) else ('full',)
            jobs.append((nm, lambda nm=nm, m=m, f=f, g=g, q=modes: direct(nm, m, f, g, q)))
            nm2 = nm + ', model alone'
            jobs.append((nm2, lambda nm2=nm2, m=m, f=f: model(nm2, m, f)))
    jobs.append(('layout from a mapping', lambda: mapped('layout from a mapping')))
    for fn in ('run_timeseries_engine', 'run_parallel_engine'):
        for f, g in ((False, True), (True, False)):
            nm = '%s%s%s' % (fn, ', angular functions' if f else '', ', GHI' if g else '')
            jobs.append((nm, lambda nm=nm, fn=fn, f=f, g=g: runner(nm, fn, f, g)))

    def after(name, wt):
        for w in wt.mine:
            clean(ck, w, name)
    from .snap import snapshots
    from .shapes import shapes, Ruler, SLOPES
    jobs.append(('lists handed to shapes', lambda: handed('lists handed to shapes')))
    from .plots import plots
    from .light import luminance, shares
    jobs += watch.scenes(ck, (('snapshots', snapshots), ('shapes', shapes), ('plots', plots),
                              ('sky luminance', luminance), ('shares', shares)), after)
    ck.par(jobs)


# ------------------------------------------------------------------ P29
SOURCES = ('random.', 'numpy.random.', 'uuid.', 'secrets.', 'socket.', 'urllib.',
           'requests.', 'http.', 'subprocess.', 'getpass.', 'platform.', 'locale.', 'tempfile.',
           'os.environ', 'os.getenv', 'os.urandom', 'os.getpid', 'os.listdir', 'os.stat',
           'os.system', 'os.popen', 'os.remove', 'os.mkdir', 'os.makedirs', 'os.unlink',
           'os.rename', 'shutil.', 'pickle.dump', 'sys.argv', 'sys.stdin')
GLOBAL = ('numpy.seterr', 'numpy.seterrcall', 'numpy.set_printoptions', 'pandas.set_option',
          'pandas.options', 'warnings.filterwarnings', 'warnings.simplefilter',
          'random.seed', 'numpy.random.seed', 'logging.basicConfig', 'logging.disable',
          'sys.setrecursionlimit', 'matplotlib.use', 'matplotlib.rcParams',
          'matplotlib.pyplot.rcParams', 'os.chdir', 'os.putenv', 'gc.', 'signal.')
BUILTIN = ('open', 'input', 'exec', 'eval')


class Names(ast.NodeVisitor):
    """resolves the external names a module uses and the function that uses them"""

    def __init__(self):
        self.alias, self.stack, self.uses, self.local = {}, [], [], [set()]
        self.n = 0

    def visit_Import(self, n):
        for a in n.names:
            self.alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else \
                a.name.split('.')[0]

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.alias[a.asname or a.name] = '%s%s.%s' % ('.' * n.level, n.module or '', a.name)

    def visit_FunctionDef(self, n):
        self.n += 1
        names = set(a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
        for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        self.stack.append(n.name)
        self.local.append(self.local[-1] | names)
        for s in n.body:
            self.visit(s)
        self.local.pop()
        self.stack.pop()
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def dotted(self, n):
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name) or n.id in self.local[-1]:
            return None
        base = self.alias.get(n.id)
        if base is None:
            if parts:
                return None
            return 'builtins.' + n.id if n.id in BUILTIN else None
        return '.'.join([base] + parts[::-1])

    def use(self, n):
        d = self.dotted(n)
        if d:
            self.uses.append((d, n.lineno, '.'.join(self.stack) or '<module>'))
            return True
        return False

    def visit_Attribute(self, n):
        if not self.use(n):
            self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.use(n)


def package_files():
    root = os.path.join(ROOT, 'pvfactors')
    for base, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d not in ('tests', '__pycache__'))
        for f in sorted(files):
            if f.endswith('.py') and f not in ('_version.py', 'version.py'):
                yield os.path.join(base, f)


def known_leaf(name):
    base = name.split('@')[0]
    return not name.startswith(('clock', 'uninit', 'random', 'hidden'))


@prop('P29')
def hidden(ck):
    with Section(ck, 'names used by the package'):
        for f in package_files():
            rel = os.path.relpath(f, ROOT)
            try:
                tree = ast.parse(open(f).read())
            except SyntaxError as e:
                ck.undecided('source can be read', rel, str(e))
                continue
            v = Names()
            v.visit(tree)
            ck.funcs[rel] = v.n
            bad = {'hidden input': [], 'global setting': []}
            for d, line, fn in v.uses:
                if d.startswith(SOURCES) or d.startswith('builtins.'):
                    bad['hidden input'].append((d, line, fn))
                if d.startswith(GLOBAL) and fn != '<module>':
                    bad['global setting'].append((d, line, fn))
            ck.fact('no input besides the arguments', rel, not bad['hidden input'],
                    ', '.join('%s' % x[0] for x in bad['hidden input'][:4]),
                    (rel, bad['hidden input'][0][2], bad['hidden input'][0][1])
                    if bad['hidden input'] else None)
            ck.fact('no global setting is changed', rel, not bad['global setting'],
                    ', '.join('%s' % x[0] for x in bad['global setting'][:4]),
                    (rel, bad['global setting'][0][2], bad['global setting'][0][1])
                    if bad['global setting'] else None)

    def job(name, model, faoi, ghi, mode, n):
        w = ck.world()
        w.reset()
        cut = {0: {'back': 2}}
        d = caller(w, cut, ghi)
        arr = w.pvarray(n, cut)
        e = engine(w, arr, model, faoi)
        w.meth(e, 'fit', *[d[k] for k in PARAMS], **({'ghi': d['ghi']} if ghi else {}))
        run(w, e, mode)
        for k, t in results(w, arr, every=mode == 'full'):
            bad = sorted(set(x.a[0] for x in tm.subterms(t).values()
                             if x.k in ('sym', 'bsym') and not known_leaf(str(x.a[0]))))
            ck.fact('results depend on the inputs only', '%s: %s' % (name, k), not bad,
                    'depends on %s' % bad[:3], getattr(t, 'loc', None) if bad else None)
        ev = [e for e in w.I.events if e[0] in ('random', 'clock', 'io', 'env')]
        ck.fact('no hidden source is read', name, not ev, '%s' % ev[:2])
    jobs = []
    for m in MODELS:
        for f in (False, True):
            for mode, n in (('full', 1), ((1, None), 2), ((0, 1), 2)):
                nm = '%s%s, %s' % (m, ', angular functions' if f else '', mode)
                jobs.append((nm, lambda nm=nm, m=m, f=f, mode=mode, n=n:
                             job(nm, m, f, not f, mode, n)))

    def after(name, wt):
        seen, bad, st = set(), {}, []
        for where, t in wt.terms:
            st = [lift(t)] if isinstance(t, T) else []
            while st:
                x = st.pop()
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.k in ('sym', 'bsym') and not known_leaf(str(x.a[0])):
                    bad.setdefault(x.a[0], where)
                st.extend(tm.children(x))
        ck.fact('results depend on the inputs only', name, not bad, 'depends on %s' %
                list(bad.items())[:3])
        ev = [e for w in wt.mine for e in w.I.events if e[0] in ('random', 'clock', 'io', 'env')]
        ck.fact('no hidden source is read', name, not ev, '%s' % ev[:2])
    from .snap import snapshots
    from .shapes import shapes
    from .plots import plots
    from .light import luminance, shares
    jobs += watch.scenes(ck, (('snapshots', snapshots), ('shapes', shapes), ('plots', plots),
                              ('sky luminance', luminance), ('shares', shares)), after)
    ck.par(jobs)
