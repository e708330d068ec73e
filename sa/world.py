"""Builders of symbolic inputs and of the objects under analysis (public names only)."""
import sys
from . import terms as tm
from .terms import T, num, sym, mk, TRUE, FALSE, ZERO, ONE, app, lift, lnot, land, lor, ite
from .values import *
from .interp import Interp

sys.setrecursionlimit(200000)
import os
ROOT = os.environ.get('SA_ROOT', '/repo')       # another root is for trying out changes
PKG = 'pvfactors'


class World(object):
    """one abstract execution context"""

    def __init__(self, stubs=None, root=None):
        tm.EPOCH[0] += 1
        tm.CUR_LOC[0] = None
        st = {PEREZ: perez_summary}
        st.update(stubs or {})
        self.I = Interp(root or ROOT, PKG, stubs=st)
        self.np = self.I.np
        self.t = self.np.dim_of(sym('n_t'))
        # load the package once; module initialisation facts are not part of any analysis
        self.I.module(PKG)
        self.reset()

    def reset(self):
        for l in (self.I.notes, self.I.raises, self.I.events, self.I.mutations):
            del l[:]

    # ------------------------------------------------------------------ inputs
    def ts(self, name, own=True):
        """a time series supplied by the caller: unknown at the generic timestep."""
        return NDArr((self.t,), [sym(name + '@t')], tag=('in:' + name) if own else None)

    def bts(self, name, own=True):
        return NDArr((self.t,), [tm.bsym(name + '@t')], tag=('in:' + name) if own else None)

    def mat(self, name, *shape, **kw):
        """array of unknowns with the given integer shape and a trailing time axis."""
        import itertools
        els = []
        for pos in itertools.product(*[range(k) for k in shape]):
            els.append(sym('%s[%s]@t' % (name, ','.join(map(str, pos)))))
        return NDArr(tuple(shape) + (self.t,), els, tag=kw.get('tag'))

    def get(self, name):
        return self.I.get(PKG + '.' + name if name else PKG)

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
        return self.I.call(f, list(args), kw)

    def meth(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), kw)

    def attr(self, o, *names):
        for n in names:
            o = self.I.getattr(o, n)
        return o

    def items(self, o):
        return self.I.iterate(o)

    def elem(self, v):
        """term of a time series / scalar value"""
        v = self.np.arr(v) if not isinstance(v, (T, NDArr)) else v
        return self.np.scal(v)

    # ------------------------------------------------------------------ objects
    def pvarray(self, n_rows, cut=None, cls='geometry.OrderedPVArray', **kw):
        c = PyDict([(i, PyDict(list(d.items()))) for i, d in (cut or {}).items()],
                   owner=None)
        a = dict(axis_azimuth=sym('axis_azimuth'), gcr=sym('gcr'), pvrow_height=sym('height'),
                 n_pvrows=n_rows, pvrow_width=sym('width'), cut=c)
        a.update(kw)
        return self.call(cls, **a)

    SOL = ('solar_zenith', 'solar_azimuth', 'surface_tilt', 'surface_azimuth')

    def fit_array(self, arr, **over):
        a = [over.get(n, None) or self.ts(n) for n in self.SOL]
        self.meth(arr, 'fit', *a)
        return arr

    def fitted(self, n_rows, cut=None, **kw):
        return self.fit_array(self.pvarray(n_rows, cut, **kw))

    def model(self, name, **kw):
        return self.call('irradiance.' + name, **kw)

    def params(self, rho=True, transp=True, faoi=False):
        d = {}
        if rho:
            d.update(rho_front=sym('rho_front'), rho_back=sym('rho_back'))
        if transp:
            d.update(module_transparency=sym('transparency'), module_spacing_ratio=sym('spacing'))
        if faoi:
            d.update(faoi_fn_front=self.faoi('front'), faoi_fn_back=self.faoi('back'))
        return d

    def faoi(self, side):
        return Token('faoi_' + side, pointwise=True, absent=('faoi',))

    FIT = ('timestamps', 'DNI', 'DHI', 'solar_zenith', 'solar_azimuth', 'surface_tilt',
           'surface_azimuth', 'albedo')

    def fit_args(self, ghi=False, scalar_albedo=False):
        a = [self.ts(n) for n in self.FIT]
        if scalar_albedo:
            a[-1] = sym('albedo')
        kw = {'ghi': self.ts('ghi')} if ghi else {}
        return a, kw


PEREZ = 'pvfactors.irradiance.utils.perez_diffuse_luminance'
PEREZ_NAMES = ('timestamps', 'surface_tilt', 'surface_azimuth', 'solar_zenith', 'solar_azimuth',
               'dni', 'dhi')
PEREZ_COLS = ('poa_total_diffuse', 'poa_isotropic', 'poa_circumsolar', 'poa_horizon', 'vf_horizon',
              'vf_circumsolar', 'vf_isotropic', 'luminance_horizon', 'luminance_circumsolar',
              'luminance_isotropic')


def perez_term(col, *args):
    return app('perez:' + col, *args)


def perez_summary(I, args, kw):
    """uninterpreted summary of the Perez decomposition (one symbol per output column)."""
    d = dict(zip(PEREZ_NAMES, args))
    d.update(kw)
    I.events.append(('perez', d, I.loc(), land(*I.pc)))
    xs = [I.np.arr(d[n]) for n in PEREZ_NAMES]
    ax = [x.axes[0] for x in xs if isinstance(x, NDArr)]
    dim = next((a for a in ax if isinstance(a, Dim)), ax[0] if ax else I.np.dim_of(sym('n_t')))
    els = [x.elems[0] if isinstance(x, NDArr) else I.np.scal(x) for x in xs]
    cols = {n: NDArr((dim,), [e]) for n, e in zip(PEREZ_NAMES[1:], els[1:])}
    for c in PEREZ_COLS:
        cols[c] = NDArr((dim,), [perez_term(c, *els)])
    return DF(cols, dim)


def perez_recursive(I, args, kw):
    if sum(1 for f in I.frames if f.qual == PEREZ) >= 1:
        return perez_summary(I, args, kw)
    return NotImplemented
