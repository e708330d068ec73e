"""Abstract semantics of the external libraries used by the package
(numpy, pandas, pvlib, shapely, multiprocessing, builtins)."""
import itertools
from fractions import Fraction
from . import terms as tm
from . import planar
from .terms import T, num, sym, mk, lift, ite, lnot, land, lor, TRUE, FALSE, ZERO, ONE, \
    is_bool, app, PI, tobool
from .values import *

TIME = sym('n_t')


def isscalarT(v):
    return isinstance(v, (T, int, Fraction, bool))


depends = tm.depends


class Model(object):

    def __init__(self, interp):
        self.I = interp
        self.dimcache = {}
        self.pycls = {}

    # ------------------------------------------------------------------ basics
    def scal(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, Opaque):
            return v.term
        if isinstance(v, (bool, int, Fraction)):
            return lift(v)
        if isinstance(v, Token):
            return sym(v.name)
        if isinstance(v, NDArr):
            els = v.elems
            if len(els) == 1:
                return els[0]
            raise Unsupported('array used as scalar at %s' % (self.I.loc(),))
        if v is None:
            raise AbsRaise('TypeError', self.I.loc())
        if isinstance(v, Phi):
            return ite(v.c, self.scal(v.a), self.scal(v.b))
        if isinstance(v, str):
            return sym('str:' + v)
        raise Unsupported('scalar of %r at %s' % (v, self.I.loc()))

    def dim_of(self, size):
        if isinstance(size, int):
            return size
        if size.k == 'num' and size.a[0].denominator == 1:
            return int(size.a[0])
        p = dict(tm._poly(size))
        c = p.pop((), 0)
        base = tm._frompoly(p)
        name = 't' if base is TIME else tm.show(base)
        key = (name, size.id)
        d = self.dimcache.get(key)
        if d is None:
            d = self.dimcache[key] = Dim(name, size)
        return d

    def asize(self, ax):
        return ax if isinstance(ax, int) else ax.size

    def axes_of_shape(self, shape):
        if isinstance(shape, PyList):
            shape = tuple(shape.items)
        if isinstance(shape, NDArr):
            shape = tuple(shape.elems)
        if not isinstance(shape, tuple):
            shape = (shape,)
        out = []
        for s in shape:
            if isinstance(s, Phi) or isinstance(s, Opaque):
                raise Unsupported('shape %r at %s' % (s, self.I.loc()))
            if isinstance(s, Token):
                s = sym(s.name)
            out.append(self.dim_of(s))
        return tuple(out)

    def arr(self, v, copy=False):
        """host/list/tuple -> NDArr or T"""
        if isinstance(v, NDArr):
            if copy:
                return NDArr(v.axes, v.elems)
            return v
        if isinstance(v, (PyList, tuple, range)):
            items = list(v.items) if isinstance(v, PyList) else list(v)
            if any(isinstance(x, Guarded) for x in items):
                raise Unsupported('array of guarded list at %s' % (self.I.loc(),))
            if not items:
                return NDArr((0,), [])
            xs = [self.arr(x) for x in items]
            return self.stack(xs, 0)
        if isinstance(v, DF):
            return self.df_values(v)
        if isinstance(v, Phi):
            return self.I.vbranch(v.c, lambda: self.arr(v.a), lambda: self.arr(v.b))
        if isinstance(v, Obj) and v.cls.ext_bases():
            c = v.d.get('__xy__', UNDEF)
            if c is not UNDEF:
                return self.arr(c)
        if isinstance(v, Token):
            return v if not v.scalar else sym(v.name)
        return self.scal(v)

    def bshape(self, axlists):
        n = max(len(a) for a in axlists)
        out = []
        for i in range(n):
            cur = 1
            for a in axlists:
                j = i - (n - len(a))
                if j < 0:
                    continue
                x = a[j]
                if isinstance(x, int) and x == 1:
                    continue
                if isinstance(cur, int) and cur == 1:
                    cur = x
                elif cur is x or (isinstance(cur, int) and isinstance(x, int) and cur == x):
                    pass
                else:
                    raise AbsRaise('ValueError:broadcast', self.I.loc())
            out.append(cur)
        return tuple(out)

    def bindex(self, axes, out_axes):
        """flat positions of an operand for every flat int position of the result."""
        off = len(out_axes) - len(axes)
        ints = [i for i, a in enumerate(out_axes) if isinstance(a, int)]
        sizes = [out_axes[i] for i in ints]
        strides = {}
        s = 1
        for i in reversed(range(len(axes))):
            a = axes[i]
            if isinstance(a, int):
                strides[i + off] = 0 if (a == 1) else s
                s *= a
        res = []
        for pos in itertools.product(*[range(n) for n in sizes]):
            k = 0
            for i, p in zip(ints, pos):
                k += strides.get(i, 0) * p
            res.append(k)
        return res

    def ew(self, f, *args):
        for i, a in enumerate(args):
            if isinstance(a, Phi):
                def alt(x, i=i):
                    b = list(args)
                    b[i] = x
                    return self.ew(f, *b)
                return self.I.vbranch(a.c, lambda: alt(a.a), lambda: alt(a.b))
        args = [self.arr(a) if isinstance(a, (PyList, tuple, DF)) else a for a in args]
        for a in args:
            if a is None or isinstance(a, (str, PyDict)):
                raise AbsRaise('TypeError', self.I.loc())
            if isinstance(a, Obj) and not isinstance(a, NDArr):
                return self.I.opaque('arith on object %s' % a.cls.name)
        arrs = [a for a in args if isinstance(a, NDArr)]
        if not arrs:
            return f(*[self.scal(a) for a in args])
        axes = self.bshape([a.axes for a in arrs])
        cols = []
        n = 1
        for a in axes:
            if isinstance(a, int):
                n *= a
        for a in args:
            if isinstance(a, NDArr):
                els = a.elems
                cols.append([els[p] for p in self.bindex(a.axes, axes)])
            else:
                cols.append([self.scal(a)] * n)
        return NDArr(axes, [f(*xs) for xs in zip(*cols)])

    @staticmethod
    def typed(r, *srcs):
        """numbers of the caller stay what they are if only combined with integers"""
        if isinstance(r, NDArr) and r.store.dt is None and \
                all(isinstance(x, (int, bool)) or isinstance(x, NDArr) and x.store.dt for x in srcs) \
                and any(isinstance(x, NDArr) and x.store.dt == 'n' for x in srcs):
            r.store.dt = 'n'
        return r

    def narrow(self, a, v):
        """a number which may be fractional is put in an array which may not be"""
        if isinstance(a, NDArr) and a.store.dt and a.kind == 'arr' and not (
                isinstance(v, (int, bool)) or isinstance(v, NDArr) and v.store.dt):
            if isinstance(v, T) and tm.is_bool(v):
                return
            self.I.events.append(('narrow', a.store.dt, self.I.loc()))

    def broadcast_to(self, v, axes):
        if not isinstance(v, NDArr):
            v = self.arr(v)
        n = 1
        for a in axes:
            if isinstance(a, int):
                n *= a
        if not isinstance(v, NDArr):
            return [self.scal(v)] * n
        va = list(v.axes)
        while len(va) > len(axes) and va and va[0] == 1:
            va = va[1:]
        ax = self.bshape([tuple(va), tuple(axes)])
        if len(ax) != len(axes):
            raise AbsRaise('ValueError:broadcast', self.I.loc())
        for x, y in zip(ax, axes):
            if x is not y and not (isinstance(x, int) and isinstance(y, int) and x == y):
                raise AbsRaise('ValueError:broadcast', self.I.loc())
        els = v.elems
        return [els[p] for p in self.bindex(tuple(va), axes)]

    # --------------------------------------------------------------- structure
    def stack(self, xs, axis=0):
        """np.stack with broadcasting of the parts."""
        axs = [x.axes if isinstance(x, NDArr) else () for x in xs]
        base = self.bshape(axs) if any(axs) else ()
        if any(len(a) != len(base) for a in axs):
            self.I.note('ragged array')
        cols = [self.broadcast_to(x, base) for x in xs]
        r = NDArr((len(xs),) + base, [e for c in cols for e in c])
        if axis:
            r = self.moveaxis(r, 0, axis)
        return r

    def transpose(self, a, perm):
        axes = tuple(a.axes[p] for p in perm)
        # int axes positions
        ints = [i for i, x in enumerate(a.axes) if isinstance(x, int)]
        strides = {}
        s = 1
        for i in reversed(ints):
            strides[i] = s
            s *= a.axes[i]
        oints = [p for p in perm if isinstance(a.axes[p], int)]
        idx = []
        for pos in itertools.product(*[range(a.axes[p]) for p in oints]):
            idx.append(a.idx[sum(strides[p] * q for p, q in zip(oints, pos))])
        return NDArr(axes, store=a.store, idx=idx)

    def moveaxis(self, a, src, dst):
        n = len(a.axes)
        src, dst = src % n, dst % n
        perm = [i for i in range(n) if i != src]
        perm.insert(dst, src)
        return self.transpose(a, perm)

    def concat(self, xs, axis=0):
        xs = [self.arr(x) for x in xs]
        n = len(xs[0].axes)
        axis = axis % n
        if axis:
            ys = [self.moveaxis(x, axis, 0) for x in xs]
            return self.moveaxis(self.concat(ys, 0), 0, axis)
        if len(xs) == 1:
            return NDArr(xs[0].axes, xs[0].elems)
        if all(isinstance(x.axes[0], int) for x in xs):
            tot = sum(x.axes[0] for x in xs)
            rest = self.bshape([x.axes[1:] for x in xs]) if n > 1 else ()
            els = []
            for x in xs:
                els += self.broadcast_to(x, (x.axes[0],) + rest)
            return NDArr((tot,) + rest, els)
        # concatenation along a symbolic axis
        size = tm.add(*[lift(self.asize(x.axes[0])) for x in xs])
        d = Dim('cat(%s)' % ','.join(getattr(x.axes[0], 'name', str(x.axes[0])) for x in xs), size)
        rest = xs[0].axes[1:]
        els = []
        for es in zip(*[self.broadcast_to(x, x.axes[:1] + rest) if not isinstance(x.axes[0], int)
                        else x.elems[:1] for x in xs]):
            els.append(app('cat', *es))
        return NDArr((d,) + rest, els)

    def reshape(self, a, shape):
        axes = list(self.axes_of_shape(shape))
        if -1 in axes:
            known = [x for x in axes if x != -1]
            rest = list(a.axes)
            for x in known:
                if not isinstance(x, int):
                    rest.remove(x)
            n = 1
            for x in rest:
                if isinstance(x, int):
                    n *= x
            m = 1
            for x in known:
                if isinstance(x, int):
                    m *= x
            dims = [x for x in rest if not isinstance(x, int)]
            i = axes.index(-1)
            if dims and n == m and len(dims) == 1:
                axes[i] = dims[0]
            elif not dims and m and n % m == 0:
                axes[i] = n // m
            else:
                raise Unsupported('reshape at %s' % (self.I.loc(),))
        dold = [x for x in a.axes if not isinstance(x, int)]
        dnew = [x for x in axes if not isinstance(x, int)]
        if dold != dnew:
            raise Unsupported('reshape across a symbolic axis at %s' % (self.I.loc(),))
        if dold:
            # only safe when the symbolic axis keeps its relative position among sizes
            def prefix(ax):
                n, out = 1, []
                for x in ax:
                    if isinstance(x, int):
                        n *= x
                    else:
                        out.append(n)
                        n = 1
                return out + [n]
            if prefix(a.axes) != prefix(axes):
                raise Unsupported('reshape across a symbolic axis at %s' % (self.I.loc(),))
        return NDArr(tuple(axes), store=a.store, idx=a.idx)

    # ---------------------------------------------------------------- indexing
    def at(self, t, dim, idx):
        """term t at index idx of dimension dim"""
        name = dim.name
        suf = '@' + name
        ix = dim.ix
        if idx is ix:
            return t

        def f(x):
            if x.k in ('sym', 'bsym'):
                if x.k == 'sym' and x is ix:
                    return idx
                if x.a[0].endswith(suf):
                    return mk('app' if x.k == 'sym' else 'bapp', 'at:' + name, x, idx)
                return x
            if x.k in ('app', 'bapp') and x.a[0].startswith('red:') and x.a[0].endswith(':' + name):
                return x
            if x.k in ('app', 'bapp') and x.a[0] == 'at:' + name:
                return x
            if x.k in ('app', 'bapp') and x.a[0].startswith('fold:'):
                return mk(x.k, 'at:' + name, x, idx)
            return None
        return tm.rebuild(t, f, {})

    def _intidx(self, k):
        if isinstance(k, bool):
            return None
        if isinstance(k, int):
            return k
        if isinstance(k, T) and k.k == 'num' and k.a[0].denominator == 1:
            return int(k.a[0])
        return None

    def _select(self, a, k):
        """-> (out_axes, positions into a.idx, posts) ; posts: list of (dim, kind, data)"""
        if not isinstance(k, tuple):
            k = (k,)
        k = list(k)
        k = [self.arr(x) if isinstance(x, (PyList, range)) else x for x in k]
        nk = 0
        for x in k:
            if x is None or (isinstance(x, Ext) and x.name.endswith('newaxis')):
                continue
            if x is Ellipsis:
                continue
            if isinstance(x, NDArr) and len(x.axes) > 1 and self._ismask(x):
                nk += len(x.axes)
            else:
                nk += 1
        if any(x is Ellipsis for x in k):
            i = [j for j, x in enumerate(k) if x is Ellipsis][0]
            k[i:i + 1] = [slice(None, None, None)] * (len(a.axes) - nk)
        else:
            k += [slice(None, None, None)] * (len(a.axes) - nk)
        sels = []        # per source axis
        out = []
        posts = []
        adv = None
        ai = 0
        order = []       # ('axis', source axis) | ('new',) | ('adv',)
        symsel = []
        for x in k:
            if x is None or (isinstance(x, Ext) and x.name.endswith('newaxis')):
                out.append(1)
                order.append(('new',))
                continue
            if ai >= len(a.axes):
                raise AbsRaise('IndexError:too many indices', self.I.loc())
            ax = a.axes[ai]
            if isinstance(x, Opaque):
                raise Unsupported('opaque index at %s' % (self.I.loc(),))
            if isinstance(x, Token):
                x = sym(x.name)
            if isinstance(x, slice):
                if isinstance(ax, int):
                    ks = [self._intidx(y) if y is not None else None for y in (x.start, x.stop, x.step)]
                    for y, z in zip(ks, (x.start, x.stop, x.step)):
                        if y is None and z is not None:
                            raise Unsupported('symbolic slice at %s' % (self.I.loc(),))
                    r = list(range(ax))[slice(*ks)]
                    sels.append(r)
                    out.append(len(r))
                    order.append(('axis', ai))
                else:
                    lo = 0 if x.start is None else x.start
                    hi = x.stop
                    st = x.step
                    if st is not None and self._intidx(st) != 1:
                        if self._intidx(st) == -1 and x.start is None and x.stop is None:
                            d = self.dim_of(ax.size)
                            posts.append((ax, 'map', tm.sub(tm.sub(ax.size, ONE), ax.ix)))
                            out.append(d)
                            sels.append(None)
                            order.append(('axis', ai))
                            ai += 1
                            continue
                        raise Unsupported('strided slice at %s' % (self.I.loc(),))
                    lo = self.scal(lo)
                    if lo.k == 'num' and lo.a[0] < 0:
                        lo = tm.add(ax.size, lo)
                    hi = ax.size if hi is None else self.scal(hi)
                    if hi.k == 'num' and hi.a[0] < 0:
                        hi = tm.add(ax.size, hi)
                    if lo is ZERO and hi is ax.size:
                        d = ax
                    else:
                        d = self.dim_of(tm.sub(hi, lo))
                        if isinstance(d, int):
                            raise Unsupported('slice of fixed size of a symbolic axis at %s' % (self.I.loc(),))
                        if lo is not ZERO or d.name != ax.name:
                            posts.append((ax, 'map', tm.add(d.ix, lo)))
                    out.append(d)
                    sels.append(None)
                    order.append(('axis', ai))
                ai += 1
                continue
            if isinstance(x, NDArr) and self._ismask(x):
                nx = len(x.axes)
                if nx == 1 and isinstance(ax, int):
                    els = x.elems
                    if all(e in (TRUE, FALSE) for e in els):
                        r = [i for i, e in enumerate(els) if e is TRUE]
                        sels.append(r)
                        out.append(len(r))
                        order.append(('axis', ai))
                        ai += 1
                        continue
                    if len(a.axes) > 1 or True:
                        posts.append((None, 'maskint', (ai, els)))
                        sels.append(list(range(ax)))
                        out.append(ax)
                        order.append(('axis', ai))
                        ai += 1
                        continue
                if nx == 1:
                    d = Dim('%s|%d' % (ax.name, x.elems[0].id), sym('count(%s|%d)' % (ax.name, x.elems[0].id)))
                    key = (d.name, 'sel')
                    d = self.dimcache.setdefault(key, d)
                    posts.append((ax, 'mask', x.elems[0]))
                    out.append(d)
                    sels.append(None)
                    order.append(('axis', ai))
                    ai += 1
                    continue
                # full-shape mask
                posts.append((None, 'fullmask', (ai, x)))
                for q in range(nx):
                    axq = a.axes[ai]
                    sels.append(list(range(axq)) if isinstance(axq, int) else None)
                    out.append(axq)
                    order.append(('axis', ai))
                    ai += 1
                continue
            if isinstance(x, NDArr):
                # static integer fancy index
                els = [self._intidx(e) for e in x.elems]
                if any(e is None for e in els) or not isinstance(ax, int) or len(x.axes) != 1 \
                        or not isinstance(x.axes[0], int):
                    raise Unsupported('fancy index at %s' % (self.I.loc(),))
                if adv is None:
                    adv = len(els)
                    out.append(adv)
                    order.append(('adv',))
                sels.append(('adv', els))
                ai += 1
                continue
            i = self._intidx(x)
            if i is None and isinstance(x, bool):
                raise Unsupported('bool index at %s' % (self.I.loc(),))
            if isinstance(ax, int):
                if i is not None:
                    if not -ax <= i < ax:
                        raise AbsRaise('IndexError', self.I.loc())
                    sels.append(('int', i % ax))
                else:
                    sels.append(('sym', self.scal(x)))
                    symsel.append(ai)
            else:
                xi = self.scal(x)
                if i is not None and i < 0:
                    xi = tm.add(ax.size, num(i))
                posts.append((ax, 'at', xi))
                sels.append(None)
            ai += 1
        # strides
        ints = [i for i, x in enumerate(a.axes) if isinstance(x, int)]
        strides = {}
        s = 1
        for i in reversed(ints):
            strides[i] = s
            s *= a.axes[i]
        loops = []
        for o in order:
            if o[0] == 'axis' and isinstance(a.axes[o[1]], int):
                loops.append([(o[1], p) for p in sels[o[1]]])
            elif o[0] == 'adv':
                loops.append([('adv', p) for p in range(adv)])
        positions = []
        for combo in itertools.product(*loops):
            base = 0
            for axp in combo:
                if axp[0] == 'adv':
                    for i, sl in enumerate(sels):
                        if isinstance(sl, tuple) and sl[0] == 'adv':
                            base += strides[i] * (sl[1][axp[1]] % a.axes[i])
                else:
                    base += strides[axp[0]] * axp[1]
            for i, sl in enumerate(sels):
                if isinstance(sl, tuple) and sl[0] == 'int':
                    base += strides[i] * sl[1]
            if symsel:
                alts = []
                for combo2 in itertools.product(*[range(a.axes[i]) for i in symsel]):
                    c = land(*[tm.cmp('==', sels[i][1], num(v)) for i, v in zip(symsel, combo2)])
                    alts.append((c, base + sum(strides[i] * v for i, v in zip(symsel, combo2))))
                positions.append(alts)
            else:
                positions.append(base)
        return tuple(out), positions, posts, order

    def _ismask(self, x):
        return any(is_bool(e) for e in x.elems)

    def _apply_posts(self, e, posts, k=None):
        for d, kind, data in posts:
            if kind == 'at':
                e = self.at(e, d, data)
            elif kind == 'map':
                def f(x, d=d, data=data):
                    if x.k == 'sym' and x is d.ix:
                        return data
                    if x.k in ('sym', 'bsym') and x.a[0].endswith('@' + d.name):
                        return mk('app' if x.k == 'sym' else 'bapp', 'at:' + d.name, x, data)
                    if x.k in ('app', 'bapp') and (x.a[0].endswith(':' + d.name)):
                        return x
                    return None
                e = tm.rebuild(e, f, {})
        return e

    def getitem(self, a, k):
        out, positions, posts, order = self._select(a, k)
        if any(kind in ('maskint', 'fullmask') for _, kind, _ in posts):
            raise Unsupported('compressing selection at %s' % (self.I.loc(),))
        simple = not posts and all(isinstance(p, int) for p in positions)
        maskonly = all(isinstance(p, int) for p in positions) and all(p[1] == 'mask' for p in posts)
        if simple:
            if not out:
                return self._hostscal(a.elems[positions[0]])
            advanced = any(o[0] == 'adv' for o in order)
            if advanced:
                els = a.elems
                return NDArr(out, [els[p] for p in positions])
            return NDArr(out, store=a.store, idx=[a.idx[p] for p in positions])
        els = a.elems
        res = []
        for p in positions:
            if isinstance(p, int):
                e = els[p]
            else:
                e = els[p[-1][1]]
                for c, q in reversed(p[:-1]):
                    e = ite(c, els[q], e)
            res.append(self._apply_posts(e, posts))
        if not out:
            return self._hostscal(res[0])
        return NDArr(out, res)

    def _hostscal(self, t):
        return t

    def setitem(self, a, k, v):
        self.narrow(a, v)
        if not a.axes and (isinstance(k, bool) or isinstance(k, T) and tm.is_bool(k)):
            self.I.swrite(a.store, a.idx[0], ite(lift(k), self.scal(self.broadcast_to(v, ())[0]), a.elems[0]))
            return
        out, positions, posts, order = self._select(a, k)
        if isinstance(v, (PyList, tuple)):
            v = self.arr(v)
        mask = [p for p in posts if p[1] in ('mask',)]
        els = a.elems
        if mask:
            # the value may itself be compressed with the same mask, or full along a scalar
            if isinstance(v, NDArr):
                vals = self.broadcast_to(v, out)
            else:
                vals = self.broadcast_to(v, out)
        else:
            vals = self.broadcast_to(v, out)
        intmask = {}
        for d, kind, data in posts:
            if kind == 'maskint':
                intmask = data
        for n, (p, val) in enumerate(zip(positions, vals)):
            cond = TRUE
            for d, kind, data in posts:
                if kind == 'mask':
                    cond = land(cond, data)
                elif kind == 'at':
                    cond = land(cond, tm.cmp('==', d.ix, data))
                elif kind == 'map':
                    raise Unsupported('store to a shifted slice at %s' % (self.I.loc(),))
                elif kind == 'maskint':
                    ai, mels = data
                    # position along axis ai
                    st = 1
                    for q in range(len(a.axes) - 1, ai, -1):
                        if isinstance(a.axes[q], int):
                            st *= a.axes[q]
                    cond = land(cond, mels[(p // st) % a.axes[ai]])
                elif kind == 'fullmask':
                    ai, m = data
                    if ai != 0 or len(m.axes) != len(a.axes):
                        raise Unsupported('mask store at %s' % (self.I.loc(),))
                    cond = land(cond, m.elems[p])
            if isinstance(p, int):
                old = els[p]
                new = val if cond is TRUE else ite(cond, val, old)
                self.I.swrite(a.store, a.idx[p], new)
            else:
                for c, q in p:
                    self.I.swrite(a.store, a.idx[q], ite(land(cond, c), val, a.store.d[a.idx[q]]))

    # -------------------------------------------------------------- reductions
    def red(self, op, t, dim):
        name = dim.name
        if op in ('sum', 'nansum'):
            if op == 'nansum':
                op2 = 'nansum'
            else:
                op2 = 'sum'
            p = tm._poly(t)
            acc = {}
            for m, c in p.items():
                ind = tuple((at, e) for at, e in m if not depends(at, name))
                dep = tuple((at, e) for at, e in m if depends(at, name))
                acc.setdefault(ind, {})
                acc[ind][dep] = acc[ind].get(dep, 0) + c
            if op2 == 'nansum' and len(acc) > 1:
                return mk('app', 'red:nansum:' + name, t)
            out = ZERO
            for ind, d in acc.items():
                inner = tm._frompoly(d)
                f = tm._frompoly({ind: Fraction(1)})
                if not depends(inner, name):
                    r = tm.mul(inner, dim.size)
                else:
                    parts = [inner]
                    if op2 == 'sum':
                        parts = [tm._frompoly({m: c}) for m, c in tm._poly(inner).items()]
                    r = ZERO
                    for x in parts:
                        cc, x1 = tm._content(x)
                        r = tm.add(r, tm.mul(num(cc), mk('app', 'red:%s:%s' % (op2, name), x1)))
                out = tm.add(out, tm.mul(f, r))
            return out
        if op in ('any', 'all'):
            t = tobool(t)
            if not depends(t, name):
                return t
            if op == 'all':
                return lnot(mk('bapp', 'red:any:' + name, lnot(t)))
            return mk('bapp', 'red:any:' + name, t)
        if not depends(t, name) and op in ('max', 'min', 'mean', 'nanmax', 'nanmin'):
            return t
        return mk('app', 'red:%s:%s' % (op, name), t)

    def reduce(self, op, v, axis=None, keepdims=False):
        v = self.arr(v)
        if isinstance(v, (Token, Opaque)):
            return self.I.opaque('reduction')
        if not isinstance(v, NDArr):
            return v
        n = len(v.axes)
        if axis is None:
            axes = list(range(n))
        elif isinstance(axis, tuple):
            axes = [x % n for x in axis]
        else:
            i = self._intidx(axis)
            if i is None or not -n <= i < n:
                raise AbsRaise('AxisError', self.I.loc())
            axes = [i % n]
        keep = [i for i in range(n) if i not in axes]
        w = self.transpose(v, keep + axes)
        kaxes = w.axes[:len(keep)]
        raxes = w.axes[len(keep):]
        m = 1
        for a in raxes:
            if isinstance(a, int):
                m *= a
        els = w.elems
        res = []
        cnt = max(1, 1)
        for a in kaxes:
            if isinstance(a, int):
                cnt *= a
        for i in range(cnt):
            chunk = els[i * m:(i + 1) * m]
            e = self.comb(op, chunk)
            for d in raxes:
                if not isinstance(d, int):
                    e = self.red('sum' if op == 'mean' else op, e, d)
            if op == 'mean':
                tot = num(m)
                for d in raxes:
                    if not isinstance(d, int):
                        tot = tm.mul(tot, d.size)
                e = tm.div(e, tot)
            res.append(e)
        if keepdims:
            ax = tuple(1 if i in axes else v.axes[i] for i in range(n))
            return NDArr(ax, res)
        if not kaxes:
            return res[0]
        return NDArr(kaxes, res)

    def comb(self, op, xs):
        if op in ('sum', 'nansum', 'mean'):
            return tm.add(*xs) if xs else ZERO
        if op == 'prod':
            r = ONE
            for x in xs:
                r = tm.mul(r, x)
            return r
        if op == 'any':
            return lor(*xs)
        if op == 'all':
            return land(*xs)
        if op in ('max', 'nanmax'):
            return tm.tmax(*xs)
        if op in ('min', 'nanmin'):
            return tm.tmin(*xs)
        if len(xs) == 1:
            return xs[0]
        return mk('app', '?' + op, *xs)

    # ----------------------------------------------------------- linear algebra
    def matmul(self, a, b):
        a, b = self.arr(a), self.arr(b)
        if not isinstance(a, NDArr) or not isinstance(b, NDArr):
            return self.ew(tm.mul, a, b)
        na, nb = len(a.axes), len(b.axes)
        L = 'abcdefgh'
        if na == 1 and nb == 1:
            return self.einsum('i,i->', [a, b])
        if nb == 1:
            pre = L[:na - 2]
            return self.einsum('%sij,j->%si' % (pre, pre), [a, b])
        if na == 1:
            pre = L[:nb - 2]
            return self.einsum('i,%sij->%sj' % (pre, pre), [a, b])
        pa, pb = L[:na - 2], L[:nb - 2]
        if na >= nb:
            pb = pa[len(pa) - (nb - 2):] if nb > 2 else ''
        else:
            pa = pb[len(pb) - (na - 2):] if na > 2 else ''
        po = pa if len(pa) >= len(pb) else pb
        return self.einsum('%sij,%sjk->%sik' % (pa, pb, po), [a, b])

    def dot(self, a, b):
        a, b = self.arr(a), self.arr(b)
        if not isinstance(a, NDArr) or not isinstance(b, NDArr):
            return self.ew(tm.mul, a, b)
        na, nb = len(a.axes), len(b.axes)
        if na <= 2 and nb <= 2:
            return self.matmul(a, b)
        raise Unsupported('dot nd')

    def einsum(self, spec, ops):
        spec = spec.replace(' ', '')
        ops = [self.arr(o) for o in ops]
        ins, _, outs = spec.partition('->')
        ins = ins.split(',')
        if '.' in spec:
            used = set(c for c in spec if c.isalpha())
            free = [c for c in 'zyxwvutsrq' if c not in used]
            nell = max(len(o.axes) - len(s.replace('...', '')) for s, o in zip(ins, ops) if '...' in s)
            ell = ''.join(free[:nell])
            ins = [s.replace('...', ell[len(ell) - (len(o.axes) - len(s.replace('...', ''))):]
                             if '...' in s else '') for s, o in zip(ins, ops)]
            outs = outs.replace('...', ell)
        if '->' not in spec:
            allc = ''.join(ins)
            outs = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
        size = {}
        for s, o in zip(ins, ops):
            if len(s) != len(o.axes):
                raise AbsRaise('ValueError:einsum', self.I.loc())
            for c, ax in zip(s, o.axes):
                if c in size:
                    x = size[c]
                    if isinstance(x, int) and x == 1:
                        size[c] = ax
                    elif isinstance(ax, int) and ax == 1:
                        pass
                    elif x is not ax and not (isinstance(x, int) and isinstance(ax, int) and x == ax):
                        raise AbsRaise('ValueError:einsum shape', self.I.loc())
                else:
                    size[c] = ax
        sumc = [c for c in size if c not in outs]
        strides = []
        for s, o in zip(ins, ops):
            st = {}
            acc = 1
            for c, ax in reversed(list(zip(s, o.axes))):
                if isinstance(ax, int):
                    st[c] = st.get(c, 0) + (acc if ax != 1 else 0)
                    acc *= ax
            strides.append(st)
        els = [o.elems for o in ops]
        ints_o = [c for c in outs if isinstance(size[c], int)]
        ints_s = [c for c in sumc if isinstance(size[c], int)]
        dims_s = [c for c in sumc if not isinstance(size[c], int)]
        res = []
        for pos in itertools.product(*[range(size[c]) for c in ints_o]):
            env = dict(zip(ints_o, pos))
            parts = []
            for ps in itertools.product(*[range(size[c]) for c in ints_s]):
                env.update(zip(ints_s, ps))
                x = ONE
                for e, st in zip(els, strides):
                    y = e[sum(st[c] * env[c] for c in st)]
                    if y is ZERO:
                        x = ZERO
                        break
                    x = tm.mul(x, y)
                parts.append(x)
            e = tm.add(*parts)
            for c in dims_s:
                e = self.red('sum', e, size[c])
            res.append(e)
        axes = tuple(size[c] for c in outs)
        if not axes:
            return res[0]
        return NDArr(axes, res)

    def inv(self, a):
        a = self.arr(a)
        n = a.axes[-1]
        if not isinstance(n, int) or not isinstance(a.axes[-2], int):
            raise Unsupported('inv of symbolic order')
        els = a.elems
        nb = len(els) // (n * n)
        out = []
        for b in range(nb):
            m = els[b * n * n:(b + 1) * n * n]
            mat = mk('app', 'mat', num(n), *m)
            diag = all(m[i * n + j] is ZERO for i in range(n) for j in range(n) if i != j)
            if n == 2 and len(els) == 4 and not diag:
                k = tm.recip(tm.sub(tm.mul(m[0], m[3]), tm.mul(m[1], m[2])))
                out += [tm.mul(m[3], k), tm.neg(tm.mul(m[1], k)),
                        tm.neg(tm.mul(m[2], k)), tm.mul(m[0], k)]
                continue
            for i in range(n):
                for j in range(n):
                    if diag:
                        out.append(tm.recip(m[i * n + i]) if i == j else ZERO)
                    else:
                        out.append(mk('app', 'inv', mat, num(i), num(j)))
        return NDArr(a.axes, out)

    def solve(self, a, b):
        inv = self.inv(a)
        b = self.arr(b)
        if len(b.axes) == len(inv.axes) - 1 and len(b.axes) > 1:
            # stack of vectors (numpy 1.x semantics)
            L = 'abcd'[:len(inv.axes) - 2]
            return self.einsum('%sij,%sj->%si' % (L, L, L), [inv, b])
        return self.matmul(inv, b)

    # ---------------------------------------------------------------- numpy fns
    EW1 = {'sqrt': lambda x: app('sqrt', x), 'abs': lambda x: app('abs', x),
           'absolute': lambda x: app('abs', x), 'fabs': lambda x: app('abs', x),
           'sin': tm.sin_, 'cos': tm.cos_, 'tan': lambda x: app('tan', x),
           'arctan': lambda x: app('arctan', x), 'arccos': lambda x: app('arccos', x),
           'arcsin': lambda x: app('arcsin', x), 'exp': lambda x: app('exp', x),
           'log': lambda x: app('log', x), 'deg2rad': tm.deg2rad, 'radians': tm.deg2rad,
           'rad2deg': tm.rad2deg, 'degrees': tm.rad2deg, 'sign': lambda x: app('sign', x),
           'square': lambda x: tm.mul(x, x), 'negative': tm.neg, 'positive': lambda x: x,
           'logical_not': lambda x: lnot(tobool(x)), 'invert': lnot, 'bitwise_not': lnot,
           'isnan': lambda x: mk('bapp', 'isnan', x), 'floor': lambda x: app('floor', x),
           'ceil': lambda x: app('ceil', x), 'round': lambda x: app('round', x),
           'around': lambda x: app('round', x), 'isfinite': lambda x: mk('bapp', 'isfinite', x),
           'reciprocal': tm.recip, 'float64': lambda x: x, 'float_': lambda x: x,
           'erf': lambda x: app('erf', x), 'int64': lambda x: x,
           'nan_to_num': lambda x: ite(mk('bapp', 'isnan', x), ZERO, x)}
    EW2 = {'minimum': tm.tmin, 'maximum': tm.tmax, 'fmax': tm.tmax, 'fmin': tm.tmin,
           'add': tm.add, 'subtract': tm.sub, 'multiply': tm.mul, 'divide': tm.div,
           'true_divide': tm.div, 'power': tm.power, 'pow': tm.power, 'arctan2': lambda a, b: app('arctan2', a, b),
           'atan2': lambda a, b: app('arctan2', a, b),
           'hypot': lambda a, b: app('hypot', a, b), 'mod': lambda a, b: app('mod', a, b),
           'remainder': lambda a, b: app('mod', a, b), 'fmod': lambda a, b: app('fmod', a, b),
           'logical_and': lambda a, b: land(tobool(a), tobool(b)),
           'logical_or': lambda a, b: lor(tobool(a), tobool(b)),
           'logical_xor': lambda a, b: lnot(tm.beq(tobool(a), tobool(b))),
           'bitwise_and': land, 'bitwise_or': lor,
           'greater': lambda a, b: tm.cmp('>', a, b), 'less': lambda a, b: tm.cmp('<', a, b),
           'greater_equal': lambda a, b: tm.cmp('>=', a, b),
           'less_equal': lambda a, b: tm.cmp('<=', a, b),
           'equal': lambda a, b: tm.cmp('==', a, b), 'not_equal': lambda a, b: tm.cmp('!=', a, b),
           'heaviside': lambda a, b: ite(tm.cmp('<', a, ZERO), ZERO, ite(tm.cmp('==', a, ZERO), b, ONE)),
           'copysign': lambda a, b: ite(tm.cmp('>=', b, ZERO), app('abs', a), tm.neg(app('abs', a)))}
    REDS = {'sum': 'sum', 'nansum': 'nansum', 'any': 'any', 'all': 'all', 'max': 'max',
            'amax': 'max', 'min': 'min', 'amin': 'min', 'mean': 'mean', 'nanmax': 'nanmax',
            'nanmin': 'nanmin', 'prod': 'prod', 'median': 'median', 'std': 'std',
            'count_nonzero': 'count_nonzero', 'nanmean': 'nanmean'}

    def call_np(self, name, args, kw):
        I = self.I
        if 'out' in kw and kw['out'] is not None:
            out = kw.pop('out')
            r = self.call_np(name, args, kw)
            self.setitem(out, Ellipsis, r)
            return out
        wh = kw.pop('where', None)
        if name in self.EW1:
            a = args[0]
            if isinstance(a, Token) and not a.scalar:
                return I.opaque('np.%s of token' % name)
            r = self.ew(self.EW1[name], a)
            return self.typed(r, a) if name in ('abs', 'absolute', 'fabs', 'negative') else r
        if name in self.EW2:
            if name in ('maximum', 'minimum') and len(args) < 2:
                raise AbsRaise('TypeError', I.loc())
            r = self.ew(self.EW2[name], args[0], args[1])
            return self.typed(r, args[0], args[1]) if name in ('maximum', 'minimum') else r
        if name in self.REDS:
            axis = kw.get('axis', args[1] if len(args) > 1 else None)
            return self.reduce(self.REDS[name], args[0], axis, bool(kw.get('keepdims', False)))
        if name == 'where':
            if len(args) == 1:
                c = self.arr(args[0])
                if isinstance(c, NDArr) and all(e in (TRUE, FALSE) for e in c.elems):
                    return (NDArr((len([e for e in c.elems if e is TRUE]),),
                                  [num(i) for i, e in enumerate(c.elems) if e is TRUE]),)
                return (c,) if isinstance(c, NDArr) and len(c.axes) == 1 else I.opaque('where1')
            c = args[0]
            if isinstance(c, bool):
                c = lift(c)
            r = self.ew(lambda c, a, b: ite(tobool(c), a, b), c, args[1], args[2])
            if isinstance(r, T):
                r = NDArr((), [r])
            return self.typed(r, args[1], args[2])
        if name == 'select':
            conds = I.iterate(args[0])
            vals = I.iterate(args[1])
            r = kw.get('default', args[2] if len(args) > 2 else ZERO)
            for c, v in reversed(list(zip(conds, vals))):
                r = self.ew(lambda c, a, b: ite(tobool(c), a, b), c, v, r)
            return r
        if name == 'clip':
            lo = kw.get('a_min', args[1] if len(args) > 1 else None)
            hi = kw.get('a_max', args[2] if len(args) > 2 else None)
            r = args[0]
            if lo is not None:
                r = self.ew(tm.tmax, r, lo)
            if hi is not None:
                r = self.ew(tm.tmin, r, hi)
            return r
        if name in ('zeros', 'ones', 'empty', 'full'):
            shape = kw.get('shape', args[0] if args else None)
            axes = self.axes_of_shape(shape)
            if name == 'full':
                fv = kw.get('fill_value', args[1] if len(args) > 1 else None)
                return NDArr(axes, self.broadcast_to(fv, axes))
            v = {'zeros': ZERO, 'ones': ONE, 'empty': mk('sym', 'uninit')}[name]
            n = 1
            for a in axes:
                if isinstance(a, int):
                    n *= a
            return NDArr(axes, [v] * n)
        if name in ('zeros_like', 'ones_like', 'full_like', 'empty_like'):
            a = self.arr(args[0])
            v = {'zeros_like': ZERO, 'ones_like': ONE, 'empty_like': mk('sym', 'uninit')}.get(name)
            if name == 'full_like':
                v = self.scal(kw.get('fill_value', args[1] if len(args) > 1 else None))
            if isinstance(a, NDArr):
                r = NDArr(a.axes, [v] * len(a.idx))
                if kw.get('dtype') is None:
                    r.store.dt = a.store.dt
                if name == 'full_like':
                    self.narrow(r, kw.get('fill_value', args[1] if len(args) > 1 else None))
                return r
            if isinstance(a, Token) and not a.scalar:
                return I.opaque('like token')
            return v
        if name in ('array', 'asarray', 'asanyarray', 'copy', 'ascontiguousarray', 'atleast_1d', 'array_like'):
            a = args[0]
            if isinstance(a, Token):
                if name in ('asarray', 'asanyarray', 'ascontiguousarray'):
                    return a
                return Token(a.name, types=a.types | {'numpy.ndarray'}, scalar=a.scalar, attrs=a.attrs)
            r = self.arr(a, copy=name in ('array', 'copy') and kw.get('copy', True) is not False)
            if name == 'atleast_1d' and not isinstance(r, NDArr):
                r = NDArr((1,), [r])
            if isinstance(r, T) and name in ('array', 'asarray', 'asanyarray', 'copy'):
                return NDArr((), [r])
            if isinstance(r, NDArr) and isinstance(a, NDArr) and r.store is not a.store and \
                    kw.get('dtype') is None and len(args) < 2:
                r.store.dt = a.store.dt
            return r
        if name == 'isscalar':
            return self.isscalar(args[0])
        if name == 'einsum':
            return self.einsum(args[0], args[1:])
        if name == 'moveaxis':
            src = kw.get('source', args[1] if len(args) > 1 else None)
            dst = kw.get('destination', args[2] if len(args) > 2 else None)
            return self.moveaxis(self.arr(args[0]), src, dst)
        if name == 'swapaxes':
            a = self.arr(args[0])
            n = len(a.axes)
            p = list(range(n))
            i, j = args[1] % n, args[2] % n
            p[i], p[j] = p[j], p[i]
            return self.transpose(a, p)
        if name == 'transpose':
            a = self.arr(args[0])
            p = kw.get('axes', args[1] if len(args) > 1 else None)
            if p is None:
                p = list(range(len(a.axes)))[::-1]
            return self.transpose(a, [x % len(a.axes) for x in I.iterate(p)] if not isinstance(p, list) else p)
        if name == 'tile':
            return self.tile(self.arr(args[0]), kw.get('reps', args[1] if len(args) > 1 else None))
        if name == 'repeat':
            a = self.arr(args[0])
            n = args[1] if len(args) > 1 else kw['repeats']
            ax = kw.get('axis', args[2] if len(args) > 2 else None)
            if not isinstance(a, NDArr):
                axes = self.axes_of_shape(n)
                return NDArr(axes, self.broadcast_to(a, axes))
            if ax is not None and isinstance(a.axes[ax], int) and a.axes[ax] == 1:
                reps = [1] * len(a.axes)
                reps[ax] = n
                return self.tile(a, tuple(reps))
            raise Unsupported('repeat at %s' % (I.loc(),))
        if name == 'broadcast_to':
            axes = self.axes_of_shape(args[1] if len(args) > 1 else kw['shape'])
            return NDArr(axes, self.broadcast_to(args[0], axes))
        if name == 'linspace':
            return self.linspace(args, kw)
        if name == 'arange':
            a = [self._intidx(x) for x in args]
            if len(args) == 1 and a[0] is None:
                d = self.dim_of(self.scal(args[0]))
                return NDArr((d,), [d.ix])
            r = list(range(*a))
            return NDArr((len(r),), [num(x) for x in r])
        if name == 'linalg.inv':
            return self.inv(args[0])
        if name == 'linalg.solve':
            return self.solve(args[0], args[1])
        if name == 'linalg.norm':
            axis = kw.get('axis', args[2] if len(args) > 2 else None)
            v = self.arr(args[0])
            s = self.reduce('sum', self.ew(lambda x: tm.mul(x, x), v), axis)
            return self.ew(lambda x: app('sqrt', x), s)
        if name in ('stack', 'vstack', 'hstack', 'concatenate', 'column_stack', 'append'):
            if name == 'append':
                xs = [self.arr(args[0]), self.arr(args[1])]
            else:
                seq = args[0]
                xs = [self.arr(x) for x in I.iterate(seq)]
            axis = kw.get('axis', (args[2] if len(args) > 2 else None) if name == 'append'
                          else (args[1] if len(args) > 1 else 0))
            if name == 'stack':
                return self.stack(xs, axis)
            if name == 'vstack':
                xs = [x if len(x.axes) > 1 else NDArr((1,) + x.axes, store=x.store, idx=x.idx) for x in xs]
                return self.concat(xs, 0)
            if name == 'hstack':
                return self.concat(xs, 0 if len(xs[0].axes) == 1 else 1)
            if name == 'column_stack':
                return self.stack(xs, 1)
            return self.concat(xs, axis or 0)
        if name in ('dot', 'matmul'):
            return (self.dot if name == 'dot' else self.matmul)(args[0], args[1])
        if name == 'array_split' or name == 'split':
            return self.array_split(args[0], args[1])
        if name == 'diff':
            a = self.arr(args[0])
            return self.ew(tm.sub, self.getitem(a, slice(1, None, None)), self.getitem(a, slice(None, -1, None)))
        if name == 'expand_dims':
            a = self.arr(args[0])
            ax = kw.get('axis', args[1] if len(args) > 1 else 0)
            n = len(a.axes) + 1
            axes = list(a.axes)
            axes.insert(ax % n, 1)
            return NDArr(axes, store=a.store, idx=a.idx)
        if name == 'squeeze':
            a = self.arr(args[0])
            return NDArr(tuple(x for x in a.axes if x != 1), store=a.store, idx=a.idx)
        if name == 'reshape':
            return self.reshape(self.arr(args[0]), args[1])
        if name == 'ravel':
            return self.val_call(self.arr(args[0]), 'ravel', [], {})
        if name == 'cross':
            a, b = self.arr(args[0]), self.arr(args[1])
            g = self.getitem
            return self.ew(tm.sub, self.ew(tm.mul, g(a, 0), g(b, 1)), self.ew(tm.mul, g(a, 1), g(b, 0)))
        if name in ('eye', 'identity'):
            n = args[0]
            return NDArr((n, n), [ONE if i == j else ZERO for i in range(n) for j in range(n)])
        if name == 'diag':
            a = self.arr(args[0])
            n = a.axes[0]
            if len(a.axes) == 1 and isinstance(n, int):
                e = a.elems
                return NDArr((n, n), [e[i] if i == j else ZERO for i in range(n) for j in range(n)])
        if name == 'fill_diagonal':
            a = args[0]
            vals = self.broadcast_to(args[1], (a.axes[0],))
            for i in range(a.axes[0]):
                self.I.swrite(a.store, a.idx[i * a.axes[1] + i], vals[i])
            return None
        if name == 'diag_indices':
            n = args[0]
            r = NDArr((n,), [num(i) for i in range(n)])
            return (r, r)
        if name in ('shape',):
            return self.val_attr(self.arr(args[0]), 'shape', UNDEF)
        if name == 'size':
            return self.val_attr(self.arr(args[0]), 'size', UNDEF)
        if name == 'ndim':
            v = self.arr(args[0])
            return len(v.axes) if isinstance(v, NDArr) else 0
        if name in ('putmask', 'copyto', 'place'):
            if name == 'copyto':
                v = args[1]
                if wh is not None:
                    v = self.ew(lambda c, a, b: ite(tobool(c), a, b), wh, v, args[0])
                self.setitem(args[0], Ellipsis, v)
            else:
                v = self.ew(lambda c, a, b: ite(tobool(c), a, b), args[1], args[2], args[0])
                self.setitem(args[0], Ellipsis, v)
            return None
        if name in ('isclose', 'allclose'):
            r = self.ew(lambda a, b: tm.cmp('<=', app('abs', tm.sub(a, b)), num(Fraction(1, 10**8))),
                        args[0], args[1])
            if name == 'allclose':
                return self.reduce('all', r)
            return r
        if name in ('errstate', 'seterr'):
            return Token('np.' + name)
        if name in ('sort', 'unique'):
            a = self.arr(args[0])
            if isinstance(a, NDArr) and len(a.axes) == 1:
                d = a.axes[0]
                return NDArr(a.axes, [mk('app', 'red:sort:%s' % (d.name if isinstance(d, Dim) else d), e)
                                      for e in a.elems])
        if name == 'cumsum':
            a = self.arr(args[0])
            if isinstance(a.axes[0], int):
                return self.stack([self.reduce('sum', self.getitem(a, slice(0, i + 1, None)), 0)
                                   for i in range(a.axes[0])], 0)
            d = a.axes[0]
            return NDArr(a.axes, [mk('app', 'red:cumsum:' + d.name, e) for e in a.elems])
        if name in ('roll', 'flip', 'cumprod', 'argsort', 'argmax', 'argmin', 'interp', 'searchsorted',
                    'gradient', 'convolve'):
            a = self.arr(args[0])
            if isinstance(a, NDArr) and any(isinstance(x, Dim) for x in a.axes):
                d = [x for x in a.axes if isinstance(x, Dim)][0]
                return NDArr(a.axes, [mk('app', 'red:%s:%s' % (name, d.name), e) for e in a.elems])
        if name in ('vectorize',):
            f = args[0]
            t = Token('vectorize', attrs={})

            def callv(I_, a, k):
                return self.ew(lambda *xs: self.scal(I_.call(f, list(xs), {})), *a)
            t.attrs['call'] = callv
            return t
        if name.startswith('random'):
            I.events.append(('random', name, I.loc(), land(*I.pc)))
            return I.opaque('np.' + name)
        self.I.note('np.%s' % name)
        return I.opaque('np.%s' % name)

    def tile(self, a, reps):
        if not isinstance(reps, tuple):
            reps = tuple(reps.items) if isinstance(reps, PyList) else (reps,)
        if not isinstance(a, NDArr):
            a = NDArr((1,), [self.scal(a)])
        axes = list(a.axes)
        reps = list(reps)
        while len(axes) < len(reps):
            axes.insert(0, 1)
        while len(reps) < len(axes):
            reps.insert(0, 1)
        els = a.elems
        out = []
        maps = []
        for ax, r in zip(axes, reps):
            r = self.dim_of(r if isinstance(r, (int, T)) else self.scal(r))
            if isinstance(r, int):
                if isinstance(ax, int):
                    out.append(ax * r)
                    maps.append((ax, r))
                elif r == 1:
                    out.append(ax)
                    maps.append(None)
                else:
                    d = self.dim_of(tm.mul(ax.size, num(r)))
                    self.I.note('tile of a symbolic axis')
                    out.append(d)
                    maps.append(None)
            else:
                if isinstance(ax, int) and ax == 1:
                    out.append(r)
                    maps.append((1, None))
                else:
                    raise Unsupported('tile at %s' % (self.I.loc(),))
        # build flat
        src_ints = [i for i, x in enumerate(axes) if isinstance(x, int)]
        strides = {}
        s = 1
        for i in reversed(src_ints):
            strides[i] = s
            s *= axes[i]
        oints = [i for i, x in enumerate(out) if isinstance(x, int)]
        res = []
        for pos in itertools.product(*[range(out[i]) for i in oints]):
            k = 0
            for i, p in zip(oints, pos):
                if i in strides:
                    k += strides[i] * (p % axes[i])
            res.append(els[k])
        return NDArr(tuple(out), res)

    def linspace(self, args, kw):
        start = args[0]
        stop = args[1]
        n = kw.get('num', args[2] if len(args) > 2 else 50)
        i = self._intidx(n)
        endpoint = kw.get('endpoint', True)
        if i is not None:
            m = i - 1 if endpoint else i
            return NDArr((i,), [tm.add(self.scal(start), tm.mul(num(Fraction(k, m) if m else 0),
                                tm.sub(self.scal(stop), self.scal(start)))) for k in range(i)])
        n = self.scal(n)
        d = self.dim_of(n)
        m = tm.sub(n, ONE) if endpoint else n
        step = tm.div(tm.sub(self.scal(stop), self.scal(start)), m)
        r = NDArr((d,), [tm.add(self.scal(start), tm.mul(d.ix, step))])
        if kw.get('retstep') is True:
            return (r, step)
        return r

    def array_split(self, a, n):
        k = self._intidx(n)
        if k is None:
            raise Unsupported('array_split count at %s' % (self.I.loc(),))
        if isinstance(a, Token):
            return PyList([Token('%s|fold%d/%d' % (a.name, i, k), types=a.types) for i in range(k)])
        a = self.arr(a)
        if isinstance(a, NDArr) and isinstance(a.axes[0], Dim):
            d0 = a.axes[0]
            out = []
            for i in range(k):
                nm = 'fold%d/%d' % (i, k)
                d = self.dimcache.setdefault((nm, d0.name), Dim(nm, sym('n_' + nm)))
                self.dimcache[(tm.show(d.size), d.size.id)] = d

                def f(x, i=i):
                    if x.k in ('sym', 'bsym') and x.a[0].endswith('@' + d0.name):
                        return mk('sym', x.a[0][:-len(d0.name)] + 'fold%d/%d' % (i, k))
                    return None
                out.append(NDArr((d,) + a.axes[1:], [tm.rebuild(e, f, {}) for e in a.elems]))
            return PyList(out)
        if isinstance(a, NDArr):
            m = a.axes[0]
            base, extra = divmod(m, k)
            out = []
            s = 0
            for i in range(k):
                ln = base + (1 if i < extra else 0)
                out.append(self.getitem(a, slice(s, s + ln, None)))
                s += ln
            return PyList(out)
        raise AbsRaise('TypeError', self.I.loc())

    def isscalar(self, v):
        if isinstance(v, Phi):
            return self.I.vbranch(v.c, lambda: self.isscalar(v.a), lambda: self.isscalar(v.b))
        if isinstance(v, (T, int, str, Fraction)):
            return True
        if isinstance(v, Token):
            return bool(v.scalar)
        if isinstance(v, Opaque):
            return mk('bapp', '?isscalar', v.term)
        return False

    # ------------------------------------------------------------- attributes
    def ext_attr(self, o, name):
        full = o.name + '.' + name
        if full in ('numpy.pi', 'math.pi'):
            return PI
        if full in ('numpy.nan', 'numpy.NaN', 'math.nan'):
            return sym('nan')
        if full in ('numpy.inf', 'math.inf', 'numpy.Inf'):
            return sym('inf')
        if full == 'numpy.newaxis':
            return None
        if full == 'os.environ':
            self.I.events.append(('env', full, self.I.loc(), land(*self.I.pc)))
        return Ext(full)

    def val_attr(self, o, name, default=UNDEF):
        I = self.I
        if isinstance(o, NDArr):
            if name == 'shape':
                return tuple(self.asize(a) for a in o.axes)
            if name == 'T':
                return self.transpose(o, list(range(len(o.axes)))[::-1])
            if name == 'size':
                r = ONE
                h = 1
                for a in o.axes:
                    if isinstance(a, int):
                        h *= a
                    else:
                        r = tm.mul(r, a.size)
                return h if r is ONE else tm.mul(num(h), r)
            if name == 'ndim':
                return len(o.axes)
            if name == 'dtype':
                return Token('dtype')
            if name in ('values', 'real'):
                return o
            if name == 'index':
                return Token('index')
            if name == 'name':
                return None
            if name in ('dayofyear', 'day_of_year'):
                return self.ew(lambda x: app('dayofyear', x), o)
            if name == 'iloc' or name == 'loc' or name == 'at' or name == 'iat':
                return o
            if name in ('tz', 'freq', 'flags'):
                return Token(name)
            return BoundExt(o, name)
        if isinstance(o, DF):
            if name in o.d and o.d[name] is not UNDEF:
                return o.d[name]
            if name in ('loc', 'iloc', 'at'):
                return Loc(o, name)
            if name == 'index':
                ix = NDArr((o.dim,), [o.ix if o.ix is not None else
                                      sym('timestamps@%s' % o.dim.name)])
                if o.sel is not None:
                    ix = NDArr((o.dim,), [app('rows', ix.elems[0], o.sel)])
                return ix
            if name == 'columns':
                return PyList(o.keys())
            if name == 'values':
                return self.df_values(o)
            if name == 'shape':
                return (self.df_nrows(o), len(o.keys()))
            if name == 'empty':
                return tm.cmp('==', self.df_nrows(o), ZERO)
            return BoundExt(o, name)
        if isinstance(o, (PyList, PyDict, PySet, tuple, str)):
            if name == '__class__':
                return Ext(type(o).__name__)
            return BoundExt(o, name)
        if isinstance(o, T) or isinstance(o, (int, bool)):
            if name in ('tolist', 'item', 'copy', 'astype', 'sum', 'any', 'all', 'mean', 'max', 'min',
                        'round', 'squeeze', 'flatten', 'ravel', 'to_pydatetime'):
                return BoundExt(o, name)
            if name == 'shape':
                return ()
            if name == 'ndim':
                return 0
            if name in ('real', 'values', 'T'):
                return o
            if name == 'dtype':
                return Token('dtype')
            if default is not UNDEF:
                return default
            if isinstance(o, T) and o.k == 'app' and o.a[0].startswith('geom'):
                return BoundExt(o, name)
            raise AbsRaise('AttributeError:scalar.%s' % name, I.loc())
        if o is None:
            if default is not UNDEF:
                return default
            raise AbsRaise('AttributeError:None.%s' % name, I.loc())
        if isinstance(o, BoundExt):
            if name == '__name__':
                return o.name
        if isinstance(o, Bound):
            return I.getattr(o.func, name, default)
        if isinstance(o, Loc):
            return BoundExt(o, name)
        if isinstance(o, range):
            return BoundExt(PyList(list(o)), name)
        if default is not UNDEF:
            return default
        raise AbsRaise('AttributeError:%s.%s' % (type(o).__name__, name), I.loc())

    # ------------------------------------------------------------------ calls
    def call_ext(self, name, args, kw):
        I = self.I
        I.ext_calls[name] = I.ext_calls.get(name, 0) + 1
        kw = dict(kw)
        if name.startswith('numpy.'):
            return self.call_np(name[6:], args, kw)
        h = getattr(self, 'fn_' + name.replace('.', '_'), None)
        if h is not None:
            return h(args, kw)
        if name.split('.')[-1] in ('Exception',) or name in (
                'ValueError', 'TypeError', 'KeyError', 'IndexError', 'NotImplementedError',
                'RuntimeError', 'AttributeError', 'AssertionError', 'OSError', 'ZeroDivisionError',
                'UserWarning', 'DeprecationWarning', 'StopIteration', 'ArithmeticError', 'LookupError',
                'FloatingPointError', 'ImportError', 'BaseException', 'Warning'):
            return Ext(name)
        if name.startswith('math.'):
            fn = name[5:]
            fn = {'atan': 'arctan', 'acos': 'arccos', 'asin': 'arcsin', 'atan2': 'arctan2',
                  'fabs': 'abs', 'pow': 'power', 'fsum': 'sum'}.get(fn, fn)
            return self.call_np(fn, args, kw)
        if name.startswith('shapely'):
            return self.shapely_call(name, args, kw)
        if name.startswith('pandas.'):
            return self.pandas_call(name[7:], args, kw)
        if name.startswith('pvlib.'):
            return self.pvlib_call(name[6:], args, kw)
        if name.startswith('multiprocessing.') or name.startswith('concurrent.futures.'):
            return self.mp_call(name.split('.')[-1], args, kw)
        if name.startswith(('time.', 'datetime.')) or name in ('time', 'datetime'):
            I.events.append(('clock', name, I.loc(), land(*I.pc)))
            return sym('clock#%d' % len(I.events))
        if name.startswith(('random.', 'os.', 'sys.', 'uuid.', 'secrets.', 'socket.', 'subprocess.')) \
                or name in ('open', 'input', 'exec', 'eval', 'globals'):
            I.events.append(('world', name, I.loc(), land(*I.pc)))
            return I.opaque(name)
        if name.startswith('functools.partial'):
            f, pa, pk = args[0], list(args[1:]), dict(kw)
            return Token('partial', attrs={'call': lambda I_, a, k: I_.call(f, pa + list(a), {**pk, **k})})
        if name == 'functools.reduce':
            f = args[0]
            items = I.iterate(args[1])
            if len(args) > 2:
                acc = args[2]
            else:
                acc, items = items[0], items[1:]
            for x in items:
                acc = I.call(f, [acc, x], {})
            return acc
        if name.startswith('functools.') and args and isinstance(args[0], (FuncVal,)):
            return args[0]
        if name.startswith('functools.'):
            return Token(name)
        if name.startswith('itertools.'):
            return self.itertools_call(name[10:], args, kw)
        if name.startswith('operator.'):
            return self.operator_call(name[9:], args, kw)
        if name in ('collections.OrderedDict',):
            return self.fn_dict(args, kw)
        if name == 'collections.defaultdict':
            return PyDict([])
        if name.startswith('collections.namedtuple') or name == 'typing.NamedTuple':
            nm = args[0]
            fields = args[1].split() if isinstance(args[1], str) else I.iterate(args[1])
            cv = ClassVal(nm, [], {'__annotations_order__': list(fields)}, None, nm)
            cv.dataclass = True
            return cv
        if name.startswith('logging.') or name.startswith('warnings.'):
            return Token(name + '()')
        if name.startswith('contextlib.'):
            return Token(name)
        if name.startswith('typing.') or name.startswith('abc.') or name.startswith('enum.'):
            return Token(name)
        if name.startswith('dataclasses.'):
            if name.endswith('dataclass'):
                return Ext('dataclasses.dataclass')
            if name.endswith('field'):
                if 'default_factory' in kw:
                    return I.call(kw['default_factory'], [], {})
                return kw.get('default')
            if name.endswith('replace'):
                o = args[0]
                n = Obj(o.cls)
                n.d = dict(o.d)
                n.d.update(kw)
                return n
            if name.endswith('asdict'):
                return PyDict([(k, args[0].d[k]) for k in args[0].d.get('__fields__', ())])
        I.note('ext call ' + name)
        I.events.append(('ext', name, list(args), kw, I.loc(), land(*I.pc)))
        return I.opaque(name)

    # builtins
    def fn_len(self, args, kw):
        return self.len(args[0])

    def len(self, v):
        I = self.I
        if isinstance(v, NDArr):
            if not v.axes:
                raise AbsRaise('TypeError', I.loc())
            return self.asize(v.axes[0])
        if isinstance(v, (PyList, tuple)):
            items = v.items if isinstance(v, PyList) else v
            if any(isinstance(x, Guarded) for x in items):
                r = ZERO
                for x in items:
                    r = tm.add(r, ite(x.cond, ONE, ZERO) if isinstance(x, Guarded) else ONE)
                return r
            return len(items)
        if isinstance(v, PyDict):
            return len(v.keys())
        if isinstance(v, str):
            return len(v)
        if isinstance(v, DF):
            return self.df_nrows(v)
        if isinstance(v, Phi):
            return I.vbranch(v.c, lambda: self.len(v.a), lambda: self.len(v.b))
        if isinstance(v, Token):
            if v.scalar:
                raise AbsRaise('TypeError', I.loc())
            if 'len' in v.attrs:
                return v.attrs['len']
            return sym('len(%s)' % v.name)
        if isinstance(v, Obj):
            f, _ = I.class_lookup(v.cls, '__len__')
            if f is not None:
                return I.call(Bound(v, f), [], {})
            if v.d.get('__geoms__', UNDEF) is not UNDEF:
                return self.len(v.d['__geoms__'])
        if isinstance(v, range):
            return len(v)
        if isinstance(v, Opaque):
            return I.opaque('len')
        raise AbsRaise('TypeError', I.loc())

    def fn_range(self, args, kw):
        xs = []
        for a in args:
            i = self._intidx(a)
            if i is None:
                if len(args) == 1:
                    d = self.dim_of(self.scal(a))
                    if isinstance(d, Dim):
                        return NDArr((d,), [d.ix])
                raise Unsupported('range(%s) at %s' % (a, self.I.loc()))
            xs.append(i)
        return range(*xs)

    def fn_enumerate(self, args, kw):
        start = kw.get('start', args[1] if len(args) > 1 else 0)
        v = args[0]
        if isinstance(v, NDArr) and v.axes and isinstance(v.axes[0], Dim):
            raise Unsupported('enumerate over symbolic axis at %s' % (self.I.loc(),))
        out = []
        n = start
        items = self.I.iterate(v)
        guarded = False
        for x in items:
            if isinstance(x, Guarded):
                guarded = True
                out.append(Guarded(x.cond, (n, x.val)))
                n = tm.add(lift(n), ite(x.cond, ONE, ZERO))
            else:
                out.append((n, x))
                n = n + 1 if isinstance(n, int) else tm.add(n, ONE)
        return PyList(out)

    def fn_zip(self, args, kw):
        ls = [self.I.iterate(a) for a in args]
        if any(isinstance(x, Guarded) for l in ls for x in l):
            ref = ls[0]
            if all(len(l) == len(ref) and all(
                    isinstance(x, Guarded) == isinstance(y, Guarded) and
                    (not isinstance(x, Guarded) or x.cond is y.cond)
                    for x, y in zip(l, ref)) for l in ls):
                out = []
                for xs in zip(*ls):
                    if isinstance(xs[0], Guarded):
                        out.append(Guarded(xs[0].cond, tuple(x.val for x in xs)))
                    else:
                        out.append(tuple(xs))
                return PyList(out)
            raise Unsupported('zip of guarded lists')
        return PyList([tuple(x) for x in zip(*ls)])

    def fn_map(self, args, kw):
        f = args[0]
        out = []
        for xs in zip(*[self.I.iterate(a) for a in args[1:]]):
            if any(isinstance(x, Guarded) for x in xs):
                raise Unsupported('map guarded')
            out.append(self.I.call(f, list(xs), {}))
        return PyList(out)

    def fn_filter(self, args, kw):
        out = []
        for x in self.I.iterate(args[1]):
            c = self.I.truth(x if args[0] is None else self.I.call(args[0], [x], {}))
            if c is True:
                out.append(x)
            elif c is not False:
                out.append(Guarded(c, x))
        return PyList(out)

    def fn_list(self, args, kw):
        if not args:
            return PyList()
        v = args[0]
        if isinstance(v, NDArr) and v.axes and isinstance(v.axes[0], Dim):
            return NDArr(v.axes, v.elems, kind='list')
        if isinstance(v, Token):
            return Token('list(%s)' % v.name, types={'list'})
        return PyList(self.I.iterate(v))

    def fn_tuple(self, args, kw):
        if not args:
            return ()
        return tuple(self.I.iterate(args[0]))

    def fn_set(self, args, kw):
        if not args:
            return PySet()
        return PySet(tuple(dict.fromkeys(self.I.iterate(args[0]))))

    fn_frozenset = fn_set

    def fn_dict(self, args, kw):
        d = PyDict()
        if args:
            for k, v in self.I.dict_items(args[0]):
                d.d[self.I.hkey(k)] = v
        for k, v in kw.items():
            d.d[k] = v
        return d

    def fn_dict_fromkeys(self, args, kw):
        v = args[1] if len(args) > 1 else None
        return PyDict([(k, v) for k in self.I.iterate(args[0])])

    def fn_sorted(self, args, kw):
        items = self.I.iterate(args[0])
        key = kw.get('key')
        if any(isinstance(x, Guarded) for x in items):
            raise Unsupported('sorted guarded')
        ks = [x if key is None else self.I.call(key, [x], {}) for x in items]
        hk = []
        for k in ks:
            i = self._intidx(k) if not isinstance(k, str) else k
            if i is None and isinstance(k, tuple):
                i = tuple(self._intidx(x) if not isinstance(x, str) else x for x in k)
                if any(x is None for x in i):
                    i = None
            hk.append(i)
        if all(h is not None for h in hk):
            idx = sorted(range(len(items)), key=lambda i: hk[i], reverse=bool(kw.get('reverse', False)))
            return PyList([items[i] for i in idx])
        self.I.note('sorted by symbolic key')
        return PyList([self.I.opaque('sorted') for _ in items])

    def fn_reversed(self, args, kw):
        return PyList(self.I.iterate(args[0])[::-1])

    def fn_sum(self, args, kw):
        v = args[0]
        start = kw.get('start', args[1] if len(args) > 1 else 0)
        if isinstance(v, NDArr) and v.axes and isinstance(v.axes[0], Dim):
            return self.reduce('sum', v, 0)
        import ast as _ast
        r = start
        for x in self.I.iterate(v):
            if isinstance(x, Guarded):
                r2 = self.I.binop(_ast.Add(), r, x.val)
                r = self.I.vite(x.cond, r2, r)
            else:
                r = self.I.binop(_ast.Add(), r, x)
        return r

    def _minmax(self, f, args, kw):
        items = self.I.iterate(args[0]) if len(args) == 1 else args
        if kw.get('key') is not None:
            return self.I.opaque('minmax key')
        if all(isinstance(x, int) for x in items) and items:
            return max(items) if f is tm.tmax else min(items)
        if not items:
            if 'default' in kw:
                return kw['default']
            raise AbsRaise('ValueError', self.I.loc())
        r = items[0]
        for x in items[1:]:
            r = self.ew(f, r, x)
        return r

    def fn_min(self, args, kw):
        return self._minmax(tm.tmin, args, kw)

    def fn_max(self, args, kw):
        return self._minmax(tm.tmax, args, kw)

    def fn_abs(self, args, kw):
        return self.ew(lambda x: app('abs', x), args[0])

    def fn_any(self, args, kw):
        v = args[0]
        if isinstance(v, NDArr) and isinstance(v.axes[0], Dim):
            return self.I.hostb(self.reduce('any', v))
        acc = FALSE
        for x in self.I.iterate(v):
            if isinstance(x, Guarded):
                acc = lor(acc, land(x.cond, lift(self.I.truth(x.val))))
            else:
                acc = lor(acc, lift(self.I.truth(x)))
        return self.I.hostb(acc)

    def fn_all(self, args, kw):
        v = args[0]
        if isinstance(v, NDArr) and isinstance(v.axes[0], Dim):
            return self.I.hostb(self.reduce('all', v))
        acc = TRUE
        for x in self.I.iterate(v):
            if isinstance(x, Guarded):
                acc = land(acc, lor(lnot(x.cond), lift(self.I.truth(x.val))))
            else:
                acc = land(acc, lift(self.I.truth(x)))
        return self.I.hostb(acc)

    TYPEMAP = {'dict': (PyDict,), 'list': (PyList,), 'tuple': (tuple,), 'str': (str,), 'bool': (bool,)}

    def fn_isinstance(self, args, kw):
        return self.isinstance(args[0], args[1])

    def isinstance(self, v, t):
        if isinstance(v, Phi):
            return self.I.vbranch(v.c, lambda: self.isinstance(v.a, t), lambda: self.isinstance(v.b, t))
        if isinstance(t, (tuple, PyList)):
            for x in self.I.iterate(t):
                r = self.isinstance(v, x)
                if r is not False:
                    return r
            return False
        if isinstance(t, ClassVal):
            return isinstance(v, Obj) and t in v.cls.mro()
        n = t.name if isinstance(t, Ext) else ''
        s = n.split('.')[-1]
        if isinstance(v, Token):
            return n in v.types or s in {x.split('.')[-1] for x in v.types}
        if n == 'list':
            return isinstance(v, PyList) and not isinstance(v, PySet) or (
                isinstance(v, NDArr) and v.kind == 'list')
        if n in self.TYPEMAP:
            if n == 'bool' and isinstance(v, T):
                return is_bool(v)
            return isinstance(v, self.TYPEMAP[n])
        if s in ('set', 'frozenset'):
            return isinstance(v, PySet)
        if s == 'ndarray':
            return isinstance(v, NDArr) and v.kind == 'arr'
        if s in ('Series', 'DatetimeIndex', 'Index'):
            return isinstance(v, NDArr) and v.kind == s
        if s == 'DataFrame':
            return isinstance(v, DF)
        if s in ('int', 'integer', 'Integral', 'int64'):
            return isinstance(v, int) and not isinstance(v, bool)
        if s in ('float', 'Number', 'Real', 'number', 'floating', 'float64'):
            if s in ('Number', 'Real', 'number'):
                return isscalarT(v)
            return isinstance(v, T) and not is_bool(v)
        if s in ('Iterable', 'Sequence', 'Collection', 'Sized'):
            return isinstance(v, (PyList, tuple, NDArr, PyDict, str))
        if s in ('Mapping', 'MutableMapping'):
            return isinstance(v, PyDict)
        if s == 'Callable':
            return self.callable(v)
        if isinstance(v, Obj):
            return any(getattr(b, 'name', '').split('.')[-1] == s for b in v.cls.ext_bases())
        if isinstance(v, Opaque):
            return mk('bapp', '?isinstance', v.term)
        return False

    def fn_issubclass(self, args, kw):
        a, b = args
        if isinstance(a, ClassVal) and isinstance(b, ClassVal):
            return b in a.mro()
        return False

    def fn_hasattr(self, args, kw):
        return self.I.hasattr(args[0], args[1])

    def fn_getattr(self, args, kw):
        d = args[2] if len(args) > 2 else UNDEF
        if d is not UNDEF:
            h = self.I.hasattr(args[0], args[1])
            if h is False:
                return d
        return self.I.getattr(args[0], args[1], d)

    def fn_setattr(self, args, kw):
        self.I.setattr(args[0], args[1], args[2])

    def fn_callable(self, args, kw):
        return self.callable(args[0])

    def callable(self, v):
        if isinstance(v, (FuncVal, Bound, ClassVal, Ext, BoundExt, StaticVal)):
            return True
        if isinstance(v, Token):
            return bool(v.callable)
        if isinstance(v, Obj):
            return self.I.class_lookup(v.cls, '__call__')[0] is not None
        if isinstance(v, Phi):
            return self.I.vbranch(v.c, lambda: self.callable(v.a), lambda: self.callable(v.b))
        if isinstance(v, Opaque):
            return mk('bapp', '?callable', v.term)
        return False

    def fn_int(self, args, kw):
        v = args[0] if args else 0
        i = self._intidx(v) if isinstance(v, (int, T)) else None
        if isinstance(v, bool):
            return int(v)
        if i is not None:
            return i
        if isinstance(v, str):
            return int(v)
        if isinstance(v, T) and v.k in ('sym',) and (v is TIME or v.a[0].startswith(('n_', 'len('))):
            return v
        return self.ew(lambda x: app('trunc', x), v)

    def fn_float(self, args, kw):
        v = args[0] if args else 0
        if isinstance(v, str):
            return num(float(v)) if v not in ('nan', 'inf') else sym(v)
        return self.scal(v)

    def fn_bool(self, args, kw):
        return self.I.truth(args[0]) if args else False

    def fn_str(self, args, kw):
        v = args[0] if args else ''
        return str(v) if isinstance(v, (str, int)) else Token('str')

    fn_repr = fn_str

    def fn_print(self, args, kw):
        return None

    def fn_round(self, args, kw):
        return self.ew(lambda x: app('round', x), args[0])

    def fn_type(self, args, kw):
        v = args[0]
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, PyDict):
            return Ext('dict')
        if isinstance(v, PyList):
            return Ext('list')
        return Ext('type')

    def fn_iter(self, args, kw):
        return PyList(self.I.iterate(args[0]))

    def fn_next(self, args, kw):
        v = args[0]
        items = self.I.iterate(v)
        if not items:
            if len(args) > 1:
                return args[1]
            raise AbsRaise('StopIteration', self.I.loc())
        if isinstance(items[0], Guarded):
            base = args[1] if len(args) > 1 else UNDEF
            r = base
            for x in reversed(items):
                r = self.I.vite(x.cond, x.val, r) if isinstance(x, Guarded) else x
            return r
        if isinstance(v, PyList):
            self.I.write(v.d, 'items', v.items[1:])
        return items[0]

    def fn_slice(self, args, kw):
        if len(args) == 1:
            return slice(None, args[0], None)
        return slice(*args)

    def fn_id(self, args, kw):
        return num(id(args[0]))

    def fn_pow(self, args, kw):
        return self.ew(tm.power, args[0], args[1])

    def fn_divmod(self, args, kw):
        a, b = args
        if isinstance(a, int) and isinstance(b, int):
            return divmod(a, b)
        return (app('floor', tm.div(self.scal(a), self.scal(b))), app('mod', self.scal(a), self.scal(b)))

    def fn_object(self, args, kw):
        return Token('object')

    def fn_vars(self, args, kw):
        return PyDict(args[0].d.items())

    def fn_delattr(self, args, kw):
        self.I.hwrite(args[0], args[1], UNDEF)

    def fn_format(self, args, kw):
        return Token('str')

    def fn_copy_deepcopy(self, args, kw):
        return self.deepcopy(args[0], {}, True)

    def fn_copy_copy(self, args, kw):
        return self.deepcopy(args[0], {}, False)

    def deepcopy(self, v, memo, deep):
        k = id(v)
        if k in memo:
            return memo[k]
        if isinstance(v, NDArr):
            r = NDArr(v.axes, v.elems, kind=v.kind)
            memo[k] = r
            return r
        rec = (lambda x: self.deepcopy(x, memo, True)) if deep else (lambda x: x)
        if isinstance(v, Obj):
            f, _ = self.I.class_lookup(v.cls, '__deepcopy__' if deep else '__copy__')
            if f is not None:
                return self.I.call(Bound(v, f), [PyDict()] if deep else [], {})
            r = Obj(v.cls)
            memo[k] = r
            r.d = {n: rec(x) for n, x in v.d.items()}
            return r
        if isinstance(v, PyList):
            r = type(v)(())
            memo[k] = r
            r.d['items'] = tuple(rec(x) for x in v.items)
            return r
        if isinstance(v, PyDict):
            r = PyDict([(n, rec(v.d[n])) for n in v.keys()])
            memo[k] = r
            return r
        if isinstance(v, tuple):
            return tuple(rec(x) for x in v)
        if isinstance(v, Phi):
            return Phi(v.c, rec(v.a), rec(v.b))
        if isinstance(v, Guarded):
            return Guarded(v.cond, rec(v.val))
        if isinstance(v, DF):
            r = DF({n: rec(x) for n, x in v.d.items()}, v.dim, v.sel, v.ix)
            return r
        if isinstance(v, Token):
            return Token(v.name, v.types, v.scalar, v.callable, v.attrs, v.pointwise, v.absent)
        return v

    def itertools_call(self, name, args, kw):
        I = self.I
        if name == 'chain':
            return PyList([x for a in args for x in I.iterate(a)])
        if name == 'chain.from_iterable':
            return PyList([x for a in I.iterate(args[0]) for x in I.iterate(a)])
        if name == 'product':
            return PyList([tuple(x) for x in itertools.product(*[I.iterate(a) for a in args])])
        if name == 'combinations':
            return PyList([tuple(x) for x in itertools.combinations(I.iterate(args[0]), args[1])])
        if name == 'pairwise':
            l = I.iterate(args[0])
            return PyList(list(zip(l, l[1:])))
        if name == 'repeat':
            if len(args) > 1:
                return PyList([args[0]] * args[1])
            return PyList([args[0]] * 64)
        if name == 'islice':
            l = I.iterate(args[0])
            return PyList(l[slice(*args[1:])])
        if name == 'zip_longest':
            return PyList([tuple(x) for x in itertools.zip_longest(
                *[I.iterate(a) for a in args], fillvalue=kw.get('fillvalue'))])
        if name == 'starmap':
            return PyList([I.call(args[0], list(I.iterate(x)), {}) for x in I.iterate(args[1])])
        if name == 'count':
            s = args[0] if args else 0
            return PyList(list(range(s, s + 64)))
        if name == 'accumulate':
            out = []
            acc = None
            import ast as _ast
            for x in I.iterate(args[0]):
                acc = x if acc is None else I.binop(_ast.Add(), acc, x)
                out.append(acc)
            return PyList(out)
        return I.opaque('itertools.' + name)

    def operator_call(self, name, args, kw):
        I = self.I
        import ast as _ast
        if name == 'itemgetter':
            ks = args
            return Token('itemgetter', attrs={'call': lambda I_, a, k: I_.getitem(a[0], ks[0])
                                              if len(ks) == 1 else tuple(I_.getitem(a[0], q) for q in ks)})
        if name == 'attrgetter':
            ks = args
            return Token('attrgetter', attrs={'call': lambda I_, a, k: I_.getattr(a[0], ks[0])
                                              if len(ks) == 1 else tuple(I_.getattr(a[0], q) for q in ks)})
        m = {'add': _ast.Add, 'sub': _ast.Sub, 'mul': _ast.Mult, 'truediv': _ast.Div, 'iadd': _ast.Add}
        if name in m:
            return I.binop(m[name](), args[0], args[1])
        return I.opaque('operator.' + name)

    # methods of builtin values
    def call_method(self, o, name, args, kw):
        I = self.I
        if isinstance(o, NDArr):
            return self.val_call(o, name, args, kw)
        if isinstance(o, SuperVal):
            obj = o.obj
            if name == '__init__':
                if isinstance(obj, Obj) and obj.cls.ext_bases():
                    self.geom_init(obj, args, kw)
                return None
            if isinstance(obj, Obj):
                return self.geom_call(obj, name, args, kw)
            return I.opaque('super.' + name)
        if isinstance(o, PySet):
            if name == 'add':
                if args[0] not in o.items:
                    I.hwrite(o, 'items', o.items + (args[0],))
                return None
            if name == 'update':
                I.hwrite(o, 'items', tuple(dict.fromkeys(o.items + tuple(I.iterate(args[0])))))
                return None
        if isinstance(o, PyList):
            items = o.items
            if name == 'append':
                I.hwrite(o, 'items', items + (args[0],))
                return None
            if name == 'extend':
                I.hwrite(o, 'items', items + tuple(I.iterate(args[0])))
                return None
            if name == 'insert':
                l = list(items)
                l.insert(args[0], args[1])
                I.hwrite(o, 'items', tuple(l))
                return None
            if name == 'pop':
                l = list(items)
                if not l:
                    raise AbsRaise('IndexError', I.loc())
                x = l.pop(*args)
                I.hwrite(o, 'items', tuple(l))
                return x
            if name == 'clear':
                I.hwrite(o, 'items', ())
                return None
            if name == 'copy':
                return PyList(items)
            if name == 'reverse':
                I.hwrite(o, 'items', items[::-1])
                return None
            if name == 'remove':
                l = list(items)
                for i, x in enumerate(l):
                    if x is args[0] or (isinstance(x, (str, int)) and x == args[0]):
                        del l[i]
                        break
                I.hwrite(o, 'items', tuple(l))
                return None
            if name == 'index':
                for i, x in enumerate(items):
                    if x is args[0] or (isinstance(x, (str, int)) and x == args[0]):
                        return i
                raise AbsRaise('ValueError', I.loc())
            if name == 'count':
                return sum(1 for x in items if x == args[0])
            if name == 'sort':
                r = self.fn_sorted([o], kw)
                I.hwrite(o, 'items', r.items)
                return None
            if name == 'tolist':
                return o
        if isinstance(o, PyDict):
            if name == 'get':
                k = I.hkey(args[0])
                d = args[1] if len(args) > 1 else kw.get('default')
                if isinstance(k, T):
                    # symbolic key: choose among integer keys
                    v = d
                    for kk in reversed(o.keys()):
                        if isinstance(kk, int):
                            v = I.vite(tm.cmp('==', k, num(kk)), o.d[kk], v)
                    return v
                try:
                    v = o.d.get(k, UNDEF)
                except TypeError:
                    return I.opaque('dict.get')
                return d if v is UNDEF else v
            if name == 'update':
                if args:
                    for k, v in I.dict_items(args[0]):
                        I.hwrite(o, I.hkey(k), v)
                for k, v in kw.items():
                    I.hwrite(o, k, v)
                return None
            if name == 'keys':
                return PyList(o.keys())
            if name == 'values':
                return PyList([o.d[k] for k in o.keys()])
            if name == 'items':
                return PyList([(k, o.d[k]) for k in o.keys()])
            if name == 'copy':
                return PyDict([(k, o.d[k]) for k in o.keys()])
            if name == 'setdefault':
                k = I.hkey(args[0])
                if o.d.get(k, UNDEF) is UNDEF:
                    I.hwrite(o, k, args[1] if len(args) > 1 else None)
                return o.d[k]
            if name == 'pop':
                k = I.hkey(args[0])
                v = o.d.get(k, UNDEF)
                if v is UNDEF:
                    if len(args) > 1:
                        return args[1]
                    raise AbsRaise('KeyError', I.loc())
                I.hwrite(o, k, UNDEF)
                return v
            if name == 'clear':
                for k in o.keys():
                    I.hwrite(o, k, UNDEF)
                return None
            if name == 'fromkeys':
                return self.fn_dict_fromkeys(args, kw)
        if isinstance(o, tuple):
            if name == 'index':
                for i, x in enumerate(o):
                    if x is args[0] or (isinstance(x, (str, int)) and x == args[0]):
                        return i
            if name == 'count':
                return sum(1 for x in o if x == args[0])
        if isinstance(o, str):
            if name == 'format':
                if all(isinstance(a, (str, int)) or a is None for a in
                       list(args) + list(kw.values())):
                    try:
                        return o.format(*args, **kw)
                    except Exception:
                        pass
                return Token('fmt')
            if all(isinstance(a, (str, int)) for a in args):
                try:
                    r = getattr(o, name)(*args)
                    if isinstance(r, list):
                        return PyList(r)
                    return r
                except Exception:
                    pass
            if name == 'join':
                xs = I.iterate(args[0])
                if all(isinstance(x, str) for x in xs):
                    return o.join(xs)
            return Token('str')
        if isinstance(o, DF):
            return self.df_call(o, name, args, kw)
        if isinstance(o, (T, int, bool)):
            if name in ('tolist', 'item', 'copy', 'astype', 'squeeze', 'flatten', 'ravel', 'sum', 'mean',
                        'max', 'min', 'any', 'all', 'to_pydatetime'):
                return o
            if name == 'round':
                return app('round', self.scal(o))
        if isinstance(o, Obj):
            return self.geom_call(o, name, args, kw)
        I.note('method %s.%s' % (type(o).__name__, name))
        return I.opaque('method ' + name)

    def val_call(self, a, name, args, kw):
        I = self.I
        if name in self.REDS:
            axis = kw.get('axis', args[0] if args else None)
            return self.reduce(self.REDS[name], a, axis, bool(kw.get('keepdims', False)))
        if name in ('copy',):
            r = NDArr(a.axes, a.elems, kind=a.kind)
            r.store.dt = a.store.dt
            return r
        if name == 'astype':
            return NDArr(a.axes, a.elems, kind=a.kind)
        if name in ('tolist',):
            if a.axes and all(isinstance(x, int) for x in a.axes):
                if len(a.axes) == 1:
                    return PyList(a.elems)
                return PyList([self.val_call(I.getitem(a, i), 'tolist', [], {}) for i in range(a.axes[0])])
            return NDArr(a.axes, a.elems, kind='list')
        if name in ('to_numpy', 'view', 'ravel', 'flatten', 'to_pydatetime', 'squeeze') and len(a.axes) == 1:
            return NDArr(a.axes, a.elems) if name != 'ravel' else a
        if name in ('ravel', 'flatten'):
            if all(isinstance(x, int) for x in a.axes):
                return NDArr((len(a.idx),), a.elems)
        if name in ('tz_localize', 'tz_convert'):
            key = tm.show(args[0]) if args and isinstance(args[0], T) else repr(args[0] if args else kw.get('tz'))
            return NDArr(a.axes, [tm.app(name + " " + key, x) for x in a.elems], kind=a.kind)
        if name == 'transpose':
            if args:
                p = list(I.iterate(args[0])) if len(args) == 1 and not isinstance(args[0], int) else list(args)
            else:
                p = list(range(len(a.axes)))[::-1]
            return self.transpose(a, [x % len(a.axes) for x in p])
        if name == 'swapaxes':
            return self.call_np('swapaxes', [a] + list(args), kw)
        if name == 'reshape':
            return self.reshape(a, tuple(args) if len(args) != 1 else args[0])
        if name == 'dot':
            return self.dot(a, args[0])
        if name == 'fill':
            for p in a.idx:
                I.swrite(a.store, p, self.scal(args[0]))
            return None
        if name == 'clip':
            return self.call_np('clip', [a] + list(args), kw)
        if name == 'item':
            return self.scal(a)
        if name in ('round',):
            return self.ew(lambda x: app('round', x), a)
        if name in ('fillna',):
            return self.ew(lambda x, v: ite(mk('bapp', 'isnan', x), v, x), a, args[0])
        if name in ('isna', 'isnull'):
            return self.ew(lambda x: mk('bapp', 'isnan', x), a)
        if name == 'where':
            other = args[1] if len(args) > 1 else sym('nan')
            return self.ew(lambda c, x, y: ite(tobool(c), x, y), args[0], a, other)
        if name == 'mask':
            other = args[1] if len(args) > 1 else sym('nan')
            return self.ew(lambda c, x, y: ite(tobool(c), y, x), args[0], a, other)
        if name in ('append', 'extend', 'insert') and a.kind == 'list':
            raise Unsupported('list of symbolic length mutated at %s' % (I.loc(),))
        if name == 'setflags':
            return None
        if name in ('__len__',):
            return self.len(a)
        if name in ('abs',):
            return self.ew(lambda x: app('abs', x), a)
        m = {'mul': tm.mul, 'add': tm.add, 'sub': tm.sub, 'div': tm.div}
        if name in m:
            return self.ew(m[name], a, args[0])
        I.note('array method ' + name)
        return I.opaque('array method ' + name)

    # ------------------------------------------------------------------ pvlib
    def pvlib_call(self, name, args, kw):
        I = self.I
        short = name.split('.')[-1]
        if short == 'cosd':
            return self.ew(tm.cosd, args[0])
        if short == 'sind':
            return self.ew(tm.sind, args[0])
        if short == 'tand':
            return self.ew(lambda x: app('tan', tm.deg2rad(x)), args[0])
        if short == 'asind':
            return self.ew(lambda x: tm.rad2deg(app('arcsin', x)), args[0])
        if short == 'acosd':
            return self.ew(lambda x: tm.rad2deg(app('arccos', x)), args[0])
        sigs = {'aoi': ('surface_tilt', 'surface_azimuth', 'solar_zenith', 'solar_azimuth'),
                'aoi_projection': ('surface_tilt', 'surface_azimuth', 'solar_zenith', 'solar_azimuth'),
                'get_total_irradiance': ('surface_tilt', 'surface_azimuth', 'solar_zenith',
                                         'solar_azimuth', 'dni', 'ghi', 'dhi', 'dni_extra', 'airmass',
                                         'albedo', 'surface_type', 'model', 'model_perez'),
                'perez': ('surface_tilt', 'surface_azimuth', 'dhi', 'dni', 'dni_extra', 'solar_zenith',
                          'solar_azimuth', 'airmass', 'model', 'return_components'),
                'get_extra_radiation': ('datetime_or_doy', 'solar_constant', 'method', 'epoch_year'),
                'get_relative_airmass': ('zenith', 'model'),
                'sapm': ('aoi', 'module', 'upper'),
                'retrieve_sam': ('name',)}
        if short in sigs:
            names = sigs[short]
            d = dict(zip(names, args))
            d.update(kw)
            I.events.append(('pvlib', short, d, I.loc(), land(*I.pc)))
            if short in ('aoi', 'aoi_projection', 'get_extra_radiation', 'get_relative_airmass'):
                extra = {'aoi': 4, 'aoi_projection': 4, 'get_extra_radiation': 1, 'get_relative_airmass': 1}[short]
                xs = [d[n] for n in names[:extra]]
                tail = [sym('%s=%s' % (n, d[n])) for n in names[extra:] if n in d]
                return self.ew(lambda *q: app('pvlib.' + short, *(list(q) + tail)), *xs)
            if short == 'get_total_irradiance':
                req = ['surface_tilt', 'surface_azimuth', 'solar_zenith', 'solar_azimuth', 'dni', 'ghi', 'dhi']
                for n in req:
                    if n not in d:
                        raise AbsRaise('TypeError:missing ' + n, I.loc())
                xs = [d[n] for n in req] + [d.get('albedo', num(Fraction(1, 4)))]
                tail = [sym('%s=%s' % (n, self._pr(d[n]))) for n in
                        ('dni_extra', 'airmass', 'surface_type', 'model', 'model_perez') if n in d]
                out = []
                for c in ('poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse', 'poa_ground_diffuse'):
                    out.append((c, self.ew(lambda *q, c=c: app('pvlib.total.' + c, *(list(q) + tail)), *xs)))
                return PyDict(out)
            if short == 'perez':
                xs = [d[n] for n in names[:8]]
                tail = [sym('%s=%s' % (n, self._pr(d[n]))) for n in names[8:9] if n in d]
                cols = ('sky_diffuse', 'isotropic', 'circumsolar', 'horizon')
                vals = [(c, self.ew(lambda *q, c=c: app('pvlib.perez.' + c, *(list(q) + tail)), *xs))
                        for c in cols]
                if d.get('return_components') is True:
                    a = vals[0][1]
                    return DF(dict(vals), a.axes[0] if isinstance(a, NDArr) else self.dim_of(TIME))
                return vals[0][1]
            if short == 'sapm':
                tail = [sym('upper=%s' % self._pr(d.get('upper'))), sym('module:%s' % self._pr(d.get('module')))]
                return self.ew(lambda q: app('pvlib.sapm', q, *tail), d['aoi'])
            if short == 'retrieve_sam':
                return Token('sam:%s' % (d.get('name'),))
        I.note('pvlib.' + name)
        return I.opaque('pvlib.' + name)

    def _pr(self, v):
        if isinstance(v, Token):
            return v.name
        if isinstance(v, NDArr):
            return '+'.join(tm.show(e) for e in v.elems)
        if isinstance(v, T):
            return tm.show(v)
        return str(v)

    # ----------------------------------------------------------------- pandas
    def df_nrows(self, df):
        if df.sel is None:
            return df.dim.size
        return mk('app', 'count:%s' % df.dim.name, ite(df.sel, ONE, ZERO))

    def df_values(self, df):
        return self.stack([df.d[k] for k in df.keys()], 1)

    def _frame_index(self, args, kw):
        index = kw.get('index', args[1] if len(args) > 1 else None)
        if isinstance(index, NDArr) and index.elems:
            return index.elems[0]
        return None

    def col(self, v, dim):
        v = self.arr(v)
        if not isinstance(v, NDArr):
            return NDArr((dim,), [self.scal(v)])
        return v

    def pandas_call(self, name, args, kw):
        I = self.I
        if name == 'DataFrame':
            ix = self._frame_index(args, kw)
            data = kw.get('data', args[0] if args else None)
            index = kw.get('index', args[1] if len(args) > 1 else None)
            columns = kw.get('columns', args[2] if len(args) > 2 else None)
            if isinstance(data, PyDict):
                vals = [(k, self.arr(data.d[k])) for k in data.keys()]
                dim = None
                for _, v in vals:
                    if isinstance(v, NDArr):
                        dim = v.axes[0]
                if dim is None:
                    dim = index.axes[0] if isinstance(index, NDArr) else self.dim_of(TIME)
                if not isinstance(dim, Dim):
                    dim = Dim('n%d' % dim, num(dim))
                return DF({k: NDArr((dim,), list(self.col(v, dim).elems[:1]))
                           if self._lenok(v) else v for k, v in vals}, dim, None, ix)
            if isinstance(data, NDArr) and columns is not None:
                names = I.iterate(columns)
                dim = data.axes[0]
                return DF({n: NDArr((dim,), [I.getitem(data, (slice(None, None, None), i)).elems[0]])
                           for i, n in enumerate(names)}, dim, None, ix)
            return I.opaque('DataFrame')
        if name in ('DatetimeIndex', 'to_datetime'):
            v = args[0]
            if isinstance(v, NDArr):
                return NDArr(v.axes, v.elems, kind='DatetimeIndex')
            if isinstance(v, PyList):
                a = self.arr(v)
                return a
            if isinstance(v, Token) and not v.scalar:
                return NDArr((self.dim_of(TIME),), [sym(v.name + '@t')])
            return v
        if name == 'Series':
            v = kw.get('data', args[0] if args else None)
            a = self.arr(v)
            return NDArr(a.axes, a.elems) if isinstance(a, NDArr) else a
        if name == 'concat':
            objs = I.iterate(args[0])
            axis = kw.get('axis', args[1] if len(args) > 1 else 0)
            if axis in (1, 'columns'):
                d = {}
                for o in objs:
                    if not isinstance(o, DF):
                        return I.opaque('concat')
                    for k in o.keys():
                        d[k] = o.d[k]
                return DF(d, objs[0].dim, objs[0].sel, objs[0].ix)
        I.note('pandas.' + name)
        return I.opaque('pandas.' + name)

    def _lenok(self, v):
        return True

    def df_get(self, df, k):
        I = self.I
        if isinstance(k, str):
            if k not in df.keys():
                raise AbsRaise('KeyError:' + k, I.loc())
            return df.d[k]
        if isinstance(k, PyList):
            return DF({n: df.d[n] for n in I.iterate(k)}, df.dim, df.sel, df.ix)
        if isinstance(k, NDArr):
            return self.df_sel(df, k)
        return I.opaque('df item')

    def df_sel(self, df, mask):
        m = mask.elems[0]
        return DF({n: NDArr(df.d[n].axes, df.d[n].elems) for n in df.keys()}, df.dim,
                  m if df.sel is None else land(df.sel, m), df.ix)

    def df_set(self, df, k, v):
        if isinstance(k, str):
            self.I.hwrite(df, k, NDArr((df.dim,), [self.col(v, df.dim).elems[0]]))
            return
        raise Unsupported('df store')

    def loc_get(self, loc, k):
        df = loc.df
        if not isinstance(k, tuple):
            k = (k, slice(None, None, None))
        r, c = k
        full = isinstance(r, slice) and r.start is None and r.stop is None
        if isinstance(c, slice):
            cols = df.keys()
            base = df
            if full:
                return df
            if isinstance(r, NDArr):
                return self.df_sel(df, r)
            return self.I.opaque('loc row')
        if isinstance(c, str):
            v = self.df_get(df, c)
            if full:
                return v
            if isinstance(r, NDArr):
                return NDArr(v.axes, [v.elems[0]])
            return self.I.opaque('loc row')
        if isinstance(c, PyList):
            base = df if full else self.df_sel(df, r)
            return DF({n: base.d[n] for n in self.I.iterate(c)}, base.dim, base.sel, base.ix)
        return self.I.opaque('loc')

    def loc_set(self, loc, k, v):
        df = loc.df
        if not isinstance(k, tuple):
            k = (k, slice(None, None, None))
        r, c = k
        cond = TRUE
        if isinstance(r, NDArr):
            cond = r.elems[0]
        elif not (isinstance(r, slice) and r.start is None and r.stop is None):
            raise Unsupported('loc store at %s' % (self.I.loc(),))
        cols = df.keys() if isinstance(c, slice) else ([c] if isinstance(c, str) else self.I.iterate(c))
        for n in cols:
            old = df.d.get(n, UNDEF)
            val = v.d[n] if isinstance(v, DF) else v
            val = self.col(val, df.dim).elems[0]
            if cond is not TRUE:
                if old is UNDEF:
                    o = sym('nan')
                else:
                    o = old.elems[0]
                val = ite(cond, val, o)
            self.I.hwrite(df, n, NDArr((df.dim,), [val]))

    def df_call(self, df, name, args, kw):
        I = self.I
        if name == 'copy':
            return DF(df.d, df.dim, df.sel, df.ix)
        if name == 'rename':
            cols = kw.get('columns', args[0] if args else None)
            m = dict(I.dict_items(cols))
            if kw.get('inplace') is True:
                old = {k: df.d[k] for k in df.keys()}
                for k in list(old):
                    if k in m:
                        I.hwrite(df, k, UNDEF)
                for k in old:
                    if k in m:
                        I.hwrite(df, m[k], old[k])
                return None
            return DF({m.get(k, k): df.d[k] for k in df.keys()}, df.dim, df.sel, df.ix)
        if name == 'join':
            d = {k: df.d[k] for k in df.keys()}
            d.update({k: args[0].d[k] for k in args[0].keys()})
            return DF(d, df.dim, df.sel, df.ix)
        if name == 'assign':
            d = {k: df.d[k] for k in df.keys()}
            for k, v in kw.items():
                d[k] = NDArr((df.dim,), [self.col(v, df.dim).elems[0]])
            return DF(d, df.dim, df.sel, df.ix)
        if name == 'drop':
            cols = kw.get('columns', args[0] if args else None)
            drop = [cols] if isinstance(cols, str) else I.iterate(cols)
            return DF({k: df.d[k] for k in df.keys() if k not in drop}, df.dim, df.sel, df.ix)
        if name == 'keys':
            return PyList(df.keys())
        if name == 'items':
            return PyList([(k, df.d[k]) for k in df.keys()])
        if name == 'get':
            return df.d.get(args[0], args[1] if len(args) > 1 else None)
        if name in ('to_numpy',):
            return self.df_values(df)
        if name in ('fillna',):
            v = self.scal(args[0])
            return DF({k: self.ew(lambda x: ite(mk('bapp', 'isnan', x), v, x), df.d[k])
                       for k in df.keys()}, df.dim, df.sel, df.ix)
        I.note('DataFrame.' + name)
        return I.opaque('DataFrame.' + name)

    # -------------------------------------------------------- multiprocessing
    def mp_call(self, name, args, kw):
        I = self.I
        if name == 'cpu_count':
            I.events.append(('cpu_count', I.loc()))
            return I.cpu_count if hasattr(I, 'cpu_count') else 4
        if name in ('Pool', 'ThreadPool', 'ProcessPoolExecutor', 'ThreadPoolExecutor'):
            n = kw.get('processes', kw.get('max_workers', args[0] if args else None))
            I.events.append(('pool', n, I.loc(), land(*I.pc)))
            return self.make_pool()
        if name == 'get_context':
            return Token('mpctx', attrs={'Pool': Token('Pool', attrs={'call': lambda I_, a, k: self.mp_call('Pool', a, k)})})
        return I.opaque('mp.' + name)

    def make_pool(self):
        I = self.I

        def tok(nm, f):
            return Token('pool.' + nm, attrs={'call': f})

        def result(v):
            return Token('async', attrs={'get': tok('get', lambda I_, a, k: v),
                                         'result': tok('result', lambda I_, a, k: v),
                                         'wait': tok('wait', lambda I_, a, k: None)})

        def pmap(I_, a, k):
            return PyList([I_.call(a[0], list(xs), {}) for xs in zip(*[I_.iterate(x) for x in a[1:2]])])

        def cmap(I_, a, k):
            seqs = [I_.iterate(x) for x in a[1:]]
            if len(seqs) > 1 and all(isinstance(x, int) for x in seqs[1]) and len(seqs[1]) == 1:
                seqs = seqs[:1]
            return PyList([I_.call(a[0], list(xs), {}) for xs in zip(*seqs)])

        def starmap(I_, a, k):
            return PyList([I_.call(a[0], list(I_.iterate(x)), {}) for x in I_.iterate(a[1])])

        def unordered(I_, a, k):
            r = pmap(I_, a, k).items
            return PyList(r[::-1])       # a completion order differing from submission

        def apply(I_, a, k):
            return I_.call(a[0], list(I_.iterate(a[1])) if len(a) > 1 else [],
                           dict(I_.dict_items(k['kwds'])) if 'kwds' in k else {})
        attrs = {'map': tok('map', cmap), 'imap': tok('imap', pmap),
                 'imap_unordered': tok('imap_unordered', unordered),
                 'starmap': tok('starmap', starmap),
                 'map_async': tok('map_async', lambda I_, a, k: result(pmap(I_, a, k))),
                 'starmap_async': tok('starmap_async', lambda I_, a, k: result(starmap(I_, a, k))),
                 'apply': tok('apply', apply),
                 'apply_async': tok('apply_async', lambda I_, a, k: result(apply(I_, a, k))),
                 'submit': tok('submit', lambda I_, a, k: result(I_.call(a[0], list(a[1:]), dict(k)))),
                 'close': tok('close', lambda I_, a, k: None),
                 'join': tok('join', lambda I_, a, k: None),
                 'terminate': tok('terminate', lambda I_, a, k: None),
                 'shutdown': tok('shutdown', lambda I_, a, k: None)}
        return Token('pool', attrs=attrs)

    # ---------------------------------------------------------------- shapely
    def geomcls(self, name):
        c = self.pycls.get(name)
        if c is None:
            c = self.pycls[name] = ClassVal(name, [Ext('shapely.geometry.' + name)], {}, None, 'shapely.' + name)
        return c

    def shapely_call(self, name, args, kw):
        I = self.I
        short = name.split('.')[-1]
        if short in ('GeometryCollection', 'LineString', 'Point', 'MultiLineString', 'MultiPoint', 'LinearRing',
                     'Polygon'):
            o = Obj(self.geomcls(short))
            self.geom_init(o, args, kw)
            return o
        if short == 'geos_geometrycollection_from_py':
            return (Token('geos', attrs={'geoms': args[0]}), num(2))
        if short == 'linemerge' and len(args) == 1:
            ls = I.iterate(args[0])
            if ls and all(planar.parts(x) is not None for x in ls if isinstance(x, Obj)) and \
                    all(isinstance(x, Obj) for x in ls):
                o = Obj(self.geomcls('MultiLineString'))
                o.d['__geoms__'] = self.snapshot(PyList(ls))
                return o
        return self.geom_op('geom.' + short, args)

    def geom_op(self, nm, args):
        """uninterpreted geometric operation"""
        ts = [self.geom_term(a) for a in args]
        t = mk('app', nm, *ts)
        o = Obj(self.geomcls('Geometry'))
        o.d['__term__'] = t
        return o

    def geom_term(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, Obj):
            t = v.d.get('__term__', UNDEF)
            if t is not UNDEF:
                return t
            xy = v.d.get('__xy__', UNDEF)
            if xy is not UNDEF:
                a = self.arr(xy)
                return mk('app', 'geom:' + ('pt' if len(a.axes) == 1 else 'line'), *a.elems)
            gs = v.d.get('__geoms__', UNDEF)
            if gs is not UNDEF:
                return mk('app', 'geom:coll', *[self.geom_term(x) for x in self.I.iterate(gs)])
            return sym('obj:%s:%d' % (v.cls.name, id(v)))
        if isinstance(v, Guarded):
            return mk('app', 'guard', ite(v.cond, ONE, ZERO), self.geom_term(v.val))
        if isinstance(v, Phi):
            return ite(v.c, self.geom_term(v.a), self.geom_term(v.b))
        if isinstance(v, (PyList, tuple)):
            return mk('app', 'seq', *[self.geom_term(x) for x in self.I.iterate(v)])
        if isinstance(v, NDArr):
            return mk('app', 'arr', *v.elems)
        if isinstance(v, Token):
            return sym(v.name)
        if v is None or isinstance(v, str):
            return sym('str:%s' % v)
        return self.scal(v)

    def kind(self, o):
        for b in o.cls.ext_bases():
            return b.name.split('.')[-1]
        return None

    def coords_of(self, v):
        """coordinates argument -> list of points, each (x, y) terms"""
        I = self.I
        if isinstance(v, Obj):
            xy = v.d.get('__xy__', UNDEF)
            if xy is not UNDEF:
                return xy
            return None
        if isinstance(v, NDArr):
            return v
        if isinstance(v, (PyList, tuple)):
            pts = []
            for p in I.iterate(v):
                if isinstance(p, Obj):
                    q = p.d.get('__xy__', UNDEF)
                    if q is UNDEF:
                        t = self.geom_term(p)
                        q = NDArr((2,), [mk('app', 'geom.x', t), mk('app', 'geom.y', t)])
                    pts.append(q)
                else:
                    pts.append(self.arr(p))
            if not pts:
                return NDArr((0, 2), [])
            return self.stack(pts, 0)
        if isinstance(v, Token):
            return None
        return None

    def geom_init(self, o, args, kw):
        I = self.I
        k = self.kind(o)
        a = args[0] if args else kw.get('coordinates', kw.get('geoms'))
        if k in ('LineString', 'LinearRing', None):
            if a is None:
                I.write(o.d, '__xy__', NDArr((0, 2), []))
            elif isinstance(a, Phi):
                def alt(x):
                    c = self.coords_of(x)
                    return c
                ca, cb = alt(a.a), alt(a.b)
                if ca is not None and cb is not None:
                    I.write(o.d, '__xy__', I.vite(a.c, ca, cb))
                else:
                    I.write(o.d, '__term__', ite(a.c, self.geom_term(a.a), self.geom_term(a.b)))
            else:
                c = self.coords_of(a)
                if c is None:
                    I.write(o.d, '__term__', mk('app', 'geom:lineof', self.geom_term(a)))
                else:
                    I.write(o.d, '__xy__', c)
        elif k == 'Point':
            if len(args) == 2:
                a = NDArr((2,), [self.scal(args[0]), self.scal(args[1])])
            if isinstance(a, Obj):
                a = a.d.get('__xy__', UNDEF)
            I.write(o.d, '__xy__', self.arr(a))
        else:
            if a is None:
                a = PyList()
            I.write(o.d, '__geoms__', self.snapshot(a))

    def snapshot(self, a):
        """shapely keeps the geometry the members have now"""
        out = []
        for x in self.I.iterate(a):
            g = x.d.get('__geoms__', UNDEF) if isinstance(x, Obj) else UNDEF
            if g is not UNDEF:
                y = Obj(x.cls)
                y.d.update(dict(x.d.items()))
                y.d['__geoms__'] = self.snapshot(g)
                x = y
            out.append(x)
        return PyList(out)

    def points(self, o):
        xy = o.d.get('__xy__', UNDEF)
        if xy is UNDEF or not isinstance(xy, NDArr) or len(xy.axes) != 2 or not isinstance(xy.axes[0], int):
            return None
        els = xy.elems
        return [(els[2 * i], els[2 * i + 1]) for i in range(xy.axes[0])]

    def mkpoint(self, x, y):
        o = Obj(self.geomcls('Point'))
        o.d['__xy__'] = NDArr((2,), [x, y])
        return o

    def geom_attr(self, o, name):
        I = self.I
        if name in ('_geom', '_ndim'):
            return Token('geos')
        if name == '__bool__':
            return I.truth(self.geom_attr(o, 'is_empty')) is not True
        geoms = o.d.get('__geoms__', UNDEF)
        pts = self.points(o)
        if name in ('geoms', '__iter__'):
            return geoms if geoms is not UNDEF else I.opaque('geoms')
        if name == 'is_empty':
            if geoms is not UNDEF:
                acc = TRUE
                for g in I.iterate(geoms):
                    c = TRUE
                    if isinstance(g, Guarded):
                        c, g = g.cond, g.val
                    acc = land(acc, lor(lnot(c), lift(I.truth(I.getattr(g, 'is_empty')))))
                return I.hostb(acc)
            if pts is not None:
                return len(pts) == 0
            return mk('bapp', 'geom.is_empty', self.geom_term(o))
        if name == 'length':
            if geoms is not UNDEF:
                r = ZERO
                for g in I.iterate(geoms):
                    if isinstance(g, Guarded):
                        r = tm.add(r, ite(g.cond, self.scal(I.getattr(g.val, 'length')), ZERO))
                    else:
                        r = tm.add(r, self.scal(I.getattr(g, 'length')))
                return r
            if pts is not None:
                r = ZERO
                for (x1, y1), (x2, y2) in zip(pts, pts[1:]):
                    dx, dy = tm.sub(x2, x1), tm.sub(y2, y1)
                    r = tm.add(r, app('sqrt', tm.add(tm.mul(dx, dx), tm.mul(dy, dy))))
                return r
            return mk('app', 'geom.length', self.geom_term(o))
        if name in ('boundary', 'coords', 'xy'):
            if name in ('coords', 'xy') and (geoms is not UNDEF or
                                             self.kind(o) in planar.MULTI):
                raise AbsRaise('NotImplementedError', I.loc())
            if name == 'xy' and (pts is not None or self.kind(o) == 'Point'):
                ps = pts if pts is not None else [tuple(o.d['__xy__'].elems)]
                return tuple(PyList([p[k] for p in ps]) for k in (0, 1))
            if pts is not None and name == 'boundary':
                if not pts:
                    return PyList()
                return PyList([self.mkpoint(*pts[0]), self.mkpoint(*pts[-1])])
            if pts is not None and name == 'coords':
                return PyList([tuple(p) for p in pts])
            if self.kind(o) == 'Point' and name == 'coords':
                e = o.d['__xy__'].elems
                return PyList([tuple(e)])
            if name == 'boundary' and geoms is UNDEF:
                t = self.geom_term(o)
                out = []
                for i in (0, 1):
                    p = Obj(self.geomcls('Point'))
                    p.d['__xy__'] = NDArr((2,), [mk('app', 'geom.bx%d' % i, t), mk('app', 'geom.by%d' % i, t)])
                    out.append(p)
                return PyList(out)
            t = self.geom_term(o)
            n = Obj(self.geomcls('Geometry'))
            n.d['__term__'] = mk('app', 'geom.' + name, t)
            return n
        if name in ('x', 'y'):
            xy = o.d.get('__xy__', UNDEF)
            if xy is not UNDEF and len(xy.axes) == 1:
                return xy.elems[0 if name == 'x' else 1]
            return mk('app', 'geom.' + name, self.geom_term(o))
        if name == 'centroid':
            if pts is not None and len(pts) == 2:
                h = num(Fraction(1, 2))
                return self.mkpoint(tm.mul(h, tm.add(pts[0][0], pts[1][0])),
                                    tm.mul(h, tm.add(pts[0][1], pts[1][1])))
            t = self.geom_term(o)
            return self.mkpoint(mk('app', 'geom.cx', t), mk('app', 'geom.cy', t))
        if name == 'bounds':
            b = planar.bounds(o)
            if b is not None:
                return b
            if pts:
                xs, ys = [p[0] for p in pts], [p[1] for p in pts]
                return (tm.tmin(*xs), tm.tmin(*ys), tm.tmax(*xs), tm.tmax(*ys))
            t = self.geom_term(o)
            return tuple(mk('app', 'geom.' + n, t) for n in ('minx', 'miny', 'maxx', 'maxy'))
        if name in ('area',):
            return ZERO
        if name == 'geom_type' or name == 'type':
            return self.kind(o) or Token('geomtype')
        return BoundExt(o, name)

    def geom_call(self, o, name, args, kw):
        I = self.I
        if name in ('distance',):
            q = planar.distance(o, args[0])
            if q is not None:
                return num(q)
            t1, t2 = self.geom_term(o), self.geom_term(args[0])
            k1, k2 = self.kind(o), self.kind(args[0]) if isinstance(args[0], Obj) else None
            if k1 == 'Point' and k2 == 'Point':
                a, b = o.d['__xy__'].elems, args[0].d['__xy__'].elems
                dx, dy = tm.sub(a[0], b[0]), tm.sub(a[1], b[1])
                return app('sqrt', tm.add(tm.mul(dx, dx), tm.mul(dy, dy)))
            return mk('app', 'geom.distance', t1, t2)
        if name in ('intersects', 'intersection') and o.d.get('__buffer__', UNDEF) is not UNDEF:
            src, d = o.d['__buffer__']
            r = planar.within(src, d, args[0])
            if r is not None:
                (ox, oy), p, q, spans = r
                if name == 'intersects':
                    return bool(spans)
                at = lambda t: (tm.add(ox, num(p[0] + t * (q[0] - p[0]))),
                                tm.add(oy, num(p[1] + t * (q[1] - p[1]))))
                ls = []
                for a, b in spans:
                    x = Obj(self.geomcls('LineString'))
                    x.d['__xy__'] = NDArr((2, 2), list(at(a)) + list(at(b)))
                    ls.append(x)
                if len(ls) == 1:
                    return ls[0]
                x = Obj(self.geomcls('MultiLineString' if ls else 'LineString'))
                if ls:
                    x.d['__geoms__'] = PyList(ls)
                else:
                    x.d['__xy__'] = NDArr((0, 2), [])
                return x
        if name == 'buffer' and planar.parts(o) is not None and len(args) == 1 and \
                lift(self.scal(args[0])).k == 'num':
            x = self.geom_op('geom.buffer', [o] + list(args))
            keep = Obj(self.geomcls('GeometryCollection'))
            keep.d['__geoms__'] = self.snapshot(PyList([o]))
            x.d['__buffer__'] = (keep, Fraction(lift(self.scal(args[0])).a[0]))
            return x
        if name in ('intersects', 'contains', 'equals', 'within', 'touches', 'crosses', 'almost_equals'):
            return mk('bapp', 'geom.' + name, self.geom_term(o), *[self.geom_term(a) for a in args])
        if name in ('intersection', 'buffer', 'difference', 'union', 'interpolate', 'project',
                    'symmetric_difference', 'simplify'):
            if name == 'interpolate' and self.points(o) and len(self.points(o)) == 2 and \
                    (kw.get('normalized') is True or (len(args) > 1 and args[1] is True)):
                (x1, y1), (x2, y2) = self.points(o)
                f = self.scal(args[0])
                return self.mkpoint(tm.add(x1, tm.mul(f, tm.sub(x2, x1))), tm.add(y1, tm.mul(f, tm.sub(y2, y1))))
            if name == 'project':
                return mk('app', 'geom.project', self.geom_term(o), self.geom_term(args[0]))
            return self.geom_op('geom.' + name, [o] + list(args))
        I.note('geometry method ' + name)
        return I.opaque('geometry method ' + name)
