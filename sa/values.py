"""Abstract values of the interpreter."""
from .terms import T, num, sym, mk, ZERO, lift, app, subterms, rebuild, is_bool, add


class Undef(object):
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class AbsRaise(Exception):
    def __init__(self, exc, loc=None):
        self.exc = exc
        self.loc = loc
        Exception.__init__(self, 'abstract raise %r at %r' % (exc, loc))


class Unsupported(Exception):
    pass


class Dim(object):
    """A symbolic axis (time axis, quadrature axis, ...)."""
    __slots__ = ('name', 'size')

    def __init__(self, name, size):
        self.name = name
        self.size = size

    @property
    def ix(self):
        return sym('ix:' + self.name)

    def __repr__(self):
        return '<%s>' % self.name


class Store(object):
    # dt: 'n' numbers of the type the caller used (perhaps integers), 'b' booleans
    __slots__ = ('d', 'tag', 'wlog', 'alias', 'dt')

    def __init__(self, elems, tag=None):
        self.d = dict(enumerate(elems))
        self.tag = tag
        self.wlog = []
        self.alias = None
        self.dt = None


class NDArr(object):
    __slots__ = ('store', 'idx', 'axes', 'kind')

    def __init__(self, axes, elems=None, store=None, idx=None, kind='arr', tag=None):
        self.axes = tuple(axes)
        if store is None:
            store = Store(list(elems), tag)
            idx = tuple(range(len(store.d)))
        self.store = store
        self.idx = tuple(idx)
        self.kind = kind

    @property
    def elems(self):
        d = self.store.d
        return [d[i] for i in self.idx]

    @property
    def saxes(self):
        return [a for a in self.axes if isinstance(a, int)]

    def __repr__(self):
        return 'NDArr%r' % (self.axes,)


class H(object):
    """heap object"""
    d = None
    owner = None


class Obj(H):
    def __init__(self, cls):
        self.cls = cls
        self.d = {}
        self.owner = None
        self.uid = None

    def __repr__(self):
        return '<%s object>' % self.cls.name


class PyList(H):
    def __init__(self, items=(), owner=None):
        self.d = {'items': tuple(items)}
        self.owner = owner

    @property
    def items(self):
        return self.d['items']

    def __repr__(self):
        return 'PyList%r' % (list(self.items),)


class PySet(PyList):
    pass


class PyDict(H):
    """insertion ordered dict with one heap cell per key."""

    def __init__(self, pairs=(), owner=None):
        self.d = {}
        for k, v in pairs:
            self.d[k] = v
        self.owner = owner

    def keys(self):
        return [k for k, v in self.d.items() if v is not UNDEF]

    def __repr__(self):
        return 'PyDict(%s)' % ', '.join(str(k) for k in self.keys())


class Guarded(object):
    """list entry present only when cond holds."""

    def __init__(self, cond, val):
        self.cond = cond
        self.val = val

    def __repr__(self):
        return 'Guarded(%r, %r)' % (self.cond, self.val)


class Phi(object):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Phi(%r, %r, %r)' % (self.c, self.a, self.b)


_n = [0]


class Opaque(object):
    def __init__(self, reason):
        _n[0] += 1
        self.reason = reason
        self.term = mk('app', '?%s' % reason, num(_n[0]))

    def __repr__(self):
        return 'Opaque(%s)' % self.reason


class Token(object):
    """an uninterpreted object handed in by the caller."""

    def __init__(self, name, types=(), scalar=False, callable_=True, attrs=None,
                 pointwise=False, absent=()):
        self.name = name
        self.types = set(types)
        self.scalar = scalar
        self.callable = callable_
        self.attrs = attrs or {}
        self.pointwise = pointwise      # calling it is an elementwise function
        self.absent = set(absent)

    def __repr__(self):
        return 'Token(%s)' % self.name


class Ext(object):
    """external (non package) name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name


class BoundExt(object):
    """method of an abstract builtin value"""

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class FuncVal(object):
    def __init__(self, node, mod, closure, qual, cls=None):
        self.node = node
        self.mod = mod
        self.closure = closure
        self.qual = qual
        self.cls = cls
        self.defaults = []
        self.kwdefaults = {}
        self.cached = None
        self.attrs = {}

    def __repr__(self):
        return '<func %s>' % self.qual


class Bound(object):
    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __repr__(self):
        return '<bound %r>' % self.func


class ClassVal(object):
    def __init__(self, name, bases, d, mod, qual):
        self.name = name
        self.bases = bases
        self.d = d
        self.mod = mod
        self.qual = qual
        self.dataclass = False

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if isinstance(b, Ext)
                and b.name not in ('object',)]

    def __repr__(self):
        return '<class %s>' % self.name


class ModVal(object):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.env = {}
        self.state = 0
        self.tree = None


class PropVal(object):
    def __init__(self, fget=None, fset=None, fdel=None, cached=False):
        self.fget, self.fset, self.fdel, self.cached = fget, fset, fdel, cached
        self.name = None


class StaticVal(object):
    def __init__(self, f):
        self.f = f


class ClsMethVal(object):
    def __init__(self, f):
        self.f = f


class SuperVal(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class DF(H):
    """pandas DataFrame model: column name -> generic row element."""

    def __init__(self, cols, dim, sel=None, ix=None):
        self.d = dict(cols)
        self.dim = dim
        self.ix = ix           # index: generic row label
        self.sel = sel         # boolean term selecting the rows of a base frame
        self.owner = None

    def keys(self):
        return [k for k, v in self.d.items() if v is not UNDEF]


class Loc(object):
    def __init__(self, df, which):
        self.df = df
        self.which = which
