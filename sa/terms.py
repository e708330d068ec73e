"""Hash-consed value graph terms with an arithmetic / lattice / gating normal form.

A term denotes the value of a quantity at one *generic* timestep.  Terms are
interned, so two terms with the same normal form are the same object (global
value numbering).  Nothing in this module runs code of the analysed project.
"""
from fractions import Fraction
import math
import time
import hashlib

_INTERN = {}
CUR_LOC = [None]          # source location being abstracted (set by interp)


class T(object):
    __slots__ = ('k', 'a', 'id', 'loc', 'ep')

    def __repr__(self):
        return show(self)

    # arithmetic sugar (used by the specifications)
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return mul(num(-1), self)
    def __pow__(self, o): return power(self, lift(o))
    def __lt__(self, o): return cmp('<', self, lift(o))
    def __le__(self, o): return cmp('<=', self, lift(o))
    def __gt__(self, o): return cmp('>', self, lift(o))
    def __ge__(self, o): return cmp('>=', self, lift(o))
    def __and__(self, o): return land(self, lift(o))
    def __or__(self, o): return lor(self, lift(o))
    def __invert__(self): return lnot(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __bool__(self):
        raise TypeError('symbolic truth value')


EPOCH = [0]           # one per abstract execution context


def mk(k, *a):
    key = (k, a)
    t = _INTERN.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.id = len(_INTERN) + 1
        t.loc = CUR_LOC[0]
        t.ep = EPOCH[0]
        _INTERN[key] = t
    elif CUR_LOC[0] is not None and (t.loc is None or t.ep != EPOCH[0]):
        t.loc = CUR_LOC[0]
        t.ep = EPOCH[0]
    return t


TRUE = mk('true')
FALSE = mk('false')


def num(x):
    if isinstance(x, T):
        return x
    if isinstance(x, float):
        if x != x:
            return mk('sym', 'nan')
        if x in (float('inf'), float('-inf')):
            return mk('sym', 'inf') if x > 0 else neg(mk('sym', 'inf'))
        x = Fraction(repr(x))
    return mk('num', Fraction(x))


ZERO = num(0)
ONE = num(1)


def lift(x):
    if isinstance(x, T):
        return x
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    raise TypeError('cannot lift %r' % (x,))


def sym(name):
    return mk('sym', name)


PI = sym('pi')


def bsym(name):
    return mk('bsym', name)


def is_bool(t):
    return t.k in ('true', 'false', 'cmp', 'not', 'and', 'or', 'bsym', 'bapp', 'bite')


def is_num(t):
    return t.k == 'num'


# ---------------------------------------------------------------- polynomials
MAXTERMS = 400


def _poly(t):
    """term -> dict monomial -> coef."""
    if t.k == 'num':
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.k == 'poly':
        return dict(t.a)
    if is_bool(t):
        if t is TRUE:
            return {(): Fraction(1)}
        if t is FALSE:
            return {}
        t = mk('ite', t, ONE, ZERO)
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def _frompoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', *sorted(d.items(), key=lambda mc: _mkey(mc[0])))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _poly(t).items():
            d[m] = d.get(m, 0) + c
    return _frompoly(d)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0),
                        key=lambda ae: (ae[0].id, ae[1])))


def _needs_reduce(m):
    for a, e in m:
        if a.k == 'app' and a.a[0] == 'sqrt' and (e >= 2):
            return True
        if a.k == 'prod' and e >= 1:
            return False
    return False


def mul(x, y):
    px, py = _poly(x), _poly(y)
    if len(px) * len(py) > MAXTERMS:
        # too large to expand: keep factored, canonically ordered
        cx, x1 = _content(x)
        cy, y1 = _content(y)
        fs = []
        for f in (x1, y1):
            if f.k == 'prod':
                fs += list(f.a)
            else:
                fs.append(f)
        return mul(num(cx * cy), mk('prod', *sorted(fs, key=lambda f: f.id)))
    d = {}
    red = []
    for m1, c1 in px.items():
        for m2, c2 in py.items():
            m = _mmul(m1, m2)
            if _needs_reduce(m):
                red.append((m, c1 * c2))
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = _frompoly(d)
    for m, c in red:
        t = num(c)
        for a, e in m:
            if a.k == 'app' and a.a[0] == 'sqrt' and e >= 2:
                t = mul(t, power(a.a[1], num(e // 2)))
                if e % 2:
                    t = mul(t, a)
            else:
                t = mul(t, _frompoly({((a, e),): Fraction(1)}))
        r = add(r, t)
    return r


def _content(t):
    """(c, t/c) with t/c having leading coefficient +1."""
    if t.k == 'num':
        return (t.a[0], ONE) if t.a[0] != 0 else (Fraction(1), ZERO)
    if t.k == 'poly':
        c = t.a[0][1]
        # prefer a non-constant leading monomial
        for m, cc in t.a:
            if m != ():
                c = cc
                break
        return c, _frompoly({m: cc / c for m, cc in t.a})
    return Fraction(1), t


def div(x, y):
    return mul(x, recip(y))


def recip(y):
    if y.k == 'num':
        if y.a[0] == 0:
            return mk('app', 'recip0')
        return num(1 / y.a[0])
    p = _poly(y)
    if len(p) == 1:
        (m, c), = p.items()
        return _frompoly({tuple((a, -e) for a, e in m): 1 / c})
    c, y1 = _content(y)
    return _frompoly({((mk('grp', y1), -1),): 1 / c})


def power(x, n):
    if n.k == 'num' and n.a[0].denominator == 1:
        e = int(n.a[0])
        if 0 <= e <= 6:
            r = ONE
            for _ in range(e):
                r = mul(r, x)
            return r
        if e < 0:
            return recip(power(x, num(-e)))
    if n.k == 'num' and n.a[0] == Fraction(1, 2):
        return app('sqrt', x)
    return mk('app', 'pow', x, n)


# ------------------------------------------------------------------ functions
def _rad_split(x):
    """split x into (rest, multiple of pi/2) if x = rest + k*pi/2."""
    p = _poly(x)
    key = ((PI, 1),)
    c = p.get(key, Fraction(0))
    q = c / Fraction(1, 2)
    if q.denominator != 1:
        # pull out the integral part only
        k = math.floor(q)
        if k == 0:
            return x, 0
        p[key] = c - Fraction(k, 2)
        return _frompoly(p), int(k)
    p.pop(key, None)
    return _frompoly(p), int(q)


def _sgn_norm(x):
    c, _ = _content(x)
    return (-1, neg(x)) if c < 0 else (1, x)


def cos_(x):
    r, k = _rad_split(x)
    k %= 4
    if k == 1:
        return neg(sin_(r))
    if k == 2:
        return neg(cos_(r))
    if k == 3:
        return sin_(r)
    s, r = _sgn_norm(r)
    if r is ZERO:
        return ONE
    return mk('app', 'cos', r)


def sin_(x):
    r, k = _rad_split(x)
    k %= 4
    if k == 1:
        return cos_(r)
    if k == 2:
        return neg(sin_(r))
    if k == 3:
        return neg(cos_(r))
    s, r = _sgn_norm(r)
    if r is ZERO:
        return ZERO
    t = mk('app', 'sin', r)
    return t if s > 0 else neg(t)


def deg2rad(x):
    return mul(x, div(PI, num(180)))


def rad2deg(x):
    return mul(x, div(num(180), PI))


def cosd(x): return cos_(deg2rad(lift(x)))
def sind(x): return sin_(deg2rad(lift(x)))


ODD = {'arctan', 'arcsin', 'sign', 'erf', 'sinh', 'tanh', 'arcsinh'}


def app(fn, *args):
    args = tuple(args)
    if fn == 'max' and len(args) > 1:
        return tmax(*args)
    if fn == 'min' and len(args) > 1:
        return tmin(*args)
    if fn == 'cos':
        return cos_(args[0])
    if fn == 'sin':
        return sin_(args[0])
    if fn == 'tan':
        x = args[0]
        r, k = _rad_split(x)
        if k % 2:
            return div(neg(cos_(r)), sin_(r))
        return div(sin_(r), cos_(r))
    if fn == 'sqrt':
        x = args[0]
        if x.k == 'num':
            n, d = x.a[0].numerator, x.a[0].denominator
            if n >= 0:
                rn, rd = math.isqrt(n), math.isqrt(d)
                if rn * rn == n and rd * rd == d:
                    return num(Fraction(rn, rd))
        return mk('app', 'sqrt', x)
    if fn == 'abs':
        x = args[0]
        if x.k == 'num':
            return num(abs(x.a[0]))
        if x.k == 'app' and x.a[0] in ('abs', 'sqrt'):
            return x
        s, x = _sgn_norm(x)
        c, x1 = _content(x)
        if c != 1:
            return mul(num(c), app('abs', x1))
        return mk('app', 'abs', x)
    if fn in ODD:
        s, x = _sgn_norm(args[0])
        t = mk('app', fn, x)
        return t if s > 0 else neg(t)
    if fn == 'hypot':
        return app('sqrt', add(mul(args[0], args[0]), mul(args[1], args[1])))
    if fn == 'mod' and args[0].k == 'num' and args[1].k == 'num' and args[1].a[0]:
        return num(args[0].a[0] % args[1].a[0])
    return mk('app', fn, *args)


# --------------------------------------------------------------------- min/max
def _lat(t):
    """max of mins: frozenset of frozensets of terms."""
    if t.k == 'lat':
        return t.a[0]
    return frozenset([frozenset([t])])


def _simp_conj(c):
    nums = [t for t in c if t.k == 'num']
    if len(nums) > 1:
        m = min(nums, key=lambda t: t.a[0])
        c = frozenset([t for t in c if t.k != 'num'] + [m])
    return c


def _conj_le(c1, c2):
    """min(c1) <= min(c2) syntactically: every element of c2 is >= something in c1."""
    n1 = [t.a[0] for t in c1 if t.k == 'num']
    for t in c2:
        if t in c1:
            continue
        if t.k == 'num' and n1 and n1[0] <= t.a[0]:
            continue
        return False
    return True


def _mklat(dn):
    dn = {_simp_conj(c) for c in dn}
    out = []
    for c in dn:
        if any(o is not c and o != c and _conj_le(c, o) for o in dn):
            continue
        out.append(c)
    dn = frozenset(out)
    if len(dn) == 1:
        (c,) = dn
        if len(c) == 1:
            (t,) = c
            return t
    if len(dn) == 2 and all(len(c) == 1 for c in dn):
        x, y = [next(iter(c)) for c in dn]
        if x is neg(y):
            return app('abs', x)
    return mk('lat', dn)


def tmax(*ts):
    dn = frozenset()
    for t in ts:
        dn |= _lat(lift(t))
    return _mklat(dn)


def tmin(*ts):
    dn = _lat(lift(ts[0]))
    for t in ts[1:]:
        l2 = _lat(lift(t))
        if len(dn) * len(l2) > 64:
            return mk('app', 'min', *sorted((lift(t) for t in ts), key=lambda t: t.id))
        dn = frozenset(a | b for a in dn for b in l2)
    return _mklat(dn)


# -------------------------------------------------------------------- booleans
def cmp(op, a, b):
    """canonical comparison."""
    if is_bool(a) or is_bool(b):
        if op in ('==', '!='):
            r = beq(a, b)
            return r if op == '==' else lnot(r)
    d = sub(a, b)
    if d.k == 'num':
        v = d.a[0]
        return lift({'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0,
                     '==': v == 0, '!=': v != 0}[op])
    p = _poly(d)
    c0 = p.pop((), Fraction(0))
    core = _frompoly(p)
    c, core1 = _content(core)
    thr = -c0 / c            # core1 ? thr
    if c < 0:
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
    if core1.k == 'app' and core1.a[0] in ('abs', 'sqrt') and thr < 0:
        if op in ('<', '<=', '=='):
            return FALSE
        return TRUE
    if op == '>':
        return lnot(mk('cmp', '<=', core1, thr))
    if op == '>=':
        return lnot(mk('cmp', '<', core1, thr))
    if op == '!=':
        return lnot(cmp('==', core1, num(thr)))
    if op == '==':
        return land(mk('cmp', '<=', core1, thr), lnot(mk('cmp', '<', core1, thr)))
    return mk('cmp', op, core1, thr)


def beq(a, b):
    assert is_bool(a) and is_bool(b)
    return lor(land(a, b), land(lnot(a), lnot(b)))


def tobool(t):
    """truthiness of a scalar term"""
    if is_bool(t):
        return t
    return cmp('!=', t, ZERO)


def lnot(t):
    t = tobool(t)
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.k == 'not':
        return t.a[0]
    if t.k in ('and', 'or'):
        r = _NOT.get(t.id)
        if r is None:
            r = (lor if t.k == 'and' else land)(*[lnot(x) for x in t.a])
            _NOT[t.id] = r
        return r
    return mk('not', t)


_NOT = {}
_NARY = {}


def _absorb_cmp(kind, ts):
    """drop literals implied by / implying others on the same core."""
    out = [t for t in ts if t.k == 'cmp' or t.k == 'not' and t.a[0].k == 'cmp']
    if len(out) < 2:
        return list(ts)
    rest = [t for t in ts if not (t.k == 'cmp' or t.k == 'not' and t.a[0].k == 'cmp')]
    changed = True
    while changed:
        changed = False
        for x in out:
            for y in out:
                if x is y:
                    continue
                if _lit_implies(x, y):
                    out.remove(y if kind == 'and' else x)
                    changed = True
                    break
            if changed:
                break
    return sorted(out + rest, key=lambda t: t.id)


def _lit_bounds(x):
    """literal -> (core, set description) as (lo, lo_incl, hi, hi_incl)."""
    if x.k == 'cmp':
        op, core, thr = x.a
        return core, (None, False, thr, op == '<=')
    if x.k == 'not' and x.a[0].k == 'cmp':
        op, core, thr = x.a[0].a
        return core, (thr, op == '<', None, False)
    return None


def _lit_implies(x, y):
    bx, by = _lit_bounds(x), _lit_bounds(y)
    if not bx or not by or bx[0] is not by[0]:
        return False
    (l1, li1, h1, hi1), (l2, li2, h2, hi2) = bx[1], by[1]
    if l2 is not None:
        if l1 is None or l1 < l2 or (l1 == l2 and li1 and not li2):
            return False
    if h2 is not None:
        if h1 is None or h1 > h2 or (h1 == h2 and hi1 and not hi2):
            return False
    return True


def _nary(kind, ts):
    if len(ts) < 2:
        return _nary1(kind, ts)
    try:
        key = (kind,) + tuple([t.id for t in ts])
    except AttributeError:
        return _nary1(kind, ts)
    r = _NARY.get(key)
    if r is None:
        r = _nary1(kind, ts)
        if len(_NARY) > 600000:
            _NARY.clear()
        _NARY[key] = r
    return r


def _nary1(kind, ts):
    unit, zero = (TRUE, FALSE) if kind == 'and' else (FALSE, TRUE)
    out = []
    for t in ts:
        t = tobool(lift(t))
        if t is zero:
            return zero
        if t is unit:
            continue
        if t.k == kind:
            out.extend(t.a)
        else:
            out.append(t)
    s = set(out)
    for t in s:
        if lnot(t) in s:
            return zero
    if len(s) > 1:
        s2 = _absorb_cmp(kind, sorted(s, key=lambda t: t.id))
        # contradiction / tautology between bounds
        ls = [x for x in s2 if x.k == 'cmp' or x.k == 'not' and x.a[0].k == 'cmp']
        for x in ls:
            for y in ls:
                if x is not y:
                    if kind == 'and' and _lit_implies(x, lnot(y)):
                        return FALSE
                    if kind == 'or' and _lit_implies(lnot(x), y):
                        return TRUE
        s = s2
        # unit resolution: a & (~a | b) -> a & b
        lits = set(s)
        other = 'or' if kind == 'and' else 'and'
        new = []
        ch = False
        for t in s:
            if t.k == other:
                if any(x in lits for x in t.a):
                    ch = True
                    continue
                rest = [x for x in t.a if lnot(x) not in lits]
                if len(rest) != len(t.a):
                    ch = True
                    new.append(_nary(other, rest))
                    continue
            new.append(t)
        if ch:
            return _nary(kind, new)
    s = sorted(set(s), key=lambda t: t.id)
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    return mk(kind, *s)


def land(*ts): return _nary('and', ts)
def lor(*ts): return _nary('or', ts)


def ite(c, a, b):
    c = tobool(lift(c))
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.k == 'not':
        return ite(c.a[0], b, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return lor(land(c, a), land(lnot(c), b))
    if is_bool(a):
        a = add(a)
    if is_bool(b):
        b = add(b)
    if c.k == 'cmp':
        op, core, thr = c.a
        d1 = sub(core, num(thr))
        d2 = sub(a, b)
        q = _const_ratio(d2, d1)
        if q is not None:
            return tmin(a, b) if q > 0 else tmax(a, b)
    # where(x | y, ...) keep as is
    return mk('ite', c, a, b)


def _const_ratio(x, y):
    """x == q*y for constant q != 0 ?"""
    if x is ZERO:
        return None
    px, py = _poly(x), _poly(y)
    if set(px) != set(py):
        return None
    q = None
    for m in px:
        r = px[m] / py[m]
        if q is None:
            q = r
        elif q != r:
            return None
    return q


def assume(t, c, val, memo=None):
    """cheap shallow restriction of t under literal c == val."""
    if t.k == 'ite':
        if t.a[0] is c:
            return assume(t.a[1] if val else t.a[2], c, val)
        if c.k == 'and' and val and t.a[0] in c.a:
            return assume(t.a[1], c, val)
        if c.k == 'or' and not val and t.a[0] in c.a:
            return assume(t.a[2], c, val)
    elif t is c:
        return TRUE if val else FALSE
    return t


# ----------------------------------------------------------------- traversals
def children(t):
    if t.k == 'poly':
        out = []
        for m, _ in t.a:
            for a, _e in m:
                out.append(a)
        return out
    if t.k == 'lat':
        return [x for c in t.a[0] for x in c]
    if t.k == 'cmp':
        return [t.a[1]]
    return [x for x in t.a if isinstance(x, T)]


def subterms(t, seen=None):
    seen = {} if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        st.extend(children(x))
    return seen


def rebuild(t, f, memo):
    """bottom-up rewriting; f(t) may return a replacement or None."""
    r = memo.get(t.id)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        k = t.k
        if k in ('num', 'sym', 'bsym', 'true', 'false'):
            r = t
        elif k == 'poly':
            r = ZERO
            acc = {}
            extra = []
            for m, c in t.a:
                ch = False
                for a, _e in m:
                    if rebuild(a, f, memo) is not a:
                        ch = True
                        break
                if not ch:
                    acc[m] = acc.get(m, 0) + c
                else:
                    x = num(c)
                    for a, e in m:
                        x = mul(x, power(rebuild(a, f, memo), num(e)))
                    extra.append(x)
            r = add(_frompoly(acc), *extra)
        elif k == 'grp':
            r = rebuild(t.a[0], f, memo)
        elif k == 'prod':
            r = ONE
            for x in t.a:
                r = mul(r, rebuild(x, f, memo))
        elif k == 'lat':
            r = None
            for c in t.a[0]:
                m = tmin(*[rebuild(x, f, memo) for x in c])
                r = m if r is None else tmax(r, m)
        elif k == 'cmp':
            core = rebuild(t.a[1], f, memo)
            r = t if core is t.a[1] else cmp(t.a[0], core, num(t.a[2]))
        elif k == 'not':
            r = lnot(rebuild(t.a[0], f, memo))
        elif k == 'and':
            r = land(*[rebuild(x, f, memo) for x in t.a])
        elif k == 'or':
            r = lor(*[rebuild(x, f, memo) for x in t.a])
        elif k == 'ite':
            c = rebuild(t.a[0], f, memo)
            if c is TRUE:
                r = rebuild(t.a[1], f, memo)
            elif c is FALSE:
                r = rebuild(t.a[2], f, memo)
            else:
                r = ite(c, rebuild(t.a[1], f, memo), rebuild(t.a[2], f, memo))
        elif k == 'app':
            args = [rebuild(x, f, memo) if isinstance(x, T) else x for x in t.a[1:]]
            r = app(t.a[0], *args) if any(x is not y for x, y in zip(args, t.a[1:])) else t
        elif k == 'bapp':
            args = [rebuild(x, f, memo) if isinstance(x, T) else x for x in t.a[1:]]
            r = mk('bapp', t.a[0], *args)
        else:
            r = t
    memo[t.id] = r
    return r


def subst(t, mapping):
    """mapping: dict term -> term"""
    m = {k.id: v for k, v in mapping.items()}
    return rebuild(t, lambda x: m.get(x.id), {})


def depends(t, dname):
    """does t vary along the axis named dname (bound occurrences excluded)?"""
    suf = '@' + dname
    ix = 'ix:' + dname
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k in ('sym', 'bsym'):
            if x.a[0].endswith(suf) or x.a[0] == ix:
                return True
            continue
        if x.k in ('app', 'bapp'):
            fn = x.a[0]
            if fn.startswith('red:') and fn.endswith(':' + dname):
                continue
            if fn == 'at:' + dname:
                # value pinned at an index: may depend through the index only
                st.extend(y for y in x.a[2:] if isinstance(y, T))
                continue
        st.extend(children(x))
    return False


def cond_atoms(t, seen=None):
    """atomic conditions occurring (unbound) in t, outermost first."""
    out = []
    seen = set()
    st = [t]
    while st:
        nxt = []
        for x in st:
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.k in ('cmp', 'bsym', 'bapp'):
                out.append(x)
            if x.k in ('app', 'bapp') and x.a[0].startswith('red:'):
                dn = x.a[0].split(':', 2)[2]
                for y in children(x):
                    out.extend(c for c in cond_atoms(y) if c.id not in seen and
                               not depends(c, dn))
                continue
            nxt.extend(children(x))
        st = nxt
    return out


class Budget(Exception):
    pass


def vacuous(facts, *more):
    """no values satisfy the comparisons of this branch (linear elimination over monomials)"""
    cons = []

    def add_c(p, sign, c, strict):
        d = {m: sign * v for m, v in p.items() if m != ()}
        cons.append((d, sign * p.get((), 0) + c, strict))
    for q in [getattr(f, 'fact', None) for f in facts] + list(more):
        if q is None:
            continue
        core, lo, hi, point = q
        p = _poly(core)
        if point:
            add_c(p, 1, -lo, False)
            add_c(p, -1, lo, False)
        else:
            if hi is not None:
                add_c(p, 1, -hi, True)      # core - hi < 0
            if lo is not None:
                add_c(p, -1, lo, True)
    for _ in range(40):
        for d, c, strict in cons:
            if not d and (c > 0 or (strict and c == 0)):
                return True
        cons = [x for x in cons if x[0]]
        occ = {}
        for d, c, s in cons:
            for m, v in d.items():
                o = occ.setdefault(m, [0, 0])
                o[v > 0] += 1
        if not occ:
            return False
        m = min(occ, key=lambda k: (occ[k][0] * occ[k][1] - occ[k][0] - occ[k][1]))
        pos = [x for x in cons if x[0].get(m, 0) > 0]
        neg = [x for x in cons if x[0].get(m, 0) < 0]
        rest = [x for x in cons if m not in x[0]]
        if len(pos) * len(neg) + len(rest) > 300:
            return False
        for dp, cp, sp in pos:
            for dn, cn, sn in neg:
                a, b = dp[m], -dn[m]
                d = {}
                for k in set(dp) | set(dn):
                    v = dp.get(k, 0) * b + dn.get(k, 0) * a
                    if v and k != m:
                        d[k] = v
                rest.append((d, cp * b + cn * a, sp or sn))
        cons = rest
    return False


class Eq(object):
    """decide equality of two terms by cofactoring on atomic conditions."""

    def __init__(self, assumptions=(), limit=60000, deadline=None):
        self.n = 0
        self.deadline = deadline
        self.limit = limit
        self.assumptions = list(assumptions)   # boolean terms assumed true
        self.path = []

    def equal(self, a, b):
        self.witness = None
        a, b = lift(a), lift(b)
        for h in self.assumptions:
            pass
        hyp = land(*self.assumptions) if self.assumptions else TRUE
        return self._eq(a, b, hyp, [], ())

    @staticmethod
    def _apply(ts, facts):
        """rewrite with everything known on this branch, also in what the rewriting creates"""
        f = facts[-1]
        memo = {}
        out = []
        if len(facts) > 1:
            def g(x):
                for h in facts:
                    r = h(x)
                    if r is not None:
                        return r
                return None
        for x in ts:
            y = rebuild(x, f, memo)
            if y is not x and len(facts) > 1:
                for _ in range(4):
                    if not any(g(z) is not None for z in subterms(y).values()
                               if z.k in ('cmp', 'bsym', 'bapp')):
                        break
                    y2 = rebuild(y, g, {})
                    if y2 is y:
                        break
                    y = y2
            out.append(y)
        return out

    def _eq(self, a, b, hyp, path, facts):
        if a is b or hyp is FALSE:
            return True
        self.n += 1
        if self.n > self.limit or (self.deadline and time.time() > self.deadline):
            raise Budget()
        # choose a splitting condition
        ca = cond_atoms(hyp) if hyp is not TRUE else []
        if not ca:
            ca = self._pick(a, b)
        if not ca and not (is_bool(a) or is_bool(b)) and sub(a, b) is not ZERO:
            a2, b2, ca = self._lattices(a, b, facts)
            if a2 is not a or b2 is not b:
                return self._eq(a2, b2, hyp, path, facts)
        if not ca:
            if is_bool(a) != is_bool(b):
                a, b = add(a), add(b)
                return a is b or self._fail(a, b, path, facts)
            if not is_bool(a) and sub(a, b) is ZERO:
                return True
            return self._fail(a, b, path, facts)
        c = ca[0]
        if c.k == 'cmp':
            core = c.a[1]
            thrs = {c.a[2]}
            for t in (a, b, hyp):
                for x in subterms(t).values():
                    if x.k == 'cmp' and x.a[1] is core:
                        thrs.add(x.a[2])
            thrs = sorted(thrs)
            regions = []
            for i, th in enumerate(thrs):
                regions.append((thrs[i - 1] if i else None, th, False))
                regions.append((th, th, True))
            regions.append((thrs[-1], None, False))
            for lo, hi, point in regions:
                f = _region_fn(core, lo, hi, point)
                f.fact = (core, lo, hi, point)
                fs = facts + (f,)
                a2, b2, h2 = self._apply((a, b, hyp), fs)
                desc = '%s %s' % (show(core), '= %s' % lo if point else 'in (%s, %s)' % (
                    '-inf' if lo is None else lo, 'inf' if hi is None else hi))
                if not self._eq(a2, b2, h2, path + [desc], fs):
                    return False
            return True
        for val in (TRUE, FALSE):
            f = lambda x, c=c, val=val: val if x is c else None
            fs = facts + (f,)
            a2, b2, h2 = self._apply((a, b, hyp), fs)
            if not self._eq(a2, b2, h2, path + ['%s is %s' % (show(c), val.k)], fs):
                return False
        return True

    def _lattices(self, a, b, facts):
        """resolve minima and maxima with what is known; otherwise propose a comparison"""
        def g(x):
            for h in facts:
                r = h(x)
                if r is not None:
                    return r
            return None
        pick = []

        def le(p, q):
            c = cmp('<=', p, q)
            if c is not TRUE and c is not FALSE and facts:
                c = rebuild(c, g, {})
            if c is not TRUE and c is not FALSE:
                at = [x for x in subterms(c).values() if x.k == 'cmp']
                if at and not pick:
                    pick.append(at[0])
            return c is TRUE

        def reduce(t):
            dn = [sorted(c, key=lambda x: x.id) for c in t.a[0]]
            dn.sort(key=lambda c: [x.id for x in c])
            out = []
            for c in dn:
                c = list(c)
                i = 0
                while i < len(c):
                    if any(j != i and le(c[j], c[i]) for j in range(len(c))):
                        c.pop(i)
                    else:
                        i += 1
                out.append(c)
            i = 0
            while i < len(out):
                if any(j != i and any(all(le(e, x) for x in out[j]) for e in out[i])
                       for j in range(len(out))):
                    out.pop(i)
                else:
                    i += 1
            r = None
            for c in out:
                m = tmin(*c)
                r = m if r is None else tmax(r, m)
            return r
        m = {}
        for t in (a, b):
            for x in subterms(t).values():
                if x.k == 'lat' and x.id not in m:
                    r = reduce(x)
                    if r is not x:
                        m[x.id] = r
        if m:
            f = lambda x: m.get(x.id)
            return rebuild(a, f, {}), rebuild(b, f, {}), []
        return a, b, pick

    def _pick(self, a, b):
        # a condition present in only one side or at the top first
        for t in (a, b):
            if t.k == 'ite':
                l = cond_atoms(t.a[0])
                if l:
                    return [_innermost(l)]
        la = cond_atoms(a)
        lb = cond_atoms(b)
        # ignore atoms that occur under identical uninterpreted subterms only
        l = la or lb
        if not l:
            return []
        return [_innermost(l)]

    def _fail(self, a, b, path, facts=()):
        if vacuous(facts):
            return True
        if not (is_bool(a) or is_bool(b)):
            d = sub(a, b)
            if vacuous(facts, (d, None, 0, False)) and vacuous(facts, (d, 0, None, False)):
                return True
        self.witness = (a, b, list(path))
        return False


def _innermost(l):
    """an atom whose core contains no further condition."""
    for c in l:
        if c.k in ('bsym',):
            return c
        inner = [x for ch in children(c) for x in cond_atoms(ch)]
        if not inner:
            return c
    return l[0]


def _region_fn(core, lo, hi, point):
    # optional substitution core == lo
    repl = {}
    if point:
        p = _poly(core)
        lin = [m for m in p if len(m) == 1 and m[0][1] == 1 and m[0][0].k == 'sym']
        for m in lin:
            at = m[0][0]
            rest = {k: v for k, v in p.items() if k != m}
            if at is PI or any(at is z for k in rest for z, _ in k):
                continue
            # at = (lo - rest)/c
            val = div(sub(num(lo), _frompoly(rest)), num(p[m]))
            if at.id not in subterms(val):
                repl[at.id] = val
                break
        if not repl and core.k == 'app':
            repl[core.id] = num(lo)

    def f(x):
        if x.k == 'cmp' and x.a[1] is core:
            op, _, th = x.a
            if point:
                return lift(lo < th or (lo == th and op == '<='))
            if hi is not None and hi <= th:
                return TRUE
            if lo is not None and lo >= th:
                return FALSE
            return None
        if repl:
            return repl.get(x.id)
        return None
    return f


# --------------------------------------------------------- numeric separation
def _h(s):
    return int(hashlib.sha256(s.encode()).hexdigest()[:12], 16) / float(16 ** 12)


def _ninv(m, n):
    a = [list(m[i * n:(i + 1) * n]) + [1.0 if i == j else 0.0 for j in range(n)]
         for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-12:
            raise ZeroDivisionError
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [v / d for v in a[c]]
        for r in range(n):
            if r != c and a[r][c]:
                f = a[r][c]
                a[r] = [v - f * w for v, w in zip(a[r], a[c])]
    return [row[n:] for row in a]


NRED = 3


class NumEval(object):
    """valuation of the uninterpreted atoms of the graph (used only to *demote*
    an alarm: two terms that no valuation separates are not reported)."""

    def __init__(self, seed, ranges=None, env=None, fixed=None):
        self.seed = seed
        self.memo = {}
        self.ranges = ranges or []
        self.env = env or {}
        self.kids = {}
        self.fixed = fixed

    def child(self, dim, k):
        key = (dim, k)
        c = self.kids.get(key)
        if c is None:
            e = dict(self.env)
            e[dim] = k
            c = self.kids[key] = NumEval(self.seed, self.ranges, e, self.fixed)
        return c

    def atom(self, name):
        if name == 'pi':
            return math.pi
        if name == 'inf':
            return 1e300
        if name == 'n_t':
            return float(NRED)
        if name.startswith('ix:') and name[3:] in self.env:
            return float(self.env[name[3:]])
        key = name
        if self.env and '@' in name:
            d = name.rsplit('@', 1)[1]
            if d in self.env:
                key = '%s|%.6g' % (name, self.env[d])
        if self.fixed and key in self.fixed:
            return self.fixed[key]
        u = _h('%s|%s' % (self.seed, key))
        for r in self.ranges:
            if r[0] in name:
                lo, hi = r[1], r[2]
                if len(r) > 3 and r[3]:
                    v = _h('%s|special|%s' % (self.seed, key))
                    if v < .2:
                        return r[3][int(v / .2 * len(r[3]))]
                return lo + u * (hi - lo)
        mode = int(self.seed) % 4
        return [4 * u - 2, 200 * u - 100, 3 * u + 0.01, 360 * u - 180][mode]

    def ev(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._ev(t)
            self.memo[t.id] = r
        return r

    def _red(self, k, a):
        _, op, dim = a[0].split(':', 2)
        if op in ('sort', 'cumsum'):
            raise KeyError(op)
        n = NRED
        if dim != 't' and any(r[0] == dim and 0 < r[1] <= 60 for r in self.ranges):
            n = int(self.atom(dim))
        vals = [self.child(dim, float(j)).ev(a[1]) for j in range(n)]
        if op == 'any':
            return any(vals)
        if op in ('sum', 'nansum'):
            return sum(vals)
        if op in ('max', 'nanmax'):
            return max(vals)
        if op in ('min', 'nanmin'):
            return min(vals)
        if op in ('mean', 'nanmean'):
            return sum(vals) / n
        if op == 'prod':
            r = 1.0
            for v in vals:
                r *= v
            return r
        raise KeyError(op)

    def _ev(self, t):
        k, a = t.k, t.a
        if k == 'num':
            return float(a[0])
        if k == 'sym':
            return self.atom(a[0])
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k == 'bsym':
            key = a[0]
            if self.env and '@' in key and key.rsplit('@', 1)[1] in self.env:
                key += '|%.6g' % self.env[key.rsplit('@', 1)[1]]
            return _h('%s|%s' % (self.seed, key)) > 0.5
        if k == 'poly':
            s = 0.0
            for m, c in a:
                x = float(c)
                for at, e in m:
                    v = float(self.ev(at))
                    if v == 0 and e < 0:
                        v = 1e-300
                    try:
                        x *= v ** e
                    except (OverflowError, ZeroDivisionError):
                        x *= 1e300
                s += x
            return s
        if k == 'grp':
            return self.ev(a[0])
        if k == 'prod':
            x = 1.0
            for f in a:
                x *= self.ev(f)
            return x
        if k == 'lat':
            return max(min(self.ev(x) for x in c) for c in a[0])
        if k == 'cmp':
            v = float(self.ev(a[1]))
            return v < float(a[2]) if a[0] == '<' else v <= float(a[2])
        if k == 'not':
            return not self.ev(a[0])
        if k == 'and':
            return all(self.ev(x) for x in a)
        if k == 'or':
            return any(self.ev(x) for x in a)
        if k == 'ite':
            return self.ev(a[1]) if self.ev(a[0]) else self.ev(a[2])
        if k in ('app', 'bapp'):
            fn = a[0]
            if fn.startswith('red:'):
                try:
                    return self._red(k, a)
                except KeyError:
                    pass
            if fn.startswith('at:'):
                return self.child(fn[3:], float(self.ev(a[2]))).ev(a[1])
            if fn == 'mat':
                return tuple(float(self.ev(x)) for x in a[2:])
            args = [self.ev(x) if isinstance(x, T) else x for x in a[1:]]
            if fn == 'inv':
                m = args[0]
                ky = ('inv', m)
                r = self.memo.get(ky)
                if r is None:
                    r = self.memo[ky] = _ninv(m, int(round(len(m) ** .5)))
                return r[int(args[1])][int(args[2])]
            try:
                if fn == 'sqrt':
                    return math.sqrt(abs(args[0]))
                if fn in ('cos', 'sin', 'tan', 'exp', 'erf', 'log', 'floor', 'ceil', 'trunc'):
                    return float(getattr(math, fn)(args[0]))
                if fn == 'abs':
                    return abs(args[0])
                if fn == 'sign':
                    return float((args[0] > 0) - (args[0] < 0))
                if fn == 'hypot':
                    return math.hypot(*args)
                if fn == 'arctan2':
                    return math.atan2(*args)
                if fn == 'arctan':
                    return math.atan(args[0])
                if fn in ('arccos', 'arcsin'):
                    return getattr(math, fn.replace('arc', 'a'))(max(-1, min(1, args[0])))
                if fn == 'mod':
                    return args[0] % args[1]
                if fn == 'min':
                    return min(args)
                if fn == 'pow':
                    return abs(args[0]) ** args[1]
                if fn in ('isnan', 'isinf'):
                    return False
                if fn == 'isfinite':
                    return True
            except (ValueError, OverflowError, ZeroDivisionError):
                pass
            if fn == 'pvlib.aoi' and len(args) == 4:
                tl, ta, z, az = [math.radians(x) for x in args]
                return math.degrees(math.acos(max(-1., min(1., math.cos(tl) * math.cos(z) +
                                    math.sin(tl) * math.sin(z) * math.cos(az - ta)))))
            if self.fixed is not None and k == 'app':       # a smooth function
                ph, n = '', 0.
                for i, x in enumerate(args):
                    if isinstance(x, float):
                        n += x * (.05 + .2 * _h('%s|%s|w%d' % (self.seed, fn, i)))
                    else:
                        ph += ',%d:%s' % (i, x)
                u = .5 + .5 * math.sin(n + 6.3 * _h('%s|%s|%s' % (self.seed, fn, ph)))
            else:
                u = _h('%s|%s|%s' % (self.seed, fn, ','.join(
                    '%.9g' % x if isinstance(x, float) else str(x) for x in args)))
            if k == 'bapp':
                return u > 0.5
            for r in self.ranges:
                if r[0] in fn:
                    return r[1] + u * (r[2] - r[1])
            return 4 * u - 2
        raise ValueError(k)


def separated(a, b, tries=240, hyp=None, ranges=None):
    """first valuation index under which a and b differ, or None."""
    for s in range(tries):
        e = NumEval(s, ranges)
        try:
            if hyp is not None and not e.ev(hyp):
                continue
            x, y = e.ev(a), e.ev(b)
        except (ValueError, OverflowError, TypeError):
            continue
        x, y = float(x), float(y)
        if x != x or y != y:
            continue
        if abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)):
            return s, x, y
    return None


def _margins(a, b):
    """where the two terms branch differently: (distance to the border, names it depends on)"""
    sa, sb = subterms(a), subterms(b)
    out = []
    for i in sorted(set(sa) ^ set(sb)):
        x = sa[i] if i in sa else sb[i]
        ds = []
        if x.k == 'cmp':
            ds.append(x.a[1] - num(x.a[2]))
        elif x.k == 'lat':
            ms = [m for c in x.a[0] for m in c][:4]
            ds += [ms[p] - ms[q] for p in range(len(ms)) for q in range(p)]
        for d in ds:
            names = sorted(y.a[0] for y in subterms(d).values() if y.k == 'sym'
                           and y.a[0] not in ('pi', 'inf', 'n_t') and not y.a[0].startswith('ix:'))
            if names:
                out.append((d, names))
    return out[:24]


def seek(a, b, hyp=None, ranges=None, budget=1500000, seconds=8):
    """as separated, near the borders of the branches which only one of the terms has"""
    left = [budget]
    end = time.time() + seconds

    def run(s, fixed, t):
        e = NumEval(s, ranges, None, fixed)
        try:
            return e.ev(t), e
        finally:
            left[0] -= 20 + len(e.memo)
            if time.time() > end:
                left[0] = -1

    def span(name, s):
        for r in ranges or []:
            if r[0] in name:
                return r[1], r[2]
        return [(-2., 2.), (-100., 100.), (.01, 3.), (-180., 180.)][int(s) % 4]

    def differ(s, fixed):
        try:
            x, e = run(s, fixed, a)
            if hyp is not None and not e.ev(hyp):
                return None
            x, y = float(x), float(e.ev(b))
        except (ValueError, OverflowError, TypeError):
            return None
        if x == x and y == y and abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
            return x, y
        return None

    bases = []
    for s in range(60):
        try:
            if hyp is None or run(s, {}, hyp)[0]:
                bases.append(s)
        except (ValueError, OverflowError, TypeError):
            pass
        if len(bases) >= 5 or left[0] < 0:
            break
    margins = _margins(a, b)
    names = sorted(set(n for d, ns in margins for n in ns),
                   key=lambda n: (-sum(n in ns for d, ns in margins), n))[:14]

    def roots(f, lo, hi):
        """where f changes its sign between lo and hi, or where it is closest to it"""
        w = hi - lo
        pts = [lo + w * k / 12. for k in range(13)]
        vs = [f(v) for v in pts]
        if not any(p * q < 0 for p, q in zip(vs, vs[1:])):
            good = [(abs(v), k) for k, v in enumerate(vs) if v == v]
            if not good:
                return [], None
            k = min(good)[1]
            p, q = pts[max(k - 1, 0)], pts[min(k + 1, 12)]
            for _ in range(20):
                m, m2 = p + (q - p) * .4, p + (q - p) * .6
                fm, f2 = f(m), f(m2)
                if fm * vs[k] < 0 or f2 * vs[k] < 0:
                    pts.append(m if fm * vs[k] < 0 else m2)
                    vs.append(min(fm, f2) if vs[k] > 0 else max(fm, f2))
                    break
                if abs(fm) < abs(f2):
                    q = m2
                else:
                    p = m
            else:
                return [], (p + q) / 2 if q - p < w else pts[k]
            o = sorted(range(len(pts)), key=lambda j: pts[j])
            pts, vs = [pts[j] for j in o], [vs[j] for j in o]
        out = []
        for k in range(len(pts) - 1):
            p, q, fp = pts[k], pts[k + 1], vs[k]
            if not fp * vs[k + 1] < 0:
                continue
            for _ in range(28):
                m = (p + q) / 2
                fm = f(m)
                if fp * fm <= 0:
                    q = m
                else:
                    p, fp = m, fm
            out.append((p + q) / 2)
        return out[:3], None

    def line(s, fixed, name, d):
        def f(v):
            try:
                return float(run(s, dict(fixed, **{name: v}), d)[0])
            except (ValueError, OverflowError, TypeError):
                return float('nan')
        return f

    def along(s, fixed, name, ds):
        lo, hi = span(name, s)
        w = hi - lo
        rs, near = [], None
        for d in ds:
            r, n = roots(line(s, fixed, name, d), lo, hi)
            rs += r
            near = n if near is None else near
        rs = sorted(rs)
        todo = [(p + q) / 2 for p, q in zip(rs, rs[1:]) if p < q]
        for r in (rs[:6] or ([near] if near is not None else [])):
            todo += [r + g * o * w for o in (1e-4, 1e-3, 1e-2, 5e-2) for g in (-1, 1)]
            todo += [(r + lo) / 2, (r + hi) / 2, r + (lo - r) * .05, r + (hi - r) * .05]
        for v in todo:
            if lo <= v <= hi and left[0] > 0:
                xy = differ(s, dict(fixed, **{name: v}))
                # a border case must hold in a neighbourhood
                if xy and differ(s, dict(fixed, **{name: v + 1e-7 * w})):
                    return rs, near, ('%d, %s = %.6g' % (s, name, v), xy[0], xy[1])
        return rs, near, None

    hit = set()
    for s in bases:
        for name in names:
            ds = [d for d, ns in margins if name in ns]
            if left[0] < 0:
                return None
            rs, near, found = along(s, {}, name, ds)
            if found:
                return found
            if rs:
                hit |= set(d.id for d in ds)
    for s in bases[:3]:
        for d, ns in margins:
            if d.id in hit:
                continue
            # no single quantity gets there: approach by one after the other
            fixed = {}
            for name in (ns * 3)[:14]:
                if left[0] < 0:
                    return None
                rs, near, found = along(s, fixed, name, [d])
                if found:
                    return found
                if rs:
                    break
                if near is not None:
                    fixed[name] = near
    return None


# -------------------------------------------------------------------- display
def show(t, depth=6):
    if depth <= 0:
        return '..'
    k, a = t.k, t.a
    if k == 'num':
        v = a[0]
        return str(v) if v.denominator == 1 else ('%g' % float(v))
    if k in ('sym', 'bsym'):
        return str(a[0])
    if k in ('true', 'false'):
        return k
    if k == 'poly':
        ps = []
        for m, c in a[:8]:
            fs = []
            for at, e in m:
                s = show(at, depth - 1)
                fs.append(s if e == 1 else '%s^%d' % (s, e))
            cs = '%g' % float(c)
            if m and cs == '1':
                ps.append('*'.join(fs))
            elif m and cs == '-1':
                ps.append('-' + '*'.join(fs))
            else:
                ps.append('*'.join([cs] + fs))
        if len(a) > 8:
            ps.append('..')
        return '(' + ' + '.join(ps) + ')'
    if k == 'grp':
        return show(a[0], depth)
    if k == 'prod':
        return '*'.join(show(x, depth - 1) for x in a)
    if k == 'lat':
        return 'max(%s)' % ', '.join('min(%s)' % ', '.join(show(x, depth - 1) for x in c)
                                     if len(c) > 1 else show(next(iter(c)), depth - 1)
                                     for c in a[0])
    if k == 'cmp':
        return '%s %s %g' % (show(a[1], depth - 1), a[0], float(a[2]))
    if k == 'not':
        return 'not(%s)' % show(a[0], depth - 1)
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(show(x, depth - 1) for x in a) + ')'
    if k == 'ite':
        return 'where(%s, %s, %s)' % tuple(show(x, depth - 1) for x in a)
    if k in ('app', 'bapp'):
        return '%s(%s)' % (a[0], ', '.join(show(x, depth - 1) if isinstance(x, T) else str(x)
                                           for x in a[1:]))
    return k
