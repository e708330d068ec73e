"""Exact geometry of objects which lie at known positions relative to each other.

Coordinates are terms. When the differences between the coordinates of all the points involved
are numbers, distances, overlaps and bounds do not depend on the unknown origin and are worked
out exactly. Otherwise the operations stay uninterpreted."""
import math
from fractions import Fraction as F
from . import terms as tm
from .values import *

MULTI = ('MultiLineString', 'MultiPoint', 'GeometryCollection', 'MultiPolygon')


def parts(o):
    """lines and points of a geometry: lists of points (pairs of terms); None if unknown"""
    if not isinstance(o, Obj):
        return None
    g = o.d.get('__geoms__', UNDEF)
    if g is not UNDEF:
        out = []
        for x in g.items:
            p = parts(x)
            if p is None:
                return None
            out += p
        return out
    xy = o.d.get('__xy__', UNDEF)
    if xy is UNDEF or not isinstance(xy, NDArr):
        return None
    e = [tm.lift(x) for x in xy.elems]
    if len(xy.axes) == 1:
        return [[(e[0], e[1])]]
    if not isinstance(xy.axes[0], int):
        return None
    return [[(e[2 * i], e[2 * i + 1]) for i in range(xy.axes[0])]] if xy.axes[0] else []


def number(t):
    return t.a[0] if t.k == 'num' else None


def relative(*ps):
    """origin and the parts with numbers relative to it"""
    org, out = None, []
    for p in ps:
        if p is None:
            return None
        q = []
        for part in p:
            r = []
            for x, y in part:
                if org is None:
                    org = (x, y)
                a, b = number(tm.sub(x, org[0])), number(tm.sub(y, org[1]))
                if a is None or b is None:
                    return None
                r.append((F(a), F(b)))
            q.append(r)
        out.append(q)
    return org, out


def sqrt(q):
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return F(n, d)
    return F(math.sqrt(q))


def point_segment2(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = dx * dx + dy * dy
    t = F(0) if n == 0 else ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / n
    t = max(F(0), min(F(1), t))
    ex, ey = p[0] - a[0] - t * dx, p[1] - a[1] - t * dy
    return ex * ex + ey * ey


def segments(ps):
    out = []
    for p in ps:
        out += [(p[0], p[0])] if len(p) == 1 else list(zip(p, p[1:]))
    return out


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def sign(x):
    return (x > 0) - (x < 0)


def seg_seg2(s, t):
    a, b = s
    c, d = t
    if a != b and c != d and sign(cross(a, b, c)) * sign(cross(a, b, d)) < 0 and \
            sign(cross(c, d, a)) * sign(cross(c, d, b)) < 0:
        return F(0)
    return min(point_segment2(a, c, d), point_segment2(b, c, d), point_segment2(c, a, b),
               point_segment2(d, a, b))


def distance(o, v):
    r = relative(parts(o), parts(v))
    if r is None:
        return None
    s, t = (segments(p) for p in r[1])
    if not s or not t:
        return F(0)                     # as shapely does
    return sqrt(min(seg_seg2(x, y) for x in s for y in t))


def bounds(o):
    r = relative(parts(o))
    if r is None or not r[1][0]:
        return None
    (ox, oy), (ps,) = r
    pts = [p for part in ps for p in part]
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return tuple(tm.add(a, tm.num(b)) for a, b in ((ox, min(xs)), (oy, min(ys)), (ox, max(xs)),
                                                   (oy, max(ys))))


def within(o, d, v):
    """spans of the line v (from 0 to 1) which are at most d from o: (origin, p, q, spans), None
    if it cannot be told"""
    r = relative(parts(o), parts(v))
    if r is None:
        return None
    org, (ps, vs) = r
    if len(vs) != 1 or len(vs[0]) != 2:
        return None
    p, q = vs[0]
    dx, dy = q[0] - p[0], q[1] - p[1]
    n2 = dx * dx + dy * dy
    if n2 == 0:
        return None
    n = sqrt(n2)
    spans = []
    for a, b in segments(ps):
        if cross(p, q, a) != 0 or cross(p, q, b) != 0:
            if min(abs(cross(p, q, a)), abs(cross(p, q, b))) > 1000 * d * n and \
                    sign(cross(p, q, a)) == sign(cross(p, q, b)):
                continue
            return None
        ta, tb = sorted(((x[0] - p[0]) * dx + (x[1] - p[1]) * dy) / n2 for x in (a, b))
        lo, hi = max(F(0), ta - d / n), min(F(1), tb + d / n)
        if hi > lo:
            spans.append((lo, hi))
    spans.sort()
    out = []
    for s in spans:
        if out and s[0] <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], s[1]))
        else:
            out.append(s)
    return org, p, q, out
