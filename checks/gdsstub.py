"""Stand-in for gdspy's polygon subtraction of axis-aligned rectangles.

Only active for symbolic coordinates; the real library runs otherwise."""
import gdspy

_Polygon, _boolean = gdspy.Polygon, gdspy.fast_boolean


class _Poly:

    def __init__(self, pts):
        self.polygons = [pts]


class _Set:

    def __init__(self, polys):
        self.polygons = polys


def _symbolic(pts):
    from symx.symnp import SymArray
    return isinstance(pts, SymArray)


def Polygon(points, *a, **k):
    if _symbolic(points):
        return _Poly(points)
    return _Polygon(points, *a, **k)


def _box(pts):
    """Corners of an axis-aligned rectangle given as 4 points."""
    from symx import terms as T
    assert len(pts) == 4, "the stub only subtracts rectangles"
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    x0, x1, y0, y1 = xs[0], xs[0], ys[0], ys[0]
    for v in xs[1:]:
        x0, x1 = (v if v < x0 else x0), (v if v > x1 else x1)
    for v in ys[1:]:
        y0, y1 = (v if v < y0 else y0), (v if v > y1 else y1)
    for p in pts:
        if not ((p[0] == x0 or p[0] == x1) and (p[1] == y0 or p[1] == y1)):
            raise T.Unsupported("polygon subtraction of a non-rectangle")
    return x0, x1, y0, y1


def fast_boolean(a, b, op, *r, **k):
    if not (isinstance(a, _Poly) or isinstance(b, _Poly)):
        return _boolean(a, b, op, *r, **k)
    from symx import symnp, terms as T
    if op != "not":
        raise T.Unsupported("gdspy operation " + op)
    x0, x1, y0, y1 = _box(a.polygons[0])
    u0, u1, v0, v1 = _box(b.polygons[0])
    # overlap
    p0, p1 = (u0 if u0 > x0 else x0), (u1 if u1 < x1 else x1)
    q0, q1 = (v0 if v0 > y0 else y0), (v1 if v1 < y1 else y1)
    if not (p0 < p1 and q0 < q1):
        return _Set([a.polygons[0]])
    out = []
    for c0, c1, d0, d1 in ((x0, p0, y0, y1), (p1, x1, y0, y1),
                           (p0, p1, y0, q0), (p0, p1, q1, y1)):
        if c0 < c1 and d0 < d1:
            out.append(symnp.to_sym([[c0, d0], [c1, d0], [c1, d1], [c0, d1]]))
    return _Set(out) if out else None


gdspy.Polygon, gdspy.fast_boolean = Polygon, fast_boolean
