"""C01-C05, C11, C27, C28: turn predicate, equality and order, vector algebra, lines, triangles, DCEL records."""
from ctx import *


def cross3(k, a, b, c):
    (ax, ay), (bx, by), (cx, cy) = k.xy(a), k.xy(b), k.xy(c)
    return (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)


def same_xy(k, p, x, y):
    px, py = k.xy(p)
    return And(eq(px, x), eq(py, y))


# ---------------------------------------------------------------- C01 turn
@contract('Point2::turn', 'C01')
def turn(k, a, b, c):
    area = cross3(k, a, b, c)
    r = k.result
    k.ensure('left exactly when the signed area is at least the tolerance', Iff(k.isv(r, 'Left'), area >= k.eps))
    k.ensure('right exactly when the signed area is at most minus the tolerance', Iff(k.isv(r, 'Right'), area <= -k.eps))
    k.ensure('collinear exactly within the tolerance', Iff(k.isv(r, 'Collinear'), abs_(area) < k.eps))


@lemma('turn is invariant under rotating its arguments', 'C01')
def _(k):
    a, b, c = k.point('a'), k.point('b'), k.point('c')
    r, s = k.call('Point2::turn', a, b, c), k.call('Point2::turn', b, c, a)
    for v in ('Left', 'Right', 'Collinear'):
        k.ensure('same verdict ' + v, Iff(k.isv(r, v), k.isv(s, v)))


@lemma('turn flips when two arguments are exchanged', 'C01')
def _(k):
    a, b, c = k.point('a'), k.point('b'), k.point('c')
    r, s = k.call('Point2::turn', a, b, c), k.call('Point2::turn', b, a, c)
    k.ensure('left becomes right', Iff(k.isv(r, 'Left'), k.isv(s, 'Right')))
    k.ensure('right becomes left', Iff(k.isv(r, 'Right'), k.isv(s, 'Left')))


@lemma('turn is invariant under translation', 'C01')
def _(k):
    a, b, c = k.point('a'), k.point('b'), k.point('c')
    tx, ty = k.real('tx'), k.real('ty')
    q = [k.call('Point2::new', x + tx, y + ty) for x, y in map(k.xy, (a, b, c))]
    r, s = k.call('Point2::turn', a, b, c), k.call('Point2::turn', *q)
    for v in ('Left', 'Right', 'Collinear'):
        k.ensure('same verdict ' + v, Iff(k.isv(r, v), k.isv(s, v)))


@lemma('turn with a repeated point is collinear', 'C01')
def _(k):
    a, b = k.point('a'), k.point('b')
    for t in ((a, a, b), (a, b, a), (b, a, a)):
        k.ensure('collinear', k.isv(k.call('Point2::turn', *t), 'Collinear'))


# ---------------------------------------------------------------- C02 equality and order
def eq_spec(k, p, q, xy):
    (ax, ay), (bx, by) = xy(p), xy(q)
    d2 = (ax - bx) * (ax - bx) + (ay - by) * (ay - by)
    r = k.result
    k.ensure('equal exactly when closer than the tolerance', Iff(r, d2 < k.eps * k.eps))


@contract('Point2::equals', 'C02')
def pt_equals(k, p, q):
    eq_spec(k, p, q, k.xy)


@contract('<Point2 as PartialEq>::eq', 'C02')
def pt_eq(k, p, q):
    eq_spec(k, p, q, k.xy)


def vtx_xy(k):
    return lambda v: (k.call('Vertex2::x', v), k.call('Vertex2::y', v))


def two_vertices(k):
    return [k.call('Vertex2::new', k.real(n + '.x'), k.real(n + '.y')) for n in ('a', 'b')]


@contract('Vertex2::equals', 'C02', args=two_vertices)
def vt_equals(k, p, q):
    eq_spec(k, p, q, vtx_xy(k))


@contract('<Vertex2 as PartialEq>::eq', 'C02', args=two_vertices)
def vt_eq(k, p, q):
    eq_spec(k, p, q, vtx_xy(k))


def cmp_spec(k, p, q, xy, part):
    (ax, ay), (bx, by) = xy(p), xy(q)
    o = k.result
    if part:
        o = k.opt(o)
        if o is None:
            k.unreachable('every two points are comparable')
            return
    o = k.ordering(o)
    cx, cy = abs_(ax - bx) < k.eps, abs_(ay - by) < k.eps
    k.ensure('equal exactly when both coordinates agree within the tolerance', Iff(B(o == 0), And(cx, cy)))
    k.ensure('otherwise the point with the smaller x (then the smaller y) is the greater one',
             Iff(B(o == 1), Or(And(Not(cx), ax < bx), And(cx, Not(cy), ay < by))))


@contract('<Point2 as Ord>::cmp', 'C02')
def pt_cmp(k, p, q):
    cmp_spec(k, p, q, k.xy, False)


@contract('<Point2 as PartialOrd>::partial_cmp', 'C02')
def pt_pcmp(k, p, q):
    cmp_spec(k, p, q, k.xy, True)


@contract('<Vertex2 as Ord>::cmp', 'C02', args=two_vertices)
def vt_cmp(k, p, q):
    cmp_spec(k, p, q, vtx_xy(k), False)


@contract('<Vertex2 as PartialOrd>::partial_cmp', 'C02', args=two_vertices)
def vt_pcmp(k, p, q):
    cmp_spec(k, p, q, vtx_xy(k), True)


@lemma('equality of points is reflexive and symmetric and implies an equal order', 'C02')
def _(k):
    a, b = k.point('a'), k.point('b')
    k.ensure('reflexive', B(k.call('<Point2 as PartialEq>::eq', a, a)))
    r, s = B(k.call('<Point2 as PartialEq>::eq', a, b)), B(k.call('<Point2 as PartialEq>::eq', b, a))
    k.ensure('symmetric', Iff(r, s))
    o = k.ordering(k.call('<Point2 as Ord>::cmp', a, b))
    k.ensure('equal points are equal in the order', Implies(r, B(o == 0)))


@lemma('the order of points is antisymmetric', 'C02')
def _(k):
    a, b = k.point('a'), k.point('b')
    o, u = (k.ordering(k.call('<Point2 as Ord>::cmp', *x)) for x in ((a, b), (b, a)))
    k.ensure('reversed', B(o == -u))


@lemma('the order of points is transitive when differing coordinates differ by at least the tolerance', 'C02')
def _(k):
    a, b, c = k.point('a'), k.point('b'), k.point('c')
    P = [k.xy(v) for v in (a, b, c)]
    for i, j in ((0, 1), (1, 2), (0, 2)):
        for m in (0, 1):
            d = P[i][m] - P[j][m]
            k.assume(Or(eq(d, 0), abs_(d) >= k.eps))
    o, u, w = (k.ordering(k.call('<Point2 as Ord>::cmp', *x)) for x in ((a, b), (b, c), (a, c)))
    k.ensure('a > b > c implies a > c', B(not (o == 1 and u == 1) or w == 1))
    k.ensure('equal points compare alike', B(not (o == 0) or w == u))


# ---------------------------------------------------------------- C03 vectors
def vec_of(k, f):
    """contract with a vector result given by component terms"""
    x, y = f
    rx, ry = k.vxy(k.result)
    k.ensure('x component', eq(rx, x))
    k.ensure('y component', eq(ry, y))


@contract('<Vector2 as Add>::add', 'C03')
def _(k, a, b):
    (ax, ay), (bx, by) = k.vxy(a), k.vxy(b)
    vec_of(k, (ax + bx, ay + by))


@contract('<Vector2 as Sub>::sub', 'C03')
def _(k, a, b):
    (ax, ay), (bx, by) = k.vxy(a), k.vxy(b)
    vec_of(k, (ax - bx, ay - by))


@contract('<Vector2 as Mul>::mul', 'C03')
def _(k, a, s):
    ax, ay = k.vxy(a)
    vec_of(k, (ax * s, ay * s))


@contract('<Vector2 as Div>::div', 'C03')
def _(k, a, s):
    k.requires(Not(eq(s, 0)))
    ax, ay = k.vxy(a)
    rx, ry = k.vxy(k.result)
    k.ensure('x component times the divisor', eq(rx * s, ax))
    k.ensure('y component times the divisor', eq(ry * s, ay))


@contract('<Point2 as Add>::add', 'C03')
def _(k, a, b):
    (ax, ay), (bx, by) = k.xy(a), k.xy(b)
    vec_of(k, (ax + bx, ay + by))


@contract('<Point2 as Sub>::sub', 'C03')
def _(k, a, b):
    (ax, ay), (bx, by) = k.xy(a), k.xy(b)
    vec_of(k, (ax - bx, ay - by))


@contract('Point2::get_vector', 'C03')
def _(k, a):
    vec_of(k, k.xy(a))


@contract('Vector2::dot', 'C03')
def _(k, a, b):
    (ax, ay), (bx, by) = k.vxy(a), k.vxy(b)
    k.ensure('dot product', eq(k.result, ax * bx + ay * by))


@contract('Vector2::cross', 'C03')
def _(k, a, b):
    (ax, ay), (bx, by) = k.vxy(a), k.vxy(b)
    k.ensure('cross product', eq(k.result, ax * by - ay * bx))


@contract('Vector2::length', 'C03')
def _(k, a):
    x, y = k.vxy(a)
    k.ensure('root of the squared length', eq(k.result, k.sqrt(x * x + y * y)))


@contract('Point2::distance', 'C03')
def _(k, a, b):
    (ax, ay), (bx, by) = k.xy(a), k.xy(b)
    k.ensure('root of the squared difference', eq(k.result, k.sqrt((ax - bx) * (ax - bx) + (ay - by) * (ay - by))))


@contract('Vector2::normalize', 'C03')
def _(k, a):
    x, y = k.vxy(a)
    n = k.sqrt(x * x + y * y)
    rx, ry = k.vxy(k.result)
    k.ensure('shorter than the tolerance: unchanged', Implies(n < k.eps, And(eq(rx, x), eq(ry, y))))
    k.ensure('otherwise the same direction scaled by the length', Implies(n >= k.eps, And(eq(rx * n, x), eq(ry * n, y))))


@lemma('a normalised vector has length one and the direction of the original', 'C03')
def _(k):
    a = k.vector('a')
    x, y = k.vxy(a)
    n = k.call('Vector2::length', a)
    k.assume(n >= k.eps)
    rx, ry = k.vxy(k.call('Vector2::normalize', a))
    k.lemma('scaled back', eq((rx * rx + ry * ry) * n * n, n * n))
    k.ensure('unit', eq(rx * rx + ry * ry, 1))
    k.ensure('parallel', eq(rx * y, ry * x))
    k.ensure('same sense', rx * x + ry * y > 0)


@contract('<Vector2 as PartialEq>::eq', 'C03')
def _(k, a, b):
    (ax, ay), (bx, by) = k.vxy(a), k.vxy(b)
    k.ensure('equal exactly when both components agree within the tolerance',
             Iff(k.result, And(abs_(ax - bx) < k.eps, abs_(ay - by) < k.eps)))


@contract('Vector2::radian_to', 'C03')
def _(k, a, b):
    (ax, ay), (bx, by) = k.vxy(a), k.vxy(b)
    d = k.atan2(by, bx) - k.atan2(ay, ax)
    r = k.result
    k.ensure('counter-clockwise angle from one direction to the other', eq(r, ite(d < 0, d + 2 * k.pi, d)))


@lemma('the angle between directions lies in [0, 2 pi)', 'C03')
def _(k):
    a, b = k.vector('a'), k.vector('b')
    r = k.call('Vector2::radian_to', a, b)
    k.ensure('range', And(r >= 0, r < 2 * k.pi))
    k.ensure('no angle to itself', eq(k.call('Vector2::radian_to', a, a), 0))


# ---------------------------------------------------------------- C04 lines
@contract('Line2::from_points', 'C04')
def from_points(k, p, q):
    (px, py), (qx, qy) = k.xy(p), k.xy(q)
    a, b, c = k.abc(k.result)
    sx, sy = abs_(px - qx) < k.eps, abs_(py - qy) < k.eps
    k.ensure('passes through the first point', eq(a * px + b * py + c, 0))
    k.ensure('passes through the second point within the tolerance', abs_(a * qx + b * qy + c) < k.eps)
    k.ensure('passes through the second point when no coordinate difference is below the tolerance',
             Implies(And(Or(eq(px, qx), Not(sx)), Or(eq(py, qy), Not(sy))), eq(a * qx + b * qy + c, 0)))
    k.ensure('is a line', Or(eq(abs_(a), 1), eq(abs_(b), 1)))
    k.ensure('vertical form', Implies(sx, And(eq(a, 1), eq(b, 0))))
    k.ensure('horizontal form', Implies(And(Not(sx), sy), And(eq(a, 0), eq(b, 1))))
    k.ensure('slope form', Implies(And(Not(sx), Not(sy)), And(eq(b, -1), eq(a * (qx - px), qy - py))))


@contract('<Line2 as PartialEq>::eq', 'C04')
def line_eq(k, l, m):
    (a, b, c), (d, e, f) = k.abc(l), k.abc(m)
    k.ensure('equal exactly when all coefficient minors vanish within the tolerance',
             Iff(k.result, And(abs_(a * e - b * d) < k.eps, abs_(c * e - b * f) < k.eps, abs_(a * f - c * d) < k.eps)))


@lemma('proportional coefficients give equal lines', 'C04')
def _(k):
    l = k.line('l')
    t = k.real('t')
    a, b, c = k.abc(l)
    m = k.call('Line2::new', a * t, b * t, c * t)
    k.ensure('equal', B(k.call('<Line2 as PartialEq>::eq', l, m)))
    k.ensure('reflexive', B(k.call('<Line2 as PartialEq>::eq', l, l)))


@lemma('line equality is symmetric', 'C04')
def _(k):
    l, m = k.line('l'), k.line('m')
    k.ensure('symmetric', Iff(k.call('<Line2 as PartialEq>::eq', l, m), k.call('<Line2 as PartialEq>::eq', m, l)))


@lemma('the line through two points does not depend on their order', 'C04')
def _(k):
    p, q = k.point('p'), k.point('q')
    (px, py), (qx, qy) = k.xy(p), k.xy(q)
    k.assume(Or(eq(px, qx), abs_(px - qx) >= k.eps))
    k.assume(Or(eq(py, qy), abs_(py - qy) >= k.eps))
    k.assume(Not(And(eq(px, qx), eq(py, qy))))
    k.case(eq(px, qx))
    k.case(eq(py, qy))
    l, m = k.call('Line2::from_points', p, q), k.call('Line2::from_points', q, p)
    (a, b, c), (d, e, f) = k.abc(l), k.abc(m)
    k.ensure('same normal', eq(a * e, b * d))
    k.ensure('same offset', And(eq(c * e, b * f), eq(a * f, c * d)))
    k.ensure('equal lines', B(k.call('<Line2 as PartialEq>::eq', l, m)))


# ---------------------------------------------------------------- C05 line-line intersection
@contract('line_2_line_2_intersection', 'C05')
def ll(k, l, m):
    (a, b, c), (d, e, f) = k.abc(l), k.abc(m)
    det = a * e - d * b
    r = k.opt(k.result)
    if r is None:
        k.ensure('no point only for parallel lines', abs_(det) < k.eps)
    else:
        x, y = k.xy(r)
        k.ensure('a point only for lines that are not parallel', abs_(det) >= k.eps)
        k.ensure('the point is on the first line', eq(a * x + b * y + c, 0))
        k.ensure('the point is on the second line', eq(d * x + e * y + f, 0))


@contract('is_line_2_line_2_intersected', 'C05')
def ll_is(k, l, m):
    (a, b, c), (d, e, f) = k.abc(l), k.abc(m)
    k.ensure('true exactly when the lines are not parallel', Iff(k.result, abs_(a * e - d * b) >= k.eps))


@lemma('line intersection does not depend on the order of the lines', 'C05')
def _(k):
    l, m = k.line('l'), k.line('m')
    r, s = (k.opt(k.call('line_2_line_2_intersection', *x)) for x in ((l, m), (m, l)))
    k.ensure('both or none', B((r is None) == (s is None)))
    if r is not None and s is not None:
        (x, y), (u, v) = k.xy(r), k.xy(s)
        (a, b, c), (d, e, f) = k.abc(l), k.abc(m)
        det = a * e - d * b
        k.lemma('x', eq(det * (x - u), 0))
        k.lemma('y', eq(det * (y - v), 0))
        k.ensure('same point', And(eq(x, u), eq(y, v)))


# ---------------------------------------------------------------- C11 triangles
@contract('Triangle2::new', 'C11')
def tri_new(k, a, b, c):
    t = k.result
    area = cross3(k, a, b, c)
    for n, p in (('a', a), ('b', b), ('c', c)):
        k.ensure('keeps vertex ' + n, same_xy(k, k.call('Triangle2::' + n, t), *k.xy(p)))
    o = k.call('Triangle2::orientation', t)
    k.ensure('counter-clockwise exactly when the signed area is positive', Iff(k.isv(o, 'CounterClockwise'), area > 0))
    k.ensure('clockwise otherwise', Iff(k.isv(o, 'Clockwise'), area <= 0))


@lemma('triangle area is the signed area of its vertices', 'C11')
def _(k):
    a, b, c = k.point('a'), k.point('b'), k.point('c')
    t = k.call('Triangle2::new', a, b, c)
    area = cross3(k, a, b, c)
    k.ensure('half the cross product', eq(2 * k.call('Triangle2::area', t), area))


@lemma('triangle vertices and edges follow construction order', 'C11')
def _(k):
    a, b, c = k.point('a'), k.point('b'), k.point('c')
    t = k.call('Triangle2::new', a, b, c)
    vs = k.items(k.call('Triangle2::vertices', t))
    k.ensure('three vertices', B(len(vs) == 3))
    for v, p in zip(vs, (a, b, c)):
        k.ensure('vertex', same_xy(k, v, *k.xy(p)))
    es = k.items(k.call('Triangle2::edges', t))
    k.ensure('three edges', B(len(es) == 3))
    for e, (p, q) in zip(es, ((a, b), (b, c), (c, a))):
        (sx, sy), (tx, ty) = k.src(e), k.tgt(e)
        (px, py), (qx, qy) = k.xy(p), k.xy(q)
        k.ensure('edge', And(eq(sx, px), eq(sy, py), eq(tx, qx), eq(ty, qy)))


@lemma('reversing a triangle flips the orientation and the sign of the area, nothing else', 'C11')
def _(k):
    a, b, c = k.point('a'), k.point('b'), k.point('c')
    t = k.ref(k.call('Triangle2::new', a, b, c))
    o0, A0 = k.call('Triangle2::orientation', t), k.call('Triangle2::area', t)
    k.call('Triangle2::reverse_orientation', t)
    o1, A1 = k.call('Triangle2::orientation', t), k.call('Triangle2::area', t)
    k.ensure('orientation flipped', Iff(k.isv(o0, 'Clockwise'), k.isv(o1, 'CounterClockwise')))
    k.ensure('orientation flipped back', Iff(k.isv(o0, 'CounterClockwise'), k.isv(o1, 'Clockwise')))
    k.ensure('area negated', eq(A1, -A0))
    for n, p in (('a', a), ('b', b), ('c', c)):
        k.ensure('vertex kept', same_xy(k, k.call('Triangle2::' + n, t), *k.xy(p)))


@contract('locate_point_2_triangle_2', 'C11')
def tri_loc(k, p, t):
    A, B_, C = (k.call('Triangle2::' + n, t) for n in 'abc')
    es = [(A, B_), (B_, C), (C, A)]
    ar = [cross3(k, u, v, p) for u, v in es]
    px, py = k.xy(p)
    on = []
    for (u, v), a in zip(es, ar):
        (ux, uy), (vx, vy) = k.xy(u), k.xy(v)
        d = (vx - ux) * (px - ux) + (vy - uy) * (py - uy)
        dd = (vx - ux) * (vx - ux) + (vy - uy) * (vy - uy)
        on.append((And(abs_(a) <= k.eps, d >= -k.eps, d <= dd + k.eps), And(eq(a, 0), d >= 0, d <= dd)))
    r = k.result
    left = And(*[a > k.eps for a in ar])
    right = And(*[a < -k.eps for a in ar])
    k.ensure('inside exactly when strictly on the same side of the three edges', Iff(k.isv(r, 'Inside'), Or(left, right)))
    k.ensure('on only within the tolerance of an edge', Implies(k.isv(r, 'On'), Or(*[x for x, _ in on])))
    k.ensure('outside otherwise', Implies(And(Not(Or(left, right)), Not(Or(*[x for x, _ in on]))), k.isv(r, 'Outside')))


@lemma('a point of an edge of a triangle is located on it', 'C11', also=())
def _(k):
    t = k.triangle('t')
    vs = [k.call('Triangle2::' + n, t) for n in 'abc']
    i = k.choose(3)
    s = k.real('s')
    k.assume(And(s >= 0, s <= 1))
    (ux, uy), (vx, vy) = k.xy(vs[i]), k.xy(vs[(i + 1) % 3])
    A = cross3(k, *vs)
    k.assume(abs_(A) > k.eps)
    # away from the ends the neighbouring edges are more than the tolerance off
    k.assume(And(s * abs_(A) > k.eps, (1 - s) * abs_(A) > k.eps))
    p = k.call('Point2::new', ux + s * (vx - ux), uy + s * (vy - uy))
    ar = [cross3(k, vs[j], vs[(j + 1) % 3], p) for j in range(3)]
    k.lemma('no area on its own edge', eq(ar[i], 0))
    r = k.call('locate_point_2_triangle_2', p, t)
    k.ensure('not strictly inside', Not(k.isv(r, 'Inside')))
