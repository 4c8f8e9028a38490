"""C06-C10: projections, point location against segments, lines, rays, circles and arcs."""
from ctx import *
from spec_points import cross3, same_xy


def seg_args(k):
    return [k.point('p'), k.segment('s')]


def seg_terms(k, p, s):
    """signed area, dot product along the segment, squared length"""
    (px, py), (ax, ay), (bx, by) = k.xy(p), k.src(s), k.tgt(s)
    area = (bx - ax) * (py - ay) - (by - ay) * (px - ax)
    dot = (bx - ax) * (px - ax) + (by - ay) * (py - ay)
    dd = (bx - ax) * (bx - ax) + (by - ay) * (by - ay)
    return area, dot, dd


# ---------------------------------------------------------------- C06 projection
@contract('point_2_project_line_2', 'C06')
def proj_line(k, p, l):
    (px, py), (a, b, c) = k.xy(p), k.abc(l)
    k.requires(And(Or(eq(a, 0), abs_(a) >= k.eps), Or(eq(b, 0), abs_(b) >= k.eps), Or(Not(eq(a, 0)), Not(eq(b, 0)))))
    # the perpendicular is intersected by its slope form, whose determinant must not be lost to the tolerance
    k.requires(Or(eq(a, 0), eq(b, 0), (a * a + b * b) >= k.eps * abs_(a)))
    x, y = k.xy(k.result)
    k.ensure('the projection is on the line', eq(a * x + b * y + c, 0))
    k.ensure('the projection is reached at a right angle', eq(b * (px - x), a * (py - y)))


@lemma('projecting a point of a line gives the point back', 'C06')
def _(k):
    l, p = k.line('l'), k.point('p')
    (a, b, c), (px, py) = k.abc(l), k.xy(p)
    k.assume(And(Or(eq(a, 0), abs_(a) >= k.eps), Or(eq(b, 0), abs_(b) >= k.eps), Or(Not(eq(a, 0)), Not(eq(b, 0)))))
    k.assume(Or(eq(a, 0), eq(b, 0), (a * a + b * b) >= k.eps * abs_(a)))
    k.assume(eq(a * px + b * py + c, 0))
    x, y = k.xy(k.call('point_2_project_line_2', p, l))
    k.lemma('x', eq((a * a + b * b) * (x - px), 0))
    k.lemma('y', eq((a * a + b * b) * (y - py), 0))
    k.ensure('same point', And(eq(x, px), eq(y, py)))


@contract('point_2_project_line_segment_2', 'C06', args=seg_args)
def proj_seg(k, p, s):
    (px, py), (ax, ay), (bx, by) = k.xy(p), k.src(s), k.tgt(s)
    area, dot, dd = seg_terms(k, p, s)
    off = Or(dot < -k.eps, dot > dd + k.eps)
    r = k.opt(k.result)
    if r is None:
        k.ensure('nothing only when the foot is beyond an end', off)
        return
    k.ensure('a foot only when it is between the ends', Not(off))
    x, y = k.xy(r)
    k.ensure('the foot is on the line of the segment', eq((bx - ax) * (y - ay), (by - ay) * (x - ax)))
    k.ensure('the foot is reached at a right angle', eq((bx - ax) * (px - x) + (by - ay) * (py - y), 0))
    k.ensure('a segment without length gives its source', Implies(eq(dd, 0), And(eq(x, ax), eq(y, ay))))


# ---------------------------------------------------------------- C07 segments and lines
@contract('locate_point_2_line_segment_2', 'C07', args=seg_args)
def loc_seg(k, p, s):
    area, dot, dd = seg_terms(k, p, s)
    r = k.result
    k.ensure('left exactly when the signed area exceeds the tolerance', Iff(k.isv(r, 'Left'), area > k.eps))
    k.ensure('right exactly when the signed area is below minus the tolerance', Iff(k.isv(r, 'Right'), area < -k.eps))
    k.ensure('on exactly when collinear and between the ends',
             Iff(k.isv(r, 'On'), And(abs_(area) <= k.eps, dot >= -k.eps, dot <= dd + k.eps)))
    k.ensure('collinear otherwise', Iff(k.isv(r, 'Collinear'), And(abs_(area) <= k.eps, Or(dot < -k.eps, dot > dd + k.eps))))


@contract('is_point_2_on_line_segment_2', 'C07', args=seg_args)
def is_on_seg(k, p, s):
    area, dot, dd = seg_terms(k, p, s)
    k.ensure('true exactly when collinear and between the ends',
             Iff(k.result, And(abs_(area) <= k.eps, dot >= -k.eps, dot <= dd + k.eps)))


@lemma('every point of a segment is on it', 'C07')
def _(k):
    s, t = k.segment('s'), k.real('t')
    k.assume(And(t >= 0, t <= 1))
    (ax, ay), (bx, by) = k.src(s), k.tgt(s)
    p = k.call('Point2::new', ax + t * (bx - ax), ay + t * (by - ay))
    area, dot, dd = seg_terms(k, p, s)
    k.lemma('no area', eq(area, 0))
    k.lemma('along', eq(dot, t * dd))
    k.lemma('square', dd >= 0)
    k.lemma('bounds', And(t * dd >= 0, t * dd <= dd))
    k.ensure('on', k.isv(k.call('locate_point_2_line_segment_2', p, s), 'On'))


@lemma('points of the line of a segment beyond its ends are collinear', 'C07')
def _(k):
    s, t = k.segment('s'), k.real('t')
    (ax, ay), (bx, by) = k.src(s), k.tgt(s)
    dd = (bx - ax) * (bx - ax) + (by - ay) * (by - ay)
    k.assume(dd > 0)
    k.assume(Or(t * dd < -k.eps, (t - 1) * dd > k.eps))
    p = k.call('Point2::new', ax + t * (bx - ax), ay + t * (by - ay))
    area, dot, _ = seg_terms(k, p, s)
    k.lemma('no area', eq(area, 0))
    k.lemma('along', eq(dot, t * dd))
    k.ensure('collinear', k.isv(k.call('locate_point_2_line_segment_2', p, s), 'Collinear'))


@lemma('reversing a segment exchanges its sides', 'C07')
def _(k):
    p, a, b = k.point('p'), k.point('a'), k.point('b')
    r = k.call('locate_point_2_line_segment_2', p, k.call('LineSegment2::new', a, b))
    u = k.call('locate_point_2_line_segment_2', p, k.call('LineSegment2::new', b, a))
    k.ensure('left becomes right', Iff(k.isv(r, 'Left'), k.isv(u, 'Right')))
    k.ensure('right becomes left', Iff(k.isv(r, 'Right'), k.isv(u, 'Left')))
    (px, py), (ax, ay), (bx, by) = k.xy(p), k.xy(a), k.xy(b)
    k.lemma('the ends change places', eq((bx - ax) * (px - bx) + (by - ay) * (py - by),
                                         (bx - ax) * (px - ax) + (by - ay) * (py - ay) - (bx - ax) * (bx - ax) - (by - ay) * (by - ay)))
    k.ensure('what is on it stays on it', Iff(k.isv(r, 'On'), k.isv(u, 'On')))


@contract('locate_point_2_line_2', 'C07')
def loc_line(k, p, l):
    (x, y), (a, b, c) = k.xy(p), k.abc(l)
    r = k.result
    k.ensure('on exactly when the equation holds within the tolerance', Iff(k.isv(r, 'On'), abs_(a * x + b * y + c) < k.eps))
    k.ensure('not on otherwise', Iff(k.isv(r, 'NotOn'), abs_(a * x + b * y + c) >= k.eps))


@contract('is_point_2_on_line_2', 'C07')
def is_on_line(k, p, l):
    (x, y), (a, b, c) = k.xy(p), k.abc(l)
    k.ensure('true exactly when the equation holds within the tolerance', Iff(k.result, abs_(a * x + b * y + c) < k.eps))


# ---------------------------------------------------------------- C08 rays
@contract('Ray2::new', 'C08')
def ray_new(k, o, d):
    (ox, oy), (dx, dy) = k.xy(o), k.vxy(d)
    r = k.result
    n = k.sqrt(dx * dx + dy * dy)
    (px, py), (ux, uy) = k.xy(k.call('Ray2::origin', r)), k.vxy(k.call('Ray2::direction', r))
    k.ensure('keeps the origin', And(eq(px, ox), eq(py, oy)))
    k.ensure('shorter than the tolerance: direction unchanged', Implies(n < k.eps, And(eq(ux, dx), eq(uy, dy))))
    k.ensure('otherwise the direction has length one', Implies(n >= k.eps, And(eq(ux * n, dx), eq(uy * n, dy))))


def ray_terms(k, p, r):
    (px, py), (ox, oy), (ux, uy) = k.xy(p), k.xy(k.call('Ray2::origin', r)), k.vxy(k.call('Ray2::direction', r))
    vx, vy = px - ox, py - oy
    near = vx * vx + vy * vy < k.eps * k.eps
    cross, dot = ux * vy - uy * vx, ux * vx + uy * vy
    return cross, Or(near, And(dot > 0, abs_(cross) < k.eps))


@contract('is_point_2_on_ray_2', 'C08')
def on_ray(k, p, r):
    cross, on = ray_terms(k, p, r)
    k.ensure('on exactly when at the origin or ahead of it on the line, within the tolerance', Iff(k.result, on))


@contract('locate_point_2_ray_2', 'C08')
def loc_ray(k, p, r):
    cross, on = ray_terms(k, p, r)
    v = k.result
    k.ensure('on exactly when at the origin or ahead of it on the line', Iff(k.isv(v, 'On'), on))
    k.ensure('left exactly when off the ray and left of its line', Iff(k.isv(v, 'Left'), And(Not(on), cross > k.eps)))
    k.ensure('right exactly when off the ray and right of its line', Iff(k.isv(v, 'Right'), And(Not(on), cross < -k.eps)))
    k.ensure('collinear otherwise', Iff(k.isv(v, 'Collinear'), And(Not(on), abs_(cross) <= k.eps)))


@lemma('every point of a ray is on it, none behind its origin', 'C08')
def _(k):
    r, t = k.ray('r'), k.real('t')
    (ox, oy), (ux, uy) = k.xy(k.call('Ray2::origin', r)), k.vxy(k.call('Ray2::direction', r))
    uu = ux * ux + uy * uy
    k.assume(uu > 0)
    p = k.call('Point2::new', ox + t * ux, oy + t * uy)
    on = B(k.call('is_point_2_on_ray_2', p, r))
    k.lemma('ahead', Implies(t > 0, t * uu > 0))
    k.lemma('behind', Implies(t <= 0, t * uu <= 0))
    k.ensure('on', Implies(t >= 0, on))
    k.ensure('not behind', Implies(And(t < 0, t * t * uu >= k.eps * k.eps), Not(on)))


# ---------------------------------------------------------------- C09 circles
def circ_args(k):
    return [k.point('p'), k.circle('o')]


def circ_dist(k, p, o):
    (px, py), (cx, cy) = k.xy(p), k.cen(o)
    return k.sqrt((px - cx) * (px - cx) + (py - cy) * (py - cy)), k.rad(o)


@contract('locate_point_2_circle_segment_2', 'C09', args=circ_args)
def loc_circ(k, p, o):
    d, r = circ_dist(k, p, o)
    v = k.result
    k.ensure('on exactly when the distance to the centre is the radius within the tolerance', Iff(k.isv(v, 'On'), abs_(d - r) < k.eps))
    k.ensure('inside exactly when closer', Iff(k.isv(v, 'Inside'), d <= r - k.eps))
    k.ensure('outside exactly when farther', Iff(k.isv(v, 'Outside'), d >= r + k.eps))


@contract('is_point_2_on_circle_segment_2', 'C09', args=circ_args)
def on_circ(k, p, o):
    d, r = circ_dist(k, p, o)
    k.ensure('true exactly when the distance to the centre is the radius within the tolerance', Iff(k.result, abs_(d - r) < k.eps))


# ---------------------------------------------------------------- C10 arcs
def arc_args(k):
    return [k.point('p'), k.arc('g')]


def ccw(k, a, b):
    """counter-clockwise angle from direction a to direction b, in [0, 2 pi)"""
    d = k.atan2(b[1], b[0]) - k.atan2(a[1], a[0])
    return ite(d < 0, d + 2 * k.pi, d)


def on_arc_terms(k, p, g):
    (px, py), (cx, cy), (sx, sy), (tx, ty) = k.xy(p), k.cen(g), k.src(g), k.tgt(g)
    d = k.sqrt((px - cx) * (px - cx) + (py - cy) * (py - cy))
    v, s, t = (px - cx, py - cy), (sx - cx, sy - cy), (tx - cx, ty - cy)
    full = And(abs_(sx - tx) < k.eps, abs_(sy - ty) < k.eps)
    whole = ite(full, 2 * k.pi, ccw(k, s, t))
    vs, vt, sv, tv = ccw(k, v, s), ccw(k, v, t), ccw(k, s, v), ccw(k, t, v)
    near = Or(*[x < k.eps for x in (vs, vt, sv, tv)])
    return And(abs_(d - k.rad(g)) < k.eps, Or(near, abs_(sv + vt - whole) < k.eps))


@contract('locate_point_2_arc_segment_2', 'C10', args=arc_args)
def loc_arc(k, p, g):
    on = on_arc_terms(k, p, g)
    k.ensure('on exactly when on the circle and the angles to both ends add up to the angle of the arc', Iff(k.isv(k.result, 'On'), on))
    k.ensure('not on otherwise', Iff(k.isv(k.result, 'NotOn'), Not(on)))


@contract('is_point_2_on_arc_segment_2', 'C10', args=arc_args)
def is_on_arc(k, p, g):
    k.ensure('true exactly when on the circle and the angles to both ends add up to the angle of the arc', Iff(k.result, on_arc_terms(k, p, g)))


def polar_on_arc(k, inside):
    """a circle, an arc by its angles, and the point of the circle at angle th"""
    c = k.circle('o')
    (cx, cy), r = k.cen(c), k.rad(c)
    sr, tr, th = k.real('sr', 'rad'), k.real('tr', 'rad'), k.real('th', 'rad')
    two = 2 * k.pi
    k.assume(And(sr >= 0, sr < two, tr >= 0, tr <= two, th >= 0, th < two, abs_(sr - tr) >= k.eps))
    span = ite(tr >= sr, tr - sr, tr - sr + two)
    off = ite(th >= sr, th - sr, th - sr + two)
    k.assume(span >= k.eps)
    k.assume(off <= span if inside else And(off >= span + k.eps, off <= two - k.eps))
    g = k.call('ArcSegment2::new', c, sr, tr)
    s, co = k.sincos(th)
    p = k.call('Point2::new', cx + r * co, cy + r * s)
    for a in (sr, tr, th):
        k.polar(r, a)
    (sx, sy), (tx, ty) = k.src(g), k.tgt(g)
    # the ends are apart, unless the arc is a whole circle
    k.assume(Or(And(eq(sx, tx), eq(sy, ty), eq(span, two)), And(span < two, Or(abs_(sx - tx) >= k.eps, abs_(sy - ty) >= k.eps))))
    k.lemma('on the circle', eq((r * co) * (r * co) + (r * s) * (r * s), r * r))
    return k.isv(k.call('locate_point_2_arc_segment_2', p, g), 'On')


@lemma('a point of the circle at an angle within the arc is on the arc', 'C10')
def _(k):
    k.ensure('on', polar_on_arc(k, True))


@lemma('a point of the circle at an angle outside the arc is not on the arc', 'C10')
def _(k):
    k.ensure('not on', Not(polar_on_arc(k, False)))
