"""C15, C16: intersections with circles."""
from ctx import *
from spec_loc import seg_terms


# ---------------------------------------------------------------- C16 circle, circle
def two_circs(k):
    return [k.circle('o'), k.circle('q')]


def centre_dist(k, o, q):
    (ax, ay), (bx, by) = k.cen(o), k.cen(q)
    return k.sqrt((bx - ax) * (bx - ax) + (by - ay) * (by - ay))


def dist(k, p, c):
    (px, py), (cx, cy) = k.xy(p), k.cen(c)
    return k.sqrt((px - cx) * (px - cx) + (py - cy) * (py - cy))


def circ_meet(k, o, q):
    d, ra, rb = centre_dist(k, o, q), k.rad(o), k.rad(q)
    df = abs_(ra - rb)
    ext, int_ = abs_(d - (ra + rb)) < k.eps, abs_(d - df) < k.eps
    return d, ext, int_, And(d > df, d < ra + rb)


@contract('is_circle_segment_2_circle_segment_2_intersected', 'C16', args=two_circs)
def circ_circ_is(k, o, q):
    d, ext, int_, cross = circ_meet(k, o, q)
    k.ensure('true exactly when the centres are apart and the circles touch or cross', Iff(k.result, And(d >= k.eps, Or(ext, int_, cross))))


@contract('circle_segment_2_circle_segment_2_intersection', 'C16', args=two_circs)
def circ_circ(k, o, q):
    d, ext, int_, cross = circ_meet(k, o, q)
    r = k.items(k.result)
    touch = Or(ext, int_)
    k.ensure('points exactly when the centres are apart and the circles touch or cross', Iff(B(len(r) > 0), And(d >= k.eps, Or(touch, cross))))
    k.ensure('one point when they touch', Implies(And(d >= k.eps, touch), B(len(r) == 1)))
    k.ensure('two points when they cross', Implies(And(d >= k.eps, Not(touch), cross), B(len(r) == 2)))
    k.ensure('never more than two', B(len(r) <= 2))
    (ax, ay), (bx, by), ra, rb = k.cen(o), k.cen(q), k.rad(o), k.rad(q)
    D = (bx - ax) * (bx - ax) + (by - ay) * (by - ay)
    k.lemma('square of the distance', eq(d * d, D))
    for p in r:
        x, y = k.xy(p)
        da, db = (x - ax) * (x - ax) + (y - ay) * (y - ay), (x - bx) * (x - bx) + (y - by) * (y - by)
        k.ensure('the point is on the line of the centres when they touch', Implies(touch, eq((bx - ax) * (y - ay), (by - ay) * (x - ax))))
        k.ensure('the point is on the first circle', Implies(Not(touch), eq(da, ra * ra)))
        k.ensure('the point is on the second circle', Implies(Not(touch), eq(db, rb * rb)))
        k.ensure('a touching point is on one circle exactly', Implies(touch, Or(eq(da, ra * ra), eq(db, rb * rb))))
        # distance of a touching point to both centres along their line
        s = ((x - ax) * (bx - ax) + (y - ay) * (by - ay))
        k.ensure('a touching point is at its radius along the line of the centres', Implies(touch, And(
            abs_(abs_(s) - ra * d) < k.eps * d, abs_(abs_(D - s) - rb * d) < k.eps * d)))
    if len(r) == 2:
        (x1, y1), (x2, y2) = k.xy(r[0]), k.xy(r[1])
        k.ensure('the two points are different', Not(And(eq(x1, x2), eq(y1, y2))))


@lemma('the circle predicate agrees with the points and does not depend on the order', 'C16')
def _(k):
    o, q = two_circs(k)
    f, g = 'is_circle_segment_2_circle_segment_2_intersected', 'circle_segment_2_circle_segment_2_intersection'
    r = B(k.call(f, o, q))
    k.ensure('same verdict swapped', Iff(r, k.call(f, q, o)))
    k.ensure('points exactly when intersecting', Iff(r, B(len(k.items(k.call(g, o, q))) > 0)))


@lemma('every common point of two crossing circles is reported', 'C16')
def _(k):
    o, q, p = k.circle('o'), k.circle('q'), k.point('p')
    (ax, ay), (bx, by), ra, rb, (x, y) = k.cen(o), k.cen(q), k.rad(o), k.rad(q), k.xy(p)
    d, ext, int_, cross = circ_meet(k, o, q)
    k.assume(And(d >= k.eps, Not(ext), Not(int_)))
    k.assume(eq((x - ax) * (x - ax) + (y - ay) * (y - ay), ra * ra))
    k.assume(eq((x - bx) * (x - bx) + (y - by) * (y - by), rb * rb))
    ux, uy = bx - ax, by - ay
    D = ux * ux + uy * uy
    s, c = (x - ax) * ux + (y - ay) * uy, ux * (y - ay) - uy * (x - ax)
    k.lemma('square of the distance', eq(d * d, D))
    k.lemma('along', eq(2 * s, ra * ra + D - rb * rb))
    k.lemma('across', eq(s * s + c * c, ra * ra * D))
    k.lemma('apart', D > 0)
    k.algebra('product', [s, c, ra, rb, D], lambda s, c, ra, rb, D: (
        [eq(2 * s, ra * ra + D - rb * rb), eq(s * s + c * c, ra * ra * D)], ((ra + rb) * (ra + rb) - D) * (D - (ra - rb) * (ra - rb)) >= 0))
    k.algebra('sum and difference', [ra, rb, D], lambda ra, rb, D: (
        [((ra + rb) * (ra + rb) - D) * (D - (ra - rb) * (ra - rb)) >= 0, ra > 0, rb > 0, D > 0],
        And(D <= (ra + rb) * (ra + rb), D >= (ra - rb) * (ra - rb))))
    k.lemma('crossing', And(d < ra + rb, d > abs_(ra - rb)))
    r = k.items(k.call('circle_segment_2_circle_segment_2_intersection', o, q))
    k.ensure('two points', B(len(r) == 2))
    if len(r) != 2:
        return
    P = []
    for i, e in enumerate(r):
        ex, ey = k.xy(e)
        se, ce = (ex - ax) * ux + (ey - ay) * uy, ux * (ey - ay) - uy * (ex - ax)
        k.lemma('reported along', eq(2 * se, ra * ra + D - rb * rb))
        k.lemma('reported across', eq(se * se + ce * ce, ra * ra * D))
        k.algebra('same square', [s, c, se, ce, ra, rb, D], lambda s, c, se, ce, ra, rb, D: (
            [eq(2 * s, ra * ra + D - rb * rb), eq(2 * se, ra * ra + D - rb * rb), eq(s * s + c * c, ra * ra * D), eq(se * se + ce * ce, ra * ra * D)],
            And(eq(s, se), eq(c * c, ce * ce))))
        P.append((ex, ey, se, ce))
    (x1, y1, s1, c1), (x2, y2, s2, c2) = P
    k.lemma('positive', D > 0)

    def point_of(name, p, x, y, sx, cx):
        k.algebra(name, [p[0], p[1], x, y, ax, ay, ux, uy], lambda px, py, x, y, ax, ay, ux, uy: (
            [ux * ux + uy * uy > 0, eq((px - ax) * ux + (py - ay) * uy, (x - ax) * ux + (y - ay) * uy),
             eq(ux * (py - ay) - uy * (px - ax), ux * (y - ay) - uy * (x - ax))],
            And(eq(px, x), eq(py, y))))
    if k.case(eq(c1, c2)):
        point_of('the two are one', (x1, y1), x2, y2, s2, c2)
        k.ensure('reported', B(False))
        return
    k.algebra('one of them', [c, c1, c2], lambda c, c1, c2: (
        [eq(c * c, c1 * c1), eq(c * c, c2 * c2), Not(eq(c1, c2))], Or(eq(c, c1), eq(c, c2))))
    e = P[0] if k.case(eq(c, c1)) else P[1]
    point_of('the same point', (x, y), e[0], e[1], e[2], e[3])
    k.ensure('reported', Or(*[And(eq(x, e[0]), eq(y, e[1])) for e in P]))


# ---------------------------------------------------------------- C15 segment, circle
def seg_circ(k):
    return [k.segment('s'), k.circle('o')]


class SC:
    """the quantities of a segment and a circle"""
    def __init__(self, k, s, o):
        (self.ax, self.ay), (self.bx, self.by), (self.cx, self.cy), self.r = k.src(s), k.tgt(s), k.cen(o), k.rad(o)
        sq = lambda x, y: (x - self.cx) * (x - self.cx) + (y - self.cy) * (y - self.cy)
        self.S, self.T = sq(self.ax, self.ay), sq(self.bx, self.by)
        self.ds, self.dt = k.sqrt(self.S), k.sqrt(self.T)
        loc = lambda d: (d <= self.r - k.eps, abs_(d - self.r) < k.eps, d >= self.r + k.eps)
        (self.in_s, self.on_s, self.out_s), (self.in_t, self.on_t, self.out_t) = loc(self.ds), loc(self.dt)
        self.ux, self.uy = self.bx - self.ax, self.by - self.ay
        c = k.acc(o, 'center')
        self.area, self.dot, self.dd = seg_terms(k, c, s)
        self.n = k.sqrt(self.dd)
        self.between = And(self.dot >= 0, self.dot <= self.dd)
        self.clear = Or(self.between, self.dot < -k.eps, self.dot > self.dd + k.eps)
        self.k, self.seg, self.c = k, s, c

    def foot(self):
        """hints about the foot of the perpendicular from the centre, when there is one"""
        k = self.k
        if k.mode != 'prove':
            return None
        f = k.opt(k.call('point_2_project_line_segment_2', self.c, self.seg))
        if f is None:
            return None
        fx, fy = k.xy(f)
        cx, cy = self.cx, self.cy
        fd2 = (fx - cx) * (fx - cx) + (fy - cy) * (fy - cy)
        fd = k.sqrt(fd2)
        t = [self.ax, self.ay, self.ux, self.uy, cx, cy, fx, fy]

        def H(ax, ay, ux, uy, cx, cy, fx, fy):
            return [eq(ux * (fy - ay), uy * (fx - ax)), eq(ux * (cx - fx) + uy * (cy - fy), 0)]

        def Q(ax, ay, ux, uy, cx, cy, fx, fy):
            A = ux * (cy - ay) - uy * (cx - ax)
            D = ux * ux + uy * uy
            P = ux * (cx - ax) + uy * (cy - ay)
            F, S = (fx - cx) * (fx - cx) + (fy - cy) * (fy - cy), (ax - cx) * (ax - cx) + (ay - cy) * (ay - cy)
            E = (ax + ux - cx) * (ax + ux - cx) + (ay + uy - cy) * (ay + uy - cy)
            return A, D, P, F, S, E
        k.algebra('foot: area', t, lambda *v: (H(*v), eq(Q(*v)[3] * Q(*v)[1], Q(*v)[0] * Q(*v)[0])))
        k.algebra('foot: pythagoras', t, lambda *v: (H(*v), eq((Q(*v)[4] - Q(*v)[3]) * Q(*v)[1], Q(*v)[2] * Q(*v)[2])))
        k.algebra('foot: pythagoras at the target', t, lambda *v: (
            H(*v), eq((Q(*v)[5] - Q(*v)[3]) * Q(*v)[1], (Q(*v)[1] - Q(*v)[2]) * (Q(*v)[1] - Q(*v)[2]))))
        k.lemma('foot: distance', And(eq(fd * fd, fd2), fd >= 0, self.n >= 0, eq(self.n * self.n, self.dd)))
        k.algebra('foot: area and distance', [fd, self.n, self.area, fd2, self.dd], lambda d, n, a, F, D: (
            [eq(d * d, F), eq(n * n, D), eq(F * D, a * a), d >= 0, n >= 0], eq(d * n, abs_(a))))
        k.algebra('foot: not farther than the ends', [fd2, self.dd, self.S, self.T, self.dot], lambda F, D, S, T, P: (
            [eq((S - F) * D, P * P), eq((T - F) * D, (D - P) * (D - P)), D >= 0], Implies(D > 0, And(F <= S, F <= T))))
        k.lemma('foot: length', Iff(self.n > 0, self.dd > 0))
        k.algebra('foot: reach', [fd, self.n, self.area, self.r + k.eps], lambda d, n, a, b: (
            [eq(d * n, abs_(a)), n >= 0], Implies(n > 0, Iff(d < b, abs_(a) < b * n))))
        return fx, fy, fd

    def step(self, ux, uy):
        """the direction of (ux, uy) as the code scales it"""
        k = self.k
        vx, vy = k.vxy(k.call('Vector2::normalize', k.call('Vector2::new', ux, uy)))
        k.lemma('direction', And(eq(vx * self.n, ux), eq(vy * self.n, uy)))
        return vx, vy

    def on_circle(self, fx, fy, ix, iy, ux, uy, vx, vy, off):
        """(fx, fy) on the line through (ix, iy), foot of the centre: (fx, fy) + off (vx, vy) is on the circle and the line"""
        k = self.k
        k.algebra('chord: on the circle', [fx, fy, ix, iy, ux, uy, vx, vy, off, self.n, self.cx, self.cy, self.r],
                  lambda fx, fy, ix, iy, ux, uy, vx, vy, off, n, cx, cy, r: (
            [eq(ux * (cx - fx) + uy * (cy - fy), 0), eq(vx * n, ux), eq(vy * n, uy), eq(n * n, ux * ux + uy * uy), n > 0,
             eq(off * off, r * r - ((fx - cx) * (fx - cx) + (fy - cy) * (fy - cy)))],
            eq((fx + vx * off - cx) * (fx + vx * off - cx) + (fy + vy * off - cy) * (fy + vy * off - cy), r * r)))
        k.algebra('chord: on the line', [fx, fy, ix, iy, ux, uy, vx, vy, off, self.n], lambda fx, fy, ix, iy, ux, uy, vx, vy, off, n: (
            [eq(ux * (fy - iy), uy * (fx - ix)), eq(vx * n, ux), eq(vy * n, uy), n > 0],
            eq(ux * (fy + vy * off - iy), uy * (fx + vx * off - ix))))
        k.algebra('chord: along', [fx, fy, ix, iy, ux, uy, vx, vy, off, self.n], lambda fx, fy, ix, iy, ux, uy, vx, vy, off, n: (
            [eq(vx * n, ux), eq(vy * n, uy), eq(n * n, ux * ux + uy * uy), n > 0],
            eq(ux * (fx + vx * off - ix) + uy * (fy + vy * off - iy), ux * (fx - ix) + uy * (fy - iy) + off * n)))

    def chord_inside(self, ix, iy, ox, oy):
        """from the end inside the circle to the other one"""
        k, cx, cy, r = self.k, self.cx, self.cy, self.r
        ux, uy = ox - ix, oy - iy
        D, P = self.dd, ux * (cx - ix) + uy * (cy - iy)
        I_, O = (ix - cx) * (ix - cx) + (iy - cy) * (iy - cy), (ox - cx) * (ox - cx) + (oy - cy) * (oy - cy)
        k.lemma('length', And(self.n >= k.eps, eq(self.n * self.n, D), D > 0))
        b = k.div(P, D)
        k.lemma('quotient', eq(b * D, P))
        fx, fy = ix + ux * b, iy + uy * b
        k.algebra('chord: right angle', [ix, iy, ux, uy, b, cx, cy], lambda ix, iy, ux, uy, b, cx, cy: (
            [eq(b * (ux * ux + uy * uy), ux * (cx - ix) + uy * (cy - iy))],
            eq(ux * (cx - ix - ux * b) + uy * (cy - iy - uy * b), 0)))
        k.lemma('chord: same line', eq(ux * (fy - iy), uy * (fx - ix)))
        F = (fx - cx) * (fx - cx) + (fy - cy) * (fy - cy)
        k.algebra('chord: pythagoras', [ix, iy, ux, uy, b, cx, cy], lambda ix, iy, ux, uy, b, cx, cy: (
            [eq(b * (ux * ux + uy * uy), ux * (cx - ix) + uy * (cy - iy))],
            And(*[eq((ix - cx) * (ix - cx) + (iy - cy) * (iy - cy),
                     (ix + ux * b - cx) * (ix + ux * b - cx) + (iy + uy * b - cy) * (iy + uy * b - cy) + b * b * (ux * ux + uy * uy))])))
        di, do = (self.ds, self.dt) if ix is self.ax else (self.dt, self.ds)
        k.algebra('chord: inside', [di, I_, F, b, D, r, k.eps], lambda d, I_, F, b, D, r, eps: (
            [d <= r - eps, d >= 0, eps > 0, eq(d * d, I_), eq(I_, F + b * b * D), D > 0], And(I_ <= r * r, F <= r * r)))
        d = k.sqrt(F)
        k.lemma('distance', And(d >= 0, eq(d * d, F)))
        off = k.sqrt(r * r - d * d)
        k.lemma('offset', And(off >= 0, eq(off * off, r * r - F)))
        vx, vy = self.step(ux, uy)
        self.on_circle(fx, fy, ix, iy, ux, uy, vx, vy, off)
        self.outside(do, O)
        k.lemma('other end', eq(O, I_ + D - 2 * P))
        k.algebra('chord: between', [F, D, b, off, self.n, r, I_, O], lambda F, D, b, off, n, r, I_, O: (
            [eq(I_, F + b * b * D), I_ <= r * r, eq(off * off, r * r - F), off >= 0, n > 0, eq(n * n, D), eq(O, I_ + D - 2 * b * D)],
            And(b * D + off * n >= 0, Implies(O >= r * r, b * D + off * n <= D))))

    def outside(self, d, sq):
        k = self.k
        k.algebra('chord: outside', [d, sq, self.r, k.eps], lambda d, s, r, eps: (
            [d >= 0, eq(d * d, s), r > 0, eps > 0], And(Implies(d >= r + eps, s >= r * r), Implies(s >= (r - eps) * (r - eps), Or(r <= eps, d >= r - eps)))))
        k.lemma('chord: outside', Implies(d >= self.r + k.eps, sq >= self.r * self.r))

    def chord_through(self, fx, fy, fd):
        k, cx, cy, r, ux, uy = self.k, self.cx, self.cy, self.r, self.ux, self.uy
        if not k.case(fd <= r):
            return
        F = (fx - cx) * (fx - cx) + (fy - cy) * (fy - cy)
        off = k.sqrt(r * r - fd * fd)
        k.lemma('length', And(self.n >= k.eps, eq(self.n * self.n, self.dd), self.dd > 0))
        k.lemma('offset', And(off >= 0, eq(off * off, r * r - F)))
        vx, vy = self.step(ux, uy)
        for o in (off, -off):
            self.on_circle(fx, fy, self.ax, self.ay, ux, uy, vx, vy, o)
        self.outside(self.ds, self.S)
        self.outside(self.dt, self.T)
        k.algebra('chord: between', [F, self.dd, self.dot, off, self.n, r, self.S, self.T], lambda F, D, P, off, n, r, S, T: (
            [eq((S - F) * D, P * P), eq((T - F) * D, (D - P) * (D - P)), eq(off * off, r * r - F), off >= 0, n > 0, eq(n * n, D)],
            Implies(And(S >= r * r, T >= r * r, P >= 0, P <= D), And(P - off * n >= 0, P + off * n <= D))))


def hits(q, k):
    """the segment meets the circle, within the tolerance"""
    return Or(q.on_s, q.on_t, And(q.in_s, q.out_t), And(q.out_s, q.in_t),
              And(q.out_s, q.out_t, q.between, q.dd > 0, abs_(q.area) < (q.r + k.eps) * q.n))


@contract('is_line_segment_2_circle_segment_2_intersected', 'C15', args=seg_circ)
def seg_circ_is(k, s, o):
    q = SC(k, s, o)
    k.requires(q.clear)
    q.foot()
    k.ensure('true exactly when an end is on the circle, the ends are on different sides, or both are outside and the circle reaches the segment',
             Iff(k.result, hits(q, k)))


@contract('line_segment_2_circle_segment_2_intersection', 'C15', args=seg_circ)
def seg_circ_pts(k, s, o):
    q = SC(k, s, o)
    k.requires(q.clear)
    k.requires(q.n >= k.eps)
    foot = q.foot()
    if k.mode == 'prove':
        if k.case(And(q.in_s, q.in_t)):
            pass
        elif k.case(q.in_s):
            q.chord_inside(q.ax, q.ay, q.bx, q.by)
        elif k.case(q.in_t):
            q.chord_inside(q.bx, q.by, q.ax, q.ay)
        elif foot:
            q.chord_through(*foot)
    r = k.items(k.result)
    k.ensure('points exactly when the segment meets the circle', Iff(B(len(r) > 0), hits(q, k)))
    k.ensure('never more than two', B(len(r) <= 2))
    both_out, one_in = And(q.out_s, q.out_t), Or(And(q.in_s, q.out_t), And(q.out_s, q.in_t))
    k.ensure('one point when the ends are on different sides', Implies(one_in, B(len(r) == 1)))
    k.ensure('two points when both ends are outside and the circle clearly reaches the segment',
             Implies(And(both_out, q.between, q.dd > 0, abs_(q.area) <= (q.r - k.eps) * q.n), B(len(r) == 2)))
    k.lemma('length', And(q.n >= 0, eq(q.n * q.n, q.dd)))
    for p in r:
        x, y = k.xy(p)
        d2 = (x - q.cx) * (x - q.cx) + (y - q.cy) * (y - q.cy)
        d = k.sqrt(d2)
        k.algebra('distance to the centre', [d, d2, q.r], lambda d, e, r: ([d >= 0, r > 0, eq(d * d, e)], Implies(eq(e, r * r), eq(d, r))))
        along = q.ux * (x - q.ax) + q.uy * (y - q.ay)
        k.ensure('the point is on the line of the segment', eq(q.ux * (y - q.ay), q.uy * (x - q.ax)))
        k.ensure('the point is on the circle', abs_(d - q.r) < k.eps)
        k.ensure('the point is between the ends when both are clear of the circle',
                 Implies(Or(both_out, one_in), And(along >= 0, along <= q.dd)))
        k.ensure('the point lies from the inner end towards the other one',
                 And(Implies(And(q.in_s, Not(q.in_t)), along >= 0), Implies(And(q.in_t, Not(q.in_s)), along <= q.dd)))
        k.ensure('the point is on the circle exactly when it is clearly crossed',
                 Implies(Or(one_in, And(both_out, abs_(q.area) <= (q.r - k.eps) * q.n)), eq(d2, q.r * q.r)))


@lemma('a segment that meets a circle in a point is reported as intersecting it', 'C15')
def _(k):
    s, o, t = k.segment('s'), k.circle('o'), k.real('t')
    q = SC(k, s, o)
    k.assume(q.clear)
    k.assume(And(t >= 0, t <= 1))
    x, y = q.ax + t * q.ux, q.ay + t * q.uy
    k.assume(eq((x - q.cx) * (x - q.cx) + (y - q.cy) * (y - q.cy), q.r * q.r))
    k.lemma('source', eq(q.S, q.r * q.r + t * (2 * q.dot - t * q.dd)))
    k.lemma('target', eq(q.T, q.r * q.r + (1 - t) * (q.dd - 2 * q.dot + q.dd * t)))
    k.lemma('across', eq(q.area * q.area + (q.dot - t * q.dd) * (q.dot - t * q.dd), q.r * q.r * q.dd))
    k.lemma('lengths', And(q.dd >= 0, q.n >= 0, eq(q.n * q.n, q.dd), q.ds >= 0, q.dt >= 0, eq(q.ds * q.ds, q.S), eq(q.dt * q.dt, q.T), q.r > 0))
    for d, S in ((q.ds, q.S), (q.dt, q.T)):
        k.algebra('end', [d, S, q.r, k.eps], lambda d, S, r, eps: (
            [d >= 0, eq(d * d, S), r > 0, eps > 0], And(Implies(d <= r - eps, S < r * r), Implies(d >= r + eps, S > r * r))))
    k.algebra('not both inside', [t, q.S, q.T, q.dot, q.dd, q.r], lambda t, S, T, P, D, r: (
        [eq(S, r * r + t * (2 * P - t * D)), eq(T, r * r + (1 - t) * (D - 2 * P + D * t)), t >= 0, t <= 1, D >= 0],
        Not(And(S < r * r, T < r * r))))
    k.algebra('both outside', [t, q.S, q.T, q.dot, q.dd, q.r], lambda t, S, T, P, D, r: (
        [eq(S, r * r + t * (2 * P - t * D)), eq(T, r * r + (1 - t) * (D - 2 * P + D * t)), t >= 0, t <= 1, D >= 0],
        Implies(And(S > r * r, T > r * r), And(P > 0, P < D, D > 0))))
    k.algebra('reach', [q.area, q.dot - t * q.dd, q.r, q.dd, q.n, k.eps], lambda A, X, r, D, n, eps: (
        [eq(A * A + X * X, r * r * D), r > 0, n >= 0, eq(n * n, D), eps > 0], Implies(D > 0, abs_(A) < (r + eps) * n)))
    k.ensure('intersecting', B(k.call('is_line_segment_2_circle_segment_2_intersected', s, o)))


@lemma('the segment-circle predicate agrees with the points', 'C15')
def _(k):
    s, o = seg_circ(k)
    q = SC(k, s, o)
    k.assume(q.clear)
    k.assume(q.n >= k.eps)
    k.ensure('same verdict', Iff(k.call('is_line_segment_2_circle_segment_2_intersected', s, o),
                                 B(len(k.items(k.call('line_segment_2_circle_segment_2_intersection', s, o))) > 0)))
