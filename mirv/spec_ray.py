"""C19: intersections of rays with lines and segments."""
from ctx import *
from spec_loc import ray_terms


def ray_parts(k, r):
    return k.xy(k.call('Ray2::origin', r)) + k.vxy(k.call('Ray2::direction', r))


@contract('line_2_ray_2_intersection', 'C19')
def line_ray(k, l, r):
    (a, b, c), (ox, oy, dx, dy) = k.abc(l), ray_parts(k, r)
    # the line of the ray is rebuilt from two points of it, which is exact unless a component is lost to the tolerance
    k.requires(And(Or(eq(dx, 0), abs_(dx) >= k.eps), Or(eq(dy, 0), abs_(dy) >= k.eps), Or(Not(eq(dx, 0)), Not(eq(dy, 0)))))
    rate, off = a * dx + b * dy, a * ox + b * oy + c
    v = k.opt(k.result)
    big = ite(abs_(dx) >= abs_(dy), abs_(dx), abs_(dy))
    if v is None:
        k.ensure('nothing only when parallel or met behind the origin', Or(abs_(rate) < k.eps * big, off * rate >= 0))
        return
    x, y = k.xy(v)
    cross, on = ray_terms(k, v, r)
    k.ensure('the point is on the line', eq(a * x + b * y + c, 0))
    k.ensure('the point is on the line of the ray', eq(dx * (y - oy), dy * (x - ox)))
    k.ensure('the point is on the ray', on)
    k.ensure('not parallel', Not(eq(rate, 0)))


@contract('is_line_2_ray_2_intersected', 'C19')
def line_ray_is(k, l, r):
    v = k.result
    if k.mode == 'use':
        return
    k.ensure('true exactly when there is a point', Iff(v, B(k.opt(k.call('line_2_ray_2_intersection', l, r)) is not None)))


class SR:
    def __init__(self, k, s, r):
        (self.sx, self.sy), (self.tx, self.ty) = k.src(s), k.tgt(s)
        self.ox, self.oy, self.dx, self.dy = ray_parts(k, r)
        self.cs, self.on_s = ray_terms(k, k.acc(s, 'source'), r)
        self.ct, self.on_t = ray_terms(k, k.acc(s, 'target'), r)
        vx, vy = self.tx - self.sx, self.ty - self.sy
        self.vx, self.vy = vx, vy
        self.c1 = vx * (self.oy - self.sy) - vy * (self.ox - self.sx)
        self.g = vx * self.dy - vy * self.dx
        self.opposite = Or(And(self.cs > k.eps, self.ct < -k.eps), And(self.cs < -k.eps, self.ct > k.eps))
        self.crosses = And(Not(self.on_s), Not(self.on_t), self.opposite, self.c1 * self.g <= 0)


@contract('line_segment_2_ray_2_intersection', 'C19')
def seg_ray(k, s, r):
    q = SR(k, s, r)
    if k.mode == 'prove':
        k.lemma('sides', eq(q.ct - q.cs, -q.g))
        if k.case(q.opposite):
            k.lemma('not parallel', Not(eq(q.g, 0)))
            t = k.div(q.c1, -q.g)
            k.algebra('sense', [t, q.c1, q.g], lambda t, c, g: ([eq(t * -g, c), Not(eq(g, 0))], Iff(t >= 0, c * g <= 0)))
            dd = q.dx * q.dx + q.dy * q.dy
            k.algebra('ahead', [t, dd], lambda t, d: ([d >= 0], Implies(t >= 0, t * d >= 0)))
    v = k.items(k.result)
    k.ensure('a point exactly when an end is on the ray or the segment crosses it', Iff(B(len(v) > 0), Or(q.on_s, q.on_t, q.crosses)))
    k.ensure('the ends on the ray, in order',
             And(Implies(And(q.on_s, q.on_t), B(len(v) == 2)), Implies(Or(Not(q.on_s), Not(q.on_t)), B(len(v) <= 1))))
    for i, p in enumerate(v):
        x, y = k.xy(p)
        k.ensure('a reported point is an end on the ray or the crossing', Or(
            And(q.on_s, eq(x, q.sx), eq(y, q.sy)), And(q.on_t, eq(x, q.tx), eq(y, q.ty)),
            And(q.crosses, eq(q.dx * (y - q.oy), q.dy * (x - q.ox)), eq(q.vx * (y - q.sy), q.vy * (x - q.sx)))))
        ahead = q.dx * (x - q.ox) + q.dy * (y - q.oy)
        k.ensure('a crossing is not behind the origin', Implies(q.crosses, ahead >= 0))
    if len(v) == 2:
        (x, y), (z, w) = k.xy(v[0]), k.xy(v[1])
        k.ensure('source first', And(eq(x, q.sx), eq(y, q.sy), eq(z, q.tx), eq(w, q.ty)))


@contract('is_line_segment_2_ray_2_intersected', 'C19')
def seg_ray_is(k, s, r):
    q = SR(k, s, r)
    k.ensure('true exactly when an end is on the ray or the segment crosses it', Iff(k.result, Or(q.on_s, q.on_t, q.crosses)))


@lemma('a ray that meets a segment between its ends is reported', 'C19')
def _(k):
    s, r = k.segment('s'), k.ray('r')
    q = SR(k, s, r)
    lam, w = k.real('l'), k.real('w')
    k.assume(And(lam >= 0, w >= 0, w <= 1, abs_(q.cs) > k.eps, abs_(q.ct) > k.eps))
    k.assume(And(eq(q.sx + w * q.vx, q.ox + lam * q.dx), eq(q.sy + w * q.vy, q.oy + lam * q.dy)))
    k.lemma('sides', eq(q.ct - q.cs, -q.g))
    k.lemma('weights', eq((1 - w) * q.cs + w * q.ct, 0))
    k.lemma('ahead', eq(q.c1, -lam * q.g))
    k.algebra('opposite sides', [w, q.cs, q.ct, k.eps], lambda w, a, b, e: (
        [eq((1 - w) * a + w * b, 0), w >= 0, w <= 1, e > 0, abs_(a) > e, abs_(b) > e], Or(And(a > e, b < -e), And(a < -e, b > e))))
    k.algebra('not behind', [q.c1, q.g, lam], lambda c, g, l: ([eq(c, -l * g), l >= 0], c * g <= 0))
    k.ensure('reported', B(k.call('is_line_segment_2_ray_2_intersected', s, r)))
