"""C14, C19: intersections of segments, rays and lines."""
from ctx import *
from spec_points import cross3
from spec_loc import seg_terms, ray_terms


def two_segs(k):
    return [k.segment('s'), k.segment('u')]


def on_cond(k, p, s):
    area, dot, dd = seg_terms(k, p, s)
    return And(abs_(area) <= k.eps, dot >= -k.eps, dot <= dd + k.eps)


def ends(k, s, u):
    """[(endpoint, whether it is on the other segment)]"""
    a, b, c, d = k.acc(s, 'source'), k.acc(s, 'target'), k.acc(u, 'source'), k.acc(u, 'target')
    return [(a, on_cond(k, a, u)), (b, on_cond(k, b, u)), (c, on_cond(k, c, s)), (d, on_cond(k, d, s))]


def crosses(k, s, u):
    a, b, c, d = k.acc(s, 'source'), k.acc(s, 'target'), k.acc(u, 'source'), k.acc(u, 'target')
    return And(cross3(k, a, b, c) * cross3(k, a, b, d) < 0, cross3(k, c, d, a) * cross3(k, c, d, b) < 0)


@contract('is_line_segment_2_line_segment_2_intersected', 'C14', args=two_segs)
def seg_seg_is(k, s, u):
    k.ensure('true exactly when an end of one is on the other or they cross',
             Iff(k.result, Or(*[o for _, o in ends(k, s, u)], crosses(k, s, u))))


def close(k, p, x, y):
    px, py = k.xy(p)
    return (px - x) * (px - x) + (py - y) * (py - y) < k.eps * k.eps


@contract('line_segment_2_line_segment_2_intersection', 'C14', args=two_segs, sort='perm')
def seg_seg(k, s, u):
    E = ends(k, s, u)
    touch = Or(*[o for _, o in E])
    r = k.items(k.result)
    k.ensure('a point exactly when an end of one is on the other or they cross', Iff(B(len(r) > 0), Or(touch, crosses(k, s, u))))
    (ax, ay), (bx, by), (cx, cy), (dx, dy) = k.src(s), k.tgt(s), k.src(u), k.tgt(u)
    for p in r:
        x, y = k.xy(p)
        ex = [k.xy(e) for e, _ in E]
        k.ensure('a reported point is an end on the other segment or on both lines exactly',
                 Or(*[And(o, eq(x, e[0]), eq(y, e[1])) for (_, o), e in zip(E, ex)],
                    And(Not(touch), eq((bx - ax) * (y - ay), (by - ay) * (x - ax)), eq((dx - cx) * (y - cy), (dy - cy) * (x - cx)))))
    k.ensure('a crossing gives one point', Implies(And(Not(touch), crosses(k, s, u)), B(len(r) == 1)))
    for e, o in E:
        x, y = k.xy(e)
        k.ensure('every end on the other segment is reported', Implies(o, Or(*[close(k, p, x, y) for p in r])))


@lemma('segment intersection does not depend on the order of the segments', 'C14')
def _(k):
    s, u = two_segs(k)
    r, v = (k.call('is_line_segment_2_line_segment_2_intersected', *x) for x in ((s, u), (u, s)))
    k.ensure('same verdict', Iff(r, v))


@lemma('segments that share a point are reported as intersecting', 'C14')
def _(k):
    s, u = two_segs(k)
    t, w = k.real('t'), k.real('w')
    k.assume(And(t >= 0, t <= 1, w >= 0, w <= 1))
    (ax, ay), (bx, by), (cx, cy), (dx, dy) = k.src(s), k.tgt(s), k.src(u), k.tgt(u)
    px, py = ax + t * (bx - ax), ay + t * (by - ay)
    k.assume(And(eq(px, cx + w * (dx - cx)), eq(py, cy + w * (dy - cy))))
    a, b, c, d = k.acc(s, 'source'), k.acc(s, 'target'), k.acc(u, 'source'), k.acc(u, 'target')
    abc, abd, cda, cdb = cross3(k, a, b, c), cross3(k, a, b, d), cross3(k, c, d, a), cross3(k, c, d, b)
    goal = B(k.call('is_line_segment_2_line_segment_2_intersected', s, u))

    def at(e, seg, lam):
        """e = source + lam (target - source), 0 <= lam <= 1, is on the segment"""
        (x0, y0), (x1, y1), (ex, ey) = k.src(seg), k.tgt(seg), k.xy(e)
        area, dot, dd = seg_terms(k, e, seg)
        k.lemma('no area', eq(area, 0))
        k.lemma('along', eq(dot, lam * dd))
        k.lemma('square', dd >= 0)
        k.lemma('bounds', And(lam * dd >= 0, lam * dd <= dd))
        k.ensure('intersecting', goal)
    if k.case(eq(w, 0)):
        return at(c, s, t)
    if k.case(eq(w, 1)):
        return at(d, s, t)
    if k.case(eq(t, 0)):
        return at(a, u, w)
    if k.case(eq(t, 1)):
        return at(b, u, w)
    k.lemma('weights on the first line', eq((1 - w) * abc + w * abd, 0))
    k.lemma('weights on the second line', eq((1 - t) * cda + t * cdb, 0))
    dd = (bx - ax) * (bx - ax) + (by - ay) * (by - ay)
    ee = (dx - cx) * (dx - cx) + (dy - cy) * (dy - cy)
    pc = (cx - ax) * (bx - ax) + (cy - ay) * (by - ay)
    pd = (dx - ax) * (bx - ax) + (dy - ay) * (by - ay)
    if k.case(Or(eq(abc, 0), eq(cda, 0))):
        if k.case(eq(dd, 0)):
            k.lemma('no length', And(eq(ax, bx), eq(ay, by)))
            return at(a, u, w)
        if k.case(eq(ee, 0)):
            k.lemma('no length', And(eq(cx, dx), eq(cy, dy)))
            return at(c, s, t)
        k.lemma('parallel', eq((bx - ax) * (dy - cy) - (by - ay) * (dx - cx), 0))
        k.lemma('no area c', eq(abc, 0))
        k.lemma('no area d', eq(abd, 0))
        k.lemma('no area a', eq(cda, 0))
        k.lemma('no area b', eq(cdb, 0))
        k.lemma('shared point along the first', eq(t * dd, pc + w * (pd - pc)))
        for e, x, y, p in ((c, cx, cy, pc), (d, dx, dy, pd)):
            if k.case(And(p >= 0, p <= dd)):
                return k.ensure('intersecting', goal)
        k.lemma('a between', pc * pd < 0)
        qa = (ax - cx) * (dx - cx) + (ay - cy) * (dy - cy)
        k.lemma('product', eq(qa * dd, -pc * (pd - pc)))
        k.lemma('length', eq(ee * dd, (pd - pc) * (pd - pc)))
        k.algebra('a on the second', [qa, dd, ee, pc, pd], lambda qa, dd, ee, pc, pd: (
            [eq(qa * dd, -pc * (pd - pc)), eq(ee * dd, (pd - pc) * (pd - pc)), pc * pd < 0, dd > 0], And(qa >= 0, qa <= ee)))
        return k.ensure('intersecting', goal)
    k.lemma('c and d apart', abc * abd < 0)
    k.lemma('a and b apart', cda * cdb < 0)
    k.ensure('intersecting', goal)
