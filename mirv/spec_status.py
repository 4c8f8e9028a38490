"""C26, C32: contracts on the functions the order of the sweep's status rests on, for line segments and arcs.
They are advisory: how these private functions share the work is no part of the property, so one that no longer holds makes the
bounded check search deeper (check.py) and is listed as not proved."""
from fractions import Fraction

from ctx import *
from spec_avl import fields
import spec_sweep
from spec_sweep import SW, sweep, origins, Points


def slope_args(k):
    return [k.point('p'), k.point('q')]


@contract('calculate_slope', 'C26', args=slope_args, proof_only=True, advisory=True)
def slope(k, p, q):
    (px, py), (qx, qy) = k.xy(p), k.xy(q)
    r = k.ip.deref(k.result)
    if r.var == NONE.var:
        k.ensure('vertical only when the ends have the same x', abs_(qx - px) < k.eps)
    else:
        k.ensure('a slope only when the ends have different x', abs_(qx - px) >= k.eps)
        k.ensure('the slope is rise over run', eq(r.f[0] * (qx - px), qy - py))


def curve(k, name):
    """what the sweep keeps in its status: a line segment or a monotone arc"""
    return k.arc(name) if k.choose(2, name + ' is an arc') else k.segment(name)


def value_args(k):
    return [curve(k, 's'), k.point('p')]


def height(k, s, p):
    """the height of an arc at the vertical line through a point; the point itself where it has none"""
    (cx, cy), r, (px, py) = k.cen(s), k.rad(s), k.xy(p)
    h2 = r * r - (px - cx) * (px - cx)
    h = k.sqrt(h2) if k.case(h2 > 0) else R(0)
    for y in (cy + h, cy - h):
        if k.case(B(k.call('is_point_2_on_arc_segment_2', k.call('Point2::new', px, y), s))):
            return y
    return py


@contract('calculate_segment_value', 'C26', args=value_args, proof_only=True, advisory=True, also=('C32',))
def value(k, s, p):
    if k.tyname(s) != 'LineSegment2':
        if k.mode == 'use':
            return k.result
        return k.ensure('the height of the arc above or below the sweep point', eq(k.result, height(k, s, p)))
    (sx, sy), (tx, ty), (px, py) = k.src(s), k.tgt(s), k.xy(p)
    r = k.result
    if k.case(abs_(tx - sx) < k.eps):
        return k.ensure('a vertical segment is met at the point itself', eq(r, py))
    k.ensure('the point of the segment above or below the sweep point', eq((r - sy) * (tx - sx), (px - sx) * (ty - sy)))


def tangent(k, s, p, y):
    """the slope of a curve where it meets the vertical line through p"""
    if k.tyname(s) == 'LineSegment2':
        (ax, ay), (bx, by) = k.src(s), k.tgt(s)
        dx, dy = bx - ax, by - ay
    else:
        (cx, cy), (px, _) = k.cen(s), k.xy(p)
        dx, dy = y - cy, cx - px
    if k.case(abs_(dx) < k.eps):
        return None
    m = k.fresh('slope')
    k.assume(eq(m * dx, dy))
    return m


def tangent_args(k):
    return [k.point('c'), k.point('p')]


@contract('calculate_tangent_slope', 'C32', args=tangent_args, proof_only=True, advisory=True)
def tangent_slope(k, c, p):
    (cx, cy), (px, py) = k.xy(c), k.xy(p)
    r = k.ip.deref(k.result)
    if r.var == NONE.var:
        k.ensure('a vertical tangent only level with the centre', abs_(py - cy) < k.eps)
    else:
        k.ensure('a slope only above or below the centre', abs_(py - cy) >= k.eps)
        k.ensure('the tangent is at a right angle to the radius', eq(r.f[0] * (py - cy), cx - px))


@contract('get_target_of_segment', 'C32', args=lambda k: [curve(k, 's')], proof_only=True, advisory=True)
def last_point(k, s):
    q = k.result
    top = k.tyname(s) != 'LineSegment2' and k.case(B(k.call('ArcSegment2::is_top', s)))
    (x, y), (u, v) = k.xy(q), k.xy(k.acc(s, 'source' if top else 'target'))
    k.ensure('the end the sweep comes to last', And(eq(x, u), eq(y, v)))


@contract('calculate_mid_value', 'C32', args=lambda k: [curve(k, 's'), curve(k, 'u'), k.point('p')], proof_only=True, advisory=True)
def mid_value(k, s, u, p):
    if k.mode == 'use':
        return k.result
    a, b = k.call('get_target_of_segment', s), k.call('get_target_of_segment', u)
    first = k.ip.deref(k.call('<Point2 as Ord>::cmp', a, b))
    (x, y), (px, py) = k.xy(a if first.var == 1 else b), k.xy(p)
    m = k.call('Point2::new', mul(x + px, R(Fraction(1, 2))), mul(y + py, R(Fraction(1, 2))))
    v, w = k.ip.deref(k.result)
    k.ensure('the heights of both half way to where the first of them ends',
             And(eq(v, k.call('calculate_segment_value', s, m)), eq(w, k.call('calculate_segment_value', u, m))))


def status_args(k):
    return [curve(k, 's'), curve(k, 'u'), k.point('p')]


@contract('compare_segments', 'C26', args=status_args, proof_only=True, advisory=True, also=('C32',))
def status(k, s, u, p):
    if k.mode == 'use':
        raise NotApplicable()
    r = k.ip.deref(k.result)
    if (k.tyname(s), k.tyname(u)) != ('LineSegment2', 'LineSegment2'):
        v, w = k.call('calculate_segment_value', s, p), k.call('calculate_segment_value', u, p)
        if k.case(abs_(v - w) >= k.eps):
            k.ensure('the curve met lower comes first', And(Iff(B(r.var == -1), v < w), Iff(B(r.var == 1), v > w)))
        else:
            m, n = tangent(k, s, p, v), tangent(k, u, p, w)
            if m is not None and n is not None and k.case(abs_(m - n) >= k.eps):
                k.ensure('of two curves that meet here the one with the smaller slope comes first', And(Iff(B(r.var == -1), m < n), Iff(B(r.var == 1), m > n)))
            elif m is not None or n is not None:
                if m is None or n is None:
                    k.ensure('of two curves that meet here a vertical one comes last', And(Iff(B(r.var == -1), B(n is None)), Iff(B(r.var == 1), B(m is None))))
        return
    (ax, ay), (bx, by), (cx, cy), (dx, dy), (px, py) = k.src(s), k.tgt(s), k.src(u), k.tgt(u), k.xy(p)
    less, more = B(r.var == -1), B(r.var == 1)
    va, vb = k.case(abs_(bx - ax) < k.eps), k.case(abs_(dx - cx) < k.eps)

    def met(vertical, sx, sy, dx, dy):
        if vertical:
            return None, py
        m, v = k.fresh('slope'), k.fresh('met')
        k.assume(And(eq(m * dx, dy), eq((v - sy) * dx, (px - sx) * dy)))
        return m, v
    m, v = met(va, ax, ay, bx - ax, by - ay)
    n, w = met(vb, cx, cy, dx - cx, dy - cy)
    if k.case(abs_(v - w) >= k.eps):
        return k.ensure('the segment met lower comes first', And(Iff(less, v < w), Iff(more, v > w)))
    if va != vb:
        return k.ensure('of two segments that meet here a vertical one comes last', And(Iff(less, B(vb)), Iff(more, B(va))))
    if not va:
        if k.case(abs_(m - n) >= k.eps):
            k.ensure('of two segments that meet here the less steep one comes first', And(Iff(less, m < n), Iff(more, m > n)))


class Queue(Points):
    """the event queue, keeping what is pushed"""

    def __init__(self, k):
        self.k = k
        self.pushed = []

    def heap(self, ip, r, m, args):
        if m != 'push':
            raise Unsupported('BinaryHeap::' + m)
        self.pushed.append(args[1])
        return UNIT


def event_args(k):
    S = origins(k)
    k.h['self'] = w = sweep(k, S)
    i = fields(k, SW).index('event_queue')
    k.h['queue'] = q = Queue(k)
    w.v = Adt(SW, 0, [Adt('PriorityQueue', 0, (Adt('BinaryHeap', 0, (q,)),)) if n == i else x for n, x in enumerate(w.v.f)])
    segs = [Adt(spec_sweep.NODE, k.ip.p.variant(spec_sweep.NODE, 'LineSegment2'), [k.segment(n)]) for n in ('a', 'b')]
    k.h['met'] = [k.point('met%d' % n) for n in range(k.choose(3, 'number of points in common'))]
    k.h['asked'] = []

    def call(fn):
        if fn.key != 'segment_2_segment_2_intersection':
            return None

        def common(ip, f, a):
            k.h['asked'].append([ip.deref(x) for x in a])
            return Seq(list(k.h['met']))
        return common
    k.run.h['outside'] = call
    return [Ref(w), Ref(Cell(segs[0])), Ref(Cell(segs[1])), k.point('p')]


@contract(SW + '::find_intersection_points', 'C26', args=event_args, stateful=True, proof_only=True, advisory=True,
          assumes=('the points two segments have in common: property C14',))
def events(k, w, a, b, p):
    if k.mode == 'use':
        raise Unsupported('finding events in use')
    k.result
    asked = k.h['asked']
    k.ensure('the common points of the two segments are asked for, once', B(len(asked) == 1))
    ab = [k.ip.deref(k.ip.deref(x).f[0]) for x in (a, b)]
    for x, y in zip(asked[0], ab):
        (x0, x1), (y0, y1) = ((k.src(z), k.tgt(z)) for z in (x, y))
        k.ensure('of the two segments given', And(*[eq(c, d) for c, d in zip(x0 + x1, y0 + y1)]))
    (px, py) = k.xy(p)
    got = [k.xy(q) for q in k.h['queue'].pushed]
    for q in k.h['met']:
        qx, qy = k.xy(q)
        here = Or(*[And(eq(x, qx), eq(y, qy)) for x, y in got])
        k.ensure('a common point the sweep has not passed becomes an event',
                 Implies(Or(qx > px, And(abs_(qx - px) < k.eps, qy > py)), here))
