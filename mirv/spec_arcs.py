"""C17: intersections with arcs."""
from ctx import *
from spec_circ import SC


def same(k, p, q):
    (a, b), (c, d) = k.xy(p), k.xy(q)
    return And(eq(a, c), eq(b, d))


def close(k, p, q):
    (a, b), (c, d) = k.xy(p), k.xy(q)
    return (a - c) * (a - c) + (b - d) * (b - d) < k.eps * k.eps


def support(k, g):
    return k.call('CircleSegment2::new', k.acc(g, 'center'), k.acc(g, 'radius'))


def on_arc(k, p, g):
    return B(k.call('is_point_2_on_arc_segment_2', p, g))


def filtered(k, P, keep, r):
    """r holds exactly the points of P with keep, in order"""
    conds = [keep(p) for p in P]
    for p in r:
        k.ensure('every reported point is a common point of the curves and on every arc involved',
                 Or(*[And(c, same(k, p, q)) for q, c in zip(P, conds)]))
    for q, c in zip(P, conds):
        k.ensure('every common point of the curves that is on every arc involved is reported', Implies(c, Or(*[same(k, p, q) for p in r])))
    k.ensure('no more points than the curves have', B(len(r) <= len(P)))
    return conds


def seg_arc_args(k):
    return [k.segment('s'), k.arc('g')]


def circ_arc_args(k):
    return [k.circle('q'), k.arc('g')]


def arc_arc_args(k):
    return [k.arc('g'), k.arc('h')]


@contract('line_segment_2_arc_segment_2_intersection', 'C17', args=seg_arc_args, maxlen=2)
def seg_arc(k, s, g):
    q = SC(k, s, support(k, g))
    k.requires(q.clear)
    k.requires(q.n >= k.eps)
    P = k.items(k.call('line_segment_2_circle_segment_2_intersection', s, support(k, g)))
    filtered(k, P, lambda p: on_arc(k, p, g), k.items(k.result))


@contract('circle_segment_2_arc_segment_2_intersection', 'C17', args=circ_arc_args, maxlen=2)
def circ_arc(k, q, g):
    P = k.items(k.call('circle_segment_2_circle_segment_2_intersection', support(k, g), q))
    filtered(k, P, lambda p: And(on_arc(k, p, g), B(k.call('is_point_2_on_circle_segment_2', p, q))), k.items(k.result))


@contract('arc_segment_2_arc_segment_2_intersection', 'C17', args=arc_arc_args, sort='perm', maxlen=4)
def arc_arc(k, g, h):
    P = k.items(k.call('circle_segment_2_circle_segment_2_intersection', support(k, g), support(k, h)))
    r = k.items(k.result)
    if P:
        filtered(k, P, lambda p: And(on_arc(k, p, g), on_arc(k, p, h)), r)
        return
    E = [(k.acc(a, m), b) for a, b in ((g, h), (h, g)) for m in ('source', 'target')]
    conds = [on_arc(k, e, b) for e, b in E]
    k.ensure('arcs of one circle: a point exactly when an end of one is on the other', Iff(B(len(r) > 0), Or(*conds)))
    for p in r:
        k.ensure('arcs of one circle: every reported point is an end on the other arc', Or(*[And(c, same(k, p, e)) for (e, _), c in zip(E, conds)]))
    for (e, _), c in zip(E, conds):
        k.ensure('arcs of one circle: every end on the other arc is reported', Implies(c, Or(*[close(k, p, e) for p in r])))


def nonempty(f, args):
    def body(k, a, b):
        if f.startswith('line'):
            q = SC(k, a, support(k, b))
            k.requires(q.clear)
            k.requires(q.n >= k.eps)
        v = k.result
        k.ensure('true exactly when there is a common point', Iff(v, B(len(k.items(k.call(f, a, b))) > 0)))
    return body


for n, args in (('line_segment_2_arc_segment_2', seg_arc_args), ('circle_segment_2_arc_segment_2', circ_arc_args), ('arc_segment_2_arc_segment_2', arc_arc_args)):
    contract('is_%s_intersected' % n, 'C17', args=args, maxlen=2)(nonempty(n + '_intersection', args))
