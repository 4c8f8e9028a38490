"""C28: contracts on the classification of a vertex by the ear clipping, for polygons of any number of vertices.
They are advisory: how these private functions share the work is no part of the property."""
from ctx import *
from ctx import canon
from spec_sweep import numbers
from spec_poly import wrap

ASSUME = ('the orientation of a triangle and where a point is with respect to it are functions of the arguments (what they are: property C11)',)


def clockwise(k, *pts):
    a = [x for p in pts for x in numbers(k, p, [])]
    return app(fnsym('triangle is clockwise', ('R',) * 6, 'B'), *a)


def apart(k, p, *pts):
    a = [x for q in (p,) + pts for x in numbers(k, q, [])]
    return app(fnsym('point is outside the triangle', ('R',) * 8, 'B'), *a)


def corners(k, t):
    t = k.ip.deref(t)
    return [k.field(t, m) for m in 'abc']


def model(k):
    def call(fn):
        if fn.key == 'Triangle2::orientation':
            return lambda ip, f, a: k.enum('Orientation', 'Clockwise' if k.run.decide(clockwise(k, *corners(k, a[0]))) else 'CounterClockwise')
        if fn.key == 'locate_point_2_triangle_2':
            def where(ip, f, a):
                if k.run.decide(apart(k, a[0], *corners(k, a[1]))):
                    return k.enum('Point2Triangle2Location', 'Outside')
                other = [v for v, _ in k.ip.p.decls[k.ip.p.ty('Point2Triangle2Location')].variants if v != 'Outside']
                return k.enum('Point2Triangle2Location', other[k.run.choose(len(other))])
            return where
        return None
    k.run.h['outside'] = call


def init_args(k):
    ps = k.points('v', 3)
    k.h['ps'], k.h['n'] = ps, ps.n
    i = k.h['i'] = k.index('index', 0, ps.n)
    model(k)
    return [Ref(Cell(ps)), i]


def ring(k):
    ps, n, i = k.h['ps'], k.h['n'], k.h['i']
    prev, nxt = ite(eq(i, 0), n - 1, i - 1), wrap(I(i) + 1, n)
    return prev, nxt, [ps.at(j) for j in (prev, I(i), nxt)]


def in_the_way(k, q):
    """another vertex in the triangle at the vertex"""
    prev, nxt, tri = ring(k)
    return And(Not(eq(q, k.h['i'])), Not(eq(q, prev)), Not(eq(q, nxt)), Not(apart(k, k.h['ps'].at(q), *tri)))


@contract('init_vertex_type', 'C28', args=init_args, stateful=True, proof_only=True, advisory=True, assumes=ASSUME)
def init_type(k, ps, i):
    if k.mode == 'use':
        raise Unsupported('the type of a vertex in use')
    n = k.h['n']
    r = k.ip.deref(k.result)
    q = k.index('q', 0, n)
    k.ensure('a vertex is reflex exactly when its triangle is clockwise', Iff(k.isv(r, 'Reflex'), clockwise(k, *ring(k)[2])))
    k.ensure('an ear holds no other vertex', Implies(k.isv(r, 'Ear'), Not(in_the_way(k, q))))
    if k.isv(r, 'Convex') is TRUE:
        t = k.h['t']
        k.ensure('a convex vertex that is no ear has another one in its triangle', And(le(0, t), lt(t, n), in_the_way(k, t)))


@loop('init_vertex_type', 0, total=1)
def init_inv(st):
    k = st.c
    i = I(st.iter().f[0])
    if st.phase == 'assume':
        k.h['t'] = i
    st.run.note_index(i)
    st.inv('counted', And(le(0, i), le(i, k.h['n'])))
    st.inv_forall('no vertex so far is in the triangle', 0, i, lambda q: Not(in_the_way(k, q)))


@lemma('a polygon that is not simple is not cut up', 'C28', advisory=True, assumes=('whether a polygon is simple is a function of it (what it is: property C27)',))
def _(k):
    pg, ps = k.polygon('v', 3)
    simple = k.flag('simple')

    def call(fn):
        if fn.key == 'Polygon2::is_simple':
            return lambda ip, f, a: simple
        if fn.key.startswith(('Polygon2::', 'CircularDoubleLinkedList::')):
            raise Unsupported('what is done with the polygon')
        return None
    k.run.h['outside'] = call
    k.assume(Not(B(simple)))
    panics, _ = k.may_panic('earcut_2', pg)
    k.ensure('the call panics', B(panics))
