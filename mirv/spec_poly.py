"""C12, C13: polygons of any number of vertices."""
from ctx import *
from spec_points import cross3


# ---------------------------------------------------------------- C12
def poly_args(lo):
    def f(k):
        pg, ps = k.polygon('v', lo)
        k.ps = ps
        return [pg]
    return f


def wrap(i, n):
    return ite(lt(I(i), I(n)), I(i), I(i) - I(n))


@lemma('a polygon keeps its vertices and its edges join consecutive vertices', 'C12')
def _(k):
    pg, ps = k.polygon('v', 1)
    n = k.length(ps)
    i = k.index('i', 0, n)
    vs, es = k.call('Polygon2::vertices', pg), k.call('Polygon2::edges', pg)
    k.ensure('as many vertices', eq(k.length(vs), n))
    k.ensure('as many edges as vertices', eq(k.length(es), n))
    (x, y), (nx, ny) = k.pxy(ps, i), k.pxy(ps, wrap(I(i) + 1, n))
    vx, vy = k.xy(k.at(vs, i))
    k.ensure('vertices in order', And(eq(vx, x), eq(vy, y)))
    e = k.at(es, i)
    (sx, sy), (tx, ty) = k.src(e), k.tgt(e)
    k.ensure('the edge starts at its vertex', And(eq(sx, x), eq(sy, y)))
    k.ensure('the edge ends at the next vertex', And(eq(tx, nx), eq(ty, ny)))


def det(k, ps, i, j):
    (ax, ay), (bx, by) = k.pxy(ps, i), k.pxy(ps, j)
    return ax * by - ay * bx


@contract('Polygon2::area', 'C12', args=poly_args(0), unroll=5)
def area(k, pg):
    if k.mode == 'use':
        raise Unsupported('area of a polygon in a proof')
    ps = k.ps
    n = k.length(ps)
    if k.case(lt(I(n), I(3))):
        k.ensure('fewer than three vertices enclose nothing', eq(k.result, 0))
        return
    S = k.running('shoelace', I(n) - 1, 0, lambda i, v: v + det(k, ps, i, I(i) + 1))
    r = k.result
    k.note(I(n) - 1)
    k.ensure('half the sum of the cross products of consecutive vertices', eq(2 * r, S(I(n) - 1) + det(k, ps, I(n) - 1, 0)))


@loop('Polygon2::area', 0, total=1, portable=True)
def area_inv(st):
    S, ps, i = st.unit_ghost('shoelace'), st.c.ps, st.iter().f[0]
    st.inv('the area so far is that of the fan up to the current vertex', eq(2 * st.var('area', '^T$'), S(i) + det(st.c, ps, i, 0)))


def turn3(k, ps, n, i):
    return cross3(k, *[k.at(ps, wrap(I(i) + d, n)) for d in range(3)])


@contract('Polygon2::is_convex', 'C12', args=poly_args(3), unroll=5)
def is_convex(k, pg):
    if k.mode == 'use':
        raise Unsupported('convexity in a proof')
    ps = k.ps
    n = k.length(ps)
    i, j = k.index('i', 0, n), k.index('j', 0, n)
    left = lambda q: turn3(k, ps, n, q) >= k.eps
    right = lambda q: turn3(k, ps, n, q) <= -k.eps
    r = B(k.result)
    k.ensure('convex only when no two corners turn in opposite directions', Implies(r, Not(And(left(i), right(j)))))
    if k.case(r):
        return
    k.exists('not convex only when some corner turns left', 0, n, left)
    k.exists('not convex only when some corner turns right', 0, n, right)


def any_turn(st, v):
    ty = 'TurnDirection'
    i = st.run.choose(3)
    return NONE if i == 0 else some(st.c.enum(st.c.ip.p.ty(ty), ('Left', 'Right')[i - 1]))


@loop('Polygon2::is_convex', 0, total=1, portable=True, havoc={'<type>^std::option::Option<.*TurnDirection>$': any_turn})
def convex_inv(st):
    c, ps = st.c, st.c.ps
    n = c.length(ps)
    i = st.iter().f[0]
    prev = force(st.by_type('^std::option::Option<.*TurnDirection>$').v)
    ar = lambda q: turn3(c, ps, n, q)
    st.run.note_index(i)
    if prev.var == 0:
        st.inv_forall('no turn yet: all corners so far are collinear', 0, i, lambda q: abs_(ar(q)) < c.eps)
        return
    d = c.ip.deref(prev.f[0])
    if st.phase == 'assume':
        w = st.run.fresh('witness', 'I')
        st.run.note_index(w)
    st.inv('the remembered turn is not collinear', Not(c.isv(d, 'Collinear')))
    good = (lambda q: ar(q) >= c.eps) if c.isv(d, 'Left') is TRUE else (lambda q: ar(q) <= -c.eps)
    if st.phase == 'assume':
        st.inv('some corner so far has the remembered turn', And(le(0, w), lt(w, i), good(w)))
    else:
        idx = list(st.run.indices.values())
        st.inv('some corner so far has the remembered turn', Or(*[And(le(0, q), lt(q, i), good(q)) for q in idx]))
    st.inv_forall('all corners so far are collinear or have the remembered turn', 0, i, lambda q: Or(abs_(ar(q)) < c.eps, good(q)))


# ---------------------------------------------------------------- C13
def loc_args(k):
    p = k.point('p')
    pg, ps = k.polygon('v', 1)
    k.ps, k.p = ps, p
    return [p, pg]


def edge_terms(k, p, ps, n, i):
    (px, py), (ax, ay), (bx, by) = k.xy(p), k.pxy(ps, i), k.pxy(ps, wrap(I(i) + 1, n))
    area = (bx - ax) * (py - ay) - (by - ay) * (px - ax)
    dot = (bx - ax) * (px - ax) + (by - ay) * (py - ay)
    dd = (bx - ax) * (bx - ax) + (by - ay) * (by - ay)
    on = And(abs_(area) <= k.eps, dot >= -k.eps, dot <= dd + k.eps)
    up, down = And(by > py, Not(ay > py)), And(ay > py, Not(by > py))
    return area, on, up, down


def poly_loc(k, p, pg, verdict, on, inside, outside):
    """verdict: run the function; on/inside/outside: its result as conditions"""
    ps = k.ps
    n = k.length(ps)
    T = lambda i: edge_terms(k, p, ps, n, i)

    def robust(i):
        a, o, up, down = T(i)
        return Implies(Or(up, down), Or(o, abs_(a) > k.eps))
    k.assume_forall(0, n, robust)

    def cross(i):
        a, o, up, down = T(i)
        return Or(And(up, a > 0), And(down, a < 0))
    par = k.running('parity', n, False, lambda i, v: Not(Iff(B(v), cross(i))))
    i = k.index('i', 0, n)
    verdict()
    k.ensure('on whenever some edge contains the point', Implies(T(i)[1], on()))
    if k.case(on()):
        k.exists('on only when some edge contains the point', 0, n, lambda q: T(q)[1])
        return
    k.ensure('inside exactly when the ray to the right crosses an odd number of edges', Iff(inside(), par(n)))
    k.ensure('outside otherwise', Iff(outside(), Not(par(n))))


@contract('locate_point_2_polygon_2', 'C13', args=loc_args, unroll=5)
def loc_poly(k, p, pg):
    if k.mode == 'use':
        k.result        # callers only rely on the verdict being a function of the arguments
        return
    v = lambda s: (lambda: k.isv(k.result, s))
    poly_loc(k, p, pg, lambda: k.result, v('On'), v('Inside'), v('Outside'))


@loop('locate_point_2_polygon_2', 0, total=1, portable=True)
def loc_inv(st):
    c = st.c
    par, ps = st.unit_ghost('parity'), c.ps
    n = c.length(ps)
    p = c.p
    i = st.iter().f[1]
    st.run.note_index(i)
    st.inv('parity of the crossings so far', Iff(st.var('inside', '^bool$'), par(i)))
    st.inv_forall('no edge so far contains the point', 0, i, lambda q: Not(edge_terms(c, p, ps, n, q)[1]))


@lemma('the three polygon predicates are the three verdicts', 'C13', unroll=4)
def _(k):
    p, pg = loc_args(k)
    r = k.call('locate_point_2_polygon_2', p, pg)
    for v, f in (('On', 'is_point_2_on_polygon_2'), ('Inside', 'is_point_2_inside_polygon_2'), ('Outside', 'is_point_2_outside_polygon_2')):
        k.ensure('predicate for ' + v, Iff(k.call(f, p, pg), k.isv(r, v)))
