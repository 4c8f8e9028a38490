"""C30: the WebAssembly bindings do what the kernel does, on the values they wrap.

The units run on the MIR of the wasm32 target (src/wasm is compiled only there). The heavy kernel functions are opaque here:
the same function of the same (wrapped) arguments, so a wrapper that passes anything else, or calls anything else, differs."""
import re

from expr import *
from values import *
from ctx import lemma, contract, inner_types
from mirparse import type_last, split_top

T = 'wasm32-unknown-unknown'
IX = 'wasm::algorithm::intersection::segment_2_segment_2::'
LO = 'wasm::algorithm::location::'
OPAQUE = {'Polygon2::area', 'Polygon2::is_simple', 'Polygon2::is_convex', 'ConvexHull2::new', 'ConvexHull2::convex_hull',
          'SweepSegment2Intersection::new', 'SweepSegment2Intersection::push_segment', 'SweepSegment2Intersection::intersection',
          'is_segment_2_segment_2_intersected', 'segment_2_segment_2_intersection', 'earcut_2',
          'is_point_2_on_line_segment_2', 'locate_point_2_line_segment_2', 'is_point_2_on_circle_segment_2',
          'locate_point_2_circle_segment_2', 'is_point_2_on_arc_segment_2', 'locate_point_2_arc_segment_2',
          'locate_point_2_polygon_2', 'locate_point_2_triangle_2', 'point_2_project_line_segment_2', 'ArcSegment2::new'}


def key(v, ip):
    """what an opaque function sees of its arguments; lists by their length and their element at an arbitrary index"""
    v = ip.deref(v)
    if isinstance(v, SymSeq):
        n = ip.run.pkey(I(v.length())) if isinstance(v.length(), E) else v.length()
        w = ip.run.welldef
        ip.run.welldef = False
        try:
            e = v.get(var('any!index', 'I'), None)
        finally:
            ip.run.welldef = w
        return ('list', n, key(e, ip))
    if isinstance(v, Adt):
        return (v.ty, v.var) + tuple(key(x, ip) for x in v.f)
    if isinstance(v, tuple):
        return tuple(key(x, ip) for x in v)
    if isinstance(v, Seq):
        return ('seq',) + tuple(key(x, ip) for x in v.items)
    if isinstance(v, E):
        return ip.run.pkey(v) if v.sort == 'R' else v.id
    if isinstance(v, (int, bool)):
        return v
    if isinstance(v, Opaque):
        return ('opaque', v.name)
    raise Unsupported('argument of an opaque function: %s' % type(v).__name__)


def unknown(k, t, name, i=None):
    """an arbitrary value of a type (an arbitrary element of a list at the index i)"""
    t = t.strip()
    if t == '()':
        return ()
    if i is not None and t in ('T', 'f64'):
        return app(fnsym(name, 'I', 'R'), i)
    if i is not None and t == 'usize':
        return app(fnsym(name, 'I', 'I'), i)
    m = re.match(r'^\[(.*); (\d+)\]$', t)
    if m:
        return Seq([unknown(k, m.group(1), '%s.%d' % (name, j), i) for j in range(int(m.group(2)))])
    l = type_last(t)
    if l == 'Vec' and i is not None:
        # a triangle: three indices (C28)
        return Seq([unknown(k, inner_types(t)[0], '%s.%d' % (name, j), i) for j in range(3)])
    if l == 'Vec':
        n = k.run.fresh(name + '.n', 'I')
        k.run.fact(le(0, n))
        return SymSeq(n, lambda j: unknown(k, inner_types(t)[0], name, I(j)))
    d = k.ip.p.decls.get(k.ip.p.ty(t))
    if l in ('ConvexHull2', 'SweepSegment2Intersection'):
        return Opaque(name)
    if i is not None:
        if d is None or d.kind != 'struct':
            raise Unsupported('list of ' + t)
        return Adt(k.ip.p.ty(t), 0, [unknown(k, ft, name + '.' + fn, i) for fn, ft in d.fields])
    return k.freshval(t, name)


def opaque(k):
    """only in proofs: the heavy kernel functions are unknown functions of their arguments"""
    if k.concrete:
        return
    run, ip = k.run, k.ip
    count = [0]

    def handler(ip, fn, args):
        mk = ('opaque', fn.key) + tuple(key(a, ip) for a in args)
        if mk not in run.memo:
            count[0] += 1
            name = '%s!%d' % (fn.key.split('::')[-1], count[0])
            state = Opaque('state ' + name) if fn.params and fn.params[0][1].startswith('&mut') else None
            run.memo[mk] = (state, unknown(k, fn.ret, 'k_' + name))
        state, r = run.memo[mk]
        if state is not None:
            ip.write(args[0].cell, args[0].path, state)
        return r

    run.h['outside'] = lambda fn: handler if fn.key in OPAQUE and 'wasm::' not in fn.name else None


# ---------------------------------------------------------------------------------------------- the wrapped values
class W:
    """a wrapped value and what it wraps, built through the constructors of either side"""

    def __init__(self, k):
        self.k = k
        opaque(k)

    def point(self, n):
        k = self.k
        x, y = k.real(n + '.x'), k.real(n + '.y')
        return k.call('wasm::Point2::new', x, y), k.call('Point2::new', x, y)

    def vector(self, n):
        k = self.k
        x, y = k.real(n + '.x'), k.real(n + '.y')
        return k.call('wasm::Vector2::new', x, y), k.call('Vector2::new', x, y)

    def segment(self, n):
        (a, c), (b, d) = self.point(n + '.s'), self.point(n + '.t')
        return self.k.call('wasm::LineSegment2::new', a, b), self.k.call('LineSegment2::new', c, d)

    def circle(self, n):
        k = self.k
        r = k.real(n + '.r', 'pos')
        k.assume(r > 0)
        a, c = self.point(n + '.c')
        return k.call('wasm::CircleSegment2::new', a, r), k.call('CircleSegment2::new', c, r)

    def arc(self, n):
        k = self.k
        a, c = self.circle(n + '.o')
        s, t = k.real(n + '.sr', 'rad'), k.real(n + '.tr', 'rad')
        k.assume(And(s >= 0, t >= 0, s <= mul(2, k.pi), t <= mul(2, k.pi)))
        return k.call('wasm::ArcSegment2::new', a, s, t), k.call('ArcSegment2::new', c, s, t)

    def triangle(self, n):
        p = [self.point('%s.%s' % (n, c)) for c in 'abc']
        return self.k.call('wasm::Triangle2::new', *[a for a, _ in p]), self.k.call('Triangle2::new', *[b for _, b in p])

    def points(self, n, lo=0):
        return self.k.points2(n, lo, 'wasm::Point2::new')

    def polygon(self, n, lo=1):
        a, b = self.points(n, lo)
        return self.k.call('wasm::Polygon2::new', a), self.k.call('Polygon2::new', b)

    def kind(self, which, n):
        return {'LineSegment2': self.segment, 'CircleSegment2': self.circle, 'ArcSegment2': self.arc}[which](n)

    def any(self, which, n):
        """the tagged union of the bindings, the other two fields absent or arbitrary"""
        k = self.k
        a, b = self.kind(which, n)
        full = k.choose(2, n + '.others')
        f = []
        for o in KINDS:
            v = a if o == which else self.kind(o, '%s.%s' % (n, o))[0] if full else None
            f.append(k.option(v))
        return k.call('wasm::Segment2::new', k.enum('Segment2Type', which), *f), b


KINDS = ('LineSegment2', 'CircleSegment2', 'ArcSegment2')


def wxy(k, p):
    return k.call('wasm::Point2::x', p), k.call('wasm::Point2::y', p)


def same_point(k, what, w, p):
    (x, y), (u, v) = wxy(k, w), k.xy(p)
    k.ensure(what, And(eq(x, u), eq(y, v)))


def same_points(k, what, ws, ps):
    k.ensure(what + ': as many', eq(I(k.length(ws)), I(k.length(ps))))
    if k.part():
        for i in k.every('i', 0, k.length(ps)):
            same_point(k, what + ': the same', k.at(ws, i), k.at(ps, i))
        k.done()


def same_variant(k, what, a, b):
    if k.concrete:
        k.ensure(what, B(a.name == b.name))
    else:
        k.ensure(what, B(k.ip.deref(a).ty == k.ip.deref(b).ty and k.ip.deref(a).var == k.ip.deref(b).var))


def same_segment(k, what, w, s):
    same_point(k, what + ': source', k.call('wasm::LineSegment2::source', w), k.acc(s, 'source'))
    same_point(k, what + ': target', k.call('wasm::LineSegment2::target', w), k.acc(s, 'target'))


def unit(name, **opt):
    def deco(f):
        return lemma('wasm: ' + name, 'C30', target=T, **opt)(lambda k: f(k, W(k)))
    return deco


@unit('a point and its functions')
def _(k, w):
    (p, a), (q, b), (r, c) = w.point('p'), w.point('q'), w.point('r')
    same_point(k, 'a point keeps its coordinates', p, a)
    k.ensure('equals', Iff(k.call('wasm::Point2::equals', p, q), k.call('Point2::equals', a, b)))
    k.ensure('distance', eq(k.call('wasm::Point2::distance', p, q), k.call('Point2::distance', a, b)))
    v, u = k.call('wasm::Point2::get_vector', p), k.call('Point2::get_vector', a)
    k.ensure('vector', And(eq(k.call('wasm::Vector2::x', v), k.call('Vector2::x', u)), eq(k.call('wasm::Vector2::y', v), k.call('Vector2::y', u))))
    same_variant(k, 'turn', k.call('wasm::Point2::turn', p, q, r), k.call('Point2::turn', a, b, c))


@unit('a vector and its functions')
def _(k, w):
    (p, a), (q, b) = w.vector('p'), w.vector('q')
    for n in 'xy':
        k.ensure(n, eq(k.call('wasm::Vector2::' + n, p), k.call('Vector2::' + n, a)))
    k.ensure('length', eq(k.call('wasm::Vector2::length', p), k.call('Vector2::length', a)))
    for n in ('dot', 'cross'):
        k.ensure(n, eq(k.call('wasm::Vector2::' + n, p, q), k.call('Vector2::' + n, a, b)))
    v, u = k.call('wasm::Vector2::normalize', p), k.call('Vector2::normalize', a)
    k.ensure('normalize', And(*[eq(k.call('wasm::Vector2::' + n, v), k.call('Vector2::' + n, u)) for n in 'xy']))


@unit('the angle between two vectors')
def _(k, w):
    (p, a), (q, b) = w.vector('p'), w.vector('q')
    k.ensure('angle', eq(k.call('wasm::Vector2::radian_to', p, q), k.call('Vector2::radian_to', a, b)))


@unit('a segment, a circle and an arc keep what they are built from')
def _(k, w):
    (s, a), (o, b) = w.segment('s'), w.circle('o')
    same_segment(k, 'segment', s, a)
    same_point(k, 'centre', k.call('wasm::CircleSegment2::center', o), k.acc(b, 'center'))
    k.ensure('radius', eq(k.call('wasm::CircleSegment2::radius', o), k.acc(b, 'radius')))
    same_variant(k, 'segment type', k.call('wasm::LineSegment2::segment_type', s), k.acc(a, 'segment_type'))
    same_variant(k, 'circle type', k.call('wasm::CircleSegment2::segment_type', o), k.acc(b, 'segment_type'))
    r, c = w.arc('r')
    for n in ('source', 'target', 'center'):
        same_point(k, 'arc ' + n, k.call('wasm::ArcSegment2::' + n, r), k.acc(c, n))
    for n in ('source_radian', 'target_radian', 'radius'):
        k.ensure('arc ' + n, eq(k.call('wasm::ArcSegment2::' + n, r), k.acc(c, n)))
    same_variant(k, 'arc type', k.call('wasm::ArcSegment2::segment_type', r), k.acc(c, 'segment_type'))


@unit('a triangle and its functions')
def _(k, w):
    t, a = w.triangle('t')

    def look(when):
        for n in 'abc':
            same_point(k, '%s %s' % (n, when), k.call('wasm::Triangle2::' + n, t), k.call('Triangle2::' + n, a))
        same_points(k, 'vertices ' + when, k.call('wasm::Triangle2::vertices', t), k.call('Triangle2::vertices', a))
        for i, (e, f) in enumerate(zip(k.items(k.call('wasm::Triangle2::edges', t)), k.items(k.call('Triangle2::edges', a)))):
            same_segment(k, 'edge %d %s' % (i, when), e, f)
        k.ensure('three edges', B(len(k.items(k.call('wasm::Triangle2::edges', t))) == 3))
        same_variant(k, 'orientation ' + when, k.call('wasm::Triangle2::orientation', t), k.call('Triangle2::orientation', a))
        k.ensure('area ' + when, eq(k.call('wasm::Triangle2::area', t), k.call('Triangle2::area', a)))
    t, a = k.ref(t), k.ref(a)
    look('as built')
    k.call('wasm::Triangle2::reverse_orientation', t)
    k.call('Triangle2::reverse_orientation', a)
    look('reversed')


@unit('a polygon and its functions')
def _(k, w):
    g, a = w.polygon('v')
    same_points(k, 'vertices', k.call('wasm::Polygon2::vertices', g), k.call('Polygon2::vertices', a))
    k.ensure('area', eq(k.call('wasm::Polygon2::area', g), k.call('Polygon2::area', a)))
    for n in ('is_simple', 'is_convex'):
        k.ensure(n, Iff(k.call('wasm::Polygon2::' + n, g), k.call('Polygon2::' + n, a)))


@unit('the edges of a polygon')
def _(k, w):
    g, a = w.polygon('v')
    es, fs = k.call('wasm::Polygon2::edges', g), k.call('Polygon2::edges', a)
    k.ensure('as many edges', eq(I(k.length(es)), I(k.length(fs))))
    if not k.part():
        return
    for i in k.every('i', 0, k.length(fs)):
        same_segment(k, 'edge', k.at(es, i), k.at(fs, i))
    k.done()


@unit('the convex hull')
def _(k, w):
    ps, qs = w.points('v', 1)
    h, g = k.ref(k.call('wasm::ConvexHull2::new', ps)), k.ref(k.call('ConvexHull2::new', qs))
    for when in ('first', 'again'):
        same_points(k, 'hull ' + when, k.call('wasm::ConvexHull2::convex_hull', h), k.call('ConvexHull2::convex_hull', g))


@unit('triangulation', assumes=['earcut_2 returns triples of indices (C28)'])
def _(k, w):
    g, a = w.polygon('v', 3)
    panics, us = k.may_panic('earcut_2', a)
    if panics:
        return                      # not a simple polygon
    ts = k.call('wasm::algorithm::triangulation::earcut_2::earcut', g)
    k.ensure('as many triangles', eq(I(k.length(ts)), I(k.length(us))))
    if not k.part():
        return
    for i in k.every('i', 0, k.length(us)):
        t, u = k.at(ts, i), k.items(k.at(us, i))
        for n, x in zip('abc', u):
            k.ensure('index ' + n, eq(I(k.field(t, n)), I(x)))
    k.done()


@unit('where a point is')
def _(k, w):
    p, a = w.point('p')
    for n, m, f in (('line_segment_2', w.segment, 'Segment2'), ('circle_segment_2', w.circle, 'Circle2'), ('arc_segment_2', w.arc, 'ArcSegment2')):
        s, b = m(n)
        k.ensure('on a ' + n, Iff(k.call('%spoint_2_%s::is_point_2_on_%s' % (LO, n, n), p, s), k.call('is_point_2_on_' + n, a, b)))


for _n, _m in (('line_segment_2', 'segment'), ('circle_segment_2', 'circle'), ('arc_segment_2', 'arc'), ('polygon_2', 'polygon'), ('triangle_2', 'triangle')):
    def _one(n, m):
        @unit('the side of a point: ' + n)
        def _(k, w):
            (p, a), (s, b) = w.point('p'), getattr(w, m)('s')
            same_variant(k, 'location', k.call('%spoint_2_%s::locate_point_2_%s' % (LO, n, n), p, s), k.call('locate_point_2_' + n, a, b))
    _one(_n, _m)


@unit('the projection of a point')
def _(k, w):
    (p, a), (s, b) = w.point('p'), w.segment('s')
    r, q = (k.opt(x) for x in (k.call('wasm::algorithm::projection::point_2_line_segment_2::point_2_project_line_segment_2', p, s),
                               k.call('point_2_project_line_segment_2', a, b)))
    k.ensure('there is one exactly when the kernel has one', B((r is None) == (q is None)))
    if r is not None and q is not None:
        same_point(k, 'projection', r, q)


for _a in KINDS:
    for _b in KINDS:
        def _two(ka, kb):
            @unit('the intersection of a %s and a %s' % (ka, kb))
            def _(k, w):
                (s, a), (t, b) = w.any(ka, 's'), w.any(kb, 't')
                k.ensure('intersected', Iff(k.call(IX + 'is_segment_2_segment_2_intersected', s, t), k.call('is_segment_2_segment_2_intersected', a, b)))
                same_points(k, 'points', k.call(IX + 'segment_2_segment_2_intersection', s, t), k.call('segment_2_segment_2_intersection', a, b))
        _two(_a, _b)


for _a in KINDS:
    def _sweep(ka):
        @unit('the sweep over a %s and others' % ka)
        def _(k, w):
            (s, a), (t, b) = w.any(ka, 's'), w.any(KINDS[k.choose(3, 'kind')], 't')
            x, y = k.ref(k.call('wasm::SweepSegment2Intersection::new')), k.ref(k.call('SweepSegment2Intersection::new'))
            for p, q in ((s, a), (t, b)):
                k.call('wasm::SweepSegment2Intersection::push_segment', x, p)
                k.call('SweepSegment2Intersection::push_segment', y, q)
            for when in ('first', 'again'):
                same_points(k, 'points ' + when, k.call('wasm::SweepSegment2Intersection::intersection', x), k.call('SweepSegment2Intersection::intersection', y))
    _sweep(_a)
