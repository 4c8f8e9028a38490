"""C31: half-edges and vertices keep the links they are given. Vertices and edges are shared objects (Rc<RefCell<..>>)."""
from ctx import *
from expr import *
from values import *

LINKS = ('source', 'target', 'twin', 'next', 'prev')


def shared(k, v):
    return v if k.concrete else RcV(Cell(RefCellO(v)))


def on(k, fn, rc, *args, mut=False):
    """rc.borrow().f(..) or rc.borrow_mut().f(..)"""
    if k.concrete:
        return k.call(fn, rc, *args)
    o = rc.cell.v
    o.state = -1 if mut else 1
    try:
        return k.call(fn, Ref(o.cell), *args)
    finally:
        o.state = 0


def same(k, a, b):
    return B(k.call('same', a, b)) if k.concrete else B(a.cell is b.cell)


def vertex(k, n):
    x, y = k.real(n + '.x'), k.real(n + '.y')
    return shared(k, k.call('Vertex2::new', x, y)), (x, y)


def edge(k, a, b, arc=False):
    return shared(k, k.call('Edge2::new_arc' if arc else 'Edge2::new_segment', a, b))


def look(k, e):
    """the links of an edge: name -> object or None"""
    r = {}
    for l in LINKS:
        v = on(k, 'Edge2::' + l, e)
        r[l] = v if l in ('source', 'target') else k.opt(v)
    return r


def check(k, when, e, want):
    got = look(k, e)
    for l in LINKS:
        if want[l] is None or got[l] is None:
            k.ensure('%s: %s' % (when, l), B(want[l] is None and got[l] is None))
        else:
            k.ensure('%s: %s' % (when, l), same(k, got[l], want[l]))


def kind(k, e, arc):
    t = on(k, 'Edge2::edge_type', e)
    name = 'Arc' if arc else 'Segment'
    k.ensure('its type', B(t.name == name) if k.concrete else k.isv(t, name))


@lemma('a new half-edge joins its two vertices and has no other links', 'C31')
def _(k):
    arc = k.choose(2, 'arc') == 1
    (a, p), (b, q) = vertex(k, 'a'), vertex(k, 'b')
    e = edge(k, a, b, arc)
    check(k, 'new', e, {'source': a, 'target': b, 'twin': None, 'next': None, 'prev': None})
    kind(k, e, arc)
    k.ensure('the vertices have no edges yet', B(len(k.items(on(k, 'Vertex2::edges', a))) == 0))
    for v, (x, y) in ((a, p), (b, q)):
        u, w = on(k, 'Vertex2::x', v), on(k, 'Vertex2::y', v)
        z = k.xy(on(k, 'Vertex2::to_point', v))
        k.ensure('a vertex keeps its coordinates', And(eq(u, x), eq(w, y), eq(z[0], x), eq(z[1], y)))


@lemma('setting a link changes that link and no other, of that edge and no other', 'C31')
def _(k):
    arc = k.choose(2, 'arc') == 1
    v = [vertex(k, n)[0] for n in 'abc']
    e, f, g = edge(k, v[0], v[1], arc), edge(k, v[1], v[2]), edge(k, v[2], v[0])
    want = {'source': v[0], 'target': v[1], 'twin': None, 'next': None, 'prev': None}
    other = {'source': v[1], 'target': v[2], 'twin': None, 'next': None, 'prev': None}
    first = k.choose(len(LINKS), 'first')
    for step, (j, to) in enumerate(((first, 0), (k.choose(len(LINKS), 'second'), 1))):
        l = LINKS[j]
        new = (v[2], v[1])[to] if l in ('source', 'target') else (f, g)[to]
        on(k, 'Edge2::set_' + l, e, new, mut=True)
        want[l] = new
        check(k, 'after %d' % step, e, want)
        kind(k, e, arc)
        check(k, 'another edge after %d' % step, f, other)


@lemma('twins, next and previous edges are shared, not copied', 'C31')
def _(k):
    v = [vertex(k, n)[0] for n in 'abc']
    e, t, n = edge(k, v[0], v[1]), edge(k, v[1], v[0]), edge(k, v[1], v[2])
    on(k, 'Edge2::set_twin', e, t, mut=True)
    on(k, 'Edge2::set_twin', t, e, mut=True)
    k.ensure('the twin of the twin is the edge itself', same(k, k.opt(on(k, 'Edge2::twin', k.opt(on(k, 'Edge2::twin', e)))), e))
    on(k, 'Edge2::set_next', e, n, mut=True)
    on(k, 'Edge2::set_prev', n, e, mut=True)
    k.ensure('the edge before the next one is the edge itself', same(k, k.opt(on(k, 'Edge2::prev', k.opt(on(k, 'Edge2::next', e)))), e))
    seen = k.opt(on(k, 'Edge2::next', k.opt(on(k, 'Edge2::twin', t))))
    k.ensure('a link set later is seen through an edge got before', B(seen is not None) if seen is None else same(k, seen, n))
    on(k, 'Vertex2::add_edge', v[1], n, mut=True)
    es = k.items(on(k, 'Vertex2::edges', on(k, 'Edge2::target', e)))
    k.ensure('a vertex reached through an edge is the vertex itself', B(len(es) == 1))
    if len(es) == 1:
        k.ensure('and has the edge added to it', same(k, es[0], n))


@lemma('the segment of an edge joins its vertices as they are now', 'C31')
def _(k):
    (a, p), (b, q), (c, r) = vertex(k, 'a'), vertex(k, 'b'), vertex(k, 'c')
    e = edge(k, a, b)
    which = k.choose(3, 'moved')
    if which == 1:
        on(k, 'Edge2::set_source', e, c, mut=True)
        p = r
    if which == 2:
        on(k, 'Edge2::set_target', e, c, mut=True)
        q = r
    s = on(k, 'Edge2::to_segment', e)
    (sx, sy), (tx, ty) = k.src(s), k.tgt(s)
    k.ensure('from the source', And(eq(sx, p[0]), eq(sy, p[1])))
    k.ensure('to the target', And(eq(tx, q[0]), eq(ty, q[1])))


@lemma('edges are equal exactly when their kind and their end points agree', 'C31')
def _(k):
    v = [vertex(k, n) for n in 'abcd']
    arc = k.choose(2, 'arc') == 1
    e, f = edge(k, v[0][0], v[1][0]), edge(k, v[2][0], v[3][0], arc)

    def close(i, j):
        (a, b), (c, d) = v[i][1], v[j][1]
        return k.sqrt((a - c) * (a - c) + (b - d) * (b - d)) < k.eps
    if k.concrete:
        r, s = k.call('<Edge2 as PartialEq>::eq', e, f), k.call('<Edge2 as PartialEq>::eq', f, e)
    else:
        r, s = on(k, '<Edge2 as PartialEq>::eq', e, Ref(f.cell.v.cell)), on(k, '<Edge2 as PartialEq>::eq', f, Ref(e.cell.v.cell))
    k.ensure('equal', Iff(r, And(B(not arc), close(0, 2), close(1, 3))))
    k.ensure('either way', Iff(r, s))


@lemma('a vertex lists the edges added to it in order; removing one removes that one only', 'C31')
def _(k):
    v = [vertex(k, n)[0] for n in 'abcd']
    arc = k.choose(2, 'arc') == 1
    es = [edge(k, v[0], v[1], arc), edge(k, v[2], v[0]), edge(k, v[0], v[3])]
    if k.choose(2, 'parallel'):
        es[2] = edge(k, v[0], v[1], arc)
    for e in es:
        on(k, 'Vertex2::add_edge', v[0], e, mut=True)
    want = list(es)

    def listed(when):
        got = k.items(on(k, 'Vertex2::edges', v[0]))
        k.ensure('%s: as many' % when, B(len(got) == len(want)))
        for i, (g, w) in enumerate(zip(got, want)):
            k.ensure('%s: edge %d' % (when, i), same(k, g, w))
    listed('added')
    for when in ('removed', 'another removed'):
        i = k.choose(len(want), when)
        on(k, 'Vertex2::remove_edge', v[0], want.pop(i), mut=True)
        listed(when)
    on(k, 'Vertex2::remove_edge', v[0], edge(k, v[1], v[2]), mut=True)
    listed('an edge that is not there')


class Edges:
    """the edges of a vertex: any number of further ones before and after one known edge"""

    def __init__(self, parts, other):
        self.parts, self.other = list(parts), other

    def model_vec(self, ip, m, args, r):
        if m == 'push':
            new = Edges(self.parts + [force(args[1])], self.other)
        elif m in ('retain', 'retain_mut'):
            new = Edges([p for p in self.parts if ip.truth(ip.call_value(args[1], [Ref(Cell(p if isinstance(p, RcV) else self.other()))]))], self.other)
        else:
            raise Unsupported('%s on the edges of a vertex' % m)
        ip.write(r.cell, r.path, new)
        return ()


@lemma('removing an edge keeps all others, however many there are', 'C31', proof_only=True)
def _(k):
    v = [vertex(k, n)[0] for n in 'abcd']
    e, g = edge(k, v[0], v[1]), edge(k, v[0], v[2])
    fields = k.ip.p.decls['Vertex2'].fields
    at_edges = [i for i, (_, t) in enumerate(fields) if 'Vec' in str(t)]
    if len(at_edges) != 1:
        raise Unsupported('fields of Vertex2')
    o = v[0].cell.v
    at = k.ip.deref(o.cell.v)
    other = lambda: edge(k, *((v[0], v[2]), (v[3], v[0]), (v[0], v[1]))[k.choose(3, 'another edge')])
    o.cell.v = Adt('Vertex2', 0, [Edges(['before', e, 'after'], other) if i in at_edges else x for i, x in enumerate(at.f)])
    parts = lambda: k.ip.deref(o.cell.v).f[at_edges[0]].parts
    on(k, 'Vertex2::add_edge', v[0], g, mut=True)
    k.ensure('an edge is added at the end', B(parts() == ['before', e, 'after', g]))
    on(k, 'Vertex2::remove_edge', v[0], e, mut=True)
    k.ensure('the edge is gone and the others stay in order', B(parts() == ['before', 'after', g]))
