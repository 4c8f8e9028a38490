"""C25: the sweep reports only points that lie on two of the segments pushed into it."""
from ctx import *
from ctx import canon
from spec_avl import fields, MOST
import effects

SW = 'SweepSegment2Intersection'
NODE = 'StatusNodeSegment'
ASSUME = ('the tree and the queue of the sweep are changed only by calls on them (Rust ownership) and their calls return',
          'the tests whether a point is on a segment or an arc are functions of their arguments (what they decide: properties C07 and C10)')


def grow(k, ty, name, i):
    """a value of a struct type whose numbers are functions of i"""
    t = ty.strip()
    if t == 'T':
        return app(fnsym(name, 'I', 'R'), i)
    d = k.ip.p.decls.get(k.ip.p.ty(t))
    if d is None or d.kind != 'struct':
        raise Unsupported('field of type ' + t)
    return Adt(k.ip.p.ty(t), 0, [grow(k, ft, name + '.' + f, i) for f, ft in d.fields])


def numbers(k, v, out):
    v = k.ip.deref(v)
    if isinstance(v, E):
        out.append(v)
    elif isinstance(v, Adt):
        for x in v.f:
            numbers(k, x, out)
    else:
        raise Unsupported('numbers of a %s' % type(v).__name__)
    return out


def kinds(k):
    d = k.ip.p.decls.get(NODE)
    vs = d and {n: fs for n, fs in d.variants}
    if not vs or sorted(vs) != ['ArcSegment2', 'LineSegment2'] or any(len(fs) != 1 for fs in vs.values()):
        raise Unsupported('variants of ' + NODE)
    return vs


def anysegs(k, name):
    """a list of segments: any number, any kinds"""
    vs = kinds(k)
    memo = {}
    if name != 'pushed':
        n = k.h['lists'] = k.h.get('lists', 0) + 1
        name += str(n)
    for n in vs:
        memo[n] = {}

    def one(n, i):
        i = canon(i)
        if i.id not in memo[n]:
            memo[n][i.id] = grow(k, vs[n][0][1], name + '.' + n, i)
        return memo[n][i.id]
    line = fnsym(name + '.isline', 'I', 'B')

    def at(i):
        i = canon(i)
        return Lazy(lambda: Adt(NODE, k.ip.p.variant(NODE, n), [one(n, i)])
                    if (n := 'LineSegment2' if k.run.decide(app(line, i)) else 'ArcSegment2') else None)
    S = SymSeq(k.int(name, 0, MOST), at)
    return S, line, one


def origins(k):
    S, line, one = anysegs(k, 'pushed')
    k.h['origins'] = S
    k.h['oncase'] = lambda p, i: ite(app(line, canon(i)), on(k, 'LineSegment2', p, one('LineSegment2', i)),
                                     on(k, 'ArcSegment2', p, one('ArcSegment2', i)))
    return S


TESTS = {'is_point_2_on_line_segment_2': 'LineSegment2', 'is_point_2_on_arc_segment_2': 'ArcSegment2'}


def on(k, kind, p, s):
    a = numbers(k, p, []) + numbers(k, s, [])
    return app(fnsym('on ' + kind, ('R',) * len(a), 'B'), *a)


class Points:
    """the contents of a BinaryHeap of points: only their number is known"""

    def __init__(self, k, n=None):
        self.k = k
        self.n = k.run.fresh('events', 'I') if n is None else n
        k.run.fact(And(le(0, self.n), le(self.n, MOST)))

    def heap(self, ip, r, m, args):
        def put(n):
            ip.write(r.cell, r.path, Adt('BinaryHeap', 0, (Points(self.k, n),)))
        if m == 'push':
            put(self.n + 1)
            return UNIT
        if m == 'is_empty':
            return eq(self.n, 0)
        if m == 'len':
            return self.n
        if m == 'clear':
            put(I(0))
            return UNIT
        if m in ('pop', 'peek'):
            if not self.k.run.decide(lt(0, self.n)):
                return NONE
            p = self.k.point('event')
            if m == 'peek':
                return some(Ref(Cell(p)))
            put(self.n - 1)
            return some(p)
        raise Unsupported('BinaryHeap::' + m)


def unknown(k, t):
    """any value of a type"""
    t = t.strip()
    if type_last(t) == 'AVLTree' or t.startswith('&'):
        return Opaque(t)
    if type_last(t) == 'Vec':
        i = inner_types(t)[0]
        if type_last(i) == 'Point2':
            return k.points('candidate')
        if type_last(i) == NODE:
            return anysegs(k, 'some')[0]
        return Opaque(t)
    if type_last(t) == NODE:
        return anysegs(k, 'some')[0].at(I(0))
    if t.startswith('('):
        return tuple(unknown(k, x) for x in split_top(t[1:-1]) if x.strip())
    if type_last(t) == 'Option':
        i = inner_types(t)[0]
        return Lazy(lambda: some(unknown(k, i)) if k.run.choose(2) else NONE)
    try:
        return k.freshval(t, 'unknown')
    except NotApplicable:
        return Opaque(t)


def sweep(k, S, segs=None):
    fs = fields(k, SW)
    if fields(k, 'PriorityQueue') != ['heap']:
        raise Unsupported('fields of PriorityQueue')
    types = dict(k.ip.p.decls[SW].fields)
    m = {'origin_segments': S, 'event_queue': Adt('PriorityQueue', 0, (Adt('BinaryHeap', 0, (Points(k),)),)),
         'segments': segs if segs is not None else anysegs(k, 'pieces')[0]}
    if not set(m) <= set(fs):
        raise Unsupported('fields of ' + SW)
    return Cell(Adt(SW, 0, [m[f] if f in m else unknown(k, types[f]) for f in fs]))


def outside(k, own, pure=False):
    """calls that are not looked into: the point tests as functions, trees and queues as unknown values"""
    def call(fn):
        name = fn.key.split('::')[-1]
        if fn.key in TESTS:
            return lambda ip, f, a: on(k, TESTS[fn.key], a[0], a[1])
        owner = fn.key.split('::')[0]
        if owner == 'AVLTree':
            return lambda ip, f, a: k.points('candidate') if type_last(f.ret) == 'Vec' else unknown(k, f.ret)
        if owner == SW and name not in own:
            if pure and not any(t.strip().startswith('&mut') for _, t in fn.params):
                return None
            return lambda ip, f, a: framed(k, f, a)
        return None
    k.run.h['outside'] = call


def framed(k, f, args):
    """a method of the sweep that is not looked into may change everything but the pushed segments"""
    if '&mut' in f.ret:
        raise Unsupported('result of ' + f.key)
    w = effects.written(k.ip, f, SW)
    i = fields(k, SW).index('origin_segments')
    k.ensure('%s leaves the pushed segments alone' % f.key.split('::')[-1], B(not (w & {i, None})))
    return unknown(k, f.ret)


# ---------------------------------------------------------------- the filter
CNT = fnsym('tests passed', ('I', 'I'), 'I')


def cnt(q, i):
    """on how many of the first i pushed segments candidate q lies"""
    return app(CNT, canon(q), canon(i))


def filter_args(k):
    S = origins(k)
    P = k.h['P'] = k.points('candidate')
    outside(k, ('filter_intersection_points',), True)
    return [Ref(sweep(k, S)), P]


FI = SW + '::filter_intersection_points'


def twice(k, q):
    return le(2, cnt(q, k.h['origins'].n))


@contract(FI, 'C25', args=filter_args, stateful=True, proof_only=True, assumes=ASSUME)
def filt(k, sw, P):
    run = k.run
    S = k.ip.deref(sw).f[fields(k, SW).index('origin_segments')]
    if k.mode == 'use':
        P = k.ip.deref(P)
        if S is not k.h.get('origins') or not isinstance(P, SymSeq):
            raise Unsupported('other segments')
        m = run.fresh('reported', 'I')
        lam = fnsym('reported', 'I', 'I')
        run.fact(And(le(0, m), le(m, P.n)))
        k.h['reported'] = lambda j: run.fact(Implies(And(le(0, j), lt(j, m)), And(
            le(0, app(lam, j)), lt(app(lam, j), P.n), twice(k, app(lam, j)))))
        k.h['place'] = lambda j: app(lam, canon(j))
        k.res = SymSeq(m, lambda j: P.at(app(lam, canon(j))))
        k.h['P'] = P
        return
    r = k.ip.deref(k.result)
    if 'o' not in k.h:
        raise Unsupported('the loop over the candidates')
    o = k.h['o']
    m = I(r.length())
    j, q = k.fresh('j', 'I'), k.fresh('q', 'I')
    o['have']('chosen', j)
    o['have']('increasing', j)
    o['have']('complete', q)
    lam, pos = o['lam'], o['pos']
    run.assume(And(le(0, q), lt(q, P.n)))
    x, y = k.xy(r.at(j)), k.xy(P.at(lam(j)))
    k.ensure('every point given is a candidate that lies on at least two of the pushed segments',
             Implies(And(le(0, j), lt(j, m)), And(eq(x[0], y[0]), eq(x[1], y[1]), le(0, lam(j)), lt(lam(j), P.n), twice(k, lam(j)))))
    k.ensure('the points are given in the order of the candidates, each once', Implies(And(le(0, j), lt(j, m - 1)), lam(j) < lam(j + 1)))
    k.ensure('every candidate on two of the pushed segments is given',
             Implies(twice(k, q), And(le(0, pos(q)), lt(pos(q), m), eq(lam(pos(q)), q))))


def chosen_list(st, v):
    h = st.c.h
    P = h['P']
    lam = fnsym('chosen', 'I', 'I')
    h['lam'] = lambda j: app(lam, canon(j))
    return SymSeq(st.run.fresh('m', 'I'), lambda j: P.at(h['lam'](j)))


def result_list(st):
    return st.by_type(r'^std::vec::Vec<.*Point2<').v


@loop(FI, 0, total=2, havoc={'<type>^std::vec::Vec<.*Point2<': chosen_list})
def outer(st):
    c = st.c
    h, P = c.h, c.h['P']
    L = result_list(st)
    m, i = I(L.length()), I(force(st.by_type(r'^std::vec::IntoIter<').v).f[1])
    st.inv('counts', And(le(0, m), le(m, i), le(i, P.n)))
    if st.phase == 'init':
        return
    if st.phase == 'assume':
        lam = h['lam']
        posf = fnsym('where', 'I', 'I')
        pos = lambda q: app(posf, canon(q))
        h['o'] = {'lam': lam, 'pos': pos, 'i': i, 'm': m, 'have': st.have0}
    else:
        o = h['o']
        i0, m0 = o['i'], o['m']
        pushed = eq(m, m0 + 1)
        st.inv('at most one more', Or(eq(m, m0), pushed))
        st.inv('one more candidate', eq(i, i0 + 1))
        lam = lambda j: ite(And(pushed, eq(j, m0)), i0, o['lam'](j))
        pos = lambda q: ite(eq(q, i0), m0, o['pos'](q))
        j = st.run.fresh('j', 'I')
        x, y = c.xy(L.at(j)), c.xy(P.at(lam(j)))
        st.inv('the list holds the chosen candidates', Implies(And(le(0, j), lt(j, m)), And(eq(x[0], y[0]), eq(x[1], y[1]))))

    def old(*names):
        def f(q):
            if st.phase == 'preserve':
                for n in names:
                    st.have(n, q)
        return f
    st.inv_all('chosen', 1, lambda j: And(le(0, j), lt(j, m)), lambda j: And(le(0, lam(j)), lt(lam(j), i), twice(c, lam(j))),
               old('chosen'))
    st.inv_all('increasing', 1, lambda j: And(le(0, j), lt(j, m - 1)), lambda j: lam(j) < lam(j + 1), old('chosen', 'increasing'))
    st.inv_all('complete', 1, lambda q: And(le(0, q), lt(q, i), twice(c, q)),
               lambda q: And(le(0, pos(q)), lt(pos(q), m), eq(lam(pos(q)), q)), old('complete'))


@loop(FI, 1, total=2)
def inner(st):
    c = st.c
    h = c.h
    S, P = h['origins'], h['P']
    i, t = h['o']['i'], I(force(st.by_type(r'^std::slice::Iter<').v).f[1])
    s = force(st.by_type('^[iu](8|16|32|64|size)$').v)
    run = st.run
    run.fact(eq(cnt(i, 0), 0))
    st.inv('the number of segments the candidate was found on', And(eq(s, cnt(i, t)), le(0, t), le(t, S.n), le(0, s), le(s, 1)))
    if st.phase == 'assume':
        h['t'] = t
        hit = h['oncase'](P.at(i), t)
        run.fact(eq(cnt(i, t + 1), cnt(i, t) + ite(hit, I(1), I(0))))
        run.fact(Implies(lt(t, S.n), le(cnt(i, t + 1), cnt(i, S.n))))


# ---------------------------------------------------------------- pushing
def push_args(k):
    S = origins(k)
    outside(k, ())
    k.h['self'] = sweep(k, S)
    kind = k.choose(3, 'kind')
    k.h['seg'] = [k.segment, k.circle, k.arc][kind]('s')
    return [Ref(k.h['self']), Ref(Cell(k.h['seg']))]


PU = SW + '::push_segment'


@contract(PU, 'C25', args=push_args, stateful=True, proof_only=True, assumes=ASSUME)
def push(k, sw, s):
    if k.mode == 'use':
        raise Unsupported('pushing in use')
    S = k.h['origins']
    before = k.h['self'].v
    k.result
    now = k.ip.deref(k.ip.read(k.h['self'], ())).f
    fs = fields(k, SW)
    L = now[fs.index('origin_segments')]
    for i, f in enumerate(fs):
        if f not in ('origin_segments', 'segments'):
            k.ensure('nothing else is set by pushing', B(now[i] is before.f[i]))
    k.ensure('one more pushed segment', eq(L.length(), S.n + 1))
    i = k.int('i', 0, MOST)
    k.assume(lt(i, S.n))
    x, y = force(L.at(i)), force(S.at(i))
    k.ensure('the segments pushed before stay', And(B(x.var == y.var), *[eq(a, b) for a, b in zip(numbers(k, x, []), numbers(k, y, []))]))
    new = force(L.at(S.n))
    seg = k.h['seg']
    ty = k.tyname(seg)
    kind = 'LineSegment2' if ty == 'LineSegment2' else 'ArcSegment2'
    k.ensure('the kind of the segment is kept', k.isv(new, kind))
    if new.var != k.ip.p.variant(NODE, kind):
        return
    new = new.f[0]
    if kind == 'LineSegment2':
        for a, b in ((k.src(new), k.src(seg)), (k.tgt(new), k.tgt(seg))):
            k.ensure('the segment keeps its ends', And(eq(a[0], b[0]), eq(a[1], b[1])))
        return
    a, b = k.cen(new), k.cen(seg)
    k.ensure('the circle is kept', And(eq(a[0], b[0]), eq(a[1], b[1]), eq(k.rad(new), k.rad(seg))))
    u, v = k.acc(new, 'source_radian'), k.acc(new, 'target_radian')
    if ty == 'CircleSegment2':
        k.ensure('a circle is kept whole', And(eq(u, 0), eq(v, 2 * k.pi)))
        return
    p, q = k.acc(seg, 'source_radian'), k.acc(seg, 'target_radian')
    k.ensure('an arc keeps its angles (equal ones make the whole circle)',
             Or(And(eq(u, p), eq(v, q)), And(abs_(p - q) < k.eps, eq(u, 0), eq(v, 2 * k.pi))))


def loose(st, v):
    """the sweep after some iterations: everything but the pushed segments is unknown"""
    c = st.c
    fs = fields(c, SW)
    return sweep(c, v.f[fs.index('origin_segments')]).v


def more_pieces(st, v):
    i = fields(st.c, SW).index('segments')
    return Adt(SW, 0, [anysegs(st.c, 'pieces')[0] if n == i else x for n, x in enumerate(v.f)])


@loop(PU, 0, havoc={'self': more_pieces})
def pieces(st):
    """the pieces of an arc: everything else stays"""
    i = fields(st.c, SW).index('segments')
    now = st.c.h['self'].v.f
    was = st.remember('was', now)
    if st.phase == 'preserve':
        st.inv('only the list of pieces changes', B(all(n == i or x is y for n, (x, y) in enumerate(zip(was, now)))))


# ---------------------------------------------------------------- the whole
IN = SW + '::intersection'


def any_loop(st):
    """collecting the events and handling them: whatever is done there, the pushed segments stay"""
    c = st.c
    i = fields(c, SW).index('origin_segments')
    st.inv('the pushed segments stay', B(c.h['self'].v.f[i] is c.h['origins']))


for n in range(4):
    loop(IN, n, havoc={'self': loose}, only='every point reported lies on two')(any_loop)


@lemma('every point reported lies on two of the pushed segments', 'C25', assumes=ASSUME)
def _(k):
    if k.concrete:
        return scene(k)
    S = origins(k)
    outside(k, ('filter_intersection_points', 'intersection'))
    k.h['self'] = sweep(k, S)
    r = k.ip.deref(k.call(IN, Ref(k.h['self'])))
    if not isinstance(r, SymSeq) or 'reported' not in k.h:
        raise Unsupported('the result is not that of the filter')
    j = k.index('j', 0, r.length())
    k.h['reported'](j)
    q = k.h['place'](j)
    x, y = k.xy(r.at(j)), k.xy(k.h['P'].at(q))
    k.ensure('every point reported lies on at least two of the segments pushed', And(eq(x[0], y[0]), eq(x[1], y[1]), twice(k, q)))
    k.ensure('the pushed segments are those of before', B(k.h['self'].v.f[fields(k, SW).index('origin_segments')] is S))


def scene(k):
    from conc import Panic, Discard, Replay
    w = k.call(SW + '::new')
    segs = []
    for i in range(k.int('segments', 1, 5)):
        g = [k.segment, k.circle, k.arc, k.segment][k.choose(4, 'kind')]('s%d' % i)
        segs.append(g)
        k.call(PU, w, g)
    for _ in range(k.int('runs', 1, 2)):
        k.rp.limit = 1
        try:
            found = k.items(k.call(IN, w))
        except Panic:           # what is claimed is about the points it does report
            raise Discard()
        finally:
            k.rp.limit = Replay.limit
        for p in found:
            n = 0
            for g in segs:
                t = {'LineSegment2': 'line', 'CircleSegment2': 'circle', 'ArcSegment2': 'arc'}[k.tyname(g)]
                n += bool(B(k.call('is_point_2_on_%s_segment_2' % t, p, g)))
            k.ensure('every point reported lies on at least two of the segments pushed', B(n >= 2))
