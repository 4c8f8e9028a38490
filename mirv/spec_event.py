"""C26, C32: contracts on what the sweep does at an event, for any number of pieces and status nodes.
They are advisory, as those of spec_status.py are. The searches are those of spec_search.py; the order of the status is taken to be a
total order at each point (what it is: compare_segments in spec_status.py)."""
from ctx import *
from ctx import canon
from spec_avl import fields
from spec_sweep import SW, NODE, sweep, anysegs
from spec_search import ARC, anynodes, flat

ASSUME = ('compare_segments is, at each point, a total order of the pieces up to equality',
          'the value of a piece at a point is a function of both',
          'the tree of the status and that of the points are changed by calls on them only (Rust ownership), and their calls return')


class Pieces(SymSeq):
    """a list of pieces with the place of each in the order at the event"""
    __slots__ = ('rank',)

    def __init__(self, n, at, rank):
        SymSeq.__init__(self, n, at)
        self.rank = rank


def place(k, kind, s, p):
    a = flat(k, s) + flat(k, p)
    return app(fnsym('place of a ' + kind, ('R',) * len(a), 'R'), *a)


def height(k, kind, s, p):
    a = flat(k, s) + flat(k, p)
    return app(fnsym('value of a ' + kind, ('R',) * len(a), 'R'), *a)


def kindof(k, s):
    return 'LineSegment2' if k.tyname(s) == 'LineSegment2' else ARC


def pieces(k, name, p, made=None):
    S, line, one = made or anysegs(k, name)
    return Pieces(S.n, S.at, lambda i: ite(app(line, canon(i)), place(k, 'LineSegment2', one('LineSegment2', canon(i)), p),
                                           place(k, ARC, one(ARC, canon(i)), p)))


def joined(lists, n=None):
    """one list after another; n: only so many of them all"""
    def pick(i, f):
        i = I(i)
        out = None
        ends = [I(0)]
        for L in lists:
            ends.append(ends[-1] + L.n)
        return f(i, ends)

    def at(i):
        def g(i, ends):
            for L, lo, hi in zip(lists[:-1], ends, ends[1:]):
                if Lazy_decide(lt(i, hi)):
                    return L.at(i - lo)
            return lists[-1].at(i - ends[-2])
        return Lazy(lambda: force(pick(i, g)))

    def rank(i):
        def g(i, ends):
            r = lists[-1].rank(i - ends[-2])
            for L, lo, hi in reversed(list(zip(lists[:-1], ends, ends[1:]))):
                r = ite(lt(i, hi), L.rank(i - lo), r)
            return r
        return pick(i, g)
    total = I(0)
    for L in lists:
        total = total + L.n
    return Pieces(total if n is None else n, at, rank)


def Lazy_decide(c):
    return bool(c)


def sameseg(k, x, y):
    x, y = force(k.ip.deref(x)), force(k.ip.deref(y))
    return And(*[eq(a, b) for a, b in zip(flat(k, x), flat(k, y))]) if x.var == y.var else FALSE


def sorting(k, p):
    """sorting puts the pieces in the order at the event, each of them once"""
    def hook(ip, v, clo, m):
        run = k.run
        if not m.endswith('_by') or not isinstance(v, Pieces):
            raise Unsupported('sorting something else')
        v.at(I(0))
        if run.choose(2):
            L = pieces(k, 'any', p)
            a, b = run.fresh('a', 'I'), run.fresh('b', 'I')
            o = ip.deref(ip.call_value(clo, [Ref(Cell(force(L.at(a)))), Ref(Cell(force(L.at(b))))]))
            ra, rb = L.rank(a), L.rank(b)
            run.ensure('sorted by the order at the event', {-1: ra < rb, 0: eq(ra, rb), 1: rb < ra}[o.var])
            raise PathEnd('comparator')
        n = k.h['sorts'] = k.h.get('sorts', 0) + 1
        to, fro = fnsym('sorted%d.to' % n, 'I', 'I'), fnsym('sorted%d.from' % n, 'I', 'I')
        s = Pieces(v.n, lambda i: v.at(app(fro, canon(i))), lambda i: v.rank(app(fro, canon(i))))
        inr = lambda i: And(le(0, I(i)), lt(I(i), I(v.n)))

        def was(i):
            """where the i-th of the sorted list was"""
            j = app(fro, canon(i))
            run.fact(Implies(inr(i), And(inr(j), eq(app(to, j), I(i)))))
            return j

        def goes(i):
            """where the i-th goes"""
            j = app(to, canon(i))
            run.fact(Implies(inr(i), And(inr(j), eq(app(fro, j), I(i)))))
            return j

        def ordered(i, j):
            run.fact(Implies(And(le(0, I(i)), le(I(i), I(j)), lt(I(j), I(v.n))), le(s.rank(i), s.rank(j))))
        k.h['sorted'] = {'of': v, 'list': s, 'was': was, 'goes': goes, 'ordered': ordered}
        return s
    k.run.sort_hook = hook


def model(k, more=None):
    def call(fn):
        f = more and more(fn)
        if f:
            return f
        if fn.key == 'compare_segments':
            def compare(ip, f, a):
                x, y = (place(k, kindof(k, s), s, a[2]) for s in a[:2])
                return LESS if k.run.decide(x < y) else EQUAL if k.run.decide(eq(x, y)) else GREATER
            return compare
        if fn.key == 'calculate_segment_value':
            return lambda ip, f, a: height(k, kindof(k, a[0]), a[0], a[1])
        return None
    k.run.h['outside'] = call


# ---------------------------------------------------------------- the outermost pieces at a point
LR = SW + '::get_left_right_in_u_c'
LIST = '^std::vec::Vec<.*StatusNodeSegment<'


def outer_args(k):
    p = k.point('p')
    A, C = (pieces(k, n, p) for n in ('starting', 'passing'))
    k.assume(lt(0, A.n + C.n))
    model(k)
    sorting(k, p)
    k.h.update(parts=[A, C], p=p)
    return [Ref(sweep(k, anysegs(k, 'other')[0])), Ref(Cell(A)), Ref(Cell(C)), Ref(Cell(p))]


@contract(LR, 'C26', args=outer_args, stateful=True, proof_only=True, advisory=True, also=('C32',), assumes=ASSUME[:1])
def outermost(k, w, A, C, p):
    if k.mode == 'use':
        raise Unsupported('the outermost pieces in use')
    r = k.ip.deref(k.result)
    U = joined(k.h['parts'])
    o = k.h['sorted']
    k.ensure('all the pieces are sorted', eq(I(o['of'].n), U.n))
    q = k.index('q', 0, U.n)
    j = o['goes'](q)
    for v, i, what in ((r[0], I(0), 'first'), (r[1], U.n - 1, 'last')):
        at = o['was'](i)
        k.ensure('the %s piece is one of them' % what, And(le(0, at), lt(at, U.n)))
        k.ensure('the %s piece, as it is' % what, sameseg(k, v, U.at(at)))
        o['ordered'](i, j)
        o['ordered'](j, i)
        k.ensure('no piece comes %s' % ('before the first' if what == 'first' else 'after the last'),
                 le(U.rank(at), U.rank(q)) if what == 'first' else le(U.rank(q), U.rank(at)))


def stage(key, nth, total, before, part, itertype, first=False):
    """the loop that appends one list to those before; before(h): what is on the list already; part(h): the list appended"""
    def havoc(st, v):
        h = st.c.h
        n = st.run.fresh('m', 'I')
        L = h['stage%d' % nth] = joined(before(h) + [part(h)], n)
        return L

    @loop(key, nth, total=total, havoc={'<type>' + LIST: havoc})
    def inv(st):
        h = st.c.h
        L = st.by_type(LIST).v
        i = I(force(st.by_type(itertype).v).f[1])
        done = I(0)
        for x in before(h):
            done = done + x.n
        st.inv('counts', And(le(0, i), le(i, part(h).n), eq(I(L.length()), done + i)))
        if st.phase == 'init':
            st.inv('the list starts with what was put on it before', TRUE if first else B(L is h.get('stage%d' % (nth - 1))))
            if 'went' in h:
                st.inv('the list before was gone through', h['went']())
            return
        if st.phase == 'assume':
            h['at%d' % nth] = i, L
            h['went'] = lambda: eq(i, part(h).n)
            return
        i0, L0 = h['at%d' % nth]
        st.inv('one more', eq(i, i0 + 1))
        st.inv('the next piece is put on the list', sameseg(st.c, L.at(L0.n), part(h).at(i0)))


IT = '^std::(slice::Iter|vec::IntoIter)<'
stage(LR, 0, 2, lambda h: [], lambda h: h['parts'][0], IT, True)
stage(LR, 1, 2, lambda h: h['parts'][:1], lambda h: h['parts'][1], IT)


# ---------------------------------------------------------------- an event
HE = SW + '::handle_event_point'


def event_args(k):
    p = k.point('p')
    A, B_, C = (pieces(k, n, p) for n in ('starting', 'ending', 'passing'))
    M, line, one, S = anynodes(k, 'status')
    M2 = anynodes(k, 'status after')[0]
    old = pieces(k, '', p, (S, line, one))
    h = k.h
    h.update(p=p, A=A, B=B_, C=C, old=old, M=M, M2=M2, ops=[], calls=[], found={})
    others = anysegs(k, 'other')[0]
    some_piece = lambda n: others.at(I(n))
    h['outer'] = (some_piece(0), some_piece(1))
    h['beside'] = {'get_left_of_segment': some_piece(2), 'get_right_of_segment': some_piece(3)}
    h['around'] = (some_piece(4), some_piece(5))
    found = {'get_segment_with_source': A, 'get_active_segment_with_target': B_, 'get_active_segment_containing_point': C}
    fs = fields(k, SW)

    def call(fn):
        owner, name = fn.key.split('::')[0], fn.key.split('::')[-1]
        if owner == 'AVLTree':
            def tree(ip, f, a):
                if not isinstance(a[0], Ref) or a[0].cell is not h['self']:
                    raise Unsupported('which tree')
                t = fs[a[0].path[-1]]
                h['ops'].append((t, name, [ip.deref(x) for x in a[1:]]))
                if name == 'mid_order_traversal' and t == 'status_tree':
                    return M if sum(o[:2] == (t, name) for o in h['ops']) == 1 else M2
                if name not in ('insert', 'delete', 'clear'):
                    raise Unsupported('AVLTree::' + name)
                return UNIT
            return tree
        if owner == SW and name in found:
            def search(ip, f, a):
                h['calls'].append((name, a[1:]))
                return found[name]
            return search
        if owner == SW and name in ('get_left_right_in_u_c', 'get_left_of_segment', 'get_right_of_segment', 'get_neighbors_with_point', 'find_intersection_points'):
            def note(ip, f, a):
                h['calls'].append((name, [ip.deref(x) for x in a[1:]]))
                if name == 'get_left_right_in_u_c':
                    return h['outer']
                if name == 'find_intersection_points':
                    return UNIT
                if name not in h['found']:
                    h['found'][name] = k.run.choose(2)
                return some(h['around'] if name == 'get_neighbors_with_point' else h['beside'][name]) if h['found'][name] else NONE
            return note
        return None
    model(k, call)
    sorting(k, p)
    h['self'] = sweep(k, others)
    return [Ref(h['self']), Ref(Cell(p))]


def samepoint(k, x, y):
    return And(*[eq(a, b) for a, b in zip(k.xy(x), k.xy(y))])


@contract(HE, 'C26', args=event_args, stateful=True, proof_only=True, advisory=True, also=('C32',), assumes=ASSUME)
def event(k, w, p):
    if k.mode == 'use':
        raise Unsupported('an event in use')
    k.result
    h = k.h
    A, B_, C, p = h['A'], h['B'], h['C'], h['p']
    for n, a in h['calls']:
        if n.startswith(('get_segment_with', 'get_active', 'get_neighbors')):
            k.ensure('the pieces looked for are those at the event', samepoint(k, a[0], p))
    marks = [o for o in h['ops'] if o[0] == 'intersection_points']
    met = lt(1, A.n + B_.n + C.n)
    k.ensure('the event is kept as a candidate when several pieces meet there, and only then', Iff(B(len(marks) == 1), met))
    k.ensure('nothing else is put on the candidates', B(len(marks) <= 1 and all(o[1] == 'insert' for o in marks)))
    for o in marks:
        k.ensure('the candidate is the event', samepoint(k, o[2][0], p))
    got = [a for n, a in h['calls'] if n == 'find_intersection_points']
    some_ = lambda L: lt(0, L.n)
    if k.case(Not(Or(some_(A), some_(B_), some_(C)))):
        k.ensure('where no piece is nothing is done', B(not got and not h['ops']))
        return
    own = [o[1] for o in h['ops'] if o[0] == 'status_tree' and o[1] not in ('insert', 'delete')]
    k.ensure('the status is taken down and built again', B(own == ['mid_order_traversal', 'clear', 'mid_order_traversal']))
    k.ensure('every piece is put back', h['went']())
    want = []
    if k.case(Not(Or(some_(A), some_(C)))):
        k.ensure('the pieces around the event are looked for', B('get_neighbors_with_point' in h['found']))
        if h['found'].get('get_neighbors_with_point'):
            want.append(h['around'])
    else:
        for n, a in h['calls']:
            if n == 'get_left_right_in_u_c':
                k.ensure('the outermost of the pieces that start or pass here are asked for', B({id(a[0]), id(a[1])} == {id(A), id(C)}))
                k.ensure('at the event', samepoint(k, a[2], p))
            if n in h['beside']:
                k.ensure('the side of the outermost piece is looked at', sameseg(k, a[0], h['outer'][n == 'get_right_of_segment']))
                k.ensure('in the status after the event', B(a[1] is h['M2']))
        for n, m in enumerate(('get_left_of_segment', 'get_right_of_segment')):
            k.ensure('both sides are looked at', B(m in h['found']))
            if h['found'].get(m):
                want.append((h['outer'][n], h['beside'][m]))
        k.ensure('every two that leave the event side by side are looked at', h['side by side']() if 'side by side' in h else FALSE)
    both = lambda x, y: Or(And(sameseg(k, x[0], y[0]), sameseg(k, x[1], y[1])), And(sameseg(k, x[0], y[1]), sameseg(k, x[1], y[0])))
    for x in want:
        k.ensure('pieces that have become neighbours are tested for common points', Or(*[both(g, x) for g in got]))
    for g in got:
        k.ensure('tested for points after the event', samepoint(k, g[2], p))


def each(nth, name, part, check):
    """a loop with one change of the status for every element of a list"""
    @loop(HE, nth, total=7, havoc={'self': lambda st, v: v})
    def inv(st):
        h, run = st.c.h, st.run
        i = I(force(st.by_type(IT).v).f[1])
        st.inv('counts', And(le(0, i), le(i, part(h).n)))
        if st.phase == 'init':
            if 'went' in h:
                st.inv('the list before was gone through', h['went']())
            return
        if st.phase == 'assume':
            h['at%d' % nth] = i, len(h['ops'])
            h['went'] = lambda: eq(i, part(h).n)
            return
        i0, n = h['at%d' % nth]
        new = h['ops'][n:]
        st.inv('one more', eq(i, i0 + 1))
        st.inv('one change of the status for it', B([o[:2] for o in new] == [('status_tree', name)]))
        if [o[:2] for o in new] == [('status_tree', name)]:
            check(st, part(h), i0, new[0][2][0])


def field(k, v, name):
    v = force(v)
    return v.f[fields(k, v.ty).index(name)]


def away(st, L, i, node):
    k, h = st.c, st.c.h
    x = force(L.at(i))
    st.inv('it is taken out of the status', sameseg(k, field(k, node, 'segment'), x))
    last = force(field(k, h['self'].v, 'last_event_point'))
    if last.var == NONE.var:
        return
    s = x.f[0]
    st.inv('it is looked for where it was after the last event', And(
        eq(field(k, node, 'value'), height(k, kindof(k, s), s, last.f[0])), samepoint(k, field(k, node, 'point'), last.f[0])))


def back(st, L, i, node):
    k, h = st.c, st.c.h
    x = force(L.at(i))
    st.inv('it is put into the status', sameseg(k, field(k, node, 'segment'), x))
    s = x.f[0]
    st.inv('with its value at the event', And(eq(field(k, node, 'value'), height(k, kindof(k, s), s, h['p'])), samepoint(k, field(k, node, 'point'), h['p'])))


each(0, 'delete', lambda h: h['B'], away)
each(1, 'delete', lambda h: h['C'], away)
stage(HE, 2, 7, lambda h: [], lambda h: h['old'], IT, True)
stage(HE, 3, 7, lambda h: [h['old']], lambda h: h['A'], IT)
stage(HE, 4, 7, lambda h: [h['old'], h['A']], lambda h: h['C'], IT)
each(5, 'insert', lambda h: h['sorted']['list'], back)


@loop(HE, 6, total=7, havoc={'self': lambda st, v: v})
def pairs(st):
    """two curves side by side in the status that both are at the event"""
    k, h = st.c, st.c.h
    M = h['M2']
    i, end = (I(x) for x in st.iter().f[:2])
    st.inv('counts', And(le(1, i), eq(end, I(M.n)), Or(le(i, end), le(end, 1))))
    if st.phase == 'assume':
        h['at6'] = i, len(h['ops']), len(h['calls'])
        h['side by side'] = lambda: le(end, i)
    if st.phase != 'preserve':
        return
    i0, n, m = h['at6']
    st.inv('one more', eq(i, i0 + 1))
    st.inv('the status stays', B(len(h['ops']) == n))
    a, b = force(M.at(i0 - 1)), force(M.at(i0))
    here = lambda x: abs_(field(k, x, 'value') - k.xy(h['p'])[1]) < k.eps
    new = h['calls'][m:]
    st.inv('only tests for common points', B(all(c[0] == 'find_intersection_points' for c in new)))
    A, B_ = field(k, a, 'segment'), field(k, b, 'segment')
    st.inv('curves that leave the event side by side are tested for common points', Implies(And(here(a), here(b)), Or(*[
        Or(And(sameseg(k, g[0], A), sameseg(k, g[1], B_)), And(sameseg(k, g[0], B_), sameseg(k, g[1], A))) for _, g in new])))
    for _, g in new:
        st.inv('tested for points after the event', samepoint(k, g[2], h['p']))


# ---------------------------------------------------------------- the order of the status
def node_args(k):
    import spec_search
    out, info = [], []
    for n in 'ab':
        kind, s, v = spec_search.segment(k, n)
        m = {'value': k.real(n + '.value'), 'point': k.point(n + '.point'), 'segment': v}
        fs = fields(k, 'StatusNode')
        if sorted(fs) != sorted(m):
            raise Unsupported('fields of StatusNode')
        out.append(Ref(Cell(Adt(k.ip.p.ty('StatusNode'), 0, [m[f] for f in fs]))))
        info.append((kind, s, m))
    k.h['nodes'] = info
    k.h['compared'] = []
    spec_search.model(k)
    search = k.run.h['outside']

    def call(fn):
        if fn.key == 'compare_segments':
            def compare(ip, f, a):
                o = k.run.choose(3) - 1
                k.h['compared'].append((o, [ip.deref(x) for x in a]))
                return [LESS, EQUAL, GREATER][o + 1]
            return compare
        return search(fn)
    k.run.h['outside'] = call
    (ka, a, _), (kb, b, _) = info
    k.h['same'] = spec_search.same(k, ka, a, b) if ka == kb else FALSE
    return out


@contract('<StatusNode as PartialEq>::eq', 'C26', args=node_args, stateful=True, proof_only=True, advisory=True, also=('C32',),
          assumes=('when two points are equal (property C02) and the ends of an arc (property C21) are functions of the arguments',))
def node_eq(k, a, b):
    if k.mode == 'use':
        raise Unsupported('equality of status nodes in use')
    k.ensure('two nodes are equal exactly when they hold the same piece', Iff(k.result, k.h['same']))


@contract('<StatusNode as Ord>::cmp', 'C26', args=node_args, stateful=True, proof_only=True, advisory=True, also=('C32',),
          assumes=('when two points are equal (property C02) and the ends of an arc (property C21) are functions of the arguments',
                   'what compare_segments answers (its own contract)'))
def node_cmp(k, a, b):
    if k.mode == 'use':
        raise Unsupported('the order of status nodes in use')
    (_, s, x), (_, t, y) = k.h['nodes']
    o = k.ip.deref(k.result).var
    asked = k.h['compared']
    d = x['value'] - y['value']
    if k.case(abs_(d) >= k.eps):
        k.ensure('nodes of different value are ordered by it', d < 0 if o == -1 else d > 0 if o == 1 else FALSE)
        return
    if k.case(k.h['same']):
        k.ensure('a piece has one place', B(o == 0))
        return
    k.ensure('nodes of the same value are ordered by their pieces', B(len(asked) == 1 and asked[0][0] == o))
    u, v, q = asked[0][1]
    k.ensure('by the first and the second', And(*[eq(c, d) for c, d in zip(flat(k, u) + flat(k, v), flat(k, s) + flat(k, t))])
             if len(flat(k, u) + flat(k, v)) == len(flat(k, s) + flat(k, t)) else FALSE)
    later = k.ip.deref(k.call('<Point2 as Ord>::cmp', x['point'], y['point'])).var == 1
    k.ensure('at the point of theirs that comes first', samepoint(k, q, y['point'] if later else x['point']))


# ---------------------------------------------------------------- the sweep
IN = SW + '::intersection'
WHOLE = 'the sweep turns every end of a piece into an event and handles every event once'


@lemma(WHOLE, 'C26', stateful=True, proof_only=True, advisory=True, also=('C32',),
       assumes=ASSUME[2:] + ('the queue gives the events in order (property C24)', 'the trees list each of their points (property C22)',
                             'an event handled does not change the pieces'))
def _(k):
    import spec_search
    S, line, one = anysegs(k, 'pieces')
    fs = fields(k, SW)
    h = k.h
    h.update(S=S, line=line, one=one, ops=[], self=sweep(k, anysegs(k, 'pushed')[0], S), ends=k.points('ends'), met=k.points('met'), given=k.points('given'))
    spec_search.model(k)
    search = k.run.h['outside']

    def call(fn):
        owner, name = fn.key.split('::')[0], fn.key.split('::')[-1]
        if owner in ('AVLTree', 'PriorityQueue') and name != 'new':
            def note(ip, f, a):
                mine = isinstance(a[0], Ref) and a[0].cell is h['self']
                t = fs[a[0].path[-1]] if mine else 'ends'
                h['ops'].append((t, name, [ip.deref(x) for x in a[1:]]))
                if name == 'mid_order_traversal':
                    return h['ends' if t == 'ends' else 'met']
                if owner == 'PriorityQueue' and name == 'is_empty':
                    h['some'] = not k.run.choose(2)
                    h['empty'] = not h['some']
                    return B(not h['some'])
                if owner == 'PriorityQueue' and name == 'pop':
                    if not h.get('some') and k.run.choose(2):
                        h['empty'] = True
                        return NONE
                    h['some'] = False
                    h['event'] = k.point('event')
                    return some(h['event'])
                if name in ('insert', 'push', 'clear'):
                    return UNIT
                raise Unsupported(fn.key)
            return note
        if owner == 'AVLTree':
            return lambda ip, f, a: Opaque('tree')
        if owner == SW and name == 'handle_event_point':
            def handle(ip, f, a):
                h['ops'].append(('sweep', 'handle', [ip.deref(a[1])]))
                return UNIT
            return handle
        if owner == SW and name == 'filter_intersection_points':
            def filt(ip, f, a):
                h['ops'].append(('sweep', 'filter', [ip.deref(a[1])]))
                return h['given']
            return filt
        return search(fn)
    k.run.h['outside'] = call
    r = k.ip.deref(k.call(IN, Ref(h['self'])))
    k.ensure('every list was gone through', And(*[f() for f in h.get('all', [])]) if len(h.get('all', [])) == 2 else FALSE)
    k.ensure('the sweep ends when no event is left', B(bool(h.get('empty'))))
    last = [o for o in h['ops'] if o[0] == 'sweep']
    k.ensure('what is given is what passes the filter', B(r is h['given'] and len(last) == 1 and last[0][1] == 'filter'))
    k.ensure('of the points put aside as candidates', B(last[-1][2][0] is h['met']))
    tree = [o[:2] for o in h['ops'] if o[0] in ('intersection_points', 'status_tree', 'event_queue') and o[1] == 'clear']
    k.ensure('nothing is left of the sweep before', B(len(set(tree)) == 3))


def feed(nth, n, good):
    @loop(IN, nth, total=3, only=WHOLE, havoc={'self': lambda st, v: v})
    def inv(st):
        h = st.c.h
        i = I(force(st.by_type(IT).v).f[1])
        total = h['S'].n if nth == 0 else h['ends'].n
        st.inv('counts', And(le(0, i), le(i, total)))
        if st.phase == 'assume':
            h['at%d' % nth] = i, len(h['ops'])
            h.setdefault('all', []).append(lambda: eq(i, total))
        if st.phase == 'preserve':
            i0, m = h['at%d' % nth]
            st.inv('one more', eq(i, i0 + 1))
            good(st, i0, h['ops'][m:])


def both_ends(st, i, ops):
    import spec_search
    k, h = st.c, st.c.h
    x = force(h['S'].at(i))
    want = spec_search.ends(k, kindof(k, x.f[0]), x.f[0])
    got = [o[2][0] for o in ops if o[:2] == ('ends', 'insert')]
    for p in want:
        st.inv('each end of the piece is noted', Or(*[samepoint(k, p, q) for q in got]))
    st.inv('nothing else happens', B(len(got) == len(ops)))


def queued(st, i, ops):
    k, h = st.c, st.c.h
    st.inv('each of the ends becomes an event', B([o[:2] for o in ops] == [('event_queue', 'push')]))
    if len(ops) == 1:
        st.inv('as it is', samepoint(k, ops[0][2][0], h['ends'].at(i)))


feed(0, 3, both_ends)
feed(1, 3, queued)


def any_last(st, v):
    i = fields(st.c, SW).index('last_event_point')
    p = st.c.point('last') if st.run.choose(2) else None
    return Adt(SW, 0, [(some(p) if p is not None else NONE) if n == i else x for n, x in enumerate(v.f)])


@loop(IN, 2, total=3, only=WHOLE, havoc={'self': any_last})
def events_inv(st):
    k, h = st.c, st.c.h
    i = fields(k, SW).index('last_event_point')
    last = force(h['self'].v.f[i])
    if st.phase == 'assume':
        h['at2'] = last, len(h['ops'])
    if st.phase != 'preserve':
        return
    was, m = h['at2']
    ops = h['ops'][m:]
    e = h.get('event')
    st.inv('one event is taken', B(sum(o[1] == 'pop' for o in ops) == 1 and e is not None))
    done = [o for o in ops if o[0] == 'sweep']
    if done:
        st.inv('it is handled once', B(len(done) == 1 and done[0][1] == 'handle'))
        st.inv('and nothing else', samepoint(k, done[0][2][0], e))
        st.inv('it becomes the last event', samepoint(k, last.f[0], e) if last.var == 1 else FALSE)
    else:
        st.inv('it is passed over only when it is the event handled last',
               B(k.call('<Point2 as PartialEq>::eq', was.f[0], e)) if was.var == 1 else FALSE)
    st.inv('nothing else happens', B(all(o[1] in ('pop', 'is_empty', 'handle') for o in ops)))
