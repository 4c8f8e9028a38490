"""C26, C32: contracts on the searches of the sweep through its status and its list of pieces, for any number of them.
They are advisory, as those of spec_status.py are: how these private functions share the work is no part of the property."""
from ctx import *
from ctx import canon
from spec_avl import fields, MOST
from spec_sweep import SW, NODE, sweep, anysegs, kinds, grow, numbers, on, TESTS

ASSUME = ('when two points are equal (property C02), the ends of an arc and whether it is an upper half are functions of the arc (what they are: property C21)',
          'the tests whether a point is on a segment or an arc are functions of their arguments (what they decide: properties C07 and C10)',
          'the status lists its nodes in order (property C22)')
ARC = 'ArcSegment2'


def flat(k, v):
    return numbers(k, v, [])


def arcpoint(k, m, s):
    a = flat(k, s)
    return Adt(k.ip.p.ty('Point2'), 0, [app(fnsym('arc %s %s' % (m, c), ('R',) * len(a), 'R'), *a) for c in 'xy'])


def arctop(k, s):
    a = flat(k, s)
    return app(fnsym('arc is the upper half', ('R',) * len(a), 'B'), *a)


def model(k, nodes=None):
    """what the searches call, as functions of the arguments"""
    def call(fn):
        name = fn.key.split('::')[-1]
        if fn.key in TESTS:
            return lambda ip, f, a: on(k, TESTS[fn.key], a[0], a[1])
        if fn.key.startswith(ARC + '::') or fn.key.startswith('<' + ARC) and len(fn.params) == 1:
            if name in ('source', 'target'):
                return lambda ip, f, a: arcpoint(k, name, a[0])
            if name == 'is_top':
                return lambda ip, f, a: arctop(k, a[0])
        if fn.key == 'Point2::equals':
            return lambda ip, f, a: near(k, *a[:2])
        if fn.key == 'AVLTree::mid_order_traversal' and nodes is not None:
            return lambda ip, f, a: nodes
        return None
    k.run.h['outside'] = call


def anynodes(k, name):
    """a list of status nodes: any number, any segments"""
    S, line, one = anysegs(k, name)
    d = k.ip.p.decls.get('StatusNode')
    if d is None or sorted(f for f, _ in d.fields) != ['point', 'segment', 'value']:
        raise Unsupported('fields of StatusNode')
    memo = {}

    def at(i):
        i = canon(i)
        if i.id not in memo:
            memo[i.id] = Adt(k.ip.p.ty('StatusNode'), 0, [S.at(i) if f == 'segment' else grow(k, t, name + '.' + f, i) for f, t in d.fields])
        return memo[i.id]
    return SymSeq(S.n, at), line, one, S


def near(k, p, q):
    a, b = flat(k, p), flat(k, q)
    f = fnsym('points are equal', ('R',) * 4, 'B')
    return Or(app(f, *a, *b), app(f, *b, *a))


def ends(k, kind, s):
    """where a piece starts and ends in its own direction"""
    if kind == 'LineSegment2':
        s = k.ip.deref(s)
        return [s.f[fields(k, 'LineSegment2').index(m)] for m in ('source', 'target')]
    return [arcpoint(k, m, s) for m in ('source', 'target')]


def center(k, s):
    return k.call('Point2::new', *k.cen(s))


def same(k, kind, s, t):
    (a, b), (c, d) = ends(k, kind, s), ends(k, kind, t)
    r = And(near(k, a, c), near(k, b, d))
    return r if kind == 'LineSegment2' else And(r, near(k, center(k, s), center(k, t)), abs_(k.rad(s) - k.rad(t)) < k.eps)


def segment(k, name):
    kind = ('LineSegment2', ARC)[k.choose(2, name + ' is an arc')]
    vs = kinds(k)
    s = grow(k, vs[kind][0][1], name, k.int(name + '#', 0, 0))
    return kind, s, Adt(NODE, k.ip.p.variant(NODE, kind), [s])


def side_args(k):
    L, line, one, S = anynodes(k, 'status')
    kind, s, v = segment(k, 's')
    model(k)
    k.h.update(L=L, S=S, match=lambda i: And(app(line, canon(i)) if kind == 'LineSegment2' else Not(app(line, canon(i))),
                                             same(k, kind, one(kind, i), s)))
    return [Ref(sweep(k, S)), Ref(Cell(v)), Ref(Cell(L))]


def side(name, left):
    key = SW + '::' + name

    @contract(key, 'C26', args=side_args, stateful=True, proof_only=True, advisory=True, also=('C32',), assumes=ASSUME[:1])
    def f(k, w, s, L):
        if k.mode == 'use':
            raise Unsupported('neighbours in use')
        match, S = k.h['match'], k.h['S']
        n = S.n
        r = k.ip.deref(k.result)
        q = k.index('q', 0, n)
        if r.var == NONE.var:
            if left:
                k.ensure('nothing on the left only when the piece is the first or is not in the status', Or(match(I(0)), Not(match(q))))
            else:
                k.ensure('nothing on the right only when the piece is the last or is not in the status', Implies(lt(q, n - 1), Not(match(q))))
            return
        t = k.h['t']
        k.ensure('something at its side only when the piece is in the status', And(le(0, t), lt(t, n), match(t)))
        o = t - 1 if left else t + 1
        k.ensure('the node at its side is in the status', And(le(0, o), lt(o, n)))
        x, y = force(r.f[0]), force(S.at(o))
        k.ensure('it is the one next to it', B(x.var == y.var))
        k.ensure('it is the one next to it, as it is', And(*[eq(a, b) for a, b in zip(flat(k, x), flat(k, y))]))

    @loop(key, 0, total=1)
    def inv(st):
        h = st.c.h
        i = I(st.iter().f[1])
        if st.phase == 'assume':
            h['t'] = i
        st.run.note_index(i)
        st.inv('counted', And(le(0, i), le(i, h['S'].n), eq(i, st.iter().f[0].f[1])))
        st.inv_forall('no node so far is the piece', 0, i, lambda q: Not(h['match'](q)))


side('get_left_of_segment', True)
side('get_right_of_segment', False)


# ---------------------------------------------------------------- the nodes around a point where pieces only end
def point_args(k):
    L, line, one, S = anynodes(k, 'status')
    model(k, L)
    p = k.point('p')
    y = k.xy(p)[1]
    value = lambda i: force(L.at(i)).f[fields(k, 'StatusNode').index('value')]
    k.h.update(L=L, S=S, above=lambda i: Or(value(i) > y, abs_(value(i) - y) < k.eps))
    return [Ref(sweep(k, S)), Ref(Cell(p))]


NP = SW + '::get_neighbors_with_point'


@contract(NP, 'C26', args=point_args, stateful=True, proof_only=True, advisory=True, also=('C32',), assumes=ASSUME[2:])
def neighbours(k, w, p):
    if k.mode == 'use':
        raise Unsupported('neighbours in use')
    above, S = k.h['above'], k.h['S']
    n = S.n
    r = k.ip.deref(k.result)
    q = k.index('q', 0, n)
    if r.var == NONE.var:
        k.ensure('no neighbours only when the point is below all nodes or above all', Or(above(I(0)), Not(above(q))))
        return
    t = k.h['t']
    k.ensure('the node above is not the first one', And(lt(0, t), lt(t, n), above(t)))
    k.ensure('the nodes before it are below the point', Implies(lt(q, t), Not(above(q))))
    for v, i, what in ((r.f[0][0], t - 1, 'below'), (r.f[0][1], t, 'above')):
        x, y = force(v), force(S.at(i))
        k.ensure('the neighbour %s is of its kind' % what, B(x.var == y.var))
        k.ensure('the neighbour %s, as it is' % what, And(*[eq(a, b) for a, b in zip(flat(k, x), flat(k, y))]))


@loop(NP, 0, total=1)
def neighbours_inv(st):
    h = st.c.h
    i = I(st.iter().f[1])
    if st.phase == 'assume':
        h['t'] = i
    st.run.note_index(i)
    st.inv('counted', And(le(0, i), le(i, h['S'].n), eq(i, st.iter().f[0].f[1])))
    st.inv('none found so far', And(Not(B(st.var('flag', '^bool$'))), eq(st.var('index', '^usize$'), 0)))
    st.inv_forall('the nodes so far are below the point', 0, i, lambda q: Not(h['above'](q)))


# ---------------------------------------------------------------- choosing pieces
def chosen(key, prop, args, assumes, what, itertype):
    @contract(key, prop, args=args, stateful=True, proof_only=True, advisory=True, also=('C32',), assumes=assumes)
    def f(k, w, p):
        if k.mode == 'use':
            raise Unsupported('choosing in use')
        S, good = k.h['S'], k.h['good']
        r = k.ip.deref(k.result)
        o = k.h['o']
        m = I(r.length())
        j, q = k.fresh('j', 'I'), k.fresh('q', 'I')
        o['have']('chosen', j)
        o['have']('increasing', j)
        o['have']('complete', q)
        lam, pos = o['lam'], o['pos']
        k.assume(And(le(0, q), lt(q, S.n)))
        k.ensure('every piece given ' + what, Implies(And(le(0, j), lt(j, m)), And(le(0, lam(j)), lt(lam(j), S.n), good(lam(j)))))
        k.ensure('the pieces are given in order, each once', Implies(And(le(0, j), lt(j, m - 1)), lam(j) < lam(j + 1)))
        k.ensure('every piece that %s is given' % what, Implies(good(q), And(le(0, pos(q)), lt(pos(q), m), eq(lam(pos(q)), q))))
        k.assume(And(le(0, j), lt(j, m)))
        x, y = force(r.at(j)), force(S.at(lam(j)))
        k.ensure('a piece is given as it is', B(x.var == y.var))
        k.ensure('a piece is given with its numbers', And(*[eq(a, b) for a, b in zip(flat(k, x), flat(k, y))]))

    def any_list(st, v):
        h = st.c.h
        lam = fnsym('chosen', 'I', 'I')
        h['lam'] = lambda j: app(lam, canon(j))
        return SymSeq(st.run.fresh('m', 'I'), lambda j: h['S'].at(h['lam'](j)))

    LIST = '^std::vec::Vec<.*StatusNodeSegment<'

    @loop(key, 0, total=1, havoc={'<type>' + LIST: any_list})
    def inv(st):
        c = st.c
        h, S, good = c.h, c.h['S'], c.h['good']
        L = st.by_type(LIST).v
        m, i = I(L.length()), I(force(st.by_type(itertype).v).f[1])
        st.inv('counts', And(le(0, m), le(m, i), le(i, S.n)))
        if st.phase == 'init':
            return
        if st.phase == 'assume':
            posf = fnsym('where', 'I', 'I')
            lam, pos = h['lam'], lambda q: app(posf, canon(q))
            h['o'] = {'lam': lam, 'pos': pos, 'i': i, 'm': m, 'have': st.have0}
        else:
            o = h['o']
            i0, m0 = o['i'], o['m']
            pushed = eq(m, m0 + 1)
            st.inv('at most one more', Or(eq(m, m0), pushed))
            st.inv('one more piece looked at', eq(i, i0 + 1))
            lam = lambda j: ite(And(pushed, eq(j, m0)), i0, o['lam'](j))
            pos = lambda q: ite(eq(q, i0), m0, o['pos'](q))
            if st.run.decide(pushed):
                x, y = force(L.at(m0)), force(S.at(i0))
                st.inv('the piece put on the list is the one looked at', B(x.var == y.var))
                st.inv('with its numbers', And(*[eq(a, b) for a, b in zip(flat(c, x), flat(c, y))]))

        def old(*names):
            def f(q):
                if st.phase == 'preserve':
                    for n in names:
                        st.have(n, q)
            return f
        st.inv_all('chosen', 1, lambda j: And(le(0, j), lt(j, m)), lambda j: And(le(0, lam(j)), lt(lam(j), i), good(lam(j))), old('chosen'))
        st.inv_all('increasing', 1, lambda j: And(le(0, j), lt(j, m - 1)), lambda j: lam(j) < lam(j + 1), old('chosen', 'increasing'))
        st.inv_all('complete', 1, lambda q: And(le(0, q), lt(q, i), good(q)),
                   lambda q: And(le(0, pos(q)), lt(pos(q), m), eq(lam(pos(q)), q)), old('complete'))


def choose_args(test, active):
    def f(k):
        if active:
            L, line, one, S = anynodes(k, 'status')
            w = sweep(k, S)
        else:
            S, line, one = anysegs(k, 'pieces')
            L = None
            w = sweep(k, S, S)
        model(k, L)
        p = k.point('p')
        k.h.update(S=S, good=lambda i: ite(app(line, canon(i)), test(k, p, 'LineSegment2', one('LineSegment2', i)), test(k, p, ARC, one(ARC, i))))
        return [Ref(w), Ref(Cell(p))]
    return f


def sweep_ends(k, kind, s):
    """the end the sweep comes to first and the one it comes to last: an upper half runs backwards"""
    a, b = ends(k, kind, s)
    if kind == 'LineSegment2':
        return lambda p: near(k, a, p), lambda p: near(k, b, p)
    top = arctop(k, s)
    return lambda p: ite(top, near(k, b, p), near(k, a, p)), lambda p: ite(top, near(k, a, p), near(k, b, p))


def inside(k, p, kind, s):
    a, b = ends(k, kind, s)
    return And(Not(near(k, a, p)), Not(near(k, b, p)), on(k, kind, p, s))


chosen(SW + '::get_segment_with_source', 'C26', choose_args(lambda k, p, kind, s: sweep_ends(k, kind, s)[0](p), False), ASSUME[:1],
       'starts at the point', '^std::slice::Iter<')
chosen(SW + '::get_active_segment_with_target', 'C26', choose_args(lambda k, p, kind, s: sweep_ends(k, kind, s)[1](p), True), (ASSUME[0], ASSUME[2]),
       'ends at the point', '^std::vec::IntoIter<')
chosen(SW + '::get_active_segment_containing_point', 'C26', choose_args(inside, True), ASSUME,
       'holds the point inside', '^std::vec::IntoIter<')
