"""C20: convex hull of any number of points."""
from ctx import *
from ctx import canon

CH = 'ConvexHull2::convex_hull'


def cr(a, b):
    return a[0] * b[1] - a[1] * b[0]


def vsub(a, b):
    return a[0] - b[0], a[1] - b[1]


def turn(a, b, c):
    return cr(vsub(b, a), vsub(c, a))


def lexlt(a, b):
    return Or(a[0] < b[0], And(eq(a[0], b[0]), a[1] < b[1]))


def lexle(a, b):
    return Or(a[0] < b[0], And(eq(a[0], b[0]), a[1] <= b[1]))


Z = (0, 0)


def angles(k, u, v, w):
    """directions u, v, w of one half plane: when v is not right of u and w not right of v then w is not right of u"""
    up = lambda d: Or(d[0] > 0, And(eq(d[0], 0), d[1] > 0))
    k.algebra('angles', list(u) + list(v) + list(w), lambda a, b, c, d, e, f: (
        [Or(up((a, b)), And(eq(a, 0), eq(b, 0))), up((c, d)), Or(up((e, f)), And(eq(e, 0), eq(f, 0))),
         a * d - b * c >= 0, c * f - d * e >= 0], a * f - b * e >= 0))


class Chain:
    """one of the two chains; the upper one is the lower one of the points turned by half a turn, in the opposite order"""

    def __init__(self, c, up):
        self.c, self.up = c, up
        self.n = c.h['n']

    def place(self, i):
        return canon(self.n - 1 - I(i)) if self.up else canon(i)

    def pt(self, i):
        """the i-th point in the order of this chain"""
        x, y = self.c.h['xy'](self.place(i))
        return (-x, -y) if self.up else (x, y)

    def item(self, i):
        return self.c.h['S'].at(self.place(i))

    def xy(self, p):
        x, y = self.c.xy(p)
        return (-x, -y) if self.up else (x, y)

    def ordered(self, i, j):
        o = self.c.h['ordered']
        o(self.place(j), self.place(i)) if self.up else o(self.place(i), self.place(j))


def pos_of(st, ch):
    """how many points have been taken from the iterator of the outer loop"""
    it = st.iter()
    return canon(ch.n - it.f[0].f[2]) if ch.up else canon(it.f[1])


def stack(st):
    return st.by_type(r'Vec<.*Point2<').v


def any_stack(up):
    def f(st, v):
        ch = Chain(st.c, up)
        m = st.run.fresh('m', 'I')
        lam = fnsym('chain%d' % up, 'I', 'I')
        st.c.h['lam', up] = lam
        return SymSeq(m, lambda j: ch.item(app(lam, canon(j))))
    return f


def havoc_type(f):
    """havoc of the list the loop changes, whatever its name"""
    def g(st):
        cell = st.by_type(r'Vec<.*Point2<')
        cell.v = f(st, cell.v)
        return cell
    return g


def outer(up):
    def body(st):
        c = st.c
        ch = Chain(c, up)
        L = stack(st)
        m, i = I(L.length()), pos_of(st, ch)
        if st.phase == 'init':
            st.inv('empty at first', And(eq(m, 0), eq(i, 0)))
            return
        if st.phase == 'assume':
            lam = c.h['lam', up]
            at = lambda j: app(lam, canon(j))
        else:
            o = c.h['outer', up]
            lam0, i0, m0 = o['at'], o['i'], canon(m - 1)
            at = lambda j: ite(eq(I(j), m0), i0, lam0(j))
        el = lambda j: ch.pt(at(j))
        if st.phase == 'assume':
            c.h['outer', up] = {'at': at, 'i': i, 'el': el, 'm': m, 'st': st, 'ch': ch}
            st.inv('counts', And(le(0, m), le(m, i), Implies(lt(0, i), lt(0, m))))
            st.run.fact(Implies(lt(0, i), And(eq(at(0), 0), eq(at(m - 1), i - 1))))
        else:
            o, inner = c.h['outer', up], c.h['inner', up]
            el0, P = o['el'], ch.pt(i0)
            st.inv('counts', And(le(0, m), le(m, i), Implies(lt(0, i), lt(0, m))))
            st.inv('one more point', eq(i, i0 + 1))
            st.inv('the last point is on top', eq(at(m - 1), i - 1))
            st.inv('the first point is at the bottom', eq(at(0), 0))
        pre = st.phase == 'preserve'

        def pick(j):
            """the element j after the push, by cases"""
            return (P if c.case(eq(I(j), m0)) else el0(j)) if pre else el(j)

        def same(j):
            a, b = ch.xy(L.at(canon(j))), pick(j)
            return And(eq(a[0], b[0]), eq(a[1], b[1]))
        inst = lambda name, *q: st.have(name, *q)
        if pre:
            st.inv_all('the chain is made of points', 1, lambda j: And(le(0, j), lt(j, m)), same, lambda j: c.case(eq(j, m0)))
        st.inv_all('the places increase', 1, lambda j: And(le(0, j), lt(j, m - 1)),
                   (lambda j: lt(at(j), at(j + 1))) if not pre else
                   (lambda j: lt(lam0(j), i0) if c.case(eq(j + 1, m0)) else lt(lam0(j), lam0(j + 1))),
                   pre and (lambda j: (inst('the places increase', j), inst('places', j))))
        st.inv_all('places', 1, lambda j: And(le(0, j), lt(j, m)),
                   (lambda j: And(le(0, at(j)), lt(at(j), i))),
                   pre and (lambda j: (inst('places', j), c.case(eq(j, m0)))))

        def turns(j):
            return turn(pick(j), pick(j + 1), pick(j + 2)) > 0
        st.inv_all('every corner turns left', 1, lambda j: And(le(0, j), lt(j, m - 2)), turns,
                   pre and (lambda j: None if c.case(eq(j + 2, m0)) else inst('every corner turns left', j)))

        def left(j, q):
            e = (lambda j: pick(j)) if pre else el
            return turn(e(j), e(j + 1), ch.pt(q)) >= 0
        left_of_all = None
        if pre:
            # the new point is left of every edge below
            def step(j):
                for q in (j, j + 1):
                    inst('the places increase', q)
                for q in (j, j + 1, j + 2):
                    inst('places', q)
                inst('every corner turns left', j)
                ch.ordered(lam0(j), lam0(j + 1))
                ch.ordered(lam0(j + 1), lam0(j + 2))
                ch.ordered(lam0(j + 2), i0)
                a, b, d = el0(j), el0(j + 1), el0(j + 2)
                u, v, w = vsub(b, a), vsub(d, b), vsub(P, d)
                angles(c, u, v, w)
            left_of_all = c.induction_down('the new point is left of the chain', 0, m0 - 1, lambda j: turn(el0(j), el0(j + 1), P) >= 0, step)

        def hint(j, q):
            st.have('places', m0 - 1)
            if c.case(eq(j, m0 - 1)):
                if c.case(eq(q, i0)):
                    return
                top, Q = el0(m0 - 1), ch.pt(q)
                c.h['inner', up]['have'](q)
                if c.case(lexle(top, Q)):
                    return
                inst('places', m0 - 1)
                if not c.case(le(2, m0)):
                    ch.ordered(0, q)
                    return
                inst('places', m0 - 2)
                inst('the places increase', m0 - 2)
                ch.ordered(lam0(m0 - 2), lam0(m0 - 1))
                ch.ordered(lam0(m0 - 1), i0)
                ch.ordered(q, i0)
                inst('nothing is right of an edge', m0 - 2, q)
                low = el0(m0 - 2)
                angles(c, vsub(top, Q), vsub(top, low), vsub(P, top))
            elif c.case(eq(q, i0)):
                left_of_all(j)
            else:
                inst('nothing is right of an edge', j, q)
        st.inv_all('nothing is right of an edge', 2, lambda j, q: And(le(0, j), lt(j, m - 1), le(0, q), lt(q, i)), left, pre and hint)
    return body


def inner(up):
    def body(st):
        c = st.c
        o = c.h['outer', up]
        ch, el, i = o['ch'], o['el'], o['i']
        L = stack(st)
        m = I(L.length())
        P = ch.pt(i)
        top = lambda: el(m - 1)
        st.inv('only points of the chain are left', And(le(0, m), le(m, o['m']), Implies(lt(0, i), lt(0, m))))

        def same(j):
            a, b = ch.xy(L.at(canon(j))), el(j)
            return And(eq(a[0], b[0]), eq(a[1], b[1]))
        st.inv_all('the chain keeps its points', 1, lambda j: And(le(0, j), lt(j, m)), same)
        ost = o['st']
        inst = lambda name, *q: st.run.fact(ost.memory['all', name](*q))

        def above(q):
            return Implies(lexle(top(), ch.pt(q)), turn(top(), P, ch.pt(q)) >= 0)

        def hint_init(q):
            ch.ordered(q, i - 1)
            c.case(lexle(top(), ch.pt(q)))

        def hint(q):
            a, b, Q = el(m - 1), el(m), ch.pt(q)
            st.have('what was left of the top', q)
            if not c.case(lexle(a, Q)):
                return
            for j in (m - 1, m):
                inst('places', j)
            inst('the places increase', m - 1)
            inst('nothing is right of an edge', m - 1, q)
            at = o['at']
            ch.ordered(at(m - 1), at(m))
            ch.ordered(at(m), i)
            ch.ordered(q, i)
            u, v, w = vsub(P, a), vsub(b, a), vsub(Q, a)
            c.lemma('the removed point is not right of the new edge', cr(u, v) >= 0)
            if c.case(lexle(Q, b)):
                if c.case(And(eq(v[0], 0), eq(v[1], 0))):
                    return
                angles(c, u, v, w)
            else:
                z, t = vsub(P, Q), vsub(P, b)
                if c.case(And(eq(t[0], 0), eq(t[1], 0))):
                    return
                angles(c, z, t, u)
        st.inv_all('what was left of the top', 1, lambda q: And(le(0, q), lt(q, i)), above,
                   {'init': hint_init, 'preserve': hint}.get(st.phase))
        if st.phase == 'assume':
            c.h['inner', up] = {'have': lambda q: st.have0('what was left of the top', q)}
    return body


def any_length(st, v):
    return SymSeq(st.run.fresh('m', 'I'), v.at)


for _u in (0, 1):
    loop(CH, 2 * _u, total=4, havoc={'<type>Vec<.*Point2<': any_stack(_u)})(outer(_u))
    loop(CH, 2 * _u + 1, total=4, havoc={'<type>Vec<.*Point2<': any_length})(inner(_u))


ORDER = lambda a, b: (lexlt(a, b), And(eq(a[0], b[0]), eq(a[1], b[1])))


def hull(k, lo):
    ps = k.points('v', lo)
    k.sorts('by x, then by y', ORDER)
    r = k.call(CH, k.call('ConvexHull2::new', ps))
    return ps, r


def rot(j, n):
    return ite(lt(I(j), I(n)), I(j), I(j) - I(n))


class Hull:
    """the two chains after both loops, in the proof"""

    def __init__(self, k, n):
        self.k, self.n = k, n
        self.o = [k.h['outer', u] for u in (0, 1)]
        self.m = [o['m'] for o in self.o]

    def inst(self, u, name, *q):
        self.k.run.fact(self.o[u]['st'].memory['all', name](*q))

    def where(self, j):
        """the chain and the place in it of corner j"""
        k = self.k
        return (0, I(j)) if k.case(lt(I(j), self.m[0] - 1)) else (1, canon(I(j) - self.m[0] + 1))


def distinct(k, ps, i, j):
    (a, b), (c, d) = k.pxy(ps, i), k.pxy(ps, j)
    return Or(ne(a, c), ne(b, d))


@lemma('the hull of points that are not all the same', 'C20', time=300, unroll=4, bounded_loose=True)
def _(k):
    ps = k.points('v', 2)
    n = k.length(ps)
    # two of them differ
    f, g = k.index('f', 0, n), k.index('g', 0, n)
    k.assume(distinct(k, ps, f, g))
    k.sorts('by x, then by y', ORDER)
    r = k.call(CH, k.call('ConvexHull2::new', ps))
    m = k.length(r)
    sym = not k.concrete and not isinstance(m, int)
    H = None
    if not k.concrete and 'S' in k.h:
        for q in (f, g):
            j = k.h['at_old'](q)
            k.h['ordered'](0, j)
            k.h['ordered'](j, n - 1)
    if sym:
        H = Hull(k, n)
        n0, n1 = H.m[0] - 1, H.m[1] - 1
    k.ensure('at least two corners', le(2, I(m)))
    pt = lambda j: k.xy(k.at(r, j))

    if k.part():
        for j in k.every('j', 0, m):
            if sym:
                u, t = H.where(j)
                H.inst(u, 'places', t)
                i = k.h['at_new'](H.o[u]['ch'].place(H.o[u]['at'](t)))
                (x, y), (a, b) = pt(j), k.pxy(ps, i)
                k.ensure('every corner is one of the points', And(le(0, i), lt(i, n), eq(x, a), eq(y, b)))
            else:
                x, y = pt(j)
                k.exists('every corner is one of the points', 0, n, lambda i: And(eq(x, k.pxy(ps, i)[0]), eq(y, k.pxy(ps, i)[1])))
        k.done()

    def corner(j):
        """corner j of the cycle; symbolically through the chain it belongs to"""
        if not sym:
            return pt(j)
        u, t = H.where(j)
        x, y = H.o[u]['el'](t)
        return (-x, -y) if u else (x, y)

    def nxt(j):
        return rot(I(j) + 1, m) if not sym else (I(0) if k.case(eq(I(j) + 1, m)) else I(j) + 1)

    def same(a, b):
        return And(eq(a[0], b[0]), eq(a[1], b[1]))
    if sym and k.part():
        for j in k.every('j', 0, m):
            k.ensure('the chains are joined', same(pt(j), corner(j)))
        k.done()
    if sym and k.part():
        # where one chain ends the other begins
        a, b = H.o
        H.inst(0, 'places', n0)
        H.inst(1, 'places', n1)
        for x, y in ((a, b), (b, a)):
            p, q = x['el'](x['m'] - 1), y['el'](0)
            k.ensure('the chains meet', And(eq(p[0], -q[0]), eq(p[1], -q[1])))
        k.done()
    if k.part():
        for j in k.every('j', 0, m):
            for i in k.every('i', 0, n):
                if sym:
                    q = k.h['at_old'](i)
                    u, t = H.where(j)
                    H.inst(u, 'nothing is right of an edge', t, H.o[u]['ch'].place(q))
                    meet(k, H)
                k.ensure('every point is on the left of every side or on it', turn(corner(j), corner(nxt(j)), k.pxy(ps, i)) >= 0)
        k.done()
    if k.case(le(I(m), 2)):
        return
    for j in k.every('j', 0, m):
        a, b, c = corner(j), corner(nxt(j)), corner(nxt(nxt(j)))
        if sym:
            convex_hint(k, H, j)
        k.ensure('every corner turns left', turn(a, b, c) > 0)


def meet(k, H):
    for x, y in (H.o, H.o[::-1]):
        p, q = x['el'](canon(x['m'] - 1)), y['el'](0)
        k.run.fact(And(eq(p[0], -q[0]), eq(p[1], -q[1])))


def convex_hint(k, H, j):
    meet(k, H)
    u, t = H.where(j)
    mu = H.m[u]
    if k.case(le(t + 2, mu - 1)):
        H.inst(u, 'every corner turns left', t)
        return
    # the corner where one chain ends and the other begins
    w = 1 - u
    X, Y, mw = H.o[u], H.o[w], H.m[w]
    X0 = lambda t: X['el'](canon(t))
    Y0 = lambda t: tuple(-x for x in Y['el'](canon(t)))       # in the coordinates of the first chain
    a, b, c = X0(mu - 2), X0(mu - 1), Y0(1)
    in_x = lambda t: X['ch'].place(Y['ch'].place(Y['at'](canon(t))))
    in_y = lambda t: Y['ch'].place(X['ch'].place(X['at'](canon(t))))

    def below(u, t):
        H.inst(u, 'places', t)
        H.inst(u, 'places', canon(t + 1))
        H.inst(u, 'the places increase', t)
        o = H.o[u]
        o['ch'].ordered(o['at'](t), o['at'](canon(t + 1)))
    below(u, canon(mu - 2))
    below(w, I(0))
    A, C = vsub(a, b), vsub(c, b)
    neg_ = lambda x, y: Or(x < 0, And(eq(x, 0), y < 0))
    H.inst(w, 'places', I(1))
    H.inst(u, 'nothing is right of an edge', canon(mu - 2), in_x(1))
    k.lemma('the next corner is not right', turn(a, b, c) >= 0)
    if k.case(turn(a, b, c) > 0):
        return
    if k.case(le(3, mu)):
        d = X0(mu - 3)
        below(u, canon(mu - 3))
        H.inst(u, 'every corner turns left', canon(mu - 3))
        H.inst(w, 'nothing is right of an edge', I(0), in_y(mu - 3))
        if k.case(le(3, mw)):
            below(w, I(1))
            H.inst(w, 'every corner turns left', I(0))
        W = vsub(d, b)
        k.algebra('flat', [*A, *C, *W], lambda a, b, c, d, e, f: (
            [neg_(a, b), neg_(c, d), eq(a * d - b * c, 0), e * b - f * a > 0, c * f - d * e >= 0], FALSE))
    else:
        e = Y0(2)
        below(w, I(1))
        H.inst(w, 'places', I(2))
        H.inst(w, 'every corner turns left', I(0))
        H.inst(u, 'nothing is right of an edge', canon(mu - 2), in_x(2))
        W = vsub(e, b)
        k.algebra('flat', [*A, *C, *W], lambda a, b, c, d, e, f: (
            [neg_(a, b), neg_(c, d), eq(a * d - b * c, 0), c * f - d * e > 0, a * f - b * e <= 0], FALSE))


@lemma('the hull of points that are all the same', 'C20', unroll=4, bounded_loose=True)
def _(k):
    ps = k.points('v', 0)
    n = k.length(ps)
    k.sorts('by x, then by y', ORDER)
    if k.case(eq(I(n), 0)):
        r = k.call(CH, k.call('ConvexHull2::new', ps))
        k.ensure('nothing for no points', eq(k.length(r), 0))
        return
    x, y = k.real('x'), k.real('y')
    k.assume_forall(0, n, lambda i: And(eq(k.pxy(ps, i)[0], x), eq(k.pxy(ps, i)[1], y)))
    r = k.call(CH, k.call('ConvexHull2::new', ps))
    if not k.concrete:
        for j in (0, n - 1):
            k.note(k.h['at_new'](j))
    k.ensure('one corner', eq(k.length(r), 1))
    a, b = k.xy(k.at(r, 0))
    k.ensure('the point', And(eq(a, x), eq(b, y)))
