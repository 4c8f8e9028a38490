"""C21: arcs keep their circle and angles; splitting into monotone pieces."""
from ctx import *

RED = fnsym('reduced', ('R',), 'R')


def near(k, a, b):
    return abs_(a - b) < k.eps


def red(k, x):
    """x less whole double turns until it is at most a double turn"""
    four = mul(4, k.pi)
    if k.concrete:
        while not B(near(k, x, four)) and B(x > four):
            x = x - four
        return x
    for j in range(2 if k.run.ex.unroll is None else k.run.ex.unroll + 2):
        y = sub(x, mul(j, four))
        k.run.fact(ite(Or(near(k, y, four), y <= four), eq(app(RED, y), y), eq(app(RED, y), app(RED, sub(y, four)))))
    return app(RED, x)


def radians(k, g):
    return k.acc(g, 'source_radian'), k.acc(g, 'target_radian')


def samecircle(k, g, q):
    (a, b), (c, d) = k.cen(g), k.cen(q)
    k.ensure('the circle of the arc is the one given', And(eq(a, c), eq(b, d), eq(k.rad(g), k.rad(q))))


@lemma('an arc keeps its circle and its angles', 'C21')
def _(k):
    q = k.circle('q')
    s, t = k.real('s', 'radany'), k.real('t', 'radany')
    g = k.call('ArcSegment2::new', q, s, t)
    samecircle(k, g, q)
    a, b = radians(k, g)
    rs, rt = red(k, s), red(k, t)
    if k.case(near(k, rs, rt)):
        k.ensure('equal angles make the whole circle', And(eq(a, 0), eq(b, mul(2, k.pi))))
        return
    k.ensure('the source angle is kept, up to whole double turns', eq(a, rs))
    k.ensure('the target angle is kept, up to whole double turns', eq(b, rt))


def reduce_inv(st):
    c = st.c
    x = st.by_type(r'^T$').v
    if st.phase == 'init':
        st.memory['entry'] = x
    entry = st.memory['entry'] if st.phase != 'preserve' else st.old['entry']
    if st.phase == 'assume':
        st.memory['x'] = x
        red(c, x)
    elif st.phase == 'preserve':
        red(c, st.old['x'])
    st.inv('the angle has been changed by whole double turns', eq(app(RED, x), app(RED, entry)))


for _n in (0, 1):
    loop('ArcSegment2::new', _n, total=2, only='an arc keeps its circle', portable=True)(reduce_inv)


def arc4(k, name):
    """an arc with both angles between zero and a double turn"""
    s, t = k.real(name + '.sr', 'rad4'), k.real(name + '.tr', 'rad4')
    k.assume(And(s >= 0, t >= 0, s <= mul(4, k.pi), t <= mul(4, k.pi)))
    return k.call('ArcSegment2::new', k.circle(name + '.q'), s, t)


@lemma('the ends of an arc are the points of its circle at its angles', 'C21')
def _(k):
    g = k.arc('g')
    a, b = radians(k, g)
    (cx, cy), r = k.cen(g), k.rad(g)
    for m, x in (('source', a), ('target', b)):
        px, py = k.xy(k.acc(g, m))
        s, c = k.sincos(x)
        k.ensure('the %s is at its angle' % m, And(eq(px, cx + r * c), eq(py, cy + r * s)))
        k.ensure('the %s is at the radius' % m, eq((px - cx) * (px - cx) + (py - cy) * (py - cy), r * r))


@lemma('a whole circle splits into its upper and its lower half', 'C21')
def _(k):
    q = k.circle('q')
    gs = k.items(k.call('CircleSegment2::monotone', q))
    k.ensure('two halves', B(len(gs) == 2))
    for i, g in enumerate(gs[:2]):
        samecircle(k, g, q)
        a, b = radians(k, g)
        k.ensure('each half lies between neighbouring multiples of pi', And(eq(a, mul(i, k.pi)), eq(b, mul(i + 1, k.pi))))
        k.ensure('the first half is the upper one', Iff(B(k.call('ArcSegment2::is_top', g)), B(i == 0)))


@lemma('splitting an arc into monotone pieces', 'C21', time=300)
def _(k):
    g = arc4(k, 'g')
    pi = k.pi
    s, t = radians(k, g)
    end = t
    while B(end < s) if k.concrete else k.case(end < s):
        end = end + mul(2, pi)
    k.assume(end - s >= k.eps)
    cuts = [s]
    for m in range(0, 7):
        c = mul(m, pi)
        if k.case(And(c > s, Not(near(k, c, s)), c < end, Not(near(k, c, end)))):
            cuts.append(c)
    cuts.append(end)
    ps = k.items(k.call('ArcSegment2::monotone', g))
    k.ensure('cut exactly at the multiples of pi strictly within', B(len(ps) == len(cuts) - 1))
    for p, c, d in zip(ps, cuts, cuts[1:]):
        samecircle(k, p, g)
        a, b = radians(k, p)
        k.ensure('the pieces follow each other from the source to the target', And(eq(a, red(k, c)), eq(b, red(k, d))))


@lemma('an arc is a top arc exactly when it stays in the upper half', 'C21', time=300)
def _(k):
    g = arc4(k, 'g')
    two = mul(2, k.pi)
    s, t = radians(k, g)
    while k.case(Or(near(k, s, two), s > two)):
        s, t = s - two, t - two
    while k.case(t < s):
        t = t + two
    k.ensure('top exactly when it starts before pi and ends at pi at the latest',
             Iff(B(k.call('ArcSegment2::is_top', g)), And(s < k.pi, Or(near(k, t, k.pi), t < k.pi))))


@lemma('two arcs are equal exactly when circle and angles agree', 'C21')
def _(k):
    g, h = k.arc('g'), k.arc('h')
    (a, b), (c, d) = radians(k, g), radians(k, h)
    k.ensure('equality of arcs', Iff(B(k.call('<ArcSegment2 as PartialEq>::eq', g, h)),
                                     And(B(k.call('<Point2 as PartialEq>::eq', k.acc(g, 'center'), k.acc(h, 'center'))),
                                         eq(k.rad(g), k.rad(h)), near(k, a, c), near(k, b, d))))
