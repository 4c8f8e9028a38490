"""C18: intersection of any two kinds of segment."""
from ctx import *
from spec_circ import SC
from spec_arcs import support

KINDS = {'segment': 'line_segment_2', 'circle': 'circle_segment_2', 'arc': 'arc_segment_2'}
A = {'segment': 'a segment', 'circle': 'a circle', 'arc': 'an arc'}
ORDER = ['segment', 'circle', 'arc']


def same_list(k, name, r, v):
    r, v = k.items(r), k.items(v)
    k.ensure(name + ': as many points', B(len(r) == len(v)))
    for p, q in zip(r, v):
        (a, b), (c, d) = k.xy(p), k.xy(q)
        k.ensure(name + ': the same points', And(eq(a, c), eq(b, d)))


def setup(k, ka, kb):
    a, b = getattr(k, ka)('s'), getattr(k, kb)('u')
    if 'segment' in (ka, kb) and ka != kb:
        s, o, ko = (a, b, kb) if ka == 'segment' else (b, a, ka)
        q = SC(k, s, o if ko == 'circle' else support(k, o))
        k.assume(And(q.clear, q.n >= k.eps))
    return a, b


def pair(ka, kb):
    swap = ORDER.index(ka) > ORDER.index(kb)
    f, g = sorted((ka, kb), key=ORDER.index)
    base = '%s_%s' % (KINDS[f], KINDS[g])
    title = '%s and %s' % (ka, kb)

    @lemma('points of %s and %s are those of the specialised function' % (A[ka], A[kb]), 'C18', maxlen=4)
    def _(k):
        a, b = setup(k, ka, kb)
        r = k.call('segment_2_segment_2_intersection', a, b)
        same_list(k, title, r, k.call(base + '_intersection', *((b, a) if swap else (a, b))))

    @lemma('verdict for %s and %s is that of the specialised function' % (A[ka], A[kb]), 'C18', maxlen=4)
    def _(k):
        a, b = setup(k, ka, kb)
        r = B(k.call('is_segment_2_segment_2_intersected', a, b))
        k.ensure(title + ': the same verdict', Iff(r, k.call('is_%s_intersected' % base, *((b, a) if swap else (a, b)))))

    @lemma('%s and %s intersect exactly when they have points' % (A[ka], A[kb]), 'C18', maxlen=4, paths=20000)
    def _(k):
        a, b = setup(k, ka, kb)
        r = B(k.call('is_segment_2_segment_2_intersected', a, b))
        v = k.call('segment_2_segment_2_intersection', a, b)
        k.ensure(title + ': points exactly when they intersect', Iff(r, B(len(k.items(v)) > 0)))


for _a in ORDER:
    for _b in ORDER:
        pair(_a, _b)
