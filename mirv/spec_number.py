"""C29: the number types f64 and f32 are the arithmetic the algorithms are written for."""
from ctx import *

TR = {'equals': 'NumberType'}
TOL = {'f64': '1e-10', 'f32': '1e-6'}
ALL = ['C%02d' % i for i in range(1, 22)] + ['C25', 'C26', 'C27', 'C28']


def num(k, t, m, *a):
    if k.concrete:
        return k.call('%s::%s' % (t, m), *a)
    return k.call('<%s as %s>::%s' % (t, 'NumberType' if m in FUNS else 'DefaultNumberValueTrait', m), *a)


FUNS = ('equals', 'sqrt', 'abs', 'sin', 'cos', 'acos', 'atan', 'atan2')


def near(k, t, a, b):
    """the same value: exactly in the proof, up to the rounding of the type in a replay"""
    if not k.concrete:
        return eq(a, b)
    return abs_(a - b) <= R(Fraction('1e-4' if t == 'f32' else '1e-9')) * (1 + abs_(b))


def literal(k, t, a, s):
    """a constant of the source: the number of that type nearest to it"""
    b = R(Fraction(s))
    return abs_(a - b) <= b * R(Fraction('1e-6' if t == 'f32' else '1e-12'))


def arg(k, t, name):
    x = k.real(name)
    if k.concrete:
        k.assume(abs_(x) <= 1000)
    return num(k, t, 'from_f64', x) if t == 'f32' else x


def number(t):
    @lemma('%s: two numbers are equal exactly when they differ by less than the tolerance' % t, 'C29', also=ALL)
    def _(k):
        a, b = arg(k, t, 'a'), arg(k, t, 'b')
        e = num(k, t, 'default_eps')
        k.ensure('the tolerance is that of the type', literal(k, t, e, TOL[t]))
        r = B(num(k, t, 'equals', a, b))
        if k.concrete:
            w = e * R(Fraction('0.01')) if t == 'f64' else e * R(Fraction('0.5'))
            if t == 'f32':
                k.assume(And(abs_(a) <= 4, abs_(b) <= 4))
            k.ensure('close numbers are equal', Implies(abs_(a - b) < e - w, r))
            k.ensure('numbers apart differ', Implies(abs_(a - b) > e + w, Not(r)))
        else:
            k.ensure('equal exactly when closer than the tolerance', Iff(r, abs_(a - b) < e))

    @lemma('%s: zero, the default and pi' % t, 'C29', also=ALL)
    def _(k):
        k.ensure('zero is 0', eq(num(k, t, 'zero'), R(0)))
        k.ensure('the default is 0', eq(num(k, t, 'default'), R(0)))
        k.ensure('pi is the number pi', near(k, t, num(k, t, 'pi'), k.pi))

    @lemma('%s: a double keeps its value' % t, 'C29', also=ALL)
    def _(k):
        x = k.real('x')
        k.ensure('the same value', near(k, t, num(k, t, 'from_f64', x), x))

    @lemma('%s: the absolute value and the square root' % t, 'C29', also=ALL)
    def _(k):
        x = arg(k, t, 'x')
        y = num(k, t, 'abs', x)
        k.ensure('not negative, and the number or its opposite', And(y >= 0, Or(near(k, t, y, x), near(k, t, y, -x))))
        s = num(k, t, 'sqrt', y)
        k.ensure('the root is not negative', s >= 0)
        k.ensure('the square of the root is the number', near(k, t, s * s, y))

    @lemma('%s: sine and cosine' % t, 'C29', also=ALL)
    def _(k):
        x = arg(k, t, 'x')
        s, c = num(k, t, 'sin', x), num(k, t, 'cos', x)
        k.ensure('the sine', near(k, t, s, k.sincos(x)[0]))
        k.ensure('the cosine', near(k, t, c, k.sincos(x)[1]))

    @lemma('%s: the angle of a vector' % t, 'C29', also=ALL)
    def _(k):
        y, x = arg(k, t, 'y'), arg(k, t, 'x')
        k.assume(x * x + y * y >= R(Fraction('0.0001')))
        if k.concrete:
            k.assume(Or(x > 0, abs_(y) > R(Fraction('0.001')) * abs_(x)))
        k.ensure('the angle from the positive x axis', near(k, t, num(k, t, 'atan2', y, x), k.atan2(y, x)))

    @lemma('%s: inverse cosine and tangent' % t, 'C29', also=ALL)
    def _(k):
        x = arg(k, t, 'x')
        k.ensure('the inverse tangent', near(k, t, num(k, t, 'atan', x), k.ufun('atan', x)))
        k.assume(abs_(x) <= R(Fraction('0.99')))
        k.ensure('the inverse cosine', near(k, t, num(k, t, 'acos', x), k.ufun('acos', x)))


for _t in ('f64', 'f32'):
    number(_t)
