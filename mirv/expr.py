"""Hash-consed expression DAG: reals ('R'), mathematical integers ('I'), booleans ('B'), sequences as
functions Int->sort (op 'sel').  Constant folding only; a polynomial normal form is used as the identity of
comparison atoms, so that the same comparison computed in two ways is one atom.

Concrete mode (CONC.on): numbers are exact rationals of binary64 inputs/outputs and comparisons are
three-valued: |difference| within the rounding allowance gives UNK, so a contract is only reported broken
when it is broken by more than rounding error can explain.
"""
from fractions import Fraction
import math

F0, F1 = Fraction(0), Fraction(1)


class _Conc:
    on = False
    tight = False
    tol = Fraction(1, 10 ** 11)     # relative to the magnitude of the terms a value was computed from


CONC = _Conc()
_tab = {}
_n = [0]


class E:
    __slots__ = ('op', 'args', 'sort', 'id', 'val', '_poly', '_z3', '_sz', '_mag', '_key')

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        return HOOK.decide(self)

    def __repr__(self):
        return show(self)

    # arithmetic
    def __add__(self, o):
        return add(self, o)
    __radd__ = lambda self, o: add(o, self)

    def __sub__(self, o):
        return sub(self, o)
    __rsub__ = lambda self, o: sub(o, self)

    def __mul__(self, o):
        return mul(self, o)
    __rmul__ = lambda self, o: mul(o, self)

    def __neg__(self):
        return neg(self)

    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __ge__(self, o):
        return le(o, self)

    def __and__(self, o):
        return And(self, o)

    def __or__(self, o):
        return Or(self, o)

    def __invert__(self):
        return Not(self)


class _Hook:
    decide = None


HOOK = _Hook()


def mk(op, args, sort, val=None):
    k = (op, tuple(a.id if isinstance(a, E) else a for a in args), sort, val)
    e = _tab.get(k)
    if e is None:
        e = E()
        e.op, e.args, e.sort, e.val = op, args, sort, val
        e.id = _n[0]
        _n[0] += 1
        e._poly = e._z3 = e._sz = e._mag = e._key = None
        _tab[k] = e
    return e


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')
UNK = mk('unk', (), 'B')        # concrete mode only


def reset():
    """drop everything interned by earlier runs (ids stay unique)"""
    _tab.clear()
    for e in (TRUE, FALSE, UNK):
        _tab[(e.op, (), 'B', None)] = e


def R(x):
    if isinstance(x, E):
        if x.sort == 'I':
            return real_of_int(x)
        return x
    if isinstance(x, float):
        x = Fraction(x)
    return mk('c', (), 'R', Fraction(x))


def I(x):
    if isinstance(x, E):
        return x
    return mk('c', (), 'I', int(x))


def B(x):
    if isinstance(x, E):
        return x
    return TRUE if x else FALSE


def var(name, sort='R'):
    return mk('v', (), sort, name)


def fnsym(name, argsorts, sort):
    return ('fn', name, tuple(argsorts), sort)


def app(fs, *args):
    """uninterpreted function application"""
    a = tuple(R(x) if s == 'R' else (I(x) if s == 'I' else x) for x, s in zip(args, fs[2]))
    return mk('app', a, fs[3], fs)


def real_of_int(x):
    if not isinstance(x, E):
        return R(x)
    if x.op == 'c':
        return R(x.val)
    return mk('toreal', (x,), 'R')


def isconst(e):
    return not isinstance(e, E) or e.op == 'c'


def cval(e):
    return e.val if isinstance(e, E) else e


def coerce2(a, b):
    if not isinstance(a, E):
        if isinstance(b, E):
            a = R(a) if b.sort == 'R' else I(a)
        elif isinstance(a, (Fraction, float)) or isinstance(b, (Fraction, float)):
            a, b = R(a), R(b)
        else:
            a, b = I(a), I(b)
    if not isinstance(b, E):
        b = R(b) if a.sort == 'R' else I(b)
    if a.sort != b.sort:
        if a.sort == 'I':
            a = real_of_int(a)
        if b.sort == 'I':
            b = real_of_int(b)
    return a, b


def _c(v, sort, m=None):
    if CONC.on and sort == 'R':
        e = E()
        e.op, e.args, e.sort, e.val = 'c', (), 'R', Fraction(v)
        e.id = _n[0]
        _n[0] += 1
        e._poly = e._z3 = e._sz = None
        e._key = 'raw' if m is None else None       # an input, or a copy of one: compared exactly
        e._mag = abs(e.val) if m is None else m
        return e
    return mk('c', (), sort, v)


def magn(e):
    return e._mag if e._mag is not None else abs(e.val)


def cdiv(a, b):
    """concrete mode only"""
    v = a.val / b.val
    return _c(v, 'R', magn(a) / abs(b.val) + abs(v) * magn(b) / abs(b.val))


def csqrt(a):
    v = max(a.val, F0)
    n, d = v.numerator, v.denominator
    k = 10 ** 40
    r = Fraction(math.isqrt(n * d * k * k), d * k)
    m = magn(a)
    if r > 0 and r * r * 10 ** 6 > m:
        return _c(r, 'R', m / r)
    return _c(r, 'R', Fraction(math.sqrt(float(m))) * 10 ** 5)


def creal(v, m=None):
    return _c(Fraction(v), 'R', m)


def add(a, b):
    a, b = coerce2(a, b)
    if a.op == 'c':
        if b.op == 'c':
            return _c(a.val + b.val, a.sort, magn(a) + magn(b))
        if a.val == 0:
            return b
    elif b.op == 'c' and b.val == 0:
        return a
    if a.sort == 'I':
        return _lin(a, b, 1)
    return mk('+', (a, b), a.sort)


def sub(a, b):
    a, b = coerce2(a, b)
    if b.op == 'c':
        if a.op == 'c':
            return _c(a.val - b.val, a.sort, magn(a) + magn(b))
        if b.val == 0:
            return a
    if a is b:
        return _c(0 if a.sort == 'I' else F0, a.sort)
    if a.op == 'c' and a.val == 0:
        return neg(b)
    if a.sort == 'I':
        return _lin(a, b, -1)
    return mk('-', (a, b), a.sort)


def _lin(a, b, s):
    """integers: keep sums in a canonical linear form, so i+1-1 is i"""
    p = dict(poly(a))
    for k, v in poly(b).items():
        nv = p.get(k, 0) + s * v
        if nv:
            p[k] = nv
        else:
            p.pop(k, None)
    return from_poly(p, 'I')


def from_poly(p, sort):
    res = None
    const = p.get((), 0)
    for k in sorted(k for k in p if k):
        v = p[k]
        m = None
        for vid, ex in k:
            for _ in range(ex):
                x = _byid[vid]
                m = x if m is None else mk('*', (m, x), sort)
        vv = int(v) if sort == 'I' else Fraction(v)
        if vv != 1:
            m = mk('*', (_c(vv, sort), m), sort)
        res = m if res is None else mk('+', (res, m), sort)
    if res is None:
        return _c(int(const) if sort == 'I' else Fraction(const), sort)
    if const:
        res = mk('+', (res, _c(int(const) if sort == 'I' else Fraction(const), sort)), sort)
    return res


def neg(a):
    if not isinstance(a, E):
        return -a
    if a.op == 'c':
        return _c(-a.val, a.sort, magn(a))
    if a.op == 'neg':
        return a.args[0]
    if a.sort == 'I':
        return sub(0, a) if False else from_poly({k: -v for k, v in poly(a).items()}, 'I')
    return mk('neg', (a,), a.sort)


def mul(a, b):
    a, b = coerce2(a, b)
    if a.op == 'c' and b.op == 'c':
        return _c(a.val * b.val, a.sort, magn(a) * magn(b))
    for x, y in ((a, b), (b, a)):
        if x.op == 'c':
            if x.val == 0:
                return x
            if x.val == 1:
                return y
            if x.val == -1:
                return neg(y)
    if a.sort == 'I':
        return from_poly(_pmul(poly(a), poly(b)), 'I')
    return mk('*', (a, b), a.sort)


def ite(c, a, b):
    c = B(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, E) and a.sort == 'B'):
        a, b = B(a), B(b)
        if a is b:
            return a
        return And(Implies(c, a), Implies(Not(c), b))
    a, b = coerce2(a, b)
    if a is b:
        return a
    return mk('ite', (c, a, b), a.sort)


def abs_(a):
    a = R(a) if not isinstance(a, E) else a
    if a.op == 'c':
        return _c(abs(a.val), a.sort, magn(a))
    if a.sort == 'I':
        return ite(le(0, a), a, neg(a))
    if a.op == 'abs':
        return a
    k = atom_key(a, R(0))
    if k is not None and k[1] < 0:
        a = neg(a)
    return mk('abs', (a,), a.sort)


def max_(a, b):
    return ite(le(b, a), a, b)


def min_(a, b):
    return ite(le(a, b), a, b)


# ---------- polynomials ----------
_byid = {}
POLY_LIMIT = 3000


def _pmul(p, q):
    if len(p) * len(q) > POLY_LIMIT:
        return None
    r = {}
    for k1, v1 in p.items():
        for k2, v2 in q.items():
            if not k1:
                k = k2
            elif not k2:
                k = k1
            else:
                d = dict(k1)
                for x, ex in k2:
                    d[x] = d.get(x, 0) + ex
                k = tuple(sorted(d.items()))
            nv = r.get(k, 0) + v1 * v2
            if nv:
                r[k] = nv
            else:
                r.pop(k, None)
    return r


def poly(e):
    """dict monomial -> coefficient, or None when too large. Monomial: sorted ((leaf id, exponent), ...)"""
    p = e._poly
    if p is not None:
        return p if p is not False else None
    op = e.op
    if op == 'c':
        p = {(): e.val} if e.val else {}
    elif op in '+-' and len(op) == 1:
        a, b = poly(e.args[0]), poly(e.args[1])
        if a is None or b is None or len(a) + len(b) > POLY_LIMIT:
            p = None
        else:
            p = dict(a)
            s = 1 if op == '+' else -1
            for k, v in b.items():
                nv = p.get(k, 0) + s * v
                if nv:
                    p[k] = nv
                else:
                    p.pop(k, None)
    elif op == 'neg':
        a = poly(e.args[0])
        p = None if a is None else {k: -v for k, v in a.items()}
    elif op == '*':
        a, b = poly(e.args[0]), poly(e.args[1])
        p = None if a is None or b is None else _pmul(a, b)
    else:
        _byid[e.id] = e
        p = {((e.id, 1),): 1}
    e._poly = p if p is not None else False
    return p


def atom_key(a, b):
    """(canonical key of a-b, sign): a-b = positive * key-poly * sign; None if unknown"""
    d = sub(a, b)
    p = poly(d)
    if p is None:
        return None
    if not p:
        return ('0', 0)
    ks = sorted(p)
    lead = p[ks[-1]]
    s = 1 if lead > 0 else -1
    al = Fraction(lead)
    return (tuple((k, Fraction(p[k]) / al) for k in ks), s)


# ---------- comparisons ----------
def _conc_cmp(a, b, strict):
    d = b.val - a.val
    if a.sort == 'I':
        return B(d > 0 if strict else d >= 0)
    t = 0 if a._key == 'raw' and b._key == 'raw' else CONC.tol * (magn(a) + magn(b))
    if d > t:
        return TRUE
    if d < -t:
        return FALSE
    if t == 0:
        return B(not strict)
    return UNK


def lt(a, b):
    a, b = coerce2(a, b)
    if a.op == 'c' and b.op == 'c':
        if CONC.on:
            return _conc_cmp(a, b, True)
        return B(a.val < b.val)
    if a is b:
        return FALSE
    if a.op == 'abs':
        return And(lt(a.args[0], b), lt(neg(a.args[0]), b))
    if b.op == 'abs':
        return Or(lt(a, b.args[0]), lt(a, neg(b.args[0])))
    return _cmp('<', a, b)


def le(a, b):
    a, b = coerce2(a, b)
    if a.op == 'c' and b.op == 'c':
        if CONC.on:
            return _conc_cmp(a, b, False)
        return B(a.val <= b.val)
    if a is b:
        return TRUE
    return Not(lt(b, a))


def _cmp(op, a, b):
    k = atom_key(a, b)
    if k is not None:
        if k[0] == '0':
            return FALSE if op == '<' else TRUE
        if len(k[0]) == 1 and k[0][0][0] == ():
            v = k[0][0][1] * k[1]
            return B(v < 0) if op == '<' else FALSE
        # representation: difference vs 0 with canonical sign
        e = mk('v', (), 'B', ('atom', op if op == '=' else ('<' if k[1] > 0 else '>'), k[0], a.sort))
        # '<': keypoly < 0 ; '>': keypoly > 0
        if e.args == ():
            e.args = (a, b, op)
        return e
    return mk(op, (a, b), 'B')


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, E) and a.sort == 'B'):
        return Iff(a, b)
    a, b = coerce2(a, b)
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        if CONC.on and a.sort == 'R':
            return UNK_or_true(a, b)
        return B(a.val == b.val)
    return _cmp('=', a, b)


def UNK_or_true(a, b):
    if a.val == b.val:
        return TRUE
    return UNK if abs(a.val - b.val) <= CONC.tol * (magn(a) + magn(b)) else FALSE


def ne(a, b):
    return Not(eq(a, b))


# ---------- booleans ----------
def Not(a):
    a = B(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a is UNK:
        return UNK
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        else:
            yield x


def And(*xs):
    out, seen, unk = [], set(), False
    for x in _flat(xs):
        x = B(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x is UNK:
            unk = True
            continue
        for y in (x.args if x.op == 'and' else (x,)):
            if y.id not in seen:
                seen.add(y.id)
                out.append(y)
    for y in out:
        if Not(y).id in seen:
            return FALSE
    if unk:
        return UNK
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def Or(*xs):
    return Not(And(*[Not(x) for x in _flat(xs)]))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = B(a), B(b)
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return Not(b)
    if b is FALSE:
        return Not(a)
    if a is UNK or b is UNK:
        return UNK
    if a is b:
        return TRUE
    if a is Not(b):
        return FALSE
    return mk('iff', (a, b), 'B')


def ForAll(vs, body, pats=None):
    if body is TRUE or body is FALSE:
        return body
    return mk('forall', (tuple(vs), body, tuple(pats or ())), 'B', tuple(v.id for v in vs) + (body.id,))


def subst(e, m, memo=None):
    """m: {id: E}"""
    if memo is None:
        memo = {}
    r = m.get(e.id)
    if r is not None:
        return r
    r = memo.get(e.id)
    if r is not None:
        return r
    op = e.op
    if op == 'c' or op in ('true', 'false', 'unk'):
        return e
    if op == 'v':
        if isinstance(e.val, tuple) and e.val and e.val[0] == 'atom':
            a, b, o = e.args
            a2, b2 = subst(a, m, memo), subst(b, m, memo)
            if a2 is a and b2 is b:
                r = e
            else:
                r = lt(a2, b2) if o == '<' else eq(a2, b2)
        else:
            r = e
    elif op == 'forall':
        r = ForAll(e.args[0], subst(e.args[1], m, memo), e.args[2])
    else:
        a2 = tuple(subst(x, m, memo) for x in e.args)
        if all(x is y for x, y in zip(a2, e.args)):
            r = e
        else:
            r = rebuild(op, a2, e)
    memo[e.id] = r
    return r


def rebuild(op, a, e):
    if op == '+':
        return add(*a)
    if op == '-':
        return sub(*a)
    if op == '*':
        return mul(*a)
    if op == 'neg':
        return neg(*a)
    if op == 'and':
        return And(*a)
    if op == 'not':
        return Not(*a)
    if op == 'iff':
        return Iff(*a)
    if op == 'ite':
        return ite(*a)
    if op == '<':
        return lt(*a)
    if op == '=':
        return eq(*a)
    if op == 'abs':
        return abs_(*a)
    if op == 'toreal':
        return real_of_int(a[0])
    return mk(op, a, e.sort, e.val)


def atom_parts(e):
    """comparison atom -> (op, a, b) with op in '<','='; else None"""
    if e.op == 'v' and isinstance(e.val, tuple) and e.val[0] == 'atom':
        a, b, o = e.args
        return (o, a, b)
    if e.op in ('<', '='):
        return (e.op, e.args[0], e.args[1])
    return None


def show(e, d=0):
    if not isinstance(e, E):
        return str(e)
    if d > 12:
        return '...'
    p = atom_parts(e)
    if p:
        return '(%s %s %s)' % (show(p[1], d + 1), p[0], show(p[2], d + 1))
    if e.op == 'c':
        return str(e.val)
    if e.op == 'v':
        return str(e.val)
    if e.op == 'app':
        return '%s(%s)' % (e.val[1], ', '.join(show(x, d + 1) for x in e.args))
    if e.op == 'forall':
        return '(forall %s. %s)' % (' '.join(show(v) for v in e.args[0]), show(e.args[1], d + 1))
    if e.op in '+-*' and len(e.args) == 2:
        return '(%s %s %s)' % (show(e.args[0], d + 1), e.op, show(e.args[1], d + 1))
    return '%s(%s)' % (e.op, ', '.join(show(x, d + 1) for x in e.args))


def free_vars(e, acc=None, seen=None):
    if acc is None:
        acc, seen = {}, set()
    st = [e]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'v':
            if isinstance(x.val, tuple) and x.val[0] == 'atom':
                st.append(x.args[0])
                st.append(x.args[1])
            else:
                acc[x.id] = x
        elif x.op == 'forall':
            st.append(x.args[1])
        elif x.op == 'app':
            acc[('fn',) + x.val[1:2]] = x.val
            st.extend(x.args)
        else:
            st.extend(a for a in x.args if isinstance(a, E))
    return acc
