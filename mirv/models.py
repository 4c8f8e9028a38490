"""Meaning of the std / primitive operations the code uses (trusted: the assumed contracts on dependencies)."""
import re
from fractions import Fraction

from expr import *
import expr
from values import *
from mirparse import strip_generics, type_last, split_top, _match_angle

USED = set()        # models used in this process, for the evidence


def const(ip, t):
    if t in ('std::f64::consts::PI', 'core::f64::consts::PI', 'std::f32::consts::PI', 'core::f32::consts::PI'):
        return ip.run.PI
    m = re.match(r'^(?:std|core)::(usize|i32|u32|i64|u64|isize)::(MAX|MIN)$|^(?:\w+::)*<impl (\w+)>::(MAX|MIN)$', t)
    if m:
        from interp import INT_BITS
        lo, hi = INT_BITS[m.group(1) or m.group(3)]
        return hi - 1 if (m.group(2) or m.group(4)) == 'MAX' else lo
    return None


def isnum(v):
    return isinstance(v, (E, int, bool, Fraction))


# ------------------------------------------------------------------ generic comparison / clone by run-time value
def rt_eq(ip, a, b):
    a, b = ip.deref(a), ip.deref(b)
    if isnum(a) and isnum(b):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return a == b
        return expr.eq(a, b)
    if isinstance(a, Adt) and isinstance(b, Adt):
        f = ip.p.methods.get((a.ty, 'PartialEq', 'eq'))
        if f is not None:
            return ip.call_fn(f, [Ref(Cell(a)), Ref(Cell(b))])
        if a.ty in ('Option', 'Result', 'Ordering'):
            if a.var != b.var:
                return False
            return rt_all_eq(ip, a.f, b.f)
        raise Unsupported('== on ' + a.ty)
    if isinstance(a, tuple):
        return rt_all_eq(ip, a, b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.items) != len(b.items):
            return False
        return rt_all_eq(ip, a.items, b.items)
    if isinstance(a, RcV) and isinstance(b, RcV):
        return rt_eq(ip, Ref(a.cell), Ref(b.cell))
    if isinstance(a, RefCellO) and isinstance(b, RefCellO):
        if a.state < 0 or b.state < 0:
            raise RustPanic('already mutably borrowed')
        return rt_eq(ip, a.cell.v, b.cell.v)
    if isinstance(a, Token) and isinstance(b, Token):
        return ip.run.token_eq(a, b)
    if any(isinstance(x, Opaque) and x.name != 'uninitialised' for x in (a, b)):
        return ip.run.fresh('unknown', 'B')
    raise Unsupported('== on %s' % type(a).__name__)


def rt_all_eq(ip, xs, ys):
    acc = True
    for x, y in zip(xs, ys):
        if not ip.truth(rt_eq(ip, x, y)):
            return False
    return acc


def rt_partial_cmp(ip, a, b):
    """-> Option<Ordering>"""
    a, b = ip.deref(a), ip.deref(b)
    if isnum(a) and isnum(b):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return some(LESS if a < b else (EQUAL if a == b else GREATER))
        if ip.truth(lt(a, b)):
            return some(LESS)
        return some(EQUAL if ip.truth(expr.eq(a, b)) else GREATER)
    if isinstance(a, Adt):
        f = ip.p.methods.get((a.ty, 'PartialOrd', 'partial_cmp'))
        if f is not None:
            return ip.call_fn(f, [Ref(Cell(a)), Ref(Cell(b))])
        if a.ty == 'Option':
            if a.var != b.var:
                return some(LESS if a.var < b.var else GREATER)
            if a.var == 0:
                return some(EQUAL)
            return rt_partial_cmp(ip, a.f[0], b.f[0])
        if a.ty == 'Ordering':
            return some(LESS if a.var < b.var else (EQUAL if a.var == b.var else GREATER))
    if isinstance(a, tuple) or isinstance(a, Seq) and isinstance(b, Seq):
        xs, ys = (a, b) if isinstance(a, tuple) else (a.items, b.items)
        for x, y in zip(xs, ys):
            o = rt_partial_cmp(ip, x, y)
            if not (o.var == 1 and o.f[0].var == 0):
                return o
        return some(LESS if len(xs) < len(ys) else (EQUAL if len(xs) == len(ys) else GREATER))
    raise Unsupported('partial_cmp on %s' % type(a).__name__)


def rt_cmp(ip, a, b):
    a1, b1 = ip.deref(a), ip.deref(b)
    if isinstance(a1, Adt):
        f = ip.p.methods.get((a1.ty, 'Ord', 'cmp'))
        if f is not None:
            return ip.call_fn(f, [Ref(Cell(a1)), Ref(Cell(b1))])
    o = rt_partial_cmp(ip, a1, b1)
    if o.var == 0:
        raise Unsupported('cmp of unordered')
    return o.f[0]


def rt_rel(ip, meth, a, b):
    a1, b1 = ip.deref(a), ip.deref(b)
    if isnum(a1) and isnum(b1):
        if isinstance(a1, (int, bool)) and isinstance(b1, (int, bool)):
            return {'lt': a1 < b1, 'le': a1 <= b1, 'gt': a1 > b1, 'ge': a1 >= b1}[meth]
        return {'lt': lambda: lt(a1, b1), 'le': lambda: le(a1, b1), 'gt': lambda: lt(b1, a1),
                'ge': lambda: le(b1, a1)}[meth]()
    if isinstance(a1, Adt):
        f = ip.p.methods.get((a1.ty, 'PartialOrd', meth))
        if f is not None:
            return ip.call_fn(f, [Ref(Cell(a1)), Ref(Cell(b1))])
    o = rt_partial_cmp(ip, a1, b1)
    if o.var == 0:
        return False
    v = o.f[0].var
    return {'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0}[meth]


class Token:
    """opaque but comparable element"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


def clone(ip, v):
    v = force(v)
    if isinstance(v, Adt):
        f = ip.p.methods.get((v.ty, 'Clone', 'clone'))
        if f is not None:
            return ip.call_fn(f, [Ref(Cell(v))])
        return Adt(v.ty, v.var, [clone(ip, x) for x in v.f])
    if isinstance(v, tuple):
        return tuple(clone(ip, x) for x in v)
    if isinstance(v, Seq):
        return Seq([clone(ip, x) for x in v.items])
    if isinstance(v, (RcV, E, int, bool, Ref, SymSeq, It, Token, Clo, FnItem, Lazy)):
        return v
    if isinstance(v, RefCellO):
        return RefCellO(clone(ip, v.cell.v))
    if isinstance(v, BoxV):
        return BoxV(Cell(clone(ip, v.cell.v)))
    if hasattr(v, 'model_clone'):
        return v.model_clone()
    raise Unsupported('clone of %s' % type(v).__name__)


# ------------------------------------------------------------------ iterators
def conc(n):
    n = force(n)
    if isinstance(n, E) and n.op == 'c':
        return n.val
    return n


def mk_slice_iter(ip, ref):
    """iterator over &[T] / &Vec<T>"""
    r = ref
    v = ip.read(r.cell, r.path)
    while isinstance(v, Ref):
        r = v
        v = ip.read(r.cell, r.path)
    if isinstance(v, BoxV):
        r = Ref(v.cell)
        v = ip.read(r.cell, r.path)
    return It('slice', r, 0, v.length())


def into_iter(ip, v, mutref=False):
    v = force(v)
    if isinstance(v, It):
        return v
    if isinstance(v, Ref):
        x = ip.deref(v)
        if isinstance(x, (Seq, SymSeq)):
            return mk_slice_iter(ip, v)
        if isinstance(x, It):
            return It('byref', v)
        if isinstance(x, Adt) and x.ty == 'Option':
            return It('vec', Seq([Ref(v.cell, v.path + (0,))] if x.var else []), 0, 1 if x.var else 0)
    if isinstance(v, (Seq, SymSeq)):
        return It('vec', v, 0, v.length())
    if isinstance(v, Adt) and v.ty == 'Option':
        return It('vec', Seq(v.f), 0, len(v.f))
    raise Unsupported('into_iter of %s' % type(v).__name__)


def it_next(ip, it):
    """-> (item or None, new iterator)"""
    k, f = it.kind, it.f
    if k in ('slice', 'vec', 'range'):
        if k == 'range':
            a, b = f
        else:
            s, a, b = f
        if not ip.truth(lt_i(a, b)):
            return None, it
        if k == 'range':
            return a, It(k, conc(a + 1), b)
        return seq_item(ip, k, s, a), It(k, s, conc(a + 1), b)
    if k == 'rev':
        return it_next_back(ip, f[0], wrap=True)
    if k == 'enumerate':
        x, n = it_next(ip, f[0])
        return (None, It(k, n, f[1])) if x is None else ((f[1], x), It(k, n, conc(f[1] + 1)))
    if k == 'map':
        x, n = it_next(ip, f[0])
        return (None, It(k, n, f[1])) if x is None else (ip.call_value(f[1], [x]), It(k, n, f[1]))
    if k in ('cloned', 'copied'):
        x, n = it_next(ip, f[0])
        return (None, It(k, n)) if x is None else (clone(ip, ip.deref(x)), It(k, n))
    if k == 'filter':
        n = f[0]
        while True:
            x, n = it_next(ip, n)
            if x is None:
                return None, It(k, n, f[1])
            if ip.truth(ip.call_value(f[1], [Ref(Cell(x))])):
                return x, It(k, n, f[1])
    if k == 'filter_map':
        n = f[0]
        while True:
            x, n = it_next(ip, n)
            if x is None:
                return None, It(k, n, f[1])
            y = ip.call_value(f[1], [x])
            if y.var == 1:
                return y.f[0], It(k, n, f[1])
    if k == 'zip':
        x, n = it_next(ip, f[0])
        if x is None:
            return None, It(k, n, f[1])
        y, m = it_next(ip, f[1])
        if y is None:
            return None, It(k, n, m)
        return (x, y), It(k, n, m)
    if k == 'chain':
        if f[0] is not None:
            x, n = it_next(ip, f[0])
            if x is not None:
                return x, It(k, n, f[1])
        x, n = it_next(ip, f[1])
        return x, It(k, None, n)
    if k == 'cycle':
        x, n = it_next(ip, f[1])
        if x is not None:
            return x, It(k, f[0], n)
        x, n = it_next(ip, f[0])
        return x, It(k, f[0], n)
    if k == 'skip':
        n = f[0]
        j = f[1]
        while j > 0:
            x, n = it_next(ip, n)
            if x is None:
                return None, It(k, n, 0)
            j -= 1
        x, n = it_next(ip, n)
        return x, It(k, n, 0)
    if k == 'take':
        if not ip.truth(lt_i(0, f[1])):
            return None, it
        x, n = it_next(ip, f[0])
        return x, It(k, n, conc(f[1] - 1))
    if k == 'windows':
        s, a, b, w = f
        if not ip.truth(le_i(a + w, b)):
            return None, it
        v = ip.read(s.cell, s.path)
        if isinstance(v, Seq):
            sub = Seq(v.items[a:a + w])
        else:
            sub = Seq([seq_val(ip, s, a + j) for j in range(w)])
        return Ref(Cell(sub)), It(k, s, conc(a + 1), b, w)
    if k == 'flat':
        n, cur, fn = f
        while True:
            if cur is not None:
                x, cur = it_next(ip, cur)
                if x is not None:
                    return x, It(k, n, cur, fn)
            y, n = it_next(ip, n)
            if y is None:
                return None, It(k, n, None, fn)
            cur = into_iter(ip, ip.call_value(fn, [y]) if fn is not None else y)
    if k == 'takewhile':
        x, n = it_next(ip, f[0])
        if x is not None and ip.truth(ip.call_value(f[1], [Ref(Cell(x))])):
            return x, It(k, n, f[1])
        return None, It('vec', Seq(), 0, 0)
    if k == 'skipwhile':
        n = f[0]
        while True:
            x, n = it_next(ip, n)
            if x is None or f[2] or not ip.truth(ip.call_value(f[1], [Ref(Cell(x))])):
                return x, It(k, n, f[1], True)
    if k == 'stepby':
        n, st, first = f
        if not first:
            for _ in range(st - 1):
                x, n = it_next(ip, n)
                if x is None:
                    return None, It(k, n, st, False)
        x, n = it_next(ip, n)
        return x, It(k, n, st, False)
    if k == 'byref':
        r = f[0]
        x, n = it_next(ip, ip.deref(r))
        ip.write(r.cell, r.path, n)
        return x, it
    if k == 'peekable':
        if f[1] is not None:
            return f[1][0], It(k, f[0], None)
        x, n = it_next(ip, f[0])
        return x, It(k, n, None)
    raise Unsupported('iterator ' + k)


def seq_val(ip, r, i):
    return force(ip.step(ip.read(r.cell, r.path), ('i', i)))


def seq_item(ip, kind, s, i):
    if kind == 'slice':
        return Ref(s.cell, s.path + (('i', i),))
    return s.get(i, ip.run)


def it_next_back(ip, it, wrap=False):
    k, f = it.kind, it.f

    def w(n):
        return It('rev', n) if wrap else n
    if k in ('slice', 'vec', 'range'):
        if k == 'range':
            a, b = f
        else:
            s, a, b = f
        if not ip.truth(lt_i(a, b)):
            return None, w(it)
        b2 = conc(b - 1)
        if k == 'range':
            return b2, w(It(k, a, b2))
        return seq_item(ip, k, s, b2), w(It(k, s, a, b2))
    if k == 'enumerate':
        n = it_len(ip, f[0])
        x, m = it_next_back(ip, f[0])
        return (None, w(It(k, m, f[1]))) if x is None else ((conc(f[1] + n - 1), x), w(It(k, m, f[1])))
    if k == 'map':
        x, n = it_next_back(ip, f[0])
        return (None, w(It(k, n, f[1]))) if x is None else (ip.call_value(f[1], [x]), w(It(k, n, f[1])))
    if k in ('cloned', 'copied'):
        x, n = it_next_back(ip, f[0])
        return (None, w(It(k, n))) if x is None else (clone(ip, ip.deref(x)), w(It(k, n)))
    if k == 'rev':
        x, n = it_next(ip, f[0])
        return x, w(It('rev', n))
    raise Unsupported('rev of ' + k)


def lt_i(a, b):
    a, b = conc(a), conc(b)
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return lt(a, b)


def le_i(a, b):
    a, b = conc(a), conc(b)
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return le(a, b)


def it_len(ip, it):
    k, f = it.kind, it.f
    if k in ('slice', 'vec'):
        return conc(f[2] - f[1])
    if k == 'range':
        if isinstance(conc(f[0]), int) and isinstance(conc(f[1]), int):
            return max(0, conc(f[1]) - conc(f[0]))
        return max_(f[1] - f[0], 0)
    if k in ('enumerate', 'map', 'cloned', 'copied', 'rev'):
        return it_len(ip, f[0])
    if k == 'zip':
        if f[1].kind == 'skip' and f[1].f[0].kind == 'cycle' or f[1].kind == 'cycle':
            return it_len(ip, f[0])
        a, b = it_len(ip, f[0]), it_len(ip, f[1])
        if isinstance(a, int) and isinstance(b, int):
            return min(a, b)
        if a is b or isinstance(a, E) and isinstance(b, E) and expr.eq(a, b) is TRUE:
            return a
        return min_(a, b)
    if k == 'skip':
        n = it_len(ip, f[0])
        if isinstance(n, int):
            return max(0, n - f[1])
        return max_(n - f[1], 0)
    if k == 'take':
        n = it_len(ip, f[0])
        if isinstance(n, int) and isinstance(f[1], int):
            return min(n, f[1])
        return min_(n, f[1])
    if k == 'windows':
        s, a, b, w = f
        n = conc(b - a - w + 1)
        if isinstance(n, int):
            return max(0, n)
        return max_(n, 0)
    raise Unsupported('length of iterator ' + k)


def it_at(ip, it, i):
    """k-th item (random access, must not fork)"""
    k, f = it.kind, it.f
    if k == 'slice':
        j = conc(f[1] + i)
        v = ip.read(f[0].cell, f[0].path)
        ip.run.note_index(j)
        if isinstance(v, SymSeq):
            return Ref(Cell(v.at(I(j) if not isinstance(j, E) else j)))
        return Ref(f[0].cell, f[0].path + (('i', j),))
    if k == 'vec':
        return f[0].get(conc(f[1] + i), ip.run)
    if k == 'range':
        return conc(f[0] + i)
    if k == 'enumerate':
        return (conc(f[1] + i), it_at(ip, f[0], i))
    if k == 'map':
        return ip.call_value(f[1], [it_at(ip, f[0], i)])
    if k in ('cloned', 'copied'):
        return clone(ip, ip.deref(it_at(ip, f[0], i)))
    if k == 'zip':
        return (it_at(ip, f[0], i), it_at(ip, f[1], i))
    if k == 'rev':
        return it_at(ip, f[0], conc(it_len(ip, f[0]) - 1 - i))
    if k == 'skip':
        return it_at(ip, f[0], conc(i + f[1]))
    if k == 'take':
        return it_at(ip, f[0], i)
    if k == 'cycle':
        n = it_len(ip, f[0])
        if f[0].kind != f[1].kind or not (f[1].f[1] == 0):
            raise Unsupported('random access into a started cycle')
        if isinstance(n, int) and isinstance(i, int):
            return it_at(ip, f[0], i % n)
        # i < 2n is known to the callers we support
        if not ip.run.entails(And(le(0, i), lt(i, n + n))):
            raise Unsupported('cycle index')
        return it_at(ip, f[0], ite(lt(i, n), i, i - n))
    if k == 'windows':
        s, a, b, w = f
        return Ref(Cell(Seq([seq_val(ip, s, conc(a + i + j)) for j in range(w)])))
    raise Unsupported('random access into ' + k)


def drain(ip, it, limit=400):
    out = []
    while True:
        x, it = it_next(ip, it)
        if x is None:
            return out
        out.append(x)
        if len(out) > (ip.unroll or limit):
            if ip.unroll is not None:
                ip.run.bounded = True
                raise PathEnd('unroll bound')
            raise Unsupported('unbounded iteration')


def infinite(it):
    return it.kind == 'cycle' or it.kind in ('skip', 'map', 'enumerate', 'cloned') and infinite(it.f[0])


def symbolic_len(ip, it):
    try:
        n = it_len(ip, it)
    except Unsupported:
        return None
    return n if isinstance(n, E) and n.op != 'c' else None


def collect(ip, it):
    n = symbolic_len(ip, it)
    if n is not None and ip.unroll is None:
        ip.run.note_index(n - 1)
        run = ip.run

        def at(k):
            with run.nofork(And(le(0, k), lt(k, n))):
                return it_at(ip, it, k)
        return SymSeq(n, at)
    return Seq(drain(ip, it))


# ------------------------------------------------------------------ dispatch
def call(ip, callee, key, args, fr, rty):
    USED.add(norm_name(key))
    if key[0] == 'trait':
        return call_trait(ip, callee, key[1], key[2], key[3], args, rty)
    return call_path(ip, callee, key[1], args, rty)


def norm_name(key):
    if key[0] == 'trait':
        t = type_last(key[1])
        return '<%s as %s>::%s' % (t if len(t) < 30 else t[:30], key[2], key[3])
    return key[1]


def D(ip, v):
    return ip.deref(v)


NUM_METHODS = ('sqrt', 'abs', 'sin', 'cos', 'acos', 'atan', 'atan2', 'powi', 'max', 'min', 'to_radians', 'hypot',
               'mul_add', 'signum', 'tan', 'recip', 'is_nan', 'is_finite', 'clamp', 'total_cmp', 'powf', 'asin',
               'is_infinite', 'rem_euclid', 'floor', 'ceil', 'round', 'sin_cos', 'copysign', 'is_sign_negative')


def number_op(ip, m, a):
    run = ip.run
    if m == 'equals':
        return lt(abs_(sub(a[0], a[1])), run.EPS)
    if m == 'sqrt':
        return run.sqrt(a[0])
    if m == 'abs':
        return abs_(a[0])
    if m == 'sin':
        return run.sincos(a[0])[0]
    if m == 'cos':
        return run.sincos(a[0])[1]
    if m == 'atan2':
        return run.atan2(a[0], a[1])
    if m in ('acos', 'atan'):
        return run.ufun(m, a[0])
    if m == 'max':
        return max_(a[0], a[1])
    if m == 'min':
        return min_(a[0], a[1])
    if m == 'powi' and isinstance(a[1], int) and 0 <= a[1] <= 4:
        r = R(1)
        for _ in range(a[1]):
            r = mul(r, a[0])
        return r
    if m == 'hypot':
        return run.sqrt(add(mul(a[0], a[0]), mul(a[1], a[1])))
    if m == 'mul_add':
        return add(mul(a[0], a[1]), a[2])
    if m == 'recip':
        return run.div(R(1), a[0])
    if m == 'sin_cos':
        return run.sincos(a[0])
    if m == 'is_nan' or m == 'is_infinite':
        return False
    if m == 'is_finite':
        return True
    if m == 'total_cmp':
        return rt_cmp(ip, a[0], a[1])
    if m == 'clamp':
        return max_(a[1], min_(a[0], a[2]))
    raise Unsupported('number operation ' + m)


def call_trait(ip, callee, st, tr, meth, args, rty):
    run = ip.run
    if tr in ('NumberType',):
        return number_op(ip, meth, [D(ip, x) for x in args])
    if tr == 'DefaultNumberValueTrait':
        if meth == 'zero' or meth == 'default':
            return R(0)
        if meth == 'default_eps':
            return run.EPS
        if meth == 'pi':
            return run.PI
        if meth == 'from_f64':
            return D(ip, args[0])
        raise Unsupported(callee)
    if tr in ('Add', 'Sub', 'Mul', 'Div', 'Neg', 'Rem', 'AddAssign', 'SubAssign', 'MulAssign', 'DivAssign'):
        a = [D(ip, x) for x in args]
        if all(isnum(x) for x in a):
            op = tr.replace('Assign', '')
            isint = all(isinstance(x, int) or isinstance(x, E) and x.sort == 'I' for x in a)
            if isint:
                r, ov = ip.binop(op + 'WithOverflow', a[0], a[1], type_last(st)) if op != 'Neg' else (neg(a[0]), False)
                if ip.truth(ov):
                    raise RustPanic('overflow')
            elif op == 'Neg':
                r = neg(a[0])
            elif op == 'Div':
                r = run.div(a[0], a[1])
            else:
                r = ip.binop(op, a[0], a[1], None)
            if tr.endswith('Assign'):
                ip.write(args[0].cell, args[0].path, r)
                return UNIT
            return r
        if isinstance(a[0], Adt):
            t = a[0].ty
            f = ip.p.methods.get((t, tr, meth))
            if f:
                ar = list(args)
                if not f.params[0][1].startswith('&'):
                    ar[0] = a[0]
                if len(ar) > 1 and not f.params[1][1].startswith('&'):
                    ar[1] = a[1]
                return ip.call_fn(f, ar)
        raise Unsupported(callee)
    if tr == 'PartialEq':
        r = rt_eq_impl(ip, args[0], args[1])
        if meth == 'eq':
            return r
        return (not r) if isinstance(r, bool) else Not(r)
    if tr == 'PartialOrd':
        if meth == 'partial_cmp':
            return rt_partial_cmp(ip, args[0], args[1])
        return rt_rel(ip, meth, args[0], args[1])
    if tr == 'Ord':
        if meth == 'cmp':
            return rt_cmp(ip, args[0], args[1])
        if meth in ('max', 'min'):
            a, b = args
            o = rt_cmp(ip, a, b)
            if meth == 'max':
                return a if o.var > 0 else b
            return a if o.var <= 0 else b
    if tr == 'Clone':
        if meth == 'clone':
            v = args[0]
            if isinstance(v, Ref):
                return clone(ip, ip.read(v.cell, v.path))
            return clone(ip, v)
        if meth == 'clone_from':
            ip.write(args[0].cell, args[0].path, clone(ip, D(ip, args[1])))
            return UNIT
    if tr in ('Deref', 'DerefMut'):
        return deref_model(ip, args[0])
    if tr == 'AsRef' or tr == 'Borrow':
        return deref_model(ip, args[0])
    if tr in ('Index', 'IndexMut'):
        r = args[0]
        v = ip.read(r.cell, r.path)
        while isinstance(v, Ref):
            r = v
            v = ip.read(r.cell, r.path)
        i = force(args[1])
        if isinstance(i, (It, Adt)):
            return slice_range(ip, r, v, i)
        check_index(ip, i, v)
        return Ref(r.cell, r.path + (('i', conc(i)),))
    if tr == 'IntoIterator':
        return into_iter(ip, args[0])
    if tr == 'Extend':
        r = args[0]
        v = ip.read(r.cell, r.path)
        it = into_iter(ip, args[1])
        n = symbolic_len(ip, it)
        if n is not None and ip.unroll is None or isinstance(v, SymSeq):
            ip.write(r.cell, r.path, concat(ip, v, collect(ip, it)))
        else:
            items = drain(ip, it)
            items = [clone(ip, D(ip, x)) if isinstance(x, Ref) else x for x in items]
            ip.write(r.cell, r.path, Seq(v.items + tuple(items)))
        return UNIT
    if tr in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
        return call_iter(ip, callee, meth, args)
    if tr == 'FromIterator':
        return collect(ip, into_iter(ip, args[0]))
    if tr == 'Default':
        t = type_last(st)
        if t == 'Vec':
            return Seq()
        if t == 'Option':
            return NONE
        if t in ('usize', 'i32', 'u32', 'i64', 'u64'):
            return 0
        if t == 'bool':
            return False
    if tr in ('From', 'Into'):
        if tr == 'Into' or len(args) == 1:
            a = force(args[0])
            if isnum(a) or isinstance(a, Seq):
                return a
    if tr in ('Fn', 'FnMut', 'FnOnce'):
        a = force(args[1])
        return ip.call_value(args[0], list(a) if isinstance(a, tuple) else [a])
    if tr == 'Not':
        v = D(ip, args[0])
        return (not v) if isinstance(v, bool) else Not(v)
    if tr in ('Debug', 'Display'):
        return Adt('Result', 0, (UNIT,))
    raise Unsupported('no model for ' + callee)


def rt_eq_impl(ip, a, b):
    return rt_eq(ip, a, b)


def check_index(ip, i, v):
    n = v.length()
    if isinstance(conc(i), int) and isinstance(n, int):
        if not 0 <= conc(i) < n:
            raise RustPanic('index out of bounds')
        return
    ip.run.note_index(i)
    if not ip.truth(And(le(0, i), lt(i, n))):
        raise RustPanic('index out of bounds')


def slice_range(ip, r, v, i):
    if not isinstance(v, Seq):
        raise Unsupported('slice of a symbolic sequence')
    n = len(v.items)
    if isinstance(i, It):
        a, b = conc(i.f[0]), conc(i.f[1])
    elif i.ty == 'RangeFrom':
        a, b = conc(i.f[0]), n
    elif i.ty == 'RangeTo':
        a, b = 0, conc(i.f[0])
    elif i.ty == 'RangeFull':
        a, b = 0, n
    else:
        raise Unsupported('slice by ' + i.ty)
    if not (isinstance(a, int) and isinstance(b, int)):
        raise Unsupported('symbolic slice range')
    if not 0 <= a <= b <= n:
        raise RustPanic('range out of bounds')
    return Ref(Cell(Seq(v.items[a:b])))


def concat(ip, a, b):
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(a.items + b.items)
    na = a.length()
    nb = b.length()

    def at(k):
        x = elem(a, k)
        y = elem(b, k - na)
        if x is None:
            return y
        if y is None:
            return x
        return merge(lt(k, na), x, y)
    return SymSeq(add(I(na), nb), at)


def elem(s, k):
    """k-th element without forking (ite chain for concrete-length sequences)"""
    if isinstance(s, SymSeq):
        return s.at(k)
    if not s.items:
        return None
    r = s.items[-1]
    for j in range(len(s.items) - 2, -1, -1):
        r = merge(expr.eq(k, j), s.items[j], r)
    return r


def deref_model(ip, r):
    v = r
    if isinstance(v, Ref):
        x = ip.read(v.cell, v.path)
        if isinstance(x, Guard):
            if not x.live:
                raise Unsupported('dead guard')
            return Ref(x.rc.cell)
        if isinstance(x, RcV):
            return Ref(x.cell)
        if isinstance(x, BoxV):
            return Ref(x.cell)
        if isinstance(x, (Seq, SymSeq)):
            return v
        if isinstance(x, Ref):
            return deref_model(ip, x)
    raise Unsupported('deref model of %r' % (type(v).__name__,))


def call_iter(ip, callee, m, args):
    a0 = force(args[0])
    if m == 'next' or m == 'next_back':
        r = a0
        it = ip.deref(r)
        rr = r
        while isinstance(ip.read(rr.cell, rr.path), Ref):
            rr = ip.read(rr.cell, rr.path)
        if not isinstance(it, It):
            raise Unsupported('next on %s' % type(it).__name__)
        x, n = it_next(ip, it) if m == 'next' else it_next_back(ip, it)
        ip.write(rr.cell, rr.path, n)
        return NONE if x is None else some(x)
    if m in ('iter', 'into_iter', 'by_ref', 'fuse') and isinstance(a0, It):
        return a0
    it = into_iter(ip, a0)
    if m == 'rev':
        return It('rev', it)
    if m == 'enumerate':
        return It('enumerate', it, 0)
    if m in ('map', 'filter', 'filter_map'):
        return It(m, it, args[1])
    if m in ('cloned', 'copied'):
        return It(m, it)
    if m == 'zip':
        return It('zip', it, into_iter(ip, args[1]))
    if m == 'chain':
        return It('chain', it, into_iter(ip, args[1]))
    if m == 'cycle':
        return It('cycle', it, it)
    if m in ('skip', 'take'):
        return It(m, it, conc(args[1]))
    if m == 'step_by':
        return It('stepby', it, conc(args[1]), True)
    if m == 'take_while':
        return It('takewhile', it, args[1])
    if m == 'skip_while':
        return It('skipwhile', it, args[1], False)
    if m == 'flat_map':
        return It('flat', it, None, args[1])
    if m == 'flatten':
        return It('flat', it, None, None)
    if m == 'peekable':
        return It('peekable', it, None)
    if m == 'collect':
        if 'Option<' in callee.split('collect')[-1] or 'Result<' in callee.split('collect')[-1]:
            raise Unsupported('collect into Option')
        return collect(ip, it)
    if m in ('any', 'all'):
        while True:
            x, it = it_next(ip, it)
            if x is None:
                return m == 'all'
            if ip.truth(ip.call_value(args[1], [x])) == (m == 'any'):
                if isinstance(a0, Ref):
                    pass
                return m == 'any'
            bump(ip, it)
    if m == 'position' or m == 'find' or m == 'find_map':
        k = 0
        while True:
            x, it = it_next(ip, it)
            if x is None:
                return NONE
            if m == 'find_map':
                y = ip.call_value(args[1], [x])
                if y.var == 1:
                    return y
            elif ip.truth(ip.call_value(args[1], [x if m == 'position' else Ref(Cell(x))])):
                return some(k) if m == 'position' else some(x)
            k += 1
            bump(ip, it)
    if m == 'fold':
        acc = args[1]
        for x in drain(ip, it):
            acc = ip.call_value(args[2], [acc, x])
        return acc
    if m == 'for_each':
        for x in drain(ip, it):
            ip.call_value(args[1], [x])
        return UNIT
    if m == 'count':
        n = symbolic_len(ip, it)
        return n if n is not None and ip.unroll is None else len(drain(ip, it))
    if m == 'len':
        return it_len(ip, it)
    if m == 'last':
        xs = drain(ip, it)
        return some(xs[-1]) if xs else NONE
    if m == 'nth':
        k = conc(args[1])
        x = None
        for _ in range(k + 1):
            x, it = it_next(ip, it)
            if x is None:
                break
        if isinstance(a0, Ref):
            ip.write(a0.cell, a0.path, it)
        return NONE if x is None else some(x)
    if m in ('sum', 'product'):
        xs = [D(ip, x) for x in drain(ip, it)]
        acc = None
        for x in xs:
            acc = x if acc is None else (acc + x if m == 'sum' else acc * x)
        return acc if acc is not None else (0 if m == 'sum' else 1)
    if m in ('max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key'):
        xs = drain(ip, it)
        if not xs:
            return NONE
        best = xs[0]
        for x in xs[1:]:
            if m.endswith('_key'):
                o = rt_cmp(ip, ip.call_value(args[1], [Ref(Cell(x))]), ip.call_value(args[1], [Ref(Cell(best))]))
            elif m.endswith('_by'):
                o = ip.call_value(args[1], [Ref(Cell(x)), Ref(Cell(best))])
            else:
                o = rt_cmp(ip, x, best)
            if m.startswith('max') and o.var >= 0 or m.startswith('min') and o.var < 0:
                best = x
        return some(best)
    if m == 'size_hint':
        n = it_len(ip, it)
        return (n, some(n))
    raise Unsupported('iterator method ' + m)


def bump(ip, it):
    r = ip.run
    r.itercount += 1
    if r.itercount > 3000:
        raise Unsupported('unbounded iteration')
    if ip.unroll is not None:
        return
    # symbolic iteration without invariant
    k = getattr(it, 'kind', None)
    if symbolic_len(ip, it) is not None:
        r.symiter = getattr(r, 'symiter', 0) + 1
        if r.symiter > 64:
            raise Unsupported('search over a sequence of unknown length')


def sort_items(ip, items, less):
    """stable insertion sort; comparisons fork the path, so every outcome is explored"""
    out = []
    for x in items:
        k = len(out)
        while k > 0 and less(x, out[k - 1]):
            k -= 1
        out.insert(k, x)
    return out


def call_path(ip, callee, path, args, rty):
    run = ip.run
    parts = path.split('::')
    m = parts[-1]
    ty = re.sub(r'<.*', '', parts[-2]) if len(parts) > 1 else ''
    im = re.search(r'<impl ([^>]*(?:<.*>)?[^>]*)>::', path)
    if im:
        t = im.group(1).strip()
        if t.startswith('['):
            ty = 'slice'
        else:
            ty = t
    if ty in ('f32', 'f64'):
        return number_op(ip, m, [D(ip, x) for x in args])
    if ty in ('usize', 'i32', 'u32', 'i64', 'u64', 'isize'):
        a = [conc(D(ip, x)) for x in args]
        if m == 'abs' and not isinstance(a[0], int):
            return abs_(a[0])
        if m == 'abs':
            return abs(a[0])
        if m == 'saturating_sub' and ty.startswith('u'):
            if isinstance(a[0], int) and isinstance(a[1], int):
                return max(0, a[0] - a[1])
            return max_(a[0] - a[1], 0)
        if m in ('max', 'min'):
            return (max_ if m == 'max' else min_)(a[0], a[1]) if not all(isinstance(x, int) for x in a) else (
                max(a) if m == 'max' else min(a))
        if m in ('wrapping_add', 'wrapping_sub', 'rem_euclid', 'pow', 'abs_diff', 'checked_sub', 'signum'):
            if all(isinstance(x, int) for x in a):
                if m == 'rem_euclid':
                    return a[0] % a[1]
                if m == 'pow':
                    return a[0] ** a[1]
                if m == 'abs_diff':
                    return abs(a[0] - a[1])
                if m == 'checked_sub':
                    return some(a[0] - a[1]) if a[0] >= a[1] else NONE
            elif m == 'abs_diff':
                return abs_(a[0] - a[1])
            elif m == 'checked_sub':
                return some(a[0] - a[1]) if ip.truth(le(a[1], a[0])) else NONE
        raise Unsupported(callee)
    if ty == 'Vec' or ty == 'slice':
        return call_vec(ip, callee, m, args)
    if ty == 'Option' or ty == 'Result':
        return call_option(ip, callee, ty, m, args)
    if ty == 'Rc':
        if m == 'new':
            return RcV(Cell(args[0]))
        if m == 'ptr_eq':
            a, b = D(ip, args[0]), D(ip, args[1])
            return a.cell is b.cell
        if m == 'clone':
            return D(ip, args[0])
        if m == 'strong_count':
            raise Unsupported('strong_count')
    if ty == 'RefCell':
        if m == 'new':
            return RefCellO(args[0])
        r = D(ip, args[0])
        if not isinstance(r, RefCellO):
            raise Unsupported('RefCell method on %s' % type(r).__name__)
        if m == 'borrow':
            if r.state < 0:
                raise RustPanic('already mutably borrowed')
            r.state += 1
            return Guard(r, False)
        if m == 'borrow_mut':
            if r.frozen:
                raise Unsupported('write to a node the proof only reads')
            if r.state != 0:
                raise RustPanic('already borrowed')
            r.state = -1
            return Guard(r, True)
        if m == 'into_inner':
            return r.cell.v
        if m == 'replace':
            if r.state != 0:
                raise RustPanic('already borrowed')
            o, r.cell.v = r.cell.v, args[1]
            return o
    if ty == 'Box':
        if m == 'new':
            return BoxV(Cell(args[0]))
        if m == 'new_uninit':
            return BoxV(Cell(Adt('MaybeUninit', 0, (None, Adt('ManuallyDrop', 0, (Adt('MaybeDangling', 0, (None,)),))))))
    if m == 'box_assume_init_into_vec_unsafe':
        return args[0].cell.v.f[1].f[0].f[0]
    if m == 'from_elem' and 'vec' in path:
        n = conc(args[1])
        if isinstance(n, int):
            return Seq([args[0]] * n)
        return SymSeq(n, lambda k: args[0])
    if m in ('max', 'min') and 'cmp' in path:
        a, b = force(args[0]), force(args[1])
        if isnum(a) and isnum(b):
            if isinstance(a, int) and isinstance(b, int):
                return max(a, b) if m == 'max' else min(a, b)
            return max_(a, b) if m == 'max' else min_(a, b)
        o = rt_cmp(ip, a, b)
        if m == 'max':
            return a if o.var > 0 else b
        return a if o.var <= 0 else b
    if ty == 'Ordering':
        o = D(ip, args[0])
        if m == 'reverse':
            return Adt('Ordering', -o.var)
        if m in ('is_lt', 'is_gt', 'is_eq', 'is_le', 'is_ge', 'is_ne'):
            return {'lt': o.var < 0, 'gt': o.var > 0, 'eq': o.var == 0, 'le': o.var <= 0, 'ge': o.var >= 0,
                    'ne': o.var != 0}[m[3:]]
        if m == 'then':
            return o if o.var else args[1]
        if m == 'then_with':
            return o if o.var else ip.call_value(args[1], [])
    if ty == 'BinaryHeap':
        return call_heap(ip, callee, m, args)
    if m in ('swap', 'replace', 'take') and 'mem' in path:
        a = args[0]
        o = ip.read(a.cell, a.path)
        if m == 'swap':
            b = args[1]
            ip.write(a.cell, a.path, ip.read(b.cell, b.path))
            ip.write(b.cell, b.path, o)
            return UNIT
        if m == 'replace':
            ip.write(a.cell, a.path, args[1])
            return o
        if isinstance(o, (Seq, SymSeq)):
            ip.write(a.cell, a.path, Seq())
            return o
        if isinstance(o, Adt) and o.ty == 'Option':
            ip.write(a.cell, a.path, NONE)
            return o
    if m == 'drop' and 'mem' in path:
        v = args[0]
        if isinstance(v, Guard) and v.live:
            v.live = False
            v.rc.state = v.rc.state + 1 if v.mut else v.rc.state - 1
        return UNIT
    if ty == 'bool' and m in ('then', 'then_some'):
        c = ip.truth(args[0])
        if not c:
            return NONE
        return some(ip.call_value(args[1], []) if m == 'then' else args[1])
    if path.startswith(('std::fmt', 'core::fmt')) or m in ('_print', '_eprint'):
        return UNIT if m in ('_print', '_eprint') else Opaque('fmt')
    if ty == 'fmt' or 'Formatter' in path or 'Argument' in path:
        return Adt('Result', 0, (UNIT,))
    if m in ('panic', 'panic_fmt', 'panic_display', 'unreachable_display', 'begin_panic', 'panic_explicit',
             'expect_failed', 'unwrap_failed', 'panic_const_rem_by_zero', 'panic_bounds_check', 'panic_str_2015') \
            or 'panicking' in path:
        raise RustPanic(callee)
    if m == 'abort' or m == 'exit':
        raise RustPanic(m)
    if m in ('black_box', 'identity', 'must_use'):
        return args[0]
    if ty == 'RangeInclusive' and m == 'new' and isinstance(args[0], (E, Fraction)) and R(args[0]).sort == 'R' and not (isinstance(args[0], E) and args[0].sort == 'I'):
        return It('span', args[0], args[1])
    if ty in ('RangeInclusive', 'Range') and m == 'contains':
        r, x = D(ip, args[0]), D(ip, args[1])
        if isinstance(r, It) and r.kind in ('range', 'span'):
            return And(le(r.f[0], x), (le if r.kind == 'span' else lt)(x, r.f[1]))
    if ty == 'RangeInclusive' and m == 'new':
        return It('range', args[0], conc(args[1] + 1))
    if m in ('repeat_n',):
        raise Unsupported(callee)
    if m == 'once' and 'iter' in path:
        return It('vec', Seq([args[0]]), 0, 1)
    if m == 'from_fn' and 'array' in path:
        mm = re.search(r', (\d+)', callee)
        if mm:
            return Seq([ip.call_value(args[0], [k]) for k in range(int(mm.group(1)))])
    raise Unsupported('no model for ' + callee)


def seqref(ip, r):
    """the Ref that directly holds the Seq"""
    v = ip.read(r.cell, r.path)
    while isinstance(v, (Ref, BoxV)):
        r = v if isinstance(v, Ref) else Ref(v.cell)
        v = ip.read(r.cell, r.path)
    return r, v


def call_vec(ip, callee, m, args):
    run = ip.run
    if m in ('new', 'with_capacity'):
        return Seq()
    r = force(args[0])
    if isinstance(r, Ref):
        r, v = seqref(ip, r)
        if not isinstance(v, (Seq, SymSeq)):
            if hasattr(v, 'model_vec'):
                return v.model_vec(ip, m, args, r)
            raise Unsupported('%s on %s' % (m, type(v).__name__))
    else:
        v = r
        r = Ref(Cell(v))

    def put(x):
        ip.write(r.cell, r.path, x)
    if m == 'len':
        return v.length()
    if m == 'is_empty':
        n = v.length()
        return n == 0 if isinstance(n, int) else expr.eq(n, 0)
    if m == 'push':
        put(v.push(args[1]))
        return UNIT
    if m == 'pop':
        n = v.length()
        if isinstance(n, int):
            if n == 0:
                return NONE
            x = v.get(n - 1, run)
            put(v.drop_last())
            return some(x)
        if ip.truth(expr.eq(n, 0)):
            return NONE
        x = v.get(n - 1, run)
        put(v.drop_last())
        return some(x)
    if m in ('first', 'last', 'first_mut', 'last_mut'):
        n = v.length()
        if not ip.truth(lt_i(0, n)):
            return NONE
        i = 0 if m.startswith('first') else conc(n - 1)
        if isinstance(n, E):
            run.note_index(i)
        return some(Ref(r.cell, r.path + (('i', i),)))
    if m in ('get', 'get_mut'):
        i = conc(args[1])
        if not ip.truth(lt_i(i, v.length())):
            return NONE
        return some(Ref(r.cell, r.path + (('i', i),)))
    if m in ('iter', 'iter_mut'):
        return mk_slice_iter(ip, r)
    if m == 'windows':
        return It('windows', r, 0, v.length(), conc(args[1]))
    if m in ('as_slice', 'as_mut_slice', 'deref', 'as_ref', 'into_boxed_slice', 'into_vec', 'to_vec', 'to_owned'):
        if m in ('to_vec', 'to_owned'):
            return clone(ip, v)
        return r if isinstance(force(args[0]), Ref) else v
    if m == 'clear':
        put(Seq())
        return UNIT
    if m == 'clone':
        return clone(ip, v)
    if m == 'reverse':
        if isinstance(v, Seq):
            put(Seq(v.items[::-1]))
        else:
            put(SymSeq(v.n, lambda k: v.at(v.n - 1 - k)))
        return UNIT
    if m in ('append', 'extend_from_slice'):
        o = force(args[1])
        if m == 'append':
            orf, ov = seqref(ip, o)
            put(concat(ip, v, ov))
            ip.write(orf.cell, orf.path, Seq())
        else:
            put(concat(ip, v, clone(ip, ip.deref(o))))
        return UNIT
    if m == 'contains':
        if isinstance(v, Seq):
            for x in v.items:
                if ip.truth(rt_eq(ip, x, args[1])):
                    return True
            return False
    if m in ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key'):
        h = run.sort_hook
        if isinstance(v, SymSeq):
            if h is None:
                raise Unsupported('sort of a symbolic sequence')
            put(h(ip, v, args[1] if len(args) > 1 else None, m))
            return UNIT

        def less(x, y):
            if m.endswith('by_key'):
                return rt_cmp(ip, ip.call_value(args[1], [Ref(Cell(x))]), ip.call_value(args[1], [Ref(Cell(y))])).var < 0
            if m.endswith('_by'):
                return ip.call_value(args[1], [Ref(Cell(x)), Ref(Cell(y))]).var < 0
            return rt_cmp(ip, x, y).var < 0
        if run.ex.sort_perm and len(v.items) > 1:
            # any permutation; the comparator is run once on an arbitrary pair for its own obligations (panics)
            n = len(v.items)
            pairs = [(i, j) for i in range(n) for j in range(n) if i < j]
            c = run.choose(1 + len(pairs))
            if c:
                i, j = pairs[c - 1]
                less(v.items[j], v.items[i])
                raise PathEnd('comparator')
            left, out = list(v.items), []
            while left:
                out.append(left.pop(run.choose(len(left))))
            put(Seq(out))
            return UNIT
        put(Seq(sort_items(ip, v.items, less)))
        return UNIT
    if not isinstance(v, Seq):
        raise Unsupported('%s on a symbolic sequence' % m)
    n = len(v.items)
    if m == 'remove' or m == 'swap_remove':
        i = conc(args[1])
        if isinstance(i, E):
            raise Unsupported('remove at a symbolic index')
        if not 0 <= i < n:
            raise RustPanic('removal index out of bounds')
        l = list(v.items)
        x = l.pop(i)
        if m == 'swap_remove' and i < len(l):
            l.insert(i, l.pop())
        put(Seq(l))
        return x
    if m == 'insert':
        i = conc(args[1])
        if not 0 <= i <= n:
            raise RustPanic('insertion index')
        l = list(v.items)
        l.insert(i, args[2])
        put(Seq(l))
        return UNIT
    if m == 'truncate':
        put(Seq(v.items[:conc(args[1])]))
        return UNIT
    if m == 'retain' or m == 'retain_mut':
        put(Seq([x for x in v.items if ip.truth(ip.call_value(args[1], [Ref(Cell(x))]))]))
        return UNIT
    if m in ('dedup', 'dedup_by_key', 'dedup_by'):
        out = []
        for x in v.items:
            if out:
                if m == 'dedup':
                    same = rt_eq(ip, x, out[-1])
                elif m == 'dedup_by':
                    same = ip.call_value(args[1], [Ref(Cell(x)), Ref(Cell(out[-1]))])
                else:
                    same = rt_eq(ip, ip.call_value(args[1], [Ref(Cell(x))]), ip.call_value(args[1], [Ref(Cell(out[-1]))]))
                if ip.truth(same):
                    continue
            out.append(x)
        put(Seq(out))
        return UNIT
    if m == 'swap':
        i, j = conc(args[1]), conc(args[2])
        if not (0 <= i < n and 0 <= j < n):
            raise RustPanic('index out of bounds')
        l = list(v.items)
        l[i], l[j] = l[j], l[i]
        put(Seq(l))
        return UNIT
    if m == 'split_first' or m == 'split_last':
        if n == 0:
            return NONE
        k = 0 if m == 'split_first' else n - 1
        rest = v.items[1:] if m == 'split_first' else v.items[:-1]
        return some((Ref(r.cell, r.path + (('i', k),)), Ref(Cell(Seq(rest)))))
    if m == 'rotate_left':
        k = conc(args[1])
        put(Seq(v.items[k:] + v.items[:k]))
        return UNIT
    if m == 'drain':
        a = force(args[1])
        if isinstance(a, Adt) and a.ty == 'RangeFull':
            put(Seq())
            return It('vec', v, 0, n)
    if m == 'map' and ty_is_array(callee):
        return Seq([ip.call_value(args[1], [x]) for x in v.items])
    raise Unsupported('no model for ' + callee)


def ty_is_array(c):
    return True


def call_option(ip, callee, ty, m, args):
    o = force(args[0])
    r = None
    if isinstance(o, Ref):
        r, o = o, ip.deref(o)
        while isinstance(ip.read(r.cell, r.path), Ref):
            r = ip.read(r.cell, r.path)
    if not isinstance(o, Adt):
        raise Unsupported('%s on %s' % (m, type(o).__name__))
    good = o.var == 1 if ty == 'Option' else o.var == 0
    if m in ('is_some', 'is_ok'):
        return good
    if m in ('is_none', 'is_err'):
        return not good
    if m in ('unwrap', 'expect'):
        if not good:
            raise RustPanic('unwrap on None')
        return o.f[0]
    if m == 'unwrap_or':
        return o.f[0] if good else args[1]
    if m == 'unwrap_or_else':
        return o.f[0] if good else ip.call_value(args[1], [] if ty == 'Option' else [o.f[0]])
    if m == 'unwrap_or_default':
        if good:
            return o.f[0]
        raise Unsupported(m)
    if m == 'map':
        return Adt(o.ty, o.var, (ip.call_value(args[1], [o.f[0]]),)) if good else o
    if m == 'and_then':
        return ip.call_value(args[1], [o.f[0]]) if good else o
    if m == 'or_else':
        return o if good else ip.call_value(args[1], [])
    if m == 'or':
        return o if good else args[1]
    if m == 'and':
        return args[1] if good else o
    if m == 'filter':
        return o if good and ip.truth(ip.call_value(args[1], [Ref(Cell(o.f[0]))])) else NONE
    if m == 'is_some_and':
        return good and ip.truth(ip.call_value(args[1], [o.f[0]]))
    if m == 'is_none_or':
        return not good or ip.truth(ip.call_value(args[1], [o.f[0]]))
    if m == 'map_or':
        return ip.call_value(args[2], [o.f[0]]) if good else args[1]
    if m == 'map_or_else':
        return ip.call_value(args[2], [o.f[0]]) if good else ip.call_value(args[1], [])
    if m in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut'):
        if not good:
            return o
        return some(Ref(r.cell, r.path + (0,)))
    if m in ('cloned', 'copied'):
        return some(clone(ip, ip.deref(o.f[0]))) if good else NONE
    if m == 'clone':
        return clone(ip, o)
    if m == 'take':
        ip.write(r.cell, r.path, NONE)
        return o
    if m == 'replace':
        ip.write(r.cell, r.path, some(args[1]))
        return o
    if m == 'ok_or':
        return Adt('Result', 0, o.f) if good else Adt('Result', 1, (args[1],))
    if m == 'ok':
        return some(o.f[0]) if good else NONE
    if m in ('iter', 'into_iter'):
        return into_iter(ip, args[0])
    if m == 'zip':
        b = force(args[1])
        return some((o.f[0], b.f[0])) if good and b.var == 1 else NONE
    if m == 'insert' or m == 'get_or_insert':
        ip.write(r.cell, r.path, some(args[1]))
        return Ref(r.cell, r.path + (0,))
    raise Unsupported('no model for ' + callee)


def call_heap(ip, callee, m, args):
    if m in ('new', 'with_capacity'):
        return Adt('BinaryHeap', 0, (Seq(),))
    r = args[0]
    h = ip.deref(r)
    while isinstance(ip.read(r.cell, r.path), Ref):
        r = ip.read(r.cell, r.path)
    s = h.f[0]
    if not isinstance(s, Seq):
        return s.heap(ip, r, m, args)
    if m == 'push':
        ip.write(r.cell, r.path, Adt('BinaryHeap', 0, (s.push(args[1]),)))
        return UNIT
    if m == 'is_empty':
        return len(s.items) == 0
    if m == 'len':
        return len(s.items)
    if m == 'clear':
        ip.write(r.cell, r.path, Adt('BinaryHeap', 0, (Seq(),)))
        return UNIT
    if m in ('pop', 'peek'):
        if not s.items:
            return NONE
        best = 0
        for k in range(1, len(s.items)):
            if rt_cmp(ip, s.items[k], s.items[best]).var > 0:
                best = k
        x = s.items[best]
        if m == 'pop':
            ip.write(r.cell, r.path, Adt('BinaryHeap', 0, (Seq(s.items[:best] + s.items[best + 1:]),)))
            return some(x)
        return some(Ref(Cell(x)))
    raise Unsupported('no model for ' + callee)
