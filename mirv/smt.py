"""E -> z3 terms: exact (nonlinear) and linear abstraction (monomials as fresh variables)."""
import z3
from expr import *
import expr

_full = {}
_lin = {}
_mono = {}
_monolist = {}
_fns = {}


def sortof(s):
    return {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}[s]


def leafvar(e):
    if e.op == 'v':
        return z3.Const(str(e.val), sortof(e.sort))
    raise AssertionError(e.op)


def fnof(fs):
    f = _fns.get(fs)
    if f is None:
        f = _fns[fs] = z3.Function(fs[1], *[sortof(x) for x in fs[2]], sortof(fs[3]))
    return f


def num(v, sort):
    if sort == 'I':
        return z3.IntVal(int(v))
    return z3.RealVal(str(Fraction(v)))


def full(e):
    r = _full.get(e.id)
    if r is not None:
        return r
    op = e.op
    if op == 'c':
        r = num(e.val, e.sort)
    elif op == 'true':
        r = z3.BoolVal(True)
    elif op == 'false':
        r = z3.BoolVal(False)
    elif op == 'v':
        p = atom_parts(e)
        if p:
            a, b = full(p[1]), full(p[2])
            r = (a < b) if p[0] == '<' else (a == b)
        else:
            r = leafvar(e)
    elif op == '+':
        r = full(e.args[0]) + full(e.args[1])
    elif op == '-':
        r = full(e.args[0]) - full(e.args[1])
    elif op == '*':
        r = full(e.args[0]) * full(e.args[1])
    elif op == 'neg':
        r = -full(e.args[0])
    elif op == 'abs':
        a = full(e.args[0])
        r = z3.If(a >= 0, a, -a)
    elif op == 'ite':
        r = z3.If(*[full(x) for x in e.args])
    elif op == '<':
        r = full(e.args[0]) < full(e.args[1])
    elif op in ('=', 'iff'):
        r = full(e.args[0]) == full(e.args[1])
    elif op == 'and':
        r = z3.And(*[full(x) for x in e.args])
    elif op == 'not':
        r = z3.Not(full(e.args[0]))
    elif op == 'toreal':
        r = z3.ToReal(full(e.args[0]))
    elif op == 'app':
        r = fnof(e.val)(*[full(x) for x in e.args])
    else:
        raise AssertionError(op)
    _full[e.id] = r
    return r


def lin_term(e, used):
    """linear abstraction of an arithmetic term"""
    p = poly(e)
    if p is None:
        key = ('big', e.id)
        v = _mono.get(key)
        if v is None:
            v = _mono[key] = z3.Const('big!%d' % e.id, sortof(e.sort))
        return v
    parts = []
    for k in p:
        c = p[k]
        if not k:
            parts.append(num(c, e.sort))
            continue
        parts.append(num(c, e.sort) * mono(k, e.sort, used) if c != 1 else mono(k, e.sort, used))
    if not parts:
        return num(0, e.sort)
    if len(parts) == 1:
        return parts[0]
    return z3.Sum(parts)


def mono(k, sort, used):
    if len(k) == 1 and k[0][1] == 1:
        return lin_leaf(expr._byid[k[0][0]], used)
    key = (k, sort)
    v = _mono.get(key)
    if v is None:
        v = _mono[key] = z3.Const('mono!%d' % len(_mono), sortof(sort))
    used.add(key)
    for vid, _ in k:
        l = expr._byid[vid]
        lin_leaf(l, used)
    return v


def lin_leaf(e, used):
    op = e.op
    if op == 'v':
        return leafvar(e)
    if op == 'ite':
        return z3.If(lin(e.args[0], used), lin_term(e.args[1], used), lin_term(e.args[2], used))
    if op == 'abs':
        a = lin_term(e.args[0], used)
        return z3.If(a >= 0, a, -a)
    if op == 'toreal':
        return z3.ToReal(lin_term(e.args[0], used))
    if op == 'app':
        return fnof(e.val)(*[lin_term(x, used) if x.sort != 'B' else lin(x, used) for x in e.args])
    raise AssertionError(op)


def lin(e, used):
    c = _lin.get(e.id)
    if c is not None:
        used |= c[1]
        return c[0]
    u = set()
    op = e.op
    if op == 'true':
        r = z3.BoolVal(True)
    elif op == 'false':
        r = z3.BoolVal(False)
    elif op == 'and':
        r = z3.And(*[lin(x, u) for x in e.args])
    elif op == 'not':
        r = z3.Not(lin(e.args[0], u))
    elif op == 'iff':
        r = lin(e.args[0], u) == lin(e.args[1], u)
    else:
        p = atom_parts(e)
        if p:
            d = lin_term(sub(p[1], p[2]), u)
            r = (d < 0) if p[0] == '<' else (d == 0)
        elif op == 'v':
            r = leafvar(e)
        elif op == 'app':
            r = fnof(e.val)(*[lin_term(x, u) if x.sort != 'B' else lin(x, u) for x in e.args])
        else:
            raise AssertionError(op)
    _lin[e.id] = (r, frozenset(u))
    used |= u
    return r


def mono_lemmas(key):
    """valid facts about one monomial variable"""
    k, sort = key
    v = _mono[key]
    out = []
    if all(ex % 2 == 0 for _, ex in k):
        out.append(v >= 0)
        if len(k) == 1 and k[0][1] == 2:
            x = lin_leaf(expr._byid[k[0][0]], set())
            out.append(z3.Implies(x == 0, v == 0))
            out.append(z3.Implies(x != 0, v > 0))
            if sort == 'R':
                out.append(z3.Implies(z3.And(x <= 1, x >= -1), v <= 1))
    elif len(k) == 2 and k[0][1] == 1 and k[1][1] == 1:
        x = lin_leaf(expr._byid[k[0][0]], set())
        y = lin_leaf(expr._byid[k[1][0]], set())
        out.append(z3.Implies(z3.And(x > 0, y > 0), v > 0))
        out.append(z3.Implies(z3.And(x > 0, y < 0), v < 0))
        out.append(z3.Implies(z3.And(x < 0, y > 0), v < 0))
        out.append(z3.Implies(z3.And(x < 0, y < 0), v > 0))
        out.append(z3.Implies(z3.Or(x == 0, y == 0), v == 0))
    return out


class LinSolver:
    def __init__(self, timeout=300):
        self.s = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
        self.s.set('timeout', timeout)
        self.seen = set()

    def add(self, e):
        u = set()
        f = lin(e, u)
        self.lemmas(u)
        self.s.add(f)

    def lemmas(self, u):
        for k in u:
            if k not in self.seen:
                self.seen.add(k)
                for l in mono_lemmas(k):
                    self.s.add(l)

    def check(self, e):
        u = set()
        f = lin(e, u)
        self.lemmas(u)
        self.s.push()
        self.s.add(f)
        r = self.s.check()
        self.s.pop()
        return r
