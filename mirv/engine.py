"""Path exploration, proof obligations, contracts, loop invariants (symbolic mode)."""
import os
import re
import sys
import time
import traceback
from fractions import Fraction

import expr
from expr import *
from values import *
from interp import Interp, POISON, norm
import models
import smt
import z3

EPS = var('EPS')
PI = var('PI')
EPS_MAX = Fraction(1, 10 ** 6)
BASE = [lt(0, EPS), le(EPS, R(EPS_MAX)), lt(R(Fraction(314159, 100000)), PI), lt(PI, R(Fraction(31416, 10000)))]


class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'status', 'solver', 'time', 'unit', 'model', 'note', 'inputs')

    def __init__(self, name, pc, goal, unit, inputs):
        self.name, self.pc, self.goal, self.unit, self.inputs = name, pc, goal, unit, inputs
        self.status = None
        self.solver = None
        self.time = 0.0
        self.model = None
        self.note = ''


class Run:
    """one path of one unit"""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.pcset = {}
        self.asserted = 0
        self.solver = None
        self.memo = {}
        self.names = {}
        self.squares, self.roots = {}, set()
        self.touched = ex.touched
        self.foralls = []
        self.indices = {}
        self.bounded = False
        self.itercount = 0
        self.welldef = True
        self.sort_hook = None
        self.h = {}
        self.nsorts = 0
        self.EPS, self.PI = EPS, PI
        self.inputs = []
        self.where = []
        self.loopdepth = 0
        self.under_verif = []
        self._nofork = 0
        self._noidx = 0
        for b in BASE:
            self.fact(b)

    # ---------------- facts
    def fact(self, f):
        f = B(f)
        if f is TRUE:
            return
        if f is FALSE:
            raise PathEnd('contradiction')
        if f.op == 'and':
            for x in f.args:
                self.fact(x)
            return
        if f.id in self.pcset:
            return
        nf = Not(f)
        if nf.id in self.pcset:
            raise PathEnd('contradiction')
        self.pcset[f.id] = True
        self.pc.append(f)

    def known(self, c):
        """truth value of c when it follows syntactically from the facts"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.id in self.pcset:
            return True
        if Not(c).id in self.pcset:
            return False
        if c.op == 'and':
            r = True
            for x in c.args:
                k = self.known(x)
                if k is False:
                    return False
                if k is None:
                    r = None
            return r
        if c.op == 'not' and c.args[0].op in ('and', 'iff'):
            k = self.known(c.args[0])
            return None if k is None else not k
        if c.op == 'iff':
            a, b = self.known(c.args[0]), self.known(c.args[1])
            if a is not None and b is not None:
                return a == b
        return None

    def sync(self):
        if self.solver is None:
            self.solver = smt.LinSolver(self.ex.feas_timeout)
        while self.asserted < len(self.pc):
            self.solver.add(self.pc[self.asserted])
            self.asserted += 1

    def feasible(self, c):
        self.sync()
        self.ex.feas_checks += 1
        return self.solver.check(c) != z3.unsat

    def entails(self, f):
        f = B(f)
        k = self.known(f)
        if k is not None:
            return k
        return not self.feasible(Not(f))

    def nofork(self, hyp):
        return NoFork(self, hyp)

    # ---------------- decisions
    def decide(self, c):
        c = B(c)
        k = self.known(c)
        if k is not None:
            return k
        if self._nofork:
            if self.entails(c):
                return True
            if self.entails(Not(c)):
                return False
            raise Unsupported('case split inside a term')
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if i > self.ex.max_depth:
                raise Unsupported('too many decisions on one path')
            t = self.feasible(c)
            f = self.feasible(Not(c)) if t else True
            if t and f:
                self.ex.push(self.trace + [False])
                d = True
            else:
                d = bool(t)
        self.trace.append(d)
        self.fact(c if d else Not(c))
        return d

    def choose(self, n, label=''):
        """nondeterministic choice in range(n): all explored"""
        if n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            for k in range(n - 1, 0, -1):
                self.ex.push(self.trace + [('c', k)])
            d = ('c', 0)
        self.trace.append(d)
        return d[1]

    def assume(self, f):
        f = B(f)
        k = self.known(f)
        if k is False:
            raise PathEnd('assumption')
        if k is None:
            self.fact(f)

    def prune(self):
        if not self.feasible(TRUE):
            raise PathEnd('infeasible')

    # ---------------- obligations
    def ensure(self, name, f, kind='post'):
        f = B(f)
        self.ex.ob_total += 1
        k = self.known(f)
        if k is True:
            self.ex.note_ob(name, 'syntactic')
            return
        self.ex.add_ob(self, name, f)

    def context(self):
        pc = list(self.pc)
        pc += self.instances()
        return pc

    def instances(self):
        out = []
        if self.foralls:
            idx = list(self.indices.values())
            self._noidx += 1
            try:
                for vars_n, lohi, fn in self.foralls:
                    if vars_n == 1:
                        lo, hi = lohi
                        for i in idx:
                            g = And(le(lo, i), lt(i, hi))
                            if g is FALSE:
                                continue
                            out.append(Implies(g, fn(i)))
            finally:
                self._noidx -= 1
        return [x for x in out if x is not TRUE]

    def forall(self, lo, hi, fn):
        """assume: for all integer lo<=i<hi: fn(i)"""
        self.foralls.append((1, (lo, hi), fn))

    def note_index(self, i, around=True):
        if self._noidx:
            return
        i = I(i)
        for d in (0, 1, -1) if around else (0,):
            j = I(i + d)
            self.indices.setdefault(j.id, j)

    # ---------------- fresh names
    def fresh(self, base, sort='R'):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return var('%s!%d' % (base, n), sort)

    # ---------------- partial operations
    def pkey(self, e):
        p = poly(e)
        if p is None:
            return ('id', e.id)
        if self.squares:
            p = self.unroot(p)
        return tuple(sorted(p.items()))

    def unroot(self, p):
        """the polynomial with the squares of square roots replaced by what they are roots of"""
        for _ in range(40):
            hit = next(((m, i) for m in p for i, (v, n) in enumerate(m) if n > 1 and v in self.squares), None)
            if hit is None or len(p) > 300:
                return p
            m, i = hit
            c = p[m]
            v, n = m[i]
            rest = tuple(x for j, x in enumerate(m) if j != i) + (((v, n - 2),) if n > 2 else ())
            p = {a: b for a, b in p.items() if a != m}
            for a, b in self.squares[v].items():
                d = dict(rest)
                for w, e in a:
                    d[w] = d.get(w, 0) + e
                key = tuple(sorted(d.items()))
                s = p.get(key, 0) + c * b
                if s:
                    p[key] = s
                else:
                    p.pop(key, None)
        return p

    def nonneg(self, x):
        """x >= 0 by its form"""
        if x.op == 'c':
            return x.val >= 0
        if x.op == '*':
            a, b = x.args
            return a is b or self.nonneg(a) and self.nonneg(b)
        if x.op == '+' and len(x.args) == 2:
            return self.nonneg(x.args[0]) and self.nonneg(x.args[1])
        return x.id in self.roots

    def need(self, what, f):
        if self.welldef:
            fn = self.ex.interp.stack[-1].fn.key if self.ex.interp.stack else 'spec'
            self.ensure('defined: %s in %s' % (what, fn), f)
            # after the obligation the fact may be used
            k = self.known(f)
            if k is None:
                self.fact(f)

    def div(self, n, d):
        n, d = R(n), R(d)
        if d.op == 'c' and d.val != 0:
            return mul(n, R(Fraction(1) / d.val))
        key = ('div', self.pkey(n), self.pkey(d))
        q = self.memo.get(key)
        if self.welldef and ('checked',) + key not in self.memo:
            self.memo[('checked',) + key] = True
            self.need('division by zero', Not(eq(d, 0)))
        if q is not None:
            return q
        pn = poly(n)
        if pn == {}:
            q = R(0)
        elif pn is not None and pn == poly(d):
            q = R(1)
        else:
            q = self.fresh('q')
            if self.known(Not(eq(d, 0))) is True:
                self.fact(eq(mul(q, d), n))
            else:
                self.fact(Implies(Not(eq(d, 0)), eq(mul(q, d), n)))
        self.memo[key] = q
        return q

    def idiv(self, a, b):
        a, b = I(a), I(b)
        key = ('idiv', a.id, b.id)
        r = self.memo.get(key)
        if r is not None:
            return r
        if self.decide(eq(b, 0)):
            raise RustPanic('attempt to divide by zero')
        if b.op == 'c':
            q, m = self.fresh('iq', 'I'), self.fresh('im', 'I')
            self.fact(eq(a, q * b + m))
            self.fact(And(le(0, m), lt(m, abs_(b)), Implies(le(0, a), le(0, q))))
            if not self.entails(le(0, a)):
                raise Unsupported('division of a possibly negative integer')
        else:
            if not self.entails(And(le(0, a), lt(0, b))):
                raise Unsupported('integer division with signs')
            # nonlinear: resolve small quotients by cases
            for k in range(3):
                if self.decide(lt(a, b * (k + 1))):
                    r = (I(k), a - b * k)
                    break
            else:
                q, m = self.fresh('iq', 'I'), self.fresh('im', 'I')
                self.fact(eq(a, q * b + m))
                self.fact(And(le(0, m), lt(m, b), le(0, q)))
                r = (q, m)
            self.memo[key] = r
            return r
        self.memo[key] = (q, m)
        return (q, m)

    def sqrt(self, x, need=True):
        x = R(x)
        if x.op == 'c':
            n, d = x.val.numerator, x.val.denominator
            import math
            if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                return R(Fraction(math.isqrt(n), math.isqrt(d)))
        key = ('sqrt', self.pkey(x))
        s = self.memo.get(key)
        if need and self.welldef and ('checked',) + key not in self.memo:
            self.memo[('checked',) + key] = True
            self.need('square root of a negative number', le(0, x))
        if s is not None:
            return s
        s = self.fresh('s')
        self.fact(le(0, s))
        self.roots.add(s.id)
        if self.known(le(0, x)) is True or self.nonneg(x):
            self.fact(eq(mul(s, s), x))
            p = poly(x)
            if p is not None:
                self.squares[s.id] = self.unroot(p)
        else:
            self.fact(Implies(le(0, x), eq(mul(s, s), x)))
        self.memo[key] = s
        return s

    def sincos(self, x):
        """(sin, cos); argument reduced modulo pi multiples"""
        x = R(x)
        p = poly(x)
        if p is not None:
            km = ((PI.id, 1),)
            k = Fraction(p.get(km, 0))
            rest = {a: b for a, b in p.items() if a != km}
            base = k % 1
            whole = int(k - base)
            sgn = -1 if whole % 2 else 1
            if not rest and base == 0:
                return (R(0), R(sgn))
            if not rest and base == Fraction(1, 2):
                return (R(sgn), R(0))
            # canonical sign of rest
            if rest:
                lead = rest[sorted(rest)[-1]]
            else:
                lead = 1
            if lead < 0:
                # sin(r) = -sin(-r), cos(r) = cos(-r): r = rest + base*pi ; -r
                s, c = self.sincos(neg(x) if True else x)
                return (neg(s), c)
            r2 = dict(rest)
            if base:
                r2[km] = base
            key = ('sc', tuple(sorted(r2.items())))
        else:
            sgn = 1
            key = ('sc', x.id)
        v = self.memo.get(key)
        if v is None:
            s, c = self.fresh('sin'), self.fresh('cos')
            self.fact(eq(add(mul(s, s), mul(c, c)), 1))
            v = self.memo[key] = (s, c)
        s, c = v
        return (s, c) if sgn == 1 else (neg(s), neg(c))

    def atan2(self, y, x):
        y, x = R(y), R(x)
        key = ('atan2', self.pkey(y), self.pkey(x))
        a = self.memo.get(key)
        if a is None:
            a = self.fresh('ang')
            self.memo[key] = a
            pi = PI
            self.fact(And(lt(neg(pi), a), le(a, pi)))
            self.fact(Implies(lt(0, y), And(lt(0, a), lt(a, pi))))
            self.fact(Implies(lt(y, 0), And(lt(neg(pi), a), lt(a, 0))))
            self.fact(Implies(And(eq(y, 0), le(0, x)), eq(a, 0)))
            self.fact(Implies(And(eq(y, 0), lt(x, 0)), eq(a, pi)))
            half = mul(pi, R(Fraction(1, 2)))
            self.fact(Implies(lt(0, x), And(lt(neg(half), a), lt(a, half))))
            self.fact(Implies(And(lt(x, 0), lt(0, y)), lt(half, a)))
            self.fact(Implies(And(lt(x, 0), lt(y, 0)), lt(a, neg(half))))
            self.fact(Implies(And(eq(x, 0), lt(0, y)), eq(a, half)))
            self.fact(Implies(And(eq(x, 0), lt(y, 0)), eq(a, neg(half))))
        return a

    def ufun(self, name, x):
        key = (name, self.pkey(x))
        v = self.memo.get(key)
        if v is None:
            v = self.memo[key] = self.fresh(name)
            pi = PI
            half = mul(pi, R(Fraction(1, 2)))
            x = R(x)
            if name == 'atan':
                self.fact(And(lt(neg(half), v), lt(v, half)))
                self.fact(And(Implies(lt(0, x), lt(0, v)), Implies(lt(x, 0), lt(v, 0)), Implies(eq(x, 0), eq(v, 0))))
                self.fact(And(Implies(eq(x, 1), eq(mul(4, v), pi)), Implies(eq(x, -1), eq(mul(4, v), neg(pi)))))
            elif name == 'acos':
                self.fact(Implies(And(le(-1, x), le(x, 1)), And(le(0, v), le(v, pi))))
                self.fact(And(Implies(eq(x, -1), eq(v, pi)), Implies(eq(x, 0), eq(v, half)), Implies(eq(x, 1), eq(v, 0))))
        return v

    def token_eq(self, a, b):
        if a is b:
            return True
        k = ('tok',) + tuple(sorted((a.k, b.k)))
        v = self.memo.get(k)
        if v is None:
            v = self.memo[k] = self.fresh('tokeq', 'B')
        return v

    # ---------------- contracts and loops
    def contract_for(self, fn, ip):
        o = self.h.get('outside')
        if o and (self.ex.entered or fn.key != self.ex.toplevel):
            f = o(fn)
            if f is not None:
                return f
        k = self.ex.contracts.get(fn.key)
        if k is None:
            return None
        if fn.key in self.ex.inline:
            return None
        if self.ex.toplevel == fn.key and not self.ex.entered:
            self.ex.entered = True
            return None
        return k.use

    def loop_spec(self, fn, bb):
        if self.ex.unroll is not None:
            return None
        L = self.ex.loops.get(fn.key)
        if not L:
            # a loop moved into a helper of the function it was in
            for key, specs in self.ex.loops.items():
                for s in specs:
                    if s.portable and (self.ex.name.startswith(s.only) if s.only else self.ex.toplevel == key):
                        return s
            return None
        heads = fn.source_order_loops()
        for s in L:
            if (not s.only or self.ex.name.startswith(s.only)) and s.matches(fn, heads, bb):
                return s
        return None

    def loop_cut(self, ip, fr, bb, spec):
        st = LoopState(self, ip, fr, bb, spec)
        if fr.spec_in.get(bb):
            # end of an arbitrary iteration: invariant must hold again, measure must have decreased
            st.old = fr.saved[bb]
            self.ex.hit_loop(fr.fn.key, bb, 'preserved')
            st.phase = 'preserve'
            spec.run(st)
            raise PathEnd('iteration proved')
        self.ex.hit_loop(fr.fn.key, bb, 'cut')
        st.phase = 'init'
        spec.run(st)
        st.havoc()
        st.phase = 'assume'
        spec.run(st)
        fr.spec_in[bb] = True
        fr.saved[bb] = st.memory
        if self.solver is not None or True:
            self.prune()


class NoFork:
    def __init__(self, run, hyp):
        self.run, self.hyp = run, hyp

    def __enter__(self):
        r = self.run
        r._nofork += 1
        self.mark = len(r.pc)
        self.added = []
        # temporary hypothesis: valid only for building the term
        self.solver, self.asserted = r.solver, r.asserted
        r.solver, r.asserted = None, 0
        h = B(self.hyp)
        for x in (h.args if h.op == 'and' else (h,)):
            if x.id not in r.pcset and x not in (TRUE, FALSE):
                r.pcset[x.id] = True
                r.pc.append(x)
                self.added.append(x)

    def __exit__(self, *a):
        r = self.run
        r._nofork -= 1
        for x in self.added:
            del r.pcset[x.id]
        ids = {x.id for x in self.added}
        r.pc = [x for x in r.pc if x.id not in ids]
        r.solver, r.asserted = self.solver, self.asserted
        return False


class LoopLost(Unsupported):
    pass


class LoopState:
    """what a loop invariant sees: variables by their source names"""

    def __init__(self, run, ip, fr, bb, spec):
        self.run, self.ip, self.fr, self.bb, self.spec = run, ip, fr, bb, spec
        self.phase = None
        self.memory = {}
        self.old = {}
        self.c = run.ex.ctx

    # -- variables
    def local_of(self, name):
        fn = self.fr.fn
        from mirparse import parse_place
        cands = fn.debug.get(name, [])
        best = None
        for t in cands:
            p = parse_place(t)
            c, path = self.ip.loc(self.fr, p)
            if c.v is POISON:
                continue
            best = (c, path)
        if best is None:
            raise LoopLost('loop invariant: no variable %s in %s' % (name, fn.key))
        return best

    def var(self, name, ty=None, deref=True):
        """the variable of that name, or else the one of that type which the loop changes"""
        try:
            c, path = self.local_of(name)
        except LoopLost:
            if ty is None:
                raise
            c, path = self.by_type(ty), ()
        v = self.ip.read(c, path)
        return self.ip.deref(v) if deref else v

    def unit_ghost(self, name):
        g = self.run.ex.ghosts
        if name not in g:
            raise LoopLost('loop invariant: the ghost %s belongs to another unit' % name)
        return g[name]

    def by_type(self, pat, nth=0):
        """local modified in the loop whose type matches pat"""
        fn = self.fr.fn
        mod = modified_locals(fn, self.bb)
        c = [n for n in sorted(fn.locals) if re.search(pat, fn.locals[n]) and n in mod and self.fr.cell(n).v is not POISON]
        if len(c) <= nth:
            raise LoopLost('loop invariant: no local of type %s in %s' % (pat, fn.key))
        return self.fr.cell(c[nth])

    def iter(self):
        c = self.iter_cell()
        return force(c.v)

    def iter_cell(self):
        fn = self.fr.fn
        mod = modified_locals(fn, self.bb)
        c = [n for n in sorted(fn.locals) if n in mod and isinstance(force(self.fr.cell(n).v), It)]
        if len(c) != 1:
            raise LoopLost('loop invariant: iterator of the loop in %s' % fn.key)
        return self.fr.cell(c[0])

    # -- obligations / assumptions
    def inv(self, name, f):
        f = B(f)
        if self.phase == 'assume':
            self.run.assume(f)
        else:
            self.run.ensure('%s %s: %s' % (self.spec.label, {'init': 'holds on entry', 'preserve': 'is preserved'}[self.phase], name), f)

    def inv_forall(self, name, lo, hi, fn):
        if self.phase == 'assume':
            self.run.forall(lo, hi, fn)
        else:
            k = self.run.fresh('k', 'I')
            saved = dict(self.run.indices)
            self.run.note_index(k, False)
            label = '%s %s: %s' % (self.spec.label, {'init': 'holds on entry', 'preserve': 'is preserved'}[self.phase], name)
            if self.phase == 'preserve':
                # the last index on its own, the others by the assumption
                last = I(hi) - 1
                self.run.ensure(label, Implies(le(lo, last), fn(last)))
                hi = last
            self.run.ensure(label, Implies(And(le(lo, k), lt(k, hi)), fn(k)))
            self.run.indices = saved

    def inv_all(self, name, n, guard, fn, hint=None):
        """for all n-tuples of integers with guard: fn; hint(*indices) may add instances of what is known before the proof.
        Assumed at the cut (through have), proved on a path of its own otherwise"""
        if self.phase == 'assume':
            self.memory['all', name] = lambda *q: Implies(guard(*q), fn(*q))
            return
        run = self.run
        if run.choose(2):
            q = [run.fresh('q', 'I') for _ in range(n)]
            run.assume(guard(*q))
            run.prune()
            if hint:
                hint(*q)
            run.ensure('%s %s: %s' % (self.spec.label, {'init': 'holds on entry', 'preserve': 'is preserved'}[self.phase], name), fn(*q))
            raise PathEnd('quantified part proved')

    def have(self, name, *q):
        """instance of a quantified invariant assumed at the cut"""
        self.run.fact((self.old if self.phase == 'preserve' else self.memory)['all', name](*q))

    def have0(self, name, *q):
        """the same, from a later point of the path"""
        self.run.fact(self.memory['all', name](*q))

    def ghost(self, name, sort, init, step=None):
        """ghost variable: init value on entry, arbitrary at the cut, caller-supplied value at the end"""
        if self.phase == 'init':
            return init() if callable(init) else init
        if self.phase == 'assume':
            v = self.run.fresh('ghost_' + name, sort)
            self.memory['ghost', name] = v
            return v
        return step(self.old['ghost', name])

    def remember(self, name, v):
        """value at the start of the iteration"""
        if self.phase == 'assume':
            self.memory[name] = v
            return v
        if self.phase == 'preserve':
            return self.old[name]
        return v

    def decreases(self, m):
        """integer measure, bounded below by 0"""
        if self.phase == 'assume':
            self.memory['measure'] = m
            return
        if self.phase == 'preserve':
            o = self.old['measure']
            self.run.ensure('%s: measure decreases' % self.spec.label, And(lt(m, o), le(0, o)))

    # -- havoc
    def havoc(self):
        fn = self.fr.fn
        mod = modified_locals(fn, self.bb)
        live = live_at(fn, self.bb)
        borrowed = borrowed_locals(fn)
        over = self.spec.havoc
        done = set()
        for name, h in over.items():
            c, path = ((self.iter_cell(), ()) if name == '<iter>' else
                       (self.by_type(name[6:]), ()) if name.startswith('<type>') else self.local_of(name))
            v = self.ip.read(c, path)
            if isinstance(v, Ref):
                c, path = v.cell, v.path
                v = self.ip.read(c, path)
            self.ip.write(c, path, h(self, v))
            done.add(id(c))
        for n in sorted(mod):
            cell = self.fr.cell(n)
            if id(cell) in done:
                continue
            v = cell.v
            if v is POISON:
                continue
            if mod[n] == 'deref':
                if isinstance(v, Ref):
                    if id(v.cell) in done:
                        continue
                    self.ip.write(v.cell, v.path, self.hv(self.ip.read(v.cell, v.path), fn.debug_name(n) if hasattr(fn, 'debug_name') else 'v'))
                    done.add(id(v.cell))
                    continue
                if isinstance(v, BoxV):
                    raise Unsupported('loop writes through a box')
                continue
            if n not in live and n not in borrowed:
                cell.v = POISON
                continue
            try:
                cell.v = self.hv(v, 'v%d' % n)
            except Unsupported:
                if n not in live:
                    cell.v = POISON
                else:
                    raise
        for n in list(self.fr.cells):
            # stale temporaries of an earlier visit
            pass

    def hv(self, v, name):
        v = force(v)
        run = self.run
        if isinstance(v, bool):
            return run.fresh(name, 'B')
        if isinstance(v, int):
            return run.fresh(name, 'I')
        if isinstance(v, E):
            return run.fresh(name, v.sort)
        if isinstance(v, It):
            return self.hv_it(v)
        if isinstance(v, tuple):
            return tuple(self.hv(x, name) for x in v)
        if isinstance(v, Opaque):
            return v
        if isinstance(v, SymSeq):
            raise Unsupported('loop modifies a list: give its havoc')
        if isinstance(v, Adt):
            d = self.ip.p.decls.get(v.ty)
            if d is not None and d.kind == 'struct':
                return Adt(v.ty, 0, [self.hv(x, name) for x in v.f])
            if d is not None and d.kind == 'enum' and all(not fs for _, fs in d.variants):
                return Adt(v.ty, run.choose(len(d.variants)))
        raise Unsupported('loop modifies a %s' % (v.ty if isinstance(v, Adt) else type(v).__name__))

    def hv_it(self, it):
        run = self.run
        k, f = it.kind, it.f
        if k in ('slice', 'vec'):
            a = run.fresh('pos', 'I')
            run.fact(And(le(f[1], a), le(a, f[2])))
            run.note_index(a)
            return It(k, f[0], a, f[2])
        if k == 'range':
            a = run.fresh('pos', 'I')
            run.fact(And(le(f[0], a), Or(le(a, f[1]), And(lt(f[1], f[0]), eq(a, f[0])))))
            run.note_index(a)
            return It(k, a, f[1])
        if k == 'rev':
            i = f[0]
            if i.kind in ('slice', 'vec'):
                b = run.fresh('pos', 'I')
                run.fact(And(le(i.f[1], b), le(b, i.f[2])))
                run.note_index(b)
                return It('rev', It(i.kind, i.f[0], i.f[1], b))
            if i.kind == 'range':
                b = run.fresh('pos', 'I')
                run.fact(And(le(i.f[0], b), le(b, i.f[1])))
                run.note_index(b)
                return It('rev', It('range', i.f[0], b))
        if k == 'enumerate':
            n = self.hv_it(f[0])
            if n.kind in ('slice', 'vec'):
                return It('enumerate', n, I(f[1]) + (n.f[1] - f[0].f[1]))
        if k in ('map', 'cloned', 'copied', 'filter'):
            return It(k, self.hv_it(f[0]), *f[1:])
        if k == 'zip':
            a = self.hv_it(f[0])
            d = a.f[-2] - f[0].f[-2] if a.kind in ('slice', 'vec') else a.f[0] - f[0].f[0]
            b = f[1]
            if b.kind in ('slice', 'vec'):
                run.assume(le(b.f[1] + d, b.f[2]))
                return It('zip', a, It(b.kind, b.f[0], b.f[1] + d, b.f[2]))
        raise Unsupported('loop over iterator ' + k)


def place_root(p):
    """(root local, 'whole' | 'part' | 'deref')"""
    kind = 'whole'
    while p[0] != 'local':
        if p[0] == 'deref':
            kind = 'deref'
        elif kind != 'deref':
            kind = 'part'
        p = p[1]
    return p[1], kind


def root_kind(p):
    """whether the innermost access to the root local goes through a deref"""
    chain = []
    while p[0] != 'local':
        chain.append(p[0])
        p = p[1]
    # chain[-1] is applied first to the local
    if 'deref' in chain:
        return p[1], 'deref'
    return p[1], 'part' if chain else 'whole'


def modified_locals(fn, head):
    """{local: 'direct' | 'deref'} changed by the loop body"""
    cache = fn.__dict__.setdefault('_mod', {})
    if head in cache:
        return cache[head]
    out = {}

    def add(p):
        n, k = root_kind(p)
        if k == 'deref':
            out.setdefault(n, 'deref')
        else:
            out[n] = 'direct'
    for b in fn.loops()[head]:
        for s in fn.block(b):
            if s[0] == 'assign':
                add(s[1])
                if s[2][0] == 'ref' and s[2][1] in ('mut', 'raw'):
                    add(s[2][2])
            elif s[0] == 'call':
                add(s[1])
    # a &mut held in a local from before the loop and passed on (moved/reborrowed) is covered by 'deref' roots
    cache[head] = out
    return out


def borrowed_locals(fn):
    r = fn.__dict__.get('_borrowed')
    if r is None:
        r = set()
        for b in fn.blocks:
            if b in fn.cleanup:
                continue
            for s in fn.block(b):
                if s[0] == 'assign' and s[2][0] == 'ref':
                    n, k = root_kind(s[2][2])
                    if k != 'deref':
                        r.add(n)
        fn.__dict__['_borrowed'] = r
    return r


def live_at(fn, head):
    cache = fn.__dict__.get('_live')
    if cache is None:
        use, kill = {}, {}
        blocks = [b for b in fn.blocks if b not in fn.cleanup]

        def place_uses(p, acc, iswrite=False):
            n, k = root_kind(p)
            if not (iswrite and k == 'whole'):
                acc.append(n)
            q = p
            while q[0] != 'local':
                if q[0] == 'index':
                    acc.append(q[2])
                q = q[1]

        def op_uses(o, acc):
            if o[0] in ('copy', 'move'):
                place_uses(o[1], acc)

        def rv_uses(rv, acc):
            k = rv[0]
            if k in ('use', 'cast', 'repeat'):
                op_uses(rv[1], acc)
            elif k in ('ref',):
                place_uses(rv[2], acc)
            elif k in ('discr', 'len'):
                place_uses(rv[1], acc)
            elif k == 'bin':
                op_uses(rv[2], acc)
                op_uses(rv[3], acc)
            elif k == 'un':
                op_uses(rv[2], acc)
            elif k in ('tuple', 'array'):
                for o in rv[1]:
                    op_uses(o, acc)
            elif k in ('adt', 'closure'):
                for _, o in rv[2]:
                    op_uses(o, acc)
        for b in blocks:
            u, kl = set(), set()
            for s in fn.block(b):
                acc = []
                d = None
                if s[0] == 'assign':
                    rv_uses(s[2], acc)
                    place_uses(s[1], acc, True)
                    d = s[1]
                elif s[0] == 'call':
                    for a in s[3]:
                        op_uses(a, acc)
                    place_uses(s[1], acc, True)
                    d = s[1]
                elif s[0] in ('switch', 'assert'):
                    op_uses(s[1], acc)
                elif s[0] == 'return':
                    acc.append(0)
                for n in acc:
                    if n not in kl:
                        u.add(n)
                if d is not None and d[0] == 'local':
                    kl.add(d[1])
            use[b], kill[b] = u, kl
        live = {b: set() for b in blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(blocks):
                o = set()
                for s in fn.succs(b):
                    o |= live.get(s, set())
                n = use[b] | (o - kill[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        cache = fn.__dict__['_live'] = live
    return cache[head]


class LoopSpec:
    def __init__(self, fnkey, nth, run, havoc=None, total=None, has=(), only=None, portable=False):
        self.only, self.portable = only, portable
        self.fnkey, self.nth, self.run, self.havoc = fnkey, nth, run, havoc or {}
        self.total, self.has = total, has
        self.label = 'invariant of loop %d in %s' % (nth + 1, fnkey)

    def matches(self, fn, heads, bb):
        if self.has:
            mod = modified_locals(fn, bb)
            from mirparse import parse_place
            for name in self.has:
                ok = any(root_kind(parse_place(t))[0] in mod for t in fn.debug.get(name, []))
                if not ok:
                    return False
            if self.nth is None:
                return True
        if self.total is not None and len(heads) != self.total:
            return False
        return heads.index(bb) == self.nth


class Explorer:
    def __init__(self, prog, contracts=None, loops=None, inline=(), toplevel=None, unroll=None, max_paths=4000,
                 max_depth=400, feas_timeout=400, name='', time_limit=400):
        self.prog = prog
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.inline = set(inline)
        self.toplevel = toplevel
        self.unroll = unroll
        self.max_paths, self.max_depth, self.feas_timeout = max_paths, max_depth, feas_timeout
        self.time_limit = time_limit
        self.name = name
        self.ghosts = {}
        self.sort_perm = False
        self.touched = set()
        self.used_contracts = set()
        self.inlined_uses = set()
        self.obs = []
        self.obkeys = set()
        self.ob_total = 0
        self.ob_names = {}
        self.syntactic = 0
        self.feas_checks = 0
        self.stack = [[]]
        self.paths = 0
        self.finished = 0
        self.loophits = {}
        self.unsupported = None
        self.bounded = False
        self.entered = False
        self.covered = 0

    def push(self, prefix):
        self.stack.append(prefix)

    def hit_loop(self, key, bb, what):
        self.loophits[(key, bb, what)] = self.loophits.get((key, bb, what), 0) + 1

    def note_ob(self, name, how):
        self.syntactic += 1
        self.ob_names[name] = self.ob_names.get(name, 0) + 1

    def add_ob(self, run, name, f):
        pc = run.context()
        key = (frozenset(x.id for x in pc), f.id)
        self.ob_names[name] = self.ob_names.get(name, 0) + 1
        if key in self.obkeys:
            self.syntactic += 1
            return
        self.obkeys.add(key)
        self.obs.append(Obligation(name, pc, f, self.name, list(run.inputs)))

    def explore(self, body, ctxcls):
        t0 = time.time()
        while self.stack:
            if self.paths >= self.max_paths or time.time() - t0 > self.time_limit:
                self.unsupported = 'path limit (%d paths, %.0f s)' % (self.paths, time.time() - t0)
                break
            prefix = self.stack.pop()
            run = Run(self, prefix)
            expr.HOOK.decide = run.decide
            ip = self.interp = Interp(self.prog, run)
            ip.unroll = self.unroll
            self.entered = False
            self.ctx = ctxcls(run, ip)
            self.paths += 1
            try:
                body(self.ctx)
                self.finished += 1
            except PathEnd:
                pass
            except RustPanic as e:
                run.ensure('no panic: %s' % short(str(e)), FALSE)
            except Unsupported as e:
                # an infeasible path may reach nonsense: only a feasible one counts
                try:
                    feas = run.feasible(TRUE)
                except Exception:
                    feas = True
                if feas:
                    self.unsupported = str(e)
                    if os.environ.get('MIRV_DEBUG'):
                        traceback.print_exc()
                    break
            if run.bounded:
                self.bounded = True
        self.time = time.time() - t0


def short(s):
    return re.sub(r'\s+', ' ', s)[:120]
