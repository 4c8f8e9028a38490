"""What a specification sees.  The same specification text runs
  * symbolically (mode 'prove': the real function's MIR is executed over all inputs; 'use': a caller relies on the contract),
  * concretely   (mode 'conc': inputs are numbers, calls go to the compiled crate) when a proof has failed and a witness is sought.
"""
import re
from fractions import Fraction

import expr
from expr import *
from values import *
import engine
from engine import EPS, PI
from mirparse import strip_generics, type_last, split_top


def inner_types(t):
    """generic arguments of a type text"""
    i = t.find('<')
    if i < 0:
        return []
    return [x.strip() for x in split_top(t[i + 1:t.rindex('>')])]


def canon(i):
    i = I(i)
    p = expr.poly(i)
    return i if p is None else I(expr.from_poly(p, 'I'))


class Base:
    """helpers written only in terms of new/call/real/ensure"""
    mode = None

    # ---- builders
    def point(self, name):
        return self.call('Point2::new', self.real(name + '.x'), self.real(name + '.y'))

    def vector(self, name):
        return self.call('Vector2::new', self.real(name + '.x'), self.real(name + '.y'))

    def line(self, name):
        return self.call('Line2::new', self.real(name + '.a'), self.real(name + '.b'), self.real(name + '.c'))

    def segment(self, name):
        return self.call('LineSegment2::new', self.point(name + '.s'), self.point(name + '.t'))

    def circle(self, name):
        r = self.real(name + '.r', 'pos')
        self.assume(r > 0)
        return self.call('CircleSegment2::new', self.point(name + '.c'), r)

    def arc(self, name):
        c = self.circle(name + '.o')
        sr, tr = self.real(name + '.sr', 'rad'), self.real(name + '.tr', 'rad')
        self.assume(And(sr >= 0, tr >= 0, sr <= mul(2, self.pi), tr <= mul(2, self.pi)))
        return self.call('ArcSegment2::new', c, sr, tr)

    def ray(self, name):
        return self.call('Ray2::new', self.point(name + '.o'), self.vector(name + '.d'))

    def triangle(self, name):
        return self.call('Triangle2::new', self.point(name + '.a'), self.point(name + '.b'), self.point(name + '.c'))

    def build(self, ty, name):
        t = ty.strip().lstrip('&').strip()
        if t.startswith("'"):
            t = t.split(' ', 1)[1]
        if t.startswith('mut '):
            t = t[4:]
        if t == 'T':
            return self.real(name)
        if t == 'bool':
            return self.flag(name)
        if t in ('usize', 'u32', 'u64', 'u8', 'u16'):
            return self.int(name, 0)
        if t in ('i32', 'i64', 'isize'):
            return self.int(name, None)
        l = type_last(t)
        f = {'Point2': self.point, 'Vector2': self.vector, 'Line2': self.line, 'LineSegment2': self.segment,
             'CircleSegment2': self.circle, 'ArcSegment2': self.arc, 'Ray2': self.ray,
             'Triangle2': self.triangle}.get(l)
        if f is None:
            raise Unsupported('no builder for parameters of type ' + ty)
        return f(name)

    def polygon(self, name, lo=1):
        """-> (polygon, its vertex list) built by the real constructor"""
        ps = self.points(name, lo)
        return self.call('Polygon2::new', ps), ps

    # ---- accessors (through the real accessors)
    def xy(self, p):
        return (self.call('Point2::x', p), self.call('Point2::y', p))

    def vxy(self, p):
        return (self.call('Vector2::x', p), self.call('Vector2::y', p))

    def abc(self, l):
        return tuple(self.call('Line2::' + n, l) for n in 'abc')

    def src(self, s):
        return self.xy(self.acc(s, 'source'))

    def tgt(self, s):
        return self.xy(self.acc(s, 'target'))

    def cen(self, s):
        return self.xy(self.acc(s, 'center'))

    def rad(self, s):
        return self.acc(s, 'radius')

    def acc(self, s, m):
        return self.call('<%s as Segment2>::%s' % (self.tyname(s), m), s)


class Sym(Base):
    concrete = False

    def __init__(self, run, ip, mode='prove', cfn=None, cargs=None, maxlen=4):
        self.run, self.ip = run, ip
        self.mode = mode
        self.eps, self.pi = EPS, PI
        self.cfn, self.cargs = cfn, cargs
        self.maxlen = maxlen
        self.res = None
        self.shape = None
        self.facts = []
        self.freshvars = {}
        self.h = run.h

    # ---- inputs
    def real(self, name, gen=None):
        v = self.run.fresh(name)
        self.run.inputs.append((v, gen or 'real'))
        return v

    def int(self, name, lo=0, hi=None):
        v = self.run.fresh(name, 'I')
        self.run.inputs.append((v, ('int', lo, hi)))
        if lo is not None:
            self.run.assume(le(lo, v))
        if hi is not None:
            self.run.assume(le(v, hi))
        return v

    def flag(self, name):
        v = self.run.fresh(name, 'B')
        self.run.inputs.append((v, 'bool'))
        return v

    def choose(self, n, name=''):
        d = self.run.choose(n)
        self.run.inputs.append((d, ('choice', n)))
        return d

    def points(self, name, lo=0):
        """a list of arbitrarily many points (at least lo)"""
        n = self.int(name + '.n', lo, 2 ** 40)
        fx, fy = fnsym('%s.x' % name, 'I', 'R'), fnsym('%s.y' % name, 'I', 'R')
        self.run.inputs.append((('pts', n, fx, fy), 'pts'))
        new = self.fn('Point2::new')
        run = self.run

        def at(i):
            with run.nofork(TRUE):
                return self.call(new, app(fx, i), app(fy, i))
        return SymSeq(n, at)

    def points2(self, name, lo, new):
        """the same list of points, built by another constructor and by the usual one"""
        n = self.int(name + '.n', lo, 2 ** 40)
        fx, fy = fnsym('%s.x' % name, 'I', 'R'), fnsym('%s.y' % name, 'I', 'R')
        self.run.inputs.append((('pts', n, fx, fy), 'pts'))
        run = self.run

        def seq(fn):
            def at(i):
                with run.nofork(TRUE):
                    return self.call(fn, app(fx, i), app(fy, i))
            return SymSeq(n, at)
        return seq(self.fn(new)), seq(self.fn('Point2::new'))

    def option(self, v):
        return NONE if v is None else some(self.ip.deref(v))

    def field(self, v, name):
        """a public field"""
        v = self.ip.deref(v)
        return self.ip.deref(v.f[[n for n, _ in self.ip.p.decls[v.ty].fields].index(name)])

    def pxy(self, ps, i):
        """coordinates of the i-th point of a list"""
        return self.xy(self.at(ps, i))

    def index(self, name, lo, hi):
        """an arbitrary integer lo <= i < hi"""
        i = self.int(name, lo)
        self.run.assume(lt(i, I(hi)))
        self.run.note_index(i)
        return i

    def assume_forall(self, lo, hi, f):
        self.run.forall(lo, hi, f)

    def every(self, name, lo, hi):
        """all integers lo <= i < hi: one arbitrary one stands for them"""
        if isinstance(lo, int) and isinstance(hi, int):
            return range(lo, hi)
        i = self.run.fresh(name, 'I')
        self.run.assume(And(le(I(lo), i), lt(i, I(hi))))
        self.run.prune()
        return [i]

    def part(self):
        """True on a path of its own: what is proved there is left out elsewhere"""
        return self.run.choose(2) == 1

    def done(self):
        raise PathEnd('part proved')

    def induction_down(self, name, lo, hi, fn, hint=None):
        """for all lo <= j < hi: fn(j), from fn(hi-1) and fn(j+1) -> fn(j); returns the instances"""
        run = self.run
        lo, hi = I(lo), I(hi)
        c = run.choose(3)
        if c == 1:
            run.assume(lt(lo, hi))
            run.prune()
            run.ensure('induction %s: last' % name, fn(hi - 1))
            raise PathEnd('induction')
        if c == 2:
            j = run.fresh('j', 'I')
            run.assume(And(le(lo, j), lt(j + 1, hi), fn(j + 1)))
            run.prune()
            if hint:
                hint(j)
            run.ensure('induction %s: step' % name, fn(j))
            raise PathEnd('induction')
        return lambda j: run.fact(Implies(And(le(lo, I(j)), lt(I(j), hi)), fn(I(j))))

    def sorts(self, name, order):
        """every sort of points on the path is by this order: order(a, b) = (a before b, a and b the same) on coordinates"""
        def hook(ip, v, clo, m):
            run, l = self.run, v.at(I(0))
            if run.choose(2):
                a, b = (self.call('Point2::new', run.fresh('e'), run.fresh('e')) for _ in range(2))
                if not m.endswith('_by'):
                    raise Unsupported('sort without a comparison function')
                o = ip.deref(ip.call_value(clo, [Ref(Cell(a)), Ref(Cell(b))]))
                before, same = order(self.xy(a), self.xy(b))
                after = order(self.xy(b), self.xy(a))[0]
                run.ensure('sorted %s' % name, {-1: before, 0: same, 1: after}[o.var])
                raise PathEnd('comparator')
            n = v.n
            sx, sy = fnsym('sorted%d.x' % run.nsorts, 'I', 'R'), fnsym('sorted%d.y' % run.nsorts, 'I', 'R')
            to, fro = fnsym('sorted%d.to' % run.nsorts, 'I', 'I'), fnsym('sorted%d.from' % run.nsorts, 'I', 'I')
            run.nsorts += 1
            new = self.fn('Point2::new')

            def at(i):
                i = canon(i)
                with run.nofork(TRUE):
                    return self.call(new, app(sx, i), app(sy, i))
            s = SymSeq(n, at)
            s_xy = lambda i: (app(sx, canon(i)), app(sy, canon(i)))
            inr = lambda i: And(le(0, I(i)), lt(I(i), I(n)))

            def at_new(i):
                """the element at place i is one of the input"""
                j = app(fro, canon(i))
                x, y = self.xy(v.at(j))
                run.fact(Implies(inr(i), And(inr(j), eq(s_xy(i)[0], x), eq(s_xy(i)[1], y))))
                return j

            def at_old(i):
                """the input element i is at some place"""
                j = app(to, canon(i))
                x, y = self.xy(v.at(I(i)))
                run.fact(Implies(inr(i), And(inr(j), eq(s_xy(j)[0], x), eq(s_xy(j)[1], y))))
                return j

            def ordered(i, j):
                b, e = order(s_xy(i), s_xy(j))
                run.fact(Implies(And(le(0, I(i)), le(I(i), I(j)), lt(I(j), I(n))), Or(b, e)))
            self.h.update({'S': s, 'n': n, 'xy': s_xy, 'at_new': at_new, 'at_old': at_old, 'ordered': ordered})
            return s
        self.run.sort_hook = hook

    def note(self, i):
        self.run.note_index(i)

    def exists(self, name, lo, hi, f):
        """proved by naming a witness among the indices met on the path"""
        lo, hi = I(lo), I(hi)
        idx = [I(lo)] + list(self.run.indices.values())
        self.ensure(name, Or(*[And(le(lo, i), lt(i, hi), f(i)) for i in idx]))

    def running(self, name, n, init, step):
        """value after n steps of v(0) = init, v(i+1) = step(i, v(i)); the symbolic run gets the function and its equations"""
        e = R(init) if not isinstance(init, bool) else B(init)
        fs = fnsym('run_' + name, 'I', e.sort)
        v = lambda i: app(fs, I(i))
        same = eq if e.sort != 'B' else Iff
        self.run.fact(same(v(0), e))
        self.run.forall(0, n, lambda i: same(v(i + 1), step(i, v(i))))
        self.run.note_index(I(0))
        self.run.note_index(I(n))
        self.run.ex.ghosts[name] = v
        return v

    # ---- calls
    def fn(self, short):
        f = self.ip.p.find(short)
        if f is None:
            m = re.match(r'^<(\S+) as (\w+)>::(\w+)$', short)
            if m:
                f = self.ip.p.methods.get(m.groups()) or self.ip.p.traitdef.get((m.group(2), m.group(3)))
            if f is None and '::' in short:
                pass
        if f is None:
            raise Unsupported('function %s not found' % short)
        return f

    def wrap(self, f, args):
        av = []
        for (n, t), a in zip(f.params, args):
            if t.strip().startswith('&') and not isinstance(a, Ref):
                a = Ref(Cell(a))
            elif not t.strip().startswith('&') and isinstance(a, Ref):
                a = self.ip.deref(a)
            av.append(a)
        return av

    def call(self, short, *args):
        if not isinstance(short, str):
            f = short
        else:
            f = self.fn(short)
        if len(f.params) != len(args):
            raise Unsupported('%s takes %d arguments' % (f.key, len(f.params)))
        v = self.ip.call_fn(f, self.wrap(f, args))
        v = self.ip.deref(v)
        from interp import norm
        return norm(v)

    def may_panic(self, short, *args):
        """(True, None) on paths where the call panics, (False, result) otherwise"""
        try:
            return False, self.call(short, *args)
        except RustPanic:
            return True, None

    def ref(self, v):
        return Ref(Cell(v))

    def get(self, ref):
        return self.ip.deref(ref)

    # ---- contract bodies
    def requires(self, f):
        if self.mode == 'use':
            if not self.run.entails(f):
                raise NotApplicable()
        else:
            self.run.assume(f)

    @property
    def result(self):
        if self.res is None:
            if self.mode == 'use':
                self.res = self.freshval(self.cfn.ret, 'r_' + self.cfn.key.split('::')[-1])
            else:
                self.run.ex.entered = False
                self.res = self.call(self.cfn, *self.cargs)
        return self.res

    def freshval(self, t, name):
        t = t.strip()
        run = self.run
        if t == 'T':
            v = run.fresh(name)
            self.freshvars[v.id] = v
            return v
        if t == 'bool':
            return run.fresh(name, 'B')
        if t in ('usize', 'u32', 'u64', 'u8', 'i32', 'i64', 'isize'):
            v = run.fresh(name, 'I')
            self.freshvars[v.id] = v
            if t[0] == 'u':
                run.fact(le(0, v))
            return v
        if t == '()':
            return ()
        if t.startswith('('):
            return tuple(self.freshval(x, name) for x in split_top(t[1:-1]) if x.strip())
        m = re.match(r'^\[(.*); (\d+)\]$', t)
        if m:
            return Seq([self.freshval(m.group(1), name) for _ in range(int(m.group(2)))])
        l = type_last(t)
        if l == 'Option':
            return some(self.freshval(inner_types(t)[0], name)) if run.choose(2) else NONE
        if l == 'Vec':
            n = run.choose(self.maxlen + 1)
            it = inner_types(t)[0]
            return Seq([self.freshval(it, name) for _ in range(n)])
        d = self.ip.p.decls.get(self.ip.p.ty(t))
        if d is None:
            raise NotApplicable()
        key = self.ip.p.ty(t)
        if d.kind == 'struct':
            return Adt(key, 0, [self.freshval(ft, name + '.' + fn) for fn, ft in d.fields])
        if all(not fs for _, fs in d.variants):
            return Adt(key, run.choose(len(d.variants)))
        raise NotApplicable()

    # ---- looking at values
    def tyname(self, v):
        return self.ip.deref(v).ty

    def isv(self, v, variant):
        v = self.ip.deref(v)
        d = self.ip.p.decls.get(v.ty)
        if d is None:
            raise Unsupported('enum ' + str(v.ty))
        names = [n for n, _ in d.variants]
        if variant not in names:
            raise Unsupported('variant %s of %s' % (variant, v.ty))
        return B(v.var == names.index(variant))

    def opt(self, v):
        v = self.ip.deref(v)
        return None if v.var == 0 else self.ip.deref(v.f[0])

    def items(self, v):
        v = self.ip.deref(v)
        if isinstance(v, Seq):
            return [self.ip.deref(x) for x in v.items]
        if isinstance(v, tuple):
            return [self.ip.deref(x) for x in v]
        raise Unsupported('items of a %s' % type(v).__name__)

    def length(self, v):
        return self.ip.deref(v).length()

    def at(self, v, i):
        v = self.ip.deref(v)
        return self.ip.deref(v.get(i, None if isinstance(v, SymSeq) else self.run))

    def list(self, items):
        return Seq(items)

    def lists(self, n, at):
        return SymSeq(n, at)

    def ordering(self, v):
        return self.ip.deref(v).var

    def enum(self, ty, variant):
        return Adt(ty, self.ip.p.variant(ty, variant))

    # ---- logic
    def assume(self, f):
        if self.mode == 'use':
            raise Unsupported('assume in a used contract')
        self.run.assume(f)

    def ensure(self, name, f):
        if self.mode == 'use':
            self.facts.append(B(f))
        else:
            self.run.ensure(name, f)

    def lemma(self, name, f):
        """proved, then available to what follows"""
        if self.mode == 'use':
            self.facts.append(B(f))
        else:
            self.run.ensure('lemma ' + name, f)
            k = self.run.known(B(f))
            if k is None:
                self.run.fact(f)

    def algebra(self, name, terms, f):
        """f(*variables) = (hypotheses, conclusion), proved on its own for all values of the variables; the hypotheses are
        proved for the terms on this path and the conclusion for the terms is then available"""
        if self.mode == 'use':
            return
        run = self.run
        terms = [R(t) for t in terms]
        vs = [run.fresh('u%d' % i) for i in range(len(terms))]
        hyps, goal = f(*vs)
        run.ex.ob_total += 1
        run.ex.obs.append(engine.Obligation('algebra ' + name, [B(h) for h in hyps], B(goal), run.ex.name, []))
        run.ex.ob_names['algebra ' + name] = run.ex.ob_names.get('algebra ' + name, 0) + 1
        hyps, goal = f(*terms)
        for h in hyps:
            self.lemma(name, h)
        run.fact(B(goal))

    def unreachable(self, name):
        self.ensure(name, FALSE)

    def cover(self, name):
        self.run.ex.covered += 1

    def case(self, f):
        """case split of the proof (no information added)"""
        return bool(B(f))

    def sqrt(self, x):
        return self.run.sqrt(x, need=False)

    def div(self, a, b):
        """b must be known non-zero where the result matters"""
        w, self.run.welldef = self.run.welldef, False
        try:
            return self.run.div(a, b)
        finally:
            self.run.welldef = w

    def sincos(self, x):
        return self.run.sincos(x)

    def atan2(self, y, x):
        return self.run.atan2(y, x)

    def ufun(self, name, x):
        return self.run.ufun(name, x)

    def polar(self, r, th):
        """the direction (r cos th, r sin th), r > 0, has the angle th up to whole turns"""
        s, c = self.run.sincos(th)
        a = self.run.atan2(mul(r, s), mul(r, c))
        m = self.run.fresh('turns', 'I')
        self.run.fact(Implies(lt(0, R(r)), eq(a, sub(th, mul(mul(2, PI), m)))))
        return a

    def fresh(self, name, sort='R'):
        return self.run.fresh('g_' + name, sort)


class NotApplicable(Exception):
    pass


class Contract:
    def __init__(self, key, body, prop, maxlen=4, requires=None, props=(), **opt):
        self.key, self.body, self.prop, self.maxlen, self.opt = key, body, prop, maxlen, opt
        self.failed = False
        self.name = 'contract ' + key
        self.proof_only = opt.get('proof_only', False)

    def keyof(self, v, ip, depth=0):
        v = ip.deref(v)
        if isinstance(v, (int, bool)):
            return v
        if isinstance(v, E):
            return ip.run.pkey(v) if v.sort == 'R' else v.id
        if isinstance(v, Adt):
            return (v.ty, v.var) + tuple(self.keyof(x, ip) for x in v.f)
        if isinstance(v, tuple):
            return tuple(self.keyof(x, ip) for x in v)
        if isinstance(v, Seq):
            return ('seq',) + tuple(self.keyof(x, ip) for x in v.items)
        return ('id', id(v), v if isinstance(v, (SymSeq, RcV)) else None)

    def use(self, ip, fn, args):
        run = ip.run
        if self.opt.get('stateful'):
            return self.use_stateful(ip, fn, args)
        dv = [ip.deref(a) for a in args]
        mk = ('contract', fn.key) + tuple(self.keyof(a, ip) for a in dv)
        r = run.memo.get(mk)
        if r is not None:
            return r
        ctx = Sym(run, ip, 'use', fn, dv, self.maxlen)
        w, run.welldef = run.welldef, False
        try:
            self.body(ctx, *dv)
        except NotApplicable:
            run.welldef = w
            run.ex.inlined_uses.add(fn.key)
            return ip.exec_fn(fn, args)
        finally:
            run.welldef = w
        run.ex.used_contracts.add(fn.key)
        # results given by an equation are replaced by their definition
        facts = []
        for f in ctx.facts:
            facts.extend(f.args if f.op == 'and' else (f,))
        defs = {}
        rest = []
        for f in facts:
            f = subst(f, defs) if defs else f
            p = atom_parts(f) if f.op == 'v' else None
            if p and p[0] == '=':
                hit = definition(f, ctx.freshvars, defs)
                if hit:
                    v, t = hit
                    m = {v.id: t}
                    defs = {i: subst(x, m) for i, x in defs.items()}
                    defs[v.id] = t
                    continue
            rest.append(f)
        res = substval(ctx.res, defs) if defs else ctx.res
        for f in rest:
            run.assume(subst(f, defs) if defs else f)
        if isinstance(res, Adt) or isinstance(res, Seq):
            run.prune()
        run.memo[mk] = res
        return res

    def use_stateful(self, ip, fn, args):
        """the body of the contract builds the result (ctx.res) and changes the heap itself"""
        run = ip.run
        ctx = Sym(run, ip, 'use', fn, args, self.maxlen)
        ctx.h = run.h
        w, run.welldef = run.welldef, False
        try:
            self.body(ctx, *args)
        finally:
            run.welldef = w
        run.ex.used_contracts.add(fn.key)
        for f in ctx.facts:
            run.assume(f)
        run.prune()
        return ctx.res

    def prove(self, c):
        """unit body"""
        fn = c.fn(self.key) if not c.concrete else None
        if c.concrete:
            args = c.contract_args(self)
            c.cargs, c.cfn = args, self.key
        else:
            if 'args' in self.opt:
                args = self.opt['args'](c)
            else:
                args = [c.build(t, 'a%d' % i) for i, (_, t) in enumerate(fn.params)]
            c.cfn, c.cargs = fn, args
            c.maxlen = self.maxlen
        self.body(c, *args)
        c.cover('end')


class Lemma:
    def __init__(self, name, body, prop, **opt):
        self.name, self.body, self.prop, self.opt = name, body, prop, opt
        self.key = None

    def prove(self, c):
        self.body(c)
        c.cover('end')


def definition(f, fresh, defs):
    # f: an equation; solved for a fresh variable that occurs linearly and alone
    p = atom_parts(f)
    d = poly(sub(p[1], p[2]))
    if d is None:
        return None
    for k, c in d.items():
        if len(k) == 1 and k[0][1] == 1 and k[0][0] in fresh and k[0][0] not in defs:
            v = fresh[k[0][0]]
            if v.sort == 'I' and abs(c) != 1:
                continue
            if any(x[0] == v.id for k2 in d if k2 != k for x in k2):
                continue
            rest = {k2: c2 for k2, c2 in d.items() if k2 != k}
            if any(v.id in free_vars(expr._byid[x[0]]) for k2 in rest for x in k2):
                continue
            t = from_poly({k2: Fraction(-c2) / c if v.sort == 'R' else -c2 // c for k2, c2 in rest.items()}, v.sort)
            return v, t
    return None


def substval(v, m):
    v = force(v)
    if isinstance(v, E):
        return subst(v, m)
    if isinstance(v, Adt):
        return Adt(v.ty, v.var, [substval(x, m) for x in v.f])
    if isinstance(v, tuple):
        return tuple(substval(x, m) for x in v)
    if isinstance(v, Seq):
        return Seq([substval(x, m) for x in v.items])
    return v


CONTRACTS = {}
LEMMAS = []
LOOPS = {}


def contract(key, prop, **opt):
    def deco(f):
        CONTRACTS[key] = Contract(key, f, prop, **opt)
        return f
    return deco


def lemma(name, prop, **opt):
    def deco(f):
        LEMMAS.append(Lemma(name, f, prop, **opt))
        return f
    return deco


def loop(key, nth=0, **opt):
    def deco(f):
        LOOPS.setdefault(key, []).append(engine.LoopSpec(key, nth, f, **opt))
        return f
    return deco
