"""Interpreter of MIR over symbolic values. One run = one path; branching goes through Run.decide/choose."""
import re
from fractions import Fraction

from expr import *
import expr
from values import *
from mirparse import (parse_operand, parse_place, split_top, strip_generics, type_last, ParseError, _match_angle)

INT_BITS = {'usize': (0, 2 ** 64), 'u64': (0, 2 ** 64), 'u32': (0, 2 ** 32), 'u16': (0, 2 ** 16), 'u8': (0, 256),
            'isize': (-2 ** 63, 2 ** 63), 'i64': (-2 ** 63, 2 ** 63), 'i32': (-2 ** 31, 2 ** 31),
            'i16': (-2 ** 15, 2 ** 15), 'i8': (-128, 128), 'u128': (0, 2 ** 128), 'i128': (-2 ** 127, 2 ** 127)}
POISON = Opaque('uninitialised')


class Frame:
    __slots__ = ('fn', 'cells', 'heads', 'seen', 'spec_in', 'saved')

    def __init__(self, fn):
        self.fn = fn
        self.cells = {}
        self.seen = {}
        self.spec_in = {}
        self.saved = {}

    def cell(self, n):
        c = self.cells.get(n)
        if c is None:
            c = self.cells[n] = Cell(POISON)
        return c


def norm(v):
    """concrete E constants of sort I/B -> python"""
    v = force(v)
    if isinstance(v, E):
        if v.sort == 'I' and v.op == 'c':
            return v.val
        if v is TRUE:
            return True
        if v is FALSE:
            return False
    return v


class Interp:
    MAX_ITER = 70
    MAX_DEPTH = 60

    def __init__(self, prog, run):
        self.p = prog
        self.run = run
        self.depth = 0
        self.stack = []
        self.constcache = {}
        self.unroll = None
        import models
        self.models = models

    # ------------------------------------------------------------------ places
    def loc(self, fr, p):
        k = p[0]
        if k == 'local':
            return fr.cell(p[1]), ()
        if k == 'deref':
            c, path = self.loc(fr, p[1])
            v = self.read(c, path)
            if isinstance(v, Ref):
                return v.cell, v.path
            if isinstance(v, (BoxV,)):
                return v.cell, ()
            raise Unsupported('deref of %r' % (type(v).__name__,))
        c, path = self.loc(fr, p[1])
        if k == 'field':
            return c, path + (p[2],)
        if k == 'downcast':
            return c, path
        if k == 'index':
            i = norm(fr.cell(p[2]).v)
            return c, path + (('i', i),)
        if k == 'cindex':
            i = p[2]
            if p[4]:
                i = self.read(c, path).length() - i
            return c, path + (('i', i),)
        raise Unsupported('place ' + k)

    def step(self, v, s):
        v = force(v)
        if isinstance(s, tuple):
            if isinstance(v, (Seq, SymSeq)):
                return v.get(s[1], self.run)
            raise Unsupported('index into %s' % type(v).__name__)
        if isinstance(v, (Adt, Clo)):
            if s >= len(v.f):
                raise Unsupported('field %d of %r' % (s, v))
            return v.f[s]
        if isinstance(v, tuple):
            return v[s]
        if isinstance(v, (BoxV, Ref)):
            return v          # Unique/NonNull wrappers of a box pointer
        raise Unsupported('field of %s' % (v.name if isinstance(v, Opaque) else type(v).__name__))

    def read(self, c, path=()):
        v = force(c.v)
        for s in path:
            v = force(self.step(v, s))
        return v

    def write(self, c, path, x):
        if not path:
            c.v = x
            return
        c.v = self._upd(force(c.v), path, x)

    def _upd(self, v, path, x):
        if not path:
            return x
        s = path[0]
        v = force(v)
        if isinstance(s, tuple):
            return v.set(s[1], self._upd(v.get(s[1], self.run) if len(path) > 1 else None, path[1:], x), self.run)
        if isinstance(v, Adt):
            f = list(v.f)
            f[s] = self._upd(f[s], path[1:], x)
            return Adt(v.ty, v.var, f)
        if isinstance(v, Clo):
            f = list(v.f)
            f[s] = self._upd(f[s], path[1:], x)
            return Clo(v.name, f)
        if isinstance(v, tuple):
            f = list(v)
            f[s] = self._upd(f[s], path[1:], x)
            return tuple(f)
        raise Unsupported('write into %s' % type(v).__name__)

    def deref(self, v):
        """follow references to the value"""
        v = force(v)
        while isinstance(v, Ref):
            v = self.read(v.cell, v.path)
        return v

    # ------------------------------------------------------------------ operands
    def operand(self, fr, o):
        k = o[0]
        if k == 'const':
            return self.const(fr, o[1])
        c, path = self.loc(fr, o[1])
        v = self.read(c, path)
        if v is POISON:
            raise Unsupported('read of an uninitialised local in ' + fr.fn.key)
        if k == 'move' and isinstance(v, Guard) and not path:
            c.v = POISON
        return v

    def const(self, fr, t):
        t = t.strip()
        if t == 'true':
            return True
        if t == 'false':
            return False
        if t == '()':
            return UNIT
        m = re.match(r'^(-?\d+)_?([iu](?:8|16|32|64|128|size))$', t)
        if m:
            return int(m.group(1))
        m = re.match(r'^(-?[0-9.]+(?:[eE][-+]?\d+)?)_?f(32|64)$', t)
        if m:
            return self.float_const(m.group(1), m.group(2))
        if t.startswith('"') or t.startswith('b"') or t.startswith("'"):
            return Opaque(t)
        if '::promoted[' in t:
            return self.promoted(fr, t)
        if t.startswith('{closure@'):
            return Clo(t[:t.index('}') + 1], ())
        r = self.models.const(self, t)
        if r is not None:
            return r
        if t.startswith('<') and t.endswith('SIZE'):
            return 8
        if t.startswith('{alloc') or t.startswith('{0x'):
            return Opaque(t)
        c = self.p.consts.get(strip_generics(t)) or self.p.consts.get(t)
        if c is not None:
            return self.exec_fn(c, [])
        # unit-like ADT value or function item
        if '(' not in t:
            path = strip_generics(t)
            if self.ctor(path):
                return FnItem(t)
            a = self.adt_path(path, [])
            if a is not None:
                return a
            return FnItem(t)
        raise Unsupported('const ' + t)

    def float_const(self, digits, bits):
        if bits == '32':
            import struct
            x = struct.unpack('f', struct.pack('f', float(digits)))[0]
            return R(Fraction(x)) if not exact_float(digits) else R(Fraction(digits))
        return R(Fraction(digits))

    def promoted(self, fr, t):
        m = re.search(r'promoted\[(\d+)\]$', t)
        name = fr.fn.name + '::promoted[%s]' % m.group(1)
        c = self.p.consts.get(name)
        if c is None:
            base = strip_generics(t)
            c = self.p.consts.get(base)
        if c is None:
            raise Unsupported('promoted ' + t)
        v = self.constcache.get(c.name)
        if v is None:
            v = self.constcache[c.name] = self.exec_fn(c, [])
        return v

    def ctor(self, path):
        """number of fields of the constructor at that path (None when it is none)"""
        parts = path.split('::')
        if len(parts) >= 2:
            if (parts[-2], parts[-1]) in (('Option', 'Some'), ('Result', 'Ok'), ('Result', 'Err')):
                return 1
            d = self.p.decls.get(parts[-2])
            if d and d.kind == 'enum':
                for n, fs in d.variants:
                    if n == parts[-1]:
                        return len(fs)
        return None

    def adt_path(self, path, fields):
        """aggregate/unit value by path: Struct or Enum::Variant"""
        parts = path.split('::')
        last = parts[-1]
        pre = 'wasm::' if path.startswith('wasm::') else ''
        if len(parts) >= 2:
            en = parts[-2]
            if en == 'Option':
                return some(fields[0][1]) if last == 'Some' else NONE
            if en == 'Result':
                return Adt('Result', 0 if last == 'Ok' else 1, [x for _, x in fields])
            if en == 'Ordering' and last in ('Less', 'Equal', 'Greater'):
                return {'Less': LESS, 'Equal': EQUAL, 'Greater': GREATER}[last]
            d = self.p.decls.get(pre + en) or self.p.decls.get(en)
            if d and d.kind == 'enum':
                for i, (n, fs) in enumerate(d.variants):
                    if n == last:
                        return Adt(pre + en if pre + en in self.p.decls else en, i, self.order(fs, fields))
        for nm in (pre + last, last):
            d = self.p.decls.get(nm)
            if d and d.kind == 'struct':
                return Adt(nm, 0, self.order(d.fields, fields))
        if last == 'Range':
            return It('range', fields[0][1], fields[1][1])
        if last == 'RangeInclusive':
            return It('range', fields[0][1], fields[1][1] + 1)
        return None

    def order(self, decl, fields):
        m = dict(fields)
        names = [n for n, _ in decl]
        if set(m) == set(names):
            return [m[n] for n in names]
        return [v for _, v in fields]

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, fr, rv, dest):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, rv[1])
        if k == 'ref':
            c, path = self.loc(fr, rv[2])
            if path and isinstance(force(c.v), Guard):
                raise Unsupported('ref into guard')
            return Ref(c, path)
        if k == 'bin':
            a, b = norm(self.operand(fr, rv[2])), norm(self.operand(fr, rv[3]))
            return self.binop(rv[1], a, b, self.opty(fr, rv[2]) or self.opty(fr, rv[3]))
        if k == 'un':
            a = norm(self.operand(fr, rv[2]))
            if rv[1] == 'Not':
                if isinstance(a, bool):
                    return not a
                if isinstance(a, E) and a.sort == 'B':
                    return Not(a)
                raise Unsupported('bitwise not')
            if rv[1] == 'Neg':
                return -a if isinstance(a, int) else expr.neg(a)
            if rv[1] == 'PtrMetadata':
                return self.deref(a).length()
            raise Unsupported(rv[1])
        if k == 'discr':
            c, path = self.loc(fr, rv[1])
            v = self.read(c, path)
            if isinstance(v, Adt):
                return v.var
            raise Unsupported('discriminant of %s %s' % (type(v).__name__, getattr(v, 'name', '')))
        if k == 'len':
            c, path = self.loc(fr, rv[1])
            return self.read(c, path).length()
        if k == 'adt':
            fields = [(n, self.operand(fr, o)) for n, o in rv[2]]
            a = self.adt_path(strip_generics(rv[1]), fields)
            if a is None:
                if rv[3]:
                    return Adt(strip_generics(rv[1]).split('::')[-1], 0, [x for _, x in fields])
                raise Unsupported('aggregate ' + rv[1])
            return a
        if k == 'tuple':
            return tuple(self.operand(fr, o) for o in rv[1])
        if k == 'array':
            return Seq([self.operand(fr, o) for o in rv[1]])
        if k == 'repeat':
            m = re.match(r'^(?:const )?(\d+)(_usize)?$', rv[2].strip())
            if not m:
                raise Unsupported('repeat ' + rv[2])
            v = self.operand(fr, rv[1])
            return Seq([v] * int(m.group(1)))
        if k == 'closure':
            return Clo(rv[1], [self.operand(fr, o) for _, o in rv[2]])
        if k == 'cast':
            v = self.operand(fr, rv[1])
            kind = rv[3]
            if kind.startswith('IntToInt'):
                v = norm(v)
                if isinstance(v, bool):
                    return int(v)
                if isinstance(v, Adt):
                    return v.var
                b = INT_BITS.get(rv[2])
                if b and isinstance(v, int) and not (b[0] <= v < b[1]):
                    raise Unsupported('wrapping cast')
                if b and isinstance(v, E):
                    if v.sort == 'B':
                        return ite(v, I(1), I(0))
                    if not self.run.entails(And(le(b[0], v), lt(v, b[1]))):
                        raise Unsupported('cast may wrap')
                return v
            if kind.startswith('IntToFloat'):
                v = norm(v)
                return R(v) if not isinstance(v, E) else real_of_int(v)
            if kind.startswith('FloatToFloat'):
                return v
            if kind.startswith(('PtrToPtr', 'Transmute', 'PointerCoercion')):
                if isinstance(v, BoxV):
                    return Ref(v.cell)
                return v
            raise Unsupported('cast ' + kind)
        raise Unsupported('rvalue ' + k)

    def opty(self, fr, o):
        if o[0] == 'const':
            m = re.search(r'_([iu](?:8|16|32|64|128|size))$', o[1])
            return m.group(1) if m else None
        p = o[1]
        if p[0] == 'local':
            return fr.fn.locals.get(p[1])
        return None

    def binop(self, op, a, b, ty):
        if op.endswith('WithOverflow') or op.endswith('Unchecked'):
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}[base]()
            lo, hi = INT_BITS.get(ty, INT_BITS['usize'])
            if isinstance(r, int):
                ov = not (lo <= r < hi)
            else:
                r = norm(r)
                ov = Not(And(le(lo, r), lt(r, hi))) if isinstance(r, E) else not (lo <= r < hi)
            return (r, ov) if op.endswith('WithOverflow') else r
        if op in ('Eq', 'Ne'):
            if isinstance(a, Adt) and isinstance(b, Adt) and not a.f and not b.f:
                r = a.var == b.var
            elif isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                r = a == b
            elif isinstance(a, (E, int, bool)) and isinstance(b, (E, int, bool)):
                r = expr.eq(a, b)
            else:
                raise Unsupported('Eq of %s' % type(a).__name__)
            return r if op == 'Eq' else (not r if isinstance(r, bool) else Not(r))
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, int) and isinstance(b, int):
                return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
            return {'Lt': lambda: lt(a, b), 'Le': lambda: le(a, b), 'Gt': lambda: lt(b, a),
                    'Ge': lambda: le(b, a)}[op]()
        if op in ('Add', 'Sub', 'Mul'):
            if isinstance(a, E) and a.sort == 'R' or isinstance(b, E) and b.sort == 'R':
                return {'Add': lambda: add(a, b), 'Sub': lambda: sub(a, b), 'Mul': lambda: mul(a, b)}[op]()
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}[op]()
        if op == 'Div':
            if isinstance(a, E) and a.sort == 'R' or isinstance(b, E) and b.sort == 'R':
                return self.run.div(a, b)
            if isinstance(a, int) and isinstance(b, int):
                return a // b if (a >= 0) == (b > 0) else -(-a // b)
            return self.run.idiv(a, b)[0]
        if op == 'Rem':
            if isinstance(a, int) and isinstance(b, int) and a >= 0 and b > 0:
                return a % b
            return self.run.idiv(a, b)[1]
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, E) and a.sort == 'B':
                a, b = B(a), B(b)
                r = {'BitAnd': lambda: And(a, b), 'BitOr': lambda: Or(a, b), 'BitXor': lambda: Not(Iff(a, b))}[op]()
                return norm(r)
            if isinstance(a, int) and isinstance(b, int):
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
        if op == 'Cmp':
            if isinstance(a, int) and isinstance(b, int):
                return LESS if a < b else (EQUAL if a == b else GREATER)
            if lt(a, b):
                return LESS
            return EQUAL if expr.eq(a, b) else GREATER
        raise Unsupported('binop %s' % op)

    # ------------------------------------------------------------------ execution
    def truth(self, v):
        v = norm(v)
        if isinstance(v, bool):
            return v
        return bool(v)

    def exec_fn(self, fn, args):
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            self.depth -= 1
            raise Unsupported('recursion depth in ' + fn.key)
        fr = Frame(fn)
        self.stack.append(fr)
        self.run.touched.add(fn.key)
        try:
            for (n, _), a in zip(fn.params, args):
                fr.cells[n] = Cell(a)
            return self.loop_exec(fr)
        finally:
            self.depth -= 1
            self.stack.pop()

    def loop_exec(self, fr):
        fn = fr.fn
        bb = 0
        loops = fn.loops()
        while True:
            if bb in loops:
                self.at_head(fr, bb)
            blk = fn.block(bb)
            for s in blk:
                k = s[0]
                if k == 'assign':
                    v = self.rvalue(fr, s[2], s[1])
                    c, path = self.loc(fr, s[1])
                    self.write(c, path, v)
                elif k == 'goto':
                    bb = s[1]
                elif k == 'switch':
                    bb = self.switch(fr, s)
                elif k == 'call':
                    bb = self.do_call(fr, s)
                elif k == 'assert':
                    v = self.operand(fr, s[1])
                    if self.truth(v) != s[2]:
                        raise RustPanic(s[3] or 'assertion')
                    bb = s[4]
                elif k == 'drop':
                    c, path = self.loc(fr, s[1])
                    self.drop(c, path)
                    bb = s[2]
                elif k == 'return':
                    v = fr.cell(0).v
                    return UNIT if v is POISON else force(v)
                elif k == 'setdiscr':
                    raise Unsupported('set discriminant')
                elif k == 'unreachable':
                    raise Unsupported('reached unreachable in ' + fn.key)
                else:
                    raise Unsupported(k)

    def drop(self, c, path):
        v = c.v
        if path:
            return
        if isinstance(v, Guard) and v.live:
            v.live = False
            v.rc.state = v.rc.state + 1 if v.mut else v.rc.state - 1
            c.v = POISON

    def switch(self, fr, s):
        v = norm(self.operand(fr, s[1]))
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, Adt):
            v = v.var
        if isinstance(v, int):
            for k, b in s[2]:
                if k == v or (v < 0 and k in (v + 256, v + 2 ** 16, v + 2 ** 32, v + 2 ** 64)):
                    return b
            return s[3]
        if v.sort == 'B':
            r = int(self.truth(v))
            for k, b in s[2]:
                if k == r:
                    return b
            return s[3]
        for k, b in s[2]:
            if self.run.decide(expr.eq(v, k)):
                return b
        return s[3]

    def at_head(self, fr, bb):
        n = fr.seen.get(bb, 0) + 1
        fr.seen[bb] = n
        spec = self.run.loop_spec(fr.fn, bb)
        if spec is not None:
            # nested: a head reached again after its outer loop iterated starts a new cut
            self.run.loop_cut(self, fr, bb, spec)
            return
        lim = self.unroll if self.unroll is not None else self.MAX_ITER
        if n > lim:
            if self.unroll is not None:
                self.run.bounded = True
                raise PathEnd('unroll bound')
            raise Unsupported('loop without invariant in %s' % fr.fn.key)

    def do_call(self, fr, s):
        _, dest, callee, args, target = s
        av = [self.operand(fr, a) for a in args]
        # arguments moved into the call: a guard passed by value is consumed there
        v = self.call(callee, av, fr, fr.fn.locals.get(dest[1]) if dest[0] == 'local' else None)
        if target is None:
            raise RustPanic(callee)
        c, path = self.loc(fr, dest)
        self.write(c, path, v)
        return target

    # ------------------------------------------------------------------ calls
    def call(self, callee, args, fr=None, rty=None):
        callee = callee.strip()
        if callee.startswith(('move ', 'copy ')):
            f = self.operand(fr, parse_operand(callee))
            return self.call_value(f, args)
        fn, key = self.resolve(callee, args)
        if fn is not None:
            return self.call_fn(fn, args)
        return self.models.call(self, callee, key, args, fr, rty)

    def call_fn(self, fn, args):
        h = self.run.contract_for(fn, self)
        if h is not None:
            return h(self, fn, args)
        return self.exec_fn(fn, args)

    def call_value(self, f, args):
        """args: list of the closure's arguments"""
        f = self.deref(f)
        if isinstance(f, Clo):
            fn = self.p.closures.get(f.name)
            if fn is None:
                raise Unsupported('closure ' + f.name)
            t = fn.params[0][1]
            selfv = Ref(Cell(f)) if t.startswith('&') else f
            if len(args) == 1 and len(fn.params) > 2 and isinstance(args[0], tuple):
                args = list(args[0])
            return self.exec_fn(fn, [selfv] + list(args))
        if isinstance(f, FnItem):
            path = strip_generics(f.text)
            if self.ctor(path) == len(args):
                return self.adt_path(path, [(str(i), a) for i, a in enumerate(args)])
            return self.call(f.text, args)
        raise Unsupported('call of %s' % type(f).__name__)

    def rtype(self, v):
        v = self.deref(v)
        if isinstance(v, Adt):
            return v.ty
        return None

    def resolve(self, callee, args):
        """-> (Function or None, key for the models)"""
        if callee.startswith('<') and not callee.startswith('<impl at'):
            j = _match_angle(callee, 0)
            inner = callee[1:j]
            rest = callee[j + 1:].lstrip(':')
            meth = strip_generics(rest)
            i = find_as(inner)
            if i < 0:
                st, tr, trfull = inner, None, ''
            else:
                st, trfull = inner[:i].strip(), inner[i + 4:].strip()
                tr = type_last(trfull)
            key = ('trait', st, tr, meth, trfull)
            if tr in ('Segment2',) or st == 'impl' or st.startswith('impl '):
                t = self.rtype(args[0]) if args else None
                f = self.p.methods.get((t, tr, meth))
                if f:
                    return f, key
                f = self.p.traitdef.get((tr, meth))
                if f:
                    return f, key
            if st.startswith('&'):
                return None, key
            tl = self.p.ty(st)
            f = self.p.methods.get((tl, tr, meth))
            if f is None and args and tl not in self.p.decls:
                t = self.rtype(args[0])
                if t is not None:
                    f = self.p.methods.get((t, tr, meth))
            if f is not None:
                f = self.pick_generic(f, tl, tr, meth, trfull)
                return f, key
            f = self.p.traitdef.get((tr, meth))
            if f is not None and tr not in STD_TRAITS:
                return f, key
            return None, key
        path = strip_generics(callee)
        parts = path.split('::')
        if len(parts) >= 2:
            tl = parts[-2]
            if path.startswith('wasm::') and 'wasm::' + tl in self.p.decls:
                tl = 'wasm::' + tl
            f = self.p.methods.get((tl, None, parts[-1]))
            if f:
                return f, ('path', path)
            if (tl, parts[-1]) in self.p.traitdef:
                t = self.rtype(args[0]) if args else None
                f = self.p.methods.get((t, tl, parts[-1])) or self.p.traitdef[(tl, parts[-1])]
                return f, ('path', path)
        f = self.p.byname.get(path)
        if f is None and not path.startswith(('std::', 'core::', 'alloc::')):
            c = [g for g in self.p.free.get(parts[-1], []) if g.name.endswith(path)]
            if len(c) == 1:
                f = c[0]
        return f, ('path', path)

    def pick_generic(self, f, tl, tr, meth, trfull):
        return f


STD_TRAITS = {'PartialEq', 'PartialOrd', 'Ord', 'Eq', 'Clone', 'Iterator', 'IntoIterator', 'Deref', 'DerefMut',
              'Add', 'Sub', 'Mul', 'Div', 'Neg', 'Index', 'IndexMut', 'Extend', 'DefaultNumberValueTrait', 'NumberType',
              'Default', 'From', 'Into', 'FromIterator'}


def find_as(s):
    d = 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch in '<([{':
            d += 1
        elif ch in ')]}' or (ch == '>' and s[i - 1] not in '-='):
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return i
        i += 1
    return -1


def exact_float(d):
    f = Fraction(d)
    n = f.denominator
    return n & (n - 1) == 0
