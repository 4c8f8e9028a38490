"""Concrete mode: the specification runs on numbers and every call goes to the compiled crate (witness search and replay)."""
import fcntl
import json
import math
import multiprocessing as mp
import os
import pickle
import random
import re
import select
import signal
import shutil
import struct
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

import expr
from expr import *
from values import Unsupported
import ctx
import prover
from ctx import Base, NotApplicable

HERE = os.path.dirname(os.path.abspath(__file__))
REPLAY_SRC = os.path.join(os.path.dirname(HERE), 'replay')
EPSF = 1e-10


def copy_crate(to, wasm=False):
    """the replay crate, depending on the tree under check"""
    import program
    shutil.copytree(REPLAY_SRC, to, ignore=shutil.ignore_patterns('target'), dirs_exist_ok=True)
    p = os.path.join(to, 'Cargo.toml')
    with open(p) as f:
        t = f.read()
    repo = program.REPO
    if wasm:
        repo = to + '-rcgal'
        native_bindings(repo)
    with open(p, 'w') as f:
        f.write(t.replace('path = "/repo"', 'path = "%s"' % repo))


def native_bindings(to):
    """the tree under check with src/wasm compiled natively: the #[wasm_bindgen] attributes, their imports and the target conditions dropped"""
    import program
    shutil.rmtree(to, ignore_errors=True)
    shutil.copytree(os.path.join(program.REPO, 'src'), os.path.join(to, 'src'))
    with open(os.path.join(to, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "rcgal"\nversion = "0.0.0"\nedition = "2021"\n[lints.rust]\nunexpected_cfgs = "allow"\n')
    for d, _, fs in os.walk(os.path.join(to, 'src')):
        for n in fs:
            p = os.path.join(d, n)
            with open(p) as f:
                t = f.read()
            t = re.sub(r'#\[wasm_bindgen(\([^\]]*\))?\]', '', t)
            t = re.sub(r'#\[cfg_attr\(target_arch = "wasm32", wasm_bindgen[^\]]*\)\]', '', t)
            t = re.sub(r'(#\[cfg\(target_arch = "wasm32"\)\]\s*)?use wasm_bindgen::prelude::\*;', '', t)
            t = re.sub(r'#\[cfg\(target_arch = "wasm32"\)\]\s*(pub )?mod wasm;', 'pub mod wasm;', t)
            with open(p, 'w') as f:
                f.write(t)


class Discard(Exception):
    pass


class Violation(Exception):
    def __init__(self, what):
        self.what = what


class Panic(Exception):
    pass


class NotANumber(Exception):
    pass


class H:
    __slots__ = ('n', 'ty', 'exact')

    def __init__(self, n, ty, exact):
        self.n, self.ty, self.exact = n, ty, exact

    def __repr__(self):
        return '%s#%d' % (self.ty, self.n)


class EnumV:
    def __init__(self, ty, name):
        self.ty, self.name = ty, name

    def __repr__(self):
        return self.ty + '::' + self.name


class Opt:
    def __init__(self, v, has):
        self.v, self.has = v, has

    def __repr__(self):
        return 'Some(%r)' % (self.v,) if self.has else 'None'


class ListV(list):
    n = None
    exact = False


EXACT = {'Point2::new', 'Vector2::new', 'LineSegment2::new', 'CircleSegment2::new', 'Ray2::new', 'Triangle2::new',
         'Polygon2::new', 'Line2::new', 'list', 'Point2::x', 'Point2::y', 'Vector2::x', 'Vector2::y', 'Line2::a',
         'Line2::b', 'Line2::c', 'Ray2::origin', 'Ray2::direction', 'Polygon2::vertices', 'Triangle2::a',
         'Triangle2::b', 'Triangle2::c', 'Triangle2::vertices', 'Vertex2::new', 'Vertex2::x', 'Vertex2::y',
         'Vertex2::to_point', 'ArcSegment2::new'}


def exact_name(n):
    return n in EXACT or n.endswith(('Segment2>::source', 'Segment2>::target', 'Segment2>::center', 'Segment2>::radius')) and not n.startswith('<Arc')


class Replay:
    """the compiled crate behind a pipe"""
    binary = None
    tried = False
    dir = None
    owner = 0
    log = ''
    wasm = False

    @classmethod
    def build(cls):
        """once per check, whichever process asks first"""
        if cls.tried:
            return cls.binary
        cls.tried = True
        d = cls.dir = cls.dir or tempfile.mkdtemp(prefix='rcgal-replay-')
        os.makedirs(d, exist_ok=True)
        b = os.path.join(d, 'target', 'debug', 'replay')
        mark = os.path.join(d, 'built-%d' % cls.owner)
        with open(os.path.join(d, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(mark):
                src = os.path.join(d, 'src-crate')
                shutil.rmtree(src, ignore_errors=True)
                copy_crate(src, cls.wasm)
                env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, 'target'),
                           RUSTFLAGS='--cfg rcgal_verif' + (' --cfg rcgal_wasm' if cls.wasm else ''), CARGO_NET_OFFLINE='true')
                ok = ''
                try:
                    r = subprocess.run(['cargo', 'build', '--offline', '--bin', 'replay'], cwd=src, env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True, timeout=300)
                    if r.returncode == 0 and os.path.exists(b):
                        ok = 'ok'
                    else:
                        cls.log = r.stdout[-2000:]
                except (OSError, subprocess.TimeoutExpired) as e:
                    cls.log = str(e)
                with open(mark, 'w') as f:
                    f.write(ok)
            with open(mark) as f:
                if f.read() == 'ok':
                    cls.binary = b
        return cls.binary

    @classmethod
    def setup(cls):
        """in the parent, before any child is forked"""
        cls.dir = os.environ.get('MIRV_TARGET') or tempfile.mkdtemp(prefix='rcgal-replay-')
        cls.owner = os.getpid()

    @classmethod
    def cleanup(cls):
        if cls.dir and not os.environ.get('MIRV_TARGET'):
            shutil.rmtree(cls.dir, ignore_errors=True)

    def __init__(self):
        self.p = None
        self.buf = b''

    def start(self):
        self.p = subprocess.Popen([Replay.binary], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                  preexec_fn=prover.die_with_parent)
        self.buf = b''

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stderr.close()
            self.p = None

    limit = 8

    def ask(self, line, timeout=None):
        timeout = timeout or self.limit
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(line.encode() + b'\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            raise Panic('process died')
        end = time.time() + timeout
        fd = self.p.stderr.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                self.stop()
                raise Panic('does not return within %d s' % timeout)
            d = os.read(fd, 65536)
            if not d:
                self.stop()
                raise Panic('process aborted')
            self.buf += d
        l, self.buf = self.buf.split(b'\n', 1)
        return l.decode()


def fbits(x):
    return 'f%016x' % struct.unpack('<Q', struct.pack('<d', x))[0]


class Conc(Base):
    concrete = True
    mode = 'conc'

    def __init__(self, prog, replay, source, nan_bad=False):
        self.prog, self.rp, self.source = prog, replay, source
        self.eps = creal(Fraction(EPSF))
        self.pi = creal(Fraction(math.pi))
        self.log = []
        self.inputs = []
        self.nan_bad = nan_bad
        self.unsure = 0
        self.checked = 0
        self.cargs = self.cfn = None
        self.res = None
        self.maxlen = 4
        try:
            self.rp.ask('reset')
        except Panic:
            self.rp.ask('reset')

    # ---- inputs
    def real(self, name, gen=None):
        v = float(self.source.real(name, gen or 'real'))
        self.inputs.append((name, v))
        return creal(Fraction(v))

    def int(self, name, lo=0, hi=None):
        v = int(self.source.int(name, lo, hi))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard()
        self.inputs.append((name, v))
        return v

    def points(self, name, lo=0):
        n = self.int(name + '.n', lo)
        pts = [(float(x), float(y)) for x, y in self.source.points(n)]
        self.inputs.append((name, pts))
        return [self.call('Point2::new', creal(Fraction(x)), creal(Fraction(y))) for x, y in pts]

    def points2(self, name, lo, new):
        ps = self.points(name, lo)
        return [self.call(new, *self.xy(p)) for p in ps], ps

    def option(self, v):
        return Opt(v, v is not None)

    def field(self, v, name):
        return self.call('wasm::field::' + name, v)

    def enum(self, ty, variant):
        return EnumV(ty, variant)

    def pxy(self, ps, i):
        return self.xy(self.at(ps, i))

    def index(self, name, lo, hi):
        i = self.int(name, lo)
        if not i < self.asint(hi):
            raise Discard()
        return i

    def asint(self, i):
        return int(i.val) if isinstance(i, E) else int(i)

    def assume_forall(self, lo, hi, f):
        for i in range(self.asint(lo), self.asint(hi)):
            self.assume(f(i))

    def every(self, name, lo, hi):
        return range(self.asint(lo), self.asint(hi))

    def part(self):
        return True

    def done(self):
        pass

    def sorts(self, name, order):
        pass

    def note(self, i):
        pass

    def exists(self, name, lo, hi, f):
        self.ensure(name, Or(*[f(i) for i in range(self.asint(lo), self.asint(hi))]))

    def running(self, name, n, init, step):
        v = [init]
        for i in range(self.asint(n)):
            v.append(step(i, v[-1]))
        return lambda i: v[self.asint(i)]

    def flag(self, name):
        v = bool(self.source.flag(name))
        self.inputs.append((name, v))
        return v

    def choose(self, n, name=''):
        v = self.source.choose(n)
        if not (0 <= v < n):
            raise Discard()
        self.inputs.append(('choice ' + name, v))
        return v

    # ---- calls
    def enc(self, a):
        if isinstance(a, E):
            return fbits(float(a.val)), (a._mag is None or a._mag == abs(a.val))
        if isinstance(a, bool):
            return 'b%d' % a, True
        if isinstance(a, int):
            return 'i%d' % a, True
        if isinstance(a, H):
            return '#%d' % a.n, a.exact
        if isinstance(a, ListV) and a.n is not None:
            return '#%d' % a.n, a.exact
        if isinstance(a, (list, tuple)):
            l = self.call('list', *a)
            return '#%d' % l.n, l.exact
        if isinstance(a, Opt):
            if a.has:
                return self.enc(a.v)
            return 'N', True
        if a is None:
            return 'N', True
        if isinstance(a, EnumV):
            return 'e' + a.name, True
        raise Unsupported('concrete argument %r' % (a,))

    def call(self, short, *args):
        if not isinstance(short, str):
            short = short.key
        enc = [self.enc(a) for a in args]
        ex = exact_name(short) and all(x for _, x in enc)
        line = short.replace(' ', '~') + ' ' + ' '.join(x for x, _ in enc)
        self.last = short
        r = self.rp.ask(line)
        self.log.append((short, [self.plain(a) for a in args], None))
        if r.startswith('P '):
            if 'REPLAYTYPE' in r:
                raise Unsupported('replay of ' + short)
            self.log[-1] = (short, [self.plain(a) for a in args], 'panic: ' + r[2:])
            raise Panic(r[2:])
        if 'UNKNOWNFN' in r:
            raise Unsupported('replay has no ' + short)
        toks = r.split()
        v, rest = self.parse(toks, ex)
        self.log[-1] = (short, [self.plain(a) for a in args], self.plain(v))
        return v

    def plain(self, v):
        if isinstance(v, E):
            return float(v.val) if v.sort == 'R' else v.val
        if isinstance(v, (bool, int, str)) or v is None:
            return v
        return repr(v)

    def parse(self, t, ex):
        h = t[0]
        k = h[0]
        if k == 'f':
            x = struct.unpack('<d', struct.pack('<Q', int(h[1:], 16)))[0]
            if x != x or x in (float('inf'), float('-inf')):
                raise NotANumber('result of %s is %r' % (self.last, x))
            fx = Fraction(x)
            return (creal(fx) if ex else creal(fx, (abs(fx) + 1) * (10 if CONC.tight else 1000))), t[1:]
        if k == 'i':
            return int(h[1:]), t[1:]
        if k == 'b':
            return h == 'b1', t[1:]
        if k == 'e':
            a, b = h[1:].split(':', 1)
            return EnumV(a, b), t[1:]
        if k == 'U':
            return (), t[1:]
        if k == 'N':
            return Opt(None, False), t[1:]
        if k == 'S':
            v, r = self.parse(t[1:], ex)
            return Opt(v, True), r
        if k == '#':
            a, b = h[1:].split(':', 1)
            return H(int(a), b, ex), t[1:]
        if k == '[':
            out = ListV()
            r = t[1:]
            while r[0] != ']':
                v, r = self.parse(r, ex)
                out.append(v)
            out.n = int(r[1][1:])
            out.exact = ex
            return out, r[2:]
        raise Unsupported('reply ' + ' '.join(t[:5]))

    def may_panic(self, short, *args):
        try:
            return False, self.call(short, *args)
        except Panic:
            return True, None

    def ref(self, v):
        return v

    def get(self, v):
        return v

    def contract_args(self, con):
        if 'args' in con.opt:
            return con.opt['args'](self)
        f = self.prog.find(con.key)
        if f is None:
            m = re.match(r'^<(\S+) as (\w+)>::(\w+)$', con.key)
            f = m and self.prog.methods.get(m.groups())
        if f is None:
            raise Unsupported('function %s not found' % con.key)
        return [self.build(t, 'a%d' % i) for i, (_, t) in enumerate(f.params)]

    # ---- contract bodies
    def requires(self, f):
        self.assume(f)

    @property
    def result(self):
        if self.res is None:
            self.res = (self.call(self.cfn, *self.cargs),)
        return self.res[0]

    # ---- values
    def tyname(self, v):
        return v.ty

    def isv(self, v, variant):
        return B(v.name == variant)

    def opt(self, v):
        return v.v if v.has else None

    def items(self, v):
        return list(v)

    def length(self, v):
        return len(v)

    def at(self, v, i):
        if isinstance(i, E):
            i = int(i.val)
        return v[i]

    def list(self, items):
        return list(items)

    def lists(self, n, at):
        if isinstance(n, E):
            n = int(n.val)
        return [at(I(i)) for i in range(n)]

    def ordering(self, v):
        return v

    # ---- logic
    def assume(self, f):
        f = B(f)
        if f is not TRUE:
            raise Discard()

    def ensure(self, name, f):
        f = B(f)
        self.checked += 1
        if f is FALSE:
            raise Violation(name)
        if f is not TRUE:
            self.unsure += 1

    lemma_name = None

    def lemma(self, name, f):
        pass

    def algebra(self, name, terms, f):
        pass

    def unreachable(self, name):
        raise Violation(name)

    def cover(self, name):
        pass

    def case(self, f):
        f = B(f)
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        raise Discard()

    def sqrt(self, x):
        return csqrt(R(x))

    def div(self, a, b):
        a, b = R(a), R(b)
        if b.val == 0:
            raise Discard()
        return cdiv(a, b)

    def sincos(self, x):
        x = R(x)
        m = (magn(x) + 1) * 10
        return creal(Fraction(math.sin(float(x.val))), m), creal(Fraction(math.cos(float(x.val))), m)

    def atan2(self, y, x):
        y, x = R(y), R(x)
        if abs(y.val) + abs(x.val) < Fraction(1, 10 ** 6):
            raise Discard()
        return creal(Fraction(math.atan2(float(y.val), float(x.val))), 100)

    def ufun(self, name, x):
        x = R(x)
        try:
            return creal(Fraction(getattr(math, name)(float(x.val))), 100)
        except ValueError:
            raise Discard()

    def polar(self, r, th):
        pass

    def fresh(self, name, sort='R'):
        raise Unsupported('ghost value in concrete mode')


def conc_decide(c):
    raise Discard()


class ListSource:
    """inputs from a solver model, in order"""

    def __init__(self, vals):
        self.vals, self.i = vals, 0

    def nxt(self):
        if self.i >= len(self.vals):
            raise Discard()
        self.i += 1
        return self.vals[self.i - 1]

    def real(self, name, gen):
        v = self.nxt()
        try:
            return float(v)
        except OverflowError:
            raise Discard()

    def int(self, name, lo, hi):
        return self.nxt()

    def points(self, n):
        v = self.nxt()
        if len(v) != n:
            raise Discard()
        return v

    def flag(self, name):
        return self.nxt()

    def choose(self, n):
        return self.nxt()


DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1), (0.6, 0.8), (-0.6, 0.8), (0.8, -0.6), (-0.8, -0.6)]


class RandomSource:
    """random inputs, often in special position to the ones drawn before"""

    def __init__(self, rng):
        self.r = rng
        r = rng
        self.style = r.choice(['int', 'int', 'half', 'float', 'mix', 'near', 'axis', 'wide', 'tiny'])
        self.prev = []
        self.m = r.choice([1, 2, 3, 5])
        self.related = r.choice([0, 0.2, 0.5, 0.8])
        self.pts = []
        self.circ = []
        self.rad = {}
        self.pend = {}

    def real(self, name, gen):
        r = self.r
        if name in self.pend:
            v = self.pend.pop(name)
            self.prev.append(v)
            return v
        if gen == 'rad':
            v = self.angle(name)
        elif gen in ('rad4', 'radany'):
            v = self.angle(name) + 2 * math.pi * r.choice([0, 0, 1] if gen == 'rad4' else [0, 1, 2, 3, 4, 5, 7])
            if gen == 'radany' and r.random() < 0.2:
                v = -v
            if r.random() < 0.2:
                v += r.choice([1, -1]) * r.choice([3e-11, 3e-10, 1e-8])
        elif gen == 'pos':
            v = self.radius()
            self.rad[name[:-2]] = v
        elif name.endswith('.x') and name[:-1] + 'y' not in self.pend:
            q = self.place(name[:-2]) if r.random() < self.related else None
            if q is None:
                v = self.number()
                self.prev.append(v)
                q = (v, self.number())
            if self.style == 'near' and r.random() < 0.2:
                q = tuple(x + r.choice([-1, 0, 1]) * r.choice([3e-11, 6e-11, 3e-10, 1e-9, 1e-6]) for x in q)
            v, self.pend[name[:-1] + 'y'] = float(q[0]), float(q[1])
            self.pts.append(q)
            if name.endswith('.c.x') and name[:-4] in self.rad:
                self.circ.append(q + (self.rad[name[:-4]],))
        else:
            v = self.number()
        self.prev.append(v)
        return v

    def radius(self):
        r = self.r
        if self.pts and r.random() < self.related:
            if len(self.pts) > 1 and r.random() < 0.7:
                a, b = r.sample(self.pts, 2)
                v = math.hypot(a[0] - b[0], a[1] - b[1]) * r.choice([1, 1, 1, 0.5, 2])
                if v > 1e-3:
                    return v
            if self.circ:
                return abs(self.circ[-1][2] * r.choice([1, 1, 0.5, 2, 0.25]) + r.choice([0, 0, 1, 2])) or 1.0
        return abs(self.number()) or 1.0

    def angle(self, name):
        r = self.r
        k = r.random()
        if self.circ and k < self.related:
            cx, cy, _ = r.choice(self.circ)
            c = [p for p in self.pts if p[:2] != (cx, cy)]
            if c:
                p = r.choice(c)
                return math.atan2(p[1] - cy, p[0] - cx) % (2 * math.pi)
        k = r.random()
        if k < 0.5:
            return r.randint(0, 24) * math.pi / 12
        if k < 0.7:
            return r.choice([0.0, math.pi, 2 * math.pi])
        return r.uniform(0, 2 * math.pi)

    def dirn(self):
        r = self.r
        if r.random() < 0.6:
            return r.choice(DIRS)
        a = r.uniform(0, 2 * math.pi)
        return math.cos(a), math.sin(a)

    def place(self, name):
        """a point in special position, or None"""
        r = self.r
        if name.endswith('.c') and name[:-2] in self.rad:
            q = self.rad[name[:-2]]
            if self.circ and r.random() < 0.6:
                cx, cy, r1 = r.choice(self.circ)
                d = r.choice([r1 + q, abs(r1 - q), math.sqrt(r1 * r1 + q * q), (r1 + q) / 2, 0])
                u, v = self.dirn()
                return cx + d * u, cy + d * v
            if self.pts:
                x, y = r.choice(self.pts)
                u, v = self.dirn()
                return x + q * u, y + q * v
            return None
        if self.circ and r.random() < 0.6:
            cx, cy, q = r.choice(self.circ)
            k = r.random()
            u, v = self.dirn()
            f = 1 if k < 0.6 else r.choice([0.5, 0.9, 1.1, 1.5, 2, 0])
            if k > 0.85 and self.pts:
                # along the tangent at a point of the circle
                x, y = self.pts[-1]
                u, v = x - cx, y - cy
                t = r.choice([1, -1, 0.5, 2])
                return x - t * v, y + t * u
            return cx + f * q * u, cy + f * q * v
        if len(self.pts) >= 2 and r.random() < 0.7:
            a, b = r.sample(self.pts, 2)
            t = r.choice([0.5, 0.25, -1, -0.5, 2, 1.5, 1, 0, r.uniform(-1, 2)])
            dx, dy = b[0] - a[0], b[1] - a[1]
            if r.random() < 0.7:
                return a[0] + t * dx, a[1] + t * dy
            return b[0] - t * dy, b[1] + t * dx
        if self.pts:
            a, b = r.choice(self.pts), r.choice(self.pts)
            k = r.random()
            if k < 0.4:
                return a
            if k < 0.7:
                return a[0], b[1] if b is not a else self.number()
            return a[0] + self.number(), a[1]
        return None

    def number(self):
        r = self.r
        st = self.style
        if st == 'mix':
            st = r.choice(['int', 'half', 'float', 'near'])
        if self.prev and r.random() < (0.25 if st != 'axis' else 0.6):
            v = r.choice(self.prev)
            if st == 'near' and r.random() < 0.5:
                v += r.choice([-1, 1]) * r.choice([3e-11, 6e-11, 3e-10, 1e-9, 1e-6, 1e-4])
            if st in ('float', 'wide') and r.random() < 0.3:
                v = -v
        elif st in ('int', 'near', 'axis'):
            v = float(r.randint(-self.m, self.m))
        elif st == 'half':
            v = r.randint(-2 * self.m, 2 * self.m) / 2
        elif st == 'wide':
            v = float(r.randint(-40, 40))
        elif st == 'tiny':
            v = r.randint(-4, 4) * r.choice([1.0, 0.1, 0.01, 1e-3])
        else:
            v = r.uniform(-self.m, self.m)
        return v

    def int(self, name, lo, hi):
        lo = -6 if lo is None else lo
        return self.r.randint(lo, hi if hi is not None and hi < 1000 else lo + 7)

    def points(self, n):
        r = self.r
        if r.random() < 0.4:
            # around a centre: often a simple polygon
            cx, cy = self.number(), self.number()
            an = sorted(r.uniform(0, 2 * math.pi) for _ in range(n))
            if r.random() < 0.5:
                an.reverse()
            R = r.uniform(0.5, 3)
            conv = r.random() < 0.5
            pts = []
            for a in an:
                q = R if conv else r.uniform(0.3, 3)
                x, y = cx + q * math.cos(a), cy + q * math.sin(a)
                if self.style in ('int', 'axis', 'near'):
                    x, y = float(round(x)), float(round(y))
                pts.append((x, y))
        else:
            pts = []
            for i in range(n):
                q = self.place('') if r.random() < self.related else None
                if q is None:
                    q = (self.number(), self.number())
                    self.prev += q
                pts.append(q)
                self.pts.append(q)
            return pts
        for x, y in pts:
            self.prev += [x, y]
        self.pts += pts
        return pts

    def flag(self, name):
        return self.r.random() < 0.5

    def choose(self, n):
        return self.r.randrange(n)


def trial(unit, prog, rp, source, nan_bad=False, tight=False):
    """('ok'|'unsure'|'discard'|'violation', details)
    values returned by the crate are taken with an error margin: about 1e-8, or about 1e-12 (tight)"""
    CONC.on = True
    CONC.tight = tight
    CONC.tol = Fraction(1, 10 ** (13 if tight else 11))
    old, HOOK.decide = HOOK.decide, conc_decide
    try:
        try:
            c = Conc(prog, rp, source, nan_bad)
        except Panic as e:
            return 'discard', None
        try:
            unit.prove(c)
        except Discard:
            return 'discard', None
        except Violation as e:
            return 'violation', {'obligation': e.what, 'inputs': c.inputs, 'calls': c.log[-40:]}
        except Panic as e:
            return 'violation', {'obligation': 'no panic: %s' % e, 'inputs': c.inputs, 'calls': c.log[-40:]}
        except NotANumber as e:
            if nan_bad:
                return 'violation', {'obligation': 'defined: %s' % e, 'inputs': c.inputs, 'calls': c.log[-40:]}
            return 'discard', None
        except ZeroDivisionError:
            return 'discard', None
        return ('unsure' if c.unsure else 'ok'), None
    finally:
        CONC.on = False
        HOOK.decide = old


def jiggle(v, rng):
    if isinstance(v, float):
        return v * (1 + rng.choice([-1, 0, 1, 2]) * 4e-16)
    if isinstance(v, list):
        return [jiggle(x, rng) for x in v]
    if isinstance(v, tuple):
        return tuple(jiggle(x, rng) for x in v)
    return v


def near(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-12 * (1 + abs(a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return a == b


def stable(unit, prog, rp, d, nan_bad):
    """the violation stays, and no number the crate returns moves, when the inputs change by a few units in the last place"""
    rng = random.Random(7)
    for k in range(8):
        vals = [jiggle(v, rng) if k else v for _, v in d['inputs']]
        st, e = trial(unit, prog, rp, ListSource(vals), nan_bad, True)
        if st != 'violation' or e['obligation'] != d['obligation'] or len(e['calls']) != len(d['calls']):
            return False
        if not all(a[0] == b[0] and near(a[2], b[2]) for a, b in zip(d['calls'], e['calls'])):
            return False
    return True


def nice(v):
    if isinstance(v, float):
        return abs(v) <= 1024 and v * 64 == int(v * 64)
    if isinstance(v, (list, tuple)):
        return all(nice(x) for x in v)
    return True


def shift(v, d, rng, seen):
    # equal numbers stay equal
    if isinstance(v, float):
        if abs(v) not in seen:
            seen[abs(v)] = d * rng.uniform(-1, 1)
        return v + (seen[abs(v)] if v >= 0 else -seen[abs(v)])
    if isinstance(v, (list, tuple)):
        return type(v)(shift(x, d, rng, seen) for x in v)
    return v


def robust(unit, prog, rp, d, nan_bad):
    """a lemma may compare two answers of the crate, which differ by rounding on the very threshold of the tolerance:
    the violation has to stay when the inputs move by a hundredth of the tolerance or less"""
    if unit.key is not None or all(nice(v) for _, v in d['inputs']):
        return True
    rng = random.Random(11)
    for s in (1e-13, 1e-12):
        n = 0
        for _ in range(8):
            seen = {}
            st, e = trial(unit, prog, rp, ListSource([shift(v, s, rng, seen) for _, v in d['inputs']]), nan_bad, True)
            n += st == 'violation' and e['obligation'] == d['obligation']
        if n >= 6:
            return True
    return False


def search(unit, prog, models, seconds, seed, nan_bad=False):
    """first the verifier's own counterexamples, then random inputs; returns (witness or None, statistics)"""
    stats = {'model_trials': 0, 'random_trials': 0, 'accepted': 0}
    if Replay.build() is None:
        stats['note'] = 'replay crate does not build against this tree'
        return None, stats
    rp = Replay()
    try:
        for m in models:
            stats['model_trials'] += 1
            st, d = trial(unit, prog, rp, ListSource(list(m)), nan_bad)
            if st != 'violation':
                st, d = trial(unit, prog, rp, ListSource(list(m)), nan_bad, True)
                if st == 'violation' and not stable(unit, prog, rp, d, nan_bad):
                    st = 'unstable'
            if st == 'violation' and not robust(unit, prog, rp, d, nan_bad):
                st = 'unstable'
            if st == 'violation':
                d['source'] = "the verifier's counterexample"
                return d, stats
        rng = random.Random(seed)
        end = time.time() + seconds
        while time.time() < end:
            stats['random_trials'] += 1
            src = None
            if models and rng.random() < 0.3:
                src = PerturbSource(rng.choice(models), rng)
            st, d = trial(unit, prog, rp, src or RandomSource(rng), nan_bad, True)
            if st == 'violation':
                # must be reproducible, and no effect of rounding
                st2, d2 = trial(unit, prog, rp, ListSource([v for _, v in d['inputs']]), nan_bad)
                if (st2 == 'violation' or stable(unit, prog, rp, d, nan_bad)) and robust(unit, prog, rp, d, nan_bad):
                    d2 = d2 or d
                    d2['source'] = 'random search after the proof failed'
                    return d2, stats
                stats['unstable'] = stats.get('unstable', 0) + 1
            if st in ('ok', 'unsure'):
                stats['accepted'] += 1
        return None, stats
    except Unsupported as e:
        stats['note'] = str(e)
        return None, stats
    finally:
        rp.stop()


class PerturbSource(ListSource):
    def points(self, n):
        v = ListSource.points(self, n)
        out = []
        for p in v:
            if self.r.random() < self.rate:
                p = tuple(self.r.choice([float(round(x)), x + self.r.uniform(-0.5, 0.5), x * 2, -x]) for x in p)
            out.append(p)
        return out

    def __init__(self, vals, rng):
        ListSource.__init__(self, list(vals))
        self.r = rng
        self.rate = rng.choice([0.1, 0.3, 0.6])

    def real(self, name, gen):
        v = ListSource.real(self, name, gen)
        if self.r.random() < self.rate:
            k = self.r.random()
            if k < 0.3:
                v = round(v)
            elif k < 0.6:
                v = round(v * 2) / 2
            elif k < 0.8:
                v += self.r.uniform(-0.5, 0.5)
            else:
                v = v * self.r.choice([2, -1, 0.5, 3])
        if gen == 'pos':
            v = abs(v) or 1.0
        return v


class Searcher:
    """random searches in processes of their own, while the provers work"""

    def __init__(self, unit, prog, seconds, seed, nan_bad=False, n=2):
        self.ps = []
        self.w = None
        self.stats = {}
        c = mp.get_context('fork')
        Replay.build()
        for k in range(n):
            fd, path = tempfile.mkstemp(prefix='mirvs')
            os.close(fd)

            def work(path=path, k=k):
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                try:
                    r = search(unit, prog, [], seconds, seed + 1000 * k, nan_bad)
                except Exception as e:
                    r = None, {'note': 'search failed: %s: %s' % (type(e).__name__, e)}
                with open(path + '.t', 'wb') as f:
                    pickle.dump(r, f)
                os.rename(path + '.t', path)
            p = c.Process(target=work)
            p.start()
            self.ps.append((p, path))

    def poll(self):
        """a witness, or None"""
        for p, path in list(self.ps):
            if not p.is_alive():
                p.join()
                self.ps.remove((p, path))
                try:
                    with open(path, 'rb') as f:
                        w, st = pickle.load(f)
                except Exception:
                    w, st = None, {}
                os.unlink(path)
                for k, v in st.items():
                    self.stats[k] = self.stats.get(k, 0) + v if isinstance(v, int) else v
                if w is not None and self.w is None:
                    self.w = w
        return self.w

    def done(self):
        return self.poll() is not None or not self.ps

    def wait(self):
        while not self.done():
            time.sleep(0.05)
        return self.w

    def stop(self):
        self.poll()
        for p, path in self.ps:
            p.kill()
            p.join()
            for q in (path, path + '.t'):
                if os.path.exists(q):
                    os.unlink(q)
        self.ps = []
