"""Run-time values of the MIR interpreter. Everything but Cell/RefCellO/Rc targets is immutable."""
from expr import E, R, I, B, TRUE, FALSE, ite, eq, lt, le, And, Or, Not, isconst, cval


class Unsupported(Exception):
    """the verifier cannot give a meaning to this construct: never an alarm"""


class RustPanic(Exception):
    pass


class PathEnd(Exception):
    """the path is over (infeasible, loop iteration proved, assumption false)"""


class Inconclusive(Exception):
    """concrete mode: rounding decides; the case is dropped"""


class Cell:
    __slots__ = ('v', 'id')
    n = 0

    def __init__(self, v=None):
        self.v = v
        Cell.n += 1
        self.id = Cell.n


class Adt:
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var=0, f=()):
        self.ty, self.var, self.f = ty, var, tuple(f)

    def __repr__(self):
        return '%s#%s(%s)' % (self.ty, self.var, ', '.join(map(repr, self.f)))


class Clo:
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name, self.f = name, tuple(f)


class FnItem:
    __slots__ = ('text',)

    def __init__(self, text):
        self.text = text


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return '&%r%s' % (self.cell.v, list(self.path) or '')


class BoxV:
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell


class RcV:
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell

    def __repr__(self):
        return 'Rc@%d' % self.cell.id


class RefCellO:
    """a RefCell: identity matters, so it is a mutable object"""
    __slots__ = ('cell', 'state', 'frozen')

    def __init__(self, v):
        self.cell = Cell(v)
        self.frozen = False
        self.state = 0          # >0 shared borrows, -1 mutably borrowed

    def __repr__(self):
        return 'RefCell(..)'


class Guard:
    __slots__ = ('rc', 'mut', 'live')

    def __init__(self, rc, mut):
        self.rc, self.mut, self.live = rc, mut, True


class Lazy:
    """symbolic value expanded on first use; force() -> value (memoised)"""
    __slots__ = ('fn', 'val', 'tag')

    def __init__(self, fn, tag=None):
        self.fn, self.val, self.tag = fn, None, tag

    def force(self):
        if self.fn is not None:
            f, self.fn = self.fn, None
            self.val = f()
        return self.val


class Opaque:
    """a value of a type the property does not look into"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


def force(v):
    while isinstance(v, Lazy):
        v = v.force()
    return v


# ---------------------------------------------------------------------------------------------- sequences
class Seq:
    """immutable sequence with concrete length"""
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = tuple(items)

    def length(self):
        return len(self.items)

    def __repr__(self):
        return 'Seq' + repr(list(self.items))

    def get(self, i, run):
        i = force(i)
        if isinstance(i, E) and i.op == 'c':
            i = i.val
        if isinstance(i, int):
            return self.items[i]
        n = len(self.items)
        for k in range(n - 1):
            if run.decide(eq(i, k)):
                return self.items[k]
        return self.items[n - 1]

    def set(self, i, v, run):
        if isinstance(i, E):
            if i.op == 'c':
                i = i.val
            else:
                for k in range(len(self.items)):
                    if k == len(self.items) - 1 or run.decide(eq(i, k)):
                        i = k
                        break
        l = list(self.items)
        l[i] = v
        return Seq(l)

    def push(self, v):
        return Seq(self.items + (v,))

    def drop_last(self):
        return Seq(self.items[:-1])


class SymSeq:
    """sequence of symbolic length; at(i) gives the element for any integer term i (no forking)"""
    __slots__ = ('n', 'at')

    def __init__(self, n, at):
        self.n, self.at = n, at

    def length(self):
        return self.n

    def get(self, i, run=None):
        if run is not None:
            run.note_index(i)
        return self.at(I(i) if not isinstance(i, E) else i)

    def set(self, i, v, run=None):
        old = self.at
        return SymSeq(self.n, lambda k: merge(eq(k, i), v, old(k)))

    def push(self, v):
        old, n = self.at, self.n
        return SymSeq(n + 1 if isinstance(n, E) else n + 1, lambda k: merge(eq(k, n), v, old(k)))

    def drop_last(self):
        return SymSeq(self.n - 1, self.at)

    def __repr__(self):
        return 'SymSeq[%s]' % (self.n,)


def merge(c, a, b):
    """value-level if-then-else for plain structures"""
    c = B(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if any(isinstance(x, Lazy) and x.fn is not None for x in (a, b)):
        return a if c else b
    a, b = force(a), force(b)
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.ty == b.ty and a.var == b.var and len(a.f) == len(b.f):
            return Adt(a.ty, a.var, [merge(c, x, y) for x, y in zip(a.f, b.f)])
        return a if c else b
    if isinstance(a, tuple):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (E, int, bool)) and isinstance(b, (E, int, bool)):
        return ite(c, a, b)
    if a is b:
        return a
    raise Unsupported('merge of %r' % (type(a),))


# ---------------------------------------------------------------------------------------------- iterators
class It:
    """iterator state: kind + fields; immutable"""
    __slots__ = ('kind', 'f')

    def __init__(self, kind, *f):
        self.kind, self.f = kind, f

    def __repr__(self):
        return 'It:%s' % self.kind


NONE = Adt('Option', 0)


def some(v):
    return Adt('Option', 1, (v,))


LESS, EQUAL, GREATER = Adt('Ordering', -1), Adt('Ordering', 0), Adt('Ordering', 1)
UNIT = ()
