"""C22: the AVL tree. Subtrees are symbolic, unfolded where the code looks into them; the recursive functions are proved
against their own contracts.  Values are elements of a total order (the reals)."""
from ctx import *
from ctx import canon

NODE = 'AVLTreeNode'
HMAX = 1000
ASSUME = ('a tree is lower than %d levels (i32 heights do not overflow)' % HMAX,)
MOST = 10 ** 12


class Tree:
    """a well-formed subtree: balanced, in order (strictly when no equal values are allowed), with its height, smallest and
    greatest value and the number of times each value occurs"""

    def __init__(self, k, strict, eqs=(), up=None):
        run = self.run = k.run
        self.k, self.strict = k, strict
        n = run.h['trees'] = run.h.get('trees', 0) + 1
        self.h = run.fresh('h', 'I')
        self.lo, self.hi = run.fresh('lo'), run.fresh('hi')
        self.sym = fnsym('count%d' % n, ('R',), 'I')
        self.memo, self.kids, self.eqs = {}, None, list(eqs)
        self.gone, self.up = False, up
        if eqs:
            run.h.setdefault('results', []).append(self)
        run.fact(And(le(-1, self.h), le(self.h, HMAX), self.lo <= self.hi))
        self.val = Lazy(self.unfold, self)
        self.cnt(self.lo, False)
        self.cnt(self.hi, False)

    ne = property(lambda s: le(0, s.h))

    def cnt(self, x, up=True):
        x = R(x)
        c = app(self.sym, x)
        if up and self.up:
            self.up.cnt(x)
        if x.id in self.memo:
            return c
        self.memo[x.id] = x
        f = self.run.fact
        f(le(0, c))
        f(Implies(Or(Not(self.ne), x < self.lo, self.hi < x), eq(c, 0)))
        f(Implies(And(self.ne, Or(eq(x, self.lo), eq(x, self.hi))), le(1, c)))
        if self.strict:
            f(le(c, 1))
        if self.kids:
            self.split(x)
        for e in self.eqs:
            f(e(self, x))
        return c

    def split(self, x):
        v, l, r = self.kids
        self.run.fact(eq(app(self.sym, x), l.cnt(x) + r.cnt(x) + ite(eq(x, v), I(1), I(0))))

    def unfold(self):
        if self.gone:
            raise Unsupported('a tree is looked into after it was given away')
        run, k = self.run, self.k
        if not run.decide(self.ne):
            return NONE
        v = run.fresh('v')
        l, r = Tree(k, self.strict, (), self), Tree(k, self.strict, (), self)
        self.kids = v, l, r
        run.fact(shape(self.h, self.lo, self.hi, v, l, r, self.strict))
        for x in list(self.memo.values()):
            self.split(x)
        self.cnt(v, False)
        return some(RcV(Cell(RefCellO(node(k, v, self.h, l.val, r.val)))))


def shape(h, lo, hi, v, l, r, strict):
    """height, balance, order and bounds of a node from its parts"""
    less = lt if strict else le
    return And(eq(h, 1 + ite(le(r.h, l.h), l.h, r.h)), le(l.h - r.h, 1), le(r.h - l.h, 1),
               Implies(l.ne, And(eq(lo, l.lo), less(l.hi, v))), Implies(Not(l.ne), eq(lo, v)),
               Implies(r.ne, And(eq(hi, r.hi), less(v, r.lo))), Implies(Not(r.ne), eq(hi, v)))


def fields(k, ty):
    d = k.ip.p.decls.get(ty)
    if d is None or d.kind != 'struct':
        raise Unsupported('no struct ' + ty)
    return [n for n, _ in d.fields]


def node(k, v, h, l, r):
    m = {'value': v, 'height': h, 'left': l, 'right': r}
    fs = fields(k, NODE)
    if sorted(fs) != sorted(m):
        raise Unsupported('fields of ' + NODE)
    return Adt(NODE, 0, [m[f] for f in fs])


class Built:
    """a subtree as it stands: ensures that it is well formed and gives the same attributes as a Tree"""

    def __init__(self, v, l, r):
        self.v, self.l, self.r = v, l, r
        self.h = 1 + ite(le(r.h, l.h), l.h, r.h)
        self.ne = TRUE
        self.lo, self.hi = ite(l.ne, l.lo, v), ite(r.ne, r.hi, v)

    def cnt(self, x):
        return self.l.cnt(x) + self.r.cnt(x) + ite(eq(R(x), self.v), I(1), I(0))


class Empty:
    h, ne, lo, hi = I(-1), FALSE, R(0), R(0)

    def cnt(self, x):
        return I(0)


def parts(k, v):
    """(node struct, its fields by name, its cell) of a forced tree value, None when empty"""
    v = force(v)
    if v.var == 0:
        return None
    rc = force(v.f[0])
    cell = rc.cell.v
    if cell.state:
        raise Unsupported('tree node borrowed')
    a = force(cell.cell.v)
    return dict(zip(fields(k, NODE), a.f)), cell


def look(k, v, strict, check=True, seen=None):
    """attributes of a tree value; check: its well-formedness is an obligation"""
    seen = {} if seen is None else seen
    if isinstance(v, Lazy) and v.fn is not None:
        t = v.tag
        if id(t) in seen and check:
            k.run.ensure('the tree has no part twice', FALSE)
        if t.gone:
            raise Unsupported('a tree is used after it was given away')
        seen[id(t)] = t
        return t
    p = parts(k, v)
    if p is None:
        return Empty()
    d, cell = p
    if id(cell) in seen:
        if check:
            k.run.ensure('the tree has no part twice', FALSE)
        raise Unsupported('a tree with a part twice')
    seen[id(cell)] = cell
    l, r = (look(k, d[s], strict, check, seen) for s in ('left', 'right'))
    b = Built(force(d['value']), l, r)
    if check:
        less = lt if strict else le
        k.run.ensure('a node stores its height', eq(force(d['height']), b.h))
        k.run.ensure('the heights of the two sides differ by at most one', And(le(l.h - r.h, 1), le(r.h - l.h, 1)))
        k.run.ensure('the left side holds only lesser values', Implies(l.ne, less(l.hi, b.v)))
        k.run.ensure('the right side holds only greater values', Implies(r.ne, less(b.v, r.lo)))
    return b


def give(k, v):
    """the tree belongs to the callee from now on"""
    if isinstance(v, Lazy) and v.fn is not None:
        v.tag.gone = True
        return
    p = parts(k, v)
    if p:
        d, cell = p
        give(k, d['left'])
        give(k, d['right'])
        cell.frozen = True
        cell.cell.v = Lazy(lambda: (_ for _ in ()).throw(Unsupported('a tree is looked into after it was given away')))


def strictly(k):
    return k.run.h['strict']


def tree_args(k):
    k.run.h['strict'] = bool(k.choose(2, 'strict'))
    t = k.run.h['own'] = Tree(k, strictly(k))
    return t.val


def smaller(k, t):
    """a recursive call is on a lower tree"""
    own = k.run.h.get('own')
    if own is not None:
        k.run.ensure('the recursion ends', lt(t.h, own.h))


def probe(k):
    X = k.fresh('X')
    for r in k.run.h.get('results', ()):
        r.cnt(X)
    return X


def one(c):
    return ite(c, I(1), I(0))


def insert_args(k):
    n = tree_args(k)
    return [n, k.real('v'), k.enum('AVLTreeOption', 'DisableSameNode' if strictly(k) else 'SameNodeInsertRight')]


@contract('AVLTreeNode::insert', 'C22', args=insert_args, stateful=True, proof_only=True, assumes=ASSUME)
def insert(k, n, v, o):
    strict = B(k.isv(o, 'DisableSameNode')) is TRUE
    v = k.ip.deref(v)
    if k.mode == 'use':
        if strict != strictly(k):
            raise Unsupported('option changed')
        t = look(k, n, strict)
        smaller(k, t)
        give(k, n)
        r = Tree(k, strict, [lambda r, x: eq(app(r.sym, x), t.cnt(x) + one(And(eq(x, v), Not(And(B(strict), lt(0, t.cnt(v)))))))])
        k.res = r.val
        say = k.run.fact
        k.run.fact(le(r.h, t.h + 1))
    else:
        t = n.tag
        r = look(k, k.result, strict)
        X = probe(k)
        k.ensure('every value occurs as often as before, the new one once more (unless it may not occur twice)',
                 eq(r.cnt(X), t.cnt(X) + one(And(eq(X, v), Not(And(B(strict), lt(0, t.cnt(v))))))))
        say = lambda f: k.ensure('height and bounds after an insertion', f)
    say(And(r.ne, le(t.h, r.h), le(r.h, t.h + 1), Implies(Not(t.ne), And(eq(r.lo, v), eq(r.hi, v))),
            Implies(t.ne, And(eq(r.lo, ite(v < t.lo, v, t.lo)), eq(r.hi, ite(t.hi < v, v, t.hi))))))


def delete_args(k):
    return [tree_args(k), k.real('v')]


@contract('AVLTreeNode::delete', 'C22', args=delete_args, stateful=True, proof_only=True, assumes=ASSUME)
def delete(k, n, v):
    strict = strictly(k)
    v = k.ip.deref(v)
    if k.mode == 'use':
        t = look(k, n, strict)
        smaller(k, t)
        give(k, n)
        r = Tree(k, strict, [lambda r, x: eq(app(r.sym, x), t.cnt(x) - one(And(eq(x, v), lt(0, t.cnt(v)))))])
        k.res = r.val
        say = k.run.fact
    else:
        t = n.tag
        r = look(k, k.result, strict)
        X = probe(k)
        k.ensure('every value occurs as often as before, the deleted one once less (when it occurred)',
                 eq(r.cnt(X), t.cnt(X) - one(And(eq(X, v), lt(0, t.cnt(v))))))
        say = lambda f: k.ensure('height and bounds after a deletion', f)
    say(And(le(r.h, t.h), le(t.h - 1, r.h), Implies(r.ne, And(t.ne, t.lo <= r.lo, r.hi <= t.hi))))


def leftmost(st, v):
    t = Tree(st.c, strictly(st.c))
    st.run.assume(t.ne)
    o = t.val.force()
    o.f[0].cell.v.frozen = True
    st.memory['t'] = t
    return o.f[0]


@loop('AVLTreeNode::delete', 0, total=1, portable=True, havoc={'<type>^std::rc::Rc<': leftmost})
def leftmost_inv(st):
    c = st.c
    now = look(c, some(st.by_type('^std::rc::Rc<').v), strictly(c), check=False)
    if st.phase == 'init':
        st.memory['lo'] = now.lo
    lo = (st.old if st.phase == 'preserve' else st.memory)['lo']
    st.inv('the node reached holds the smallest value or has it on its left', eq(now.lo, lo))
    st.decreases(now.h)


class Rope(SymSeq):
    """a list written as the concatenation of unknown lists, of trees in order, and of single values"""
    __slots__ = ('pieces', 'len')

    def __init__(self, n, pieces):
        SymSeq.__init__(self, n, lambda i: (_ for _ in ()).throw(Unsupported('element of a rope')))
        self.pieces = tuple(pieces)

    def push(self, v):
        return Rope(self.n + 1, self.pieces + (('value', force(v)),))

    def drop_last(self):
        raise Unsupported('removal from a rope')

    def set(self, i, v, run=None):
        raise Unsupported('change of a rope')


def rope(v):
    if isinstance(v, Rope):
        return v
    if isinstance(v, Seq):
        return Rope(I(len(v.items)), [('value', x) for x in v.items])
    raise Unsupported('a list that is not known')


def inorder(k, v):
    """the values of a tree, left to right"""
    if isinstance(v, Lazy) and v.fn is not None:
        return [('tree', v.tag)]
    p = parts(k, v)
    if p is None:
        return []
    d, _ = p
    return inorder(k, d['left']) + [('value', force(d['value']))] + inorder(k, d['right'])


def flat(k, pieces):
    out = []
    for kind, x in pieces:
        out += inorder(k, x.val) if kind == 'tree' else [(kind, x)]
    return out


def same_list(k, name, a, b):
    a, b = flat(k, a), flat(k, b)
    ok = len(a) == len(b) and all(x[0] == y[0] for x, y in zip(a, b))
    k.ensure(name, And(*[eq(x, y) if s == 'value' else B(x is y) for (s, x), (_, y) in zip(a, b)]) if ok else FALSE)


def traversal_args(k):
    n = tree_args(k)
    k.run.h['before'] = Rope(k.int('n', 0, MOST), [('list', 'before')])
    return [n, Ref(Cell(k.run.h['before']))]


@contract('AVLTreeNode::mid_order_traversal', 'C22', args=traversal_args, stateful=True, proof_only=True, assumes=ASSUME)
def traversal(k, n, out):
    if k.mode == 'use':
        t = look(k, n, strictly(k), check=False)
        smaller(k, t)
        was = rope(k.ip.deref(out))
        while isinstance(k.ip.read(out.cell, out.path), Ref):
            out = k.ip.read(out.cell, out.path)
        m = k.run.fresh('m', 'I')
        k.run.fact(And(le(0, m), le(m, MOST)))
        k.ip.write(out.cell, out.path, Rope(was.n + m, was.pieces + tuple(inorder(k, n))))
        k.res = ()
        return
    k.result
    now = k.ip.deref(out)
    same_list(k, 'the values of the tree in order are appended to the list, nothing else changes', rope(now).pieces,
              list(k.run.h['before'].pieces) + inorder(k, n))


# ---------------------------------------------------------------- the tree type
@lemma('the values of a well-formed tree, listed left to right, are in order and complete', 'C22', proof_only=True, assumes=ASSUME)
def _(k):
    """structural induction: lists of the two sides with the property give the list of the tree the property"""
    tree_args(k)
    t, strict = k.run.h['own'], strictly(k)
    k.assume(t.ne)
    t.val.force()
    v, l, r = t.kids
    run = k.run
    fl, fr = fnsym('listL', 'I', 'R'), fnsym('listR', 'I', 'R')
    less = lt if strict else le
    N = []
    for s, f in ((l, fl), (r, fr)):
        n = run.fresh('n', 'I')
        run.fact(And(le(0, n), Iff(s.ne, lt(0, n)), Implies(s.ne, And(eq(app(f, I(0)), s.lo), eq(app(f, canon(n - 1)), s.hi)))))
        N.append(n)
    nl, nr = N
    n = nl + nr + 1
    item = lambda j: ite(lt(j, nl), app(fl, canon(j)), ite(eq(j, nl), v, app(fr, canon(j - nl - 1))))
    k.ensure('the first value is the smallest', eq(item(I(0)), t.lo))
    k.ensure('the last value is the greatest', eq(item(canon(n - 1)), t.hi))
    j = k.index('j', 0, n - 1)
    for f, m, i in ((fl, nl, j), (fr, nr, canon(j - nl - 1))):
        run.fact(Implies(And(le(0, i), lt(i, m - 1)), less(app(f, canon(i)), app(f, canon(i + 1)))))
    k.ensure('each value is followed by a greater one', less(item(j), item(canon(j + 1))))
    X = k.fresh('X')
    k.ensure('the occurrences in the list are those in the tree', eq(t.cnt(X), l.cnt(X) + r.cnt(X) + one(eq(X, v))))


def whole(k):
    """an arbitrary tree object"""
    root = tree_args(k)
    opt = k.enum('AVLTreeOption', 'DisableSameNode' if strictly(k) else 'SameNodeInsertRight')
    fs = fields(k, 'AVLTree')
    if sorted(fs) != ['option', 'root']:
        raise Unsupported('fields of AVLTree')
    k.run.h.pop('own')
    t = Ref(Cell(Adt('AVLTree', 0, [{'root': root, 'option': opt}[f] for f in fs])))
    return t, root.tag, opt


def field(k, t, name):
    return k.ip.deref(t).f[fields(k, 'AVLTree').index(name)]


def parse_dump(s):
    """heights and balance of the compiled crate's tree, None when the dump has another form"""
    pos = [0]

    def take(w):
        if s.startswith(w, pos[0]):
            pos[0] += len(w)
            return True
        return False

    def num():
        m = re.match(r'-?\d+', s[pos[0]:])
        pos[0] += m.end()
        return int(m.group())

    def tree():
        if take('None'):
            return -1
        if not take('Some(RefCell{value:AVLTreeNode{value:'):
            raise ValueError
        num()
        assert take(',height:')
        h = num()
        assert take(',left:')
        a = tree()
        assert take(',right:')
        b = tree()
        assert take('}})')
        if h != max(a, b) + 1:
            raise Wrong('a node stores its height')
        if abs(a - b) > 1:
            raise Wrong('the heights of the two sides differ by at most one')
        return h
    try:
        if take('AVLTree{root:'):
            tree()
    except (ValueError, AssertionError, AttributeError):
        return


class Wrong(Exception):
    pass


def history(k, last):
    """concrete runs: a random history of operations against a sorted list"""
    strict = bool(k.choose(2, 'strict'))
    t = k.call('AVLTree::new', 0 if strict else 1)
    m = []
    n = k.int('length', 1, 40)
    top = k.int('top', 1, 40)
    for i in range(n):
        op = k.int('op', 0, 39)
        v = k.int('v', 0, 40)
        if v > top:
            k.assume(FALSE)
        if i == n - 1:
            op = {'insert': 0, 'delete': 20, 'clear': 39}[last]
        if op < 20:
            k.call('AVLTree::insert', t, v)
            if not (strict and v in m):
                m = sorted(m + [v])
        elif op < 38 or i < n - 1:
            k.call('AVLTree::delete', t, v)
            if v in m:
                m.remove(v)
        else:
            k.call('AVLTree::clear', t)
            m = []
        if i >= n - 3:
            k.ensure('the values in order', B([k.asint(x) for x in k.call('AVLTree::mid_order_traversal', t)] == m))
            try:
                parse_dump(k.call('AVLTree::dump', t).name)
            except Wrong as e:
                k.ensure(str(e), FALSE)


@lemma('inserting into a tree', 'C22', assumes=ASSUME)
def _(k):
    if k.concrete:
        return history(k, 'insert')
    t, old, opt = whole(k)
    v = k.real('v')
    k.call('AVLTree::insert', t, v)
    new = look(k, field(k, t, 'root'), strictly(k))
    X = probe(k)
    k.ensure('every other value occurs as often as before, the new one once more (at most once when equal values are not kept)',
             eq(new.cnt(X), old.cnt(X) + one(And(eq(X, v), Not(And(B(strictly(k)), lt(0, old.cnt(v))))))))
    k.ensure('the option is kept', B(k.ip.deref(field(k, t, 'option')).var == opt.var))


@lemma('deleting from a tree', 'C22', assumes=ASSUME)
def _(k):
    if k.concrete:
        return history(k, 'delete')
    t, old, opt = whole(k)
    v = k.real('v')
    k.call('AVLTree::delete', t, v)
    new = look(k, field(k, t, 'root'), strictly(k))
    X = probe(k)
    k.ensure('every other value occurs as often as before, the deleted one once less (when it occurred)',
             eq(new.cnt(X), old.cnt(X) - one(And(eq(X, v), lt(0, old.cnt(v))))))
    k.ensure('the option is kept', B(k.ip.deref(field(k, t, 'option')).var == opt.var))


@lemma('a new and a cleared tree are empty; listing does not change a tree', 'C22', assumes=ASSUME)
def _(k):
    if k.concrete:
        return history(k, 'clear')
    for o in ('DisableSameNode', 'SameNodeInsertRight'):
        k.run.h['strict'] = o == 'DisableSameNode'
        n = k.call('AVLTree::new', k.enum('AVLTreeOption', o))
        k.ensure('a new tree is empty', B(force(field(k, n, 'root')).var == 0))
        k.ensure('a new tree has the option given', B(k.isv(field(k, n, 'option'), o)))
    t, old, opt = whole(k)
    r = k.call('AVLTree::mid_order_traversal', t)
    same_list(k, 'the list holds the values of the tree in order', rope(r).pieces, [('tree', old)])
    k.ensure('listing leaves the tree as it was', B(force(field(k, t, 'root')) is force(old.val)))
    k.call('AVLTree::clear', t)
    k.ensure('a cleared tree is empty', B(force(field(k, t, 'root')).var == 0))
    k.ensure('the option is kept', B(k.ip.deref(field(k, t, 'option')).var == opt.var))
