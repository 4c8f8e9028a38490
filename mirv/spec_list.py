"""C23: the circular doubly linked list. An arbitrary list is a cycle of nodes around the one that is touched; runs of further
nodes stay symbolic and are unfolded where the code looks into them.  C24: the priority queue, over the assumed
contract of std's BinaryHeap."""
from ctx import *
from spec_avl import fields, MOST

LIST, LNODE = 'CircularDoubleLinkedList', 'ListNode'
ASSUME = ('a list has fewer than 10^12 nodes (usize lengths do not overflow)',)


class Gap:
    def __init__(self, n):
        self.n = n


class Ring:
    """the nodes from head to tail: known ones and gaps of further nodes, as they were before the call"""

    def __init__(self, k, empty=False):
        self.k, self.run = k, k.run
        self.data = {}
        self.first = {}
        if empty:
            self.order, self.n = [], I(0)
            return
        x = self.x = self.node()
        left = [] if k.choose(2, 'the node is the head') else [self.node(), self.gap()]
        right = [] if k.choose(2, 'the node is the tail') else [self.gap(), self.node()]
        self.order = left + [x] + right
        self.n = I(sum(1 for o in self.order if not isinstance(o, Gap)))
        for o in self.order:
            if isinstance(o, Gap):
                self.n = self.n + o.n

    def gap(self):
        return Gap(self.k.int('further', 0, MOST))

    def node(self):
        m = {'data': self.k.real('data')}
        rc = RcV(Cell(None))
        for f, s in (('next', 1), ('prev', -1)):
            m[f] = Lazy(lambda s=s: some(self.beside(rc, s)))
        self.data[rc] = m['data']
        self.first[rc] = m
        fs = fields(self.k, LNODE)
        if sorted(fs) != sorted(m):
            raise Unsupported('fields of ListNode')
        rc.cell.v = RefCellO(Adt(LNODE, 0, [m[f] for f in fs]))
        return rc

    def beside(self, rc, s):
        """the neighbour a node had at first"""
        o = self.order
        i = o.index(rc)
        j = (i + s) % len(o)
        g = o[j]
        if not isinstance(g, Gap):
            return g
        if not self.run.decide(lt(0, g.n)):
            del o[j]
            return self.beside(rc, s)
        new = self.node()
        o[j:j + 1] = [new, Gap(g.n - 1)] if s > 0 else [Gap(g.n - 1), new]
        return new

    def field(self, rc, f):
        c = rc.cell.v
        if c.state:
            raise Unsupported('list node borrowed')
        return force(c.cell.v).f[fields(self.k, LNODE).index(f)]

    def kept(self, rc, f):
        v = self.field(rc, f)
        return v is self.first[rc][f] and v.fn is not None

    def unfold(self):
        """bring out every node beside the touched one and beside changed links"""
        if self.order and hasattr(self, 'x'):
            self.beside(self.x, 1)
            self.beside(self.x, -1)
        again = True
        while again:
            again = False
            for i, g in enumerate(self.order):
                if isinstance(g, Gap):
                    a, b = self.order[i - 1], self.order[i + 1]
                    for rc, f, s in ((a, 'next', 1), (b, 'prev', -1)):
                        if not self.kept(rc, f):
                            self.beside(rc, s)
                            again = True
                            break
                    if again:
                        break

    def is_(self, v, rc):
        v = force(v)
        if rc is None or v.var == 0:
            return B(rc is None and v.var == 0)
        return B(force(v.f[0]).cell is rc.cell)

    def check(self, lst, want, n, data):
        """the list is the cycle `want` (nodes and gaps), with head, tail and length"""
        k = self.k
        for i, a in enumerate(want):
            b = want[(i + 1) % len(want)]
            if not isinstance(a, Gap) and not isinstance(b, Gap):
                k.ensure('the next link of each node leads to the following one', self.is_(self.field(a, 'next'), b))
                k.ensure('the previous link of each node leads to the one before', self.is_(self.field(b, 'prev'), a))
            if not isinstance(a, Gap):
                k.ensure('each node keeps its data', eq(force(self.field(a, 'data')), data[a]))
        k.ensure('the head is the first node', self.is_(lfield(k, lst, 'head'), want[0] if want else None))
        k.ensure('the tail is the last node', self.is_(lfield(k, lst, 'tail'), want[-1] if want else None))
        k.ensure('the length is the number of nodes', eq(force(lfield(k, lst, 'length')), n))

    def value(self):
        fs = fields(self.k, LIST)
        if sorted(fs) != ['head', 'length', 'tail']:
            raise Unsupported('fields of the list')
        o = self.order
        m = {'head': some(o[0]) if o else NONE, 'tail': some(o[-1]) if o else NONE, 'length': self.n}
        return Ref(Cell(Adt(LIST, 0, [m[f] for f in fs])))


def lfield(k, lst, f):
    return k.ip.deref(lst).f[fields(k, LIST).index(f)]


def whole(k, empty):
    r = k.run.h['ring'] = Ring(k, empty)
    return r


def insert_args(k):
    r = whole(k, bool(k.choose(2, 'empty')))
    return [r.value(), some(r.x) if r.order else NONE, k.real('new')]


@contract(LIST + '::insert', 'C23', args=insert_args, stateful=True, proof_only=True, assumes=ASSUME)
def insert(k, lst, at, d):
    if k.mode == 'use':
        raise Unsupported('the list in use')
    r = k.run.h['ring']
    new = force(k.result)
    if not isinstance(new, RcV):
        raise Unsupported('result of an insertion')
    r.unfold()
    want = list(r.order)
    k.ensure('the new node is none of the old ones', B(all(isinstance(o, Gap) or o.cell is not new.cell for o in want)))
    want.insert(want.index(r.x) + 1 if want else 0, new)
    r.check(lst, want, r.n + 1, {**r.data, new: d})


def delete_args(k):
    r = whole(k, bool(k.choose(2, 'empty')))
    if not r.order:
        return [r.value(), NONE]
    return [r.value(), some(r.x) if k.choose(2, 'node') else NONE]


@contract(LIST + '::delete', 'C23', args=delete_args, stateful=True, proof_only=True, assumes=ASSUME)
def delete(k, lst, at):
    if k.mode == 'use':
        raise Unsupported('the list in use')
    r = k.run.h['ring']
    k.result
    r.unfold()
    want = list(r.order)
    n = r.n
    if force(at).var == 1:
        want.remove(r.x)
        n = n - 1
    r.check(lst, want, n, r.data)


@lemma('a new list is empty; head, tail and length are given as they are', 'C23', assumes=ASSUME)
def _(k):
    if k.concrete:
        return history(k)
    lst = Ref(Cell(k.call(LIST + '::new')))
    r = whole(k, True)
    r.check(lst, [], I(0), {})
    r = whole(k, bool(k.choose(2, 'empty')))
    lst = r.value()
    o = r.order
    k.ensure('the head is given', r.is_(k.call(LIST + '::head', lst), o[0] if o else None))
    k.ensure('the tail is given', r.is_(k.call(LIST + '::tail', lst), o[-1] if o else None))
    k.ensure('the length is given', eq(k.call(LIST + '::len', lst), r.n))
    r.unfold()
    r.check(lst, list(r.order), r.n, r.data)


def history(k):
    """concrete runs: a random history of operations against a plain list"""
    l = k.call(LIST + '::new')
    m = []          # (node, data) from head to tail
    for i in range(k.int('length', 1, 16)):
        op = k.int('op', 0, 2 + 3 * (i % 4))
        at = k.int('at', 0, 7)
        if m and op < 2:
            node = m.pop(at % len(m))[0]
            k.call(LIST + '::delete', l, node)
        else:
            v = i
            at = at % len(m) if m else None
            if not m:
                m.append((k.call(LIST + '::insert', l, None, v), v))
            elif op % 2:
                t = k.call(LIST + '::tail', l)
                m.append((k.call(LIST + '::insert', l, k.opt(t), v), v))
            else:
                m.insert(at + 1, (k.call(LIST + '::insert', l, m[at][0], v), v))
        k.ensure('the length is the number of nodes', B(k.asint(k.call(LIST + '::len', l)) == len(m)))
        for end, d, step in (('head', 1, 'node.next'), ('tail', -1, 'node.prev')):
            n = k.opt(k.call('%s::%s' % (LIST, end), l))
            k.ensure('an empty list has no ends, another has both', B((n is None) == (not m)))
            for _, v in m[::d] + m[::d][:1]:
                k.ensure('the nodes in order, around the cycle', B(n is not None and k.asint(k.call('node.data', n)) == v))
                n = k.opt(k.call(step, n))
        if not m and k.int('again', 0, 1):
            return


# ---------------------------------------------------------------- the priority queue
HEAP = ('std::collections::BinaryHeap keeps what is pushed and pops a greatest element',)


class Bag:
    """the contents of a BinaryHeap: how often each value occurs.  The operations are std's contract."""

    def __init__(self, run, eqs=(), n=None):
        self.run, self.eqs, self.tops, self.memo = run, list(eqs), [], {}
        i = run.h['bags'] = run.h.get('bags', 0) + 1
        self.sym = fnsym('bag%d' % i, ('R',), 'I')
        self.n = run.fresh('size', 'I') if n is None else n
        run.fact(And(le(0, self.n), le(self.n, MOST)))

    def cnt(self, x):
        x = R(x)
        c = app(self.sym, x)
        if x.id not in self.memo:
            self.memo[x.id] = x
            self.run.fact(And(le(0, c), le(c, self.n)))
            for e in self.eqs:
                self.run.fact(eq(c, e(x)))
            for t in self.tops:
                self.run.fact(Implies(lt(0, c), x <= t))
        return c

    def heap(self, ip, r, m, args):
        run = self.run

        def put(b):
            ip.write(r.cell, r.path, Adt('BinaryHeap', 0, (b,)))
        if m == 'push':
            v = force(args[1])
            put(Bag(run, [lambda x: self.cnt(x) + ite(eq(x, v), I(1), I(0))], self.n + 1))
            return UNIT
        if m == 'is_empty':
            return eq(self.n, 0)
        if m == 'len':
            return self.n
        if m == 'clear':
            put(Bag(run, [lambda x: I(0)], I(0)))
            return UNIT
        if m in ('pop', 'peek'):
            if not run.decide(lt(0, self.n)):
                return NONE
            t = run.fresh('top')
            run.fact(le(1, self.cnt(t)))
            for x in list(self.memo.values()):
                run.fact(Implies(lt(0, self.cnt(x)), x <= t))
            self.tops.append(t)
            if m == 'peek':
                return some(Ref(Cell(t)))
            put(Bag(run, [lambda x: self.cnt(x) - ite(eq(x, t), I(1), I(0))], self.n - 1))
            return some(t)
        raise Unsupported('BinaryHeap::' + m)


def bag(k, q):
    v = k.ip.deref(q).f[fields(k, 'PriorityQueue').index('heap')].f[0]
    if isinstance(v, Seq) and not v.items:
        v = Bag(k.run, [lambda x: I(0)], I(0))
    if not isinstance(v, Bag):
        raise Unsupported('the heap of a queue')
    return v


def queue(k):
    if fields(k, 'PriorityQueue') != ['heap']:
        raise Unsupported('fields of PriorityQueue')
    b = Bag(k.run)
    return Ref(Cell(Adt('PriorityQueue', 0, (Adt('BinaryHeap', 0, (b,)),)))), b


@lemma('pushing into a queue', 'C24', assumes=HEAP)
def _(k):
    if k.concrete:
        return queue_history(k)
    q, b = queue(k)
    v = k.real('v')
    k.call('PriorityQueue::push', q, v)
    X = k.fresh('X')
    k.ensure('the value pushed occurs once more, every other as before', eq(bag(k, q).cnt(X), b.cnt(X) + ite(eq(X, v), I(1), I(0))))


@lemma('popping from a queue', 'C24', assumes=HEAP)
def _(k):
    if k.concrete:
        return queue_history(k)
    q, b = queue(k)
    r = force(k.call('PriorityQueue::pop', q))
    X = k.fresh('X')
    if r.var == 0:
        k.ensure('nothing is popped only from an empty queue', eq(b.cnt(X), 0))
        k.ensure('nothing is popped only from an empty queue', eq(bag(k, q).cnt(X), 0))
        return
    v = force(r.f[0])
    k.ensure('no value in the queue is greater than the one popped', Implies(lt(0, b.cnt(X)), X <= v))
    k.ensure('the value popped was in the queue', lt(0, b.cnt(v)))
    k.ensure('it occurs once less, every other as before', eq(bag(k, q).cnt(X), b.cnt(X) - ite(eq(X, v), I(1), I(0))))


@lemma('a new and a cleared queue are empty, and the test for that', 'C24', assumes=HEAP)
def _(k):
    if k.concrete:
        return queue_history(k)
    q = Ref(Cell(k.call('PriorityQueue::new')))
    X = k.fresh('X')
    k.ensure('a new queue is empty', eq(bag(k, q).cnt(X), 0))
    q, b = queue(k)
    r = B(k.call('PriorityQueue::is_empty', q))
    k.ensure('a queue is called empty exactly when nothing can be popped from it', Iff(r, eq(b.n, 0)))
    k.ensure('asking changes nothing', eq(bag(k, q).cnt(X), b.cnt(X)))
    k.call('PriorityQueue::clear', q)
    k.ensure('a cleared queue is empty', eq(bag(k, q).cnt(X), 0))


def queue_history(k):
    q, m = k.call('PriorityQueue::new'), []
    for i in range(k.int('length', 1, 20)):
        op = k.int('op', 0, 9)
        if op < 5:
            v = k.int('v', 0, 9)
            k.call('PriorityQueue::push', q, v)
            m.append(v)
        elif op == 9:
            k.call('PriorityQueue::clear', q)
            m = []
        else:
            r = k.opt(k.call('PriorityQueue::pop', q))
            k.ensure('the greatest value is popped, nothing when there is none', B((r is None) == (not m) and (r is None or k.asint(r) == max(m))))
            if m:
                m.remove(max(m))
        k.ensure('a queue is called empty exactly when nothing is in it', B(k.call('PriorityQueue::is_empty', q) == (not m)))
