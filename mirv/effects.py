"""Frame analysis: which fields of a struct a function may write through a mutable reference to it, transitively.
Undecided constructs raise Unsupported."""
from mirparse import type_last
from values import Unsupported


def root(p):
    """(local, chain of accesses from the local outwards)"""
    chain = []
    while p[0] != 'local':
        chain.append(p)
        p = p[1]
    return p[1], list(reversed(chain))


def places(x, out):
    if isinstance(x, tuple):
        if x and x[0] in ('copy', 'move'):
            out.append(x[1])
            return
        if x and x[0] in ('discr', 'len'):
            return
        for y in x:
            places(y, out)
    elif isinstance(x, list):
        for y in x:
            places(y, out)


def written(ip, fn, ty, memo=None):
    """set of field numbers of struct `ty` that fn may write (None stands for all of them)"""
    memo = {} if memo is None else memo
    if fn.key in memo:
        return memo[fn.key]
    memo[fn.key] = out = set()

    def has(t):
        return ty in t and '&mut' in t

    for n, t in fn.locals.items():
        if ty in t and type_last(t) == ty and not t.strip().startswith('&') and n:
            raise Unsupported('%s holds a %s by value' % (fn.key, ty))
    carriers = {n for n, t in fn.locals.items() if has(t)}
    for n in carriers:
        if type_last(fn.locals[n]) != ty or not fn.locals[n].strip().startswith('&mut'):
            raise Unsupported('%s keeps a reference to %s inside %s' % (fn.key, ty, fn.locals[n]))

    def write(p):
        n, ch = root(p)
        if n not in carriers or not ch:
            return
        if ch[0][0] != 'deref':
            raise Unsupported('access to a reference in ' + fn.key)
        if len(ch) == 1:
            out.add(None)
        elif ch[1][0] == 'field':
            out.add(ch[1][2])
        else:
            raise Unsupported('access to %s in %s' % (ty, fn.key))

    for b in fn.blocks:
        if b in fn.cleanup:
            continue
        for s in fn.block(b):
            if s[0] == 'assign':
                d, rv = s[1], s[2]
                write(d)
                if rv[0] == 'ref':
                    n, ch = root(rv[2])
                    if n in carriers and rv[1] in ('mut', 'raw'):
                        if len(ch) == 1 and ch[0][0] == 'deref' and d[0] == 'local' and d[1] in carriers:
                            continue
                        if not ch:
                            raise Unsupported('reference to a reference in ' + fn.key)
                        write(rv[2])
                elif rv[0] == 'use':
                    ps = []
                    places(rv, ps)
                    if any(root(p) == (root(p)[0], []) and root(p)[0] in carriers for p in ps) and not (d[0] == 'local' and d[1] in carriers):
                        raise Unsupported('a reference is stored in ' + fn.key)
                else:
                    ps = []
                    places(rv, ps)
                    if any(root(p)[0] in carriers and not root(p)[1] for p in ps):
                        raise Unsupported('a reference is stored in ' + fn.key)
            elif s[0] == 'call':
                write(s[1])
                ps = []
                places(list(s[3]), ps)
                if any(root(p)[0] in carriers and not root(p)[1] for p in ps):
                    g, _ = ip.resolve(s[2].strip(), [])
                    if g is None:
                        out.add(None)
                    else:
                        out |= written(ip, g, ty, memo)
    memo[fn.key] = out
    return out
