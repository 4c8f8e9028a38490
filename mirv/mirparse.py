"""Parser for rustc's textual MIR (-Zunpretty=mir, full paths).

The text is produced from /repo's current source on every run; nothing is dropped except
  * cleanup blocks (unwinding paths: a panic ends the path),
  * StorageLive/StorageDead/Nop/FakeRead/retag markers, which have no effect on values.
"""
import re


class ParseError(Exception):
    pass


class Function:
    def __init__(self, name, params, ret):
        self.name = name              # raw MIR name
        self.params = params          # [(n, type)]
        self.ret = ret
        self.locals = {0: ret}
        for n, t in params:
            self.locals[n] = t
        self.debug = {}               # name -> [place text]
        self.blocks = {}              # n -> list of raw lines
        self.cleanup = set()
        self._parsed = {}
        self.is_const = False
        self.key = name

    def block(self, n):
        b = self._parsed.get(n)
        if b is None:
            b = [parse_stmt(s) for s in self.blocks[n]]
            b = [x for x in b if x is not None]
            self._parsed[n] = b
        return b

    # ---- control flow graph ----
    def succs(self, n):
        t = self.block(n)[-1]
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        if k in ('assert', 'drop'):
            return [t[-1]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        return []

    def loops(self):
        """natural loops: {head: set(blocks)} (reducible CFGs)."""
        if hasattr(self, '_loops'):
            return self._loops
        order, seen = [], set()
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        onpath = {0}
        back = []
        while stack:
            n, it = stack[-1]
            for s in it:
                if s in onpath:
                    back.append((n, s))
                elif s not in seen:
                    seen.add(s)
                    onpath.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                stack.pop()
                onpath.discard(n)
                order.append(n)
        preds = {}
        for n in seen:
            for s in self.succs(n):
                preds.setdefault(s, set()).add(n)
        res = {}
        for tail, head in back:
            body = {head, tail}
            wl = [tail] if tail != head else []
            while wl:
                x = wl.pop()
                for p in preds.get(x, ()):
                    if p not in body:
                        body.add(p)
                        wl.append(p)
            res.setdefault(head, set()).update(body)
        self._loops = res
        return res

    def source_order_loops(self):
        return sorted(self.loops())


_hdr = re.compile(r'^(fn|const|static) (.*) (?:\{|= \{)$')


def split_top(s, sep=','):
    out, d, cur, i, n = [], 0, [], 0, len(s)
    instr = False
    while i < n:
        ch = s[i]
        if instr:
            cur.append(ch)
            if ch == '\\':
                cur.append(s[i + 1])
                i += 1
            elif ch == '"':
                instr = False
        elif ch == '"':
            instr = True
            cur.append(ch)
        elif ch in '([{<':
            d += 1
            cur.append(ch)
        elif ch in ')]}':
            d -= 1
            cur.append(ch)
        elif ch == '>':
            if i > 0 and s[i - 1] in '-=':
                pass
            else:
                d -= 1
            cur.append(ch)
        elif ch == sep and d == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(ch)
        i += 1
    t = ''.join(cur).strip()
    if t:
        out.append(t)
    return out


def match_paren_back(s):
    """s ends with ')': index of its matching '('"""
    d = 0
    i = len(s) - 1
    # strings inside call args only occur in assert messages / const strs; handle quotes
    instr = False
    while i >= 0:
        ch = s[i]
        if ch == '"' and (i == 0 or s[i - 1] != '\\'):
            instr = not instr
        elif not instr:
            if ch in ')]}':
                d += 1
            elif ch in '([{':
                d -= 1
                if d == 0:
                    return i
        i -= 1
    raise ParseError('unbalanced: ' + s)


def match_paren_fwd(s, i):
    d = 0
    instr = False
    while i < len(s):
        ch = s[i]
        if instr:
            if ch == '\\':
                i += 1
            elif ch == '"':
                instr = False
        elif ch == '"':
            instr = True
        elif ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ParseError('unbalanced: ' + s)


def parse_place(s):
    """-> ('local', n) / ('deref', p) / ('field', p, i) / ('downcast', p, name) / ('index', p, local)
       / ('cindex', p, i, n, from_end) / ('subslice', p, a, b, from_end)"""
    p, rest = _place(s.strip())
    if rest.strip():
        raise ParseError('place: %r rest %r' % (s, rest))
    return p


def _place(s):
    if s.startswith('_'):
        m = re.match(r'_(\d+)', s)
        p = ('local', int(m.group(1)))
        rest = s[m.end():]
    elif s.startswith('(*'):
        j = match_paren_fwd(s, 0)
        inner = s[2:j]
        p = ('deref', parse_place(inner))
        rest = s[j + 1:]
    elif s.startswith('('):
        j = match_paren_fwd(s, 0)
        inner = s[1:j]
        rest = s[j + 1:]
        q, r = _place(inner)
        r = r.strip()
        if r.startswith('as '):
            p = ('downcast', q, r[3:].strip())
        elif r.startswith('.'):
            m = re.match(r'\.(\d+)\s*:', r)
            p = ('field', q, int(m.group(1)))
        else:
            raise ParseError('place inner %r' % inner)
    else:
        raise ParseError('place %r' % s)
    while rest.startswith('['):
        j = match_paren_fwd(rest, 0)
        ix = rest[1:j]
        rest = rest[j + 1:]
        m = re.match(r'^_(\d+)$', ix)
        if m:
            p = ('index', p, int(m.group(1)))
            continue
        m = re.match(r'^(-?)(\d+) of (\d+)$', ix)
        if m:
            p = ('cindex', p, int(m.group(2)), int(m.group(3)), m.group(1) == '-')
            continue
        m = re.match(r'^(\d*):(-?)(\d*)$', ix)
        if m:
            p = ('subslice', p, int(m.group(1) or 0), int(m.group(3) or 0), m.group(2) == '-' or not m.group(3))
            continue
        raise ParseError('index ' + ix)
    # "X.0: T" w/o parens does not occur at top level
    return p, rest


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:])
    if re.match(r'^[A-Za-z_<][\w:<>, ]*::\w+$', s):
        return ('const', s)         # a function or constructor used as a value
    raise ParseError('operand %r' % s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Eq', 'Ne', 'Lt', 'Le', 'Gt',
          'Ge', 'Cmp', 'Offset', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked',
          'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('&'):
        t = s[1:]
        kind = 'shared'
        if t.startswith('mut '):
            kind, t = 'mut', t[4:]
        elif t.startswith('raw const '):
            kind, t = 'raw', t[10:]
        elif t.startswith('raw mut '):
            kind, t = 'raw', t[8:]
        elif t.startswith('fake '):
            t = re.sub(r'^fake (shallow )?', '', t)
            kind = 'fake'
        elif t.startswith('two_phase '):
            t = t[10:]
            kind = 'mut'
        return ('ref', kind, parse_place(t))
    if s.startswith(('copy ', 'move ', 'const ')):
        # maybe a cast
        m = re.search(r' as (.*) \(([A-Za-z]+(?:\(.*\))?)\)$', s)
        if m and not s.startswith('const "'):
            op = s[:m.start()]
            try:
                return ('cast', parse_operand(op), m.group(1), m.group(2))
            except ParseError:
                pass
        return ('use', parse_operand(s))
    m = re.match(r'^([A-Za-z]+)\(', s)
    if m and s.endswith(')'):
        nm = m.group(1)
        if nm == 'discriminant':
            return ('discr', parse_place(s[len(nm) + 1:-1]))
        if nm == 'Len':
            return ('len', parse_place(s[4:-1]))
        if nm == 'CopyForDeref':
            return ('use', ('copy', parse_place(s[len(nm) + 1:-1])))
        if nm in BINOPS:
            a = split_top(s[len(nm) + 1:-1])
            return ('bin', nm, parse_operand(a[0]), parse_operand(a[1]))
        if nm in UNOPS:
            return ('un', nm, parse_operand(s[len(nm) + 1:-1]))
    if s.startswith('['):
        body = s[1:-1]
        parts = split_top(body, ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parts[1])
        return ('array', [parse_operand(x) for x in split_top(body)])
    if s.startswith('('):
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('{closure@'):
        j = match_paren_fwd(s, 0)
        name = s[:j + 1]
        rest = s[j + 1:].strip()
        fields = []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1]):
                k, v = f.split(':', 1)
                fields.append((k.strip(), parse_operand(v)))
        return ('closure', name, fields)
    # ADT aggregate
    if s.endswith('}'):
        i = match_paren_back(s)
        path = s[:i].strip()
        fields = []
        for f in split_top(s[i + 1:-1]):
            k, v = f.split(':', 1)
            fields.append((k.strip(), parse_operand(v)))
        return ('adt', path, fields, True)
    if s.endswith(')'):
        i = match_paren_back(s)
        path = s[:i].strip()
        return ('adt', path, [(str(k), parse_operand(x)) for k, x in enumerate(split_top(s[i + 1:-1]))], False)
    return ('adt', s, [], False)


_tgt = re.compile(r'bb(\d+)')


def parse_stmt(s):
    s = s.rstrip(';').strip() if not s.startswith('switchInt') else s.rstrip(';')
    if s.startswith(('StorageLive', 'StorageDead', 'FakeRead', 'PlaceMention', 'AscribeUserType', 'nop', 'Coverage',
                     'Retag', 'ConstEvalCounter', 'BackwardIncompatibleDropHint', '// ')):
        return None
    if s.startswith('goto -> '):
        return ('goto', int(_tgt.search(s).group(1)))
    if s == 'return':
        return ('return',)
    if s == 'unreachable':
        return ('unreachable',)
    if s.startswith('resume') or s.startswith('terminate'):
        return ('resume',)
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        return ('goto', int(_tgt.search(s).group(1)))
    if s.startswith('switchInt('):
        j = match_paren_fwd(s, 9)
        op = parse_operand(s[10:j])
        body = s[s.index('[', j) + 1:s.rindex(']')]
        cases, other = [], None
        for c in split_top(body):
            k, v = c.rsplit(':', 1)
            b = int(_tgt.search(v).group(1))
            k = k.strip()
            if k == 'otherwise':
                other = b
            else:
                cases.append((int(k), b))
        return ('switch', op, cases, other)
    if s.startswith('drop('):
        j = match_paren_fwd(s, 4)
        p = parse_place(s[5:j])
        return ('drop', p, int(re.search(r'return: bb(\d+)', s).group(1)))
    if s.startswith('assert('):
        j = match_paren_fwd(s, 6)
        args = split_top(s[7:j])
        c = args[0]
        neg = c.startswith('!')
        op = parse_operand(c[1:] if neg else c)
        return ('assert', op, not neg, args[1] if len(args) > 1 else '',
                int(re.search(r'success: bb(\d+)', s[j:]).group(1)))
    m = re.match(r'^discriminant\((.*)\) = (\d+)$', s)
    if m:
        return ('setdiscr', parse_place(m.group(1)), int(m.group(2)))
    # assignment or call
    i = s.find(' = ')
    if i < 0:
        raise ParseError('stmt %r' % s)
    lhs, rhs = s[:i], s[i + 3:]
    m = re.search(r' -> (\[return: bb\d+, unwind.*\]|unwind .*|\[unwind.*\]|bb\d+)$', rhs)
    if m:
        call = rhs[:m.start()]
        k = match_paren_back(call)
        callee = call[:k]
        args = [parse_operand(a) for a in split_top(call[k + 1:-1])]
        t = re.search(r'return: bb(\d+)', m.group(1))
        return ('call', parse_place(lhs), callee, args, int(t.group(1)) if t else None)
    return ('assign', parse_place(lhs), parse_rvalue(rhs))


def parse_mir(text):
    fns = []
    cur = None
    bb = None
    for line in text.split('\n'):
        if cur is None:
            if line.startswith(('fn ', 'const ', 'static ')) and line.endswith('{'):
                cur = _header(line)
                bb = None
            continue
        if line == '}':
            if cur:
                fns.append(cur)
            cur = None
            continue
        if cur is False:
            continue
        st = line.strip()
        if not st or st.startswith('//'):
            continue
        if bb is None:
            m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', st)
            if m:
                bb = int(m.group(1))
                cur.blocks[bb] = []
                if m.group(2):
                    cur.cleanup.add(bb)
                continue
            m = re.match(r'^let (?:mut )?_(\d+): (.*);$', st)
            if m:
                cur.locals[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r'^debug (\S+) => (.*);$', st)
            if m:
                cur.debug.setdefault(m.group(1), []).append(m.group(2))
                continue
            continue
        if st == '}':
            bb = None
            continue
        cur.blocks[bb].append(st)
    return fns


def _header(line):
    if line.startswith('fn '):
        body = line[3:-1].strip()
        # find ') -> '
        # name up to the '(' that starts params: params start with '(_1:' or '()'
        m = re.search(r'\((_1: |\) -> )', body)
        i = m.start()
        j = match_paren_fwd(body, i)
        name = body[:i]
        params = []
        for p in split_top(body[i + 1:j]):
            k, t = p.split(':', 1)
            params.append((int(k.strip()[1:]), t.strip()))
        ret = body[j + 1:].strip()
        ret = ret[2:].strip() if ret.startswith('->') else '()'
        return Function(name, params, ret)
    m = re.match(r'^(?:const|static) (?:mut )?(.*): (.*?) = \{$', line)
    if not m:
        return False
    # name: type split at ': ' following promoted[..] or ident, careful with '::'
    body = line.split(' ', 1)[1][:-len(' = {')]
    # last ': ' at depth 0 that is not '::'
    d = 0
    pos = None
    for i, ch in enumerate(body):
        if ch in '([{<':
            d += 1
        elif ch in ')]}':
            d -= 1
        elif ch == '>' and body[i - 1] != '-':
            d -= 1
        elif ch == ':' and d == 0 and body[i + 1] == ' ' and body[i - 1] != ':':
            pos = i
            break
    if pos is None:
        return False
    f = Function(body[:pos], [], body[pos + 2:])
    f.is_const = True
    return f


# ---- type strings -------------------------------------------------------------------------------------------
def strip_generics(path):
    """remove ::<...> groups (turbofish) and <...> after idents at depth 0 -> plain path"""
    out = []
    i = 0
    n = len(path)
    while i < n:
        ch = path[i]
        if ch == '<':
            if path.startswith('<impl', i):
                j = _match_angle(path, i)
                out.append(path[i:j + 1])
                i = j + 1
                continue
            j = _match_angle(path, i)
            # drop a preceding '::'
            if len(out) >= 2 and out[-1] == ':' and out[-2] == ':':
                out.pop()
                out.pop()
            i = j + 1
            continue
        out.append(ch)
        i += 1
    return ''.join(out)


def _match_angle(s, i):
    d = 0
    while i < len(s):
        ch = s[i]
        if ch == '<':
            d += 1
        elif ch == '>' and s[i - 1] not in '-=':
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ParseError('angle ' + s)


def type_last(t):
    """last path segment of a type without generics/refs: '&mut a::B<T>' -> 'B'"""
    t = t.strip()
    while True:
        m = re.match(r"^&(?:'[a-z_]+ )?(mut )?", t)
        if m and m.end():
            t = t[m.end():].strip()
            continue
        break
    if t.startswith('{closure@'):
        return t
    if t.startswith(('[', '(')):
        return t
    if t.startswith('impl '):
        return 'impl'
    return strip_generics(t).split('::')[-1].strip()
