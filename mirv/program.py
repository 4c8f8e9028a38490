"""Loads the MIR of /repo's current source and indexes it: functions by (type, trait, method), closures,
promoted constants, struct/enum declarations (read from the source text)."""
import os
import re
import shutil
import subprocess
import tempfile

from mirparse import (parse_mir, split_top, strip_generics, type_last, match_paren_fwd, _match_angle)

REPO = os.environ.get('RCGAL_REPO', '/repo')
TOOLCHAIN = '1.98.0'
FLAGS = ['-Zunpretty=mir', '-Zmir-opt-level=0', '-Ztrim-diagnostic-paths=no', '-Cdebug-assertions=off',
         '-Coverflow-checks=on', '-Awarnings']


def cache_dir():
    d = os.environ.get('RCGAL_VERIF_CACHE', '/verif/.build')
    os.makedirs(d, exist_ok=True)
    return d


def dump_mir(target=None):
    """-> MIR text. Compiles a scratch copy of /repo's current sources (rustc does the extraction)."""
    tmp = tempfile.mkdtemp(prefix='rcgal-mir-')
    try:
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(tmp, 'src'))
        for f in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                shutil.copy(p, tmp)
        env = dict(os.environ)
        env.update(RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=os.path.join(tmp, 'target'), CARGO_NET_OFFLINE='true')
        tc = toolchain()
        if tc:
            env['RUSTUP_TOOLCHAIN'] = tc
        cmd = ['cargo', 'rustc', '--offline', '--lib']
        if target:
            cmd += ['--target', target]
        r = subprocess.run(cmd + ['--'] + FLAGS, cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=600)
        if r.returncode != 0:
            raise RuntimeError('rustc failed:\n' + r.stderr[-3000:])
        return r.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def toolchain():
    try:
        out = subprocess.run(['rustup', 'toolchain', 'list'], stdout=subprocess.PIPE, text=True).stdout
    except OSError:
        return None
    for l in out.split('\n'):
        if l.startswith(TOOLCHAIN):
            return TOOLCHAIN
    return None


class Decl:
    def __init__(self, kind, name, file, generics):
        self.kind, self.name, self.file, self.generics = kind, name, file, generics
        self.fields = []        # struct: [(name, type)]
        self.variants = []      # enum: [(name, [(field, type)])]


def strip_comments(s):
    s = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), s, flags=re.S)
    return re.sub(r'//[^\n]*', '', s)


def parse_decls(src, file):
    src = strip_comments(src)
    cut = src.find('#[cfg(test)]')
    if cut >= 0:
        src = src[:cut]
    out = []
    for m in re.finditer(r'\b(struct|enum)\s+(\w+)\s*', src):
        i = m.end()
        gen = ''
        if i < len(src) and src[i] == '<':
            j = _match_angle(src, i)
            gen = src[i:j + 1]
            i = j + 1
        k = re.compile(r'\s*(where[^{;]*)?').match(src, i).end()
        d = Decl(m.group(1), m.group(2), file, gen)
        if k < len(src) and src[k] == '{':
            j = match_paren_fwd(src, k)
            body = src[k + 1:j]
        elif k < len(src) and src[k] == '(':
            j = match_paren_fwd(src, k)
            d.fields = [(str(n), _ty(t)) for n, t in enumerate(split_top(src[k + 1:j]))]
            out.append(d)
            continue
        else:
            out.append(d)
            continue
        body = re.sub(r'#\[[^\]]*\]', '', body)
        if d.kind == 'struct':
            for f in split_top(body):
                f = f.strip()
                if not f:
                    continue
                a, b = f.split(':', 1)
                d.fields.append((a.split()[-1], b.strip()))
        else:
            for v in split_top(body):
                v = v.strip()
                if not v:
                    continue
                mm = re.match(r'^(\w+)\s*(.*)$', v, re.S)
                rest = mm.group(2).strip()
                fs = []
                if rest.startswith('('):
                    fs = [(str(n), _ty(t)) for n, t in enumerate(split_top(rest[1:match_paren_fwd(rest, 0)]))]
                elif rest.startswith('{'):
                    for f in split_top(rest[1:match_paren_fwd(rest, 0)]):
                        a, b = f.split(':', 1)
                        fs.append((a.strip(), b.strip()))
                d.variants.append((mm.group(1), fs))
        out.append(d)
    return out


def _ty(t):
    return re.sub(r'^pub(\([^)]*\))?\s+', '', t.strip())


class Program:
    def __init__(self, text, wasm=False):
        self.fns = parse_mir(text)
        self.byname = {}
        self.methods = {}      # (type, trait or None, method) -> Function
        self.free = {}         # last name -> [Function]
        self.closures = {}
        self.traitdef = {}
        self.consts = {}
        self.decls = {}
        self.aliases = {}
        self._src = {}
        self.wasm = wasm
        for root, _, files in os.walk(os.path.join(REPO, 'src')):
            for f in sorted(files):
                if f.endswith('.rs'):
                    p = os.path.join(root, f)
                    rel = os.path.relpath(p, REPO)
                    with open(p) as fh:
                        t = fh.read()
                    self._src[rel] = t
                    if '/wasm/' in '/' + rel:
                        pre = 'wasm::'
                    else:
                        pre = ''
                    for d in parse_decls(t, rel):
                        self.decls.setdefault(pre + d.name, d)
                    for m in re.finditer(r'\btype\s+(\w+)(?:<[^=]*>)?\s*=\s*([^;]*);', strip_comments(t)):
                        self.aliases[(rel, m.group(1))] = m.group(2).strip()
        for f in self.fns:
            self._index(f)

    def ty(self, t):
        """key of a named type: last path segment, prefixed with wasm:: for the wrapper types"""
        l = type_last(t)
        if 'wasm::' in t.split('<')[0]:
            return 'wasm::' + l
        return l

    def _impl(self, f, m):
        file, l1, c1, l2, c2 = m.group(1), *map(int, m.group(2, 3, 4, 5))
        lines = self._src.get(file, '').split('\n')
        if l1 == l2:
            t = lines[l1 - 1][c1 - 1:c2 - 1] if l1 - 1 < len(lines) else ''
        else:
            t = '\n'.join([lines[l1 - 1][c1 - 1:]] + lines[l1:l2 - 1] + [lines[l2 - 1][:c2 - 1]])
        t = ' '.join(strip_comments(t).split())
        pre = 'wasm::' if '/wasm/' in file else ''
        if t.startswith('impl'):
            t = t[4:].strip()
            if t.startswith('<'):
                t = t[_match_angle(t, 0) + 1:].strip()
            t = re.split(r'\bwhere\b', t)[0].strip()
            mm = re.match(r'^(.*?) for (.*)$', t)
            if mm:
                return self._pre(pre, type_last(mm.group(2))), type_last(mm.group(1)), mm.group(1)
            return self._pre(pre, type_last(t)), None, ''
        if f.params:
            return self.ty(f.params[0][1]), t.split('::')[-1], t
        return None, t, t

    def _pre(self, pre, n):
        return pre + n if pre and (pre + n) in self.decls else n

    def _index(self, f):
        name = f.name
        if f.is_const:
            self.consts[name] = f
            return
        f.key = name
        cm = re.search(r'\{closure#\d+\}$', name)
        if cm:
            t = f.params[0][1] if f.params else ''
            k = re.search(r'\{closure@[^}]*\}', t)
            if k:
                self.closures[k.group(0)] = f
            f.key = 'closure ' + (k.group(0) if k else name)
            return
        m = re.search(r'<impl at ([^:>]*):(\d+):(\d+): (\d+):(\d+)>::', name)
        if m:
            st, tr, full = self._impl(f, m)
            meth = name[m.end():]
            f.key = (st or '?') + '::' + meth if not tr else '<%s as %s>::%s' % (st, tr, meth)
            self.methods.setdefault((st, tr, meth), f)
            f.impl = (st, tr, full)
            self.byname[f.key] = f
            return
        last = name.split('::')[-1]
        self.byname[name] = f
        parts = name.split('::')
        if len(parts) >= 2 and re.match(r'^[A-Z]', parts[-2]):
            self.traitdef[(parts[-2], last)] = f
            f.key = parts[-2] + '::' + last
        else:
            f.key = 'wasm::' + last if name.startswith('wasm::') else last
        self.free.setdefault(last, []).append(f)

    def find(self, short):
        """'Type::method', '<Type as Trait>::method' or a free function's last name or path suffix."""
        if short in self.byname:
            return self.byname[short]
        if '::' in short:
            t, m = short.rsplit('::', 1)
            f = self.methods.get((t, None, m))
            if f:
                return f
            c = [g for (a, b, c_), g in self.methods.items() if a == t and c_ == m]
            if len(c) == 1:
                return c[0]
            c = [g for n, g in self.byname.items() if n.endswith('::' + short)]
            return c[0] if len(c) == 1 else None
        c = [g for g in self.free.get(short, []) if 'wasm::' not in g.name]
        return c[0] if len(c) == 1 else None

    def decl(self, t):
        return self.decls.get(self.ty(t))

    def variant(self, enum, name):
        d = self.decls[enum]
        for i, (n, _) in enumerate(d.variants):
            if n == name:
                return i
        raise KeyError(enum + '::' + name)
