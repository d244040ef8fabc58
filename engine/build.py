"""Produce LLVM IR and record layouts from /repo's current sources (every run, nothing cached)."""
import os, subprocess, re, sys, tempfile, shutil, atexit
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
FLAGS = ['-std=gnu++20', '-O0', '-fno-discard-value-names', '-gline-tables-only', '-I', 'src', '-w', '-Wno-everything']


class BuildError(Exception):
    pass


def all_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.cpp') and f != 'Platform.cpp':
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def _one(args):
    src, out, extra = args
    ll = os.path.join(out, src.replace('/', '_') + '.ll')
    cmd = [CLANG] + FLAGS + extra + ['-emit-llvm', '-S', '-Xclang', '-fdump-record-layouts', '-Xclang',
                                     '-fdump-record-layouts-canonical', src, '-o', ll]
    r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
    return ll, r.stdout


class Field:
    __slots__ = ('off', 'type', 'name', 'depth', 'children', 'empty', 'base')

    def __repr__(self):
        return '%d:%s %s' % (self.off, self.type, self.name)


def norm_type(t):
    t = re.sub(r'\b(class|struct|enum|union) ', '', t)
    t = t.replace('const ', '').strip()
    return t


LINE = re.compile(r'^\s*(\d+)(?::\d+-\d+)? \| ( *)(.*)$')


def parse_layouts(text, into):
    for blk in text.split('*** Dumping AST Record Layout')[1:]:
        blk = blk.split('\n\n')[0]
        lines = [l for l in blk.split('\n') if l.strip()]
        m = LINE.match(lines[0])
        if not m:
            continue
        cls = norm_type(re.sub(r' \((primary base|virtual base|base|empty)\)', '', m.group(3)))
        if cls in into:
            continue
        root = Field(); root.off = 0; root.type = cls; root.name = ''; root.depth = -1; root.children = []
        stack = [root]
        size = None
        for l in lines[1:]:
            m = LINE.match(l)
            if not m:
                mm = re.search(r'sizeof=(\d+)', l)
                if mm:
                    size = int(mm.group(1))
                continue
            off, ind, rest = int(m.group(1)), len(m.group(2)), m.group(3)
            f = Field(); f.off = off; f.depth = ind; f.children = []
            f.empty = rest.endswith('(empty)') or '(empty)' in rest
            f.base = '(base)' in rest
            rest = re.sub(r' \((primary base|virtual base|base|empty)\)', '', rest)
            if '(primary base)' in m.group(3) or '(virtual base)' in m.group(3):
                f.base = True
            if f.base:
                f.type = norm_type(rest); f.name = ''
            elif rest.startswith('(') and 'vtable pointer' in rest:
                f.type = 'vptr'; f.name = '_vptr'
            else:
                mm = re.match(r'(.*?)\s?([A-Za-z_]\w*)$', rest)
                if mm:
                    f.type = norm_type(mm.group(1)); f.name = mm.group(2)
                else:
                    f.type = norm_type(rest); f.name = ''
            if 'vtable pointer' in rest:
                f.type = 'vptr'; f.name = '_vptr'
            while stack[-1].depth >= ind:
                stack.pop()
            stack[-1].children.append(f)
            stack.append(f)
        into[cls] = (size, root)


class Program:
    def __init__(self, sources=None, extra_files=None, outdir=None):
        self.out = outdir or tempfile.mkdtemp(prefix='verif_ir_')
        if outdir is None:
            atexit.register(shutil.rmtree, self.out, True)
        srcs = sources or all_sources()
        jobs = [(s, self.out, []) for s in srcs]
        for f in extra_files or []:
            jobs.append((f, self.out, []))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(_one, jobs))
        self.layouts = {}
        self.modules = []
        self.sym = {}
        for ll, lay in res:
            parse_layouts(lay, self.layouts)
            m = ir.Module(ll)
            self.modules.append(m)
            for n in list(m.funcs) + list(m.aliases):
                self.sym.setdefault(n, m)
        ir.demangle([n for n in self.sym] + [n for m in self.modules for n in m.declared] + [a for m in self.modules for a in m.globals if a.startswith('_Z')])
        self.bydem = {}
        for n, m in self.sym.items():
            self.bydem.setdefault(ir.dem1(n), []).append(n)

    def function(self, mangled, module=None):
        if module is not None:
            f = module.function(mangled)
            if f is not None:
                return f
        m = self.sym.get(mangled)
        return m.function(mangled) if m else None

    def find(self, dem):
        """functions by demangled name (C1/C2 duplicates collapse)"""
        l = self.bydem.get(dem)
        if not l:
            return None
        # prefer C2/D2 bodies (aliases resolve anyway)
        for n in l:
            f = self.function(n)
            if f is not None:
                return f
        return None

    def find_re(self, rx):
        rx = re.compile(rx)
        out = []
        for d in self.bydem:
            if rx.fullmatch(d):
                out.append(d)
        return out

    # -------- flattened layouts
    SC = {'unsigned char': 8, 'char': 8, 'signed char': 8, '_Bool': 8, 'bool': 8, 'unsigned short': 16, 'short': 16, 'int': 32,
          'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}

    def kind_of_type(self, t):
        """atomic kind for a canonical type or None"""
        if t in ('bool', '_Bool'):
            return ('bv', 8, 'bool')
        if t in self.SC:
            return ('bv', self.SC[t])
        if t == 'float':
            return ('bv', 32)
        if t == 'double':
            return ('bv', 64)
        if t == 'vptr':
            return ('vptr',)
        if t.endswith('*') or t.endswith('&'):
            return ('ptr', t[:-1].strip())
        if re.match(r'std::vector<', t):
            return ('vec', t[len('std::vector<'):-1].strip())
        if t.startswith('std::basic_string<char') or t.startswith('std::__cxx11::basic_string<char'):
            return ('str',)
        if t.startswith('std::shared_ptr<'):
            return ('sptr', t[len('std::shared_ptr<'):-1].strip())
        if t.startswith('std::weak_ptr<'):
            return ('wptr', t[len('std::weak_ptr<'):-1].strip())
        if t.startswith('std::unique_ptr<'):
            return ('uptr', t[len('std::unique_ptr<'):-1].strip())
        if t.startswith('std::function<'):
            return ('fn', t)
        if t.startswith(('std::map<', 'std::unordered_map<')):
            return ('map', t)
        if t.startswith('std::basic_ostringstream') or t.startswith('std::__cxx11::basic_ostringstream'):
            return ('opaque', t)
        return None

    def sizeof(self, t):
        k = self.kind_of_type(t)
        if k:
            if k[0] == 'bv':
                return k[1] // 8
            if k[0] in ('ptr', 'uptr', 'vptr'):
                return 8
            if k[0] == 'vec':
                return 24
            if k[0] in ('sptr', 'wptr'):
                return 16
            if k[0] in ('str', 'fn'):
                return 32
            if k[0] == 'map':
                return 56 if k[1].startswith('std::unordered_map<') else 48
        if t in self.layouts:
            return self.layouts[t][0]
        e = self.enum_size(t)
        if e:
            return e
        raise KeyError(t)

    def llvm_type(self, cls):
        for m in self.modules:
            for p in ('class.', 'struct.'):
                if p + cls in m.types:
                    return m, m.type(p + cls)
        return None, None

    _enum_sizes = None

    def enum_size(self, t):
        return self._esz.get(t) if hasattr(self, '_esz') else None

    def flat(self, cls):
        """[(off, kind, 'name.path')] with nested plain classes flattened"""
        if not hasattr(self, '_flat'):
            self._flat = {}
        if cls in self._flat:
            return self._flat[cls]
        size, root = self.layouts[cls]
        out = []

        def walk(nodes, prefix, limit, ctx):
            for i, f in enumerate(nodes):
                if getattr(f, 'empty', False):
                    continue
                nxt = nodes[i + 1].off if i + 1 < len(nodes) else limit
                nm = prefix + f.name if f.name else prefix.rstrip('.')
                k = self.kind_of_type(f.type)
                if k is None and f.children:
                    walk(f.children, (prefix + f.name + '.') if f.name else prefix, nxt, ctx + [(f.type, f.off)])
                    continue
                if k is None:
                    m = re.match(r'(.*)\[(\d+)\]$', f.type)
                    if m and self.kind_of_type(m.group(1).strip()):
                        ek = self.kind_of_type(m.group(1).strip())
                        es = self.sizeof(m.group(1).strip())
                        for j in range(int(m.group(2))):
                            out.append((f.off + j * es, ek, '%s[%d]' % (nm, j)))
                        continue
                    # enum: size from the LLVM type
                    sz = None
                    for c, o in reversed(ctx):
                        sz = sz or self.scalar_size_at(c, f.off - o)
                    if sz is None:
                        sz = min(8, nxt - f.off)
                    k = ('bv', sz * 8)
                out.append((f.off, k, nm))
        walk(root.children, '', size, [(cls, 0)])
        self._flat[cls] = out
        return out

    def scalar_size_at(self, cls, off):
        m, t = self.llvm_type(cls)
        if m is None:
            return None
        while True:
            if t[0] == 'named':
                t = m.type(t[1])
            if t[0] == 'struct':
                o = 0
                found = None
                for j, e in enumerate(t[1]):
                    fo, et = m.field_off(t, j)
                    s, _ = m.size_align(et)
                    if fo <= off < fo + s:
                        found = (fo, et)
                if not found:
                    return None
                off -= found[0]
                t = found[1]
                continue
            if t[0] == 'arr':
                s, _ = m.size_align(t[2])
                off %= s
                t = t[2]
                continue
            return m.size_align(t)[0]

    def field(self, cls, name):
        for off, k, nm in self.flat(cls):
            if nm == name:
                return off, k
        raise KeyError('%s.%s' % (cls, name))
