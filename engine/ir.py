"""Textual LLVM-18 IR reader (the subset clang -O0 emits).  Functions are parsed lazily."""
import re, subprocess

TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-\w$.]*))
 | (?P<qs>"(?:[^"\\]|\\.)*")
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[A-Za-z_$][\w.$]*)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|^])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError("IR token at %r" % s[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


class T:
    """types: ('int',n) ('ptr',) ('float',) ('double',) ('void',) ('arr',n,t) ('struct',[..],packed) ('named',name) ('fn',) ('opaque',)"""


INT = {}


def tint(n):
    return ('int', n)


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise SyntaxError("expected %s got %s near %s" % (v, x, self.t[max(0, self.i - 5):self.i + 5]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('int', int(v[1:]))
            elif v in ('ptr', 'float', 'double', 'void', 'label', 'metadata', 'x86_fp80', 'token'):
                t = (v,)
                if v == 'ptr' and self.peek()[1] == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif v == 'opaque':
                t = ('opaque',)
            else:
                raise SyntaxError("type " + v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            t = self.struct_body(False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = self.struct_body(True)
                self.expect('>')
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        elif k == 'id':
            t = ('named', v[1:].strip('"'))
        else:
            raise SyntaxError("type tok %s %s" % (k, v))
        # function type
        if self.peek()[1] == '(' :
            # look for function type "void (ptr, ...)": only valid after a return type in call/alias
            save = self.i
            depth = 0
            j = self.i
            self.i = self.skip_paren(self.i)
            t = ('fn', t)
        return t

    def skip_paren(self, j):
        d = 0
        while True:
            v = self.t[j][1] if self.t[j][0] == 'p' else None
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return j + 1
            j += 1

    def struct_body(self, packed):
        el = []
        if not self.accept('}'):
            while True:
                el.append(self.type())
                if self.accept('}'):
                    break
                self.expect(',')
        return ('struct', tuple(el), packed)

    def value(self, ty):
        k, v = self.next()
        if k == 'id':
            return ('local', v[1:].strip('"')) if v[0] == '%' else ('global', v[1:].strip('"'))
        if k == 'num':
            if ty[0] == 'int':
                return ('int', int(v, 0))
            return ('fp', v)
        if k == 'word':
            if v in ('true', 'false'):
                return ('int', 1 if v == 'true' else 0)
            if v in ('null', 'undef', 'poison', 'zeroinitializer', 'none'):
                return (v,)
            if v == 'getelementptr':
                self.accept('inbounds')
                self.expect('(')
                bt = self.type(); self.expect(',')
                pt = self.type(); base = self.value(pt)
                idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type(); idx.append((it, self.value(it)))
                self.expect(')')
                return ('cgep', bt, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                st = self.type(); x = self.value(st); self.expect('to'); dt = self.type(); self.expect(')')
                return ('ccast', v, st, x, dt)
            if v in ('add', 'sub', 'mul', 'shl', 'xor', 'and', 'or', 'icmp'):
                while self.peek()[1] in ('nsw', 'nuw', 'eq', 'ne'):
                    self.next()
                self.expect('(')
                st = self.type(); a = self.value(st); self.expect(','); self.type(); b = self.value(st); self.expect(')')
                return ('cbin', v, st, a, b)
            if v == 'asm':
                # asm sideeffect "..", "..."
                while self.peek()[0] == 'word':
                    self.next()
                a = self.next()[1]; self.expect(','); b = self.next()[1]
                return ('asm', a, b)
            raise SyntaxError("value word " + v)
        if k == 'str':
            return ('bytes', unescape(v[2:-1]))
        if v in ('{', '[', '<'):
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next(); packed = True
                v = '{'
            close = {'{': '}', '[': ']', '<': '>'}[v]
            el = []
            if not self.accept(close):
                while True:
                    t = self.type(); el.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', el)
        if k == 'meta':
            return ('meta', v)
        raise SyntaxError("value %s %s" % (k, v))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


PARAM_ATTR_WORDS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
                    'immarg', 'returned', 'inreg', 'nest', 'swiftself', 'allocptr', 'noext', 'dead_on_unwind', 'writable',
                    'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'coldcc',
                    'nofree'}


class Instr:
    __slots__ = ('op', 'res', 'a', 'line', 'dbg')

    def __init__(self, op, res, a, dbg=None):
        self.op = op; self.res = res; self.a = a; self.dbg = dbg

    def __repr__(self):
        return '%s=%s %s' % (self.res, self.op, self.a)


def parse_attrs(p, d=None):
    """parameter / return attributes"""
    d = {} if d is None else d
    while True:
        k, v = p.peek()
        if k == 'word':
            if v in ('sret', 'byval', 'elementtype', 'preallocated', 'inalloca'):
                p.next(); p.expect('('); d[v] = p.type(); p.expect(')')
            elif v in ('align',):
                p.next()
                if p.accept('('):
                    p.next(); p.expect(')')
                else:
                    p.next()
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'nofpclass', 'memory', 'allocsize'):
                p.next(); p.i = p.skip_paren(p.i)
            elif v in PARAM_ATTR_WORDS:
                p.next(); d[v] = True
            else:
                break
        else:
            break
    return d


def parse_call(p, res, op):
    attrs = parse_attrs(p)
    rt = p.type()
    if rt[0] == 'fn':
        rt = rt[1]
    callee = p.value(('ptr',))
    p.expect('(')
    args = []
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                pass
            else:
                t = p.type()
                if t[0] == 'metadata':
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        v = p.next()[1]
                        if v in '({':
                            d += 1
                        elif v in ')}':
                            d -= 1
                    args.append((t, None, {}))
                else:
                    at = parse_attrs(p)
                    args.append((t, p.value(t), at))
            if p.accept(')'):
                break
            p.expect(',')
    fattrs = []
    while p.peek()[0] in ('attr',) or (p.peek()[0] == 'word' and p.peek()[1] in ('nounwind', 'noreturn', 'willreturn', 'builtin', 'readonly')):
        fattrs.append(p.next()[1])
    norm = unw = None
    if op == 'invoke':
        p.expect('to'); p.expect('label'); norm = p.next()[1][1:].strip('"')
        p.expect('unwind'); p.expect('label'); unw = p.next()[1][1:].strip('"')
    return (rt, callee, args, norm, unw, tuple(fattrs))


DBG = re.compile(r', !dbg !(\d+)')
TAIL = re.compile(r'(, ![\w.]+ ![\w.]+)+\s*$')


def parse_instr(line):
    dbg = None
    m = DBG.search(line)
    if m:
        dbg = int(m.group(1))
    line = TAIL.sub('', line)
    p = P(tokenize(line))
    res = None
    if p.peek()[0] == 'id' and p.peek(1)[1] == '=':
        res = p.next()[1][1:].strip('"'); p.next()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = None
        if p.accept(','):
            if p.peek()[1] != 'align':
                nt = p.type(); n = (nt, p.value(nt))
        return Instr(op, res, (t, n), dbg)
    if op == 'load':
        while p.peek()[1] in ('atomic', 'volatile'):
            p.next()
        t = p.type(); p.expect(','); pt = p.type()
        return Instr(op, res, (t, p.value(pt)), dbg)
    if op == 'store':
        while p.peek()[1] in ('atomic', 'volatile'):
            p.next()
        t = p.type(); v = p.value(t); p.expect(','); pt = p.type()
        return Instr(op, res, (t, v, p.value(pt)), dbg)
    if op == 'getelementptr':
        p.accept('inbounds')
        t = p.type(); p.expect(','); pt = p.type(); base = p.value(pt)
        idx = []
        while p.accept(','):
            it = p.type(); idx.append((it, p.value(it)))
        return Instr(op, res, (t, base, idx), dbg)
    if op == 'br':
        if p.accept('label'):
            return Instr(op, res, (p.next()[1][1:].strip('"'),), dbg)
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next()[1][1:].strip('"')
        p.expect(','); p.expect('label'); b = p.next()[1][1:].strip('"')
        return Instr(op, res, (c, a, b), dbg)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1][1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()[1][1:].strip('"')))
        return Instr(op, res, (t, v, d, cases), dbg)
    if op == 'ret':
        t = p.type()
        return Instr(op, res, (t, None if t[0] == 'void' else p.value(t)), dbg)
    if op in ('call', 'invoke'):
        return Instr(op, res, parse_call(p, res, op), dbg)
    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
              'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        fl = set()
        while p.peek()[0] == 'word' and p.peek()[1] in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'afn', 'reassoc', 'arcp', 'disjoint'):
            fl.add(p.next()[1])
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr(op, res, (t, a, b, fl), dbg)
    if op == 'fneg':
        t = p.type()
        return Instr(op, res, (t, p.value(t)), dbg)
    if op in ('icmp', 'fcmp'):
        pr = p.next()[1]
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr(op, res, (pr, t, a, b), dbg)
    if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
        p.accept('nneg')
        t = p.type(); v = p.value(t); p.expect('to'); d = p.type()
        return Instr(op, res, (t, v, d), dbg)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); b = p.next()[1][1:].strip('"'); p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return Instr(op, res, (t, inc), dbg)
    if op == 'select':
        ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
        return Instr(op, res, (c, t, a, b), dbg)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Instr(op, res, (t, v, idx), dbg)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); et = p.type(); e = p.value(et); idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Instr(op, res, (t, v, et, e, idx), dbg)
    if op == 'landingpad':
        t = p.type()
        clauses = []
        cleanup = False
        while True:
            v = p.peek()[1]
            if v == 'cleanup':
                p.next(); cleanup = True
            elif v == 'catch':
                p.next(); ct = p.type(); clauses.append(('catch', p.value(ct)))
            elif v == 'filter':
                p.next(); ct = p.type(); clauses.append(('filter', p.value(ct)))
            else:
                break
        return Instr(op, res, (t, cleanup, clauses), dbg)
    if op == 'resume':
        t = p.type()
        return Instr(op, res, (t, p.value(t)), dbg)
    if op == 'unreachable':
        return Instr(op, res, (), dbg)
    if op == 'freeze':
        t = p.type()
        return Instr(op, res, (t, p.value(t)), dbg)
    if op in ('atomicrmw', 'cmpxchg', 'fence'):
        return Instr('unsupported', res, (op,), dbg)
    raise SyntaxError("op " + op + " in " + line)


class Function:
    def __init__(self, module, name, header, lines):
        self.module = module; self.name = name; self._lines = lines; self._header = header
        self.blocks = None
        self.dem = None
        self._parse_header()

    def _parse_header(self):
        h = self._header
        i = h.index('@')
        p = P(tokenize(h[i:]))
        p.next()
        p.expect('(')
        self.params = []   # (type, attrs, name)
        self.vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    self.vararg = True
                else:
                    t = p.type(); at = parse_attrs(p)
                    nm = p.next()[1][1:].strip('"') if p.peek()[0] == 'id' else None
                    self.params.append((t, at, nm))
                if p.accept(')'):
                    break
                p.expect(',')
        # return type: token(s) before '@'
        q = P(tokenize(h[:i]))
        toks = q.t
        # find the type: skip linkage words
        skip = {'define', 'dso_local', 'linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'hidden', 'available_externally', 'comdat', 'protected', 'external'}
        while q.peek()[1] in skip:
            q.next()
        parse_attrs(q)
        self.ret = q.type()
        self.linkage = 'linkonce' if 'linkonce_odr' in h[:i] or 'weak_odr' in h[:i] else ('internal' if 'internal' in h[:i] else 'external')

    def parse(self):
        if self.blocks is not None:
            return self
        self.blocks = {}
        self.order = []
        cur = None
        ls = self._lines
        i = 0
        n = len(ls)
        while i < n:
            l = ls[i]; i += 1
            if not l.strip():
                continue
            if not l.startswith(' '):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', l)
                if not m:
                    raise SyntaxError(l)
                cur = m.group(1).strip('"')
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                # unnamed entry
                cur = '%entry'
                self.blocks[cur] = []; self.order.append(cur)
            s = l.strip()
            if s.startswith(';'):
                continue
            # continuation lines
            if ' switch ' in ' ' + s and s.rstrip().endswith('['):
                while not ls[i].strip().startswith(']'):
                    s += ' ' + ls[i].strip(); i += 1
                s += ' ' + ls[i].strip(); i += 1
            elif re.match(r'(%\S+ = )?invoke ', s) and ' unwind label ' not in s:
                s += ' ' + ls[i].strip(); i += 1
            elif re.match(r'%\S+ = landingpad ', s):
                while i < n and re.match(r'\s+(cleanup|catch|filter)\b', ls[i]):
                    s += ' ' + DBG.sub('', ls[i].strip()); i += 1
            if 'llvm.dbg.' in s:
                continue
            try:
                self.blocks[cur].append(parse_instr(s))
            except Exception as e:
                raise SyntaxError("%s\n in %s: %s" % (e, self.name, s))
        self._loops()
        return self

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [x[1] for x in t.a[3]]
        if t.op == 'invoke':
            return [t.a[3], t.a[4]]
        return []

    def _loops(self):
        """natural loops: header -> set(blocks)"""
        order = self.order
        entry = order[0]
        succ = {b: self.succs(b) for b in order}
        # quick check: any back edge possible?
        seen = set(); stack = []; po = []
        # iterative DFS
        st = [(entry, iter(succ[entry]))]; seen.add(entry); onst = {entry}; back = []
        while st:
            b, it = st[-1]
            for s in it:
                if s in onst:
                    back.append((b, s))
                elif s not in seen:
                    seen.add(s); onst.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                st.pop(); onst.discard(b); po.append(b)
        self.loops = {}
        if not back:
            return
        preds = {b: [] for b in order}
        for b in seen:
            for s in succ[b]:
                preds[s].append(b)
        for (b, h) in back:
            body = self.loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds[x])


class Module:
    def __init__(self, path):
        self.path = path
        with open(path) as f:
            text = f.read()
        self.text = text
        self.funcs = {}
        self.aliases = {}
        self.globals = {}
        self.types = {}
        self.declared = set()
        self.dilocs = None
        lines = text.split('\n')
        self.lines = lines
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', l)
                nm = m.group(1).strip('"')
                self.funcs[nm] = (l, i + 1, j)
                i = j
            elif l.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+) = (.*)', l)
                nm = m.group(1).strip('"')
                rest = m.group(2)
                if re.search(r'\balias\b', rest.split('@')[0]):
                    self.aliases[nm] = re.search(r', ptr @("(?:[^"\\]|\\.)*"|[-\w$.]+)', rest).group(1).strip('"')
                else:
                    self.globals[nm] = rest
            elif l.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w$.]+) = type (.*)', l)
                self.types[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', l)
                self.declared.add(m.group(1).strip('"'))
            i += 1
        self._fcache = {}
        self._tcache = {}
        self._gcache = {}

    def function(self, name):
        if name in self._fcache:
            return self._fcache[name]
        if name in self.aliases:
            return self.function(self.aliases[name])
        if name not in self.funcs:
            return None
        h, a, b = self.funcs[name]
        f = Function(self, name, h, self.lines[a:b])
        self._fcache[name] = f
        return f

    def type(self, name):
        if name not in self._tcache:
            self._tcache[name] = P(tokenize(self.types[name])).type()
        return self._tcache[name]

    def line_of(self, dbg):
        if dbg is None:
            return None
        if self.dilocs is None:
            self.dilocs = {int(m.group(1)): int(m.group(2)) for m in re.finditer(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', self.text, re.M)}
        return self.dilocs.get(dbg)

    # ---- data layout (x86-64)
    def size_align(self, t):
        k = t[0]
        if k == 'int':
            n = t[1]
            b = (n + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return (p, min(p, 16))
        if k == 'ptr':
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'double':
            return (8, 8)
        if k == 'x86_fp80':
            return (16, 16)
        if k == 'arr':
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 'struct':
            off = 0; al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k == 'named':
            return self.size_align(self.type(t[1]))
        raise SyntaxError("size of %s" % (t,))

    def field_off(self, t, i):
        if t[0] == 'named':
            t = self.type(t[1])
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IndexError

    def global_init(self, name):
        """(type, value or None)"""
        if name not in self._gcache:
            rest = self.globals[name]
            rest = re.sub(r', (comdat|align|section|!dbg)\b.*$', '', rest)
            rest = re.sub(r', comdat.*$', '', rest)
            p = P(tokenize(rest))
            while p.peek()[1] not in ('global', 'constant'):
                p.next()
            ext = any(x[1] == 'external' for x in p.t[:p.i])
            p.next()
            t = p.type()
            v = None
            if not ext and p.peek()[0] != 'eof':
                v = p.value(t)
            self._gcache[name] = (t, v)
        return self._gcache[name]


_dem = {}


def demangle(names):
    need = [n for n in names if n not in _dem]
    if need:
        out = subprocess.run(['c++filt'], input='\n'.join(need), capture_output=True, text=True).stdout.split('\n')
        bad = []
        for n, d in zip(need, out):
            _dem[n] = d
            if d.startswith('_Z'):
                bad.append(n)
        if bad:
            out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(bad), capture_output=True, text=True).stdout.split('\n')
            for n, d in zip(bad, out):
                _dem[n] = d
    return _dem


def dem1(n):
    if n not in _dem:
        demangle([n])
    return _dem[n]
