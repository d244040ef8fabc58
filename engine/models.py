"""Models (assumed contracts) of the C++ standard library and of the operating system.

Every model is an executable specification of a library function on the abstract objects of sx.py.  They are the trusted
base of the verification: the list of models used is written into the evidence of each check."""
import re
import z3
from z3 import And, Or, Not, If, BoolVal, ULT, ULE, Extract, ZeroExt, SignExt, is_true, is_false, simplify
from . import ir
from .vals import *
from .sx import *
from .vals import _keep
from . import sx

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'


def split_targs(s):
    out = []; d = 0; cur = ''
    i = 0
    while i < len(s):
        ch = s[i]
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def norm_t(t):
    """demangled type -> layout type name"""
    t = t.strip()
    t = t.replace(STR, 'std::basic_string<char>').replace(STR.replace(' >', '>'), 'std::basic_string<char>')
    t = t.replace(' const', '').replace('const ', '')
    prev = None
    while prev != t:
        prev = t
        m = re.search(r'std::vector<', t)
        t = re.sub(r', std::allocator<[^<>]*(?:<[^<>]*(?:<[^<>]*>\s*)?>\s*)?> ?>', '>', t)
    t = re.sub(r', std::default_delete<[^<>]*> ?>', '>', t)
    t = re.sub(r', std::less<[^<>]*> ?>', '>', t)
    t = re.sub(r'\b(\d+)l\b', r'\1', t)
    return t.strip()


_pd = {}


class Dem:
    """parsed demangled name: cls (qualified, with template args), meth, margs (template args of the method), params"""
    __slots__ = ('cls', 'meth', 'margs', 'params', 'const', 'full', 'ctargs', 'cbase')


OPS = ['operator<=>', 'operator<<', 'operator>>', 'operator->', 'operator<', 'operator>', 'operator()', 'operator<=', 'operator>=']


def parse_dem(d):
    if d in _pd:
        return _pd[d]
    s = d
    r = Dem()
    r.full = d
    r.const = s.endswith(' const')
    if r.const:
        s = s[:-6]
    # protect operator symbols
    for k, op in (('operator<=>', 'operator$cmp'), ('operator<<', 'operator$shl'), ('operator>>', 'operator$shr'), ('operator->', 'operator$arrow'),
                  ('operator<=', 'operator$le'), ('operator>=', 'operator$ge'), ('operator()', 'operator$call')):
        s = s.replace(k, op)
    s = re.sub(r'operator<(?=[ (])', 'operator$lt', s)
    s = re.sub(r'operator>(?=[ (])', 'operator$gt', s)
    s = s.replace('operator bool', 'operator$bool').replace('(anonymous namespace)', '$anon').replace('operator unsigned char', 'operator$uchar')
    if not s.endswith(')'):
        r.cls = ''; r.meth = s; r.margs = []; r.params = []; r.ctargs = []; r.cbase = ''
        _pd[d] = r
        return r
    dep = 0
    i = len(s) - 1
    while i >= 0:
        if s[i] == ')':
            dep += 1
        elif s[i] == '(':
            dep -= 1
            if dep == 0:
                break
        i -= 1
    r.params = split_targs(s[i + 1:-1])
    head = s[:i]
    # strip return type: last top-level space
    dep = 0
    cut = 0
    for j, ch in enumerate(head):
        if ch in '<(':
            dep += 1
        elif ch in '>)':
            dep -= 1
        elif ch == ' ' and dep == 0:
            nxt = head[j + 1:j + 2]
            if nxt == '<':
                continue
            cut = j + 1
    head = head[cut:]
    parts = []
    dep = 0; cur = ''
    j = 0
    while j < len(head):
        if head[j] in '<(':
            dep += 1
        elif head[j] in '>)':
            dep -= 1
        if dep == 0 and head.startswith('::', j):
            parts.append(cur); cur = ''; j += 2
            continue
        cur += head[j]
        j += 1
    parts.append(cur)
    m = parts[-1]
    k = m.find('<')
    if k >= 0 and m.rstrip().endswith('>'):
        r.meth = m[:k].strip(); r.margs = split_targs(m[k + 1:m.rstrip().rindex('>')])
    else:
        r.meth = m; r.margs = []
    r.cls = '::'.join(parts[:-1])
    k = r.cls.find('<')
    if k >= 0 and r.cls.endswith('>'):
        r.cbase = r.cls[:k]; r.ctargs = split_targs(r.cls[k + 1:-1])
    else:
        r.cbase = r.cls; r.ctargs = []
    _pd[d] = r
    return r


class Event:
    """an observable effect"""
    __slots__ = ('kind', 'args')

    def __init__(self, kind, *args):
        self.kind = kind; self.args = args

    def __repr__(self):
        return 'Event(%s)' % (self.kind,)


def emit(eng, st, kind, *args):
    """append an event; returns its index (a term)"""
    st.trace = st.trace + (Event(kind, *args),)
    i = st.cnt.get('evt', Lin(0))
    st.cnt['evt'] = i + 1
    if eng.monitor is not None:
        eng.monitor.on(eng, st, kind, i.bv(), args)
    return i.bv()


def evf(name, i, bits):
    """deterministic environment answer number i"""
    return Function('env_' + name, BitVecSort(64), BitVecSort(bits))(i)


def m_no_map(eng, st, args, ins, dem):
    raise Unsupported(dem[:120])


class Models:
    def __init__(self):
        self.cache = {}
        self.extra = {}

    def label(self, dem):
        d = parse_dem(dem)
        if d.cbase:
            return '%s::%s' % (d.cbase, d.meth)
        return d.meth

    @staticmethod
    def method_part(dem):
        """method name and parameters of a demangled member function, without its class"""
        d = parse_dem(dem)
        base = d.cls
        i = dem.find(base + '::') if base else -1
        return dem[i + len(base) + 2:] if i >= 0 else dem

    def lookup(self, dem, name):
        if dem in self.cache:
            return self.cache[dem]
        r = self.find(dem, name)
        self.cache[dem] = r
        return r

    def find(self, dem, name):
        if dem in self.extra:
            return self.extra[dem]
        if name in C_FUNCS:
            return C_FUNCS[name]
        d = parse_dem(dem)
        base = d.cbase
        if base.startswith('eipScanner::utils::Logger') or 'utils::Logger' in base:
            return m_logger
        t = TABLE.get((base, re.sub(r'\[abi:[^\]]*\]', '', d.meth)))
        if t:
            return t
        if base in ('std::map', 'std::unordered_map') and not d.meth.startswith(('~', '_')):
            return m_no_map
        if base == 'std::vector':
            # constructors are named after the class
            return {'vector': vec_ctor, '~vector': m_nop}.get(d.meth)
        if base in ('std::__cxx11::basic_string',):
            return {'basic_string': str_ctor, '~basic_string': m_nop}.get(d.meth)
        if base in ('std::shared_ptr', 'std::__shared_ptr', 'std::weak_ptr', 'std::__weak_ptr'):
            if d.meth.startswith('~'):
                return m_nop
            if d.meth == base[5:]:
                return sp_ctor
        if base == 'std::unique_ptr':
            if d.meth == '~unique_ptr':
                return m_nop
            if d.meth == 'unique_ptr':
                return up_ctor
        if base == 'std::function':
            if d.meth == '~function':
                return m_nop
            if d.meth == 'function':
                return fn_ctor
        if base in ('std::pair',) and d.meth == '~pair':
            return m_nop
        if base in ('std::map', 'std::unordered_map') and d.meth == '~' + base[5:]:
            return m_nop
        if base == 'std::allocator' or base == 'std::__new_allocator' or d.cls.startswith('std::allocator<') or d.cls.startswith('std::__new_allocator'):
            return m_nop
        if base in ('std::runtime_error', 'std::logic_error', 'std::system_error', 'std::out_of_range', 'std::invalid_argument', 'std::length_error', 'std::exception', 'std::domain_error', 'std::range_error', 'std::overflow_error'):
            if d.meth == base[5:]:
                return exc_ctor
            if d.meth.startswith('~'):
                return m_nop
        if base.startswith('std::') and base.endswith('stream') or 'ostringstream' in base or 'basic_ostream' in base:
            return m_stream
        if d.meth in ('operator$shl',) and 'ostream' in dem:
            return m_stream
        f = FREE.get((d.cls, d.meth))
        return f

    # ---------------------------------------------------------------- intrinsics
    def intrinsic(self, eng, st, name, args, ins):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = const_of(simp(args[2]))
            if n is None:
                return copy_range(eng, st, args[0], args[1], args[2], ins)
            eng.copy_mem(st, args[0], args[1], n, ins)
            return [(st, ('ret', None))]
        if name.startswith('llvm.memset'):
            n = const_of(simp(args[2]))
            if n is None:
                raise Unsupported('memset of symbolic size')
            p = args[0]
            r = eng.region(st, p, ins, 'write')
            if r.kind != 'mem' or not p.o.is_const():
                raise Unsupported('memset')
            if p.o.c < 0 or (r.size is not None and p.o.c + n > r.size):
                eng.require(st, False, 'out-of-bounds', ins, 'memset of %d bytes' % n)
                raise DeadPath()
            b = simp(args[1])
            i = 0
            w = None
            # words where possible
            for i in range(n):
                eng.put(st, p.r, p.o.c + i, 1, b)
            return [(st, ('ret', None))]
        if name.startswith('llvm.trap'):
            eng.require(st, False, 'unreachable', ins, 'execution reaches a trap (undefined behaviour)')
            return []
        if name.startswith('llvm.eh.typeid.for'):
            p = args[0]
            n = p.r[2:] if isinstance(p, Ptr) and isinstance(p.r, str) else p.name
            return [(st, ('ret', bv(ti_id(n), 32)))]
        if name.startswith('llvm.umax') or name.startswith('llvm.umin'):
            a, b = args
            c = ULT(a, b)
            return [(st, ('ret', simp(If(c, b, a) if 'umax' in name else If(c, a, b))))]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume'):
            return [(st, ('ret', None))]
        if name.startswith('llvm.load.relative'):
            pass
        if name.startswith('llvm.fmuladd'):
            a, b, c = args
            t = ('float',) if a.size() == 32 else ('double',)
            return [(st, ('ret', fop('fadd', t, fop('fmul', t, a, b), c)))]
        raise Unsupported('intrinsic ' + name)

    def sym_map(self, eng, st, name, t):
        from . import maps
        return maps.sym_map(eng, st, name, t)


def m_nop(eng, st, args, ins, dem):
    return args[0] if args else None


def m_logger(eng, st, args, ins, dem):
    # writing the log may change errno
    if 'g:errno' in st.mem and '~Logger' in dem:
        clobber_errno(eng, st)
    return args[0] if args else None


def m_stream(eng, st, args, ins, dem):
    return args[0] if args else None


# ------------------------------------------------------------------ vectors
def et_of(d):
    return norm_t(d.ctargs[0])


def idx_of(eng, st, p, ins):
    """pointer into element storage -> (region, index Lin)"""
    r = eng.region(st, p, ins, 'read')
    if r.kind != 'seq':
        return r, None
    dm = p.o.divmod(r.esz)
    if dm is None or dm[1]:
        raise Unsupported('misaligned element pointer')
    return r, dm[0]


def range_seq(eng, st, first, last, ins, et):
    """content of [first,last)"""
    if not isinstance(first, Ptr) or not isinstance(last, Ptr):
        raise Unsupported('range of non-pointers')
    if first.r is None and last.r is None:
        return EMPTY
    if first.r != last.r:
        eng.require(st, False, 'invalid-range', ins, 'iterators into different sequences')
        raise DeadPath()
    r, i = idx_of(eng, st, first, ins)
    if i is None:
        if not first.o.is_const() or not last.o.is_const():
            es = eng.esize(et)
            raise Unsupported('symbolic range in an object')
        es = eng.esize(et)
        n = last.o.c - first.o.c
        if n < 0 or n % es:
            eng.require(st, False, 'invalid-range', ins, 'reversed range')
            raise DeadPath()
        return Lit([elem_at(eng, st, first.add(k), et, ins) for k in range(0, n, es)])
    _, j = idx_of(eng, st, last, ins)
    eng.require(st, And(ULE(i.bv(), j.bv()), ULE(j.bv(), r.seq.len)), 'out-of-bounds', ins, 'range [%s,%s) outside the sequence' % (i, j))
    return slice_(r.seq, i.bv(), (j - i).bv())


def elem_at(eng, st, p, et, ins=None):
    k = eng.prog.kind_of_type(et)
    if k and k[0] == 'bv':
        return eng.load_bytes(st, p, k[1] // 8, ins)
    return eng.read_obj(st, p, et)


def conv_seq(eng, s, et, src):
    """element type conversion between integer vectors"""
    return s


def alloc_guard(eng, st, n):
    """outcomes of an allocation of n elements that fails; st continues with the successful one"""
    ok = simplify(ULE(n, bv(MAXLEN)))
    if is_true(ok) or not eng.smt.feasible(st.pc, Not(ok)):
        return [], True
    s = st.clone()
    s.pc.append(simplify(Not(ok)))
    out = [(s, ('throw', mk_exc(eng, s, 'std::length_error')))]
    if is_false(ok) or not eng.smt.feasible(st.pc, ok):
        return out, False
    st.pc.append(ok)
    return out, True


def vec_ctor(eng, st, args, ins, dem):
    thrown = []
    d = parse_dem(dem)
    et = et_of(d)
    p = args[0]
    ps = d.params
    vt = 'std::vector<'
    if not ps or (len(ps) == 1 and ps[0].startswith('std::allocator<')):
        seq = EMPTY
    elif ps[0].startswith(vt) and ps[0].endswith('&&') and d.margs == []:
        src = eng.vec(st, args[1], ins)
        eng.setobj(st, p, VecObj(src.rid, et))
        eng.setobj(st, args[1], VecObj(eng.alloc_seq(st, EMPTY, et), et))
        return None
    elif ps[0].startswith(vt):
        seq = eng.vseq(st, args[1], ins)
    elif ps[0].startswith('std::initializer_list'):
        # {ptr, size}
        il = args[1]
        if isinstance(il, tuple):
            il, n = il
        else:
            n = args[2]
        n = const_of(simp(n))
        if n is None:
            raise Unsupported('initializer_list')
        es = eng.esize(et)
        seq = Lit([elem_at(eng, st, il.add(i * es), et, ins) for i in range(n)])
    elif ps[0] == 'unsigned long':
        n = args[1]
        thrown, ok = alloc_guard(eng, st, n)
        if not ok:
            return thrown
        if len(ps) > 1 and not ps[1].startswith('std::allocator'):
            v = elem_at(eng, st, args[2], et, ins)
        else:
            v = default_elem(eng, st, et, ins) if const_of(simp(n)) != 0 else None
        seq = fill(n, v)
    elif d.margs:
        seq = range_seq(eng, st, args[1], args[2], ins, et)
    else:
        raise Unsupported(dem)
    eng.setobj(st, p, VecObj(eng.alloc_seq(st, seq, et), et))
    return thrown + [(st, ('ret', None))] if thrown else None


def default_elem(eng, st, et, ins):
    k = eng.prog.kind_of_type(et)
    if k:
        if k[0] == 'bv':
            return bv(0, k[1])
        if k[0] in ('sptr', 'ptr', 'uptr'):
            return NULL
        if k[0] in ('vec', 'str'):
            return EMPTY
        raise Unsupported('default ' + et)
    p = eng.alloc(st, eng.prog.layouts[et][0], 'tmp', et)
    short_ = et.split('::')[-1]
    rs = construct(eng, st, et, p, [], ins)
    if len(rs) != 1 or rs[0][1][0] != 'ret':
        raise Unsupported('default constructor of ' + et)
    v = eng.read_obj(rs[0][0], p, et)
    return v


def construct(eng, st, cls, p, args, ins, types=()):
    """run T::T(args) on storage p"""
    s = cls.split('<')[0].split('::')[-1]
    pre = cls + '::' + s + '('
    cand = []
    for dm in list(eng.prog.bydem):
        if dm.startswith(pre):
            q = parse_dem(dm)
            if len(q.params) == len(args):
                cand.append(dm)
    for m in eng.prog.modules:
        for n in m.declared:
            dm = ir.dem1(n)
            if dm.startswith(pre) and dm not in cand and len(parse_dem(dm).params) == len(args):
                cand.append(dm)
    if len(cand) > 1 and not args:
        pass
    if len(cand) > 1:
        cand = [c for c in cand if not re.search(re.escape(cls) + r'( const)?&', parse_dem(c).params[0] if parse_dem(c).params else '')]
    if len(cand) != 1:
        raise Unsupported('constructor of %s with %d arguments (%s)' % (cls, len(args), cand))
    mg = eng.prog.bydem.get(cand[0])
    if not mg:
        raise Unsupported('no body for ' + cand[0])
    args = list(args)
    for i, (pt, ft) in enumerate(zip(parse_dem(cand[0]).params, types)):
        # an lvalue forwarded to a by-value parameter is copied
        n = norm_t(pt)
        k = eng.prog.kind_of_type(n)
        if z3.is_bv(args[i]) and k and k[0] == 'bv' and args[i].size() != k[1]:
            src = norm_t(ft.rstrip('&').strip())
            ext = SignExt if src in ('int', 'short', 'signed char', 'char', 'long', 'long long') else ZeroExt
            args[i] = simp(Extract(k[1] - 1, 0, args[i]) if args[i].size() > k[1] else ext(k[1] - args[i].size(), args[i]))
            continue
        if ft.endswith('&') and not ft.endswith('&&') and not pt.endswith(('&', '*')) and isinstance(args[i], Ptr) and (n in eng.prog.layouts or eng.prog.kind_of_type(n)):
            k = eng.prog.kind_of_type(n)
            if k and k[0] in ('bv', 'ptr'):
                continue
            q = eng.alloc(st, max(8, eng.prog.sizeof(n)), 'argument', n)
            eng.write_obj(st, q, n, eng.read_obj(st, args[i], n))
            args[i] = q
    return eng.call(st, mg[0], [p] + args, None, ins)


def construct_fwd(eng, st, cls, q, types, fw, ins):
    """run T::T(args) on storage q for forwarded arguments (references)"""
    try:
        return construct(eng, st, cls, q, deref_args(eng, st, cls, types, fw, ins), ins, types)
    except Unsupported:
        # default arguments: run the library's own placement of the object
        for dm, mg in eng.prog.bydem.items():
            if dm.startswith('void std::_Construct<' + cls):
                d = parse_dem(dm)
                if [norm_t(t) for t in d.margs] == [cls] + [norm_t(t) for t in types]:
                    return eng.run(st, mg[0], [q] + fw, ins)
        raise


def vec_size(eng, st, args, ins, dem):
    return eng.vseq(st, args[0], ins).len


def vec_empty(eng, st, args, ins, dem):
    return simplify(eng.vseq(st, args[0], ins).len == bv(0))


def vec_begin(eng, st, args, ins, dem):
    return Ptr(eng.vec(st, args[0], ins).rid, 0)


def vec_end(eng, st, args, ins, dem):
    v = eng.vec(st, args[0], ins)
    r = st.mem[v.rid]
    return Ptr(v.rid, Lin.of(r.seq.len).scale(r.esz))


def vec_at(eng, st, args, ins, dem):
    v = eng.vec(st, args[0], ins)
    r = st.mem[v.rid]
    c = simplify(ULT(args[1], r.seq.len))
    out = []
    if not is_true(c) and eng.smt.feasible(st.pc, Not(c)):
        s = st.clone()
        s.pc.append(simplify(Not(c)))
        out.append((s, ('throw', mk_exc(eng, s, 'std::out_of_range'))))
    if not is_false(c) and eng.smt.feasible(st.pc, c):
        if not is_true(c):
            st.pc.append(c)
        out.append((st, ('ret', Ptr(v.rid, Lin.of(args[1]).scale(r.esz)))))
    return out


def vec_index(eng, st, args, ins, dem):
    v = eng.vec(st, args[0], ins)
    r = st.mem[v.rid]
    eng.require(st, ULT(args[1], r.seq.len), 'out-of-bounds', ins, 'operator[] index %s of a vector of size %s' % (args[1], r.seq.len))
    return Ptr(v.rid, Lin.of(args[1]).scale(r.esz))


def vec_back(eng, st, args, ins, dem):
    v = eng.vec(st, args[0], ins)
    r = st.mem[v.rid]
    eng.require(st, r.seq.len != bv(0), 'out-of-bounds', ins, 'back() of an empty vector')
    return Ptr(v.rid, (Lin.of(r.seq.len) - 1).scale(r.esz))


def vec_front(eng, st, args, ins, dem):
    v = eng.vec(st, args[0], ins)
    r = st.mem[v.rid]
    eng.require(st, r.seq.len != bv(0), 'out-of-bounds', ins, 'front() of an empty vector')
    return Ptr(v.rid, 0)


def vec_push(eng, st, args, ins, dem):
    d = parse_dem(dem)
    et = et_of(d)
    v = elem_at(eng, st, args[1], et, ins)
    s = eng.vseq(st, args[0], ins)
    eng.set_vec(st, args[0], cat(s, Lit([v])), et)
    if d.meth == 'emplace_back':
        return vec_back(eng, st, args, ins, dem)
    return None


def vec_emplace(eng, st, args, ins, dem):
    d = parse_dem(dem)
    et = et_of(d)
    k = eng.prog.kind_of_type(et)
    if len(args) == 2 and (k is not None or norm_t(d.margs[0]).rstrip('&').strip() == et):
        a = [args[0], args[1]]
        return vec_push(eng, st, a, ins, dem)
    s0 = st
    p = eng.alloc(st, eng.prog.layouts[et][0], 'tmp', et)
    rs = construct(eng, st, et, p, deref_args(eng, st, et, d.margs, args[1:], ins), ins, d.margs)
    out = []
    for s, o in rs:
        if o[0] == 'ret':
            s2 = eng.vseq(s, args[0], ins)
            eng.set_vec(s, args[0], cat(s2, Lit([eng.read_obj(s, p, et)])), et)
            o = ('ret', vec_back(eng, s, args, ins, dem))
        out.append((s, o))
    return out


def deref_args(eng, st, cls, targs, args, ins):
    """forwarded references -> constructor arguments (scalars are loaded, objects passed by reference)"""
    out = []
    for t, a in zip(targs, args):
        n = norm_t(t).rstrip('&').strip()
        k = eng.prog.kind_of_type(n)
        if k is None and n not in eng.prog.layouts:
            # enum: width from the constructor is unknown here; look it up
            w = enum_width(eng, n)
            if w:
                k = ('bv', w)
        if k and k[0] == 'bv':
            out.append(eng.load_bytes(st, a, k[1] // 8, ins))
        elif k and k[0] == 'ptr':
            out.append(eng.load_bytes(st, a, 8, ins))
        else:
            out.append(a)
    return out


def enum_width(eng, n):
    """bits of an enum type, from DW or by looking for a field of that type"""
    for cls, (size, root) in eng.prog.layouts.items():
        st = [root]
        while st:
            f = st.pop()
            st.extend(f.children)
            if f.type == n:
                for o, k, nm in eng.prog.flat(cls):
                    if o == f.off and k[0] == 'bv':
                        return k[1]
    return None


def vec_resize(eng, st, args, ins, dem):
    d = parse_dem(dem)
    et = et_of(d)
    n = simp(args[1])
    s = eng.vseq(st, args[0], ins)
    thrown, ok = alloc_guard(eng, st, n)
    if not ok:
        return thrown
    if thrown:
        return thrown + (vec_resize(eng, st, args, ins, dem) or [(st, ('ret', None))])
    dv = elem_at(eng, st, args[2], et, ins) if len(args) > 2 else None
    if Lin.of(n).key() == Lin.of(s.len).key():
        eng.set_vec(st, args[0], s, et)
        return None
    grow = simplify(ULE(s.len, n))
    if not is_true(grow) and not is_false(grow):
        if not eng.smt.feasible(st.pc, grow):
            grow = BoolVal(False)
        elif not eng.smt.feasible(st.pc, Not(grow)):
            grow = BoolVal(True)
    if is_false(grow):
        eng.set_vec(st, args[0], slice_(s, bv(0), n), et)
        return None
    dv = dv if dv is not None else default_elem(eng, st, et, ins)
    if is_true(grow):
        eng.set_vec(st, args[0], cat(s, fill(simp(n - s.len), dv)), et)
        return None
    st2 = st.clone()
    st.pc.append(grow)
    eng.set_vec(st, args[0], cat(s, fill(simp(n - s.len), dv)), et)
    st2.pc.append(simplify(Not(grow)))
    eng.set_vec(st2, args[0], slice_(s, bv(0), n), et)
    return [(st2, ('ret', None)), (st, ('ret', None))]


def vec_clear(eng, st, args, ins, dem):
    eng.set_vec(st, args[0], EMPTY, et_of(parse_dem(dem)))
    return None


def vec_assign(eng, st, args, ins, dem):
    d = parse_dem(dem)
    et = et_of(d)
    if d.params[0].startswith('std::initializer_list'):
        il = args[1]
        n = const_of(simp(args[2]))
        es = eng.esize(et)
        eng.set_vec(st, args[0], Lit([elem_at(eng, st, il.add(i * es), et, ins) for i in range(n)]), et)
        return args[0]
    if d.meth == 'assign':
        if d.margs:
            eng.set_vec(st, args[0], range_seq(eng, st, args[1], args[2], ins, et), et)
        else:
            eng.set_vec(st, args[0], fill(args[1], elem_at(eng, st, args[2], et, ins)), et)
        return None
    s = eng.vseq(st, args[1], ins)
    if args[0].key() != args[1].key():
        eng.set_vec(st, args[0], s, et)
        if d.params[0].endswith('&&'):
            eng.set_vec(st, args[1], EMPTY, et)
    return args[0]


def vec_insert(eng, st, args, ins, dem):
    d = parse_dem(dem)
    et = et_of(d)
    v = eng.vec(st, args[0], ins)
    r = st.mem[v.rid]
    pos = args[1]
    if not isinstance(pos, Ptr) or pos.r != v.rid:
        eng.require(st, False, 'invalid-iterator', ins, 'insert position does not belong to the vector')
        raise DeadPath()
    i = pos.o.divmod(r.esz)[0]
    if d.margs:
        new = range_seq(eng, st, args[2], args[3], ins, et)
        if args[2].r == v.rid:
            raise Unsupported('self-insertion')
    elif len(d.params) == 2 and not d.params[1].startswith('std::initializer_list'):
        new = Lit([elem_at(eng, st, args[2], et, ins)])
    elif len(d.params) == 3:
        new = fill(args[2], elem_at(eng, st, args[3], et, ins))
    else:
        n = const_of(simp(args[3]))
        es = eng.esize(et)
        new = Lit([elem_at(eng, st, args[2].add(k * es), et, ins) for k in range(n)])
    s = r.seq
    if i.key() == Lin.of(s.len).key():
        ns = cat(s, new)
    else:
        eng.require(st, ULE(i.bv(), s.len), 'out-of-bounds', ins, 'insert position')
        ns = cat(slice_(s, bv(0), i.bv()), new, slice_(s, i.bv(), simp(s.len - i.bv())))
    rid = eng.set_vec(st, args[0], ns, et)
    return Ptr(rid, i.scale(r.esz))


def vec_erase(eng, st, args, ins, dem):
    d = parse_dem(dem)
    et = et_of(d)
    v = eng.vec(st, args[0], ins)
    r = st.mem[v.rid]
    s = r.seq
    i = args[1].o.divmod(r.esz)[0]
    j = args[2].o.divmod(r.esz)[0] if len(args) > 2 else i + 1
    eng.require(st, And(ULE(i.bv(), j.bv()), ULE(j.bv(), s.len)), 'out-of-bounds', ins, 'erase range')
    ns = cat(slice_(s, bv(0), i.bv()), slice_(s, j.bv(), simp(s.len - j.bv())))
    rid = eng.set_vec(st, args[0], ns, et)
    return Ptr(rid, i.scale(r.esz))


def vec_pop(eng, st, args, ins, dem):
    et = et_of(parse_dem(dem))
    s = eng.vseq(st, args[0], ins)
    eng.require(st, s.len != bv(0), 'out-of-bounds', ins, 'pop_back of an empty vector')
    eng.set_vec(st, args[0], slice_(s, bv(0), simp(s.len - 1)), et)


def vec_swap(eng, st, args, ins, dem):
    a, b = eng.vec(st, args[0], ins), eng.vec(st, args[1], ins)
    eng.setobj(st, args[0], b)
    eng.setobj(st, args[1], a)


def seq_equal(eng, st, a, b):
    c, ax = seq_eq_atom(a, b)
    for x in ax:
        st.pc.append(simplify(x))
    return c


def vec_eq(eng, st, args, ins, dem):
    return seq_equal(eng, st, eng.vseq(st, args[0], ins), eng.vseq(st, args[1], ins))


def vec_ne(eng, st, args, ins, dem):
    return simplify(Not(vec_eq(eng, st, args, ins, dem)))


def copy_range(eng, st, dst, src, nbytes, ins):
    """memcpy/std::copy of a symbolic number of bytes between element storages"""
    rs, i = idx_of(eng, st, src, ins)
    rd_, j = idx_of(eng, st, dst, ins)
    if i is None or j is None or rs.esz != rd_.esz:
        raise Unsupported('memcpy of symbolic size')
    dm = Lin.of(nbytes).divmod(rs.esz)
    if dm is None or dm[1]:
        raise Unsupported('memcpy of partial elements')
    n = dm[0]
    s = slice_checked(eng, st, rs, i, n, ins)
    eng.require(st, And(ULE(j.bv(), rd_.seq.len), ULE(n.bv(), rd_.seq.len - j.bv())), 'out-of-bounds', ins, 'write of %s elements at %s' % (n, j))
    w = st.wr(dst.r)
    w.seq = put_slice(rd_.seq, j.bv(), s)
    return [(st, ('ret', None))]


def slice_checked(eng, st, r, i, n, ins):
    eng.require(st, And(ULE(i.bv(), r.seq.len), ULE(n.bv(), r.seq.len - i.bv())), 'out-of-bounds', ins, 'read of %s elements at %s' % (n, i))
    return slice_(r.seq, i.bv(), n.bv())


def put_slice(base, off, src):
    """base with [off, off+|src|) replaced (in range)"""
    return over(base, off, src)


def m_copy(eng, st, args, ins, dem):
    """std::copy(first,last,out)"""
    d = parse_dem(dem)
    src_t = d.margs[0] if d.margs else ''
    first, last, out = args[:3]
    if not isinstance(out, Ptr) or 'back_insert' in (d.margs[1] if len(d.margs) > 1 else '') or not isinstance(first, Ptr):
        if 'back_insert' in (d.margs[1] if len(d.margs) > 1 else ''):
            m = re.search(r'std::vector<(.*), std::allocator', d.margs[1])
            et = norm_t(m.group(1))
            s = range_seq(eng, st, first, last, ins, et)
            cur = eng.vseq(st, out, ins)
            eng.set_vec(st, out, cat(cur, s), et)
            return out
        return None
    rs, i = idx_of(eng, st, first, ins)
    et = rs.et if i is not None else None
    if et is None:
        m = re.search(r'(unsigned char|char|unsigned short|unsigned int)', src_t)
        et = m.group(1)
    s = range_seq(eng, st, first, last, ins, et)
    ro = eng.region(st, out, ins, 'write')
    n = Lin.of(s.len)
    if ro.kind == 'seq':
        j = out.o.divmod(ro.esz)[0]
        eng.require(st, And(ULE(j.bv(), ro.seq.len), ULE(n.bv(), ro.seq.len - j.bv())), 'out-of-bounds', ins, 'std::copy writes %s elements at %s' % (n, j))
        w = st.wr(out.r)
        w.seq = put_slice(ro.seq, j.bv(), s)
        return out.add(n.scale(ro.esz))
    c = s.clen()
    if c is None:
        raise Unsupported('std::copy of symbolic length into an object')
    es = eng.esize(et)
    for k in range(c):
        eng.store_bytes(st, out.add(k * es), eng.seq_at(s, bv(k)), es, ins)
    return out.add(c * es)


def m_copy_n(eng, st, args, ins, dem):
    r, i = idx_of(eng, st, args[0], ins)
    n = args[1]
    if n.size() < 64:
        n = SignExt(64 - n.size(), n)
    es = r.esz if i is not None else 1
    return m_copy(eng, st, [args[0], args[0].add(Lin.of(n).scale(es)), args[2]], ins, dem)


def m_equal(eng, st, args, ins, dem):
    """std::equal(f1,l1,f2[,l2])"""
    et = eng.region(st, args[0]).et or 'unsigned char'
    a = range_seq(eng, st, args[0], args[1], ins, et)
    if len(args) > 3:
        b = range_seq(eng, st, args[2], args[3], ins, et)
    else:
        r, i = idx_of(eng, st, args[2], ins)
        b = slice_checked(eng, st, r, i, Lin.of(a.len), ins)
    return seq_equal(eng, st, a, b)


def m_find_if(eng, st, args, ins, dem):
    """std::find_if over element storage: the search of a specification with the same stopping condition"""
    d = parse_dem(dem)
    neg = d.meth == 'find_if_not'
    if d.meth not in ('find_if', 'find_if_not') or len(d.margs) != 2:
        raise Unsupported(d.meth)
    first, last = args[0], args[1]
    r, i0 = idx_of(eng, st, first, ins)
    if i0 is None or first.r != last.r:
        raise Unsupported('std::%s outside one sequence' % d.meth)
    _, j0 = idx_of(eng, st, last, ins)
    eng.require(st, And(ULE(i0.bv(), j0.bv()), ULE(j0.bv(), r.seq.len)), 'out-of-bounds', ins, 'std::' + d.meth)
    n = simp((j0 - i0).bv())
    clo = args[2] if len(args) > 2 else eng.alloc(st, 1, 'closure')
    if not isinstance(clo, Ptr):
        q = eng.alloc(st, 8, 'closure')
        eng.store_bytes(st, q, clo, clo.size() // 8)
        clo = q
    lam = d.margs[1]
    ops = [x for x in eng.prog.bydem if '%s::operator()' % lam in x and re.match(r'(\S+ )?' + re.escape(lam) + r'::operator\(\)', x)]
    if len(ops) != 1:
        raise Unsupported('std::%s with %s' % (d.meth, lam))

    def pred(i, quiet):
        """does the element at i satisfy the predicate?"""
        s = st.clone()
        s.pc.append(ULT(i, n))
        el = Ptr(first.r, (i0 + Lin.of(i)).scale(r.esz))
        n0 = len(s.pc)
        if not re.search(r'&$', parse_dem(ops[0]).params[0]):
            q = eng.alloc(s, r.esz, 'argument')
            eng.write_obj(s, q, r.et, eng.read_obj(s, el, r.et))
            el = q
        eng.quiet += quiet
        try:
            outs = eng.call(s, eng.prog.bydem[ops[0]][0], [clo, el], None, ins)
        finally:
            eng.quiet -= quiet
        res = BoolVal(False)
        for t, o in outs:
            if o[0] != 'ret' or len(t.trace) != len(st.trace):
                raise Unsupported('predicate of std::%s with effects' % d.meth)
            v = o[1] if z3.is_bool(o[1]) else simp(o[1] & bv(1, o[1].size())) == bv(1, o[1].size())
            res = simplify(Or(res, And(*(list(t.pc[n0:]) + [Not(v) if neg else v]))))
        return res
    k = z3.BitVec(fresh_name('found'), 64)
    pk = pred(k, 0)
    hit = simplify(Or(k == n, pk))
    used = None
    for L in sorted(eng.loop_specs.values(), key=lambda l: l.uid):
        if L.stopf is None or L.bvs or L.accs or L.funs or L.events is not None or L.inner:
            continue
        try:
            stop = L.stop(k)
        except (Unsupported, DeadPath):
            continue
        if eng.smt.valid(st.pc + [ULE(k, n)], stop == hit)[0] == 'yes':
            used = L
            break
    else:
        if not eng.quiet:
            eng.havoc_loops.append((eng.where(), ['std::' + d.meth]))
    st.pc.append(ULE(k, n))
    st.pc.append(hit)
    if used is not None:
        from .loops import witness
        witness(eng, st, used, k)
    return Ptr(first.r, (i0 + Lin.of(k)).scale(r.esz))


def m_fill(eng, st, args, ins, dem):
    f, l = args[0], args[1]
    r, i = idx_of(eng, st, f, ins)
    if i is None:
        raise Unsupported('std::fill')
    j = l.o.divmod(r.esz)[0]
    eng.require(st, And(ULE(i.bv(), j.bv()), ULE(j.bv(), r.seq.len)), 'out-of-bounds', ins, 'std::fill')
    v = elem_at(eng, st, args[2], r.et, ins)
    w = st.wr(f.r)
    w.seq = put_slice(r.seq, i.bv(), fill(simp((j - i).bv()), v))
    return None


def m_distance(eng, st, args, ins, dem):
    a, b = args[:2]
    if a.r != b.r:
        raise Unsupported('distance')
    r, i = idx_of(eng, st, a, ins)
    j = b.o.divmod(r.esz)[0]
    return simp((j - i).bv())


def m_back_inserter(eng, st, args, ins, dem):
    return args[0]


# ------------------------------------------------------------------ strings
def sseq(eng, st, p, ins=None):
    ob = eng.getobj(st, p, ins=ins)
    if not isinstance(ob, StrObj):
        raise Unsupported('expected a string')
    return ob.seq


def cstr(eng, st, p, ins=None):
    """content of a NUL-terminated string (constant storage, or a modelled c_str)"""
    r = eng.region(st, p, ins, 'read')
    if r.kind == 'seq' and r.tag == 'cstr':
        return slice_(r.seq, bv(0), simp(r.seq.len - 1)) if p.o.is_const() and p.o.c == 0 else opaque_str('cstr')
    if r.kind == 'mem' and p.o.is_const():
        out = []
        o = p.o.c
        while True:
            b = eng.load_bytes(st, Ptr(p.r, o), 1, ins)
            c = const_of(b)
            if c is None:
                return opaque_str('cstr')
            if c == 0:
                break
            out.append(b)
            o += 1
        return Lit(out)
    return opaque_str('cstr')


def opaque_str(n):
    nm = fresh_name(n)
    lf = BitVec(nm + '.len', 24)
    f = Function(nm, BitVecSort(64), BitVecSort(8))
    return Sym(nm, ZeroExt(40, lf), lambda i: f(i), (nm,))


def str_ctor(eng, st, args, ins, dem):
    d = parse_dem(dem)
    ps = d.params
    p = args[0]
    if not ps or (len(ps) == 1 and ps[0].startswith('std::allocator')):
        s = EMPTY
    elif ps[0].startswith('std::__cxx11::basic_string') and len(ps) == 1:
        s = sseq(eng, st, args[1], ins)
        eng.setobj(st, p, StrObj(s))
        if ps[0].endswith('&&'):
            eng.setobj(st, args[1], StrObj(EMPTY))
        return None
    elif ps[0] == 'char const*' and (len(ps) == 1 or ps[1].startswith('std::allocator')):
        s = cstr(eng, st, args[1], ins)
    elif ps[0] == 'char const*' and ps[1] == 'unsigned long':
        r, i = idx_of(eng, st, args[1], ins)
        if i is None:
            n = const_of(simp(args[2]))
            s = Lit([eng.load_bytes(st, args[1].add(k), 1, ins) for k in range(n)])
        else:
            s = slice_checked(eng, st, r, i, Lin.of(args[2]), ins)
    elif ps[0] == 'unsigned long' and len(ps) >= 2 and ps[1] == 'char':
        s = fill(args[1], args[2])
    elif d.margs:
        s = range_seq(eng, st, args[1], args[2], ins, 'char')
    else:
        raise Unsupported(dem)
    eng.setobj(st, p, StrObj(s))
    return None


def str_size(eng, st, args, ins, dem):
    return sseq(eng, st, args[0], ins).len


def str_empty(eng, st, args, ins, dem):
    return simplify(sseq(eng, st, args[0], ins).len == bv(0))


def str_store(eng, st, args, nul=False):
    """storage for direct access; cached per content so begin() and end() agree"""
    p = args[0]
    s = sseq(eng, st, p)
    k = ('strdata', p.key(), s.key())
    if k not in st.memo:
        q = eng.alloc_seq(st, cat(s, Lit([bv(0, 8)])), 'char', 'string data')
        st.mem[q].tag = 'cstr'
        st.mem[q].ro = True
        st.memo[k] = q
    return st.memo[k], s


def str_begin(eng, st, args, ins, dem):
    q, s = str_store(eng, st, args)
    return Ptr(q, 0)


def str_end(eng, st, args, ins, dem):
    q, s = str_store(eng, st, args)
    return Ptr(q, Lin.of(s.len))


def str_index(eng, st, args, ins, dem):
    q, s = str_store(eng, st, args)
    eng.require(st, ULE(args[1], s.len), 'out-of-bounds', ins, 'string index')
    return Ptr(q, Lin.of(args[1]))


def str_assign(eng, st, args, ins, dem):
    d = parse_dem(dem)
    if d.params[0].startswith('std::__cxx11::basic_string'):
        s = sseq(eng, st, args[1], ins)
        eng.setobj(st, args[0], StrObj(s))
        if d.params[0].endswith('&&') and args[0].key() != args[1].key():
            eng.setobj(st, args[1], StrObj(EMPTY))
    elif d.params[0] == 'char const*' and len(d.params) == 1:
        eng.setobj(st, args[0], StrObj(cstr(eng, st, args[1], ins)))
    elif d.margs:
        eng.setobj(st, args[0], StrObj(range_seq(eng, st, args[1], args[2], ins, 'char')))
    elif d.params[0] == 'char':
        eng.setobj(st, args[0], StrObj(Lit([args[1]])))
    else:
        raise Unsupported(dem)
    return args[0]


def str_clear(eng, st, args, ins, dem):
    eng.setobj(st, args[0], StrObj(EMPTY))


def strarg(eng, st, a, t, ins):
    if t.startswith('std::__cxx11::basic_string'):
        return sseq(eng, st, a, ins)
    if t.startswith('char const*'):
        return cstr(eng, st, a, ins)
    if t == 'char':
        return Lit([a])
    raise Unsupported('string operand ' + t)


def str_append(eng, st, args, ins, dem):
    d = parse_dem(dem)
    s = sseq(eng, st, args[0], ins)
    eng.setobj(st, args[0], StrObj(cat(s, strarg(eng, st, args[1], d.params[0], ins))))
    return args[0]


def str_push(eng, st, args, ins, dem):
    s = sseq(eng, st, args[0], ins)
    eng.setobj(st, args[0], StrObj(cat(s, Lit([args[1]]))))


def str_plus(eng, st, args, ins, dem):
    d = parse_dem(dem)
    eng.setobj(st, args[0], StrObj(cat(strarg(eng, st, args[1], d.params[0], ins), strarg(eng, st, args[2], d.params[1], ins))))
    return None


def str_eq(eng, st, args, ins, dem):
    d = parse_dem(dem)
    return seq_equal(eng, st, strarg(eng, st, args[0], d.params[0], ins), strarg(eng, st, args[1], d.params[1], ins))


def str_ne(eng, st, args, ins, dem):
    return simplify(Not(str_eq(eng, st, args, ins, dem)))


_order = {}


def str_lt_atom(a, b):
    """lexicographic order of two contents: an uninterpreted strict total order, interned by content"""
    return str_cmp_term(a, b) < 0


def str_cmp_term(a, b):
    """three-way comparison; antisymmetric by construction"""
    ka, kb = a.key(), b.key()
    if ka == kb:
        return bv(0, 32)
    sw = repr(ka) > repr(kb)
    k = (kb, ka) if sw else (ka, kb)
    if k not in _order:
        _order[k] = (BitVec(fresh_name('strcmp'), 8), (a, b))
    t = SignExt(24, _order[k][0])
    return -t if sw else t


def str_cmp_axioms(a, b):
    c = str_cmp_term(a, b)
    e, ax = seq_eq_atom(a, b)
    ka, kb = a.key(), b.key()
    out = list(ax)
    if ka != kb:
        k = (kb, ka) if repr(ka) > repr(kb) else (ka, kb)
        t = _order[k][0]
        out += [Or(t == bv(0, 8), t == bv(1, 8), t == bv(255, 8)), (c == 0) == e]
    return out


def str_spaceship(eng, st, args, ins, dem):
    a, b = sseq(eng, st, args[0], ins), sseq(eng, st, args[1], ins)
    for x in str_cmp_axioms(a, b):
        st.pc.append(simplify(x))
    c = str_cmp_term(a, b)
    # std::strong_ordering is one signed char
    return simp(Extract(7, 0, c))


def str_compare(eng, st, args, ins, dem):
    d = parse_dem(dem)
    a, b = sseq(eng, st, args[0], ins), strarg(eng, st, args[1], d.params[0], ins)
    for x in str_cmp_axioms(a, b):
        st.pc.append(simplify(x))
    return simp(str_cmp_term(a, b))


def str_cmpop(eng, st, args, ins, dem):
    d = parse_dem(dem)
    a, b = strarg(eng, st, args[0], d.params[0], ins), strarg(eng, st, args[1], d.params[1], ins)
    for x in str_cmp_axioms(a, b):
        st.pc.append(simplify(x))
    c = str_cmp_term(a, b)
    return simplify({'operator$lt': c < 0, 'operator$gt': c > 0, 'operator$le': c <= 0, 'operator$ge': c >= 0}[d.meth])


def m_to_string(eng, st, args, ins, dem):
    eng.setobj(st, args[0], StrObj(opaque_str('tostr')))
    return None


# ------------------------------------------------------------------ exceptions
def mk_exc(eng, st, cls, **info):
    p = eng.alloc(st, 64, 'exception', cls)
    w = st.wr(p.r)
    w.tag = dict(info)
    w.cells[0] = (8, Ptr('vt:' + cls, 0))
    return Exc(cls, dict(info), p.r)


def exc_ctor(eng, st, args, ins, dem):
    d = parse_dem(dem)
    p = args[0]
    w = st.wr(p.r)
    info = {}
    if d.cbase == 'std::system_error':
        if d.params and d.params[0] == 'int':
            info['code'] = args[1]
        elif d.params and d.params[0].startswith('std::system_error'):
            src = st.mem[args[1].r].tag or {}
            info = dict(src)
        elif d.params and d.params[0].startswith('std::error_code'):
            info['code'] = z3.Extract(31, 0, args[1]) if z3.is_bv(args[1]) and args[1].size() == 64 else args[1]
    w.tag = info
    w.cells[p.o.c] = (8, Ptr('vt:' + d.cbase, 0))
    return None


def c_alloc_exc(eng, st, args, ins, dem):
    p = eng.alloc(st, 64, 'exception')
    return p


def c_throw(eng, st, args, ins, dem):
    p, ti, _ = args
    n = ti.r[2:] if isinstance(ti, Ptr) and isinstance(ti.r, str) else ti.name
    cls = ir.dem1(n)[len('typeinfo for '):]
    if cls not in EXC_BASES:
        b = eng.ti_bases(cls)
        if b:
            EXC_BASES[cls] = b[0]
    t = st.mem[p.r].tag
    return [(st, ('throw', Exc(cls, dict(t) if isinstance(t, dict) else {}, p.r)))]


def c_begin_catch(eng, st, args, ins, dem):
    exc = args[0][1]
    st.exc = st.exc + (exc,)
    if exc.rid is None or exc.rid not in st.mem:
        e = mk_exc(eng, st, exc.cls, **exc.info)
        exc.rid = e.rid
    return Ptr(exc.rid, 0)


def c_end_catch(eng, st, args, ins, dem):
    st.exc = st.exc[:-1]
    return None


def c_rethrow(eng, st, args, ins, dem):
    e = st.exc[-1]
    return [(st, ('throw', e))]


def c_what(eng, st, args, ins, dem):
    q = eng.alloc_seq(st, cat(opaque_str('what'), Lit([bv(0, 8)])), 'char', 'what()')
    st.mem[q].tag = 'cstr'
    return Ptr(q, 0)


def m_code(eng, st, args, ins, dem):
    """std::system_error::code() const: returns a reference to the stored error_code"""
    t = st.mem[args[0].r].tag
    c = t.get('code') if isinstance(t, dict) else None
    if c is None:
        raise Unsupported('code() of an unknown error')
    p = eng.alloc(st, 16, 'error_code')
    eng.store_bytes(st, p, c, 4)
    eng.store_bytes(st, p.add(8), NULL, 8)
    return p


def m_opaque_ref(eng, st, args, ins, dem):
    return eng.alloc(st, 64, 'library object')


def throw_model(cls):
    def f(eng, st, args, ins, dem):
        return [(st, ('throw', mk_exc(eng, st, cls)))]
    return f


def c_assert_fail(eng, st, args, ins, dem):
    eng.require(st, False, 'assertion', ins, 'assertion can fail')
    return []


def c_abort(eng, st, args, ins, dem):
    eng.require(st, False, 'terminate', ins, 'the program is terminated here')
    return []


# ------------------------------------------------------------------ smart pointers
def sp_ctor(eng, st, args, ins, dem):
    d = parse_dem(dem)
    p = args[0]
    ps = d.params
    weak = 'weak' in d.cbase
    if not ps or ps[0] == 'decltype(nullptr)' or ps[0] == 'std::nullptr_t':
        v = NULL
    elif ps[0].startswith('std::_Sp_alloc_shared_tag') :
        # make_shared: construct the object with the forwarded arguments
        cls = norm_t(d.ctargs[0])
        q = eng.alloc(st, eng.prog.layouts[cls][0], 'make_shared<%s>' % cls, cls)
        a = args[2:] if len(args) == len(d.margs) + 1 else args[1 + (1 if len(args) > len(d.margs) else 0):]
        n = len(d.margs) - 1
        fw = args[-n:] if n else []
        rs = construct_fwd(eng, st, cls, q, d.margs[1:], fw, ins)
        out = []
        for s, o in rs:
            if o[0] == 'ret':
                eng.store_bytes(s, p, q, 8)
                eng.store_bytes(s, p.add(8), NULL, 8)
                o = ('ret', None)
            out.append((s, o))
        return out
    elif ps[0].startswith('std::shared_ptr') or ps[0].startswith('std::__shared_ptr') or ps[0].startswith('std::weak_ptr') or ps[0].startswith('std::__weak_ptr'):
        v = eng.load_bytes(st, args[1], 8, ins)
        if ps[0].endswith('&&') and len(ps) == 1:
            eng.store_bytes(st, args[1], NULL, 8)
    elif ps[0].endswith('*'):
        v = args[1]
        if z3.is_bv(v):
            v = NULL
    else:
        raise Unsupported(dem)
    eng.store_bytes(st, p, v, 8)
    eng.store_bytes(st, p.add(8), NULL, 8)
    return None


def sp_assign(eng, st, args, ins, dem):
    d = parse_dem(dem)
    v = eng.load_bytes(st, args[1], 8, ins)
    eng.store_bytes(st, args[0], v, 8)
    if d.params[0].endswith('&&') and args[0].key() != args[1].key():
        eng.store_bytes(st, args[1], NULL, 8)
    return args[0]


def sp_get(eng, st, args, ins, dem):
    return eng.load_bytes(st, args[0], 8, ins)


def sp_deref(eng, st, args, ins, dem):
    p = eng.load_bytes(st, args[0], 8, ins)
    if isinstance(p, Ptr) and p.r is None:
        eng.require(st, False, 'null-dereference', ins, 'null smart pointer dereferenced')
        raise DeadPath()
    return p


def sp_bool(eng, st, args, ins, dem):
    p = eng.load_bytes(st, args[0], 8, ins)
    return BoolVal(not p.is_null())


def sp_reset(eng, st, args, ins, dem):
    eng.store_bytes(st, args[0], args[1] if len(args) > 1 else NULL, 8)


def wp_lock(eng, st, args, ins, dem):
    """args: sret, this"""
    v = eng.load_bytes(st, args[1], 8, ins)
    eng.store_bytes(st, args[0].add(8), NULL, 8)
    if v.is_null():
        eng.store_bytes(st, args[0], NULL, 8)
        return None
    r = st.mem.get(v.r)
    b = z3.Bool('expired(%s)' % (r.name if r is not None else v.r))
    out = []
    if eng.smt.feasible(st.pc, b):
        s = st.clone()
        s.pc.append(b)
        eng.store_bytes(s, args[0], NULL, 8)
        out.append((s, ('ret', None)))
    st.pc.append(Not(b))
    eng.store_bytes(st, args[0], v, 8)
    out.append((st, ('ret', None)))
    return out


def m_make_shared(eng, st, args, ins, dem):
    """args: sret, forwarded..."""
    d = parse_dem(dem)
    cls = norm_t(d.margs[0])
    p = args[0]
    q = eng.alloc(st, eng.prog.layouts[cls][0], 'make_shared<%s>' % cls, cls)
    rs = construct_fwd(eng, st, cls, q, d.margs[1:], args[1:], ins)
    out = []
    for s, o in rs:
        if o[0] == 'ret':
            eng.store_bytes(s, p, q, 8)
            if d.meth == 'make_shared':
                eng.store_bytes(s, p.add(8), NULL, 8)
            o = ('ret', None)
        out.append((s, o))
    return out


def up_ctor(eng, st, args, ins, dem):
    d = parse_dem(dem)
    ps = d.params
    if not ps or 'nullptr' in ps[0]:
        v = NULL
    elif ps[0].startswith('std::unique_ptr'):
        v = eng.load_bytes(st, args[1], 8, ins)
        eng.store_bytes(st, args[1], NULL, 8)
    else:
        v = args[1]
    eng.store_bytes(st, args[0], v, 8)
    return None


def free_pointee(eng, st, p):
    """the object a unique_ptr owned is gone"""
    v = eng.load_bytes(st, p, 8)
    if isinstance(v, Ptr) and isinstance(v.r, int) and v.r in st.mem and st.mem[v.r].kind == 'mem':
        st.wr(v.r).live = False


def up_reset(eng, st, args, ins, dem):
    free_pointee(eng, st, args[0])
    eng.store_bytes(st, args[0], args[1] if len(args) > 1 else NULL, 8)


def up_assign(eng, st, args, ins, dem):
    d = parse_dem(dem)
    free_pointee(eng, st, args[0])
    if 'nullptr' in d.params[0]:
        eng.store_bytes(st, args[0], NULL, 8)
        return args[0]
    v = eng.load_bytes(st, args[1], 8, ins)
    eng.store_bytes(st, args[1], NULL, 8)
    eng.store_bytes(st, args[0], v, 8)
    return args[0]


def up_release(eng, st, args, ins, dem):
    v = eng.load_bytes(st, args[0], 8, ins)
    eng.store_bytes(st, args[0], NULL, 8)
    return v


# ------------------------------------------------------------------ std::function
def fn_ctor(eng, st, args, ins, dem):
    d = parse_dem(dem)
    ps = d.params
    if not ps or 'nullptr' in ps[0]:
        eng.setobj(st, args[0], FnObj(('none',)))
        return None
    if ps[0].startswith('std::function') and not d.margs:
        eng.setobj(st, args[0], eng.getobj(st, args[1], ins=ins))
        if ps[0].endswith('&&'):
            eng.setobj(st, args[1], FnObj(('none',)))
        return None
    # from a callable
    lam = d.margs[0]
    lam = re.sub(r'&+$', '', lam).strip()
    eng.setobj(st, args[0], make_lam(eng, st, lam, args[1], ins))
    return None


def make_lam(eng, st, lam, src, ins):
    op = [x for x in eng.prog.bydem if ('%s::operator()' % lam) in x and not x.startswith('decltype')
          and re.search(re.escape(lam) + r'::operator\(\)[^:]*', x) and 'std::' != x[:5] and (x.startswith(lam) or x.startswith('auto ' + lam))]
    size = 0
    for m in eng.prog.modules:
        for tn in m.types:
            pass
    # copy the captured state
    r = eng.region(st, src, ins, 'read')
    n = (r.size or 0) - (src.o.c if src.o.is_const() else 0)
    q = eng.alloc(st, max(n, 1), 'closure')
    if n > 0:
        eng.copy_mem(st, q, src, n, ins)
    return FnObj(('lam', lam, op[0] if len(op) == 1 else tuple(op), q))


def fn_assign(eng, st, args, ins, dem):
    d = parse_dem(dem)
    if 'nullptr' in d.params[0]:
        eng.setobj(st, args[0], FnObj(('none',)))
    elif d.params[0].startswith('std::function'):
        v = eng.getobj(st, args[1], ins=ins)
        eng.setobj(st, args[0], v)
        if d.params[0].endswith('&&') and args[0].key() != args[1].key():
            eng.setobj(st, args[1], FnObj(('none',)))
    else:
        lam = re.sub(r'&+$', '', d.margs[0]).strip()
        eng.setobj(st, args[0], make_lam(eng, st, lam, args[1], ins))
    return args[0]


def fn_bool(eng, st, args, ins, dem):
    f = eng.getobj(st, args[0], ins=ins)
    return fn_set(f)


def fn_set(f):
    """does this std::function hold a callable?"""
    return z3.Bool('set!' + f.v[1]) if f.v[0] == 'sym' else BoolVal(f.v[0] != 'none')


def fn_call(eng, st, args, ins, dem):
    d = parse_dem(dem)
    f = eng.getobj(st, args[0], ins=ins)
    m = re.match(r'std::function<(.*) \((.*)\)>$', d.cls)
    pts = split_targs(m.group(2))
    if f.v[0] == 'none':
        return [(st, ('throw', mk_exc(eng, st, 'std::bad_function_call')))]
    if f.v[0] == 'default':
        return None          # a callable without effect
    if f.v[0] == 'lam':
        op = f.v[2]
        if isinstance(op, tuple):
            raise Unsupported('callable %s' % (f.v[1],))
        return eng.call(st, eng.prog.bydem[op][0], [f.v[3]] + args[1:], None, ins)
    vals = []
    for t, a in zip(pts, args[1:]):
        vals.append(arg_value(eng, st, t, a))
    out = []
    c = fn_set(f)
    if eng.smt.feasible(st.pc, Not(c)):
        s = st.clone()
        s.pc.append(Not(c))
        out.append((s, ('throw', mk_exc(eng, s, 'std::bad_function_call'))))
    if not eng.smt.feasible(st.pc, c):
        return out
    st.pc.append(c)
    i = emit(eng, st, 'call:' + f.v[1], *vals)
    for t, a in zip(pts, args[1:]):
        n = norm_t(t)
        if t.endswith('&') and not re.search(r'\bconst&', t) and n.startswith('std::vector<'):
            et = n[len('std::vector<'):-1].rstrip('&').strip().rstrip('>').strip()
            et = norm_t(re.match(r'std::vector<(.*), std::allocator', t).group(1)) if 'allocator' in t else et
            eng.set_vec(st, a, env_seq('handler_out', i, et, eng), et)
    return out + [(st, ('ret', None))]


def env_seq(name, i, et, eng):
    """content chosen by the environment at event i"""
    lf = Function('env_%s_len' % name, BitVecSort(64), BitVecSort(40))
    return eng.sym_seq_at('env_' + name, et, ZeroExt(24, lf(i)), (i,))


def arg_value(eng, st, t, a):
    n = norm_t(t).rstrip('&').strip()
    if isinstance(a, Ptr):
        k = eng.prog.kind_of_type(n)
        if k and k[0] == 'vec':
            return eng.vseq(st, a)
        if k and k[0] == 'str':
            return sseq(eng, st, a)
        if n in eng.prog.layouts and not vptr_class(eng, n):
            return eng.read_obj(st, a, n)
        return a
    return a


def vptr_class(eng, n):
    return any(k[0] == 'vptr' for o, k, nm in eng.prog.flat(n))


# ------------------------------------------------------------------ misc C++
def m_max(eng, st, args, ins, dem):
    d = parse_dem(dem)
    t = norm_t(d.margs[0])
    k = eng.prog.kind_of_type(t)
    if not isinstance(args[0], Ptr) or k is None or k[0] != 'bv' or t in ('float', 'double'):
        raise Unsupported(dem)
    a, b = (eng.load_bytes(st, x, k[1] // 8, ins) for x in args[:2])
    sg = 'unsigned' not in t and t != 'bool'
    lt = (a < b) if sg else ULT(a, b)
    gt = (b < a) if sg else ULT(b, a)
    q = eng.alloc(st, k[1] // 8, 'max')
    v = If(lt, b, a) if d.meth == 'max' else If(gt, b, a)
    eng.store_bytes(st, q, simp(v), k[1] // 8)
    return q


def m_now(eng, st, args, ins, dem):
    i = emit(eng, st, 'now')
    return evf('now', i, 64)


def m_rand(eng, st, args, ins, dem):
    i = emit(eng, st, 'random')
    return evf('random', i, 16)


def m_pow(eng, st, args, ins, dem):
    a, b = args
    def dbl(x, t):
        if x.size() == 64 and t in ('double',):
            return x
        return int2fp('sitofp', x, ('double',)) if not t.startswith('unsigned') else int2fp('uitofp', x, ('double',))
    d = parse_dem(dem)
    ts = d.margs if d.margs else d.params
    a, b = dbl(a, ts[0]), dbl(b, ts[1])
    return Function('pow', BitVecSort(64), BitVecSort(64), BitVecSort(64))(a, b)


def m_new(eng, st, args, ins, dem):
    n = const_of(simp(args[0]))
    if n is None:
        raise Unsupported('operator new of symbolic size')
    return eng.alloc(st, n, 'new')


def c_guard_acquire(eng, st, args, ins, dem):
    g = ir.dem1(args[0].r[2:]) if isinstance(args[0].r, str) else '?'
    return bv(1, 32)


def m_make_pair(eng, st, args, ins, dem):
    raise Unsupported('make_pair')


# ------------------------------------------------------------------ operating system
def set_errno(eng, st, i):
    p = Ptr('g:errno', 0)
    eng.global_region(st, 'g:errno')
    w = st.wr('g:errno')
    w.cells = {0: (4, evf('errno', i, 32))}
    w.size = 4


def clobber_errno(eng, st):
    eng.global_region(st, 'g:errno')
    w = st.wr('g:errno')
    w.cells = {0: (4, BitVec(fresh_name('errno'), 32))}
    w.size = 4


def c_errno(eng, st, args, ins, dem):
    r = eng.global_region(st, 'g:errno')
    if 0 not in r.cells:
        w = st.wr('g:errno')
        w.cells[0] = (4, BitVec('errno0', 32)); w.size = 4
    return Ptr('g:errno', 0)


def c_inet_ntoa(eng, st, args, ins, dem):
    # text form of an IPv4 address: a function of the address
    a = args[0]
    i = simp(ZeroExt(32, a))
    lf = Function('inet_ntoa_len', BitVecSort(64), BitVecSort(4))
    f = Function('inet_ntoa', BitVecSort(64), BitVecSort(64), BitVecSort(8))
    s = Sym('inet_ntoa', ZeroExt(60, lf(i)), lambda j: f(i, j), ('inet_ntoa', vkey(i)))
    q = eng.alloc_seq(st, cat(s, Lit([bv(0, 8)])), 'char', 'inet_ntoa')
    st.mem[q].tag = 'cstr'
    return Ptr(q, 0)


def inet_terms(s):
    """(ok, value) of inet_aton on content s"""
    k = astid_key(s)
    return z3.Bool('inet_ok!%s' % k), BitVec('inet_val!%s' % k, 32)


_ik = {}


def astid_key(s):
    k = s.key()
    if k not in _ik:
        _ik[k] = (len(_ik), s)
    return _ik[k][0]


def c_inet_aton(eng, st, args, ins, dem):
    s = cstr(eng, st, args[0], ins)
    ok, v = inet_terms(s)
    old = eng.load_bytes(st, args[1], 4, ins)
    eng.store_bytes(st, args[1], simp(If(ok, v, old)), 4, ins)
    return simp(If(ok, bv(1, 32), bv(0, 32)))


def c_htons(eng, st, args, ins, dem):
    a = args[0]
    return simp(z3.Concat(Extract(7, 0, a), Extract(15, 8, a)))


def c_htonl(eng, st, args, ins, dem):
    a = args[0]
    return simp(z3.Concat(Extract(7, 0, a), Extract(15, 8, a), Extract(23, 16, a), Extract(31, 24, a)))


def addr_value(eng, st, p, ins):
    """sockaddr_in: family, port, address"""
    return Rec('sockaddr_in', {0: eng.load_bytes(st, p, 2, ins), 2: eng.load_bytes(st, p.add(2), 2, ins), 4: eng.load_bytes(st, p.add(4), 4, ins)})


def buf_read(eng, st, p, n, ins):
    if not p.is_null():
        r, i = idx_of(eng, st, p, ins)
        if i is None:
            raise Unsupported('I/O buffer')
        return slice_checked(eng, st, r, i, Lin.of(n), ins)
    eng.require(st, n == bv(0), 'null-dereference', ins, 'null I/O buffer')
    return EMPTY


def c_socket(eng, st, args, ins, dem):
    i = emit(eng, st, 'sys:socket', *args)
    set_errno(eng, st, i)
    r = evf('socket', i, 32)
    # a descriptor fits into a descriptor set (FD_SETSIZE)
    st.pc.append(And(r >= bv(-1 & 0xffffffff, 32), r < bv(1024, 32)))
    return r


def c_fcntl(eng, st, args, ins, dem):
    fd, cmd = args[:2]
    i = emit(eng, st, 'sys:fcntl', fd, cmd, *([simp(args[2]) if args[2].size() == 32 else simp(Extract(31, 0, args[2]))] if const_of(simp(cmd)) != 3 else []))
    set_errno(eng, st, i)
    r = evf('fcntl', i, 32)
    st.pc.append(r >= bv(-1 & 0xffffffff, 32))
    return r


def sysret(name, nargs_keep=None, lo=-1, hi=None):
    def f(eng, st, args, ins, dem):
        vals = [a if not isinstance(a, Ptr) else ('ptr',) for a in args]
        i = emit(eng, st, 'sys:' + name, *[a for a in vals if not isinstance(a, tuple)])
        set_errno(eng, st, i)
        r = evf(name, i, 32)
        st.pc.append(And(r >= bv(lo & 0xffffffff, 32), *([r <= bv(hi, 32)] if hi is not None else [])))
        return r
    return f


def c_send(eng, st, args, ins, dem):
    fd, p, n, fl = args
    data = buf_read(eng, st, p, n, ins)
    i = emit(eng, st, 'sys:send', fd, data, fl)
    set_errno(eng, st, i)
    r = evf('send', i, 64)
    st.pc.append(Or(r == bv(-1), And(r >= bv(0), r <= n)))
    return r


def c_sendto(eng, st, args, ins, dem):
    fd, p, n, fl, a, al = args
    data = buf_read(eng, st, p, n, ins)
    i = emit(eng, st, 'sys:sendto', fd, data, fl, addr_value(eng, st, a, ins))
    set_errno(eng, st, i)
    r = evf('sendto', i, 64)
    st.pc.append(Or(r == bv(-1), r == n))      # a datagram is sent whole or not at all
    return r


def recv_common(kind, hasaddr):
    def f(eng, st, args, ins, dem):
        fd, p, n, fl = args[:4]
        i = emit(eng, st, 'sys:' + kind, fd, n, fl)
        set_errno(eng, st, i)
        r = evf(kind, i, 64)
        st.pc.append(Or(r == bv(-1), And(r >= bv(0), r <= n)))
        # the transport may write anywhere in [p, p+n)
        if p.is_null():
            eng.require(st, n == bv(0), 'null-dereference', ins, 'null receive buffer')
            return r
        rr, k = idx_of(eng, st, p, ins)
        if k is None:
            raise Unsupported('receive buffer')
        eng.require(st, And(ULE(k.bv(), rr.seq.len), ULE(n, rr.seq.len - k.bv())), 'out-of-bounds', ins, 'receive of up to %s bytes at %s into a buffer of %s' % (n, k, rr.seq.len))
        cnt = simp(If(r == bv(-1), bv(0), r))
        data = recv_data(kind, i, cnt)
        w = st.wr(p.r)
        w.seq = put_slice(rr.seq, k.bv(), data)
        if hasaddr and isinstance(args[4], Ptr) and not args[4].is_null():
            a = args[4]
            for o, s in ((0, 2), (2, 2), (4, 4)):
                eng.store_bytes(st, a.add(o), evf('from%d' % o, i, 8 * s), s, ins)
            for o in range(8, 16):
                eng.store_bytes(st, a.add(o), evf('fromz%d' % o, i, 8), 1, ins)
        return r
    return f


def recv_data(kind, i, cnt):
    f = Function('env_%s_data' % kind, BitVecSort(64), BitVecSort(64), BitVecSort(8))
    return Sym('data', cnt, lambda j: f(i, j), ('recv', kind, vkey(i)))


def is_null(x):
    return isinstance(x, z3.ExprRef) or x.is_null()


def c_select(eng, st, args, ins, dem):
    n, rs, ws, es, tv = args
    fds = lambda p: tuple(eng.load_bytes(st, p.add(o), 8, ins) for o in range(0, 128, 8))
    i = emit(eng, st, 'sys:select', n, *[BoolVal(False) if is_null(x) else fds(x) for x in (rs, ws, es)],
             BoolVal(False) if is_null(tv) else (eng.load_bytes(st, tv, 8, ins), eng.load_bytes(st, tv.add(8), 8, ins)))
    set_errno(eng, st, i)
    r = evf('select', i, 32)
    st.pc.append(r >= bv(-1 & 0xffffffff, 32))
    for nm, p in (('r', rs), ('w', ws), ('e', es)):
        if isinstance(p, Ptr) and not p.is_null():
            for o in range(0, 128, 8):
                eng.store_bytes(st, p.add(o), Function('env_fdset_%s%d' % (nm, o), BitVecSort(64), BitVecSort(64))(i), 8, ins)
    if isinstance(tv, Ptr) and not tv.is_null():
        eng.store_bytes(st, tv, evf('tv_sec', i, 64), 8, ins)
        eng.store_bytes(st, tv.add(8), evf('tv_usec', i, 64), 8, ins)
    return r


def c_getsockopt(eng, st, args, ins, dem):
    fd, lvl, opt, p, lp = args
    i = emit(eng, st, 'sys:getsockopt', fd, lvl, opt)
    set_errno(eng, st, i)
    r = evf('getsockopt', i, 32)
    st.pc.append(Or(r == bv(0, 32), r == bv(-1 & 0xffffffff, 32)))
    old = eng.load_bytes(st, p, 4, ins)
    eng.store_bytes(st, p, simp(If(r == bv(0, 32), evf('so_value', i, 32), old)), 4, ins)
    return r


def c_setsockopt(eng, st, args, ins, dem):
    fd, lvl, opt, p, ln = args
    n = const_of(simp(ln))
    if n is None:
        raise Unsupported('setsockopt')
    w = 8 if n == 16 else 4
    i = emit(eng, st, 'sys:setsockopt', fd, lvl, opt, tuple(eng.load_bytes(st, p.add(o), w, ins) for o in range(0, n, w)))
    set_errno(eng, st, i)
    r = evf('setsockopt', i, 32)
    st.pc.append(Or(r == bv(0, 32), r == bv(-1 & 0xffffffff, 32)))
    return r


def c_addr_call(kind):
    def f(eng, st, args, ins, dem):
        fd, p, ln = args
        i = emit(eng, st, 'sys:' + kind, fd, addr_value(eng, st, p, ins))
        set_errno(eng, st, i)
        r = evf(kind, i, 32)
        st.pc.append(Or(r == bv(0, 32), r == bv(-1 & 0xffffffff, 32)))
        return r
    return f


def c_memcmp(eng, st, args, ins, dem):
    n = const_of(simp(args[2]))
    if n is None or n > 64:
        raise Unsupported('memcmp')
    r = bv(0, 32)
    for k in range(n - 1, -1, -1):
        a = eng.load_bytes(st, args[0].add(k), 1, ins); b = eng.load_bytes(st, args[1].add(k), 1, ins)
        r = If(a == b, r, If(ULT(a, b), bv(-1 & 0xffffffff, 32), bv(1, 32)))
    return simp(r)


def c_memcpy(eng, st, args, ins, dem):
    n = const_of(simp(args[2]))
    if n is None:
        copy_range(eng, st, args[0], args[1], args[2], ins)
    else:
        eng.copy_mem(st, args[0], args[1], n, ins)
    return args[0]


C_FUNCS = {
    '__cxa_allocate_exception': c_alloc_exc, '__cxa_free_exception': m_nop, '__cxa_throw': c_throw, '__cxa_begin_catch': c_begin_catch,
    '__cxa_end_catch': c_end_catch, '__cxa_rethrow': c_rethrow, '__cxa_guard_acquire': c_guard_acquire, '__cxa_guard_release': m_nop,
    '__cxa_guard_abort': m_nop, '__cxa_atexit': lambda e, s, a, i, d: bv(0, 32), '__assert_fail': c_assert_fail, '__errno_location': c_errno,
    '__clang_call_terminate': c_abort, '_ZSt9terminatev': c_abort, 'abort': c_abort,
    'socket': c_socket, 'close': sysret('close', hi=0), 'shutdown': sysret('shutdown', hi=0), 'fcntl': c_fcntl, 'send': c_send, 'sendto': c_sendto,
    'recv': recv_common('recv', False), 'recvfrom': recv_common('recvfrom', True), 'select': c_select, 'getsockopt': c_getsockopt,
    'setsockopt': c_setsockopt, 'bind': c_addr_call('bind'), 'connect': c_addr_call('connect'), 'htons': c_htons, 'ntohs': c_htons, 'htonl': c_htonl, 'ntohl': c_htonl,
    'inet_ntoa': c_inet_ntoa, 'inet_aton': c_inet_aton, 'memcmp': c_memcmp, 'memcpy': c_memcpy, 'memmove': c_memcpy,
    '_Znwm': m_new, '_ZdlPv': m_nop, '_ZdlPvm': m_nop, '_ZNKSt9exception4whatEv': c_what, '_ZNKSt13runtime_error4whatEv': c_what,
}

V = 'std::vector'
S = 'std::__cxx11::basic_string'
TABLE = {
    (V, 'size'): vec_size, (V, 'empty'): vec_empty, (V, 'begin'): vec_begin, (V, 'cbegin'): vec_begin, (V, 'end'): vec_end, (V, 'cend'): vec_end,
    (V, 'data'): vec_begin, (V, 'at'): vec_at, (V, 'operator[]'): vec_index, (V, 'back'): vec_back, (V, 'front'): vec_front, (V, 'push_back'): vec_push,
    (V, 'emplace_back'): vec_emplace, (V, 'resize'): vec_resize, (V, 'reserve'): m_nop, (V, 'shrink_to_fit'): m_nop, (V, 'clear'): vec_clear,
    (V, 'operator='): vec_assign, (V, 'assign'): vec_assign, (V, 'insert'): vec_insert, (V, 'erase'): vec_erase, (V, 'pop_back'): vec_pop, (V, 'swap'): vec_swap,
    (S, 'size'): str_size, (S, 'length'): str_size, (S, 'empty'): str_empty, (S, 'begin'): str_begin, (S, 'cbegin'): str_begin, (S, 'end'): str_end, (S, 'cend'): str_end,
    (S, 'c_str'): str_begin, (S, 'data'): str_begin, (S, 'operator='): str_assign, (S, 'assign'): str_assign, (S, 'operator+='): str_append, (S, 'append'): str_append,
    (S, 'push_back'): str_push, (S, 'clear'): str_clear, (S, 'operator[]'): str_index, (S, 'compare'): str_compare,
    ('std::function', 'operator='): fn_assign, ('std::function', 'operator$bool'): fn_bool, ('std::function', 'operator$call'): fn_call,
    ('std::unique_ptr', 'get'): sp_get, ('std::unique_ptr', 'operator$arrow'): sp_deref, ('std::unique_ptr', 'operator*'): sp_deref,
    ('std::unique_ptr', 'operator$bool'): sp_bool, ('std::unique_ptr', 'reset'): up_reset, ('std::unique_ptr', 'release'): up_release, ('std::unique_ptr', 'operator='): up_assign,
    ('std::system_error', 'code'): m_code,
    ('std::random_device', 'random_device'): m_nop, ('std::random_device', '~random_device'): m_nop,
    ('std::uniform_int_distribution', 'uniform_int_distribution'): m_nop, ('std::uniform_int_distribution', 'operator$call'): m_rand,
    ('std::exception', 'what'): c_what, ('std::runtime_error', 'what'): c_what,
}
for b in ('std::shared_ptr', 'std::__shared_ptr', 'std::weak_ptr', 'std::__weak_ptr', 'std::__shared_ptr_access'):
    TABLE.update({(b, 'operator='): sp_assign, (b, 'operator$arrow'): sp_deref, (b, 'operator*'): sp_deref, (b, 'get'): sp_get, (b, '_M_get'): sp_get,
                  (b, 'operator$bool'): sp_bool, (b, 'reset'): sp_reset, (b, 'lock'): wp_lock})

FREE = {
    ('std', 'operator=='): None, ('std', 'make_shared'): m_make_shared, ('std', 'make_unique'): m_make_shared, ('std', 'to_string'): m_to_string, ('std::__cxx11', 'to_string'): m_to_string,
    ('std', 'find_if'): m_find_if, ('std', 'find_if_not'): m_find_if,
    ('std', 'max'): m_max, ('std', 'min'): m_max, ('std', 'copy'): m_copy, ('std', 'copy_n'): m_copy_n, ('std', 'equal'): m_equal, ('std', 'fill'): m_fill, ('std', 'distance'): m_distance,
    ('std', 'back_inserter'): m_back_inserter, ('std', 'pow'): m_pow, ('', 'pow'): m_pow, ('std', 'operator+'): str_plus,
    ('std', 'terminate'): c_abort,
    ('std', '__throw_out_of_range'): throw_model('std::out_of_range'), ('std', '__throw_length_error'): throw_model('std::length_error'),
    ('std', '__throw_bad_alloc'): throw_model('std::bad_alloc'), ('std', '__throw_bad_function_call'): throw_model('std::bad_function_call'),
    ('std', 'operator$cmp'): str_spaceship,
    ('std::_V2', 'generic_category'): m_opaque_ref, ('std::_V2', 'system_category'): m_opaque_ref,
    ('std::chrono::_V2::steady_clock', 'now'): m_now, ('std::chrono::_V2::system_clock', 'now'): m_now,
}


def free_eq(eng, st, args, ins, dem):
    d = parse_dem(dem)
    if d.params[0].startswith('std::vector'):
        r = vec_eq(eng, st, args, ins, dem)
    elif any(p.startswith('std::__cxx11::basic_string') for p in d.params):
        r = str_eq(eng, st, args, ins, dem)
    elif d.params[0].startswith('std::shared_ptr') or d.params[0].startswith('std::unique_ptr'):
        a = eng.load_bytes(st, args[0], 8, ins)
        b = eng.load_bytes(st, args[1], 8, ins) if 'nullptr' not in d.params[1] else NULL
        r = eng.picmp(st, 'eq', a, b, ins)
    else:
        return eng.run(st, eng.prog.bydem[dem][0], args, ins)
    return simplify(Not(r)) if d.meth == 'operator!=' else r


def free_lt(eng, st, args, ins, dem):
    d = parse_dem(dem)
    if any(p.startswith('std::__cxx11::basic_string') for p in d.params):
        return str_cmpop(eng, st, args, ins, dem)
    if dem in eng.prog.bydem:
        return eng.run(st, eng.prog.bydem[dem][0], args, ins)
    raise Unsupported(dem)


FREE[('std', 'operator==')] = free_eq
FREE[('std', 'operator!=')] = free_eq
for o in ('lt', 'gt', 'le', 'ge'):
    FREE[('std', 'operator$' + o)] = free_lt
