"""Big-step symbolic executor over clang -O0 LLVM IR (the deductive back end).

A function body is executed on symbolic inputs; calls go to contracts, library models, or (for functions without a
contract) to the callee's body; loops are unrolled when their trip count is a constant and otherwise summarised by an
inductive invariant (loops.py).  Every proof obligation is discharged at once by z3 (cvc5 when z3 gives up)."""
import re, time, os
import z3
from z3 import And, Or, Not, If, BoolVal, ULT, ULE, UGT, UGE, Extract, ZeroExt, SignExt, Concat, is_true, is_false, simplify
from . import ir
from .vals import *
from .vals import _keep


class Failure:
    def __init__(self, kind, where, text, model=None, status='refuted'):
        self.kind = kind; self.where = where; self.text = text; self.model = model; self.status = status

    def __repr__(self):
        return '%s at %s: %s [%s]' % (self.kind, self.where, self.text, self.status)


# ------------------------------------------------------------------ solver
class Smt:
    def __init__(self, timeout_ms=15000):
        self.timeout = timeout_ms
        self.n = {'z3': 0, 'cvc5': 0, 'simplify': 0, 'unknown': 0}
        self.t = 0.0
        self.symcache = {}
        self.cache = {}
        self.deadline = None

    def syms(self, e):
        i = e.ast.value
        r = self.symcache.get(i)
        if r is not None:
            return r[1]
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            j = x.ast.value
            if j in seen:
                continue
            seen.add(j)
            if j in self.symcache:
                out |= self.symcache[j][1]
                continue
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(d.name())
                st.extend(x.children())
        out = frozenset(out)
        self.symcache[i] = (e, out)
        return out

    def cone(self, pc, goal):
        need = set(self.syms(goal))
        rest = [(c, self.syms(c)) for c in pc]
        used = []
        changed = True
        while changed and rest:
            changed = False
            nr = []
            for c, s in rest:
                if not s or s & need:
                    used.append(c)
                    if not s <= need:
                        need |= s
                        changed = True
                else:
                    nr.append((c, s))
            rest = nr
        return used

    def check(self, fs, timeout=None, want_model=False):
        """'sat' / 'unsat' / 'unknown', model"""
        if self.deadline and time.time() > self.deadline:
            raise Timeout('time budget used up')
        key = tuple(sorted(set(f.ast.value for f in fs)))
        if not want_model and key in self.cache:
            return self.cache[key][0], None
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*fs)
        t0 = time.time()
        r = str(s.check())
        self.t += time.time() - t0
        self.n['z3'] += 1
        m = None
        if r == 'sat' and want_model:
            m = s.model()
        if r == 'unknown' and timeout is None:
            r = self.cvc5(s)
        if r == 'unknown':
            self.n['unknown'] += 1
        self.cache[key] = (r, list(fs))
        return r, m

    def cvc5(self, s):
        try:
            import cvc5
        except Exception:
            return 'unknown'
        t0 = time.time()
        try:
            slv = cvc5.Solver()
            slv.setOption('tlimit-per', str(self.timeout))
            slv.setLogic('QF_AUFBV')
            text = s.to_smt2()
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
            sm = p.getSymbolManager()
            res = 'unknown'
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                o = str(c.invoke(slv, sm)).strip()
                if o in ('sat', 'unsat', 'unknown'):
                    res = o
            self.n['cvc5'] += 1
            return res
        except Exception:
            return 'unknown'
        finally:
            self.t += time.time() - t0

    def valid(self, pc, g, timeout=None, want_model=False):
        """('yes'|'no'|'unknown', model)"""
        g = simplify(g)
        if is_true(g):
            self.n['simplify'] += 1
            return 'yes', None
        ng = simplify(Not(g))
        fs = self.cone(pc, ng) + [ng]
        r, m = self.check(fs, timeout)
        if r == 'unsat':
            return 'yes', None
        if r == 'sat':
            # make sure the whole path condition is satisfiable with it
            if len(fs) != len(pc) + 1 or want_model:
                r2, m = self.check(list(pc) + [ng], timeout, want_model=want_model)
                if r2 == 'unsat':
                    return 'yes', None
                if r2 == 'unknown':
                    return 'unknown', None
            return 'no', m
        return 'unknown', None

    def feasible(self, pc, c):
        c = simplify(c)
        if is_false(c):
            return False
        if is_true(c):
            return True
        n = c.arg(0) if z3.is_not(c) else simplify(Not(c))
        n, i = n.ast.value, c.ast.value
        for f in pc:
            v = f.ast.value
            if v == i:
                return True
            if v == n:
                return False
        fs = self.cone(pc, c) + [c]
        r, _ = self.check(fs, timeout=3000)
        return r != 'unsat'


class Timeout(Exception):
    pass


# ------------------------------------------------------------------ memory
class Region:
    __slots__ = ('kind', 'size', 'cells', 'objs', 'live', 'name', 'cls', 'seq', 'esz', 'et', 'ro', 'init', 'tag')

    def __init__(self, kind, size, name, cls=None):
        self.kind = kind; self.size = size; self.name = name; self.cls = cls
        self.cells = {}; self.objs = {}; self.live = True; self.seq = None; self.esz = 1; self.et = None
        self.ro = False; self.init = False; self.tag = None

    def copy(self):
        r = Region.__new__(Region)
        for s in Region.__slots__:
            setattr(r, s, getattr(self, s))
        r.cells = dict(self.cells); r.objs = dict(self.objs)
        return r


class VecObj:
    """a std::vector object; its data lives in region rid"""
    def __init__(self, rid, et):
        self.rid = rid; self.et = et


class StrObj:
    """a std::string; content is a byte sequence"""
    def __init__(self, seq):
        self.seq = seq


class FnObj:
    """a std::function: ('none',) | ('sym', name) | ('lam', dem of operator(), captured Ptr)"""
    def __init__(self, v):
        self.v = v

    def key(self):
        return ('fnobj',) + tuple(vkey(x) for x in self.v)


class OpaqueObj:
    def __init__(self, n):
        self.n = n

    def key(self):
        return ('opq', self.n)


class Exc:
    def __init__(self, cls, info=None, rid=None):
        self.cls = cls; self.info = info or {}; self.rid = rid

    def __repr__(self):
        return 'Exc(%s,%s)' % (self.cls, self.info)


class State:
    def __init__(self):
        self.mem = {}
        self.pc = []
        self.trace = ()
        self.cnt = {}
        self.wit = ()
        self.exc = ()
        self.memo = {}
        self.loopfacts = ()
        self.applied = ()

    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.pc = list(self.pc); s.trace = self.trace; s.cnt = dict(self.cnt); s.wit = self.wit
        s.exc = self.exc; s.memo = dict(self.memo); s.loopfacts = self.loopfacts; s.applied = self.applied
        return s

    def wr(self, rid):
        r = self.mem[rid].copy()
        self.mem[rid] = r
        return r


_rid = [0]


def new_rid():
    _rid[0] += 1
    return _rid[0]


EXC_BASES = {
    'std::system_error': 'std::runtime_error', 'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception',
    'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
    'std::bad_alloc': 'std::exception', 'std::bad_function_call': 'std::exception', 'std::range_error': 'std::runtime_error',
    'std::overflow_error': 'std::runtime_error', 'std::bad_weak_ptr': 'std::exception', 'std::domain_error': 'std::logic_error',
    'std::underflow_error': 'std::runtime_error', 'std::bad_array_new_length': 'std::bad_alloc',
}


def exc_isa(c, base):
    while c is not None:
        if c == base:
            return True
        c = EXC_BASES.get(c)
    return False


MAXLEN = 1 << 40      # larger allocations fail
SYMLEN = 1 << 36      # longest existing container (assumption)


def leading_zero(x):
    """visibly not negative"""
    x = simp(x)
    return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() >> (x.arg(0).size() - 1) == 0


POINTEE_HOOKS = {}    # class -> what is known about an object found in a container


def key_id(t):
    k = vkey(t)
    _keep.append(t)
    if k not in _key_ids:
        _key_ids[k] = 'k%d' % len(_key_ids)
    return _key_ids[k]


_key_ids = {}


class Frame:
    __slots__ = ('fn', 'env', 'allocas', 'dem', 'depth')


class LoopBack(Exception):
    pass


def counter_step(x, y):
    """a counter in static storage being advanced by one: assumed not to run over (fewer than 2^31 steps in a process)"""
    if const_of(y) != 1:
        return False
    todo, names = [x], set()
    while todo:
        e = todo.pop()
        if z3.is_app(e) and e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names.add(e.decl().name().split('[')[0])
        todo.extend(e.children())
    return len(names) == 1 and next(iter(names)).startswith('g:')


class Engine:
    def __init__(self, prog, contracts=None, models=None, smt=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.models = models
        self.smt = smt or Smt()
        self.failures = []
        self.obligations = []        # (function, kind, where, status)
        self.target = None
        self.quiet = 0               # >0: obligations are not recorded (dry loop passes)
        self.used_contracts = set()
        self.used_models = set()
        self.inlined = set()
        self.unroll_only = None      # bounded mode: maximum iterations
        self.bounded = False
        self.loop_hints = []         # candidate families from the contract being checked
        self.loop_invs = []
        self.loops_seen = []
        self.max_paths = 4000
        self.stack = []
        self.watches = []
        self.loop_specs = {}
        self.summaries = []          # loops being summarised, outermost first
        self.havoc_loops = []
        self.loop_mismatch = []
        self.monitor = None
        self.merging = False         # rejoin the sides of conditionals
        self.map_keys = {}; self.map_entries = {}; self.map_bases = {}
        self.verifying = None   # the contract whose body is being checked
        self.pointee_hooks = {}
        self.pointees = {}           # objects reached through elements of symbolic containers: name -> (class, maker)

    # ---------------------------------------------------------------- obligations
    def where(self, ins=None):
        if not self.stack:
            return '?'
        fr = self.stack[-1]
        ln = fr.fn.module.line_of(ins.dbg) if ins is not None and ins.dbg else None
        d = fr.dem
        for f in reversed(self.stack):
            if f.dem.startswith('eipScanner') and f is not fr:
                d = '%s (in %s)' % (d, f.dem)
                break
        return '%s%s' % (short(d), ':%d' % ln if ln else '')

    def require(self, st, cond, kind, ins=None, text='', where=None):
        """proof obligation; afterwards cond is assumed"""
        if isinstance(cond, bool):
            cond = BoolVal(cond)
        w = where or self.where(ins)
        c = simplify(cond)
        if self.monitor is not None:
            # a monitored contract is about effects; memory safety of the body is assumed here
            st.pc.append(c)
            return True
        if is_true(c):
            if not self.quiet:
                self.obligations.append((kind, w, 'simplify'))
            return True
        r, m = self.smt.valid(st.pc, c, want_model=not self.quiet)
        if not self.quiet:
            self.obligations.append((kind, w, {'yes': 'proved', 'no': 'refuted', 'unknown': 'unknown'}[r]))
            if r != 'yes':
                self.failures.append(Failure(kind, w, text, m, 'refuted' if r == 'no' else 'unknown'))
        else:
            if r != 'yes':
                self.dry_fail = True
        st.pc.append(c)
        return r == 'yes'

    # ---------------------------------------------------------------- allocation
    def alloc(self, st, size, name, cls=None):
        rid = new_rid()
        st.mem[rid] = Region('mem', size, name, cls)
        return Ptr(rid, 0)

    def alloc_seq(self, st, seq, et, name='vec'):
        rid = new_rid()
        r = Region('seq', None, name)
        r.seq = seq; r.et = et; r.esz = self.esize(et)
        st.mem[rid] = r
        return rid

    def esize(self, et):
        if et in ('unsigned char', 'char', 'bool'):
            return 1
        return self.prog.sizeof(et)

    # ---------------------------------------------------------------- raw memory
    def region(self, st, p, ins=None, what='access'):
        if not isinstance(p, Ptr):
            raise Unsupported('%s through non-pointer %r' % (what, p))
        if p.r is None:
            self.require(st, False, 'null-dereference', ins, '%s through a null pointer' % what)
            raise DeadPath()
        r = st.mem.get(p.r)
        if r is None:
            if isinstance(p.r, str):
                r = self.global_region(st, p.r)
            else:
                self.require(st, False, 'dangling', ins, '%s to a dead stack object' % what)
                raise DeadPath()
        if not r.live:
            self.require(st, False, 'use-after-free', ins, '%s to freed or reallocated storage (%s)' % (what, r.name))
            raise DeadPath()
        return r

    def load(self, st, p, ty, ins=None):
        k = ty[0]
        if k in ('struct', 'arr', 'named'):
            fr = self.stack[-1].fn.module
            t = fr.type(ty[1]) if k == 'named' else ty
            if t[0] == 'struct':
                out = []
                for i in range(len(t[1])):
                    off, et = fr.field_off(t, i)
                    out.append(self.load(st, p.add(off), et, ins))
                return tuple(out)
            raise Unsupported('load of %s' % (ty,))
        if k == 'int':
            bits = ty[1]
            size = (bits + 7) // 8
            v = self.load_bytes(st, p, size, ins)
            if isinstance(v, z3.ExprRef):
                if bits == 1:
                    return simplify(Extract(0, 0, v) == bv(1, 1)) if z3.is_bv(v) else v
                if z3.is_bool(v):
                    v = If(v, bv(1, bits), bv(0, bits))
                if v.size() != bits:
                    v = simp(Extract(bits - 1, 0, v))
            return v
        if k == 'ptr':
            return self.load_bytes(st, p, 8, ins, ptr=True)
        if k in ('float', 'double'):
            return self.load_bytes(st, p, 4 if k == 'float' else 8, ins)
        raise Unsupported('load type %s' % (ty,))

    def load_bytes(self, st, p, size, ins=None, ptr=False):
        r = self.region(st, p, ins, 'read')
        if r.kind == 'vt':
            return self.vt_load(st, r, p)
        if r.kind == 'seq':
            return self.seq_load(st, p, r, size, ins)
        if not p.o.is_const():
            # array inside an ordinary object: enumerate
            return self.sym_load(st, p, r, size, ins)
        off = p.o.c
        if off < 0 or (r.size is not None and off + size > r.size):
            self.require(st, False, 'out-of-bounds', ins, 'read of %d bytes at offset %d of %s (size %s)' % (size, off, r.name, r.size))
            raise DeadPath()
        c = r.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if c is not None and isinstance(c[1], (Ptr, FnPtr)) and size == 8:
            return c[1]
        # compose
        bs = []
        for i in range(size):
            b = self.cell_byte(st, p.r, r, off + i)
            if not isinstance(b, z3.ExprRef):
                raise Unsupported('partial read of non-integer at %s+%d' % (r.name, off + i))
            bs.append(b)
        return simp(from_bytes(bs)) if size > 1 else bs[0]

    def cell_byte(self, st, rid, r, off):
        for o, (s, v) in r.cells.items():
            if o <= off < o + s:
                if not isinstance(v, z3.ExprRef):
                    return v
                if z3.is_bool(v):
                    v = If(v, bv(1, 8 * s), bv(0, 8 * s))
                k = off - o
                return simp(Extract(8 * k + 7, 8 * k, v))
        if off in r.objs:
            raise Unsupported('raw read of library object at %s+%d' % (r.name, off))
        if r.init:
            # lazily symbolic
            v = BitVec('%s[%d]' % (r.name, off), 8)
        else:
            v = BitVec(fresh_name('uninit'), 8)
        w = st.wr(rid)
        w.cells[off] = (1, v)
        return v

    def sym_load(self, st, p, r, size, ins):
        n = r.size // size if r.size else 0
        dm = p.o.divmod(size)
        if dm is None or n == 0 or n > 256:
            raise Unsupported('symbolic offset into %s' % r.name)
        idx, inner = dm
        self.require(st, ULT(idx.bv(), bv(n)), 'out-of-bounds', ins, 'index into %s' % r.name)
        res = None
        for i in range(n - 1, -1, -1):
            v = self.load_bytes(st, Ptr(p.r, i * size + inner), size, ins)
            res = v if res is None else vite(idx.bv() == bv(i), v, res)
        return res

    def seq_load(self, st, p, r, size, ins):
        dm = p.o.divmod(r.esz)
        if dm is None:
            raise Unsupported('unaligned symbolic offset %s in %s' % (p.o, r.name))
        idx, inner = dm
        sample_rec = self.is_class(r.et)
        if not sample_rec:
            if r.esz == size and inner == 0:
                self.require(st, ULT(idx.bv(), r.seq.len), 'out-of-bounds', ins, 'read of element %s of a sequence' % (idx,))
                return self.seq_at(r.seq, idx.bv())
            if size > r.esz and inner == 0:
                n = size // r.esz
                self.require(st, And(ULE((idx + n).bv(), r.seq.len), ULE(idx.bv(), r.seq.len)), 'out-of-bounds', ins, 'read of %d elements' % n)
                v = [self.seq_at(r.seq, (idx + i).bv()) for i in range(n)]
                return simp(Concat(*reversed(v)))
            self.require(st, ULT(idx.bv(), r.seq.len), 'out-of-bounds', ins, 'read of element')
            v = self.seq_at(r.seq, idx.bv())
            return simp(Extract(8 * (inner + size) - 1, 8 * inner, v))
        self.require(st, ULT(idx.bv(), r.seq.len), 'out-of-bounds', ins, 'read of element %s' % (idx,))
        e = self.seq_at(r.seq, idx.bv())
        if isinstance(e, Rec):
            if inner in e.f:
                v = e.f[inner]
                if isinstance(v, z3.ExprRef) and v.size() != size * 8:
                    if v.size() > size * 8:
                        return simp(Extract(size * 8 - 1, 0, v))
                    # adjacent fields
                    bs = []
                    o = inner
                    while len(bs) < size:
                        x = e.f.get(o)
                        if x is None:
                            raise Unsupported('wide read in element')
                        n = x.size() // 8
                        bs += u_bytes(x, n)
                        o += n
                    return simp(from_bytes(bs[:size]))
                return v
            for o, v in e.f.items():
                if o < inner and isinstance(v, z3.ExprRef) and z3.is_bv(v) and inner + size <= o + v.size() // 8:
                    return simp(Extract(8 * (inner - o + size) - 1, 8 * (inner - o), v))
            raise Unsupported('field +%d of %s' % (inner, r.et))
        if inner == 0 and size == 8:
            return e
        if inner == 8 and isinstance(e, Ptr):
            return NULL
        raise Unsupported('element read in %s' % r.et)

    def seq_at(self, seq, i):
        try:
            v = seq.at(i)
        except IndexError:
            raise DeadPath()
        return simp(v) if isinstance(v, z3.ExprRef) else v

    def is_class(self, et):
        k = self.prog.kind_of_type(et) if et else None
        if k is None and et in self.prog.layouts:
            return True
        return bool(k) and k[0] not in ('bv', 'ptr')

    def store(self, st, p, v, ty, ins=None):
        k = ty[0]
        if k in ('struct', 'named'):
            m = self.stack[-1].fn.module
            t = m.type(ty[1]) if k == 'named' else ty
            if isinstance(v, tuple):
                for i in range(len(t[1])):
                    off, et = m.field_off(t, i)
                    self.store(st, p.add(off), v[i], et, ins)
                return
            if v is UNDEF:
                return
        if v is UNDEF:
            if k == 'int':
                v = BitVec(fresh_name('undef'), max(8, ty[1]))
            else:
                return
        size = {'int': ((ty[1] + 7) // 8) if k == 'int' else 0, 'ptr': 8, 'float': 4, 'double': 8}.get(k)
        if size is None:
            raise Unsupported('store %s' % (ty,))
        if k == 'int' and isinstance(v, z3.ExprRef):
            if z3.is_bool(v):
                v = If(v, bv(1, 8), bv(0, 8))
            elif v.size() != size * 8:
                v = ZeroExt(size * 8 - v.size(), v)
            v = simp(v)
        self.store_bytes(st, p, v, size, ins)

    def store_bytes(self, st, p, v, size, ins=None):
        r = self.region(st, p, ins, 'write')
        if r.ro:
            self.require(st, False, 'write-to-constant', ins, 'write to constant storage %s' % r.name)
            raise DeadPath()
        if r.kind == 'seq':
            dm = p.o.divmod(r.esz)
            if dm is None:
                raise Unsupported('unaligned write')
            idx, inner = dm
            n = max(1, size // r.esz)
            self.require(st, And(ULE((idx + n).bv(), r.seq.len), ULT(idx.bv(), r.seq.len)), 'out-of-bounds', ins, 'write of element %s of a sequence' % (idx,))
            if self.is_class(r.et) or inner or size < r.esz:
                e = self.seq_at(r.seq, idx.bv())
                if isinstance(e, Rec) and inner in e.f:
                    f = dict(e.f); f[inner] = v
                    w = st.wr(p.r); w.seq = upd(r.seq, idx.bv(), Rec(e.cls, f))
                    return
                raise Unsupported('element write')
            w = st.wr(p.r)
            if n == 1:
                w.seq = upd(r.seq, idx.bv(), v)
            else:
                b = 8 * r.esz
                for i in range(n):
                    w.seq = upd(w.seq, (idx + i).bv(), simp(Extract(b * i + b - 1, b * i, v)))
            return
        if r.kind != 'mem':
            raise Unsupported('write to %s' % r.kind)
        if not p.o.is_const():
            n = r.size // size if r.size else 0
            dm = p.o.divmod(size)
            if dm is None or n == 0 or n > 128:
                raise Unsupported('symbolic offset write into %s' % r.name)
            idx, inner = dm
            self.require(st, ULT(idx.bv(), bv(n)), 'out-of-bounds', ins, 'index into %s' % r.name)
            for i in range(n):
                q = Ptr(p.r, i * size + inner)
                old = self.load_bytes(st, q, size, ins)
                self.put(st, q.r, i * size + inner, size, simp(vite(idx.bv() == bv(i), v, old)))
            return
        off = p.o.c
        if off < 0 or (r.size is not None and off + size > r.size):
            self.require(st, False, 'out-of-bounds', ins, 'write of %d bytes at offset %d of %s (size %s)' % (size, off, r.name, r.size))
            raise DeadPath()
        self.put(st, p.r, off, size, v)

    def put(self, st, rid, off, size, v):
        r = st.wr(rid)
        c = r.cells.get(off)
        if c is None or c[0] != size:
            # split overlapped cells
            for o in [o for o, (s, _) in r.cells.items() if o < off + size and off < o + s]:
                s, x = r.cells.pop(o)
                if o >= off and o + s <= off + size:
                    continue
                if not isinstance(x, z3.ExprRef):
                    continue
                for i in range(s):
                    if not off <= o + i < off + size:
                        r.cells[o + i] = (1, simp(Extract(8 * i + 7, 8 * i, x)))
        for o in [o for o in r.objs if off <= o < off + size]:
            del r.objs[o]
        r.cells[off] = (size, v)

    # ---------------------------------------------------------------- library objects
    def getobj(self, st, p, cls=None, ins=None, want=None):
        """abstract object at p (creating an empty one is the caller's business)"""
        r = self.region(st, p, ins, 'use')
        if r.kind == 'seq':
            dm = p.o.divmod(r.esz)
            if dm is None:
                raise Unsupported('object in sequence')
            idx, inner = dm
            mk = ('elt', p.r, id(r.seq), idx.key(), inner)
            if mk in st.memo:
                return st.memo[mk]
            self.require(st, ULT(idx.bv(), r.seq.len), 'out-of-bounds', ins, 'element %s' % (idx,))
            e = self.seq_at(r.seq, idx.bv())
            x = e.f.get(inner) if isinstance(e, Rec) else e
            if isinstance(x, Seq):
                kind = None
                if self.prog.kind_of_type(r.et) is None:
                    for o, k, n in self.prog.flat(r.et):
                        if o == inner:
                            kind = k
                else:
                    kind = self.prog.kind_of_type(r.et)
                if kind[0] == 'vec':
                    ob = VecObj(self.alloc_seq(st, x, kind[1], 'elt'), kind[1])
                else:
                    ob = StrObj(x)
                st.memo[mk] = ob
                _keep.append(r.seq)
                return ob
            return x
        if not p.o.is_const():
            raise Unsupported('object at symbolic offset')
        o = r.objs.get(p.o.c)
        if o is None:
            raise Unsupported('no library object at %s+%d' % (r.name, p.o.c))
        return o

    def setobj(self, st, p, ob, size=8):
        r = self.region(st, p, None, 'construct')
        if r.kind == 'seq':
            dm = p.o.divmod(r.esz)
            idx, inner = dm
            e = self.seq_at(r.seq, idx.bv())
            v = self.obj_value(st, ob)
            w = st.wr(p.r)
            if isinstance(e, Rec) and self.prog.kind_of_type(r.et) is None:
                f = dict(e.f); f[inner] = v
                w.seq = upd(r.seq, idx.bv(), Rec(e.cls, f))
            else:
                w.seq = upd(r.seq, idx.bv(), v)
            return
        if not p.o.is_const():
            raise Unsupported('object at symbolic offset')
        w = st.wr(p.r)
        w.objs[p.o.c] = ob

    def obj_value(self, st, ob):
        if isinstance(ob, VecObj):
            return st.mem[ob.rid].seq
        if isinstance(ob, StrObj):
            return ob.seq
        return ob

    def vec(self, st, p, ins=None):
        ob = self.getobj(st, p, ins=ins)
        if not isinstance(ob, VecObj):
            raise Unsupported('expected a vector')
        return ob

    def vseq(self, st, p, ins=None):
        return st.mem[self.vec(st, p, ins).rid].seq

    def set_vec(self, st, p, seq, et, realloc=True):
        """replace the content of the vector object at p; old storage dies"""
        try:
            old = self.getobj(st, p)
        except Unsupported:
            old = None
        if isinstance(old, VecObj) and st.mem[old.rid].live:
            w = st.wr(old.rid); w.live = False
        rid = self.alloc_seq(st, seq, et)
        self.setobj(st, p, VecObj(rid, et))
        return rid

    # typed object access through layouts -----------------------------------------------------------
    def read_kind(self, st, p, k):
        if k[0] == 'bv':
            return self.load_bytes(st, p, k[1] // 8)
        if k[0] in ('vec', 'str'):
            try:
                ob = self.getobj(st, p)
            except Unsupported:
                return UNDEF
            return self.obj_value(st, ob)
        if k[0] in ('sptr', 'wptr', 'uptr', 'ptr', 'vptr'):
            r = st.mem.get(p.r)
            if r is not None and r.kind == 'mem' and p.o.is_const() and p.o.c not in r.cells:
                return UNDEF
            return self.load_bytes(st, p, 8, ptr=True)
        try:
            return self.getobj(st, p)
        except Unsupported:
            return UNDEF

    def read_obj(self, st, p, cls):
        k = self.prog.kind_of_type(cls)
        if k:
            return self.read_kind(st, p, k)
        return Rec(cls, {o: self.read_kind(st, p.add(o), kk) for o, kk, n in self.prog.flat(cls) if kk[0] != 'vptr'})

    def write_kind(self, st, p, k, v):
        if v is UNDEF:
            return
        if k[0] == 'vec':
            self.set_vec(st, p, v, k[1])
        elif k[0] == 'str':
            self.setobj(st, p, StrObj(v))
        elif k[0] == 'bv':
            self.store_bytes(st, p, v, k[1] // 8)
        elif k[0] in ('sptr', 'wptr'):
            self.store_bytes(st, p, v, 8)
            self.store_bytes(st, p.add(8), NULL, 8)
        elif k[0] in ('uptr', 'ptr', 'vptr'):
            self.store_bytes(st, p, v, 8)
        else:
            self.setobj(st, p, v)

    def write_obj(self, st, p, cls, v):
        k = self.prog.kind_of_type(cls)
        if k:
            return self.write_kind(st, p, k, v)
        for o, kk, n in self.prog.flat(cls):
            if o in v.f:
                self.write_kind(st, p.add(o), kk, v.f[o])

    # ---------------------------------------------------------------- symbolic inputs
    def sym_seq(self, st, name, et):
        ln = BitVec(name + '.len', 64)
        st.pc.append(ULE(ln, bv(SYMLEN)))
        return self.sym_seq_at(name, et, ln, ())

    def sym_seq_at(self, name, et, ln, idx):
        """sequence whose elements are UFs of (idx..., i)"""
        k = self.prog.kind_of_type(et)
        dom = [BitVecSort(64)] * (len(idx) + 1)
        if k and k[0] == 'bv':
            f = Function(name, *(dom + [BitVecSort(k[1])]))
            return Sym(name, ln, lambda i: f(*(list(idx) + [i])), (name,) + tuple(vkey(x) for x in idx))
        return Sym(name, ln, lambda i: self.sym_val(name, et, tuple(idx) + (i,)), (name,) + tuple(vkey(x) for x in idx))

    def sym_val(self, name, et, idx):
        k = self.prog.kind_of_type(et)
        dom = [BitVecSort(64)] * len(idx)
        if k is None:
            return Rec(et, {o: self.sym_kind('%s.%s' % (name, n), kk, idx) for o, kk, n in self.prog.flat(et) if kk[0] != 'vptr'})
        return self.sym_kind(name, k, idx)

    def sym_kind(self, name, k, idx):
        dom = [BitVecSort(64)] * len(idx)
        if k[0] == 'bv':
            if len(k) > 2:
                return ZeroExt(7, Function(name, *(dom + [BitVecSort(1)]))(*idx) if idx else BitVec(name, 1))
            return Function(name, *(dom + [BitVecSort(k[1])]))(*idx) if idx else BitVec(name, k[1])
        if k[0] in ('vec', 'str'):
            et = k[1] if k[0] == 'vec' else 'char'
            # bounded length without side conditions: 36 bits
            lf = Function(name + '.len', *(dom + [BitVecSort(36)]))(*idx) if idx else BitVec(name + '.len', 36)
            return self.sym_seq_at(name, et, ZeroExt(28, lf), idx)
        if k[0] in ('sptr', 'wptr', 'uptr', 'ptr'):
            return self.pointee(k[1], '%s(%s)' % (name, ','.join(map(key_id, idx))), name, idx)
        if k[0] == 'fn':
            return FnObj(('sym', '%s(%s)' % (name, ','.join(map(key_id, idx)))))
        raise Unsupported('symbolic element of kind %s' % (k,))

    def pointee(self, cls, key, name, idx):
        """the object behind a pointer stored at index idx of a symbolic container; its members are functions of the index"""
        rid = 'ip:' + key
        self.pointees.setdefault(rid, (cls, name, idx))
        return Ptr(rid, 0)

    def make_pointee(self, st, rid):
        cls, name, idx = self.pointees[rid]
        r = Region('mem', self.prog.layouts[cls][0] if cls in self.prog.layouts else None, rid[3:], cls)
        r.init = True
        st.mem[rid] = r
        if cls not in self.prog.layouts:
            return r
        base = '*' + name
        for o, k, n in self.prog.flat(cls):
            p = Ptr(rid, o)
            nm = base + ('.' + n if n else '')
            if k[0] == 'vptr':
                self.store_bytes(st, p, Ptr('vt:' + cls, 0), 8)
            elif k[0] in ('bv', 'ptr', 'sptr', 'wptr', 'uptr', 'vec', 'str', 'fn'):
                self.write_kind(st, p, k, self.sym_kind(nm, k, idx))
            else:
                self.setobj(st, p, OpaqueObj(nm + rid))
        hook = self.pointee_hooks.get(cls) or POINTEE_HOOKS.get(cls)
        if hook:
            hook(self, st, Ptr(rid, 0))
        return st.mem[rid]

    def sym_obj(self, st, p, cls, name, skip=()):
        """fill the object at p with symbolic contents"""
        k = self.prog.kind_of_type(cls)
        items = [(0, k, '')] if k else self.prog.flat(cls)
        self.sym_chain = self.sym_chain + ((cls, p),)
        for o, kk, n in items:
            if n in skip:
                continue
            self.sym_field(st, p.add(o), kk, name + ('.' + n if n else ''))
        self.sym_chain = self.sym_chain[:-1]

    sym_chain = ()

    def sym_field(self, st, p, k, name):
        if k[0] == 'bv':
            # a bool is 0 or 1
            self.store_bytes(st, p, ZeroExt(7, BitVec(name, 1)) if len(k) > 2 else BitVec(name, k[1]), k[1] // 8)
        elif k[0] == 'vec':
            self.setobj(st, p, VecObj(self.alloc_seq(st, self.sym_seq(st, name, k[1]), k[1], name), k[1]))
        elif k[0] == 'str':
            self.setobj(st, p, StrObj(self.sym_seq(st, name, 'char')))
        elif k[0] in ('sptr', 'wptr', 'uptr', 'ptr'):
            self.store_bytes(st, p, self.sym_pointee(st, k[1], name), 8)
            if k[0] in ('sptr', 'wptr'):
                self.store_bytes(st, p.add(8), NULL, 8)
        elif k[0] == 'vptr':
            cls = st.mem[p.r].cls
            self.store_bytes(st, p, Ptr('vt:' + (cls or '?'), 0), 8)
        elif k[0] == 'fn':
            self.setobj(st, p, FnObj(('sym', name)))
        elif k[0] == 'map':
            self.setobj(st, p, self.models.sym_map(self, st, name, k[1]))
        else:
            self.setobj(st, p, OpaqueObj(name))

    def bool_fields(self, n):
        return ()

    def sym_pointee(self, st, cls, name):
        # an object reached from one of its own parts is that object (a child's owner, an owner's child)
        for c, p in self.sym_chain:
            if c == cls or c in self.subclasses(cls):
                return p
        rid = new_rid()
        r = Region('mem', None, '*' + name, cls)
        r.init = True
        st.mem[rid] = r
        if cls in self.prog.layouts:
            r.size = self.prog.layouts[cls][0]
            self.sym_obj(st, Ptr(rid, 0), cls, '*' + name)
        return Ptr(rid, 0)

    # ---------------------------------------------------------------- globals, vtables
    def find_global(self, name):
        for m in ([self.stack[-1].fn.module] if self.stack else []) + self.prog.modules:
            if name in m.globals:
                try:
                    t, v = m.global_init(name)
                except Exception:
                    continue
                if v is not None:
                    return m, t, v
        return None

    def global_region(self, st, rid):
        if rid in st.mem:
            return st.mem[rid]
        if rid.startswith('vt:'):
            r = Region('vt', None, rid)
            st.mem[rid] = r
            return r
        if rid.startswith('ip:'):
            return self.make_pointee(st, rid)
        if rid.startswith('me:'):
            from . import maps
            return maps.make_entry(self, st, rid)
        if rid.startswith('ms:'):
            from . import maps
            return maps.make_walk(self, st, rid)
        if rid.startswith('mapend:') or rid.startswith('mapnext:'):
            self.require(st, False, 'invalid-iterator', None, 'access through an iterator that denotes no entry')
            raise DeadPath()
        assert rid.startswith('g:'), rid
        name = rid[2:]
        fm = None
        if '@' in name and name.split('@')[0].isdigit():
            fm, name = name.split('@', 1)
        g = None
        if fm is not None:
            m = self.prog.modules[int(fm)]
            t, v = m.global_init(name)
            g = (m, t, v) if v is not None else None
        else:
            g = self.find_global(name)
        r = Region('mem', None, rid)
        st.mem[rid] = r
        if g is None:
            r.init = True
            r.size = 4096
            return r
        m, t, v = g
        r.size = m.size_align(t)[0]
        decl = m.globals[name]
        r.tag = 'const' if re.match(r'(?:[\w() ]+ )?(?:private |internal |linkonce_odr |weak_odr )?.*\bconstant\b', decl.split('"')[0]) and ' global ' not in decl.split('[')[0] else 'var'
        r.ro = r.tag == 'const'
        r.init = True
        if r.tag == 'var' and not name.startswith('_ZTV') and not name.startswith('_ZGV'):
            # mutable global: arbitrary value (history)
            return r
        self.init_cells(r, m, t, v, 0)
        return r

    def init_cells(self, r, m, t, v, off):
        if t[0] == 'named':
            t = m.type(t[1])
        if v[0] == 'zeroinitializer' or v[0] == 'null':
            n = m.size_align(t)[0]
            if t[0] == 'ptr':
                r.cells[off] = (8, NULL)
            else:
                o = off
                while o < off + n:
                    r.cells[o] = (1, bv(0, 8)); o += 1
            return
        if v[0] == 'bytes':
            for i, b in enumerate(v[1]):
                r.cells[off + i] = (1, bv(b, 8))
            return
        if v[0] == 'agg':
            if t[0] == 'struct':
                for i, (et, ev) in enumerate(v[1]):
                    o, _ = m.field_off(t, i)
                    self.init_cells(r, m, et, ev, off + o)
            elif t[0] in ('arr', 'vec'):
                s = m.size_align(t[2])[0]
                for i, (et, ev) in enumerate(v[1]):
                    self.init_cells(r, m, et, ev, off + i * s)
            return
        if v[0] in ('undef', 'poison'):
            return
        n = m.size_align(t)[0]
        r.cells[off] = (n, self.const(v, t, m))

    def const(self, v, t, m):
        k = v[0]
        if k == 'int':
            if t[0] == 'int' and t[1] == 1:
                return BoolVal(bool(v[1] & 1))
            return bv(v[1], t[1])
        if k == 'fp':
            return fp_const(v[1], t)
        if k == 'null':
            return NULL
        if k in ('undef', 'poison'):
            return UNDEF if t[0] != 'int' else BitVec(fresh_name('undef'), t[1]) if t[1] > 1 else z3.Bool(fresh_name('undef'))
        if k == 'zeroinitializer':
            if t[0] == 'named':
                t = m.type(t[1])
            if t[0] == 'struct':
                return tuple(self.const(v, e, m) for e in t[1])
            if t[0] == 'int':
                return bv(0, t[1])
            if t[0] == 'ptr':
                return NULL
            raise Unsupported('zeroinitializer %s' % (t,))
        if k == 'global':
            n = v[1]
            if n in m.funcs or n in m.declared or n in m.aliases or n in self.prog.sym:
                return FnPtr(n)
            if n.startswith('.') or (n in m.globals and re.match(r'(private|internal)', m.globals[n])):
                return Ptr('g:%d@%s' % (self.prog.modules.index(m), n), 0)
            return Ptr('g:' + n, 0)
        if k == 'cgep':
            _, bt, base, idx = v
            p = self.const(base, ('ptr',), m)
            return self.gep(p, bt, [(it, self.const(iv, it, m)) for it, iv in idx], m)
        if k == 'agg':
            return tuple(self.const(ev, et, m) for et, ev in v[1])
        if k == 'ccast':
            return self.const(v[3], v[2], m)
        raise Unsupported('constant %s' % (v,))

    def vt_slots(self, cls):
        """list of (mangled or None) for class vtable"""
        n = self.vt_name(cls)
        if n is None:
            return None
        g = self.find_global(n)
        if g is None:
            return None
        m, t, v = g
        return [x[1][1] if x[1][0] == 'global' else None for x in v[1][0][1][1]][2:]

    def vt_name(self, cls):
        for m in self.prog.modules:
            for g in m.globals:
                if g.startswith('_ZTV') and ir.dem1(g) == 'vtable for ' + cls:
                    if self.find_global(g):
                        return g
        return None

    def ti_bases(self, cls):
        for m in self.prog.modules:
            for g in m.globals:
                if g.startswith('_ZTI') and ir.dem1(g) == 'typeinfo for ' + cls:
                    try:
                        t, v = m.global_init(g)
                    except Exception:
                        continue
                    if v and v[0] == 'agg':
                        return [ir.dem1(x[1][1])[len('typeinfo for '):] for x in v[1][2:] if x[1][0] == 'global' and x[1][1].startswith('_ZTI')]
        return []

    def subclasses(self, cls):
        out = []
        seen = set()
        for m in self.prog.modules:
            for g in m.globals:
                if g.startswith('_ZTV') and g not in seen:
                    seen.add(g)
                    c = ir.dem1(g)[len('vtable for '):]
                    b = c
                    todo = [c]; vis = set()
                    while todo:
                        b = todo.pop()
                        if b == cls:
                            out.append(c); break
                        if b in vis:
                            continue
                        vis.add(b)
                        todo += self.ti_bases(b)
        return out

    def vt_load(self, st, r, p):
        exact = r.name.startswith('vt:=')
        cls = r.name[4:] if exact else r.name[3:]
        if not p.o.is_const():
            raise Unsupported('vtable index')
        slot = p.o.c // 8
        if not hasattr(self.prog, '_vts'):
            self.prog._vts = {}
        key = (cls, slot, exact)
        if key in self.prog._vts:
            return self.prog._vts[key]
        s = self.vt_slots(cls)
        res = None
        # virt:<static class>|<1 if implementations differ>|<an implementation>
        if s and s[slot] and s[slot] != '__cxa_pure_virtual':
            impl = set()
            for c in self.subclasses(cls):
                q = self.vt_slots(c)
                impl.add(q[slot] if q and slot < len(q) else None)
            if exact:
                res = FnPtr(s[slot])
            elif impl == {s[slot]}:
                # every class of the program derived from this one has the same implementation; an abstract contract takes precedence
                res = FnPtr('virt:%s|0|%s' % (cls, s[slot]))
            else:
                res = FnPtr('virt:%s|%d|%s' % (cls, len(self.subclasses(cls)) > 1, s[slot]))
        else:
            for c in self.subclasses(cls):
                s = self.vt_slots(c)
                if s and slot < len(s) and s[slot] and s[slot] != '__cxa_pure_virtual':
                    res = FnPtr('virt:%s|1|%s' % (cls, s[slot]))
                    break
        if res is None and exc_isa(cls, 'std::exception') and slot == 2:
            res = FnPtr('_ZNKSt9exception4whatEv')
        if res is None:
            raise Unsupported('virtual call on %s slot %d' % (cls, slot))
        self.prog._vts[key] = res
        return res

    # ---------------------------------------------------------------- GEP
    def gep(self, p, bt, idx, m):
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        off = p.o
        t = bt
        first = True
        for it, iv in idx:
            if first:
                s = m.size_align(t)[0]
                off = off + sext_lin(iv).scale(s)
                first = False
                continue
            if t[0] == 'named':
                t = m.type(t[1])
            if t[0] == 'struct':
                o, t = m.field_off(t, const_of(iv))
                off = off + o
            elif t[0] in ('arr', 'vec'):
                s = m.size_align(t[2])[0]
                off = off + sext_lin(iv).scale(s)
                t = t[2]
            else:
                raise Unsupported('gep into %s' % (t,))
        return Ptr(p.r, off)

    # ---------------------------------------------------------------- execution
    def run(self, st, mangled, args, ins=None, module=None):
        """execute a function body; -> [(state, outcome)]"""
        fn = self.prog.function(mangled, module)
        if fn is None:
            raise Unsupported('no body for %s' % ir.dem1(mangled))
        fn.parse()
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        if sum(1 for f in self.stack if f.fn is fn) > 2:
            raise Unsupported('recursion in %s' % ir.dem1(mangled))
        fr = Frame()
        fr.fn = fn; fr.dem = ir.dem1(mangled); fr.depth = len(self.stack)
        env = {}
        for (t, at, nm), v in zip(fn.params, args):
            if 'byval' in at:
                # callee-owned copy
                size = fn.module.size_align(at['byval'])[0]
                q = self.alloc(st, size, 'byval')
                self.copy_mem(st, q, v, size)
                v = q
            if nm is not None:
                env[nm] = v
        self.stack.append(fr)
        try:
            out = self.run_blocks(fn, st, env, fn.order[0], None, None)
        finally:
            self.stack.pop()
        res = []
        for s, o, e in out:
            for rid in e.get('%allocas', ()):
                s.mem.pop(rid, None)
            res.append((s, o))
        return res

    def run_blocks(self, fn, st, env, block, prev, within, skip_header=False, until=None):
        """execute from block until return/throw; with `within`=(header, body) also stop at back edges / exits of that loop.
        -> list of (state, outcome, env); outcome ('ret',v) | ('throw',exc) | ('back',) | ('exit', block, prev)"""
        work = [(st, env, block, prev, skip_header)]
        out = []
        steps = 0
        while work:
            st, env, block, prev, skip = work.pop()
            steps += 1
            if steps > self.max_paths * 20 or len(out) > self.max_paths:
                raise Unsupported('too many paths in %s' % short(ir.dem1(fn.name)))
            if until is not None and block == until:
                out.append((st, ('join', prev), env)); continue
            if within is not None and not skip:
                h, body = within
                if block == h:
                    out.append((st, ('back', prev), env)); continue
                if block not in body:
                    out.append((st, ('exit', block, prev), env)); continue
            if block in fn.loops and not skip and not (within is not None and within[0] == block):
                from . import loops
                for (s, o, e) in loops.do_loop(self, fn, st, env, block, prev):
                    if o[0] == 'exit':
                        work.append((s, e, o[1], o[2], False))
                    else:
                        out.append((s, o, e))
                continue
            try:
                self.exec_block(fn, st, env, block, prev, work, out)
            except DeadPath:
                continue
        return out

    def exec_block(self, fn, st, env, block, prev, work, out):
        m = fn.module
        self.phis(fn, env, block, prev)
        self._exec_from(fn, st, env, block, self.nphis(fn, block), work, out)

    def nphis(self, fn, block):
        i = 0
        while fn.blocks[block][i].op == 'phi':
            i += 1
        return i

    def phis(self, fn, env, block, prev):
        m = fn.module
        new = {}
        for ins in fn.blocks[block][:self.nphis(fn, block)]:
            t, inc = ins.a
            for v, b in inc:
                if b == prev:
                    new[ins.res] = self.val(v, t, env, m)
                    break
            else:
                raise Unsupported('phi')
        env.update(new)

    def _exec_from(self, fn, st, env, block, i, work, out):
        m = fn.module
        instrs = fn.blocks[block]
        n = len(instrs)
        while i < n:
            ins = instrs[i]
            op = ins.op
            if op == 'call' or op == 'invoke':
                rs = self.do_call(fn, st, env, ins)
                last = len(rs) - 1
                if op == 'invoke':
                    for j, (s, o) in enumerate(rs):
                        e = env if j == last else dict(env)
                        if o[0] == 'ret':
                            if ins.res:
                                e[ins.res] = o[1]
                            work.append((s, e, ins.a[3], block, False))
                        else:
                            e['%exc'] = o[1]
                            work.append((s, e, ins.a[4], block, False))
                    return
                for j, (s, o) in enumerate(rs):
                    e = env if j == last else dict(env)
                    if o[0] == 'throw':
                        out.append((s, o, e))
                        continue
                    if ins.res:
                        e[ins.res] = o[1]
                    if j != last:
                        try:
                            self._exec_from(fn, s, e, block, i + 1, work, out)
                        except DeadPath:
                            pass
                if not rs or rs[last][1][0] == 'throw':
                    return
                st = rs[last][0]
                i += 1
                continue
            if op == 'br':
                if len(ins.a) == 1:
                    work.append((st, env, ins.a[0], block, False))
                    return
                c = self.val(ins.a[0], ('int', 1), env, m)
                alts = [(c, ins.a[1]), (Not(c), ins.a[2])]
                if self.merging:
                    from . import merge
                    if merge.try_branch(self, fn, st, env, alts, block, work, out):
                        return
                self.branch(st, env, alts, block, work)
                return
            if op == 'switch':
                t, v, d, cases = ins.a
                x = self.val(v, t, env, m)
                alts = []
                neg = []
                tgt = {}
                for cv, b in cases:
                    c = x == bv(cv, t[1])
                    neg.append(Not(c))
                    tgt.setdefault(b, []).append(c)
                alts = [(Or(cs) if len(cs) > 1 else cs[0], b) for b, cs in tgt.items()]
                alts.append((And(neg) if neg else BoolVal(True), d))
                self.branch(st, env, alts, block, work)
                return
            if op == 'ret':
                t, v = ins.a
                out.append((st, ('ret', None if v is None else self.val(v, t, env, m)), env))
                return
            if op == 'unreachable':
                return
            if op == 'resume':
                exc = env.get('%exc')
                out.append((st, ('throw', exc), env))
                return
            try:
                self.simple(fn, st, env, ins, m)
            except PropagateExc:
                out.append((st, ('throw', env.get('%exc')), env))
                return
            i += 1

    def ir_dem(self, mangled):
        return ir.dem1(mangled)

    def quiet_loops(self):
        return bool(self.summaries)

    def branch(self, st, env, alts, block, work):
        feas = []
        if self.watches:
            w = self.watches[-1]
            if w.state is None and w.fn is self.stack[-1].fn and block in w.body:
                # decided by constants only if no symbolic decision precedes the first exit test
                if not any(is_true(simplify(c)) for c, b in alts):
                    w.state = 'symbolic'
                elif any(b not in w.body for c, b in alts):
                    w.state = 'literal'
        for c, b in alts:
            c = simplify(c)
            if is_false(c):
                continue
            if is_true(c):
                feas = [(c, b)]
                break
            feas.append((c, b))
        if len(feas) > 1:
            feas = [(c, b) for c, b in feas if self.smt.feasible(st.pc, c)]
        for j, (c, b) in enumerate(feas):
            last = j == len(feas) - 1
            s = st if last else st.clone()
            e = env if last else dict(env)
            if not is_true(c):
                s.pc.append(c)
            work.append((s, e, b, block, False))

    def val(self, v, t, env, m):
        if v[0] == 'local':
            try:
                return env[v[1]]
            except KeyError:
                raise Unsupported('undefined %%%s' % v[1])
        return self.const(v, t, m)

    # ---------------------------------------------------------------- simple instructions
    def simple(self, fn, st, env, ins, m):
        op = ins.op
        a = ins.a
        if op == 'alloca':
            t, n = a
            size = m.size_align(t)[0]
            if n is not None:
                c = const_of(self.val(n[1], n[0], env, m))
                if c is None:
                    raise Unsupported('dynamic alloca')
                size *= c
            p = self.alloc(st, size, 'local %' + ins.res)
            env[ins.res] = p
            env.setdefault('%allocas', ())
            env['%allocas'] += (p.r,)
            return
        if op == 'load':
            p = self.val(a[1], ('ptr',), env, m)
            env[ins.res] = self.load(st, p, a[0], ins)
            return
        if op == 'store':
            v = self.val(a[1], a[0], env, m)
            p = self.val(a[2], ('ptr',), env, m)
            self.store(st, p, v, a[0], ins)
            return
        if op == 'getelementptr':
            p = self.val(a[1], ('ptr',), env, m)
            env[ins.res] = self.gep(p, a[0], [(it, self.val(iv, it, env, m)) for it, iv in a[2]], m)
            return
        if op == 'icmp':
            pr, t, x, y = a
            env[ins.res] = self.icmp(st, pr, self.val(x, t, env, m), self.val(y, t, env, m), ins)
            return
        if op == 'fcmp':
            pr, t, x, y = a
            f = Function('fcmp_%s_%s' % (pr, t[0]), BitVecSort(fsz(t)), BitVecSort(fsz(t)), z3.BoolSort())
            env[ins.res] = f(self.val(x, t, env, m), self.val(y, t, env, m))
            return
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            t, x, y, fl = a
            env[ins.res] = self.binop(st, op, t, self.val(x, t, env, m), self.val(y, t, env, m), fl, ins)
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t, x, y, fl = a
            env[ins.res] = fop(op, t, self.val(x, t, env, m), self.val(y, t, env, m))
            return
        if op == 'fneg':
            t, x = a
            v = self.val(x, t, env, m)
            env[ins.res] = v ^ bv(1 << (fsz(t) - 1), fsz(t))
            return
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            t, x, d = a
            env[ins.res] = self.cast(st, op, t, self.val(x, t, env, m), d, ins)
            return
        if op == 'select':
            c, t, x, y = a
            cv = simplify(self.val(c, ('int', 1), env, m))
            env[ins.res] = vite(cv, self.val(x, t, env, m), self.val(y, t, env, m)) if not (is_true(cv) or is_false(cv)) else self.val(x if is_true(cv) else y, t, env, m)
            return
        if op == 'extractvalue':
            t, x, idx = a
            v = self.val(x, t, env, m)
            for j in idx:
                v = v[j]
            env[ins.res] = v
            return
        if op == 'insertvalue':
            t, x, et, e, idx = a
            v = self.val(x, t, env, m)
            if v is UNDEF:
                tt = m.type(t[1]) if t[0] == 'named' else t
                v = tuple([UNDEF] * len(tt[1]))
            if len(idx) != 1:
                raise Unsupported('insertvalue')
            l = list(v)
            l[idx[0]] = self.val(e, et, env, m)
            env[ins.res] = tuple(l)
            return
        if op == 'freeze':
            env[ins.res] = self.val(a[1], a[0], env, m)
            return
        if op == 'landingpad':
            exc = env.get('%exc')
            sel = 0
            t, cleanup, clauses = a
            hit = False
            for kind, v in clauses:
                if kind != 'catch':
                    continue
                if v[0] == 'null':
                    sel = 0x7fff; hit = True
                    break
                c = ir.dem1(v[1])[len('typeinfo for '):]
                if exc_isa(exc.cls, c):
                    sel = ti_id(v[1]); hit = True
                    break
            if not hit and not cleanup:
                # not for us: propagate
                raise PropagateExc()
            env[ins.res] = (('excptr', exc), bv(sel, 32))
            return
        raise Unsupported('instruction %s' % op)

    def binop(self, st, op, t, x, y, fl, ins):
        n = t[1]
        if n == 1:
            x = x if z3.is_bool(x) else x == bv(1, 1)
            y = y if z3.is_bool(y) else y == bv(1, 1)
            return simplify({'and': And, 'or': Or, 'xor': z3.Xor}[op](x, y))
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.r == y.r:
                    return Diff((x.o - y.o)).bv()
                raise Unsupported('pointer difference across objects')
            if op == 'add' and isinstance(x, Ptr) and not isinstance(y, Ptr):
                return x.add(y)
            raise Unsupported('arithmetic on pointers')
        if 'nsw' in fl and self.repo_code():
            if op == 'add' and counter_step(x, y):
                st.pc.append(z3.BVAddNoOverflow(x, y, True))
            elif op == 'add':
                self.require(st, And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)), 'signed-overflow', ins, 'signed addition overflows')
            elif op == 'sub':
                self.require(st, And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)), 'signed-overflow', ins, 'signed subtraction overflows')
            elif op == 'mul':
                self.require(st, And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)), 'signed-overflow', ins, 'signed multiplication overflows')
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.require(st, y != bv(0, n), 'division-by-zero', ins, 'division by zero')
            c = const_of(simp(y))
            if op in ('sdiv', 'srem') and c and c & (c - 1) == 0 and c < 1 << (n - 1) and leading_zero(x):
                k = c.bit_length() - 1
                if op == 'sdiv':
                    return simp(z3.LShR(x, bv(k, n)))
                return simp(ZeroExt(n - k, Extract(k - 1, 0, x))) if k else bv(0, n)
            if op == 'sdiv':
                if 'exact' in fl and c and n == 64:
                    dm = Lin.of(x).divmod(c)
                    if dm and dm[1] == 0:
                        return simp(dm[0].bv())
                r = x / y
            else:
                r = {'udiv': z3.UDiv, 'urem': z3.URem, 'srem': z3.SRem}[op](x, y)
            return simp(r)
        if op in ('shl', 'lshr', 'ashr') and self.repo_code():
            self.require(st, ULT(y, bv(n, n)), 'shift-range', ins, 'shift amount out of range')
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y),
             'ashr': lambda: x >> y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]()
        return simp(r)

    def repo_code(self):
        if not self.stack:
            return False
        f = self.stack[-1]
        d = f.dem
        return 'eipScanner' in d and not re.match(r'(?:[\w:<>\s\*&]+ )?std::', d)

    def icmp(self, st, pr, x, y, ins):
        if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)):
            return self.picmp(st, pr, x, y, ins)
        if x is UNDEF or y is UNDEF:
            return z3.Bool(fresh_name('undef'))
        if z3.is_bool(x) or z3.is_bool(y):
            x = x if z3.is_bool(x) else x == bv(1, 1)
            y = y if z3.is_bool(y) else y == bv(1, 1)
            return simplify(x == y if pr == 'eq' else z3.Xor(x, y))
        return simplify({'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: ULT(x, y), 'ule': lambda: ULE(x, y), 'ugt': lambda: UGT(x, y),
                         'uge': lambda: UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pr]())

    def picmp(self, st, pr, x, y, ins):
        if isinstance(x, z3.ExprRef) and const_of(x) == 0:
            x = NULL
        if isinstance(y, z3.ExprRef) and const_of(y) == 0:
            y = NULL
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            same = isinstance(x, FnPtr) and isinstance(y, FnPtr) and x.name == y.name
            return BoolVal(same if pr == 'eq' else not same)
        if x.r != y.r:
            if pr in ('eq', 'ne'):
                return BoolVal(pr == 'ne')
            raise Unsupported('ordering of pointers into different objects')
        d = x.o - y.o
        if d.is_const():
            c = d.c
            return BoolVal({'eq': c == 0, 'ne': c != 0, 'ult': c < 0, 'ule': c <= 0, 'ugt': c > 0, 'uge': c >= 0, 'slt': c < 0}[pr])
        import math
        g = 0
        for i, (e, c) in d.t.items():
            g = math.gcd(g, abs(c))
        if g > 1:
            if d.c % g:
                if pr in ('eq', 'ne'):
                    return BoolVal(pr == 'ne')
            else:
                d = Lin(d.c // g, {i: (e, c // g) for i, (e, c) in d.t.items()})
        # split positive and negative parts: p >= 0, n >= 0
        pos = Lin(max(d.c, 0), {i: v for i, v in d.t.items() if v[1] > 0})
        neg = Lin(max(-d.c, 0), {i: (v[0], -v[1]) for i, v in d.t.items() if v[1] < 0})
        p, n = pos.bv(), neg.bv()
        return simplify({'eq': lambda: p == n, 'ne': lambda: p != n, 'ult': lambda: p < n, 'ule': lambda: p <= n,
                         'ugt': lambda: p > n, 'uge': lambda: p >= n, 'slt': lambda: p < n}[pr]())

    def cast(self, st, op, t, v, d, ins):
        if v is UNDEF:
            return UNDEF
        if op in ('zext', 'sext'):
            n = d[1]
            if z3.is_bool(v):
                return simplify(If(v, bv(1 if op == 'zext' else -1, n), bv(0, n)))
            return simp((ZeroExt if op == 'zext' else SignExt)(n - v.size(), v))
        if op == 'trunc':
            if isinstance(v, Ptr):
                raise Unsupported('truncated pointer')
            if d[1] == 1:
                return simplify(Extract(0, 0, v) == bv(1, 1))
            return simp(Extract(d[1] - 1, 0, v))
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if op == 'inttoptr' and isinstance(v, z3.ExprRef):
                if const_of(v) == 0:
                    return NULL
                raise Unsupported('inttoptr')
            return v
        if op in ('sitofp', 'uitofp'):
            return int2fp(op, v, d)
        if op in ('fptosi', 'fptoui'):
            return Function('%s_%s_%d' % (op, t[0], d[1]), BitVecSort(fsz(t)), BitVecSort(d[1]))(v)
        if op in ('fpext', 'fptrunc'):
            return Function('%s_%s' % (op, d[0]), BitVecSort(fsz(t)), BitVecSort(fsz(d)))(v)
        raise Unsupported('cast ' + op)

    # ---------------------------------------------------------------- memory copies
    def copy_mem(self, st, dst, src, size, ins=None):
        """size: python int"""
        rs = self.region(st, src, ins, 'read')
        rd_ = self.region(st, dst, ins, 'write')
        if size == 0:
            return
        if rs.kind == 'seq' or rd_.kind == 'seq' or not src.o.is_const() or not dst.o.is_const():
            for i in range(0, size):
                b = self.load_bytes(st, src.add(i), 1, ins)
                self.store_bytes(st, dst.add(i), b, 1, ins)
            return
        so, do = src.o.c, dst.o.c
        if so < 0 or do < 0 or (rs.size is not None and so + size > rs.size) or (rd_.size is not None and do + size > rd_.size):
            self.require(st, False, 'out-of-bounds', ins, 'copy of %d bytes' % size)
            raise DeadPath()
        cells = []
        covered = set()
        for o, (s, v) in rs.cells.items():
            if o >= so and o + s <= so + size:
                cells.append((o - so + do, s, v))
                covered.update(range(o, o + s))
        objs = [(o - so + do, v) for o, v in rs.objs.items() if so <= o < so + size]
        partial = [o for o, (s, v) in rs.cells.items() if o < so + size and so < o + s and not (o >= so and o + s <= so + size)]
        for o in partial:
            s, v = rs.cells[o]
            for i in range(s):
                if so <= o + i < so + size:
                    cells.append((o + i - so + do, 1, simp(Extract(8 * i + 7, 8 * i, v))))
                    covered.add(o + i)
        if rs.init and not objs:
            for o in range(so, so + size):
                if o not in covered:
                    cells.append((o - so + do, 1, self.cell_byte(st, src.r, rs, o)))
        w = st.wr(dst.r)
        for o in [o for o, (s, _) in w.cells.items() if o < do + size and do < o + s]:
            s, x = w.cells.pop(o)
            if isinstance(x, z3.ExprRef):
                for i in range(s):
                    if not do <= o + i < do + size:
                        w.cells[o + i] = (1, simp(Extract(8 * i + 7, 8 * i, x)))
        for o in [o for o in w.objs if do <= o < do + size]:
            del w.objs[o]
        for o, s, v in cells:
            w.cells[o] = (s, v)
        for o, v in objs:
            w.objs[o] = v

    # ---------------------------------------------------------------- calls
    def do_call(self, fn, st, env, ins):
        rt, callee, args, norm, unw, attrs = ins.a
        m = fn.module
        vals = [self.val(v, t, env, m) if v is not None else None for t, v, at in args]
        if callee[0] == 'asm':
            raise Unsupported('inline assembly')
        if callee[0] == 'local':
            f = env[callee[1]]
            if not isinstance(f, FnPtr):
                raise Unsupported('indirect call through %r' % (f,))
            name = f.name
        else:
            name = callee[1]
        # by-value struct arguments: callee gets its own copy
        for i, (t, v, at) in enumerate(args):
            if 'byval' in at:
                pass
        return self.call(st, name, vals, rt, ins, m, [at for _, _, at in args])

    def call(self, st, name, args, rt=None, ins=None, module=None, attrs=None):
        if name.startswith('llvm.'):
            return self.models.intrinsic(self, st, name, args, ins)
        virt = name.startswith('virt:')
        if virt:
            vcls, many, name = name[5:].split('|')
            dem = ir.dem1(name)
            meth = self.models.method_part(dem)
            vdem = 'virt %s::%s' % (vcls, meth)
            if vdem in self.contracts:
                self.used_contracts.add(vdem)
                if os.environ.get('VTRACE'):
                    print('  ' * len(self.stack) + 'contract', vdem)
                return self.contracts[vdem].apply(self, st, args, ins, rt)
            virt = many == '1'
        dem = ir.dem1(name)
        c = self.contracts.get(dem)
        if c is not None and not (dem == self.target and name != self.target_mangled and len(self.stack) <= 2 and not virt):
            if self.inline_set and dem in self.inline_set:
                pass
            else:
                self.used_contracts.add(dem)
                if os.environ.get('VTRACE'):
                    print('  ' * len(self.stack) + 'contract', dem)
                return c.apply(self, st, args, ins, rt)
        if virt and dem not in self.virtual_ok:
            raise Unsupported('virtual call to %s without a contract' % dem)
        mod = self.models.lookup(dem, name)
        if mod is not None:
            self.used_models.add(self.models.label(dem))
            if os.environ.get('VTRACE'):
                print('  ' * len(self.stack) + 'model', dem)
            r = mod(self, st, args, ins, dem)
            if isinstance(r, list):
                return r
            return [(st, ('ret', r))]
        if self.prog.function(name, module) is not None:
            if dem.startswith('eipScanner') or 'eipScanner::' in dem.split('(')[0]:
                self.inlined.add(dem)
            if os.environ.get('VTRACE'):
                print('  ' * len(self.stack) + 'inline', dem)
            return self.run(st, name, args, ins, module)
        raise Unsupported('call to %s' % dem)

    inline_set = None
    target_mangled = None
    virtual_ok = set()


class DeadPath(Exception):
    pass


class PropagateExc(Exception):
    pass


def short(d):
    d = re.sub(r'std::vector<([\w: ]+), std::allocator<\1 ?> ?>', r'vector<\1>', d)
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string')
    return d if len(d) < 200 else d[:200] + '…'


def fsz(t):
    return 32 if t[0] == 'float' else 64


def fp_const(s, t):
    import struct
    if s.startswith('0x'):
        b = int(s, 16)
        if t[0] == 'float':
            d = struct.unpack('<d', struct.pack('<Q', b))[0]
            return bv(struct.unpack('<I', struct.pack('<f', d))[0], 32)
        return bv(b, 64)
    d = float(s)
    if t[0] == 'float':
        return bv(struct.unpack('<I', struct.pack('<f', d))[0], 32)
    return bv(struct.unpack('<Q', struct.pack('<d', d))[0], 64)


def fop(op, t, x, y):
    n = fsz(t)
    f = Function('%s_%d' % (op, n), BitVecSort(n), BitVecSort(n), BitVecSort(n))
    if op in ('fadd', 'fmul'):
        # IEEE addition and multiplication are commutative: order the operands
        if x.get_id() > y.get_id():
            x, y = y, x
        _keep.append(x); _keep.append(y)
    return f(x, y)


def int2fp(op, v, d):
    """exact conversions are identified: the integer is first extended to 64 bits signed"""
    n = v.size()
    if n > 32 and op == 'uitofp':
        return Function('uitofp_%d_%s' % (n, d[0]), BitVecSort(n), BitVecSort(fsz(d)))(v)
    w = simp((SignExt if op == 'sitofp' else ZeroExt)(64 - n, v)) if n < 64 else v
    c = const_of(w)
    if c is not None:
        return fp_const(repr(float(signed(c))), d)
    return Function('int2fp_%s' % d[0], BitVecSort(64), BitVecSort(fsz(d)))(w)


_ti = {}


def ti_id(n):
    if n not in _ti:
        _ti[n] = len(_ti) + 1
    return _ti[n]


def sext_lin(v):
    if isinstance(v, int):
        return Lin(v)
    if v.size() < 64:
        v = SignExt(64 - v.size(), v)
    return Lin.of(v)


class Diff:
    def __init__(self, l):
        self.l = l

    def bv(self):
        return simp(self.l.bv())
