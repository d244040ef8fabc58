"""Contracts: executable specifications of repo functions, their application at call sites and their verification.

A contract is a Python function that transforms an abstract state (fields of objects, event trace, outcome).  It is the
postcondition + frame condition of the function: everything it does not change must stay unchanged.  `verify` executes the
compiled body on arbitrary inputs and discharges, for every path, that outcome, memory and trace equal the contract's.
`apply` uses the contract in place of the body at call sites."""
import os, json, time
import z3
from z3 import And, Or, Not, If, BoolVal, ULT, ULE, UGE, UGT, Extract, ZeroExt, SignExt, is_true, is_false, simplify
from . import ir
from .vals import *
from .vals import _keep
from .fpreal import real_equal
from .sx import *
from . import maps
from .models import parse_dem, norm_t, Event, mk_exc, emit, evf, clobber_errno, recv_data, fn_set


class SpecThrow(Exception):
    def __init__(self, exc):
        self.exc = exc


class Havoc:
    """unspecified value"""
    def __repr__(self):
        return 'havoc'

    def key(self):
        return ('havoc', id(self))


HAVOC = Havoc()


class HavocObj(Havoc):
    def __init__(self, kind):
        self.kind = kind


class Flat(Seq):
    """concatenation of item(0) .. item(k-1)"""

    def __init__(self, uid, k, item, wide=False, bits=8):
        self.uid = uid; self.k = k; self.item = item; self.wide = wide; self.bits = bits
        self.len = Function('flatlen!%s' % (uid,), BitVecSort(64), BitVecSort(64))(k)

    def at(self, i):
        if self.wide:
            raise Unsupported('element of an iterated sequence of records')
        return Function('flatat!%s' % (self.uid,), BitVecSort(64), BitVecSort(64), BitVecSort(self.bits))(self.k, i)

    def same_as(self, o):
        """a sufficient condition for equality, None if there is none"""
        return self.k == o.k if self.wide and isinstance(o, Flat) and self.uid == o.uid else None

    def _mkkey(self):
        return ('flat', self.uid, vkey(self.k))


class LoopTrace:
    """events of iterations 0..k-1 of a specified loop"""
    kind = 'loop'

    def __init__(self, uid, k):
        self.uid = uid; self.k = k

    def __repr__(self):
        return 'LoopTrace(%s,%s)' % (self.uid, self.k)


class LoopSpec:
    """iterated state: bv components (recurrences), accumulated sequences, explicit functions of k"""

    def __init__(self, uid, name, bvs, accs, funs, step, stop, events, inv, evt0, evtc, trace0):
        self.uid = uid; self.name = name; self.bvs = bvs; self.accs = accs; self.funs = funs
        self.step = step; self.stopf = stop; self.events = events; self.invf = inv
        self.evt0 = evt0; self.evtc = evtc; self.trace0 = trace0
        self.K = None           # the number of iterations, where later parts of the specification refer to it
        self.inner = False      # runs inside one step of another loop
        self.outer = False

    def bvfun(self, c):
        return Function('loop!%s.%s' % (self.uid, c), BitVecSort(64), BitVecSort(self.bvs[c].size()))

    def X(self, k):
        """state at iteration k"""
        X = {}
        kc = const_of(simp(k))
        for c, v0 in self.bvs.items():
            X[c] = v0 if kc == 0 else self.bvfun(c)(k)
        X['%evt'] = simp((self.evt0 + Lin.of(k).scale(self.evtc)).bv())
        for c in self.accs:
            X[c] = None
        return X

    def acc(self, c, k):
        kc = const_of(simp(k))
        if kc == 0:
            return self.accs[c]
        # canonical form: unfold k = j + 1
        l = Lin.of(k)
        if l.c == 1 and l.t:
            j = (l - 1).bv()
            return cat(self.acc(c, j), self.item(c, j))
        return cat(self.accs[c], self._accseq(c, k))

    def _accseq(self, c, k):
        et = self.accet.get(c)
        uid = '%s.%s' % (self.uid, c)
        if et == 'one':
            # every iteration appends exactly one element: an indexable image
            return MapSeq(uid, k, lambda i: self.item(c, i).els[0], (uid,))
        return Flat(uid, simp(k), lambda i: self.item(c, i), et == 'rec', et if isinstance(et, int) else 8)

    accet = {}

    def item(self, c, k):
        return self.step(self.X(k), k)[c]

    def value(self, c, k):
        if c in self.bvs:
            kc = const_of(simp(k))
            return self.bvs[c] if kc == 0 else self.bvfun(c)(k)
        if c in self.accs:
            return self.acc(c, k)
        return self.funs[c](self.X(k), k)

    def next(self, c, k):
        """value after iteration k, in terms of the state at k"""
        if c in self.bvs:
            return simp(self.step(self.X(k), k)[c])
        if c in self.accs:
            return cat(self.acc(c, k), self.item(c, k))
        X1 = self.X(simp(k + 1))
        X0 = self.step(self.X(k), k)
        for b in self.bvs:
            X1[b] = simp(X0[b])
        return self.funs[c](X1, simp(k + 1))

    def axioms(self, k):
        """base case of the recurrences, lengths"""
        ax = []
        for c in self.bvs:
            ax.append(self.bvfun(c)(bv(0)) == self.bvs[c])
        for c in self.accs:
            if self.accet.get(c) != 'one':
                f = Function('flatlen!%s.%s' % (self.uid, c), BitVecSort(64), BitVecSort(64))
                ax.append(f(bv(0)) == bv(0))
                ax.append(ULE(f(k), bv(SYMLEN)))
        return ax

    def unfold(self, k):
        ax = []
        if self.step is None:
            return ax
        st = self.step(self.X(k), k)
        for c in self.bvs:
            ax.append(self.bvfun(c)(simp(k + 1)) == st[c])
        for c in self.accs:
            if self.accet.get(c) != 'one':
                f = Function('flatlen!%s.%s' % (self.uid, c), BitVecSort(64), BitVecSort(64))
                ax.append(f(simp(k + 1)) == f(k) + st[c].len)
        return ax

    def stop(self, k):
        return simplify(self.stopf(self.X(k), k))

    def inv(self, k):
        if self.invf is None:
            return []
        return [simplify(x) for x in self.invf(self.X(k), k)]


_uids = {}
_uidkeep = []


def loop_uid(name, bvs, accs, salt, evt0):
    key = (name, tuple((c, vkey(v)) for c, v in sorted(bvs.items())), tuple((c, v.key()) for c, v in sorted(accs.items())), evt0.key() if evt0 is not None else None, tuple(vkey(x) for x in salt))
    _uidkeep.append((bvs, accs, salt))
    return '%s%d' % (name, uid_of(key))


def uid_of(key):
    if key not in _uids:
        _uids[key] = len(_uids)
    return _uids[key]


def fields_of(prog, cls):
    return {nm: (off, k) for off, k, nm in prog.flat(cls)}


_pristine = None


def pristine():
    global _pristine
    if _pristine is None:
        p = os.path.join(os.path.dirname(__file__), '..', 'spec', 'fields.json')
        _pristine = json.load(open(p)) if os.path.exists(p) else {}
    return _pristine


def vt_name(eng, p):
    """the class a virtual table belongs to"""
    if not isinstance(p, Ptr) or not isinstance(p.r, str):
        return None
    if p.r.startswith('vt:'):
        return p.r[3:].lstrip('=')
    return ir.dem1(p.r.split('@')[-1].replace('g:', '')).replace('vtable for ', '')


def find_field(prog, cls, name):
    fs = prog.flat(cls)
    for off, k, nm in fs:
        if nm == name:
            return off, k
    pr = pristine().get(cls)
    if pr:
        names = [x[0] for x in pr]
        if name in names:
            i = names.index(name)
            kind = pr[i][1]
            # renamed member: same kind, not one of the known names, same rank among such members
            rank = [j for j, x in enumerate(pr) if x[1] == kind and x[0] not in [f[2] for f in fs]].index(i)
            cand = [(o, k) for o, k, n in fs if repr(k) == kind and n not in names]
            if rank < len(cand):
                return cand[rank]
    raise Unsupported('no member %s in %s' % (name, cls))


class Obj:
    """attribute access to an object's members in the abstract state"""

    def __init__(self, s, p, cls):
        object.__setattr__(self, '_s', s)
        object.__setattr__(self, '_p', p)
        object.__setattr__(self, '_cls', s.cls(cls))

    def __getitem__(self, name):
        s = self._s
        off, k = find_field(s.eng.prog, self._cls, name)
        return s.eng.read_kind(s.st, self._p.add(off), k)

    def __setitem__(self, name, v):
        s = self._s
        off, k = find_field(s.eng.prog, self._cls, name)
        s.put(self._p.add(off), k, v)

    def __getattr__(self, name):
        return self[name]

    def __setattr__(self, name, v):
        self[name] = v

    def at(self, name):
        off, k = find_field(self._s.eng.prog, self._cls, name)
        return self._p.add(off)

    def rec(self):
        return self._s.eng.read_obj(self._s.st, self._p, self._cls)

    def ptr(self):
        return self._p


class Ctx:
    def __init__(self, eng, st, prefix, mode, contract, loops=None):
        self.eng = eng; self.st = st; self.prefix = prefix; self.mode = mode; self.contract = contract
        self.i = 0
        self.alts = []
        self.sret = None
        self.loops = loops
        self.witness_used = []

    # ---------------------------------------------------------------- control
    def br(self, cond):
        if isinstance(cond, bool):
            return cond
        c = simplify(cond)
        if is_true(c):
            return True
        if is_false(c):
            return False
        if self.i < len(self.prefix):
            d = self.prefix[self.i]
        else:
            f0 = self.eng.smt.feasible(self.st.pc, c)
            f1 = self.eng.smt.feasible(self.st.pc, Not(c)) if f0 else True
            d = f0
            if f0 and f1:
                self.alts.append(self.prefix + [False])
            self.prefix = self.prefix + [d]
        self.i += 1
        self.st.pc.append(simplify(c if d else Not(c)))
        return d

    def choose(self, n):
        """nondeterministic choice 0..n-1 (all explored)"""
        if self.i < len(self.prefix):
            d = self.prefix[self.i]
        else:
            d = 0
            for j in range(1, n):
                self.alts.append(self.prefix + [j])
            self.prefix = self.prefix + [0]
        self.i += 1
        return d

    def throw(self, cls='std::runtime_error', **info):
        if info.get('code') is HAVOC:
            if self.mode == 'apply':
                info['code'] = BitVec(fresh_name('code'), 32)
            else:
                del info['code']
        raise SpecThrow(mk_exc(self.eng, self.st, cls, **info))

    def assume(self, c):
        self.st.pc.append(simplify(c))

    def dead(self):
        raise DeadPath()

    # ---------------------------------------------------------------- objects
    def cls(self, name):
        P = self.eng.prog
        if name in P.layouts or P.kind_of_type(name):
            return name
        c = [k for k in P.layouts if k.endswith('::' + name)]
        if len(c) == 1:
            return c[0]
        raise Unsupported('class %s' % name)

    def obj(self, p, cls):
        return Obj(self, p, cls)

    def put(self, p, k, v):
        if v is HAVOC:
            v = HavocObj(k)
        if isinstance(v, Havoc):
            if self.mode == 'apply':
                v = fresh_kind(self.eng, self.st, k)
            else:
                if k[0] in ('vec', 'str', 'fn', 'map', 'opaque'):
                    w = self.st.wr(p.r); w.objs[p.o.c] = v
                else:
                    w = self.st.wr(p.r); w.cells[p.o.c] = (kind_size(k), v)
                return
        if z3.is_bool(v):
            v = If(v, bv(1, k[1]), bv(0, k[1]))
        if isinstance(v, int):
            v = bv(v, k[1])
        if isinstance(v, z3.ExprRef):
            v = simp(v)
        self.eng.write_kind(self.st, p, k, v)

    def new(self, cls, **fields):
        cls = self.cls(cls)
        p = self.eng.alloc(self.st, self.eng.prog.layouts[cls][0], 'new ' + cls, cls)
        if any(off == 0 and k[0] == 'vptr' for off, k, n in self.eng.prog.flat(cls)):
            self.eng.store_bytes(self.st, p, Ptr('vt:=' + cls, 0), 8)
        return p

    def free(self, p):
        if isinstance(p, Ptr) and isinstance(p.r, int) and p.r in self.st.mem:
            self.st.wr(p.r).live = False

    def havoc(self, p, cls):
        cls = self.cls(cls)
        k = self.eng.prog.kind_of_type(cls)
        for o, kk, n in ([(0, k, '')] if k else self.eng.prog.flat(cls)):
            if kk[0] == 'vptr':
                continue
            self.put(p.add(o), kk, HAVOC)

    def havoc_members(self, o, *names):
        for n in names:
            off, k = find_field(self.eng.prog, o._cls, n)
            self.put(o._p.add(off), k, HAVOC)

    def vec(self, p):
        return self.eng.vseq(self.st, p)

    def set_vec(self, p, seq, et='unsigned char'):
        self.eng.set_vec(self.st, p, seq, et)

    def string(self, p):
        return self.eng.getobj(self.st, p).seq

    def set_str(self, p, seq):
        self.eng.setobj(self.st, p, StrObj(seq))

    def bv(self, p, bits):
        return self.eng.load_bytes(self.st, p, bits // 8)

    def set_bv(self, p, v):
        self.eng.store_bytes(self.st, p, simp(v), v.size() // 8)

    def ptr(self, p):
        """pointer stored at p (shared_ptr, unique_ptr, raw)"""
        return self.eng.load_bytes(self.st, p, 8)

    def set_ptr(self, p, v, shared=True):
        self.eng.store_bytes(self.st, p, v, 8)
        if shared:
            self.eng.store_bytes(self.st, p.add(8), NULL, 8)

    def rec(self, p, cls):
        return self.eng.read_obj(self.st, p, self.cls(cls))

    def wr(self, p, cls, v):
        self.eng.write_obj(self.st, p, self.cls(cls), v)

    def mkrec(self, cls, **f):
        cls = self.cls(cls)
        r = {}
        for off, k, nm in self.eng.prog.flat(cls):
            pass
        for nm, v in f.items():
            off, k = find_field(self.eng.prog, cls, nm)
            if isinstance(v, int):
                v = bv(v, k[1])
            r[off] = v
        return Rec(cls, r)

    def fld(self, rec, nm):
        return rec.f[find_field(self.eng.prog, rec.cls, nm)[0]]

    # ---------------------------------------------------------------- effects
    def event(self, kind, *args):
        return emit(self.eng, self.st, kind, *args)

    def env_value(self, name, i, et):
        """answer number i of the environment"""
        return self.eng.sym_val('env_' + name, self.eng_type(et), (i,))

    def eng_type(self, et):
        return et if self.eng.prog.kind_of_type(et) else self.cls(et)

    def env_throw(self, name, i):
        """the environment may fail with a runtime error or a system error of its choice"""
        if self.br(evf(name + '_fails', i, 1) == bv(1, 1)):
            if self.br(evf(name + '_syserr', i, 1) == bv(1, 1)):
                self.throw('std::system_error', code=evf(name + '_code', i, 32))
            self.throw('std::runtime_error')

    def syscall(self, name, bits, *args):
        """a system call: event, result and error number are the environment's"""
        i = self.event('sys:' + name, *args)
        if self.mode == 'apply':
            clobber_errno(self.eng, self.st)
        return i, evf(name, i, bits), evf('errno', i, 32)

    def call_handler(self, f, *vals):
        """call a stored std::function; -> index of the event"""
        if self.br(Not(fn_set(f))):
            self.throw('std::bad_function_call')
        if f.v[0] == 'default':
            return None
        return self.event('call:' + f.v[1], *vals)

    def call(self, dem, args, rt=None):
        """use another function's contract"""
        c = self.eng.contracts[dem]
        rs = c.explore(self.eng, self.st, args, self.mode if self.mode == 'apply' else 'check', self.loops)
        if not rs:
            raise DeadPath()
        i = self.choose(len(rs)) if len(rs) > 1 else 0
        st, out = rs[i]
        self.st = st
        if out[0] == 'throw':
            raise SpecThrow(out[1])
        return out[1]

    # ---------------------------------------------------------------- loops
    def loop(self, name, bvs=None, accs=None, funs=None, step=None, stop=None, events=None, inv=None, evts=0, count=None, salt=(), one=(), made=None, wide=(), bits=None, nests=False):
        bvs = {c: simp(v) for c, v in (bvs or {}).items()}
        accs = accs or {}
        funs = funs or {}
        evt0 = self.st.cnt.get('evt', Lin(0))
        if evts:
            salt = tuple(salt) + (simp(evt0.bv()),)
        uid = loop_uid(name, bvs, accs, salt, evt0 if evts or events else None)
        self.L = L = LoopSpec(uid, name, bvs, accs, funs, step, stop, events, inv, evt0, evts, self.st.trace)
        L.accet = dict([(c, 'one') for c in one] + [(c, 'rec') for c in wide], **(bits or {}))
        L.outer = nests
        if made:
            made(L)
        if self.eng.unroll_only is not None:
            return self.loop_unrolled(L)
        if self.mode == 'collect':
            self.loops[uid] = L
            K = L.K = BitVec('Kc!' + uid, 64)
        elif self.mode == 'check':
            w = [k for u, k in self.st.wit if u == uid and (u, k) not in self.witness_used]
            al = None if w else self.applied(name, bvs, accs, salt)
            if al is not None:
                L, K = al
            elif not w:
                # the body never reached a loop matching this specification: only the empty or an explicit count is possible
                K = simp(count) if count is not None else bv(0)
                if count is None or const_of(K) != 0:
                    c0 = L.stop(bv(0))
                    r, _ = self.eng.smt.valid(self.st.pc, c0)
                    if r == 'yes':
                        K = bv(0)
                    elif count is None:
                        # the count the specification itself determines
                        K = BitVec('K!' + uid, 64)
                        self.st.pc.append(ULE(K, bv(1 << 48)))
                        self.st.pc.append(L.stop(K))
            else:
                k = w[0]
                self.witness_used.append((uid, k))
                K = None
                for cand in (k, simp(k + 1)):
                    if cand is not k:
                        if self.eng.smt.valid(self.st.pc, Not(L.stop(k)))[0] != 'yes':
                            break
                        self.st.pc.extend(L.unfold(k))
                    r, _ = self.eng.smt.valid(self.st.pc, L.stop(cand))
                    if r == 'yes':
                        K = cand
                        break
                if K is None:
                    raise SpecMismatch('loop', 'the loop ends although the specified loop %s continues' % name)
        else:
            # a loop is deterministic: its number of iterations is a function of its initial state
            K = simp(count) if count is not None else BitVec('K!' + uid, 64)
            self.st.applied = self.st.applied + ((name, bvs, accs, salt, L, K),)
        self.st.pc.extend(L.axioms(K))
        if self.mode != 'check':
            self.st.pc.append(ULE(K, bv(1 << 48)))
            if count is None:
                self.st.pc.append(L.stop(K))
            self.st.pc.extend(L.inv(K))
        X = {c: L.value(c, K) for c in list(bvs) + list(accs) + list(funs)}
        X['k'] = K
        if events is not None:
            self.st.trace = self.st.trace + (LoopTrace(uid, K),)
        self.st.cnt['evt'] = evt0 + Lin.of(K).scale(evts)
        X['%evt'] = self.st.cnt['evt'].bv()
        return X

    def nested(self, name, bvs=None, accs=None, step=None, stop=None, count=None, salt=(), one=(), wide=(), inv=None):
        """the values after a loop inside one step of another loop, as a pure term"""
        bvs = {c: simp(v) for c, v in (bvs or {}).items()}
        accs = accs or {}
        uid = loop_uid(name, bvs, accs, salt, None)
        L = LoopSpec(uid, name, bvs, accs, {}, step, stop, None, inv, Lin(0), 0, ())
        L.accet = dict([(c, 'one') for c in one] + [(c, 'rec') for c in wide])
        L.inner = True
        self.eng.loop_specs.setdefault(uid, L)
        K = simp(count) if count is not None else BitVec('K!' + uid, 64)
        X = {c: L.value(c, K) for c in list(bvs) + list(accs)}
        X['k'] = K
        return X

    def applied(self, name, bvs, accs, salt):
        """a loop of this name and provably equal initial state that a callee's contract went through in the body"""
        for n, b, a, sa, L, K in self.st.applied:
            if n != name or set(b) != set(bvs) or set(a) != set(accs) or len(sa) != len(salt):
                continue
            ok = True
            for x, y in [(b[c], bvs[c]) for c in b] + [(a[c], accs[c]) for c in a] + list(zip(sa, salt)):
                if isinstance(x, Seq) and isinstance(y, Seq) and x.key() == y.key():
                    continue
                if isinstance(x, (Seq, z3.ExprRef)) != isinstance(y, (Seq, z3.ExprRef)):
                    ok = False
                    break
                if not isinstance(x, (Seq, z3.ExprRef)):
                    ok = vkey(x) == vkey(y)
                else:
                    ok = all(self.eng.smt.valid(self.st.pc, g)[0] == 'yes' for g in eq_goal(x, y))
                if not ok:
                    break
            if ok:
                return L, K
        return None

    def loop_unrolled(self, L):
        X = dict(L.bvs)
        acc = dict(L.accs)
        k = 0
        while True:
            X['%evt'] = simp((L.evt0 + k * L.evtc).bv())
            for c in L.accs:
                X[c] = None
            if self.br(L.stopf(X, bv(k))):
                break
            if k >= self.eng.unroll_only:
                self.eng.bounded = True
                raise DeadPath()
            n = L.step(X, bv(k))
            if L.events is not None:
                for e in L.events(X, bv(k)):
                    self.st.trace = self.st.trace + (e,)
            nx = {}
            for c in L.bvs:
                nx[c] = simp(n[c])
            for c in L.accs:
                acc[c] = cat(acc[c], n[c])
            X = nx
            k += 1
        out = dict(X)
        for c in L.accs:
            out[c] = acc[c]
        for c in L.funs:
            out[c] = L.funs[c](X, bv(k))
        out['k'] = bv(k)
        self.st.cnt['evt'] = L.evt0 + k * L.evtc
        out['%evt'] = self.st.cnt['evt'].bv()
        return out


class SpecMismatch(Exception):
    def __init__(self, kind, text):
        self.kind = kind; self.text = text


def kind_size(k):
    return k[1] // 8 if k[0] == 'bv' else 8


def fresh_kind(eng, st, k):
    n = fresh_name('any')
    if k[0] == 'bv':
        return BitVec(n, k[1])
    if k[0] == 'vec':
        return eng.sym_seq(st, n, k[1])
    if k[0] == 'str':
        return eng.sym_seq(st, n, 'char')
    if k[0] == 'fn':
        return FnObj(('sym', n))
    if k[0] == 'map':
        return maps.sym_map(eng, st, n, k[1])
    raise Unsupported('havoc of %s' % (k,))


class Contract:
    apart = False       # verified only where it is a root

    def __init__(self, dem, spec, pre=None, setup=None, trusted=False, classes=None, props=(), note='', ignore=(), sret=None, merge=False, coarse=None):
        self.dem = dem; self.spec = spec; self.prefn = pre; self.setupfn = setup; self.trusted = trusted
        self.classes = classes or {}
        self.note = note
        self.ignore = ignore
        self._sret = sret
        self.merge = merge
        self.coarse = coarse or {}
        self.body = None
        d = parse_dem(dem)
        self.isdtor = d.meth.startswith('~')
        self.ctorof = d.cbase if d.meth == d.cbase.split('<')[0].split('::')[-1] else None

    # ---------------------------------------------------------------- exploration of the specification
    def explore(self, eng, st, args, mode, loops=None, has_sret=None):
        out = []
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > 400:
                raise Unsupported('too many specification paths')
            s = Ctx(eng, st.clone(), prefix, mode, self, loops)
            a = list(args)
            if self.is_sret(eng):
                s.sret = a.pop(0)
            res = None
            try:
                if mode == 'apply' and self.prefn is not None:
                    self.run_pre(s, a, True)
                v = self.spec(s, *a)
                if isinstance(v, int) and not isinstance(v, bool):
                    raise Unsupported('specification returned a bare integer')
                if isinstance(v, bool):
                    v = BoolVal(v)
                if isinstance(v, z3.ExprRef):
                    v = simp(v)
                if isinstance(v, Obj):
                    v = v.ptr()
                res = ('ret', v)
            except SpecThrow as e:
                res = ('throw', e.exc)
            except DeadPath:
                res = None
            stack.extend(s.alts)
            if res is not None:
                out.append((s.st, res))
        return out

    def run_pre(self, s, a, at_call):
        for c, text in self.prefn(s, *a):
            if at_call:
                s.eng.require(s.st, c, 'precondition', None, 'precondition of %s: %s' % (short(self.dem), text))
            else:
                s.st.pc.append(simplify(c) if not isinstance(c, bool) else BoolVal(c))

    def mangled(self, eng):
        l = eng.prog.bydem.get(self.dem)
        if not l:
            return None
        for n in l:
            if re.search(r'C2|D2', n) and eng.prog.function(n) is not None:
                return n
        for n in l:
            if eng.prog.function(n) is not None:
                return n
        return None

    def mangled_any(self, prog):
        class E:
            pass
        e = E(); e.prog = prog
        return self.mangled(e)

    def is_sret(self, eng):
        if self._sret is None:
            m = self.mangled(eng)
            if m is None:
                # pure virtual: look at a declaration or at an override of the same name
                self._sret = bool(self.classes.get('sret'))
                return self._sret
            fn = eng.prog.function(m)
            fn.parse()
            self._sret = bool(fn.params) and 'sret' in fn.params[0][1]
        return self._sret

    def apply(self, eng, st, args, ins, rt):
        rs = self.explore(eng, st, args, 'apply', {})
        if self.ctorof and args and isinstance(args[0], Ptr):
            # the constructor leaves an object of its class
            cls = self.ctorof
            for s, o in rs:
                if o[0] == 'ret' and cls in eng.prog.layouts and any(off == 0 and k[0] == 'vptr' for off, k, n in eng.prog.flat(cls)):
                    eng.store_bytes(s, args[0], Ptr('vt:=' + cls, 0), 8)
        return [(s, o) for s, o in rs]

    # ---------------------------------------------------------------- arbitrary inputs
    def setup(self, eng, st):
        m = self.mangled(eng)
        if m is None:
            raise Unsupported('function %s not found' % self.dem)
        fn = eng.prog.function(m)
        fn.parse()
        d = parse_dem(self.dem)
        ps = list(d.params)
        args = []
        cls = norm_t(d.cls) if d.cls else None
        i = 0
        for (t, at, nm) in fn.params:
            if 'sret' in at:
                p = eng.alloc(st, fn.module.size_align(at['sret'])[0] if not isinstance(at['sret'], bool) else None, 'result')
                st.mem[p.r].tag = 'sret'
                args.append(p)
                continue
            if nm == 'this':
                size = eng.prog.layouts[cls][0] if cls in eng.prog.layouts else None
                p = eng.alloc(st, size, 'this', cls)
                ctor = d.meth == cls.split('<')[0].split('::')[-1]
                if not ctor:
                    eng.sym_obj(st, p, cls, 'this')
                    c0 = st.mem[p.r].cells.get(0)
                    if c0 and isinstance(c0[1], Ptr) and c0[1].r == 'vt:' + cls:
                        # the object's dynamic type is the class under verification
                        st.mem[p.r].cells[0] = (8, Ptr('vt:=' + cls, 0))
                else:
                    st.mem[p.r].tag = 'ctor'
                args.append(p)
                continue
            pt = ps[i] if i < len(ps) else None
            i += 1
            base = (nm or 'arg%d' % i).replace('.coerce', '')
            args.append(self.sym_arg(eng, st, t, pt, base))
        return m, args

    def sym_arg(self, eng, st, t, pt, nm):
        if t[0] == 'int':
            return z3.Bool(nm) if t[1] == 1 else BitVec(nm, t[1])
        if t[0] in ('float', 'double'):
            return BitVec(nm, 32 if t[0] == 'float' else 64)
        if t[0] != 'ptr':
            raise Unsupported('parameter type %s' % (t,))
        n = norm_t(pt.rstrip('&').strip()) if pt else None
        if n and n.endswith('*') and n.rstrip('*').strip() in ('unsigned char', 'char', 'void'):
            raise Unsupported('raw pointer parameter')
        if n and n.endswith('*'):
            n = n[:-1].strip()
        k = eng.prog.kind_of_type(n)
        if k:
            p = eng.alloc(st, max(8, eng.prog.sizeof(n)), nm, n)
            eng.sym_field(st, p, k, nm)
            return p
        p = eng.alloc(st, eng.prog.layouts[n][0], nm, n)
        eng.sym_obj(st, p, n, nm)
        return p

    # ---------------------------------------------------------------- verification
    def coarsen(self, eng):
        """callees whose own contract is verified elsewhere, as a single effect"""
        if self.coarse:
            eng.contracts = dict(eng.contracts)
            for d, f in self.coarse.items():
                assert d in eng.contracts, d
                eng.used_contracts.add(d)
                eng.contracts[d] = Contract(d, f, trusted=True)

    def verify(self, eng):
        """-> dict(status, obligations..., failures)"""
        self.coarsen(eng)
        eng.verifying = self
        st = State()
        if self.setupfn:
            m, args = self.setupfn(self, eng, st)
        else:
            m, args = self.setup(eng, st)
        a = [x for x in args]
        sret = None
        if self.is_sret(eng):
            sret = a.pop(0)
        # collect the specified loops and run the precondition
        if self.prefn:
            s = Ctx(eng, st, [], 'pre', self, {})
            s.sret = sret
            self.run_pre(s, a, False)
        r, _ = eng.smt.check(list(st.pc))
        if r == 'unsat':
            eng.failures.append(Failure('vacuous', self.dem, 'the precondition is contradictory', None, 'error'))
            return
        loops = {}
        eng.quiet += 1
        rs = self.explore(eng, st, args, 'collect', loops)
        eng.quiet -= 1
        if not rs:
            eng.failures.append(Failure('vacuous', self.dem, 'the contract allows no outcome', None, 'error'))
            return
        eng.loop_specs = loops
        eng.target = self.dem
        eng.target_mangled = m
        entry = st.clone()
        eng.merging = self.merge
        outs = eng.run(st.clone(), m, args)
        eng.merging = False
        self.npaths = len(outs)
        if not outs:
            eng.failures.append(Failure('vacuous', self.dem, 'the body has no feasible path', None, 'error'))
            return
        init_rids = [r for r in entry.mem]
        for bst, bout in outs:
            sst = entry.clone()
            sst.pc = list(bst.pc)
            sst.wit = bst.wit
            sst.applied = bst.applied
            self.body = bst
            try:
                specs = self.explore(eng, sst, args, 'check', loops)
            except SpecMismatch as e:
                self.fail(eng, bst, e.kind, e.text)
                continue
            for s2, sout in specs:
                self.compare(eng, entry, init_rids, bst, bout, s2, sout)
        eng.target = None

    def fail(self, eng, bst, kind, text, goal=None):
        eng.obligations.append((kind, short(self.dem), 'refuted'))
        m = None
        r, m = eng.smt.check(list(bst.pc), want_model=True)
        if r == 'unsat':
            eng.obligations[-1] = (kind, short(self.dem), 'proved')
            return
        eng.failures.append(Failure(kind, short(self.dem), text, m, 'refuted' if r == 'sat' else 'unknown'))

    def goal(self, eng, pc, goals, kind, text):
        for g in goals:
            if isinstance(g, bool):
                g = BoolVal(g)
            r, m = eng.smt.valid(pc, g, want_model=True)
            if r != 'yes' and real_equal(g, lambda c: True if eng.smt.valid(pc, c)[0] == 'yes' else False if eng.smt.valid(pc, Not(c))[0] == 'yes' else None):
                eng.obligations.append((kind, short(self.dem), 'real'))
                continue
            eng.obligations.append((kind, short(self.dem), {'yes': 'proved', 'no': 'refuted', 'unknown': 'unknown'}[r]))
            if r != 'yes':
                eng.failures.append(Failure(kind, short(self.dem), text, m, 'refuted' if r == 'no' else 'unknown'))
                return False
        if not goals:
            eng.obligations.append((kind, short(self.dem), 'simplify'))
        return True

    def compare(self, eng, entry, rids, bst, bout, sst, sout):
        pc = sst.pc
        # is this combination possible at all?
        if bout[0] != sout[0]:
            txt = 'body %s, contract %s' % (outcome_text(bout), outcome_text(sout))
            self.goal(eng, pc, [BoolVal(False)], 'outcome', txt)
            return
        if bout[0] == 'throw':
            be, se = bout[1], sout[1]
            if not exc_isa(be.cls, se.cls):
                self.goal(eng, pc, [BoolVal(False)], 'outcome', 'body %s, contract %s' % (outcome_text(bout), outcome_text(sout)))
                return
            if 'code' in se.info:
                if 'code' not in be.info:
                    self.goal(eng, pc, [BoolVal(False)], 'error-code', 'exception carries no error code')
                else:
                    self.goal(eng, pc, eq_goal(be.info['code'], se.info['code']), 'error-code', 'error code of the exception')
        self.pairs = {}
        self.todo = []
        if bout[0] == 'ret' and sout[1] is not None:
            self.cmp_val(eng, pc, bst, sst, bout[1], sout[1], 'result', rids)
        # trace
        self.cmp_trace(eng, pc, bst, sst, bst.trace, sst.trace, rids)
        for rid in rids:
            r0 = entry.mem[rid]
            if r0.kind == 'vt':
                continue
            b, s_ = bst.mem.get(rid), sst.mem.get(rid)
            if b is None or s_ is None:
                continue
            if b is s_:
                continue
            if r0.kind == 'seq':
                continue
            if bout[0] == 'throw' and r0.tag in ('sret', 'ctor'):
                continue
            self.cmp_region(eng, pc, bst, sst, rid, rid, r0, rids, only_spec=r0.tag in ('sret', 'ctor'))
        # objects first reached through a container by one side
        for rid in sorted({r for m in (bst.mem, sst.mem) for r in m if isinstance(r, str) and r[:3] in ('ip:', 'me:') and r not in rids}):
            for x in (bst, sst):
                if rid not in x.mem:
                    eng.global_region(x, rid)
            if bst.mem[rid] is not sst.mem[rid]:
                self.cmp_region(eng, pc, bst, sst, rid, rid, bst.mem[rid], rids, only_spec=False)
        # globals first touched by one side
        for rid in bst.mem:
            if isinstance(rid, str) and rid.startswith('g:') and rid not in rids and rid != 'g:errno':
                b = bst.mem[rid]
                if b.ro:
                    continue
                for off, (size, v) in list(b.cells.items()):
                    if rid in sst.mem and off in sst.mem[rid].cells:
                        self.cmp_val(eng, pc, bst, sst, v, sst.mem[rid].cells[off][1], 'global %s' % rid[2:], rids)
        while self.todo:
            br_, sr = self.todo.pop()
            self.cmp_region(eng, pc, bst, sst, br_, sr, sst.mem[sr], rids, only_spec=True)

    def cmp_region(self, eng, pc, bst, sst, brid, srid, r0, rids, only_spec):
        b, s_ = bst.mem[brid], sst.mem[srid]
        cls = s_.cls
        nm = lambda off: field_name(eng, r0, off)
        # library objects
        offs = set(s_.objs) | (set() if only_spec else set(b.objs))
        for off in sorted(offs):
            if nm(off) in self.ignore:
                continue
            bo, so = b.objs.get(off), s_.objs.get(off)
            if isinstance(so, Havoc):
                continue
            if bo is so:
                continue
            if bo is None or so is None:
                self.goal(eng, pc, [BoolVal(False)], 'post', '%s: object missing' % nm(off))
                continue
            self.cmp_obj(eng, pc, bst, sst, bo, so, nm(off), rids)
        cells = dict(s_.cells)
        if not only_spec:
            for off, (size, v) in b.cells.items():
                if off not in cells and not any(o <= off < o + z for o, (z, _) in cells.items()):
                    cells[off] = (size, None)
        for off in sorted(cells):
            if nm(off) in self.ignore or (self.isdtor and nm(off).endswith('._vptr')):
                continue
            size, v = cells[off]
            if isinstance(v, Havoc):
                continue
            if off in b.cells and off in s_.cells and b.cells[off][1] is s_.cells[off][1]:
                continue
            eng.stack_dummy = True
            if isinstance(v, Ptr) and isinstance(v.r, str) and v.r.startswith('vt:'):
                # the class of the object
                w = b.cells.get(off)
                self.goal(eng, pc, [BoolVal(w is not None and vt_name(eng, w[1]) == vt_name(eng, v))], 'post', 'class of %s' % nm(off))
                continue
            try:
                sv = v if v is not None else eng.load_bytes(sst, Ptr(srid, off), size)
                bvv = eng.load_bytes(bst, Ptr(brid, off), size)
            except DeadPath:
                continue
            self.cmp_val(eng, pc, bst, sst, bvv, sv, nm(off), rids)

    def cmp_obj(self, eng, pc, bst, sst, bo, so, text, rids):
        if hasattr(so, 'accepts'):
            self.goal(eng, pc, [BoolVal(so.accepts(self, eng, bst, bo))], 'post', text)
            return
        if type(bo) is not type(so):
            self.goal(eng, pc, [BoolVal(False)], 'post', '%s: different kind of object' % text)
            return
        if isinstance(bo, VecObj):
            if bo.rid == so.rid and bst.mem[bo.rid] is sst.mem[so.rid]:
                return
            self.goal(eng, pc, eq_goal(bst.mem[bo.rid].seq, sst.mem[so.rid].seq), 'post', text)
        elif isinstance(bo, StrObj):
            self.goal(eng, pc, eq_goal(bo.seq, so.seq), 'post', text)
        elif isinstance(bo, maps.MapObj):
            maps.compare(self, eng, pc, bst, sst, bo, so, text, rids)
        elif hasattr(bo, 'cmp_goals'):
            self.goal(eng, pc, bo.cmp_goals(eng, bst, so, sst, pc), 'post', text)
        elif hasattr(bo, 'key'):
            if isinstance(bo, FnObj) and bo.v[0] == 'lam' and (so.v[0] == 'default' or so.v[0] == 'lam' and bo.v[1] == so.v[1]):
                return
            self.goal(eng, pc, [BoolVal(bo.key() == so.key())], 'post', text)

    def cmp_val(self, eng, pc, bst, sst, x, y, text, rids):
        if isinstance(y, Havoc) or y is UNDEF:
            return
        if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)):
            if isinstance(x, z3.ExprRef) and const_of(simp(x)) == 0:
                x = NULL
            if isinstance(y, z3.ExprRef) and const_of(simp(y)) == 0:
                y = NULL
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r not in rids and y.r not in rids and isinstance(x.r, int) and isinstance(y.r, int):
                # new objects: structural comparison
                if x.r in self.pairs:
                    self.goal(eng, pc, [BoolVal(self.pairs[x.r] == y.r)], 'post', text)
                    return
                self.pairs[x.r] = y.r
                self.goal(eng, pc, eq_goal(Ptr(0, x.o), Ptr(0, y.o)), 'post', text)
                if sst.mem.get(y.r) is not None and bst.mem.get(x.r) is not None:
                    self.todo.append((x.r, y.r))
                return
            self.goal(eng, pc, eq_goal(x, y) if isinstance(x, Ptr) and isinstance(y, Ptr) else [BoolVal(vkey(x) == vkey(y))], 'post', text)
            return
        if isinstance(x, tuple) and isinstance(y, tuple):
            for p, q in zip(x, y):
                self.cmp_val(eng, pc, bst, sst, p, q, text, rids)
            return
        self.goal(eng, pc, eq_goal(x, y), 'post', text)

    def cmp_trace(self, eng, pc, bst, sst, bt, st_, rids):
        ignore = ('now', 'random') if 'trace-clock' in self.ignore else ()
        bt = [e for e in bt if e.kind not in ignore]
        st_ = [e for e in st_ if e.kind not in ignore]
        # common prefix (identical objects)
        i = 0
        while i < len(bt) and i < len(st_) and bt[i] is st_[i]:
            i += 1
        if len(bt) != len(st_) or any(x.kind != y.kind for x, y in zip(bt, st_)):
            # identical up to loop traces with no iteration
            bt2 = [e for e in bt if not (e.kind == 'loop' and self.zero(eng, pc, e.k))]
            st2 = [e for e in st_ if not (e.kind == 'loop' and self.zero(eng, pc, e.k))]
            if len(bt2) != len(st2) or any(x.kind != y.kind for x, y in zip(bt2, st2)):
                self.goal(eng, pc, [BoolVal(False)], 'effects', 'body does %s, contract %s' % ([e.kind for e in bt2], [e.kind for e in st2]))
                return
            bt, st_, i = bt2, st2, 0
        for x, y in zip(bt[i:], st_[i:]):
            if x is y:
                continue
            if x.kind == 'loop':
                if x.uid != y.uid:
                    self.goal(eng, pc, [BoolVal(False)], 'effects', 'effects of different loops')
                else:
                    self.goal(eng, pc, eq_goal(x.k, y.k), 'effects', 'number of iterations')
                continue
            if len(x.args) != len(y.args):
                self.goal(eng, pc, [BoolVal(False)], 'effects', 'arguments of %s' % x.kind)
                continue
            for j, (p, q) in enumerate(zip(x.args, y.args)):
                self.cmp_val(eng, pc, bst, sst, p, q, 'argument %d of effect %s' % (j + 1, x.kind), rids)

    def zero(self, eng, pc, k):
        r, _ = eng.smt.valid(pc, k == bv(0))
        return r == 'yes'


def outcome_text(o):
    if o[0] == 'ret':
        return 'returns'
    return 'raises %s' % o[1].cls


def field_name(eng, r, off):
    if r.cls and r.cls in eng.prog.layouts:
        best = None
        for o, k, n in eng.prog.flat(r.cls):
            if o <= off:
                best = n if o == off else '%s+%d' % (n, off - o)
        return '%s.%s' % (r.name, best)
    return '%s+%d' % (r.name, off)
