"""Values of the symbolic executor: linear offsets, pointers, records, functional sequences."""
import z3
from z3 import BitVecVal, BitVec, If, ULT, ULE, And, Or, Not, BoolVal, simplify, is_bv_value, Function, BitVecSort

MASK64 = (1 << 64) - 1
_keep = []          # keep asts alive so ids stay unique
_cnt = [0]


def fresh_name(p):
    _cnt[0] += 1
    return '%s!%d' % (p, _cnt[0])


def bv(v, n=64):
    return BitVecVal(v, n)


def const_of(e):
    """python int if e is a literal, else None"""
    if isinstance(e, int):
        return e
    if is_bv_value(e):
        return e.as_long()
    return None


def simp(e):
    if is_bv_value(e):
        return e
    return simplify(e)


def astid(e):
    _keep.append(e)
    return e.get_id()


def signed(v, n=64):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ linear offsets
class Lin:
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = signed(c)
        self.t = t or {}

    @staticmethod
    def of(e, depth=0):
        """from a BV64 term"""
        if isinstance(e, int):
            return Lin(e)
        if is_bv_value(e):
            return Lin(e.as_long())
        if depth == 0:
            e = simplify(e)
            if is_bv_value(e):
                return Lin(e.as_long())
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD:
            r = Lin(0)
            for ch in e.children():
                r = r + Lin.of(ch, depth + 1)
            return r
        if k == z3.Z3_OP_BMUL and e.num_args() == 2:
            a, b = e.children()
            if is_bv_value(b):
                a, b = b, a
            if is_bv_value(a):
                return Lin.of(b, depth + 1).scale(signed(a.as_long()))
        if k == z3.Z3_OP_BSHL:
            a, b = e.children()
            if is_bv_value(b) and b.as_long() < 64:
                return Lin.of(a, depth + 1).scale(1 << b.as_long())
        if k == z3.Z3_OP_CONCAT:
            # Concat(Extract(63-s,0,x), 0:s)  == x << s
            ch = e.children()
            if len(ch) == 2 and is_bv_value(ch[1]) and ch[1].as_long() == 0 and ch[0].decl().kind() == z3.Z3_OP_EXTRACT:
                hi, lo = ch[0].params()
                s = ch[1].size()
                if lo == 0 and ch[0].children()[0].size() == 64 and hi == 63 - s:
                    return Lin.of(ch[0].children()[0], depth + 1).scale(1 << s)
        i = astid(e)
        return Lin(0, {i: (e, 1)})

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        t = dict(self.t)
        for i, (e, c) in o.t.items():
            n = signed(t[i][1] + c) if i in t else c
            if n == 0:
                t.pop(i)
            else:
                t[i] = (e, n)
        return Lin(self.c + o.c, t)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        t = {}
        for i, (e, c) in self.t.items():
            n = signed(c * k)
            if n:
                t[i] = (e, n)
        return Lin(self.c * k, t)

    def __sub__(self, o):
        return self + (Lin(o) if isinstance(o, int) else o).scale(-1)

    def is_const(self):
        return not self.t

    def bv(self):
        if not self.t:
            return bv(self.c)
        r = None
        for i, (e, c) in self.t.items():
            x = e if c == 1 else e * bv(c)
            r = x if r is None else r + x
        if self.c:
            r = r + bv(self.c)
        return r

    def divmod(self, n):
        """split into (index Lin, inner int) for element size n"""
        if n == 1:
            return self, 0
        t = {}
        for i, (e, c) in self.t.items():
            if c % n:
                return None
            t[i] = (e, c // n)
        q, r = divmod(self.c, n)
        return Lin(q, t), r

    def key(self):
        return (self.c, tuple(sorted((i, c) for i, (e, c) in self.t.items())))

    def __repr__(self):
        return 'Lin(%s)' % (self.c if not self.t else self.bv())


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=0):
        self.r = r
        self.o = o if isinstance(o, Lin) else (Lin(o) if isinstance(o, int) else Lin.of(o))

    def add(self, x):
        return Ptr(self.r, self.o + (x if isinstance(x, (Lin, int)) else Lin.of(x)))

    def is_null(self):
        return self.r is None and self.o.is_const() and self.o.c == 0

    def key(self):
        return ('ptr', self.r, self.o.key())

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.o)


NULL = Ptr(None, 0)


class FnPtr:
    def __init__(self, name):
        self.name = name

    def key(self):
        return ('fn', self.name)

    def __repr__(self):
        return 'FnPtr(%s)' % self.name


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Rec:
    """flattened record: offset -> BV | Seq | Ptr | FnObj ..."""
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def key(self):
        return ('rec', self.cls) + tuple((o, vkey(v)) for o, v in sorted(self.f.items()))

    def __repr__(self):
        return 'Rec(%s,%s)' % (self.cls, self.f)


def vkey(v):
    if isinstance(v, z3.ExprRef):
        return ('z', astid(simplify(v)))
    if v is None:
        return None
    if isinstance(v, (int, str)):
        return v
    if isinstance(v, tuple):
        return tuple(vkey(x) for x in v)
    return v.key()


def vite(c, a, b):
    """if-then-else over values"""
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return If(c, a, b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return sif(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.f.keys() != b.f.keys():
            raise Unsupported('ite of different records')
        return Rec(a.cls, {o: vite(c, a.f[o], b.f[o]) for o in a.f})
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
        if a.o.key() == b.o.key():
            return a
        return Ptr(a.r, Lin.of(If(c, a.o.bv(), b.o.bv())))
    if hasattr(a, 'key') and hasattr(b, 'key') and a.key() == b.key():
        return a
    raise Unsupported('ite of %s / %s' % (type(a), type(b)))


# ------------------------------------------------------------------ sequences
class Seq:
    """len: BV64 term; at(i): element for BV64 index i (meaningful for i < len)."""
    _key = None

    def key(self):
        if self._key is None:
            self._key = self._mkkey()
        return self._key

    def clen(self):
        return const_of(self.len)

    def parts(self):
        return [self]

    def same_as(self, o):
        return None

    def __repr__(self):
        return '%s(len=%s)' % (type(self).__name__, self.len)


class Lit(Seq):
    def __init__(self, els):
        self.els = list(els)
        self.len = bv(len(self.els))

    def at(self, i):
        c = const_of(simp(i))
        if c is not None:
            if c < len(self.els):
                return self.els[c]
            if self.els:
                return self.els[0]
            raise IndexError
        if not self.els:
            raise IndexError
        r = self.els[-1]
        for j in range(len(self.els) - 2, -1, -1):
            r = vite(i == bv(j), self.els[j], r)
        return r

    def _mkkey(self):
        return ('lit',) + tuple(vkey(e) for e in self.els)


EMPTY = Lit([])


class Sym(Seq):
    """symbolic sequence: len term and element function"""

    def __init__(self, name, ln, fn, key):
        self.name = name
        self.len = ln
        self.fn = fn
        self._k = key

    def at(self, i):
        return self.fn(i)

    def _mkkey(self):
        return ('sym', self._k, vkey(self.len))


class Cat(Seq):
    def __init__(self, ps):
        self.ps = ps
        l = None
        cc = 0
        for p in ps:
            c = p.clen()
            if c is not None:
                cc += c
            else:
                l = p.len if l is None else l + p.len
        self.len = bv(cc) if l is None else (l if cc == 0 else l + bv(cc))

    def parts(self):
        return self.ps

    def at(self, i):
        ci = const_of(simp(i))
        # build from the right
        offs = []
        off = Lin(0)
        for p in self.ps:
            offs.append(off)
            off = off + Lin.of(p.len)
        res = None
        il = Lin.of(i)
        for p, o in reversed(list(zip(self.ps, offs))):
            j = (il - o)
            if res is None:
                try:
                    res = p.at(j.bv())
                except IndexError:
                    res = None
                continue
            end = o + Lin.of(p.len)
            d = il - end
            # i < end ?
            if d.is_const() and end.key() != il.key() and il.is_const() and end.is_const():
                cond = BoolVal(il.c < end.c)
            elif il.key() == end.key():
                cond = BoolVal(False)
            else:
                cond = ULT(il.bv(), end.bv())
            if z3.is_false(cond):
                continue
            try:
                x = p.at(j.bv())
            except IndexError:
                continue
            res = x if z3.is_true(cond) else vite(cond, x, res)
        if res is None:
            raise IndexError
        return res

    def _mkkey(self):
        return ('cat',) + tuple(p.key() for p in self.ps)


def cat(*ps):
    out = []
    for p in ps:
        for q in p.parts():
            if q.clen() == 0:
                continue
            if out and isinstance(out[-1], Lit) and isinstance(q, Lit):
                out[-1] = Lit(out[-1].els + q.els)
            elif out and isinstance(out[-1], Slice) and isinstance(q, Slice) and out[-1].base.key() == q.base.key() \
                    and (Lin.of(out[-1].off) + Lin.of(out[-1].len)).key() == Lin.of(q.off).key():
                out[-1] = Slice(q.base, out[-1].off, simp(out[-1].len + q.len))
            elif out and isinstance(out[-1], Fill) and isinstance(q, Fill) and vkey(out[-1].v) == vkey(q.v):
                out[-1] = Fill(simp(out[-1].len + q.len), q.v)
            else:
                out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return Cat(out)


class Slice(Seq):
    def __init__(self, base, off, ln):
        self.base = base
        self.off = off
        self.len = ln

    def at(self, i):
        return self.base.at(Lin.of(self.off + i).bv())

    def _mkkey(self):
        return ('slice', self.base.key(), vkey(self.off), vkey(self.len))


def slice_(base, off, ln):
    """caller guarantees off+ln <= base.len"""
    off = simp(off if not isinstance(off, int) else bv(off))
    ln = simp(ln if not isinstance(ln, int) else bv(ln))
    if const_of(ln) == 0:
        return EMPTY
    if const_of(off) == 0 and Lin.of(ln).key() == Lin.of(base.len).key():
        return base
    if isinstance(base, Slice):
        return slice_(base.base, base.off + off, ln)
    if isinstance(base, Fill):
        return Fill(ln, base.v)
    co, cl = const_of(off), const_of(ln)
    if isinstance(base, Lit) and co is not None and cl is not None and co + cl <= len(base.els):
        return Lit(base.els[co:co + cl])
    if isinstance(base, Cat):
        # drop leading parts wholly before off, and trailing parts, when lengths line up syntactically
        o = Lin.of(off)
        l = Lin.of(ln)
        ps = list(base.ps)
        changed = True
        while ps and changed:
            changed = False
            pl = Lin.of(ps[0].len)
            d = o - pl
            if d.key() == Lin(0).key() or (d.is_const() and o.is_const() and pl.is_const() and d.c >= 0):
                o = d
                ps.pop(0)
                changed = True
            elif isinstance(ps[0], Lit) and o.is_const() and 0 < o.c < len(ps[0].els):
                ps[0] = Lit(ps[0].els[o.c:])
                o = Lin(0)
                changed = True
            elif not pl.is_const() and d.is_const() and d.c >= 0:
                o = d
                ps.pop(0)
                changed = True
        if o.is_const() and o.c == 0:
            # take prefix of length l
            acc = []
            rem = l
            while ps:
                pl = Lin.of(ps[0].len)
                d = rem - pl
                if rem.is_const() and rem.c == 0:
                    return cat(*acc)
                if d.is_const() and d.c >= 0 and (pl.is_const() or not rem.is_const()):
                    acc.append(ps.pop(0))
                    rem = d
                    continue
                if isinstance(ps[0], Lit) and rem.is_const() and rem.c < len(ps[0].els):
                    acc.append(Lit(ps[0].els[:rem.c]))
                    return cat(*acc)
                break
            else:
                return cat(*acc)
            acc.append(Slice(cat(*ps), bv(0), simp(rem.bv())))
            return cat(*acc)
        if len(ps) < len(base.ps):
            nb = cat(*ps)
            return slice_(nb, o.bv(), ln)
    return Slice(base, off, ln)


class Fill(Seq):
    def __init__(self, ln, v):
        self.len = ln
        self.v = v

    def at(self, i):
        return self.v

    def _mkkey(self):
        return ('fill', vkey(self.len), vkey(self.v))


def fill(ln, v):
    c = const_of(simp(ln))
    if c is not None and c <= 64:
        return Lit([v] * c)
    return Fill(simp(ln), v)


class Upd(Seq):
    def __init__(self, base, i, v):
        self.base = base; self.i = i; self.v = v; self.len = base.len

    def at(self, j):
        if Lin.of(j).key() == Lin.of(self.i).key():
            return self.v
        return vite(simp(j == self.i), self.v, self.base.at(j))

    def _mkkey(self):
        return ('upd', self.base.key(), vkey(self.i), vkey(self.v))


def upd(base, i, v):
    c = const_of(simp(i))
    if isinstance(base, Lit) and c is not None and c < len(base.els):
        e = list(base.els)
        e[c] = v
        return Lit(e)
    if isinstance(base, Upd) and Lin.of(base.i).key() == Lin.of(i).key():
        return upd(base.base, i, v)
    return Upd(base, simp(i), v)


class Over(Seq):
    """base with [off, off+src.len) overwritten by src"""

    def __init__(self, base, off, src):
        self.base = base; self.off = off; self.src = src; self.len = base.len

    def at(self, j):
        d = simp(j - self.off)
        try:
            s = self.src.at(d)
        except IndexError:
            return self.base.at(j)
        return vite(simp(And(ULE(self.off, j), ULT(d, self.src.len))), s, self.base.at(j))

    def _mkkey(self):
        return ('over', self.base.key(), vkey(self.off), self.src.key())


def over(base, off, src):
    off = simp(off)
    if const_of(off) == 0 and Lin.of(src.len).key() == Lin.of(base.len).key():
        return src
    if src.clen() == 0:
        return base
    if isinstance(base, Lit) and isinstance(src, Lit) and const_of(off) is not None:
        o = const_of(off)
        e = list(base.els)
        e[o:o + len(src.els)] = src.els
        return Lit(e[:len(base.els)])
    return Over(base, off, src)


class SIf(Seq):
    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b
        self.len = a.len if Lin.of(a.len).key() == Lin.of(b.len).key() else If(c, a.len, b.len)

    def at(self, i):
        try:
            x = self.a.at(i)
        except IndexError:
            return self.b.at(i)
        try:
            y = self.b.at(i)
        except IndexError:
            return x
        return vite(self.c, x, y)

    def _mkkey(self):
        return ('sif', vkey(self.c), self.a.key(), self.b.key())


def sif(c, a, b):
    c = simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.key() == b.key():
        return a
    return SIf(c, a, b)


class MapSeq(Seq):
    """element-wise image / generator"""

    def __init__(self, name, ln, fn, key):
        self.name = name; self.len = ln; self.fn = fn; self._k = key

    def at(self, i):
        return self.fn(i)

    def _mkkey(self):
        return ('map', self._k, vkey(self.len))


def trunc_len(s):
    return s.len


def u_bytes(v, n):
    """little-endian byte list of a BV of n bytes"""
    return [simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]


def le(v, n=None):
    n = n or v.size() // 8
    return Lit(u_bytes(v, n))


def from_bytes(bs):
    """list of BV8, little endian -> BV"""
    if len(bs) == 1:
        return bs[0]
    return z3.Concat(*reversed(bs))


def rd(seq, off, n):
    """little-endian read of n bytes at off (BV64 or int)"""
    off = bv(off) if isinstance(off, int) else off
    return simp(from_bytes([seq.at(simp(off + bv(i))) for i in range(n)]))


_eq_atoms = {}


def seq_eq_atom(a, b):
    """Bool term standing for a == b (used as a path condition / result); interned by structure.
    Returns (bool, axioms)"""
    ka, kb = a.key(), b.key()
    if ka == kb:
        return BoolVal(True), []
    if isinstance(a, Lit) and isinstance(b, Lit):
        if len(a.els) != len(b.els):
            return BoolVal(False), []
        if all(isinstance(x, z3.ExprRef) for x in a.els + b.els):
            return simplify(And([x == y for x, y in zip(a.els, b.els)] + [BoolVal(True)])), []
    k = (ka, kb) if repr(ka) <= repr(kb) else (kb, ka)
    if k not in _eq_atoms:
        _eq_atoms[k] = (z3.Bool(fresh_name('seqeq')), (a, b))
    c = _eq_atoms[k][0]
    ax = [z3.Implies(c, a.len == b.len)]
    # literal vs symbolic: exact for short literals
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Lit) and len(x.els) <= 32 and all(isinstance(e, z3.ExprRef) for e in x.els):
            try:
                ax.append(c == And([x.len == y.len] + [e == y.at(bv(i)) for i, e in enumerate(x.els)]))
            except IndexError:
                pass
            break
    return c, ax


def _parts_sized(s):
    return s.parts()


def eq_goal(a, b, tag='v'):
    """formula (with fresh skolems) whose validity proves a == b; a list of conjuncts"""
    if a is b:
        return []
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.sort() != b.sort():
            if z3.is_bool(a) and z3.is_bv(b):
                a = If(a, bv(1, b.size()), bv(0, b.size()))
            elif z3.is_bool(b) and z3.is_bv(a):
                b = If(b, bv(1, a.size()), bv(0, a.size()))
            else:
                return [BoolVal(False)]
        g = simplify(a == b)
        return [] if z3.is_true(g) else [g]
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_eq_goal(a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        r = []
        for o in a.f:
            if o not in b.f:
                continue
            r += eq_goal(a.f[o], b.f[o])
        return r
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.r != b.r:
            return [BoolVal(False)]
        if a.o.key() == b.o.key():
            return []
        return [a.o.bv() == b.o.bv()]
    if hasattr(a, 'key') and hasattr(b, 'key'):
        return [] if a.key() == b.key() else [BoolVal(False)]
    if isinstance(a, Undef) or isinstance(b, Undef):
        return []
    return [BoolVal(False)]


def seq_eq_goal(a, b):
    if a.key() == b.key():
        return []
    pa, pb = list(a.parts()), list(b.parts())
    out = []
    # strip equal prefixes
    while pa and pb:
        x, y = pa[0], pb[0]
        if x.key() == y.key():
            pa.pop(0); pb.pop(0)
            continue
        if isinstance(x, Lit) and isinstance(y, Lit):
            n = min(len(x.els), len(y.els))
            for i in range(n):
                out += eq_goal(x.els[i], y.els[i])
            pa[0:1] = [Lit(x.els[n:])] if len(x.els) > n else []
            pb[0:1] = [Lit(y.els[n:])] if len(y.els) > n else []
            continue
        break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if x.key() == y.key():
            pa.pop(); pb.pop()
            continue
        if isinstance(x, Lit) and isinstance(y, Lit):
            n = min(len(x.els), len(y.els))
            for i in range(1, n + 1):
                out += eq_goal(x.els[-i], y.els[-i])
            pa[-1:] = [Lit(x.els[:-n])] if len(x.els) > n else []
            pb[-1:] = [Lit(y.els[:-n])] if len(y.els) > n else []
            continue
        break
    ra, rb = cat(*pa), cat(*pb)
    if ra.key() == rb.key():
        return out
    w = ra.same_as(rb)
    if w is not None:
        return out + [w]
    lg = simplify(ra.len == rb.len)
    if z3.is_false(lg):
        return out + [lg]
    if not z3.is_true(lg):
        out.append(lg)
    ca, cb = ra.clen(), rb.clen()
    n = ca if ca is not None else cb
    if n is not None and n <= 64:
        for i in range(n):
            out += [z3.Implies(lg, g) for g in eq_goal(ra.at(bv(i)), rb.at(bv(i)))] if n else []
        return out
    i = BitVec(fresh_name('sk'), 64)
    try:
        g = eq_goal(ra.at(i), rb.at(i))
    except IndexError:
        return out  # one side empty: length goal decides
    ins = And(ULT(i, ra.len), ULT(i, rb.len))
    for x in g:
        # elements written one by one are compared on their own
        for u in upd_points(ra) + upd_points(rb):
            out.append(z3.substitute(z3.Implies(ins, x), (i, u)))
            ins = And(ins, i != u)
            x = z3.substitute(x, (simp(i == u), BoolVal(False)), (i == u, BoolVal(False)))
        out.append(z3.Implies(ins, x))
    return out


def upd_points(s):
    out = []
    while isinstance(s, Upd) and len(out) < 3:
        if const_of(s.i) is None:
            out.append(s.i)
        s = s.base
    return out
