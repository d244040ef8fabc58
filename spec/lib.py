"""Registry of contracts and vocabulary shared by the specification files."""
import re
import z3
from z3 import And, Or, Not, If, BoolVal, ULT, ULE, UGE, UGT, Extract, ZeroExt, SignExt, simplify, BitVec, Function, BitVecSort
from engine.vals import *
from engine.vals import _keep
from engine.sx import *
from engine.spec import *
from engine.spec import Obj

CONTRACTS = {}
LEMMAS = {}
U8, U16, U32, U64 = 8, 16, 32, 64

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'


def full(d):
    """short spelling -> demangled name"""
    d = d.replace('$E', 'eipScanner')
    d = re.sub(r'\bstring\b', STR, d) if 'basic_string' not in d else d
    while True:
        m = re.search(r'(?<!std::)\bvec<([^<>]*(?:<[^<>]*(?:<[^<>]*>)?[^<>]*>)?[^<>]*)>', d)
        if not m:
            break
        t = {'u8': 'unsigned char', 'u16': 'unsigned short'}.get(m.group(1), m.group(1))
        sp = ' ' if t.endswith('>') else ''
        d = d[:m.start()] + 'std::vector<%s, std::allocator<%s%s> >' % (t, t, sp) + d[m.end():]
    return d


def contract(dem, **kw):
    dems = dem if isinstance(dem, (list, tuple)) else [dem]

    def deco(f):
        for d in dems:
            d = full(d)
            CONTRACTS[d] = Contract(d, f, **kw)
        return f
    return deco


def lemma(name, **kw):
    def deco(f):
        LEMMAS[name] = (f, kw)
        return f
    return deco


# ------------------------------------------------------------------ arithmetic
def zx(v, n):
    return simp(ZeroExt(n - v.size(), v)) if n > v.size() else simp(Extract(n - 1, 0, v)) if n < v.size() else v


def sx(v, n):
    return simp(SignExt(n - v.size(), v)) if n > v.size() else v


def lo(v, n):
    return simp(Extract(n - 1, 0, v))


def byte(v):
    return bv(v, 8)


def bytes_(*xs):
    return Lit([bv(x, 8) if isinstance(x, int) else x for x in xs])


def sel(seq, i, zero=None):
    """element i, or zero when the sequence has run out"""
    i = simp(i if not isinstance(i, int) else bv(i))
    try:
        x = seq.at(i)
    except IndexError:
        return zero if zero is not None else bv(0, 8)
    z = zero if zero is not None else bv(0, x.size())
    c = const_of(i)
    n = seq.clen()
    if c is not None and n is not None:
        return x if c < n else z
    return simp(If(ULT(i, seq.len), x, z))


def rdz(seq, off, n):
    """little-endian n bytes at off; missing bytes are 0"""
    off = off if not isinstance(off, int) else bv(off)
    return simp(from_bytes([sel(seq, off + bv(i)) for i in range(n)]))


def sub(seq, off, n):
    """n elements from off; missing elements are 0"""
    off = simp(off if not isinstance(off, int) else bv(off))
    n = simp(n if not isinstance(n, int) else bv(n))
    cn = const_of(n)
    if cn is not None and cn <= 64:
        return Lit([sel(seq, simp(off + bv(i))) for i in range(cn)])
    return SubZ(seq, off, n)


class SubZ(Seq):
    def __init__(self, base, off, n):
        self.base = base; self.off = off; self.len = n

    def at(self, i):
        p = Lin.of(self.off + i).bv()
        return sel(self.base, p)

    def _mkkey(self):
        return ('subz', self.base.key(), vkey(self.off), vkey(self.len))


def mapseq(name, n, f, *key):
    return MapSeq(name, n, f, (name,) + tuple(vkey(k) for k in key))


def tail(seq, off):
    """elements from off on (none if off is past the end)"""
    off = off if not isinstance(off, int) else bv(off)
    n = simp(If(ULE(off, seq.len), seq.len - off, bv(0)))
    return slice_(seq, off, n)


class Prefixed(Seq):
    """first k elements are f(i), the rest those of base"""
    def __init__(self, name, k, f, base, key):
        self.name = name; self.k = k; self.f = f; self.base = base; self.len = base.len; self._kk = key

    def at(self, i):
        try:
            b = self.base.at(i)
        except IndexError:
            return self.f(i)
        return vite(simp(ULT(i, self.k)), self.f(i), b)

    def _mkkey(self):
        return ('pfx', self.name, vkey(self.k), self.base.key()) + tuple(vkey(x) for x in self._kk)
