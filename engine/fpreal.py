"""Equality of floating-point terms over the reals: both sides are brought to a quotient of polynomials over their atoms
and compared. Used only for goals the solvers cannot decide with uninterpreted floating-point operations; rounding is not modelled."""
import struct
from fractions import Fraction
import z3
from .vals import simp, const_of


class NotReal(Exception):
    pass


def padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + f * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


ONE = {(): Fraction(1)}


def const(c):
    return {(): Fraction(c)} if c else {}


class Real:
    def __init__(self):
        self.keep = []

    def atom(self, t):
        t = z3.simplify(t)
        self.keep.append(t)
        return {(('a', t.sexpr()),): Fraction(1)}, ONE

    def fp(self, t):
        """-> (numerator, denominator)"""
        if z3.is_bv_value(t):
            v = struct.unpack('<d', struct.pack('<Q', t.as_long()))[0] if t.size() == 64 else struct.unpack('<f', struct.pack('<I', t.as_long()))[0]
            if v != v or v in (float('inf'), float('-inf')):
                raise NotReal()
            return const(Fraction(v)), ONE
        n = t.decl().name()
        if n.startswith(('fadd_', 'fsub_')):
            (a, b), (c, d) = self.fp(t.arg(0)), self.fp(t.arg(1))
            return padd(pmul(a, d), pmul(c, b), 1 if n.startswith('fadd') else -1), pmul(b, d)
        if n.startswith('fmul_'):
            (a, b), (c, d) = self.fp(t.arg(0)), self.fp(t.arg(1))
            return pmul(a, c), pmul(b, d)
        if n.startswith('fdiv_'):
            (a, b), (c, d) = self.fp(t.arg(0)), self.fp(t.arg(1))
            if not c:
                raise NotReal()
            return pmul(a, d), pmul(b, c)
        if n.startswith('int2fp_double'):
            return self.int(t.arg(0), True), ONE
        if n == 'pow':
            (a, b), (c, d) = self.fp(t.arg(0)), self.fp(t.arg(1))
            k = ('pow', tuple(sorted((m, str(v)) for m, v in a.items())), tuple(sorted((m, str(v)) for m, v in b.items())),
                 tuple(sorted((m, str(v)) for m, v in c.items())), tuple(sorted((m, str(v)) for m, v in d.items())))
            return {(k,): Fraction(1)}, ONE
        if t.decl().kind() == z3.Z3_OP_BXOR:
            for i in (0, 1):
                if z3.is_bv_value(t.arg(i)) and t.arg(i).as_long() == 1 << (t.size() - 1):
                    a, b = self.fp(t.arg(1 - i))
                    return padd({}, a, -1), b
        return self.atom(t)

    def width(self, t):
        """(bits, signed) that certainly hold the value of the 64-bit signed term t"""
        k = t.decl().kind() if z3.is_app(t) else None
        if z3.is_bv_value(t):
            return max(1, abs(t.as_signed_long()).bit_length()) + 1
        if k == z3.Z3_OP_ZERO_EXT:
            return t.arg(0).size() + 1
        if k == z3.Z3_OP_SIGN_EXT:
            return t.arg(0).size()
        if k == z3.Z3_OP_CONCAT:
            n = t.size()
            for i in range(t.num_args()):
                c = t.arg(i)
                if z3.is_bv_value(c) and c.as_long() == 0:
                    n -= c.size()
                else:
                    break
            return n + 1
        if k == z3.Z3_OP_BMUL:
            return sum(self.width(t.arg(i)) for i in range(t.num_args()))
        if k == z3.Z3_OP_BADD:
            return max(self.width(t.arg(i)) for i in range(t.num_args())) + t.num_args()
        return t.size()

    def int(self, t, top=False):
        """polynomial of a signed integer term"""
        if z3.is_bv_value(t):
            return const(t.as_signed_long())
        k = t.decl().kind()
        if k == z3.Z3_OP_BMUL and self.width(t) <= t.size():
            r = ONE
            for i in range(t.num_args()):
                r = pmul(r, self.int(t.arg(i)))
            return r
        if k == z3.Z3_OP_BADD and self.width(t) <= t.size():
            r = {}
            for i in range(t.num_args()):
                r = padd(r, self.int(t.arg(i)))
            return r
        return self.atom(t)[0]


def has_fp(t, seen=None):
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(('fadd_', 'fsub_', 'fmul_', 'fdiv_')):
                return True
            todo += x.children()
    return False


def decide_ites(g, decided):
    """replace every if-then-else whose condition `decided` (formula -> True, False, None) settles"""
    for _ in range(20):
        todo, seen, sub = [g], set(), []
        while todo:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE:
                v = decided(x.arg(0))
                if v is not None:
                    sub.append((x, x.arg(1) if v else x.arg(2)))
                    continue
            todo += x.children()
        if not sub:
            return g
        g = z3.simplify(z3.substitute(g, *sub))
    return g


def real_equal(g, decided=None):
    """g: a == b over floating-point bit patterns; True if both are the same rational function"""
    if not (z3.is_expr(g) and z3.is_eq(g)) or not has_fp(g):
        return False
    if decided is not None:
        g = decide_ites(g, decided)
        if z3.is_true(g):
            return True
        if not z3.is_eq(g):
            return False
    a, b = g.arg(0), g.arg(1)
    if not z3.is_bv(a) or a.size() not in (32, 64) or not (has_fp(a) and has_fp(b)):
        return False
    try:
        r = Real()
        (p, q), (s, t) = r.fp(a), r.fp(b)
        return bool(q) and bool(t) and pmul(p, t) == pmul(s, q)
    except NotReal:
        return False
