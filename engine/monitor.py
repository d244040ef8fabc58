"""Monitored contracts: a safety condition on the effects of a function, checked at every effect on every path.

The contract does not describe the final state but what must be true whenever the body waits.  The function is executed on
arbitrary inputs; loops are replaced by an inductive invariant over the locations they change and the monitor's ghost state,
found by dropping the candidates that do not hold on entry or are not preserved (Houdini).  The condition itself is an obligation
at every effect; nothing bounds the number of iterations or arrivals."""
import os
import z3
from z3 import And, Or, Not, If, BoolVal, ULE, is_true, simplify
from .vals import *
from .sx import *
from .loops import Watch, loc_get, loc_set, diff, havoc_value
from .spec import Contract

G = 'g:%ghost'


class Monitor(Contract):
    """spec: used at call sites as usual; ghost(eng, st, args) sets up ghost cells; hooks: {effect: f(eng, st, index, args)};
    templates(eng, st, loc, value) -> candidate invariants as functions of the state"""

    def __init__(self, dem, spec, ghost=None, hooks=None, cell_templates=None, templates=None, bounds=None, allow=(), of=None, **kw):
        Contract.__init__(self, of or dem, spec, **kw)
        self.ghostf = ghost; self.hooks = hooks or {}; self.cell_templates = cell_templates; self.templates = templates
        self.bounds = bounds; self.allow = allow

    def verify(self, eng):
        self.coarsen(eng)
        st = State()
        m, args = self.setup(eng, st)
        if self.prefn:
            from .spec import Ctx
            s = Ctx(eng, st, [], 'pre', self, {})
            self.run_pre(s, args, False)
        r, _ = eng.smt.check(list(st.pc))
        if r == 'unsat':
            eng.failures.append(Failure('vacuous', self.dem, 'the precondition is contradictory', None, 'error'))
            return
        st.mem[G] = Region('mem', 64, 'ghost')
        self.ghostf(eng, st, args)
        eng.monitor = self
        eng.target = self.dem
        self.seen = set()
        outs = eng.run(st, m, args)
        self.npaths = len(outs)
        for s, o in outs:
            if o[0] == 'ret':
                self.ends(eng, s)
        if not outs:
            eng.failures.append(Failure('vacuous', self.dem, 'the body has no feasible path', None, 'error'))
        if not self.seen:
            eng.failures.append(Failure('effects', self.dem, 'none of the monitored effects occurs', None, 'unknown'))
        eng.target = None

    apart = True        # what callers assume of the function is one effect; the monitored condition is a property of its own
    loop_templates = None
    batch = False
    exact = True        # are the hooks' assumptions on the environment all there is to know

    def ends(self, eng, st):
        """at every normal return"""

    def on(self, eng, st, kind, i, args):
        """an effect occurs"""
        f = self.hooks.get(kind)
        if f is not None:
            if not eng.quiet:
                self.seen.add(kind)
            return f(self, eng, st, i, args)
        if kind.startswith('call:') or kind in self.allow or any(a.endswith('*') and kind.startswith(a[:-1]) for a in self.allow):
            return
        self.check(eng, st, BoolVal(False), 'effect %s, which the contract does not allow' % kind)

    def check(self, eng, st, cond, text):
        c = simplify(cond)
        if is_true(c) or int_valid(st.pc, c):
            r, m = 'yes', None
        elif eng.quiet:
            r, m = 'unknown', None
        else:
            r, m = eng.smt.valid(st.pc, c, want_model=True)
        if not eng.quiet:
            eng.obligations.append(('monitor', eng.where(), {'yes': 'proved', 'no': 'refuted', 'unknown': 'unknown'}[r]))
            if r != 'yes':
                # behind a loop the state is whatever the invariants allow: a counterexample may not be reachable
                sure = r == 'no' and self.exact and not eng.loops_seen
                eng.failures.append(Failure('monitor', eng.where(), text, m, 'refuted' if sure else 'unknown'))
        st.pc.append(c)


def cell(eng, st, off, size=8):
    return eng.load_bytes(st, Ptr(G, off), size)


def set_cell(eng, st, off, v, size=8):
    w = st.wr(G)
    w.cells[off] = (size, v)


def valid(eng, pc, g):
    if is_true(simplify(g)):
        return True
    return int_valid(pc, g) or eng.smt.valid(pc, g, timeout=1000)[0] == 'yes'


def keep_each(eng, pc, fs, st):
    """those of the candidates that hold in the state"""
    return [f for f in fs if valid(eng, pc, f(st))]


def keep_batch(eng, pc, fs, st):
    """the same, all in one query while it has no counterexample; a model drops every candidate it refutes"""
    fs = [(f, simplify(f(st))) for f in fs]
    fs = [(f, g) for f, g in fs if not z3.is_false(g)]
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(*pc)
    while fs:
        s.push()
        s.add(Or(*[Not(g) for _, g in fs]))
        r = s.check()
        if r == z3.unsat:
            return [f for f, _ in fs]
        if r != z3.sat:
            s.pop()
            return [f for f, g in fs if eng.smt.valid(pc, g, timeout=1000)[0] == 'yes']
        m = s.model()
        rest = [(f, g) for f, g in fs if not z3.is_false(m.eval(g, model_completion=True))]
        s.pop()
        if len(rest) == len(fs):
            return [f for f, g in fs if eng.smt.valid(pc, g, timeout=1000)[0] == 'yes']
        fs = rest
    return []


def monitor_loop(eng, fn, st, env, block, prev, body):
    mon = eng.monitor
    pre = list(st.pc)
    locs = []
    dead = []
    invs = []

    def header():
        h = st.clone()
        h.pc = list(pre)
        for l in locs:
            v = loc_get(eng, st, l)
            if isinstance(v, Ptr) and v.r in st.mem and st.mem[v.r].kind == 'seq':
                # a position in a sequence stays at an element
                loc_set(eng, h, l, Ptr(v.r, Lin.of(z3.BitVec(fresh_name('pos'), 64)).scale(st.mem[v.r].esz)))
            else:
                loc_set(eng, h, l, havoc_value(eng, h, v, l))
        for l in dead:
            w = h.wr(l[1])
            (w.cells if l[0] == 'cell' else w.objs).pop(l[2], None)
        for f in mon.templates(eng):
            if f.always:
                h.pc.append(f(h))
        for f in invs:
            h.pc.append(f(h))
        return h

    def iteration(h):
        w = Watch(fn, block, body)
        eng.watches.append(w)
        try:
            return eng.run_blocks(fn, h, dict(env), block, prev, (block, body), True)
        finally:
            eng.watches.pop()

    def entry_dead(loc):
        r = st.mem.get(loc[1])
        if loc[0] == 'cell':
            return r is not None and not r.init and loc[2] not in r.cells
        if loc[0] == 'obj':
            return r is not None and loc[2] not in r.objs
        return False

    eng.quiet += 1
    try:
        for _ in range(30):
            h = header()
            new = []
            for s, o, e in iteration(h.clone()):
                if o[0] == 'back':
                    for l in diff(eng, h, s):
                        if l[0] != 'trace' and l not in locs and l not in dead and l not in new:
                            new.append(l)
            if not new:
                break
            for l in new:
                (dead if entry_dead(l) else locs).append(l)
        else:
            raise Unsupported('the loop does not stabilise')
        cand = [f for f in mon.templates(eng) if not f.always]
        for l in locs:
            if l[0] == 'cell' and l[1] != G and (st.mem[l[1]].size or 0) <= 16:
                cand += mon.cell_templates(eng, l)
        if mon.loop_templates is not None:
            cand += mon.loop_templates(mon, eng, st, locs)
        keep = keep_batch if mon.batch else keep_each
        invs = keep(eng, pre, cand, st)
        while True:
            h = header()
            left = invs
            for s, o, e in iteration(h):
                if o[0] != 'back' or not eng.smt.feasible(s.pc, BoolVal(True)):
                    continue
                left = keep(eng, s.pc, left, s)
            if len(left) == len(invs):
                break
            invs = left
    finally:
        eng.quiet -= 1
    if not eng.quiet:
        eng.obligations += [('loop-invariant', eng.where(), 'proved')] * max(1, len(invs))
    return [(s, o, e) for s, o, e in iteration(header()) if o[0] != 'back']


class Inv:
    def __init__(self, f, name, always=False):
        self.f = f; self.name = name; self.always = always

    def __call__(self, st):
        return self.f(st)

    def __repr__(self):
        return self.name


# ------------------------------------------------------------------ linear integer reasoning about machine words
class NoInt(Exception):
    pass


def int_valid(pc, goal):
    """validity of a goal over 64-bit words, decided over the integers where no operation can overflow"""
    try:
        return IntView(pc).valid(goal)
    except NoInt as e:
        if os.environ.get('VINT'):
            print('no integer view:', str(e)[:300])
        return False


class IntView:
    def __init__(self, pc):
        self.pc = [simplify(f) for f in pc]
        self.bnd = {}
        self.keep = []
        self.vars = {}
        self.memo = {}
        self.cons = []
        fs = []
        st = list(self.pc)
        while st:
            f = st.pop()
            if z3.is_and(f):
                st.extend(f.children())
            elif z3.is_not(f) and z3.is_or(f.arg(0)):
                st.extend(Not(x) for x in f.arg(0).children())
            else:
                fs.append(f)
        self.facts = fs
        for f in fs:
            self.bound(f)
        eqs = [f for f in fs if z3.is_eq(f) and z3.is_bv(f.arg(0)) and self.leaf(f.arg(0)) and self.leaf(f.arg(1))]
        for _ in range(3):
            for f in eqs:
                a, b = f.arg(0), f.arg(1)
                x, y = self.rng(a), self.rng(b)
                self.bnd[a.get_id()] = self.bnd[b.get_id()] = (max(x[0], y[0]), min(x[1], y[1]))
                self.keep += [a, b]

    def leaf(self, t):
        return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED

    def bound(self, f):
        """constant signed bounds of leaves"""
        neg = False
        if z3.is_not(f):
            neg = True; f = f.arg(0)
        if not z3.is_app(f) or f.num_args() != 2:
            return
        d = f.decl().kind()
        a, b = f.arg(0), f.arg(1)
        if d not in (z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT):
            return
        if d in (z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            a, b = b, a
        strict = d in (z3.Z3_OP_SLT, z3.Z3_OP_SGT)
        if neg:
            a, b = b, a
            strict = not strict
        # a <= b or a < b
        if z3.is_bv_value(b) and self.leaf(a):
            lo, hi = self.rng(a)
            self.bnd[a.get_id()] = (lo, min(hi, b.as_signed_long() - strict))
            self.keep.append(a)
        elif z3.is_bv_value(a) and self.leaf(b):
            lo, hi = self.rng(b)
            self.bnd[b.get_id()] = (max(lo, a.as_signed_long() + strict), hi)
            self.keep.append(b)

    def rng(self, t):
        n = t.size()
        return self.bnd.get(t.get_id(), (-(1 << (n - 1)), (1 << (n - 1)) - 1))

    def term(self, t):
        """(integer term, lower bound, upper bound) of the signed value of t"""
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        r = self.term1(t)
        n = t.size()
        if r[1] < -(1 << (n - 1)) or r[2] >= 1 << (n - 1):
            raise NoInt(t if 't' in dir() else f)
        self.keep.append(t)
        self.memo[i] = r
        return r

    def term1(self, t):
        if z3.is_bv_value(t):
            v = t.as_signed_long()
            return z3.IntVal(v), v, v
        if not z3.is_app(t):
            raise NoInt(t if 't' in dir() else f)
        d = t.decl().kind()
        if d == z3.Z3_OP_UNINTERPRETED:
            v = self.vars.get(t.get_id())
            if v is None:
                v = self.vars[t.get_id()] = z3.Int('w!%d' % t.get_id())
                lo, hi = self.rng(t)
                self.cons += [v >= lo, v <= hi]
            return (v,) + self.rng(t)
        ch = t.children()
        if d == z3.Z3_OP_BADD:
            xs = [self.term(c) for c in ch]
            return sum(x[0] for x in xs), sum(x[1] for x in xs), sum(x[2] for x in xs)
        if d == z3.Z3_OP_BSUB:
            a, b = self.term(ch[0]), self.term(ch[1])
            return a[0] - b[0], a[1] - b[2], a[2] - b[1]
        if d == z3.Z3_OP_BNEG:
            a = self.term(ch[0])
            return -a[0], -a[2], -a[1]
        if d == z3.Z3_OP_BMUL:
            a, b = [self.term(c) for c in ch] if len(ch) == 2 else (None, None)
            if a is None or not (a[1] == a[2] or b[1] == b[2]):
                raise NoInt(t if 't' in dir() else f)
            c = [a[1] * b[1], a[1] * b[2], a[2] * b[1], a[2] * b[2]]
            return a[0] * b[0], min(c), max(c)
        if d in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            a, b = self.term(ch[0]), self.term(ch[1])
            if b[1] != b[2] or b[1] <= 0:
                raise NoInt(t if 't' in dir() else f)
            k = b[1]
            q = z3.If(a[0] >= 0, a[0] / k, -((-a[0]) / k))
            if d in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                tr = lambda x: x // k if x >= 0 else -((-x) // k)
                return q, tr(a[1]), tr(a[2])
            return a[0] - k * q, (0 if a[1] >= 0 else -(k - 1)), (0 if a[2] <= 0 else k - 1)
        if d == z3.Z3_OP_ITE:
            c = self.form(ch[0])
            a, b = self.term(ch[1]), self.term(ch[2])
            return z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        if d == z3.Z3_OP_SIGN_EXT:
            return self.term(ch[0])
        if d == z3.Z3_OP_ZERO_EXT:
            a = self.term(ch[0])
            if a[1] < 0:
                raise NoInt(t if 't' in dir() else f)
            return a
        raise NoInt(t if 't' in dir() else f)

    def form(self, f):
        if z3.is_true(f) or z3.is_false(f):
            return f
        if not z3.is_app(f):
            raise NoInt(t if 't' in dir() else f)
        d = f.decl().kind()
        ch = f.children()
        if d in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or d == z3.Z3_OP_ITE and z3.is_bool(f) or d in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(ch[0]):
            cs = [self.form(c) for c in ch]
            return {z3.Z3_OP_AND: And, z3.Z3_OP_OR: Or, z3.Z3_OP_NOT: lambda x: Not(x[0]), z3.Z3_OP_IMPLIES: lambda x: z3.Implies(*x), z3.Z3_OP_ITE: lambda x: If(*x),
                    z3.Z3_OP_EQ: lambda x: x[0] == x[1], z3.Z3_OP_IFF: lambda x: x[0] == x[1]}[d](cs)
        if d == z3.Z3_OP_UNINTERPRETED and z3.is_bool(f):
            return z3.Bool('b!%d' % f.get_id())
        if len(ch) == 2 and z3.is_bv(ch[0]):
            a, b = self.term(ch[0]), self.term(ch[1])
            op = {z3.Z3_OP_EQ: lambda x, y: x == y, z3.Z3_OP_SLEQ: lambda x, y: x <= y, z3.Z3_OP_SLT: lambda x, y: x < y, z3.Z3_OP_SGEQ: lambda x, y: x >= y,
                  z3.Z3_OP_SGT: lambda x, y: x > y}.get(d)
            if op is None:
                raise NoInt(t if 't' in dir() else f)
            return op(a[0], b[0])
        raise NoInt(t if 't' in dir() else f)

    def valid(self, goal):
        self.keep.append(goal)
        g = self.form(simplify(goal))
        hyp = []
        for f in self.facts:
            try:
                hyp.append(self.form(f))
            except NoInt:
                pass
        s = z3.Solver()
        s.set('timeout', 8000)
        s.add(*hyp)
        s.add(*self.cons)
        s.add(Not(g))
        return s.check() == z3.unsat
