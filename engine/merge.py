"""Joining the two sides of a conditional again, so that a sequence of independent conditionals does not multiply the paths.

The sides are executed up to the immediate post-dominator of the branch; states that arrive there with the same effects and that
differ only in scalars are combined, with the differing scalars made conditional expressions.  States that differ in more stay apart."""
import z3
from z3 import And, Or, Not, If, BoolVal, simplify, is_true
from .vals import *
from .sx import *


def ipdom(fn):
    """block -> immediate post-dominator along normal control flow"""
    if getattr(fn, '_ipdom', None) is not None:
        return fn._ipdom
    succ = {}
    for b in fn.order:
        t = fn.blocks[b][-1]
        succ[b] = [t.a[3]] if t.op == 'invoke' else fn.succs(b)
    all_ = set(fn.order)
    pd = {}
    for b in fn.order:
        pd[b] = {b} if fn.blocks[b][-1].op == 'ret' else set(all_)
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.order):
            if not succ[b]:
                continue
            x = set.intersection(*[pd[s] for s in succ[b]]) | {b}
            if x != pd[b]:
                pd[b] = x
                ch = True
    out = {}
    for b in fn.order:
        c = pd[b] - {b}
        if c and len(c) < len(all_) - 1:
            # the nearest one is post-dominated by all others
            for x in c:
                if c <= pd[x]:
                    out[b] = x
                    break
    fn._ipdom = out
    return out


def try_branch(eng, fn, st, env, alts, block, work, out):
    """-> True if the branch was executed up to the join"""
    if eng.watches or eng.quiet_loops():
        return False
    j = ipdom(fn).get(block)
    if j is None or j in fn.loops:
        return False
    cs = [(simplify(c), b) for c, b in alts]
    if any(is_true(c) for c, b in cs):
        return False
    w0 = []
    eng.branch(st, env, alts, block, w0)
    if len(w0) < 2:
        work.extend(w0)
        return True
    n0 = len(st.pc) - 1
    arrived = []
    for s, e, b, prev, skip in w0:
        for s2, o, e2 in eng.run_blocks(fn, s, e, b, prev, None, until=j):
            if o[0] == 'join':
                e2 = dict(e2)
                eng.phis(fn, e2, j, o[1])
                arrived.append((s2, e2))
            else:
                out.append((s2, o, e2))
    res = []
    for s, e in arrived:
        for k, (t, f) in enumerate(res):
            m = merge(eng, t, f, s, e)
            if m is not None:
                res[k] = m
                break
        else:
            res.append((s, e))
    for s, e in res:
        try:
            eng._exec_from(fn, s, e, j, eng.nphis(fn, j), work, out)
        except DeadPath:
            pass
    return True


def same(a, b):
    return a is b or vkey(a) == vkey(b)


def pick(c, x, y):
    """c ? x : y for scalars, None if they cannot be combined"""
    if same(x, y):
        return x
    if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.sort() == y.sort():
        return simp(If(c, x, y))
    return None


def merge(eng, a, ea, b, eb):
    if len(a.trace) != len(b.trace) or any(x is not y for x, y in zip(a.trace, b.trace)) or {k: v.key() for k, v in a.cnt.items()} != {k: v.key() for k, v in b.cnt.items()}:
        return None
    if a.exc != b.exc or a.wit != b.wit or a.applied != b.applied or a.loopfacts != b.loopfacts:
        return None
    n = 0
    while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
        n += 1
    ca, cb = And(a.pc[n:]) if a.pc[n:] else BoolVal(True), And(b.pc[n:]) if b.pc[n:] else BoolVal(True)
    m = a.clone()
    m.memo = {}
    for rid, y in b.mem.items():
        x = a.mem.get(rid)
        if x is None:
            m.mem[rid] = y
            continue
        if x is y:
            continue
        r = region(eng, ca, x, y)
        if r is None:
            return None
        m.mem[rid] = r
    env = {}
    for k, v in ea.items():
        if k not in eb:
            continue
        w = eb[k]
        if k.startswith('%') and k[1:].isalpha():
            # bookkeeping
            if k == '%allocas':
                env[k] = type(v)(list(v) + [x for x in w if x not in v])
            continue
        if v is w:
            env[k] = v
            continue
        p = pick(ca, v, w) if v is not None and w is not None else None
        if p is not None:
            env[k] = p
        # else: a temporary of the sides, not used after the join (its use would be an undefined local)
    m.pc = a.pc[:n] + [simplify(Or(ca, cb))]
    return m, env


def region(eng, c, x, y):
    for s in ('kind', 'size', 'live', 'esz', 'et', 'ro', 'init', 'tag', 'cls'):
        if getattr(x, s) != getattr(y, s):
            return None
    if x.kind == 'seq':
        return x if x.seq is y.seq or x.seq.key() == y.seq.key() else None
    r = x.copy()
    for off in set(x.cells) | set(y.cells):
        if off not in x.cells or off not in y.cells:
            if x.init:
                return None
            r.cells.pop(off, None)      # initialised on one side only
            continue
        (n, v), (k, w) = x.cells[off], y.cells[off]
        if n != k:
            return None
        p = pick(c, v, w)
        if p is None:
            return None
        r.cells[off] = (n, p)
    for off in set(x.objs) | set(y.objs):
        p, q = x.objs.get(off), y.objs.get(off)
        if p is None or q is None:
            r.objs.pop(off, None)
            continue
        if p is q:
            continue
        if hasattr(p, 'rid') and hasattr(q, 'rid') and p.rid == q.rid or hasattr(p, 'seq') and hasattr(q, 'seq') and p.seq.key() == q.seq.key() \
                or type(p) is type(q) and hasattr(p, 'key') and p.key() == q.key():
            continue
        return None
    return r
