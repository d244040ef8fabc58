"""Loops: unrolled when their exit is decided by constants, otherwise replaced by an inductive summary."""
import os
import z3
from z3 import And, Or, Not, If, BoolVal, ULT, ULE, is_true, is_false, simplify
from .vals import *
from .vals import _keep
from .sx import *

UNROLL = 70


class Undecided(Exception):
    pass


class Watch:
    def __init__(self, fn, header, body):
        self.fn = fn; self.header = header; self.body = body; self.state = None


def do_loop(eng, fn, st, env, block, prev):
    """-> [(state, outcome, env)]"""
    body = fn.loops[block]
    if eng.unroll_only is not None:
        return unroll_bounded(eng, fn, st, env, block, prev, body)
    nests = not eng.summaries and any(L.outer for L in eng.loop_specs.values())
    r = None if nests else try_unroll(eng, fn, st, env, block, prev, body)
    if r is not None:
        return r
    if eng.monitor is not None:
        from .monitor import monitor_loop
        eng.loops_seen.append(eng.where())
        return monitor_loop(eng, fn, st, env, block, prev, body)
    return summarise(eng, fn, st, env, block, prev, body)


def unroll_bounded(eng, fn, st, env, block, prev, body):
    out = []
    work = [(st, dict(env), prev, 0)]
    while work:
        s, e, p, n = work.pop()
        if n > max(eng.unroll_only, 0):
            # literal trip counts may be longer
            if n > UNROLL:
                eng.bounded = True
                continue
        w = Watch(fn, block, body)
        eng.watches.append(w)
        try:
            rs = eng.run_blocks(fn, s, e, block, p, (block, body), True)
        finally:
            eng.watches.pop()
        for s2, o, e2 in rs:
            if o[0] == 'back':
                if n >= eng.unroll_only and w.state != 'literal':
                    eng.bounded = True
                    continue
                work.append((s2, e2, o[1], n + 1))
            else:
                out.append((s2, o, e2))
    return out


def try_unroll(eng, fn, st, env, block, prev, body):
    out = []
    work = [(st.clone(), dict(env), prev, 0)]
    eng.quiet += 1
    try:
        first = Watch(fn, block, body)
        first.abort = True
        eng.watches.append(first)
        try:
            eng.run_blocks(fn, st.clone(), dict(env), block, prev, (block, body), True)
        except Undecided:
            pass
        finally:
            eng.watches.pop()
        if first.state != 'literal':
            return None
    finally:
        eng.quiet -= 1
    while work:
        s, e, p, n = work.pop()
        if n > UNROLL:
            return None
        w = Watch(fn, block, body)
        eng.watches.append(w)
        try:
            rs = eng.run_blocks(fn, s, e, block, p, (block, body), True)
        finally:
            eng.watches.pop()
        if w.state == 'symbolic':
            return None
        for s2, o, e2 in rs:
            if o[0] == 'back':
                work.append((s2, e2, o[1], n + 1))
            else:
                out.append((s2, o, e2))
    return out


# ------------------------------------------------------------------ summaries
class Cand:
    """value of a location as a function of the iteration number"""

    def __init__(self, kind, at, nxt=None, spec=None, comp=None):
        self.kind = kind; self.at = at; self.nxt = nxt; self.spec = spec; self.comp = comp


def loc_get(eng, st, loc):
    if loc[0] == 'cell':
        r = st.mem[loc[1]]
        c = r.cells.get(loc[2])
        if c is not None and c[0] == loc[3]:
            return c[1]
        try:
            eng.quiet += 1
            return eng.load_bytes(st, Ptr(loc[1], loc[2]), loc[3])
        finally:
            eng.quiet -= 1
    if loc[0] == 'seq':
        return st.mem[loc[1]].seq
    if loc[0] == 'obj':
        o = st.mem[loc[1]].objs.get(loc[2])
        if isinstance(o, VecObj):
            return st.mem[o.rid].seq
        if isinstance(o, StrObj):
            return o.seq
        return o
    if loc[0] == 'cnt':
        return st.cnt.get(loc[1], Lin(0)).bv()
    if loc[0] == 'trace':
        return st.trace
    raise KeyError(loc)


def loc_set(eng, st, loc, v):
    if loc[0] == 'cell':
        w = st.wr(loc[1])
        for o in [o for o, (s, _) in w.cells.items() if o < loc[2] + loc[3] and loc[2] < o + s]:
            del w.cells[o]
        w.cells[loc[2]] = (loc[3], v)
    elif loc[0] == 'seq':
        w = st.wr(loc[1]); w.seq = v
    elif loc[0] == 'obj':
        w = st.wr(loc[1])
        o = w.objs.get(loc[2])
        if isinstance(o, VecObj):
            rid = eng.alloc_seq(st, v, o.et, 'loop')
            w.objs[loc[2]] = VecObj(rid, o.et)
        elif isinstance(o, StrObj):
            w.objs[loc[2]] = StrObj(v)
        else:
            w.objs[loc[2]] = v
    elif loc[0] == 'cnt':
        st.cnt[loc[1]] = Lin.of(v)
    elif loc[0] == 'trace':
        st.trace = v


def diff(eng, hs, bs):
    """locations of hs's memory that differ in bs"""
    out = []
    for rid, r in hs.mem.items():
        b = bs.mem.get(rid)
        if b is None or b is r:
            continue
        if r.kind == 'seq':
            if b.live and (b.seq is not r.seq and b.seq.key() != r.seq.key()):
                out.append(('seq', rid))
            continue
        if r.kind != 'mem':
            continue
        offs = {}
        for o, (s, v) in list(r.cells.items()) + list(b.cells.items()):
            offs[o] = max(s, offs.get(o, 0))
        # drop offsets covered by a wider one
        cov = []
        for o in sorted(offs):
            if any(p <= o and o + offs[o] <= p + offs[p] and p != o for p in offs):
                continue
            cov.append(o)
        for o in cov:
            x, y = r.cells.get(o), b.cells.get(o)
            if x is not None and y is not None and x[0] == y[0] and (x[1] is y[1] or same(x[1], y[1])):
                continue
            if x is None and y is not None and r.init is False and y[0] == offs[o]:
                # written for the first time inside the loop: dead on entry
                out.append(('cell', rid, o, y[0]))
                continue
            if x is None and r.init:
                # lazily materialised initial byte
                if y[0] == 1 and z3.is_const(y[1]) and y[1].decl().name() == '%s[%d]' % (r.name, o):
                    continue
            out.append(('cell', rid, o, offs[o]))
        for o in set(r.objs) | set(b.objs):
            x, y = r.objs.get(o), b.objs.get(o)
            if x is y:
                continue
            if isinstance(x, VecObj) and isinstance(y, VecObj):
                if x.rid == y.rid:
                    continue
                if hs.mem[x.rid].seq.key() == bs.mem[y.rid].seq.key():
                    # same content in new storage: iterators are no longer valid, so treat as changed
                    pass
                out.append(('obj', rid, o))
                continue
            if isinstance(x, StrObj) and isinstance(y, StrObj):
                if x.seq.key() != y.seq.key():
                    out.append(('obj', rid, o))
                continue
            if x is not None and y is not None and hasattr(x, 'key') and hasattr(y, 'key') and x.key() == y.key():
                continue
            out.append(('obj', rid, o))
    if hs.trace is not bs.trace and len(hs.trace) != len(bs.trace) or any(x is not y for x, y in zip(hs.trace, bs.trace)):
        out.append(('trace',))
    for c in set(hs.cnt) | set(bs.cnt):
        if hs.cnt.get(c, Lin(0)).key() != bs.cnt.get(c, Lin(0)).key():
            out.append(('cnt', c))
    # drop content changes of storage owned by a changed vector object
    return out


def same(a, b):
    try:
        return vkey(a) == vkey(b)
    except Exception:
        return False


def proves_eq(eng, pc, a, b):
    if type(a).__name__ == 'MapObj' and type(b).__name__ == 'MapObj':
        from .maps import equal
        return equal(eng, pc, a, b)
    try:
        gs = eq_goal(a, b)
    except (Unsupported, z3.Z3Exception):
        return False
    for g in gs:
        if eng.smt.valid(pc, g, timeout=4000)[0] != 'yes':
            return False
    return True


def explain(eng, pc, a, b):
    print('got ', type(a).__name__, [repr(x) for x in a.parts()] if isinstance(a, Seq) else a)
    print('want', type(b).__name__, [repr(x) for x in b.parts()] if isinstance(b, Seq) else b)
    try:
        for g in eq_goal(a, b):
            r = eng.smt.valid(pc, g, timeout=4000)[0]
            if r != 'yes':
                print(r, g)
                for f in pc:
                    print('   pc', f)
                return
    except Unsupported as e:
        print(e)


def proves_arg(eng, pc, p, q):
    if isinstance(p, tuple) or isinstance(q, tuple):
        return isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q) and all(proves_arg(eng, pc, a, b) for a, b in zip(p, q))
    return proves_eq(eng, pc, p, q)


def candidates(eng, st, loc, v0, v1s, k, dead):
    """candidate closed forms, best first"""
    out = []
    if dead:
        return out
    if loc[0] == 'trace':
        for L in list(eng.loop_specs.values()):
            if L.events is not None and len(L.trace0) == len(v0) and all(trace_same(x, y, eng, st.pc) for x, y in zip(L.trace0, v0)):
                from .spec import LoopTrace
                out.append(Cand('trace', lambda kk, L=L: tuple(v0) + ((LoopTrace(L.uid, kk),) if const_of(simp(kk)) != 0 else ()), None, L, None))
        return out
    for L in (list(eng.loop_specs.values()) if loc[0] != 'cnt' else ()):
        if L.inner and len(eng.summaries) < 2 or L.outer and len(eng.summaries) > 1:
            continue
        if L.inner:
            # a loop inside a specified loop goes on with what the earlier rounds of that one made
            for c in L.accs if isinstance(v0, Seq) else ():
                if L.accs[c].clen() == 0 and L.accet.get(c) == 'rec':
                    out.append(Cand('spec', lambda kk, L=L, c=c: cat(v0, L.value(c, kk)), lambda kk, L=L, c=c: cat(v0, L.next(c, kk)), L, c))
            continue
        comps = list(L.bvs) + list(L.accs) + list(L.funs)
        for c in comps:
            try:
                w0 = L.value(c, bv(0))
            except Exception:
                continue
            if type_match(v0, w0) and proves_eq(eng, st.pc, v0, w0):
                out.append(Cand('spec', lambda kk, L=L, c=c: L.value(c, kk), lambda kk, L=L, c=c: L.next(c, kk), L, c))
    # linear
    if isinstance(v0, z3.ExprRef) and z3.is_bv(v0):
        steps = set()
        for v1 in v1s:
            if not (isinstance(v1, z3.ExprRef) and z3.is_bv(v1) and v1.size() == v0.size()):
                steps.add(None); continue
            steps.add(const_of(simp(v1 - v0)))
        if len(steps) == 1 and None not in steps:
            c = steps.pop()
            n = v0.size()
            kx = lambda kk: kk if n == 64 else (z3.Extract(n - 1, 0, kk) if n < 64 else z3.ZeroExt(n - 64, kk))
            f = lambda kk: simp(v0 + bv(c, n) * kx(kk)) if c != 1 else simp(v0 + kx(kk))
            out.append(Cand('linear', f, lambda kk: f(simp(kk + 1))))
    if isinstance(v0, Ptr):
        steps = set()
        for v1 in v1s:
            if isinstance(v1, Ptr) and v1.r == v0.r:
                d = v1.o - v0.o
                steps.add(d.c if d.is_const() else None)
            else:
                steps.add(None)
        if len(steps) == 1 and None not in steps:
            c = steps.pop()
            f = lambda kk: Ptr(v0.r, v0.o + Lin.of(kk).scale(c))
            out.append(Cand('linear', f, lambda kk: f(simp(kk + 1))))
    return out


def witness(eng, st, L, k):
    """the body's loop ended at k: so many iterations the specified one has"""
    if L.K is not None and not any(u == L.uid for u, _ in st.wit):
        valid = lambda c: eng.smt.valid(st.pc, c)[0] == 'yes'
        if valid(L.stop(k)):
            st.pc.append(L.K == k)
        elif valid(Not(L.stop(k))):
            k1 = simp(k + 1)
            if eng.smt.valid(st.pc + L.unfold(k), L.stop(k1))[0] == 'yes':
                st.pc.append(L.K == k1)
    st.wit = st.wit + ((L.uid, k),)


def trace_same(x, y, eng=None, pc=None):
    if x is y:
        return True
    if x.kind != y.kind:
        return False
    if x.kind == 'loop':
        return x.uid == y.uid and (same(x.k, y.k) or eng is not None and proves_arg(eng, pc, x.k, y.k))
    return len(x.args) == len(y.args) and all(same(p, q) or eng is not None and proves_arg(eng, pc, p, q) for p, q in zip(x.args, y.args))


def type_match(a, b):
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.sort() == b.sort()
    if isinstance(a, Seq) and isinstance(b, Seq):
        ea, eb = sample(a), sample(b)
        if ea is None or eb is None:
            return True
        if isinstance(ea, z3.ExprRef) and isinstance(eb, z3.ExprRef):
            return ea.sort() == eb.sort()
        return type(ea) is type(eb)
    if type(a).__name__ == 'MapObj':
        return type(b).__name__ == 'MapObj'
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r


def sample(s):
    try:
        return s.at(bv(0))
    except (IndexError, Unsupported):
        return None


def havoc_value(eng, st, v, loc):
    if isinstance(v, z3.ExprRef):
        if z3.is_bool(v):
            return z3.Bool(fresh_name('hv'))
        return BitVec(fresh_name('hv'), v.size())
    if isinstance(v, Seq):
        n = fresh_name('hv')
        if isinstance(sample(v), z3.ExprRef):
            b = sample(v).size()
            f = z3.Function(n, z3.BitVecSort(64), z3.BitVecSort(b))
            ln = BitVec(n + '.len', 64)
            st.pc.append(ULE(ln, bv(SYMLEN)))
            return Sym(n, ln, lambda i: f(i), (n,))
        if sample(v) is None:
            ob = st.mem[loc[1]].objs.get(loc[2]) if loc[0] == 'obj' else None
            et = ob.et if isinstance(ob, VecObj) else ('char' if isinstance(ob, StrObj) else st.mem[loc[1]].et)
            return eng.sym_seq(st, n, et)
        e = sample(v)
        if isinstance(e, Rec):
            return eng.sym_seq(st, n, e.cls)
    if isinstance(v, Ptr):
        if v.r is None:
            raise Unsupported('loop-carried pointer')
        return Ptr(v.r, Lin.of(BitVec(fresh_name('hvo'), 64)))
    if v is None or v is UNDEF:
        return UNDEF
    if type(v).__name__ == 'MapObj':
        return type(v)(fresh_name('hm'), v.kt, v.vt)
    raise Unsupported('loop-carried value %s' % type(v).__name__)


def summarise(eng, fn, st, env, block, prev, body):
    eng.summaries.append(block)
    try:
        return summarise1(eng, fn, st, env, block, prev, body)
    finally:
        eng.summaries.pop()


def summarise1(eng, fn, st, env, block, prev, body):
    eng.loops_seen.append('%s' % eng.where())
    k = BitVec(fresh_name('k'), 64)
    pre_pc = list(st.pc)
    chosen = {}      # loc -> Cand | 'havoc' | 'dead'
    cands = {}
    invs = []        # formulas over k
    dead_locs = set()
    fnoms = set(env.get('%allocas', ()))
    specs_used = set()

    def header(kk, extra=True):
        h = st.clone()
        h.pc = list(pre_pc)
        h.pc.append(ULE(kk, bv(1 << 48)))
        for L in specs_used:
            h.pc.extend(L.axioms(kk))
            if L.outer:
                for M in list(eng.loop_specs.values()):
                    if M.inner:
                        h.pc.extend(M.axioms(bv(0)))
        for loc, c in chosen.items():
            if c == 'dead':
                if loc[0] == 'cell':
                    w = h.wr(loc[1])
                    w.cells.pop(loc[2], None)
                elif loc[0] == 'obj':
                    w = h.wr(loc[1]); w.objs.pop(loc[2], None)
            elif c == 'havoc':
                loc_set(eng, h, loc, havoc_value(eng, h, loc_get(eng, st, loc), loc))
            else:
                loc_set(eng, h, loc, c.at(kk))
        # linear alias: storage regions of vectors whose objects are replaced stay as they are
        if extra:
            for f in invs:
                h.pc.append(f(kk))
        return h

    def iteration(h):
        w = Watch(fn, block, body)
        eng.watches.append(w)
        try:
            return eng.run_blocks(fn, h, dict(env), block, prev, (block, body), True)
        finally:
            eng.watches.pop()

    def entry_dead(loc):
        if loc[0] == 'cell':
            r = st.mem.get(loc[1])
            return r is not None and not r.init and loc[2] not in r.cells
        if loc[0] == 'obj':
            r = st.mem.get(loc[1])
            return r is not None and loc[2] not in r.objs
        return False

    eng.quiet += 1
    try:
        if len(eng.summaries) == 1:
            for u in [u for u, L in eng.loop_specs.items() if L.inner]:
                del eng.loop_specs[u]
            for L in list(eng.loop_specs.values()):
                if L.outer:
                    L.step(L.X(k), k)
                    if L.evtc and L.evt0.key() == st.cnt.get('evt', Lin(0)).key():
                        # the specified loop is expected here: count its events from the start
                        f = lambda kk, L=L: simp((L.evt0 + Lin.of(kk).scale(L.evtc)).bv())
                        chosen[('cnt', 'evt')] = Cand('linear', f, lambda kk, f=f: f(simp(kk + 1)))
                        cands[('cnt', 'evt')] = [None]
        # first iteration from the real entry state gives the strides
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40:
                raise Unsupported('loop summary does not stabilise')
            h = header(k)
            outs = iteration(h.clone())
            backs = [(s, e) for s, o, e in outs if o[0] == 'back']
            new = []
            for s, e in backs:
                for loc in diff(eng, h, s):
                    if loc not in chosen and loc not in new:
                        new.append(loc)
            if new:
                # strides from the first iteration out of the entry state
                for loc in new:
                    if entry_dead(loc):
                        chosen[loc] = 'dead'
                        continue
                    v0 = loc_get(eng, st, loc)
                    v1s = [loc_get(eng, s, loc) for s, e in backs]
                    # value before this generic iteration (location was still unmodified in h)
                    cs = candidates(eng, st, loc, v0, v1s, k, False)
                    cands[loc] = cs
                    chosen[loc] = cs.pop(0) if cs else 'havoc'
                    if not isinstance(chosen[loc], str) and chosen[loc].spec is not None:
                        specs_used.add(chosen[loc].spec)
                continue
            # check that the chosen forms are inductive
            bad = []
            for s, e in backs:
                if not eng.smt.feasible(s.pc, BoolVal(True)):
                    continue
                for loc, c in chosen.items():
                    if isinstance(c, str) or loc in bad:
                        continue
                    if c.kind == 'trace':
                        if not trace_step(eng, s, loc, c, k):
                            bad.append(loc)
                        continue
                    try:
                        want = c.nxt(k)
                        got = loc_get(eng, s, loc)
                    except (Unsupported, DeadPath):
                        bad.append(loc); continue
                    if not type_match(got, want) or not proves_eq(eng, s.pc, got, want):
                        bad.append(loc)
                        if os.environ.get('VLOOP') == '2':
                            explain(eng, s.pc, got, want)
            if os.environ.get('VLOOP'):
                print('loop', eng.where(), 'round', rounds, {str(l)[:60]: (c if isinstance(c, str) else (c.kind, c.comp, c.spec.uid if c.spec else '')) for l, c in chosen.items() if c != 'dead'}, 'bad', bad, 'invs', len(invs))
            if bad:
                # before giving up a form, try harvested invariants once
                hv = harvest(eng, outs, h, k, pre_pc)
                for L in sorted(specs_used, key=lambda l: l.uid):
                    hv.extend(SpecInv(L, j) for j in range(len(L.inv(k))))
                added = False
                for f in hv:
                    if f not in invs and inv_ok(eng, f, header, iteration, k, invs):
                        invs.append(f); added = True
                if added:
                    continue
                for loc in bad:
                    cs = cands.get(loc) or []
                    if cs == [None]:
                        del chosen[loc], cands[loc]
                        continue
                    chosen[loc] = cs.pop(0) if cs else 'havoc'
                    if not isinstance(chosen[loc], str) and chosen[loc].spec is not None:
                        specs_used.add(chosen[loc].spec)
                invs = [f for f in invs if inv_ok(eng, f, header, iteration, k, [g for g in invs if g is not f])]
                continue
            # invariants
            hv = harvest(eng, outs, h, k, pre_pc)
            added = False
            for L in specs_used:
                for j, x in enumerate(L.inv(k)):
                    hv.append(SpecInv(L, j))
            for f in hv:
                if not any(g == f for g in invs):
                    if inv_ok(eng, f, header, iteration, k, invs):
                        invs.append(f); added = True
            if added:
                continue
            break
        # specifications that only an abandoned form referred to
        kept = {c.spec for c in chosen.values() if not isinstance(c, str) and c.spec is not None}
        if kept:
            specs_used &= kept
        # a search: nothing but a stopping condition
        for L in eng.loop_specs.values():
            if L in specs_used or L.stopf is None or L.bvs or L.accs or L.funs or L.events is not None or L.inner:
                continue
            try:
                stop = L.stop(k)
            except (Unsupported, DeadPath):
                continue
            if backs and all(eng.smt.valid(s.pc, Not(stop))[0] == 'yes' for s, e in backs):
                specs_used.add(L)
                for j in range(len(L.inv(k))):
                    f = SpecInv(L, j)
                    if not any(g == f for g in invs) and inv_ok(eng, f, header, iteration, k, invs):
                        invs.append(f)
        # does each used specification continue on every back edge?
        for L in sorted(specs_used, key=lambda l: l.uid):
            ok = True
            for s, e in backs:
                if eng.smt.valid(s.pc, Not(L.stop(k)))[0] != 'yes':
                    ok = False
            L.matched = ok
    finally:
        eng.quiet -= 1
    hv = [str(l) for l, c in chosen.items() if c == 'havoc' and l[1:2] != ('g:errno',)]
    if hv and not eng.quiet:
        eng.havoc_loops.append((eng.where(), hv))
    # final pass with obligations recorded
    h = header(k)
    if not eng.quiet:
        eng.obligations.append(('loop-invariant', eng.where(), 'proved'))
    outs = iteration(h)
    res = []
    for s, o, e in outs:
        if o[0] == 'back':
            for L in specs_used:
                if not L.matched:
                    r, m = eng.smt.valid(s.pc, Not(L.stop(k)), want_model=not eng.quiet)
                    if not eng.quiet and r != 'yes':
                        eng.loop_mismatch.append('%s: the loop continues although the specified loop %s ends' % (eng.where(), L.name))
                        eng.obligations.append(('loop-continues', eng.where(), 'refuted' if r == 'no' else 'unknown'))
                        eng.failures.append(Failure('loop-continues', eng.where(), 'the loop continues although the specified loop %s ends' % L.name, m, 'refuted' if r == 'no' else 'unknown'))
                elif not eng.quiet:
                    eng.obligations.append(('loop-continues', eng.where(), 'proved'))
            continue
        for L in sorted(specs_used, key=lambda l: l.uid):
            witness(eng, s, L, k)
        res.append((s, o, e))
    return res


def trace_step(eng, s, loc, c, k):
    from .spec import LoopTrace
    L = c.spec
    tr = s.trace
    base = c.at(k)
    ev = list(L.events(L.X(k), k))
    if len(tr) != len(base) + len(ev):
        return False
    for x, y in zip(tr[:len(base)], base):
        if not trace_same(x, y):
            return False
    for x, y in zip(tr[len(base):], ev):
        if x.kind != y.kind or len(x.args) != len(y.args):
            return False
        for p, q in zip(x.args, y.args):
            if not proves_arg(eng, s.pc, p, q):
                return False
    return True


class SpecInv:
    def __init__(self, L, j):
        self.L = L; self.j = j

    def __call__(self, kk):
        return self.L.inv(kk)[self.j]

    def __eq__(self, o):
        return isinstance(o, SpecInv) and o.L is self.L and o.j == self.j

    def __hash__(self):
        return hash((id(self.L), self.j))


class TermInv:
    def __init__(self, f, k):
        self.f = simplify(f); self.k = k

    def __call__(self, kk):
        if kk is self.k or kk.eq(self.k):
            return self.f
        return simplify(z3.substitute(self.f, (self.k, kk)))

    def __eq__(self, o):
        return isinstance(o, TermInv) and o.f.eq(self.f)

    def __hash__(self):
        return self.f.hash()


def harvest(eng, outs, h, k, pre_pc):
    """candidate bounds from the conditions under which the loop is left or continued"""
    out = []
    ks = k.decl().name()
    base = set(f.get_id() for f in h.pc)
    seen = set()
    for s, o, e in outs:
        for f in s.pc:
            if f.get_id() in base or ks not in eng.smt.syms(f):
                continue
            st = [f]
            n = 0
            while st and n < 200:
                n += 1
                x = st.pop()
                if not z3.is_app(x):
                    continue
                d = x.decl().kind()
                if d in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
                    st.extend(x.children())
                    continue
                if d in (z3.Z3_OP_EQ, z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ) and z3.is_bv(x.children()[0]) and x.children()[0].size() == 64:
                    a, b = x.children()
                    for g in (ULE(a, b), ULE(b, a)):
                        g = simplify(g)
                        if g.get_id() in seen or ks not in eng.smt.syms(g):
                            continue
                        # only symbols known before the loop (plus k)
                        seen.add(g.get_id())
                        out.append(TermInv(g, k))
    return out[:12]


def inv_ok(eng, f, header, iteration, k, invs):
    h0 = header(bv(0), False)
    if eng.smt.valid(h0.pc, f(bv(0)), timeout=4000)[0] != 'yes':
        return False
    h = header(k)
    h.pc.append(f(k))
    try:
        outs = iteration(h)
    except (Unsupported, DeadPath):
        return False
    k1 = simp(k + 1)
    for s, o, e in outs:
        if o[0] != 'back':
            continue
        pc = list(s.pc)
        if isinstance(f, SpecInv):
            pc += f.L.unfold(k)
        if eng.smt.valid(pc, f(k1), timeout=4000)[0] != 'yes':
            return False
    return True
