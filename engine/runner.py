"""Verification driver: contracts of one property, their transitive closure, inlining retries, bounded stand-ins."""
import os, sys, time, pickle, select, signal, traceback, resource
import z3
from . import models as models_mod
from .sx import *
from .spec import *
from .build import Program

MEM = 6 << 30


def model_text(m):
    if m is None:
        return None
    out = []
    for d in m.decls():
        try:
            if d.arity() == 0:
                out.append('%s = %s' % (d.name(), m[d]))
            else:
                fi = m[d]
                ent = []
                for i in range(min(fi.num_entries(), 8)):
                    e = fi.entry(i)
                    ent.append('%s->%s' % (','.join(str(e.arg_value(j)) for j in range(e.num_args())), e.value()))
                ent.append('else->%s' % fi.else_value())
                out.append('%s = [%s]' % (d.name(), '; '.join(ent)))
        except Exception:
            pass
    return '\n'.join(sorted(out))[:6000]


def model_hints(m):
    """integers occurring in the counterexample, for the native search"""
    if m is None:
        return []
    hs = set()
    for d in m.decls():
        try:
            if d.arity() == 0:
                v = m[d]
                if z3.is_bv_value(v):
                    hs.add(v.as_long())
            else:
                fi = m[d]
                for i in range(min(fi.num_entries(), 16)):
                    e = fi.entry(i)
                    for x in [e.value()] + [e.arg_value(j) for j in range(e.num_args())]:
                        if z3.is_bv_value(x):
                            hs.add(x.as_long())
                if z3.is_bv_value(fi.else_value()):
                    hs.add(fi.else_value().as_long())
        except Exception:
            pass
    return sorted(hs)[:200]


class Task:
    """one contract or lemma"""

    def __init__(self, kind, name, inline=frozenset(), bounded=None):
        self.kind = kind; self.name = name; self.inline = inline; self.bounded = bounded

    def key(self):
        return (self.kind, self.name)


def run_task(P, contracts, lemmas, task, limit):
    """in the child"""
    eng = Engine(P, contracts, None)
    eng.models = models_mod.Models()
    eng.inline_set = set(task.inline)
    eng.unroll_only = task.bounded
    t0 = time.time()
    eng.smt.deadline = t0 + limit
    r = dict(kind=task.kind, name=task.name, error=None)
    try:
        if task.kind == 'contract':
            contracts[task.name].verify(eng)
        else:
            f, kw = lemmas[task.name]
            if kw.get('unroll'):
                eng.unroll_only = kw['unroll']      # loops over a literal number of elements: exact, or reported as bounded
            verify_lemma(eng, task.name, f)
            if eng.bounded:
                eng.failures.append(Failure('bounded', task.name, 'a loop of the lemma was cut', None, 'unknown'))
        st = 'proved'
        if eng.failures:
            st = 'unknown'
            if any(f.status == 'error' for f in eng.failures):
                st = 'error'
            elif any(f.status == 'refuted' for f in eng.failures):
                st = 'refuted'
    except Timeout as e:
        st = 'timeout'; r['error'] = str(e)
    except Unsupported as e:
        st = 'unsupported'; r['error'] = str(e)
    except RecursionError as e:
        st = 'unsupported'; r['error'] = 'recursion'
    except z3.Z3Exception as e:
        st = 'unsupported'; r['error'] = 'z3: %s' % e
    except MemoryError:
        st = 'timeout'; r['error'] = 'memory'
    except Exception as e:
        st = 'unsupported'; r['error'] = '%s: %s' % (type(e).__name__, e)
        r['tb'] = traceback.format_exc()[-3000:]
    if st in ('unsupported', 'timeout') and any(f.status == 'refuted' for f in eng.failures) and not eng.havoc_loops:
        st = 'refuted'
    # a refutation over summarised loops is not conclusive: the recurrences are only instantiated finitely often
    taint = bool(eng.havoc_loops) or bool(eng.loop_specs) or bool(eng.loops_seen)
    r.update(status=st, taint=taint, used=sorted(eng.used_contracts), models=sorted(x for x in eng.used_models if x), inlined=sorted(eng.inlined),
             obligations=[(k, w, s) for k, w, s in eng.obligations], solver=eng.smt.t, smt=dict(eng.smt.n), wall=time.time() - t0,
             havoc=[str(h) for h in eng.havoc_loops], bounded=eng.bounded,
             failures=[dict(kind=f.kind, where=f.where, text=f.text, status=f.status, model=model_text(f.model), hints=model_hints(f.model)) for f in eng.failures[:20]])
    return r


class Lemma(Ctx):
    """a lemma: a client program over contracts, executed with the contracts in place of the bodies"""

    def sym(self, cls, name):
        cls = self.cls(cls)
        p = self.eng.alloc(self.st, self.eng.prog.layouts[cls][0], name, cls)
        self.eng.sym_obj(self.st, p, cls, name)
        return self.obj(p, cls)

    def raw(self, cls, name='tmp'):
        cls = self.cls(cls)
        return self.obj(self.eng.alloc(self.st, self.eng.prog.layouts[cls][0], name, cls), cls)

    def symvec(self, name, et='unsigned char'):
        from .sx import VecObj
        p = self.eng.alloc(self.st, 24, name, 'std::vector<%s, std::allocator<%s> >' % (et, et))
        self.set_vec(p, self.eng.sym_seq(self.st, name, et), et)
        return p

    def vecbuf(self):
        return self.eng.alloc(self.st, 24, 'vec')

    def var(self, name, bits):
        return BitVec(name, bits)

    def call(self, dem, args, rt=None):
        self.eng.used_contracts.add(dem)
        return Ctx.call(self, dem, args, rt)

    def prove(self, goal, text):
        self.contract.goal(self.eng, self.st.pc, goal if isinstance(goal, list) else [goal], 'lemma', text)

    def prove_eq(self, x, y, text):
        self.prove(eq_goal(x, y), text)

    def try_(self, dem, args):
        """-> ('ret', v) or ('throw', exc)"""
        try:
            return ('ret', self.call(dem, args))
        except SpecThrow as e:
            return ('throw', e.exc)


class LemmaContract(Contract):
    pass


def verify_lemma(eng, name, f):
    lc = LemmaContract('lemma ' + name, f)
    eng.target = None
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > 500:
            raise Unsupported('too many lemma paths')
        s = Lemma(eng, State(), prefix, 'apply', lc, {})
        ok = True
        try:
            f(s)
        except DeadPath:
            ok = False
        except SpecThrow as e:
            lc.goal(eng, s.st.pc, [BoolVal(False)], 'lemma', 'unexpected exception %s' % e.exc.cls)
        stack.extend(s.alts)
        if ok and eng.smt.check(list(s.st.pc))[0] == 'unsat':
            eng.failures.append(Failure('vacuous', name, 'the assumptions of the lemma are contradictory', None, 'error'))
    if not eng.obligations:
        eng.failures.append(Failure('vacuous', name, 'the lemma has no feasible path', None, 'error'))


class Pool:
    def __init__(self, P, contracts, lemmas, n=8, limit=300, deadline=None, log=None):
        self.P = P; self.contracts = contracts; self.lemmas = lemmas; self.n = n; self.limit = limit
        self.deadline = deadline; self.log = log
        self.run = {}

    def start(self, task):
        rd, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
                sys.setrecursionlimit(20000)
                lim = self.limit
                if self.deadline:
                    lim = max(5, min(lim, self.deadline - time.time()))
                r = run_task(self.P, self.contracts, self.lemmas, task, lim)
                data = pickle.dumps(r)
                with os.fdopen(wr, 'wb') as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wr)
        lim = self.limit + 30
        if self.deadline:
            lim = min(lim, max(10, self.deadline - time.time() + 20))
        self.run[rd] = (pid, task, time.time() + lim, bytearray())

    def wait(self):
        """-> [(task, result)] at least one"""
        out = []
        while self.run and not out:
            rs, _, _ = select.select(list(self.run), [], [], 0.5)
            for fd in rs:
                pid, task, dl, buf = self.run[fd]
                b = os.read(fd, 1 << 20)
                if b:
                    buf.extend(b)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del self.run[fd]
                try:
                    r = pickle.loads(bytes(buf))
                except Exception:
                    r = self.dead(task, 'verifier process ended (memory or crash)')
                out.append((task, r))
            now = time.time()
            for fd in list(self.run):
                pid, task, dl, buf = self.run[fd]
                if now > dl:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(fd)
                    del self.run[fd]
                    out.append((task, self.dead(task, 'time limit')))
        return out

    def dead(self, task, why):
        return dict(kind=task.kind, name=task.name, status='timeout', error=why, taint=True, used=[], models=[], inlined=[], obligations=[], solver=0.0,
                    smt={}, wall=0.0, havoc=[], bounded=False, failures=[])

    def all(self, tasks, expand=None):
        """run tasks (and those expand(result) asks for); -> {key: result}"""
        queue = list(tasks)
        seen = {t.key() for t in queue}
        res = {}
        while queue or self.run:
            while queue and len(self.run) < self.n:
                self.start(queue.pop(0))
            for t, r in self.wait():
                res[t.key()] = r
                if self.log:
                    self.log(t, r)
                for n in (expand(r) if expand else []):
                    if n.key() not in seen:
                        seen.add(n.key())
                        queue.append(n)
        return res


def verify_property(P, contracts, lemmas, roots, lemma_names, limit=300, deadline=None, log=None, n=8):
    """-> dict(results, inline, missing)"""
    contracts = dict(contracts)
    missing = [d for d in roots if contracts[d].mangled_any(P) is None]
    roots = [d for d in roots if d not in missing]
    inline = set()
    res = {}
    rounds = []
    while True:
        def expand(r):
            return [Task('contract', d, frozenset(inline)) for d in r['used']
                    if d not in inline and ('contract', d) not in res and not contracts[d].trusted and not contracts[d].apart and contracts[d].mangled_any(P) is not None]
        pool = Pool(P, contracts, lemmas, n=n, limit=limit, deadline=deadline, log=log)
        start = [Task('contract', d, frozenset(inline)) for d in roots if ('contract', d) not in res]
        start += [Task('lemma', l, frozenset()) for l in lemma_names if ('lemma', l) not in res]
        for k, r in list(res.items()):
            start += [t for t in expand(r) if t.key() not in {x.key() for x in start}]
        if not start:
            break
        res.update(pool.all(start, expand))
        # contracts of non-root functions that do not verify are dropped: their callers are checked against the body
        for k, r in res.items():
            if k[0] == 'lemma':
                roots += [d for d in r['used'] if d not in roots]
        bad = {k[1] for k, r in res.items() if k[0] == 'contract' and r['status'] != 'proved' and k[1] not in roots and k[1] not in inline}
        if not bad or (deadline and time.time() > deadline):
            break
        rounds.append({b: res[('contract', b)] for b in bad})
        inline |= bad
        again = set(bad)
        # users that are not roots keep their contract if it still verifies with the body inlined
        for k in list(res):
            if k[1] in inline or (set(res[k]['used']) & bad):
                if k[0] == 'lemma' and not (set(res[k]['used']) & bad):
                    continue
                if k[0] == 'contract' and res[k]['status'] != 'proved' and k[1] in roots and not (set(res[k]['used']) & bad):
                    continue
                del res[k]
    # only what the roots still reach counts
    reach = set()
    todo = [('contract', d) for d in roots] + [('lemma', l) for l in lemma_names]
    while todo:
        k = todo.pop()
        if k in reach or k not in res:
            continue
        reach.add(k)
        todo += [('contract', d) for d in res[k]['used'] if d not in inline]
    return dict(results={k: r for k, r in res.items() if k in reach}, inline=inline, missing=missing, rounds=rounds)
