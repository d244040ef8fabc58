#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current source."""
import sys, os, time, json, hashlib, subprocess, tempfile, shutil, atexit, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()

sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in sys.argv
    from engine.build import Program, BuildError
    from engine import runner
    from spec import props
    from spec.lib import CONTRACTS, LEMMAS
    props.load()
    if pid not in props.PROPS:
        print('unknown property', pid)
        return 2
    pr = props.PROPS[pid]
    quick = tier == 'quick'
    budget = 780 if quick else 3000
    deadline = T0 + (420 if quick else 2400)
    limit = 240 if quick else 900
    try:
        P = Program(extra_files=[os.path.join(HERE, 'spec', 'instances.cpp')])
    except BuildError as e:
        print('ERROR: cannot compile the repository:', str(e)[-2000:])
        return 2

    def log(t, r):
        if verbose:
            print('  %-11s %6.1fs %4d %s%s' % (r['status'], r['wall'], len(r['obligations']), r['name'][:120], ' inline=%d' % len(t.inline) if t.inline else ''), r['error'] or '')
            if r['status'] != 'proved':
                for f in r['failures'][:4]:
                    print('        ', f['kind'], f['where'][:100], f['text'][:150], f['status'])
                if r.get('tb') and '-vv' in sys.argv:
                    print(r['tb'])
            sys.stdout.flush()
    roots = props.roots_of(pid)
    lemmas = props.lemmas_of(pid)
    V = runner.verify_property(P, CONTRACTS, LEMMAS, roots, lemmas, limit=limit, deadline=deadline, log=log)
    res = V['results']
    bad = {k: r for k, r in res.items() if r['status'] != 'proved'}
    open_ = {k: r for k, r in bad.items()}
    missing = V['missing']
    err = [r for r in bad.values() if r['status'] == 'error']
    refuted = {k: r for k, r in bad.items() if r['status'] == 'refuted' and not r['taint']}
    undecided = {k: r for k, r in bad.items() if k not in refuted}
    native = None
    bounded = {}
    violation = None
    if err and not refuted:
        for r in err:
            print('ERROR: %s: %s' % (r['name'], '; '.join(f['text'] for f in r['failures'])))
    if bad or missing:
        hints = []
        for r in list(bad.values()) + [x for rd in V['rounds'] for x in rd.values()]:
            for f in r['failures']:
                hints += f['hints']
        hints = sorted(set(hints))[:250] + code_constants(P, V, bad)
        secs = (40 if quick else 240) if refuted else (60 if quick else 300)
        native = run_native(pid, pr['native'], seed, secs, hints)
        if verbose:
            print('  native', {k: v for k, v in native.items() if k != 'out'})
    if native and native['found']:
        violation = ('replayed', native)
    elif undecided and not refuted:
        # bounded stand-in: the same contracts with loops cut after a fixed number of iterations
        left = budget - 120 - (time.time() - T0)
        left = min(left, 150) if quick else left
        if left > 30:
            pool = runner.Pool(P, CONTRACTS, LEMMAS, limit=min(200, left), deadline=time.time() + left, log=log)
            kmax = 3
            tasks = [runner.Task('contract', k[1], frozenset(V['inline']), kmax) for k in undecided if k[0] == 'contract']
            bounded = pool.all(tasks)
            for k, r in bounded.items():
                if r['status'] == 'refuted' and not r['havoc']:
                    refuted[k] = r
    if refuted and violation is None:
        violation = ('obligation', None)
    ev = evidence(pid, tier, seed, pr, P, V, res, bad, native, bounded, violation)
    write_evidence(pid, ev)
    nproved = sum(1 for r in res.values() if r['status'] == 'proved')
    print('%s: %d functions/lemmas, %d proved, %d obligations, %.0f s' % (pid, len(res), nproved, ev['coverage']['obligations'], time.time() - T0))
    if violation:
        path = write_replay(pid, violation, bad, refuted, native, bounded, V)
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if violation[0] == 'replayed' else ' no-failing-input-found'))
        return 1
    if err:
        return 2
    if missing:
        print('NOTE: no such function in the current source (decided by the remaining contracts and the native search): %s' % '; '.join(missing))
    for k, r in undecided.items():
        b = bounded.get(k)
        print('NOTE: not proved (%s%s): %s; stand-in: %s native trials%s' % (r['status'], ' ' + str(r['error']) if r['error'] else '', r['name'], native and native.get('trials'),
              ', bounded check (3 iterations): %s' % b['status'] if b else ''))
    if (undecided or missing) and not (native and native.get('trials')):
        print('ERROR: undecided and no stand-in available: %s' % (native and native.get('error')))
        return 2
    known_findings(pid)
    return 0


def code_constants(P, V, bad):
    """integer constants in the code of the functions whose contracts failed: input sizes and values worth trying"""
    from spec.lib import CONTRACTS
    names = set()
    for r in list(bad.values()) + [x for rd in V['rounds'] for x in rd.values()]:
        names |= {r['name']} | set(r['inlined'])
    out = set()
    for d in names:
        f = P.find(d)
        if f is not None:
            for l in f._lines:
                if ' = ' in l or 'store' in l or 'call' in l:
                    for t in re.findall(r'\bi(?:8|16|32|64) (-?\d+)\b|, (-?\d+)\b', l.split(', !dbg')[0]):
                        v = int(t[0] or t[1])
                        if v < 0:
                            v = -v
                        if v > 2:
                            out.add(v)
    return sorted(out)[:150]


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % pid):
                print('KNOWN-FINDING: ' + l[len('finding: '):].strip())


def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    return sorted(out)


def run_native(pid, group, seed, secs, hints):
    """search for (or replay) a failing input on the real code"""
    if not group:
        return dict(found=False, trials=0, error='no native driver')
    from concurrent.futures import ThreadPoolExecutor
    w = tempfile.mkdtemp(prefix='verif_native_')
    atexit.register(shutil.rmtree, w, True)
    src = os.path.join(HERE, 'native', group + '.cpp')
    flags = ['-std=gnu++20', '-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-w', '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'native')]

    def cc(s):
        o = os.path.join(w, hashlib.md5(s.encode()).hexdigest() + '.o')
        r = subprocess.run(['/usr/bin/clang++-18'] + flags + ['-c', s, '-o', o], capture_output=True, text=True)
        return (o, r.returncode, r.stderr)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(cc, [src] + repo_sources()))
    for o, rc, e in rs:
        if rc:
            return dict(found=False, trials=0, error='native driver does not compile: ' + e[-800:])
    exe = os.path.join(w, 'driver')
    wrap = []
    for l in open(src):
        m = re.match(r'// wrap: (.*)', l)
        if m:
            wrap += ['-Wl,--wrap=' + x for x in m.group(1).split()]
    r = subprocess.run(['/usr/bin/clang++-18', '-fsanitize=address'] + [o for o, _, _ in rs] + wrap + ['-lpthread', '-o', exe], capture_output=True, text=True)
    if r.returncode:
        return dict(found=False, trials=0, error='native driver does not link: ' + r.stderr[-800:])
    procs = []
    n = 6
    for i in range(n):
        out = os.path.join(w, 'replay%d' % i)
        h = [str(x) for x in hints] if i % 2 == 0 else []
        procs.append((subprocess.Popen([exe, pid, str(seed * 100 + i), str(secs), out] + h, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=w,
                                       env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:allocator_may_return_null=1')), out, i))
    trials = 0
    found = None
    error = None
    for p, out, i in procs:
        try:
            so, se = p.communicate(timeout=secs + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            if found is None:
                found = dict(text='the driver did not return: the code under test hangs (driver seed %d)\n' % (seed * 100 + i) + so[-2000:], seed=seed * 100 + i)
            continue
        m = re.search(r'TRIALS (\d+)', so)
        if m:
            trials += int(m.group(1))
        elif p.returncode == 2:
            error = so + se
        elif found is None:
            t = open(out).read() if os.path.exists(out) else 'the driver ended with status %d\n' % p.returncode
            found = dict(text=t + ('\n' + se[-3000:] if se else ''), seed=seed * 100 + i)
    return dict(found=found is not None, out=found, trials=trials, error=error, group=group)


def evidence(pid, tier, seed, pr, P, V, res, bad, native, bounded, violation):
    obl = sum(len(r['obligations']) for r in res.values())
    done = sum(1 for r in res.values() for k, w, s in r['obligations'] if s in ('proved', 'simplify', 'real'))
    smt = {}
    for r in res.values():
        for k, v in r['smt'].items():
            smt[k] = smt.get(k, 0) + v
    models = sorted({m for r in res.values() for m in r['models']})
    from spec.lib import CONTRACTS
    trusted = sorted({d for r in res.values() for d in r['used'] if d in CONTRACTS and (CONTRACTS[d].trusted or CONTRACTS[d].apart and ('contract', d) not in res or CONTRACTS[d].mangled_any(P) is None)})
    cov = dict(obligations=obl, discharged=done, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
               trusted_base=['clang++-18 -O0 LLVM IR and record layouts of /repo/src', 'symbolic executor and loop rule in /verif/engine', 'z3 5.3.2, cvc5 1.1.2'] +
               ['model of library function ' + m for m in models] + ['assumed contract of ' + d for d in trusted],
               functions_under_contract=[dict(name=r['name'], kind=r['kind'], status=r['status'], obligations=len(r['obligations']),
                                              discharged=sum(1 for o in r['obligations'] if o[2] in ('proved', 'simplify', 'real')), solver_s=round(r['solver'], 2)) for r in res.values()],
               functions_proved=sum(1 for r in res.values() if r['status'] == 'proved' and r['kind'] == 'contract'),
               lemmas_proved=sum(1 for r in res.values() if r['status'] == 'proved' and r['kind'] == 'lemma'),
               bodies_inlined_without_contract=sorted({i for r in res.values() for i in r['inlined']})[:200],
               contracts_dropped_and_inlined=sorted(V['inline']), roots_missing=V['missing'],
               back_ends=dict(z3_queries=smt.get('z3', 0), cvc5_queries=smt.get('cvc5', 0), closed_by_simplification=smt.get('simplify', 0), unknown=smt.get('unknown', 0), real_arithmetic_normal_form=sum(1 for r in res.values() for o in r['obligations'] if o[2] == 'real')),
               solver_time_s=round(sum(r['solver'] for r in res.values()), 2),
               vacuity='every precondition satisfiable, every contract and body with a feasible outcome, every lemma with satisfiable assumptions (checked this run)')
    if bad:
        cov['not_proved'] = [dict(name=r['name'], status=r['status'], reason=r['error'] or [f['text'] for f in r['failures'][:5]]) for r in bad.values()]
    if bounded:
        cov['bounded_stand_ins'] = [dict(name=r['name'], bound='3 iterations per loop', status=r['status']) for r in bounded.values()]
    if native:
        cov['native_search'] = dict(trials=native.get('trials', 0), error=native.get('error'), note='random search on the real code, run because an obligation was not discharged; not counted as proof')
    ass = ['existing containers hold at most 2^36 elements and an allocation of more than 2^40 elements fails, read positions are at most 2^62, loops at most 2^48 iterations (machine arithmetic is otherwise exact bit-vector arithmetic)',
           'distinct reference parameters do not alias', 'smaller memory allocations succeed', 'logging has no effect but its output and errno', 'callbacks neither throw nor change the objects of the calling class', 'library models listed in trusted_base describe libstdc++/libc',
           'floating-point operations are uninterpreted functions of their operand bits; where back_ends counts real_arithmetic_normal_form, two formulas were compared as formulas over the reals (rounding left out)'] + pr['assume']
    return dict(property=pid, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=ass, wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)


def write_evidence(pid, ev):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def write_replay(pid, violation, bad, refuted, native, bounded, V):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', pid + '.txt')
    with open(path, 'w') as f:
        f.write('property %s\n\n' % pid)
        if violation[0] == 'replayed':
            f.write('FAILING INPUT (found on the real code by /verif/native/%s.cpp, driver seed %s)\n%s\n' % (native['group'], native['out']['seed'], native['out']['text']))
        else:
            f.write('no failing input was found by the native search (%s trials)\n' % (native and native.get('trials')))
        f.write('\nFAILED OBLIGATIONS\n')
        for k, r in list(bad.items()) + [(k, r) for k, r in refuted.items() if k not in bad or r is not bad[k]]:
            f.write('\n%s %s: %s %s\n' % (r['kind'], r['name'], r['status'], r['error'] or ''))
            for x in r['failures']:
                f.write('  obligation %s at %s: %s [%s]\n' % (x['kind'], x['where'], x['text'], x['status']))
                if x['model']:
                    f.write('    verifier counterexample:\n' + ''.join('      %s\n' % l for l in x['model'].split('\n')))
        for rd in V['rounds']:
            for r in rd.values():
                f.write('\nhelper contract not established (body inlined into callers): %s: %s %s\n' % (r['name'], r['status'], r['error'] or ''))
                for x in r['failures'][:5]:
                    f.write('  obligation %s at %s: %s [%s]\n' % (x['kind'], x['where'], x['text'], x['status']))
    return path


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc if not atexit._run_exitfuncs() else rc)
