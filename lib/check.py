#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]
Deciding step: every obligation generated from /repo's current source for the property's functions is discharged.
A failed obligation is reported as a violation, with an input found by running the real code when there is one."""
import sys, os, json, time, subprocess, hashlib, re, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vc import *
import props
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LIBCC = ['variable.cc', 'associatedgraph.cc', 'upolynomial.cc', 'polynomial_gcd.cc', 'realroot.cc']

def build_extractor():
    src = os.path.join(VERIF, 'extractor', 'extract.cc')
    out = os.path.join(BUILD, 'extract')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    st = out + '.hash'
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == h: return
    os.makedirs(BUILD, exist_ok=True)
    p = sh(['clang++-18', '-O1', '-fno-rtti', '-std=c++17', '-I/usr/lib/llvm-18/include', src, '-o', out+'.new',
            '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18', '/usr/lib/llvm-18/lib/libLLVM.so' if False else '/usr/lib/x86_64-linux-gnu/libLLVM-18.so'])
    if p.returncode: print(p.stdout); sys.exit(2)
    os.rename(out+'.new', out)
    open(st, 'w').write(h)

def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name+'.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

# ------------------------------------------------------------------ drivers
class Driver:
    def __init__(s, pr):
        s.pr = pr; s.src = os.path.join(VERIF, 'drivers', pr['driver'])
        s.dir = os.path.join(BUILD, 'drv_'+pr['id']); s.exe = os.path.join(s.dir, 'drv')
        s.err = ''
    def build(s):
        shutil.rmtree(s.dir, ignore_errors=True); os.makedirs(s.dir)
        flags = ['-std=c++17', '-g1', '-w', '-I'+REPO, '-I'+os.path.join(VERIF, 'drivers')] + s.pr['flags']
        if s.pr['san']: flags += ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
        else: flags += ['-O2']
        jobs = [(s.src, 'drv.o')] + [(os.path.join(REPO, 'clpoly', c), c+'.o') for c in LIBCC if os.path.exists(os.path.join(REPO, 'clpoly', c))]
        def one(j):
            return sh(['g++'] + flags + ['-c', j[0], '-o', os.path.join(s.dir, j[1])], timeout=600)
        with ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, jobs))
        for r, j in zip(rs, jobs):
            if r.returncode: s.err = '%s does not compile:\n%s' % (j[0], r.stdout[-3000:]); return False
        r = sh(['g++'] + flags + [os.path.join(s.dir, j[1]) for j in jobs] + ['-o', s.exe, '-lgmpxx', '-lgmp'])
        if r.returncode: s.err = 'link: '+r.stdout[-2000:]; return False
        return True
    def run(s, budget, seed):
        case = os.path.join(s.dir, 'case.txt')
        env = dict(os.environ, VERIF_SEED=str(seed), ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=98:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')
        t0 = time.time()
        hard = budget*3+60
        try:
            p = subprocess.run(['prlimit', '--as=unlimited' if s.pr['san'] else '--as=8000000000', s.exe, 'budget=%g' % budget, 'case='+case], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=hard, env=env, cwd=s.dir)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), ''
        res = dict(rc=rc, fails=[], known=[], cases=0, distinct=0, secs=[], sample='', wall=time.time()-t0, err=err[-3000:])
        for l in out.splitlines():
            if l.startswith('DRVFAIL '): res['fails'].append(l[8:])
            elif l.startswith('DRVKNOWN '): res['known'].append(l[9:])
            elif l.startswith('DRVSEC '): res['secs'].append(l[7:])
            elif l.startswith('DRVSAMPLE '): res['sample'] = l[10:]
            elif l.startswith('DRVSTAT '):
                m = re.findall(r'(\w+)=(\d+)', l); d = dict(m); res['cases'] = int(d.get('cases', 0)); res['distinct'] = int(d.get('distinct', 0))
        if rc not in (0, 9) and 'LeakSanitizer has encountered a fatal error' in err: rc = 0  # leak scan unavailable here
        if rc not in (0, 9):
            c = ''
            if os.path.exists(case): c = open(case, 'rb').read().split(b'\0')[0].decode(errors='replace')
            why = 'did not finish within %ds' % hard if rc == 'timeout' else 'died (exit %s)' % rc
            m = re.search(r'(runtime error:.*|ERROR: AddressSanitizer.*|Assertion.*|terminate called.*|.*what\(\).*|ERROR: LeakSanitizer.*)', err)
            res['fails'].append('%s: %s | input: %s' % (why, m.group(1)[:300] if m else '', c[:3000]))
        return res

# ------------------------------------------------------------------ proofs
def run_proofs(pr, tier):
    """returns (list of unit reports)"""
    reps = []
    for unit, fns in pr['proofs']:
        t0 = time.time()
        rep = dict(unit=unit, fns={}, mismatch=[], failed=[], undecided=[], vacuous=[], obligations=0, discharged=0, solver={}, solver_time=0.0, lemmas=0, error=None, trusted=[])
        reps.append(rep)
        try:
            run = UnitRun(unit, None, False)
            want = set(fns)
            specs = {sp.name: sp for sp in run.cfg['fns']}
            for x in want:
                if x not in specs: print('no contract named '+x); sys.exit(2)
            run.only_specs = want
            run.prepare(closure=True)
        except ExtractError as e:
            rep['error'] = str(e)[-1500:]; rep['mismatch'].append(('unit '+unit, str(e)[-400:])); continue
        except subprocess.TimeoutExpired as e:
            rep['error'] = 'extractor timeout'; rep['mismatch'].append(('unit '+unit, 'extractor timeout')); continue
        hints = {}
        hp = os.path.join(VERIF, 'contracts', 'hints_%s.json' % unit)
        if os.path.exists(hp): hints = json.load(open(hp))
        work = [r for r in run.results if r.status != 'skipped']
        def gen(r):
            if r == 'lib': 
                try: return r, run.lib_goals(), None
                except Mismatch as e: return r, [], str(e)
            if r.tr is None: return r, [], '%s: %s' % (r.status, r.reason)
            try: return r, gen_goals(run, r.name, run.module_text(r, True)), None
            except Mismatch as e: return r, [], str(e)
        allg = []
        with ThreadPoolExecutor(NCPU) as ex:
            for r, gs, e in ex.map(gen, ['lib']+work):
                nm = 'lemmas' if r == 'lib' else r.name
                if e: rep['mismatch'].append((nm, e)); continue
                if r != 'lib' and not [g for g in gs if not g.canary]: rep['mismatch'].append((nm, 'no obligations generated')); continue
                rep['fns'][nm] = dict(obligations=len([g for g in gs if not g.canary]), points=len([g for g in gs if g.canary]), loc='' if r == 'lib' else '%s:%s' % (os.path.basename(r.fn.get('file') or ''), r.fn.get('line', '')))
                for g in gs: g.fn = nm
                allg += gs
        deadline = time.time() + (480 if tier == 'quick' else 700)
        nbad = [0]
        def dis(g):
            key = '%s/%s/%s' % (g.fn, g.expl, g.idx)
            h = hints.get(key)
            # once several obligations have definitely failed the verdict stands: do not spend the budget on the rest
            discharge(g, hint=h, stop=lambda: time.time() > deadline or nbad[0] >= 8)
            if not g.canary and g.status == 'unproved': nbad[0] += 1
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(dis, allg))
        can = {}
        for g in allg:
            rep['solver_time'] += g.time
            if g.canary:
                # a point is contradictory when it is unreachable on every path to it
                can.setdefault((g.fn, g.expl), []).append(g.status == 'unsat')
                continue
            rep['obligations'] += 1
            if g.status == 'proved':
                rep['discharged'] += 1
                rep['solver'][g.prover] = rep['solver'].get(g.prover, 0)+1
            elif g.status == 'undecided': rep['undecided'].append(dict(fn=g.fn, obligation=g.expl, at=g.cline))
            else: rep['failed'].append(dict(fn=g.fn, obligation=g.expl, at=g.cline, smt=g.file, log=g.log))
        rep['vacuous'] += [k for k, v in can.items() if all(v)]
        rep['trusted'] = sorted(set(n for r in work if r.tr for n, (sp, f) in r.tr.callees.items() if sp.trusted or sp.contract_only))
        rep['wall'] = time.time()-t0
    return reps

def known_findings(pid):
    o = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid: o.append((m.group(2), m.group(3).strip()))
    return o

def main():
    pid = sys.argv[1]
    tier = TIER
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier')+1]
    pr = props.P[pid]
    t0 = time.time()
    l1 = lock('extractor'); build_extractor(); l1.close()
    l2 = lock('all')
    ev = os.path.join(VERIF, 'evidence', pid+'.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    repd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(repd, exist_ok=True)
    rp = os.path.join(repd, pid+'.txt')
    if os.path.exists(rp): os.unlink(rp)
    drv = Driver(pr) if pr['driver'] else None
    built = drv.build() if drv else False
    reps = run_proofs(pr, tier)
    failed = [f for r in reps for f in r['failed']]
    und = [f for r in reps for f in r['undecided']]
    vac = [v for r in reps for v in r['vacuous']]
    mism = [(r['unit'],)+tuple(m) for r in reps for m in r['mismatch']] + [(v[0], 'unreachable program point %s (dead code or contradictory contract)' % v[1]) for v in vac] + [(f['fn'], 'undecided within the time budget: %s' % f['obligation']) for f in und]
    dres = None
    if built:
        b = pr['budget'][0 if tier == 'quick' else 1]
        if failed or mism: b = max(b*4, 40)
        dres = drv.run(b, SEED)
        if (failed or mism) and not dres['fails'] and tier == 'quick':
            d2 = drv.run(b, SEED+1000)
            d2['cases'] += dres['cases']; d2['distinct'] += dres['distinct']; d2['known'] = dres['known'] or d2['known']; dres = d2
    kf = dict(known_findings(pid))
    viol = []
    knownlines = []
    if dres:
        for k in dres['known']:
            m = re.match(r'(\S+) ([01]) \| (.*)', k)
            if m and m.group(2) == '1':
                if m.group(1) in kf: knownlines.append('KNOWN-FINDING: property=%s %s' % (pid, kf[m.group(1)]))
                else: viol.append('unlisted finding %s: %s' % (m.group(1), m.group(3)))
        viol += dres['fails']
    txt = []
    if failed: txt.append('Failed obligations:\n' + '\n'.join('  %s: [%s] at %s (solvers: %s)\n    %s' % (f['fn'], f['obligation'], f['at'], f['log'], f['smt']) for f in failed))
    if vac: txt.append('Contradictory program points: %s' % vac)
    if mism: txt.append('Not verifiable as written (annotation or subset mismatch): %s' % '\n'.join(map(str, mism)))
    if viol: txt.append('Failing inputs on the real code (driver drivers/%s, VERIF_SEED=%d):\n%s' % (pr['driver'], SEED, '\n'.join(viol)))
    if dres and dres['err'] and viol: txt.append('driver stderr:\n'+dres['err'])
    code = 0
    if viol:
        code = 1; tail = ''
    elif failed:
        code = 1; tail = ' no-failing-input-found'
        for f in failed[:3]:
            try: shutil.copy(f['smt'], os.path.join(repd, '%s_%s' % (pid, os.path.basename(f['smt'])))); txt.append('obligation copied to evidence/replay/%s_%s' % (pid, os.path.basename(f['smt'])))
            except OSError: pass
    if drv and not built:
        txt.append('driver: '+drv.err)
        print('driver does not build against this tree: '+drv.err[-1500:])
    open(rp, 'w').write('property %s\n%s\n' % (pid, '\n\n'.join(txt)))
    for k in sorted(set(knownlines)): print(k)
    ob = sum(r['obligations'] for r in reps); dis_ = sum(r['discharged'] for r in reps)
    cov = dict(obligations=ob, discharged=dis_,
               checker_cmd='why3 1.6.0 (split_vc) on WhyML extracted from /repo by extractor/extract + lib/trans.py; z3 4.8.12, z3-new, cvc5 1.1.2',
               functions_under_contract={r['unit']: r['fns'] for r in reps},
               back_ends={k: sum(r['solver'].get(k, 0) for r in reps) for k in sorted(set(x for r in reps for x in r['solver']))},
               solver_time_s=round(sum(r['solver_time'] for r in reps), 2),
               vacuity_points_checked=sum(f['points'] for r in reps for f in r['fns'].values()), vacuous=vac,
               failed_obligations=[dict(fn=f['fn'], obligation=f['obligation'], at=f['at']) for f in failed],
               not_verified_as_written=[list(m) for m in mism],
               trusted_base=['extractor/extract.cc (clang 18 AST dump), lib/trans.py (C++ subset to WhyML), lib/builtins_.py (std library semantics), why3, SMT solvers']
                 + ['assumed contract: %s (unit %s)' % (n, r['unit']) for r in reps for n in r['trusted']] + list(TRUST.get(pid, [])))
    if dres: cov['bounded'] = dict(what=pr['bounded'], label='bounded, not proof', cases=dres['cases'], distinct=dres['distinct'], sections=dres['secs'], sample=dres['sample'], wall_s=round(dres['wall'], 1))
    e = dict(property=pid, tier=tier, seed=SEED, level='proof', coverage=cov, assumptions=ASSUME, wall_s=round(time.time()-t0, 2), violations=len(viol)+len(failed))
    json.dump(e, open(ev, 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d functions, %d not verifiable as written; driver: %s cases, %d failures; %.0fs' % (pid, dis_, ob, sum(len(r['fns']) for r in reps), len(mism), dres['cases'] if dres else 'none', len(viol), time.time()-t0))
    for m in mism: print('  unverified: %s' % (m,))
    for f in failed: print('  failed obligation: %s [%s] at %s' % (f['fn'], f['obligation'], f['at']))
    if not code and drv and not built: sys.exit(2)
    if not code and ob == 0 and not (dres and dres['cases']): sys.exit(2)
    if code:
        for v in viol[:3]: print('  '+v[:600])
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, tail))
    sys.exit(code)

ASSUME = ['allocation succeeds; container sizes stay below 2^60',
          'C++ operands and arguments are evaluated left to right where the order is unspecified',
          'functions without a variant are proved partially correct (termination not shown)',
          'iterator increments past the end without dereference are not checked']
TRUST = {}
if __name__ == '__main__': main()
