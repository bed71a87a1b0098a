"""Extraction, VC generation and discharge."""
import os, sys, json, subprocess, hashlib, re, time, shutil, importlib, threading, queue
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('CLPOLY_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
sys.path.insert(0, HERE)
import trans, mkbase
from trans import *
NCPU = int(os.environ.get('VERIF_JOBS', '8'))

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

class ExtractError(Exception): pass

def shadow(dst):
    """Copy the headers clang reads.  One mechanical edit: 'constexpr variable' -> 'inline variable'
    (gcc accepts a constexpr template returning the non-literal class 'variable', clang rejects it)."""
    src = os.path.join(REPO, 'clpoly')
    d = os.path.join(dst, 'clpoly')
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(d, rel), exist_ok=True)
        for f in files:
            if f.endswith(('.hh', '.cc', '.h')):
                t = open(os.path.join(root, f), errors='replace').read()
                t2 = re.sub(r'\bconstexpr variable\b', 'inline variable', t)
                open(os.path.join(d, rel, f), 'w').write(t2)

def repo_hash():
    h = hashlib.sha256()
    src = os.path.join(REPO, 'clpoly')
    for root, dirs, files in sorted(os.walk(src)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.hh', '.cc', '.h')):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def extract(cfg, work):
    os.makedirs(work, exist_ok=True)
    sd = os.path.join(work, 'src')
    shutil.rmtree(sd, ignore_errors=True)
    shadow(sd)
    out = os.path.join(work, 'ast.json')
    if os.path.exists(out): os.unlink(out)
    tu = os.path.join(VERIF, 'units', cfg['tu'])
    cmd = [os.path.join(BUILD, 'extract'), out, tu, '--follow', 'clpoly']
    for f in cfg.get('follow', []): cmd += ['--follow', f]
    for r in cfg['roots']: cmd += ['--root', r]
    cmd += ['--', '-std=c++17', '-I'+sd, '-w', '-fdelayed-template-parsing', '-Wno-invalid-constexpr'] + cfg.get('flags', [])
    p = sh(cmd, timeout=300)
    if p.returncode != 0 or not os.path.exists(out):
        raise ExtractError('extractor failed:\n'+p.stdout[-3000:])
    return json.load(open(out))

class FnResult:
    def __init__(s, name, fn=None): 
        s.name = name; s.fn = fn; s.status = None; s.reason = ''; s.goals = []; s.tr = None; s.variant = None; s.spec = None

def snap_path(u): return os.path.join(VERIF, 'contracts', 'snap_%s.json' % u)

def align(snap, cur):
    """rename map: index in cur -> snapshot name"""
    ren = {}
    if [tuple(x) for x in snap] == [tuple(x) for x in cur]: return ren
    if len(snap) == len(cur) and [x[1] for x in snap] == [x[1] for x in cur]:
        sn = set(x[0] for x in snap)
        cn = set(x[0] for x in cur)
        for i, (a, b) in enumerate(zip(snap, cur)):
            if a[0] != b[0] and b[0] not in sn: ren[i] = a[0]
        return ren
    import difflib
    sm = difflib.SequenceMatcher(None, [tuple(x) for x in snap], [tuple(x) for x in cur], autojunk=False)
    sn = set(x[0] for x in snap); cn = set(x[0] for x in cur)
    for tag, i1, i2, j1, j2 in sm.get_opcodes():
        if tag == 'replace':
            miss = [i for i in range(i1, i2) if snap[i][0] not in cn]
            new = [j for j in range(j1, j2) if cur[j][0] not in sn]
            for i in miss:
                for j in new:
                    if j not in ren and snap[i][1] == cur[j][1]:
                        ren[j] = snap[i][0]; break
    return ren

class UnitRun:
    def __init__(s, uname, only=None, update=False):
        s.name = uname
        s.work = os.path.join(BUILD, uname)
        s.mod = importlib.import_module('contracts.'+uname) if False else load_contract(uname)
        s.cfg = s.mod.cfg
        s.only = only
        s.update = update
    def prepare(s, closure=False):
        t0 = time.time()
        s.data = extract(s.cfg, s.work)
        s.u = Unit(s.name, s.data, s.cfg)
        s.t_extract = time.time()-t0
        want = set(k for k, v in s.cfg.get('types', {}).items() if isinstance(v, str))
        for tid in range(len(s.u.types)):
            try:
                n = s.u.tstr(tid)
                if n in want or s.u.types[tid]['s'] in s.cfg.get('force_types', ()): s.u.ty(tid)
            except (Unsup, KeyError): pass
        snap = {}
        if os.path.exists(snap_path(s.name)): snap = json.load(open(snap_path(s.name)))
        s.results = []
        newsnap = {}
        s.trs = {}
        todo = list(s.cfg['fns'])
        if closure: todo = [sp for sp in todo if sp.name in s.only_specs]
        seen = set(sp.name for sp in todo)
        for sp in todo:
            if sp.contract_only or sp.trusted: continue
            r0 = FnResult(sp.name); r0.spec = sp
            fns = [f for f in s.data['funs'] if f['q'] == sp.q and (sp.sel is None or re.search(sp.sel, s.u.sig(f))) and f.get('body') is not None]
            if not fns:
                r0.status, r0.reason = 'mismatch', 'function %s not found in /repo' % sp.q
                s.results.append(r0); continue
            if len(fns) > 1:
                r0.status, r0.reason = 'mismatch', 'ambiguous function %s: %s' % (sp.q, [s.u.sig(f) for f in fns])
                s.results.append(r0); continue
            f = fns[0]
            for al in [{}]+[dict(a) for a in sp.alias]:
                r = FnResult(sp.name + ''.join('__%s_is_%s' % (a, b) for a, b in al.items()), f)
                r.spec = sp; r.alias = al
                s.results.append(r)
                if s.only and not any(re.fullmatch(o, r.name) for o in s.only):
                    r.status = 'skipped'; continue
                key = r.name
                try:
                    tr = Tr(s.u, sp, f, al).translate()
                    ren = align(snap[key]['locals'], tr.locals) if key in snap else {}
                    if ren:
                        tr = Tr(s.u, sp, f, al, rename=ren).translate()
                        r.renamed = {tr.locals[i][0]: n for i, n in ren.items()}
                    if key in snap and snap[key]['loops'] != tr.nloop and sp.loops:
                        raise Mismatch('number of loops changed (%d -> %d)' % (snap[key]['loops'], tr.nloop))
                    newsnap[key] = {'locals': tr.locals, 'loops': tr.nloop}
                    r.tr = tr; r.ren = ren
                    s.trs[key] = tr
                    if closure:
                        for cn, (csp, cf) in tr.callees.items():
                            if cn not in seen: seen.add(cn); todo.append(csp)
                except (Unsup, RecursionError) as e:
                    r.status, r.reason = 'unsupported', str(e)
                except Mismatch as e:
                    r.status, r.reason = 'mismatch', str(e)
                except (KeyError, IndexError, AttributeError, TypeError) as e:
                    import traceback
                    r.status, r.reason = 'unsupported', 'translator: '+repr(e)
                    if os.environ.get('VDEBUG'): traceback.print_exc()
        # divergence fixpoint by spec name
        div = {sp.name: bool(getattr(sp, 'mode', None) == 'diverges') for sp in s.cfg['fns']}
        ch = True
        while ch:
            ch = False
            for r in s.results:
                if r.tr is None: continue
                d = r.tr.diverges or any(div.get(c) for c in r.tr.callees) or r.spec.name in r.tr.callees
                if d and not div[r.spec.name]: div[r.spec.name] = True; ch = True
        s.div = div
        if s.update:
            snap.update(newsnap)
            json.dump(snap, open(snap_path(s.name), 'w'), indent=0, sort_keys=True)
        s.write_lib()
    def write_lib(s):
        d = os.path.join(s.work, 'mlw')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        s.mlwdir = d
        lib = mkbase.base()+'\n'
        lib += s.cfg.get('premodules', '')
        lib += 'module Ty0\nuse int.Int\nuse ref.Ref\nuse Base\n' + s.cfg.get('prelude0', '') + '\nend\n'
        lib += 'module Ty\nuse int.Int\nuse ref.Ref\nuse Base\nuse Ty0\n' + s.u.types_mlw() + '\nend\n'
        lib += s.cfg.get('modules', '')
        s.libname = s.name + 'lib'
        open(os.path.join(d, s.libname+'.mlw'), 'w').write(lib)
    def lib_goals(s):
        """obligations of the lemmas stated in the library modules themselves"""
        p = os.path.join(s.mlwdir, s.libname+'.mlw')
        return gen_goals(s, s.libname, open(p).read())
    def uses(s, r):
        us = ['int.Int', 'int.EuclideanDivision', 'ref.Ref', s.libname+'.Base', s.libname+'.Ty0', s.libname+'.Ty']
        ms = s.cfg.get('use', [])
        if getattr(r.spec, 'layer', None): ms = r.spec.layer
        return 'use int.ComputerDivision as CD\n' + s.cfg.get('stduse', '') + ''.join('use %s\n' % x for x in us) + ''.join('use %s.%s\n' % (s.libname, m) for m in ms)
    def module_text(s, r, canary=None):
        tr = r.tr
        if canary:
            tr = Tr(s.u, r.spec, r.fn, r.alias, canary=canary, rename=r.ren).translate()
        vals = []
        for n, (sp, f) in sorted(tr.callees.items()):
            t2 = Tr(s.u, sp, f)
            vals.append(t2.val_text(s.div.get(n, False)))
        d = tr.diverges or any(s.div.get(c) for c in tr.callees)
        g = ''
        return 'module M\n%s\n%s\n%s\n%s\nend\n' % (s.uses(r), s.cfg.get('fnprelude', ''), '\n\n'.join(vals), tr.let_text(d))

def load_contract(u):
    import importlib.util
    p = os.path.join(VERIF, 'contracts', u+'.py')
    spec = importlib.util.spec_from_file_location('contract_'+u, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m

# ------------------------------------------------------------------ goals
class Goal:
    __slots__ = ('fn', 'file', 'expl', 'line', 'cline', 'text', 'status', 'prover', 'time', 'canary', 'log', 'idx', 'key')
    def __init__(s): s.status = None; s.prover = None; s.time = 0; s.canary = False; s.log = ''

DRIVER = os.path.join(HERE, 'verif.drv')

def gen_goals(run, name, text, canary=False, lemma=False):
    """run why3 on one module; returns goals or raises"""
    base = os.path.join(run.mlwdir, name)
    path = base+'.mlw'
    open(path, 'w').write(text)
    od = base+'.goals'
    shutil.rmtree(od, ignore_errors=True)
    os.makedirs(od)
    p = sh(['why3', '-C', os.path.join(HERE, 'why3.conf'), 'prove', '-L', run.mlwdir, '-a', 'split_vc', '-D', DRIVER, '-o', od, path], timeout=300)
    errs = [l for l in p.stdout.splitlines() if l and not l.startswith('Warning')]
    if p.returncode != 0:
        raise Mismatch('why3 rejected %s: %s' % (name, ' | '.join(errs)[:600]))
    lines = text.splitlines()
    gs = []
    for fn in sorted(os.listdir(od)):
        g = Goal()
        g.file = os.path.join(od, fn)
        t = open(g.file).read()
        g.text = t
        if '(set-logic' not in t:
            t = '(set-logic ALL)\n'+re.sub(r'\(declare-datatypes \(\)\s*\(\(([^\s()]+) (.*?)\)\)\)\n', r'(declare-datatypes ((\1 0)) ((\2)))\n', t, flags=re.S)
            open(g.file, 'w').write(t); g.text = t
        g.fn = name
        m = re.findall(r';; File "([^"]*)", line (\d+)', t)
        g.line = int(m[-1][1]) if m and os.path.basename(m[-1][0]) == os.path.basename(path) else 0
        g.expl = ''
        g.cline = ''
        if g.line and g.line <= len(lines):
            L = lines[g.line-1]
            mm = re.search(r'\[@expl:([^\]]*)\]', L)
            g.expl = mm.group(1) if mm else L.strip()[:80]
            for i in range(g.line-1, -1, -1):
                mm = re.match(r'\(\*@(.*)\*\)', lines[i])
                if mm: g.cline = mm.group(1); break
        mm = re.search(r'\(canary_ (\d+)\)\s*\)', t); g.canary = mm is not None
        if g.canary and 'CANARY' not in g.expl: g.expl = 'CANARY %s' % mm.group(1)
        mm = re.search(r"(\d+)\.smt2$", fn)
        g.idx = mm.group(1) if mm else '0'
        gs.append(g)
    return gs

SOLVERS = {
    'z3ms': lambda f, t: ['z3', '-t:%d' % t, f],
    'z3': lambda f, t: ['z3', '-T:%d' % t, 'smt.random_seed=0', f],
    'cvc5': lambda f, t: ['cvc5', '--tlimit=%d' % (t*1000), '--lang=smt2', f],
    'z3new': lambda f, t: ['z3-new', '-T:%d' % t, f],
    'cvc5e': lambda f, t: ['cvc5', '--tlimit=%d' % (t*1000), '--lang=smt2', '--full-saturate-quant', f],
    'z3nl': lambda f, t: ['z3', '-T:%d' % t, 'smt.arith.solver=2', 'smt.mbqi=false', f],
}
def strip_quant(f):
    """the same goal without its quantified hypotheses (fewer hypotheses: unsat carries over)"""
    d = 0; st = 0; out = []
    t = '\n'.join(l for l in open(f).read().split('\n') if not l.lstrip().startswith(';'))
    for i, ch in enumerate(t):
        if ch == '(':
            if d == 0: st = i
            d += 1
        elif ch == ')':
            d -= 1
            if d == 0:
                x = t[st:i+1]
                if not ('(forall' in x or '(exists' in x) or i > len(t)-200 and 'check-sat' in x: out.append(x)
    g = f[:-5]+'.nq.smt2'
    open(g, 'w').write('\n'.join(out)+'\n')
    return g
def solve(g, name, t):
    t0 = time.time()
    try:
        fl = g.file
        if name.endswith('nq'): fl = strip_quant(g.file); name = name[:-2]
        # the limit is processor time (a loaded machine must not change verdicts); wall time is capped at four times that
        if name == 'z3ms': cmd = SOLVERS[name](fl, t)
        else: cmd = ['prlimit', '--cpu=%d' % t] + SOLVERS[name](fl, 4*t)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=(4*t if name != "z3ms" else 1)+5)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = 'timeout'
    except FileNotFoundError:
        out = 'missing'
    dt = time.time()-t0
    g.time += dt
    w = [l for l in out.splitlines() if l.strip() in ('unsat', 'sat', 'unknown', 'timeout')]
    r = w[0].strip() if w else ('error: '+out.strip()[:200] if 'error' in out else 'timeout')
    return r

PLAN = [('z3', 1), ('cvc5', 2), ('z3nq', 2), ('cvc5nq', 3), ('z3new', 4), ('cvc5', 10), ('z3', 10), ('z3nl', 10), ('cvc5e', 10), ('z3new', 30), ('cvc5', 40)]
CACHE_VERSION = '1'

FAST = [('z3', 1), ('cvc5', 2), ('z3nq', 2), ('cvc5nq', 3), ('z3new', 4), ('cvc5', 8), ('z3nl', 5), ('cvc5e', 5), ('z3', 10)]
def discharge(g, hint=None, budget=None, stop=None, plan=None):
    if g.canary:
        # a reachable program point must not entail false
        r = solve(g, 'z3ms', 400)
        if r != 'unsat' and os.environ.get('VERIF_TIER') == 'thorough': r = solve(g, 'cvc5', 2)
        g.status = 'unsat' if r == 'unsat' else 'notproved'
        return g
    plan = list(plan or PLAN)
    if hint: plan = [(hint[0], max(3, int(hint[1]*4)+2))] + plan
    log = []
    for name, t in plan:
        if stop is not None and stop():
            g.status = 'undecided'; g.log = ' '.join(log)+' (time budget of the run used up)'
            return g
        r = solve(g, name, t)
        log.append('%s:%s' % (name, r))
        if r == 'unsat':
            g.status = 'proved'; g.prover = name; g.log = ' '.join(log)
            return g
        if r.startswith('error') and len(log) > 20: break
        if r == 'sat': # quantified problems: sat answers are final only for that solver's preprocessing
            continue
    g.status = 'unproved'; g.log = ' '.join(log)
    return g
