#!/usr/bin/env python3
"""developer loop: dev.py UNIT [-u] [fn-regex ...]"""
import sys, time
from vc import *
def main():
    a = sys.argv[1:]
    upd = '-u' in a; a = [x for x in a if x != '-u']
    allp = '-a' in a; a = [x for x in a if x != '-a']
    can = '-c' in a; a = [x for x in a if x != '-c']
    longp = '-l' in a; a = [x for x in a if x != '-l']
    u, only = a[0], a[1:]
    t0 = time.time()
    run = UnitRun(u, only or None, upd)
    run.prepare()
    print('extract %.1fs types %d' % (run.t_extract, len(run.u.gen_types)))
    goals = []
    if not only or 'lib' in only: goals += run.lib_goals()
    def one(r):
        if r.status == 'skipped': return []
        if r.tr is None: print('%-30s %s: %s' % (r.name, r.status, r.reason)); return []
        try:
            return gen_goals(run, r.name, run.module_text(r, can))
        except Mismatch as e: print('%-30s %s' % (r.name, e))
        return []
    with ThreadPoolExecutor(NCPU) as ex:
        for gs in ex.map(one, run.results): goals += gs
    print('%d goals %.1fs' % (len(goals), time.time()-t0))
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(lambda g: discharge(g, plan=PLAN if longp else FAST), goals))
    byfn = {}
    for g in goals: byfn.setdefault(g.fn, []).append(g)
    for fn, gs in byfn.items():
        cs = [g for g in gs if g.canary]
        ns = [g for g in gs if not g.canary]
        bad = [g for g in ns if g.status != 'proved']
        print('%-34s %3d/%3d  %.1fs max %.1fs' % (fn, len(ns)-len(bad), len(ns), sum(g.time for g in gs), max([g.time for g in gs] or [0])))
        for g in bad[:12]: print('    UNPROVED [%s] mlw:%d %s %s {%s}' % (g.expl[:60], g.line, g.cline, g.file.split('/')[-1], g.log.replace('timeout','to').replace('unknown','uk')[:200]))
        for g in cs:
            if g.status == 'unsat': print('    VACUOUS', g.expl, g.line)
        if allp:
            for g in ns: print('     ', g.status, g.prover, '%.2f' % g.time, g.expl, g.cline)
    print('total %.1fs' % (time.time()-t0))
main()
