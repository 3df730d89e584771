#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

1. generates the proof obligations of the property from clang's AST of /repo/src and discharges them;
2. obligations refuted -> VIOLATION (with a failing input of the real code when the harness finds one);
3. obligations outside the verifier's reach -> a deeper bounded run of the real code, labelled bounded;
4. always a short bounded run of the real code as a cross-check of the verifier itself.
"""
import sys, os
PY = '/opt/veriftools/pyvenv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv'): os.execv(PY, [PY] + sys.argv)
import json, time, importlib, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.setrecursionlimit(20000)
from dv import prop, hrun

CFGS = ['kiss-double', 'kiss-single', 'fftw3-double', 'fftw3-single']
def bounded(pid, mod, tier, deep, seed, stop_on_fail=True, budget=None):
    """runs the property's harness topics; returns (runs, fails relevant to pid)"""
    plan = getattr(mod, 'HARNESS', [])
    cfgs = getattr(mod, 'CFGS', ['kiss-double', 'fftw3-single'] if tier == 'quick' and not deep else CFGS)
    runs = []; fails = []
    n = max(1, len(plan) * len(cfgs))
    secs = (budget or (16 if tier == 'quick' and not deep else 240 if tier == 'quick' else 1200)) / n
    for cfg in cfgs:
        for prog_, topic in plan:
            start = 0 if seed == 1 else seed * 1000
            hi = start + (1600 if tier == 'quick' and not deep else 40000)
            r = hrun.run(cfg, prog_, topic, start, hi, secs)
            runs.append((cfg, prog_, topic, r))
            own = [f for f in r.fails if f['prop'] == pid or (f['prop'] == 'crash') or f['prop'] in getattr(mod, 'ALSO', ())]
            fails += own
            if own and stop_on_fail: return runs, fails
    return runs, fails

def main():
    if sys.argv[1] == '--setup': import z3; print('ok', z3.get_version_string()); return 0
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('dv.props.' + pid.lower())
    res = prop.run_tasks(mod.tasks(tier), timeout=getattr(mod, 'TASK_TIMEOUT', 300), budget=450 if tier == 'quick' else None)
    tp = time.time() - t0
    ref = res.by('refuted'); und = res.by('undecided'); dis = res.by('discharged')
    vac = [v for v in res.vacuity if not v[1]]
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    rfile = os.path.join(HERE, 'evidence', 'replay', pid + '.txt')
    for v in vac: print('undecided: vacuous contract:', v[0])
    for o in und[:20]: print('undecided: %s -- %s' % (o[0], o[2][:400]))
    for o in ref[:20]: print('FAILED OBLIGATION: %s -- %s' % (o[0], o[2][:600]))
    deep = bool(ref or und or vac)
    runs = []; fails = []; replay = None
    for o in ref:                       # replay the countermodel first
        c = getattr(mod, 'replay', lambda w: None)(o[4])
        if not c: continue
        for cfg in getattr(mod, 'CFGS', ['kiss-double', 'kiss-single']):
            d, err = hrun.build(cfg, [c[0]])
            if d is None: continue
            p = subprocess.run([os.path.join(d, c[0])] + c[1], capture_output=True, text=True, errors='replace', env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
            if p.returncode:
                replay = 'obligation: %s\n%s\nreplayed on the real code (%s): harness/%s %s\n%s\n%s' % (o[0], o[2], cfg, c[0], ' '.join(c[1]), p.stdout[-3000:], p.stderr[-3000:]); break
        if replay: break
    if replay is None:
        runs, fails = bounded(pid, mod, tier, deep, seed, budget=max(60, min(240, 760 - (time.time() - t0))) if tier == 'quick' and deep else None)
    wall = time.time() - t0
    cases = sum(r.cases for *_, r in runs); nontriv = sum(r.nontrivial for *_, r in runs)
    samples = [s for *_, r in runs for s in r.samples][:6]
    errors = [e for *_, r in runs for e in r.errors]
    for e in errors[:3]: print('note:', e[:500])
    foreign = [f for *_, r in runs for f in r.fails if f not in fails]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(wall, 2),
          'coverage': {
              'obligations': len(res.obls), 'discharged': len(dis), 'refuted': len(ref), 'undecided': len(und),
              'checker_cmd': 'python3 /verif/check.py %s %s (VC generator dv/ over clang 18 AST of /repo/src; z3 %s, polynomial normal form)' % (pid, tier, z3v()),
              'trusted_base': sorted(set(getattr(mod, 'TRUSTED', [])) | {'clang 18 AST of the sources (headers of libc, MPI and FFTW replaced by declarations in dv/stubs)', 'the VC generator dv/sym.py, dv/loops.py, dv/terms.py', 'z3'}),
              'functions_under_contract': sorted(res.functions), 'contracts_used_at_calls': sorted(res.contracts),
              'assumptions': sorted(set(res.assumptions) | set(getattr(mod, 'ASSUMPTIONS', []))),
              'backends': count([o[3] for o in dis]), 'solver_s': round(res.solver_time, 2), 'solver_queries': res.queries,
              'vacuity_checks': len(res.vacuity), 'vacuity_failed': [v[0] for v in vac],
              'undecided_obligations': [{'name': o[0], 'why': o[2][:300]} for o in und[:40]],
              'refuted_obligations': [{'name': o[0], 'why': o[2][:300]} for o in ref[:40]],
              'obligation_samples': [o[0] + (' -- ' + o[2] if o[2] else '') for o in dis[:3] + dis[len(dis) // 2:len(dis) // 2 + 3] + dis[-3:]],
              'bounded_run': {'label': 'bounded cross-check of the real code (not counted as proved)' if not und else 'bounded stand-in for the undecided obligations (not counted as proved)',
                              'evaluations': cases, 'distinct_nontrivial': nontriv,
                              'rule': 'random seeded cases (one seed = one case) through the real sources under ASan/UBSan with an in-process MPI; non-trivial = a case that ran the code to its oracle',
                              'topics': ['%s/%s/%s: %d' % (c, p_, t_, r.cases) for c, p_, t_, r in runs], 'samples': samples, 'errors': [e[:200] for e in errors],
                              'failures_of_other_properties': [f['prop'] + ': ' + f['msg'][:200] for f in foreign[:5]]},
              'proof_wall_s': round(tp, 2)}}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d refuted, %d undecided; %d functions; proof %.1fs, solver %.1fs; bounded cases %d; total %.1fs'
          % (pid, tier, len(res.obls), len(dis), len(ref), len(und), len(res.functions), tp, res.solver_time, cases, wall))
    if replay is None and not fails and foreign and (ref or und):       # the broken obligation shows as another failure of the same run (memory error, mismatched message)
        fails = foreign
    if replay is None and fails:
        f = fails[0]
        replay = ('obligation(s) not discharged: %s\n\nfailing input on the real code: build with  bash harness/build.sh /repo/src OUT %s %s  and run  OUT/%s %s %s %s -v\n%s: %s\n'
                  % ('; '.join(o[0] + ' ' + o[2][:500] for o in (ref + und)[:10]) or 'none (found by the bounded cross-check)', f['cfg'], f['prog'], f['prog'], f['topic'], f['seed'], (f['seed'] or 0) + 1, f['prop'], f['msg']))
    if replay is not None:
        open(rfile, 'w').write(replay)
        print(replay[:1500]); print('VIOLATION property=%s replay=%s' % (pid, rfile)); return 1
    if ref:
        open(rfile, 'w').write('\n\n'.join('failed obligation: %s\n%s\nback end: %s' % (o[0], o[2], o[3]) for o in ref))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rfile)); return 1
    return 0
def count(l):
    d = {}
    for x in l: d[x] = d.get(x, 0) + 1
    return d
def z3v():
    import z3
    return z3.get_version_string()
if __name__ == '__main__': sys.exit(main())
