"""Results of a property's obligations and the parallel runner."""
import time, signal, traceback, multiprocessing as mp, os, sys
from . import terms as T, smt

class Result:
    """obligation = (name, status, detail, backend, witness); status discharged | refuted | undecided"""
    def __init__(self):
        self.obls = []; self.functions = set(); self.contracts = set(); self.assumptions = set()
        self.vacuity = []; self.solver_time = 0.0; self.queries = 0; self.notes = []; self.retries = 6
    def add(self, name, status, detail='', backend='polynomial normal form', witness=None):
        self.obls.append((name, status, detail, backend, witness))
    def ok(self, name, detail='', backend='polynomial normal form'): self.add(name, 'discharged', detail, backend)
    def require(self, name, hyps, goal, ms=10000, detail=''):
        """discharge hyps |= goal"""
        if goal is T.TRUE or goal in hyps:
            self.ok(name, detail); return True
        st, m = smt.check(list(hyps), goal, ms)
        if st == 'unknown' and self.retries > 0:
            self.retries -= 1; m = smt.small_model(hyps, goal, 5000)
            if m is not None: st = 'refuted'
            else: st, m = smt.check(list(hyps), goal, 3 * ms)
        if st == 'proved': self.add(name, 'discharged', detail, 'z3'); return True
        if st == 'refuted': self.add(name, 'refuted', detail + ' countermodel: ' + smodel(m), 'z3', smodel(m))
        else: self.add(name, 'undecided', detail + ' z3: unknown', 'z3')
        return False
    def require_all(self, ex, prefix='', cats=None, ms=10000, extra=()):
        """discharge the obligations an execution generated"""
        for o in ex.obls:
            if cats is not None and o.cat not in cats: continue
            self.require('%s%s: %s' % (prefix, o.name(), o.text), tuple(o.pc) + tuple(extra), o.goal, ms)
    def used(self, ex):
        self.functions |= ex.inlined; self.contracts |= ex.contracts_used; self.assumptions |= ex.assumptions
    def merge(self, o):
        self.obls += o.obls; self.functions |= o.functions; self.contracts |= o.contracts; self.assumptions |= o.assumptions
        self.vacuity += o.vacuity; self.solver_time += o.solver_time; self.queries += o.queries; self.notes += o.notes
    def by(self, st): return [o for o in self.obls if o[1] == st]

def smodel(m):
    try: return ', '.join(sorted('%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0))[:1500]
    except Exception: return str(m)[:1500]

def guarded(r, name, f, *args):
    """run one contract; whatever is outside the verifier's reach becomes an undecided obligation of that name"""
    from . import sym, front
    try: f(r, *args)
    except sym.Uns as e: r.add(name, 'undecided', 'outside the verified dialect: %s' % e, 'executor')
    except front.FrontError as e: r.add(name, 'undecided', str(e), 'front end')
    except sym.Dead as e: r.add(name, 'undecided', 'no path continues', 'executor')
    except RecursionError as e: r.add(name, 'undecided', 'recursion limit', 'executor')
    except TimeoutError: r.add(name, 'undecided', 'time limit', 'executor')
    except Exception as e:
        r.add(name, 'undecided', 'executor: %s: %s' % (type(e).__name__, traceback.format_exc()[-700:]), 'executor')

def _one(arg):
    mod, fn, args, name = arg
    import importlib
    r = Result(); t0 = time.time()
    s0 = smt.STATS.solver_time; q0 = smt.STATS.queries
    guarded(r, name, lambda r, *a: getattr(importlib.import_module(mod), fn)(r, *a), *args)
    r.solver_time = smt.STATS.solver_time - s0; r.queries = smt.STATS.queries - q0
    r.notes.append('%s: %.1fs' % (name, time.time() - t0))
    return r

def _alarm(*a): raise TimeoutError('time limit')
def _child(arg, conn, limit):
    sys.setrecursionlimit(20000); signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, max(1, limit))
    try: conn.send(_one(arg))
    except Exception as e:
        r = Result(); r.add(arg[3], 'undecided', 'result: %s' % e, 'executor'); conn.send(r)
    conn.close(); os._exit(0)

def run_tasks(tasks, timeout=300, workers=None, budget=None):
    """tasks: (module, function, args, name); each in its own process with a time limit; budget: seconds for all of them"""
    end = time.time() + (budget or 1e9)
    workers = workers or min(8, len(os.sched_getaffinity(0)))
    total = Result(); pending = list(tasks); live = []
    while pending or live:
        while pending and len(live) < workers:
            t = pending.pop(0)
            if time.time() > end: total.add(t[3], 'undecided', 'time budget of the check', 'executor'); continue
            a, b = mp.Pipe(False); lim = min(timeout, end - time.time())
            p = mp.Process(target=_child, args=(t, b, lim)); p.start(); b.close()
            live.append((p, a, t, time.time() + lim + 45))
        nl = []
        for p, a, t, t0 in live:
            got = None
            try:
                if a.poll(0.02): got = a.recv()
                elif not p.is_alive():
                    got = Result(); got.add(t[3], 'undecided', 'verifier process died', 'executor')
            except EOFError:
                got = Result(); got.add(t[3], 'undecided', 'verifier process died', 'executor')
            if got is None and time.time() > t0:
                got = Result(); got.add(t[3], 'undecided', 'time limit %ds' % timeout, 'executor')
            if got is not None:
                total.merge(got); p.kill(); p.join(); a.close()
            else: nl.append((p, a, t, t0))
        live = nl
    return total
