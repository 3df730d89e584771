"""FFT2d/FFT3d::tune: for all arguments, settings and clocks.  setup, the release methods and tune_trial are used through
their contracts; tune_trial's own body is checked against its contract here (trial), setup/release in C12/C08/C11."""
from . import terms as T, smt, spmd
from .terms import *
from .sym import Base, Uns, ptr, Ptr, Addr, W, NULLP, Dead
from .fftw import FW, linear
from .spmd import ME, P, at
BIGT = const(100000000000000000000)
TABS = lambda dim: ['tfft', 't1d', 'tremap'] + ['tremap%d' % i for i in range(1, dim + 2)]
def wtime(ex, S, this, a, n):
    k = len([e for e in S.events if e.kind == 'wtime'])
    v = T.app('wtime!%d' % k, (ME,), 'R')
    pv = [e for e in S.events if e.kind == 'wtime']
    if pv:
        S.assume(lt(pv[-1].args[0], v)); S.assume(lt(at(pv[-1].args[0], ZERO), at(v, ZERO)))
    ex.event(S, 'wtime', (v,), n); return v
class TW(FW):
    def __init__(self, dim, lib, prec, contract=True):
        c = 'FFT%dd' % dim
        h = {'MPI_Wtime': wtime}
        if contract:
            h.update({c + '::setup': self.c_setup, c + '::deallocate_setup': self.c_release, c + '::deallocate_setup_memory': self.c_memory, c + '::tune_trial': self.c_trial})
        for m in ('compute', 'only_remaps', 'only_one_remap', 'only_1d_ffts'): h[c + '::' + m] = self.c_call(m)
        super().__init__(dim, lib, prec, 0, T.var('exchange'), T.var('collective'), T.var('memoryflag'), handlers=h)
        self.ex.fork = True; self.nset = 0; self.ntri = 0
        self.construct(); S = self.S0; self.options(S)
        rg = lambda v, a, b: S.assume(and_(le(const(a), v), le(v, const(b))))
        rg(T.var('collective'), 0, 2); rg(T.var('exchange'), 0, 1); rg(T.var('memoryflag'), 0, 1); rg(self.pf, 0, 2)
        self.base = set(x.id for x in S.pc)
        self.plan = self.ex.region('#plan', 'int', ONE, 'ghost')
    SET = ('collective', 'exchange', 'packflag', 'memoryflag')
    def settings(self, S): return tuple(self.getf(S, f) for f in self.SET)
    def live(self, S, k):
        c = [x for x in S.mem.items() if x[0][1] == ('#alive',) and self.ex.regions[x[0][0]].alloc == k]
        return c
    def c_setup(self, ex, S, this, a, n):
        ex.oblige(S, 'tune', eq(self.getf(S, 'setupflag'), ZERO), n, 'setup is called while the plan is not set up')
        for x, y in zip(a[:len(self.uargs)], self.uargs): ex.oblige(S, 'tune', eq(x, y), n, "setup gets the caller's layout")
        self.nset += 1; k = self.nset
        out = [T.app('size!%d.%d' % (k, i), (ME,)) for i in range(3)]
        for x in out: S.assume(le(ZERO, x))
        for ref, v in zip(a[len(self.uargs):], out): ex.lwrite(S, ref[1], v, 'int', n)
        st = self.settings(S)
        for v, m in zip(st, (2, 1, 2, 1)): ex.oblige(S, 'tune', and_(le(ZERO, v), le(v, const(m))), n, 'setup gets settings in range')
        for v in st: ex.oblige(S, 'uniform', T.TRUE if 'me' not in T.var_names(v) else FALSE, n, 'settings do not depend on the process')
        self.setf(S, 'setupflag', ONE)
        r1 = ex.alloc_region(S, 'plan %d' % k, 'int', ONE, 'plan', n)
        ex.event(S, 'setup', (st, tuple(out), r1), n)
        mf = st[3]
        S1 = S.copy(); S1.assume(eq(mf, ZERO)); S2 = S; S2.assume(ne(mf, ZERO))
        f0 = smt.feasible(list(S1.pc), 1500); f1 = smt.feasible(list(S2.pc), 1500)
        if f1:
            self.setf(S2, 'setup_memory_flag', ONE)
            for b, sz in (('sendbuf', out[1]), ('recvbuf', out[2])):
                r2 = ex.alloc_region(S2, 'buffers %d' % k, self.scalar, sz, 'buf', n)
                ex.write(S2, ex.field(self.oa, self.cls, b, self.scalar + '*'), ptr(ex.top(r2)))
        if f0 and f1: S.set(ex.merge2(S1, S2))
        elif f0: S.set(S1)
    def c_release(self, ex, S, this, a, n):
        ex.oblige(S, 'tune', ne(self.getf(S, 'setupflag'), ZERO), n, 'release of a plan that is set up')
        self.setf(S, 'setupflag', ZERO)
        for (k, ct) in self.live(S, 'plan'):
            if T.cval(ct.val) == 1: S.mem[k] = W(ct.prev, (ZERO,), ZERO); ex.event(S, 'free', (ex.regions[k[0]], 'plan'), n)
            elif T.cval(ct.val) is None: raise Uns('plan alive on some paths')
    def c_memory(self, ex, S, this, a, n):
        ex.oblige(S, 'tune', ne(self.getf(S, 'memoryflag'), ZERO), n, 'only internal buffers are released')
        self.setf(S, 'setup_memory_flag', ZERO)
        for (k, ct) in self.live(S, 'buf'):
            if T.cval(ct.val) in (0, 2): continue
            S.mem[k] = W(ct.prev, (ZERO,), ZERO)
        for b in ('sendbuf', 'recvbuf'): ex.write(S, ex.field(self.oa, self.cls, b, self.scalar + '*'), NULLP)
    def ready(self, ex, S, data, n):
        ex.oblige(S, 'tune', ne(self.getf(S, 'setupflag'), ZERO), n, 'a trial runs on a plan that is set up')
        ex.oblige(S, 'tune', ne(self.getf(S, 'setup_memory_flag'), ZERO), n, 'a trial has its buffers')
        ev = [e for e in S.events if e.kind == 'setup']
        if not ev: raise Uns('trial without setup')
        fs = ev[-1].args[1][0]
        for g, t in data.cases:
            if isinstance(t, Addr):
                if not smt.feasible(list(S.pc) + [g], 1500): continue
                al = S.mem.get((t.region.id, ('#alive',)))
                if al is not None: ex.oblige(S, 'tune', implies(g, eq(al.val, ONE)), n, 'the trial array is allocated')
                ln = t.region.length
                if ln is None:
                    nb = getattr(t.region, 'bytes', None)
                    if nb is None: raise Uns('trial array')
                    ex.oblige(S, 'tune', implies(g, le(mul(const(2 * (4 if self.prec == 'single' else 8)), fs), nb)), n, 'the trial array holds fftsize complex values')
                else: ex.oblige(S, 'tune', implies(g, le(add(t.steps[0], mul(const(2), fs)), ln)), n, 'the trial array holds fftsize complex values')
            else: ex.oblige(S, 'tune', implies(g, eq(fs, ZERO)), n, 'no trial array only if no data')
    def c_trial(self, ex, S, this, a, n):
        data, nper, flag, tflag = a[:4]; refs = a[4:]
        self.ready(ex, S, data, n)
        ex.oblige(S, 'tune', and_(le(ONE, nper), le(const(-1), flag), le(flag, ONE)), n, 'trial arguments')
        for v in (nper, flag, tflag): ex.oblige(S, 'uniform', T.TRUE if 'me' not in T.var_names(v) else FALSE, n, 'trial arguments do not depend on the process')
        self.ntri += 1; k = self.ntri
        t = T.var('t3d!%d' % k, 'R'); S.assume(lt(ZERO, t)); S.assume(lt(t, BIGT))
        times = [t]
        for i in range(1, len(refs)):
            v = T.app('time!%d.%d' % (k, i), (ME,), 'R'); S.assume(le(ZERO, v)); times.append(ite(eq(tflag, ZERO), ZERO, v))
        ads = []
        for ref, v in zip(refs, times):
            lv = ref[1]
            if len(lv) != 1: raise Uns('trial result reference')
            ads.append(lv[0][1]); ex.lwrite(S, lv, v, 'double', n)
        ex.event(S, 'trial', (nper, flag, tflag, tuple(ads), tuple(times), self.settings(S)), n)
    def c_call(self, m):
        def h(ex, S, this, a, n):
            ex.event(S, 'call', (m,) + tuple(a), n)
        return h

def tune(r, dim, lib, prec):
    w = TW(dim, lib, prec); ex = w.ex; S = w.S0
    fl, ni, tm, tf = T.var('flag'), T.var('niter'), T.var('tmax', 'R'), T.var('tflag')
    for g in (le(const(-1), fl), le(fl, ONE), le(ONE, ni), le(ZERO, tm), le(ZERO, tf), le(tf, ONE)): S.assume(g)
    w.uargs = w.n + w.tile_args() + [T.var('permute')]
    set0 = w.settings(S)
    outs = ex.run(S, w.prog.func('%s::tune' % w.cls), w.oa, w.uargs + w.sizes_refs() + [fl, ni, tm, tf])
    nm = '%s::tune[%s,%s]' % (w.cls, lib, prec); seen = set()
    for S, _ in outs:
        if not smt.feasible([x for x in S.pc if linear(x)], 4000): continue
        nt = T.cval(w.getf(S, 'ntrial'))
        if nt is None: raise Uns('number of trials is not concrete on a path')
        tag = '%s, %d trials (case %d)' % (nm, nt, len(seen)); seen.add((nt, len(seen)))
        req = lambda what, g, ms=8000: r.require('%s: %s' % (tag, what), S.pc, g, ms)
        r.add('%s: between 1 and 10 trials' % tag, 'discharged' if 1 <= nt <= 10 else 'refuted', '', 'executor')
        g = lambda f: w.getf(S, f)
        tab = lambda f, i: ex.read(S, ex.field(w.oa, w.cls, f, None).shift(const(i)), 'double' if f[0] == 't' else 'int')
        # ---- final state
        sets = [e for e in S.events if e.kind == 'setup']; last = sets[-1]
        req('the plan is set up', ne(g('setupflag'), ZERO))
        al = S.mem.get((last.args[2].id, ('#alive',)))
        r.require('%s: the plan of the last setup is the one in place' % tag, S.pc, eq(al.val, ONE))
        for e in sets[:-1]: r.require('%s: plan of trial setup at line %s is released' % (tag, e.node.get('_line')), S.pc, ne(S.mem[(e.args[2].id, ('#alive',))].val, ONE))
        fin = w.settings(S)
        for i, f in enumerate(w.SET): req('the plan in place was set up with the final %s' % f, eq(last.args[0][i], fin[i]))
        req("the caller's memory mode is restored", eq(fin[3], set0[3]))
        req('buffers are there exactly in internal memory mode', eq(ite(ne(g('setup_memory_flag'), ZERO), ONE, ZERO), ite(ne(fin[3], ZERO), ONE, ZERO)))
        for i, f in enumerate(('cbest', 'ebest', 'pbest')): req('final %s is the best one' % w.SET[i], eq(g(f), fin[i]))
        for x, v in zip(w.sz, last.args[1]): req('%s reported is that of the plan in place' % x.name, eq(ex.read(S, ex.top(x), 'int'), v))
        for k, ct in S.mem.items():
            if k[1] == ('#alive',) and ex.regions[k[0]].alloc in ('malloc', 'buf') and ex.regions[k[0]] is not None:
                rg = ex.regions[k[0]]
                if rg.alloc == 'malloc': r.require('%s: trial array of line %s is released' % (tag, rg.site.get('_line') if rg.site else '?'), S.pc, ne(ct.val, ONE))
                elif not rg.name.endswith(' %d' % w.setno(last)): r.require('%s: %s are released' % (tag, rg.name), S.pc, ne(ct.val, ONE))
        # ---- tables
        trials = [e for e in S.events if e.kind == 'trial']; init = trials[0]
        per = g('npertrial'); req('at least one transform per trial', le(ONE, per))
        half = ite(eq(fl, ZERO), const(2), ONE)
        rec = []
        for i in range(nt):
            ev = [e for e in trials if e.args[3][0].steps[1:] == ('tfft', const(i))]
            if not ev: r.add('%s: trial %d was run' % (tag, i), 'refuted', 'no trial stores its time in entry %d' % i, 'executor'); continue
            e = ev[-1]; rec.append((i, e))
            for k, f in enumerate(('cflags', 'eflags', 'pflags')): req('recorded %s[%d] is the setting used in that trial' % (f, i), eq(tab(f, i), e.args[5][k]))
            req('trial %d ran npertrial transforms' % i, eq(e.args[0], per)); req('trial %d ran in the direction asked for' % i, eq(e.args[1], fl))
            for k, f in enumerate(TABS(dim)):
                if k >= len(e.args[3]): continue
                r.add('%s: trial %d stores %s in its own entry' % (tag, i, f), 'discharged' if e.args[3][k].steps[1:] == (f, const(i)) else 'refuted', str(e.args[3][k].steps[1:]), 'executor')
                v = tab(f, i); req('%s[%d] is the time of one transform' % (f, i), eq(mul(v, per, half), e.args[4][k]))
        # ---- choice
        cand = [(i, e) for i, e in rec if e is not init] or rec
        T_ = lambda e: e.args[4][0]
        def chosen(es, fs):
            return or_(*[and_(*([le(T_(e), T_(x)) for _, x in es] + [eq(g(f), e.args[5][k]) for f, k in fs])) for _, e in es])
        raw = mul(g('besttime'), per, half)
        st1 = cand[:6] if len(cand) == 9 else cand
        if len(cand) == 9: req('collective and exchange are those of the fastest of the first six trials', chosen(st1, (('cbest', 0), ('ebest', 1))), 20000)
        st2 = cand[6:] if len(cand) == 9 else cand
        req('settings chosen are those of the fastest trial', chosen(st2, (('cbest', 0), ('ebest', 1), ('pbest', 2))), 20000)
        req('best time is the smallest recorded', and_(or_(*[eq(raw, T_(e)) for _, e in st2]), *[le(raw, T_(e)) for _, e in st2]), 20000)
        # ---- documented schedule
        D = {6: [(c, e, 2) for c in range(3) for e in range(2)], 3: [(c, 0, 2) for c in range(3)], 2: [(1, 0, 2), (2, 0, 2)], 1: [(2, 0, 2)]}
        want = D.get(len(cand)) if len(cand) != 9 else D[6]
        if cand is rec and len(rec) == 1 and rec[0][1] is init: req('without time for trials the settings stay', and_(*[eq(a, b) for a, b in zip(fin[:3], set0[:3])]))
        elif want is None: r.add('%s: number of trials is a documented one' % tag, 'refuted', str(len(cand)), 'executor')
        else:
            got = [tuple(T.cval(x) for x in e.args[5][:3]) for _, e in cand[:len(want)]]
            r.add('%s: the documented settings are tried' % tag, 'discharged' if sorted(got, key=str) == sorted(want) else 'refuted' if all(None not in x for x in got) else 'undecided', str(got), 'executor')
            if len(cand) == 9:
                for k, (_, e) in enumerate(cand[6:]):
                    req('pack trial %d uses the collective and exchange chosen' % k, and_(eq(e.args[5][0], g('cbest')), eq(e.args[5][1], g('ebest'))))
                got = sorted(str(T.cval(e.args[5][2])) for _, e in cand[6:])
                r.add('%s: every pack method is tried' % tag, 'discharged' if got == ['0', '1', '2'] else 'refuted', str(got), 'executor')
        if nt != 9: req('fewer trials only with a time limit', lt(ZERO, tm))
        else: req('iterations are as asked for without a time limit', implies(eq(tm, ZERO), eq(per, ni)))
        # ---- every process
        for f in ('cbest', 'ebest', 'pbest', 'npertrial', 'ntrial', 'besttime'):
            v = g(f); q = T.fresh('q')
            if 'me' not in T.var_names(v): r.ok('%s: %s is the same on every process' % (tag, f))
            else: r.require('%s: %s is the same on every process' % (tag, f), S.pc, eq(v, at(v, q)))
        bad = [x for x in S.pc if 'me' in T.var_names(x) and x.id not in w.base and not side(x)]
        if bad:
            q = T.fresh('q'); r.require('%s: processes take this path together' % tag, list(S.pc) + [le(ZERO, q), lt(q, P)], and_(*[at(x, q) for x in bad]))
        else: r.ok('%s: processes take this path together' % tag)
        for e in S.events:
            if e.kind not in ('coll', 'trial', 'setup'): continue
            ex_ = [x for x in e.pc if 'me' in T.var_names(x) and x.id not in set(y.id for y in S.pc)]
            if ex_: r.require('%s: step at line %s happens on every process' % (tag, e.node.get('_line')), S.pc, and_(*ex_))
    r.require_all(ex, nm + ': ', None); r.used(ex)
    for d in ex.deaths: r.require('%s: valid tuning is not refused ("%s")' % (nm, d[1]), [x for x in d[2] if linear(x)], FALSE)
    r.vacuity.append(('all schedules are reachable: %s' % sorted(x[0] for x in seen), len(seen) >= 6))
def side(x):
    """facts introduced by the contracts (sizes, clocks): true on every process"""
    return all(str(n).startswith(('size!', 'wtime!', 'time!')) or n == 'me' for n in names(x))
def names(t):
    out = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if id(x) in seen: continue
        seen.add(id(x))
        if isinstance(x, Num):
            for a in T.atoms_of(x):
                if a.op in ('app', 'var'): out.add(str(a.args[0]))
                st.extend(y for y in a.args if isinstance(y, (Num, Bool)))
        elif isinstance(x, Bool): st.extend(y for y in x.args if isinstance(y, (Num, Bool)))
    return out
TW.setno = lambda self, e: int(e.args[2].name.split()[1])
def trial(r, dim, lib, prec):
    """tune_trial: requires a plan that is set up, nper >= 1, -1 <= flag <= 1; ensures a positive time of the nper transforms,
    the same on every process; non-negative other times, 0 when not asked for; transforms on the trial array only"""
    w = TW(dim, lib, prec, contract=False); ex = w.ex
    q = '%s::tune_trial' % w.cls; nm = '%s[%s,%s]' % (q, lib, prec)
    if q not in w.prog.byname: r.ok(nm, 'no such function: the code that replaces it is executed with tune'); return
    for flag in (1, -1, 0):
        for tf in (0, 1):
            S = w.S0.copy(); S.events = (); N = T.var('nper'); S.assume(le(ONE, N))
            d = ex.region('data', w.scalar, None, 'arg'); refs = [ex.region('t%d' % i, 'double', ONE, 'arg') for i in range(dim + 4)]
            tag = '%s flag=%d tflag=%d' % (nm, flag, tf)
            fn = w.prog.func(q)
            outs = ex.run(S, fn, w.oa, [ptr(ex.top(d)), N, const(flag), const(tf)] + [('lv', [(TRUE, ex.top(x))]) for x in refs])
            if len(outs) != 1: raise Uns('tune_trial has %d exits' % len(outs))
            S = outs[0][0]; v = [ex.read(S, ex.top(x), 'double') for x in refs]
            r.require(tag + ': positive time', S.pc, lt(ZERO, v[0]))
            p = T.fresh('q')
            if 'me' not in T.var_names(v[0]): r.ok(tag + ': the same time on every process')
            else: r.require(tag + ': the same time on every process', list(S.pc) + [at(x, p) for x in S.pc if side(x)], eq(v[0], at(v[0], p)))
            for i, x in enumerate(v[1:]): r.require('%s: time %d is %s' % (tag, i + 1, 'not negative' if tf else 'zero'), S.pc, le(ZERO, x) if tf else eq(x, ZERO))
            # what is timed between the clock readings: nper transforms (pairs for flag 0)
            fl = []; 
            for e in S.events:
                if e.kind == 'loop': fl += [(x, e) for x in e.sub]
                else: fl.append((e, None))
            marks = [i for i, (e, l) in enumerate(fl) if e.kind == 'wtime']
            def count(lo_, hi_, m):
                """direction -> number of calls of m between two clock readings"""
                out = {}
                for e, l in fl[lo_:hi_]:
                    if e.kind != 'call' or e.args[0] != m: continue
                    dr = e.args[3] if m != 'only_1d_ffts' else e.args[2]
                    k = T.cval(dr)
                    if k is None: raise Uns('direction of a trial')
                    out[k] = add(out.get(k, ZERO), l.args[1] if l is not None else ONE)
                return out
            want = {1: N} if flag == 1 else {-1: N} if flag == -1 else {1: N, -1: N}
            if len(marks) < 2: raise Uns('clock readings')
            c = count(marks[0], marks[1], 'compute')
            r.add(tag + ': directions timed', 'discharged' if sorted(c) == sorted(want) else 'refuted', str(sorted(c)), 'executor')
            for k in want: r.require('%s: nper transforms in direction %d are timed' % (tag, k), S.pc, eq(c.get(k, ZERO), want[k]))
            rd = dict((T.as_atom(e.args[0]).args[0], i) for i, (e, l) in enumerate(fl) if e.kind == 'wtime')
            r.require('%s: the time is that of the transforms' % tag, S.pc, eq(at(v[0], ZERO), sub(at(fl[marks[1]][0].args[0], ZERO), at(fl[marks[0]][0].args[0], ZERO))))
            for e, l in fl:
                if e.kind == 'coll' and l is not None: raise Uns('collective in a loop')
                if e.kind != 'call': continue
                ok = True
                for a in e.args[1:3] if e.args[0] != 'only_1d_ffts' else e.args[1:2]:
                    ok = ok and isinstance(a, Ptr) and isinstance(a.single(), Addr) and a.single().region is d and T.cval(a.single().steps[0]) == 0
                r.add('%s: %s works on the trial array' % (tag, e.args[0]), 'discharged' if ok else 'refuted', '', 'executor')
                if e.args[0] == 'only_one_remap': r.require('%s: remap number in range' % tag, S.pc, and_(le(ONE, e.args[4]), le(e.args[4], const(dim + 1))))
            if tf:
                def timed(i, what, sel):
                    idx = [j for j, (e, l) in enumerate(fl) if e.kind == 'call' and sel(e)]
                    a = [j for j in marks if j < idx[0]] if idx else []; b = [j for j in marks if j > idx[-1]] if idx else []
                    if not a or not b: r.add('%s: %s is timed' % (tag, what), 'refuted', 'no calls between clock readings', 'executor'); return
                    r.require('%s: time %d is that of %s' % (tag, i, what), S.pc, eq(v[i], sub(fl[b[0]][0].args[0], fl[a[-1]][0].args[0])))
                timed(1, 'the 1d transforms', lambda e: e.args[0] == 'only_1d_ffts'); timed(2, 'the remaps', lambda e: e.args[0] == 'only_remaps')
                for wh in range(1, dim + 2): timed(2 + wh, 'remap %d' % wh, lambda e: e.args[0] == 'only_one_remap' and T.cval(e.args[4]) == wh)
                for i, m in ((1, 'only_1d_ffts'), (2, 'only_remaps')):
                    tot = count(0, len(fl), m)
                    for k in want: r.require('%s: nper %s in direction %d' % (tag, m, k), S.pc, eq(tot.get(k, ZERO), want[k]))
                for wh in range(1, dim + 2):
                    tot = {}
                    for e, l in fl:
                        if e.kind == 'call' and e.args[0] == 'only_one_remap' and T.cval(e.args[4]) == wh: k = T.cval(e.args[3]); tot[k] = add(tot.get(k, ZERO), l.args[1] if l is not None else ONE)
                    for k in want: r.require('%s: nper remaps %d in direction %d' % (tag, wh, k), S.pc, eq(tot.get(k, ZERO), want[k]))
    r.require_all(ex, nm + ': '); r.used(ex)
