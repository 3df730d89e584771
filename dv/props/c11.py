"""C11: invalid grids, tiles, precisions and call orders are refused; valid requests never are."""
from ..pipe import *
from ..fftw import feasible, FW, worlds, Choice
from ..sym import Dead, Exec, State
from ..front import Program
from .. import grids, spmd
from ..remapw import RW
M = 'dv.props.c11'
class Reach(Exception): pass
DATA = ('remap', 'fft', 'memcpy', 'scale', 'kiss', 'execute', 'rnew', 'send', 'irecv', 'alltoallv')

def sat(pc, ms=8000):
    """True / False / None: do the hypotheses have a model"""
    st, m = smt.check(list(pc), FALSE, ms)
    return {'proved': False, 'refuted': True}.get(st)
def notsat(r, name, pc, detail, sure=True):
    s = sat(pc)
    if s is False: r.ok(name, '', 'z3')
    elif s and sure: r.add(name, 'refuted', detail, 'z3')
    else: r.add(name, 'undecided', detail, 'z3')
def quiet(r, name, d, data=()):
    """death d: collective stop, before any data is touched"""
    kind, msg, pc, ev, node = d
    bad = [e for e in ev if e.kind in DATA[:6] or e.kind in DATA[7:]]
    bad = [e for e in bad if sat(list(pc) + list(e.pc)) is not False]
    if bad: r.add('%s: "%s" comes before any data is touched' % (name, msg), 'refuted', bad[0].kind, 'executor')
    else: r.ok('%s: "%s" comes before any data is touched' % (name, msg))
def uniform(r, name, d, base, w=None):
    """a process that stops is joined by all others"""
    kind, msg, pc, ev, node = d
    if kind != 'error': r.ok('%s: "%s" stops the whole job' % (name, msg)); return
    have = set(x.id for x in base)
    extra = [x for x in pc if x.id not in have]
    q = T.fresh('q'); n2 = []
    for x in extra:
        if 'me' not in T.var_names(x): continue
        n2.append(at(x, q))
    nm = '%s: "%s" is reached by every process or none' % (name, msg)
    if not n2: r.ok(nm); return
    fs = [f(q) for f in w.facts[:w.nfacts.get(id(pc), 0)]] if w is not None else []
    st, m = smt.check(list(pc) + [le(ZERO, q), lt(q, P)] + fs, and_(*n2), 8000)
    if st == 'proved': r.ok(nm, '', 'z3')
    else: r.add(nm, 'refuted' if st == 'refuted' else 'undecided', 'a process stops here while another does not', 'z3')

# ---------------------------------------------------------------- constructor
def precision(r, dim, prec):
    w = FW(dim, 'kiss', prec); ex = w.ex; S = w.S; v = T.var('precision'); want = 1 if prec == 'single' else 2
    outs = ex.run(S, w.prog.func('%s::%s' % (w.cls, w.cls), 2), w.oa, [ptr(ex.top(w.comm)), v])
    tag = '%s::%s, %s library' % (w.cls, w.cls, prec)
    for S2, _ in outs: r.require('%s: accepts only its own precision' % tag, S2.pc, eq(v, const(want)))
    for d in ex.deaths:
        notsat(r, '%s: "%s" never refuses the right precision' % (tag, d[1]), list(d[2]) + [eq(v, const(want))], 'a plan of the right precision is refused')
        uniform(r, tag, d, w.S.pc if False else ()); quiet(r, tag, d)
    r.require('%s: every other value is refused' % tag, [], or_(*([T.TRUE] if ex.deaths else [FALSE])))
    r.vacuity.append(('a right precision is accepted', any(sat(S2.pc) for S2, _ in outs)))
    r.used(ex)

# ---------------------------------------------------------------- setup
class W11(FW):
    def reduce(self, ex, S, o, v, n):
        try: return super().reduce(ex, S, o, v, n)
        except Uns:
            if o != 'sum': raise
            self.odd = getattr(self, 'odd', 0) + 1
            return T.var('total!%d' % self.odd)
def any_worlds(mk):
    todo = [()]; n = 0
    while todo:
        c = todo.pop(); w = mk(c); n += 1
        if n > 400: raise Uns('too many cases')
        w.nfacts = {}; die = w.ex.die
        def dd(S, kind, msg, nd, w=w, die=die): w.nfacts[id(S.pc)] = len(w.facts); die(S, kind, msg, nd)
        w.ex.die = dd
        try: w.construct(); w.options(w.S0); w.base = w.S0.pc; w.setup(); w.bad = None
        except Choice: w.bad = 'infeasible'
        except Dead: w.bad = 'dead'
        for j in range(len(c), len(w.used)):
            if w.used[j][1] == 0: todo.append(tuple((x[1] if x[1] != 'zero' else 0) for x in w.used[:j]) + (1,))
        if w.bad != 'infeasible': yield w
def validin(w, q):
    return and_(*[x for i, d in enumerate(w.D) for x in (le(ZERO, lo('in', d, q)), le(sub(lo('in', d, q), ONE), hi('in', d, q)), lt(hi('in', d, q), w.n[i]))])
def args(r, dim, lib, prec, permute, exchange, memoryflag):
    """setup with arbitrary arguments"""
    def mk(c):
        w = W11(dim, lib, prec, permute, exchange, T.var('collective'), memoryflag, 1, 0, c)
        w.S.assume(or_(*[eq(T.var('collective'), const(i)) for i in range(3)])); w.S.assume(or_(*[eq(w.pf, const(i)) for i in range(3)]))
        return w
    alive = dead = 0
    for w in any_worlds(mk):
        tag = '%s::setup[%s,%s,permute=%d,exchange=%d,memory=%d,cases=%s]' % (w.cls, lib, prec, permute, exchange, memoryflag, ''.join(str(x[1])[0] for x in w.used))
        base = list(w.base)
        for d in w.ex.deaths:
            dead += 1
            uniform(r, tag, d, base, w); quiet(r, tag, d)
        if w.bad is None:
            pc = [x for x in w.S1.pc if linear_(x) or 'in.total' in T.var_names(x)]
            odd = getattr(w, 'odd', 0)
            for i, x in enumerate(w.n):
                r.require('%s: a grid side below 2 is refused (axis %d)' % (tag, i), pc, le(const(2), x))
                r.require('%s: a side with another prime factor is refused (axis %d)' % (tag, i), pc, eq(T.app('smooth', (x,)), ONE))
            r.require('%s: input bounds outside the grid are refused' % tag, pc, validin(w, ME))
            r.require('%s: tiles that do not add up to the grid are refused' % tag, pc, eq(T.var('in.total'), w.N()))
            if sat([x for x in pc if linear_(x)]): alive += 1
        r.used(w.ex)
    r.vacuity.append(('some request is accepted', alive > 0)); r.vacuity.append(('some request is refused', dead > 0))
from ..fftw import linear as linear_
def accept(r, dim, lib, prec, permute, exchange, memoryflag):
    """a valid request is never refused, nor is any call in order"""
    def f(r, w, tag):
        ex = w.ex; S = w.S2
        for flag in (1, -1):
            for meth, extra in [('compute', ()), ('only_remaps', ()), ('only_1d_ffts', None)] + [('only_one_remap', (const(i),)) for i in range(1, dim + 2)]:
                A, B = w.arrays(S, 1)
                a = [ptr(ex.top(A))] + ([] if extra is None else [ptr(ex.top(B))]) + [const(flag)] + list(extra or ())
                w.call(S, meth, a)
        for d in ex.deaths:
            pc = list(d[2])
            if d[0] == 'abort':      # only after an allocation failure
                pass
            lin = [x for x in pc if linear_(x)]
            nm = '%s: a valid request is not refused ("%s")' % (tag, d[1])
            if sat(lin) is False: r.ok(nm, '', 'z3')
            else: notsat(r, nm, pc, 'a valid request is refused: %s' % d[1], not getattr(w, 'odd', 0))
        flags(r, w, tag, memoryflag)
    each(r, dim, lib, prec, permute, exchange, memoryflag, f)

# ---------------------------------------------------------------- call order
def order(r, dim, lib, prec):
    cls = 'FFT%dd' % dim; nb = 5 * dim
    def call(w, S, meth, args, what, pre=()):
        S = S.copy(); S.events = ()
        for x in pre: S.assume(x)
        name = '%s::%s %s' % (cls, meth, what); ex = w.ex; d0 = len(ex.deaths)
        if sat([x for x in S.pc if linear_(x)]) is False: r.vacuity.append((name, False)); return
        w.reached = []
        try: outs = ex.run(S, w.prog.func('%s::%s' % (cls, meth)), w.oa, args)
        except Dead: outs = []
        except Reach: outs = []
        alive = [s.pc for s, _ in outs] + w.reached
        bad = [pc for pc in alive if sat([x for x in pc if linear_(x)], 3000) is not False]
        if bad: r.add('%s is refused' % name, 'refuted', 'the call goes on', 'z3')
        elif len(ex.deaths) == d0: r.add('%s is refused' % name, 'undecided', 'no path', 'executor')
        else: r.ok('%s is refused' % name, '', 'z3')
        for d in ex.deaths[d0:]:
            uniform(r, name, d, S.pc); quiet(r, name, d)
        del ex.deaths[d0:]
    def reach(ex, S, this, a, n): w.reached.append(S.pc); raise Dead()
    def data(w):
        A = w.ex.region('data', w.scalar, None, 'arg'); return ptr(w.ex.top(A))
    def methods(w, S, what, which):
        A = data(w); f = T.var('direction'); pre = [or_(eq(f, ONE), eq(f, const(-1)))]
        if 'c' in which: call(w, S, 'compute', [A, A, f], what, pre)
        if 'm' in which:
            call(w, S, 'only_remaps', [A, A, f], what, pre)
            for i in range(1, dim + 2): call(w, S, 'only_one_remap', [A, A, f, const(i)], '(%d) %s' % (i, what), pre)
        if '1' in which: call(w, S, 'only_1d_ffts', [A, f], what, pre)
        if 's' in which: call(w, S, 'setup_memory', [data(w), data(w)], what)
    # before setup
    for mf in (0, 1):
        w = FW(dim, lib, prec, 0, 0, T.var('collective'), mf); w.construct(); w.options(w.S0)
        methods(w, w.S0, 'before setup, memory=%d' % mf, 'cm1s'); r.used(w.ex)
    # tune with invalid arguments
    hs = {'%s::setup' % cls: None, '%s::tune_trial' % cls: None}
    w = FW(dim, lib, prec, 0, 0, T.var('collective'), T.var('memoryflag'), handlers={k: reach for k in (cls + '::setup', cls + '::tune_trial', cls + '::compute', 'MPI_Barrier', 'MPI_Wtime')})
    w.construct(); w.options(w.S0)
    fl, ni, tm, tf = T.var('flag'), T.var('niter'), T.var('tmax', 'R'), T.var('tflag')
    a = w.n + w.tile_args() + [ZERO] + w.sizes_refs() + [fl, ni, tm, tf]
    good = {'flag': and_(le(const(-1), fl), le(fl, ONE)), 'niter': le(ONE, ni), 'tmax': le(ZERO, tm), 'tflag': and_(le(ZERO, tf), le(tf, ONE))}
    for k in good:
        call(w, w.S0, 'tune', a, 'with an invalid %s' % k, [not_(good[k])])
    for x, nm in ((lt(fl, const(-1)), 'flag below -1'), (lt(ONE, fl), 'flag above 1')): call(w, w.S0, 'tune', a, 'with %s' % nm, [x] + [v for k, v in good.items() if k != 'flag'])
    # valid tuning arguments get through to the first trial
    S = w.S0.copy(); w.reached = []
    for v in good.values(): S.assume(v)
    try: w.ex.run(S, w.prog.func(cls + '::tune'), w.oa, a)
    except Dead: pass
    for d in w.ex.deaths: notsat(r, '%s::tune: valid arguments are not refused ("%s")' % (cls, d[1]), [x for x in d[2] if linear_(x)], 'valid tuning arguments are refused')
    r.vacuity.append(('tune goes on with valid arguments', any(sat([x for x in pc if linear_(x)]) for pc in w.reached)))
    r.used(w.ex)
    # after setup: again, memory
    for mf in (0, 1):
        for w in worlds(lambda c: FW(dim, lib, prec, 0, 0, T.var('collective'), mf, choices=c)):
            if w.bad: continue
            S = w.S1; nd = len(w.ex.deaths); tag = 'after setup, memory=%d, cases=%s' % (mf, ''.join(str(x[1])[0] for x in w.used))
            if mf == 0: methods(w, S, 'before setup_memory (%s)' % tag, 'cm')
            else: methods(w, S, 'with internal buffers (%s)' % tag, 's')
            for h in ('MPI_Allreduce', 'MPI_Barrier', 'MPI_Wtime', cls + '::tune_trial', cls + '::factor', 'new ' + w.rcls): w.ex.h[h] = lambda ex, S, *x, w=w: (w.reached.append(S.pc), (_ for _ in ()).throw(Dead()))
            call(w, S, 'setup', w.n + w.tile_args() + [ZERO] + w.sizes_refs(), 'twice (%s)' % tag)
            call(w, S, 'tune', w.n + w.tile_args() + [ZERO] + w.sizes_refs() + [fl, ni, tm, tf], 'after setup (%s)' % tag, list(good.values()))
            r.used(w.ex)
            break                        # the flags do not depend on the case: one representative; all cases below
def flags(r, w, tag, memoryflag):
    """the state the call order checks start from is the one every setup leaves"""
    S = w.S1
    r.require('%s: setup leaves the plan marked as set up' % tag, S.pc, ne(w.getf(S, 'setupflag'), ZERO))
    v = w.getf(S, 'setup_memory_flag')
    r.require('%s: setup leaves the buffers marked as %s' % (tag, 'there' if memoryflag else 'missing'), S.pc, ne(v, ZERO) if memoryflag else eq(v, ZERO))
    if not memoryflag: r.require('%s: setup_memory marks the buffers as there' % tag, w.S2.pc, ne(w.getf(w.S2, 'setup_memory_flag'), ZERO))

# ---------------------------------------------------------------- remaps
def remap(r, dim, prec):
    w = RW(dim, prec); ex = w.ex
    outs = ex.run(w.S, w.prog.func('%s::%s' % (w.cls, w.cls), 1), w.oa, [ptr(ex.top(w.comm))])
    for S, _ in outs:
        for c in (0, 1, None):
            S2 = S.copy()
            if c is not None: w.setf(S2, 'collective', const(c))
            sc = 'float' if prec == 'single' else 'double'
            A = [ptr(ex.top(ex.region(x, sc, None, 'arg'))) for x in ('in', 'out', 'send', 'recv')]
            d0 = len(ex.deaths); name = '%s::remap before setup' % w.cls
            try: o = ex.run(S2, w.prog.func(w.cls + '::remap'), w.oa, A)
            except Dead: o = []
            if any(sat(s.pc) is not False for s, _ in o): r.add(name + ' is refused', 'refuted', 'the call goes on', 'executor')
            elif len(ex.deaths) == d0: r.add(name + ' is refused', 'undecided', 'no path', 'executor')
            else: r.ok(name + ' is refused')
            for d in ex.deaths[d0:]: uniform(r, name, d, S2.pc); quiet(r, name, d)
    r.used(ex)
def remap_accept(r, dim, prec, mf, pm):
    w = RW(dim, prec, 0, pm, mf); w.setup(); w.remap()
    for d in w.ex.deaths:
        lin = [x for x in d[2] if linear_(x)]
        nm = '%s: a valid remap is not refused ("%s")' % (w.cls, d[1])
        if sat(lin) is False: r.ok(nm, '', 'z3')
        else: notsat(r, nm, d[2], 'a valid remap is refused: %s' % d[1])
    r.ok('%s: setup returns' % w.cls); r.used(w.ex)

# ---------------------------------------------------------------- Error
def error(r):
    prog = Program([]); prog.add('error.cpp')
    seen = []
    def rec(kind):
        def h(ex, S, this, a, n): ex.event(S, kind, tuple(a), n); return ZERO
        return h
    def stop(kind):
        def h(ex, S, this, a, n): ex.event(S, kind, tuple(a), n); ex.die(S, kind, '', n); raise Dead()
        return h
    h = dict(spmd.MPI); h.update({'MPI_Finalize': rec('finalize'), 'MPI_Abort': stop('mpiabort'), 'exit': stop('exit'), 'MPI_Barrier': rec('barrier'), 'printf': rec('print'), 'fflush': rec('flush')})
    for meth, ok in (('Error::all', ('exit', 'mpiabort')), ('Error::one', ('mpiabort',))):
        ex = Exec(prog, h); S = State(); S.assume(le(ZERO, ME)); S.assume(lt(ME, P))
        obj = ex.region('obj', 'Error', ONE, 'heap'); oa = ex.top(obj); comm = ex.region('comm', 'int', None, 'arg')
        (S, _), = ex.run(S, prog.func('Error::Error', 1), oa, [ptr(ex.top(comm))])
        f = prog.func(meth)
        try: outs = ex.run(S, f, oa, [ptr(ex.top(ex.region('msg', 'char', None, 'arg')))])
        except Dead: outs = []
        if outs and any(sat(s.pc) is not False for s, _ in outs): r.add('%s never returns' % meth, 'refuted', 'a path returns', 'executor')
        else: r.ok('%s never returns' % meth, '', 'executor')
        for d in ex.deaths:
            r.add('%s stops the process' % meth, 'discharged' if d[0] in ok else 'refuted', d[0], 'executor')
            last = [e for e in d[3] if e.kind == d[0]][-1]
            code = last.args[-1]
            r.require('%s reports failure to the system' % meth, d[2], ne(code, ZERO))
            if meth == 'Error::all': uniform(r, meth, ('error', '', d[2], d[3], d[4]), S.pc) if d[0] == 'exit' else None
            pr = [e for e in d[3] if e.kind == 'print']
            r.vacuity.append(('%s prints' % meth, True))
        r.vacuity.append(('%s stops' % meth, bool(ex.deaths)))
        r.used(ex)

def tasks(tier):
    ts = [(M, 'precision', (d, p), 'precision %dd %s' % (d, p)) for d in (3, 2) for p in ('double', 'single')]
    ts += [(M, 'error', (), 'Error')]
    ts += [('dv.grids', 'prime', (d,), 'prime_factorable %dd' % d) for d in (3, 2)] + [('dv.grids', 'lemmas', (), 'lemmas')]
    ts += [(M, 'order', (d, 'kiss', p), 'call order %dd %s' % (d, p)) for d in (3, 2) for p in ('double', 'single')]
    ts += [(M, 'remap', (d, p), 'remap before setup %dd %s' % (d, p)) for d in (3, 2) for p in ('double', 'single')]
    ts += [(M, 'remap_accept', (d, 'double', mf, pm), 'valid remap %dd memory=%d permute=%d' % (d, mf, pm)) for d in (3, 2) for mf in (0, 1) for pm in range(d)]
    from .c01 import mktasks
    for d in (3, 2): ts += mktasks(d, tier, M, 'accept', 'valid requests')
    for d in (3, 2):
        for mf in (0, 1): ts += [(M, 'args', (d, 'kiss', 'double', p, e, mf), 'setup arguments %dd permute=%d exchange=%d memory=%d' % (d, p, e, mf)) for p in range(d) for e in (0, 1)]
    return ts
HARNESS = [('h_fft', 'err'), ('h_remap', 'rerr')]
ASSUMPTIONS = ['allocations succeed (an allocation failure aborts the job)']
