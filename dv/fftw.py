"""FFT2d / FFT3d: one symbolic process `me` of P, executed from constructor through setup and the compute methods.

Remap2d/Remap3d objects, the 1d transforms, factor/procfactors and prime_factorable are used through their
contracts (C04/C05, C16, C09, C11).  Collective decisions (Allreduce of flags) are split into cases: all
processes 0, or some process w nonzero."""
from . import terms as T, smt, spmd, sums
from .terms import *
from .front import Program
from .sym import Exec, State, Base, W, ptr, Ptr, Addr, NULLP, Uns, Fn, Dead
from .spmd import ME, P, at
from .remapw import lo, hi, DIMS, flat, vol

ORDER = {(3, 0): (0, 1, 2), (3, 1): (1, 2, 0), (3, 2): (2, 0, 1), (2, 0): (0, 1), (2, 1): (1, 0)}
DEF = {('kiss', 'double'): [], ('kiss', 'single'): ['FFT_SINGLE'], ('fftw3', 'double'): ['FFT_FFTW3'], ('fftw3', 'single'): ['FFT_FFTW3', 'FFT_SINGLE']}
class Choice(Exception): pass

class FW:
    """world of one FFT object"""
    def __init__(self, dim, lib='kiss', prec='double', permute=0, exchange=0, collective=0, memoryflag=1, scaled=1, remaponly=0, choices=(), contract=True, handlers=None):
        self.dim = dim; self.D = DIMS[dim]; self.cls = 'FFT%dd' % dim; self.rcls = 'Remap%dd' % dim
        self.lib, self.prec = lib, prec; self.scalar = 'float' if prec == 'single' else 'double'
        self.prog = Program(DEF[(lib, prec)])
        for f in ('fft%dd.cpp' % dim, 'memory.cpp', 'error.cpp'): self.prog.add(f)
        self.permute, self.exchange, self.collective, self.memoryflag, self.scaled, self.remaponly = permute, exchange, collective, memoryflag, scaled, remaponly
        self.choices = list(choices); self.used = []       # collective decisions taken on this run
        self.facts = []                                    # lambda q: what is known to hold for every process q
        self.wit = []
        h = dict(spmd.MPI)
        c = self.cls; rc = self.rcls
        h['MPI_Allreduce'] = self.h_allreduce
        h['MPI_Wtime'] = spmd.h_wtime
        h['new ' + rc] = self.h_new; h['delete ' + rc] = self.h_del
        h[rc + '::setup'] = self.h_rsetup; h[rc + '::remap'] = self.h_remap
        if contract:
            h[c + '::factor'] = self.h_factor; h[c + '::procfactors'] = self.h_procfactors; h[c + '::prime_factorable'] = self.h_prime
            h[c + '::perform_ffts'] = self.h_perform; h[c + '::scale_ffts'] = self.h_scale
        h['kiss_fft_alloc'] = self.h_kalloc; h['kiss_fft'] = self.h_kiss
        for x in ('fftw_', 'fftwf_'):
            h[x + 'plan_many_dft'] = self.h_plan_many; h[x + 'execute_dft'] = self.h_execute; h[x + 'destroy_plan'] = self.h_destroy
        h.update(handlers or {})
        self.ex = ex = Exec(self.prog, h); ex.track_uninit = True
        ex.hooks['narrow'] = self.narrow
        self.S = S = State()
        S.assume(le(ONE, P)); S.assume(le(ZERO, ME)); S.assume(lt(ME, P))
        self.comm = ex.region('comm', 'int', None, 'arg')
        obj = ex.region('obj', c, ONE, 'heap'); obj.alloc = 'new'; self.obj = obj; self.oa = ex.top(obj)
        S.mem[(obj.id, ('#alive',))] = W(ex.base0((obj.id, ('#alive',))), (ZERO,), ONE)
        self.n = [T.var(x) for x in (('nfast', 'nmid', 'nslow') if dim == 3 else ('nfast', 'nslow'))]
        self.pf = T.var('packflag')
        self.rinfo = {}
    def N(self): return vol(self.n)
    def narrow(self, ex, S, v, n):
        """a 32 bit value must not be the number of points of the whole grid (or a multiple)"""
        if not isinstance(v, Num) or T.cval(v) is not None: return
        ids = [x.m[0][0][0][0] for x in self.n]
        for m, _ in v.m:
            at_ = [a for a, e in m]
            if all(a in at_ for a in ids): ex.oblige(S, 'range', FALSE, n, 'the number of grid points is computed in 64 bits'); return
        if any(a.op == 'var' and a.args[0] == 'in.total' for a in T.atoms_of(v)): ex.oblige(S, 'range', FALSE, n, 'the sum of the tile sizes is kept in 64 bits')
    def valid(self, q):
        """a valid request, for process q"""
        out = []
        for i, d in enumerate(self.D):
            for io in ('in', 'out'):
                out += [le(ZERO, lo(io, d, q)), le(sub(lo(io, d, q), ONE), hi(io, d, q)), lt(hi(io, d, q), self.n[i])]
        return and_(*out)
    def assume_valid(self, S=None):
        S = S or self.S
        for x in self.n: S.assume(le(const(2), x)); S.assume(eq(T.app('smooth', (x,)), ONE))
        for i in range(3): pass
        S.assume(or_(*[eq(self.pf, const(i)) for i in range(3)]))
        S.assume(self.valid(ME)); self.facts.append(self.valid)
        S.assume(eq(T.var('in.total'), self.N()))
    # ---------------------------------------------------------------- contracts
    def h_allreduce(self, ex, S, this, a, n):
        sb, rb, cnt, ty, op, comm = a
        ex.event(S, 'coll', ('Allreduce', comm, cnt, ty, op), n)
        if T.cval(cnt) != 1: raise Uns('Allreduce of several values')
        o = spmd.REDUCE.get(T.cval(op)); s = sb.single(); r = rb.single()
        if not isinstance(s, Addr) or not isinstance(r, Addr) or o is None: raise Uns('Allreduce')
        spmd.typed(ex, S, ty, s, n, 'Allreduce'); spmd.typed(ex, S, ty, r, n, 'Allreduce')
        v = ex.read(S, s, s.unit, n)
        if o == 'sum' and 'me' in T.var_names(v): ex.oblige(S, 'range', TRUE if ex.prog.sizeof(r.unit) >= 8 else FALSE, n, 'a sum over the processes has 64 bits')
        ex.write(S, r, self.reduce(ex, S, o, v, n), n)
        return ZERO
    def reduce(self, ex, S, o, v, n):
        if 'me' not in T.var_names(v): return mul(P, v) if o == 'sum' else v
        d = vol([add(sub(hi('in', x, ME), lo('in', x, ME)), ONE) for x in self.D])
        if o == 'sum':
            if v is d or smt.proved(S.pc, eq(v, d), 3000): return T.var('in.total')       # sum of the input tile volumes
            raise Uns('sum over the processes of something else than the input tile volume')
        if smt.proved(S.pc, eq(v, ZERO), 1500) and all(smt.proved([x for x in S.pc] , eq(v, ZERO), 1500) for _ in (0,)):
            self.used.append((n.get('_line'), 'zero')); return ZERO     # holds for an arbitrary process
        if o == 'min': raise Uns('Allreduce MIN')
        if not smt.proved(S.pc, or_(eq(v, ZERO), eq(v, ONE)), 1500): raise Uns('Allreduce MAX of a value that is not 0 or 1')
        i = len(self.used)
        c = self.choices[i] if i < len(self.choices) else 0
        self.used.append((n.get('_line'), c))
        if c == 0:
            S.assume(eq(v, ZERO)); self.facts.append(lambda q, v=v: eq(at(v, q), ZERO))
            for w in self.wit: S.assume(eq(at(v, w), ZERO))
            return ZERO
        w = T.fresh('w'); self.wit.append(w)
        S.assume(le(ZERO, w)); S.assume(lt(w, P)); S.assume(ne(at(v, w), ZERO))
        for f in self.facts: S.assume(f(w))
        if not feasible(S.pc): raise Choice('infeasible')
        return ONE
    def h_new(self, ex, S, a, args, n):
        for f, v in (('collective', ONE), ('packflag', ZERO), ('memusage', ZERO)):
            ex.write(S, ex.field(a, self.rcls, f, dict(self.prog.fields(self.rcls))[f]), v)
        ex.event(S, 'rnew', (a.region, args), n)
    def h_del(self, ex, S, a, args, n): ex.event(S, 'rdel', (a.region,), n)
    def h_rsetup(self, ex, S, this, a, n):
        k = this.region.id; nb = 4 * self.dim
        self.alive(ex, S, this, n)
        nm = 'r%d' % len([e for e in S.events if e.kind == 'rsetup'])
        rd = lambda f: ex.read(S, ex.field(this, self.rcls, f, 'int'), 'int', n)
        info = dict(box=a[:nb], nqty=a[nb], permute=a[nb + 1], memflag=a[nb + 2], collective=rd('collective'), packflag=rd('packflag'), name=nm,
                    ss=T.var(nm + '.sendsize'), rs=T.var(nm + '.recvsize'), mem=T.var(nm + '.memusage'), node=n)
        for x in a[:nb + 3]: ex.init_check(S, x, n)
        for x in ('ss', 'rs', 'mem'): S.assume(le(ZERO, info[x]))
        for ref, x in zip(a[nb + 3:], ('ss', 'rs')):
            ex.lwrite(S, ref[1], info[x], 'int', n)
        ex.write(S, ex.field(this, self.rcls, 'memusage', 'long'), info['mem'], n)
        ex.event(S, 'rsetup', (this.region, info), n)
        if k in self.rinfo and not ex.dry: info['again'] = True
        self.rinfo[k] = info
    def alive(self, ex, S, a, n):
        al = S.mem.get((a.region.id, ('#alive',)))
        if al is not None: ex.oblige(S, 'lifetime', eq(al.val, ONE), n, '%s used while allocated' % a.region.name)
    def h_remap(self, ex, S, this, a, n):
        self.alive(ex, S, this, n)
        for p in a[:2]:
            for g, x in ex.cases(S, p, n): self.alive(ex, S, x, n)
        ex.event(S, 'remap', (this.region, a[0], a[1], a[2], a[3]), n)
    def h_factor(self, ex, S, this, a, n):
        v = T.app('nfactor', (a[0],)); S.assume(le(ONE, v)); S.assume(le(v, const(50)))
        ex.write(S, ex.field(this, self.cls, 'nfactor', 'int'), v, n)
    def h_procfactors(self, ex, S, this, a, n):
        k = self.dim; ns = tuple(a[:k])
        np = [T.app('np.%d' % i, ns) for i in range(k)]; ip = [T.app('ip.%d' % i, (ME,) + ns) for i in range(k)]
        ex.oblige(S, 'grid', eq(ex.read(S, ex.field(this, self.cls, 'nfactor', 'int'), 'int', n), T.app('nfactor', (P,))), n, 'the number of processes has been factored')
        ex.oblige(S, 'grid', and_(*[le(ONE, x) for x in ns]), n, 'grid sides are positive')
        for x in grid_facts(ns, np, ip): S.assume(x)
        for ref, v in zip(a[k:], np + ip): ex.lwrite(S, ref[1], v, 'int', n)
        ex.event(S, 'procfactors', (ns,), n)
    def h_prime(self, ex, S, this, a, n):
        v = T.app('smooth', (a[0],)); S.assume(or_(eq(v, ZERO), eq(v, ONE)))
        return v
    def fft1d(self, ex, S, p, n):
        a = p.single() if isinstance(p, Ptr) else None
        if not isinstance(a, Addr): raise Uns('1d plan through several pointers')
        self.alive(ex, S, a, n)
        rec = '%s::FFT1d' % self.cls
        out = {}
        for f, ft in self.prog.fields(rec): out[f] = ex.read(S, ex.field(a, rec, f, ft), ft, n)
        return out
    def h_perform(self, ex, S, this, a, n):
        pl = self.fft1d(ex, S, a[2], n)
        ex.event(S, 'fft', (a[0], a[1], tuple(sorted(pl.items(), key=lambda t: t[0]))), n)
        for k in ('length', 'n', 'total'):
            if k in pl: ex.init_check(S, pl[k], n)
    def h_scale(self, ex, S, this, a, n):
        rd = lambda f, t: ex.read(S, ex.field(self.oa, self.cls, f, t), t, n)
        ex.event(S, 'scale', (a[0], rd('normnum', 'int'), rd('norm', 'double')), n)
    def h_kalloc(self, ex, S, this, a, n):
        r = ex.alloc_region(S, 'kiss plan', 'kiss_fft_state', ONE, 'malloc', n); r.plan = ('kiss', a[0], a[1])
        ex.oblige(S, 'fft', and_(le(ONE, a[0]), T.TRUE if (isinstance(a[2], Ptr) and a[2].single() is None) else FALSE), n, 'kiss_fft_alloc allocates a plan for a positive length')
        return ptr(Addr(r, (ZERO,), r.elem))
    def h_kiss(self, ex, S, this, a, n): ex.event(S, 'kiss', tuple(a), n)
    def h_plan_many(self, ex, S, this, a, n):
        ex.oblige(S, 'fft', eq(a[0], ONE), n, 'one dimensional plan')
        ln = ex.read(S, a[1].single(), 'int', n)
        r = ex.alloc_region(S, 'fftw plan', 'char', ONE, 'fftw', n)
        r.plan = ('fftw', ln, a[11], a[2], a[5], a[6], a[9], a[10])
        r.null = (a[3], a[7])
        for x in (a[4], a[8]): ex.oblige(S, 'fft', eq(ex.read(S, x.single(), 'int', n), ln), n, 'embedding equals the length')
        return ptr(Addr(r, (ZERO,), None))
    def h_execute(self, ex, S, this, a, n): ex.event(S, 'execute', tuple(a), n)
    def h_destroy(self, ex, S, this, a, n):
        for g, t in ex.cases(S, a[0], n): ex.release(S, t, 'fftw', n)
    # ---------------------------------------------------------------- running
    def getf(self, S, f):
        ft = dict(self.prog.fields(self.cls))[f]
        return self.ex.read(S, self.ex.field(self.oa, self.cls, f, ft), ft)
    def setf(self, S, f, v): self.ex.write(S, self.ex.field(self.oa, self.cls, f, dict(self.prog.fields(self.cls))[f]), v)
    def one(self, outs, what):
        if len(outs) != 1: raise Uns('%s has %d exits' % (what, len(outs)))
        return outs[0][0]
    def construct(self):
        S = self.S
        S = self.one(self.ex.run(S, self.prog.func('%s::%s' % (self.cls, self.cls), 2), self.oa, [ptr(self.ex.top(self.comm)), const(1 if self.prec == 'single' else 2)]), 'constructor')
        self.S0 = S
        return S
    def options(self, S):
        for f, v in (('collective', self.collective), ('exchange', self.exchange), ('memoryflag', self.memoryflag), ('scaled', self.scaled), ('remaponly', self.remaponly)):
            self.setf(S, f, v if isinstance(v, Num) else const(v))
        self.setf(S, 'packflag', self.pf)
    def tile_args(self):
        out = []
        for io in ('in', 'out'):
            for d in self.D: out += [lo(io, d, ME), hi(io, d, ME)]
        return out
    def sizes_refs(self):
        ex = self.ex
        self.sz = [ex.region(x, 'int', ONE, 'arg') for x in ('fftsize', 'sendsize', 'recvsize')]
        return [('lv', [(TRUE, ex.top(x))]) for x in self.sz]
    def setup(self, S=None):
        S = S or self.S0; ex = self.ex
        outs = ex.run(S, self.prog.func('%s::setup' % self.cls), self.oa, self.n + self.tile_args() + [const(self.permute) if isinstance(self.permute, int) else self.permute] + self.sizes_refs())
        if not outs: raise Dead()
        self.S1 = self.one(outs, 'setup')
        return self.S1
    def reported(self, S=None): return [self.ex.read(S or self.S1, self.ex.top(x), 'int') for x in self.sz]
    def user_memory(self, S):
        fs, ss, rs = self.reported(S); ex = self.ex
        self.ub = [ex.region(x, self.scalar, l, 'arg') for x, l in (('usend', ss), ('urecv', rs))]
        return self.one(ex.run(S, self.prog.func('%s::setup_memory' % self.cls), self.oa, [ptr(ex.top(x)) for x in self.ub]), 'setup_memory')
    def arrays(self, S, same):
        """caller's data arrays; a separate input array has exactly the input tile"""
        ex = self.ex
        A = ex.region('in', self.scalar, None, 'arg'); B = A if same else ex.region('out', self.scalar, None, 'arg')
        return A, B
    def call(self, S, meth, args):
        S = S.copy(); S.events = ()
        return self.one(self.ex.run(S, self.prog.func('%s::%s' % (self.cls, meth)), self.oa, args), meth)

def linear(b, seen=None):
    """no products or divisions of symbols"""
    if isinstance(b, Num):
        if any(sum(e for _, e in m) > 1 for m, _ in b.m): return False
        return all(a.op not in ('cdiv', 'cmod', 'inv', 'trunc') and all(linear(x) for x in a.args if isinstance(x, (Num, Bool))) for a in T.atoms_of(b))
    return all(linear(x) for x in b.args if isinstance(x, (Num, Bool)))
def feasible(pc):
    """False only if contradictory for sure (decided on the linear hypotheses)"""
    return smt.feasible([x for x in pc if linear(x)], 4000)
def grid_facts(ns, np, ip):
    """contract of procfactors (proved under C09)"""
    out = [le(ONE, x) for x in np] + [eq(vol(np), P)]
    out += [implies(eq(n, ONE), eq(x, ONE)) for n, x in zip(ns, np)]
    for a, b in zip(ip, np): out += [le(ZERO, a), lt(a, b)]
    return out

def stale(mk):
    """scalar fields that the constructor initialises, setup changes and the release methods (used between the setups of tune)
    do not restore: setup has to work from any value of these"""
    w = mk(())
    try:
        w.construct(); w.options(w.S0); w.assume_valid(w.S0); w.setup(); S = w.S1.copy()
        for meth in ('deallocate_setup',) + (('deallocate_setup_memory',) if T.cval(w.getf(S, 'memoryflag')) != 0 else ()):
            if '%s::%s' % (w.cls, meth) not in w.prog.byname: return []
            S = w.one(w.ex.run(S, w.prog.func('%s::%s' % (w.cls, meth)), w.oa, []), meth)
        out = []
        for f, ft in w.prog.fields(w.cls):
            if ft not in ('int', 'int64_t', 'long'): continue
            a = w.getf(w.S0, f)
            if T.cval(a) is None: continue
            b = w.getf(S, f)
            if b is not a and not smt.proved(S.pc, eq(a, b), 1500): out.append(f)
        return out
    except (Choice, Dead, Uns): return []
def worlds(mk):
    """every feasible combination of collective decisions; mk(choices) builds, constructs and sets up a world"""
    todo = [()]; old = stale(mk)
    while todo:
        c = todo.pop()
        w = mk(c)
        try:
            w.construct(); w.options(w.S0)
            for f in old: w.setf(w.S0, f, T.var('stale.' + f))
            w.assume_valid(w.S0); w.setup()
        except Choice: w.bad = 'infeasible'
        except Dead: w.bad = 'dead' if not w.ex.deaths or any(feasible(d[2]) for d in w.ex.deaths) else 'infeasible'
        else: w.bad = None
        dec = [x[1] for x in w.used if x[1] != 'zero']
        real = [i for i, x in enumerate(w.used) if x[1] != 'zero']
        # extend: flip later defaults
        for j in range(len(c), len(w.used)):
            if w.used[j][1] == 0: todo.append(tuple((x[1] if x[1] != 'zero' else 0) for x in w.used[:j]) + (1,))
        if w.bad == 'dead': yield w
        elif w.bad is None and feasible(w.S1.pc): yield w
