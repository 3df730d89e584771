"""Bodies of perform_ffts and scale_ffts against the contracts the pipeline uses (dv/pipe.py)."""
from . import terms as T, smt
from .terms import *
from .sym import Base, Comp, Uns, ptr, Ptr, Addr, W, IteC
from .fftw import FW

def world(dim, lib, prec):
    w = FW(dim, lib, prec, contract=False); S = w.construct(); ex = w.ex
    A = ex.region('data', w.scalar, None, 'arg')
    b = Base(None, 'sym'); b.fn = lambda ix: T.app('data', ix, 'R'); S.mem[(A.id, ())] = b
    return w, S, A
def adr(p):
    a = p.single() if isinstance(p, Ptr) else None
    if not isinstance(a, Addr): raise Uns('address of a 1d transform')
    return a
def perform(r, dim, lib, prec):
    """requires plan->total = plan->n * plan->length; ensures each of the n consecutive lines is transformed exactly once,
    in place, with the plan of the direction, and nothing else is written"""
    w, S, A = world(dim, lib, prec); ex = w.ex; rec = '%s::FFT1d' % w.cls; nm = '%s::perform_ffts[%s,%s]' % (w.cls, lib, prec)
    L = T.var('L'); N = T.var('N'); S.assume(le(ONE, L)); S.assume(le(ZERO, N))
    pl = ex.region('plan', rec, ONE, 'arg'); pa = ex.top(pl); plans = {}
    vals = {'length': L, 'n': N, 'total': mul(L, N)}
    for f, ft in w.prog.fields(rec):
        if f in vals: ex.write(S, ex.field(pa, rec, f, ft), vals[f])
        else: plans[f] = ex.region(f, 'char', ONE, 'arg'); ex.write(S, ex.field(pa, rec, f, ft), ptr(ex.top(plans[f])))
    for flag in (1, -1):
        S1 = S.copy(); S1.events = (); t = '%s %s' % (nm, 'forward' if flag == 1 else 'backward')
        want = plans['plan_forward' if flag == 1 else 'plan_backward']
        outs = ex.run(S1, w.prog.func(w.cls + '::perform_ffts'), w.oa, [ptr(ex.top(A)), const(flag), ptr(pa)])
        if len(outs) != 1: raise Uns('several exits')
        s = outs[0][0]
        ev = [e for e in s.events if e.kind not in ('alloc', 'free')]
        r.add(t + ': writes the data through the 1d library only', 'discharged' if isinstance(s.mem[(A.id, ())], Base) else 'undecided', '', 'executor')
        if lib == 'kiss':
            if len(ev) != 1 or ev[0].kind != 'loop' or len(ev[0].sub) != 1 or ev[0].sub[0].kind != 'kiss': raise Uns('shape of the loop over the lines')
            k, K, dom = ev[0].args; c = ev[0].sub[0].args; kn = T.as_atom(k).args[0]
            x, y = adr(c[1]), adr(c[2])
            r.add(t + ': plan of this direction', 'discharged' if adr(c[0]).region is want else 'refuted', '', 'executor')
            r.add(t + ': works on the array given', 'discharged' if x.region is A and y.region is A else 'refuted', '', 'executor')
            r.require(t + ': in place', ev[0].sub[0].pc, eq(x.idxs()[0], y.idxs()[0]))
            off = y.idxs()[0]
            up = mul(const(2), L, k); dn = mul(const(2), L, sub(sub(N, ONE), k))
            if smt.proved(list(ev[0].sub[0].pc), eq(off, dn), 4000): up = dn
            r.require(t + ': line k is at k*length', ev[0].sub[0].pc, eq(off, up))
            r.require(t + ': one call per line', S1.pc, eq(K, N))
            r.require(t + ': every line', list(S1.pc) + [le(ZERO, k), lt(k, N)], dom)
        else:
            if len(ev) != 1 or ev[0].kind != 'execute': raise Uns('shape of the execute call')
            c = ev[0].args; x, y = adr(c[1]), adr(c[2])
            r.add(t + ': plan of this direction', 'discharged' if adr(c[0]).region is want else 'refuted', '', 'executor')
            r.add(t + ': in place on the array given', 'discharged' if x.region is A and y.region is A else 'refuted', '', 'executor')
            r.require(t + ': from its beginning', ev[0].pc, and_(eq(x.idxs()[0], ZERO), eq(y.idxs()[0], ZERO)))
            # FFTW transforms in place on the array the plan was created for: howmany/stride checked where the plan is made
    r.require_all(ex, nm + ': '); r.used(ex)
def scale(r, dim, lib, prec):
    """ensures data[i] = norm*data[i] for i < 2*normnum and nothing else is written"""
    w, S, A = world(dim, lib, prec); ex = w.ex; nm = '%s::scale_ffts[%s,%s]' % (w.cls, lib, prec)
    num = T.var('num'); nrm = T.var('norm', 'R'); S.assume(le(ZERO, num))
    w.setf(S, 'normnum', num); w.setf(S, 'norm', nrm)
    outs = ex.run(S, w.prog.func(w.cls + '::scale_ffts'), w.oa, [ptr(ex.top(A))])
    for s, v in outs:
        q = T.var('q'); a = ex.top(A)
        if [e for e in s.events if e.kind not in ('alloc', 'free')]: raise Uns('scale_ffts does more than scale')
        for b in (0, 1):
            h = list(s.pc) + [le(ZERO, q), lt(q, num)]
            i = add(mul(const(2), q), const(b)); s2 = s.copy(); s2.assume(le(ZERO, q)); s2.assume(lt(q, num))
            v = ex.cread(s2, ex.content(s2, (A.id, ())), (i,), w.scalar, (A.id, ()))
            r.require('%s: %s part of every element is multiplied by norm once' % (nm, 'imaginary' if b else 'real'), h, eq(v, mul(nrm, T.app('data', (i,), 'R'))))
        c = s.mem[(A.id, ())]
        while not isinstance(c, Base):
            if isinstance(c, IteC): raise Uns('conditional writes')
            d = c.dom if isinstance(c, Comp) else TRUE
            r.require('%s: nothing beyond the tile is written' % nm, list(s.pc) + [d], and_(le(ZERO, c.idxs[0]), lt(c.idxs[0], mul(const(2), num))))
            c = c.prev
        for k in s.mem:
            if k[0] != A.id and k in S.mem and s.mem[k] is not S.mem[k] and k[0] == w.obj.id: r.add('%s: plan unchanged' % nm, 'undecided', '.'.join(map(str, k[1])))
    r.require_all(ex, nm + ': '); r.used(ex)
LIBS = [('kiss', 'double'), ('kiss', 'single'), ('fftw3', 'double'), ('fftw3', 'single')]
def body_tasks(dim):
    return [('dv.bodies', f, (dim, l, p), '%s %dd %s %s' % (f, dim, l, p)) for f in ('perform', 'scale') for l, p in LIBS]
