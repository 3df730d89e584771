"""C07: every message and collective matches; no setup, remap or transform can hang."""
from ..pipe import *
from .c01 import mktasks
from .c08 import remap_tasks
from ..coll import coll_tasks
from .c10 import steps
M = 'dv.props.c07'
def uniform(p, t, what):
    """a value every process has"""
    if isinstance(t, (Num, Bool)): p.need('%s is the same on every process' % what, 'me' not in T.var_names(t) or smt.proved(p.pc, eq(t, T.subst(t, {'me': T.var('q!')})), 3000), str(t)[:200])
def events(r, dim, lib, prec, permute, exchange, memoryflag):
    def one(p, w, S, evs):
        p.pc = S.pc; n = 0
        for e in evs:
            if e.kind in ('loop',): raise Uns('loop with events at line %s' % e.node.get('_line'))
            if e.kind not in ('coll', 'rnew', 'rsetup', 'remap', 'send', 'irecv', 'alltoallv'): continue
            n += 1; ln = e.node.get('_line')
            p.always(S, e); p.r.ok('%s: %s at line %s is on every process' % (p.nm, e.kind, ln))
            if e.kind in ('send', 'irecv', 'alltoallv'): raise Uns('%s outside a remap' % e.kind)
            if e.kind == 'coll':
                p.need('%s at line %s is on the communicator of the plan' % (e.args[0], ln), p.region(e.args[1], 'communicator') is w.comm)
                for x in e.args[2:]: uniform(p, x, '%s at line %s: argument' % (e.args[0], ln))
            elif e.kind == 'rnew':
                c = [x for x in e.args[1] if isinstance(x, Ptr)]
                p.need('remap at line %s is on the communicator of the plan' % ln, len(c) == 1 and p.region(c[0], 'communicator') is w.comm)
            elif e.kind == 'rsetup':
                info = e.args[1]
                for f in ('nqty', 'permute', 'memflag', 'collective'): uniform(p, info[f], 'remap %s: %s' % (info['name'], f))
                box = info['box']; d = w.dim
                for k, (l, h) in enumerate((box[2 * j], box[2 * j + 1]) for j in range(2 * d)): pass
        return n
    def f(r, w, tag):
        p = Pipe(r, w, tag + ' setup')
        n = one(p, w, w.S1, w.S1.events)
        r.vacuity.append((tag + ': setup communicates', n > 0))
        for flag in (1, -1):
            for same in (1, 0):
                for meth, extra in [('compute', ()), ('only_remaps', ())] + [('only_one_remap', (const(k),)) for k in range(1, dim + 2)]:
                    A, B = w.arrays(w.S2, same)
                    S = w.call(w.S2, meth, [ptr(w.ex.top(A)), ptr(w.ex.top(B)), const(flag)] + list(extra))
                    p = Pipe(r, w, '%s %s%s %d %d' % (tag, meth, ''.join(str(T.cval(x)) for x in extra), flag, same))
                    one(p, w, S, S.events)
                    # each remap gets layouts that tile one grid on both sides (the precondition of the message matching)
                    if meth == 'compute': p2, S2, st, A2, B2 = run_method(r, w, tag, meth, same, flag)
        # destruction: no communication that only some processes take part in
    each(r, dim, lib, prec, permute, exchange, memoryflag, f)
    def g(r, w, tag):
        for flag in (1, -1):
            for same in (1, 0):
                A, B = w.arrays(w.S2, same)
                S = w.call(w.S2, 'compute', [ptr(w.ex.top(A)), ptr(w.ex.top(B)), const(flag)])
                one(Pipe(r, w, '%s compute remap-only %d %d' % (tag, flag, same)), w, S, S.events)
    each(r, dim, lib, prec, permute, exchange, memoryflag, g, remaponly=1)
from ..lean import lean_task
def tasks(tier): return lean_task('Progress') + coll_tasks(tier, ('safety', 'group', 'messages', 'order', 'collectives'), perms=(0,)) + mktasks(3, tier, M, 'events', 'collectives') + remap_tasks(tier, ('safety', 'messages', 'order', 'selfguard', 'collectives')) + mktasks(2, tier, M, 'events', 'collectives')
HARNESS = [('h_fft', 'fft3'), ('h_fft', 'fft2'), ('h_remap', 'remap3'), ('h_remap', 'remap2')]
ASSUMPTIONS = ['MPI progress: a posted receive and the matching send complete', 'all processes call the same methods in the same order']
