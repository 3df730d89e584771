"""C08: the sizes reported by setup are enough for every transform and remap."""
from ..pipe import *
from ..bodies import body_tasks
from .c01 import mktasks, deps
from .c10 import steps
M = 'dv.props.c08'
def check(p, w, S, A, B):
    fs, ss, rs = w.reported(w.S2)
    p.pc = S.pc
    seen = set()
    for st in p.hist:
        for k, L in st.items():
            if k == A.id and A is not B: continue               # a separate input array holds its tile only
            key = tuple(x.id for b in L.box for x in b)
            if key in seen: continue
            seen.add(key); p.req('a tile held in the data array fits fftsize (axes %s)' % (L.order,), le(L.vol(), fs))
    for t in p.trace:
        if t[0] == 'remap':
            _, info, i, o, sb, rb, e = t
            nm = '%s@%s' % (info['name'], e.node.get('_line'))
            p.req('remap %s works in the buffers it is given' % nm, eq(info['memflag'], ZERO))
            for what, bp, need, rep, u in (('send', sb, info['ss'], ss, 0), ('receive', rb, info['rs'], rs, 1)):
                p.req('remap %s: %s buffer size reported is enough' % (nm, what), le(need, rep))
                if not isinstance(bp, Ptr): raise Uns('buffer of a remap')
                for g, a in bp.cases:
                    pc = list(S.pc) + [g]
                    if not smt.feasible(pc, 1500): continue
                    if not isinstance(a, Addr): p.req('remap %s: no %s buffer only when none is needed' % (nm, what), eq(need, ZERO), pc); continue
                    if a.region.length is None: raise Uns('%s buffer' % what)
                    p.req('remap %s: the %s buffer is long enough' % (nm, what), le(add(a.steps[0], need), a.region.length), pc)
                    al = S.mem.get((a.region.id, ('#alive',)))
                    if al is not None: p.req('remap %s: the %s buffer is allocated' % (nm, what), eq(al.val, ONE), pc)
                    if T.cval(const(w.memoryflag)) == 0: p.need("remap %s: the caller's %s buffer is used" % (nm, what), a.region is w.ub[u], a.region.name)
def sizes(r, dim, lib, prec, permute, exchange, memoryflag):
    def f(r, w, tag):
        for flag in (1, -1):
            for same in (1, 0):
                for meth in ('compute', 'only_remaps'):
                    p, S, st, A, B = run_method(r, w, tag, meth, same, flag)
                    check(p, w, S, A, B)
                cur = None
                for which in steps(w, flag):
                    p = Pipe(r, w, '%s only_one_remap(%d) %d %s' % (tag, which, flag, same)); A, B = w.arrays(w.S2, same)
                    p, S, st, A, B = run_method(r, w, tag, 'only_one_remap', same, flag, (const(which),), {A.id: cur or p.start(flag)}, A, B, p)
                    # a single remap may start from an intermediate layout: its input must fit too
                    if A is not B and cur is not None: p.req('input of the single remap fits fftsize', le(cur.vol(), w.reported(w.S2)[0]))
                    check(p, w, S, A, B); cur = st.get(B.id)
                    if cur is None: raise Uns('single remap without a result')
            A, _ = w.arrays(w.S2, 1)
            S = w.call(w.S2, 'only_1d_ffts', [ptr(w.ex.top(A)), const(flag)])
            p = Pipe(r, w, '%s only_1d_ffts %d' % (tag, flag)); p.pc = S.pc
            for e in S.events:
                if e.kind != 'fft': raise Uns('only_1d_ffts does %s' % e.kind)
                pl = dict(e.args[2])
                p.req('1d transforms stay within fftsize', le(pl['total'], w.reported(w.S2)[0]))
                p.req('1d plan covers its total', eq(pl['total'], mul(pl['n'], pl['length'])))
    each(r, dim, lib, prec, permute, exchange, memoryflag, f, scaled=1)
    def g(r, w, tag):
        for flag in (1, -1):
            for same in (1, 0):
                p, S, st, A, B = run_method(r, w, tag + ' remap-only', 'compute', same, flag)
                check(p, w, S, A, B)
    each(r, dim, lib, prec, permute, exchange, memoryflag, g, scaled=1, remaponly=1)
    r.assumptions.add('sizes of one process fit an int (no overflow in setup arithmetic)')
def remap_tasks(tier, parts):
    out = []
    for dim in (3, 2):
        for prec in ('double', 'single') if tier == 'thorough' else ('double',):
            for mf in (0, 1):
                for pm in range(3 if dim == 3 else 2): out.append(('dv.remapw', 'p2p', (dim, prec, mf, pm, parts), 'Remap%dd p2p %s memoryflag=%d permute=%d' % (dim, prec, mf, pm)))
    return out
from ..lean import lean_task
from ..coll import coll_tasks
def tasks(tier):
    return deps.uniq(lean_task('Volume') + coll_tasks(tier, ('safety', 'kernels', 'sizes')) + mktasks(3, tier, M, 'sizes', 'sizes') + remap_tasks(tier, ('safety', 'kernels', 'sizes')) + mktasks(2, tier, M, 'sizes', 'sizes') + [('dv.remapw', 'radix', (), 'mixed radix')] + body_tasks(3) + body_tasks(2) + deps.kernels(3) + deps.kernels(2))
HARNESS = [('h_fft', 'fft3'), ('h_fft', 'fft2'), ('h_fft', 'step3'), ('h_remap', 'remap3'), ('h_remap', 'remap2')]
