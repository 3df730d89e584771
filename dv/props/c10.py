"""C10: separate input and output arrays give the same result as in place, and the input is kept."""
from ..pipe import *
from .c01 import mktasks, configs
from .. import deps
M = 'dv.props.c10'
def steps(w, flag):
    """the one-step remaps in pipeline order for a direction"""
    K = 4 if w.dim == 3 else 3
    same = w.getf(w.S2, 'inout_layout_same')
    if T.cval(same) is None: raise Uns('layout case')
    return list(range(1, K + 1)) if flag == 1 or T.cval(same) else list(range(K, 0, -1))
def eqlay(p, what, a, b):
    if a is None or b is None: p.need(what + ': output array is set', False); return
    for k in range(p.w.dim): p.req('%s: tile, axis %d' % (what, k), and_(eq(a.box[k][0], b.box[k][0]), eq(a.box[k][1], b.box[k][1])))
    p.need(what + ': storage order, transforms and scaling', a.order == b.order and a.done == b.done and len(a.scaled) == len(b.scaled), '%s %s %s / %s %s %s' % (a.order, a.done, a.scaled, b.order, b.done, b.scaled))
def separate(r, dim, lib, prec, permute, exchange, memoryflag):
    for sc, ro in ((1, 0), (0, 1)):
        def f(r, w, tag):
            t = tag + 'scaled=%d,remaponly=%d' % (sc, ro)
            for flag in (1, -1):
                for meth in ('compute', 'only_remaps') if not ro else ('compute',):
                    p, S, st, A, B = run_method(r, w, t, meth, 1, flag)
                    p2, S2, st2, A2, B2 = run_method(r, w, t, meth, 0, flag)
                    eqlay(p2, 'same result as in place', st2.get(B2.id), st.get(B.id))
                    p2.untouched(S2, A2, meth)
                if ro: continue
                # single remaps, in pipeline order
                cur = None
                for which in steps(w, flag):
                    nm = '%s only_one_remap(%d)' % (t, which)
                    p = Pipe(r, w, nm + ' in place'); A, _ = w.arrays(w.S2, 1)
                    L0 = cur if cur is not None else p.start(flag)
                    p, S, st, A, B = run_method(r, w, nm, 'only_one_remap', 1, flag, (const(which),), {A.id: L0}, A, A, p)
                    p2 = Pipe(r, w, '%s %s' % (nm, 'forward' if flag == 1 else 'backward')); A2, B2 = w.arrays(w.S2, 0)
                    p2, S2, st2, A2, B2 = run_method(r, w, nm, 'only_one_remap', 0, flag, (const(which),), {A2.id: L0}, A2, B2, p2)
                    eqlay(p2, 'same result as in place', st2.get(B2.id), st.get(A.id))
                    p2.untouched(S2, A2, 'only_one_remap')
                    cur = st.get(A.id)
        each(r, dim, lib, prec, permute, exchange, memoryflag, f, scaled=sc, remaponly=ro)
def tasks(tier):
    # the remap below leaves a distinct input array alone: C04/C05 obligations of the same run
    return deps.uniq(mktasks(3, tier, M, 'separate', 'separate arrays') + mktasks(2, tier, M, 'separate', 'separate arrays') + deps.remaps(3) + deps.remaps(2) + deps.kernels(3) + deps.kernels(2))
HARNESS = [('h_fft', 'oop3'), ('h_fft', 'oop2'), ('h_fft', 'step3'), ('h_fft', 'step2')]
