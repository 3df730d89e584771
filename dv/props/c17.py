"""C17: the one-step methods do exactly their part of a transform."""
from ..pipe import *
from ..bodies import body_tasks
from .c01 import mktasks, deps
from .c10 import steps, eqlay
M = 'dv.props.c17'
def stages(r, dim, lib, prec, permute, exchange, memoryflag):
    def f(r, w, tag):
        for flag in (1, -1):
            d = 'forward' if flag == 1 else 'backward'
            # layouts in which compute performs its 1d transforms
            p, S, st, A, B = run_method(r, w, tag, 'compute', 1, flag)
            lays = []
            q = Pipe(r, w, tag + ' compute %s stages' % d); q.pc = S.pc; s2 = {A.id: q.start(flag)}
            for e in S.events:
                if e.kind == 'fft': lays.append((dict(e.args[2]), s2[A.id]))
                q.step(s2, e)
            q.need('one 1d transform per axis', len(lays) == w.dim, str(len(lays)))
            fin = st.get(B.id)
            for same in (1, 0):
                p, S, st, A, B = run_method(r, w, tag, 'only_remaps', same, flag)
                p.final(st, B, flag, False, False, 'only_remaps')
                p.need('only_remaps does no arithmetic', all(x[0] in ('remap', 'memcpy') for x in p.trace))
            # single remaps
            A, _ = w.arrays(w.S2, 1); cur = {A.id: q.start(flag)}; n = 0
            for which in steps(w, flag):
                p = Pipe(r, w, '%s only_one_remap(%d) %s' % (tag, which, d)); L0 = cur[A.id]
                p, S, cur, A, _ = run_method(r, w, tag, 'only_one_remap', 1, flag, (const(which),), cur, A, A, p)
                p.need('a single remap does no arithmetic', all(x[0] in ('remap', 'memcpy') for x in p.trace))
                L = cur[A.id]
                if n < len(lays):
                    a = lays[n][1]
                    eqlay(p, 'delivers the layout of the next 1d transform', Lay(L.box, L.order), Lay(a.box, a.order))
                else: p.final(cur, A, flag, False, False, 'the last remap')
                # with two arrays: the same layout is delivered in the output array
                p2 = Pipe(r, w, '%s only_one_remap(%d) %s, two arrays' % (tag, which, d)); A2, B2 = w.arrays(w.S2, 0)
                p2, S2, st2, A2, B2 = run_method(r, w, tag, 'only_one_remap', 0, flag, (const(which),), {A2.id: L0}, A2, B2, p2)
                eqlay(p2, 'two arrays', st2.get(B2.id), L)
                n += 1
            # 1d transforms alone
            A, _ = w.arrays(w.S2, 1)
            S = w.call(w.S2, 'only_1d_ffts', [ptr(w.ex.top(A)), const(flag)])
            p = Pipe(r, w, '%s only_1d_ffts %s' % (tag, d)); p.pc = S.pc
            ev = list(S.events); p.need('only 1d transforms', all(e.kind == 'fft' for e in ev), str([e.kind for e in ev]))
            if all(e.kind == 'fft' for e in ev):
                p.need('one per axis', len(ev) == w.dim, str(len(ev)))
                for e in ev:
                    p.need('on the array given', p.region(e.args[0], '1d FFT') is A)
                    p.need('in the direction asked for', T.cval(e.args[1]) == flag)
                key = lambda pl: (pl['n'].id, pl['length'].id, pl['total'].id, str(pl.get('plan_forward')), str(pl.get('plan_backward')))
                p.need('the 1d plans of compute, each once', sorted(key(dict(e.args[2])) for e in ev) == sorted(key(pl) for pl, _ in lays))
            p.untouched(S, A, 'only_1d_ffts moves nothing')
    each(r, dim, lib, prec, permute, exchange, memoryflag, f, scaled=1)
    def g(r, w, tag):
        for same in (1, 0):
            for flag in (1, -1):
                p, S, st, A, B = run_method(r, w, tag + 'remaponly', 'compute', same, flag)
                p.final(st, B, flag, False, False, 'compute in remap-only mode')
                p.need('no arithmetic in remap-only mode', all(x[0] in ('remap', 'memcpy') for x in p.trace))
    each(r, dim, lib, prec, permute, exchange, memoryflag, g, scaled=1, remaponly=1)
def tasks(tier): return deps.uniq(body_tasks(3)[:4] + body_tasks(2)[:4] + deps.remaps(3) + deps.remaps(2) + deps.fft1d() + mktasks(3, tier, M, 'stages', 'one-step methods') + mktasks(2, tier, M, 'stages', 'one-step methods'))
HARNESS = [('h_fft', 'step3'), ('h_fft', 'step2'), ('h_priv', 'one1d')]
