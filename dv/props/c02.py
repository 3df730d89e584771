"""C02: round trip and scaling (3d).  Layout and transform of both directions as in C01; here scaling."""
from ..pipe import *
from ..bodies import body_tasks
from .c01 import mktasks, below, deps
M = 'dv.props.c02'
def scaling(r, dim, lib, prec, permute, exchange, memoryflag):
    for sc, ro in ((1, 0), (0, 0), (1, 1)):
        def f(r, w, tag):
            for same in (1, 0):
                for flag in (1, -1):
                    p, S, st, A, B = run_method(r, w, tag + 'scaled=%d,remaponly=%d' % (sc, ro), 'compute', same, flag)
                    p.final(st, B, flag, not ro, flag == -1 and sc == 1 and not ro, 'compute')
        each(r, dim, lib, prec, permute, exchange, memoryflag, f, scaled=sc, remaponly=ro)
from ..lean import lean_task
def tasks(tier): return deps.uniq(lean_task('Fourier') + below(3) + mktasks(3, tier, M, 'scaling', 'scaling'))
HARNESS = [('h_fft', 'fft3')]
