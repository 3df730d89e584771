"""C01: 3d transform = DFT in the requested layout.  See dv/pipe.py for the contracts of the steps."""
from .. import pipe
from ..pipe import *
M = 'dv.props.c01'
def compute(r, dim, lib, prec, permute, exchange, memoryflag):
    def f(r, w, tag):
        for same in (1, 0):
            for flag in (1, -1):
                p, S, st, A, B = run_method(r, w, tag, 'compute', same, flag)
                p.final(st, B, flag, True, False, 'compute')
    each(r, dim, lib, prec, permute, exchange, memoryflag, f, scaled=0)
def configs(dim, tier):
    out = []
    for pm in range(3 if dim == 3 else 2):
        for ex in (0, 1):
            for mf in (1, 0) if tier == 'thorough' else (1 if (pm + ex) % 2 else 0,):
                out.append(('kiss', 'double', pm, ex, mf))
    out += [('fftw3', 'double', 0, 0, 1), ('kiss', 'single', 1, 0, 1)]
    if tier == 'thorough': out += [(l, p, pm, ex, 1) for l in ('kiss', 'fftw3') for p in ('double', 'single') for pm in range(3 if dim == 3 else 2) for ex in (0, 1) if (l, p) != ('kiss', 'double')]
    return list(dict.fromkeys(out))
def mktasks(dim, tier, mod, fn, what):
    return [(mod, fn, (dim,) + c, '%s %dd %s' % (what, dim, c)) for c in configs(dim, tier)]
from ..lean import lean_task
from .. import deps
from ..bodies import body_tasks
def below(dim): return deps.remaps(dim) + deps.fft1d() + body_tasks(dim) + deps.kernels(dim)
def tasks(tier): return deps.uniq(lean_task('Fourier') + below(3) + mktasks(3, tier, M, 'compute', 'compute'))
HARNESS = [('h_fft', 'fft3')]
