"""C16: the built-in 1d FFT is the DFT for every allowed length."""
from ..lean import lean_task
M = 'dv.kissw'
PR = ('double', 'single')
def tasks(tier):
    t = lean_task('Dft') + [(M, 'factor', (pr,), 'kf_factor ' + pr) for pr in PR]
    for pr in PR:
        for inv in (0, 1):
            t += [(M, 'butterfly', (pr, p, inv), 'kf_bfly%d %s %d' % (p, pr, inv)) for p in (5, 4, 3, 2)]
            t += [(M, 'work', (pr, p, inv, leaf), 'kf_work %d %s %d %d' % (p, pr, inv, leaf)) for p in (2, 3, 4, 5) for leaf in (0, 1)]
            t += [(M, 'alloc', (pr, inv), 'kiss_fft_alloc %s %d' % (pr, inv)), (M, 'single', (pr, inv), 'length 1 %s %d' % (pr, inv))]
            t += [(M, 'entry', (pr, inv, fn, ip), '%s %s %d %d' % (fn, pr, inv, ip)) for fn in ('kiss_fft_stride', 'kiss_fft') for ip in (0, 1)]
    return t
HARNESS = [('h_kiss', 'kiss')]
CFGS = ['kiss-double', 'kiss-single']
ASSUMPTIONS = ['floating-point arithmetic, cosine, sine and square root as real numbers; the literal M_PI as pi', 'lengths below 2^31', 'posix_memalign/malloc/realloc succeed (an allocation failure is not modelled)']
TRUSTED = ['Lean 4 kernel and Mathlib for the lemmas of lean/Dft.lean']
