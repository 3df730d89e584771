"""C03: 2d transform = DFT in the requested layout, and round trips."""
from ..bodies import body_tasks
from .c01 import mktasks, below, deps
from ..lean import lean_task
def tasks(tier): return deps.uniq(lean_task('Fourier') + below(2) + mktasks(2, tier, 'dv.props.c01', 'compute', 'compute') + mktasks(2, tier, 'dv.props.c02', 'scaling', 'scaling'))
HARNESS = [('h_fft', 'fft2')]
