"""C05: 2d remap delivers every element to exactly the right place (see dv/remapw.py)."""
from .c04 import dim_tasks, deps
def tasks(tier): return deps.uniq(dim_tasks(2, tier) + deps.kernels(2, ('double', 'single')))
HARNESS = [('h_remap', 'remap2')]
