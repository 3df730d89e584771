"""C04: 3d remap delivers every element to exactly the right place (see dv/remapw.py)."""
from ..coll import coll_tasks
from .. import deps
M = 'dv.remapw'
def dim_tasks(dim, tier):
    ts = coll_tasks(tier, ('safety', 'group', 'messages', 'order', 'kernels'), (dim,))
    perms = range(3 if dim == 3 else 2)
    for prec in ('double', 'single') if tier == 'thorough' else ('double',):
        for mf in (0, 1):
            for p in perms: ts.append((M, 'p2p', (dim, prec, mf, p, ('safety', 'messages', 'order', 'selfguard', 'kernels')), 'Remap%dd p2p %s memoryflag=%d permute=%d' % (dim, prec, mf, p)))
        ts.append((M, 'collide', (dim, prec), 'collide %dd %s' % (dim, prec)))
    if tier != 'thorough':      # single precision: one representative of each mode
        ts.append((M, 'p2p', (dim, 'single', 1, 0, ('safety', 'messages', 'order', 'kernels')), 'Remap%dd p2p single' % dim))
        ts.append(('dv.coll', 'a2a', (dim, 'single', 1, 0, ('safety', 'messages', 'kernels')), 'Remap%dd collective single' % dim))
    return ts
def tasks(tier): return deps.uniq(dim_tasks(3, tier) + deps.kernels(3, ('double', 'single')))
HARNESS = [('h_remap', 'remap3')]
