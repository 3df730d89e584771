"""Obligations of the functions a property depends on: a caller is checked against the contracts of its callees, so the
check of the caller's property discharges these contracts too (same task functions as in the callee's own property)."""
from .coll import coll_tasks
def kernels(dim, precs=('double',)):
    """contracts of the pack/unpack kernels (C06)"""
    from .props import c06
    return [('dv.props.c06', 'kernel', (q, p), '%s[%s]' % (q, p)) for p in precs for q in (c06.K3 if dim == 3 else c06.K2)] + [('dv.props.c06', 'injective', (), 'injectivity lemmas')]
def remaps(dim, parts=('safety', 'group', 'messages', 'order', 'kernels'), mfs=(0,), pms=None):
    """contract of Remap<dim>d as the FFT uses it: the caller's buffers, every permutation, both modes (C04/C05)"""
    pms = range(dim) if pms is None else pms
    ts = [('dv.lean', 'lean', (x,), 'lean/%s.lean' % x) for x in ('Group', 'Sums')]
    for mf in mfs:
        for pm in pms:
            ts.append(('dv.coll', 'a2a', (dim, 'double', mf, pm, parts), 'Remap%dd collective double memoryflag=%d permute=%d' % (dim, mf, pm)))
            ts.append(('dv.remapw', 'p2p', (dim, 'double', mf, pm, tuple(x for x in parts if x != 'group') + ('selfguard',)), 'Remap%dd p2p double memoryflag=%d permute=%d' % (dim, mf, pm)))
    return ts + [('dv.remapw', 'collide', (dim, 'double'), 'collide %dd' % dim)]
def fft1d(prec='double'):
    """contract of the built-in 1d transform (C16)"""
    from .props import c16
    return [t for t in c16.tasks('quick') if prec in t[3] or t[0] == 'dv.lean']
def grids(dim):
    """contracts of factor and procfactors (C09)"""
    G = 'dv.grids'
    return [(G, 'procfactors', (dim, k), 'procfactors %dd %s' % (dim, k)) for k in ((None, 0, 1, 2) if dim == 3 else (None,))] + [(G, 'factor', (dim,), 'factor %dd' % dim), (G, 'lemmas', (), 'lemmas')]
def uniq(ts):
    return list(dict.fromkeys(ts))
