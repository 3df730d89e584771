"""C09: internal process grids use every process and tile the FFT grid exactly."""
from ..pipe import *
from .c01 import mktasks
M = 'dv.props.c09'
GR = {3: (('fast', 3), ('mid', 3), ('slow', 3), ('brick', 3)), 2: (('fast', 2), ('slow', 2), ('brick', 2))}
def tiles(r, dim, lib, prec, permute, exchange, memoryflag):
    def f(r, w, tag):
        S = w.S2; p = Pipe(r, w, tag); p.pc = S.pc
        for g, k in GR[dim]:
            np = [w.getf(S, 'np%s%d' % (g, i + 1)) for i in range(k)]
            if g == 'brick' and not exchange:
                p.req('no brick grid without exchange', and_(*[eq(x, ZERO) for x in np])); continue
            p.req('%s grid multiplies out to the number of processes' % g, eq(vol(np), P))
            p.req('%s grid is positive' % g, and_(*[le(ONE, x) for x in np]))
        for o in w.ex.obls:
            if o.cat == 'grid': p.req('%s: %s' % (o.name(), o.text), o.goal, o.pc)
        for flag in (1, -1):
            p, S, st, A, B = run_method(r, w, tag, 'compute', 1, flag)       # tilings of every remap, complete lines of every 1d transform
    each(r, dim, lib, prec, permute, exchange, memoryflag, f)
def tasks(tier):
    G = 'dv.grids'
    ts = [(G, 'procfactors', (3, k), 'procfactors 3d %s' % k) for k in (None, 0, 1, 2)] + [(G, 'procfactors', (2, None), 'procfactors 2d')]
    ts += [(G, 'factor', (d,), 'factor %dd' % d) for d in (3, 2)] + [(G, 'lemmas', (), 'lemmas')]
    return ts + mktasks(3, tier, M, 'tiles', 'tiles') + mktasks(2, tier, M, 'tiles', 'tiles')
HARNESS = [('h_fft', 'grid')]
ASSUMPTIONS = ['grid sides and process counts are below 2^31', 'sqrt is exact enough: only bounds of factor loops depend on it, the contract does not']
