"""C13: memusage accounts for every buffer and remap structure."""
from ..pipe import *
from .c01 import mktasks
from .c08 import remap_tasks
from ..coll import coll_tasks
M = 'dv.props.c13'
def usage(r, dim, lib, prec, permute, exchange, memoryflag):
    def f(r, w, tag):
        S = w.S2; p = Pipe(r, w, tag); p.pc = S.pc
        fs, ss, rs = w.reported(S); tot = mul(const(memoryflag * (4 if prec == 'single' else 8)), add(ss, rs))
        made = []; up = {}
        for e in w.S1.events:
            if e.kind == 'rnew': made.append(e.args[0].id)
            if e.kind == 'rsetup': up.setdefault(e.args[0].id, []).append(e); p.always(w.S1, e)
        p.need('every remap created is set up once', sorted(made) == sorted(up) and all(len(x) == 1 for x in up.values()))
        for k, es in up.items():
            for e in es: tot = add(tot, e.args[1]['mem'])
        p.req('memusage is the total of its remaps and of the internal buffers', eq(w.getf(S, 'memusage'), tot))
    each(r, dim, lib, prec, permute, exchange, memoryflag, f)
def tasks(tier): return coll_tasks(tier, ('safety', 'memory'), perms=(0,)) + remap_tasks(tier, ('safety', 'memory')) + mktasks(3, 'thorough', M, 'usage', 'memory') + mktasks(2, 'thorough', M, 'usage', 'memory')
HARNESS = [('h_fft', 'memu'), ('h_remap', 'remap3'), ('h_remap', 'remap2')]
