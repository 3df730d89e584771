"""C12: everything allocated is released exactly once over any life of a plan.

Typestate of every allocation (ghost cell #alive, set by the allocators, cleared by the releases): release
obliges "allocated, not yet released, by the matching allocator"; every use obliges "allocated"; at the end
of a life every allocation made in it must be released.  Lives are create - [set options] - destroy,
create - setup - [setup_memory] - uses - destroy.  tune is create - (setup - trial - release)* - setup:
the release methods must leave exactly the state setup starts from (deallocated)."""
from ..pipe import *
from ..fftw import FW
from ..sym import Dead, Uns
from ..remapw import RW
from .. import inv
from .c01 import mktasks
M = 'dv.props.c12'
CATS = ('release', 'lifetime', 'init', 'null')
def gone(r, w, S, tag, what):
    n = 0
    for k, ct in list(S.mem.items()):
        if k[1] != ('#alive',): continue
        reg = w.ex.regions[k[0]]
        if reg is w.obj or reg.kind != 'heap': continue
        n += 1; line = reg.site.get('_line') if reg.site else '?'
        v = ct.val
        r.require('%s: %s allocated at line %s is released after %s' % (tag, reg.name, line, what), S.pc, ne(v, ONE), 6000)
    return n
def destroy(r, w, S, tag, what):
    S = S.copy(); m = len(w.ex.obls)
    outs = w.ex.run(S, w.prog.func('%s::~%s' % (w.cls, w.cls)), w.oa, [])
    for s, _ in outs:
        n = gone(r, w, s, tag, what); r.vacuity.append(('%s %s allocates' % (tag, what), n > 0))
def left(r, w, S, tag):
    """after the releases tune uses, the plan is as new"""
    ex = w.ex; S = S.copy()
    for meth in ('deallocate_setup',) + (('deallocate_setup_memory',) if w.memoryflag else ()):
        if '%s::%s' % (w.cls, meth) not in w.prog.byname: raise Uns('no %s' % meth)
        S = w.one(ex.run(S, w.prog.func('%s::%s' % (w.cls, meth)), w.oa, []), meth)
    for f, ft in w.prog.fields(w.cls):
        if ft.endswith('*') and f not in ('precision', 'fft1d'):
            a = w.getf(w.S0, f)
            if not isinstance(a, Ptr): continue
            if any(not isinstance(t, Addr) and t is not None for g, t in a.cases): continue
            b = w.getf(S, f)
            same = len(a.cases) == 1 and all(smt.proved(list(S.pc) + [g], FALSE, 1500) or (isinstance(t, Addr) and isinstance(a.single(), Addr) and t.region is a.single().region) or (t is None and a.single() is None) for g, t in b.cases)
            r.add('%s: %s is as new after release' % (tag, f), 'discharged' if same else 'undecided', '' if same else str(len(b.cases)), 'z3')
    r.require('%s: not set up after release' % tag, S.pc, eq(w.getf(S, 'setupflag'), w.getf(w.S0, 'setupflag')))
    if w.memoryflag: r.require('%s: no buffers after release' % tag, S.pc, eq(w.getf(S, 'setup_memory_flag'), w.getf(w.S0, 'setup_memory_flag')))
    keep = {k[0] for k, ct in w.S0.mem.items() if k[1] == ('#alive',)}
    for k, ct in S.mem.items():
        if k[1] == ('#alive',) and k[0] not in keep and ex.regions[k[0]].kind == 'heap':
            r.require('%s: %s of line %s is released with the setup' % (tag, ex.regions[k[0]].name, ex.regions[k[0]].site.get('_line')), S.pc, ne(ct.val, ONE), 6000)
def life(r, dim, lib, prec, permute, exchange, memoryflag):
    def f(r, w, tag):
        ex = w.ex
        destroy(r, w, w.S1, tag, 'setup')
        if memoryflag == 0: destroy(r, w, w.S2, tag, 'setup_memory')
        left(r, w, w.S1, tag)
        S = w.S2
        A, B = w.arrays(S, 0); pa, pb = ptr(ex.top(A)), ptr(ex.top(B))
        for flag in (1, -1): S = w.call(S, 'compute', [pa, pb, const(flag)])
        S = w.call(S, 'only_1d_ffts', [pa, ONE]); S = w.call(S, 'only_remaps', [pa, pb, ONE])
        destroy(r, w, S, tag, 'use')
        r.require_all(ex, tag + ' ', CATS)
    each(r, dim, lib, prec, permute, exchange, memoryflag, f)
def unused(r, dim, lib, prec):
    w = FW(dim, lib, prec, 0, 0, T.var('collective'), T.var('memoryflag')); w.construct(); w.options(w.S0)
    destroy(r, w, w.S0, '%s[%s]' % (w.cls, lib), 'creation alone')
    r.require_all(w.ex, w.cls + ' ', CATS); r.used(w.ex)
# ---------------------------------------------------------------- remaps
def remap_unused(r, dim, prec):
    w = RW(dim, prec); ex = w.ex; ex.track_uninit = True
    (S, _), = ex.run(w.S, w.prog.func('%s::%s' % (w.cls, w.cls), 1), w.oa, [ptr(ex.top(w.comm))])
    for c in (0, 1):
        S2 = S.copy(); w.setf(S2, 'collective', const(c)); w.setf(S2, 'packflag', w.pf)
        destroy(r, w, S2, '%s collective=%d' % (w.cls, c), 'creation alone')
    r.require_all(ex, w.cls + ' ', CATS); r.used(ex)
def remap_life(r, dim, prec, mf, pm, coll):
    w = RW(dim, prec, coll, pm, mf); ex = w.ex; tag = '%s[%s,permute=%d,memory=%d,collective=%d]' % (w.cls, prec, pm, mf, coll)
    if coll:
        h = inv.Hou(lambda ctx, S: [])
        ex.hooks['comp_read'] = lambda ex, S, c, idxs, ty, key: T.fresh('any', 'R' if ty in ('double', 'float') else 'I') if ty in ('int', 'long', 'double', 'float', 'int64_t') else None
        for f in ('setup', 'remap'): ex.loop_specs['%s::%s' % (w.cls, f)] = h.houdini
    w.setup(); destroy(r, w, w.S1, tag, 'setup')
    S = w.remap(); destroy(r, w, S, tag, 'use')
    r.require_all(ex, tag + ' ', ('release', 'lifetime') if coll else CATS); r.used(ex)
    if coll: r.obls[:] = [(o[0], 'undecided' if o[1] == 'refuted' else o[1]) + tuple(o[2:]) for o in r.obls]     # loops are over-approximated
def tasks(tier):
    ts = [(M, 'unused', (d, l, p), 'unused plan %dd %s %s' % (d, l, p)) for d in (3, 2) for l in ('kiss', 'fftw3') for p in ('double', 'single')]
    ts += [(M, 'remap_unused', (d, p), 'unused remap %dd %s' % (d, p)) for d in (3, 2) for p in ('double', 'single')]
    ts += [(M, 'remap_life', (d, 'double', mf, pm, c), 'remap life %dd memory=%d permute=%d collective=%d' % (d, mf, pm, c)) for d in (3, 2) for mf in (1, 0) for pm in range(d) for c in (0, 1) if pm == 0 or tier == 'thorough']
    for d in (3, 2): ts += mktasks(d, 'thorough' if d == 2 else tier, M, 'life', 'life')
    return ts
HARNESS = [('h_fft', 'life'), ('h_remap', 'rlife')]
ASSUMPTIONS = ['allocations succeed', 'options are not changed between setup and destruction', 'in collective remaps the group loops are summarised by the cells they change (they allocate nothing)']
