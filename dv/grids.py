"""factor, procfactors, surfarea, prime_factorable: bodies against the contracts used in dv/fftw.py (C09, C11)."""
from . import terms as T, smt, inv
from .terms import *
from .sym import Base, Uns, ptr, Ptr, Addr, W, State
from .spmd import ME, P
from .fftw import FW, grid_facts
from .remapw import vol
from .pipe import abstract
NF = 50
def apps(ts, pred):
    out = {}; seen = set(); st = list(ts)
    while st:
        x = st.pop()
        if id(x) in seen: continue
        seen.add(id(x))
        if isinstance(x, Num):
            for a in T.atoms_of(x):
                if pred(a): out[a.id] = a
                st.extend(a.args)
        elif isinstance(x, Bool): st.extend(x.args)
    return list(out.values())
def und(r, name, pc, g, ms=10000):
    """goal after a loop: what its invariants do not imply is undecided, not refuted"""
    st, m = smt.check(pc, g, ms)
    r.add(name, 'discharged' if st == 'proved' else 'undecided', '' if st == 'proved' else 'not implied by the invariants found', 'z3')
# -------------------------------------------------------------------- prime_factorable
def smooth_facts(ts):
    """definition of smooth(t), t >= 1: only the prime factors 2, 3 and 5"""
    out = []
    for a in apps(ts, lambda a: a.op == 'app' and a.args[0] == 'smooth'):
        t = a.args[1]; s = T.of_atom(a)
        out.append(implies(eq(t, ONE), eq(s, ONE)))
        ps = [2, 3, 5]
        out.append(implies(and_(lt(ONE, t), *[ne(T.cmod(t, const(p)), ZERO) for p in ps]), eq(s, ZERO)))
        for p in ps:
            out.append(implies(and_(le(ONE, t), eq(T.cmod(t, const(p)), ZERO)), and_(eq(s, T.app('smooth', (T.cdiv(t, const(p)),))), le(ONE, T.cdiv(t, const(p))))))
    return out
def prime(r, dim):
    w = FW(dim, 'kiss', 'double', contract=False); S = w.construct(); ex = w.ex; nm = '%s::prime_factorable' % w.cls
    N0 = T.var('n0'); S.assume(le(ONE, N0))
    def gen(ctx, S0):
        for k in ctx.ints():
            yield ('the number that is left is positive', lambda st, k=k: le(ONE, ctx.val(st, k)))
            yield ('what is left is smooth exactly if n is', lambda st, k=k: eq(T.app('smooth', (ctx.val(st, k),)), T.app('smooth', (N0,))))
    h = inv.Hou(gen, smooth_facts); ex.loop_specs[nm] = h
    outs = ex.run(S, w.prog.func(nm), w.oa, [N0])
    for s, v in outs:
        g = eq(v, T.app('smooth', (N0,)))
        und(r, nm + ': 1 exactly for numbers with no prime factor but 2, 3 and 5', list(s.pc) + smooth_facts(list(s.pc) + [g]), g)
    for o in ex.obls: und(r, '%s: %s: %s' % (nm, o.name(), o.text), list(o.pc) + smooth_facts(list(o.pc) + [o.goal]), o.goal)
    r.used(ex)
    r.vacuity.append((nm + ' returns', bool(outs)))
    if not outs: r.add(nm, 'undecided', 'no exit found')
# -------------------------------------------------------------------- factor
def dvd_facts(ts):
    """dvd(n,x) = 1 iff x divides n; n = x * cof(n,x)"""
    out = []
    for a in apps(ts, lambda a: a.op == 'cmod'):
        n, x = a.args; m = T.of_atom(a)
        out.append(implies(lt(ZERO, x), T.iff(eq(m, ZERO), eq(T.app('dvd', (n, x)), ONE)) if hasattr(T, 'iff') else and_(or_(ne(m, ZERO), eq(T.app('dvd', (n, x)), ONE)), or_(ne(T.app('dvd', (n, x)), ONE), eq(m, ZERO)))))
    return out
def factor(r, dim):
    w = FW(dim, 'kiss', 'double', contract=False); S = w.construct(); ex = w.ex; nm = '%s::factor' % w.cls
    N0 = T.var('n0'); S.assume(le(ONE, N0))
    fac = w.getf(S, 'factors').single(); fk = (fac.region.id, ()); ck = (w.obj.id, ('nfactor',))
    r.require(nm + ': the table has room for %d' % NF, S.pc, le(const(NF), fac.region.length) if fac.region.length is not None else FALSE)
    K = T.var('K!')
    def gen(ctx, S0):
        A = lambda st, i: ex.cread(st, ex.content(st, fk), (i,), 'int', fk)
        C = lambda st: ex.read(st, ex.field(w.oa, w.cls, 'nfactor', 'int'), 'int')
        cap = fac.region.length
        yield ('count in range', lambda st: and_(le(ZERO, C(st)), le(C(st), cap)))
        yield ('every entry is a positive divisor', lambda st: T.forall(('K!',), implies(and_(le(ZERO, K), lt(K, C(st))), and_(le(ONE, A(st, K)), eq(T.app('dvd', (N0, A(st, K))), ONE)))))
        for k in ctx.ints():
            if k == ck: continue
            v0 = ctx.val(S0, k)
            yield ('counter does not go below its start', lambda st, k=k: le(v0, ctx.val(st, k)))
            yield ('the first entry is 1', lambda st, k=k: or_(eq(ctx.val(st, k), v0), and_(le(ONE, C(st)), eq(A(st, ZERO), ONE))))
        yield ('the first entry is 1, if any', lambda st: or_(eq(C(st), ZERO), eq(A(st, ZERO), ONE)))
    def prove(pc, g, ms):
        return prove_forall(pc, g, ms)
    h = inv.Hou(gen, None, 4000, prove); ex.loop_specs[nm] = h
    outs = ex.run(S, w.prog.func(nm), w.oa, [N0])
    for s, v in outs:
        C = w.getf(s, 'nfactor'); A = lambda i: ex.cread(s, ex.content(s, fk), (i,), 'int', fk)
        for what, g in (('at least one factor, at most %d' % NF, and_(le(ONE, C), le(C, const(NF)))), ('the first is 1', eq(A(ZERO), ONE)),
                        ('each is a positive divisor', implies(and_(le(ZERO, K), lt(K, C)), and_(le(ONE, A(K)), eq(T.app('dvd', (N0, A(K))), ONE))))):
            req_f(r, '%s: %s' % (nm, what), s.pc, g)
    for o in ex.obls: req_f(r, '%s: %s: %s' % (nm, o.name(), o.text), o.pc, o.goal)
    r.used(ex); r.notes
    if not outs: r.add(nm, 'undecided', 'no exit found')
def sk(g):
    if g.op == 'forall': return T.subst(g.args[1], {x: T.fresh('sk') for x in g.args[0]})
    return g
def inst(pc, g):
    """instances of quantified hypotheses at the indices that occur"""
    out = [x for x in pc if x.op != 'forall']
    qs = [x for x in pc if x.op == 'forall']
    if qs:
        idx = {}
        for a in apps(out + [g], lambda a: a.op == 'app' and len(a.args) == 2 and isinstance(a.args[0], str) and a.args[0].startswith(('hva', 'fac'))): idx[a.args[1].id] = a.args[1]
        idx[ZERO.id] = ZERO
        for v in T.free_vars(g):
            if v[0] == 'v' and v[2] == 'I': x = T.var(v[1]); idx[x.id] = x
        for q in qs:
            for x in idx.values(): out.append(T.subst(q.args[1], {q.args[0][0]: x}))
    return out + dvd_facts(out + [g])
def prove_forall(pc, g, ms):
    g = sk(g)
    return smt.proved(inst(pc, g), g, ms)
def req_f(r, name, pc, g, ms=10000):
    g = sk(g); st, m = smt.check(inst(pc, g), g, ms)
    r.add(name, 'discharged' if st == 'proved' else 'undecided', '' if st == 'proved' else 'not implied by the invariants found', 'z3')
# -------------------------------------------------------------------- procfactors
def fac_facts(ts, nf):
    """contract of factor(P): fac(0) = 1; fac(k) >= 1 divides P for 0 <= k < nfactor"""
    out = [eq(T.app('fac', (ZERO,)), ONE)]
    for a in apps(ts, lambda a: a.op == 'app' and a.args[0] == 'fac'):
        k = a.args[1]; f = T.of_atom(a); c = T.app('cof', (k,))
        out.append(implies(and_(le(ZERO, k), lt(k, nf)), and_(le(ONE, f), le(f, P), le(ONE, c), eq(mul(f, c), P))))
        if k is not ZERO: out.append(implies(eq(k, ZERO), eq(f, ONE)))
    return out
def real_facts(ts):
    """reciprocals: 0 < 1/x <= 1 for x >= 1; quotients by 1"""
    out = []
    for a in apps(ts, lambda a: a.op == 'inv'):
        x = a.args[0]; i = T.of_atom(a)
        out.append(implies(le(ONE, x), and_(lt(ZERO, i), le(i, ONE))))
        out.append(implies(eq(x, ONE), eq(i, ONE)))
    for a in apps(ts, lambda a: a.op == 'cdiv'):
        x, y = a.args; out.append(implies(eq(y, ONE), eq(T.of_atom(a), x)))
        out.append(implies(and_(le(ONE, y), le(y, x)), le(ONE, T.of_atom(a))))
    return out
def procfactors(r, dim, pencil):
    """pencil: index of the direction with one grid plane, or None for the brick"""
    w = FW(dim, 'kiss', 'double', contract=False); S = w.construct(); ex = w.ex
    nm = '%s::procfactors%s' % (w.cls, '' if pencil is None else '[n%s=1]' % 'xyz'[pencil]); fn = '%s::procfactors' % w.cls
    nf = T.var('nfactor'); S.assume(le(ONE, nf)); S.assume(le(nf, const(NF))); w.setf(S, 'nfactor', nf)
    fac = w.getf(S, 'factors').single(); b = Base(None, 'sym'); b.fn = lambda ix: T.app('fac', ix); S.mem[(fac.region.id, ())] = b
    big = const(2 ** 31 - 1)
    ns = [ONE if i == pencil else T.var('n%s' % 'xyz'[i]) for i in range(dim)]
    for x in ns: S.assume(le(ONE, x) if x is ONE else le(const(2), x)); S.assume(le(x, big))
    refs = [ex.region(x, 'int', ONE, 'arg') for x in ['np' + c for c in 'xyz'[:dim]] + ['ip' + c for c in 'xyz'[:dim]]]
    NP = lambda st: [ex.read(st, ex.top(x), 'int') for x in refs[:dim]]
    IP = lambda st: [ex.read(st, ex.top(x), 'int') for x in refs[dim:]]
    def valid(st): return and_(eq(vol(NP(st)), P), *([le(ONE, x) for x in NP(st)] + [implies(eq(n, ONE), eq(x, ONE)) for n, x in zip(ns, NP(st))]))
    def uninit(v): return T.as_atom(v) is not None and T.as_atom(v).op == 'var' and str(T.as_atom(v).args[0]).startswith('uninit')
    def counters(ctx, S0): return [(k, ctx.val(S0, k)) for k in ctx.ints() if not any(k[0] == x.id for x in refs) and not uninit(ctx.val(S0, k))]
    def gen(ctx, S0):
        for k, v0 in counters(ctx, S0):
            yield ('counter does not go below its start', lambda st, k=k, v0=v0: le(v0, ctx.val(st, k)))
            if v0 is not ZERO: yield ('nonnegative', lambda st, k=k: le(ZERO, ctx.val(st, k)))
        for m in ctx.reals():
            m0 = start.get(m); v0 = ctx.val(S0, m)
            if m0 is None:
                if uninit(v0): continue
                m0 = start[m] = v0
            yield ('the smallest area never grows', lambda st, m=m, m0=m0: le(ctx.val(st, m), m0))
            yield ('a grid found is valid', lambda st, m=m, m0=m0: or_(le(m0, ctx.val(st, m)), valid(st)))
            for k, c0 in counters(ctx, S0):
                out = [x for c, s0 in h.stack for x in counters(c, s0) if x[0] != k]
                if not out: yield ('a grid is found in the first round', lambda st, m=m, m0=m0, k=k, c0=c0: or_(lt(ctx.val(st, m), m0), eq(ctx.val(st, k), c0)))
                for ok in out: yield ('a grid is found in the first round', lambda st, m=m, m0=m0, k=k, c0=c0, ok=ok: or_(lt(ctx.val(st, m), m0), and_(eq(ctx.val(st, k), c0), eq(ctx.val(st, ok[0]), ok[1]))))
    start = {}
    def facts(ts): return fac_facts(ts, nf) + real_facts(ts) + lem
    lem = []
    def prove(pc, g, ms): return cases(pc, g, ms, facts)
    h = inv.Hou(gen, None, 3000, prove); ex.loop_specs[fn] = h
    outs = ex.run(S, w.prog.func(fn), w.oa, list(ns) + [('lv', [(TRUE, ex.top(x))]) for x in refs])
    r.notes.append('%s invariants %s: 0.0s' % (nm, h.kept))
    def req(what, pc, g):
        if g is TRUE or cases(pc, g, 8000, facts): r.add('%s: %s' % (nm, what), 'discharged', '', 'z3'); return
        r.add('%s: %s' % (nm, what), 'undecided', 'not implied by the invariants found', 'z3')
    for o in ex.obls: req('%s: %s' % (o.name(), o.text), o.pc, o.goal)
    if not outs: r.add(nm, 'undecided', 'no exit found')
    for s, v in outs:
        np = NP(s); ip = IP(s)
        r.vacuity.append((nm + ': exit reachable', smt.feasible([x for x in s.pc], 2000)))
        req('the grid has one position per process', s.pc, eq(vol(np), P))
        for c, x, n in zip('xyz', np, ns):
            req('%s: at least one process' % c, s.pc, le(ONE, x)); req('%s: not cut when there is one plane' % c, s.pc, implies(eq(n, ONE), eq(x, ONE)))
        # position: mixed radix digits of me in some order of the axes
        pc = list(s.pc); lf = div_lemmas(ip, np)
        norm = lambda t: nomod(t, np)
        import itertools
        hit = None
        for o in itertools.permutations(range(dim)):
            t = ZERO
            for k in reversed(o): t = add(norm(ip[k]), mul(np[k], t))
            if sub(t, ME) is ZERO: hit = o; break
        if hit is not None: r.ok('%s: every process has its own position' % nm, 'me is the mixed-radix number of its coordinates, order %s (a cut is applied through the nested division lemma)' % (hit,))
        else: r.add('%s: every process has its own position' % nm, 'undecided', 'coordinates are not mixed-radix digits of the rank', 'polynomial normal form')
        for c, x, y in zip('xyz', ip, np):
            g = and_(le(ZERO, x), lt(x, y))
            pcs = [z for z in pc if z.op != 'forall'] + lf
            a2 = abstract(pcs, g)
            if smt.proved(pcs, g, 8000) or smt.proved(a2[0], a2[1], 4000): r.add('%s: coordinate %s is in range' % (nm, c), 'discharged', '', 'z3')
            else: r.add('%s: coordinate %s is in range' % (nm, c), 'undecided', 'z3', 'z3')
    r.used(ex)
def nomod(t, np):
    """a mod b -> a - b*(a/b); a/(b*c) -> (a/b)/c for the process counts b, c"""
    at = T.as_atom(t)
    if at is not None and at.op == 'cmod':
        a, b = at.args
        return sub(nomod(a, np), mul(b, nomod(T.cdiv(a, b), np)))
    if at is not None and at.op == 'cdiv':
        a, b = at.args
        for x in np:
            for y in np:
                if x is not y and b is mul(x, y): return T.cdiv(T.cdiv(a, np[0] if np[0] in (x, y) else x), y if (np[0] is x or np[0] not in (x, y)) else x)
        return t
    return t
def div_lemmas(ip, np):
    """a < b*c -> a/b < c, at the quotients that occur"""
    out = []
    for a in apps(list(ip), lambda a: a.op == 'cdiv'):
        x, y = a.args; q = T.of_atom(a)
        for n in np: out.append(implies(and_(le(ZERO, x), le(ONE, y), le(ONE, n), lt(x, mul(y, n))), lt(q, n)))
        for n in np: out.append(implies(and_(eq(mul(y, n), P)), lt(q, n)) if x is ME else TRUE)
    return [x for x in out if x is not TRUE]
def lemmas(r):
    """the arithmetic lemmas used above"""
    a, b, c, q, s, u, v, z = [T.var(x) for x in 'abcqsuvz']
    r.require('a < b*c implies a/b < c', [le(ZERO, a), le(ONE, b), le(ONE, c), lt(a, mul(b, c)), le(mul(b, q), a), le(c, q)], FALSE, 20000)
    # (a/b)/c: a = b*q+u, q = c*s+v  =>  a = (b*c)*s + (b*v+u), 0 <= b*v+u < b*c
    r.require('nested division: remainder in range', [le(ONE, b), le(ONE, c), le(ZERO, u), lt(u, b), le(ZERO, v), lt(v, c)], and_(le(ZERO, add(mul(b, v), u)), lt(add(mul(b, v), u), mul(b, c))), 20000)
    r.require('division is unique', [le(ONE, b), le(ZERO, u), lt(u, b), le(ZERO, v), lt(v, b), eq(add(mul(b, q), u), add(mul(b, s), v))], eq(q, s), 20000)
def ite_cond(g):
    """condition of an outermost case distinction in the goal"""
    st = [g]; seen = set()
    while st:
        x = st.pop(0)
        if id(x) in seen: continue
        seen.add(id(x))
        if isinstance(x, Num):
            for a in T.atoms_of(x):
                if a.op == 'ite': return a.args[0]
        elif isinstance(x, Bool): st.extend(x.args)
    return None
def cases(pc, g, ms, facts, depth=0):
    """goal proved by splitting its case distinctions, products abstracted first"""
    from .loops import Simp
    c = ite_cond(g) if depth < 14 else None
    if c is not None:
        for b in (c, not_(c)):
            p2 = [x for x in list(pc) + [b]]
            g2 = Simp({c.id: b is c, not_(c).id: b is not c})(g)
            if not cases(p2, g2, ms, facts, depth + 1): return False
        return True
    if g is TRUE or g in pc: return True
    if g.op == 'and': return all(cases(pc, x, ms, facts, depth) for x in g.args)
    h = list(pc) + facts(list(pc) + [g])
    a = abstract(h, g)
    if smt.proved(a[0], a[1], ms): return True
    return smt.proved(h, g, ms)
