"""Remap2d / Remap3d: one symbolic process `me` of P, executed symbolically from constructor through setup and remap.

Tiles are uninterpreted functions of the process: in.ilo(q), in.ihi(q), ...; all obligations are for
every P >= 1, every me, every tile (hi >= lo-1), every nqty >= 1, permute, packflag, memoryflag."""
from . import terms as T, smt, spmd, sums
from .terms import *
from .front import Program
from .sym import Exec, State, Base, W, ptr, Ptr, Addr, NULLP, Uns, Fn, Dead
from .spmd import ME, P, at

DIMS = {3: 'ijk', 2: 'ij'}
PREC = {'double': [], 'single': ['FFT_SINGLE']}
def okey(t):
    a = T.as_atom(t)
    return (0, a.args[0], t.id) if a is not None and a.op == 'app' and isinstance(a.args[0], str) else (0, a.args[0], t.id) if a is not None and a.op == 'var' else (1, '', t.id)
def mx(a, b): a, b = sorted((a, b), key=okey); return a if a is b else T.app('mx', (a, b))
def mn(a, b): a, b = sorted((a, b), key=okey); return a if a is b else T.app('mn', (a, b))
def lo(io, d, q): return T.app('%s.%slo' % (io, d), (q,))
def hi(io, d, q): return T.app('%s.%shi' % (io, d), (q,))

class RW:
    """world of one remap object"""
    def __init__(self, dim, prec='double', collective=0, permute=None, memoryflag=None, handlers=None, contract=True):
        self.dim = dim; self.D = DIMS[dim]; self.cls = 'Remap%dd' % dim; self.rec = 'pack_plan_%dd' % dim
        self.prog = Program(PREC[prec]); self.prog.add('remap%dd.cpp' % dim); self.prog.add('memory.cpp')
        h = dict(spmd.MPI)
        if contract: h['%s::collide' % self.cls] = self.h_collide
        h.update(handlers or {})
        self.ex = ex = Exec(self.prog, h); self.S = S = State()
        S.assume(le(ONE, P)); S.assume(le(ZERO, ME)); S.assume(lt(ME, P))
        self.comm = ex.region('comm', 'int', None, 'arg')
        obj = ex.region('obj', self.cls, ONE, 'heap'); obj.alloc = 'new'; self.oa = ex.top(obj); self.obj = obj
        S.mem[(obj.id, ('#alive',))] = W(ex.base0((obj.id, ('#alive',))), (ZERO,), ONE)
        self.nq = T.var('nqty'); self.pm = T.var('permute') if permute is None else const(permute)
        self.mf = T.var('memoryflag') if memoryflag is None else const(memoryflag); self.pf = T.var('packflag')
        self.coll = const(collective) if isinstance(collective, int) else collective
        np = 3 if dim == 3 else 2
        S.assume(le(ONE, self.nq))
        if permute is None: S.assume(or_(*[eq(self.pm, const(i)) for i in range(np)]))
        S.assume(or_(*[eq(self.pf, const(i)) for i in range(3)]))
        if memoryflag is None: S.assume(or_(eq(self.mf, ZERO), eq(self.mf, ONE)))
        for io in ('in', 'out'):
            for d in self.D: S.assume(le(sub(lo(io, d, ME), ONE), hi(io, d, ME)))
    def h_collide(self, ex, S, this, a, n):
        b1, b2, ov = [x.single() for x in a]
        if not all(isinstance(x, Addr) for x in (b1, b2, ov)): raise Uns('collide through several pointers')
        rec = 'extent_%dd' % self.dim
        rec = [r for r in (b1.unit, rec) if r][0]
        L = []; H = []
        rd = lambda b, f: ex.read(S, ex.field(b, rec, f, 'int'), 'int', n)
        for d in self.D:
            L.append(mx(rd(b1, d + 'lo'), rd(b2, d + 'lo'))); H.append(mn(rd(b1, d + 'hi'), rd(b2, d + 'hi')))
        flat = [x for p in zip(L, H) for x in p]
        for i, d in enumerate(self.D):
            for f, v in (('lo', L[i]), ('hi', H[i]), ('size', T.app('ovn.%d' % i, tuple(flat)))): ex.write(S, ex.field(ov, rec, d + f, 'int'), v, n)
        return ite(and_(*[le(l, h) for l, h in zip(L, H)]), ONE, ZERO)
    # ---------------------------------------------------------------- ghost
    def inter(self, p, q):
        """bounds of in(p) ∩ out(q) per axis"""
        return [(mx(lo('in', d, p), lo('out', d, q)), mn(hi('in', d, p), hi('out', d, q))) for d in self.D]
    def meets(self, p, q): return and_(*[le(l, h) for l, h in self.inter(p, q)])
    def isz(self, p, q):
        b = self.inter(p, q); flat = tuple(x for pr in b for x in pr)
        return [T.app('ovn.%d' % i, flat) for i in range(self.dim)]
    def ext(self, io, q): return [add(sub(hi(io, d, q), lo(io, d, q)), ONE) for d in self.D]
    # ---------------------------------------------------------------- runs
    def getf(self, S, f):
        ft = dict(self.prog.fields(self.cls))[f]
        return self.ex.read(S, self.ex.field(self.oa, self.cls, f, ft), ft)
    def setf(self, S, f, v):
        self.ex.write(S, self.ex.field(self.oa, self.cls, f, 'int'), v)
    def setup(self):
        ex = self.ex; S = self.S
        (S, _), = ex.run(S, self.prog.func('%s::%s' % (self.cls, self.cls), 1), self.oa, [ptr(ex.top(self.comm))])
        self.setf(S, 'collective', self.coll); self.setf(S, 'packflag', self.pf)
        args = []
        for io in ('in', 'out'):
            for d in self.D: args += [lo(io, d, ME), hi(io, d, ME)]
        self.ss = ex.region('sendsize', 'int', ONE, 'arg'); self.rs = ex.region('recvsize', 'int', ONE, 'arg')
        outs = ex.run(S, self.prog.func('%s::setup' % self.cls), self.oa, args + [self.nq, self.pm, self.mf, ('lv', [(TRUE, ex.top(self.ss))]), ('lv', [(TRUE, ex.top(self.rs))])])
        if len(outs) != 1: raise Uns('setup has %d exits' % len(outs))
        self.S1 = outs[0][0]
        return self.S1
    def arr(self, S, f, j, ty='int', node=None):
        """field f, an array, at index j"""
        p = self.getf(S, f)
        if isinstance(p, Ptr):
            cs = [(g, a) for g, a in p.cases if isinstance(a, Addr)]
            if len(cs) != 1: raise Uns('array %s' % f)
            a = cs[0][1]
            return self.ex.cread(S, self.ex.content(S, a.shift(j).key()), a.shift(j).idxs(), ty, a.key())
        raise Uns('array %s' % f)
    def plan(self, S, f, j, name):
        p = self.getf(S, f); cs = [a for g, a in p.cases if isinstance(a, Addr)]
        if len(cs) != 1: raise Uns('array %s' % f)
        a = self.ex.field(cs[0].shift(j), self.rec, name, 'int')
        return self.ex.cread(S, self.ex.content(S, a.key()), a.idxs(), 'int', a.key())
    # ---------------------------------------------------------------- remap()
    def h_call(self, ex, S, alts, vals, n):
        """pack/unpack through the plan's function pointers: contract of C06, recorded as an event"""
        src, dst, plan = vals
        pa = plan.single()
        if not isinstance(pa, Addr):
            cs = ex.cases(S, plan, n)
            if len(cs) != 1: raise Uns('plan through several pointers')
            pa = cs[0][1]
        for p, w in ((src, 'read'), (dst, 'write')):
            for g, a in ex.cases(S, p, n):
                al = S.mem.get((a.region.id, ('#alive',)))
                if al is not None: ex.oblige(S, 'lifetime', eq(al.val, ONE), n, '%s while allocated' % a.region.name)
        pl = {f: ex.read(S, ex.field(pa, self.rec, f, ft), ft, n) for f, ft in self.prog.fields(self.rec)}
        one = lambda p: ptr(ex.cases(S, p, n)[0][1]) if len(ex.cases(S, p, n)) == 1 else p
        ex.event(S, 'kernel', (tuple(alts), one(src), one(dst), tuple(sorted(pl.items()))), n)
        for g, t in alts: ex.contracts_used.add(t.split('(')[0])
        return None
    def remap(self, S=None):
        ex = self.ex; S = (S or self.S1).copy()
        ty = 'double' if not any('SINGLE' in d for d in self.prog.defines) else 'float'
        self.regs = {}
        for nm in ('in', 'out', 'usend', 'urecv'): self.regs[nm] = ex.region(nm, ty, None, 'arg')
        ex.h['call*'] = self.h_call
        S.events = ()
        outs = ex.run(S, self.prog.func('%s::remap' % self.cls), self.oa, [ptr(ex.top(self.regs[x])) for x in ('in', 'out', 'usend', 'urecv')])
        if len(outs) != 1: raise Uns('remap has %d exits' % len(outs))
        self.S2 = outs[0][0]
        return self.S2
def flat(events, depth=0):
    """events in order: (event, [(k, N, dom)])"""
    out = []
    for e in events:
        if e.kind == 'loop':
            for x, b in flat(e.sub, depth + 1): out.append((x, [e.args] + b))
        else: out.append((e, []))
    return out
# -------------------------------------------------------------------- obligations
from .props import c06
class Rewrite(T.Subst):
    """replace the process argument of tile functions"""
    def __init__(self, frm, to):
        super().__init__({}, lambda f, a, s: (T.app(f, (to,), s) if isinstance(f, str) and f[:3] in ('in.', 'out') and len(a) == 1 and a[0] is frm else mxn(f, a)))
def mxn(f, a):
    if f == 'mx': return mx(*a)
    if f == 'mn': return mn(*a)
    return None
def lin(w, io, q, pt):
    """position of grid point pt in the tile io(q), natural order"""
    e = w.ext(io, q); r = ZERO
    for i in reversed(range(w.dim)): r = add(mul(r, e[i]), sub(pt[i], lo(io, w.D[i], q)))
    return r
ORDER = {(3, 0): (0, 1, 2), (3, 1): (1, 2, 0), (3, 2): (2, 0, 1), (2, 0): (0, 1), (2, 1): (1, 0)}     # fastest axis first
def linp(w, io, q, pt, perm):
    e = w.ext(io, q); r = ZERO
    for i in reversed(ORDER[(w.dim, perm)]): r = add(mul(r, e[i]), sub(pt[i], lo(io, w.D[i], q)))
    return r
def vol(xs):
    r = ONE
    for x in xs: r = mul(r, x)
    return r
def split1(pc, g): return list(pc) + ([g] if g is not TRUE else [])
def procs_in(t):
    """process arguments of tile functions in a term"""
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Num):
            for a in T.atoms_of(x):
                if a.id in seen: continue
                seen.add(a.id)
                if a.op == 'app' and isinstance(a.args[0], str) and a.args[0][:3] in ('in.', 'out') and len(a.args) == 2 and a.args[1] not in out: out.append(a.args[1])
                st.extend(a.args)
        elif isinstance(x, Bool): st.extend(x.args)
    return out

def kernel_obl(r, w, name, ev, pc, p, q, packing, data_region, ms=20000):
    """the kernel call moves exactly in(p) ∩ out(q) between the tile and a contiguous buffer in the order
    (i fastest); packing: from tile in(p) (natural order), else into tile out(q) (permuted order).
    -> (buffer region, start, number of values)"""
    alts, src, dst, pl = ev.args; pl = dict(pl)
    tile, buf = (src, dst) if packing else (dst, src)
    ta = tile.single(); ba = buf.single()
    if not isinstance(ta, Addr) or not isinstance(ba, Addr): raise Uns('kernel arguments')
    if ta.region is not data_region:
        r.add(name + ': data array', 'refuted', 'the kernel works on %s' % ta.region.name, 'executor'); return None
    off = ta.idxs()[0]
    # processes the terms are about -> p (for in) / q (for out)
    fix = []
    for x in {x for t in [off] + list(pl.values()) for x in procs_in(t)}:
        if x is not ME and x is not p and x is not q: fix.append(x)
    other = q if packing else p
    for x in fix:
        r.require('%s: entry belongs to the right process' % name, pc, eq(x, other), ms)
        rw = Rewrite(x, other)
        off = rw(off); pl = {k: rw(v) for k, v in pl.items()}
    sz = w.isz(p, q); box = w.inter(p, q)
    hyp = list(pc) + [w.meets(p, q)]
    for g, key in alts:
        kn = w.prog.funcs[key]['_qual'].split('::')[-1]
        h = [x for x in split1(pc, g)] + [w.meets(p, q)]
        if kn.startswith('pack') != packing:
            r.add('%s: kernel %s' % (name, kn), 'refuted', 'wrong kind of kernel', 'executor'); continue
        try: ext, data_ix, buf_ix, pre, nq = c06.spec(kn)
        except Exception: raise Uns('kernel %s has no contract' % kn)
        sb = {f: v for f, v in pl.items()}
        sbf = lambda t: T.subst(t, sb)
        kperm = (2 if 'permute2' in kn else 1 if 'permute' in kn else 0)
        nqv = w.nq
        def req(what, goal): r.require('%s: %s: %s' % (name, kn, what), h, goal, ms)
        # which permutation is requested
        perms = [0] if packing else ([T.cval(w.pm)] if T.cval(w.pm) is not None else range(3 if w.dim == 3 else 2))
        for x in pre: req('precondition %s' % x, sbf(x))
        for perm in perms:
            hh = list(h) if packing or T.cval(w.pm) is not None else h + [eq(w.pm, const(perm))]
            def rq(what, goal):
                if len(perms) > 1: goal = implies(eq(w.pm, const(perm)), goal); 
                if goal is TRUE: r.ok('%s: %s: %s' % (name, kn, what)); return
                if len(perms) > 1: r.require('%s: %s, permute %d: %s' % (name, kn, perm, what), hh, goal.args[-1] if False else goal, ms)
                else: r.require('%s: %s: %s' % (name, kn, what), hh, goal, ms)
            if len(perms) > 1 and not smt.feasible(hh, 1000): continue
            # block extents in axis order; natural kernels take nqty*isize as their fast extent
            X = [T.var('x%d' % i) for i in range(w.dim)]; t = T.var('t')
            pt = [add(box[i][0], X[i]) for i in range(w.dim)]
            names = ['nfast', 'nmid', 'nslow'] if w.dim == 3 else ['nfast', 'nslow']
            if kperm == 0:
                want = [mul(nqv, sz[0])] + sz[1:]
                coord = [add(mul(nqv, X[0]), t)] + X[1:]
            else:
                want = sz; coord = X + [t]
                rq('values per element', eq(pl['nqty'], nqv))
            for nm, v in zip(names, want): rq('extent %s' % nm, eq(pl[nm], v))
            m2 = dict(sb)
            for nm, v in zip(names, want): m2[nm] = v
            if kperm: m2['nqty'] = nqv
            # only for index identities: extents already shown equal
            bufpos = add(mul(nqv, add(*[mul(X[i], vol(sz[:i])) for i in range(w.dim)])), t)
            nqn = nqv
            rng = [and_(le(ZERO, X[i]), lt(X[i], sz[i])) for i in range(w.dim)] + [le(ZERO, t), lt(t, nqv)]
            sub2 = lambda z: T.subst(z, m2)
            if T.cval(nq) is not None and kperm: nb = {'nqty': nq}; 
            else: nb = {}
            be = sub(sub2(buf_ix(coord)), bufpos)
            want_ix = mul(nqv, linp(w, 'in' if packing else 'out', p if packing else q, pt, perm))
            de = sub(add(off, sub2(data_ix(coord))), add(want_ix, t))
            if nb: be = T.subst(be, nb); de = T.subst(de, nb)
            r_index(r, '%s: %s%s: position in the buffer' % (name, kn, '' if len(perms) == 1 else ' permute %d' % perm), hh + rng, be, ms)
            r_index(r, '%s: %s%s: position in the tile' % (name, kn, '' if len(perms) == 1 else ' permute %d' % perm), hh + rng, de, ms)
    return ba.region, ba.idxs()[0], mul(w.nq, vol(sz))
def r_index(r, name, hyps, e, ms):
    if e is ZERO: r.ok(name, 'for every element of the block')
    else:
        # resolve case distinctions on decided conditions first
        e2 = resolve(hyps, e)
        if e2 is ZERO: r.ok(name, 'for every element of the block', 'polynomial normal form + z3')
        else: r.require(name, hyps, eq(e2, ZERO), ms)
def resolve(hyps, e, ms=1000):
    """decide the conditions of top-level ites of a polynomial"""
    for _ in range(30):
        g = None
        for a in T.atoms_of(e):
            if a.op == 'ite' and a.args[0].op not in ('true', 'false'):
                if smt.proved(hyps, a.args[0], ms): g = (a.args[0], True); break
                if smt.proved(hyps, not_(a.args[0]), ms): g = (a.args[0], False); break
        if g is None: return e
        from .loops import Simp
        e = Simp({g[0].id: g[1], not_(g[0]).id: not g[1]})(e)
    return e
def ovl_lemma(w, p, q): return None

def cover(r, w, name, pc, k, dom, procterm, cond, N, ms=20000):
    """every process q with cond(q) (q != me) is the partner of exactly one entry of the loop"""
    kn = T.as_atom(k).args[0]
    inst = lambda t, v: T.subst(t, {kn: v})
    a, b = T.fresh('e1'), T.fresh('e2')
    r.require(name + ': no partner twice', list(pc) + [inst(dom, a), inst(dom, b), eq(inst(procterm, a), inst(procterm, b))], eq(a, b), ms)
    Q = T.var('q?')
    hyp = list(pc) + [le(ZERO, Q), lt(Q, P), ne(Q, ME), cond(Q)]
    # witness: the entry counted when the cyclic (or plain) scan reaches q
    cyc = ite(lt(ME, Q), sub(sub(Q, ME), ONE), add(sub(sub(Q, ME), ONE), P))
    names = [x for x in T.fun_names(procterm) if isinstance(x, str) and x[:4] == 'sel!']
    wits = []
    for nm in names:
        i = int(nm[4:]); d = sums.DEFS[i]
        ps = [T.var(x) if x != 'κ' else None for x in d['params']]
        for kk in (cyc, Q): wits.append(sums.sumat(i, kk, ps))
    wits += [cyc, Q]
    if N is not None: wits += [sub(sub(N, ONE), x) for x in wits]       # entries may be visited in reverse
    for wt in wits:
        goal = and_(inst(dom, wt), eq(inst(procterm, wt), Q))
        # facts at the scan position
        if smt.proved(hyp, goal, ms): r.ok(name + ': every partner present', 'witness %s' % str(wt)[:120], 'z3'); return
    r.add(name + ': every partner present', 'undecided', 'no witness entry found', 'z3')

class P2P:
    """the point-to-point remap as a trace: posts, pack+send, self copy, wait+unpack"""
    def __init__(self, r, dim, prec, mf, permute=None):
        self.r = r; w = self.w = RW(dim, prec, 0, permute=permute, memoryflag=mf); self.nm = '%s[p2p,%s,memoryflag=%d%s]' % (w.cls, prec, mf, '' if permute is None else ',permute=%d' % permute)
        w.setup(); S2 = w.remap(); r.used(w.ex)
        self.base = w.S1.pc
        L = flat(S2.events); self.L = L
        for e, b in L:
            if e.kind not in ('irecv', 'send', 'kernel', 'waitany', 'waitall', 'alloc', 'free'): raise Uns('remap performs %s in point-to-point mode' % e.kind)
        L = [x for x in L if x[0].kind not in ('alloc', 'free')]
        def one(kind):
            xs = [i for i, x in enumerate(L) if x[0].kind == kind]
            if len(xs) != 1 or len(L[xs[0]][1]) != 1: raise Uns('shape of the %s loop' % kind)
            return xs[0]
        self.i_irecv = one('irecv'); self.i_send = one('send')
        wall = [i for i, x in enumerate(L) if x[0].kind == 'waitall']
        if wall and (len(wall) > 1 or L[wall[0]][1] or any(x[0].kind == 'waitany' for x in L)): raise Uns('shape of the waits')
        self.i_wait = wall[0] if wall else one('waitany')
        self.kers = [i for i, x in enumerate(L) if x[0].kind == 'kernel']
        def ker_name(i): return [w.prog.funcs[t]['_qual'].split('::')[-1] for g, t in L[i][0].args[0]]
        same = lambda i, j: len(L[i][1]) == 1 and len(L[j][1]) == 1 and L[i][1][0][0] is L[j][1][0][0]
        self.k_send = [i for i in self.kers if same(i, self.i_send)]
        # after waiting for all requests at once, the loop of the unpack calls visits them
        self.k_wait = [i for i in self.kers if (same(i, self.i_wait) if not wall else len(L[i][1]) == 1 and i not in self.k_send)]
        self.k_self = [i for i in self.kers if not L[i][1]]
        if len(self.k_send) != 1 or len(self.k_wait) != 1 or len(self.k_self) != 2 or len(self.kers) != 4: raise Uns('shape of the pack and unpack calls')
        self.packs = [i for i in self.kers if all(x.startswith('pack') for x in ker_name(i))]
        self.unpacks = [i for i in self.kers if all(x.startswith('unpack') for x in ker_name(i))]
        self.L = L
        self.irecv, self.send, self.wait = L[self.i_irecv][0], L[self.i_send][0], L[self.i_wait][0]
        (self.rk, self.rN, self.rdom), = L[self.i_irecv][1]; (self.sk, self.sN, self.sdom), = L[self.i_send][1]; (self.wk, self.wN, self.wdom), = L[self.k_wait[0] if wall else self.i_wait][1]
        self.dest = self.send.args[3]; self.src = self.irecv.args[3]
        self.wv = self.wk if wall else self.wait.args[2]
        rkn = T.as_atom(self.rk).args[0]
        # request slot of receive k: linear in k, so that slot w belongs to one known receive
        self.slot = self.addr(self.irecv.args[6]).idxs()[0]
        d = sub(T.subst(self.slot, {rkn: add(self.rk, ONE)}), self.slot); c0 = T.subst(self.slot, {rkn: ZERO})
        if T.cval(d) not in (1, -1): raise Uns('request slots')
        self.at_w = lambda t: self.w.ex.subst_any(t, {rkn: sub(self.wv, c0) if T.cval(d) == 1 else sub(c0, self.wv)})
        if wall:
            # which request iteration k handles: k, or counted from the end
            b = self.kbuf(); ra = self.addr(self.irecv.args[0])
            for wv in (self.wk, sub(sub(self.rN, ONE), self.wk)):
                self.wv = wv
                if b is not None and b.region is ra.region and smt.proved(L[self.k_wait[0]][0].pc, eq(self.at_w(ra.idxs()[0]), b.idxs()[0]), 8000): break
            else: raise Uns('order in which the received blocks are unpacked')
    def kbuf(self):
        e = self.L[self.k_wait[0]][0]
        try: return self.addr(e.args[1])
        except (Uns, TypeError, IndexError, AttributeError): return None
    def need(self, what, c, detail='', backend='executor'):
        if c: self.r.ok('%s: %s' % (self.nm, what), '', backend)
        else: self.r.add('%s: %s' % (self.nm, what), 'refuted', detail, backend)
    def req(self, what, hyps, goal, ms=20000): return self.r.require('%s: %s' % (self.nm, what), hyps, goal, ms)
    def safety(self):
        self.r.require_all(self.w.ex, self.nm + ': ')
    def addr(self, p): 
        a = p.single() if isinstance(p, Ptr) else None
        if isinstance(p, Ptr) and a is None:
            cs = [t for g, t in p.cases if isinstance(t, Addr)]
            if len(cs) == 1: a = cs[0]          # the null case is excluded by an obligation
        if not isinstance(a, Addr): raise Uns('buffer address')
        return a
    def order(self):
        """posts before sends; every pack before every unpack; self copy packs before it unpacks"""
        self.need('all receives are posted before the first send', self.i_irecv < self.i_send)
        self.need('no wait before the sends', self.i_send < self.i_wait)
        self.need('nothing is unpacked before everything is packed', max(self.packs) < min(self.unpacks), 'an in-place remap would overwrite data not yet sent')
        self.need('packed block is sent at once', self.k_send[0] < self.i_send and self.addr(self.L[self.k_send[0]][0].args[2]).region is self.addr(self.send.args[0]).region)
        self.need('unpack follows its wait', self.i_wait < self.k_wait[0])
    def messages(self):
        w = self.w; b = self.base
        s, rc = self.send, self.irecv
        self.req('send goes to another process that needs data of this one', s.pc, and_(le(ZERO, self.dest), lt(self.dest, P), ne(self.dest, ME), w.meets(ME, self.dest)))
        self.req('receive is from another process that has data for this one', rc.pc, and_(le(ZERO, self.src), lt(self.src, P), ne(self.src, ME), w.meets(self.src, ME)))
        self.req('length of a message sent', s.pc, eq(s.args[1], mul(w.nq, vol(w.isz(ME, self.dest)))))
        self.req('length of a message expected', rc.pc, eq(rc.args[1], mul(w.nq, vol(w.isz(self.src, ME)))))
        cover(self.r, w, self.nm + ': sends', b, self.sk, self.sdom, self.dest, lambda q: w.meets(ME, q), self.sN)
        cover(self.r, w, self.nm + ': receives', b, self.rk, self.rdom, self.src, lambda q: w.meets(q, ME), self.rN)
        self.need('same tag, type and communicator on both sides', s.args[4] is rc.args[4] and s.args[2] is rc.args[2] and self.addr(s.args[5]).region is w.comm and self.addr(rc.args[5]).region is w.comm, '%s %s' % (s.args[4], rc.args[4]))
        self.req('tags agree', b, eq(s.args[4], rc.args[4]))
        ra = self.addr(rc.args[6]); wa = self.addr(self.wait.args[1])
        self.need('the wait is on the posted requests', ra.region is wa.region)
        self.req('request slot of a receive', rc.pc, and_(le(ZERO, self.slot), lt(self.slot, self.rN)))
        self.req('the wait covers all requests', self.wait.pc, and_(eq(self.wait.args[0], self.rN), eq(wa.idxs()[0], ZERO)))
        self.req('as many waits as receives', b, eq(self.wN, self.rN))
    def collectives(self):
        """every process takes part in the collective operations of setup; remap itself has none in this mode"""
        w = self.w; have = {x.id for x in w.S1.pc}; n = 0
        for e, b in flat(w.S1.events):
            if e.kind not in ('coll', 'alltoallv'): continue
            n += 1; ln = e.node.get('_line')
            if b: raise Uns('collective operation in a loop of setup')
            ex_ = [x for x in e.pc if x.id not in have]
            if ex_: self.req('%s at line %s is reached by every process' % (e.args[0], ln), w.S1.pc, and_(*ex_))
            else: self.need('%s at line %s is reached by every process' % (e.args[0], ln), True)
            if isinstance(e.args[1], Ptr): self.need('%s at line %s is on the communicator of the remap' % (e.args[0], ln), self.addr(e.args[1]).region is w.comm)
        self.r.vacuity.append(('%s: setup has collective operations' % self.nm, n > 0))
    def selfguard(self):
        for i in self.k_self:
            e = self.L[i][0]; g = and_(*[x for x in e.pc if x not in self.base])
            self.req('own data is copied when there is some (line %s)' % e.node.get('_line'), list(self.base) + [self.w.meets(ME, ME)], g)
            self.req('own data is copied only when there is some (line %s)' % e.node.get('_line'), e.pc, self.w.meets(ME, ME))
    def kernels(self):
        w = self.w; L = self.L
        ip, iu = sorted(self.k_self)
        a = kernel_obl(self.r, w, self.nm + ': message', L[self.k_send[0]][0], self.send.pc, ME, self.dest, True, w.regs['in'])
        if a:
            sa = self.addr(self.send.args[0])
            self.need('the packed buffer is the one sent', sa.region is a[0])
            self.req('send starts where the block was packed', self.send.pc, eq(sa.idxs()[0], a[1]))
        a = kernel_obl(self.r, w, self.nm + ': own data', L[ip][0], L[ip][0].pc, ME, ME, True, w.regs['in'])
        b = kernel_obl(self.r, w, self.nm + ': own data', L[iu][0], L[iu][0].pc, ME, ME, False, w.regs['out'])
        if a and b:
            self.need('own data is unpacked from where it was packed', a[0] is b[0]); self.req('own data start', L[iu][0].pc, eq(a[1], b[1]))
        srcw = self.at_w(self.src)
        u = kernel_obl(self.r, w, self.nm + ': received block', L[self.k_wait[0]][0], L[self.k_wait[0]][0].pc, srcw, ME, False, w.regs['out'])
        if u:
            ra = self.addr(self.irecv.args[0])
            self.need('a received block is unpacked from its buffer', ra.region is u[0])
            self.req('received block start', L[self.k_wait[0]][0].pc, eq(self.at_w(ra.idxs()[0]), u[1]))
        self.bufs = (self.addr(self.send.args[0]).region, self.addr(self.irecv.args[0]).region, a and a[0])
        self.need('send buffer, receive buffer and data arrays are distinct', len({x.id for x in self.bufs[:2]} | {w.regs['in'].id, w.regs['out'].id}) == 4 and (not a or a[0].id not in (w.regs['in'].id, w.regs['out'].id)))
        # receive intervals and the own block do not overlap
        ra = self.addr(self.irecv.args[0]).idxs()[0]; cnt = self.irecv.args[1]
        rkn = T.as_atom(self.rk).args[0]; x, y = T.fresh('e1'), T.fresh('e2')
        at_ = lambda t, v: T.subst(t, {rkn: v})
        self.req('receive buffers do not overlap', list(self.base) + [at_(self.rdom, x), at_(self.rdom, y), lt(x, y)], or_(le(add(at_(ra, x), at_(cnt, x)), at_(ra, y)), le(add(at_(ra, y), at_(cnt, y)), at_(ra, x))))
        if a and a[0] is self.bufs[1]:
            e = L[ip][0]
            self.req('own block does not overlap a receive buffer', list(e.pc) + [at_(self.rdom, x)], or_(le(add(at_(ra, x), at_(cnt, x)), a[1]), le(add(a[1], a[2]), at_(ra, x))))
        self.self_buf = a
        for nm in ('in', 'out', 'usend', 'urecv'):
            ks = [k for k in w.S2.mem if k[0] == w.regs[nm].id and not (isinstance(w.S2.mem[k], Base))]
            self.need('%s is touched by the kernels and messages only' % nm, not ks)
    def sizes(self):
        w = self.w; ex = w.ex; S = w.S1
        ss = ex.read(S, ex.top(w.ss), 'int'); rs = ex.read(S, ex.top(w.rs), 'int')
        ev = self.L[self.k_send[0]][0]
        self.req('a packed message fits sendsize', self.send.pc, and_(le(ZERO, self.addr(self.send.args[0]).idxs()[0]), le(add(self.addr(self.send.args[0]).idxs()[0], self.send.args[1]), ss)))
        # total of the receive intervals: sum over the scan; volume lemma
        ra = self.addr(self.irecv.args[0]).idxs()[0]; cnt = self.irecv.args[1]
        at_ = T.as_atom(ra)
        if at_ is None or at_.op != 'app' or sums.parse(at_) is None: raise Uns('receive buffer locations are not running sums')
        i = sums.parse(at_)[1]; ps = at_.args[2:]
        total = sums.sumat(i, P, ps)
        term = sums.DEFS[i]['term']; prm = dict(zip(sums.DEFS[i]['params'], ps)); K = T.fresh('k'); tk = sums.inst(i, K, ps)
        pr = [x for x in procs_in(tk) if x is not ME]
        if len(pr) != 1: raise Uns('summand of the receive sizes')
        q = pr[0]; K2 = T.fresh('k'); q2 = T.subst(q, {T.as_atom(K).args[0]: K2})
        h = list(self.base) + [le(ZERO, K), lt(K, P)]
        self.req('receive sizes: summand is the overlap volume', h, eq(tk, ite(w.meets(q, ME), mul(w.nq, vol(w.isz(q, ME))), ZERO)))
        self.req('receive sizes: the scan visits processes', h, and_(le(ZERO, q), lt(q, P)))
        self.req('receive sizes: the scan visits every process once', h + [le(ZERO, K2), lt(K2, P), eq(q, q2)], eq(K, K2))
        lemma = le(total, mul(w.nq, vol(w.ext('out', ME))))
        self.r.assumptions.add('volume lemma: the overlaps of disjoint boxes with a box have together at most its volume (overlap_le, lean/Volume.lean)')
        self.req('a received block fits recvsize', list(self.irecv.pc) + [lemma], and_(le(ZERO, ra), le(add(ra, cnt), rs)))
        if self.self_buf:
            e = self.L[sorted(self.k_self)[0]][0]
            self.req('the own block fits recvsize', list(e.pc) + [lemma], and_(le(ZERO, self.self_buf[1]), le(add(self.self_buf[1], self.self_buf[2]), rs)))
        # internal buffers have the reported sizes
        if T.cval(w.mf) == 1:
            for f, v in (('send', ss), ('recv', rs)):
                reg = self.bufs[0 if f == 'send' else 1]
                if reg.length is None: self.need('internal %s buffer is allocated by setup' % f, False)
                else: self.req('internal %s buffer has the reported size' % f, S.pc, le(v, reg.length))
        else:
            self.need('caller buffers are used', self.bufs[0] is w.regs['usend'] and self.bufs[1] is w.regs['urecv'])
    def memory(self):
        w = self.w; S = w.S1; ex = w.ex
        ss = ex.read(S, ex.top(w.ss), 'int'); rs = ex.read(S, ex.top(w.rs), 'int')
        memformula(self.r, w, S, self.nm, ss, rs, ZERO)
def memformula(r, w, S, nm, ss, rs, ng):
    sp = w.prog.sizeof(w.rec); sc = 4 if 'FFT_SINGLE' in w.prog.defines else 8
    ns, nr = w.getf(S, 'nsend'), w.getf(S, 'nrecv')
    want = add(mul(const(12 + sp), ns), mul(const(16 + 8 + sp), nr), mul(w.mf, const(sc), add(ss, rs)), mul(const(28), ng))
    r.require('%s: memusage is the sum of the bookkeeping arrays and the internal buffers' % nm, S.pc, eq(w.getf(S, 'memusage'), want), 20000)
    r.vacuity.append(('%s: setup path feasible' % nm, smt.feasible(S.pc, 3000)))

def p2p(r, dim, prec, mf, permute, parts):
    x = P2P(r, dim, prec, mf, permute)
    for p in parts:
        try: getattr(x, p)()
        except Uns as e: r.add('%s: %s' % (x.nm, p), 'undecided', str(e), 'executor')
def radix(r):
    """0 <= x < A and 0 <= y < B imply 0 <= x + A*y < A*B: positions of points of a tile are inside the tile"""
    x, y, A, B = [T.var(v) for v in ('x', 'y', 'A', 'B')]
    h = [le(ZERO, x), lt(x, A), le(ZERO, y), lt(y, B)]
    r.require('mixed radix step', h, and_(le(ZERO, add(x, mul(A, y))), lt(add(x, mul(A, y)), mul(A, B))), 20000)
def collide(r, dim, prec):
    """contract of collide: overlap = componentwise max/min, 1 iff not empty, sizes when not empty"""
    w = RW(dim, prec, contract=False); ex = w.ex; S = State(); rec = 'extent_%dd' % dim
    q = '%s::collide' % w.cls; nm = '%s[%s]' % (q, prec)
    if q not in w.prog.byname: r.ok(nm, 'no such function: the code that replaces it is executed itself'); return
    fn = w.prog.func(q)
    regs = [ex.region(n, rec, ONE, 'arg') for n in ('b1', 'b2', 'ov')]
    for g, n in zip(regs, ('a', 'b', 'o')):
        for f, ft in w.prog.fields(rec): ex.write(S, ex.field(ex.top(g), rec, f, ft), T.var(n + '.' + f))
    outs = ex.run(S, fn, w.oa, [ptr(ex.top(g)) for g in regs]); r.used(ex)
    r.require_all(ex, nm + ': ')
    for s, v in outs:
        rd = lambda g, f: ex.read(s, ex.field(ex.top(regs[g]), rec, f, 'int'), 'int')
        ok = and_(*[le(mx(T.var('a.%slo' % d), T.var('b.%slo' % d)), mn(T.var('a.%shi' % d), T.var('b.%shi' % d))) for d in w.D])
        r.require(nm + ': returns 1 exactly for a non-empty overlap', s.pc, eq(v, ite(ok, ONE, ZERO)))
        for d in w.D:
            r.require('%s: %slo is the larger lower bound' % (nm, d), list(s.pc) + [ok], eq(rd(2, d + 'lo'), mx(T.var('a.%slo' % d), T.var('b.%slo' % d))))
            r.require('%s: %shi is the smaller upper bound' % (nm, d), list(s.pc) + [ok], eq(rd(2, d + 'hi'), mn(T.var('a.%shi' % d), T.var('b.%shi' % d))))
            r.require('%s: %ssize' % (nm, d), list(s.pc) + [ok], eq(rd(2, d + 'size'), add(sub(rd(2, d + 'hi'), rd(2, d + 'lo')), ONE)))
        for g, n in ((0, 'a'), (1, 'b')):
            for f, ft in w.prog.fields(rec): r.require('%s: block%d.%s unchanged' % (nm, g + 1, f), s.pc, eq(rd(g, f), T.var(n + '.' + f)))

