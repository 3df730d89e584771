"""Ghost layout of the data arrays through compute / only_remaps / only_one_remap / only_1d_ffts.

A data array holds, on every process, a tile of the grid: box (lo,hi per grid axis), order (grid axes from
fastest to slowest in memory), done (axes already transformed, with exponent sign), scale factor.
Contracts of the steps:
  Remap::remap(in,out)  requires  the tile of `in`, listed in memory order, is the input tile the plan was set
                                  up with; both layouts tile the same grid (on all processes)
                        ensures   out holds the plan's output tile, axes rotated by the plan's permutation
  perform_ffts(d,f,p)   requires  the fastest axis is complete, p->length its length, p->total the tile volume
                        ensures   that axis is transformed with sign -f
  memcpy                the tile, completely and not more
  scale_ffts            every element of the tile times norm"""
from . import terms as T, smt
from .terms import *
from .sym import Addr, Ptr, Base, Uns, ptr, IteC
from .spmd import ME, P, at
from .remapw import lo, hi, vol, mn, mx
from .fftw import FW, ORDER, worlds, linear

class Lay:
    def __init__(self, box, order, done=(), scaled=()): self.box = tuple(box); self.order = tuple(order); self.done = tuple(done); self.scaled = tuple(scaled)
    def vol(self): return vol([add(sub(h, l), ONE) for l, h in self.box])
    def same(self, o): return self.box == o.box and self.order == o.order and self.done == o.done and self.scaled == o.scaled

_proved = set()
class Pipe:
    def __init__(self, r, w, name): self.r = r; self.w = w; self.nm = name; self.pc = None; self.seen = {}; self.tiled = {}; self.used_remaps = set(); self.trace = []; self.hist = []
    # ---------------------------------------------------------------- obligations
    def req(self, what, goal, pc=None, ms=8000):
        if goal is TRUE: self.r.ok('%s: %s' % (self.nm, what)); return True
        pc = list(pc if pc is not None else self.pc)
        key = (goal.id, frozenset(x.id for x in pc))
        if key in _proved: self.r.add('%s: %s' % (self.nm, what), 'discharged', 'same obligation as before', 'z3'); return True
        ok = self.req2(what, goal, pc, ms)
        if ok: _proved.add(key)
        return ok
    def req2(self, what, goal, pc, ms):
        lin = [x for x in pc if linear(x)]
        if linear(goal) and smt.check(lin, goal, ms)[0] == 'proved':
            self.r.add('%s: %s' % (self.nm, what), 'discharged', '', 'z3'); return True
        st, m = smt.check(abstract(pc, goal)[0], abstract(pc, goal)[1], ms)
        if st == 'proved': self.r.add('%s: %s' % (self.nm, what), 'discharged', 'products abstracted', 'z3'); return True
        return self.r.require('%s: %s' % (self.nm, what), pc, goal, ms)
    def need(self, what, ok, detail=''):
        self.r.add('%s: %s' % (self.nm, what), 'discharged' if ok else 'refuted', detail if not ok else '', 'executor')
        return ok
    def region(self, p, what):
        if not isinstance(p, Ptr): raise Uns(what)
        a = p.single()
        if not isinstance(a, Addr):
            cs = [(g, x) for g, x in p.cases if isinstance(x, Addr) and smt.feasible(list(self.pc) + [g], 1500)]
            if len(cs) != 1: raise Uns('%s: array through several pointers' % what)
            a = cs[0][1]
        if a.steps[0] is not ZERO: self.req('%s starts at the beginning of the array' % what, eq(a.steps[0], ZERO))
        return a.region
    # ---------------------------------------------------------------- tilings
    def tiling(self, box, what):
        """over all processes the boxes cover every point of the grid exactly once"""
        key = tuple(x.id for p in box for x in p)
        if key in self.tiled: return
        self.tiled[key] = True
        w = self.w; d = w.dim
        for io in ('in', 'out'):
            if all(box[i] == (lo(io, w.D[i], ME), hi(io, w.D[i], ME)) for i in range(d)):
                self.r.ok('%s: %s tile the grid' % (self.nm, what), "the caller's %sput tiles (precondition)" % io); return
        coords = {}; used = []
        for i in range(d):
            l, h = box[i]
            cs = [c for c in self.coords(l) + self.coords(h)]
            cs = list(dict.fromkeys(cs))
            if not cs:
                self.req('%s: axis %d is complete' % (what, i), and_(eq(l, ZERO), eq(h, sub(w.n[i], ONE)))); continue
            if len(cs) > 1: raise Uns('%s: tile bounds of one axis depend on several positions' % what)
            c = cs[0]
            if c in used: self.need('%s: different axes are cut by different positions' % what, False); return
            used.append(c)
            np_, grid = self.np_of(c)
            coords[i] = c
            sb = lambda t, v: replace(t, c, v)
            x = T.var('x.ip')
            rng = list(self.pcn()) + [le(ZERO, x), lt(x, np_)]
            f = 'axis %d: ' % i
            self.req('%s: %sfirst tile starts at 0' % (what, f), eq(sb(l, ZERO), ZERO), rng)
            self.req('%s: %slast tile ends at n-1' % (what, f), eq(divfix(sb(h, sub(np_, ONE))), sub(w.n[i], ONE)), rng)
            self.req('%s: %sa tile starts where the previous ends' % (what, f), eq(add(sb(h, x), ONE), sb(l, add(x, ONE))), rng)
            self.monotone('%s: %stiles are in order' % (what, f), rng, sb(l, x), sb(l, add(x, ONE)))
        grids = {self.np_of(c)[1] for c in used}
        if len(grids) > 1: self.need('%s: one process grid' % what, False); return
        # positions that cut no axis must be trivial
        for g in grids:
            if g == 'me': continue
            for k in range(d):
                c = ip(k, g)
                if c not in used: self.req('%s: process grid direction %d is not split' % (what, k), eq(T.app('np.%d' % k, g), ONE))
        if not used: self.req('%s: a single process' % what, eq(P, ONE))
        self.r.ok('%s: %s tile the grid' % (self.nm, what), 'product of 1d tilings over a process grid (C09: every process has its own position)')
    def monotone(self, name, rng, a, b):
        """a <= b; for quotients of equal divisor compare the numerators (x -> x/d is monotone for d > 0)"""
        A, B = T.as_atom(a), T.as_atom(b)
        if A is not None and B is not None and A.op == B.op == 'cdiv' and A.args[1] is B.args[1]:
            if smt.proved(rng, and_(lt(ZERO, A.args[1]), le(ZERO, A.args[0])), 4000):
                diff = sub(B.args[0], A.args[0])
                return self.req(name, le(ZERO, diff), rng)
        return self.req(name, le(a, b), rng)
    def pcn(self):
        """facts about sizes and process grids only"""
        return [x for x in self.pc if not any(n.startswith(('in.', 'out.', 'w!')) for n in names(x))]
    def coords(self, t):
        out = []
        def walk(x):
            if isinstance(x, Num):
                for a in T.atoms_of(x):
                    if a.op == 'app' and isinstance(a.args[0], str) and a.args[0].startswith('ip.'): out.append(T.of_atom(a))
                    elif a.op == 'var' and a.args[0] == 'me': out.append(ME)
                    else:
                        for y in a.args: walk(y)
            elif isinstance(x, Bool):
                for y in x.args: walk(y)
        walk(t)
        return list(dict.fromkeys(out))
    def np_of(self, c):
        if c is ME: return P, 'me'
        a = T.as_atom(c); k = int(a.args[0][3:]); g = tuple(a.args[2:])
        return T.app('np.%d' % k, g), g
    # ---------------------------------------------------------------- steps
    def step(self, st, e):
        w = self.w; self.pc = e.pc
        if e.kind == 'remap':
            reg, pin, pout, sb, rb = e.args
            info = w.rinfo.get(reg.id); nm = '%s@%s' % (info['name'] if info else '?', e.node.get('_line'))
            if info is None: self.need('remap used after its setup', False, 'line %s' % e.node.get('_line')); raise Uns('remap without setup')
            i, o = self.region(pin, 'remap input'), self.region(pout, 'remap output')
            L = st.get(i.id)
            if L is None: self.need('remap %s reads an array that holds data' % nm, False, i.name); raise Uns('remap of an array without data')
            bx = info['box']; d = w.dim
            src = [(bx[2 * k], bx[2 * k + 1]) for k in range(d)]; dst = [(bx[2 * d + 2 * k], bx[2 * d + 2 * k + 1]) for k in range(d)]
            for k in range(d):
                have = L.box[L.order[k]]
                self.req('remap %s: its input tile, axis %d, is the tile the array holds' % (nm, k), and_(eq(src[k][0], have[0]), eq(src[k][1], have[1])))
            self.req('remap %s: complex values' % nm, eq(info['nqty'], const(2)))
            pm = T.cval(info['permute'])
            if pm is None: raise Uns('permutation of a remap is not a constant')
            if not self.need('remap %s: permutation in range' % nm, 0 <= pm < (3 if d == 3 else 2)): raise Uns('permutation')
            nb = [None] * d
            for k in range(d): nb[L.order[k]] = dst[k]
            for k in range(d): self.req('remap %s: output tile bounds' % nm, le(sub(dst[k][0], ONE), dst[k][1]) if not self.is_grid(dst[k]) else TRUE)
            self.tiling(L.box, 'input tiles of remap %s' % nm); self.tiling(nb, 'output tiles of remap %s' % nm)
            if 'again' in info: self.need('remap %s: set up once' % nm, False)
            self.used_remaps.add(reg.id)
            st[o.id] = Lay(nb, [L.order[k] for k in ORDER[(d, pm)]], L.done, L.scaled)
            self.trace.append(('remap', info, i, o, sb, rb, e))
        elif e.kind == 'fft':
            p, fl, pl = e.args; pl = dict(pl); a = self.region(p, '1d FFT'); L = st.get(a.id); ln = e.node.get('_line')
            if L is None: self.need('1d FFT on an array that holds data', False, 'line %s' % ln); raise Uns('fft')
            ax = L.order[0]; f = T.cval(fl)
            self.req('1d FFT of axis %d: lines are complete' % ax, and_(eq(L.box[ax][0], ZERO), eq(L.box[ax][1], sub(w.n[ax], ONE))))
            self.plan(pl, f, ax, L.vol())
            sign = -1 if f == 1 else 1
            if any(x == ax for x, _ in L.done): self.need('axis %d is transformed once' % ax, False, 'line %s' % ln)
            st[a.id] = Lay(L.box, L.order, sorted(L.done + ((ax, sign),)), L.scaled)
            self.trace.append(('fft', pl, a, e))
        elif e.kind == 'memcpy':
            sa, da, n = e.args; L = st.get(sa.region.id)
            if L is None: self.need('copy of an array that holds data', False); raise Uns('memcpy')
            self.req('the copy starts at the beginning of both arrays', and_(eq(sa.steps[0], ZERO), eq(da.steps[0], ZERO)))
            self.req('the copy is exactly the tile', eq(n, mul(const(2), L.vol())))
            st[da.region.id] = L; self.trace.append(('memcpy', sa.region, da.region, n, e))
        elif e.kind == 'scale':
            p, num, nrm = e.args; a = self.region(p, 'scaling'); L = st.get(a.id)
            if L is None: self.need('scaling of an array that holds data', False); raise Uns('scale')
            self.req('scaling touches every element of the tile and no other', eq(num, L.vol()))
            self.req('scaling factor is 1/N', eq(mul(nrm, w.N()), ONE))
            st[a.id] = Lay(L.box, L.order, L.done, L.scaled + (nrm,)); self.trace.append(('scale', num, a, e))
        elif e.kind in ('loop', 'kiss', 'execute', 'rsetup', 'rnew', 'rdel'): raise Uns('unexpected %s in a compute method (line %s)' % (e.kind, e.node.get('_line') if e.node else '?'))
    def is_grid(self, p): return bool(self.coords(p[0]) or self.coords(p[1]))
    def plan(self, pl, f, ax, volume):
        w = self.w; n = w.n[ax]
        self.req('1d plan of axis %d: length' % ax, eq(pl['length'], n))
        self.req('1d plan of axis %d: number of values' % ax, and_(eq(pl['total'], volume), eq(mul(pl['n'], n), volume)))
        p = pl['plan_forward' if f == 1 else 'plan_backward']
        a = p.single() if isinstance(p, Ptr) else None
        cases = [(TRUE, a)] if isinstance(a, Addr) else ([(g, x) for g, x in p.cases if smt.feasible(list(self.pc) + [g], 1500)] if isinstance(p, Ptr) else [])
        if not cases or not all(isinstance(x, Addr) and hasattr(x.region, 'plan') for g, x in cases):
            self.need('1d plan of axis %d was created' % ax, False, str(p)[:200]); return
        for g, x in cases:
            q = x.region.plan; pc = list(self.pc) + ([g] if g is not TRUE else [])
            if q[0] == 'kiss':
                self.req('1d plan of axis %d: created for this length' % ax, eq(q[1], n), pc)
                self.req('1d plan of axis %d: direction' % ax, eq(q[2], ZERO if f == 1 else ONE), pc)
            else:
                self.req('1d plan of axis %d: created for this length' % ax, eq(q[1], n), pc)
                self.req('1d plan of axis %d: direction' % ax, eq(q[2], const(-1 if f == 1 else 1)), pc)
                self.req('1d plan of axis %d: all lines, contiguous' % ax, and_(eq(q[3], pl['n']), eq(q[4], ONE), eq(q[5], n), eq(q[6], ONE), eq(q[7], n)), pc)
    # ---------------------------------------------------------------- end states
    def start(self, flag):
        w = self.w; io = 'in' if flag == 1 else 'out'
        return Lay([(lo(io, d, ME), hi(io, d, ME)) for d in w.D], ORDER[(w.dim, 0 if flag == 1 else w.permute)])
    def final(self, st, B, flag, done, scaled, what):
        w = self.w; L = st.get(B.id)
        if L is None: self.need('%s: output array is set' % what, False); return
        io = 'out' if flag == 1 else 'in'
        for k, d in enumerate(w.D):
            self.req('%s ends in the requested tile, axis %d' % (what, k), and_(eq(L.box[k][0], lo(io, d, ME)), eq(L.box[k][1], hi(io, d, ME))))
        want = ORDER[(w.dim, w.permute if flag == 1 else 0)]
        self.need('%s ends in the requested storage order' % what, L.order == want, 'order %s, wanted %s' % (L.order, want))
        self.need('%s transforms %s' % (what, 'every axis exactly once' if done else 'nothing'), L.done == (tuple((i, -flag) for i in range(w.dim)) if done else ()), str(L.done))
        self.need('%s is scaled %s' % (what, 'once' if scaled else 'never'), len(L.scaled) == (1 if scaled else 0), str(len(L.scaled)))
    def always(self, S, e):
        """the event is not conditional on anything that differs between processes"""
        have = set(x.id for x in S.pc)
        extra = [x for x in e.pc if x.id not in have]
        if extra: self.req('step at line %s happens on every process' % (e.node.get('_line') if e.node else '?'), and_(*extra), S.pc)
    def play(self, S, st):
        for e in S.events:
            if e.kind in ('remap', 'fft', 'memcpy', 'scale'): self.always(S, e)
            self.hist.append(dict(st)); self.step(st, e)
        self.hist.append(dict(st))
        self.pc = S.pc
        return st
    def untouched(self, S, A, what):
        ks = [k for k in S.mem if k[0] == A.id and not isinstance(S.mem[k], Base)]
        wr = [t for t in self.trace if (t[0] == 'remap' and t[3] is A) or (t[0] in ('fft', 'scale') and t[2] is A) or (t[0] == 'memcpy' and t[2] is A)]
        self.need('%s: a separate input array keeps its contents' % what, not ks and not wr)
def ip(k, g): return T.app('ip.%d' % k, (ME,) + tuple(g))
def names(t):
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if id(x) in seen: continue
        seen.add(id(x))
        if isinstance(x, Num):
            for a in T.atoms_of(x):
                if a.op in ('app', 'var'): out.add(str(a.args[0]))
                st.extend(a.args)
        elif isinstance(x, Bool): st.extend(x.args)
    return out
class Rep(T.Subst):
    def __init__(self, c, v):
        super().__init__({}, lambda f, a, s: None); self.c = T.as_atom(c); self.v = v
    def _touches(self, t): return True
def replace(t, c, v):
    """t with the position c replaced by v"""
    if c is ME: return T.subst(t, {'me': v})
    a = T.as_atom(c); nm, args = a.args[0], a.args[1:]
    return T.Subst({}, lambda f, x, s: v if f == nm and tuple(x) == tuple(args) else None)(t)
def divfix(t): return t
def abstract(pc, goal):
    """replace products of symbols by fresh symbols (sound for proving)"""
    memo = {}
    def num(n):
        out = ZERO
        for m, c in n.m:
            deg = sum(e for _, e in m)
            if deg <= 1 and not any(T.ATOM[a].op == 'ite' for a, _ in m): out = add(out, T._num({m: c})); continue
            if deg == 1:
                a = T.ATOM[m[0][0]]; out = add(out, mul(const(c), ite(boo(a.args[0]), num(a.args[1]), num(a.args[2])))); continue
            v = memo.get(m)
            if v is None: v = memo[m] = T.var('prod!%s' % '_'.join('%d^%d' % x for x in m), 'I' if all(T.ATOM[a].sort == 'I' for a, _ in m) else 'R')
            out = add(out, mul(const(c), v))
        return out
    def boo(b):
        if b.op in ('le0', 'lt0', 'eq0'):
            x = num(b.args[0]); return {'le0': lambda: le(x, ZERO), 'lt0': lambda: lt(x, ZERO), 'eq0': lambda: eq(x, ZERO)}[b.op]()
        if b.op == 'and': return and_(*[boo(x) for x in b.args])
        if b.op == 'or': return or_(*[boo(x) for x in b.args])
        if b.op == 'not': return not_(boo(b.args[0]))
        return b
    return [boo(x) for x in pc if x.op != 'forall'], boo(goal)

# -------------------------------------------------------------------- tasks
_progs = {}
def mkworld(dim, lib, prec, permute, exchange, memoryflag, scaled=1, remaponly=0):
    def mk(c):
        w = FW(dim, lib, prec, permute, exchange, T.var('collective'), memoryflag, scaled, remaponly, c)
        w.S.assume(or_(*[eq(T.var('collective'), const(i)) for i in range(3)]))
        return w
    return mk
def each(r, dim, lib, prec, permute, exchange, memoryflag, f, **kw):
    n = 0
    for w in worlds(mkworld(dim, lib, prec, permute, exchange, memoryflag, **kw)):
        tag = '%s[%s,%s,permute=%d,exchange=%d,memory=%d,cases=%s]' % (w.cls, lib, prec, permute, exchange, memoryflag, ''.join(str(x[1])[0] for x in w.used))
        if w.bad == 'dead':
            # a valid request always gets through setup: C11's obligation; here nothing to check
            r.add('%s: setup succeeds' % tag, 'refuted', 'setup of a valid request stops: %s' % (w.ex.deaths[-1][1] if w.ex.deaths else ''), 'executor'); continue
        S = w.S1
        if memoryflag == 0: S = w.user_memory(S)
        w.S2 = S; n += 1
        try: f(r, w, tag)
        except Uns as e: r.add('%s: pipeline' % tag, 'undecided', str(e), 'executor')
        r.require_all(w.ex, tag + ' ', ('fft', 'coll', 'range', 'div'))
        r.used(w.ex)
    r.vacuity.append(('some setup case is reachable: %s %s %s %s' % (dim, lib, permute, exchange), n > 0))
def run_method(r, w, tag, meth, same, flag, extra=(), st=None, A=None, B=None, p=None):
    A, B = (A, B) if A is not None else w.arrays(w.S2, same)
    S = w.call(w.S2, meth, [ptr(w.ex.top(A)), ptr(w.ex.top(B)), const(flag)] + list(extra))
    p = p or Pipe(r, w, '%s %s %s %s' % (tag, meth, 'forward' if flag == 1 else 'backward', 'in place' if same else 'separate arrays'))
    if st is None: st = {A.id: p.start(flag)}
    p.pc = S.pc
    st = p.play(S, st)
    return p, S, st, A, B
