"""The bundled 1d FFT (kissfft.h), read from fft3d.cpp's translation unit.

ghost: omega = exp(-+2 pi i / n);  tw(i) = omega^i, i < n;  D(o,s,m,j) = sum_{l<m} in[o+l*s] * omega^((n/m)*l*j)  (the DFT of
length m of the input line that starts at o with stride s).  Facts used about them are the lemmas of lean/Dft.lean."""
from . import terms as T, smt
from .terms import *
from fractions import Fraction
from .front import Program
from .sym import Exec, State, Base, W, Comp, IteC, ptr, Ptr, Addr, NULLP, Uns, Fn, Dead
from .fftw import DEF
from .inv import peel

PARTS = ('re', 'im')
def cmul(a, b): return (sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0])))
def cadd(a, b): return (add(a[0], b[0]), add(a[1], b[1]))
def conj(a): return (a[0], neg(a[1]))
def elem(f, i): return tuple(T.app(f, (add(mul(const(2), i), const(b)),), 'R') for b in (0, 1))     # complex = two scalars
def tw(i): return elem('tw', i)
def root(p, e, W1, W2, inv):
    """W^e for the primitive p-th root W of the direction, by the lemmas on roots of unity"""
    e %= p; one = (ONE, ZERO)
    if e == 0: return one
    if p == 2: return (const(-1), ZERO)
    if p == 4: return {1: (ZERO, ONE if inv else const(-1)), 2: (const(-1), ZERO), 3: (ZERO, const(-1) if inv else ONE)}[e]
    if p == 3: return {1: W1, 2: conj(W1)}[e]
    return {1: W1, 2: W2, 3: conj(W2), 4: conj(W1)}[e]

class KW:
    def __init__(self, prec, inv, handlers=None):
        self.prog = Program(DEF[('kiss', prec)]); self.prog.add('fft3d.cpp')
        self.prec = prec; self.inv = inv; self.scalar = 'float' if prec == 'single' else 'double'
        self.rec = [x for x in self.prog.records if x == 'FFT_DATA' or x.endswith('FFT_DATA')]
        self.ex = ex = Exec(self.prog, handlers or {}); ex.track_uninit = True
        self.S = State()
    def state(self, S, n, factors=None):
        """a kiss_fft_state for length n as kiss_fft_alloc leaves it"""
        ex = self.ex; st = ex.region('st', 'kiss_fft_state', ONE, 'arg'); st.flex = ('twiddles', mul(const(2), n)); a = ex.top(st)
        ex.write(S, ex.field(a, 'kiss_fft_state', 'nfft', 'int'), n)
        ex.write(S, ex.field(a, 'kiss_fft_state', 'inverse', 'int'), const(self.inv))
        b = Base(None, 'sym'); b.fn = lambda ix: T.app('tw', (ix[-1],), 'R'); S.mem[(st.id, ('twiddles',))] = b
        if factors:
            b = Base(None, 'sym'); b.fn = lambda ix: factors(ix[-1]); S.mem[(st.id, ('factors',))] = b
        return st
    def line(self, S, name, length):
        r = self.ex.region(name, self.scalar, mul(const(2), length), 'arg')
        b = Base(None, 'sym'); b.fn = lambda ix: T.app(name, (ix[-1],), 'R'); S.mem[(r.id, ())] = b
        return r
    def get(self, S, r, i): return tuple(self.ex.cread(S, self.ex.content(S, (r.id, ())), (add(mul(const(2), i), const(b)),), self.scalar, (r.id, ())) for b in (0, 1))

def bfly_value(p, m, fs, inv, old, rr, u):
    """contract of kf_bfly<p>: element rr*m+u afterwards, old(q) = element q*m+u before"""
    W1 = (const(Fraction(-1, 2)), tw(mul(fs, m))[1]) if p == 3 else tw(mul(fs, m)); W2 = tw(mul(const(2), fs, m)); out = (ZERO, ZERO)
    for q in range(p):
        t = old(q) if q == 0 else cmul(old(q), tw(mul(const(q), fs, u)))
        out = cadd(out, cmul(t, root(p, q * rr, W1, W2, inv)))
    return out
def reduce_roots(v, p, fs, m, inv):
    """entries of the table at multiples of n/p are p-th roots of unity (lean/Dft.lean): one name for each"""
    f = mul(fs, m); W1 = (const(Fraction(-1, 2)), tw(f)[1]) if p == 3 else tw(f); W2 = tw(mul(const(2), f)); rep = {}
    for e in range(p):
        for a, x in zip(tw(mul(const(e), f)), root(p, e, W1, W2, inv)): rep[T.as_atom(a).id] = x
    out = ZERO
    for mono, c in v.m:
        t = const(c)
        for a, k in mono:
            for _ in range(k): t = mul(t, rep.get(a, T.of_atom(T.ATOM[a])))
        out = add(out, t)
    return out
def num(v, env, fn):
    """value of a polynomial; env: variables, fn(name, args) -> value of an application"""
    t = 0
    for mono, c in v.m:
        x = c
        for a, k in mono:
            at = T.ATOM[a]
            if at.op == 'var': y = env[at.args[0]]
            elif at.op == 'app': y = fn(at.args[0], [num(z, env, fn) for z in at.args[1:]])
            else: raise Uns('value of ' + at.op)
            x = x * y ** k
        t = t + x
    return t
def differ(g, v, p, inv, leaf=None):
    """do the two terms differ for real roots of unity?  None: cannot be told"""
    import math, zlib
    try:
        for fs, m, u, s in ((1, 1 if leaf else 3, 0 if leaf else 1, 1), (2, 1 if leaf else 5, 0 if leaf else 3, 3)):
            n = fs * m * p; env = dict(fstride=fs, m=m, u=u, in_stride=s, level=0)
            def fn(name, a):
                if name == 'tw':
                    i, b = divmod(a[0], 2); th = (1 if inv else -1) * 2 * math.pi * i / n; return math.sin(th) if b else math.cos(th)
                return (zlib.crc32(repr((name, a)).encode()) % 2000) / 1000.0 - 1
            if abs(num(g, env, fn) - num(v, env, fn)) > 1e-6: return 'stride %d, m %d, element %d: %.6f instead of %.6f' % (fs, m, u, num(g, env, fn), num(v, env, fn))
        return None
    except (Uns, KeyError, TypeError, OverflowError): return None
def same(r, name, pc, g, v, p, fs, m, inv, leaf=None):
    g, v = reduce_roots(g, p, fs, m, inv), reduce_roots(v, p, fs, m, inv)
    if g is v or smt.proved(list(pc), eq(g, v), 4000): r.ok(name)
    else:
        d = differ(g, v, p, inv, leaf)
        r.add(name, 'refuted' if d else 'undecided', d or 'equal for the roots of unity tried, not by the lemmas used', 'polynomial normal form', d)
def butterfly(r, prec, p, inv):
    w = KW(prec, inv); ex = w.ex; S = w.S; nm = 'kf_bfly%d[%s,%s]' % (p, prec, 'backward' if inv else 'forward')
    fs = T.var('fstride'); m = T.var('m'); S.assume(le(ONE, fs)); S.assume(le(ONE, m))
    n = mul(fs, m, const(p)); st = w.state(S, n); F = w.line(S, 'F', mul(const(p), m))
    outs = ex.run(S, w.prog.func('kf_bfly%d' % p), None, [ptr(ex.top(F)), fs, ptr(ex.top(st)), m])
    if len(outs) != 1: raise Uns('several exits')
    s = outs[0][0]; u = T.var('u'); s.assume(le(ZERO, u)); s.assume(lt(u, m))
    for rr in range(p):
        got = w.get(s, F, add(mul(const(rr), m), u))
        want = bfly_value(p, m, fs, inv, lambda q: elem('F', add(mul(const(q), m), u)), rr, u)
        for x, g, v in zip(PARTS, got, want): same(r, '%s: output %d, %s part, is the radix-%d combination' % (nm, rr, x, p), s.pc, g, v, p, fs, m, inv)
    for k in s.mem:
        if k[0] == st.id and s.mem[k] is not w.S.mem.get(k): raise Uns('tables written')
    r.require_all(ex, nm + ': '); r.used(ex)

def D(o, s, m, j): return tuple(T.app('D', (o, s, m, add(mul(const(2), j), const(b))), 'R') for b in (0, 1))
def one(p, what):
    a = p.single() if isinstance(p, Ptr) else None
    if not isinstance(a, Addr): raise Uns(what)
    return a
def half(x, what):
    """index in complex elements of an index in scalars"""
    if any(c % 2 for _, c in x.m): raise Uns(what + ' is not at a complex element')
    return T._num({k: c // 2 for k, c in x.m})
def h_bfly(p):
    def h(ex, S, this, a, n):
        w = ex.kw; F = one(a[0], 'array of a butterfly'); fs, m = a[1], a[3]; st = one(a[2], 'plan')
        ex.oblige(S, 'pre', and_(le(ONE, m), le(ONE, fs), eq(mul(fs, m, const(p)), w.n)), n, 'kf_bfly%d: stride*radix*m is the length' % p)
        if st.region is not w.st or len(F.steps) != 1: raise Uns('arguments of a butterfly')
        o = half(F.steps[0], 'array of a butterfly'); k = F.key()
        if F.region.length is not None: ex.oblige(S, 'pre', and_(le(ZERO, o), le(mul(const(2), add(o, mul(const(p), m))), F.region.length)), n, 'kf_bfly%d: its elements lie in the array' % p)
        c0 = ex.content(S, k); u = T.fresh('u'); S2 = S.copy(); S2.assume(le(ZERO, u)); S2.assume(lt(u, m))
        u1 = ZERO if m is ONE else u
        old = [tuple(ex.cread(S2, c0, (add(mul(const(2), add(o, mul(const(q), m), u1)), const(b)),), w.scalar, k) for b in (0, 1)) for q in range(p)]
        c = c0; dom = and_(le(ZERO, u), lt(u, m))
        for rr in range(p):
            v = bfly_value(p, m, fs, w.inv, lambda q: old[q], rr, u1)
            for b in (0, 1):
                ix = (add(mul(const(2), add(o, mul(const(rr), m), u1)), const(b)),)
                c = W(c, ix, v[b]) if m is ONE else Comp(c, [u], dom, ix, v[b], n)
        S.mem[k] = c
        ex.contracts_used.add('kf_bfly%d' % p)
    return h
def h_generic(ex, S, this, a, n): raise Uns('general butterfly for a radix that has its own')
def h_work(ex, S, this, a, n):
    """contract of kf_work, for the recursive call and for kiss_fft_stride"""
    w = ex.kw; F, f, fs, s, fac, st = one(a[0], 'output'), one(a[1], 'input'), a[2], a[3], one(a[4], 'factors'), one(a[5], 'plan')
    if st.region is not w.st or fac.region is not w.st or fac.path() != ('factors',): raise Uns('tables handed to kf_work')
    L = w.level(ex, S, fac.steps[-1], n)          # length that the factor list at this position stands for
    ex.oblige(S, 'pre', and_(le(ONE, L), le(ONE, fs), eq(mul(fs, L), w.n)), n, 'kf_work: stride times length is the length of the transform')
    ex.oblige(S, 'pre', le(ONE, s), n, 'kf_work: positive stride')
    if w.dec is not None: ex.oblige(S, 'termination', lt(L, w.dec), n, 'recursion on a shorter transform')
    o = half(F.steps[0], 'output'); i = half(f.steps[0], 'input')
    ex.oblige(S, 'pre', and_(le(ZERO, o), le(mul(const(2), add(o, L)), F.region.length)), n, 'kf_work: output line lies in its array')
    ex.oblige(S, 'pre', and_(le(ZERO, i), lt(add(i, mul(sub(L, ONE), fs, s)), w.inlen)), n, 'kf_work: input line lies in its array')
    if f.region is not w.inp or F.region is f.region: raise Uns('kf_work between other arrays')
    for al in (F, f):
        x = S.mem.get((al.region.id, ('#alive',)))
        if x is not None: ex.oblige(S, 'lifetime', eq(x.val, ONE), n, '%s while allocated' % al.region.name)
    u = T.fresh('u')
    S.mem[F.key()] = Comp(ex.content(S, F.key()), [u], and_(le(ZERO, u), lt(u, mul(const(2), L))), (add(mul(const(2), o), u),), T.app('D', (i, mul(fs, s), L, u), 'R'), n)
    ex.contracts_used.add('kf_work')
def work(r, prec, p, inv, leaf):
    h = {'kf_bfly%d' % x: h_bfly(x) for x in (2, 3, 4, 5)}; h['kf_work'] = h_work; h['kf_bfly_generic'] = h_generic
    w = KW(prec, inv, h); ex = w.ex; S = w.S; ex.kw = w
    nm = 'kf_work[%s,%s,radix %d,%s]' % (prec, 'backward' if inv else 'forward', p, 'last' if leaf else 'inner')
    ex.loop_specs['kf_work'] = peel(6)
    fs, s, m, i = T.var('fstride'), T.var('in_stride'), ONE if leaf else T.var('m'), T.var('level')
    for x in (fs, s): S.assume(le(ONE, x))
    if not leaf: S.assume(le(const(2), m))
    S.assume(le(ZERO, i)); S.assume(lt(i, const(32)))
    L = mul(const(p), m); w.n = mul(fs, L); w.dec = L
    def fac(ix): return const(p) if ix is mul(const(2), i) else m if ix is add(mul(const(2), i), ONE) else T.app('fac', (ix,))
    w.st = st = w.state(S, w.n, fac)
    def level(ex, S, x, n):
        """precondition on the factor list: what follows (p,m) with m > 1 is a factor list of m"""
        if leaf: raise Uns('recursion at the last level')
        ex.oblige(S, 'pre', eq(x, add(mul(const(2), i), const(2))), n, 'kf_work: the factor list continues behind this pair'); return m
    w.level = level
    w.inlen = add(mul(sub(L, ONE), fs, s), ONE)
    w.inp = w.line(S, 'in', w.inlen); F = w.line(S, 'out', L)
    fa = facaddr(ex, st, mul(const(2), i))
    outs = ex.run(S, w.prog.func('kf_work'), None, [ptr(ex.top(F)), ptr(ex.top(w.inp)), fs, s, ptr(fa), ptr(ex.top(st))])
    if len(outs) != 1: raise Uns('several exits')
    t = outs[0][0]; u = ZERO if leaf else T.var('u')
    if not leaf: t.assume(le(ZERO, u)); t.assume(lt(u, m))
    def sub_(q): return elem('in', mul(const(q), fs, s)) if leaf else D(mul(const(q), fs, s), mul(const(p), fs, s), m, u)
    for rr in range(p):
        got = w.get(t, F, add(mul(const(rr), m), u)); want = bfly_value(p, m, fs, inv, sub_, rr, u)
        for x, g, v in zip(PARTS, got, want):
            same(r, '%s: %s part of output block %d is that of the DFT of length radix*m (lemma decimation in time)' % (nm, x, rr), t.pc, g, v, p, fs, m, inv, leaf)
    for x in (st, w.inp):
        for k in t.mem:
            if k[0] == x.id and t.mem[k] is not w.S.mem.get(k): r.add('%s: %s is only read' % (nm, x.name), 'undecided', '', 'executor')
    r.require_all(ex, nm + ': '); r.used(ex)

# ---------------------------------------------------------------------------------------------------- tables
SMALL = [x for x in range(1, 49) if not any(x % q == 0 for q in (7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47))]
def smooth(x): return eq(T.app('smooth', (x,)), ONE)
def lemmas(x, parts=()):
    """about numbers without other prime factors than 2, 3 and 5 (lean/Dft.lean)"""
    out = [implies(and_(smooth(x), le(ONE, x), lt(x, const(49))), or_(*[eq(x, const(i)) for i in SMALL])),
           implies(and_(smooth(x), le(ONE, x), *[ne(T.cmod(x, const(q)), ZERO) for q in (2, 3, 5)]), eq(x, ONE))]
    for a, b in parts: out.append(implies(and_(smooth(x), eq(mul(a, b), x), le(ONE, a), le(ONE, b)), smooth(b)))
    return out
def pow2(j): return T.app('pow2', (j,))
def h_sqrt(ex, S, this, a, n):
    x = a[0]; y = T.app('sqrt', (x,), 'R')
    S.assume(le(ZERO, y)); S.assume(eq(mul(y, y), x))
    for q in (2, 3, 5, 7): S.assume(implies(lt(y, const(q)), lt(x, const(q * q))))
    return y
def h_floor(ex, S, this, a, n):
    f = T.app('floorof', (a[0],)); S.assume(le(f, a[0])); S.assume(lt(a[0], add(f, ONE))); S.assume(le(ZERO, f)); return f
def factor(r, prec):
    """requires n smooth, 1 <= n < 2^31; ensures facbuf = p_1,m_1,p_2,m_2,..,p_k,1 with p_i in 2..5 (1 for n = 1), p_i*m_i = m_(i-1), m_0 = n"""
    nm = 'kf_factor[%s]' % prec
    # length 1
    w = KW(prec, 0, {'sqrt': h_sqrt, 'floor': h_floor}); ex = w.ex; S = w.S
    st = w.state(S, ONE); fa = facaddr(ex, st, ZERO); b = Base(None, 'sym'); b.fn = lambda ix: T.app('fac0', ix[-1:]); S.mem[fa.key()] = b
    ex.loop_specs['kf_factor'] = peel(6, keep=True)
    for t, _ in ex.run(S, w.prog.func('kf_factor'), None, [ONE, ptr(fa)]):
        c = ex.content(t, fa.key())
        for i in (0, 1): r.require('%s: length 1 has the list 1,1' % nm, t.pc, eq(ex.cread(t, c, (ZERO, const(i)), 'int', fa.key()), ONE))
    r.require_all(ex, nm + ' length 1: '); r.used(ex)
    # lengths from 2
    w = KW(prec, 0, {'sqrt': h_sqrt, 'floor': h_floor}); ex = w.ex; S = w.S
    n0 = T.var('n'); S.assume(le(const(2), n0)); S.assume(lt(n0, const(2 ** 31))); S.assume(smooth(n0))
    st = w.state(S, n0); fa = facaddr(ex, st, ZERO); b0 = Base(None, 'sym'); b0.fn = lambda ix: T.app('fac0', ix[-1:]); S.mem[fa.key()] = b0
    depth = [0]
    def spec(ex, S, n, parts):
        if depth[0]: return peel(8, keep=True)(ex, S, n, parts)
        cond, inc, body, isdo = parts; depth[0] = 1
        try:
            rid = max(ex.regions)
            ex.dry += 1
            try: A = S.copy(); conts, exits = ex.iterate(A, inc, body)
            finally: ex.dry -= 1
            mod = set()
            for t in conts:
                for k, c in t.mem.items():
                    if k[0] <= rid and c is not S.mem.get(k) and not (S.mem.get(k) is None and isinstance(c, Base)): mod.add(k)
            role = {}
            for k in mod:
                if k == fa.key(): continue
                v = ex.cread(S, ex.content(S, k), (ZERO,), ex.cellty(k), k)
                if isinstance(v, Ptr):
                    if v.single() != fa: raise Uns('pointer of the factor list')
                    role.setdefault('buf', []).append(k)
                elif v is n0: role.setdefault('n', []).append(k)
                elif T.cval(v) == 4: role.setdefault('p', []).append(k)
                elif T.cval(v) == 0: role.setdefault('nf', []).append(k)
                else: raise Uns('another variable changes in the loop over the factors')
            if any(len(role.get(x, [])) != 1 for x in ('n', 'p')) or len(role.get('nf', [])) > 1 or not (role.get('nf') or role.get('buf')): raise Uns('variables of the loop over the factors')
            nn, j = T.var('nn'), T.var('j'); two = const(2); done = []
            PH = {4: TRUE, 2: ne(T.cmod(nn, const(4)), ZERO), 3: ne(T.cmod(nn, two), ZERO), 5: and_(ne(T.cmod(nn, two), ZERO), ne(T.cmod(nn, const(3)), ZERO))}
            def cell(t, k, v): t.mem[k] = W(ex.base0(k), (ZERO,), v)
            for ph, fact in PH.items():
                H = S.copy(); cell(H, role['n'][0], nn); cell(H, role['p'][0], const(ph))
                for k in role.get('nf', []): cell(H, k, j)
                for k in role.get('buf', []): cell(H, k, ptr(Addr(fa.region, fa.steps[:-1] + (mul(two, j),), fa.unit)))
                H.mem[fa.key()] = hb = Base(None, 'sym'); hb.fn = lambda ix: T.app('fac0', ix[-1:])
                for x in [le(two, nn), le(nn, n0), smooth(nn), fact, le(ZERO, j), le(mul(nn, pow2(j)), n0), le(ONE, pow2(j)),
                          implies(le(const(31), j), le(const(2 ** 31), pow2(j))), implies(le(const(31), j), lt(n0, mul(nn, pow2(j)))), eq(pow2(add(j, ONE)), mul(two, pow2(j)))] + lemmas(nn): H.assume(x)
                if not isdo: H.assume(ex.evalcond(H, cond, n))
                ex.keep_split = True
                try: conts, exits = ex.iterate(H, inc, body)
                finally: ex.keep_split = False
                if exits: raise Uns('early exit from the loop over the factors')
                for t in conts:
                    if not smt.feasible(t.pc, 3000): continue
                    tag = '%s (candidate %d)' % (nm, ph)
                    c = t.mem[fa.key()]; wr = []
                    while isinstance(c, W): wr.append((c.idxs[-1], c.val)); c = c.prev
                    if c is not hb or len(wr) != 2: raise Uns('a step does not append one pair')
                    rd = lambda i: ex.cread(t, t.mem[fa.key()], fa.idxs()[:-1] + (i,), 'int', fa.key())
                    v0, v1 = rd(mul(two, j)), rd(add(mul(two, j), ONE))
                    wn = {x[0].id for x in wr}
                    r.add(tag + ': writes exactly entries 2j and 2j+1', 'discharged' if wn == {mul(two, j).id, add(mul(two, j), ONE).id} else 'refuted', '', 'executor')
                    pc = list(t.pc) + lemmas(nn, [(v0, v1)])
                    g = or_(*[eq(v0, const(i)) for i in (2, 3, 4, 5)])       # another radix would go to the general butterfly, which is not under contract
                    r.add(tag + ': radix is 2, 3, 4 or 5', 'discharged' if smt.proved(pc, g, 10000) else 'undecided', '', 'z3')
                    for i in (2, 3, 4, 5): r.require(tag + ': radix times remaining length is the length before', pc + [eq(v0, const(i))], eq(mul(const(i), v1), nn))
                    pc += [eq(mul(v0, v1), nn), or_(*[eq(v0, const(i)) for i in (2, 3, 4, 5)])]
                    r.require(tag + ': remaining length at least 1 and free of other prime factors', pc, and_(le(ONE, v1), smooth(v1)))
                    r.require(tag + ': room for the pair', pc, lt(j, const(32)))
                    val = lambda k: ex.cread(t, ex.content(t, k), (ZERO,), ex.cellty(k), k)
                    n1, p1 = val(role['n'][0]), val(role['p'][0])
                    r.require(tag + ': goes on with the remaining length', pc, eq(n1, v1))
                    for k in role.get('nf', []): r.require(tag + ': counts the pairs', pc, eq(val(k), add(j, ONE)))
                    for k in role.get('buf', []):
                        a = one(val(k), 'pointer of the factor list'); r.require(tag + ': next pair follows', pc, eq(a.steps[-1], add(mul(two, j), two)))
                    go = ex.evalcond(t, cond, n)
                    r.require(tag + ': ends exactly when nothing remains', pc, T.iff(go, lt(ONE, v1)))
                    r.require(tag + ': the list gets no longer than 31 pairs', pc + [go], le(mul(v1, two), nn))
                    cs = []
                    for q in (4, 2, 3, 5): cs.append(and_(eq(p1, const(q)), T.subst(PH[q], {'nn': v1})))
                    r.require(tag + ': smaller candidates no longer divide what remains', pc + [go] + lemmas(v1), or_(*cs))
                    X = t.copy(); X.assume(not_(go)); done.append(X)
            return [('normal', x, None) for x in done]
        finally: depth[0] = 0
    ex.loop_specs['kf_factor'] = spec
    ex.run(S, w.prog.func('kf_factor'), None, [n0, ptr(fa)])
    r.require_all(ex, nm + ': '); r.used(ex)
def facaddr(ex, st, i):
    fa = ex.field(ex.top(st), 'kiss_fft_state', 'factors', 'int[64]')
    return Addr(fa.region, ((fa.steps if len(fa.steps) > 1 else (ZERO,) + fa.steps)[:2]) + (i,), 'int')
def h_trig(f): return lambda ex, S, this, a, n: T.app(f, (a[0],), 'R')
def phase(v, f):
    a = T.as_atom(v) if isinstance(v, Num) else None
    if a is None or a.op != 'app' or a.args[0] != f: return None
    return a.args[1]
def alloc(r, prec, inv):
    """requires 1 <= nfft, no storage handed in; ensures nfft, inverse, twiddles[i] = exp(-+ 2 pi i/nfft), factors filled by kf_factor, storage for all of it"""
    import math
    nm = 'kiss_fft_alloc[%s,%s]' % (prec, 'backward' if inv else 'forward'); calls = []
    def h_factor(ex, S, this, a, n):
        f = one(a[1], 'factor list'); calls.append((S.pc, a[0], f, n)); ex.contracts_used.add('kf_factor')
        b = Base(None, 'sym'); b.fn = lambda ix: T.app('fac', ix[-1:]); S.mem[f.key()] = b
    w = KW(prec, inv, {'kf_factor': h_factor, 'cos': h_trig('cos'), 'sin': h_trig('sin')}); ex = w.ex; S = w.S
    nn = T.var('n'); S.assume(le(ONE, nn))
    outs = ex.run(S, w.prog.func('kiss_fft_alloc'), None, [nn, const(inv), NULLP, NULLP])
    for t, v in outs:
        a = one(v, 'plan'); st = a.region
        if st.elem != 'kiss_fft_state': raise Uns('storage of the plan')
        rd = lambda path, ix, ty: ex.cread(t, ex.content(t, (st.id, path)), ix, ty, (st.id, path))
        r.require(nm + ': length stored', t.pc, eq(rd(('nfft',), (ZERO,), 'int'), nn))
        r.require(nm + ': direction stored', t.pc, eq(rd(('inverse',), (ZERO,), 'int'), const(inv)))
        al = t.mem.get((st.id, ('#alive',)))
        if al is not None: r.require(nm + ': the plan is allocated', t.pc, eq(al.val, ONE))
        i = T.var('i'); u = t.copy(); u.assume(le(ZERO, i)); u.assume(lt(i, nn))
        for b, f in ((0, 'cos'), (1, 'sin')):
            x = ex.cread(u, ex.content(u, (st.id, ('twiddles',))), (ZERO, add(mul(const(2), i), const(b))), w.scalar, (st.id, ('twiddles',)))
            sg = 1; ph = phase(x, f)
            if ph is None: ph = phase(neg(x), f); sg = -1
            if ph is None or (sg < 0 and f == 'cos'): raise Uns('twiddle factors are not cosine and sine of an angle')
            ph = mul(const(sg), ph)
            # angle = c*i/n with c = -+2 pi
            c = None; k = T.polydiv(ph, i)
            if k is not None: k = T.polydiv(k, T.rdiv(ONE, nn)) or k
            c = T.cval(k) if k is not None else None
            if c is None: raise Uns('angle of the twiddle factors')
            want = 2 * math.pi * (1 if inv else -1)
            ok = abs(float(c) - want) < 1e-15 or (f == 'cos' and abs(float(c) + want) < 1e-15)
            r.add('%s: %s part of twiddle i is the %s of %s2 pi i/n' % (nm, PARTS[b], f, '' if inv else '-'), 'discharged' if ok else 'refuted', 'factor %r' % float(c))
        fc = [(pc, x, f) for pc, x, f, n in calls if f.region is st]
        r.add(nm + ': the factor list is made once', 'discharged' if len(fc) == 1 else 'refuted', '', 'executor')
        for pc, x, f in fc:
            r.require(nm + ': of this length', pc, eq(x, nn)); r.require(nm + ': at the start of the list', pc, and_(eq(f.steps[-1], ZERO), bconst(f.path() == ('factors',))))
    r.require_all(ex, nm + ': '); r.used(ex)
def entry(r, prec, inv, fn, inplace):
    """requires a plan for length n and lines of n elements; ensures out[j] = sum_l in[l*s] omega^(l j), in as it was on entry; writes only out"""
    nm = '%s[%s,%s,%s]' % (fn, prec, 'backward' if inv else 'forward', 'in place' if inplace else 'out of place')
    w = KW(prec, inv, {'kf_work': h_work}); ex = w.ex; S = w.S; ex.kw = w
    n = T.var('n'); S.assume(le(ONE, n)); w.n = n; w.dec = None
    s = T.var('in_stride') if fn == 'kiss_fft_stride' else ONE; S.assume(le(ONE, s))
    w.st = st = w.state(S, n, lambda ix: T.app('fac', (ix,)))
    def level(ex, S, x, nd): ex.oblige(S, 'pre', eq(x, ZERO), nd, 'kf_work: whole factor list'); return n
    w.level = level; w.inlen = add(mul(sub(n, ONE), s), ONE)
    w.inp = w.line(S, 'in', w.inlen)
    out = w.inp if inplace else w.line(S, 'out', n)
    a = [ptr(ex.top(st)), ptr(ex.top(w.inp)), ptr(ex.top(out))] + ([s] if fn == 'kiss_fft_stride' else [])
    outs = ex.run(S, w.prog.func(fn), None, a)
    if len(outs) != 1: raise Uns('several exits')
    t = outs[0][0]; j = T.var('j'); t.assume(le(ZERO, j)); t.assume(lt(j, n))
    for x, g, v in zip(PARTS, w.get(t, out, j), D(ZERO, s, n, j)): r.require('%s: %s part of output j is that of the DFT' % (nm, x), t.pc, eq(g, v))
    if not inplace:
        for k in t.mem:
            if k[0] == w.inp.id and t.mem[k] is not w.S.mem.get(k): r.add(nm + ': the input is only read', 'refuted', '', 'executor')
    else:
        c = t.mem[(out.id, ())]
        while not isinstance(c, Base):
            if isinstance(c, IteC): raise Uns('conditional writes')
            d = c.dom if isinstance(c, Comp) else TRUE
            r.require(nm + ': nothing beyond the line is written', list(t.pc) + [d], and_(le(ZERO, c.idxs[0]), lt(c.idxs[0], mul(const(2), n)))); c = c.prev
    for k in t.mem:
        if k[0] == st.id and t.mem[k] is not w.S.mem.get(k): r.add(nm + ': the tables are only read', 'undecided', '', 'executor')
        if k[1] == ('#alive',): r.require(nm + ': temporary storage is released', t.pc, ne(ex.cread(t, t.mem[k], (ZERO,), 'int', k), ONE))
    r.require_all(ex, nm + ': '); r.used(ex)
def single(r, prec, inv):
    """length 1: the identity"""
    nm = 'kf_work[%s,%s,length 1]' % (prec, 'backward' if inv else 'forward')
    w = KW(prec, inv); ex = w.ex; S = w.S; ex.kw = w; st = w.state(S, ONE, lambda ix: ONE); i = w.line(S, 'in', ONE); o = w.line(S, 'out', ONE)
    s = T.var('in_stride'); S.assume(le(ONE, s))
    outs = ex.run(S, w.prog.func('kf_work'), None, [ptr(ex.top(o)), ptr(ex.top(i)), ONE, s, ptr(facaddr(ex, st, ZERO)), ptr(ex.top(st))])
    if len(outs) != 1: raise Uns('several exits')
    t = outs[0][0]
    for x, g, v in zip(PARTS, w.get(t, o, ZERO), elem('in', ZERO)): r.require('%s: %s part is that of the input' % (nm, x), t.pc, eq(g, v))
    r.require_all(ex, nm + ': '); r.used(ex)
