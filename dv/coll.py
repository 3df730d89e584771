"""Collective mode of Remap2d / Remap3d: communication group, Alltoallv, buffers.

setup() builds send and receive tables (one entry per partner), then the group: the smallest set of
processes that contains all partners of this process and all partners of its members.  Contracts:
  tables     entry t names a process that exchanges data with me, every such process has exactly one entry
             (proved from the scans, then the tables are used through sproc/spos, rproc/rpos only)
  group      loop invariants over pflag, pgroup with ghost Ix (position of a member in pgroup) and an
             arbitrary closed set Cset; result: F closed, contains my partners, contained in every such set
  search     loops that look up an entry by process: found exactly for partners, at spos/rpos
The rest (counts, displacements, packing, Alltoallv, unpacking) is summarised and checked as in remapw."""
from . import terms as T, smt, spmd, sums
from .terms import *
from .sym import Exec, State, Base, W, ptr, Ptr, Addr, NULLP, Uns, Fn, Dead
from .spmd import ME, P, at
from .remapw import RW, Rewrite, lo, hi, vol, flat, kernel_obl, memformula, procs_in
# -------------------------------------------------------------------- collective mode: the communication group
from . import inv as I
class GExec(Exec):
    """ghost code: a store pgroup[t] = p also sets Ix[p] = t"""
    def write(self, S, a, v, node=None):
        super().write(S, a, v, node)
        g = getattr(self, 'ghost', {}).get(a.region.id)
        if g is not None and isinstance(v, (Num, Bool)):
            super().write(S, Addr(g, (T.b2i(v) if isinstance(v, Bool) else v,), 'int'), a.idxs()[-1])
def partner(w, p, q): return or_(w.meets(p, q), w.meets(q, p))
def rng(i, n=None): return and_(le(ZERO, i), lt(i, P if n is None else n))
KINDS = ('send', 'recv')
class Coll(RW):
    def __init__(self, dim, prec='double', permute=None, memoryflag=None):
        super().__init__(dim, prec, 1, permute, memoryflag)
        ex0 = self.ex; ex = GExec(self.prog, ex0.h); ex.regions = ex0.regions; ex._b0 = ex0._b0; self.ex = ex
        ex.ghost = {}; ex.loop_specs['*'] = self.spec; self.insetup = False; self.disc = 0; self.cur = None; self.scan = (); self.closing = False; self.leaf = {}; self.inner = {}
        ex.h['MPI_Comm_create'] = self.h_create
        self.tables = {}; self.totals = {}; self.Fname = None; self.inv_loops = []; self.listed = []; self.pre = None; self.members = []
        del smt.LEMMAS[:]; smt.LEMMAS.append(self.lemmas)
    def h_create(self, ex, S, this, a, n):
        m = len(ex.regions); r = spmd.h_comm_create(ex, S, this, a, n)
        new = [x for x in ex.regions.values() if x.alloc == 'comm']
        self.members.append((T.bvar('member!%d' % max(x.id for x in new)), n)); return r
    def setup(self):
        self.insetup = True
        try: S = super().setup()
        finally: self.insetup = False
        ex = self.ex
        for kind, reg in (('send', self.ss), ('recv', self.rs)):
            a = T.as_atom(ex.read(S, ex.top(reg), 'int'))
            if kind not in self.tables or a is None or a.op != 'app' or sums.parse(a) is None or sums.parse(a)[0] != 'sum' or a.args[1] is not self.tables[kind]: continue
            t = T.fresh('e1'); S2 = S.copy(); S2.assume(rng(t, a.args[1])); i = sums.parse(a)[1]; g = le(ONE, sums.inst(i, t, a.args[2:]))
            if not smt.proved(S2.pc, g, 10000): continue
            ex.oblige(S2, 'table', g, None, '%ssize: every entry adds at least one value' % kind)
            self.totals[kind] = (i, a)
        return S
    # ------------------------------------------------------------ tables
    def rel(self, kind, q): return self.meets(ME, q) if kind == 'send' else self.meets(q, ME)
    def proc(self, kind, t): return T.app('proc.' + kind, (ME, t))
    def pos(self, kind, q): return T.app('pos.' + kind, (ME, q))
    def amount(self, kind, q): return mul(self.nq, vol(self.isz(ME, q) if kind == 'send' else self.isz(q, ME)))
    def lemmas(self, a):
        f = a.args[0]
        if not isinstance(f, str) or len(a.args) != 3 or a.args[1] is not ME: return []
        x = a.args[2]
        for k in KINDS:
            if k not in self.tables: continue
            N = self.tables[k]
            if f == 'proc.' + k: v = self.proc(k, x); return [implies(rng(x, N), and_(rng(v), self.rel(k, v), eq(self.pos(k, v), x)))]
            if f == 'pos.' + k:
                v = self.pos(k, x); out = [implies(and_(rng(x), self.rel(k, x)), and_(rng(v, N), eq(self.proc(k, v), x)))]
                if k in self.totals: i, s = self.totals[k]; out.append(implies(rng(v, N), and_(le(ONE, sums.inst(i, v, s.args[2:])), le(sums.inst(i, v, s.args[2:]), T.of_atom(s)))))
                return out
        if f == self.Fname:
            v = T.app(f, (ME, x)); return [implies(rng(x), and_(or_(eq(v, ZERO), eq(v, ONE)), implies(partner(self, ME, x), eq(v, ONE))))]
        return []
    def abstract(self, ex, S, n):
        """the tables are complete: prove their contract, then use them through it"""
        if self.tables or ex.dry: return
        tabs = {}
        for kind in KINDS:
            try:
                N = self.getf(S, 'n' + kind); p = self.getf(S, kind + '_proc')
                cs = [x for g, x in p.cases if isinstance(x, Addr)]
                if len(cs) != 1 or T.cval(N) is not None: return
                t = T.fresh('tt'); Sx = S.copy(); Sx.assume(rng(t, N))
                real = self.arr(Sx, kind + '_proc', t)
            except (Uns, AttributeError): return
            tabs[kind] = (N, t, real, Sx)
        if not all(any(isinstance(x, str) and x.startswith('sel!') for x in T.fun_names(v[2])) for v in tabs.values()): return
        for kind, (N, t, real, Sx) in tabs.items():
            tn = T.as_atom(t).args[0]; at_ = lambda v: T.subst(real, {tn: v})
            ex.oblige(Sx, 'table', and_(rng(real), self.rel(kind, real)), n, '%s table: an entry is a process this one exchanges data with' % kind)
            e1, e2 = T.fresh('e1'), T.fresh('e2'); S2 = S.copy(); S2.assume(and_(rng(e1, N), rng(e2, N), eq(at_(e1), at_(e2))))
            ex.oblige(S2, 'table', eq(e1, e2), n, '%s table: no process twice' % kind)
            Q = T.fresh('q'); S3 = S.copy(); S3.assume(and_(rng(Q), self.rel(kind, Q)))
            cyc = ite(lt(ME, Q), sub(sub(Q, ME), ONE), add(sub(sub(Q, ME), ONE), P)); wits = []
            for nm in [x for x in T.fun_names(real) if isinstance(x, str) and x[:4] == 'sel!']:
                i = int(nm[4:]); ps = [T.var(x) for x in sums.DEFS[i]['params']]
                for kk in (cyc, Q): wits.append(sums.sumat(i, kk, ps))
            wits += [sub(sub(N, ONE), x) for x in wits]
            goal = [and_(rng(x, N), eq(at_(x), Q)) for x in wits]
            good = [g for g in goal if smt.proved(S3.pc, g, 10000)]
            if not good: raise Uns('%s table: position of a partner' % kind)
            ex.oblige(S3, 'table', good[0], n, '%s table: every partner has an entry' % kind)
            # contents through the contract
            sp = self.proc(kind, t); rw = Rewrite(real, sp)
            for f, ft in self.prog.fields(self.cls):
                if not (f.startswith(kind + '_') or f == {'send': 'packplan', 'recv': 'unpackplan'}[kind]) or not ft.endswith('*'): continue
                p = self.getf(S, f); cs = [x for g, x in p.cases if isinstance(x, Addr)]
                if len(cs) != 1: continue
                for key in [k for k in S.mem if k[0] == cs[0].region.id and k[1] != ('#alive',)]:
                    v = sp if f == kind + '_proc' else None
                    if v is None:
                        v = ex.cread(Sx, S.mem[key], (t,), 'int', key)
                        if not isinstance(v, Num): continue
                        v = rw(v)
                        if any(isinstance(x, str) and x[:4] in ('sel!', 'sum!') for x in T.fun_names(v)): continue
                    b = Base(None, 'sym'); b.fn = (lambda v, tn: (lambda ix: T.subst(v, {tn: ix[-1]})))(v, tn); S.mem[key] = b
        self.tables = {k: v[0] for k, v in tabs.items()}
    # ------------------------------------------------------------ group
    def base_inv(self, F, G, Ix, n):
        i, t, p = T.var('i?'), T.var('t?'), T.var('p?')
        return [('0 <= n', (), le(ZERO, n)),
                ('flags are 0 or 1', ('i?',), implies(rng(i), or_(eq(F(i), ZERO), eq(F(i), ONE)))),
                ('members are processes and flagged', ('t?',), implies(rng(t, n), and_(rng(G(t)), eq(F(G(t)), ONE)))),
                ('flagged processes are members', ('p?',), implies(and_(rng(p), eq(F(p), ONE)), and_(rng(Ix(p), n), eq(G(Ix(p)), p)))),
                ('members are distinct', ('t?',), implies(rng(t, n), eq(Ix(G(t)), t))),
                ('members belong to every closed set with my partners', ('p?',), implies(and_(rng(p), eq(F(p), ONE)), T.bapp('Cset', (p,)))),
                ('lemma (pigeonhole): at most P members', (), le(n, P)),
                ('lemma (pigeonhole): fewer while someone is missing', ('p?',), implies(and_(rng(p), eq(F(p), ZERO)), lt(n, P)))]
    def listed_in(self, F, kind):
        q = T.var('q?'); p = self.pos(kind, q)
        return ('%s partners are flagged' % kind, ('q?',), implies(and_(rng(q), self.rel(kind, q), rng(p, self.tables[kind]), eq(self.proc(kind, p), q)), eq(F(q), ONE)))
    def closed_upto(self, F, G, n, nm='partners of the members scanned are flagged'):
        t, q = T.var('t?'), T.var('q?')
        return (nm, ('t?', 'q?'), implies(and_(rng(t, n), rng(q), partner(self, G(t), q)), eq(F(q), ONE)))
    def spec(self, ex, S, n, parts):
        if not self.insetup: return NotImplemented
        if self.disc: return self.blur(ex, S, n, parts)
        names = I.assigned(n)
        if not (names & {'send_proc', 'recv_proc', 'nsend', 'nrecv'}): self.abstract(ex, S, n)
        if not self.tables: return NotImplemented
        self.leaf = {}; self.inner = {}
        try: mod, H, conts, exits = self.discover(ex, S, n, parts)
        except Uns: return NotImplemented
        arrs = self.group_arrays(ex, S, mod)
        if arrs is None:
            if has_loop(parts[2]): return NotImplemented
            return self.search(ex, S, n, parts, mod, H, conts)
        return self.group_loop(ex, S, n, parts, mod, arrs)
    # ------------------------------------------------------------ what a loop changes (cells, not names)
    def pgroup(self, ex, S):
        p = self.getf(S, 'pgroup'); a = p.single() if isinstance(p, Ptr) else None
        return a if isinstance(a, Addr) else None
    def discover(self, ex, S, n, parts):
        """cells the loop changes, with one arbitrary iteration (nested loops too)"""
        cond, inc, body, isdo = parts; rid = max(ex.regions); mod = set(); self.disc += 1; ex.dry += 1
        try:
            while True:
                H = I.havoc(ex, S, mod); B = H.copy()
                if cond is not None and not isdo: B.assume(ex.evalcond(B, cond, n))
                conts, exits = ex.iterate(B, inc, body); new = set()
                for st in conts + [e[1] for e in exits]: new |= I.changed(ex, H, st, rid)
                if new <= mod: break
                mod |= new
        finally: self.disc -= 1; ex.dry -= 1
        if self.group_arrays(ex, S, mod) is not None:
            for k in mod:
                if ex.regions[k[0]].length is ONE and len(conts) == 1 and id(n) not in self.inner: self.leaf.setdefault(id(n), {})[k] = role(self.val(ex, H, k), self.val(ex, conts[0], k))
        return mod, H, conts, exits
    def blur(self, ex, S, n, parts):
        cond, inc, body, isdo = parts; up = self.cur; self.cur = id(n)
        try: mod, H, conts, exits = self.discover(ex, S, n, parts)
        finally: self.cur = up
        if up is not None and self.group_arrays(ex, S, mod) is not None: self.inner.setdefault(up, set()).add(id(n))
        out = [('normal' if k == 'break' else k, s, v) for k, s, v in exits]
        if isdo: return out + [('normal', s, None) for s in conts]
        X = I.havoc(ex, S, mod)
        if cond is not None: X.assume(not_(ex.evalcond(X, cond, n)))
        return out + [('normal', X, None)]
    def val(self, ex, st, key, ix=ZERO): return ex.cread(st, ex.content(st, key), (ix,), 'int', key)
    def group_arrays(self, ex, S, mod):
        pg = self.pgroup(ex, S)
        if pg is None or pg.key() not in mod: return None
        gh = {r.id for r in ex.regions.values() if r.kind == 'ghost'}
        fs = [k for k in mod if k != pg.key() and k[0] not in gh and ex.regions[k[0]].length is not ONE and ex.regions[k[0]].elem in ('int', 'bool', 'char', 'unsigned char', 'short')]
        others = [k for k in mod if k != pg.key() and k[0] not in gh and ex.regions[k[0]].length is not ONE and k not in fs]
        if len(fs) != 1 or others: return None
        return fs[0], pg.key()
    def group_loop(self, ex, S, n, parts, mod, arrs):
        cond, inc, body, isdo = parts; fk, gk = arrs
        self.cur = id(n); self.leaf = {}; self.inner = {}
        try: mod, H, conts, exits = self.discover(ex, S, n, parts)
        finally: self.cur = None
        if exits or len(conts) != 1: raise Uns('exits of a group loop')
        if self.pre is None:
            self.pre = S.pc; p, q = T.var('p?1'), T.var('q?1')
            # an arbitrary set closed under "exchange data" that contains my partners
            S.assume(T.forall(('p?1', 'q?1'), implies(and_(rng(p), rng(q), T.bapp('Cset', (p,)), partner(self, p, q)), T.bapp('Cset', (q,)))))
            S.assume(T.forall(('q?1',), implies(and_(rng(q), partner(self, ME, q)), T.bapp('Cset', (q,)))))
        if gk[0] not in ex.ghost:
            g = ex.region('Ix', 'int', None, 'ghost'); ex.ghost[gk[0]] = g
            b = Base(None, 'sym'); b.fn = lambda ix: T.app('Ix.0', (ME,) + ix); S.mem[(g.id, ())] = b
        arrays = {'F': fk, 'G': gk, 'Ix': (ex.ghost[gk[0]].id, ())}
        scal = {k for k in mod if ex.regions[k[0]].length is ONE}
        nest = lambda i: 1 + max(nest(x) for x in self.inner[i]) if i in self.inner else 0
        depth = nest(id(n)); self.inv_loops.append(n.get('_line'))
        roles = {k: role(self.val(ex, H, k), self.val(ex, conts[0], k)) for k in scal}
        idx = [k for k in scal if roles[k] == 'index']
        for i, rs in self.leaf.items():
            if i == id(n) or i not in self.inner and depth:
                for k, r in rs.items():
                    if k in scal and r in ('counter', 'flag') and roles[k] != 'index': roles[k] = r
        cnt = [k for k in scal if roles[k] == 'counter']; flags = [k for k in scal if roles[k] == 'flag']
        kw = dict(per=(ME,))
        if depth == 0 and not self.scan:
            ks = [k for k in KINDS if 'proc.' + k in T.fun_names(self.val(ex, conts[0], gk, self.val(ex, H, cnt[0])))] if len(cnt) == 1 else []
            if len(ks) != 1 or len(idx) != 1: raise Uns('partner loop')
            kind, = ks; t = T.var('t?'); N = self.getf(S, 'n' + kind)
            def inv_(v):
                return self.base_inv(v['F'], v['G'], v['Ix'], v['n']) + [('loop index', (), le(ZERO, v['i'])),
                    ('partners scanned are flagged', ('t?',), implies(and_(rng(t, v['i']), lt(t, N)), eq(v['F'](self.proc(kind, t)), ONE)))] + \
                    [self.listed_in(v['F'], k) for k in self.listed]
            X = I.run(ex, S, n, parts, 'partners loop over %s_proc' % kind, {'i': idx[0], 'n': cnt[0]}, arrays, inv_,
                      variant=lambda v: sub(N, v['i']), free=scal - {idx[0], cnt[0]}, **kw)
            F = lambda i: self.val(ex, X, fk, i)
            nm, bs, cl = self.listed_in(F, kind); m = {b: T.fresh('sk') for b in bs}
            ex.oblige(X, 'inv', T.subst(cl, m), n, nm); X.assume(T.forall(tuple(bs), cl)); self.listed.append(kind)
            return [('normal', X, None)]
        if sorted(self.listed) != sorted(KINDS): raise Uns('closure before the partners are flagged')
        pin = lambda F: [self.listed_in(F, k) for k in KINDS]
        if len(cnt) != 1 or len(flags) > 1: raise Uns('closure loop')
        nx = cnt[0]; act = flags[0] if flags else None
        if depth == 0 or (depth == 1 and len(idx) == 1):
            inner = depth == 0
            if len(idx) != 1 or T.cval(self.val(ex, S, idx[0])) is None: raise Uns('scan')
            if inner: i0 = self.val(ex, S, self.scan[0]); ip = self.val(ex, S, gk, i0); ng0 = self.scan[1]
            else: i0 = ip = None; ng0 = self.val(ex, S, nx)
            if not inner and len(self.inner[id(n)]) != 1: raise Uns('loops over the processes')
            def inv_(v):
                out = self.base_inv(v['F'], v['G'], v['Ix'], v['n']) + pin(v['F']) + [('loop index', (), le(ZERO, v['i'])), ('members found before stay', (), le(ng0, v['n'])),
                        self.closed_upto(v['F'], v['G'], i0 if inner else v['i'])]
                if act: out += [('active is 0 or 1', (), or_(eq(v['active'], ZERO), eq(v['active'], ONE))),
                        ('active while nothing was added', (), implies(eq(v['active'], ZERO), eq(v['n'], ng0))),
                        ('active means something was added', (), implies(eq(v['active'], ONE), lt(ng0, v['n'])))]
                elif not inner: out.append(('members scanned so far', (), le(v['i'], v['n'])))
                if inner:
                    q = T.var('q?')
                    out += [('partners of this member so far are flagged', ('q?',), implies(and_(rng(q), lt(q, v['i']), partner(self, ip, q)), eq(v['F'](q), ONE))),
                            ('this member stays', (), eq(v['G'](i0), ip)), ('this member is one', (), and_(le(ZERO, i0), lt(i0, v['n'])))]
                return out
            sc = {'i': idx[0], 'n': nx}
            if act: sc['active'] = act
            old = self.scan
            if not inner: self.scan = (idx[0], ng0)
            try: X = I.run(ex, S, n, parts, 'scan of %s' % ('processes' if inner else 'members'), sc, arrays, inv_, variant=lambda v: sub(P, v['i']), free=scal - set(sc.values()), **kw)
            finally: self.scan = old
            if not inner and not self.closing: self.closure_result(ex, X, n, fk, gk, nx, [])
            return [('normal', X, None)]
        if depth != 2 or self.closing or act is None or len(self.inner[id(n)]) != 1: raise Uns('closure loop')
        ng = self.fieldkey('ngroup'); ng = ng if ng in scal else nx
        def inv_(v):
            return self.base_inv(v['F'], v['G'], v['Ix'], v['n']) + pin(v['F']) + [('active is 0 or 1', (), or_(eq(v['active'], ZERO), eq(v['active'], ONE))),
                    (lambda c: (c[0], c[1], implies(eq(v['active'], ZERO), c[2])))(self.closed_upto(v['F'], v['G'], v['n'], 'closed when nothing was added'))]
        self.closing = True
        try: X = I.run(ex, S, n, parts, 'closure loop', {'n': ng, 'active': act}, arrays, inv_, variant=lambda v: add(sub(P, v['n']), v['active']), free=scal - {ng, act}, **kw)
        finally: self.closing = False
        self.closure_result(ex, X, n, fk, gk, ng, [eq(self.val(ex, X, act), ZERO)])
        return [('normal', X, None)]
    def fieldkey(self, nm): return self.ex.field(self.oa, self.cls, nm, dict(self.prog.fields(self.cls))[nm]).key()
    def closure_result(self, ex, X, n, fk, gk, ng, keep):
        """the result in terms of the set: members are exactly the flagged, so "closed" holds for every flagged process"""
        F = lambda i: self.val(ex, X, fk, i)
        fa = T.as_atom(F(T.var('z'))); p, q = T.fresh('sk'), T.fresh('sk'); Z = X.copy()
        ex.oblige(Z, 'inv', implies(and_(rng(p), eq(F(p), ONE), rng(q), partner(self, p, q)), eq(F(q), ONE)), n, 'group: closed under exchange of data')
        ex.oblige(Z, 'inv', implies(and_(rng(q), partner(self, ME, q), eq(self.proc('send', self.pos('send', q)), self.proc('send', self.pos('send', q)))), or_(eq(F(q), ONE), and_(self.rel('send', q), eq(self.pos('send', q), const(-1))), and_(self.rel('recv', q), eq(self.pos('recv', q), const(-1))))), n, 'group: contains my partners')
        ex.oblige(Z, 'inv', implies(and_(rng(p), eq(F(p), ONE)), T.bapp('Cset', (p,))), n, 'group: contained in every closed set with my partners')
        # count of the flagged processes is the number of members (bijection t -> G(t)): lemma
        k = T.fresh('kc'); i_, ps = sums.define('sum', T.as_atom(k).args[0], ite(eq(F(k), ZERO), ZERO, ONE))
        ngv = self.val(ex, X, ng)
        X.pc = self.pre; X.assume(and_(le(ZERO, ngv), le(ngv, P), eq(sums.sumat(i_, P, ps), ngv), *keep))
        self.F = F; self.Fsum = (i_, ps); self.Fname = fa.args[0]
    # ------------------------------------------------------------ lookups
    def search(self, ex, S, n, parts, ch, H, conts):
        """a loop that looks for the entry of a process: it acts (leaves) exactly at the entry of that process; K = where it stops"""
        cond, inc, body, isdo = parts
        if isdo or cond is None: return NotImplemented
        rid = max(ex.regions)
        def attempt(S0, key, j, pc, dry):
            B = S0.copy()
            if key is not None: B.mem[key] = W(ex.base0(key), (ZERO,), j)
            for x in pc: B.assume(x)
            ex.dry += dry
            try:
                B0 = B.copy(); c = ex.evalcond(B, cond, n); B.assume(c)
                conts, exits = ex.iterate(B, inc, body)
            finally: ex.dry -= dry
            return B0, c, conts, exits
        if len(conts) != 1: return NotImplemented
        key = [k for k in ch if ex.regions[k[0]].length is ONE and role(self.val(ex, H, k), self.val(ex, conts[0], k)) == 'index' and self.val(ex, S, k) is ZERO]
        if len(key) != 1: return NotImplemented
        key, = key
        j = T.fresh('k'); jn = T.as_atom(j).args[0]
        # the comparison with the entries; everything the loop changes is unknown, so the comparison cannot depend on it
        B0, c, conts, exits = attempt(H, key, j, [le(ZERO, j)], 1)
        if len(conts) != 1 or len(exits) > 1 or (exits and exits[0][0] != 'break'): return NotImplemented
        skip = set(S.pc) | {le(ZERO, j)}
        lits = [c] + [x for x in conts[0].pc if x not in skip] + [x for e in exits for x in e[1].pc if x not in skip] + guards_in(conts[0], B0)
        found = set()
        for x in lits: found |= {y for y in eqs(x) if any('proc.' + k in T.fun_names(y) for k in KINDS) and jn in T.var_names(y)}
        if len(found) != 1: return NotImplemented
        found, = found
        unk = set()
        for k in ch - {key}: v = self.val(ex, H, k, T.fresh('z')); unk |= T.var_names(v) if ex.regions[k[0]].length is ONE else T.fun_names(v)
        if (T.var_names(found) | T.fun_names(found)) & unk: return NotImplemented
        kinds = [k for k in KINDS if ('proc.' + k) in T.fun_names(found)]
        if len(kinds) != 1: return NotImplemented
        kind, = kinds; e = found.args[0]; pj = self.proc(kind, j)
        Q = sub(pj, e)
        if jn in T.var_names(Q): Q = add(pj, e)
        if jn in T.var_names(Q): return NotImplemented
        N = self.tables[kind]; hit = and_(rng(Q), self.rel(kind, Q)); ps = self.pos(kind, Q)
        # elsewhere: an iteration that only goes on
        D = H.copy(); D.assume(and_(lt(j, N), not_(found)))
        B1, c1, conts1, exits1 = attempt(D, key, j, [le(ZERO, j)], 1)
        if len(conts1) != 1: return NotImplemented
        moved = I.changed(ex, B1, conts1[0], rid) - {key}
        for k in moved:
            if ex.regions[k[0]].length is not ONE or not smt.proved(conts1[0].pc, eq(self.val(ex, conts1[0], k), self.val(ex, B1, k)), 5000): return NotImplemented
        going = and_(*[x for x in conts1[0].pc if x not in set(D.pc) | {le(ZERO, j)}])
        A = S.copy(); A.assume(and_(le(ZERO, j), lt(j, N), not_(found)))
        ex.oblige(A, 'search', going, n, 'lookup of a %s entry: goes on at the entry of another process' % kind)
        A = S.copy(); A.assume(and_(le(ZERO, j), lt(j, N), found))
        ex.oblige(A, 'search', and_(hit, eq(j, ps)), n, 'lookup of a %s entry: only one entry is that of the process' % kind)
        Bq = S.copy(); Bq.assume(hit)
        ex.oblige(Bq, 'search', and_(rng(ps, N), T.subst(found, {jn: ps})), n, 'lookup of a %s entry: a partner has one' % kind)
        # end of the table: the loop is over
        Z = S.copy(); Z.mem[key] = W(ex.base0(key), (ZERO,), N)
        ex.oblige(Z, 'search', not_(ex.evalcond(Z, cond, n)), n, 'lookup of a %s entry: ends with the table' % kind)
        no = S.copy(); no.assume(not_(hit)); no.mem[key] = W(ex.base0(key), (ZERO,), N)
        # the entry itself
        Y = S.copy(); Y.mem[key] = W(ex.base0(key), (ZERO,), ps)
        for x in (hit, rng(ps, N), T.subst(found, {jn: ps})): Y.assume(x)
        cy = ex.evalcond(Y, cond, n)
        if cy is FALSE or smt.proved(Y.pc, not_(cy), 5000):
            ex.oblige(Y, 'search', not_(cy), n, 'lookup of a %s entry: stops at the entry' % kind); yes = Y
        else:
            ex.oblige(Y, 'search', cy, n, 'lookup of a %s entry: reaches the entry' % kind)
            _, _, c2, e2 = attempt(S, key, ps, [hit, rng(ps, N), T.subst(found, {jn: ps})], 0)
            e2 = [x for x in e2 if smt.feasible(x[1].pc, 5000)]; c2 = [x for x in c2 if smt.feasible(x.pc, 5000)]
            if len(e2) == 1 and not c2: yes = e2[0][1]
            elif len(c2) == 1 and not e2:
                # goes on to the end of the table, where nothing else happens: the comparison must not depend on what was done
                if not same_found(self, found, jn, S, c2[0], ex, attempt, key, N): return NotImplemented
                yes = c2[0]; yes.mem[key] = W(ex.base0(key), (ZERO,), N)
            else: raise Uns('lookup')
        yes.pc = S.pc; yes.assume(hit)
        return [('normal', ex.merge2(yes, no), None)]
def same_found(w, found, jn, S, after, ex, attempt, key, N):
    """an iteration at another entry changes nothing even after the entry was found"""
    j = T.fresh('k'); D = after.copy(); D.assume(and_(rng(j, N), not_(T.subst(found, {jn: j}))))
    B, c, conts, exits = attempt(D, key, j, [], 1)
    if len(conts) != 1 or any(smt.feasible(e[1].pc, 5000) for e in exits): return False
    rid = max(ex.regions)
    for k in I.changed(ex, B, conts[0], rid) - {key}:
        if ex.regions[k[0]].length is not ONE or not smt.proved(conts[0].pc, eq(w.val(ex, conts[0], k), w.val(ex, B, k)), 5000): return False
    return smt.proved(list(B.pc), and_(*[x for x in conts[0].pc if x not in set(B.pc)]), 5000)
def guards_in(st, start):
    """conditions that occur in what an iteration writes"""
    out = []
    def go(c):
        if c is None or isinstance(c, Base): return
        if isinstance(c, W):
            if isinstance(c.val, (Num, Bool)): out.extend(ites(c.val))
            go(c.prev)
        elif hasattr(c, 'c'): out.append(c.c); go(c.a); go(c.b)
    for k, c in st.mem.items():
        if start.mem.get(k) is not c: go(c)
    return out
def ites(v, seen=None):
    out = []
    for a in T.atoms_of(v):
        if a.op == 'ite': out.append(a.args[0])
    return out
def eqs(b):
    """equalities between numbers in a condition"""
    if not isinstance(b, Bool): return set()
    if b.op == 'eq0': return {b}
    out = set()
    if b.op in ('and', 'or', 'not'):
        for x in b.args: out |= eqs(x)
    return out
def leaves(v, depth=0):
    for mono, c in v.m:
        for x, e in mono:
            a = T.ATOM[x]
            if a.op == 'ite' and e == 1 and len(mono) == 1 and depth < 5:
                rest = sub(v, mul(const(c), T.of_atom(a))); out = []
                for y in a.args[1:]: out += leaves(add(rest, mul(const(c), y)), depth + 1)
                return out
    return [v]
def role(s, v):
    """what an iteration does to a scalar: index (+1 always), counter (+1 sometimes), flag (set to 1 sometimes)"""
    if not isinstance(v, Num) or not isinstance(s, Num): return ''
    L = leaves(v); d = [T.cval(sub(x, s)) for x in L]
    if all(x == 1 for x in d): return 'index'
    if all(x in (0, 1, 2) for x in d) and 1 in d: return 'counter'
    if all(x == 0 or T.cval(y) == 1 for x, y in zip(d, L)) and any(T.cval(y) == 1 for y in L): return 'flag'
    return ''
def has_break(n):
    if n.get('kind') == 'BreakStmt': return True
    if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt'): return False
    return any(has_break(x) for x in n.get('inner', []))
def mentions(n, name):
    if n.get('kind') == 'MemberExpr' and n.get('name') == name: return True
    if n.get('kind') == 'DeclRefExpr' and n['referencedDecl'].get('name') == name: return True
    return any(mentions(x, name) for x in n.get('inner', []))
def walkdecl(n):
    out = [n] if n.get('kind') == 'VarDecl' else []
    for x in n.get('inner', []): out += walkdecl(x)
    return out
def has_loop(n): return n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt') or any(has_loop(x) for x in n.get('inner', []))
# -------------------------------------------------------------------- obligations
class A2A:
    """the collective remap as a trace: pack everything, Alltoallv on the group's communicator, unpack everything"""
    SOFT = ('inv', 'termination', 'table', 'search')      # proof steps about the stated invariants: a failure says the code left the expected form
    def __init__(self, r, dim, prec, mf, permute=None):
        self.r = r; w = self.w = Coll(dim, prec, permute, mf); self.nm = '%s[collective,%s,memoryflag=%d%s]' % (w.cls, prec, mf, '' if permute is None else ',permute=%d' % permute)
        w.setup(); S2 = w.remap(); r.used(w.ex)
        if not w.tables or w.Fname is None: raise Uns('group construction not recognised')
        if any(q['kind'] == 'none' for q in w.ex.qfacts): raise Uns('a loop with an early exit was not recognised as a lookup')
        self.S = S = w.S1; self.base = S.pc
        L = [x for x in flat(S2.events) if x[0].kind not in ('alloc', 'free')]
        for e, b in L:
            if e.kind not in ('kernel', 'alltoallv'): raise Uns('remap performs %s in collective mode' % e.kind)
        xs = [i for i, x in enumerate(L) if x[0].kind == 'alltoallv']
        if len(xs) != 1 or L[xs[0]][1]: raise Uns('Alltoallv calls')
        self.ix = xs[0]; self.x = L[self.ix][0]; self.L = L
        kers = [i for i, x in enumerate(L) if x[0].kind == 'kernel']
        if any(len(L[i][1]) != 1 for i in kers): raise Uns('shape of the pack and unpack loops')
        nm = lambda i: [w.prog.funcs[t]['_qual'].split('::')[-1] for g, t in L[i][0].args[0]]
        self.packs = [i for i in kers if all(x.startswith('pack') for x in nm(i))]; self.unpacks = [i for i in kers if all(x.startswith('unpack') for x in nm(i))]
        if len(self.packs) != 1 or len(self.unpacks) != 1 or len(kers) != 2: raise Uns('shape of the pack and unpack calls')
        self.ng = w.getf(S, 'ngroup')
        self.one = lambda t: eq(w.F(t), ONE)
        ga = T.as_atom(self.ng); gp = sums.parse(ga) if ga is not None and ga.op == 'app' else None
        if gp is not None and gp[0] == 'sum' and gp[1] != w.Fsum[0]:
            z = T.fresh('z')
            if sums.inst(gp[1], sub(sub(P, ONE), z), ga.args[2:]) is sums.inst(w.Fsum[0], z, w.Fsum[1]): raise Uns('the list of the group is made from the last process down')
        self.sb, self.sc, self.sd, self.st, self.rb, self.rc, self.rd, self.rt, self.comm = self.x.args
        if len(w.members) != 1: raise Uns('communicators')
        self.memb = w.members[0][0]
        for what, e in (('a block is packed', L[self.packs[0]][0]), ('the exchange takes place', self.x), ('a block is unpacked', L[self.unpacks[0]][0])):
            r.vacuity.append(('%s: %s on some path' % (self.nm, what), smt.feasible(e.pc, 5000)))
    def st_(self, t):
        s = self.S.copy(); s.assume(rng(t, self.ng)); return s
    def G(self, t): return self.w.arr(self.st_(t), 'pgroup', t)
    def at(self, p, t):
        a = self.addr(p).shift(t); s = self.st_(t); ex = self.w.ex
        return ex.cread(s, ex.content(self.w.S2, a.key()), a.idxs(), 'int', a.key())
    def need(self, what, c, detail='', backend='executor'):
        if c: self.r.ok('%s: %s' % (self.nm, what), '', backend)
        else: self.r.add('%s: %s' % (self.nm, what), 'refuted', detail, backend)
    def req(self, what, hyps, goal, ms=20000): return self.r.require('%s: %s' % (self.nm, what), hyps, goal, ms)
    def soft(self, what, hyps, goal, ms=20000):
        """a step that rests on facts about the group which are only partly available here: not proved means undecided"""
        if goal is TRUE or smt.proved(list(hyps), goal, ms): self.r.add('%s: %s' % (self.nm, what), 'discharged', '', 'z3')
        else: self.r.add('%s: %s' % (self.nm, what), 'undecided', 'not proved', 'z3')
    def addr(self, p):
        cs = [t for g, t in p.cases if isinstance(t, Addr)] if isinstance(p, Ptr) else []
        if len(cs) != 1: raise Uns('buffer address')
        return cs[0]
    def safety(self):
        n0 = len(self.r.obls); self.r.retries = 12; self.r.require_all(self.w.ex, self.nm + ': ')
        # the loops of the group were recognised and are judged by their stated invariants: an invariant z3 cannot establish (the
        # hypotheses are quantified, so it gives no countermodel) is a failed obligation; lookups and tables only leave the expected form
        q = {}
        for o in self.w.ex.obls: q['%s: %s: %s' % (self.nm, o.name(), o.text)] = 'form' if o.cat in ('table', 'search') else 'inv' if o.cat in ('inv', 'termination') or any(x.op == 'forall' for x in o.pc) else ''
        def st(o):
            k = q.get(o[0], '')
            if k == 'form' and o[1] == 'refuted': return 'undecided'
            if k == 'inv' and o[1] == 'undecided': return 'refuted'
            return o[1]
        self.r.obls[n0:] = [(o[0], st(o)) + tuple(o[2:]) for o in self.r.obls[n0:]]
        self.r.assumptions.add('pigeonhole and counting lemmas for the group list (lean/Group.lean)')
    def group(self):
        w = self.w; b = list(self.base); t, u, q = T.fresh('e1'), T.fresh('e2'), T.fresh('q')
        inc = [e for e, lp in flat(w.S1.events) if e.kind == 'incl']
        if len(inc) != 1: raise Uns('groups')
        ga = self.addr(w.getf(self.S, 'pgroup')); ia = self.addr(inc[0].args[2])
        self.need('the communicator is made from the group list', ia.region is ga.region and ia.idxs()[-1] is ZERO)
        self.req('the communicator is made from the whole list', inc[0].pc, eq(inc[0].args[1], self.ng))
        self.soft('list entries are processes of the group', b + [rng(t, self.ng)], and_(rng(self.G(t)), self.one(self.G(t))))
        self.soft('the list is in increasing order, so every member builds the same list from the same group', b + [rng(t, self.ng), rng(u, self.ng), lt(t, u)], lt(self.G(t), self.G(u)))
        i, ps = w.Fsum; wit = sums.sumat(i, q, ps)
        self.soft('every process of the group is in the list', b + [rng(q), self.one(q)], and_(rng(wit, self.ng), eq(self.G(wit), q)))
        self.soft('partners are in the group', b + [rng(q), partner(w, ME, q)], self.one(q))
        closed = implies(and_(rng(q), self.one(q), partner(w, q, ME)), self.one(ME))       # instance of 'group: closed under exchange of data'
        self.soft('a process that exchanges data is in its own group', b + [closed, rng(q), partner(w, ME, q)], self.one(ME))
        self.r.assumptions.add('group lemma: the smallest closed set of every member is the same set, and not empty only if it contains the process itself (lean/Group.lean)')
        self.r.assumptions.add('MPI_Comm_create gives a communicator to the members of the group a process names, ranked in list order, MPI_COMM_NULL to others')
    def messages(self):
        w = self.w; x = self.x; b = list(self.base); have = set(b); t = T.fresh('e1'); q = T.fresh('q')
        g = and_(*[c for c in x.pc if c not in have])
        ns, nr = w.tables['send'], w.tables['recv']
        mem = [implies(self.memb, self.one(ME)), implies(self.one(ME), self.memb),
               implies(le(ONE, self.ng), self.one(ME)), implies(self.one(ME), le(ONE, self.ng)), implies(self.one(ME), or_(le(ONE, ns), le(ONE, nr))), implies(or_(le(ONE, ns), le(ONE, nr)), self.one(ME)),
               le(ZERO, ns), le(ZERO, nr)]
        self.r.assumptions.add('a process with a group that is not empty is in it and has a partner (group_self, group_partner, lean/Group.lean)')
        self.req('every member of the group takes part in the exchange', b + mem + [self.memb], g)
        self.req('only members of the group take part in the exchange', b + mem + [g], self.memb)
        self.need('the exchange is on the communicator of the group', self.addr(self.comm).region.alloc == 'comm')
        self.need('same type on both sides', self.st is self.rt, '%s %s' % (self.st, self.rt))
        for what, arr, kind in (('sent', self.sc, 'send'), ('expected', self.rc, 'recv')):
            h = b + [rng(t, self.ng), rng(self.G(t))]; G = self.G(t)
            self.req('number of values %s for a member' % what, h, eq(self.at(arr, t), ite(w.rel(kind, G), w.amount(kind, G), ZERO)))
    def order(self):
        self.need('everything is packed before the exchange', max(self.packs) < self.ix); self.need('nothing is unpacked before the exchange', self.ix < min(self.unpacks))
    def kernels(self):
        w = self.w; b = list(self.base); have = set(b); self.blk = {}
        for kind, i, data, buf, dis in (('send', self.packs[0], 'in', self.sb, self.sd), ('recv', self.unpacks[0], 'out', self.rb, self.rd)):
            e = self.L[i][0]; (k, N, dom), = self.L[i][1]; kn = T.as_atom(k).args[0]; packing = kind == 'send'; what = 'block to send' if packing else 'received block'
            xs = [x for x in {x for v in dict(e.args[3]).values() for x in procs_in(v)} if x is not ME]
            idx = None
            for c in (k, sub(sub(self.ng, ONE), k)):
                if smt.proved(list(e.pc) + [rng(c, self.ng)], and_(*[eq(x, self.G(c)) for x in xs]), 8000): idx = c; break
            if idx is None: raise Uns('which member a block belongs to')
            G = self.G(idx); hy = list(e.pc) + [rng(idx, self.ng), rng(G)]
            self.req('%s: for a partner' % what, hy, w.rel(kind, G))
            a = kernel_obl(self.r, w, '%s: %s' % (self.nm, what), e, hy, ME if packing else G, G if packing else ME, packing, w.regs[data])
            t = T.fresh('e1'); inst = lambda f, v: T.subst(f, {kn: v})
            kt = t if idx is k else sub(sub(self.ng, ONE), t); Gt = self.G(t)
            guard = and_(*[inst(c, kt) for c in e.pc if c not in have])
            self.req('%s: one for every partner in the group' % what, b + [rng(t, self.ng), rng(Gt), w.rel(kind, Gt)], guard)
            if not a: continue
            ba = self.addr(buf)
            self.need('%s: in the buffer of the exchange' % what, ba.region is a[0])
            self.req('%s: where the exchange has it' % what, hy, eq(add(ba.idxs()[0], self.at(dis, idx)), a[1]))
        sr, rr = self.addr(self.sb).region, self.addr(self.rb).region; self.bufs = (sr, rr)
        self.need('send buffer, receive buffer and data arrays are distinct', len({sr.id, rr.id, w.regs['in'].id, w.regs['out'].id}) == 4)
        for what, dis, cnt, kind in (('blocks to send', self.sd, self.sc, 'send'), ('received blocks', self.rd, self.rc, 'recv')):
            t, u = T.fresh('e1'), T.fresh('e2')
            h = b + [rng(t, self.ng), rng(u, self.ng), lt(t, u), rng(self.G(t)), rng(self.G(u)), w.rel(kind, self.G(t)), w.rel(kind, self.G(u))]
            d1, d2, c1, c2 = self.at(dis, t), self.at(dis, u), self.at(cnt, t), self.at(cnt, u)
            self.soft('%s do not overlap' % what, h, or_(le(add(d1, c1), d2), le(add(d2, c2), d1)))
        for nm in ('in', 'out', 'usend', 'urecv'):
            ks = [k for k in w.S2.mem if k[0] == w.regs[nm].id and not (isinstance(w.S2.mem[k], Base))]
            self.need('%s is touched by the kernels and the exchange only' % nm, not ks)
    def sizes(self):
        w = self.w; ex = w.ex; S = w.S1; b = list(self.base)
        ss = ex.read(S, ex.top(w.ss), 'int'); rs = ex.read(S, ex.top(w.rs), 'int')
        for kind, size, dis, cnt, f, buf in (('send', ss, self.sd, self.sc, 'send', self.sb), ('recv', rs, self.rd, self.rc, 'recv', self.rb)):
            a = T.as_atom(size); t = T.fresh('e1'); G = self.G(t); h = b + [rng(t, self.ng), rng(G)]
            if a is None or a.op != 'app' or sums.parse(a) is None or sums.parse(a)[0] != 'sum': raise Uns('%ssize is not a sum over the table' % kind)
            i = sums.parse(a)[1]; N = w.tables[kind]
            self.req('%ssize counts every entry of the table' % kind, b, eq(a.args[1], N))
            self.req('%ssize counts an entry with its number of values' % kind, b + [rng(t, N)], eq(sums.inst(i, t, a.args[2:]), w.amount(kind, w.proc(kind, t))))
            from .remapw import resolve
            d = resolve(h + [w.rel(kind, G)], self.at(dis, t)); da = T.as_atom(d)
            if da is None or da.op != 'app' or sums.parse(da) is None or sums.parse(da)[0] != 'sum' or da.args[1] is not t: raise Uns('%s displacements are not running sums' % kind)
            j = sums.parse(da)[1]
            self.req('%s displacements add up the values of the members before' % kind, h, eq(sums.inst(j, t, da.args[2:]), ite(w.rel(kind, G), w.amount(kind, G), ZERO)))
            lemma = eq(sums.sumat(j, self.ng, da.args[2:]), size)
            self.r.assumptions.add('reindexing lemma: the amounts summed over the group list and over the table are equal, both list every partner once (lean/Group.lean)')
            ba = self.addr(buf); st = add(ba.idxs()[0], self.at(dis, t))
            self.soft('%s blocks fit %ssize' % (kind, kind), h + [lemma, w.rel(kind, G)], and_(le(ZERO, st), le(add(st, self.at(cnt, t)), size)))
            if T.cval(w.mf) == 1:
                if ba.region.length is None: self.need('internal %s buffer is allocated by setup' % f, False)
                else: self.req('internal %s buffer has the reported size' % f, S.pc, le(size, ba.region.length))
            else: self.need('caller %s buffer is used' % f, ba.region is w.regs['usend' if kind == 'send' else 'urecv'])
    def memory(self):
        w = self.w; S = w.S1; ex = w.ex
        memformula(self.r, w, S, self.nm, ex.read(S, ex.top(w.ss), 'int'), ex.read(S, ex.top(w.rs), 'int'), self.ng)
    def collectives(self):
        from .remapw import P2P
        P2P.collectives(self)
def a2a(r, dim, prec, mf, permute, parts):
    x = A2A(r, dim, prec, mf, permute)
    for p in parts:
        try: getattr(x, p)()
        except Uns as e: r.add('%s: %s' % (x.nm, p), 'undecided', str(e), 'executor')
def coll_tasks(tier, parts, dims=(3, 2), perms=None):
    out = []
    for dim in dims:
        for prec in ('double', 'single') if tier == 'thorough' else ('double',):
            for mf in (0, 1):
                for pm in range(dim) if perms is None or tier == 'thorough' else perms: out.append(('dv.coll', 'a2a', (dim, prec, mf, pm, parts), 'Remap%dd collective %s memoryflag=%d permute=%d' % (dim, prec, mf, pm)))
    return [('dv.lean', 'lean', (x,), 'lean/%s.lean' % x) for x in ('Group', 'Sums')] + out
ALL = ('safety', 'group', 'messages', 'order', 'kernels', 'sizes', 'memory', 'collectives')
