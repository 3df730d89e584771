"""Loops: concrete unrolling, case-split unrolling, and summarisation by inferred inductive
closed forms (each closed form is checked to be preserved by the body: value at k=0 is the entry
value and one symbolic execution of the body takes the form at k to the form at k+1)."""
from . import terms as T, smt
from .terms import (Num, Bool, ZERO, ONE, TRUE, FALSE, const, add, sub, mul, neg, eq, ne, le, lt, ge, gt,
                    and_, or_, not_, ite, implies)

class Simp(T.Subst):
    """rewriting under known truth values of boolean subterms"""
    def __init__(self, lits):
        super().__init__({}); self.lits = lits
    def _touches(self, t): return True
    def boo(self, b):
        v = self.lits.get(b.id)
        if v is not None: return TRUE if v else FALSE
        return super().boo(b)

def simp_val(sm, v):
    from .sym import Ptr, Fn, Addr, _mergecases
    if isinstance(v, (Num, Bool)): return sm(v)
    if isinstance(v, Ptr):
        return Ptr(_mergecases([(sm(g), simp_addr(sm, t)) for g, t in v.cases], True))
    if isinstance(v, Fn): return Fn(_mergecases([(sm(g), t) for g, t in v.cases], False))
    return v
def nulladdr(v):
    """(guard of null, address) of a pointer that is null or one address"""
    from .sym import Ptr, Addr
    if not isinstance(v, Ptr) or len(v.cases) != 2: return None
    nl = [g for g, t in v.cases if t is None]; ad = [(g, t) for g, t in v.cases if isinstance(t, Addr)]
    if len(nl) != 1 or len(ad) != 1 or not ad[0][1].steps or isinstance(ad[0][1].steps[-1], str): return None
    if not_(nl[0]) is not ad[0][0] and not_(ad[0][0]) is not nl[0]: return None
    return nl[0], ad[0][1]
def notnull(v, g0):
    """value of the pointer when g0 does not hold"""
    from .sym import Ptr
    if not isinstance(v, Ptr): return None
    v = simp_val(Simp({g0.id: False, not_(g0).id: True}), v)
    out = [(g, t) for g, t in v.cases if g is not FALSE]
    return Ptr(out) if out and all(t is not None for g, t in out) else None
def simp_addr(sm, t):
    from .sym import Addr
    if not isinstance(t, Addr): return t
    return Addr(t.region, tuple(s if isinstance(s, str) else sm(s) for s in t.steps), t.unit)
def simp_content(sm, c, cache):
    from .sym import W, IteC, Comp, cite
    r = cache.get(id(c))
    if r is not None: return r
    if isinstance(c, W):
        r = W(simp_content(sm, c.prev, cache), tuple(sm(i) for i in c.idxs), simp_val(sm, c.val))
    elif isinstance(c, IteC):
        g = sm(c.c)
        if g is TRUE: r = simp_content(sm, c.a, cache)
        elif g is FALSE: r = simp_content(sm, c.b, cache)
        else: r = cite(g, simp_content(sm, c.a, cache), simp_content(sm, c.b, cache))
    elif isinstance(c, Comp):
        r = Comp(simp_content(sm, c.prev, cache), c.binders, sm(c.dom), tuple(sm(i) for i in c.idxs), simp_val(sm, c.val), c.node)
    else: r = c
    cache[id(c)] = r
    return r
def simp_state(S, lits):
    sm = Simp(lits); cache = {}
    for k in list(S.mem): S.mem[k] = simp_content(sm, S.mem[k], cache)
    pc = []
    for x in S.pc:
        y = x if x.id in lits else sm(x)
        for z in (y.args if y.op == 'and' else (y,)):
            if z is not TRUE and z not in pc: pc.append(z)
    S.pc = tuple(pc)

def const_tree(n):
    """guards of an ite tree with constant leaves, or None"""
    if not isinstance(n, Num): return None
    if n._const is not None: return []
    if len(n.m) > 2: return None
    gs = []
    ok = False
    for mono, c in n.m:
        if mono == (): continue
        if len(mono) != 1 or mono[0][1] != 1: return None
        a = T.ATOM[mono[0][0]]
        if a.op == 'var' and isinstance(a.args[0], str) and a.args[0].startswith('uninit!'): ok = True; continue
        if a.op != 'ite': return None
        ok = True
        gs.append(a.args[0])
        for x in a.args[1:]:
            g = const_tree(x)
            if g is None: return None
            gs.extend(g)
    return gs if ok else None

HAVOC = ('K', 'N', 'hv', 'wtime', 'waitany', 'havoc')
class Info: pass

class LoopMixin:
    MAXUNROLL = 64
    def parts(self, n):
        k = n['kind']; i = n['inner']
        if k == 'ForStmt':
            return (i[0] if i[0].get('kind') else None, i[2] if i[2].get('kind') else None, i[3] if i[3].get('kind') else None, i[4], False)
        if k == 'WhileStmt':
            ch = [x for x in i if x.get('kind')]
            return None, ch[0], None, ch[1], False
        return None, i[1], None, i[0], True
    def loop(self, S, n):
        init, cond, inc, body, isdo = self.parts(n)
        if init is not None:
            outs = self.stmt(S, init)
            if len(outs) != 1: 
                if not outs: return []
                raise self.Uns_('loop initialiser')
            S = outs[0][1]
        spec = self.loop_specs.get(self.cur()) or self.loop_specs.get('*')
        if spec is not None:
            r = spec(self, S, n, (cond, inc, body, isdo))
            if r is not NotImplemented: return r
        return self.loop_go(S, n, cond, inc, body, isdo)
    def Uns_(self, m):
        from .sym import Uns
        return Uns(m)
    def evalcond(self, S, cond, n):
        if cond is None: return TRUE
        return self.truth(S, self.rval(S, cond), n)
    def loop_go(self, S, n, cond, inc, body, isdo):
        from .sym import Dead, Uns
        # 1. concrete unrolling
        mark = len(self.obls); md = len(self.deaths)
        r = self.unroll(S.copy(), n, cond, inc, body, isdo)
        if r is not None: return r
        del self.obls[mark:]; del self.deaths[md:]
        return self.summarise(S, n, cond, inc, body, isdo)
    def iterate(self, S, inc, body):
        """one body + increment: returns (continuing states, exits)"""
        cont = []; ex = []
        for kd, s, v in self.stmt(S, body):
            if kd in ('normal', 'continue'): cont.append(s)
            else: ex.append((kd, s, v))
        if len(cont) > 1 and not self.keep_split:
            a = cont[0]
            for b in cont[1:]: a = self.merge2(a, b)
            cont = [a]
        out = []
        for s in cont:
            if inc is not None:
                from .sym import Dead
                try: self.rval(s, inc)
                except Dead: continue
            out.append(s)
        return out, ex
    keep_split = False
    def unroll(self, S, n, cond, inc, body, isdo):
        """None if the trip count is not concrete on every path"""
        from .sym import Dead
        live = [S]; done = []
        for it in range(self.MAXUNROLL):
            nxt = []
            for s in live:
                if not (isdo and it == 0):
                    try: c = self.evalcond(s, cond, n)
                    except Dead: continue
                    d = self.decide(s, c)
                    if d is None:
                        cs = self.casesplit(s, cond, c)
                        if cs is None: return None
                        nxt.extend(cs); continue
                    if d is False: done.append(('normal', s, None)); continue
                    if cond is None and it > 60: return None
                co, ex = self.iterate(s, inc, body)
                nxt.extend(co)
                for kd, s2, v in ex: done.append(('normal', s2, None) if kd == 'break' else (kd, s2, v))
            live = nxt
            if not live: return done
        return None
    def casesplit(self, S, cond, c):
        """split the state on the guards of a constant-leaved bound"""
        if cond is None or cond['kind'] != 'BinaryOperator': return None
        S2 = S.copy(); self.dry += 1
        try:
            vs = [self.rval(S2, e) for e in cond['inner']]
        finally: self.dry -= 1
        gs = []
        for v in vs:
            g = const_tree(v)
            if g is None: return None
            gs.extend(g)
        gs = [g for g in gs if g.op not in ('true', 'false')]
        if not gs: return None
        g = gs[0]
        out = []
        for lit, val in ((g, True), (not_(g), False)):
            s = S.copy(); s.assume(lit)
            if smt.feasible(s.pc, 300):
                simp_state(s, {g.id: val, not_(g).id: not val})
                out.append(s)
        return out
    # ------------------------------------------------------------------ summarisation
    def summarise(self, S0, n, cond, inc, body, isdo, inv=None):
        from .sym import (Dead, Uns, Ptr, Fn, Addr, W, Comp, IteC, Base, Content, vite, Event, _rid, is_ptr, UNP)
        rid0 = _rid[0]
        k = T.fresh('k')
        site0 = T.SITE[0]; T.SITE[0] = n.get('id')
        try: return self.summarise2(S0, n, cond, inc, body, isdo, inv, rid0, k)
        finally: T.SITE[0] = site0
    def summarise2(self, S0, n, cond, inc, body, isdo, inv, rid0, k):
        from .sym import (Dead, Uns, Ptr, Fn, Addr, W, Comp, IteC, Base, Content, vite, Event, _rid, is_ptr, UNP)
        kname = T.as_atom(k).args[0]
        info = Info(); info.k = k; info.comps = {}; info.n = n
        mod = {}            # key -> 'scalar' set of idxs | 'array'
        forms = {}          # (key, idxs) -> function(k)-> value ; or 'dead'
        syms = {}           # (key, idxs) -> start symbol while unresolved
        class Start(Content):
            def __init__(s, key): s.key = key
        ex = self
        reads = set(); areads = set()
        def start_read(key, idxs, ty):
            cell = (key, idxs)
            if key in mod and mod[key] == 'array':
                areads.add(key)
                return ex.looppre(Scur[0], S0, info, key, idxs, ty)
            reads.add(cell)
            f = forms.get(cell)
            if f is not None and f != 'dead': return f(k)
            if cell not in mod.get(key, ()):      # not modified at this index
                return ex.cread(Scur[0], S0.mem.get(key) or ex.base0(key), idxs, ty, key)
            if cell not in syms:
                v0 = init_val(cell, ty)
                if isinstance(v0, Ptr):
                    a = v0.single()
                    if isinstance(a, Addr) and a.steps and not isinstance(a.steps[-1], str):
                        s = T.fresh('p'); syms[cell] = (Ptr([(TRUE, Addr(a.region, a.steps[:-1] + (s,), a.unit))]), s)
                    elif a == 'uninit': return UNP
                    elif nulladdr(v0) is not None:
                        g0, a = nulladdr(v0)
                        s = T.fresh('p'); syms[cell] = (Ptr([(g0, None), (not_(g0), Addr(a.region, a.steps[:-1] + (s,), a.unit))]), s)
                    else: raise Uns('pointer carried through a loop')
                elif isinstance(v0, Fn): raise Uns('function pointer carried through a loop')
                else:
                    s = T.fresh('v', v0.sort if ty not in ('float', 'double') else 'R'); syms[cell] = (s, s)
            return syms[cell][0]
        def init_val(cell, ty=None):
            key, idxs = cell
            return ex.cread(S0, S0.mem.get(key) or ex.base0(key), idxs, ty or ex.cellty(key), key)
        Scur = [None]
        Nres = T.fresh('N'); f0 = {b: T._fresh.get(b, 0) for b in HAVOC}; logs = []
        def havoc_names(v): return [x for x in (T.fun_names(v) if isinstance(v, (Num, Bool)) else ()) if isinstance(x, str) and x.split('!')[0] in HAVOC]
        bases = {}
        def start_state(extra_pc):
            S = S0.copy()
            for key in mod:
                b = bases.get(key)
                if b is None:
                    b = Base(None, 'start'); b.fn = (lambda key: (lambda idxs, ty=None: start_read(key, idxs, ty or ex.cellty(key))))(key); bases[key] = b
                S.mem[key] = b
            for e in extra_pc: S.assume(e)
            Scur[0] = S
            return S
        def run(dry, extra_pc):
            """execute cond, body, inc once from the start state; -> (cond, end state, exits)"""
            S = start_state(extra_pc); ev0 = len(S.events)
            for b in HAVOC: T._fresh[b] = f0[b]
            log0 = len(T.LOG)
            self.dry += dry
            try:
                c = TRUE
                if not isdo:
                    c = self.evalcond(S, cond, n); S.assume(c)
                co, exs = self.iterate(S, inc, body)
                if len(co) > 1:
                    a = co[0]
                    for b in co[1:]: a = self.merge2(a, b)
                    co = [a]
                end = co[0] if co else None
                if isdo and end is not None:
                    Scur[0] = end
                    c = self.evalcond(end, cond, n)
            finally: self.dry -= dry
            # unknowns of one iteration are functions of the iteration
            m = {}
            lg = [x for x in T.LOG[log0:]]
            if logs and logs[-1] != lg and forms and any(havoc_names(f(k)) for f in forms.values() if f != 'dead'): raise Uns('unknowns of a loop body are not stable')
            logs.append(lg)
            for b in HAVOC:
                for i in range(f0[b], T._fresh.get(b, 0)):
                    for srt in ('I', 'R'):
                        m['%s!%d' % (b, i)] = m.get('%s!%d' % (b, i)) or T.app('%s!%d' % (b, i), (k,), 'R' if b == 'wtime' else 'I')
            if m:
                sb = T.Subst(m); cache = {}
                for st in ([end] if end is not None else []) + [x for _, x, _ in exs]:
                    for key in list(st.mem):
                        if key in mod or key[0] > rid0 or st.mem[key] is not S0.mem.get(key): st.mem[key] = simp_content(sb, st.mem[key], cache)
                    st.pc = tuple(sb(x) for x in st.pc)
                    st.events = st.events[:ev0] + tuple(self.subst_event(e, m) for e in st.events[ev0:])
                c = sb(c)
                exs = [(kd, x, self.subst_val(v, m) if v is not None else None) for kd, x, v in exs]
            return c, end, exs, ev0
        basepc = [le(ZERO, k)]
        # --- modified cells
        for rnd in range(8):
            reads.clear()
            c, end, exs, ev0 = run(1, basepc)
            new = False
            for st in ([end] if end is not None else []) + [s for _, s, _ in exs]:
                for key, ct in st.mem.items():
                    if key[0] > rid0: continue
                    if key in mod and key in bases:
                        ws = self.delta(ct, bases[key])
                    else:
                        old = S0.mem.get(key)
                        if ct is old or (old is None and ct is self.base0(key)): continue
                        ws = self.delta(ct, old if old is not None else self.base0(key), loose=True)
                    if ws is None: raise Uns('loop effect on %s' % (key,))
                    for w in ws:
                        if w[0] == 'w' and all(T.cval(i) is not None for i in w[2]):
                            cell = (key, w[2])
                            if mod.get(key) == 'array': continue
                            if key not in mod: mod[key] = set(); new = True
                            if cell not in mod[key]: mod[key].add(cell); new = True
                        else:
                            if mod.get(key) != 'array': mod[key] = 'array'; new = True
            if not new: break
        else: raise Uns('loop effects do not stabilise')
        cells = [cl for key in mod if mod[key] != 'array' for cl in mod[key]]
        # --- closed forms
        def unresolved_names():
            return {T.as_atom(s[1]).args[0] for cl, s in syms.items() if cl not in forms}
        names_in = self.val_names
        last = (c, end, exs, ev0)      # run with the current mod and forms
        for rnd in range(12):
            if last is None:
                reads.clear(); last = run(1, basepc)
            c, end, exs, ev0 = last
            if end is None: break
            unres = unresolved_names()
            progress = False; needrun = False
            for cl in cells:
                if cl in forms and forms[cl] != 'dead': continue
                key, idxs = cl
                v1 = self.cread(end, end.mem.get(key), idxs, self.cellty(key), key)
                nm = names_in(v1)
                if cl not in reads and cl not in syms:
                    # value at the start of an iteration is never used
                    if cl not in forms and not (nm & unres): forms[cl] = 'dead'; progress = True
                    continue
                if cl in forms:
                    forms.pop(cl)
                f = self.closed_form(S0, k, cl, init_val(cl), v1, syms.get(cl), unres)
                if f is not None: forms[cl] = f; progress = True; needrun = True
            if not progress: break
            if needrun: last = None
            elif all(cl in forms for cl in cells): break
        left = [cl for cl in cells if cl not in forms]
        # --- arrays written: learn the comprehension shapes so that reads can be justified
        hv = {}
        for cl in left:
            hv[cl] = syms[cl][0] if cl in syms else None
        arrs = [key for key in mod if mod[key] == 'array']
        if arrs:
            if last is None: reads.clear(); last = run(1, basepc)
            if areads and last[1] is not None and not last[2]:       # the iterations are known before the array reads are judged
                self.dry += 1
                try: N0, nf0 = self.trip(S0.copy(), k, last[0], isdo, n, left, unresolved_names(), Nres)
                finally: self.dry -= 1
                if N0 is not Nres: basepc = [le(ZERO, k), lt(k, N0)]; last = None
            for rnd in range(3):
                if last is None: reads.clear(); self.early = False; last = run(1, basepc)
                c, end, exs, ev0 = last
                if end is None: break
                nc = {}
                for key in arrs:
                    nc[key] = self.delta(end.mem[key], bases[key])
                    if nc[key] is None: raise Uns('array effect of a loop')
                same = (info.comps and all(repr(nc[x]) == repr(info.comps.get(x)) for x in arrs)) or not areads
                info.comps = nc
                if same: break
                last = None
        if last is None: last = run(1, basepc)
        c, end, exs, ev0 = last
        # --- trip count
        info.left = left
        if end is None and not exs: 
            pass
        N, nfacts = self.trip(S0, k, c if end is not None or not isdo else TRUE, isdo, n, left, unresolved_names(), Nres)
        info.N = N
        dom = [le(ZERO, k), lt(k, N)] + nfacts['body']
        for f in nfacts['glob']: S0.assume(f)
        # --- break / return
        S0n = len(S0.events)
        c, end, exs, ev0 = run(0, dom)
        if exs: return self.search_exit(S0, n, k, N, c, end, exs, ev0, forms, mod, cells, left, hv, info, bases, nfacts, init_val, start_state, isdo, cond, inc, body, run, dom)
        S1 = S0.copy()
        self.loop_post(S1, S0, k, N, N, end, forms, mod, cells, left, info, bases, init_val, dom)
        if end is not None and len(end.events) > ev0:
            self.event(S1, 'loop', (k, N, and_(*dom)), n, sub=end.events[ev0:])
        return [('normal', S1, None)]
    def loop_post(self, S1, S0, k, K, N, end, forms, mod, cells, left, info, bases, init_val, dom):
        """state after K complete iterations"""
        from .sym import W, Comp, vite, Ptr, Fn, Uns, Addr, UNP
        kn = T.as_atom(k).args[0]
        km1 = {kn: sub(K, ONE)}
        for cl in cells:
            key, idxs = cl
            ct = self.cell_base(S1, S0, key)
            f = forms.get(cl)
            if cl in left:
                v0 = init_val(cl)
                if isinstance(v0, (Ptr, Fn)): v = UNP
                else:
                    v = T.fresh('hv', v0.sort)
            elif f == 'dead':
                if end is None: continue
                v1 = self.cread(end, end.mem.get(key), idxs, self.cellty(key), key)
                v1 = self.subst_val(v1, km1)
                pos = gt(K, ZERO)
                d = self.decide_smt(S1, pos)
                if d is True: v = v1
                else:
                    v0 = init_val(cl)
                    v = vite(pos, v1, v0)
            else: v = f(K)
            c0 = S1.mem.get(key)
            if c0 is None: c0 = self.base0(key)
            if isinstance(c0, W) and c0.idxs == idxs: c0 = c0.prev
            S1.mem[key] = W(c0, idxs, v)
        for key in mod:
            if mod[key] != 'array' or end is None: continue
            ws = self.delta(end.mem[key], bases[key])
            if ws is None: raise Uns('array effect of a loop')
            c0 = S1.mem.get(key)
            if c0 is None: c0 = self.base0(key)
            d2 = [x if x is not lt(k, N) else lt(k, K) for x in dom]
            for w in ws:
                if w[0] == 'w':
                    c0 = Comp(c0, [k], and_(w[1], *d2), w[2], w[3], info.n)
                else:
                    c0 = Comp(c0, list(w[4]) + [k], and_(w[1], *d2), w[2], w[3], w[5])
            S1.mem[key] = c0
    def val_names(self, v):
        from .sym import Ptr, Addr
        if isinstance(v, (Num, Bool)): return T.var_names(v)
        out = set()
        if isinstance(v, (Ptr,)):
            for g, t in v.cases:
                out |= T.var_names(g)
                if isinstance(t, Addr):
                    for s in t.steps:
                        if not isinstance(s, str): out |= T.var_names(s)
        return out
    def cell_base(self, S1, S0, key): return S1.mem.get(key)
    def subst_val(self, v, m):
        from .sym import Ptr, Addr, Fn, _mergecases
        if isinstance(v, (Num, Bool)): return T.subst(v, m)
        if isinstance(v, Ptr):
            return Ptr(_mergecases([(T.subst(g, m), Addr(t.region, tuple(s if isinstance(s, str) else T.subst(s, m) for s in t.steps), t.unit) if isinstance(t, Addr) else t) for g, t in v.cases], True))
        if isinstance(v, Fn): return Fn(_mergecases([(T.subst(g, m), t) for g, t in v.cases], False))
        return v
    def cellty(self, key):
        r = self.regions.get(key[0])
        if r is None: return 'int'
        if key[1] == ('#alive',): return 'int'
        t = r.elem or 'char'
        for f in key[1]:
            from .sym import arr_of
            a = arr_of(t)
            if a: t = a[0]
            t = dict(self.prog.fields(t)).get(f, 'int')
        from .sym import arr_of
        u, kk = self.flat(t)
        if kk != 1: t = u
        a = arr_of(t)
        while a: t = a[0]; a = arr_of(t)
        return t
    def delta(self, c, start, loose=False):
        """writes between start and c: [('w',guard,idxs,val) | ('c',guard,idxs,val,binders,node)]"""
        from .sym import W, Comp, IteC, Base
        out = []
        def go(c, g):
            if c is start: return True
            if isinstance(c, W):
                if loose and isinstance(start, W) and c.prev is start.prev and c.idxs == start.idxs:
                    out.append(('w', g, c.idxs, c.val)); return True
                if not go(c.prev, g): return False
                out.append(('w', g, c.idxs, c.val)); return True
            if isinstance(c, Comp):
                if not go(c.prev, g): return False
                out.append(('c', and_(g, c.dom), c.idxs, c.val, c.binders, c.node)); return True
            if isinstance(c, IteC):
                # common tail: find shared suffix
                n0 = len(out)
                if not go(c.a, and_(g, c.c)): return False
                return go(c.b, and_(g, not_(c.c)))
            if loose and isinstance(c, Base): return isinstance(start, W) or c is start
            return False
        if not go(c, TRUE): return None
        return out
    # ------------------------------------------------------------------ closed forms
    def closed_form(self, S0, k, cl, v0, v1, sym, unres):
        from .sym import Ptr, Addr, Fn
        if sym is None:
            kn = T.as_atom(k).args[0]
            if isinstance(v1, Num) and not (T.var_names(v1) & unres):
                return lambda kk: ite(eq(kk, ZERO), v0, T.subst(v1, {kn: sub(kk, ONE)}))
            if isinstance(v1, Ptr) and not (self.val_names(v1) & unres):
                from .sym import vite
                return lambda kk: vite(eq(kk, ZERO), v0, self.subst_val(v1, {kn: sub(kk, ONE)}))
            return None
        val, s = sym
        sn = T.as_atom(s).args[0]
        if isinstance(val, Ptr):
            na = nulladdr(v0)
            if na is not None:
                # null or an address, decided before the loop: the address part is advanced, null stays null
                g0, a0 = na; w = notnull(v1, g0)
                if w is None: return None
                f = self.closed_form(S0, k, cl, Ptr([(TRUE, a0)]), w, (Ptr([(TRUE, Addr(a0.region, a0.steps[:-1] + (s,), a0.unit))]), s), unres)
                if f is None: return None
                return lambda kk: Ptr([(g0, None), (not_(g0), f(kk).cases[0][1])])
            a0 = v0.single(); a1 = v1.single() if isinstance(v1, Ptr) else None
            if not isinstance(a1, Addr) or a1.region is not a0.region or a1.path() != a0.path() or a1.steps[:-1] != a0.steps[:-1]: return None
            f = self.num_form(S0, k, a0.steps[-1], a1.steps[-1], s, sn, unres)
            if f is None: return None
            return lambda kk: Ptr([(TRUE, Addr(a0.region, a0.steps[:-1] + (f(kk),), a0.unit))])
        if not isinstance(v1, Num) or not isinstance(v0, Num): return None
        return self.num_form(S0, k, v0, v1, s, sn, unres)
    def num_form(self, S0, k, v0, v1, s, sn, unres):
        kn = T.as_atom(k).args[0]
        others = unres - {sn}
        vn = T.var_names(v1)
        if v1 is s: return lambda kk: v0
        if not (vn & unres):
            # overwritten every iteration
            if T.subst(v1, {kn: ZERO}) is v1 and v1 is v0: return lambda kk: v0
            return lambda kk: (T.subst(v1, {kn: sub(kk, ONE)}) if self.pos(kk) else ite(eq(kk, ZERO), v0, T.subst(v1, {kn: sub(kk, ONE)})))
        if vn & others: return None
        d = sub(v1, s)
        if sn not in T.var_names(d):
            if kn not in T.var_names(d): return lambda kk: add(v0, mul(kk, d))
            return self.sum_form(k, kn, v0, d)
        # guarded accumulation: ite(P, s + d, s) etc.
        g = self.pull(v1, s, sn)
        if g is not None and sn not in T.var_names(g):
            if kn not in T.var_names(g): return lambda kk: add(v0, mul(kk, g))
            return self.sum_form(k, kn, v0, g)
        m = self.max_form(v1, s, sn)
        if m is not None:
            fid, params = self.define('max', k, kn, m)
            return lambda kk: T.app('max!%d' % fid, (kk, v0) + params, v0.sort if v0.sort == 'R' or m.sort == 'R' else 'I')
        w = self.wrap_form(S0, v0, v1, s, sn)
        if w is not None:
            return lambda kk: T.cmod(add(v0, kk), w)
        return None
    def pos(self, kk): return kk._const is not None and kk._const > 0
    def pull(self, v, s, sn):
        """v == s + result, looking through ite"""
        d = sub(v, s)
        if sn not in T.var_names(d): return d
        # v = sum with ite atoms that contain s: only handle a single ite
        a = T._as_ite(v)
        if a is None: return None
        if sn in T.var_names(a.args[0]): return None
        x = self.pull(a.args[1], s, sn); y = self.pull(a.args[2], s, sn)
        if x is None or y is None: return None
        return ite(a.args[0], x, y)
    def max_form(self, v, s, sn):
        a = T._as_ite(v)
        if a is None: return None
        c, x, y = a.args
        if x is s: g = y
        elif y is s: g = x
        else: return None
        if sn in T.var_names(g): return None
        if v is T.tmax(s, g) or v is T.tmax(g, s): return g
        # same by solver
        if smt.proved([], eq(v, T.tmax(s, g)), 500): return g
        return None
    def wrap_form(self, S0, v0, v1, s, sn):
        """N if v1 is the cyclic successor of s modulo N"""
        cand = None
        at = T.as_atom(v1)
        if at is not None and at.op == 'cmod' and at.args[0] is add(s, ONE): cand = at.args[1]
        a = T._as_ite(v1)
        if a is not None:
            c, x, y = a.args
            if x is not ZERO and y is ZERO: c, x, y = not_(c), y, x
            if x is ZERO and y is add(s, ONE):
                lits = [c] if c.op != 'and' else list(c.args)
                p = None
                if c.op == 'eq0': p = c.args[0]
                elif c.op == 'not' and c.args[0].op == 'eq0': return None
                elif c.op == 'le0': p = c.args[0]
                if p is not None:
                    # p linear in s with coefficient +-1
                    q = sub(p, s)
                    if sn not in T.var_names(q): cand = sub(ONE, q)
                    else:
                        q = add(p, s)
                        if sn not in T.var_names(q): cand = add(q, ONE)
        if cand is None or sn in T.var_names(cand): return None
        # check: 0<=s<N -> v1 == (s+1) mod N, and 0<=v0<N
        hyp = [le(ZERO, s), lt(s, cand)]
        if not smt.proved(list(S0.pc) + hyp, and_(eq(v1, ite(eq(add(s, ONE), cand), ZERO, add(s, ONE)))), 1000): return None
        if not smt.proved(S0.pc, and_(le(ZERO, v0), lt(v0, cand)), 1000): return None
        return cand
    def define(self, kind, k, kn, d):
        from . import sums
        i, params = sums.define(kind, kn, d)
        self.sumdefs[i] = sums.DEFS[i]
        return i, params
    def sum_form(self, k, kn, v0, d):
        # polynomial in k of degree 1 with even coefficient, else uninterpreted sum
        fid, params = self.define('sum', k, kn, d)
        return lambda kk: add(v0, T.app('sum!%d' % fid, (kk,) + params, d.sort)) if kk is not ZERO else v0
    # ------------------------------------------------------------------ trip count
    def trip(self, S0, k, c, isdo, n, left, unres, Nres):
        """number of executed iterations"""
        kn = T.as_atom(k).args[0]
        facts = {'glob': [], 'body': []}
        off = ONE if isdo else ZERO
        def nonneg(q):
            if self.decide_smt(S0, le(ZERO, q)) is True: return q
            return T.tmax(ZERO, q)
        if c is FALSE: return off, facts
        if c.op == 'and' and not (T.var_names(c) & unres):
            qs = []
            for x in c.args:
                if kn not in T.var_names(x):
                    if self.decide_smt(S0, x) is True: continue
                    qs.append(('c', x)); continue
                q = None
                if x.op == 'le0':
                    a, b = self.linear(x.args[0], k, kn)
                    if a is ONE: q = sub(ONE, b)
                    elif a is not None and self.decide_smt(S0, gt(a, ZERO)) is True:
                        t = sub(ONE, b); q = T.polydiv(t, a)
                        if q is not None and q.sort != 'I': q = None
                if q is None: qs = None; break
                qs.append(('q', q))
            if qs and any(t == 'q' for t, _ in qs):
                m = None
                for t, q in qs:
                    if t == 'q': m = q if m is None else T.tmin(m, q)
                m = nonneg(m)
                for t, x in qs:
                    if t == 'c': m = ite(x, m, ZERO)
                return add(off, m), facts
        if not (T.var_names(c) & unres):
            if c.op == 'le0':
                p = c.args[0]
                a, b = self.linear(p, k, kn)
                if a is not None and self.decide_smt(S0, gt(a, ZERO)) is True:
                    if a is ONE: q = sub(ONE, b)
                    else:
                        # a*k <= -b   <=>  a*k < 1-b ; exact when 1-b is a multiple of a
                        t = sub(ONE, b)
                        q = T.polydiv(t, a)
                        if q is None or q.sort != 'I':
                            q = T.cdiv(add(t, sub(a, ONE)), a)       # ceil for t>=0
                            if self.decide_smt(S0, le(ZERO, t)) is not True: q = ite(le(ZERO, t), q, ZERO)
                    return add(off, nonneg(q)), facts
            if c.op == 'not' and c.args[0].op == 'eq0':
                p = c.args[0].args[0]
                a, b = self.linear(p, k, kn)
                if a is not None:
                    q = T.polydiv(neg(b), a)
                    if q is not None and q.sort == 'I':
                        if self.decide_smt(S0, le(ZERO, q)) is not True:
                            self.oblige(S0, 'termination', le(ZERO, q), n, 'loop counter reaches its bound')
                        if self.decide_smt(S0, ne(a, ZERO)) is not True:
                            self.oblige(S0, 'termination', ne(a, ZERO), n, 'loop step is not zero')
                        return add(off, q), facts
        N = Nres
        facts['glob'] += [le(off, N)]
        if not (T.var_names(c) & unres):
            facts['glob'] += [not_(T.subst(c, {kn: sub(N, off)})), implies(gt(N, off), T.subst(c, {kn: sub(sub(N, off), ONE)}))]
        if not self.dry: self.assumptions.add('loop at %s assumed to terminate' % self.loc(n))
        return N, facts
    def linear(self, p, k, kn):
        """p = a*k + b"""
        ka = T.as_atom(k).id
        A = {}; B = {}
        for mono, c in p.m:
            d = dict(mono); e = d.pop(ka, 0)
            m = tuple(sorted(d.items()))
            if e == 0: B[m] = c
            elif e == 1: A[m] = c
            else: return None, None
        a = T._num(A); b = T._num(B)
        if kn in T.var_names(a) or kn in T.var_names(b) or a is ZERO: return None, None
        return a, b
    # ------------------------------------------------------------------ array reads
    def looppre(self, S, S0, info, key, idxs, ty):
        """read of an array that the loop writes, at the start of iteration k"""
        from .sym import Uns
        ws = info.comps.get(key)
        if ws is None:
            return T.app('early!%d' % key[0], tuple(idxs), 'R' if ty in ('float', 'double') else 'I') if not ty.endswith('*') and ty != 'fnptr' else (_ for _ in ()).throw(Uns('pointer array written in a loop'))
        kn = T.as_atom(info.k).args[0]
        for w in ws:
            k2 = T.fresh('kp')
            m = {kn: k2}
            bs = []
            if w[0] == 'c':
                for b in w[4]:
                    f = T.fresh('bp'); m[T.as_atom(b).args[0]] = f
            g = T.subst(w[1], m); ix = [T.subst(i, m) for i in w[2]]
            hyp = list(S.pc) + [le(ZERO, k2), lt(k2, info.k), g]
            if not smt.proved(hyp, or_(*[ne(a, b) for a, b in zip(ix, idxs)]), 2000):
                # value written earlier and not moved on: opaque
                r = self.hooks.get('looppre')
                if r:
                    v = r(self, S, S0, info, key, idxs, ty, w)
                    if v is not None: return v
                raise Uns('read of an element that an earlier iteration may have written')
        return self.cread(S, S0.mem.get(key) or self.base0(key), idxs, ty, key)
    def looppre_read(self, S, c, idxs, ty, key): raise self.Uns_('looppre')
    def comp_read(self, S, c, idxs, ty, key):
        """read after a comprehension: solve for the binders"""
        from .sym import Uns, vite
        sol = self.solve(c, idxs)
        if sol is None:
            h = self.hooks.get('comp_read')
            if h:
                v = h(self, S, c, idxs, ty, key)
                if v is not None: return v
            v = self.sel_read(S, c, idxs, ty, key)
            if v is not None: return v
            # provably outside?
            m = {}
            for b in c.binders: m[T.as_atom(b).args[0]] = T.fresh('bq')
            g = T.subst(c.dom, m); ix = [T.subst(i, m) for i in c.idxs]
            if smt.proved(list(S.pc) + [g], or_(*[ne(a, b) for a, b in zip(ix, idxs)]), 2000):
                return self.cread(S, c.prev, idxs, ty, key)
            raise Uns('read through a comprehension')
        dom = T.subst(c.dom, sol); side = and_(*[eq(T.subst(i, sol), j) for i, j in zip(c.idxs, idxs)])
        cnd = and_(dom, side)
        d = self.decide_smt(S, cnd)
        v = self.subst_val(c.val, sol)
        if d is True: return v
        r = self.cread(S, c.prev, idxs, ty, key)
        if d is False: return r
        return vite(cnd, v, r)
    def sel_read(self, S, c, idxs, ty, key):
        """array filled at a counter that counts the iterations that write: a[cnt(k)] = v(k)"""
        from . import sums
        from .sym import vite
        if len(c.binders) != 1 or len(idxs) != 1: return None
        b = c.binders[0]; bn = T.as_atom(b).args[0]
        at = None
        for a in T.atoms_of(c.idxs[0]):
            if a.op == 'app' and a.args[1] is b and (sums.parse(a) or (0,))[0] == 'sum': at = a
        if at is None: return None
        off = sub(c.idxs[0], T.of_atom(at))
        if bn in T.var_names(off): return None
        i = sums.parse(at)[1]; ps = at.args[2:]
        cnd = sums.indicator(sums.inst(i, b, ps))
        if cnd is None: return None
        # the loop writes exactly in the counted iterations of 0 <= b < n
        doms = list(c.dom.args) if c.dom.op == 'and' else [c.dom]
        n = None
        for x in doms:
            if x.op == 'le0':
                a1, r1 = self.linear(x.args[0], b, bn)
                if a1 is ONE: n = sub(ONE, r1)
        if n is None or bn in T.var_names(n): return None
        rng = and_(le(ZERO, b), lt(b, n))
        if not (smt.proved([rng, cnd], c.dom, 2000) and smt.proved([c.dom], and_(rng, cnd), 2000)): return None
        j = sub(idxs[0], off)
        se = sums.sel(i, j, n, ps)
        hit = and_(le(ZERO, j), lt(j, sums.sumat(i, n, ps)))
        d = self.decide_smt(S, hit)
        v = self.subst_val(c.val, {bn: se})
        if d is True: return v
        r = self.cread(S, c.prev, idxs, ty, key)
        if d is False: return r
        return vite(hit, v, r)
    def solve(self, c, idxs):
        """unique binder values with c.idxs == idxs (unit coefficients only)"""
        sol = {}
        rest = list(c.binders)
        eqs = [(i, j) for i, j in zip(c.idxs, idxs)]
        for b in list(rest):
            bn = T.as_atom(b).args[0]
            for i, j in eqs:
                i2 = T.subst(i, sol)
                a, r = self.linear(i2, b, bn)
                if a is not None and abs(T.cval(a) or 0) == 1 and not any(T.as_atom(x).args[0] in T.var_names(r) for x in rest if x is not b):
                    v = sub(j, r) if T.cval(a) == 1 else sub(r, j)
                    sol[bn] = v; rest.remove(b); break
                ca = T.cval(a) if a is not None else None
                if ca and not any(T.as_atom(x).args[0] in T.var_names(r) for x in rest if x is not b):
                    d = sub(j, r); q = T._num({m: c_ // ca for m, c_ in d.m}) if all((c_ % ca) == 0 for _, c_ in d.m) else None      # exact quotient
                    if q is not None: sol[bn] = q; rest.remove(b); break
        return sol if not rest else None
    # ------------------------------------------------------------------ early exits
    def search_exit(self, S0, n, k, N, c, end, exs, ev0, forms, mod, cells, left, hv, info, bases, nfacts, init_val, start_state, isdo, cond, inc, body, run, dom):
        """loops left by break or return: exit index K"""
        from .sym import Uns, Event
        kn = T.as_atom(k).args[0]
        if end is None and False: raise Uns('loop')
        K = T.fresh('K')
        outs = []
        # normal exit: all N iterations completed, none of them left early
        ks = T.fresh('ke')
        leave = or_(*[and_(*s.pc[len(S0.pc):]) for _, s, _ in exs])
        quiet = ('forall', k, and_(*dom), leave)       # for all k in dom: not leave
        S1 = S0.copy()
        self.loop_post(S1, S0, k, N, N, end, forms, mod, cells, left, info, bases, init_val, dom)
        S1.assume(T.bapp('noexit', (K,)))
        self.qfacts.append({'name': T.as_atom(K).args[0], 'kind': 'none', 'k': k, 'N': N, 'leave': leave, 'dom': dom})
        if end is not None and len(end.events) > ev0:
            self.event(S1, 'loop', (k, N, and_(*dom)), n, sub=end.events[ev0:])
        outs.append(('normal', S1, None))
        # early exits at iteration K: complete iterations before, then the partial one
        for kd, s, v in exs:
            S2 = S0.copy()
            S2.assume(le(ZERO, K)); S2.assume(lt(K, N)); S2.assume(not_(T.bapp('noexit', (K,))))
            self.loop_post(S2, S0, k, K, N, end, forms, mod, cells, left, info, bases, init_val, dom) if end is not None else None
            m = {kn: K}
            for p in s.pc[len(S0.pc):]: S2.assume(T.subst(p, m))
            # effects of the partial iteration
            for key in mod:
                ws = self.delta(s.mem[key], bases[key]) if key in s.mem else []
                if ws is None: raise Uns('effect of an early exit')
                for w in ws:
                    if w[0] != 'w': raise Uns('effect of an early exit')
                    from .sym import W
                    ix = tuple(T.subst(i, m) for i in w[2]); val = self.subst_val(w[3], m); g = T.subst(w[1], m)
                    c0 = S2.mem.get(key) or self.base0(key)
                    if g is not TRUE and self.decide_smt(S2, g) is not True:
                        from .sym import vite
                        val = vite(g, val, self.cread(S2, c0, ix, self.cellty(key), key))
                    if isinstance(c0, W) and c0.idxs == ix: c0 = c0.prev
                    S2.mem[key] = W(c0, ix, val)
            if end is not None and len(end.events) > ev0:
                d2 = [x if x is not lt(k, N) else lt(k, K) for x in dom]
                self.event(S2, 'loop', (k, K, and_(*d2)), n, sub=end.events[ev0:])
            if len(s.events) > ev0:
                for e in s.events[ev0:]:
                    S2.events = S2.events + (self.subst_event(e, m),)
            for key in s.mem:
                if key not in S2.mem and key not in mod: S2.mem[key] = s.mem[key]
            vv = self.subst_val(v, m) if v is not None else None
            outs.append(('normal' if kd == 'break' else kd, S2, vv))
        return outs
    def subst_event(self, e, m):
        from .sym import Event
        return Event(e.kind, tuple(self.subst_any(a, m) for a in e.args), tuple(T.subst(p, m) for p in e.pc), e.node,
                     tuple(self.subst_event(x, m) for x in e.sub) if e.sub else None)
    def subst_any(self, a, m):
        from .sym import Ptr, Fn, Addr
        if isinstance(a, (Num, Bool, Ptr, Fn)): return self.subst_val(a, m)
        if isinstance(a, Addr): return Addr(a.region, tuple(s if isinstance(s, str) else T.subst(s, m) for s in a.steps), a.unit)
        if isinstance(a, tuple): return tuple(self.subst_any(x, m) for x in a)
        return a
