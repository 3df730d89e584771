"""Loops with stated invariants: established on entry, preserved by one arbitrary iteration, assumed at exit.

inv(view) -> list of (name, bound variable names, body) or (name, (), body); view gives the values of the
named cells in a state; a clause whose name starts with 'lemma' follows from the others by a trusted
lemma and is assumed only.  per: arguments of the unknowns (the process).  Everything the body writes must be named (frame)."""
from . import terms as T, smt
from .terms import *
from .sym import Uns, Base, W, Addr, Ptr, Dead, is_ptr, arr_of

def local_addr(ex, S, name):
    """address of the local variable or parameter of that name in the current function"""
    out = []
    for key, a in S.env.items():
        d = ex.prog.decl.get(key)
        if d is not None and d.get('name') == name and isinstance(a, Addr): out.append((key, a))
    if not out: return None
    return max(out, key=lambda x: x[1].region.id)[1]
def assigned(n, out=None):
    """names that a statement assigns (base name of subscripts and members)"""
    out = set() if out is None else out
    k = n.get('kind')
    def base(x):
        while x.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ArraySubscriptExpr', 'UnaryOperator', 'CStyleCastExpr') and x.get('inner'): x = x['inner'][0]
        if x.get('kind') == 'DeclRefExpr': out.add(x['referencedDecl'].get('name'))
        elif x.get('kind') == 'MemberExpr':
            i = x['inner'][0] if x.get('inner') else {}
            if i.get('kind') == 'CXXThisExpr': out.add(x['name'])
            else: base(i)
    if k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode', '').endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='): base(n['inner'][0])
    if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'): base(n['inner'][0])
    for x in n.get('inner', []): assigned(x, out)
    return out
def run(ex, S, n, parts, name, scalars, arrays, inv, variant=None, free=(), per=()):
    """scalars, arrays: {nm: cell}; free: cells that are scratch in the body"""
    cond, inc, body, isdo = parts
    if isdo:
        conts, exits = ex.iterate(S.copy(), inc, body)     # do B while (c)  =  B; while (c) B
        if exits or len(conts) != 1: raise Uns('early exit from a loop with a stated invariant')
        S = conts[0]
    rd = lambda st, k, i=ZERO: ex.cread(st, ex.content(st, k), (i,), 'int', k)
    def view(st):
        v = {nm: rd(st, k) for nm, k in scalars.items()}
        for nm, k in arrays.items(): v[nm] = (lambda k: (lambda i: rd(st, k, i)))(k)
        return v
    def goals(st, what):
        for nm, bs, body_ in inv(view(st)):
            if nm.startswith('lemma'): continue
            m = {b: T.fresh('sk') for b in bs}
            ex.oblige(st, 'inv', T.subst(body_, m) if m else body_, n, '%s: %s (%s)' % (name, nm, what))
    goals(S, 'entry')
    H = S.copy(); tag = T.fresh('hv'); tn = T.as_atom(tag).args[0].replace('!', '')
    for nm, k in scalars.items(): H.mem[k] = W(ex.base0(k), (ZERO,), T.app('%s.%s' % (nm, tn), per))
    for k in free:
        if is_ptr(ex.cellty(k)): raise Uns('pointer changed in a loop')
        H.mem[k] = W(ex.base0(k), (ZERO,), T.app('scratch.%s.%d.%s' % (tn, k[0], '.'.join(k[1])), per))
    for nm, k in arrays.items():
        b = Base(None, 'sym'); b.fn = (lambda nm: (lambda ix: T.app('%s.%s' % (nm, tn), per + ix[-1:])))(nm); H.mem[k] = b
    for nm, bs, body_ in inv(view(H)): H.assume(T.forall(tuple(bs), body_) if bs else body_)
    # one arbitrary iteration
    B = H.copy(); c = TRUE
    if cond is not None: c = ex.evalcond(B, cond, n)
    B.assume(c)
    v0 = variant(view(B)) if variant else None
    ok = smt.feasible(B.pc, 500)
    if ok:
        rid = max(ex.regions) if ex.regions else 0
        conts, exits = ex.iterate(B, inc, body)
        if exits: raise Uns('early exit from a loop with a stated invariant')
        allowed = set(scalars.values()) | set(arrays.values()) | set(free)
        for st in conts:
            for k, ct in st.mem.items():
                if k[0] > rid or k in allowed: continue
                h = H.mem.get(k)
                if ct is h or (h is None and isinstance(ct, Base)): continue
                raise Uns('%s: loop also writes %s.%s' % (name, ex.regions[k[0]].name if k[0] in ex.regions else k[0], '.'.join(k[1])))
            goals(st, 'preserved')
            if variant: ex.oblige(st, 'termination', and_(le(ZERO, v0), lt(variant(view(st)), v0)), n, name + ': variant decreases')
    X = H.copy()
    if cond is not None: X.assume(not_(ex.evalcond(X, cond, n)))
    return X

def peel(limit, ms=4000, keep=False):
    """a loop that ends after at most `limit` iterations on every path: executed iteration by iteration, each condition
    decided by the solver (both ways when both are possible); NotImplemented if some path goes on"""
    def spec(ex, S, n, parts):
        cond, inc, body, isdo = parts; mark = len(ex.obls); md = len(ex.deaths)
        live = [S.copy()]; done = []; ks = ex.keep_split; ex.keep_split = keep or ks
        try:
            for it in range(limit + 1):
                nxt = []
                for s in live:
                    go = [s]
                    if not (isdo and it == 0):
                        try: c = ex.evalcond(s, cond, n)
                        except Dead: continue
                        go = []; a, b = s.copy(), s.copy(); a.assume(c); b.assume(not_(c))
                        if c is not FALSE and smt.check(list(s.pc), not_(c), ms)[0] != 'proved': go = [a]
                        if c is not TRUE and smt.check(list(s.pc), c, ms)[0] != 'proved': done.append(('normal', b, None))
                    for g in go:
                        co, exs = ex.iterate(g, inc, body); nxt += co
                        done += [('normal', s2, None) if kd == 'break' else (kd, s2, v) for kd, s2, v in exs]
                live = nxt
                if not live: return done
        finally: ex.keep_split = ks
        del ex.obls[mark:]; del ex.deaths[md:]
        return NotImplemented
    return spec
# ---------------------------------------------------------------------------------------------------
# Invariants found among candidates (Houdini): a candidate survives if it holds on entry and is preserved
# by one arbitrary iteration that starts with all surviving candidates.  Candidates are stated over roles
# (the cells a loop changes), not over names in the source.
class Ctx:
    """cells a loop changes: scalars [(key, type)], arrays [(key, type)]"""
    def __init__(self, ex, entry, keys):
        self.ex = ex; self.entry = entry; self.scalars = []; self.arrays = []
        for k in sorted(keys, key=str):
            t = ex.cellty(k); r = ex.regions[k[0]]
            (self.scalars if r.length is ONE else self.arrays).append((k, t))
    def val(self, st, key, ix=ZERO): return self.ex.cread(st, self.ex.content(st, key), (ix,), self.ex.cellty(key), key)
    def ints(self): return [k for k, t in self.scalars if t in ('int', 'long', 'int64_t', 'unsigned int', 'long long', 'size_t', 'bigint')]
    def reals(self): return [k for k, t in self.scalars if t in ('double', 'float')]
def havoc(ex, S, keys):
    H = S.copy()
    for k in sorted(keys, key=str):
        t = ex.cellty(k); sort = 'R' if t in ('double', 'float') else 'I'
        if is_ptr(t) or t == 'fnptr': raise Uns('pointer changed in a loop')
        if ex.regions[k[0]].length is ONE: H.mem[k] = W(ex.base0(k), (ZERO,), T.fresh('hv', sort))
        else:
            b = Base(None, 'sym'); nm = T.as_atom(T.fresh('hva')).args[0]
            b.fn = (lambda nm, sort: (lambda ix: T.app(nm, ix, sort)))(nm, sort); H.mem[k] = b
    return H
def changed(ex, A, B, rid):
    out = set()
    for k, c in B.mem.items():
        if k[0] > rid or k[0] not in ex.regions: continue
        a = A.mem.get(k)
        if c is a or (a is None and isinstance(c, Base)): continue
        out.add(k)
    return out
class Hou:
    def __init__(self, gen, facts=None, ms=4000, prove=None): self.gen = gen; self.facts = facts or (lambda ts: []); self.discover = 0; self.ms = ms; self.kept = {}; self.pf = prove; self.stack = []
    def prove(self, pc, g):
        if g is TRUE or g in pc: return True
        if self.pf: return self.pf(pc, g, self.ms)
        return smt.proved(list(pc) + self.facts(list(pc) + [g]), g, self.ms)
    def __call__(self, ex, S, n, parts):
        cond, inc, body, isdo = parts
        mark = len(ex.obls); md = len(ex.deaths)
        r = ex.unroll(S.copy(), n, cond, inc, body, isdo)
        if r is not None: return r
        del ex.obls[mark:]; del ex.deaths[md:]
        return self.houdini(ex, S, n, parts)
    def body(self, ex, H, n, parts):
        cond, inc, body, isdo = parts
        B = H.copy()
        if not isdo:
            if cond is not None: B.assume(ex.evalcond(B, cond, n))
        rid = max(ex.regions) if ex.regions else 0
        conts, exits = ex.iterate(B, inc, body)
        return conts, exits
    def houdini(self, ex, S, n, parts):
        cond, inc, body, isdo = parts
        rid = max(ex.regions) if ex.regions else 0
        # 1. what the loop changes
        mod = set(); self.discover += 1; ex.dry += 1; d0 = len(ex.deaths)
        try:
            while True:
                H = havoc(ex, S, mod)
                conts, exits = self.body(ex, H, n, parts)
                new = set()
                for st in conts + [e[1] for e in exits]: new |= changed(ex, H, st, rid)
                if new <= mod: break
                mod |= new
        finally: self.discover -= 1; ex.dry -= 1
        def leave(H):
            out = []
            if isdo: raise Uns('do loop')
            X = H.copy()
            if cond is not None: X.assume(not_(ex.evalcond(X, cond, n)))
            out.append(('normal', X, None)); return out
        if self.discover:
            H = havoc(ex, S, mod)
            out = leave(H)
            conts, exits = self.body(ex, H, n, parts)
            return out + [(k if k != 'break' else 'normal', s, v) for k, s, v in exits]
        # 2. candidates true on entry
        ctx = Ctx(ex, S, mod)
        cands = []; seen = set()
        for c in self.gen(ctx, S):
            H = havoc(ex, S, mod); g = c[1](S)
            if self.prove(S.pc, g): cands.append(c)
        # 3. drop what is not preserved
        while True:
            H = havoc(ex, S, mod)
            for nm, f in cands: H.assume(f(H))
            ex.dry += 1; self.stack.append((ctx, S))
            try: conts, exits = self.body(ex, H, n, parts)
            finally: ex.dry -= 1; self.stack.pop()
            keep = [c for c in cands if all(self.prove(st.pc, c[1](st)) for st in conts)]
            if len(keep) == len(cands): break
            cands = keep
        self.kept[n.get('_line')] = [c[0] for c in cands]
        # 4. once more, generating the obligations
        for nm, f in cands: ex.oblige(S, 'inv', f(S), n, 'invariant on entry: ' + nm)
        H = havoc(ex, S, mod)
        for nm, f in cands: H.assume(f(H))
        self.stack.append((ctx, S))
        try: conts, exits = self.body(ex, H, n, parts)
        finally: self.stack.pop()
        for st in conts:
            for nm, f in cands: ex.oblige(st, 'inv', f(st), n, 'invariant preserved: ' + nm)
        return leave(H) + [(k if k != 'break' else 'normal', s, v) for k, s, v in exits]
