"""Sums, counts, maxima and selections that loop summaries introduce, and their (true) axioms.

sum!i(k, params)  = sum of term_i(κ, params) over 0 <= κ < k
max!i(k, v0, params) = max(v0, term_i(κ) for 0 <= κ < k)
sel!i(j, n, params)  = the κ with term_i(κ)=1 (term_i a 0/1 indicator) that has exactly j
                       indicator-true predecessors; exists for 0 <= j < sum!i(n)"""
from . import terms as T
from .terms import *
HYPS = [le(ONE, T.var('nqty')), le(ONE, T.var('P')), le(ZERO, T.var('me')), lt(T.var('me'), T.var('P'))]      # facts under which the axioms are stated (preconditions of every contract that uses them)
HINTS = []      # index terms at which maxima are instantiated
DEFS = {}        # id -> {'key','kind','term','params','ind','nonneg'}
def define(kind, kn, d):
    """lambda-lifted definition accumulating d over its variable kn"""
    names = sorted(x for x in T.free_vars(d) if x[0] == 'v' and x[1] != kn)
    params = tuple(T.var(x[1], x[2]) if x[2] != 'B' else T.bvar(x[1]) for x in names)
    t = T.subst(d, {kn: T.var('κ')}); key = (kind, t.id)
    for i, v in DEFS.items():
        if v['key'] == key: return i, params
    # the same sum in other words
    pn = [x[1] for x in names]
    from . import smt
    for i, v in DEFS.items():
        if v['key'][0] == kind and v['params'] == pn and v['term'].sort == t.sort and smt.proved(HYPS + [le(ZERO, T.var('κ'))], eq(v['term'], t), 1500): return i, params
    i = len(DEFS) + 1
    DEFS[i] = {'key': key, 'kind': kind, 'term': t, 'params': [x[1] for x in names], 'ind': indicator(t), 'nonneg': nonneg(t)}
    return i, params
def indicator(t):
    """the condition if t is 0/1 valued, else None"""
    if t is ONE: return TRUE
    a = T._as_ite(t)
    if a is not None:
        x, y = indicator_c(a.args[1]), indicator_c(a.args[2])
        if x is not None and y is not None: return T.bite(a.args[0], x, y)
    return None
def indicator_c(t):
    if t is ONE: return TRUE
    if t is ZERO: return FALSE
    return indicator(t)
def nonneg(t):
    if nonneg0(t): return True
    from . import smt
    return smt.proved(HYPS, le(ZERO, t), 3000)
def nonneg0(t):
    if t._const is not None: return t._const >= 0
    a = T._as_ite(t)
    if a is not None: return nonneg0(a.args[1]) and nonneg0(a.args[2])
    return False
def inst(i, k, actual):
    d = DEFS[i]; m = dict(zip(d['params'], actual)); m['κ'] = k
    return T.subst(d['term'], m)
def sumat(i, k, actual): return T.app('sum!%d' % i, (k,) + tuple(actual), DEFS[i]['term'].sort) if k is not ZERO else ZERO
def sel(i, j, n, actual): return T.app('sel!%d' % i, (j, n) + tuple(actual))
def parse(a):
    nm = a.args[0]
    if isinstance(nm, str) and nm[:4] in ('sum!', 'max!', 'sel!') and nm[4:].isdigit() and int(nm[4:]) in DEFS: return nm[:3], int(nm[4:])
    return None
def sel_axiom(a):
    _, i = parse(a); j, n = a.args[1], a.args[2]; ps = a.args[3:]; me = T.of_atom(a)
    c = indicator(inst(i, me, ps))
    return [implies(and_(le(ZERO, j), lt(j, sumat(i, n, ps))), and_(le(ZERO, me), lt(me, n), c if c is not None else TRUE, eq(sumat(i, me, ps), j)))]
_same = {}
def same_below_P(i, j):
    """do the summands of two definitions agree on 0 <= κ < P?"""
    if i > j: i, j = j, i
    if (i, j) not in _same:
        a, b = DEFS[i], DEFS[j]; kp = T.var('κ')
        from . import smt
        _same[(i, j)] = (a['kind'] == b['kind'] == 'sum' and a['params'] == b['params'] and a['term'].sort == b['term'].sort
                         and 'P' in a['params'] and smt.proved(HYPS + [le(ZERO, kp), lt(kp, T.var('P'))], eq(a['term'], b['term']), 2000))
    return _same[(i, j)]
def alias(atoms, done):
    out = []; ids = sorted({parse(a)[1] for a in atoms if parse(a) and parse(a)[0] in ('sum', 'sel')})
    if len(ids) < 2: return out
    for a in atoms:
        p = parse(a)
        if p is None or p[0] == 'max': continue
        for j in ids:
            if j <= p[1]: continue
            if (a.id, 'al', j) in done or not same_below_P(p[1], j): continue
            done.add((a.id, 'al', j))
            bound = a.args[1] if p[0] == 'sum' else a.args[2]
            out.append(implies(and_(le(ZERO, bound), le(bound, T.var('P'))), eq(T.of_atom(a), T.app('%s!%d' % (p[0], j), a.args[1:]))))
    return out
def axioms(atoms, done, idx=()):
    """axioms for app atoms; done: set of handled keys"""
    out = alias(atoms, done); groups = {}
    for a in atoms:
        p = parse(a)
        if p is None: continue
        if p[0] == 'sel':
            if a.id in done: continue
            done.add(a.id); out += sel_axiom(a)
        elif p[0] == 'sum': groups.setdefault((p[1], a.args[2:]), []).append(a)
        elif p[0] == 'max':
            if a.id in done: continue
            done.add(a.id); out.append(le(a.args[2], T.of_atom(a)))
            out.append(implies(eq(a.args[1], ZERO), eq(T.of_atom(a), a.args[2])))
            for h in list(idx) + HINTS: out.append(implies(and_(le(ZERO, h), lt(h, a.args[1])), le(inst(p[1], h, a.args[3:]), T.of_atom(a))))
    for (i, ps), as_ in groups.items():
        d = DEFS[i]; ind = d['ind'] is not None; nn = ind or d['nonneg']
        for a in as_:
            k = a.args[1]; s = T.of_atom(a)
            if a.id not in done:
                done.add(a.id)
                out.append(implies(eq(k, ZERO), eq(s, ZERO)))
                if ind: out.append(implies(le(ZERO, k), and_(le(ZERO, s), le(s, k))))
                elif nn: out.append(implies(le(ZERO, k), le(ZERO, s)))
                if nn: out.append(implies(le(ONE, k), le(inst(i, sub(k, ONE), ps), s)))
            if nn:
                for h in list(idx) + HINTS:
                    if (a.id, 'h', h.id) in done: continue
                    done.add((a.id, 'h', h.id)); out.append(implies(and_(le(ZERO, h), lt(h, k)), le(inst(i, h, ps), s)))
            for b in as_:
                if a is b or (a.id, b.id) in done: continue
                done.add((a.id, b.id))
                k2 = b.args[1]; s2 = T.of_atom(b)
                if k is k2: continue
                if T.cval(sub(k2, k)) is not None and T.cval(sub(k2, k)) < 0: continue
                t = inst(i, k, ps)
                out.append(implies(and_(le(ZERO, k), eq(k2, add(k, ONE))), eq(s2, add(s, t))))
                if nn:
                    out.append(implies(and_(le(ZERO, k), lt(k, k2)), le(add(s, t), s2)))
                    t2 = inst(i, sub(k2, ONE), ps)
                    out.append(implies(and_(le(ZERO, k), lt(add(k, ONE), k2)), le(add(s, t, t2), s2)))
                if ind: out.append(implies(and_(le(ZERO, k), le(k, k2)), le(sub(s2, s), sub(k2, k))))
    return [x for x in out if x is not TRUE]
