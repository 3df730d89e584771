"""Discharging: terms -> z3.  Integers are mathematical, reals are mathematical (stated assumptions)."""
import time, z3
from fractions import Fraction
from . import terms as T
from .terms import Num, Bool, ATOM

class Stats:
    def __init__(self):
        self.solver_time = 0.0; self.queries = 0; self.structural = 0; self.z3 = 0; self.cvc5 = 0
STATS = Stats()

class Tr:
    """one translation context (shared z3 expressions, side axioms collected per query)"""
    def __init__(self):
        self.cn = {}; self.cb = {}; self.ca = {}; self.fns = {}; self.defs = {}     # atom id -> axioms
    def num(self, n):
        r = self.cn.get(n.id)
        if r is None:
            ps = []
            for mono, c in n.m:
                f = []
                if c != 1 or not mono:
                    if isinstance(c, Fraction): f.append(z3.RealVal(c))
                    else: f.append(z3.IntVal(c))
                for a, e in mono:
                    t = self.atom(ATOM[a])
                    f.extend([t] * e)
                p = f[0]
                for x in f[1:]: p = self.cmul(p, x)
                ps.append(p)
            if not ps: r = z3.IntVal(0)
            else:
                r = ps[0]
                for x in ps[1:]: r = self.cadd(r, x)
            self.cn[n.id] = r
        return r
    @staticmethod
    def _co(a, b):
        if a.is_int() and not b.is_int(): a = z3.ToReal(a)
        elif b.is_int() and not a.is_int(): b = z3.ToReal(b)
        return a, b
    def cmul(self, a, b): a, b = self._co(a, b); return a * b
    def cadd(self, a, b): a, b = self._co(a, b); return a + b
    def atom(self, a):
        r = self.ca.get(a.id)
        if r is not None: return r
        o = a.op
        if o == 'var': r = z3.Int(str(a.args[0])) if a.sort == 'I' else z3.Real(str(a.args[0]))
        elif o == 'ite':
            x, y = self._co(self.num(a.args[1]), self.num(a.args[2]))
            r = z3.If(self.boo(a.args[0]), x, y)
        elif o == 'app':
            args = []; key = [a.args[0]]
            for x in a.args[1:]:
                if isinstance(x, Num): args.append(self.num(x))
                elif isinstance(x, Bool): args.append(self.boo(x))
                else: key.append(str(x))
            nm = '!'.join(key)
            sig = [z3.IntSort() if (z3.is_arith(x) and x.is_int()) else z3.RealSort() if z3.is_arith(x) else z3.BoolSort() for x in args]
            nm2 = nm + ''.join('i' if s == z3.IntSort() else 'r' if s == z3.RealSort() else 'b' for s in sig)
            if not args: r = z3.Int(nm2) if a.sort == 'I' else z3.Real(nm2)
            else:
                f = z3.Function(nm2, *sig, z3.IntSort() if a.sort == 'I' else z3.RealSort())
                r = f(*args)
            if a.args[0] in ('mx', 'mn'):
                x, y = args
                self.defs[a.id] = [r >= x, r >= y, z3.Or(r == x, r == y)] if a.args[0] == 'mx' else [r <= x, r <= y, z3.Or(r == x, r == y)]
            elif isinstance(a.args[0], str) and a.args[0].startswith('ovn.'):
                d = int(a.args[0][4:])
                self.defs[a.id] = [z3.Implies(z3.And([args[2 * i] <= args[2 * i + 1] for i in range(len(args) // 2)]), z3.And(r == args[2 * d + 1] - args[2 * d] + 1, r >= 1))]
            if a.args[0] == 'sqrt':
                x = args[0] if not args[0].is_int() else z3.ToReal(args[0])
                self.defs[a.id] = [z3.Implies(x >= 0, z3.And(r >= 0, r * r == x))]
        elif o in ('cdiv', 'cmod'):
            x = self.num(a.args[0]); y = self.num(a.args[1])
            q = z3.Int('cdiv!%d!%d' % (a.args[0].id, a.args[1].id)); m = z3.Int('cmod!%d!%d' % (a.args[0].id, a.args[1].id))
            absm = z3.If(m >= 0, m, -m); absy = z3.If(y >= 0, y, -y)
            ax = [z3.Implies(y != 0, z3.And(x == q * y + m, absm < absy, z3.Implies(x >= 0, m >= 0), z3.Implies(x <= 0, m <= 0)))]
            # helpful consequences
            ax.append(z3.Implies(z3.And(x >= 0, y > 0), z3.And(q >= 0, q <= x, q * y <= x, x < q * y + y)))
            ax.append(z3.Implies(z3.And(x >= 0, x < y), z3.And(q == 0, m == x)))
            ax.append(z3.Implies(z3.And(x >= y, y > 0, x < y + y), z3.And(q == 1, m == x - y)))
            self.defs[a.id] = ax
            r = q if o == 'cdiv' else m
        elif o == 'inv':
            y = self.num(a.args[0]); y = z3.ToReal(y) if y.is_int() else y
            r = z3.Real('inv!%d' % a.args[0].id)
            self.defs[a.id] = [z3.Implies(y != 0, r * y == 1), z3.Implies(y > 0, r > 0)]
        elif o in ('trunc', 'floor'):
            x = self.num(a.args[0]); x = z3.ToReal(x) if x.is_int() else x
            r = z3.Int('%s!%d' % (o, a.args[0].id)); rr = z3.ToReal(r)
            if o == 'floor': self.defs[a.id] = [rr <= x, x < rr + 1]
            else: self.defs[a.id] = [z3.Implies(x >= 0, z3.And(rr <= x, x < rr + 1)), z3.Implies(x <= 0, z3.And(rr >= x, x > rr - 1))]
        else: raise Exception('smt atom ' + o)
        self.ca[a.id] = r
        return r
    def boo(self, b):
        r = self.cb.get(b.id)
        if r is not None: return r
        o = b.op
        if o == 'true': r = z3.BoolVal(True)
        elif o == 'false': r = z3.BoolVal(False)
        elif o == 'bvar': r = z3.Bool(b.args[0])
        elif o == 'not': r = z3.Not(self.boo(b.args[0]))
        elif o == 'and': r = z3.And([self.boo(x) for x in b.args])
        elif o == 'or': r = z3.Or([self.boo(x) for x in b.args])
        elif o == 'le0': r = self.num(b.args[0]) <= 0
        elif o == 'lt0': r = self.num(b.args[0]) < 0
        elif o == 'eq0': r = self.num(b.args[0]) == 0
        elif o == 'forall': r = z3.ForAll([z3.Int(x) for x in b.args[0]], self.boo(b.args[1]))
        elif o == 'bapp':
            args = [self.num(x) if isinstance(x, Num) else self.boo(x) for x in b.args[1:] if isinstance(x, (Num, Bool))]
            key = '!'.join([b.args[0]] + [str(x) for x in b.args[1:] if not isinstance(x, (Num, Bool))])
            if not args: r = z3.Bool(key)
            else: r = z3.Function('B' + key, *[x.sort() for x in args], z3.BoolSort())(*args)
        self.cb[b.id] = r
        return r
    def axioms(self, ts):
        """definitions of all special atoms reachable from the terms"""
        from . import sums
        out = []; seen = set(); done = set(); apps = []; idx = []; todo = list(ts)
        for rnd in range(4):
            st = todo; 
            while st:
                t = st.pop()
                if isinstance(t, Num): k = ('n', t.id)
                elif isinstance(t, Bool): k = ('b', t.id)
                else: continue
                if k in seen: continue
                seen.add(k)
                if isinstance(t, Num):
                    for a in T.atoms_of(t):
                        if ('a', a.id) in seen: continue
                        seen.add(('a', a.id))
                        self.atom(a)
                        out.extend(self.defs.get(a.id, ()))
                        if a.op == 'app': apps.append(a)
                        elif a.op == 'var' and isinstance(a.args[0], str) and a.args[0][:2] in ('k!', 'e1', 'e2'): idx.append(T.of_atom(a))
                        st.extend(a.args)
                else: st.extend(t.args)
            new = sums.axioms(apps, done, idx) if apps else []
            for f in LEMMAS:
                for a in apps:
                    if ('lem', id(f), a.id) not in done: done.add(('lem', id(f), a.id)); new = new + f(a)
            if not new: break
            out.extend(self.boo(x) for x in new)
            todo = list(new)
        return out

LEMMAS = []      # proved facts, instantiated at the applications that occur: atom -> [Bool]
TR = Tr()
_cache = {}
def relevant(hyps, goal):
    return hyps
def check(hyps, goal, timeout=2000, extra=()):
    """is goal implied by hyps?  returns ('proved'|'refuted'|'unknown', model or None)"""
    if goal is T.TRUE: STATS.structural += 1; return 'proved', None
    hs = set(hyps)
    if goal in hs: STATS.structural += 1; return 'proved', None
    if T.FALSE in hs: STATS.structural += 1; return 'proved', None
    key = (tuple(sorted(h.id for h in hs)), goal.id, timeout, tuple(e.hash() for e in extra))
    if key in _cache: return _cache[key]
    t0 = time.time()
    s = z3.Solver(); s.set('timeout', timeout)
    z = [TR.boo(h) for h in hyps]; g = TR.boo(goal)
    for a in TR.axioms(list(hyps) + [goal]): s.add(a)
    for e in extra: s.add(e)
    for h in z: s.add(h)
    s.add(z3.Not(g))
    r = s.check()
    STATS.queries += 1; STATS.z3 += 1
    if r == z3.unsat: res = ('proved', None)
    elif r == z3.sat: res = ('refuted', s.model())
    else: res = ('unknown', None)
    STATS.solver_time += time.time() - t0
    _cache[key] = res
    return res
def small_model(hyps, goal, timeout=5000):
    """a countermodel with small integers, or None"""
    if any(h.op == 'forall' for h in hyps) or goal.op == 'forall': return None
    t0 = time.time(); z = [TR.boo(h) for h in hyps]; g = TR.boo(goal); ax = TR.axioms(list(hyps) + [goal])
    s = z3.Solver(); s.set('timeout', timeout)
    for a in ax + z: s.add(a)
    s.add(z3.Not(g)); seen = set(); st = list(ax) + z + [g]; consts = []
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(e): consts.append(e)
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(e): consts.append(e)
        if z3.is_quantifier(e): return None
        st.extend(e.children())
    for c in consts: s.add(c >= -2, c <= 9)
    r = s.check(); STATS.solver_time += time.time() - t0; STATS.queries += 1
    return s.model() if r == z3.sat else None
def proved(hyps, goal, timeout=2000): return check(hyps, goal, timeout)[0] == 'proved'
def feasible(hyps, timeout=1000):
    """False only if the hypotheses are contradictory for sure"""
    if T.FALSE in hyps: return False
    return check(hyps, T.FALSE, timeout)[0] != 'proved'
