"""Hash-consed terms: integer/real polynomials over atoms, and boolean formulas.

A numeric term is always a canonical polynomial, so two terms that are equal as
polynomials over the same atoms are the same object.
"""
from fractions import Fraction
from math import gcd

class Atom:
    __slots__ = ('op', 'args', 'sort', 'id')
    def __repr__(self): return astr(self)

class Num:
    """polynomial; m: tuple of (monomial, coef), monomial = tuple of (atom id, exponent)"""
    __slots__ = ('m', 'sort', 'id', '_const', '_atoms')
    def __repr__(self): return nstr(self)

class Bool:
    __slots__ = ('op', 'args', 'id')
    def __repr__(self): return bstr(self)

_atoms = {}
ATOM = []
_nums = {}
_bools = {}
_cnt = [0]

def _atom(op, args, sort):
    k = (op, args, sort)
    a = _atoms.get(k)
    if a is None:
        a = Atom(); a.op = op; a.args = args; a.sort = sort; a.id = len(ATOM)
        ATOM.append(a); _atoms[k] = a
    return a

def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1: return int(c)
    return c

def _num(d, sort=None):
    """d: dict monomial->coef"""
    items = tuple(sorted((k, v) for k, v in d.items() if v != 0))
    if sort is None:
        sort = 'I'
        for mono, c in items:
            if isinstance(c, Fraction): sort = 'R'; break
            if any(ATOM[a].sort == 'R' for a, _ in mono): sort = 'R'; break
    k = items
    n = _nums.get(k)
    if n is None:
        n = Num(); n.m = items; n.sort = sort; n.id = len(_nums); n._atoms = None
        n._const = None
        if not items: n._const = 0
        elif len(items) == 1 and items[0][0] == (): n._const = items[0][1]
        _nums[k] = n
    return n

ZERO = _num({})
def const(c):
    if isinstance(c, bool): c = int(c)
    if isinstance(c, float): c = Fraction(c)
    c = _norm(c) if isinstance(c, Fraction) else c
    return _num({(): c})
ONE = const(1)

def of_atom(a): return _num({((a.id, 1),): 1})
def var(name, sort='I'): return of_atom(_atom('var', (name,), sort))
def app(name, args, sort='I'):
    """uninterpreted function application; args: Num, Bool, or hashable"""
    return of_atom(_atom('app', (name,) + tuple(args), sort))

_fresh = {}
LOG = []; SITE = [None]
def fresh(base, sort='I'):
    n = _fresh.get(base, 0); _fresh[base] = n + 1
    if base in ('K', 'N', 'hv', 'wtime', 'waitany', 'havoc'): LOG.append(('%s!%d' % (base, n), SITE[0]))
    return var('%s!%d' % (base, n), sort) if sort != 'B' else bvar('%s!%d' % (base, n))

def is_num(x): return isinstance(x, Num)
def is_bool(x): return isinstance(x, Bool)
def cval(n): return n._const

def lift(x):
    if isinstance(x, (Num, Bool)): return x
    return const(x)

def _u(op, a, b):
    """floating point operation whose rounding is not abstracted away (mode 'float')"""
def add(*xs):
    d = {}
    for x in xs:
        if not isinstance(x, Num): x = lift(x)
        for mono, c in x.m: d[mono] = d.get(mono, 0) + c
    for k in d: d[k] = _norm(d[k]) if isinstance(d[k], Fraction) else d[k]
    return _num(d)

def _mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))

def mul(*xs):
    r = None
    for x in xs:
        if not isinstance(x, Num): x = lift(x)
        if r is None: r = x; continue
        d = {}
        for m1, c1 in r.m:
            for m2, c2 in x.m:
                m = _mmul(m1, m2); d[m] = d.get(m, 0) + c1 * c2
        for k in d: d[k] = _norm(d[k]) if isinstance(d[k], Fraction) else d[k]
        r = _num(d)
    return r
def neg(x): return mul(const(-1), x)
def sub(a, b): return add(a, neg(b))

# ---------------------------------------------------------------- booleans
def _b(op, args):
    k = (op,) + args
    b = _bools.get(k)
    if b is None:
        b = Bool(); b.op = op; b.args = args; b.id = len(_bools); _bools[k] = b
    return b
TRUE = _b('true', ()); FALSE = _b('false', ())
def bconst(x): return TRUE if x else FALSE
def bvar(name): return _b('bvar', (name,))
def bapp(name, args): return _b('bapp', (name,) + tuple(args))

def forall(names, body):
    """names: variable names (integers), fresh for this formula"""
    if body is TRUE or body is FALSE: return body
    return _b('forall', (tuple(names), body))

def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le0' and a.args[0].sort == 'I': return le0(add(neg(a.args[0]), ONE))
    if a.op == 'le0': return lt0(neg(a.args[0]))
    if a.op == 'lt0': return le0(neg(a.args[0]))
    return _b('not', (a,))

def and_(*xs):
    s = {}
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x.op == 'and': st.extend(x.args[::-1]); continue
        s[x.id] = x
    for x in list(s.values()):
        if not_(x).id in s: return FALSE
    # absorption
    if len(s) > 1:
        for i, x in list(s.items()):
            if x.op == 'or' and any(y.id in s for y in x.args): del s[i]
            elif x.op == 'or':
                keep = [y for y in x.args if not_(y).id not in s]
                if len(keep) < len(x.args):
                    del s[i]
                    return and_(*(list(s.values()) + [or_(*keep)]))
    if not s: return TRUE
    if len(s) == 1: return next(iter(s.values()))
    return _b('and', tuple(sorted(s.values(), key=lambda t: t.id)))

def or_(*xs):
    s = {}
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is FALSE: continue
        if x is TRUE: return TRUE
        if x.op == 'or': st.extend(x.args[::-1]); continue
        s[x.id] = x
    for x in list(s.values()):
        if not_(x).id in s: return TRUE
    if len(s) > 1:
        for i, x in list(s.items()):
            if x.op == 'and' and any(y.id in s for y in x.args): del s[i]
            elif x.op == 'and':
                keep = [y for y in x.args if not_(y).id not in s]
                if len(keep) < len(x.args):
                    del s[i]
                    return or_(*(list(s.values()) + [and_(*keep)]))
    # (a & c) | (!a & c) -> c
    if len(s) == 2:
        x, y = s.values()
        if x.op == 'and' and y.op == 'and':
            sx = {t.id: t for t in x.args}; sy = {t.id: t for t in y.args}
            common = [t for i, t in sx.items() if i in sy]
            if common:
                rx = and_(*[t for i, t in sx.items() if i not in sy])
                ry = and_(*[t for i, t in sy.items() if i not in sx])
                if not_(rx) is ry or rx is TRUE or ry is TRUE: return and_(*common)
    if not s: return FALSE
    if len(s) == 1: return next(iter(s.values()))
    return _b('or', tuple(sorted(s.values(), key=lambda t: t.id)))
def implies(a, b): return or_(not_(a), b)
def iff(a, b):
    if a is b: return TRUE
    return and_(implies(a, b), implies(b, a))

def _content(n):
    """gcd of coefficients (ints) or None"""
    g = 0
    for _, c in n.m:
        if isinstance(c, Fraction): return None
        g = gcd(g, c)
    return g

def _single_ite(n):
    """n == ite-atom*c + const ?  -> (atom, coef, const)"""
    if len(n.m) == 1:
        (mono, c), k = n.m[0], 0
    elif len(n.m) == 2 and n.m[0][0] == ():
        k = n.m[0][1]; mono, c = n.m[1]
    else: return None
    if len(mono) == 1 and mono[0][1] == 1 and ATOM[mono[0][0]].op == 'ite':
        return ATOM[mono[0][0]], c, k
    return None

def le0(n):
    if n._const is not None: return bconst(n._const <= 0)
    si = _single_ite(n)
    if si and (si[0].args[1]._const is not None or si[0].args[2]._const is not None):
        a, c, k = si
        return bite(a.args[0], le0(add(mul(const(c), a.args[1]), const(k))), le0(add(mul(const(c), a.args[2]), const(k))))
    if n.sort == 'I':
        g = 0; k0 = 0
        for mono, c in n.m:
            if mono == (): k0 = c
            else: g = gcd(g, c)
        if g > 1:
            d = {mono: c // g for mono, c in n.m if mono != ()}
            d[()] = -((-k0) // g)      # ceil(k0/g)
            n = _num(d)
    return _b('le0', (n,))
def lt0(n):
    if n._const is not None: return bconst(n._const < 0)
    if n.sort == 'I': return le0(add(n, ONE))
    si = _single_ite(n)
    if si and (si[0].args[1]._const is not None or si[0].args[2]._const is not None):
        a, c, k = si
        return bite(a.args[0], lt0(add(mul(const(c), a.args[1]), const(k))), lt0(add(mul(const(c), a.args[2]), const(k))))
    return _b('lt0', (n,))
def eq0(n):
    if n._const is not None: return bconst(n._const == 0)
    si = _single_ite(n)
    if si and (si[0].args[1]._const is not None or si[0].args[2]._const is not None):
        a, c, k = si
        return bite(a.args[0], eq0(add(mul(const(c), a.args[1]), const(k))), eq0(add(mul(const(c), a.args[2]), const(k))))
    if n.sort == 'I':
        g = _content(n)
        if g and g > 1:
            k0 = dict(n.m).get((), 0)
            n = _num({mono: c // g for mono, c in n.m})
        g = 0; k0 = 0
        for mono, c in n.m:
            if mono == (): k0 = c
            else: g = gcd(g, c)
        if g > 1 and k0 % g: return FALSE
    if n.m[-1][1] < 0: n = neg(n)
    return _b('eq0', (n,))
def bite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return or_(and_(c, a), and_(not_(c), b))
def eq(a, b):
    if isinstance(a, Bool) or isinstance(b, Bool): return iff(a, b)
    return eq0(sub(a, b))
def ne(a, b): return not_(eq(a, b))
def le(a, b): return le0(sub(a, b))
def lt(a, b): return lt0(sub(a, b))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)

def ite(c, a, b):
    if isinstance(a, Bool): return bite(c, a, b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    # canonical polarity for integer comparisons
    if c.op == 'le0':
        nc = not_(c)
        if nc.id < c.id: return ite_raw(nc, b, a)
    return ite_raw(c, a, b)
def ite_raw(c, a, b):
    sa = _as_ite(a); sb = _as_ite(b)
    if sa and sa.args[0] is c: a = sa.args[1]
    elif sa and sa.args[0] is not_(c): a = sa.args[2]
    if sb and sb.args[0] is c: b = sb.args[2]
    elif sb and sb.args[0] is not_(c): b = sb.args[1]
    if a is b: return a
    sort = 'R' if a.sort == 'R' or b.sort == 'R' else 'I'
    return of_atom(_atom('ite', (c, a, b), sort))
def _as_ite(n):
    if len(n.m) == 1 and n.m[0][1] == 1:
        mono = n.m[0][0]
        if len(mono) == 1 and mono[0][1] == 1:
            a = ATOM[mono[0][0]]
            if a.op == 'ite': return a
    return None
def as_atom(n):
    if len(n.m) == 1 and n.m[0][1] == 1:
        mono = n.m[0][0]
        if len(mono) == 1 and mono[0][1] == 1: return ATOM[mono[0][0]]
    return None
def tmax(a, b): return ite(lt(a, b), b, a)
def tmin(a, b): return ite(lt(b, a), b, a)

def polydiv(a, b):
    """exact polynomial quotient a/b or None"""
    if b._const is not None:
        if b._const == 0: return None
        if a.sort == 'R' or b.sort == 'R':
            return mul(a, const(Fraction(1) / Fraction(b._const)))
        if all(not isinstance(c, Fraction) and c % b._const == 0 for _, c in a.m):
            return _num({m: c // b._const for m, c in a.m})
        return None
    # multivariate division by leading monomial under lex order of (degree, mono)
    def lead(n): return max(n.m, key=lambda t: (sum(e for _, e in t[0]), tuple(reversed(t[0]))))
    q = ZERO; r = a; bm, bc = lead(b); steps = 0
    bd = dict(bm)
    while r.m:
        steps += 1
        if steps > 60: return None
        rm, rc = lead(r); rd = dict(rm)
        if any(rd.get(k, 0) < e for k, e in bd.items()): return None
        if isinstance(rc, int) and isinstance(bc, int):
            if rc % bc: return None
            c = rc // bc
        else: c = _norm(Fraction(rc) / Fraction(bc))
        mono = tuple(sorted((k, rd[k] - bd.get(k, 0)) for k in rd if rd[k] - bd.get(k, 0)))
        t = _num({mono: c}); q = add(q, t); r = sub(r, mul(t, b))
    return q

def cdiv(a, b):
    """C integer division (truncating)"""
    if a._const is not None and b._const not in (None, 0):
        q = abs(a._const) // abs(b._const)
        return const(q if (a._const >= 0) == (b._const > 0) else -q)
    if b is ONE: return a
    q = polydiv(a, b)
    if q is not None and q.sort == 'I': return q
    return of_atom(_atom('cdiv', (a, b), 'I'))
def cmod(a, b):
    if a._const is not None and b._const not in (None, 0):
        return sub(a, mul(b, cdiv(a, b)))
    if b is ONE: return ZERO
    q = polydiv(a, b)
    if q is not None and q.sort == 'I': return ZERO
    return of_atom(_atom('cmod', (a, b), 'I'))
def rdiv(a, b):
    """real division"""
    if b._const not in (None, 0): return mul(a, const(Fraction(1) / Fraction(b._const)))
    q = polydiv(a, b)
    if q is not None: return q
    # a * (1/b)
    return mul(a, of_atom(_atom('inv', (b,), 'R')))
def trunc(a):
    """C conversion real -> int"""
    if a._const is not None:
        c = a._const; q = abs(c).__floor__() if isinstance(c, Fraction) else abs(c)
        return const(q if c >= 0 else -q)
    if a.sort == 'I': return a
    return of_atom(_atom('trunc', (a,), 'I'))
def floor_(a):
    if a._const is not None:
        c = a._const; return const(c.__floor__())
    if a.sort == 'I': return a
    return of_atom(_atom('floor', (a,), 'I'))
def b2i(b):
    return ite(b, ONE, ZERO)

# ---------------------------------------------------------------- traversal
def atoms_of(n):
    if n._atoms is None:
        s = []
        seen = set()
        for mono, _ in n.m:
            for a, _ in mono:
                if a not in seen: seen.add(a); s.append(ATOM[a])
        n._atoms = tuple(s)
    return n._atoms

_fv = {}
def free_vars(t):
    """set of ('v',name,sort) and ('f',name) leaves"""
    key = (type(t).__name__, t.id) if hasattr(t, 'id') else None
    r = _fv.get(key)
    if r is not None: return r
    out = set()
    if isinstance(t, Num):
        for a in atoms_of(t): out |= free_vars(a)
    elif isinstance(t, Atom):
        if t.op == 'var': out.add(('v', t.args[0], t.sort))
        else:
            if t.op == 'app': out.add(('f', t.args[0]))
            for x in t.args:
                if isinstance(x, (Num, Bool)): out |= free_vars(x)
    elif isinstance(t, Bool):
        if t.op == 'bvar': out.add(('v', t.args[0], 'B'))
        else:
            if t.op == 'bapp': out.add(('f', t.args[0]))
            for x in t.args:
                if isinstance(x, (Num, Bool)): out |= free_vars(x)
    _fv[key] = frozenset(out)
    return _fv[key]
def var_names(t): return {x[1] for x in free_vars(t) if x[0] == 'v'}
def fun_names(t): return {x[1] for x in free_vars(t) if x[0] == 'f'}

class Subst:
    """simultaneous substitution of variables (by name) / function applications (by callback)"""
    def __init__(self, m=None, fn=None, bm=None):
        self.m = m or {}; self.fn = fn; self.bm = bm or {}; self.cache = {}
        self.names = set(self.m) | set(self.bm)
    def __call__(self, t):
        if isinstance(t, Num): return self.num(t)
        if isinstance(t, Bool): return self.boo(t)
        return t
    def _touches(self, t):
        if self.fn is not None: return True
        for x in free_vars(t):
            if x[0] == 'v' and x[1] in self.names: return True
        return False
    def num(self, n):
        k = ('n', n.id)
        r = self.cache.get(k)
        if r is not None: return r
        if not self._touches(n): self.cache[k] = n; return n
        parts = []
        for mono, c in n.m:
            f = [const(c)]
            for a, e in mono:
                v = self.atom(ATOM[a])
                f.extend([v] * e)
            parts.append(mul(*f))
        r = add(*parts) if parts else ZERO
        self.cache[k] = r
        return r
    def atom(self, a):
        k = ('a', a.id)
        r = self.cache.get(k)
        if r is not None: return r
        if a.op == 'var':
            r = self.m.get(a.args[0])
            if r is None: r = of_atom(a)
        elif a.op == 'ite': r = ite(self(a.args[0]), self(a.args[1]), self(a.args[2]))
        elif a.op == 'cdiv': r = cdiv(self(a.args[0]), self(a.args[1]))
        elif a.op == 'cmod': r = cmod(self(a.args[0]), self(a.args[1]))
        elif a.op == 'inv': r = rdiv(ONE, self(a.args[0]))
        elif a.op == 'trunc': r = trunc(self(a.args[0]))
        elif a.op == 'floor': r = floor_(self(a.args[0]))
        elif a.op == 'app':
            args = tuple(self(x) for x in a.args[1:])
            r = self.fn(a.args[0], args, a.sort) if self.fn else None
            if r is None: r = app(a.args[0], args, a.sort)
        else: raise Exception('subst ' + a.op)
        self.cache[k] = r
        return r
    def boo(self, b):
        k = ('b', b.id)
        r = self.cache.get(k)
        if r is not None: return r
        if not self._touches(b): self.cache[k] = b; return b
        o = b.op
        if o in ('true', 'false'): r = b
        elif o == 'bvar': r = self.bm.get(b.args[0], b)
        elif o == 'not': r = not_(self(b.args[0]))
        elif o == 'and': r = and_(*[self(x) for x in b.args])
        elif o == 'or': r = or_(*[self(x) for x in b.args])
        elif o == 'le0': r = le0(self(b.args[0]))
        elif o == 'lt0': r = lt0(self(b.args[0]))
        elif o == 'eq0': r = eq0(self(b.args[0]))
        elif o == 'forall': r = forall(b.args[0], self(b.args[1]))
        elif o == 'bapp':
            args = tuple(self(x) for x in b.args[1:])
            r = self.fn(b.args[0], args, 'B') if self.fn else None
            if r is None: r = bapp(b.args[0], args)
        else: raise Exception('subst ' + o)
        self.cache[k] = r
        return r
def subst(t, m): return Subst({k: v for k, v in m.items() if isinstance(v, Num)}, bm={k: v for k, v in m.items() if isinstance(v, Bool)})(t)

# ---------------------------------------------------------------- concrete evaluation
class Undefined(Exception): pass
class Eval:
    def __init__(self, env, fns=None):
        self.env = env; self.fns = fns; self.cache = {}
    def __call__(self, t):
        if isinstance(t, (Num, Bool)):
            k = (t.__class__ is Num, t.id)
            r = self.cache.get(k)
            if r is None:
                r = self.num(t) if isinstance(t, Num) else self.boo(t)
                self.cache[k] = r
            return r
        return t
    def num(self, n):
        s = 0
        for mono, c in n.m:
            p = c
            for a, e in mono:
                if p == 0: break
                p = p * self.atom(ATOM[a]) ** e
            s = s + p
        return s
    def atom(self, a):
        k = ('a', a.id)
        if k in self.cache: return self.cache[k]
        o = a.op
        if o == 'var':
            if a.args[0] not in self.env: raise Undefined(a.args[0])
            r = self.env[a.args[0]]
        elif o == 'ite': r = self(a.args[1]) if self(a.args[0]) else self(a.args[2])
        elif o in ('cdiv', 'cmod'):
            x = self(a.args[0]); y = self(a.args[1])
            if y == 0: raise Undefined('division by zero')
            q = abs(x) // abs(y)
            if (x >= 0) != (y > 0): q = -q
            r = q if o == 'cdiv' else x - q * y
        elif o == 'inv':
            y = self(a.args[0])
            if y == 0: raise Undefined('division by zero')
            r = Fraction(1) / Fraction(y)
        elif o == 'trunc':
            x = self(a.args[0]); r = int(x)
        elif o == 'floor':
            import math
            r = math.floor(self(a.args[0]))
        elif o == 'app':
            if not self.fns: raise Undefined(a.args[0])
            r = self.fns(a.args[0], [self(x) for x in a.args[1:]])
        else: raise Undefined(o)
        self.cache[k] = r
        return r
    def boo(self, b):
        o = b.op
        if o == 'true': return True
        if o == 'false': return False
        if o == 'bvar':
            if b.args[0] not in self.env: raise Undefined(b.args[0])
            return self.env[b.args[0]]
        if o == 'not': return not self(b.args[0])
        if o == 'and': return all(self(x) for x in b.args)
        if o == 'or': return any(self(x) for x in b.args)
        if o == 'le0': return self(b.args[0]) <= 0
        if o == 'lt0': return self(b.args[0]) < 0
        if o == 'eq0': return self(b.args[0]) == 0
        if o == 'bapp':
            if not self.fns: raise Undefined(b.args[0])
            return self.fns(b.args[0], [self(x) for x in b.args[1:]])
        raise Undefined(o)

# ---------------------------------------------------------------- printing
def astr(a):
    o = a.op
    if o == 'var': return str(a.args[0])
    if o == 'app': return '%s(%s)' % (a.args[0], ','.join(map(str, a.args[1:])))
    if o == 'ite': return '(%s ? %s : %s)' % a.args
    if o == 'cdiv': return '(%s)/(%s)' % a.args
    if o == 'cmod': return '(%s)%%(%s)' % a.args
    return '%s(%s)' % (o, ','.join(map(str, a.args)))
def nstr(n):
    if n._const is not None: return str(n._const)
    out = []
    for mono, c in n.m:
        s = '*'.join(astr(ATOM[a]) + ('^%d' % e if e > 1 else '') for a, e in mono)
        if not mono: out.append(str(c))
        elif c == 1: out.append(s)
        elif c == -1: out.append('-' + s)
        else: out.append('%s*%s' % (c, s))
    return ' + '.join(out).replace('+ -', '- ')
def bstr(b):
    o = b.op
    if o in ('true', 'false'): return o
    if o == 'bvar': return b.args[0]
    if o == 'forall': return 'forall %s. %s' % (','.join(b.args[0]), b.args[1])
    if o == 'bapp': return '%s(%s)' % (b.args[0], ','.join(map(str, b.args[1:])))
    if o == 'not': return '!(%s)' % b.args[0]
    if o == 'and': return '(' + ' && '.join(map(str, b.args)) + ')'
    if o == 'or': return '(' + ' || '.join(map(str, b.args)) + ')'
    return '%s %s 0' % (b.args[0], {'le0': '<=', 'lt0': '<', 'eq0': '=='}[o])
