"""Verification-condition generation: symbolic interpretation of clang's AST of the real sources.

Calls with a contract are replaced by the contract, other calls to functions with a body are
inlined (which is the strongest contract), everything else is refused (Uns)."""
from . import terms as T, smt
from .terms import (Num, Bool, ZERO, ONE, TRUE, FALSE, const, add, sub, mul, neg, eq, ne, le, lt, ge, gt,
                    and_, or_, not_, ite, implies)
from .front import Program, FrontError, clean
import re

class Uns(Exception):
    """construct outside the dialect: the proof is not available for this text"""
class Dead(Exception):
    """no path continues"""

_rid = [0]
class Region:
    def __init__(self, name, elem, length, kind):
        _rid[0] += 1
        self.id = _rid[0]; self.name = name; self.elem = elem; self.length = length; self.kind = kind
        self.bytes = None; self.text = None; self.alloc = None; self.site = None
    def __repr__(self): return '<%s#%d>' % (self.name, self.id)

class Addr:
    __slots__ = ('region', 'steps', 'unit')
    def __init__(self, region, steps, unit): self.region = region; self.steps = steps; self.unit = unit
    def path(self): return tuple(s for s in self.steps if isinstance(s, str))
    def idxs(self): return tuple(s for s in self.steps if not isinstance(s, str))
    def key(self): return (self.region.id, self.path())
    def __eq__(self, o): return isinstance(o, Addr) and self.region is o.region and self.steps == o.steps
    def __hash__(self): return hash((self.region.id, self.steps))
    def __repr__(self):
        s = repr(self.region)
        for x in self.steps: s += '.' + x if isinstance(x, str) else '[%s]' % x
        return s
    def shift(self, d):
        if d is ZERO: return self
        st = list(self.steps)
        if not st or isinstance(st[-1], str): raise Uns('pointer arithmetic on a single object')
        st[-1] = add(st[-1], d)
        return Addr(self.region, tuple(st), self.unit)

class Ptr:
    """guarded cases; target None = NULL, 'uninit' = uninitialised"""
    __slots__ = ('cases',)
    def __init__(self, cases): self.cases = tuple(cases)
    def __repr__(self): return 'Ptr(%s)' % ', '.join('%s' % (t,) if g is TRUE else '%s:%s' % (g, t) for g, t in self.cases)
    def single(self):
        return self.cases[0][1] if len(self.cases) == 1 else None
NULLP = Ptr([(TRUE, None)])
UNP = Ptr([(TRUE, 'uninit')])
def ptr(a): return Ptr([(TRUE, a)])

class Fn:
    __slots__ = ('cases',)
    def __init__(self, cases): self.cases = tuple(cases)
    def __repr__(self): return 'Fn(%s)' % (self.cases,)
UNF = Fn([(TRUE, 'uninit')])

def _mergecases(cs, isptr):
    out = []
    for g, t in cs:
        if g is FALSE: continue
        for i, (g2, t2) in enumerate(out):
            if t2 is t or (t2 == t and not isinstance(t2, (Num, Bool))):
                out[i] = (or_(g2, g), t2); break
            if isptr and isinstance(t, Addr) and isinstance(t2, Addr) and t.region is t2.region and t.path() == t2.path() and len(t.steps) == len(t2.steps):
                st = tuple(a if isinstance(a, str) else ite(g2, a, b) for a, b in zip(t2.steps, t.steps))
                out[i] = (or_(g2, g), Addr(t.region, st, t.unit)); break
        else: out.append((g, t))
    if len(out) == 1: out = [(TRUE, out[0][1])]
    return out

def vite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return Ptr(_mergecases([(and_(c, g), t) for g, t in a.cases] + [(and_(not_(c), g), t) for g, t in b.cases], True))
    if isinstance(a, Fn) and isinstance(b, Fn):
        return Fn(_mergecases([(and_(c, g), t) for g, t in a.cases] + [(and_(not_(c), g), t) for g, t in b.cases], False))
    if isinstance(a, Bool) and isinstance(b, Bool): return T.bite(c, a, b)
    if isinstance(a, Bool): a = T.b2i(a)
    if isinstance(b, Bool): b = T.b2i(b)
    if isinstance(a, Num) and isinstance(b, Num): return ite(c, a, b)
    if a is None: return b
    if b is None: return a
    raise Uns('merge of %s and %s' % (type(a).__name__, type(b).__name__))

# ------------------------------------------------------------------ contents
class Content: pass
class Base(Content):
    """fn(idxs) -> value"""
    def __init__(self, fn, tag): self.fn = fn; self.tag = tag
class W(Content):
    def __init__(self, prev, idxs, val): self.prev = prev; self.idxs = idxs; self.val = val
class Comp(Content):
    """for all binder values with dom: [idxs] := val ; binders = list of Num variables"""
    def __init__(self, prev, binders, dom, idxs, val, node=None):
        self.prev = prev; self.binders = tuple(binders); self.dom = dom; self.idxs = idxs; self.val = val; self.node = node
class IteC(Content):
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
class LoopPre(Content):
    """content at the start of iteration k of a loop being summarised; body writes known as comps in info"""
    def __init__(self, prev, info, k): self.prev = prev; self.info = info; self.k = k

def cite(c, a, b):
    if a is b or c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, W) and isinstance(b, W) and a.prev is b.prev and a.idxs == b.idxs:
        if a.val is b.val: return a
        return W(a.prev, a.idxs, vite(c, a.val, b.val))
    return IteC(c, a, b)

class State:
    __slots__ = ('mem', 'env', 'this', 'pc', 'events', 'ret')
    def __init__(self):
        self.mem = {}; self.env = {}; self.this = None; self.pc = (); self.events = ()
    def copy(self):
        s = State(); s.mem = dict(self.mem); s.env = dict(self.env); s.this = self.this; s.pc = self.pc; s.events = self.events
        return s
    def set(self, o):
        self.mem = o.mem; self.env = o.env; self.this = o.this; self.pc = o.pc; self.events = o.events
    def assume(self, c):
        if c is TRUE: return
        cs = c.args if c.op == 'and' else (c,)
        for x in cs:
            if x not in self.pc: self.pc = self.pc + (x,)

class Event:
    __slots__ = ('kind', 'args', 'pc', 'node', 'sub')
    def __init__(self, kind, args, pc, node, sub=None): self.kind = kind; self.args = args; self.pc = pc; self.node = node; self.sub = sub
    def __repr__(self): return '%s%s@%s' % (self.kind, self.args, self.node.get('_line') if self.node else '')

class Obl:
    __slots__ = ('cat', 'text', 'pc', 'goal', 'func', 'line', 'status', 'model', 'backend')
    def __init__(self, cat, text, pc, goal, func, line):
        self.cat = cat; self.text = text; self.pc = pc; self.goal = goal; self.func = func; self.line = line
        self.status = None; self.model = None; self.backend = None
    def name(self): return '%s@%s:%s' % (self.cat, self.func, self.line)

FLT = ('float', 'double', 'long double')
def is_ptr(t): return t.endswith('*')
def base_elem(t): return t[:-1]
def arr_of(t):
    m = re.match(r'^(.*?)\[(\d*)\]((?:\[\d*\])*)$', t)
    if not m: return None
    return m.group(1) + m.group(3), int(m.group(2) or 0)

from .loops import LoopMixin

class Exec(LoopMixin):
    def __init__(self, prog, handlers=None, solver_ms=1500):
        self.prog = prog; self.h = dict(DEFAULT); self.h.update(handlers or {})
        self.obls = []; self.dry = 0; self.fstack = []; self.ms = solver_ms
        self.inlined = set(); self.contracts_used = set(); self.depth = 0
        self.globals = {}; self.strs = {}; self.uninit_names = {}
        self.sumdefs = {}; self.facts = []; self.loop_specs = {}
        self.assumptions = set(); self.regions = {}
        self.track_uninit = True
        self.bounds = True
        self.hooks = {}; self.qfacts = []
    # -------------------------------------------------------------- helpers
    def region(self, name, elem, length, kind):
        elem2, k = self.flat(elem)
        r = Region(name, elem2, mul(length, const(k)) if length is not None and k != 1 else length, kind)
        self.regions[r.id] = r
        return r
    def flat(self, t):
        """(scalar unit, count) for homogeneous aggregates of floats, else (t,1)"""
        a = arr_of(t)
        if a:
            e, k = self.flat(a[0]); return e, k * a[1]
        if self.prog.is_record(t) and not is_ptr(t):
            fs = self.prog.fields(t)
            if len(fs) == 2 and fs[0][1] in FLT and fs[1][1] == fs[0][1]: return fs[0][1], 2
        return t, 1
    def top(self, region):
        return Addr(region, (ZERO,), region.elem)
    def cur(self): return self.fstack[-1] if self.fstack else '?'
    def oblige(self, S, cat, goal, node, text=''):
        if self.dry or goal is TRUE: 
            if not self.dry: smt.STATS.structural += 1
            return
        self.obls.append(Obl(cat, text, S.pc, goal, self.cur(), node.get('_line') if node else None))
    def event(self, S, kind, args, node, sub=None):
        S.events = S.events + (Event(kind, args, S.pc, node, sub),)
    def loc(self, node): return '%s:%s' % (node.get('_file'), node.get('_line'))
    def decide(self, S, c):
        """True/False if the path condition settles c, else None"""
        if c is TRUE: return True
        if c is FALSE: return False
        if c in S.pc: return True
        if not_(c) in S.pc: return False
        if c.op == 'or' and any(x in S.pc for x in c.args): return True
        if c.op == 'and' and all(x in S.pc for x in c.args): return True
        return None
    def decide_smt(self, S, c, ms=None):
        d = self.decide(S, c)
        if d is not None: return d
        pc = [x for x in S.pc if x.op != 'forall']
        if smt.proved(pc, c, ms or self.ms): return True
        if smt.proved(pc, not_(c), ms or self.ms): return False
        return None
    # -------------------------------------------------------------- memory
    def uninit(self, key, idxs, ty):
        if is_ptr(ty): return UNP
        if ty == 'fnptr': return UNF
        nm = 'uninit!%d!%s%s' % (key[0], '.'.join(key[1]), ''.join('[%s]' % i for i in idxs))
        self.uninit_names[nm] = key
        return T.var(nm, 'R' if ty in FLT else 'I')
    def content(self, S, key):
        c = S.mem.get(key)
        if c is None:
            c = self.base0(key)
            S.mem[key] = c
        return c
    _b0 = None
    def base0(self, key):
        if self._b0 is None: self._b0 = {}
        c = self._b0.get(key)
        if c is None:
            c = Base(None, 'uninit'); c.fn = key; self._b0[key] = c
        return c
    def cread(self, S, c, idxs, ty, key):
        if isinstance(c, W):
            if c.idxs == idxs: return c.val
            e = and_(*[eq(a, b) for a, b in zip(c.idxs, idxs)])
            d = self.decide_smt(S, e)
            if d is True: return c.val
            r = self.cread(S, c.prev, idxs, ty, key)
            if d is False: return r
            return vite(e, c.val, r)
        if isinstance(c, Base):
            if c.tag == 'uninit': return self.uninit(key, idxs, ty)
            if c.tag == 'start': return c.fn(idxs, ty)
            return c.fn(idxs)
        if isinstance(c, IteC):
            d = self.decide_smt(S, c.c)
            if d is True: return self.cread(S, c.a, idxs, ty, key)
            if d is False: return self.cread(S, c.b, idxs, ty, key)
            return vite(c.c, self.cread(S, c.a, idxs, ty, key), self.cread(S, c.b, idxs, ty, key))
        if isinstance(c, Comp): return self.comp_read(S, c, idxs, ty, key)
        if isinstance(c, LoopPre): return self.looppre_read(S, c, idxs, ty, key)
        raise Uns('content ' + type(c).__name__)
    def read(self, S, a, ty, node=None):
        self.bound(S, a, node, 'read')
        return self.cread(S, self.content(S, a.key()), a.idxs(), ty, a.key())
    def write(self, S, a, v, node=None):
        self.bound(S, a, node, 'write')
        if isinstance(v, Bool): v = T.b2i(v)
        k = a.key(); c = self.content(S, k); ix = a.idxs()
        if isinstance(c, W) and c.idxs == ix: c = c.prev
        S.mem[k] = W(c, ix, v)
    def bound(self, S, a, node, what):
        r = a.region
        if r.kind == 'str': return
        if not self.bounds: return
        if r.length is not None:
            i = a.steps[0]
            self.oblige(S, 'bounds', and_(le(ZERO, i), lt(i, r.length)), node, '%s of %s index %s within %s' % (what, r.name, i, r.length))
        if len(a.steps) == 3 and isinstance(a.steps[1], str) and r.elem and self.prog.is_record(r.elem):
            ft = dict(self.prog.fields(r.elem)).get(a.steps[1])
            if ft and arr_of(ft):
                k = self.flat(ft)[1] if self.flat(ft)[1] != 1 else arr_of(ft)[1]
                if arr_of(ft)[1] > 1: self.oblige(S, 'bounds', and_(le(ZERO, a.steps[2]), lt(a.steps[2], const(k))), node, '%s of %s index within %d' % (what, a.steps[1], k))
        fx = getattr(r, 'flex', None)                # trailing array that extends past the record
        if fx and len(a.steps) >= 3 and a.steps[1] == fx[0]:
            self.oblige(S, 'bounds', and_(le(ZERO, a.steps[2]), lt(a.steps[2], fx[1])), node, '%s of %s within its storage' % (what, fx[0]))
        al = S.mem.get((r.id, ('#alive',)))
        if al is not None:
            self.oblige(S, 'lifetime', eq(al.val, ONE), node, '%s of %s while allocated' % (what, r.name))
    def cases(self, S, p, node, what='deref'):
        """feasible non-null targets of a pointer; emits the null/uninit obligation"""
        if isinstance(p, Num):
            if T.cval(p) == 0: p = NULLP
            else: raise Uns('integer used as pointer')
        if isinstance(p, Fn): raise Uns('function used as object pointer')
        out = []
        if len(p.cases) == 1:
            t = p.cases[0][1]
            if isinstance(t, Addr): return [(TRUE, t)]
            self.oblige(S, 'null', FALSE, node, '%s of a null or uninitialised pointer' % what)
            raise Dead()
        bad = or_(*[g for g, t in p.cases if not isinstance(t, Addr)])
        if bad is not FALSE:
            self.oblige(S, 'null', not_(bad), node, '%s of a null or uninitialised pointer' % what)
            S.assume(not_(bad))
        for g, t in p.cases:
            if isinstance(t, Addr) and self.decide_smt(S, g) is not False: out.append((g, t))
        if not out: raise Dead()
        if len(out) == 1: return [(TRUE, out[0][1])]
        return out
    # lvalue: list of (guard, Addr)
    def lread(self, S, lv, ty, node=None):
        if len(lv) == 1: return self.read(S, lv[0][1], ty, node)
        v = None
        for g, a in reversed(lv):
            x = self.read_guard(S, g, a, ty, node)
            v = x if v is None else vite(g, x, v)
        return v
    def read_guard(self, S, g, a, ty, node):
        pc = S.pc; S.assume(g)
        try: return self.read(S, a, ty, node)
        finally: S.pc = pc
    def lwrite(self, S, lv, v, ty, node=None):
        if len(lv) == 1: return self.write(S, lv[0][1], v, node)
        for g, a in lv:
            pc = S.pc; S.assume(g)
            old = self.cread(S, self.content(S, a.key()), a.idxs(), ty, a.key())
            self.write(S, a, vite(g, v, old), node)
            S.pc = pc
    # -------------------------------------------------------------- types
    def ty(self, n): return self.prog.ctype(n['type'])
    def coerce(self, v, ty):
        if isinstance(v, Bool): v = T.b2i(v)
        if isinstance(v, Num):
            if is_ptr(ty):
                if T.cval(v) == 0: return NULLP
                raise Uns('integer to pointer')
            if v.sort == 'R' and ty not in FLT and not is_ptr(ty) and ty not in ('void',): return T.trunc(v)
        return v
    def truth(self, S, v, node=None):
        if isinstance(v, Bool): return v
        if isinstance(v, Num):
            self.init_check(S, v, node)
            return ne(v, ZERO)
        if isinstance(v, Ptr):
            un = or_(*[g for g, t in v.cases if t == 'uninit'])
            if un is not FALSE: self.oblige(S, 'init', not_(un), node, 'test of an uninitialised pointer')
            return or_(*[g for g, t in v.cases if isinstance(t, Addr)])
        if isinstance(v, Fn): return or_(*[g for g, t in v.cases if t not in (None, 'uninit')])
        raise Uns('truth of %r' % (v,))
    def init_check(self, S, v, node, what='use'):
        if not self.track_uninit or not isinstance(v, (Num, Bool)): return
        nm = [x for x in T.var_names(v) if isinstance(x, str) and x.startswith('uninit!')]
        if not nm: return
        g = uninit_guard(v)
        self.oblige(S, 'init', not_(g), node, '%s of uninitialised %s' % (what, sorted(nm)[0]))
    # -------------------------------------------------------------- lvalues
    def lval(self, S, n):
        k = n['kind']
        if k == 'ParenExpr': return self.lval(S, n['inner'][0])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']; key = (n['_tu'], d['id'])
            a = S.env.get(key)
            if a is None: a = self.global_addr(S, key, d)
            return a if isinstance(a, list) else [(TRUE, a)]
        if k == 'MemberExpr':
            b = n['inner'][0]
            if n.get('isArrow'): base = self.cases(S, self.rval(S, b), n, 'member access')
            else: base = self.lval(S, b)
            bt = self.ty(b)
            if n.get('isArrow'): bt = base_elem(bt)
            return [(g, self.field(a, bt, n['name'], self.ty(n))) for g, a in base]
        if k == 'ArraySubscriptExpr':
            b, i = n['inner']
            if not is_ptr(self.ty(b)) : b, i = i, b
            p = self.rval(S, b); iv = self.coerce(self.rval(S, i), 'int')
            self.init_check(S, iv, n, 'index')
            return [(g, self.padd(a, iv, base_elem(self.ty(b)))) for g, a in self.cases(S, p, n, 'subscript')]
        if k == 'UnaryOperator':
            o = n['opcode']
            if o == '*':
                p = self.rval(S, n['inner'][0])
                return self.cases(S, p, n)
            if o in ('++', '--') and not n.get('isPostfix'):
                self.incdec(S, n); return self.lval_quiet(S, n['inner'][0])
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('='):
            self.rval(S, n); return self.lval_quiet(S, n['inner'][0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr') and n.get('castKind') in ('NoOp', 'LValueBitCast'):
            return self.lval(S, n['inner'][0])
        if k == 'CXXThisExpr': return [(TRUE, S.this)]
        if k == 'ConditionalOperator':
            c, a, b = n['inner']
            cv = self.truth(S, self.rval(S, c), n)
            d = self.decide(S, cv)
            if d is True: return self.lval(S, a)
            if d is False: return self.lval(S, b)
            return [(and_(cv, g), x) for g, x in self.lval(S, a)] + [(and_(not_(cv), g), x) for g, x in self.lval(S, b)]
        if k == 'StringLiteral':
            return [(TRUE, self.strlit(n['value']))]
        if k == 'CallExpr':
            v = self.call(S, n)
            if isinstance(v, tuple) and v[0] == 'lv': return v[1]
            if isinstance(v, (Num, Bool)) and n['type']['qualType'].startswith('const ') and not n['type']['qualType'].endswith('*'):
                # a reference to const, used within the expression: a copy has the same value
                ty = self.ty(n); r = self.region('tmp', ty, ONE, 'local'); a = self.top(r); self.write(S, a, v, n); return [(TRUE, a)]
        if k == 'MaterializeTemporaryExpr' or k == 'ExprWithCleanups':
            v = self.rval(S, n['inner'][0]); ty = self.ty(n)
            r = self.region('tmp', ty, ONE, 'local'); a = self.top(r); self.write(S, a, v, n); return [(TRUE, a)]
        raise Uns('lvalue %s at %s' % (k, self.loc(n)))
    def lval_quiet(self, S, n):
        d = self.dry; self.dry += 1
        try: return self.lval(S, n)
        finally: self.dry = d
    def strlit(self, text):
        r = self.strs.get(text)
        if r is None:
            r = Region('str' + text, 'char', None, 'str'); r.text = text; self.strs[text] = r
        return Addr(r, (ZERO,), 'char')
    def global_addr(self, S, key, d):
        a = self.globals.get(key)
        if a is None:
            node = self.prog.decl.get(key)
            if node is None or node.get('kind') != 'VarDecl': raise Uns('reference to %s' % d.get('name'))
            ty = self.ty(node); r = self.region(d.get('name'), ty, ONE, 'static'); a = self.top(r)
            self.globals[key] = a
            if node.get('inner'):
                v = self.rval(S, node['inner'][-1])
                self.write(S, a, self.coerce(v, ty), node)
        return a
    def field(self, a, rec, name, fty):
        """address of field name of the record of type rec at a"""
        if self.flat(rec)[1] != 1:          # flattened complex
            fs = [f for f, _ in self.prog.fields(rec)]
            return a.shift(const(fs.index(name)))
        ft = None
        for f, t in self.prog.fields(rec):
            if f == name: ft = t
        if ft is None: ft = fty
        u, kk = self.flat(ft)
        if arr_of(ft) or kk != 1: return Addr(a.region, a.steps + (name, ZERO), u)
        return Addr(a.region, a.steps + (name,), ft)
    def padd(self, a, n, pointee):
        """a + n where a points to pointee"""
        if n is ZERO: return a
        u, k = self.flat(pointee)
        if a.unit != u and not (u == 'void' or a.unit is None):
            if self.prog.sizeof(u) != self.prog.sizeof(a.unit):
                raise Uns('pointer of type %s into %s' % (pointee, a.unit))
        return a.shift(mul(n, const(k)) if k != 1 else n)
    # -------------------------------------------------------------- rvalues
    def rval(self, S, n):
        k = n['kind']
        f = getattr(self, 'r_' + k, None)
        if f is None: raise Uns('expression %s at %s' % (k, self.loc(n)))
        return f(S, n)
    def r_ParenExpr(self, S, n): return self.rval(S, n['inner'][0])
    def r_ConstantExpr(self, S, n): return self.rval(S, n['inner'][0])
    def r_ExprWithCleanups(self, S, n): return self.rval(S, n['inner'][0])
    def r_MaterializeTemporaryExpr(self, S, n): return self.rval(S, n['inner'][0])
    def r_CXXBindTemporaryExpr(self, S, n): return self.rval(S, n['inner'][0])
    def r_IntegerLiteral(self, S, n): return const(int(n['value']))
    def r_CharacterLiteral(self, S, n): return const(int(n['value']))
    def r_CXXBoolLiteralExpr(self, S, n): return TRUE if n['value'] else FALSE
    def r_FloatingLiteral(self, S, n):
        from fractions import Fraction
        return const(Fraction(n['value']))
    def r_StringLiteral(self, S, n): return ptr(self.strlit(n['value']))
    def r_CXXNullPtrLiteralExpr(self, S, n): return NULLP
    def r_GNUNullExpr(self, S, n): return NULLP
    def r_ImplicitValueInitExpr(self, S, n):
        return NULLP if is_ptr(self.ty(n)) else ZERO
    def r_CXXThisExpr(self, S, n): return ptr(S.this)
    def r_UnaryExprOrTypeTraitExpr(self, S, n):
        t = self.prog.canon(n['argType'].get('desugaredQualType') or n['argType']['qualType']) if 'argType' in n else self.ty(n['inner'][0])
        return const(self.prog.sizeof(t))
    def r_DeclRefExpr(self, S, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl': return const(self.prog.enums[(n['_tu'], d['id'])])
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return Fn([(TRUE, self.fnkey(n['_tu'], d))])
        return self.load(S, n)
    def fnkey(self, tu, d):
        node = self.prog.decl.get((tu, d['id']))
        if node is None: return d.get('name')
        key = node.get('_key') or d.get('name')
        if key in self.prog.funcs: return key
        return node.get('_qual') or d.get('name')
    def load(self, S, n):
        ty = self.ty(n)
        lv = self.lval(S, n)
        if self.flat(ty)[1] != 1 or (self.prog.is_record(ty) and not is_ptr(ty)):
            if len(lv) == 1: return ('rec', lv[0][1], ty)
            raise Uns('record value through several pointers')
        return self.lread(S, lv, ty, n)
    r_MemberExpr = load
    r_ArraySubscriptExpr = load
    def r_CStyleCastExpr(self, S, n): return self.cast(S, n)
    r_ImplicitCastExpr = r_CXXStaticCastExpr = r_CXXFunctionalCastExpr = r_CXXReinterpretCastExpr = r_CStyleCastExpr
    def cast(self, S, n):
        ck = n.get('castKind'); e = n['inner'][0]
        if ck == 'LValueToRValue': return self.load(S, e)
        if ck == 'ArrayToPointerDecay':
            lv = self.lval(S, e)
            return Ptr(_mergecases([(g, self.decay(a, self.ty(e))) for g, a in lv], True))
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'): return self.rval(S, e)
        v = self.rval(S, e)
        ty = self.ty(n)
        if ck in ('IntegralCast', 'NoOp', 'FloatingCast', 'ConstructorConversion', 'UserDefinedConversion'):
            if ck == 'IntegralCast' and ty in ('int', 'unsigned int') and 'narrow' in self.hooks and self.ty(e) not in ('int', 'unsigned int'): self.hooks['narrow'](self, S, v, n)
            return self.coerce(v, ty) if ck == 'IntegralCast' else v
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'): return self.truth(S, v, n)
        if ck == 'NullToPointer': return NULLP
        if ck == 'IntegralToFloating': return T.b2i(v) if isinstance(v, Bool) else v
        if ck == 'FloatingToIntegral': return T.trunc(v)
        if ck == 'BitCast': return self.bitcast(S, v, ty, n)
        if ck == 'ToVoid': return None
        if ck == 'IntegralToPointer' and isinstance(v, Num) and T.cval(v) == 0: return NULLP
        raise Uns('cast %s at %s' % (ck, self.loc(n)))
    def decay(self, a, ty):
        return a        # arrays are addressed by their first element already
    def bitcast(self, S, v, ty, n):
        if isinstance(v, Ptr) and is_ptr(ty):
            e = base_elem(ty)
            for g, t in v.cases:
                if isinstance(t, Addr) and t.region.elem is None and e != 'void': self.settype(t.region, e)
            return Ptr([(g, Addr(t.region, t.steps, t.region.elem if len(t.steps) == 1 else t.unit) if isinstance(t, Addr) else t) for g, t in v.cases])
        return v
    def settype(self, r, e):
        u, k = self.flat(e)
        sz = self.prog.sizeof(u)
        r.elem = u
        q = T.polydiv(r.bytes, const(sz))
        if q is not None and q.sort == 'I': r.length = q
        elif self.prog.is_record(u) and not is_ptr(u):
            # header plus a flexible tail: one object; the tail reaches to the end of the storage
            r.length = ONE
            fn, ft = self.prog.fields(u)[-1]
            if arr_of(ft) and arr_of(ft)[1] == 1:
                eu, k = self.flat(arr_of(ft)[0]); es = self.prog.sizeof(eu); off = 0
                for _, t in self.prog.fields(u):
                    al = self.prog.align(t); off = (off + al - 1) // al * al
                    if t is ft: break
                    off += self.prog.sizeof(t)
                q = T.polydiv(sub(r.bytes, const(off)), const(es))
                r.flex = (fn, q if q is not None and q.sort == 'I' else T.cdiv(sub(r.bytes, const(off)), const(es)))
        else: r.length = T.cdiv(r.bytes, const(sz))
    def r_UnaryOperator(self, S, n):
        o = n['opcode']; e = n['inner'][0]
        if o == '&':
            if e['kind'] == 'DeclRefExpr' and e['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return self.rval(S, e)
            return Ptr(_mergecases(self.lval(S, e), True))
        if o == '*': return self.load(S, n)
        if o in ('++', '--'): return self.incdec(S, n)
        v = self.rval(S, e)
        if o == '!': return not_(self.truth(S, v, n))
        if o == '-': return neg(T.b2i(v) if isinstance(v, Bool) else v)
        if o == '+': return v
        if o == '__extension__': return v
        raise Uns('unary %s at %s' % (o, self.loc(n)))
    def incdec(self, S, n):
        e = n['inner'][0]; ty = self.ty(e); lv = self.lval(S, e)
        old = self.lread(S, lv, ty, n); d = ONE if n['opcode'] == '++' else const(-1)
        new = self.plus(S, old, d, ty, n)
        self.lwrite(S, lv, new, ty, n)
        return old if n.get('isPostfix') else new
    def plus(self, S, v, d, ty, n):
        if isinstance(v, Ptr):
            p = base_elem(ty)
            return Ptr([(g, self.padd(t, d, p) if isinstance(t, Addr) else t) for g, t in v.cases])
        return add(v, d)
    def r_BinaryOperator(self, S, n):
        o = n['opcode']; a, b = n['inner']
        if o == '=': return self.assign(S, n, a, b)
        if o == ',':
            self.rval(S, a); return self.rval(S, b)
        if o in ('&&', '||'):
            av = self.truth(S, self.rval(S, a), n)
            d = self.decide(S, av)
            if o == '&&' and d is False: return FALSE
            if o == '||' and d is True: return TRUE
            g = av if o == '&&' else not_(av)
            if d is not None:
                return self.truth(S, self.rval(S, b), n)
            S2 = S.copy(); S2.assume(g); pc0 = S.pc
            try: bv = self.truth(S2, self.rval(S2, b), n)
            except Dead:
                S.assume(not_(g)); return FALSE if o == '&&' else TRUE
            if S2.mem != S.mem or S2.events != S.events:
                if smt.feasible(S2.pc, 200) is False: pass
                else:
                    S3 = S.copy(); S3.assume(not_(g))
                    M = self.merge2(S2, S3); S.set(M)
            return and_(av, bv) if o == '&&' else or_(av, bv)
        x = self.rval(S, a); y = self.rval(S, b)
        return self.binop(S, o, x, y, self.ty(a), self.ty(b), self.ty(n), n)
    def binop(self, S, o, x, y, ta, tb, tn, n):
        if isinstance(x, Bool): x = T.b2i(x) if o not in ('==', '!=') or not isinstance(y, Bool) else x
        if isinstance(y, Bool) and not isinstance(x, Bool): y = T.b2i(y)
        if isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)): return self.ptrop(S, o, x, y, ta, tb, n)
        if isinstance(x, Bool): return eq(x, y) if o == '==' else not_(eq(x, y))
        fl = ta in FLT or tb in FLT or tn in FLT
        if o == '+': return add(x, y)
        if o == '-': return sub(x, y)
        if o == '*':
            v = mul(x, y)
            if tn in ('int', 'unsigned int') and 'narrow' in self.hooks: self.hooks['narrow'](self, S, v, n)
            return v
        if o == '/':
            self.oblige(S, 'div', ne(y, ZERO), n, 'division by %s' % y)
            return T.rdiv(x, y) if fl else self.idiv(S, x, y)
        if o == '%':
            self.oblige(S, 'div', ne(y, ZERO), n, 'modulo %s' % y)
            return self.imod(S, x, y)
        if o in ('<', '<=', '>', '>=', '==', '!='):
            self.init_check(S, x, n, 'comparison'); self.init_check(S, y, n, 'comparison')
            return {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': ne}[o](x, y)
        if o in ('|', '&', '<<', '>>', '^'):
            cx, cy = T.cval(x), T.cval(y)
            if cx is not None and cy is not None:
                return const({'|': cx | cy, '&': cx & cy, '<<': cx << cy, '>>': cx >> cy, '^': cx ^ cy}[o])
            if o == '<<' and cy is not None: return mul(x, const(1 << cy))
            return T.app('bit' + o, (x, y))
        raise Uns('operator %s at %s' % (o, self.loc(n)))
    def idiv(self, S, x, y): return T.cdiv(x, y)
    def imod(self, S, x, y): return T.cmod(x, y)
    def ptrop(self, S, o, x, y, ta, tb, n):
        if isinstance(x, Num): x = self.coerce(x, 'void*') if T.cval(x) == 0 and isinstance(y, (Ptr, Fn)) and o not in '+-' else x
        if isinstance(y, Num): y = self.coerce(y, 'void*') if T.cval(y) == 0 and o not in '+-' else y
        if o in ('+', '-') and isinstance(x, Ptr) and isinstance(y, Num):
            self.init_check(S, y, n, 'pointer offset')
            return self.plus(S, x, y if o == '+' else neg(y), ta, n)
        if o == '+' and isinstance(y, Ptr): return self.plus(S, y, x, tb, n)
        if isinstance(x, Fn) or isinstance(y, Fn):
            if o in ('==', '!='):
                if isinstance(x, Ptr): x = Fn(x.cases)
                if isinstance(y, Ptr): y = Fn(y.cases)
                e = or_(*[and_(g, h) for g, t in x.cases for h, u in y.cases if t == u])
                return e if o == '==' else not_(e)
            raise Uns('function pointer arithmetic')
        def cmp(t, u):
            if t is None or u is None:
                if o == '==': return TRUE if t is u else FALSE
                return None
            if t == 'uninit' or u == 'uninit': return None
            if t.region is u.region and t.path() == u.path() and len(t.steps) == len(u.steps):
                it, iu = t.steps, u.steps
                k = 1
                if o == '==': return and_(*[eq(p, q) for p, q in zip(it, iu) if not isinstance(p, str)])
                if any(p is not q for p, q in zip(it[:-1], iu[:-1])): return None
                return {'<': lt, '<=': le, '>': gt, '>=': ge}[o](it[-1], iu[-1])
            if o == '==': return FALSE
            return None
        neg_ = False
        if o == '!=': neg_ = True; o = '=='
        if o == '-':
            tx, tu = x.single(), y.single()
            if isinstance(tx, Addr) and isinstance(tu, Addr) and tx.region is tu.region:
                k = self.flat(base_elem(ta))[1]
                return T.cdiv(sub(tx.steps[-1], tu.steps[-1]), const(k))
            raise Uns('pointer difference')
        r = FALSE
        for g, t in x.cases:
            for h, u in y.cases:
                c = cmp(t, u)
                if c is None:
                    gh = and_(g, h)
                    if self.decide_smt(S, gh) is False: continue
                    if t == 'uninit' or u == 'uninit':
                        self.oblige(S, 'init', not_(gh), n, 'comparison of an uninitialised pointer'); c = FALSE
                    else: raise Uns('comparison of unrelated pointers at ' + self.loc(n))
                r = or_(r, and_(g, h, c))
        return not_(r) if neg_ else r
    def assign(self, S, n, a, b):
        ty = self.ty(a)
        if self.flat(ty)[1] != 1 or (self.prog.is_record(ty) and not is_ptr(ty)):
            return self.copyrec(S, a, b, ty, n)
        v = self.coerce(self.rval(S, b), ty)
        if isinstance(v, Num) and v.sort == 'R' and ty not in FLT: v = T.trunc(v)
        lv = self.lval(S, a)
        if ty == 'fnptr' and isinstance(v, Ptr): v = Fn(v.cases)
        self.lwrite(S, lv, v, ty, n)
        return v
    def copyrec(self, S, a, b, ty, n):
        v = self.rval(S, b)
        lv = self.lval(S, a)
        if isinstance(v, tuple) and v[0] == 'rec' and len(lv) == 1:
            self.copy_at(S, v[1], lv[0][1], ty, n)
            return v
        raise Uns('struct assignment at ' + self.loc(n))
    def copy_at(self, S, src, dst, ty, n):
        u, k = self.flat(ty)
        if k != 1:
            vals = [self.read(S, src.shift(const(i)), u, n) for i in range(k)]
            for i in range(k): self.write(S, dst.shift(const(i)), vals[i], n)
            return
        if self.prog.is_record(ty) and not is_ptr(ty):
            for f, ft in self.prog.fields(ty):
                sa, da = self.field(src, ty, f, ft), self.field(dst, ty, f, ft)
                if arr_of(ft): S.mem[da.key()] = self.content(S, sa.key()); continue
                if self.prog.is_record(ft) and not is_ptr(ft): self.copy_at(S, sa, da, ft, n)
                else: self.write(S, da, self.read(S, sa, ft, n), n)
            return
        self.write(S, dst, self.read(S, src, ty, n), n)
    def r_CompoundAssignOperator(self, S, n):
        o = n['opcode'][:-1]; a, b = n['inner']; ty = self.ty(a)
        y = self.rval(S, b); lv = self.lval(S, a)
        x = self.lread(S, lv, ty, n)
        if isinstance(x, Ptr):
            v = self.plus(S, x, y if o == '+' else neg(y), ty, n)
        else:
            ct = self.prog.ctype(n['computeResultType']) if 'computeResultType' in n else ty
            v = self.coerce(self.binop(S, o, x, y, ct, self.ty(b), ct, n), ty)
        self.lwrite(S, lv, v, ty, n)
        return v
    def r_ConditionalOperator(self, S, n):
        c, a, b = n['inner']
        cv = self.truth(S, self.rval(S, c), n)
        d = self.decide(S, cv)
        if d is True: return self.rval(S, a)
        if d is False: return self.rval(S, b)
        S1 = S.copy(); S1.assume(cv); S2 = S.copy(); S2.assume(not_(cv))
        pc = S.pc
        try: x = self.rval(S1, a)
        except Dead: S.set(S2); return self.rval(S, b)
        try: y = self.rval(S2, b)
        except Dead: S.set(S1); return x
        if S1.mem != S2.mem or S1.events != S2.events: S.set(self.merge2(S1, S2))
        else: S.pc = pc
        return vite(cv, x, y)
    def r_CXXOperatorCallExpr(self, S, n):
        callee = n['inner'][0]
        name = self.callee_name(callee)
        if name == 'operator=': return self.copyrec(S, n['inner'][1], n['inner'][2], self.ty(n['inner'][1]), n)
        raise Uns('operator call %s' % name)
    def callee_name(self, c):
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        return (c.get('referencedDecl') or {}).get('name') or c.get('name')
    # -------------------------------------------------------------- allocation
    def alloc_region(self, S, name, elem, length, how, node):
        if elem is None: r = Region(name, None, length, 'heap'); self.regions[r.id] = r
        else: r = self.region(name, elem, length, 'heap')
        r.alloc = how; r.site = node
        S.mem[(r.id, ('#alive',))] = W(self.base0((r.id, ('#alive',))), (ZERO,), ONE)
        self.event(S, 'alloc', (r, how), node)
        return r
    def r_CXXNewExpr(self, S, n):
        ty = base_elem(self.ty(n))
        inner = n.get('inner', [])
        if n.get('isArray'):
            ln = self.coerce(self.rval(S, inner[0]), 'int')
            r = self.alloc_region(S, 'new ' + ty + '[]', ty, ln, 'new[]', n)
            return ptr(self.top(r))
        r = self.alloc_region(S, 'new ' + ty, ty, ONE, 'new', n)
        a = self.top(r)
        ctor = [c for c in inner if c.get('kind') in ('CXXConstructExpr',)]
        hook = self.h.get('new ' + ty)
        if hook:
            args = []
            if ctor: args = [self.rval(S, x) for x in ctor[0].get('inner', [])]
            self.contracts_used.add('%s::%s' % (ty, ty))
            hook(self, S, a, args, n)
            return ptr(a)
        if ctor:
            c = ctor[0]
            args = c.get('inner', [])
            d = self.ctor(ty, len(args))
            if d is not None:
                vals = self.eval_args(S, d, args)
                self.invoke(S, d, a, vals, n)
            elif c.get('zeroing') or (c.get('initializationStyle') == 'call') or n.get('initStyle') == 'call':
                self.zero(S, a, ty)
        elif n.get('initStyle') == 'call' or any(c.get('kind') == 'ImplicitValueInitExpr' for c in inner):
            self.zero(S, a, ty)
        return ptr(a)
    def ctor(self, ty, nargs):
        nm = ty.split('::')[-1]
        for q in (ty + '::' + nm, nm + '::' + nm):
            for k in self.prog.byname.get(q, []):
                if len(self.prog.funcs[k]['_params']) == nargs and not self.prog.funcs[k].get('isImplicit'): return self.prog.funcs[k]
        return None
    def zero(self, S, a, ty):
        if self.prog.is_record(ty):
            for f, ft in self.prog.fields(ty):
                if arr_of(ft): continue
                self.write(S, self.field(a, ty, f, ft), NULLP if is_ptr(ft) else ZERO)
        else: self.write(S, a, NULLP if is_ptr(ty) else ZERO)
    def r_CXXDeleteExpr(self, S, n):
        e = n['inner'][0]
        p = self.rval(S, e)
        ty = base_elem(self.ty(e))
        for g, t in p.cases:
            if t is None: continue
            if self.decide_smt(S, g) is False: continue
            pc = S.pc; S1 = S.copy(); S1.assume(g)
            if t == 'uninit':
                self.oblige(S1, 'init', FALSE, n, 'delete of an uninitialised pointer'); continue
            hook = self.h.get('delete ' + ty)
            if not n.get('isArray') and hook:
                self.contracts_used.add('%s::~%s' % (ty, ty)); hook(self, S1, t, [], n)
            elif not n.get('isArray'):
                nm = ty.split('::')[-1]
                for q in (ty + '::~' + nm, nm + '::~' + nm):
                    if q in self.prog.byname:
                        self.invoke(S1, self.prog.funcs[self.prog.byname[q][0]], t, [], n); break
            self.release(S1, t, 'new[]' if n.get('isArray') else 'new', n)
            if g is TRUE or self.decide_smt(S, g) is True: S.set(S1)
            else:
                S2 = S.copy(); S2.assume(not_(g))
                S.set(self.merge2(S1, S2))
        return None
    def release(self, S, a, how, n):
        r = a.region
        if r.kind != 'heap':
            self.oblige(S, 'release', FALSE, n, 'release of %s, which was not allocated by the library' % r.name); return
        self.oblige(S, 'release', bconst(r.alloc == how), n, '%s memory released as %s' % (r.alloc, how))
        al = S.mem[(r.id, ('#alive',))]
        self.oblige(S, 'release', eq(al.val, ONE), n, '%s allocated at line %s released once' % (r.name, r.site.get('_line') if r.site else '?'))
        S.mem[(r.id, ('#alive',))] = W(al.prev, (ZERO,), ZERO)
        self.event(S, 'free', (r, how), n)
    # -------------------------------------------------------------- calls
    def eval_args(self, S, d, args):
        vals = []
        ps = d.get('_params') or [c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        for i, a in enumerate(args):
            pt = self.ty(ps[i]) if i < len(ps) else None
            if a.get('kind') == 'CXXDefaultArgExpr': a = a['inner'][0] if a.get('inner') else ps[i]['inner'][0]
            if pt is not None and pt.endswith('&'):
                vals.append(('lv', self.lval(S, a) if a.get('valueCategory') == 'lvalue' else self.lval_of_rvalue(S, a, pt)))
            else:
                v = self.rval(S, a)
                vals.append(self.coerce(v, pt) if pt else v)
        return vals
    def lval_of_rvalue(self, S, a, pt):
        v = self.rval(S, a); r = self.region('tmp', pt[:-1], ONE, 'local'); ad = self.top(r)
        self.write(S, ad, v); return [(TRUE, ad)]
    def r_CXXMemberCallExpr(self, S, n):
        m = n['inner'][0]
        while m['kind'] in ('ParenExpr', 'ImplicitCastExpr'): m = m['inner'][0]
        if m['kind'] != 'MemberExpr': raise Uns('member call')
        obj = m['inner'][0]
        d = self.prog.decl.get((n['_tu'], m['referencedMemberDecl']))
        if d is None: raise Uns('unknown method ' + m['name'])
        if m.get('isArrow'): base = self.cases(S, self.rval(S, obj), n, 'call on')
        else: base = self.lval(S, obj)
        args = n['inner'][1:]
        fd = self.prog.funcs.get(d.get('_key'), d)
        vals = self.eval_args(S, fd, args)
        if len(base) == 1: return self.invoke(S, fd, base[0][1], vals, n)
        return self.multi(S, [(g, (lambda S1, a=a: self.invoke(S1, fd, a, vals, n))) for g, a in base])
    def multi(self, S, alts):
        """run alternatives under their guards and merge"""
        acc = None; val = None
        for g, f in alts:
            S1 = S.copy(); S1.assume(g)
            try: v = f(S1)
            except Dead: continue
            if acc is None: acc, val = S1, v
            else:
                c = self.branch_cond(acc, S1)
                M = self.merge2(acc, S1)
                val = vite(c, val, v) if val is not None else None
                acc = M
        if acc is None: raise Dead()
        S.set(acc)
        return val
    def branch_cond(self, A, B):
        i = 0
        while i < len(A.pc) and i < len(B.pc) and A.pc[i] is B.pc[i]: i += 1
        return and_(*A.pc[i:])
    def r_CallExpr(self, S, n): 
        v = self.call(S, n)
        if isinstance(v, tuple) and v and v[0] == 'lv': return self.lread(S, v[1], self.ty(n), n)
        return v
    def call(self, S, n):
        c = n['inner'][0]; args = n['inner'][1:]
        while c['kind'] in ('ParenExpr',) or (c['kind'] == 'ImplicitCastExpr' and c.get('castKind') in ('FunctionToPointerDecay', 'NoOp', 'BuiltinFnToFnPtr')):
            c = c['inner'][0]
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            d = self.prog.decl.get((n['_tu'], c['referencedDecl']['id']))
            if d is None:
                d = {'_qual': c['referencedDecl']['name'], '_key': c['referencedDecl']['name']}
            fd = self.prog.funcs.get(d.get('_key'), d)
            vals = self.eval_args(S, fd, args)
            return self.invoke(S, fd, None, vals, n)
        fv = self.rval(S, c)
        if not isinstance(fv, Fn): raise Uns('call through ' + c['kind'])
        vals = [self.rval(S, a) for a in args]
        un = or_(*[g for g, t in fv.cases if t in (None, 'uninit')])
        if un is not FALSE:
            self.oblige(S, 'null', not_(un), n, 'call through an unset function pointer')
            S.assume(not_(un))
        alts = [(g, t) for g, t in fv.cases if t not in (None, 'uninit') and self.decide_smt(S, g) is not False]
        if not alts: raise Dead()
        if any(self.ty(p).endswith('&') for g, t in alts for p in self.prog.funcs[t]['_params']): raise Uns('reference parameter of a function called through a pointer')
        hook = self.h.get('call*')
        if hook:
            r = hook(self, S, alts, vals, n)
            if r is not NotImplemented: return r
        if len(alts) == 1: return self.invoke(S, self.prog.funcs[alts[0][1]], None, vals, n)
        return self.multi(S, [(g, (lambda S1, t=t: self.invoke(S1, self.prog.funcs[t], None, vals, n))) for g, t in alts])
    def r_CXXConstructExpr(self, S, n):
        inner = n.get('inner', [])
        if len(inner) == 1: return self.rval(S, inner[0])
        raise Uns('construct expression at ' + self.loc(n))
    def invoke(self, S, d, this, vals, n):
        q = d.get('_qual') or d.get('name')
        h = self.h.get(q)
        if h is None and '_body' not in d: h = self.h.get(d.get('name'))
        if h is not None:
            self.contracts_used.add(q)
            return h(self, S, this, vals, n)
        if '_body' not in d: raise Uns('call of %s, which has neither body nor contract (%s)' % (q, self.loc(n) if n else ''))
        return self.inline(S, d, this, vals, n)
    def inline(self, S, d, this, vals, n):
        q = d['_qual']
        if self.depth > 40: raise Uns('recursion through ' + q)
        outs = self.run(S, d, this, vals)
        if not outs: raise Dead()
        acc, val = outs[0]
        for s2, v2 in outs[1:]:
            c = self.branch_cond(acc, s2)
            val = vite(c, val, v2) if val is not None else None
            acc = self.merge2(acc, s2)
        S.set(acc)
        return val
    def bind(self, S, d, vals):
        env = {}
        for p, v in zip(d['_params'], vals):
            pt = self.ty(p)
            if isinstance(v, tuple) and v and v[0] == 'lv': env[(p['_tu'], p['id'])] = v[1]; continue
            if pt in ('int', 'unsigned int') and d['_qual'].startswith('Memory::'): self.oblige(S, 'range', FALSE, p, 'byte counts are passed in 64 bits')
            r = self.region(p.get('name', 'arg'), pt, ONE, 'local'); a = self.top(r)
            S.env = S.env
            if isinstance(v, tuple) and v and v[0] == 'rec':
                self.copy_at(S, v[1], a, pt, None)
            else: self.write(S, a, self.coerce(v, pt))
            env[(p['_tu'], p['id'])] = a
        return env
    def run(self, S, d, this, vals):
        """execute a body; returns [(state, value)] with the caller's environment restored"""
        q = d['_qual']; self.inlined.add(q)
        env0, this0 = S.env, S.this
        S1 = S.copy()
        S1.env = self.bind(S1, d, vals); S1.this = this
        self.fstack.append(q); self.depth += 1
        try:
            for ini in d.get('_inits', []):
                ai = ini.get('anyInit')
                if ai and ini.get('inner'):
                    f = ai['name']; rec = q.split('::')[0]; ft = dict(self.prog.fields(rec)).get(f)
                    v = self.coerce(self.rval(S1, ini['inner'][0]), ft or 'int')
                    self.write(S1, self.field(this, rec, f, ft), v)
            outs = self.stmt(S1, d['_body'])
        except Dead: outs = []
        finally:
            self.fstack.pop(); self.depth -= 1
        res = []
        rt = self.prog.canon(d['type']['qualType'].split('(')[0].strip()) if '(' in d['type']['qualType'] else 'int'
        for kind, s, v in outs:
            if kind in ('normal', 'return'):
                s.env = env0; s.this = this0
                if v is not None: v = self.coerce(v, rt)
                res.append((s, v))
            else: raise Uns('stray ' + kind)
        return res
    # -------------------------------------------------------------- merging
    def merge2(self, A, B):
        i = 0
        while i < len(A.pc) and i < len(B.pc) and A.pc[i] is B.pc[i]: i += 1
        ca = and_(*A.pc[i:]); cb = and_(*B.pc[i:])
        M = State(); M.pc = A.pc[:i]; M.this = A.this
        M.env = dict(B.env); M.env.update(A.env)
        M.assume(or_(ca, cb))
        c = ca
        # prefer the shorter discriminating condition
        if not_(cb) is ca: c = ca
        elif cb.op not in ('and',) and ca.op == 'and': c = not_(cb)
        mem = {}
        for k, x in A.mem.items():
            y = B.mem.get(k)
            if y is x or y is None: mem[k] = x
            else: mem[k] = cite(c, x, y)
        for k, y in B.mem.items():
            if k not in A.mem: mem[k] = y
        # base contents that only one side materialised
        for k in list(mem):
            x = A.mem.get(k); y = B.mem.get(k)
            if x is None and y is not None and k[0] in self.regions:
                if isinstance(y, (W, Comp, IteC)) and k[1] != ('#alive',) and self.existed(A, k): mem[k] = cite(c, self.base0(k), y)
                elif k[1] == ('#alive',): mem[k] = self.alive_merge(not_(c), y)
            elif y is None and x is not None:
                if isinstance(x, (W, Comp, IteC)) and k[1] != ('#alive',) and self.existed(B, k): mem[k] = cite(c, x, self.base0(k))
                elif k[1] == ('#alive',): mem[k] = self.alive_merge(c, x)
        M.mem = mem
        j = 0
        while j < len(A.events) and j < len(B.events) and A.events[j] is B.events[j]: j += 1
        M.events = A.events + B.events[j:]
        return M
    def alive_merge(self, c, w):
        # allocated on one branch only: elsewhere it was never allocated (2)
        return W(w.prev, w.idxs, ite(c, w.val, const(2)))
    def existed(self, S, key):
        """was the region known to this state (some cell of it present)?"""
        rid = key[0]
        return any(k[0] == rid for k in S.mem)
    # -------------------------------------------------------------- statements
    def stmt(self, S, n):
        """-> list of (kind, state, value); kind in normal, break, continue, return"""
        k = n.get('kind')
        if k is None: return [('normal', S, None)]
        f = getattr(self, 's_' + k, None)
        if f is not None: return f(S, n)
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal'):
            try: self.rval(S, n)
            except Dead: return []
            return [('normal', S, None)]
        raise Uns('statement %s at %s' % (k, self.loc(n)))
    def s_NullStmt(self, S, n): return [('normal', S, None)]
    def s_BreakStmt(self, S, n): return [('break', S, None)]
    def s_ContinueStmt(self, S, n): return [('continue', S, None)]
    def s_AttributedStmt(self, S, n): return self.stmt(S, n['inner'][-1])
    def s_CompoundStmt(self, S, n): return self.block(S, n.get('inner', []))
    def block(self, S, stmts):
        live = [S]; out = []
        for st in stmts:
            nxt = []
            for s in live:
                for o in self.stmt(s, st):
                    if o[0] == 'normal': nxt.append(o[1])
                    else: out.append(o)
            live = nxt
            if not live: break
        return out + [('normal', s, None) for s in live]
    def s_ReturnStmt(self, S, n):
        v = None
        try:
            if n.get('inner'): v = self.rval(S, n['inner'][0])
        except Dead: return []
        if isinstance(v, Bool): v = T.b2i(v)
        return [('return', S, v)]
    def s_DeclStmt(self, S, n):
        try:
            for d in n.get('inner', []):
                if d['kind'] in ('VarDecl',): self.vardecl(S, d)
        except Dead: return []
        return [('normal', S, None)]
    def vardecl(self, S, d):
        ty = self.ty(d); key = (d['_tu'], d['id'])
        if ty.endswith('&'):
            S.env[key] = self.lval(S, d['inner'][0]); return
        a = arr_of(ty)
        if a: r = self.region(d['name'], a[0], const(a[1]), 'local')
        else: r = self.region(d['name'], ty, ONE, 'local')
        ad = self.top(r); S.env[key] = ad
        if 'init' in d and d.get('inner'):
            e = d['inner'][-1]
            if e['kind'] == 'CXXConstructExpr' and not e.get('inner'):
                c = self.ctor(ty, 0)
                if c is not None and not c.get('isImplicit'): self.invoke(S, c, ad, [], d)
                return
            if e['kind'] == 'InitListExpr':
                self.initlist(S, ad, ty, e); return
            if self.flat(ty)[1] != 1 or (self.prog.is_record(ty) and not is_ptr(ty)):
                v = self.rval(S, e)
                if isinstance(v, tuple) and v[0] == 'rec': self.copy_at(S, v[1], ad, ty, d); return
                raise Uns('record initialiser')
            v = self.coerce(self.rval(S, e), ty)
            if ty == 'fnptr' and isinstance(v, Ptr): v = Fn(v.cases)
            self.write(S, ad, v, d)
    def initlist(self, S, a, ty, e):
        ar = arr_of(ty)
        if ar:
            u, k = self.flat(ar[0])
            its = e.get('inner', []) or e.get('array_filler', [])
            for i in range(ar[1]):
                sub_ = its[i] if i < len(its) and its[i].get('kind') != 'ImplicitValueInitExpr' else None
                ad = a.shift(const(i * k))
                if sub_ is None: self.write(S, ad, NULLP if is_ptr(ar[0]) else ZERO)
                elif sub_['kind'] == 'InitListExpr': self.initlist(S, ad, ar[0], sub_)
                else: self.write(S, ad, self.coerce(self.rval(S, sub_), ar[0]))
            return
        for (f, ft), x in zip(self.prog.fields(ty), e.get('inner', [])):
            ad = self.field(a, ty, f, ft)
            if x['kind'] == 'InitListExpr': self.initlist(S, ad, ft, x)
            else: self.write(S, ad, self.coerce(self.rval(S, x), ft))
    def s_IfStmt(self, S, n):
        inner = [x for x in n['inner'] if x.get('kind')]
        pre = []
        if n.get('hasInit') or n.get('hasVar'): raise Uns('if with declaration')
        try: c = self.truth(S, self.rval(S, inner[0]), n)
        except Dead: return []
        th = inner[1]; el = inner[2] if len(inner) > 2 else None
        return self.branch(S, c, lambda s: self.stmt(s, th), (lambda s: self.stmt(s, el)) if el else None, n)
    def branch(self, S, c, fthen, felse, n):
        d = self.decide(S, c)
        if d is None and c.op in ('le0', 'eq0', 'lt0', 'not', 'and', 'or', 'bvar', 'bapp'):
            d = self.decide_smt(S, c, 400)
        if d is True:
            S.assume(c); return fthen(S)
        if d is False:
            S.assume(not_(c)); return felse(S) if felse else [('normal', S, None)]
        S1 = S.copy(); S2 = S.copy(); S1.assume(c); S2.assume(not_(c))
        o1 = fthen(S1)
        o2 = felse(S2) if felse else [('normal', S2, None)]
        return self.join(o1, o2)
    fork = False
    def forks(self, A, B):
        """branches that leave different constants in an integer local are kept apart (schedules with concrete loop bounds)"""
        for k, x in A.mem.items():
            y = B.mem.get(k)
            if x is y or not isinstance(x, W) or not isinstance(y, W) or k[1] or k[0] not in self.regions: continue
            r = self.regions[k[0]]
            if r.kind != 'local' or r.elem != 'int' or not isinstance(x.val, Num) or not isinstance(y.val, Num): continue
            if T.cval(x.val) is not None and T.cval(y.val) is not None and T.cval(x.val) != T.cval(y.val): return True
        return False
    def join(self, o1, o2):
        n1 = [o for o in o1 if o[0] == 'normal']; n2 = [o for o in o2 if o[0] == 'normal']
        rest = [o for o in o1 + o2 if o[0] != 'normal']
        # merge same-kind exits pairwise when there is exactly one on each side
        out = []
        if len(n1) == 1 and len(n2) == 1 and not (self.fork and self.forks(n1[0][1], n2[0][1])):
            out.append(('normal', self.merge2(n1[0][1], n2[0][1]), None))
        else: out.extend(n1 + n2)
        kinds = {}
        for o in rest: kinds.setdefault(o[0], []).append(o)
        for kd, os in kinds.items():
            if kd in ('continue', 'break') and len(os) > 1:
                acc = os[0][1]
                for o in os[1:]: acc = self.merge2(acc, o[1])
                out.append((kd, acc, None))
            elif kd == 'return' and len(os) > 1 and len(os) <= 8:
                acc, v = os[0][1], os[0][2]
                for o in os[1:]:
                    c = self.branch_cond(acc, o[1])
                    v = vite(c, v, o[2]) if v is not None else None
                    acc = self.merge2(acc, o[1])
                out.append((kd, acc, v))
            else: out.extend(os)
        return out
    def s_SwitchStmt(self, S, n):
        inner = [x for x in n['inner'] if x.get('kind')]
        try: v = self.rval(S, inner[0])
        except Dead: return []
        if isinstance(v, Bool): v = T.b2i(v)
        body = inner[-1].get('inner', [])
        flat = []          # (labels, stmt); labels None for plain
        def push(st):
            labels = []
            while st['kind'] in ('CaseStmt', 'DefaultStmt'):
                ch = [x for x in st['inner'] if x.get('kind')]
                if st['kind'] == 'CaseStmt': labels.append(self.rval(S, ch[0])); st = ch[-1]
                else: labels.append('default'); st = ch[-1]
            flat.append((labels, st))
        for st in body: push(st)
        allc = [l for ls, _ in flat for l in ls if l != 'default']
        outs = []
        targets = []
        for i, (ls, _) in enumerate(flat):
            for l in ls:
                c = and_(*[ne(v, x) for x in allc]) if l == 'default' else eq(v, l)
                targets.append((c, i))
        if not any(l == 'default' for ls, _ in flat for l in ls): targets.append((and_(*[ne(v, x) for x in allc]), len(flat)))
        acc = None
        for c, i in targets:
            d = self.decide_smt(S, c, 300)
            if d is False: continue
            S1 = S.copy(); S1.assume(c)
            os = []
            for o in self.block(S1, [st for _, st in flat[i:]]):
                os.append(('normal', o[1], None) if o[0] == 'break' else o)
            acc = os if acc is None else self.join(acc, os)
            if d is True: break
        return acc or []
    def s_ForStmt(self, S, n): return self.loop(S, n)
    def s_WhileStmt(self, S, n): return self.loop(S, n)
    def s_DoStmt(self, S, n): return self.loop(S, n)

def uninit_guard(t, seen=None):
    """condition under which the value of t depends on an uninitialised cell"""
    r = FALSE
    if isinstance(t, Num):
        for a in T.atoms_of(t):
            if a.op == 'var' and isinstance(a.args[0], str) and a.args[0].startswith('uninit!'): return TRUE
            if a.op == 'ite':
                r = or_(r, uninit_guard(a.args[0]), and_(a.args[0], uninit_guard(a.args[1])), and_(not_(a.args[0]), uninit_guard(a.args[2])))
            else:
                for x in a.args:
                    if isinstance(x, (Num, Bool)): r = or_(r, uninit_guard(x))
    elif isinstance(t, Bool):
        if not any(x.startswith('uninit!') for x in T.var_names(t) if isinstance(x, str)): return FALSE
        if t.op == 'and':
            # left-to-right strictness is already reflected by evaluation order; be conservative
            for x in t.args:
                g = uninit_guard(x)
                if g is not FALSE: r = or_(r, and_(g, *[y for y in t.args if y is not x and uninit_guard(y) is FALSE]))
            return r
        if t.op == 'or':
            for x in t.args:
                g = uninit_guard(x)
                if g is not FALSE: r = or_(r, and_(g, *[not_(y) for y in t.args if y is not x and uninit_guard(y) is FALSE]))
            return r
        for x in t.args:
            if isinstance(x, (Num, Bool)): r = or_(r, uninit_guard(x))
    return r

def bconst(x): return TRUE if x else FALSE

# ------------------------------------------------------------------ contracts of external functions
def _die(kind):
    def h(ex, S, this, args, n):
        msg = ''
        for a in args:
            if isinstance(a, Ptr) and isinstance(a.single(), Addr) and a.single().region.text: msg = a.single().region.text
        ex.die(S, kind, msg, n)
        raise Dead()
    return h
def die(self, S, kind, msg, n):
    if not self.dry: self.deaths.append((kind, msg, S.pc, S.events, n))
Exec.die = die
_oinit = Exec.__init__
def _init(self, *a, **k):
    self.deaths = []
    _oinit(self, *a, **k)
Exec.__init__ = _init

def h_malloc(ex, S, this, args, n):
    r = ex.alloc_region(S, 'malloc', None, None, 'malloc', n); r.bytes = args[0]
    return ptr(Addr(r, (ZERO,), None))
def h_posix_memalign(ex, S, this, args, n):
    p = args[0]
    r = ex.alloc_region(S, 'malloc', None, None, 'malloc', n); r.bytes = args[2]
    for g, a in ex.cases(S, p, n): ex.write(S, a, ptr(Addr(r, (ZERO,), None)), n)
    ex.assumptions.add('posix_memalign/malloc/realloc succeed (an allocation failure is not modelled)')
    return ZERO
def h_free(ex, S, this, args, n):
    p = args[0]
    for g, t in p.cases:
        if t is None: continue
        if ex.decide_smt(S, g) is False: continue
        S1 = S.copy(); S1.assume(g)
        if t == 'uninit': ex.oblige(S1, 'init', FALSE, n, 'free of an uninitialised pointer'); continue
        ex.release(S1, t, 'malloc', n)
        if ex.decide_smt(S, g) is True: S.set(S1)
        else:
            S2 = S.copy(); S2.assume(not_(g)); S.set(ex.merge2(S1, S2))
    return None
def h_realloc(ex, S, this, args, n):
    p, nb = args
    r = ex.alloc_region(S, 'realloc', None, None, 'malloc', n); r.bytes = nb
    old = None
    for g, t in p.cases:
        if isinstance(t, Addr) and ex.decide_smt(S, g) is not False:
            old = (g, t)
    if old:
        r.elem = old[1].region.elem
        if r.elem is not None: ex.settype(r, r.elem)
        for k in list(S.mem):
            if k[0] == old[1].region.id and k[1] != ('#alive',): S.mem[(r.id, k[1])] = S.mem[k]
    h_free(ex, S, None, [p], n)
    return ptr(Addr(r, (ZERO,), r.elem))
def h_sqrt(ex, S, this, args, n): return T.app('sqrt', (args[0],), 'R')
def h_floor(ex, S, this, args, n): return T.floor_(args[0])
def h_printf(ex, S, this, args, n): return ZERO
def h_memcpy(ex, S, this, args, n):
    d, s, nb = args
    for gd, da in ex.cases(S, d, n, 'memcpy to'):
        for gs, sa in ex.cases(S, s, n, 'memcpy from'):
            if gd is not TRUE or gs is not TRUE: raise Uns('memcpy through several pointers')
            u = da.unit
            if u is None or sa.unit is None or u != sa.unit or ex.prog.is_record(u): raise Uns('memcpy of %s' % u)
            ln = T.polydiv(nb, const(ex.prog.sizeof(u)))
            if ln is None or ln.sort != 'I': ln = T.cdiv(nb, const(ex.prog.sizeof(u)))
            ex.bulk_copy(S, sa, da, ln, u, n)
    return d
def bulk_copy(self, S, sa, da, ln, ty, n):
    k = T.fresh('mc')
    dom = and_(le(ZERO, k), lt(k, ln))
    pc = S.pc; S.assume(dom)
    src = sa.shift(k); dst = da.shift(k)
    self.bound(S, src, n, 'read'); self.bound(S, dst, n, 'write')
    v = self.cread(S, self.content(S, sa.key()), src.idxs(), ty, sa.key())
    S.pc = pc
    S.mem[da.key()] = Comp(self.content(S, da.key()), [k], dom, dst.idxs(), v, n)
    self.event(S, 'memcpy', (sa, da, ln), n)
Exec.bulk_copy = bulk_copy
def h_memset(ex, S, this, args, n):
    d, v, nb = args
    cs = list(ex.cases(S, d, n, 'memset of'))
    if len(cs) != 1 or cs[0][0] is not TRUE or T.cval(v) != 0: raise Uns('memset')
    da = cs[0][1]; u = da.unit
    if u is None or ex.prog.is_record(u) or is_ptr(u) or u in FLT: raise Uns('memset of %s' % u)
    ln = T.polydiv(nb, const(ex.prog.sizeof(u)))
    if ln is None or ln.sort != 'I': raise Uns('memset length')
    k = T.fresh('mc'); dom = and_(le(ZERO, k), lt(k, ln)); pc = S.pc; S.assume(dom); dst = da.shift(k)
    ex.bound(S, dst, n, 'write'); S.pc = pc
    S.mem[da.key()] = Comp(ex.content(S, da.key()), [k], dom, dst.idxs(), ZERO, n)
    return d
def h_strcmp(ex, S, this, args, n):
    a, b = [x.single() for x in args]
    if isinstance(a, Addr) and isinstance(b, Addr):
        ta, tb = a.region.text, b.region.text
        if ta is not None and tb is not None: return ZERO if ta == tb else ONE
        if ta is None: a, b = b, a; ta, tb = tb, ta
        if ta is not None: return ite(T.bapp('streq', (b.region.name, ta)), ZERO, ONE)
    raise Uns('strcmp')
DEFAULT = {
    'Error::all': _die('error'), 'Error::one': _die('abort'), 'exit': _die('exit'), 'abort': _die('exit'),
    'malloc': h_malloc, 'posix_memalign': h_posix_memalign, 'free': h_free, 'realloc': h_realloc,
    'sqrt': h_sqrt, 'floor': h_floor, 'printf': h_printf, 'fprintf': h_printf, 'memcpy': h_memcpy, 'memset': h_memset, 'strcmp': h_strcmp,
}
