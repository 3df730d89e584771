"""Python interface: symbolic execution of the real src/fftmpi.py.

The source is Python 2; exactly two constructs are rewritten mechanically, line by line, to be parsed here
(print statements, two-argument raise); nothing else is touched.  The module then runs with every argument an
opaque symbol: ctypes, numpy and mpi4py are replaced by their contracts (argument conversion by argtypes,
default conversion without, restype, byref results, NULL results as a case split).  An operation that would look
inside a symbol is outside the dialect (Uns), so what is established holds for all argument values."""
import re, os, builtins, types
from . import terms as T
from .sym import Uns

def to3(text):
    """mechanical translation of the two Python 2 constructs -> text, number of rewritten lines"""
    out = []; n = 0
    text = re.sub(r'\\\n', ' ', text)                       # explicit line joining
    for l in text.split('\n'):
        m = re.match(r'^(\s*|\s*[^#\'"]*:\s+)print\s+(?!\()(.*\S)\s*$', l)
        if m: l = '%sprint(%s)' % m.groups(); n += 1
        m = re.match(r'^(\s*|\s*[^#\'"]*:\s+)raise\s+(\w+)\s*,\s*(.*\S)\s*$', l)
        if m: l = '%sraise %s(%s)' % m.groups(); n += 1
        out.append(l)
    return '\n'.join(out), n

class PyUns(BaseException): pass
class World:
    """one run: decisions of the case splits, recorded C calls"""
    def __init__(self, decisions):
        self.dec = list(decisions); self.taken = []; self.events = []; self.uns_ = None; self.n = 0; self.libs = []; self.open = 0
    def uns(self, what):
        if self.uns_ is None: self.uns_ = what
        raise PyUns(what)
    def fork(self, what):
        i = len(self.taken); v = self.dec[i] if i < len(self.dec) else False
        self.taken.append(v); return v

def explore(run, limit=256):
    """all paths of run(World) -> list of (world, result)"""
    todo = [[]]; out = []
    while todo:
        d = todo.pop(); w = World(d); r = run(w)
        if w.uns_ is not None: raise Uns('fftmpi.py: ' + w.uns_)
        out.append((w, r))
        if len(out) > limit: raise Uns('fftmpi.py: too many paths')
        for i in range(len(d), len(w.taken)): todo.append(w.taken[:i] + [not w.taken[i]])
    return out

_OPS = ('__len__ __iter__ __getitem__ __setitem__ __contains__ __int__ __index__ __float__ __abs__ __lt__ __le__ __gt__ __ge__ __eq__ __ne__ '
        '__bool__ __mul__ __rmul__ __mod__ __rmod__ __truediv__ __floordiv__ __and__ __or__ __xor__ __invert__ __lshift__ __rshift__ __pow__ __call__ '
        '__str__ __format__ __enter__ __exit__ __hash__ __add__ __radd__ __sub__ __rsub__ __neg__ __pos__').split()
class Opaque:
    def __init__(self, w, name, kind): d = object.__setattr__; d(self, 'w', w); d(self, 'name', name); d(self, 'kind', kind)
    def __getattr__(self, a):
        if a.startswith('__') and a.endswith('__'): raise AttributeError(a)
        self.w.uns('attribute %s of argument %s' % (a, self.name))
    def __setattr__(self, a, v): self.w.uns('attribute %s of argument %s' % (a, self.name))
    def __repr__(self): return self.name
def _mk(op):
    def f(self, *a): self.w.uns('%s of argument %s' % (op, self.name))
    return f
for _o in _OPS: setattr(Opaque, _o, _mk(_o))
class SymInt(Opaque):
    """integer argument: a term; arithmetic with integers stays a term"""
    __hash__ = None
    def __init__(self, w, name, term=None): Opaque.__init__(self, w, name, 'int'); object.__setattr__(self, 't', term if term is not None else T.var(name))
    def _lift(self, o):
        if isinstance(o, SymInt): return o.t
        if isinstance(o, int) and not isinstance(o, bool): return T.const(o)
        self.w.uns('arithmetic with %s' % type(o).__name__)
    def __add__(self, o): t = T.add(self.t, self._lift(o)); return SymInt(self.w, str(t), t)
    __radd__ = __add__
    def __sub__(self, o): t = T.sub(self.t, self._lift(o)); return SymInt(self.w, str(t), t)
    def __rsub__(self, o): t = T.sub(self._lift(o), self.t); return SymInt(self.w, str(t), t)
    def __neg__(self): t = T.sub(T.const(0), self.t); return SymInt(self.w, str(t), t)
    def __repr__(self): return str(self.t)
class Loop:
    """for over 0..n-1 with a symbolic n: one run of the body for a generic index; leaving it early or calling C in it leaves the dialect"""
    def __init__(self, w, item): self.w, self.item, self.st = w, item, 0
    def __iter__(self): return self
    def __next__(self):
        if self.st == 0: self.st = 1; self.w.open += 1; return self.item
        if self.st == 1: self.w.open -= 1; self.st = 2
        raise StopIteration
class Index(Opaque):
    __hash__ = None
    def __init__(self, w, n): Opaque.__init__(self, w, 'index', 'index'); object.__setattr__(self, 'n', n)
class Elem(Opaque):
    """element number i of result ev, generic i < n"""
    __hash__ = None
    def __init__(self, w, ev, n): Opaque.__init__(self, w, 'element', 'element'); object.__setattr__(self, 'ev', ev); object.__setattr__(self, 'n', n)
    def __repr__(self): return 'element of %s below %r' % (self.ev.name, self.n)
class Elements:
    def __init__(self, w, ev, n): self.w, self.ev, self.n = w, ev, n
    def __iter__(self): return Loop(self.w, Elem(self.w, self.ev, self.n))
    def __getattr__(self, a):
        if a.startswith('__') and a.endswith('__'): raise AttributeError(a)
        self.w.uns('%s of a list of results' % a)
    def __bool__(self): self.w.uns('truth of a list of results')
    def __getitem__(self, i): self.w.uns('element of a list of results')
    def __repr__(self): return 'first %r elements of the result of %s' % (self.n, self.ev.name)
def elements(res):
    """(event, count) of a list of all elements, however built"""
    if isinstance(res, Elements): return res.ev, res.n
    if isinstance(res, list) and len(res) == 1 and isinstance(res[0], Elem): return res[0].ev, res[0].n
    return None
class Str(Opaque):
    def encode(self, *a): return self
    def __bool__(self): return True

# ------------------------------------------------------------------ ctypes
class CT:
    """a simple ctypes type"""
    def __init__(self, w, name, size, py): self.w, self.__name__, self.size, self.py = w, name, size, py
    def __call__(self, v=None): return CVal(self, v)
    def from_address(self, a): return CVal(self, ('deref', a))
    def __getattr__(self, a):
        if a.startswith('__') and a.endswith('__'): raise AttributeError(a)
        self.w.uns('ctypes %s.%s' % (self.__name__, a))
    def __mul__(self, n): self.w.uns('ctypes array')
    __rmul__ = __mul__
    def __repr__(self): return self.__name__
class CVal:
    def __init__(self, ty, v): self.ty, self.value = ty, v
    def __bool__(self): self.ty.w.uns('truth of a ctypes object')
    def __repr__(self): return '%s(%r)' % (self.ty, self.value)
class PT:
    def __init__(self, w, to): self.w, self.to = w, to
    def __call__(self, *a): self.w.uns('pointer constructor')
    def __repr__(self): return 'POINTER(%r)' % (self.to,)
class Ref:
    def __init__(self, v): self.v = v
    def __repr__(self): return 'byref(%r)' % (self.v,)
class DataPtr:
    """address of the data of an array, typed"""
    def __init__(self, arr, ty): self.arr, self.ty = arr, ty
    def __repr__(self): return '%s.data as %r' % (self.arr, self.ty)
class Result:
    """pointer returned by a C call; NULL or not is a case split"""
    def __init__(self, w, ev, ty): self.w, self.ev, self.ty = w, ev, ty
    def __bool__(self):
        if self.ev.null is None: self.ev.null = self.w.fork('NULL')
        return not self.ev.null
    def __getitem__(self, s):
        if isinstance(s, slice) and s.start in (None, 0) and s.step in (None, 1):
            if not self: raise ValueError('NULL pointer access')
            return Elements(self.w, self.ev, s.stop)
        if isinstance(s, Index):
            if not self: raise ValueError('NULL pointer access')
            return Elem(self.w, self.ev, s.n)
        self.w.uns('element of a result pointer')
    def __repr__(self): return 'result of %s' % self.ev.name
class Event:
    def __init__(self, name, cargs, lib, restype): self.name, self.args, self.lib, self.restype = name, cargs, lib, restype; self.outs = {}; self.null = None; self.val = None
    def __repr__(self): return '%s(%s)' % (self.name, ', '.join('%r' % (a,) for a in self.args))
class ArgumentError(Exception): pass
class CFunc:
    def __init__(self, lib, name): self.__dict__.update(lib=lib, __name__=name, argtypes=None, restype=lib.ct['c_int'])
    def __setattr__(self, a, v):
        if a not in ('argtypes', 'restype'): self.lib.w.uns('attribute %s of a C function' % a)
        if a == 'argtypes' and v is not None: v = list(v)
        self.__dict__[a] = v
    def conv(self, i, a, ty):
        """ctypes argument conversion -> (C type, value)"""
        w = self.lib.w; ct = self.lib.ct
        def bad(): raise ArgumentError('argument %d: %r is not %r' % (i + 1, a, ty))
        if isinstance(a, UnsObj): a.hit()
        if ty is None:
            if isinstance(a, SymInt) or (isinstance(a, int) and not isinstance(a, bool)): return ct['c_int'], a
            if isinstance(a, CVal): return a.ty, a.value
            if isinstance(a, Ref): return PTR(self.lib, a.v.ty), a
            if isinstance(a, DataPtr): return a.ty, a
            if isinstance(a, (Str, bytes)): return ct['c_char_p'], a
            if a is None: return ct['c_void_p'], None
            bad()
        if isinstance(ty, CT):
            if isinstance(a, CVal):
                if a.ty is ty: return ty, a.value
                bad()
            if ty.py == 'int':
                if isinstance(a, SymInt) or (isinstance(a, int) and not isinstance(a, bool)): return ty, a
                bad()
            if ty.py == 'float':
                if isinstance(a, (SymInt, int, float)) or (isinstance(a, Opaque) and a.kind == 'double'): return ty, a
                bad()
            if ty.__name__ == 'c_char_p':
                if isinstance(a, (Str, bytes)) or a is None: return ty, a
                bad()
            if ty.__name__ == 'c_void_p':
                if isinstance(a, (Ref, DataPtr, Result)) or a is None: return ty, a
                if isinstance(a, (SymInt, int)): return ty, a
                bad()
            bad()
        if isinstance(ty, PT):
            if isinstance(a, Ref):
                if a.v.ty is ty.to: return ty, a
                bad()
            if isinstance(a, DataPtr):
                if a.ty is ty: return ty, a
                bad()
            if a is None: return ty, None
            bad()
        w.uns('argtypes entry %r' % (ty,))
    def __call__(self, *args, **kw):
        w = self.lib.w
        if kw: w.uns('keyword arguments of a C function')
        if w.open: w.uns('C call in a loop over results')
        at = self.argtypes
        if at is not None and len(args) < len(at): raise TypeError('%s takes at least %d arguments (%d given)' % (self.__name__, len(at), len(args)))
        ev = Event(self.__name__, [], self.lib, self.restype)
        ev.args = [self.conv(i, a, at[i] if at is not None and i < len(at) else None) for i, a in enumerate(args)]
        w.events.append(ev)
        for i, (t, v) in enumerate(ev.args):
            if isinstance(v, Ref):
                w.n += 1; nm = 'out%d.%d' % (w.n, i)
                v.v.value = SymInt(w, nm) if v.v.ty.py == 'int' else Opaque(w, nm, v.v.ty.__name__)
                ev.outs[i] = v.v.value
        rt = self.restype
        if rt is None: return None
        if isinstance(rt, PT): ev.val = Result(w, ev, rt); return ev.val
        if isinstance(rt, CT):
            if rt.__name__ == 'c_char_p':
                ev.null = w.fork('NULL')
                ev.val = None if ev.null else Str(w, 'string of %s' % ev.name, 'str'); return ev.val
            w.n += 1; ev.val = SymInt(w, 'ret%d' % w.n) if rt.py == 'int' else Opaque(w, 'ret%d' % w.n, 'double'); return ev.val
        w.uns('restype %r' % (rt,))
def PTR(lib, ty): return lib.pt(ty)
class Lib:
    def __init__(self, w, name, ct, pt, known): self.__dict__.update(w=w, name=name, ct=ct, pt=pt, known=known, fns={})
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        if a not in self.known.get(self.name, ()): raise AttributeError('%s: undefined symbol: %s' % (self.name, a))
        if a not in self.fns: self.fns[a] = CFunc(self, a)
        return self.fns[a]
    def __getitem__(self, a): return getattr(self, a)
class UnsObj:
    def __init__(self, w, name): self.__dict__.update(w=w, name=name)
    def hit(self): self.w.uns('use of ' + self.name)
    def __call__(self, *a, **k): self.hit()
    def __getattr__(self, a):
        if a.startswith('__') and a.endswith('__'): raise AttributeError(a)
        self.hit()
def ns(w, label, **kw):
    """stub module: known names, everything else outside the dialect"""
    m = types.ModuleType(label); m.__dict__.update(kw)
    m.__getattr__ = lambda a: w.uns('%s.%s' % (label, a)) if not a.startswith('__') else (_ for _ in ()).throw(AttributeError(a))
    return m

class ndarray:
    """a numpy array argument"""
    def __init__(self, w, name):
        self.name = name
        class C: pass
        self.ctypes = C(); self.ctypes.data_as = lambda ty: DataPtr(name, ty)
        self._w = w
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        self._w.uns('attribute %s of array %s' % (a, self.name))
    def __repr__(self): return self.name
ndarray.__module__ = 'numpy'
class NotAnArray: pass

def load(w, src3, known, commsize):
    """executes the module against the contracts -> namespace"""
    import ctypes as real
    pts = {}
    def POINTER(ty):
        if id(ty) not in pts: pts[id(ty)] = (PT(w, ty), ty)
        return pts[id(ty)][0]
    ct = {n: UnsObj(w, 'ctypes.' + n) for n in dir(real) if not n.startswith('_')}
    for n, s, k in (('c_int', 4, 'int'), ('c_longlong', 8, 'int'), ('c_uint', 4, 'uint'), ('c_short', 2, 'short'), ('c_char', 1, 'char'), ('c_float', 4, 'float'), ('c_double', 8, 'float'),
                    ('c_void_p', 8, 'ptr'), ('c_char_p', 8, 'str'), ('c_size_t', 8, 'uint')): ct[n] = CT(w, n, s, k)
    ct['c_int32'] = ct['c_int']; ct['c_int64'] = ct['c_long'] = ct['c_longlong']
    def sizeof(t):
        if isinstance(t, CT): return t.size
        if isinstance(t, CVal): return t.ty.size
        w.uns('sizeof')
    def byref(v, *a):
        if a or not isinstance(v, CVal): raise TypeError('byref() argument must be a ctypes instance')
        return Ref(v)
    def CDLL(name, mode=None, **kw):
        if kw or not isinstance(name, str): w.uns('CDLL arguments')
        l = Lib(w, name, ct, POINTER, known); w.libs.append(name); return l
    def cast(p, ty):
        if isinstance(p, DataPtr): return DataPtr(p.arr, ty)
        w.uns('cast')
    ct.update(POINTER=POINTER, sizeof=sizeof, byref=byref, pointer=byref, CDLL=CDLL, cast=cast, RTLD_GLOBAL=256, RTLD_LOCAL=0, ArgumentError=ArgumentError)
    mct = ns(w, 'ctypes', **ct); mct.__all__ = sorted(ct)
    class MPIc: pass
    MPI = ns(w, 'MPI', _sizeof=lambda c: commsize, _addressof=lambda c: ('address', c))
    mods = {'ctypes': mct, 'numpy': ns(w, 'numpy', ndarray=ndarray), 'mpi4py': ns(w, 'mpi4py', MPI=MPI), 'mpi4py.MPI': MPI,
            'traceback': ns(w, 'traceback', print_exception=lambda *a: None, print_exc=lambda *a: None)}
    def sysexit(*a): raise SystemExit(*a)
    import sys
    mods['sys'] = ns(w, 'sys', exit=sysexit, exc_info=lambda: sys.exc_info(), version_info=(2, 7, 18, 'final', 0), stdout=ns(w, 'stdout', write=lambda *a: None, flush=lambda: None),
                     stderr=ns(w, 'stderr', write=lambda *a: None, flush=lambda: None))
    def imp(name, g=None, l=None, fromlist=(), level=0):
        if name in mods: return mods[name] if fromlist or '.' not in name else mods[name.split('.')[0]]
        if name.split('.')[0] in ('functools', 'itertools', 'collections', '__future__', 'operator'): return builtins.__import__(name, g, l, fromlist, level)
        w.uns('import ' + name)
    class RangeM(type):
        def __instancecheck__(cls, o): return isinstance(o, range)
        def __call__(cls, *a):
            if len(a) == 2 and a[0] == 0: a = a[1:]
            if len(a) == 1 and isinstance(a[0], SymInt): return Loop(w, Index(w, a[0]))
            return range(*a)
    class rng(metaclass=RangeM): pass
    b = dict(vars(builtins)); b.update(__import__=imp, range=rng, len=lambda x: w.uns('length of a list of results') if isinstance(x, Elements) else len(x), print=lambda *a, **k: None, xrange=rng, unicode=str, basestring=str, long=int,
                                        open=UnsObj(w, 'open'), exec=UnsObj(w, 'exec'), eval=UnsObj(w, 'eval'))
    g = {'__builtins__': b, '__name__': 'fftmpi'}
    exec(compile(src3, 'fftmpi.py', 'exec'), g)
    return g, ct, POINTER
