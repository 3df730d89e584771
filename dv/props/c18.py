"""C18: contracts of the Python interface (src/fftmpi.py), read against the C prototypes of the same tree.

ensures per method: exactly one call of the C function of that name, on this object's handle, every argument
passed in order as the C type of the prototype, results returned in order; objects are created once with the
communicator given and destroyed once; wrong array types make no call."""
import os
from .. import pyif, front
from .. import terms as T
from ..sym import Uns
from ..pyif import *
from . import c15

API = {'fft': ['set', 'get_int', 'get_int64', 'get_double', 'get_string', 'get_int_vector', 'get_double_vector', 'setup', 'setup_memory', 'compute',
               'only_1d_ffts', 'only_remaps', 'only_one_remap', 'tune'], 'remap': ['set', 'setup', 'remap']}
CLS = {('fft', 3): 'FFT3dMPI', ('fft', 2): 'FFT2dMPI', ('remap', 3): 'Remap3dMPI', ('remap', 2): 'Remap2dMPI'}

class Iface:
    def __init__(self, fam, d, prec):
        self.fam, self.d, self.prec = fam, d, prec
        self.c = c15.World(fam, d, 'single' if prec == 1 else 'double')
        self.cls = CLS[fam, d]; self.pre = '%s%dd_' % (fam, d)
        # symbols of the shared libraries: the interface functions of both families of that dimension
        self.known = {}
        for dd in (2, 3):
            names = set()
            for f in ('fft', 'remap'):
                p = self.c.prog if (f, dd) == (fam, d) else c15.World(f, dd, 'double').prog
                names |= {n for n in p.byname if n.startswith('%s%dd_' % (f, dd))}
            self.known['libfft%ddmpi.so' % dd] = names
        text = open(os.path.join(self.c.prog.src, 'fftmpi.py')).read()
        self.src, self.rewritten = to3(text)
    def proto(self, short):
        fn = self.c.prog.func(self.pre + short)
        rt = self.c.prog.canon(fn['type']['qualType'].split('(')[0].strip())
        return c15.params(self.c, fn), rt
    def load(self, w, commsize):
        g, ct, P = load(w, self.src, self.known, commsize)
        if self.cls not in g: raise Uns('class %s not found' % self.cls)
        return g, ct, P
    def make(self, w, commsize, prec=None, g=None):
        if g is None: g = self.load(w, commsize)
        comm = Opaque(w, 'comm', 'comm')
        o = g[0][self.cls](comm, self.prec if prec is None else prec)
        return o, comm, g

def cmatch(ct, P, pt, ty, commsize, exact=True):
    """does a value converted to ctypes type ty reach a C parameter of type pt unchanged"""
    c = lambda n: ct[n]
    if pt.endswith('fm_comm*'): return ty is (c('c_int') if commsize == 4 else c('c_void_p'))
    if pt == 'int': return ty is c('c_int')
    if pt in ('long', 'int64_t', 'long long'): return ty is c('c_longlong')
    if pt == 'double': return ty is c('c_double')
    if pt == 'float': return ty is c('c_float')
    if pt == 'char*': return ty in (c('c_char_p'), c('c_void_p'))
    if pt == 'void**': return ty is P(c('c_void_p')) or ty is c('c_void_p')
    if pt == 'int*': return ty is P(c('c_int')) or ty is c('c_void_p')
    if pt == 'float*': return ty is P(c('c_float')) or ty is c('c_void_p')
    if pt == 'double*': return ty is P(c('c_double')) or ty is c('c_void_p')
    if pt == 'void*': return ty is c('c_void_p')
    raise Uns('C parameter type ' + pt)
def rmatch(ct, P, rt, ty):
    if rt == 'void': return ty is None or ty is ct['c_int']
    want = {'int': ct['c_int'], 'double': ct['c_double'], 'long': ct['c_longlong'], 'long long': ct['c_longlong'], 'int64_t': ct['c_longlong'],
            'char*': ct['c_char_p'], 'int*': P(ct['c_int']), 'double*': P(ct['c_double'])}.get(rt)
    if want is None: raise Uns('C result type ' + rt)
    return ty is want

class Need:
    def __init__(self, r, name, wit): self.r, self.name, self.wit = r, name, wit
    def __call__(self, c, what, detail=''):
        if c: self.r.ok('%s: %s' % (self.name, what), '', 'symbolic execution of fftmpi.py')
        else: self.r.add('%s: %s' % (self.name, what), 'refuted', detail, 'symbolic execution of fftmpi.py', self.wit)
        return c

def attempt(w, f):
    """(value, exception) of running Python code of the interface"""
    try: v = f()
    except PyUns: return None, None
    except (SystemExit, Exception) as e:
        if w.uns_ is not None: return None, None
        return None, e
    if w.open: w.uns_ = 'a loop over results that ends early'; return None, None
    return v, None

def value_ok(v, want):
    if isinstance(want, SymInt): return isinstance(v, SymInt) and v.t is want.t
    return v is want

def check_call(need, I, ev, short, ct, P, commsize, handle, args, outs_expected=True):
    pts, rt = I.proto(short)
    need(ev.name == I.pre + short, 'calls %s' % (I.pre + short), ev.name)
    if ev.name != I.pre + short: return []
    if not need(len(ev.args) == len(pts), 'number of arguments', '%d instead of %d' % (len(ev.args), len(pts))): return []
    need(rmatch(ct, P, rt, ev.restype), 'result type matches %s' % rt, repr(ev.restype))
    k = 0; outs = []
    for i, pt in enumerate(pts):
        ty, v = ev.args[i]
        need(cmatch(ct, P, pt, ty, commsize), 'argument %d passed as %s' % (i + 1, pt), repr(ty))
        if i == 0: need(v is handle, 'argument 1 is the object', repr(v)); continue
        if pt == 'int*':
            need(isinstance(v, Ref), 'argument %d is a result' % (i + 1), repr(v)); outs.append(ev.outs.get(i)); continue
        if k >= len(args): need(False, 'argument %d' % (i + 1), 'not given'); continue
        a = args[k]; k += 1
        if isinstance(a, ndarray): need(isinstance(v, DataPtr) and v.arr == a.name, 'argument %d is the data of the array' % (i + 1), repr(v))
        else: need(value_ok(v, a), 'argument %d' % (i + 1), '%r instead of %r' % (v, a))
    return outs

def actuals(I, w, short):
    """opaque arguments of a method, by the C prototype without handle and results"""
    pts, rt = I.proto(short); out = []
    for i, pt in enumerate(pts[1:]):
        if pt == 'int*': continue
        n = 'arg%d' % (len(out) + 1)
        out.append(SymInt(w, n) if pt == 'int' else Opaque(w, n, 'double') if pt == 'double' else Str(w, n, 'str') if pt == 'char*' else ndarray(w, n))
    return out

def construct(r, I):
    name = '%s[precision %d].__init__' % (I.cls, I.prec)
    for cs in (4, 8):
        need = Need(r, '%s, %d-byte communicator' % (name, cs), {'cls': I.cls, 'what': 'create'})
        def run(w):
            return attempt(w, lambda: I.make(w, cs))
        for w, (v, e) in explore(run):
            if not need(e is None, 'raises nothing', '%s: %s' % (type(e).__name__, e)): continue
            o, comm, (g, ct, P) = v
            if not need(len(w.events) == 1, 'one C call', repr(w.events)): continue
            ev = w.events[0]; pts, rt = I.proto('create')
            need(ev.name == I.pre + 'create', 'creates the object', ev.name)
            need(ev.lib.name == 'libfft%ddmpi.so' % I.d, 'from the library of that dimension', ev.lib.name)
            if not need(len(ev.args) == len(pts), 'number of arguments', '%d instead of %d' % (len(ev.args), len(pts))): continue
            for i, pt in enumerate(pts): need(cmatch(ct, P, pt, ev.args[i][0], cs), 'argument %d passed as %s' % (i + 1, pt), repr(ev.args[i][0]))
            need(isinstance(ev.args[0][1], tuple) and ev.args[0][1][0] == 'deref' and ev.args[0][1][1][1] is comm, 'the communicator given', repr(ev.args[0][1]))
            if len(pts) == 3: need(ev.args[1][1] == I.prec, 'the precision given', repr(ev.args[1][1]))
            need(isinstance(ev.args[-1][1], Ref), 'handle stored', repr(ev.args[-1][1]))
    need = Need(r, '%s with a precision other than 1, 2' % name, {'cls': I.cls, 'what': 'create'})
    def run(w): return attempt(w, lambda: I.make(w, 8, 3))
    for w, (v, e) in explore(run): need(e is not None and not w.events, 'refused without a C call', repr(w.events))

def handle_of(w):
    """value of the handle stored by create"""
    ev = [e for e in w.events if e.name.endswith('_create')]
    return ev[0].outs.get(len(ev[0].args) - 1) if len(ev) == 1 else None

def method(r, I, short, history=None):
    name = '%s[precision %d].%s' % (I.cls, I.prec, short) + (' after creating an object of the other precision' if history else '')
    need = Need(r, name, {'cls': I.cls, 'what': short})
    bad = None
    def run(w):
        def go():
            o, comm, g = I.make(w, 8)
            h = handle_of(w)
            if history: I.make(w, 8, 3 - I.prec, g)
            n0 = len(w.events); args = actuals(I, w, short)
            return o, g, h, n0, args
        v, e = attempt(w, go)
        if e is not None: return v, e, None, None
        if v is None: return None, None, None, None
        o, g, h, n0, args = v
        res, e2 = attempt(w, lambda: getattr(o, short)(*args))
        return v, None, res, e2
    for w, (v, e, res, e2) in explore(run):
        if not need(e is None, 'object can be created', '%s: %s' % (type(e).__name__, e)): continue
        o, (g, ct, P), h, n0, args = v
        if not need(e2 is None, 'raises nothing', '%s: %s' % (type(e2).__name__, e2)): continue
        evs = w.events[n0:]
        if not need(len(evs) == 1, 'one C call', repr(evs)): continue
        ev = evs[0]; outs = check_call(need, I, ev, short, ct, P, 8, h, args)
        pts, rt = I.proto(short)
        if rt == 'void': want = tuple(outs) if outs else None; ok = (isinstance(res, (tuple, list)) and len(res) == len(want) and all(a is b for a, b in zip(res, want))) if outs else res is None
        elif rt in ('int*', 'double*'):
            if ev.null is None: need(False, 'a NULL result is recognised', repr(res)); continue
            if ev.null: ok = res is None
            else: el = elements(res); ok = el is not None and el[0] is ev and bool(outs) and isinstance(el[1], SymInt) and el[1] is outs[0]
            want = 'None' if ev.null else 'the elements, as many as the C call reports'
        elif rt == 'char*': want = None if ev.null else ev.val; ok = res is want
        else: want = ev.val; ok = res is want
        need(ok, 'returns the result', '%r instead of %r' % (res, want))
    # arrays that are not numpy arrays
    if history: return
    w0 = World([])
    pos = [i for i, a in enumerate(actuals(I, w0, short)) if isinstance(a, ndarray)]
    for i in pos:
        def run2(w):
            def go():
                o, comm, g = I.make(w, 8); n0 = len(w.events); args = actuals(I, w, short); args[i] = NotAnArray(); return o, n0, args
            v, e = attempt(w, go)
            if v is None: return e, None, None
            o, n0, args = v
            res, e2 = attempt(w, lambda: getattr(o, short)(*args))
            return None, e2, w.events[n0:]
        for w, (e, e2, evs) in explore(run2):
            if e is not None: continue
            need(e2 is not None and not evs, 'argument %d that is not a numpy array is refused without a C call' % (i + 1), repr(evs))

def life(r, I):
    for hist in ('del', 'destroy, del'):
        name = '%s[precision %d]: %s' % (I.cls, I.prec, hist); need = Need(r, name, {'cls': I.cls, 'what': 'destroy'})
        def run(w):
            def go():
                o, comm, g = I.make(w, 8); h = handle_of(w); n0 = len(w.events); return o, g, h, n0
            v, e = attempt(w, go)
            if v is None: return v, e, None
            o = v[0]
            def end():
                if hist != 'del': o.destroy()
                d = getattr(type(o), '__del__', None)
                if d is not None: d(o)
            return v, None, attempt(w, end)[1]
        for w, (v, e, e2) in explore(run):
            if not need(e is None, 'object can be created', '%s: %s' % (type(e).__name__, e)): continue
            need(e2 is None, 'raises nothing', '%s: %s' % (type(e2).__name__, e2))
            o, (g, ct, P), h, n0 = v; evs = w.events[n0:]
            if not need(len(evs) == 1, 'destroyed exactly once', repr(evs)): continue
            check_call(need, I, evs[0], 'destroy', ct, P, 8, h, [])
    r.functions.add('fftmpi.py:%s' % I.cls)

def group(r, fam, d, prec):
    from ..prop import guarded
    import sys
    sys.unraisablehook = lambda *a: None      # objects of finished scenarios go away unobserved
    try: I = Iface(fam, d, prec); compile(I.src, 'fftmpi.py', 'exec')
    except SyntaxError as e: r.add('fftmpi.py', 'undecided', 'outside the translated Python 2 subset: %s' % e); return
    guarded(r, '%s.__init__' % I.cls, construct, I)
    for m in API[fam]:
        guarded(r, '%s.%s' % (I.cls, m), method, I, m)
        r.functions.add('fftmpi.py:%s.%s' % (I.cls, m))
    guarded(r, '%s.%s history' % (I.cls, 'compute' if fam == 'fft' else 'remap'), method, I, 'compute' if fam == 'fft' else 'remap', 1)
    guarded(r, '%s lifetime' % I.cls, life, I)

def tasks(tier):
    return [('dv.props.c18', 'group', (fam, d, p), '%s precision %d' % (CLS[fam, d], p)) for fam in ('fft', 'remap') for d in (3, 2) for p in (1, 2)]
HARNESS = [('h_py', 'py')]
CFGS = ['kiss-double', 'kiss-single']
def replay(w): return ('h_py', ['py', '0', '1'])
TRUSTED = ['contracts of ctypes, numpy.ndarray.ctypes.data_as and mpi4py in dv/pyif.py', 'CPython 3 executes the mechanically translated source (print statements, two-argument raise) as Python 2 would']
ASSUMPTIONS = ['arrays passed have the element type of the precision and stay alive as the C interface requires', 'get_string results are not empty', 'the C functions meet C15']
