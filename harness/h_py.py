"""bounded run of the real src/fftmpi.py against the real C library (in-process MPI): h_py.py SRC LIBDIR PREC TOPIC FROM TO [-tSECS] [-v]"""
import sys, os, re, random, time, types, ctypes, traceback, subprocess
SRC, LIBD, PREC = sys.argv[1], sys.argv[2], int(sys.argv[3])
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv.pyif import to3
import numpy as np
fm = ctypes.CDLL(os.path.join(LIBD, 'libfmpy.so'), ctypes.RTLD_GLOBAL)
fm.fm_world_handle.restype = ctypes.c_void_p
class Comm:
    def __init__(self): self.v = ctypes.c_void_p(fm.fm_world_handle())
MPI = types.ModuleType('mpi4py.MPI'); MPI._sizeof = lambda c: 8; MPI._addressof = lambda c: ctypes.addressof(c.v)
m4 = types.ModuleType('mpi4py'); m4.MPI = MPI; sys.modules['mpi4py'] = m4; sys.modules['mpi4py.MPI'] = MPI
counts = {}
_CDLL = ctypes.CDLL
def CDLL(name, *a, **k): return _CDLL(os.path.join(LIBD, name) if '/' not in name else name, *a, **k)
ctypes.CDLL = CDLL
text = open(os.path.join(SRC, 'fftmpi.py')).read()
PY2 = dict(xrange=range, unicode=str, basestring=str, long=int)
mod = types.ModuleType('fftmpi'); mod.__dict__.update(PY2); exec(compile(to3(text)[0], 'fftmpi.py', 'exec'), mod.__dict__)
unraised = []
sys.unraisablehook = lambda u: unraised.append(repr(u.exc_value))
DT = np.float32 if PREC == 1 else np.float64; TOL = 2e-4 if PREC == 1 else 1e-9
class Bad(Exception): pass
def need(c, m):
    if not c: raise Bad(m)
def block(n, P, i): return n * i // P, n * (i + 1) // P - 1
def near(a, b, m): need(a.shape == b.shape and (a.size == 0 or np.max(np.abs(a - b)) <= TOL * max(1.0, np.max(np.abs(b)))), m)
def flat(z): f = np.empty(2 * z.size, DT); f[0::2] = z.real.ravel(); f[1::2] = z.imag.ravel(); return f
def cplx(f, n): return f[0:2 * n:2].astype(np.float64) + 1j * f[1:2 * n:2]
def fft_case(d, me, P, c):
    n = c['n']; cls = mod.FFT3dMPI if d == 3 else mod.FFT2dMPI            # axes: fast first; C order arrays have fast last
    f = cls(Comm(), PREC)
    for k in ('collective', 'exchange', 'pack', 'scale'): f.set(k.encode(), c[k])
    f.set(b'memory', c['memory']); f.set(b'remaponly', 0)
    for k in ('collective', 'exchange', 'pack'): need(f.get_int(k.encode()) == c[k], 'get_int(%s)' % k)
    need(f.get_string(b'precision') == (b'single' if PREC == 1 else b'double'), 'get_string(precision)'); need(f.get_string(b'nosuch') is None, 'get_string of an unknown keyword')
    lo, hi = block(n[-1], P, me)                                            # input tile: slab in the slowest direction
    box = sum(([0, m - 1] for m in n[:-1]), []) + [lo, hi]
    olo, ohi = block(n[0], P, me); obox = [olo, ohi] + sum(([0, m - 1] for m in n[1:]), [])   # output tile: slab in the fastest direction
    if c['same']: obox = list(box); olo, ohi = 0, n[0] - 1
    if c['tune']: args = n + box + obox + [c['permute'], 0, 1, 10.0, 0]; sz = f.tune(*args)
    else: sz = f.setup(*(n + box + obox + [c['permute']]))
    need(isinstance(sz, tuple) and len(sz) == 3 and all(isinstance(x, int) for x in sz), 'setup result %r' % (sz,))
    fftsize, ss, rs = sz
    rng = np.random.RandomState(c['seed']); full = (rng.rand(*n[::-1]) - .5) + 1j * (rng.rand(*n[::-1]) - .5)
    mine = full[lo:hi + 1]; ref = np.fft.fftn(full)
    nout = (ohi - olo + 1) * int(np.prod(n[1:])) if not c['same'] else mine.size
    need(fftsize >= max(mine.size, nout), 'fftsize %d' % fftsize)
    if not c['memory']:
        sb = np.zeros(max(1, ss), DT); rb = np.zeros(max(1, rs), DT); f.setup_memory(sb, rb)
    if c['tune']:
        nt = f.get_int(b'ntrial'); need(nt >= 1, 'ntrial')
        for k in ('cflags', 'eflags', 'pflags'): v = f.get_int_vector(k.encode()); need(len(v) == nt and all(0 <= x <= 2 for x in v), 'get_int_vector(%s) %r' % (k, v))
        for k in ('tfft', 't1d', 'tremap', 'tremap%d' % (d + 1)): v = f.get_double_vector(k.encode()); need(len(v) == nt and all(0 <= x < 1e6 for x in v), 'get_double_vector(%s)' % k)
    need(f.get_int_vector(b'nosuch') is None and f.get_double_vector(b'nosuch') is None, 'vector of an unknown keyword')
    need(0 <= f.get_int64(b'memusage') < 1 << 40, 'get_int64(memusage)'); need(not c['tune'] or 0 <= f.get_double(b'setuptime') < 1e6, 'get_double(setuptime)')
    a = np.zeros(2 * max(1, fftsize), DT); a[:2 * mine.size] = flat(mine); b = np.zeros_like(a) if c['two'] else a
    f.compute(a, b, 1)
    mref = ref[..., olo:ohi + 1] if not c['same'] else ref[lo:hi + 1]
    if c['permute']: mref = np.transpose(mref, (0, 2, 1) if False else tuple(np.roll(range(d), c['permute'])))
    near(cplx(b, mref.size), np.ascontiguousarray(mref).ravel(), 'forward transform (n=%s)' % n)
    o = np.zeros_like(b) if c['two'] else b
    f.compute(b, o, -1); k = 1.0 if c['scale'] else float(np.prod(n))
    near(cplx(o, mine.size) / k, mine.ravel(), 'backward transform')
    z = np.zeros_like(a); z[:2 * mine.size] = flat(mine); f.only_remaps(z, z, 1)
    m2 = (full[..., olo:ohi + 1] if not c['same'] else mine)
    if c['permute']: m2 = np.transpose(m2, tuple(np.roll(range(d), c['permute'])))
    near(cplx(z, m2.size), np.ascontiguousarray(m2).ravel(), 'only_remaps')
    z[:] = 0; f.only_1d_ffts(z, 1); need(np.all(z == 0), 'only_1d_ffts of zeroes')
    z[:] = 0; z[:2 * mine.size] = flat(mine); tot = d + 1
    for w in range(1, tot + 1): f.only_one_remap(z, z, 1, w)
    near(cplx(z, m2.size), np.ascontiguousarray(m2).ravel(), 'only_one_remap 1..%d' % tot)
    for bad in (lambda: f.compute([0.0], a, 1), lambda: f.only_1d_ffts([0.0], 1)):
        try: bad(); need(False, 'a list is accepted as data')
        except SystemExit: pass
    if c['destroy']: f.destroy()
    del f
def remap_case(d, me, P, c):
    n = c['n']; cls = mod.Remap3dMPI if d == 3 else mod.Remap2dMPI
    r = cls(Comm(), PREC); r.set(b'collective', 1 if c['collective'] else 0); r.set(b'pack', c['pack'])
    lo, hi = block(n[-1], P, me); box = sum(([0, m - 1] for m in n[:-1]), []) + [lo, hi]
    olo, ohi = block(n[0], P, me); obox = [olo, ohi] + sum(([0, m - 1] for m in n[1:]), [])
    q = c['nqty']; sz = r.setup(*(box + obox + [q, c['permute'], 0]))
    need(isinstance(sz, tuple) and len(sz) == 2 and all(isinstance(x, int) for x in sz), 'setup result %r' % (sz,))
    full = np.arange(int(np.prod(n)) * q, dtype=np.float64).reshape(*(n[::-1] + [q]))
    mine = full[lo:hi + 1]; want = full[..., olo:ohi + 1, :]
    if c['permute']: want = np.transpose(want, tuple(np.roll(range(d), c['permute'])) + (d,))
    a = np.zeros(max(1, mine.size), DT); a[:mine.size] = mine.ravel(); b = np.zeros(max(1, want.size), DT)
    r.remap(a, b, np.zeros(max(1, sz[0]), DT), np.zeros(max(1, sz[1]), DT))
    near(b[:want.size].astype(np.float64), np.ascontiguousarray(want).ravel(), 'remap')
    if c['destroy']: r.destroy()
    del r
def case(s):
    R = random.Random(s * 7919 + PREC); d = R.choice((2, 3)); P = R.choice((1, 1, 2, 3)); kind = R.choice(('fft', 'fft', 'fft', 'remap'))
    c = dict(n=[R.choice((2, 3, 4, 5, 6, 8)) for _ in range(d)], collective=R.randrange(3), exchange=R.randrange(2), pack=R.randrange(3), scale=R.randrange(2), memory=R.randrange(2),
             same=R.randrange(2), tune=R.randrange(4) == 0, two=R.randrange(2), permute=R.randrange(d), destroy=R.randrange(2), seed=s, nqty=R.choice((1, 2, 3)))
    if c['tune']: c['memory'] = 1
    desc = '%s%dd P=%d %s' % (kind, d, P, c); errs = []; del unraised[:]
    def body(me):
        try: (fft_case if kind == 'fft' else remap_case)(d, me, P, c)
        except Bad as e: errs.append('rank %d: %s' % (me, e))
        except BaseException as e: errs.append('rank %d: %s: %s %s' % (me, type(e).__name__, e, traceback.format_exc().strip().split('\n')[-3:-1]))
        if errs and P > 1: print('FAIL C18 seed=%d %s :: %s' % (s, errs[0].replace('\n', ' '), desc), flush=True); os._exit(1)
    cb = ctypes.CFUNCTYPE(None, ctypes.c_int)(body); msg = ctypes.create_string_buffer(4000); live = (ctypes.c_int * 3)()
    rc = fm.fm_pyrun(P, cb, ctypes.c_ulong(s + 1), msg, 4000, live)
    import gc; gc.collect()
    if rc: errs.append(msg.value.decode(errors='replace'))
    if not errs and any(live): errs.append('MPI objects left after destruction: %s' % list(live))
    if unraised: errs.append('exception in __del__: %s' % unraised[0])
    return desc, errs

# ---- the real module and the real ctypes against C functions that only record their arguments: any value, any result
API = {'fft': ['set', 'get_int', 'get_int64', 'get_double', 'get_string', 'get_int_vector', 'get_double_vector', 'setup', 'setup_memory', 'compute',
               'only_1d_ffts', 'only_remaps', 'only_one_remap', 'tune'], 'remap': ['set', 'setup', 'remap']}
def prototypes():
    """name -> (result, parameter kinds) from the C headers of the same tree"""
    P = {}
    for fam in ('fft', 'remap'):
        for d in (2, 3):
            t = open(os.path.join(SRC, '%s%dd_wrap.h' % (fam, d))).read()
            t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S); t = re.sub(r'//[^\n]*|^#[^\n]*', ' ', t, flags=re.M)
            for rt, nm, ps in re.findall(r'([\w \t]+?[\s*]+)(%s%dd_\w+)\s*\(([^;]*?)\)\s*;' % (fam, d), t):
                def kind(x):
                    x = re.sub(r'\bconst\b', '', x).strip()
                    if 'MPI_Comm' in x: return 'comm'
                    b = re.match(r'(\w+)', x).group(1); st = x.count('*') + x.count('&')
                    return b + '*' * st
                P[nm] = (kind(rt), [kind(x) for x in ps.split(',')])
    return P
CT = {'int': 'int', 'int64_t': 'int64_t', 'long': 'long', 'double': 'double', 'float': 'float', 'MPI_Fint': 'int'}
def recorder(P, commsize):
    D = os.path.join(LIBD, 'rec%d' % commsize); os.makedirs(D, exist_ok=True)
    for d in (2, 3):
        L = ['#include <stdint.h>', '#include <string.h>', 'int64_t rec_i[40]; double rec_d[40]; char rec_s[200]; int rec_n, rec_calls; char rec_name[80];',
             'int64_t ret_i; double ret_d; void *ret_p; int outs[8];']
        for nm, (rt, ps) in P.items():
            if '%dd_' % d not in nm: continue
            c = lambda k: ('int' if commsize == 4 else 'void*') if k == 'comm' else 'void*' if k.endswith('*') else CT[k]
            B = ['rec_calls++; strcpy(rec_name,"%s"); rec_n=%d; int o=0;' % (nm, len(ps))]
            for i, k in enumerate(ps):
                B.append(('rec_d[%d]=a%d;' if k in ('double', 'float') else 'rec_i[%d]=(int64_t)a%d;') % (i, i))
                if k == 'char*': B.append('strncpy(rec_s,(char*)a%d,199);' % i)
                if k == 'int*': B.append('*(int*)a%d=outs[o++];' % i)
                if k == 'void**': B.append('*(int64_t*)a%d=ret_i;' % i)
            B.append('' if rt == 'void' else 'return ret_p;' if rt.endswith('*') else 'return ret_d;' if rt in ('double', 'float') else 'return (%s)ret_i;' % CT[rt])
            L.append('%s %s(%s){ %s }' % ('void' if rt == 'void' else 'void*' if rt.endswith('*') else CT[rt], nm, ', '.join('%s a%d' % (c(k), i) for i, k in enumerate(ps)), ' '.join(B)))
        f = os.path.join(D, 'rec%d.c' % d); open(f, 'w').write('\n'.join(L) + '\n')
        subprocess.check_call(['gcc', '-shared', '-fPIC', '-w', '-Wl,-Bsymbolic', '-o', os.path.join(D, 'libfft%ddmpi.so' % d), f])
    return D
def record():
    P = prototypes(); R = random.Random(12345 + PREC); n = 0
    INTS = (0, 1, -1, 5, -5, 77, 2**31 - 1, -2**31, 123456789)
    for csize in (8, 4):
        D = recorder(P, csize)
        ctypes.CDLL = lambda name, *a, **k: _CDLL(os.path.join(D, name), *a, **k)
        cv = ctypes.c_void_p(0x1122334455667788) if csize == 8 else ctypes.c_int(-77); comm = types.SimpleNamespace(v=cv)
        MPI._sizeof = lambda c: csize
        m = types.ModuleType('fftmpi'); m.__dict__.update(PY2); exec(compile(to3(text)[0], 'fftmpi.py', 'exec'), m.__dict__)
        ctypes.CDLL = CDLL
        for fam in ('fft', 'remap'):
            for d in (3, 2):
                L = _CDLL(os.path.join(D, 'libfft%ddmpi.so' % d)); g = lambda ty, x: ty.in_dll(L, x)
                reci = (ctypes.c_int64 * 40).in_dll(L, 'rec_i'); recd = (ctypes.c_double * 40).in_dll(L, 'rec_d'); outs = (ctypes.c_int * 8).in_dll(L, 'outs')
                calls = ctypes.c_int.in_dll(L, 'rec_calls'); name = (ctypes.c_char * 80).in_dll(L, 'rec_name'); recs = (ctypes.c_char * 200).in_dll(L, 'rec_s')
                ri, rd, rp = ctypes.c_int64.in_dll(L, 'ret_i'), ctypes.c_double.in_dll(L, 'ret_d'), ctypes.c_void_p.in_dll(L, 'ret_p')
                pre = '%s%dd_' % (fam, d); cls = getattr(m, {'fft': 'FFT', 'remap': 'Remap'}[fam] + '%ddMPI' % d)
                want_comm = cv.value
                def make(prec, h):
                    ri.value = h; c0 = calls.value; o = cls(comm, prec); ps = P[pre + 'create'][1]
                    need(calls.value == c0 + 1 and name.value.decode() == pre + 'create', 'the constructor calls %s' % name.value)
                    need(reci[0] == want_comm, 'communicator %x passed as %x' % (want_comm, reci[0]))
                    for i, k in enumerate(ps):
                        if k == 'int': need(reci[i] == prec, 'precision %d passed as %d' % (prec, reci[i]))
                    return o
                for short in API[fam]:
                    for variant in range(6):
                        what = '%s.%s, %d-byte communicator, variant %d' % (cls.__name__, short, csize, variant)
                        try:
                            h = 0x7000000000 + 16 * n; n += 1
                            o = make(PREC, h); keep = make(3 - PREC, h + 8) if variant % 2 else None
                            rt, ps = P[pre + short]; args = []; want = []; nout = 0
                            for i, k in enumerate(ps[1:], 1):
                                if k == 'int*': outs[nout] = R.choice(INTS); nout += 1; continue
                                if k == 'char*': v = R.choice((b'collective', b'x', b'a longer keyword')); want.append((i, 's', v))
                                elif k in ('double', 'float'): v = R.choice((0.1, 1e300, -3.5e-9, 1 / 3.)); want.append((i, 'd', v))
                                elif k == 'int': v = R.choice(INTS); want.append((i, 'i', v))
                                else: v = np.zeros(4, DT); want.append((i, 'i', v.ctypes.data))
                                args.append(v)
                            res = None; cnt = R.choice((1, 3, 10)); null = variant == 5
                            if rt == 'int': ri.value = R.choice(INTS); res = ri.value
                            elif rt in ('int64_t', 'long'): ri.value = R.choice((6000000001, -2**40, 7)); res = ri.value
                            elif rt == 'double': rd.value = R.choice((0.1, 1e300, -2.5)); res = rd.value
                            elif rt.endswith('*'):
                                outs[0] = cnt
                                buf = ctypes.create_string_buffer(b'some text') if rt == 'char*' else ((ctypes.c_int if rt == 'int*' else ctypes.c_double) * (cnt + 2))(*range(-1, cnt + 1))
                                rp.value = None if null else ctypes.addressof(buf); res = None if null else (buf.value if rt == 'char*' else list(buf)[:cnt])
                            elif nout: res = tuple(outs[i] for i in range(nout))
                            c0 = calls.value; got = getattr(o, short)(*args)
                            need(calls.value == c0 + 1 and name.value.decode() == pre + short, '%d calls, last %s' % (calls.value - c0, name.value))
                            need(reci[0] == h, 'handle %x passed as %x' % (h, reci[0]))
                            for i, t, v in want:
                                w = recs.value if t == 's' else recd[i] if t == 'd' else reci[i]
                                need(w == v, 'argument %d: %r arrives as %r' % (i, v, w))
                            need(tuple(got) == res if isinstance(res, tuple) and isinstance(got, (tuple, list)) else got == res, 'result %r instead of %r' % (got, res))
                            c0 = calls.value
                            if variant < 3: o.destroy(); need(calls.value == c0 + 1 and name.value.decode() == pre + 'destroy' and reci[0] == h, 'destroy calls %s' % name.value); c0 = calls.value; del o; need(calls.value == c0, 'destroyed twice')
                            else: del o; need(calls.value == c0 + 1 and name.value.decode() == pre + 'destroy' and reci[0] == h, 'the destructor calls %s' % name.value)
                            del keep
                            need(not unraised, 'exception in __del__: %s' % unraised[:1])
                        except Bad as e: return n, '%s: %s' % (what, e)
                        except Exception as e: return n, '%s: %s: %s' % (what, type(e).__name__, e)
    MPI._sizeof = lambda c: 8
    return n, None
def main():
    topic, a, b = sys.argv[4], int(sys.argv[5]), int(sys.argv[6]); mx = 1e9; v = '-v' in sys.argv
    for x in sys.argv[7:]:
        if x.startswith('-t'): mx = float(x[2:])
    t0 = time.time(); n = 0
    if a == 0:
        print('CASE recorder', flush=True); n, e = record()
        if e: print('FAIL C18 recorder %s' % e.replace('\n', ' '), flush=True); os._exit(1)
        del unraised[:]
    for s in range(a, b):
        print('CASE %d' % s, flush=True); desc, errs = case(s); n += 1
        if v or n <= 2: print('DESC ' + desc)
        if errs: print('FAIL C18 seed=%d %s :: %s' % (s, errs[0].replace('\n', ' '), desc), flush=True); os._exit(1)
        if time.time() - t0 > mx: break
    print('DONE %d %d' % (n, n), flush=True); os._exit(0)
main()
