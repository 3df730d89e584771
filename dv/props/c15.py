"""C15: contracts of the C and Fortran interface functions.

Each wrapper body is executed symbolically with every field of the object symbolic; the C++ methods
are replaced by their contract "called once with these arguments, may write its reference arguments".
ensures  exactly one call of the method of the same name, on the object passed, with the arguments in
         order (Fortran variants: tile bounds minus one); results stored through the caller's pointers;
         get/set: exactly the field of the keyword table; otherwise nothing changes."""
import os, re
from .. import terms as T, smt, front
from ..terms import *
from ..front import Program
from ..sym import Exec, State, Base, W, ptr, Ptr, Addr, NULLP, Uns, Region, arr_of, is_ptr

VEC = {d: {k: k for k in ['tfft', 't1d', 'tremap'] + ['tremap%d' % i for i in range(1, d + 2)]} for d in (2, 3)}
IVEC = {k: k for k in ('cflags', 'eflags', 'pflags')}
SET = {'collective': 'collective', 'exchange': 'exchange', 'pack': 'packflag', 'memory': 'memoryflag', 'scale': 'scaled', 'remaponly': 'remaponly'}
RSET = {'collective': 'collective', 'pack': 'packflag'}
def GETI(d):
    t = {'collective': 'collective', 'exchange': 'exchange', 'pack': 'packflag', 'ntrial': 'ntrial', 'npertrial': 'npertrial'}
    for n in (('npfast', 'npmid', 'npslow', 'npbrick') if d == 3 else ('npfast', 'npslow', 'npbrick')):
        for i in range(1, d + 1): t['%s%d' % (n, i)] = '%s%d' % (n, i)
    return t
STR = {'fft1d': 'fft1d', 'precision': 'precision'}

def h_strlen(ex, S, this, args, n):
    a = args[0].single()
    if not isinstance(a, Addr): raise Uns('strlen')
    if a.region.text is not None: return const(len(a.region.text.strip('"')))
    return T.app('strlen', (a.region.name,))
def h_f2c(ex, S, this, args, n): return T.app('f2c', (args[0],)) if not is_ptr('x') else None

class World:
    def __init__(self, fam, d, prec):
        self.fam, self.d = fam, d
        self.cls = ('FFT%dd' if fam == 'fft' else 'Remap%dd') % d
        self.pre = '%s%dd_' % (fam, d)
        self.prog = Program(['FFT_SINGLE'] if prec == 'single' else []); self.prog.add('%s%dd_wrap.cpp' % (fam, d))
    def fresh(self):
        h = {'strlen': h_strlen, 'MPI_Comm_f2c': lambda ex, S, this, a, n: ptr(ex.top(self.comm2)) }
        for m in ('setup', 'setup_memory', 'compute', 'only_1d_ffts', 'only_remaps', 'only_one_remap', 'tune', 'remap'):
            h[self.cls + '::' + m] = self.method(m)
        h['new ' + self.cls] = lambda ex, S, a, args, n: self.calls_add(ex, S, 'new', a, args, n)
        h['delete ' + self.cls] = lambda ex, S, a, args, n: self.calls_add(ex, S, 'delete', a, args, n)
        def f2c(ex, S, this, a, n):
            ex.event(S, 'f2c', (a[0],), n); return ptr(ex.top(self.comm2))
        h['MPI_Comm_f2c'] = f2c
        ex = Exec(self.prog, h); S = State()
        self.comm = ex.region('comm', 'int', None, 'arg'); self.comm2 = ex.region('comm2', 'int', None, 'arg')
        obj = ex.region('obj', self.cls, ONE, 'heap'); obj.alloc = 'new'
        S.mem[(obj.id, ('#alive',))] = W(ex.base0((obj.id, ('#alive',))), (ZERO,), ONE)
        oa = ex.top(obj)
        for f, ft in self.prog.fields(self.cls):
            if ft == 'fnptr': continue
            a = ex.field(oa, self.cls, f, ft)
            if arr_of(ft):
                b = Base(None, 'sym'); b.fn = (lambda f: (lambda ix: T.app('f.' + f, ix[1:], 'I')))(f); S.mem[a.key()] = b
            elif is_ptr(ft):
                r = ex.region('f.' + f, 'char' if ft == 'char*' else ft[:-1], None, 'str' if ft == 'char*' else 'arg'); ex.write(S, a, ptr(Addr(r, (ZERO,), r.elem)))
            elif ex.prog.is_record(ft): continue
            else: ex.write(S, a, T.var('f.' + f, 'R' if ft in ('double', 'float') else 'I'))
        self.calls = []
        return ex, S, obj, oa
    def method(self, m):
        def h(ex, S, this, args, n):
            for i, a in enumerate(args):
                if isinstance(a, tuple) and a[0] == 'lv':
                    for g, ad in a[1]: ex.write(S, ad, T.var('%s.out%d' % (m, i)), n)
            self.calls_add(ex, S, m, this, args, n)
            return None
        return h
    def calls_add(self, ex, S, m, a, args, n): ex.event(S, 'method', (m, a, tuple(args)), n)

def same_obj(ex, S0, S, obj, allow=()):
    """fields of the object that changed, except those allowed"""
    out = []
    for k, c in S.mem.items():
        if k[0] != obj.id or k[1] in allow or k[1] == ('#alive',): continue
        c0 = S0.mem.get(k)
        if c is c0: continue
        if isinstance(c, W) and isinstance(c0, W) and c.val is c0.val and c.idxs == c0.idxs: continue
        if c0 is None and c is ex.base0(k): continue
        out.append('.'.join(k[1]))
    return out
def calls(S): return [e for e in S.events if e.kind == 'method']

def arg_value(w, ex, S, pt, i, nm):
    """symbolic actual for a wrapper parameter"""
    if pt == 'void**':
        r = ex.region('ptrout', 'void*', ONE, 'arg'); return ptr(ex.top(r)), r
    if pt == 'int*':
        r = ex.region('iout%d' % i, 'int', ONE, 'arg'); ex.write(S, ex.top(r), T.var('old%d' % i)); return ptr(ex.top(r)), r
    if pt in ('double*', 'float*'):
        r = ex.region('buf%d' % i, pt[:-1], None, 'arg'); return ptr(ex.top(r)), r
    if is_ptr(pt): raise Uns('parameter type ' + pt)
    return T.var('a%d' % i, 'R' if pt in ('double', 'float') else 'I'), None

def params(w, d): return [w.prog.ctype(p['type']) for p in d['_params']]

def wrapper(r, fam, d, prec, short):
    """create*, destroy, setup*, setup_memory, compute, only_*, tune*, remap"""
    w = World(fam, d, prec); q = w.pre + short; name = '%s[%s]' % (q, prec)
    fn = w.prog.func(q); ex, S, obj, oa = w.fresh(); S0 = S.copy(); S0.mem = dict(S.mem)
    fortran = short.endswith('_fortran'); m = short[:-8] if fortran else short
    pts = params(w, fn)
    wit = {'fn': q}
    def need(c, what, detail=''):
        if c: r.ok('%s: %s' % (name, what))
        else: r.add('%s: %s' % (name, what), 'refuted', detail, 'executor', wit)
    vals = []; regs = []
    for i, pt in enumerate(pts):
        if i == 0 and pt == 'void*': vals.append(ptr(oa)); regs.append(None); continue
        if pt.endswith('fm_comm*'): vals.append(ptr(ex.top(w.comm))); regs.append(None); continue
        v, rg = arg_value(w, ex, S, pt, i, short); vals.append(v); regs.append(rg)
    S0.mem.update({k: v for k, v in S.mem.items() if k not in S0.mem})
    outs = ex.run(S, fn, None, vals); r.used(ex)
    if len(outs) != 1: r.add(name, 'undecided', '%d exits' % len(outs)); return
    s, ret = outs[0]
    cs = calls(s)
    r.require_all(ex, name + ': ')
    if m == 'create':
        need(len(cs) == 1 and cs[0].args[0] == 'new', 'constructs one object', repr(cs))
        if len(cs) != 1 or cs[0].args[0] != 'new': return
        comm = w.comm2 if fortran else w.comm
        exp = [ptr(ex.top(comm))] + [v for v, pt in zip(vals[1:-1], pts[1:-1])]
        got = list(cs[0].args[2])
        need(len(got) == len(exp) and all(same(a, b) for a, b in zip(got, exp)), 'constructor arguments', '%r instead of %r' % (got, exp))
        if fortran: need([e.args[0] for e in s.events if e.kind == 'f2c'] == [vals[0]], 'communicator converted from the Fortran handle')
        res = ex.cread(s, ex.content(s, (regs[-1].id, ())), (ZERO,), 'void*', None)
        need(isinstance(res, Ptr) and isinstance(res.single(), Addr) and res.single().region is cs[0].args[1].region, 'returns the new object', repr(res))
        need(not same_obj(ex, S0, s, obj), 'other objects unchanged'); return
    if m == 'destroy':
        need(len(cs) == 1 and cs[0].args[0] == 'delete' and cs[0].args[1].region is obj, 'destroys the object', repr(cs)); return
    need(len(cs) == 1 and cs[0].args[0] == m and cs[0].args[1].region is obj, 'calls %s once on the object' % m, repr([c.args[:2] for c in cs]))
    if len(cs) != 1 or cs[0].args[0] != m: return
    got = cs[0].args[2]
    exp = []; nb = 0
    mi = -1
    nlead = d if fam == 'fft' and m in ('setup', 'tune') else 0
    nbound = 4 * d if m in ('setup', 'tune') else 0
    for i in range(1, len(pts)):
        j = i - 1
        if pts[i] == 'int*': exp.append(('out', regs[i], j)); continue
        v = vals[i]
        if fortran and nlead <= j < nlead + nbound: v = sub(v, ONE)
        exp.append(v)
    ok = len(exp) == len(got)
    need(ok, 'number of arguments')
    if not ok: return
    for j, (e, g) in enumerate(zip(exp, got)):
        if isinstance(e, tuple):
            if not (isinstance(g, tuple) and g[0] == 'lv'): need(False, 'argument %d is a result' % (j + 1)); continue
            v = ex.cread(s, ex.content(s, (e[1].id, ())), (ZERO,), 'int', None)
            need(v is T.var('%s.out%d' % (m, j)), 'result %d is stored for the caller' % (j + 1), '%s' % v)
        else: need(same(e, g), 'argument %d' % (j + 1), '%r instead of %r' % (g, e))
    need(not same_obj(ex, S0, s, obj), 'object otherwise unchanged', repr(same_obj(ex, S0, s, obj)))
    need(ret is None or m not in ('compute', 'setup'), 'no value')
def same(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.single() == b.single() and a.single() is not None
    return a is b

def keyword(r, fam, d, prec, short, table, unknown):
    w = World(fam, d, prec); q = w.pre + short; name = '%s[%s]' % (q, prec)
    fn = w.prog.func(q)
    for kw in list(table) + [None]:
        ex, S, obj, oa = w.fresh()
        if kw is None:
            kr = Region('kw', 'char', None, 'str')
            for k in table: S.assume(not_(T.bapp('streq', ('kw', '"%s"' % k))))
            ka = Addr(kr, (ZERO,), 'char')
        else: ka = ex.strlit('"%s"' % kw)
        pts = params(w, fn); vals = [ptr(oa), ptr(ka)]; ln = None
        if len(pts) == 3:
            if pts[2] == 'int*': ln = ex.region('len', 'int', ONE, 'arg'); ex.write(S, ex.top(ln), T.var('oldlen')); vals.append(ptr(ex.top(ln)))
            else: vals.append(T.var('value'))
        S0 = S.copy(); S0.mem = dict(S.mem)
        outs = ex.run(S, fn, None, vals); r.used(ex)
        label = '%s: keyword %s' % (name, kw if kw is not None else 'unknown'); wit = {'fn': q, 'kw': kw or 'nosuch'}
        def need(c, what, detail=''):
            if c: r.ok('%s: %s' % (label, what))
            else: r.add('%s: %s' % (label, what), 'refuted', detail, 'executor', wit)
        r.require_all(ex, label + ': ')
        if len(outs) != 1: r.add(label, 'undecided', '%d exits' % len(outs)); continue
        s, ret = outs[0]
        fts = dict(w.prog.fields(w.cls))
        need(not calls(s), 'calls nothing')
        if short == 'set':
            if kw is None: need(not same_obj(ex, S0, s, obj), 'changes nothing', repr(same_obj(ex, S0, s, obj)))
            else:
                f = table[kw]; fa = ex.field(oa, w.cls, f, fts[f])
                v = ex.read(s, fa, fts[f])
                need(v is T.var('value'), 'sets %s' % f, '%s is %s' % (f, v))
                o = same_obj(ex, S0, s, obj, ((f,),)); need(not o, 'sets nothing else', repr(o))
            continue
        need(not same_obj(ex, S0, s, obj), 'object unchanged')
        if kw is None:
            if unknown == 'null': need(isinstance(ret, Ptr) and ret.single() is None and len(ret.cases) == 1, 'returns NULL', repr(ret))
            else: need(isinstance(ret, Num) and T.cval(ret) == -1, 'returns -1', repr(ret))
            continue
        f = table[kw]; fa = ex.field(oa, w.cls, f, fts[f])
        if arr_of(fts[f]): need(isinstance(ret, Ptr) and ret.single() == fa, 'returns %s' % f, repr(ret))
        else:
            v0 = ex.read(S0, fa, fts[f])
            need(same(ret, v0), 'returns %s' % f, '%r instead of %r' % (ret, v0))
        if ln is not None:
            v = ex.cread(s, ex.content(s, (ln.id, ())), (ZERO,), 'int', None)
            want = T.app('strlen', ('f.' + f,)) if short == 'get_string' else T.var('f.ntrial')
            need(v is want, 'length', '%s instead of %s' % (v, want))

# ---------------------------------------------------------------- Fortran interface blocks
def parse_f90(text):
    lines = []
    cont = ''
    for l in text.split('\n'):
        l = re.sub(r'!.*', '', l).strip()
        if not l: continue
        if l.startswith('&'): l = l[1:]
        if l.endswith('&'): cont += l[:-1] + ' '; continue
        lines.append(cont + l); cont = ''
    procs = {}; cur = None
    for l in lines:
        L = l.lower()
        m = re.match(r'^(subroutine|(?:[a-z_()0-9]+\s+)?function)\s+(\w+)\s*\(([^)]*)\)\s*(.*)$', L)
        if m and not L.startswith('end'):
            b = re.search(r"bind\s*\(\s*c\s*(?:,\s*name\s*=\s*['\"](\w+)['\"])?\s*\)", L)
            mres = re.search(r'result\s*\(\s*(\w+)\s*\)', L)
            cur = {'name': m.group(2), 'args': [a.strip() for a in m.group(3).split(',') if a.strip()], 'bind': (b.group(1) or m.group(2)) if b else None,
                   'fn': 'function' in m.group(1), 'res': mres.group(1) if mres else m.group(2), 'decl': {}}
            procs[cur['name']] = cur; continue
        if re.match(r'^end\s*(subroutine|function)', L) or L in ('end',): cur = None; continue
        if cur is not None and '::' in L:
            spec, names = L.split('::', 1)
            attrs = [a.strip() for a in re.split(r',(?![^()]*\))', spec)]
            for nm in re.split(r',(?![^()]*\))', names):
                nm = nm.strip(); mm = re.match(r'^(\w+)\s*(\(.*\))?$', nm)
                if not mm: raise front.FrontError('f90 declaration: ' + l)
                if any(a.startswith(('optional', 'pointer', 'allocatable')) for a in attrs[1:]): raise front.FrontError('f90 attribute: ' + l)
                cur['decl'][mm.group(1)] = (attrs[0].replace(' ', ''), 'value' in attrs, mm.group(2) is not None or any(a.startswith('dimension') for a in attrs))
    return procs
CK = {('integer(c_int)', True, False): 'int', ('integer(c_int)', False, False): 'int*', ('type(c_ptr)', True, False): 'ptr', ('type(c_ptr)', False, False): 'ptr*',
      ('character(c_char)', False, True): 'char*', ('character(kind=c_char)', False, True): 'char*', ('real(c_double)', True, False): 'double', ('real(c_float)', True, False): 'float',
      ('character(len=1,kind=c_char)', False, True): 'char*', ('integer(c_int)', False, True): 'int*'}
RK = {'integer(c_int)': 'int', 'real(c_double)': 'double', 'integer(c_int64_t)': 'long', 'type(c_ptr)': 'ptr'}
def ckind(t):
    if t == 'char*': return 'char*'
    if t == 'int*': return 'int*'
    if t == 'void**': return 'ptr*'
    if is_ptr(t): return 'ptr'
    return t
SHORT = {'fft': ['create', 'destroy', 'set', 'get_int', 'get_double', 'get_int64', 'get_string', 'get_int_vector', 'get_double_vector', 'setup', 'setup_memory', 'compute',
                 'only_1d_ffts', 'only_remaps', 'only_one_remap', 'tune'], 'remap': ['create', 'destroy', 'set', 'setup', 'remap']}
def fortran(r, fam, d):
    w = World(fam, d, 'double')
    path = os.path.join(w.prog.src, '%s%dd_wrap.f90' % (fam, d))
    procs = parse_f90(open(path).read())
    for sh in SHORT[fam]:
        nm = w.pre + sh; name = 'Fortran interface %s' % nm
        p = procs.get(nm)
        if p is None: r.add(name, 'undecided', 'interface not found'); continue
        want = nm + ('_fortran' if sh in ('create', 'setup', 'tune') else '')
        wit = {'fn': nm, 'fortran': 1}
        if p['bind'] is None: r.add(name + ': bound to C', 'refuted', 'no bind(c)', 'interface reader', wit); continue
        if p['bind'] == want: r.ok(name + ': bound to %s' % want, '', 'interface reader')
        else: r.add(name + ': bound to %s' % want, 'refuted', 'bound to %s' % p['bind'], 'interface reader', wit)
        if p['bind'] not in w.prog.byname: r.add(name + ': bound function exists', 'refuted', p['bind'], 'interface reader', wit); continue
        fn = w.prog.func(p['bind'])
        cs = [ckind(t) for t in params(w, fn)]
        fs = []
        for a in p['args']:
            t = p['decl'].get(a)
            k = CK.get(t)
            if k is None: raise front.FrontError('f90 dummy %s of %s: %s' % (a, nm, t))
            fs.append(k)
        rt = w.prog.canon(fn['type']['qualType'].split('(')[0].strip())
        if cs == fs: r.ok(name + ': argument passing matches the C prototype', ', '.join(cs), 'interface reader')
        else: r.add(name + ': argument passing matches the C prototype', 'refuted', 'C %s, Fortran %s' % (cs, fs), 'interface reader', wit)
        if p['fn']:
            t = p['decl'].get(p['res']); k = RK.get(t[0]) if t else None
            if k is None: raise front.FrontError('f90 result of %s' % nm)
            cr = 'long' if rt in ('long', 'long long', 'int64_t') else 'ptr' if is_ptr(rt) else rt
            if k == cr: r.ok(name + ': result type', k, 'interface reader')
            else: r.add(name + ': result type', 'refuted', 'C %s, Fortran %s' % (rt, t[0]), 'interface reader', wit)
        elif rt != 'void': r.add(name + ': result type', 'refuted', 'C %s, Fortran subroutine' % rt, 'interface reader', wit)
    r.functions.add('%s%dd_wrap.f90' % (fam, d))

def group(r, fam, d, prec):
    simple = ['create', 'create_fortran', 'destroy', 'setup', 'setup_fortran'] + (['setup_memory', 'compute', 'only_1d_ffts', 'only_remaps', 'only_one_remap', 'tune', 'tune_fortran'] if fam == 'fft' else ['remap'])
    from ..prop import guarded
    for sh in simple: guarded(r, '%s%dd_%s[%s]' % (fam, d, sh, prec), wrapper, fam, d, prec, sh)
    if fam == 'fft':
        for sh, tab, un in (('set', SET, None), ('get_int', GETI(d), 'num'), ('get_double', {'setuptime': 'setuptime'}, 'num'), ('get_int64', {'memusage': 'memusage'}, 'num'),
                            ('get_string', STR, 'null'), ('get_int_vector', IVEC, 'null'), ('get_double_vector', VEC[d], 'null')):
            guarded(r, '%s%dd_%s[%s]' % (fam, d, sh, prec), keyword, fam, d, prec, sh, tab, un)
    else: guarded(r, '%s%dd_set[%s]' % (fam, d, prec), keyword, fam, d, prec, 'set', RSET, None)

def tasks(tier):
    ts = []
    for fam in ('fft', 'remap'):
        for d in (2, 3):
            for prec in ('double', 'single'): ts.append(('dv.props.c15', 'group', (fam, d, prec), '%s%dd[%s]' % (fam, d, prec)))
            ts.append(('dv.props.c15', 'fortran', (fam, d), 'fortran %s%dd' % (fam, d)))
    return ts
HARNESS = [('h_wrap', 'wrap')]
CFGS = ['kiss-double', 'kiss-single']
def replay(w): return ('h_wrap', ['wrap', '0', '1'])
ASSUMPTIONS = ['the C++ methods called by the wrappers meet their own contracts (C01-C14)', 'integer handles of MPI_Comm_f2c are opaque', 'the interface reader of the .f90 modules (fixed or free form continuation, iso_c_binding kinds)']
