"""C06: contracts of the pack/unpack kernels.

requires  sizes >= 1, strides at least as large as the block they step over (the plans that
          Remap2d/Remap3d::setup build satisfy this; obliged under C04/C05)
ensures   pack:    buf[((s*nmid+m)*nfast+f)]              == old data[s*plane+m*line+f]
          unpack:  data[s*plane+m*line+f]                  == old buf[...]
          permute1: data[f*plane+s*line+m*nqty+q]          == old buf[((s*nmid+m)*nfast+f)*nqty+q]
          permute2: data[m*plane+f*line+s*nqty+q]          == old buf[...]
          (2d: data[s*stride+f], permuted data[f*stride+s*nqty+q])
          for all s,m,f,q in range and nothing else is read or written (frame)."""
import itertools
from .. import terms as T, smt, sym
from ..terms import *
from ..front import Program
from ..sym import Exec, State, Base, W, Comp, IteC, Obl, ptr, Uns
from ..prop import Result, run_tasks

DEFS = {'double': [], 'single': ['FFT_SINGLE']}
K3 = [p + f for p in ('pack_3d_', 'unpack_3d_', 'unpack_3d_permute1_1_', 'unpack_3d_permute1_2_', 'unpack_3d_permute1_n_',
                      'unpack_3d_permute2_1_', 'unpack_3d_permute2_2_', 'unpack_3d_permute2_n_') for f in ('array', 'pointer', 'memcpy')]
K2 = [p + f for p in ('pack_2d_', 'unpack_2d_', 'unpack_2d_permute_1_', 'unpack_2d_permute_2_', 'unpack_2d_permute_n_') for f in ('array', 'pointer', 'memcpy')]

class KExec(Exec):
    """logs every access instead of bounding it by a length"""
    def bound(self, S, a, node, what):
        if self.dry or a.region.name not in ('data', 'buf'): return
        o = Obl('access', (what, a.region.name, a.idxs()), S.pc, TRUE, self.cur(), node.get('_line') if node else None)
        self.obls.append(o)

def program(prec):
    p = Program(DEFS[prec]); p.add('remap3d.cpp'); p.add('remap2d.cpp'); return p

def spec(q):
    """dims [(var, extent)], data index fn, buf index fn, preconditions, fixed parameters"""
    F, M, S, Q = T.var('nfast'), T.var('nmid'), T.var('nslow'), T.var('nqty')
    L, P, R = T.var('nstride_line'), T.var('nstride_plane'), T.var('nstride')
    perm = 2 if 'permute2' in q else 1 if 'permute' in q else 0
    nq = {'1': ONE, '2': const(2)}.get(q.split('_')[-2] if perm else '', Q)
    d3 = '_3d' in q
    pre = [le(ONE, F), le(ONE, S), le(ONE, Q)] + ([le(ONE, M)] if d3 else [])
    if nq is not Q: pre.append(eq(Q, nq))
    if d3:
        if perm == 0:
            ext = [F, M, S]; data = lambda x: add(mul(P, x[2]), mul(L, x[1]), x[0]); buf = lambda x: add(mul(F, M, x[2]), mul(F, x[1]), x[0])
            pre += [le(F, L), le(mul(L, M), P)]
        else:
            ext = [F, M, S, nq]; buf = lambda x: add(mul(nq, add(mul(F, M, x[2]), mul(F, x[1]), x[0])), x[3])
            if perm == 1: data = lambda x: add(mul(P, x[0]), mul(L, x[2]), mul(nq, x[1]), x[3]); pre += [le(mul(nq, M), L), le(mul(L, S), P)]
            else: data = lambda x: add(mul(P, x[1]), mul(L, x[0]), mul(nq, x[2]), x[3]); pre += [le(mul(nq, S), L), le(mul(L, F), P)]
    else:
        if perm == 0:
            ext = [F, S]; data = lambda x: add(mul(R, x[1]), x[0]); buf = lambda x: add(mul(F, x[1]), x[0]); pre += [le(F, R)]
        else:
            ext = [F, S, nq]; data = lambda x: add(mul(R, x[0]), mul(nq, x[1]), x[2]); buf = lambda x: add(mul(nq, add(mul(F, x[1]), x[0])), x[2])
            pre += [le(mul(nq, S), R)]
    return ext, data, buf, pre, nq

def kernel_state(prog, q, prec, pre):
    ex = KExec(prog); S = State(); d = prog.func(q)
    ty = 'float' if prec == 'single' else 'double'
    data = ex.region('data', ty, None, 'arg'); buf = ex.region('buf', ty, None, 'arg')
    for r in (data, buf):
        b = Base(None, 'sym'); b.fn = (lambda r: (lambda ix: T.app(r.name, ix, 'R')))(r); S.mem[(r.id, ())] = b
    rec = 'pack_plan_3d' if '_3d' in q else 'pack_plan_2d'
    plan = ex.region('plan', rec, ONE, 'arg'); pa = ex.top(plan)
    for f, ft in prog.fields(rec): ex.write(S, ex.field(pa, rec, f, ft), T.var(f))
    for c in pre: S.assume(c)
    # one value per element is a constant in the contract, also for the executor
    order = ['data', 'buf'] if q.startswith('pack') else ['buf', 'data']
    regs = {'data': data, 'buf': buf}
    vals = [ptr(ex.top(regs[order[0]])), ptr(ex.top(regs[order[1]])), ptr(pa)]
    return ex, S, d, data, buf, plan, rec, vals

PARAMS = {'nfast', 'nmid', 'nslow', 'nqty', 'nstride_line', 'nstride_plane', 'nstride'}
def match(idxfns, idxs, ext, pc, dom, exact):
    """binder assignment making each idx equal to its spec index; returns x or None.
    exact: the domain is the whole range of the assigned binders"""
    bs = sorted(set().union(*[T.var_names(i) for i in idxs]) - PARAMS)
    n = len(ext)
    if len(bs) > n: return None
    consts = []
    for d in range(n):
        c = T.cval(ext[d]); consts.append(list(range(c)) if c is not None and c <= 4 else [0])
    for dims in itertools.permutations(range(n), len(bs)):
        rest = [d for d in range(n) if d not in dims]
        for rev in itertools.product((0, 1), repeat=len(bs)):
            for cs in itertools.product(*[consts[d] for d in rest]):
                x = [None] * n
                for b, d, r in zip(bs, dims, rev):
                    v = T.var(b); x[d] = sub(sub(ext[d], ONE), v) if r else v
                for d, c in zip(rest, cs): x[d] = const(c)
                if all(f(x) is i for f, i in zip(idxfns, idxs)):
                    rng = and_(*[and_(le(ZERO, x[d]), lt(x[d], ext[d])) for d in range(n)])
                    if not smt.proved(list(pc) + ([dom] if dom is not TRUE else []), rng, 4000): continue
                    if exact and not smt.proved(list(pc) + [rng], dom, 4000): continue
                    return x, dims, rest, cs
    return None

def chain(c):
    out = []
    while not isinstance(c, Base):
        if isinstance(c, IteC): return None
        out.append(c); c = c.prev
    return out[::-1]

def kernel(r, q, prec):
    prog = program(prec)
    name = '%s[%s]' % (q, prec)
    if q not in prog.byname:
        r.add(name, 'undecided', 'kernel not found in the sources'); return
    ext, data_ix, buf_ix, pre, nq = spec(q)
    ex, S, d, data, buf, plan, rec, vals = kernel_state(prog, q, prec, pre)
    r.vacuity.append(('%s: precondition satisfiable' % name, smt.check(pre, FALSE, 5000)[0] == 'refuted'))
    pk = q.startswith('pack')
    dst, src = (buf, data) if pk else (data, buf)
    dix, six = (buf_ix, data_ix) if pk else (data_ix, buf_ix)
    outs = ex.run(S, d, None, vals)
    r.used(ex)
    nqsub = {'nqty': nq} if T.cval(nq) is not None else {}
    sb = (lambda t: T.subst(t, nqsub)) if nqsub else (lambda t: t)
    wit = None
    if len(outs) != 1: r.add(name, 'undecided', 'several exits'); 
    for s, v in outs:
        ws = chain(s.mem[(dst.id, ())])
        cov = []; bad = None
        if ws is None: bad = 'conditional writes'
        for w in ws or []:
            bnd = w.binders if isinstance(w, Comp) else (); dom = sb(w.dom) if isinstance(w, Comp) else TRUE
            val = sb(w.val); at = T.as_atom(val)
            if at is None or at.op != 'app' or at.args[0] != src.name: bad = 'writes %s, which is not an element of the source' % w.val; break
            pcs = [p for p in s.pc]
            m = match([dix, six], [sb(w.idxs[0]), at.args[1]], ext, pcs, dom, True)
            if m is None: bad = 'write %s[%s] := %s over %s is not a piece of the contract' % (dst.name, w.idxs[0], w.val, w.dom); break
            cov.append(m)
        if bad is None:
            # the pieces together cover the range
            full = set(itertools.product(*[range(T.cval(e)) if T.cval(e) is not None and T.cval(e) <= 4 else ['*'] for e in ext]))
            got = set()
            for x, dims, rest, cs in cov:
                cell = [None] * len(ext)
                for dd in dims: cell[dd] = '*' if not (T.cval(ext[dd]) is not None and T.cval(ext[dd]) <= 4) else list(range(T.cval(ext[dd])))
                for dd, c in zip(rest, cs): cell[dd] = c if T.cval(ext[dd]) is not None else '0'
                got |= set(itertools.product(*[c if isinstance(c, list) else [c] for c in cell]))
            if not full <= got: bad = 'block not completely copied'
        if bad is None: r.ok('%s: postcondition (every element of the block, permuted)' % name, 'for all plan values', 'polynomial normal form + z3')
        else:
            wit = refute(s, dst, src, ext, dix, six, nq, pre)
            r.add('%s: postcondition' % name, 'refuted' if wit else 'undecided', bad + (' ; witness %s' % wit if wit else ''), 'evaluation', {'kernel': q, **wit} if wit else None)
        # frame: source and plan untouched
        for k, c in s.mem.items():
            if k[0] in (src.id,) and not isinstance(c, Base): r.add('%s: frame (source unchanged)' % name, 'refuted', 'source is written', 'executor', {'kernel': q}); break
        else: r.ok('%s: frame (source unchanged)' % name)
        for f, ft in prog.fields(rec):
            c = s.mem.get((plan.id, (f,)))
            if not (isinstance(c, W) and c.val is T.var(f)): r.add('%s: frame (plan unchanged)' % name, 'refuted', f, 'executor', {'kernel': q})
        nb = 0; ba = None
        for o in ex.obls:
            if o.cat != 'access': continue
            what, rn, ix = o.text
            f = data_ix if rn == 'data' else buf_ix
            nb += 1
            if match([f], [sb(ix[0])], ext, [sb(p) for p in o.pc], TRUE, False) is None: ba = '%s of %s[%s] at line %s' % (what, rn, ix[0], o.line)
        if ba is None: r.ok('%s: %d accesses stay in block and buffer' % (name, nb), '', 'polynomial normal form + z3')
        else: r.add('%s: accesses stay in block and buffer' % name, 'undecided', ba, 'executor')
        for o in ex.obls:
            if o.cat not in ('access', 'bounds'): r.require('%s: %s %s' % (name, o.name(), o.text), o.pc, o.goal)
        if any('terminate' in a for a in ex.assumptions): r.add('%s: termination' % name, 'undecided', 'loop bound not recognised', 'executor')
        else: r.ok('%s: termination' % name, 'closed trip counts')

def refute(s, dst, src, ext, dix, six, nq, pre):
    """evaluate the derived effect for small plans against the contract"""
    ws = chain(s.mem[(dst.id, ())])
    if ws is None: return None
    for F, M, S_, Q, g in candidates(ws):
        q = T.cval(nq) if T.cval(nq) is not None else Q
        env = {'nfast': F, 'nmid': M, 'nslow': S_, 'nqty': q}
        perm = perm_of(pre, env)
        env['nstride_line'] = env['nstride'] = perm[0] + g
        env['nstride_plane'] = env['nstride_line'] * perm[1] + 2 * g
        if not all(T.Eval(env)(c) for c in pre): continue
        try:
            eff = {}
            for w in ws:
                bs = [T.as_atom(b).args[0] for b in (w.binders if isinstance(w, Comp) else ())]
                for vals in itertools.product(*[upto(w, bs, b, env) for b in bs]):
                    e = dict(env); e.update(zip(bs, vals)); ev = T.Eval(e, lambda f, a: (f,) + tuple(a))
                    if isinstance(w, Comp) and not ev(w.dom): continue
                    at = T.as_atom(w.val)
                    if at is None: eff[ev(w.idxs[0])] = ('other',); continue
                    eff[ev(w.idxs[0])] = ('el', ev(at.args[1])) if at.op == 'app' and at.args[0] == src.name else ('other',)
            want = {}
            rngs = [range(T.Eval(env)(x)) for x in ext]
            for x in itertools.product(*rngs):
                xs = [const(i) for i in x]
                want[T.Eval(env)(dix(xs))] = ('el', T.Eval(env)(six(xs)))
        except T.Undefined: return None
        if eff != want: return env
    return None

def upto(w, bs, b, env):
    """range of a binder with the others at 0"""
    v = 0
    while v < 3000:
        e = dict(env); e.update({x: 0 for x in bs}); e[b] = v
        if not T.Eval(e)(w.dom): break
        v += 1
    return range(max(v, 1))
def perm_of(pre, env):
    """(minimal line stride, lines per plane) of the preconditions"""
    L = P = 1
    for v in range(1, 100000):
        e = dict(env); e.update({'nstride_line': v, 'nstride': v, 'nstride_plane': 10 ** 9})
        if all(T.Eval(e)(c) for c in pre): L = v; break
    for v in range(1, 100000):
        e = dict(env); e.update({'nstride_line': L, 'nstride': L, 'nstride_plane': L * v})
        if all(T.Eval(e)(c) for c in pre): P = v; break
    return L, P
def candidates(ws):
    """small plans, and plans around the constants that occur in the derived effect"""
    cs = set()
    def walk(t, seen):
        if t.id in seen and isinstance(t, Bool): return
        seen.add(t.id)
        if isinstance(t, Bool):
            for x in t.args:
                if isinstance(x, (Num, Bool)): walk(x, seen)
            if t.op in ('le0', 'lt0', 'eq0'):
                for m, c in t.args[0].m:
                    if m == () and 3 < abs(c) <= 400: cs.add(abs(int(c)))
        else:
            for a in T.atoms_of(t):
                for x in a.args:
                    if isinstance(x, (Num, Bool)): walk(x, seen)
    for w in ws:
        for t in ([w.dom] if isinstance(w, Comp) else []) + list(w.idxs) + [w.val]: walk(t, set())
    base = [(2, 2, 2, 1, 0), (2, 3, 2, 3, 0), (3, 2, 4, 2, 1), (1, 2, 3, 3, 2), (3, 1, 1, 1, 1), (4, 3, 2, 5, 0), (6, 7, 5, 4, 1)]
    for c in sorted(cs)[:6]:
        for v in (c - 1, c, c + 1):
            for i in range(4):
                t = [2, 2, 3, 3, 1]; t[i] = v; base.append(tuple(t))
    return base

def injective(r):
    """lemma: distinct positions of a block have distinct addresses"""
    for q in ('pack_3d_array', 'unpack_3d_permute1_n_array', 'unpack_3d_permute2_n_array', 'pack_2d_array', 'unpack_2d_permute_n_array'):
        ext, dix, bix, pre, nq = spec(q)
        F, M, S = T.var('nfast'), T.var('nmid'), T.var('nslow')
        for nm, ix in (('data', dix), ('buf', bix)):
            # radix chain: innermost first
            if nm == 'buf': order = ([(3, ONE)] if len(ext) == 4 else [(2, ONE)] if (len(ext) == 3 and '2d' in q) else []) 
            x = [T.fresh('x') for _ in ext]; y = [T.fresh('y') for _ in ext]
            # stride of each dim
            zero = [ZERO] * len(ext)
            st = []
            for i in range(len(ext)):
                u = list(zero); u[i] = ONE; st.append(ix(u))
            # sort: dims by inclusion, prove st[j] >= st[i]*ext[i] along the order given by the layout
            chainlist = {'pack_3d_array': {'data': (0, 1, 2), 'buf': (0, 1, 2)}, 'unpack_3d_permute1_n_array': {'data': (3, 1, 2, 0), 'buf': (3, 0, 1, 2)},
                         'unpack_3d_permute2_n_array': {'data': (3, 2, 0, 1), 'buf': (3, 0, 1, 2)}, 'pack_2d_array': {'data': (0, 1), 'buf': (0, 1)},
                         'unpack_2d_permute_n_array': {'data': (2, 1, 0), 'buf': (2, 0, 1)}}[q][nm]
            ok = st[chainlist[0]] is ONE
            for a, b in zip(chainlist, chainlist[1:]):
                ok = ok and smt.proved(pre, le(mul(st[a], ext[a]), st[b]), 8000)
            if ok: r.ok('lemma: %s layout of %s is injective' % (nm, q), 'mixed radix: each stride >= previous stride * extent', 'z3')
            else: r.add('lemma: %s layout of %s is injective' % (nm, q), 'undecided')

def tasks(tier):
    ts = []
    for prec in ('double', 'single'):
        # group cheap kernels
        for q in K3 + K2: ts.append(('dv.props.c06', 'kernel', (q, prec), '%s[%s]' % (q, prec)))
    ts.sort(key=lambda t: 0 if '_n_' in t[3] else 1)
    ts.append(('dv.props.c06', 'injective', (), 'injectivity lemmas'))
    return ts
HARNESS = [('h_pack', 'pack')]
def replay(w):
    """harness command line for a refutation witness"""
    if not w or 'nfast' not in w: return None
    return ('h_pack', ['replay', w['kernel'], str(w['nfast']), str(w['nmid'] if '_3d' in w['kernel'] else 1), str(w['nslow']),
                       str(w['nstride_line'] if '_3d' in w['kernel'] else w['nstride']), str(w['nstride_plane']), str(w['nqty'])])
ASSUMPTIONS = ['mathematical integers: no overflow of int index arithmetic', 'data and buf do not overlap, and neither overlaps the plan']
