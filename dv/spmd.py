"""Contracts of the MPI functions the library calls, for one symbolic process `me` of P.

A value that differs between processes is a term over `me`; the value process q has is the same
term with me := q (all processes run the same text, so this is the definition, not an assumption,
as long as they take the same path; the conditions on the path are reported to C07).
Collective results are therefore exact: Allgather: recv[q].f = send.f[me:=q];
Allreduce: a uniform value characterised by the per-process term."""
from . import terms as T
from .terms import *
from .sym import Exec, State, Base, W, ptr, Ptr, Addr, NULLP, Uns, Region, arr_of, is_ptr, Fn

ME = T.var('me'); P = T.var('P')
REDUCE = {1: 'max', 2: 'min', 3: 'sum'}

def short(t): return (t or '').split('::')[-1]
def at(t, q): return T.subst(t, {'me': q})

def comm_of(p): return p

def h_rank(ex, S, this, a, n):
    for g, ad in ex.cases(S, a[1], n): ex.write(S, ad, ME, n)
    return ZERO
def h_size(ex, S, this, a, n):
    for g, ad in ex.cases(S, a[1], n): ex.write(S, ad, P, n)
    return ZERO
FLOATS = (0x0404, 0x0708)
def typed(ex, S, ty, ad, n, what):
    """the datatype names the C type of the buffer"""
    t = T.cval(ty)
    if t is None or not isinstance(ad, Addr): return
    u = ad.unit
    if u is None or ex.prog.is_record(u) or u in ('void', 'char'): return
    try: sz = ex.prog.sizeof(u)
    except Exception: return
    if t == 0x0201: return                                  # MPI_BYTE: the count says the size
    good = (t & 0xff) == sz and (t in FLOATS) == (u in ('double', 'float'))
    ex.oblige(S, 'coll', TRUE if good else FALSE, n, 'datatype of %s is that of its buffer (%s)' % (what, u))
def h_allgather(ex, S, this, a, n):
    sb, sc, st, rb, rc, rt, comm = a
    s = sb.single(); r = rb.single()
    if not isinstance(s, Addr) or not isinstance(r, Addr): raise Uns('Allgather buffers')
    ex.event(S, 'coll', ('Allgather', comm, sc, st), n)
    if short(s.region.elem) != short(r.region.elem) or not ex.prog.is_record(s.unit): raise Uns('Allgather of %s into %s' % (s.region.elem, r.region.elem))
    sz = ex.prog.sizeof(s.unit); by = T.cval(st) & 0xff if T.cval(st) is not None else None
    ex.oblige(S, 'coll', and_(eq(mul(sc, const(by or 0)), const(sz)), eq(rc, sc), eq(rt, st)), n, 'Allgather transfers whole records')
    if r.idxs() and r.idxs()[0] is not ZERO: raise Uns('Allgather into the middle of an array')
    ex.oblige(S, 'bounds', le(P, r.region.length), n, 'Allgather result fits')
    for f, ft in ex.prog.fields(s.unit):
        t = ex.read(S, ex.field(s, s.unit, f, ft), ft, n)
        b = Base(None, 'sym'); b.fn = (lambda t: (lambda ix: at(t, ix[0])))(t)
        S.mem[ex.field(r, s.unit, f, ft).key()] = b
    return ZERO
def h_allreduce(ex, S, this, a, n):
    sb, rb, cnt, ty, op, comm = a
    ex.event(S, 'coll', ('Allreduce', comm, cnt, ty, op), n)
    c = T.cval(cnt); o = REDUCE.get(T.cval(op))
    if c is None or o is None: raise Uns('Allreduce')
    s = sb.single(); r = rb.single()
    if not isinstance(s, Addr) or not isinstance(r, Addr): raise Uns('Allreduce buffers')
    typed(ex, S, ty, s, n, 'Allreduce'); typed(ex, S, ty, r, n, 'Allreduce')
    for i in range(c):
        v = ex.read(S, s.shift(const(i)) if i else s, s.unit, n)
        ex.write(S, r.shift(const(i)) if i else r, reduce_term(ex, o, v), n)
    return ZERO
def reduce_term(ex, o, v):
    """uniform result of a reduction of the per-process term v"""
    if 'me' not in T.var_names(v):
        return mul(P, v) if o == 'sum' else v
    names = sorted(x for x in T.free_vars(v) if x[0] == 'v' and x[1] != 'me')
    params = tuple(T.var(x[1], x[2]) for x in names)
    key = ('red', o, v.id)
    if not hasattr(ex, 'reds'): ex.reds = {}
    i = ex.reds.setdefault(key, (len(ex.reds) + 1, v, o))[0]
    return T.app('all%s!%d' % (o, i), params, v.sort)
def h_bcast(ex, S, this, a, n):
    b, cnt, ty, root, comm = a
    ex.event(S, 'coll', ('Bcast', comm, cnt, ty, root), n)
    c = T.cval(cnt)
    if c is None: raise Uns('Bcast')
    s = b.single(); typed(ex, S, ty, s, n, 'Bcast')
    for i in range(c):
        ad = s.shift(const(i)) if i else s
        v = ex.read(S, ad, s.unit, n)
        ex.write(S, ad, at(v, root), n)
    return ZERO
def h_barrier(ex, S, this, a, n): ex.event(S, 'coll', ('Barrier', a[0]), n); return ZERO
def h_wtime(ex, S, this, a, n): return T.fresh('wtime', 'R')
def obj(ex, S, kind, n):
    r = ex.alloc_region(S, kind, 'fm_' + kind, ONE, kind, n)
    return ptr(ex.top(r))
def h_comm_group(ex, S, this, a, n):
    for g, ad in ex.cases(S, a[1], n): ex.write(S, ad, obj(ex, S, 'group', n), n)
    return ZERO
def h_group_incl(ex, S, this, a, n):
    ex.event(S, 'incl', (a[0], a[1], a[2]), n)
    for g, ad in ex.cases(S, a[3], n): ex.write(S, ad, obj(ex, S, 'group', n), n)
    return ZERO
def h_group_free(ex, S, this, a, n):
    for g, ad in ex.cases(S, a[0], n):
        v = ex.read(S, ad, 'fm_group*', n)
        for g2, t in ex.cases(S, v, n): ex.release(S, t, 'group', n)
        ex.write(S, ad, NULLP, n)
    return ZERO
def h_comm_create(ex, S, this, a, n):
    ex.event(S, 'coll', ('Comm_create', a[0], a[1]), n)
    c = obj(ex, S, 'comm', n)
    # members get a communicator, others MPI_COMM_NULL
    incl = T.bvar('member!%d' % c.single().region.id)
    r = c.single().region
    S.mem[(r.id, ('#alive',))] = W(S.mem[(r.id, ('#alive',))].prev, (ZERO,), ite(incl, ONE, const(2)))
    for g, ad in ex.cases(S, a[2], n): ex.write(S, ad, Ptr([(incl, c.single()), (not_(incl), None)]), n)
    return ZERO
def h_comm_free(ex, S, this, a, n):
    for g, ad in ex.cases(S, a[0], n):
        v = ex.read(S, ad, 'fm_comm*', n)
        ex.event(S, 'coll', ('Comm_free', v), n)
        for g2, t in ex.cases(S, v, n): ex.release(S, t, 'comm', n)
        ex.write(S, ad, NULLP, n)
    return ZERO
MPI = {'MPI_Comm_rank': h_rank, 'MPI_Comm_size': h_size, 'MPI_Allgather': h_allgather, 'MPI_Allreduce': h_allreduce, 'MPI_Bcast': h_bcast,
       'MPI_Barrier': h_barrier, 'MPI_Wtime': h_wtime, 'MPI_Comm_group': h_comm_group, 'MPI_Group_incl': h_group_incl, 'MPI_Group_free': h_group_free,
       'MPI_Comm_create': h_comm_create, 'MPI_Comm_free': h_comm_free}
# ---------------------------------------------------------------- point to point and Alltoallv: recorded as events
def h_irecv(ex, S, this, a, n):
    ex.event(S, 'irecv', tuple(a), n)
    for g, ad in a[0].cases: typed(ex, S, a[2], ad, n, 'Irecv')
    for g, ad in ex.cases(S, a[6], n): ex.bound(S, ad, n, 'write')
    return ZERO
def h_send(ex, S, this, a, n):
    for g, ad in a[0].cases: typed(ex, S, a[2], ad, n, 'Send')
    ex.event(S, 'send', tuple(a), n); return ZERO
def h_waitany(ex, S, this, a, n):
    w = T.fresh('waitany')
    ex.event(S, 'waitany', (a[0], a[1], w), n)
    S.assume(le(ZERO, w)); S.assume(lt(w, a[0]))
    for g, ad in ex.cases(S, a[2], n): ex.write(S, ad, w, n)
    return ZERO
def h_waitall(ex, S, this, a, n): ex.event(S, 'waitall', (a[0], a[1]), n); return ZERO
def h_alltoallv(ex, S, this, a, n):
    for b, t in ((a[0], a[3]), (a[4], a[7])):
        for g, ad in b.cases: typed(ex, S, t, ad, n, 'Alltoallv')
    ex.event(S, 'alltoallv', tuple(a), n); return ZERO
MPI.update({'MPI_Irecv': h_irecv, 'MPI_Send': h_send, 'MPI_Waitany': h_waitany, 'MPI_Waitall': h_waitall, 'MPI_Alltoallv': h_alltoallv})
