"""C11: spreading of classifications (Propagate_face_tags.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from kvc import mesh

ID = 'C11'
LEVEL = 'proof'
HARNESS = {'src': ['C11.cc'], 'seconds': 30}
ASSUME = ['Triangle_mesh::faces_around_face by its contract (C10): a finite list of existing faces that depends on the mesh, the face and the border only', 'the seed face is classified',
          'termination: the proof shows that every face enters the queue at most once and that the inner loop visits a finite list; the argument from there to termination is not mechanised']

def u_main(eng):
    P = eng.P; fn = P.fn('kigumi::Propagate_face_tags::operator()')
    S = mesh.Mixed(eng, P.deref(fn["p"][0]["t"])); nf, U, tag0 = S.nf, S.U, S.tag0
    pv = eng.fresh_of(fn['rec'], 'spread')
    qf = [(n, t) for n, t, f in P.fields(fn['rec']) if P.kind(t) == 'vec']
    if len(qf) != 1: raise Unsupported('queue of the spreading object')
    qn = qf[0][0]
    eng.assume(zi(pv.d[qn].n) == 0)                       # class invariant: nothing is queued between calls
    this = ref(eng, pv, fn['rec'])
    seed = eng.fresh(I, 'seed'); eng.assume(z3.And(seed >= 0, seed < nf))
    T0 = tag0[seed]; eng.assume(T0 != U)
    base = zi(pv.d[qn].lo)
    # an arbitrary set closed under spreading that contains the seed
    R = z3.Function('R', I, z3.BoolSort()); h = z3.Bool('no_conflict_in_R')
    eng.assume(R(seed))
    def closed(f, i): return z3.Implies(z3.And(R(f), f >= 0, f < nf, i >= 0, i < mesh.DEG(f), tag0[mesh.adj(f, i)] == U), R(mesh.adj(f, i)))
    def quiet(f, i): return z3.Implies(z3.And(h, R(f), f >= 0, f < nf, i >= 0, i < mesh.DEG(f)), z3.Or(tag0[mesh.adj(f, i)] == U, tag0[mesh.adj(f, i)] == T0))
    for q in (closed, quiet): eng.forall(q, sorts=[I, I], pats=lambda f, i: [mesh.adj(f, i)])
    bit = z3.If(S.left(seed), S.w['FIRST_MESH_PARTIALLY_INTERSECTS_WITH_SECOND_MESH'], S.w['SECOND_MESH_PARTIALLY_INTERSECTS_WITH_FIRST_MESH'])
    # ghost: position at which a face was queued
    W0 = eng.fresh(z3.ArraySort(I, I), 'where'); where = eng.new_root(W0)
    eng.forall(lambda f: W0[f] < base, [W0], pats=lambda f: [W0[f]])
    def on_push(e, loc, x):
        if loc.root != this.root: raise Unsupported('another queue')
        q = e.load(loc); f = zi(e.flat(x, q.et)[0])
        W = e.load(where)
        e.oblige('a face is queued at most once', W[f] < base)
        e.store(where, z3.Store(W, f, zi(q.n) + zi(q.lo)))
    eng.opts['on_push'] = on_push
    eng.assume(base >= 0)
    def parts(L):
        q = L.at(this).d[qn]
        return zi(q.lo), zi(q.n) + zi(q.lo), q.arrs[0], L.at(where), S.tag(L)
    def inner(L):
        """is this the loop over the neighbours of one face: does it advance a position in their list?"""
        return any(kd == 'it' for kd, so in L.mods.values())
    def current(L):
        """face whose neighbours are being visited: the last one taken from the queue"""
        q = L.oldat(this).d[qn]
        return q.arrs[0][zi(q.lo) - 1]
    def i_prefix(L):
        """the queue only grows at its end; a loop over neighbours takes nothing from it"""
        q0 = L.oldat(this).d[qn]; lo, hi, arr, W, tag = parts(L); h0 = zi(q0.lo) + zi(q0.n)
        if not inner(L): return z3.BoolVal(True)
        return Quant(lambda j: z3.Implies(j < h0, arr[j] == q0.arrs[0][j]), [arr], pats=lambda j: [arr[j]])
    def i_grow(L):
        q0 = L.oldat(this).d[qn]; lo, hi, arr, W, tag = parts(L)
        return z3.And(lo == zi(q0.lo), hi >= zi(q0.lo) + zi(q0.n)) if inner(L) else z3.BoolVal(True)
    def i_bounds(L):
        lo, hi, arr, W, tag = parts(L)
        return z3.And(lo >= base, hi >= lo) if not inner(L) else z3.And(lo > base, hi >= lo)
    def i_queue(L):
        lo, hi, arr, W, tag = parts(L)
        return Quant(lambda j: z3.Implies(z3.And(j >= base, j < hi), z3.And(arr[j] >= 0, arr[j] < nf, W[arr[j]] == j, tag[arr[j]] == T0, R(arr[j]), z3.Or(arr[j] == seed, tag0[arr[j]] == U))), [arr], pats=lambda j: [arr[j]])
    def i_changed(L):
        lo, hi, arr, W, tag = parts(L)
        return Quant(lambda f: z3.And(z3.Implies(W[f] >= base, z3.And(W[f] < hi, arr[W[f]] == f)), z3.If(z3.And(W[f] >= base, f != seed), z3.And(tag0[f] == U, tag[f] == T0), tag[f] == tag0[f])), [tag, W], pats=lambda f: [W[f]] if not z3.is_store(W) else [])
    def i_seed(L): return parts(L)[3][seed] >= base
    def i_closed(L):
        lo, hi, arr, W, tag = parts(L); inn = inner(L)
        if inn: c = current(L); k = zi(L.k)
        def f(g, i):
            done = z3.And(g >= 0, g < nf, W[g] >= base, W[g] < lo, i >= 0, i < mesh.DEG(g))
            if inn: done = z3.And(done, z3.Or(g != c, i < k))
            return z3.Implies(done, tag[mesh.adj(g, i)] != U)
        return Quant(f, sorts=[I, I], pats=lambda g, i: [mesh.adj(g, i)])
    def accumulators(L):
        """every way in which the code may remember that it met a conflict: a Warnings value or a flag, (no conflict so far, conflict met)"""
        out = []; mods = {r for r, k in L.mods}
        for n, t, l in sorted(L.vars(frames=True), key=lambda v: str(v[0])):
            if t is None: continue
            if not isinstance(l, Loc) or l.root not in mods: continue
            x = L.at(l); d = P.deref(t)
            if P.rname(d) == 'kigumi::Warnings':
                w = eng.as_sort(x, z3.BitVecSort(8)); out.append((w == S.w['NONE'], w == bit))
            elif P.kind(d) == 'bool':
                x = zb(x); out.append((z3.Not(x), x)); out.append((x, z3.Not(x)))
        return out
    def acc(n):
        def quiet_(L):
            a = accumulators(L)
            if n >= len(a): raise SpecError('no such accumulator')
            return z3.And(z3.Or(*a[n]), z3.Implies(h, a[n][0]))
        def complete(L):
            a = accumulators(L)
            if n >= len(a): raise SpecError('no such accumulator')
            inn = inner(L); lo, hi, arr, W, tag = parts(L)
            if inn: c = current(L); k = zi(L.k)
            def f(g, i):
                done = z3.And(g >= 0, g < nf, W[g] >= base, W[g] < lo, i >= 0, i < mesh.DEG(g))
                if inn: done = z3.And(done, z3.Or(g != c, i < k))
                x = mesh.adj(g, i)
                return z3.Implies(z3.And(done, tag0[x] != U, tag0[x] != T0), a[n][1])
            return Quant(f, sorts=[I, I], pats=lambda g, i: [mesh.adj(g, i)])
        return [('warning only for a conflict (accumulator %d)' % n, quiet_), ('every conflict met is warned about (accumulator %d)' % n, complete)]
    eng.invs['*'] = [('nothing is taken from the queue by the loop over neighbours', i_grow), ('queue entries stay', i_prefix), ('queue positions', i_bounds), ('every queued face was reached and classified', i_queue), ('exactly the reached faces change', i_changed), ('the seed is reached', i_seed),
                     ('neighbours of finished faces are classified', i_closed)] + [x for n in range(5) for x in acc(n)]
    def post(kind, r):
        eng.oblige('spreading raises no error', kind == 'ret')
        m1 = eng.load(S.mloc); W = eng.load(where); q = eng.load(this).d[qn]; tag = m1.d['face_data_'].arrs[S.lt]
        eng.oblige('nothing stays queued', eq(q.n, 0))
        f, i = eng.fresh(I, 'face'), eng.fresh(I, 'i'); eng.assume(z3.And(f >= 0, f < nf))
        reached = lambda x: W[x] >= base
        eng.on_read(q.arrs[0], W[f]); eng.on_read(tag, f); eng.on_read(W, f); eng.on_read(W, seed)
        eng.oblige('the seed counts as reached', reached(seed))
        eng.oblige('every changed face was reachable: it lies in every set that contains the seed and is closed under spreading', z3.Implies(reached(f), R(f)))
        eng.oblige('a reached face has the classification of the seed', z3.Implies(reached(f), tag[f] == T0))
        eng.oblige('only unclassified faces change', z3.Implies(tag[f] != tag0[f], z3.And(reached(f), tag0[f] == U)))
        a = mesh.adj(f, i); eng.assume(z3.And(i >= 0, i < mesh.DEG(f))); eng.on_read(mesh.ROW(f), i); eng.on_read(tag, a); eng.on_read(W, a)
        eng.oblige('the reached set is closed: an unclassified neighbour of a reached face is reached', z3.Implies(z3.And(reached(f), tag0[a] == U), reached(a)))
        w = eng.as_sort(r, z3.BitVecSort(8))
        eng.oblige('a neighbour with another classification is warned about, naming the mesh of the seed', z3.Implies(z3.And(reached(f), tag0[a] != U, tag0[a] != T0), w == bit))
        eng.oblige('no warning without such a neighbour', z3.Implies(h, w == S.w['NONE']))
        eng.oblige('no other warning', z3.Or(w == S.w['NONE'], w == bit))
        # frame
        v0, v1 = S.m.d['face_data_'], m1.d['face_data_']
        eng.oblige('nothing else changes', z3.And(*[x == y for k, (x, y) in enumerate(zip(v0.arrs, v1.arrs)) if k != S.lt], zi(v1.n) == nf))
        for n in S.m.d:
            if n != 'face_data_': eng.oblige('nothing else changes', t_eq(S.m.d[n], m1.d[n]))
    bt = P.deref(fn['p'][1]['t'])
    border = ref(eng, eng.fresh_of(bt, 'border'), bt)
    it = P.deref(fn['p'][2]['t'])
    verify(eng, lambda: eng.inline(fn, this, [S.mloc, border, eng.unflat(it, [seed])]), post)
def units(P): return [Unit('kigumi::Propagate_face_tags::operator()', u_main, heavy=True)]
