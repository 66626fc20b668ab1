"""C16: defect reports (Find_defects.h, Dense_undirected_graph.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from kvc.engine import conc
from kvc.lib import throw
from kvc import par
from kvc.tree import *

ID = 'C16'
HARNESS = {'src': ['C16.cc'], 'seconds': 60, 'flags': ['-fsanitize=address']}
LEVEL = 'proof'
ASSUME = ['parallel_do by contract (C19)', 'boost::unordered_flat_map behaves as a finite map, visited in an arbitrary order', 'Point_list::insert by the contract proved for C08',
          'CGAL: is_degenerate() of the triangle of a face is exact',
          'overlapping_faces: the number of points in the intersection of two faces is a function of their sorted corners, faces that overlap have bounding boxes that meet, the tree search by the contract proved for C05, fewer than 2^31 neighbours of a face', 'termination is not proved']
AI = z3.ArraySort(I, I)

class Soup:
    def __init__(self, eng, name):
        P = eng.P; self.eng = eng
        fn = P.fn('kigumi::Find_defects::' + name, lambda f: len(f['p']) >= 1); self.fn = fn
        self.st = P.deref(fn['p'][0]['t']); self.m = eng.fresh_of(self.st, 'm'); self.loc = ref(eng, self.m, self.st)
        soup_wf(eng, self.m); d = self.m.d; self.nv, self.nf = zi(d['points_'].n), zi(d['faces_'].n); self.fa = d['faces_'].arrs
        eng.assume(z3.And(zi(d['faces_'].lo) == 0, zi(d['points_'].lo) == 0))
    def c(self, f, i): return self.fa[i][f]
    def rep(self, f): a, b, c = (x[f] for x in self.fa); return z3.Or(a == b, b == c, c == a)
def listed(eng, ret, cond, N, seens, key=None, arity=1):
    """the result is a list of exactly the items that satisfy cond, each once. W: where an item stands in the list.
    seens: for a loop, the conditions under which an item has been dealt with (candidates)"""
    P = eng.P; S = [I] * arity
    arr = AI if arity == 1 else z3.ArraySort(I, AI)
    W = eng.new_root(eng.fresh(arr, 'position'))
    wsel = (lambda M, *x: M[x[0]]) if arity == 1 else (lambda M, a, b: M[a][b])
    ok_t = lambda t: P.kind(P.deref(t)) == 'vec' and P.elem(P.deref(t)) == P.elem(P.deref(ret))
    def vecs(L):
        out = {}
        for n, t, l in L.vars(frames=True):
            if t is not None and isinstance(l, Loc) and not l.path and ok_t(t) and any(r == l.root for r, k in L.mods): out[l.root] = l
        return list(out.values())
    def on_append(e, loc, x):
        if e.fp is not None: return
        v = e.peek(loc)
        if not (isinstance(v, Vec) or loc.root in e.rtype): return
        et = v.et if isinstance(v, Vec) else e.P.elem(e.rtype[loc.root])
        if et != P.elem(P.deref(ret)): return
        xs = [zi(y) for y in e.flat(x, et)]; M = e.peek(W); M2 = e.fresh(arr, 'position'); n = zi(e.vec_len(v))
        e.assume(M2 == (z3.Store(M, xs[0], n) if arity == 1 else z3.Store(M, xs[0], z3.Store(M[xs[0]], xs[1], n)))); e.mem[W.root] = M2
    eng.opts['on_append'] = on_append
    def sound(vec, M, ok):
        x = vec.arrs; n = zi(vec.n)
        return Quant(lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(cond(*[a[k] for a in x]), wsel(M, *[a[k] for a in x]) == k, ok(*[a[k] for a in x]))), x, pats=lambda k: [x[0][k]])
    def every(vec, M, ok):
        x = vec.arrs; n = zi(vec.n)
        def f(*q): p = wsel(M, *q); return z3.Implies(z3.And(cond(*q), ok(*q)), z3.And(p >= 0, p < n, *[a[p] == y for a, y in zip(x, q)]))
        return Quant(f, sorts=S, pats=lambda *q: [wsel(M, *q)])
    cs = []
    for m in range(2):
        for i, s in enumerate(seens):
            def mk(fn, m=m, s=s):
                def inv(L):
                    v = vecs(L)
                    if m >= len(v): raise SpecError('list')
                    vec = L.at(v[m])
                    if not isinstance(vec, Vec): raise SpecError('list')
                    return fn(vec, L.at(W), s(L))
                return inv
            cs.append(('items in list %d are wanted, dealt with and stand where recorded (%d)' % (m, i), mk(sound))); cs.append(('every wanted item dealt with is in list %d (%d)' % (m, i), mk(every)))
    eng.invs['*'] = eng.invs.get('*', []) + cs
    def post(kind, v):
        eng.oblige('looking for defects raises no error', kind == 'ret')
        if kind != 'ret': return
        v = eng.load(v) if isinstance(v, Loc) else v
        if not isinstance(v, Vec): v = eng.pyvec_to_vec(v, P.elem(P.deref(ret)))
        x = v.arrs; n = zi(v.n); M = eng.peek(W)
        def c1():
            k = eng.fresh(I, 'any_position'); eng.assume(z3.And(k >= 0, k < n))
            for a in x: eng.on_read(a, k)
            xs = [a[k] for a in x]
            eng.oblige('every item listed is a defect of this kind', cond(*xs)); eng.oblige('no item is listed twice', wsel(M, *xs) == k)
        def c2():
            q = [eng.fresh(I, 'any_item') for _ in S]; eng.assume(cond(*q)); p = wsel(M, *q)
            if arity == 1: eng.on_read(M, q[0])
            eng.oblige('every defect of this kind is listed', z3.And(p >= 0, p < n, *[a[p] == y for a, y in zip(x, q)]))
        for c in (c1, c2): eng.explore(c)
    return post, W
def parallel(eng, ret, cond, names):
    """the same for a list that the workers of a parallel loop collect and merge"""
    P = eng.P; par.install(eng); W = eng.new_root(eng.fresh(AI, 'position')); et0 = P.elem(P.deref(ret))
    is_list = lambda t: P.kind(P.deref(t)) == 'vec' and P.elem(P.deref(t)) == et0
    def p_(): 
        p = eng.g.get('par')
        if p is None or 'done' not in p: raise SpecError('not in the parallel loop')
        return p
    def results(vs, p): return {l.root: l for t, l in vs if t is not None and isinstance(l, Loc) and not l.path and l.root != p['local'].root and is_list(t) and l.root not in names}
    def on_append(e, loc, x):
        p = e.g.get('par'); v = e.peek(loc)
        if e.fp is not None: return
        et = v.et if isinstance(v, Vec) else e.P.elem(e.rtype[loc.root]) if e.rtype.get(loc.root) is not None else None
        if et != et0: return
        if p is None or loc.root != p['local'].root: raise Unsupported('items added elsewhere')
        j = zi(e.flat(x, et)[0]); e.oblige('a worker lists the item it works on', j == zi(e.load(p['cur'])))
        M = e.peek(W); M2 = e.fresh(AI, 'position'); e.assume(M2 == z3.Store(M, j, zi(e.vec_len(v)))); e.mem[W.root] = M2
    eng.opts['on_append'] = on_append
    def on_merge(e):
        p = p_(); M = e.peek(W); D, Sm = e.load(p['done']), e.load(p['merged'])
        vs = results([(e.rtype.get(l.root), l) for fr in e.frames for l in fr.env.values() if isinstance(l, Loc) and not l.path and l.root in e.mem], p)
        if len(vs) != 1: raise Unsupported('list of results')
        off = zi(e.vec_len(e.peek(list(vs.values())[0]))); M2 = e.fresh(AI, 'position')
        e.forall(lambda j: M2[j] == z3.If(z3.And(D[j], z3.Not(Sm[j])), M[j] + off, M[j]), [M2], pats=lambda j: [M2[j]]); e.mem[W.root] = M2
    eng.opts['on_merge'] = on_merge
    def ghost(L):
        p = p_(); c = [l for l in results([(t, l) for n, t, l in L.vars(frames=True)], p).values() if l.root in L.cur[0]]
        if len(c) != 1: raise SpecError('list of results')
        return L.at(p['done']), L.at(p['merged']), p['local'], c[0]
    def vec(L, l):
        v = L.at(l)
        if not isinstance(v, Vec): raise SpecError('list')
        return v
    def sound(L, v, ok):
        x = v.arrs[0]; M = L.at(W); n = zi(v.n); return Quant(lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(cond(x[k]), M[x[k]] == k, ok(x[k]))), [x], pats=lambda k: [x[k]])
    def every(L, v, ok):
        x = v.arrs[0]; M = L.at(W); n = zi(v.n); return Quant(lambda j: z3.Implies(z3.And(cond(j), ok(j)), z3.And(M[j] >= 0, M[j] < n, x[M[j]] == j)), [M], pats=lambda j: [M[j]])
    def mine(fn):
        def inv(L): D, Sm, lo, res = ghost(L); return fn(L, vec(L, lo), lambda j: z3.And(D[j], z3.Not(Sm[j])))
        return inv
    def theirs(fn):
        def inv(L): D, Sm, lo, res = ghost(L); return fn(L, vec(L, res), lambda j: Sm[j])
        return inv
    def sub_(L): D, Sm, lo, res = ghost(L); return Quant(lambda j: z3.Implies(Sm[j], D[j]), [Sm], pats=lambda j: [Sm[j]])
    eng.invs['*'] = eng.invs.get('*', []) + [('what was merged was done', sub_), ('items in the list of a worker are defects and were looked at', mine(sound)), ('defects looked at are in the list of their worker', mine(every)),
                     ('items in the result are defects and were looked at', theirs(sound)), ('defects merged are in the result', theirs(every))]
    def post(kind, v):
        eng.oblige('looking for defects raises no error', kind == 'ret')
        if kind != 'ret': return
        v = eng.load(v) if isinstance(v, Loc) else v
        if not isinstance(v, Vec): v = eng.pyvec_to_vec(v, et0)
        x = v.arrs[0]; n = zi(v.n); M = eng.peek(W)
        def c1():
            k = eng.fresh(I, 'any_position'); eng.assume(z3.And(k >= 0, k < n)); eng.on_read(x, k)
            eng.oblige('every item listed is a defect of this kind', cond(x[k])); eng.oblige('no item is listed twice', M[x[k]] == k)
        def c2():
            q = eng.fresh(I, 'any_item'); eng.assume(cond(q)); p = M[q]; eng.on_read(M, q); D = eng.load(p_()['done']); eng.on_read(D, q)
            eng.oblige('every defect of this kind is listed', z3.And(p >= 0, p < n, x[p] == q))
        for c in (c1, c2): eng.explore(c)
    return post
def u_flat(eng):
    S = Soup(eng, 'non_trivial_degenerate_faces'); P = eng.P; PT, TR = P.sort_of('CGAL::Point_3'), P.sort_of('CGAL::Triangle_3')
    T3 = z3.Function('triangle', PT, PT, PT, TR); DT = z3.Function('has_no_area', TR, z3.BoolSort()); DF = z3.Function('face_has_no_area', I, z3.BoolSort())
    pts = S.m.d['points_'].arrs[0]; ld = lambda e, x: e.load(x) if isinstance(x, Loc) else x
    eng.forall(lambda f: z3.Implies(z3.And(f >= 0, f < S.nf), DF(f) == DT(T3(*[pts[a[f]] for a in S.fa]))), S.fa, pats=lambda f: [S.fa[0][f], DF(f)])
    C = eng.contracts
    C['CGAL::Triangle_3::Triangle_3'] = lambda e, f, t, v, n=None: T3(*[ld(e, x) for x in v]) if len(v) == 3 else ld(e, v[0])
    C['CGAL::Triangle_3::is_degenerate'] = lambda e, f, this, v: DT(ld(e, this))
    C['CGAL::collinear'] = lambda e, f, this, v: DT(T3(*[ld(e, x) for x in v]))
    post = parallel(eng, S.fn['ret'], lambda j: z3.And(j >= 0, j < S.nf, z3.Not(S.rep(j)), DF(j)), ())
    verify(eng, lambda: eng.inline(S.fn, None, [S.loc]), post)
def up_to(L): k = L.k; return lambda j, *r: j < zi(k)
def u_trivial(eng):
    S = Soup(eng, 'trivial_degenerate_faces')
    post, W = listed(eng, S.fn['ret'], lambda j: z3.And(j >= 0, j < S.nf, S.rep(j)), S.nf, [up_to])
    verify(eng, lambda: eng.inline(S.fn, None, [S.loc]), post)
def u_isolated(eng):
    S = Soup(eng, 'isolated_vertices'); P = eng.P
    USED = z3.Function('is_a_corner', I, z3.BoolSort()); BY = z3.Function('face_at_vertex', I, I)
    eng.forall(lambda v: z3.Implies(USED(v), z3.And(BY(v) >= 0, BY(v) < S.nf, z3.Or(*[a[BY(v)] == v for a in S.fa]))), pats=lambda v: [USED(v)])
    for a in S.fa: eng.forall(lambda f, a=a: z3.Implies(z3.And(f >= 0, f < S.nf), USED(a[f])), [a], pats=lambda f: [a[f]])
    post, W = listed(eng, S.fn['ret'], lambda j: z3.And(j >= 0, j < S.nv, z3.Not(USED(j))), S.nv, [up_to])
    def marks(L, m):
        v = {l.root: l for n, t, l in L.vars(frames=True) if t is not None and isinstance(l, Loc) and not l.path and P.kind(P.deref(t)) == 'vec' and P.kind(P.elem(P.deref(t))) == 'bool' and any(r == l.root for r, k in L.mods)}
        v = list(v.values())
        if m >= len(v) or not isinstance(L.at(v[m]), Vec): raise SpecError('marks')
        return L.at(v[m])
    def size(m):
        def f(L): v = marks(L, m); return z3.And(zi(v.n) == S.nv, zi(v.lo) == 0)
        return f
    def right(m):
        def f(L): a = marks(L, m).arrs[0]; return Quant(lambda v: z3.Implies(a[v], USED(v)), [a], pats=lambda v: [a[v]])
        return f
    def all_(m):
        def f(L):
            a = marks(L, m).arrs[0]; k = zi(L.k); return Quant(lambda f: z3.Implies(z3.And(f >= 0, f < k), z3.And(*[a[c[f]] for c in S.fa])), S.fa, pats=lambda f: [c[f] for c in S.fa])
        return f
    for m in range(2): eng.invs['*'] = eng.invs['*'] + [('one mark per vertex %d' % m, size(m)), ('marked vertices are corners %d' % m, right(m)), ('corners of the faces seen are marked %d' % m, all_(m))]
    verify(eng, lambda: eng.inline(S.fn, None, [S.loc]), post)
class Half:
    """how often a directed edge (a, b) occurs in the first k faces without repeated vertices"""
    def __init__(self, eng, mt):
        P = eng.P; self.eng = eng; self.mt = mt; self.kt = P.targ(mt, 0); self.ks = eng.key_sort(self.kt)
        if len(eng.leaf_sorts(self.kt)) != 2: raise Unsupported('type of directed edges')
        self.key = lambda a, b: self.ks.constructor(0)(a, b); self.a = self.ks.accessor(0, 0); self.b = self.ks.accessor(0, 1)
        self.N = z3.Function('number_of_faces_along', I, z3.ArraySort(self.ks, I))
def u_collect(eng):
    S = Soup(eng, 'collect_halfedges'); P = eng.P; H = Half(eng, P.deref(S.fn['ret'])); N = H.N
    r0 = eng.fresh(z3.ArraySort(H.ks, I), 'none'); eng.assume(N(z3.IntVal(0)) == r0); eng.forall(lambda q: r0[q] == 0, [r0], sorts=[H.ks], pats=lambda q: [r0[q]])
    def has(f, q): return z3.And(z3.Not(S.rep(f)), z3.Or(*[z3.And(H.a(q) == S.c(f, i), H.b(q) == S.c(f, (i + 1) % 3)) for i in range(3)]))
    def facts(L):
        k = zi(L.k); a, b = (eng.fresh(z3.ArraySort(H.ks, I), n) for n in ('count', 'next_count')); k1 = eng.fresh(I, 'next'); eng.assume(z3.And(k1 == k + 1, N(k) == a, N(k1) == b))
        eng.forall(lambda q: z3.And(z3.Implies(z3.And(k >= 0, k < S.nf), b[q] == a[q] + z3.If(has(k, q), 1, 0)), a[q] >= 0, b[q] >= 0, a[q] <= k, b[q] <= k1), [b], sorts=[H.ks], pats=lambda q: [b[q], a[q]]); return []
    eng.opts['loop_facts'] = [facts]
    def maps(L):
        v = {l.root: l for n, t, l in L.vars(frames=True) if t is not None and isinstance(l, Loc) and not l.path and P.kind(P.deref(t)) == 'map' and P.targ(P.deref(t), 0) == H.kt and any(r == l.root for r, k in L.mods)}
        v = list(v.values())
        if len(v) != 1: raise SpecError('map')
        return L.at(v[0])
    def inv(L):
        M = maps(L); r = N(zi(L.k)); return Quant(lambda q: z3.And(M.dom[q] == (r[q] > 0), z3.Implies(M.dom[q], zi(M.arrs[0][q]) == r[q])), [M.dom], sorts=[H.ks], pats=lambda q: [M.dom[q], M.arrs[0][q], r[q]])
    eng.invs['*'] = [('every directed edge of the faces seen is counted', inv)]
    def post(kind, v):
        eng.oblige('counting raises no error', kind == 'ret')
        if kind != 'ret': return
        v = eng.load(v) if isinstance(v, Loc) else v; q = eng.fresh(H.ks, 'any_edge'); r = N(S.nf)
        eng.oblige('a directed edge is known exactly when a face has it', v.dom[q] == (r[q] > 0)); eng.oblige('it is counted once per face', z3.Implies(v.dom[q], zi(v.arrs[0][q]) == r[q]))
    verify(eng, lambda: eng.inline(S.fn, None, [S.loc]), post)
def u_edges(name, want):
    def unit(eng):
        P = eng.P; fn = P.fn('kigumi::Find_defects::' + name, lambda f: len(f['p']) >= 1); mt = P.deref(fn['p'][0]['t']); H = Half(eng, mt)
        M = eng.fresh_of(mt, 'halfedges'); loc = ref(eng, M, mt); dom, val = M.dom, M.arrs[0]; sw = lambda q: H.key(H.b(q), H.a(q))
        # what collect_halfedges leaves: a count of at least one, two distinct ends
        eng.forall(lambda q: z3.Implies(dom[q], z3.And(val[q] >= 1, val[q] < 2**40, H.a(q) != H.b(q), H.a(q) >= 0, H.b(q) >= 0)), [dom], sorts=[H.ks], pats=lambda q: [dom[q]])
        C = z3.Function('count', I, I, I); eng.forall(lambda a, b: z3.And(C(a, b) == z3.If(dom[H.key(a, b)], val[H.key(a, b)], 0)), sorts=[I, I], pats=lambda a, b: [C(a, b), H.key(a, b)])
        from kvc.lib import map_order
        ordr, pos, _ = map_order(eng, loc)
        cond = lambda a, b: z3.And(a < b, want(C(a, b), C(b, a)))
        def seen(which):
            def s(L):
                k = zi(L.k); d = lambda a, b: dom[H.key(a, b)]; p = lambda a, b: z3.And(d(a, b), pos(H.key(a, b)) < k)
                return {'either': lambda a, b: z3.Or(p(a, b), p(b, a)), 'forward': lambda a, b: z3.If(d(a, b), p(a, b), p(b, a)), 'backward': lambda a, b: z3.If(d(b, a), p(b, a), p(a, b)), 'both': lambda a, b: z3.And(z3.Implies(d(a, b), p(a, b)), z3.Implies(d(b, a), p(b, a)))}[which]
            return s
        post, W = listed(eng, fn['ret'], cond, None, [seen(x) for x in ('either', 'forward', 'backward', 'both')], arity=2)
        verify(eng, lambda: eng.inline(fn, None, [loc]), post)
    return unit
def u_merge(eng):
    S = Soup(eng, 'merge_duplicate_vertices'); P = eng.P; PT = P.sort_of('CGAL::Point_3'); old = S.m.d['points_'].arrs[0]
    OLD = z3.Function('is_a_point_of_the_mesh', PT, z3.BoolSort()); AT = z3.Function('vertex_at_point', PT, I)
    eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < S.nv), OLD(old[j])), [old], pats=lambda j: [old[j]])
    eng.forall(lambda p: z3.Implies(OLD(p), z3.And(AT(p) >= 0, AT(p) < S.nv, old[AT(p)] == p)), sorts=[PT], pats=lambda p: [OLD(p)])
    def var(L, pred, what):
        v = {l.root: l for n, t, l in L.vars(frames=True) if t is not None and isinstance(l, Loc) and not l.path and pred(P.deref(t)) and l.root in L.eng.mem and l.root != S.loc.root}
        if len(v) != 1: raise SpecError(what)
        x = L.at(list(v.values())[0])
        return x
    PL = lambda L: var(L, lambda t: P.rname(t) == 'kigumi::Point_list', 'point list'); NM = lambda L: var(L, lambda t: is_soup(P, t), 'new mesh')
    def VM(L):
        v = var(L, lambda t: P.kind(t) == 'vec' and is_vertex_index(P, P.elem(t)), 'vertex map')
        if not isinstance(v, Vec): raise SpecError('vertex map')
        return v
    def vec(v):
        if not isinstance(v, Vec): raise SpecError('list')
        return v
    def pts(L):
        x = PL(L); return vec(x.d['points_']), x.d['point_to_index_']
    def i_same(L):
        p, M = pts(L); n = vec(NM(L).d['points_']); return z3.And(zi(p.n) == zi(n.n), zi(n.n) >= 0)
    def i_eq(L):
        p, M = pts(L); n = vec(NM(L).d['points_']); a, b = p.arrs[0], n.arrs[0]; return Quant(lambda j: z3.Implies(z3.And(j >= 0, j < zi(p.n)), a[j] == b[j]), [a, b], pats=lambda j: [a[j], b[j]])
    def i_map(L):
        p, M = pts(L); a = p.arrs[0]; return Quant(lambda q: z3.Implies(M.dom[q], z3.And(M.arrs[0][q] >= 0, M.arrs[0][q] < zi(p.n), a[M.arrs[0][q]] == q)), sorts=[PT], pats=lambda q: [M.dom[q]])
    def i_all(L):
        p, M = pts(L); a = p.arrs[0]; return Quant(lambda j: z3.Implies(z3.And(j >= 0, j < zi(p.n)), z3.And(M.dom[a[j]], M.arrs[0][a[j]] == j, OLD(a[j]))), [a], pats=lambda j: [a[j]])
    W = eng.new_root(eng.fresh(z3.ArraySort(PT, I), 'vertex_of_point'))
    def on_append(e, loc, x):
        v = e.peek(loc)
        if not isinstance(v, (Vec, PyVec)) or loc.root not in e.rtype: return
        x = e.load(x) if isinstance(x, Loc) else x
        if not (is_sym(x) and x.sort().eq(PT)): return
        M = e.peek(W); M2 = e.fresh(M.sort(), 'vertex_of_point'); e.assume(M2 == z3.Store(M, x, zi(e.vec_len(v)))); e.mem[W.root] = M2
    eng.opts['on_append'] = on_append
    def i_w(L):
        p, M = pts(L); w = L.at(W); return Quant(lambda q: z3.Implies(M.dom[q], w[q] == M.arrs[0][q]), sorts=[PT], pats=lambda q: [M.dom[q]])
    def i_on(L): return zb(PL(L).d['check_uniqueness_'])
    def i_vn(L): return zi(VM(L).n) == L.k
    def i_vm(L):
        v = VM(L); p, M = pts(L); a = p.arrs[0]; x = v.arrs[0]; return Quant(lambda j: z3.Implies(z3.And(j >= 0, j < zi(v.n)), z3.And(x[j] >= 0, x[j] < zi(p.n), a[x[j]] == old[j])), [x, old], pats=lambda j: [x[j], old[j]])
    def faces(L): return vec(NM(L).d['faces_'])
    def i_fn(L): return zi(faces(L).n) == L.k
    def i_f(L):
        f = faces(L); v = VM(L).arrs[0]; return Quant(lambda j: z3.Implies(z3.And(j >= 0, j < zi(f.n)), z3.And(*[x[j] == v[a[j]] for x, a in zip(f.arrs, S.fa)])), f.arrs, pats=lambda j: [x[j] for x in f.arrs])
    eng.invs['*'] = [('as many points as vertices', i_same), ('the points are the vertices', i_eq), ('every point recorded is stored', i_map), ('every point stored is recorded and a point of the mesh', i_all), ('merging is on', i_on), ('points recorded stand where recorded', i_w),
                     ('vertices seen have an index', i_vn), ('their index is that of their point', i_vm), ('as many faces as were seen', i_fn), ('faces keep their corners', i_f)]
    def post(kind, v):
        eng.oblige('merging raises no error', kind == 'ret')
        if kind != 'ret': return
        v = eng.load(v) if isinstance(v, Loc) else v; p, f = v.d['points_'], v.d['faces_']
        if not isinstance(p, Vec): p = eng.pyvec_to_vec(p, P.elem([t for n, t, _ in P.fields(S.st) if n == 'points_'][0]))
        if not isinstance(f, Vec): f = eng.pyvec_to_vec(f, P.elem([t for n, t, _ in P.fields(S.st) if n == 'faces_'][0]))
        a = p.arrs[0]; n = zi(p.n)
        def c1():
            i, j = eng.fresh(I, 'vertex'), eng.fresh(I, 'other_vertex'); eng.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
            for x in (i, j): eng.on_read(a, x)
            eng.oblige('no two vertices lie in one point', z3.Implies(a[i] == a[j], i == j)); eng.oblige('every vertex is one of the mesh', OLD(a[i]))
        def c2():
            k = eng.fresh(I, 'old_vertex'); eng.assume(z3.And(k >= 0, k < S.nv)); eng.on_read(old, k); w = eng.peek(W)[old[k]]
            eng.oblige('every vertex is kept', z3.And(w >= 0, w < n, a[w] == old[k]))
        def c3():
            g = eng.fresh(I, 'face'); eng.assume(z3.And(g >= 0, g < zi(f.n)))
            for x in (*f.arrs, *S.fa): eng.on_read(x, g)
            for x, o in zip(f.arrs, S.fa): eng.oblige('faces keep the points of their corners, in order', z3.And(x[g] >= 0, x[g] < n, a[x[g]] == old[o[g]]))
        eng.oblige('no face is added or lost', zi(f.n) == S.nf); eng.oblige('one data item per face', zi(eng.vec_len(v.d['face_data_'])) == S.nf)
        for c in (c1, c2, c3): eng.explore(c)
    verify(eng, lambda: eng.inline(S.fn, None, [S.loc]), post)
def u_overlap(eng):
    S = Soup(eng, 'overlapping_faces'); P = eng.P; B = z3.BoolSort(); fn = S.fn; vt = P.deref(fn['p'][1]['t'])
    TR = SoupTree(eng, S.m, 'soup'); H = Hits(eng)
    # the two lists of degenerate faces, as their own contracts say
    lists = []
    DG = z3.Function('is_degenerate', I, B); eng.forall(lambda f: z3.Implies(z3.And(f >= 0, f < S.nf, S.rep(f)), DG(f)), S.fa, pats=lambda f: [DG(f)])
    inr = lambda f: z3.And(f >= 0, f < S.nf)
    for nm, c in (('trivial', lambda f: S.rep(f)), ('flat', lambda f: z3.And(DG(f), z3.Not(S.rep(f))))):
        v = eng.fresh_of(vt, nm); x = v.arrs[0]; n = zi(v.n); eng.assume(z3.And(zi(v.lo) == 0, n <= S.nf)); PS = z3.Function('place_among_' + nm, I, I)
        eng.forall(lambda k, x=x, n=n, c=c: z3.Implies(z3.And(k >= 0, k < n), z3.And(inr(x[k]), c(x[k]), DG(x[k]))), [x], pats=lambda k, x=x: [x[k]])
        eng.forall(lambda f, x=x, n=n, c=c, PS=PS: z3.Implies(z3.And(inr(f), c(f)), z3.And(PS(f) >= 0, PS(f) < n, x[PS(f)] == f)), pats=lambda f: [DG(f)])
        lists.append(ref(eng, v, vt))
    # what the intersection of two faces is: a function of the sorted corners
    SZ = z3.Function('number_of_intersection_points', *[I] * 7)
    srt = [z3.Function('corner_%s' % k, I, I) for k in ('low', 'mid', 'high')]
    def is_sorted(f):
        a, b, c = (x[f] for x in S.fa); l, m, h = (s(f) for s in srt)
        return z3.And(l <= m, m <= h, z3.Or(*[z3.And(l == x, m == y, h == z) for x, y, z in ((a, b, c), (a, c, b), (b, a, c), (b, c, a), (c, a, b), (c, b, a))]))
    eng.forall(lambda f: z3.Implies(inr(f), is_sorted(f)), pats=lambda f: [srt[0](f)])
    BEY = z3.Function('meet_beyond_common_vertices', I, I, B)
    def meaning(f, g):
        n = SZ(*[s(f) for s in srt], *[s(g) for s in srt]); sh = sum([z3.If(z3.Or(*[s(f) == x[g] for x in S.fa]), 1, 0) for s in srt])
        return z3.Implies(z3.And(inr(f), inr(g)), z3.And(n >= 0, n <= 6, BEY(f, g) == z3.And(n > 0, z3.Implies(n == 1, sh < 1), z3.Implies(n == 2, sh < 2)), z3.Implies(BEY(f, g), boxes_meet(eng, TR.FB(f), TR.FB(g)))))
    eng.forall(meaning, sorts=[I, I], pats=lambda f, g: [BEY(f, g)])
    OV, WIT = z3.Function('overlaps_a_later_face', I, B), z3.Function('face_overlapped', I, I)
    later = lambda f, g: z3.And(inr(g), g > f, z3.Not(DG(g)), BEY(f, g))
    eng.forall(lambda f: z3.Implies(OV(f), later(f, WIT(f))), pats=lambda f: [OV(f)])
    eng.forall(lambda f, g: z3.Implies(later(f, g), OV(f)), sorts=[I, I], pats=lambda f, g: [BEY(f, g)])
    def candidate(p):
        w = eng.g.get('par')
        if w is None or 'done' not in w: return z3.BoolVal(True)
        f, g = zi(eng.peek(w['cur'])), TR.face[p]; return z3.And(meaning(f, g), z3.Implies(later(f, g), OV(f)))
    eng.trig.setdefault(TR.face.get_id(), []).append(candidate)
    post = parallel(eng, fn['ret'], lambda j: z3.And(inr(j), z3.Not(DG(j)), OV(j)), {l.root for l in lists})
    def tree(e, f, this, v):
        if not this.same(S.loc): raise Unsupported('tree asked for')
        return TR.loc
    def search(e, f, this, v):
        if not (isinstance(this, Loc) and this.same(TR.loc)): raise Unsupported('tree searched')
        out, q, node, ns = hit_args(e, TR, f, v); deliver(e, TR, H, out, q, z3.IntVal(0), S.nf); return VOID
    C = eng.contracts; C['kigumi::Triangle_soup::aabb_tree'] = tree; C['kigumi::AABB_tree::get_intersecting_leaves'] = search
    pts = S.m.d['points_'].arrs[0]; FF = 'kigumi::Face_face_intersection::'
    def ctor(e, f, t, v, n=None):
        if not isinstance(v[0], Loc): raise Unsupported('points of the intersection')
        o = e.peek(v[0])
        if isinstance(o, Obj): return o
        return Obj('face_face_intersection', points=v[0])
    C[FF + 'Face_face_intersection'] = ctor
    def low3(e, a):
        x, y, z = (zi(q) for q in a); r = [e.fresh(I, n) for n in ('low', 'mid', 'high')]
        e.assume(z3.And(r[0] <= r[1], r[1] <= r[2], z3.Or(*[z3.And(r[0] == p, r[1] == q, r[2] == s) for p, q, s in ((x, y, z), (x, z, y), (y, x, z), (y, z, x), (z, x, y), (z, y, x))]))); return r
    def meet(e, f, this, v):
        o = e.load(this) if isinstance(this, Loc) else this; ix = [zi(e.load(x) if isinstance(x, Loc) else x) for x in v]
        if not isinstance(o, Obj) or len(ix) != 6: raise Unsupported('intersection of faces')
        l = o.d['points']
        if e.fp is not None: e.access('R', l)
        pl = e.peek(l).d['points_']
        if not isinstance(pl, Vec): raise Unsupported('points of the intersection')
        e.oblige('the corners of an intersection are distinct', z3.And(z3.Distinct(*ix[:3]), z3.Distinct(*ix[3:])))
        for x in ix:
            e.on_read(pl.arrs[0], x); e.on_read(pts, x)
            e.oblige('the corners are vertices and stand for their points', z3.And(x >= 0, x < S.nv, x < zi(pl.n), pl.arrs[0][x] == pts[x]))
        n = SZ(*low3(e, ix[:3]), *low3(e, ix[3:])); e.assume(z3.And(n >= 0, n <= 6)); rt = P.deref(f['ret'])
        return Vec(P.elem(rt), n, [e.fresh(z3.ArraySort(I, s), 'region') for s in e.leaf_sorts(P.elem(rt))], 0)
    C[FF + 'operator()'] = meet
    def pl_inv(L):
        v = {l.root: l for n, t, l in L.vars(frames=True) if t is not None and isinstance(l, Loc) and not l.path and P.rname(P.deref(t)) == 'kigumi::Point_list' and any(r == l.root for r, k in L.mods)}
        if len(v) != 1: raise SpecError('point list')
        x = L.at(list(v.values())[0]); p = x.d['points_']
        if not isinstance(p, Vec): raise SpecError('point list')
        return x, p
    def i_n(L): x, p = pl_inv(L); return z3.And(zi(p.n) == L.k, z3.Not(zb(x.d['check_uniqueness_'])))
    def i_p(L): x, p = pl_inv(L); a = p.arrs[0]; return Quant(lambda j: z3.Implies(z3.And(j >= 0, j < zi(p.n)), a[j] == pts[j]), [a, pts], pats=lambda j: [a[j], pts[j]])
    def inner(L):
        p = eng.g.get('par')
        if p is None or 'done' not in p or L.key.endswith('#-1'): raise SpecError('not in the loop over candidates')
        return L.at(p['cur'])
    def i_none(L):
        cur = inner(L); PL = L.at(H.PL); k = zi(L.k); return Quant(lambda g: z3.Implies(z3.And(inr(g), boxes_meet(eng, TR.FB(cur), TR.FB(g)), PL[TR.WH(g)] < k), z3.Not(later(cur, g))), sorts=[I], pats=lambda g: [BEY(cur, g)])
    eng.invs['*'] = eng.invs['*'] + [('a point per vertex seen', i_n), ('the points of the vertices in order', i_p), ('no candidate seen overlaps', i_none)]
    verify(eng, lambda: eng.inline(fn, None, [S.loc] + lists), post)
G='kigumi::dense_undirected_graph::'
def hint(eng, label, f): eng.oblige(label, f); eng.assume(f)
def half_square(eng, i):
    """i (i + 1) is even"""
    t, u, r = eng.fresh(I, 'half'), eng.fresh(I, 'q'), eng.fresh(I, 'r')
    eng.assume(z3.And(i == 2 * u + r, r >= 0, r <= 1))       # division with remainder by two
    eng.assume(t == z3.If(r == 0, u * (2 * u + 1), (2 * u + 1) * (u + 1)))
    hint(eng, 'i (i + 1) is even', i * (i + 1) == 2 * t); return t
def u_at(eng):
    P = eng.P
    for fn in P.fns(G + 'at'):
        def th(fn=fn):
            rt = fn['rec']; v = eng.fresh_of(rt, 'graph'); n = zi(v.d['order_']); m = v.d['m_']; loc = ref(eng, v, rt)
            i, j = eng.fresh(I, 'i'), eng.fresh(I, 'j'); a = eng.fresh(I, 'a'); b = eng.fresh(I, 'b')
            eng.assume(z3.And(n < 2**31, n >= 1, i >= 0, j >= 0, i < 2**31, j < 2**31, zi(m.lo) == 0))
            hn = half_square(eng, n); eng.assume(zi(m.n) == hn)
            lo, hi = eng.fresh(I, 'lo'), eng.fresh(I, 'hi'); eng.assume(z3.And(lo == z3.If(i <= j, i, j), hi == z3.If(i <= j, j, i)))
            h = half_square(eng, lo)
            eng.g['x'] = (n, i, j, lo, hi, h, hn, m)
            ok = z3.And(i < n, j < n)
            hint(eng, 'the row is in range', z3.Implies(ok, z3.And((n - 1 - lo) * lo >= 0)))
            hint(eng, 'the end of the row is in range', z3.Implies(ok, z3.And((n - 1 - lo) * (n - lo) >= 0)))
            r = eng.inline(fn, loc, [i, j]); return r
        def post(kind, r):
            n, i, j, lo, hi, h, hn, m = eng.g['x']; ok = z3.And(i < n, j < n)
            eng.oblige('an entry is refused exactly when a vertex does not exist', ok == (kind == 'ret'))
            if kind == 'ret':
                eng.oblige('an entry of the matrix', isinstance(r, Loc) and isinstance(r.path[-1], tuple))
                x = zi(r.path[-1][1]); eng.oblige('the place of an entry', x == n * lo + hi - h)
        verify(eng, th, post)

def u_inj(eng):
    n, i, j, a, b = (eng.fresh(I, x) for x in 'nijab')
    eng.assume(z3.And(0 <= i, i <= j, j < n, 0 <= a, a <= b, b < n, i < a))
    h, g = half_square(eng, i), half_square(eng, a); d = eng.fresh(I, 'd'); eng.assume(a == i + d)
    hint(eng, 'l1', (n - 1 - a) * (d - 1) >= 0)
    hint(eng, 'l2', d * (d + 1) >= 2)
    hint(eng, 'l3', 2 * (g - h) == d * (2 * i + d + 1))
    hint(eng, 'l4', n * d - n - (a + 1) * d + a + 1 >= 0)
    hint(eng, 'l5', 2 * (n * a - n * i - (g - h) + a - n + 1) >= d * (d + 1) - 0 * n) 
    eng.oblige('rows do not overlap', n * i + j - h < n * a + b - g)
class Graph:
    """a graph: order n, CNT(i, j) = number of edges between i and j. at() by its contract (proved in the units on it)"""
    def __init__(self, eng):
        P = eng.P; self.eng = eng; fn = P.fns(G + 'at')[0]; self.rt = fn['rec']; self.n = n = eng.fresh(I, 'order'); C = self.C = z3.Function('EDGES', I, I, I)
        eng.assume(z3.And(n >= 1, n < 2**31)); et = P.deref(fn['ret']); self.loc = eng.new_root(Obj('graph'), None)
        eng.forall(lambda i, j: z3.And(C(i, j) >= 0, C(i, j) < 2**31, C(i, j) == C(j, i)), sorts=[I, I], pats=lambda i, j: [C(i, j)])
        v = eng.fresh_of(self.rt, 'graph'); eng.assume(zi(v.d['order_']) == n); self.loc = ref(eng, v, self.rt)
        def at(e, f, this, v):
            if not this.same(self.loc): raise Unsupported('entry of another graph')
            i, j = zi(e.load(v[0]) if isinstance(v[0], Loc) else v[0]), zi(e.load(v[1]) if isinstance(v[1], Loc) else v[1])
            if not e.branch(z3.And(i >= 0, i < n, j >= 0, j < n)): throw(e, 'std::out_of_range')
            return ref(e, C(i, j), et)
        eng.contracts[G + 'at'] = at
    def inr(self, i): return z3.And(i >= 0, i < self.n)
def ints(L, eng):
    out = []
    for n, t, l in L.vars(frames=True):
        if t is None or not isinstance(l, Loc) or l.path: continue
        try: x = L.at(l)
        except (SpecError, KeyError): continue
        if z3.is_expr(x) and x.sort() == I or isinstance(x, int) and not isinstance(x, bool): out.append((l, zi(x)))
    return out
def int_var(eng, k):
    def f(L):
        v = ints(L, eng)
        if k >= len(v): raise SpecError('variable')
        return v[k][1]
    return f
def returns(eng, want, what):
    def post(kind, r):
        eng.oblige('a query of a graph raises no error', kind == 'ret')
        if kind == 'ret': r = eng.load(r) if isinstance(r, Loc) else r; eng.oblige(what, (zb(r) if want.sort() == z3.BoolSort() else zi(r)) == want)
    return post
def u_simple(eng):
    P = eng.P; fn = P.fn(G + 'is_simple'); g = Graph(eng); n, C = g.n, g.C; SI = eng.fresh(z3.BoolSort(), 'simple'); wi, wj = eng.fresh(I, 'wi'), eng.fresh(I, 'wj')
    eng.forall(lambda i, j: z3.Implies(z3.And(SI, g.inr(i), g.inr(j)), C(i, j) <= z3.If(i == j, 0, 1)), sorts=[I, I], pats=lambda i, j: [C(i, j)])
    eng.assume(z3.Implies(z3.Not(SI), z3.And(wi >= 0, wi <= wj, wj < n, C(wi, wj) > z3.If(wi == wj, 0, 1))))
    cs = [('rows seen hold no conflict', lambda L: z3.Implies(z3.Not(SI), wi >= L.k)), ('rows seen hold no conflict (counting from one)', lambda L: z3.Implies(z3.Not(SI), wj >= L.k))]
    for v in range(4):
        x = int_var(eng, v)
        cs.append(('no conflict before the row of variable %d' % v, lambda L, x=x: z3.Implies(z3.Not(SI), wi >= x(L))))
        for o in (0, 1, 2): cs.append(('no conflict up to the entry seen in the row of variable %d (%d)' % (v, o), lambda L, x=x, o=o: z3.Implies(z3.And(z3.Not(SI), wi == x(L)), wj >= L.k + (x(L) + o - 1 if o else 0))))
        cs.append(('no loop at variable %d' % v, lambda L, x=x: z3.Implies(z3.And(z3.Not(SI), wi == x(L)), wj != wi)))
    eng.invs['*'] = cs
    verify(eng, lambda: eng.inline(fn, g.loc, []), returns(eng, SI, 'a graph is simple exactly when it has no loop and no two edges between the same vertices'))
def u_degree(eng):
    P = eng.P; fn = P.fn(G + 'degree'); g = Graph(eng); n, C = g.n, g.C; v = eng.fresh(I, 'vertex'); D = z3.Function('DEGREE_SO_FAR', I, I); eng.assume(g.inr(v))
    eng.assume(z3.And(D(0) == 0)); eng.forall(lambda k: z3.And(D(k) >= 0, D(k) < 2**31), pats=lambda k: [D(k)])      # fewer than 2^31 edges
    eng.opts.setdefault('loop_facts', []).append(lambda L: [D(L.k + 1) == D(L.k) + C(v, L.k)])
    eng.invs['*'] = [('the edges counted (%d)' % k, lambda L, x=int_var(eng, k): x(L) == D(zi(L.k))) for k in range(4)]
    verify(eng, lambda: eng.inline(fn, g.loc, [v]), returns(eng, D(n), 'the degree is the number of edges at the vertex'))
def u_maxdeg(eng):
    P = eng.P; fn = P.fn(G + 'max_degree'); g = Graph(eng); n = g.n; D = z3.Function('DEGREE', I, I); MX, w = eng.fresh(I, 'largest'), eng.fresh(I, 'w')
    eng.forall(lambda k: z3.And(D(k) >= 0, D(k) < 2**31, z3.Implies(g.inr(k), D(k) <= MX)), pats=lambda k: [D(k)]); eng.assume(z3.And(g.inr(w), MX == D(w)))
    def degree(e, f, this, v):
        if not this.same(g.loc): raise Unsupported('degree in another graph')
        x = zi(e.load(v[0]) if isinstance(v[0], Loc) else v[0]); e.oblige('degree of a vertex', g.inr(x)); return D(x)
    eng.contracts[G + 'degree'] = degree
    eng.invs['*'] = [c for k in range(4) for c in (('at most the largest degree (%d)' % k, lambda L, x=int_var(eng, k): x(L) <= MX), ('at least the degrees seen (%d)' % k, lambda L, x=int_var(eng, k): z3.Implies(w < zi(L.k), x(L) >= MX)), ('a degree (%d)' % k, lambda L, x=int_var(eng, k): x(L) >= 0))]
    verify(eng, lambda: eng.inline(fn, g.loc, []), returns(eng, MX, 'the largest degree'))
def u_connected(eng):
    P = eng.P; fn = P.fn(G + 'is_connected'); g = Graph(eng); n, C = g.n, g.C; B = z3.BoolSort()
    RC, RK, PR, CONN, cw = z3.Function('REACHED', I, B), z3.Function('RANK', I, I), z3.Function('BEFORE', I, I), eng.fresh(B, 'connected'), eng.fresh(I, 'cw')
    # reachable from vertex 0: closed under edges, and each vertex but 0 is reached from one of smaller rank
    eng.assume(RC(0)); eng.forall(lambda i, j: z3.Implies(z3.And(RC(i), C(i, j) != 0, g.inr(i), g.inr(j)), RC(j)), sorts=[I, I], pats=lambda i, j: [C(i, j)])
    eng.forall(lambda v: z3.Implies(z3.And(RC(v), v != 0), z3.And(RC(PR(v)), g.inr(PR(v)), C(PR(v), v) != 0, RK(PR(v)) < RK(v))), pats=lambda v: [RC(v)])
    eng.forall(lambda v: z3.Implies(z3.And(CONN, g.inr(v)), RC(v)), pats=lambda v: [RC(v)]); eng.assume(z3.Implies(z3.Not(CONN), z3.And(g.inr(cw), z3.Not(RC(cw)))))
    PS = eng.new_root(eng.fresh(AI, 'place_on_stack'))
    def on_push(e, loc, x):
        if e.fp is not None: return
        M = e.peek(PS); M2 = e.fresh(AI, 'place_on_stack'); q = e.peek(loc); e.assume(M2 == z3.Store(M, zi(x), zi(e.vec_len(q)) + 0)); e.mem[PS.root] = M2
    eng.opts['on_push'] = on_push
    def marks(L):
        c = {l.root: L.at(l) for nm, t, l in L.vars(frames=True) if t is not None and isinstance(l, Loc) and not l.path and P.kind(P.deref(t)) == 'vec'}
        c = [v for v in c.values() if isinstance(v, Vec) and v.arrs[0].sort().range() == B]
        if len(c) != 1: raise SpecError('marks')
        return c[0]
    def stack(L):
        c = {l.root: L.at(l) for nm, t, l in L.vars(frames=True) if t is not None and isinstance(l, Loc) and not l.path and l.root in L.cur[0]}
        c = [v for v in c.values() if isinstance(v, Vec) and v.arrs[0].sort() == AI]
        if len(c) != 1: raise SpecError('stack')
        return c[0]
    def mk(L): v = marks(L); return lambda i: v.arrs[0][i]
    def pend(L):
        s = stack(L); M = L.at(PS); return lambda u: z3.And(M[u] >= 0, M[u] < zi(s.n), s.arrs[0][M[u]] == u)
    def i1(L): v = marks(L); return z3.And(zi(v.n) == n, zi(v.lo) == 0)
    def i2(L): m = mk(L); return Quant(lambda i: z3.Implies(z3.And(g.inr(i), m(i)), RC(i)), [marks(L).arrs[0]], pats=lambda i: [m(i)])
    def i3(L): s = stack(L); a = s.arrs[0]; return Quant(lambda p: z3.Implies(z3.And(p >= 0, p < zi(s.n)), z3.And(g.inr(a[p]), RC(a[p]))), [a], pats=lambda p: [a[p]])
    def i3b(L): s = stack(L); return zi(s.lo) == 0
    def i5(L): return z3.Or(mk(L)(0), pend(L)(0))
    def i4(skip):
        def f(L):
            m, p = mk(L), pend(L); x = skip(L) if skip else None
            return Quant(lambda i, u: z3.Implies(z3.And(g.inr(i), g.inr(u), m(i), C(i, u) != 0, *([i != x] if skip else [])), z3.Or(m(u), p(u))), sorts=[I, I], pats=lambda i, u: [C(i, u)])
        return f
    def i6(x):
        def f(L):
            m, p = mk(L), pend(L); i = x(L); return Quant(lambda u: z3.Implies(z3.And(u >= 0, u < zi(L.k), C(i, u) != 0), z3.Or(m(u), p(u))), sorts=[I], pats=lambda u: [C(i, u)])
        return f
    def i4b(skip):
        def f(L):
            m, p = mk(L), pend(L); x = skip(L) if skip else None
            return Quant(lambda i, u: z3.Implies(z3.And(g.inr(i), g.inr(u), m(i), z3.Not(p(i)), C(i, u) != 0, *([i != x] if skip else [])), m(u)), sorts=[I, I], pats=lambda i, u: [C(i, u)])
        return f
    def i6b(x):
        def f(L): m = mk(L); i = x(L); return Quant(lambda u: z3.Implies(z3.And(u >= 0, u < zi(L.k), C(i, u) != 0), m(u)), sorts=[I], pats=lambda u: [C(i, u)])
        return f
    def i7(L): m = mk(L); s = stack(L); a = s.arrs[0]; return Quant(lambda p: z3.Implies(z3.And(p >= 0, p < zi(s.n)), m(a[p])), [a], pats=lambda p: [a[p]])
    cs = [('vertex 0 is marked', lambda L: mk(L)(0)), ('pending vertices are marked', i7), ('neighbours of marked vertices that are not pending are marked', i4b(None)), ('a mark per vertex', i1), ('marked vertices are reachable', i2), ('pending vertices exist and are reachable', i3), ('stack', i3b), ('vertex 0 is marked or pending', i5), ('neighbours of marked vertices are marked or pending', i4(None))]
    for k in range(3): x = int_var(eng, k); cs += [('neighbours of marked vertices but variable %d' % k, i4(x)), ('neighbours seen of variable %d' % k, i6(x)), ('neighbours of marked vertices but variable %d that are not pending are marked' % k, i4b(x)), ('neighbours seen of variable %d are marked' % k, i6b(x)), ('variable %d is a reachable vertex' % k, lambda L, x=x: z3.And(g.inr(x(L)), RC(x(L)))), ('variable %d is marked' % k, lambda L, x=x: mk(L)(x(L)))]
    eng.invs['*'] = cs
    def least(L):
        """well-ordering: among the reachable vertices that are not marked one has the least rank"""
        try: m = mk(L)
        except SpecError: return []
        w = eng.fresh(I, 'least'); q = z3.Int('q'); bad = lambda i: z3.And(g.inr(i), RC(i), z3.Not(m(i)))
        return [z3.ForAll([q], z3.Implies(bad(q), z3.And(bad(w), RK(w) <= RK(q))), patterns=[m(q)]), z3.Implies(z3.And(bad(w), w != 0), z3.And(RC(PR(w)), g.inr(PR(w)), C(PR(w), w) != 0, RK(PR(w)) < RK(w), z3.Implies(bad(PR(w)), RK(w) <= RK(PR(w)))))]
    eng.opts.setdefault('loop_facts', []).append(least)
    verify(eng, lambda: eng.inline(fn, g.loc, []), returns(eng, CONN, 'a graph is connected exactly when every vertex can be reached from the first'))
def u_build(eng):
    """a new graph has no edges; adding an edge counts it at its place and changes no other entry"""
    P = eng.P; rt = P.fns(G + 'at')[0]['rec']; ctor = P.fn(G + 'dense_undirected_graph', lambda f: len(f['p']) == 1 and P.kind(P.deref(f['p'][0]['t'])) == 'int'); add = P.fn(G + 'add_edge')
    def fields(o): o = eng.load(o) if isinstance(o, Loc) else o; return zi(o.d['order_']), o.d['m_']
    def th():
        n = eng.fresh(I, 'order'); eng.assume(z3.And(n >= 1, n < 2**31)); h = half_square(eng, n)
        t = eng.new_root(eng.fresh_of(rt, 'graph'), rt); eng.construct_at(t, ctor, rt, [n]); o, m = fields(t)
        eng.oblige('the order asked for', o == n); m = m if isinstance(m, Vec) else eng.pyvec_to_vec(m, P.elem(P.fields(rt)['m_'])); eng.oblige('a place for each pair of vertices', zi(m.n) == h)
        k = eng.fresh(I, 'k'); eng.assume(z3.And(k >= 0, k < h)); eng.on_read(m.arrs[0], k); eng.oblige('no edges yet', m.arrs[0][zi(m.lo) + k] == 0)
    def th2():
        n = eng.fresh(I, 'order'); v = eng.fresh_of(rt, 'graph'); eng.assume(z3.And(n >= 1, n < 2**31, zi(v.d['order_']) == n, zi(v.d['m_'].lo) == 0)); t = ref(eng, v, rt)
        IX, U, V = z3.Function('PLACE', I, I, I), z3.Function('FIRST', I, I), z3.Function('SECOND', I, I)
        ok = lambda a, b: z3.And(a >= 0, a <= b, b < n)
        eng.forall(lambda a, b: z3.Implies(ok(a, b), z3.And(IX(a, b) >= 0, IX(a, b) < zi(v.d['m_'].n), U(IX(a, b)) == a, V(IX(a, b)) == b)), sorts=[I, I], pats=lambda a, b: [IX(a, b)])
        def at(e, f, this, w):
            if not this.same(t): raise Unsupported('entry of another graph')
            i, j = (zi(e.load(x) if isinstance(x, Loc) else x) for x in w)
            if not e.branch(z3.And(i >= 0, i < n, j >= 0, j < n)): throw(e, 'std::out_of_range')
            p = IX(i, j) if e.branch(i <= j) else IX(j, i); e.assume(z3.And(p >= 0, p < zi(v.d['m_'].n))); return this.f('m_').f(('i', p))
        eng.contracts[G + 'at'] = at
        i, j, a, b = (eng.fresh(I, x) for x in 'ijab'); eng.assume(z3.And(i >= 0, i < n, j >= 0, j < n, ok(a, b))); old = v.d['m_'].arrs[0]; eng.assume(old[IX(a, b)] < 2**31)
        eng.inline(add, t, [i, j]); o, m = fields(t)
        eng.oblige('the order stays', z3.And(o == n, zi(m.n) == zi(v.d['m_'].n), zi(m.lo) == 0)); same = z3.Or(z3.And(a == i, b == j), z3.And(a == j, b == i))
        eng.oblige('the edge is counted and no other', m.arrs[0][IX(a, b)] == old[IX(a, b)] + z3.If(same, 1, 0))
    verify(eng, th, lambda k, v: eng.oblige('no error', k == 'ret')); verify(eng, th2, lambda k, v: eng.oblige('no error', k == 'ret'))
def u_vertices(eng):
    S = Soup(eng, 'non_manifold_vertices'); P = eng.P; fn = S.fn; B = z3.BoolSort(); A2 = z3.ArraySort(I, AI)
    fn_ = lambda name, *s: z3.Function(name, *s)
    NX, PR, LINK, LF = fn_('NEXT', I, I, I), fn_('PREVIOUS', I, I, I), fn_('LINKED', I, I, B), fn_('FACE_LINKING', I, I, I)
    HASF, HF, SIMPLE, CONN, MAXD = fn_('HAS_FACE', I, B), fn_('A_FACE_OF', I, I), fn_('SIMPLE', I, B), fn_('CONNECTED', I, B), fn_('MAX_DEGREE', I, I)
    a, b, c = S.fa
    isf = lambda f, v: z3.And(f >= 0, f < S.nf, z3.Not(S.rep(f)), z3.Or(a[f] == v, b[f] == v, c[f] == v))   # f is a face of v without repeated corners
    eng.forall(lambda f, v: NX(f, v) == z3.If(a[f] == v, b[f], z3.If(b[f] == v, c[f], a[f])), sorts=[I, I], pats=lambda f, v: [NX(f, v)])
    eng.forall(lambda f, v: PR(f, v) == z3.If(a[f] == v, c[f], z3.If(b[f] == v, a[f], b[f])), sorts=[I, I], pats=lambda f, v: [PR(f, v)])
    eng.forall(lambda f, v: z3.Implies(isf(f, v), z3.And(LINK(v, NX(f, v)), LINK(v, PR(f, v)), HASF(v))), sorts=[I, I], pats=lambda f, v: [NX(f, v), PR(f, v)])
    eng.forall(lambda v, u: z3.Implies(LINK(v, u), z3.And(isf(LF(v, u), v), z3.Or(u == NX(LF(v, u), v), u == PR(LF(v, u), v)))), sorts=[I, I], pats=lambda v, u: [LF(v, u)])
    for q in S.fa: eng.forall(lambda f, q=q: z3.Implies(isf(f, q[f]), HASF(q[f])), [q], pats=lambda f: [q[f]])
    eng.forall(lambda v: z3.Implies(HASF(v), isf(HF(v), v)), pats=lambda v: [HF(v)]); eng.forall(lambda v: z3.And(MAXD(v) >= 0, MAXD(v) < 2**31), pats=lambda v: [MAXD(v)])
    isv = lambda v: z3.And(v >= 0, v < S.nv)
    post, W = listed(eng, fn['ret'], lambda v: z3.And(isv(v), HASF(v), z3.Not(z3.And(SIMPLE(v), CONN(v), MAXD(v) <= 2))), S.nv, [up_to])
    VT = P.elem(P.deref(fn['ret']))
    PV = eng.new_root(eng.fresh(A2, 'place_in_row')); INV = eng.new_root(eng.fresh(AI, 'vertex_numbered'))
    is_rows = lambda t: P.kind(P.deref(t)) == 'vec' and P.kind(P.elem(P.deref(t))) == 'vec'
    old = eng.opts['on_append']
    def on_append(e, loc, x):
        if e.fp is not None: return
        if loc.path and e.rtype.get(loc.root) is not None and is_rows(e.rtype[loc.root]):
            v = zi(loc.path[-1][1]); M = e.peek(PV); M2 = e.fresh(A2, 'place_in_row'); f = zi(e.flat(x, P.elem(P.elem(P.deref(e.rtype[loc.root]))))[0])
            e.assume(M2 == z3.Store(M, v, z3.Store(M[v], f, zi(e.vec_len(e.peek(loc)))))); e.mem[PV.root] = M2; return
        return old(e, loc, x)
    eng.opts['on_append'] = on_append
    def map_insert(e, loc, key, val):
        if e.fp is not None: return
        M = e.peek(INV); M2 = e.fresh(AI, 'vertex_numbered'); has = z3.Select(e.load(loc).dom, key); e.assume(M2 == z3.If(has, M, z3.Store(M, zi(val), key))); e.mem[INV.root] = M2
    eng.opts['map_insert'] = map_insert
    def rows(L):
        r = {l.root: l for n, t, l in L.vars(frames=True) if t is not None and isinstance(l, Loc) and not l.path and is_rows(t)}
        if len(r) != 1: raise SpecError('rows')
        l = list(r.values())[0]; x = L.at(l)
        if not isinstance(x, Vec): raise SpecError('rows')
        return l, x
    def filling(L):
        l, x = rows(L)
        if not any(r == l.root for r, k in L.mods): raise SpecError('rows are complete')
        return x
    def r_size(L): x = filling(L); return z3.And(zi(x.n) == S.nv, zi(x.lo) == 0)
    def r_sound(L):
        x = filling(L); n, lo, d = x.arrs; M = L.at(PV); k = zi(L.k)
        return Quant(lambda v, p: z3.Implies(z3.And(isv(v), p >= 0, p < n[v]), z3.And(isf(d[v][p], v), d[v][p] < k, M[v][d[v][p]] == p, HASF(v), LINK(v, NX(d[v][p], v)), LINK(v, PR(d[v][p], v)))), sorts=[I, I], pats=lambda v, p: [d[v][p]])
    def r_len(g):
        def h(L): x = filling(L); n, lo, d = x.arrs; k = zi(L.k); return Quant(lambda v: z3.Implies(isv(v), g(n[v], lo[v], k, v)), sorts=[I], pats=lambda v: [n[v], lo[v]])
        return h
    def complete(x, M, k, f, v): n, lo, d = x.arrs; p = M[v][f]; return z3.Implies(z3.And(isv(v), isf(f, v), f < k), z3.And(p >= 0, p < n[v], d[v][p] == f))
    def r_all(L): x = filling(L); M = L.at(PV); k = zi(L.k); return Quant(lambda v, f: complete(x, M, k, f, v), sorts=[I, I], pats=lambda v, f: [M[v][f]])
    def r_has(L): x = filling(L); M = L.at(PV); k = zi(L.k); return Quant(lambda v: z3.Implies(HASF(v), complete(x, M, k, HF(v), v)), sorts=[I], pats=lambda v: [x.arrs[0][v]])
    def r_link(L): x = filling(L); M = L.at(PV); k = zi(L.k); return Quant(lambda v, u: z3.Implies(LINK(v, u), complete(x, M, k, LF(v, u), v)), sorts=[I, I], pats=lambda v, u: [LF(v, u)])
    # the vertex at hand, its row, the numbering
    def local(L, ok):
        r = {l.root: l for n, t, l in L.vars(frames=True) if t is not None and isinstance(l, Loc) and not l.path and ok(P.deref(t)) and l.root in L.cur[0]}
        if len(r) != 1: raise SpecError('local variable')
        return list(r.values())[0]
    tag = lambda t: eng.tname(P.targ(t, 0)) if P.rname(t) == P.rname(VT) is not None else None
    is_vertex = lambda t: tag(t) == tag(VT)
    def numbering(L):
        l = local(L, lambda t: P.kind(t) == 'map'); M = L.at(l)
        if not isinstance(M, MapV): raise SpecError('numbering')
        return l, M
    def vertex(L, eng_frames=None): return zi(eng.flat(L.at(local(L, is_vertex)), VT)[0])
    def n_here(L):
        l, M = numbering(L)
        if not any(r == l.root for r, k in L.mods): raise SpecError('numbering is complete')
        return M, L.at(INV), vertex(L), rows(L)[1]
    def n_size(L): M, V, v, x = n_here(L); return z3.And(zi(M.size) >= 0, zi(M.size) <= 2 * zi(L.k))
    def n_right(L): M, V, v, x = n_here(L); return Quant(lambda u: z3.Implies(M.dom[u], z3.And(LINK(v, u), M.arrs[0][u] >= 0, M.arrs[0][u] < zi(M.size), V[M.arrs[0][u]] == u)), sorts=[I], pats=lambda u: [M.dom[u]])
    def n_onto(L): M, V, v, x = n_here(L); return Quant(lambda p: z3.Implies(z3.And(p >= 0, p < zi(M.size)), z3.And(M.dom[V[p]], M.arrs[0][V[p]] == p)), sorts=[I], pats=lambda p: [V[p]])
    def n_all(L): M, V, v, x = n_here(L); d = x.arrs[2]; k = zi(L.k); return Quant(lambda p: z3.Implies(z3.And(p >= 0, p < k), z3.And(M.dom[NX(d[v][p], v)], M.dom[PR(d[v][p], v)])), sorts=[I], pats=lambda p: [d[v][p]])
    # the graph
    def find(e, ok):
        r = {}
        for fr in e.frames:
            for l in fr.env.values():
                if isinstance(l, Loc) and not l.path and l.root in e.mem and e.rtype.get(l.root) is not None and ok(P.deref(e.rtype[l.root])): r[l.root] = l
        return list(r.values())
    def graph(e, f, t, vals, n=None):
        if e.fp is not None: raise Unsupported('graph in a parallel loop')
        vs, ms, rw = find(e, is_vertex), find(e, lambda t: P.kind(t) == 'map'), find(e, is_rows)
        if len(vs) != 1 or len(ms) != 1 or len(rw) != 1: raise Unsupported('the vertex at hand')
        v = zi(e.flat(e.load(vs[0]), VT)[0]); M = e.load(ms[0]); V = e.peek(INV); order = zi(e.load(vals[0]) if isinstance(vals[0], Loc) else vals[0]); x = e.peek(rw[0]); pv = e.peek(PV)
        if not getattr(e, 'mute', False):
            e.oblige('the graph has a vertex per neighbour', order == zi(M.size))
            u, p = e.fresh(I, 'any_vertex'), e.fresh(I, 'any_number'); q = e.fresh(I, 'place'); e.assume(q == pv[v][LF(v, u)]); fl = e.fresh(I, 'linking'); e.assume(z3.And(fl == LF(v, u), z3.Or(NX(fl, v) != 0, NX(fl, v) == 0), z3.Or(PR(fl, v) != 0, PR(fl, v) == 0)))
            e.oblige('only neighbours of the vertex are numbered', z3.Implies(M.dom[u], LINK(v, u))); e.oblige('the neighbours of the vertex are numbered', z3.Implies(LINK(v, u), M.dom[u]))
            e.oblige('different neighbours have different numbers', z3.Implies(M.dom[u], z3.And(M.arrs[0][u] >= 0, M.arrs[0][u] < order, V[M.arrs[0][u]] == u)))
            e.oblige('every number stands for a neighbour', z3.Implies(z3.And(p >= 0, p < order), z3.And(M.dom[V[p]], M.arrs[0][V[p]] == p)))
            e.oblige('a graph has a vertex', order >= 1)
        D, N = e.fresh(z3.ArraySort(I, B), 'numbered'), e.fresh(AI, 'number'); e.assume(z3.And(D == M.dom, N == M.arrs[0])); z = e.fresh(AI, 'none'); e.forall(lambda f: z[f] == 0, [z], pats=lambda f: [z[f]])
        return Obj('dense_undirected_graph', vertex=v, numbered=D, number=N, order=order, edges=z)
    def add_edge(e, f, this, vals):
        o = e.load(this)
        if not isinstance(o, Obj) or e.fp is not None: raise Unsupported('graph')
        i, j = (zi(e.load(x) if isinstance(x, Loc) else x) for x in vals); v = zi(o.d['vertex']); D, N = o.d['numbered'], o.d['number']
        fs = [zi(e.flat(e.load(l), e.rtype[l.root])[0]) for l in find(e, lambda t: tag(t) == tag(P.elem(P.elem(P.deref(e.rtype[find(e, is_rows)[0].root])))))]
        def is_it(g): return z3.And(isf(g, v), D[NX(g, v)], D[PR(g, v)], z3.Or(z3.And(i == N[NX(g, v)], j == N[PR(g, v)]), z3.And(j == N[NX(g, v)], i == N[PR(g, v)])))
        if not fs: raise Unsupported('the face of an edge')
        g = fs[-1]
        for y in reversed(fs):
            if e.quick(is_it(y)): g = y; break
        e.oblige('an edge joins the two neighbours that a face of the vertex has', is_it(g)); E = o.d['edges']; E2 = e.fresh(AI, 'edges'); e.assume(E2 == z3.Store(E, g, E[g] + 1))
        e.store(this, Obj('dense_undirected_graph', vertex=v, numbered=D, number=N, order=o.d['order'], edges=E2)); return VOID
    def query(fun, what):
        def q(e, f, this, vals):
            o = e.load(this)
            if not isinstance(o, Obj): raise Unsupported('graph')
            v = zi(o.d['vertex']); g = e.fresh(I, 'any_face'); rw = find(e, is_rows); q_ = e.fresh(I, 'place'); e.assume(q_ == e.peek(PV)[v][g])
            e.oblige('the graph has one edge for each face of the vertex', o.d['edges'][g] == z3.If(isf(g, v), 1, 0)); return fun(v)
        return q
    C = eng.contracts; C[G + 'dense_undirected_graph'] = graph; C[G + 'add_edge'] = add_edge
    C[G + 'is_simple'] = query(SIMPLE, 's'); C[G + 'is_connected'] = query(CONN, 'c'); C[G + 'max_degree'] = query(MAXD, 'm'); C[G + 'order'] = lambda e, f, this, vals: e.load(this).d['order']
    def the_graph(L):
        for n, t, l in L.vars(frames=True):
            if isinstance(l, Loc) and not l.path and l.root in L.cur[0] and isinstance(L.at(l), Obj) and 'edges' in L.at(l).d and any(r == l.root for r, k in L.mods): return L.at(l)
        raise SpecError('graph')
    def g_sound(L): o = the_graph(L); E = o.d['edges']; v = zi(o.d['vertex']); M = L.at(PV); k = zi(L.k); return Quant(lambda f: z3.And(E[f] >= 0, E[f] <= 1, z3.Implies(E[f] != 0, z3.And(isf(f, v), M[v][f] < k))), [E], pats=lambda f: [E[f]])
    def g_all(L): o = the_graph(L); E = o.d['edges']; v = zi(o.d['vertex']); M = L.at(PV); k = zi(L.k); return Quant(lambda f: z3.Implies(z3.And(isf(f, v), M[v][f] < k), E[f] == 1), [E], pats=lambda f: [E[f]])
    eng.invs['*'] = eng.invs['*'] + [('a row per vertex', r_size), ('rows hold faces of their vertex seen', r_sound), ('rows start at their first item', r_len(lambda n, lo, k, v: lo == 0)), ('rows have a length', r_len(lambda n, lo, k, v: n >= 0)), ('rows hold a face once', r_len(lambda n, lo, k, v: n <= k)), ('a row holds something when there is a face', r_len(lambda n, lo, k, v: z3.Implies(n > 0, HASF(v)))), ('faces seen are in the rows of their corners', r_all), ('vertices with faces have rows', r_has), ('linking faces are in rows', r_link),
        ('numbers', n_size), ('neighbours have numbers', n_right), ('numbers stand for neighbours', n_onto), ('neighbours in faces seen have numbers', n_all), ('faces counted in the graph are those seen', g_sound), ('faces seen are counted in the graph', g_all)]
    verify(eng, lambda: eng.inline(fn, None, [S.loc]), post)
def u_report(eng):
    """the report holds, for the soup with equal points merged, what each of the functions above finds"""
    P = eng.P; D = 'kigumi::Find_defects::'; ctors = P.fns(D + 'Find_defects'); R = {}
    ctor = [f for f in ctors if len(f['p']) == 1 and P.rname(P.deref(f['p'][0]['t'])) == 'kigumi::Triangle_soup']
    if len(ctor) != 1: raise Unsupported('constructor of the report')
    ctor = ctor[0]; st = P.deref(ctor['p'][0]['t']); src = eng.fresh_of(st, 'm'); loc = ref(eng, src, st); soup_wf(eng, src)
    ARGS = {'merge_duplicate_vertices': ['m'], 'isolated_vertices': ['merged'], 'non_manifold_vertices': ['merged'], 'collect_halfedges': ['merged'], 'boundary_edges': ['collect_halfedges'], 'inconsistent_edges': ['collect_halfedges'], 'non_manifold_edges': ['collect_halfedges'],
            'trivial_degenerate_faces': ['merged'], 'non_trivial_degenerate_faces': ['merged'], 'overlapping_faces': ['merged', 'trivial_degenerate_faces', 'non_trivial_degenerate_faces']}
    SHOWN = [n for n in ARGS if n not in ('merge_duplicate_vertices', 'collect_halfedges')]
    static = {n: P.fn(D + n, lambda f: len(f['p']) >= 1) for n in ARGS}; shown = {n: P.fn(D + n, lambda f: len(f['p']) == 0) for n in SHOWN}
    def eqv(x, y):
        if y is None: return False
        if isinstance(x, Rec) and 'points_' in x.d: return all(x.d[k].same(y.d[k]) for k in ('points_', 'faces_', 'face_data_'))      # the search tree is made on demand (C22)
        return x.same(y)
    def val(x): return eng.load(x) if isinstance(x, Loc) else x
    def mk(n, f0):
        def c(e, f, this, v):
            if len(f['p']) == 0: return e.inline(shown[n], this, [])
            G_ = e.g.setdefault('found', {}); G_ = e.g['found'] = dict(G_); known = {'m': src, 'merged': G_.get('merge_duplicate_vertices'), **G_}
            for x, w in zip(v, ARGS[n]):
                x = val(x); e.oblige('%s looks at the right things' % n, eqv(x, known.get(w)))
            if len(v) < len(ARGS[n]): raise Unsupported('arguments of ' + n)
            r = e.fresh_of(f['ret'] if not P.isref(f['ret']) else P.deref(f['ret']), n); G_[n] = r; return r
        return c
    for n in ARGS: eng.contracts[D + n] = mk(n, None)
    def th():
        rt = ctor['rec']; o = eng.new_root(None, rt); eng.construct_at(o, ctor, rt, [loc]); return o
    def post(kind, o):
        eng.oblige('making the report raises no error', kind == 'ret')
        if kind != 'ret': return
        found = eng.g.get('found', {})
        for n in SHOWN:
            r = val(eng.inline(shown[n], o, [])); eng.oblige('%s are reported' % n, eqv(r, found.get(n)))
        ts = val(eng.inline(P.fn(D + 'triangle_soup'), o, [])); eng.oblige('the soup reported on is the merged one', eqv(ts, found.get('merge_duplicate_vertices')))
    verify(eng, th, post)
def units(P):
    F = 'kigumi::Find_defects::'
    return [Unit(F + 'merge_duplicate_vertices', u_merge), Unit(F + 'trivial_degenerate_faces', u_trivial), Unit(F + 'isolated_vertices', u_isolated), Unit(F + 'non_trivial_degenerate_faces', u_flat), Unit(F + 'collect_halfedges', u_collect),
            Unit(F + 'boundary_edges', u_edges('boundary_edges', lambda x, y: x + y == 1)), Unit(F + 'inconsistent_edges', u_edges('inconsistent_edges', lambda x, y: z3.Or(z3.And(x == 2, y == 0), z3.And(x == 0, y == 2)))),
            Unit(F + 'non_manifold_edges', u_edges('non_manifold_edges', lambda x, y: x + y > 2)), Unit(F + 'overlapping_faces', u_overlap, heavy=True),
            Unit(F + 'non_manifold_vertices', u_vertices), Unit(F + 'Find_defects', u_report), Unit(G + 'at', u_at), Unit('lemma: entries do not share a place', u_inj, lemma=True), Unit(G + 'add_edge', u_build), Unit(G + 'is_simple', u_simple), Unit(G + 'degree', u_degree),
            Unit(G + 'max_degree', u_maxdeg), Unit(G + 'is_connected', u_connected)]
