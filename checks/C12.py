"""C12: global classification (Classify_faces_globally.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from kvc import mesh, par
from kvc.lib import throw

ID = 'C12'
LEVEL = 'proof'
HARNESS = {'src': ['C12.cc'], 'seconds': 60}
ASSUME = ['Triangle_mesh::faces_around_face by its contract (C10): a finite list of existing faces that depends on the mesh, the face and the border only',
          'a patch is a connected component of the adjacency across non-border edges; adjacency is symmetric (C10), so a set of faces closed under adjacency is a union of patches (induction principle used for the set of visited faces)',
          'before global classification an unclassified face has only unclassified neighbours (after local classification and spreading, C11)',
          'Side_of_triangle_soup::operator() answers by its contract (C15); Propagate_face_tags::operator() by its contract (C11); parallel_do by contract (C19)',
          'termination is not proved']

def world(eng, mt):
    """the mixed mesh; C labels the patches: the connected components of the adjacency across non-border edges"""
    S = mesh.Mixed(eng, mt); nf, U, tag0 = S.nf, S.U, S.tag0
    S.C = z3.Function('patch', I, I)
    S.unk = lambda f: tag0[f] == U
    dom = lambda f, i: z3.And(f >= 0, f < nf, i >= 0, i < mesh.DEG(f))
    eng.forall(lambda f, i: z3.Implies(dom(f, i), S.C(mesh.adj(f, i)) == S.C(f)), sorts=[I, I], pats=lambda f, i: [mesh.adj(f, i)])
    # after local classification and spreading, an unclassified face has only unclassified neighbours (C11)
    eng.forall(lambda f, i: z3.Implies(z3.And(dom(f, i), S.unk(f)), S.unk(mesh.adj(f, i))), sorts=[I, I], pats=lambda f, i: [mesh.adj(f, i)])
    return S

def u_search(eng):
    P = eng.P; fn = P.fn('kigumi::Classify_faces_globally::find_unclassified_connected_components')
    S = world(eng, P.deref(fn['p'][0]['t'])); nf, C, unk = S.nf, S.C, S.unk
    W0 = eng.fresh(z3.ArraySort(I, I), 'where'); where = eng.new_root(W0)
    eng.forall(lambda f: W0[f] < 0, [W0], pats=lambda f: [W0[f]])
    R0 = eng.fresh(z3.ArraySort(I, I), 'repof'); repof = eng.new_root(R0)
    def on_push(e, loc, x):
        q = e.load(loc); f = zi(e.flat(x, q.et)[0]); W = e.load(where)
        if e.g.get('queue', loc.root) != loc.root: raise Unsupported('two queues')
        e.g['queue'] = loc.root
        e.oblige('a face is queued at most once', W[f] < 0)
        e.store(where, z3.Store(W, f, zi(q.n) + zi(q.lo)))
    def on_append(e, loc, x):
        v = e.load(loc)
        if not (isinstance(v, Vec) and is_face_index(P, v.et)): return
        if e.g.get('reps', loc.root) != loc.root: raise Unsupported('two lists of faces')
        e.g['reps'] = loc.root
        f = zi(e.flat(x, v.et)[0]); RI = e.load(repof); c = C(f); k = RI[c]; n = zi(v.n); arr = v.arrs[0]
        e.on_read(arr, k); e.on_read(RI, c)
        e.oblige('a patch gets one representative only', z3.Not(z3.And(k >= 0, k < n, C(arr[k]) == c)))
        e.store(repof, z3.Store(RI, c, n))
    eng.opts['on_push'] = on_push; eng.opts['on_append'] = on_append
    def pick(L, what, pred):
        r = [l for n, t, l in L.vars(frames=True) if t is not None and pred(P.deref(t))]
        if len(r) != 1: raise SpecError(what)
        return L.at(r[0]), r[0]
    isq = lambda t: P.rname(t) == 'std::queue'
    def Q(L): return pick(L, 'queue', isq)
    def parts(L):
        q = Q(L)[0]
        V = pick(L, 'visited', lambda t: P.rname(t) == 'std::vector' and P.kind(P.elem(t)) == 'bool')[0]
        R = pick(L, 'representatives', lambda t: P.rname(t) == 'std::vector' and is_face_index(P, P.elem(t)))[0]
        return zi(q.lo), zi(q.n) + zi(q.lo), q.arrs[0], L.at(where), V, R, L.at(repof)
    def inner(L): return any(kd == 'it' for kd, so in L.mods.values())
    def current(L):
        q = L.oldat(Q(L)[1]); return q.arrs[0][zi(q.lo) - 1]
    inr = lambda f: z3.And(f >= 0, f < nf)
    def vis(V): return lambda f: zb(V.arrs[0][f])
    def i_size(L): return zi(parts(L)[4].n) == nf
    def i_bounds(L):
        lo, hi, *_ = parts(L); return z3.And(lo >= (1 if inner(L) else 0), hi >= lo)
    def i_empty(L):
        lo, hi, *_ = parts(L); return hi == lo
    def i_grow(L):
        if not inner(L): return z3.BoolVal(True)
        q0 = L.oldat(Q(L)[1]); lo, hi, *_ = parts(L)
        return z3.And(lo == zi(q0.lo), hi >= zi(q0.lo) + zi(q0.n))
    def i_prefix(L):
        if not inner(L): return z3.BoolVal(True)
        q0 = L.oldat(Q(L)[1]); lo, hi, arr, *_ = parts(L); h0 = zi(q0.lo) + zi(q0.n)
        return Quant(lambda j: z3.Implies(j < h0, arr[j] == q0.arrs[0][j]), [arr], pats=lambda j: [arr[j]])
    def i_queue(L):
        lo, hi, arr, W, V, R, RI = parts(L); v = vis(V)
        return Quant(lambda j: z3.Implies(z3.And(j >= 0, j < hi), z3.And(inr(arr[j]), unk(arr[j]), v(arr[j]), W[arr[j]] == j)), [arr], pats=lambda j: [arr[j]])
    def i_visited(L):
        lo, hi, arr, W, V, R, RI = parts(L); v = vis(V)
        return Quant(lambda f: z3.Implies(inr(f), z3.And(z3.Implies(z3.And(v(f), unk(f)), z3.And(W[f] >= 0, W[f] < hi, arr[W[f]] == f)), z3.Implies(z3.Not(v(f)), W[f] < 0), z3.Implies(z3.Not(unk(f)), W[f] < 0))), [V.arrs[0], W], pats=lambda f: [W[f]])
    def i_closed(L):
        lo, hi, arr, W, V, R, RI = parts(L); v = vis(V); inn = inner(L)
        if inn: c = current(L); k = zi(L.k)
        def f(g, i):
            done = z3.And(inr(g), W[g] >= 0, W[g] < lo, i >= 0, i < mesh.DEG(g))
            if inn: done = z3.And(done, z3.Or(g != c, i < k))
            return z3.Implies(done, v(mesh.adj(g, i)))
        return Quant(f, sorts=[I, I], pats=lambda g, i: [mesh.adj(g, i)])
    def i_reps(L):
        lo, hi, arr, W, V, R, RI = parts(L); v = vis(V); r = R.arrs[0]
        return Quant(lambda k: z3.Implies(z3.And(k >= 0, k < zi(R.n)), z3.And(inr(r[k]), unk(r[k]), v(r[k]), RI[C(r[k])] == k)), [r], pats=lambda k: [r[k]])
    def i_covered(L):
        lo, hi, arr, W, V, R, RI = parts(L); v = vis(V); r = R.arrs[0]
        return Quant(lambda f: z3.Implies(z3.And(inr(f), v(f), unk(f)), z3.And(RI[C(f)] >= 0, RI[C(f)] < zi(R.n), C(r[RI[C(f)]]) == C(f))), [V.arrs[0], W], pats=lambda f: [C(f)])
    def upto(n):
        def g(L):
            its = sorted([(str(nm), str(l.path), l) for nm, t, l in L.vars(frames=True) if t is not None and P.rname(P.deref(t)) == 'kigumi::Face_iterator'], key=lambda x: x[:2])
            if n >= len(its): raise SpecError('no such position')
            x = zi(eng.flat(L.at(its[n][2]), P.typ('kigumi::Face_iterator'))[0])
            V = parts(L)[4]; v = vis(V)
            return z3.And(x >= 0, x <= nf), Quant(lambda f: z3.Implies(z3.And(f >= 0, f < x), z3.Or(v(f), z3.Not(unk(f)))), [V.arrs[0]], pats=lambda f: [S.tag0[f]])
        return [('unclassified faces before a position are visited (%d)' % n, lambda L: g(L)[1]), ('position in the face list (%d)' % n, lambda L: g(L)[0])]
    eng.invs['*'] = [('one mark per face', i_size), ('queue positions', i_bounds), ('nothing is queued', i_empty), ('nothing is taken from the queue by the loop over neighbours', i_grow), ('queue entries stay', i_prefix),
                     ('queued faces', i_queue), ('visited unclassified faces were queued', i_visited), ('neighbours of finished faces are visited', i_closed), ('representatives', i_reps), ('every visited unclassified face is in the patch of a representative', i_covered)] \
        + [x for n in range(4) for x in upto(n)]
    def fact(L):
        """induction over the connectedness of patches: a set of faces that is closed under adjacency is a union of patches"""
        try: lo, hi, arr, W, V, R, RI = parts(L)
        except SpecError: return ()
        v = vis(V); sf, si = eng.fresh(I, 'leak'), eng.fresh(I, 'leaki'); CV = eng.fresh(z3.ArraySort(I, z3.BoolSort()), 'patches_visited')
        leak = z3.And(inr(sf), unk(sf), v(sf), si >= 0, si < mesh.DEG(sf), z3.Not(v(mesh.adj(sf, si))))
        eng.on_read(W, sf); eng.on_read(V.arrs[0], sf)
        eng.forall(lambda f: z3.Or(leak, z3.Implies(z3.And(inr(f), unk(f)), v(f) == CV[C(f)])), [V.arrs[0]], pats=lambda f: [V.arrs[0][f]])
        return ()
    eng.opts['loop_facts'] = [fact]
    bt = P.deref(fn['p'][1]['t']); border = ref(eng, eng.fresh_of(bt, 'border'), bt)
    def post(kind, r):
        eng.oblige('the search raises no error', kind == 'ret')
        v = eng.load(r) if isinstance(r, Loc) else r
        if not isinstance(v, Vec): v = eng.pyvec_to_vec(v, P.elem(fn['ret']))
        n, arr = zi(v.n), v.arrs[0]; RI = eng.load(repof)
        k, k2, f = eng.fresh(I, 'k'), eng.fresh(I, 'k2'), eng.fresh(I, 'face')
        eng.assume(z3.And(k >= 0, k < n, k2 >= 0, k2 < n, inr(f)))
        for x in (k, k2): eng.on_read(arr, x); eng.on_read(RI, C(arr[x]))
        eng.on_read(eng.load(where), f)
        eng.oblige('a representative is an unclassified face', z3.And(inr(arr[k]), unk(arr[k])))
        eng.oblige('no patch has two representatives', z3.Implies(C(arr[k]) == C(arr[k2]), k == k2))
        eng.oblige('every unclassified patch has a representative', z3.Implies(unk(f), z3.And(RI[C(f)] >= 0, RI[C(f)] < n, C(arr[RI[C(f)]]) == C(f))))
    verify(eng, lambda: eng.inline(fn, None, [S.mloc, border]), post)

def u_main(eng):
    P = eng.P; par.install(eng); fn = P.fn('kigumi::Classify_faces_globally::operator()')
    S = world(eng, P.deref(fn['p'][0]['t'])); nf, C, unk, tags = S.nf, S.C, S.unk, S.tags
    inr = lambda f: z3.And(f >= 0, f < nf)
    bt = P.deref(fn['p'][1]['t']); border = ref(eng, eng.fresh_of(bt, 'border'), bt)
    st = P.deref(fn['p'][2]['t'])
    left, right = (ref(eng, eng.fresh_of(st, n), st) for n in ('left', 'right'))
    consts = P.types[P.fn('kigumi::Side_of_triangle_soup::operator()')['ret']]['consts']
    SIDE = z3.Function('side', I, I)          # where (the centroid of) a face lies with respect to the other operand's boundary
    FAIL = z3.Function('query_fails', I, z3.BoolSort())
    CENT = z3.Function('centroid_of_face', I, P.sort_of('CGAL::Point_3'))
    OF = z3.Function('face_with_centroid', P.sort_of('CGAL::Point_3'), I)
    idx = lambda e, x, t: zi(e.flat(e.load(x) if isinstance(x, Loc) else x, t)[0])
    fit = P.deref(P.fn('kigumi::Propagate_face_tags::operator()')['p'][2]['t'])
    RI = eng.fresh(z3.ArraySort(I, I), 'repof'); reps = eng.fresh(z3.ArraySort(I, I), 'reps'); nr = eng.fresh(I, 'nreps'); eng.assume(z3.And(nr >= 0, nr < 2**48))
    def search(e, f, this, vals):
        m, b = vals[:2]
        e.oblige('the search is for this mesh and these border edges', isinstance(m, Loc) and m.root == S.mloc.root and b.root == border.root)
        e.oblige('the search sees the classification as it was', e.load(S.mloc).d['face_data_'].arrs[S.lt] == S.tag0)
        e.forall(lambda k: z3.Implies(z3.And(k >= 0, k < nr), z3.And(inr(reps[k]), unk(reps[k]), RI[C(reps[k])] == k)), [reps], pats=lambda k: [reps[k]])
        e.forall(lambda f: z3.Implies(z3.And(inr(f), unk(f)), z3.And(RI[C(f)] >= 0, RI[C(f)] < nr, C(reps[RI[C(f)]]) == C(f))), [S.tag0], pats=lambda f: [C(f)])
        e.g['searched'] = True
        return Vec(P.elem(f['ret']), nr, [reps])
    def centroid(e, f, this, vals):
        m, x = vals
        e.oblige('the query point is on a face of the mixed mesh', isinstance(m, Loc) and m.root == S.mloc.root)
        i = idx(e, x, fit); e.oblige('the face exists', inr(i)); e.assume(OF(CENT(i)) == i)
        if e.fp is not None:
            for n in ('points_', 'faces_'): e.access('R', S.mloc.f(n))
        return CENT(i)
    def query(e, f, this, vals):
        so, p = vals
        p = e.load(p) if isinstance(p, Loc) else p
        i = OF(p)
        e.oblige('the query point is the centroid of the face', p == CENT(i))
        if not isinstance(so, Loc) or so.root not in (left.root, right.root): raise Unsupported('queried surface')
        e.oblige("the patch is located against the other operand, never its own", S.left(i) if so.root == right.root else z3.Not(S.left(i)))
        if e.fp is not None: e.access('R', so)
        if e.branch(FAIL(i)): e.g['failed'] = True; throw(e, 'std::runtime_error')
        e.assume(z3.And(SIDE(i) >= -1, SIDE(i) <= 1))
        return SIDE(i)
    def spread(e, f, this, vals):
        '''C11, with the patches as the closed sets: exactly the unclassified faces of the patch get the classification of the seed'''
        m, b, x = vals; i = idx(e, x, fit)
        e.oblige('the spreading is over this mesh and these border edges', m.root == S.mloc.root and b.root == border.root)
        fd = e.peek(S.mloc).d['face_data_']; tag = fd.arrs[S.lt]
        g = e.fresh(I, 'other')
        e.on_read(tag, g); e.on_read(tag, i)
        e.oblige('the face spread from exists and is classified', z3.And(inr(i), tag[i] != S.U, unk(i)))
        e.oblige('the rest of the patch is unclassified before', z3.Implies(z3.And(inr(g), unk(g), C(g) == C(i), g != i), tag[g] == S.U))
        if e.fp is not None:
            for kd in 'RW':
                y = e.fresh(I, 'infected')
                e.assume(z3.And(inr(y), unk(y), C(y) == C(i)))
                e.access(kd, S.mloc.f('face_data_').f(('i', y)).f('tag'))
            e.access('R', S.mloc.f('face_data_').f(('i', i)).f('from_left'))
            for n in ('faces_', 'indices_', 'face_indices_'): e.access('R', S.mloc.f(n))
            return S.w['NONE']
        t2 = e.fresh(z3.ArraySort(I, z3.BitVecSort(8)), 'spread_tags')
        e.forall(lambda f: t2[f] == z3.If(z3.And(inr(f), unk(f), C(f) == C(i)), tag[i], tag[f]), [t2, tag], pats=lambda f: [t2[f]])
        arrs = list(fd.arrs); arrs[S.lt] = t2
        e.store(S.mloc.f('face_data_'), Vec(fd.et, fd.n, arrs, fd.lo))
        return S.w['NONE']
    eng.contracts['kigumi::Classify_faces_globally::find_unclassified_connected_components'] = search
    eng.contracts['kigumi::internal::face_centroid'] = centroid
    eng.contracts['kigumi::Side_of_triangle_soup::operator()'] = query
    eng.contracts['kigumi::Propagate_face_tags::operator()'] = spread
    RES = lambda k: z3.If(SIDE(reps[k]) == consts['ON_POSITIVE_SIDE'], tags['EXTERIOR'], tags['INTERIOR'])
    def par_facts(e, j, i):
        for x in (j, i):
            if x is not None: e.on_read(reps, x); e.on_read(S.tag0, reps[x])
        return ()
    eng.opts['par_facts'] = [par_facts]
    eng.assume(z3.BoolVal(True))
    def ghost(L):
        p = eng.g.get('par')
        if p is None: raise SpecError('not in the parallel loop')
        return L.at(p['done']), L.at(p['local'])
    def i_tags(L):
        D, loc = ghost(L); tag = S.tag(L)
        return Quant(lambda f: tag[f] == z3.If(z3.And(inr(f), unk(f), D[RI[C(f)]]), RES(RI[C(f)]), S.tag0[f]), [tag], pats=lambda f: [tag[f]])
    def i_sides(L):
        D, loc = ghost(L)
        return Quant(lambda k: z3.Implies(z3.And(k >= 0, k < nr, D[k]), z3.And(SIDE(reps[k]) != consts['ON_ORIENTED_BOUNDARY'], z3.Not(FAIL(reps[k])))), [D], pats=lambda k: [D[k]])
    def i_warn(L):
        D, loc = ghost(L)
        ws = [eng.as_sort(loc, z3.BitVecSort(8))]
        for n, t, l in L.vars():
            if t is not None and P.rname(P.deref(t)) == 'kigumi::Warnings': ws.append(eng.as_sort(L.at(l), z3.BitVecSort(8)))
        return z3.And(*[w == S.w['NONE'] for w in ws])
    def i_warn_global(L):
        return z3.And(*[eng.as_sort(L.at(l), z3.BitVecSort(8)) == S.w['NONE'] for l in eng.g.get('warnings_locs', ())])
    eng.invs['*'] = [('handled patches are classified by their own query, the others untouched', i_tags), ('no handled patch lies on the other boundary', i_sides), ('no warning', i_warn)]
    it = eng.fresh_of(fn['rec'], 'classifier')
    def post(kind, r):
        if kind == 'throw': return
        m1 = eng.load(S.mloc); v0, v1 = S.fd, m1.d['face_data_']; tag = v1.arrs[S.lt]
        f = eng.fresh(I, 'face'); eng.assume(inr(f)); eng.on_read(tag, f); eng.on_read(S.tag0, f)
        k = RI[C(f)]; eng.on_read(reps, k)
        D = eng.load(eng.g['par']['done']); eng.on_read(D, k)
        eng.oblige('faces that were classified keep their classification', z3.Implies(z3.Not(unk(f)), tag[f] == S.tag0[f]))
        eng.oblige('no face is left unclassified', tag[f] != S.U)
        eng.oblige('a patch on the other boundary is an error', z3.Implies(unk(f), z3.And(SIDE(reps[k]) != consts['ON_ORIENTED_BOUNDARY'], z3.Not(FAIL(reps[k])))))
        eng.oblige('a patch outside the other region is marked so', z3.Implies(z3.And(unk(f), SIDE(reps[k]) == consts['ON_POSITIVE_SIDE']), tag[f] == tags['EXTERIOR']))
        eng.oblige('a patch inside the other region is marked so', z3.Implies(z3.And(unk(f), SIDE(reps[k]) == consts['ON_NEGATIVE_SIDE']), tag[f] == tags['INTERIOR']))
        eng.oblige('the face located is in the patch', z3.Implies(unk(f), C(reps[k]) == C(f)))
        eng.oblige('nothing else changes', z3.And(*[x == y for n, (x, y) in enumerate(zip(v0.arrs, v1.arrs)) if n != S.lt], zi(v1.n) == nf))
        for n in S.m.d:
            if n != 'face_data_': eng.oblige('nothing else changes', t_eq(S.m.d[n], m1.d[n]))
    verify(eng, lambda: eng.inline(fn, ref(eng, it, fn['rec']), [S.mloc, border, left, right]), post)

def u_patch(eng):
    """C11 gives: the reached set contains the seed, is closed under unclassified neighbours and lies in every such set; then it is the patch's unclassified part"""
    P = eng.P; fn = P.fn('kigumi::Propagate_face_tags::operator()')
    S = world(eng, P.deref(fn['p'][0]['t'])); nf, C, unk = S.nf, S.C, S.unk
    inr = lambda f: z3.And(f >= 0, f < nf)
    X = eng.fresh(z3.ArraySort(I, z3.BoolSort()), 'reached'); seed, f = eng.fresh(I, 'seed'), eng.fresh(I, 'face')
    eng.assume(z3.And(inr(seed), inr(f), unk(seed), X[seed]))
    # minimality, at the closed set {x unclassified, same patch as the seed}
    a, i = eng.fresh(I, 'a'), eng.fresh(I, 'i')
    eng.oblige('lemma: the unclassified part of the patch is closed', z3.Implies(z3.And(inr(a), unk(a), C(a) == C(seed), i >= 0, i < mesh.DEG(a)), z3.And(unk(mesh.adj(a, i)), C(mesh.adj(a, i)) == C(seed))))
    eng.forall(lambda x: z3.Implies(z3.And(inr(x), X[x]), z3.And(unk(x), C(x) == C(seed))), pats=lambda x: [X[x]])
    # closedness, and induction over the connectedness of the patch
    eng.forall(lambda x, j: z3.Implies(z3.And(inr(x), X[x], j >= 0, j < mesh.DEG(x), unk(mesh.adj(x, j))), X[mesh.adj(x, j)]), sorts=[I, I], pats=lambda x, j: [mesh.adj(x, j)])
    sf, si = eng.fresh(I, 'leak'), eng.fresh(I, 'leaki')
    leak = z3.And(inr(sf), unk(sf), X[sf], si >= 0, si < mesh.DEG(sf), z3.Not(X[mesh.adj(sf, si)]))
    eng.forall(lambda x: z3.Or(leak, z3.Implies(z3.And(inr(x), unk(x), C(x) == C(seed)), X[x])), pats=lambda x: [C(x)])
    eng.oblige('lemma: spreading reaches exactly the unclassified faces of the patch', X[f] == z3.And(unk(f), C(f) == C(seed)))
def units(P): return [Unit('kigumi::Classify_faces_globally::operator()', u_main, heavy=True), Unit('lemma: what spreading reaches', u_patch, lemma=True),
    Unit('kigumi::Classify_faces_globally::find_unclassified_connected_components', u_search, heavy=True)]
