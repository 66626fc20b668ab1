"""C03: face data and origin through refinement (Mix.h, Corefine.h, Boolean_region_builder.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from kvc import par, mesh
from . import C02

ID = 'C03'
HARNESS = {'src': ['C03.cc'], 'seconds': 60}
LEVEL = 'proof'
ASSUME = ['that the triangles of the triangulation of a face are geometrically pieces of that face is C24 (bounded)', 'classification changes the classification of faces only (C11, C12 proved; local classification bounded, C13)',
          'parallel_do by contract (C19)', 'Triangle_mesh::finalize leaves points, faces and face data alone (C10)', 'boost::unordered_flat_map behaves as a finite map']

def corefine(eng):
    """an arbitrary refinement: (type, location, fields)"""
    P = eng.P; fn = P.fn('kigumi::Corefine::get_left_faces'); t = fn['rec']; d = {}
    refs = {}
    for n, ft, fi in P.fields(t):
        if P.kind(ft) == 'ref':
            st = P.deref(ft); v = eng.fresh_of(st, n)
            if is_soup(P, st): soup_wf(eng, v)
            refs[n] = v; d[n] = ref(eng, v, st)
        elif n in ('infos_',): d[n] = eng.fresh_of(ft, n)
        else: d[n] = eng.fresh_of(ft, n)
    return t, ref(eng, Rec(t, d), t), d, refs
SIDES = (('left', True), ('right', False))
def face_sort(eng, vt): return eng.P.elem(vt)
def out_of(e, v):
    v = e.load(v) if isinstance(v, Loc) else v
    if not isinstance(v, BackIns): raise Unsupported('where the faces go')
    return v.loc
def append(e, out, n, cols):
    """append n elements whose scalars are given by cols (functions of the offset)"""
    v = e.peek(out)
    if not isinstance(v, Vec): v = e.pyvec_to_vec(v, e.P.elem(e.rtype[out.root]))
    n0 = zi(v.n); arrs = []
    for a, c in zip(v.arrs, cols):
        x = e.fresh(a.sort(), 'face')
        e.forall(lambda k, x=x, a=a, c=c: z3.And(z3.Implies(z3.And(k >= n0, k < n0 + n), x[k] == c(k - n0)), z3.Implies(z3.And(k >= 0, k < n0), x[k] == a[k])), [x], pats=lambda k, x=x: [x[k]])
        arrs.append(x)
    if conc(v.lo) != 0: raise Unsupported('list with an offset')
    e.store(out, Vec(v.et, z3.simplify(n0 + n), arrs, v.lo))
    return n0

def u_get(side):
    def u(eng):
        P = eng.P; fn = P.fn('kigumi::Corefine::get_%s_faces' % side)
        t, loc, d, refs = corefine(eng)
        soup = refs[side + '_']; nf = zi(soup.d['faces_'].n); ids = d[side + '_point_ids_']; tags = d[side + '_face_tags_']; mp = d[side + '_triangulations_']
        eng.assume(z3.And(zi(ids.n) == zi(soup.d['points_'].n), zi(tags.n) == nf, zi(ids.lo) == 0, zi(tags.lo) == 0))
        f = eng.fresh(I, 'face'); eng.assume(z3.And(f >= 0, f < nf))
        CN = z3.Function('number_of_pieces', I, I); PC = [z3.Function('piece_%d' % c, I, I, I) for c in range(3)]
        fv = eng.fresh_of(fn['p'][0]['t'], 'f'); eng.assume(eng.flat(fv, fn['p'][0]['t'])[0] == f)
        bt = P.deref(fn['p'][1]['t']); vt = P.targ(bt, 0); v0 = eng.fresh_of(vt, 'faces'); eng.assume(zi(v0.lo) == 0); out = ref(eng, v0, vt)
        # class invariant: a face in the map has its triangulation
        def pieces(e, f_, this, vals):
            p = this.path if isinstance(this, Loc) else ()
            ks = [s for s in p if not isinstance(s, str) and s[0] == 'm']
            if not isinstance(this, Loc) or this.root != loc.root or len(ks) != 1: raise Unsupported('triangulation asked')
            e.oblige('the triangulation asked is the one of this face of this mesh', z3.And(z3.BoolVal(p[0] == side + '_triangulations_'), zi(ks[0][1]) == f if ks[0][1].sort() == I else ks[0][1] == eng.key_term(mp.kt, fv)))
            o = out_of(e, vals[0]); e.oblige('the pieces go to the list given', z3.BoolVal(o.same(out)))
            e.assume(CN(f) >= 0); append(e, o, CN(f), [lambda q, c=c: PC[c](f, q) for c in range(3)]); e.g['pieces'] = e.g.get('pieces', 0) + 1
            return CN(f)
        eng.contracts['kigumi::Triangulation::get_faces'] = pieces
        key = eng.key_term(mp.kt, fv); inm = z3.Select(mp.dom, key)
        has = mp_has(eng, mp, key)
        if has is not None: eng.assume(z3.Implies(inm, has))
        q = eng.fresh(I, 'any_piece')
        def post(kind, r):
            eng.oblige('asking for the pieces of a face raises no error', kind == 'ret')
            a, b = r.xs if isinstance(r, Tup) else list(r.d.values())
            cnt = zi(eng.load(b) if isinstance(b, Loc) else b)
            v1 = eng.peek(out); n0 = zi(v0.n)
            v1 = v1 if isinstance(v1, Vec) else eng.pyvec_to_vec(v1, v0.et)
            eng.oblige('the classification given is the one of this face', (eng.load(a) if isinstance(a, Loc) else a) == tags.arrs[0][f])
            eng.oblige('the number given is the number of pieces added', zi(v1.n) == n0 + cnt)
            for x in v1.arrs: eng.on_read(x, q)
            eng.oblige('faces added before stay', z3.Implies(z3.And(q >= 0, q < n0), z3.And(*[x[q] == y[q] for x, y in zip(v1.arrs, v0.arrs)])))
            cor = [ids.arrs[0][at(soup.d['faces_'], f, c)] for c in range(3)]
            eng.oblige('a face that is not cut is added as it is', z3.Implies(z3.Not(inm), z3.And(cnt == 1, *[x[n0] == y for x, y in zip(v1.arrs, cor)])))
            for x in v1.arrs: eng.on_read(x, n0 + q)
            eng.oblige('a face that is cut is replaced by the triangles of its triangulation', z3.Implies(inm, z3.And(cnt == CN(f), z3.Implies(z3.And(q >= 0, q < cnt), z3.And(*[x[n0 + q] == PC[c](f, q) for c, x in enumerate(v1.arrs)])))))
        eng.opts['pieces'] = 1
        verify(eng, lambda: eng.inline(fn, loc, [fv, BackIns(out)]), post)
    return u
def mp_has(eng, mp, key):
    """the flag of the optional stored under a key"""
    so = eng.leaf_sorts(mp.vt)
    return mp.arrs[0][key] if so and so[0] == z3.BoolSort() else None

def u_mix(eng):
    P = eng.P; par.install(eng); eng.opts['conflicts'] = False
    eng.contracts['kigumi::AABB_tree::~AABB_tree'] = lambda e, f_, t, v: VOID
    fn = P.fn('kigumi::Mix::operator()'); st = P.deref(fn['p'][0]['t'])
    soups = {s: eng.fresh_of(st, s) for s, _ in SIDES}; loc = {s: ref(eng, soups[s], st) for s in soups}
    nf = {}
    for s in soups: soup_wf(eng, soups[s]); nf[s] = zi(soups[s].d['faces_'].n)
    A, AB = z3.ArraySort(I, I), z3.ArraySort(I, z3.BoolSort())
    CN = {s: z3.Function('pieces_of_' + s, I, I) for s in soups}; PC = {s: [z3.Function('piece_of_%s_%d' % (s, c), I, I, I) for c in range(3)] for s in soups}
    TAG = {s: z3.Function('tag_of_' + s, I, z3.BitVecSort(8)) for s in soups}
    ORG = eng.new_root(eng.fresh(A, 'face_of_piece')); LEFT = eng.new_root(eng.fresh(AB, 'piece_of_left'))
    ST = {s: eng.new_root(eng.fresh(A, 'first_piece_' + s)) for s in soups}
    D0 = {s: eng.fresh(AB, 'taken_' + s) for s in soups}; DONE = {s: eng.new_root(D0[s]) for s in soups}
    for s in soups:
        eng.forall(lambda f, s=s: z3.Not(D0[s][f]), [D0[s]], pats=lambda f, s=s: [D0[s][f]])
        eng.forall(lambda f, s=s: CN[s](f) >= 0, pats=lambda f, s=s: [CN[s](f)])
    ct = P.fn('kigumi::Corefine::get_left_faces')['rec']
    def cctor(e, f, t, vals, n=None):
        a, b = vals
        e.oblige('the first operand is refined against the second', z3.BoolVal(isinstance(a, Loc) and isinstance(b, Loc) and a.same(loc['left']) and b.same(loc['right'])))
        return Obj('corefine')
    eng.contracts['kigumi::Corefine::Corefine'] = cctor
    eng.contracts['kigumi::Corefine::~Corefine'] = lambda e, f_, t, v: VOID
    def getter(s, left):
        def c(e, f_, this, vals):
            f = vals[0]; f = e.load(f) if isinstance(f, Loc) else f; f = zi(e.flat(f, P.deref(f_['p'][0]['t']))[0])
            D = e.peek(DONE[s])
            e.oblige('the pieces asked for are those of a face', z3.And(f >= 0, f < nf[s]))
            e.oblige('the pieces of a face are taken once', z3.Not(D[f]))
            out = out_of(e, vals[1]); e.g['out'] = out
            v = e.peek(out); e.assume(z3.And(CN[s](f) >= 0, zi(e.vec_len(v)) + CN[s](f) < 2**48))
            n0 = append(e, out, CN[s](f), [lambda q, c=c: PC[s][c](f, q) for c in range(3)])
            O, Lf = e.peek(ORG), e.peek(LEFT); O2, L2 = e.fresh(A, 'face_of_piece'), e.fresh(AB, 'piece_of_left')
            inn = lambda k: z3.And(k >= n0, k < n0 + CN[s](f))
            e.forall(lambda k: O2[k] == z3.If(inn(k), f, O[k]), [O2], pats=lambda k: [O2[k]])
            e.forall(lambda k: L2[k] == z3.If(inn(k), z3.BoolVal(left), Lf[k]), [L2], pats=lambda k: [L2[k]])
            e.mem[ORG.root] = O2; e.mem[LEFT.root] = L2
            S = e.peek(ST[s]); S2, D2 = e.fresh(A, 'first_piece'), e.fresh(AB, 'taken')
            e.assume(z3.And(S2 == z3.Store(S, f, n0), D2 == z3.Store(D, f, z3.BoolVal(True))))
            e.mem[ST[s].root] = S2; e.mem[DONE[s].root] = D2
            return e.rebuild_pair(f_['ret'], TAG[s](f), CN[s](f)) if hasattr(e, 'rebuild_pair') else Tup([TAG[s](f), CN[s](f)])
        return c
    for s, left in SIDES: eng.contracts['kigumi::Corefine::get_%s_faces' % s] = getter(s, left)
    ptt = P.fn('kigumi::Corefine::take_points')['ret']
    eng.contracts['kigumi::Corefine::take_points'] = lambda e, f, this, v: e.fresh_of(ptt, 'points')
    eng.contracts['kigumi::Corefine::get_intersecting_edges'] = lambda e, f, this, v: e.fresh_of(f['ret'], 'edges')
    mt = P.deref(P.fn('kigumi::Classify_faces_locally::operator()')['p'][0]['t'])
    lt = mesh.leaf_index(eng, P.elem(dict((n, t) for n, t, _ in P.fields(mt))['face_data_']), 'tag')
    def retag(e, m):
        v = e.peek(m).d['face_data_']; v = v if isinstance(v, Vec) else e.pyvec_to_vec(v, v.et); arrs = list(v.arrs); arrs[lt] = e.fresh(arrs[lt].sort(), 'tags')
        e.store(m.f('face_data_'), Vec(v.et, v.n, arrs, v.lo))
    def classify(e, f, this, vals):
        m = vals[0]; retag(e, m); w = e.fresh_of(f['ret'], 'warnings'); return w
    def globally(e, f, this, vals):
        m, b, l, r = vals
        e.oblige('pieces are located against the two operands in order', z3.BoolVal(l.same(loc['left']) and r.same(loc['right'])))
        if e.branch(e.fresh(z3.BoolSort(), 'locating_fails')): throw_(e)
        retag(e, m); return e.fresh_of(f['ret'], 'warnings')
    def throw_(e):
        from kvc.lib import throw
        throw(e, 'std::runtime_error')
    def finalize(e, f, this, vals):
        v = e.peek(this)
        keep = {'points_', 'faces_', 'face_data_'}
        e.store(this, Rec(v.t, {n: (x if n in keep else e.fresh_of(ft, n)) for (n, ft, _), x in zip(P.fields(mt), v.d.values())}))
        return VOID
    eng.contracts['kigumi::Classify_faces_locally::operator()'] = classify
    eng.contracts['kigumi::Classify_faces_globally::operator()'] = globally
    eng.contracts['kigumi::Triangle_mesh::finalize'] = finalize
    dk = [k for k in range(len(eng.leaf_sorts(P.elem(dict((n, t) for n, t, _ in P.fields(mt))['face_data_'])))) if k != lt]
    fdt = P.elem(dict((n, t) for n, t, _ in P.fields(mt))['face_data_'])
    ll = mesh.leaf_index(eng, fdt, 'from_left'); ld_ = [k for k in dk if k != ll]
    def tf(x): return x if z3.is_bool(x) else x != 0
    def right_data(v, k, O, Lf, tags=True):
        """piece k has the origin and the data of the face it came from"""
        o = O[k]; out = [tf(v.arrs[ll][k]) == Lf[k]]
        for s, left in SIDES:
            src = soups[s].d['face_data_']
            c = z3.And(o >= 0, o < nf[s], *[v.arrs[x][k] == y[o] for x, y in zip(ld_, src.arrs)], *([v.arrs[lt][k] == TAG[s](o)] if tags else []))
            out.append(z3.Implies(Lf[k] if left else z3.Not(Lf[k]), c))
        return z3.And(*out)
    is_faces = lambda P_, t: P_.kind(t) == 'vec' and P_.kind(P_.elem(t)) == 'tup'
    is_data = lambda P_, t: P_.kind(t) == 'vec' and P_.elem(t) == fdt
    def fv(L, kind):
        l = L.loc(type=kind); v = L.at(l)
        if not isinstance(v, Vec): v = eng.pyvec_to_vec(v, eng.P.elem(eng.rtype[l.root]))
        return v
    def gh(L): return L.at(ORG), L.at(LEFT)
    def i_len(L):
        return zi(fv(L, is_faces).n) == zi(fv(L, is_data).n)
    def i_data(L):
        v = fv(L, is_data); O, Lf = gh(L)
        return Quant(lambda k: z3.Implies(z3.And(k >= 0, k < zi(v.n)), right_data(v, k, O, Lf)), [O, v.arrs[ll], Lf], pats=lambda k: [O[k]])
    def i_faces(s, left):
        def i(L):
            v = fv(L, is_faces); O, Lf = gh(L); S, D = L.at(ST[s]), L.at(DONE[s])
            def f(k):
                here = z3.And(k >= 0, k < zi(v.n), Lf[k] if left else z3.Not(Lf[k]))
                return z3.Implies(here, z3.And(D[O[k]], k >= S[O[k]], k < S[O[k]] + CN[s](O[k]), *[v.arrs[c][k] == PC[s][c](O[k], k - S[O[k]]) for c in range(3)]))
            return Quant(f, [O, v.arrs[0]], pats=lambda k: [O[k]])
        return i
    def i_whole(s, left):
        def i(L):
            v = fv(L, is_faces); O, Lf = gh(L); S, D = L.at(ST[s]), L.at(DONE[s])
            return Quant(lambda f, k: z3.Implies(z3.And(D[f], k >= S[f], k < S[f] + CN[s](f)), z3.And(O[k] == f, Lf[k] if left else z3.Not(Lf[k]))), sorts=[I, I], pats=lambda f, k: [z3.MultiPattern(S[f], O[k])])
        return i
    def i_start(s):
        def i(L):
            v = fv(L, is_faces); S, D = L.at(ST[s]), L.at(DONE[s])
            return Quant(lambda f: z3.Implies(D[f], z3.And(S[f] >= 0, S[f] + CN[s](f) <= zi(v.n))), [D, S], pats=lambda f: [S[f]])
        return i
    def done(s, cond):
        def i(L):
            D = L.at(DONE[s]); return Quant(lambda f: cond(L, D, f), [D], pats=lambda f: [D[f]])
        return i
    invs = [('one data record per piece', i_len), ('every piece so far has the origin and the data of its face', i_data)]
    for s, left in SIDES:
        invs += [('faces of the %s operand passed are taken' % s, done(s, lambda L, D, f: z3.Implies(z3.And(f >= 0, f < zi(L.k)), D[f]))),
                 ('faces of the %s operand to come are not taken' % s, done(s, lambda L, D, f: z3.Implies(f >= zi(L.k), z3.Not(D[f])))),
                 ('no face of the %s operand is taken' % s, done(s, lambda L, D, f: z3.Not(D[f]))),
                 ('all faces of the %s operand are taken' % s, done(s, lambda L, D, f, s=s: z3.Implies(z3.And(f >= 0, f < nf[s]), D[f]))),
                 ('pieces of the %s operand lie in their block' % s, i_faces(s, left)), ('blocks of the %s operand are whole' % s, i_whole(s, left)), ('blocks of the %s operand lie in the list' % s, i_start(s))]
    def i_rest(L):
        """classification changes nothing but the classification"""
        out = []
        for n, t, l in L.vars(frames=True):
            if t is not None and P.rname(P.deref(t)) == P.rname(mt) and isinstance(l, Loc) and not l.path:
                a, b = L.at(l), L.oldat(l)
                if isinstance(a, Rec): out += [x == y for k, (x, y) in enumerate(zip(a.d['face_data_'].arrs, b.d['face_data_'].arrs)) if k != lt]
        return z3.And(*out) if out else z3.BoolVal(True)
    invs.append(('only the classification of faces changes', i_rest))
    eng.invs['*'] = invs
    k, f = eng.fresh(I, 'any_piece'), eng.fresh(I, 'any_face')
    this = ref(eng, eng.fresh_of(fn['rec'], 'mix'), fn['rec'])
    def post(kind, r):
        if kind == 'throw': return
        m, w = r.xs if isinstance(r, Tup) else list(r.d.values())
        m = eng.load(m) if isinstance(m, Loc) else m
        F, V = m.d['faces_'], m.d['face_data_']; O, Lf = eng.peek(ORG), eng.peek(LEFT); n = zi(eng.vec_len(F))
        if not isinstance(F, Vec): F = eng.pyvec_to_vec(F, soups['left'].d['faces_'].et)
        if not isinstance(V, Vec): V = eng.pyvec_to_vec(V, fdt)
        eng.oblige('one data record per piece', zi(V.n) == n)
        def c_data():
            eng.assume(z3.And(k >= 0, k < n))
            for x in (O, Lf, V.arrs[ll]) + tuple(F.arrs): eng.on_read(x, k)
            eng.oblige('every piece is attributed to the operand and carries the data of the face it is a piece of', right_data(V, k, O, Lf, tags=False))
            for s, left in SIDES:
                S = eng.peek(ST[s]); eng.on_read(S, O[k])
                eng.oblige('every piece of the %s operand is a piece of that face' % s, z3.Implies(Lf[k] if left else z3.Not(Lf[k]), z3.And(k >= S[O[k]], k < S[O[k]] + CN[s](O[k]), *[F.arrs[c][k] == PC[s][c](O[k], k - S[O[k]]) for c in range(3)])))
        def c_all():
            for s, left in SIDES:
                S, D = eng.peek(ST[s]), eng.peek(DONE[s]); eng.on_read(D, f); eng.on_read(S, f); eng.on_read(O, k)
                eng.oblige('every piece of every face of the %s operand is there' % s, z3.Implies(z3.And(f >= 0, f < nf[s]), z3.And(D[f], S[f] >= 0, S[f] + CN[s](f) <= n, z3.Implies(z3.And(k >= S[f], k < S[f] + CN[s](f)), z3.And(O[k] == f, Lf[k] if left else z3.Not(Lf[k]))))))
        for c in (c_data, c_all): eng.explore(c)
    verify(eng, lambda: eng.inline(fn, this, [loc['left'], loc['right']]), post)

def units(P):
    return [Unit('kigumi::Corefine::get_left_faces', u_get('left')), Unit('kigumi::Corefine::get_right_faces', u_get('right')), Unit('kigumi::Mix::operator()', u_mix, heavy=True),
            Unit('Boolean_region_builder constructor', C02.u_ctor)]
