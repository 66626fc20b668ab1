"""C24: refinement of the faces (Triangulation.h, Corefine.h): what is asked of CGAL's triangulation and what is made of its answer."""
import z3
from kvc.spec import *
from kvc.unit import Unit

ID = 'C24'
HARNESS = {'src': ['C24.cc'], 'seconds': 60}
LEVEL = 'exploration'
TECHNIQUE = 'contracts on Triangulation and on the functions of Corefine around it; the composition and the geometry by bounded execution of the real code against an exact oracle'
NOTE = ('Proved: where a point goes (corner, edge, inside), one vertex per id, the hint given to CGAL, the constraints of an intersection (sides and fan) and nothing else, the pieces returned, the border edges, the triangulation of each crossed face (its corners, every intersection on it). '
        'Bounded: the constructor of Corefine as a whole and that the pieces cover the face (geometry of CGAL\'s constrained triangulation).')
ASSUME = ['CGAL: a constrained Delaunay triangulation of points in a plane triangulates their convex hull, has every constraint as a union of its edges, and lists its faces counterclockwise seen along the normal given to the traits',
          'CGAL: is_edge and is_face give a place of the edge or face asked for; inserting a point that is not a vertex makes a new vertex at it', 'a default-constructed handle equals no handle of a vertex',
          'points with different ids are different (C08)', 'the intersection of two triangles has at most six corners (C14; capacity of the list)', 'boost::unordered_flat_map behaves as a finite map']
C = 'kigumi::Corefine::'; TR = 'kigumi::Triangulation::'

def one(P, name):
    fs = P.fns(name) or P.fns(name, body=False)
    if len(fs) != 1: raise Unsupported('%s is not found' % name)
    return fs[0]
def ident(eng, name='id'):
    x = eng.fresh(I, name); eng.assume(z3.And(x >= 0, x <= INVALID)); return x

def corefine(eng, t):
    P = eng.P; d = {}
    for n, ft, fi in P.fields(t):
        if P.kind(ft) == 'ref':
            st = P.deref(ft); v = eng.fresh_of(st, n); d[n] = ref(eng, v, st)
        else: d[n] = eng.fresh_of(ft, n)
    return ref(eng, Rec(t, d), t), d
NULL = 'CGAL::internal::CC_iterator::CC_iterator'
def null_handles(eng, S):
    null = z3.Const('null_handle', S)
    def ctor(e, f, t, vals, n): return (e.load(vals[0]) if isinstance(vals[0], Loc) else vals[0]) if vals else null
    eng.contracts[NULL] = ctor
    v = lambda e, x: e.load(x) if isinstance(x, Loc) else x
    eng.contracts['CGAL::internal::operator=='] = lambda e, f, this, vals: eq(v(e, vals[0]), v(e, vals[1]))
    eng.contracts['CGAL::internal::operator!='] = lambda e, f, this, vals: Not(eq(v(e, vals[0]), v(e, vals[1])))
    return null
# ------------------------------------------------------------------ one triangulated face
def u_insert(side):
    """a point goes where its region meets the face"""
    def unit(eng):
        P = eng.P; fn = one(P, TR + 'insert'); rt = fn['rec']
        v = eng.fresh_of(rt, 't'); l = ref(eng, v, rt)
        eng.store(l.f('f_'), 7 if side == 'left' else 56)
        vh = fn['ret']
        def call(kind):
            def h(e, f, this, vals):
                r = e.fresh_of(vh, kind); e.g['call'] = (kind, this.root == l.root and not this.path, e.load(vals[0]), vals[1:], r); return r
            return h
        eng.contracts[TR + 'insert_in_edge'] = call('edge'); eng.contracts[TR + 'insert_in_face'] = call('face')
        p = eng.fresh(P.sort_of('CGAL::Point_3'), 'p'); lp = ref(eng, p, P.deref(fn['p'][0]['t']))
        k = ident(eng); reg = eng.fresh_of(fn['p'][2]['t'], 'region'); sh = 0 if side == 'left' else 3
        if not z3.is_bv(reg): raise Unsupported('region')
        eng.assume(z3.ULT(reg, 64)); bits = [z3.Extract(sh + i, sh + i, reg) == 1 for i in range(3)]
        has = lambda *ks: z3.And(*[b if i in ks else z3.Not(b) for i, b in enumerate(bits)])
        vs = [eng.load(l.f('vhs_').f(('i', i))) for i in range(3)]
        def post(kind, r):
            c = eng.g.get('call'); F = z3.BoolVal(False)
            if kind == 'throw':
                eng.oblige('an error only for a point that is not on the face', has()); return
            eng.oblige('a point that is not on the face is rejected', z3.Not(has()))
            eng.oblige('the vertices of the corners stay', z3.And(*[zb(eq(eng.load(l.f('vhs_').f(('i', i))), vs[i])) for i in range(3)]))
            for i in range(3):
                eng.oblige('a corner of the face is that corner', z3.Implies(has(i), zb(eq(r, vs[i])) if c is None else F))
            def ok(kd):
                if not c or c[0] != kd or not c[1]: return F
                return z3.And(zb(eq(c[2], p)), zi(c[3][0]) == k, zb(eq(r, c[4])))
            for i in range(3):
                e = ok('edge')
                eng.oblige('a point on an edge is inserted in that edge', z3.Implies(has(i, (i + 1) % 3), z3.And(e, zi(c[3][1]) == i) if c and c[0] == 'edge' else F))
            eng.oblige('a point inside is inserted in the face', z3.Implies(has(0, 1, 2), ok('face')))
        verify(eng, lambda: eng.inline(fn, l, [lp, k, reg]), post)
    return unit

class Cdt:
    """the contract of CGAL's triangulation: vertices with an id each, insertion with a hint where the point lies"""
    def __init__(self, eng, l):
        P = eng.P; self.eng = eng
        self.vh = one(P, TR + 'insert')['ret']; self.S = eng.leaf_sorts(self.vh)[0]
        self.INFO = z3.Function('ID_OF', self.S, I); self.PT = z3.Function('POINT_OF', self.S, P.sort_of('CGAL::Point_3'))
        null_handles(eng, self.S)
        eng.g['nodes'] = []; eng.g['new'] = []; eng.g['edges'] = []; eng.g['faces'] = []
        D = 'CGAL::Constrained_Delaunay_triangulation_2::'; T2 = 'CGAL::Triangulation_2::'
        for nn in {f['nn'] for f in P.funcs}:
            b = nn.rsplit('::', 1)[-1]
            if not nn.startswith('CGAL::'): continue
            if b == 'info': eng.contracts[nn] = lambda e, f, this, vals: this
            if b == 'operator->' and 'CC_iterator' in nn: eng.contracts[nn] = self.arrow
            if b == 'is_edge': eng.contracts[nn] = self.is_edge
            if b == 'is_face': eng.contracts[nn] = self.is_face
            if b == 'insert' and 'riangulation_2' in nn: eng.contracts[nn] = self.insert
            if b == 'insert_outside_affine_hull': eng.contracts[nn] = self.insert
    def arrow(self, e, f, this, vals):
        h = e.load(this)
        for x, l in e.g['nodes']:
            if x.eq(h): return Ptr(l)
        ul = [i for i, t in enumerate(e.P.types) if t.get('n') == 'unsigned long'][0]
        l = e.new_root(self.INFO(h), ul); e.g['nodes'] = e.g['nodes'] + [(h, l)]
        return Ptr(l)
    def info(self, h):
        r = self.INFO(h)
        for x, l in self.eng.g['nodes']: r = z3.If(h == x, zi(self.eng.load(l)), r)
        return r
    def is_edge(self, e, f, this, vals):
        a, b = (e.load(x) if isinstance(x, Loc) else x for x in vals[:2])
        if e.branch(e.fresh(z3.BoolSort(), 'is_edge')):
            fh = e.fresh(self.S, 'face_of_edge'); i = e.fresh(I, 'edge_index'); e.assume(z3.And(i >= 0, i < 3))
            if len(vals) > 2: e.store(vals[2], fh); e.store(vals[3], i)
            e.g['edges'] = e.g['edges'] + [(fh, i, a, b)]; return True
        return False
    def is_face(self, e, f, this, vals):
        c = [e.load(x) if isinstance(x, Loc) else x for x in vals[:3]]
        if e.branch(e.fresh(z3.BoolSort(), 'is_face')):
            fh = e.fresh(self.S, 'face')
            if len(vals) > 3: e.store(vals[3], fh)
            e.g['faces'] = e.g['faces'] + [(fh, c)]; return True
        return False
    def insert(self, e, f, this, vals):
        p = e.load(vals[0]) if isinstance(vals[0], Loc) else vals[0]
        x = [e.load(y) if isinstance(y, Loc) else y for y in vals[1:]]
        if len(x) == 3:
            lt, fh, i = x
            if not isinstance(lt, int): raise Unsupported('insertion with a symbolic kind of place')
            e.g['hint'] = (lt, fh, i)
        h = e.fresh(self.S, 'new_vertex'); e.assume(self.PT(h) == p)
        e.g['new'] = e.g['new'] + [h]; return h

def u_in(kind):
    def unit(eng):
        P = eng.P; fn = one(P, TR + 'insert_in_' + kind); rt = fn['rec']
        v = eng.fresh_of(rt, 't'); l = ref(eng, v, rt); D = Cdt(eng, l)
        M = v.d['id_to_vh_']; vs = [eng.load(l.f('vhs_').f(('i', i))) for i in range(3)]
        if not isinstance(M, MapV): raise Unsupported('id_to_vh_')
        good = lambda q: z3.Implies(M.dom[q], D.INFO(M.arrs[0][q]) == q)
        p = eng.fresh(P.sort_of('CGAL::Point_3'), 'p'); lp = ref(eng, p, P.deref(fn['p'][0]['t']))
        k = ident(eng); q = ident(eng, 'other'); r_ = eng.fresh(I, 'third')
        for x in (k, q): eng.assume(good(x))
        args = [lp, k]
        if kind == 'edge':
            ei = eng.fresh(I, 'edge'); eng.assume(z3.And(ei >= 0, ei < 3)); args.append(ei)
            pick = lambda i: z3.If(i == 0, vs[0], z3.If(i == 1, vs[1], vs[2]))
            ea, eb = pick(ei), pick((ei + 1) % 3)
        def post(kd, r):
            if kd == 'throw': eng.oblige('no error', False); return
            M1 = eng.load(l).d['id_to_vh_']; new = eng.g['new']
            old = M.dom[k]
            eng.oblige('the same point is inserted once', z3.Implies(old, z3.BoolVal(not new)))
            eng.oblige('a new point is inserted once', z3.Implies(z3.Not(old), z3.BoolVal(len(new) == 1)))
            for h in new:      # the new vertex is none of those there were
                eng.assume(z3.And(z3.Implies(M.dom[q], M.arrs[0][q] != h), *[x != h for x in vs]))
            eng.oblige('the same id, the same vertex', z3.Implies(old, r == M.arrs[0][k]))
            eng.oblige('the vertex has the id', D.info(r) == k)
            if new: eng.oblige('the vertex is at the point', z3.And(r == new[0], D.PT(r) == p))
            eng.oblige('later calls find the vertex', z3.And(M1.dom[k], M1.arrs[0][k] == r))
            eng.oblige('other ids keep their vertex', z3.Implies(q != k, z3.And(M1.dom[q] == M.dom[q], z3.Implies(M.dom[q], z3.And(M1.arrs[0][q] == M.arrs[0][q], D.info(M1.arrs[0][q]) == q)))))
            eng.oblige('the vertices of the corners stay', z3.And(*[zb(eq(eng.load(l.f('vhs_').f(('i', i))), vs[i])) for i in range(3)]))
            eng.oblige('the ids of the corners stay', z3.And(*[D.info(x) == D.INFO(x) for x in vs]) if new else z3.BoolVal(True))
            h = eng.g.get('hint')
            if h:
                lt, fh, i = h
                if lt == 1: ok = z3.Or(*[z3.And(fh == f, zi(i) == j, z3.Or(z3.And(a == ea, b == eb), z3.And(a == eb, b == ea))) for f, j, a, b in eng.g['edges']]) if kind == 'edge' else z3.BoolVal(False)
                elif lt == 2: ok = z3.Or(*[z3.And(fh == f, z3.Or(*[z3.And(*[zb(eq(c[(j + d) % 3], vs[j])) for j in range(3)]) for d in range(3)])) for f, c in eng.g['faces']]) if kind == 'face' else z3.BoolVal(False)
                else: ok = z3.BoolVal(False)
                eng.oblige('the place named to the triangulation is where the point lies', ok)
        verify(eng, lambda: eng.inline(fn, l, args), post)
    return unit

def u_ctor(eng):
    """a new triangulation is the face itself"""
    P = eng.P; fn, = [f for f in P.fns(TR + 'Triangulation') if len(f['p']) == 7]; rt = fn['rec']
    cv = lambda e, x: e.load(x) if isinstance(x, Loc) else x
    D = Cdt(eng, None); PT = P.sort_of('CGAL::Point_3')
    nf = one(P, 'CGAL::normal'); VS = eng.leaf_sorts(nf['ret'])[0]; N = z3.Function('NORMAL', PT, PT, PT, VS); g = {}
    eng.contracts['CGAL::normal'] = lambda e, f, this, vals: N(*[cv(e, x) for x in vals])
    def traits(e, f, t, vals, n):
        x = cv(e, vals[0]); S = e.leaf_sorts(t)[0]
        return z3.Function('TRAITS', VS, S)(x) if x.sort() == VS else x
    def cdt(e, f, t, vals, n):
        S = e.leaf_sorts(t)[0]; c = e.fresh(S, 'cdt'); x = cv(e, vals[0]); e.g['cdt'] = (c, x); return c
    eng.contracts['CGAL::Projection_traits_3::Projection_traits_3'] = traits
    eng.contracts['CGAL::Constrained_Delaunay_triangulation_2::Constrained_Delaunay_triangulation_2'] = cdt
    pts = [eng.fresh(PT, 'p' + x) for x in 'abc']; ids = [ident(eng, x) for x in 'abc']; f0 = eng.fresh_of(fn['p'][0]['t'], 'face')
    args = [f0] + [ref(eng, x, P.deref(fn['p'][1 + i]['t'])) for i, x in enumerate(pts)] + ids
    l = eng.new_root(Obj('uninit'), rt)
    def post(kind, r):
        eng.oblige('no error', z3.BoolVal(kind == 'ret'))
        if kind != 'ret': return
        v = eng.load(l); new = eng.g['new']
        eng.oblige('the face is remembered', zb(eq(v.d['f_'], f0)))
        eng.oblige('three vertices', z3.BoolVal(len(new) == 3))
        if len(new) != 3: return
        eng.assume(z3.Distinct(*new))
        for i in range(3):
            h = eng.load(l.f('vhs_').f(('i', i)))
            eng.oblige('a corner is a vertex at its point', z3.And(z3.Or(*[h == x for x in new]), D.PT(h) == pts[i]))
            eng.oblige('a corner has its id', D.info(h) == ids[i])
        c, x = eng.g['cdt']; ok = []
        T_ = z3.Function('TRAITS', VS, x.sort())
        for i in range(3): ok.append(x == T_(N(pts[i], pts[(i + 1) % 3], pts[(i + 2) % 3])))
        eng.oblige('the triangulation lives in the plane of the face, seen from its outside', z3.And(z3.Or(*ok), zb(eq(v.d['cdt_'], c))))
        m = v.d['id_to_vh_']; q = ident(eng, 'q')
        eng.oblige('no other vertices', z3.Not(m.dom[q]))
    verify(eng, lambda: eng.construct_at(l, fn, rt, args), post)
def u_pieces(eng):
    """the pieces are the triangles of the triangulation"""
    P = eng.P; fn = one(P, TR + 'get_faces'); rt = fn['rec']; v = eng.fresh_of(rt, 't'); l = ref(eng, v, rt); D = Cdt(eng, l)
    cv = lambda e, x: e.load(x) if isinstance(x, Loc) else x
    bf = one(P, 'CGAL::Triangulation_2::finite_faces_begin'); S = eng.leaf_sorts(bf['ret'])[0]
    FACE = z3.Function('FINITE_FACE', I, S); POS = z3.Function('POSITION', S, I); V = z3.Function('CORNER', S, I, D.S); m = eng.fresh(I, 'm'); eng.assume(z3.And(m >= 0, m < 2**48))
    eng.forall(lambda j: POS(FACE(j)) == j, pats=lambda j: [FACE(j)])
    eng.forall(lambda f, i: z3.And(D.INFO(V(f, i)) >= 0, D.INFO(V(f, i)) <= INVALID), sorts=[S, I], pats=lambda f, i: [V(f, i)])
    C_ = eng.contracts
    C_['CGAL::Triangulation_2::finite_faces_begin'] = lambda e, f, this, vals: FACE(z3.IntVal(0))
    C_['CGAL::Triangulation_2::finite_faces_end'] = lambda e, f, this, vals: FACE(m)
    def inc(e, f, this, vals):
        j = POS(e.load(this)); e.oblige('no face beyond the last', z3.And(j >= 0, j < m)); e.store(this, FACE(j + 1)); return this
    C_['CGAL::Triangulation_2::Finite_faces_iterator::operator++'] = inc
    for o, neg in (('operator==', False), ('operator!=', True)):
        def h(e, f, this, vals, neg=neg):
            a, b = cv(e, vals[0]), cv(e, vals[1]); r = POS(a) == POS(b); return Not(r) if neg else r
        C_['CGAL::' + o] = h
    def arrow(e, f, this, vals):
        x = e.load(this); e.oblige('no face beyond the last', z3.And(POS(x) >= 0, POS(x) < m)); return Ptr(e.new_root(x, bf['ret']))
    C_['CGAL::Filter_iterator::operator->'] = arrow
    def vertex(e, f, this, vals):
        i = zi(cv(e, vals[0])); e.oblige('a face has three corners', z3.And(i >= 0, i < 3)); r = V(e.load(this), i); k = D.INFO(r); e.assume(z3.And(k >= 0, k <= INVALID)); return r
    C_['CGAL::Triangulation_ds_face_base_2::vertex'] = vertex
    bt = P.deref(fn['p'][0]['t']); vt = P.targ(bt, 0); v0 = eng.fresh_of(vt, 'faces'); eng.assume(zi(v0.lo) == 0); out = ref(eng, v0, vt)
    n0 = zi(v0.n); K = lambda j, c: D.INFO(V(FACE(j), z3.IntVal(c)))
    rot = lambda x, j, p: z3.Or(*[z3.And(*[x.arrs[(c + s) % 3][p] == K(j, c) for c in range(3)]) for s in range(3)])
    def lst(L):
        x = L.at(out)
        return x if isinstance(x, Vec) else eng.pyvec_to_vec(x, P.elem(vt))
    q = eng.fresh(I, 'any'); mine = lambda L: None if any(r == out.root for r, _ in L.mods) else (_ for _ in ()).throw(SpecError('not filling'))
    def i_len(L): mine(L); return z3.And(zi(lst(L).n) == n0 + zi(L.k), zi(lst(L).lo) == 0)
    def i_old(L): mine(L); x = lst(L); return z3.Implies(z3.And(q >= 0, q < n0), z3.And(*[a[q] == b[q] for a, b in zip(x.arrs, v0.arrs)]))
    def i_new(L): mine(L); x = lst(L); return z3.Implies(z3.And(q >= 0, q < zi(L.k)), rot(x, q, n0 + q))
    def i_pos(L):
        mine(L)
        r = [l_ for nm, t, l_ in L.vars() if isinstance(l_, Loc) and not l_.path and is_sym(L.at(l_)) and L.at(l_).sort() == S and any(w == l_.root for w, _ in L.mods)] if True else []
        if len(r) != 1: raise SpecError('position')
        return z3.And(L.at(r[0]) == FACE(zi(L.k)), POS(L.at(r[0])) == zi(L.k), zi(L.k) >= 0, zi(L.k) <= m)
    eng.invs['*'] = [('pieces so far', i_len), ('what was there stays', i_old), ('each piece is its triangle', i_new), ('position', i_pos)]
    def post(kind, r):
        eng.oblige('no error', z3.BoolVal(kind == 'ret'))
        if kind != 'ret': return
        x = eng.peek(out)
        x = x if isinstance(x, Vec) else eng.pyvec_to_vec(x, P.elem(vt))
        eng.oblige('as many pieces as triangles', z3.And(zi(cv(eng, r)) == m, zi(x.n) == n0 + m))
        eng.oblige('what was there stays', z3.Implies(z3.And(q >= 0, q < n0), z3.And(*[a[q] == b[q] for a, b in zip(x.arrs, v0.arrs)])))
        eng.oblige('each piece has the ids of a triangle, in its order', z3.Implies(z3.And(q >= 0, q < m), rot(x, q, n0 + q)))
    verify(eng, lambda: eng.inline(fn, l, [BackIns(out)]), post)

# ------------------------------------------------------------------ the intersection of two faces
MAXN = 6     # capacity of the list of points: the intersection of two triangles is a convex hexagon at most
def u_section(eng):
    P = eng.P; fn = one(P, C + 'insert_intersection'); rt = fn['rec']
    l, d = corefine(eng, rt)
    it = P.deref(fn['p'][1]['t']); info = eng.fresh_of(it, 'info'); li = ref(eng, info, it)
    ids, sym = info.d['intersections'], info.d['symbolic_intersections']; n = zi(ids.n)
    eng.assume(z3.And(n <= MAXN, zi(sym.n) == n))
    tri = P.deref(fn['p'][0]['t']); lt = ref(eng, eng.fresh_of(tri, 't'), tri)
    ins = one(P, TR + 'insert'); vh = ins['ret']; S = eng.leaf_sorts(vh)[0]
    pt = P.sort_of('CGAL::Point_3'); pts = eng.load(l).d['points_'].d['points_']
    SY = sym.arrs[0].sort().range(); H = z3.Function('VERTEX_OF', I, SY, S); null = null_handles(eng, S)
    ids_ = lambda j: at(ids, j); h = lambda j: H(at(ids, j), at(sym, j))
    for j in range(MAXN): eng.assume(z3.Implies(j < n, z3.And(ids_(z3.IntVal(j)) >= 0, ids_(z3.IntVal(j)) < zi(pts.n), h(z3.IntVal(j)) != null)))
    x, y = eng.fresh(S, 'x'), eng.fresh(S, 'y'); w = eng.fresh(S, 'w')
    hit = eng.new_root(z3.BoolVal(False)); seen = eng.new_root(z3.BoolVal(False))
    pair = lambda a, b: z3.Or(z3.And(a == x, b == y), z3.And(a == y, b == x))
    ld = lambda e, v: e.load(v) if isinstance(v, Loc) else v
    def c_insert(e, f, this, vals):
        p, k, s = (ld(e, v) for v in vals)
        e.oblige('each point goes into this triangulation', z3.BoolVal(this.root == lt.root and not this.path))
        e.oblige('the point inserted is the one with the id', z3.And(zi(k) >= 0, zi(k) < zi(pts.n), zb(eq(p, at(pts, k)))))
        r = H(zi(k), e.as_sort(s, SY)); e.mem[seen.root] = z3.Or(zb(e.peek(seen)), r == w); e.assume(r != null); return r
    def c_constraint(e, f, this, vals):
        a, b = (ld(e, v) for v in vals)
        e.oblige('each constraint goes into this triangulation', z3.BoolVal(this.root == lt.root and not this.path))
        e.oblige('constraints join vertices', z3.And(a != null, b != null))
        e.mem[hit.root] = z3.Or(zb(e.peek(hit)), pair(a, b)); return VOID
    eng.contracts[TR + 'insert'] = c_insert; eng.contracts[TR + 'insert_constraint'] = c_constraint
    J = range(MAXN)
    some = lambda g: z3.Or(*[g(z3.IntVal(j)) for j in J])
    def handles(L):
        r = [(nm, l_) for nm, t, l_ in L.vars() if t is not None and isinstance(l_, Loc) and not l_.path and P.deref(t) == vh and any(q == l_.root for q, _ in L.mods)]
        return r
    def first_loop(L):
        if not any(q == seen.root for q, _ in L.mods): raise SpecError('not the loop over the points')
    def i_prev(which):
        def g(L):
            first_loop(L); hs = handles(L)
            if which >= len(hs): raise SpecError('handle')
            return hs[which][1]
        return g
    invs = []
    for i in range(3):
        def last(L, i=i): v = L.at(i_prev(i)(L)); k = zi(L.k); return v == z3.If(k == 0, null, h(k - 1))
        def fst(L, i=i): v = L.at(i_prev(i)(L)); k = zi(L.k); return v == z3.If(k == 0, null, h(z3.IntVal(0)))
        invs += [('handle %d is the last' % i, last), ('handle %d is the first' % i, fst)]
    def vec(L):
        r = [l_ for nm, t, l_ in L.vars() if t is not None and isinstance(l_, Loc) and not l_.path and P.kind(P.deref(t)) == 'vec' and P.elem(P.deref(t)) == vh]
        if len(r) != 1: raise SpecError('vertices')
        return L.at(r[0])
    def i_len(L): first_loop(L); return z3.And(zi(vec(L).n) == zi(L.k), zi(vec(L).lo) == 0)
    def i_vec(L): first_loop(L); vv = vec(L); return z3.And(*[z3.Implies(j < zi(L.k), at(vv, z3.IntVal(j)) == h(z3.IntVal(j))) for j in J])
    def i_seen(L): first_loop(L); return L.at(seen) == some(lambda j: z3.And(j < zi(L.k), h(j) == w))
    def i_hit(L): first_loop(L); return L.at(hit) == some(lambda j: z3.And(j + 1 < zi(L.k), pair(h(j), h(j + 1))))
    base = z3.Or(some(lambda j: z3.And(j + 1 < n, pair(h(j), h(j + 1)))), z3.And(n > 2, pair(h(n - 1), h(z3.IntVal(0)))))
    fan = lambda m: some(lambda j: z3.And(j >= 2, j < m, pair(h(z3.IntVal(0)), h(j))))
    def i_fan(L):
        if any(q == seen.root for q, _ in L.mods): raise SpecError('not the loop over the fan')
        return L.at(hit) == z3.Or(base, fan(zi(L.k) + 2))
    def i_n(L): return zi(L.k) <= MAXN
    def counter(L, i=0):
        r = [l_ for nm, t, l_ in L.vars() if t is not None and isinstance(l_, Loc) and not l_.path and P.kind(P.deref(t)) == 'int' and any(q == l_.root for q, _ in L.mods)]
        if len(r) != 1: raise SpecError('counter')
        return L.at(r[0])
    def i_step(L): first_loop(L); return zi(counter(L)) == zi(L.k)
    def i_end(L): return z3.Or(zi(L.k) == 0, zi(L.k) + 3 <= n)
    def i_max(L): return z3.And(zi(L.k) >= 0, zi(L.k) <= MAXN)
    invs += [('the counter counts the turns', i_step), ('no turn beyond the last point', i_end), ('few turns', i_max)]
    eng.invs['*'] = invs + [('as many vertices as points so far', i_len), ('vertex of each point so far', i_vec), ('points so far are inserted', i_seen), ('consecutive points so far are joined', i_hit), ('fan so far', i_fan)]
    def post(kind, r):
        eng.oblige('no error', z3.BoolVal(kind == 'ret'))
        if kind != 'ret': return
        eng.oblige('every point of the intersection is inserted, and nothing else', zb(eng.peek(seen)) == some(lambda j: z3.And(j < n, h(j) == w)))
        eng.oblige('the constraints are the sides of the intersection and a fan of its diagonals', zb(eng.peek(hit)) == z3.Or(base, fan(n - 1)))
    verify(eng, lambda: eng.inline(fn, l, [lt, li]), post)
def u_edges(eng):
    P = eng.P; fn = one(P, C + 'get_intersecting_edges'); l, d = corefine(eng, fn['rec'])
    infos = d['infos_']; n = zi(infos.n); IT = P.elem(typ_of_field(P, fn['rec'], 'infos_'))
    q = eng.fresh(I, 'q')
    cols = {}
    off = 0
    for nm, ft, _ in P.fields(IT):
        k = len(eng.leaf_sorts(ft)); cols[nm] = infos.arrs[off:off + k]; off += k
    cn, clo, cd = cols['intersections']
    eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(cn[j] >= 0, cn[j] <= MAXN, clo[j] == 0)), [cn, clo], pats=lambda j: [cn[j], clo[j]])
    eng.forall(lambda j, i: z3.And(cd[j][i] >= 0, cd[j][i] <= INVALID), sorts=[I, I], pats=lambda j, i: [cd[j][i]])
    a, b = ident(eng, 'a'), ident(eng, 'b'); eng.assume(a <= b)
    kt = P.targ(fn['ret'], 0) if P.kind(fn['ret']) == 'map' else None
    ss = eng.leaf_sorts(kt); key = eng.key_sort(kt).constructor(0)(a, b)
    end = lambda j, i, x: z3.Or(z3.And(cd[j][i] == a, cd[j][x] == b), z3.And(cd[j][i] == b, cd[j][x] == a))
    side = lambda j, i: z3.And(cn[j] >= 2, i < cn[j], z3.If(i + 1 < cn[j], end(j, i, i + 1), end(j, i, z3.IntVal(0))))
    W = lambda j, m=None: z3.Or(*[z3.And(z3.BoolVal(True) if m is None else i < m, side(j, z3.IntVal(i))) for i in range(MAXN)])
    PW = z3.Function('SIDE_OF_ONE_BEFORE', I, z3.BoolSort())
    eng.assume(z3.Not(PW(z3.IntVal(0))))
    step = lambda j: z3.And(PW(j + 1) == z3.Or(PW(j), W(j)), z3.Implies(z3.And(j >= 0, j < n), z3.And(cn[j] >= 0, cn[j] <= MAXN, clo[j] == 0)))
    def sets(L):
        r = [l_ for nm, t, l_ in L.vars() if t is not None and isinstance(l_, Loc) and not l_.path and P.kind(P.deref(t)) == 'map']
        if len(r) != 1: raise SpecError('the set of edges')
        return L.at(r[0])
    def here(L):
        """the intersection at hand, inside the loop over its sides"""
        r = [l_ for nm, t, l_ in L.vars(L.entry) if isinstance(l_, Loc) and l_.root == l.root and l_.path and l_.path[0] == 'infos_' and len(l_.path) > 1 and l_.path[1][0] == 'i']
        if not r: raise SpecError('the intersection at hand')
        return zi(r[0].path[1][1])
    def outer(L):
        try: here(L)
        except SpecError: return
        raise SpecError('inner')
    def i_outer(L): outer(L); return sets(L).dom[key] == PW(zi(L.k))
    def i_inner(L): j = here(L); return sets(L).dom[key] == z3.Or(PW(j), W(j, zi(L.k)))
    def i_few(L): return z3.And(zi(L.k) >= 0, zi(L.k) <= n)
    def i_few2(L): here(L); return z3.And(zi(L.k) >= 0, zi(L.k) <= MAXN)
    eng.opts['loop_facts'] = [lambda L: [step(zi(L.k))]]
    eng.invs['*'] = [('edges of the intersections so far', i_outer), ('sides of this intersection so far', i_inner), ('turns', i_few), ('few turns', i_few2)]
    def post(kind, r):
        eng.oblige('no error', z3.BoolVal(kind == 'ret'))
        if kind == 'ret': r = eng.load(r) if isinstance(r, Loc) else r; eng.oblige('the border edges are the sides of the intersections', r.dom[key] == PW(n))
    verify(eng, lambda: eng.inline(fn, l, []), post)
    def lemma():
        j, k = eng.fresh(I, 'j'), eng.fresh(I, 'k'); eng.assume(z3.And(j >= 0, k >= 0))
        up = lambda k: z3.Implies(z3.And(j < k, W(j)), PW(k))
        eng.assume(z3.And(up(k), PW(k + 1) == z3.Or(PW(k), W(k))))
        eng.oblige('a side of any intersection counts (step)', up(k + 1)); eng.oblige('(start)', up(z3.IntVal(0)))
        E = z3.Function('INTERSECTION_OF', I, I)
        down = lambda k, e: z3.Implies(PW(k), z3.And(e >= 0, e < k, W(e)))
        e0 = eng.fresh(I, 'e'); eng.assume(down(k, e0)); eng.oblige('what counts is a side of one (step)', z3.Or(down(k + 1, e0), down(k + 1, k))); eng.oblige('(start) none', down(z3.IntVal(0), z3.IntVal(0)))
    verify(eng, lemma, lambda k, v: None)
def typ_of_field(P, t, name):
    for n, ft, _ in P.fields(t):
        if n == name: return ft
    raise Unsupported('field %s' % name)
def groups(P):
    """the work on the intersections of one face, one function for either mesh"""
    return [f for f in P.funcs if f.get('lambda') and not f.get('dep') and f.get('body') is not None and f['nn'].startswith(C + 'Corefine(') and len(f['p']) == 1 and P.kind(P.deref(f['p'][0]['t'])) == 'range']
def u_group(which):
    """each crossed face gets a triangulation of its own corners and every intersection on it"""
    def unit(eng):
        P = eng.P; gs = groups(P)
        import json
        gs = [f for f in gs if '"%s_triangulations_"' % which in json.dumps(f['body'])]
        if len(gs) != 1: raise Unsupported('the work on the intersections of one face')
        fn = gs[0]; ct = one(P, C + 'insert_intersection')['rec']; l, d = corefine(eng, ct); infos = d['infos_']; n = zi(infos.n)
        rt = P.deref(fn['p'][0]['t']); lo, hi = eng.fresh(I, 'first'), eng.fresh(I, 'last'); eng.assume(z3.And(lo >= 0, lo < hi, hi <= n))
        il = l.f('infos_'); rng = ref(eng, Tup([It(il, lo), It(il, hi)]), rt)
        cols, off = {}, 0
        for nm, ft, _ in P.fields(P.elem(typ_of_field(P, ct, 'infos_'))):
            k = len(eng.leaf_sorts(ft)); cols[nm] = infos.arrs[off:off + k]; off += k
        soup = {s: eng.load(d[s + '_']) if isinstance(d[s + '_'], Loc) else d[s + '_'] for s in ('left', 'right')}
        pts = d['points_'].d['points_']; m = eng.fresh(I, 'any'); seen = eng.new_root(z3.BoolVal(False))
        for s in soup:       # every face of an intersection is a face; the faces of the group are one face of one of the meshes
            soup_wf(eng, soup[s]); v = soup[s]; ids = d[s + '_point_ids_']; fi = cols[s + '_fi'][0]
            eng.assume(z3.And(zi(ids.n) == zi(v.d['points_'].n), zi(ids.lo) == 0, zi(v.d['faces_'].lo) == 0))
            eng.forall(lambda k, fi=fi, v=v: z3.Implies(z3.And(k >= 0, k < n), z3.And(fi[k] >= 0, fi[k] < zi(v.d['faces_'].n))), [fi], pats=lambda k: [fi[k]])
            eng.forall(lambda k, ids=ids: z3.Implies(z3.And(k >= 0, k < zi(ids.n)), z3.And(ids.arrs[0][k] >= 0, ids.arrs[0][k] < zi(pts.n))), ids.arrs, pats=lambda k: [ids.arrs[0][k]])
        OF = {s: eng.fresh(I, 'face_' + s) for s in soup}
        g = z3.BoolVal(which == 'left')
        for s in soup:
            fi = cols[s + '_fi'][0]
            eng.forall(lambda k, s=s, fi=fi: z3.Implies(z3.And(k >= lo, k < hi, g if s == 'left' else z3.Not(g)), fi[k] == OF[s]), [fi], pats=lambda k: [fi[k]])
        cv = lambda e, x: e.load(x) if isinstance(x, Loc) else x
        def emplace(e, f, this, vals):
            p = this.path
            if this.root != l.root or len(p) != 2 or p[0] not in ('left_triangulations_', 'right_triangulations_') or p[1][0] != 'm': raise Unsupported('triangulation made')
            s = p[0].split('_')[0]; e.oblige('the triangulation made is one of this mesh', g if s == 'left' else z3.Not(g))
            if e.g.get('made'): e.oblige('one triangulation is made', z3.BoolVal(False))
            x = [cv(e, y) for y in vals]; v = soup[s]; ids = d[s + '_point_ids_']; F = OF[s]
            k = [ids.arrs[0][at(v.d['faces_'], F, c)] for c in range(3)]
            e.oblige('the triangulation is kept for the face of the group', zi(p[1][1]) == F if p[1][1].sort() == I else p[1][1] == e.key_term(d[p[0]].kt, F))
            code = 7 if s == 'left' else 56
            reg = x[0]; e.oblige('it takes the part of a place that is in this mesh', zb(eq(reg, code)) if isinstance(reg, int) else reg == e.as_sort(code, reg.sort()))
            rot = [z3.And(*[z3.And(zi(x[4 + c]) == k[c], zb(eq(x[1 + c], at(pts, k[c])))) for c in range(3)])]
            e.oblige('it starts with the corners of the face, in their order', z3.Or(*rot))
            ot = f.get('rec'); et = P.elem(ot); e.store(this, Opt(True, e.fresh_of(et, 'triangulation'))); e.g['made'] = s
            return this.f(('o',))
        eng.contracts['std::optional::emplace'] = emplace
        def insert(e, f, this, vals):
            t, i = vals; s = e.g.get('made')
            e.oblige('the intersections go into the triangulation of the face', z3.BoolVal(bool(s) and isinstance(t, Loc) and t.root == l.root and t.path[0] == s + '_triangulations_' and t.path[-1][0] == 'o'))
            if not (isinstance(i, Loc) and i.root == l.root and i.path[0] == 'infos_'): raise Unsupported('intersection inserted')
            k = zi(i.path[1][1]); e.oblige('only intersections on this face are inserted', z3.And(k >= lo, k < hi)); e.mem[seen.root] = z3.Or(zb(e.peek(seen)), k == m); return VOID
        eng.contracts[C + 'insert_intersection'] = insert
        def i_seen(L):
            if not any(r == seen.root for r, _ in L.mods): raise SpecError('not inserting')
            return L.at(seen) == z3.And(m >= lo, m < lo + zi(L.k))
        def i_few(L): return z3.And(zi(L.k) >= 0, zi(L.k) <= hi - lo)
        eng.invs['*'] = [('intersections so far are inserted', i_seen), ('turns', i_few)]
        M0 = {s: d[s + '_triangulations_'] for s in soup}
        for s in soup: eng.assume(z3.Implies(g if s == 'left' else z3.Not(g), M0[s].dom[eng.key_term(M0[s].kt, OF[s])] if not z3.is_int(OF[s]) or len(eng.leaf_sorts(M0[s].kt)) != 1 else M0[s].dom[OF[s]]))
        def post(kind, r):
            eng.oblige('no error', z3.BoolVal(kind == 'ret'))
            if kind != 'ret': return
            eng.oblige('every intersection on the face is inserted', zb(eng.peek(seen)) == z3.And(m >= lo, m < hi))
            eng.oblige('a triangulation is made', z3.BoolVal(bool(eng.g.get('made'))))
        verify(eng, lambda: eng.inline(fn, l, [rng]), post)
    return unit
def units(P):
    return [Unit('Triangulation::insert, %s face' % s, u_insert(s)) for s in ('left', 'right')] + [Unit('Triangulation::insert_in_' + k, u_in(k)) for k in ('edge', 'face')] + [Unit('Triangulation::Triangulation', u_ctor), Unit('Triangulation::get_faces', u_pieces)] + [Unit('Corefine::insert_intersection', u_section), Unit('Corefine::get_intersecting_edges', u_edges)] + [Unit('Corefine::Corefine, one face of the %s mesh' % s, u_group(s)) for s in ('left', 'right')]
