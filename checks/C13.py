"""C13: local classification around an edge (Classify_faces_locally.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from kvc import mesh

ID = 'C13'
HARNESS = {'src': ['C13.cc'], 'seconds': 60}
LEVEL = 'proof'
ASSUME = ['Triangle_mesh::faces_around_edge by its contract (C10): exactly the faces with both ends of the edge, each once',
          'Propagate_face_tags::operator() by its contract (C11): it gives faces without classification the classification of a face of their patch, and the relation to the other operand is the same for all faces of a patch',
          'geometry (CGAL, exact): base1 and base2 of the plane through p with normal q - p turn counterclockwise seen against q - p; signs of the two coordinates tell the octant of a direction, and within an open quadrant the orientation of two directions tells which has the smaller angle',
          'std::sort leaves a permutation of the list in the order of the comparison (proved to be the order of the angles)',
          'around the edge two faces in the same direction have the same third vertex, and at most one face of each operand lies in a direction (the operands are refined and valid)',
          'termination is not proved']

class World:
    """the faces around one edge of a mixed mesh"""
    def __init__(self, eng):
        P = eng.P; self.eng = eng
        self.fn = fn = P.fn('kigumi::Classify_faces_locally::operator()', lambda f: len(f['p']) == 3 and is_mesh(P, P.deref(f['p'][0]['t'])))
        S = self.S = mesh.Mixed(eng, P.deref(fn['p'][0]['t'])); nf = self.nf = S.nf
        soup_wf(eng, S.m)
        et = P.deref(fn['p'][1]['t']); ev = eng.fresh_of(et, 'edge'); self.eloc = ref(eng, ev, et)
        self.e0, self.e1 = [zi(x) for x in eng.flat(ev, et)]
        pn = zi(S.m.d['points_'].n); eng.assume(z3.And(self.e0 >= 0, self.e0 < pn, self.e1 >= 0, self.e1 < pn, self.e0 != self.e1))
        self.bloc = ref(eng, eng.fresh_of(P.deref(fn['p'][2]['t']), 'border'), P.deref(fn['p'][2]['t']))
        self.this = ref(eng, eng.fresh_of(fn['rec'], 'self'), fn['rec'])
        C = self.C = S.m.d['faces_'].arrs
        self.AE = eng.fresh(z3.ArraySort(I, I), 'faces_around_the_edge'); n = self.n = eng.fresh(I, 'number_around'); eng.assume(z3.And(n >= 0, n <= nf, nf < 2**48))
        F = z3.Function; B = z3.BoolSort()
        self.CCW, self.THIRD, self.TRUE = F('same_direction_as_edge', I, B), F('third_vertex', I, I), F('true_relation', I, z3.BitVecSort(8))
        def around(j):
            a = self.AE[j]; c = [x[a] for x in C]; e0, e1 = self.e0, self.e1
            cases = [z3.And(c[i] == e0, c[k] == e1, self.THIRD(a) == c[3 - i - k], self.CCW(a) == (k == (i + 1) % 3)) for i in range(3) for k in range(3) if i != k]
            return z3.Implies(z3.And(j >= 0, j < n), z3.And(a >= 0, a < nf, z3.Or(*cases), self.THIRD(a) != e0, self.THIRD(a) != e1, self.THIRD(a) >= 0, self.THIRD(a) < pn))
        eng.forall(around, [self.AE], pats=lambda j: [self.AE[j]]); self.around = around
        ft = P.typ('kigumi::Index', lambda t: is_face_index(P, t['id']))
        def fae(e, f, this, vals):
            x = e.load(vals[0]) if isinstance(vals[0], Loc) else vals[0]; a, b = [zi(y) for y in e.flat(x, et)]
            e.oblige('the faces around the given edge are asked for', z3.And(a == self.e0, b == self.e1))
            l = e.new_root(Vec(ft, n, [self.AE]), None)
            return Tup([It(l, 0), It(l, n)])
        eng.contracts['kigumi::Triangle_mesh::faces_around_edge'] = fae
        self.geometry()
    def geometry(self):
        eng, P, S = self.eng, self.eng.P, self.S; F = z3.Function; R = z3.RealSort()
        PT, V3, V2, PL = (P.sort_of(x) for x in ('CGAL::Point_3', 'CGAL::Vector_3', 'CGAL::Vector_2', 'CGAL::Plane_3'))
        SUB, DOT, PLANE, B1, B2, VEC, X, Y, ORI = F('minus', PT, PT, V3), F('dot', V3, V3, R), F('plane', PT, V3, PL), F('base1', PL, V3), F('base2', PL, V3), F('vector2', R, R, V2), F('x2', V2, R), F('y2', V2, R), F('orientation2', V2, V2, I)
        self.X, self.Y, self.ORI, self.V2 = X, Y, ORI, V2
        self.ANG = F('angle', V2, R)
        pts = S.m.d['points_'].arrs[0]
        ld = lambda e, x: e.load(x) if isinstance(x, Loc) else x
        C = eng.contracts
        def minus(e, f, this, v):
            a = [ld(e, x) for x in ([this] if this is not None else []) + list(v)]
            if len(a) == 2 and a[0].sort() == PT and a[1].sort() == PT: return SUB(*a)
            raise Unsupported('difference')
        for nm in ('CGAL::operator-', 'CGAL::Point_3::operator-'): C[nm] = minus
        def times(e, f, this, v):
            a = [ld(e, x) for x in ([this] if this is not None else []) + list(v)]
            if len(a) == 2 and a[0].sort() == V3 and a[1].sort() == V3:
                e.assume(DOT(a[0], a[1]) == DOT(a[1], a[0])); return DOT(*a)
            raise Unsupported('product')
        for nm in ('CGAL::operator*', 'CGAL::Vector_3::operator*', 'CGAL::scalar_product'): C[nm] = times
        def ctor(fn_, k):
            def c(e, f, t, v, n=None):
                if len(v) == 1: return ld(e, v[0])
                if len(v) != k: raise Unsupported('constructor')
                r = fn_(*[ld(e, x) for x in v]); return r
            return c
        C['CGAL::Plane_3::Plane_3'] = ctor(PLANE, 2)
        C['CGAL::Plane_3::base1'] = lambda e, f, this, v: B1(ld(e, this)); C['CGAL::Plane_3::base2'] = lambda e, f, this, v: B2(ld(e, this))
        def vec(x, y):
            r = VEC(x, y); eng.assume(z3.And(X(r) == x, Y(r) == y)); return r
        C['CGAL::Vector_2::Vector_2'] = ctor(vec, 2)
        for nm, fu in (('x', X), ('y', Y), ('hx', X), ('hy', Y)): C['CGAL::Vector_2::' + nm] = lambda e, f, this, v, fu=fu: fu(ld(e, this))
        def ori(e, f, this, v):
            a = [ld(e, x) for x in v]
            if len(a) != 2 or a[0].sort() != V2: raise Unsupported('orientation')
            e.assume(z3.And(ORI(*a) >= -1, ORI(*a) <= 1, ORI(*a) == -ORI(a[1], a[0]))); return ORI(*a)
        C['CGAL::orientation'] = ori
        p, q = pts[self.e0], pts[self.e1]; pl = PLANE(p, SUB(q, p))
        self.DIR = lambda w: VEC(DOT(SUB(pts[w], p), B1(pl)), DOT(SUB(pts[w], p), B2(pl)))
        self.DX, self.DY = (lambda w: DOT(SUB(pts[w], p), B1(pl))), (lambda w: DOT(SUB(pts[w], p), B2(pl)))
        # no face around the edge has zero area
        TH = self.THIRD
        eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < self.n), z3.And(z3.Or(self.DX(TH(self.AE[j])) != 0, self.DY(TH(self.AE[j])) != 0), X(self.DIR(TH(self.AE[j]))) == self.DX(TH(self.AE[j])), Y(self.DIR(TH(self.AE[j]))) == self.DY(TH(self.AE[j])))), [self.AE], pats=lambda j: [self.AE[j]])
    def octant(self, v):
        x, y = self.X(v), self.Y(v); If = z3.If
        return If(x > 0, If(y > 0, 1, If(y < 0, 7, 0)), If(x < 0, If(y > 0, 3, If(y < 0, 5, 4)), If(y > 0, 2, 6)))
    def angles(self, v, w):
        """what the two angles have to do with the coordinates"""
        a, b = self.octant(v), self.octant(w); A = self.ANG; o = self.ORI(v, w)
        return z3.And(z3.Implies(a < b, A(v) < A(w)), z3.Implies(b < a, A(w) < A(v)), z3.Implies(z3.And(a == b, a % 2 == 0), z3.And(A(v) == A(w), o == 0)),
                      z3.Implies(z3.And(a == b, a % 2 == 1), z3.And((o > 0) == (A(v) < A(w)), (o < 0) == (A(w) < A(v)))))

class Layout:
    """which scalars of a list element are the face, the third vertex, the direction and the orientation"""
    def __init__(self, W, et):
        eng, P = W.eng, W.eng.P; self.et = et; k = 0; self.fi = self.vi = self.dir = self.ori = None; ints = []
        for n, t, _ in P.fields(et):
            w = len(eng.leaf_sorts(t))
            if is_face_index(P, t): self.fi = k
            elif is_vertex_index(P, t): self.vi = k
            elif P.rname(t) == 'CGAL::Vector_2': self.dir = k
            elif P.rname(t) in ('CGAL::Sign', 'CGAL::Orientation'): self.ori = k
            elif w == 1: ints.append(k)
            k += w
        if None in (self.fi, self.vi, self.dir, self.ori): raise Unsupported('layout of the list of faces around an edge')
        self.ints = ints
def is_list(P, t):
    if P.kind(t) != 'vec': return False
    e = P.elem(t)
    return P.kind(e) == 'rec' and any(is_face_index(P, x) for n, x, _ in P.fields(e)) and any(P.rname(x) in ('CGAL::Sign', 'CGAL::Orientation') for n, x, _ in P.fields(e))

def setup(eng, after_sort):
    """the loop that collects the faces, the sort, the spreading; after_sort(W, Layout, Vec) adds what is known of the order"""
    P = eng.P; W = World(eng); n, nf = W.n, W.nf
    def lists(L):
        out = []
        for nm, t, l in L.vars(frames=True):
            if t is not None and is_list(P, P.deref(t)): out.append(l)
        for n_, t, _ in P.fields(W.fn['rec']):
            if is_list(P, t): out.append(W.this.f(n_))
        if len(out) != 1: raise SpecError('list of faces')
        return out[0]
    def elem(v, y, j):
        """element j describes face AE[j]"""
        a = W.AE[j]; th = W.THIRD(a)
        return dict(face=v.arrs[y.fi][j] == a, vertex=v.arrs[y.vi][j] == th, direction=v.arrs[y.dir][j] == W.DIR(th), orientation=v.arrs[y.ori][j] == z3.If(W.CCW(a), 1, -1), octant=z3.And(*[v.arrs[k][j] == W.octant(W.DIR(th)) for k in y.ints]))
    def i_elem(what):
        def inv(L):
            l = lists(L); v = L.at(l)
            if eng.g.get('sorted') is not None: raise SpecError('sorted')
            y = Layout(W, v.et); j0 = eng.fresh(I, 'j')
            return Quant(lambda j: z3.Implies(z3.And(j >= 0, j < zi(v.n)), elem(v, y, j)[what]), v.arrs, pats=lambda j: [v.arrs[y.fi][j]])
        return inv
    def i_len(L):
        if eng.g.get('sorted') is not None: raise SpecError('sorted')
        return zi(L.at(lists(L)).n) == zi(L.k)
    # a search for a corner: the corners before it are others
    def i_corner(which):
        def inv(L):
            fs = [L.at(l) for nm, t, l in L.vars() if t is not None and P.kind(P.deref(t)) == 'tup' and len(P.tupelems(P.deref(t))) == 3]
            if not fs: raise SpecError('face')
            c = [zi(x) for x in eng.flat(fs[-1], P.typ('std::array', lambda t: P.kind(t['id']) == 'tup' and len(P.tupelems(t['id'])) == 3))]
            xs = [zi(L.at(l)) for nm, t, l in L.vars() if t is not None and P.intinfo(P.deref(t)) and any(r == l.root for r, k in L.mods)]
            if len(xs) != 1: raise SpecError('index')
            x = xs[0]; e = W.e0 if which == 0 else W.e1
            return z3.And(x >= 0, x <= 2, z3.Implies(x > 0, c[0] != e), z3.Implies(x > 1, c[1] != e))
        return inv
    W.lists = lists
    W.base_invs = [('length of the list', i_len)] + [('list: ' + w, i_elem(w)) for w in ('face', 'vertex', 'direction', 'orientation', 'octant')] + [('first end sought', i_corner(0)), ('second end sought', i_corner(1))]
    def sort(e, f, this, vals):
        a, b = [e.load(x) if isinstance(x, Loc) else x for x in vals[:2]]; v = e.load(a.loc)
        if not isinstance(v, Vec) or len(vals) != 3: raise Unsupported('sort')
        y = Layout(W, v.et); cmp = vals[2]
        e.oblige('the whole list is sorted', z3.And(zi(a.idx) == 0, zi(b.idx) == n, zi(v.n) == n, zi(v.lo) == 0))
        j = e.fresh(I, 'any'); e_ = {}
        def c1():
            e.assume(z3.And(j >= 0, j < n)); e.on_read(W.AE, j)
            for x in v.arrs: e.on_read(x, j)
            for w, g in elem(v, y, j).items(): e.oblige('the list describes the faces around the edge: ' + w, g)
        e.explore(c1)
        def c2():
            # any two faces around the edge
            js = [e.fresh(I, 'one'), e.fresh(I, 'another')]; xs = []
            for q in js:
                e.assume(z3.And(q >= 0, q < n)); e.on_read(W.AE, q); a_ = W.AE[q]; th = W.THIRD(a_)
                for x in v.arrs: e.on_read(x, q)
                xs.append(e.vec_get_pure(v, q))
            t1, t2 = [W.THIRD(W.AE[q]) for q in js]; d1, d2 = W.DIR(t1), W.DIR(t2)
            e.assume(z3.And(W.angles(d1, d2), W.angles(d2, d1), W.ORI(d1, d2) == -W.ORI(d2, d1), z3.Implies(t1 != t2, W.ANG(d1) != W.ANG(d2))))
            r = e.tobool(e.call_closure(cmp, [ref(e, x, v.et) for x in xs]))
            e.oblige('the comparison is the order of the angles around the edge', zb(r) == (W.ANG(d1) < W.ANG(d2)))
        e.explore(c2)
        nv = Vec(v.et, v.n, [e.fresh(x.sort(), 'sorted') for x in v.arrs], 0)
        def at_(j):
            a_ = nv.arrs[y.fi][j]
            return z3.Implies(z3.And(j >= 0, j < n), z3.And(a_ >= 0, a_ < nf, nv.arrs[y.vi][j] == W.THIRD(a_), nv.arrs[y.ori][j] == z3.If(W.CCW(a_), 1, -1)))
        e.forall(at_, nv.arrs, pats=lambda j: [x[j] for x in nv.arrs])
        e.store(a.loc, nv); e.g['sorted'] = (y, nv); after_sort(W, y, nv)
        return VOID
    for nm in ('std::sort', 'std::stable_sort'): eng.contracts[nm] = sort
    return W

def nxt(j, n): return z3.If(j + 1 < n, j + 1, 0)

def u_right(eng):
    """both regions locally well defined: every classification given is the true one and none is taken back"""
    P = eng.P; box = {}
    def after(W, y, nv):
        """the order of the angles: membership alternates at the faces of each operand; faces in one direction are neighbours"""
        e = eng; n, S = W.n, W.S; A = z3.ArraySort(I, z3.BoolSort())
        fi, vi, o = nv.arrs[y.fi], nv.arrs[y.vi], nv.arrs[y.ori]
        IN = {True: e.fresh(A, 'in_first'), False: e.fresh(A, 'in_second')}; K = e.fresh(z3.ArraySort(I, I), 'partner')
        T = S.tags
        def other(j): return z3.If(S.left(fi[j]), IN[False][j], IN[True][j])
        def fact(j):
            l, c = S.left(fi[j]), o[j] == 1; k = nxt(j, n); pv = z3.If(j > 0, j - 1, n - 1); cs = [K[j] >= 0, K[j] <= 2]
            for m in (True, False):
                mine = l if m else z3.Not(l)
                cs += [z3.Implies(mine, z3.And(IN[m][j] == c, IN[m][k] == z3.Not(c))), z3.Implies(z3.Not(mine), IN[m][k] == IN[m][j])]
            co = lambda q: z3.If(o[j] == o[q], T['COPLANAR'], T['OPPOSITE'])
            cs += [z3.Implies(K[j] == 1, z3.And(j + 1 < n, K[j + 1] == 2, vi[j] == vi[j + 1], S.left(fi[j]) != S.left(fi[j + 1]), W.TRUE(fi[j]) == co(j + 1))),
                   z3.Implies(K[j] == 2, z3.And(j > 0, K[j - 1] == 1, vi[j] == vi[j - 1], S.left(fi[j]) != S.left(fi[j - 1]), W.TRUE(fi[j]) == co(j - 1))),
                   z3.Implies(K[j] != 1, z3.Or(vi[j] != vi[k], k == j, z3.And(n == 2, K[j] == 2))),
                   z3.Implies(K[j] == 0, z3.And(W.TRUE(fi[j]) == z3.If(other(j), T['INTERIOR'], T['EXTERIOR'])))]
            return z3.Implies(z3.And(j >= 0, j < n), z3.And(*cs))
        e.forall(lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(K[j] >= 0, K[j] <= 2, z3.Implies(K[j] == 2, j > 0), z3.Implies(K[j] == 1, j + 1 < n))), [K], pats=lambda j: [K[j]])
        for x in (fi, vi, o): e.trig.setdefault(x.get_id(), []).append(fact)
        box.update(y=y, nv=nv, K=K, other=other, fact=fact, IN=IN)
    W = setup(eng, after); S, n, nf = W.S, W.n, W.nf; U, T = S.U, S.tags
    tag0 = S.tag0
    def ok0(f): return z3.Implies(z3.And(f >= 0, f < nf), z3.And(z3.Or(tag0[f] == U, tag0[f] == W.TRUE(f)), z3.Or(*[W.TRUE(f) == T[x] for x in ('INTERIOR', 'EXTERIOR', 'COPLANAR', 'OPPOSITE')])))
    eng.forall(ok0, [tag0], pats=lambda f: [tag0[f], W.TRUE(f)])
    def step(x, old): return z3.Or(x == old[0], z3.And(old[0] == U, x == old[1]))
    def tagv(L): return S.tag(L)
    def i_ok(L):
        t = tagv(L); return Quant(lambda f: z3.Implies(z3.And(f >= 0, f < nf), z3.Or(t[f] == tag0[f], z3.And(tag0[f] == U, t[f] == W.TRUE(f)))), [t], pats=lambda f: [t[f]])
    def i_left(L):
        l = L.at(S.mloc).d['face_data_'].arrs[S.ll]; return Quant(lambda f: l[f] == S.left0[f], [l], pats=lambda f: [l[f]])
    def need():
        if eng.g.get('sorted') is None: raise SpecError('not sorted yet')
        return box['nv'], box['y']
    def i_coin(allj):
        def inv(L):
            nv, y = need(); t = tagv(L); K = box['K']; fi = nv.arrs[y.fi]; k = zi(L.k)
            def q(j):
                c = K[j] != 0 if allj else z3.Or(z3.And(K[j] == 1, j < k), z3.And(K[j] == 2, j - 1 < k))
                return z3.Implies(z3.And(j >= 0, j < n, c), t[fi[j]] == W.TRUE(fi[j]))
            return Quant(q, [fi], pats=lambda j: [fi[j], K[j]])
        return inv
    def bools(L): return [(str(nm), l) for nm, t, l in L.vars(frames=True) if t is not None and P.kind(P.deref(t)) == 'bool']
    def sizes(L): return [(str(nm), l) for nm, t, l in L.vars(frames=True) if t is not None and P.intinfo(P.deref(t))]
    def i_start(m):
        """either nothing was decided, or the starting face has its true classification, which is inside or outside"""
        def inv(L):
            nv, y = need(); t = tagv(L); fi = nv.arrs[y.fi]
            ks = [l for nm, l in sizes(L) if any(r == l.root for r, k in L.mods)]; bs = [l for nm, l in bools(L) if any(r == l.root for r, k in L.mods)]
            if m >= len(ks) or len(bs) != 1: raise SpecError('starting position')
            k = zi(L.at(ks[m])); und = zb(L.at(bs[0]))
            return z3.Or(und, z3.And(k >= 0, k < n, t[fi[k]] == W.TRUE(fi[k]), z3.Or(t[fi[k]] == T['INTERIOR'], t[fi[k]] == T['EXTERIOR'])))
        return inv
    def wrap(x): return z3.If(x < n, x, x - n)
    def walk(m):
        """the walk has come m-th candidate start + number of steps"""
        def inv(L):
            nv, y = need(); o = nv.arrs[y.ori]
            st = [l for nm, l in sizes(L) if not any(r == l.root for r, k in L.mods)]
            if m >= len(st): raise SpecError('start')
            md = {r for r, k in L.mods}
            tg = [L.at(l) for nm, t, l in L.vars() if t is not None and P.rname(P.deref(t)) == 'kigumi::Face_tag' and not P.isref(t) and l.root in md]
            os_ = [L.at(l) for nm, t, l in L.vars() if t is not None and P.rname(P.deref(t)) in ('CGAL::Sign', 'CGAL::Orientation') and not P.isref(t) and l.root in md]
            if len(tg) != 1 or len(os_) != 1: raise SpecError('state of the walk')
            w = zi(L.at(st[m])); k = zi(L.k); p = wrap(w + k); q = eng.fresh(I, 'here')
            other = box['other']
            return eng.as_sort(tg[0], z3.BitVecSort(8)), os_[0], w, k, p, o, other
        def inv1(L):
            tg, os_, w, k, p, o, other = inv(L)
            return z3.And(w >= 0, w < n, k <= n)
        def inv2(L):
            tg, os_, w, k, p, o, other = inv(L)
            g = lambda x: z3.And(tg == z3.If(other(x), T['INTERIOR'], T['EXTERIOR']), zi(os_) == o[x])
            return z3.And(w >= 0, w < n, k <= n, z3.Implies(w + k < n, g(w + k)), z3.Implies(w + k >= n, g(w + k - n)))
        return [('steps of the walk (%d)' % m, inv1), ('classification where the walk is (%d)' % m, inv2)]
    eng.invs['*'] = W.base_invs + [('classifications are right and stay', i_ok), ('origins stay', i_left), ('coincident faces passed are classified', i_coin(False)), ('coincident faces are classified', i_coin(True))] + [('the starting face is classified (%d)' % m, i_start(m)) for m in range(3)] + [x for m in range(4) for x in walk(m)]
    def fact(L):
        if eng.g.get('sorted') is None: return []
        tagk = [l for nm, t, l in L.vars() if t is not None and P.rname(P.deref(t)) == 'kigumi::Face_tag' and not P.isref(t) and any(r == l.root for r, kk in L.mods)]
        k = zi(L.k); xs = [k, k + 1, k - 1, z3.IntVal(0)] + [zi(L.at(l)) for nm, l in sizes(L)]
        if len(tagk) == 1:
            xs = [z3.IntVal(0), n - 1]
            for nm, l in sizes(L):
                if not any(r == l.root for r, kk in L.mods):
                    x = zi(L.at(l)); xs += [x, x + k, x + k - n]
        nv, y = need(); out = []
        for x in xs: eng.on_read(nv.arrs[y.fi], x); eng.on_read(nv.arrs[y.ori], x); out.append(box['fact'](x))
        return out
    eng.opts['loop_facts'] = [fact]
    def spread(e, f, this, vals):
        ft = P.deref(f['p'][-1]['t']); fi = None
        for x, q in zip(vals, f['p']):
            if is_face_index(P, P.deref(q['t'])): fi = zi(e.flat(e.load(x) if isinstance(x, Loc) else x, P.deref(q['t']))[0])
        t = e.peek(S.mloc).d['face_data_'].arrs[S.lt]
        e.on_read(t, fi); e.on_read(tag0, fi)
        e.oblige('only a classification that is given and right is spread', z3.And(fi >= 0, fi < nf, t[fi] != U, t[fi] == W.TRUE(fi)))
        t2 = e.fresh(t.sort(), 'tags'); fd = e.peek(S.mloc.f('face_data_'))
        e.forall(lambda g: z3.Implies(z3.And(g >= 0, g < nf), z3.Or(t2[g] == t[g], z3.And(t[g] == U, t2[g] == W.TRUE(g)))), [t2], pats=lambda g: [t2[g]])
        arrs = list(fd.arrs); arrs[S.lt] = t2; e.store(S.mloc.f('face_data_'), Vec(fd.et, fd.n, arrs, fd.lo))
        return e.fresh_of(f['ret'], 'warnings')
    eng.contracts['kigumi::Propagate_face_tags::operator()'] = spread
    def post(kind, r):
        if kind == 'throw': eng.oblige('local classification raises no error', False); return
        v = eng.peek(S.mloc); t = v.d['face_data_'].arrs[S.lt]; f = eng.fresh(I, 'any_face'); eng.assume(z3.And(f >= 0, f < nf))
        for x in v.d['face_data_'].arrs + [tag0]: eng.on_read(x, f)
        eng.oblige('a face is classified as it is, or not at all', z3.Or(t[f] == U, t[f] == W.TRUE(f)))
        eng.oblige('a classified face keeps its classification', z3.Or(tag0[f] == U, t[f] == tag0[f]))
        eng.oblige('faces keep their origin', v.d['face_data_'].arrs[S.ll][f] == S.left0[f])
    verify(eng, lambda: eng.inline(W.fn, W.this, [S.mloc, W.eloc, W.bloc]), post)

def u_contra(eng):
    """the marks around the edge contradict each other: faces that no neighbour decides stay without classification"""
    P = eng.P; box = {}
    def after(W, y, nv):
        e = eng; n, S = W.n, W.S; T = S.tags
        fi, vi, o = nv.arrs[y.fi], nv.arrs[y.vi], nv.arrs[y.ori]
        POS = z3.Function('position_of_face', I, I); X = e.fresh(z3.ArraySort(I, z3.BoolSort()), 'parity'); odd = e.fresh(z3.BoolSort(), 'odd')
        e.forall(lambda j: z3.Implies(z3.And(j >= 0, j < n), POS(fi[j]) == j), [fi], pats=lambda j: [fi[j]])
        LON = e.fresh(z3.ArraySort(I, z3.BoolSort()), 'no_neighbour_decides')
        def fact(j):
            k = nxt(j, n); pv = z3.If(j > 0, j - 1, n - 1)
            return z3.Implies(z3.And(j >= 0, j < n), z3.And(LON[j] == z3.And(vi[j] != vi[k], vi[j] != vi[pv], o[j] != o[k], o[j] != o[pv]), X[k] == z3.Xor(z3.Xor(X[j], o[j] == o[k]), z3.And(odd, j == n - 1))))
        for x in (fi, vi, o): e.trig.setdefault(x.get_id(), []).append(fact)
        a, b = e.fresh(I, 'one_mark'), e.fresh(I, 'another_mark'); t0 = S.tag0; mk = lambda q: z3.And(q >= 0, q < n, LON[q], z3.Or(t0[fi[q]] == T['INTERIOR'], t0[fi[q]] == T['EXTERIOR']))
        for q in (a, b): e.on_read(fi, q); e.on_read(t0, fi[q])
        e.assume(z3.Or(odd, z3.And(mk(a), mk(b), z3.Xor(t0[fi[a]] == T['INTERIOR'], X[a]) != z3.Xor(t0[fi[b]] == T['INTERIOR'], X[b]))))
        box.update(y=y, nv=nv, X=X, odd=odd, LON=LON, POS=POS, fact=fact, a=a, b=b)
    W = setup(eng, after); S, n, nf = W.S, W.n, W.nf; U, T = S.U, S.tags; tag0 = S.tag0
    def need():
        if eng.g.get('sorted') is None: raise SpecError('not sorted yet')
        return box['nv'], box['y']
    def marked(x): return z3.Or(x == T['INTERIOR'], x == T['EXTERIOR'])
    def i_same(L):
        if eng.g.get('sorted') is not None: raise SpecError('sorted')
        t = S.tag(L); return Quant(lambda f: t[f] == tag0[f], [t], pats=lambda f: [t[f]])
    def i_lonely(L):
        nv, y = need(); t = S.tag(L); fi = nv.arrs[y.fi]; LON = box['LON']
        return Quant(lambda j: z3.Implies(z3.And(j >= 0, j < n, LON[j]), t[fi[j]] == tag0[fi[j]]), [fi], pats=lambda j: [fi[j], LON[j]])
    def i_left(L):
        l = L.at(S.mloc).d['face_data_'].arrs[S.ll]; return Quant(lambda f: l[f] == S.left0[f], [l], pats=lambda f: [l[f]])
    def bools(L): return [(str(nm), l) for nm, t, l in L.vars(frames=True) if t is not None and P.kind(P.deref(t)) == 'bool']
    def sizes(L): return [(str(nm), l) for nm, t, l in L.vars(frames=True) if t is not None and P.intinfo(P.deref(t))]
    def i_start(m):
        def inv(L):
            nv, y = need(); t = S.tag(L); fi = nv.arrs[y.fi]
            ks = [l for nm, l in sizes(L) if any(r == l.root for r, k in L.mods)]; bs = [l for nm, l in bools(L) if any(r == l.root for r, k in L.mods)]
            if m >= len(ks) or len(bs) != 1: raise SpecError('starting position')
            k = zi(L.at(ks[m])); und = zb(L.at(bs[0]))
            return z3.Or(und, z3.And(k >= 0, k < n, marked(t[fi[k]])))
        return inv
    def walk(m):
        def inv(L):
            nv, y = need(); o = nv.arrs[y.ori]; fi = nv.arrs[y.fi]; t = S.tag(L)
            st = [l for nm, l in sizes(L) if not any(r == l.root for r, k in L.mods)]
            if m >= len(st): raise SpecError('start')
            md = {r for r, k in L.mods}
            tg = [L.at(l) for nm, t_, l in L.vars() if t_ is not None and P.rname(P.deref(t_)) == 'kigumi::Face_tag' and not P.isref(t_) and l.root in md]
            os_ = [L.at(l) for nm, t_, l in L.vars() if t_ is not None and P.rname(P.deref(t_)) in ('CGAL::Sign', 'CGAL::Orientation') and not P.isref(t_) and l.root in md]
            if len(tg) != 1 or len(os_) != 1: raise SpecError('state of the walk')
            w = zi(L.at(st[m])); k = zi(L.k); c = z3.Xor(t[fi[w]] == T['INTERIOR'], box['X'][w])
            return eng.as_sort(tg[0], z3.BitVecSort(8)), os_[0], w, k, o, fi, t, c
        def inv1(L):
            tg, os_, w, k, o, fi, t, c = inv(L)
            return z3.And(w >= 0, w < n, k < n)
        def inv2(L):
            tg, os_, w, k, o, fi, t, c = inv(L); X, odd = box['X'], box['odd']
            g = lambda x, wr: z3.And(marked(tg), (tg == T['INTERIOR']) == z3.Xor(z3.Xor(c, X[x]), z3.And(odd, wr)), zi(os_) == o[x])
            return z3.And(w >= 0, w < n, k <= n, z3.Implies(w + k < n, g(w + k, z3.BoolVal(False))), z3.Implies(w + k >= n, g(w + k - n, z3.BoolVal(True))))
        def inv3(L):
            tg, os_, w, k, o, fi, t, c = inv(L); X, odd = box['X'], box['odd']
            def q(j):
                early = z3.And(j > w, j <= w + k); late = j <= w + k - n
                return z3.Implies(z3.And(j >= 0, j < n, z3.Or(early, late), marked(t[fi[j]])), (t[fi[j]] == T['INTERIOR']) == z3.Xor(z3.Xor(c, X[j]), z3.And(odd, late)))
            return Quant(q, [fi], pats=lambda j: [fi[j], X[j]])
        return [('state of the walk (%d)' % m, inv2), ('marks passed agree (%d)' % m, inv3), ('the walk ends early (%d)' % m, inv1)]
    eng.invs['*'] = W.base_invs + [('no classification before the order is known', i_same), ('undecided faces stay as they are', i_lonely), ('origins stay', i_left)] + [('the starting face is classified (%d)' % m, i_start(m)) for m in range(3)] + [x for m in range(4) for x in walk(m)]
    def fact(L):
        if eng.g.get('sorted') is None: return []
        k = zi(L.k); xs = [k, k + 1, k - 1, z3.IntVal(0)] + [zi(L.at(l)) for nm, l in sizes(L)]
        if any(t is not None and P.rname(P.deref(t)) == 'kigumi::Face_tag' and not P.isref(t) and any(r == l.root for r, kk in L.mods) for nm, t, l in L.vars()):
            xs = [z3.IntVal(0), n - 1, box['a'], box['b']]
            for nm, l in sizes(L):
                if not any(r == l.root for r, kk in L.mods):
                    x = zi(L.at(l)); xs += [x, x + k, x + k - n]
        nv, y = need(); out = []
        for x in xs: eng.on_read(nv.arrs[y.fi], x); eng.on_read(nv.arrs[y.ori], x); out.append(box['fact'](x))
        return out
    eng.opts['loop_facts'] = [fact]
    def spread(e, f, this, vals):
        fi_ = None
        for x, q in zip(vals, f['p']):
            if is_face_index(P, P.deref(q['t'])): fi_ = zi(e.flat(e.load(x) if isinstance(x, Loc) else x, P.deref(q['t']))[0])
        t = e.peek(S.mloc).d['face_data_'].arrs[S.lt]; e.on_read(t, fi_)
        e.oblige('only a classification that is given is spread', z3.And(fi_ >= 0, fi_ < nf, t[fi_] != U))
        t2 = e.fresh(t.sort(), 'tags'); fd = e.peek(S.mloc.f('face_data_')); nv, y = need(); fi = nv.arrs[y.fi]
        e.forall(lambda j: z3.Implies(z3.And(j >= 0, j < n, box['LON'][j]), t2[fi[j]] == t[fi[j]]), [fi], pats=lambda j: [fi[j], box['LON'][j]])
        arrs = list(fd.arrs); arrs[S.lt] = t2; e.store(S.mloc.f('face_data_'), Vec(fd.et, fd.n, arrs, fd.lo))
        return e.fresh_of(f['ret'], 'warnings')
    eng.contracts['kigumi::Propagate_face_tags::operator()'] = spread
    def post(kind, r):
        if kind == 'throw': eng.oblige('local classification raises no error', False); return
        v = eng.peek(S.mloc); t = v.d['face_data_'].arrs[S.lt]
        for x in v.d['face_data_'].arrs + [tag0]: pass
        if eng.g.get('sorted') is None:
            f = eng.fresh(I, 'any_face'); eng.assume(z3.And(f >= 0, f < nf)); eng.on_read(t, f)
            eng.oblige('a face keeps what it has', t[f] == tag0[f]); return
        nv, y = need(); fi = nv.arrs[y.fi]; j = eng.fresh(I, 'any'); eng.assume(z3.And(j >= 0, j < n, box['LON'][j])); eng.on_read(fi, j); eng.on_read(t, fi[j])
        eng.oblige('around a contradictory edge a face that no neighbour decides stays as it is', t[fi[j]] == tag0[fi[j]])
    verify(eng, lambda: eng.inline(W.fn, W.this, [S.mloc, W.eloc, W.bloc]), post)

def units(P):
    return [Unit('kigumi::Classify_faces_locally::operator() (both regions well defined)', u_right),
            Unit('kigumi::Classify_faces_locally::operator() (contradictory marks)', u_contra)]
