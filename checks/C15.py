"""C15: point location (Side_of_triangle_soup.h, Region.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from kvc.tree import *

ID = 'C15'
HARNESS = {'src': ['C15.cc'], 'seconds': 60}
LEVEL = 'proof'
ASSUME = ['AABB_tree::get_intersecting_leaves and Triangle_soup::aabb_tree by their contracts (C05)',
          'geometry (CGAL, exact): a ray that starts at a point of a triangle meets it in that point or in a segment that ends there; a triangle met by a ray has a box met by it; the centroid of a triangle lies in it',
          'geometry (mathematics): if the point that a ray from p reaches first among all the single-point intersections with the faces of the boundary of a region belongs to one face only, p is on the side of that face on which it is of the region',
          'CGAL::intersection of a triangle and a ray is nothing, a point or a segment']

class Geometry:
    """a soup, a point and what is assumed of the kernel"""
    def __init__(self, eng, sv, pv, soup_loc):
        self.eng = eng; P = eng.P; F = z3.Function
        self.tr = SoupTree(eng, sv, 'soup'); nf = self.nf = self.tr.nf
        S = lambda nn: P.sort_of(nn)
        PT, TR, RY, SG = S('CGAL::Point_3'), S('CGAL::Triangle_3'), S('CGAL::Ray_3'), S('CGAL::Segment_3'); VR = S('boost::variant')
        self.sorts = (PT, TR, RY, VR)
        B = z3.BoolSort(); R = z3.RealSort()
        TRI, CEN, SIDE = F('face_triangle', I, TR), F('face_centre', I, PT), F('side_of_face', I, I)
        T3, C3, O4, R2, SQ = F('triangle', PT, PT, PT, TR), F('centroid', PT, PT, PT, PT), F('orientation', PT, PT, PT, PT, I), F('ray', PT, PT, RY), F('squared_distance', PT, PT, R)
        HAS, IS, ISP, ISS, PO, SE = F('meets', TR, RY, B), F('intersection', TR, RY, VR), F('is_point', VR, B), F('is_segment', VR, B), F('the_point', VR, PT), F('the_segment', VR, SG)
        SRC, TGT, ON = F('source', SG, PT), F('target', SG, PT), F('lies_on', TR, B)
        HASF, PTF, DF = F('ray_meets_face', I, RY, B), F('meets_in_point', I, RY, B), F('distance_along', I, RY, R)
        self.TRI, self.SIDE, self.ON, self.HASF, self.PTF, self.DF = TRI, SIDE, ON, HASF, PTF, DF
        self.f0 = f0 = eng.fresh(I, 'face_with_point'); self.OFF = eng.fresh(B, 'off_the_boundary'); self.TRUE = eng.fresh(I, 'side'); rival = F('rival', I, RY, I)
        eng.assume(z3.And(z3.Or(self.TRUE == 1, self.TRUE == -1), z3.Implies(z3.Not(self.OFF), z3.And(f0 >= 0, f0 < nf, ON(TRI(f0))))))
        F0 = sv.d['faces_'].arrs[0]; inr = lambda f: z3.And(f >= 0, f < nf)
        def same(f):
            a, b, c = corners(sv, f)
            return z3.Implies(inr(f), z3.And(T3(a, b, c) == TRI(f), C3(a, b, c) == CEN(f), O4(a, b, c, pv) == SIDE(f), z3.Implies(pv == CEN(f), ON(TRI(f)))))
        eng.forall(same, [F0], pats=lambda f: [F0[f]])
        eng.forall(lambda f: z3.Implies(inr(f), z3.Implies(self.OFF, z3.Not(ON(TRI(f))))), pats=lambda f: [TRI(f)])
        # rays start at the point
        def ray(f, r):
            x = IS(TRI(f), r)
            return z3.Implies(inr(f), z3.And(HASF(f, r) == HAS(TRI(f), r), PTF(f, r) == ISP(x), DF(f, r) == SQ(pv, PO(x)), z3.Implies(HASF(f, r), meets(eng, self.tr.FB(f), r)),
                 z3.Implies(HASF(f, r), ISP(x) != ISS(x)),
                 z3.Implies(z3.And(HASF(f, r), ISP(x), PO(x) == pv), ON(TRI(f))), z3.Implies(z3.And(HASF(f, r), ISS(x), z3.Or(SRC(SE(x)) == pv, TGT(SE(x)) == pv)), ON(TRI(f))),
                 z3.Implies(ON(TRI(f)), z3.And(HASF(f, r), z3.Implies(ISP(x), PO(x) == pv), z3.Implies(ISS(x), z3.Or(SRC(SE(x)) == pv, TGT(SE(x)) == pv))))))
        self.ray_facts = ray
        eng.forall(ray, sorts=[I, RY], pats=lambda f, r: [IS(TRI(f), r), HASF(f, r)])
        def first(g, r):
            h = rival(g, r)
            return z3.Implies(z3.And(self.OFF, inr(g), HASF(g, r), PTF(g, r), SIDE(g) != self.TRUE), z3.And(inr(h), h != g, HASF(h, r), PTF(h, r), DF(h, r) <= DF(g, r)))
        eng.forall(first, sorts=[I, RY], pats=lambda g, r: [z3.MultiPattern(SIDE(g), HASF(g, r))])
        ld = lambda e, x: e.load(x) if isinstance(x, Loc) else x
        def op(fn): return lambda e, f, this, v, *n: fn(*[ld(e, x) for x in v])
        C = eng.contracts
        C['CGAL::centroid'] = op(lambda a, b, c: C3(a, b, c)); C['CGAL::orientation'] = op(lambda a, b, c, q: O4(a, b, c, q)); C['CGAL::squared_distance'] = op(lambda a, b: SQ(a, b))
        def ray_ctor(e, f, t, v, n=None):
            if len(v) == 1: return ld(e, v[0])
            a, b = [ld(e, x) for x in v]
            e.oblige('rays are shot from the point asked about', a == pv); r = R2(a, b); e.g['ray'] = r; return r
        C['CGAL::Ray_3::Ray_3'] = ray_ctor
        C['CGAL::Triangle_3::Triangle_3'] = lambda e, f, t, v, n=None: T3(*[ld(e, x) for x in v]) if len(v) == 3 else ld(e, v[0])
        def meet(e, f, this, v):
            a, b = [ld(e, x) for x in v]
            if a.sort() != TR: a, b = b, a
            return Opt(HAS(a, b), IS(a, b))
        C['CGAL::intersection'] = meet
        C['CGAL::do_intersect'] = lambda e, f, this, v: (lambda a, b: HAS(a, b) if a.sort() == TR else meets(e, a, b))(*[ld(e, x) for x in v])
        def get_if(e, f, this, v):
            q = v[0]; q = e.load(q) if isinstance(q, Loc) else q; x = e.load(e.resolve(q) if not isinstance(q, Ptr) or not isinstance(q.loc, Loc) else q.loc); to = P.rname(P.types[f['ret']]['to'])
            if to == 'CGAL::Point_3': return Ptr(e.new_root(PO(x)), ISP(x))
            if to == 'CGAL::Segment_3': return Ptr(e.new_root(SE(x)), ISS(x))
            raise Unsupported('alternative asked of an intersection')
        C['std::get_if'] = get_if; C['boost::get'] = get_if
        C['CGAL::Segment_3::source'] = lambda e, f, this, v: SRC(e.load(this)); C['CGAL::Segment_3::target'] = lambda e, f, this, v: TGT(e.load(this))
        self.H = Hits(eng)
        def tree(e, f, this, vals):
            if not this.same(soup_loc): raise Unsupported('tree asked for')
            return self.tr.loc
        def search(e, f, this, vals):
            if not (isinstance(this, Loc) and this.same(self.tr.loc)): raise Unsupported('tree searched')
            out, q, node, ns = hit_args(e, self.tr, f, vals)
            deliver(e, self.tr, self.H, out, q, z3.IntVal(0), nf); return VOID
        C['kigumi::Triangle_soup::aabb_tree'] = tree; C['kigumi::AABB_tree::get_intersecting_leaves'] = search

def u_side(eng):
    P = eng.P; fn = P.fn('kigumi::Side_of_triangle_soup::operator()'); st = P.deref(fn['p'][0]['t'])
    sv = eng.fresh_of(st, 'soup'); soup_wf(eng, sv); loc = ref(eng, sv, st)
    pv = eng.fresh_of(P.deref(fn['p'][1]['t']), 'p'); p = ref(eng, pv, P.deref(fn['p'][1]['t']))
    G = Geometry(eng, sv, pv, loc)
    eng.opts['sort_cmp'] = True
    this = ref(eng, eng.fresh_of(fn['rec'], 'locator'), fn['rec'])
    is_rec = lambda P_, t: P_.kind(t) == 'vec' and P_.kind(P_.elem(t)) == 'rec' and set(str(s) for s in eng.leaf_sorts(P_.elem(t))) == {'Real', 'Int'} and len(eng.leaf_sorts(P_.elem(t))) == 2
    is_hits = lambda P_, t: P_.kind(t) == 'vec' and P_.kind(P_.elem(t)) == 'ptr'
    AT = eng.new_root(eng.fresh(z3.ArraySort(I, I), 'recorded_at'))
    def cols(v):
        a, b = v.arrs
        return (a, b) if b.sort() == z3.ArraySort(I, I) else (b, a)
    def on_push(e, loc_, x):
        v = e.peek(loc_)
        et = v.et if isinstance(v, Vec) else P.elem(e.rtype[loc_.root]) if not loc_.path else None
        if isinstance(x, Rec) and len(e.flat(x, x.t)) == 2:
            l = e.flat(x, x.t); f = l[0] if l[0].sort() == I else l[1]
            M = e.peek(AT); M2 = e.fresh(M.sort(), 'recorded_at'); e.assume(M2 == z3.Store(M, f, zi(e.vec_len(v)))); e.mem[AT.root] = M2
    eng.opts['on_append'] = on_push
    def vecs(L):
        """the list of hits and the list of single-point intersections"""
        out = []
        for kind in (is_hits, is_rec):
            l = None
            c = [l_ for n, t, l_ in L.vars(frames=True) if t is not None and isinstance(l_, Loc) and kind(P, P.deref(t))] + [this.f(n) for n, t, _ in P.fields(fn['rec']) if kind(P, t)]
            if not c: raise SpecError('list')
            out.append(L.at(c[0]))
            if kind is is_rec: eng.g['recorded'] = c[0]
        v = out[1]
        if not isinstance(v, Vec) or not isinstance(out[0], Vec): raise SpecError('list')
        return out
    def ray(L):
        r = eng.g.get('ray')
        if r is None: raise SpecError('no ray')
        return r
    def i_entries(L):
        h, v = vecs(L); D, Fi = cols(v); r = ray(L)
        return Quant(lambda k: z3.Implies(z3.And(k >= 0, k < zi(v.n)), z3.And(Fi[k] >= 0, Fi[k] < G.nf, G.HASF(Fi[k], r), G.PTF(Fi[k], r), D[k] == G.DF(Fi[k], r))), [D, Fi], pats=lambda k: [Fi[k], D[k]])
    def i_seen(L):
        h, v = vecs(L); D, Fi = cols(v); r = ray(L); X = h.arrs[1]; M = L.at(AT)
        def f(j):
            g = G.tr.face[X[j]]
            return z3.Implies(z3.And(j >= 0, j < zi(L.k)), z3.And(z3.Not(G.ON(G.TRI(g))), z3.Implies(z3.And(G.HASF(g, r), G.PTF(g, r)), z3.And(M[g] >= 0, M[g] < zi(v.n), Fi[M[g]] == g))))
        return Quant(f, [X], pats=lambda j: [X[j]])
    eng.invs['*'] = [('every intersection recorded is a single point of that face and ray, at its distance', i_entries), ('every face met so far does not contain the point and is recorded if met in one point', i_seen)]
    def post(kind, v):
        if kind == 'throw': return
        v = zi(eng.load(v) if isinstance(v, Loc) else v)
        r = eng.g.get('ray')
        if r is not None:
            eng.assume(G.ray_facts(G.f0, r)); PL = G.H.term(); w = G.tr.WH(G.f0); eng.on_read(PL, w); eng.on_read(G.tr.face, w)
        if r is not None and 'recorded' in eng.g and conc(z3.simplify(v)) != 0:
            h = eng.fresh(I, 'any_face'); w = eng.peek(eng.g['recorded']); M = eng.peek(AT); perm = eng.g.get('last_perm')
            if isinstance(w, Vec):
                D, Fi = cols(w); pos = (lambda h: perm[1](M[h])) if perm else (lambda h: M[h])
                good = lambda h: z3.And(pos(h) >= 0, pos(h) < zi(w.n), Fi[pos(h)] == h, D[pos(h)] == G.DF(h, r))
                def c():
                    eng.assume(z3.And(h >= 0, h < G.nf, G.HASF(h, r), G.PTF(h, r))); l = G.tr.WH(h); eng.on_read(PL, l); eng.on_read(G.tr.face, l); eng.on_read(Fi, pos(h))
                    eng.oblige('every face met in a single point is recorded with its distance', good(h))
                eng.explore(c)
                eng.forall(lambda h: z3.Implies(z3.And(h >= 0, h < G.nf, G.HASF(h, r), G.PTF(h, r)), good(h)), pats=lambda h: [G.HASF(h, r)])
        eng.oblige('boundary is answered for every point of a face', z3.Implies(z3.Not(G.OFF), v == 0))
        eng.oblige('boundary is answered only for points of a face; otherwise the side answered is the side the point is on', z3.Implies(G.OFF, v == G.TRUE))
    verify(eng, lambda: eng.inline(fn, this, [loc, p]), post)

def u_region(eng):
    """empty: everything is outside; full: everything is inside; otherwise the side of the boundary, with inside on the negative side"""
    P = eng.P; fn = [f for f in P.fns('kigumi::Region::bounded_side') if f.get('body') is not None]
    if not fn: raise Unsupported('bounded_side')
    consts = P.types[P.typ('kigumi::Region_kind')]['consts']
    for fn in fn:
        t = fn['rec']; d = {n: eng.fresh_of(ft, n) for n, ft, _ in P.fields(t)}
        if 'kind_' not in d or 'boundary_' not in d: raise Unsupported('fields of a region')
        loc = ref(eng, Rec(t, d), t); kd = eng.flat(d['kind_'], dict((n, ft) for n, ft, _ in P.fields(t))['kind_'])[0]
        pv = eng.fresh_of(P.deref(fn['p'][0]['t']), 'p'); p = ref(eng, pv, P.deref(fn['p'][0]['t']))
        TRUE, OFF = eng.fresh(I, 'side'), eng.fresh(z3.BoolSort(), 'off_the_boundary'); eng.assume(z3.Or(TRUE == 1, TRUE == -1))
        def side(e, f, this, v, loc=loc):
            e.oblige('the side is asked of the boundary of this region and this point', z3.BoolVal(isinstance(v[0], Loc) and v[0].same(loc.f('boundary_'))) if not isinstance(v[1], Loc) else z3.And(z3.BoolVal(isinstance(v[0], Loc) and v[0].same(loc.f('boundary_'))), e.load(v[1]) == pv))
            if e.branch(e.fresh(z3.BoolSort(), 'refused')):
                from kvc.lib import throw
                throw(e, 'std::runtime_error')
            return z3.If(OFF, TRUE, z3.IntVal(0))
        eng.contracts['kigumi::Side_of_triangle_soup::operator()'] = side
        EM, FU = z3.BitVecVal(consts['EMPTY'], 8), z3.BitVecVal(consts['FULL'], 8); kd = kd if z3.is_bv(kd) else z3.Int2BV(kd, 8)
        eng.assume(z3.Or(*[kd == z3.BitVecVal(x, 8) for x in consts.values()]))
        def post(kind, v):
            if kind == 'throw': eng.oblige('only regions with a boundary are refused', z3.And(kd != EM, kd != FU)); return
            v = zi(eng.load(v) if isinstance(v, Loc) else v)
            eng.oblige('nothing is inside the empty set', z3.Implies(kd == EM, v == -1))
            eng.oblige('everything is inside the universe', z3.Implies(kd == FU, v == 1))
            eng.oblige('inside is the negative side of the boundary', z3.Implies(z3.And(kd != EM, kd != FU), v == z3.If(OFF, -TRUE, z3.IntVal(0))))
        verify(eng, lambda: eng.inline(fn, loc, [p]), post)

def units(P): return [Unit('kigumi::Side_of_triangle_soup::operator()', u_side), Unit('kigumi::Region::bounded_side', u_region)]
