"""C08: one index per distinct coordinate triple (Point_list.h, merging of input vertices in Corefine.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit

ID = 'C08'
LEVEL = 'proof'
HARNESS = {'src': ['C08.cc'], 'seconds': 20}
ASSUME = ['boost::unordered_flat_map with std::equal_to behaves as a finite map when equal keys hash equally (the hash is proved to do so)',
          'CGAL: comparison of points is exact; approx() brackets the exact coordinates; after exact() approx() is the tightest bracket, a function of the exact coordinates',
          'boost::hash_combine is a function of the seed and the number (0.0 and -0.0 hash equally)', 'fewer than 2^48 points']
is_map = lambda P, t: P.kind(t) == 'map'

def ri(eng, v):
    """class invariant: every entry of the map is a stored point with its index"""
    pts, M = v.d['points_'], v.d['point_to_index_']
    n = zi(pts.n)
    return lambda q: z3.Implies(z3.And(zb(v.d['check_uniqueness_']), z3.Select(M.dom, q)), z3.And(M.arrs[0][q] >= 0, M.arrs[0][q] < n, at(pts, M.arrs[0][q]) == q))
def fresh_list(eng, rt):
    v = eng.fresh_of(rt, 'list')
    q = z3.Const('q~', eng.P.sort_of('CGAL::Point_3'))
    eng.forall(ri(eng, v), (), sorts=[q.sort()], pats=lambda q: [v.d['point_to_index_'].dom[q]])
    return v
def inst(eng, v, *qs):
    for q in qs: eng.assume(ri(eng, v)(q))
def oblige_ri(eng, v, *extra):
    q = eng.fresh(eng.P.sort_of('CGAL::Point_3'), 'anykey')
    for f in extra: eng.assume(f(q))
    eng.oblige('every merged point is stored at its index', ri(eng, v)(q))
def u_insert(which):
    def unit(eng):
        P = eng.P
        fns = P.fns('kigumi::Point_list::insert')
        fn = [f for f in fns if bool(P.types[f['p'][0]['t']].get('rv')) == which]
        if not fn: raise Unsupported('Point_list::insert')
        fn = fn[0]; rt = fn['rec']
        v = fresh_list(eng, rt); l = ref(eng, v, rt)
        p = eng.fresh(P.sort_of('CGAL::Point_3'), 'p')
        lp = ref(eng, p, P.deref(fn['p'][0]['t']))
        inst(eng, v, p)
        on = zb(v.d['check_uniqueness_']); M = v.d['point_to_index_']; pts = v.d['points_']; n = zi(pts.n)
        def post(kind, r):
            eng.oblige('inserting raises no error', kind == 'ret')
            w = eng.load(l); pts1 = w.d['points_']; M1 = w.d['point_to_index_']; n1 = zi(pts1.n); r = zi(r)
            eng.oblige('merging stays on or off', Iff(zb(w.d['check_uniqueness_']), on))
            eng.oblige('the index designates a stored point', z3.And(r >= 0, r < n1))
            eng.oblige('the stored point equals the inserted one', at(pts1, r) == p)
            j = eng.fresh(I, 'j'); q = eng.fresh(p.sort(), 'q'); inst(eng, v, q)
            eng.oblige('stored points keep their index', z3.And(n1 >= n, z3.Implies(z3.And(j >= 0, j < n), at(pts1, j) == at(pts, j))))
            eng.oblige('with merging off every insertion appends', z3.Implies(z3.Not(on), z3.And(r == n, n1 == n + 1)))
            eng.oblige('a point equal to an earlier one gets its index', z3.Implies(z3.And(on, M.dom[p]), z3.And(r == M.arrs[0][p], n1 == n)))
            eng.oblige('a new point is appended', z3.Implies(z3.And(on, z3.Not(M.dom[p])), z3.And(r == n, n1 == n + 1)))
            eng.oblige('the point is found again later', z3.Implies(on, z3.And(M1.dom[p], M1.arrs[0][p] == r)))
            eng.oblige('points found before are still found at the same index', z3.Implies(z3.And(on, M.dom[q]), z3.And(M1.dom[q], M1.arrs[0][q] == M.arrs[0][q])))
            eng.oblige('no other point is found', z3.Implies(z3.And(on, M1.dom[q]), z3.Or(q == p, M.dom[q])))
            eng.oblige('every merged point is stored at its index', ri(eng, w)(q))
            if not which: eng.oblige('the inserted point is not changed', eng.load(lp) == p)
        verify(eng, lambda: eng.inline(fn, l, [lp]), post)
    return unit
def u_switch(eng):
    P = eng.P
    for name, want in (('start', True), ('stop', False)):
        fn = P.fn('kigumi::Point_list::%s_uniqueness_check' % name); rt = fn['rec']
        v = fresh_list(eng, rt); l = ref(eng, v, rt)
        if want:
            # merging starts from a list whose map is empty: a new one, or one on which merging was stopped
            eng.forall(lambda q: z3.Not(v.d['point_to_index_'].dom[q]), (), sorts=[P.sort_of('CGAL::Point_3')], pats=lambda q: [v.d['point_to_index_'].dom[q]])
        def post(kind, r, v=v, l=l, want=want, name=name):
            eng.oblige('switching merging raises no error', kind == 'ret')
            w = eng.load(l)
            eng.oblige('merging is switched', Iff(zb(w.d['check_uniqueness_']), want))
            j = eng.fresh(I, 'j')
            eng.oblige('switching merging keeps the points', z3.And(zi(w.d['points_'].n) == zi(v.d['points_'].n), z3.Implies(z3.And(j >= 0, j < zi(v.d['points_'].n)), at(w.d['points_'], j) == at(v.d['points_'], j))))
            q = eng.fresh(P.sort_of('CGAL::Point_3'), 'q')
            eng.oblige('no point from before is merged after a switch', z3.Not(w.d['point_to_index_'].dom[q]))
        verify(eng, lambda fn=fn, l=l: eng.inline(fn, l, []), post)
    ct = P.fn('kigumi::Point_list::Point_list', lambda f: f.get('ctor') and not f['p'])
    def mk():
        l = eng.new_root(None, ct['rec']); eng.construct_at(l, ct, ct['rec'], []); return eng.load(l)
    def post(kind, w):
        q = eng.fresh(P.sort_of('CGAL::Point_3'), 'q')
        eng.oblige('a new list is empty and does not merge', And(kind == 'ret', Not(zb(eng.tobool(w.d['check_uniqueness_']))), eq(eng.vec_len(w.d['points_']), 0), Not(w.d['point_to_index_'].dom[q])))
    verify(eng, mk, post)
def u_read(eng):
    P = eng.P
    ga = P.fn('kigumi::Point_list::at'); rt = ga['rec']
    v = fresh_list(eng, rt); l = ref(eng, v, rt); pts = v.d['points_']; n = zi(pts.n)
    i = eng.fresh(I, 'i'); eng.assume(z3.And(i >= 0, i < 2**64))
    def post(kind, r):
        eng.oblige('an index is answered exactly when it designates a point', (i < n) if kind == 'ret' else (i >= n))
        if kind == 'ret': eng.oblige('the point at an index is the stored one', eng.load(r) == at(pts, i))
    verify(eng, lambda: eng.inline(ga, l, [i]), post)
    verify(eng, lambda: eng.inline(P.fn('kigumi::Point_list::size'), l, []), lambda kind, r: eng.oblige('the size counts the stored points', And(kind == 'ret', eq(r, n))))
    def tk(kind, w):
        j = eng.fresh(I, 'j')
        eng.oblige('the points are handed over in index order', z3.And(kind == 'ret', zi(w.n) == n, z3.Implies(z3.And(j >= 0, j < n), at(w, j) == at(pts, j))))
    verify(eng, lambda: eng.inline(P.fn('kigumi::Point_list::take_points'), l, []), tk)

def u_hash(eng):
    """equal points hash equally, whatever their current approximations"""
    P = eng.P; fn = P.fn('kigumi::Point_3_hash::operator()')
    R = z3.RealSort(); pt = P.sort_of('CGAL::Point_3')
    X = [z3.Function('exact' + c, pt, R) for c in 'xyz']
    lo = z3.Function('tightest_lower', R, R); hi = z3.Function('tightest_upper', R, R)
    isd = z3.Function('is_double', R, z3.BoolSort())
    p = [eng.fresh(pt, 'p%d' % i) for i in (0, 1)]
    inf0 = {}; sup0 = {}
    for k in (0, 1):
        for c in range(3):
            a, b = eng.fresh(R, 'inf'), eng.fresh(R, 'sup'); x = X[c](p[k])
            inf0[k, c], sup0[k, c] = a, b
            eng.assume(z3.And(a <= x, x <= b, isd(a), isd(b), z3.Implies(isd(x), z3.And(lo(x) == x, hi(x) == x)), lo(x) <= x, x <= hi(x), isd(lo(x)), isd(hi(x))))
    for c in range(3): eng.assume(X[c](p[0]) == X[c](p[1]))
    hc = {}
    class A: pass
    st = {}
    def which(e, this):
        v = e.load(this) if isinstance(this, Loc) else this
        for k in (0, 1):
            if is_sym(v) and v.eq(p[k]): return k
        raise Unsupported('approximation of another point')
    def approx(e, f, this, vals): return Obj('approx', k=which(e, this))
    def exact(e, f, this, vals):
        e.g['exact'] = set(e.g.get('exact', ())) | {which(e, this)}; return Obj('exactpoint')
    def coord(c):
        def g(e, f, this, vals):
            o = e.load(this) if isinstance(this, Loc) else this
            if not (isinstance(o, Obj) and o.kind == 'approx'): raise Unsupported('coordinate of something else')
            k = o.d['k']
            if k in e.g.get('exact', ()): return Obj('interval', lo=lo(X[c](p[k])), hi=hi(X[c](p[k])))
            return Obj('interval', lo=inf0[k, c], hi=sup0[k, c])
        return g
    def iv(e, this):
        o = e.load(this) if isinstance(this, Loc) else this
        return o.d
    K = eng.contracts
    K['CGAL::Lazy::approx'] = approx; K['CGAL::Lazy::exact'] = exact; K['CGAL::Lazy_exact_nt::exact'] = exact
    for c, n in enumerate('xyz'): K['CGAL::Point_3::' + n] = coord(c)
    K['CGAL::Interval_nt::is_point'] = lambda e, f, t, v: iv(e, t)['lo'] == iv(e, t)['hi']
    K['CGAL::Interval_nt::inf'] = lambda e, f, t, v: iv(e, t)['lo']
    K['CGAL::Interval_nt::sup'] = lambda e, f, t, v: iv(e, t)['hi']
    def combine(e, f, this, vals):
        x = e.load(vals[1]) if isinstance(vals[1], Loc) else vals[1]
        if not (is_sym(x) and x.sort() == R): raise Unsupported('hash of something other than a number')
        e.store(vals[0], z3.Function('hash_step', I, R, I)(zi(e.load(vals[0])), x)); return VOID
    K['boost::hash_combine'] = combine
    t = P.deref(fn['p'][0]['t'])
    def th():
        o = []
        for k in (0, 1):
            o.append(eng.inline(fn, ref(eng, eng.fresh_of(fn['rec'], 'h'), fn['rec']), [ref(eng, p[k], t)]))
        return Tup(o)
    def post(kind, v):
        eng.oblige('hashing raises no error', kind == 'ret')
        eng.oblige('equal points hash equally', eq(zi(v.xs[0]), zi(v.xs[1])))
    verify(eng, th, post)
def u_map(eng):
    P = eng.P; M = next(t for n, t, f in P.fields(P.fn('kigumi::Point_list::at')['rec']) if P.kind(t) == 'map')
    eng.oblige('points are compared exactly', P.rname(P.targ(M, 3)) == 'std::equal_to')
    eng.oblige('the proved hash is the one in use', P.rname(P.targ(M, 2)) == 'kigumi::Point_3_hash')

def u_corefine(eng):
    """Corefine merges the vertices of both meshes, and nothing else"""
    P = eng.P
    fn = P.fn('kigumi::Corefine::Corefine', lambda f: f.get('ctor') and len(f['p']) == 2)
    st = P.deref(fn['p'][0]['t'])
    L, R = eng.fresh_of(st, 'left'), eng.fresh_of(st, 'right')
    for s in (L, R): soup_wf(eng, s)
    lL, lR = ref(eng, L, st), ref(eng, R, st)
    pls = P.typ('kigumi::Point_list'); pt = P.sort_of('CGAL::Point_3')
    def ins(e, f, this, vals):
        """contract of Point_list::insert, as proved above"""
        v = e.load(this); p = e.load(vals[0]) if isinstance(vals[0], Loc) else vals[0]
        pts, M = v.d['points_'], v.d['point_to_index_']
        if isinstance(pts, PyVec): pts = e.pyvec_to_vec(pts, P.types[pls] and P.elem(next(t for n, t, _ in P.fields(pls) if n == 'points_')))
        on = zb(e.tobool(v.d['check_uniqueness_'])); n = zi(pts.n)
        found = z3.And(on, z3.Select(M.dom, p)); r = e.fresh(I, 'index')
        e.assume(z3.Implies(z3.And(on, z3.Select(M.dom, p)), z3.And(M.arrs[0][p] >= 0, M.arrs[0][p] < n, at(pts, M.arrs[0][p]) == p)))
        e.assume(r == z3.If(found, M.arrs[0][p], n))
        q = Vec(pts.et, z3.If(found, n, n + 1), [z3.If(found, pts.arrs[0], z3.Store(pts.arrs[0], n + zi(pts.lo), p))], pts.lo)
        d = dict(v.d); d['points_'] = q
        d['point_to_index_'] = MapV(M.kt, M.vt, z3.If(on, z3.Store(M.dom, p, True), M.dom), [z3.If(on, z3.Store(M.arrs[0], p, r), M.arrs[0])], z3.If(z3.And(on, z3.Not(found)), zi(M.size) + 1, zi(M.size)))
        e.store(this, Rec(v.t, d))
        return r
    eng.contracts['kigumi::Point_list::insert'] = ins
    def plist(Lc): return Lc.this(type=lambda P_, t: P_.rname(t) == 'kigumi::Point_list')
    done = {}
    class Done(PathEnd): pass
    def fcf(e, f, this, vals):
        l, r, lp, rp = [e.load(x) if isinstance(x, Loc) else x for x in vals]
        o = e.g['self']; pl = e.load(o).d['points_']; pts = pl.d['points_']
        n = zi(pts.n)
        e.oblige('both meshes are passed on', And(eq(l.d['points_'].n, L.d['points_'].n), eq(r.d['points_'].n, R.d['points_'].n), *[eq(a, b) for a, b in zip(l.d['points_'].arrs + r.d['points_'].arrs, L.d['points_'].arrs + R.d['points_'].arrs)]))
        i, j = e.fresh(I, 'i'), e.fresh(I, 'j')
        both = ((lp, L, 'first'), (rp, R, 'second'))
        for ids, m, nm in both:
            e.oblige('one index per vertex of the %s mesh' % nm, eq(ids.n, m.d['points_'].n))
            e.oblige('a vertex of the %s mesh keeps its coordinates' % nm, z3.Implies(z3.And(i >= 0, i < zi(ids.n)), z3.And(at(ids, i) >= 0, at(ids, i) < n, at(pts, at(ids, i)) == at(m.d['points_'], i))))
        for x, (ids, m, nm) in enumerate(both):
            for ids2, m2, nm2 in both[x:]:
                e.oblige('vertices are merged exactly when their coordinates are equal (%s/%s)' % (nm, nm2), z3.Implies(z3.And(i >= 0, i < zi(ids.n), j >= 0, j < zi(ids2.n)), (at(ids, i) == at(ids2, j)) == (at(m.d['points_'], i) == at(m2.d['points_'], j))))
        e.oblige('merging ends with the input vertices', Not(e.tobool(pl.d['check_uniqueness_'])))
        raise PathEnd()
    eng.contracts['kigumi::Find_coplanar_faces::operator()'] = fcf
    def idsv(which):
        def g(Lc):
            o = Lc.at(eng.g['self'])
            vs = [n for n, t, f in P.fields(fn['rec']) if P.kind(t) == 'vec' and P.intinfo(P.elem(t)) and P.kind(P.elem(t)) == 'int']
            if len(vs) < 2: raise SpecError('index lists')
            return o.d[vs[which]]
        return g
    def pl(Lc): return Lc.at(eng.g['self']).d[next(n for n, t, f in P.fields(fn['rec']) if P.rname(t) == 'kigumi::Point_list')]
    def i_ids(w):
        m = (L, R)[w]
        def g(Lc):
            ids = idsv(w)(Lc); v = pl(Lc); M = v.d['point_to_index_']
            if isinstance(ids, PyVec): return None
            def h(i):
                p = at(m.d['points_'], i)
                return z3.Implies(z3.And(i >= 0, i < zi(ids.n)), z3.And(M.dom[p], M.arrs[0][p] == at(ids, i)))
            return Quant(h, list(ids.arrs) + list(m.d['points_'].arrs))
        return g
    def i_len(w):
        m = (L, R)[w]
        return lambda Lc: zi(eng.vec_len(idsv(w)(Lc))) <= zi(m.d['points_'].n)
    def i_on(Lc): return zb(eng.tobool(pl(Lc).d['check_uniqueness_']))
    def i_ri(Lc):
        v = pl(Lc); M = v.d['point_to_index_']
        return Quant(ri(eng, v), (), sorts=[pt], pats=lambda q: [M.dom[q]] if z3.is_const(M.dom) and M.dom.decl().kind() == z3.Z3_OP_UNINTERPRETED else [])
    eng.invs['*'] = [('merging is on', i_on), ('every merged point is stored at its index', i_ri), ('vertices of the first mesh are found', i_ids(0)), ('vertices of the second mesh are found', i_ids(1))]
    def th():
        loc = eng.new_root(None, fn['rec']); eng.g['self'] = loc
        eng.construct_at(loc, fn, fn['rec'], [lL, lR])
        return VOID
    def post(kind, v):
        eng.oblige('coincident faces are looked for after the merge', False)
    verify(eng, th, post)
def units(P):
    return [Unit('kigumi::Point_list::insert(const Point&)', u_insert(False)), Unit('kigumi::Point_list::insert(Point&&)', u_insert(True)), Unit('kigumi::Point_list: merging on and off', u_switch),
            Unit('kigumi::Point_list: reading', u_read), Unit('kigumi::Point_3_hash::operator()', u_hash), Unit('kigumi::Point_list: map in use', u_map, lemma=True),
            Unit('kigumi::Corefine::Corefine: merging of vertices', u_corefine)]
