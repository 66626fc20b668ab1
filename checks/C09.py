"""C09: one consistent point per symbolic intersection (Intersection_point_inserter.h)."""
import z3, itertools
from kvc.spec import *
from kvc.unit import Unit
from kvc.lib import throw

ID = 'C09'
LEVEL = 'proof'
HARNESS = {'src': ['C09.cc'], 'seconds': 30}
ASSUME = ['CGAL Construct_line_line/plane_line_intersection_point_3 return a point on both features they are given, computed exactly',
          'boost::unordered_flat_map with boost::hash behaves as a finite map', 'the vertex indices of two different features that meet in one point are distinct where the property needs it: edges that meet in their interiors share no vertex',
          'Point_list::insert and Point_list::at by the contracts proved for C08; fewer than 2^48 points']
N = 'kigumi::Intersection_point_inserter::'

def pt(eng): return eng.P.sort_of('CGAL::Point_3')
def line(eng): return z3.Function('on_line', pt(eng), pt(eng), pt(eng), z3.BoolSort())
def plane(eng): return z3.Function('on_plane', pt(eng), pt(eng), pt(eng), pt(eng), z3.BoolSort())
def same_set(xs, ys): return z3.Or(*[z3.And(*[x == y for x, y in zip(xs, p)]) for p in itertools.permutations(ys)])
def on(eng, p, feat, idx):
    """the point lies on the feature with these points: membership does not depend on their order"""
    F = line(eng) if len(feat) == 2 else plane(eng)
    # one representative argument order, chosen by the indices, so that every order of the same feature means the same fact
    if len(feat) == 2:
        (a, b), (i, j) = feat, idx
        return z3.If(i < j, F(p, a, b), F(p, b, a))
    out = F(p, *feat)
    for perm in itertools.permutations(range(3)):
        out = z3.If(z3.And(idx[perm[0]] <= idx[perm[1]], idx[perm[1]] <= idx[perm[2]]), F(p, *[feat[k] for k in perm]), out)
    return out

class World:
    """Point_list behind its contract: points and their number; the inserter under verification"""
    def __init__(self, eng, rt):
        self.eng = eng; self.rt = rt
        P = eng.P
        eng.contracts['kigumi::Point_list::at'] = self.at
        eng.contracts['kigumi::Point_list::insert'] = self.insert
        eng.contracts['CGAL::Lazy_construction::operator()'] = self.construct
        pf = [(n, t) for n, t, f in P.fields(rt) if P.isref(t)]
        if len(pf) != 1: raise Unsupported('reference to the point list')
        self.plt = P.deref(pf[0][1])
        self.pl = ref(eng, eng.fresh_of(self.plt, 'points'), self.plt)
        self.arr = eng.fresh(z3.ArraySort(I, pt(eng)), 'pts'); self.n = eng.fresh(I, 'n')
        eng.assume(z3.And(self.n >= 0, self.n < 2**48))
        d = {n: (self.pl if P.isref(t) else eng.fresh_of(t, n)) for n, t, f in P.fields(rt)}
        self.v = Rec(rt, d); self.this = ref(eng, self.v, rt)
        self.state = eng.new_root(Tup([self.arr, self.n]))
        self.feat = None      # the features of the call being verified
    def get(self): x = self.eng.load(self.state); return x.xs[0], x.xs[1]
    def at(self, e, f, this, vals):
        i = zi(e.load(vals[0]) if isinstance(vals[0], Loc) else vals[0]); a, n = self.get()
        if not e.branch(z3.And(i >= 0, i < n)): throw(e, 'std::out_of_range')
        return e.new_root(a[i], e.P.deref(f['ret']))
    def insert(self, e, f, this, vals):
        p = e.load(vals[0]) if isinstance(vals[0], Loc) else vals[0]; a, n = self.get()
        r = e.fresh(I, 'newindex'); found = e.fresh(z3.BoolSort(), 'merged')
        e.assume(z3.If(found, z3.And(r >= 0, r < n, a[r] == p), r == n))
        e.store(self.state, Tup([z3.If(found, a, z3.Store(a, n, p)), z3.If(found, n, n + 1)]))
        return r
    def pidx(self, e, x):
        v = e.load(x) if isinstance(x, Loc) else x
        return v
    def construct(self, e, f, this, vals):
        ps = [self.pidx(e, x) for x in vals]
        e.g.setdefault('made', None)
        r = e.fresh(pt(e), 'made')
        name = f['n']
        if 'line_line' in name and len(ps) == 4: fs = [ps[:2], ps[2:]]
        elif 'plane_line' in name and len(ps) == 5: fs = [ps[:3], ps[3:]]
        else: raise Unsupported('construction ' + name[:80])
        # order of the arguments does not matter for membership
        for g in fs:
            F = line(e) if len(g) == 2 else plane(e)
            for perm in itertools.permutations(g): e.assume(F(r, *perm))
        return r
def holds(eng, W, i, feats):
    a, n = W.get()
    return z3.And(i >= 0, i < n, *[on(eng, a[i], [a[k] for k in f], f) for f in feats])
def helper(kind):
    name = 'insert_line_line_intersection' if kind == 'll' else 'insert_plane_line_intersection'
    k1 = 2 if kind == 'll' else 3
    def prep(eng):
        P = eng.P; fn = P.fn(N + name)
        if len(fn['p']) != k1 + 2: raise Unsupported('parameters of ' + name)
        W = World(eng, fn['rec'])
        log = []
        def hook(e, this, key, val):
            e.g.setdefault('keys', [])
            e.g['keys'] = e.g['keys'] + [(this, key)]
            M = e.load(this)
            # induction over the calls so far: an entry with this key was made for the same features (unit 'entries') and its point lies on them
            if e.g.get('ind'): e.assume(z3.Implies(z3.Select(M.dom, key), holds(e, W, M.arrs[0][key], e.g['ind'])))
        eng.opts['map_insert'] = hook
        return fn, W
    def args(eng, fn, W, tag):
        xs = [eng.fresh(I, tag + str(i)) for i in range(k1 + 2)]
        for x in xs: eng.assume(z3.And(x >= 0, x < W.n))
        for i, x in enumerate(xs[:k1]):
            for y in xs[:i]: eng.assume(x != y)
        eng.assume(xs[k1] != xs[k1 + 1])
        if kind == 'll': eng.assume(z3.Distinct(*xs))
        return xs
    def u_one(eng):
        fn, W = prep(eng); xs = args(eng, fn, W, 'v'); feats = [xs[:k1], xs[k1:]]
        eng.g['ind'] = feats
        a0, n0 = W.get(); v0 = W.v
        q = {}
        maps = [(n, t) for n, t, f in eng.P.fields(W.rt) if eng.P.kind(t) == 'map']
        for n, t in maps: q[n] = eng.fresh(eng.key_sort(v0.d[n].kt), 'other_key')
        def post(kindr, r):
            eng.oblige('asking for the point raises no error', kindr == 'ret')
            r = zi(r); a, n = W.get(); j = eng.fresh(I, 'j')
            eng.oblige('the point lies exactly on both features', holds(eng, W, r, feats))
            eng.oblige('existing points keep their index', z3.And(n >= n0, z3.Implies(z3.And(j >= 0, j < n0), a[j] == a0[j])))
            ks = eng.g.get('keys', [])
            eng.oblige('one cache entry is used per feature pair', len(ks) == 1)
            m, k = ks[0]
            M = eng.load(m)
            eng.oblige('the point found for the features is remembered', z3.And(z3.Select(M.dom, k), M.arrs[0][k] == r))
            w = eng.load(W.this)
            for nme, t in maps:
                A, B = v0.d[nme], w.d[nme]
                other = q[nme] != k if m.path and m.path[-1] == nme else z3.BoolVal(True)
                eng.oblige('other entries are kept', z3.Implies(other, z3.And(z3.Select(A.dom, q[nme]) == z3.Select(B.dom, q[nme]), z3.Implies(z3.Select(A.dom, q[nme]), A.arrs[0][q[nme]] == B.arrs[0][q[nme]]))))
        verify(eng, lambda: eng.inline(fn, W.this, xs), post)
    def u_two(eng):
        """two calls on the same map: same entry exactly when the features are the same"""
        fn, W = prep(eng); xs = args(eng, fn, W, 'v'); ys = args(eng, fn, W, 'w')
        if kind == 'll':
            same = z3.Or(z3.And(same_set(xs[:2], ys[:2]), same_set(xs[2:], ys[2:])), z3.And(same_set(xs[:2], ys[2:]), same_set(xs[2:], ys[:2])))
        else: same = z3.And(same_set(xs[:3], ys[:3]), same_set(xs[3:], ys[3:]))
        def th():
            r1 = eng.inline(fn, W.this, xs)
            eng.g['n1'] = W.get()
            r2 = eng.inline(fn, W.this, ys)
            return Tup([r1, r2])
        def post(kindr, v):
            eng.oblige('asking for a point raises no error', kindr == 'ret')
            ks = eng.g.get('keys', [])
            eng.oblige('one cache entry is used per feature pair', len(ks) == 2)
            (m1, k1_), (m2, k2_) = ks
            eng.oblige('both calls use the same cache', m1.root == m2.root and m1.path == m2.path)
            eng.oblige('the same features use the same entry, different features use different entries', (k1_ == k2_) == same)
            eng.oblige('the same features get the same index, in whatever order they are given', z3.Implies(same, zi(v.xs[0]) == zi(v.xs[1])))
        verify(eng, th, post)
    return u_one, u_two
def u_insert(eng):
    P = eng.P; fn = P.fn(N + 'insert'); tr = P.types[P.typ('kigumi::Triangle_region')]['consts']
    this = ref(eng, Rec(fn['rec'], {}), fn['rec'])
    for nm, k1 in (('insert_line_line_intersection', 2), ('insert_plane_line_intersection', 3)):
        P.fn(N + nm)
        def c(e, f, t, vals, k1=k1):
            vs = [zi(e.load(x) if isinstance(x, Loc) else x) for x in vals]
            if 'call' in e.g: raise Unsupported('two points for one intersection')
            r = e.fresh(I, 'index'); e.g['call'] = (vs[:k1], vs[k1:], r); return r
        eng.contracts[N + nm] = c
    lr, rr = eng.fresh(z3.BitVecSort(8), 'left_region'), eng.fresh(z3.BitVecSort(8), 'right_region')
    L = [eng.fresh(I, x) for x in 'abc']; R = [eng.fresh(I, x) for x in 'pqr']
    V = ('0', '1', '2'); E = (('01', (0, 1)), ('12', (1, 2)), ('20', (2, 0)))
    def c(side, n): return z3.BitVecVal(tr['%s_%s' % (side, n)], 8)
    lv = [lr == c('LEFT', 'VERTEX_' + i) for i in V]; rv = [rr == c('RIGHT', 'VERTEX_' + i) for i in V]
    le = [lr == c('LEFT', 'EDGE_' + n) for n, _ in E]; re_ = [rr == c('RIGHT', 'EDGE_' + n) for n, _ in E]
    lf, rf = lr == c('LEFT', 'FACE'), rr == c('RIGHT', 'FACE')
    eng.assume(z3.Or(*lv, *le, lf)); eng.assume(z3.Or(*rv, *re_, rf)); eng.assume(z3.Not(z3.And(lf, rf)))
    for x in L + R: eng.assume(z3.And(x >= 0, x < 2**48))
    def post(kind, r):
        eng.oblige('resolving an intersection raises no error', kind == 'ret')
        r = zi(r); call = eng.g.get('call')
        for i in range(3):
            # both at vertices: the points coincide, and equal points have equal indices
            eng.oblige('an intersection at a vertex of the first triangle is that vertex', z3.Implies(z3.And(lv[i], z3.Not(z3.Or(*rv))), r == L[i]))
            eng.oblige('an intersection at a vertex of the second triangle is that vertex', z3.Implies(z3.And(rv[i], z3.Not(z3.Or(*lv))), r == R[i]))
            for j in range(3): eng.oblige('an intersection of two vertices is one of them', z3.Implies(z3.And(lv[i], rv[j]), z3.Or(r == L[i], r == R[j])))
        vert = z3.Or(*lv, *rv)
        if call is None:
            eng.oblige('only an intersection at a vertex needs no new point', vert); return
        f1, f2, ri = call
        eng.oblige('the index is the one of the features', r == ri)
        eng.oblige('no point is made for a vertex', z3.Not(vert))
        for n, (i, j) in E:
            l_ = lr == c('LEFT', 'EDGE_' + n)
            for n2, (k, l) in E:
                r_ = rr == c('RIGHT', 'EDGE_' + n2)
                if len(f1) == 2: eng.oblige('two edges meet in the point of these two edges', z3.Implies(z3.And(l_, r_), z3.Or(z3.And(same_set(f1, [L[i], L[j]]), same_set(f2, [R[k], R[l]])), z3.And(same_set(f2, [L[i], L[j]]), same_set(f1, [R[k], R[l]])))))
            if len(f1) == 3: eng.oblige('an edge meets a face in the point of this edge and face', z3.And(
                z3.Implies(z3.And(l_, rf), z3.And(same_set(f1, R), same_set(f2, [L[i], L[j]]))),
                z3.Implies(z3.And(rr == c('RIGHT', 'EDGE_' + n), lf), z3.And(same_set(f1, L), same_set(f2, [R[i], R[j]])))))
        eng.oblige('features of the right dimension are intersected', z3.Or(lf, rf) if len(f1) == 3 else z3.And(z3.Or(*le), z3.Or(*re_)))
    verify(eng, lambda: eng.inline(fn, this, [lr] + L + [rr] + R), post)
def units(P):
    ll, pl = helper('ll'), helper('pl')
    return [Unit(N + 'insert', u_insert), Unit(N + 'insert_line_line_intersection', ll[0]), Unit(N + 'insert_line_line_intersection: entries', ll[1]),
            Unit(N + 'insert_plane_line_intersection', pl[0]), Unit(N + 'insert_plane_line_intersection: entries', pl[1])]
