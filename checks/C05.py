"""C05: the bounding-box tree (AABB_tree.h, AABB_node.h) and the leaves a soup puts into it (Triangle_soup.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from kvc import par
from kvc.tree import *

ID = 'C05'
HARNESS = {'src': ['C05.cc'], 'seconds': 60}
LEVEL = 'proof'
ASSUME = ['CGAL::Bbox_3: a join is the componentwise minimum and maximum; two boxes intersect when their intervals overlap in every direction',
          'CGAL::do_intersect of a box with a query other than a box: a box that contains a box met by the query is met by it',
          'std::sort and std::nth_element leave a permutation of the range (their comparison is proved to be a strict weak order, arithmetic on doubles taken as exact)', 'a tree has fewer than 2^31 leaves', 'termination is not proved']

def leaf_sort(T_):
    """std::sort / std::nth_element on leaves: a permutation of the range; the comparison is checked to be a strict weak order"""
    def contract(e, f, this, vals):
        a, b = (e.load(v) if isinstance(v, Loc) else v for v in (vals[0], vals[-2]))
        if not (isinstance(a, It) and (a.loc.root, a.loc.path) == (T_.leaves.root, T_.leaves.path)): raise Unsupported('sort of something else')
        c = vals[-1]; c = e.load(c) if isinstance(c, Loc) else c
        if len(vals) == 4:
            m_ = e.load(vals[1]) if isinstance(vals[1], Loc) else vals[1]
            e.oblige('the middle lies in the range', z3.And(zi(a.idx) <= zi(m_.idx), zi(m_.idx) <= zi(b.idx)))
        e.oblige('sorted range lies in the list of leaves', z3.And(zi(a.idx) >= 0, zi(a.idx) <= zi(b.idx), zi(b.idx) <= zi(T_.lv().n)))
        if not e.mute:
            def weak():
                x, y, z = (ref(e, e.fresh_of(T_.lt, 'leaf'), T_.lt) for _ in range(3))
                fp, e.fp = e.fp, None
                try:
                    lt = lambda u, v: zb(e.tobool(e.call_closure(c, [u, v])))
                    xy, yx, yz, xz, zy, zx = lt(x, y), lt(y, x), lt(y, z), lt(x, z), lt(z, y), lt(z, x)
                finally: e.fp = fp
                e.oblige('the comparison is a strict weak order', z3.And(z3.Not(z3.And(xy, yx)), z3.Implies(z3.And(xy, yz), xz), z3.Implies(z3.And(z3.Not(xy), z3.Not(yx), z3.Not(yz), z3.Not(zy)), z3.And(z3.Not(xz), z3.Not(zx)))))
            e.explore(weak)
        if e.fp is not None or 'live' in e.g: e.access('W', T_.leaves.f(('r', a.idx, b.idx)))
        fp, e.fp = e.fp, None
        try: nv, p, q = T_.moved(a.idx, b.idx, e)
        finally: e.fp = fp
        return VOID
    return contract

def frame_check(eng, T_, i, a, b):
    """every access to the tree stays inside the nodes [i, i + n - 1) and the leaves [a, b)"""
    class Rec_(list):
        def append(self, x):
            k, l, c = x
            if l.root != T_.loc.root: return
            for part, lo, hi in (('nodes_', i, i + (b - a) - 1), ('leaves_', a, b)):
                if l.path and l.path[0] == part:
                    s = l.path[1] if len(l.path) > 1 else None
                    if s is not None and s[0] == 'size': return       # the length of a list is fixed before it is built
                    if s is None or s[0] not in ('i', 'r'): eng.oblige('only the part of the tree being built is touched (%s)' % part, False)
                    else:
                        u, w = (s[1], zi(s[1]) + 1) if s[0] == 'i' else (s[1], s[2])
                        eng.oblige('only the part of the tree being built is touched (%s)' % part, z3.Implies(zi(u) < zi(w), z3.And(zi(u) >= lo, zi(w) <= hi)))
                    return
            if k == 'W': eng.oblige('building a part of the tree changes nothing else of it', False)
    return Rec_()

def build_args(eng, T_, fn, vals):
    """(node, first, last) of a call of build"""
    v = [eng.load(x) if isinstance(x, Loc) else x for x in vals]
    its = [x for x in v if isinstance(x, It)]
    n = [x for x in its if (x.loc.root, x.loc.path) == (T_.nodes.root, T_.nodes.path)]; l = [x for x in its if (x.loc.root, x.loc.path) == (T_.leaves.root, T_.leaves.path)]
    if len(n) != 1 or len(l) != 2: raise Unsupported('arguments of build')
    return zi(n[0].idx), zi(l[0].idx), zi(l[1].idx), [zi(x) for x, q in zip(v, fn['p']) if eng.P.intinfo(eng.P.deref(q['t']))]
def build_pre(T_, i, a, b, ds):
    """ds: the depth; it grows by one while at least one leaf goes to the other side"""
    return z3.And(*[z3.And(d >= 0, d + (b - a) <= TOTAL) for d in ds], b - a >= 2, a >= 0, b <= zi(T_.lv().n), i >= 0, i + (b - a) - 1 <= zi(T_.nv().n))
def build_contract(eng, T_):
    """build(node i, leaves [a, b)): nodes i .. i+(b-a)-2 become a tree over a permutation of those leaves; nothing else changes"""
    def contract(e, f, this, vals):
        i, a, b, ds = build_args(e, T_, f, vals)
        e.oblige('the part of the tree to build lies in its lists', build_pre(T_, i, a, b, ds))
        m = b - a
        if e.fp is not None or 'live' in e.g:
            e.access('W', T_.nodes.f(('r', i, i + m - 1))); e.access('W', T_.leaves.f(('r', a, b)))
        fp, e.fp = e.fp, None; live = e.g.pop('live', None)
        try:
            T_.moved(a, b, e)
            nv = T_.nv(); LO, N = T_.gh()
            arrs = [e.fresh(x.sort(), 'node') for x in nv.arrs]; A = LO.sort(); LO2, N2 = e.fresh(A, 'first_leaf_of'), e.fresh(A, 'leaves_of')
            out = lambda j: z3.Or(j < i, j >= i + m - 1)
            for x, y in list(zip(arrs, nv.arrs)) + [(LO2, LO), (N2, N)]:
                e.forall(lambda j, x=x, y=y: z3.Implies(out(j), x[j] == y[j]), [x], pats=lambda j, x=x: [x[j]])
            e.store(T_.nodes, Vec(nv.et, nv.n, arrs, nv.lo)); e.mem[T_.LO.root] = LO2; e.mem[T_.N.root] = N2
            e.assume(z3.And(LO2[i] == a, N2[i] == m))
            st = T_.state(); LB = st[1].arrs[T_.lb]
            def at_node(j): return z3.Implies(z3.Not(out(j)), T_.node_ok(j, i, m, a, b, st))
            e.forall(at_node, [arrs[T_.nb]] + [arrs[k] for k in T_.kids] + [LO2, N2], pats=lambda j: T_.node_pats(j, st))
        finally:
            e.fp = fp
            if live is not None: e.g['live'] = live
        return VOID
    eng.contracts['kigumi::AABB_tree::build'] = contract

def u_build(eng):
    """the body of build against its contract"""
    P = eng.P; T_ = Tree(eng); par.install_threads(eng); build_contract(eng, T_)
    ls = leaf_sort(T_)
    for n in ('std::sort', 'std::stable_sort', 'std::nth_element'): eng.contracts[n] = ls
    fn = P.fn('kigumi::AABB_tree::build', lambda f: f.get('rec') == T_.tt)
    i, a, b = eng.fresh(I, 'node'), eng.fresh(I, 'first'), eng.fresh(I, 'last'); m = b - a
    its = iter([It(T_.nodes, i), It(T_.leaves, a), It(T_.leaves, b)]); args = []
    for q in fn['p']: args.append(next(its) if P.kind(P.deref(q['t'])) == 'it' else eng.fresh_of(q['t'], q['n']))
    eng.assume(build_pre(T_, *build_args(eng, T_, fn, args)))
    nv0, lv0 = T_.nv(), T_.lv(); LO0, N0 = T_.gh(); ID0, WH0 = eng.peek(T_.ID), eng.peek(T_.WH)
    # origins are counted from here
    eng.forall(lambda j: z3.And(ID0[j] == j, WH0[j] == j), [ID0, WH0], pats=lambda j: [ID0[j], WH0[j]])
    # ghost: this node takes these leaves
    eng.mem[T_.LO.root] = z3.Store(LO0, i, a); eng.mem[T_.N.root] = z3.Store(N0, i, m)
    def i_box(L):
        """the box joined so far contains the boxes of the leaves passed"""
        bs = [L.at(l) for n_, t, l in L.vars() if t is not None and isinstance(l, Loc) and P.rname(P.deref(t)) == 'CGAL::Bbox_3']
        its = [L.at(l) for n_, t, l in L.vars() if isinstance(l, Loc) and isinstance(L.at(l), It) and any(r == l.root for r, k in L.mods)]
        if len(bs) != 1 or len(its) != 1: raise SpecError('box and position')
        LB = L.at(T_.leaves).arrs[T_.lb]
        return Quant(lambda p: z3.Implies(z3.And(p >= a, p < zi(its[0].idx)), contains(eng, bs[0], LB[p])), [LB], pats=lambda p: [LB[p]])
    def i_rng(L):
        its = [L.at(l) for n_, t, l in L.vars() if isinstance(l, Loc) and isinstance(L.at(l), It) and any(r == l.root for r, k in L.mods)]
        if len(its) != 1: raise SpecError('position')
        return z3.And(zi(its[0].idx) >= a, zi(its[0].idx) <= b)
    eng.invs['*'] = [('position stays in the range of leaves', i_rng), ('the box contains the leaves passed', i_box)]
    j, p, o = eng.fresh(I, 'any_node'), eng.fresh(I, 'any_leaf'), eng.fresh(I, 'any_origin')
    def th():
        eng.fp = (frame_check(eng, T_, i, a, b), set(eng.mem), len(eng.pc))
        try: return eng.inline(fn, T_.loc, args)
        finally: eng.fp = None
    def post(kind, v):
        eng.oblige('building the tree raises no error', kind == 'ret')
        eng.oblige('every thread was joined', not eng.g.get('live'))
        st = T_.state(); nv, lv, (LO, N) = st; ID, WH = eng.peek(T_.ID), eng.peek(T_.WH)
        eng.oblige('the lists keep their lengths', z3.And(zi(nv.n) == zi(nv0.n), zi(lv.n) == zi(lv0.n)))
        def parts(name, thunk): eng.explore(thunk)
        def c_perm():
            T_.trace(p)
            inr = z3.And(p >= a, p < b)
            eng.oblige('every leaf comes from one leaf of the range', z3.Implies(inr, z3.And(ID[p] >= a, ID[p] < b)))
            eng.oblige('leaves are moved, not changed', z3.And(*[z3.Implies(z3.And(p >= 0, p < zi(lv.n)), x[p] == y[ID[p]]) for x, y in zip(lv.arrs, lv0.arrs)]))
            eng.on_read(WH, ID[p]); eng.oblige('no two leaves come from the same one', z3.Implies(z3.And(p >= 0, p < zi(lv.n)), WH[ID[p]] == p))
            eng.oblige('leaves outside the range stay', z3.Implies(z3.Not(inr), ID[p] == p))
        def c_perm2():
            eng.on_read(WH, o); eng.on_read(ID, WH[o]); inr = z3.And(o >= a, o < b)
            eng.oblige('every leaf of the range is kept', z3.Implies(inr, z3.And(WH[o] >= a, WH[o] < b, ID[WH[o]] == o)))
        def c_frame():
            eng.assume(z3.Or(j < i, j >= i + m - 1))
            for x in nv.arrs + [LO, N]: eng.on_read(x, j)
            eng.oblige('nodes outside the part stay', z3.And(*[x[j] == y[j] for x, y in list(zip(nv.arrs, nv0.arrs)) + [(LO, LO0), (N, N0)]]))
        def c_nodes():
            eng.assume(z3.And(j >= i, j < i + m - 1))
            for x in nv.arrs + [LO, N]: eng.on_read(x, j)
            eng.oblige('a node takes leaves of the range', z3.And(LO[j] >= a, LO[j] + N[j] <= b))
            for r in (0, 1):
                x = T_.child(j, r, nv)[1]
                for y in (LO, N): eng.on_read(y, x)
            eng.oblige('the children of every node share its leaves', T_.links(j, i, m, st))
            T_.trace(p)
            eng.oblige('the box of every node contains the boxes of its leaves', T_.covers(j, p, st))
        eng.oblige('the first node takes the whole range', z3.And(LO[i] == a, N[i] == m))
        for c in (c_perm, c_perm2, c_frame, c_nodes): eng.explore(c)
    verify(eng, th, post)

def hits_post(eng, T_, H, out, q, lo, hi, n0, v0):
    """what an enumeration over the leaves [lo, hi) leaves behind"""
    k, p = eng.fresh(I, 'any_position'), eng.fresh(I, 'any_leaf')
    v = eng.peek(out); PL = H.term(); LB = T_.lv().arrs[T_.lb]
    v = v if isinstance(v, Vec) else eng.pyvec_to_vec(v, v0.et)
    n1 = zi(v.n); R, X = v.arrs
    def c_sound():
        eng.assume(z3.And(k >= n0, k < n1))
        for x in (R, X): eng.on_read(x, k)
        for x in (LB, PL): eng.on_read(x, X[k])
        eng.oblige('every leaf delivered is one of the leaves searched and is met by the query', z3.And(R[k] == T_.RL, X[k] >= lo, X[k] < hi, meets(eng, LB[X[k]], q)))
        eng.oblige('no leaf is delivered twice', PL[X[k]] == k)
    def c_complete():
        eng.assume(z3.And(p >= lo, p < hi)); eng.on_read(LB, p); eng.on_read(PL, p)
        for x in (R, X): eng.on_read(x, PL[p])
        eng.oblige('every leaf met by the query is delivered', z3.Implies(meets(eng, LB[p], q), z3.And(PL[p] >= n0, PL[p] < n1, X[PL[p]] == p)))
    def c_prefix():
        eng.assume(z3.And(k >= 0, k < n0))
        for x in (R, X): eng.on_read(x, k)
        eng.oblige('what the list contained before stays', z3.And(n1 >= n0, R[k] == v0.arrs[0][k], X[k] == v0.arrs[1][k]))
    def c_frame():
        eng.assume(z3.Not(z3.And(p >= lo, p < hi))); eng.on_read(PL, p)
        eng.oblige('leaves outside the range are not delivered', PL[p] == H.PL0[p])
    for c in (c_sound, c_complete, c_prefix, c_frame): eng.explore(c)
def setup_query(eng, T_, fn, out=None):
    """arguments of an enumeration: a result list and a query"""
    P = eng.P; H = Hits(eng); H.PL0 = H.term(); args = []; r = {}
    def on_append(e, loc, x):
        if (loc.root, loc.path) != (r['out'].root, r['out'].path): return
        v = e.peek(loc); rid, idx = (zi(y) for y in e.flat(x, v.et))
        e.mem[H.PL.root] = z3.Store(H.term(), idx, zi(v.n))
    for q in fn['p']:
        t = P.deref(q['t'])
        if P.rname(t) == 'std::back_insert_iterator':
            vt = P.targ(t, 0); v0 = eng.fresh_of(vt, 'found'); eng.assume(zi(v0.n) >= 0)
            r['out'] = ref(eng, v0, vt); r['v0'] = v0; args.append(BackIns(r['out']))
        elif P.kind(t) == 'ptr':
            j = eng.fresh(I, 'node'); r['node'] = j; args.append(Ptr(T_.nodes.f(('i', j))))
        elif P.intinfo(t): r['n'] = eng.fresh_of(t, q['n']); args.append(r['n'])
        else:
            x = eng.fresh_of(t, q['n']); r['q'] = x; args.append(ref(eng, x, t))
    eng.opts['on_append'] = on_append; eng.opts['queries'] = (r['q'],)
    return H, r, args
def u_traverse(qn):
    def u(eng):
        P = eng.P; T_ = Tree(eng)
        fn = P.fn('kigumi::AABB_tree::traverse', lambda f: f.get('rec') == T_.tt and any(P.rname(P.deref(q['t'])) == qn for q in f['p']))
        H, r, args = setup_query(eng, T_, fn); traverse_contract(eng, T_, H); T_.assume_wf()
        LO, N = T_.gh(); j = r['node']; nn = zi(T_.nv().n)
        eng.assume(z3.And(j >= 0, j < nn))
        for x in (LO, N): eng.on_read(x, j)
        if 'n' in r: eng.assume(zi(r['n']) == N[j])
        eng.assume(zi(r['v0'].lo) == 0)
        n0 = zi(r['v0'].n)
        def post(kind, v):
            eng.oblige('the search raises no error', kind == 'ret')
            hits_post(eng, T_, H, r['out'], r['q'], LO[j], LO[j] + N[j], n0, r['v0'])
        verify(eng, lambda: eng.inline(fn, T_.loc, args), post)
    return u
def u_search(qn):
    def u(eng):
        P = eng.P; T_ = Tree(eng)
        fn = P.fn('kigumi::AABB_tree::get_intersecting_leaves', lambda f: f.get('rec') == T_.tt and any(P.rname(P.deref(q['t'])) == qn for q in f['p']))
        H, r, args = setup_query(eng, T_, fn); traverse_contract(eng, T_, H); T_.assume_wf()
        eng.assume(zi(r['v0'].lo) == 0)
        def post(kind, v):
            eng.oblige('the search raises no error', kind == 'ret')
            hits_post(eng, T_, H, r['out'], r['q'], z3.IntVal(0), zi(T_.lv().n), zi(r['v0'].n), r['v0'])
        verify(eng, lambda: eng.inline(fn, T_.loc, args), post)
    return u

def u_ctor(eng):
    """the constructor establishes what the searches rely on"""
    P = eng.P; T_ = Tree(eng); build_contract(eng, T_)
    fn = [f for f in P.fns('kigumi::AABB_tree::AABB_tree', lambda f: f.get('rec') == T_.tt and len(f['p']) == 1 and P.kind(P.deref(f['p'][0]['t'])) == 'vec')]
    if len(fn) != 1: raise Unsupported('constructor of the tree')
    fn = fn[0]; vt = P.deref(fn['p'][0]['t'])
    eng.contracts['kigumi::Threading_context::current'] = lambda e, f, this, v: e.new_root(e.fresh_of(P.deref(f['ret']), 'context'))
    eng.contracts['std::log2'] = lambda e, f, this, v: e.fresh(z3.RealSort(), 'log2')
    lv0 = eng.fresh_of(vt, 'input'); n = zi(lv0.n); eng.assume(z3.And(n <= TOTAL, zi(lv0.lo) == 0))
    ID0, WH0 = eng.peek(T_.ID), eng.peek(T_.WH)
    eng.forall(lambda j: z3.And(ID0[j] == j, WH0[j] == j), [ID0, WH0], pats=lambda j: [ID0[j], WH0[j]])
    j, p, o = eng.fresh(I, 'any_node'), eng.fresh(I, 'any_leaf'), eng.fresh(I, 'any_origin')
    def th():
        arg = lv0 if not P.isref(fn['p'][0]['t']) else ref(eng, lv0, vt)
        eng.construct_at(T_.loc, fn, T_.tt, [arg])
    def post(kind, v):
        eng.oblige('construction raises no error', kind == 'ret')
        st = T_.state(); nv, lv, (LO, N) = st; ID, WH = eng.peek(T_.ID), eng.peek(T_.WH)
        if not isinstance(lv, Vec): raise Unsupported('leaves of the tree')
        nn = zi(eng.vec_len(nv)); r = T_.root()
        eng.oblige('the tree has the leaves given to it', zi(lv.n) == n)
        eng.oblige('a tree of n leaves has n - 1 nodes', z3.Implies(n >= 1, nn == n - 1))
        for x in (LO, N): eng.on_read(x, r[1])
        eng.oblige('the search starts at the only leaf or at the node above all leaves', z3.And(z3.Implies(n == 1, z3.And(r[0] == T_.RL, r[1] == 0)), z3.Implies(n >= 2, z3.And(r[0] == T_.RN, r[1] >= 0, r[1] < n - 1, LO[r[1]] == 0, N[r[1]] == n))))
        def c_perm():
            eng.assume(z3.And(p >= 0, p < n)); T_.trace(p)
            eng.oblige('every leaf of the tree is one of those given', z3.And(ID[p] >= 0, ID[p] < n, *[x[p] == y[ID[p]] for x, y in zip(lv.arrs, lv0.arrs)]))
            eng.on_read(WH, ID[p]); eng.oblige('no leaf is in the tree twice', WH[ID[p]] == p)
        def c_perm2():
            eng.assume(z3.And(o >= 0, o < n)); eng.on_read(WH, o); eng.on_read(ID, WH[o])
            eng.oblige('every leaf given is in the tree', z3.And(WH[o] >= 0, WH[o] < n, ID[WH[o]] == o))
        def c_nodes():
            if not isinstance(nv, Vec): eng.oblige('a tree without nodes has at most one leaf', n <= 1); return
            eng.assume(z3.And(j >= 0, j < n - 1))
            for x in nv.arrs + [LO, N]: eng.on_read(x, j)
            eng.oblige('a node takes leaves of the tree', z3.And(LO[j] >= 0, LO[j] + N[j] <= n))
            eng.oblige('the children of every node share its leaves', T_.links(j, z3.IntVal(0), n, st))
            T_.trace(p); eng.oblige('the box of every node contains the boxes of its leaves', T_.covers(j, p, st))
        for c in (c_perm, c_perm2, c_nodes): eng.explore(c)
    verify(eng, th, post)

def u_soup(eng):
    """the tree of a soup has one leaf per face: leaf i stands for face i and its box is the smallest around the boxes of its corners"""
    P = eng.P; box_contracts(eng); point_boxes(eng)
    tt = tree_type(P); lt = P.elem(dict((n, t) for n, t, _ in P.fields(tt))['leaves_'])
    fn = [f for f in P.fns('kigumi::Triangle_soup::aabb_tree') if f.get('body') is not None and any(P.rname(P.deref(f['ret'])) == 'kigumi::AABB_tree' for _ in (0,))]
    if not fn: raise Unsupported('aabb_tree')
    for fn in fn:
        st = fn['rec']; sv = eng.fresh_of(st, 'soup'); soup_wf(eng, sv)
        kept = eng.fresh(z3.BoolSort(), 'tree_kept'); old = ref(eng, eng.fresh_of(tt, 'kept_tree'), tt)
        ups = [n for n, t, _ in P.fields(st) if P.kind(t) == 'uptr']
        if len(ups) != 1: raise Unsupported('where the tree is kept')
        loc = ref(eng, Rec(st, {**sv.d, ups[0]: Ptr(old, kept)}), st)
        nf = zi(sv.d['faces_'].n)
        so = eng.leaf_sorts(lt); bi = so.index(bbox_sort(eng)); fi = [k for k in range(len(so)) if k != bi]
        if len(fi) != 1: raise Unsupported('layout of a leaf')
        fi = fi[0]
        def leaf_face(v, j): return v.arrs[fi][j] == j
        def leaf_box(v, j): return tight(eng, v.arrs[bi][j], corners(sv, j))
        is_leaves = lambda P_, t: P_.kind(t) == 'vec' and P_.elem(t) == lt
        def lv(L): return L.at(L.loc(type=is_leaves))
        def i_n(L): return z3.And(zi(lv(L).n) == zi(L.k), zi(L.k) <= nf)
        def each(ok, arr):
            def inv(L):
                v = lv(L); return Quant(lambda j: z3.Implies(z3.And(j >= 0, j < zi(v.n)), ok(v, j)), [v.arrs[arr]], pats=lambda j: [v.arrs[arr][j]])
            return inv
        eng.invs['*'] = [('one leaf per face passed', i_n), ('every leaf made so far stands for its face', each(leaf_face, fi)), ('the box of every leaf made so far is the smallest around its face', each(leaf_box, bi))]
        def mk(e, f, t, vals):
            v = e.load(vals[0]) if isinstance(vals[0], Loc) else vals[0]
            if not isinstance(v, Vec): v = e.pyvec_to_vec(v, lt)
            j = e.fresh(I, 'any_leaf')
            e.oblige('the tree gets one leaf per face', zi(v.n) == nf)
            def c():
                e.assume(z3.And(j >= 0, j < nf)); e.on_read(v.arrs[fi], j); e.on_read(v.arrs[bi], j)
                e.oblige('leaf j stands for face j', v.arrs[fi][j] == j)
                e.oblige('the box of leaf j is the smallest around face j', leaf_box(v, j))
            e.explore(c)
            l = e.new_root(e.fresh_of(tt, 'tree'), tt); e.g['made'] = l
            return Ptr(l)
        eng.contracts['make_unique:kigumi::AABB_tree'] = mk
        def post(kind, v):
            if kind == 'throw': eng.oblige('asking for the tree raises no error', False); return
            l = v if isinstance(v, Loc) else eng.resolve(v)
            made = eng.g.get('made')
            if made is not None:
                eng.oblige('the tree just built is returned and kept', l.same(made) and any(isinstance(x, Ptr) and isinstance(x.loc, Loc) and x.loc.same(made) for x in eng.peek(loc).d.values()))
            else: eng.oblige('a kept tree is returned only if there is one', z3.And(kept, l.same(old)))
            s1 = eng.peek(loc)
            eng.oblige('the soup keeps its faces and points', all(z3.eq(a, b) for n in ('faces_', 'points_') for a, b in zip(s1.d[n].arrs, sv.d[n].arrs)))
        verify(eng, lambda: eng.inline(fn, loc, []), post)

def units(P):
    us = [Unit('kigumi::AABB_tree::build', u_build, heavy=True), Unit('kigumi::AABB_tree::AABB_tree', u_ctor)]
    for q in ('CGAL::Bbox_3', 'CGAL::Ray_3'):
        us += [Unit('kigumi::AABB_tree::traverse (%s)' % q, u_traverse(q)), Unit('kigumi::AABB_tree::get_intersecting_leaves (%s)' % q, u_search(q))]
    return us + [Unit('kigumi::Triangle_soup::aabb_tree', u_soup)]
