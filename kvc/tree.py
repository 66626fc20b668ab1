"""The bounding-box tree: what it means for the nodes to be right, and the contract of the enumeration of leaves met by a query."""
import z3
from .spec import *
from .lib import permuted, bbox_sort, MODELS

def tree_type(P): return typ_where(P, lambda P, t: P.rname(t) == 'kigumi::AABB_tree' and P.fns('kigumi::AABB_tree::build', lambda f: f.get('rec') == t) and P.fns('kigumi::AABB_tree::traverse', lambda f: f.get('rec') == t))
DIRS = 'xyz'
def co(eng, m, d): return z3.Function('bbox_' + d + m, bbox_sort(eng), z3.RealSort())
def contains(eng, a, b): return z3.And(*[z3.And(co(eng, 'min', d)(a) <= co(eng, 'min', d)(b), co(eng, 'max', d)(b) <= co(eng, 'max', d)(a)) for d in DIRS])
def boxes_meet(eng, a, b): return z3.And(*[z3.And(co(eng, 'min', d)(a) <= co(eng, 'max', d)(b), co(eng, 'min', d)(b) <= co(eng, 'max', d)(a)) for d in DIRS])
def meets(eng, a, q):
    if q.sort() == bbox_sort(eng): return boxes_meet(eng, a, q)
    return z3.Function('meets_' + str(q.sort()), bbox_sort(eng), q.sort(), z3.BoolSort())(a, q)
def box_contracts(eng):
    def val(e, x): return e.load(x) if isinstance(x, Loc) else x
    join = z3.Function('bbox_join', *[bbox_sort(eng)] * 3)
    def joined(e, a, b):
        r = join(a, b)
        for d in DIRS:
            for m, lt in (('min', lambda x, y: x <= y), ('max', lambda x, y: x >= y)):
                f = co(e, m, d); e.assume(z3.And(lt(f(r), f(a)), lt(f(r), f(b)), z3.Or(f(r) == f(a), f(r) == f(b))))
        return r
    def jeq(e, f, this, v): e.store(this, joined(e, e.load(this), val(e, v[0]))); return this
    eng.contracts['CGAL::Bbox_3::operator+='] = jeq
    eng.contracts['CGAL::Bbox_3::operator+'] = lambda e, f, this, v: joined(e, val(e, this), val(e, v[0]))
    def di(e, f, this, v):
        a, b = val(e, v[0]), val(e, v[1])
        if a.sort() != bbox_sort(e): a, b = b, a
        return meets(e, a, b)
    eng.contracts['CGAL::do_intersect'] = di; eng.contracts['CGAL::do_overlap'] = di

class Tree:
    """a tree object and what it means for its nodes to be right"""
    def __init__(self, eng, arbitrary=True):
        self.eng = eng; P = self.P = eng.P; self.tt = tree_type(P)
        box_contracts(eng)
        self.v0 = eng.fresh_of(self.tt, 'tree'); self.loc = ref(eng, self.v0, self.tt)
        self.nodes, self.leaves = self.loc.f('nodes_'), self.loc.f('leaves_')
        self.RN, self.RL = eng.region(self.nodes), eng.region(self.leaves)
        nt, lt = (P.elem(dict((n, t) for n, t, _ in P.fields(self.tt))[x]) for x in ('nodes_', 'leaves_'))
        self.nt, self.lt = nt, lt
        # which scalars of a node are the box and the two pointers; which scalar of a leaf is its box
        so = eng.leaf_sorts(nt); B = bbox_sort(eng)
        self.nb = so.index(B)
        ints = [k for k, s in enumerate(so) if s == I]
        if len(ints) != 4 or so.count(B) != 1: raise Unsupported('layout of a node')
        # left child or right child: decided by the code that stores them
        self.kl = None
        self.lb = eng.leaf_sorts(lt).index(B)
        if eng.leaf_sorts(lt).count(B) != 1: raise Unsupported('layout of a leaf')
        names = [n for n, t, _ in P.fields(nt)]
        self.kids = ints
        A = z3.ArraySort(I, I)
        self.LO, self.N = eng.new_root(eng.fresh(A, 'first_leaf_of')), eng.new_root(eng.fresh(A, 'leaves_of'))
        # where the leaf that stands at a position came from, and the inverse
        self.ID, self.WH = eng.new_root(eng.fresh(A, 'origin')), eng.new_root(eng.fresh(A, 'place'))
    def nv(self): return self.eng.peek(self.nodes)
    def lv(self): return self.eng.peek(self.leaves)
    def gh(self): return self.eng.peek(self.LO), self.eng.peek(self.N)
    def lbox(self, p, lv=None): return (lv or self.lv()).arrs[self.lb][p]
    def nbox(self, j, nv=None): return (nv or self.nv()).arrs[self.nb][j]
    def child(self, j, right, nv=None):
        nv = nv or self.nv(); k = 2 if right else 0
        return nv.arrs[self.kids[k]][j], nv.arrs[self.kids[k + 1]][j]
    def half(self, n): return n / 2
    def links(self, j, i, n, st=None):
        """the children of node j: the first half of its leaves on the left, the rest on the right; all below node i with n leaves"""
        nv, lv, (LO, N) = st or (self.nv(), self.lv(), self.gh())
        out = [N[j] >= 2]
        k = self.half(N[j])
        for right, lo, m in ((0, LO[j], k), (1, LO[j] + k, N[j] - k)):
            r, x = self.child(j, right, nv)
            out.append(z3.If(m == 1, z3.And(r == self.RL, x == lo), z3.And(r == self.RN, x >= i, x < i + n - 1, LO[x] == lo, N[x] == m)))
        return z3.And(*out)
    def covers(self, j, p, st=None):
        nv, lv, (LO, N) = st or (self.nv(), self.lv(), self.gh())
        return z3.Implies(z3.And(p >= LO[j], p < LO[j] + N[j]), contains(self.eng, self.nbox(j, nv), self.lbox(p, lv)))
    def state(self): return self.nv(), self.lv(), self.gh()
    def moved(self, lo, hi, eng):
        """the leaves of [lo, hi) have been permuted: -> new list; ghost origins follow"""
        lv = self.lv(); nv, p, q = permuted(eng, lv, lo, hi)
        ID, WH = eng.peek(self.ID), eng.peek(self.WH)
        A = ID.sort(); ID2, WH2 = eng.fresh(A, 'origin'), eng.fresh(A, 'place')
        lo, hi = zi(lo), zi(hi)
        inr = lambda j: z3.And(j >= lo, j < hi)
        def f1(j): return ID2[j] == z3.If(inr(j), ID[p(j)], ID[j])
        def f2(o): return WH2[o] == z3.If(inr(WH[o]), q(WH[o]), WH[o])
        eng.forall(f1, [ID2], pats=lambda j: [ID2[j]]); eng.forall(f2, [WH2], pats=lambda o: [WH2[o]])
        eng.store(self.leaves, nv); eng.g['perms'] = eng.g.get('perms', ()) + ((nv.arrs, ID2, p),)
        eng.mem[self.ID.root] = ID2; eng.mem[self.WH.root] = WH2
        # the invariant of the ghost origins survives (lemma below)
        return nv, p, q

    def trace(self, p):
        """follow the leaf at position p back through the permutations"""
        eng = self.eng; ts = [p]
        for arrs, ID, pf in reversed(eng.g.get('perms', ())):
            for t in list(ts):
                for x in arrs + [ID]: eng.on_read(x, t)
                ts.append(pf(t))
    def node_ok(self, j, i, n, a, b, st):
        """node j (of the nodes i .. i+n-2 over the leaves [a, b)): its range, its children, its box, and what a box that contains another means for queries"""
        nv, lv, (LO, N) = st; LB = lv.arrs[self.lb]; p = z3.Const('p~', I)
        qs = self.eng.opts.get('queries', ())
        inr = z3.And(p >= LO[j], p < LO[j] + N[j])
        mono = [z3.Implies(z3.And(inr, meets(self.eng, LB[p], q)), meets(self.eng, nv.arrs[self.nb][j], q)) for q in qs]
        return z3.And(LO[j] >= a, LO[j] + N[j] <= b, self.links(j, i, n, st), z3.ForAll([p], z3.And(self.covers(j, p, st), *mono), patterns=[LB[p]]))
    def node_pats(self, j, st):
        nv, lv, (LO, N) = st
        return [nv.arrs[self.kids[1]][j], nv.arrs[self.kids[3]][j], LO[j], N[j], nv.arrs[self.nb][j]]
    def assume_wf(self):
        """the state the constructor leaves behind"""
        eng = self.eng; st = self.state(); nv, lv, (LO, N) = st; n = zi(lv.n)
        r = self.root()
        eng.assume(z3.And(zi(nv.n) == z3.If(n <= 1, 0, n - 1), n <= TOTAL))
        eng.assume(z3.And(z3.Implies(n == 1, z3.And(r[0] == self.RL, r[1] == 0)), z3.Implies(n >= 2, z3.And(r[0] == self.RN, r[1] >= 0, r[1] < n - 1, LO[r[1]] == 0, N[r[1]] == n))))
        def at_node(j): return z3.Implies(z3.And(j >= 0, j < n - 1), self.node_ok(j, 0, n, 0, n, st))
        eng.forall(at_node, [nv.arrs[self.nb]] + [nv.arrs[k] for k in self.kids] + [LO, N], pats=lambda j: self.node_pats(j, st))
    def root(self):
        """the pointer that is no list: where the tree starts"""
        eng = self.eng; v = eng.peek(self.loc)
        rs = [eng.flat(v.d[n], t) for n, t, _ in self.P.fields(self.tt) if self.P.kind(t) == 'ptr']
        if len(rs) != 1: raise Unsupported('root of the tree')
        return [zi(x) for x in rs[0]]

TOTAL = 2**31 - 1

class Hits:
    """ghost: at which position of the result the leaf that stands at a place of the tree was delivered"""
    def __init__(self, eng): self.eng = eng; self.PL = eng.new_root(eng.fresh(z3.ArraySort(I, I), 'delivered_at'))
    def term(self): return self.eng.peek(self.PL)
def hit_args(e, T_, f, vals):
    """(result list, query value, node pointer, number arguments) of a call of the enumeration"""
    out = q = node = None; ns = []
    for x, p in zip(vals, f['p']):
        v = e.load(x) if isinstance(x, Loc) else x; pt = e.P.deref(p['t'])
        if isinstance(v, BackIns): out = v.loc
        elif isinstance(v, Ptr) or e.P.kind(pt) == 'ptr': node = [zi(y) for y in e.flat(v, pt)]
        elif e.P.intinfo(pt): ns.append(zi(v))
        else: q = v
    return out, q, node, ns
def deliver(e, T_, H, out, q, lo, hi):
    """append the leaves of [lo, hi) met by q, each once, in any order"""
    if e.fp is not None:
        for part in ('nodes_', 'leaves_'): e.access('R', T_.loc.f(part))
        e.access('W', out)
    v = e.peek(out); v = v if isinstance(v, Vec) else e.pyvec_to_vec(v, e.P.elem(e.rtype[out.root]))
    if len(v.arrs) != 2: raise Unsupported('result list of a query')
    n0 = zi(v.n); n1 = e.fresh(I, 'hits'); lv = T_.lv(); LB = lv.arrs[T_.lb]
    e.assume(z3.And(n1 >= n0, n1 <= n0 + (hi - lo)))
    R, X = (e.fresh(a.sort(), 'hit') for a in v.arrs); PL0 = H.term(); PL = e.fresh(PL0.sort(), 'delivered_at')
    off = zi(v.lo)
    def at_k(k):
        new = z3.And(R[k + off] == T_.RL, X[k + off] >= lo, X[k + off] < hi, meets(e, LB[X[k + off]], q), PL[X[k + off]] == k)
        return z3.And(z3.Implies(z3.And(k >= n0, k < n1), new), z3.Implies(z3.And(k >= 0, k < n0), z3.And(R[k + off] == v.arrs[0][k + off], X[k + off] == v.arrs[1][k + off])))
    if off.eq(z3.IntVal(0)):
        def at_k(k):
            new = z3.And(R[k] == T_.RL, X[k] >= lo, X[k] < hi, meets(e, LB[X[k]], q), PL[X[k]] == k)
            return z3.And(z3.Implies(z3.And(k >= n0, k < n1), new), z3.Implies(z3.And(k >= 0, k < n0), z3.And(R[k] == v.arrs[0][k], X[k] == v.arrs[1][k])))
        e.forall(at_k, [R, X], pats=lambda k: [R[k], X[k]])
    else: raise Unsupported('result list with an offset')
    def at_p(p):
        inr = z3.And(p >= lo, p < hi)
        return z3.And(z3.Implies(z3.And(inr, meets(e, LB[p], q)), z3.And(PL[p] >= n0, PL[p] < n1, X[PL[p]] == p, R[PL[p]] == T_.RL)), z3.Implies(z3.Not(inr), PL[p] == PL0[p]))
    e.forall(at_p, [PL, LB], pats=lambda p: [PL[p]])
    e.store(out, Vec(v.et, n1, [R, X], v.lo)); e.mem[H.PL.root] = PL
    return n1
def traverse_contract(eng, T_, H):
    def contract(e, f, this, vals):
        out, q, node, ns = hit_args(e, T_, f, vals); LO, N = T_.gh()
        if out is None or node is None or q is None: raise Unsupported('arguments of the enumeration')
        r, j = node
        e.oblige('the enumeration is given a node', z3.And(r == T_.RN, j >= 0, j < zi(T_.nv().n)))
        e.oblige('the number of leaves given is that of the node', z3.And(*[n == N[j] for n in ns]))
        deliver(e, T_, H, out, q, LO[j], LO[j] + N[j])
        return VOID
    eng.contracts['kigumi::AABB_tree::traverse'] = contract

def point_box(eng, p): return z3.Function('box_of_point', p.sort(), bbox_sort(eng))(p)
def point_boxes(eng):
    """approx() of a point and its box: a box that depends on the point only"""
    def approx(e, f, this, v): return Obj('approx', p=e.load(this))
    def bbox(e, f, this, v):
        o = e.load(this) if isinstance(this, Loc) else this
        if isinstance(o, Obj) and o.kind == 'approx': return point_box(e, o.d['p'])
        if is_sym(o) and 'Point_3' in str(o.sort()): return point_box(e, o)
        raise Unsupported('box of %r' % (o,))
    for n in ('CGAL::Lazy::approx', 'CGAL::Point_3::approx'): eng.contracts[n] = approx
    eng.contracts['CGAL::Point_3::bbox'] = bbox
def tight(eng, b, ps):
    """b is the smallest box around the boxes of the points"""
    out = []
    for d in DIRS:
        for m, lt in (('min', lambda x, y: x <= y), ('max', lambda x, y: x >= y)):
            f = co(eng, m, d); xs = [f(point_box(eng, p)) for p in ps]
            out += [lt(f(b), x) for x in xs] + [z3.Or(*[f(b) == x for x in xs])]
    return z3.And(*out)
def corners(sv, j): return [at(sv.d['points_'], at(sv.d['faces_'], j, c)) for c in range(3)]

class SoupTree(Tree):
    """the tree of a soup as C05 establishes it: leaf at place p stands for face(p), every face has one leaf, whose box is the smallest around the face"""
    def __init__(self, eng, sv, name):
        super().__init__(eng); point_boxes(eng)
        self.nf = zi(sv.d['faces_'].n); lv = self.lv()
        so = eng.leaf_sorts(self.lt); ks = [k for k in range(len(so)) if k != self.lb]
        if len(ks) != 1: raise Unsupported('layout of a leaf')
        self.face = lv.arrs[ks[0]]; LB = lv.arrs[self.lb]
        self.FB = z3.Function('face_box_' + name, I, bbox_sort(eng)); self.WH = z3.Function('leaf_of_' + name, I, I)
        eng.assume(z3.And(zi(lv.n) == self.nf, zi(lv.lo) == 0))
        eng.forall(lambda f: z3.Implies(z3.And(f >= 0, f < self.nf), tight(eng, self.FB(f), corners(sv, f))), pats=lambda f: [self.FB(f)])
        eng.forall(lambda p: z3.Implies(z3.And(p >= 0, p < self.nf), z3.And(self.face[p] >= 0, self.face[p] < self.nf, self.WH(self.face[p]) == p, LB[p] == self.FB(self.face[p]))), [self.face, LB], pats=lambda p: [self.face[p], LB[p]])
        eng.forall(lambda f: z3.Implies(z3.And(f >= 0, f < self.nf), z3.And(self.WH(f) >= 0, self.WH(f) < self.nf, self.face[self.WH(f)] == f)), pats=lambda f: [self.WH(f)])
