"""C10: incidence and adjacency queries of a finalised mesh (Triangle_mesh.h, Mesh_iterators.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from kvc.engine import Frame
from kvc.lib import facade_call

ID = 'C10'
HARNESS = {'src': ['C10.cc'], 'seconds': 60}
LEVEL = 'proof'
ASSUME = ['every face has three distinct corners, which are vertices of the mesh (precondition of the property)',
          'parallel_sort by contract (C20): a sorted permutation', 'the border set behaves as a finite set; its contents are arbitrary', 'termination is not proved']

def mesh_type(P): return typ_where(P, lambda P, t: is_mesh(P, t) and P.fns('kigumi::Triangle_mesh::faces_around_edge', lambda f: f.get('rec') == t))
class M:
    """a mesh: corner arrays and what it means for a face to have a vertex"""
    def __init__(self, eng, mt):
        self.eng = eng; P = eng.P; self.mt = mt
        self.m = eng.fresh_of(mt, 'm')
        d = self.m.d
        self.nv = zi(d['points_'].n); self.nf = zi(d['faces_'].n)
        self.fa = d['faces_'].arrs
        soup_wf(eng, self.m)
        eng.forall(lambda f: z3.Implies(z3.And(f >= 0, f < self.nf), self.distinct(f)), self.fa, pats=lambda f: [a[f] for a in self.fa])
    def corner(self, f, k): return self.fa[k][f]
    def distinct(self, f): a, b, c = (x[f] for x in self.fa); return z3.And(a != b, b != c, a != c)
    def has(self, f, v): return z3.Or(*[a[f] == v for a in self.fa])
    def inf(self, f): return z3.And(f >= 0, f < self.nf)
    def inv(self, v): return z3.And(v >= 0, v < self.nv)
class CSR:
    """the incidence lists of a finalised mesh (established by finalize): for every vertex the increasing list of exactly the faces at it"""
    def __init__(self, eng, S):
        self.S = S; self.O = S.m.d['indices_']; self.F = S.m.d['face_indices_']
        self.off = lambda v: self.O.arrs[0][v]
        self.f = lambda p: self.F.arrs[0][p]
        self.POS = z3.Function(eng.fresh_name('pos'), I, I, I)     # where face f stands in the list of v
    def clauses(self):
        """[(name, fn, sorts, pats)]"""
        S, off, f, POS = self.S, self.off, self.f, lambda g, v: self.POS(g, v)
        inl = lambda v, p: z3.And(S.inv(v), p >= off(v), p < off(v + 1))
        O, F = self.O.arrs[0], self.F.arrs[0]
        return [('one list boundary per vertex and one at the end', None, lambda: z3.And(zi(self.O.n) == S.nv + 1, zi(self.F.n) == 3 * S.nf)),
            ('list boundaries increase within the list of faces', [I], lambda v: z3.Implies(S.inv(v), z3.And(off(v) >= 0, off(v) <= off(v + 1), off(v + 1) <= zi(self.F.n))), lambda v: [O[v]]),
            ('every listed face has the vertex', [I, I], lambda v, p: z3.Implies(inl(v, p), z3.And(S.inf(f(p)), S.has(f(p), v))), lambda v, p: [z3.MultiPattern(O[v], F[p])]),
            ('a list holds a face once, in increasing order', [I, I, I], lambda v, p, q: z3.Implies(z3.And(inl(v, p), inl(v, q), p < q), f(p) < f(q)), lambda v, p, q: [z3.MultiPattern(O[v], F[p], F[q])]),
            ('every face is listed at each of its corners', [I, I], lambda g, v: z3.Implies(z3.And(S.inf(g), S.inv(v), S.has(g, v)), z3.And(POS(g, v) >= off(v), POS(g, v) < off(v + 1), f(POS(g, v)) == g)), lambda g, v: [POS(g, v)])]
    def assume(self, eng, vs):
        """the clauses, instantiated at the lists of the vertices vs and at the list positions the code looks at"""
        c = {n.split()[0] + ' ' + n.split()[1]: fn for n, so, fn, *p in self.clauses()}
        eng.assume(c['one list']())
        F = self.F.arrs[0]; f = self.f
        eng.forall(c['list boundaries'], [self.O.arrs[0]], pats=lambda v: [self.O.arrs[0][v]])
        for v in vs:
            eng.assume(c['list boundaries'](v))
            eng.forall(lambda p: z3.And(c['every listed'](v, p), c['every face'](f(p), v)), [F], pats=lambda p: [F[p]])
        def at_position(p):
            q = z3.Const('q~', I); out = []
            for v in vs:
                out.append(c['every listed'](v, self.POS(f(p), v)))
                out.append(z3.ForAll([q], z3.And(c['a list'](v, q, p), c['a list'](v, p, q)), patterns=[F[q]]))
            return z3.And(*out)
        eng.trig.setdefault(F.get_id(), []).append(at_position)

def client(eng):
    eng.frames.append(Frame({'nn': 'client', 'n': 'client', 'body': {}}, {}, None))
def fcall(eng, name, x, vals=()): return facade_call(eng, eng.load(x), name, x, list(vals))

def u_edge(eng):
    """the sequence of faces_around_edge: exactly the faces with both ends, each once"""
    P = eng.P; mt = mesh_type(P); S = M(eng, mt); C = CSR(eng, S)
    mloc = ref(eng, S.m, mt)
    fn = P.fn('kigumi::Triangle_mesh::faces_around_edge', lambda f: f.get('rec') == mt)
    et = P.deref(fn['p'][0]['t'])
    a, b = eng.fresh(I, 'a'), eng.fresh(I, 'b')
    eng.assume(z3.And(S.inv(a), S.inv(b), a != b))
    C.assume(eng, [a, b])
    edge = ref(eng, eng.unflat(et, [a, b]), et)
    ends = {'i': (a, b), 'j': (b, a)}
    lst = mloc.f('face_indices_')
    E = z3.ArraySort(I, z3.BoolSort())
    seen = eng.new_root(z3.K(I, z3.BoolVal(False))); last = eng.new_root(z3.IntVal(-1))
    f = C.f
    def its(L, snap=None):
        """positions in the incidence lists that the loop moves"""
        out = []; snap = snap or L.cur
        mods = {k for k in L.mods if L.mods[k][0] == 'it'}
        for root, key in sorted(mods, key=str):
            v = snap[0][root]
            for k in key[:-1]:
                v = v.d[k] if isinstance(v, Rec) else v.xs[k] if isinstance(v, (Tup, PyVec)) else v
            if isinstance(v, It) and v.loc is not None and (v.loc.root, v.loc.path) == (lst.root, lst.path): out.append(zi(v.idx))
        return out
    inlist = {}
    def pos(L, n, r):
        """n-th position, when it starts in the list of end r"""
        x = its(L)
        if n >= len(x): raise SpecError('no such position')
        x0 = its(L, L.entry)[n]; u = ends[r][0]
        k = z3.And(x0 >= C.off(u), x0 <= C.off(u + 1))
        if k.get_id() not in inlist: eng.alive.append(k); inlist[k.get_id()] = eng.quick(k)
        if not inlist[k.get_id()]: raise SpecError('position of another list')
        return x[n]
    def role(n, r):
        u, w = ends[r]
        lo, hi = C.off(u), C.off(u + 1)
        def rng(L): x = pos(L, n, r); return z3.And(x >= lo, x <= hi)
        def skip(L):
            x = pos(L, n, r); SN = L.at(seen)
            return Quant(lambda p: z3.Implies(z3.And(p >= lo, p < x, S.has(f(p), w)), SN[f(p)]), [C.F.arrs[0]], pats=lambda p: [f(p)])
        def new(L):
            x = pos(L, n, r); return z3.Implies(x < hi, f(x) > L.at(last))
        return [('position %d stays in the list of end %s' % (n, r), rng), ('faces with both ends before position %d of end %s were met' % (n, r), skip), ('position %d of end %s is past the faces met' % (n, r), new)]
    def pair(n, m_):
        hi, hj = C.off(a + 1), C.off(b + 1)
        def both(L):
            x, y = pos(L, n, 'i'), pos(L, m_, 'j'); return (x == hi) == (y == hj)
        def match(L):
            x, y = pos(L, n, 'i'), pos(L, m_, 'j'); return z3.Implies(z3.And(x < hi, y < hj), f(x) == f(y))
        return [('positions %d and %d end together' % (n, m_), both), ('positions %d and %d are at the same face' % (n, m_), match)]
    N = 4
    def i_last(L):
        SN = L.at(seen); return Quant(lambda g: z3.Implies(SN[g], g <= L.at(last)), sorts=[I], pats=lambda g: [SN[g]])
    eng.invs['*'] = [x for n in range(N) for r in 'ij' for x in role(n, r)] + [x for n in range(N) for k in range(N) if k != n for x in pair(n, k)]
    def th():
        r = run(eng, fn, mloc, [edge])
        x0, e0 = r.xs if isinstance(r, Tup) else eng.load(r).xs
        x, e = eng.new_root(x0, x0.t), eng.new_root(e0, e0.t)
        client(eng)
        def cond(): return Not(eng.tobool(fcall(eng, 'equal', x, [e])))
        def body():
            g = fcall(eng, 'dereference', x)
            g = eng.load(g) if isinstance(g, Loc) else g
            g = zi(eng.flat(g, P.typ('kigumi::Index', lambda t: is_face_index(P, t['id'])))[0])
            eng.oblige('every face met has both ends of the edge', z3.And(S.inf(g), S.has(g, a), S.has(g, b)))
            eng.oblige('every face is met once, in increasing order', g > eng.load(last))
            eng.store(seen, z3.Store(eng.load(seen), g, z3.BoolVal(True))); eng.store(last, g)
        eng.loop({'k': 'For'}, cond, body, lambda: fcall(eng, 'increment', x))
        eng.frames.pop()
    def post(kind, v):
        eng.oblige('going round an edge raises no error', kind == 'ret')
        g = eng.fresh(I, 'face'); eng.assume(z3.And(S.inf(g), S.has(g, a), S.has(g, b)))
        for v in (a, b): eng.assume([c for c in C.clauses() if c[0].startswith('every face')][0][2](g, v))
        eng.oblige('every face with both ends is met', eng.load(seen)[g])
    verify(eng, th, post)

def edge_lists(eng, S, mloc):
    """contract of faces_around_edge (proved above): the list of exactly the faces with both ends, each once"""
    P = eng.P
    ROW = z3.Function('faces_at_edge', I, I, z3.ArraySort(I, I)); N = z3.Function('number_of_faces_at_edge', I, I, I); POS = z3.Function('place_at_edge', I, I, I, I)
    ft = P.typ('kigumi::Index', lambda t: is_face_index(P, t['id']))
    def facts(u, v):
        r = ROW(u, v)
        eng.assume(z3.And(N(u, v) >= 0, N(u, v) < 2**48))
        eng.forall(lambda p: z3.Implies(z3.And(p >= 0, p < N(u, v)), z3.And(S.inf(r[p]), S.has(r[p], u), S.has(r[p], v), POS(r[p], u, v) == p)), [r], pats=lambda p: [r[p]])
        eng.forall(lambda g: z3.Implies(z3.And(S.inf(g), S.has(g, u), S.has(g, v)), z3.And(POS(g, u, v) >= 0, POS(g, u, v) < N(u, v), r[POS(g, u, v)] == g)), pats=lambda g: [POS(g, u, v)])
    def fae(e, f, this, vals):
        if this.root != mloc.root: raise Unsupported('another mesh')
        x = e.load(vals[0]) if isinstance(vals[0], Loc) else vals[0]
        u, v = (zi(y) for y in e.flat(x, e.P.deref(f['p'][0]['t'])))
        e.oblige('the edge joins two vertices of the mesh', z3.And(S.inv(u), S.inv(v), u != v))
        c = dict(e.g.get('rows', {})); k = (u.get_id(), v.get_id())
        if k not in c:
            facts(u, v); c[k] = (e.new_root(Vec(ft, N(u, v), [ROW(u, v)]), None), u, v); e.alive.append((u, v)); e.g['rows'] = c
        return Tup([It(c[k][0], 0), It(c[k][0], N(u, v))])
    eng.contracts['kigumi::Triangle_mesh::faces_around_edge'] = fae
    return ROW, N, POS

def lo(x, y): return z3.If(x < y, x, y)
def hi(x, y): return z3.If(x < y, y, x)
def u_make_edge(eng):
    P = eng.P; fn = P.fn('kigumi::make_edge'); vt = P.deref(fn['p'][0]['t']); a, b = eng.fresh_of(vt, 'a'), eng.fresh_of(vt, 'b')
    (x,), (y,) = eng.flat(a, vt), eng.flat(b, vt)
    def post(kind, v):
        eng.oblige('making an edge raises no error', kind == 'ret')
        u, w = (zi(t) for t in eng.flat(v, fn['ret']))
        eng.oblige('an edge lists its two ends, the smaller first', z3.And(u == lo(x, y), w == hi(x, y)))
    verify(eng, lambda: run(eng, fn, None, [a, b]), post)
def edge_contract(eng):
    """make_edge by contract; -> function that names the ends of the edge of two vertices"""
    EC = {}
    def named(x, y):
        x, y = sorted((x, y), key=lambda t: t.get_id())
        k = (x.get_id(), y.get_id())
        if k not in EC: eng.alive.append((x, y)); EC[k] = (z3.Int('end1~%d' % len(EC)), z3.Int('end2~%d' % len(EC)))
        u, v = EC[k]
        eng.assume(z3.And(u == lo(x, y), v == hi(x, y)))
        return u, v
    def me(e, f, this, vals):
        x, y = (zi(e.flat(e.load(v) if isinstance(v, Loc) else v, e.P.deref(p['t']))[0]) for v, p in zip(vals, f['p']))
        return e.unflat(f['ret'], list(named(x, y)))
    eng.contracts['kigumi::make_edge'] = me
    return named

class Around:
    """the faces around one face f: three edge lists and a position in each"""
    def __init__(self, eng):
        self.eng = eng; P = self.P = eng.P; self.mt = mesh_type(P); S = self.S = M(eng, self.mt)
        self.named = edge_contract(eng); self.mloc = ref(eng, S.m, self.mt); self.ROW, self.N, self.POS = edge_lists(eng, S, self.mloc)
        self.fn = P.fn('kigumi::Triangle_mesh::faces_around_face', lambda f: f.get('rec') == self.mt)
        bt = P.deref(self.fn['p'][1]['t']); self.border = eng.fresh_of(bt, 'border'); self.bl = ref(eng, self.border, bt)
        f = self.f = eng.fresh(I, 'f'); eng.assume(S.inf(f)); eng.assume(S.distinct(f))
        self.it = P.deref(self.fn['p'][0]['t'])
        cs = [a[f] for a in S.fa]
        for c in cs: eng.assume(S.inv(c))
        self.edges = [self.named(x, y) for x, y in ((cs[0], cs[1]), (cs[1], cs[2]), (cs[2], cs[0]))]
        self.et = P.targ(bt, 0)
        self.B = [z3.Bool('border~%d' % k) for k in range(3)]
        for k in range(3): eng.assume(self.B[k] == z3.Select(self.border.dom, eng.key_term(self.et, eng.unflat(self.et, list(self.edges[k])))))
        self.count = N = [self.N(*e) for e in self.edges]; self.row = [self.ROW(*e) for e in self.edges]
    def place(self, g, k): return self.POS(g, *self.edges[k])
    def inrow(self, g, k): u, v = self.edges[k]; return z3.And(self.S.inf(g), self.S.has(g, u), self.S.has(g, v))
    def current(self, x, perm):
        r = z3.IntVal(-1)
        for k in reversed(perm): r = z3.If(x[k] < self.count[k], self.row[k][x[k]], r)
        return r
    def met(self, x, g):
        """number of visits of g before the positions x"""
        return z3.Sum([z3.If(z3.And(z3.Not(self.B[k]), self.inrow(g, k), self.place(g, k) < x[k]), 1, 0) for k in range(3)])
    def ranges(self, x): return z3.And(*[z3.And(x[k] >= 0, x[k] <= self.count[k], z3.Implies(self.B[k], x[k] == self.count[k])) for k in range(3)])
    def find(self, v, mods=()):
        """{edge: (key, position)} of the iterator value v; a position that the code moves comes first"""
        eng = self.eng; its = []; out = {}
        def go(v, key):
            if isinstance(v, Rec):
                for k, x in v.d.items(): go(x, key + (k,))
            elif isinstance(v, It) and v.loc is not None: its.append((0 if key + ('idx',) in mods else 1, len(its), key, v))
        go(v, ())
        for m_, n_, key, v in sorted(its, key=lambda x: x[:2]):
            for loc, a, b in eng.g.get('rows', {}).values():
                if loc.root == v.loc.root:
                    for k in range(3):
                        e = self.edges[k]
                        if k not in out and (a.eq(e[0]) and b.eq(e[1]) or eng.quick(z3.And(a == e[0], b == e[1]))): out[k] = (key, zi(v.idx))
        return out
    def pos(self, L, snap=None):
        mods = {}
        for r, k in L.mods:
            if L.mods[(r, k)][0] == 'it': mods.setdefault(r, set()).add(k)
        for root in sorted(mods):
            o = self.find((snap or L.cur)[0][root], mods[root])
            if len(o) == 3: return [o[k][1] for k in range(3)]
        raise SpecError('positions')
    def pats(self, g): return [self.place(g, k) for k in range(3)]
PERMS = [(0, 1, 2), (2, 1, 0)]      # the order in which the code goes through the edges

def u_advance(eng):
    """increment: moves on to the next face that is not f itself; only f is passed over"""
    P = eng.P; A = Around(eng); S, f = A.S, A.f
    fn = P.fn('kigumi::Face_around_face_iterator::increment')
    rt = fn['rec']
    # an iterator somewhere in the three lists
    fae = eng.contracts['kigumi::Triangle_mesh::faces_around_edge']; ef = P.fn('kigumi::Triangle_mesh::faces_around_edge', lambda f: f.get('rec') == A.mt)
    et = P.deref(ef['p'][0]['t'])
    x = [eng.fresh(I, 'x%d' % k) for k in range(3)]
    def th():
        d = {}; flds = P.fields(rt); k = 0; n = {}
        for nm, t, fi in flds:
            if is_face_index(P, t): d[nm] = eng.unflat(t, [f])
        rest = [nm for nm, t, fi in flds if nm not in d]
        if len(rest) != 6: raise Unsupported('fields of the iterator')
        for k in range(3):
            b, e = fae(eng, ef, A.mloc, [eng.unflat(et, list(A.edges[k]))]).xs
            d[rest[2 * k]] = It(b.loc, x[k]); d[rest[2 * k + 1]] = e
        eng.assume(A.ranges(x))
        eng.assume(z3.Or(*[x[k] < A.count[k] for k in range(3)]))
        l = eng.new_root(Rec(rt, d), rt); eng.g['iterator'] = l
        return run(eng, fn, l, [])
    def left(x, c): return lambda g: A.met(x, g) + z3.If(g == c, 1, 0)
    def i_range(L): return A.ranges(A.pos(L))
    def i_some(L): y = A.pos(L); return z3.Or(*[y[k] < A.count[k] for k in range(3)])
    def i_pass(perm):
        def h(L):
            y = A.pos(L); a, b = left(x, A.current(x, perm)), left(y, A.current(y, perm))
            return Quant(lambda g: z3.Implies(z3.And(S.inf(g), g != f), a(g) == b(g)), sorts=[I], pats=A.pats)
        return h
    eng.invs['*'] = [('positions stay in the lists of the edges', i_range), ('some list is not at its end', i_some)] + [('only the face itself is passed over, order %s' % (p,), i_pass(p)) for p in PERMS]
    g = eng.fresh(I, 'face')
    def post(kind, v):
        eng.oblige('moving on raises no error', kind == 'ret')
        o = A.find(eng.load(eng.g['iterator']))
        if len(o) != 3: raise Unsupported('positions')
        y = [o[k][1] for k in range(3)]
        eng.oblige('positions stay in the lists of the edges', A.ranges(y))
        eng.assume(S.inf(g))
        eng.oblige('exactly the current face is left behind, apart from the face itself', z3.Implies(g != f, A.met(y, g) == left(x, A.current(x, PERMS[0]))(g)))
        eng.oblige('the next face is another face', A.current(y, PERMS[0]) != f)
    verify(eng, th, post)

def u_face(eng):
    """the sequence of faces_around_face: every other face once for every non-border edge shared with it"""
    P = eng.P; A = Around(eng); S, f = A.S, A.f
    C0 = eng.fresh(z3.ArraySort(I, I), 'met'); count = eng.new_root(C0); eng.forall(lambda g: C0[g] == 0, [C0], pats=lambda g: [C0[g]])
    def advance(e, f_, this, vals):
        """contract of increment (proved above)"""
        v = e.load(this); o = A.find(v)
        if len(o) != 3: raise Unsupported('positions')
        x = [o[k][1] for k in range(3)]; y = [e.fresh(I, 'next') for k in range(3)]
        e.oblige('the iterator moved on is not at its end', z3.And(A.ranges(x), z3.Or(*[x[k] < A.count[k] for k in range(3)])))
        e.store(this, e.rebuild(v, {o[k][0] + ('idx',): y[k] for k in range(3)}, v.t))
        e.assume(A.ranges(y)); c = A.current(x, PERMS[0])
        e.forall(lambda g: z3.Implies(z3.And(S.inf(g), g != f), A.met(y, g) == A.met(x, g) + z3.If(g == c, 1, 0)), sorts=[I], pats=A.pats)
        e.assume(A.current(y, PERMS[0]) != f)
        return VOID
    eng.contracts['kigumi::Face_around_face_iterator::increment'] = advance
    def i_range(L): return A.ranges(A.pos(L))
    def i_met(L):
        x = A.pos(L); C = L.at(count)
        return Quant(lambda g: z3.Implies(z3.And(S.inf(g), g != f), C[g] == A.met(x, g)), [C], pats=lambda g: [C[g]] + A.pats(g) if not z3.is_store(C) else [])
    def i_f(L): return L.at(count)[f] == 0
    eng.invs['*'] = [('positions stay in the lists of the edges', i_range), ('the faces met are those before the positions', i_met), ('the face itself is not met', i_f), ('the current face is another face', lambda L: A.current(A.pos(L), PERMS[0]) != f)]
    g0 = eng.fresh(I, 'face')
    def th():
        r = run(eng, A.fn, A.mloc, [eng.unflat(A.it, [f]), A.bl])
        x0, e0 = r.xs if isinstance(r, Tup) else eng.load(r).xs
        x, e = eng.new_root(x0, x0.t), eng.new_root(e0, e0.t)
        client(eng)
        def cond(): return Not(eng.tobool(fcall(eng, 'equal', x, [e])))
        def body():
            g = fcall(eng, 'dereference', x)
            g = eng.load(g) if isinstance(g, Loc) else g
            g = zi(eng.flat(g, P.typ('kigumi::Index', lambda t: is_face_index(P, t['id'])))[0])
            eng.oblige('every face met is another face of the mesh', z3.And(S.inf(g), g != f))
            C = eng.load(count); eng.store(count, z3.Store(C, g, C[g] + 1))
        eng.loop({'k': 'For'}, cond, body, lambda: fcall(eng, 'increment', x))
        eng.frames.pop()
    def post(kind, v):
        eng.oblige('going round a face raises no error', kind == 'ret')
        C = eng.load(count); eng.assume(S.inf(g0)); eng.on_read(C, g0)
        shared = z3.Sum([z3.If(z3.And(z3.Not(A.B[k]), A.inrow(g0, k)), 1, 0) for k in range(3)])
        eng.oblige('another face is met once for every non-border edge shared with it', z3.Implies(g0 != f, C[g0] == shared))
        eng.oblige('the face itself is not met', C[f] == 0)
    verify(eng, th, post)

def sort_contract(eng, after=None):
    from kvc.lib import sort_abstract
    def ps(e, f, this, vals):
        a, b = (e.load(v) if isinstance(v, Loc) else v for v in vals[:2])
        if len(vals) > 2 and e.P.rname(e.P.deref(f['p'][2]['t'])) != 'std::less': raise Unsupported('order of the sort')
        sort_abstract(e, f, vals[:2], a, b)
        if after: after(e, a, b)
        return VOID
    eng.contracts['kigumi::parallel_sort'] = ps

def u_finalize(eng):
    """finalize builds, for every vertex, the increasing list of exactly the faces at it"""
    P = eng.P; mt = mesh_type(P); S = M(eng, mt); d = S.m.d
    ENTRY = [z3.Function('entry_of_corner_%d' % c, I, I) for c in range(3)]       # where the entry of a corner of a face stands in the sorted list
    def sorted_entries(e, a, b):
        """lemmas about the sorted entries"""
        v = e.load(a.loc); n = zi(v.n); V, F = v.arrs; pm, qm = e.g['last_perm']
        def rng(V, F, j): return z3.Implies(z3.And(j >= 0, j < n), z3.And(V[j] >= 0, V[j] < S.nv, F[j] >= 0, F[j] < S.nf, S.has(F[j], V[j])))
        def lem():
            j = e.fresh(I, 'j'); e.on_read(V, j); e.oblige('entries are corners of faces', rng(V, F, j))
        e.explore(lem)
        e.forall(lambda j: rng(V, F, j), [V, F], pats=lambda j: [V[j], F[j]])
        def strict(V, F, i, j): return z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Or(V[i] < V[j], z3.And(V[i] == V[j], F[i] < F[j])))
        def lem2():
            i, j = e.fresh(I, 'i'), e.fresh(I, 'j'); e.on_read(V, i); e.on_read(V, j)
            e.oblige('entries are in strictly increasing order', strict(V, F, i, j))
        e.explore(lem2)
        def listed(V, F, q, g, c): return z3.Implies(S.inf(g), z3.And(q >= 0, q < n, V[q] == S.fa[c][g], F[q] == g))
        def lem3(c):
            def th():
                g = e.fresh(I, 'g'); e.on_read(V, qm(3 * g + c)); e.oblige('every corner of every face has an entry', listed(V, F, qm(3 * g + c), g, c))
            e.explore(th)
        for c in range(3): lem3(c)
        # from here on the sorted list is known by these facts only
        V2, F2 = (e.fresh(z3.ArraySort(I, I), x) for x in ('vertex_of_entry', 'face_of_entry'))
        e.forall(lambda j: rng(V2, F2, j), [V2, F2], pats=lambda j: [V2[j], F2[j]])
        e.forall(lambda i, j: strict(V2, F2, i, j), sorts=[I, I], pats=lambda i, j: [z3.MultiPattern(V2[i], V2[j])])
        for c in range(3): e.forall(lambda g, c=c: listed(V2, F2, ENTRY[c](g), g, c), sorts=[I], pats=lambda g, c=c: [ENTRY[c](g)])
        e.store(a.loc, Vec(v.et, v.n, [V2, F2]))
    sort_contract(eng, sorted_entries)
    for n in ('indices_', 'face_indices_'): eng.assume(zi(d[n].n) == 0)       # a mesh is finalised once
    eng.assume(S.nf < 2**40); eng.assume(S.nv < 2**40)
    mloc = ref(eng, S.m, mt)
    fn = P.fn('kigumi::Triangle_mesh::finalize', lambda f: f.get('rec') == mt)
    is_map = lambda P, t: P.kind(t) == 'vec' and P.rname(P.elem(t)) in ('std::pair', 'std::tuple')
    def mp(L):
        r = [l for n, t, l in L.vars(frames=True) if t is not None and isinstance(l, Loc) and is_map(P, P.deref(t))]
        if len(r) != 1: raise SpecError('list of entries')
        return L.at(r[0])
    cv = lambda f, c: z3.If(c == 0, S.fa[0][f], z3.If(c == 1, S.fa[1][f], S.fa[2][f]))
    def entry(v, q): return z3.And(v.arrs[0][q] == cv(q / 3, q % 3), v.arrs[1][q] == q / 3)
    def i_map(L):
        v = mp(L)
        return Quant(lambda q: z3.Implies(z3.And(q >= 0, q < zi(v.n)), entry(v, q)), v.arrs, pats=lambda q: [x[q] for x in v.arrs] if not z3.is_store(v.arrs[0]) else [])
    def i_len(L): return zi(mp(L).n) == 3 * zi(L.k)
    def fis(L): return L.at(mloc).d['face_indices_'], L.at(mloc).d['indices_']
    def i_copied(L):
        m2 = mp(L); F, O = fis(L)
        return Quant(lambda q: z3.Implies(z3.And(q >= 0, q < zi(F.n)), F.arrs[0][q] == m2.arrs[1][q]), F.arrs, pats=lambda q: [F.arrs[0][q]] if not z3.is_store(F.arrs[0]) else [])
    def i_flen(L): return zi(fis(L)[0].n) == zi(L.k)
    def bound(off):
        def g(L):
            m2 = mp(L); F, O = fis(L); K = zi(F.n) - off
            o = O.arrs[0]
            # boundary v separates the entries before vertex v from the others, among the first K
            return Quant(lambda v: z3.Implies(z3.And(v >= 0, v < zi(O.n)), z3.And(o[v] >= 0, o[v] <= K, z3.Implies(o[v] < K, m2.arrs[0][o[v]] >= v), z3.Implies(o[v] > 0, m2.arrs[0][o[v] - 1] < v))), O.arrs, pats=lambda v: [o[v]] if not z3.is_store(o) else [])
        return g
    def lens(L):
        m2 = mp(L); F, O = fis(L); return z3.And(zi(O.n) >= 0, zi(O.n) <= S.nv, z3.If(zi(L.k) == 0, zi(O.n) == 0, zi(O.n) == m2.arrs[0][zi(L.k) - 1] + 1))
    def past(L):
        m2 = mp(L); F, O = fis(L); return z3.Implies(zi(F.n) > 0, zi(O.n) <= m2.arrs[0][zi(F.n) - 1] + 1)
    def signed(n):
        def g(L):
            xs = [(nm, L.at(l)) for nm, t, l in L.vars() if t is not None and isinstance(l, Loc) and P.kind(P.deref(t)) == 'int' and any(r == l.root for r, k in L.mods)]
            if n >= len(xs): raise SpecError('no such number')
            return zi(xs[n][1])
        return [('one boundary per vertex up to the last one met (number %d)' % n, lambda L: g(L) + 1 == zi(fis(L)[1].n)), ('counter of the entries (number %d)' % n, lambda L: g(L) == zi(L.k))]
    eng.invs['*'] = [('entries of the faces met so far', i_map), ('three entries per face', i_len), ('faces copied in order', i_copied), ('one copied face per entry', i_flen), ('list boundaries', bound(0)), ('list boundaries before the current entry', bound(1)), ('last vertex met', lens), ('no boundary past the current vertex', past)] \
        + [x for n in range(5) for x in signed(n)]
    def post(kind, v):
        eng.oblige('finalising raises no error', kind == 'ret')
        m1 = eng.load(mloc)
        S1 = S; S1.m = m1; C = CSR(eng, S1)
        for nm, so, fn_, *p in C.clauses():
            def chk():
                if so is None: eng.oblige(nm, fn_()); return
                xs = [eng.fresh(s_, 'x') for s_ in so]
                for x in xs:
                    for t in (x, x + 1):
                        eng.on_read(C.O.arrs[0], t); o = C.O.arrs[0][t]
                    eng.on_read(C.F.arrs[0], x)
                if nm.startswith('every face'):
                    g, v = xs; k = 0
                    while k < 2 and not eng.branch(S.fa[k][g] == v): k += 1
                    C.POS = lambda g, v: ENTRY[k](g)
                    eng.on_read(C.F.arrs[0], C.POS(*xs)); eng.on_read(C.O.arrs[0], xs[1]); eng.on_read(C.O.arrs[0], xs[1] + 1)
                eng.oblige(nm, fn_(*xs))
            eng.explore(chk)
        for n_ in ('points_', 'faces_', 'face_data_'): eng.oblige('vertices, faces and data stay', t_eq(d[n_], m1.d[n_]))
    verify(eng, lambda: run(eng, fn, mloc, []), post)

def units(P): return [Unit('kigumi::make_edge', u_make_edge), Unit('kigumi::Triangle_mesh::finalize', u_finalize), Unit('kigumi::Face_around_face_iterator::increment', u_advance, heavy=True), Unit('kigumi::Face_around_face_iterator: the faces around a face', u_face, heavy=True), Unit('kigumi::Face_around_edge_iterator: the faces around an edge', u_edge)]
