"""C22: triangle soups as values (Triangle_soup.h): copying, assigning, moving, appending, access by index, and the tree kept for queries."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from kvc.tree import tree_type, box_contracts, contains, tight, point_boxes
from . import C05

ID = 'C22'
HARNESS = {'src': ['C22.cc'], 'seconds': 60, 'flags': ['-fsanitize=address']}
LEVEL = 'proof'
ASSUME = ['a std::vector copies and moves its elements; a moved-from vector is empty (libstdc++)',
          'the memory needed is available; a soup has fewer than 2^48 vertices and faces',
          'the tree built for a soup answers every box query with the leaves whose boxes meet the box (proved in C05)',
          'a soup is not assigned to itself by a move']
LISTS = ('points_', 'faces_', 'face_data_')

class S:
    """a soup that may keep a tree; a kept tree was built for the faces and points the soup has"""
    def __init__(self, eng, st, name):
        P = self.P = eng.P; self.eng, self.st = eng, st
        ups = [n for n, t, _ in P.fields(st) if P.kind(t) == 'uptr']
        if len(ups) > 1: raise Unsupported('where the tree is kept')
        self.up = ups[0] if ups else None
        self.v0 = eng.fresh_of(st, name); soup_wf(eng, self.v0)
        for l in LISTS: eng.assume(zi(self.v0.d[l].n) < 2**48)
        d = dict(self.v0.d); self.tree = None
        if self.up:
            tt = P.targ(P.deref(dict((n, t) for n, t, _ in P.fields(st))[self.up]), 0); self.tree = ref(eng, eng.fresh_of(tt, 'tree_of_' + name), tt)
            self.kept = eng.fresh(z3.BoolSort(), name + '_keeps_a_tree'); d[self.up] = Ptr(self.tree, self.kept)
        self.v0 = Rec(st, d); self.loc = ref(eng, self.v0, st)
    def now(self): return self.eng.peek(self.loc)

def pointee(eng, p):
    """(may it point somewhere, where)"""
    if not isinstance(p, Ptr): raise Unsupported('value of the owner of the tree')
    if p.loc is None: return False, None
    return p.has, p.loc
def same_seq(eng, label, a, b, n=None):
    """two sequences hold equal elements"""
    na, nb = zi(a.n), zi(b.n)
    eng.oblige(label + ': same number', na == nb)
    def c():
        j = eng.fresh(I, 'any'); eng.assume(z3.And(j >= 0, j < nb))
        a1, b1 = (x if isinstance(x, Vec) else eng.pyvec_to_vec(x, None) for x in (a, b))
        for x, v in [(x, a1) for x in a1.arrs] + [(x, b1) for x in b1.arrs]: eng.on_read(x, zi(add(j, v.lo)))
        eng.oblige(label + ': same elements', z3.And(*[x[zi(add(j, a1.lo))] == y[zi(add(j, b1.lo))] for x, y in zip(a1.arrs, b1.arrs)]))
    if isinstance(a, PyVec) or isinstance(b, PyVec):
        if isinstance(a, PyVec) and isinstance(b, PyVec): eng.oblige(label + ': both empty', len(a.xs) == 0 == len(b.xs))
        return
    eng.explore(c)
def same_soup(eng, label, v, w):
    for l in LISTS: same_seq(eng, label + ', ' + l, v.d[l], w.d[l])
def fresh_tree(eng, who, v, soups, extra=0):
    """a tree kept by soup value v was built for exactly the faces v has (and their points)"""
    for n, x in v.d.items():
        if not isinstance(x, Ptr): continue
        has, l = pointee(eng, x)
        if l is None: continue
        for s in soups:
            if s.tree is not None and isinstance(l, Loc) and l.same(s.tree):
                # it was built for s.v0: v must still have those faces, with those corners
                def c(s=s):
                    eng.assume(zb(has))
                    if contradictory(eng, 500): return
                    same_seq(eng, 'the tree kept by %s belongs to its faces' % who, v.d['faces_'], s.v0.d['faces_'])
                    j = eng.fresh(I, 'any_vertex'); a, b = v.d['points_'], s.v0.d['points_']
                    eng.assume(z3.And(j >= 0, j < zi(b.n)))
                    eng.oblige('the points of the faces in the kept tree are there', j < zi(a.n))
                    if isinstance(a, Vec):
                        for x in a.arrs + b.arrs: eng.on_read(x, j)
                        eng.oblige('the points of the faces in the kept tree have not moved', z3.And(*[x[zi(add(j, a.lo))] == y[zi(add(j, b.lo))] for x, y in zip(a.arrs, b.arrs)]))
                eng.explore(c); break
        else: eng.oblige('%s keeps a tree that was built for it' % who, z3.Not(zb(has)))
def not_shared(eng, a, b):
    for x in a.d.values():
        for y in b.d.values():
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                (h, l), (g, m) = pointee(eng, x), pointee(eng, y)
                if l is not None and m is not None and l.same(m): eng.oblige('two soups do not own the same tree', z3.Not(z3.And(zb(h), zb(g))))

def soups(P): return sorted({f['rec'] for nn in ('kigumi::Triangle_soup::num_vertices', 'kigumi::Triangle_soup::face') for f in P.fns(nn) if f.get('rec') is not None})
def par_ref(P, f, t, rv):
    return len(f['p']) == 1 and P.types[f['p'][0]['t']]['k'] == 'ref' and P.deref(f['p'][0]['t']) == t and bool(P.types[f['p'][0]['t']].get('rv')) == rv
def each(fns):
    def u(eng):
        fs = fns(eng.P)
        if not fs: raise Unsupported('function not found in the current source')
        for f, body in fs: body(eng, f)
    return u
def call_ctor(eng, f, vals):
    loc = eng.new_root(None, f['rec']); eng.construct_at(loc, f, f['rec'], vals); return loc
def ctors(rv): return lambda P: [f for t in soups(P) for f in P.fns('kigumi::Triangle_soup::Triangle_soup', lambda f: f.get('rec') == t and par_ref(P, f, t, rv) and not f.get('defaulted'))]
def assigns(rv): return lambda P: [f for t in soups(P) for f in P.fns('kigumi::Triangle_soup::operator=', lambda f: f.get('rec') == t and par_ref(P, f, t, rv) and not f.get('defaulted'))]
def soup_fns(nn): return lambda P: [f for t in soups(P) for f in P.fns('kigumi::Triangle_soup::' + nn, lambda f: f.get('rec') == t)]

def over(sel, body):
    def u(eng):
        fs = sel(eng.P)
        if not fs: raise Unsupported('function not found in the current source')
        for f in fs: body(eng, f)
    return u
def no_throw(eng, kind, what): eng.oblige(what + ' raises no error', kind == 'ret')

def b_copy(eng, f):
    o = S(eng, f['rec'], 'other')
    def post(kind, l):
        if kind != 'ret': no_throw(eng, kind, 'copying'); return
        v = eng.peek(l)
        same_soup(eng, 'the copy equals the original', v, o.v0); same_soup(eng, 'the original is unchanged', o.now(), o.v0)
        fresh_tree(eng, 'the copy', v, [o]); fresh_tree(eng, 'the original', o.now(), [o]); not_shared(eng, v, o.now())
    verify(eng, lambda: call_ctor(eng, f, [o.loc]), post)
def b_move(eng, f):
    o = S(eng, f['rec'], 'other')
    def post(kind, l):
        if kind != 'ret': no_throw(eng, kind, 'moving'); return
        v = eng.peek(l)
        same_soup(eng, 'the contents are transferred', v, o.v0)
        fresh_tree(eng, 'the new soup', v, [o]); fresh_tree(eng, 'the soup moved from', o.now(), [o]); not_shared(eng, v, o.now())
    verify(eng, lambda: call_ctor(eng, f, [o.loc]), post)
def b_assign(rv):
    def b(eng, f):
        s, o = S(eng, f['rec'], 'soup'), S(eng, f['rec'], 'other')
        def post(kind, r):
            if kind != 'ret': no_throw(eng, kind, 'assigning'); return
            v = s.now(); same_soup(eng, 'the soup gets the contents of the other', v, o.v0)
            if not rv: same_soup(eng, 'the other is unchanged', o.now(), o.v0)
            fresh_tree(eng, 'the soup assigned to', v, [o, s]); fresh_tree(eng, 'the other soup', o.now(), [o, s]); not_shared(eng, v, o.now())
            eng.oblige('the soup itself is returned', isinstance(r, Loc) and r.same(s.loc))
        verify(eng, lambda: eng.inline(f, s.loc, [o.loc]), post)
        if rv: return
        t = S(eng, f['rec'], 'itself')
        def post2(kind, r):
            if kind != 'ret': no_throw(eng, kind, 'assigning to itself'); return
            same_soup(eng, 'assigning a soup to itself changes nothing', t.now(), t.v0); fresh_tree(eng, 'the soup', t.now(), [t])
        verify(eng, lambda: eng.inline(f, t.loc, [t.loc]), post2)
    return b
def b_lists(eng, f):
    P = eng.P; vs = [eng.fresh_of(p['t'], p['n']) for p in f['p']]
    ft = {n: t for n, t, _ in P.fields(f['rec'])}
    def post(kind, l):
        if kind != 'ret': no_throw(eng, kind, 'making a soup'); return
        v = eng.peek(l)
        for p, x in zip(f['p'], vs):
            n = next(n for n in LISTS if P.deref(ft[n]) == P.deref(p['t'])); same_seq(eng, 'the soup takes the given ' + n, v.d[n], x)
        fresh_tree(eng, 'the new soup', v, [])
    verify(eng, lambda: call_ctor(eng, f, list(vs)), post)
def b_default(eng, f):
    # however it is declared, a default-constructed soup is empty and keeps no tree
    def post(kind, v):
        if kind != 'ret': no_throw(eng, kind, 'making a soup'); return
        for n in LISTS:
            x = v.d[n]; eng.oblige('a new soup is empty', (len(x.xs) == 0) if isinstance(x, PyVec) else zi(x.n) == 0)
        fresh_tree(eng, 'a new soup', v, [])
    verify(eng, lambda: eng.default(f['rec']), post)

def appended(eng, label, v, w, elem):
    """v is w with elem appended"""
    n = zi(w.n); eng.oblige(label + ': one more', zi(v.n) == n + 1)
    j = eng.fresh(I, 'any')
    def c1():
        eng.assume(z3.And(j >= 0, j < n))
        for x in v.arrs + w.arrs: eng.on_read(x, j)
        eng.oblige(label + ': earlier elements are unchanged', z3.And(*[x[zi(add(j, v.lo))] == y[zi(add(j, w.lo))] for x, y in zip(v.arrs, w.arrs)]))
    def c2():
        for x in v.arrs: eng.on_read(x, n)
        eng.oblige(label + ': the new element comes last', z3.And(*[x[zi(add(n, v.lo))] == y for x, y in zip(v.arrs, elem)]))
    eng.explore(c1); eng.explore(c2)
def idx_of(eng, v, t):
    v = eng.load(v) if isinstance(v, Loc) else v
    return eng.flat(v, t)[0]
def b_add(which):
    own, other = ('points_', ('faces_', 'face_data_')) if which == 'vertex' else ('faces_', ('points_',))
    def b(eng, f):
        P = eng.P; s = S(eng, f['rec'], 'soup'); pt = P.deref(f['p'][0]['t']); x = ref(eng, eng.fresh_of(pt, 'new'), pt); xv = eng.peek(x)
        def post(kind, r):
            if kind != 'ret': no_throw(eng, kind, 'appending'); return
            v = s.now()
            eng.oblige('the index of the new element is returned', zi(idx_of(eng, r, P.deref(f['ret']))) == zi(s.v0.d[own].n))
            appended(eng, own, v.d[own], s.v0.d[own], eng.flat(xv, pt))
            if which == 'face':
                dt = P.elem(dict((n, t) for n, t, _ in P.fields(f['rec']))['face_data_'])
                appended(eng, 'face_data_', v.d['face_data_'], s.v0.d['face_data_'], eng.flat(eng.default(dt, True), dt))
            for l in other: same_seq(eng, l + ' unchanged', v.d[l], s.v0.d[l])
            fresh_tree(eng, 'the soup', v, [s])
        verify(eng, lambda: eng.inline(f, s.loc, [x]), post)
    return b
def b_at(which):
    lst = {'data': 'face_data_', 'face': 'faces_', 'point': 'points_'}[which]
    def b(eng, f):
        P = eng.P; s = S(eng, f['rec'], 'soup'); it = P.deref(f['p'][0]['t']); ix = eng.fresh_of(it, 'index'); i = zi(eng.flat(ix, it)[0]); n = zi(s.v0.d[lst].n)
        def post(kind, r):
            if kind == 'throw': eng.oblige('an error only for an index out of range', i >= n); return
            eng.oblige('an index out of range is an error', i < n)
            v = s.v0.d[lst]
            if isinstance(r, Loc):
                eng.oblige('the element itself is returned', r.root == s.loc.root and len(r.path) == 2 and r.path[0] == lst and r.path[1][0] == 'i' and z3.is_expr(zb(zi(r.path[1][1]) == i)))
                eng.oblige('of the index asked for', zi(r.path[1][1]) == i)
            else:
                et = P.elem(dict((n, t) for n, t, _ in P.fields(f['rec']))[lst])
                eng.oblige('the element of the index asked for', z3.And(*[x == a[zi(add(i, v.lo))] for x, a in zip(eng.flat(r, et), v.arrs)]))
            same_soup(eng, 'nothing changes', s.now(), s.v0); fresh_tree(eng, 'the soup', s.now(), [s])
        verify(eng, lambda: eng.inline(f, s.loc, [ix]), post)
    return b
def b_count(lst):
    def b(eng, f):
        s = S(eng, f['rec'], 'soup')
        def post(kind, r):
            if kind != 'ret': no_throw(eng, kind, 'counting'); return
            eng.oblige('the number of elements is returned', zi(eng.load(r) if isinstance(r, Loc) else r) == zi(s.v0.d[lst].n))
        verify(eng, lambda: eng.inline(f, s.loc, []), post)
    return b
def b_range(lst):
    """the enumeration goes from index 0 up to the number of elements (its steps are covered by C10)"""
    def b(eng, f):
        P = eng.P; s = S(eng, f['rec'], 'soup')
        def post(kind, r):
            if kind != 'ret': no_throw(eng, kind, 'enumerating'); return
            r = eng.load(r) if isinstance(r, Loc) else r
            if not isinstance(r, Tup) or len(r.xs) != 2: raise Unsupported('value of the enumeration')
            it = P.targ(P.deref(f['ret']), 0); ends = [eng.flat(x, it)[0] for x in r.xs]
            eng.oblige('the enumeration starts at 0 and ends after the last element', z3.And(zi(ends[0]) == 0, zi(ends[1]) == zi(s.v0.d[lst].n)))
        verify(eng, lambda: eng.inline(f, s.loc, []), post)
    return b
def units(P):
    U = lambda name, sel, b: Unit('kigumi::Triangle_soup::' + name, over(sel, b))
    us = [U('Triangle_soup()', soup_fns('num_faces'), b_default),
          U('Triangle_soup(const Triangle_soup &)', ctors(False), b_copy), U('Triangle_soup(Triangle_soup &&)', ctors(True), b_move),
          U('operator=(const Triangle_soup &)', assigns(False), b_assign(False)), U('operator=(Triangle_soup &&)', assigns(True), b_assign(True)),
          U('Triangle_soup(points, faces, data)', lambda P: [f for t in soups(P) for f in P.fns('kigumi::Triangle_soup::Triangle_soup', lambda f: f.get('rec') == t and len(f['p']) == 3)], b_lists),
          U('add_vertex', soup_fns('add_vertex'), b_add('vertex')), U('add_face', soup_fns('add_face'), b_add('face')),
          U('data', soup_fns('data'), b_at('data')), U('face', soup_fns('face'), b_at('face')), U('point', soup_fns('point'), b_at('point')),
          U('num_vertices', soup_fns('num_vertices'), b_count('points_')), U('num_faces', soup_fns('num_faces'), b_count('faces_')),
          U('vertices', soup_fns('vertices'), b_range('points_')), U('faces', soup_fns('faces'), b_range('faces_'))]
    return us + [Unit('kigumi::Triangle_soup::aabb_tree', C05.u_soup)]
