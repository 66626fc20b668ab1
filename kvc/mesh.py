"""The contract of Triangle_mesh::faces_around_face (established by C10): a finite list of faces, a function of mesh, face and border."""
import z3
from .spec import *

ROW = z3.Function('adjacent_faces', I, z3.ArraySort(I, I))
DEG = z3.Function('number_of_adjacent_faces', I, I)
def is_fd(P, t): return P.rname(t) == 'kigumi::Mixed_face_data'
def leaf_index(eng, t, *path):
    """position of the scalar at the field path in the flattened type"""
    P = eng.P; k = 0
    for n in path:
        for fn, ft, _ in P.fields(t):
            if fn == n: t = ft; break
            k += len(eng.leaf_sorts(ft))
        else: raise Unsupported('field ' + n)
    return k
def adj(f, i): return z3.Select(ROW(f), i)
def adj_facts(eng, nf):
    """adjacent faces are faces of the mesh"""
    eng.forall(lambda f, i: z3.Implies(z3.And(f >= 0, f < nf, i >= 0, i < DEG(f)), z3.And(adj(f, i) >= 0, adj(f, i) < nf)), sorts=[I, I], pats=lambda f, i: [adj(f, i)])
    eng.forall(lambda f: z3.And(DEG(f) >= 0, DEG(f) < 2**48), pats=lambda f: [DEG(f)])
def install(eng, nf):
    """faces_around_face(f, border) behaves as the sequence adj(f, 0 .. DEG(f))"""
    def faf(e, f_, this, vals):
        f = vals[0]
        f = e.load(f) if isinstance(f, Loc) else f
        f = zi(e.flat(f, e.P.deref(f_['p'][0]['t']))[0])
        e.oblige('the face whose neighbours are asked for exists', z3.And(f >= 0, f < nf))
        ft = e.P.typ('kigumi::Index', lambda t: is_face_index(e.P, t['id']))
        e.assume(z3.And(DEG(f) >= 0, DEG(f) < 2**48))
        if e.fp is not None:   # reads the faces and the incidence lists
            for n in ('faces_', 'indices_', 'face_indices_'): e.access('R', this.f(n))
        l = e.new_root(Vec(ft, DEG(f), [ROW(f)]), None)
        e.forall(lambda j: z3.Implies(z3.And(j >= 0, j < DEG(f)), z3.And(adj(f, j) >= 0, adj(f, j) < nf)), [ROW(f)])
        return Tup([It(l, 0), It(l, DEG(f))])
    eng.contracts['kigumi::Triangle_mesh::faces_around_face'] = faf

class Mixed:
    """the mixed mesh with its classification as the code under verification sees it"""
    def __init__(self, eng, mt):
        P = eng.P; self.eng = eng; self.mt = mt
        self.m = eng.fresh_of(mt, 'm'); self.mloc = ref(eng, self.m, mt)
        fd = self.m.d['face_data_']; self.nf = zi(self.m.d['faces_'].n); eng.assume(zi(fd.n) == self.nf)
        self.fd = fd; self.lt = leaf_index(eng, fd.et, 'tag'); self.ll = leaf_index(eng, fd.et, 'from_left')
        c = P.types[P.typ('kigumi::Face_tag')]['consts']; self.tags = {k: z3.BitVecVal(v, 8) for k, v in c.items()}
        self.U = self.tags['UNKNOWN']
        self.tag0 = fd.arrs[self.lt]; self.left0 = fd.arrs[self.ll]
        adj_facts(eng, self.nf); install(eng, self.nf)
        w = P.types[P.typ('kigumi::Warnings')]['consts']
        self.w = {k: z3.BitVecVal(v, 8) for k, v in w.items()}
    def left(self, f):
        x = self.left0[f]
        return x if z3.is_bool(x) else x != 0
    def tag(self, L): return L.at(self.mloc).d['face_data_'].arrs[self.lt]
