"""C01: face selection of the 16 operators (Boolean_operator.h, Extract.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit

ID = 'C01'
HARNESS = {'src': ['C01.cc'], 'seconds': 30}
# README formulas: the truth of (A, B) in the result
F = {'V': lambda a, b: True, 'A': lambda a, b: a or b, 'B': lambda a, b: not (b and not a), 'C': lambda a, b: not (a and not b),
     'D': lambda a, b: not (a and b), 'E': lambda a, b: a == b, 'F': lambda a, b: not a, 'G': lambda a, b: not b, 'H': lambda a, b: b,
     'I': lambda a, b: a, 'J': lambda a, b: a != b, 'K': lambda a, b: a and b, 'L': lambda a, b: a and not b, 'M': lambda a, b: b and not a,
     'X': lambda a, b: not (a or b), 'O': lambda a, b: False}
ALIAS = {'UNION': 'A', 'SYMMETRIC_DIFFERENCE': 'J', 'INTERSECTION': 'K', 'DIFFERENCE': 'L'}

def op_type(P): return P.typ('kigumi::Boolean_operator')
def consts(P): return P.types[op_type(P)]['consts']
def f(P, op, a, b):
    """set formula of the operator as a term over the operator's numeric value"""
    cs = consts(P)
    return z3.Or(*[op == cs[n] for n in F if F[n](a, b)]) if any(F[n](a, b) for n in F) else z3.BoolVal(False)
def op_arg(eng):
    P = eng.P
    op = eng.fresh(z3.BitVecSort(8), 'op')
    eng.assume(z3.Or(*[op == cs for n, cs in consts(P).items() if n in F]))
    return op
# (tag, side) -> truth of (behind the face, in front of it)
def behind_front(P, tag, left, op):
    g = lambda a, b: f(P, op, a, b)
    if tag == 'EXTERIOR': return (g(True, False), g(False, False)) if left else (g(False, True), g(False, False))
    if tag == 'INTERIOR': return (g(True, True), g(False, True)) if left else (g(True, True), g(True, False))
    if tag == 'COPLANAR': return g(True, True), g(False, False)
    if tag == 'OPPOSITE': return (g(True, False), g(False, True)) if left else (g(False, True), g(True, False))
def wanted(P, tag, left, op, prefer):
    """(keep as is, keep flipped)"""
    b, fr = behind_front(P, tag, left, op)
    k, v = z3.And(b, z3.Not(fr)), z3.And(z3.Not(b), fr)
    if tag in ('COPLANAR', 'OPPOSITE'):
        mine = prefer if left else z3.Not(prefer)
        k, v = z3.And(mine, k), z3.And(mine, v)
    return k, v
def mask_post(P, tag, r, op, prefer):
    bits = P.types[P.typ('kigumi::Mask')]['consts']
    on = lambda n: (r & bits[n]) != 0
    kl, vl = wanted(P, tag, True, op, prefer); kr, vr = wanted(P, tag, False, op, prefer)
    return z3.And(on('A') == kl, on('A_INV') == vl, on('B') == kr, on('B_INV') == vr)
MASKS = (('kigumi::union_mask', 'EXTERIOR'), ('kigumi::intersection_mask', 'INTERIOR'), ('kigumi::coplanar_mask', 'COPLANAR'), ('kigumi::opposite_mask', 'OPPOSITE'))

def u_ops(eng):
    P = eng.P; cs = consts(P)
    eng.oblige('the operator aliases denote their set operations', all(n not in cs or cs[n] == cs[ALIAS[n]] for n in ALIAS))
    eng.oblige('the 16 operators have distinct values', len({cs[n] for n in F}) == 16)

def u_mask(name, tag):
    def unit(eng):
        P = eng.P; fn = P.fn(name)
        op = op_arg(eng); vals = [op]
        pref = None
        if len(fn['p']) > 1:
            pref = eng.fresh(z3.BoolSort(), 'prefer'); vals.append(pref)
        outs = eng.explore(lambda: eng.inline(fn, None, vals))
        for kind, v, s in outs:
            eng.restore(s)
            def chk():
                eng.restore(s)
                eng.oblige('%s raises no error' % name, kind == 'ret')
                r = eng.as_sort(v, z3.BitVecSort(8))
                eng.oblige('the mask keeps exactly the faces whose sides differ under the set formula, inside behind', mask_post(P, tag, r, op, pref))
            eng.explore(chk, keep=False)
    return unit
def mask_contract(name, tag):
    def c(eng, fn, this, vals):
        op = eng.as_sort(vals[0], z3.BitVecSort(8)); pref = zb(vals[1]) if len(vals) > 1 else None
        r = eng.fresh(z3.BitVecSort(8), 'mask')
        eng.assume(mask_post(eng.P, tag, r, op, pref))
        return r
    return c

def u_extract(eng):
    P = eng.P
    fn = P.fn('kigumi::Extract::operator()')
    for n, t in MASKS:
        if P.fns(n): eng.contracts[n] = mask_contract(n, t)
    eng.contracts['kigumi::AABB_tree::~AABB_tree'] = lambda e, f_, t, v: VOID
    mt = P.deref(fn['p'][0]['t'])
    m = eng.fresh_of(mt, 'm')
    soup_wf(eng, m)
    ml = ref(eng, m, mt)
    op = op_arg(eng); pref = eng.fresh(z3.BoolSort(), 'prefer')
    tags = P.types[P.typ('kigumi::Face_tag')]['consts']
    fd = m.d['face_data_']; faces = m.d['faces_']; pts = m.d['points_']
    et = fd.et
    def fld(j, name):
        return eng.vec_get_pure(fd, j).d[name]
    def want(j, flipped):
        out = []
        for tag in ('EXTERIOR', 'INTERIOR', 'COPLANAR', 'OPPOSITE'):
            for left in (True, False):
                w = wanted(P, tag, left, op, pref)[1 if flipped else 0]
                out.append(z3.And(fld(j, 'tag') == tags[tag], fld(j, 'from_left') == left, w))
        return z3.Or(*out)
    keepid = z3.Function('keep_as_is', I, z3.BoolSort()); keepinv = z3.Function('keep_flipped', I, z3.BoolSort()); cnt = z3.Function('kept_before', I, I)
    defs = T(lambda j: z3.And(keepid(j) == want(j, False), keepinv(j) == want(j, True),
                      cnt(j + 1) == cnt(j) + z3.If(z3.Or(keepid(j), keepinv(j)), 1, 0)))
    eng.assume(cnt(0) == 0)
    soupP = lambda P_, t: is_soup(P_, t, False)
    mapP = vec_of(P, is_vertex_index)
    def facts(L):
        L.eng.g['map_loc'] = L.loc(type=mapP)
        return [defs(L.k)]
    eng.opts['loop_facts'] = [facts]
    def rel(j, soup, mp):
        """output face of input face j"""
        c = cnt(j); out = []
        sf, sd = soup.d['faces_'], soup.d['face_data_']
        for a, b in ((keepid, (0, 1, 2)), (keepinv, (0, 2, 1))):
            # cyclic rotation of the corners keeps the face
            alts = []
            for r in range(3):
                alts.append(z3.And(*[at(sf, c, i) == at(mp, at(faces, j, b[(i + r) % 3])) for i in range(3)]))
            out.append(z3.Implies(a(j), z3.Or(*alts)))
        kept = z3.Or(keepid(j), keepinv(j))
        out.append(z3.Implies(kept, z3.And(*[z3.And(at(mp, at(faces, j, i)) >= 0, at(mp, at(faces, j, i)) < zi(soup.d['points_'].n)) for i in range(3)])))
        dl = eng.flat(eng.vec_get_pure(sd, c), sd.et); ml_ = eng.flat(fld(j, 'data'), sd.et)
        out.append(z3.Implies(kept, z3.And(*[x == y for x, y in zip(dl, ml_)])))
        return z3.And(*out)
    nv = zi(pts.n); nf = zi(faces.n)
    def S(L): return L.var(type=soupP), L.var(type=mapP)
    def map_ok(v, soup, mp):
        return z3.Implies(z3.And(v >= 0, v < nv), z3.Or(at(mp, v) == INVALID, z3.And(at(mp, v) >= 0, at(mp, v) < zi(soup.d['points_'].n), at(soup.d['points_'], at(mp, v)) == at(pts, v))))
    def map_inj(v, w, mp):
        return z3.Implies(z3.And(v >= 0, v < nv, w >= 0, w < nv, at(mp, v) == at(mp, w), at(mp, v) != INVALID), v == w)
    def i_size(L):
        s, mp = S(L); return And(eq(s.d['faces_'].n, cnt(zi(L.k))), eq(s.d['face_data_'].n, s.d['faces_'].n), eq(mp.n, nv))
    def i_map(L):
        s, mp = S(L); return Quant(lambda v: map_ok(v, s, mp), mp.arrs)
    def i_inj(L):
        s, mp = S(L)
        return Quant(lambda v, w: map_inj(v, w, mp), (), sorts=[I, I], pats=lambda v, w: [z3.MultiPattern(at(mp, v), at(mp, w))])
    def i_faces(L):
        s, mp = S(L); k = zi(L.k)
        return Quant(lambda j: z3.Implies(z3.And(j >= 0, j < k), z3.And(cnt(j) >= 0, z3.Implies(z3.Or(keepid(j), keepinv(j)), cnt(j) < cnt(k)), rel(j, s, mp))), pats=lambda j: [cnt(j)])
    eng.invs['*'] = [('sizes agree', i_size), ('renumbered vertices keep their points', i_map), ('renumbering is injective', i_inj), ('every earlier face was handled', i_faces)]
    def post(kind, v):
        eng.oblige('extraction raises no error', kind == 'ret')
        s = eng.load(v) if isinstance(v, Loc) else v
        mp = eng.load(eng.g['map_loc']) if 'map_loc' in eng.g else None
        if mp is None: raise Unsupported('extraction no longer visits the faces in one loop')
        eng.oblige('as many faces as the formula keeps', And(eq(s.d['faces_'].n, cnt(nf)), eq(s.d['face_data_'].n, cnt(nf))))
        eng.oblige('each kept face is output once, in order, with its orientation, points and data',
                   eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < nf), z3.And(z3.Implies(z3.Or(keepid(j), keepinv(j)), z3.And(cnt(j) >= 0, cnt(j) < cnt(nf))), rel(j, s, mp))), assume=False))
        eng.oblige('output vertices carry the input points', eng.forall(lambda v_: map_ok(v_, s, mp), assume=False))
        eng.oblige('vertices are shared exactly as in the input', eng.forall(lambda v_, w_: map_inj(v_, w_, mp), sorts=[I, I], assume=False))
        eng.oblige('the result has no stale search tree', Not(s.d['aabb_tree_'].has))
    verify(eng, lambda: eng.inline(fn, ref(eng, Rec(fn['rec'], {}), fn['rec']), [ml, op, pref]), post)

def units(P):
    us = [Unit('operators', u_ops)]
    for n, t in MASKS:
        if P.fns(n): us.append(Unit(n, u_mask(n, t)))
    us.append(Unit('kigumi::Extract::operator()', u_extract, heavy=True))
    return us
