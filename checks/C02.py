"""C02: empty/full operands and results (Boolean_region_builder.h, Region.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from . import C01

ID = 'C02'
HARNESS = {'src': ['C02.cc'], 'seconds': 40}
ASSUME = ['Mix::operator() by contract (C03, C11-C13, C24); AABB tree destructor releases memory only']
KIND = {'EMPTY': 0, 'FULL': 1, 'BOUNDARY_DEFINED': 2}

def kinds(P): return P.types[P.typ('kigumi::Region_kind')]['consts']
def tagc(P): return P.types[P.typ('kigumi::Face_tag')]['consts']
def arg_region(eng, t, name):
    """a region satisfying the class invariant"""
    P = eng.P; k = kinds(P)
    r = eng.fresh_of(t, name)
    b = r.d['boundary_']
    soup_wf(eng, b)
    kd = r.d['kind_']
    eng.assume(z3.Or(*[kd == k[n] for n in KIND]))
    nf, np = zi(b.d['faces_'].n), zi(b.d['points_'].n)
    eng.assume(z3.Implies(kd != k['BOUNDARY_DEFINED'], z3.And(nf == 0, np == 0)))
    eng.assume(z3.Implies(kd == k['BOUNDARY_DEFINED'], nf > 0))
    return r
def same_vec(eng, a, b, what=None):
    """two sequences have the same contents"""
    if t_eq_vec(a, b): return True
    if isinstance(a, PyVec): a = eng.pyvec_to_vec(a, b.et)
    if isinstance(b, PyVec): b = eng.pyvec_to_vec(b, a.et)
    n = zi(a.n)
    return And(eq(a.n, b.n), eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(*[x[j + zi(a.lo)] == y[j + zi(b.lo)] for x, y in zip(a.arrs, b.arrs)])), assume=False))
def t_eq_vec(a, b): return a.same(b) if isinstance(a, (Vec, PyVec)) else False
def same_soup(eng, a, b):
    return And(*[same_vec(eng, a.d[f], b.d[f]) for f in ('points_', 'faces_', 'face_data_')])
def setup(eng):
    eng.contracts['kigumi::AABB_tree::~AABB_tree'] = lambda e, f_, t, v: VOID
def builder_ctor(P):
    return P.fn('kigumi::Boolean_region_builder::Boolean_region_builder', lambda f: f.get('ctor') and len(f['p']) == 2)

def u_ctor(eng):
    P = eng.P; setup(eng); k = kinds(P); tg = tagc(P)
    fn = builder_ctor(P); rt = P.deref(fn['p'][0]['t'])
    a, b = arg_region(eng, rt, 'a'), arg_region(eng, rt, 'b')
    la, lb = ref(eng, a, rt), ref(eng, b, rt)
    ba, bb = a.d['boundary_'], b.d['boundary_']
    def mix(e, f, this, vals):
        l, r = e.load(vals[0]), e.load(vals[1])
        e.oblige('the two boundaries are refined against each other, first operand first', And(same_soup(e, l, ba), same_soup(e, r, bb)))
        v = e.fresh_of(f['ret'], 'mixed')
        e.g['mix'] = v
        return v
    eng.contracts['kigumi::Mix::operator()'] = mix
    def run():
        loc = eng.new_root(None, fn['rec'])
        eng.construct_at(loc, fn, fn['rec'], [la, lb])
        return eng.load(loc)
    def post(kind, v):
        eng.oblige('building raises no error', kind == 'ret')
        eng.oblige('the operand kinds are remembered', And(eq(v.d['first_kind_'], a.d['kind_']), eq(v.d['second_kind_'], b.d['kind_'])))
        m = v.d['m_']; ka, kb = a.d['kind_'], b.d['kind_']
        na, nb = zi(ba.d['faces_'].n), zi(bb.d['faces_'].n); pa, pb = zi(ba.d['points_'].n), zi(bb.d['points_'].n)
        bd = k['BOUNDARY_DEFINED']
        if 'mix' in eng.g:
            mm = eng.g['mix'].xs
            eng.oblige('refinement is used only for two boundary-defined operands', z3.And(ka == bd, kb == bd))
            eng.oblige('the refined faces become the builder state', same_soup(eng, m, mm[0]))
            eng.oblige('the warnings of the refinement are kept', eng.load_eq(v.d['warnings_'], mm[1]) if hasattr(eng, 'load_eq') else eq(v.d['warnings_'], mm[1]))
            return
        eng.oblige('two boundary-defined operands are refined against each other', Not(z3.And(ka == bd, kb == bd)))
        fs, ps, ds = m.d['faces_'], m.d['points_'], m.d['face_data_']
        fs, ps, ds = [eng.pyvec_to_vec(x, et) if isinstance(x, PyVec) else x for x, et in ((fs, ba.d['faces_'].et), (ps, ba.d['points_'].et), (ds, None))]
        eng.oblige('no face is lost or added', And(eq(fs.n, na + nb), eq(ds.n, na + nb), eq(ps.n, pa + pb)))
        one = lambda j, o: z3.And(*[at(fs, j, c) == at(o, j, c) for c in range(3)])
        eng.oblige('faces of the boundary-defined operand are taken over', z3.And(
            eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < na), one(j, ba.d['faces_'])), assume=False),
            eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < nb, na == 0), one(j, bb.d['faces_'])), assume=False)))
        eng.oblige('points of the boundary-defined operand are taken over', z3.And(
            eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < pa), at(ps, j) == at(ba.d['points_'], j)), assume=False),
            eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < pb, pa == 0), at(ps, j) == at(bb.d['points_'], j)), assume=False)))
        def data(j, left, o, other):
            e = eng.vec_get_pure(ds, j).d; fd = eng.vec_get_pure(o, j)
            et = ba.d['face_data_'].et
            return z3.And(zb(eq(e['from_left'], left)), e['tag'] == z3.If(other == k['EMPTY'], z3.BitVecVal(tg['EXTERIOR'], 8), z3.BitVecVal(tg['INTERIOR'], 8)),
                          *[x == y for x, y in zip(eng.flat(e['data'], et), eng.flat(fd, et))])
        eng.oblige('faces are outside the empty set and inside the universe, and keep their data', z3.And(
            eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < na), data(j, True, ba.d['face_data_'], kb)), assume=False),
            eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < nb, na == 0), data(j, False, bb.d['face_data_'], ka)), assume=False)))
    verify(eng, run, post)

def u_apply(eng):
    P = eng.P; setup(eng); k = kinds(P); tg = tagc(P)
    fn = P.fn('kigumi::Boolean_region_builder::operator()')
    bt = fn['rec']
    this = eng.fresh_of(bt, 'self'); m = this.d['m_']
    soup_wf(eng, m)
    lt = ref(eng, this, bt)
    op = C01.op_arg(eng); pref = eng.fresh(z3.BoolSort(), 'prefer')
    k1, k2 = this.d['first_kind_'], this.d['second_kind_']
    bd = k['BOUNDARY_DEFINED']
    eng.assume(z3.And(*[z3.Or(*[x == k[n] for n in KIND]) for x in (k1, k2)]))
    fd = m.d['face_data_']; nf = zi(m.d['faces_'].n)
    def fld(j, name): return eng.vec_get_pure(fd, j).d[name]
    TAGS = ('EXTERIOR', 'INTERIOR', 'COPLANAR', 'OPPOSITE')
    def kept(j):
        out = []
        for tag in TAGS:
            for left in (True, False):
                w = z3.Or(*C01.wanted(P, tag, left, op, pref))
                out.append(z3.And(fld(j, 'tag') == tg[tag], fld(j, 'from_left') == left, w))
        return z3.Or(*out)
    def cells(j, r):
        """the formula has value r on both sides of face j"""
        out = []
        for tag in TAGS:
            for left in (True, False):
                b, f = C01.behind_front(P, tag, left, op)
                out.append(z3.Implies(z3.And(fld(j, 'tag') == tg[tag], fld(j, 'from_left') == left), z3.And(b == r, f == r)))
        return z3.And(*out)
    K = z3.Function('face_kept', I, z3.BoolSort()); jt = T(lambda j: K(j) == kept(j))
    # class invariant established by the constructor: every face classified; faces of each boundary-defined operand present
    eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < nf), z3.Or(*[fld(j, 'tag') == tg[t] for t in TAGS])), fd.arrs)
    w1, w2 = eng.fresh(I, 'leftface'), eng.fresh(I, 'rightface')
    eng.assume(z3.Implies(k1 == bd, z3.And(w1 >= 0, w1 < nf, fld(w1, 'from_left'))))
    eng.assume(z3.Implies(k2 == bd, z3.And(w2 >= 0, w2 < nf, z3.Not(fld(w2, 'from_left')))))
    eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < nf), z3.And(z3.Implies(fld(j, 'from_left'), k1 == bd), z3.Implies(z3.Not(fld(j, 'from_left')), k2 == bd))), fd.arrs)
    for x, other in ((k1, k2), (k2, k1)):   # tags when one operand is trivial
        eng.forall(lambda j, x=x, other=other: z3.Implies(z3.And(j >= 0, j < nf, other != bd), z3.And(z3.Implies(other == k['EMPTY'], fld(j, 'tag') == tg['EXTERIOR']), z3.Implies(other == k['FULL'], fld(j, 'tag') == tg['INTERIOR']))), fd.arrs)
    def extract(e, f, this_, vals):
        s = e.load(vals[0])
        e.oblige('faces are selected from this builder, for this operator and preference', And(same_soup(e, s, m), eq(e.as_sort(vals[1], z3.BitVecSort(8)), op), eq(zb(vals[2]), pref)))
        r = e.fresh_of(f['ret'], 'selected')
        soup_wf(e, r)
        n = zi(r.d['faces_'].n); w = e.fresh(I, 'keptface')
        e.assume(z3.Implies(n != 0, z3.And(w >= 0, w < nf, kept(w))))
        e.assume(z3.Implies(n == 0, e.forall(lambda j: z3.Implies(z3.And(j >= 0, j < nf), z3.Not(kept(j))), assume=False)))
        for i in (w1, w2): e.assume(z3.Implies(z3.And(n == 0, i >= 0, i < nf), z3.Not(kept(i))))
        r.d['aabb_tree_'] = Ptr(None)
        e.g['selected'] = r
        return r
    eng.contracts['kigumi::Extract::operator()'] = extract
    # the true result when it has no boundary: constant r over all realised combinations of membership
    r = eng.fresh(z3.BoolSort(), 'truth')
    consistent = z3.And(eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < nf), cells(j, r)), assume=False),
                        z3.Implies(z3.And(w1 >= 0, w1 < nf), cells(w1, r)), z3.Implies(z3.And(w2 >= 0, w2 < nf), cells(w2, r)))
    triv = z3.Implies(z3.And(k1 != bd, k2 != bd), r == z3.Or(*[z3.And(k1 == k['FULL' if a else 'EMPTY'], k2 == k['FULL' if b else 'EMPTY'], C01.f(P, op, a, b)) for a in (False, True) for b in (False, True)]))
    def post(kind, v):
        sel = eng.g.get('selected')
        if kind == 'ret':
            R = eng.load(v) if isinstance(v, Loc) else v
            b = R.d['boundary_']
            n = sel.d['faces_'].n if sel is not None else None
            if sel is not None:
                eng.oblige('a non-empty selection becomes the boundary', Imp(Not(eq(n, 0)), And(eq(R.d['kind_'], bd), same_soup(eng, b, sel))))
            eng.assume(zb(eq(n, 0)) if sel is not None else z3.BoolVal(True))
            if sel is None:
                eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < nf), z3.Not(kept(j))))
            eng.assume(consistent); eng.assume(triv)
            eng.oblige('a result without boundary is full exactly when the set formula says so', And(eq(R.d['kind_'], ite(r, k['FULL'], k['EMPTY'])), eq(b.d['faces_'].n if not isinstance(b.d['faces_'], PyVec) else len(b.d['faces_'].xs), 0)))
        else:
            if sel is not None: eng.oblige('an error is raised only for a result without boundary', eq(sel.d['faces_'].n, 0))
            eng.assume(consistent); eng.assume(triv)
            eng.oblige('an error is raised only when the classifications contradict each other', False)
    verify(eng, lambda: eng.inline(fn, lt, [op, pref]), post)

def u_region(eng):
    P = eng.P; setup(eng); k = kinds(P)
    fn = P.fn('kigumi::Region::Region', lambda f: f.get('ctor') and len(f['p']) == 1 and not f.get('cm') and is_soup(P, P.deref(f['p'][0]['t'])))
    st = P.deref(fn['p'][0]['t'])
    s = eng.fresh_of(st, 's'); soup_wf(eng, s)
    n = zi(s.d['faces_'].n)
    def run():
        loc = eng.new_root(None, fn['rec']); eng.construct_at(loc, fn, fn['rec'], [s]); return eng.load(loc)
    def post(kind, v):
        eng.oblige('an empty boundary is rejected, and only that', (n > 0) if kind == 'ret' else (n == 0))
        if kind == 'ret': eng.oblige('the region is defined by that boundary', And(eq(v.d['kind_'], k['BOUNDARY_DEFINED']), same_soup(eng, v.d['boundary_'], s)))
    verify(eng, run, post)

def u_trivial(eng):
    P = eng.P; setup(eng); k = kinds(P)
    for name, kd in (('empty', 'EMPTY'), ('full', 'FULL')):
        fn = P.fn('kigumi::Region::' + name)
        def post(kind, v, kd=kd, name=name):
            eng.oblige('%s() raises no error' % name, kind == 'ret')
            n = v.d['boundary_'].d['faces_']
            eng.oblige('%s() is that region' % name, And(eq(v.d['kind_'], k[kd]), eq(eng.vec_len(n), 0)))
        verify(eng, lambda fn=fn: eng.inline(fn, None, []), post)
    for name, want in (('is_empty', ('EMPTY',)), ('is_full', ('FULL',)), ('is_empty_or_full', ('EMPTY', 'FULL'))):
        fn = P.fn('kigumi::Region::' + name)
        r = eng.fresh_of(fn['rec'], 'r'); lr = ref(eng, r, fn['rec'])
        eng.assume(z3.Or(*[r.d['kind_'] == k[n] for n in KIND]))
        verify(eng, lambda fn=fn, lr=lr: eng.inline(fn, lr, []), lambda kind, v, r=r, want=want, name=name: (eng.oblige('%s raises no error' % name, kind == 'ret'), eng.oblige('%s answers for the kind' % name, Iff(zb(eng.tobool(v)), z3.Or(*[r.d['kind_'] == k[w] for w in want])))))

def units(P):
    return [Unit('Boolean_region_builder constructor', u_ctor), Unit('Boolean_region_builder::operator()', u_apply), Unit('Region constructor', u_region), Unit('Region kinds', u_trivial)]
