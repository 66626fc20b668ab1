"""C07: coincident faces (Find_coplanar_faces.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from kvc import par

ID = 'C07'
LEVEL = 'proof'
HARNESS = {'src': ['C07.cc'], 'seconds': 30}
ASSUME = ['parallel_do by contract (C19)', 'faces have three distinct vertices and no two faces of one mesh lie on the same three vertices (precondition of the property)',
          'boost::unordered_flat_map with boost::hash behaves as a finite map; concurrent const lookups are safe']

def tri(eng, soup, pts, j):
    """merged vertex indices of face j"""
    f = soup.d['faces_']
    return [at(pts, at(f, j, c)) for c in range(3)]
def srt(t):
    a, b, c = t
    lo = z3.If(a < b, z3.If(a < c, a, c), z3.If(b < c, b, c)); hi = z3.If(a > b, z3.If(a > c, a, c), z3.If(b > c, b, c))
    return lo, a + b + c - lo - hi, hi
def same(x, y): return z3.Or(*[z3.And(*[x[c] == y[(c + r) % 3] for c in range(3)]) for r in range(3)])
def opp(x, y): return same(x, [y[0], y[2], y[1]])
def norm(t):
    """rotation that starts with the smallest index (distinct indices)"""
    a, b, c = t
    m0 = z3.And(a < b, a < c); m1 = z3.And(b < a, b < c)
    return [z3.If(m0, a, z3.If(m1, b, c)), z3.If(m0, b, z3.If(m1, c, a)), z3.If(m0, c, z3.If(m1, a, b))]

def u_main(eng):
    P = eng.P; par.install(eng); eng.opts['thorough_invs'] = True
    eng.contracts['kigumi::AABB_tree::~AABB_tree'] = lambda e, f_, t, v: VOID
    fn = P.fn('kigumi::Find_coplanar_faces::operator()')
    tags = P.types[P.typ('kigumi::Face_tag')]['consts']
    U, CO, OP = (z3.BitVecVal(tags[x], 8) for x in ('UNKNOWN', 'COPLANAR', 'OPPOSITE'))
    st = P.deref(fn['p'][0]['t']); pt = P.deref(fn['p'][2]['t'])
    L, R = eng.fresh_of(st, 'left'), eng.fresh_of(st, 'right')
    lp, rp = eng.fresh_of(pt, 'lpts'), eng.fresh_of(pt, 'rpts')
    S = {'l': (L, lp), 'r': (R, rp)}
    FI = {s: z3.Function('face_on_' + s, I, I, I, I) for s in S}      # the only face on three vertices
    M = {s: z3.Function('match_' + s, I, I) for s in S}               # a face of the other mesh on the same vertices, or -1
    nf = {s: zi(S[s][0].d['faces_'].n) for s in S}
    T3 = {}
    for s, (m, p) in S.items():
        soup_wf(eng, m)
        eng.assume(zi(p.n) == zi(m.d['points_'].n))
        T3[s] = lambda j, m=m, p=p: tri(eng, m, p, j)
    pres = {}; mt = {}
    for s, o in (('l', 'r'), ('r', 'l')):
        def pre(j, s=s):
            t = T3[s](j); m, p = S[s]
            fc = [at(m.d['faces_'], j, c) for c in range(3)]
            return z3.Implies(z3.And(j >= 0, j < nf[s]), z3.And(t[0] != t[1], t[1] != t[2], t[0] != t[2], FI[s](*srt(t)) == j,
                              *[z3.And(x >= 0, x < zi(p.n)) for x in fc], *[z3.And(x >= 0, x < 2**64) for x in t]))
        pres[s] = T(pre)
        def mdef(j, s=s, o=o):
            m = M[s](j); a = T3[s](j); b = T3[o](m)
            x = FI[o](*srt(a))     # if any face of the other mesh matches, it is this one
            return z3.Implies(z3.And(j >= 0, j < nf[s]), z3.Or(
                z3.And(m >= 0, m < nf[o], z3.Or(same(a, b), opp(a, b)), m == x), z3.And(m == -1, z3.Not(z3.And(x >= 0, x < nf[o], z3.Or(same(a, T3[o](x)), opp(a, T3[o](x))))))))
        mt[s] = T(mdef)
    # the functions are definable: match is a choice, face_on exists by the precondition
    for s in S:
        eng.forall(lambda j, s=s: pres[s](j), S[s][0].d['faces_'].arrs)
    for s, o in (('l', 'r'), ('r', 'l')):
        # lemma: the face that matches m is the face on m's vertices
        def uniq(i, s=s, o=o): return z3.Implies(z3.And(i >= 0, i < nf[s], M[s](i) >= 0), z3.And(M[s](i) < nf[o], FI[s](*srt(T3[o](M[s](i)))) == i))
        def lem(s=s, o=o, uniq=uniq):
            i = eng.fresh(I, 'face')
            for x in (pres[s](i), mt[s](i)): eng.assume(x)
            eng.oblige('lemma: a matched face is the only one on those vertices', uniq(i))
        eng.explore(lem)
        eng.forall(lambda i, s=s, uniq=uniq: z3.And(mt[s](i), uniq(i)), S[s][0].d['faces_'].arrs, pats=lambda i, s=s: [M[s](i)])
    def tagof(s, j):
        o = 'r' if s == 'l' else 'l'
        m = M[s](j)
        return z3.If(m < 0, U, z3.If(same(T3[s](j), T3[o](m)), CO, OP))
    def facts_at(s, j):
        o = 'r' if s == 'l' else 'l'
        m = M[s](j); x = FI[o](*srt(T3[s](j)))
        return [pres[o](x), mt[o](x), pres[s](j), mt[s](j), pres[o](m), mt[o](m), pres[s](M[o](m)), pres[s](FI[s](*srt(T3[s](j)))), mt[s](j)]
    is_map = lambda P_, t: P_.kind(t) == 'map'
    is_tags = vec_of(P, lambda P_, t: P_.rname(t) == 'kigumi::Face_tag')
    small = nf['l'] < nf['r']       # which mesh the map is built from does not matter for the statement
    def sides(Lc):
        """(map side, other side) when the loop runs"""
        return 'l', 'r'
    g = {}
    def amap(Lc): return Lc.var(type=is_map)
    def side_terms():
        # decided on the path: left is a?
        if eng.quick(small): return 'l', 'r'
        if eng.quick(z3.Not(small)): return 'r', 'l'
        raise SpecError('undecided side')
    def mapinv(A, k, Mv):
        kt = Mv.kt
        def present(i):
            key = eng.key_term(kt, Tup(norm(T3[A](i))))
            return z3.Implies(z3.And(i >= 0, i < k, i < nf[A]), z3.And(z3.Select(Mv.dom, key), z3.Select(Mv.arrs[0], key) == i))
        ks = eng.key_sort(kt)
        def genuine(q):
            v = z3.Select(Mv.arrs[0], q)
            c = [ks.accessor(0, i)(q) for i in range(3)]
            return z3.Implies(z3.Select(Mv.dom, q), z3.And(v >= 0, v < k, v < nf[A], *[x == y for x, y in zip(c, norm(T3[A](v)))]))
        return present, genuine, ks
    def in_par(Lc): return 'par' in eng.g
    def i_present(Lc):
        A, B = side_terms(); Mv = amap(Lc)
        k = zi(Lc.k) if not in_par(Lc) else nf[A]
        return Quant(mapinv(A, k, Mv)[0], S[A][0].d['faces_'].arrs)
    def i_genuine(Lc):
        A, B = side_terms(); Mv = amap(Lc)
        k = zi(Lc.k) if not in_par(Lc) else nf[A]
        p, gfn, ks = mapinv(A, k, Mv)
        return Quant(gfn, (), sorts=[ks], pats=lambda q: [z3.Select(Mv.dom, q)] if not z3.is_store(Mv.dom) and not z3.is_K(Mv.dom) else [z3.Select(Mv.arrs[0], q)] if not z3.is_store(Mv.arrs[0]) and not z3.is_K(Mv.arrs[0]) else [])
    def tvec(Lc, s):
        vs = [l for n, t, l in Lc.vars() if t is not None and not P.isref(t) and is_tags(P, P.deref(t))]
        if len(vs) != 2: raise SpecError('face tag lists')
        # the first one declared belongs to the left mesh (checked by the final obligation)
        return Lc.at(vs[0 if s == 'l' else 1])
    def i_tags(which):
        def f(Lc):
            A, B = side_terms(); k = zi(Lc.k) if in_par(Lc) else z3.IntVal(0)
            s = A if which == 'a' else B
            v = tvec(Lc, s)
            mine = (lambda i: z3.And(M[A](i) >= 0, M[A](i) < k)) if which == 'a' else (lambda i: i < k)
            return Quant(lambda i: z3.Implies(z3.And(i >= 0, i < nf[s]), at(v, i) == z3.If(mine(i), tagof(s, i), U)), v.arrs)
        return f
    def i_sizes(Lc):
        return z3.And(eq(tvec(Lc, 'l').n, nf['l']), eq(tvec(Lc, 'r').n, nf['r']))
    eng.invs['*'] = [('faces seen so far are found by their vertices', i_present), ('every entry is a face seen so far', i_genuine),
                     ('face marks, mesh in the map', i_tags('a')), ('face marks, other mesh', i_tags('b')), ('list sizes', i_sizes)]
    def lf(Lc):
        try: A, B = side_terms()
        except SpecError: return []
        s = B if in_par(Lc) else A
        return facts_at(s, zi(Lc.k))
    eng.opts['loop_facts'] = [lf]
    eng.opts['par_facts'] = [lambda e, j, i: [x for y in (j, i) if y is not None for x in facts_at(side_terms()[1], zi(y))]]
    def post(kind, v):
        eng.oblige('recognition raises no error', kind == 'ret')
        a, b = v.xs
        for s, o, tv, nm in (('l', 'r', a, 'first'), ('r', 'l', b, 'second')):
            eng.oblige('one mark per face of the %s mesh' % nm, eq(tv.n, nf[s]))
            i = eng.fresh(I, 'face'); j = eng.fresh(I, 'other')
            def chk():
                eng.assume(z3.And(i >= 0, i < nf[s], j >= 0, j < nf[o]))
                for x in facts_at(s, i) + facts_at(o, j) + facts_at(o, M[s](i)): eng.assume(x)
                t = at(tv, i)
                eng.oblige('a face on the same vertices and orientation is marked coincident (%s mesh)' % nm, z3.Implies(same(T3[s](i), T3[o](j)), t == CO))
                eng.oblige('a face on the same vertices, reversed, is marked opposite (%s mesh)' % nm, z3.Implies(opp(T3[s](i), T3[o](j)), t == OP))
            if eng.choose(2) == 0: chk(); raise PathEnd()
            eng.assume(z3.And(i >= 0, i < nf[s]))
            for x in facts_at(s, i): eng.assume(x)
            t = at(tv, i); m = M[s](i)
            eng.oblige('a marked face has such a partner, every other face stays unmarked (%s mesh)' % nm, z3.Or(t == U, z3.And(m >= 0, m < nf[o],
                       z3.Or(z3.And(t == CO, same(T3[s](i), T3[o](m))), z3.And(t == OP, opp(T3[s](i), T3[o](m)))))))
    vals = [ref(eng, L, st), ref(eng, R, st), ref(eng, lp, pt), ref(eng, rp, pt)]
    def th():
        # the two orders of size are verified separately
        if not eng.branch(small): pass
        return eng.inline(fn, ref(eng, Rec(fn['rec'], {}), fn['rec']), vals)
    verify(eng, th, post)
def units(P): return [Unit('kigumi::Find_coplanar_faces::operator()', u_main, heavy=True)]
