"""C06: the pairs of faces examined for intersection (Find_possibly_intersecting_faces.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from kvc import par
from kvc.tree import *

ID = 'C06'
HARNESS = {'src': ['C06.cc'], 'seconds': 60}
LEVEL = 'proof'
ASSUME = ['AABB_tree::get_intersecting_leaves and Triangle_soup::aabb_tree by their contracts (C05): every leaf whose box meets the query, each once; one leaf per face with the smallest box around it',
          'parallel_do by contract (C19)', 'one classification per face of either mesh', 'the bounding box of a face is the smallest box around the boxes of its approximated corners; boxes are compared exactly']

def u_main(eng):
    P = eng.P; par.install(eng); A2 = z3.ArraySort(I, z3.ArraySort(I, I))
    fn = P.fn('kigumi::Find_possibly_intersecting_faces::operator()')
    st = P.deref(fn['p'][0]['t']); vt = P.deref(fn['p'][2]['t'])
    U = z3.BitVecVal(P.types[P.typ('kigumi::Face_tag')]['consts']['UNKNOWN'], 8)
    S = {s: eng.fresh_of(st, n) for s, n in (('l', 'left'), ('r', 'right'))}
    Lc = {s: ref(eng, S[s], st) for s in S}; TG = {s: eng.fresh_of(vt, n) for s, n in (('l', 'left_tags'), ('r', 'right_tags'))}
    TR, nf, tag = {}, {}, {}
    for s in S:
        soup_wf(eng, S[s]); TR[s] = SoupTree(eng, S[s], 'left' if s == 'l' else 'right'); nf[s] = TR[s].nf
        eng.assume(z3.And(zi(TG[s].n) == nf[s], zi(TG[s].lo) == 0)); tag[s] = TG[s].arrs[0]
    H = Hits(eng); W = eng.new_root(eng.fresh(A2, 'position_of_pair'))
    def tree(e, f, this, vals):
        s = [x for x in S if this.same(Lc[x])]
        if not s or e.g.get('asked', s[0]) != s[0]: raise Unsupported('trees asked for')
        e.g['asked'] = s[0]; return TR[s[0]].loc
    def search(e, f, this, vals):
        s = e.g.get('asked')
        if s is None or not (isinstance(this, Loc) and this.same(TR[s].loc)): raise Unsupported('tree searched')
        out, q, node, ns = hit_args(e, TR[s], f, vals)
        deliver(e, TR[s], H, out, q, z3.IntVal(0), nf[s]); return VOID
    eng.contracts['kigumi::Triangle_soup::aabb_tree'] = tree
    eng.contracts['kigumi::AABB_tree::get_intersecting_leaves'] = search
    def wanted(l, r): return z3.And(l >= 0, l < nf['l'], r >= 0, r < nf['r'], tag['l'][l] == U, tag['r'][r] == U, boxes_meet(eng, TR['l'].FB(l), TR['r'].FB(r)))
    def cols(v):
        if not isinstance(v, Vec) or len(v.arrs) != 2: raise SpecError('list of pairs')
        return v.arrs
    is_pairs = lambda t: P.kind(t) == 'vec' and P.rname(P.elem(t)) == 'std::pair'
    def result(vars_, local):
        c = {l.root: l for n, t, l in vars_ if t is not None and isinstance(l, Loc) and not l.path and l.root != local.root and is_pairs(P.deref(t))}
        return c
    def ghost(L):
        p = eng.g.get('par')
        if p is None or 'done' not in p: raise SpecError('not in the parallel loop')
        c = list(result(L.vars(frames=True), p['local']).values()) or list(eng.g.get('results', ()))
        c = [l for l in c if l.root in L.cur[0]]
        if len(c) != 1: raise SpecError('list of results')
        return L.at(p['done']), L.at(p['merged']), p['local'], c[0]
    def on_append(e, loc, x):
        p = e.g.get('par'); v = e.peek(loc)
        if p is None or e.fp is not None: return
        if loc.root != p['local'].root:
            if isinstance(x, Rec) and len(x.d) == 2 or isinstance(x, Tup): raise Unsupported('pairs added elsewhere')
            return
        l, r = (zi(y) for y in e.flat(x, v.et if isinstance(v, Vec) else e.P.elem(e.rtype[loc.root])))
        M = e.peek(W); M2 = e.fresh(A2, 'position_of_pair'); e.assume(M2 == z3.Store(M, l, z3.Store(M[l], r, zi(e.vec_len(v))))); e.mem[W.root] = M2
    eng.opts['on_append'] = on_append
    def on_merge(e):
        """a merge moves the pairs of one worker behind those merged before"""
        p = e.g['par']; M = e.peek(W); D, Sm = e.load(p['done']), e.load(p['merged'])
        vs = []
        for fr in e.frames:
            for d, l in fr.env.items():
                if isinstance(l, Loc) and not l.path and l.root in e.mem and l.root != p['local'].root and l.root in e.rtype and e.rtype[l.root] is not None and is_pairs(e.rtype[l.root]): vs.append(l)
        vs = {l.root: l for l in vs}
        if len(vs) != 1: raise Unsupported('list of results')
        off = zi(e.vec_len(e.peek(list(vs.values())[0]))); M2 = e.fresh(A2, 'position_of_pair')
        def f(l, r):
            b = l if e.g['asked'] == 'r' else r
            return M2[l][r] == z3.If(z3.And(D[b], z3.Not(Sm[b])), M[l][r] + off, M[l][r])
        e.forall(f, sorts=[I, I], pats=lambda l, r: [M2[l][r]])
        e.mem[W.root] = M2
    eng.opts['on_merge'] = on_merge
    def item(l, r): return l if eng.g.get('asked') == 'r' else r
    def other(l, r): return r if eng.g.get('asked') == 'r' else l
    def seen(L, l, r):
        """the pair has been looked at (and is in the worker's list if wanted)"""
        D, Sm, loc, res = ghost(L); b = item(l, r)
        s = z3.And(D[b], z3.Not(Sm[b]))
        if not L.key.endswith('#-1'):
            cur = L.at(eng.g['par']['cur']); T_ = TR[eng.g['asked']]
            s = z3.Or(s, z3.And(b == cur, L.at(H.PL)[T_.WH(other(l, r))] < zi(L.k)))
        return s
    def each(L, vec, ok):
        x, y = cols(vec); M = L.at(W)
        return Quant(lambda k: z3.Implies(z3.And(k >= 0, k < zi(vec.n)), z3.And(wanted(x[k], y[k]), M[x[k]][y[k]] == k, ok(x[k], y[k]))), [x, y], pats=lambda k: [x[k], y[k]])
    def i_local(L): return each(L, L.at(ghost(L)[2]), lambda l, r: seen(L, l, r))
    def i_res(L):
        D, Sm, loc, res = ghost(L); return each(L, L.at(res), lambda l, r: Sm[item(l, r)])
    def all_(L, vec, cond):
        x, y = cols(vec); M = L.at(W)
        return Quant(lambda l, r: z3.Implies(z3.And(wanted(l, r), cond(l, r)), z3.And(M[l][r] >= 0, M[l][r] < zi(vec.n), x[M[l][r]] == l, y[M[l][r]] == r)), sorts=[I, I], pats=lambda l, r: [M[l][r]])
    def i_lall(L): return all_(L, L.at(ghost(L)[2]), lambda l, r: seen(L, l, r))
    def i_rall(L):
        D, Sm, loc, res = ghost(L); return all_(L, L.at(res), lambda l, r: Sm[item(l, r)])
    def i_sub(L):
        D, Sm, loc, res = ghost(L)
        return Quant(lambda j: z3.Implies(Sm[j], D[j]), [Sm], pats=lambda j: [Sm[j]])
    eng.invs['*'] = [('what was merged was done', i_sub), ('every pair in the list of a worker is wanted and of a face it handled', i_local), ('every pair in the result is wanted and of a face handled', i_res),
                     ('every wanted pair of a face handled is in the list of its worker', i_lall), ('every wanted pair of a face merged is in the result', i_rall)]
    args = [Lc['l'], Lc['r'], ref(eng, TG['l'], vt), ref(eng, TG['r'], vt)]
    this = ref(eng, eng.fresh_of(fn['rec'], 'finder'), fn['rec'])
    def post(kind, v):
        if kind == 'throw': eng.oblige('looking for pairs raises no error', False); return
        v = eng.load(v) if isinstance(v, Loc) else v
        if not isinstance(v, Vec): v = eng.pyvec_to_vec(v, P.elem(P.deref(fn['ret'])))
        x, y = v.arrs; M = eng.peek(W); l, r, k = eng.fresh(I, 'any_left'), eng.fresh(I, 'any_right'), eng.fresh(I, 'any_position')
        eng.oblige('a tree was asked for', 'asked' in eng.g)
        def c_sound():
            eng.assume(z3.And(k >= 0, k < zi(v.n)))
            for a in (x, y): eng.on_read(a, k)
            eng.oblige('every pair listed overlaps, is not coincident and names the left face first', wanted(x[k], y[k]))
            eng.oblige('no pair is listed twice', M[x[k]][y[k]] == k)
        def c_all():
            eng.assume(wanted(l, r)); p = M[l][r]
            D = eng.load(eng.g['par']['done']); eng.on_read(D, item(l, r))
            eng.oblige('every pair that overlaps and is not coincident is listed', z3.And(p >= 0, p < zi(v.n), x[p] == l, y[p] == r))
        for c in (c_sound, c_all): eng.explore(c)
    verify(eng, lambda: eng.inline(fn, this, args), post)

def units(P): return [Unit('kigumi::Find_possibly_intersecting_faces::operator()', u_main, heavy=True)]
