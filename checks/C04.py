"""C04: binary region files (io.h, Region_io.h, Region.h, Triangle_soup.h, Mesh_indices.h)."""
import functools, z3
from kvc.spec import *
from kvc.unit import Unit
from kvc.engine import conc

ID = 'C04'
HARNESS = {'src': ['C04.cc'], 'seconds': 60, 'flags': ['-fsanitize=address,undefined', '-g']}
LEVEL = 'proof'
ASSUME = ['std::ostream::write appends the bytes it is given or marks the stream as failed; std::istream::read delivers the next bytes of the file or marks the stream as failed (and leaves the stream failed); a file is a sequence of such blocks of bytes and may end after any of them',
          'boost::endian: native_to_little_inplace gives the little-endian form of a number, little_to_native_inplace undoes it',
          'boost::multiprecision: export_bits gives the magnitude of a number as bytes, import_bits restores it; a rational is the quotient of its numerator and denominator; GMP: mpz_export and mpz_import likewise, and ceil(mpz_sizeinbase(n, 2) / 8) bytes hold a number n (one more than needed for zero)',
          'CGAL: an interval of width zero that encloses an exact coordinate is that coordinate; the exact coordinates are rationals; coordinates are finite numbers',
          'the face data type supplies its own Write and Read (here: one opaque block)',
          'the bytes of a double are its value (no distinction between 0.0 and -0.0)']

RL = z3.RealSort(); B8 = z3.BitVecSort(8); AR = lambda s: z3.ArraySort(I, s)
INT, DBL, RAT, DATA, BLOB = 0, 100, 200, 300, 400       # classes of tokens; integers and doubles carry their size
LE = {4: z3.Function('little_endian_4', I, I), 8: z3.Function('little_endian_8', I, I), 2: z3.Function('little_endian_2', I, I)}
UL = {k: z3.Function('native_%d' % k, I, I) for k in LE}
LED, ULD = z3.Function('little_endian_double', RL, RL), z3.Function('native_double', RL, RL)

def loc_type(eng, l):
    P = eng.P; t = eng.rtype.get(l.root)
    for s in l.path:
        if t is None: raise Unsupported('type of an object')
        if P.isref(t): t = P.deref(t)
        k = P.kind(t)
        if k == 'rec': t = {n: x for n, x, _ in P.fields(t)}[s]
        elif k == 'tup': t = P.tupelems(t)[s if type(s) is int else 0]
        elif k == 'vec': t = P.elem(t)
        else: raise Unsupported('type of an object')
    return P.deref(t) if t is not None and P.isref(t) else t

class File:
    """the blocks of a file: what a writer is expected to write, what a reader finds"""
    def __init__(self, eng, can_fail):
        self.eng = eng; P = eng.P
        self.T, self.I, self.B, self.R, self.L = (eng.fresh(AR(s), 'file_' + n) for s, n in ((I, 'type'), (I, 'int'), (B8, 'byte'), (RL, 'number'), (I, 'length')))
        self.A = eng.fresh(AR(AR(B8)), 'file_bytes'); self.D = None
        self.flags = can_fail
        self.avail = eng.fresh(I, 'blocks_in_file'); eng.assume(self.avail >= 0)
        self.bad0 = eng.fresh(z3.BoolSort(), 'failed_before')
        self.loc = eng.new_root(Obj('stream', pos=z3.IntVal(0), bad=self.bad0), None)
        self.install()
    def st(self): return self.eng.peek(self.loc)
    def put(self, pos, bad): self.eng.store(self.loc, Obj('stream', pos=pos, bad=bad))
    def token(self, x, size):
        """(class, payload array, payload) of an object in memory"""
        eng, P = self.eng, self.eng.P
        t = loc_type(eng, x); v = eng.load(x); k = P.kind(t)
        if k == 'b8' or k == 'bool':
            return INT + 1, self.B, eng.as_sort(v, B8), 1
        if k == 'int': return INT + P.intinfo(t)[1] // 8, self.I, eng.as_sort(v, I), P.intinfo(t)[1] // 8
        if k == 'real': return DBL + 8, self.R, eng.as_sort(v, RL), 8
        raise Unsupported('raw bytes of %s' % P.rname(t))
    def write(self, cls, pairs, label):
        """one block is appended: it is the block expected there"""
        eng = self.eng; s = self.st(); p = zi(s.d['pos'])
        eng.oblige('a block of the expected kind is written: ' + label, self.T[p] == cls)
        if self.flags and cls == INT + 1 and not (z3.is_int_value(p) and p.as_long() == 0):
            # how a vertex is stored is the writer's choice; this block is written once, so the file can be taken to have it
            eng.oblige('a flag is zero or one', z3.Or(pairs[0][1] == 0, pairs[0][1] == 1)); eng.assume(self.B[p] == pairs[0][1]); pairs = []
        for a, x in pairs: eng.oblige('the expected bytes are written: ' + label, a[p] == x)
        self.put(p + 1, z3.Or(zb(s.d['bad']), eng.fresh(z3.BoolSort(), 'write_fails')))
    def read(self, cls, label):
        """True when the next block is delivered"""
        eng = self.eng; s = self.st(); p = zi(s.d['pos'])
        if eng.branch(zb(s.d['bad'])): return None
        if eng.branch(p < self.avail):
            eng.oblige('a block is read as it was written: ' + label, self.T[p] == cls)
            self.put(p + 1, False); return p
        self.put(p, True); return None
    def install(self):
        eng, P = self.eng, self.eng.P; C = eng.contracts; F = self
        def target(v):
            if isinstance(v, Ptr) and isinstance(v.loc, Loc): return 'obj', v.loc
            if isinstance(v, It): return 'blob', v
            raise Unsupported('address of bytes')
        ld = lambda e, x: e.load(x) if isinstance(x, Loc) else x
        def mine(e, this):
            if not (isinstance(this, Loc) and this.root == F.loc.root): raise Unsupported('another stream')
        def write(e, f, this, v):
            mine(e, this); k, l = target(ld(e, v[0])); n = ld(e, v[1])
            if k == 'obj':
                cls, arr, x, size = F.token(l, n); e.oblige('all bytes of a value are written', eq(n, size)); F.write(cls, [(arr, x)], 'value')
            else:
                b = e.load(l.loc); e.oblige('a buffer is written from its start, within its size', And(eq(l.idx, 0), cmpi('<=', n, b.n)))
                F.write(BLOB, [(F.L, zi(n)), (F.A, b.arrs[0])], 'bytes of a number')
            return this
        C['std::basic_ostream::write'] = write
        def read(e, f, this, v):
            mine(e, this); k, l = target(ld(e, v[0])); n = ld(e, v[1])
            if k == 'obj':
                cls, arr, x, size = F.token(l, n); e.oblige('all bytes of a value are read', eq(n, size)); p = F.read(cls, 'value')
                t = loc_type(e, l)
                if p is not None: e.store(l, arr[p])
                elif not F.untouched: pass
            else:
                b = e.load(l.loc); e.oblige('the bytes fit the buffer', And(eq(l.idx, 0), cmpi('<=', n, b.n)))
                p = F.read(BLOB, 'bytes of a number')
                if p is not None:
                    e.oblige('as many bytes are read as were written', zi(n) == F.L[p]); e.store(l.loc, Vec(b.et, b.n, [F.A[p]], 0))
            return this
        F.untouched = True
        C['std::basic_istream::read'] = read
        def endian(to):
            def fn(e, f, this, v):
                l = v[0]; t = loc_type(e, l); x = e.load(l); k = P.kind(t)
                if k in ('b8', 'bool'): return VOID
                if k == 'real': x = e.as_sort(x, RL); y = LED(x) if to else ULD(x); e.assume((ULD(LED(x)) == x) if to else (LED(ULD(x)) == x))
                elif k == 'int':
                    s, b = P.intinfo(t); x = e.as_sort(x, I); g, h = (LE, UL) if to else (UL, LE); y = g[b // 8](x); e.assume(h[b // 8](y) == x)
                else: raise Unsupported('byte order of %s' % P.rname(t))
                e.store(l, y); return VOID
            return fn
        C['boost::endian::native_to_little_inplace'] = endian(True); C['boost::endian::little_to_native_inplace'] = endian(False)
        bad = lambda e, this: zb(F.st().d['bad'])
        for nm in ('operator!', 'fail', 'bad'): C['std::basic_ios::' + nm] = lambda e, f, this, v: (mine(e, this), bad(e, this))[1]
        for nm in ('good', 'operator bool'): C['std::basic_ios::' + nm] = lambda e, f, this, v: (mine(e, this), Not(bad(e, this)))[1]
        def setstate(e, f, this, v):
            mine(e, this); F.put(F.st().d['pos'], True); return VOID
        C['std::basic_ios::setstate'] = setstate

class Source:
    """a region (kind, points with exact coordinates, faces, face data) and the file that describes it"""
    def __init__(self, eng, F, rt):
        P = self.P = eng.P; self.eng = eng; self.rt = rt
        self.r = eng.fresh_of(rt, 'region'); fs = P.fields(rt)
        self.bn = next(n for n, t, _ in fs if is_soup(P, t)); self.kn = next(n for n, t, _ in fs if P.kind(t) == 'b8')
        self.st = dict((n, t) for n, t, _ in fs)[self.bn]
        ups = [n for n, t, _ in P.fields(self.st) if P.kind(t) == 'uptr']
        b = self.r.d[self.bn]; d = dict(b.d)
        for u in ups: d[u] = Ptr(None)
        rd = dict(self.r.d); rd[self.bn] = b = Rec(self.st, d); self.r = Rec(rt, rd)
        soup_wf(eng, b, faces=False)
        self.pts = b.d['points_'].arrs[0]; self.nv = zi(b.d['points_'].n); self.cs = b.d['faces_'].arrs; self.data = b.d['face_data_'].arrs; self.nf = zi(b.d['faces_'].n)
        eng.assume(z3.And(self.nv < 2**48, self.nf < 2**48))
        PT = self.PT = P.sort_of('CGAL::Point_3'); self.X = [z3.Function('exact_' + c, PT, RL) for c in 'xyz']
        self.N = P.sort_of('boost::multiprecision::number'); self.VAL = z3.Function('value_of_number', self.N, RL)
        self.kind = eng.as_sort(self.r.d[self.kn], B8)
        self.total = 3 + 4 * self.nv + 4 * self.nf; self.F = F
        F.T3 = DATA
        self.geometry()
    def geometry(self):
        eng, P = self.eng, self.P; C = eng.contracts; PT = self.PT; Fn = z3.Function
        ld = lambda e, x: e.load(x) if isinstance(x, Loc) else x
        IVS = P.sort_of('CGAL::Interval_nt') if any(t['k'] == 'r' and t.get('nn') == 'CGAL::Interval_nt' for t in P.types) else z3.DeclareSort('Interval')
        AP, EX = Fn('approximation', PT, PT), Fn('exact_point', PT, PT); BASE = Fn('point_behind', PT, PT)
        IV = [Fn('interval_' + c, PT, IVS) for c in 'xyz']; NQ = [Fn('rational_' + c, PT, self.N) for c in 'xyz']
        ISP, INF, SUP = Fn('is_one_number', IVS, z3.BoolSort()), Fn('lower_end', IVS, RL), Fn('upper_end', IVS, RL)
        def fact(p):
            eng.assume(z3.And(*[z3.And(z3.Implies(ISP(IV[c](AP(p))), z3.And(INF(IV[c](AP(p))) == self.X[c](p), SUP(IV[c](AP(p))) == self.X[c](p))), self.VAL(NQ[c](EX(p))) == self.X[c](p)) for c in range(3)]))
        def approx(e, f, this, v): p = ld(e, this); fact(p); return AP(p)
        def exact(e, f, this, v): p = ld(e, this); fact(p); return EX(p)
        for k in ('Lazy', 'Point_3', 'Lazy_exact_nt'): C['CGAL::%s::approx' % k] = approx; C['CGAL::%s::exact' % k] = exact
        def coord(c):
            def fn(e, f, this, v):
                rn = P.rname(P.deref(f['ret'])); p = ld(e, this)
                if rn == 'CGAL::Interval_nt': return IV[c](p)
                if rn == 'boost::multiprecision::number': return NQ[c](p)
                if rn == 'CGAL::Lazy_exact_nt': return self.X[c](p)
                raise Unsupported('coordinate')
            return fn
        for c, nm in enumerate('xyz'):
            for pre in ('', 'h'): C['CGAL::Point_3::%s%s' % (pre, nm)] = C['CGAL::PointC3::%s%s' % (pre, nm)] = coord(c)
        for cl in ('Interval_nt',):
            C['CGAL::%s::is_point' % cl] = lambda e, f, this, v: ISP(ld(e, this))
            C['CGAL::%s::inf' % cl] = lambda e, f, this, v: INF(ld(e, this)); C['CGAL::%s::sup' % cl] = lambda e, f, this, v: SUP(ld(e, this))
        def point(e, f, t, v, n=None):
            xs = [ld(e, x) for x in v]
            if len(xs) == 1: return xs[0]
            if len(xs) != 3: raise Unsupported('point')
            xs = [self.VAL(x) if is_sym(x) and x.sort() == self.N else e.as_sort(x, RL) for x in xs]
            p = e.fresh(PT, 'point_read'); e.assume(z3.And(*[self.X[c](p) == xs[c] for c in range(3)])); return p
        C['CGAL::Point_3::Point_3'] = point
        def lazy(e, f, t, v, n=None):
            if not v: return e.as_sort(0, RL)
            x = ld(e, v[0]); return self.VAL(x) if is_sym(x) and x.sort() == self.N else e.as_sort(x, RL)
        C['CGAL::Lazy_exact_nt::Lazy_exact_nt'] = lazy
        C['boost::multiprecision::number::number'] = lambda e, f, t, v, n=None: ld(e, v[0]) if v and is_sym(ld(e, v[0])) and ld(e, v[0]).sort() == self.N else e.fresh(self.N, 'number')
        # one block for a rational, one for the face data
        def rat(w):
            def fn(e, f, this, v):
                t = P.deref(f['p'][1]['t']); rn = P.rname(t); cls = RAT if rn in ('boost::multiprecision::number', '__gmp_expr') else DATA if P.types[t]['k'] == 'r' and f.get('body') is None else None
                if cls is None: return e.inline(f, this, v)
                if not (isinstance(v[0], Loc) and v[0].root == self.F.loc.root): raise Unsupported('another stream')
                F = self.F
                if w:
                    x = e.load(v[1]) if isinstance(v[1], Loc) else v[1]
                    if cls == RAT: F.write(RAT, [(F.R, self.VAL(x))], 'rational')
                    else: F.write(DATA, list(zip(F.D, [e.as_sort(y, a.sort().range()) for y, a in zip(e.flat(x, t), F.D)])), 'face data')
                else:
                    p = F.read(cls, 'rational' if cls == RAT else 'face data')
                    if cls == RAT:
                        x = e.fresh(self.N, 'read')
                        if p is not None: e.assume(self.VAL(x) == F.R[p])
                        e.store(v[1], x)
                    elif p is not None: e.store(v[1], e.from_flat(t, [a[p] for a in F.D]) if hasattr(e, 'from_flat') else unflat(e, t, [a[p] for a in F.D]))
                return VOID
            return fn
        C['kigumi::Write::operator()'] = rat(True); C['kigumi::Read::operator()'] = rat(False)
        F = self.F; F.D = [eng.fresh(AR(a.sort().range()), 'file_data') for a in self.data]
    def header(self):
        F = self.F
        return z3.And(F.T[0] == INT + 1, F.B[0] == self.kind, F.T[1] == INT + 4, F.I[1] == LE[4](self.nv), F.T[2] == INT + 4, F.I[2] == LE[4](self.nf), UL[4](LE[4](self.nv)) == self.nv, UL[4](LE[4](self.nf)) == self.nf)
    def vertex(self, v):
        """the four blocks of vertex v"""
        F = self.F; b = 3 + 4 * v; p = self.pts[v]
        ex = F.B[b] == 1
        return z3.Implies(z3.And(v >= 0, v < self.nv), z3.And(F.T[b] == INT + 1, z3.Or(F.B[b] == 0, F.B[b] == 1),
            z3.And(*[z3.And(F.T[b + 1 + c] == z3.If(ex, RAT, DBL + 8), F.R[b + 1 + c] == z3.If(ex, self.X[c](p), LED(self.X[c](p))), ULD(LED(self.X[c](p))) == self.X[c](p)) for c in range(3)])))
    def face(self, f):
        F = self.F; b = 3 + 4 * self.nv + 4 * f
        return z3.Implies(z3.And(f >= 0, f < self.nf), z3.And(z3.And(*[z3.And(F.T[b + c] == INT + 4, F.I[b + c] == LE[4](self.cs[c][f]), UL[4](LE[4](self.cs[c][f])) == self.cs[c][f]) for c in range(3)]),
            F.T[b + 3] == DATA, *[a[b + 3] == d[f] for a, d in zip(F.D, self.data)]))
    def fits(self):
        return z3.And(self.nv < 2**31, self.nf < 2**31)
def unflat(e, t, xs):
    v = e.fresh_of(t, 'value'); P = e.P; d = {}
    keys = [k for k, kd, x in e.walk(v, t)]
    if len(keys) != len(xs): raise Unsupported('face data')
    return e.rebuild(v, dict(zip(keys, xs)), t)

def u_write(eng):
    P = eng.P; F = File(eng, True)
    fn = P.fn('kigumi::write_kigumi_region', lambda f: P.rname(P.deref(f['p'][0]['t'])) == 'std::basic_ostream')
    S = Source(eng, F, P.deref(fn['p'][1]['t'])); eng.assume(S.header()); rl = ref(eng, S.r, S.rt)
    def fact(L):
        k = zi(L.k); out = [S.vertex(k), S.face(k)]
        for x in S.cs: eng.on_read(x, k)
        return out
    eng.opts['loop_facts'] = [fact]
    # whether the writer stores a vertex as three doubles or as three rationals is its choice: the file it is compared with has the same choice
    def marks(e, f, this, v): pass
    def pos(base):
        def inv(L):
            s = L.at(F.loc); return zi(s.d['pos']) == base + 4 * zi(L.k)
        return inv
    def small(L):
        k = zi(L.k); return Quant(lambda j: z3.Implies(z3.And(j >= 0, j < k, j < S.nf), z3.And(*[z3.And(c[j] >= 0, c[j] < 2**31) for c in S.cs])), S.cs, pats=lambda j: [S.cs[0][j]])
    eng.invs['*'] = [('position in the file (vertices)', pos(3)), ('position in the file (faces)', pos(3 + 4 * S.nv)), ('corners written fit', small)]
    def post(kind, r):
        s = F.st(); j = eng.fresh(I, 'any_face')
        if kind == 'throw':
            eng.oblige('an error is raised only for values that do not fit', z3.Or(Not(S.fits()), z3.Exists([j], z3.And(j >= 0, j < S.nf, z3.Or(*[c[j] >= 2**31 for c in S.cs]))))); return
        ok = eng.tobool(r)
        eng.oblige('success is reported exactly when nothing failed', zb(ok) == Not(zb(s.d['bad'])))
        eng.assume(zb(ok)); eng.assume(z3.And(j >= 0, j < S.nf))
        eng.oblige('a region that was written completely has all its blocks in the file', zi(s.d['pos']) == S.total)
        for c in S.cs: eng.on_read(c, j)
        eng.oblige('a region that was written fits the format', z3.And(S.fits(), *[z3.And(c[j] >= 0, c[j] < 2**31) for c in S.cs]))
    # throwing paths inside a loop: the value that does not fit is an instance
    verify(eng, lambda: eng.inline(fn, None, [F.loc, rl]), post)

def u_read(eng):
    P = eng.P; F = File(eng, False)
    fn = P.fn('kigumi::read_kigumi_region', lambda f: P.rname(P.deref(f['p'][0]['t'])) == 'std::basic_istream')
    S = Source(eng, F, P.deref(fn['p'][1]['t'])); nv, nf = S.nv, S.nf
    eng.assume(z3.And(S.header(), S.fits(), F.avail <= S.total))
    for h in (S.vertex, S.face): pass
    eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < nf), z3.And(*[z3.And(c[j] >= 0, c[j] < 2**31) for c in S.cs])), S.cs, pats=lambda j: [S.cs[0][j]])
    dest0 = eng.fresh_of(S.rt, 'destination'); d = dict(dest0.d); b = dict(d[S.bn].d)
    for n, x, _ in P.fields(S.st):
        if P.kind(x) == 'uptr': b[n] = Ptr(None)
    d[S.bn] = Rec(S.st, b); soup_wf(eng, d[S.bn], faces=False); dest = ref(eng, Rec(S.rt, d), S.rt)
    def fact(L):
        k = zi(L.k)
        for x in S.cs: eng.on_read(x, k)
        return [S.vertex(k), S.face(k)]
    eng.opts['loop_facts'] = [fact]
    good = lambda L: Not(zb(L.at(F.loc).d['bad']))
    def pos(base):
        return lambda L: z3.Implies(good(L), zi(L.at(F.loc).d['pos']) == base + 4 * zi(L.k))
    def within(L): return zi(L.at(F.loc).d['pos']) <= F.avail
    def soups(L):
        # the region being read: a soup that the loop changes
        out = {}
        for (r, key) in L.mods:
            t = eng.rtype.get(r)
            if t is None: continue
            if is_soup(P, t): out[r] = L.at(Loc(r))
            elif t == S.rt: out[r] = L.at(Loc(r)).d[S.bn]
        if len(out) != 1: raise SpecError('soup being read')
        return next(iter(out.values()))
    def count(which, n):
        def inv(L):
            v = soups(L).d[which]; return z3.Implies(good(L), zi(v.n) == (zi(L.k) if n is None else n))
        return inv
    def points(all_):
        def inv(L):
            v = soups(L).d['points_']; a = v.arrs[0]; g = good(L); k = nv if all_ else zi(L.k)
            return Quant(lambda j: z3.Implies(z3.And(g, j >= 0, j < k, j < nv), z3.And(*[S.X[c](a[j]) == S.X[c](S.pts[j]) for c in range(3)])), [a], pats=lambda j: [a[j]])
        return inv
    def faces(L):
        v = soups(L); a = v.d['faces_'].arrs + v.d['face_data_'].arrs; b = S.cs + S.data; g = good(L); k = zi(L.k)
        return Quant(lambda j: z3.Implies(z3.And(g, j >= 0, j < k, j < nf), z3.And(*[x[j] == y[j] for x, y in zip(a, b)])), a, pats=lambda j: [x[j] for x in a])
    def lows(L):
        v = soups(L); return z3.And(*[zi(v.d[x].lo) == 0 for x in ('points_', 'faces_', 'face_data_')])
    def same(L):
        v = soups(L); return zi(v.d['face_data_'].n) == zi(v.d['faces_'].n)
    eng.invs['*'] = [('position in the file (vertices)', pos(3)), ('position in the file (faces)', pos(3 + 4 * nv)), ('inside the file', within), ('the stream fails at the end of a truncated file only', lambda L: Or(good(L), F.avail < S.total)), ('one face data item per face', same),
                     ('vertices read so far', count('points_', None)), ('all vertices are read', count('points_', nv)), ('faces read so far', count('faces_', None)), ('no face yet', count('faces_', 0)),
                     ('points read so far', points(False)), ('all points are read', points(True)), ('corners and data read so far', faces)]
    def post(kind, r):
        if kind == 'throw': eng.oblige('an error is raised for a damaged file only', F.avail < S.total); return
        ok = eng.branch(zb(eng.tobool(r)))
        if not ok: eng.oblige('reading fails for a truncated file or a failed stream only', z3.Or(F.avail < S.total, F.bad0)); return
        eng.oblige('a truncated file is not read successfully', z3.And(F.avail == S.total, Not(F.bad0)))
        v = eng.peek(dest); b = v.d[S.bn]
        eng.oblige('the kind of the region is restored', eng.as_sort(v.d[S.kn], B8) == S.kind)
        eng.oblige('as many vertices and faces as were written', z3.And(zi(b.d['points_'].n) == nv, zi(b.d['faces_'].n) == nf, zi(b.d['face_data_'].n) == nf))
        def c1():
            j = eng.fresh(I, 'any_vertex'); eng.assume(z3.And(j >= 0, j < nv)); a = b.d['points_']
            if isinstance(a, PyVec): eng.oblige('no vertex is lost', False); return
            eng.on_read(a.arrs[0], zi(add(j, a.lo)))
            eng.oblige('exactly the coordinates that were written', z3.And(*[S.X[c](a.arrs[0][zi(add(j, a.lo))]) == S.X[c](S.pts[j]) for c in range(3)]))
        eng.explore(c1)
        def c2():
            j = eng.fresh(I, 'any_face'); eng.assume(z3.And(j >= 0, j < nf)); xs = []
            for l, ys in (('faces_', S.cs), ('face_data_', S.data)):
                a = b.d[l]
                if isinstance(a, PyVec): eng.oblige('no face is lost', False); return
                for x, y in zip(a.arrs, ys): eng.on_read(x, zi(add(j, a.lo))); xs.append(x[zi(add(j, a.lo))] == y[j])
            eng.oblige('the faces and their data as they were written, in the same order', z3.And(*xs))
        eng.explore(c2)
    verify(eng, lambda: eng.inline(fn, None, [F.loc, dest]), post)

class Rational:
    """a rational number and the five blocks that describe it: sign, length and bytes of the numerator, length and bytes of the denominator"""
    def __init__(self, eng, F, t):
        P = eng.P; self.eng = eng; self.gmp = P.rname(t) == GMP; N = self.N = P.sort_of(P.rname(t)); Fn = z3.Function; B = z3.BoolSort(); C = eng.contracts
        self.q = eng.fresh(N, 'rational'); q = self.q
        NUM, DEN, NEG, LT0, EQ0, QUO = Fn('numerator', N, N), Fn('denominator', N, N), Fn('negation', N, N), Fn('is_negative', N, B), Fn('is_zero', N, B), Fn('quotient', N, N, N)
        BYTES, LEN, IMP = Fn('bytes_of', N, AR(B8)), Fn('number_of_bytes', N, I), Fn('number_from_bytes', AR(B8), I, N)
        n, d = NUM(q), DEN(q); self.neg, self.n, self.d = LT0(q), n, d; self.BYTES, self.LEN = BYTES, LEN
        imp = lambda x: IMP(BYTES(x), LEN(x))
        eng.assume(z3.And(LEN(n) >= (0 if self.gmp else 1), LEN(d) >= 1, LEN(n) < 2**63, LEN(d) < 2**63, z3.Not(EQ0(imp(d))), QUO(imp(n), imp(d)) == z3.If(LT0(q), NEG(q), q), NEG(NEG(q)) == q))
        ld = lambda e, x: e.load(x) if isinstance(x, Loc) else x
        MP = 'boost::multiprecision::'
        C[MP + 'numerator'] = lambda e, f, this, v: NUM(ld(e, v[0])); C[MP + 'denominator'] = lambda e, f, this, v: DEN(ld(e, v[0]))
        def zero(fu, sign=None):
            def fn(e, f, this, v):
                xs = [ld(e, x) for x in ([this] if this is not None else []) + list(v)]
                if len(xs) == 2 and conc0(xs[1]): return fu(xs[0])
                raise Unsupported('comparison of numbers')
            return fn
        def conc0(x): return (type(x) is int and x == 0) or (is_sym(x) and z3.is_int_value(x) and x.as_long() == 0)
        C[MP + 'operator<'] = zero(LT0); C[MP + 'operator=='] = zero(EQ0)
        C[MP + 'number::is_zero'] = lambda e, f, this, v: EQ0(ld(e, this))
        def neg(e, f, this, v):
            xs = [ld(e, x) for x in ([this] if this is not None else []) + list(v)]
            if len(xs) != 1: raise Unsupported('difference of numbers')
            return NEG(xs[0])
        C[MP + 'operator-'] = neg
        def ctor(e, f, t, v, n=None):
            xs = [x for x in (ld(e, x) for x in v) if not isinstance(x, Ptr)]   # (a defaulted pointer argument selects the overload)
            if not xs: return e.fresh(N, 'number')
            if len(xs) == 1 and is_sym(xs[0]) and xs[0].sort() == N: return xs[0]
            if len(xs) == 2 and all(is_sym(x) and x.sort() == N for x in xs): return QUO(*xs)
            raise Unsupported('number')
        C[MP + 'number::number'] = ctor
        def assign(e, f, this, v):
            x = ld(e, v[0])
            if not (is_sym(x) and x.sort() == N): raise Unsupported('assignment to a number')
            e.store(this, x); return this
        C[MP + 'number::operator='] = assign
        def export(e, f, this, v):
            x, o = ld(e, v[0]), ld(e, v[1])
            if not isinstance(o, BackIns) or not eq(ld(e, v[2]), 8) is True: raise Unsupported('export of a number')
            b = e.load(o.loc); n0 = conc(b.n) if not isinstance(b, PyVec) else len(b.xs); et = P.elem(loc_type(e, o.loc))
            if n0 == 0: e.store(o.loc, Vec(et, LEN(x), [BYTES(x)], 0))
            else: e.store(o.loc, Vec(et, zi(b.n if isinstance(b, Vec) else n0) + LEN(x), [e.fresh(AR(B8), 'bytes')], 0))
            return o
        C[MP + 'export_bits'] = export
        def import_(e, f, this, v):
            b, x = ld(e, v[1]), ld(e, v[2])
            if not (isinstance(b, It) and isinstance(x, It) and b.loc.same(x.loc)): raise Unsupported('import of a number')
            w = e.load(b.loc); e.oblige('all bytes of the buffer are used', And(eq(b.idx, 0), eq(x.idx, w.n)))
            if isinstance(w, PyVec): raise Unsupported('import from an empty buffer')
            e.store(v[0], IMP(w.arrs[0], zi(w.n))); return v[0]
        C[MP + 'import_bits'] = import_
        # GMP: the C++ classes are numbers of the same sort, the C functions work on the number a pointer designates
        for a in ('operator<', 'operator==', 'operator-', 'operator/'): C.setdefault(a, C.get(MP + a) or (lambda e, f, this, v: QUO(*[num(e, x) for x in ([this] if this is not None else []) + list(v)])))
        def num(e, x):
            x = ld(e, x)
            if not (is_sym(x) and x.sort() == N): raise Unsupported('number')
            return x
        part = lambda fu: lambda e, f, this, v: e.new_root(fu(num(e, this)), None)
        C['__gmp_expr::get_num'] = part(NUM); C['__gmp_expr::get_den'] = part(DEN)
        C['__gmp_expr::get_mpz_t'] = lambda e, f, this, v: Ptr(this)
        C['__gmp_expr::__gmp_expr'] = ctor; C['__gmp_expr::operator='] = assign
        def z(e, x):
            x = ld(e, x)
            if not (isinstance(x, Ptr) and isinstance(x.loc, Loc)): raise Unsupported('pointer to a number')
            return x.loc
        BITS = Fn('number_of_bits', N, I)
        def sizeinbase(e, f, this, v):
            if not eq(ld(e, v[1]), 2) is True: raise Unsupported('size in another base')
            x = num(e, z(e, v[0])); b = BITS(x); e.assume(z3.And(b >= 1, LEN(x) >= 0, LEN(x) <= (b + 7) / 8, (b + 7) / 8 == z3.If(EQ0(x), 1, LEN(x)), z3.Implies(EQ0(x), LEN(x) == 0), b < 2**62)); return b
        C['__gmpz_sizeinbase'] = sizeinbase
        def words(e, v, at):
            order, size, endian, nails = [ld(e, v[i]) for i in at]
            if not (eq(order, 1) is True and eq(size, 1) is True and eq(nails, 0) is True): raise Unsupported('number in another layout')
        def gexport(e, f, this, v):
            o, x = ld(e, v[0]), num(e, z(e, v[6])); words(e, v, (2, 3, 4, 5))
            if not isinstance(o, It): raise Unsupported('export of a number')
            b = e.load(o.loc); e.oblige('the bytes of the number fit the buffer', And(eq(o.idx, 0), cmpi('<=', LEN(x), b.n)))
            e.store(o.loc, Vec(P.elem(loc_type(e, o.loc)), b.n, [BYTES(x)], 0)); c = ld(e, v[1])
            if isinstance(c, Ptr) and isinstance(c.loc, Loc): e.store(c.loc, LEN(x))
            return v[0]
        C['__gmpz_export'] = gexport
        def gimport(e, f, this, v):
            b, n = ld(e, v[6]), ld(e, v[1]); words(e, v, (2, 3, 4, 5)); w = e.load(b.loc) if isinstance(b, It) else None
            if w is None: raise Unsupported('import of a number')
            e.oblige('the bytes of the buffer are used from its start', And(eq(b.idx, 0), cmpi('<=', n, w.n)))
            e.store(z(e, v[0]), IMP(w.arrs[0] if isinstance(w, Vec) else e.fresh(AR(B8), 'no_bytes'), zi(n))); return VOID
        C['__gmpz_import'] = gimport
        self.F = F
        for p, x in ((0, None), (1, n), (2, None), (3, d), (4, None)):
            if p == 0: eng.assume(z3.And(F.T[0] == INT + 1, F.B[0] == z3.If(LT0(q), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))
            elif x is not None: eng.assume(z3.And(F.T[p] == INT + 4, F.I[p] == LE[4](LEN(x)), UL[4](LE[4](LEN(x))) == LEN(x), F.T[p + 1] == BLOB, F.L[p + 1] == LEN(x), F.A[p + 1] == BYTES(x)))
GMP = '__gmp_expr'; BOOST = 'boost::multiprecision::number'
def u_write_rational(cls, eng):
    is_rat = lambda P, t: P.rname(t) == cls
    P = eng.P; F = File(eng, False); F.can = True
    fn = P.fn('kigumi::Write::operator()', lambda f: is_rat(P, P.deref(f['p'][1]['t']))); t = P.deref(fn['p'][1]['t'])
    R = Rational(eng, F, t); l = ref(eng, R.q, t)
    def post(kind, r):
        s = F.st()
        if kind == 'throw': eng.oblige('an error is raised only for numbers that do not fit', z3.Or(R.LEN(R.n) >= 2**31, R.LEN(R.d) >= 2**31)); return
        eng.oblige('five blocks are written', zi(s.d['pos']) == 5); eng.oblige('the number fits the format', z3.And(R.LEN(R.n) < 2**31, R.LEN(R.d) < 2**31))
    verify(eng, lambda: eng.inline(fn, ref(eng, eng.fresh_of(fn['rec'], 'self'), fn['rec']), [F.loc, l]), post)
def u_read_rational(cls, eng):
    is_rat = lambda P, t: P.rname(t) == cls
    P = eng.P; F = File(eng, False)
    fn = P.fn('kigumi::Read::operator()', lambda f: is_rat(P, P.deref(f['p'][1]['t']))); t = P.deref(fn['p'][1]['t'])
    R = Rational(eng, F, t); l = ref(eng, eng.fresh(R.N, 'destination'), t); eng.assume(z3.And(F.avail <= 5, R.LEN(R.n) < 2**31, R.LEN(R.d) < 2**31))
    def post(kind, r):
        s = F.st(); bad = zb(s.d['bad'])
        if kind == 'throw': eng.oblige('no error is raised for the bytes of a number', z3.Or(F.avail < 5, F.bad0)); return
        eng.oblige('the stream fails exactly when the number is not complete', bad == z3.Or(F.avail < 5, F.bad0))
        eng.oblige('the number that was written is read', z3.Or(bad, z3.And(zi(s.d['pos']) == 5, eng.peek(l) == R.q)))
    verify(eng, lambda: eng.inline(fn, ref(eng, eng.fresh_of(fn['rec'], 'self'), fn['rec']), [F.loc, l]), post)

def u_files(which):
    """the overloads that take a file name: what they report is what the stream functions and the file report"""
    def u(eng):
        P = eng.P; w = which == 'write'; nm = 'kigumi::%s_kigumi_region' % which
        fn = P.fn(nm, lambda f: P.rname(P.deref(f['p'][0]['t'])) == 'std::basic_string'); rt = P.deref(fn['p'][1]['t'])
        opened, good = eng.fresh(z3.BoolSort(), 'file_opens'), eng.fresh(z3.BoolSort(), 'flush_succeeds'); inner = eng.fresh(z3.BoolSort(), 'stream_function_succeeds')
        box = eng.new_root(Tup([z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(False)]), None)   # stream function called, flushed after it, flush failed
        name = eng.fresh(eng.P.sort_of('std::basic_string'), 'name') if P.kind(P.deref(fn['p'][0]['t'])) == 'opaque' else eng.fresh_of(P.deref(fn['p'][0]['t']), 'name')
        nl = ref(eng, name, P.deref(fn['p'][0]['t'])); rl = ref(eng, eng.fresh_of(rt, 'region'), rt); C = eng.contracts
        for k in ('i', 'o', ''):
            def ctor(e, f, t, v, n=None):
                if not v: raise Unsupported('file without a name')
                x = e.load(v[0]) if isinstance(v[0], Loc) else v[0]
                e.oblige('the file of the given name is opened', eq(x, name) if is_sym(x) else False)
                return Obj('file', name=Str('file') if False else z3.IntVal(0))
            C['std::basic_%sfstream::basic_%sfstream' % (k, k)] = ctor
            C['std::basic_%sfstream::is_open' % k] = lambda e, f, this, v: opened
        def isf(e, this):
            return isinstance(this, Loc) and isinstance(e.peek(this), Obj) and e.peek(this).kind == 'file'
        def state(e):
            b = e.peek(box); return And(opened, And(Imp(b.xs[0], inner if w else True), Not(b.xs[2])))
        def st(neg):
            def g(e, f, this, v):
                if not isf(e, this): raise Unsupported('another stream')
                b = e.peek(box)
                ok = state(e) if w or not b.xs[0] is True else inner
                return Not(ok) if neg else ok
            return g
        for a in ('operator!', 'fail'): C['std::basic_ios::' + a] = st(True)
        for a in ('operator bool', 'good'): C['std::basic_ios::' + a] = st(False)
        def flush(e, f, this, v):
            if not isf(e, this): return this
            b = e.peek(box); e.store(box, Tup([b.xs[0], b.xs[0], Or(b.xs[2], Not(good))])); return this
        C['std::basic_ostream::flush'] = flush
        def close(e, f, this, v): flush(e, f, this, v); return VOID
        C['std::basic_ofstream::close'] = close; C['std::basic_ifstream::close'] = lambda e, f, this, v: VOID
        def stream(e, f, this, v):
            if P.rname(P.deref(f['p'][0]['t'])) == 'std::basic_string': return e.inline(f, this, v)
            if not isf(e, v[0]): raise Unsupported('another stream')
            e.oblige('the given region is used', isinstance(v[1], Loc) and v[1].same(rl)); e.oblige('the file is open', opened)
            e.store(box, Tup([z3.BoolVal(True), z3.BoolVal(False), e.peek(box).xs[2]])); return inner
        C[nm] = stream
        def post(kind, r):
            if kind == 'throw': eng.oblige('no error is raised', False); return
            b = eng.peek(box); ok = zb(eng.tobool(r))
            want = z3.And(opened, inner, good) if w else z3.And(opened, inner)
            eng.oblige('success is reported exactly when the file was opened, used without a failure%s' % (' and flushed' if w else ''), ok == want)
            if w: eng.oblige('the file is flushed after it was written', Imp(ok, b.xs[1]))
        verify(eng, lambda: eng.inline(fn, None, [nl, rl]), post)
    return u

def units(P):
    return [Unit('kigumi::write_kigumi_region (stream)', u_write), Unit('kigumi::read_kigumi_region (stream)', u_read),
            *[Unit('kigumi::%s<%s>::operator()' % (w, x), functools.partial(fn, c)) for x, c in (('cpp_rational', BOOST), ('mpq_class', GMP)) for w, fn in (('Write', u_write_rational), ('Read', u_read_rational))],
            Unit('kigumi::write_kigumi_region (file)', u_files('write')), Unit('kigumi::read_kigumi_region (file)', u_files('read'))]
