"""C20: the parallel sort (parallel_sort.h): barrier phases as a rely/guarantee argument over an arbitrary worker.

Ghost state: which stretches of the range are in order, and the distance D of the current phase (1, 2, 4, ...: it doubles when
all workers meet at the barrier). Guarantee of worker t in a phase: it touches only R(t, D) = [P(t), P(min(t+D, N))), and only if
D divides t; when the phase ends that stretch is in order. These stretches are disjoint for different workers (lemma), so what a
worker knows about its own stretch is stable; at the barrier it may rely on the guarantees of all workers."""
import z3
from kvc.spec import *
from kvc.unit import Unit
from kvc.engine import conc, PathEnd

ID = 'C20'
LEVEL = 'proof'
HARNESS = {'src': ['C20.cc'], 'seconds': 60, 'flags': ['-fsanitize=thread', '-g']}
ASSUME = ['std::sort and std::inplace_merge permute the range they are given, leave it in order (a merge: if both halves are in order and adjoin) and touch nothing else; the comparison is a strict weak order that changes nothing and raises no error',
          'std::barrier: arrive_and_wait returns when as many threads have called it as the barrier was made for, and orders what they did before with what they do afterwards; std::thread: join returns when the thread has ended, and orders likewise; threads can be created',
          'the thread limit is at least one (C21) and below 2^32; the range has fewer than 2^48 elements',
          'rely/guarantee rule for phases between barriers, and induction over the elements of an ascending list of limits', 'termination is not proved (that all workers pass the barrier equally often is)']
SORTED = z3.Function('in_order', I, I, I, z3.BoolSort())

class W:
    """one call of parallel_sort: the range, the workers, the ghost state"""
    def __init__(self, eng, fn):
        self.eng = eng; P = self.P = eng.P; self.fn = fn
        it = fn['p'][0]['t']
        self.worker = None; self.shared = set()
        self.limit = eng.fresh(I, 'thread_limit'); eng.assume(z3.And(self.limit >= 1, self.limit < 2**32))
        self.ghost = eng.new_root(Obj('phases', ver=eng.fresh(I, 'contents'), D=z3.IntVal(1), started=z3.IntVal(0), joined=z3.IntVal(0), made=z3.IntVal(0)), None)
        self.install()
    def g(self, k): return zi(self.eng.peek(self.ghost).d[k])
    def set(self, **kw):
        d = dict(self.eng.peek(self.ghost).d); d.update(kw); self.eng.mem[self.ghost.root] = Obj('phases', **d); self.eng.dirty(self.ghost) if hasattr(self.eng, 'dirty') else None
    def put(self, **kw):
        d = dict(self.eng.peek(self.ghost).d); d.update(kw)
        fp, self.eng.fp = self.eng.fp, None
        self.eng.store(self.ghost, Obj('phases', **d)); self.eng.fp = fp
    def where(self, x, what):
        """position in the range that an iterator designates"""
        x = self.eng.load(x) if isinstance(x, Loc) else x
        if not isinstance(x, It): raise Unsupported('iterator')
        if not x.loc.same(self.vec): self.eng.oblige(what + ' is in the range that is sorted', False); raise PathEnd()
        return zi(x.idx)
    def seg(self, t, D): return self.Pt(t), self.Pt(z3.If(t + D < self.N, t + D, self.N))
    def Pt(self, j): return z3.Select(self.parts.arrs[1], zi(add(j, self.parts.lo)))
    def name(self, x, n):
        c = self.eng.fresh(I, n); self.eng.assume(c == x); return c
    def watch(self):
        """while workers run, the variables they refer to are not changed"""
        e = self.eng; e.g['live'] = (); old = type(e).access
        def access(kind, loc):
            old(e, kind, loc)
            if kind == 'W' and self.worker is None and loc.root in self.shared and not e.mute: e.oblige('what the workers refer to is not changed while they run', self.g('started') == self.g('joined'))
        e.access = access
    def install(self):
        eng = self.eng; C = eng.contracts; L = eng.lib = dict(eng.lib)
        def limit(e, f, this, v):
            if self.worker is not None: raise Unsupported('the thread limit is read by a worker')
            return self.limit
        C['kigumi::Threading_options::num_threads'] = limit
        C['kigumi::Context::current'] = lambda e, f, this, v: e.new_root(e.fresh_of(e.P.deref(f['ret']), 'options'), e.P.deref(f['ret']))
        def comp_ok(e, f, v, i):
            if len(v) <= i: e.oblige('the given comparison is used', False); raise PathEnd()
            c = v[i]; a = e.load(c) if isinstance(c, Loc) else c
            e.oblige('the given comparison is used', (isinstance(c, Loc) and c.same(self.comp)) or t_eq(a, self.comp_v) or (is_sym(a) and a.eq(self.comp_v)))
        def region(e, lo, hi, what):
            e.oblige('%s: a stretch of the range' % what, z3.And(0 <= lo, lo <= hi, hi <= self.n))
            if self.worker is not None:
                t, D = self.worker, self.g('D'); a, b = self.seg(t, D)
                e.oblige('%s: a worker touches only the stretch that is its own in this phase' % what, z3.Or(lo == hi, z3.And(t % D == 0, a <= lo, hi <= b)))
            else:
                e.oblige('%s: no worker is running' % what, self.g('joined') == self.g('started'))
        def changed(e, lo, hi):
            v0, v1 = self.g('ver'), e.fresh(I, 'contents'); self.put(ver=v1)
            e.forall(lambda a, b: z3.Implies(z3.And(SORTED(v0, a, b), z3.Or(b <= lo, hi <= a)), SORTED(v1, a, b)), sorts=[I, I], pats=lambda a, b: [SORTED(v1, a, b)])
            e.forall(lambda a: SORTED(v1, a, a), sorts=[I], pats=lambda a: [SORTED(v1, a, a)])
            e.assume(SORTED(v1, lo, hi))
        def sort(e, f, this, v):
            lo, hi = self.where(v[0], 'what is sorted'), self.where(v[1], 'what is sorted'); comp_ok(e, f, v, 2); region(e, lo, hi, 'sorting'); changed(e, lo, hi); return VOID
        C['std::sort'] = C['std::stable_sort'] = sort
        def merge(e, f, this, v):
            lo, mid, hi = (self.where(x, 'what is merged') for x in v[:3]); comp_ok(e, f, v, 3); region(e, lo, hi, 'merging')
            e.oblige('merging: two stretches that adjoin', z3.And(lo <= mid, mid <= hi)); ver = self.g('ver')
            e.oblige('merging: both stretches are in order', z3.And(SORTED(ver, lo, mid), SORTED(ver, mid, hi))); changed(e, lo, hi); return VOID
        C['std::inplace_merge'] = merge
        def barrier(e, f, t, v, n=None):
            if self.worker is not None: raise Unsupported('a barrier made by a worker')
            x = e.load(v[0]) if isinstance(v[0], Loc) else v[0]; self.put(made=x); return Obj('std::barrier', n=zi(x))
        C['std::barrier::barrier'] = barrier
        def guarantee(e, why):
            t, D = self.worker, self.g('D'); a, b = self.seg(t, D)
            e.oblige('%s a worker has put its own stretch in order' % why, z3.Implies(t % D == 0, SORTED(self.g('ver'), a, b)))
        def wait(e, f, this, v):
            if self.worker is None: e.oblige('only workers meet at the barrier', False); raise PathEnd()
            guarantee(e, 'when the workers meet'); t, D = self.worker, self.g('D')
            v1 = e.fresh(I, 'contents'); D1 = self.name(2 * D, 'distance'); self.put(ver=v1, D=D1)
            e.forall(lambda a: SORTED(v1, a, a), sorts=[I], pats=lambda a: [SORTED(v1, a, a)])
            for j in (t, t + D):
                a, b = self.seg(j, D); e.assume(z3.Implies(z3.And(j % D == 0, j < self.N), SORTED(v1, a, b)))
            e.assume(z3.Implies(t % D1 == 0, z3.And(t % D == 0, (t + D) % D == 0)))                     # the lemma about distances
            return VOID
        C['std::barrier::arrive_and_wait'] = wait
        for o in ('arrive', 'wait', 'arrive_and_drop'): C['std::barrier::' + o] = lambda e, f, this, v: (_ for _ in ()).throw(Unsupported('another use of the barrier'))
        def spawn(e, f, t, v, n=None):
            if not v: raise Unsupported('thread without work')
            c = e.load(v[0]) if isinstance(v[0], Loc) else v[0]; args = [e.load(x) if isinstance(x, Loc) else x for x in v[1:]]
            if self.worker is not None: raise Unsupported('a worker starts a thread')
            j = self.g('started')
            if not e.mute and e.choose(2) == 1:
                self.run(c, args, j); raise PathEnd()
            own = {x.root for fr in e.frames for x in fr.env.values() if isinstance(x, Loc)}
            self.shared |= {x.root for x in c.env.values() if isinstance(x, Loc) and x.root in own} if isinstance(c, Closure) else set()
            self.put(started=j + 1); return e.fresh(e.P.sort_of('std::thread'), 'thread')
        L['std::thread::thread'] = spawn; C['std::thread::thread'] = spawn
        def join(e, f, this, v):
            k = this.path[-1][1] if this.path and not isinstance(this.path[-1], str) and this.path[-1][0] == 'i' else None
            if k is None: raise Unsupported('which thread is joined')
            e.oblige('each thread is joined once, in turn', zi(k) == self.g('joined')); self.put(joined=self.g('joined') + 1); return VOID
        L['std::thread::join'] = join; C['std::thread::join'] = join
    def limits(self, c):
        """the list of limits between the stretches: what the workers are given"""
        e = self.eng; out = []
        for x in c.env.values() if isinstance(c, Closure) else ():
            l = x if isinstance(x, Loc) else None
            if l is None: continue
            y = e.peek(l)
            if isinstance(y, Vec) and e.P.kind(y.et) == 'it' : out.append(y)
        if len(out) != 1: raise Unsupported('the limits of the stretches')
        return out[0]
    def run(self, c, args, j):
        """the work of worker j, whatever the others do"""
        e = self.eng; self.parts = self.limits(c); N = self.N = self.g('made'); D0 = self.g('D')
        P = self.Pt
        e.oblige('there is a limit on either side of every stretch', z3.And(zi(self.parts.n) == N + 1, P(z3.IntVal(0)) == 0, P(N) == self.n))
        def asc():
            i = e.fresh(I, 'i'); e.assume(z3.And(0 <= i, i < N)); e.oblige('the limits ascend', P(i) <= P(i + 1))
            x = e.fresh(I, 'x'); e.assume(z3.And(0 <= x, x <= N)); e.oblige('the limits are positions in the range', z3.Select(self.parts.arrs[0], zi(add(x, self.parts.lo))) == self.rid)
        e.explore(asc)
        arr = self.parts.arrs
        e.forall(lambda a, b: z3.Implies(z3.And(0 <= a, a <= b, b <= N), P(a) <= P(b)), sorts=[I, I], pats=lambda a, b: [z3.MultiPattern(P(a), P(b))])
        e.assume(z3.And(0 <= j, j < N)); e.assume(z3.And(self.seg(j, z3.IntVal(1))[0] <= self.n))
        try: self.work(c, args, j)
        finally: self.worker = None; e.fp = None
    def work(self, c, args, j):
        e = self.eng; N = self.N; rec = []; self.worker = j; e.fp = (rec, set(e.mem), len(e.pc))
        try: e.call_closure(c, args)
        except CxxThrow: e.oblige('no error leaves a thread', False); raise PathEnd()
        finally: e.fp = None
        for k, l, cond in rec:
            if k == 'W' and l.root != self.ghost.root: e.oblige('a worker changes nothing but its own variables and its own stretch of the range', z3.Not(z3.And(*cond)) if cond else False)
        t, D = j, self.g('D'); a, b = self.seg(t, D)
        e.oblige('at the end a worker has put its own stretch in order', z3.Implies(t % D == 0, SORTED(self.g('ver'), a, b)))
        e.oblige('all workers stop in the same phase, when one stretch is everything', z3.And(D >= N, z3.Or(D == 1, D < 2 * N)))

def lemmas(eng):
    a, b, d, q, r, x, y, u, w = (eng.fresh(I, n) for n in 'abdqrxyuw')
    # t = 2 d q is a multiple of d, and so is t + d
    eng.oblige('a multiple of twice the distance is a multiple of the distance, and so is the next', z3.Implies(z3.And(d >= 1, a == 2 * d * q), z3.And(a == d * (2 * q), a + d == d * (2 * q + 1))))
    eng.oblige('a remainder of zero is divisibility', z3.Implies(z3.And(d >= 1, a % d == 0), a == d * (a / d)))
    def m():
        eng.assume(z3.And(d >= 1, x * d < y * d)); eng.oblige('different multiples of a distance are that distance apart', x * d + d <= y * d)
    eng.explore(m)
def u_sort(eng):
    P = eng.P; fn = P.fn('kigumi::parallel_sort', lambda f: len(f['p']) == 3)
    w = W(eng, fn); it = fn['p'][0]['t']
    et = None
    v = eng.fresh_of(eng.P.typ(*()) if False else vec_type(P, it), 'range'); w.vec = eng.new_root(v, vec_type(P, it)); w.n = zi(eng.peek(w.vec).n); eng.assume(w.n < 2**48)
    ct = P.deref(fn['p'][2]['t']); w.comp_v = eng.fresh_of(ct, 'comp'); w.comp = eng.new_root(w.comp_v, ct)
    w.N = None; w.rid = eng.region(w.vec)
    invariants(eng, w)
    def post(kind, r):
        eng.oblige('sorting raises no error of its own', kind == 'ret')
        s, j = w.g('started'), w.g('joined'); V, D, made = w.g('ver'), w.g('D'), w.g('made')
        eng.oblige('every thread that was started is joined', s == j)
        eng.oblige('no more workers run than the limit allows', s <= w.limit)
        eng.oblige('the barrier waits for exactly the workers there are', z3.Implies(s > 0, made == s))
        eng.oblige('the range is in order', z3.Or(s > 0, w.n == 0, SORTED(V, 0, w.n)))
    cv = w.comp if P.isref(fn['p'][2]['t']) else w.comp_v
    def th():
        w.watch(); return eng.inline(fn, None, [It(w.vec, z3.IntVal(0)), It(w.vec, w.n), cv])
    verify(eng, th, post)
def invariants(eng, w):
    P = eng.P; cs = []
    def limits(L):
        out = []
        for n, t, l in L.vars():
            if t is None or not isinstance(l, Loc) or P.kind(P.deref(t)) != 'vec' or P.kind(P.elem(P.deref(t))) != 'it': continue
            v = eng.peek(l)
            if isinstance(v, Vec) and any(r == l.root for r, k in L.mods): out.append(v)
        if len(out) != 1: raise SpecError('limits')
        return out[0]
    def ints(L, m):
        xs = []
        for n, t, l in L.vars():
            if t is None or not isinstance(l, Loc) or P.kind(P.deref(t)) != 'int': continue
            x = eng.peek(l)
            if type(x) is int or is_sym(x): xs.append((l.root, zi(x)))
        if m >= len(xs): raise SpecError('variable')
        return xs[m]
    def inrange(L):
        v = limits(L); return Quant(lambda j: z3.Implies(z3.And(0 <= j, j < zi(v.n)), z3.Select(v.arrs[0], zi(add(j, v.lo))) == w.rid), v.arrs[:1], pats=lambda j: [z3.Select(v.arrs[0], zi(add(j, v.lo)))])
    cs.append(('limits in the range', inrange))
    def even(m):
        def inv(L):
            v = limits(L); r, x = ints(L, m)
            if any(r == q for q, k in L.mods): raise SpecError('changes')
            return Quant(lambda j: z3.Implies(z3.And(0 <= j, j < zi(v.n)), z3.Select(v.arrs[1], zi(add(j, v.lo))) == j * x), v.arrs[1:2], pats=lambda j: [z3.Select(v.arrs[1], zi(add(j, v.lo)))])
        return inv
    for m in range(6): cs.append(('even limits %d' % m, even(m)))
    gm = lambda L: any(r == w.ghost.root for r, k in L.mods) or (_ for _ in ()).throw(SpecError('ghost'))
    cs.append(('threads started', lambda L: gm(L) and w.g('started') == L.k))
    cs.append(('threads joined', lambda L: gm(L) and w.g('joined') == L.k))
    def work(L):
        if w.worker is None: raise SpecError('no worker')
        gm(L)
    def dist(m):
        def inv(L):
            work(L); r, x = ints(L, m); return x == w.g('D')
        return inv
    for m in range(6): cs.append(('distance %d' % m, dist(m)))
    def guar(L):
        work(L); a, b = w.seg(w.worker, w.g('D')); return z3.Implies(w.worker % w.g('D') == 0, SORTED(w.g('ver'), a, b))
    cs.append(('own stretch in order', guar))
    cs.append(('distance is a distance', lambda L: work(L) or z3.And(w.g('D') >= 1, z3.Or(w.g('D') == 1, w.g('D') < 2 * w.N))))
    eng.invs['*'] = eng.invs.get('*', []) + cs
def vec_type(P, it):
    e = P.elem(it) if P.kind(it) == 'it' else None
    for t in P.types:
        if t['k'] == 'r' and t.get('nn') == 'std::vector' and P.kind(t['id']) == 'vec' and e is not None and P.elem(t['id']) == e: return t['id']
    return P.targ(it, 1)
def u_less(eng):
    P = eng.P; fn = P.fn('kigumi::parallel_sort', lambda f: len(f['p']) == 2); it = fn['p'][0]['t']; vt = vec_type(P, it)
    v = eng.new_root(eng.fresh_of(vt, 'range'), vt); n = zi(eng.peek(v).n); calls = []
    def sorts(e, f, this, vals):
        if len(vals) == 2: return e.inline(f, this, vals)
        if len(vals) != 3: raise Unsupported('another sort')
        a, b = (e.load(x) if isinstance(x, Loc) else x for x in vals[:2])
        e.oblige('the whole range is sorted', And(isinstance(a, It) and isinstance(b, It) and a.loc.same(v) and b.loc.same(v), And(eq(a.idx, 0), eq(b.idx, n))))
        e.oblige('in ascending order', P.rname(P.deref(f['p'][2]['t'])) == 'std::less'); e.g['sorted'] = e.g.get('sorted', 0) + 1; return VOID
    eng.contracts['kigumi::parallel_sort'] = sorts
    def post(kind, r): eng.oblige('without a comparison the range is sorted once, in ascending order', kind == 'ret' and eng.g.get('sorted', 0) == 1)
    verify(eng, lambda: eng.inline(fn, None, [It(v, z3.IntVal(0)), It(v, n)]), post)
def units(P):
    return [Unit('kigumi::parallel_sort (default comparison)', u_less), Unit('kigumi::parallel_sort', u_sort), Unit('distances', lemmas, lemma=True)]
