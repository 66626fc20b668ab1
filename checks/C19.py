"""C19: parallel loops (parallel_do.h): rely/guarantee over an arbitrary worker, for any number of workers and any schedule.

Ghost state: OWN says which worker claimed an item by incrementing the shared counter, DONE which items this worker has processed.
Guarantee of every worker: it claims only by the atomic increment, processes an item once and only if it claimed it, works on a
state of its own that starts from the given one, merges it once under the lock, and touches nothing else that is shared except
the error slot (under the lock, never cleared) and atomic flags. Rely: the same of all other workers, between any two of its steps."""
import functools, z3
from kvc.spec import *
from kvc.unit import Unit
from kvc.engine import conc, PathEnd
from kvc.lib import throw

ID = 'C19'
LEVEL = 'proof'
HARNESS = {'src': ['C19.cc'], 'seconds': 60, 'flags': ['-fsanitize=thread', '-g']}
ASSUME = ['std::atomic operations are atomic; a mutex is held by one thread at a time and orders what is done under it; std::thread: join returns when the thread has ended and orders what it did before what follows; threads can be created',
          'the body touches only its item and the state it is given, as far as this loop is concerned (that the bodies used in kigumi do not conflict is proved at each call, in the other checks)',
          'the thread limit is at least one (C21) and below 2^32; a loop has fewer than 2^48 items; the shared counter does not overflow',
          'rely/guarantee rule; a call with one thread limit is the same code run by the caller', 'termination is not proved']
AR = lambda s: z3.ArraySort(I, s); BOOL = z3.BoolSort()
FREE = -1

class W:
    def __init__(self, eng, fn):
        self.eng = eng; P = self.P = eng.P; self.fn = fn; self.worker = None; self.base = set(); self.shared = set(); self.ghosting = False
        self.limit = eng.fresh(I, 'thread_limit'); eng.assume(z3.And(self.limit >= 1, self.limit < 2**32))
        pt = [P.deref(p['t']) for p in fn['p']]; self.merge = len(pt) == 5
        vt = vec_type(P, pt[0]); self.items = eng.new_root(eng.fresh_of(vt, 'items'), vt); self.n = zi(eng.peek(self.items).n); eng.assume(self.n < 2**48)
        # an item passed by value is recognised by its value (the loop itself never looks at the items, so they can be taken to differ)
        a = eng.peek(self.items).arrs[0]; self.POS = z3.Function('position_of_item', a.sort().range(), I); eng.forall(lambda j: self.POS(a[j]) == j, [a], pats=lambda j: [a[j]])
        self.bt = pt[3] if self.merge else pt[2]; self.mt = pt[4] if self.merge else None; self.stt = pt[2] if self.merge else None
        self.body = eng.new_root(Obj('user_body'), self.bt); self.post = eng.new_root(Obj('user_merge'), self.mt) if self.merge else None
        self.state = eng.new_root(eng.fresh_of(self.stt, 'given_state'), self.stt) if self.merge else None
        # what the worker's (or the caller's, when it works alone) state must be
        self.acc = eng.new_root(eng.peek(self.state), self.stt) if self.merge else None
        none = eng.fresh(AR(BOOL), 'none_done'); eng.forall(lambda j: z3.Not(none[j]), [none], pats=lambda j: [none[j]])
        self.ghost = eng.new_root(Obj('loop', done=none, own=eng.fresh(AR(I), 'claimed_by'), merged=z3.IntVal(0), raised=z3.BoolVal(False), held=z3.IntVal(0),
                                      eset=z3.BoolVal(False), flag=z3.BoolVal(False), saw=z3.BoolVal(False), started=z3.IntVal(0), joined=z3.IntVal(0)), None)
        self.final = eng.fresh(BOOL, 'an_error_was_kept')
        self.install()
    def q(self, k): return self.eng.peek(self.ghost).d[k]
    def put(self, **kw):
        d = dict(self.eng.peek(self.ghost).d); d.update(kw); fp, self.eng.fp = self.eng.fp, None
        self.eng.store(self.ghost, Obj('loop', **d)); self.eng.fp = fp
    def quiet(self, fn):
        fp, self.eng.fp = self.eng.fp, None; self.ghosting = True
        try: return fn()
        finally: self.eng.fp = fp; self.ghosting = False
    def same(self, v): return And(*[eq(x, y) for x, y in zip(self.eng.flat(v, self.stt), self.eng.flat(self.eng.peek(self.acc), self.stt))])
    def own_state(self, e, l, what):
        if not isinstance(l, Loc): raise Unsupported('state passed by value')
        if self.worker is not None: e.oblige(what + ' gets a state that no other thread uses', l.root not in self.base)
        e.oblige(what + ' gets the state this worker has accumulated, from the given one on', self.same(e.load(l)))
    def no_others(self, e, what):
        if self.worker is None: e.oblige(what + ': no worker is running', zi(self.q('joined')) == zi(self.q('started')))
    def rely(self, e):
        """other workers claim items"""
        return
    def install(self):
        eng = self.eng; P = self.P; C = eng.contracts; L = eng.lib = dict(eng.lib)
        def limit(e, f, this, v):
            if self.worker is not None: raise Unsupported('the thread limit is read by a worker')
            return self.limit
        C['kigumi::Threading_options::num_threads'] = limit
        C['kigumi::Context::current'] = lambda e, f, this, v: e.new_root(e.fresh_of(e.P.deref(f['ret']), 'options'), e.P.deref(f['ret']))
        def body(e, f, this, v):
            l = v[0]
            if isinstance(l, Loc) and l.root == self.items.root and l.path and l.path[-1][0] == 'i': j = zi(l.path[-1][1])
            elif e.P.isref(f['p'][0]['t']): e.oblige('the body gets an item', False); raise PathEnd()
            else: x = e.load(l) if isinstance(l, Loc) else l; j = self.POS(e.as_sort(e.flat(x, e.P.deref(f['p'][0]['t']))[0], self.POS.domain(0)))
            d = self.q('done')
            e.oblige('the body gets an item of the range', z3.And(0 <= j, j < self.n)); e.on_read(d, j)
            e.oblige('an item is processed once', z3.Not(d[j]))
            e.oblige('nothing is processed after the state was merged, or after an error', z3.And(zi(self.q('merged')) == 0, z3.Not(zb(self.q('raised')))))
            if self.worker is not None: e.oblige('a worker processes the items it claimed', self.q('own')[j] == self.worker)
            self.no_others(e, 'the caller processes an item')
            e.oblige('the body runs without the lock', zi(self.q('held')) == 0) if False else None
            self.put(done=z3.Store(d, j, z3.BoolVal(True)))
            if self.merge:
                self.own_state(e, v[1], 'the body')
                x = e.fresh_of(self.stt, 'accumulated'); e.store(v[1], x); self.quiet(lambda: e.store(self.acc, x))
            if e.branch(e.fresh(BOOL, 'body_raises')): self.put(raised=z3.BoolVal(True)); throw(e, 'user_error')
            return VOID
        def merge(e, f, this, v):
            self.no_others(e, 'the caller merges')
            if self.worker is not None: e.oblige('merges happen under the lock', zi(self.q('held')) == 1)
            e.oblige('a state is merged once, and not after an error', z3.And(zi(self.q('merged')) == 0, z3.Not(zb(self.q('raised')))))
            self.own_state(e, v[0], 'the merge')
            self.put(merged=zi(self.q('merged')) + 1)
            if e.branch(e.fresh(BOOL, 'merge_raises')): self.put(raised=z3.BoolVal(True)); throw(e, 'user_error')
            return VOID
        for t, kind, fn in ((self.bt, 'user_body', body), (self.mt, 'user_merge', merge)):
            if t is None: continue
            for g in P.byrec(t):
                if not g['nn'].endswith('operator()'): continue
                old = C.get(g['nn'])
                def disp(e, f, this, v, old=old, kind=kind, fn=fn):
                    o = e.peek(this) if isinstance(this, Loc) else this
                    if isinstance(o, Obj) and o.kind == kind: return fn(e, f, this, v)
                    return old(e, f, this, v) if old else e.inline(f, this, v)
                C[g['nn']] = disp
        # the shared counter
        def claim(post):
            def fn(e, f, this, v):
                x = e.peek(this) if isinstance(this, Loc) else None
                if not isinstance(x, Obj) or 'val' not in x.d or x.d['val'] is None: raise Unsupported('which atomic is incremented')
                if self.worker is None: raise Unsupported('the caller claims items')
                if not post and (not v or not eq(e.load(v[0]) if isinstance(v[0], Loc) else v[0], 1) is True): raise Unsupported('several items are claimed at once')
                if this.root not in self.base: e.oblige('items are claimed by a counter that all workers share', False); raise PathEnd()
                if e.g.setdefault('counter', this.root) != this.root: raise Unsupported('several counters')
                u = zi(x.d['val']); w = e.fresh(I, 'counter'); own, own1 = self.q('own'), e.fresh(AR(I), 'claimed_by'); t = self.worker
                e.assume(z3.And(w >= u, w < 2**63))                                            # other workers may have claimed items since
                e.forall(lambda j: z3.And(z3.Implies(j < u, own1[j] == own[j]), z3.Implies(z3.And(u <= j, j < w), z3.And(own1[j] != t, own1[j] != FREE)), z3.Implies(j >= w, own1[j] == FREE)), [own1], pats=lambda j: [own1[j]])
                a = e.fresh(AR(I), 'claimed_by'); e.assume(a == z3.Store(own1, w, t))
                e.forall(lambda j: a[j] == z3.If(j == w, t, own1[j]), [a], pats=lambda j: [a[j]])
                for y in (a, own1): e.on_read(y, w)
                self.put(own=a); self.quiet(lambda: e.store(this, Obj('std::atomic', val=w + 1)))
                return w if f.get('nn', '').endswith('fetch_add') or post == 'post' else w + 1
            return fn
        def incr(e, f, this, v): return claim('post' if v else 'pre')(e, f, this, v)
        for b in ('std::atomic', 'std::__atomic_base'):
            C[b + '::operator++'] = incr; C[b + '::fetch_add'] = claim(False)
            for o in ('operator--', 'fetch_sub', 'operator+=', 'operator-=', 'compare_exchange_weak', 'compare_exchange_strong', 'exchange'): C[b + '::' + o] = lambda e, f, this, v: (_ for _ in ()).throw(Unsupported('another atomic operation'))
        def atomic(e, f, t, v, n=None):
            k = P.kind(P.targ(t, 0)); x = (e.load(v[0]) if isinstance(v[0], Loc) else v[0]) if v else 0
            if k == 'int': return Obj('std::atomic', val=zi(x))
            return Obj('std::atomic', flag=z3.BoolVal(False) if not v else zb(x))
        C['std::atomic::atomic'] = atomic; L['std::atomic::atomic'] = atomic
        def read(e, f, this, v):
            x = e.peek(this)
            if not isinstance(x, Obj): raise Unsupported('atomic')
            if 'flag' not in x.d: raise Unsupported('the counter is read')
            if self.worker is None: raise Unsupported('the caller reads a flag')
            y = e.fresh(BOOL, 'flag'); e.assume(z3.Implies(zb(x.d['flag']), y))
            self.quiet(lambda: e.store(this, Obj('std::atomic', flag=y)))
            if this.root in self.base: self.put(saw=z3.Or(zb(self.q('saw')), y))
            return y
        def write(e, f, this, v):
            x = e.peek(this); y = e.load(v[0]) if isinstance(v[0], Loc) else v[0]
            if not isinstance(x, Obj) or 'flag' not in x.d: raise Unsupported('the counter is set')
            if self.worker is None: raise Unsupported('the caller sets a flag')
            e.oblige('a flag is only ever raised', zb(y)); self.put(flag=z3.BoolVal(True)); self.quiet(lambda: e.store(this, Obj('std::atomic', flag=zb(y)))); return y
        for o in ('operator bool', 'load', 'operator __integral_type', 'operator type-parameter-0-0'):
            for b in ('std::atomic', 'std::__atomic_base'): C[b + '::' + o] = read
        for o in ('operator=', 'store'):
            for b in ('std::atomic', 'std::__atomic_base'): C[b + '::' + o] = write
        # the lock
        def lock(e, f, t, v, n=None):
            l = v[0]
            if not isinstance(l, Loc): raise Unsupported('lock')
            if self.worker is not None:
                e.oblige('the lock is one that all workers use', l.root in self.base)
                if e.g.setdefault('mutex', l.root) != l.root: raise Unsupported('several locks')
                e.oblige('the lock is not taken twice', zi(self.q('held')) == 0)
                s = e.fresh(BOOL, 'kept'); e.assume(z3.Implies(zb(self.q('eset')), s)); self.put(held=z3.IntVal(1), eset=s)
            return Obj('std::lock_guard', on=True)
        def unlock(e, l):
            if self.worker is not None and isinstance(e.peek(l), Obj) and 'on' in e.peek(l).d: self.put(held=z3.IntVal(0))
        names = ('std::lock_guard', 'std::scoped_lock', 'std::unique_lock')
        for nm in names: L[nm + '::' + nm[5:]] = lock; C[nm + '::' + nm[5:]] = lock
        eng.opts['scope_end'] = {nm: unlock for nm in names}
        # the error that is kept
        EP = 'std::__exception_ptr::exception_ptr'
        def slot(e, this, what):
            """is the error slot that the workers share meant"""
            if not isinstance(this, Loc): return False
            if self.worker is None:
                if this.root not in self.shared: return False
                self.no_others(e, what); return True
            if this.root not in self.base: return False
            if e.g.setdefault('slot', this.root) != this.root: raise Unsupported('several error slots')
            e.oblige(what + ' under the lock', zi(self.q('held')) == 1); return True
        def ector(e, f, t, v, n=None):
            if not v: return Obj(EP, set=z3.BoolVal(False))
            x = v[0]
            if isinstance(x, Ptr): return Obj(EP, set=z3.BoolVal(False))
            if isinstance(x, Loc): return Obj(EP, set=is_set(e, None, x, []))
            return x
        C[EP + '::exception_ptr'] = ector; L[EP + '::exception_ptr'] = ector
        def is_set(e, f, this, v):
            if slot(e, this, 'the kept error is read'): return zb(self.q('eset')) if self.worker is not None else self.final
            return zb(e.peek(this).d['set'])
        C[EP + '::operator bool'] = is_set
        def eassign(e, f, this, v):
            x = v[0]; s = is_set(e, None, x, []) if isinstance(x, Loc) else zb(x.d['set'])
            if slot(e, this, 'the error is kept'):
                if self.worker is None: raise Unsupported('the caller keeps an error')
                e.oblige('a kept error is never forgotten', z3.Implies(zb(self.q('eset')), s)); e.oblige('only an error that was raised is kept', z3.Implies(s, z3.Or(zb(self.q('raised')), zb(self.q('eset')))))
                self.put(eset=s)
            else: e.store(this, Obj(EP, set=s))
            return this
        C[EP + '::operator='] = eassign
        def current(e, f, this, v):
            return Obj(EP, set=z3.BoolVal('exc' in e.g))
        C['std::current_exception'] = current; L['std::current_exception'] = current
        def rethrow(e, f, this, v):
            x = v[0]; s = zb(x.d['set']) if isinstance(x, Obj) else is_set(e, f, x, [])
            e.oblige('there is an error to raise', s); throw(e, 'user_error')
        C['std::rethrow_exception'] = rethrow; L['std::rethrow_exception'] = rethrow
        # threads
        def spawn(e, f, t, v, n=None):
            if not v: raise Unsupported('thread without work')
            c = e.load(v[0]) if isinstance(v[0], Loc) else v[0]; args = [e.load(x) if isinstance(x, Loc) else x for x in v[1:]]
            if self.worker is not None: raise Unsupported('a worker starts a thread')
            j = zi(self.q('started'))
            if not e.mute and e.choose(2) == 1:
                self.run(c, args, j); raise PathEnd()
            own = {x.root for fr in e.frames for x in fr.env.values() if isinstance(x, Loc)}
            self.shared |= {x.root for x in c.env.values() if isinstance(x, Loc) and x.root in own} if isinstance(c, Closure) else set()
            for fr in e.frames:                                             # from now on the slot holds what the workers leave in it
                for x in fr.env.values():
                    if isinstance(x, Loc) and isinstance(e.mem.get(x.root), Obj) and e.mem[x.root].kind == EP and e.mem[x.root].d['set'] is not self.final and x.root in self.shared:
                        if not z3.eq(zb(e.mem[x.root].d['set']), zb(self.final)): e.oblige('no error is kept before the workers start', z3.Implies(j == 0, z3.Not(zb(e.mem[x.root].d['set']))))
                        self.quiet(lambda: e.store(Loc(x.root, ()), Obj(EP, set=self.final)))
            self.put(started=j + 1); return e.fresh(e.P.sort_of('std::thread'), 'thread')
        L['std::thread::thread'] = spawn; C['std::thread::thread'] = spawn
        def join(e, f, this, v):
            k = this.path[-1][1] if this.path and not isinstance(this.path[-1], str) and this.path[-1][0] == 'i' else None
            if k is None: raise Unsupported('which thread is joined')
            e.oblige('each thread is joined once, in turn', zi(k) == zi(self.q('joined'))); self.put(joined=zi(self.q('joined')) + 1); return VOID
        L['std::thread::join'] = join; C['std::thread::join'] = join
    def watch(self):
        e = self.eng; e.g['live'] = (); old = type(e).access
        def access(kind, loc):
            old(e, kind, loc)
            if kind == 'W' and self.worker is None and not self.ghosting and loc.root in self.shared and not e.mute: e.oblige('what the workers refer to is not changed while they run', zi(self.q('started')) == zi(self.q('joined')))
        e.access = access
    def run(self, c, args, j):
        e = self.eng; rec = []; self.worker = e.fresh(I, 'worker'); e.assume(z3.And(self.worker == j, j >= 0)); self.base = set(e.mem)
        for r in self.base:
            x = e.mem[r]
            if isinstance(x, Obj) and x.kind == 'std::atomic' and 'val' in x.d and x.d['val'] is not None: e.oblige('the counter starts at the first item', zi(x.d['val']) == 0)
            if isinstance(x, Obj) and x.kind == 'std::atomic' and 'flag' in x.d: e.oblige('a flag is not raised before the workers start', z3.Not(zb(x.d['flag'])))
        e.fp = (rec, set(self.base), len(e.pc))
        own = self.q('own'); e.forall(lambda k: own[k] != self.worker, [own], pats=lambda k: [own[k]])
        try:
            try: e.call_closure(c, args)
            except CxxThrow: e.oblige('no error leaves a thread', False); raise PathEnd()
            e.fp = None
            for k, l, cond in rec:
                if k != 'W' or l.root == self.ghost.root or (self.acc is not None and l.root == self.acc.root): continue
                x = e.mem.get(l.root)
                if isinstance(x, Obj) and x.kind == 'std::atomic': continue
                e.oblige('a worker changes nothing that is shared, except through atomics and under the lock', z3.Not(z3.And(*cond)) if cond else False)
            e.oblige('the lock is released', zi(self.q('held')) == 0)
            e.oblige('an error that was raised is kept', z3.Implies(zb(self.q('raised')), zb(self.q('eset'))))
            e.oblige('the others are told to stop only when an error is kept', z3.Implies(zb(self.q('flag')), zb(self.q('eset'))))
            ok = z3.And(z3.Not(zb(self.q('raised'))), z3.Not(zb(self.q('saw'))))
            if 'counter' not in e.g: e.oblige('a worker looks for items', z3.Not(ok)); return
            u = zi(e.peek(Loc(e.g['counter'], ())).d['val'])
            e.oblige('a worker that was not stopped goes on until every item is claimed', z3.Implies(ok, u >= self.n))
            if self.merge: e.oblige('a worker that was not stopped has merged its state', z3.Implies(ok, zi(self.q('merged')) == 1))
            def all_():
                i = e.fresh(I, 'i'); d, o = self.q('done'), self.q('own'); e.assume(z3.And(0 <= i, i < self.n))
                e.on_read(d, i); e.on_read(o, i); e.oblige('a worker that was not stopped has processed every item it claimed', z3.Implies(z3.And(ok, o[i] == self.worker), d[i]))
            e.explore(all_)
        finally: self.worker = None; e.fp = None; self.base = set()

def invariants(eng, w):
    P = eng.P; cs = []
    def gm(L, worker=None):
        if not any(r == w.ghost.root for r, k in L.mods): raise SpecError('ghost')
        if worker is not None and (w.worker is not None) != worker: raise SpecError('who')
    cs.append(('threads started', lambda L: gm(L, False) or zi(w.q('started')) == L.k))
    cs.append(('threads joined', lambda L: gm(L, False) or zi(w.q('joined')) == L.k))
    def alone(L):
        gm(L, False); d = w.q('done'); return Quant(lambda j: d[j] == z3.And(0 <= j, j < L.k), [d], pats=lambda j: [d[j]])
    cs.append(('items processed in turn', alone))
    def mine(L):
        gm(L, True); d, o = w.q('done'), w.q('own'); return Quant(lambda j: d[j] == (o[j] == w.worker), [d, o], pats=lambda j: [d[j], o[j]])
    cs.append(('claimed items are processed', mine))
    def pending(m):
        def inv(L):
            gm(L, True); xs = [l for n, t, l in L.vars(frames=True) if t is not None and P.kind(P.deref(t)) == 'int' and isinstance(l, Loc) and any(l.root == r for r, k in L.mods)]
            if m >= len(xs): raise SpecError('variable')
            d, o = w.q('done'), w.q('own'); x = zi(eng.peek(xs[m]))
            return Quant(lambda j: d[j] == z3.And(o[j] == w.worker, j != x), [d, o], pats=lambda j: [d[j], o[j]])
        return inv
    for m in range(3): cs.append(('claimed items but the next %d are processed' % m, pending(m)))
    def pending_own(m):
        def inv(L):
            gm(L, True); xs = [l for n, t, l in L.vars(frames=True) if t is not None and P.kind(P.deref(t)) == 'int' and isinstance(l, Loc) and any(l.root == r for r, k in L.mods)]
            if m >= len(xs): raise SpecError('variable')
            x = zi(eng.peek(xs[m])); return z3.And(w.q('own')[x] == w.worker, x >= 0, x < counter(L))
        return inv
    for m in range(3): cs.append(('the next item %d is claimed' % m, pending_own(m)))
    def counter(L):
        gm(L, True)
        for r in w.base:
            x = L.eng.mem.get(r)
            if isinstance(x, Obj) and x.kind == 'std::atomic' and 'val' in x.d and x.d['val'] is not None and any(q == r for q, k in L.mods): return zi(x.d['val'])
        raise SpecError('counter')
    def ahead(L):
        u = counter(L); o = w.q('own'); return Quant(lambda j: z3.Implies(j >= u, o[j] != w.worker), [o], pats=lambda j: [o[j]])
    cs.append(('what lies ahead is not claimed by this worker', ahead))
    cs.append(('the counter counts up', lambda L: counter(L) >= 0))
    cs.append(('no merge yet', lambda L: gm(L) or zi(w.q('merged')) == 0))
    cs.append(('no error yet', lambda L: gm(L) or z3.Not(zb(w.q('raised')))))
    cs.append(('not told to stop', lambda L: gm(L, True) or z3.Not(zb(w.q('saw')))))
    cs.append(('no flag raised', lambda L: gm(L, True) or z3.Not(zb(w.q('flag')))))
    cs.append(('lock not held', lambda L: gm(L, True) or zi(w.q('held')) == 0))
    def kept(L):
        gm(L, False); xs = [r for r, k in L.mods if isinstance(L.eng.mem.get(r), Obj) and L.eng.mem[r].kind.endswith('::exception_ptr')]
        if not xs: raise SpecError('slot')
        return z3.And(*[zb(L.eng.mem[r].d['set']) == z3.And(zi(w.q('started')) > 0, w.final) for r in xs])
    cs.append(('what the slot holds', kept))
    def state(m):
        def inv(L):
            if not w.merge: raise SpecError('no state')
            if not any(r == w.acc.root for r, k in L.mods): raise SpecError('state not changed')
            xs = [l for n, t, l in L.vars(frames=True) if t is not None and isinstance(l, Loc) and P.deref(t) == w.stt and any(l.root == r for r, k in L.mods)]
            if m >= len(xs): raise SpecError('variable')
            return zb(w.same(eng.peek(xs[m])))
        return inv
    for m in range(3): cs.append(('accumulated state %d' % m, state(m)))
    eng.invs['*'] = eng.invs.get('*', []) + cs
def vec_type(P, it):
    t = P.targ(it, 1)
    if P.kind(t) != 'vec': raise Unsupported('range of the loop')
    return t
def u_loop(fid, eng):
    P = eng.P; fn = P.funcs[fid]; w = W(eng, fn); invariants(eng, w)
    args = [It(w.items, z3.IntVal(0)), It(w.items, w.n)]
    def by(l, p): return l if P.isref(p['t']) else eng.peek(l)
    if w.merge: args.append(by(w.state, fn['p'][2]))
    args.append(by(w.body, fn['p'][3 if w.merge else 2]))
    if w.merge: args.append(by(w.post, fn['p'][4]))
    def th():
        w.watch(); return eng.inline(fn, None, args)
    def post(kind, r):
        s, j = zi(w.q('started')), zi(w.q('joined')); d = w.q('done')
        eng.oblige('every thread that was started is joined', s == j)
        eng.oblige('no more workers run than the limit allows', s <= w.limit)
        eng.oblige('an error is raised exactly when the body or the merge raised one', z3.If(s > 0, w.final, zb(w.q('raised'))) == (kind == 'throw'))
        eng.oblige('with items to process there is somebody to process them', z3.Or(w.n == 0, s > 0, kind == 'throw', zi(w.q('merged')) == 1 if w.merge else True))
        if kind == 'ret':
            eng.oblige('nothing is merged without items', z3.Implies(w.n == 0, zi(w.q('merged')) == 0))
            def every():
                i = eng.fresh(I, 'i'); eng.assume(z3.And(0 <= i, i < w.n, s == 0)); eng.on_read(d, i); eng.oblige('the caller, when it works alone, processes every item', d[i])
            eng.explore(every)
    verify(eng, th, post)
def units(P):
    out = []
    fs = [f for f in P.fns('kigumi::parallel_do') if P.kind(P.deref(f['p'][0]['t'])) == 'it']
    for n in (3, 5):
        g = [f for f in fs if len(f['p']) == n]
        if not g: raise Unsupported('parallel_do with %d arguments not found' % n)
        for k, f in enumerate(g): out.append(Unit('kigumi::parallel_do (%s), instance %d' % ('merging states' if n == 5 else 'no state', k + 1), functools.partial(u_loop, f['id'])))
    return out
