"""The contract of kigumi::parallel_do at its call sites.

Callers are checked against what C19 establishes: every item is processed exactly once, each worker's state starts from the
initial one and is merged exactly once, merges are mutually exclusive. Two obligations make one sequential order decide all
schedules: bodies of distinct items, and a merge and a body, never access the same shared location with one of them writing."""
import z3
from .engine import *
from .engine import And, Or, Not, eq, zi, zb, sub, add
from .prog import Unsupported

def it_add(eng, first, j):
    if isinstance(first, It): return It(first.loc, add(first.idx, j))
    from .lib import facade_call
    l = eng.new_root(first, first.t); facade_call(eng, first, 'advance', l, [j]); return eng.load(l)
def it_dist(eng, first, last):
    if isinstance(first, It): return sub(last.idx, first.idx)
    from .lib import facade_call
    a, b = eng.new_root(first, first.t), eng.new_root(last, last.t)
    return facade_call(eng, first, 'distance_to', a, [b])
def it_deref(eng, it):
    if isinstance(it, It): return it.loc.f(('i', it.idx))
    from .lib import facade_call
    l = eng.new_root(it, it.t)
    r = facade_call(eng, it, 'dereference', l, [])
    return r
def val(eng, v): return eng.load(v) if isinstance(v, Loc) else v

def footprint(eng, thunk, base):
    """accesses of thunk to storage that existed before it -> [(kind, Loc, condition)]"""
    rec = []
    old = getattr(eng, 'fp', None)
    n0 = len(eng.pc)
    eng.fp = (rec, base, n0)
    try: thunk()
    except CxxThrow: pass
    except LoopEnd: pass
    finally: eng.fp = old
    return rec
def overlap(eng, a, b):
    """condition under which two locations of one object overlap (None: never)"""
    c = []
    for x, y in zip(a.path, b.path):
        if not isinstance(x, str) and not isinstance(y, str) and 'r' in (x[0], y[0]):      # ('r', lo, hi): the elements lo .. hi-1
            (l1, h1), (l2, h2) = (((z[1], z[2]) if z[0] == 'r' else (z[1], zi(z[1]) + 1) if z[0] == 'i' else (None, None)) for z in (x, y))
            if l1 is None or l2 is None: return None if 'size' in (x[0], y[0]) else True
            c.append(z3.And(zi(l1) < zi(h2), zi(l2) < zi(h1)))
            return z3.And(*c)
        if isinstance(x, str) or isinstance(y, str):
            if x != y: return None
        elif x[0] == 'size' or y[0] == 'size':
            if x[0] != y[0]: return None
        elif x[0] != y[0]: return True
        else:
            e = eq(x[1], y[1]) if x[0] in ('i', 'm') else (len(x) < 2 or x[1] == y[1])
            if e is False: return None
            if e is not True: c.append(zb(e))
    return z3.And(*c) if c else True
def no_conflict(eng, what, A, B):
    seen = set()
    for ka, la, ca in A:
        for kb, lb, cb in B:
            if la.root != lb.root or not ('W' in (ka, kb)): continue
            o = overlap(eng, la, lb)
            if o is None: continue
            f = z3.And(*(ca + cb + ([zb(o)] if o is not True else [])))
            if f.get_id() in seen: continue
            seen.add(f.get_id()); eng.alive.append(f)
            if eng.opts.get('debug'): print('conflict?', ka, la, kb, lb, flush=True)
            eng.oblige(what, z3.Not(f))
def two(eng, what, run1, run2):
    """the two pieces of work, started from the same state, do not conflict"""
    base = set(eng.mem)
    for k, l in eng.tls.items():
        if k[0] == 'tls': base.discard(l.root)
    mem = dict(eng.mem)
    A = footprint(eng, run1, base)
    for r in base: eng.mem[r] = mem[r]
    B = footprint(eng, run2, base)
    for r in base: eng.mem[r] = mem[r]
    no_conflict(eng, what, A, B)

def contract(eng, f, this, vals):
    if len(vals) == 3: return par_for(eng, f, vals)
    if len(vals) == 5: return par_merge(eng, f, vals)
    raise Unsupported('parallel_do with %d arguments' % len(vals))
def call(eng, c, args): return eng.call_closure(c, args)
def par_for(eng, f, vals):
    first, last, body = val(eng, vals[0]), val(eng, vals[1]), vals[2]
    if not isinstance(body, Loc): body = eng.new_root(body)
    n = it_dist(eng, first, last)
    pos = eng.new_root(0)
    eng.g['par'] = {'pos': pos, 'n': n, 'first': first}
    def item(j): return it_deref(eng, it_add(eng, first, j))
    def bd():
        j = eng.load(pos)
        if not eng.mute and eng.opts.get('conflicts', True):
            i = eng.fresh(z3.IntSort(), 'otheritem')
            def chk():
                eng.assume(z3.And(i >= 0, i < zi(n), i != zi(j)))
                for h in eng.opts.get('par_facts', ()):
                    for x in h(eng, j, i): eng.assume(x)
                two(eng, 'work on two distinct items never touches the same data', lambda: call(eng, body, [item(j)]), lambda: call(eng, body, [item(i)]))
            if eng.choose(2) == 1:
                chk(); raise LoopEnd()
        call(eng, body, [item(j)])
    def inc(): eng.store(pos, add(eng.load(pos), 1))
    eng.loop({'k': 'For'}, lambda: eng.tobool(cmpi('<', eng.load(pos), n)), bd, inc)
    return VOID
def par_merge(eng, f, vals):
    first, last, init, body, merge = val(eng, vals[0]), val(eng, vals[1]), val(eng, vals[2]), vals[3], vals[4]
    if not isinstance(body, Loc): body = eng.new_root(body)
    if not isinstance(merge, Loc): merge = eng.new_root(merge)
    n = it_dist(eng, first, last)
    st = eng.P.deref(f['p'][2]['t'])
    if isinstance(init, PyVec): init = eng.pyvec_to_vec(init, eng.P.elem(st))
    local = eng.new_root(init, st)
    empty = z3.K(z3.IntSort(), z3.BoolVal(False))
    done = eng.new_root(empty); merged = eng.new_root(empty); cur = eng.new_root(z3.IntVal(-1))
    eng.g['par'] = {'done': done, 'merged': merged, 'local': local, 'n': n, 'first': first, 'cur': cur}
    def item(j): return it_deref(eng, it_add(eng, first, j))
    def cond():
        stop = eng.fresh(z3.BoolSort(), 'all_merged')
        if eng.branch(stop):
            D, S = eng.load(done), eng.load(merged)
            eng.forall(lambda j: z3.And(z3.Implies(z3.And(j >= 0, j < zi(n)), D[j]), D[j] == S[j]), pats=lambda j: [D[j]])
            return False
        return True
    def pick(name):
        j = eng.fresh(z3.IntSort(), name)
        eng.assume(z3.And(j >= 0, j < zi(n)))
        return j
    def bd():
        D = eng.load(done)
        what = eng.choose(2 if eng.mute or not eng.opts.get('conflicts', True) else 4)
        if what == 0:
            j = pick('item'); eng.assume(z3.Not(D[j]))
            eng.store(cur, j)
            for h in eng.opts.get('par_facts', ()):
                for x in h(eng, j, None): eng.assume(x)
            call(eng, body, [item(j), local])
            eng.store(done, z3.Store(D, j, z3.BoolVal(True)))
        elif what == 1:
            h = eng.opts.get('on_merge')
            if h: h(eng)
            call(eng, merge, [local])
            eng.store(merged, D)
            eng.store(local, init)
        elif what == 2:
            i, j = pick('item'), pick('otheritem'); eng.assume(i != j); eng.assume(z3.Not(D[i])); eng.assume(z3.Not(D[j]))
            other = eng.new_root(eng.load(local), st)
            for h in eng.opts.get('par_facts', ()):
                for x in h(eng, i, j): eng.assume(x)
            two(eng, 'work on two distinct items never touches the same data', lambda: call(eng, body, [item(i), local]), lambda: call(eng, body, [item(j), other]))
            raise LoopEnd()
        else:
            i = pick('item'); eng.assume(z3.Not(D[i])); other = eng.new_root(eng.load(local), st)
            for h in eng.opts.get('par_facts', ()):
                for x in h(eng, i, None): eng.assume(x)
            two(eng, 'merging never touches data that work on an item uses', lambda: call(eng, body, [item(i), local]), lambda: call(eng, merge, [other]))
            raise LoopEnd()
    eng.loop({'k': 'For'}, cond, bd, None)
    return VOID
def install(eng): eng.contracts['kigumi::parallel_do'] = contract

# std::thread -------------------------------------------------------------------------------------------------------------
def decay(eng, v): return eng.load(v) if isinstance(v, Loc) else v
def spawn(eng, f, t, vals, n):
    """std::thread(callable, arguments...): the work is checked against everything that runs before it is joined"""
    if not vals: return Obj('std::thread', id=0)
    if len(vals) == 1 and isinstance(decay(eng, vals[0]), Obj): return decay(eng, vals[0])     # moved
    c = decay(eng, vals[0]); args = [decay(eng, v) for v in vals[1:]]
    def work():
        if isinstance(c, Ptr) and isinstance(c.loc, FnRef) or isinstance(c, FnRef):
            g = eng.P.funcs[(c.loc if isinstance(c, Ptr) else c).fn]
            if g.get('rec') is not None and not g.get('static'): return eng.call(g, eng.resolve(args[0]), args[1:])
            return eng.call(g, None, args)
        return eng.call_closure(c, args)
    outer, n0 = eng.fp, len(eng.pc); rec = []
    live = eng.g.pop('live', None)
    eng.fp = (rec, set(eng.mem), n0)
    try: work()
    except CxxThrow: eng.oblige('no error leaves a thread', False); raise PathEnd()
    finally: eng.fp = outer
    if outer is not None:
        for k, l, c_ in rec:
            if l.root in outer[1]: outer[0].append((k, l, c_))
    for tid, acc in live or (): no_conflict(eng, 'threads that run at the same time never touch the same data', acc, rec)
    tid = eng.g.get('threads', 0) + 1; eng.g['threads'] = tid
    eng.g['live'] = (live or ()) + ((tid, tuple(rec)),)
    return Obj('std::thread', id=tid)
def join(eng, f, this, v):
    tid = eng.load(this).d['id']
    live = [x for x in eng.g.get('live', ()) if x[0] != tid]
    eng.oblige('a thread is joined once', len(live) == len(eng.g.get('live', ())) - 1)
    if live: eng.g['live'] = tuple(live)
    else: eng.g.pop('live', None)
    return VOID
def install_threads(eng):

    eng.lib = dict(eng.lib); eng.lib['std::thread::thread'] = spawn; eng.lib['std::thread::join'] = join
