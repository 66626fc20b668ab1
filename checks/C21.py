"""C21: option scopes (Context.h, threading.h, io/obj.h)."""
import z3
from kvc.spec import *
from kvc.unit import Unit

ID = 'C21'
LEVEL = 'proof'
HARNESS = {'src': ['C21.cc'], 'seconds': 15}
ASSUME = ['std::thread::hardware_concurrency() returns one fixed value', 'thread-local variables are private to their thread (C++ semantics); that the current options are thread-local is an obligation',
          'destructors run at the end of the scope, also during unwinding (C++ semantics)']

def current(eng, cur):
    """the object that current() designates, and its storage"""
    l = eng.inline(cur, None, [])
    if not isinstance(l, Loc): raise Unsupported('current() does not return a reference')
    return l
def storage(eng, l):
    for key, g in eng.tls.items():
        if isinstance(g, Loc) and g.root == l.root:
            return next((v for v in eng.P.gvars if v.get('d') == key[1]), None)
    return None
def scope(ci):
    def unit(eng):
        P = eng.P
        ctor = P.fns('kigumi::Context::Context', lambda f: f.get('ctor') and len(f['p']) == 1 and f['rec'] == ci)[0]
        dtor = P.fns('kigumi::Context::~Context', lambda f: f['rec'] == ci)[0]
        cur = P.fns('kigumi::Context::current', lambda f: f['rec'] == ci)[0]
        ot = P.deref(ctor['p'][0]['t'])
        same = lambda a, b: And(*[eq(x, y) for x, y in zip(eng.flat(a, ot), eng.flat(b, ot))])
        opt = eng.fresh_of(ot, 'options'); inner = eng.fresh_of(ot, 'other')
        def th():
            c0 = current(eng, cur); before = eng.load(c0)
            g = storage(eng, c0)
            if g is None: raise Unsupported('current() does not designate a variable with static storage')
            eng.oblige('the current options belong to one thread', bool(g.get('tls')))
            loc = eng.new_root(None, ci)
            eng.construct_at(loc, ctor, ci, [opt if not P.isref(ctor['p'][0]['t']) else ref(eng, opt, ot)])
            c1 = current(eng, cur)
            eng.oblige('the options are current inside the scope', same(eng.load(c1), opt))
            eng.oblige('the same storage is current before and in the scope', c1.root == c0.root)
            eng.oblige('creating a scope leaves other thread\'s state alone', all(g_.get('tls') or g_.get('const') for k, l in eng.tls.items() for g_ in [next((v for v in P.gvars if v.get('d') == k[1]), {})]))
            # whatever nested scopes or the caller leave behind
            if eng.branch(eng.fresh(z3.BoolSort(), 'nested')): eng.store(c1, inner)
            eng.inline(dtor, loc, [])
            eng.oblige('the end of the scope restores exactly what was current before', same(eng.load(current(eng, cur)), before))
            return VOID
        verify(eng, th, lambda kind, v: eng.oblige('scopes raise no error', kind == 'ret'))
    return unit
def noncopyable(ci):
    def unit(eng):
        P = eng.P
        bad = [f for f in P.byrec(ci) if f.get('ctor') and len(f['p']) == 1 and P.isref(f['p'][0]['t']) and P.deref(f['p'][0]['t']) == ci and f.get('body') is not None]
        eng.oblige('a scope cannot be duplicated (its end would run twice)', not bad)
    return unit
def hw(eng): 
    h = z3.Const('hardware_concurrency', I)
    eng.assume(z3.And(h >= 0, h < 2**32))
    return h
def u_clamp(eng):
    P = eng.P
    fn = P.fn('kigumi::Threading_options::set_num_threads'); get = P.fn('kigumi::Threading_options::num_threads')
    rt = fn['rec']
    v = eng.fresh_of(rt, 'o'); l = ref(eng, v, rt); n = eng.fresh(I, 'n'); eng.assume(z3.And(n >= 0, n < 2**64))
    h = hw(eng); mx = z3.If(h < 1, 1, h)
    def th():
        eng.inline(fn, l, [n])
        r = eng.inline(get, l, [])
        return eng.load(r) if isinstance(r, Loc) else r
    def post(kind, r):
        eng.oblige('setting a thread count raises no error', kind == 'ret')
        eng.oblige('the thread limit is the requested count limited to one and the hardware maximum', eq(r, z3.If(n < 1, 1, z3.If(n > mx, mx, n))))
    verify(eng, th, post)
def u_default(eng):
    P = eng.P
    rt = P.fn('kigumi::Threading_options::set_num_threads')['rec']; get = P.fn('kigumi::Threading_options::num_threads')
    h = hw(eng)
    def th():
        l = ref(eng, eng.default(rt), rt)
        r = eng.inline(get, l, [])
        return eng.load(r) if isinstance(r, Loc) else r
    verify(eng, th, lambda kind, r: (eng.oblige('default options raise no error', kind == 'ret'), eng.oblige('by default all hardware threads may be used', eq(r, z3.If(h < 1, 1, h)))))
def u_obj(eng):
    P = eng.P
    fn = P.fn('kigumi::io::Write_obj_options::set_negative_indices'); get = P.fn('kigumi::io::Write_obj_options::negative_indices')
    rt = fn['rec']; l = ref(eng, eng.fresh_of(rt, 'o'), rt); b = eng.fresh(z3.BoolSort(), 'b')
    def th():
        eng.inline(fn, l, [b]); r = eng.inline(get, l, [])
        return eng.load(r) if isinstance(r, Loc) else r
    verify(eng, th, lambda kind, r: eng.oblige('the OBJ index style is the one that was set', And(kind == 'ret', eq(zb(r), b))))
def units(P):
    us = []
    for f in P.fns('kigumi::Context::Context', lambda f: f.get('ctor') and len(f['p']) == 1):
        n = P.types[P.deref(f['p'][0]['t'])].get('nn', '?')
        us += [Unit('kigumi::Context<%s>' % n, scope(f['rec'])), Unit('kigumi::Context<%s>: not copyable' % n, noncopyable(f['rec']), lemma=True)]
    if len(us) < 4: raise Unsupported('option scopes not found')
    return us + [Unit('kigumi::Threading_options::set_num_threads', u_clamp), Unit('kigumi::Threading_options::Threading_options', u_default),
                 Unit('kigumi::io::Write_obj_options', u_obj)]
