"""kvc: contract-based deductive verifier for the C++ subset kigumi is written in.

Direct-style symbolic execution of the dumped AST, path by path (decision-trace replay), against
contracts, loop invariants and ghost state; every obligation is discharged by z3, then cvc5."""
import time, z3
from .prog import Prog, Unsupported, norm

# ------------------------------------------------------------------ values
class Loc:
    """Address of a value: root object + access path."""
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root = root; self.path = path
    def f(self, *steps): return Loc(self.root, self.path + steps)
    def __repr__(self): return 'Loc(%s,%s)' % (self.root, self.path)
    def same(self, o):
        return isinstance(o, Loc) and self.root == o.root and len(self.path) == len(o.path) and all(step_eq(a, b) for a, b in zip(self.path, o.path))

def step_eq(a, b):
    if a is b: return True
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and a[0] == b[0] and all(t_eq(x, y) for x, y in zip(a[1:], b[1:]))
    return (not isinstance(a, tuple)) and (not isinstance(b, tuple)) and a == b

def t_eq(a, b):
    """syntactic equality of terms"""
    if a is b: return True
    za, zb = isinstance(a, z3.AstRef), isinstance(b, z3.AstRef)
    if za and zb: return a.eq(b)
    if za or zb:
        z, p = (a, b) if za else (b, a)
        if type(p) is bool: return (z3.is_true(z) and p) or (z3.is_false(z) and not p)
        if type(p) is int and z3.is_int_value(z): return z.as_long() == p
        return False
    if isinstance(a, Loc): return a.same(b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(t_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, Val): return isinstance(b, Val) and a.same(b)
    return type(a) == type(b) and a == b

class Val:
    def same(self, o): return self is o
class Rec(Val):
    __slots__ = ('t', 'd')
    def __init__(self, t, d): self.t = t; self.d = d
    def same(self, o): return isinstance(o, Rec) and self.d.keys() == o.d.keys() and all(t_eq(self.d[k], o.d[k]) for k in self.d)
    def __repr__(self): return 'Rec%r' % (self.d,)
class Tup(Val):
    __slots__ = ('xs',)
    def __init__(self, xs): self.xs = list(xs)
    def same(self, o): return isinstance(o, Tup) and len(self.xs) == len(o.xs) and all(t_eq(a, b) for a, b in zip(self.xs, o.xs))
    def __repr__(self): return 'Tup%r' % (self.xs,)
class Vec(Val):
    """sequence: elements arrs[leaf][lo .. n)"""
    __slots__ = ('et', 'n', 'arrs', 'lo')
    def __init__(self, et, n, arrs, lo=0): self.et = et; self.n = n; self.arrs = arrs; self.lo = lo
    def same(self, o): return isinstance(o, Vec) and self.et == o.et and t_eq(self.n, o.n) and t_eq(self.lo, o.lo) and all(t_eq(a, b) for a, b in zip(self.arrs, o.arrs))
    def __repr__(self): return 'Vec(n=%s,%s)' % (self.n, self.arrs)
class PyVec(Val):
    """sequence of concrete length with arbitrary elements"""
    __slots__ = ('xs',)
    def __init__(self, xs): self.xs = list(xs)
    def same(self, o): return isinstance(o, PyVec) and len(self.xs) == len(o.xs) and all(t_eq(a, b) for a, b in zip(self.xs, o.xs))
class MapV(Val):
    __slots__ = ('kt', 'vt', 'dom', 'arrs', 'size')
    def __init__(self, kt, vt, dom, arrs, size): self.kt = kt; self.vt = vt; self.dom = dom; self.arrs = arrs; self.size = size
    def same(self, o): return isinstance(o, MapV) and t_eq(self.dom, o.dom) and t_eq(self.size, o.size) and all(t_eq(a, b) for a, b in zip(self.arrs, o.arrs))
class Opt(Val):
    __slots__ = ('has', 'val')
    def __init__(self, has, val): self.has = has; self.val = val
    def same(self, o): return isinstance(o, Opt) and t_eq(self.has, o.has) and t_eq(self.val, o.val)
class Ptr(Val):
    """pointer / unique_ptr; loc None = null; has: condition under which it is non-null"""
    __slots__ = ('loc', 'has')
    def __init__(self, loc, has=None): self.loc = loc; self.has = (loc is not None) if has is None else has
    def same(self, o): return isinstance(o, Ptr) and t_eq(self.loc, o.loc) and t_eq(self.has, o.has)
    def __repr__(self): return 'Ptr(%s,%s)' % (self.loc, self.has)
class It(Val):
    """random access iterator into the sequence at loc"""
    __slots__ = ('loc', 'idx')
    def __init__(self, loc, idx): self.loc = loc; self.idx = idx
    def same(self, o): return isinstance(o, It) and t_eq(self.loc, o.loc) and t_eq(self.idx, o.idx)
    def __repr__(self): return 'It(%s,%s)' % (self.loc, self.idx)
class MapIt(Val):
    """map iterator: key, or end when valid is false; seq: position for whole-map traversal"""
    __slots__ = ('loc', 'key', 'valid', 'pos')
    def __init__(self, loc, key, valid, pos=None): self.loc = loc; self.key = key; self.valid = valid; self.pos = pos
    def same(self, o): return isinstance(o, MapIt) and t_eq(self.loc, o.loc) and t_eq(self.key, o.key) and t_eq(self.valid, o.valid) and t_eq(self.pos, o.pos)
class Closure(Val):
    __slots__ = ('op', 'env', 'this')
    def __init__(self, op, env, this): self.op = op; self.env = env; self.this = this
    def same(self, o): return isinstance(o, Closure) and self.op == o.op and self.env.keys() == o.env.keys() and all(t_eq(self.env[k], o.env[k]) for k in self.env)
class BackIns(Val):
    __slots__ = ('loc',)
    def __init__(self, loc): self.loc = loc
    def same(self, o): return isinstance(o, BackIns) and t_eq(self.loc, o.loc)
class Str(Val):
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def same(self, o): return isinstance(o, Str) and self.s == o.s
class FnRef(Val):
    __slots__ = ('fn',)
    def __init__(self, fn): self.fn = fn
    def same(self, o): return isinstance(o, FnRef) and self.fn == o.fn
class Obj(Val):
    """opaque library object with engine-level attributes (immutable)"""
    __slots__ = ('kind', 'd')
    def __init__(self, kind, **d): self.kind = kind; self.d = d
    def upd(self, **d):
        o = Obj(self.kind); o.d = dict(self.d); o.d.update(d); return o
    def same(self, o): return isinstance(o, Obj) and self.kind == o.kind and self.d.keys() == o.d.keys() and all(t_eq(self.d[k], o.d[k]) for k in self.d)
    def __repr__(self): return 'Obj(%s,%s)' % (self.kind, self.d)
class Void(Val): pass
VOID = Void()

# ------------------------------------------------------------------ control
class PathEnd(Exception): pass
class LoopEnd(PathEnd): pass
class Brk(Exception): pass
class Cont(Exception): pass
class Ret(Exception):
    def __init__(self, v): self.v = v
class CxxThrow(Exception):
    def __init__(self, ty, v, where): self.ty = ty; self.v = v; self.where = where
class MergeFail(Exception): pass

class Frame:
    __slots__ = ('fn', 'env', 'this')
    def __init__(self, fn, env, this): self.fn = fn; self.env = env; self.this = this

def is_sym(x): return isinstance(x, z3.AstRef)
def zb(x):
    return z3.BoolVal(x) if type(x) is bool else x
def zi(x):
    if type(x) is bool: return z3.IntVal(1 if x else 0)
    if type(x) is int: return z3.IntVal(x)
    if z3.is_bv(x): return z3.BV2Int(x)
    if z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x
def isbv(x): return is_sym(x) and z3.is_bv(x)

def And(*xs):
    ys = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        if is_sym(x):
            if z3.is_true(x): continue
            if z3.is_false(x): return False
        ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def Or(*xs):
    ys = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        if is_sym(x):
            if z3.is_false(x): continue
            if z3.is_true(x): return True
        ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)
def Not(x):
    if type(x) is bool: return not x
    if z3.is_true(x): return False
    if z3.is_false(x): return True
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Imp(a, b): return Or(Not(a), b)
def Iff(a, b):
    if type(a) is bool: return b if a else Not(b)
    if type(b) is bool: return a if b else Not(a)
    if a.eq(b): return True
    return a == b

def bvc(c, bits): return z3.BitVecVal(c, bits)
def eq(a, b):
    """equality of scalars"""
    if not is_sym(a) and not is_sym(b): return a == b
    if type(a) is bool or type(b) is bool:
        if type(a) is bool and is_sym(b) and z3.is_bool(b): return b if a else Not(b)
        if type(b) is bool and is_sym(a) and z3.is_bool(a): return a if b else Not(a)
    if isbv(a) or isbv(b):
        if isbv(a) and isbv(b): r = a == b
        elif isbv(a) and type(b) is int:
            if b < 0 or b >= 1 << a.size(): return False
            r = a == b
        elif isbv(b) and type(a) is int: return eq(b, a)
        else: r = zi(a) == zi(b)
    else:
        if is_sym(a) and is_sym(b) and a.eq(b): return True
        if is_sym(a) and is_sym(b) and z3.is_bool(a) and z3.is_bool(b): return Iff(a, b)
        if is_sym(a) and z3.is_real(a) or is_sym(b) and z3.is_real(b): r = a == b
        elif (is_sym(a) and a.sort().kind() == z3.Z3_UNINTERPRETED_SORT) or (is_sym(a) and not z3.is_int(a) and not z3.is_bool(a)): r = a == b
        else: r = zi(a) == zi(b)
    return sb(r)
def sb(r):
    """light simplification of a boolean"""
    if type(r) is bool: return r
    r2 = z3.simplify(r)
    if z3.is_true(r2): return True
    if z3.is_false(r2): return False
    return r
def cmpi(op, a, b):
    if op == '==': return eq(a, b)
    if op == '!=': return Not(eq(a, b))
    if not is_sym(a) and not is_sym(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if not (is_sym(a) and z3.is_real(a)) and not (is_sym(b) and z3.is_real(b)):
        a = zi(a); b = zi(b)
    if is_sym(a) and is_sym(b) and a.eq(b): return op in ('<=', '>=')
    return sb({'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]())
def ite(c, a, b):
    """scalar if-then-else"""
    if type(c) is bool: return a if c else b
    if t_eq(a, b): return a
    if type(a) is bool and type(b) is bool: return c if a else Not(c)
    if (type(a) is bool or (is_sym(a) and z3.is_bool(a))) and (type(b) is bool or (is_sym(b) and z3.is_bool(b))): return z3.If(c, zb(a), zb(b))
    if isbv(a) and type(b) is int: b = bvc(b, a.size())
    if isbv(b) and type(a) is int: a = bvc(a, b.size())
    if isbv(a) != isbv(b): a, b = zi(a), zi(b)
    if type(a) is int: a = z3.RealVal(a) if is_sym(b) and z3.is_real(b) else z3.IntVal(a)
    if type(b) is int: b = z3.RealVal(b) if z3.is_real(a) else z3.IntVal(b)
    return z3.If(c, a, b)
def add(a, b):
    if not is_sym(a) and not is_sym(b): return a + b
    if not is_sym(a) and a == 0: return zi(b)
    if not is_sym(b) and b == 0: return zi(a)
    if not is_sym(b) and z3.is_app_of(zi(a), z3.Z3_OP_ADD) and zi(a).num_args() == 2 and z3.is_int_value(zi(a).arg(1)):
        return add(zi(a).arg(0), zi(a).arg(1).as_long() + b)
    return zi(a) + zi(b)
def sub(a, b):
    if not is_sym(b): return add(a, -b)
    if is_sym(a) and zi(a).eq(zi(b)): return 0
    if z3.is_app_of(zi(a), z3.Z3_OP_ADD) and zi(a).num_args() == 2 and zi(a).arg(0).eq(zi(b)) and z3.is_int_value(zi(a).arg(1)): return zi(a).arg(1).as_long()
    return z3.simplify(zi(a) - zi(b)) if False else zi(a) - zi(b)
def conc(x):
    """python int of a concrete integer term, else None"""
    if type(x) is int: return x
    if type(x) is bool: return int(x)
    if is_sym(x):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_bv_value(x): return x.as_long()
    return None
def sel(arr, idx):
    idx_z = idx if is_sym(idx) else z3.IntVal(idx)
    a = arr
    while z3.is_store(a):
        i = a.arg(1)
        if i.eq(idx_z): return a.arg(2)
        ci, cx = conc(i), conc(idx_z)
        if ci is not None and cx is not None and ci != cx: a = a.arg(0); continue
        if distinct_syn(i, idx_z): a = a.arg(0); continue
        break
    if z3.is_K(a): return a.arg(0)
    return z3.Select(a, idx_z)
def distinct_syn(i, j):
    """i and j differ by a nonzero constant, syntactically"""
    def base(x):
        if z3.is_int_value(x): return None, x.as_long()
        if z3.is_app_of(x, z3.Z3_OP_ADD) and x.num_args() == 2 and z3.is_int_value(x.arg(1)): return x.arg(0), x.arg(1).as_long()
        return x, 0
    if not (z3.is_int(i) and z3.is_int(j)): return False
    a, c = base(i); b, d = base(j)
    if a is None or b is None: return a is None and b is None and c != d
    return a.eq(b) and c != d
def has_quant(e, _cache={}):
    """does the formula contain a quantifier (cached; the cache keeps the terms alive)"""
    i = e.get_id()
    r = _cache.get(i)
    if r is not None: return r[1]
    q = z3.is_quantifier(e)
    if not q:
        for c in e.children():
            if has_quant(c): q = True; break
    _cache[i] = (e, q)
    return q

class Obl:
    __slots__ = ('name', 'status', 'backend', 'secs', 'detail')
    def __init__(self, name, status, backend, secs, detail=''): self.name = name; self.status = status; self.backend = backend; self.secs = secs; self.detail = detail

class Engine:
    def __init__(self, prog, spec=None):
        self.P = prog
        self.spec = spec
        self.contracts = {}        # normalised name -> fn(eng, f, this, args)
        self.modsonly = 0          # looking for the modified locations of an enclosing loop: invariants are not needed
        self.invs = {}             # loop key -> list of candidate functions
        self.unroll = {}           # function name -> max iterations for loops in it
        self.inlined = {}          # fid -> count
        self.contracted = {}
        self.libused = {}
        self.obls = []
        self.assumptions = set()
        self.unit = ''
        self.mute = 0
        self.deadline = None
        self.tquick = 400
        self.tprove = (3000, 4000, 6000)
        self.solver_secs = 0.0
        self.pruned = []
        self.keptinv = {}
        self.paths = 0
        self.opts = {}
        self.reset()
        from . import lib
        self.lib = lib.MODELS
        lib.install(self)

    # ---------------------------------------------------------------- state
    def reset(self):
        self.mem = {}; self.rtype = {}; self.pc = []; self.pcids = []; self.pcset = set(); self.frames = []
        self.cnt = {}; self.trig = {}; self.g = {}; self.trace = []; self.pos = 0; self.pending = None
        self.tls = {}
        self.alive = []
        self.nproc = 1; self.active = None; self.fp = None
        self._solver = None; self._spc = []; self._keep = []
        self.nroot = 0
        self.hist = []
        self.depth = 0

    def snap(self):
        return (dict(self.mem), dict(self.rtype), list(self.pc), set(self.pcset), [(f, dict(f.env)) for f in self.frames],
                dict(self.cnt), {k: list(v) for k, v in self.trig.items()}, dict(self.g), dict(self.tls), self.nroot, self.depth, list(self.pcids))
    def restore(self, s):
        self.mem = dict(s[0]); self.rtype = dict(s[1]); self.pc = list(s[2]); self.pcset = set(s[3])
        self.frames = []
        for f, e in s[4]:
            if f.env is not e: f.env.clear(); f.env.update(e)
            self.frames.append(f)
        self.cnt = dict(s[5]); self.trig = {k: list(v) for k, v in s[6].items()}; self.g = dict(s[7]); self.tls = dict(s[8]); self.nroot = s[9]; self.depth = s[10]; self.pcids = list(s[11])

    def fresh_name(self, p):
        n = self.cnt.get(p, 0); self.cnt[p] = n + 1
        return '%s!%d' % (p, n)
    def fresh(self, sort, p='v'):
        return z3.Const(self.fresh_name(p), sort)

    def new_root(self, v, t=None):
        self.nroot += 1
        self.mem[self.nroot] = v; self.rtype[self.nroot] = t
        return Loc(self.nroot)

    # ---------------------------------------------------------------- shapes
    def leaf_sorts(self, t):
        r = self.P._shape.get(t)
        if r is None: r = self.P._shape[t] = self._leaf_sorts(t)
        return r
    def _leaf_sorts(self, t):
        P = self.P; k = P.kind(t)
        if k == 'int': return [z3.IntSort()]
        if k == 'bool': return [z3.BoolSort()]
        if k == 'b8': return [z3.BitVecSort(8)]
        if k == 'real': return [z3.RealSort()]
        if k == 'opaque': return [self.opaque_sort(t)]
        if k == 'rec':
            out = []
            for n, ft, _ in P.fields(t): out += self.leaf_sorts(ft)
            return out
        if k == 'tup':
            out = []
            for e in P.tupelems(t): out += self.leaf_sorts(e)
            return out
        if k == 'vec':
            return [z3.IntSort(), z3.IntSort()] + [z3.ArraySort(z3.IntSort(), s) for s in self.leaf_sorts(P.elem(t))]
        if k == 'opt': return [z3.BoolSort()] + self.leaf_sorts(P.elem(t))
        if k == 'map':
            ks = self.key_sort(P.elem(t))
            vs = [] if P.isset(t) else self.leaf_sorts(P.targ(t, 1))
            return [z3.ArraySort(ks, z3.BoolSort())] + [z3.ArraySort(ks, s) for s in vs] + [z3.IntSort()]
        if k in ('ptr', 'uptr'): return [z3.IntSort(), z3.IntSort()]   # region, index
        if k in ('it',): return [z3.IntSort(), z3.IntSort()]
        if k == 'range':
            it = P.targ(t, 0); return self.leaf_sorts(it) * 2
        raise Unsupported('no term representation for type %s' % self.tname(t))
    def tname(self, t):
        T = self.P.types[t]; return T.get('n', T['k'])
    def opaque_sort(self, t):
        P = self.P; T = P.types[t]
        nn = T.get('nn') or T.get('n', '?')
        ov = P.opaque_override.get(nn)
        if ov is not None: return ov
        if nn == 'CGAL::Lazy_exact_nt': return z3.RealSort()
        return P.sort_of(nn)

    def key_sort(self, kt):
        ls = self.leaf_sorts(kt)
        if len(ls) == 1: return ls[0]
        key = ('keysort', tuple(str(s) for s in ls))
        s = self.P._sorts.get(key)
        if s is None:
            d = z3.Datatype('Key%d_%s' % (len(ls), '_'.join(str(s) for s in ls)))
            d.declare('mk%d' % len(ls), *[('k%d' % i, x) for i, x in enumerate(ls)])
            s = self.P._sorts[key] = d.create()
        return s
    def key_term(self, kt, v):
        ls = self.flat(v, kt)
        ss = self.leaf_sorts(kt)
        ls = [self.as_sort(x, s) for x, s in zip(ls, ss)]
        if len(ls) == 1: return ls[0]
        return self.key_sort(kt).constructor(0)(*ls)
    def key_unterm(self, kt, term):
        ss = self.leaf_sorts(kt)
        if len(ss) == 1: return self.unflat(kt, [term])
        ks = self.key_sort(kt)
        if z3.is_app(term) and term.decl().eq(ks.constructor(0)): return self.unflat(kt, [term.arg(i) for i in range(len(ss))])
        return self.unflat(kt, [ks.accessor(0, i)(term) for i in range(len(ss))])

    def as_sort(self, x, s):
        if is_sym(x):
            if x.sort().eq(s): return x
            if s.kind() == z3.Z3_INT_SORT: return zi(x)
            if s.kind() == z3.Z3_REAL_SORT: return z3.ToReal(zi(x))
            if s.kind() == z3.Z3_BV_SORT and z3.is_int(x): return z3.Int2BV(x, s.size())
            if s.kind() == z3.Z3_BOOL_SORT and z3.is_int(x): return x != 0
            raise Unsupported('sort mismatch %s vs %s' % (x.sort(), s))
        if s.kind() == z3.Z3_INT_SORT: return z3.IntVal(int(x))
        if s.kind() == z3.Z3_BOOL_SORT: return z3.BoolVal(bool(x))
        if s.kind() == z3.Z3_BV_SORT: return z3.BitVecVal(int(x), s.size())
        if s.kind() == z3.Z3_REAL_SORT: return z3.RealVal(x)
        if isinstance(x, Str): return z3.Const('str:' + x.s, s)
        raise Unsupported('cannot represent %r as %s' % (x, s))

    def region(self, loc):
        """integer id of a pointer region (a sequence or a root object)"""
        for i, l in enumerate(self.g.get('regions', ())):
            if l.same(loc): return i + 1
        self.g['regions'] = self.g.get('regions', ()) + (loc,)
        return len(self.g['regions'])
    def ptr_leaves(self, v):
        if isinstance(v, Ptr):
            if v.loc is None: return [0, 0]
            if isinstance(v.loc, SymLoc): return [v.loc.rid, v.loc.idx]
            p = v.loc.path
            if p and isinstance(p[-1], tuple) and p[-1][0] == 'i': r, i = self.region(Loc(v.loc.root, p[:-1])), p[-1][1]
            else: r, i = self.region(v.loc), -1
            return [r if v.has is True else ite(v.has, r, 0), i]
        raise Unsupported('pointer leaf of %r' % (v,))

    def flat(self, v, t):
        """leaf terms of value v of type t"""
        P = self.P; k = P.kind(t)
        if k in ('int', 'bool', 'b8', 'real', 'opaque'): return [v]
        if k == 'rec':
            out = []
            for n, ft, _ in P.fields(t): out += self.flat(v.d[n], ft)
            return out
        if k == 'tup':
            out = []
            for e, x in zip(P.tupelems(t), v.xs): out += self.flat(x, e)
            return out
        if k == 'vec':
            if isinstance(v, PyVec): v = self.pyvec_to_vec(v, P.elem(t))
            return [v.n, v.lo] + list(v.arrs)
        if k == 'opt': return [v.has] + self.flat(v.val, P.elem(t))
        if k == 'map': return [v.dom] + list(v.arrs) + [v.size]
        if k in ('ptr', 'uptr'): return self.ptr_leaves(v)
        if k == 'it':
            return [self.region(v.loc), v.idx]
        if k == 'range': return self.flat(v.xs[0], P.targ(t, 0)) + self.flat(v.xs[1], P.targ(t, 0))
        raise Unsupported('flat: %s' % self.tname(t))

    def unflat(self, t, ls):
        v, rest = self._unflat(t, list(ls)); assert not rest
        return v
    def _unflat(self, t, ls):
        P = self.P; k = P.kind(t)
        if k in ('int', 'bool', 'b8', 'real', 'opaque'):
            x = ls[0]
            if is_sym(x):
                if z3.is_int_value(x): x = x.as_long()
                elif z3.is_true(x): x = True
                elif z3.is_false(x): x = False
                elif z3.is_bv_value(x): x = x.as_long()
            return x, ls[1:]
        if k == 'rec':
            d = {}
            for n, ft, _ in P.fields(t): d[n], ls = self._unflat(ft, ls)
            return Rec(t, d), ls
        if k == 'tup':
            xs = []
            for e in P.tupelems(t):
                x, ls = self._unflat(e, ls); xs.append(x)
            return Tup(xs), ls
        if k == 'vec':
            m = len(self.leaf_sorts(P.elem(t)))
            return Vec(P.elem(t), ls[0], list(ls[2:2 + m]), self._c(ls[1])), ls[2 + m:]
        if k == 'opt':
            v, rest = self._unflat(P.elem(t), ls[1:])
            return Opt(self._c(ls[0]), v), rest
        if k == 'map':
            m = 0 if P.isset(t) else len(self.leaf_sorts(P.targ(t, 1)))
            return MapV(P.elem(t), None if P.isset(t) else P.targ(t, 1), ls[0], list(ls[1:1 + m]), ls[1 + m]), ls[2 + m:]
        if k in ('ptr', 'uptr'):
            return self.mk_ptr(ls[0], ls[1]), ls[2:]
        if k == 'it':
            return It(self.region_loc(ls[0]), ls[1]), ls[2:]
        if k == 'range':
            a, ls = self._unflat(P.targ(t, 0), ls); b, ls = self._unflat(P.targ(t, 0), ls)
            return Tup([a, b]), ls
        raise Unsupported('unflat: %s' % self.tname(t))
    def _c(self, x):
        if is_sym(x):
            if z3.is_int_value(x): return x.as_long()
            if z3.is_true(x): return True
            if z3.is_false(x): return False
        return x
    def mk_ptr(self, rid, idx):
        c = conc(rid)
        if c is not None:
            if c == 0: return Ptr(None)
            l = self.g['regions'][c - 1]
            ci = conc(idx)
            return Ptr(l if ci == -1 else l.f(('i', idx)))
        return Ptr(SymLoc(rid, idx), sb(rid != 0))
    def region_loc(self, rid):
        c = conc(rid)
        if c is not None: return self.g['regions'][c - 1]
        regs = self.g.get('regions', ())
        for i in range(len(regs)):
            if i == len(regs) - 1:
                self.oblige('pointer designates a known object', rid == i + 1); return regs[i]
            if self.branch(rid == i + 1): return regs[i]
        raise Unsupported('iterator into unknown container')
    def resolve(self, p):
        """Loc of a pointer value, splitting on symbolic region"""
        if isinstance(p, Ptr):
            if p.loc is None: self.oblige('null pointer not dereferenced', False); raise PathEnd()
            if p.has is not True: self.oblige('null pointer not dereferenced', p.has)
            if isinstance(p.loc, SymLoc):
                l = self.region_loc(p.loc.rid)
                if conc(p.loc.idx) == -1: return l
                return l.f(('i', p.loc.idx))
            return p.loc
        if isinstance(p, It): return p.loc.f(('i', p.idx))
        if isinstance(p, Loc): return p
        raise Unsupported('dereference of %r' % (p,))

    def fresh_of(self, t, name='v'):
        """an arbitrary value of type t, with the facts every value of the type satisfies"""
        P = self.P; k = P.kind(t)
        if k == 'rec':
            d = {}
            for n, ft, _ in P.fields(t): d[n] = self.fresh_of(ft, name + '.' + n)
            return Rec(t, d)
        if k == 'tup': return Tup([self.fresh_of(e, name + '.%d' % i) for i, e in enumerate(P.tupelems(t))])
        if k == 'vec':
            n = self.fresh(z3.IntSort(), name + '.n')
            self.assume(z3.And(n >= 0, n < 2**48))
            return Vec(P.elem(t), n, [self.fresh(z3.ArraySort(z3.IntSort(), s), name + '.a%d' % i) for i, s in enumerate(self.leaf_sorts(P.elem(t)))])
        if k == 'opt': return Opt(self.fresh(z3.BoolSort(), name + '.has'), self.fresh_of(P.elem(t), name + '.val'))
        if k == 'map':
            ks = self.key_sort(P.elem(t)); s = P.isset(t)
            n = self.fresh(z3.IntSort(), name + '.size'); self.assume(z3.And(n >= 0, n < 2**48))
            return MapV(P.elem(t), None if s else P.targ(t, 1), self.fresh(z3.ArraySort(ks, z3.BoolSort()), name + '.dom'),
                        [] if s else [self.fresh(z3.ArraySort(ks, x), name + '.m%d' % i) for i, x in enumerate(self.leaf_sorts(P.targ(t, 1)))], n)
        if k in ('int', 'bool', 'b8', 'real', 'opaque'):
            nn = P.rname(t) if k == 'opaque' else None
            if nn in self.opts.get('objtypes', {}): return self.opts['objtypes'][nn](self, t)
            if nn in OBJ_TYPES: return Obj(nn)
            v = self.fresh(self.leaf_sorts(t)[0], name)
            self.type_fact(v, t)
            return v
        if k in ('ptr', 'uptr'):
            a = self.fresh(z3.IntSort(), name + '.rid'); b = self.fresh(z3.IntSort(), name + '.idx')
            return Ptr(SymLoc(a, b), a != 0)
        raise Unsupported('arbitrary value of type %s' % self.tname(t))
    def type_fact(self, v, t):
        ii = self.P.intinfo(t)
        if is_sym(v):
            key = ('tf', v.get_id(), t)
            if key in self.pcset: return
            self.pcset.add(key); self.alive.append(v)
        if ii and is_sym(v) and z3.is_int(v):
            s, b = ii
            self.assume(z3.And(v >= (-(1 << (b - 1)) if s else 0), v < (1 << (b - 1 if s else b))))
        elif self.P.types[t]['k'] == 'e' and isbv(v) and self.opts.get('enum_valid', True):
            cs = set(self.P.types[t]['consts'].values())
            if len(cs) < 256 and self.P.types[t]['nn'] not in ('kigumi::Triangle_region', 'kigumi::Mask', 'kigumi::Warnings'):
                self.assume(z3.Or(*[v == c for c in sorted(cs)]))

    # ---------------------------------------------------------------- facts
    def assume(self, f):
        if f is True: return
        if f is False or z3.is_false(f): raise PathEnd()
        if z3.is_true(f): return
        if z3.is_and(f):
            for c in f.children(): self.assume(c)
            return
        i = f.get_id()
        if i in self.pcset: return
        self.pcset.add(i)
        self.pc.append((f, has_quant(f)))
        self.pcids.append(i)
    def forall(self, fn, arrs=(), sorts=None, name='j', assume=True, pats=None):
        """assume (or just build) forall j. fn(j); instances are added on reads of arrs at an index"""
        j = [z3.Const('%s~%d' % (name, n), s) for n, s in enumerate(sorts or [z3.IntSort()])]
        body = fn(*j)
        if type(body) is bool: q = body
        else:
            ps = pats(*j) if pats else []
            try: q = z3.ForAll(j, body, patterns=ps) if ps else z3.ForAll(j, body)
            except z3.Z3Exception:
                good = []
                for p in ps:     # a pattern may not contain a case distinction
                    try: z3.ForAll(j, body, patterns=[p]); good.append(p)
                    except z3.Z3Exception: pass
                q = z3.ForAll(j, body, patterns=good) if good else z3.ForAll(j, body)
        if assume:
            self.assume(q)
            if q is not True:
                for a in arrs: self.trig.setdefault(a.get_id(), []).append(fn)
        return q
    def on_read(self, arr, idx):
        a = arr
        while True:
            for fn in self.trig.get(a.get_id(), ()):
                iz = idx if is_sym(idx) else z3.IntVal(idx)
                key = (fn, a.get_id(), iz.get_id())
                if key in self.pcset: continue
                self.pcset.add(key); self.alive.append((iz, a))
                self.assume(fn(iz))
            if z3.is_store(a): a = a.arg(0)
            else: break

    def _sync(self):
        s = self._solver
        spc = self._spc
        if s is None:
            s = self._solver = z3.Solver(); s.set('timeout', self.tquick)
            spc.clear()
        ids = self.pcids; pc = self.pc
        # spc: ids of the facts pushed so far (all of pc, quantified ones as empty scopes)
        n = 0; m = min(len(spc), len(ids))
        while n < m and spc[n] == ids[n]: n += 1
        if n < len(spc):
            s.pop(len(spc) - n); del spc[n:]; del self._keep[n:]
        for k in range(n, len(ids)):
            f, q = pc[k]
            s.push()
            if not q: s.add(f)
            spc.append(ids[k]); self._keep.append(f)
        return s
    def check_time(self):
        if self.deadline and time.time() > self.deadline: raise Timeout()
    def feas(self, c):
        """can c hold on this path? (quantifier-free facts only; unknown counts as yes)"""
        self.check_time()
        t0 = time.time()
        s = self._sync()
        r = s.check(zb(c))
        self.solver_secs += time.time() - t0
        return r != z3.unsat
    def quick(self, c):
        """c is implied by the quantifier-free facts"""
        if type(c) is bool: return c
        if c.get_id() in self.pcset: return True
        return not self.feas(Not(c))

    def memo(self, fn):
        """deterministic across replays of the same decision prefix"""
        if self.pos < len(self.trace):
            v = self.trace[self.pos]; self.pos += 1
            return v[1]
        c = dict(self.cnt)
        v = fn()
        self.cnt = c
        self.trace.append(('m', v)); self.pos += 1
        return v

    def branch(self, c):
        c = self.tobool(c)
        if type(c) is bool: return c
        c2 = sb(c)
        if type(c2) is bool: return c2
        if self.pos < len(self.trace):
            d = self.trace[self.pos][1]; self.pos += 1
        else:
            nc = Not(c)
            if c.get_id() in self.pcset: d = True
            elif is_sym(nc) and nc.get_id() in self.pcset: d = False
            else:
                ft = self.feas(c); ff = self.feas(nc)
                if ft and ff:
                    d = True
                    if self.pending is None: raise Unsupported('branch outside exploration')
                    self.pending.append(self.trace[:self.pos] + [('b', False)])
                elif ft: d = True
                elif ff: d = False
                else: raise PathEnd()
            self.trace.append(('b', d)); self.pos += 1
        self.assume(c if d else Not(c))
        return d
    def choose(self, n):
        """n-way case split"""
        if n > 1 and self.pos >= len(self.trace):
            pre = self.trace[:self.pos]
            for i in range(n - 1, 0, -1): self.pending.append(pre + [('b', False)] * i + ([('b', True)] if i < n - 1 else []))
            self.trace.append(('b', True)); self.pos += 1
            return 0
        for i in range(n - 1):
            d = self.trace[self.pos][1]; self.pos += 1
            if d: return i
        return n - 1
    def tobool(self, c):
        if type(c) is bool: return c
        if type(c) is int: return c != 0
        if isinstance(c, Ptr): return c.has
        if is_sym(c):
            if z3.is_bool(c): return c
            if z3.is_int(c): return sb(c != 0)
            if z3.is_bv(c): return sb(c != 0)
        raise Unsupported('condition %r' % (c,))

    def explore(self, thunk, keep=True, limit=20000):
        """run thunk on every feasible path from the current state -> [(kind, value, snapshot)]"""
        outer = (self.trace, self.pos, self.pending)
        base = self.snap()
        work = [[]]; outs = []; n = 0
        self.pending = work
        try:
            while work:
                tr = work.pop()
                n += 1
                self.paths += 1
                if n > limit: raise Unsupported('more than %d paths' % limit)
                self.check_time()
                self.restore(base); self.trace = list(tr); self.pos = 0
                try: r = ('ret', thunk())
                except PathEnd: continue
                except CxxThrow as e: r = ('throw', e)
                except Brk: r = ('break', None)
                except Cont: r = ('continue', None)
                except Ret as e: r = ('return', e.v)
                outs.append((r[0], r[1], self.snap() if keep else None))
        finally:
            self.trace, self.pos, self.pending = outer
            self.restore(base)
        return outs

    def pexplore(self, thunk, result=None, limit=20000):
        """like explore(keep=False); pending paths are handed to forked helpers while processors are idle.
        result(): picklable facts a helper gathered; -> list of them"""
        if self.nproc < 2:
            self.explore(thunk, keep=False, limit=limit); return []
        import os, pickle, tempfile, shutil, multiprocessing as mp
        if self.active is None: self.active = mp.Value('i', 1)
        outer = (self.trace, self.pos, self.pending)
        base = self.snap()
        work = [[]]; n = 0; kids = []; top = True; dirs = None; me = 0; mine = None
        self.pending = work
        err = None
        failed = mp.Value('i', 0)
        try:
            try:
                while work:
                    while len(work) > 1:
                        with self.active.get_lock():
                            ok = self.active.value < self.nproc
                            if ok: self.active.value += 1
                        if not ok: break
                        tr = work.pop(0)
                        fd, path = tempfile.mkstemp(prefix='kvc')
                        os.close(fd)
                        pid = os.fork()
                        if pid == 0:
                            top = False; mine = path; kids = []
                            self.obls = []; self.solver_secs = 0.0; self.paths = 0; self._solver = None; self._spc = []; self._keep = []
                            del work[:]; work.append(tr)
                        else: kids.append((pid, path))
                    n += 1
                    if n > limit: raise Unsupported('more than %d paths' % limit)
                    if failed.value: break
                    tr = work.pop()
                    self.paths += 1
                    self.check_time()
                    self.restore(base); self.trace = list(tr); self.pos = 0
                    try: thunk()
                    except (PathEnd, CxxThrow, Brk, Cont, Ret): pass
            except Failed as e: err = ('failed', e.o)
            except Timeout: err = ('timeout', None)
            except Unsupported as e:
                err = ('unsupported', str(e))
                if self.opts.get('debug'):
                    import traceback; traceback.print_exc()
            except (RecursionError, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, StopIteration, SpecError, z3.Z3Exception) as e:
                err = ('unsupported', 'engine: %r' % (e,))
                if self.opts.get('debug'):
                    import traceback; traceback.print_exc()
            if err is not None: failed.value = 1
            errs = [err] if err else []
            out = []
            with self.active.get_lock(): self.active.value -= 1
            for pid, path in kids:
                os.waitpid(pid, 0)
                with open(path, 'rb') as fh: data = fh.read()
                os.unlink(path)
                if not data: errs.append(('unsupported', 'proof worker died')); continue
                es, obls, ss, paths, inl, con, lib, asm, pruned, kept, res = pickle.loads(data)
                self.obls += obls; self.solver_secs += ss; self.paths += paths
                for k, v in inl.items(): self.inlined[k] = v
                for k in con: self.contracted.setdefault(k, 1)
                for k in lib: self.libused.setdefault(k, 1)
                self.assumptions |= set(asm)
                self.pruned += [x for x in pruned if x not in self.pruned]
                self.keptinv.update(kept)
                errs += es; out += res
            if not top:
                if result: out.append(result())
                with open(mine, 'wb') as fh:
                    fh.write(pickle.dumps((errs, self.obls, self.solver_secs, self.paths, dict(self.inlined), list(self.contracted), list(self.libused),
                                           list(self.assumptions), self.pruned, self.keptinv, out)))
                os._exit(0)
            with self.active.get_lock(): self.active.value += 1
            for kind in ('failed', 'timeout', 'unsupported'):
                for e in errs:
                    if e[0] != kind: continue
                    if kind == 'failed': raise Failed(e[1])
                    if kind == 'timeout': raise Timeout()
                    raise Unsupported(e[1])
            return out
        except BaseException:
            if not top: os._exit(3)
            raise
        finally:
            self.trace, self.pos, self.pending = outer
            self.restore(base)

    # ---------------------------------------------------------------- obligations
    def where(self):
        return self.hist[-1] if self.hist else ''
    def prove_status(self, goal, quick_only=False, prune=False):
        """-> (status, backend, secs, detail)"""
        if goal is True: return ('proved', 'simplifier', 0.0, '')
        t0 = time.time()
        g = zb(goal)
        if not has_quant(g):
            self.check_time()
            s = self._sync()
            r = s.check(Not(goal) if type(goal) is not bool else z3.BoolVal(True))
            if r == z3.unsat: return ('proved', 'z3', time.time() - t0, '')
            if not any(q for _, q in self.pc) and r == z3.sat:
                return ('refuted', 'z3', time.time() - t0, str(s.model())[:1500])
        from .smt import discharge
        st = discharge([f for f, _ in self.pc], g, self.tprove, quick_only, prune and not self.opts.get('thorough_invs'))
        return st[0], st[1], time.time() - t0, st[2]
    def oblige(self, label, goal, where=None, required=True):
        """a named proof obligation on this path; the goal is assumed afterwards"""
        goal = self.tobool(goal) if not is_sym(goal) else goal
        if self.mute:
            self.assume(goal); return True
        name = '%s: %s%s' % (self.unit, label, (' @' + (where or self.where())) if (where or self.where()) else '')
        def run():
            if goal is True: return None
            st = self.prove_status(goal)
            self.solver_secs += st[2]
            o = Obl(name, *st)
            self.obls.append(o)
            if o.status != 'proved' and self.opts.get('stop_on_fail', True): raise Failed(o)
            return o.status
        if goal is True:
            def run():
                self.obls.append(Obl(name, 'proved', 'simplifier', 0.0)); return 'proved'
        self.memo(run)
        self.assume(goal)
        return True

    # ---------------------------------------------------------------- memory
    def vec_get(self, v, i):
        if isinstance(v, PyVec):
            c = conc(i)
            if c is None:
                if not v.xs: raise PathEnd()
                r = v.xs[-1]
                for n in range(len(v.xs) - 2, -1, -1): r = self.merge_val(eq(i, n), v.xs[n], r)
                return r
            return v.xs[c]
        idx = add(i, v.lo)
        ls = []
        for a in v.arrs:
            x = sel(a, idx); self.on_read(a, idx); ls.append(x)
        for x, (kind, tt) in zip(ls, self.leaf_types(v.et)):
            if kind == 'int' and is_sym(x) and not z3.is_int_value(x): self.type_fact(x, tt)
            elif kind == 'b8' and is_sym(x) and not z3.is_bv_value(x): self.type_fact(x, tt)
            elif kind == 'n' and is_sym(x): self.assume(z3.And(x >= 0, x < 2**48))
        return self.unflat(v.et, ls)
    def leaf_types(self, t):
        key = ('lt', t)
        r = self.P._sorts.get(key)
        if r is None: r = self.P._sorts[key] = self._leaf_types(t)
        return r
    def _leaf_types(self, t):
        P = self.P; k = P.kind(t)
        if k in ('int', 'b8'): return [(k, t)]
        if k == 'rec': return [x for _, ft, _ in P.fields(t) for x in self.leaf_types(ft)]
        if k == 'tup': return [x for e in P.tupelems(t) for x in self.leaf_types(e)]
        if k == 'vec': return [('n', t), ('lo', t)] + [('?', None)] * len(self.leaf_sorts(P.elem(t)))
        return [('?', None)] * len(self.leaf_sorts(t))
    def vec_get_pure(self, v, i):
        """element as a term, without recording facts (for use under quantifiers)"""
        idx = add(i, v.lo); idx = idx if is_sym(idx) else z3.IntVal(idx)
        return self.unflat(v.et, [z3.Select(a, idx) for a in v.arrs])
    def on_key(self, loc, k):
        for fn in self.trig.get(('map', loc.root, str(loc.path)), ()): self.assume(fn(k))
    def vec_set(self, v, i, x):
        if isinstance(v, PyVec):
            c = conc(i)
            if c is None: 
                return PyVec([self.merge_val(eq(i, n), x, o) for n, o in enumerate(v.xs)])
            xs = list(v.xs); xs[c] = x; return PyVec(xs)
        ls = self.flat(x, v.et); ss = self.leaf_sorts(v.et)
        idx = add(i, v.lo); iz = idx if is_sym(idx) else z3.IntVal(idx)
        arrs = []
        for a, y, s in zip(v.arrs, ls, ss):
            y = self.as_sort(y, s)
            if is_sym(y) and z3.is_app_of(y, z3.Z3_OP_ITE):     # a name, so that it may occur in patterns
                c = self.fresh(s, 'chosen'); self.assume(c == y); y = c
            cur = sel(a, iz)
            if is_sym(cur) and cur.eq(y): arrs.append(a)
            else:
                if z3.is_store(a) and a.arg(1).eq(iz): a = a.arg(0)
                arrs.append(z3.Store(a, iz, y))
        return Vec(v.et, v.n, arrs, v.lo)
    def vec_push(self, v, x):
        if isinstance(v, PyVec): return PyVec(v.xs + [x])
        try:
            v2 = self.vec_set(v, sub(v.n, 0), x)
        except Unsupported:
            if conc(v.n) == 0: return PyVec([x])
            raise
        return Vec(v.et, add(v.n, 1), v2.arrs, v.lo)
    def vec_len(self, v):
        if isinstance(v, (PyVec, Tup)): return len(v.xs)
        return v.n
    def pyvec_to_vec(self, pv, et):
        v = self.empty_vec(et)
        for x in pv.xs: v = self.vec_push(v, x)
        return v
    def empty_vec(self, et):
        try: ss = self.leaf_sorts(et)
        except Unsupported: return PyVec([])
        return Vec(et, 0, [self.fresh(z3.ArraySort(z3.IntSort(), s), 'empty') for s in ss])

    def step_get(self, v, s):
        if isinstance(s, str):
            if isinstance(v, Rec):
                if s in v.d: return v.d[s]
            if isinstance(v, Obj) and s in v.d: return v.d[s]
            raise Unsupported('field %s of %r' % (s, type(v).__name__))
        if s[0] == 'i':
            if isinstance(v, (Vec, PyVec)): return self.vec_get(v, s[1])
            if isinstance(v, Tup):
                c = conc(s[1])
                if c is not None:
                    if not 0 <= c < len(v.xs): self.oblige('array index in range', False); raise PathEnd()
                    return v.xs[c]
                r = v.xs[-1]
                for n in range(len(v.xs) - 2, -1, -1): r = self.merge_val(eq(s[1], n), v.xs[n], r)
                return r
        if s[0] == 't': return v.xs[s[1]]
        if s[0] == 'o': return v.val
        if s[0] == 'm':
            return self.unflat(v.vt, [z3.Select(a, s[1]) if not z3.is_store(a) else sel(a, s[1]) for a in v.arrs])
        raise Unsupported('path step %r on %r' % (s, type(v).__name__))
    def step_set(self, v, s, x):
        if isinstance(s, str):
            if isinstance(v, Rec):
                d = dict(v.d); d[s] = x; return Rec(v.t, d)
            if isinstance(v, Obj): return v.upd(**{s: x})
            raise Unsupported('assign field %s of %r' % (s, type(v).__name__))
        if s[0] == 'i':
            if isinstance(v, (Vec, PyVec)): return self.vec_set(v, s[1], x)
            if isinstance(v, Tup):
                c = conc(s[1])
                xs = list(v.xs)
                if c is not None: xs[c] = x
                else: xs = [self.merge_val(eq(s[1], n), x, o) for n, o in enumerate(xs)]
                return Tup(xs)
        if s[0] == 't':
            xs = list(v.xs); xs[s[1]] = x; return Tup(xs)
        if s[0] == 'o': return Opt(v.has, x)
        if s[0] == 'm':
            ls = [self.as_sort(y, t) for y, t in zip(self.flat(x, v.vt), self.leaf_sorts(v.vt))]
            return MapV(v.kt, v.vt, v.dom, [z3.Store(a, s[1], y) for a, y in zip(v.arrs, ls)], v.size)
        raise Unsupported('path step %r' % (s,))
    def load(self, loc):
        if not isinstance(loc, Loc): raise Unsupported('load of %r' % (loc,))
        if loc.root not in self.mem: raise Unsupported('dangling object')
        if self.fp is not None or 'live' in self.g: self.access('R', loc)
        v = self.mem[loc.root]
        for s in loc.path: v = self.step_get(v, s)
        return v
    def load_len(self, loc):
        """number of elements of the sequence at loc (reads only its size)"""
        if self.fp is None and 'live' not in self.g: return self.vec_len(self.load(loc))
        n = self.vec_len(self.peek(loc))
        self.access('R', loc.f(('size',)))
        return n
    def access(self, kind, loc):
        if 'live' in self.g: self.live_conflicts(kind, loc)
        if self.fp is None: return
        rec, base, n0 = self.fp
        if loc.root in base: rec.append((kind, loc, [f for f, q in self.pc[n0:] if not q]))
    def live_conflicts(self, kind, loc):
        """an access while other threads run"""
        from . import par
        for tid, acc in self.g['live']:
            if any(l.root == loc.root and 'W' in (kind, k) for k, l, c in acc): par.no_conflict(self, 'what a running thread uses is not touched elsewhere', acc, [(kind, loc, [])])
    def peek(self, loc):
        """a load by the specification: not an access of the program"""
        if loc.root not in self.mem: raise Unsupported('dangling object')
        v = self.mem[loc.root]
        for s in loc.path: v = self.step_get(v, s)
        return v
    def store(self, loc, x):
        if loc.root not in self.mem: raise Unsupported('dangling object')
        if self.fp is not None or 'live' in self.g: self.access('W', loc)
        hook = self.g.get('store_hook')
        if hook: hook(self, loc, x)
        def go(v, path):
            if not path: return x
            return self.step_set(v, path[0], go(self.step_get(v, path[0]), path[1:]))
        self.mem[loc.root] = go(self.mem[loc.root], loc.path)

    def merge_val(self, c, a, b):
        if type(c) is bool: return a if c else b
        if t_eq(a, b): return a
        if isinstance(a, Rec) and isinstance(b, Rec): return Rec(a.t, {k: self.merge_val(c, a.d[k], b.d[k]) for k in a.d})
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs): return Tup([self.merge_val(c, x, y) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, Vec) and isinstance(b, Vec): return Vec(a.et, ite(c, a.n, b.n), [z3.If(c, x, y) if not x.eq(y) else x for x, y in zip(a.arrs, b.arrs)], ite(c, a.lo, b.lo))
        if isinstance(a, It) and isinstance(b, It) and a.loc.same(b.loc): return It(a.loc, ite(c, a.idx, b.idx))
        if isinstance(a, Opt) and isinstance(b, Opt): return Opt(ite(c, a.has, b.has), self.merge_val(c, a.val, b.val))
        if isinstance(a, Val) or isinstance(b, Val): raise MergeFail()
        return ite(c, a, b)

    # ---------------------------------------------------------------- integer typing
    def to_int_type(self, v, t, ub=False):
        """bring an integer result into the range of type t (exact modular semantics)"""
        ii = self.P.intinfo(t)
        if ii is None: return v
        s, b = ii
        lo = -(1 << (b - 1)) if s else 0; hi = (1 << (b - 1)) if s else (1 << b)
        if b == 1: return self.tobool(v)
        c = conc(v)
        if c is not None and not (isbv(v)):
            if lo <= c < hi: return c
            if ub: self.oblige('no signed overflow', False)
            c %= 1 << b
            return c - (1 << b) if s and c >= hi else c
        if isbv(v):
            if v.size() == b and not s: return v
            if v.size() < b or (v.size() == b and not s): return v
            v = zi(v)
        if z3.is_bool(v): v = zi(v)
        rng = z3.And(v >= lo, v < hi)
        if b == 8 and not s:
            if self.memo(lambda: self.quick(rng)): pass
            return z3.Int2BV(v, 8)
        if self.memo(lambda: self.quick(rng)): return v
        if ub:
            self.oblige('no signed overflow', rng); return v
        m = 1 << b
        r = self.fresh(z3.IntSort(), 'wrap'); q = self.fresh(z3.IntSort(), 'wrapq')
        self.assume(z3.And(r >= lo, r < hi, r == v + q * m))
        # the common case of a single wrap
        self.assume(z3.Implies(z3.And(v >= lo - m, v < lo), q == 1)); self.assume(z3.Implies(z3.And(v >= lo, v < hi), q == 0)); self.assume(z3.Implies(z3.And(v >= hi, v < hi + m), q == -1))
        return r

    def arith(self, op, a, b, t):
        ii = self.P.intinfo(t)
        if ii is None:   # real
            ra = self.as_sort(a, z3.RealSort()); rb = self.as_sort(b, z3.RealSort())
            return {'+': lambda: ra + rb, '-': lambda: ra - rb, '*': lambda: ra * rb, '/': lambda: ra / rb}[op]()
        s, bits = ii
        if op in '|&^':
            if conc(a) is not None and conc(b) is not None:
                a, b = conc(a), conc(b)
                return {'|': a | b, '&': a & b, '^': a ^ b}[op]
            if isbv(a) or isbv(b):
                if isbv(a) and isbv(b) and a.size() == b.size(): x, y = a, b
                elif isbv(a) and conc(b) is not None and 0 <= conc(b) < 1 << a.size(): x, y = a, bvc(conc(b), a.size())
                elif isbv(b) and conc(a) is not None and 0 <= conc(a) < 1 << b.size(): x, y = bvc(conc(a), b.size()), b
                else: raise Unsupported('bit operation')
                return z3.simplify({'|': x | y, '&': x & y, '^': x ^ y}[op])
            if (type(a) is bool or z3.is_bool(a)) and (type(b) is bool or z3.is_bool(b)):
                return {'|': Or, '&': And}[op](a, b)
            za = zi(a); 
            if conc(b) == 1 and op == '&': return za % 2
            raise Unsupported('bit operation on integers')
        if op in ('<<', '>>'):
            if conc(a) is not None and conc(b) is not None: return self.to_int_type(conc(a) << conc(b) if op == '<<' else conc(a) >> conc(b), t)
            if conc(b) is not None:
                return self.to_int_type(zi(a) * (1 << conc(b)), t) if op == '<<' else zi(a) / (1 << conc(b))
            raise Unsupported('shift')
        ca, cb = conc(a), conc(b)
        if op == '+': r = add(a if ca is None else ca, b if cb is None else cb)
        elif op == '-': r = sub(a if ca is None else ca, b if cb is None else cb)
        elif op == '*': r = ca * cb if ca is not None and cb is not None else zi(a) * zi(b)
        elif op in ('/', '%'):
            self.oblige('no division by zero', cmpi('!=', b, 0))
            if ca is not None and cb is not None:
                q = abs(ca) // abs(cb) * (1 if (ca < 0) == (cb < 0) else -1)
                r = q if op == '/' else ca - q * cb
            else:
                za, zb_ = zi(a), zi(b)
                if s and not self.memo(lambda: self.quick(z3.And(za >= 0, zb_ > 0))):
                    q = z3.If(za >= 0, z3.If(zb_ > 0, za / zb_, -(za / -zb_)), z3.If(zb_ > 0, -((-za) / zb_), (-za) / (-zb_)))
                    r = q if op == '/' else za - q * zb_
                elif op == '%' and cb is None and not z3.is_int_value(z3.simplify(za)):
                    # a symbolic divisor: the remainder of a number known to be small is found without division
                    if self.memo(lambda: self.quick(z3.And(za >= 0, za < zb_))): r = za
                    elif self.memo(lambda: self.quick(z3.And(za >= 0, za < 2 * zb_))):
                        r = self.fresh(z3.IntSort(), 'rem'); self.assume(z3.And(z3.Implies(za < zb_, r == za), z3.Implies(za >= zb_, r == za - zb_)))
                    elif self.memo(lambda: self.quick(z3.And(za >= 0, za < 3 * zb_))):
                        r = self.fresh(z3.IntSort(), 'rem'); self.assume(z3.And(z3.Implies(za < zb_, r == za), z3.Implies(z3.And(za >= zb_, za < 2 * zb_), r == za - zb_), z3.Implies(za >= 2 * zb_, r == za - 2 * zb_)))
                    else: r = za % zb_
                else: r = za / zb_ if op == '/' else za % zb_
            return r
        else: raise Unsupported('operator ' + op)
        return self.to_int_type(r, t, ub=s and bits >= 32)

    # ---------------------------------------------------------------- expressions
    def rv(self, n):
        v = self.ev(n)
        if n.get('lv') and isinstance(v, Loc): return self.load(v)
        return v
    def ev(self, n):
        m = getattr(self, 'x_' + n['k'], None)
        if m is None: raise Unsupported('expression %s at line %s' % (n['k'], n.get('l')))
        return m(n)
    def as_loc(self, v, t=None):
        return v if isinstance(v, Loc) else self.new_root(v, t)

    def x_Temp(self, n):
        v = self.ev(n['e'])
        if isinstance(v, Loc) and n['e'].get('lv'): return v
        return self.new_root(v, n['e']['t'])
    def x_Int(self, n):
        v = int(n['v'])
        return v
    def x_Bool(self, n): return bool(int(n['v'])) if not isinstance(n['v'], bool) else n['v']
    def x_Float(self, n):
        return z3.RealVal(str(n['v']))
    def x_Str(self, n): return Str(n['v'])
    def x_Null(self, n): return Ptr(None)
    def x_Zero(self, n): return self.zero(n['t'])
    def x_Fn(self, n): return FnRef(n['fn'])
    def x_Ref(self, n):
        d = n['d']
        if d is None or d not in self.frames[-1].env:
            if n.get('g') is not None or d is not None:
                return self.global_loc(n)
            raise Unsupported('unbound variable %s' % n.get('n'))
        return self.frames[-1].env[d]
    def global_loc(self, n):
        key = ('g', n['d'], n.get('n'))
        nm = n.get('n') or ''
        m = self.lib.get('global:' + nm) or self.opts.get('globals', {}).get(nm)
        if key in self.tls: return self.tls[key]
        gv = next((g for g in self.P.gvars if g.get('d') == n['d']), None)
        if m: l = self.new_root(m(self, n, gv), n['t'])
        elif self.P.kind(n['t']) == 'opaque' : l = self.new_root(Obj(self.P.rname(n['t']) or nm, name=nm), n['t'])
        elif gv is not None and gv.get('init') is not None and gv.get('const'):
            l = self.new_root(self.init_val(gv['init'], gv['t']), n['t'])
        elif gv is not None:
            l = self.new_root(self.fresh_of(n['t'], nm), n['t'])
        else: raise Unsupported('global variable ' + nm)
        self.tls[key] = l
        return l
    def x_This(self, n):
        th = self.frames[-1].this
        if th is None: raise Unsupported('this outside a member function')
        return Ptr(th)
    def x_Mem(self, n):
        if n.get('sv') or (n.get('d') is not None and n.get('n') is not None and n.get('f') is None):
            return self.global_loc(n)
        if n.get('fn') is not None: return FnRef(n['fn'])
        b = self.ev(n['b'])
        if n['arrow']:
            if isinstance(b, Loc): b = self.load(b)
            b = self.resolve(b)
        if isinstance(b, Loc):
            rt = n.get('rec')
            v = None
            if self.P.kind(rt) == 'tup':   # std::pair first/second
                return self.reffield(b.f(('t', n['f'])))
            l = b.f(n['n'])
            return self.reffield(l)
        if self.P.kind(n['rec']) == 'tup': r = b.xs[n['f']]
        else: r = self.step_get(b, n['n'])
        return r
    def reffield(self, l):
        """a field of reference type holds a Loc: look through it"""
        try: v = self.glance(l)
        except Unsupported: return l
        if isinstance(v, Loc): return v
        return l
    def glance(self, l):
        if l.root not in self.mem: raise Unsupported('dangling')
        v = self.mem[l.root]
        for s in l.path:
            if isinstance(s, str) and isinstance(v, (Rec, Obj)): v = v.d.get(s)
            elif isinstance(v, Tup) and s[0] in ('t', 'i') and conc(s[1]) is not None: v = v.xs[conc(s[1])]
            elif isinstance(v, PyVec) and conc(s[1]) is not None: v = v.xs[conc(s[1])]
            elif isinstance(v, Opt) and s[0] == 'o': v = v.val
            else: return None
            if v is None: return None
        return v
    def x_Sub(self, n):
        b = self.ev(n['b']); i = self.rv(n['i'])
        if isinstance(b, Ptr): b = b.loc
        if isinstance(b, It): return b.loc.f(('i', add(b.idx, i)))
        return b.f(('i', i))
    def x_Un(self, n):
        op = n['op']
        if op in ('++', '--'):
            l = self.ev(n['e']); v = self.load(l)
            if isinstance(v, It): nv = It(v.loc, add(v.idx, 1 if op == '++' else -1))
            else: nv = self.arith('+' if op == '++' else '-', v, 1, n['e']['t'])
            self.store(l, nv)
            return v if n['post'] else l
        if op == '&':
            return Ptr(self.ev(n['e']))
        if op == '*':
            v = self.ev(n['e'])
            if isinstance(v, Loc): v = self.load(v)
            return self.resolve(v)
        v = self.rv(n['e'])
        if op == '!': return Not(self.tobool(v))
        if op == '-':
            if self.P.intinfo(n['t']): return self.arith('-', 0, v, n['t'])
            return -v
        if op == '+': return v
        if op == '~':
            c = conc(v)
            if c is not None: return self.to_int_type(~c, n['t'])
            if isbv(v): return ~v
        raise Unsupported('unary ' + op)
    def x_Bin(self, n):
        op = n['op']
        if op == '=':
            v = self.rv(n['b'])
            l = self.ev(n['a'])
            self.store(l, v); return l
        if op == ',':
            self.ev(n['a']); return self.ev(n['b'])
        if op in ('&&', '||'):
            a = self.tobool(self.rv(n['a']))
            if type(a) is bool:
                if op == '&&': return self.tobool(self.rv(n['b'])) if a else False
                return True if a else self.tobool(self.rv(n['b']))
            m = self.try_merge(lambda: self.tobool(self.rv(n['b'])), a if op == '&&' else Not(a))
            if m is not None:
                return And(a, m[0]) if op == '&&' else Or(a, m[0])
            if op == '&&': return self.tobool(self.rv(n['b'])) if self.branch(a) else False
            return True if self.branch(a) else self.tobool(self.rv(n['b']))
        a = self.rv(n['a']); b = self.rv(n['b'])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if isinstance(a, (Ptr,)) or isinstance(b, (Ptr,)):
                r = self.ptr_eq(a, b)
                return r if op == '==' else Not(r)
            if isinstance(a, It) and isinstance(b, It): a, b = a.idx, b.idx
            return cmpi(op, a, b)
        if isinstance(a, It):
            if isinstance(b, It): return sub(a.idx, b.idx)
            return It(a.loc, add(a.idx, b) if op == '+' else sub(a.idx, b))
        if isinstance(a, Ptr) or isinstance(a, Obj): 
            m = self.lib.get('ptrarith')
            if m: return m(self, op, a, b)
        return self.arith(op, a, b, n['t'])
    def ptr_eq(self, a, b):
        fa, fb = self.ptr_leaves(a), self.ptr_leaves(b)
        return And(eq(fa[0], fb[0]), Or(eq(fa[0], 0), eq(fa[1], fb[1])))
    def x_AssignOp(self, n):
        b = self.rv(n['b']); l = self.ev(n['a']); a = self.load(l)
        if isinstance(a, It): r = It(a.loc, add(a.idx, b) if n['op'].startswith('+') else sub(a.idx, b))
        else:
            ct = n.get('ct', n['t'])
            r = self.to_int_type(self.arith(n['op'].rstrip('='), a, b, ct), n['t'])
        self.store(l, r); return l
    def x_Cond(self, n):
        c = self.tobool(self.rv(n['c']))
        if type(c) is bool: return self.ev(n['a'] if c else n['b'])
        if not n.get('lv'):
            ma = self.try_merge(lambda: self.ev(n['a']), c)
            if ma is not None:
                mb = self.try_merge(lambda: self.ev(n['b']), Not(c))
                if mb is not None:
                    try: return self.merge_val(c, ma[0], mb[0])
                    except MergeFail: pass
        return self.ev(n['a'] if self.branch(c) else n['b'])
    def try_merge(self, thunk, under=True, maxpaths=24):
        """evaluate thunk as a pure expression under an extra assumption; None if it is not one"""
        def run():
            base = self.snap()
            nb = len(self.mem); nobl = len(self.obls)
            facts = []
            self.mute += 1
            try:
                def th():
                    self.assume(under)
                    return thunk()
                self.assume  # noqa
                outs = self.explore(th, limit=maxpaths)
            except (Unsupported, PathEnd):
                outs = None
            finally:
                self.mute -= 1
            if not outs: return None
            mem0, pc0, tls0, g0 = base[0], base[2], base[8], base[7]
            vals = []
            for kind, v, s in outs:
                if kind != 'ret' or isinstance(v, (Loc,)): return None
                if any(r not in s[0] or not (s[0][r] is mem0[r] or t_eq(s[0][r], mem0[r])) for r in mem0): return None
                if s[8].keys() != tls0.keys() or s[7].keys() != g0.keys() or any(not (s[7][k] is g0[k] or t_eq(s[7][k], g0[k])) for k in g0): return None
                vals.append((v, s[2][len(pc0):]))
            # obligations inside were muted and assumed: they must be re-established -> only accept if none were needed
            return vals, outs
        if getattr(self, '_obl_probe', None) is None: self._obl_probe = 0
        r = self.memo(lambda: self._merge_run(run))
        if r is None: return None
        return (r,)
    def _merge_run(self, run):
        self._obl_needed = 0
        old = self.oblige
        need = [0]
        def probe(label, goal, where=None, required=True):
            g = self.tobool(goal) if not is_sym(goal) else goal
            if g is not True and not self.quick(g): need[0] += 1
            self.assume(g)
            return True
        self.oblige = probe
        try: r = run()
        finally:
            self.oblige = old
        if r is None or need[0]: return None
        vals, outs = r
        # path conditions may only contain branch decisions over existing terms (no fresh facts)
        try:
            acc = vals[-1][0]
            if isinstance(acc, Val) and not isinstance(acc, (Rec, Tup, Opt)): 
                if len(vals) > 1: return None
            base_ids = None
            known = self.cnt
            for v, extra in vals:
                pass
            for v, extra in reversed(vals[:-1]):
                c = And(*[f for f, q in extra if not q])
                acc = self.merge_val(c, v, acc)
            # facts with fresh symbols introduced inside must survive: reject if any
            for v, extra in vals:
                for f, q in extra:
                    if q: return None
                    if self.uses_fresh(f): return None
            return acc
        except MergeFail: return None
    def uses_fresh(self, f):
        """mentions a constant created after the current counters"""
        st = [f]; seen = set()
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if '!' in nm:
                    b, c = nm.rsplit('!', 1)
                    if c.isdigit() and int(c) >= self.cnt.get(b, 0): return True
            st.extend(x.children())
        return False

    def x_Cast(self, n):
        ck = n['ck']; e = n['e']
        if ck == 'LValueToRValue':
            v = self.ev(e)
            return self.load(v) if isinstance(v, Loc) else v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'UserDefinedConversion', 'ConstructorConversion', 'FunctionToPointerDecay', 'BaseToDerived', 'BuiltinFnToFnPtr', 'BitCast', 'LValueBitCast', 'Dependent', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            return self.ev(e)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(e)
            if isinstance(v, Loc): return It(v, 0)
            return v
        if ck == 'NullToPointer': return Ptr(None)
        if ck == 'ToVoid': self.ev(e); return VOID
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'): return self.tobool(self.rv(e))
        if ck == 'IntegralCast':
            v = self.rv(e)
            return self.to_int_type(v, n['t'])
        if ck == 'IntegralToFloating':
            return self.as_sort(self.rv(e), z3.RealSort())
        if ck == 'FloatingToIntegral':
            v = self.rv(e)
            return self.to_int_type(z3.ToInt(v), n['t'])
        if ck == 'FloatingCast': return self.rv(e)
        raise Unsupported('cast ' + ck)
    def x_InitList(self, n):
        if n.get("lv") and len(n["s"]) == 1: return self.ev(n["s"][0])
        t = n['t']; P = self.P; k = P.kind(t)
        s = n.get('s') or []
        if len(s) == 1 and s[0].get('t') is not None and s[0]['t'] == t and k in ('rec', 'vec', 'map'): return self.rv(s[0])      # a prvalue of this very type
        if k == 'rec':
            d = {}; fs = P.fields(t)
            bases = [b for b in P.types[t].get('bases') or ()]
            ss = list(s)
            for b in bases:
                if P.types[b].get('fields') is None: continue
                v = self.rv(ss.pop(0)); d.update(v.d)
            own = [(f['n'], f['t'], f) for f in P.types[t].get('fields') or ()]
            for (fn, ft, fi), e in zip(own, ss): d[fn] = self.bindfield(e, ft)
            for fn, ft, fi in own[len(ss):]: d[fn] = self.field_default(fi)
            return Rec(t, d)
        if k == 'tup':
            es = P.tupelems(t)
            if len(s) == 1 and P.kind(s[0]['t']) == 'tup' and len(es) != 1 or (len(s) == 1 and s[0]['k'] == 'InitList' and P.types[t]['k'] == 'r' and P.rname(t) == 'std::array'):
                s = s[0]['s'] if s[0]['k'] == 'InitList' else s
                if s and s[0]['k'] != 'InitList' and len(s) == 1 and P.kind(s[0]['t']) == 'tup': return self.rv(s[0])
            xs = [self.rv(e) for e in s]
            for e in es[len(xs):]: xs.append(self.zero(e))
            return Tup(xs)
        if k == 'ptr': return self.rv(s[0]) if s else Ptr(None)
        if len(s) == 1: return self.rv(s[0])
        if not s: return self.zero(t)
        if k == 'opaque' and (P.rname(t) or '').startswith('CGAL::'): return Obj(P.rname(t))
        raise Unsupported('initializer list for %s' % self.tname(t))
    def bindfield(self, e, ft):
        if self.P.isref(ft):
            v = self.ev(e)
            return v if isinstance(v, Loc) else self.new_root(v, e['t'])
        return self.rv(e)
    def x_StdInit(self, n):
        e = n['e']
        v = self.ev(e)
        if isinstance(v, Loc): v = self.load(v)
        return PyVec(v.xs) if isinstance(v, Tup) else v
    def x_Lambda(self, n):
        env = {}; this = None
        fr = self.frames[-1]
        for c in n['caps']:
            if c.get('this'): this = fr.this; continue
            d = c['d']
            if c.get('init') is not None:
                v = self.ev(c['init'])
                env[d] = v if (c.get('byref') and isinstance(v, Loc)) else self.new_root(self.load(v) if isinstance(v, Loc) else v, c['init']['t'])
            elif c.get('byref'): env[d] = fr.env[d]
            else: env[d] = self.new_root(self.load(fr.env[d]), self.rtype.get(fr.env[d].root) if not fr.env[d].path else None)
        return Closure(n['op'], env, this)
    def x_Throw(self, n):
        if n.get('e') is None:
            raise CxxThrow(*self.g['exc'])
        e = n['e']
        v = None
        try: v = self.rv(e)
        except Unsupported: pass
        raise CxxThrow(self.P.rname(e['t']) or 'int', v, self.where())
    def x_New(self, n): raise Unsupported('new expression')
    def x_Unsup(self, n):
        raise Unsupported('%s at line %s' % (n.get('n'), n.get('l')))

    def x_Ctor(self, n):
        t = n['t']; args = n.get('args') or []
        if n.get('cm') == 'copy' or n.get('cm') == 'move':
            f = self.P.funcs[n['fn']]
            if f.get('body') is None or f.get('defaulted') or f.get('implicit'):
                a = self.ev(args[0])
                if n['cm'] == 'move' and isinstance(a, Loc): return self.move_from(a)
                return self.load(a) if isinstance(a, Loc) else a
        return self.construct(n['fn'], t, args, n)
    def move_from(self, l):
        """value at l, leaving l in its moved-from state (sequences and owners become empty)"""
        v = self.load(l)
        def moved(v):
            if isinstance(v, Vec): return Vec(v.et, 0, v.arrs, 0)
            if isinstance(v, PyVec): return PyVec([])
            if isinstance(v, Ptr) : return v
            if isinstance(v, Rec): return Rec(v.t, {k: moved(x) if not self.is_plainptr(v.t, k) else x for k, x in v.d.items()})
            if isinstance(v, Tup): return Tup([moved(x) for x in v.xs])
            if isinstance(v, MapV): return self.empty_map_like(v)
            return v
        if isinstance(v, Ptr) and self.loc_type_is_uptr(l): self.store(l, Ptr(None)); return v
        nv = moved(v)
        if not t_eq(nv, v): self.store(l, nv)
        return v
    def is_plainptr(self, t, k): return False
    def loc_type_is_uptr(self, l):
        t = self.loc_type(l)
        return t is not None and self.P.kind(t) == 'uptr'
    def loc_type(self, l):
        t = self.rtype.get(l.root)
        P = self.P
        for s in l.path:
            if t is None: return None
            t = P.deref(t)
            if isinstance(s, str):
                t = next((ft for n, ft, _ in P.fields(t) if n == s), None) if P.kind(t) == 'rec' else None
            elif s[0] == 'i': t = P.elem(t) if P.kind(t) == 'vec' else (P.tupelems(t)[0] if P.kind(t) == 'tup' else None)
            elif s[0] == 't': t = P.tupelems(t)[s[1]]
            elif s[0] == 'o': t = P.elem(t)
            elif s[0] == 'm': t = P.targ(t, 1)
        return t
    def empty_map(self, t):
        P = self.P; ks = self.key_sort(P.elem(t)); s = P.isset(t)
        return MapV(P.elem(t), None if s else P.targ(t, 1), z3.K(ks, z3.BoolVal(False)),
                    [] if s else [self.fresh(z3.ArraySort(ks, x), 'emap') for x in self.leaf_sorts(P.targ(t, 1))], 0)
    def empty_map_like(self, v):
        return MapV(v.kt, v.vt, z3.K(v.dom.sort().domain(), z3.BoolVal(False)), v.arrs, 0)

    def zero(self, t):
        """value-initialised object"""
        P = self.P; k = P.kind(t)
        if k in ('int', 'b8'): return 0
        if k == 'bool': return False
        if k == 'real': return z3.RealVal(0)
        if k == 'tup': return Tup([self.zero(e) for e in P.tupelems(t)])
        return self.default(t, True)
    def default(self, t, zero=False):
        """default-initialised object"""
        P = self.P; k = P.kind(t)
        if k in ('int', 'b8', 'bool', 'real'): return self.zero(t) if zero else self.fresh_of(t, 'uninit')
        if k == 'tup': return Tup([self.default(e, zero or P.rname(t) in ('std::pair', 'std::tuple')) for e in P.tupelems(t)])
        if k == 'vec': return self.empty_vec(P.elem(t))
        if k == 'map': return self.empty_map(t)
        if k == 'opt':
            return Opt(False, self.fresh_of_or_none(P.elem(t)))
        if k in ('ptr', 'uptr'): return Ptr(None) if (zero or k == 'uptr') else self.fresh_of(t, 'uninit')
        if k == 'rec':
            c = self.default_ctor(t)
            if c is not None and c.get('body') is not None and not c.get('defaulted'):
                return self.construct(c['id'], t, [], {})
            d = {}
            for n, ft, fi in P.fields(t): d[n] = self.field_default(fi, zero)
            return Rec(t, d)
        if k in ('it', 'range'): return It(None, None)
        if k == 'opaque':
            m = self.lib.get('default:' + (P.rname(t) or ''))
            if m: return m(self, t)
            nn = P.rname(t)
            if nn in OBJ_TYPES or nn in self.opts.get('objtypes', {}): return Obj(nn)
            return z3.Const('default:' + (nn or '?'), self.opaque_sort(t)) if self.opaque_sort(t).kind() != z3.Z3_REAL_SORT else z3.RealVal(0)
        raise Unsupported('default value of %s' % self.tname(t))
    def fresh_of_or_none(self, t):
        try: return self.fresh_of(t, 'optval')
        except Unsupported: return Obj('uninit')
    def field_default(self, fi, zero=False):
        if fi.get('init') is not None:
            return self.init_val(fi['init'], fi['t'])
        return self.default(fi['t'], zero)
    def init_val(self, e, t):
        fr = None
        if not self.frames:
            self.frames.append(Frame(None, {}, None)); fr = True
        try: return self.rv(e)
        finally:
            if fr: self.frames.pop()
    def default_ctor(self, t):
        key = ('dc', t)
        r = self.P._sorts.get(key, 0)
        if r == 0:
            r = None
            for f in self.P.funcs:
                if f.get('ctor') and f.get('rec') == t and f.get('defctor'): r = f; break
            self.P._sorts[key] = r
        return r

    def construct(self, fid, t, args, n):
        f = self.P.funcs[fid]
        nn = f['nn']
        m = self.contracts.get(nn)
        if m is None and (f.get('body') is None or f.get('defaulted')):
            m = self.lib.get(nn)
            if m is None and self.P.kind(t) == 'rec':
                # defaulted constructor of one of our own records
                if not args: return self.default(t, n.get('zero', False)) if not (f.get('body') and not f.get('defaulted')) else None
                if f.get('cm'):
                    a = self.ev(args[0])
                    return self.load(a) if isinstance(a, Loc) else a
            if m is None:
                k = self.P.kind(t)
                m = self.lib.get('ctor:' + k)
            if m is None: raise Unsupported('constructor ' + f['n'])
        if m is not None:
            self.note_call(f, m)
            vals = [self.ev(a) for a in args]
            r = m(self, f, t, vals, n)
            return r
        vals = self.eval_args(f, args)
        return self.run_ctor(f, t, vals, n)
    def run_ctor(self, f, t, vals, n=None):
        loc = self.new_root(None, t)
        self.construct_at(loc, f, t, vals)
        return self.mem[loc.root]
    def construct_at(self, loc, f, t, vals):
        P = self.P
        d = {}
        if loc.path: raise Unsupported('in-place construction')
        self.mem[loc.root] = Rec(t, d)
        fr = Frame(f, {}, loc)
        self.bind_params(f, vals, fr.env)
        self.note_inline(f)
        self.frames.append(fr); self.depth += 1
        try:
            inits = f.get('inits') or []
            own = [x['n'] for x in P.types[t].get('fields') or ()]
            names = True
            for i in inits:
                if i.get('deleg'):
                    v = self.rv(i['e']); self.mem[loc.root] = v; d = None
                    names = None
                elif i.get('base') is not None and i.get('f') is None:
                    if i.get('e') is None: continue
                    bt = i['base'] if isinstance(i['base'], int) else None
                    if P.types[i['e']['t']].get('fields') is None: 
                        continue
                    v = self.rv(i['e'])
                    cur = self.mem[loc.root]
                    nd = dict(cur.d); nd.update(v.d); self.mem[loc.root] = Rec(t, nd)
                elif i.get('f') is not None:
                    fname = own[i['f']]
                    ft = P.types[t]['fields'][i['f']]['t']
                    v = self.bindfield(i['e'], ft) if i.get('e') is not None else self.default(ft)
                    cur = self.mem[loc.root]
                    nd = dict(cur.d); nd[fname] = v; self.mem[loc.root] = Rec(t, nd)
            if names is not None:
                for fn, ft, fi in P.fields(t):
                    if fn not in self.mem[loc.root].d:
                        cur = self.mem[loc.root]
                        nd = dict(cur.d); nd[fn] = self.field_default(fi); self.mem[loc.root] = Rec(t, nd)
            if f.get('body') is not None:
                try: self.st(f['body'])
                except Ret: pass
        finally:
            self.frames.pop(); self.depth -= 1

    # ---------------------------------------------------------------- calls
    def eval_args(self, f, args):
        vals = []
        for i, a in enumerate(args):
            pt = f['p'][i]['t'] if i < len(f['p']) else None
            v = self.ev(a)
            if pt is not None and self.P.isref(pt):
                if not isinstance(v, Loc): v = self.new_root(v, a['t'])
            else:
                if isinstance(v, Loc) and a.get('lv'): v = self.load(v)
            vals.append(v)
        return vals
    def bind_params(self, f, vals, env):
        if len(vals) < len(f['p']): raise Unsupported('missing arguments for ' + f['n'])
        for p, v in zip(f['p'], vals):
            if self.P.isref(p['t']):
                env[p['d']] = v if isinstance(v, Loc) else self.new_root(v, self.P.deref(p['t']))
            else:
                if isinstance(v, Loc): v = self.load(v)
                env[p['d']] = self.new_root(v, p['t'])
    def note_inline(self, f): self.inlined[f['id']] = self.inlined.get(f['id'], 0) + 1
    def note_call(self, f, m):
        d = self.libused if m is self.lib.get(f['nn']) else self.contracted
        d[f['nn']] = d.get(f['nn'], 0) + 1

    def call(self, f, this=None, vals=(), closure=None):
        """call with evaluated arguments (Locs for references, values otherwise)"""
        if isinstance(f, int): f = self.P.funcs[f]
        m = self.contracts.get(f['nn']) if closure is None else None
        if m is not None and not getattr(self, '_skip', None) == f['nn']:
            self.note_call(f, m)
            return m(self, f, this, list(vals))
        if f.get('body') is None or (self.lib.get('force:' + f['nn'])):
            m = self.lib.get('force:' + f['nn']) or self.lib.get(f['nn'])
            if m is None and f.get('defaulted') and f.get('assign'):
                a = vals[0]
                v = self.load(a) if isinstance(a, Loc) else a
                if f.get('assign') == 'move' and isinstance(a, Loc): v = self.move_from(a)
                self.store(this, v); return this
            if m is None: raise Unsupported('call of ' + f['n'])
            self.note_call(f, m)
            return m(self, f, this, list(vals))
        if f.get('assign') and this is not None and closure is None:
            a = vals[0]; v = self.glance(a) if isinstance(a, Loc) else a
            if isinstance(v, It):       # a position given by a contract instead of an iterator record: assigned as a whole
                self.store(this, self.load(a) if isinstance(a, Loc) else a); return this
        return self.inline(f, this, vals, closure)
    def inline(self, f, this, vals, closure=None):
        if self.depth > 60: raise Unsupported('recursion without contract: ' + f['n'])
        if sum(1 for fr in self.frames if fr.fn is f) > self.opts.get('recursion', 2): raise Unsupported('recursion without contract: ' + f['n'])
        fr = Frame(f, {}, this)
        if closure is not None:
            fr.env.update(closure.env); fr.this = closure.this
        self.bind_params(f, vals, fr.env)
        self.note_inline(f)
        if self.mergeable(f) and len(self.frames) > 0:
            def th():
                self.frames.append(fr); self.depth += 1
                env0 = dict(fr.env)
                try:
                    try: self.st(f['body'])
                    except Ret as r: return r.v
                    raise Unsupported('no return value')
                finally:
                    self.frames.pop(); self.depth -= 1; fr.env = env0
            r = self.try_merge(th)
            if r is not None: return r[0]
        self.frames.append(fr); self.depth += 1
        self.hist.append('%s' % (f['nn'].split('::')[-1] if 'lambda' not in f['nn'] else 'lambda'))
        hl = len(self.hist)
        try:
            try: self.st(f['body'])
            except Ret as r: return r.v
            return VOID
        finally:
            del self.hist[hl - 1:]
            self.frames.pop(); self.depth -= 1
    def mergeable(self, f):
        r = f.get('_mg')
        if r is None:
            k = self.P.kind(f['ret']) if f.get('ret') is not None and f['ret'] >= 0 else '?'
            r = k in ('bool', 'b8', 'int') and not has_loop(f['body']) and has_branch(f['body'])
            f['_mg'] = r
        return r and self.opts.get('merge', True)
    def call_closure(self, c, vals):
        """call a callable value: lambda closure, function reference or functor object"""
        if isinstance(c, Loc): 
            cv = self.load(c)
            if not isinstance(cv, (Closure, FnRef)) : return self.call_functor(c, cv, vals)
            c = cv
        if isinstance(c, Closure): return self.call(self.lambda_instance(c, vals), c.this, vals, closure=c)
        if isinstance(c, FnRef): return self.call(self.P.funcs[c.fn], None, vals)
        return self.call_functor(self.new_root(c), c, vals)
    def lambda_instance(self, c, vals):
        """the instantiation of a generic lambda that takes these arguments"""
        f = self.P.funcs[c.op]
        if not f.get('dep'): return f
        cs = [g for g in self.P.byrec(f['rec']) if not g.get('dep') and g.get('body') is not None and g['nn'].endswith('operator()') and len(g['p']) == len(vals)]
        if len(cs) > 1:
            def fits(g):
                for p, v in zip(g['p'], vals):
                    t = self.P.deref(p['t'])
                    if isinstance(v, Loc):
                        vt = self.loc_type(v) if hasattr(self, 'loc_type') else self.rtype.get(v.root)
                        if vt is None: vt = getattr(self.load(v), 't', None)
                    else: vt = getattr(v, 't', None)
                    if vt is not None and vt != t and self.P.deref(vt) != t: return False
                return True
            cs2 = [g for g in cs if fits(g)]
            cs = cs2 or cs
        if not cs: raise Unsupported('no instantiation of the generic lambda ' + f['n'])
        if len(cs) > 1: raise Unsupported('ambiguous instantiation of the generic lambda ' + f['n'])
        return cs[0]
    def call_functor(self, loc, v, vals):
        if isinstance(v, Rec):
            rn = self.P.types[v.t]['nn']
            fs = [f for f in self.P.fns(rn + '::operator()') if f.get('rec') == v.t]
            if fs: return self.call(fs[0], loc, vals)
        if isinstance(v, Obj):
            m = self.lib.get('functor:' + v.kind)
            if m: return m(self, v, vals)
        raise Unsupported('call of %r' % (v,))

    def x_Call(self, n):
        if n.get('fn') is None:
            c = self.ev(n['callee'])
            if isinstance(c, Loc): c = self.load(c)
            if isinstance(c, Ptr): c = self.load(c.loc)
            vals = [self.ev(a) for a in n['args']]
            return self.call_closure(c, vals)
        f = self.P.funcs[n['fn']]
        raw = self.lib.get('raw:' + f['nn'])
        if raw is not None and f['nn'] not in self.contracts:
            return raw(self, f, n)
        vals = self.eval_args(f, n['args'])
        self.hist.append('L%s' % n['l'])
        try: r = self.call(f, None, vals)
        finally: self.hist.pop()
        return self.fixret(f, r, n)
    def fixret(self, f, r, n):
        if n.get('lv') and not isinstance(r, Loc): return self.new_root(r, n['t'])
        if not n.get('lv') and isinstance(r, Loc) and not self.P.isref(n['t']): return self.load(r)
        return r
    def x_MCall(self, n):
        f = self.P.funcs[n['fn']]
        o = self.ev(n['obj'])
        if n['arrow']:
            if isinstance(o, Loc): o = self.load(o)
            o = self.resolve(o)
        elif not isinstance(o, Loc): o = self.new_root(o, n['obj']['t'])
        vals = self.eval_args(f, n.get('args') or [])
        self.hist.append('L%s' % n['l'])
        try: r = self.call(f, o, vals)
        finally: self.hist.pop()
        return self.fixret(f, r, n)
    def x_OpCall(self, n):
        f = self.P.funcs[n['fn']]
        args = n['args']
        if n['op'] == '()':
            o = self.ev(args[0])
            if isinstance(o, Loc): ov = self.load(o)
            else: ov = o
            if isinstance(ov, Closure):
                fo = self.P.funcs[ov.op]
                # generic lambdas have several instantiations: the call names the right one
                fo = f if f.get('body') is not None and f.get('lambda') is not None and f['id'] != fo['id'] else fo
                vals = self.eval_args(fo, args[1:])
                self.hist.append('L%s' % n['l'])
                try: r = self.call(fo, ov.this, vals, closure=ov)
                finally: self.hist.pop()
                return self.fixret(fo, r, n)
            if not isinstance(o, Loc): o = self.new_root(ov, args[0]['t'])
            vals = self.eval_args(f, args[1:])
            self.hist.append('L%s' % n['l'])
            try: r = self.call(f, o, vals)
            finally: self.hist.pop()
            return self.fixret(f, r, n)
        if n['m']:
            # assignment operators evaluate the right operand first
            if n['op'] == '=':
                vals = self.eval_args(f, args[1:]); o = self.ev(args[0])
            else:
                o = self.ev(args[0]); vals = self.eval_args(f, args[1:])
            if not isinstance(o, Loc): o = self.new_root(o, args[0]['t'])
            self.hist.append('L%s' % n['l'])
            try: r = self.call(f, o, vals)
            finally: self.hist.pop()
        else:
            vals = self.eval_args(f, args)
            self.hist.append('L%s' % n['l'])
            try: r = self.call(f, None, vals)
            finally: self.hist.pop()
        return self.fixret(f, r, n)

    # ---------------------------------------------------------------- statements
    def st(self, s):
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is not None: return m(s)
        self.ev(s)
    def s_Block(self, s):
        h = self.opts.get('scope_end')           # {type name: what the end of its scope does}
        if not h:
            for x in s['s']: self.st(x)
            return
        env = self.frames[-1].env; live = []
        def leave():
            while live:
                v = live.pop(); l = env.pop(v['d'], None)
                if isinstance(l, Loc): h[self.P.rname(v['t'])](self, l)
        try:
            for x in s['s']:
                if x['k'] == 'Decls':
                    for v in x['s']:
                        if v['k'] == 'Var':
                            self.s_Var(v)
                            if not self.P.isref(v['t']) and self.P.rname(v['t']) in h: live.append(v)
                else: self.st(x)
        except (Ret, Brk, Cont, CxxThrow): leave(); raise
        leave()
    def s_Null(self, s): pass
    def s_Decls(self, s):
        for v in s['s']:
            if v['k'] == 'Var': self.s_Var(v)
    def s_Var(self, v):
        env = self.frames[-1].env
        t = v['t']; P = self.P
        if v.get('tls') or v.get('static'):
            h = self.opts.get('tls')
            key = ('tls', v['d'])
            if key in self.tls: env[v['d']] = self.tls[key]; return
            if h is not None:
                l = h(self, v)
                if l is not None:
                    self.tls[key] = l; env[v['d']] = l; return
            # first execution in this thread, or a later one with arbitrary left-over contents
            if v.get('static') and P.types[t]['k'] != 'r' : pass
            if self.choose(2) == 0:
                l = self.new_root(self.rv(v['init']) if v.get('init') is not None else self.default(t, True), t)
            else:
                l = self.new_root(self.havoc_type(t, v['n']), t)
            self.tls[key] = l; env[v['d']] = l
            return
        init = v.get('init')
        if P.isref(t):
            x = self.ev(init)
            if not isinstance(x, Loc): x = self.new_root(x, init['t'])
            env[v['d']] = x
        else:
            if init is None: x = self.default(t)
            else:
                if init['k'] == 'Ctor' and not init.get('cm') and P.kind(t) == 'rec' and P.kind(init['t']) == 'rec':
                    f = P.funcs[init['fn']]
                    if f.get('body') is not None and not f.get('defaulted') and f['nn'] not in self.contracts:
                        vals = self.eval_args(f, init['args'])
                        l = self.new_root(None, t)
                        self.construct_at(l, f, t, vals)
                        env[v['d']] = l
                        self.bindings(v, env); return
                x = self.rv(init)
                if isinstance(x, PyVec) and P.kind(t) == 'vec' and P.rname(t) != 'std::initializer_list':
                    try: x = self.pyvec_to_vec(x, P.elem(t))
                    except Unsupported: pass
            env[v['d']] = self.new_root(x, t)
        self.bindings(v, env)
    def bindings(self, v, env):
        for b in v.get('binds') or ():
            if b.get('hv'):
                hv = b['hv']
                self.s_Var(hv)
                env[b['d']] = env[hv['d']]
            else:
                x = self.ev(b['e'])
                env[b['d']] = x if isinstance(x, Loc) else self.new_root(x, b['e']['t'])
    def havoc_type(self, t, name):
        """arbitrary left-over contents of a variable; references inside designate unknown objects"""
        P = self.P; k = P.kind(t)
        if k == 'rec':
            d = {}
            for n, ft, _ in P.fields(t):
                if P.isref(ft): d[n] = self.new_root(self.havoc_type(P.deref(ft), name + '.*' + n), P.deref(ft))
                else: d[n] = self.havoc_type(ft, name + '.' + n)
            return Rec(t, d)
        return self.fresh_of(t, name)

    def s_If(self, s):
        if s.get('init'): self.st(s['init'])
        if s.get('cv'): self.st(s['cv'])
        if s.get('cx'):
            c = self.rv(s['c'])
            if self.tobool(c) is True: self.st(s['a'])
            elif s.get('b'): self.st(s['b'])
            return
        if self.branch(self.rv(s['c'])): self.st(s['a'])
        elif s.get('b'): self.st(s['b'])
    def s_Return(self, s):
        if s.get('e') is None: raise Ret(VOID)
        f = self.frames[-1].fn
        e = s['e']
        if f is not None and f.get('ret') is not None and f['ret'] >= 0 and self.P.isref(f['ret']):
            v = self.ev(e)
            if not isinstance(v, Loc): v = self.new_root(v, e['t'])
            raise Ret(v)
        raise Ret(self.rv(e))
    def s_Break(self, s): raise Brk()
    def s_Continue(self, s): raise Cont()
    def s_Switch(self, s):
        if s.get('init'): self.st(s['init'])
        if s.get('cv'): self.st(s['cv'])
        v = self.rv(s['c'])
        body = s['body']['s'] if s['body']['k'] == 'Block' else [s['body']]
        groups = []; stmts = []; default = None
        for x in body:
            labels = []
            while x is not None and x['k'] in ('Case', 'Default'):
                labels.append(self.rv(x['v']) if x['k'] == 'Case' else None)
                x = x.get('s')
            if labels:
                groups.append((len(stmts), [l for l in labels if l is not None]))
                if None in labels: default = len(stmts)
            if x is not None: stmts.append(x)
        start = default
        for at, ls in groups:
            if not ls: continue
            if default == at: continue
            if self.branch(Or(*[eq(v, l) for l in ls])): start = at; break
        if start is None: return
        try:
            for x in stmts[start:]: self.st(x)
        except Brk: pass
    def s_Try(self, s):
        try: self.st(s['body'])
        except CxxThrow as e:
            depth_frames = None
            for h in s['h']:
                if h.get('t') is None or h['t'] < 0 or self.catches(self.P.deref(h['t']), e.ty):
                    old = self.g.get('exc')
                    self.g['exc'] = (e.ty, e.v, e.where)
                    if h.get('var'):
                        self.frames[-1].env[h['var']['d']] = self.new_root(e.v if e.v is not None else Obj('exc'), h['t'])
                    try: self.st(h['body'])
                    finally:
                        if old is None: self.g.pop('exc', None)
                        else: self.g['exc'] = old
                    return
            raise
    def catches(self, t, ty):
        nn = self.P.rname(t)
        if nn == ty: return True
        if nn == 'std::exception': return True
        std = {'std::out_of_range': ['std::logic_error'], 'std::invalid_argument': ['std::logic_error'], 'std::runtime_error': []}
        if nn in std.get(ty, []): return True
        for x in self.P.types:
            if x['k'] == 'r' and x.get('nn') == ty: return self.P.isbase(x['id'], nn)
        return False

    # loops ------------------------------------------------------------
    def s_For(self, s):
        if s.get('init'): self.st(s['init'])
        self.loop(s, lambda: self.tobool(self.rv(s['c'])) if s.get('c') else True, lambda: self.st(s['body']),
                  (lambda: self.st(s['inc'])) if s.get('inc') else None)
    def s_While(self, s):
        def cond():
            if s.get('cv'): self.st(s['cv'])
            return self.tobool(self.rv(s['c']))
        self.loop(s, cond, lambda: self.st(s['body']), None)
    def s_Do(self, s):
        def once():
            try: self.st(s['body'])
            except Cont: pass
            except Brk: return False
            return self.tobool(self.rv(s['c']))
        if self.invs and self.unroll_bound(self.frames[-1].fn, s) is None and self.memo(lambda: self.peek_cond(once)) is None:
            def body():
                try: self.st(s['body'])
                except Cont: pass
                if not self.branch(self.tobool(self.rv(s['c']))): raise Brk()
            return self.inv_loop(s, lambda: True, body, None)       # the head of the body is where the invariant holds
        try:
            self.st(s['body'])
        except Cont: pass
        except Brk: return
        self.loop(s, lambda: self.tobool(self.rv(s['c'])), lambda: self.st(s['body']), None)
    def s_ForRange(self, s):
        if s.get('init'): self.st(s['init'])
        self.st(s['range']); self.st(s['begin']); self.st(s['end'])
        def body():
            self.st(s['var']); self.st(s['body'])
        self.loop(s, lambda: self.tobool(self.rv(s['c'])), body, lambda: self.st(s['inc']))

    def loop(self, s, cond, body, inc):
        fn = self.frames[-1].fn
        mx = self.unroll_bound(fn, s)
        n = 0
        if mx is None and self.invs and (s.get('c') is None and s['k'] == 'For' and body is not None and s.get('body') is not None or (s.get('c') or {}).get('v') is True):
            return self.inv_loop(s, cond, body, inc)     # left by break or return only: not unrolled
        while True:
            if mx is None:
                conc_c = self.memo(lambda: self.peek_cond(cond))
                if conc_c is None: break
            if mx is not None and n > mx:
                self.oblige('loop leaves within %d iterations' % mx, False); raise PathEnd()
            if n > 600: raise Unsupported('loop unrolled too often')
            if not self.branch(cond()): return
            n += 1
            try: body()
            except Cont: pass
            except Brk: return
            if inc: inc()
        self.inv_loop(s, cond, body, inc)
    def unroll_bound(self, fn, s):
        u = self.unroll
        nm = fn['nn'] if fn else ''
        for k, v in u.items():
            if (callable(k) and k(fn, s)) or (isinstance(k, str) and nm.endswith(k)): return v
        return None
    def peek_cond(self, cond):
        """True/False when the condition is concrete here, None when symbolic"""
        self.mute += 1
        old = self.oblige
        try:
            outs = self.explore(cond, keep=False, limit=50)
        finally: self.mute -= 1
        vs = set()
        for k, v, _ in outs:
            if k != 'ret' or type(v) is not bool: return None
            vs.add(v)
        return vs.pop() if len(vs) == 1 else None

    def walk(self, v, t):
        """[(key, kind, term)] of every scalar leaf of a value, by dynamic structure"""
        out = []
        def go(v, t, key):
            if isinstance(v, Rec):
                ft = {n: x for n, x, _ in self.P.fields(v.t)}
                for k, x in v.d.items(): go(x, ft.get(k), key + (k,))
            elif isinstance(v, Tup):
                es = self.P.tupelems(t) if t is not None and self.P.kind(t) == 'tup' else [None] * len(v.xs)
                for i, x in enumerate(v.xs): go(x, es[i] if i < len(es) else None, key + (i,))
            elif isinstance(v, PyVec):
                for i, x in enumerate(v.xs): go(x, None, key + (i,))
                out.append((key + ('len',), 'meta', len(v.xs)))
            elif isinstance(v, Vec):
                out.append((key + ('n',), 'n', v.n)); out.append((key + ('lo',), 'n', v.lo))
                for i, a in enumerate(v.arrs): out.append((key + ('a%d' % i,), 'arr', a))
            elif isinstance(v, MapV):
                out.append((key + ('dom',), 'arr', v.dom)); out.append((key + ('size',), 'n', v.size))
                for i, a in enumerate(v.arrs): out.append((key + ('a%d' % i,), 'arr', a))
            elif isinstance(v, Opt):
                out.append((key + ('has',), 'bool', v.has)); go(v.val, self.P.elem(t) if t is not None and self.P.kind(t) == 'opt' else None, key + ('val',))
            elif isinstance(v, It):
                out.append((key + ('itloc',), 'meta', v.loc)); out.append((key + ('idx',), 'it', v.idx))
            elif isinstance(v, MapIt):
                out.append((key + ('miloc',), 'meta', v.loc)); out.append((key + ('mikey',), 'term', v.key)); out.append((key + ('mivalid',), 'bool', v.valid)); out.append((key + ('mipos',), 'it', v.pos))
            elif isinstance(v, Ptr):
                if isinstance(v.loc, SymLoc) or (v.loc is not None and t is not None and self.P.kind(t) == 'ptr'):
                    a, b = self.ptr_leaves(v)
                    out.append((key + ('rid',), 'it', a)); out.append((key + ('idx',), 'it', b))
                else:
                    out.append((key + ('ploc',), 'meta', v.loc)); out.append((key + ('phas',), 'bool', v.has))
            elif isinstance(v, Obj):
                for k, x in v.d.items(): go(x, None, key + (k,))
            elif isinstance(v, (Val, Loc)) or v is None:
                out.append((key, 'meta', v))
            else:
                out.append((key, ('scalar', t), v))
        go(v, t, ())
        return out
    def rebuild(self, v, new, t=None):
        def go(v, t, key):
            if isinstance(v, Rec):
                ft = {n: x for n, x, _ in self.P.fields(v.t)}
                return Rec(v.t, {k: go(x, ft.get(k), key + (k,)) for k, x in v.d.items()})
            if isinstance(v, Tup):
                es = self.P.tupelems(t) if t is not None and self.P.kind(t) == 'tup' else [None] * len(v.xs)
                return Tup([go(x, es[i] if i < len(es) else None, key + (i,)) for i, x in enumerate(v.xs)])
            if isinstance(v, PyVec): return PyVec([go(x, None, key + (i,)) for i, x in enumerate(v.xs)])
            if isinstance(v, Vec):
                return Vec(v.et, new.get(key + ('n',), v.n), [new.get(key + ('a%d' % i,), a) for i, a in enumerate(v.arrs)], new.get(key + ('lo',), v.lo))
            if isinstance(v, MapV):
                return MapV(v.kt, v.vt, new.get(key + ('dom',), v.dom), [new.get(key + ('a%d' % i,), a) for i, a in enumerate(v.arrs)], new.get(key + ('size',), v.size))
            if isinstance(v, Opt): return Opt(new.get(key + ('has',), v.has), go(v.val, self.P.elem(t) if t is not None and self.P.kind(t) == 'opt' else None, key + ('val',)))
            if isinstance(v, It): return It(v.loc, new.get(key + ('idx',), v.idx))
            if isinstance(v, MapIt): return MapIt(v.loc, new.get(key + ('mikey',), v.key), new.get(key + ('mivalid',), v.valid), new.get(key + ('mipos',), v.pos))
            if isinstance(v, Ptr):
                if key + ('rid',) in new or key + ('idx',) in new:
                    a, b = self.ptr_leaves(v)
                    return self.mk_ptr(new.get(key + ('rid',), a), new.get(key + ('idx',), b))
                return Ptr(v.loc, new.get(key + ('phas',), v.has))
            if isinstance(v, Obj): return v.upd(**{k: go(x, None, key + (k,)) for k, x in v.d.items()})
            if isinstance(v, (Val, Loc)) or v is None: return v
            return new.get(key, v)
        return go(v, t, ())

    def inv_loop(self, s, cond, body, inc):
        fn = self.frames[-1].fn
        key = self.loop_key(fn, s)
        entry = self.snap()
        mods, cands = self.memo(lambda: self.prep_loop(s, key, cond, body, inc))
        # initiation
        L = LoopCtx(self, key, entry, entry, 0, mods)
        for c in cands:
            self.oblige('loop invariant holds on entry [%s: %s]' % (key, c.name), c.eval(L))
        self.keptinv[key] = [c.name for c in cands]
        # arbitrary iteration
        k = self.fresh(z3.IntSort(), 'k')
        self.assume(k >= 0)
        H = self.havoc(entry, mods)
        cur = self.snap()
        L = LoopCtx(self, key, entry, cur, k, mods, H)
        for c in cands: c.assume_in(self, L)
        self.loop_facts(key, L)
        self.g['loopk'] = self.g.get('loopk', ()) + ((key, k),)
        if self.branch(cond()):
            try:
                body()
            except Cont: pass
            except Brk: return
            if inc: inc()
            L2 = LoopCtx(self, key, entry, self.snap(), k + 1, mods, H)
            self.loop_facts(key, L2)
            for c in cands:
                self.oblige('loop invariant preserved [%s: %s]' % (key, c.name), c.eval(L2))
            raise LoopEnd()
        return
    def loop_key(self, fn, s):
        nm = fn['nn'] if fn else '?'
        loops = self.fn_loops(fn)
        return '%s#%d' % (nm, loops.index(id(s)) if id(s) in loops else -1)
    def fn_loops(self, fn):
        r = fn.get('_loops')
        if r is None:
            r = []
            def go(n):
                if isinstance(n, dict):
                    if n.get('k') in ('For', 'While', 'Do', 'ForRange'): r.append(id(n))
                    for v in n.values():
                        if isinstance(v, (dict, list)): go(v)
                elif isinstance(n, list):
                    for x in n: go(x)
            go(fn['body']); fn['_loops'] = r
        return r
    def loop_facts(self, key, L):
        for f in self.opts.get('loop_facts', ()): 
            r = f(L)
            for x in (r or ()): self.assume(x)
    def havoc(self, entry, mods):
        """replace every modified leaf by a fresh constant; returns {(root,key): const}"""
        H = {}
        byroot = {}
        for (root, key), (kind, sort) in mods.items(): byroot.setdefault(root, []).append((key, kind, sort))
        for root, ks in byroot.items():
            new = {}
            for key, kind, sort in ks:
                c = self.fresh(sort, 'H%d_%s' % (root, '_'.join(map(str, key))))
                new[key] = c; H[(root, key)] = c
                if kind == 'n': self.assume(z3.And(c >= 0, c < 2**48))
                elif isinstance(kind, tuple) and kind[0] == 'scalar' and kind[1] is not None: self.type_fact(c, kind[1])
            self.mem[root] = self.rebuild(self.mem[root], new, self.rtype.get(root))
        return H

    def prep_loop(self, s, key, cond, body, inc):
        """modified locations by fixpoint, then Houdini pruning of the candidate invariants"""
        self.mute += 1
        old_fail = self.opts.get('stop_on_fail')
        try:
            entry = self.snap()
            mods = {}
            roots = set(entry[0])
            def iteration(cands):
                k = self.fresh(z3.IntSort(), 'k'); self.assume(k >= 0)
                H = self.havoc(entry, mods)
                start = dict(self.mem)
                cur = self.snap()
                L = LoopCtx(self, key, entry, cur, k, mods, H)
                for c in cands: c.assume_in(self, L)
                self.loop_facts(key, L)
                self.g['loopk'] = self.g.get('loopk', ()) + ((key, k),)
                c = self.branch(cond())
                if not c: return ('exit', None, None, None, None)
                try: body()
                except Cont: pass
                except Brk: return ('brk', start, None, None, None)
                if inc: inc()
                return ('iter', start, k, H, c)
            T0 = time.time(); tm = []
            # 1. modified leaves
            cands = []
            for _ in range(12):
                self.modsonly += 1
                try: outs = self.explore(lambda: iteration([]))
                finally: self.modsonly -= 1
                grew = False
                for kind, v, sn in outs:
                    if kind != 'ret' or v[0] != 'iter': continue
                    start = v[1]
                    for r in roots:
                        a, b = start.get(r), sn[0].get(r)
                        if a is b or t_eq(a, b): continue
                        t = self.rtype.get(r)
                        wa = {x[0]: x for x in self.walk(a, t)}; wb = {x[0]: x for x in self.walk(b, t)}
                        if wa.keys() != wb.keys(): raise Unsupported('object changes shape inside loop %s' % key)
                        for kk in wa:
                            if t_eq(wa[kk][2], wb[kk][2]): continue
                            kd = wa[kk][1]
                            if kd == 'meta': raise Unsupported('loop %s rebinds an object' % key)
                            if (r, kk) not in mods:
                                mods[(r, kk)] = (kd, self.leaf_sort(kd, wa[kk][2], wb[kk][2])); grew = True
                    for ke in set(sn[8]) - set(entry[8]): pass
                if not grew: break
            else: raise Unsupported('modified set does not stabilise in loop %s' % key)
            tm.append(time.time() - T0)
            if self.modsonly: return mods, []
            # 2. candidates
            cands = self.candidates(key, s, entry, mods, cond)
            # prune on entry
            L = LoopCtx(self, key, entry, entry, 0, mods)
            self.restore(entry)
            why = {}
            def ent():
                i = self.choose(len(cands)) if len(cands) > 1 else 0
                c = cands[i]
                try: e = c.eval(L)
                except (SpecError, KeyError, AttributeError, IndexError, TypeError, z3.Z3Exception) as ex:
                    if self.opts.get('debug'): print('inv error', key, c.name, repr(ex))
                    why[i] = 'not applicable: %r' % (ex,); return
                if e is None: why[i] = None; return
                if e is not True:
                    t_ = time.time()
                    if self.prove_status(e, not c.spec, True)[0] != 'proved': why[i] = 'entry'
                    if self.opts.get('timing') and time.time() - t_ > 1: print('   entry', key, c.name, why.get(i), '%.1f' % (time.time() - t_))
            if cands:
                for r in self.pexplore(ent, lambda: list(why.items())): why.update(r)
            for i, w in why.items():
                if w is not None: self.pruned.append((key, cands[i].name, w))
            kept = [c for i, c in enumerate(cands) if i not in why]
            cands = kept
            tm.append(time.time() - T0)
            # prune on preservation
            self.loopdebug = (key, cands)
            while True:
                bad = set()
                def it2():
                    live = [c for c in cands if c not in bad]
                    r = iteration(live)
                    if r[0] == 'iter':
                        L2 = LoopCtx(self, key, entry, self.snap(), r[2] + 1, mods, r[3])
                        self.loop_facts(key, L2)
                        for c in live:
                            try: e = c.eval(L2)
                            except (SpecError, KeyError, AttributeError, IndexError, TypeError) as ex:
                                if self.opts.get('debug'): print('inv error after', key, c.name, repr(ex))
                                bad.add(c); continue
                            if e is True: continue
                            t_ = time.time(); ps = self.prove_status(e, not c.spec, True)[0]
                            if self.opts.get('timing') and time.time() - t_ > 1: print('   keep', key, c.name, ps, '%.1f' % (time.time() - t_))
                            if ps != 'proved':
                                bad.add(c)
                                if self.opts.get('debug'): print('  prune', key, c.name)
                    return None
                for ixs in self.pexplore(it2, lambda: [i for i, c in enumerate(cands) if c in bad]):
                    bad |= {cands[i] for i in ixs}
                tm.append(time.time() - T0)
                if not bad: break
                for c in bad: self.pruned.append((key, c.name, 'preservation'))
                cands = [c for c in cands if c not in bad]
            if self.opts.get('timing'): print('prep', key, ['%.1f' % x for x in tm])
            return mods, cands
        finally:
            self.mute -= 1
    def leaf_sort(self, kd, a, b):
        if isinstance(kd, tuple) and kd[1] is not None:
            k = self.P.kind(kd[1])
            if k in ('int', 'bool', 'b8', 'real', 'opaque'): return self.leaf_sorts(kd[1])[0]
        for x in (a, b):
            if is_sym(x): return x.sort()
        if type(a) is bool and type(b) is bool: return z3.BoolSort()
        if type(a) in (int, bool): return z3.IntSort()
        raise Unsupported('sort of modified leaf %r %r' % (a, b))

    def candidates(self, key, s, entry, mods, cond):
        out = []
        # condition atoms evaluated at an arbitrary state give bounds
        atoms = []
        def probe():
            H = self.havoc(entry, mods)
            c = cond()
            return (H, c)
        try: outs = self.explore(probe, keep=False, limit=20)
        except Unsupported: outs = []
        ints = [(m, kd) for m, (kd, so) in mods.items() if so.kind() == z3.Z3_INT_SORT]
        for (root, kk), kd in ints:
            e0 = {x[0]: x for x in self.walk(entry[0][root], entry[1].get(root))}.get(kk)
            if e0 is None: continue
            v0 = e0[2]
            nm = 'leaf %d.%s' % (root, '.'.join(map(str, kk)))
            def mk(root=root, kk=kk):
                return lambda L: L.leaf(root, kk)
            g = mk()
            out.append(Cand('%s == entry + k' % nm, lambda L, g=g, v0=v0: eq(g(L), add(v0, L.k))))
            out.append(Cand('%s == entry - k' % nm, lambda L, g=g, v0=v0: eq(g(L), sub(v0, L.k))))
            out.append(Cand('%s >= entry' % nm, lambda L, g=g, v0=v0: cmpi('>=', g(L), v0)))
            out.append(Cand('%s <= entry' % nm, lambda L, g=g, v0=v0: cmpi('<=', g(L), v0)))
        n = 0
        for k_, v, _ in outs:
            if k_ != 'ret' or not is_sym(v[1]): continue
            H, c = v
            inv = {h.get_id(): mk for mk, h in H.items()}
            for (l, r) in comparisons(c):
                n += 1
                if n > 24: break
                for nm, rel in (('<=', lambda a, b: a <= b), ('>=', lambda a, b: a >= b)):
                    out.append(Cand('bound %s %s %s' % (short(l), nm, short(r)), lambda L, l=l, r=r, rel=rel, H=H: L.subst(rel(l, r), H)))
        seen = set(); res = []
        for c in out:
            if c.name in seen: continue
            seen.add(c.name); res.append(c)
        for kx, fs in self.invs.items():
            if kx == key or kx == '*' or (kx.endswith('*') and key.startswith(kx[:-1])):
                for nm, f in fs: res.append(Cand(nm, f, True))
        for f in self.opts.get('inv_gen', ()):
            L = LoopCtx(self, key, entry, entry, 0, mods)
            for nm, g in (f(L) or ()): res.append(Cand(nm, g, True))
        return res

def short(e):
    s = str(e).replace('\n', ' ')
    return s if len(s) < 80 else s[:80] + '..'
def comparisons(e):
    """pairs (l, r) of integer comparisons inside a condition"""
    out = []; st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_eq(x) or z3.is_distinct(x) or z3.is_le(x) or z3.is_lt(x) or z3.is_ge(x) or z3.is_gt(x):
            l, r = x.arg(0), x.arg(1)
            if z3.is_int(l) and z3.is_int(r): out.append((l, r)); continue
        st.extend(x.children())
    return out

def has_loop(n):
    if isinstance(n, dict):
        if n.get('k') in ('For', 'While', 'Do', 'ForRange', 'Try', 'Throw'): return True
        return any(has_loop(v) for v in n.values() if isinstance(v, (dict, list)))
    if isinstance(n, list): return any(has_loop(x) for x in n)
    return False
def has_branch(n):
    if isinstance(n, dict):
        if n.get('k') in ('If', 'Switch'): return True
        return any(has_branch(v) for v in n.values() if isinstance(v, (dict, list)))
    if isinstance(n, list): return any(has_branch(x) for x in n)
    return False

class SymLoc:
    __slots__ = ('rid', 'idx')
    def __init__(self, rid, idx): self.rid = rid; self.idx = idx
    def __eq__(self, o): return isinstance(o, SymLoc) and t_eq(self.rid, o.rid) and t_eq(self.idx, o.idx)
    def __hash__(self): return 1
class SpecError(Exception): pass
class Timeout(Exception): pass
class Failed(Exception):
    def __init__(self, o): self.o = o

class Cand:
    __slots__ = ('name', 'fn', 'spec')
    def __init__(self, name, fn, spec=False): self.name = name; self.fn = fn; self.spec = spec
    def eval(self, L):
        r = self.fn(L)
        if isinstance(r, Quant): return r.formula(L.eng)
        if r is not None and is_sym(r) and not z3.is_bool(r): raise SpecError('not a boolean')
        return r
    def assume_in(self, eng, L):
        r = self.fn(L)
        if isinstance(r, Quant): r.assume(eng)
        elif r is not None: eng.assume(r)
class Quant:
    """forall j. fn(j), with trigger arrays for automatic instantiation on reads"""
    def __init__(self, fn, arrs=(), sorts=None, pats=None): self.fn = fn; self.arrs = arrs; self.sorts = sorts; self.pats = pats
    def formula(self, eng): return eng.forall(self.fn, (), self.sorts, assume=False, pats=self.pats)
    def assume(self, eng): eng.forall(self.fn, self.arrs, self.sorts, assume=True, pats=self.pats)

class LoopCtx:
    def __init__(self, eng, key, entry, cur, k, mods, H=None):
        self.eng = eng; self.key = key; self.entry = entry; self.cur = cur; self.k = k; self.mods = mods; self.H = H
    def leaf(self, root, kk, snap=None):
        s = snap or self.cur
        for x in self.eng.walk(s[0][root], s[1].get(root)):
            if x[0] == kk: return x[2]
        raise SpecError('leaf')
    def subst(self, e, H):
        """evaluate an expression over the havoc constants H in this state"""
        pairs = []
        for m, h in H.items():
            x = self.leaf(*m)
            x = self.eng.as_sort(x, h.sort())
            pairs.append((h, x))
        return sb(z3.substitute(e, *pairs))
    def env(self, snap):
        e = {}
        for f, env in snap[4]:
            pass
        return snap[4][-1][1]
    def _val(self, snap, loc):
        eng = self.eng
        v = snap[0][loc.root]
        for s in loc.path: v = eng.step_get(v, s)
        return v
    def vars(self, snap=None, frames=False):
        """live local variables [(name, type, Loc)] of the current frame, or of all callers too (each object once, the innermost name)"""
        snap = snap or self.cur
        out = []; seen = set()
        for f, env in reversed(snap[4] if frames else snap[4][-1:]):
            names = var_names(self.eng, f.fn)
            for d, l in env.items():
                if frames and isinstance(l, Loc):
                    k = (l.root, tuple(map(str, l.path)))
                    if k in seen: continue
                    seen.add(k)
                out.append((names.get(d, ('?', None))[0], names.get(d, ('?', None))[1], l))
        return out
    def loc(self, name=None, type=None, snap=None):
        """a local variable: by type when unique, else by name"""
        vs = self.vars(snap)
        P = self.eng.P
        if type is not None:
            c = [v for v in vs if v[1] is not None and (P.rname(P.deref(v[1])) == type if isinstance(type, str) else type(P, P.deref(v[1])))]
            if len(c) == 1: return c[0][2]
            if name:
                c2 = [v for v in c if v[0] == name]
                if c2: return c2[0][2]
            raise SpecError('variable of type %s' % type)
        c = [v for v in vs if v[0] == name]
        if not c: raise SpecError('variable %s' % name)
        return c[-1][2]
    def var(self, name=None, type=None):
        return self._val(self.cur, self.loc(name, type, self.cur))
    def old(self, name=None, type=None):
        return self._val(self.entry, self.loc(name, type, self.entry))
    def this(self, field=None):
        l = self.cur[4][-1][0].this
        v = self._val(self.cur, l)
        return v.d[field] if field else v
    def oldthis(self, field=None):
        l = self.cur[4][-1][0].this
        v = self._val(self.entry, l)
        return v.d[field] if field else v
    def at(self, loc): return self._val(self.cur, loc)
    def oldat(self, loc): return self._val(self.entry, loc)

def var_names(eng, fn):
    r = fn.get('_vn')
    if r is None:
        r = {}
        def go(n):
            if isinstance(n, dict):
                if n.get('k') == 'Var': r[n['d']] = (n.get('n'), n.get('t'))
                if n.get('binds'):
                    for b in n['binds']: r[b['d']] = (b.get('n'), (b.get('hv') or b.get('e') or {}).get('t'))
                if n.get('k') == 'Ref' and n.get('d') is not None and n['d'] not in r: r[n['d']] = (n.get('n'), n.get('t'))
                for v in n.values():
                    if isinstance(v, (dict, list)): go(v)
            elif isinstance(n, list):
                for x in n: go(x)
        go(fn['body'])
        for p in fn['p']: r[p['d']] = (p['n'], p['t'])
        fn['_vn'] = r
    return r

OBJ_TYPES = {'std::mutex', 'std::thread', 'std::atomic', 'std::__exception_ptr::exception_ptr', 'std::lock_guard', 'std::barrier',
             'std::basic_ostream', 'std::basic_istream', 'std::basic_ifstream', 'std::basic_ofstream', 'std::basic_istringstream'}
