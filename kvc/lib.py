"""Assumed contracts of the standard library, Boost and CGAL used by kigumi (the trusted base).

Every model states what the documentation of the dependency guarantees; the code of the
dependency is not verified."""
import z3
from .engine import (Loc, Rec, Tup, Vec, PyVec, MapV, Opt, Ptr, It, MapIt, Closure, BackIns, Str, FnRef, Obj, VOID, CxxThrow,
                     PathEnd, is_sym, zb, zi, isbv, And, Or, Not, Imp, Iff, eq, sb, cmpi, ite, add, sub, conc, sel, t_eq, SymLoc)
from .prog import Unsupported, norm

MODELS = {}
def m(*names):
    def d(fn):
        for n in names: MODELS[n] = fn
        return fn
    return d
def ld(eng, v):
    return eng.load(v) if isinstance(v, Loc) else v
def ldm(eng, f, i, v):
    """argument i, moved from when the parameter is an rvalue reference"""
    if isinstance(v, Loc):
        pt = f['p'][i]['t'] if i < len(f['p']) else None
        T = eng.P.types[pt] if pt is not None else None
        if T and T['k'] == 'ref' and T.get('rv'): return eng.move_from(v)
        return eng.load(v)
    return v
def size_term(eng, loc): return eng.load_len(loc)
def loc_elem_type(eng, loc, f=None):
    t = eng.loc_type(loc)
    v = eng.load(loc)
    if isinstance(v, Vec): return v.et
    if t is not None and eng.P.kind(t) == 'vec': return eng.P.elem(t)
    if f is not None and f.get('rec') is not None and eng.P.kind(f['rec']) == 'vec': return eng.P.elem(f['rec'])
    return None
def throw(eng, ty): raise CxxThrow(ty, None, eng.where())

# ------------------------------------------------------------------ identity-like
@m('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref')
def _move(eng, f, this, v): return v[0]
@m('std::addressof')
def _addr(eng, f, this, v): return Ptr(v[0])

# ------------------------------------------------------------------ sequences
SEQ = ('std::vector', 'boost::container::vector', 'boost::container::static_vector', 'std::array', 'std::initializer_list', 'std::deque', 'std::span', 'boost::container::small_vector')
def seq(*names):
    def d(fn):
        for s in SEQ:
            for n in names: MODELS[s + '::' + n] = fn
        return fn
    return d
@seq('begin', 'cbegin', 'data')
def _begin(eng, f, this, v): return It(this, 0)
@seq('end', 'cend')
def _end(eng, f, this, v): return It(this, size_term(eng, this))
@seq('size')
def _size(eng, f, this, v): return size_term(eng, this)
@seq('empty')
def _empty(eng, f, this, v): return eq(size_term(eng, this), 0)
@seq('capacity')
def _cap(eng, f, this, v):
    n = eng.fresh(z3.IntSort(), 'cap'); eng.assume(z3.And(n >= zi(size_term(eng, this)), n < 2**48)); return n
def isbool(eng, loc):
    et = loc_elem_type(eng, loc)
    return et is not None and eng.P.kind(et) == 'bool' and eng.P.types[et]['k'] == 'b'
def elem_ref(eng, this, i, f):
    if f.get('ret') is not None and eng.P.rname(f['ret']) == 'std::_Bit_reference': return Obj('bitref', loc=this.f(('i', i)))
    return this.f(('i', i))
@seq('operator[]')
def _index(eng, f, this, v):
    i = v[0]; n = size_term(eng, this)
    eng.oblige('index within bounds', And(cmpi('>=', i, 0), cmpi('<', i, n)))
    return elem_ref(eng, this, i, f)
@seq('at')
def _at(eng, f, this, v):
    i = v[0]; n = size_term(eng, this)
    if not eng.branch(And(cmpi('>=', i, 0), cmpi('<', i, n))): throw(eng, 'std::out_of_range')
    return elem_ref(eng, this, i, f)
@seq('front')
def _front(eng, f, this, v):
    eng.oblige('front of a non-empty sequence', cmpi('>', size_term(eng, this), 0))
    return elem_ref(eng, this, 0, f)
@seq('back')
def _back(eng, f, this, v):
    n = size_term(eng, this)
    eng.oblige('back of a non-empty sequence', cmpi('>', n, 0))
    return elem_ref(eng, this, sub(n, 1), f)
@m('std::_Bit_reference::operator bool')
def _bitget(eng, f, this, v): return eng.load(eng.load(this).d['loc'])
@m('std::_Bit_reference::operator=')
def _bitset(eng, f, this, v):
    x = ld(eng, v[0])
    if isinstance(x, Obj): x = eng.load(x.d['loc'])
    l = eng.load(this).d['loc']
    if eng.fp is not None: eng.access('W', Loc(l.root, l.path[:-1]))   # packed bits share memory locations
    eng.store(l, eng.tobool(x)); return this

def make_elem(eng, et, f, vals):
    """element of type et from constructor arguments"""
    P = eng.P
    if P.kind(et) == 'opaque' and P.rname(et) == 'std::thread' and not (len(vals) == 1 and (isinstance(ld(eng, vals[0]), Obj) or is_sym(ld(eng, vals[0])))):
        return (eng.contracts.get('std::thread::thread') or eng.lib['std::thread::thread'])(eng, f, et, vals, None)
    if len(vals) == 1:
        x = ldm(eng, f, len(f['p']) - 1, vals[0]) if f else ld(eng, vals[0])
        k = P.kind(et)
        if k in ('int', 'bool', 'b8', 'real', 'opaque', 'ptr', 'it'): return x
        if k == 'uptr': return x
        if k == 'rec' and isinstance(x, Rec) and x.d.keys() == {n for n, _, _ in P.fields(et)}: return x
        if k == 'tup' and isinstance(x, Tup): return x
        if k in ('vec', 'map', 'opt') and isinstance(x, (Vec, PyVec, MapV, Opt)): return x
        if isinstance(x, Obj): return x
    if P.kind(et) == 'tup' : return Tup([ld(eng, x) for x in vals]) if vals else eng.zero(et)
    if not vals: return eng.zero(et)
    if P.kind(et) == 'vec': return vector_from(eng, et, vals)
    cs = [g for g in P.funcs if g.get('ctor') and g.get('rec') == et and len(g['p']) == len(vals) and not g.get('cm')]
    for g in cs:
        if g.get('body') is not None: return eng.run_ctor(g, et, vals)
    if P.kind(et) == 'rec' and not [g for g in P.funcs if g.get('ctor') and g.get('rec') == et and len(g['p']) and not g.get('cm')]:
        fs = P.fields(et)
        d = {}
        for (n, ft, fi), x in zip(fs, vals): d[n] = x if P.isref(ft) else ld(eng, x)
        for n, ft, fi in fs[len(vals):]: d[n] = eng.field_default(fi, True)
        return Rec(et, d)
    raise Unsupported('in-place construction of %s' % eng.tname(et))
@seq('push_back', 'emplace_back')
def _push(eng, f, this, v):
    v0 = eng.load(this)
    et = loc_elem_type(eng, this, f)
    x = make_elem(eng, et, f, v) if et is not None else ld(eng, v[0])
    vv = eng.load(this)
    hook = eng.opts.get('on_append')
    if hook: hook(eng, this, x)
    eng.store(this, eng.vec_push(vv, x))
    if f['nn'].endswith('emplace_back'):
        if et is not None and isbool(eng, this): return Obj('bitref', loc=this.f(('i', eng.vec_len(vv))))
        return this.f(('i', eng.vec_len(vv)))
    return VOID
@seq('pop_back')
def _pop(eng, f, this, v):
    vv = eng.load(this); n = eng.vec_len(vv)
    eng.oblige('pop_back of a non-empty sequence', cmpi('>', n, 0))
    eng.store(this, PyVec(vv.xs[:-1]) if isinstance(vv, PyVec) else Vec(vv.et, sub(n, 1), vv.arrs, vv.lo)); return VOID
@seq('reserve', 'shrink_to_fit')
def _reserve(eng, f, this, v): return VOID
@seq('clear')
def _clear(eng, f, this, v):
    vv = eng.load(this)
    eng.store(this, PyVec([]) if isinstance(vv, PyVec) else eng.empty_vec(vv.et)); return VOID
@seq('swap')
def _vswap(eng, f, this, v):
    a, b = eng.load(this), eng.load(v[0]); eng.store(this, b); eng.store(v[0], a); return VOID
@seq('operator=')
def _vassign(eng, f, this, v):
    x = v[0]
    mv = isinstance(x, Loc) and f['p'] and eng.P.types[f['p'][0]['t']].get('rv')
    val = eng.move_from(x) if mv else ld(eng, x)
    if isinstance(val, PyVec):
        old = eng.load(this)
        if isinstance(old, Vec): val = eng.pyvec_to_vec(val, old.et)
    eng.store(this, val); return this
def const_leaves(eng, x, et): 
    return [eng.as_sort(a, s) for a, s in zip(eng.flat(x, et), eng.leaf_sorts(et))]
def filled(eng, et, n, x):
    """sequence of n copies of x"""
    c = conc(n)
    try: ls = const_leaves(eng, x, et)
    except Unsupported:
        if c is not None: return PyVec([x] * c)
        raise
    return Vec(et, n, [z3.K(z3.IntSort(), l) for l in ls])
@seq('resize', 'assign')
def _resize(eng, f, this, v):
    vv = eng.load(this)
    if f['nn'].endswith('assign'):
        if len(v) == 2 and not isinstance(ld(eng, v[0]), It): eng.store(this, filled(eng, vv.et, v[0], ld(eng, v[1]))); return VOID
        raise Unsupported('assign')
    n = v[0]
    et = loc_elem_type(eng, this, f)
    x = ld(eng, v[1]) if len(v) > 1 else eng.zero(et)
    if isinstance(vv, PyVec):
        c = conc(n)
        if c is None: vv = eng.pyvec_to_vec(vv, et)
        else: eng.store(this, PyVec(vv.xs[:c] + [x] * max(0, c - len(vv.xs)))); return VOID
    if conc(vv.n) == 0:
        eng.store(this, filled(eng, et, n, x)); return VOID
    ls = const_leaves(eng, x, et)
    out = []
    for a, l in zip(vv.arrs, ls):
        b = eng.fresh(a.sort(), 'resized')
        old = zi(vv.n); lo = vv.lo
        eng.forall(lambda j, a=a, b=b, l=l: z3.Implies(j >= zi(lo), b[j] == z3.If(j < old + zi(lo), a[j], l)), [b], pats=lambda j, b=b: [b[j]])
        out.append(b)
    eng.store(this, Vec(et, n, out, vv.lo)); return VOID
def seg(eng, it1, it2):
    """(value, start, length) of an iterator range"""
    v = eng.load(it1.loc)
    return v, it1.idx, sub(it2.idx, it1.idx)
def concat(eng, a, bv, start, n, et):
    """a ++ bv[start, start+n)"""
    if isinstance(a, PyVec) and isinstance(bv, (PyVec, Tup)) and conc(start) is not None and conc(n) is not None:
        return PyVec(a.xs + list(bv.xs[conc(start):conc(start) + conc(n)]))
    if isinstance(a, PyVec): a = eng.pyvec_to_vec(a, et)
    if isinstance(bv, (PyVec, Tup)):
        if conc(start) is not None and conc(n) is not None:
            for x in bv.xs[conc(start):conc(start) + conc(n)]: a = eng.vec_push(a, x)
            return a
        bv = eng.pyvec_to_vec(PyVec(bv.xs), et)
    if conc(a.n) == 0 and a.lo == 0:
        return Vec(et, n, list(bv.arrs), add(bv.lo, start)) if True else None
    out = []
    an, al, bl = zi(a.n), zi(a.lo), zi(add(bv.lo, start))
    for x, y in zip(a.arrs, bv.arrs):
        z = eng.fresh(x.sort(), 'cat')
        eng.forall(lambda j, x=x, y=y, z=z: z3.And(z3.Implies(z3.And(j >= 0, j < an), z[j] == x[j + al]),
                   z3.Implies(z3.And(j >= an, j < an + zi(n)), z[j] == y[j - an + bl])), [z], pats=lambda j, z=z: [z[j]])
        out.append(z)
    return Vec(et, add(a.n, n), out)
@seq('insert')
def _insert(eng, f, this, v):
    pos = ld(eng, v[0]); vv = eng.load(this); et = loc_elem_type(eng, this, f)
    n0 = eng.vec_len(vv)
    if len(v) == 3 and isinstance(ld(eng, v[1]), It):
        a, b = ld(eng, v[1]), ld(eng, v[2])
        if not eng.quick(eq(pos.idx, n0)): raise Unsupported('insertion in the middle')
        bv, s, n = seg(eng, a, b)
        eng.store(this, concat(eng, vv, bv, s, n, et)); return It(this, n0)
    if len(v) == 2:
        if not eng.quick(eq(pos.idx, n0)): raise Unsupported('insertion in the middle')
        eng.store(this, eng.vec_push(vv, ldm(eng, f, 1, v[1]))); return It(this, n0)
    if len(v) == 3 and not isinstance(ld(eng, v[1]), (It, MapIt)):
        if not eng.quick(eq(pos.idx, n0)): raise Unsupported('insertion in the middle')
        if not (is_sym(ld(eng, v[1])) or isinstance(ld(eng, v[1]), int)): raise Unsupported('vector::insert')
        _resize(eng, f, this, [add(n0, ld(eng, v[1])), v[2]]); return It(this, n0)
    raise Unsupported('vector::insert')
def vector_from(eng, t, vals):
    et = eng.P.elem(t)
    vs = [ld(eng, x) for x in vals]
    vs = [x for x in vs if not (isinstance(x, Obj) and 'allocator' in x.kind) and not (is_sym(x) and 'allocator' in str(x.sort()))]
    if not vs: return eng.empty_vec(et)
    a = vs[0]
    if isinstance(a, It) and len(vs) >= 2 and isinstance(vs[1], It):
        bv, s, n = seg(eng, a, vs[1])
        return concat(eng, eng.empty_vec(et), bv, s, n, et)
    if isinstance(a, MapIt) and len(vs) >= 2 and isinstance(vs[1], MapIt):
        b = vs[1]; M = eng.load(a.loc)
        if M.vt is not None or a.pos is None or conc(a.pos) != 0 or not isinstance(b.pos, tuple) or not a.loc.same(b.loc): raise Unsupported('vector from part of a map')
        ordr, pos, dom = map_order(eng, a.loc); arrs = []
        for q, so in enumerate(eng.leaf_sorts(et)):
            x = eng.fresh(z3.ArraySort(z3.IntSort(), so), 'listed'); arrs.append(x)
            eng.forall(lambda j, x=x, q=q: x[j] == eng.flat(eng.key_unterm(M.kt, ordr[j]), et)[q], [x], pats=lambda j, x=x: [x[j]])
        return Vec(et, M.size, arrs)
    if isinstance(a, (PyVec, Vec)):
        if isinstance(a, PyVec):
            try: return eng.pyvec_to_vec(a, et)
            except Unsupported: return a
        return a
    if isinstance(a, Tup): return eng.pyvec_to_vec(PyVec(a.xs), et)
    x = vs[1] if len(vs) > 1 else eng.zero(et)
    return filled(eng, et, a, x)
@m('ctor:vec')
def _vctor(eng, f, t, vals, n):
    if n.get('cm') == 'move' and isinstance(vals[0], Loc): return eng.move_from(vals[0])
    if len(vals) >= 2:    # forwarding of (n, value)
        pass
    return vector_from(eng, t, vals)
@m('ctor:tup')
def _tctor(eng, f, t, vals, n):
    P = eng.P; es = P.tupelems(t)
    if not vals: return eng.zero(t)
    if n.get('cm'):
        return eng.move_from(vals[0]) if n['cm'] == 'move' and isinstance(vals[0], Loc) else ld(eng, vals[0])
    if len(vals) == 1 and len(es) != 1:
        x = ld(eng, vals[0])
        if isinstance(x, Tup): return Tup([ld(eng, y) if not P.isref(e) else y for y, e in zip(x.xs, es)])
    out = []
    for i, (e, x) in enumerate(zip(es, vals)):
        if P.isref(e): out.append(x)
        else: out.append(make_elem(eng, e, None, [ldm(eng, f, i, x)]))
    return Tup(out)
@m('ctor:int', 'ctor:real', 'ctor:bool')
def _sctor(eng, f, t, vals, n): return ld(eng, vals[0]) if vals else eng.zero(t)
@m('ctor:it')
def _itctor(eng, f, t, vals, n): return ld(eng, vals[0]) if vals else It(None, None)
@m('ctor:range')
def _rctor(eng, f, t, vals, n): 
    vs = [ld(eng, x) for x in vals]
    return vs[0] if len(vs) == 1 else Tup(vs)
@m('ctor:opt')
def _optctor(eng, f, t, vals, n):
    et = eng.P.elem(t)
    if not vals: return Opt(False, eng.fresh_of_or_none(et))
    x = ld(eng, vals[0])
    if isinstance(x, Opt): return x
    if isinstance(x, Obj) and x.kind == 'std::nullopt_t' or (is_sym(x) and 'nullopt' in str(x.sort())): return Opt(False, eng.fresh_of_or_none(et))
    return Opt(True, x)
@m('ctor:uptr')
def _upctor(eng, f, t, vals, n):
    if not vals: return Ptr(None)
    x = vals[0]
    if isinstance(x, Loc):
        l = x; x = eng.load(l)
        if isinstance(x, Ptr) and eng.loc_type_is_uptr(l): eng.store(l, Ptr(None))
    return x
@m('ctor:map')
def _mapctor(eng, f, t, vals, n):
    if n.get('cm') == 'move' and isinstance(vals[0], Loc): return eng.move_from(vals[0])
    if vals and n.get('cm') == 'copy': return ld(eng, vals[0])
    return eng.empty_map(t)
@m('ctor:opaque')
def _octor(eng, f, t, vals, n):
    if n and n.get('cm') and vals: return ld(eng, vals[0])
    if not vals:
        mm = MODELS.get('default:' + (eng.P.rname(t) or ''))
        if mm: return mm(eng, t)
        return Obj(eng.P.rname(t))
    raise Unsupported('constructor of %s' % eng.tname(t))

# ------------------------------------------------------------------ tuples and pairs
@m('std::get')
def _get(eng, f, this, v):
    a = f.get('targs') or [0]
    k = a[0]
    if isinstance(k, dict): k = int(k['int'])
    else: raise Unsupported('std::get by type')
    x = v[0]
    if isinstance(x, Loc): return eng.reffield(x.f(('t', k)))
    r = x.xs[k]
    return r
@m('std::make_pair', 'std::make_tuple')
def _mk(eng, f, this, v): return Tup([ldm(eng, f, i, x) for i, x in enumerate(v)])
@m('std::tie', 'std::forward_as_tuple')
def _tie(eng, f, this, v): return Tup(v)
def tup_assign(eng, f, this, v):
    dst = eng.load(this); src = ld(eng, v[0])
    if any(isinstance(x, Loc) for x in dst.xs):
        vals = [ld(eng, y) for y in src.xs]
        for l, y in zip(dst.xs, vals):
            if isinstance(l, Loc): eng.store(l, y)
        return this
    eng.store(this, Tup([ld(eng, y) for y in src.xs])); return this
for _n in ('std::tuple', 'std::pair', 'std::array'): MODELS[_n + '::operator='] = tup_assign
def val_eq(eng, a, b):
    a, b = ld(eng, a), ld(eng, b)
    if isinstance(a, Tup): return And(*[val_eq(eng, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, Rec):
        return And(*[val_eq(eng, a.d[k], b.d[k]) for k in a.d])
    if isinstance(a, PyVec) and isinstance(b, PyVec):
        return len(a.xs) == len(b.xs) and And(*[val_eq(eng, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, (It,)):
        return eq(a.idx, b.idx)
    if isinstance(a, MapIt): return mapit_eq(eng, a, b)
    if isinstance(a, Opt): return Or(And(Not(a.has), Not(b.has)), And(a.has, b.has, val_eq(eng, a.val, b.val)))
    if isinstance(a, Ptr) and isinstance(b, Ptr): return eng.ptr_eq(a, b)
    if isinstance(a, Str) and isinstance(b, Str): return a.s == b.s
    if isinstance(a, (Vec, Obj)): raise Unsupported('comparison of %r' % type(a).__name__)
    return eq(a, b)
def val_lt(eng, a, b):
    a, b = ld(eng, a), ld(eng, b)
    if isinstance(a, (Tup, PyVec)):
        r = False
        for x, y in reversed(list(zip(a.xs, b.xs))): r = Or(val_lt(eng, x, y), And(val_eq(eng, x, y), r))
        return r
    if isinstance(a, It): return cmpi('<', a.idx, b.idx)
    if isinstance(a, Rec):
        fs = [g for g in eng.P.fns(eng.P.types[a.t]['nn'] + '::operator<') if g.get('rec') == a.t]
        if fs: return eng.call(fs[0], eng.new_root(a, a.t), [eng.new_root(b, a.t)])
        if len(a.d) == 1: return val_lt(eng, *[list(x.d.values())[0] for x in (a, b)])
        raise Unsupported('operator< on record')
    return cmpi('<', a, b)
def member_cmp(eng, f, this, v):
    """(lhs, rhs) of a member or free comparison"""
    return (this, v[0]) if this is not None else (v[0], v[1])
@m('std::operator==', '__gnu_cxx::operator==', 'boost::container::operator==', 'boost::unordered::detail::foa::operator==')
def _eq(eng, f, this, v): return val_eq(eng, *member_cmp(eng, f, this, v))
@m('std::operator!=', '__gnu_cxx::operator!=', 'boost::container::operator!=', 'boost::unordered::detail::foa::operator!=')
def _ne(eng, f, this, v): return Not(val_eq(eng, *member_cmp(eng, f, this, v)))
@m('std::operator<', '__gnu_cxx::operator<')
def _lt(eng, f, this, v): return val_lt(eng, *member_cmp(eng, f, this, v))
@m('std::operator<=>', '__gnu_cxx::operator<=>')
def _cmp3(eng, f, this, v):
    a, b = member_cmp(eng, f, this, v)
    return ite(val_eq(eng, a, b), 0, ite(val_lt(eng, a, b), -1, 1))
@m('operator<')
def _ord_lt(eng, f, this, v): return cmpi('<', ld(eng, v[0]), 0)

# ------------------------------------------------------------------ random access iterators
ITN = ('__gnu_cxx::__normal_iterator', 'boost::container::vec_iterator', 'std::_Bit_iterator')
def itm(n):
    def d(fn):
        for s in ITN: MODELS[s + '::' + n] = fn
        return fn
    return d
def it_deref_check(eng, it):
    n = size_term(eng, it.loc)
    eng.oblige('dereferenced iterator is within the sequence', And(cmpi('>=', it.idx, 0), cmpi('<', it.idx, n)))
@itm('operator*')
def _ideref(eng, f, this, v):
    it = eng.load(this)
    it_deref_check(eng, it)
    return it.loc.f(('i', it.idx))
@itm('operator->')
def _iarrow(eng, f, this, v):
    it = eng.load(this); it_deref_check(eng, it)
    return Ptr(it.loc.f(('i', it.idx)))
@itm('operator[]')
def _iidx(eng, f, this, v):
    it = eng.load(this); j = It(it.loc, add(it.idx, v[0])); it_deref_check(eng, j); return j.loc.f(('i', j.idx))
@itm('operator+')
def _iplus(eng, f, this, v):
    it = eng.load(this); return It(it.loc, add(it.idx, ld(eng, v[0])))
@itm('operator-')
def _iminus(eng, f, this, v):
    it = eng.load(this); o = ld(eng, v[0])
    return sub(it.idx, o.idx) if isinstance(o, It) else It(it.loc, sub(it.idx, o))
@m('__gnu_cxx::operator-')
def _iminus2(eng, f, this, v): return sub(ld(eng, v[0]).idx, ld(eng, v[1]).idx)
@itm('operator+=')
def _ipe(eng, f, this, v):
    it = eng.load(this); eng.store(this, It(it.loc, add(it.idx, ld(eng, v[0])))); return this
@itm('operator-=')
def _ime(eng, f, this, v):
    it = eng.load(this); eng.store(this, It(it.loc, sub(it.idx, ld(eng, v[0])))); return this
@itm('operator++')
def _iinc(eng, f, this, v):
    it = eng.load(this); eng.store(this, It(it.loc, add(it.idx, 1))); return this if not v else it
@itm('operator--')
def _idec(eng, f, this, v):
    it = eng.load(this); eng.store(this, It(it.loc, sub(it.idx, 1))); return this if not v else it
@itm('operator=')
def _iasg(eng, f, this, v): eng.store(this, ld(eng, v[0])); return this
@m('std::distance')
def _dist(eng, f, this, v):
    a, b = ld(eng, v[0]), ld(eng, v[1])
    if isinstance(a, It): return sub(b.idx, a.idx)
    la, lb = eng.new_root(a), eng.new_root(b)
    return facade_call(eng, a, 'distance_to', la, [lb])
@m('std::next')
def _next(eng, f, this, v):
    a = ld(eng, v[0])
    if isinstance(a, It): return It(a.loc, add(a.idx, v[1] if len(v) > 1 else 1))
    raise Unsupported('std::next')
@m('std::prev')
def _prev(eng, f, this, v):
    a = ld(eng, v[0]); return It(a.loc, sub(a.idx, v[1] if len(v) > 1 else 1))

# boost::iterator_facade: operators forward to the derived class's own primitives
def facade_call(eng, rec, name, this, vals):
    fs = [g for g in eng.P.fns(eng.P.types[rec.t]['nn'] + '::' + name) if g.get('rec') == rec.t]
    if not fs: raise Unsupported('iterator primitive ' + name)
    return eng.call(fs[0], this, vals)
FB = 'boost::iterators::detail::iterator_facade_base::'
# (an abstract sequence position stands for the iterator when a contract returned the range)
@m(FB + 'operator*')
def _fd(eng, f, this, v):
    x = eng.load(this)
    if isinstance(x, It): it_deref_check(eng, x); return x.loc.f(('i', x.idx))
    return facade_call(eng, x, 'dereference', this, [])
@m(FB + 'operator++')
def _fi(eng, f, this, v):
    old = eng.load(this)
    if isinstance(old, It): eng.store(this, It(old.loc, add(old.idx, 1)))
    else: facade_call(eng, old, 'increment', this, [])
    return this if not v else old
@m(FB + 'operator--')
def _fdec(eng, f, this, v): facade_call(eng, eng.load(this), 'decrement', this, []); return this
@m(FB + 'operator+=')
def _fpe(eng, f, this, v): facade_call(eng, eng.load(this), 'advance', this, [ld(eng, v[0])]); return this
@m('boost::iterators::operator+')
def _fp(eng, f, this, v):
    a, b = ld(eng, v[0]), ld(eng, v[1])
    if not isinstance(a, Rec): a, b = b, a
    l = eng.new_root(a, a.t); facade_call(eng, a, 'advance', l, [b]); return eng.load(l)
@m('boost::iterators::operator-')
def _fmin(eng, f, this, v):
    a, b = eng.as_loc(v[0]), eng.as_loc(v[1])
    if isinstance(eng.load(a), It): return sub(eng.load(a).idx, eng.load(b).idx)
    return facade_call(eng, eng.load(b), 'distance_to', b, [a])
@m('boost::iterators::operator==')
def _feq(eng, f, this, v):
    a, b = eng.as_loc(v[0]), eng.as_loc(v[1])
    if isinstance(eng.load(a), It): return eq(eng.load(a).idx, eng.load(b).idx)
    return eng.tobool(facade_call(eng, eng.load(a), 'equal', a, [b]))
@m('boost::iterators::operator!=')
def _fne(eng, f, this, v): return Not(_feq(eng, f, this, v))
@m('boost::iterators::iterator_facade::iterator_facade')
def _fctor(eng, f, t, vals, n): return Rec(t, {})
@m('boost::iterators::iterator_facade::operator=')
def _fasg(eng, f, this, v): return this

@m('boost::make_iterator_range')
def _mir(eng, f, this, v): return Tup([ld(eng, x) for x in v])
@m('boost::iterator_range_detail::iterator_range_base::begin')
def _rb(eng, f, this, v): return eng.load(this).xs[0]
@m('boost::iterator_range_detail::iterator_range_base::end')
def _re(eng, f, this, v): return eng.load(this).xs[1]
@m('boost::iterator_range_detail::iterator_range_base::empty')
def _rem(eng, f, this, v):
    a, b = eng.load(this).xs
    if isinstance(a, It): return eq(a.idx, b.idx)
    return _feq(eng, f, None, [eng.new_root(a), eng.new_root(b)])
@m('boost::iterator_range_detail::iterator_range_base::front')
def _rf(eng, f, this, v):
    a = eng.load(this).xs[0]
    if isinstance(a, It): it_deref_check(eng, a); return a.loc.f(('i', a.idx))
    return facade_call(eng, a, 'dereference', eng.new_root(a, a.t), [])

# ------------------------------------------------------------------ small algorithms
@m('std::swap')
def _swap(eng, f, this, v):
    a, b = eng.load(v[0]), eng.load(v[1])
    eng.store(v[0], b); eng.store(v[1], a); return VOID
@m('std::exchange')
def _exchange(eng, f, this, v):
    old = eng.move_from(v[0]); t = eng.loc_type(v[0])
    n = ldm(eng, f, 1, v[1])
    if isinstance(n, Ptr) and n.loc is None or n is None: n = Ptr(None)
    eng.store(v[0], n); return old
def pick(eng, c, a, b):
    """reference result of min/max"""
    x, y = ld(eng, a), ld(eng, b)
    try: return eng.merge_val(c, x, y)
    except Exception: return x if eng.branch(c) else y
def cmp_of(eng, v, k):
    if len(v) > k:
        c = v[k]
        return lambda x, y: eng.tobool(ld(eng, eng.call_closure(c, [eng.as_loc(x), eng.as_loc(y)])))
    return lambda x, y: val_lt(eng, x, y)
@m('std::min')
def _min(eng, f, this, v):
    a = ld(eng, v[0])
    if isinstance(a, PyVec):
        r = a.xs[0]
        for x in a.xs[1:]: r = pick(eng, val_lt(eng, x, r), x, r)
        return r
    lt = cmp_of(eng, v, 2)
    return eng.new_root(pick(eng, lt(v[1], v[0]), v[1], v[0]))
@m('std::max')
def _max(eng, f, this, v):
    a = ld(eng, v[0])
    if isinstance(a, PyVec):
        r = a.xs[0]
        for x in a.xs[1:]: r = pick(eng, val_lt(eng, r, x), x, r)
        return r
    lt = cmp_of(eng, v, 2)
    return eng.new_root(pick(eng, lt(v[0], v[1]), v[1], v[0]))
@m('std::minmax')
def _minmax(eng, f, this, v):
    lt = val_lt(eng, v[1], v[0])
    return Tup([eng.new_root(pick(eng, lt, v[1], v[0])), eng.new_root(pick(eng, lt, v[0], v[1]))])
@m('std::clamp')
def _clamp(eng, f, this, v):
    x, lo, hi = [ld(eng, a) for a in v[:3]]
    eng.oblige('clamp bounds are ordered', Not(cmpi('<', hi, lo)))
    return eng.new_root(ite(cmpi('<', x, lo), lo, ite(cmpi('<', hi, x), hi, x)))
@m('std::abs')
def _abs(eng, f, this, v):
    x = ld(eng, v[0]); return ite(cmpi('<', x, 0), sub(0, x), x)
@m('std::numeric_limits::max')
def _nlmax(eng, f, this, v):
    s, b = eng.P.intinfo(f['ret']) or (True, 64)
    if eng.P.intinfo(f['ret']) is None: return z3.Real('DBL_MAX')
    return (1 << (b - 1 if s else b)) - 1
@m('std::numeric_limits::min')
def _nlmin(eng, f, this, v):
    s, b = eng.P.intinfo(f['ret']); return -(1 << (b - 1)) if s else 0
@m('std::in_range')
def _inr(eng, f, this, v):
    t = f['targs'][0]
    s, b = eng.P.intinfo(t)
    x = ld(eng, v[0])
    return And(cmpi('>=', x, -(1 << (b - 1)) if s else 0), cmpi('<', x, 1 << (b - 1 if s else b)))
@m('std::back_inserter')
def _bi(eng, f, this, v): return BackIns(v[0])
@m('std::back_insert_iterator::back_insert_iterator')
def _bic(eng, f, t, vals, n): return ld(eng, vals[0]) if not isinstance(vals[0], Loc) or isinstance(eng.load(vals[0]), BackIns) else BackIns(vals[0])
@m('std::back_insert_iterator::operator*', 'std::back_insert_iterator::operator++')
def _bid(eng, f, this, v): return this
@m('std::back_insert_iterator::operator=')
def _bia(eng, f, this, v):
    l = eng.load(this).loc; x = ldm(eng, f, 0, v[0])
    hook = eng.opts.get('on_append')
    if hook: hook(eng, l, x)
    eng.store(l, eng.vec_push(eng.load(l), x)); return this

def small_range(eng, a, b):
    """concrete offsets of a range, or None"""
    n = conc(sub(b.idx, a.idx))
    return None if n is None else [add(a.idx, i) for i in range(n)]
@m('std::all_of')
def _all(eng, f, this, v):
    a, b = ld(eng, v[0]), ld(eng, v[1])
    r = small_range(eng, a, b) if isinstance(a, It) else None
    if r is None: return quant_of(eng, v, a, b, True)
    return And(*[eng.tobool(ld(eng, eng.call_closure(v[2], [a.loc.f(('i', i))]))) for i in r])
@m('std::any_of')
def _any(eng, f, this, v):
    a, b = ld(eng, v[0]), ld(eng, v[1])
    r = small_range(eng, a, b) if isinstance(a, It) else None
    if r is None: return quant_of(eng, v, a, b, False)
    return Or(*[eng.tobool(ld(eng, eng.call_closure(v[2], [a.loc.f(('i', i))]))) for i in r])
@m('std::none_of')
def _none(eng, f, this, v): return Not(_any(eng, f, this, v))
def fresh_syms(eng, e, cnt0):
    """does e mention a constant created after the counters were cnt0"""
    from .smt import symbols
    for nm in symbols(e):
        if '!' in nm:
            p_, _, k = nm.rpartition('!')
            if k.isdigit() and int(k) >= cnt0.get(p_, 0): return nm
    return None
def pure_at(eng, lo, hi, thunk, et):
    """thunk(j) for an arbitrary lo <= j < hi, as a function J -> value; obligations inside are proved for arbitrary j"""
    lo, hi = zi(lo), zi(hi)
    j = eng.fresh(z3.IntSort(), 'each')
    cnt0 = dict(eng.cnt)
    n0 = len(eng.pc); mem0 = dict(eng.mem)
    rng = z3.And(j >= lo, j < hi)
    def th():
        eng.assume(rng)
        v = thunk(j)
        v = ld(eng, v)
        for r, x in mem0.items():
            if not (eng.mem.get(r) is x or t_eq(eng.mem.get(r), x)): raise Unsupported('the function applied to each element modifies state')
        return v
    outs = eng.explore(th)
    res = []
    for kind, v, s in outs:
        if kind != 'ret': raise Unsupported('the function applied to each element raises an error')
        facts = [f for f, q in s[2][n0:] if not q and not f.eq(rng)]
        ls = [eng.as_sort(x, so) for x, so in zip(eng.flat(v, et), eng.leaf_sorts(et))]
        facts = [f for f in facts if not fresh_syms(eng, f, cnt0)]
        for x in ls:
            nm = fresh_syms(eng, x, cnt0)
            if nm: raise Unsupported('the function applied to each element is not a function of it (%s)' % nm)
        facts = [f for f in facts if any(str(j) == n_ for n_ in __import__('kvc.smt', fromlist=['symbols']).symbols(f))]
        res.append((And(*facts), ls))
    if not res: return lambda J: eng.zero(et)
    cur = res[-1][1]
    if not all(all(x.eq(y) for x, y in zip(r[1], cur)) for r in res):
        for c, ls in reversed(res[:-1]): cur = [ite(c, x, y) for x, y in zip(ls, cur)]
    def at(J):
        Jz = J if is_sym(J) else z3.IntVal(J)
        return [z3.substitute(x, (j, Jz)) if is_sym(x) else x for x in cur]
    return at
def irange(eng, a, b):
    """(count, element(j)) of an iterator pair"""
    a, b = ld(eng, a), ld(eng, b)
    if isinstance(a, It): return sub(b.idx, a.idx), lambda j: a.loc.f(('i', add(a.idx, j)))
    if isinstance(a, Rec):
        n = facade_call(eng, a, 'distance_to', eng.new_root(a, a.t), [eng.new_root(b, b.t)])
        def elem(j):
            l = eng.new_root(a, a.t)
            facade_call(eng, a, 'advance', l, [j])
            return facade_call(eng, a, 'dereference', l, [])
        return ld(eng, n), elem
    raise Unsupported('iteration over %r' % (a,))
def quant_of(eng, v, a, b, allq):
    """truth of a quantified predicate over a range of symbolic length"""
    q = eng.opts.get('quant_pred')
    if q is not None: return q(eng, v, a, b, allq)
    n, elem = irange(eng, a, b)
    bt = next(t['id'] for t in eng.P.types if t['k'] == 'b' and t.get('n') == 'bool')
    pr = pure_at(eng, 0, n, lambda j: eng.tobool(ld(eng, eng.call_closure(v[2], [elem(j)]))), bt)
    r = eng.fresh(z3.BoolSort(), 'quantified'); w = eng.fresh(z3.IntSort(), 'witness')
    f = lambda j: z3.Implies(z3.And(j >= 0, j < zi(n)), pr(j)[0] if allq else z3.Not(pr(j)[0]))
    q = eng.forall(f, assume=False)
    wit = z3.And(w >= 0, w < zi(n), z3.Not(pr(w)[0]) if allq else pr(w)[0])
    if allq: eng.assume(z3.Implies(r, q)); eng.assume(z3.Or(r, wit))
    else: eng.assume(z3.Or(r, q)); eng.assume(z3.Implies(r, wit))
    eng.g['quant'] = eng.g.get('quant', ()) + ((r, f),)
    return r
@m('std::transform', 'std::copy', 'std::copy_n')
def _transform(eng, f, this, v):
    cp = f['nn'] != 'std::transform'
    if f['nn'] == 'std::copy_n': raise Unsupported('copy_n')
    out = ld(eng, v[2])
    if len(v) > (3 if cp else 4): raise Unsupported('std::transform of two ranges')
    n, elem = irange(eng, v[0], v[1])
    if not isinstance(out, (BackIns, It)): raise Unsupported('std::transform to %r' % (out,))
    dst = eng.load(out.loc); et = loc_elem_type(eng, out.loc)
    fn = (lambda j: elem(j)) if cp else (lambda j: eng.call_closure(v[3], [elem(j)]))
    at = pure_at(eng, 0, n, lambda j: convert_elem(eng, et, fn(j)), et)
    nz = zi(n)
    eng.oblige('the transformed range is well formed', cmpi('>=', n, 0))
    if isinstance(dst, PyVec): dst = eng.pyvec_to_vec(dst, et)
    if isinstance(out, BackIns): start = dst.n; newn = add(dst.n, n); res = out
    else:
        start = out.idx; newn = dst.n; res = It(out.loc, add(out.idx, n))
        eng.oblige('the destination range is large enough', cmpi('<=', add(start, n), dst.n))
    arrs = []; lo = zi(dst.lo); st = zi(start)
    for i, a in enumerate(dst.arrs):
        z = eng.fresh(a.sort(), 'mapped')
        eng.forall(lambda q, i=i, a=a, z=z: z3.And(z3.Implies(z3.Or(q < st + lo, q >= st + nz + lo), z[q] == a[q]),
                   z3.Implies(z3.And(q >= st + lo, q < st + nz + lo), z[q] == at(q - st - lo)[i])), [z], pats=lambda q, z=z: [z[q]])
        arrs.append(z)
    eng.store(out.loc, Vec(et, newn, arrs, dst.lo))
    return res
def convert_elem(eng, et, x):
    x = ld(eng, x)
    return x
@m('std::find')
def _find(eng, f, this, v):
    a, b = ld(eng, v[0]), ld(eng, v[1]); x = v[2]
    r = small_range(eng, a, b)
    if r is None:
        i = eng.fresh(z3.IntSort(), 'found'); vv = eng.load(a.loc)
        eng.assume(z3.And(i >= zi(a.idx), i <= zi(b.idx)))
        pred = lambda j: zb(val_eq(eng, eng.vec_get_pure(vv, j), x))
        eng.assume(z3.Implies(i < zi(b.idx), pred(i)))
        eng.forall(lambda j: z3.Implies(z3.And(j >= zi(a.idx), j < i), z3.Not(pred(j))), vv.arrs)
        return It(a.loc, i)
    res = b.idx
    for i in reversed(r): res = ite(val_eq(eng, a.loc.f(('i', i)), x), i, res)
    return It(a.loc, res)
@m('std::find_if')
def _findif(eng, f, this, v):
    a, b = ld(eng, v[0]), ld(eng, v[1])
    r = small_range(eng, a, b) if isinstance(a, It) else None
    if r is None:
        h = eng.opts.get('find_if')
        if h: return h(eng, v, a, b)
        bt = next(t['id'] for t in eng.P.types if t['k'] == 'b' and t.get('n') == 'bool')
        n, elem = irange(eng, a, b)
        pr = pure_at(eng, 0, n, lambda j: eng.tobool(ld(eng, eng.call_closure(v[2], [elem(j)]))), bt)
        i = eng.fresh(z3.IntSort(), 'found')
        eng.assume(z3.And(i >= 0, i <= zi(n), z3.Implies(i < zi(n), pr(i)[0])))
        eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < i), z3.Not(pr(j)[0])))
        if isinstance(a, It): return It(a.loc, add(a.idx, i))
        l = eng.new_root(a, a.t); facade_call(eng, a, 'advance', l, [i]); return eng.load(l)
    res = b.idx
    for i in reversed(r): res = ite(eng.tobool(ld(eng, eng.call_closure(v[2], [a.loc.f(('i', i))]))), i, res)
    return It(a.loc, res)
def extremum(eng, v, maxi):
    a, b = ld(eng, v[0]), ld(eng, v[1]); r = small_range(eng, a, b)
    if r is None:
        if not isinstance(a, It): raise Unsupported('min/max_element')
        vv = eng.load(a.loc); vv = vv if isinstance(vv, Vec) else eng.pyvec_to_vec(vv, loc_elem_type(eng, a.loc))
        if not eng.branch(cmpi('<', a.idx, b.idx)): return b
        lt0 = cmp_term(eng, v, 2, vv.et); lt = (lambda x, y: lt0(y, x)) if maxi else lt0
        i = eng.fresh(z3.IntSort(), 'extremum'); eng.assume(z3.And(i >= zi(a.idx), i < zi(b.idx)))
        eng.forall(lambda j: z3.Implies(z3.And(j >= zi(a.idx), j < zi(b.idx)), z3.And(z3.Not(lt(leaves_at(vv, j), leaves_at(vv, i))), z3.Implies(j < i, lt(leaves_at(vv, i), leaves_at(vv, j))))), [vv.arrs[0]], pats=lambda j: [z3.Select(vv.arrs[0], zi(add(j, vv.lo)))])
        return It(a.loc, i)
    if not r: return b
    lt = cmp_of(eng, v, 2)
    best, bv = r[0], eng.load(a.loc.f(('i', r[0])))
    for i in r[1:]:
        x = eng.load(a.loc.f(('i', i)))
        c = lt(bv, x) if maxi else lt(x, bv)
        best = ite(c, i, best); bv = eng.merge_val(c, x, bv)
    return It(a.loc, best)
@m('std::max_element')
def _maxe(eng, f, this, v): return extremum(eng, v, True)
@m('std::min_element')
def _mine(eng, f, this, v): return extremum(eng, v, False)
@m('std::_V2::rotate')
def _rotate(eng, f, this, v):
    a, mid, b = [ld(eng, x) for x in v[:3]]
    r = small_range(eng, a, b)
    if r is None: raise Unsupported('rotate')
    n = len(r)
    k = sub(mid.idx, a.idx)
    vals = [eng.load(a.loc.f(('i', i))) for i in r]
    kc = conc(k)
    for j, i in enumerate(r):
        if kc is not None: x = vals[(j + kc) % n] if n else None
        else:
            x = vals[j]
            for s in range(1, n): x = eng.merge_val(eq(k, s), vals[(j + s) % n], x)
        eng.store(a.loc.f(('i', i)), x)
    return It(a.loc, add(a.idx, sub(n, k)))
def cmp_term(eng, v, k, et):
    """the comparison as a function of the scalars of two elements"""
    so = eng.leaf_sorts(et); xs = [eng.fresh(s, 'cmpx') for s in so]; ys = [eng.fresh(s, 'cmpy') for s in so]
    cnt0 = dict(eng.cnt); n0 = len(eng.pc); mem0 = dict(eng.mem)
    lt = cmp_of(eng, v, k)
    def th():
        r = zb(lt(eng.unflat(et, xs), eng.unflat(et, ys)))
        for rt, x in mem0.items():
            if not (eng.mem.get(rt) is x or t_eq(eng.mem.get(rt), x)): raise Unsupported('the comparison modifies state')
        return r
    cur = None
    for kind, r, s in reversed(eng.explore(th)):
        if kind != 'ret': raise Unsupported('the comparison raises an error')
        facts = [f for f, q in s[2][n0:] if not q and not fresh_syms(eng, f, cnt0)]
        if fresh_syms(eng, r, cnt0): raise Unsupported('the comparison is not a function of the elements')
        cur = r if cur is None else z3.If(And(*facts) if facts else z3.BoolVal(True), r, cur)
    def at(a, b): return z3.substitute(cur, *[(x, y) for x, y in zip(xs + ys, list(a) + list(b))])
    return at
def leaves_at(v, j): return [z3.Select(a, zi(add(j, v.lo))) for a in v.arrs]
def ordered_range(eng, vv, lt, i0, m, i1):
    """no element of [i, i1) precedes the element at i, for i in [i0, m)"""
    i0, m, i1 = zi(i0), zi(m), zi(i1); l0 = zi(vv.lo)
    eng.forall(lambda i, j: z3.Implies(z3.And(i >= i0, i < m, i < j, j < i1), z3.Not(lt(leaves_at(vv, j), leaves_at(vv, i)))), (), sorts=[z3.IntSort()] * 2,
               pats=lambda i, j: [z3.MultiPattern(*[z3.Select(vv.arrs[0], zi(add(x, vv.lo))) for x in (i, j)])])
@m('std::partial_sort')
def _psort(eng, f, this, v):
    a, mid, b = [ld(eng, x) for x in v[:3]]
    vv = eng.load(a.loc)
    if isinstance(vv, PyVec):
        et = loc_elem_type(eng, a.loc); vv = eng.pyvec_to_vec(vv, et)
    eng.oblige('the part to be sorted lies in the range', And(cmpi('<=', a.idx, mid.idx), cmpi('<=', mid.idx, b.idx)))
    lt = cmp_term(eng, v, 3, vv.et)
    nv, p, q = permuted(eng, vv, a.idx, b.idx); eng.store(a.loc, nv)
    ordered_range(eng, nv, lt, a.idx, mid.idx, b.idx); eng.g['last_perm'] = (p, q); moved_to(eng, vv, nv, q, a.idx, b.idx)
    return VOID
def moved_to(eng, old, new, q, lo, hi):
    """where each element of the old range went"""
    lo, hi, l0 = zi(lo), zi(hi), zi(old.lo)
    if conc(old.lo) != 0: return
    eng.forall(lambda j: z3.Implies(z3.And(j >= lo, j < hi), z3.And(q(j) >= lo, q(j) < hi, *[x[q(j)] == y[j] for x, y in zip(new.arrs, old.arrs)])), old.arrs, pats=lambda j: [y[j] for y in old.arrs])
@m('std::nth_element')
def _nth(eng, f, this, v):
    a, mid, b = [ld(eng, x) for x in v[:3]]
    vv = eng.load(a.loc)
    if isinstance(vv, PyVec): raise Unsupported('nth_element')
    lt = cmp_term(eng, v, 3, vv.et)
    nv, p, q = permuted(eng, vv, a.idx, b.idx); eng.store(a.loc, nv)
    i0, m, i1 = zi(a.idx), zi(mid.idx), zi(b.idx)
    eng.forall(lambda j: z3.Implies(z3.And(m < i1, j >= i0, j < i1), z3.And(z3.Implies(j < m, z3.Not(lt(leaves_at(nv, m), leaves_at(nv, j)))), z3.Implies(j > m, z3.Not(lt(leaves_at(nv, j), leaves_at(nv, m)))))), [nv.arrs[0]], pats=lambda j: [z3.Select(nv.arrs[0], zi(add(j, nv.lo)))])
    eng.g['last_perm'] = (p, q)
    return VOID
@m('std::sort', 'std::stable_sort')
def _sort(eng, f, this, v):
    a, b = ld(eng, v[0]), ld(eng, v[1])
    r = small_range(eng, a, b)
    if r is None or len(r) > 4:
        h = eng.opts.get('sort')
        if h: return h(eng, f, v, a, b)
        return sort_abstract(eng, f, v, a, b)
    lt = cmp_of(eng, v, 2)
    xs = [eng.load(a.loc.f(('i', i))) for i in r]
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            c = lt(xs[j + 1], xs[j])
            xs[j], xs[j + 1] = eng.merge_val(c, xs[j + 1], xs[j]), eng.merge_val(c, xs[j], xs[j + 1])
    for i, x in zip(r, xs): eng.store(a.loc.f(('i', i)), x)
    return VOID
def permuted(eng, vv, lo, hi, pname='perm'):
    """fresh contents of [lo, hi) that are a permutation of the old; other positions unchanged. -> (Vec, p, pinv)"""
    p = z3.Function(eng.fresh_name(pname), z3.IntSort(), z3.IntSort()); q = z3.Function(eng.fresh_name(pname + '_inv'), z3.IntSort(), z3.IntSort())
    lo, hi = zi(lo), zi(hi); l0 = zi(vv.lo)
    arrs = [eng.fresh(x.sort(), 'sorted') for x in vv.arrs]
    eng.forall(lambda j: z3.Implies(z3.And(j >= lo, j < hi), z3.And(p(j) >= lo, p(j) < hi, q(p(j)) == j, *[x[j + l0] == y[p(j) + l0] for x, y in zip(arrs, vv.arrs)])),
               (), pats=lambda j: [p(j)] + [z3.Select(x, j + l0) for x in arrs][:0])
    eng.forall(lambda j: z3.Implies(z3.And(j >= lo, j < hi), z3.And(q(j) >= lo, q(j) < hi, p(q(j)) == j, *[x[q(j) + l0] == y[j + l0] for x, y in zip(arrs, vv.arrs)])),
               (), pats=lambda j: [q(j)])
    for x, y in zip(arrs, vv.arrs):
        eng.forall(lambda j, x=x, y=y: z3.Implies(z3.And(j >= l0, z3.Not(z3.And(j >= lo + l0, j < hi + l0))), x[j] == y[j]), [x], pats=lambda j, x=x: [x[j]])
        eng.trig.setdefault(x.get_id(), []).append(lambda j: z3.Implies(z3.And(j - l0 >= lo, j - l0 < hi), z3.And(p(j - l0) >= lo, p(j - l0) < hi, q(p(j - l0)) == j - l0, *[a[j] == b[p(j - l0) + l0] for a, b in zip(arrs, vv.arrs)])))
    return Vec(vv.et, vv.n, arrs, vv.lo), p, q
def sort_abstract(eng, f, v, a, b):
    """std::sort: sorted permutation; the comparison must be a strict weak order (obligation of the check)"""
    vv = eng.load(a.loc)
    if isinstance(vv, PyVec): raise Unsupported('sort of %d elements' % len(vv.xs))
    nv, p, q = permuted(eng, vv, a.idx, b.idx)
    eng.store(a.loc, nv)
    if eng.opts.get('sort_cmp'):
        ordered_range(eng, nv, cmp_term(eng, v, 2, vv.et), a.idx, b.idx, b.idx); eng.g['last_perm'] = (p, q); moved_to(eng, vv, nv, q, a.idx, b.idx); return VOID
    lt = eng.opts.get('sort_lt') or (lambda eng, v: (lambda x, y: val_lt(eng, x, y)) if len(v) < 3 else None)
    g = lt(eng, v)
    if g is not None:
        i0, i1 = zi(a.idx), zi(b.idx)
        eng.forall(lambda i, j: z3.Implies(z3.And(i >= i0, i < j, j < i1), z3.Not(zb(g(eng.vec_get_pure(nv, j), eng.vec_get_pure(nv, i))))), (), sorts=[z3.IntSort()] * 2,
                   pats=lambda i, j: [z3.MultiPattern(*[z3.Select(nv.arrs[0], zi(add(x, nv.lo))) for x in (i, j)])])
    eng.g['last_perm'] = (p, q)
    return VOID

# ------------------------------------------------------------------ optional, unique_ptr
@m('std::optional::operator bool', 'std::optional::has_value', 'boost::optional::operator bool')
def _ohas(eng, f, this, v): return eng.load(this).has
@m('boost::optional::operator!')
def _onot(eng, f, this, v): return Not(eng.load(this).has)
@m('std::optional::operator*', 'boost::optional::operator*')
def _oderef(eng, f, this, v):
    eng.oblige('optional holds a value', eng.load(this).has); return this.f(('o',))
@m('std::optional::operator->')
def _oarrow(eng, f, this, v):
    eng.oblige('optional holds a value', eng.load(this).has); return Ptr(this.f(('o',)))
@m('std::optional::value')
def _oval(eng, f, this, v):
    if not eng.branch(eng.load(this).has): throw(eng, 'std::bad_optional_access')
    return this.f(('o',))
@m('std::optional::reset')
def _oreset(eng, f, this, v): eng.store(this, Opt(False, eng.load(this).val)); return VOID
@m('std::optional::emplace')
def _oemp(eng, f, this, v):
    t = f.get('rec'); et = eng.P.elem(t)
    x = make_elem(eng, et, f, v)
    eng.store(this, Opt(True, x)); return this.f(('o',))
@m('std::optional::operator=')
def _oasg(eng, f, this, v):
    x = ld(eng, v[0])
    old = eng.load(this)
    if not isinstance(x, Opt):
        if (isinstance(x, Obj) and x.kind == 'std::nullopt_t') or (is_sym(x) and 'nullopt' in str(x.sort())): x = Opt(False, old.val)
        else: x = Opt(True, x)
    eng.store(this, x); return this
@m('global:std::nullopt')
def _nullopt(eng, n, gv): return Obj('std::nullopt_t')
@m('std::unique_ptr::operator bool')
def _uphas(eng, f, this, v): return eng.load(this).has
@m('std::unique_ptr::operator*')
def _upd(eng, f, this, v): return eng.resolve(eng.load(this))
@m('std::unique_ptr::operator->', 'std::unique_ptr::get')
def _upa(eng, f, this, v): return eng.load(this)
@m('std::unique_ptr::reset')
def _upr(eng, f, this, v):
    x = ld(eng, v[0]) if v else None
    eng.store(this, x if isinstance(x, Ptr) else Ptr(None)); return VOID
@m('std::unique_ptr::release')
def _uprel(eng, f, this, v):
    x = eng.load(this); eng.store(this, Ptr(None)); return x
@m('std::unique_ptr::swap')
def _upsw(eng, f, this, v):
    x, y = eng.load(this), eng.load(v[0]); eng.store(this, y); eng.store(v[0], x); return VOID
@m('std::unique_ptr::operator=')
def _upas(eng, f, this, v):
    x = v[0]
    if isinstance(x, Loc):
        y = eng.load(x); eng.store(x, Ptr(None)); x = y
    eng.store(this, x); return this
@m('std::make_unique')
def _mu(eng, f, this, v):
    t = f['targs'][0]
    if isinstance(t, list): t = t[0]
    g = [c for c in eng.P.funcs if c.get('ctor') and c.get('rec') == t and len(c['p']) == len(v) and not c.get('cm') and c.get('body') is not None]
    if eng.contracts.get('make_unique:' + (eng.P.rname(t) or '')):
        return eng.contracts['make_unique:' + eng.P.rname(t)](eng, f, t, v)
    if not g: raise Unsupported('make_unique of %s' % eng.tname(t))
    vals = []
    for i, (p, x) in enumerate(zip(g[0]['p'], v)):
        vals.append(x if eng.P.isref(p['t']) else ldm(eng, f, i, x))
    l = eng.new_root(None, t)
    eng.construct_at(l, g[0], t, vals)
    return Ptr(l)

# ------------------------------------------------------------------ hash maps and sets
MAPN = ('boost::unordered::unordered_flat_map', 'boost::unordered::unordered_flat_set', 'std::unordered_map', 'std::unordered_set', 'std::map', 'std::set', 'boost::unordered::concurrent_flat_set')
def mp(*ns):
    def d(fn):
        for s in MAPN:
            for n in ns: MODELS[s + '::' + n] = fn
        return fn
    return d
def mkey(eng, this, k):
    M = eng.load(this); return eng.key_term(M.kt, ld(eng, k))
def has(M, k):
    return sb(sel_arr(M.dom, k))
def sel_arr(a, k):
    while z3.is_store(a):
        if a.arg(1).eq(k): return a.arg(2)
        if z3.simplify(a.arg(1) == k).eq(z3.BoolVal(False)): a = a.arg(0); continue
        break
    if z3.is_K(a): return a.arg(0)
    return z3.Select(a, k)
@mp('find')
def _mfind(eng, f, this, v):
    k = mkey(eng, this, v[0]); M = eng.load(this)
    eng.on_key(this, k)
    return MapIt(this, k, has(M, k))
@mp('contains')
def _mcont(eng, f, this, v):
    k = mkey(eng, this, v[0]); eng.on_key(this, k)
    return has(eng.load(this), k)
@mp('count')
def _mcount(eng, f, this, v): return ite(_mcont(eng, f, this, v), 1, 0)
@mp('size')
def _msize(eng, f, this, v): return eng.load(this).size
@mp('empty')
def _mempty(eng, f, this, v): return eq(eng.load(this).size, 0)
@mp('reserve')
def _mres(eng, f, this, v): return VOID
@mp('clear')
def _mclear(eng, f, this, v): eng.store(this, eng.empty_map_like(eng.load(this))); return VOID
@mp('end', 'cend')
def _mend(eng, f, this, v):
    return MapIt(this, None, False, ('end',))
def map_order(eng, loc):
    """ghost enumeration of a map's keys in its (unspecified) iteration order"""
    M = eng.load(loc)
    key = ('maporder', M.dom.get_id())
    o = eng.g.get(key)
    if o is None:
        ks = M.dom.sort().domain()
        ordr = eng.fresh(z3.ArraySort(z3.IntSort(), ks), 'order'); pos = z3.Function(eng.fresh_name('orderpos'), ks, z3.IntSort())
        n = zi(M.size)
        eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(M.dom, ordr[j]), pos(ordr[j]) == j)), [ordr], pats=lambda j: [ordr[j]])
        eng.forall(lambda k: z3.Implies(z3.Select(M.dom, k), z3.And(pos(k) >= 0, pos(k) < n, ordr[pos(k)] == k)), (), sorts=[ks], pats=lambda k: [z3.Select(M.dom, k)] if not z3.is_store(M.dom) and not z3.is_K(M.dom) else [pos(k)])
        eng.assume(n >= 0)
        o = (ordr, pos, M.dom); eng.g[key] = o
    return o
@mp('begin', 'cbegin')
def _mbegin(eng, f, this, v):
    map_order(eng, this)
    return MapIt(this, None, True, 0)
def mapit_eq(eng, a, b):
    if a.pos is None and b.pos is None:
        return Or(And(Not(a.valid), Not(b.valid)), And(a.valid, b.valid, eq(a.key, b.key)))
    if isinstance(a.pos, tuple): a, b = b, a
    if isinstance(b.pos, tuple):   # comparison with end()
        if isinstance(a.pos, tuple): return True
        if a.pos is None: return Not(a.valid)
        return eq(a.pos, eng.load(a.loc).size)
    if a.pos is not None and b.pos is not None: return eq(a.pos, b.pos)
    raise Unsupported('map iterator comparison')
def mapit_key(eng, it):
    if it.pos is not None:
        M = eng.load(it.loc)
        if isinstance(it.pos, tuple): eng.oblige('map iterator dereferenced before the end', False); raise PathEnd()
        ordr, pos, dom = map_order(eng, it.loc)
        p = it.pos if is_sym(it.pos) else z3.IntVal(it.pos)
        eng.oblige('map iterator dereferenced before the end', And(cmpi('>=', p, 0), cmpi('<', p, M.size)))
        k = ordr[p]; eng.on_read(ordr, p)
        eng.on_key(it.loc, k)
        return k
    eng.oblige('map iterator dereferenced before the end', it.valid)
    return it.key
TI = 'boost::unordered::detail::foa::table_iterator::'
def entry_ref(eng, it):
    M = eng.load(it.loc); k = mapit_key(eng, it)
    kv = eng.key_unterm(M.kt, k)
    if M.vt is None: return eng.new_root(kv, M.kt)
    return eng.new_root(Tup([kv, it.loc.f(('m', k))]))
@m(TI + 'operator*')
def _mid(eng, f, this, v): return entry_ref(eng, eng.load(this))
@m(TI + 'operator->')
def _mia(eng, f, this, v): return Ptr(entry_ref(eng, eng.load(this)))
@m(TI + 'operator++')
def _mii(eng, f, this, v):
    it = eng.load(this)
    if it.pos is None or isinstance(it.pos, tuple): raise Unsupported('advancing a found map iterator')
    eng.store(this, MapIt(it.loc, None, True, add(it.pos, 1))); return this
@m(TI + 'operator=')
def _mias(eng, f, this, v): eng.store(this, ld(eng, v[0])); return this
@m(TI + 'table_iterator')
def _mic(eng, f, t, vals, n): return ld(eng, vals[0])
def map_put(eng, this, k, val):
    M = eng.load(this)
    new = Not(has(M, k))
    arrs = M.arrs
    if M.vt is not None:
        ls = [eng.as_sort(x, s) for x, s in zip(eng.flat(val, M.vt), eng.leaf_sorts(M.vt))]
        arrs = [z3.Store(a, k, ite(new, x, sel_arr(a, k)) if new is not True else x) for a, x in zip(M.arrs, ls)]
    eng.store(this, MapV(M.kt, M.vt, z3.Store(M.dom, k, z3.BoolVal(True)), arrs, ite(new, add(M.size, 1), M.size)))
    eng.assume(zi(eng.load(this).size) < 2**48)
    return new
def set_insert_range(eng, this, M, a, b):
    """the elements of a range join a set"""
    if not (isinstance(a, It) and isinstance(b, It) and len(eng.leaf_sorts(M.kt)) == 1): raise Unsupported('range insertion into a set')
    x = eng.load(a.loc)
    if not isinstance(x, Vec): raise Unsupported('range insertion into a set')
    arr = x.arrs[0]; lo, hi = zi(add(a.idx, x.lo)), zi(add(b.idx, x.lo)); ks = M.dom.sort().domain()
    dom = eng.fresh(M.dom.sort(), 'inserted'); w = z3.Function(eng.fresh_name('inserted_from'), ks, z3.IntSort()); n = eng.fresh(z3.IntSort(), 'size')
    old = (lambda q: z3.BoolVal(False)) if z3.is_K(M.dom) and z3.is_false(M.dom.arg(0)) else (lambda q: M.dom[q])
    eng.forall(lambda q: z3.And(z3.Implies(old(q), dom[q]), z3.Implies(dom[q], z3.Or(old(q), z3.And(w(q) >= lo, w(q) < hi, arr[w(q)] == q)))), sorts=[ks], pats=lambda q: [dom[q]])
    eng.forall(lambda k: z3.Implies(z3.And(k >= lo, k < hi), dom[arr[k]]), [arr], pats=lambda k: [arr[k]])
    eng.assume(z3.And(n >= zi(M.size), n <= zi(M.size) + z3.If(hi > lo, hi - lo, 0), n < 2**48))
    eng.store(this, MapV(M.kt, None, dom, [], n)); return VOID
@m('std::set_intersection')
def _setint(eng, f, this, v):
    a, b, c, d = (ld(eng, x) for x in v[:4]); out = ld(eng, v[4])
    r1, r2 = small_range(eng, a, b), small_range(eng, c, d)
    if r1 is None or r2 is None or len(r1) > 4 or len(r2) > 4 or not isinstance(out, BackIns) or len(v) > 5: raise Unsupported('set_intersection')
    xs = [eng.load(a.loc.f(('i', i))) for i in r1]; ys = [eng.load(c.loc.f(('i', i))) for i in r2]; 
    def fl(x):
        while isinstance(x, Rec) and len(x.d) == 1: x = next(iter(x.d.values()))
        if isinstance(x, (Rec, Tup)): raise Unsupported('set_intersection')
        return zi(x)
    for zs in (xs, ys):
        for p, q in zip(zs, zs[1:]): eng.oblige('set_intersection is given strictly increasing ranges', fl(p) < fl(q))
    o = eng.load(out.loc)
    if isinstance(o, PyVec): o = eng.pyvec_to_vec(o, eng.P.elem(eng.rtype[out.loc.root])) if not out.loc.path and eng.rtype.get(out.loc.root) is not None else o
    if not isinstance(o, Vec) or len(o.arrs) != 1: raise Unsupported('result of set_intersection')
    arr, n = o.arrs[0], zi(o.n)
    for x in xs:
        c = z3.Or(*[fl(x) == fl(y) for y in ys]); arr = z3.If(c, z3.Store(arr, n + zi(o.lo), fl(x)), arr); n = n + z3.If(c, 1, 0)
    n1, a1 = eng.fresh(z3.IntSort(), 'common'), eng.fresh(arr.sort(), 'common'); eng.assume(z3.And(n1 == n, a1 == arr))
    eng.store(out.loc, Vec(o.et, n1, [a1], o.lo)); return out
@mp('emplace', 'insert', 'try_emplace')
def _memp(eng, f, this, v):
    M = eng.load(this)
    if M.vt is None:
        if len(v) == 2 and isinstance(ld(eng, v[0]), (It, MapIt)): return set_insert_range(eng, this, M, ld(eng, v[0]), ld(eng, v[1]))
        kv = make_elem(eng, M.kt, None, v); val = None
    elif len(v) == 1:
        x = ld(eng, v[0]); kv, val = ld(eng, x.xs[0]), ld(eng, x.xs[1])
    else:
        kv = make_elem(eng, M.kt, None, [v[0]]); val = make_elem(eng, M.vt, None, [ldm(eng, f, 1, v[1])] + v[2:])
    k = eng.key_term(M.kt, kv); eng.on_key(this, k)
    hook = eng.opts.get('map_insert')
    if hook: hook(eng, this, k, val)
    new = map_put(eng, this, k, val)
    if f['nn'].startswith('boost::unordered::concurrent'): return new
    return Tup([MapIt(this, k, True), new])
@mp('operator[]')
def _midx(eng, f, this, v):
    k = mkey(eng, this, v[0]); M = eng.load(this); eng.on_key(this, k)
    if not eng.quick(zb(has(M, k))): map_put(eng, this, k, eng.zero(M.vt))
    return this.f(('m', k))
@mp('at')
def _mat(eng, f, this, v):
    k = mkey(eng, this, v[0]); M = eng.load(this); eng.on_key(this, k)
    if not eng.branch(has(M, k)): throw(eng, 'std::out_of_range')
    return this.f(('m', k))
@mp('erase')
def _merase(eng, f, this, v):
    k = mkey(eng, this, v[0]); M = eng.load(this); h = has(M, k)
    eng.store(this, MapV(M.kt, M.vt, z3.Store(M.dom, k, z3.BoolVal(False)), M.arrs, ite(h, sub(M.size, 1), M.size))); return ite(h, 1, 0)
@mp('operator=')
def _masg(eng, f, this, v):
    x = v[0]
    mv = isinstance(x, Loc) and f['p'] and eng.P.types[f['p'][0]['t']].get('rv')
    eng.store(this, eng.move_from(x) if mv else ld(eng, x)); return this

# ------------------------------------------------------------------ queue / stack: a growing sequence with a moving front
@m('std::queue::push', 'std::queue::emplace', 'std::stack::push', 'std::stack::emplace')
def _qpush(eng, f, this, v):
    x = make_elem(eng, loc_elem_type(eng, this, f), f, v)
    hook = eng.opts.get('on_push')
    if hook: hook(eng, this, x)
    eng.store(this, eng.vec_push(eng.load(this), x)); return VOID
@m('std::queue::empty', 'std::stack::empty')
def _qempty(eng, f, this, v): return eq(eng.vec_len(eng.load(this)), 0)
@m('std::queue::size', 'std::stack::size')
def _qsize(eng, f, this, v): return eng.vec_len(eng.load(this))
@m('std::queue::front')
def _qfront(eng, f, this, v):
    eng.oblige('front of a non-empty queue', cmpi('>', eng.vec_len(eng.load(this)), 0)); return this.f(('i', 0))
@m('std::queue::pop')
def _qpop(eng, f, this, v):
    q = eng.load(this)
    eng.oblige('pop from a non-empty queue', cmpi('>', eng.vec_len(q), 0))
    eng.store(this, PyVec(q.xs[1:]) if isinstance(q, PyVec) else Vec(q.et, sub(q.n, 1), q.arrs, add(q.lo, 1))); return VOID
@m('std::stack::top')
def _stop(eng, f, this, v):
    n = eng.vec_len(eng.load(this)); eng.oblige('top of a non-empty stack', cmpi('>', n, 0)); return this.f(('i', sub(n, 1)))
@m('std::stack::pop')
def _spop(eng, f, this, v):
    q = eng.load(this); n = eng.vec_len(q)
    eng.oblige('pop from a non-empty stack', cmpi('>', n, 0))
    eng.store(this, PyVec(q.xs[:-1]) if isinstance(q, PyVec) else Vec(q.et, sub(n, 1), q.arrs, q.lo)); return VOID

# ------------------------------------------------------------------ exceptions
@m('std::runtime_error::runtime_error', 'std::invalid_argument::invalid_argument', 'std::out_of_range::out_of_range', 'std::logic_error::logic_error')
def _exc(eng, f, t, vals, n): return Obj('exc', type=Str(eng.P.rname(t)))

# ------------------------------------------------------------------ locks (sequential view; the concurrency checks override these)
@m('std::lock_guard::lock_guard', 'std::scoped_lock::scoped_lock', 'std::unique_lock::unique_lock')
def _lock(eng, f, t, vals, n): return Obj('std::lock_guard')
@m('std::mutex::mutex')
def _mutex(eng, f, t, vals, n): return Obj('std::mutex')
@m('std::thread::hardware_concurrency')
def _hwc(eng, f, this, v):
    n = z3.Const('hardware_concurrency', z3.IntSort()); eng.assume(z3.And(n >= 0, n < 2**32)); return n
@m('boost::hash_combine')
def _hc(eng, f, this, v):
    eng.store(v[0], eng.fresh_of(eng.P.deref(f['p'][0]['t']), 'hash')); return VOID
@m('std::less::operator()')
def _less(eng, f, this, v): return val_lt(eng, v[0], v[1])
@m('functor:std::less')
def _fless(eng, o, v): return val_lt(eng, v[0], v[1])
@m('std::less::less', 'std::allocator::allocator', 'std::equal_to::equal_to')
def _ctor0(eng, f, t, vals, n): return Obj(eng.P.rname(t))

# ------------------------------------------------------------------ CGAL: exact kernel objects
def P3(eng):
    return eng.P.sort_of('CGAL::Point_3')
def px(eng): return [z3.Function('p' + c, P3(eng), z3.RealSort()) for c in 'xyz']
def point_facts(eng, a, b):
    """points are equal exactly when their coordinates are"""
    fs = px(eng)
    return (a == b) == z3.And(*[g(a) == g(b) for g in fs])
@m('CGAL::operator==')
def _cgeq(eng, f, this, v):
    a, b = ld(eng, v[0]), ld(eng, v[1])
    if is_sym(a) and is_sym(b) and str(a.sort()) == 'CGAL.Point_3': eng.assume(point_facts(eng, a, b))
    return val_eq(eng, a, b)
@m('CGAL::operator!=')
def _cgne(eng, f, this, v): return Not(_cgeq(eng, f, this, v))
def _number(x): return isinstance(x, (int, float)) or is_sym(x) and (z3.is_int(x) or z3.is_real(x))
def _cgcmp(op):
    def fn(eng, f, this, v):
        a, b = ld(eng, v[0]), ld(eng, v[1])
        if not (_number(a) and _number(b)): raise Unsupported('comparison of %r' % (a,))
        a, b = eng.as_sort(a, z3.RealSort()), eng.as_sort(b, z3.RealSort())
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
    return fn
for _o in ('<', '>', '<=', '>='): MODELS['CGAL::operator' + _o] = _cgcmp(_o)
@m('CGAL::Point_3::Point_3')
def _p3(eng, f, t, vals, n):
    vs = [ld(eng, x) for x in vals]
    if not vs: return z3.Const('default:CGAL::Point_3', P3(eng))
    if len(vs) == 1: return vs[0]
    p = eng.fresh(P3(eng), 'pt')
    for g, x in zip(px(eng), vs): eng.assume(g(p) == eng.as_sort(x, z3.RealSort()))
    return p
def _coord(i):
    def fn(eng, f, this, v): return px(eng)[i](ld(eng, this))
    return fn
for _i, _c in enumerate('xyz'): MODELS['CGAL::Point_3::' + _c] = _coord(_i)
def bbox_sort(eng): return eng.P.sort_of('CGAL::Bbox_3')
@m('CGAL::Point_3::bbox')
def _pbbox(eng, f, this, v): return z3.Function('bbox_point', P3(eng), bbox_sort(eng))(ld(eng, this))
def ufunc(name, n, ret):
    """uninterpreted but deterministic function of its arguments"""
    def fn(eng, f, this, v):
        xs = ([this] if this is not None else []) + list(v)
        xs = [ld(eng, x) for x in xs]
        xs = [x if is_sym(x) else z3.IntVal(x) for x in xs]
        rs = ret(eng) if callable(ret) else ret
        return z3.Function(name, *[x.sort() for x in xs], rs)(*xs)
    return fn
MODELS['CGAL::Bbox_3::operator+'] = ufunc('bbox_join', 2, bbox_sort)
@m('CGAL::Bbox_3::operator+=')
def _bbpe(eng, f, this, v):
    r = z3.Function('bbox_join', bbox_sort(eng), bbox_sort(eng), bbox_sort(eng))(eng.load(this), ld(eng, v[0])); eng.store(this, r); return this
@m('CGAL::Bbox_3::operator=', 'CGAL::Lazy_exact_nt::operator=')
def _bba(eng, f, this, v): eng.store(this, ld(eng, v[0])); return this
@m('CGAL::Bbox_3::Bbox_3')
def _bbc(eng, f, t, vals, n):
    vs = [ld(eng, x) for x in vals]
    if not vs: return z3.Const('bbox_empty', bbox_sort(eng))
    if len(vs) == 1: return vs[0]
    return z3.Function('bbox_make', *([z3.RealSort()] * 6), bbox_sort(eng))(*[eng.as_sort(x, z3.RealSort()) for x in vs])
for _i, _c in enumerate(('xmin', 'ymin', 'zmin', 'xmax', 'ymax', 'zmax')): MODELS['CGAL::Bbox_3::' + _c] = ufunc('bbox_' + _c, 1, z3.RealSort())
@m('CGAL::Triangle_3::Triangle_3')
def _tri(eng, f, t, vals, n):
    vs = [ld(eng, x) for x in vals]
    if len(vs) == 1: return vs[0]
    s = eng.P.sort_of('CGAL::Triangle_3')
    return z3.Function('triangle', P3(eng), P3(eng), P3(eng), s)(*vs)

# ------------------------------------------------------------------ progress output on the standard streams has no effect on results
def _std_stream(eng, x):
    o = eng.load(x) if isinstance(x, Loc) else x
    return isinstance(o, Obj) and str(o.d.get('name', '')).split('::')[-1] in ('cout', 'cerr', 'clog')
@m('std::operator<<', 'std::basic_ostream::operator<<', 'std::basic_ostream::flush')
def _out(eng, f, this, v):
    s = this if this is not None else v[0]
    if not _std_stream(eng, s): raise Unsupported('output to a stream (%s)' % f['nn'])
    return s

def install(eng): pass

# ------------------------------------------------------------------ exact numbers
def _real(eng, x):
    x = ld(eng, x)
    if not is_sym(x): x = z3.RealVal(x)
    if x.sort() != z3.RealSort(): raise Unsupported('sign of something that is not a number')
    return x
@m('CGAL::sign')
def _sign(eng, f, this, v):
    x = _real(eng, v[0]); return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))
@m('CGAL::compare')
def _ncmp(eng, f, this, v):
    a, b = _real(eng, v[0]), _real(eng, v[1]); return z3.If(a > b, z3.IntVal(1), z3.If(a < b, z3.IntVal(-1), z3.IntVal(0)))
@m('CGAL::is_zero')
def _isz(eng, f, this, v): return _real(eng, v[0]) == 0
@m('CGAL::is_positive')
def _isp(eng, f, this, v): return _real(eng, v[0]) > 0
@m('CGAL::is_negative')
def _isn(eng, f, this, v): return _real(eng, v[0]) < 0
