"""Helpers for writing contracts."""
import z3
from .engine import *
from .engine import And, Or, Not, Imp, Iff, eq, ite, add, sub, zi, zb, Quant, SpecError, SymLoc, LoopCtx
from .prog import Unsupported

I = z3.IntSort()
INVALID = 2**64 - 1

def at(vec, j, leaf=0):
    """leaf term of element j of a sequence value"""
    if isinstance(vec, (PyVec, Tup)): raise SpecError('concrete sequence')
    return z3.Select(vec.arrs[leaf], zi(add(j, vec.lo)))
def T(fn, *sorts):
    """build fn(placeholders) once; instances by substitution"""
    sorts = sorts or (I,)
    ph = [z3.Const('ph~%d' % i, s) for i, s in enumerate(sorts)]
    body = zb(fn(*ph))
    return lambda *xs: z3.substitute(body, *[(p, x if is_sym(x) else z3.IntVal(x)) for p, x in zip(ph, xs)])
def is_soup(P, t, mixed=None):
    if P.rname(t) != 'kigumi::Triangle_soup': return False
    if mixed is None: return True
    fd = P.targ(t, 1)
    return (P.rname(fd) == 'kigumi::Mixed_face_data') == mixed
def is_mesh(P, t): return P.rname(t) == 'kigumi::Triangle_mesh'
def is_index(P, t, tag):
    return P.rname(t) == 'kigumi::Index' and P.rname(P.targ(t, 0)) == 'kigumi::' + tag
def vec_of(P, pred):
    return lambda P_, t: P_.kind(t) == 'vec' and pred(P_, P_.elem(t))
def is_vertex_index(P, t): return is_index(P, t, 'Vertex_index_tag')
def is_face_index(P, t): return is_index(P, t, 'Face_index_tag')
def typ_where(P, pred):
    for t in P.types:
        if t['k'] == 'r' and not t.get('lambda') and pred(P, t['id']): return t['id']
    raise Unsupported('type not found in the current source')

def soup_wf(eng, s, faces=True):
    """a well-formed soup/mesh: one data item per face, face corners are vertices"""
    pn = zi(s.d['points_'].n); fn = zi(s.d['faces_'].n)
    eng.assume(zi(s.d['face_data_'].n) == fn)
    if faces:
        arrs = s.d['faces_'].arrs
        eng.forall(lambda j: z3.Implies(z3.And(j >= 0, j < fn), z3.And(*[z3.And(a[j] >= 0, a[j] < pn) for a in arrs])), arrs, pats=lambda j: [a[j] for a in arrs])

def run(eng, f, this, vals):
    """call the body of f itself even when it has a contract"""
    return eng.inline(f, this, vals)
def ref(eng, v, t): return eng.new_root(v, t)
def verify(eng, thunk, post):
    """every path of thunk satisfies post(kind, value); kind is 'ret' or 'throw'.
    At least one path must reach the postcondition with assumptions that are not contradictory."""
    import multiprocessing as mp
    reached, real = mp.Value('i', 0), mp.Value('i', 0)
    def th():
        try: v = thunk(); kind = 'ret'
        except CxxThrow as e: v = e; kind = 'throw'
        reached.value = 1
        if not real.value and not contradictory(eng): real.value = 1
        post(kind, v)
    eng.pexplore(th)
    if reached.value and not real.value: raise Unsupported('vacuous: the assumptions are contradictory on every path')
def contradictory(eng, ms=2000):
    s = z3.Solver(); s.set('timeout', ms)
    for f, _ in eng.pc: s.add(f)
    return s.check() == z3.unsat
